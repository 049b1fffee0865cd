// P08: reading any text as JSON ends, with an error or a document, and touches only its own memory
#include "json_common.h"
//@ bound every text of 0..4 (quick) / 0..6 (thorough) arbitrary bytes read as a document, list, object or leaf; in addition every text of up to 7 (quick) / 9 (thorough) characters over the JSON punctuation alphabet
//@ H_bytes t=200 T=850
//@ H_punct t=200 T=850
static void read(const std::string& t, size_t how) { std::stringstream ss(t); bool err = false;
  try { if (how == 0) { JsonItem j; ss >> j; std::string s = j; ls_check(j.json_type() != JsonObject::JsonType::NONE, "a document or an error"); std::stringstream o; o << j; JsonItem k(j); ls_check(k.size() == j.size(), "document usable"); }
    else if (how == 1) { JsonList l; ss >> l; std::string s = l; } else if (how == 2) { JsonDict l; ss >> l; std::string s = l; } else { JsonLeaf l; ss >> l; std::string s = l; } } catch (const std::exception&) { err = true; }
  ls_obs("err", err); ls_reach("end"); }
ENTRY(bytes) { size_t n = sym::pick("len", 0, TIER(4, 6)); size_t how = n > 3 ? 0 : sym::pick("how", 0, 3); read(sym::text("c", n), how); }
ENTRY(punct) { size_t n = sym::pick("len", 4, TIER(7, 9)); size_t how = n > 6 ? 0 : sym::pick("how", 0, 2); static const char al[8] = {'[', ']', '{', '}', '"', ',', ':', 'a'}; std::string t; if (how < 3 && n > 5) t = sym::flag("open") ? "[" : "{\"\":"; 
  while (t.size() < n) { char c = sym::chr("c"); bool in = false; for (char x : al) in |= c == x; ls_assume(in); t += c; } read(t, how); }
