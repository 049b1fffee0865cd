// P06: JSON text written by the library reads back as an equal document
#include "json_common.h"
//@ bound (large) lists of 13, objects of 12 keys, 9 levels of nesting and texts of 305 characters
//@ bound document trees of depth <= 2 (quick) / 3 (thorough) and width <= 2, empty lists and objects included; quoted leaves of 0..2 arbitrary bytes, unquoted leaves true/false/signed integers of up to 2 arbitrary digits/decimals/scientific numerals; keys of 0..1 arbitrary bytes (quick), 0..2 (thorough)
//@ assume texts contain no quote, comma, colon, bracket, line break or NUL; an empty text without a type reads back as an empty text of type STRING
//@ H_flat t=100 T=800
//@ H_nested t=150 T=850
static Doc leaf(size_t kinds) { Doc d; d.k = Doc::Leaf; size_t k = sym::pick("leaf", 0, kinds);
  auto dg = [] { char c = sym::chr("digit"); ls_assume((unsigned char)(c - '0') < 10); return c; };
  switch (k) { case 0: d.t = TypeChecker::Type::STRING; d.s = plain_text("text", 1); break;
    case 1: d.t = TypeChecker::Type::INT; { char c = dg(); d.s = std::string("-") + c; } break;
    case 2: d.t = TypeChecker::Type::STRING; d.s = ""; break;
    case 3: d.t = TypeChecker::Type::STRING; d.s = plain_text("text", 2); break;
    case 8: break; // no text at all, no type
    case 4: d.t = TypeChecker::Type::BOOL; d.s = sym::flag("b") ? "true" : "false"; break;
    case 5: d.t = TypeChecker::Type::INT; { char c = dg(); ls_assume(c != '0'); d.s = std::string(1, c) + dg(); } break;
    case 6: d.t = TypeChecker::Type::FLOAT; { char c = dg(); d.s = std::string(1, c) + "." + dg(); } break;
    default: d.t = TypeChecker::Type::FLOAT; { char c = dg(); d.s = std::string("+") + c + "e-" + dg(); } }
  return d; }
static std::string key() { return plain_text("key", sym::pick("keylen", 0, TIER(1, 2))); }
static Doc node(int depth, size_t kinds, bool keys) { size_t k = depth ? sym::pick("kind", 0, 2) : 0; if (k == 0) return leaf(kinds); Doc d; size_t n = sym::pick("width", 0, 2);
  if (k == 1) { d.k = Doc::List; for (size_t i = 0; i < n; i++) d.l.push_back(node(depth - 1, kinds, keys)); }
  else { d.k = Doc::Dict; for (size_t i = 0; i < n; i++) { std::string q = keys ? key() : std::string(1, (char)('a' + i)); if (d.m.count(q)) ls_kill(); d.m[q] = node(depth - 1, kinds, keys); } }
  return d; }
static Doc typed(Doc d) { if (d.k == Doc::Leaf && d.s.empty()) d.t = TypeChecker::Type::STRING; for (auto& x : d.l) x = typed(x); for (auto& e : d.m) e.second = typed(e.second); return d; }
static void trip(const Doc& o) { Doc d = o;
  JsonItem j = make(d); ls_check(same(j, d), "document built as described"); std::stringstream ss; ss << j; std::string t = ss.str(); ls_check(t == text_of(d), "text is the JSON form of the document");
  d = typed(d); JsonItem r; ss >> r; ls_check(same(r, d), "document read back has every value, type, order and key"); ls_check(r == j && j == r && !(r != j), "document read back is equal to the original");
  std::stringstream s2; s2 << r; ls_check(s2.str() == t, "writing the document again gives the same text"); ls_obs("size", r.size());
  if (d.k == Doc::List) { std::stringstream s3(t); JsonList l; s3 >> l; ls_check(same(JsonItem(l), d), "list read back on its own"); ls_check(std::string(l) == t && std::string(j) == t, "list text"); }
  if (d.k == Doc::Dict) { std::stringstream s3(t); JsonDict l; s3 >> l; ls_check(same(JsonItem(l), d), "object read back on its own"); ls_check(std::string(l) == t && std::string(j) == t, "object text"); }
  if (d.k == Doc::Leaf) { std::stringstream s3(t); JsonLeaf l; s3 >> l; ls_check(l.value() == d.s && l.type() == d.t, "leaf read back on its own"); }
  ls_reach("end"); }
ENTRY(flat) { Doc d = node(1, 8, true); trip(d); }
ENTRY(nested) { Doc d = node(TIER(2, 3), 1, false); trip(d); }
// documents built from C++ values keep the value's text and kind
ENTRY(values) { Doc d; d.k = Doc::Leaf; JsonItem j; sym::Real r; size_t k = sym::pick("k", 0, 3);
  if (k == 0) { int v = (int)(int32_t)sym::range("v", 0, 1999) - 1000; j = JsonItem(v); d.t = TypeChecker::Type::INT; d.s = std::to_string(v); ls_check(j.as<int>() == v, "integer value"); int w = 7; j.as(w); ls_check(w == v, "integer value stored"); JsonItem l(std::vector<JsonItem>{j, j}); std::vector<int> iv{9}; l.as_vec(iv); ls_check(iv.size() == 2 && iv[0] == v && iv[1] == v, "list of integers"); JsonDict o; o["a"] = j; std::map<std::string, int> im{{"z", 1}}; JsonItem(o).as_map(im); ls_check(im.size() == 1 && im["a"] == v, "object of integers"); }
  else if (k == 1) { bool v = sym::flag("v"); j = JsonItem(v); d.t = TypeChecker::Type::BOOL; d.s = v ? "true" : "false"; ls_check(j.as<bool>() == v, "bool value"); bool w = !v; j.as(w); ls_check(w == v, "bool value stored"); }
  else if (k == 2) { r = sym::real("v", -1000, 1000); j = JsonItem(r.v); d.t = TypeChecker::Type::FLOAT; d.s = std::to_string(r.v); double b = j.as<double>(), w = 3.5; j.as(w); ls_check_eq(w, b, "real value stored"); ls_check_le(b - r.v, 0.0000005000001, "real value to six decimals"); ls_check_le(r.v - b, 0.0000005000001, "real value to six decimals"); }
  else { std::string s = plain_text("s", 2 * sym::pick("len", 0, 1)); j = JsonItem(s); d.s = s; d.t = TypeChecker::parse(s); ls_check(std::string(j) == s, "text value"); std::string w = "old"; j.as(w); ls_check(w == s, "text value stored"); }
  ls_check(same(j, d), "leaf made from a value"); JsonItem l = JsonItem(std::vector<JsonItem>{j, j}); Doc dl; dl.k = Doc::List; dl.l = {d, d}; trip(dl); }
ENTRY(large) { size_t k = sym::pick("shape", 0, 3); Doc d; auto some = [](size_t i) { Doc q; q.k = Doc::Leaf; q.t = TypeChecker::Type::INT; q.s = std::to_string(i * 37); return q; }; if (k == 0) { d.k = Doc::List; for (size_t i = 0; i < 13; i++) d.l.push_back(i == 4 ? leaf(3) : some(i)); } else if (k == 1) { d.k = Doc::Dict; for (size_t i = 0; i < 11; i++) d.m["key" + std::to_string(i)] = i == 7 ? leaf(3) : some(i); d.m[plain_text("key", 5)] = some(3); if (d.m.size() < 12) ls_kill(); } else if (k == 2) { d = leaf(3); for (size_t i = 0; i < 9; i++) { Doc q; if (i % 2) { q.k = Doc::List; q.l = {some(i), d, some(i + 1)}; } else { q.k = Doc::Dict; q.m["in"] = d; q.m["x"] = some(i); } d = q; } } else { d.k = Doc::Leaf; d.t = TypeChecker::Type::STRING; d.s = plain_text("long", 3) + std::string(300, 'q') + plain_text("long", 2); Doc q; q.k = Doc::List; q.l = {d, some(1)}; d = q; } trip(d); }
