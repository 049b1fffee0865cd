// P07: a JSON document behaves as a value
#include "json_common.h"
//@ bound two documents edited by every history of up to 3 (quick) / 4 (thorough) operations out of 10 (set by key, set by index, append, nested set, copy, assign, replace by leaf, read), keys of one arbitrary byte out of the whole range, indices 0..2, over documents of up to 3 elements
//@ assume a leaf is identified by its text
//@ H_history t=200 T=850
//@ H_errors t=60 T=300
//@ H_equality t=100 T=500
static Doc leafd(const std::string& s) { Doc d; d.k = Doc::Leaf; d.s = s; d.t = TypeChecker::Type::STRING; return d; }
static const char* vals[4] = {"p", "qq", "r", "sss"};
ENTRY(history) {
  JsonItem j[2]; Doc d[2]; size_t n = TIER(3, 4); std::string key[2]; key[0] = std::string(1, plain_text("key", 1)[0]); key[1] = std::string(1, plain_text("key", 1)[0]); bool start = sym::flag("start");
  if (start) { d[0].k = Doc::List; d[0].l = {leafd("0"), leafd("1")}; Doc in; in.k = Doc::Dict; in.m[key[0]] = leafd("x"); d[0].l.push_back(in); j[0] = make(d[0]); }
  for (size_t s = 0; s < n; s++) {
    size_t op = sym::pick("op", 0, 7), who = op == 4 || op == 5 ? 0 : sym::pick("who", 0, 1); JsonItem& J = j[who]; Doc& D = d[who]; std::string v = vals[s]; bool err = false;
    switch (op) {
      case 0: { size_t k = sym::pick("k", 0, 1); err = sym::throws_as<std::runtime_error>([&] { J[key[k]] = JsonItem(JsonLeaf(v, TypeChecker::Type::STRING)); }); bool bad = D.k == Doc::List || D.k == Doc::Leaf; ls_check(err == bad, "setting by key fails exactly on lists and leaves"); if (!bad) { D.k = Doc::Dict; D.m[key[k]] = leafd(v); } break; }
      case 1: { size_t i = sym::pick("i", 0, 2); err = sym::throws_as<std::runtime_error>([&] { J[i] = JsonItem(JsonLeaf(v, TypeChecker::Type::STRING)); }); bool bad = D.k != Doc::List || i >= D.l.size(); ls_check(err == bad, "setting by index fails exactly outside a list"); if (!bad) D.l[i] = leafd(v); break; }
      case 2: { err = sym::throws_as<std::runtime_error>([&] { J.append(JsonItem(JsonLeaf(v, TypeChecker::Type::STRING))); }); bool bad = D.k == Doc::Leaf || D.k == Doc::Dict; ls_check(err == bad, "append fails exactly on leaves and objects"); if (!bad) { D.k = Doc::List; D.l.push_back(leafd(v)); } break; }
      case 3: { // nested: append to / set in the element at index 0 or key 0
        if (D.k == Doc::List && D.l.size() && D.l.back().k != Doc::Leaf) { J[D.l.size() - 1][key[1]] = JsonItem(JsonLeaf(v, TypeChecker::Type::STRING)); D.l.back().k = Doc::Dict; D.l.back().m[key[1]] = leafd(v); }
        else if (D.k == Doc::Dict) { if (D.m.count(key[0]) && D.m[key[0]].k != Doc::List) { ls_check(sym::throws_as<std::runtime_error>([&] { J[key[0]].append(JsonItem(1)); }), "append to a nested leaf fails"); } else { J[key[0]].append(JsonItem(JsonLeaf(v, TypeChecker::Type::STRING))); D.m[key[0]].k = Doc::List; D.m[key[0]].l.push_back(leafd(v)); } }
        else ls_kill();
        break; }
      case 4: j[1] = j[0]; d[1] = d[0]; break;
      case 5: { JsonItem t(j[0]); j[1] = t; d[1] = d[0]; t = JsonItem(7); break; }
      case 6: { J = JsonItem(JsonLeaf(v, TypeChecker::Type::STRING)); D = leafd(v); break; }
      default: { if (D.k == Doc::List && D.l.size()) { JsonItem t = J[0]; J.append(t); Doc q = D.l[0]; D.l.push_back(q); } else { JsonItem t; t.append(J); t.append(J); J = t; Doc q; q.k = Doc::List; q.l = {D, D}; D = q; } break; }
    }
    ls_check(same(j[0], d[0]) && same(j[1], d[1]), "an edit has exactly its effect on the edited document"); }
  ls_obs("size", j[0].size()); ls_obs("size1", j[1].size()); ls_reach("end"); }
// failing accesses raise an error and change nothing
ENTRY(errors) {
  Doc d; size_t k = sym::pick("kind", 0, 3); std::string a = plain_text("key", 1), b = plain_text("key", 1); if (k == 1) d = leafd(plain_text("t", 1)); else if (k == 2) { d.k = Doc::List; size_t n = sym::pick("n", 0, 2); for (size_t i = 0; i < n; i++) d.l.push_back(leafd(vals[i])); } else if (k == 3) { d.k = Doc::Dict; d.m[a] = leafd("x"); }
  JsonItem j = make(d); size_t i = sym::range("index", 0, 0xffffffffu);
  { bool bad = k != 2 || i >= d.l.size(); bool e = sym::throws_as<std::runtime_error>([&] { (void)j.at(i); }); ls_check(e == bad, "at(index) fails exactly outside the list"); e = sym::throws_as<std::runtime_error>([&] { (void)j[i]; }); ls_check(e == bad, "[index] fails exactly outside the list"); }
  { bool bad = k != 3 || a != b; bool e = sym::throws_as<std::runtime_error>([&] { (void)j.at(b); }); ls_check(e == bad, "at(key) fails exactly for missing keys and non-objects"); }
  if (k == 1 || k == 2) ls_check(sym::throws_as<std::runtime_error>([&] { (void)j[b]; }), "[key] fails on lists and leaves"); if (k == 1 || k == 3) ls_check(sym::throws_as<std::runtime_error>([&] { j.append(JsonItem(1)); }), "append fails on leaves and objects");
  if (k != 2) ls_check(sym::throws_as<std::runtime_error>([&] { (void)j.as_vec<std::string>(); }), "conversion to a list fails for the others"); if (k != 3) ls_check(sym::throws_as<std::runtime_error>([&] { (void)j.as_map<std::string>(); }), "conversion to a map fails for the others"); if (k != 1) ls_check(sym::throws_as<std::runtime_error>([&] { (void)j.as<int>(); }), "conversion to a number fails for the others"); if (k == 0) ls_check(sym::throws_as<std::runtime_error>([&] { (void)j.value(); }), "value of the empty document");
  ls_check(same(j, d), "failing accesses leave the document unchanged");
  if (k == 2) { auto v = j.as_vec<std::string>(); ls_check(v.size() == d.l.size(), "list size"); for (size_t q = 0; q < v.size(); q++) ls_check(v[q] == d.l[q].s, "list as vector"); std::vector<std::string> w{"old"}; j.as_vec(w); ls_check(w == v, "list stored in a vector"); }
  if (k == 3) { auto m = j.as_map<std::string>(); ls_check(m.size() == 1 && m.count(a) && m[a] == "x", "object as map"); std::map<std::string, std::string> w{{"old", "q"}}; j.as_map(w); ls_check(w == m, "object stored in a map"); }
  ls_reach("end"); }
// equality: same structure and texts
static bool eq(const Doc& a, const Doc& b) { if (a.k != b.k) return false; if (a.k == Doc::Leaf) return a.s == b.s; if (a.k == Doc::List) { if (a.l.size() != b.l.size()) return false; for (size_t i = 0; i < a.l.size(); i++) if (!eq(a.l[i], b.l[i])) return false; return true; } if (a.k == Doc::Dict) { if (a.m.size() != b.m.size()) return false; for (auto& e : a.m) if (!b.m.count(e.first) || !eq(e.second, b.m.at(e.first))) return false; return true; } return true; }
static Doc gen(int depth) { size_t k = sym::pick("kind", 0, depth ? 3 : 1); if (k == 1) return leafd(plain_text("t", sym::pick("len", 0, 1))); Doc d; if (k == 0) return d; size_t n = sym::pick("n", 0, depth > 1 ? 2 : 1); if (k == 2) { d.k = Doc::List; for (size_t i = 0; i < n; i++) d.l.push_back(gen(depth - 1)); } else { d.k = Doc::Dict; for (size_t i = 0; i < n; i++) { std::string q = plain_text("key", 1); if (d.m.count(q)) ls_kill(); d.m[q] = leafd(vals[i]); } } return d; }
ENTRY(equality) { Doc a = gen(TIER(1, 2)), b = gen(TIER(1, 2)); JsonItem x = make(a), y = make(b); bool e = eq(a, b); ls_check((x == y) == e, "equal exactly when structure and values agree"); ls_check((y == x) == e, "equality is symmetric"); ls_check((x != y) == !e, "inequality is the negation"); ls_check(x == x, "a document equals itself"); JsonItem z(x); ls_check(z == x, "a copy equals its original"); ls_reach("end"); }
