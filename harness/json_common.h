// reference documents: ordinary values, compared with the library's documents through its public interface
#pragma once
#include "sym.h"
#include "parser/json.hpp"
using namespace EdgeLearning;
struct Doc { enum Kind { Empty, Leaf, List, Dict } k = Empty; std::string s; TypeChecker::Type t = TypeChecker::Type::NONE; std::vector<Doc> l; std::map<std::string, Doc> m; };
inline bool plain(char c) { return !(c == '"' || c == ',' || c == ':' || c == '[' || c == ']' || c == '{' || c == '}' || c == '\n' || c == '\r' || c == 0); }
inline std::string plain_text(const char* n, size_t len) { std::string s = sym::text(n, len); for (char c : s) ls_assume(plain(c)); return s; }
inline bool same(const JsonItem& j, const Doc& d) {
  switch (d.k) {
    case Doc::Empty: { bool thrown = false; try { (void)j.value(); } catch (const std::runtime_error&) { thrown = true; } return thrown && j.size() == 0; }
    case Doc::Leaf: { if (j.json_type() != JsonObject::JsonType::LEAF || j.value().json_type() != JsonObject::JsonType::LEAF) return false; auto p = dynamic_cast<const JsonLeaf*>(&j.value()); return p && p->value() == d.s && p->type() == d.t && std::string(j) == d.s; }
    case Doc::List: { if (j.json_type() != JsonObject::JsonType::LIST) return false; auto p = dynamic_cast<const JsonList*>(&j.value()); if (!p || p->size() != d.l.size() || j.size() != d.l.size() || p->empty() != d.l.empty()) return false; for (size_t i = 0; i < d.l.size(); i++) if (!same(j.at(i), d.l[i]) || !same(p->at(i), d.l[i])) return false; return true; }
    default: { if (j.json_type() != JsonObject::JsonType::DICT) return false; auto p = dynamic_cast<const JsonDict*>(&j.value()); if (!p || p->size() != d.m.size() || j.size() != d.m.size() || p->empty() != d.m.empty()) return false; for (auto& e : d.m) { if (!p->value().count(e.first)) return false; if (!same(j.at(e.first), e.second)) return false; } return true; }
  } }
// the library's document for d
inline JsonItem make(const Doc& d) { switch (d.k) { case Doc::Leaf: return JsonItem(JsonLeaf(d.s, d.t)); case Doc::List: { JsonList l; for (auto& x : d.l) l.append(make(x)); return JsonItem(l); } case Doc::Dict: { JsonDict m; for (auto& e : d.m) m[e.first] = make(e.second); return JsonItem(m); } default: return JsonItem(); } }
inline std::string text_of(const Doc& d) { switch (d.k) { case Doc::Leaf: return d.t == TypeChecker::Type::STRING || d.s.empty() ? "\"" + d.s + "\"" : d.s; case Doc::List: { std::string o = "["; for (size_t i = 0; i < d.l.size(); i++) { if (i) o += ","; o += text_of(d.l[i]); } return o + "]"; } case Doc::Dict: { std::string o = "{"; bool f = true; for (auto& e : d.m) { if (!f) o += ","; f = false; o += "\"" + e.first + "\":" + text_of(e.second); } return o + "}"; } default: return ""; } }
