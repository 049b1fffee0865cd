#include <map>
#include "exec.hpp"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/wait.h>
#include <sys/file.h>
#include <unistd.h>
#include <cmath>
#include <cstring>
#include <sstream>
#include <csignal>
using namespace llvm;

Stats* S; Config cfg;
double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static uint64_t hstr(const std::string& s) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; } return h ? h : 1; }
static std::string jesc(const std::string& s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }

// ------------------------------------------------------------------ paths
void Exec::emit(const std::string& l) { std::string s = l + "\n"; size_t o = 0; while (o < s.size()) { ssize_t k = ::write(cfg.outfd, s.data() + o, s.size() - o); if (k <= 0) break; o += k; } }
static bool seenMore(const std::string& key, int limit) { // true when this key was already reported limit times
  uint64_t h = hstr(key); size_t i = h % 4096;
  for (size_t n = 0; n < 4096; n++, i = (i + 1) % 4096) { uint64_t z = 0; if (S->seen[i] == h || S->seen[i].compare_exchange_strong(z, h) || S->seen[i] == h) return S->seencnt[i]++ >= (uint32_t)limit; }
  return true;
}
// the solver confirms in one query that every decision the domain propagation took on this path follows from the path condition
static int unarySym(Expr* e);
// structural hash of an expression over one input, independent of which input it is
static u128 shapeHash(Expr* e) { static std::unordered_map<Expr*, u128> memo; if (!e) return 7; auto it = memo.find(e); if (it != memo.end()) return it->second; static const u128 M = ((u128)0x2360ED051FC65DA4ull << 64) | 0x4385DF649FCCF645ull; u128 h = (u128)e->k * 131 + e->w;
  auto mix = [&](u128 x) { h = (h ^ x) * M; h ^= h >> 61; h = h * M + 0x9E3779B97F4A7C15ull; }; if (e->k != K::BSym) mix(e->v); mix(shapeHash(e->a)); mix(shapeHash(e->b)); mix(shapeHash(e->c)); return memo[e] = h; }
// re-confirms by the solver what domain propagation concluded on this path, input by input; a question already answered (on any path) is not asked again
void Exec::certify() {
  std::map<int, std::vector<Expr*>> by; for (Expr* x : cert) by[unarySym(x)].push_back(x); cert.clear();
  for (auto& g : by) { std::vector<Expr*> cs; if (g.first >= 0) for (Expr* c : pc) if (unarySym(c) == g.first) cs.push_back(c); Expr* all = eC(1, 1); for (Expr* x : g.second) all = eAnd(all, x); if (isC(all)) continue;
    auto slot = [&](std::vector<Expr*>& v, u128 h) { std::vector<u128> k; for (Expr* x : v) k.push_back(shapeHash(x)); std::sort(k.begin(), k.end()); for (u128 x : k) { h = (h ^ x) * ((((u128)0x2360ED051FC65DA4ull) << 64) | 0x4385DF649FCCF645ull); h ^= h >> 59; } return h; };
    u128 h = slot(g.second, slot(cs, 1)); uint64_t lo = (uint64_t)h | 1, hi = (uint64_t)(h >> 64) | 1; bool hit = false; unsigned i = lo % 65536, n = 0;
    if (g.first >= 0) for (; n < 32; n++, i = (i + 1) % 65536) { uint64_t x = S->certKey[i][0].load(); if (!x) break; if (x == lo && S->certKey[i][1].load() == hi) { hit = true; break; } }
    if (hit) { S->certs_shared++; continue; }
    Res r = solve(g.first >= 0 ? cs : pc, eNot(all), nullptr); S->certs++; if (r == Res::Sat) { S->errors++; fprintf(stderr, "llsym: domain propagation refuted by the solver\n"); } else if (r == Res::Unknown) S->inconclusive++;
    else if (g.first >= 0 && n < 32) { uint64_t z = 0; if (S->certKey[i][0].compare_exchange_strong(z, lo)) S->certKey[i][1] = hi; } }
}
void Exec::endPath(const char* st) {
  std::string s = st; if (s == "ok" || s == "failed") certify();
  if (s == "ok") {
    S->paths++;
    if ((int)S->samples < cfg.samples) {
      if ((int)S->samples++ < cfg.samples) {
        Assignment m;
        if (fullModel(m, nullptr)) {
          std::ostringstream o; o << "{\"t\":\"sample\",\"in\":" << modelJson(m) << ",\"obs\":["; bool first = true;
          for (auto& b : obs) {
            Evaluator ev(m); std::string v; char buf[64];
            if (b.e->flags & F_UNDEF) continue;
            if (isR(b.e)) { double d = ev.dbl(b.e); if (!ev.ok || !std::isfinite(d)) continue; snprintf(buf, 64, "%.17g", d); v = buf; }
            else { u128 r = ev.bvApprox(b.e); if (!ev.ok) continue; snprintf(buf, 64, "%llu", (unsigned long long)r); v = buf; }
            o << (first ? "" : ",") << "[\"" << jesc(b.name) << "\",\"" << v << "\"]"; first = false;
          }
          o << "]}"; emit(o.str());
        } else S->samples--;
      }
    }
  } else if (s == "killed") S->killed++;
  else if (s == "truncated") S->truncated++;
  S->insts += icount;
  if (holdsToken) S->tokens++;
  _exit(0);
}
std::string Exec::where() {
  std::ostringstream o; int n = 0;
  for (int i = (int)stack.size() - 1; i >= 0 && n < 8; i--, n++) {
    Frame* f = stack[i]; std::string nm = demangle(f->f->F->getName().str()); if (nm.size() > 90) nm = nm.substr(0, 90) + "...";
    Instruction* I = nullptr; auto& b = f->f->bbs[f->bb].ins; size_t p = f->pc ? f->pc - 1 : 0; if (p < b.size()) I = b[p].I;
    o << (n ? " < " : "") << nm; if (I && I->getDebugLoc()) { auto* L = I->getDebugLoc().get(); auto fn = L->getFilename(); size_t sl = fn.rfind('/'); o << "@" << (sl == StringRef::npos ? fn : fn.substr(sl + 1)).str() << ":" << L->getLine(); }
  }
  return o.str();
}
std::string Exec::modelJson(const Assignment& m) {
  std::ostringstream o; o << "["; bool first = true; Evaluator ev(m);
  for (auto& in : inputs) {
    o << (first ? "" : ",") << "[\"" << jesc(in.name) << "\","; first = false; char buf[64];
    if (isR(in.e)) { mpq_class q; if (ev.real(in.e, q)) { snprintf(buf, 64, "%.17g", rToDouble(rC(q))); } else snprintf(buf, 64, "0"); o << "\"r\",\"" << buf << "\"]"; }
    else { u128 r = 0; ev.bv(in.e, r); snprintf(buf, 64, "%llu", (unsigned long long)r); o << "\"" << in.kind << "\",\"" << buf << "\"]"; }
  }
  o << "]"; return o.str();
}
void Exec::report(const char* kind, const std::string& msg, const Assignment* m) {
  if (m) S->violations++; else S->inconclusive++;
  std::ostringstream o; o << "{\"t\":\"" << (m ? "violation" : "inconclusive") << "\",\"kind\":\"" << kind << "\",\"msg\":\"" << jesc(msg) << "\",\"where\":\"" << jesc(where()) << "\",\"note\":\"" << jesc(note) << "\"";
  if (m) o << ",\"in\":" << modelJson(*m);
  o << "}"; emit(o.str());
}
bool Exec::fullModel(Assignment& m, Expr* extra) {
  if (!extra && modelOk) { m = model; return true; }
  return solve(pc, extra, &m, false) == Res::Sat;
}
void Exec::unsupported(const std::string& msg) {
  S->unsupported++; if (!seenMore("unsup:" + msg, 2)) { std::ostringstream o; o << "{\"t\":\"unsupported\",\"msg\":\"" << jesc(msg) << "\",\"where\":\"" << jesc(where()) << "\"}"; emit(o.str()); }
  endPath("unsupported");
}
void Exec::fail(const char* kind, const std::string& msg) {
  if (!seenMore(std::string(kind) + msg + where(), cfg.maxrep)) { Assignment m; if (fullModel(m, nullptr)) report(kind, msg, &m); else report(kind, msg, nullptr); }
  endPath("failed");
}
static int unarySym(Expr* e) { // -2 no input, -1 several or unsuitable, else the only input
  static std::unordered_map<Expr*, int> memo; if (e->k == K::BConst) return -2; if (e->k == K::BSym) return e->w <= 8 ? (int)e->v : -1; if (e->w > 64 || isR(e) || e->k == K::RLt || e->k == K::RLe || e->k == K::REq || e->k == K::RToBV || e->k == K::FpBits) return -1;
  auto it = memo.find(e); if (it != memo.end()) return it->second; int r = -2; for (Expr* x : {e->a, e->b, e->c}) if (x) { int q = unarySym(x); if (q == -1) { r = -1; break; } if (q >= 0) { if (r >= 0 && r != q) { r = -1; break; } r = q; } }
  return memo[e] = r; }
static const std::vector<uint64_t>& table(Expr* e, unsigned n0) { const unsigned n = n0 < 256 ? 256 : n0;
  static std::unordered_map<Expr*, std::vector<uint64_t>> memo; auto it = memo.find(e); if (it != memo.end() && it->second.size() == n) return it->second; std::vector<uint64_t> t(n); uint64_t mk = (uint64_t)maskw(e->w);
  if (e->k == K::BConst) std::fill(t.begin(), t.end(), (uint64_t)e->v); else if (e->k == K::BSym) for (unsigned i = 0; i < n; i++) t[i] = i;
  else { static const std::vector<uint64_t> none; std::vector<uint64_t> A = table(e->a, n), B = e->b ? table(e->b, n) : none, Cc = e->c ? table(e->c, n) : none; unsigned aw = e->a->w;
    for (unsigned i = 0; i < n; i++) { uint64_t x = A[i], y = e->b ? B[i] : 0, r = 0; i128 sx = sextw(x, aw), sy = sextw(y, aw);
      switch (e->k) { case K::Add: r = x + y; break; case K::Sub: r = x - y; break; case K::Mul: r = x * y; break; case K::And: r = x & y; break; case K::Or: r = x | y; break; case K::Xor: r = x ^ y; break;
        case K::Eq: r = x == y; break; case K::Ult: r = x < y; break; case K::Ule: r = x <= y; break; case K::Slt: r = sx < sy; break; case K::Sle: r = sx <= sy; break;
        case K::UDiv: r = y ? x / y : ~0ull; break; case K::URem: r = y ? x % y : x; break; case K::SDiv: r = !y ? (sx < 0 ? 1 : ~0ull) : (uint64_t)(sx / sy); break; case K::SRem: r = !y ? x : (uint64_t)(sx % sy); break;
        case K::Shl: r = y >= aw ? 0 : x << y; break; case K::LShr: r = y >= aw ? 0 : x >> y; break; case K::AShr: r = y >= aw ? (sx < 0 ? ~0ull : 0) : (uint64_t)(sx >> y); break;
        case K::Concat: r = (x << e->b->w) | y; break; case K::Extract: r = x >> (unsigned)e->v; break; case K::ZExt: r = x; break; case K::SExt: r = (uint64_t)sx; break; case K::Ite: r = x ? y : Cc[i]; break; default: abort(); }
      t[i] = r & mk; } }
  return memo[e] = t; }
int Exec::implied(Expr* c) { int s = unarySym(c); if (s < 0) return -1; auto it = dom.find(s); if (it == dom.end() && (c->flags & F_UNDEF)) return -1; unsigned n = 1u << g_syms[s].w; auto& t = table(c, 256); bool T = false, F = false;
  for (unsigned i = 0; i < n; i++) if (it == dom.end() || it->second[i]) (t[i] & 1 ? T : F) = true; int r = T && F ? -1 : T ? 1 : F ? 0 : -1; if (r >= 0 && !(c->flags & F_UNDEF) && certSeen.insert(c).second) cert.push_back(r ? c : eNot(c)); return r; }
bool Exec::unaryFree(Expr* c, bool want, uint32_t& s, unsigned& val) { int q = unarySym(c); if (q < 0 || multi.count(q)) return false; unsigned n = 1u << g_syms[q].w; auto& t = table(c, n); auto it = dom.find(q); s = q;
  // prefer printable values
  for (int pass = 0; pass < 2; pass++) for (unsigned i = 0; i < n; i++) if ((pass || n < 256 || (i >= 48 && i < 123)) && (it == dom.end() || it->second[i]) && (t[i] & 1) == want) { val = i; return true; } return false; }
int Exec::forkPath() {
  S->forks++;
  int t = S->tokens.load(); bool par = false;
  while (t > 0) if (S->tokens.compare_exchange_weak(t, t - 1)) { par = true; break; }
  pid_t p = fork();
  if (p < 0) { usleep(20000); p = fork(); if (p < 0) { if (par) S->tokens++; S->errors++; return 1; } }
  if (p == 0) { holdsToken = par; icount = icount; forkDepth++; return 0; }
  if (!par) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (WIFSIGNALED(st)) S->errors++; }
  return 1;
}
void Exec::addPC(Expr* c) {
  if (isC(c)) return;
  if (c->k == K::And && c->w == 1) { addPC(c->a); addPC(c->b); return; }
  pc.push_back(c);
  { int q = unarySym(c); if (q >= 0) { unsigned n = 1u << g_syms[q].w; auto& t = table(c, n); auto& d = dom.emplace(q, std::bitset<256>().set()).first->second; for (unsigned i = 0; i < n; i++) if (!(t[i] & 1)) d[i] = 0; }
    else { std::vector<uint32_t> v; collectSyms(c, v); for (auto x : v) multi.insert(x); } }
  if (modelOk) { Evaluator ev(model); u128 r; if (!ev.bv(c, r) || !r) modelOk = false; }
}
bool Exec::may(Expr* c) {
  if (isC(c)) return c->v; { int k = implied(c); if (k >= 0) return k; } if (modelOk) { Evaluator ev(model); u128 r; if (ev.bv(c, r) && r) return true; }
  Res r = solve(pc, c, nullptr); if (r == Res::Unknown) approx = true; return r != Res::Unsat;
}
bool Exec::decide(Expr* c, const char* why) {
  if (isC(c)) return c->v;
  { int k = implied(c); if (k >= 0) return k; }
  Expr* n = eNot(c); bool t, f; Assignment mt, mf; bool hmt = false, hmf = false;
  int known = -1; if (modelOk) { Evaluator ev(model); u128 r; if (ev.bv(c, r)) known = (int)r; }
  auto q = [&](Expr* x, Assignment& m, bool& hm) { uint32_t us; unsigned uv; if (unaryFree(x, true, us, uv)) { hm = true; m.bv[us] = uv; return true; } Res r = solve(pc, x, &m); if (r == Res::Unknown) { approx = true; S->inconclusive += 0; } hm = r == Res::Sat; return r != Res::Unsat; };
  if (known == 1) { t = true; f = q(n, mf, hmf); } else if (known == 0) { f = true; t = q(c, mt, hmt); }
  else { t = q(c, mt, hmt); if (!t) f = true; else f = q(n, mf, hmf); }
  if (!t && !f) endPath("killed");
  if (t && !f) { if (approx || known < 0) addPC(c); return true; }
  if (!t && f) { if (approx || known < 0) addPC(n); return false; }
  if ((c->flags & F_UNDEF) && !(why && !strcmp(why, "undefok"))) {
    std::string msg = "decision depends on an uninitialised value"; std::string w = where();
    if (!seenMore("uninit" + w, cfg.maxrep)) { Assignment m; if (fullModel(m, nullptr)) report("uninit", msg, &m); }
  }
  auto take = [&](Expr* x, Assignment& m, bool hm, bool kn) {
    bool mo = modelOk; addPC(x);
    if (hm && (mo || pc.size() >= 1)) { // merge slice model
      if (mo || true) { Assignment nm = model; for (auto& p : m.bv) nm.bv[p.first] = p.second; for (auto& p : m.re) nm.re[p.first] = p.second;
        if (mo) { model = nm; modelOk = true; Evaluator ev(model); u128 r; if (!ev.bv(x, r) || !r) modelOk = false; } } }
    (void)kn;
  };
  if (S->stop) endPath("truncated");
  if (forkPath() == 0) { take(c, mt, hmt, known == 1); return true; }
  take(n, mf, hmf, known == 0); return false;
}
void Exec::assume(Expr* c) {
  if (isC(c)) { if (!c->v) endPath("killed"); return; }
  { int k = implied(c); if (k == 1) return; if (k == 0) endPath("killed"); }
  Assignment m; if (modelOk) { Evaluator ev(model); u128 r; if (ev.bv(c, r) && r) { addPC(c); return; } }
  Res r; { uint32_t us; unsigned uv; if (unaryFree(c, true, us, uv)) { m.bv[us] = uv; r = Res::Sat; } else r = solve(pc, c, &m); } if (r == Res::Unsat) endPath("killed"); if (r == Res::Unknown) approx = true;
  bool mo = modelOk; addPC(c);
  if (r == Res::Sat && mo) { for (auto& p : m.bv) model.bv[p.first] = p.second; for (auto& p : m.re) model.re[p.first] = p.second; Evaluator ev(model); u128 x; modelOk = ev.bv(c, x) && x; }
}
void Exec::check(Expr* c, const std::string& msg, const char* kind, Expr* da, Expr* db) {
  S->checks++;
  if (isC(c)) { S->checks_trivial++; if (c->v) return; fail(kind, msg); }
  Expr* n = eNot(c); Assignment m;
  Res r = solve(pc, n, nullptr);
  if (r == Res::Unsat) return;
  if (r == Res::Unknown) { if (!seenMore("unk" + msg, 2)) report(kind, "solver gave up: " + msg, nullptr); else S->inconclusive++; return; }
  if (!seenMore(std::string(kind) + msg, cfg.maxrep)) {
    bool ok = false;
    if (da) { // look for a robust witness first
      for (int lvl = 0; lvl < 3 && !ok; lvl++) {
        std::vector<Expr*> ex = pc; Expr* d = rSub(da, db); Expr* th = rC(lvl == 0 ? mpq_class(1, 4) : lvl == 1 ? mpq_class(1, 256) : mpq_class(1, 65536));
        ex.push_back(eOr(rCmp(K::RLe, th, d), rCmp(K::RLe, d, rNeg(th)))); Expr* B = rC(lvl == 0 ? 4 : lvl == 1 ? 16 : 1024);
        for (auto& in : inputs) if (in.e->k == K::RSym) { ex.push_back(rCmp(K::RLe, in.e, B)); ex.push_back(rCmp(K::RLe, rNeg(B), in.e)); }
        ok = solve(ex, n, &m, false) == Res::Sat;
      }
    }
    if (!ok) ok = solve(pc, n, &m, false) == Res::Sat;
    report(kind, msg, ok ? &m : nullptr);
  }
  assume(c);
}
uint64_t Exec::concretize(const Val& v, const char* why) {
  if (!v.e) return v.c;
  Expr* e = v.e; if (isC(e)) return (uint64_t)e->v;
  for (int i = 0; i < 5000; i++) {
    u128 r; bool ok = false;
    if (modelOk) { Evaluator ev(model); ok = ev.bv(e, r); }
    if (!ok) { Assignment m; Res q = solve(pc, nullptr, &m, false); if (q == Res::Unsat) endPath("killed"); if (q == Res::Unknown) unsupported(std::string("solver gave up concretising ") + why);
      Evaluator ev(m); if (!ev.bv(e, r)) unsupported(std::string("cannot concretise ") + why); model = m; modelOk = true; }
    if (decide(eEq(e, eC(r, e->w)))) return (uint64_t)r;
  }
  unsupported("too many values concretising");
}

// ------------------------------------------------------------------ tasks
bool Exec::ordered(const Acc& p, int c) { // was the earlier access p ordered before the current thread c?
  if (p.thr == c) return true;
  if (p.thr == 0) return p.time < tasks[c].spawn;                       // main before spawn
  Task& t = tasks[p.thr]; if (!t.joined) { for (int x = c; x; x = tasks[x].parent) if (x == p.thr) return p.time < tasks[c].spawn; return false; }
  return c == 0 || t.joined < tasks[c].spawn;
}
void Exec::access(uint64_t a, uint64_t n, bool write) {
  if (atomicAcc) return; clock++;
  for (uint64_t i = 0; i < n; i++) {
    Shadow& s = shadow[a + i]; Acc me{curTask, clock, heldLock}; const Acc* bad = nullptr;
    if (s.hasW && !ordered(s.w, curTask) && !(s.w.lock && s.w.lock == heldLock)) bad = &s.w;
    if (write) for (auto& r : s.r) if (!ordered(r, curTask) && !(r.lock && r.lock == heldLock)) bad = &r;
    if (bad && getenv("LS_RACE")) { Obj* o = find(a + i); fprintf(stderr, "race obj %s+%lu size %lu stack %d prev thr %d cur %d where %s\n", o ? o->name.c_str() : "?", o ? (unsigned long)(a + i - o->base) : 0, o ? (unsigned long)o->size : 0, o ? o->stack : 0, bad->thr, curTask, where().c_str()); }
    if (bad) fail("race", std::string("unordered conflicting accesses by concurrent tasks (") + (write ? "write" : "read") + ")");
    if (write) { s.w = me; s.hasW = true; s.r.clear(); } else { bool f = false; for (auto& r : s.r) if (r.thr == curTask) { r = me; f = true; } if (!f) s.r.push_back(me); }
  }
}
// ------------------------------------------------------------------ memory
Obj* Exec::alloc(uint64_t size, const std::string& name, unsigned align) {
  if (align < 16) align = 16; uint64_t a = (nextAddr + align - 1) / align * align; nextAddr = a + size + 64;
  Obj* o = new Obj; o->base = a; o->size = size; o->name = name; o->data.resize(size); o->st.resize(size, 0); objs[a] = o; return o;
}
Obj* Exec::find(uint64_t a) {
  if (lastObj && a >= lastObj->base && a <= lastObj->base + lastObj->size) return lastObj;
  auto it = objs.upper_bound(a); if (it == objs.begin()) return nullptr; --it; Obj* o = it->second; if (a <= o->base + o->size + 32) return lastObj = o; return nullptr;
}
static std::string hexs(uint64_t v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
static std::string objDesc(Obj* o) { return (o->stack ? "stack object" : o->heap ? "heap block" : "global") + std::string(o->heap ? "" : " " + demangle(o->name)) + " of " + std::to_string(o->size) + " bytes"; }
Obj* Exec::resolve(const Val& addr, uint64_t n, bool write, uint64_t& off, Expr*& symOff) {
  Obj* o = resolve0(addr, n, write, off, symOff);
  if (openTasks && !symOff && !o->tls) access(o->base + off, n, write);
  return o;
}
Obj* Exec::resolve0(const Val& addr, uint64_t n, bool write, uint64_t& off, Expr*& symOff) {
  symOff = nullptr; uint64_t a = addr.c;
  if (addr.e && !isC(addr.e)) {
    if ((addr.e->flags & F_UNDEF)) { Assignment m; std::string w = where(); if (!seenMore("uninitptr" + w, cfg.maxrep)) { if (fullModel(m, nullptr)) report("uninit", "memory access through an uninitialised pointer", &m); } endPath("failed"); }
    for (int it = 0; it < 64; it++) {
      u128 r; bool ok = false; if (modelOk) { Evaluator ev(model); ok = ev.bv(addr.e, r); }
      if (!ok) { Assignment m; Res q = solve(pc, nullptr, &m, false); if (q == Res::Unsat) endPath("killed"); if (q == Res::Unknown) unsupported("solver gave up on an address"); Evaluator ev(m); if (!ev.bv(addr.e, r)) unsupported("cannot evaluate an address"); model = m; modelOk = true; }
      a = (uint64_t)r; Obj* o = find(a);
      // first make sure the pointer stays inside the object it points to in this model
      if (o && !o->freed && o->size >= n && a >= o->base && a + n <= o->base + o->size) {
        Expr* rel = eBin(K::Sub, addr.e, eC(o->base, 64)); Expr* in = eBin(K::Ule, rel, eC(o->size - n, 64));
        if (!decide(in, "undefok")) continue;
        if (o->ro && write) fail("memory", "write to read-only memory");
        // unique value?
        Expr* one = eEq(addr.e, eC(a, 64)); if (!may(eNot(one))) { off = a - o->base; return o; }
        bool small = o->size <= 1024;
        if (small) { symOff = rel; off = 0; return o; }
        off = concretize(addr, "address") - o->base; return o;
      }
      // out of bounds in this model
      Expr* eq = eEq(addr.e, eC(a, 64)); (void)eq;
      std::string what = std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes out of bounds"; if (o) what += o->freed ? " (freed block)" : " of " + objDesc(o);
      std::string w = where(); if (!seenMore("memory" + std::string(write ? "w" : "r") + w.substr(0, 200), cfg.maxrep)) report("memory", what, &model);
      // keep exploring the in-bounds part
      if (!o || o->freed || o->size < n) endPath("failed");
      Expr* rel = eBin(K::Sub, addr.e, eC(o->base, 64)); assume(eBin(K::Ule, rel, eC(o->size - n, 64)));
    }
    unsupported("address resolution did not converge");
  }
  if (addr.e) a = (uint64_t)addr.e->v;
  Obj* o = find(a);
  std::string rw = write ? "write" : "read";
  if (!o) fail("memory", rw + " of " + std::to_string(n) + " bytes at invalid address" + (a < 4096 ? " (null pointer)" : ""));
  if (o->freed) fail("memory", rw + " after free/scope end of " + objDesc(o));
  if (a < o->base || a + n > o->base + o->size) fail("memory", rw + " of " + std::to_string(n) + " bytes out of bounds of " + objDesc(o));
  if (o->ro && write) fail("memory", "write to read-only memory");
  off = a - o->base; return o;
}
static Expr* byteOf(const std::pair<Expr*, uint8_t>& s) { Expr* e = s.first; if (isR(e)) e = eFpBits(e, (s.second & 0x80) ? 32 : 64); return eExtract(e, 8 * (s.second & 0x3f), 8); }
Val Exec::loadN(Obj* o, uint64_t off, unsigned n, bool fp, unsigned fpw) {
  uint8_t* st = &o->st[off]; bool conc = true, sym = true, un = true;
  for (unsigned i = 0; i < n; i++) { conc &= st[i] == 1; sym &= st[i] == 2; un &= st[i] == 0; }
  if (conc && n <= 8) {
    uint64_t v = 0; memcpy(&v, &o->data[off], n);
    if (fp) { if (fpw == 64) { double d; memcpy(&d, &v, 8); return vR(rD(d), 64); } float f; uint32_t u = (uint32_t)v; memcpy(&f, &u, 4); return vR(rD(f), 32); }
    return vI(v, 8 * n);
  }
  if (sym) {
    auto& s0 = o->sym[off]; Expr* e = s0.first; bool same = (s0.second & 0x3f) == 0; for (unsigned i = 1; same && i < n; i++) same = o->sym[off + i].first == e && (o->sym[off + i].second & 0x3f) == i;
    if (same) {
      if (isR(e)) { unsigned ew = (s0.second & 0x80) ? 32 : 64; if (ew == 8 * n) { if (fp) return vR(e, fpw); return vE(eFpBits(e, ew)); } }
      else if (e->w == 8 * n) { if (fp) return vR(rFromBits(e), fpw); return vE(e); }
    }
  }
  if (un) { Expr* e = fp ? rSym("undef", true) : eSym("undef", 8 * n, true); if (n <= 16) { if (o->sym.empty()) o->sym.resize(o->size); for (unsigned i = 0; i < n; i++) { o->st[off + i] = 2; o->sym[off + i] = {e, (uint8_t)(i | (fp && fpw == 32 ? 0x80 : 0))}; } } if (fp) return vR(e, fpw); return vE(e); }
  Expr* r = nullptr;
  for (int i = n - 1; i >= 0; i--) { Expr* b; if (st[i] == 1) b = eC(o->data[off + i], 8); else if (st[i] == 2) b = byteOf(o->sym[off + i]); else { b = eSym("undef", 8, true); if (o->sym.empty()) o->sym.resize(o->size); o->st[off + i] = 2; o->sym[off + i] = {b, 0}; } r = r ? eConcat(r, b) : b; }
  if (fp) return vR(rFromBits(r), fpw);
  return vE(r);
}
static void flatten(const DataLayout* DL, Type* t, uint64_t off, std::vector<std::pair<Type*, uint64_t>>& out) {
  if (auto* s = dyn_cast<StructType>(t)) { auto* L = DL->getStructLayout(s); for (unsigned i = 0; i < s->getNumElements(); i++) flatten(DL, s->getElementType(i), off + L->getElementOffset(i), out); }
  else if (auto* a = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(a->getElementType()); for (uint64_t i = 0; i < a->getNumElements(); i++) flatten(DL, a->getElementType(), off + i * es, out); }
  else out.push_back({t, off});
}
static unsigned bits(const DataLayout* DL, Type* t) { if (t->isPointerTy()) return 64; return DL->getTypeSizeInBits(t); }
Val Exec::load(const Val& addr, Type* ty) {
  if (ty->isStructTy() || ty->isArrayTy() || ty->isVectorTy()) {
    Val r; r.t = 2; r.agg = new std::vector<Val>; unsigned n = ty->isStructTy() ? ty->getStructNumElements() : ty->isArrayTy() ? ty->getArrayNumElements() : cast<FixedVectorType>(ty)->getNumElements();
    for (unsigned i = 0; i < n; i++) { Type* et = ty->isStructTy() ? ty->getStructElementType(i) : ty->isArrayTy() ? ty->getArrayElementType() : cast<VectorType>(ty)->getElementType();
      uint64_t o = ty->isStructTy() ? DL->getStructLayout(cast<StructType>(ty))->getElementOffset(i) : i * DL->getTypeAllocSize(et);
      Val a = addr.e ? vE(eBin(K::Add, addr.e, eC(o, 64))) : vI(addr.c + o, 64); r.agg->push_back(load(a, et)); }
    return r;
  }
  unsigned w = bits(DL, ty), n = (w + 7) / 8; bool fp = ty->isDoubleTy() || ty->isFloatTy(); uint64_t off; Expr* so;
  Obj* o = resolve(addr, n, false, off, so); Val v;
  if (!so) v = loadN(o, off, n, fp, w);
  else {
    // candidate offsets
    unsigned stride = n; if (n > 1 && may(eNot(eEq(eBin(K::URem, so, eC(n, 64)), eC(0, 64))))) stride = 1;
    Val acc; bool first = true;
    for (int64_t k = (int64_t)((o->size - n) / stride) * stride; k >= 0; k -= stride) {
      Val x = loadN(o, k, n, fp, w); if (first) { acc = x; first = false; continue; }
      Expr* c = eEq(so, eC(k, 64)); if (fp) acc = vR(eIte(c, x.e, acc.e), w); else acc = vE(eIte(c, toE(x), toE(acc)));
    }
    v = acc;
  }
  if (!fp && w % 8) v = vE(eExtract(toE(v), 0, w));
  return v;
}
void Exec::storeN(Obj* o, uint64_t off, const Val& v, unsigned n) {
  if (v.t == 1 || v.e) {
    if (o->sym.empty()) o->sym.resize(o->size);
    for (unsigned i = 0; i < n; i++) { o->st[off + i] = 2; o->sym[off + i] = {v.e, (uint8_t)(i | (v.t == 1 && v.w == 32 ? 0x80 : 0))}; }
  } else { memcpy(&o->data[off], &v.c, n); memset(&o->st[off], 1, n); }
}
void Exec::store(const Val& addr, const Val& v, Type* ty) {
  if (v.t == 2) {
    unsigned n = v.agg->size();
    for (unsigned i = 0; i < n; i++) { Type* et = ty->isStructTy() ? ty->getStructElementType(i) : ty->isArrayTy() ? ty->getArrayElementType() : cast<VectorType>(ty)->getElementType();
      uint64_t o = ty->isStructTy() ? DL->getStructLayout(cast<StructType>(ty))->getElementOffset(i) : i * DL->getTypeAllocSize(et);
      Val a = addr.e ? vE(eBin(K::Add, addr.e, eC(o, 64))) : vI(addr.c + o, 64); store(a, (*v.agg)[i], et); }
    return;
  }
  unsigned w = bits(DL, ty), n = (w + 7) / 8; Val x = v; if (v.t == 0 && w % 8) x = vE(eZExt(toE(v), n * 8)); if (v.t == 1) x.w = w;
  uint64_t off; Expr* so; Obj* o = resolve(addr, n, true, off, so);
  if (!so) { storeN(o, off, x, n); return; }
  if (x.t == 1 || o->size > 256) { uint64_t a = concretize(addr, "store address"); storeN(o, a - o->base, x, n); return; }
  unsigned stride = n; if (n > 1 && may(eNot(eEq(eBin(K::URem, so, eC(n, 64)), eC(0, 64))))) stride = 1;
  if (stride != n) { uint64_t a = concretize(addr, "store address"); storeN(o, a - o->base, x, n); return; }
  for (uint64_t k = 0; k + n <= o->size; k += stride) { Val old = loadN(o, k, n, false, 0); storeN(o, k, vE(eIte(eEq(so, eC(k, 64)), toE(x), toE(old))), n); }
}
void Exec::copyMem(uint64_t d, uint64_t s, uint64_t n, bool) {
  if (!n) return; uint64_t od, os; Expr* so; Obj* S_ = resolve(vI(s, 64), n, false, os, so); Obj* D = resolve(vI(d, 64), n, true, od, so);
  memmove(&D->data[od], &S_->data[os], n);
  bool hs = !S_->sym.empty(); if (hs && D->sym.empty()) D->sym.resize(D->size);
  if (hs) { // copy the symbolic bytes
    if (D == S_ && od > os) { for (int64_t i = n - 1; i >= 0; i--) if (S_->st[os + i] == 2) { auto t = S_->sym[os + i]; D->sym[od + i] = t; } }
    else for (uint64_t i = 0; i < n; i++) { auto* p = (uint8_t*)memchr(&S_->st[os + i], 2, n - i); if (!p) break; i = p - &S_->st[os]; auto t = S_->sym[os + i]; D->sym[od + i] = t; } }
  memmove(&D->st[od], &S_->st[os], n);
}
uint8_t* Exec::raw(uint64_t a, uint64_t n) { Obj* o = find(a); if (!o || o->freed || a < o->base || a + n > o->base + o->size) return nullptr; for (uint64_t i = 0; i < n; i++) if (o->st[a - o->base + i] != 1) return nullptr; return &o->data[a - o->base]; }
std::string Exec::cstr(uint64_t a) { std::string s; while (uint8_t* p = raw(a++, 1)) { if (!*p) break; s += (char)*p; } return s; }

// ------------------------------------------------------------------ constants and globals
Val Exec::constant(Constant* c) {
  Type* t = c->getType();
  if (auto* i = dyn_cast<ConstantInt>(c)) { unsigned w = i->getBitWidth(); if (w <= 64) return vI(i->getZExtValue(), w); auto& A = i->getValue(); u128 v = A.getRawData()[0]; if (A.getNumWords() > 1) v |= (u128)A.getRawData()[1] << 64; return vE(eC(v, w)); }
  if (auto* f = dyn_cast<ConstantFP>(c)) { if (t->isFloatTy()) return vR(rD(f->getValueAPF().convertToFloat()), 32); if (t->isDoubleTy()) return vR(rD(f->getValueAPF().convertToDouble()), 64);
    APFloat F = f->getValueAPF(); bool li; F.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return vR(rD(F.convertToDouble()), 64); }
  if (isa<ConstantPointerNull>(c)) return vI(0, 64);
  if (auto* g = dyn_cast<GlobalAlias>(c)) return constant(g->getAliasee());
  if (auto* g = dyn_cast<GlobalValue>(c)) { auto it = gaddr.find(g); if (it == gaddr.end()) unsupported("address of " + g->getName().str()); return vI(it->second, 64); }
  if (t->isStructTy() || t->isArrayTy() || t->isVectorTy()) {
    Val r; r.t = 2; r.agg = new std::vector<Val>; unsigned n = t->isStructTy() ? t->getStructNumElements() : t->isArrayTy() ? t->getArrayNumElements() : cast<FixedVectorType>(t)->getNumElements();
    for (unsigned i = 0; i < n; i++) r.agg->push_back(constant(c->getAggregateElement(i))); return r;
  }
  if (isa<UndefValue>(c)) { if (t->isDoubleTy() || t->isFloatTy()) return vR(rSym("undef", true), t->isFloatTy() ? 32 : 64); return vE(eSym("undef", bits(DL, t), true)); }
  if (auto* e = dyn_cast<ConstantExpr>(c)) {
    switch (e->getOpcode()) {
      case Instruction::GetElementPtr: { APInt off(64, 0); if (cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) { Val b = constant(e->getOperand(0)); return vI(b.c + off.getSExtValue(), 64); } break; }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: { Val b = constant(e->getOperand(0)); return vI(b.c, bits(DL, t)); }
      case Instruction::Trunc: { Val b = constant(e->getOperand(0)); return vI(b.c, bits(DL, t)); }
      case Instruction::Sub: { Val a = constant(e->getOperand(0)), b = constant(e->getOperand(1)); return vI(a.c - b.c, a.w); }
      case Instruction::Add: { Val a = constant(e->getOperand(0)), b = constant(e->getOperand(1)); return vI(a.c + b.c, a.w); }
      case Instruction::ICmp: { Val a = constant(e->getOperand(0)), b = constant(e->getOperand(1)); if (e->getPredicate() == CmpInst::ICMP_EQ) return vI(a.c == b.c, 1); if (e->getPredicate() == CmpInst::ICMP_NE) return vI(a.c != b.c, 1); break; }
      default: break;
    }
  }
  std::string s; raw_string_ostream os(s); c->print(os); unsupported("constant " + s);
}
void Exec::initGlobal(Constant* c, Obj* o, uint64_t off) {
  Type* t = c->getType(); uint64_t n = DL->getTypeStoreSize(t);
  if (isa<ConstantAggregateZero>(c) || c->isNullValue()) { memset(&o->data[off], 0, n); memset(&o->st[off], 1, n); return; }
  if (auto* d = dyn_cast<ConstantDataSequential>(c)) { StringRef r = d->getRawDataValues(); memcpy(&o->data[off], r.data(), r.size()); memset(&o->st[off], 1, r.size()); return; }
  if (auto* s = dyn_cast<ConstantStruct>(c)) { auto* L = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) initGlobal(s->getOperand(i), o, off + L->getElementOffset(i)); return; }
  if (auto* a = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(a->getType()->getElementType()); for (unsigned i = 0; i < a->getNumOperands(); i++) initGlobal(a->getOperand(i), o, off + i * es); return; }
  if (isa<UndefValue>(c)) return;
  Val v = constant(c); if (v.t == 2) unsupported("global initialiser");
  if (v.t == 1) { Expr* b = eFpBits(v.e, t->isFloatTy() ? 32 : 64); v = vE(b); }
  storeN(o, off, v, n);
}
void Exec::init(Module* m) {
  M = m; DL = &m->getDataLayout();
  for (auto& F : *M) { if (F.isIntrinsic()) continue; Obj* o = alloc(16, F.getName().str()); o->ro = true; gaddr[&F] = o->base; faddr[o->base] = &F; }
  std::vector<std::pair<GlobalVariable*, Obj*>> gs;
  for (auto& G : M->globals()) {
    if (G.getName().starts_with("llvm.")) continue;
    uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 8; if (G.isDeclaration() && sz < 256) sz = 256;
    Obj* o = alloc(sz, G.getName().str(), G.getAlign() ? G.getAlign()->value() : 16); gaddr[&G] = o->base; o->tls = G.isThreadLocal(); gs.push_back({&G, o});
  }
  for (auto& p : gs) if (!p.first->isDeclaration()) { initGlobal(p.first->getInitializer(), p.second, 0); p.second->ro = p.first->isConstant(); }
    else { memset(p.second->data.data(), 0, p.second->size); memset(p.second->st.data(), 1, p.second->size); }
  for (auto& p : gs) if (p.second->tls) { Tls t; t.data = p.second->data; t.st = p.second->st; tlsInit.push_back({p.second, t}); }
  addHandlers();
}
// every task has its own thread-local variables, initialised when it starts
void Exec::tlsEnter() { tlsStack.emplace_back(); for (auto& p : tlsInit) { Tls t; t.data = p.second.data; t.st = p.second.st; std::swap(t.data, p.first->data); std::swap(t.st, p.first->st); std::swap(t.sym, p.first->sym); tlsStack.back().push_back(std::move(t)); } }
void Exec::tlsLeave() { auto v = std::move(tlsStack.back()); tlsStack.pop_back(); for (size_t i = 0; i < v.size(); i++) { Obj* o = tlsInit[i].first; o->data = std::move(v[i].data); o->st = std::move(v[i].st); std::swap(o->sym, v[i].sym); } }

// ------------------------------------------------------------------ decoding
FInfo* Exec::info(Function* F) {
  auto& fi = finfo[F]; if (fi) return fi;
  { // report which functions of the repository are executed (including inlined ones)
    static std::unordered_set<const void*> seenSP; std::string out; std::function<void(DILocation*)> vis = [&](DILocation* L) { for (; L; L = L->getInlinedAt()) { auto* sp = L->getScope()->getSubprogram(); if (!sp || !seenSP.insert(sp).second) continue; auto fn = sp->getFilename(); size_t q = fn.rfind("/source/"); if (q == StringRef::npos) continue; auto nm = demangle(sp->getLinkageName().empty() ? sp->getName().str() : sp->getLinkageName().str()); if (nm.size() > 160) nm.resize(160); out += std::string(out.empty() ? "" : ",") + "\"" + jesc(fn.substr(q + 8).str() + ": " + nm) + "\""; } };
    for (auto& B : *F) for (auto& I : B) if (I.getDebugLoc()) vis(I.getDebugLoc().get());
    if (!out.empty()) emit("{\"t\":\"func\",\"f\":[" + out + "]}"); }
  fi = new FInfo; fi->F = F; std::unordered_map<Value*, int> slot; int n = 0; std::unordered_map<BasicBlock*, int> bbi; std::unordered_map<Constant*, int> ci; int nb = 0;
  for (auto& A : F->args()) slot[&A] = n++;
  for (auto& B : *F) { bbi[&B] = nb++; for (auto& I : B) if (!I.getType()->isVoidTy()) slot[&I] = n++; }
  fi->nregs = n; fi->bbs.resize(nb);
  auto opnd = [&](Value* v) -> int {
    if (auto* c = dyn_cast<Constant>(v)) { auto it = ci.find(c); if (it != ci.end()) return -it->second - 1; int k = fi->constsrc.size(); ci[c] = k; fi->constsrc.push_back(c); fi->consts.push_back(Val()); fi->constok.push_back(0); return -k - 1; }
    auto it = slot.find(v); if (it == slot.end()) return INT32_MIN; return it->second;
  };
  for (auto& B : *F) {
    DBB& D = fi->bbs[bbi[&B]];
    for (auto& I : B) {
      if (auto* P = dyn_cast<PHINode>(&I)) { DBB::Phi p; p.dst = slot[P]; for (unsigned i = 0; i < P->getNumIncomingValues(); i++) p.in.push_back({bbi[P->getIncomingBlock(i)], opnd(P->getIncomingValue(i))}); D.phis.push_back(p); continue; }
      if (isa<DbgInfoIntrinsic>(&I)) continue;
      DI d; d.op = I.getOpcode(); d.I = &I; d.dst = I.getType()->isVoidTy() ? -1 : slot[&I]; d.w = I.getType()->isSized() && !I.getType()->isAggregateType() ? bits(DL, I.getType()) : 0;
      if (auto* C = dyn_cast<CallBase>(&I)) {
        for (auto& A : C->args()) d.ops.push_back(isa<MetadataAsValue>(A.get()) ? INT32_MIN : opnd(A.get()));
        Value* cv = C->getCalledOperand()->stripPointerCasts(); if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
        d.callee = dyn_cast<Function>(cv); if (!d.callee) d.imm = 1, d.ops.push_back(opnd(C->getCalledOperand()));
        if (d.callee) { auto it = hidx.find(d.callee->getName().str()); if (it != hidx.end()) d.handler = it->second; }
        if (auto* V = dyn_cast<InvokeInst>(&I)) { d.s0 = bbi[V->getNormalDest()]; d.s1 = bbi[V->getUnwindDest()]; }
      } else if (auto* G = dyn_cast<GetElementPtrInst>(&I)) {
        d.ops.push_back(opnd(G->getPointerOperand())); int64_t off = 0;
        for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
          Value* ix = it.getOperand();
          if (StructType* st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
          uint64_t es = DL->getTypeAllocSize(it.getIndexedType());
          if (auto* c = dyn_cast<ConstantInt>(ix)) { off += c->getSExtValue() * (int64_t)es; continue; }
          d.gep.push_back({opnd(ix), es});
        }
        d.imm = (uint64_t)off;
      } else if (auto* Br = dyn_cast<BranchInst>(&I)) {
        if (Br->isConditional()) { d.ops.push_back(opnd(Br->getCondition())); d.s0 = bbi[Br->getSuccessor(0)]; d.s1 = bbi[Br->getSuccessor(1)]; } else d.s0 = bbi[Br->getSuccessor(0)];
      } else if (auto* Sw = dyn_cast<SwitchInst>(&I)) {
        d.ops.push_back(opnd(Sw->getCondition())); d.s0 = bbi[Sw->getDefaultDest()]; for (auto& c : Sw->cases()) d.cases.push_back({c.getCaseValue()->getZExtValue(), bbi[c.getCaseSuccessor()]});
      } else {
        for (auto& o : I.operands()) if (!isa<BasicBlock>(o.get())) d.ops.push_back(opnd(o.get()));
        if (auto* C = dyn_cast<CmpInst>(&I)) d.pred = C->getPredicate();
      }
      D.ins.push_back(std::move(d));
    }
  }
  return fi;
}
Val& Exec::reg(Frame& f, int i) {
  if (i >= 0) return f.regs[i];
  static Val none; if (i == INT32_MIN) return none;
  int k = -i - 1; if (!f.f->constok[k]) { f.f->consts[k] = constant(f.f->constsrc[k]); f.f->constok[k] = 1; }
  return f.f->consts[k];
}

// ------------------------------------------------------------------ calls and exceptions
void Exec::call(Function* F, std::vector<Val> args, DI* site) {
  if (stack.size() > cfg.maxdepth) fail("stack", "call depth limit exceeded (runaway recursion)");
  Frame* fr = new Frame; fr->f = info(F); fr->regs.resize(fr->f->nregs); fr->site = site; size_t n = F->arg_size();
  for (size_t i = 0; i < n && i < args.size(); i++) {
    fr->regs[i] = args[i];
    if (F->hasParamAttribute(i, Attribute::ByVal)) { Type* t = F->getParamByValType(i); uint64_t sz = DL->getTypeAllocSize(t); Obj* o = alloc(sz, "byval"); o->stack = true; copyMem(o->base, args[i].c, sz, false); fr->allocas.push_back(o); fr->regs[i] = vI(o->base, 64); }
  }
  for (size_t i = n; i < args.size(); i++) fr->va.push_back(args[i]);
  stack.push_back(fr);
}
void Exec::ret(Val v) {
  Frame* fr = stack.back(); for (Obj* o : fr->allocas) { o->freed = true; if (lastObj == o) lastObj = nullptr; objs.erase(o->base); delete o; }
  stack.pop_back(); DI* s = fr->site; delete fr;
  if (stack.empty() || !s) return;
  Frame& f = *stack.back(); if (s->dst >= 0) f.regs[s->dst] = v;
  if (s->op == Instruction::Invoke) jump(f, s->s0);
}
void Exec::jump(Frame& f, int bb) {
  int from = f.bb; DBB& D = f.f->bbs[bb];
  if (!D.phis.empty()) {
    Val tmp[64]; std::vector<Val> big; Val* t = tmp; if (D.phis.size() > 64) { big.resize(D.phis.size()); t = big.data(); }
    for (size_t i = 0; i < D.phis.size(); i++) for (auto& in : D.phis[i].in) if (in.first == from) { t[i] = reg(f, in.second); break; }
    for (size_t i = 0; i < D.phis.size(); i++) f.regs[D.phis[i].dst] = t[i];
  }
  f.prev = from; f.bb = bb; f.pc = 0;
}
std::string Exec::tiName(uint64_t ti) { Obj* o = find(ti); return o ? o->name : ""; }
static uint64_t ld8(Exec& x, uint64_t a) { uint8_t* p = x.raw(a, 8); if (!p) return 0; uint64_t v; memcpy(&v, p, 8); return v; }
bool Exec::baseOf(uint64_t ti, uint64_t target, uint64_t obj, int64_t& off) {
  if (ti == target) { off = 0; return true; } if (!ti) return false;
  uint64_t vt = ld8(*this, ti); Obj* v = find(vt); std::string k = v ? v->name : "";
  if (k.find("si_class_type_info") != std::string::npos) return baseOf(ld8(*this, ti + 16), target, obj, off);
  if (k.find("vmi_class_type_info") != std::string::npos) {
    uint32_t cnt = 0; if (uint8_t* p = raw(ti + 20, 4)) memcpy(&cnt, p, 4);
    for (uint32_t i = 0; i < cnt; i++) {
      uint64_t b = ld8(*this, ti + 24 + 16 * i); int64_t fl = (int64_t)ld8(*this, ti + 32 + 16 * i); int64_t o = fl >> 8;
      if ((fl & 1) && obj) { uint64_t vp = ld8(*this, obj); o = (int64_t)ld8(*this, vp + o); }
      int64_t s; if (baseOf(b, target, obj ? obj + o : 0, s)) { off = o + s; return true; }
    }
  }
  return false;
}
bool Exec::excMatch(uint64_t ti, uint64_t target, int64_t& adj) { return baseOf(ti, target, 0, adj); }
void Exec::throwExc(uint64_t obj, uint64_t ti) { cur = {obj, ti}; excType[obj] = ti; unwind(); }
void Exec::unwind() {
  bool first = true;
  while (true) {
    if (stack.empty()) { S->errors++; endPath("failed"); }
    Frame& f = *stack.back(); auto& B = f.f->bbs[f.bb].ins; DI& d = B[f.pc ? f.pc - 1 : 0]; (void)first; first = false;
    if (d.op == Instruction::Invoke) {
      auto* LP = cast<InvokeInst>(d.I)->getLandingPadInst(); int sel = 0; bool go = LP->isCleanup();
      for (unsigned i = 0; i < LP->getNumClauses(); i++) {
        if (LP->isCatch(i)) { Constant* c = LP->getClause(i); Val t = constant(c); int64_t adj;
          if (t.c == 0 || excMatch(cur.tinfo, t.c, adj)) { sel = t.c ? (selId.count(t.c) ? selId[t.c] : (selId[t.c] = selId.size() + 1)) : 9999; go = true; break; } }
        else { sel = -1; go = true; break; }
      }
      if (go) { jump(f, d.s1); Val r; r.t = 2; r.agg = new std::vector<Val>{vI(cur.obj, 64), vI((uint64_t)(int64_t)sel, 32)};
        DI& lp = f.f->bbs[f.bb].ins[0]; f.regs[lp.dst] = r; f.pc = 1; return; }
    }
    if (stack.size() == 1 || !f.site) { fail("uncaught", "uncaught exception " + demangle(tiName(cur.tinfo))); }
    Frame* fr = stack.back(); for (Obj* o : fr->allocas) { o->freed = true; if (lastObj == o) lastObj = nullptr; objs.erase(o->base); delete o; }
    stack.pop_back(); delete fr;
  }
}

// ------------------------------------------------------------------ instructions
Val Exec::binop(DI& d, Val& a, Val& b) {
  unsigned w = a.w; unsigned op = d.op;
  if (a.t == 2) { Val r; r.t = 2; r.agg = new std::vector<Val>; for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(binop(d, (*a.agg)[i], (*b.agg)[i])); return r; }
  if (a.t == 1) {
    Expr *x = a.e, *y = b.e;
    switch (op) {
      case Instruction::FAdd: return vR(rAdd(x, y), w); case Instruction::FSub: return vR(rSub(x, y), w); case Instruction::FMul: return vR(rMul(x, y), w);
      case Instruction::FDiv: {
        if (!isRC(y) && y->k != K::RSpecial && !rPositive(y)) { Expr* nz = eNot(rCmp(K::REq, y, rC(0))); if (may(eNot(nz))) { note = "division: zero divisors outside"; assume(nz); } }
        return vR(rDiv(x, y), w); }
      case Instruction::FRem: if (isRC(x) && isRC(y)) return vR(rD(fmod(rToDouble(x), rToDouble(y))), w); unsupported("symbolic frem");
    }
  }
  if (op == Instruction::UDiv || op == Instruction::SDiv || op == Instruction::URem || op == Instruction::SRem) {
    if (!b.e && b.c == 0) fail("divzero", "integer division by zero");
    if (b.e) { Expr* z = eEq(b.e, eC(0, w)); if (may(z)) { std::string wh = where(); if (!seenMore("divzero" + wh, cfg.maxrep)) { Assignment m; if (solve(pc, z, &m, false) == Res::Sat) report("divzero", "integer division by zero", &m); } assume(eNot(z)); } }
  }
  if (!a.e && !b.e && w <= 64) {
    uint64_t x = a.c, y = b.c; int64_t sx = (int64_t)(w == 64 ? x : (uint64_t)((int64_t)(x << (64 - w)) >> (64 - w))), sy = (int64_t)((int64_t)(y << (64 - w)) >> (64 - w));
    switch (op) {
      case Instruction::Add: return vI(x + y, w); case Instruction::Sub: return vI(x - y, w); case Instruction::Mul: return vI(x * y, w);
      case Instruction::UDiv: return vI(x / y, w); case Instruction::URem: return vI(x % y, w); case Instruction::SDiv: return vI(sy == -1 ? -(uint64_t)sx : (uint64_t)(sx / sy), w); case Instruction::SRem: return vI(sy == -1 ? 0 : (uint64_t)(sx % sy), w);
      case Instruction::And: return vI(x & y, w); case Instruction::Or: return vI(x | y, w); case Instruction::Xor: return vI(x ^ y, w);
      case Instruction::Shl: return vI(y >= w ? 0 : x << y, w); case Instruction::LShr: return vI(y >= w ? 0 : x >> y, w); case Instruction::AShr: return vI((uint64_t)(sx >> (y >= w ? w - 1 : y)), w);
    }
  }
  K k;
  switch (op) {
    case Instruction::Add: k = K::Add; break; case Instruction::Sub: k = K::Sub; break; case Instruction::Mul: k = K::Mul; break; case Instruction::UDiv: k = K::UDiv; break; case Instruction::SDiv: k = K::SDiv; break;
    case Instruction::URem: k = K::URem; break; case Instruction::SRem: k = K::SRem; break; case Instruction::And: k = K::And; break; case Instruction::Or: k = K::Or; break; case Instruction::Xor: k = K::Xor; break;
    case Instruction::Shl: k = K::Shl; break; case Instruction::LShr: k = K::LShr; break; case Instruction::AShr: k = K::AShr; break; default: unsupported("binary operation");
  }
  return vE(eBin(k, toE(a), toE(b)));
}
static Val icmp(unsigned p, const Val& a, const Val& b) {
  if (!a.e && !b.e) {
    uint64_t x = a.c, y = b.c; unsigned w = a.w; int64_t sx = w >= 64 ? (int64_t)x : (int64_t)(x << (64 - w)) >> (64 - w), sy = w >= 64 ? (int64_t)y : (int64_t)(y << (64 - w)) >> (64 - w);
    switch (p) { case CmpInst::ICMP_EQ: return vI(x == y, 1); case CmpInst::ICMP_NE: return vI(x != y, 1); case CmpInst::ICMP_UGT: return vI(x > y, 1); case CmpInst::ICMP_UGE: return vI(x >= y, 1); case CmpInst::ICMP_ULT: return vI(x < y, 1); case CmpInst::ICMP_ULE: return vI(x <= y, 1);
      case CmpInst::ICMP_SGT: return vI(sx > sy, 1); case CmpInst::ICMP_SGE: return vI(sx >= sy, 1); case CmpInst::ICMP_SLT: return vI(sx < sy, 1); default: return vI(sx <= sy, 1); }
  }
  Expr *x = toE(a), *y = toE(b);
  switch (p) { case CmpInst::ICMP_EQ: return vE(eEq(x, y)); case CmpInst::ICMP_NE: return vE(eNot(eEq(x, y))); case CmpInst::ICMP_UGT: return vE(eBin(K::Ult, y, x)); case CmpInst::ICMP_UGE: return vE(eBin(K::Ule, y, x)); case CmpInst::ICMP_ULT: return vE(eBin(K::Ult, x, y)); case CmpInst::ICMP_ULE: return vE(eBin(K::Ule, x, y));
    case CmpInst::ICMP_SGT: return vE(eBin(K::Slt, y, x)); case CmpInst::ICMP_SGE: return vE(eBin(K::Sle, y, x)); case CmpInst::ICMP_SLT: return vE(eBin(K::Slt, x, y)); default: return vE(eBin(K::Sle, x, y)); }
}
static Val fcmp(unsigned p, Expr* x, Expr* y) {
  bool nan = (x->k == K::RSpecial && x->v == 3) || (y->k == K::RSpecial && y->v == 3);
  if (p == CmpInst::FCMP_TRUE) return vI(1, 1); if (p == CmpInst::FCMP_FALSE) return vI(0, 1);
  if (p == CmpInst::FCMP_ORD) return vI(!nan, 1); if (p == CmpInst::FCMP_UNO) return vI(nan, 1);
  if (nan) return vI(p >= CmpInst::FCMP_UEQ, 1);
  switch (p) {
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return vE(rCmp(K::REq, x, y)); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return vE(eNot(rCmp(K::REq, x, y)));
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return vE(rCmp(K::RLt, x, y)); case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return vE(rCmp(K::RLe, x, y));
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return vE(rCmp(K::RLt, y, x)); default: return vE(rCmp(K::RLe, y, x));
  }
}
Val fpToInt(Exec& X, Expr* x, unsigned w, bool sg) {
  if (x->k == K::RSpecial) { X.fail("fpcast", "non-finite value converted to an integer"); }
  if (X.fpcastCheck) {
    mpz_class one = 1; mpq_class hi = sg ? mpq_class(one << (w - 1)) : mpq_class(one << w), lo = sg ? mpq_class(-(one << (w - 1)) - 1) : mpq_class(-1);
    Expr* in = eAnd(rCmp(K::RLt, rC(lo), x), rCmp(K::RLt, x, rC(hi)));
    if (X.may(eNot(in))) { std::string wh = X.where(); if (!seenMore("fpcast" + wh, cfg.maxrep)) { Assignment m; if (solve(X.pc, eNot(in), &m, false) == Res::Sat) X.report("fpcast", "floating-point value out of the range of the integer type it is converted to", &m); } X.assume(in); }
  }
  // a small range is explored integer by integer, which keeps the conversion out of the solver
  if (!isRC(x) && w > 8 && !X.may(eNot(eAnd(rCmp(K::RLt, rC(-1), x), rCmp(K::RLt, x, rC(40)))))) { uint64_t i = 0; while (i < 39 && !X.decide(rCmp(K::RLt, x, rC((long)i + 1)), "integer part")) i++; return vE(eC(i, w)); }
  return vE(rToBV(x, w, sg));
}
void Exec::step() {
  Frame& f = *stack.back(); DI& d = f.f->bbs[f.bb].ins[f.pc++]; icount++;
  if ((icount & 0xfff) == 0) { if (now() - cfg.t0 > cfg.timeout) S->stop = 1; if (S->stop) endPath("truncated"); if (icount > cfg.maxinst) fail("hang", "execution does not end within " + std::to_string(cfg.maxinst) + " instructions"); }
  auto R = [&](int i) -> Val& { return reg(f, d.ops[i]); };
  switch (d.op) {
    case Instruction::Ret: ret(d.ops.empty() ? Val() : R(0)); return;
    case Instruction::Br:
      if (d.ops.empty()) { jump(f, d.s0); return; }
      { Val& c = R(0); bool t = c.e ? decide(c.e) : c.c & 1; jump(f, t ? d.s0 : d.s1); return; }
    case Instruction::Switch: {
      Val& c = R(0); if (!c.e) { for (auto& k : d.cases) if (k.first == c.c) { jump(f, k.second); return; } jump(f, d.s0); return; }
      Expr* e = c.e; std::map<int, Expr*> byT; for (auto& k : d.cases) { Expr* q = eEq(e, eC(k.first, e->w)); auto& x = byT[k.second]; x = x ? eOr(x, q) : q; }
      for (auto& p : byT) if (p.first != d.s0) if (decide(p.second)) { jump(f, p.first); return; }
      jump(f, d.s0); return; }
    case Instruction::Unreachable: fail("unreachable", "control reaches a point the compiler considers undefined (missing return or broken invariant)");
    case Instruction::Alloca: { auto* A = cast<AllocaInst>(d.I); uint64_t n = DL->getTypeAllocSize(A->getAllocatedType()) * concretize(R(0), "alloca"); Obj* o = alloc(n, A->getName().str(), A->getAlign().value()); o->stack = true; f.allocas.push_back(o); f.regs[d.dst] = vI(o->base, 64); return; }
    case Instruction::Load: { Val a = R(0); atomicAcc = cast<LoadInst>(d.I)->isAtomic(); f.regs[d.dst] = load(a, d.I->getType()); atomicAcc = false; return; }
    case Instruction::Store: { Val v = R(0), a = R(1); atomicAcc = cast<StoreInst>(d.I)->isAtomic(); store(a, v, d.I->getOperand(0)->getType()); atomicAcc = false; return; }
    case Instruction::GetElementPtr: {
      Val& b = R(0); if (b.t == 2) unsupported("vector gep"); bool sym = b.e; for (auto& g : d.gep) sym |= reg(f, g.first).e != nullptr;
      if (!sym) { uint64_t a = b.c + d.imm; for (auto& g : d.gep) { Val& x = reg(f, g.first); int64_t s = x.w >= 64 ? (int64_t)x.c : (int64_t)(x.c << (64 - x.w)) >> (64 - x.w); a += (uint64_t)s * g.second; } f.regs[d.dst] = vI(a, 64); return; }
      Expr* a = eBin(K::Add, toE(b), eC(d.imm, 64)); for (auto& g : d.gep) { Expr* x = eSExt(toE(reg(f, g.first)), 64); a = eBin(K::Add, a, eBin(K::Mul, x, eC(g.second, 64))); }
      f.regs[d.dst] = vE(a); return; }
    case Instruction::ICmp: { Val &a = R(0), &b = R(1); if (a.t == 2) { Val r; r.t = 2; r.agg = new std::vector<Val>; for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(icmp(d.pred, (*a.agg)[i], (*b.agg)[i])); f.regs[d.dst] = r; return; } f.regs[d.dst] = foldBool(icmp(d.pred, a, b)); return; }
    case Instruction::FCmp: f.regs[d.dst] = fcmp(d.pred, R(0).e, R(1).e); return;
    case Instruction::Select: {
      Val& c = R(0); if (c.t == 2) { Val r; r.t = 2; r.agg = new std::vector<Val>; for (size_t i = 0; i < c.agg->size(); i++) { Val& q = (*c.agg)[i]; bool t = q.e ? decide(q.e) : q.c & 1; r.agg->push_back(t ? (*R(1).agg)[i] : (*R(2).agg)[i]); } f.regs[d.dst] = r; return; }
      if (!c.e) { f.regs[d.dst] = (c.c & 1) ? R(1) : R(2); return; }
      Val a = R(1), b = R(2); if (a.t == 0 && b.t == 0 && !a.e && !b.e && a.c == b.c) { f.regs[d.dst] = a; return; }
      bool ptr = d.I->getType()->isPointerTy();
      if (a.t == 2 || ptr || (a.t == 1 && cfg.forkFpSelect)) { if (a.t == 1 && a.e == b.e) { f.regs[d.dst] = a; return; } bool t = decide(c.e); f.regs[d.dst] = t ? a : b; return; }
      if (a.t == 1) { if (a.e->k == K::RSpecial || b.e->k == K::RSpecial) { bool t = decide(c.e); f.regs[d.dst] = t ? a : b; return; } f.regs[d.dst] = vR(eIte(c.e, a.e, b.e), a.w); return; }
      f.regs[d.dst] = vE(eIte(c.e, toE(a), toE(b))); return; }
    case Instruction::Trunc: { Val& a = R(0); if (a.t == 2) unsupported("vector trunc"); f.regs[d.dst] = a.e ? vE(eExtract(a.e, 0, d.w)) : vI(a.c, d.w); return; }
    case Instruction::ZExt: { Val& a = R(0); if (a.t == 2) unsupported("vector zext"); f.regs[d.dst] = (a.e || d.w > 64) ? vE(eZExt(toE(a), d.w)) : vI(a.c, d.w); return; }
    case Instruction::SExt: { Val& a = R(0); if (a.t == 2) unsupported("vector sext"); f.regs[d.dst] = (a.e || d.w > 64) ? vE(eSExt(toE(a), d.w)) : vI((uint64_t)((int64_t)(a.c << (64 - a.w)) >> (64 - a.w)), d.w); return; }
    case Instruction::PtrToInt: case Instruction::IntToPtr: { Val& a = R(0); if (a.w == d.w) f.regs[d.dst] = a; else if (a.e) f.regs[d.dst] = vE(a.w > d.w ? eExtract(a.e, 0, d.w) : eZExt(a.e, d.w)); else f.regs[d.dst] = vI(a.c, d.w); return; }
    case Instruction::BitCast: { Val a = R(0); Type* t = d.I->getType(); if (a.t == 2 || t->isVectorTy()) { if (t == d.I->getOperand(0)->getType()) { f.regs[d.dst] = a; return; } unsupported("vector bitcast"); } bool fp = t->isDoubleTy() || t->isFloatTy(); if (a.t == 1 && !fp) f.regs[d.dst] = vE(eFpBits(a.e, d.w)); else if (a.t == 0 && fp) f.regs[d.dst] = vR(rFromBits(toE(a)), d.w); else f.regs[d.dst] = a; return; }
    case Instruction::FPTrunc: { Val& a = R(0); if (isRC(a.e)) { f.regs[d.dst] = vR(rD((float)rToDouble(a.e)), d.w); return; } f.regs[d.dst] = vR(a.e, d.w); return; }
    case Instruction::FPExt: f.regs[d.dst] = vR(R(0).e, d.w); return;
    case Instruction::UIToFP: f.regs[d.dst] = vR(rFromBV(toE(R(0)), false), d.w); return;
    case Instruction::SIToFP: f.regs[d.dst] = vR(rFromBV(toE(R(0)), true), d.w); return;
    case Instruction::FPToUI: f.regs[d.dst] = fpToInt(*this, R(0).e, d.w, false); return;
    case Instruction::FPToSI: f.regs[d.dst] = fpToInt(*this, R(0).e, d.w, true); return;
    case Instruction::FNeg: f.regs[d.dst] = vR(rNeg(R(0).e), d.w); return;
    case Instruction::Freeze: f.regs[d.dst] = R(0); return;
    case Instruction::ExtractValue: { Val v = R(0); for (unsigned i : cast<ExtractValueInst>(d.I)->indices()) { Val n = (*v.agg)[i]; v = n; } f.regs[d.dst] = v; return; }
    case Instruction::InsertValue: {
      std::function<Val(Val, ArrayRef<unsigned>, const Val&)> ins = [&](Val a, ArrayRef<unsigned> ix, const Val& x) -> Val { Val r = a; r.agg = new std::vector<Val>(*a.agg); if (ix.size() == 1) (*r.agg)[ix[0]] = x; else (*r.agg)[ix[0]] = ins((*a.agg)[ix[0]], ix.slice(1), x); return r; };
      f.regs[d.dst] = ins(R(0), cast<InsertValueInst>(d.I)->getIndices(), R(1)); return; }
    case Instruction::ExtractElement: { Val v = R(0); f.regs[d.dst] = (*v.agg)[concretize(R(1), "vector index")]; return; }
    case Instruction::InsertElement: { Val v = R(0); Val r = v; r.agg = new std::vector<Val>(*v.agg); (*r.agg)[concretize(R(2), "vector index")] = R(1); f.regs[d.dst] = r; return; }
    case Instruction::ShuffleVector: { auto* SV = cast<ShuffleVectorInst>(d.I); Val a = R(0), b = R(1); Val r; r.t = 2; r.agg = new std::vector<Val>; int n = a.agg->size(); for (int m : SV->getShuffleMask()) r.agg->push_back(m < 0 ? (*a.agg)[0] : m < n ? (*a.agg)[m] : (*b.agg)[m - n]); f.regs[d.dst] = r; return; }
    case Instruction::Call: case Instruction::Invoke: doCall(f, d); return;
    case Instruction::Resume: { Val v = R(0); cur.obj = (*v.agg)[0].c; cur.tinfo = excType[cur.obj];
      // leave this frame
      if (stack.size() == 1 || !f.site) fail("uncaught", "uncaught exception " + demangle(tiName(cur.tinfo)));
      Frame* fr = stack.back(); for (Obj* o : fr->allocas) { o->freed = true; if (lastObj == o) lastObj = nullptr; objs.erase(o->base); delete o; } stack.pop_back(); delete fr; unwind(); return; }
    case Instruction::LandingPad: return;
    case Instruction::Fence: return;
    case Instruction::AtomicRMW: { struct G { bool& b; G(bool& x) : b(x) { b = true; } ~G() { b = false; } } g(atomicAcc); auto* A = cast<AtomicRMWInst>(d.I); Val p = R(0), v = R(1); Val o = load(p, d.I->getType()); Expr *x = toE(o), *y = toE(v), *n;
      switch (A->getOperation()) { case AtomicRMWInst::Add: n = eBin(K::Add, x, y); break; case AtomicRMWInst::Sub: n = eBin(K::Sub, x, y); break; case AtomicRMWInst::Xchg: n = y; break; case AtomicRMWInst::And: n = eBin(K::And, x, y); break; case AtomicRMWInst::Or: n = eBin(K::Or, x, y); break; default: unsupported("atomicrmw"); }
      store(p, vE(n), d.I->getType()); f.regs[d.dst] = o; return; }
    case Instruction::AtomicCmpXchg: { struct G { bool& b; G(bool& x) : b(x) { b = true; } ~G() { b = false; } } g(atomicAcc); Val p = R(0), c = R(1), n = R(2); Type* t = d.I->getOperand(1)->getType(); Val o = load(p, t); Expr* q = eEq(toE(o), toE(c)); bool eq = decide(q); if (eq) store(p, n, t); Val r; r.t = 2; r.agg = new std::vector<Val>{o, vI(eq, 1)}; f.regs[d.dst] = r; return; }
    case Instruction::VAArg: unsupported("va_arg");
    default: if (d.I->isBinaryOp()) { f.regs[d.dst] = binop(d, R(0), R(1)); return; } unsupported(std::string("instruction ") + d.I->getOpcodeName());
  }
}
Val intrinsic(Exec& X, DI& d, std::vector<Val>& a, bool& ok);
void Exec::doCall(Frame& f, DI& d) {
  std::vector<Val> args; args.reserve(d.ops.size()); for (int o : d.ops) args.push_back(reg(f, o));
  Function* F = d.callee; int h = d.handler;
  if (!F) {
    Val fp = args.back(); args.pop_back(); uint64_t a = concretize(fp, "function pointer"); auto it = faddr.find(a);
    if (it == faddr.end()) fail("memory", a == 0 ? "call through a null function pointer" : "call through an invalid function pointer"); F = it->second; auto hi = hidx.find(F->getName().str()); if (hi != hidx.end()) h = hi->second;
  }
  if (h >= 0) {
    Val r; size_t depth = stack.size(); bool pushed = !handlers[h](*this, args, r, d); (void)depth;
    if (pushed) return; // the handler changed control itself
    if (d.dst >= 0) stack.back()->regs[d.dst] = r; if (d.op == Instruction::Invoke) jump(*stack.back(), d.s0); return;
  }
  if (F->isIntrinsic()) { bool ok = true; Val r = intrinsic(*this, d, args, ok); if (!ok) unsupported("intrinsic " + F->getName().str()); if (d.dst >= 0) f.regs[d.dst] = r; if (d.op == Instruction::Invoke) jump(f, d.s0); return; }
  if (F->isDeclaration()) unsupported("external function " + demangle(F->getName().str()));
  call(F, std::move(args), &d);
}
void Exec::start(Function* F) { stack.clear(); call(F, {}, nullptr); while (!stack.empty()) step(); }
