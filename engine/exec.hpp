#pragma once
#include "expr.hpp"
#include <bitset>
#include <unordered_set>
#include "solver.hpp"
#include <atomic>
#include <functional>
#include <map>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/DataLayout.h>

struct Val {
  uint64_t c = 0; Expr* e = nullptr; std::vector<Val>* agg = nullptr; uint16_t w = 0; uint8_t t = 3; // t: 0 int, 1 real, 2 aggregate, 3 none
};
inline Val vI(uint64_t c, unsigned w) { Val v; v.t = 0; v.w = w; v.c = w >= 64 ? c : (c & ((1ULL << w) - 1)); return v; }
inline Val vE(Expr* e) {
  Val v; if (isR(e)) { v.t = 1; v.w = 64; v.e = e; return v; }
  v.t = 0; v.w = e->w; if (e->k == K::BConst && e->w <= 64) { v.c = (uint64_t)e->v; return v; } v.e = e; return v;
}
inline Val vR(Expr* e, unsigned w = 64) { Val v; v.t = 1; v.w = w; v.e = e; return v; }
inline Expr* toE(const Val& v) { return v.e ? v.e : eC(v.c, v.w); }

struct SymVec { // lazily allocated pages
  typedef std::pair<Expr*, uint8_t> E; static constexpr size_t P = 1024; std::vector<E*> pg;
  bool empty() const { return pg.empty(); } void resize(size_t n) { pg.resize((n + P - 1) / P + 1, nullptr); } void clear() { for (auto* p : pg) delete[] p; pg.clear(); } void shrink_to_fit() {}
  E& operator[](size_t i) { E*& p = pg[i / P]; if (!p) p = new E[P]; return p[i % P]; }
};
struct Obj {
  uint64_t base, size; std::string name; bool freed = false, ro = false, heap = false, stack = false, arr = false, tls = false;
  std::vector<uint8_t> data, st; // st: 0 uninitialised, 1 concrete, 2 symbolic
  SymVec sym; // lazily sized
};

struct DI { // decoded instruction
  unsigned op; llvm::Instruction* I; int dst; std::vector<int> ops; uint64_t imm = 0; std::vector<std::pair<int, uint64_t>> gep; unsigned w = 0; int s0 = -1, s1 = -1; unsigned ty = 0; unsigned pred = 0;
  std::vector<std::pair<uint64_t, int>> cases; llvm::Function* callee = nullptr; int handler = -1; bool isAgg = false;
};
struct DBB { std::vector<DI> ins; struct Phi { int dst; std::vector<std::pair<int, int>> in; }; std::vector<Phi> phis; };
struct FInfo { llvm::Function* F; std::vector<DBB> bbs; int nregs; std::vector<Val> consts; std::vector<llvm::Constant*> constsrc; std::vector<char> constok; };
struct Frame {
  FInfo* f; std::vector<Val> regs; int bb = 0; size_t pc = 0; int prev = -1; std::vector<Obj*> allocas; DI* site = nullptr; std::vector<Val> va; Obj* vaobj = nullptr;
};

struct Stats {
  std::atomic<uint64_t> paths, killed, truncated, errors, insts, forks, checks, checks_trivial, inconclusive, violations, unsupported, samples, certs, certs_shared; std::atomic<int> tokens;
  std::atomic<uint64_t> seen[4096]; // dedupe table
  std::atomic<uint32_t> seencnt[4096];
  std::atomic<uint64_t> certKey[65536][2]; SolverStats ss; std::atomic<int> stop;
};
extern Stats* S;

struct Config { int jobs = 8; double timeout = 100; uint64_t maxinst = 20000000; int samples = 8; bool forkFpSelect = true; int outfd = -1; double t0 = 0; unsigned maxdepth = 600; int maxrep = 3; };
extern Config cfg;
double now();

struct Exec {
  llvm::Module* M; const llvm::DataLayout* DL;
  std::map<uint64_t, Obj*> objs; uint64_t nextAddr = 0x100000; Obj* lastObj = nullptr;
  std::unordered_map<const llvm::GlobalValue*, uint64_t> gaddr; std::unordered_map<uint64_t, llvm::Function*> faddr;
  std::unordered_map<llvm::Function*, FInfo*> finfo;
  std::vector<Frame*> stack; std::vector<Expr*> pc; Assignment model; bool modelOk = true;
  struct In { std::string name; Expr* e; int kind; }; std::vector<In> inputs; // kind: width, or 0 for real
  struct Ob { std::string name; Expr* e; }; std::vector<Ob> obs;
  uint64_t icount = 0; uint64_t forkDepth = 0; bool holdsToken = true; bool approx = false; uint64_t pathHash = 0; bool fpcastCheck = true, expGuard = false; std::string note;
  std::unordered_map<std::string, int> hidx; typedef std::function<bool(Exec&, std::vector<Val>&, Val&, DI&)> Handler; std::vector<Handler> handlers;
  // exceptions
  struct Exc { uint64_t obj, tinfo; }; std::vector<Exc> caught; Exc cur{0, 0}; bool unwinding = false; std::unordered_map<uint64_t, uint64_t> excType; std::unordered_map<uint64_t, int> selId;

  // concurrent tasks: every task runs to completion when it is created; unordered conflicting accesses are races
  struct Acc { int thr = 0; uint64_t time = 0; uint64_t lock = 0; }; struct Shadow { Acc w; bool hasW = false; std::vector<Acc> r; }; std::unordered_map<uint64_t, Shadow> shadow;
  struct Task { uint64_t spawn = 0; uint64_t joined = 0; int parent = 0; }; std::vector<Task> tasks; std::vector<int> taskStack; struct Tls { std::vector<uint8_t> data, st; SymVec sym; }; std::vector<std::pair<Obj*, Tls>> tlsInit; std::vector<std::vector<Tls>> tlsStack; void tlsEnter(); void tlsLeave(); int curTask = 0, openTasks = 0; uint64_t clock = 1, heldLock = 0; bool atomicAcc = false;
  void access(uint64_t a, uint64_t n, bool write);
  bool ordered(const Acc& p, int c);
  void init(llvm::Module* m);
  // finite domains of byte-sized inputs: decide conditions over one such input without the solver
  std::unordered_map<uint32_t, std::bitset<256>> dom; std::unordered_set<uint32_t> multi;
  std::vector<Expr*> cert; std::unordered_set<Expr*> certSeen; void certify();
  int implied(Expr* c);   // 1: true in the domain, 0: false, -1: open
  bool unaryFree(Expr* c, bool want, uint32_t& s, unsigned& val); // c depends on one otherwise unconstrained input and can be `want`
  Val foldBool(Val v) { if (v.e && v.t == 0 && v.e->w == 1 && !(v.e->flags & F_UNDEF)) { int k = implied(v.e); if (k >= 0) return vI(k, 1); } return v; }
  // memory
  Obj* alloc(uint64_t size, const std::string& name, unsigned align = 16);
  Obj* find(uint64_t a);
  Val load(const Val& addr, llvm::Type* ty);
  Val loadN(Obj* o, uint64_t off, unsigned n, bool fp, unsigned fpw);
  void store(const Val& addr, const Val& v, llvm::Type* ty);
  void storeN(Obj* o, uint64_t off, const Val& v, unsigned nbytes);
  Obj* resolve0(const Val& addr, uint64_t n, bool write, uint64_t& off, Expr*& symOff);
  Obj* resolve(const Val& addr, uint64_t n, bool write, uint64_t& off, Expr*& symOff);
  void copyMem(uint64_t d, uint64_t s, uint64_t n, bool mayOverlap);
  uint64_t concretize(const Val& v, const char* why);
  uint8_t* raw(uint64_t a, uint64_t n); // concrete bytes or null
  std::string cstr(uint64_t a);
  // solver / paths
  bool decide(Expr* c, const char* why = nullptr);
  bool may(Expr* c); // may c be true? (unknown counts as yes)
  void addPC(Expr* c);
  void assume(Expr* c);
  void check(Expr* c, const std::string& msg, const char* kind = "assert", Expr* da = nullptr, Expr* db = nullptr);
  void report(const char* kind, const std::string& msg, const Assignment* m);
  bool fullModel(Assignment& m, Expr* extra);
  [[noreturn]] void endPath(const char* status);
  [[noreturn]] void fail(const char* kind, const std::string& msg); // violation that ends the path
  [[noreturn]] void unsupported(const std::string& msg);
  int forkPath(); // 0 in child
  void emit(const std::string& line);
  std::string where();
  std::string modelJson(const Assignment& m);
  // running
  FInfo* info(llvm::Function* F);
  Val constant(llvm::Constant* c);
  void initGlobal(llvm::Constant* c, Obj* o, uint64_t off);
  Val& reg(Frame& f, int i);
  void call(llvm::Function* F, std::vector<Val> args, DI* site);
  void doCall(Frame& f, DI& d);
  void ret(Val v);
  void jump(Frame& f, int bb);
  void throwExc(uint64_t obj, uint64_t tinfo);
  void unwind();
  void runFrom(size_t depth);
  void step();
  Val binop(DI& d, Val& a, Val& b);
  bool excMatch(uint64_t tinfo, uint64_t target, int64_t& adj);
  bool baseOf(uint64_t ti, uint64_t target, uint64_t obj, int64_t& off);
  std::string tiName(uint64_t ti);
  void addHandlers();
  void start(llvm::Function* F);
};
