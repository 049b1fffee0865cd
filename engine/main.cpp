// llsym: symbolic execution of LLVM bitcode.  usage: llsym prog.bc entry out.jsonl [-j N] [-t seconds] [-i maxinst] [-s samples] [-r rlimit]
#include "exec.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Bitcode/BitcodeReader.h>
#include <llvm/IR/Constants.h>
#include <llvm/Transforms/Utils/ModuleUtils.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <unistd.h>
#include <csignal>
#include <cstring>
using namespace llvm;
int main(int argc, char** argv) {
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < (1UL << 30) && !getenv("LLSYM_STACK")) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY ? (2UL << 30) : rl.rlim_max; setrlimit(RLIMIT_STACK, &rl); setenv("LLSYM_STACK", "1", 1); execv("/proc/self/exe", argv); }
  if (argc < 4) { fprintf(stderr, "usage: llsym prog.bc entry out [options]\n"); return 2; }
  for (int i = 4; i + 1 < argc; i += 2) { std::string o = argv[i]; double v = atof(argv[i + 1]); if (o == "-j") cfg.jobs = v; else if (o == "-t") cfg.timeout = v; else if (o == "-i") cfg.maxinst = v; else if (o == "-s") cfg.samples = v; else if (o == "-r") g_rlimit = v; else if (o == "-f") cfg.forkFpSelect = v; else if (o == "-v") cfg.maxrep = v; else if (o == "-a") { extern bool g_tanhAtom; g_tanhAtom = v != 0; } }
  LLVMContext ctx; SMDiagnostic err; auto M = parseIRFile(argv[1], err, ctx); if (!M) { err.print("llsym", errs()); return 2; }
  Function* E = M->getFunction(argv[2]); if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", argv[2]); return 2; }
  cfg.outfd = open(argv[3], O_CREAT | O_WRONLY | O_TRUNC | O_APPEND | O_CLOEXEC, 0644); cfg.t0 = now();
  S = (Stats*)mmap(0, sizeof(Stats), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); g_sstat = &S->ss; S->tokens = cfg.jobs - 1;
  prctl(PR_SET_CHILD_SUBREAPER, 1); signal(SIGPIPE, SIG_IGN);
  pid_t p = fork();
  if (p == 0) {
    Exec X; X.init(M.get()); warmSolver();
    // global constructors by priority, then the entry
    if (auto* G = M->getGlobalVariable("llvm.global_ctors")) if (auto* A = dyn_cast<ConstantArray>(G->getInitializer())) {
      std::vector<std::pair<uint64_t, Function*>> v; for (auto& o : A->operands()) { auto* s = cast<ConstantStruct>(o.get()); if (auto* f = dyn_cast<Function>(s->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), f}); }
      std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; }); for (auto& x : v) X.start(x.second);
    }
    X.start(E); X.endPath("ok");
  }
  // hard deadline
  int st; double hard = cfg.timeout + 30; bool killed = false; double vio = 0;
  while (true) {
    pid_t r = waitpid(-1, &st, WNOHANG);
    if (r < 0 && errno == ECHILD) break;
    if (r > 0) { if (WIFSIGNALED(st)) { S->errors++; fprintf(stderr, "llsym: worker died of signal %d\n", WTERMSIG(st)); } continue; }
    if (now() - cfg.t0 > cfg.timeout) S->stop = 1;
    if (!vio && S->violations.load()) vio = now();  // the verdict is known: look a little further, then stop
    if (vio && now() - vio > 30) { S->stop = 1; hard = std::min(hard, vio - cfg.t0 + 45); }
    if (now() - cfg.t0 > hard && !killed) { killed = true; S->truncated++; signal(SIGTERM, SIG_IGN); kill(0, SIGTERM); }
    if (killed && now() - cfg.t0 > hard + 10) break;
    usleep(2000);
  }
  char b[2000]; snprintf(b, sizeof b, "{\"t\":\"stats\",\"paths\":%lu,\"killed\":%lu,\"truncated\":%lu,\"errors\":%lu,\"insts\":%lu,\"forks\":%lu,\"checks\":%lu,\"checks_trivial\":%lu,\"certs\":%lu,\"certs_shared\":%lu,\"inconclusive\":%lu,\"violations\":%lu,\"unsupported\":%lu,\"queries\":%lu,\"sat\":%lu,\"unsat\":%lu,\"unknown\":%lu,\"solver_s\":%.3f,\"max_query_s\":%.3f,\"wall_s\":%.3f}\n",
    S->paths.load(), S->killed.load(), S->truncated.load(), S->errors.load(), S->insts.load(), S->forks.load(), S->checks.load(), S->checks_trivial.load(), S->certs.load(), S->certs_shared.load(), S->inconclusive.load(), S->violations.load(), S->unsupported.load(), S->ss.queries.load(), S->ss.sat.load(), S->ss.unsat.load(), S->ss.unknown.load(), S->ss.us.load() / 1e6, S->ss.maxus.load() / 1e6, now() - cfg.t0);
  if (write(cfg.outfd, b, strlen(b)) < 0) return 2;
  return 0;
}
