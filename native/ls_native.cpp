// Native counterpart of the harness interface: replays one assignment of the symbolic inputs on the compiled code.
// usage: prog <entry> <inputs-file> ; exit 0 held, 101 check failed, 77 assumption not met, others: crash
#include "ls_api.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <exception>
#include <typeinfo>
#include <dlfcn.h>
#include <unistd.h>
#include <sys/wait.h>
#include <mutex>
struct In { std::string name, kind, val; };
static std::vector<In> ins; static size_t nin = 0, nreal = 0; static std::recursive_mutex mu;
// derivative evaluation by finite differences: the entry is run in forked children with one input perturbed
static bool collecting = false; static int pertId = -1; static double pert = 0; static FILE* collect = nullptr;
struct Dcall { double y; int id; }; static std::vector<double> dvals; static size_t nd = 0; static void (*entry)();
static double scale = 0;
static double toReal(const std::string& v) { if (v == "inf") return INFINITY; if (v == "-inf") return -INFINITY; if (v == "nan") return NAN; size_t p = v.find('/'); auto big = [](const std::string& s) { return strtod(s.c_str(), nullptr); };
  if (p == std::string::npos) return big(v); std::string n = v.substr(0, p), d = v.substr(p + 1);
  // scale long numerators and denominators alike to stay in range
  while (n.size() > 200 && d.size() > 200) { n.resize(n.size() - 100); d.resize(d.size() - 100); }
  return (double)((long double)big(n) / (long double)big(d)); }
static const In* next(const char* name) { if (nin >= ins.size()) return nullptr; return &ins[nin++]; }
extern "C" {
uint64_t ls_sym(const char* name, unsigned bits) { std::lock_guard<std::recursive_mutex> g(mu); const In* i = next(name); if (!i) return 0; uint64_t v = strtoull(i->val.c_str(), nullptr, 10); if (bits < 64) v &= ((1ull << bits) - 1); return v; }
double ls_real(const char* name) { std::lock_guard<std::recursive_mutex> g(mu); const In* i = next(name); double v = i ? toReal(i->val) : 0; int id = (int)nreal++; if (id == pertId) v += pert; return v; }
int ls_real_id(void) { return (int)nreal - 1; }
uint64_t ls_concretize(uint64_t v) { return v; }
void ls_assume(bool c) { if (!c) { if (!collecting) { printf("LS_ASSUME\n"); fflush(stdout); } _exit(77); } }
void ls_check(bool c, const char* msg) { if (collecting || c) return; printf("LS_FAIL %s\n", msg); fflush(stdout); _exit(101); }
static double tol(double a, double b) { return 1e-6 * (1 + fabs(a) + fabs(b)) * (nd ? 100 : 1); }
void ls_check_eq(double a, double b, const char* msg) { if (collecting) return; if (a == b || (std::isnan(a) && std::isnan(b))) return; if (std::isfinite(a) && std::isfinite(b) && fabs(a - b) <= tol(a, b)) return; if (!std::isfinite(a) && !std::isfinite(b)) { printf("LS_NONFINITE\n"); } else if (scale > 1e100 || fabs(a) > 1e150 || fabs(b) > 1e150) { printf("LS_OVERFLOW\n"); fflush(stdout); _exit(77); } printf("LS_FAIL %s: %.17g vs %.17g\n", msg, a, b); fflush(stdout); _exit(101); }
void ls_check_le(double a, double b, const char* msg) { if (collecting) return; if (a <= b + tol(a, b)) return; printf("LS_FAIL %s: %.17g <= %.17g\n", msg, a, b); fflush(stdout); _exit(101); }
void ls_check_lt(double a, double b, const char* msg) { if (collecting) return; if (a < b + tol(a, b)) return; printf("LS_FAIL %s: %.17g < %.17g\n", msg, a, b); fflush(stdout); _exit(101); }
int ls_symbolic(void) { return 0; } void ls_kill(void) { _exit(77); } void ls_unsupported(const char*) { _exit(77); }
void ls_reach(const char*) {} void ls_fpcast_check(int) {} void ls_exp_guard(int) {} void ls_fork_fp(int) {}
void ls_obs(const char* n, uint64_t v) { if (!collecting) printf("OBS %s %llu\n", n, (unsigned long long)v); }
void ls_obsr(const char* n, double v) { if (!collecting) printf("OBS %s %.17g\n", n, v); }
int ls_is_symbolic_d(double) { return 0; } int ls_is_symbolic_u(unsigned char) { return 0; }
int ls_task_begin() { return 0; } void ls_task_end(int) {} void ls_join(int) {}
static std::vector<Dcall> runCollect(int id, double h) {
  char fn[64]; snprintf(fn, 64, "/proc/self/fd/x"); FILE* tmp = tmpfile(); std::vector<Dcall> out; if (!tmp) return out; fflush(stdout);
  pid_t p = fork(); if (p == 0) { collecting = true; collect = tmp; pertId = id; pert = h; nin = 0; nreal = 0; nd = 0; freopen("/dev/null", "w", stdout); try { entry(); } catch (...) {} fflush(tmp); _exit(0); }
  int st; waitpid(p, &st, 0); rewind(tmp); Dcall d; while (fread(&d, sizeof d, 1, tmp) == 1) out.push_back(d); fclose(tmp); return out; }
static bool prepared = false;
double ls_deriv_id(double y, double x, int id) {
  if (collecting) { Dcall d{y, id}; fwrite(&d, sizeof d, 1, collect); fflush(collect); return 0; }
  size_t k = nd++; return k < dvals.size() ? dvals[k] : 0; }
double ls_deriv(double, double) { _exit(77); }
double ls_dec_real(double m, int64_t e) { return m * pow(10, (double)e); }
uint64_t ls_real_token(double v, char* b, uint64_t c) { return (uint64_t)snprintf(b, c, "%f", v); } uint64_t ls_real_fmt(double v, char* b, uint64_t c, int m, uint64_t p) { return (uint64_t)snprintf(b, c, m == 0 ? "%.*f" : m == 1 ? "%.*g" : "%.*e", (int)p, v); } double ls_token_real(uint64_t) { return 0; }
}
static void onterm() { printf("LS_UNCAUGHT\n"); if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (const std::exception& x) { printf("exception: %s\n", x.what()); } catch (...) {} } fflush(stdout); _exit(102); }
int main(int argc, char** argv) {
  if (argc < 3) return 2; FILE* f = fopen(argv[2], "r"); if (!f) return 2; char a[256], b[64]; static char c[1 << 20];
  while (fscanf(f, "%255s %63s %1048575s", a, b, c) == 3) { ins.push_back({a, b, c}); if (std::string(b) == "r") { double v = fabs(toReal(c)); if (v > scale) scale = v; } } fclose(f);
  entry = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!entry) { fprintf(stderr, "no entry\n"); return 2; }
  if (argc > 3 && !strcmp(argv[3], "deriv")) {
    auto base = runCollect(-1, 0); dvals.assign(base.size(), 0); std::map<int, std::pair<std::vector<Dcall>, std::vector<Dcall>>> m; const double h = 1e-5;
    for (size_t k = 0; k < base.size(); k++) { int id = base[k].id; if (!m.count(id)) m[id] = {runCollect(id, h), runCollect(id, -h)}; auto& q = m[id]; if (k < q.first.size() && k < q.second.size()) dvals[k] = (q.first[k].y - q.second[k].y) / (2 * h); } }
  std::set_terminate(onterm); nin = nreal = nd = 0; entry(); printf("LS_END\n"); fflush(stdout); _exit(0);
}
