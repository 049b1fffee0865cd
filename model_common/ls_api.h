// Interface between harness/model code and the symbolic engine (or the native replay runtime).
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t ls_sym(const char* name, unsigned bits);
double ls_real(const char* name);
uint64_t ls_concretize(uint64_t v);
void ls_assume(bool c);
void ls_check(bool c, const char* msg);
void ls_check_eq(double a, double b, const char* msg);
void ls_check_le(double a, double b, const char* msg);
void ls_check_lt(double a, double b, const char* msg);
int ls_symbolic(void);
void ls_kill(void);
void ls_unsupported(const char* msg);
void ls_reach(const char* label);
void ls_obs(const char* name, uint64_t v);
void ls_obsr(const char* name, double v);
void ls_fpcast_check(int on);
void ls_exp_guard(int on);             // from now on an exponential that overflows a double is a violation
void ls_fork_fp(int on);
void ls_task(int id);               // subsequent memory accesses belong to this concurrent task (0: main thread)
uint64_t ls_real_token(double v, char* buf, uint64_t cap); uint64_t ls_real_fmt(double v, char* buf, uint64_t cap, int mode, uint64_t prec);
double ls_token_real(uint64_t id);
double ls_dec_real(double mantissa, int64_t exp10);
double ls_deriv(double y, double x);
int ls_is_symbolic_d(double v);
}
extern "C" { int ls_is_symbolic_u(unsigned char v); }
