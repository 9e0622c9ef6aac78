// Interface between a harness and the symbolic executor (or the native replay runtime).
#pragma once
extern "C" {
int hx_symbolic();
int hx_ieee();
double hx_real(const char*);
double hx_pos(const char*);
double hx_nonneg(const char*);
double hx_real_in(const char*, double lo, double hi);
double hx_real_inx(const char*, double lo, double hi);
double hx_real_ge(const char*, double lo);
double hx_real_gt(const char*, double lo);
double hx_inf();
double hx_nan();
long long hx_int(const char*, long long lo, long long hi);
unsigned long long hx_uint(const char*, unsigned long long lo, unsigned long long hi);
int hx_byte(const char*);
int hx_bool(const char*);
int hx_choice(const char*, int lo, int hi); // one path per value
void hx_assume(bool);
void hx_assert(bool, const char*);
void hx_assert_eq(double, double, const char*);
void hx_assert_le(double, double, const char*);
void hx_assert_lt(double, double, const char*);
void hx_assert_finite(double, const char*);
void hx_reach(const char*);
void hx_fail(const char*);
void hx_divmode(int); // 0: divisors are proved non-zero, 1: assumed, 2: fork to inf/nan
double hx_uf(const char*, const double*, int);
double hx_uf_pos(const char*, const double*, int);
void hx_par_begin();
void hx_par_iter(int);
void hx_par_end();
long long hx_concretize(long long);
int hx_is_undef(const double*);
void hx_poison(double*);
void hx_forkreal(int);
int hx_fork(bool);
void hx_kill();
void hx_stop(const char*);
void hx_show(const char*, double);
void hx_print(const char*);
}
