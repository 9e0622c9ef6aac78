// Native replay runtime: runs one harness entry on the input values of a solver
// model.  Exit codes: 0 nothing wrong, 42 an assertion failed, 43 uncaught
// exception / terminate, 77 the model does not satisfy an assumption natively,
// 78 the harness asked for an input the model does not have; anything else:
// crash (sanitizer, signal).
#include <cfenv>
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <deque>
#include <string>
#include <vector>
#include <unistd.h>

#define HX_E(x) extern "C" void x();
#include "entries.inc"
#undef HX_E

static std::map<std::string, std::deque<std::string>> vals;
static std::map<std::string, int> names;
static bool fakelibm = false;
static void die(int c) { fflush(stdout); fflush(stderr); _exit(c); }
static std::string uniq(const char* n) { int k = names[n]++; return k ? std::string(n) + "#" + std::to_string(k) : std::string(n); }
static bool take(const std::string& n, std::string& v)
{
    auto it = vals.find(n);
    if (it == vals.end() || it->second.empty()) return false;
    v = it->second.front();
    it->second.pop_front();
    return true;
}
static std::string need(const std::string& n)
{
    std::string v;
    if (!take(n, v)) { fprintf(stderr, "[replay] no value for input %s\n", n.c_str()); die(78); }
    return v;
}
static double num(const std::string& s)
{
    size_t k = s.find('/');
    if (k == std::string::npos) return strtod(s.c_str(), nullptr);
    return (double)(strtold(s.substr(0, k).c_str(), nullptr) / strtold(s.substr(k + 1).c_str(), nullptr));
}
static long long inum(const std::string& s) { return s[0] == '-' ? strtoll(s.c_str(), nullptr, 10) : (long long)strtoull(s.c_str(), nullptr, 10); }
static double real(const char* n) { std::string u = uniq(n); double v = num(need(u)); fprintf(stderr, "[replay] %s = %.17g\n", u.c_str(), v); return v; }
static double tol(double a, double b) { return 1e-7 * std::fmax(1., std::fmax(std::fabs(a), std::fabs(b))); }
static bool same(double a, double b)
{
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (std::isinf(a) || std::isinf(b)) return a == b;
    return std::fabs(a - b) <= tol(a, b);
}
static void bad(const char* l, const std::string& m)
{
    fprintf(stderr, "[replay] ASSERTION VIOLATED: %s %s\n", l, m.c_str());
    die(42);
}
static std::string two(const char* op, double a, double b) { char t[128]; snprintf(t, sizeof t, "(%.17g %s %.17g)", a, op, b); return t; }

extern "C" {
int hx_symbolic() { return 0; }
int hx_ieee() { return 1; }
double hx_real(const char* n) { return real(n); }
double hx_pos(const char* n) { return real(n); }
double hx_nonneg(const char* n) { return real(n); }
double hx_real_in(const char* n, double, double) { return real(n); }
double hx_real_inx(const char* n, double, double) { return real(n); }
double hx_real_ge(const char* n, double) { return real(n); }
double hx_real_gt(const char* n, double) { return real(n); }
double hx_inf() { return INFINITY; }
double hx_nan() { return NAN; }
long long hx_int(const char* n, long long, long long) { std::string u = uniq(n); long long v = inum(need(u)); fprintf(stderr, "[replay] %s = %lld\n", u.c_str(), v); return v; }
unsigned long long hx_uint(const char* n, unsigned long long, unsigned long long) { return (unsigned long long)hx_int(n, 0, 0); }
int hx_byte(const char* n) { return (int)(unsigned char)inum(need(uniq(n))); }
int hx_bool(const char* n) { std::string v = need(uniq(n)); return v == "true" || v == "1"; }
int hx_choice(const char* n, int, int) { std::string u = uniq(n); int v = (int)inum(need(u)); fprintf(stderr, "[replay] %s = %d\n", u.c_str(), v); return v; }
void hx_assume(bool c) { if (!c) { fprintf(stderr, "[replay] assumption not satisfied\n"); die(77); } }
void hx_assert(bool c, const char* l) { if (!c) bad(l, ""); }
void hx_assert_eq(double a, double b, const char* l) { if (!same(a, b)) bad(l, two("!=", a, b)); }
void hx_assert_le(double a, double b, const char* l) { if (!(a <= b + tol(a, b))) bad(l, two(">", a, b)); }
void hx_assert_lt(double a, double b, const char* l) { if (!(a < b)) bad(l, two(">=", a, b)); }
void hx_assert_finite(double a, const char* l) { if (!std::isfinite(a)) bad(l, "not finite"); }
void hx_reach(const char*) {}
void hx_fail(const char* l) { bad(l, ""); }
void hx_divmode(int m) { if (m == 2) fedisableexcept(FE_DIVBYZERO | FE_INVALID); }
double hx_uf(const char* n, const double*, int) { return num(need(std::string("uf:") + n)); }
double hx_uf_pos(const char* n, const double* a, int k) { return hx_uf(n, a, k); }
void hx_par_begin() {}
void hx_par_iter(int) {}
void hx_par_end() {}
long long hx_concretize(long long x) { return x; }
int hx_is_undef(const double* p) { unsigned long long u; memcpy(&u, p, 8); return u == 0x7ff4dead00000000ull || u == 0x7ffcdead00000000ull; }
void hx_poison(double* p) { unsigned long long u = 0x7ffcdead00000000ull; memcpy(p, &u, 8); }
void hx_forkreal(int) {}
int hx_fork(bool c) { return c; }
void hx_kill() { die(0); }
void hx_stop(const char*) { die(0); }
void hx_show(const char* l, double x) { fprintf(stderr, "[replay] %s = %.17g\n", l, x); }
void hx_print(const char* l) { fprintf(stderr, "[replay] %s\n", l); }

#define W1(f) double __real_##f(double); double __wrap_##f(double x) { std::string v; if (fakelibm && take("libm:" #f, v)) return num(v); return __real_##f(x); }
W1(sin) W1(cos) W1(tan) W1(exp) W1(log) W1(log10) W1(tanh) W1(sinh) W1(cosh) W1(atan)
double __real_atan2(double, double);
double __wrap_atan2(double a, double b) { std::string v; if (fakelibm && take("libm:atan2", v)) return num(v); return __real_atan2(a, b); }
double __real_pow(double, double);
double __wrap_pow(double a, double b) { std::string v; if (fakelibm && take("libm:pow", v)) return num(v); return __real_pow(a, b); }
}
static void onterm()
{
    if (auto e = std::current_exception()) {
        try { std::rethrow_exception(e); } catch (std::exception const& x) { fprintf(stderr, "[replay] uncaught exception: %s\n", x.what()); } catch (...) { fprintf(stderr, "[replay] uncaught exception\n"); }
    } else fprintf(stderr, "[replay] terminate called\n");
    die(43);
}
static void onfpe(int) { const char m[] = "[replay] floating point division by zero or invalid operation\n"; if (write(2, m, sizeof m - 1)) {} _exit(44); }
int main(int argc, char** argv)
{
    if (argc > 2) fakelibm = strchr(argv[2], 'm') != nullptr;
    bool fpe = argc > 2 && strchr(argv[2], 'z') != nullptr;
    std::ifstream f(argv[1]);
    std::string line;
    while (std::getline(f, line)) {
        size_t k = line.find('\t');
        if (k == std::string::npos) continue;
        vals[line.substr(0, k)].push_back(line.substr(k + 1));
    }
    std::set_terminate(onterm);
    if (fpe) { signal(SIGFPE, onfpe); feenableexcept(FE_DIVBYZERO | FE_INVALID); }
#define HX_E(x) if (!strcmp(argv[3], #x)) { x(); fprintf(stderr, "[replay] finished without a violation\n"); return 0; }
#include "entries.inc"
    return 77;
}
