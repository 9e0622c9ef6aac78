// Library functions that live in libc / libstdc++ shared objects, written out so
// that the symbolic executor can run them.  Compiled with -fno-builtin, linked
// into every module under analysis (never into native replays).
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <new>
#include <typeinfo>
#include <stdexcept>
#include <exception>
#include <string>
#include <functional>
#include <map>
#include <list>
#include <unordered_map>
#include <charconv>
#include <chrono>

extern "C" {
int* __errno_location() noexcept;
void* malloc(size_t);
void free(void*);

size_t strlen(const char* s) noexcept { size_t n = 0; while (s[n]) ++n; return n; }
size_t strnlen(const char* s, size_t m) noexcept { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int strcmp(const char* a, const char* b) noexcept
{
    size_t i = 0;
    for (;; ++i) {
        unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i];
        if (x != y) return x < y ? -1 : 1;
        if (!x) return 0;
    }
}
int strncmp(const char* a, const char* b, size_t n) noexcept
{
    for (size_t i = 0; i < n; ++i) {
        unsigned char x = (unsigned char)a[i], y = (unsigned char)b[i];
        if (x != y) return x < y ? -1 : 1;
        if (!x) return 0;
    }
    return 0;
}
int tolower(int c) noexcept { return c + ((int)((unsigned)c - 65u < 26u) << 5); }
int toupper(int c) noexcept { return c - ((int)((unsigned)c - 97u < 26u) << 5); }
int isspace(int c) noexcept { return (int)(c == ' ') | (int)((unsigned)c - 9u < 5u); } // one fork per call
int isdigit(int c) noexcept { return (int)((unsigned)c - 48u < 10u); }
int isalpha(int c) noexcept { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) noexcept { return isalpha(c) || isdigit(c); }
int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; }
int islower(int c) noexcept { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) noexcept { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) noexcept { return c >= 32 && c < 127; }
int ispunct(int c) noexcept { return isprint(c) && c != ' ' && !isalnum(c); }
int iscntrl(int c) noexcept { return (c >= 0 && c < 32) || c == 127; }
int isblank(int c) noexcept { return c == ' ' || c == '\t'; }
int strcasecmp(const char* a, const char* b) noexcept
{
    for (size_t i = 0;; ++i) {
        int x = tolower((unsigned char)a[i]), y = tolower((unsigned char)b[i]);
        if (x != y) return x - y;
        if (!x) return 0;
    }
}
int strncasecmp(const char* a, const char* b, size_t n) noexcept
{
    for (size_t i = 0; i < n; ++i) {
        int x = tolower((unsigned char)a[i]), y = tolower((unsigned char)b[i]);
        if (x != y) return x - y;
        if (!x) return 0;
    }
    return 0;
}
char* strchr(const char* s, int c)
{
    for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; }
}
char* strrchr(const char* s, int c)
{
    const char* r = nullptr;
    for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; }
}
char* strpbrk(const char* s, const char* a)
{
    for (; *s; ++s) for (const char* p = a; *p; ++p) if (*p == *s) return (char*)s;
    return nullptr;
}
size_t strspn(const char* s, const char* a) noexcept
{
    size_t n = 0;
    for (; s[n]; ++n) { bool f = false; for (const char* p = a; *p; ++p) if (*p == s[n]) f = true; if (!f) break; }
    return n;
}
size_t strcspn(const char* s, const char* a) noexcept
{
    size_t n = 0;
    for (; s[n]; ++n) for (const char* p = a; *p; ++p) if (*p == s[n]) return n;
    return n;
}
char* strstr(const char* h, const char* n)
{
    size_t l = strlen(n);
    for (;; ++h) { if (strncmp(h, n, l) == 0) return (char*)h; if (!*h) return nullptr; }
}
char* strcpy(char* d, const char* s) noexcept { size_t i = 0; do { d[i] = s[i]; } while (s[i++]); return d; }
char* strncpy(char* d, const char* s, size_t n) noexcept
{
    size_t i = 0;
    for (; i < n && s[i]; ++i) d[i] = s[i];
    for (; i < n; ++i) d[i] = 0;
    return d;
}
char* strcat(char* d, const char* s) noexcept { strcpy(d + strlen(d), s); return d; }
char* strdup(const char* s) noexcept { size_t n = strlen(s) + 1; char* d = (char*)malloc(n); for (size_t i = 0; i < n; ++i) d[i] = s[i]; return d; }
void* memchr(const void* p, int c, size_t n)
{
    const unsigned char* s = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) if (s[i] == (unsigned char)c) return (void*)(s + i);
    return nullptr;
}
int memcmp(const void* a, const void* b, size_t n) noexcept
{
    const unsigned char *x = (const unsigned char*)a, *y = (const unsigned char*)b;
    for (size_t i = 0; i < n; ++i) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
int bcmp(const void* a, const void* b, size_t n) noexcept { return memcmp(a, b, n); }
int abs(int x) noexcept { return x < 0 ? -x : x; }
long labs(long x) noexcept { return x < 0 ? -x : x; }

static int digv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
static unsigned long long rt_strtox(const char* s, char** end, int base, bool sgn)
{
    const char* p = s;
    while (isspace((unsigned char)*p)) ++p;
    bool neg = false;
    if (*p == '-' || *p == '+') { neg = *p == '-'; ++p; }
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digv(p[2]) < 16) { p += 2; base = 16; }
    else if (base == 0) base = p[0] == '0' ? 8 : 10;
    unsigned long long v = 0;
    bool any = false, ovf = false;
    unsigned long long const lim = sgn ? (neg ? 9223372036854775808ULL : 9223372036854775807ULL) : 18446744073709551615ULL;
    for (;; ++p) {
        int d = digv(*p);
        if (d >= base) break;
        any = true;
        if (!ovf) {
            if (v > lim / (unsigned long long)base || (v == lim / (unsigned long long)base && (unsigned long long)d > lim % (unsigned long long)base)) ovf = true;
            else v = v * (unsigned long long)base + (unsigned long long)d;
        }
    }
    if (end) *end = (char*)(any ? p : s);
    if (ovf) { *__errno_location() = 34; return sgn ? (neg ? 9223372036854775808ULL : 9223372036854775807ULL) : 18446744073709551615ULL; }
    return neg ? 0ULL - v : v;
}
long strtol(const char* s, char** e, int b) noexcept { return (long)rt_strtox(s, e, b, true); }
long long strtoll(const char* s, char** e, int b) noexcept { return (long long)rt_strtox(s, e, b, true); }
unsigned long strtoul(const char* s, char** e, int b) noexcept { return (unsigned long)rt_strtox(s, e, b, false); }
unsigned long long strtoull(const char* s, char** e, int b) noexcept { return rt_strtox(s, e, b, false); }
long rt_strtol(const char*, char**, int) noexcept __asm__("strtol");
long rt_strtol(const char* s, char** e, int b) noexcept { return (long)rt_strtox(s, e, b, true); }
long long rt_strtoll(const char*, char**, int) noexcept __asm__("strtoll");
long long rt_strtoll(const char* s, char** e, int b) noexcept { return (long long)rt_strtox(s, e, b, true); }
unsigned long rt_strtoul(const char*, char**, int) noexcept __asm__("strtoul");
unsigned long rt_strtoul(const char* s, char** e, int b) noexcept { return (unsigned long)rt_strtox(s, e, b, false); }
unsigned long long rt_strtoull(const char*, char**, int) noexcept __asm__("strtoull");
unsigned long long rt_strtoull(const char* s, char** e, int b) noexcept { return rt_strtox(s, e, b, false); }
int atoi(const char* s) noexcept { return (int)strtol(s, nullptr, 10); }
double strtod(const char* s, char** end) noexcept
{
    const char* p = s;
    while (isspace((unsigned char)*p)) ++p;
    bool neg = false;
    if (*p == '-' || *p == '+') { neg = *p == '-'; ++p; }
    if (strncasecmp(p, "infinity", 8) == 0) { if (end) *end = (char*)p + 8; return neg ? -__builtin_inf() : __builtin_inf(); }
    if (strncasecmp(p, "inf", 3) == 0) { if (end) *end = (char*)p + 3; return neg ? -__builtin_inf() : __builtin_inf(); }
    if (strncasecmp(p, "nan", 3) == 0) { if (end) *end = (char*)p + 3; return __builtin_nan(""); }
    double v = 0;
    bool any = false;
    if (p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && digv(p[2]) < 16) {
        p += 2;
        while (digv(*p) < 16) { v = v * 16 + (double)digv(*p); ++p; }
        if (end) *end = (char*)p;
        return neg ? -v : v;
    }
    while (*p >= '0' && *p <= '9') { v = v * 10 + (double)(*p - '0'); any = true; ++p; }
    if (*p == '.' && (any || (p[1] >= '0' && p[1] <= '9'))) {
        ++p;
        double sc = 1;
        while (*p >= '0' && *p <= '9') { sc = sc * 10; v = v + (double)(*p - '0') / sc; any = true; ++p; }
    }
    if (!any) { if (end) *end = (char*)s; return 0; }
    if (*p == 'e' || *p == 'E') {
        const char* q = p + 1;
        bool en = false;
        if (*q == '-' || *q == '+') { en = *q == '-'; ++q; }
        if (*q >= '0' && *q <= '9') {
            int x = 0;
            while (*q >= '0' && *q <= '9') { if (x < 5000) x = x * 10 + (*q - '0'); ++q; }
            if (!en && x > 308) { if (v > 0) { *__errno_location() = 34; v = __builtin_inf(); } }
            else if (en && x > 340) { if (v > 0) *__errno_location() = 34; v = 0; }
            else for (int i = 0; i < x; ++i) v = en ? v / 10 : v * 10;
            p = q;
        }
    }
    if (end) *end = (char*)p;
    return neg ? -v : v;
}
float strtof(const char* s, char** e) noexcept { return (float)strtod(s, e); }
double atof(const char* s) noexcept { return strtod(s, nullptr); }
double floor(double) noexcept;
double ceil(double) noexcept;
double exp(double) noexcept;
double log(double) noexcept;
double pow(double, double) noexcept;
long long llabs(long long x) noexcept { return x < 0 ? -x : x; }
struct rt_div_t { int quot, rem; };
struct rt_ldiv_t { long quot, rem; };
rt_div_t rt_div(int a, int b) noexcept asm("div");
rt_div_t rt_div(int a, int b) noexcept { return {a / b, a % b}; }
rt_ldiv_t rt_ldiv(long a, long b) noexcept asm("ldiv");
rt_ldiv_t rt_ldiv(long a, long b) noexcept { return {a / b, a % b}; }
rt_ldiv_t rt_lldiv(long a, long b) noexcept asm("lldiv");
rt_ldiv_t rt_lldiv(long a, long b) noexcept { return {a / b, a % b}; }
long atol(const char* s) noexcept { return strtol(s, nullptr, 10); }
long long atoll(const char* s) noexcept { return strtol(s, nullptr, 10); }
void qsort(void* base, size_t n, size_t w, int (*cmp)(const void*, const void*))
{
    char* b = (char*)base;
    for (size_t i = 1; i < n; ++i)
        for (size_t j = i; j > 0 && cmp(b + (j - 1) * w, b + j * w) > 0; --j)
            for (size_t k = 0; k < w; ++k) { char c = b[(j - 1) * w + k]; b[(j - 1) * w + k] = b[j * w + k]; b[j * w + k] = c; }
}
void* bsearch(const void* key, const void* base, size_t n, size_t w, int (*cmp)(const void*, const void*))
{
    for (size_t i = 0; i < n; ++i) if (cmp(key, (const char*)base + i * w) == 0) return (void*)((const char*)base + i * w);
    return nullptr;
}
static bool rt_in(char c, const char* set) { for (; *set; ++set) if (*set == c) return true; return false; }
char* strtok_r(char* s, const char* d, char** save) noexcept
{
    if (!s) s = *save;
    s += strspn(s, d);
    if (!*s) { *save = s; return nullptr; }
    char* e = s + strcspn(s, d);
    if (*e) { *e = 0; ++e; }
    *save = e;
    return s;
}
static char* rt_tok;
char* strtok(char* s, const char* d) noexcept { return strtok_r(s, d, &rt_tok); }
int strcoll(const char* a, const char* b) noexcept { return strcmp(a, b); }
char* strndup(const char* s, size_t m) noexcept { size_t n = strnlen(s, m); char* d = (char*)malloc(n + 1); for (size_t i = 0; i < n; ++i) d[i] = s[i]; d[n] = 0; return d; }
char* strncat(char* d, const char* s, size_t n) noexcept { size_t l = strlen(d), i = 0; for (; i < n && s[i]; ++i) d[l + i] = s[i]; d[l + i] = 0; return d; }
int isgraph(int c) noexcept { return c > 32 && c < 127; }
double modf(double x, double* ip) noexcept { *ip = x < 0 ? ceil(x) : floor(x); return x - *ip; }
double rint(double x) noexcept
{
    double f = floor(x), d = x - f;
    if (d < 0.5) return f;
    if (d > 0.5) return f + 1;
    double h = f / 2;
    return floor(h) == h ? f : f + 1;
}
double nearbyint(double x) noexcept { return rint(x); }
long lround(double x) noexcept { return (long)(x < 0 ? ceil(x - 0.5) : floor(x + 0.5)); }
long long llround(double x) noexcept { return lround(x); }
long lrint(double x) noexcept { return (long)rint(x); }
long long llrint(double x) noexcept { return (long long)rint(x); }
double fdim(double x, double y) noexcept { return x > y ? x - y : 0; }
double expm1(double x) noexcept { return exp(x) - 1; }
double log1p(double x) noexcept { return log(1 + x); }
double ldexp(double x, int e) noexcept { for (; e > 0; --e) x *= 2; for (; e < 0; ++e) x /= 2; return x; }
double scalbn(double x, int e) noexcept { return ldexp(x, e); }
double frexp(double x, int* e) noexcept
{
    *e = 0;
    if (x == 0) return x;
    double a = x < 0 ? -x : x;
    while (a >= 1) { a /= 2; ++*e; }
    while (a < 0.5) { a *= 2; --*e; }
    return x < 0 ? -a : a;
}
}

namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "std::bad_function_call"; }

static const char* rt_dup(const char* s, size_t n)
{
    char* d = (char*)malloc(n + 1);
    for (size_t i = 0; i < n; ++i) d[i] = s[i];
    d[n] = 0;
    return d;
}
__cow_string::__cow_string() : _M_p(rt_dup("", 0)) {}
__cow_string::__cow_string(const std::string& s) : _M_p(rt_dup(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(rt_dup(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }

#define EXC(NAME, BASE)                                     \
    NAME::NAME(const string& s) : BASE(s) {}                \
    NAME::NAME(const char* s) : BASE(s) {}                  \
    NAME::~NAME() noexcept {}
logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(logic_error&&) noexcept = default;
logic_error& logic_error::operator=(logic_error&&) noexcept = default;
logic_error::logic_error(const logic_error&) noexcept = default;
logic_error& logic_error::operator=(const logic_error&) noexcept = default;
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(runtime_error&&) noexcept = default;
runtime_error& runtime_error::operator=(runtime_error&&) noexcept = default;
runtime_error::runtime_error(const runtime_error&) noexcept = default;
runtime_error& runtime_error::operator=(const runtime_error&) noexcept = default;
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
EXC(domain_error, logic_error)
EXC(invalid_argument, logic_error)
EXC(length_error, logic_error)
EXC(out_of_range, logic_error)
EXC(range_error, runtime_error)
EXC(overflow_error, runtime_error)
EXC(underflow_error, runtime_error)

void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }

size_t _Hash_bytes(const void* p, size_t n, size_t seed)
{
    const unsigned char* s = (const unsigned char*)p;
    size_t h = seed;
    for (size_t i = 0; i < n; ++i) h = h * 31 + s[i];
    return h;
}

namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
{
    if (this == last) return;
    last->_M_prev->_M_next = this;
    first->_M_prev->_M_next = last;
    this->_M_prev->_M_next = first;
    _List_node_base* const tmp = this->_M_prev;
    this->_M_prev = last->_M_prev;
    last->_M_prev = first->_M_prev;
    first->_M_prev = tmp;
}
void _List_node_base::_M_reverse() noexcept
{
    _List_node_base* t = this;
    do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
    bool ex = x._M_next == &x, ey = y._M_next == &y;
    if (ex && ey) return;
    _List_node_base *xn = x._M_next, *xp = x._M_prev, *yn = y._M_next, *yp = y._M_prev;
    if (ey) { y._M_next = y._M_prev = &y; y._M_next = xn; y._M_prev = xp; xn->_M_prev = xp->_M_next = &y; x._M_next = x._M_prev = &x; return; }
    if (ex) { x._M_next = yn; x._M_prev = yp; yn->_M_prev = yp->_M_next = &x; y._M_next = y._M_prev = &y; return; }
    x._M_next = yn; x._M_prev = yp; yn->_M_prev = yp->_M_next = &x;
    y._M_next = xn; y._M_prev = xp; xn->_M_prev = xp->_M_next = &y;
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    size_t b = 13;
    while (b < n) b = b * 2 + 1;
    _M_next_resize = b;
    return b;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const
{
    if (elt + ins > _M_next_resize) {
        size_t b = _M_next_bkt(elt + ins > bkt * 2 ? elt + ins : bkt * 2);
        return {b > bkt, b};
    }
    return {false, 0};
}
}
from_chars_result from_chars(const char* f, const char* l, double& v, chars_format) noexcept
{
    char b[64];
    size_t n = 0;
    if (f == l || *f == '+' || *f == ' ') return {f, errc::invalid_argument};
    while (f + n < l && n < 63) { b[n] = f[n]; ++n; }
    b[n] = 0;
    char* e;
    double x = strtod(b, &e);
    if (e == b) return {f, errc::invalid_argument};
    v = x;
    return {f + (e - b), errc()};
}

_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept
{
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
// insertion without rebalancing: a plain binary search tree gives the same iteration order
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept
{
    x->_M_parent = p;
    x->_M_left = nullptr;
    x->_M_right = nullptr;
    x->_M_color = _S_black;
    h._M_color = _S_red;
    if (left) {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
} // namespace std

// Clocks: strictly increasing instants (nothing the program computes may depend
// on the time of day).
static long long hx_clock = 1700000000000000000LL;
namespace std::chrono { inline namespace _V2 {
__attribute__((weak)) steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(hx_clock += 1000003)); }
__attribute__((weak)) system_clock::time_point system_clock::now() noexcept { return time_point(duration(hx_clock += 1000003)); }
} }
extern "C" __attribute__((weak)) long time(long* t) { long const r = static_cast<long>((hx_clock += 1000003) / 1000000000); if (t) *t = r; return r; }
extern "C" __attribute__((weak)) long clock() { return static_cast<long>((hx_clock += 1000003) / 1000); }
