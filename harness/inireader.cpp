// INIReader on top of the parser: lookups and typed values
#include <hx.h>
#include <cstdio>
#include <cstring>
#include <limits>
#include <stdexcept>
#include <string>
#include <inih/INIReader.hpp>
#include "vfs.hpp"
#include <INIReader.cpp>

static std::string text;
static INIReader parse()
{
    hx_file("params.ini", text.data(), text.size());
    return INIReader("params.ini");
}
static char letter(char const* n)
{ // any letter, digit or '_' (the characters of a key); one path per kind
    int const c = hx_byte(n);
    hx_assume(((c >= 'a') & (c <= 'z')) | ((c >= 'A') & (c <= 'Z')) | ((c >= '0') & (c <= '9')) | (c == '_'));
    return static_cast<char>(c);
}
static char plain(char const* n)
{ // any printable character that has no meaning for the parser
    int const c = hx_byte(n);
    hx_assume((c > 32) & (c < 127) & (c != ';') & (c != '#') & (c != '[') & (c != ']') & (c != '=') & (c != ':'));
    return static_cast<char>(c);
}
static char low(char c) { return static_cast<char>(c + (static_cast<int>((c >= 'A') & (c <= 'Z')) << 5)); }
static bool same_key(std::string const& a, std::string const& b)
{
    if (a.size() != b.size()) return false;
    int d = 0;
    for (std::size_t i = 0; i < a.size(); ++i) d |= low(a[i]) ^ low(b[i]);
    return d == 0;
}
static bool same_text(std::string const& a, std::string const& b)
{
    if (a.size() != b.size()) return false;
    int d = 0;
    for (std::size_t i = 0; i < a.size(); ++i) d |= a[i] ^ b[i];
    return d == 0;
}
static std::string word(char const* n, int len, char (*mk)(char const*) = letter)
{
    std::string s;
    for (int i = 0; i < len; ++i) s += mk((std::string(n) + std::to_string(i)).c_str());
    return s;
}
// ------------------------------------------------------------------ lookups
// two pairs in two sections, any names: what Get returns for any query
extern "C" void lookup()
{
    int const l = hx_choice("length of names", 1, 2);
    std::string const s1 = word("section1_", l), s2 = word("section2_", l);
    std::string const n1 = word("name1_", 1), n2 = word("name2_", l);
    std::string const v1 = word("value1_", 1, plain), v2 = word("value2_", 2, plain);
    text = "[" + s1 + "]\n" + n1 + "=" + v1 + "\n[" + s2 + "]\n" + n2 + "=" + v2 + "\n";
    INIReader const r = parse();
    std::string const qs = word("query section ", l), qn = word("query name ", hx_choice("query length", 1, 2));
    std::string const d = "default";
    bool const m1 = same_key(qs, s1) && same_key(qn, n1), m2 = same_key(qs, s2) && same_key(qn, n2);
    std::string const got = r.Get(qs, qn, d);
    std::string const want = m1 && m2 ? v1 + "\n" + v2 : m1 ? v1 : m2 ? v2 : d;
    hx_assert(same_text(got, want), "value of a section and name, in any case; the default if there is none");
    hx_reach("end");
}
// the section of a pair is the last heading before it; none: ""
extern "C" void sections()
{
    bool const h1 = hx_fork(hx_bool("heading before the first pair")), h2 = hx_fork(hx_bool("heading between the pairs"));
    text = std::string(h1 ? "[A]\n" : "") + "x=1\n" + (h2 ? "[B]\n" : "") + "x=2\n";
    INIReader const r = parse();
    std::string const sa = h1 ? "A" : "", sb = h2 ? "B" : sa;
    if (sa == sb) hx_assert(same_text(r.Get(sa, "x", ""), "1\n2"), "a repeated name in a section adds a line");
    else {
        hx_assert(same_text(r.Get(sa, "x", ""), "1"), "pair of the first section");
        hx_assert(same_text(r.Get(sb, "x", ""), "2"), "pair of the second section");
    }
    hx_assert(same_text(r.Get("C", "x", "d"), "d") && same_text(r.Get(sa, "y", "d"), "d") && same_text(r.Get(h1 ? "" : "A", "x", "d"), "d"), "no other section or name");
    hx_reach("end");
}
// lines of a value: repeated names and continuation lines are joined by newlines
extern "C" void lines()
{
    int const n = hx_choice("lines", 1, 3);
    text = "[s]\n";
    std::string want;
    for (int i = 0; i < n; ++i) {
        std::string const v = word(("line" + std::to_string(i) + "_").c_str(), hx_choice("line length", i == 0 ? 0 : 1, 2), plain);
        text += i == 0 || hx_choice("continued", 0, 1) == 0 ? "k=" + v + "\n" : "  " + v + "\n";
        if (!want.empty()) want += "\n";
        want += v;
    }
    text += "l=z\n";
    INIReader const r = parse();
    hx_assert(same_text(r.Get("s", "k", "d"), want), "the lines of a value in order");
    hx_assert(same_text(r.Get("s", "l", "d"), "z"), "the next name is not affected");
    hx_reach("end");
}
extern "C" void refused()
{
    int const what = hx_choice("what is wrong", 0, 4);
    char const* t[5] = {"[s\nk=v\n", "k v\n", "[s]\nk=v\nnonsense\n", "", "[s]\nk=v\n"};
    text = t[what];
    bool thrown = false;
    hx_file(what == 3 ? "other.ini" : "params.ini", text.data(), text.size());
    try {
        INIReader const r("params.ini");
    } catch (std::runtime_error const&) {
        thrown = true;
    }
    hx_assert(thrown == (what != 4), "a missing file and a text with an error are refused");
    hx_assert(hx_vfile.open == 0, "the file is closed");
    hx_reach("end");
}
extern "C" void copies()
{ // a copy answers the same and is independent of the original's lifetime
    std::string const v = word("value", 2, plain);
    text = "[s]\nk=" + v + "\n";
    INIReader* a = new INIReader(parse());
    INIReader const b(*a);
    INIReader c;
    c = *a;
    delete a;
    hx_assert(same_text(b.Get("S", "K", ""), v) && same_text(c.Get("s", "k", ""), v), "copies keep the values");
    hx_assert(same_text(INIReader().Get("s", "k", "d"), "d"), "an empty reader has only defaults");
    hx_reach("end");
}
// ------------------------------------------------------------------ numbers
enum { OK, NOT_A_NUMBER, OUT_OF_RANGE };
template <class T>
static int integer(INIReader const& r, T def, T& out)
{
    try {
        out = r.GetInteger("s", "k", def);
        return OK;
    } catch (std::invalid_argument const&) {
        return NOT_A_NUMBER;
    } catch (std::out_of_range const&) {
        return OUT_OF_RANGE;
    }
}
// sign, digits: every value, at every type, exactly or refused
template <class T>
static void decimal(int nd, char const* prefix = "")
{
    text = "[s]\nk=";
    int const sign = hx_choice("sign", 0, 2);
    if (sign == 1) text += '-';
    if (sign == 2) text += '+';
    unsigned long long v = 0; // exact if the number fits
    int dg[24];
    int const np = static_cast<int>(strlen(prefix));
    for (int i = 0; i < np; ++i) {
        text += prefix[i];
        dg[i] = prefix[i] - '0';
        v = v * 10 + static_cast<unsigned long long>(dg[i]);
    }
    for (int i = np; i < nd; ++i) {
        char const c = static_cast<char>(hx_byte(("digit" + std::to_string(i)).c_str()));
        hx_assume((c >= '0') & (c <= '9'));
        text += c;
        int const d = dg[i] = c - '0';
        v = v * 10 + static_cast<unsigned long long>(d);
    }
    text += "\n";
    INIReader const r = parse();
    T got{};
    T const def = static_cast<T>(77);
    int const how = integer<T>(r, def, got);
    bool const neg = sign == 1;
    if (neg && !std::numeric_limits<T>::is_signed) hx_kill(); // negative numbers for unsigned types: not specified
    // largest magnitude of the type
    unsigned long long const lim = static_cast<unsigned long long>(std::numeric_limits<T>::max()) + (neg ? 1 : 0);
    bool fits = true;
    if (sizeof(T) == 8) { // up to 20 digits: digit by digit
        unsigned long long w = 0;
        for (int i = 0; i < nd && fits; ++i) {
            if (w > lim / 10 || (w == lim / 10 && static_cast<unsigned long long>(dg[i]) > lim % 10)) fits = false;
            w = w * 10 + static_cast<unsigned long long>(dg[i]);
        }
    } else fits = v <= lim;
    if (fits) {
        hx_assert(how == OK, "a value of the type is accepted");
        hx_assert(how != OK || static_cast<unsigned long long>(static_cast<long long>(got)) == (neg ? 0 - v : v), "the value is exact");
    } else hx_assert(how == OUT_OF_RANGE, "a value the type cannot hold is refused");
    hx_reach("end");
}
extern "C" void int_small() { decimal<int>(3); }
extern "C" void int_limit() { decimal<int>(10); }
extern "C" void int_long() { decimal<int>(11); }
extern "C" void unsigned_small() { decimal<unsigned>(3); }
extern "C" void unsigned_limit() { decimal<unsigned>(10); }
extern "C" void unsigned_long() { decimal<unsigned>(11); }
extern "C" void long_limit()
{ // the last digits around the limit, one digit more or less
    int const more = hx_choice("digits", 18, 20);
    decimal<long>(more, "9223372036854775");
}
extern "C" void longlong_limit()
{ // the last digits around the limit, one digit more or less
    int const more = hx_choice("digits", 18, 20);
    decimal<long long>(more, "9223372036854775");
}
extern "C" void ulong_limit()
{ // the last digits around the limit, one digit more or less
    int const more = hx_choice("digits", 19, 21);
    decimal<unsigned long>(more, "18446744073709551");
}
extern "C" void ulonglong_limit()
{ // the last digits around the limit, one digit more or less
    int const more = hx_choice("digits", 19, 21);
    decimal<unsigned long long>(more, "18446744073709551");
}
// any text of a few characters: a number is the value of its leading digits, anything else is never taken for a number
template <class T>
static void anything(int n)
{
    std::string const v = word("char", n, plain);
    text = "[s]\nk=" + v + "\n";
    INIReader const r = parse();
    T const def = static_cast<T>(hx_int("default", 0, 100));
    T got{};
    int const how = integer<T>(r, def, got);
    std::size_t i = 0;
    bool neg = false;
    if (v[0] == '-' || v[0] == '+') { neg = v[0] == '-'; ++i; }
    bool const num = i < v.size() && v[i] >= '0' && v[i] <= '9';
    if (!num) hx_assert(how == NOT_A_NUMBER || (how == OK && got == def), "text that is not a number: refused, or the default");
    else if (!(v[i] == '0' && i + 1 < v.size() && (v[i + 1] == 'x' || v[i + 1] == 'X'))) {
        long w = 0;
        for (; i < v.size() && v[i] >= '0' && v[i] <= '9'; ++i) w = w * 10 + (v[i] - '0');
        if (std::numeric_limits<T>::is_signed || !neg) hx_assert(how == OK && static_cast<long>(got) == (neg ? -w : w), "the value of the leading digits");
    }
    hx_reach("end");
}
extern "C" void int_anything() { anything<int>(3); }
extern "C" void unsigned_anything() { anything<unsigned>(3); }
extern "C" void long_anything() { anything<long>(3); }
extern "C" void longlong_anything() { anything<long long>(2); }
extern "C" void ulong_anything() { anything<unsigned long>(2); }
extern "C" void ulonglong_anything() { anything<unsigned long long>(2); }
// hexadecimal numbers, as the documentation of GetInteger says
template <class T>
static void hexadecimal(int nd)
{
    static char const dg[] = "0123456789abcdefABCDEF";
    text = "[s]\nk=";
    bool const neg = std::numeric_limits<T>::is_signed && hx_choice("negative", 0, 1);
    text += neg ? "-0" : "0";
    text += hx_choice("capital X", 0, 1) ? "X" : "x";
    long w = 0;
    for (int i = 0; i < nd; ++i) {
        char const c = dg[hx_choice("digit", 0, 21)];
        text += c;
        w = w * 16 + (c <= '9' ? c - '0' : low(c) - 'a' + 10);
    }
    text += "\n";
    INIReader const r = parse();
    T got{};
    int const how = integer<T>(r, static_cast<T>(77), got);
    hx_assert(how == OK && static_cast<long>(got) == (neg ? -w : w), "hexadecimal numbers are read");
    hx_reach("end");
}
extern "C" void int_hex() { hexadecimal<int>(2); }
extern "C" void unsigned_hex() { hexadecimal<unsigned>(2); }
extern "C" void long_hex() { hexadecimal<long>(1); hexadecimal<long long>(1); }
extern "C" void ulong_hex() { hexadecimal<unsigned long>(1); hexadecimal<unsigned long long>(1); }
// missing values
extern "C" void defaults()
{
    int const kind = hx_choice("missing how", 0, 2);
    text = kind == 0 ? "" : kind == 1 ? "[s]\nl=1\n[t]\nk=1\n" : "[s]\nk=\n";
    INIReader const r = parse();
    long const d = hx_int("default", std::numeric_limits<long>::min(), std::numeric_limits<long>::max());
    hx_assert(r.GetInteger("s", "k", static_cast<int>(d)) == static_cast<int>(d), "int default");
    hx_assert(r.GetInteger("s", "k", static_cast<unsigned>(d)) == static_cast<unsigned>(d), "unsigned default");
    hx_assert(r.GetInteger("s", "k", d) == d, "long default");
    hx_assert(r.GetInteger("s", "k", static_cast<long long>(d)) == d, "long long default");
    hx_assert(r.GetInteger("s", "k", static_cast<unsigned long>(d)) == static_cast<unsigned long>(d), "unsigned long default");
    hx_assert(r.GetInteger("s", "k", static_cast<unsigned long long>(d)) == static_cast<unsigned long long>(d), "unsigned long long default");
    double const x = hx_real("real default");
    hx_assert_eq(r.GetReal("s", "k", x), x, "double default");
    bool const b = hx_fork(hx_bool("boolean default"));
    hx_assert(r.GetBoolean("s", "k", b) == b, "boolean default");
    hx_assert(same_text(r.Get("s", "k", "d"), kind == 2 ? "" : "d"), "text default only if the name is missing");
    hx_reach("end");
}
// digits, point, digits, exponent
template <class T>
static void real(bool e)
{
    text = "[s]\nk=";
    bool const neg = hx_choice("negative", 0, 1) != 0;
    if (neg) text += '-';
    double v = 0;
    int const n = hx_choice("digits before the point", 0, 2), m = hx_choice("digits after the point", n == 0 ? 1 : 0, 2);
    for (int i = 0; i < n; ++i) {
        int const d = static_cast<int>(hx_int(("digit" + std::to_string(i)).c_str(), 0, 9));
        text += static_cast<char>('0' + d);
        v = v * 10 + d;
    }
    if (m || hx_choice("point", 0, 1)) text += '.';
    double sc = 1;
    for (int i = 0; i < m; ++i) {
        int const d = static_cast<int>(hx_int(("fraction" + std::to_string(i)).c_str(), 0, 9));
        text += static_cast<char>('0' + d);
        sc *= 10;
        v = v + d / sc;
    }
    if (e) {
        static char const* es[6] = {"e0", "E1", "e+2", "E-1", "e-02", "e3"};
        static double const ev[6] = {1, 10, 100, 1. / 10, 1. / 100, 1000};
        int const q = hx_choice("exponent", 0, 5);
        text += es[q];
        if (q == 3) v = v / 10;
        else if (q == 4) v = v / 10 / 10;
        else v = v * ev[q];
    }
    text += "\n";
    INIReader const r = parse();
    T const got = r.GetReal("s", "k", static_cast<T>(-3));
    hx_assert_eq(static_cast<double>(got), neg ? -v : v, "the value of a real number");
    hx_reach("end");
}
extern "C" void real_plain() { real<double>(false); }
extern "C" void real_exponent() { real<double>(true); }
extern "C" void real_anything()
{ // text that does not start with a number is never taken for one
    std::string const v = word("char", 2, plain);
    text = "[s]\nk=" + v + "\n";
    INIReader const r = parse();
    double const def = hx_real("default");
    double got = def;
    bool refused = false;
    try { got = r.GetReal("s", "k", def); } catch (std::invalid_argument const&) { refused = true; }
    bool const dig0 = v[0] >= '0' && v[0] <= '9', dig1 = v[1] >= '0' && v[1] <= '9', sg = v[0] == '-' || v[0] == '+';
    bool const num = dig0 || (dig1 && (sg || v[0] == '.'));
    if (!num) {
        if (!refused) hx_assert_eq(got, def, "text that is not a number: refused, or the default");
    } else {
        hx_assert(!refused, "a number is accepted");
        if (dig0 && dig1 && !refused) hx_assert_eq(got, 10. * (v[0] - '0') + (v[1] - '0'), "two digits");
    }
    hx_reach("end");
}
// ------------------------------------------------------------------ booleans
template <int N>
static void boolean()
{
    std::string const v = word("char", N, plain);
    text = "[s]\nk=" + v + "\n";
    INIReader const r = parse();
    bool const def = hx_choice("default", 0, 1) != 0;
    int got = -1;
    try { got = r.GetBoolean("s", "k", def) ? 1 : 0; } catch (std::exception const&) {}
    auto const is = [&](char const* w) {
        if (strlen(w) != v.size()) return false;
        int d = 0;
        for (std::size_t i = 0; i < v.size(); ++i) d |= low(v[i]) ^ w[i];
        return d == 0;
    };
    if (is("true") || is("yes") || is("on") || is("1")) hx_assert(got == 1, "true, yes, on and 1, in any case, are true");
    else if (is("false") || is("no") || is("off") || is("0")) hx_assert(got == 0, "false, no, off and 0, in any case, are false");
    else hx_assert(got == -1 || got == (def ? 1 : 0), "anything else is refused, or the default");
    hx_reach("end");
}
extern "C" void boolean_1() { boolean<1>(); }
extern "C" void boolean_2() { boolean<2>(); }
extern "C" void boolean_3() { boolean<3>(); }
extern "C" void boolean_4() { boolean<4>(); }
extern "C" void boolean_5() { boolean<5>(); }
extern "C" void boolean_6() { boolean<6>(); }
extern "C" void long_small() { decimal<long>(4); decimal<long long>(3); }
extern "C" void ulong_small() { decimal<unsigned long>(3); decimal<unsigned long long>(4); }
