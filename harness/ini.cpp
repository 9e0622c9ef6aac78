// The parameter file parser (vendor/inih/src/ini.c) against a reading of its documentation
#include <hx.h>
#include <cstdio>
#include <cstring>
#include <string>
#include <inih/ini.h>
#include "vfs.hpp"

// -------- reference: what the documentation says about one physical line --------
struct Span { int a, b; }; // [a, b)
static bool blank(char c) { return (c == ' ') | (static_cast<unsigned>(static_cast<unsigned char>(c)) - 9U < 5U); }
static Span trimmed(char const* s, Span x)
{
    while (x.b > x.a && blank(s[x.b - 1])) --x.b;
    while (x.a < x.b && blank(s[x.a])) ++x.a;
    return x;
}
// position of the first delimiter, or of an inline comment (";" after a blank), or the end
static int upto(char const* s, Span x, char d1, char d2)
{
    for (int i = x.a; i < x.b; ++i) {
        if (d1 && ((s[i] == d1) | (s[i] == d2))) return i;
        if (INI_ALLOW_INLINE_COMMENTS && i > x.a && s[i] == ';' && blank(s[i - 1])) return i;
    }
    return x.b;
}
static int const NMAX = 50;
static Span cut(Span x) { if (x.b - x.a > NMAX - 1) x.b = x.a + NMAX - 1; return x; }

struct Event
{
    int off[3];     // section, name, value: offsets in the text
    int len[3];
    int line;
};
static int const EMAX = 24;
struct Doc
{
    char const* text;
    int n;
    Event ev[EMAX];
    int nev = 0;
    int error = 0;
};
static int handler_returns[EMAX];

static void reference(Doc& d)
{
    Span section{0, 0}, name{0, 0};
    bool has_name = false;
    int pos = 0, line = 0;
    auto emit = [&](Span s, Span n, Span v) {
        Event& e = d.ev[d.nev];
        e.off[0] = s.a; e.len[0] = s.b - s.a;
        e.off[1] = n.a; e.len[1] = n.b - n.a;
        e.off[2] = v.a; e.len[2] = v.b - v.a;
        e.line = line;
        if (!handler_returns[d.nev] && !d.error) d.error = line;
        ++d.nev;
    };
    while (pos < d.n) {
        // a physical line: to the newline, or as much as the buffer holds
        int e = pos;
        while (e < d.n && e - pos < INI_MAX_LINE - 1) {
            ++e;
            if (d.text[e - 1] == '\n') break;
        }
        ++line;
        int z = pos;
        while (z < e && d.text[z] != 0) ++z; // a C string ends at a NUL
        int const first = pos;
        Span x{pos, z};
        pos = e;
        if (INI_ALLOW_BOM && line == 1 && x.b - x.a >= 3 && d.text[x.a] == '\xEF' && d.text[x.a + 1] == '\xBB' && d.text[x.a + 2] == '\xBF') x.a += 3;
        x = trimmed(d.text, x);
        if (x.a == x.b) continue;
        char const c = d.text[x.a];
        if ((c == ';') | (c == '#')) continue;
        if (INI_ALLOW_MULTILINE && has_name && x.a > first) { emit(section, name, x); }
        else if (c == '[') {
            Span y{x.a + 1, x.b};
            int const p = upto(d.text, y, ']', ']');
            if (p < x.b && d.text[p] == ']') { section = cut({x.a + 1, p}); has_name = false; }
            else if (!d.error) d.error = line;
        } else {
            int const p = upto(d.text, x, '=', ':');
            if (p < x.b && ((d.text[p] == '=') | (d.text[p] == ':'))) {
                Span nm{x.a, p};
                while (nm.b > nm.a && blank(d.text[nm.b - 1])) --nm.b;
                Span v{p + 1, x.b};
                v.b = upto(d.text, v, 0, 0);
                v = trimmed(d.text, v);
                name = cut(nm);
                has_name = name.b > name.a;
                emit(section, nm, v);
            } else if (!d.error) d.error = line;
        }
        if (INI_STOP_ON_FIRST_ERROR && d.error) break;
    }
}

// -------- the code --------
static Doc* want;
static int got;
static int same(char const* got_s, int off, int len)
{ // no short cut: one query for the whole text
    int d = 0;
    for (int i = 0; i < len; ++i) d |= got_s[i] ^ want->text[off + i];
    return d | got_s[len];
}
static char cookie;
#if INI_HANDLER_LINENO
static int on_value(void* user, char const* s, char const* n, char const* v, int lineno)
#else
static int on_value(void* user, char const* s, char const* n, char const* v)
#endif
{
    hx_assert(user == &cookie, "the user pointer reaches the handler");
    hx_assert(got < want->nev, "no more values than the text has");
    if (got >= want->nev) hx_kill();
    Event const& e = want->ev[got];
    int const ls = static_cast<int>(strlen(s)), ln = static_cast<int>(strlen(n)), lv = static_cast<int>(strlen(v));
    hx_assert(ls == e.len[0] && same(s, e.off[0], e.len[0]) == 0, "section of a value");
    hx_assert(ln == e.len[1] && same(n, e.off[1], e.len[1]) == 0, "name of a value");
    hx_assert(lv == e.len[2] && same(v, e.off[2], e.len[2]) == 0, "text of a value");
#if INI_HANDLER_LINENO
    hx_assert(lineno == e.line, "line number of a value");
#endif
    return handler_returns[got++];
}

static char text[1024];
static int ntext;
static void lit(char const* s) { while (*s) text[ntext++] = *s++; }
static void hole(int n) { for (int i = 0; i < n; ++i) { text[ntext] = static_cast<char>(hx_byte(("byte[" + std::to_string(ntext) + "]").c_str())); ++ntext; } }
static void rep(char c, int n) { for (int i = 0; i < n; ++i) text[ntext++] = c; }

struct Src { char const* p; int n, pos; };
static char* my_reader(char* s, int m, void* st)
{
    Src& v = *static_cast<Src*>(st);
    if (m <= 0 || v.pos >= v.n) return nullptr;
    int k = 0;
    while (k + 1 < m && v.pos < v.n) {
        char const c = v.p[v.pos++];
        s[k++] = c;
        if (c == '\n') break;
    }
    s[k] = 0;
    return s;
}
static void judge(int way, bool fails = false)
{
    for (int i = 0; i < EMAX; ++i) handler_returns[i] = 1;
    if (fails) for (int i = 0; i < 3; ++i) handler_returns[i] = hx_choice("handler result", 0, 1);
    static Doc d;
    d = Doc{};
    d.text = text;
    d.n = ntext;
    if (way == 1) { int z = 0; while (z < ntext && text[z] != 0) ++z; d.n = z; } // a string ends at its NUL
    reference(d);
    want = &d;
    got = 0;
    int r = -7;
    if (way == 0) {
        hx_file("params.ini", text, static_cast<std::size_t>(ntext));
        r = ini_parse("params.ini", on_value, &cookie);
        hx_assert(hx_vfile.open == 0 && hx_vfile.opened == 1, "the file is opened once and closed");
    } else if (way == 1) {
        text[ntext] = 0;
        r = ini_parse_string(text, on_value, &cookie);
    } else {
        Src s{text, ntext, 0};
        r = ini_parse_stream(my_reader, &s, on_value, &cookie);
    }
    hx_assert(got == d.nev, "no value of the text is lost");
    hx_assert(r == d.error, "the result is the first line with an error, or 0");
    hx_reach("end");
}
#define E(NAME, ...) extern "C" void NAME() { ntext = 0; __VA_ARGS__; }
E(any3, hole(3); judge(hx_choice("way", 0, 2)))
E(any4, hole(4); judge(0))
E(any5, hole(5); judge(0))
E(bom2, lit("\xEF\xBB\xBF"); hole(3); judge(hx_choice("way", 0, 1)))
E(in_section, lit("["); hole(3); lit("\nk=v\n"); judge(0))
E(after_section, lit("[s]"); hole(2); lit("\n"); hole(2); lit("=v\n"); judge(0))
E(in_name, hole(2); lit("n"); hole(2); lit("=v"); judge(0))
E(in_value, lit("k="); hole(4); lit("v\n"); judge(0))
E(comment_in_value, lit("[s]\nk=v"); hole(3); lit("w\n"); judge(hx_choice("way", 0, 1)))
E(continued, lit("k=v\n"); hole(4); lit("\n"); judge(0))
E(continued_after_comment, lit("k=v\n;c\n"); hole(3); lit("w\n"); judge(0))
E(continued_after_section, lit("k=v\n[s]\n"); hole(3); lit("w\n"); judge(0))
E(continued_twice, lit("k=v\n w"); hole(2); lit("\n"); hole(2); lit("x\n"); judge(0))
E(two_lines, hole(2); lit("=a\n"); hole(2); lit("=b\n"); judge(0))
E(handler_fails, lit("a=1"); hole(1); lit("b=2"); hole(1); lit("c=3"); judge(hx_choice("way", 0, 2), true))
E(errors, hole(1); lit("\n"); hole(1); lit("\n"); hole(1); lit("\na=1\n"); judge(0))
E(any6, hole(6); judge(0))
E(any7, hole(7); judge(0))
E(any8, hole(8); judge(0))
E(continued6, lit("k=v\n"); hole(5); lit("\n"); judge(0))
E(in_value6, lit("[s]\nk="); hole(5); lit("v\nl=w"); judge(0))
// names and lines near the limits of the parser
E(long_section, lit("["); rep('a', hx_choice("length", 46, 50)); hole(2); lit("]\nk=v\n"); judge(0))
E(long_name, rep('a', hx_choice("length", 46, 50)); hole(2); lit("=v\n w\n"); judge(0))
E(long_line, lit("k="); rep('b', hx_choice("length", INI_MAX_LINE - 7, INI_MAX_LINE)); hole(2); lit("\nl=w\n"); judge(hx_choice("way", 0, 1)))
E(long_blank, lit("k="); rep(' ', hx_choice("length", INI_MAX_LINE - 5, INI_MAX_LINE)); hole(2); lit("\n"); judge(0))
// many lines and many values: the counters do not run over
static int many_got, many_bad;
#if INI_HANDLER_LINENO
static int on_many(void*, char const* s, char const* n, char const* v, int)
#else
static int on_many(void*, char const* s, char const* n, char const* v)
#endif
{
    many_bad |= strcmp(s, "s") | strcmp(n, "k") | (strcmp(v, "v") && strcmp(v, "w"));
    ++many_got;
    return 1;
}
extern "C" void many_lines()
{
    static char big[70000];
    int n = 0, lines = 0, values = 0;
    auto const add = [&](char const* t) { while (*t) { lines += *t == '\n'; big[n++] = *t++; } };
    add("[s]\n");
    for (int i = 0; i < 300; ++i) { add("k=v\n"); ++values; }
    int const blanks = hx_choice("blank lines", 0, 1) ? 66000 : 0;
    for (int i = 0; i < blanks; ++i) big[n++] = '\n';
    lines += blanks;
    add("k=w\n");
    ++values;
    int const bad = hx_choice("bad line", 0, 1);
    if (bad) add("x");
    big[n] = 0;
    many_got = many_bad = 0;
    int r = -7;
    switch (hx_choice("way", 0, 2)) {
    case 0: hx_file("params.ini", big, static_cast<std::size_t>(n)); r = ini_parse("params.ini", on_many, &cookie); break;
    case 1: r = ini_parse_string(big, on_many, &cookie); break;
    default: { Src s{big, n, 0}; r = ini_parse_stream(my_reader, &s, on_many, &cookie); }
    }
    hx_assert(many_got == values && many_bad == 0, "every value of a long file is passed on");
    hx_assert(r == (bad ? lines + 1 : 0), "the line of an error in a long file");
    hx_reach("end");
}
extern "C" void no_file()
{
    hx_file("other.ini", "", 0);
    static Doc d;
    want = &d;
    hx_assert(ini_parse("params.ini", on_value, &cookie) == -1, "a file that cannot be opened gives -1");
    hx_assert(hx_vfile.open == 0, "nothing stays open");
    hx_file("params.ini", "", 0);
    hx_assert(ini_parse("params.ini", on_value, &cookie) == 0, "an empty file is not an error");
    hx_reach("end");
}
