// Small replacement for the libstdc++ stream classes (whose code lives in the
// shared library and so cannot be executed symbolically).  Text is kept in a
// std::string; a double is written as the token "\x01<n>\x02" and its value is
// appended to hx_fmt_values, so a harness can still check what was written.
#pragma once
#include <iosfwd>
#include <iterator>
#include <string>
#include <string_view>
#include <vector>
#include <cstring>
#include <cstdlib>
#include <type_traits>
#include <limits>
#include <stdexcept>

inline std::vector<double> hx_fmt_values;
inline std::vector<int> hx_fmt_digits; // significant digits kept for small and large values alike (0: fixed point)
struct HxFile { std::string name; std::string text; bool trunc = false; };
inline std::vector<HxFile*> hx_files; // files written through std::ofstream

namespace std {
inline namespace hxs {
class ios_base
{
public:
    typedef unsigned fmtflags;
    typedef unsigned iostate;
    typedef unsigned openmode;
    typedef int seekdir;
    static constexpr fmtflags left = 1, right = 2, internal = 4, dec = 8, hex = 16, oct = 32, fixed = 64, scientific = 128, boolalpha = 256,
                              showpoint = 512, showpos = 1024, uppercase = 2048, showbase = 4096, skipws = 8192, unitbuf = 16384,
                              adjustfield = 7, basefield = 56, floatfield = 192;
    static constexpr iostate goodbit = 0, eofbit = 1, failbit = 2, badbit = 4;
    static constexpr openmode in = 1, out = 2, trunc = 4, app = 8, ate = 16, binary = 32;
    static constexpr seekdir beg = 0, cur = 1, end = 2;
    class failure : public runtime_error { public: using runtime_error::runtime_error; };
    streamsize width() const { return m_width; }
    streamsize width(streamsize w) { streamsize o = m_width; m_width = w; return o; }
    streamsize precision() const { return m_prec; }
    streamsize precision(streamsize p) { streamsize o = m_prec; m_prec = p; return o; }
    fmtflags flags() const { return m_flags; }
    fmtflags flags(fmtflags f) { fmtflags o = m_flags; m_flags = f; return o; }
    fmtflags setf(fmtflags f) { fmtflags o = m_flags; m_flags |= f; return o; }
    fmtflags setf(fmtflags f, fmtflags mask) { fmtflags o = m_flags; m_flags = (m_flags & ~mask) | (f & mask); return o; }
    void unsetf(fmtflags f) { m_flags &= ~f; }
    static bool sync_with_stdio(bool = true) { return true; }
    streamsize m_width = 0, m_prec = 6;
    fmtflags m_flags = dec | skipws;
    iostate m_state = goodbit;
    virtual ~ios_base() {}
};
template <class C, class T>
class basic_ios : public ios_base
{
public:
    C m_fill = C(' ');
    bool good() const { return m_state == goodbit; }
    bool eof() const { return (m_state & eofbit) != 0; }
    bool fail() const { return (m_state & (failbit | badbit)) != 0; }
    bool bad() const { return (m_state & badbit) != 0; }
    explicit operator bool() const { return !fail(); }
    bool operator!() const { return fail(); }
    void clear(iostate s = goodbit) { m_state = s; }
    void setstate(iostate s) { m_state |= s; }
    iostate rdstate() const { return m_state; }
    void exceptions(iostate) {}
    C widen(char c) const { return C(c); }
    char narrow(C c, char) const { return static_cast<char>(c); }
    void copyfmt(basic_ios const& o) { this->m_flags = o.m_flags; this->m_width = o.m_width; this->m_prec = o.m_prec; m_fill = o.m_fill; }
    C fill() const { return m_fill; }
    C fill(C c) { C o = m_fill; m_fill = c; return o; }
};
template <class C, class T>
class basic_ostream : virtual public basic_ios<C, T>
{
public:
    typedef C char_type;
    typedef T traits_type;
    virtual void hx_write(C const*, size_t) {}
    void hx_put(C const* s, size_t n)
    {
        size_t const w = this->m_width > 0 ? static_cast<size_t>(this->m_width) : 0;
        this->m_width = 0;
        if (w > n) {
            if ((this->m_flags & ios_base::adjustfield) == ios_base::left) { hx_write(s, n); pad(w - n); }
            else { pad(w - n); hx_write(s, n); }
        } else hx_write(s, n);
    }
    void pad(size_t n) { for (size_t i = 0; i < n; ++i) hx_write(&this->m_fill, 1); }
    basic_ostream& put(C c) { hx_write(&c, 1); return *this; }
    basic_ostream& write(C const* s, streamsize n) { hx_write(s, static_cast<size_t>(n)); return *this; }
    basic_ostream& flush() { return *this; }
    basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
    basic_ostream& operator<<(basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; }
    basic_ostream& operator<<(nullptr_t) { hx_put("nullptr", 7); return *this; }
    basic_ostream& operator<<(long double v) { return *this << static_cast<double>(v); }
    streamsize tellp() { return -1; }
    basic_ostream& seekp(streamsize) { this->setstate(ios_base::failbit); return *this; }
    basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
    basic_ostream& hx_unsigned(unsigned long long v, bool neg, bool sgn = false)
    {
        char b[32];
        size_t n = 32;
        unsigned const f = this->m_flags;
        unsigned const base = (f & ios_base::hex) ? 16 : (f & ios_base::oct) ? 8 : 10;
        char const* const digits = (f & ios_base::uppercase) ? "0123456789ABCDEF" : "0123456789abcdef";
        bool const zero = v == 0;
        if (zero) b[--n] = '0';
        if (base == 10) while (v) { b[--n] = static_cast<char>('0' + v % 10); v /= 10; }
        else while (v) { b[--n] = digits[v % base]; v /= base; }
        if (base != 10 && (f & ios_base::showbase) && !zero) {
            if (base == 16) b[--n] = (f & ios_base::uppercase) ? 'X' : 'x';
            b[--n] = '0';
        }
        if (neg) b[--n] = '-';
        else if (sgn && (f & ios_base::showpos)) b[--n] = '+';
        size_t const w = this->m_width > 0 ? static_cast<size_t>(this->m_width) : 0;
        if ((f & ios_base::adjustfield) == ios_base::internal && w > 32 - n && (b[n] == '-' || b[n] == '+')) {
            this->m_width = 0;
            hx_write(b + n, 1);
            pad(w - (32 - n));
            hx_write(b + n + 1, 31 - n);
            return *this;
        }
        hx_put(b + n, 32 - n);
        return *this;
    }
    basic_ostream& hx_signed(long long v, unsigned long long mask = ~0ULL)
    {
        if (this->m_flags & (ios_base::hex | ios_base::oct)) return hx_unsigned(static_cast<unsigned long long>(v) & mask, false);
        return v < 0 ? hx_unsigned(0ULL - static_cast<unsigned long long>(v), true, true) : hx_unsigned(static_cast<unsigned long long>(v), false, true);
    }
    basic_ostream& operator<<(bool v)
    {
        if (this->m_flags & ios_base::boolalpha) { if (v) hx_put("true", 4); else hx_put("false", 5); return *this; }
        return hx_unsigned(v ? 1 : 0, false);
    }
    basic_ostream& operator<<(short v) { return hx_signed(v, 0xFFFFULL); }
    basic_ostream& operator<<(unsigned short v) { return hx_unsigned(v, false); }
    basic_ostream& operator<<(int v) { return hx_signed(v, 0xFFFFFFFFULL); }
    basic_ostream& operator<<(unsigned v) { return hx_unsigned(v, false); }
    basic_ostream& operator<<(long v) { return hx_signed(v); }
    basic_ostream& operator<<(unsigned long v) { return hx_unsigned(v, false); }
    basic_ostream& operator<<(long long v) { return hx_signed(v); }
    basic_ostream& operator<<(unsigned long long v) { return hx_unsigned(v, false); }
    basic_ostream& operator<<(double v)
    {
        hx_fmt_values.push_back(v);
        {
            unsigned const ff = this->m_flags & ios_base::floatfield;
            int const pr = static_cast<int>(this->m_prec);
            hx_fmt_digits.push_back(ff == ios_base::fixed ? 0 : ff == 0 ? (pr == 0 ? 1 : pr) : ff == ios_base::scientific ? pr + 1 : 17);
        }
        char b[32];
        size_t n = 31, k = hx_fmt_values.size() - 1;
        b[31] = '\x02';
        if (k == 0) b[--n] = '0';
        while (k) { b[--n] = static_cast<char>('0' + k % 10); k /= 10; }
        b[--n] = '\x01';
        hx_put(b + n, 32 - n);
        return *this;
    }
    basic_ostream& operator<<(float v) { return *this << static_cast<double>(v); }
    basic_ostream& operator<<(const void*) { hx_put("0x", 2); return *this; }
};
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c) { o.hx_put(&c, 1); return o; }
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c) { char d = static_cast<char>(c); o.hx_put(&d, 1); return o; }
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) { char d = static_cast<char>(c); o.hx_put(&d, 1); return o; }
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* s) { o.hx_put(s, strlen(s)); return o; }

template <class C, class T>
class basic_istream : virtual public basic_ios<C, T>
{
public:
    typedef C char_type;
    typedef T traits_type;
    basic_string<C> m_in;
    size_t m_pos = 0;
    size_t m_gcount = 0;
    static bool sp(C c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
    bool hx_sentry(bool noskip = false)
    {
        if (!this->good()) { this->setstate(ios_base::failbit); return false; }
        if (!noskip && (this->m_flags & ios_base::skipws)) {
            while (m_pos < m_in.size() && sp(m_in[m_pos])) ++m_pos;
            if (m_pos >= m_in.size()) { this->setstate(ios_base::eofbit | ios_base::failbit); return false; }
        }
        return true;
    }
    basic_istream& hx_word(basic_string<C>& s)
    {
        if (!hx_sentry()) return *this;
        s.clear();
        while (m_pos < m_in.size() && !sp(m_in[m_pos])) { s.push_back(m_in[m_pos]); ++m_pos; }
        if (m_pos >= m_in.size()) this->setstate(ios_base::eofbit);
        if (s.empty()) this->setstate(ios_base::failbit);
        return *this;
    }
    basic_istream& hx_line(basic_string<C>& s, C d)
    {
        if (!hx_sentry(true)) return *this;
        s.clear();
        bool got = false;
        while (true) {
            if (m_pos >= m_in.size()) { this->setstate(ios_base::eofbit); break; }
            C c = m_in[m_pos++];
            got = true;
            if (c == d) break;
            s.push_back(c);
        }
        if (!got) this->setstate(ios_base::failbit);
        return *this;
    }
    int get() { if (m_pos >= m_in.size()) { this->setstate(ios_base::eofbit | ios_base::failbit); return -1; } return static_cast<unsigned char>(m_in[m_pos++]); }
    basic_istream& get(C& c) { int r = get(); if (r >= 0) c = static_cast<C>(r); return *this; }
    int peek() { if (m_pos >= m_in.size()) { this->setstate(ios_base::eofbit); return -1; } return static_cast<unsigned char>(m_in[m_pos]); }
    basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); }
    basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
    size_t gcount() const { return m_gcount; }
    basic_istream& unget() { this->m_state &= ~ios_base::eofbit; if (m_pos > 0) --m_pos; else this->setstate(ios_base::badbit); return *this; }
    basic_istream& putback(C) { return unget(); }
    basic_istream& ignore(streamsize n = 1, int d = -1)
    {
        m_gcount = 0;
        while (n > 0) {
            if (m_pos >= m_in.size()) { this->setstate(ios_base::eofbit); break; }
            int const c = static_cast<unsigned char>(m_in[m_pos++]);
            ++m_gcount;
            if (c == d) break;
            if (n != numeric_limits<streamsize>::max()) --n;
        }
        return *this;
    }
    basic_istream& read(C* s, streamsize n)
    {
        m_gcount = 0;
        while (m_gcount < static_cast<size_t>(n)) {
            if (m_pos >= m_in.size()) { this->setstate(ios_base::eofbit | ios_base::failbit); break; }
            s[m_gcount++] = m_in[m_pos++];
        }
        return *this;
    }
    basic_istream& getline(C* s, streamsize n, C d = C('\n'))
    {
        basic_string<C> l;
        hx_line(l, d);
        size_t k = l.size();
        if (k >= static_cast<size_t>(n)) { k = static_cast<size_t>(n) - 1; this->setstate(ios_base::failbit); }
        for (size_t i = 0; i < k; ++i) s[i] = l[i];
        if (n > 0) s[k] = C(0);
        return *this;
    }
    streamsize tellg() const { return this->fail() ? -1 : static_cast<streamsize>(m_pos); }
    basic_istream& seekg(streamsize p) { this->m_state &= ~ios_base::eofbit; if (p < 0 || static_cast<size_t>(p) > m_in.size()) this->setstate(ios_base::failbit); else m_pos = static_cast<size_t>(p); return *this; }
    // sign and magnitude of a decimal integer; saturates at 2^65
    bool hx_int(bool& neg, unsigned long long& r, bool& over)
    {
        neg = over = false;
        r = 0;
        if (!hx_sentry()) return false;
        bool any = false;
        if (m_in[m_pos] == '-' || m_in[m_pos] == '+') { neg = m_in[m_pos] == '-'; ++m_pos; }
        while (m_pos < m_in.size() && m_in[m_pos] >= '0' && m_in[m_pos] <= '9') {
            unsigned const d = static_cast<unsigned>(m_in[m_pos] - '0');
            if (r > (~0ULL - d) / 10) over = true;
            else r = r * 10 + d;
            any = true;
            ++m_pos;
        }
        if (m_pos >= m_in.size()) this->setstate(ios_base::eofbit);
        if (!any) { r = 0; this->setstate(ios_base::failbit); }
        return any;
    }
    template <class I>
    basic_istream& hx_get_int(I& v)
    {
        bool neg, over;
        unsigned long long r;
        if (!this->good()) { this->setstate(ios_base::failbit); return *this; }
        if (!hx_int(neg, r, over)) { v = 0; return *this; }
        if constexpr (is_signed_v<I>) {
            unsigned long long const top = static_cast<unsigned long long>(numeric_limits<I>::max()) + (neg ? 1 : 0);
            if (over || r > top) { v = neg ? numeric_limits<I>::min() : numeric_limits<I>::max(); this->setstate(ios_base::failbit); return *this; }
            v = static_cast<I>(neg ? 0ULL - r : r);
        } else {
            if (over || r > numeric_limits<I>::max()) { v = numeric_limits<I>::max(); this->setstate(ios_base::failbit); return *this; }
            v = static_cast<I>(neg ? 0ULL - r : r);
        }
        return *this;
    }
    basic_istream& operator>>(short& v) { return hx_get_int(v); }
    basic_istream& operator>>(unsigned short& v) { return hx_get_int(v); }
    basic_istream& operator>>(int& v) { return hx_get_int(v); }
    basic_istream& operator>>(unsigned& v) { return hx_get_int(v); }
    basic_istream& operator>>(long& v) { return hx_get_int(v); }
    basic_istream& operator>>(unsigned long& v) { return hx_get_int(v); }
    basic_istream& operator>>(long long& v) { return hx_get_int(v); }
    basic_istream& operator>>(unsigned long long& v) { return hx_get_int(v); }
    basic_istream& operator>>(bool& v)
    {
        if (this->m_flags & ios_base::boolalpha) {
            v = false;
            if (!hx_sentry()) return *this;
            char const* const names[2] = {"false", "true"};
            for (int k = 0; k < 2; ++k) {
                size_t const n = strlen(names[k]);
                if (m_in.compare(m_pos, n, names[k]) == 0) {
                    m_pos += n;
                    v = k == 1;
                    return *this;
                }
            }
            this->setstate(ios_base::failbit);
            return *this;
        }
        long r = 0;
        hx_get_int(r);
        v = r != 0;
        if (r != 0 && r != 1) this->setstate(ios_base::failbit);
        return *this;
    }
    basic_istream& operator>>(double& v)
    {
        if (!this->good()) { this->setstate(ios_base::failbit); return *this; }
        v = 0;
        if (!hx_sentry()) return *this;
        // the characters a number may be made of, in the order it may have them
        basic_string<C> t;
        size_t n = m_pos;
        auto const dig = [&](size_t i) { return i < m_in.size() && m_in[i] >= '0' && m_in[i] <= '9'; };
        auto const take = [&] { t.push_back(m_in[n]); ++n; };
        bool any = false;
        if (n < m_in.size() && (m_in[n] == '-' || m_in[n] == '+')) take();
        while (dig(n)) { take(); any = true; }
        if (n < m_in.size() && m_in[n] == '.') take();
        while (dig(n)) { take(); any = true; }
        if (any && n < m_in.size() && (m_in[n] == 'e' || m_in[n] == 'E')) {
            take();
            if (n < m_in.size() && (m_in[n] == '-' || m_in[n] == '+')) take();
            bool const ex = dig(n);
            while (dig(n)) take();
            any = ex;
        }
        m_pos = n;
        if (m_pos >= m_in.size()) this->setstate(ios_base::eofbit);
        if (!any) { this->setstate(ios_base::failbit); return *this; }
        v = strtod(t.c_str(), nullptr);
        return *this;
    }
    basic_istream& operator>>(float& v) { double d = v; *this >> d; v = static_cast<float>(d); return *this; }
};
template <class C, class T>
class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T>
{
};
} // hxs
template <>
inline basic_istream<char>& operator>>(basic_istream<char>& i, basic_string<char>& s) { return i.hx_word(s); }
template <>
inline basic_istream<char>& getline(basic_istream<char>& i, basic_string<char>& s, char d) { return i.hx_line(s, d); }
inline namespace hxs {
template <class T> basic_istream<char, T>& operator>>(basic_istream<char, T>& i, char& c)
{
    if (i.hx_sentry()) c = i.m_in[i.m_pos++];
    return i;
}
template <class C, class T> basic_istream<C, T>& ws(basic_istream<C, T>& i) { while (i.m_pos < i.m_in.size() && i.sp(i.m_in[i.m_pos])) ++i.m_pos; if (i.m_pos >= i.m_in.size()) i.setstate(ios_base::eofbit); return i; }

template <class C, class T, class A>
class basic_stringstream : public basic_iostream<C, T>
{
public:
    basic_stringstream() = default;
    explicit basic_stringstream(basic_string<C> const& s, ios_base::openmode m = 3) : m_ate((m & (ios_base::ate | ios_base::app)) != 0) { str(s); }
    explicit basic_stringstream(ios_base::openmode m) : m_ate((m & (ios_base::ate | ios_base::app)) != 0) {}
    bool m_ate = false;
    size_t m_at = 0;
    void hx_write(C const* s, size_t n) override
    {
        if (m_at == this->m_in.size()) { this->m_in.append(s, n); m_at += n; return; }
        for (size_t i = 0; i < n; ++i, ++m_at) { if (m_at < this->m_in.size()) this->m_in[m_at] = s[i]; else this->m_in.push_back(s[i]); }
    }
    basic_string<C> str() const { return this->m_in; }
    void str(basic_string<C> const& s) { this->m_in = s; this->m_pos = 0; m_at = m_ate ? s.size() : 0; }
    basic_string_view<C> view() const { return this->m_in; }
};
template <class C, class T, class A>
class basic_ostringstream : public basic_ostream<C, T>
{
    basic_string<C> m_out;
    bool m_ate = false;
    size_t m_at = 0;
public:
    basic_ostringstream() = default;
    explicit basic_ostringstream(basic_string<C> const& s, ios_base::openmode m = 2) : m_out(s), m_ate((m & (ios_base::ate | ios_base::app)) != 0) { rewind(); }
    explicit basic_ostringstream(ios_base::openmode m) : m_ate((m & (ios_base::ate | ios_base::app)) != 0) {}
    void rewind() { m_at = m_ate ? m_out.size() : 0; }
    void hx_write(C const* s, size_t n) override
    {
        if (m_at == m_out.size()) { m_out.append(s, n); m_at += n; return; }
        for (size_t i = 0; i < n; ++i, ++m_at) { if (m_at < m_out.size()) m_out[m_at] = s[i]; else m_out.push_back(s[i]); }
    }
    basic_string<C> str() const { return m_out; }
    void str(basic_string<C> const& s) { m_out = s; rewind(); }
    streamsize tellp() { return static_cast<streamsize>(m_at); }
    basic_string_view<C> view() const { return m_out; }
};
template <class C, class T, class A>
class basic_istringstream : public basic_istream<C, T>
{
public:
    basic_istringstream() = default;
    explicit basic_istringstream(basic_string<C> const& s, ios_base::openmode = 1) { this->m_in = s; }
    basic_string<C> str() const { return this->m_in; }
    void str(basic_string<C> const& s) { this->m_in = s; this->m_pos = 0; }
};
template <class C, class T>
class basic_ofstream : public basic_ostream<C, T>
{
    HxFile* m_f = nullptr;
public:
    basic_ofstream() = default;
    explicit basic_ofstream(string const& n, ios_base::openmode m = ios_base::out) { open(n, m); }
    explicit basic_ofstream(const char* n, ios_base::openmode m = ios_base::out) { open(string(n), m); }
    void open(string const& n, ios_base::openmode m = ios_base::out)
    {
        m_f = nullptr;
        for (HxFile* f : hx_files) if (f->name == n) m_f = f;
        if (!m_f) { m_f = new HxFile; m_f->name = n; hx_files.push_back(m_f); }
        if (!(m & ios_base::app)) { m_f->text.clear(); m_f->trunc = true; }
    }
    template <class P> requires requires(P const& p) { p.native(); p.filename(); }
    explicit basic_ofstream(P const& p, ios_base::openmode m = ios_base::out) { open(p.native(), m); }
    void open(const char* n, ios_base::openmode m = ios_base::out) { open(string(n), m); }
    template <class P> requires requires(P const& p) { p.native(); p.filename(); }
    void open(P const& p, ios_base::openmode m = ios_base::out) { open(p.native(), m); }
    bool is_open() const { return m_f != nullptr; }
    void close() { m_f = nullptr; }
    void hx_write(C const* s, size_t n) override { if (m_f) m_f->text.append(s, n); else this->setstate(ios_base::badbit); }
};
template <class C, class T>
class basic_ifstream : public basic_istream<C, T>
{
public:
    basic_ifstream() { this->setstate(ios_base::failbit); }
    explicit basic_ifstream(string const&, ios_base::openmode = 1) : basic_ifstream() {}
    explicit basic_ifstream(const char*, ios_base::openmode = 1) : basic_ifstream() {}
    bool is_open() const { return false; }
    void close() {}
};
template <class C, class T>
class basic_fstream : public basic_iostream<C, T>
{
};

} // hxs
template <>
class istreambuf_iterator<char, char_traits<char>>
{
    basic_istream<char>* m_i = nullptr;
public:
    typedef input_iterator_tag iterator_category;
    typedef char value_type;
    typedef ptrdiff_t difference_type;
    typedef char const* pointer;
    typedef char reference;
    istreambuf_iterator() = default;
    istreambuf_iterator(basic_istream<char>& i) : m_i(&i) {}
    char operator*() const { return m_i->m_in[m_i->m_pos]; }
    istreambuf_iterator& operator++() { ++m_i->m_pos; return *this; }
    bool at_end() const { return !m_i || m_i->m_pos >= m_i->m_in.size(); }
    friend bool operator==(istreambuf_iterator const& a, istreambuf_iterator const& b) { return a.at_end() == b.at_end(); }
};
inline namespace hxs {
class HxNull : public basic_ostream<char> {};
inline HxNull hx_out;
inline basic_ostream<char>& cout = hx_out;
inline basic_ostream<char>& cerr = hx_out;
inline basic_ostream<char>& clog = hx_out;

template <class X, class C = char, class T = char_traits<C>>
class ostream_iterator
{
    basic_ostream<C, T>* m_o;
    C const* m_d = nullptr;
public:
    typedef output_iterator_tag iterator_category;
    typedef void value_type;
    typedef ptrdiff_t difference_type;
    typedef void pointer;
    typedef void reference;
    ostream_iterator(basic_ostream<C, T>& o, C const* d = nullptr) : m_o(&o), m_d(d) {}
    ostream_iterator& operator=(X const& x) { *m_o << x; if (m_d) *m_o << m_d; return *this; }
    ostream_iterator& operator*() { return *this; }
    ostream_iterator& operator++() { return *this; }
    ostream_iterator& operator++(int) { return *this; }
};
template <class X, class C = char, class T = char_traits<C>, class D = ptrdiff_t>
class istream_iterator
{
    basic_istream<C, T>* m_i = nullptr;
    X m_v {};
    void next() { if (m_i && !(*m_i >> m_v)) m_i = nullptr; }
public:
    typedef input_iterator_tag iterator_category;
    typedef X value_type;
    typedef D difference_type;
    typedef X const* pointer;
    typedef X const& reference;
    istream_iterator() = default;
    istream_iterator(basic_istream<C, T>& i) : m_i(&i) { next(); }
    X const& operator*() const { return m_v; }
    X const* operator->() const { return &m_v; }
    istream_iterator& operator++() { next(); return *this; }
    istream_iterator operator++(int) { istream_iterator o = *this; next(); return o; }
    friend bool operator==(istream_iterator const& a, istream_iterator const& b) { return a.m_i == b.m_i; }
};
template <class C, class T> basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { return o.put('\n'); }
template <class C, class T> basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { return o.put('\0'); }
template <class C, class T> basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o; }
inline ios_base& left(ios_base& b) { b.setf(ios_base::left, ios_base::adjustfield); return b; }
inline ios_base& right(ios_base& b) { b.setf(ios_base::right, ios_base::adjustfield); return b; }
inline ios_base& internal(ios_base& b) { b.setf(ios_base::internal, ios_base::adjustfield); return b; }
inline ios_base& scientific(ios_base& b) { b.setf(ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base& fixed(ios_base& b) { b.setf(ios_base::fixed, ios_base::floatfield); return b; }
inline ios_base& defaultfloat(ios_base& b) { b.unsetf(ios_base::floatfield); return b; }
inline ios_base& boolalpha(ios_base& b) { b.setf(ios_base::boolalpha); return b; }
inline ios_base& noboolalpha(ios_base& b) { b.unsetf(ios_base::boolalpha); return b; }
inline ios_base& dec(ios_base& b) { b.setf(ios_base::dec, ios_base::basefield); return b; }
inline ios_base& hex(ios_base& b) { b.setf(ios_base::hex, ios_base::basefield); return b; }
inline ios_base& oct(ios_base& b) { b.setf(ios_base::oct, ios_base::basefield); return b; }
inline ios_base& hexfloat(ios_base& b) { b.setf(ios_base::fixed | ios_base::scientific, ios_base::floatfield); return b; }
inline ios_base& showpos(ios_base& b) { b.setf(ios_base::showpos); return b; }
inline ios_base& noshowpos(ios_base& b) { b.unsetf(ios_base::showpos); return b; }
inline ios_base& showbase(ios_base& b) { b.setf(ios_base::showbase); return b; }
inline ios_base& noshowbase(ios_base& b) { b.unsetf(ios_base::showbase); return b; }
inline ios_base& showpoint(ios_base& b) { b.setf(ios_base::showpoint); return b; }
inline ios_base& noshowpoint(ios_base& b) { b.unsetf(ios_base::showpoint); return b; }
inline ios_base& uppercase(ios_base& b) { b.setf(ios_base::uppercase); return b; }
inline ios_base& nouppercase(ios_base& b) { b.unsetf(ios_base::uppercase); return b; }
inline ios_base& unitbuf(ios_base& b) { b.setf(ios_base::unitbuf); return b; }
inline ios_base& nounitbuf(ios_base& b) { b.unsetf(ios_base::unitbuf); return b; }
struct HxFlags { ios_base::fmtflags f, m; };
inline HxFlags setbase(int n) { return {n == 16 ? ios_base::hex : n == 8 ? ios_base::oct : n == 10 ? ios_base::dec : 0u, ios_base::basefield}; }
inline HxFlags setiosflags(ios_base::fmtflags f) { return {f, f}; }
inline HxFlags resetiosflags(ios_base::fmtflags f) { return {0, f}; }
template <class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, HxFlags w) { o.setf(w.f, w.m); return o; }
template <class C, class T> basic_istream<C, T>& operator>>(basic_istream<C, T>& o, HxFlags w) { o.setf(w.f, w.m); return o; }
template <class C> struct HxQuoted { basic_string_view<C> s; C d, e; };
inline HxQuoted<char> quoted(string_view s, char d = '"', char e = '\\') { return {s, d, e}; }
template <class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, HxQuoted<char> q)
{
    string r(1, q.d);
    for (char c : q.s) { if (c == q.d || c == q.e) r += q.e; r += c; }
    r += q.d;
    o.hx_put(r.data(), r.size());
    return o;
}
inline ios_base& skipws(ios_base& b) { b.setf(ios_base::skipws); return b; }
inline ios_base& noskipws(ios_base& b) { b.unsetf(ios_base::skipws); return b; }
struct HxSetw { int n; };
inline HxSetw setw(int n) { return {n}; }
template <class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, HxSetw w) { o.width(w.n); return o; }
template <class Ch> struct HxSetfill { Ch c; };
template <class Ch> HxSetfill<Ch> setfill(Ch c) { return {c}; }
template <class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, HxSetfill<C> f) { o.fill(f.c); return o; }
struct HxSetprec { int n; };
inline HxSetprec setprecision(int n) { return {n}; }
template <class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, HxSetprec w) { o.precision(w.n); return o; }
template <class Os, class X>
    requires(is_base_of_v<ios_base, Os> && !is_lvalue_reference_v<Os>)
Os&& operator<<(Os&& o, X const& x) { static_cast<basic_ostream<char>&>(o) << x; return static_cast<Os&&>(o); }
} // hxs
} // namespace std
