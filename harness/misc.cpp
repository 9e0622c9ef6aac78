// Small utilities: checked integer conversion, reports, the MPI guard
#include <hx.h>
#include <mpi.h>
#include <cstdint>
#include <limits>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <int_cast.hpp>
#include <print_info.hpp>
using namespace hclpp;

template <class R, class T>
static void pair_of(char const* n)
{
    T const t = std::numeric_limits<T>::is_signed ? static_cast<T>(hx_int(n, static_cast<long long>(std::numeric_limits<T>::min()), static_cast<long long>(std::numeric_limits<T>::max())))
                                                  : static_cast<T>(hx_uint(n, 0, static_cast<unsigned long long>(std::numeric_limits<T>::max())));
    R r{};
    bool refused = false;
    try {
        r = int_cast<R>(t);
    } catch (std::runtime_error const&) {
        refused = true;
    }
    // representable: compared in 128 bits
    __int128 const v = t, lo = std::numeric_limits<R>::min(), hi = std::numeric_limits<R>::max();
    bool const ok = (v >= lo) & (v <= hi);
    if (refused) hx_assert(!ok, "a value the type can hold is converted");
    else {
        hx_assert(ok, "a value the type cannot hold is refused");
        hx_assert(static_cast<__int128>(r) == v, "the value is kept");
    }
}
template <class R>
static void to()
{
    pair_of<R, signed char>("i8");
    pair_of<R, unsigned char>("u8");
    pair_of<R, short>("i16");
    pair_of<R, unsigned short>("u16");
    pair_of<R, int>("i32");
    pair_of<R, unsigned>("u32");
    pair_of<R, long>("i64");
    pair_of<R, unsigned long>("u64");
    pair_of<R, long long>("ill");
    pair_of<R, unsigned long long>("ull");
    hx_reach("end");
}
extern "C" void int_cast_all()
{
    switch (hx_choice("target type", 0, 7)) {
    case 0: to<signed char>(); break;
    case 1: to<unsigned char>(); break;
    case 2: to<short>(); break;
    case 3: to<unsigned short>(); break;
    case 4: to<int>(); break;
    case 5: to<unsigned>(); break;
    case 6: to<long>(); break;
    default: to<unsigned long>(); break;
    }
}
static std::string number(long long v)
{
    std::string s;
    unsigned long long u = v < 0 ? 0 - static_cast<unsigned long long>(v) : static_cast<unsigned long long>(v);
    do { s.insert(s.begin(), static_cast<char>('0' + u % 10)); u /= 10; } while (u);
    return v < 0 ? "-" + s : s;
}
static std::string chars(char const* n, int len)
{
    std::string s;
    for (int i = 0; i < len; ++i) {
        int const c = hx_byte((std::string(n) + std::to_string(i)).c_str());
        hx_assume((c >= 32) & (c < 127));
        s += static_cast<char>(c);
    }
    return s;
}
static std::string dots(std::size_t n) { return n < 40 ? std::string(40 - n, '.') : std::string(); }
static bool same(std::string const& a, std::string const& b)
{
    if (a.size() != b.size()) return false;
    int d = 0;
    for (std::size_t i = 0; i < a.size(); ++i) d |= a[i] ^ b[i];
    return d == 0;
}
// a line of the report: name, dots, value, whatever the state of the stream
extern "C" void report_text()
{
    std::ostringstream os;
    int const before = hx_choice("stream used before", 0, 2);
    if (before == 1) os << std::setfill('#') << std::left;
    if (before == 2) os << std::setw(7) << std::internal;
    std::string const name = chars("name", hx_choice("length of the name", 0, 3)), value = chars("value", hx_choice("length of the value", 0, 3));
    int const longname = hx_choice("longer name", 0, 2);
    std::string const full = longname == 0 ? name : std::string(longname == 1 ? 37 : 40, 'n') + name;
    int const how = hx_choice("kind of value", 0, 2);
    if (how == 0) print_info(os, full, value);
    else if (how == 1) print_info(os, full, std::string_view(value));
    else print_info(os, full, value.c_str());
    hx_assert(same(os.str(), full + dots(full.size()) + dots(value.size()) + value + "\n"), "name on the left, value on the right, 40 columns each, dots between");
    hx_reach("end");
}
extern "C" void report_number()
{
    std::ostringstream os;
    long long const v = hx_choice("sign", 0, 1) ? -hx_choice("value", 0, 12) * 77LL : hx_choice("value", 0, 12) * 9999999LL;
    int const how = hx_choice("kind of value", 0, 3);
    std::string want = number(v);
    if (how == 0) print_info(os, "n", static_cast<int>(v));
    else if (how == 1) print_info(os, "n", v);
    else if (how == 2) { if (v < 0) hx_kill(); print_info(os, "n", static_cast<unsigned long>(v)); }
    else { print_info(os, "n", v != 0); want = v != 0 ? "1" : "0"; }
    print_info(os, "m", 5); // and a second line
    hx_assert(same(os.str(), "n" + dots(1) + dots(want.size()) + want + "\nm" + dots(1) + dots(1) + "5\n"), "numbers on the right, lines independent");
    hx_reach("end");
}
