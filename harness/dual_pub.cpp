// Arrays mirrored on the host and on the device
#include <kit.hpp>
#include <dual_view.hpp>
using DV = DualView<double*, Kokkos::LayoutLeft>;
static constexpr int n = 2;
struct Vals { double v[n]; };
// one access; cur is what a reader must see, and is updated by writes
static void access_one(DV const& x, int op, Vals& cur, char const* tag)
{
    auto fresh = [&](int i) { return hx_real(idx(tag, i).c_str()); };
    switch (op) {
    case 0: {
        auto const h = x(host, read_only);
        for (int i = 0; i < n; ++i) hx_assert_eq(h(i), cur.v[i], "a reader on the host sees the latest write");
        hx_assert(!x.need_synchronization(host), "after a read on the host the host is up to date");
        break;
    }
    case 1: {
        auto const d = x(device, read_only);
        for (int i = 0; i < n; ++i) hx_assert_eq(*(d.data() + i), cur.v[i], "a reader on the device sees the latest write");
        hx_assert(!x.need_synchronization(device), "after a read on the device the device is up to date");
        break;
    }
    case 2: {
        auto const h = x(host, read_write);
        for (int i = 0; i < n; ++i) hx_assert_eq(h(i), cur.v[i], "read-write access on the host starts from the latest write");
        h(0) = cur.v[0] = fresh(0);
        hx_assert(x.need_synchronization(device) && !x.need_synchronization(host), "the device is behind after a write on the host");
        break;
    }
    case 3: {
        auto const d = x(device, read_write);
        for (int i = 0; i < n; ++i) hx_assert_eq(*(d.data() + i), cur.v[i], "read-write access on the device starts from the latest write");
        *(d.data() + 0) = cur.v[0] = fresh(0);
        hx_assert(x.need_synchronization(host) && !x.need_synchronization(device), "the host is behind after a write on the device");
        break;
    }
    case 4: {
        auto const h = x(host, discard_write);
        for (int i = 0; i < n; ++i) h(i) = cur.v[i] = fresh(i);
        hx_assert(x.need_synchronization(device) && !x.need_synchronization(host), "the device is behind after the host was overwritten");
        break;
    }
    case 5: {
        auto const d = x(device, discard_write);
        for (int i = 0; i < n; ++i) *(d.data() + i) = cur.v[i] = fresh(i);
        hx_assert(x.need_synchronization(host) && !x.need_synchronization(device), "the host is behind after the device was overwritten");
        break;
    }
    case 6: x.synchronize(host); hx_assert(!x.need_synchronization(host), "synchronised host"); break;
    case 7: x.synchronize(device); hx_assert(!x.need_synchronization(device), "synchronised device"); break;
    case 8: { // without a mode: read-write
        auto const h = x(host);
        for (int i = 0; i < n; ++i) hx_assert_eq(h(i), cur.v[i], "default access on the host starts from the latest write");
        h(1) = cur.v[1] = fresh(1);
        hx_assert(x.need_synchronization(device), "the device is behind after a write on the host");
        break;
    }
    case 9: {
        auto const d = x(device);
        for (int i = 0; i < n; ++i) hx_assert_eq(*(d.data() + i), cur.v[i], "default access on the device starts from the latest write");
        *(d.data() + 1) = cur.v[1] = fresh(1);
        hx_assert(x.need_synchronization(host), "the host is behind after a write on the device");
        break;
    }
    case 10: {
        auto const d = x(device_read_only);
        auto const h = x(host_read_only);
        for (int i = 0; i < n; ++i) {
            hx_assert_eq(*(d.data() + i), cur.v[i], "a reader on the device sees the latest write");
            hx_assert_eq(h(i), cur.v[i], "a reader on the host sees the latest write");
        }
        break;
    }
    }
}
static void both(DV const& x, Vals const& cur)
{
    Vals c = cur;
    // the order of the two reads must not matter
    if (hx_choice("first", 0, 1)) {
        access_one(x, 0, c, "r");
        access_one(x, 1, c, "r");
    } else {
        access_one(x, 1, c, "r");
        access_one(x, 0, c, "r");
    }
}
extern "C" {
// histories from construction
void histories()
{
    DV x("x", n);
    Vals cur;
    for (int i = 0; i < n; ++i) cur.v[i] = 0;
    for (int k = 0; k < 3; ++k) access_one(x, hx_choice(idx("op", k).c_str(), 0, 9), cur, idx("w", k).c_str());
    both(x, cur);
    hx_reach("end");
}
// long histories: two accesses repeated many times, then any access
void long_histories()
{
    DV x("x", n);
    int const a = hx_choice("op a", 0, 9), b = hx_choice("op b", 0, 9);
    Vals cur;
    for (int i = 0; i < n; ++i) cur.v[i] = 0;
    bool told = true;
    // the values written on the way do not matter: only the last ones are looked at
    auto const touch = [&](int op) {
        switch (op) {
        case 0: (void)x(host, read_only); break;
        case 1: (void)x(device, read_only); break;
        case 2: (void)x(host, read_write); break;
        case 3: (void)x(device, read_write); break;
        case 4: { auto const h = x(host, discard_write); for (int i = 0; i < n; ++i) h(i) = cur.v[i]; break; }
        case 5: { auto const d = x(device, discard_write); for (int i = 0; i < n; ++i) *(d.data() + i) = cur.v[i]; break; }
        case 6: x.synchronize(host); break;
        case 7: x.synchronize(device); break;
        case 8: (void)x(host); break;
        case 9: (void)x(device); break;
        }
        bool const on_host = op == 2 || op == 4 || op == 8, on_device = op == 3 || op == 5 || op == 9;
        if (on_host) told = told && x.need_synchronization(device) && !x.need_synchronization(host);
        if (on_device) told = told && x.need_synchronization(host) && !x.need_synchronization(device);
    };
    bool const blind = a >= 4 && a <= 5 && b >= 4 && b <= 5; // never copies: the longest runs
    int const reps = blind ? 33000 : 150;
    for (int k = 0; k < reps; ++k) { touch(a); touch(b); }
    hx_assert(told, "the side that is behind is reported after every write of a long history");
    access_one(x, hx_choice("op", 0, 9), cur, "w");
    both(x, cur);
    hx_reach("end");
}
// the read-only handle follows the array
void const_handle()
{
    DV x("x", n);
    Vals cur;
    for (int i = 0; i < n; ++i) cur.v[i] = 0;
    auto const c = x.const_view();
    access_one(x, hx_choice("op", 0, 9), cur, "w");
    auto const h = c(host, read_only);
    auto const d = c(device, read_only);
    for (int i = 0; i < n; ++i) {
        hx_assert_eq(h(i), cur.v[i], "a read-only handle on the host sees the latest write");
        hx_assert_eq(*(d.data() + i), cur.v[i], "a read-only handle on the device sees the latest write");
    }
    hx_assert(x.size() == n && x.extent(0) == n && x.extent_int(0) == n, "extents");
    x.clear_synchronization_state();
    hx_assert(!x.need_synchronization(host) && !x.need_synchronization(device), "nothing is pending after the state is cleared");
    hx_reach("end");
}
}
