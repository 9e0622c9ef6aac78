#include <type_traits>
#include "dual_pub.cpp"
extern "C" {
// one access from any state that any history can reach: the newer side holds the latest data
void any_state()
{
    DV x("x", n);
    unsigned const fd = static_cast<unsigned>(hx_uint("device stamp", 0, 0xfffffff0u)), fh = static_cast<unsigned>(hx_uint("host stamp", 0, 0xfffffff0u));
    Vals cur;
    double* const pd = x.m_view_device.data();
    double* const ph = x.m_view_host.data();
    // what the stamps mean is the code's business: ask it which side is behind
    x.m_modified_flag_device() = static_cast<std::remove_reference_t<decltype(x.m_modified_flag_device())>>(fd);
    x.m_modified_flag_host() = static_cast<std::remove_reference_t<decltype(x.m_modified_flag_host())>>(fh);
    bool const dev = x.need_synchronization(host), same = !dev && !x.need_synchronization(device);
    hx_assert(!(dev && x.need_synchronization(device)), "the two sides are not both behind");
    for (int i = 0; i < n; ++i) {
        cur.v[i] = hx_real(idx("latest", i).c_str());
        double const stale = hx_real(idx("stale", i).c_str());
        pd[i] = same || dev ? cur.v[i] : stale;
        ph[i] = same || !dev ? cur.v[i] : stale;
    }
    int const op = hx_choice("op", 0, 10), via = hx_choice("via", 0, 2);
    if (via == 0) access_one(x, op, cur, "w");
    else if (via == 1) {
        DV const y = x; // copies share the data and its state
        access_one(y, op, cur, "w");
    } else {
        DV y;
        y = x;
        access_one(y, op, cur, "w");
    }
    // again a state of the same kind
    for (int i = 0; i < n; ++i) {
        if (!x.need_synchronization(device)) hx_assert_eq(pd[i], cur.v[i], "a side that is not behind holds the latest data");
        if (!x.need_synchronization(host)) hx_assert_eq(ph[i], cur.v[i], "a side that is not behind holds the latest data");
    }
    both(x, cur);
    hx_reach("end");
}
}
