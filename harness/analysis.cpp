// Time step, integrals, extrema, gravity fields, heating, broadcasts, moving mesh
#include <kit.hpp>
#include <cmath>
#include <vector>
#include <time_step.hpp>
#include <temperature.hpp>
#include <integration.cpp>
#include <internal_energy.cpp>
#include <gravity.cpp>
#include <user_step.cpp>
#include <user_step_factory.cpp>
#include <broadcast.cpp>
#include <moving_grid.cpp>
#include <pressure_fix.hpp>
#include <units.hpp>

static double cabs(double x) { return x < 0 ? -x : x; }
static Grid line(int d, int n, int ng) { return Grid(cells(d == 0 ? n : 1, d == 1 ? n : 1, d == 2 ? n : 1), {0, 0, 0}, ng); }

// a process grid in one direction (or 2 x 2), and global data on it
struct World
{
    int P;
    std::array<int, 3> dims, n;
};
static World mk_world(int maxn)
{
    World w;
    w.dims = {1, 1, 1};
    int const c = hx_choice("decomposition", 0, ndim > 1 ? ndim + 1 : 1);
    if (c == ndim + 1) w.dims[0] = w.dims[1] = 2;
    else if (c > 0) w.dims[c - 1] = ndim == 1 ? hx_choice("P", 2, 3) : 2;
    else w.dims[0] = 1;
    w.P = w.dims[0] * w.dims[1] * w.dims[2];
    w.n = cells(1);
    for (int d = 0; d < ndim; ++d) w.n[d] = w.dims[d] == 1 ? 1 : (ndim == 1 ? maxn : 2);
    if (w.P == 1) w.n[0] = 2;
    return w;
}
struct Glob
{
    std::array<int, 3> n;
    int m;
    std::vector<double> v;
    Glob(std::array<int, 3> const& n_, int m_, char const* name, double (*mk)(char const*)) : n(n_), m(m_)
    {
        for (int i = 0; i < n[0] * n[1] * n[2] * m; ++i) v.push_back(mk(idx(name, i).c_str()));
    }
    auto operator()(int i, int j, int k, int c = 0) const -> double { return v[static_cast<std::size_t>(((i * n[1] + j) * n[2] + k) * m + c)]; }
};
// inner cells of a local array from the global one; everything else stays uninitialised
static void scatter(Grid const& g, Glob const& G, KV_double_3d const& v)
{
    poison(v);
    auto const& r = g.range;
    for (int i = r.Corner_min[0]; i < r.Corner_max[0]; ++i)
        for (int j = r.Corner_min[1]; j < r.Corner_max[1]; ++j)
            for (int k = r.Corner_min[2]; k < r.Corner_max[2]; ++k)
                v(i - r.Corner_min[0] + g.Nghost[0], j - r.Corner_min[1] + g.Nghost[1], k - r.Corner_min[2] + g.Nghost[2]) = G(i, j, k);
}
static void scatter(Grid const& g, Glob const& G, KV_double_4d const& v)
{
    poison(v);
    auto const& r = g.range;
    for (int c = 0; c < G.m; ++c)
        for (int i = r.Corner_min[0]; i < r.Corner_max[0]; ++i)
            for (int j = r.Corner_min[1]; j < r.Corner_max[1]; ++j)
                for (int k = r.Corner_min[2]; k < r.Corner_max[2]; ++k)
                    v(i - r.Corner_min[0] + g.Nghost[0], j - r.Corner_min[1] + g.Nghost[1], k - r.Corner_min[2] + g.Nghost[2], c) = G(i, j, k, c);
}
extern "C" {
// no signal crosses a cell in less than the time step, and some cell allows no more
void cfl()
{
    int const L = hx_choice("long", 0, ndim - 1);
    Grid g = line(L, 2, 1);
    sym_metric(g);
    auto rho = v3(g, "rho"), P = v3(g, "P");
    auto u = v4(g, "u", ndim);
    poison(rho);
    poison(P);
    poison(u);
    double rate[2];
    double m = 0;
    int const o[3] = {g.Nghost[0], g.Nghost[1], g.Nghost[2]};
    for (int c = 0; c < 2; ++c) {
        int x[3] = {o[0], o[1], o[2]};
        x[L] += c;
        rho(x[0], x[1], x[2]) = hx_pos(idx("rho", c).c_str());
        P(x[0], x[1], x[2]) = hx_pos(idx("P", c).c_str());
        for (int d = 0; d < ndim; ++d) {
            // the velocities of the first cell have all combinations of signs
            int const s = c == 0 && hx_choice(idx("sign", d).c_str(), 0, 1) ? -1 : 1;
            u(x[0], x[1], x[2], d) = s * hx_nonneg((idx("u", c) + std::to_string(d)).c_str());
        }
    }
    if (geom == Geometry::Geom_spherical && ndim == 3)
        for (int j = 0; j < g.Nx_local_wg[1]; ++j) hx_assume(std::sin(g.x1_center(j)) > 0);
    double const dt = time_step(g.range.no_ghosts(), UFEos(), g, rho, u, P);
    for (int c = 0; c < 2; ++c) {
        int x[3] = {o[0], o[1], o[2]};
        x[L] += c;
        double const cs = UFEos().compute_speed_of_sound(rho(x[0], x[1], x[2]), P(x[0], x[1], x[2]));
        double len[3] = {g.dx0(x[0]), g.dx1(x[1]), g.dx2(x[2])};
        if (geom == Geometry::Geom_spherical && ndim > 1) {
            len[1] = len[1] * g.x0_center(x[0]);
            len[2] = len[2] * g.x0_center(x[0]) * (ndim == 3 ? std::sin(g.x1_center(x[1])) : 1);
        }
        rate[c] = 0;
        for (int d = 0; d < ndim; ++d) rate[c] = rate[c] + (cabs(u(x[0], x[1], x[2], d)) + cs) / len[d];
        m = m < rate[c] ? rate[c] : m;
    }
    hx_assert_eq(dt * m, 1, "the time step is the crossing time of the fastest cell");
    for (int c = 0; c < 2; ++c) hx_assert_le(rate[c] * dt, 1, "no signal crosses a cell within the time step");
    hx_assert_lt(0, dt, "the time step is positive");
    hx_reach("end");
}
// all processes use the same time step, that of the fastest cell of the whole domain
void cfl_world()
{
    World const w = mk_world(3);
    Glob const rho(w.n, 1, "rho", hx_pos), P(w.n, 1, "P", hx_pos), u(w.n, ndim, "u", hx_nonneg);
    double dts[4];
    double m = 0;
    double const dx[3] = {hx_pos("dx0"), hx_pos("dx1"), hx_pos("dx2")};
    for (int i = 0; i < w.n[0]; ++i)
        for (int j = 0; j < w.n[1]; ++j)
            for (int k = 0; k < w.n[2]; ++k) {
                double const cs = UFEos().compute_speed_of_sound(rho(i, j, k), P(i, j, k));
                double r = 0;
                for (int d = 0; d < ndim; ++d) r = r + (u(i, j, k, d) + cs) / dx[d];
                m = m < r ? r : m;
            }
    hx_mpi_run(w.P, [&](int rank) {
        Grid g(w.n, {w.dims[0], ndim > 1 ? w.dims[1] : 0, ndim > 2 ? w.dims[2] : 0}, 1);
        put(g.dx0, dx[0]);
        put(g.dx1, dx[1]);
        put(g.dx2, dx[2]);
        put(g.x0_center, 1);
        put(g.x1_center, 1);
        auto lr = v3(g, "rho"), lP = v3(g, "P");
        auto lu = v4(g, "u", ndim);
        scatter(g, rho, lr);
        scatter(g, P, lP);
        scatter(g, u, lu);
        dts[rank] = time_step(g.range.no_ghosts(), UFEos(), g, lr, lu, lP);
    });
    for (int r = 0; r < w.P; ++r) hx_assert_eq(dts[r] * m, 1, "every process uses the crossing time of the fastest cell of the domain");
    hx_reach("end");
}
void integral_world()
{
    World const w = mk_world(3);
    Glob const q(w.n, 1, "q", hx_real), vol(w.n, 1, "vol", hx_pos);
    double res[4];
    hx_mpi_run(w.P, [&](int rank) {
        Grid g(w.n, {w.dims[0], ndim > 1 ? w.dims[1] : 0, ndim > 2 ? w.dims[2] : 0}, 1);
        auto lq = v3(g, "q");
        scatter(g, q, lq);
        scatter(g, vol, g.dv);
        res[rank] = integrate(g.range.no_ghosts(), g, lq);
    });
    double s = 0;
    for (std::size_t i = 0; i < q.v.size(); ++i) s = s + q.v[i] * vol.v[i];
    for (int r = 0; r < w.P; ++r) hx_assert_eq(res[r], s, "the integral counts every cell of the domain once, on every process");
    hx_reach("end");
}
void min_energy_world()
{
    World const w = mk_world(3);
    Glob const rho(w.n, 1, "rho", hx_pos), E(w.n, 1, "E", [](char const* n) { return hx_real_in(n, -1e300, 1e300); }), ru(w.n, ndim, "rhou", hx_real);
    double res[4];
    hx_mpi_run(w.P, [&](int rank) {
        Grid g(w.n, {w.dims[0], ndim > 1 ? w.dims[1] : 0, ndim > 2 ? w.dims[2] : 0}, 1);
        auto lr = v3(g, "rho"), lE = v3(g, "E");
        auto lu = v4(g, "rhou", ndim);
        scatter(g, rho, lr);
        scatter(g, E, lE);
        scatter(g, ru, lu);
        res[rank] = minimum_internal_energy(g.range.no_ghosts(), g, lr, lu, lE);
    });
    double m = 0;
    for (std::size_t i = 0; i < rho.v.size(); ++i) {
        double k = 0;
        for (std::size_t d = 0; d < ndim; ++d) k = k + ru.v[i * ndim + d] * ru.v[i * ndim + d];
        double const e = E.v[i] - k / (2 * rho.v[i]);
        m = i == 0 ? e : (e < m ? e : m);
    }
    for (int r = 0; r < w.P; ++r) hx_assert_eq(res[r], m, "the smallest internal energy of the domain is reported on every process");
    hx_reach("end");
}
// a cell without a valid state is not lost in the reductions
void min_energy_nan()
{
    World const w = mk_world(3);
    Glob const rho(w.n, 1, "rho", hx_pos), E(w.n, 1, "E", hx_pos);
    int const bad = hx_choice("cell", 0, static_cast<int>(rho.v.size()) - 1);
    int const what = hx_choice("what is not a number", 0, 2);
    double res[4];
    hx_mpi_run(w.P, [&](int rank) {
        Grid g(w.n, {w.dims[0], ndim > 1 ? w.dims[1] : 0, ndim > 2 ? w.dims[2] : 0}, 1);
        auto lr = v3(g, "rho"), lE = v3(g, "E");
        auto lu = v4(g, "rhou", ndim);
        Glob r2 = rho, E2 = E, u2(w.n, ndim, "rhou", [](char const*) { return 0.; });
        (what == 0 ? r2.v : what == 1 ? E2.v : u2.v)[static_cast<std::size_t>(bad) * (what == 2 ? ndim : 1)] = hx_nan();
        scatter(g, r2, lr);
        scatter(g, E2, lE);
        scatter(g, u2, lu);
        res[rank] = minimum_internal_energy(g.range.no_ghosts(), g, lr, lu, lE);
    });
    for (int r = 0; r < w.P; ++r) hx_assert(res[r] != res[r] || res[r] < 0, "a cell that is not a number shows in the smallest internal energy, on every process");
    hx_reach("end");
}
void temperature_cells()
{
    Grid g(cells(2, 2, 1), {0, 0, 0}, 1);
    auto rho = v3(g, "rho"), P = v3(g, "P"), T = v3(g, "T"), T0 = v3(g, "T0");
    sym(rho, "rho", hx_pos);
    sym(P, "P", hx_pos);
    sym(T0, "T0");
    Kokkos::deep_copy(T, T0);
    int const ng = hx_choice("ghosts", 0, 1);
    Range const r = ng ? g.range.all_ghosts() : g.range.no_ghosts();
    temperature(r, UFEos(), rho, P, T);
    for (int i = 0; i < g.Nx_local_wg[0]; ++i)
        for (int j = 0; j < g.Nx_local_wg[1]; ++j)
            for (int k = 0; k < g.Nx_local_wg[2]; ++k) {
                int const x[3] = {i, j, k};
                bool in = true;
                for (int d = 0; d < ndim; ++d) in = in && (ng || (x[d] >= 1 && x[d] < g.Nx_local_wg[d] - 1));
                hx_assert_eq(T(i, j, k), in ? UFEos().compute_temp_from_pres(rho(i, j, k), P(i, j, k)) : T0(i, j, k), "temperature of every cell of the range, nothing else written");
            }
    hx_reach("end");
}
// ---- gravity
void uniform_gravity()
{
    double const a[3] = {hx_real("gx0"), hx_real("gx1"), hx_real("gx2")};
    auto const gr = make_uniform_gravity(a[0], a[1], a[2]);
    for (int i = -1; i < 3; ++i)
        for (int d = 0; d < ndim; ++d) hx_assert_eq(gr(i, 2 * i, 3, d), a[d], "uniform gravity is the given vector in every cell");
    hx_reach("end");
}
void point_mass()
{
    Grid g(cells(2), {0, 0, 0}, 2);
    sym(g.x0_center, "x0c", hx_pos);
    double const M = hx_real("M");
    auto const gr = make_point_mass_gravity(M, g);
    for (int i = 0; i < g.Nx_local_wg[0]; ++i)
        for (int d = 0; d < ndim; ++d)
            hx_assert_eq(gr(i, 1, 0, d) * g.x0_center(i) * g.x0_center(i), d == 0 ? -units::G * M : 0, "attraction by a central mass: inverse square along the first direction, none across");
    hx_reach("end");
}
// the field of the central mass and of the mass below, from the shell averages over all processes of a layer
void internal_mass()
{
    int const c = hx_choice("decomposition", 0, ndim - 1);
    std::array<int, 3> dims {1, 1, 1};
    if (c) dims[c] = 2;
    int const P = c ? 2 : 1, ng = hx_choice("Ng", 1, 2), nr = 2;
    std::array<int, 3> const n = cells(nr, 2, ndim > 2 ? 2 : 1);
    // the outer ghost layers of density are read too
    std::array<int, 3> ne = n;
    ne[0] = nr + ng;
    Glob const rho(ne, 1, "rho", hx_pos), vol(ne, 1, "vol", hx_pos);
    double const M = hx_nonneg("M");
    std::vector<double> x;
    x.push_back(hx_pos("r0"));
    for (int i = 0; i < nr + 2 * ng; ++i) x.push_back(x.back() + (ndim == 1 ? hx_pos(idx("dr", i).c_str()) : (i + 1) / 8.));
    std::vector<double> res[2];
    std::vector<double> cross[2];
    hx_divmode(1);
    hx_mpi_run(P, [&](int rank) {
        Grid g(n, {1, ndim > 1 ? dims[1] : 0, ndim > 2 ? dims[2] : 0}, ng);
        auto lr = v3(g, "rho");
        poison(lr);
        poison(g.dv);
        auto const& r = g.range;
        for (int i = 0; i < nr + ng; ++i)
            for (int j = r.Corner_min[1]; j < r.Corner_max[1]; ++j)
                for (int k = r.Corner_min[2]; k < r.Corner_max[2]; ++k) {
                    lr(i + ng, j - r.Corner_min[1] + g.Nghost[1], k - r.Corner_min[2] + g.Nghost[2]) = rho(i, j, k);
                    g.dv(i + ng, j - r.Corner_min[1] + g.Nghost[1], k - r.Corner_min[2] + g.Nghost[2]) = vol(i, j, k);
                }
        for (int i = 0; i < nr + 2 * ng; ++i) {
            g.x0(i) = x[static_cast<std::size_t>(i)];
            g.x0_center(i) = (x[static_cast<std::size_t>(i)] + x[static_cast<std::size_t>(i) + 1]) / 2;
        }
        g.x0(nr + 2 * ng) = x.back();
        auto const gr = make_internal_mass_gravity(M, g, lr);
        res[rank].clear();
        cross[rank].clear();
        for (int i = 0; i < nr + 2 * ng; ++i) {
            res[rank].push_back(gr(i, 0, 0, 0));
            for (int d = 1; d < ndim; ++d) cross[rank].push_back(gr(i, 0, 0, d));
        }
    });
    double below = M;
    for (int i = 0; i < nr + 2 * ng; ++i) {
        double const a = x[static_cast<std::size_t>(i)], b = x[static_cast<std::size_t>(i) + 1], m = (a + b) / 2;
        double mass = M;
        if (i >= ng) {
            double s = 0, v = 0;
            for (int j = 0; j < ne[1]; ++j)
                for (int k = 0; k < ne[2]; ++k) {
                    s = s + rho(i - ng, j, k) * vol(i - ng, j, k);
                    v = v + vol(i - ng, j, k);
                }
            double const f = 4 * units::pi / 3;
            mass = below + f * (m * m * m - a * a * a) * (s / v);
            below = below + f * (b * b * b - a * a * a) * (s / v);
        }
        for (int r = 0; r < P; ++r)
            hx_assert_eq(res[r][static_cast<std::size_t>(i)] * m * m, -units::G * mass, "the attraction at a radius is that of the mass inside it");
    }
    for (int r = 0; r < P; ++r)
        for (double q : cross[r]) hx_assert_eq(q, 0, "no attraction across the radius");
    hx_reach("end");
}
static int g_dm[3];
static void dh(int* d)
{
    for (int i = 0; i < ndim; ++i) d[i] = g_dm[i];
}
static void ch(int* c)
{
    for (int i = 0; i < 3; ++i) c[i] = 0;
}
void internal_mass_refused()
{
    g_dm[0] = hx_choice("D", 1, 3);
    g_dm[1] = ndim > 1 ? hx_choice("D1", 1, 2) : 1;
    g_dm[2] = 1;
    hx_mpi().dims_hook = dh;
    hx_mpi().coords_hook = ch;
    Grid g(cells(6, 4, 2), {0, 0, 0}, 1);
    sym(g.dv, "dv", hx_pos);
    sym(g.x0_center, "x0c", hx_pos);
    sym(g.x0, "x0", hx_pos);
    auto rho = v3(g, "rho");
    sym(rho, "rho", hx_pos);
    bool thrown = false;
    hx_divmode(1);
    try {
        auto const gr = make_internal_mass_gravity(1, g, rho);
    } catch (std::runtime_error&) {
        thrown = true;
    }
    hx_assert(thrown == (g_dm[0] != 1), "the enclosed mass is refused when the first direction is divided");
    hx_reach("end");
}
// ---- heating
void heating()
{
    Grid g(cells(2, 1, 1), {0, 0, 0}, 1);
    auto rho = v3(g, "rho"), E = v3(g, "E"), E0 = v3(g, "E0");
    auto fx = v4(g, "fx", 2);
    sym(rho, "rho", hx_pos);
    sym(E0, "E0", hx_pos);
    sym(fx, "fx", hx_nonneg);
    Kokkos::deep_copy(E, E0);
    double const t = hx_nonneg("t"), dt = hx_pos("dt");
    auto const step = factory_user_step("Heat_nickel");
    step->execute(g.range.no_ghosts(), t, dt, rho, E, fx);
    // decay chain 56Ni -> 56Co -> 56Fe
    double const tn = 8.8 * 86400, tc = 111.3 * 86400, m = 55.9421278 * 1.66053906660E-27, mev = 1.602176634E-13;
    double const en = std::exp(-t / tn), ec = std::exp(-t / tc);
    double const A = 1.75 * mev / (m * tn), B = 3.73 * mev / (m * (tc - tn));
    for (int i = 0; i < g.Nx_local_wg[0]; ++i)
        for (int j = 0; j < g.Nx_local_wg[1]; ++j)
            for (int k = 0; k < g.Nx_local_wg[2]; ++k) {
                int const x[3] = {i, j, k};
                bool in = true;
                for (int d = 0; d < ndim; ++d) in = in && x[d] >= 1 && x[d] < g.Nx_local_wg[d] - 1;
                if (!in) {
                    hx_assert_eq(E(i, j, k), E0(i, j, k), "heating stays inside the range");
                    continue;
                }
                double const q = rho(i, j, k) * fx(i, j, k, 0) * dt;
                double const got = E(i, j, k) - E0(i, j, k);
                // n = nickel and c = cobalt terms separately non-negative bounds
                double const lo = q * ((A * (1 - 1e-9) - B * (1 + 1e-9)) * en + B * (1 - 1e-9) * ec), hi = q * ((A * (1 + 1e-9) - B * (1 - 1e-9)) * en + B * (1 + 1e-9) * ec);
                hx_assert_le(lo, got, "heating is not less than the decay power of nickel and cobalt");
                hx_assert_le(got, hi, "heating is not more than the decay power of nickel and cobalt");
            }
    hx_reach("end");
}
void no_user_step()
{
    Grid g(cells(2, 1, 1), {0, 0, 0}, 1);
    auto rho = v3(g, "rho"), E = v3(g, "E");
    auto fx = v4(g, "fx", 1);
    sym(rho, "rho");
    sym(E, "E");
    sym(fx, "fx");
    auto r0 = v3(g, "r0"), E0 = v3(g, "E0");
    Kokkos::deep_copy(r0, rho);
    Kokkos::deep_copy(E0, E);
    factory_user_step("Off")->execute(g.range, hx_real("t"), hx_real("dt"), rho, E, fx);
    for (std::size_t i = 0; i < rho.size(); ++i) {
        hx_assert_eq(rho.data()[i], r0.data()[i], "no user step, no change");
        hx_assert_eq(E.data()[i], E0.data()[i], "no user step, no change");
    }
    // any other name is refused
    char nm[13];
    int const n = hx_choice("len", 0, 12);
    for (int i = 0; i < n; ++i) nm[i] = static_cast<char>(hx_byte(idx("name", i).c_str()));
    nm[n] = 0;
    bool const off = n == 3 && nm[0] == 'O' && nm[1] == 'f' && nm[2] == 'f';
    bool heat = n == 11;
    char const* H = "Heat_nickel";
    for (int i = 0; i < 11 && heat; ++i) heat = nm[i] == H[i];
    bool thrown = false;
    try {
        auto const s = factory_user_step(std::string(nm, static_cast<std::size_t>(n)));
        hx_assert((dynamic_cast<HeatNickelStep*>(s.get()) != nullptr) == heat && (dynamic_cast<NoUserStep*>(s.get()) != nullptr) == off, "the step asked for is the one made");
    } catch (std::runtime_error&) {
        thrown = true;
    }
    hx_assert(thrown == !(off || heat), "unknown user steps are refused");
    hx_reach("named");
}
// ---- broadcast
void broadcast_cells()
{
    int const ng = hx_choice("Ng", 0, 2);
    Grid g(cells(2, 2, 2), {0, 0, 0}, ng);
    int const kind = hx_choice("kind", 0, 3), m = 2;
    auto o3 = v3(g, "o3");
    auto o4 = v4(g, "o4", m);
    sym(o3, "old3");
    sym(o4, "old4");
    auto s3 = v3(g, "s3");
    auto s4 = v4(g, "s4", m);
    Kokkos::deep_copy(s3, o3);
    Kokkos::deep_copy(s4, o4);
    double const val = hx_real("value");
    KV_double_1d in("in", static_cast<std::size_t>(g.Nx_local_ng[0]));
    sym(in, "in");
    Range const r = g.range.no_ghosts();
    if (kind == 0) broadcast(r, val, o3);
    if (kind == 1) broadcast(r, val, o4);
    if (kind == 2) broadcast(r, in, o3);
    if (kind == 3) broadcast(r, in, o4);
    for (int i = 0; i < g.Nx_local_wg[0]; ++i)
        for (int j = 0; j < g.Nx_local_wg[1]; ++j)
            for (int k = 0; k < g.Nx_local_wg[2]; ++k) {
                int const x[3] = {i, j, k};
                bool inside = true;
                for (int d = 0; d < 3; ++d) inside = inside && x[d] >= g.Nghost[d] && x[d] < g.Nghost[d] + g.Nx_local_ng[d];
                double const want = !inside ? 0 : (kind < 2 ? val : in(i - g.Nghost[0]));
                hx_assert_eq(o3(i, j, k), inside && (kind == 0 || kind == 2) ? want : s3(i, j, k), "every inner cell gets its value, the others keep theirs");
                for (int c = 0; c < m; ++c)
                    hx_assert_eq(o4(i, j, k, c), inside && (kind == 1 || kind == 3) ? want : s4(i, j, k, c), "every inner cell of every component gets its value, the others keep theirs");
            }
    hx_reach("end");
}
// ---- moving mesh
void shift()
{
    int const D = hx_choice("D", 1, 3), co = hx_choice("r", 0, D - 1), ng = hx_choice("Ng", 1, 2), N = 4, nfx = 2;
    static int s_dims[3], s_co[3];
    s_dims[0] = D;
    s_dims[1] = s_dims[2] = 1;
    s_co[0] = co;
    s_co[1] = s_co[2] = 0;
    hx_mpi().dims_hook = [](int* d) { for (int i = 0; i < ndim; ++i) d[i] = s_dims[i]; };
    hx_mpi().coords_hook = [](int* c) { for (int i = 0; i < 3; ++i) c[i] = s_co[i]; };
    std::array<int, 3> const n = cells(N, 1, 1);
    Grid g(n, {0, 0, 0}, ng);
    KDV_double_1d X[3];
    std::vector<double> old[3];
    for (int d = 0; d < 3; ++d) {
        int const m = n[d] + 2 * (d < ndim ? ng : 0) + 1;
        X[d] = KDV_double_1d("X", m);
        auto const h = X[d](host);
        double x = hx_pos(idx("first", d).c_str());
        for (int i = 0; i < m; ++i) {
            h(i) = x;
            old[d].push_back(x);
            x = x + hx_pos((std::string("d") + std::to_string(d) + std::to_string(i)).c_str());
        }
    }
    if (hx_choice("where", 0, 1)) (void)X[0](device, read_only); // the nodes were last used on the device
    g.set_grid(X[0](device, read_only), X[1](device, read_only), X[2](device, read_only));
    auto rho = v3(g, "rho"), E = v3(g, "E"), rho_n = v3(g, "rho_n"), E_n = v3(g, "E_n");
    auto u = v4(g, "rhou", ndim), u_n = v4(g, "rhou_n", ndim), fx = v4(g, "fx", nfx), fx_n = v4(g, "fx_n", nfx);
    sym(rho, "rho");
    sym(E, "E");
    sym(u, "rhou");
    sym(fx, "fx");
    poison(rho_n);
    poison(E_n);
    poison(u_n);
    poison(fx_n);
    shift_grid(rho, u, E, fx, rho_n, u_n, E_n, fx_n, X[0], X[1], X[2], g);
    for (int i = 0; i + 1 < g.Nx_local_wg[0]; ++i)
        for (int j = 0; j < g.Nx_local_wg[1]; ++j)
            for (int k = 0; k < g.Nx_local_wg[2]; ++k) {
                hx_assert_eq(rho_n(i, j, k), rho(i + 1, j, k), "the density moves one cell inwards");
                hx_assert_eq(E_n(i, j, k), E(i + 1, j, k), "the energy moves one cell inwards");
                for (int c = 0; c < ndim; ++c) hx_assert_eq(u_n(i, j, k, c), u(i + 1, j, k, c), "the momentum moves one cell inwards");
                for (int c = 0; c < nfx; ++c) hx_assert_eq(fx_n(i, j, k, c), fx(i + 1, j, k, c), "the passive scalars move one cell inwards");
            }
    auto const h0 = X[0](host, read_only), h1 = X[1](host, read_only), h2 = X[2](host, read_only);
    std::size_t const m = old[0].size();
    for (std::size_t i = 0; i + 1 < m; ++i) hx_assert_eq(h0(i), old[0][i + 1], "the nodes move one cell outwards");
    double const a = old[0][m - 3], b = old[0][m - 2], c = old[0][m - 1];
    hx_assert_eq((h0(m - 1) - c) * (b - a), (c - b) * (c - b), "the new last cell continues the ratio of the cell sizes");
    hx_assert_lt(c, h0(m - 1), "the nodes stay in increasing order");
    for (std::size_t i = 0; i < old[1].size(); ++i) hx_assert_eq(h1(i), old[1][i], "the other directions do not move");
    for (std::size_t i = 0; i < old[2].size(); ++i) hx_assert_eq(h2(i), old[2][i], "the other directions do not move");
    int const off = g.range.Corner_min[0];
    for (int i = 0; i <= g.Nx_local_wg[0]; ++i) hx_assert_eq(g.x0(i), h0(off + i), "the mesh of the process is the moved one");
    for (int i = 0; i < g.Nx_local_wg[0]; ++i) {
        hx_assert_eq(g.dx0(i), h0(off + i + 1) - h0(off + i), "the cell sizes are those of the moved mesh");
        hx_assert_eq(2 * g.x0_center(i), h0(off + i + 1) + h0(off + i), "the cell centres are those of the moved mesh");
    }
    hx_reach("end");
}
// ---- pressure fix
void pfix()
{
    Grid g = line(0, 1, 1);
    sym(g.ds, "ds", hx_pos);
    sym(g.dv, "dv", hx_pos);
    auto rho = v3(g, "rho"), E = v3(g, "E"), rn = v3(g, "rho_new"), En = v3(g, "E_new"), En0 = v3(g, "E_new0");
    auto u = v4(g, "rhou", ndim), un = v4(g, "rhou_new", ndim);
    auto rr = v5(g, "rho_rec"), Er = v5(g, "E_rec");
    auto ur = v6(g, "rhou_rec", ndim);
    sym(rho, "rho", hx_pos);
    sym(E, "E", hx_pos);
    sym(u, "rhou");
    sym(rn, "rho_new", hx_pos);
    sym(En0, "E_new", hx_pos);
    sym(un, "rhou_new");
    sym(rr, "rho_rec", hx_pos);
    sym(Er, "E_rec", hx_pos);
    sym(ur, "rhou_rec");
    if (ndim > 1) {
        // both sides of a face move the same way, in all combinations (in 1D they are arbitrary)
        int const x[3] = {g.Nghost[0], g.Nghost[1], g.Nghost[2]};
        for (int d = 0; d < ndim; ++d) {
            int lo[3] = {x[0], x[1], x[2]}, hi[3] = {x[0], x[1], x[2]};
            lo[d] -= 1;
            hi[d] += 1;
            int const sl = hx_choice(idx("left", d).c_str(), 0, 1) ? -1 : 1, sh = hx_choice(idx("right", d).c_str(), 0, 1) ? -1 : 1;
            ur(lo[0], lo[1], lo[2], 1, d, d) = sl * hx_pos(idx("ul-", d).c_str());
            ur(x[0], x[1], x[2], 0, d, d) = sl * hx_pos(idx("ul+", d).c_str());
            ur(x[0], x[1], x[2], 1, d, d) = sh * hx_pos(idx("uh-", d).c_str());
            ur(hi[0], hi[1], hi[2], 0, d, d) = sh * hx_pos(idx("uh+", d).c_str());
        }
    }
    Kokkos::deep_copy(En, En0);
    double const dt = hx_pos("dt"), eps = hx_pos("eps");
    hx_divmode(1);
    pressure_fix(g.range.no_ghosts(), UFEos(), g, dt, eps, rho, u, E, rr, ur, Er, rn, un, En);
    int const c[3] = {g.Nghost[0], g.Nghost[1], g.Nghost[2]};
    auto kin = [&](KV_double_3d const& r, KV_double_4d const& m, int const* x) {
        double s = 0;
        for (int d = 0; d < ndim; ++d) s = s + m(x[0], x[1], x[2], d) * m(x[0], x[1], x[2], d);
        return s / (2 * r(x[0], x[1], x[2]));
    };
    double const ek = kin(rho, u, c), e = E(c[0], c[1], c[2]) - ek, ekn = kin(rn, un, c), en = En0(c[0], c[1], c[2]) - ekn;
    double const got = En(c[0], c[1], c[2]);
    for (int i = 0; i < g.Nx_local_wg[0]; ++i)
        for (int j = 0; j < g.Nx_local_wg[1]; ++j)
            for (int k = 0; k < g.Nx_local_wg[2]; ++k)
                if (i != c[0] || j != c[1] || k != c[2]) hx_assert_eq(En(i, j, k), En0(i, j, k), "only cells of the range change");
    if (!(e < eps * ek)) {
        hx_assert_eq(got, En0(c[0], c[1], c[2]), "cells whose internal energy is not small are left alone");
        hx_reach("unchanged");
        return;
    }
    // non-conservative internal energy equation with face-averaged velocities, upwind internal energy
    double const p = UFEos().compute_pres_from_evol(rho(c[0], c[1], c[2]), e), V = g.dv(c[0], c[1], c[2]);
    double de = 0;
    for (int d = 0; d < ndim; ++d) {
        int lo[3] = {c[0], c[1], c[2]}, hi[3] = {c[0], c[1], c[2]};
        lo[d] -= 1;
        hi[d] += 1;
        auto vel = [&](int const* x, int side) { return ur(x[0], x[1], x[2], side, d, d) / rr(x[0], x[1], x[2], side, d); };
        double const ul = (vel(lo, 1) + vel(c, 0)) / 2, uh = (vel(c, 1) + vel(hi, 0)) / 2;
        double const el = ul < 0 ? e : E(lo[0], lo[1], lo[2]) - kin(rho, u, lo);
        double const eh = uh > 0 ? e : E(hi[0], hi[1], hi[2]) - kin(rho, u, hi);
        double const Sl = g.ds(c[0], c[1], c[2], d), Sh = g.ds(hi[0], hi[1], hi[2], d);
        de = de - dt / V * (p * (uh * Sh - ul * Sl) + (uh * eh * Sh - ul * el * Sl));
    }
    double const q = e / (eps * ek);
    double const a = e < eps / 10 * ek ? 0 : q * q;
    hx_assert_eq(got, ekn + e + a * (en - e) + (1 - a) * de, "internal energy blended between the conservative and the non-conservative update, kinetic energy of the updated state");
    hx_reach("end");
}
// the correction fades in: at the threshold it changes nothing
void pfix_continuous()
{
    Grid g = line(0, 1, 1);
    sym(g.ds, "ds", hx_pos);
    sym(g.dv, "dv", hx_pos);
    auto rho = v3(g, "rho"), E = v3(g, "E"), rn = v3(g, "rho_new"), En = v3(g, "E_new"), En0 = v3(g, "E_new0");
    auto u = v4(g, "rhou", ndim), un = v4(g, "rhou_new", ndim);
    auto rr = v5(g, "rho_rec"), Er = v5(g, "E_rec");
    auto ur = v6(g, "rhou_rec", ndim);
    sym(rho, "rho", hx_pos);
    sym(E, "E", hx_pos);
    sym(u, "rhou");
    sym(rn, "rho_new", hx_pos);
    sym(En0, "E_new", hx_pos);
    sym(un, "rhou_new");
    // fluid at rest at the faces: the non-conservative change vanishes
    sym(rr, "rho_rec", hx_pos);
    sym(Er, "E_rec", hx_pos);
    put(ur, 0);
    Kokkos::deep_copy(En, En0);
    double const dt = hx_pos("dt"), eps = hx_pos("eps");
    hx_divmode(1);
    int const c[3] = {g.Nghost[0], g.Nghost[1], g.Nghost[2]};
    double k = 0, kn = 0;
    for (int d = 0; d < ndim; ++d) {
        k = k + u(c[0], c[1], c[2], d) * u(c[0], c[1], c[2], d) / (2 * rho(c[0], c[1], c[2]));
        kn = kn + un(c[0], c[1], c[2], d) * un(c[0], c[1], c[2], d) / (2 * rn(c[0], c[1], c[2]));
    }
    double const e = hx_pos("evol");
    E(c[0], c[1], c[2]) = k + e;
    pressure_fix(g.range.no_ghosts(), UFEos(), g, dt, eps, rho, u, E, rr, ur, Er, rn, un, En);
    double const en = En0(c[0], c[1], c[2]) - kn, got = En(c[0], c[1], c[2]) - kn;
    // the corrected internal energy lies between the old and the conservatively updated one
    hx_assert(en < e ? (got >= en && got <= e) : (got >= e && got <= en), "fluid at rest: the corrected internal energy lies between the old and the new one");
    hx_reach("end");
}
}
