// Initial states and boundary conditions of the test problems (src/setups)
#include <kit.hpp>
#include <array>
#include <numeric>
#include <random>
#include <stdexcept>
#include <string>
#include <utility>
#include <eos.hpp>
#include <units.hpp>
#include <values.hpp>
#include <initialization_interface.cpp>
#include <shift_criterion_interface.cpp>
#include <grid_type.cpp>
#include <user_step.cpp>
#include <boundary.cpp>
// the numbers a process draws are any, and differ from those of another process
static double drawn[2][4];
static unsigned hx_drawn = 0;
namespace std {
void random_device::_M_init(std::string const&) { hx_drawn = 0; }
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { return 12345u; }
template <>
double generate_canonical<double, 53, random_device>(random_device&)
{
    return drawn[hx_mpi().rank][hx_drawn++ % 4];
}
}
#include <setup.hpp>

static double const pi = Kokkos::numbers::pi, k_b = 1.380649e-23, m_p = 1.672649e-27, G_n = 6.6743015e-11;
struct State { double rho, u[3], P, fx; };
struct Cell { double x[3], dv, r[3], dv_first; int i[3], n[3], ng; double g[3]; }; // centre, volume, lower nodes, volume of the first cell, place in the whole mesh (with ghosts), inner cells, gravity
static double gamma_, mu_;
static std::array<double, 10> par; // the parameters of the setup
static State all(double rho, double u, double P, double fx = 0)
{
    State s {rho, {u, u, u}, P, fx};
    return s;
}
#if defined(S_advection_gap)
static char const* const names[] = {"rho0", "rho1", "u0", "P0"};
static State at(Cell const& c) { return all((c.x[0] > 0.3) & (c.x[0] < 0.7) ? par[1] : par[0], par[2], par[3]); }
#elif defined(S_advection_sinus)
static char const* const names[] = {"u0", "P0"};
static State at(Cell const& c) { return all(1 + 0.1 * Kokkos::sin(2 * pi * c.x[0]), par[0], par[1]); }
#elif defined(S_eq_hydro_sphe)
#define BOUNDARY
static char const* const names[] = {"rho0", "u0", "T0", "M"};
static State at(Cell const& c)
{ // isothermal gas around a point mass: log(rho / rho0) = G M mu mp / (kb T r)
    double const rho = par[0] * Kokkos::exp(par[3] * G_n * mu_ * m_p / (k_b * par[2] * c.x[0]));
    return all(rho, par[1], rho * k_b * par[2] / (mu_ * m_p));
}
#elif defined(S_gresho_vortex)
static char const* const names[] = {"rho0", "u0", "Ma"};
static State at(Cell const& c)
{
    double const r = Kokkos::sqrt(c.x[0] * c.x[0] + c.x[1] * c.x[1]), a = Kokkos::atan2(c.x[1], c.x[0]), P0 = 1 / (gamma_ * par[2] * par[2]);
    double const v = r < 0.2 ? 5 * r : 2 - 5 * r;
    State s {par[0], {-v * Kokkos::sin(a), v * Kokkos::cos(a), 0}, P0 + 12.5 * r * r, 0};
    if (r >= 0.4) return all(par[0], par[1], P0 - 2 + 4 * Kokkos::numbers::ln2);
    if (r >= 0.2) s.P = s.P + 4 - 20 * r + 4 * Kokkos::log(5 * r);
    return s;
}
#elif defined(S_heat_nickel)
#define NFX 1
static char const* const names[] = {"rho0", "u0", "T0", "fx0"};
static State at(Cell const&) { return all(par[0], par[1], par[0] * k_b * par[2] / (mu_ * m_p), par[3]); }
#elif defined(S_implosion_test)
static char const* const names[] = {"rho0", "rho1", "u0", "P0", "P1"};
static State at(Cell const& c)
{
    bool const outside = c.x[0] + c.x[1] > 0.15;
    return all(par[outside ? 0 : 1], par[2], par[outside ? 3 : 4]);
}
#elif defined(S_kelvin_helmholtz)
static char const* const names[] = {"P0"};
static State at(Cell const& c)
{
    double const y = c.x[1], j = Kokkos::tanh((y - 0.5) / 0.05) - Kokkos::tanh((y - 1.5) / 0.05);
    auto const bump = [&](double y0) { return Kokkos::exp(-(y - y0) * (y - y0) / (0.2 * 0.2)); };
    return {1 + j, {j, 0.01 * Kokkos::sin(pi * c.x[0]) * (bump(0.5) + bump(1.5)), 0}, par[0], 0};
}
#elif defined(S_rayleigh_taylor)
#define NFX 1
static char const* const names[] = {"rho0", "rho1", "u", "A", "fx0", "fx1"};
static State at(Cell const& c)
{
    double const w = (1 + Kokkos::tanh((c.x[1] - 0.01 * Kokkos::cos(4 * pi * c.x[0])) / 0.005)) / 2;
    return all(w * par[0] + (1 - w) * par[1], par[2], 10. / 7 + 0.25 - par[0] * Kokkos::abs(c.g[1]) * c.x[1], w * par[4] + (1 - w) * par[5]);
}
#elif defined(S_rayleigh_taylor3d)
#define NFX 1
static char const* const names[] = {"rho0", "rho1", "u0", "P0"};
static double rnd[4];
static State at(Cell const& c)
{
    double const L = 10, g = Kokkos::abs(c.g[2]), P0 = 2 * pi * (par[0] + par[1]) * g * L, X = 2 * pi * c.r[0] / L, Y = 2 * pi * c.r[1] / L, z = c.r[2];
    double h = 0;
    for (int k = 0; k < 5; ++k)
        for (int l = 0; l < 5; ++l)
            if (k * k + l * l >= 8 && k * k + l * l <= 16)
                h += rnd[0] * Kokkos::cos(k * X) * Kokkos::cos(l * Y) + rnd[1] * Kokkos::cos(k * X) * Kokkos::sin(l * Y) + rnd[2] * Kokkos::sin(k * X) * Kokkos::cos(l * Y) + rnd[3] * Kokkos::sin(k * X) * Kokkos::sin(l * Y);
    bool const up = z >= h;
    double const r = par[up ? 0 : 1], gam = 5. / 3, f = Kokkos::pow(1 - (gam - 1) / gam * (r * g * z) / P0, 1. / (gam - 1));
    return all(r * f, par[2], P0 * Kokkos::pow((r * f) / r, gam), up);
}
#elif defined(S_sedov1d)
static char const* const names[] = {"rho0", "u0", "E0", "E1"};
static State at(Cell const& c)
{ // the energy of the explosion is in the first cell; half of it if the other half is on the other side of the wall
    double const e = c.i[0] == c.ng ? (geom == Geometry::Geom_spherical ? 1 : 0.5) * par[3] : par[2];
    return all(par[0], par[1], (gamma_ - 1) * e / c.dv_first);
}
#elif defined(S_sedov2d)
static char const* const names[] = {"rho0", "u0", "P0", "E0", "E1"};
static State at(Cell const& c)
{
    bool const in = Kokkos::sqrt(c.r[0] * c.r[0] + c.r[1] * c.r[1]) < 0.025;
    return all(par[0], par[1], (gamma_ - 1) * par[in ? 4 : 3] / c.dv);
}
#elif defined(S_sedov3d)
static char const* const names[] = {"rho0", "P0", "E1"};
static State at(Cell const& c)
{
    bool const in = (c.r[0] == 1) & (c.i[1] - c.ng == c.n[1] / 2) & (c.i[2] - c.ng == c.n[2] / 2);
    return all(par[0], 0, in ? (gamma_ - 1) * par[2] / c.dv : par[1]);
}
#elif defined(S_shock_tube)
static char const* const names[] = {"rho0", "rho1", "u0", "u1", "P0", "P1", "inter"};
static State at(Cell const& c)
{
    bool const right = c.x[0] > par[6];
    return all(par[right ? 1 : 0], par[right ? 3 : 2], par[right ? 5 : 4]);
}
#elif defined(S_shock_wall)
static char const* const names[] = {"rho0", "u0", "P0"};
static State at(Cell const&) { return all(par[0], par[1], par[2]); }
#elif defined(S_stratified_atm)
#define BOUNDARY
static char const* const names[] = {"rho0", "u0", "T0"};
static State at(Cell const& c)
{ // isothermal gas: log(rho / rho0) = -mu mp |g| x / (kb T)
    double const rho = par[0] * Kokkos::exp(-c.x[0] * (mu_ * m_p * Kokkos::abs(c.g[0])) / (k_b * par[2]));
    return all(rho, par[1], rho * k_b * par[2] / (mu_ * m_p));
}
#endif
#if defined(S_gresho_vortex) || defined(S_rayleigh_taylor3d) || defined(S_sedov2d)
#define LESS 1 // every cell of the mesh is on either side of the interface
#else
#define LESS 2
#endif
#ifndef NFX
#define NFX 0
#endif
struct FieldGravity
{ // an arbitrary field that points downwards, a function of the place
    auto operator()(int, int, int, int d) const noexcept -> double { return -g[d]; }
    double g[3];
};
static std::string text(bool rest, bool empty)
{
    if (empty) { // what a parameter is that the file does not give
        for (std::size_t i = 0; i < sizeof(names) / sizeof(names[0]); ++i) par[i] = 1;
#ifdef S_eq_hydro_sphe
        par[2] = 100;
#endif
        return "";
    }
    std::string s = "[Initialisation]\n", g;
    for (std::size_t i = 0; i < sizeof(names) / sizeof(names[0]); ++i) {
        std::string const n = names[i];
        par[i] = rest && n == "u0" ? 0 : n[0] == 'u' || n.substr(0, 2) == "fx" || n == "inter" ? hx_real(names[i]) : hx_pos(names[i]);
        std::string const e = n + " = " + num(par[i]) + "\n";
        if (n == "M") g = "[Gravity]\n" + e;
        else s += e;
    }
    return s + g;
}
static void nodes(KV_double_1d const& x, char const* n, bool positive)
{
    double a = positive ? hx_pos(n) : hx_real(n);
    for (std::size_t i = 0; i < x.size(); ++i) {
        x(i) = a;
        a = a + hx_pos((std::string(n) + std::to_string(i)).c_str());
    }
}
// the whole mesh cut among dims processes; on the ghost layers of the faces if they are asked for
static void start(std::array<int, 3> n, std::array<int, 3> dims, int face, bool empty = false)
{
    int const ng = hx_choice("ghost layers", 2, face < 0 ? 3 : 2);
    bool const sph = geom == Geometry::Geom_spherical;
#ifdef S_eq_hydro_sphe
    bool const positive = true;
#else
    bool const positive = sph;
#endif
    hx_divmode(1);
    std::string const t = text(face >= 0, empty);
    gamma_ = 1 + hx_pos("gamma - 1");
    mu_ = hx_pos("mu");
    FieldGravity g;
    for (int d = 0; d < 3; ++d) g.g[d] = hx_pos(idx("gravity", d).c_str());
    KV_double_1d X[3];
    char const* xs[3] = {"X", "Y", "Z"};
    for (int d = 0; d < 3; ++d) {
        X[d] = KV_double_1d(xs[d], static_cast<std::size_t>(n[d] + 2 * (d < ndim ? ng : 0) + 1));
        nodes(X[d], xs[d], d == 0 && positive);
    }
    EOS const eos(gamma_, mu_);
    hx_file("params.ini", t.data(), t.size());
#ifdef S_rayleigh_taylor3d
    for (int r = 0; r < 2; ++r)
        for (int i = 0; i < 4; ++i) drawn[r][i] = hx_real_in("drawn", 0, 1);
    for (int i = 0; i < 4; ++i) rnd[i] = -1 + 2 * drawn[0][i];
#endif
    auto const body = [&](int) {
        INIReader const reader("params.ini");
        ParamSetup const ps(reader);
        std::array<int, 3> dd = dims;
        Grid grid(n, dd, ng);
        grid.set_grid(X[0], X[1], X[2]);
        KV_double_3d const rho = v3(grid, "rho"), P = v3(grid, "P");
        KV_double_4d const u = v4(grid, "u", ndim), fx = v4(grid, "fx", NFX);
        poison(rho);
        poison(P);
        poison(u);
        poison(fx);
        auto const inner = cell_range(grid.range.no_ghosts());
        Ext const e = ext(grid);
        if (face < 0) InitializationSetup<FieldGravity>(eos, ps, g).execute(grid.range.no_ghosts(), grid, rho, u, P, fx);
#ifdef BOUNDARY
        else BoundarySetup<FieldGravity>(face / 2, face % 2, eos, ps).execute(grid, g, rho, u, P, fx);
#endif
        for (int i = 0; i < e.n[0]; ++i)
            for (int j = 0; j < e.n[1]; ++j)
                for (int k = 0; k < e.n[2]; ++k) {
                    int const l[3] = {i, j, k};
                    bool in = true;
                    for (int d = 0; d < 3; ++d) {
                        int const lo = inner[0][d], hi = inner[1][d];
                        if (face < 0) in = in && l[d] >= lo && l[d] < hi;
                        else if (d == face / 2) in = in && (face % 2 ? l[d] >= hi : l[d] < lo);
                    }
                    if (!in) {
                        bool untouched = hx_is_undef(&rho(i, j, k)) && hx_is_undef(&P(i, j, k));
                        for (int d = 0; d < ndim; ++d) untouched = untouched && hx_is_undef(&u(i, j, k, d));
                        hx_assert(untouched || !hx_symbolic(), "other cells are left alone");
                        continue;
                    }
                    Cell c;
                    KV_double_1d const lx[3] = {grid.x0, grid.x1, grid.x2};
                    for (int d = 0; d < 3; ++d) {
                        c.i[d] = l[d] + grid.range.Corner_min[d];
                        c.n[d] = n[d];
                        c.r[d] = X[d](c.i[d]);
                        c.x[d] = (X[d](c.i[d]) + X[d](c.i[d] + 1)) / 2;
                        c.g[d] = -g.g[d];
                    }
                    c.ng = ng;
                    c.dv = grid.dv(i, j, k);
#ifdef S_sedov1d
                    double const a = X[0](ng), b = X[0](ng + 1);
                    c.dv_first = sph ? 4 * pi * (b * b * b - a * a * a) / 3 : (b - a) * (X[1](1) - X[1](0)) * (X[2](1) - X[2](0));
#endif
                    State const s = at(c);
                    if (face < 0) {
                        hx_assert_eq(rho(i, j, k), s.rho, "density of the initial state");
                        hx_assert_eq(P(i, j, k), s.P, "pressure of the initial state");
                        for (int d = 0; d < ndim; ++d) hx_assert_eq(u(i, j, k, d), s.u[d], "velocity of the initial state");
                        for (int f = 0; f < NFX; ++f) hx_assert_eq(fx(i, j, k, f), s.fx, "passive scalar of the initial state");
                    } else {
                        hx_assert_eq(rho(i, j, k), s.rho, "the density of the profile goes on in the ghost cells");
                        hx_assert_eq(P(i, j, k), s.P / (gamma_ - 1), "the energy of the profile goes on in the ghost cells");
                        for (int d = 0; d < ndim; ++d) hx_assert_eq(u(i, j, k, d), 0, "the gas is at rest in the ghost cells");
                    }
                }
    };
    int const np = dims[0] * dims[1] * dims[2];
    if (np == 1) {
        hx_mpi().reset(1, 0);
        body(0);
    } else hx_mpi_run(np, body);
    hx_reach("end");
}
extern "C" {
void state_alone() { start({LESS, ndim > 1 ? LESS : 1, ndim > 2 ? LESS : 1}, {1, 1, 1}, -1); }
void state_cut()
{
    int const d = hx_choice("direction", 0, ndim - 1);
    std::array<int, 3> n {LESS, 1, 1}, dims {1, 1, 1};
    for (int e = 1; e < ndim; ++e) n[e] = LESS;
    n[d] = 2 * LESS;
    dims[d] = 2;
    start(n, dims, -1);
}
void defaults() { start({LESS, 1, 1}, {1, 1, 1}, -1, true); }
#ifdef BOUNDARY
void faces() { start({2, 1, ndim == 3 ? 2 : 1}, {1, 1, 1}, hx_choice("face", 0, 2 * ndim - 1)); }
#endif
// what a problem does not provide is refused
void not_provided()
{
    hx_file("params.ini", "", 0);
    INIReader const reader("params.ini");
    ParamSetup const ps(reader);
    Grid grid({1, 1, 1}, {1, 1, 1}, 2);
    KV_double_3d const rho = v3(grid, "rho"), E = v3(grid, "E");
    KV_double_4d const u = v4(grid, "u", ndim), fx = v4(grid, "fx", 0);
    for (int w = 0; w < 4; ++w) {
        bool thrown = false;
        try {
            if (w == 0) BoundarySetup<FieldGravity>(0, 0, EOS(1.5, 1), ps).execute(grid, FieldGravity {}, rho, u, E, fx);
            if (w == 1) UserStep().execute(grid.range.no_ghosts(), 0, 1, rho, E, fx);
            if (w == 2) static_cast<void>(UserShiftCriterion(ps).execute(grid.range.no_ghosts(), grid, rho, u, E, fx));
            if (w == 3) GridSetup(Param(reader)).execute(grid.Nghost, grid.Nx_glob_ng, KVH_double_1d("a", 6), KVH_double_1d("b", 2), KVH_double_1d("c", 2));
        } catch (std::exception const&) {
            thrown = true;
        }
        hx_assert(thrown, "refused");
    }
    hx_reach("end");
}
// a geometry for which there is no such problem
void no_such_problem()
{
    hx_file("params.ini", "", 0);
    INIReader const reader("params.ini");
    ParamSetup const ps(reader);
    Grid grid({1, 1, 1}, {1, 1, 1}, 2);
    bool thrown = false;
    try {
        InitializationSetup<FieldGravity>(EOS(1.5, 1), ps, FieldGravity {}).execute(grid.range.no_ghosts(), grid, v3(grid, "rho"), v4(grid, "u", ndim), v3(grid, "P"), v4(grid, "fx", NFX));
    } catch (std::exception const&) {
        thrown = true;
    }
    hx_assert(thrown, "refused");
    hx_reach("end");
}
}
