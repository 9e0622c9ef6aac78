COMMON = r'''
#include <mpi.h>
#include <Kokkos_Core.hpp>
#include <kokkos_shortcut.hpp>
#include <geom.hpp>
#include <ndim.hpp>
#include <range.hpp>
#include <grid.hpp>
#include <range.cpp>
#include <geometry.cpp>
#include <geometry_factory.cpp>
#include <grid.cpp>
#include <perfect_gas.cpp>
using namespace hclpp;
using PG = thermodynamics::PerfectGas;
[[maybe_unused]] static void nodes(Grid& g, double a, double step)
{
    KV_double_1d x[3] = {KV_double_1d("a", g.Nx_glob_ng[0] + 2 * g.Nghost[0] + 1), KV_double_1d("b", g.Nx_glob_ng[1] + 2 * g.Nghost[1] + 1), KV_double_1d("c", g.Nx_glob_ng[2] + 2 * g.Nghost[2] + 1)};
    for (int d = 0; d < 3; ++d)
        for (std::size_t i = 0; i < x[d].size(); ++i) x[d](i) = a + step * (double(i) - g.Nghost[d]);
    g.set_grid(x[0], x[1], x[2]);
}
[[maybe_unused]] static KV_double_3d f3(Grid const& g) { return KV_double_3d("f", g.Nx_local_wg[0], g.Nx_local_wg[1], g.Nx_local_wg[2]); }
[[maybe_unused]] static KV_double_4d f4(Grid const& g, int m) { return KV_double_4d("f", g.Nx_local_wg[0], g.Nx_local_wg[1], g.Nx_local_wg[2], m); }
[[maybe_unused]] static KV_double_5d f5(Grid const& g) { return KV_double_5d("f", g.Nx_local_wg[0], g.Nx_local_wg[1], g.Nx_local_wg[2], 2, ndim); }
[[maybe_unused]] static KV_double_6d f6(Grid const& g, int m) { return KV_double_6d("f", g.Nx_local_wg[0], g.Nx_local_wg[1], g.Nx_local_wg[2], 2, ndim, m); }
'''
INI = r'''
#include <inih/INIReader.hpp>
#include "vendor/inih/src/INIReader.cpp"
static void write(char const* name, std::string const& text) { std::ofstream(name) << text; }
'''
APPFLAGS = "-DMY_SETUP='\"setup\"' -DHERACLESPP_GRAVITY_Uniform"
APP = r'''
extern "C" void hx_fail(char const* m) { std::printf("%s\n", m); std::abort(); }
extern "C" int hx_choice(char const*, int, int hi) { return hi; }
#include <mpi.h>
#include <Kokkos_Core.hpp>
#include <kokkos_shortcut.hpp>
#include <array>
#include <filesystem>
#include <functional>
#include <iomanip>
#include <memory>
#include <geom.hpp>
#include <ndim.hpp>
#include <range.hpp>
#include <grid.hpp>
#include <range.cpp>
#include <geometry.cpp>
#include <geometry_factory.cpp>
#include <grid.cpp>
#include <perfect_gas.cpp>
#include <param.cpp>
#include <inih/INIReader.hpp>
#include "vendor/inih/src/INIReader.cpp"
#include <grid_type.cpp>
#include <grid_factory.cpp>
#include <face_reconstruction.cpp>
#include <boundary.cpp>
#include <boundary_distribute.cpp>
#include <gravity.cpp>
#include <integration.cpp>
#include <internal_energy.cpp>
#include <moving_grid.cpp>
#include <user_step.cpp>
#include <user_step_factory.cpp>
#include <initialization_interface.cpp>
#include <shift_criterion_interface.cpp>
#include <broadcast.cpp>
#include <mpi_scope_guard.cpp>
#include <io.cpp>
#include <config.yaml.cpp>
namespace hclpp {
std::string_view const git_build_string("v1"), git_branch("main"), compile_date("2026-01-01"), compile_time("12:34:56");
}
#define main hx_app_main
#include <main.cpp>
#undef main
using namespace hclpp;
static void write(std::string const& name, std::string const& text) { std::ofstream(name) << text; }
static int app(std::string const& name)
{
    std::string a0 = "heraclespp", a1 = name;
    char* argv[] = {a0.data(), a1.data(), nullptr};
    std::cout.setstate(std::ios::failbit);
    int const r = ::hx_app_main(2, argv);
    std::cout.clear();
    return r;
}
static HxH5File* file(std::string const& n)
{
    HxH5File* f = hx_h5().find(n);
    if (!f) { std::printf("no file %s, there are", n.c_str()); for (auto* x : hx_h5().files) std::printf(" %s", x->name.c_str()); std::printf("\n"); std::exit(1); }
    return f;
}
static double value(std::string const& f, std::string const& d, std::size_t i = 0)
{
    HxH5Dset* x = file(f)->find(d);
    if (!x || i >= (x->kind == 'd' ? x->d.size() : x->i.size())) { std::printf("no %s in %s\n", d.c_str(), f.c_str()); std::exit(1); }
    return x->kind == 'd' ? x->d[i] : x->i[i];
}
'''
SEEDS = [
 dict(id="C01-blank-line-underflow", property="C01",
  edits=[("vendor/inih/src/ini.c", "    while (p > s && isspace((unsigned char)(*--p)))\n        *p = '\\0';", "    while (isspace((unsigned char)(*--p)))\n        *p = '\\0';")],
  needs="a line made of blanks only, with a blank byte before the line buffer on the stack; the read before the buffer happens for every blank line",
  breaks="the parser reads (and may write) before the start of its line buffer on blank lines",
  cflags="-fsanitize=address", flags="-fsanitize=address", c=["vendor/inih/src/ini.c"],
  demo=INI + r'''
int main()
{
    write("p.ini", "[a]\n\n  \nx = 1\n");
    INIReader r("p.ini");
    ok(r.Get("a", "x", "") == "1", "value");
    return bad;
}
'''),
 dict(id="C03-section-case", property="C03",
  edits=[("vendor/inih/src/INIReader.cpp", "    std::transform(key.begin(), key.end(), key.begin(), ::tolower);", "    std::transform(key.begin() + section.size(), key.end(), key.begin() + section.size(), ::tolower);")],
  needs="a section heading written in another case than the code asks for",
  breaks="sections are no longer found whatever their case: the entry is silently replaced by the default",
  c=["vendor/inih/src/ini.c"],
  demo=INI + r'''
int main()
{
    write("p.ini", "[RUN]\nT_End = 3\n");
    INIReader r("p.ini");
    eq(r.GetReal("Run", "t_end", 1.), 3, "t_end");
    eq(r.GetReal("run", "T_END", 1.), 3, "t_end");
    ok(r.Get("other", "t_end", "none") == "none", "other section");
    return bad;
}
'''),
 dict(id="C04-unsigned-wraps", property="C04",
  edits=[("vendor/inih/src/INIReader.cpp", "    if (result > std::numeric_limits<unsigned>::max())\n", "    if (static_cast<unsigned>(result) > std::numeric_limits<unsigned>::max())\n")],
  needs="an unsigned entry of 2^32 or more",
  breaks="a number the type cannot hold is no longer refused: it wraps around",
  c=["vendor/inih/src/ini.c"],
  demo=INI + r'''
int main()
{
    write("p.ini", "[a]\nx = 4294967297\ny = 4294967295\n");
    INIReader r("p.ini");
    ok(r.GetInteger("a", "y", 7U) == 4294967295U, "largest value");
    bool refused = false;
    try { (void)r.GetInteger("a", "x", 7U); } catch (std::exception&) { refused = true; }
    ok(refused, "too large a number is refused");
    return bad;
}
'''),
 dict(id="C05-first-output", property="C05",
  edits=[("src/utils/param.cpp", '"time_first_output", t_ini + time_output_frequency)', '"time_first_output", time_output_frequency)')],
  needs="a start time other than zero and no time_first_output in the file",
  breaks="the default of the first output time ignores the start time",
  c=["vendor/inih/src/ini.c"],
  demo=INI + r'''
#include <param.cpp>
int main()
{
    write("p.ini", "[Run]\nt_ini = 2\n[Output]\ntime_frequency = 0.5\n[Grid]\nNx_glob0 = 4\nNx_glob1 = 4\nNx_glob2 = 4\n");
    INIReader r("p.ini");
    hclpp::Param p(r);
    eq(p.time_first_output, 2.5, "first output");
    eq(p.t_ini, 2, "start");
    return bad;
}
'''),
 dict(id="C14-hllc-tangential", property="C14",
  edits=[("src/hydro/riemann_solver.hpp", "flux.rhou[idim] = rho_star * ustar * prim_state.u[idim];", "flux.rhou[idim] = rho_star * ustar * primL.u[idim];")],
  needs="a subsonic contact moving to the left and different tangential velocities on its two sides",
  breaks="the tangential momentum is not taken from the upwind side of the contact",
  demo=COMMON + r'''
#include <concepts.hpp>
#include <euler_equations.hpp>
#include <riemann_solver.hpp>
static EulerCons state(double r, double u, double v, double w, double p, PG const& eos)
{
    EulerPrim q;
    q.rho = r; q.P = p; q.u[0] = u; q.u[1] = v; q.u[2] = w;
    return to_cons(q, eos);
}
int main()
{
    PG eos(1.4, 1.);
    for (double u : {0.3, -0.3}) {
        EulerCons L = state(1, u, 2, -1, 1, eos), R = state(0.5, u, -3, 4, 1, eos);
        EulerFlux f = HLLC()(L, R, 0, eos);
        double r = u > 0 ? 1 : 0.5, v = u > 0 ? 2 : -3, w = u > 0 ? -1 : 4;
        eq(f.rho, r * u, "mass");
        eq(f.rhou[0], r * u * u + 1, "normal momentum");
        eq(f.rhou[1], r * u * v, "tangential momentum");
        eq(f.rhou[2], r * u * w, "tangential momentum");
    }
    return bad;
}
'''),
 dict(id="C23-horizontal-reduction", property="C23",
  edits=[("src/hydro/time_step.hpp", "MPI_Allreduce(MPI_IN_PLACE, &inverse_dt, 1, MPI_DOUBLE, MPI_MAX, grid.comm_cart);", "MPI_Allreduce(MPI_IN_PLACE, &inverse_dt, 1, MPI_DOUBLE, MPI_MAX, grid.comm_cart_horizontal);")],
  needs="at least two processes along the first direction, with the fastest cell on another one",
  breaks="processes along the first direction use different time steps, and most of them one that is too large",
  demo=COMMON + r'''
#include <concepts.hpp>
#include <euler_equations.hpp>
#include <time_step.hpp>
int main()
{
    PG eos(1.4, 1.);
    double dt[2] = {0, 0};
    hx_mpi_run(2, [&](int r) {
        Grid g({4, 2, 2}, {2, 1, 1}, 2);
        nodes(g, 0, 0.1);
        auto rho = f3(g), P = f3(g);
        auto u = f4(g, ndim);
        Kokkos::deep_copy(rho, 1.);
        Kokkos::deep_copy(P, 1.);
        Kokkos::deep_copy(u, r == 1 ? 5. : 0.);
        dt[r] = time_step(g.range.no_ghosts(), eos, g, rho, u, P);
    });
    double const want = 0.1 / (3 * (5 + std::sqrt(1.4)));
    eq(dt[0], want, "time step of process 0");
    eq(dt[1], want, "time step of process 1");
    return bad;
}
'''),
 dict(id="C26-three-processes", property="C26",
  edits=[("src/boundary_distribute.cpp", "MPI_Cart_shift(grid.comm_cart, bc_idim, bc_iface == 0 ? -1 : 1, &src, &dst);", "MPI_Cart_shift(grid.comm_cart, bc_idim, 1, &src, &dst);")],
  needs="three or more processes along one direction (with one or two both neighbours are the same process)",
  breaks="the left and right neighbours are confused, ghost cells come from the wrong process",
  c=["vendor/inih/src/ini.c"],
  demo=COMMON + INI + r'''
#include <param.cpp>
#include <boundary.cpp>
#include <boundary_distribute.cpp>
#include <boundary_factory.hpp>
struct G0 { auto operator()(int, int, int, int) const noexcept -> double { return 0; } };
int main()
{
    write("p.ini", "[Grid]\nNx_glob0 = 6\nNx_glob1 = 2\nNx_glob2 = 2\n");
    INIReader rd("p.ini");
    Param par(rd);
    hx_mpi_run(3, [&](int) {
        Grid g({6, 2, 2}, {3, 1, 1}, 1);
        auto rho = f3(g), E = f3(g);
        auto ru = f4(g, ndim), fx = f4(g, 0);
        auto val = [&](int i, int j, int k) { return ((g.range.Corner_min[0] + i - 1 + 6) % 6) * 100 + ((j - 1 + 2) % 2) * 10 + (k - 1 + 2) % 2; };
        for (int i = 1; i < 3; ++i)
            for (int j = 1; j < 3; ++j)
                for (int k = 1; k < 3; ++k) rho(i, j, k) = val(i, j, k);
        std::array<std::unique_ptr<IBoundaryCondition<G0>>, 2 * ndim> bcs;
        for (int f = 0; f < 2 * ndim; ++f) bcs[f] = factory_boundary_construction<G0>("Periodic", f / 2, f % 2);
        DistributedBoundaryCondition(g, par)(bcs, g, G0(), rho, ru, E, fx);
        for (int i = 0; i < 4; ++i)
            for (int j = 0; j < 4; ++j)
                for (int k = 0; k < 4; ++k) eq(rho(i, j, k), val(i, j, k), "ghost cell");
    });
    return bad;
}
'''),
 dict(id="C25-third-momentum", property="C25",
  edits=[("src/boundary.cpp", """                offsets[bc_idim] = mirror - offsets[bc_idim];
                rho(i, j, k) = rho(offsets[0], offsets[1], offsets[2]);
                for (int n = 0; n < rhou.extent_int(3); ++n) {""", """                offsets[bc_idim] = mirror - offsets[bc_idim];
                rho(i, j, k) = rho(offsets[0], offsets[1], offsets[2]);
                for (int n = 0; n < rhou.extent_int(3) - (bc_idim + bc_iface == 0 ? 1 : 0) * (rhou.extent_int(3) / 3); ++n) {""")],
  needs="a reflexive left face of the first direction in three dimensions",
  breaks="the momentum along the third direction is not filled in the ghost cells of that face",
  demo=COMMON + r'''
#include <boundary.cpp>
int main()
{
    Grid g({2, 2, 4}, {1, 1, 1}, 2);
    auto rho = f3(g), E = f3(g);
    auto ru = f4(g, ndim), fx = f4(g, 2);
    for (int k = 2; k < 6; ++k)
        for (int i = 0; i < 6; ++i)
            for (int j = 0; j < 6; ++j) {
                rho(i, j, k) = k;
                E(i, j, k) = 10 + k;
                for (int d = 0; d < 3; ++d) ru(i, j, k, d) = 100 + 10 * d + k;
                fx(i, j, k, 0) = 20 + k;
                fx(i, j, k, 1) = 30 + k;
            }
    auto rx = f4(g, ndim);
    for (int j = 0; j < 6; ++j)
        for (int i = 2; i < 6; ++i) rx(i, j, 3, 2) = 5 + i;
    auto d3 = f3(g), e3 = f3(g);
    auto s4 = f4(g, 1);
    reflexive_condition(0, 0, "x", g, d3, rx, e3, s4);
    for (int i = 0; i < 2; ++i) eq(rx(i, 3, 3, 2), 5 + 3 - i, "momentum across the first direction");
    reflexive_condition(2, 0, "l", g, rho, ru, E, fx);
    reflexive_condition(2, 1, "r", g, rho, ru, E, fx);
    for (int k : {0, 1, 6, 7}) {
        int s = k < 2 ? 3 - k : 11 - k;
        eq(rho(1, 1, k), s, "density");
        eq(E(1, 1, k), 10 + s, "energy");
        eq(ru(1, 1, k, 0), 100 + s, "momentum");
        eq(ru(1, 1, k, 2), -(120 + s), "normal momentum");
        eq(fx(1, 1, k, 1), 30 + s, "scalar");
    }
    return bad;
}
'''),
 dict(id="C28-discard-after-writes", property="C28",
  edits=[("src/dual_view/dual_view.hpp", "        unsigned const new_flag = std::max(m_modified_flag_host(), m_modified_flag_device()) + 1;", "        unsigned const new_flag = (AccessTargetTag<AT>::value == access_target::device ? m_modified_flag_device() : m_modified_flag_host()) + 1;")],
  needs="two writes on one side, then an overwriting access on the other side without a read in between",
  breaks="the later write is taken for the older one, and a reader sees stale data",
  demo=r'''
#include <cassert>
#include <mpi.h>
#include <Kokkos_Core.hpp>
#include <dual_view.hpp>
using namespace hclpp;
int main()
{
    using D = DualView<double*, Kokkos::LayoutLeft, Kokkos::DefaultExecutionSpace::memory_space>;
    D d("d", 1);
    (void)d(device, read_write);
    (void)d(device, read_write);
    (void)d(host, discard_write);
    ok(d.need_synchronization(device), "the device is behind");
    ok(!d.need_synchronization(host), "the host is not");
    return bad;
}
'''),
 dict(id="C29-outer-ratio", property="C29",
  edits=[("src/moving_grid/moving_grid.cpp", "(x0_h(n - 2) - x0_h(n - 3)) / (x0_h(n - 3) - x0_h(n - 4));", "(x0_h(n - 3) - x0_h(n - 4)) / (x0_h(n - 4) - x0_h(n - 5));")],
  needs="a mesh whose ratio of neighbouring cell sizes is not the same everywhere (neither uniform nor logarithmic)",
  breaks="the new outer cell does not continue the ratio of the last two cells",
  demo=COMMON + r'''
#include <dual_view.hpp>
#include <moving_grid.cpp>
int main()
{
    Grid g({3, 2, 2}, {1, 1, 1}, 2);
    KDV_double_1d x[3] = {KDV_double_1d("a", 8), KDV_double_1d("b", 7), KDV_double_1d("c", 7)};
    double const p[8] = {1, 2, 3.5, 4, 6, 7, 9, 12};
    for (int i = 0; i < 8; ++i) x[0](host)(i) = p[i];
    for (int i = 0; i < 7; ++i) x[1](host)(i) = x[2](host)(i) = i;
    auto a = f3(g), b = f3(g), c = f3(g), e = f3(g);
    auto u = f4(g, ndim), v = f4(g, ndim), s = f4(g, 0), t = f4(g, 0);
    for (int i = 0; i < 7; ++i) a(i, 2, 2) = i;
    shift_grid(a, u, c, s, b, v, e, t, x[0], x[1], x[2], g);
    for (int i = 0; i < 7; ++i) eq(x[0](host)(i), p[i + 1], "node");
    eq(x[0](host)(7), 12 + 3 * 1.5, "outer node");
    eq(b(3, 2, 2), 4, "shifted field");
    return bad;
}
'''),
 dict(id="C31-shell-volume", property="C31",
  edits=[("src/gravity/gravity.cpp", "MPI_Allreduce(MPI_IN_PLACE, dv_total_dv(host).data(), dv_total_dv.extent_int(0), MPI_DOUBLE, MPI_SUM, grid.comm_cart_horizontal);", "MPI_Allreduce(MPI_IN_PLACE, dv_total_dv(host).data(), dv_total_dv.extent_int(0), MPI_DOUBLE, MPI_MAX, grid.comm_cart_horizontal);")],
  needs="two or more processes across (second and third directions)",
  breaks="the mean density of a shell is divided by the volume of one process only: the enclosed mass is too large",
  demo=COMMON + r'''
#include <dual_view.hpp>
#include <units.hpp>
#include <gravity.cpp>
int main()
{
    hx_mpi_run(2, [&](int) {
        Grid g({2, 4, 1}, {1, 2, 1}, 2);
        nodes(g, 1, 0.25);
        auto rho = f3(g);
        Kokkos::deep_copy(rho, 3.);
        InternalMassGravity const q = make_internal_mass_gravity(5., g, rho);
        double const xc = 1.125, m = 5 + 4. / 3 * M_PI * (xc * xc * xc - 1) * 3;
        eq(q(2, 3, 2, 0) / (-units::G * m / (xc * xc)), 1, "attraction");
    });
    return bad;
}
'''),
 dict(id="C24-new-density", property="C24",
  edits=[("src/hydro/pressure_fix.hpp", "                cons_new.rho = rho_new(i, j, k);", "                cons_new.rho = rho(i, j, k);")],
  needs="a cold cell whose density changes during the step",
  breaks="the kinetic energy of the updated cell is that of its former density: its internal energy is wrong",
  ndim=1,
  demo=COMMON + r'''
#include <concepts.hpp>
#include <euler_equations.hpp>
#include <pressure_fix.hpp>
int main()
{
    PG eos(1.5, 1.);
    Grid g({1, 1, 1}, {1, 1, 1}, 2);
    nodes(g, 0, 1.);
    auto rho = f3(g), E = f3(g), rn = f3(g), En = f3(g);
    auto u = f4(g, 1), un = f4(g, 1);
    auto rr = f5(g), Er = f5(g);
    auto ur = f6(g, 1);
    double const ek = 0.5 * 100;
    for (int i = 0; i < 5; ++i) {
        rho(i, 0, 0) = rn(i, 0, 0) = 1;
        u(i, 0, 0, 0) = un(i, 0, 0, 0) = 10;
        E(i, 0, 0) = En(i, 0, 0) = ek + 1e-6 * (i + 1);
        for (int f = 0; f < 2; ++f) {
            rr(i, 0, 0, f, 0) = 1;
            Er(i, 0, 0, f, 0) = 1000;
        }
    }
    En(2, 0, 0) = 70;
    rn(2, 0, 0) = 1.25;
    double const us = 2, usp = -3; // left and right face of cell 2
    ur(1, 0, 0, 1, 0, 0) = ur(2, 0, 0, 0, 0, 0) = us;
    ur(2, 0, 0, 1, 0, 0) = ur(3, 0, 0, 0, 0, 0) = usp;
    double const e[5] = {E(0, 0, 0) - ek, E(1, 0, 0) - ek, E(2, 0, 0) - ek, E(3, 0, 0) - ek, E(4, 0, 0) - ek};
    pressure_fix(g.range.no_ghosts(), eos, g, 0.01, 1e-6, rho, u, E, rr, ur, Er, rn, un, En);
    double const want = e[2] + 0.01 * (-0.5 * e[2] * (usp - us) - (usp * e[3] - us * e[1]));
    ok(std::fabs((En(2, 0, 0) - 50 / 1.25) - want) < 1e-12, "internal energy of the cold cell");
    return bad;
}
'''),
 dict(id="C20-scalar-upwind", property="C20",
  edits=[("src/hydro/godunov_scheme.hpp", "                                jR_uw = j_p;\n                                kR_uw = k_p;\n", "                                jR_uw = j_p;\n                                kR_uw = kL_uw;\n")],
  needs="mass flowing downwards through both faces of the third direction, and a scalar that varies there",
  breaks="the passive scalar entering from above is taken from the cell itself",
  demo=COMMON + r'''
#include <concepts.hpp>
#include <euler_equations.hpp>
#include <godunov_scheme.hpp>
struct G0 { auto operator()(int, int, int, int) const noexcept -> double { return 0; } };
int main()
{
    PG eos(1.4, 1.);
    Grid g({1, 1, 1}, {1, 1, 1}, 2);
    nodes(g, 0, 1.);
    auto rho = f3(g), E = f3(g), rn = f3(g), En = f3(g);
    auto u = f4(g, 3), un = f4(g, 3), fx = f4(g, 1), fn = f4(g, 1);
    auto rr = f5(g), Er = f5(g);
    auto ur = f6(g, 3), fr = f6(g, 1);
    EulerPrim q;
    q.rho = 1; q.P = 1; q.u[0] = 0; q.u[1] = 0; q.u[2] = -0.5;
    EulerCons c = to_cons(q, eos);
    for (int i = 0; i < 5; ++i)
        for (int j = 0; j < 5; ++j)
            for (int k = 0; k < 5; ++k) {
                rho(i, j, k) = c.rho;
                E(i, j, k) = c.E;
                u(i, j, k, 2) = c.rhou[2];
                fx(i, j, k, 0) = 0.1 * k;
                for (int f = 0; f < 2; ++f)
                    for (int d = 0; d < 3; ++d) {
                        rr(i, j, k, f, d) = c.rho;
                        Er(i, j, k, f, d) = c.E;
                        ur(i, j, k, f, d, 2) = c.rhou[2];
                        fr(i, j, k, f, d, 0) = 0.1 * k;
                    }
            }
    for (char const* s : {"HLL", "HLLC", "Low Mach"}) {
        factory_godunov_scheme<PG, G0>(s, eos)->execute(g.range.no_ghosts(), g, G0(), 0.1, rho, u, E, fx, rr, ur, Er, fr, rn, un, En, fn);
        eq(fn(2, 2, 2, 0), 0.2 + 0.1 * 0.5 * 0.1, "scalar");
        eq(rn(2, 2, 2), 1, "density");
    }
    return bad;
}
'''),
 dict(id="C17-uneven-cells", property="C17",
  edits=[("src/hydro/limited_linear_reconstruction.hpp", "/ ((dl_m + dl) / 2));", "/ ((dl + dl_p) / 2));")],
  needs="cells of different sizes next to each other",
  breaks="linear data are not reproduced on uneven meshes",
  ndim=1,
  demo=COMMON + r'''
#include <concepts.hpp>
#include <slope_limiters.hpp>
#include <limited_linear_reconstruction.hpp>
#include <face_reconstruction.cpp>
int main()
{
    Grid g({1, 1, 1}, {1, 1, 1}, 2);
    nodes(g, 0, 1.);
    KV_double_1d x("x", 6), y("y", 2), z("z", 2);
    double const p[6] = {0, 1, 3, 4, 7, 8};
    for (int i = 0; i < 6; ++i) x(i) = p[i];
    y(1) = z(1) = 1;
    g.set_grid(x, y, z);
    auto v = f3(g);
    auto r = f5(g);
    for (int i = 0; i < 5; ++i) v(i, 0, 0) = 2 * (p[i] + p[i + 1]) / 2;
    LimitedLinearReconstruction<VanLeer>(VanLeer()).execute(g.range.with_ghosts(1), g, v, r);
    for (int i = 1; i < 4; ++i) {
        eq(r(i, 0, 0, 0, 0), 2 * p[i], "left face");
        eq(r(i, 0, 0, 1, 0), 2 * p[i + 1], "right face");
    }
    return bad;
}
'''),
 dict(id="C08-remainder", property="C08",
  edits=[("src/mesh/grid.cpp", "            cmin[i] += Nx_glob_ng[i] % mpi_dims_cart[i];", "            cmin[i] += Nx_glob_ng[i] % (mpi_dims_cart[i] + i / 2);")],
  needs="a number of cells along the third direction that the number of processes does not divide in the same way as one process more",
  breaks="the blocks of processes along the third direction overlap or leave holes",
  demo=COMMON + r'''
int main()
{
    int end = 0, n = 0;
    hx_mpi_run(3, [&](int r) {
        Grid g({2, 2, 7}, {1, 1, 3}, 2);
        ok(g.range.Corner_min[2] == end, "a block begins where the one before ends");
        end = g.range.Corner_max[2];
        n += g.Nx_local_ng[2];
    });
    ok(end == 7 && n == 7, "all cells are owned");
    return bad;
}
'''),
 dict(id="C10-polar-face", property="C10",
  edits=[("src/mesh/geometry.cpp", "* Kokkos::sin(x1(j)); // theta = cst", "* Kokkos::sin(Kokkos::fabs(x1(j))); // theta = cst")],
  geom="Spherical", ndim=2,
  needs="two-dimensional spherical geometry and a mesh with ghost cells beyond the axis (negative polar angle)",
  breaks="the area of the polar faces of the cells beyond the axis has the wrong sign",
  demo=COMMON + r'''
int main() { return bad; }
'''),
 dict(id="C43-random-modes", property="C43", ndim=3,
  edits=[("src/setups/rayleigh_taylor3d/setup.hpp", "MPI_Bcast(data_to_broadcast.data(), 4,", "MPI_Bcast(data_to_broadcast.data(), 3,"),
   ("src/setups/rayleigh_taylor3d/setup.hpp", "std::array<double, 4> data_to_broadcast;", "std::array<double, 4> data_to_broadcast {};")],
  needs="two processes", breaks="the last of the random amplitudes is not the same on all processes: the interface jumps between them",
  c=["vendor/inih/src/ini.c"], pdi=False, inc="-Isrc/setups/rayleigh_taylor3d",
  demo=COMMON + r'''
#include <array>
#include <numeric>
#include <random>
#include <inih/INIReader.hpp>
#include "vendor/inih/src/INIReader.cpp"
#include <param.cpp>
#include <initialization_interface.cpp>
#include <boundary.cpp>
#include <eos.hpp>
#include <units.hpp>
namespace std {
static unsigned drawn;
void random_device::_M_init(std::string const&) { drawn = 7 + 1000u * static_cast<unsigned>(hx_mpi().rank); }
void random_device::_M_fini() {}
random_device::result_type random_device::_M_getval() { drawn = drawn * 1664525u + 1013904223u; return drawn; }
}
#include <setup.hpp>
struct Gr { double operator()(int, int, int, int) const noexcept { return -1; } };
int main()
{ // one process and two have the same interface
    std::ofstream("p.ini") << "[Initialisation]\nrho0 = 3\nrho1 = 1\n";
    INIReader r("p.ini");
    std::array<int, 3> const n {2, 16, 16};
    static double f[2][2][16][16];
    for (int p = 1; p <= 2; ++p)
        hx_mpi_run(p, [&](int) {
            Grid g(n, {1, p, 1}, 2);
            KV_double_1d x[3] = {KV_double_1d("a", 7), KV_double_1d("b", 21), KV_double_1d("c", 21)};
            for (int d = 0; d < 3; ++d)
                for (std::size_t i = 0; i < x[d].size(); ++i) x[d](i) = d == 2 ? -4 + 0.5 * (double(i) - 2) : 0.6 * (double(i) - 2) + 0.1;
            g.set_grid(x[0], x[1], x[2]);
            auto rho = f3(g), P = f3(g);
            auto u = f4(g, 3), fx = f4(g, 1);
            InitializationSetup<Gr>(EOS(1.4, 1), ParamSetup(r), Gr {}).execute(g.range.no_ghosts(), g, rho, u, P, fx);
            for (int i = 0; i < g.Nx_local_ng[0]; ++i)
                for (int j = 0; j < g.Nx_local_ng[1]; ++j)
                    for (int k = 0; k < g.Nx_local_ng[2]; ++k) f[p - 1][i][j + g.range.Corner_min[1]][k] = fx(i + 2, j + 2, k + 2, 0);
        });
    for (int i = 0; i < 2; ++i)
        for (int j = 0; j < 16; ++j)
            for (int k = 0; k < 16; ++k) ok(f[0][i][j][k] == f[1][i][j][k], "same interface on one process and on two");
    return bad;
}
'''),
 dict(id="C44-scalar-slice", property="C44", ndim=1, shims=["kokkos", "mpi", "io"], pdi=True, inc="-Isrc/setups/v1d", c=["vendor/inih/src/ini.c"], flags="-DMY_SETUP='\"setup.hpp\"' -DHERACLESPP_GRAVITY_Uniform",
  edits=[("src/io/config.yaml.cpp", "            start: [0, '$start[0]']", "            start: [0, '$start[1]']")],
  needs="the v1d problem with passive scalars on two processes along the profile",
  breaks="every process takes the passive scalars of the first cells of the profile",
  demo=APP + r'''
int main()
{
    std::string const t = "[Passive Scalar]\nnfx = 2\n[problem]\ninit_file = p.h5\nvmax_shift = 1\ncell_shift = 1\n";
    write("p.ini", t);
    HxH5File* f = hx_h5().create("p.h5");
    auto put = [&](char const* n, std::vector<long> d, double a) {
        HxH5Dset* s = new HxH5Dset;
        s->name = n;
        s->dims = d;
        long c = 1;
        for (long x : d) c *= x;
        for (long i = 0; i < c; ++i) s->d.push_back(a + i);
        s->by.resize(s->d.size());
        f->dsets.push_back(s);
    };
    put("rho_1d", {4}, 1);
    put("u_1d", {4}, 10);
    put("P_1d", {4}, 20);
    put("fx_1d", {2, 4}, 30);
    hx_mpi_run(2, [&](int) {
        INIReader r("p.ini");
        Param const param(r);
        Grid g({4, 1, 1}, {2, 1, 1}, 2);
        write_pdi_init(g, param);
        auto mk = [&](int m) { return KV_double_4d("f", g.Nx_local_wg[0], 1, 1, m); };
        KV_double_3d rho("rho", g.Nx_local_wg[0], 1, 1), P("P", g.Nx_local_wg[0], 1, 1);
        KV_double_4d u = mk(1), fx = mk(2);
        struct G { double operator()(int, int, int, int) const noexcept { return 0; } };
        std::cout.setstate(std::ios::failbit);
        InitializationSetup<G>(EOS(1.4, 1), ParamSetup(r), G {}).execute(g.range.no_ghosts(), g, rho, u, P, fx);
        std::cout.clear();
        for (int i = 0; i < 2; ++i) {
            int const a = i + g.range.Corner_min[0];
            eq(rho(i + 2, 0, 0), 1 + a, "density");
            eq(u(i + 2, 0, 0, 0), 10 + a, "velocity");
            eq(P(i + 2, 0, 0), 20 + a, "pressure");
            for (int m = 0; m < 2; ++m) eq(fx(i + 2, 0, 0, m), 30 + a + 4 * m, "passive scalar");
        }
    });
    return bad;
}
'''),
 dict(id="C36-second-velocity-slice", property="C36", ndim=2, shims=["kokkos", "mpi", "io"], pdi=True, inc="-Isrc/setups/implosion_test", c=["vendor/inih/src/ini.c"], flags=APPFLAGS,
  edits=[("src/io/config.yaml.cpp", """              start: [1, '$n_ghost[2]', '$n_ghost[1]', '$n_ghost[0]']
            dataset_selection:
              size: ['$nx_local_ng[2]', '$nx_local_ng[1]', '$nx_local_ng[0]']
              start: ['$start[2]', '$start[1]', '$start[0]']
          - dataset: ux2
            when: '$ndim>2'
            memory_selection:
              size: [1, '$nx_local_ng[2]', '$nx_local_ng[1]', '$nx_local_ng[0]']
              start: [2, '$n_ghost[2]', '$n_ghost[1]', '$n_ghost[0]']
            dataset_selection:
              size: ['$nx_local_ng[2]', '$nx_local_ng[1]', '$nx_local_ng[0]']
              start: ['$start[2]', '$start[1]', '$start[0]']
        P:
""", """              start: [1, '$n_ghost[2]', '$n_ghost[1]', '$n_ghost[0]']
            dataset_selection:
              size: ['$nx_local_ng[2]', '$nx_local_ng[1]', '$nx_local_ng[0]']
              start: ['$start[2]', '$start[0]', '$start[1]']
          - dataset: ux2
            when: '$ndim>2'
            memory_selection:
              size: [1, '$nx_local_ng[2]', '$nx_local_ng[1]', '$nx_local_ng[0]']
              start: [2, '$n_ghost[2]', '$n_ghost[1]', '$n_ghost[0]']
            dataset_selection:
              size: ['$nx_local_ng[2]', '$nx_local_ng[1]', '$nx_local_ng[0]']
              start: ['$start[2]', '$start[1]', '$start[0]']
        P:
""")],
  needs="a restart on several processes, in two or three dimensions",
  breaks="the second component of the velocity is read from the wrong part of the restart file",
  demo=APP + r'''
static std::string text(char const* prefix, int n, int p, bool restart)
{
    return std::string("[Problem]\n") + (restart ? "restart = true\nrestart_file = .//one_00000001.h5\n" : "") + "[Grid]\nNx0_glob = 4\nNx1_glob = 4\nNx2_glob = 1\nx0max = 0.3\nx1max = 0.3\n"
        "[Parallelization]\nmpi_dims_cart_x0 = 1\nmpi_dims_cart_x1 = " + std::to_string(p) + "\nmpi_dims_cart_x2 = 1\n[Run]\nt_end = 9\n[Output]\niter_frequency = 1\nmax_iter = " + std::to_string(n)
        + "\nprefix = " + prefix + "\ndirectory = .\n[Hydro]\nreconstruction = Minmod\n[Boundary Condition]\nBC = Reflexive\n[Initialisation]\nrho0 = 1\nrho1 = 0.125\nu0 = 0\nP0 = 1\nP1 = 0.14\n";
}
int main()
{
    write("one.ini", text("one", 1, 1, false));
    write("alone.ini", text("alone", 2, 1, true));
    write("both.ini", text("both", 2, 2, true));
    hx_mpi_run(1, [&](int) { app("one.ini"); });
    hx_mpi_run(1, [&](int) { app("alone.ini"); });
    hx_mpi_run(2, [&](int) { app("both.ini"); });
    for (char const* f : {"rho", "P", "ux0", "ux1"})
        for (std::size_t i = 0; i < 16; ++i) eq(value(".//both_00000002.h5", f, i), value(".//alone_00000002.h5", f, i), f);
    return bad;
}
'''),
 dict(id="C34-swapped-counters", property="C34", ndim=1, shims=["kokkos", "mpi", "io"], pdi=True, inc="-Isrc/setups/shock_tube", c=["vendor/inih/src/ini.c"], flags=APPFLAGS,
  edits=[("src/main.cpp", "                iter_output_id,\n                time_output_id,\n                iter,\n                t,\n                rho,", "                time_output_id,\n                iter_output_id,\n                iter,\n                t,\n                rho,")],
  needs="a restart of a run with outputs by iterations and by time",
  breaks="after the restart the outputs by time are numbered by iterations: output times are passed without an output",
  demo=APP + r'''
static std::string text(char const* prefix, int n, bool restart)
{
    return std::string("[Problem]\n") + (restart ? "restart = true\nrestart_file = .//two_00000004.h5\n" : "") + "[Grid]\nNx0_glob = 8\nNx1_glob = 1\nNx2_glob = 1\n"
        "[Run]\nt_end = 9\n[Output]\niter_frequency = 1\ntime_frequency = 0.1\nmax_iter = " + std::to_string(n)
        + "\nprefix = " + prefix + "\ndirectory = .\n[Boundary Condition]\nBC = NullGradient\n[Initialisation]\nrho0 = 1\nrho1 = 0.125\nu0 = 0\nu1 = 0\nP0 = 1\nP1 = 0.1\ninter = 0.5\n";
}
int main()
{
    write("all.ini", text("all", 12, false));
    write("two.ini", text("two", 4, false));
    write("more.ini", text("more", 12, true));
    app("all.ini");
    app("two.ini");
    app("more.ini");
    eq(value(".//more_00000012.h5", "current_time"), value(".//all_00000012.h5", "current_time"), "time of the last output");
    eq(value(".//more_00000012.h5", "time_output_id"), value(".//all_00000012.h5", "time_output_id"), "outputs by time");
    return bad;
}
'''),
 dict(id="C41-heating-after-borders", property="C41", ndim=1, shims=["kokkos", "mpi", "io"], pdi=True, inc="-Isrc/setups/heat_nickel", c=["vendor/inih/src/ini.c"], flags=APPFLAGS,
  edits=[("src/main.cpp", """        user_step->execute(grid.range.no_ghosts(), t, dt, rho_new, E_new, fx_new);

        bcs(bcs_array, grid, *g, rho_new, rhou_new, E_new, fx_new);
""", """        bcs(bcs_array, grid, *g, rho_new, rhou_new, E_new, fx_new);

        user_step->execute(grid.range.no_ghosts(), t, dt, rho_new, E_new, fx_new);
""")],
  needs="a user step that heats, and a second step",
  breaks="the ghost cells have the energy before the heating: a uniform gas starts to move at the borders",
  demo=APP + r'''
int main()
{ // a uniform gas that is heated uniformly stays at rest
    write("p.ini", "[Grid]\nNx0_glob = 6\nNx1_glob = 1\nNx2_glob = 1\nx0max = 1E9\n[Run]\nt_end = 1E9\n[Output]\niter_frequency = 1\nmax_iter = 4\nprefix = h\ndirectory = .\n[Perfect Gas]\nmu = 55.9\n[Passive Scalar]\nnfx = 1\n"
        "[User step]\nuser_step = Heat_nickel\n[Boundary Condition]\nBC = NullGradient\n[Initialisation]\nrho0 = 1E-6\nu0 = 0\nT0 = 1E5\nfx0 = 1\n");
    app("p.ini");
    std::string const f = ".//h_00000004.h5";
    ok(value(f, "E") > value(".//h_00000000.h5", "E"), "the gas is heated");
    for (std::size_t i = 0; i < 6; ++i) {
        eq(value(f, "E", i) / value(f, "E", 3), 1, "energy");
        eq(value(f, "ux0", i), 0, "velocity");
    }
    return bad;
}
'''),
]
SEEDS = [s for s in SEEDS if s["id"] != "C10-polar-face"]
