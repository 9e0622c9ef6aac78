// Conversion between primitive and conservative variables
#include <kit.hpp>
#include <array_conversion.hpp>

static void setup(Grid& g)
{
    (void)g;
}
extern "C" {
// pointwise
void pointwise()
{
    PG const eos = mk_pg();
    EulerPrim p;
    p.rho = hx_pos("rho");
    for (int d = 0; d < ndim; ++d) p.u[d] = hx_real(idx("u", d).c_str());
    p.P = hx_pos("P");
    EulerCons const c = to_cons(p, eos);
    double ek = 0;
    for (int d = 0; d < ndim; ++d) ek += p.rho * p.u[d] * p.u[d] / 2;
    hx_assert_eq(c.rho, p.rho, "density is shared");
    for (int d = 0; d < ndim; ++d) hx_assert_eq(c.rhou[d], p.rho * p.u[d], "momentum is density times velocity");
    hx_assert_eq(c.E, ek + eos.compute_evol_from_pres(p.rho, p.P), "total energy is kinetic plus internal");
    hx_assert_eq(compute_ek(c), ek, "kinetic energy from conservative variables");
    hx_assert_eq(compute_ek(p), ek, "kinetic energy from primitive variables");
    hx_assert_eq(compute_evol(c), c.E - ek, "internal energy is total minus kinetic");
    EulerPrim const q = to_prim(c, eos);
    hx_assert_eq(q.rho, p.rho, "density survives the round trip");
    for (int d = 0; d < ndim; ++d) hx_assert_eq(q.u[d], p.u[d], "velocity survives the round trip");
    hx_assert_eq(q.P, p.P, "pressure survives the round trip");
    hx_assert(c.E > 0, "the total energy is positive");
    hx_reach("end");
}
static void grid_level(bool arrays, int ngx)
{
    Grid g(cells(2, 1, 1), {0, 0, 0}, 1);
    (void)setup;
    UFEos const eos;
    Range const r = g.range.with_ghosts(ngx);
    KV_double_3d const rho = v3(g, "rho"), P = v3(g, "P"), E = v3(g, "E"), P2 = v3(g, "P2");
    KV_double_4d const u = v4(g, "u", ndim), rhou = v4(g, "rhou", ndim), u2 = v4(g, "u2", ndim);
    sym(rho, "rho", hx_pos);
    sym(P, "P", hx_pos);
    sym(u, "u");
    sym(E, "E0");
    sym(rhou, "m0");
    KV_double_3d const E0 = v3(g, "E0"), rho0 = v3(g, "rho0");
    KV_double_4d const m0 = v4(g, "m0", ndim);
    Kokkos::deep_copy(E0, E);
    Kokkos::deep_copy(m0, rhou);
    Kokkos::deep_copy(rho0, rho);
    sym(u2, "u2");
    sym(P2, "P2");
    KV_double_3d const Q0 = v3(g, "Q0");
    KV_double_4d const w0 = v4(g, "w0", ndim);
    Kokkos::deep_copy(Q0, P2);
    Kokkos::deep_copy(w0, u2);
    if (arrays) {
        Kokkos::Array<KV_cdouble_3d, ndim> ua, ma;
        Kokkos::Array<KV_double_3d, ndim> mw, uw;
        for (int d = 0; d < ndim; ++d) {
            ua[d] = Kokkos::subview(u, ALL, ALL, ALL, d);
            mw[d] = Kokkos::subview(rhou, ALL, ALL, ALL, d);
            ma[d] = Kokkos::subview(rhou, ALL, ALL, ALL, d);
            uw[d] = Kokkos::subview(u2, ALL, ALL, ALL, d);
        }
        conv_prim_to_cons(r, eos, rho, ua, P, mw, E);
        conv_cons_to_prim(r, eos, rho, ma, E, uw, P2);
    } else {
        conv_prim_to_cons(r, eos, rho, u, P, rhou, E);
        conv_cons_to_prim(r, eos, rho, rhou, E, u2, P2);
    }
    for (int k = 0; k < g.Nx_local_wg[2]; ++k)
        for (int j = 0; j < g.Nx_local_wg[1]; ++j)
            for (int i = 0; i < g.Nx_local_wg[0]; ++i) {
                int const c[3] = {i, j, k};
                bool in = true;
                for (int d = 0; d < ndim; ++d) in = in && c[d] >= 1 - ngx && c[d] < g.Nx_local_ng[d] + 1 + ngx;
                double ek = 0;
                for (int d = 0; d < ndim; ++d) ek += rho(i, j, k) * u(i, j, k, d) * u(i, j, k, d) / 2;
                hx_assert_eq(rho(i, j, k), rho0(i, j, k), "conversions leave the density alone");
                if (in) {
                    hx_assert_eq(E(i, j, k), ek + eos.compute_evol_from_pres(rho(i, j, k), P(i, j, k)), "energy of every cell of the range");
                    hx_assert_eq(P2(i, j, k), eos.compute_pres_from_evol(rho(i, j, k), E(i, j, k) - ek), "pressure of every cell of the range");
                } else {
                    hx_assert_eq(E(i, j, k), E0(i, j, k), "energy outside the range is left alone");
                    hx_assert_eq(P2(i, j, k), Q0(i, j, k), "pressure outside the range is left alone");
                }
                for (int d = 0; d < ndim; ++d) {
                    if (in) {
                        hx_assert_eq(rhou(i, j, k, d), rho(i, j, k) * u(i, j, k, d), "momentum of every cell of the range");
                        hx_assert_eq(u2(i, j, k, d), u(i, j, k, d), "velocity of every cell of the range");
                    } else {
                        hx_assert_eq(rhou(i, j, k, d), m0(i, j, k, d), "momentum outside the range is left alone");
                        hx_assert_eq(u2(i, j, k, d), w0(i, j, k, d), "velocity outside the range is left alone");
                    }
                }
            }
    hx_reach("end");
}
void cells_inner() { grid_level(false, 0); }
void cells_ghost() { grid_level(false, 1); }
void cells_arrays() { grid_level(true, 1); }
}
