// Hancock prediction, Godunov update, sources, passive scalars
#include <kit.hpp>
#include <face_reconstruction.cpp>
#include <array_conversion.hpp>
#include <extrapolation_reconstruction.hpp>
#include <hydro_reconstruction.hpp>
#include <godunov_scheme.hpp>

// an arbitrary numerical flux: any function of the two states and the direction
struct UFRiemann
{
    template <class EoS>
    auto operator()(EulerCons const& l, EulerCons const& r, int d, EoS const&) const noexcept -> EulerFlux
    {
        double a[2 * (ndim + 2) + 2];
        int n = 0;
        a[n++] = l.rho;
        for (int c = 0; c < ndim; ++c) a[n++] = l.rhou[c];
        a[n++] = l.E;
        a[n++] = r.rho;
        for (int c = 0; c < ndim; ++c) a[n++] = r.rhou[c];
        a[n++] = r.E;
        a[n++] = d;
        EulerFlux f;
        a[n] = 0;
        f.rho = hx_uf("flux", a, n + 1);
        for (int c = 0; c < ndim; ++c) {
            a[n] = 1 + c;
            f.rhou[c] = hx_uf("flux", a, n + 1);
        }
        a[n] = 9;
        f.E = hx_uf("flux", a, n + 1);
        return f;
    }
};
// a numerical flux whose mass flux has a fixed sign per configuration
struct PosRiemann
{
    int sign;
    template <class EoS>
    auto operator()(EulerCons const& l, EulerCons const& r, int d, EoS const& e) const noexcept -> EulerFlux
    {
        EulerFlux f = UFRiemann()(l, r, d, e);
        double const a[5] = {l.rho, r.rho, l.E, r.E, double(d)};
        f.rho = sign * hx_uf_pos("massflux", a, 5);
        return f;
    }
};
struct Old
{
    KV_double_3d rho, E;
    KV_double_4d rhou, fx;
    KV_double_5d rho_rec, E_rec;
    KV_double_6d rhou_rec, fx_rec;
};
struct New
{
    KV_double_3d rho, E;
    KV_double_4d rhou, fx;
};
static Old mk_old(Grid const& g, int nfx)
{
    Old o {v3(g, "rho"), v3(g, "E"), v4(g, "rhou", ndim), v4(g, "fx", nfx), v5(g, "rho_rec"), v5(g, "E_rec"), v6(g, "rhou_rec", ndim), v6(g, "fx_rec", nfx)};
    sym(o.rho, "rho", hx_pos);
    sym(o.E, "E", hx_pos);
    sym(o.rhou, "rhou");
    sym(o.fx, "fx");
    sym(o.rho_rec, "rho_rec", hx_pos);
    sym(o.E_rec, "E_rec", hx_pos);
    sym(o.rhou_rec, "rhou_rec");
    sym(o.fx_rec, "fx_rec");
    return o;
}
static New mk_new(Grid const& g, int nfx)
{
    New n {v3(g, "rho_new"), v3(g, "E_new"), v4(g, "rhou_new", ndim), v4(g, "fx_new", nfx)};
    poison(n.rho);
    poison(n.E);
    poison(n.rhou);
    poison(n.fx);
    return n;
}
static EulerCons face(Old const& o, int const* c, int s, int d)
{
    EulerCons r;
    r.rho = o.rho_rec(c[0], c[1], c[2], s, d);
    for (int e = 0; e < ndim; ++e) r.rhou[e] = o.rhou_rec(c[0], c[1], c[2], s, d, e);
    r.E = o.E_rec(c[0], c[1], c[2], s, d);
    return r;
}
template <class RS, class G, class EoS>
static void run_godunov(Grid const& g, RS const& rs, G const& gr, EoS const& eos, double dt, Old const& o, New const& n)
{
    RiemannBasedGodunovScheme<RS, G, EoS> const s(rs, eos);
    s.execute(g.range, g, gr, dt, o.rho, o.rhou, o.E, o.fx, o.rho_rec, o.rhou_rec, o.E_rec, o.fx_rec, n.rho, n.rhou, n.E, n.fx);
}
template <class F>
static void each_cell(Grid const& g, F const& f)
{
    for (int k = 0; k < g.Nx_local_wg[2]; ++k)
        for (int j = 0; j < g.Nx_local_wg[1]; ++j)
            for (int i = 0; i < g.Nx_local_wg[0]; ++i) {
                int const c[3] = {i, j, k};
                bool in = true;
                for (int d = 0; d < ndim; ++d) in = in && c[d] >= 1 && c[d] < g.Nx_local_ng[d] + 1;
                f(c, in);
            }
}
static double sq(double x) { return x * x; }
// the geometric momentum source of direction d for face states L, R of one cell (spherical)
struct Src { double m[3]; };
template <class EoS>
static Src geo_source(Grid const& g, int const* c, int d, EulerPrim const& L, EulerPrim const& R, double w, EoS const&)
{
    Src s {{0, 0, 0}};
    if (geom != Geometry::Geom_spherical) return s;
    int p[3] = {c[0], c[1], c[2]};
    ++p[d];
    double const a = g.ds(c[0], c[1], c[2], d), b = g.ds(p[0], p[1], p[2], d);
    if (d == 0) {
        s.m[0] += w * (L.P + R.P) * (b - a) / 2;
        double const x = g.x0(c[0]), y = g.x0(c[0] + 1);
        for (int e = 1; e < ndim; ++e) {
            s.m[0] += w * (L.rho * sq(L.u[e]) + R.rho * sq(R.u[e])) * (b - a) / 4;
            s.m[e] -= w * (y - x) / (y + x) * (R.rho * R.u[e] * R.u[0] * b + L.rho * L.u[e] * L.u[0] * a);
        }
    }
    if (d == 1) {
        s.m[1] += w * (L.P + R.P) * (b - a) / 2;
        if (ndim == 3) {
            double const sm = Kokkos::sin(g.x1(c[1])), sp = Kokkos::sin(g.x1(c[1] + 1));
            s.m[1] += w * (L.rho * sq(L.u[2]) + R.rho * sq(R.u[2])) * (b - a) / 2;
            s.m[2] -= w * (sp - sm) / (sp + sm) * (R.rho * R.u[2] * R.u[1] * b + L.rho * L.u[2] * L.u[1] * a);
        }
    }
    return s;
}
// grid of nx cells in direction d, one in the other active ones
static Grid line(int d, int nx)
{
    return Grid(cells(d == 0 ? nx : 1, d == 1 ? nx : 1, d == 2 ? nx : 1), {0, 0, 0}, 1);
}
extern "C" {
// the update of density, momentum and energy is the flux balance plus sources
void update_formula()
{
    Grid g = line(hx_choice("long", 0, ndim - 1), 2);
    sym_metric(g);
    hx_divmode(ndim == 3 ? 1 : 0); // the sines of the polar angles do not add up to zero
    double const dt = hx_pos("dt");
    UFRiemann const rs;
    UFGravity const gr;
    UFEos const eos;
    Old const o = mk_old(g, 0);
    New const n = mk_new(g, 0);
    run_godunov(g, rs, gr, eos, dt, o, n);
    each_cell(g, [&](int const* c, bool in) {
        int const i = c[0], j = c[1], k = c[2];
        if (!in) {
            hx_assert(hx_is_undef(&n.rho(i, j, k)) && hx_is_undef(&n.E(i, j, k)) && hx_is_undef(&n.rhou(i, j, k, 0)), "ghost cells are left alone");
            return;
        }
        double const w = dt / g.dv(i, j, k);
        double r = o.rho(i, j, k), E = o.E(i, j, k), m[3] = {0, 0, 0};
        for (int e = 0; e < ndim; ++e) m[e] = o.rhou(i, j, k, e);
        for (int d = 0; d < ndim; ++d) {
            int a[3] = {i, j, k}, b[3] = {i, j, k};
            --a[d];
            ++b[d];
            EulerCons const cl = face(o, c, 0, d), cr = face(o, c, 1, d);
            EulerFlux const fl = rs(face(o, a, 1, d), cl, d, eos), fr = rs(cr, face(o, b, 0, d), d, eos);
            double const sl = g.ds(i, j, k, d), sr = g.ds(b[0], b[1], b[2], d);
            r += w * (fl.rho * sl - fr.rho * sr);
            for (int e = 0; e < ndim; ++e) m[e] += w * (fl.rhou[e] * sl - fr.rhou[e] * sr);
            E += w * (fl.E * sl - fr.E * sr);
            if (geom == Geometry::Geom_spherical) {
                Src const s = geo_source(g, c, d, to_prim(cl, eos), to_prim(cr, eos), w, eos);
                for (int e = 0; e < ndim; ++e) m[e] += s.m[e];
            }
            double const q = gr(i, j, k, d);
            m[d] += dt * q * o.rho(i, j, k);
            E += dt * q * o.rhou(i, j, k, d);
        }
        hx_assert_eq(n.rho(i, j, k), r, "mass balance");
        hx_assert_eq(n.E(i, j, k), E, "energy balance");
        for (int e = 0; e < ndim; ++e) hx_assert_eq(n.rhou(i, j, k, e), m[e], "momentum balance");
    });
    hx_reach("end");
}
// what leaves a cell through a face enters its neighbour; totals change by the flux through the
// outer faces only; with periodic ghost cells they do not change at all
void conservation()
{
    int const L = hx_choice("long", 0, ndim - 1);
    bool const periodic = hx_choice("periodic", 0, 1);
    Grid g = line(L, 2);
    sym_metric(g);
    hx_divmode(geom == Geometry::Geom_spherical && ndim == 3 ? 1 : 0);
    double const dt = hx_pos("dt");
    UFRiemann const rs;
    NoGravity const gr;
    UFEos const eos;
    Old const o = mk_old(g, 0);
    if (periodic) // wrap every direction
        each_cell(g, [&](int const* c, bool) {
            int q[3] = {c[0], c[1], c[2]};
            for (int d = 0; d < ndim; ++d) {
                int const N = g.Nx_local_ng[d];
                q[d] = (c[d] - 1 + N) % N + 1;
            }
            for (int s = 0; s < 2; ++s)
                for (int d = 0; d < ndim; ++d) {
                    o.rho_rec(c[0], c[1], c[2], s, d) = o.rho_rec(q[0], q[1], q[2], s, d);
                    o.E_rec(c[0], c[1], c[2], s, d) = o.E_rec(q[0], q[1], q[2], s, d);
                    for (int e = 0; e < ndim; ++e) o.rhou_rec(c[0], c[1], c[2], s, d, e) = o.rhou_rec(q[0], q[1], q[2], s, d, e);
                }
        });
    if (periodic) // faces shared through the wrap have one area
        for (int k = 0; k < g.Nx_local_wg[2]; ++k)
            for (int j = 0; j < g.Nx_local_wg[1]; ++j)
                for (int i = 0; i < g.Nx_local_wg[0]; ++i)
                    for (int d = 0; d < ndim; ++d) {
                        int c[3] = {i, j, k}, q[3] = {i, j, k};
                        if (c[d] != g.Nx_local_ng[d] + 1) continue;
                        q[d] = 1;
                        g.ds(i, j, k, d) = g.ds(q[0], q[1], q[2], d);
                    }
    New const n = mk_new(g, 0);
    run_godunov(g, rs, gr, eos, dt, o, n);
    double dm = 0, dE = 0, dp[3] = {0, 0, 0}, bm = 0, bE = 0, bp[3] = {0, 0, 0};
    each_cell(g, [&](int const* c, bool in) {
        if (!in) return;
        int const i = c[0], j = c[1], k = c[2];
        double const v = g.dv(i, j, k);
        dm += v * (n.rho(i, j, k) - o.rho(i, j, k));
        dE += v * (n.E(i, j, k) - o.E(i, j, k));
        for (int e = 0; e < ndim; ++e) dp[e] += v * (n.rhou(i, j, k, e) - o.rhou(i, j, k, e));
        for (int d = 0; d < ndim; ++d) {
            int a[3] = {i, j, k}, b[3] = {i, j, k};
            --a[d];
            ++b[d];
            if (c[d] == 1) {
                EulerFlux const f = rs(face(o, a, 1, d), face(o, c, 0, d), d, eos);
                double const s = g.ds(i, j, k, d);
                bm += f.rho * s;
                bE += f.E * s;
                for (int e = 0; e < ndim; ++e) bp[e] += f.rhou[e] * s;
            }
            if (c[d] == g.Nx_local_ng[d]) {
                EulerFlux const f = rs(face(o, c, 1, d), face(o, b, 0, d), d, eos);
                double const s = g.ds(b[0], b[1], b[2], d);
                bm -= f.rho * s;
                bE -= f.E * s;
                for (int e = 0; e < ndim; ++e) bp[e] -= f.rhou[e] * s;
            }
        }
    });
    hx_assert_eq(dm, dt * bm, "the total mass changes by the mass flux through the outer faces");
    hx_assert_eq(dE, dt * bE, "the total energy changes by the energy flux through the outer faces");
    if (periodic) {
        hx_assert_eq(dm, 0, "the total mass is constant in a periodic box");
        hx_assert_eq(dE, 0, "the total energy is constant in a periodic box");
    }
    if (geom == Geometry::Geom_cartesian)
        for (int e = 0; e < ndim; ++e) {
            hx_assert_eq(dp[e], dt * bp[e], "the total momentum changes by the momentum flux through the outer faces");
            if (periodic) hx_assert_eq(dp[e], 0, "the total momentum is constant in a periodic box");
        }
    hx_reach("end");
}
}
template <class RS>
static void scalar_update(RS const& rs, int d, int nfx)
{
    Grid g = line(d, 1);
    sym_metric(g);
    double const dt = hx_pos("dt");
    NoGravity const gr;
    UFEos const eos;
    Old const o = mk_old(g, nfx);
    New const n = mk_new(g, nfx);
    hx_divmode(1); // the new density is assumed not to be zero
    run_godunov(g, rs, gr, eos, dt, o, n);
    int const c[3] = {1, ndim > 1 ? 1 : 0, ndim > 2 ? 1 : 0};
    double const w = dt / g.dv(c[0], c[1], c[2]);
    double const rn = n.rho(c[0], c[1], c[2]);
    hx_assume(rn > 0);
    for (int f = 0; f < nfx; ++f) {
        double m = o.rho(c[0], c[1], c[2]) * o.fx(c[0], c[1], c[2], f);
        for (int e = 0; e < ndim; ++e) {
            int a[3] = {c[0], c[1], c[2]}, b[3] = {c[0], c[1], c[2]};
            --a[e];
            ++b[e];
            double const ml = rs(face(o, a, 1, e), face(o, c, 0, e), e, eos).rho, mr = rs(face(o, c, 1, e), face(o, b, 0, e), e, eos).rho;
            double const xl = ml < 0 ? o.fx_rec(c[0], c[1], c[2], 0, e, f) : o.fx_rec(a[0], a[1], a[2], 1, e, f);
            double const xr = mr < 0 ? o.fx_rec(b[0], b[1], b[2], 0, e, f) : o.fx_rec(c[0], c[1], c[2], 1, e, f);
            m += w * (ml * xl * g.ds(c[0], c[1], c[2], e) - mr * xr * g.ds(b[0], b[1], b[2], e));
        }
        double const x = n.fx(c[0], c[1], c[2], f);
        hx_assert_le(0, x, "a scalar is not negative");
        hx_assert_le(x, 1, "a scalar is at most one");
        hx_assert(!(m >= 0 && m <= rn) || x * rn == m, "scalar mass is transported by the mass flux from the upwind side");
        hx_assert(!(m < 0) || x == 0, "a negative scalar is clipped to zero");
        hx_assert(!(m > rn) || x == 1, "a scalar above one is clipped to one");
    }
    hx_reach("end");
}
extern "C" {
// passive scalars: conservative, upwinded and bounded
void scalars_pattern()
{
    int const d = hx_choice("dir", 0, ndim - 1);
    scalar_update(PosRiemann {hx_choice("sign", 0, 1) ? 1 : -1}, d, 2);
}
void scalars_any() { scalar_update(UFRiemann(), 0, 1); }
// a scalar that is uniform stays uniform whatever the flow does
void scalar_uniform()
{
    int const d = hx_choice("dir", 0, ndim - 1);
    Grid g = line(d, 2);
    sym_metric(g);
    double const dt = hx_pos("dt"), q = hx_nonneg("q"), q1 = hx_nonneg("1-q");
    double const x = q / (q + q1 + 1);
    PosRiemann const rs {hx_choice("sign", 0, 1) ? 1 : -1};
    NoGravity const gr;
    UFEos const eos;
    Old const o = mk_old(g, 1);
    put(o.fx, x);
    put(o.fx_rec, x);
    New const n = mk_new(g, 1);
    hx_divmode(1); // the new density is assumed not to be zero
    run_godunov(g, rs, gr, eos, dt, o, n);
    each_cell(g, [&](int const* c, bool in) {
        if (in) hx_assert_eq(n.fx(c[0], c[1], c[2], 0), x, "a uniform scalar stays uniform");
    });
    hx_reach("end");
}
}
// ---- Hancock prediction
struct Rec
{
    KV_double_5d rho, E, P;
    KV_double_6d rhou, fx, u;
};
static Rec mk_rec(Grid const& g, int nfx)
{
    Rec r {v5(g, "rho_rec"), v5(g, "E_rec"), v5(g, "P_rec"), v6(g, "rhou_rec", ndim), v6(g, "fx_rec", nfx), v6(g, "u_rec", ndim)};
    sym(r.rho, "rho_rec", hx_pos);
    sym(r.E, "E_rec", hx_pos);
    sym(r.P, "P_rec", hx_pos);
    sym(r.rhou, "rhou_rec");
    sym(r.fx, "fx_rec");
    sym(r.u, "u_rec");
    return r;
}
static Rec copy(Grid const& g, Rec const& o, int nfx)
{
    Rec r {v5(g, "rho_r"), v5(g, "E_r"), v5(g, "P_r"), v6(g, "rhou_r", ndim), v6(g, "fx_r", nfx), v6(g, "u_r", ndim)};
    Kokkos::deep_copy(r.rho, o.rho);
    Kokkos::deep_copy(r.E, o.E);
    Kokkos::deep_copy(r.P, o.P);
    Kokkos::deep_copy(r.rhou, o.rhou);
    Kokkos::deep_copy(r.fx, o.fx);
    Kokkos::deep_copy(r.u, o.u);
    return r;
}
extern "C" {
void hancock_formula()
{
    int const nfx = 1;
    Grid g = line(hx_choice("long", 0, ndim - 1), 2);
    sym_metric(g);
    double const dt = hx_pos("dt");
    UFGravity const gr;
    UFEos const eos;
    Rec const o = mk_rec(g, nfx), n = copy(g, o, nfx);
    hx_divmode(1); // the predicted density is assumed not to be zero
    HancockExtrapolationReconstruction<UFEos, UFGravity>(eos).execute(g.range, g, gr, dt, n.u, n.P, n.rho, n.rhou, n.E, n.fx);
    each_cell(g, [&](int const* c, bool in) {
        int const i = c[0], j = c[1], k = c[2];
        if (!in) {
            for (int s = 0; s < 2; ++s)
                for (int d = 0; d < ndim; ++d) {
                    hx_assert_eq(n.rho(i, j, k, s, d), o.rho(i, j, k, s, d), "faces outside the range are left alone");
                    hx_assert_eq(n.E(i, j, k, s, d), o.E(i, j, k, s, d), "faces outside the range are left alone");
                    hx_assert_eq(n.fx(i, j, k, s, d, 0), o.fx(i, j, k, s, d, 0), "faces outside the range are left alone");
                }
            return;
        }
        double const w = dt / g.dv(i, j, k);
        double dr = 0, dE = 0, dm[3] = {0, 0, 0}, df = 0; // change common to every face
        for (int d = 0; d < ndim; ++d) {
            EulerPrim q[2];
            EulerFlux f[2];
            int b[3] = {i, j, k};
            ++b[d];
            double const area[2] = {g.ds(i, j, k, d), g.ds(b[0], b[1], b[2], d)};
            for (int s = 0; s < 2; ++s) {
                q[s].rho = o.rho(i, j, k, s, d);
                q[s].P = o.P(i, j, k, s, d);
                for (int e = 0; e < ndim; ++e) q[s].u[e] = o.u(i, j, k, s, d, e);
                double ek = 0;
                for (int e = 0; e < ndim; ++e) ek += q[s].rho * sq(q[s].u[e]) / 2;
                double const un = q[s].u[d];
                double const sg = (s ? -1 : 1) * w * area[s];
                dr += sg * q[s].rho * un;
                dE += sg * (ek + eos.compute_evol_from_pres(q[s].rho, q[s].P) + q[s].P) * un;
                for (int e = 0; e < ndim; ++e) dm[e] += sg * (q[s].rho * q[s].u[e] * un + (e == d ? q[s].P : 0));
                df += sg * q[s].rho * un * o.fx(i, j, k, s, d, 0);
            }
            Src const s = geo_source(g, c, d, q[0], q[1], w, eos);
            for (int e = 0; e < ndim; ++e) dm[e] += s.m[e];
        }
        for (int s = 0; s < 2; ++s)
            for (int d = 0; d < ndim; ++d) {
                double gE = 0;
                for (int e = 0; e < ndim; ++e) gE += dt * gr(i, j, k, e) * o.rhou(i, j, k, s, d, e);
                hx_assert_eq(n.rho(i, j, k, s, d), o.rho(i, j, k, s, d) + dr, "density of every face advances by the same half step");
                hx_assert_eq(n.E(i, j, k, s, d), o.E(i, j, k, s, d) + dE + gE, "energy of every face");
                for (int e = 0; e < ndim; ++e)
                    hx_assert_eq(n.rhou(i, j, k, s, d, e), o.rhou(i, j, k, s, d, e) + dm[e] + dt * gr(i, j, k, e) * o.rho(i, j, k, s, d), "momentum of every face");
                hx_assert_eq(n.fx(i, j, k, s, d, 0) * n.rho(i, j, k, s, d), o.fx(i, j, k, s, d, 0) * o.rho(i, j, k, s, d) + df, "scalar mass of every face");
                hx_assert_eq(n.P(i, j, k, s, d), o.P(i, j, k, s, d), "the primitive faces are read only");
            }
    });
    hx_reach("end");
}
// with a zero time step the faces are the reconstructed ones, converted
void zero_step()
{
    int const d = hx_choice("dir", 0, ndim - 1);
    Grid g = line(d, 1);
    sym_metric(g);
    hx_divmode(geom == Geometry::Geom_spherical && ndim == 3 ? 1 : 0);
    UFGravity const gr;
    PG const eos = mk_pg();
    Rec const n = mk_rec(g, 1);
    KV_double_3d const rho = v3(g, "rho"), P = v3(g, "P");
    KV_double_4d const u = v4(g, "u", ndim), fx = v4(g, "fx", 1);
    sym(rho, "rho", hx_pos);
    sym(P, "P", hx_pos);
    sym(u, "u");
    sym(fx, "fx");
    poison(n.rho);
    poison(n.E);
    poison(n.rhou);
    poison(n.fx);
    poison(n.P);
    poison(n.u);
    MUSCLHancockHydroReconstruction<PG, UFGravity> const m(
            factory_face_reconstruction("Constant"), std::make_unique<HancockExtrapolationReconstruction<PG, UFGravity>>(eos), eos, n.P, n.u);
    m.execute(g.range, g, gr, 0, rho, u, P, fx, n.rho, n.rhou, n.E, n.fx);
    int const c[3] = {1, ndim > 1 ? 1 : 0, ndim > 2 ? 1 : 0};
    for (int s = 0; s < 2; ++s)
        for (int d = 0; d < ndim; ++d) {
            double const r = rho(c[0], c[1], c[2]);
            double ek = 0;
            for (int e = 0; e < ndim; ++e) ek += r * sq(u(c[0], c[1], c[2], e)) / 2;
            hx_assert_eq(n.rho(c[0], c[1], c[2], s, d), r, "density");
            hx_assert_eq(n.E(c[0], c[1], c[2], s, d), ek + eos.compute_evol_from_pres(r, P(c[0], c[1], c[2])), "energy");
            for (int e = 0; e < ndim; ++e) hx_assert_eq(n.rhou(c[0], c[1], c[2], s, d, e), r * u(c[0], c[1], c[2], e), "momentum");
            hx_assert_eq(n.fx(c[0], c[1], c[2], s, d, 0), fx(c[0], c[1], c[2], 0), "scalar");
        }
    hx_reach("end");
}
// the chain used by the code: every face value is the reconstruction of its own variable
void chain_wiring()
{
    int const d = hx_choice("dir", 0, ndim - 1);
    Grid g = line(d, 1);
    sym_metric(g);
    UFGravity const gr;
    UFEos const eos;
    struct MarkRec : IFaceReconstruction
    { // an arbitrary reconstruction: any function of the cell value, the side and the direction
        void execute(Range const& r, Grid const&, KV_cdouble_3d const& v, KV_double_5d const& f) const final
        {
            auto const [b, e] = cell_range(r);
            for (int i = b[0]; i < e[0]; ++i)
                for (int j = b[1]; j < e[1]; ++j)
                    for (int k = b[2]; k < e[2]; ++k)
                        for (int s = 0; s < 2; ++s)
                            for (int d = 0; d < ndim; ++d) {
                                double const a[3] = {v(i, j, k), double(s), double(d)};
                                f(i, j, k, s, d) = hx_uf_pos("rec", a, 3);
                            }
        }
    };
    struct Noop : IExtrapolationReconstruction<UFGravity>
    {
        void execute(Range const&, Grid const&, UFGravity const&, double const dt, KV_cdouble_6d const& u, KV_cdouble_5d const& P, KV_double_5d const& r, KV_double_6d const& m, KV_double_5d const& E, KV_double_6d const& fx) const final
        {
            put(r, dt);
            put(fx, u(1, ndim > 1 ? 1 : 0, ndim > 2 ? 1 : 0, 0, 0, 0));
            put(E, P(1, ndim > 1 ? 1 : 0, ndim > 2 ? 1 : 0, 1, 0));
            (void)m;
        }
    };
    bool const ext = hx_choice("extrapolate", 0, 1);
    struct Nop : IExtrapolationReconstruction<UFGravity>
    {
        void execute(Range const&, Grid const&, UFGravity const&, double const, KV_cdouble_6d const&, KV_cdouble_5d const&, KV_double_5d const&, KV_double_6d const&, KV_double_5d const&, KV_double_6d const&) const final {}
    };
    Rec const n = mk_rec(g, 2);
    KV_double_3d const rho = v3(g, "rho"), P = v3(g, "P");
    KV_double_4d const u = v4(g, "u", ndim), fx = v4(g, "fx", 2);
    sym(rho, "rho", hx_pos);
    sym(P, "P", hx_pos);
    sym(u, "u");
    sym(fx, "fx");
    poison(n.rho);
    poison(n.E);
    poison(n.rhou);
    poison(n.fx);
    poison(n.P);
    poison(n.u);
    std::unique_ptr<IExtrapolationReconstruction<UFGravity>> x;
    if (ext) x = std::make_unique<Noop>();
    else x = std::make_unique<Nop>();
    MUSCLHancockHydroReconstruction<UFEos, UFGravity> const m(std::make_unique<MarkRec>(), std::move(x), eos, n.P, n.u);
    double const dt = hx_pos("dt");
    m.execute(g.range, g, gr, dt, rho, u, P, fx, n.rho, n.rhou, n.E, n.fx);
    int const c[3] = {1, ndim > 1 ? 1 : 0, ndim > 2 ? 1 : 0};
    auto const rec = [&](double v, int s, int d) {
        double const a[3] = {v, double(s), double(d)};
        return hx_uf_pos("rec", a, 3);
    };
    for (int s = 0; s < 2; ++s)
        for (int d = 0; d < ndim; ++d) {
            double const r = rec(rho(c[0], c[1], c[2]), s, d), p = rec(P(c[0], c[1], c[2]), s, d);
            double ek = 0;
            for (int e = 0; e < ndim; ++e) ek += r * sq(rec(u(c[0], c[1], c[2], e), s, d)) / 2;
            hx_assert_eq(n.rho(c[0], c[1], c[2], s, d), ext ? dt : r, "face density is the reconstructed density, then advanced");
            hx_assert_eq(n.E(c[0], c[1], c[2], s, d), ext ? rec(P(c[0], c[1], c[2]), 1, 0) : ek + eos.compute_evol_from_pres(r, p), "face energy from reconstructed primitive variables");
            for (int e = 0; e < ndim; ++e) hx_assert_eq(n.rhou(c[0], c[1], c[2], s, d, e), r * rec(u(c[0], c[1], c[2], e), s, d), "face momentum from reconstructed primitive variables");
            for (int f = 0; f < 2; ++f)
                hx_assert_eq(n.fx(c[0], c[1], c[2], s, d, f), ext ? rec(u(c[0], c[1], c[2], 0), 0, 0) : rec(fx(c[0], c[1], c[2], f), s, d), "face scalars");
        }
    hx_reach("end");
}
}
// ---- gravity alone
struct ZeroRiemann
{
    template <class EoS>
    auto operator()(EulerCons const&, EulerCons const&, int, EoS const&) const noexcept -> EulerFlux
    {
        EulerFlux f;
        f.rho = 0;
        for (int c = 0; c < ndim; ++c) f.rhou[c] = 0;
        f.E = 0;
        return f;
    }
};
// ---- states at rest and uniform flows, through the real chain
template <class G>
static void chain(Grid const& g, char const* face_rec, char const* solver, G const& gr, PG const& eos, double dt, KV_double_3d const& rho, KV_double_4d const& rhou, KV_double_3d const& E, KV_double_4d const& u, KV_double_3d const& P, KV_double_4d const& fx, New const& n, int nfx)
{
    Rec const r {v5(g, "rho_rec"), v5(g, "E_rec"), v5(g, "P_rec"), v6(g, "rhou_rec", ndim), v6(g, "fx_rec", nfx), v6(g, "u_rec", ndim)};
    MUSCLHancockHydroReconstruction<PG, G> const m(factory_face_reconstruction(face_rec), std::make_unique<HancockExtrapolationReconstruction<PG, G>>(eos), eos, r.P, r.u);
    m.execute(g.range.with_ghosts(1), g, gr, dt / 2, rho, u, P, fx, r.rho, r.rhou, r.E, r.fx);
    factory_godunov_scheme<PG, G>(solver, eos)->execute(g.range, g, gr, dt, rho, rhou, E, fx, r.rho, r.rhou, r.E, r.fx, n.rho, n.rhou, n.E, n.fx);
}
static void real_metric(Grid& g)
{ // the mesh of the code, at arbitrary increasing positions
    KV_double_1d const x[3] = {KV_double_1d("x0_glob", g.Nx_local_wg[0] + 1), KV_double_1d("x1_glob", g.Nx_local_wg[1] + 1), KV_double_1d("x2_glob", g.Nx_local_wg[2] + 1)};
    for (int d = 0; d < 3; ++d) {
        double p = geom == Geometry::Geom_spherical && d == 0 ? hx_pos("rmin") : hx_real(idx("xmin", d).c_str());
        for (std::size_t i = 0; i < x[d].size(); ++i) {
            x[d](i) = p;
            p += hx_pos((idx("h", d) + std::to_string(i)).c_str());
        }
    }
    g.set_grid(x[0], x[1], x[2]);
}
static void still(char const* face_rec, char const* solver, bool moving)
{
    Grid g(cells(1), {0, 0, 0}, 2);
    hx_divmode(1); // cells have a volume
    real_metric(g);
    double const dt = hx_pos("dt");
    PG const eos = mk_pg();
    KV_double_3d const rho = v3(g, "rho"), P = v3(g, "P"), E = v3(g, "E");
    KV_double_4d const u = v4(g, "u", ndim), fx = v4(g, "fx", 1), rhou = v4(g, "rhou", ndim);
    put(rho, hx_pos("rho"));
    put(P, hx_pos("P"));
    double const q = hx_nonneg("q");
    put(fx, q / (q + 1));
    double v[3];
    for (int d = 0; d < ndim; ++d) v[d] = moving ? hx_real(idx("u", d).c_str()) : 0;
    for (int k = 0; k < g.Nx_local_wg[2]; ++k)
        for (int j = 0; j < g.Nx_local_wg[1]; ++j)
            for (int i = 0; i < g.Nx_local_wg[0]; ++i)
                for (int d = 0; d < ndim; ++d) u(i, j, k, d) = v[d];
    conv_prim_to_cons(g.range.all_ghosts(), eos, rho, u, P, rhou, E);
    New const n = mk_new(g, 1);
    NoGravity const gr;
    if (geom == Geometry::Geom_cartesian || ndim == 1) hx_divmode(0);
    chain(g, face_rec, solver, gr, eos, dt, rho, rhou, E, u, P, fx, n, 1);
    int const c[3] = {2, ndim > 1 ? 2 : 0, ndim > 2 ? 2 : 0};
    hx_assert_eq(n.rho(c[0], c[1], c[2]), rho(c[0], c[1], c[2]), "density is unchanged");
    hx_assert_eq(n.E(c[0], c[1], c[2]), E(c[0], c[1], c[2]), "energy is unchanged");
    for (int d = 0; d < ndim; ++d) hx_assert_eq(n.rhou(c[0], c[1], c[2], d), rhou(c[0], c[1], c[2], d), "momentum is unchanged");
    hx_assert_eq(n.fx(c[0], c[1], c[2], 0), fx(c[0], c[1], c[2], 0), "scalars are unchanged");
    hx_reach("end");
}
extern "C" {
void gravity_only()
{
    Grid g = line(hx_choice("long", 0, ndim - 1), 2);
    sym_metric(g);
    double const dt = hx_pos("dt");
    UFGravity const gr;
    UFEos const eos;
    Old const o = mk_old(g, 1);
    if (geom == Geometry::Geom_spherical) put(g.ds, 1); // no geometric pressure term
    if (geom == Geometry::Geom_spherical) put(o.rhou_rec, 0);
    New const n = mk_new(g, 1);
    hx_divmode(1);
    run_godunov(g, ZeroRiemann(), gr, eos, dt, o, n);
    each_cell(g, [&](int const* c, bool in) {
        if (!in) return;
        int const i = c[0], j = c[1], k = c[2];
        double w = 0;
        hx_assert_eq(n.rho(i, j, k), o.rho(i, j, k), "gravity leaves the density alone");
        for (int d = 0; d < ndim; ++d) {
            hx_assert_eq(n.rhou(i, j, k, d), o.rhou(i, j, k, d) + dt * o.rho(i, j, k) * gr(i, j, k, d), "gravity accelerates along its own direction");
            w += gr(i, j, k, d) * o.rhou(i, j, k, d);
        }
        hx_assert_eq(n.E(i, j, k), o.E(i, j, k) + dt * w, "gravity changes the energy by its work");
    });
    hx_reach("end");
}
// the prediction applies the same acceleration to every face, with that face's own density
void gravity_predicted()
{
    Grid g = line(hx_choice("long", 0, ndim - 1), 2);
    sym_metric(g);
    double const dt = hx_pos("dt");
    UFGravity const gr;
    UFEos const eos;
    Rec const o = mk_rec(g, 0);
    put(o.u, 0);
    put(o.P, 0);
    hx_divmode(geom == Geometry::Geom_spherical && ndim == 3 ? 1 : 0);
    Rec const n = copy(g, o, 0);
    HancockExtrapolationReconstruction<UFEos, UFGravity>(eos).execute(g.range, g, gr, dt, n.u, n.P, n.rho, n.rhou, n.E, n.fx);
    each_cell(g, [&](int const* c, bool in) {
        if (!in) return;
        int const i = c[0], j = c[1], k = c[2];
        for (int s = 0; s < 2; ++s)
            for (int f = 0; f < ndim; ++f) {
                double w = 0;
                for (int d = 0; d < ndim; ++d) {
                    hx_assert_eq(n.rhou(i, j, k, s, f, d), o.rhou(i, j, k, s, f, d) + dt * o.rho(i, j, k, s, f) * gr(i, j, k, d), "gravity accelerates the face state along its own direction");
                    w += gr(i, j, k, d) * o.rhou(i, j, k, s, f, d);
                }
                hx_assert_eq(n.rho(i, j, k, s, f), o.rho(i, j, k, s, f), "gravity leaves the face density alone");
                hx_assert_eq(n.E(i, j, k, s, f), o.E(i, j, k, s, f) + dt * w, "gravity changes the face energy by its work");
            }
    });
    hx_reach("end");
}
// spherical geometry: the curvature terms of a state uniform over the cell are their exact cell averages
void curvature()
{
    Grid g(cells(1), {0, 0, 0}, 1);
    hx_divmode(1);
    real_metric(g);
    double const dt = hx_pos("dt"), rho = hx_pos("rho"), P = hx_nonneg("P");
    int const a = hx_choice("component", 0, ndim - 1); // only this velocity component
    double const v = hx_real("v");
    PG const eos = mk_pg();
    Old const o = mk_old(g, 0);
    EulerPrim q;
    q.rho = rho;
    q.P = P;
    for (int d = 0; d < ndim; ++d) q.u[d] = d == a ? v : 0;
    EulerCons const Q = to_cons(q, eos);
    put(o.rho, Q.rho);
    put(o.rho_rec, Q.rho);
    put(o.E, Q.E);
    put(o.E_rec, Q.E);
    for (int k = 0; k < g.Nx_local_wg[2]; ++k)
        for (int j = 0; j < g.Nx_local_wg[1]; ++j)
            for (int i = 0; i < g.Nx_local_wg[0]; ++i)
                for (int d = 0; d < ndim; ++d) {
                    o.rhou(i, j, k, d) = Q.rhou[d];
                    for (int s = 0; s < 2; ++s)
                        for (int f = 0; f < ndim; ++f) o.rhou_rec(i, j, k, s, f, d) = Q.rhou[d];
                }
    New const n = mk_new(g, 0);
    run_godunov(g, ZeroRiemann(), NoGravity(), eos, dt, o, n);
    int const i = 1, j = ndim > 1 ? 1 : 0, k = ndim > 2 ? 1 : 0;
    double const r0 = g.x0(i), r1 = g.x0(i + 1);
    double const rr = (r1 * r1 - r0 * r0) / 2; // integral of r dr
    double area = 0, cot = 0; // integrals over the angles of sin(th) and cos(th)
    double const full = Kokkos::numbers::pi;
    if (ndim == 1) area = 4 * full;
    if (ndim > 1) {
        double const w = ndim == 2 ? 2 * full : g.x2(k + 1) - g.x2(k);
        area = (Kokkos::cos(g.x1(j)) - Kokkos::cos(g.x1(j + 1))) * w;
        cot = (Kokkos::sin(g.x1(j + 1)) - Kokkos::sin(g.x1(j))) * w;
    }
    double const V = (r1 * r1 * r1 - r0 * r0 * r0) / 3 * area;
    double const ur2 = a > 0 ? rho * v * v : 0; // u_th^2 + u_phi^2
    hx_assert_eq((n.rhou(i, j, k, 0) - Q.rhou[0]) * V, dt * (2 * P + ur2) * rr * area, "radial curvature term");
    if (ndim > 1) hx_assert_eq((n.rhou(i, j, k, 1) - Q.rhou[1]) * V, dt * (P + (a == 2 ? rho * v * v : 0)) * rr * cot, "polar curvature term");
    if (ndim > 2) hx_assert_eq(n.rhou(i, j, k, 2), Q.rhou[2], "no azimuthal curvature term for a single component");
    hx_reach("end");
}
void rest_hll() { still("VanLeer", "HLL", false); }
void rest_hllc() { still("Minmod", "HLLC", false); }
void rest_lm() { still("VanAlbada", "Low Mach", false); }
void uniform_hll() { still("Minmod", "HLL", true); }
void uniform_hllc() { still("VanLeer", "HLLC", true); }
void uniform_lm() { still("Constant", "Low Mach", true); }
// the named solver is the one used, any other name is refused
void solver_factory()
{
    for (char const* n : {"", "hll", "HLLC ", "LowMach", "Roe"}) {
        bool thrown = false;
        try {
            factory_godunov_scheme<PG, NoGravity>(n, mk_pg());
        } catch (std::runtime_error&) {
            thrown = true;
        }
        hx_assert(thrown, "an unknown Riemann solver is refused");
    }
    int const w = hx_choice("which", 0, 2);
    char const* const names[3] = {"HLL", "HLLC", "Low Mach"};
    auto const s = factory_godunov_scheme<PG, NoGravity>(names[w], mk_pg());
    auto* const p = s.get();
    bool const ok[3] = {dynamic_cast<RiemannBasedGodunovScheme<HLL, NoGravity, PG>*>(p) != nullptr, dynamic_cast<RiemannBasedGodunovScheme<HLLC, NoGravity, PG>*>(p) != nullptr, dynamic_cast<RiemannBasedGodunovScheme<Splitting, NoGravity, PG>*>(p) != nullptr};
    for (int i = 0; i < 3; ++i) hx_assert(ok[i] == (i == w), "the name selects the Riemann solver");
    hx_reach("end");
}
}
