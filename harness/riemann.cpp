// Riemann solvers: consistency, mirror symmetry, upwinding, contacts, isotropy
#include <hx.h>
#include <Kokkos_Core.hpp>
#include <ndim.hpp>
#include <perfect_gas.hpp>
#include <euler_equations.hpp>
#include <riemann_solver.hpp>
#include <perfect_gas.cpp>
using namespace hclpp;
using PG = thermodynamics::PerfectGas;

static PG mk_eos() { return PG(1 + hx_pos("gamma-1"), hx_pos("mmw")); }
// every (rho, P) is (rho, rho c^2 / gamma) for exactly one c > 0: the sound speed
// is used as the input so that square roots stay polynomial
static EulerPrim mk_prim(const char* n, double gamma)
{
    EulerPrim p;
    p.rho = hx_pos((std::string("rho") + n).c_str());
    for (int d = 0; d < ndim; ++d) p.u[d] = hx_real((std::string("u") + n + char('0' + d)).c_str());
    double const c = hx_pos((std::string("c") + n).c_str());
    p.P = p.rho * c * c / gamma;
    return p;
}
// Any pair of states, as a function of the slowest wave speed min(uL-cL, uR-cR)
// and of the gaps to the other acoustic speeds. The six regions (which side has the
// slowest wave, which the fastest, the order of the sound speeds) cover all pairs.
static void mk_pair_ws(EulerPrim& L, EulerPrim& R, double gamma, int d, double ws, bool sub)
{
    int const region = hx_choice("region", 0, 5);
    double const rho1 = hx_pos("rho1"), rho2 = hx_pos("rho2");
    double c1, c2, gap; // 1: the side with the slowest wave
    switch (region % 3) {
    case 0: c1 = hx_pos("c"); c2 = c1 + hx_nonneg("t"); gap = hx_nonneg("gap"); break;
    case 1: {
        c2 = hx_pos("c");
        double const t = hx_nonneg("t");
        c1 = c2 + t;
        gap = 2 * t + hx_nonneg("v");
        break;
    }
    default: c2 = hx_pos("c"); gap = hx_nonneg("gap"); c1 = c2 + (gap + hx_nonneg("v")) / 2; break;
    }
    EulerPrim &p = region < 3 ? L : R, &q = region < 3 ? R : L;
    for (int e = 0; e < ndim; ++e) {
        if (e == d) continue;
        p.u[e] = hx_real((std::string("u1") + char('0' + e)).c_str());
        q.u[e] = hx_real((std::string("u2") + char('0' + e)).c_str());
    }
    p.rho = rho1; q.rho = rho2;
    p.u[d] = ws + c1; q.u[d] = ws + gap + c2;
    if (sub) hx_assume(std::fmax(p.u[d] + c1, q.u[d] + c2) >= 0);
    p.P = rho1 * c1 * c1 / gamma; q.P = rho2 * c2 * c2 / gamma;
}
static void mk_pair(EulerPrim& L, EulerPrim& R, double gamma, int d)
{
    switch (hx_choice("regime", 0, 2)) {
    case 0: mk_pair_ws(L, R, gamma, d, hx_pos("ws"), false); break;
    case 1:
        mk_pair_ws(R, L, gamma, d, hx_pos("ws"), false);
        L.u[d] = -L.u[d];
        R.u[d] = -R.u[d];
        break;
    default: mk_pair_ws(L, R, gamma, d, -hx_nonneg("ws"), true);
    }
}
static void eq_flux(EulerFlux const& a, EulerFlux const& b, const char* l)
{
    std::string s(l);
    hx_assert_eq(a.rho, b.rho, (s + ": mass flux").c_str());
    for (int d = 0; d < ndim; ++d) hx_assert_eq(a.rhou[d], b.rhou[d], (s + ": momentum flux").c_str());
    hx_assert_eq(a.E, b.E, (s + ": energy flux").c_str());
}
// the Euler flux written independently of the code under test
static EulerFlux phys_flux(EulerPrim const& p, int d, PG const& eos)
{
    EulerFlux f;
    double ek = 0;
    for (int e = 0; e < ndim; ++e) ek += p.rho * p.u[e] * p.u[e] / 2;
    double const eint = p.P / (eos.adiabatic_index() - 1);
    f.rho = p.rho * p.u[d];
    for (int e = 0; e < ndim; ++e) f.rhou[e] = p.rho * p.u[e] * p.u[d] + (e == d ? p.P : 0.);
    f.E = (ek + eint + p.P) * p.u[d];
    return f;
}

template <class RS> void consistency(RS const& rs)
{
    PG eos = mk_eos();
    EulerPrim p = mk_prim("", eos.adiabatic_index());
    EulerCons c = to_cons(p, eos);
    for (int d = 0; d < ndim; ++d) eq_flux(rs(c, c, d, eos), phys_flux(p, d, eos), "F(U,U) is the physical flux");
    hx_reach("end");
}
extern "C" void consistency_hll() { consistency(HLL()); }
extern "C" void consistency_hllc() { consistency(HLLC()); }
extern "C" void consistency_lm() { consistency(Splitting()); }
extern "C" void euler_flux()
{
    PG eos = mk_eos();
    EulerPrim p = mk_prim("", eos.adiabatic_index());
    EulerCons c = to_cons(p, eos);
    for (int d = 0; d < ndim; ++d) {
        eq_flux(compute_flux(p, d, eos), phys_flux(p, d, eos), "flux from the primitive state");
        eq_flux(compute_flux(c, d, eos), phys_flux(p, d, eos), "flux from the conservative state");
    }
    hx_reach("end");
}

template <class RS> void mirror(RS const& rs, bool tie = true)
{
    PG eos = mk_eos();
    EulerPrim l, r;
    int const d = hx_choice("dir", 0, ndim - 1);
    mk_pair(l, r, eos.adiabatic_index(), d);
    EulerFlux f = rs(to_cons(l, eos), to_cons(r, eos), d, eos);
    if (!tie) hx_assume(f.rho != 0);
    EulerPrim ml = l, mr = r;
    ml.u[d] = -ml.u[d];
    mr.u[d] = -mr.u[d];
    EulerFlux g = rs(to_cons(mr, eos), to_cons(ml, eos), d, eos);
    g.rho = -g.rho;
    g.E = -g.E;
    for (int e = 0; e < ndim; ++e) if (e != d) g.rhou[e] = -g.rhou[e];
    eq_flux(f, g, "mirror image");
    hx_reach("end");
}
extern "C" void mirror_hll() { mirror(HLL()); }
extern "C" void mirror_hllc() { mirror(HLLC(), false); }
extern "C" void mirror_lm() { mirror(Splitting()); }

template <class RS> void isotropy(RS const& rs)
{
    PG eos = mk_eos();
    EulerPrim l, r;
    mk_pair(l, r, eos.adiabatic_index(), 0);
    EulerFlux f = rs(to_cons(l, eos), to_cons(r, eos), 0, eos);
    for (int d = 1; d < ndim; ++d) {
        EulerPrim pl = l, pr = r;
        pl.u[0] = l.u[d]; pl.u[d] = l.u[0];
        pr.u[0] = r.u[d]; pr.u[d] = r.u[0];
        EulerFlux g = rs(to_cons(pl, eos), to_cons(pr, eos), d, eos);
        EulerFlux h = g;
        h.rhou[0] = g.rhou[d];
        h.rhou[d] = g.rhou[0];
        eq_flux(f, h, "swap of axes");
    }
    hx_reach("end");
}
extern "C" void isotropy_hll() { isotropy(HLL()); }
extern "C" void isotropy_hllc() { isotropy(HLLC()); }
extern "C" void isotropy_lm() { isotropy(Splitting()); }

// both acoustic speeds of both sides have the same sign: the flux is the upwind flux
template <class RS> void supersonic(RS const& rs)
{
    PG eos = mk_eos();
    EulerPrim l, r;
    int const d = hx_choice("dir", 0, ndim - 1);
    mk_pair_ws(l, r, eos.adiabatic_index(), d, hx_pos("ws"), false);
    if (hx_choice("side", 0, 1) == 0)
        eq_flux(rs(to_cons(l, eos), to_cons(r, eos), d, eos), phys_flux(l, d, eos), "supersonic to the right: flux of the left state");
    else {
        l.u[d] = -l.u[d];
        r.u[d] = -r.u[d];
        eq_flux(rs(to_cons(r, eos), to_cons(l, eos), d, eos), phys_flux(l, d, eos), "supersonic to the left: flux of the right state");
    }
    hx_reach("end");
}
extern "C" void supersonic_hll() { supersonic(HLL()); }
extern "C" void supersonic_hllc() { supersonic(HLLC()); }

// a contact discontinuity (same pressure, same normal velocity): exact upwind flux
template <class RS> void contact(RS const& rs, bool still)
{
    PG eos = mk_eos();
    EulerPrim l = mk_prim("L", eos.adiabatic_index()), r = mk_prim("R", eos.adiabatic_index());
    int const d = hx_choice("dir", 0, ndim - 1);
    if (still) l.u[d] = 0;
    r.u[d] = l.u[d];
    r.P = l.P;
    EulerFlux f = rs(to_cons(l, eos), to_cons(r, eos), d, eos);
    if (still) {
        EulerFlux e;
        e.rho = 0;
        for (int k = 0; k < ndim; ++k) e.rhou[k] = k == d ? l.P : 0.;
        e.E = 0;
        eq_flux(f, e, "contact at rest: only the pressure flux");
    } else
        eq_flux(f, phys_flux(l.u[d] > 0 ? l : r, d, eos), "moving contact: upwind flux");
    hx_reach("end");
}
extern "C" void contact_hllc() { contact(HLLC(), false); }
extern "C" void contact_lm() { contact(Splitting(), false); }
extern "C" void still_hllc() { contact(HLLC(), true); }
extern "C" void still_lm() { contact(Splitting(), true); }

// the tangential momentum is carried by the mass flux with the upwind tangential velocity
template <class RS> void tangential(RS const& rs)
{
    PG eos = mk_eos();
    EulerPrim l, r;
    int const d = hx_choice("dir", 0, ndim - 1);
    mk_pair(l, r, eos.adiabatic_index(), d);
    EulerFlux f = rs(to_cons(l, eos), to_cons(r, eos), d, eos);
    bool const pos = hx_fork(f.rho > 0), neg = !pos && hx_fork(f.rho < 0);
    for (int k = 0; k < ndim; ++k) {
        if (k == d) continue;
        if (pos) hx_assert_eq(f.rhou[k], f.rho * l.u[k], "tangential momentum is upwinded (mass flux to the right)");
        else if (neg) hx_assert_eq(f.rhou[k], f.rho * r.u[k], "tangential momentum is upwinded (mass flux to the left)");
        else hx_assert_eq(f.rhou[k], 0., "no tangential momentum without mass flux");
    }
    hx_reach("end");
}
extern "C" void tangential_hllc() { tangential(HLLC()); }
extern "C" void tangential_lm() { tangential(Splitting()); }
// HLL: F = (SR FL - SL FR + SL SR (UR - UL)) / (SR - SL) with Davis speeds
extern "C" void hll_formula()
{
    PG eos = mk_eos();
    EulerPrim l, r;
    int const d = hx_choice("dir", 0, ndim - 1);
    double const g = eos.adiabatic_index();
    mk_pair(l, r, g, d);
    EulerCons cl = to_cons(l, eos), cr = to_cons(r, eos);
    EulerFlux f = HLL()(cl, cr, d, eos);
    EulerFlux fl = phys_flux(l, d, eos), fr = phys_flux(r, d, eos);
    double const a = std::sqrt(g * l.P / l.rho), b = std::sqrt(g * r.P / r.rho);
    double sl = std::fmin(0., std::fmin(l.u[d] - a, r.u[d] - b));
    double sr = std::fmax(0., std::fmax(l.u[d] + a, r.u[d] + b));
    hx_assert_eq(f.rho * (sr - sl), sr * fl.rho - sl * fr.rho + sl * sr * (cr.rho - cl.rho), "HLL mass flux");
    hx_assert_eq(f.E * (sr - sl), sr * fl.E - sl * fr.E + sl * sr * (cr.E - cl.E), "HLL energy flux");
    for (int k = 0; k < ndim; ++k) hx_assert_eq(f.rhou[k] * (sr - sl), sr * fl.rhou[k] - sl * fr.rhou[k] + sl * sr * (cr.rhou[k] - cl.rhou[k]), "HLL momentum flux");
    hx_reach("end");
}
