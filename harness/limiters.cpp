// Slope limiters
#include <hx.h>
#include <Kokkos_Core.hpp>
#include <slope_limiters.hpp>
using namespace hclpp;
static double min_(double a, double b) { return a < b ? a : b; }
static double max_(double a, double b) { return a < b ? b : a; }

// same-sign slopes, parametrised by sign and order
static void mono(double& r, double& l)
{
    int const s = hx_choice("sign", 0, 1) ? 1 : -1;
    double const a = hx_pos("a"), t = hx_nonneg("t");
    if (hx_choice("order", 0, 1)) { r = s * a; l = s * (a + t); } else { l = s * a; r = s * (a + t); }
}
template <class Lim>
static void properties(double bound)
{
    Lim const lim;
    double r, l;
    mono(r, l);
    double const s = lim(r, l);
    double const sg = l > 0 ? 1 : -1;
    double const m = min_(sg * l, sg * r), M = max_(sg * l, sg * r);
    hx_assert_le(0, sg * s, "the limited slope never has the opposite sign");
    hx_assert_le(sg * s, bound * m, "the limited slope is bounded by a multiple of the smaller one-sided slope");
    hx_assert_le(sg * s, M, "the limited slope does not exceed the larger one-sided slope");
    hx_assert_eq(lim(l, r), s, "left and right play the same role");
    hx_assert_eq(lim(-r, -l), -s, "changing the sign of the data changes the sign of the slope");
    double const k = hx_pos("k");
    hx_assert_eq(lim(k * r, k * l), k * s, "scaling the data scales the slope");
    hx_assert_eq(lim(r, r), r, "equal one-sided slopes are kept");
    hx_reach("end");
}
template <class Lim>
static void extremum()
{
    Lim const lim;
    double const a = hx_nonneg("a"), b = hx_nonneg("b");
    if (hx_choice("sign", 0, 1)) hx_assert_eq(lim(a, -b), 0, "the slope is zero at an extremum");
    else hx_assert_eq(lim(-a, b), 0, "the slope is zero at an extremum");
    hx_reach("end");
}
extern "C" {
void vanleer_props() { properties<VanLeer>(2); }
void minmod_props() { properties<Minmod>(1); }
void vanalbada_props() { properties<VanAlbada>(2); }
void vanleer_extremum() { extremum<VanLeer>(); }
void minmod_extremum() { extremum<Minmod>(); }
void vanalbada_extremum() { extremum<VanAlbada>(); }
void constant_zero()
{
    double const r = hx_real("r"), l = hx_real("l");
    hx_assert_eq(Constant()(r, l), 0, "first order reconstruction has no slope");
    hx_reach("end");
}
// the published formulas
void formulas()
{
    double r, l;
    mono(r, l);
    hx_assert_eq(VanLeer()(r, l), 2 * r * l / (r + l), "Van Leer: harmonic mean of the slopes");
    hx_assert_eq(VanAlbada()(r, l), r * l * (r + l) / (r * r + l * l), "Van Albada formula");
    double const sg = l > 0 ? 1 : -1;
    hx_assert_eq(Minmod()(r, l), sg * min_(sg * r, sg * l), "minmod: the smaller slope");
    hx_reach("end");
}
}
