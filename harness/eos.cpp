// Equations of state
#include <hx.h>
#include <Kokkos_Core.hpp>
#include <ndim.hpp>
#include <concepts.hpp>
#include <perfect_gas.hpp>
#include <rad_gas.hpp>
#include <perfect_gas.cpp>
#include <rad_gas.cpp>
#include <stdexcept>
using namespace hclpp;
using thermodynamics::PerfectGas;
using thermodynamics::RadGas;
// values of the constants, written independently of the units header (SI)
static double const kB = 1.380649e-23, mP = 1.672649e-27, aR = 7.565733e-16;
static void near(double a, double b, const char* l) { hx_assert(a <= b * (1 + 1e-5) && a >= b * (1 - 1e-5), l); }

template <class G>
static void ctor()
{
    double const g = hx_real("gamma"), w = hx_real("mmw");
    bool const ok = g > 1 && w > 0 && g - g == 0 && w - w == 0;
    bool thrown = false;
    try {
        G const eos(g, w);
        hx_assert(eos.adiabatic_index() == g, "the adiabatic index is the one given");
        hx_assert(eos.mean_molecular_weight() == w, "the mean molecular weight is the one given");
    } catch (std::domain_error&) {
        thrown = true;
    }
    hx_assert(thrown == !ok, "an unusable adiabatic index or mean molecular weight is refused, a usable one accepted");
    if (thrown) hx_reach("refused"); else hx_reach("accepted");
}
template <class G>
static void valid()
{
    double const r = hx_real("rho"), p = hx_real("P");
    G const eos(1.5, 1.);
    bool const want = r > 0 && p > 0 && r - r == 0 && p - p == 0;
    hx_assert(eos.is_valid(r, p) == want, "a state is valid exactly when density and pressure are finite and positive");
    hx_reach("end");
}
// Newton iterations of the radiative temperature: stop a path once the loop has
// tested its convergence more than `budget` times (the bound of the claim)
static int budget = 0;
static void on_abs() { if (budget-- == 0) hx_stop("iteration bound"); }
struct Root { double rho, w, T, X; };
// A density and a pressure or energy X = a T^4 + C1 T with a known exact root T. tau is the
// larger of the two starting guesses (radiation only, gas only).
static Root mk_root(double third, double g1)
{
    double const tau = hx_pos("tau");
    double const a = units::ar * tau * tau * tau / third;
    Root s;
    s.w = hx_pos("mmw");
    double C1;
    if (hx_choice("regime", 0, 1)) { // radiation dominates the first guess: a tau^4 = X
        double const x = hx_real_inx("x", 0, 0.75);
        s.T = tau * x;
        C1 = a * (1 - x * x * x * x) / x;
        s.X = a * tau;
        hx_assume(1 - x * x * x * x > x);
    } else { // gas: C1 tau = X
        double const m = hx_real_inx("m", 0, 1);
        double const x = 1 - m * m * m * m;
        s.T = tau * x;
        C1 = a * x * x * x * x / (m * m * m * m);
        s.X = C1 * tau;
        hx_assume(x <= m);
    }
    s.rho = C1 * s.w * units::mp * g1 / units::kb;
    return s;
}
extern "C" {
// IEEE mode: every double, including infinities and NaN
void pg_ctor() { ctor<PerfectGas>(); }
void rg_ctor() { ctor<RadGas>(); }
void pg_valid() { valid<PerfectGas>(); }
void rg_valid() { valid<RadGas>(); }
void pg_formulas()
{
    double const g1 = hx_pos("gamma-1"), w = hx_pos("mmw"), rho = hx_pos("rho"), x = hx_pos("x");
    PerfectGas const eos(1 + g1, w);
    // P = (gamma-1) e, T = P mmw mp / (rho kb), c^2 = gamma P / rho
    hx_assert_eq(eos.compute_evol_from_pres(rho, x), x / g1, "internal energy from pressure");
    hx_assert_eq(eos.compute_pres_from_evol(rho, x), x * g1, "pressure from internal energy");
    hx_assert_eq(eos.compute_pres_from_evol(rho, eos.compute_evol_from_pres(rho, x)), x, "pressure survives the round trip through the energy");
    hx_assert_eq(eos.compute_evol_from_pres(rho, eos.compute_pres_from_evol(rho, x)), x, "energy survives the round trip through the pressure");
    hx_assert_eq(eos.compute_pres_from_temp(rho, eos.compute_temp_from_pres(rho, x)), x, "pressure survives the round trip through the temperature");
    hx_assert_eq(eos.compute_temp_from_pres(rho, eos.compute_pres_from_temp(rho, x)), x, "temperature survives the round trip through the pressure");
    hx_assert_eq(eos.compute_evol_from_temp(rho, eos.compute_temp_from_evol(rho, x)), x, "energy survives the round trip through the temperature");
    hx_assert_eq(eos.compute_temp_from_evol(rho, eos.compute_evol_from_temp(rho, x)), x, "temperature survives the round trip through the energy");
    hx_assert_eq(eos.compute_temp_from_evol(rho, eos.compute_evol_from_pres(rho, x)), eos.compute_temp_from_pres(rho, x), "both routes to the temperature agree");
    near(eos.compute_temp_from_pres(rho, x), x * w * mP / (rho * kB), "ideal gas temperature");
    double const c = eos.compute_speed_of_sound(rho, x);
    hx_assert(c > 0, "the sound speed is positive");
    hx_assert_eq(c * c, (1 + g1) * x / rho, "sound speed");
    hx_reach("end");
}
void rg_formulas()
{
    double const g1 = hx_pos("gamma-1"), w = hx_pos("mmw"), rho = hx_pos("rho"), T = hx_pos("T");
    RadGas const eos(1 + g1, w);
    double const pg = rho * kB * T / (w * mP), pr = aR * T * T * T * T / 3;
    near(eos.compute_pres_from_temp(rho, T), pg + pr, "gas plus radiation pressure");
    near(eos.compute_evol_from_temp(rho, T), pg / g1 + 3 * pr, "gas plus radiation energy");
    hx_reach("end");
}

void rg_temp_from_pres()
{
    double const g1 = hx_pos("gamma-1");
    Root const s = mk_root(3, 1);
    RadGas const eos(1 + g1, s.w);
    budget = 2;
    Kokkos::hx_abs_hook = on_abs;
    double const T = eos.compute_temp_from_pres(s.rho, s.X);
    Kokkos::hx_abs_hook = nullptr;
    hx_assert_le(T - s.T, 4e-6, "the temperature from the pressure is not above the exact one by more than the tolerance");
    hx_assert_le(s.T - T, 4e-6, "the temperature from the pressure is not below the exact one by more than the tolerance");
    hx_reach("end");
}
void rg_temp_from_evol()
{
    double const g1 = hx_pos("gamma-1");
    Root const s = mk_root(1, g1);
    RadGas const eos(1 + g1, s.w);
    budget = 2;
    Kokkos::hx_abs_hook = on_abs;
    double const T = eos.compute_temp_from_evol(s.rho, s.X);
    Kokkos::hx_abs_hook = nullptr;
    hx_assert_le(T - s.T, 4e-6, "the temperature from the energy is not above the exact one by more than the tolerance");
    hx_assert_le(s.T - T, 4e-6, "the temperature from the energy is not below the exact one by more than the tolerance");
    hx_reach("end");
}
void rg_sound_speed()
{ // c^2 = dP/drho at constant T + T (dP/dT)^2 / (rho^2 c_v)
    double const g1 = hx_pos("gamma-1");
    Root const s = mk_root(3, 1);
    RadGas const eos(1 + g1, s.w);
    budget = 0;
    Kokkos::hx_abs_hook = on_abs;
    budget = 1;
    double const T = eos.compute_temp_from_pres(s.rho, s.X);
    budget = 1;
    double const c = eos.compute_speed_of_sound(s.rho, s.X);
    Kokkos::hx_abs_hook = nullptr;
    double const C1 = s.rho * units::kb / (s.w * units::mp);
    double const PT = C1 + 4 * units::ar * T * T * T / 3;
    double const eT = C1 / g1 + 4 * units::ar * T * T * T;
    hx_assert(c > 0, "the sound speed is positive");
    hx_assert_eq(c * c, C1 * T / s.rho + T * PT * PT / (s.rho * eT), "sound speed: isentropic derivative of the pressure");
    hx_reach("end");
}
}
