W = "The unit tests of the repository cover an integer cast and an output helper only; "
prop("C11", "Perfect gas relations are exact inverses and physically consistent",
     "For a perfect gas with adiabatic index above one, pressure, internal energy and temperature determine each other consistently: every conversion followed by its inverse returns the original value, and the values are those of the ideal gas law. The sound speed is real, positive and its square is gamma P / rho. Constructing a gas is refused exactly when the adiabatic index is not finite and above one or the molecular weight is not finite and positive, and a state is called valid exactly when density and pressure are finite and positive.",
     ["inputs"], "all densities, pressures, energies, temperatures, adiabatic indices and molecular weights (real arithmetic); all doubles including infinities and NaN for the constructor and the validity test",
     W + "no state is ever evaluated, and sampled values cannot show an identity for every state.",
     ["src/thermodynamics/perfect_gas.hpp", "src/thermodynamics/perfect_gas.cpp", "src/units/units.hpp"],
     [("PerfectGas conversions", "src/thermodynamics/perfect_gas.hpp"), ("PerfectGas constructor", "src/thermodynamics/perfect_gas.cpp")],
     [U("eos.cpp", ["pg_formulas"], opts=dict(witness=1)), U("eos.cpp", ["pg_ctor", "pg_valid"], opts=dict(ieee=1, witness=2))],
     bounds="none on the values: loop-free code, one symbolic state")
prop("C12", "Gas plus radiation: temperature inversion and sound speed are correct",
     "For a gas in equilibrium with radiation, pressure and energy are the sum of the gas and the radiation contributions. The temperature recovered from a pressure or from an energy is the exact root of that relation to within a few times the convergence tolerance whenever the iteration reports convergence, and the sound speed is the isentropic derivative of the pressure. Unusable parameters and invalid states are refused as for the perfect gas.",
     ["inputs"], "all densities, temperatures, adiabatic indices and molecular weights, from gas to radiation dominated; inversions that converge within two Newton steps (one for the sound speed)",
     W + "nothing evaluates the radiative gas; the Newton iteration has to converge to the right root from every starting point.",
     ["src/thermodynamics/rad_gas.hpp", "src/thermodynamics/rad_gas.cpp", "src/units/units.hpp"],
     [("RadGas temperature inversions", "src/thermodynamics/rad_gas.hpp"), ("RadGas sound speed", "src/thermodynamics/rad_gas.hpp")],
     [U("eos.cpp", ["rg_formulas", "rg_temp_from_pres", "rg_temp_from_evol", "rg_sound_speed"], opts=dict(witness=1, time=240)),
      U("eos.cpp", ["rg_ctor", "rg_valid"], opts=dict(ieee=1, witness=2))],
     bounds="Newton loops that stop after at most two steps (one step inside the sound speed); the value pow(x,1/4) is the exact fourth root")
prop("C16", "Slope limiters keep reconstruction monotone",
     "A limited slope is zero at a local extremum, never has a sign opposite to the two one-sided slopes, is bounded by a fixed multiple of the smaller one and never exceeds the larger one. Limiters treat left and right alike, are odd and homogeneous in the data, keep equal slopes, and compute their published formulas.",
     ["inputs"], "all pairs of one-sided slopes and all limiters",
     W + "the monotonicity conditions are inequalities over all pairs of slopes.",
     ["src/hydro/slope_limiters.hpp"], [("VanLeer, Minmod, VanAlbada, Constant", "src/hydro/slope_limiters.hpp")],
     [U("limiters.cpp", ["vanleer_props", "minmod_props", "vanalbada_props", "vanleer_extremum", "minmod_extremum", "vanalbada_extremum", "constant_zero", "formulas"], opts=dict(witness=2))],
     bounds="none: loop-free code over the reals (overflow of the ratio of two slopes is outside)")
RS3 = ["hll", "hllc", "lm"]
prop("C14", "Intercell fluxes are consistent, upwinded and resolve contacts",
     "For equal left and right states every Riemann solver returns the exact Euler flux of that state; when all waves move to one side, the flux is the one of the upwind state. The two-wave solver returns the HLL average, and the contact-resolving solvers return the exact flux for an isolated contact or shear discontinuity and leave a stationary contact untouched. No admissible pair of states produces a division by zero or a square root of a negative number.",
     ["inputs"], "all pairs of admissible states (positive density and pressure, any velocity), all directions, 1D to 3D, any adiabatic index",
     W + "no Riemann problem is ever solved there; wave patterns form a continuum with several sign cases.",
     ["src/hydro/riemann_solver.hpp", "src/hydro/euler_equations.hpp"],
     [("HLL, HLLC, Splitting", "src/hydro/riemann_solver.hpp"), ("compute_flux, to_prim, to_cons", "src/hydro/euler_equations.hpp")],
     [U("riemann.cpp", ["euler_flux", "hll_formula"] + ["consistency_" + s for s in RS3] + ["supersonic_hll", "supersonic_hllc", "contact_hllc", "contact_lm", "still_hllc", "still_lm"], ndim=n) for n in (1, 2, 3)],
     opts=dict(witness=1), bounds="one interface, perfect gas; every wave configuration (supersonic either way, subsonic, six orderings of the acoustic waves)")
prop("C15", "Intercell fluxes are mirror symmetric and isotropic",
     "Exchanging the left and right states and reversing the normal velocity reverses the mass and energy fluxes and keeps the momentum flux, for every Riemann solver. Permuting the coordinate axes of both states permutes the momentum flux in the same way, and adding a tangential velocity common to both sides only advects it.",
     ["inputs"], "all pairs of admissible states, all directions, 1D to 3D, any adiabatic index",
     W + "a symmetry relates two evaluations for every input.",
     ["src/hydro/riemann_solver.hpp", "src/hydro/euler_equations.hpp"], [("HLL, HLLC, Splitting", "src/hydro/riemann_solver.hpp")],
     [U("riemann.cpp", ["mirror_" + s for s in RS3] + (["isotropy_" + s for s in RS3] + ["tangential_hllc", "tangential_lm"] if n > 1 else []), ndim=n) for n in (1, 2, 3)],
     opts=dict(witness=1), bounds="one interface, perfect gas; the exact tie (zero mass flux) of the contact solver is excluded from the mirror relation")
