prop("C13", "Primitive and conservative variables convert exactly both ways",
     "Momentum is density times velocity and total energy is kinetic plus internal energy; converting primitive variables to conservative ones and back returns the original density, velocity and pressure. The array versions do this for every cell of the requested range, including the requested ghost layers, and leave density and every other cell untouched.",
     ["inputs"], "all states with positive density and pressure; all cell values of a small grid, with and without ghost cells, in 1D to 3D, with an arbitrary equation of state",
     W + "no state is ever converted there, and the identity has to hold for every state and every cell.",
     ["src/hydro/euler_equations.hpp", "src/hydro/array_conversion.hpp"],
     [("to_prim, to_cons, compute_ek, compute_evol", "src/hydro/euler_equations.hpp"), ("conv_prim_to_cons, conv_cons_to_prim", "src/hydro/array_conversion.hpp")],
     [U("convert.cpp", ["pointwise", "cells_inner", "cells_ghost", "cells_arrays"], ndim=n) for n in (1, 2, 3)],
     opts=dict(witness=1), bounds="two cells in the first direction, one in the others, one ghost layer")
prop("C17", "Linear reconstruction is bounded, conservative and exact on linear data",
     "The two face values of a cell lie within the range of the cell and its two neighbours, so that no new extremum appears, and on evenly spaced cells they average to the cell value. Linear data are reproduced exactly by the limited reconstruction on any spacing, constant data by every reconstruction, and the constant one copies the cell value. The reconstruction named in the input is the one built, and an unknown name is refused.",
     ["inputs"], "all cell values and all cell sizes of a small grid, all limiters, 1D to 3D",
     W + "monotonicity is an inequality over all data and all mesh spacings.",
     ["src/hydro/limited_linear_reconstruction.hpp", "src/hydro/face_reconstruction.hpp", "src/hydro/face_reconstruction.cpp", "src/hydro/slope_limiters.hpp"],
     [("LimitedLinearReconstruction", "src/hydro/limited_linear_reconstruction.hpp"), ("factory_face_reconstruction", "src/hydro/face_reconstruction.hpp")],
     [U("facerec.cpp", ["formula", "linear_vanleer", "linear_minmod", "linear_vanalbada", "bounded_vanleer", "bounded_minmod", "bounded_vanalbada", "flat_constant"] + (["factory"] if n == 1 else []), ndim=n) for n in (1, 2, 3)],
     opts=dict(witness=1), bounds="one or two cells per direction with one ghost layer on each side")
CONF = [(n, g) for n in (1, 2, 3) for g in ("Cartesian", "Spherical")]
GB = "two cells in one direction (each in turn), one in the others, one ghost layer; arbitrary face areas, volumes and cell sizes"
prop("C18", "Half-step prediction follows the flux balance of each cell",
     "Every reconstructed face state of a cell is advanced by the same flux balance of that cell (exact Euler fluxes of its own two faces in each direction), plus the geometric source terms in spherical geometry, plus gravity acting on that face state; passive scalar masses are advanced with the mass flux. With a zero time step the faces are the reconstructed primitive values converted to conservative ones, each variable reconstructed from its own data. Nothing outside the range is modified.",
     ["inputs"], "all cell and face values, time steps, gravity fields, cell sizes, face areas and volumes of a small grid; arbitrary equation of state and reconstruction; both geometries, 1D to 3D",
     W + "the prediction is a sum of dozens of terms per face, direction and geometry, none of which is exercised.",
     ["src/hydro/extrapolation_reconstruction.hpp", "src/hydro/hydro_reconstruction.hpp", "src/hydro/source_terms.hpp", "src/hydro/euler_equations.hpp"],
     [("HancockExtrapolationReconstruction", "src/hydro/extrapolation_reconstruction.hpp"), ("MUSCLHancockHydroReconstruction", "src/hydro/hydro_reconstruction.hpp")],
     [U("hydro.cpp", ["hancock_formula", "zero_step", "chain_wiring"], ndim=n, geom=g) for n, g in CONF],
     opts=dict(witness=1), bounds=GB)
prop("C19", "The update conserves mass, momentum and energy",
     "Without gravity, what leaves a cell through a face enters its neighbour: the total mass and energy (and the total momentum in Cartesian geometry) change only by the fluxes through the outer faces of the domain, and are exactly constant when the domain is periodic, whatever the numerical flux is.",
     ["inputs"], "all face states, time steps, areas and volumes; an arbitrary numerical flux function; both geometries, 1D to 3D",
     W + "conservation is an identity over every state and every cell layout.",
     ["src/hydro/godunov_scheme.hpp"], [("RiemannBasedGodunovScheme", "src/hydro/godunov_scheme.hpp")],
     [U("hydro.cpp", ["conservation"], ndim=n, geom=g) for n, g in CONF], opts=dict(witness=1), bounds=GB)
prop("C20", "The update applies every flux, source and scalar exactly once",
     "The new state of a cell is the old one plus the time step times the balance of the numerical fluxes at its faces (each evaluated from the states on its two sides), the geometric source terms in spherical geometry and gravity. Passive scalars are carried by the mass flux from the upwind side, stay within zero and one, and a uniform scalar stays uniform. The solver named in the input is the one used and an unknown name is refused; ghost cells are not written.",
     ["inputs"], "all cell and face values, time steps, gravity fields, areas and volumes; an arbitrary numerical flux and equation of state; every sign pattern of the mass fluxes; both geometries, 1D to 3D",
     W + "the update combines terms per direction, side and geometry, with upwinding on the sign of each mass flux.",
     ["src/hydro/godunov_scheme.hpp", "src/hydro/source_terms.hpp"],
     [("RiemannBasedGodunovScheme", "src/hydro/godunov_scheme.hpp"), ("factory_godunov_scheme", "src/hydro/godunov_scheme.hpp"), ("geometric source terms", "src/hydro/source_terms.hpp")],
     [U("hydro.cpp", ["update_formula", "scalar_uniform"], ndim=n, geom=g) for n, g in CONF]
     + [U("hydro.cpp", ["scalars_any", "scalars_pattern"] + (["solver_factory"] if n == 1 else []), ndim=n, opts=dict(time=300)) for n in (1, 2, 3)],
     opts=dict(witness=1), bounds=GB + "; scalars: one cell, new density positive")
prop("C21", "Gravity accelerates the gas and changes its energy by the work done",
     "In the prediction and in the update, gravity adds to the momentum along each direction the time step times the density times the acceleration of that cell in that direction, changes the energy by exactly the work of that force on the old momentum, and leaves density alone.",
     ["inputs"], "all cell states, time steps and gravity fields of a small grid, both geometries, 1D to 3D",
     W + "a wrong index or sign in one direction only shows for fields that vary with position and direction.",
     ["src/hydro/godunov_scheme.hpp", "src/hydro/extrapolation_reconstruction.hpp"],
     [("gravity sources of the update", "src/hydro/godunov_scheme.hpp"), ("gravity sources of the prediction", "src/hydro/extrapolation_reconstruction.hpp")],
     [U("hydro.cpp", ["gravity_only", "gravity_predicted"], ndim=n, geom=g) for n, g in CONF], opts=dict(witness=1), bounds=GB)
prop("C22", "Uniform states are preserved and curvature terms are exact",
     "A gas of uniform density and pressure at rest stays exactly at rest in Cartesian and spherical geometry, on the mesh metric computed by the code, and a uniform flow stays uniform in Cartesian geometry, with every solver and reconstruction. In spherical geometry the radial and polar curvature terms of a state that is uniform over a cell are their exact cell averages (2P/r plus centrifugal term, cot(theta) terms).",
     ["inputs"], "all densities, pressures, velocities, scalars, time steps, adiabatic indices and node positions (any spacing); all solvers; 1D to 3D",
     W + "well-balancedness couples the metric, reconstruction, prediction, solver and source terms.",
     ["src/hydro/godunov_scheme.hpp", "src/hydro/extrapolation_reconstruction.hpp", "src/hydro/source_terms.hpp", "src/mesh/geometry.cpp", "src/mesh/grid.cpp"],
     [("RiemannBasedGodunovScheme", "src/hydro/godunov_scheme.hpp"), ("spherical and Cartesian metric", "src/mesh/geometry.cpp"), ("source terms", "src/hydro/source_terms.hpp")],
     [U("hydro.cpp", ["rest_hll", "rest_hllc", "rest_lm"] + (["uniform_hll", "uniform_hllc", "uniform_lm"] if g == "Cartesian" else ["curvature"]), ndim=n, geom=g) for n, g in CONF],
     opts=dict(witness=1), bounds="one updated cell with two ghost layers, mesh nodes at arbitrary increasing positions; sine and cosine are arbitrary functions with values in [-1,1] on the unit circle")
