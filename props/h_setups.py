# The test problems
_names = ["advection_gap", "advection_sinus", "eq_hydro_sphe", "gresho_vortex", "heat_nickel", "implosion_test", "kelvin_helmholtz", "rayleigh_taylor", "rayleigh_taylor3d",
          "sedov1d", "sedov2d", "sedov3d", "shock_tube", "shock_wall", "stratified_atm", "v1d"]
def S(name, ndim, entries, geom="Cartesian", **k):
    return U("setups.cpp", entries, ndim=ndim, geom=geom, setup=name, defs=["S_" + name], c_src=INI, **k)
_both = ["state_alone", "state_cut", "defaults"]
_units = [S(n, d, _both) for n, d in (("advection_gap", 1), ("advection_sinus", 1), ("gresho_vortex", 2), ("heat_nickel", 1), ("implosion_test", 2), ("kelvin_helmholtz", 2), ("rayleigh_taylor", 2),
                                      ("rayleigh_taylor3d", 3), ("sedov1d", 1), ("sedov2d", 2), ("shock_tube", 1), ("shock_wall", 1))]
_units += [S("sedov1d", 1, _both, "Spherical"), S("sedov3d", 3, _both, "Spherical"), S("eq_hydro_sphe", 1, _both + ["faces"], "Spherical"), S("stratified_atm", 1, _both + ["faces"]),
           S("sedov2d", 2, ["no_such_problem"], "Spherical"), S("sedov3d", 3, ["no_such_problem"]), S("shock_wall", 1, ["not_provided"])]
_units += [S("stratified_atm", 2, _both + ["faces"]), S("eq_hydro_sphe", 3, ["state_cut", "faces"], "Spherical"), S("stratified_atm", 3, ["state_cut", "faces"]), S("shock_tube", 3, _both), S("shock_wall", 2, _both), S("advection_gap", 2, _both),
           S("heat_nickel", 3, _both, "Spherical"), S("shock_tube", 1, ["state_cut"], "Spherical")]
_units += [S(n, d, _both, "Spherical", tier="thorough") for n, d in (("shock_tube", 3), ("shock_wall", 1), ("eq_hydro_sphe", 2), ("heat_nickel", 1))]
_units += [S(n, d, _both, tier="thorough") for n, d in (("shock_tube", 2), ("shock_wall", 3), ("advection_sinus", 2))]
prop("C43", "The problems start from the state they describe, on any decomposition",
     "Every cell of the mesh starts from the density, velocity, pressure and passive scalars of the problem at its place in the whole mesh, whatever the number of processes and ghost cells: both sides of an interface from the parameters, an explosion in the first, the central or the inner cells, hydrostatic profiles, a vortex, random modes equal on all processes. A parameter the file does not give is 1 (a temperature of the hydrostatic sphere 100). Other cells are left alone. Where a problem sets its own boundary the profile goes on in the ghost cells at rest. A geometry the problem does not exist in, and a boundary, step, mesh or shift criterion it does not provide are refused.",
     ["inputs", "configurations"], "all parameters, node positions, adiabatic indices, fields of gravity and random numbers; one process and a cut in two in every direction; two and three ghost layers",
     "No test starts a problem. A cell index taken as local where it is meant on the whole mesh shows only with two processes.",
     ["src/setups/%s/setup.hpp" % n for n in _names if n != "v1d"] + ["src/default_boundary_setup.hpp", "src/default_user_step.hpp", "src/default_shift_criterion.hpp", "src/default_grid_setup.hpp"],
     [("InitializationSetup::execute", "src/setups/sedov1d/setup.hpp"), ("BoundarySetup::execute", "src/setups/eq_hydro_sphe/setup.hpp"), ("InitializationSetup::execute", "src/setups/rayleigh_taylor/setup.hpp")],
     _units, opts=dict(witness=1, time=300),
     bounds="one or two cells per direction and process; tanh, exp, log, sin, cos, atan2 and pow are arbitrary functions", assumptions=["random numbers are any numbers between 0 and 1", "the ghost cells of a problem's own boundary are checked for a gas at rest"])
prop("C44", "A profile read from a file fills the mesh, and the mesh follows its edge",
     "With the v1d problem every cell takes the density, velocity, pressure and passive scalars of the cell of the file at its place along the first direction, with no velocity across, on any decomposition; the nodes along the first direction are those of the file, the others regular. A file without one of the datasets, of other sizes or not HDF5 is refused with nothing changed and every identifier closed. All processes move the mesh once a cell among the outermost cell_shift reaches the threshold speed, none while no cell within that and the ghost width does; a layer wider than the outer process's mesh is refused by all.",
     ["inputs", "configurations"], "all values; one to four processes, 1D to 3D, one or two ghost layers, up to two passive scalars; the place and value of the fast cell, widths of one to four cells",
     "No test reads a file or moves a mesh.",
     ["src/setups/v1d/setup.hpp", "src/io/config.yaml.cpp", "src/io/io_hdf5.hpp", "src/broadcast.cpp"],
     [("InitializationSetup, GridSetup, UserShiftCriterion", "src/setups/v1d/setup.hpp"), ("io_config", "src/io/config.yaml.cpp")],
     [U("v1d.cpp", ["profile", "nodes_of_the_file", "profile_refused", "outer_edge"], ndim=d, setup="v1d", pdi=True, c_src=INI) for d in (1, 2, 3)],
     opts=dict(witness=1, time=300), bounds="three or four cells along the profile, up to two across; positive threshold speed", assumptions=_pdi)
