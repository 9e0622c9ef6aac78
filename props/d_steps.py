INI = ["vendor/inih/src/ini.c"]
prop("C23", "The time step respects the CFL condition on every process",
     "The time step is the time the fastest signal, |velocity| + sound speed summed over the directions, needs to cross a cell, measured with the physical lengths of the cell in the geometry in use, taken over all cells of all processes; every process gets the same value.",
     ["inputs", "configurations"], "all states, cell sizes and sound speeds, all sign combinations of the velocity, 1D to 3D, both geometries, one to four processes in every direction",
     W + "the extreme cell can be any cell of any process, and lengths only matter in curved geometry.",
     ["src/hydro/time_step.hpp"], [("time_step", "src/hydro/time_step.hpp")],
     [U("analysis.cpp", ["cfl"], ndim=n, geom=g) for n, g in NC] + [U("analysis.cpp", ["cfl_world"], ndim=n) for n in (1, 2, 3)],
     opts=dict(witness=1, time=400), bounds="two cells along one direction on one process; up to four processes of one or two cells")
prop("C24", "The pressure fix blends continuously between two consistent updates",
     "Where the internal energy is not small compared to the kinetic energy the pressure fix changes nothing. Elsewhere it replaces the internal energy by a blend of the conservative update and of the non-conservative one, which advects internal energy upwind and compresses with the velocity averaged over each face of the cell, every face being counted once with its own area; the kinetic energy of the updated state is kept. Cells outside the range are untouched.",
     ["inputs"], "all states, velocities, areas, volumes, thresholds and time steps; any equation of state; 1D to 3D",
     W + "it acts only in highly supersonic cells, and errors in the second and third directions do not show in 1D runs.",
     ["src/hydro/pressure_fix.hpp"], [("pressure_fix", "src/hydro/pressure_fix.hpp")],
     [U("analysis.cpp", ["pfix", "pfix_continuous"], ndim=n) for n in (1, 2, 3)],
     opts=dict(witness=1, time=400), bounds="one cell and its neighbours; in 2D and 3D the velocities on the two sides of a face have the same sign (all combinations of faces)",
     assumptions=["denominators (densities, kinetic energy times threshold) are not zero"])
prop("C25", "Physical boundary conditions fill exactly the ghost layer of their face",
     "Null gradient repeats the cell next to the border in every ghost layer; reflection mirrors the inner cells and reverses the normal momentum only; periodic conditions leave what the exchange brought. All variables, passive scalars included, are filled in all ghost cells of the face, edges and corners included, and no other cell is changed. Conditions are made by name, unknown names are refused.",
     ["inputs", "configurations"], "all cell values, every face, every kind, one and two ghost layers, 1D to 3D; all names up to 13 characters",
     W + "a wrong mirror index or a missing component shows only on a particular face or depth.",
     ["src/boundary.cpp", "src/boundary.hpp", "src/boundary_factory.hpp"], [("null_gradient_condition, reflexive_condition", "src/boundary.cpp")],
     [U("bc.cpp", ["one_face"], ndim=n, c_src=INI) for n in (1, 2, 3)] + [U("bc.cpp", ["made_by_name"], ndim=1, c_src=INI)],
     opts=dict(witness=1, time=400), bounds="one or two ghost layers, up to three inner cells across the face, one along it, up to two passive scalars")
prop("C26", "Ghost exchange makes the decomposition invisible",
     "After the exchange every ghost cell, edges and corners included, holds the value of the cell of the whole (periodic) domain it stands for, whatever the process grid; with any mix of boundary conditions the ghost cells are the same as on one process. No process waits for a message that is never sent.",
     ["inputs", "configurations", "schedules"], "all cell values; one to four processes, one or two directions divided; all mixes of boundary conditions; host and device buffers; 1D to 3D",
     W + "no test runs on several processes; corner cells need a particular order of exchanges.",
     ["src/boundary_distribute.cpp", "src/boundary_distribute.hpp"], [("DistributedBoundaryCondition::ghost_sync", "src/boundary_distribute.cpp"), ("DistributedBoundaryCondition::operator()", "src/boundary_distribute.hpp")],
     [U("bc.cpp", ["periodic_world", "division_invisible"], ndim=n, c_src=INI) for n in (1, 2, 3)],
     opts=dict(witness=1, time=500), bounds="as many cells as ghost layers per process, or one more; one or two ghost layers (3D: one); up to three processes in one direction or 2 x 2",
     assumptions=["every process has at least as many cells as ghost layers in a divided direction (the code does not check it)"])
prop("C27", "Boundary priorities decide edges and corners",
     "With a priority list, a ghost cell that lies outside several borders takes the condition of the face listed first; without one, later directions overwrite earlier ones. The condition of every border face is applied exactly once and that of inner faces never. Lists that do not name every face exactly once are refused.",
     ["inputs", "configurations"], "every order of the faces in 1D, 2D and 3D (720); words that are misspelt, missing or repeated",
     W + "the order of six faces has 720 values, of which an example uses one.",
     ["src/boundary_distribute.cpp", "src/boundary_distribute.hpp", "inputs/example_init.ini"], [("generate_order", "src/boundary_distribute.cpp")],
     [U("bc.cpp", ["priorities", "no_priorities", "priorities_refused"], ndim=n, c_src=INI) for n in (1, 2, 3)],
     opts=dict(witness=1, time=400), bounds="one cell per process, one ghost layer")
prop("C28", "Mirrored arrays never show stale data",
     "Whatever the history of accesses, a reader on either side sees the latest write, made on either side; overwriting without reading does not copy; copies and read-only handles share data and state; the side that is behind is the one reported.",
     ["histories"], "any state a history can leave (arbitrary stamps below 2^32 - 16, arbitrary data), one access of every kind, then reads on both sides: an induction over histories; all histories of three accesses from construction; any two accesses repeated 150 times (33000 times when they only overwrite), then any access",
     W + "stale data needs a particular sequence of accesses on two memories.",
     ["src/dual_view/dual_view.hpp"], [("DualView", "src/dual_view/dual_view.hpp")],
     [U("dual.cpp", ["any_state"], ndim=1, cflags=["-fno-access-control"], white_box=True), U("dual_pub.cpp", ["histories", "long_histories", "const_handle"], ndim=1, opts=dict(steps=100000000))],
     opts=dict(witness=1), bounds="arrays of two elements; stamps below 2^32 - 16 (the counter is not handled when it wraps)")
prop("C29", "The moving mesh shifts all fields and nodes together",
     "A shift moves every conserved field and passive scalar by one cell along the first direction, on every process and in ghost cells too, moves the nodes by one and continues the ratio of the cell sizes at the outer end, keeps the other directions, and the mesh of the process (sizes, centres, nodes) is that of the shifted nodes.",
     ["inputs"], "all field values and node positions; one to three processes, every position; one and two ghost layers; 1D to 3D",
     W + "the mesh lives on two memories and is cut per process; a missed component shows only with that component.",
     ["src/moving_grid/moving_grid.cpp"], [("shift_grid, shift_array", "src/moving_grid/moving_grid.cpp")],
     [U("analysis.cpp", ["shift"], ndim=n) for n in (1, 2, 3)],
     opts=dict(witness=1), bounds="four cells in the first direction, one in the others, two passive scalars")
prop("C30", "Integrals and extrema cover the whole domain once",
     "The integral of a field counts the volume of every cell of the whole domain once; the smallest internal energy is the smallest over the whole domain, and negative or not a number if that of any cell is not a number; every process gets the same value. The temperature is computed for every cell of the range and no other.",
     ["inputs", "configurations"], "all values and volumes, one to four processes in every direction, 1D to 3D",
     W + "ghost cells or processes that are counted twice, or missed, do not show on one process with uniform data.",
     ["src/analysis/integration.cpp", "src/analysis/internal_energy.cpp", "src/analysis/temperature.hpp"], [("integrate", "src/analysis/integration.cpp"), ("minimum_internal_energy", "src/analysis/internal_energy.cpp")],
     [U("analysis.cpp", ["integral_world", "min_energy_world", "min_energy_nan", "temperature_cells"], ndim=n) for n in (1, 2, 3)],
     opts=dict(witness=1), bounds="up to four processes of one or two cells")
prop("C31", "Gravity fields are those of their sources",
     "Uniform gravity is the given vector in every cell. A point mass attracts with G M / r^2 along the first direction, nothing across. The enclosed mass at the centre of a cell is the central mass plus the mass of the shells below, with densities averaged by volume over each shell across all processes; dividing the first direction is refused.",
     ["inputs", "configurations"], "all masses, densities, volumes and radii; one or two processes across the shell; ghost cells included; 1D to 3D",
     W + "the half cell at each radius and the average over processes vanish in uniform tests.",
     ["src/gravity/gravity.cpp", "src/gravity/gravity.hpp"], [("make_internal_mass_gravity", "src/gravity/gravity.cpp"), ("make_point_mass_gravity", "src/gravity/gravity.cpp")],
     [U("analysis.cpp", ["uniform_gravity", "point_mass", "internal_mass", "internal_mass_refused"], ndim=n) for n in (1, 2, 3)],
     opts=dict(witness=1, time=400), bounds="two shells of up to 2 x 2 cells and one or two ghost layers; in 2D and 3D the shell thicknesses are fixed numbers",
     assumptions=["shell volumes are not zero"])
prop("C32", "Radioactive heating follows the nickel and cobalt decay chain",
     "The nickel step adds to every cell of the range, for every time and nickel fraction, the energy released by the decay chain of nickel 56 and cobalt 56, never removes energy, and changes nothing else. Without a user step nothing changes. Steps are made by name, unknown names are refused.",
     ["inputs"], "all times, time steps, densities, fractions and energies (relative accuracy 1e-9 of the decay constants); all names up to 12 characters",
     W + "the decay law is a combination of two exponentials; a wrong sign or constant is plausible at any one time.",
     ["src/user_step/user_step.cpp", "src/user_step/user_step_factory.cpp"], [("HeatNickelStep::execute", "src/user_step/user_step.cpp")],
     [U("analysis.cpp", ["heating"], ndim=n) for n in (1, 2, 3)] + [U("analysis.cpp", ["no_user_step"], ndim=1)],
     opts=dict(witness=1), bounds="two cells", assumptions=["the exponential is an arbitrary positive function: the two terms are compared separately"])
prop("C33", "Initial profiles are spread over the right cells",
     "Spreading a value or a profile along the first direction over a field gives every inner cell its value, the same in all components, and leaves ghost cells alone.",
     ["inputs"], "all values, 0 to 2 ghost layers, 1D to 3D",
     W + "the offset by the ghost layers differs between active and inactive directions.",
     ["src/broadcast.cpp"], [("broadcast", "src/broadcast.cpp")],
     [U("analysis.cpp", ["broadcast_cells"], ndim=n) for n in (1, 2, 3)],
     opts=dict(witness=1), bounds="two cells per direction, two components")
