# The program: main.cpp with everything it calls
def APP(src, entries, gravity="Uniform", **kw):
    kw.setdefault("defs", [])
    return U(src, entries, pdi=True, c_src=INI, cflags=["-I" + os.path.dirname(_d) + "/harness/app"], **{**kw, "defs": kw["defs"] + ["MY_SETUP=HX_SETUP", "HERACLESPP_GRAVITY_" + gravity]})
_main = ["src/main.cpp"]
_app = ["PDI and HDF5 as for the output files; MPI, Kokkos, the clock and the file system are replaced by models"]
prop("C34", "The run steps, writes and stops when it should, also after a restart",
     "Time advances by positive steps not larger than the stable step. A step is shortened only to land on an output time (first output plus multiples of the frequency) or on the end time, and none of these is passed. Outputs are written at the start (if any frequency is set), at output times, every iter_frequency steps, at the end, and at no other time, each with its own number, iteration and time. The run ends at the end time, at max_iter or when the time of the job is over; its processes stop together, however their clocks differ. A run continued from its last file steps and writes as one that was never stopped.",
     ["inputs", "histories"], "all start times, durations, frequencies, first output times and sequences of stable steps; all combinations of output frequencies; runs stopped by iterations, by an earlier end time or by the time of the job",
     "No test runs the program. The counters go wrong only when output times, end and iteration limits fall in a particular order, some only after a restart.",
     _main, [("main", "src/main.cpp")],
     [APP("sched.cpp", ["no_outputs", "time_outputs", "time_outputs3", "iter_outputs", "both_outputs", "both_outputs3", "job_time", "job_time_two", "resume_iter", "resume_job", "resume_end_none", "resume_end_time", "resume_end_iter", "resume_end_both"], ndim=1)],
     opts=dict(witness=1, time=400, steps=200000000), bounds="one cell, gas at rest (two processes with two cells each where their clocks differ); up to three steps, restarts after one or two; start time not negative; iteration frequency 1 or 2",
     assumptions=_app + ["the end time and the first output lie after the start; the output parameters are the same after a restart, which begins before its end time; times are real numbers (no rounding)"])
prop("C40", "The program refuses what it cannot compute",
     "Unknown names of mesh, reconstruction, Riemann solver, user step or boundary condition, a face without a condition, a missing or unreadable parameter file make the run fail with nothing computed or written. A face takes its own condition, else that of its direction, else the common one. When the internal energy of a state is negative or not a number on any process, that state, with its temperature, is written under its own number, no step is made from it, and the run fails on all processes. In every case MPI is finalised exactly if it was initialised.",
     ["inputs", "configurations"], "every face and level of specification; invalid states at the start and after every step, any negative value or NaN",
     "No test runs the program.",
     _main + ["src/boundary.cpp", "src/boundary_factory.hpp", "src/analysis/internal_energy.cpp", "src/mpi_scope_guard.cpp"], [("main", "src/main.cpp"), ("factory_boundary_construction", "src/boundary_factory.hpp")],
     [APP("sched.cpp", ["refused", "chosen_conditions"] + (["invalid_energy", "invalid_energy_two", "command_line"] if d == 1 else []), ndim=d) for d in (1, 2, 3)],
     opts=dict(witness=1, time=400, steps=200000000), bounds="one cell, or two processes with two cells each; up to three steps", assumptions=_app)
prop("C41", "A step of the program is the scheme's, on any number of processes",
     "From an initial state, boundary conditions, gravity and a user step, the fields written after a step are those of the scheme: predicted states at the faces, flux differences, gravity taken from the state before the step, then the user step with the time and the step; conditions are applied to every state used. What is written does not depend on the number of processes. A mesh asked to follow the flow is moved by one cell after a step, with the state, until its outer border would reach the largest radius; from then on the outer face has a null gradient.",
     ["inputs", "histories"], "all states of a supersonic flow with gravity and heating; all passive scalars, inflow values and sources in a uniform flow to the left or right; every sequence of moves; one and two processes",
     "Tests call single kernels. The order of the operations of a step, which arrays they get and when conditions and halos are renewed is decided in the main loop only.",
     _main + ["src/moving_grid/moving_grid.cpp", "src/boundary_distribute.cpp", "src/hydro/hydro_reconstruction.hpp", "src/hydro/godunov_scheme.hpp"],
     [("main", "src/main.cpp"), ("shift_grid", "src/moving_grid/moving_grid.cpp")],
     [APP("compose.cpp", ["step_flow", "scalars_one", "scalars_two"], ndim=1)],
     opts=dict(witness=1, time=600, steps=200000000), bounds="two cells per process, one or two processes, two ghost cells; one step (flow) or two (passive scalars); reconstruction Constant, HLL; Uniform gravity",
     assumptions=_app + ["the flow is supersonic and faster downstream (the formulas of the wave speeds are the subject of C14)"])
prop("C42", "A continued run computes what a run that was not stopped computes",
     "A run that is stopped after any step and continued from its last file, on the same or another number of processes, makes the same states, mesh, times and counters as a run that is not stopped: gravity (uniform, of a point mass, of the enclosed mass), boundary conditions, passive scalars and the position of a moving mesh are those of the continued state.",
     ["inputs", "histories", "configurations"], "all states of a supersonic flow with gravity (spherical: all densities at fixed speeds) and two passive scalars; all passive scalars and sources of a uniform flow with every sequence of moves of the mesh; from one process to two and back",
     "No test runs the program; what a restart forgets shows only in the step that follows it, in a configuration that needs it.",
     _main + ["src/io/io.cpp", "src/io/config.yaml.cpp", "src/gravity/gravity.cpp"],
     [("main", "src/main.cpp"), ("read_pdi", "src/io/io.cpp"), ("make_internal_mass_gravity", "src/gravity/gravity.cpp")],
     [APP("compose.cpp", ["go_on_one", "go_on_two", "go_on_less", "scalars_stopped", "scalars_stopped_at_the_end"], ndim=1)]
     + [APP("compose.cpp", ["go_on_mass"], gravity=g, ndim=1, geom=q) for g, q in (("Point_mass", "Spherical"), ("Internal_mass", "Spherical"), ("Point_mass", "Cartesian"), ("Internal_mass", "Cartesian"))],
     opts=dict(witness=1, time=600, steps=200000000), bounds="two to four cells, one or two processes, two ghost cells; one step before or after the stop; reconstruction Constant, HLL",
     assumptions=_app)
