# Output and restart files
_io = ["src/io/io.cpp", "src/io/config.yaml.cpp"]
_pdi = ["PDI and its HDF5 plugin are replaced by an interpreter of the configuration in config.yaml.cpp (selections, conditions, collision policies of the plugin as documented); HDF5 keeps files in memory"]
prop("C35", "Every field is at its global place in the output file",
     "An output is one file directory/prefix_<number on eight digits>.h5, whatever was there before. It holds density, pressure, energy, temperature, the velocity components and the passive scalars that exist, each as a dataset of the size of the whole mesh in which every cell has the current value of the process that owns it, written by that process only, without ghost cells; the node positions with and without ghosts; the counters, the time and the adiabatic index; the version and build date as text.",
     ["inputs", "configurations"], "all values; one to four processes cut in each direction or in two; 1D to 3D, one or two ghost layers, up to ten passive scalars; an older file of the same name or none",
     "No test writes a file (PDI is not part of the test build). A wrong offset shows only with several processes or in one direction.",
     _io, [("write_pdi, write_pdi_init", "src/io/io.cpp"), ("io_config", "src/io/config.yaml.cpp")],
     [U("io_files.cpp", ["fields", "many_scalars"] + (["file_names"] if d == 1 else []), ndim=d, pdi=True, c_src=INI) for d in (1, 2, 3)],
     opts=dict(witness=1, time=300), bounds="meshes of 3 x 2 x 3 cells; up to 4 processes; up to 10 passive scalars (the number the file format provides for); file numbers with any last two digits after six choices of leading digits",
     assumptions=_pdi)
prop("C36", "A restart file gives back the state, on any decomposition",
     "Reading an output file gives on every process the density, velocity, pressure, passive scalars of its cells, the node positions, the counters and the time that were written, with any number of processes and any decomposition; host and device see them. A missing file, a file that is not HDF5, or a file whose node arrays do not fit the mesh is refused with nothing changed.",
     ["inputs", "configurations"], "all values; all pairs of decompositions of writer and reader with one to four processes; 1D to 3D, one or two ghost layers, up to two passive scalars; node arrays of other sizes or ranks",
     "No test reads a file. Writer and reader can be wrong in the same way on one process and disagree on two.",
     _io + ["src/io/io_hdf5.hpp"], [("read_pdi", "src/io/io.cpp"), ("check_extent_dset", "src/io/io_hdf5.hpp")],
     [U("io_files.cpp", ["restart", "restart_refused"], ndim=d, pdi=True, c_src=INI) for d in (1, 2, 3)],
     opts=dict(witness=1, time=300), bounds="meshes of 3 x 2 x 3 cells; up to 4 processes", assumptions=_pdi)
prop("C37", "The XDMF description matches the files",
     "After every output, also of a restarted run, the description directory/prefix.xmf is well-formed, has one entry per output of the run in order, with its time and the nodes of the mesh, every data item points to an existing dataset of the file of that time and states its size, and every field of the file is described once under its own name.",
     ["inputs", "histories"], "one or two outputs, first number 0, 99 or 198 (a restart), all times; decompositions, dimensions and passive scalars as above",
     "No test writes a description; a wrong reference is found when somebody opens the file in a viewer.",
     ["src/io/io.cpp"], [("XmlWriter", "src/io/io.cpp")],
     [U("io_files.cpp", ["xdmf"], ndim=d, pdi=True, c_src=INI) for d in (1, 2, 3)],
     opts=dict(witness=1, time=400), bounds="up to two outputs, up to two passive scalars", assumptions=_pdi)
prop("C38", "A failing HDF5 call stops the run and leaks nothing",
     "Every identifier obtained from HDF5 is closed exactly once, also when any call fails while writing attributes or checking a restart file; a failure is reported as an error, and there is no error without one. The status line of an output has the iteration, the time, the percentage and the file number and is printed by one process.",
     ["crash points", "inputs"], "a failure of each call in turn; all times",
     "Tests do not inject failures.",
     ["src/io/io_hdf5.hpp", "src/io/io.cpp"], [("RaiiH5Hid", "src/io/io_hdf5.hpp"), ("write_string_attribute, print_simulation_status", "src/io/io.cpp")],
     [U("io_files.cpp", ["failures", "restart_refused", "status"], ndim=1, pdi=True, c_src=INI)],
     opts=dict(witness=1, time=300), bounds="one failing call per run", assumptions=_pdi)
