NC = [(n, g) for n in (1, 2, 3) for g in ("Cartesian", "Spherical")]
prop("C07", "Cell ranges cover exactly the requested cells",
     "A range built from two corners covers exactly the inner cells of the local arrays, extended by the requested number of ghost layers in the active directions and by none in the others; it never leaves the arrays, and a kernel over it visits each of its cells exactly once. Asking for more ghost layers than exist, negative corners or corners in the wrong order are refused.",
     ["inputs"], "all corners up to 2^28, all ghost counts up to 1000 and all requested layers (bit-vectors); every small size for the visits; 1D to 3D",
     W + "every kernel of the code runs over such a range, and an off-by-one shows only for particular ghost counts or inactive directions.",
     ["src/mesh/range.cpp", "src/mesh/range.hpp"], [("Range, cell_range, cell_mdrange", "src/mesh/range.cpp")],
     [U("mesh.cpp", ["range_refused", "range_cells", "range_visited"], ndim=n) for n in (1, 2, 3)],
     opts=dict(witness=1), bounds="corners up to 2^28, ghost layers up to 1000; visits: up to two cells per direction and two ghost layers")
prop("C08", "Domain decomposition gives every cell exactly one owner",
     "Whatever the number of cells and of processes, the blocks of consecutive processes are adjacent, start at the first and end at the last cell of the domain, differ by at most one cell, and ghost layers are added in the active directions only. A requested process grid is the one used, every place in it has exactly one rank, ranks touch a border exactly when they are first or last in a direction, and the horizontal group has the ranks of one layer of the first direction.",
     ["inputs", "configurations"], "all numbers of cells up to 4096 and of processes per direction up to 32 (thorough: 16384 and 64), every position in the process grid; whole worlds of up to 6 ranks with every factorisation MPI may choose, 1D to 3D",
     W + "remainders of the division and the order of ranks only matter for particular sizes, and no test runs on several ranks.",
     ["src/mesh/grid.cpp"], [("Grid::mpi_decomposition", "src/mesh/grid.cpp")],
     [U("mesh.cpp", ["blocks_tile", "world"], ndim=n, opts=dict(time=400)) for n in (1, 2, 3)]
     + [U("mesh.cpp", ["blocks_tile_large"], ndim=1, tier="thorough", opts=dict(time=1500))],
     opts=dict(witness=1), bounds="cells per direction up to 4096, processes per direction up to 32 (bit-vector arithmetic); whole worlds: up to 6 ranks, 7 x 3 x 5 cells")
prop("C09", "Mesh nodes: regular spacing and exact local slices",
     "On a regular mesh the first and last inner nodes are the requested ends and all cells, ghost cells included, have the same size. The mesh of a process is the slice of the global nodes at the position of its block, including its ghost layers; cell sizes and centres are those of these nodes, and every cell and face of the local arrays, ghost cells included, gets a volume and an area.",
     ["inputs"], "all end points and node positions, every position of the block, small cell and ghost counts, 1D to 3D",
     W + "a shifted slice is only visible on a process that is not the first one.",
     ["src/mesh/grid.cpp", "src/mesh/grid_type.cpp"], [("Grid::set_grid", "src/mesh/grid.cpp"), ("Regular::execute", "src/mesh/grid_type.cpp")],
     [U("mesh.cpp", ["slices"], ndim=n, geom=g) for n, g in NC] + [U("mesh.cpp", ["regular"], ndim=n) for n in (1, 2, 3)],
     opts=dict(witness=1), bounds="up to 5 cells, 2 ghost layers and 3 processes in the divided direction")
prop("C10", "Cell volumes and face areas are exact",
     "In Cartesian geometry volumes and areas are products of the cell sizes. In spherical geometry they are the exact volumes and areas of the spherical cell (a full shell in 1D, a ring in 2D, a sector in 3D). In both, the volumes and faces of the cells of a domain add up to those of the domain.",
     ["inputs"], "all node positions of a small mesh, both geometries, 1D to 3D",
     W + "an approximate metric looks plausible on any sample; exactness is an identity in the node positions.",
     ["src/mesh/geometry.cpp", "src/mesh/geometry_factory.cpp"], [("Cartesian::execute, Spherical::execute", "src/mesh/geometry.cpp")],
     [U("mesh.cpp", ["metric_exact", "metric_adds_up"], ndim=n, geom=g) for n, g in NC],
     opts=dict(witness=1), bounds="two cells per direction; sine and cosine are arbitrary functions")
