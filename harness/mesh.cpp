// Ranges, domain decomposition, mesh nodes, metric
#include <kit.hpp>
#include <grid_type.hpp>
#include <grid_type.cpp>
#include <grid_factory.cpp>

struct Box { int a[3], b[3], ng; };
static Box sym_box(int hi)
{
    Box x;
    for (int d = 0; d < 3; ++d) {
        x.a[d] = static_cast<int>(hx_int(idx("min", d).c_str(), -3, hi));
        x.b[d] = static_cast<int>(hx_int(idx("max", d).c_str(), -3, hi));
    }
    x.ng = static_cast<int>(hx_int("Ng", 0, 1000));
    return x;
}
static bool proper(Box const& x)
{
    for (int d = 0; d < 3; ++d)
        if (x.a[d] < 0 || x.a[d] > x.b[d]) return false;
    return true;
}
extern "C" {
// a range is refused exactly when it is not proper
void range_refused()
{
    Box const x = sym_box(1 << 28);
    bool thrown = false;
    try {
        Range const r({x.a[0], x.a[1], x.a[2]}, {x.b[0], x.b[1], x.b[2]}, x.ng);
    } catch (std::runtime_error&) {
        thrown = true;
    }
    hx_assert(thrown == !proper(x), "a range is refused exactly when a corner is negative or they are in the wrong order");
    hx_reach("end");
}
void range_cells()
{
    Box x;
    for (int d = 0; d < 3; ++d) {
        x.a[d] = static_cast<int>(hx_int(idx("min", d).c_str(), 0, 1 << 28));
        x.b[d] = static_cast<int>(hx_int(idx("max", d).c_str(), 0, 1 << 28));
        hx_assume(x.a[d] <= x.b[d]);
    }
    x.ng = static_cast<int>(hx_int("Ng", 0, 1000));
    bool const other = hx_choice("ctor", 0, 1);
    Range const r0 = other ? Range(std::array<int, 2> {x.a[0], x.b[0]}, std::array<int, 2> {x.a[1], x.b[1]}, std::array<int, 2> {x.a[2], x.b[2]}, x.ng)
                           : Range({x.a[0], x.a[1], x.a[2]}, {x.b[0], x.b[1], x.b[2]}, x.ng);
    int const n = static_cast<int>(hx_int("n", 0, 1001));
    Range r;
    bool thrown = false;
    try {
        r = r0.with_ghosts(n);
    } catch (std::runtime_error&) {
        thrown = true;
    }
    hx_assert(thrown == (n > x.ng), "more ghost layers than exist are refused");
    if (thrown) {
        hx_reach("refused");
        return;
    }
    auto const [b, e] = cell_range(r);
    for (int d = 0; d < 3; ++d) {
        int const ng = d < ndim ? x.ng : 0, m = d < ndim ? n : 0;
        hx_assert(b[d] == ng - m, "the range begins after the ghost layers it leaves out");
        hx_assert(e[d] == ng + (x.b[d] - x.a[d]) + m, "the range ends before the ghost layers it leaves out");
        hx_assert(b[d] >= 0 && e[d] <= x.b[d] - x.a[d] + 2 * ng, "the range lies inside the arrays");
        hx_assert(r.Corner_min[d] == x.a[d] && r.Corner_max[d] == x.b[d], "the global corners are kept");
        hx_assert(r.Nghost[d] == ng, "ghost layers exist in the active directions only");
        hx_assert(r0.Nc_min_0g[d] == ng && r0.Nc_max_0g[d] == ng + x.b[d] - x.a[d], "inner cells");
        hx_assert(r0.Nc_min_1g[d] == ng - (d < ndim ? 1 : 0) && r0.Nc_max_1g[d] == ng + x.b[d] - x.a[d] + (d < ndim ? 1 : 0), "cells with one ghost layer");
        hx_assert(r0.Nc_min_2g[d] == ng - (d < ndim ? 2 : 0) && r0.Nc_max_2g[d] == ng + x.b[d] - x.a[d] + (d < ndim ? 2 : 0), "cells with two ghost layers");
        hx_assert(r0.Nf_min_0g[d] == r0.Nc_min_0g[d] && r0.Nf_max_0g[d] == r0.Nc_max_0g[d] + 1, "faces");
        hx_assert(r0.Nf_min_1g[d] == r0.Nc_min_1g[d] && r0.Nf_max_1g[d] == r0.Nc_max_1g[d] + 1, "faces with one ghost layer");
        hx_assert(r0.Nf_min_2g[d] == r0.Nc_min_2g[d] && r0.Nf_max_2g[d] == r0.Nc_max_2g[d] + 1, "faces with two ghost layers");
    }
    hx_assert(r.Ng == x.ng && r.NgEff == n, "ghost counts");
    Range const ra = r.all_ghosts(), rn = r.no_ghosts();
    hx_assert(ra.NgEff == x.ng && rn.NgEff == 0 && ra.Ng == x.ng && rn.Ng == x.ng, "all and no ghosts start from the full range again");
    hx_reach("end");
}
// a kernel over the range visits every cell of it once
void range_visited()
{
    int n[3];
    for (int d = 0; d < 3; ++d) n[d] = d < ndim ? hx_choice(idx("n", d).c_str(), 0, 2) : hx_choice(idx("n", d).c_str(), 0, 1);
    int const ng = hx_choice("Ng", 0, 2), m = hx_choice("m", 0, ng);
    Range const r = Range({7, 5, 3}, {7 + n[0], 5 + n[1], 3 + n[2]}, ng).with_ghosts(m);
    static int count[8][8][8];
    for (auto& a : count)
        for (auto& b : a)
            for (auto& c : b) c = 0;
    bool out = false;
    Kokkos::parallel_for("visit", cell_mdrange(r), [&](int i, int j, int k) {
        if (i < 0 || j < 0 || k < 0 || i > 7 || j > 7 || k > 7) out = true;
        else ++count[i][j][k];
    });
    hx_assert(!out, "no cell outside the arrays is visited");
    for (int i = 0; i < 8; ++i)
        for (int j = 0; j < 8; ++j)
            for (int k = 0; k < 8; ++k) {
                int const c[3] = {i, j, k};
                bool in = true;
                for (int d = 0; d < 3; ++d) in = in && c[d] >= (d < ndim ? ng - m : 0) && c[d] < (d < ndim ? ng + m : 0) + n[d];
                hx_assert(count[i][j][k] == (in ? 1 : 0), "every cell of the range is visited once");
            }
    hx_reach("end");
}
}
// ---- decomposition
static int g_dims[3], g_coords[3];
static void dims_hook(int* d)
{
    for (int i = 0; i < ndim; ++i) d[i] = g_dims[i];
}
static void coords_hook(int* c)
{
    for (int i = 0; i < 3; ++i) c[i] = g_coords[i];
}
static void place(int const* dims, int const* coords)
{
    for (int d = 0; d < 3; ++d) {
        g_dims[d] = dims[d];
        g_coords[d] = coords[d];
    }
    hx_mpi().dims_hook = dims_hook;
    hx_mpi().coords_hook = coords_hook;
}
static void decomposition(int hiN, int hiD)
{
    int const d = hx_choice("dir", 0, ndim - 1);
    int const N = static_cast<int>(hx_int("N", 1, hiN)), D = static_cast<int>(hx_int("D", 1, hiD)), r = static_cast<int>(hx_int("r", 0, hiD - 1));
    hx_assume(r < D);
    int const Ng = static_cast<int>(hx_int("Ng", 0, 4));
    int dims[3] = {1, 1, 1}, co[3] = {0, 0, 0};
    std::array<int, 3> n {3, ndim > 1 ? 2 : 1, ndim > 2 ? 4 : 1};
    n[d] = N;
    dims[d] = D;
    co[d] = r;
    Kokkos::hx_no_alloc = true;
    place(dims, co);
    Grid const g(n, {0, 0, 0}, Ng);
    int const lo = g.range.Corner_min[d], hi = g.range.Corner_max[d];
    hx_assert(lo >= 0 && lo <= hi && hi <= N, "a block lies inside the domain");
    hx_assert(r != 0 || lo == 0, "the first block starts at the first cell");
    hx_assert(r != D - 1 || hi == N, "the last block ends at the last cell");
    hx_assert(g.Nx_local_ng[d] == hi - lo, "local size is the size of the block");
    int const q = N / D;
    hx_assert(g.Nx_local_ng[d] == q || g.Nx_local_ng[d] == q + 1, "blocks differ by at most one cell");
    hx_assert(g.is_border[d][0] == (r == 0) && g.is_border[d][1] == (r == D - 1), "border ranks are the first and the last ones");
    for (int e = 0; e < 3; ++e) {
        hx_assert(g.Nx_local_wg[e] == g.Nx_local_ng[e] + 2 * (e < ndim ? Ng : 0), "local arrays have ghost layers in the active directions");
        hx_assert(g.Nghost[e] == (e < ndim ? Ng : 0), "ghost layers");
        hx_assert(g.Nx_glob_ng[e] == n[e], "global size");
        if (e != d) {
            hx_assert(g.range.Corner_min[e] == 0 && g.range.Corner_max[e] == n[e], "undivided directions are whole");
            hx_assert(g.is_border[e][0] && g.is_border[e][1], "undivided directions touch both borders");
        }
    }
    if (r + 1 < D) {
        co[d] = r + 1;
        place(dims, co);
        Grid const h(n, {0, 0, 0}, Ng);
        hx_assert(h.range.Corner_min[d] == hi, "consecutive blocks are adjacent");
        hx_assert(h.Nx_local_ng[d] <= g.Nx_local_ng[d], "the larger blocks come first");
    }
    hx_reach("end");
}
extern "C" {
void blocks_tile() { decomposition(1 << 12, 1 << 5); }
void blocks_tile_large() { decomposition(1 << 14, 1 << 6); }
// all ranks together: the requested process grid is used, every cell has one owner
void world()
{
    int const P = hx_choice("ranks", 1, 6);
    std::array<int, 3> ask {hx_choice("ask0", 0, 2), ndim > 1 ? hx_choice("ask1", 0, 2) : 0, 0};
    int prod = 1, zeros = 0;
    for (int d = 0; d < ndim; ++d) {
        if (ask[d]) prod *= ask[d];
        else ++zeros;
    }
    if (P % prod != 0 || (zeros == 0 && prod != P)) {
        hx_kill();
        return;
    }
    int const nx = hx_choice("nx", 1, 7);
    static int owner[7][3][5];
    std::array<int, 3> const n {nx, ndim > 1 ? 3 : 1, ndim > 2 ? 5 : 1};
    for (auto& a : owner)
        for (auto& b : a)
            for (auto& c : b) c = 0;
    static int seen[8];
    for (int& s : seen) s = 0;
    int dims[3] = {0, 0, 0};
    for (int d = 0; d < ndim; ++d) dims[d] = ask[d];
    // one factorisation for all ranks
    hx_mpi().reset(P, 0);
    MPI_Dims_create(P, ndim, dims);
    for (int d = ndim; d < 3; ++d) dims[d] = 1;
    for (int r = 0; r < P; ++r) {
        hx_mpi().reset(P, r);
        Kokkos::hx_no_alloc = true;
        for (int d = 0; d < 3; ++d) g_dims[d] = dims[d];
        hx_mpi().dims_hook = dims_hook;
        Grid const g(n, ask, 2);
        hx_assert(g.mpi_size == P && g.mpi_rank == r, "size and rank");
        int flat = 0;
        for (int d = 0; d < 3; ++d) {
            hx_assert(g.mpi_dims_cart[d] == dims[d], "process grid");
            if (d < ndim && ask[d]) hx_assert(g.mpi_dims_cart[d] == ask[d], "the requested process grid is used");
            hx_assert(g.mpi_rank_cart[d] >= 0 && g.mpi_rank_cart[d] < dims[d], "coordinates");
            flat = flat * dims[d] + g.mpi_rank_cart[d];
        }
        hx_assert(!seen[flat], "every place of the process grid has one rank");
        seen[flat] = 1;
        for (int i = g.range.Corner_min[0]; i < g.range.Corner_max[0]; ++i)
            for (int j = g.range.Corner_min[1]; j < g.range.Corner_max[1]; ++j)
                for (int k = g.range.Corner_min[2]; k < g.range.Corner_max[2]; ++k) ++owner[i][j][k];
        // ranks that share the position in the other directions are the horizontal group
        int hs = 0;
        MPI_Comm_size(g.comm_cart_horizontal, &hs);
        hx_assert(hs == dims[1] * dims[2], "the horizontal group has the ranks of one layer of the first direction");
    }
    for (int i = 0; i < n[0]; ++i)
        for (int j = 0; j < n[1]; ++j)
            for (int k = 0; k < n[2]; ++k) hx_assert(owner[i][j][k] == 1, "every cell has exactly one owner");
    hx_reach("end");
}
}
// ---- nodes
static void nodes(KV_double_1d const& x, char const* n, double x0)
{
    for (std::size_t i = 0; i < x.size(); ++i) {
        x(i) = x0;
        x0 = x0 + hx_pos((std::string(n) + std::to_string(i)).c_str());
    }
}
extern "C" {
// the local mesh is the slice of the global one at the place of the block, with its ghost layers
void slices()
{
    int const d = hx_choice("dir", 0, ndim - 1), D = hx_choice("D", 1, 3), r = hx_choice("r", 0, D - 1), Ng = hx_choice("Ng", 1, 2);
    int dims[3] = {1, 1, 1}, co[3] = {0, 0, 0};
    std::array<int, 3> n {2, ndim > 1 ? 2 : 1, ndim > 2 ? 1 : 1};
    n[d] = hx_choice("N", 4, 5);
    dims[d] = D;
    co[d] = r;
    place(dims, co);
    Grid g(n, {0, 0, 0}, Ng);
    KV_double_1d X[3];
    char const* names[3] = {"X", "Y", "Z"};
    for (int e = 0; e < 3; ++e) {
        X[e] = KV_double_1d(names[e], static_cast<std::size_t>(n[e] + 2 * (e < ndim ? Ng : 0) + 1));
        nodes(X[e], names[e], hx_pos(idx("first", e).c_str()));
    }
    KV_double_1d const ds[3] = {g.dx0, g.dx1, g.dx2}, cs[3] = {g.x0_center, g.x1_center, g.x2_center};
    for (int e = 0; e < 3; ++e) {
        poison(ds[e]);
        poison(cs[e]);
    }
    poison(g.dv);
    poison(g.ds);
    g.set_grid(X[0], X[1], X[2]);
    KV_double_1d const xs[3] = {g.x0, g.x1, g.x2};
    for (int e = 0; e < 3; ++e) {
        int const off = g.range.Corner_min[e];
        hx_assert(xs[e].extent_int(0) == g.Nx_local_wg[e] + 1, "one node more than cells");
        for (int i = 0; i <= g.Nx_local_wg[e]; ++i) hx_assert_eq(xs[e](i), X[e](off + i), "local node is the global node of that cell");
        for (int i = 0; i < g.Nx_local_wg[e]; ++i) {
            hx_assert_eq(ds[e](i), X[e](off + i + 1) - X[e](off + i), "cell size");
            hx_assert_eq(cs[e](i), (X[e](off + i + 1) + X[e](off + i)) / 2, "cell centre");
            hx_assert_lt(0, ds[e](i), "cells have a positive size");
        }
    }
    for (int i = 0; i < g.Nx_local_wg[0]; ++i)
        for (int j = 0; j < g.Nx_local_wg[1]; ++j)
            for (int k = 0; k < g.Nx_local_wg[2]; ++k) {
                hx_assert(!hx_is_undef(&g.dv(i, j, k)), "every cell has a volume, ghost cells included");
                for (int e = 0; e < ndim; ++e) hx_assert(!hx_is_undef(&g.ds(i, j, k, e)), "every face has an area, ghost cells included");
            }
    hx_reach("end");
}
// regular mesh: the ends are where they are asked to be and cells have one size
void regular()
{
    std::array<int, 3> n {hx_choice("n0", 1, 5), ndim > 1 ? hx_choice("n1", 1, 3) : 1, ndim > 2 ? hx_choice("n2", 1, 3) : 1};
    int const Ng = hx_choice("Ng", 0, 2);
    std::array<int, 3> ng {0, 0, 0};
    for (int d = 0; d < ndim; ++d) ng[d] = Ng;
    std::array<double, 3> lo, hi;
    KVH_double_1d x[3];
    for (int d = 0; d < 3; ++d) {
        lo[d] = hx_real(idx("min", d).c_str());
        hi[d] = lo[d] + hx_pos(idx("len", d).c_str());
        x[d] = KVH_double_1d("x", static_cast<std::size_t>(n[d] + 2 * ng[d] + 1));
        poison(x[d]);
    }
    Regular(lo, hi).execute(ng, n, x[0], x[1], x[2]);
    for (int d = 0; d < 3; ++d) {
        hx_assert_eq(x[d](ng[d]), lo[d], "the first inner node is the lower end");
        hx_assert_eq(x[d](ng[d] + n[d]), hi[d], "the last inner node is the upper end");
        for (int i = 0; i + 1 < x[d].extent_int(0); ++i) hx_assert_eq((x[d](i + 1) - x[d](i)) * n[d], hi[d] - lo[d], "all cells have one size, ghost cells included");
    }
    hx_reach("end");
}
static void metric()
{
    Grid g(cells(2, 1, 1), {0, 0, 0}, 1);
    KV_double_1d X[3];
    char const* names[3] = {"X", "Y", "Z"};
    for (int e = 0; e < 3; ++e) {
        X[e] = KV_double_1d(names[e], static_cast<std::size_t>(g.Nx_local_wg[e] + 1));
        nodes(X[e], names[e], geom == Geometry::Geom_spherical && e == 0 ? hx_pos("rmin") : hx_real(idx("min", e).c_str()));
    }
    poison(g.dv);
    poison(g.ds);
    g.set_grid(X[0], X[1], X[2]);
    double const pi = Kokkos::numbers::pi;
    for (int i = 0; i < g.Nx_local_wg[0]; ++i)
        for (int j = 0; j < g.Nx_local_wg[1]; ++j)
            for (int k = 0; k < g.Nx_local_wg[2]; ++k) {
                double const a = g.x0(i), b = g.x0(i + 1), c = g.x1(j), d = g.x1(j + 1), e = g.x2(k), f = g.x2(k + 1);
                if (geom == Geometry::Geom_cartesian) {
                    hx_assert_eq(g.dv(i, j, k), (b - a) * (d - c) * (f - e), "volume of a box");
                    hx_assert_eq(g.ds(i, j, k, 0), (d - c) * (f - e), "area of a face normal to the first direction");
                    hx_assert_eq(g.ds(i, j, k, 1), (b - a) * (f - e), "area of a face normal to the second direction");
                    hx_assert_eq(g.ds(i, j, k, 2), (b - a) * (d - c), "area of a face normal to the third direction");
                } else {
                    double om = 4 * pi, si = 0; // solid angle, sine of the polar face
                    double const w = ndim == 3 ? f - e : 2 * pi;
                    if (ndim > 1) {
                        om = (Kokkos::cos(c) - Kokkos::cos(d)) * w;
                        si = Kokkos::sin(c);
                    }
                    hx_assert_eq(g.dv(i, j, k), (b * b * b - a * a * a) / 3 * om, "volume of a spherical cell");
                    hx_assert_eq(g.ds(i, j, k, 0), a * a * om, "area of a radial face");
                    if (ndim > 1) hx_assert_eq(g.ds(i, j, k, 1), (b * b - a * a) / 2 * si * w, "area of a polar face");
                    if (ndim > 2) hx_assert_eq(g.ds(i, j, k, 2), (b * b - a * a) / 2 * (d - c), "area of an azimuthal face");
                }
            }
    hx_reach("end");
}
void metric_exact() { metric(); }
// a domain cut into cells has the volume of the whole, and faces are shared
void metric_adds_up()
{
    Grid g(cells(2, 2, 2), {0, 0, 0}, 0), h(cells(1, 1, 1), {0, 0, 0}, 0);
    KV_double_1d X[3], Y[3];
    char const* names[3] = {"X", "Y", "Z"};
    for (int e = 0; e < 3; ++e) {
        X[e] = KV_double_1d(names[e], static_cast<std::size_t>(g.Nx_local_wg[e] + 1));
        Y[e] = KV_double_1d(names[e], static_cast<std::size_t>(h.Nx_local_wg[e] + 1));
        nodes(X[e], names[e], geom == Geometry::Geom_spherical && e == 0 ? hx_pos("rmin") : hx_real(idx("min", e).c_str()));
        Y[e](0) = X[e](0);
        Y[e](1) = X[e](static_cast<std::size_t>(g.Nx_local_wg[e]));
    }
    g.set_grid(X[0], X[1], X[2]);
    h.set_grid(Y[0], Y[1], Y[2]);
    double v = 0, s[3] = {0, 0, 0};
    for (int i = 0; i < g.Nx_local_wg[0]; ++i)
        for (int j = 0; j < g.Nx_local_wg[1]; ++j)
            for (int k = 0; k < g.Nx_local_wg[2]; ++k) {
                v += g.dv(i, j, k);
                if (i == 0) s[0] += g.ds(i, j, k, 0);
                if (j == 0 && ndim > 1) s[1] += g.ds(i, j, k, 1);
                if (k == 0 && ndim > 2) s[2] += g.ds(i, j, k, 2);
            }
    hx_assert_eq(v, h.dv(0, 0, 0), "the cells fill the domain");
    for (int d = 0; d < ndim; ++d) hx_assert_eq(s[d], h.ds(0, 0, 0, d), "the faces fill the boundary");
    hx_reach("end");
}
}
