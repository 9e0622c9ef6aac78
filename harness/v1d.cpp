// The v1d problem: a profile in a file as initial state and mesh, and its own criterion for moving the mesh
#include <kit.hpp>
#include <string>
#include <utility>
#include <vector>
#include <stdexcept>
#include <dual_view.hpp>
#include <eos.hpp>
#include <units.hpp>
#include <pdi.h>
#include <values.hpp>
#include <initialization_interface.cpp>
#include <shift_criterion_interface.cpp>
#include <grid_type.cpp>
#include <broadcast.cpp>
#include <boundary.cpp>
#include <io.cpp>
namespace hclpp {
std::string_view const git_build_string("v1-2-gabc");
std::string_view const git_branch("main");
std::string_view const compile_date("2026-01-01");
std::string_view const compile_time("12:34:56");
}
#include <setup.hpp>

static std::array<int, 3> dims_of(char const* name)
{ // a cut in one direction, or in two of them
    std::array<int, 3> dims {1, 1, 1};
    int const c = hx_choice(name, 0, ndim > 1 ? ndim + 1 : 1);
    if (c == ndim + 1) dims[0] = dims[ndim - 1] = 2;
    else if (c > 0) dims[c - 1] = 2;
    return dims;
}
static int of(std::array<int, 3> const& d) { return d[0] * d[1] * d[2]; }
static HxH5Dset* data(HxH5File* f, char const* name, std::vector<long> const& dims)
{
    HxH5Dset* d = new HxH5Dset;
    d->name = name;
    d->dims = dims;
    long n = 1;
    for (long x : dims) n *= x;
    for (long i = 0; i < n; ++i) d->d.push_back(hx_real(idx(name, i).c_str()));
    d->by.resize(d->d.size());
    f->dsets.push_back(d);
    return d;
}
static std::string text(int nfx, double vmax, int cells)
{
    return "[Passive Scalar]\nnfx = " + std::to_string(nfx) + "\n[problem]\ninit_file = profile.h5\nvmax_shift = " + num(vmax) + "\ncell_shift = " + std::to_string(cells) + "\n";
}
static KDV_double_1d list(char const* n, int size) { return KDV_double_1d(n, static_cast<std::size_t>(size)); }
extern "C" {
// the initial state is the profile of the file, along the first direction
void profile()
{
    int const ng = hx_choice("ghost layers", 1, 2), nfx = hx_choice("nfx", 0, 2);
    std::array<int, 3> const n = cells(3, 2, 2), dims = dims_of("cut");
    HxH5File* f = hx_h5().create("profile.h5");
    HxH5Dset *r = data(f, "rho_1d", {n[0]}), *u = data(f, "u_1d", {n[0]}), *p = data(f, "P_1d", {n[0]}), *x = data(f, "fx_1d", {nfx, n[0]});
    std::string const t = text(nfx, 1, 1);
    hx_file("params.ini", t.data(), t.size());
    hx_mpi_run(of(dims), [&](int) {
        INIReader const reader("params.ini");
        Param const param(reader);
        Grid const g(n, dims, ng);
        write_pdi_init(g, param);
        KV_double_3d const rho = v3(g, "rho"), P = v3(g, "P");
        KV_double_4d const v = v4(g, "u", ndim), fx = v4(g, "fx", nfx);
        poison(rho);
        poison(P);
        poison(v);
        poison(fx);
        InitializationSetup<NoGravity>(EOS(1.5, 1), ParamSetup(reader), NoGravity {}).execute(g.range.no_ghosts(), g, rho, v, P, fx);
        auto const in = cell_range(g.range.no_ghosts());
        Ext const e = ext(g);
        for (int i = 0; i < e.n[0]; ++i)
            for (int j = 0; j < e.n[1]; ++j)
                for (int k = 0; k < e.n[2]; ++k) {
                    int const l[3] = {i, j, k};
                    bool inner = true;
                    for (int d = 0; d < 3; ++d) inner = inner && l[d] >= in[0][d] && l[d] < in[1][d];
                    if (!inner) {
                        hx_assert(!hx_symbolic() || (hx_is_undef(&rho(i, j, k)) && hx_is_undef(&P(i, j, k)) && hx_is_undef(&v(i, j, k, 0))), "other cells are left alone");
                        continue;
                    }
                    std::size_t const a = static_cast<std::size_t>(i - g.Nghost[0] + g.range.Corner_min[0]);
                    hx_assert_eq(rho(i, j, k), r->d[a], "density of the profile");
                    hx_assert_eq(P(i, j, k), p->d[a], "pressure of the profile");
                    hx_assert_eq(v(i, j, k, 0), u->d[a], "velocity of the profile");
                    for (int d = 1; d < ndim; ++d) hx_assert_eq(v(i, j, k, d), 0, "no velocity across");
                    for (int m = 0; m < nfx; ++m) hx_assert_eq(fx(i, j, k, m), x->d[a + static_cast<std::size_t>(m * n[0])], "passive scalars of the profile");
                }
    });
    hx_assert(hx_h5().open() == 0, "everything is closed");
    hx_reach("end");
}
// the mesh has the nodes of the file along the first direction, and is regular across
void nodes_of_the_file()
{
    int const ng = hx_choice("ghost layers", 1, 2);
    std::array<int, 3> const n = cells(3, 2, 2);
    HxH5File* f = hx_h5().create("profile.h5");
    double lo[3], hi[3];
    std::string t = text(0, 1, 1) + "[Grid]\nNx0_glob = 3\nNx1_glob = " + std::to_string(n[1]) + "\nNx2_glob = " + std::to_string(n[2]) + "\n";
    for (int d = 0; d < 3; ++d) {
        lo[d] = hx_real(idx("lower", d).c_str());
        hi[d] = lo[d] + hx_pos(idx("width", d).c_str());
        t += "x" + std::to_string(d) + "min = " + num(lo[d]) + "\nx" + std::to_string(d) + "max = " + num(hi[d]) + "\n";
    }
    hx_file("params.ini", t.data(), t.size());
    INIReader const reader("params.ini");
    Param const param(reader);
    hx_mpi().reset(1, 0);
    Grid const g(n, {1, 1, 1}, ng);
    HxH5Dset* x = data(f, "x0", {n[0] + 2 * ng + 1});
    KDV_double_1d const x0 = list("x0", n[0] + 2 * g.Nghost[0] + 1), x1 = list("x1", n[1] + 2 * g.Nghost[1] + 1), x2 = list("x2", n[2] + 2 * g.Nghost[2] + 1);
    write_pdi_init(g, param);
    GridSetup(param).execute(g.Nghost, g.Nx_glob_ng, x0(host), x1(host), x2(host));
    for (std::size_t i = 0; i < x->d.size(); ++i) hx_assert_eq(x0(host, read_only)(i), x->d[i], "nodes of the file");
    for (int d = 1; d < 3; ++d) {
        auto const h = (d == 1 ? x1 : x2)(host, read_only);
        for (std::size_t i = 0; i < h.size(); ++i)
            hx_assert_eq(h(i), lo[d] + (static_cast<int>(i) - g.Nghost[d]) * ((hi[d] - lo[d]) / n[d]), "regular nodes across");
    }
    hx_assert(hx_h5().open() == 0, "everything is closed");
    hx_reach("end");
}
// a file that does not fit is refused before anything is read from it
void profile_refused()
{
    int const what = hx_choice("what is wrong", 0, 11);
    std::array<int, 3> const n = cells(3, 2, 2);
    HxH5File* f = hx_h5().create(what == 10 ? "other.h5" : "profile.h5");
    HxH5Dset* ds[5] = {data(f, "rho_1d", {n[0]}), data(f, "u_1d", {n[0]}), data(f, "P_1d", {n[0]}), data(f, "fx_1d", {1, n[0]}), data(f, "x0", {n[0] + 3})};
    bool const more = hx_choice("one less or one more", 0, 1) == 1;
    if (what < 5) { // another number of cells or nodes
        HxH5Dset* const d = ds[what];
        d->dims.back() += more ? 1 : -1;
        d->d.resize(static_cast<std::size_t>(d->dims.back()));
    } else if (what < 9) { // no such dataset
        ds[what - 5]->name = "lost";
    } else if (what == 9) { // another number of passive scalars
        ds[3]->dims[0] = more ? 2 : 0;
        ds[3]->d.resize(static_cast<std::size_t>(ds[3]->dims[0] * n[0]));
    } else if (what == 11) f->hdf5 = false;
    std::string const t = text(1, 1, 1);
    hx_file("params.ini", t.data(), t.size());
    INIReader const reader("params.ini");
    Param const param(reader);
    hx_mpi().reset(1, 0);
    Grid const g(n, {1, 1, 1}, 1);
    write_pdi_init(g, param);
    bool refused = false;
    KV_double_3d const rho = v3(g, "rho"), P = v3(g, "P");
    KV_double_4d const v = v4(g, "u", ndim), fx = v4(g, "fx", 1);
    poison(rho);
    KDV_double_1d const x0 = list("x0", n[0] + 3), x1 = list("x1", n[1] + 2 * g.Nghost[1] + 1), x2 = list("x2", n[2] + 2 * g.Nghost[2] + 1);
    try {
        if (what != 4) InitializationSetup<NoGravity>(EOS(1.5, 1), ParamSetup(reader), NoGravity {}).execute(g.range.no_ghosts(), g, rho, v, P, fx);
        else GridSetup(param).execute(g.Nghost, g.Nx_glob_ng, x0(host), x1(host), x2(host));
    } catch (std::exception const&) {
        refused = true;
    }
    hx_assert(refused, "a file that does not fit the mesh is refused");
    hx_assert(!hx_symbolic() || hx_is_undef(&rho(g.Nghost[0], g.Nghost[1], g.Nghost[2])), "a refused file changes nothing");
    hx_assert(hx_h5().open() == 0, "everything is closed after a refusal");
    hx_reach("end");
}
// the mesh moves when the gas near the outer edge is fast enough
void outer_edge()
{
    int const ng = hx_choice("ghost layers", 1, 2), wide = hx_choice("cells", 1, 4);
    std::array<int, 3> const n = cells(4, 2, 1), dims = dims_of("cut");
    double const vmax = hx_pos("vmax");
    std::string const t = text(0, vmax, wide);
    hx_file("params.ini", t.data(), t.size());
    bool const fits = wide <= n[0] / dims[0];
    // fast: the cell that is fast enough, if there is one
    int const fast[3] = {hx_choice("fast x", -1, n[0] - 1), hx_choice("fast y", 0, n[1] - 1), 0};
    double const slow = hx_nonneg("slow"), quick = hx_pos("quick"), r = hx_pos("rho");
    hx_assume(slow < vmax);
    hx_assume(quick >= vmax);
    bool outs[4] = {}, yeses[4] = {};
    hx_mpi_run(of(dims), [&](int me) {
        INIReader const reader("params.ini");
        Grid const g(n, dims, ng);
        KV_double_3d const rho = v3(g, "rho"), E = v3(g, "E");
        KV_double_4d const m = v4(g, "rhou", ndim), fx = v4(g, "fx", 0);
        Ext const e = ext(g);
        for (int i = 0; i < e.n[0]; ++i)
            for (int j = 0; j < e.n[1]; ++j)
                for (int k = 0; k < e.n[2]; ++k) {
                    int const a = i - g.Nghost[0] + g.range.Corner_min[0], b = j - g.Nghost[1] + g.range.Corner_min[1];
                    rho(i, j, k) = r;
                    // the ghost cells on the inner side have the values of the neighbour, all others are of no concern
                    bool const ghost = a >= n[0] || b < 0 || b >= n[1] || a < 0;
                    m(i, j, k, 0) = r * (ghost ? quick : a == fast[0] && b == fast[1] ? quick : slow);
                    if (a < 0) m(i, j, k, 0) = r * slow;
                    for (int d = 1; d < ndim; ++d) m(i, j, k, d) = r * quick;
                }
        bool out = false, yes = false;
        try {
            yes = UserShiftCriterion(ParamSetup(reader)).execute(g.range.no_ghosts(), g, rho, m, E, fx);
        } catch (std::exception const&) {
            out = true;
        }
        outs[me] = out;
        yeses[me] = yes;
    });
    int refused = 0, moved = 0;
    for (int k = 0; k < 4; ++k) {
        refused += outs[k];
        moved += yeses[k];
    }
    if (!fits) hx_assert(refused == of(dims), "a layer wider than the mesh of the outer processes is refused by every process");
    else {
        hx_assert(refused == 0 && (moved == 0 || moved == of(dims)), "the processes agree");
        if (fast[0] < 0 || fast[0] < n[0] - wide - ng) hx_assert(moved == 0, "nothing moves as long as the gas at the edge is slow");
        if (fast[0] >= n[0] - wide) hx_assert(moved == of(dims), "the mesh moves once the gas at the edge is fast enough");
    }
    hx_reach("end");
}
}
