// Physical boundary conditions, halo exchange, priorities
#include <kit.hpp>
#include <vfs.hpp>
#include <vector>
#include <functional>
#include <param.cpp>
#include <inih/INIReader.hpp>
#include "../vendor/inih/src/INIReader.cpp"
#include <boundary.cpp>
#include <boundary_distribute.cpp>
#include <boundary_factory.hpp>

static Param mk_param(std::string const& text)
{
    hx_file("params.ini", text.data(), text.size());
    INIReader const r("params.ini");
    return Param(r);
}
struct Fields
{
    KV_double_3d rho, E;
    KV_double_4d rhou, fx;
};
static Fields mk_fields(Grid const& g, int nfx)
{
    return {v3(g, "rho"), v3(g, "E"), v4(g, "rhou", ndim), v4(g, "fx", nfx)};
}
static int ncomp(int nfx) { return 2 + ndim + nfx; }
static double& at(Fields const& f, int c, int i, int j, int k)
{
    if (c == 0) return f.rho(i, j, k);
    if (c == 1) return f.E(i, j, k);
    if (c < 2 + ndim) return f.rhou(i, j, k, c - 2);
    return f.fx(i, j, k, c - 2 - ndim);
}
static bool inner(Grid const& g, int const* x)
{
    bool in = true;
    for (int d = 0; d < 3; ++d) in = in && x[d] >= g.Nghost[d] && x[d] < g.Nghost[d] + g.Nx_local_ng[d];
    return in;
}
template <class F>
static void each(Grid const& g, F const& f)
{
    for (int i = 0; i < g.Nx_local_wg[0]; ++i)
        for (int j = 0; j < g.Nx_local_wg[1]; ++j)
            for (int k = 0; k < g.Nx_local_wg[2]; ++k) {
                int const x[3] = {i, j, k};
                f(x);
            }
}
static char const* const kinds[3] = {"NullGradient", "Reflexive", "Periodic"};
static char const* const faces[6] = {"X_left", "X_right", "Y_left", "Y_right", "Z_left", "Z_right"};
extern "C" {
// one condition on one face, ghost cells of the other directions included
void one_face()
{
    int const kind = hx_choice("kind", 0, 2), face = hx_choice("face", 0, 2 * ndim - 1), ng = hx_choice("Ng", 1, 2), extra = hx_choice("extra", 0, 1), nfx = hx_choice("nfx", 0, 2);
    int const d = face / 2, side = face % 2;
    std::array<int, 3> n = cells(1, 1, 1);
    n[d] = ng + extra;
    Grid g(n, {0, 0, 0}, ng);
    Fields const f = mk_fields(g, nfx), o = mk_fields(g, nfx);
    auto slab = [&](int const* x) { return side == 0 ? x[d] < ng : x[d] >= ng + n[d]; };
    each(g, [&](int const* x) {
        for (int c = 0; c < ncomp(nfx); ++c) {
            double v = hx_real((idx("q", c) + std::to_string(x[0]) + std::to_string(x[1]) + std::to_string(x[2])).c_str());
            at(o, c, x[0], x[1], x[2]) = v;
            if (slab(x) && kind != 2) hx_poison(&at(f, c, x[0], x[1], x[2]));
            else at(f, c, x[0], x[1], x[2]) = v;
        }
    });
    factory_boundary_construction<UFGravity>(kinds[kind], d, side)->execute(g, UFGravity(), f.rho, f.rhou, f.E, f.fx);
    each(g, [&](int const* x) {
        int s[3] = {x[0], x[1], x[2]};
        int flip = -1;
        if (slab(x) && kind != 2) {
            int const edge = side == 0 ? ng : ng + n[d] - 1; // cell next to the border
            int const depth = side == 0 ? ng - 1 - x[d] : x[d] - (ng + n[d]); // 0 for the first ghost layer
            s[d] = kind == 0 ? edge : (side == 0 ? edge + depth : edge - depth);
            if (kind == 1) flip = 2 + d;
        }
        for (int c = 0; c < ncomp(nfx); ++c) {
            double const want = at(o, c, s[0], s[1], s[2]), got = at(f, c, x[0], x[1], x[2]);
            if (!slab(x)) hx_assert_eq(got, want, "cells outside the ghost layer are left alone");
            else if (kind == 2) hx_assert_eq(got, want, "a periodic border keeps what the exchange brought");
            else if (kind == 0) hx_assert_eq(got, want, "null gradient: ghost cells repeat the cell next to the border");
            else hx_assert_eq(got, c == flip ? -want : want, "reflection: ghost cells mirror the inner ones, the normal momentum changes sign");
        }
    });
    hx_reach("end");
}
// boundary conditions are made by name; other names are refused
void made_by_name()
{
    char nm[16];
    int const n = hx_choice("len", 0, 13);
    for (int i = 0; i < n; ++i) nm[i] = static_cast<char>(hx_byte(idx("name", i).c_str()));
    nm[n] = 0;
    int which = -1;
    for (int k = 0; k < 3; ++k) {
        bool same = std::strlen(kinds[k]) == static_cast<std::size_t>(n);
        for (int i = 0; i < n && same; ++i) same = nm[i] == kinds[k][i];
        if (same) which = k;
    }
    bool thrown = false;
    try {
        auto const b = factory_boundary_construction<UFGravity>(std::string(nm, static_cast<std::size_t>(n)), 0, 1);
        hx_assert((dynamic_cast<NullGradient<UFGravity>*>(b.get()) != nullptr) == (which == 0), "NullGradient");
        hx_assert((dynamic_cast<ReflexiveCondition<UFGravity>*>(b.get()) != nullptr) == (which == 1), "Reflexive");
        hx_assert((dynamic_cast<PeriodicCondition<UFGravity>*>(b.get()) != nullptr) == (which == 2), "Periodic");
    } catch (std::runtime_error&) {
        thrown = true;
    }
    hx_assert(thrown == (which < 0), "unknown boundary conditions are refused");
    hx_reach("end");
}
}
// ---- exchange
using Bcs = std::array<std::unique_ptr<IBoundaryCondition<UFGravity>>, nfaces>;
static Bcs mk_bcs(int const* kind)
{
    Bcs b;
    for (int f = 0; f < nfaces; ++f) b[static_cast<std::size_t>(f)] = factory_boundary_construction<UFGravity>(kinds[kind[f]], f / 2, f % 2);
    return b;
}
struct Exch
{
    int P, ng, nfx;
    std::array<int, 3> dims, n;
    bool aware;
};
// process grids with 1, 2 or 3 processes in a direction, one direction divided or two
static Exch mk_exch(bool divided, bool all)
{
    Exch e;
    e.dims = {1, 1, 1};
    e.ng = ndim == 3 ? 1 : hx_choice("Ng", 1, 2);
    e.nfx = ndim == 3 || !all ? 1 : hx_choice("nfx", 0, 1);
    e.aware = all && hx_choice("device_aware", 0, 1);
    e.n = cells(e.ng, e.ng, e.ng);
    if (divided) {
        int const c = hx_choice("divided", 0, ndim == 1 ? 0 : ndim);
        if (c == ndim && ndim > 1) {
            e.dims[0] = 2;
            e.dims[ndim - 1] = 2;
        } else e.dims[c] = hx_choice("P", 2, 3);
        for (int d = 0; d < ndim; ++d)
            if (e.dims[d] > 1) e.n[d] = e.dims[d] * e.ng + (ndim < 3 ? hx_choice("extra", 0, 1) : 0);
    } else {
        e.n[0] = e.ng + hx_choice("extra", 0, 1);
    }
    e.P = e.dims[0] * e.dims[1] * e.dims[2];
    return e;
}
struct Global
{
    std::array<int, 3> n;
    std::vector<double> v;
    int m;
    Global(std::array<int, 3> const& n_, int m_) : n(n_), m(m_)
    {
        for (int i = 0; i < n[0] * n[1] * n[2] * m; ++i) v.push_back(hx_real(idx("q", i).c_str()));
    }
    auto operator()(int c, int const* x) const -> double
    {
        int y[3];
        for (int d = 0; d < 3; ++d) y[d] = ((x[d] % n[d]) + n[d]) % n[d];
        return v[static_cast<std::size_t>(((y[0] * n[1] + y[1]) * n[2] + y[2]) * m + c)];
    }
};
static Param param_of(Exch const& e)
{
    return mk_param("[Passive Scalar]\nnfx=" + std::to_string(e.nfx) + "\n[Parallelization]\nmpi_device_aware=" + (e.aware ? "true" : "false") + "\n");
}
static void run_rank(Exch const& e, Global const& G, int const* kind, Param const& p, std::function<void(Grid const&, Fields const&)> const& out)
{
    Grid g(e.n, {e.dims[0], ndim > 1 ? e.dims[1] : 0, ndim > 2 ? e.dims[2] : 0}, e.ng);
    Fields const f = mk_fields(g, e.nfx);
    each(g, [&](int const* x) {
        int y[3];
        for (int d = 0; d < 3; ++d) y[d] = x[d] - g.Nghost[d] + g.range.Corner_min[d];
        for (int c = 0; c < ncomp(e.nfx); ++c) {
            double& q = at(f, c, x[0], x[1], x[2]);
            if (inner(g, x)) q = G(c, y);
            else hx_poison(&q);
        }
    });
    Bcs const b = mk_bcs(kind);
    DistributedBoundaryCondition const db(g, p);
    db(b, g, UFGravity(), f.rho, f.rhou, f.E, f.fx);
    out(g, f);
}
extern "C" {
// periodic everywhere: every ghost cell, edges and corners included, is the cell of the wrapped domain
void periodic_world()
{
    Exch const e = mk_exch(hx_choice("many", 0, 1), true);
    Global const G(e.n, ncomp(e.nfx));
    Param const p = param_of(e);
    int const kind[6] = {2, 2, 2, 2, 2, 2};
    hx_mpi_run(e.P, [&](int) {
        run_rank(e, G, kind, p, [&](Grid const& g, Fields const& f) {
            each(g, [&](int const* x) {
                int y[3];
                for (int d = 0; d < 3; ++d) y[d] = x[d] - g.Nghost[d] + g.range.Corner_min[d];
                for (int c = 0; c < ncomp(e.nfx); ++c) hx_assert_eq(at(f, c, x[0], x[1], x[2]), G(c, y), "every ghost cell holds the cell of the periodic domain it stands for");
            });
        });
    });
    hx_reach("end");
}
// any conditions: the ghost cells do not depend on how the domain is divided
void division_invisible()
{
    Exch const e = mk_exch(true, false);
    Global const G(e.n, ncomp(e.nfx));
    Param const p = param_of(e);
    int kind[6];
    for (int d = 0; d < 3; ++d) {
        int const k = d < ndim ? hx_choice(idx("kind", d).c_str(), 0, ndim == 3 ? 3 : 4) : 0;
        // both faces alike, or different ones
        kind[2 * d] = k == 3 ? 0 : (k == 4 ? 1 : k);
        kind[2 * d + 1] = k == 3 ? 1 : (k == 4 ? 0 : k);
    }
    // the whole domain on one process
    Exch one = e;
    one.P = 1;
    one.dims = {1, 1, 1};
    std::vector<double> ref;
    int const m = ncomp(e.nfx);
    std::array<int, 3> w {0, 0, 0};
    hx_mpi_run(1, [&](int) {
        run_rank(one, G, kind, p, [&](Grid const& g, Fields const& f) {
            w = g.Nx_local_wg;
            ref.clear();
            each(g, [&](int const* x) {
                for (int c = 0; c < m; ++c) ref.push_back(at(f, c, x[0], x[1], x[2]));
            });
        });
    });
    hx_mpi_run(e.P, [&](int) {
        run_rank(e, G, kind, p, [&](Grid const& g, Fields const& f) {
            each(g, [&](int const* x) {
                int y[3];
                for (int d = 0; d < 3; ++d) y[d] = x[d] + g.range.Corner_min[d];
                for (int c = 0; c < m; ++c)
                    hx_assert_eq(at(f, c, x[0], x[1], x[2]), ref[static_cast<std::size_t>(((y[0] * w[1] + y[1]) * w[2] + y[2]) * m + c)], "ghost cells do not depend on the number of processes");
            });
        });
    });
    hx_reach("end");
}
}
// ---- priorities
struct Marker : IBoundaryCondition<UFGravity>
{
    int* count;
    Marker(int d, int s, int* c) : IBoundaryCondition<UFGravity>(d, s), count(c) {}
    void execute(Grid const& g, UFGravity const&, KV_double_3d const& rho, KV_double_4d const&, KV_double_3d const&, KV_double_4d const&) const final
    {
        ++*count;
        int const d = bc_idim(), s = bc_iface();
        each(g, [&](int const* x) {
            if (s == 0 ? x[d] < g.Nghost[d] : x[d] >= g.Nghost[d] + g.Nx_local_ng[d]) rho(x[0], x[1], x[2]) = 100 + 2 * d + s;
        });
    }
};
static void marked(std::string const& prio, int const* rank_of_face, std::array<int, 3> const& dims)
{ // rank_of_face[f]: position in the list (0: most important)
    int const P = dims[0] * dims[1] * dims[2];
    Param const p = mk_param("[Boundary Condition]\npriority=" + prio + "\n");
    hx_mpi_run(P, [&](int) {
        Grid g(cells(dims[0], dims[1], dims[2]), {dims[0], ndim > 1 ? dims[1] : 0, ndim > 2 ? dims[2] : 0}, 1);
        Fields const f = mk_fields(g, 0);
        put(f.rho, 1);
        put(f.E, 1);
        put(f.rhou, 0);
        int count[6] = {0, 0, 0, 0, 0, 0};
        Bcs b;
        for (int q = 0; q < nfaces; ++q) b[static_cast<std::size_t>(q)] = std::make_unique<Marker>(q / 2, q % 2, count + q);
        DistributedBoundaryCondition const db(g, p);
        db(b, g, UFGravity(), f.rho, f.rhou, f.E, f.fx);
        for (int q = 0; q < nfaces; ++q) hx_assert(count[q] == (g.is_border[static_cast<std::size_t>(q / 2)][static_cast<std::size_t>(q % 2)] ? 1 : 0), "the condition of a border face is applied once, that of an inner face not at all");
        each(g, [&](int const* x) {
            int best = -1;
            for (int q = 0; q < nfaces; ++q) {
                int const d = q / 2;
                bool const in = q % 2 == 0 ? x[d] < g.Nghost[d] : x[d] >= g.Nghost[d] + g.Nx_local_ng[d];
                if (in && g.is_border[static_cast<std::size_t>(d)][static_cast<std::size_t>(q % 2)] && (best < 0 || rank_of_face[q] < rank_of_face[best])) best = q;
            }
            hx_assert_eq(f.rho(x[0], x[1], x[2]), best < 0 ? 1 : 100 + best, "edges and corners belong to the face of highest priority");
        });
    });
}
extern "C" {
// every order of the faces
void priorities()
{
    int left[6] = {0, 1, 2, 3, 4, 5}, rank_of_face[6];
    std::string prio;
    for (int i = 0; i < nfaces; ++i) {
        int const c = hx_choice("pick", 0, nfaces - 1 - i);
        rank_of_face[left[c]] = i;
        prio += std::string(i ? " " : "") + faces[left[c]];
        for (int k = c; k + 1 < nfaces - i; ++k) left[k] = left[k + 1];
    }
    marked(prio, rank_of_face, {1, 1, 1});
    hx_reach("end");
}
// without a list, later directions overwrite earlier ones; inner faces have no condition
void no_priorities()
{
    int const rank_of_face[6] = {5, 4, 3, 2, 1, 0};
    std::array<int, 3> dims {1, 1, 1};
    dims[static_cast<std::size_t>(hx_choice("dir", 0, ndim - 1))] = hx_choice("P", 1, 3);
    marked("", rank_of_face, dims);
    hx_reach("end");
}
// a list that does not name every face once is refused
void priorities_refused()
{
    static char const* const words[9] = {"X_left", "X_right", "Y_left", "Y_right", "Z_left", "Z_right", "", "x_left", "X_leftX_right"};
    std::string prio;
    bool all = true;
    bool named[6] = {};
    for (int i = 0; i < nfaces; ++i) {
        int const c = ndim == 1 ? hx_choice("word", 0, 8) : (ndim == 2 ? hx_choice("word", 0, 6) : (i < 3 ? 2 * i + hx_choice("word", 0, 1) : hx_choice("word", 0, 6)));
        prio += std::string(words[c]) + " ";
        if (c < nfaces && !named[c]) named[c] = true;
        else all = false;
    }
    Grid g(cells(1), {0, 0, 0}, 1);
    bool empty = true;
    for (char c : prio) empty = empty && c == ' ';
    bool thrown = false;
    try {
        Param const p = mk_param("[Boundary Condition]\npriority=" + prio + "\n");
        DistributedBoundaryCondition const db(g, p);
    } catch (std::runtime_error&) {
        thrown = true;
    }
    hx_assert(thrown == !(all || empty), "a priority list that does not name every face once is refused");
    hx_reach("end");
}
}
