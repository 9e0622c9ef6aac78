// Output files, restart files, the XDMF description
#include <kit.hpp>
#include <vfs.hpp>
#include <cmath>
#include <vector>
#include <stdexcept>
#include <dual_view.hpp>
#include <pdi.h>
#include <param.cpp>
#include <inih/INIReader.hpp>
#include "../vendor/inih/src/INIReader.cpp"
#include <io.cpp>
namespace hclpp {
std::string_view const git_build_string("v1-2-gabc");
std::string_view const git_branch("main");
std::string_view const compile_date("2026-01-01");
std::string_view const compile_time("12:34:56");
}

static Param mk_param(std::string const& text)
{
    hx_file("params.ini", text.data(), text.size());
    INIReader const r("params.ini");
    return Param(r);
}
static std::size_t off(Grid const& g, int i, int j, int k, int c = 0)
{ // place in an array of the process (first index fastest)
    return static_cast<std::size_t>(i + g.Nx_local_wg[0] * (j + g.Nx_local_wg[1] * (k + g.Nx_local_wg[2] * c)));
}
struct Case { std::array<int, 3> n, dims; int P; };
// a cut in one direction, or in two of them
static Case mk_case(char const* name, std::array<int, 3> const& n)
{
    Case w;
    w.n = n;
    w.dims = {1, 1, 1};
    int const c = hx_choice(name, 0, ndim > 1 ? ndim + 1 : 1);
    if (c == ndim + 1) { w.dims[0] = 2; w.dims[ndim - 1] = 2; }
    else if (c > 0) w.dims[c - 1] = 2;
    w.P = w.dims[0] * w.dims[1] * w.dims[2];
    return w;
}
struct Glob
{ // a field on the whole mesh
    std::array<int, 3> n;
    int m;
    std::vector<double> v;
    Glob(std::array<int, 3> const& n_, int m_, char const* name) : n(n_), m(m_)
    {
        for (int i = 0; i < n[0] * n[1] * n[2] * m; ++i) v.push_back(hx_real(idx(name, i).c_str()));
    }
    auto operator()(int i, int j, int k, int c = 0) const -> double { return v[static_cast<std::size_t>(((i * n[1] + j) * n[2] + k) * m + c)]; }
};
template <class F>
static void each_inner(Grid const& g, F const& f)
{
    for (int i = 0; i < g.Nx_local_ng[0]; ++i)
        for (int j = 0; j < g.Nx_local_ng[1]; ++j)
            for (int k = 0; k < g.Nx_local_ng[2]; ++k)
                f(i + g.Nghost[0], j + g.Nghost[1], k + g.Nghost[2], i + g.range.Corner_min[0], j + g.range.Corner_min[1], k + g.range.Corner_min[2]);
}
template <class DV>
static void scatter(Grid const& g, Glob const& G, DV const& v)
{ // the current values are on the device; ghost cells are uninitialised
    auto const d = v(device);
    poison(d);
    double* const p = const_cast<double*>(d.data());
    each_inner(g, [&](int i, int j, int k, int a, int b, int c) { for (int m = 0; m < G.m; ++m) p[off(g, i, j, k, m)] = G(a, b, c, m); });
}
struct State
{
    Glob rho, u, P, E, fx, T;
    std::vector<double> x[3];
    int output_id, iter_output_id, time_output_id, iter;
    double t, gamma;
    State(std::array<int, 3> const& n, int nfx, int ng)
        : rho(n, 1, "rho"), u(n, ndim, "u"), P(n, 1, "P"), E(n, 1, "E"), fx(n, nfx, "fx"), T(n, 1, "T")
    {
        for (int d = 0; d < 3; ++d)
            for (int i = 0; i < n[d] + 2 * (d < ndim ? ng : 0) + 1; ++i) x[d].push_back(hx_real((idx("x", d) + idx("", i)).c_str()));
        output_id = 12;
        iter_output_id = static_cast<int>(hx_int("iter_output_id", -1, 1000));
        time_output_id = static_cast<int>(hx_int("time_output_id", -1, 1000));
        iter = static_cast<int>(hx_int("iter", 0, 1000000));
        t = hx_real("t");
        gamma = hx_real("gamma");
    }
};
static KDV_double_3d d3(Grid const& g, char const* n) { return KDV_double_3d(n, g.Nx_local_wg[0], g.Nx_local_wg[1], g.Nx_local_wg[2]); }
static KDV_double_4d d4(Grid const& g, char const* n, int m) { return KDV_double_4d(n, g.Nx_local_wg[0], g.Nx_local_wg[1], g.Nx_local_wg[2], m); }
static KDV_double_1d axis(std::vector<double> const& x, char const* n)
{
    KDV_double_1d const v(n, x.size());
    auto const h = v(host);
    for (std::size_t i = 0; i < x.size(); ++i) h(i) = x[i];
    return v;
}
static void write_one(Grid const& g, State const& s, std::string const& dir, std::string const& prefix, int nfx)
{
    KDV_double_3d const rho = d3(g, "rho"), P = d3(g, "P"), E = d3(g, "E"), T = d3(g, "T");
    KDV_double_4d const u = d4(g, "u", ndim), fx = d4(g, "fx", nfx);
    scatter(g, s.rho, rho);
    scatter(g, s.P, P);
    scatter(g, s.E, E);
    scatter(g, s.T, T);
    scatter(g, s.u, u);
    if (nfx) scatter(g, s.fx, fx);
    KDV_double_1d const x0 = axis(s.x[0], "x0"), x1 = axis(s.x[1], "x1"), x2 = axis(s.x[2], "x2");
    write_pdi(dir, prefix, s.output_id, s.iter_output_id, s.time_output_id, s.iter, s.t, s.gamma, g, rho.const_view(), u.const_view(), P.const_view(), E.const_view(),
              x0.const_view(), x1.const_view(), x2.const_view(), fx.const_view(), T.const_view());
}
static std::string ini(int nfx) { return "[Passive Scalar]\nnfx = " + std::to_string(nfx) + "\n"; }
static std::array<int, 3> sizes(int a, int b, int c) { return cells(a, b, c); }
static void write_all(Case const& w, State const& s, int ng, int nfx, Param const& param)
{
    hx_mpi_run(w.P, [&](int) {
        Grid const g(w.n, w.dims, ng);
        write_pdi_init(g, param);
        write_one(g, s, "out", "run", nfx);
    });
}
static bool one_bit(unsigned b) { return b != 0 && (b & (b - 1)) == 0; }
static void check_field(HxH5File& f, std::string const& name, std::array<int, 3> const& n, Glob const& G, int m)
{
    HxH5Dset* d = f.find(name);
    hx_assert(d != nullptr, (name + " is in the file").c_str());
    if (!d) return;
    hx_assert(d->kind == 'd' && d->dims == std::vector<long>({n[2], n[1], n[0]}), (name + " has the size of the mesh").c_str());
    std::size_t o = 0;
    for (int k = 0; k < n[2]; ++k)
        for (int j = 0; j < n[1]; ++j)
            for (int i = 0; i < n[0]; ++i, ++o) {
                hx_assert(one_bit(d->by[o]), (name + ": every cell is written by one process").c_str());
                hx_assert_eq(d->d[o], G(i, j, k, m), (name + ": every cell is at its place").c_str());
            }
}
static void check_int(HxH5File& f, char const* name, int v)
{
    HxH5Dset* d = f.find(name);
    hx_assert(d != nullptr && d->kind == 'i' && d->i.size() == 1 && d->i[0] == v, name);
}
static void check_real(HxH5File& f, char const* name, double v)
{
    HxH5Dset* d = f.find(name);
    hx_assert(d != nullptr && d->kind == 'd' && d->d.size() == 1, name);
    if (d) hx_assert_eq(d->d[0], v, name);
}
static void check_attr(HxH5File& f, char const* name, std::string_view v)
{
    int n = 0;
    for (HxH5Attr const& a : f.attrs)
        if (a.name == name) {
            ++n;
            hx_assert(a.value.size() == v.size() && a.value == v, (std::string("attribute ") + name).c_str());
            hx_assert(a.cset == H5T_CSET_UTF8, "attributes are UTF-8");
        }
    hx_assert(n == 1, (std::string("attribute ") + name + " is written once").c_str());
}
extern "C" {
// every field at its global place, whatever the decomposition
void fields()
{
    int const ng = hx_choice("Ng", 1, 2), nfx = hx_choice("nfx", 0, 2);
    Case const w = mk_case("cut", sizes(3, 2, ndim > 2 ? 3 : 1));
    State const s(w.n, nfx, ng);
    Param const param = mk_param(ini(nfx));
    bool const old = hx_choice("an older file has the name", 0, 1);
    if (old) {
        HxH5File* f = hx_h5().create("out/run_00000012.h5");
        HxH5Dset* d = new HxH5Dset;
        d->name = "stale";
        f->dsets.push_back(d);
        f->attrs.push_back(HxH5Attr {"git_branch", "old", 3, 1});
        d = new HxH5Dset;
        d->name = "rho";
        d->kind = 'i';
        f->dsets.push_back(d);
    }
    write_all(w, s, ng, nfx, param);
    hx_assert(hx_h5().files.size() == 1, "one file per output");
    HxH5File* f = hx_h5().find("out/run_00000012.h5");
    hx_assert(f != nullptr, "the file is directory/prefix_<number on 8 digits>.h5");
    if (!f) return;
    check_field(*f, "rho", w.n, s.rho, 0);
    check_field(*f, "P", w.n, s.P, 0);
    check_field(*f, "E", w.n, s.E, 0);
    check_field(*f, "T", w.n, s.T, 0);
    for (int d = 0; d < ndim; ++d) check_field(*f, "ux" + std::to_string(d), w.n, s.u, d);
    for (int k = 0; k < nfx; ++k) check_field(*f, "fx" + std::to_string(k), w.n, s.fx, k);
    for (int d = ndim; d < 3; ++d) hx_assert(f->find("ux" + std::to_string(d)) == nullptr, "only the components of the velocity that exist");
    hx_assert(f->find("stale") == nullptr, "nothing of an older file is left");
    for (int d = 0; d < 3; ++d) {
        std::string const n = "x" + std::to_string(d);
        HxH5Dset *a = f->find(n), *b = f->find(n + "_ng");
        hx_assert(a && b, "node positions");
        if (!a || !b) return;
        int const gh = d < ndim ? ng : 0;
        hx_assert(a->dims == std::vector<long>({w.n[d] + 2 * gh + 1}), "nodes with ghosts: size");
        hx_assert(b->dims == std::vector<long>({w.n[d] + 1}), "nodes without ghosts: size");
        for (std::size_t i = 0; i < a->d.size(); ++i) hx_assert_eq(a->d[i], s.x[d][i], "nodes with ghosts");
        for (std::size_t i = 0; i < b->d.size(); ++i) hx_assert_eq(b->d[i], s.x[d][i + static_cast<std::size_t>(gh)], "nodes without ghosts");
        for (std::size_t i = 0; i < a->by.size(); ++i) hx_assert(one_bit(a->by[i]), "nodes are written by one process");
        for (std::size_t i = 0; i < b->by.size(); ++i) hx_assert(one_bit(b->by[i]), "nodes are written by one process");
    }
    check_int(*f, "output_id", s.output_id);
    check_int(*f, "iter_output_id", s.iter_output_id);
    check_int(*f, "time_output_id", s.time_output_id);
    check_int(*f, "iter", s.iter);
    check_real(*f, "current_time", s.t);
    check_real(*f, "gamma", s.gamma);
    check_attr(*f, "git_build_string", git_build_string);
    check_attr(*f, "git_branch", git_branch);
    check_attr(*f, "compile_date", compile_date);
    check_attr(*f, "compile_time", compile_time);
    hx_assert(hx_h5().open() == 0, "everything is closed");
    hx_reach("end");
}
// the ten passive scalars of the file format
void many_scalars()
{
    int const nfx = hx_choice("nfx", 9, 10);
    Case const w = mk_case("cut", sizes(2, ndim > 1 ? 2 : 1, 1));
    State const s(w.n, nfx, 1);
    Param const param = mk_param(ini(nfx));
    write_all(w, s, 1, nfx, param);
    HxH5File* f = hx_h5().find("out/run_00000012.h5");
    hx_assert(f != nullptr, "file");
    if (!f) return;
    for (int k = 0; k < nfx; ++k) check_field(*f, "fx" + std::to_string(k), w.n, s.fx, k);
    hx_assert(f->find("fx" + std::to_string(nfx)) == nullptr, "only the scalars that exist");
    hx_reach("end");
}
// written on one decomposition, read on another
void restart()
{
    int const ng = hx_choice("Ng", 1, 2), nfx = hx_choice("nfx", 0, 2);
    Case const w = mk_case("cut of the writer", sizes(3, 2, ndim > 2 ? 3 : 1));
    Case const r = mk_case("cut of the reader", w.n);
    State const s(w.n, nfx, ng);
    Param const param = mk_param(ini(nfx));
    write_all(w, s, ng, nfx, param);
    hx_mpi_run(r.P, [&](int) {
        Grid const g(r.n, r.dims, ng);
        write_pdi_init(g, param);
        KDV_double_3d const rho = d3(g, "rho"), P = d3(g, "P");
        KDV_double_4d const u = d4(g, "u", ndim), fx = d4(g, "fx", nfx);
        KDV_double_1d const x0("x0", s.x[0].size()), x1("x1", s.x[1].size()), x2("x2", s.x[2].size());
        int output_id = -1, iter_output_id = -1, time_output_id = -1, iter = 0;
        double t = 7;
        read_pdi("out/run_00000012.h5", output_id, iter_output_id, time_output_id, iter, t, rho, u, P, fx, x0, x1, x2);
        hx_assert(output_id == s.output_id && iter_output_id == s.iter_output_id && time_output_id == s.time_output_id && iter == s.iter, "counters of a restart");
        hx_assert_eq(t, s.t, "time of a restart");
        auto const drho = rho(device, read_only);
        auto const dP = P(device, read_only);
        auto const du = u(device, read_only);
        auto const dfx = fx(device, read_only);
        each_inner(g, [&](int i, int j, int k, int a, int b, int c) {
            hx_assert_eq(drho.data()[off(g, i, j, k)], s.rho(a, b, c), "density of a restart");
            hx_assert_eq(dP.data()[off(g, i, j, k)], s.P(a, b, c), "pressure of a restart");
            for (int d = 0; d < ndim; ++d) hx_assert_eq(du.data()[off(g, i, j, k, d)], s.u(a, b, c, d), "velocity of a restart");
            for (int m = 0; m < nfx; ++m) hx_assert_eq(dfx.data()[off(g, i, j, k, m)], s.fx(a, b, c, m), "passive scalars of a restart");
        });
        KDV_double_1d const* const xs[3] = {&x0, &x1, &x2};
        for (int d = 0; d < 3; ++d) {
            auto const x = (*xs[d])(device, read_only);
            for (std::size_t i = 0; i < s.x[d].size(); ++i) hx_assert_eq(x.data()[i], s.x[d][i], "nodes of a restart");
        }
        hx_assert(hx_h5().open() == 0, "everything is closed");
    });
    hx_reach("end");
}
// a file of another mesh, or no file, is refused before anything is read
void restart_refused()
{
    int const what = hx_choice("what is wrong", 0, 8);
    Case const w = mk_case("cut", sizes(2, 2, ndim > 2 ? 2 : 1));
    State const s(w.n, 1, 1);
    Param const param = mk_param(ini(1));
    write_all(w, s, 1, 1, param);
    HxH5File* f = hx_h5().find("out/run_00000012.h5");
    if (!f) return;
    std::string name = "out/run_00000012.h5";
    int const by = hx_choice("one less or one more", 0, 1);
    if (what < 3) { // another number of nodes
        HxH5Dset* d = f->find("x" + std::to_string(what));
        d->dims[0] += by ? 1 : -1;
        d->d.resize(static_cast<std::size_t>(d->dims[0]));
    } else if (what < 6) { // the nodes are not a list
        HxH5Dset* d = f->find("x" + std::to_string(what - 3));
        if (by) d->dims.push_back(1);
        else d->dims.insert(d->dims.begin(), 1);
    } else if (what == 6) { // no such dataset
        f->find("x1")->name = "nodes";
    } else if (what == 7) name = "out/run_00000013.h5";
    else f->hdf5 = false;
    bool refused = false;
    int output_id = -1, iter_output_id = -2, time_output_id = -3, iter = 5;
    double t = 7;
    hx_mpi().reset(1, 0);
    Grid const g(w.n, {1, 1, 1}, 1);
    KDV_double_3d const rho = d3(g, "rho"), P = d3(g, "P");
    KDV_double_4d const u = d4(g, "u", ndim), fx = d4(g, "fx", 1);
    std::size_t const n0 = s.x[0].size(), n1 = s.x[1].size(), n2 = s.x[2].size();
    KDV_double_1d const x0("x0", n0), x1("x1", n1), x2("x2", n2);
    try {
        write_pdi_init(g, param);
        read_pdi(name, output_id, iter_output_id, time_output_id, iter, t, rho, u, P, fx, x0, x1, x2);
    } catch (std::exception const&) {
        refused = true;
    }
    hx_assert(refused, "a restart file that does not fit the mesh is refused");
    hx_assert(output_id == -1 && iter_output_id == -2 && time_output_id == -3 && iter == 5, "a refused restart changes nothing");
    hx_assert(hx_h5().open() == 0, "everything is closed after a refusal");
    hx_reach("end");
}
// the number of the output in the name of the file
void file_names()
{
    // any two last digits after different leading digits
    int const lead[6] = {0, 9, 42, 999999, 1000000, 21474836};
    int const l = lead[hx_choice("leading digits", 0, 5)];
    int const id = l * 100 + static_cast<int>(hx_int("last digits", 0, l == 21474836 ? 47 : 99));
    Case const w {sizes(1, 1, 1), {1, 1, 1}, 1};
    State s(w.n, 0, 1);
    s.output_id = id;
    Param const param = mk_param(ini(0));
    write_all(w, s, 1, 0, param);
    hx_assert(hx_h5().files.size() == 1, "one file per output");
    std::string const& n = hx_h5().files[0]->name;
    hx_assert(n.size() >= 8 + 8 + 3 && n.substr(0, 8) == "out/run_" && n.substr(n.size() - 3) == ".h5", "directory, prefix and suffix");
    long v = 0;
    bool digits = true;
    for (std::size_t i = 8; i + 3 < n.size(); ++i) {
        digits = digits & (n[i] >= '0') & (n[i] <= '9');
        v = 10 * v + (n[i] - '0');
    }
    hx_assert(digits && v == id, "the number of the output");
    hx_assert(n.size() - 3 - 8 == 8 || (id > 99999999 && n.size() - 3 - 8 <= 10), "on eight digits");
    check_int(*hx_h5().files[0], "output_id", id);
    hx_reach("end");
}
// every call to the HDF5 library may fail: the run stops, nothing stays open
void failures()
{
    bool const reading = hx_choice("reading", 0, 1) == 1;
    Case const w {sizes(2, 1, 1), {1, 1, 1}, 1};
    State const s(w.n, 0, 1);
    Param const param = mk_param(ini(0));
    hx_mpi().reset(1, 0);
    Grid const g(w.n, {1, 1, 1}, 1);
    write_pdi_init(g, param);
    if (reading) write_one(g, s, "out", "run", 0);
    int const before = hx_h5().calls;
    hx_h5().fail_at = before + hx_choice("call that fails", 0, 30);
    bool failed = false;
    int output_id = -1, iter_output_id = -1, time_output_id = -1, iter = 0;
    double t = 7;
    KDV_double_3d const rho = d3(g, "rho"), P = d3(g, "P");
    KDV_double_4d const u = d4(g, "u", ndim), fx = d4(g, "fx", 0);
    std::size_t const n0 = s.x[0].size(), n1 = s.x[1].size(), n2 = s.x[2].size();
    KDV_double_1d const x0("x0", n0), x1("x1", n1), x2("x2", n2);
    try {
        if (reading) read_pdi("out/run_00000012.h5", output_id, iter_output_id, time_output_id, iter, t, rho, u, P, fx, x0, x1, x2);
        else write_one(g, s, "out", "run", 0);
    } catch (std::exception const&) {
        failed = true;
    }
    bool const happened = hx_h5().calls > hx_h5().fail_at;
    hx_assert(failed == happened, "a call that fails is reported, and only then");
    hx_assert(hx_h5().open() == 0, "everything is closed after a failure");
    hx_reach(happened ? "failed" : "end");
}
// the status line
void status()
{
    int const iter = static_cast<int>(hx_int("iter", 95, 104)), id = static_cast<int>(hx_int("output_id", 7, 12));
    double const t = hx_real("t"), tout = hx_pos("t_end");
    hx_mpi_run(2, [&](int rank) {
        std::ostringstream os;
        hx_fmt_values.clear();
        hx_fmt_digits.clear();
        print_simulation_status(os, iter, t, tout, id);
        std::string const s = os.str();
        if (rank != 0) { hx_assert(s.empty(), "only one process reports"); return; }
        std::string const want[3] = {"current iteration " + std::to_string(iter) + " ", "current time = ", "file number  = " + std::to_string(id) + "\n"};
        std::size_t p = 0;
        for (int i = 0; i < 3; ++i) {
            p = s.find(want[i], p);
            hx_assert(p != std::string::npos, "the report has the iteration, the time and the number of the file");
            if (p == std::string::npos) return;
        }
        hx_assert(hx_fmt_values.size() == 2, "time and percentage");
        if (hx_fmt_values.size() != 2) return;
        hx_assert_eq(hx_fmt_values[0], t, "time");
        hx_assert_eq(hx_fmt_values[1] * tout, 100 * t, "percentage");
    });
    hx_reach("end");
}
}

// ------------------------------------------------------------------ XDMF
struct Node
{
    std::string tag, text;
    std::vector<std::pair<std::string, std::string>> attr;
    std::vector<Node*> sub;
    std::string get(char const* n) const
    {
        for (auto const& a : attr) if (a.first == n) return a.second;
        return "";
    }
    std::vector<Node*> all(char const* t) const
    {
        std::vector<Node*> r;
        for (Node* x : sub) if (x->tag == t) r.push_back(x);
        return r;
    }
};
static bool blank(char c) { return c == ' ' || c == '\n' || c == '\t'; }
static std::string trim(std::string const& s)
{
    std::size_t a = 0, b = s.size();
    while (a < b && blank(s[a])) ++a;
    while (b > a && blank(s[b - 1])) --b;
    return s.substr(a, b - a);
}
// the root element, or null if the text is not well formed
static Node* parse_xml(std::string const& s)
{
    std::vector<Node*> stack;
    Node* root = nullptr;
    std::size_t i = 0;
    if (s.substr(0, 5) != "<?xml") return nullptr;
    while (i < s.size()) {
        if (s[i] != '<') {
            std::size_t const e = s.find('<', i);
            std::string const t = trim(s.substr(i, (e == std::string::npos ? s.size() : e) - i));
            if (!t.empty()) {
                if (stack.empty()) return nullptr;
                stack.back()->text += t;
            }
            if (e == std::string::npos) break;
            i = e;
            continue;
        }
        std::size_t const e = s.find('>', i);
        if (e == std::string::npos) return nullptr;
        std::string in = s.substr(i + 1, e - i - 1);
        i = e + 1;
        if (in.empty()) return nullptr;
        if (in[0] == '?') { if (in.back() != '?') return nullptr; continue; }
        if (in[0] == '!') continue;
        if (in[0] == '/') {
            if (stack.empty() || stack.back()->tag != in.substr(1)) return nullptr;
            stack.pop_back();
            continue;
        }
        bool const closed = in.back() == '/';
        if (closed) in.pop_back();
        Node* n = new Node;
        std::size_t k = 0;
        while (k < in.size() && !blank(in[k])) n->tag.push_back(in[k++]);
        while (true) {
            while (k < in.size() && blank(in[k])) ++k;
            if (k >= in.size()) break;
            std::string name, val;
            while (k < in.size() && in[k] != '=') name.push_back(in[k++]);
            if (k + 1 >= in.size() || in[k + 1] != '"') return nullptr;
            k += 2;
            while (k < in.size() && in[k] != '"') val.push_back(in[k++]);
            if (k >= in.size()) return nullptr;
            ++k;
            n->attr.emplace_back(name, val);
        }
        if (stack.empty()) {
            if (root) return nullptr;
            root = n;
        } else stack.back()->sub.push_back(n);
        if (!closed) stack.push_back(n);
    }
    return stack.empty() ? root : nullptr;
}
static double value(std::string const& token)
{ // a number written through a stream
    if (token.size() < 3 || token[0] != '\x01' || token.back() != '\x02') { hx_fail("the time is a number"); return 0; }
    std::size_t k = 0;
    for (std::size_t i = 1; i + 1 < token.size(); ++i) k = 10 * k + static_cast<std::size_t>(token[i] - '0');
    hx_assert(hx_fmt_digits[k] >= 6, "a time is written with six digits at least");
    return hx_fmt_values[k];
}
static std::vector<long> numbers(std::string const& s)
{
    std::vector<long> r;
    std::size_t i = 0;
    while (i < s.size()) {
        if (s[i] == ' ') { ++i; continue; }
        long v = 0;
        while (i < s.size() && s[i] != ' ') {
            if (s[i] < '0' || s[i] > '9') { hx_fail("dimensions are numbers"); return r; }
            v = 10 * v + (s[i++] - '0');
        }
        r.push_back(v);
    }
    return r;
}
// a data item points to a dataset that exists and has the size it says
static std::string item(Node const& d, std::string& file)
{
    hx_assert(d.get("NumberType") == "Float" && d.get("Precision") == "8" && d.get("Format") == "HDF", "data items are doubles in an HDF5 file");
    std::size_t const c = d.text.find(":/");
    hx_assert(c != std::string::npos, "a data item names a file and a dataset");
    if (c == std::string::npos) return "";
    file = d.text.substr(0, c);
    std::string const ds = d.text.substr(c + 2);
    HxH5File* f = hx_h5().find("out/" + file);
    hx_assert(f != nullptr, "the file of a data item exists");
    if (!f) return ds;
    HxH5Dset* x = f->find(ds);
    hx_assert(x != nullptr, "the dataset of a data item exists");
    if (x) hx_assert(x->kind == 'd' && numbers(d.get("Dimensions")) == x->dims, "the size of a data item is the size of the dataset");
    return ds;
}
extern "C" {
// the description after each output of a run, also of a restarted run
void xdmf()
{
    int const nfx = hx_choice("nfx", 0, 2), first = hx_choice("number of the first output", 0, 2) * 99, count = hx_choice("outputs", 1, 2);
    Case const w = mk_case("cut", sizes(3, 2, ndim > 2 ? 4 : 1));
    int const ng = hx_choice("Ng", 1, 2);
    State s(w.n, nfx, ng);
    Param const param = mk_param(ini(nfx));
    std::vector<double> times;
    std::vector<std::pair<int, double>> record;
    for (int o = 0; o < count; ++o) {
        times.push_back(hx_real(idx("time", o).c_str()));
        s.output_id = first + o;
        s.iter = 10 * o;
        s.t = times.back();
        record.emplace_back(s.iter, s.t);
        hx_mpi_run(w.P, [&](int) {
            Grid const g(w.n, w.dims, ng);
            write_pdi_init(g, param);
            XmlWriter const xml("out", "run", nfx);
            KDV_double_1d const x0 = axis(s.x[0], "x0"), x1 = axis(s.x[1], "x1"), x2 = axis(s.x[2], "x2");
            xml(g, s.output_id, record, x0.const_view(), x1.const_view(), x2.const_view());
            write_one(g, s, "out", "run", nfx);
        });
    }
    hx_assert(hx_files.size() == 1 && hx_files[0]->name == "out/run.xmf", "one description, next to the files");
    if (hx_files.size() != 1) return;
    Node* const root = parse_xml(hx_files[0]->text);
    hx_assert(root != nullptr, "the description is well-formed XML");
    if (!root) return;
    hx_assert(root->tag == "Xdmf" && root->all("Domain").size() == 1, "root");
    Node* const dom = root->sub[0];
    hx_assert(dom->sub.size() == 1 && dom->sub[0]->tag == "Grid" && dom->sub[0]->get("GridType") == "Collection" && dom->sub[0]->get("CollectionType") == "Temporal", "a series in time");
    if (dom->sub.size() != 1) return;
    std::vector<Node*> const grids = dom->sub[0]->all("Grid");
    hx_assert(grids.size() == static_cast<std::size_t>(count), "one entry for each output");
    if (grids.size() != static_cast<std::size_t>(count)) return;
    for (int o = 0; o < count; ++o) {
        Node* const g = grids[o];
        hx_assert(g->get("GridType") == "Uniform", "entries are meshes");
        std::vector<Node*> const tm = g->all("Time"), tp = g->all("Topology"), ge = g->all("Geometry"), at = g->all("Attribute");
        hx_assert(tm.size() == 1 && tp.size() == 1 && ge.size() == 1, "one time, one topology, one geometry");
        if (tm.size() != 1 || tp.size() != 1 || ge.size() != 1) return;
        hx_assert_eq(value(tm[0]->get("Value")), times[o], "the time of an entry");
        hx_assert(tp[0]->get("TopologyType") == "3DRectMesh" && numbers(tp[0]->get("Dimensions")) == std::vector<long>({w.n[2] + 1, w.n[1] + 1, w.n[0] + 1}), "the topology has the nodes of the mesh");
        hx_assert(ge[0]->get("GeometryType") == "VXVYVZ" && ge[0]->sub.size() == 3, "three axes");
        if (ge[0]->sub.size() != 3) return;
        std::string file0, file;
        for (int d = 0; d < 3; ++d) {
            hx_assert(item(*ge[0]->sub[d], file) == "x" + std::to_string(d) + "_ng", "axes in order");
            if (d == 0) file0 = file;
            hx_assert(file == file0, "an entry uses one file");
        }
        HxH5File* f = hx_h5().find("out/" + file0);
        if (!f) return;
        HxH5Dset* const ct = f->find("current_time");
        hx_assert(ct != nullptr, "time in the file");
        if (ct) hx_assert_eq(ct->d[0], times[o], "the file of an entry is the file of its time");
        std::size_t fields = 0;
        for (HxH5Dset* d : f->dsets) {
            if (d->dims.size() != 3) continue;
            ++fields;
            int seen = 0;
            for (Node* a : at) seen += a->get("Name") == d->name;
            hx_assert(seen == 1, "every field of the file is described once");
        }
        hx_assert(at.size() == fields, "only the fields of the file are described");
        for (Node* a : at) {
            hx_assert(a->get("Center") == "Cell" && a->get("AttributeType") == "Scalar" && a->sub.size() == 1, "fields are scalars at the centre of cells");
            if (a->sub.size() != 1) return;
            hx_assert(item(*a->sub[0], file) == a->get("Name"), "a field points to its own dataset");
            hx_assert(file == file0, "an entry uses one file");
        }
    }
    hx_reach("end");
}
}
