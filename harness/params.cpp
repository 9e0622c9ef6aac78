// Param: every parameter comes from its own entry of the parameter file
#include <hx.h>
#include <array>
#include <cstdio>
#include <cstring>
#include <string>
#include <utility>
#include <vector>
#include <param.hpp>
#include "vfs.hpp"
#include <INIReader.cpp>
#include <param.cpp>
#include <int_cast.hpp>
using namespace hclpp;

struct P
{
    enum Kind { TEXT, INT, REAL, BOOL } kind;
    char const *section, *name;
    std::string Param::*s;
    int Param::*i;
    int nx; // >= 0: element of an array
    double Param::*d;
    bool Param::*b;
    char const* sdef;
    double ddef;
};
static P text_(char const* sec, char const* n, std::string Param::*m, char const* def) { P p{}; p.kind = P::TEXT; p.section = sec; p.name = n; p.s = m; p.sdef = def; p.nx = -1; return p; }
static P int_(char const* sec, char const* n, int Param::*m, int def) { P p{}; p.kind = P::INT; p.section = sec; p.name = n; p.i = m; p.ddef = def; p.nx = -1; return p; }
static P real_(char const* sec, char const* n, double Param::*m, double def) { P p{}; p.kind = P::REAL; p.section = sec; p.name = n; p.d = m; p.ddef = def; p.nx = -1; return p; }
static P bool_(char const* sec, char const* n, bool Param::*m) { P p{}; p.kind = P::BOOL; p.section = sec; p.name = n; p.b = m; p.nx = -1; return p; }
static P arr_(char const* sec, char const* n, int which) { P p{}; p.kind = P::INT; p.section = sec; p.name = n; p.nx = which; return p; }

static std::vector<P> table()
{
    return {
        text_("Problem", "type", &Param::problem, "ShockTube"),
        bool_("Problem", "restart", &Param::restart),
        text_("Problem", "restart_file", &Param::restart_file, "None"),
        real_("Problem", "rmax_shift", &Param::rmax_shift, 1E20),
        arr_("Grid", "Nx0_glob", 0),
        arr_("Grid", "Nx1_glob", 1),
        arr_("Grid", "Nx2_glob", 2),
        text_("Grid", "type", &Param::grid_type, "Regular"),
        int_("Grid", "Nghost", &Param::Ng, 2),
        real_("Grid", "x0min", &Param::x0min, 0),
        real_("Grid", "x0max", &Param::x0max, 1),
        real_("Grid", "x1min", &Param::x1min, 0),
        real_("Grid", "x1max", &Param::x1max, 1),
        real_("Grid", "x2min", &Param::x2min, 0),
        real_("Grid", "x2max", &Param::x2max, 1),
        text_("Grid", "shift_grid", &Param::shift_grid, "Off"),
        bool_("Parallelization", "mpi_device_aware", &Param::mpi_device_aware),
        arr_("Parallelization", "mpi_dims_cart_x0", 3),
        arr_("Parallelization", "mpi_dims_cart_x1", 4),
        arr_("Parallelization", "mpi_dims_cart_x2", 5),
        real_("Run", "t_ini", &Param::t_ini, 0),
        real_("Run", "t_end", &Param::t_end, 0.2),
        real_("Run", "cfl", &Param::cfl, 0.4),
        int_("Output", "max_iter", &Param::max_iter, 10000),
        int_("Output", "iter_frequency", &Param::iter_output_frequency, 0),
        real_("Output", "time_frequency", &Param::time_output_frequency, 0),
        real_("Output", "time_first_output", &Param::time_first_output, 0),
        text_("Output", "directory", &Param::directory, "."),
        text_("Output", "prefix", &Param::prefix, "result"),
        int_("Output", "time_job", &Param::time_job, 20),
        text_("Hydro", "reconstruction", &Param::reconstruction_type, "VanLeer"),
        text_("Hydro", "riemann_solver", &Param::riemann_solver, "HLL"),
        real_("Gravity", "gx0", &Param::gx0, 0),
        real_("Gravity", "gx1", &Param::gx1, 0),
        real_("Gravity", "gx2", &Param::gx2, 0),
        real_("Gravity", "M", &Param::M, 1),
        real_("Perfect Gas", "gamma", &Param::gamma, 5. / 3),
        real_("Perfect Gas", "mu", &Param::mu, 1),
        text_("Boundary Condition", "BC", &Param::bc_choice, ""),
        text_("Boundary Condition", "priority", &Param::bc_priority, ""),
        int_("Passive Scalar", "nfx", &Param::nfx, 0),
        text_("User step", "user_step", &Param::user_step, "Off"),
        text_("Pressure fix", "pressure_fix", &Param::pressure_fix, "Off"),
        real_("Pressure fix", "eps_pf", &Param::eps_pf, 0.000001),
    };
}
static int geti(Param const& p, P const& e) { return e.nx < 0 ? p.*e.i : e.nx < 3 ? p.Nx_glob_ng[e.nx] : p.mpi_dims_cart[e.nx - 3]; }

static std::string body;
static Param* make()
{
    hx_file("params.ini", body.data(), body.size());
    INIReader const r("params.ini");
    return new Param(r);
}
struct Given { bool is = false; int a = 0, b = 0; bool yes = false; }; // symbolic digits / letters
static void check(std::vector<P> const& t, std::vector<Given> const& g, Param const& p)
{
    double t_ini = 0, tf = 0;
    for (std::size_t i = 0; i < t.size(); ++i) {
        if (g[i].is && !strcmp(t[i].name, "t_ini")) t_ini = 10. * g[i].a + g[i].b;
        if (g[i].is && !strcmp(t[i].name, "time_frequency")) tf = 10. * g[i].a + g[i].b;
    }
    for (std::size_t i = 0; i < t.size(); ++i) {
        P const& e = t[i];
        Given const& v = g[i];
        std::string const l = std::string(e.section) + "/" + e.name;
        std::string const ok = l + (v.is ? " is the value of the file" : " has its default");
        if (e.kind == P::TEXT) {
            std::string const& s = p.*e.s;
            if (v.is) hx_assert(s.size() == 2 && ((s[0] ^ ('a' + v.a)) | (s[1] ^ ('a' + v.b))) == 0, ok.c_str());
            else hx_assert(s == e.sdef, ok.c_str());
        } else if (e.kind == P::INT) hx_assert(geti(p, e) == (v.is ? 10 * v.a + v.b : static_cast<int>(e.ddef)), ok.c_str());
        else if (e.kind == P::REAL) {
            double def = e.ddef;
            if (!strcmp(e.name, "time_first_output")) def = t_ini + tf; // documented: one period after the start
            hx_assert_eq(p.*e.d, v.is ? 10. * v.a + v.b : def, ok.c_str());
        } else hx_assert(p.*e.b == (v.is ? v.yes : false), ok.c_str());
    }
}
static Given give(P const& e, std::size_t i, bool is)
{
    Given v;
    v.is = is;
    if (!is) return v;
    std::string const l = "p" + std::to_string(i);
    if (e.kind == P::BOOL) v.yes = hx_fork(hx_bool(l.c_str()));
    else {
        v.a = static_cast<int>(hx_int((l + "a").c_str(), 1, 9));
        v.b = static_cast<int>(hx_int((l + "b").c_str(), 0, 9));
    }
    return v;
}
static std::string line(P const& e, Given const& v)
{
    std::string s = std::string(e.name) + " = ";
    if (e.kind == P::BOOL) s += v.yes ? "true" : "false";
    else {
        s += static_cast<char>((e.kind == P::TEXT ? 'a' : '0') + v.a);
        s += static_cast<char>((e.kind == P::TEXT ? 'a' : '0') + v.b);
    }
    return s + "\n";
}
static void run(std::vector<P> const& t, std::vector<Given> const& g)
{
    body.clear();
    std::string sec;
    for (std::size_t i = 0; i < t.size(); ++i) {
        if (!g[i].is) continue;
        if (sec != t[i].section) body += "[" + std::string(t[i].section) + "]\n";
        sec = t[i].section;
        body += line(t[i], g[i]);
    }
    Param* p = make();
    check(t, g, *p);
    // copies have the same values
    Param q(*p);
    check(t, g, q);
    Param const r(std::move(q));
    check(t, g, r);
    hx_reach("end");
}
extern "C" void none()
{
    std::vector<P> const t = table();
    run(t, std::vector<Given>(t.size()));
}
extern "C" void all()
{
    std::vector<P> const t = table();
    std::vector<Given> g;
    for (std::size_t i = 0; i < t.size(); ++i) g.push_back(give(t[i], i, true));
    run(t, g);
}
// one given; one missing
extern "C" void one()
{
    std::vector<P> const t = table();
    int const k = hx_choice("parameter", 0, static_cast<int>(t.size()) - 1);
    std::vector<Given> g(t.size());
    g[k] = give(t[k], k, true);
    run(t, g);
}
extern "C" void all_but_one()
{
    std::vector<P> const t = table();
    int const k = hx_choice("parameter", 0, static_cast<int>(t.size()) - 1);
    std::vector<Given> g(t.size());
    for (std::size_t i = 0; i < t.size(); ++i) g[i] = give(t[i], i, static_cast<int>(i) != k && t[i].kind != P::BOOL);
    run(t, g);
}
// two given: any pair (defaults that depend on other parameters)
extern "C" void two()
{
    std::vector<P> const t = table();
    int const k = hx_choice("parameter", 0, static_cast<int>(t.size()) - 1), m = hx_choice("parameter", 0, static_cast<int>(t.size()) - 1);
    if (m <= k) hx_kill();
    std::vector<Given> g(t.size());
    g[k] = give(t[k], k, true);
    g[m] = give(t[m], m, true);
    run(t, g);
}
// the reader kept in Param answers for the other parameters (boundary conditions, setups)
extern "C" void reader_kept()
{
    body = "[Boundary Condition]\nBC_X = u";
    char const c = static_cast<char>('a' + hx_int("letter", 0, 25));
    body += c;
    body += "\n";
    Param* p = make();
    std::string const v = p->reader.Get("Boundary Condition", "BC_X", "");
    hx_assert(v.size() == 2 && (v[0] ^ 'u') == 0 && (v[1] ^ c) == 0, "entries that Param does not know stay readable");
    hx_reach("end");
}
