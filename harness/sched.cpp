// The main time loop: steps, outputs, ends, restarts
#include <app/app.hpp>

static double const gam = 1.5;
static std::vector<double> steps; // largest stable step of the state before step n (cfl 1/2 is applied by the code)
static int now; // the step that is being made
struct Done { double t, dt; };
static std::vector<Done> done;
static double energy(double s) { return 1 / (s * s) / gam / (gam - 1); } // gas at rest with sound speed 1/s
static void hooks()
{
    hx_app().init = [](Range const&, Grid const& g, KV_double_3d const& rho, KV_double_4d const& u, KV_double_3d const& P, KV_double_4d const&) {
        put(rho, 1);
        put(u, 0);
        put(P, energy(steps[0]) * (gam - 1));
    };
    hx_app().mesh = [](std::array<int, 3>, std::array<int, 3>, KVH_double_1d const& x0, KVH_double_1d const& x1, KVH_double_1d const& x2) {
        for (auto const* x : {&x0, &x1, &x2})
            for (std::size_t i = 0; i < x->size(); ++i) (*x)(i) = static_cast<double>(i);
    };
    hx_app().step = [](Range const&, double t, double dt, KV_double_3d const&, KV_double_3d const& E, KV_double_4d const&) {
        done.push_back({t, dt});
        ++now;
        put(E, energy(steps[static_cast<std::size_t>(now)]));
    };
}
struct Run
{
    double t_ini, t_end, freq, first;
    bool by_time, has_first;
    int by_iter, max_iter;
    long job = 20;
    int procs = 1; // one cell, or two on each of several processes
    std::string restart;
};
static std::string params(Run const& r)
{
    std::string s = "[Problem]\n";
    if (!r.restart.empty()) s += "restart = true\nrestart_file = " + r.restart + "\n";
    s += "[Grid]\nNx0_glob = " + std::to_string(2 * r.procs - (r.procs == 1)) + "\nNx1_glob = 1\nNx2_glob = 1\nNghost = 2\ntype = UserDefined\n[Parallelization]\nmpi_dims_cart_x0 = " + std::to_string(r.procs) + "\nmpi_dims_cart_x1 = 1\nmpi_dims_cart_x2 = 1\n";
    s += "[Run]\ncfl = 0.5\nt_ini = " + num(r.t_ini) + "\nt_end = " + num(r.t_end) + "\n";
    s += "[Output]\nmax_iter = " + std::to_string(r.max_iter) + "\ntime_job = " + std::to_string(r.job) + "\n";
    if (r.by_iter) s += "iter_frequency = " + std::to_string(r.by_iter) + "\n";
    if (r.by_time) s += "time_frequency = " + num(r.freq) + "\n";
    if (r.has_first) s += "time_first_output = " + num(r.first) + "\n";
    s += "directory = out\nprefix = run\n[Hydro]\nreconstruction = Constant\nriemann_solver = HLL\n[Perfect Gas]\ngamma = 1.5\n[Boundary Condition]\nBC = NullGradient\n[User step]\nuser_step = UserDefined\n";
    return s;
}
static Run mk_run(int max_iter, int kind)
{
    Run r;
    r.t_ini = hx_nonneg("t_ini");
    r.t_end = r.t_ini + hx_pos("duration");
    r.max_iter = max_iter;
    r.by_time = (kind & 1) != 0; // kind: 0 none, 1 by time, 2 by iteration, 3 both
    r.by_iter = (kind & 2) != 0 ? hx_choice("iter_frequency", 1, 2) : 0;
    r.has_first = r.by_time && hx_choice("time_first_output is given", 0, 1) == 1;
    r.freq = r.by_time ? hx_pos("time_frequency") : 0;
    r.first = r.by_time ? (r.has_first ? r.t_ini + hx_pos("first - t_ini") : r.t_ini + r.freq) : 0;
    return r;
}
static void fresh(int n)
{
    steps.clear();
    for (int i = 0; i <= n; ++i) steps.push_back(hx_pos(idx("step", i).c_str()));
    now = 0;
    done.clear();
}
struct Out { double t; int iter, id; };
static std::vector<Out> outputs()
{
    std::vector<Out> r;
    for (HxH5File* f : hx_h5().files) {
        HxH5Dset *t = f->find("current_time"), *i = f->find("iter"), *o = f->find("output_id");
        if (!t || !i || !o) { hx_fail("an output has its time and counters"); continue; }
        r.push_back({t->d[0], i->i[0], o->i[0]});
    }
    return r;
}
// does t belong to the times of output?
static bool on_time(Run const& r, double t, int n)
{
    bool b = false;
    for (int k = 0; k < n; ++k) b = b | (t == r.first + k * r.freq);
    return b;
}
// the steps made from iteration i0, time t0
static void check_steps(Run const& r, double t0, int i0)
{
    double t = t0;
    int const n = static_cast<int>(done.size());
    for (int k = 0; k < n; ++k) {
        double const dt = done[k].dt, stable = steps[i0 + k] / 2;
        hx_assert_eq(done[k].t, t, "time advances by the steps");
        hx_assert(dt > 0, "steps are positive");
        hx_assert_le(dt, stable, "a step is not larger than the stable step");
        double const t1 = t + dt;
        hx_assert_le(t1, r.t_end, "the run does not pass the end time");
        bool cut = t1 == r.t_end;
        if (r.by_time) {
            for (int m = 0; m <= i0 + k + 1; ++m) {
                double const T = r.first + m * r.freq;
                hx_assert(!((t < T) & (T < t1)), "no output time is passed");
            }
            cut = cut | on_time(r, t1, i0 + k + 2);
        }
        hx_assert(cut | (dt == stable), "a step is only reduced to land on an output time or on the end");
        hx_assert(k + 1 == n || t1 < r.t_end, "the run stops at the end time");
        t = t1;
    }
}
static double time_at(double t0, int k)
{
    double t = t0;
    for (int i = 0; i < k; ++i) t = t + done[i].dt;
    return t;
}
// run, then check the steps from iteration i0, time t0, and the outputs
static void go(Run const& r, double t0, int i0, int first_id, int late)
{
    done.clear();
    hooks();
    hx_pdi() = HxPdi {};
    hx_pc() = HxPc {};
    hx_mpi().reset(1, 0);
    hx_mpi().initialized = hx_mpi().finalized = 0;
    std::size_t at = hx_h5().files.size();
    int calls = 0;
    hx_clock = [&]() -> long {
        int const c = calls++; // 0: before the loop, k: in step k
        return late && c >= late ? 20 : 19 * (c > 0);
    };
    int const rc = app(params(r));
    hx_assert(rc == 0, "the run ends normally");
    check_steps(r, t0, i0);
    int const n = static_cast<int>(done.size());
    hx_assert(n >= 1 && i0 + n <= r.max_iter, "not more than max_iter steps");
    double const t = time_at(t0, n);
    if (i0 + n < r.max_iter && n != late) hx_assert_eq(t, r.t_end, "a run ends at the end time, at max_iter, or when the job is over");
    if (late) hx_assert(n <= late, "the run stops when the job is over");
    // outputs
    std::vector<Out> const o = outputs();
    int id = first_id;
    for (int k = 0; k <= n; ++k) {
        double const tk = time_at(t0, k);
        bool want;
        if (k == 0) want = r.restart.empty() && (r.by_time || r.by_iter > 0);
        else {
            want = (k == n) || (r.by_iter > 0 && (i0 + k) % r.by_iter == 0);
            if (r.by_time) want = want | on_time(r, tk, i0 + k + 1);
        }
        bool const have = at < o.size() && o[at].iter == i0 + k;
        hx_assert(have == want, "outputs at the start, at output times, every iter_frequency steps, at the end, and at no other time");
        if (have) {
            hx_assert_eq(o[at].t, tk, "the time of an output is the time of its state");
            hx_assert(o[at].id == id, "outputs are numbered in order");
            ++at;
            ++id;
        }
    }
    hx_assert(at == o.size(), "no other output");
    hx_assert(hx_pdi().init == 1 && hx_pdi().final == 1 && hx_pc().parsed == 1 && hx_pc().destroyed == 1, "PDI is initialised and finalised once");
    hx_assert(hx_mpi().initialized == 1 && hx_mpi().finalized == 1, "MPI is initialised and finalised once");
}
// late: the time of the job is over in step late (0: never)
static void schedule(int kind, int max_iter, int late)
{
    Run const r = mk_run(max_iter, kind);
    fresh(max_iter);
    go(r, r.t_ini, 0, 0, late);
    hx_reach("end");
}
// A run that is continued from its last output; it was stopped by max_iter, by an end time, or by the time of the job
static void resume(int kind, int n1, int n2, int stop)
{
    Run r = mk_run(stop == 0 ? n1 : n1 + n2, kind);
    fresh(n1 + 2 * n2);
    go(r, r.t_ini, 0, 0, stop == 2 ? n1 : 0);
    int const n = static_cast<int>(done.size());
    double const t = time_at(r.t_ini, n);
    Out const last = outputs().back();
    r.restart = hx_h5().files.back()->name;
    r.max_iter = n + n2;
    if (stop == 1 || t == r.t_end) r.t_end = t + hx_pos("additional duration");
    go(r, t, n, last.id + 1, 0);
    hx_reach("end");
}
extern "C" {
void no_outputs() { schedule(0, hx_choice("max_iter", 1, 3), 0); }
void time_outputs() { schedule(1, hx_choice("max_iter", 1, 2), 0); }
void time_outputs3() { schedule(1, 3, 0); }
void iter_outputs() { schedule(2, hx_choice("max_iter", 1, 3), 0); }
void both_outputs() { schedule(3, hx_choice("max_iter", 1, 2), 0); }
void both_outputs3() { schedule(3, 3, 0); }
void job_time()
{
    int const max_iter = hx_choice("max_iter", 1, 2);
    schedule(hx_choice("outputs", 0, 3), max_iter, hx_choice("the time of the job is over", 1, max_iter));
}
void resume_iter() { resume(hx_choice("outputs", 0, 3), 1, 1, 0); }
void resume_end_none() { resume(0, 1, 1, 1); }
void resume_end_time() { resume(1, 1, 1, 1); }
void resume_end_iter() { resume(2, 1, 1, 1); }
void resume_end_both() { resume(3, 1, 1, 1); }
void resume_job() { resume(hx_choice("outputs", 0, 3), 1, 1, 2); }

// The clocks of the processes differ (it is over in another step, or never, for the second one): they stop together
void job_time_two()
{
    Run r;
    r.t_ini = 0;
    r.t_end = 1000;
    r.by_time = r.has_first = false;
    r.by_iter = hx_choice("iter_frequency", 0, 1);
    r.max_iter = 2;
    r.procs = 2;
    steps.assign(4, 1);
    hooks();
    int const late[2] = {hx_choice("over for process 0 in step", 1, 3), hx_choice("over for process 1 in step", 1, 3)};
    int made[2] = {}, calls[2] = {}, rc[2] = {};
    hx_app().step = [&](Range const&, double, double, KV_double_3d const&, KV_double_3d const&, KV_double_4d const&) { ++made[hx_mpi().rank]; };
    hx_clock = [&]() -> long { return calls[hx_mpi().rank]++ >= late[hx_mpi().rank] ? 20 : 0; };
    hx_mpi_run(2, [&](int rank) {
        made[rank] = calls[rank] = 0; // a process can be run more than once
        rc[rank] = app(params(r));
    });
    hx_clock = nullptr;
    hx_assert(rc[0] == 0 && rc[1] == 0, "the run ends normally");
    hx_assert(made[0] == made[1], "the processes make the same steps");
    int const first = late[0] < late[1] ? late[0] : late[1], last = late[0] < late[1] ? late[1] : late[0];
    hx_assert(made[0] >= (first < 3 ? first : 2) && made[0] <= (last < 3 ? last : 2), "the run stops when the job is over");
    std::vector<Out> const o = outputs();
    hx_assert(!o.empty() && o.back().iter == made[0], "an output at the end");
    hx_reach("end");
}
// an invalid energy of one process ends the run of all
void invalid_energy_two()
{
    Run r;
    r.t_ini = 0;
    r.t_end = 1000;
    r.by_time = r.has_first = false;
    r.by_iter = 0;
    r.max_iter = 3;
    r.procs = 2;
    int const when = hx_choice("step that spoils the energy", 0, 2), who = hx_choice("process that spoils the energy", 0, 1);
    double const value = hx_choice("not a number", 0, 1) == 1 ? hx_nan() : -hx_pos("-energy");
    hx_divmode(2);
    steps.assign(4, 1);
    hooks();
    int made[2] = {}, rc[2] = {};
    hx_app().init = [&](Range const&, Grid const&, KV_double_3d const& rho, KV_double_4d const& u, KV_double_3d const& P, KV_double_4d const&) {
        put(rho, 1);
        put(u, 0);
        put(P, 1);
        if (when == 0 && hx_mpi().rank == who) P(2, 0, 0) = value;
    };
    hx_app().step = [&](Range const&, double, double, KV_double_3d const&, KV_double_3d const& E, KV_double_4d const&) {
        if (++made[hx_mpi().rank] == when && hx_mpi().rank == who) E(2, 0, 0) = value;
    };
    hx_clock = nullptr;
    hx_mpi_run(2, [&](int rank) {
        made[rank] = 0;
        rc[rank] = app(params(r));
    });
    hx_assert(rc[0] != 0 && rc[1] != 0, "an invalid internal energy makes the run fail on all processes");
    hx_assert(made[0] == when && made[1] == when, "no step is made from an invalid state");
    std::vector<Out> const o = outputs();
    hx_assert(!o.empty() && o.back().iter == when && o.back().id == static_cast<int>(o.size()) - 1, "an invalid state is written under a number of its own");
    hx_reach("end");
}
// an impossible internal energy: the state is written and the run fails
void invalid_energy()
{
    Run r;
    r.t_ini = 0;
    r.t_end = 1000;
    int const kind = hx_choice("outputs", 0, 3);
    r.by_time = (kind & 1) != 0;
    r.by_iter = (kind & 2) != 0 ? 2 : 0;
    r.has_first = false;
    r.first = r.freq = 500;
    r.max_iter = 3;
    int const when = hx_choice("step that spoils the energy", 0, 2); // 0: the initial state
    bool const nan = hx_choice("not a number", 0, 1) == 1;
    double const value = nan ? hx_nan() : -hx_pos("-energy");
    hx_divmode(2);
    steps.assign(4, 1);
    now = 0;
    hooks();
    auto const bad = [&]() { return value; };
    hx_app().init = [&](Range const&, Grid const&, KV_double_3d const& rho, KV_double_4d const& u, KV_double_3d const& P, KV_double_4d const&) {
        put(rho, 1);
        put(u, 0);
        put(P, when == 0 ? bad() : 1);
    };
    hx_app().step = [&](Range const&, double t, double dt, KV_double_3d const&, KV_double_3d const& E, KV_double_4d const&) {
        done.push_back({t, dt});
        ++now;
        put(E, now == when ? bad() : 1);
    };
    hx_clock = nullptr;
    int const rc = app(params(r));
    hx_assert(rc != 0, "an invalid internal energy makes the run fail");
    hx_assert(static_cast<int>(done.size()) == when, "no step is made from an invalid state");
    std::vector<Out> const o = outputs();
    bool const ok = !o.empty() && o.back().iter == when && o.back().id == static_cast<int>(o.size()) - 1;
    hx_assert(ok, "an invalid state is written under a number of its own");
    if (ok) {
        HxH5Dset const* e = hx_h5().files.back()->find("E");
        hx_assert(e && e->d.size() == 1 && (nan ? e->d[0] != e->d[0] : e->d[0] < 0), "the file shows the invalid energy");
        HxH5Dset const *p = hx_h5().files.back()->find("P"), *T = hx_h5().files.back()->find("T");
        hx_assert(p && T && p->d.size() == 1 && T->d.size() == 1, "pressure and temperature are written");
        if (p && T) {
            bool const pn = p->d[0] != p->d[0];
            hx_assert(pn == nan && (pn ? T->d[0] != T->d[0] : T->d[0] < 0), "pressure and temperature are those of the invalid state");
            if (!pn) hx_assert_eq(T->d[0], thermodynamics::PerfectGas(gam, 1).compute_temp_from_pres(1, p->d[0]), "the temperature is that of the pressure");
        }
    }
    hx_assert(hx_mpi().initialized == 1 && hx_mpi().finalized == 1, "MPI is initialised and finalised once");
    hx_reach("end");
}
static char const* const dirs[] = {"_X0", "_X1", "_X2"};
static char const* const sides[] = {"_left", "_right"};
static std::string one_step(char const* grid, char const* rec, char const* rs, char const* step, std::string const& bc)
{
    std::string s = "[Grid]\nNx0_glob = 1\nNx1_glob = 1\nNx2_glob = 1\nNghost = 2\ntype = ";
    s += grid;
    s += "\n[Run]\ncfl = 0.5\nt_end = 100\n[Output]\nmax_iter = 1\ndirectory = out\nprefix = run\n[Perfect Gas]\ngamma = 1.5\n[Hydro]\nreconstruction = ";
    return s + rec + "\nriemann_solver = " + rs + "\n[User step]\nuser_step = " + step + "\n[Boundary Condition]\n" + bc;
}
static void at_rest()
{
    hooks();
    hx_app().init = [](Range const&, Grid const&, KV_double_3d const& rho, KV_double_4d const& u, KV_double_3d const& P, KV_double_4d const&) {
        put(rho, 1);
        put(u, 0);
        put(P, 1);
    };
    steps.assign(2, 1);
    now = 0;
    done.clear();
    hx_clock = nullptr;
}
// a configuration that means nothing is refused before anything is computed
void refused()
{
    at_rest();
    int const what = hx_choice("what is wrong", 0, 7);
    static char const* const bad[] = {"Uniform", "Constan", "HLLX", "Heating"};
    std::string bc = "BC = Reflexive\n";
    if (what == 4) bc = "";
    if (what == 5) bc = "BC = Reflective\n";
    if (what == 6) { // one face is not defined or has an unknown condition
        int const f = hx_choice("face", 0, 2 * ndim - 1);
        int const how = hx_choice("the condition of the face is", 0, 2); // missing, misspelt, misspelt for the direction
        bc = "";
        for (int g = 0; g < 2 * ndim; ++g) {
            std::string const key = std::string("BC") + dirs[g / 2] + sides[g % 2];
            if (g != f) bc += key + " = Periodic\n";
            else if (how == 1) bc += key + " = periodic\n";
        }
        if (how == 2) bc += std::string("BC") + dirs[f / 2] + " = NullGradien\n";
    }
    int const rc = app(one_step(what == 0 ? bad[0] : "UserDefined", what == 1 ? bad[1] : "Constant", what == 2 ? bad[2] : "HLL", what == 3 ? bad[3] : "UserDefined", bc));
    if (what == 7) hx_assert(rc == 0 && hx_h5().files.size() == 1 && done.size() == 1, "a good configuration runs");
    else {
        hx_assert(rc != 0, "unknown names and missing boundary conditions are refused");
        hx_assert(hx_h5().files.empty() && done.empty(), "a refused run computes and writes nothing");
    }
    hx_assert(hx_mpi().initialized == 1 && hx_mpi().finalized == 1, "MPI is initialised and finalised once");
    hx_reach("end");
}
// the condition of a face is the one given for the face, else for its direction, else for all
void chosen_conditions()
{
    at_rest();
    std::string bc;
    bool want[6];
    int const all = hx_choice("BC", 0, 1); // null gradient, user defined
    bc += all ? "BC = UserDefined\n" : "BC = NullGradient\n";
    int const d0 = ndim == 1 ? 0 : hx_choice("direction", 0, ndim - 1);
    for (int d = 0; d < ndim; ++d) {
        int const dir = d == d0 ? hx_choice("BC of the direction", 0, 2) : 0; // not given, null gradient, user defined
        if (dir) bc += std::string("BC") + dirs[d] + (dir == 2 ? " = UserDefined\n" : " = NullGradient\n");
        for (int f = 0; f < 2; ++f) {
            int const face = d == d0 ? hx_choice(f ? "BC of the right face" : "BC of the left face", 0, 2) : 0;
            if (face) bc += std::string("BC") + dirs[d] + sides[f] + (face == 2 ? " = UserDefined\n" : " = NullGradient\n");
            want[2 * d + f] = face ? face == 2 : dir ? dir == 2 : all == 1;
        }
    }
    int calls[6] = {};
    hx_app().boundary = [&](int d, int f, Grid const&, KV_double_3d const& rho, KV_double_4d const& rhou, KV_double_3d const& E, KV_double_4d const&) {
        calls[2 * d + f]++;
        put(rho, 1);
        put(rhou, 0);
        put(E, 2);
    };
    int const rc = app(one_step("UserDefined", "Constant", "HLL", "UserDefined", bc));
    hx_assert(rc == 0, "the run ends normally");
    for (int f = 0; f < 2 * ndim; ++f) hx_assert(calls[f] == (want[f] ? 2 : 0), "the condition of a face: of the face, else of the direction, else of all; applied to the initial state and in the step");
    hx_reach("end");
}
// the command line
void command_line()
{
    at_rest();
    std::string const text = one_step("UserDefined", "Constant", "HLL", "UserDefined", "BC = NullGradient\n");
    hx_file("params.ini", text.data(), text.size());
    int const n = hx_choice("arguments", 0, 4);
    char a0[] = "heraclespp", a1[] = "params.ini", a2[] = "--pdi-config=conf.yml", a3[] = "--kokkos-threads=1", a4[] = "missing.ini", a5[] = "-v";
    char* argv[4] = {a0, a1, nullptr, nullptr};
    int argc = 2;
    if (n == 0) { argc = 1; argv[1] = nullptr; }
    if (n == 2) { argc = 3; argv[2] = a2; }
    if (n == 3) { argc = 3; argv[2] = hx_bool("-v") ? a5 : a3; }
    if (n == 4) argv[1] = a4;
    int const rc = ::hx_app_main(argc, argv);
    if (n == 0 || n == 4) {
        hx_assert(rc != 0 && hx_h5().files.empty(), "without a parameter file the run fails");
        hx_assert(hx_mpi().initialized == hx_mpi().finalized, "MPI is finalised if it was initialised");
    } else {
        hx_assert(rc == 0 && hx_h5().files.size() == 1, "the run ends normally");
        PC_tree_t const c = hx_pdi().conf;
        if (n == 2) hx_assert(c.path && !c.text, "--pdi-config names the file PDI is configured with");
        else hx_assert(!c.path && c.text == io_config, "PDI has the built-in configuration");
    }
    hx_reach("end");
}
}
