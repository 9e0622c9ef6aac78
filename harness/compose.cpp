// Whole steps of the program against formulas of their own, on one process and on several; restarts
#include <app/app.hpp>

static double const gam = 1.5;
static std::string params(int n0, int P, std::string const& bc, std::string const& more)
{
    std::string s = "[Grid]\nNx0_glob = " + std::to_string(n0) + "\nNx1_glob = 1\nNx2_glob = 1\nNghost = 2\ntype = UserDefined\n";
    s += "[Parallelization]\nmpi_dims_cart_x0 = " + std::to_string(P) + "\nmpi_dims_cart_x1 = 1\nmpi_dims_cart_x2 = 1\n";
    s += "[Output]\ndirectory = out\nprefix = run\n[Perfect Gas]\ngamma = 1.5\n[User step]\nuser_step = UserDefined\n[Boundary Condition]\n" + bc;
    return s + more;
}
static void unit_mesh()
{
    hx_app().mesh = [](std::array<int, 3>, std::array<int, 3>, KVH_double_1d const& x0, KVH_double_1d const& x1, KVH_double_1d const& x2) {
        for (auto const* x : {&x0, &x1, &x2})
            for (std::size_t i = 0; i < x->size(); ++i) (*x)(i) = static_cast<double>(i);
    };
}
// the report after the last step does not need to be followed both ways
static void run(std::string const& text, int P, int steps, int* now = nullptr, int base = 0)
{
    hx_pdi() = HxPdi {};
    int rc[4] = {}, calls = 0;
    hx_clock = [&]() -> long {
        hx_forkreal(++calls <= steps + 1);
        return 0;
    };
    if (P == 1) {
        hx_mpi().reset(1, 0);
        hx_mpi().initialized = hx_mpi().finalized = 0;
        rc[0] = app(text);
    }
    else hx_mpi_run(P, [&](int rank) {
        calls = 0;
        hx_forkreal(1);
        if (now) now[rank] = base; // a process can be run more than once
        rc[rank] = app(text);
    });
    hx_clock = nullptr;
    hx_forkreal(1);
    for (int r = 0; r < P; ++r) hx_assert(rc[r] == 0, "the run ends normally");
}
static double at(HxH5File* f, char const* name, std::size_t i)
{
    HxH5Dset const* d = f->find(name);
    if (!d || i >= d->d.size()) { hx_fail("a field is missing in the file"); return 0; }
    return d->d[i];
}
struct S { double rho, m, E; };
static double pres(S const& s) { return (gam - 1) * (s.E - s.m * s.m / s.rho / 2); }
static S cons(double rho, double u, double P) { return {rho, rho * u, P / (gam - 1) + rho * u * u / 2}; }
static S flux(S const& s) { return {s.m, s.m * s.m / s.rho + pres(s), (s.E + pres(s)) * s.m / s.rho}; }
extern "C" {
// one step of a fast flow to the right: inflow from a user condition, null gradient at the outflow
void step_flow()
{
    int const P = hx_choice("processes", 1, 2), n = 2 * P;
    double rho[4], u[4], c[4], inr[2], inu[2], inc[2], q[4];
    double const c0 = hx_real_in("c", 0.5, 1);
    double v = hx_real_in("u in", 3, 4); // the flow gets faster downstream: which signal is the fastest is then known
    for (int i = 0; i < 2; ++i) {
        inr[i] = hx_real_in(idx("rho in", i).c_str(), 0.5, 2);
        inu[i] = v;
        inc[i] = c0;
    }
    for (int i = 0; i < n; ++i) {
        rho[i] = (i ? rho[i - 1] : 0.5) + hx_real_inx(idx("rise of rho", i).c_str(), 0, 2);
        v = v + hx_real_inx(idx("acceleration", i).c_str(), 0, 1);
        u[i] = v;
        c[i] = c0;
        q[i] = hx_real_in(idx("heating", i).c_str(), 0, 1);
    }
    double const g = hx_real_in("g", 0, 1), dt = hx_real_inx("dt", 0, 1. / 32), t0 = hx_nonneg("t_ini");
    unit_mesh();
    hx_app().init = [&](Range const& r, Grid const& gr, KV_double_3d const& ro, KV_double_4d const& v, KV_double_3d const& p, KV_double_4d const&) {
        int const l0 = cell_range(r)[0][0], l1 = cell_range(r)[1][0];
        for (int l = l0; l < l1; ++l) {
            int const I = l - l0 + gr.range.Corner_min[0];
            ro(l, 0, 0) = rho[I];
            v(l, 0, 0, 0) = u[I];
            p(l, 0, 0) = rho[I] * c[I] * c[I] / gam;
        }
    };
    hx_app().boundary = [&](int d, int f, Grid const&, KV_double_3d const& ro, KV_double_4d const& m, KV_double_3d const& E, KV_double_4d const&) {
        hx_assert(d == 0 && f == 0, "the condition of the left face");
        for (int i = 0; i < 2; ++i) {
            S const s = cons(inr[i], inu[i], inr[i] * inc[i] * inc[i] / gam);
            ro(i, 0, 0) = s.rho;
            m(i, 0, 0, 0) = s.m;
            E(i, 0, 0) = s.E;
        }
    };
    int steps[2] = {0, 0}; // of the last time the process was run
    hx_app().step = [&](Range const& r, double t, double h, KV_double_3d const& ro, KV_double_3d const& E, KV_double_4d const&) {
        steps[hx_mpi().rank] = 1;
        hx_assert_eq(t, t0, "the user step gets the time before the step");
        hx_assert_eq(h, dt, "the user step gets the time step");
        int const l0 = cell_range(r)[0][0], l1 = cell_range(r)[1][0];
        for (int l = l0; l < l1; ++l) {
            E(l, 0, 0) = E(l, 0, 0) + q[l - l0 + 2 * hx_mpi().rank] * ro(l, 0, 0);
        }
    };
    bool const fix = hx_choice("pressure fix", 0, 1) == 1;
    std::string more = "BC_X0_left = UserDefined\nBC_X0_right = NullGradient\n[Run]\ncfl = 0.5\nt_ini = " + num(t0) + "\nt_end = " + num(t0 + dt) + "\n[Hydro]\nreconstruction = Constant\nriemann_solver = HLL\n[Gravity]\ngx0 = " + num(g) + "\n";
    more += std::string("[Pressure fix]\npressure_fix = ") + (fix ? "On\neps_pf = 1e-9\n" : "Off\n");
    run(params(n, P, "", more), P, 1);
    hx_assert(hx_h5().files.size() == 1, "one output at the end");
    // the state at the end
    S p[5]; // predicted states at the left of the faces
    S U[4];
    for (int i = -1; i < n; ++i) {
        S s = i < 0 ? cons(inr[1], inu[1], inr[1] * inc[1] * inc[1] / gam) : cons(rho[i], u[i], rho[i] * c[i] * c[i] / gam);
        if (i >= 0) U[i] = s;
        double const m = s.m;
        s.m = m + dt / 2 * s.rho * g;
        s.E = s.E + dt / 2 * m * g;
        p[i + 1] = s;
    }
    for (int i = 0; i < n; ++i) {
        S const a = flux(p[i]), b = flux(p[i + 1]);
        double const r = U[i].rho + dt * (a.rho - b.rho);
        double const m = U[i].m + dt * (a.m - b.m) + dt * g * U[i].rho;
        double const E = U[i].E + dt * (a.E - b.E) + dt * g * U[i].m + q[i] * r;
        HxH5File* f = hx_h5().files[0];
        std::size_t const k = static_cast<std::size_t>(i);
        hx_assert_eq(at(f, "rho", k), r, "density after a step");
        hx_assert_eq(at(f, "ux0", k), m / r, "velocity after a step");
        hx_assert_eq(at(f, "E", k), E, "energy after a step");
        hx_assert_eq(at(f, "P", k), (gam - 1) * (E - m * m / r / 2), "pressure after a step");
    }
    hx_assert(steps[0] == 1 && (P == 1 || steps[1] == 1), "the user step is made");
    hx_reach("end");
}
static std::string with(std::string s, std::string const& where, std::string const& what)
{
    return s.replace(s.find(where), 0, what);
}
// Passive scalars carried by a uniform flow, two steps; the mesh follows the flow until it reaches a largest radius
// stop: the run is stopped after its first step and continued from the last file
static void scalars(int P, bool left, int shift, int far, bool stop = false)
{
    int const n = 2 * P, n_steps = 2;
    double fx[8], L[3][2], R[3][2], add[2][4];
    for (int i = 0; i < n; ++i) fx[i + 2] = hx_real_in(idx("fx", i).c_str(), 0, 1);
    for (int k = 0; k <= n_steps; ++k)
        for (int i = 0; i < 2; ++i) {
            L[k][i] = hx_real_in(idx(idx("left", k), i).c_str(), 0, 1);
            R[k][i] = hx_real_in(idx(idx("right", k), i).c_str(), 0, 1);
        }
    for (int k = 0; k < n_steps; ++k)
        for (int i = 0; i < n; ++i) add[k][i] = hx_real_in(idx(idx("source", k), i).c_str(), 0, 1);
    double const x_max = hx_real(("rmax"));
    unit_mesh();
    int now[2] = {0, 0};
    bool const flow_left = left;
    double const u = flow_left ? -1 : 1, E = 12.5;
    hx_app().init = [&](Range const& r, Grid const& gr, KV_double_3d const& ro, KV_double_4d const& v, KV_double_3d const& p, KV_double_4d const& f) {
        now[hx_mpi().rank] = 0;
        int const l0 = cell_range(r)[0][0], l1 = cell_range(r)[1][0];
        for (int l = l0; l < l1; ++l) {
            ro(l, 0, 0) = 1;
            v(l, 0, 0, 0) = u;
            p(l, 0, 0) = 6;
            f(l, 0, 0, 0) = fx[2 + l - l0 + gr.range.Corner_min[0]];
        }
    };
    hx_app().boundary = [&](int d, int f, Grid const& gr, KV_double_3d const& ro, KV_double_4d const& m, KV_double_3d const& e, KV_double_4d const& q) {
        int const k = now[hx_mpi().rank];
        hx_assert(d == 0, "a condition of the first direction");
        for (int i = 0; i < 2; ++i) {
            int const l = f == 0 ? i : gr.Nx_local_ng[0] + 2 + i;
            ro(l, 0, 0) = 1;
            m(l, 0, 0, 0) = u;
            e(l, 0, 0) = E;
            q(l, 0, 0, 0) = (f == 0 ? L : R)[k][i];
        }
    };
    hx_app().step = [&](Range const& r, double, double, KV_double_3d const&, KV_double_3d const&, KV_double_4d const& f) {
        int const k = now[hx_mpi().rank]++;
        int const l0 = cell_range(r)[0][0], l1 = cell_range(r)[1][0];
        for (int l = l0; l < l1; ++l) f(l, 0, 0, 0) = (f(l, 0, 0, 0) + add[k][l - l0 + 2 * hx_mpi().rank]) / 2;
    };
    int asked[2] = {0, 0}; // the step in which the criterion was last evaluated
    hx_app().shift = [&](Range const&, Grid const&, KV_cdouble_3d const&) {
        int const k = now[hx_mpi().rank];
        asked[hx_mpi().rank] = k;
        return ((shift >> (k - 1)) & 1) != 0;
    };
    // how far the mesh can move: not at all, once, as often as wanted
    double const edge = n + 2 + 1; // the outer border after one more move
    if (far == 0) hx_assume(x_max <= edge);
    else if (far == 1) { hx_assume(x_max > edge); hx_assume(x_max <= edge + 1); }
    else hx_assume(x_max > edge + 1);
    std::string more = "BC_X0_left = UserDefined\nBC_X0_right = UserDefined\n[Run]\ncfl = 0.5\nt_end = 0.25\n[Hydro]\nreconstruction = Constant\nriemann_solver = HLL\n[Passive Scalar]\nnfx = 1\n";
    std::string s = params(n, P, "", more);
    s.replace(s.find("type ="), 0, "shift_grid = UserDefined\n");
    s.replace(s.find("prefix"), 0, "iter_frequency = 1\n");
    s += "[Problem]\nrmax_shift = " + num(x_max) + "\n";
    int base = 0; // steps made before
    if (stop) {
        run(with(s, "prefix", "max_iter = 1\n"), P, 1);
        base = 1;
        std::string const last = hx_h5().files.back()->name;
        s = with(with(s, "run\n", "again_"), "rmax_shift", "restart = true\nrestart_file = " + last + "\n");
    }
    now[0] = base;
    run(s, P, n_steps - base, now, base);
    hx_assert(hx_h5().files.size() == 3, "outputs at the start and after each step");
    // the same with arrays of the whole mesh
    bool moving = true;
    double x0 = 2;
    for (int k = 0; k <= n_steps; ++k) {
        if (k > 0) {
            double g[8];
            for (int i = 2; i < n + 2; ++i) g[i] = ((flow_left ? fx[i] + (fx[i + 1] - fx[i]) / 8 : fx[i] - (fx[i] - fx[i - 1]) / 8) + add[k - 1][i - 2]) / 2;
            for (int i = 2; i < n + 2; ++i) fx[i] = g[i];
        }
        auto const ghosts = [&]() {
            for (int i = 0; i < 2; ++i) {
                fx[i] = L[k][i];
                fx[n + 2 + i] = moving ? R[k][i] : fx[n + 1];
            }
        };
        ghosts();
        if (k > 0 && moving && ((shift >> (k - 1)) & 1)) {
            if (n + x0 + 1 >= x_max) moving = false;
            else {
                for (int i = 0; i < n + 3; ++i) fx[i] = fx[i + 1];
                x0 = x0 + 1;
            }
            ghosts();
        }
        HxH5File* f = hx_h5().files[static_cast<std::size_t>(k)];
        for (int i = 0; i < n; ++i) {
            hx_assert_eq(at(f, "fx0", static_cast<std::size_t>(i)), fx[i + 2], "passive scalars of a flow, with a mesh that moves");
            hx_assert_eq(at(f, "rho", static_cast<std::size_t>(i)), 1, "a uniform flow stays uniform");
            hx_assert_eq(at(f, "ux0", static_cast<std::size_t>(i)), u, "a uniform flow stays uniform");
            hx_assert_eq(at(f, "P", static_cast<std::size_t>(i)), 6, "a uniform flow stays uniform");
        }
        for (int i = 0; i <= n; ++i) hx_assert_eq(at(f, "x0_ng", static_cast<std::size_t>(i)), x0 + i, "the nodes of a mesh that moves");
    }
    hx_reach("end");
}
void scalars_one()
{
    bool const left = hx_choice("flow to the left", 0, 1) == 1;
    int const shift = hx_choice("steps after which the mesh should move", 0, 3);
    scalars(1, left, shift, shift ? hx_choice("how far the mesh can move", 0, 2) : 2);
}
// after a move or none, or without end of the moves
void scalars_stopped()
{
    int const P = hx_choice("processes", 1, 2);
    bool const left = hx_choice("flow to the left", 0, 1) == 1;
    int const shift = hx_choice("steps after which the mesh should move", 0, 3);
    scalars(P, left, shift, shift ? hx_choice("how far the mesh can move", (shift & 1) ? 1 : 0, 2) : 2, true);
}
// the mesh has reached its largest radius before the run is stopped
void scalars_stopped_at_the_end() { scalars(1, true, 1, 0, true); }
void scalars_two()
{
    bool const left = hx_choice("flow to the left", 0, 1) == 1;
    int const shift = hx_choice("steps after which the mesh should move", 0, 3);
    scalars(2, left, shift, shift ? hx_choice("how far the mesh can move", 0, 2) : 2);
}

// A run stopped after k steps and continued from its last file writes what a run that is not stopped writes
struct Field { std::string name; std::vector<double> d; std::vector<int> i; };
static std::vector<Field> fields(HxH5File* f)
{
    std::vector<Field> r;
    for (HxH5Dset const* d : f->dsets) r.push_back({d->name, d->d, d->i});
    return r;
}
static void compare(std::vector<std::vector<Field>> const& a, std::size_t first, std::size_t b0)
{
    hx_assert(hx_h5().files.size() - b0 == a.size() - first, "a continued run writes the remaining outputs");
    for (std::size_t k = first; k < a.size(); ++k) {
        if (b0 + k - first >= hx_h5().files.size()) return;
        HxH5File* f = hx_h5().files[b0 + k - first];
        hx_assert(f->dsets.size() == a[k].size(), "the same fields");
        for (Field const& x : a[k]) {
            HxH5Dset const* d = f->find(x.name);
            bool const ok = d && d->d.size() == x.d.size() && d->i.size() == x.i.size();
            hx_assert(ok, "a field of the same size");
            if (!ok) continue;
            std::string const label = "continued as if it had not been stopped: " + x.name;
            for (std::size_t i = 0; i < x.d.size(); ++i) hx_assert_eq(d->d[i], x.d[i], label.c_str());
            for (std::size_t i = 0; i < x.i.size(); ++i) hx_assert(d->i[i] == x.i[i], label.c_str());
        }
    }
}
// any fast state, gravity of any kind, two passive scalars; outputs after every step
static void go_on(int P, int Q, bool fix, bool fixed_speeds = false)
{
    int const n = 2 * std::max(P, Q);
    double rho[4], u[4], p[4], f[4][2], inr[2], inu[2], inp[2];
    double v = fixed_speeds ? 3.5 : hx_real_in("u in", 3, 4);
    for (int i = 0; i < 2; ++i) {
        inr[i] = hx_real_in(idx("rho in", i).c_str(), 0.25, 0.5);
        inu[i] = v;
        inp[i] = inr[i];
    }
    for (int i = 0; i < n; ++i) {
        rho[i] = (i ? rho[i - 1] : 0.5) + hx_real_inx(idx("rise of rho", i).c_str(), 0, 2);
        v = v + (fixed_speeds ? 1.25 : hx_real_inx(idx("acceleration", i).c_str(), 1, 2));
        u[i] = v;
        p[i] = rho[i];
        for (int k = 0; k < 2; ++k) f[i][k] = hx_real_in(idx(idx("fx", i), k).c_str(), 0, 1);
    }
    double const dt = fixed_speeds ? 1. / 128 : hx_real_inx("dt", 0, 1. / 64), t0 = hx_nonneg("t_ini");
    unit_mesh();
    hx_app().init = [&](Range const& r, Grid const& gr, KV_double_3d const& ro, KV_double_4d const& w, KV_double_3d const& q, KV_double_4d const& fx) {
        int const l0 = cell_range(r)[0][0], l1 = cell_range(r)[1][0];
        for (int l = l0; l < l1; ++l) {
            int const I = l - l0 + gr.range.Corner_min[0];
            ro(l, 0, 0) = rho[I];
            w(l, 0, 0, 0) = u[I];
            q(l, 0, 0) = p[I];
            for (int k = 0; k < 2; ++k) fx(l, 0, 0, k) = f[I][k];
        }
    };
    hx_app().boundary = [&](int, int, Grid const&, KV_double_3d const& ro, KV_double_4d const& m, KV_double_3d const& E, KV_double_4d const& fx) {
        for (int i = 0; i < 2; ++i) {
            S const s = cons(inr[i], inu[i], inp[i]);
            ro(i, 0, 0) = s.rho;
            m(i, 0, 0, 0) = s.m;
            E(i, 0, 0) = s.E;
            for (int k = 0; k < 2; ++k) fx(i, 0, 0, k) = k;
        }
    };
    hx_app().step = [](Range const&, double, double, KV_double_3d const&, KV_double_3d const&, KV_double_4d const&) {};
    double const g = fixed_speeds ? 0.5 : hx_real_in("gravity", 0, 1);
    hx_divmode(fixed_speeds ? 1 : 0);
    std::string const more = "BC_X0_left = UserDefined\nBC_X0_right = NullGradient\n[Run]\ncfl = 0.5\nt_ini = " + num(t0) + "\nt_end = " + num(t0 + dt)
                             + "\n[Hydro]\nreconstruction = Constant\nriemann_solver = HLL\n[Passive Scalar]\nnfx = 2\n[Gravity]\ngx0 = " + num(g) + "\nM = " + num(g * 1e6) + "\n[Pressure fix]\npressure_fix = " + (fix ? "On\neps_pf = 1e-9\n" : "Off\n");
    run(with(params(n, P, "", more), "prefix", "iter_frequency = 1\n"), P, 1);
    hx_assert(hx_h5().files.size() == 2, "outputs at the start and after the step");
    std::vector<std::vector<Field>> a;
    for (HxH5File* x : hx_h5().files) a.push_back(fields(x));
    std::string const last = hx_h5().files[0]->name;
    run(with(with(params(n, Q, "", more), "prefix", "iter_frequency = 1\n"), "run\n", "again_") + "[Problem]\nrestart = true\nrestart_file = " + last + "\n", Q, 1);
    compare(a, 1, 2);
    hx_reach("end");
}
void go_on_one() { go_on(1, 1, hx_choice("pressure fix", 0, 1) == 1); }
void go_on_mass() { go_on(1, 1, false, true); }
void go_on_two() { go_on(1, 2, false); }
void go_on_less() { go_on(2, 1, false); }
}
