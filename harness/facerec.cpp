// Reconstruction of cell values at the faces
#include <kit.hpp>
#include <face_reconstruction.cpp>

struct UFLimiter
{
    auto operator()(double r, double l) const noexcept -> double { double const a[2] = {r, l}; return hx_uf("slope", a, 2); }
};
static double at(KV_double_1d const* dx, int d, int const* c) { return dx[d](c[d]); }
// face values of every cell of the range, with an arbitrary limiter and arbitrary cell sizes
extern "C" {
void formula()
{
    int const ngx = hx_choice("ghosts", 0, 1);
    Grid g(cells(2), {0, 0, 0}, 2);
    sym_metric(g);
    KV_double_3d const v = v3(g, "v");
    sym(v, "v");
    KV_double_5d const r = v5(g, "r"), r0 = v5(g, "r0");
    sym(r, "r");
    Kokkos::deep_copy(r0, r);
    LimitedLinearReconstruction<UFLimiter>(UFLimiter()).execute(g.range.with_ghosts(ngx), g, v, r);
    KV_double_1d const dx[3] = {g.dx0, g.dx1, g.dx2};
    UFLimiter const lim;
    for (int k = 0; k < g.Nx_local_wg[2]; ++k)
        for (int j = 0; j < g.Nx_local_wg[1]; ++j)
            for (int i = 0; i < g.Nx_local_wg[0]; ++i) {
                int const c[3] = {i, j, k};
                bool in = true;
                for (int d = 0; d < ndim; ++d) in = in && c[d] >= 2 - ngx && c[d] < g.Nx_local_ng[d] + 2 + ngx;
                for (int d = 0; d < ndim; ++d) {
                    if (!in) {
                        hx_assert_eq(r(i, j, k, 0, d), r0(i, j, k, 0, d), "faces outside the range are left alone");
                        hx_assert_eq(r(i, j, k, 1, d), r0(i, j, k, 1, d), "faces outside the range are left alone");
                        continue;
                    }
                    int m[3] = {i, j, k}, p[3] = {i, j, k};
                    --m[d];
                    ++p[d];
                    double const h = at(dx, d, c), x = v(i, j, k);
                    double const s = lim(2 * (v(p[0], p[1], p[2]) - x) / (h + at(dx, d, p)), 2 * (x - v(m[0], m[1], m[2])) / (h + at(dx, d, m)));
                    hx_assert_eq(r(i, j, k, 0, d), x - s * h / 2, "value at the lower face");
                    hx_assert_eq(r(i, j, k, 1, d), x + s * h / 2, "value at the upper face");
                }
            }
    hx_reach("end");
}
}
// one cell and its neighbours in direction d: data m, x, p
struct Line { double m, x, p, L, R, hm, h, hp; };
static Line run(char const* name, int d, double m, double x, double p, bool uniform)
{
    Grid g(cells(1), {0, 0, 0}, 1);
    sym_metric(g);
    KV_double_1d const dx[3] = {g.dx0, g.dx1, g.dx2};
    if (uniform) dx[d](0) = dx[d](2) = dx[d](1);
    KV_double_3d const v = v3(g, "v");
    sym(v, "v");
    int c[3] = {1, ndim > 1 ? 1 : 0, ndim > 2 ? 1 : 0};
    int a[3] = {c[0], c[1], c[2]}, b[3] = {c[0], c[1], c[2]};
    --a[d];
    ++b[d];
    v(a[0], a[1], a[2]) = m;
    v(c[0], c[1], c[2]) = x;
    v(b[0], b[1], b[2]) = p;
    if (ndim > 1) // other directions: flat
        for (int e = 0; e < ndim; ++e) {
            if (e == d) continue;
            int q[3] = {c[0], c[1], c[2]};
            --q[e];
            v(q[0], q[1], q[2]) = x;
            q[e] += 2;
            v(q[0], q[1], q[2]) = x;
        }
    KV_double_5d const r = v5(g, "r");
    poison(r);
    factory_face_reconstruction(name)->execute(g.range, g, v, r);
    return {m, x, p, r(c[0], c[1], c[2], 0, d), r(c[0], c[1], c[2], 1, d), dx[d](0), dx[d](1), dx[d](2)};
}
static void bounded(char const* name)
{ // uniform spacing: face values stay within the range of the neighbours
    int const d = hx_choice("dir", 0, ndim - 1);
    double const x = hx_real("x"), a = hx_nonneg("a"), b = hx_nonneg("b");
    int const s1 = hx_choice("s1", 0, 1) ? 1 : -1, s2 = hx_choice("s2", 0, 1) ? 1 : -1;
    Line const l = run(name, d, x - s1 * a, x, x + s2 * b, true);
    hx_assert_eq(l.L + l.R, 2 * x, "the face values average to the cell value");
    if (s1 != s2) {
        hx_assert_eq(l.L, x, "flat at an extremum");
        hx_assert_eq(l.R, x, "flat at an extremum");
    } else {
        hx_assert_le(0, s1 * (x - l.L), "the lower face value is on the side of the lower neighbour");
        hx_assert_le(s1 * (x - l.L), a, "the lower face value does not pass the lower neighbour");
        hx_assert_le(0, s1 * (l.R - x), "the upper face value is on the side of the upper neighbour");
        hx_assert_le(s1 * (l.R - x), b, "the upper face value does not pass the upper neighbour");
    }
    hx_reach("end");
}
static void linear(char const* name)
{ // any spacing: a linear profile is reproduced
    int const d = hx_choice("dir", 0, ndim - 1);
    double const x = hx_real("x"), s = (hx_choice("sign", 0, 1) ? 1 : -1) * hx_pos("slope");
    double const hm = hx_pos("hm"), h = hx_pos("h"), hp = hx_pos("hp");
    Grid g(cells(1), {0, 0, 0}, 1);
    sym_metric(g);
    KV_double_1d const dx[3] = {g.dx0, g.dx1, g.dx2};
    dx[d](0) = hm;
    dx[d](1) = h;
    dx[d](2) = hp;
    KV_double_3d const v = v3(g, "v");
    for (int k = 0; k < g.Nx_local_wg[2]; ++k)
        for (int j = 0; j < g.Nx_local_wg[1]; ++j)
            for (int i = 0; i < g.Nx_local_wg[0]; ++i) {
                int const c[3] = {i, j, k};
                v(i, j, k) = c[d] == 0 ? x - s * (hm + h) / 2 : c[d] == 1 ? x : x + s * (h + hp) / 2;
            }
    KV_double_5d const r = v5(g, "r");
    poison(r);
    factory_face_reconstruction(name)->execute(g.range, g, v, r);
    int const c[3] = {1, ndim > 1 ? 1 : 0, ndim > 2 ? 1 : 0};
    hx_assert_eq(r(c[0], c[1], c[2], 0, d), x - s * h / 2, "a linear profile is reproduced at the lower face");
    hx_assert_eq(r(c[0], c[1], c[2], 1, d), x + s * h / 2, "a linear profile is reproduced at the upper face");
    for (int e = 0; e < ndim; ++e)
        if (e != d) {
            hx_assert_eq(r(c[0], c[1], c[2], 0, e), x, "flat in the other directions");
            hx_assert_eq(r(c[0], c[1], c[2], 1, e), x, "flat in the other directions");
        }
    hx_reach("end");
}
extern "C" {
void bounded_vanleer() { bounded("VanLeer"); }
void bounded_minmod() { bounded("Minmod"); }
void bounded_vanalbada() { bounded("VanAlbada"); }
void linear_vanleer() { linear("VanLeer"); }
void linear_minmod() { linear("Minmod"); }
void linear_vanalbada() { linear("VanAlbada"); }
void flat_constant()
{
    int const d = hx_choice("dir", 0, ndim - 1);
    Line const l = run("Constant", d, hx_real("m"), hx_real("x"), hx_real("p"), false);
    hx_assert_eq(l.L, l.x, "the constant reconstruction returns the cell value");
    hx_assert_eq(l.R, l.x, "the constant reconstruction returns the cell value");
    hx_reach("end");
}
// the name selects the limiter; any other name is refused
void factory()
{
    double const x = hx_real("x"), a = hx_pos("a"), t = hx_nonneg("t"), b = a + t;
    struct { char const* n; double s; } const k[3] = {{"VanLeer", 2 * a * b / (a + b)}, {"Minmod", a}, {"VanAlbada", a * b * (a + b) / (a * a + b * b)}};
    int const w = hx_choice("which", 0, 2);
    Line const l = run(k[w].n, 0, x - a, x, x + b, true);
    hx_assert_eq(l.R, x + k[w].s / 2, "the name selects the limiter");
    for (char const* n : {"", "vanleer", "VanLeer ", "Superbee", "Constan"}) {
        bool thrown = false;
        try {
            factory_face_reconstruction(n);
        } catch (std::runtime_error&) {
            thrown = true;
        }
        hx_assert(thrown, "an unknown reconstruction is refused");
    }
    hx_reach("end");
}
}
