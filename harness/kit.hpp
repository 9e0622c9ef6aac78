// Shared by the mesh and hydro harnesses: symbolic fields and grids
#pragma once
#include <hx.h>
#include <mpi.h>
#include <Kokkos_Core.hpp>
#include <string>
#include <kokkos_shortcut.hpp>
#include <geom.hpp>
#include <ndim.hpp>
#include <kronecker.hpp>
#include <range.hpp>
#include <grid.hpp>
#include <concepts.hpp>
#include <euler_equations.hpp>
#include <perfect_gas.hpp>
#include <range.cpp>
#include <geometry.cpp>
#include <geometry_factory.cpp>
#include <grid.cpp>
#include <perfect_gas.cpp>
using namespace hclpp;
using PG = thermodynamics::PerfectGas;

inline std::string idx(std::string const& n, long i) { return n + "[" + std::to_string(i) + "]"; }
// every element of a contiguous view becomes an input
template <class V>
void sym(V const& v, char const* n, double (*mk)(char const*) = hx_real)
{
    for (std::size_t i = 0; i < v.size(); ++i) const_cast<double*>(v.data())[i] = mk(idx(n, static_cast<long>(i)).c_str());
}
template <class V>
void put(V const& v, double x)
{
    for (std::size_t i = 0; i < v.size(); ++i) const_cast<double*>(v.data())[i] = x;
}
// uninitialised memory: reading it before it is written is reported
template <class V>
void poison(V const& v)
{
    for (std::size_t i = 0; i < v.size(); ++i) hx_poison(const_cast<double*>(v.data()) + i);
}
struct Ext { int n[3]; };
inline Ext ext(Grid const& g) { return {{g.Nx_local_wg[0], g.Nx_local_wg[1], g.Nx_local_wg[2]}}; }
inline KV_double_3d v3(Grid const& g, char const* n) { return KV_double_3d(n, g.Nx_local_wg[0], g.Nx_local_wg[1], g.Nx_local_wg[2]); }
inline KV_double_4d v4(Grid const& g, char const* n, int m) { return KV_double_4d(n, g.Nx_local_wg[0], g.Nx_local_wg[1], g.Nx_local_wg[2], m); }
inline KV_double_5d v5(Grid const& g, char const* n) { return KV_double_5d(n, g.Nx_local_wg[0], g.Nx_local_wg[1], g.Nx_local_wg[2], 2, ndim); }
inline KV_double_6d v6(Grid const& g, char const* n, int m) { return KV_double_6d(n, g.Nx_local_wg[0], g.Nx_local_wg[1], g.Nx_local_wg[2], 2, ndim, m); }

// cells per direction of a grid of n[] cells; inactive directions have one
inline std::array<int, 3> cells(int a, int b = 1, int c = 1)
{
    return {a, ndim > 1 ? b : 1, ndim > 2 ? c : 1};
}
// arbitrary positive cell sizes, face areas and volumes; positions consistent with the sizes
inline void sym_metric(Grid const& g)
{
    sym(g.dx0, "dx0", hx_pos);
    sym(g.dx1, "dx1", hx_pos);
    sym(g.dx2, "dx2", hx_pos);
    KV_double_1d const xs[3] = {g.x0, g.x1, g.x2}, ds[3] = {g.dx0, g.dx1, g.dx2}, cs[3] = {g.x0_center, g.x1_center, g.x2_center};
    for (int d = 0; d < 3; ++d) {
        double x = geom == Geometry::Geom_spherical && d < 2 ? hx_pos(idx("xmin", d).c_str()) : hx_real(idx("xmin", d).c_str());
        for (std::size_t i = 0; i < ds[d].size(); ++i) {
            xs[d](i) = x;
            cs[d](i) = x + ds[d](i) / 2;
            x = x + ds[d](i);
        }
        xs[d](ds[d].size()) = x;
    }
    sym(g.ds, "ds", hx_pos);
    sym(g.dv, "dv", hx_pos);
}
struct UFGravity
{ // an arbitrary gravity field
    auto operator()(int i, int j, int k, int d) const noexcept -> double
    {
        double const a[4] = {double(i), double(j), double(k), double(d)};
        return hx_uf("gravity", a, 4);
    }
};
struct NoGravity
{
    auto operator()(int, int, int, int) const noexcept -> double { return 0; }
};
// an arbitrary equation of state: the energy is an arbitrary function of density and
// pressure, and so on (no relation between the functions is assumed)
struct UFEos
{
    auto compute_evol_from_pres(double r, double p) const noexcept -> double { double const a[2] = {r, p}; return hx_uf("evol", a, 2); }
    auto compute_pres_from_evol(double r, double e) const noexcept -> double { double const a[2] = {r, e}; return hx_uf("pres", a, 2); }
    auto compute_speed_of_sound(double r, double p) const noexcept -> double { double const a[2] = {r, p}; return hx_uf_pos("sound", a, 2); }
    auto compute_temp_from_pres(double r, double p) const noexcept -> double { double const a[2] = {r, p}; return hx_uf("temp", a, 2); }
};
inline PG mk_pg() { return PG(1 + hx_pos("gamma-1"), hx_pos("mmw")); }
