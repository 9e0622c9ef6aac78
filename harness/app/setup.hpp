// The setup compiled with main.cpp: everything it does is decided by the harness
#pragma once
#include <array>
#include <functional>
#include <string>
#include <inih/INIReader.hpp>
#include <eos.hpp>
#include <grid.hpp>
#include <grid_type.hpp>
#include <kokkos_shortcut.hpp>
#include <param.hpp>
#include <range.hpp>
#include <user_step.hpp>
#include "boundary.hpp"
#include "initialization_interface.hpp"
#include "shift_criterion_interface.hpp"
namespace hclpp {
struct HxApp
{
    std::function<void(Range const&, Grid const&, KV_double_3d const&, KV_double_4d const&, KV_double_3d const&, KV_double_4d const&)> init;
    std::function<void(std::array<int, 3>, std::array<int, 3>, KVH_double_1d const&, KVH_double_1d const&, KVH_double_1d const&)> mesh;
    std::function<void(int, int, Grid const&, KV_double_3d const&, KV_double_4d const&, KV_double_3d const&, KV_double_4d const&)> boundary;
    std::function<void(Range const&, double, double, KV_double_3d const&, KV_double_3d const&, KV_double_4d const&)> step;
    std::function<bool(Range const&, Grid const&, KV_cdouble_3d const&)> shift;
    int setups = 0;
};
inline HxApp& hx_app()
{
    static HxApp* a = nullptr;
    if (!a) a = new HxApp;
    return *a;
}
class ParamSetup
{
public:
    double value;
    explicit ParamSetup(INIReader const& reader) : value(reader.GetReal("Problem", "value", 0.)) { hx_app().setups++; }
};
template <class Gravity>
class InitializationSetup : public IInitializationProblem
{
public:
    InitializationSetup(EOS const&, ParamSetup const&, Gravity const&) {}
    void execute(Range const& range, Grid const& grid, KV_double_3d const& rho, KV_double_4d const& u, KV_double_3d const& P, KV_double_4d const& fx) const final
    {
        hx_app().init(range, grid, rho, u, P, fx);
    }
};
class GridSetup : public IGridType
{
public:
    explicit GridSetup(Param const&) {}
    void execute(std::array<int, 3> ng, std::array<int, 3> n, KVH_double_1d const& x0, KVH_double_1d const& x1, KVH_double_1d const& x2) const final
    {
        hx_app().mesh(ng, n, x0, x1, x2);
    }
};
template <class Gravity>
class BoundarySetup : public IBoundaryCondition<Gravity>
{
    int m_d, m_f;
public:
    BoundarySetup(int d, int f, EOS const&, ParamSetup const&) : IBoundaryCondition<Gravity>(d, f), m_d(d), m_f(f) {}
    void execute(Grid const& grid, Gravity const&, KV_double_3d const& rho, KV_double_4d const& rhou, KV_double_3d const& E, KV_double_4d const& fx) const final
    {
        hx_app().boundary(m_d, m_f, grid, rho, rhou, E, fx);
    }
};
class UserStep : public IUserStep
{
public:
    void execute(Range const& range, double t, double dt, KV_double_3d const& rho, KV_double_3d const& E, KV_double_4d const& fx) const final
    {
        hx_app().step(range, t, dt, rho, E, fx);
    }
};
class UserShiftCriterion : public IShiftCriterion
{
public:
    explicit UserShiftCriterion(ParamSetup const&) {}
    [[nodiscard]] auto execute(Range const& range, Grid const& grid, KV_cdouble_3d const& rho, KV_cdouble_4d const&, KV_cdouble_3d const&, KV_cdouble_4d const&) const -> bool final
    {
        return hx_app().shift(range, grid, rho);
    }
};
}
