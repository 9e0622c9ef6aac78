// main.cpp and everything it uses, in one translation unit; app() runs it
#pragma once
#include <kit.hpp>
#include <vfs.hpp>
#include <values.hpp>
#include <array>
#include <chrono>
#include <cmath>
#include <cstdlib>
#include <exception>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#define HX_SETUP "app"
// the clock of the run
inline std::function<long()> hx_clock; // hours since the start
inline long hx_now() { return hx_clock ? hx_clock() : 0; }
namespace std::chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept
{
    return time_point(duration_cast<steady_clock::duration>(hours(hx_now())));
}
}}
#include <grid_type.cpp>
#include <grid_factory.cpp>
#include <face_reconstruction.cpp>
#include <boundary.cpp>
#include <boundary_distribute.cpp>
#include <gravity.cpp>
#include <integration.cpp>
#include <internal_energy.cpp>
#include <moving_grid.cpp>
#include <user_step.cpp>
#include <user_step_factory.cpp>
#include <initialization_interface.cpp>
#include <shift_criterion_interface.cpp>
#include <mpi_scope_guard.cpp>
#include <io.cpp>
#include <config.yaml.cpp>
namespace hclpp {
std::string_view const git_build_string("v1-2-gabc");
std::string_view const git_branch("main");
std::string_view const compile_date("2026-01-01");
std::string_view const compile_time("12:34:56");
}
#define main hx_app_main
#include <main.cpp>
#undef main
inline int app(std::string const& text)
{
    hx_file("params.ini", text.data(), text.size());
    char a0[] = "heraclespp", a1[] = "params.ini";
    char* argv[] = {a0, a1, nullptr};
    return ::hx_app_main(2, argv);
}
