// Parameter files with symbolic numbers: num(v) is the text of the value v
#pragma once
#include <hx.h>
#include <vfs.hpp>
#include <cstdlib>
#include <string>
#include <vector>
// numbers of the parameter file: @<k> is the k-th value of hx_vals
inline std::vector<double> hx_vals;
extern "C" inline __attribute__((used)) double hx_strtod(char const* s, char** e) noexcept
{
    if (s[0] != '@') return strtod(s, e);
    std::size_t k = 0, i = 1;
    for (; s[i] >= '0' && s[i] <= '9'; ++i) k = 10 * k + static_cast<std::size_t>(s[i] - '0');
    if (e) *e = const_cast<char*>(s + i);
    return hx_vals[k];
}
inline std::string num(double v)
{
    hx_vals.push_back(v);
    return "@" + std::to_string(hx_vals.size() - 1);
}
inline double hx_stod(std::string const& s, std::size_t* n = nullptr)
{
    char* e = nullptr;
    if (s.empty() || s[0] != '@') return std::stod(s, n);
    double const v = hx_strtod(s.c_str(), &e);
    if (n) *n = static_cast<std::size_t>(e - s.c_str());
    return v;
}
namespace std { using ::hx_strtod; using ::hx_stod; }
#define strtod hx_strtod
#define stod hx_stod
#include <param.cpp>
#include <inih/INIReader.hpp>
#include "../vendor/inih/src/INIReader.cpp"
#undef strtod
#undef stod
