#pragma once
#include <iosfwd>
#include <bits/cxxabi_forced.h>
#include <bits/exception_defines.h>
namespace std {
template <typename C, typename T>
inline basic_ostream<C, T>& __ostream_insert(basic_ostream<C, T>& o, const C* s, streamsize n)
{
    o.hx_put(s, static_cast<size_t>(n));
    return o;
}
}
