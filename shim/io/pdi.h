// Stand-in for PDI and its decl_hdf5 plugin.  What an event does is generated from
// the configuration of the run (src/io/config.yaml.cpp) by tools/pdigen.py.
#pragma once
#include <string>
#include <vector>
#include <mpi.h>
#include "hdf5.h"
#include "paraconf.h"
typedef int PDI_status_t;
typedef int PDI_inout_t;
enum : int { PDI_NONE = 0, PDI_IN = 1, PDI_OUT = 2, PDI_INOUT = 3 };
#define PDI_OK 0
struct HxPdiVar { std::string name; void* ptr; int access; };
struct HxPdiMeta { std::string name; std::vector<int> i; std::vector<double> d; std::string s; MPI_Comm comm = nullptr; bool set = false; };
struct HxSel { std::vector<long> size, start; };
struct HxPdi
{
    std::vector<HxPdiVar> shared;
    std::vector<HxPdiMeta> meta;
    std::vector<std::string> events;
    int init = 0, final = 0;
    PC_tree_t conf {nullptr, nullptr, 0};
    int rank() const { return hx_mpi().rank; }
    HxPdiMeta& m(std::string const& n)
    {
        for (HxPdiMeta& x : meta) if (x.name == n) return x;
        meta.push_back(HxPdiMeta());
        meta.back().name = n;
        return meta.back();
    }
    int I(char const* n, int k = 0)
    {
        HxPdiMeta& x = m(n);
        if (!x.set || k < 0 || k >= static_cast<int>(x.i.size())) { hx_fail("PDI: metadata used before it has a value"); return 0; }
        return x.i[static_cast<std::size_t>(k)];
    }
    std::string S(char const* n)
    {
        HxPdiMeta& x = m(n);
        if (!x.set) hx_fail("PDI: metadata used before it has a value");
        return x.s.empty() && !x.i.empty() ? std::to_string(x.i[0]) : x.s;
    }
    void* data(char const* n, int access)
    {
        for (std::size_t k = shared.size(); k-- > 0;)
            if (shared[k].name == n) {
                if (!(shared[k].access & access)) hx_fail("PDI: data is not shared for this direction");
                return shared[k].ptr;
            }
        hx_fail("PDI: data of the event is not shared");
        return nullptr;
    }
};
// state per process
inline HxPdi& hx_pdi()
{
    static std::vector<HxPdi*>* v = nullptr;
    if (!v) v = new std::vector<HxPdi*>;
    std::size_t const r = static_cast<std::size_t>(hx_mpi().rank);
    while (v->size() <= r) v->push_back(new HxPdi);
    return *(*v)[r];
}
inline long hx_prod(std::vector<long> const& v) { long p = 1; for (long x : v) p *= x; return p; }
// offsets of the selected elements, last index fastest
inline std::vector<long> hx_select(std::vector<long> const& dims, HxSel sel, char const* what)
{
    std::size_t const n = dims.size();
    if (sel.start.empty()) sel.start.assign(n, 0);
    if (sel.size.empty()) { sel.size = dims; for (std::size_t k = 0; k < n; ++k) sel.size[k] -= sel.start[k]; }
    std::vector<long> r;
    if (sel.size.size() != n || sel.start.size() != n) { hx_fail((std::string("PDI: rank of the selection in ") + what).c_str()); return r; }
    for (std::size_t k = 0; k < n; ++k)
        if (sel.start[k] < 0 || sel.size[k] < 0 || sel.start[k] + sel.size[k] > dims[k]) { hx_fail((std::string("PDI: selection outside ") + what).c_str()); return r; }
    std::vector<long> x(n, 0);
    long const total = hx_prod(sel.size);
    for (long t = 0; t < total; ++t) {
        long o = 0;
        for (std::size_t k = 0; k < n; ++k) o = o * dims[k] + sel.start[k] + x[k];
        r.push_back(o);
        for (std::size_t k = n; k-- > 0;) { if (++x[k] < sel.size[k]) break; x[k] = 0; }
    }
    return r;
}
inline void hx_pdi_write(HxPdi& c, HxH5File& f, std::string const& dset, char const* desc, char kind, std::vector<long> const& mdims, HxSel const& mem, HxSel const& ds, std::vector<long> const* decl)
{
    void* p = c.data(desc, PDI_OUT);
    if (!p) return;
    HxH5Dset* d = f.find(dset);
    if (!d) {
        d = new HxH5Dset;
        d->name = dset;
        d->kind = kind;
        d->dims = decl ? *decl : (mem.size.empty() ? mdims : mem.size);
        std::size_t const n = static_cast<std::size_t>(hx_prod(d->dims));
        if (kind == 'd') { d->d.resize(n); }
        else d->i.resize(n);
        d->by.assign(n, 0);
        f.dsets.push_back(d);
    }
    std::vector<long> const a = hx_select(mdims, mem, desc), b = hx_select(d->dims, ds, dset.c_str());
    if (a.size() != b.size()) { hx_fail("PDI: the selections in memory and in the file differ in size"); return; }
    if (d->kind != kind) { hx_fail("PDI: type of the dataset"); return; }
    for (std::size_t k = 0; k < a.size(); ++k) {
        std::size_t const s = static_cast<std::size_t>(a[k]), t = static_cast<std::size_t>(b[k]);
        if (kind == 'd') d->d[t] = static_cast<double*>(p)[s];
        else d->i[t] = static_cast<int*>(p)[s];
        d->by[t] |= 1u << c.rank();
    }
}
inline void hx_pdi_read(HxPdi& c, HxH5File& f, std::string const& dset, char const* desc, char kind, std::vector<long> const& mdims, HxSel const& mem, HxSel const& ds)
{
    void* p = c.data(desc, PDI_IN);
    HxH5Dset* d = f.find(dset);
    if (!p) return;
    if (!d) { hx_fail("PDI: the dataset is not in the file"); return; }
    std::vector<long> const a = hx_select(mdims, mem, desc), b = hx_select(d->dims, ds, dset.c_str());
    if (a.size() != b.size()) { hx_fail("PDI: the selections in memory and in the file differ in size"); return; }
    if (d->kind != kind) { hx_fail("PDI: type of the dataset"); return; }
    for (std::size_t k = 0; k < a.size(); ++k) {
        std::size_t const s = static_cast<std::size_t>(a[k]), t = static_cast<std::size_t>(b[k]);
        if (kind == 'd') static_cast<double*>(p)[s] = d->d[t];
        else static_cast<int*>(p)[s] = d->i[t];
    }
}
void hx_pdi_meta(HxPdi& c, std::string const& name, void const* p); // generated
void hx_pdi_event(HxPdi& c, std::string const& event); // generated
inline PDI_status_t PDI_init(PC_tree_t t) { hx_pdi().init++; hx_pdi().conf = t; return 0; }
inline PDI_status_t PDI_finalize() { hx_pdi().final++; return 0; }
inline PDI_status_t PDI_share(char const* name, void const* p, PDI_inout_t access)
{
    HxPdi& c = hx_pdi();
    if (access & PDI_OUT) hx_pdi_meta(c, name, p);
    c.shared.push_back({name, const_cast<void*>(p), access});
    return 0;
}
inline PDI_status_t PDI_reclaim(char const* name)
{
    HxPdi& c = hx_pdi();
    for (std::size_t k = c.shared.size(); k-- > 0;)
        if (c.shared[k].name == name) {
            if (c.shared[k].access & PDI_IN) hx_pdi_meta(c, name, c.shared[k].ptr);
            c.shared.erase(c.shared.begin() + static_cast<long>(k));
            return 0;
        }
    return 1;
}
inline PDI_status_t PDI_event(char const* e)
{
    HxPdi& c = hx_pdi();
    c.events.push_back(e);
    hx_pdi_event(c, e);
    return 0;
}
inline PDI_status_t PDI_expose(char const* name, void const* p, PDI_inout_t access)
{
    PDI_share(name, p, access);
    return PDI_reclaim(name);
}
inline void hx_pdi_items() {}
inline void hx_pdi_items(std::nullptr_t) {}
template <class P, class... R>
void hx_pdi_items(char const* name, P p, int access, R... r)
{
    PDI_share(name, static_cast<void const*>(p), access);
    hx_pdi_items(r...);
}
inline void hx_pdi_back() {}
inline void hx_pdi_back(std::nullptr_t) {}
template <class P, class... R>
void hx_pdi_back(char const* name, P, int, R... r)
{
    hx_pdi_back(r...);
    PDI_reclaim(name);
}
template <class... R>
PDI_status_t PDI_multi_expose(char const* event, R... r)
{
    hx_pdi_items(r...);
    PDI_event(event);
    hx_pdi_back(r...);
    return 0;
}
#include <hx_pdi_gen.hpp>
