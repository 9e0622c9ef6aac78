// Stand-in for the HDF5 C library: files, datasets and attributes in memory, every
// identifier tracked (what it is, whether it is still open), failures on demand.
#pragma once
#include <cstddef>
#include <cstring>
#include <string>
#include <vector>
extern "C" void hx_fail(const char*);
typedef long long hid_t;
typedef int herr_t;
typedef unsigned long long hsize_t;
#define H5P_DEFAULT (static_cast<hid_t>(0))
#define H5F_ACC_RDONLY 0u
#define H5F_ACC_RDWR 1u
#define H5T_C_S1 (static_cast<hid_t>(7))
#define H5T_CSET_ASCII 0
#define H5T_CSET_UTF8 1
#define H5S_ALL (static_cast<hid_t>(0))
typedef int H5T_cset_t;
enum H5S_class_t { H5S_NO_CLASS = -1, H5S_SCALAR = 0, H5S_SIMPLE = 1, H5S_NULL = 2 };
struct HxH5Dset
{
    std::string name;
    char kind = 'd'; // d: double, i: int
    std::vector<long> dims;
    std::vector<double> d;
    std::vector<int> i;
    std::vector<unsigned> by; // processes that wrote the element
};
struct HxH5Attr { std::string name, value; std::size_t size = 0; int cset = 0; };
struct HxH5File
{
    std::string name;
    std::vector<HxH5Dset*> dsets;
    std::vector<HxH5Attr> attrs;
    bool hdf5 = true;
    HxH5Dset* find(std::string const& n)
    {
        for (HxH5Dset* d : dsets) if (d->name == n) return d;
        return nullptr;
    }
};
struct HxH5Id { char what = 0; bool open = false; HxH5File* f = nullptr; HxH5Dset* ds = nullptr; std::size_t size = 0; int cset = 0; std::string attr; bool rw = false; };
struct HxH5
{
    std::vector<HxH5File*> files;
    std::vector<HxH5Id> ids;
    int calls = 0, fail_at = -1; // the call that fails
    std::string failed; // its name
    static std::string norm(std::string const& p)
    {
        std::string r;
        for (char c : p) if (!(c == '/' && !r.empty() && r.back() == '/')) r.push_back(c);
        while (r.size() > 2 && r[0] == '.' && r[1] == '/') r.erase(0, 2);
        return r;
    }
    HxH5File* find(std::string const& p)
    {
        std::string const n = norm(p);
        for (HxH5File* f : files) if (f->name == n) return f;
        return nullptr;
    }
    HxH5File* create(std::string const& p)
    {
        HxH5File* f = new HxH5File;
        f->name = norm(p);
        files.push_back(f);
        return f;
    }
    void remove(std::string const& p)
    {
        std::string const n = norm(p);
        for (std::size_t k = 0; k < files.size(); ++k) if (files[k]->name == n) { files.erase(files.begin() + static_cast<long>(k)); return; }
    }
    int open() const { int n = 0; for (HxH5Id const& i : ids) n += i.open; return n; }
};
inline HxH5& hx_h5()
{
    static HxH5* h = nullptr;
    if (!h) h = new HxH5;
    return *h;
}
inline bool hx_h5_fails(char const* call)
{
    HxH5& h = hx_h5();
    if (h.calls++ == h.fail_at) { h.failed = call; return true; }
    return false;
}
inline hid_t hx_h5_new(HxH5Id const& i)
{
    HxH5& h = hx_h5();
    h.ids.push_back(i);
    h.ids.back().open = true;
    return static_cast<hid_t>(h.ids.size()) + 99;
}
inline HxH5Id* hx_h5_id(hid_t x, char what)
{
    HxH5& h = hx_h5();
    if (x < 100 || x - 100 >= static_cast<hid_t>(h.ids.size())) { hx_fail("HDF5: invalid identifier"); return nullptr; }
    HxH5Id* i = &h.ids[static_cast<std::size_t>(x - 100)];
    if (!i->open) { hx_fail("HDF5: identifier used after it was closed"); return nullptr; }
    if (i->what != what) { hx_fail("HDF5: identifier of the wrong kind"); return nullptr; }
    return i;
}
inline herr_t hx_h5_close(hid_t x, char what)
{
    HxH5Id* i = hx_h5_id(x, what);
    if (!i) return -1;
    i->open = false;
    return 0;
}
inline hid_t H5Fopen(char const* n, unsigned fl, hid_t)
{
    if (hx_h5_fails("H5Fopen")) return -1;
    HxH5Id i;
    i.what = 'F';
    i.f = hx_h5().find(n);
    i.rw = fl == H5F_ACC_RDWR;
    return i.f && i.f->hdf5 ? hx_h5_new(i) : -1;
}
inline herr_t H5Fclose(hid_t x) { return hx_h5_close(x, 'F'); }
inline hid_t H5Dopen2(hid_t x, char const* n, hid_t)
{
    if (hx_h5_fails("H5Dopen")) return -1;
    HxH5Id* f = hx_h5_id(x, 'F');
    if (!f) return -1;
    HxH5Id i;
    i.what = 'D';
    i.ds = f->f->find(n[0] == '/' ? n + 1 : n);
    return i.ds ? hx_h5_new(i) : -1;
}
#define H5Dopen H5Dopen2
inline herr_t H5Dclose(hid_t x) { return hx_h5_close(x, 'D'); }
inline hid_t H5Dget_space(hid_t x)
{
    if (hx_h5_fails("H5Dget_space")) return -1;
    HxH5Id* d = hx_h5_id(x, 'D');
    if (!d) return -1;
    HxH5Id i;
    i.what = 'S';
    i.ds = d->ds;
    return hx_h5_new(i);
}
inline hid_t H5Screate(H5S_class_t)
{
    if (hx_h5_fails("H5Screate")) return -1;
    HxH5Id i;
    i.what = 'S';
    return hx_h5_new(i);
}
inline herr_t H5Sclose(hid_t x) { return hx_h5_close(x, 'S'); }
inline int H5Sget_simple_extent_ndims(hid_t x)
{
    if (hx_h5_fails("H5Sget_simple_extent_ndims")) return -1;
    HxH5Id* s = hx_h5_id(x, 'S');
    if (!s) return -1;
    return s->ds ? static_cast<int>(s->ds->dims.size()) : 0;
}
inline int H5Sget_simple_extent_dims(hid_t x, hsize_t* dims, hsize_t* maxdims)
{
    if (hx_h5_fails("H5Sget_simple_extent_dims")) return -1;
    HxH5Id* s = hx_h5_id(x, 'S');
    if (!s || !s->ds) return -1;
    for (std::size_t k = 0; k < s->ds->dims.size(); ++k) {
        if (dims) dims[k] = static_cast<hsize_t>(s->ds->dims[k]);
        if (maxdims) maxdims[k] = static_cast<hsize_t>(s->ds->dims[k]);
    }
    return static_cast<int>(s->ds->dims.size());
}
inline hid_t H5Tcopy(hid_t)
{
    if (hx_h5_fails("H5Tcopy")) return -1;
    HxH5Id i;
    i.what = 'T';
    i.size = 1;
    return hx_h5_new(i);
}
inline herr_t H5Tclose(hid_t x) { return hx_h5_close(x, 'T'); }
inline herr_t H5Tset_size(hid_t x, std::size_t n)
{
    if (hx_h5_fails("H5Tset_size")) return -1;
    HxH5Id* t = hx_h5_id(x, 'T');
    if (!t || n == 0) return -1;
    t->size = n;
    return 0;
}
inline herr_t H5Tset_cset(hid_t x, H5T_cset_t c)
{
    if (hx_h5_fails("H5Tset_cset")) return -1;
    HxH5Id* t = hx_h5_id(x, 'T');
    if (!t) return -1;
    t->cset = c;
    return 0;
}
inline hid_t H5Acreate2(hid_t x, char const* n, hid_t ty, hid_t sp, hid_t, hid_t)
{
    if (hx_h5_fails("H5Acreate2")) return -1;
    HxH5Id *f = hx_h5_id(x, 'F'), *t = hx_h5_id(ty, 'T'), *s = hx_h5_id(sp, 'S');
    if (!f || !t || !s) return -1;
    if (!f->rw) return -1;
    if (hx_once()) {
        for (HxH5Attr const& a : f->f->attrs) if (a.name == n) return -1;
        HxH5Attr a;
        a.name = n;
        a.size = t->size;
        a.cset = t->cset;
        f->f->attrs.push_back(a);
    }
    HxH5Id i;
    i.what = 'A';
    i.f = f->f;
    i.attr = n;
    i.size = t->size;
    return hx_h5_new(i);
}
#define H5Acreate H5Acreate2
inline herr_t H5Awrite(hid_t x, hid_t ty, void const* p)
{
    if (hx_h5_fails("H5Awrite")) return -1;
    HxH5Id *a = hx_h5_id(x, 'A'), *t = hx_h5_id(ty, 'T');
    if (!a || !t) return -1;
    for (HxH5Attr& q : a->f->attrs) if (q.name == a->attr) q.value.assign(static_cast<char const*>(p), t->size);
    return 0;
}
inline herr_t H5Aclose(hid_t x) { return hx_h5_close(x, 'A'); }
