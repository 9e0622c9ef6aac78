// An in-memory file for the C code that reads the parameter file
#pragma once
#include <cstdio>
#include <cstddef>
#include <string>
struct HxVFile
{
    char const* name = "";
    char const* data = "";
    std::size_t n = 0, pos = 0;
    int open = 0, opened = 0;
};
inline HxVFile hx_vfile;
extern "C" {
inline __attribute__((used)) FILE* hx_fopen(char const* name, char const*)
{
    for (std::size_t i = 0;; ++i) {
        if (name[i] != hx_vfile.name[i]) return nullptr;
        if (!name[i]) break;
    }
    hx_vfile.pos = 0;
    hx_vfile.open++;
    hx_vfile.opened++;
    return reinterpret_cast<FILE*>(&hx_vfile);
}
inline __attribute__((used)) char* hx_fgets(char* s, int m, FILE* f)
{
    HxVFile& v = *reinterpret_cast<HxVFile*>(f);
    if (m <= 0 || v.pos >= v.n) return nullptr;
    int k = 0;
    while (k + 1 < m && v.pos < v.n) {
        char const c = v.data[v.pos++];
        s[k++] = c;
        if (c == '\n') break;
    }
    s[k] = 0;
    return s;
}
inline __attribute__((used)) int hx_fclose(FILE* f)
{
    reinterpret_cast<HxVFile*>(f)->open--;
    return 0;
}
}
inline void hx_file(char const* name, char const* data, std::size_t n)
{
    hx_vfile.name = name;
    hx_vfile.data = data;
    hx_vfile.n = n;
    hx_vfile.pos = 0;
}
