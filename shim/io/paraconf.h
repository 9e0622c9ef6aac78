// Stand-in for paraconf: a tree is the text or the path it was made from
#pragma once
struct PC_tree_t { char const* text; char const* path; int live; };
struct HxPc { int parsed = 0, destroyed = 0; };
inline HxPc& hx_pc()
{
    static HxPc* p = nullptr;
    if (!p) p = new HxPc;
    return *p;
}
inline PC_tree_t PC_parse_string(char const* s) { hx_pc().parsed++; return {s, nullptr, 1}; }
inline PC_tree_t PC_parse_path(char const* s) { hx_pc().parsed++; return {nullptr, s, 1}; }
inline int PC_tree_destroy(PC_tree_t* t) { hx_pc().destroyed++; t->live = 0; return 0; }
