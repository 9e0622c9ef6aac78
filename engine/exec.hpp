// Symbolic executor for LLVM IR: state, memory and decoded functions.
#pragma once
#include "smt.hpp"
#include <llvm/ADT/DenseMap.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>

using namespace llvm;

struct V;
typedef std::shared_ptr<std::vector<V>> Agg;
struct V {
    enum K : uint8_t { UNDEF, CINT, EXPR, AGG } k = UNDEF;
    uint8_t w = 0;
    uint64_t c = 0;
    E e = nullptr;
    Agg a;
    static V ci(uint64_t c, unsigned w) { V v; v.k = CINT; v.w = (uint8_t)w; v.c = w >= 64 ? c : (c & ((1ull << w) - 1)); return v; }
    static V ex(E e) { V v; v.k = EXPR; v.w = e->width; v.e = e; return v; }
    bool undef() const { return k == UNDEF; }
};

enum : uint8_t { TU = 0, TC = 1, TB = 2, TS = 3 };
struct Obj {
    uint64_t base = 0, size = 0;
    uint8_t kind = 0; // 0 heap 1 stack 2 global 3 func
    bool ro = false;
    std::string name;
    std::vector<uint8_t> data, tag;
    std::vector<E> slot, bsym;
    void init(uint64_t n) { size = n; data.assign(n, 0); tag.assign(n, TU); }
};
typedef std::shared_ptr<Obj> OP;

struct Opn { int reg = -1; V cv; };
struct DInst {
    const Instruction* I;
    unsigned opc;
    int dst = -1;
    std::vector<Opn> ops;
    int64_t goff = 0;
    std::vector<std::pair<int, int64_t>> gidx;
    unsigned bits = 0; // result int width
    uint64_t tsize = 0;
    int b0 = -1, b1 = -1;
    const Function* callee = nullptr;
    int builtin = -1;
};
struct DPhi { int dst; std::vector<std::pair<int, Opn>> in; };
struct DBlock { std::vector<DPhi> phis; std::vector<DInst> ins; };
struct DFunc { const Function* F; int nregs = 0; std::vector<DBlock> bl; std::string name; bool repo = false; long calls = 0; };

struct Frame {
    DFunc* f;
    int b = 0, i = 0, prev = -1;
    std::vector<V> regs;
    std::vector<uint64_t> allocas;
    std::vector<V> varargs;
};
struct Input { std::string name; E e; std::string text; };
struct Exc { uint64_t obj, ti; };

struct RaceInfo { int32_t w = -2, r = -2; bool rmulti = false; };
struct State {
    std::vector<Frame> fr;
    std::map<uint64_t, OP> mem;
    uint64_t next = 0x10000000ull;
    std::vector<E> path;
    std::unordered_set<E> facts;
    std::vector<Input> inputs;
    std::map<std::string, int> names;
    std::vector<Exc> inflight, caught;
    std::map<uint64_t, Exc> excs;
    uint64_t steps = 0;
    int divmode = 0;
    bool par = false; int32_t iter = -1;
    std::unordered_map<uint64_t, RaceInfo> race;
    OP lastObj;
    std::vector<std::string> trace;
    long id = 0;
    std::vector<std::string> ledger;
};

struct Kill {}; // path ends silently
struct PathError { std::string kind, msg; };
struct Incomplete { std::string msg; };
