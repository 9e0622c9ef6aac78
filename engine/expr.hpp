// Hash-consed symbolic expressions: bit-vectors, booleans, and reals kept as
// Laurent polynomials over atoms (so that rational-function identities become
// syntactic before they ever reach the solver).
#pragma once
#include <gmpxx.h>
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

struct Unsupported : std::runtime_error { using std::runtime_error::runtime_error; };

typedef unsigned __int128 u128;

enum class Op : uint8_t {
    // bool
    BTRUE, BFALSE, BNOT, BAND, BOR, BITE, BVAR,
    // bv predicates
    EQ, ULT, ULE, SLT, SLE,
    // real predicates (child: POLY)
    PEQ0, PLT0, PLE0,
    // bv
    CONST, VAR, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
    CONCAT, EXTRACT, ZEXT, SEXT, ITE, R2BV, FP2SBV, FP2UBV, FPBITS,
    // real
    POLY, RPINF, RNINF, RNAN,
    // fp
    FCONST, FVAR, FADD, FSUB, FMUL, FDIV, FNEG, FABS, FSQRT, FREM, FMIN, FMAX, FITE, FFROMSBV, FFROMUBV, FFROMBITS, FROUND,
    FEQ, FLT, FLE, FISNAN, FISINF,
};
enum class Sort : uint8_t { Bool, BV, Real, FP };

struct Expr;
struct Mono { // interned; sorted by atom id
    uint32_t id;
    std::vector<std::pair<uint32_t, int32_t>> f;
};
struct Term { const Mono* m; mpq_class c; };

struct Expr {
    uint32_t id;
    Op op;
    Sort sort;
    uint8_t width; // BV width (<=128)
    uint16_t aux = 0, aux2 = 0; // EXTRACT hi, lo
    std::vector<const Expr*> k;
    u128 c = 0; // CONST (also FCONST bits)
    std::string name;
    std::vector<Term> p; // POLY, sorted by mono id
    size_t h = 0;
};
typedef const Expr* E;

// ---------------------------------------------------------------- atoms
enum class AK : uint8_t { Var, Sqrt, Def, Ite, Uf, I2R, Floor };
enum : uint8_t { SNEG = 1, SZERO = 2, SPOS = 4, SANY = 7 };
struct Atom {
    uint32_t id;
    AK kind;
    std::string name; // Var / Uf
    std::vector<E> args;
    uint8_t sign = SANY;
    bool sgnd = true; // I2R signed
    mpq_class lo, hi; bool haslo = false, hashi = false; bool lostrict=false, histrict=false;
};

inline size_t hmix(size_t a, size_t b) { return a ^ (b + 0x9e3779b97f4a7c15ULL + (a << 6) + (a >> 2)); }

struct Ctx {
    inline static volatile int stopFlag = 0; // set when the time limit has passed
    static void poll_stop() { if (stopFlag) { throw Unsupported("time limit"); } }
    std::vector<std::unique_ptr<Atom>> atoms;
    std::unordered_map<std::string, uint32_t> atomKey;
    std::vector<std::unique_ptr<Mono>> monos;
    std::unordered_map<size_t, std::vector<const Mono*>> monoTab;
    std::vector<std::unique_ptr<Expr>> exprs;
    std::unordered_map<size_t, std::vector<E>> tab;
    E T, F, RZERO, RONE, PINF, NINF, NAN_;
    size_t termLimit = 4000;
    const Mono* M1;

    Ctx()
    {
        M1 = mono({});
        Expr e; e.op = Op::BTRUE; e.sort = Sort::Bool; e.width = 1; T = intern(std::move(e));
        Expr f; f.op = Op::BFALSE; f.sort = Sort::Bool; f.width = 1; F = intern(std::move(f));
        RZERO = rconst(0); RONE = rconst(1);
        auto sp = [&](Op o) { Expr x; x.op = o; x.sort = Sort::Real; x.width = 64; return intern(std::move(x)); };
        PINF = sp(Op::RPINF); NINF = sp(Op::RNINF); NAN_ = sp(Op::RNAN);
    }

    E intern(Expr&& e)
    {
        size_t h = (size_t)e.op * 1000003 + (size_t)e.sort * 31 + e.width;
        h = hmix(h, e.aux); h = hmix(h, e.aux2);
        for (E c : e.k) h = hmix(h, c->id);
        h = hmix(h, (size_t)e.c); h = hmix(h, (size_t)(e.c >> 64));
        if (!e.name.empty()) h = hmix(h, std::hash<std::string>()(e.name));
        for (auto& t : e.p) { h = hmix(h, t.m->id); h = hmix(h, mpz_get_ui(t.c.get_num_mpz_t())); h = hmix(h, mpz_get_ui(t.c.get_den_mpz_t())); h = hmix(h, (size_t)(mpq_sgn(t.c.get_mpq_t()) + 1)); }
        e.h = h;
        auto& v = tab[h];
        for (E x : v) {
            if (x->op != e.op || x->sort != e.sort || x->width != e.width || x->aux != e.aux || x->aux2 != e.aux2 || x->k != e.k || x->c != e.c || x->name != e.name || x->p.size() != e.p.size()) continue;
            bool same = true;
            for (size_t i = 0; i < e.p.size() && same; ++i) same = x->p[i].m == e.p[i].m && x->p[i].c == e.p[i].c;
            if (same) return x;
        }
        e.id = (uint32_t)exprs.size();
        exprs.push_back(std::make_unique<Expr>(std::move(e)));
        v.push_back(exprs.back().get());
        return exprs.back().get();
    }
    const Mono* mono(std::vector<std::pair<uint32_t, int32_t>> f)
    {
        size_t h = 7;
        for (auto& x : f) { h = hmix(h, x.first); h = hmix(h, (size_t)(uint32_t)x.second); }
        auto& v = monoTab[h];
        for (auto m : v) if (m->f == f) return m;
        auto m = std::make_unique<Mono>(); m->id = (uint32_t)monos.size(); m->f = std::move(f);
        monos.push_back(std::move(m)); v.push_back(monos.back().get());
        return monos.back().get();
    }
    const Mono* mmul(const Mono* a, const Mono* b)
    {
        if (a == M1) return b;
        if (b == M1) return a;
        std::vector<std::pair<uint32_t, int32_t>> r;
        size_t i = 0, j = 0;
        while (i < a->f.size() || j < b->f.size()) {
            if (j >= b->f.size() || (i < a->f.size() && a->f[i].first < b->f[j].first)) r.push_back(a->f[i++]);
            else if (i >= a->f.size() || b->f[j].first < a->f[i].first) r.push_back(b->f[j++]);
            else { int e = a->f[i].second + b->f[j].second; if (e) r.push_back({a->f[i].first, e}); ++i; ++j; }
        }
        return mono(std::move(r));
    }

    // ------------------------------------------------------------ bool
    E boolc(bool b) { return b ? T : F; }
    E mkop(Op op, Sort s, unsigned w, std::vector<E> k, unsigned aux = 0, unsigned aux2 = 0)
    {
        Expr e; e.op = op; e.sort = s; e.width = (uint8_t)w; e.k = std::move(k); e.aux = (uint16_t)aux; e.aux2 = (uint16_t)aux2;
        return intern(std::move(e));
    }
    E bnot(E a)
    {
        if (a == T) return F;
        if (a == F) return T;
        if (a->op == Op::BNOT) return a->k[0];
        if (a->op == Op::PLT0) return ple0(neg(a->k[0]));
        if (a->op == Op::PLE0) return plt0(neg(a->k[0]));
        if (a->op == Op::ULT) return mkop(Op::ULE, Sort::Bool, 1, {a->k[1], a->k[0]});
        if (a->op == Op::ULE) return mkop(Op::ULT, Sort::Bool, 1, {a->k[1], a->k[0]});
        if (a->op == Op::SLT) return mkop(Op::SLE, Sort::Bool, 1, {a->k[1], a->k[0]});
        if (a->op == Op::SLE) return mkop(Op::SLT, Sort::Bool, 1, {a->k[1], a->k[0]});
        return mkop(Op::BNOT, Sort::Bool, 1, {a});
    }
    E band(E a, E b)
    {
        if (a == F || b == F) return F;
        if (a == T) return b;
        if (b == T) return a;
        if (a == b) return a;
        if (bnot(a) == b) return F;
        if (a->id > b->id) std::swap(a, b);
        return mkop(Op::BAND, Sort::Bool, 1, {a, b});
    }
    E bor(E a, E b)
    {
        if (a == T || b == T) return T;
        if (a == F) return b;
        if (b == F) return a;
        if (a == b) return a;
        if (bnot(a) == b) return T;
        if (a->id > b->id) std::swap(a, b);
        return mkop(Op::BOR, Sort::Bool, 1, {a, b});
    }
    E bite(E c, E a, E b)
    {
        if (c == T) return a;
        if (c == F) return b;
        if (a == b) return a;
        if (a == T && b == F) return c;
        if (a == F && b == T) return bnot(c);
        if (a == T) return bor(c, b);
        if (a == F) return band(bnot(c), b);
        if (b == T) return bor(bnot(c), a);
        if (b == F) return band(c, a);
        return mkop(Op::BITE, Sort::Bool, 1, {c, a, b});
    }
    E bvarb(const std::string& n) { Expr e; e.op = Op::BVAR; e.sort = Sort::Bool; e.width = 1; e.name = n; return intern(std::move(e)); }

    // ------------------------------------------------------------ bv
    static u128 mask(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
    static __int128 sx(u128 v, unsigned w) { if (w < 128 && (v >> (w - 1)) & 1) v |= ~mask(w); return (__int128)v; }
    E bv(u128 v, unsigned w)
    {
        Expr e; e.op = Op::CONST; e.sort = Sort::BV; e.width = (uint8_t)w; e.c = v & mask(w);
        return intern(std::move(e));
    }
    E bvvar(const std::string& n, unsigned w)
    {
        Expr e; e.op = Op::VAR; e.sort = Sort::BV; e.width = (uint8_t)w; e.name = n;
        return intern(std::move(e));
    }
    static bool isc(E e) { return e->op == Op::CONST; }
    static bool foldbv(Op op, unsigned w, u128 a, u128 b, u128& r)
    {
        u128 m = mask(w);
        switch (op) {
        case Op::ADD: r = a + b; break;
        case Op::SUB: r = a - b; break;
        case Op::MUL: r = a * b; break;
        case Op::UDIV: if (!b) return false; r = a / b; break;
        case Op::UREM: if (!b) return false; r = a % b; break;
        case Op::SDIV: if (!b) return false; r = (u128)(sx(a, w) / sx(b, w)); break;
        case Op::SREM: if (!b) return false; r = (u128)(sx(a, w) % sx(b, w)); break;
        case Op::AND: r = a & b; break;
        case Op::OR: r = a | b; break;
        case Op::XOR: r = a ^ b; break;
        case Op::SHL: r = b >= w ? 0 : a << (unsigned)b; break;
        case Op::LSHR: r = b >= w ? 0 : a >> (unsigned)b; break;
        case Op::ASHR: r = (u128)(sx(a, w) >> (unsigned)(b >= w ? w - 1 : b)); break;
        default: return false;
        }
        r &= m;
        return true;
    }
    E bvop(Op op, E a, E b)
    {
        unsigned w = a->width;
        if (isc(a) && isc(b)) { u128 r; if (foldbv(op, w, a->c, b->c, r)) return bv(r, w); }
        switch (op) {
        case Op::ADD:
            if (isc(a) && a->c == 0) return b;
            if (isc(b) && b->c == 0) return a;
            if (isc(a)) std::swap(a, b);
            if (isc(b) && a->op == Op::ADD && isc(a->k[1])) return bvop(Op::ADD, a->k[0], bv(a->k[1]->c + b->c, w));
            break;
        case Op::SUB:
            if (isc(b)) return bvop(Op::ADD, a, bv(-b->c, w));
            if (a == b) return bv(0, w);
            if (a->op == Op::ADD && a->k[0] == b) return a->k[1];
            if (a->op == Op::ADD && a->k[1] == b) return a->k[0];
            break;
        case Op::MUL:
            if (isc(a)) std::swap(a, b);
            if (isc(b) && b->c == 0) return b;
            if (isc(b) && b->c == 1) return a;
            break;
        case Op::UDIV: case Op::SDIV: if (isc(b) && b->c == 1) return a; break;
        case Op::UREM: if (isc(b) && b->c == 1) return bv(0, w); break;
        case Op::AND:
            if (isc(a)) std::swap(a, b);
            if (isc(b) && b->c == 0) return b;
            if (isc(b) && b->c == mask(w)) return a;
            if (a == b) return a;
            if (isc(b) && a->op == Op::ZEXT && (b->c & mask(a->k[0]->width)) == mask(a->k[0]->width)) return a;
            break;
        case Op::OR:
            if (isc(a)) std::swap(a, b);
            if (isc(b) && b->c == 0) return a;
            if (isc(b) && b->c == mask(w)) return b;
            if (a == b) return a;
            break;
        case Op::XOR:
            if (isc(a)) std::swap(a, b);
            if (isc(b) && b->c == 0) return a;
            if (a == b) return bv(0, w);
            break;
        case Op::SHL: case Op::LSHR: case Op::ASHR:
            if (isc(b) && b->c == 0) return a;
            if (isc(b) && op == Op::SHL && b->c < w) return concat(extract(a, w - 1 - (unsigned)b->c, 0), bv(0, (unsigned)b->c));
            if (isc(b) && op == Op::LSHR && b->c < w) return zext(extract(a, w - 1, (unsigned)b->c), w);
            break;
        default: break;
        }
        // push through ite with constant arms
        if (isc(b) && a->op == Op::ITE && isc(a->k[1]) && isc(a->k[2])) return ite(a->k[0], bvop(op, a->k[1], b), bvop(op, a->k[2], b));
        if (isc(a) && b->op == Op::ITE && isc(b->k[1]) && isc(b->k[2])) return ite(b->k[0], bvop(op, a, b->k[1]), bvop(op, a, b->k[2]));
        if (op == Op::ADD || op == Op::MUL || op == Op::AND || op == Op::OR || op == Op::XOR) if (!isc(b) && a->id > b->id) std::swap(a, b);
        return mkop(op, Sort::BV, w, {a, b});
    }
    E concat(E hi, E lo)
    {
        unsigned w = hi->width + lo->width;
        if (isc(hi) && isc(lo)) return bv((hi->c << lo->width) | lo->c, w);
        if (isc(hi) && hi->c == 0) return zext(lo, w);
        if (hi->op == Op::EXTRACT && lo->op == Op::EXTRACT && hi->k[0] == lo->k[0] && hi->aux2 == lo->aux + 1) return extract(hi->k[0], hi->aux, lo->aux2);
        if (hi->op == Op::EXTRACT && lo->op == Op::CONCAT && lo->k[0]->op == Op::EXTRACT && lo->k[0]->k[0] == hi->k[0] && hi->aux2 == lo->k[0]->aux + 1)
            return concat(extract(hi->k[0], hi->aux, lo->k[0]->aux2), lo->k[1]);
        return mkop(Op::CONCAT, Sort::BV, w, {hi, lo});
    }
    E extract(E a, unsigned hi, unsigned lo)
    {
        unsigned w = hi - lo + 1;
        if (w == a->width) return a;
        if (isc(a)) return bv(a->c >> lo, w);
        if (a->op == Op::EXTRACT) return extract(a->k[0], hi + a->aux2, lo + a->aux2);
        if (a->op == Op::CONCAT) {
            unsigned lw = a->k[1]->width;
            if (hi < lw) return extract(a->k[1], hi, lo);
            if (lo >= lw) return extract(a->k[0], hi - lw, lo - lw);
        }
        if (a->op == Op::ZEXT || a->op == Op::SEXT) {
            unsigned iw = a->k[0]->width;
            if (hi < iw) return extract(a->k[0], hi, lo);
            if (a->op == Op::ZEXT && lo >= iw) return bv(0, w);
            if (a->op == Op::ZEXT && lo == 0) return zext(a->k[0], w);
            if (a->op == Op::SEXT && lo == 0) return sext(a->k[0], w);
        }
        if (a->op == Op::ITE && (isc(a->k[1]) || isc(a->k[2]))) return ite(a->k[0], extract(a->k[1], hi, lo), extract(a->k[2], hi, lo));
        auto thin = [&](E x) { return isc(x) || x->width <= w || ((x->op == Op::ZEXT || x->op == Op::SEXT) && x->k[0]->width <= w); };
        // arithmetic is narrowed only when the operands were widened before: a long sum keeps its width
        if (lo == 0 && (a->op == Op::ADD || a->op == Op::SUB || a->op == Op::MUL) && thin(a->k[0]) && thin(a->k[1]))
            return bvop(a->op, extract(a->k[0], hi, 0), extract(a->k[1], hi, 0));
        if (a->op == Op::AND || a->op == Op::OR || a->op == Op::XOR) return bvop(a->op, extract(a->k[0], hi, lo), extract(a->k[1], hi, lo));
        return mkop(Op::EXTRACT, Sort::BV, w, {a}, hi, lo);
    }
    E zext(E a, unsigned w)
    {
        if (a->width == w) return a;
        if (isc(a)) return bv(a->c, w);
        if (a->op == Op::ZEXT) return zext(a->k[0], w);
        if (a->op == Op::ITE && isc(a->k[1]) && isc(a->k[2])) return ite(a->k[0], zext(a->k[1], w), zext(a->k[2], w));
        return mkop(Op::ZEXT, Sort::BV, w, {a});
    }
    E sext(E a, unsigned w)
    {
        if (a->width == w) return a;
        if (isc(a)) return bv((u128)sx(a->c, a->width), w);
        if (a->op == Op::ZEXT) return zext(a->k[0], w);
        if (a->op == Op::SEXT) return sext(a->k[0], w);
        if (a->op == Op::ITE && isc(a->k[1]) && isc(a->k[2])) return ite(a->k[0], sext(a->k[1], w), sext(a->k[2], w));
        return mkop(Op::SEXT, Sort::BV, w, {a});
    }
    E b2bv(E b, unsigned w) { return ite(b, bv(1, w), bv(0, w)); }
    E ite(E c, E a, E b) // BV
    {
        if (c == T || a == b) return a;
        if (c == F) return b;
        if (c->op == Op::BNOT) return ite(c->k[0], b, a);
        if (a->op == Op::ITE && a->k[0] == c) a = a->k[1];
        if (b->op == Op::ITE && b->k[0] == c) b = b->k[2];
        return mkop(Op::ITE, Sort::BV, a->width, {c, a, b});
    }
    E eq(E a, E b)
    {
        if (a->sort == Sort::Bool) return bnot(bxor(a, b));
        if (a == b) return T;
        if (isc(a) && isc(b)) return F;
        if (isc(a)) std::swap(a, b);
        if (isc(b)) {
            if (a->op == Op::ITE) {
                E x = a->k[1], y = a->k[2];
                if (isc(x) && isc(y)) { bool ex = x->c == b->c, ey = y->c == b->c; return ex ? (ey ? T : a->k[0]) : (ey ? bnot(a->k[0]) : F); }
                if (isc(x) && x->c != b->c) return band(bnot(a->k[0]), eq(y, b));
                if (isc(y) && y->c != b->c) return band(a->k[0], eq(x, b));
                if (isc(x)) return bor(a->k[0], eq(y, b));
                if (isc(y)) return bor(bnot(a->k[0]), eq(x, b));
            }
            if (a->op == Op::ZEXT) { unsigned iw = a->k[0]->width; if (b->c >> iw) return F; return eq(a->k[0], bv(b->c, iw)); }
            if (a->op == Op::SEXT) { unsigned iw = a->k[0]->width; u128 lo = b->c & mask(iw); if (((u128)sx(lo, iw) & mask(a->width)) != b->c) return F; return eq(a->k[0], bv(lo, iw)); }
            if (a->op == Op::ADD && isc(a->k[1])) return eq(a->k[0], bv(b->c - a->k[1]->c, a->width));
            if (a->op == Op::XOR && isc(a->k[1])) return eq(a->k[0], bv(b->c ^ a->k[1]->c, a->width));
            if (a->op == Op::CONCAT) { unsigned lw = a->k[1]->width; return band(eq(a->k[0], bv(b->c >> lw, a->k[0]->width)), eq(a->k[1], bv(b->c, lw))); }
        } else if (a->op == Op::ZEXT && b->op == Op::ZEXT && a->k[0]->width == b->k[0]->width) return eq(a->k[0], b->k[0]);
        else if (a->op == Op::SEXT && b->op == Op::SEXT && a->k[0]->width == b->k[0]->width) return eq(a->k[0], b->k[0]);
        if (!isc(b) && a->id > b->id) std::swap(a, b);
        return mkop(Op::EQ, Sort::Bool, 1, {a, b});
    }
    E bxor(E a, E b)
    {
        if (a == T) return bnot(b);
        if (a == F) return b;
        if (b == T) return bnot(a);
        if (b == F) return a;
        if (a == b) return F;
        return bite(a, bnot(b), b);
    }
    E cmp(Op op, E a, E b)
    {
        if (op == Op::EQ) return eq(a, b);
        unsigned w = a->width;
        if (isc(a) && isc(b)) {
            switch (op) {
            case Op::ULT: return boolc(a->c < b->c);
            case Op::ULE: return boolc(a->c <= b->c);
            case Op::SLT: return boolc(sx(a->c, w) < sx(b->c, w));
            case Op::SLE: return boolc(sx(a->c, w) <= sx(b->c, w));
            default: break;
            }
        }
        if (a == b) return boolc(op == Op::ULE || op == Op::SLE);
        if (op == Op::ULT && isc(b) && b->c == 0) return F;
        if (op == Op::ULE && isc(a) && a->c == 0) return T;
        if (op == Op::ULE && isc(b) && b->c == mask(w)) return T;
        if (op == Op::ULT && isc(b) && b->c == 1) return eq(a, bv(0, w));
        // zext narrowing
        auto zw = [&](E e) -> unsigned { return e->op == Op::ZEXT ? e->k[0]->width : 0; };
        if (op == Op::SLT || op == Op::SLE) {
            bool an = zw(a) || (isc(a) && !(a->c >> (w - 1))), bn = zw(b) || (isc(b) && !(b->c >> (w - 1)));
            if (an && bn) return cmp(op == Op::SLT ? Op::ULT : Op::ULE, a, b);
            if (zw(a) && isc(b)) return F; // b negative
            if (zw(b) && isc(a)) return T;
        }
        if (op == Op::ULT || op == Op::ULE) {
            if (zw(a) && isc(b)) { unsigned iw = zw(a); if (b->c > mask(iw)) return T; return cmp(op, a->k[0], bv(b->c, iw)); }
            if (zw(b) && isc(a)) { unsigned iw = zw(b); if (a->c > mask(iw)) return F; return cmp(op, bv(a->c, iw), b->k[0]); }
            if (zw(a) && zw(a) == zw(b)) return cmp(op, a->k[0], b->k[0]);
        }
        if (a->op == Op::ITE && isc(a->k[1]) && isc(a->k[2]) && isc(b)) return bite(a->k[0], cmp(op, a->k[1], b), cmp(op, a->k[2], b));
        if (b->op == Op::ITE && isc(b->k[1]) && isc(b->k[2]) && isc(a)) return bite(b->k[0], cmp(op, a, b->k[1]), cmp(op, a, b->k[2]));
        return mkop(op, Sort::Bool, 1, {a, b});
    }

    // ------------------------------------------------------------ reals
    E mkpoly(std::vector<Term> p)
    {
        Expr e; e.op = Op::POLY; e.sort = Sort::Real; e.width = 64; e.p = std::move(p);
        return intern(std::move(e));
    }
    E rconst(const mpq_class& q)
    {
        std::vector<Term> p;
        if (q != 0) p.push_back({M1, q});
        return mkpoly(std::move(p));
    }
    E rdouble(double d)
    {
        if (std::isnan(d)) return NAN_;
        if (std::isinf(d)) return d > 0 ? PINF : NINF;
        return rconst(mpq_class(d));
    }
    static bool isrc(E e) { return e->op == Op::POLY && (e->p.empty() || (e->p.size() == 1 && e->p[0].m->f.empty())); }
    static mpq_class rcv(E e) { return e->p.empty() ? mpq_class(0) : e->p[0].c; }
    E atomExpr(uint32_t a) { return mkpoly({{mono({{a, 1}}), 1}}); }
    uint32_t newAtom(AK k, const std::string& name, std::vector<E> args, bool sgnd = true)
    {
        std::string key = std::to_string((int)k) + "|" + name + "|" + (sgnd ? "s" : "u");
        for (E x : args) key += "," + std::to_string(x->id);
        auto it = atomKey.find(key);
        if (it != atomKey.end()) return it->second;
        auto a = std::make_unique<Atom>();
        a->id = (uint32_t)atoms.size(); a->kind = k; a->name = name; a->args = std::move(args); a->sgnd = sgnd;
        atoms.push_back(std::move(a));
        atomKey[key] = atoms.back()->id;
        return atoms.back()->id;
    }
    E rvar(const std::string& n) { return atomExpr(newAtom(AK::Var, n, {})); }
    static void norm(std::vector<Term>& p)
    {
        std::sort(p.begin(), p.end(), [](const Term& a, const Term& b) { return a.m->id < b.m->id; });
        size_t o = 0;
        for (size_t i = 0; i < p.size();) {
            size_t j = i + 1;
            mpq_class c = p[i].c;
            while (j < p.size() && p[j].m == p[i].m) c += p[j++].c;
            if (c != 0) { const Mono* m = p[i].m; p[o].m = m; p[o].c = c; ++o; }
            i = j;
        }
        p.erase(p.begin() + o, p.end());
    }
    bool special(E a) const { return a->op != Op::POLY; }
    E add(E a, E b)
    {
        if (special(a) || special(b)) {
            if (a == NAN_ || b == NAN_) return NAN_;
            if (special(a) && special(b)) return a == b ? a : NAN_;
            return special(a) ? a : b;
        }
        if (a->p.empty()) return b;
        if (b->p.empty()) return a;
        std::vector<Term> r;
        r.reserve(a->p.size() + b->p.size());
        size_t i = 0, j = 0;
        while (i < a->p.size() || j < b->p.size()) {
            if (j >= b->p.size() || (i < a->p.size() && a->p[i].m->id < b->p[j].m->id)) r.push_back(a->p[i++]);
            else if (i >= a->p.size() || b->p[j].m->id < a->p[i].m->id) r.push_back(b->p[j++]);
            else { mpq_class c = a->p[i].c + b->p[j].c; if (c != 0) r.push_back({a->p[i].m, c}); ++i; ++j; }
        }
        return mkpoly(std::move(r));
    }
    E neg(E a)
    {
        if (a == NAN_) return a;
        if (a == PINF) return NINF;
        if (a == NINF) return PINF;
        std::vector<Term> r = a->p;
        for (auto& t : r) t.c = -t.c;
        return mkpoly(std::move(r));
    }
    E sub(E a, E b) { return add(a, neg(b)); }
    E scale(E a, const mpq_class& q)
    {
        if (q == 0) return RZERO;
        std::vector<Term> r = a->p;
        for (auto& t : r) t.c *= q;
        return mkpoly(std::move(r));
    }
    // sign information ---------------------------------------------
    uint8_t sgnAtom(uint32_t a) const { return atoms[a]->sign; }
    static uint8_t smul(uint8_t a, uint8_t b)
    {
        uint8_t r = 0;
        if ((a & SZERO) || (b & SZERO)) r |= SZERO;
        if (((a & SPOS) && (b & SPOS)) || ((a & SNEG) && (b & SNEG))) r |= SPOS;
        if (((a & SPOS) && (b & SNEG)) || ((a & SNEG) && (b & SPOS))) r |= SNEG;
        return r;
    }
    uint8_t sgnMono(const Mono* m) const
    {
        uint8_t s = SPOS;
        for (auto& f : m->f) {
            uint8_t a = sgnAtom(f.first);
            if (f.second < 0) a &= (uint8_t)~SZERO;
            if (f.second % 2 == 0) { uint8_t b = 0; if (a & SZERO) b |= SZERO; if (a & (SPOS | SNEG)) b |= SPOS; a = b; }
            s = smul(s, a);
        }
        return s;
    }
    uint8_t sgn(E a) const
    {
        if (a == PINF) return SPOS;
        if (a == NINF) return SNEG;
        if (a == NAN_) return SANY;
        if (a->p.empty()) return SZERO;
        uint8_t u = 0; bool strictpos = false, strictneg = false;
        for (auto& t : a->p) {
            uint8_t s = sgnMono(t.m);
            if (t.c < 0) s = smul(s, SNEG);
            u |= s;
            if (s == SPOS) strictpos = true;
            if (s == SNEG) strictneg = true;
        }
        if (!(u & SNEG)) return strictpos ? SPOS : (uint8_t)u;
        if (!(u & SPOS)) return strictneg ? SNEG : (uint8_t)u;
        return SANY;
    }
    static mpq_class qpow(const mpq_class& q, int e)
    {
        mpq_class r = 1, b = e < 0 ? mpq_class(1) / q : q;
        for (int i = 0; i < std::abs(e); ++i) r *= b;
        return r;
    }
    // Re-normalise sqrt atoms: s^2 -> arg
    bool needsSqrtRed(const Mono* m) const
    {
        for (auto& f : m->f) if (atoms[f.first]->kind == AK::Sqrt && (f.second >= 2 || f.second < -1)) return true;
        return false;
    }
    E mul(E a, E b)
    {
        if (special(a) || special(b)) {
            if (a == NAN_ || b == NAN_) return NAN_;
            uint8_t sa = sgn(a), sb = sgn(b);
            if ((sa == SZERO) || (sb == SZERO)) return NAN_;
            uint8_t s = smul(sa, sb);
            if (s == SPOS) return PINF;
            if (s == SNEG) return NINF;
            throw Unsupported("inf * value of unknown sign");
        }
        if (a->p.empty() || b->p.empty()) return RZERO;
        if (isrc(a)) return scale(b, rcv(a));
        if (isrc(b)) return scale(a, rcv(b));
        poll_stop();
        if (a->p.size() * b->p.size() > termLimit) {
            if (a->p.size() > b->p.size()) std::swap(a, b);
            b = atomExpr(defAtom(b));
            if (a->p.size() > termLimit) a = atomExpr(defAtom(a));
        }
        return mulraw(a, b);
    }
    E mulraw(E a, E b)
    {
        std::vector<Term> r;
        r.reserve(a->p.size() * b->p.size());
        std::vector<Term> redo;
        for (auto& x : a->p)
            for (auto& y : b->p) {
                const Mono* m = mmul(x.m, y.m);
                if (needsSqrtRed(m)) redo.push_back({m, x.c * y.c});
                else r.push_back({m, x.c * y.c});
            }
        norm(r);
        E res = mkpoly(std::move(r));
        for (auto& t : redo) res = add(res, scale(redMono(t.m), t.c));
        return res;
    }
    E redMono(const Mono* m)
    {
        std::vector<std::pair<uint32_t, int32_t>> keep;
        E extra = RONE;
        for (auto& f : m->f) {
            if (atoms[f.first]->kind == AK::Sqrt && (f.second >= 2 || f.second < -1)) {
                int e = f.second, q = e >= 0 ? e / 2 : -((-e) / 2), rem = e - 2 * q;
                E arg = atoms[f.first]->args[0];
                if (q > 0) for (int i = 0; i < q; ++i) extra = mul(extra, arg);
                else for (int i = 0; i < -q; ++i) extra = mul(extra, inv(arg));
                if (rem) keep.push_back({f.first, rem});
            } else keep.push_back(f);
        }
        return mul(mkpoly({{mono(keep), 1}}), extra);
    }
    uint32_t defAtom(E a)
    {
        // canonical scaling: leading coefficient 1 is done by the caller
        uint8_t s = sgn(a);
        uint32_t id = newAtom(AK::Def, "", {a});
        atoms[id]->sign = s;
        return id;
    }
    // exact polynomial quotient a / b (both plain), or null
    static int mcmp(const Mono* a, const Mono* b)
    { // graded lex on atom ids (larger = leading)
        int da = 0, db = 0;
        for (auto& f : a->f) da += f.second;
        for (auto& f : b->f) db += f.second;
        if (da != db) return da < db ? -1 : 1;
        size_t i = 0;
        for (; i < a->f.size() && i < b->f.size(); ++i) {
            if (a->f[i].first != b->f[i].first) return a->f[i].first < b->f[i].first ? 1 : -1;
            if (a->f[i].second != b->f[i].second) return a->f[i].second < b->f[i].second ? -1 : 1;
        }
        if (i < a->f.size()) return 1;
        if (i < b->f.size()) return -1;
        return 0;
    }
    static const Term& lead(E a)
    {
        size_t bi = 0;
        for (size_t i = 1; i < a->p.size(); ++i) if (mcmp(a->p[i].m, a->p[bi].m) > 0) bi = i;
        return a->p[bi];
    }
    const Mono* minv(const Mono* m)
    {
        auto f = m->f;
        for (auto& x : f) x.second = -x.second;
        return mono(f);
    }
    E exactDiv(E a, E b)
    {
        if (a->p.empty()) return a;
        if (a->p.size() < 1 || b->p.size() < 2 || a->p.size() > 3000 || b->p.size() > 150) return nullptr;
        poll_stop();
        // normalise the numerator's negative exponents away
        const Mono* shift = clearMono(a);
        E r = mulraw(a, mkpoly({{shift, 1}}));
        const Term lb = lead(b);
        const Mono* ilb = minv(lb.m);
        std::vector<Term> q;
        for (int it = 0; it < 1500 && !r->p.empty(); ++it) {
            const Term& lr = lead(r);
            const Mono* m = mmul(lr.m, ilb);
            for (auto& f : m->f) if (f.second < 0) return nullptr;
            mpq_class c = lr.c / lb.c;
            q.push_back({m, c});
            r = sub(r, mulraw(b, mkpoly({{m, c}})));
            if (r->p.size() > 6000) return nullptr;
            if ((it & 15) == 15) poll_stop();
        }
        if (!r->p.empty()) return nullptr;
        norm(q);
        return mulraw(mkpoly(std::move(q)), mkpoly({{minv(shift), 1}}));
    }
    // monomial that clears all negative exponents of a
    const Mono* clearMono(E a, bool even = false)
    {
        std::map<uint32_t, int> mn;
        for (auto& t : a->p) for (auto& f : t.m->f) if (f.second < 0) { int& x = mn[f.first]; x = std::min(x, f.second); }
        std::vector<std::pair<uint32_t, int32_t>> r;
        for (auto& x : mn) {
            int e = -x.second;
            if (even && (e & 1) && (atoms[x.first]->sign & SNEG)) ++e;
            r.push_back({x.first, e});
        }
        return mono(r);
    }
    const Mono* content(E a) // common monomial factor (with min exponents, incl. negative)
    {
        std::map<uint32_t, int> mn;
        bool first = true;
        for (auto& t : a->p) {
            if (first) { for (auto& f : t.m->f) mn[f.first] = f.second; first = false; continue; }
            std::map<uint32_t, int> cur;
            for (auto& f : t.m->f) cur[f.first] = f.second;
            for (auto& x : mn) { auto it = cur.find(x.first); int e = it == cur.end() ? 0 : it->second; x.second = std::min(x.second, e); }
            for (auto& x : cur) if (!mn.count(x.first) && x.second < 0) mn[x.first] = x.second;
        }
        std::vector<std::pair<uint32_t, int32_t>> r;
        for (auto& x : mn) if (x.second) r.push_back({x.first, x.second});
        return mono(r);
    }
    // replace Def atoms of positive power by their definition; null when too large
    E expandDefs(E a, size_t limit)
    {
        for (int round = 0; round < 6; ++round) {
            E acc = RZERO; bool any = false;
            std::vector<Term> keep;
            for (auto& t : a->p) {
                E x = nullptr;
                std::vector<std::pair<uint32_t, int32_t>> rest;
                for (auto& f : t.m->f) {
                    if (atoms[f.first]->kind == AK::Def && f.second > 0) {
                        if (!x) x = RONE;
                        E y = atoms[f.first]->args[0];
                        for (int i = 0; i < f.second; ++i) { if (x->p.size() * y->p.size() > 4 * limit) return nullptr; x = mulraw(x, y); }
                    } else rest.push_back(f);
                }
                if (!x) { keep.push_back(t); continue; }
                any = true;
                acc = add(acc, mulraw(x, mkpoly({{mono(rest), t.c}})));
                if (acc->p.size() > 4 * limit) return nullptr;
            }
            if (!any) return a->p.size() > limit ? nullptr : a;
            norm(keep);
            a = add(acc, mkpoly(std::move(keep)));
        }
        return nullptr;
    }
    E inv(E b)
    {
        if (special(b)) return b == NAN_ ? b : RZERO;
        if (b->p.empty()) throw Unsupported("inverse of zero");
        if (b->p.size() == 1) return mkpoly({{minv(b->p[0].m), 1 / b->p[0].c}});
        const Mono* g = content(b);
        mpq_class lc = b->p[0].c;
        E core = mulraw(b, mkpoly({{minv(g), 1 / lc}}));
        if (E x = expandDefs(core, 200)) if (x != core) {
            if (x->p.empty()) throw Unsupported("inverse of zero");
            return mulraw(inv(x), mkpoly({{minv(g), 1 / lc}}));
        }
        uint32_t d = defAtom(core);
        std::vector<std::pair<uint32_t, int32_t>> f = minv(g)->f;
        E r = mkpoly({{mono({{d, -1}}), 1 / lc}});
        return mulraw(r, mkpoly({{mono(f), 1}}));
    }
    // cancel Def atoms in denominators that divide the numerator
    E reduceDefs(E a)
    {
        if (special(a) || a->p.size() < 2 || a->p.size() > 300) return a;
        std::map<uint32_t, int> mn;
        for (auto& t : a->p) for (auto& f : t.m->f) if (f.second < 0 && atoms[f.first]->kind == AK::Def) { int& x = mn[f.first]; x = std::min(x, f.second); }
        for (auto& x : mn) {
            int k = -x.second;
            E n = mulraw(a, mkpoly({{mono({{x.first, k}}), 1}}));
            // positive powers of the Def atom itself are expanded
            E e = RZERO; bool ok = true;
            for (auto& t : n->p) {
                std::vector<std::pair<uint32_t, int32_t>> rest; int pw = 0;
                for (auto& f : t.m->f) if (f.first == x.first) pw = f.second; else rest.push_back(f);
                E y = mkpoly({{mono(rest), t.c}});
                for (int i = 0; i < pw && ok; ++i) { if (y->p.size() * atoms[x.first]->args[0]->p.size() > 2000) ok = false; else y = mulraw(y, atoms[x.first]->args[0]); }
                if (!ok) break;
                e = add(e, y);
            }
            if (!ok || e->p.size() > 400) continue;
            int k0 = k;
            while (k > 0) { E q = exactDiv(e, atoms[x.first]->args[0]); if (!q) break; e = q; --k; }
            if (k < k0) a = k ? mulraw(e, mkpoly({{mono({{x.first, -k}}), 1}})) : e;
            if (a->p.size() < 2) return a;
        }
        return a;
    }
    // q with q*q == a, or null
    E polyRoot(E a)
    {
        if (special(a) || a->p.empty() || a->p.size() > 300) return nullptr;
        const Mono* g = content(a);
        std::vector<std::pair<uint32_t, int32_t>> half, full;
        for (auto& f : g->f) { int h = f.second >= 0 ? f.second / 2 : -((1 - f.second) / 2); if (h) { half.push_back({f.first, h}); full.push_back({f.first, 2 * h}); } }
        E core = full.empty() ? a : mulraw(a, mkpoly({{minv(mono(full)), 1}}));
        for (auto& t : core->p) for (auto& f : t.m->f) if (f.second < 0) return nullptr;
        auto rootTerm = [&](const Term& t, Term& o) {
            if (t.c < 0 || !mpz_perfect_square_p(t.c.get_num_mpz_t()) || !mpz_perfect_square_p(t.c.get_den_mpz_t())) return false;
            std::vector<std::pair<uint32_t, int32_t>> f = t.m->f;
            for (auto& x : f) { if (x.second & 1) return false; x.second /= 2; }
            mpz_class n = ::sqrt(t.c.get_num()), d = ::sqrt(t.c.get_den());
            o = {mono(f), mpq_class(n, d)};
            return true;
        };
        Term l0;
        if (!rootTerm(lead(core), l0)) return nullptr;
        E q = mkpoly({l0});
        E r = sub(core, mulraw(q, q));
        const Mono* il = minv(l0.m);
        for (int it = 0; it < 40 && !r->p.empty(); ++it) {
            const Term& lr = lead(r);
            const Mono* m = mmul(lr.m, il);
            for (auto& f : m->f) if (f.second < 0) return nullptr;
            E t = mkpoly({{m, lr.c / (2 * l0.c)}});
            r = sub(r, mulraw(t, add(scale(q, 2), t)));
            q = add(q, t);
            if (r->p.size() > 1000) return nullptr;
        }
        if (!r->p.empty()) return nullptr;
        return half.empty() ? q : mulraw(q, mkpoly({{mono(half), 1}}));
    }
    E div(E a, E b) // b known nonzero on this path
    {
        if (special(a) || special(b)) {
            if (a == NAN_ || b == NAN_) return NAN_;
            if (special(a) && special(b)) return NAN_;
            if (special(b)) return RZERO;
            uint8_t s = smul(sgn(a), sgn(b));
            if (s == SPOS) return PINF;
            if (s == SNEG) return NINF;
            throw Unsupported("inf / value of unknown sign");
        }
        if (a->p.empty()) return a;
        if (isrc(b)) return scale(a, 1 / rcv(b));
        if (a == b) return RONE;
        if (b->p.size() == 1) { E i = inv(b); return mul(a, i); }
        a = reduceDefs(a);
        b = reduceDefs(b);
        if (isrc(b)) return scale(a, 1 / rcv(b));
        if (a == b) return RONE;
        if (b->p.size() == 1) { E i = inv(b); return mul(a, i); }
        const Mono* g = content(b);
        E core = mulraw(b, mkpoly({{minv(g), 1 / b->p[0].c}}));
        if (E q = exactDiv(a, core)) return mul(q, mkpoly({{minv(g), 1 / b->p[0].c}}));
        return mul(a, inv(b));
    }
    E sqrt(E a)
    {
        if (a == PINF || a == NAN_) return a;
        if (special(a)) return NAN_;
        if (isrc(a)) {
            mpq_class q = rcv(a);
            if (q < 0) return NAN_;
            if (mpz_perfect_square_p(q.get_num_mpz_t()) && mpz_perfect_square_p(q.get_den_mpz_t())) {
                mpz_class n = ::sqrt(q.get_num()), d = ::sqrt(q.get_den());
                return rconst(mpq_class(n, d));
            }
        }
        // pull out square monomial with known non-negative sign, and positive square constants
        const Mono* g = content(a);
        std::vector<std::pair<uint32_t, int32_t>> out;
        for (auto& f : g->f) {
            if ((atoms[f.first]->sign & SNEG)) continue;
            int h = f.second / 2; // toward zero
            if (h) out.push_back({f.first, h});
        }
        E pre = RONE;
        if (!out.empty()) {
            pre = mkpoly({{mono(out), 1}});
            E preinv = inv(pre);
            a = mulraw(mulraw(a, preinv), preinv);
        }
        if (!out.empty() && isrc(a)) { E s = sqrt(a); return mul(pre, s); }
        // perfect square of a single monomial: |m|
        uint32_t id = newAtom(AK::Sqrt, "", {a});
        atoms[id]->sign = (uint8_t)((sgn(a) == SPOS) ? SPOS : (SZERO | SPOS));
        return mul(pre, atomExpr(id));
    }
    E rite(E c, E a, E b)
    {
        if (c == T || a == b) return a;
        if (c == F) return b;
        if (special(a) || special(b)) throw Unsupported("ite over inf/nan");
        uint32_t id = newAtom(AK::Ite, "", {c, a, b});
        atoms[id]->sign = sgn(a) | sgn(b);
        // refine with the condition's own shape: ite(a<=b,a,b) etc. left to solver
        return atomExpr(id);
    }
    E uf(const std::string& n, std::vector<E> args, uint8_t sign = SANY)
    {
        uint32_t id = newAtom(AK::Uf, n, std::move(args));
        if (atoms[id]->sign == SANY) atoms[id]->sign = sign;
        return atomExpr(id);
    }
    E i2r(E b, bool sgnd)
    {
        if (b->sort == Sort::Bool) b = b2bv(b, 8), sgnd = false;
        if (isc(b)) {
            __int128 v = sgnd ? sx(b->c, b->width) : (__int128)b->c;
            mpz_class z; bool ng = v < 0; u128 m = ng ? (u128)-v : (u128)v;
            z = (unsigned long)(m >> 64); z <<= 64; z += (unsigned long)m; if (ng) z = -z;
            return rconst(mpq_class(z));
        }
        if (b->op == Op::ITE) return rite(b->k[0], i2r(b->k[1], sgnd), i2r(b->k[2], sgnd));
        if (b->op == Op::ZEXT) return i2r(b->k[0], false);
        if (b->op == Op::SEXT) return i2r(b->k[0], sgnd);
        uint32_t id = newAtom(AK::I2R, "", {b}, sgnd);
        if (!sgnd) atoms[id]->sign = SZERO | SPOS;
        return atomExpr(id);
    }
    // clear denominators & expand Def atoms; returns polynomial whose zero set / sign agrees
    E cleared(E a, bool evenPowers)
    {
        E cur = a;
        for (int round = 0; round < 12; ++round) {
            const Mono* m = clearMono(cur, evenPowers);
            if (m != M1) cur = mulraw(cur, mkpoly({{m, 1}}));
            // substitute Def atoms with positive exponents
            bool hasDef = false;
            for (auto& t : cur->p) { for (auto& f : t.m->f) if (atoms[f.first]->kind == AK::Def) { hasDef = true; break; } if (hasDef) break; }
            if (!hasDef) { bool neg = false; for (auto& t : cur->p) for (auto& f : t.m->f) if (f.second < 0) neg = true; if (!neg) return cur; continue; }
            std::vector<Term> keep; E acc = RZERO; size_t budget = 0;
            for (auto& t : cur->p) {
                bool d = false;
                for (auto& f : t.m->f) if (atoms[f.first]->kind == AK::Def) d = true;
                if (!d) { keep.push_back(t); continue; }
                std::vector<std::pair<uint32_t, int32_t>> rest; E x = RONE;
                for (auto& f : t.m->f) {
                    if (atoms[f.first]->kind == AK::Def) {
                        for (int i = 0; i < f.second; ++i) {
                            E y = atoms[f.first]->args[0];
                            if (x->p.size() * y->p.size() > termLimit) return nullptr;
                            x = mulraw(x, y);
                        }
                    } else rest.push_back(f);
                }
                x = mulraw(x, mkpoly({{mono(rest), t.c}}));
                budget += x->p.size();
                if (budget > 4 * termLimit) return nullptr;
                acc = add(acc, x);
            }
            norm(keep);
            cur = add(acc, mkpoly(std::move(keep)));
        }
        return nullptr;
    }
    // replace a variable atom by a value, through every atom and operator
    struct Subst { uint32_t v; E val; std::unordered_map<E, E> memo; std::unordered_map<uint32_t, E> am; };
    E substAtom(uint32_t id, Subst& S)
    {
        if (id == S.v) return S.val;
        auto it = S.am.find(id);
        if (it != S.am.end()) return it->second;
        Atom a = *atoms[id];
        bool ch = false;
        for (E& x : a.args) { E y = subst(x, S); if (y != x) ch = true; x = y; }
        E r;
        if (!ch) r = mkpoly({{mono({{id, 1}}), 1}});
        else switch (a.kind) {
        case AK::Sqrt: { E q = polyRoot(reduceDefs(a.args[0])); if (q && !(sgn(q) & SNEG)) r = q; else if (q && !(sgn(q) & SPOS)) r = neg(q); else r = sqrt(a.args[0]); break; }
        case AK::Def: r = a.args[0]; break;
        case AK::Ite: r = rite(a.args[0], a.args[1], a.args[2]); break;
        case AK::Uf: r = uf(a.name, a.args, a.sign); break;
        default: throw Unsupported("substitution");
        }
        S.am[id] = r;
        return r;
    }
    E subst(E e, Subst& S)
    {
        auto it = S.memo.find(e);
        if (it != S.memo.end()) return it->second;
        E r = e;
        poll_stop();
        switch (e->op) {
        case Op::POLY: {
            r = RZERO;
            for (auto& t : e->p) {
                bool hit = false;
                E x = rconst(t.c);
                for (auto& f : t.m->f) {
                    E y = substAtom(f.first, S);
                    E base = f.second > 0 ? y : (y->p.empty() ? throw Unsupported("substitution: inverse of zero") : inv(y));
                    for (int i = 0; i < std::abs(f.second); ++i) x = mul(x, base);
                    hit = true;
                }
                (void)hit;
                r = add(r, x);
            }
            break;
        }
        case Op::PEQ0: r = peq0(subst(e->k[0], S)); break;
        case Op::PLT0: r = plt0(subst(e->k[0], S)); break;
        case Op::PLE0: r = ple0(subst(e->k[0], S)); break;
        case Op::BNOT: r = bnot(subst(e->k[0], S)); break;
        case Op::BAND: r = band(subst(e->k[0], S), subst(e->k[1], S)); break;
        case Op::BOR: r = bor(subst(e->k[0], S), subst(e->k[1], S)); break;
        default:
            for (E k : e->k) if (subst(k, S) != k) throw Unsupported("substitution");
        }
        S.memo[e] = r;
        return r;
    }
    bool mentions(E e, uint32_t v, std::unordered_map<E, bool>& memo)
    {
        auto it = memo.find(e);
        if (it != memo.end()) return it->second;
        memo[e] = false;
        bool h = false;
        for (auto& t : e->p) { for (auto& f : t.m->f) { if (f.first == v) h = true; else for (E x : atoms[f.first]->args) if (mentions(x, v, memo)) h = true; if (h) break; } if (h) break; }
        for (E k : e->k) if (!h && mentions(k, v, memo)) h = true;
        return memo[e] = h;
    }
    // p == 0 solved for a variable it is linear in with a coefficient of known sign
    std::vector<std::pair<uint32_t, E>> solveFor(E p)
    {
        std::vector<std::pair<size_t, std::pair<uint32_t, E>>> sols;
        std::set<uint32_t> cand;
        for (auto& t : p->p) for (auto& f : t.m->f) if (atoms[f.first]->kind == AK::Var && f.second == 1) cand.insert(f.first);
        for (uint32_t a : cand) {
            E C = RZERO, R = RZERO; bool ok = true;
            for (auto& t : p->p) {
                int ex = 0; std::vector<std::pair<uint32_t, int32_t>> rest;
                for (auto& f : t.m->f) {
                    if (f.first == a) { ex = f.second; continue; }
                    std::unordered_map<E, bool> mm;
                    for (E x : atoms[f.first]->args) if (mentions(x, a, mm)) ok = false;
                    rest.push_back(f);
                }
                if (ex != 0 && ex != 1) ok = false;
                if (!ok) break;
                E y = mkpoly({{mono(rest), t.c}});
                if (ex) C = add(C, y); else R = add(R, y);
            }
            if (!ok || C->p.empty() || (sgn(C) != SPOS && sgn(C) != SNEG)) continue;
            sols.push_back({C->p.size() * 100 + R->p.size(), {a, div(neg(R), C)}});
        }
        std::sort(sols.begin(), sols.end(), [](auto& x, auto& y) { return x.first < y.first; });
        std::vector<std::pair<uint32_t, E>> out;
        for (size_t i = 0; i < sols.size() && i < 3; ++i) out.push_back(sols[i].second);
        return out;
    }
    E canonScale(E a, bool allowNeg)
    {
        if (a->p.empty()) return a;
        mpq_class lc = a->p[0].c;
        if (!allowNeg && lc < 0) lc = -lc;
        if (lc == 1) return a;
        return scale(a, 1 / lc);
    }
    E peq0(E a)
    {
        if (special(a)) return F;
        if (a->p.empty()) return T;
        if (isrc(a)) return F;
        uint8_t s = sgn(a);
        if (!(s & SZERO)) return F;
        if (E c = cleared(a, false)) { if (c->p.empty()) return T; a = c; }
        // drop common monomial of nonzero atoms
        a = canonScale(a, true);
        if (isrc(a)) return F;
        return mkop(Op::PEQ0, Sort::Bool, 1, {a});
    }
    E plt0(E a)
    {
        if (a == NINF) return T;
        if (special(a)) return F;
        if (isrc(a)) return boolc(rcv(a) < 0);
        uint8_t s = sgn(a);
        if (s == SNEG) return T;
        if (!(s & SNEG)) return F;
        if (E c = cleared(a, true)) { a = c; if (isrc(a)) return boolc(rcv(a) < 0); s = sgn(a); if (s == SNEG) return T; if (!(s & SNEG)) return F; }
        return mkop(Op::PLT0, Sort::Bool, 1, {canonScale(a, false)});
    }
    E ple0(E a)
    {
        if (a == NINF) return T;
        if (special(a)) return F;
        if (isrc(a)) return boolc(rcv(a) <= 0);
        uint8_t s = sgn(a);
        if (!(s & SPOS)) return T;
        if (s == SPOS) return F;
        if (E c = cleared(a, true)) { a = c; if (isrc(a)) return boolc(rcv(a) <= 0); s = sgn(a); if (!(s & SPOS)) return T; if (s == SPOS) return F; }
        return mkop(Op::PLE0, Sort::Bool, 1, {canonScale(a, false)});
    }
    E rcmp(int kind, E a, E b) // 0 eq, 1 lt, 2 le
    {
        if (a == NAN_ || b == NAN_) return F;
        if (special(a) || special(b)) {
            auto rk = [&](E e) { return e == PINF ? 1 : e == NINF ? -1 : 0; };
            int x = rk(a), y = rk(b);
            if (kind == 0) return boolc(x == y);
            if (kind == 1) return boolc(x < y);
            return boolc(x <= y);
        }
        E d = sub(a, b);
        return kind == 0 ? peq0(d) : kind == 1 ? plt0(d) : ple0(d);
    }
    // ------------------------------------------------------------ fp
    E fconst(double d)
    {
        Expr e; e.op = Op::FCONST; e.sort = Sort::FP; e.width = 64;
        uint64_t b; std::memcpy(&b, &d, 8); e.c = b;
        return intern(std::move(e));
    }
    static bool isfc(E e) { return e->op == Op::FCONST; }
    static double fval(E e) { uint64_t b = (uint64_t)e->c; double d; std::memcpy(&d, &b, 8); return d; }
    E fvar(const std::string& n) { Expr e; e.op = Op::FVAR; e.sort = Sort::FP; e.width = 64; e.name = n; return intern(std::move(e)); }
    E fop(Op op, std::vector<E> k, unsigned aux = 0)
    {
        bool all = true;
        for (E x : k) if (x->sort == Sort::FP && !isfc(x)) all = false; else if (x->sort != Sort::FP && !isc(x) && x != T && x != F) all = false;
        if (all) {
            auto v = [&](int i) { return fval(k[i]); };
            switch (op) {
            case Op::FADD: return fconst(v(0) + v(1));
            case Op::FSUB: return fconst(v(0) - v(1));
            case Op::FMUL: return fconst(v(0) * v(1));
            case Op::FDIV: return fconst(v(0) / v(1));
            case Op::FREM: return fconst(std::fmod(v(0), v(1)));
            case Op::FNEG: return fconst(-v(0));
            case Op::FABS: return fconst(std::fabs(v(0)));
            case Op::FSQRT: return fconst(std::sqrt(v(0)));
            case Op::FMIN: return fconst(std::fmin(v(0), v(1)));
            case Op::FMAX: return fconst(std::fmax(v(0), v(1)));
            case Op::FROUND: return fconst(aux == 0 ? std::floor(v(0)) : aux == 1 ? std::ceil(v(0)) : aux == 2 ? std::trunc(v(0)) : std::round(v(0)));
            case Op::FEQ: return boolc(v(0) == v(1));
            case Op::FLT: return boolc(v(0) < v(1));
            case Op::FLE: return boolc(v(0) <= v(1));
            case Op::FISNAN: return boolc(std::isnan(v(0)));
            case Op::FISINF: return boolc(std::isinf(v(0)));
            case Op::FFROMSBV: return fconst((double)sx(k[0]->c, k[0]->width));
            case Op::FFROMUBV: return fconst((double)k[0]->c);
            case Op::FFROMBITS: { uint64_t b = (uint64_t)k[0]->c; double d; memcpy(&d, &b, 8); return fconst(d); }
            default: break;
            }
        }
        if (op == Op::FITE) { if (k[0] == T || k[1] == k[2]) return k[1]; if (k[0] == F) return k[2]; }
        if (op == Op::FNEG && k[0]->op == Op::FNEG) return k[0]->k[0];
        if (op == Op::FFROMBITS && k[0]->op == Op::FPBITS) return k[0]->k[0];
        bool pred = op == Op::FEQ || op == Op::FLT || op == Op::FLE || op == Op::FISNAN || op == Op::FISINF;
        return mkop(op, pred ? Sort::Bool : Sort::FP, pred ? 1 : 64, std::move(k), aux);
    }
    E ffrombv(E b, bool s) { return fop(s ? Op::FFROMSBV : Op::FFROMUBV, {b}); }
    E f2bv(E f, unsigned w, bool s)
    {
        if (isfc(f)) { double d = fval(f); return bv(s ? (u128)(__int128)d : (u128)d, w); }
        return mkop(s ? Op::FP2SBV : Op::FP2UBV, Sort::BV, w, {f});
    }
    E fbits(E f)
    {
        if (isfc(f)) return bv(f->c, 64);
        if (f->op == Op::FFROMBITS) return f->k[0];
        return mkop(Op::FPBITS, Sort::BV, 64, {f});
    }
};
