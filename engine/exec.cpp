#include "exec.hpp"
#include <cctype>
#include <fstream>
#include <iostream>
#include <random>

static mpq_class snapDouble(double d)
{
    // simplest rational (continued fraction, or short decimal) that rounds to d
    if (d == 0) return 0;
    mpq_class x(d);
    double ad = std::fabs(d);
    if (ad < 1e15 && ad > 1e-6) {
        mpq_class r = d < 0 ? mpq_class(-x) : x;
        mpz_class h0 = 1, h1 = 0, k0 = 0, k1 = 1;
        mpq_class cur = r;
        for (int i = 0; i < 12; ++i) {
            mpz_class a = cur.get_num() / cur.get_den();
            mpz_class h = a * h0 + h1, k = a * k0 + k1;
            if (k > 100000) break;
            mpq_class c(h, k); c.canonicalize();
            // correctly rounded?
            double cd = h.get_d() / k.get_d();
            if (mpz_sizeinbase(h.get_mpz_t(), 2) <= 53 && cd == ad) return d < 0 ? mpq_class(-c) : c;
            h1 = h0; h0 = h; k1 = k0; k0 = k;
            mpq_class f = cur - mpq_class(a);
            if (f == 0) break;
            cur = 1 / f;
        }
    }
    { // a small rational multiple of pi, whatever the order in which it was computed
        double const pi = 3.141592653589793238462643383279502884;
        double const r = d / pi;
        for (int k = 1; k <= 360; ++k) {
            double const h = std::round(r * k);
            if (h == 0 || std::fabs(h) > 1000) continue;
            if (std::fabs(r * k - h) <= 4e-16 * std::fabs(h)) { mpq_class q{mpz_class((long)h), mpz_class(k)}; q.canonicalize(); return q * mpq_class(pi); }
        }
    }
    char buf[64];
    for (int p = 1; p <= 15; ++p) {
        snprintf(buf, sizeof buf, "%.*e", p - 1, d);
        if (strtod(buf, nullptr) == d) {
            // parse decimal exactly
            std::string s = buf; bool ng = s[0] == '-'; if (ng) s = s.substr(1);
            size_t e = s.find('e'); int ex = atoi(s.c_str() + e + 1);
            std::string m = s.substr(0, e); std::string digs; int fr = 0; bool dot = false;
            for (char ch : m) { if (ch == '.') dot = true; else { digs += ch; if (dot) ++fr; } }
            mpq_class v{mpz_class(digs)};
            int sh = ex - fr;
            mpz_class t; mpz_ui_pow_ui(t.get_mpz_t(), 10, (unsigned)std::abs(sh));
            if (sh >= 0) v *= mpq_class(t); else v /= mpq_class(t);
            v.canonicalize();
            return ng ? mpq_class(-v) : v;
        }
    }
    return x;
}

struct Violation { std::string kind, label, msg, func, where; std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::string> stack; int margin = 0; };

struct Engine {
    LLVMContext C;
    std::unique_ptr<Module> M;
    const DataLayout* DL;
    Ctx X;
    Solver S{X};
    bool ieee = false;
    std::unordered_map<const Function*, std::unique_ptr<DFunc>> dfs;
    std::unordered_map<const GlobalValue*, uint64_t> gaddr;
    std::unordered_map<uint64_t, const Function*> faddr;
    std::map<uint64_t, const GlobalValue*> gname;
    uint64_t nextG = 0x100000;
    State init;
    std::vector<std::unique_ptr<State>> work;
    State* cur = nullptr;
    long maxPaths = 200000, paths = 0, killed = 0, incompletePaths = 0; uint64_t maxSteps = 20000000, totalSteps = 0;
    double timeLimit = 600, tStart;
    std::map<std::string, long> incompleteWhy;
    std::map<std::string, std::array<long, 4>> obl; // label -> total, folded, proved, unknown
    std::map<std::string, long> reach;
    std::vector<Violation> viol;
    std::map<std::string, int> violCount;
    long forks = 0;
    std::string repoPrefix = "/repo/";
    std::set<std::string> repoFuncs;
    std::set<std::string> assumptions;
    bool verbose = false;
    bool stopFirst = false;
    long nextId = 0;
    bool forkReal = true;
    std::vector<E> sampleObl;
    std::string sampleText;

    // ---------------------------------------------------------- helpers
    E toE(const V& v)
    {
        if (v.k == V::CINT) return v.w == 1 ? X.boolc(v.c & 1) : X.bv(v.c, v.w);
        if (v.k == V::EXPR) return v.e;
        if (v.k == V::UNDEF) throw PathError{"uninit", "use of an uninitialised value"};
        throw Unsupported("aggregate used as a scalar");
    }
    V fromE(E e)
    {
        if (e->op == Op::CONST && e->width <= 64) return V::ci((uint64_t)e->c, e->width);
        if (e == X.T) return V::ci(1, 1);
        if (e == X.F) return V::ci(0, 1);
        return V::ex(e);
    }
    E dbl(double d) { if (ieee) return X.fconst(d); if (std::isnan(d) || std::isinf(d)) return X.rdouble(d); return X.rconst(snapDouble(d)); }
    bool isD(E e) { return e->sort == Sort::Real || e->sort == Sort::FP; }

    // ---------------------------------------------------------- variable sets for slicing
    std::unordered_map<E, std::shared_ptr<std::set<uint64_t>>> vs;
    std::unordered_map<uint32_t, std::shared_ptr<std::set<uint64_t>>> avs;
    std::shared_ptr<std::set<uint64_t>> atomVars(uint32_t id)
    {
        auto it = avs.find(id);
        if (it != avs.end()) return it->second;
        auto s = std::make_shared<std::set<uint64_t>>();
        const Atom& a = *X.atoms[id];
        if (a.kind == AK::Var) s->insert((1ull << 40) + id);
        if (a.kind == AK::Uf) s->insert((2ull << 40) + (std::hash<std::string>()(a.name) & 0xffffffffull));
        for (E e : a.args) { auto t = vars(e); s->insert(t->begin(), t->end()); }
        return avs[id] = s;
    }
    std::shared_ptr<std::set<uint64_t>> vars(E e)
    {
        auto it = vs.find(e);
        if (it != vs.end()) return it->second;
        auto s = std::make_shared<std::set<uint64_t>>();
        if (e->op == Op::VAR || e->op == Op::FVAR || e->op == Op::BVAR) s->insert(e->id);
        for (auto& t : e->p) for (auto& f : t.m->f) { auto u = atomVars(f.first); s->insert(u->begin(), u->end()); }
        for (E c : e->k) { auto u = vars(c); s->insert(u->begin(), u->end()); }
        return vs[e] = s;
    }
    std::vector<E> slice(const std::vector<E>& path, E c)
    {
        std::set<uint64_t> w = *vars(c);
        std::vector<E> out;
        std::vector<bool> in(path.size(), false);
        bool ch = true;
        while (ch) {
            ch = false;
            for (size_t i = 0; i < path.size(); ++i) {
                if (in[i]) continue;
                auto v = vars(path[i]);
                bool hit = false;
                for (auto x : *v) if (w.count(x)) { hit = true; break; }
                if (!hit) continue;
                in[i] = true; ch = true;
                w.insert(v->begin(), v->end());
            }
        }
        for (size_t i = 0; i < path.size(); ++i) if (in[i]) out.push_back(path[i]);
        return out;
    }

    // ---------------------------------------------------------- path conditions
    void addFact(State& s, E c)
    {
        if (c == X.T) return;
        if (c->op == Op::BAND) { addFact(s, c->k[0]); addFact(s, c->k[1]); s.facts.insert(c); return; }
        if (s.facts.insert(c).second) s.path.push_back(c);
    }
    bool implied(State& s, E c) { return c == X.T || s.facts.count(c); }
    // sign of a polynomial known from a fact about one of its factors
    std::map<std::pair<E, E>, uint8_t> facMemo;
    uint8_t factorSign(State& s, E p)
    {
        uint8_t m = SANY;
        if (p->p.size() < 2 || p->p.size() > 3000) return m;
        for (E f : s.path) {
            E g = f; bool ne = false;
            if (g->op == Op::BNOT) { g = g->k[0]; ne = true; }
            if (g->op != Op::PLT0 && g->op != Op::PLE0 && g->op != Op::PEQ0) continue;
            if (ne && g->op != Op::PEQ0) continue;
            E qd = g->k[0];
            if (qd->p.size() < 2 || qd->p.size() > 150 || qd->p.size() > 4 * p->p.size()) continue;
            auto key = std::make_pair(p, qd);
            auto it = facMemo.find(key);
            uint8_t rs;
            if (it != facMemo.end()) rs = it->second;
            else {
                auto vp = vars(p), vq = vars(qd);
                bool sub = true;
                for (auto x : *vq) if (!vp->count(x)) { sub = false; break; }
                E r = sub ? X.exactDiv(p, qd) : nullptr;
                rs = r ? (uint8_t)(X.sgn(r) | 16) : (uint8_t)0;
                facMemo[key] = rs;
            }
            if (!(rs & 16)) continue;
            if (g->op == Op::PLE0 && s.facts.count(X.ple0(X.neg(qd)))) return SZERO;
            rs &= 15;
            uint8_t qs = ne ? (uint8_t)(SPOS | SNEG) : g->op == Op::PLT0 ? (uint8_t)SNEG : g->op == Op::PEQ0 ? (uint8_t)SZERO : (uint8_t)(SNEG | SZERO);
            m &= Ctx::smul(rs, qs);
        }
        return m;
    }
    // 1 implied, 0 refuted, -1 unknown
    int bySign(State& s, E c)
    {
        bool ne = false;
        E g = c;
        if (g->op == Op::BNOT) { ne = true; g = g->k[0]; }
        if (g->op != Op::PLT0 && g->op != Op::PLE0 && g->op != Op::PEQ0) return -1;
        uint8_t m = factorSign(s, g->k[0]), want = g->op == Op::PLT0 ? (uint8_t)SNEG : g->op == Op::PLE0 ? (uint8_t)(SNEG | SZERO) : (uint8_t)SZERO;
        int r = -1;
        if (!(m & ~want & SANY)) r = 1;
        else if (!(m & want)) r = 0;
        return r < 0 ? r : ne ? 1 - r : r;
    }
    // use an equality on the path to eliminate a variable of c
    E byEquality(State& s, E c)
    {
        for (E f : s.path) {
            E p = nullptr;
            if (f->op == Op::PEQ0) p = f->k[0];
            else if (f->op == Op::PLE0 && s.facts.count(X.ple0(X.neg(f->k[0])))) p = f->k[0];
            if (!p || p->p.size() > 200) continue;
            E best = nullptr;
            for (auto& sol : X.solveFor(p)) {
                try {
                    Ctx::Subst S;
                    S.v = sol.first; S.val = sol.second;
                    E r = X.subst(c, S);
                    if (r == X.T || r == X.F) return r;
                    if (!best) best = r;
                } catch (Unsupported&) { Ctx::poll_stop(); }
            }
            if (best) c = best;
        }
        return c;
    }
    std::unordered_map<std::string, Res> qcache;
    // recent models (as doubles/ints) reused to skip SAT queries for bit-vector paths
    Res feasible(State& s, E c)
    {
        if (c == X.T) return SAT;
        if (c == X.F) return UNSAT;
        if (s.facts.count(c)) return SAT;
        if (s.facts.count(X.bnot(c))) return UNSAT;
        auto sl = slice(s.path, c);
        std::vector<uint32_t> ids;
        for (E e : sl) ids.push_back(e->id);
        std::sort(ids.begin(), ids.end());
        std::string key((char*)ids.data(), ids.size() * 4);
        key += ":" + std::to_string(c->id);
        auto it = qcache.find(key);
        if (it != qcache.end()) { S.st.cached++; return it->second; }
        // cheap witness search for conditions over reals
        sl.push_back(c);
        Res r = evalSat(sl) ? SAT : S.quick(sl);
        qcache[key] = r;
        return r;
    }
    // decide a branch condition in the current state; may fork
    bool showDec = getenv("HX_SHOWDEC") != nullptr;
    bool decide(E c)
    {
        State& s = *cur;
        if (c == X.T) return true;
        if (c == X.F) return false;
        if (s.facts.count(c)) return true;
        E nc = X.bnot(c);
        if (s.facts.count(nc)) return false;
        if (c->op == Op::PLE0 && s.facts.count(X.plt0(c->k[0]))) return true;
        if (c->op == Op::PLT0 && s.facts.count(X.plt0(X.neg(c->k[0])))) return false;
        if (c->op == Op::BAND) { if (s.facts.count(X.bnot(c->k[0])) || s.facts.count(X.bnot(c->k[1]))) return false; }
        int bs = bySign(s, c);
        if (bs >= 0) { s.facts.insert(bs ? c : nc); return bs; }
        Res rt = feasible(s, c);
        if (rt == UNSAT) { s.facts.insert(nc); return false; }
        Res rf = feasible(s, nc);
        if (rf == UNSAT) { s.facts.insert(c); return true; }
        if (now() - tStart > timeLimit) throw Incomplete{"time limit"};
        if (showDec) { bool b; fprintf(stderr, "FORK at %s (%d/%d)\n%s", where().c_str(), (int)rt, (int)rf, S.text({c}, nullptr, {}, b).c_str()); }
        auto o = std::make_unique<State>(s);
        o->id = ++nextId;
        addFact(*o, nc);
        o->lastObj.reset();
        work.push_back(std::move(o));
        ++forks; if (verbose) { fprintf(stderr, "fork at %s", where().c_str()); for (auto& x : stack()) fprintf(stderr, " < %.60s", x.c_str()); fprintf(stderr, "\n"); }
        addFact(s, c);
        return true;
    }
    uint64_t concretize(E e)
    {
        while (true) {
            if (e->op == Op::CONST) return (uint64_t)e->c;
            if (e->sort == Sort::Bool) return decide(e);
            if (e->op == Op::ITE) { e = decide(e->k[0]) ? e->k[1] : e->k[2]; continue; }
            State& s = *cur;
            // already pinned?
            for (E f : s.path) if (f->op == Op::EQ && f->k[0] == e && f->k[1]->op == Op::CONST) return (uint64_t)f->k[1]->c;
            if (e->op == Op::ZEXT) { e = e->k[0]; continue; }
            if (e->op == Op::ADD && e->k[1]->op == Op::CONST) { uint64_t m = e->width >= 64 ? ~0ull : ((1ull << e->width) - 1); return (concretize(e->k[0]) + (uint64_t)e->k[1]->c) & m; }
            Model m;
            auto sl = slice(s.path, e);
            Res r = S.quick(sl, &m, {e}, 20);
            if (r == UNSAT) throw Kill{};
            if (r != SAT) throw Incomplete{"cannot concretise a symbolic value"};
            Render R(X); std::string n = R.r(e); if (n[0] == '|') n = n.substr(1, n.size() - 2);
            auto it = m.find(n);
            if (it == m.end()) throw Incomplete{"no model value for a symbolic index"};
            uint64_t v = 0;
            if (it->second.substr(0, 2) == "#x") v = strtoull(it->second.c_str() + 2, nullptr, 16);
            else if (it->second.substr(0, 2) == "#b") v = strtoull(it->second.c_str() + 2, nullptr, 2);
            else throw Incomplete{"model value " + it->second};
            if (decide(X.eq(e, X.bv(v, e->width)))) return v;
        }
    }
    uint64_t cint(const V& v)
    {
        if (v.k == V::CINT) return v.c;
        if (v.k == V::EXPR && v.e->sort == Sort::BV) return concretize(v.e);
        if (v.k == V::EXPR && v.e->sort == Sort::Bool) return decide(v.e);
        if (v.k == V::UNDEF) throw PathError{"uninit", "use of an uninitialised value"};
        throw Unsupported("expected an integer");
    }

    // ---------------------------------------------------------- evaluation with doubles (model search)
    struct Ev {
        std::unordered_map<E, double> d; std::unordered_map<E, u128> b; std::unordered_map<uint32_t, double> at;
        std::unordered_map<std::string, double> vals; std::mt19937_64 rng; int style = 0;
        bool bad = false;
    };
    double evVar(Ev& v, const Atom& a)
    {
        auto it = v.vals.find(a.name);
        if (it != v.vals.end()) return it->second;
        std::uniform_real_distribution<double> U(0, 1);
        double lo = a.haslo ? a.lo.get_d() : -4, hi = a.hashi ? a.hi.get_d() : (a.haslo ? a.lo.get_d() + 4 : 4);
        if (a.hashi && !a.haslo) lo = hi - 4;
        if (!(a.sign & SNEG) && lo < 0) lo = 0.125;
        if (hi > lo + 64) hi = lo + 64;
        double t = U(v.rng), x;
        if (v.style % 4 == 1) t = t * t * t;
        if (v.style % 4 == 2) t = std::floor(t * 8 + 0.5) / 8;
        x = lo + (hi - lo) * (0.001 + 0.998 * t);
        if (v.style % 4 == 3) x = std::round(x * 16) / 16;
        return v.vals[a.name] = x;
    }
    double evAtom(Ev& v, uint32_t id)
    {
        auto it = v.at.find(id);
        if (it != v.at.end()) return it->second;
        const Atom& a = *X.atoms[id];
        double r = 0;
        switch (a.kind) {
        case AK::Var: r = evVar(v, a); break;
        case AK::Sqrt: { double x = evR(v, a.args[0]); if (x < 0) v.bad = true; r = std::sqrt(x); break; }
        case AK::Def: r = evR(v, a.args[0]); break;
        case AK::Ite: r = evB(v, a.args[0]) ? evR(v, a.args[1]) : evR(v, a.args[2]); break;
        case AK::Uf: {
            std::vector<double> as;
            for (E e : a.args) as.push_back(e->sort == Sort::Real ? evR(v, e) : (double)evI(v, e));
            if (a.name == "cos" && as.size() == 1) { r = std::cos(as[0]); break; }
            if (a.name == "sin" && as.size() == 1) { r = std::sin(as[0]); break; }
            if (a.name == "exp" && as.size() == 1) { r = std::exp(as[0]); break; }
            if (a.name == "log" && as.size() == 1) { r = std::log(as[0]); break; }
            if (a.name == "pow" && as.size() == 2) { r = std::pow(as[0], as[1]); break; }
            if (a.name == "atan2" && as.size() == 2) { r = std::atan2(as[0], as[1]); break; }
            if (a.name == "tanh" && as.size() == 1) { r = std::tanh(as[0]); break; }
            if (a.name == "tofloat") { r = (double)(float)as[0]; break; }
            std::string k = a.name;
            for (double x : as) { char b[40]; snprintf(b, sizeof b, ",%.9g", x); k += b; }
            auto jt = v.vals.find(k);
            if (jt == v.vals.end()) { std::uniform_real_distribution<double> U(-4, 4); double x = U(v.rng); if (!(a.sign & SNEG)) x = std::fabs(x) + 0.01; jt = v.vals.emplace(k, x).first; }
            r = jt->second; break;
        }
        case AK::I2R: { u128 x = evI(v, a.args[0]); r = a.sgnd ? (double)Ctx::sx(x, a.args[0]->width) : (double)x; break; }
        case AK::Floor: r = std::floor(evR(v, a.args[0])); break;
        }
        if (!std::isfinite(r)) v.bad = true;
        return v.at[id] = r;
    }
    double evR(Ev& v, E e)
    {
        auto it = v.d.find(e);
        if (it != v.d.end()) return it->second;
        double s = 0;
        if (e->op != Op::POLY) { v.bad = true; return 0; }
        for (auto& t : e->p) {
            double x = t.c.get_d();
            for (auto& f : t.m->f) { double y = evAtom(v, f.first); x *= f.second == 1 ? y : f.second == -1 ? 1 / y : std::pow(y, f.second); }
            s += x;
        }
        if (!std::isfinite(s)) v.bad = true;
        return v.d[e] = s;
    }
    u128 evI(Ev& v, E e)
    {
        if (e->op == Op::CONST) return e->c;
        auto it = v.b.find(e);
        if (it != v.b.end()) return it->second;
        u128 r = 0;
        switch (e->op) {
        case Op::VAR: {
            auto jt = v.vals.find(e->name);
            if (jt == v.vals.end()) { uint64_t x = v.rng(); if (v.style % 2) x %= 16; jt = v.vals.emplace(e->name, (double)(x & Ctx::mask(e->width) & 0xffffffffffffull)).first; }
            r = (u128)jt->second & Ctx::mask(e->width);
            break;
        }
        case Op::EXTRACT: r = evI(v, e->k[0]) >> e->aux2; break;
        case Op::ZEXT: r = evI(v, e->k[0]); break;
        case Op::SEXT: r = (u128)Ctx::sx(evI(v, e->k[0]), e->k[0]->width); break;
        case Op::CONCAT: r = (evI(v, e->k[0]) << e->k[1]->width) | evI(v, e->k[1]); break;
        case Op::ITE: r = evB(v, e->k[0]) ? evI(v, e->k[1]) : evI(v, e->k[2]); break;
        case Op::R2BV: r = (u128)(__int128)evR(v, e->k[0]); break;
        default:
            if (!(e->k.size() == 2 && Ctx::foldbv(e->op, e->width, evI(v, e->k[0]), evI(v, e->k[1]), r))) { v.bad = true; return 0; }
        }
        r &= Ctx::mask(e->width);
        return v.b[e] = r;
    }
    bool evB(Ev& v, E e)
    {
        switch (e->op) {
        case Op::BTRUE: return true;
        case Op::BFALSE: return false;
        case Op::BNOT: return !evB(v, e->k[0]);
        case Op::BAND: return evB(v, e->k[0]) && evB(v, e->k[1]);
        case Op::BOR: return evB(v, e->k[0]) || evB(v, e->k[1]);
        case Op::BITE: return evB(v, e->k[0]) ? evB(v, e->k[1]) : evB(v, e->k[2]);
        case Op::EQ: return evI(v, e->k[0]) == evI(v, e->k[1]);
        case Op::ULT: return evI(v, e->k[0]) < evI(v, e->k[1]);
        case Op::ULE: return evI(v, e->k[0]) <= evI(v, e->k[1]);
        case Op::SLT: return Ctx::sx(evI(v, e->k[0]), e->k[0]->width) < Ctx::sx(evI(v, e->k[1]), e->k[1]->width);
        case Op::SLE: return Ctx::sx(evI(v, e->k[0]), e->k[0]->width) <= Ctx::sx(evI(v, e->k[1]), e->k[1]->width);
        // strict with a safety margin so that rounding cannot decide
        case Op::PLT0: return evR(v, e->k[0]) < -1e-9 * mag(v, e->k[0]);
        case Op::PLE0: return evR(v, e->k[0]) < -1e-9 * mag(v, e->k[0]) || evR(v, e->k[0]) == 0;
        case Op::PEQ0: { double x = evR(v, e->k[0]); return x == 0; }
        default: v.bad = true; return false;
        }
    }
    double mag(Ev& v, E e)
    {
        double s = 0;
        for (auto& t : e->p) {
            double x = std::fabs(t.c.get_d());
            for (auto& f : t.m->f) x *= std::pow(std::fabs(evAtom(v, f.first)), f.second);
            s += x;
        }
        return s;
    }
    std::mt19937_64 rngBase{12345};
    std::vector<std::unordered_map<std::string, double>> pool; // assignments that satisfied earlier queries
    bool hasRealVars(const std::vector<E>& cs)
    {
        for (E c : cs) for (auto x : *vars(c)) if (x >> 40) return true;
        return false;
    }
    bool evalSat(const std::vector<E>& cs)
    {
        if (ieee || !hasRealVars(cs)) return false;
        for (int t = 0; t < 6 + (int)pool.size(); ++t) {
            Ev v;
            bool fromPool = t < (int)pool.size();
            if (fromPool) v.vals = pool[pool.size() - 1 - t];
            v.rng.seed(rngBase()); v.style = t;
            bool ok = true;
            for (E c : cs) if (!evB(v, c) || v.bad) { ok = false; break; }
            if (ok) { S.st.cached++; if (!fromPool) { pool.push_back(v.vals); if (pool.size() > 8) pool.erase(pool.begin()); } return true; }
        }
        return false;
    }

    // ---------------------------------------------------------- memory
    uint64_t alloc(State& s, uint64_t n, uint8_t kind, const std::string& name, bool zero = false)
    {
        if (n > (1ull << 28)) throw PathError{"memory", "allocation of " + std::to_string(n) + " bytes"};
        auto o = std::make_shared<Obj>();
        o->init(n);
        o->kind = kind; o->name = name;
        if (zero) std::fill(o->tag.begin(), o->tag.end(), TC);
        o->base = s.next;
        s.next += ((n + 15) / 16) * 16 + 64;
        s.mem[o->base] = o;
        return o->base;
    }
    OP& findRef(State& s, uint64_t a, uint64_t n, const char* what)
    {
        auto it = s.mem.upper_bound(a);
        if (it != s.mem.begin()) {
            --it;
            Obj& o = *it->second;
            if (a >= o.base && a + n <= o.base + o.size) return it->second;
            if (a >= o.base && a <= o.base + o.size + 32) {
                throw PathError{"memory", std::string(what) + " of " + std::to_string(n) + " bytes out of bounds of object '" + o.name + "' (size " + std::to_string(o.size) + ", offset " + std::to_string(a - o.base) + ")"};
            }
        }
        char b[100];
        snprintf(b, sizeof b, "%s of %llu bytes at invalid address 0x%llx", what, (unsigned long long)n, (unsigned long long)a);
        throw PathError{"memory", b};
    }
    const Obj& rd(State& s, uint64_t a, uint64_t n)
    {
        if (s.lastObj && a >= s.lastObj->base && a + n <= s.lastObj->base + s.lastObj->size) return *s.lastObj;
        OP& o = findRef(s, a, n, "read");
        return *o;
    }
    Obj& wr(State& s, uint64_t a, uint64_t n)
    {
        OP& o = findRef(s, a, n, "write");
        if (o->ro) throw PathError{"memory", "write to read-only object '" + o->name + "'"};
        if (o.use_count() > 1) o = std::make_shared<Obj>(*o);
        return *o;
    }
    void raceAccess(State& s, uint64_t a, uint64_t n, bool write, const Obj& o)
    {
        if (!s.par || s.iter < 0 || o.kind == 1 || o.ro) return;
        for (uint64_t g = a; g < a + n; g += 1) {
            if (g != a && (g & 7)) { if (n >= 8) continue; }
            RaceInfo& r = s.race[g];
            if (write) {
                if ((r.w >= -1 && r.w != s.iter) || (r.r >= -1 && (r.rmulti || r.r != s.iter))) throw PathError{"race", "two iterations of a parallel loop access the same element of '" + o.name + "' and one writes it"};
                r.w = s.iter;
            } else {
                if (r.w >= -1 && r.w != s.iter) throw PathError{"race", "an iteration of a parallel loop reads an element of '" + o.name + "' written by another"};
                if (r.r >= -1 && r.r != s.iter) r.rmulti = true;
                r.r = s.iter;
            }
        }
    }
    static void clearSym(Obj& o, Ctx& X, uint64_t off, uint64_t n)
    { // about to overwrite [off, off+n): split slots at the borders
        if (o.slot.empty()) return;
        auto split = [&](uint64_t so) {
            uint64_t i = so / 8;
            E e = o.slot[i];
            for (int b = 0; b < 8; ++b) {
                if (o.tag[so + b] != TS) continue;
                if (e->sort == Sort::BV) {
                    E x = X.extract(e, 8 * b + 7, 8 * b);
                    if (x->op == Op::CONST) { o.tag[so + b] = TC; o.data[so + b] = (uint8_t)x->c; }
                    else { if (o.bsym.empty()) o.bsym.resize(o.size); o.bsym[so + b] = x; o.tag[so + b] = TB; }
                } else o.tag[so + b] = TU;
            }
        };
        uint64_t f = off & ~7ull, l = (off + n - 1) & ~7ull;
        if (f != off && f + 8 <= o.size && o.tag[f] == TS) split(f);
        if (((off + n) & 7) && l + 8 <= o.size && o.tag[off + n < o.size ? off + n : o.size - 1] == TS && o.tag[l + 7] == TS) split(l);
    }
    // Padding travels inside wider integers when a struct is passed in registers: a
    // byte that is not initialised becomes a marker symbol there, and becomes
    // uninitialised again when it is stored or read alone.
    uint64_t nundef = 0;
    E undefByte() { return X.bvvar("undef!" + std::to_string(nundef++), 8); }
    static bool isUndefByte(E e) { return e->op == Op::VAR && e->name.compare(0, 6, "undef!") == 0; }
    void storeByte(Obj& o, uint64_t off, E e)
    {
        if (isUndefByte(e)) { o.tag[off] = TU; return; }
        if (e->op == Op::CONST) { o.tag[off] = TC; o.data[off] = (uint8_t)e->c; }
        else { if (o.bsym.empty()) o.bsym.resize(o.size); o.bsym[off] = e; o.tag[off] = TB; }
    }
    void store(State& s, uint64_t a, const V& v, Type* ty)
    {
        if (auto* st = dyn_cast<StructType>(ty)) {
            const StructLayout* L = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); ++i) store(s, a + L->getElementOffset(i), v.k == V::AGG ? (*v.a)[i] : V(), st->getElementType(i));
            return;
        }
        if (auto* at = dyn_cast<ArrayType>(ty)) {
            uint64_t es = DL->getTypeAllocSize(at->getElementType());
            for (unsigned i = 0; i < at->getNumElements(); ++i) store(s, a + i * es, v.k == V::AGG ? (*v.a)[i] : V(), at->getElementType());
            return;
        }
        if (auto* vt = dyn_cast<FixedVectorType>(ty)) {
            uint64_t es = DL->getTypeAllocSize(vt->getElementType());
            for (unsigned i = 0; i < vt->getNumElements(); ++i) store(s, a + i * es, v.k == V::AGG ? (*v.a)[i] : V(), vt->getElementType());
            return;
        }
        uint64_t n = DL->getTypeStoreSize(ty);
        Obj& o = wr(s, a, n);
        raceAccess(s, a, n, true, o);
        uint64_t off = a - o.base;
        clearSym(o, X, off, n);
        if (v.k == V::UNDEF) { std::fill(o.tag.begin() + off, o.tag.begin() + off + n, TU); return; }
        if (v.k == V::CINT) {
            for (uint64_t i = 0; i < n; ++i) { o.data[off + i] = i < 8 ? (uint8_t)(v.c >> (8 * i)) : 0; o.tag[off + i] = TC; }
            return;
        }
        E e = v.e;
        if (e->sort == Sort::Bool) e = X.b2bv(e, 8);
        if (e->op == Op::FCONST || (e->op == Op::CONST)) {
            u128 c = e->c;
            for (uint64_t i = 0; i < n; ++i) { o.data[off + i] = (uint8_t)(c >> (8 * i)); o.tag[off + i] = TC; }
            return;
        }
        if (n == 8 && (off & 7) == 0 && (isD(e) || e->width == 64)) {
            if (o.slot.empty()) o.slot.resize(o.size / 8 + 1);
            o.slot[off / 8] = e;
            std::fill(o.tag.begin() + off, o.tag.begin() + off + 8, TS);
            return;
        }
        if (isD(e)) {
            double cd = 0;
            bool cc = Ctx::isfc(e) ? (cd = Ctx::fval(e), true) : !X.special(e) && Ctx::isrc(e) && mpq_class(cd = Ctx::rcv(e).get_d()) == Ctx::rcv(e);
            if (ty->isFloatTy()) {
                if (!cc || (double)(float)cd != cd) throw Unsupported("store of a symbolic float");
                float cf = (float)cd;
                uint32_t b; memcpy(&b, &cf, 4);
                for (uint64_t i = 0; i < n; ++i) { o.data[off + i] = (uint8_t)(b >> (8 * i)); o.tag[off + i] = TC; }
                return;
            }
            if (e->sort == Sort::FP) e = X.fbits(e);
            else if (cc && n == 8) { uint64_t b; memcpy(&b, &cd, 8); e = X.bv(b, 64); }
            else throw Unsupported("unaligned store of a symbolic double");
        }
        if (e->width < 8 * n) e = X.zext(e, 8 * (unsigned)n);
        for (uint64_t i = 0; i < n; ++i) storeByte(o, off + i, X.extract(e, 8 * i + 7, 8 * i));
    }
    E byteAt(const Obj& o, uint64_t off)
    {
        switch (o.tag[off]) {
        case TC: return X.bv(o.data[off], 8);
        case TB: return o.bsym[off];
        case TS: {
            E e = o.slot[off / 8];
            if (e->sort == Sort::Real) {
                if (Ctx::isrc(e)) { double d = Ctx::rcv(e).get_d(); uint64_t b; memcpy(&b, &d, 8); return X.bv(b >> (8 * (off & 7)), 8); }
                throw Unsupported("byte access to a symbolic real");
            }
            if (e->sort == Sort::FP) e = X.fbits(e);
            return X.extract(e, 8 * (off & 7) + 7, 8 * (off & 7));
        }
        default: return nullptr;
        }
    }
    V load(State& s, uint64_t a, Type* ty)
    {
        auto agg = [&](unsigned n, auto off, auto el) {
            V v; v.k = V::AGG; v.a = std::make_shared<std::vector<V>>();
            for (unsigned i = 0; i < n; ++i) v.a->push_back(load(s, a + off(i), el(i)));
            return v;
        };
        if (auto* st = dyn_cast<StructType>(ty)) { const StructLayout* L = DL->getStructLayout(st); return agg(st->getNumElements(), [&](unsigned i) -> uint64_t { return L->getElementOffset(i); }, [&](unsigned i) { return st->getElementType(i); }); }
        if (auto* at = dyn_cast<ArrayType>(ty)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); return agg(at->getNumElements(), [&](unsigned i) { return i * es; }, [&](unsigned) { return at->getElementType(); }); }
        if (auto* vt = dyn_cast<FixedVectorType>(ty)) { uint64_t es = DL->getTypeAllocSize(vt->getElementType()); return agg(vt->getNumElements(), [&](unsigned i) { return i * es; }, [&](unsigned) { return vt->getElementType(); }); }
        uint64_t n = DL->getTypeStoreSize(ty);
        const Obj& o = rd(s, a, n);
        raceAccess(s, a, n, false, o);
        uint64_t off = a - o.base;
        bool isdbl = ty->isDoubleTy();
        if (ty->isFloatTy()) {
            uint32_t b = 0;
            for (int i = 0; i < 4; ++i) { if (o.tag[off + i] == TU) return V(); if (o.tag[off + i] != TC) throw Unsupported("float load"); b |= (uint32_t)o.data[off + i] << (8 * i); }
            float f; memcpy(&f, &b, 4);
            return V::ex(dbl((double)f));
        }
        if (ty->isX86_FP80Ty()) throw Unsupported("long double load");
        if (n == 8 && (off & 7) == 0 && o.tag[off] == TS && o.tag[off + 7] == TS) {
            E e = o.slot[off / 8];
            if (isdbl && e->sort == Sort::BV) e = bits2d(e);
            return fromE(e); // an i64 load of a real keeps the real ("bits of")
        }
        bool allC = true, allU = true;
        for (uint64_t i = 0; i < n; ++i) {
            if (o.tag[off + i] != TU) allU = false;
            else if (isdbl || !ty->isIntegerTy()) return V();
            if (o.tag[off + i] != TC) allC = false;
        }
        if (allU) return V();
        unsigned bits = isdbl ? 64 : ty->isPointerTy() ? 64 : ty->getIntegerBitWidth();
        if (allC) {
            if (n <= 8) {
                uint64_t c = 0;
                for (uint64_t i = 0; i < n; ++i) c |= (uint64_t)o.data[off + i] << (8 * i);
                if (isdbl) { double d; memcpy(&d, &c, 8); return V::ex(dbl(d)); }
                return V::ci(c, bits);
            }
            u128 c = 0;
            for (uint64_t i = 0; i < n; ++i) c |= (u128)o.data[off + i] << (8 * i);
            return fromE(X.bv(c, bits));
        }
        auto byteOr = [&](uint64_t q) { return o.tag[q] == TU ? undefByte() : byteAt(o, q); };
        E r = byteOr(off);
        if (n == 1 && isUndefByte(r)) return V();
        for (uint64_t i = 1; i < n; ++i) r = X.concat(byteOr(off + i), r);
        if (bits < r->width) { if (bits == 1) return fromE(X.bnot(X.eq(X.extract(r, 0, 0), X.bv(0, 1)))); r = X.extract(r, bits - 1, 0); }
        if (isdbl) r = bits2d(r);
        return fromE(r);
    }
    E bits2d(E e)
    {
        if (isD(e)) return e;
        if (e->op == Op::CONST) { uint64_t b = (uint64_t)e->c; double d; memcpy(&d, &b, 8); return dbl(d); }
        if (ieee) return X.fop(Op::FFROMBITS, {e});
        throw Unsupported("symbolic bits reinterpreted as a real");
    }
    void copyMem(State& s, uint64_t d, uint64_t a, uint64_t n)
    {
        if (n == 0) return;
        OP src = findRef(s, a, n, "read"); // keep alive
        raceAccess(s, a, n, false, *src);
        Obj& t = wr(s, d, n);
        const Obj& o = *src;
        raceAccess(s, d, n, true, t);
        uint64_t so = a - o.base, to = d - t.base;
        if (&o == &t) {
            Obj tmp = o; // overlap-safe copy
            copyInto(t, to, tmp, so, n);
        } else copyInto(t, to, o, so, n);
    }
    void copyInto(Obj& t, uint64_t to, const Obj& o, uint64_t so, uint64_t n)
    {
        clearSym(t, X, to, n);
        bool al = (to & 7) == (so & 7);
        for (uint64_t i = 0; i < n;) {
            if (o.tag[so + i] == TS) {
                if (al && ((so + i) & 7) == 0 && i + 8 <= n && o.tag[so + i + 7] == TS) {
                    if (t.slot.empty()) t.slot.resize(t.size / 8 + 1);
                    t.slot[(to + i) / 8] = o.slot[(so + i) / 8];
                    std::fill(t.tag.begin() + to + i, t.tag.begin() + to + i + 8, TS);
                    i += 8;
                    continue;
                }
                storeByte(t, to + i, byteAt(o, so + i));
                ++i;
                continue;
            }
            t.tag[to + i] = o.tag[so + i];
            if (o.tag[so + i] == TC) t.data[to + i] = o.data[so + i];
            else if (o.tag[so + i] == TB) { if (t.bsym.empty()) t.bsym.resize(t.size); t.bsym[to + i] = o.bsym[so + i]; }
            ++i;
        }
    }
    void setMem(State& s, uint64_t d, E byte, uint64_t n)
    {
        if (!n) return;
        Obj& t = wr(s, d, n);
        raceAccess(s, d, n, true, t);
        uint64_t off = d - t.base;
        clearSym(t, X, off, n);
        for (uint64_t i = 0; i < n; ++i) storeByte(t, off + i, byte);
    }
    std::string cstr(State& s, uint64_t a)
    {
        std::string r;
        while (true) {
            const Obj& o = rd(s, a, 1);
            uint64_t off = a - o.base;
            if (o.tag[off] == TC) { if (!o.data[off]) return r; r += (char)o.data[off]; }
            else if (o.tag[off] == TU) throw PathError{"uninit", "uninitialised string byte"};
            else { uint64_t v = concretize(byteAt(o, off)); if (!v) return r; r += (char)v; }
            ++a;
            if (r.size() > 100000) throw Unsupported("string too long");
        }
    }

    // ---------------------------------------------------------- constants and globals
    uint64_t addrOf(const GlobalValue* g)
    {
        if (auto* al = dyn_cast<GlobalAlias>(g)) return addrOf(cast<GlobalValue>(al->getAliasee()->stripPointerCasts()));
        auto it = gaddr.find(g);
        if (it != gaddr.end()) return it->second;
        if (g->hasExternalWeakLinkage()) return gaddr[g] = 0;
        uint64_t n = 16;
        if (auto* v = dyn_cast<GlobalVariable>(g)) { n = DL->getTypeAllocSize(v->getValueType()); if (v->isDeclaration() && n < 256) n = 256; }
        uint64_t a = nextG;
        nextG += ((n + 15) / 16) * 16 + 64;
        gaddr[g] = a;
        gname[a] = g;
        if (auto* f = dyn_cast<Function>(g)) faddr[a] = f;
        return a;
    }
    V constant(const Constant* c)
    {
        if (auto* i = dyn_cast<ConstantInt>(c)) {
            if (i->getBitWidth() <= 64) return V::ci(i->getZExtValue(), i->getBitWidth());
            u128 v = (u128)i->getValue().extractBitsAsZExtValue(64, 0) | ((u128)i->getValue().extractBitsAsZExtValue(std::min(64u, i->getBitWidth() - 64), 64) << 64);
            return V::ex(X.bv(v, i->getBitWidth()));
        }
        if (auto* f = dyn_cast<ConstantFP>(c)) {
            if (f->getType()->isDoubleTy()) return V::ex(dbl(f->getValueAPF().convertToDouble()));
            if (f->getType()->isFloatTy()) return V::ex(dbl((double)f->getValueAPF().convertToFloat()));
            if (f->getType()->isX86_FP80Ty()) { APFloat v = f->getValueAPF(); bool l; v.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &l); return V::ex(dbl(v.convertToDouble())); }
            return V();
        }
        if (isa<ConstantPointerNull>(c)) return V::ci(0, 64);
        if (auto* u = dyn_cast<UndefValue>(c)) {
            Type* t = u->getType();
            unsigned n = 0;
            if (auto* st = dyn_cast<StructType>(t)) n = st->getNumElements();
            else if (auto* at = dyn_cast<ArrayType>(t)) n = at->getNumElements();
            else if (auto* vt = dyn_cast<FixedVectorType>(t)) n = vt->getNumElements();
            else return V();
            V v; v.k = V::AGG; v.a = std::make_shared<std::vector<V>>();
            for (unsigned i = 0; i < n; ++i) v.a->push_back(constant(u->getElementValue(i)));
            return v;
        }
        if (auto* g = dyn_cast<GlobalValue>(c)) return V::ci(addrOf(g), 64);
        if (isa<ConstantAggregateZero>(c) || isa<ConstantAggregate>(c) || isa<ConstantDataSequential>(c)) {
            V v; v.k = V::AGG; v.a = std::make_shared<std::vector<V>>();
            unsigned n;
            if (auto* st = dyn_cast<StructType>(c->getType())) n = st->getNumElements();
            else if (auto* at = dyn_cast<ArrayType>(c->getType())) n = at->getNumElements();
            else n = cast<FixedVectorType>(c->getType())->getNumElements();
            for (unsigned i = 0; i < n; ++i) v.a->push_back(constant(c->getAggregateElement(i)));
            return v;
        }
        if (auto* ce = dyn_cast<ConstantExpr>(c)) {
            switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                APInt off(64, 0);
                if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) throw Unsupported("non-constant constant GEP");
                V b = constant(cast<Constant>(ce->getOperand(0)));
                return V::ci(b.c + (uint64_t)off.getSExtValue(), 64);
            }
            case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: {
                V b = constant(ce->getOperand(0));
                if (ce->getType()->isIntegerTy()) return V::ci(b.c, ce->getType()->getIntegerBitWidth());
                return b;
            }
            case Instruction::Add: case Instruction::Sub: {
                V a = constant(ce->getOperand(0)), b = constant(ce->getOperand(1));
                return V::ci(ce->getOpcode() == Instruction::Add ? a.c + b.c : a.c - b.c, a.w);
            }
            case Instruction::Trunc: { V a = constant(ce->getOperand(0)); return V::ci(a.c, ce->getType()->getIntegerBitWidth()); }
            default: throw Unsupported(std::string("constant expression ") + ce->getOpcodeName());
            }
        }
        std::string t; raw_string_ostream os(t); c->print(os);
        throw Unsupported("constant " + os.str());
    }
    void initGlobals()
    {
        for (auto& g : M->globals()) {
            uint64_t a = addrOf(&g);
            if (!a) continue;
            auto o = std::make_shared<Obj>();
            uint64_t n = DL->getTypeAllocSize(g.getValueType());
            if (g.isDeclaration() && n < 256) n = 256;
            o->init(n);
            o->base = a; o->kind = 2; o->name = demangle(g.getName().str());
            std::fill(o->tag.begin(), o->tag.end(), TC);
            init.mem[a] = o;
            if (g.hasInitializer() && !g.getInitializer()->isNullValue()) {
                if (g.getName() == "llvm.global_ctors" || g.getName() == "llvm.used" || g.getName() == "llvm.compiler.used") continue;
                storeConst(init, a, g.getInitializer());
            }
            if (g.isConstant()) init.mem[a]->ro = true;
        }
    }
    void storeConst(State& s, uint64_t a, const Constant* c)
    {
        if (auto* ds = dyn_cast<ConstantDataSequential>(c)) {
            if (ds->getElementType()->isIntegerTy()) {
                StringRef raw = ds->getRawDataValues();
                Obj& o = wr(s, a, raw.size());
                for (size_t i = 0; i < raw.size(); ++i) { o.data[a - o.base + i] = (uint8_t)raw[i]; o.tag[a - o.base + i] = TC; }
                return;
            }
        }
        store(s, a, constant(c), c->getType());
    }

    // ---------------------------------------------------------- decoding
    DFunc* decode(const Function* F)
    {
        auto it = dfs.find(F);
        if (it != dfs.end()) return it->second.get();
        auto d = std::make_unique<DFunc>();
        d->F = F;
        d->name = demangle(F->getName().str());
        if (auto* sp = F->getSubprogram()) {
            std::string p = (sp->getFilename().startswith("/") ? "" : sp->getDirectory().str() + "/") + sp->getFilename().str();
            d->repo = p.rfind(repoPrefix, 0) == 0;
        }
        DenseMap<const Value*, int> num;
        DenseMap<const BasicBlock*, int> bn;
        int n = 0;
        for (auto& a : F->args()) num[&a] = n++;
        int nb = 0;
        for (auto& b : *F) { bn[&b] = nb++; for (auto& i : b) if (!i.getType()->isVoidTy()) num[&i] = n++; }
        d->nregs = n;
        auto opn = [&](const Value* v) {
            Opn o;
            if (auto* c = dyn_cast<Constant>(v)) o.cv = constant(c);
            else if (num.count(v)) o.reg = num[v];
            return o;
        };
        for (auto& b : *F) {
            DBlock db;
            for (auto& i : b) {
                if (auto* p = dyn_cast<PHINode>(&i)) {
                    DPhi ph; ph.dst = num[p];
                    for (unsigned k = 0; k < p->getNumIncomingValues(); ++k) ph.in.push_back({bn[p->getIncomingBlock(k)], opn(p->getIncomingValue(k))});
                    db.phis.push_back(std::move(ph));
                    continue;
                }
                if (isa<DbgInfoIntrinsic>(&i)) continue;
                DInst x;
                x.I = &i; x.opc = i.getOpcode();
                if (!i.getType()->isVoidTy()) x.dst = num[&i];
                Type* t = i.getType();
                x.bits = t->isIntegerTy() ? t->getIntegerBitWidth() : t->isPointerTy() ? 64 : 0;
                if (auto* cb = dyn_cast<CallBase>(&i)) {
                    for (auto& a : cb->args()) { if (a->getType()->isMetadataTy()) x.ops.push_back(Opn()); else x.ops.push_back(opn(a)); }
                    const Value* cv = cb->getCalledOperand()->stripPointerCasts();
                    if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
                    x.callee = dyn_cast<Function>(cv);
                    if (!x.callee && !cb->isInlineAsm()) x.ops.push_back(opn(cb->getCalledOperand()));
                    if (auto* iv = dyn_cast<InvokeInst>(&i)) { x.b0 = bn[iv->getNormalDest()]; x.b1 = bn[iv->getUnwindDest()]; }
                } else if (auto* br = dyn_cast<BranchInst>(&i)) {
                    x.b0 = bn[br->getSuccessor(0)];
                    if (br->isConditional()) { x.ops.push_back(opn(br->getCondition())); x.b1 = bn[br->getSuccessor(1)]; }
                } else if (auto* sw = dyn_cast<SwitchInst>(&i)) {
                    x.ops.push_back(opn(sw->getCondition()));
                    x.b0 = bn[sw->getDefaultDest()];
                    for (auto& cs : sw->cases()) { x.ops.push_back(opn(cs.getCaseValue())); x.gidx.push_back({bn[cs.getCaseSuccessor()], 0}); }
                } else if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
                    x.ops.push_back(opn(g->getPointerOperand()));
                    for (auto gt = gep_type_begin(g), e = gep_type_end(g); gt != e; ++gt) {
                        Value* idx = gt.getOperand();
                        if (StructType* st = gt.getStructTypeOrNull()) { x.goff += (int64_t)DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
                        int64_t sc = (int64_t)DL->getTypeAllocSize(gt.getIndexedType());
                        if (auto* ci = dyn_cast<ConstantInt>(idx)) x.goff += ci->getSExtValue() * sc;
                        else { x.gidx.push_back({(int)x.ops.size(), sc}); x.ops.push_back(opn(idx)); }
                    }
                } else if (auto* al = dyn_cast<AllocaInst>(&i)) {
                    x.tsize = DL->getTypeAllocSize(al->getAllocatedType());
                    x.ops.push_back(opn(al->getArraySize()));
                } else {
                    for (auto& o : i.operands()) x.ops.push_back(opn(o.get()));
                }
                db.ins.push_back(std::move(x));
            }
            d->bl.push_back(std::move(db));
        }
        return (dfs[F] = std::move(d)).get();
    }

    // ---------------------------------------------------------- violations and obligations
    std::string inputText(const Input& in, const Model& m)
    {
        if (!in.e) return in.text;
        E e = in.e;
        if (e->op == Op::CONST) return std::to_string((long long)Ctx::sx(e->c, e->width));
        if (e->sort == Sort::Real && Ctx::isrc(e)) { char b[64]; snprintf(b, sizeof b, "%.17g", Ctx::rcv(e).get_d()); return b; }
        if (e->op == Op::FCONST) { char b[64]; snprintf(b, sizeof b, "%.17g", Ctx::fval(e)); return b; }
        if (e == X.PINF) return "inf";
        if (e == X.NINF) return "-inf";
        if (e == X.NAN_) return "nan";
        Render R(X);
        std::string n = R.r(e);
        if (n[0] == '|') n = n.substr(1, n.size() - 2);
        auto it = m.find(n);
        if (it == m.end()) return "?";
        return valText(it->second, e);
    }
    static double realVal(const std::string& s)
    {
        SexpParser P(s);
        P.ws();
        if (P.i < s.size() && s[P.i] == '(') {
            std::string body = s.substr(P.i + 1, s.size() - P.i - 2);
            SexpParser Q(body);
            std::string op = Q.any();
            std::string a = Q.any(), b = Q.any();
            if (op == "-") return b.empty() ? -realVal(a) : realVal(a) - realVal(b);
            if (op == "/") return realVal(a) / realVal(b);
            return NAN;
        }
        return strtod(s.c_str(), nullptr);
    }
    static std::string valText(const std::string& s, E e)
    {
        char b[64];
        if (e->sort == Sort::Real) { snprintf(b, sizeof b, "%.17g", realVal(s)); return b; }
        if (e->sort == Sort::Bool) return s == "true" ? "1" : "0";
        if (e->sort == Sort::BV) {
            uint64_t v = 0;
            if (s.substr(0, 2) == "#x") v = strtoull(s.c_str() + 2, nullptr, 16);
            else if (s.substr(0, 2) == "#b") v = strtoull(s.c_str() + 2, nullptr, 2);
            return std::to_string((long long)(int64_t)Ctx::sx(v, e->width));
        }
        if (e->sort == Sort::FP) {
            if (s.find("NaN") != std::string::npos) return "nan";
            if (s.find("+oo") != std::string::npos) return "inf";
            if (s.find("-oo") != std::string::npos) return "-inf";
            if (s.find("+zero") != std::string::npos) return "0";
            if (s.find("-zero") != std::string::npos) return "-0";
            SexpParser P(s); std::string body = s.substr(1, s.size() - 2); SexpParser Q(body);
            Q.any(); std::string parts[3] = {Q.any(), Q.any(), Q.any()};
            uint64_t bits = 0; int wid[3] = {1, 11, 52};
            for (int i = 0; i < 3; ++i) { uint64_t v = parts[i].substr(0, 2) == "#b" ? strtoull(parts[i].c_str() + 2, nullptr, 2) : strtoull(parts[i].c_str() + 2, nullptr, 16); bits = (bits << wid[i]) | v; }
            double d; memcpy(&d, &bits, 8);
            snprintf(b, sizeof b, "%.17g", d); return b;
        }
        return s;
    }
    std::string where()
    {
        if (!cur || cur->fr.empty()) return "";
        for (auto it = cur->fr.rbegin(); it != cur->fr.rend(); ++it) {
            if ((size_t)it->b >= it->f->bl.size() || (size_t)it->i >= it->f->bl[it->b].ins.size()) continue;
            const Instruction* I = it->f->bl[it->b].ins[it->i].I;
            if (auto& dl = I->getDebugLoc()) {
                std::string f = cast<DIScope>(dl.getScope())->getFilename().str();
                return f + ":" + std::to_string(dl.getLine());
            }
        }
        return "";
    }
    std::vector<std::string> stack()
    {
        std::vector<std::string> r;
        for (auto it = cur->fr.rbegin(); it != cur->fr.rend(); ++it) r.push_back(it->f->name.substr(0, 160));
        return r;
    }
    std::vector<E> niceBounds(State& s, int lvl)
    {
        std::vector<E> r;
        std::set<E> seen;
        for (auto& in : s.inputs) {
            if (!in.e || in.e->sort != Sort::Real || in.e->op != Op::POLY || !seen.insert(in.e).second || Ctx::isrc(in.e)) continue;
            E e = in.e;
            long B = lvl == 0 ? 16 : 4096;
            r.push_back(X.rcmp(2, e, X.rconst(B)));
            r.push_back(X.rcmp(2, X.rconst(-B), e));
            if (X.sgn(e) == SPOS) r.push_back(X.rcmp(2, X.rconst(mpq_class(1, lvl == 0 ? 16 : 4096)), e));
        }
        // keep only those compatible with declared ranges
        std::vector<E> o;
        for (E e : r) if (e != X.F) o.push_back(e);
        return o;
    }
    void record(State& s, const std::string& kind, const std::string& label, const std::string& msg, const Model& m, int margin)
    {
        Violation v;
        v.kind = kind; v.label = label; v.msg = msg; v.where = where(); v.stack = stack(); v.margin = margin;
        for (auto& in : s.inputs) v.inputs.push_back({in.name, inputText(in, m)});
        viol.push_back(std::move(v));
    }
    std::vector<E> inputEs(State& s)
    {
        std::vector<E> r;
        std::set<E> seen;
        for (auto& in : s.inputs) if (in.e && in.e->op != Op::CONST && in.e->op != Op::FCONST && in.e != X.PINF && in.e != X.NINF && in.e != X.NAN_ && !(in.e->sort == Sort::Real && Ctx::isrc(in.e)) && seen.insert(in.e).second) r.push_back(in.e);
        return r;
    }
    // find a model of path /\ c; margin variants tried first
    int findModel(State& s, E c, E marg, Model& m)
    {
        auto ex = inputEs(s);
        bool libm = false;
        for (auto& in : s.inputs) if (in.name.compare(0, 5, "libm:") == 0 && in.e && !(in.e->sort == Sort::Real && Ctx::isrc(in.e))) libm = true;
        if (libm) { // prefer witnesses with the true values of the transcendental functions
            auto q = s.path;
            q.push_back(c);
            if (marg) q.push_back(marg);
            if (searchModel(s, q, m)) return 2;
        }
        for (int lvl = 0; lvl < 2; ++lvl) {
            auto q = s.path;
            q.push_back(c);
            if (marg) q.push_back(marg);
            for (E b : niceBounds(s, lvl)) q.push_back(b);
            Res r = S.portfolio(q, S.modelTimeout, &m, ex, true);
            if (r == SAT) return 2;
            // numerical search
            if (searchModel(s, q, m)) return 2;
            if (lvl == 0 && !marg) break;
        }
        if (marg) {
            auto q = s.path; q.push_back(c);
            for (E b : niceBounds(s, 1)) q.push_back(b);
            if (S.portfolio(q, S.modelTimeout, &m, ex, true) == SAT) return 1;
        }
        auto q = s.path; q.push_back(c);
        Res r = S.portfolio(q, S.modelTimeout, &m, ex, true);
        if (r == SAT) return 1;
        if (r == UNSAT) return -1;
        return 0;
    }
    bool searchModel(State& s, const std::vector<E>& q, Model& m)
    {
        if (ieee || !hasRealVars(q)) return false;
        for (int t = 0; t < 3000; ++t) {
            Ev v;
            v.rng.seed(rngBase()); v.style = t;
            bool ok = true;
            for (size_t i = q.size(); i-- > 0;) if (!evB(v, q[i]) || v.bad) { ok = false; break; }
            if (!ok) continue;
            for (E e : inputEs(s)) {
                Render R(X); std::string n = R.r(e); if (n[0] == '|') n = n.substr(1, n.size() - 2);
                char b[64];
                if (e->sort == Sort::Real) { snprintf(b, sizeof b, "%.17g", evR(v, e)); m[n] = b; }
                else if (e->sort == Sort::BV) { m[n] = Render::bvlit(evI(v, e), e->width); }
                else if (e->sort == Sort::Bool) m[n] = evB(v, e) ? "true" : "false";
            }
            return true;
        }
        return false;
    }
    void obligation(State& s, E c, const std::string& label, E marg = nullptr, const std::string& msg = "")
    {
        auto& o = obl[label];
        o[0]++;
        S.st.assertQ++;
        if (c == X.T || s.facts.count(c)) { o[1]++; return; }
        if (c != X.F && (bySign(s, c) == 1 || byEquality(s, c) == X.T)) { o[1]++; s.facts.insert(c); return; }
        if (showDec) { fprintf(stderr, "OBL %s terms %zu; path:", label.c_str(), c->k.size() ? c->k[0]->p.size() : 0); for (E f : s.path) { E g = f->op == Op::BNOT ? f->k[0] : f; fprintf(stderr, " %s%d:%zu", f->op == Op::BNOT ? "!" : "", (int)g->op - (int)Op::PEQ0, g->k.size() ? g->k[0]->p.size() : 0); } bool b; fprintf(stderr, "\n%s", c->k.size() ? S.text({c}, nullptr, {}, b).c_str() : ""); }
        E nc = X.bnot(c);
        Res r = UNKNOWN;
        if (c == X.F) r = SAT;
        else {
            if (sampleText.empty()) { bool b; sampleText = S.text({nc}, nullptr, {}, b); }
            auto sl = slice(s.path, nc);
            // cheap attempts first: without, then with the path condition
            if (sl.size() > 0 && S.quick({nc}, nullptr, {}, 1.0) == UNSAT) r = UNSAT;
            else {
                sl.push_back(nc);
                if (evalSat(sl)) r = SAT;
                else r = S.portfolio(sl, S.assertTimeout);
            }
        }
        if (r == UNSAT) { o[2]++; return; }
        if (violCount[label] >= 3) { if (c == X.F) throw Kill{}; addFact(s, c); return; }
        Model m;
        int k = findModel(s, nc, marg, m);
        if (k == -1) { // path itself infeasible together with !c
            o[2]++;
            if (c == X.F) throw Kill{};
            return;
        }
        if (k == 0) {
            o[3]++;
            if (verbose) fprintf(stderr, "UNKNOWN obligation %s\n", label.c_str());
            addFact(s, c);
            return;
        }
        if (r == UNKNOWN && k == 1) {}
        violCount[label]++;
        record(s, "assert", label, msg, m, k);
        if (stopFirst) throw Incomplete{"stopped at the first violation"};
        if (c == X.F) throw Kill{};
        addFact(s, c);
        if (feasible(s, c) == UNSAT) throw Kill{};
    }
    // a path-terminating error: is the path feasible?
    void pathError(State& s, const std::string& kind, const std::string& msg)
    {
        std::string label = kind + "@" + where();
        obl[kind][0]++;
        if (violCount[label] >= 2) return;
        Model m;
        int k = findModel(s, X.T, nullptr, m);
        if (k == -1) { obl[kind][2]++; return; }
        if (k == 0) { obl[kind][3]++; return; }
        violCount[label]++;
        record(s, kind, label, msg, m, k);
    }

    // ---------------------------------------------------------- run
    const V& get(const Opn& o) { return o.reg >= 0 ? cur->fr.back().regs[o.reg] : o.cv; }
    void set(const DInst& d, V v) { if (d.dst >= 0) cur->fr.back().regs[d.dst] = std::move(v); }

    void jump(int to)
    {
        Frame& f = cur->fr.back();
        int from = f.b;
        DBlock& b = f.f->bl[to];
        if (!b.phis.empty()) {
            if (b.phis.size() == 1) {
                for (auto& in : b.phis[0].in) if (in.first == from) { V v = get(in.second); f.regs[b.phis[0].dst] = std::move(v); break; }
            } else {
                std::vector<V> t;
                for (auto& p : b.phis) for (auto& in : p.in) if (in.first == from) { t.push_back(get(in.second)); break; }
                for (size_t i = 0; i < t.size(); ++i) f.regs[b.phis[i].dst] = std::move(t[i]);
            }
        }
        f.prev = from; f.b = to; f.i = 0;
    }
    void pushCall(const Function* F, std::vector<V> args)
    {
        DFunc* d = decode(F);
        d->calls++;
        if (cur->fr.size() > 400) throw PathError{"recursion", "call depth exceeds 400 in " + d->name};
        Frame f;
        f.f = d;
        f.regs.resize(d->nregs);
        size_t n = F->arg_size();
        for (size_t i = 0; i < args.size(); ++i) {
            if (i < n) {
                if (F->hasParamAttribute(i, Attribute::ByVal)) {
                    uint64_t sz = DL->getTypeAllocSize(F->getParamByValType(i));
                    uint64_t a = alloc(*cur, sz, 1, "byval");
                    copyMem(*cur, a, cint(args[i]), sz);
                    f.allocas.push_back(a);
                    f.regs[i] = V::ci(a, 64);
                } else f.regs[i] = std::move(args[i]);
            } else f.varargs.push_back(std::move(args[i]));
        }
        cur->fr.push_back(std::move(f));
    }
    void popFrame()
    {
        for (uint64_t a : cur->fr.back().allocas) cur->mem.erase(a);
        cur->lastObj.reset();
        cur->fr.pop_back();
    }
    void afterCall(V v)
    { // in the caller frame: pc still at the call/invoke
        Frame& f = cur->fr.back();
        DInst& d = f.f->bl[f.b].ins[f.i];
        set(d, std::move(v));
        if (d.opc == Instruction::Invoke) jump(d.b0);
        else f.i++;
    }

    // -- exceptions
    bool typeMatch(uint64_t thrown, uint64_t want)
    {
        if (thrown == want) return true;
        auto it = gname.find(thrown);
        if (it == gname.end()) return false;
        auto* g = dyn_cast<GlobalVariable>(it->second);
        auto iw = gname.find(want);
        if (g && iw != gname.end() && g->getName() == iw->second->getName()) return true;
        if (!g || !g->hasInitializer()) return false;
        auto* cs = dyn_cast<ConstantStruct>(g->getInitializer());
        if (!cs) return false;
        for (unsigned i = 2; i < cs->getNumOperands(); ++i)
            if (cs->getOperand(i)->getType()->isPointerTy()) {
                auto* b = dyn_cast<GlobalVariable>(cs->getOperand(i)->stripPointerCasts());
                if (b && typeMatch(addrOf(b), want)) return true;
            }
        return false;
    }
    void unwind(Exc ex)
    {
        cur->excs[ex.obj] = ex;
        while (!cur->fr.empty()) {
            Frame& f = cur->fr.back();
            DInst& d = f.f->bl[f.b].ins[f.i];
            if (d.opc == Instruction::Invoke) {
                const LandingPadInst* lp = cast<InvokeInst>(d.I)->getLandingPadInst();
                int sel = -1;
                bool take = false;
                for (unsigned i = 0; i < lp->getNumClauses() && !take; ++i) {
                    Constant* cl = lp->getClause(i);
                    if (lp->isCatch(i)) {
                        if (cl->isNullValue()) { sel = 0x7fff; take = true; }
                        else { uint64_t t = addrOf(cast<GlobalValue>(cl->stripPointerCasts())); if (typeMatch(ex.ti, t)) { sel = typeId(t); take = true; } }
                    } else {
                        bool in = false;
                        auto* ar = dyn_cast<ConstantArray>(cl);
                        if (ar) for (auto& o : ar->operands()) { uint64_t t = addrOf(cast<GlobalValue>(o->stripPointerCasts())); if (typeMatch(ex.ti, t)) in = true; }
                        if (!in) { sel = -1; take = true; }
                    }
                }
                if (!take && lp->isCleanup()) { sel = 0; take = true; }
                if (take) {
                    jump(d.b1);
                    Frame& g = cur->fr.back();
                    // find the landingpad in the decoded block
                    for (auto& x : g.f->bl[g.b].ins)
                        if (x.opc == Instruction::LandingPad) {
                            V v; v.k = V::AGG; v.a = std::make_shared<std::vector<V>>();
                            v.a->push_back(V::ci(ex.obj, 64)); v.a->push_back(V::ci((uint64_t)(int64_t)sel, 32));
                            g.regs[x.dst] = v;
                            break;
                        }
                    return;
                }
            }
            if (cur->fr.size() == 1) break;
            popFrame();
        }
        throw PathError{"exception", "uncaught exception of type " + tiName(ex.ti)};
    }
    std::string tiName(uint64_t t)
    {
        auto it = gname.find(t);
        return it == gname.end() ? "?" : demangle(it->second->getName().str());
    }
    std::map<uint64_t, int> tids;
    int typeId(uint64_t t)
    {
        auto it = gname.find(t);
        if (it != gname.end()) for (auto& x : tids) { auto j = gname.find(x.first); if (j != gname.end() && j->second->getName() == it->second->getName()) return x.second; }
        auto r = tids.emplace(t, (int)tids.size() + 1);
        return r.first->second;
    }

    // -- arithmetic on doubles
    E dneg(E a) { return ieee ? X.fop(Op::FNEG, {a}) : X.neg(a); }
    E D(const V& v)
    {
        E e = toE(v);
        if (isD(e)) return e;
        return bits2d(e);
    }
    bool nonzeroOk(E b)
    { // true: b is nonzero on this path (fact or obligation); false: this path has b == 0
        if (Ctx::isrc(b)) return Ctx::rcv(b) != 0;
        if (!(X.sgn(b) & SZERO)) return true;
        E z = X.peq0(b);
        if (z == X.F) return true;
        if (z == X.T) return false;
        State& s = *cur;
        if (s.facts.count(X.bnot(z))) return true;
        if (s.facts.count(z)) return false;
        if (s.divmode == 2) return !decide(z);
        if (s.divmode == 1) { assumptions.insert("divisors are nonzero at " + where()); addFact(s, X.bnot(z)); return true; }
        Res r = feasible(s, z);
        obl["no division by zero"][0]++;
        if (r == UNSAT) { obl["no division by zero"][2]++; s.facts.insert(X.bnot(z)); return true; }
        obl["no division by zero"][0]--;
        obligation(s, X.bnot(z), "no division by zero");
        addFact(s, X.bnot(z));
        return true;
    }
    E ddiv(E a, E b)
    {
        if (ieee) return X.fop(Op::FDIV, {a, b});
        if (X.special(b)) return X.div(a, b);
        if (!nonzeroOk(b)) {
            if (a == X.NAN_) return a;
            if (a == X.PINF || a == X.NINF) return a;
            if (decide(X.peq0(a))) return X.NAN_;
            return decide(X.plt0(a)) ? X.NINF : X.PINF;
        }
        return X.div(a, b);
    }
    E dsqrt(E a)
    {
        if (ieee) return X.fop(Op::FSQRT, {a});
        if (X.special(a)) return X.sqrt(a);
        if (X.sgn(a) & SNEG) {
            E ng = X.plt0(a);
            if (ng == X.T) { if (cur->divmode == 2) return X.NAN_; obligation(*cur, X.F, "no square root of a negative number"); throw Kill{}; }
            if (ng != X.F && !cur->facts.count(X.bnot(ng))) {
                if (cur->divmode == 2) { if (decide(ng)) return X.NAN_; }
                else if (cur->divmode == 1) { assumptions.insert("square roots have non-negative arguments at " + where()); addFact(*cur, X.bnot(ng)); }
                else { obligation(*cur, X.bnot(ng), "no square root of a negative number"); addFact(*cur, X.bnot(ng)); }
            }
        }
        a = X.reduceDefs(a);
        if (!X.special(a) && !Ctx::isrc(a)) if (E q = X.polyRoot(a)) return dabs(q);
        return X.sqrt(a);
    }
    E dlt(E a, E b) { return ieee ? X.fop(Op::FLT, {a, b}) : X.rcmp(1, a, b); }
    E dle(E a, E b) { return ieee ? X.fop(Op::FLE, {a, b}) : X.rcmp(2, a, b); }
    E deq(E a, E b) { return ieee ? X.fop(Op::FEQ, {a, b}) : X.rcmp(0, a, b); }
    E dite(E c, E a, E b)
    {
        if (c == X.T || a == b) return a;
        if (c == X.F) return b;
        if (ieee) return X.fop(Op::FITE, {c, a, b});
        if (forkReal || X.special(a) || X.special(b)) return decide(c) ? a : b;
        return X.rite(c, a, b);
    }
    E dabs(E a)
    {
        if (ieee) return X.fop(Op::FABS, {a});
        if (a == X.NAN_ || a == X.PINF) return a;
        if (a == X.NINF) return X.PINF;
        uint8_t s = X.sgn(a);
        if (!(s & SNEG)) return a;
        if (!(s & SPOS)) return X.neg(a);
        return dite(tieCanon(X.ple0(a)), X.neg(a), a);
    }
    // The value chosen by min, max and abs does not depend on which side a tie
    // falls: use one canonical condition for a-b and b-a, so that mirrored runs share it.
    E tieCanon(E c)
    {
        if (c->op == Op::PLE0 && c->k[0]->p[0].c < 0) return X.plt0(c->k[0]);
        if (c->op == Op::PLT0 && c->k[0]->p[0].c > 0) return X.ple0(c->k[0]);
        return c;
    }
    E dmin(E a, E b)
    {
        if (ieee) return X.fop(Op::FMIN, {a, b});
        if (a == X.NAN_) return b;
        if (b == X.NAN_) return a;
        if (X.rcmp(2, b, a) == X.T) return b;
        return dite(tieCanon(X.rcmp(2, a, b)), a, b);
    }
    E dmax(E a, E b)
    {
        if (ieee) return X.fop(Op::FMAX, {a, b});
        if (a == X.NAN_) return b;
        if (b == X.NAN_) return a;
        if (X.rcmp(2, a, b) == X.T) return b;
        return dite(tieCanon(X.rcmp(2, b, a)), a, b);
    }
    E dfloor(E a)
    {
        if (X.special(a)) return a;
        if (Ctx::isrc(a)) { mpq_class x = Ctx::rcv(a); mpz_class f; mpz_fdiv_q(f.get_mpz_t(), x.get_num_mpz_t(), x.get_den_mpz_t()); return X.rconst(mpq_class(f)); }
        return X.atomExpr(X.newAtom(AK::Floor, "", {a}));
    }
    void note(const std::string& n, E e) { Input in; in.name = n; in.e = e; cur->inputs.push_back(in); }
    std::string uniq(const std::string& n) { int k = cur->names[n]++; return k ? n + "#" + std::to_string(k) : n; }
    E ufcall(const std::string& n, std::vector<E> args, uint8_t sign = SANY)
    {
        if (ieee) throw Unsupported("uninterpreted function in IEEE mode: " + n);
        for (E a : args) if (X.special(a)) throw Unsupported(n + " of inf/nan");
        return X.uf(n, args, sign);
    }
    E libm1(const std::string& n, E a)
    {
        bool conc = ieee ? Ctx::isfc(a) : (X.special(a) || Ctx::isrc(a));
        E r;
        if (conc) {
            double d = ieee ? Ctx::fval(a) : a == X.PINF ? INFINITY : a == X.NINF ? -INFINITY : a == X.NAN_ ? NAN : Ctx::rcv(a).get_d();
            double v = n == "sin" ? sin(d) : n == "cos" ? cos(d) : n == "tan" ? tan(d) : n == "exp" ? exp(d) : n == "log" ? log(d) : n == "log10" ? log10(d) : n == "tanh" ? tanh(d) : n == "atan" ? atan(d) : n == "asin" ? asin(d) : n == "acos" ? acos(d) : n == "cbrt" ? cbrt(d) : n == "sinh" ? sinh(d) : n == "cosh" ? cosh(d) : n == "exp2" ? exp2(d) : n == "log2" || n == "log2l" ? log2(d) : n == "logl" ? log(d) : throw Unsupported(n);
            r = dbl(v);
        } else r = ufcall(n, {a}, (n == "exp" || n == "cosh" || n == "exp2") ? SPOS : SANY);
        note("libm:" + n, r);
        return r;
    }
    E datan2(E a, E b)
    {
        bool conc = ieee ? Ctx::isfc(a) && Ctx::isfc(b) : (X.special(a) || Ctx::isrc(a)) && (X.special(b) || Ctx::isrc(b));
        auto cv = [&](E e) { return ieee ? Ctx::fval(e) : e == X.PINF ? INFINITY : e == X.NINF ? -INFINITY : e == X.NAN_ ? NAN : Ctx::rcv(e).get_d(); };
        E r = conc ? dbl(std::atan2(cv(a), cv(b))) : ufcall("atan2", {a, b});
        note("libm:atan2", r);
        return r;
    }
    E dpow(E a, E b)
    {
        if (!ieee && !X.special(a) && Ctx::isrc(b)) {
            mpq_class q = Ctx::rcv(b);
            if (q.get_den() == 1 && abs(q.get_num()) <= 16) {
                int n = (int)q.get_num().get_si();
                E r = X.RONE, base = a;
                for (int i = 0; i < std::abs(n); ++i) r = X.mul(r, base);
                if (n < 0) r = ddiv(X.RONE, r);
                note("libm:pow", r);
                return r;
            }
            if (q == mpq_class(1, 2)) { E r = dsqrt(a); note("libm:pow", r); return r; }
            if (q == mpq_class(1, 4)) { E r = dsqrt(dsqrt(a)); note("libm:pow", r); return r; }
        }
        bool conc = ieee ? (Ctx::isfc(a) && Ctx::isfc(b)) : (Ctx::isrc(a) && Ctx::isrc(b) && !X.special(a) && !X.special(b));
        E r;
        if (conc) r = dbl(ieee ? pow(Ctx::fval(a), Ctx::fval(b)) : pow(Ctx::rcv(a).get_d(), Ctx::rcv(b).get_d()));
        else {
            uint8_t s = (!X.special(a) && X.sgn(a) == SPOS) ? SPOS : SANY;
            r = ufcall("pow", {a, b}, s);
        }
        note("libm:pow", r);
        return r;
    }

#include "builtins.inc"

    void step()
    {
        State& s = *cur;
        Frame& f = s.fr.back();
        DInst& d = f.f->bl[f.b].ins[f.i];
        const Instruction* I = d.I;
        if (++s.steps > maxSteps) throw Incomplete{"step bound"};
        ++totalSteps;
        switch (d.opc) {
        case Instruction::Ret: {
            V v;
            if (!d.ops.empty()) v = get(d.ops[0]);
            popFrame();
            if (s.fr.empty()) return;
            afterCall(std::move(v));
            return;
        }
        case Instruction::Br:
            if (d.ops.empty()) { jump(d.b0); return; }
            else {
                const V& c = get(d.ops[0]);
                bool t;
                if (c.k == V::CINT) t = c.c & 1;
                else if (c.k == V::UNDEF) throw PathError{"uninit", "branch on an uninitialised value"};
                else t = decide(c.e);
                jump(t ? d.b0 : d.b1);
                return;
            }
        case Instruction::Switch: {
            const V& c = get(d.ops[0]);
            if (c.k == V::CINT) {
                for (size_t i = 0; i < d.gidx.size(); ++i) if (d.ops[i + 1].cv.c == c.c) { jump(d.gidx[i].first); return; }
                jump(d.b0);
                return;
            }
            E e = toE(c);
            for (size_t i = 0; i < d.gidx.size(); ++i) if (decide(X.eq(e, toE(d.ops[i + 1].cv)))) { jump(d.gidx[i].first); return; }
            jump(d.b0);
            return;
        }
        case Instruction::Call: case Instruction::Invoke: doCall(d); return;
        case Instruction::Unreachable: throw PathError{"unreachable", "reached code marked unreachable"};
        case Instruction::Resume: {
            V v = get(d.ops[0]);
            uint64_t o = (*v.a)[0].c;
            Exc ex = s.excs.count(o) ? s.excs[o] : Exc{o, 0};
            if (s.fr.size() == 1) throw PathError{"exception", "uncaught exception of type " + tiName(ex.ti)};
            popFrame();
            unwind(ex);
            return;
        }
        default: break;
        }
        V r;
        switch (d.opc) {
        case Instruction::LandingPad: f.i++; return;
        case Instruction::Alloca: {
            uint64_t n = cint(get(d.ops[0]));
            uint64_t a = alloc(s, n * d.tsize, 1, I->hasName() ? I->getName().str() : "local");
            f.allocas.push_back(a);
            r = V::ci(a, 64);
            break;
        }
        case Instruction::Load: {
            uint64_t a = cint(get(d.ops[0]));
            r = load(s, a, I->getType());
            break;
        }
        case Instruction::Store: {
            uint64_t a = cint(get(d.ops[1]));
            store(s, a, get(d.ops[0]), I->getOperand(0)->getType());
            f.i++;
            return;
        }
        case Instruction::GetElementPtr: {
            const V& b = get(d.ops[0]);
            bool conc = b.k == V::CINT;
            for (auto& g : d.gidx) if (get(d.ops[g.first]).k != V::CINT) conc = false;
            if (conc) {
                uint64_t a = b.c + (uint64_t)d.goff;
                for (auto& g : d.gidx) { const V& ix = get(d.ops[g.first]); int64_t iv = ix.w == 64 ? (int64_t)ix.c : (int64_t)Ctx::sx(ix.c, ix.w); a += (uint64_t)(iv * g.second); }
                r = V::ci(a, 64);
            } else {
                if (b.k == V::AGG) throw Unsupported("vector GEP");
                E a = X.bvop(Op::ADD, toE(b), X.bv((uint64_t)d.goff, 64));
                for (auto& g : d.gidx) { E ix = X.sext(toE(get(d.ops[g.first])), 64); a = X.bvop(Op::ADD, a, X.bvop(Op::MUL, ix, X.bv((uint64_t)g.second, 64))); }
                r = fromE(a);
            }
            break;
        }
        case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: {
            r = get(d.ops[0]);
            Type *st = I->getOperand(0)->getType(), *dt = I->getType();
            if (r.k == V::UNDEF) break;
            if (st->isIntegerTy() && dt->isDoubleTy()) r = V::ex(D(r));
            else if (st->isDoubleTy() && dt->isIntegerTy()) {
                E e = toE(r);
                if (e->sort == Sort::FP) r = fromE(X.fbits(e));
                else if (Ctx::isrc(e)) { double x = Ctx::rcv(e).get_d(); uint64_t bb; memcpy(&bb, &x, 8); r = V::ci(bb, 64); }
                // else: keep the real as opaque bits
            } else if (d.bits && r.k == V::CINT && d.bits != r.w) r = V::ci(r.c, d.bits);
            break;
        }
        case Instruction::Trunc: {
            const V& a = get(d.ops[0]);
            if (a.k == V::UNDEF) break;
            if (a.k == V::CINT) r = V::ci(a.c, d.bits);
            else { E e = toE(a); if (d.bits == 1) r = fromE(X.eq(X.extract(e, 0, 0), X.bv(1, 1))); else r = fromE(X.extract(e, d.bits - 1, 0)); }
            break;
        }
        case Instruction::ZExt: case Instruction::SExt: {
            const V& a = get(d.ops[0]);
            if (a.k == V::UNDEF) break;
            bool sx = d.opc == Instruction::SExt;
            if (a.k == V::CINT && d.bits <= 64) r = V::ci(sx ? (uint64_t)Ctx::sx(a.c, a.w) : a.c, d.bits);
            else {
                E e = toE(a);
                if (e->sort == Sort::Bool) r = fromE(X.ite(e, X.bv(sx ? ~(u128)0 : 1, d.bits), X.bv(0, d.bits)));
                else r = fromE(sx ? X.sext(e, d.bits) : X.zext(e, d.bits));
            }
            break;
        }
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem:
        case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
            const V &a = get(d.ops[0]), &b = get(d.ops[1]);
            if (a.k == V::UNDEF || b.k == V::UNDEF) {
                // x & 0 and x | ~0 are defined; everything else stays undefined
                if (d.opc == Instruction::And && ((a.k == V::CINT && a.c == 0) || (b.k == V::CINT && b.c == 0))) { r = V::ci(0, d.bits); break; }
                if (d.opc == Instruction::Xor && d.ops[0].reg >= 0 && d.ops[0].reg == d.ops[1].reg) { r = V::ci(0, d.bits); break; }
                break;
            }
            if (a.k == V::AGG) throw Unsupported("vector arithmetic");
            Op op = d.opc == Instruction::Add ? Op::ADD : d.opc == Instruction::Sub ? Op::SUB : d.opc == Instruction::Mul ? Op::MUL : d.opc == Instruction::UDiv ? Op::UDIV : d.opc == Instruction::SDiv ? Op::SDIV : d.opc == Instruction::URem ? Op::UREM : d.opc == Instruction::SRem ? Op::SREM : d.opc == Instruction::And ? Op::AND : d.opc == Instruction::Or ? Op::OR : d.opc == Instruction::Xor ? Op::XOR : d.opc == Instruction::Shl ? Op::SHL : d.opc == Instruction::LShr ? Op::LSHR : Op::ASHR;
            bool isDiv = op == Op::UDIV || op == Op::SDIV || op == Op::UREM || op == Op::SREM;
            if (a.k == V::CINT && b.k == V::CINT) {
                if (isDiv && b.c == 0) throw PathError{"divzero", "integer division by zero"};
                u128 o;
                if (!Ctx::foldbv(op, d.bits, a.c, b.c, o)) throw Unsupported("fold");
                if (checkOvf && op != Op::AND) ovfCheck(I, op, X.bv(a.c, d.bits), X.bv(b.c, d.bits));
                r = V::ci((uint64_t)o, d.bits);
                break;
            }
            E x = toE(a), y = toE(b);
            if (x->sort == Sort::Bool || y->sort == Sort::Bool) {
                E e = op == Op::AND ? X.band(x, y) : op == Op::OR ? X.bor(x, y) : (op == Op::XOR || op == Op::ADD || op == Op::SUB) ? X.bxor(x, y) : op == Op::MUL ? X.band(x, y) : throw Unsupported("i1 arithmetic");
                r = fromE(e);
                break;
            }
            if (isD(x) || isD(y)) { // integer op on the bits of a double: only sign tests/clears
                r = bitsOp(op, x, y);
                break;
            }
            if (isDiv) { if (decide(X.eq(y, X.bv(0, y->width)))) throw PathError{"divzero", "integer division by zero"}; }
            if (checkOvf) ovfCheck(I, op, x, y);
            r = fromE(X.bvop(op, x, y));
            break;
        }
        case Instruction::ICmp: {
            const V &a = get(d.ops[0]), &b = get(d.ops[1]);
            if (a.k == V::UNDEF || b.k == V::UNDEF) break;
            auto p = cast<ICmpInst>(I)->getPredicate();
            if (a.k == V::CINT && b.k == V::CINT) {
                uint64_t x = a.c, y = b.c; int64_t sx_ = (int64_t)Ctx::sx(x, a.w), sy = (int64_t)Ctx::sx(y, b.w);
                bool t;
                switch (p) {
                case CmpInst::ICMP_EQ: t = x == y; break; case CmpInst::ICMP_NE: t = x != y; break;
                case CmpInst::ICMP_ULT: t = x < y; break; case CmpInst::ICMP_ULE: t = x <= y; break;
                case CmpInst::ICMP_UGT: t = x > y; break; case CmpInst::ICMP_UGE: t = x >= y; break;
                case CmpInst::ICMP_SLT: t = sx_ < sy; break; case CmpInst::ICMP_SLE: t = sx_ <= sy; break;
                case CmpInst::ICMP_SGT: t = sx_ > sy; break; default: t = sx_ >= sy; break;
                }
                r = V::ci(t, 1);
                break;
            }
            E x = toE(a), y = toE(b), e;
            if (isD(x) || isD(y)) {
                if (p == CmpInst::ICMP_SLT && isD(x) && y->op == Op::CONST && y->c == 0) { r = fromE(dlt(x, dbl(0))); break; }
                if (p == CmpInst::ICMP_SGT && isD(x) && y->op == Op::CONST && y->c == Ctx::mask(64)) { r = fromE(X.bnot(dlt(x, dbl(0)))); break; }
                if (p == CmpInst::ICMP_EQ && isD(x) && isD(y)) { r = fromE(deq(x, y)); break; }
                throw Unsupported("integer comparison of the bits of a double");
            }
            if (x->sort == Sort::Bool) {
                E q2 = X.bxor(x, y);
                if (p == CmpInst::ICMP_EQ) e = X.bnot(q2);
                else if (p == CmpInst::ICMP_NE) e = q2;
                else if (p == CmpInst::ICMP_ULT || p == CmpInst::ICMP_SGT) e = X.band(X.bnot(x), y);
                else if (p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_SLT) e = X.band(x, X.bnot(y));
                else if (p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_SGE) e = X.bor(X.bnot(x), y);
                else e = X.bor(x, X.bnot(y));
                r = fromE(e);
                break;
            }
            switch (p) {
            case CmpInst::ICMP_EQ: e = X.eq(x, y); break; case CmpInst::ICMP_NE: e = X.bnot(X.eq(x, y)); break;
            case CmpInst::ICMP_ULT: e = X.cmp(Op::ULT, x, y); break; case CmpInst::ICMP_ULE: e = X.cmp(Op::ULE, x, y); break;
            case CmpInst::ICMP_UGT: e = X.cmp(Op::ULT, y, x); break; case CmpInst::ICMP_UGE: e = X.cmp(Op::ULE, y, x); break;
            case CmpInst::ICMP_SLT: e = X.cmp(Op::SLT, x, y); break; case CmpInst::ICMP_SLE: e = X.cmp(Op::SLE, x, y); break;
            case CmpInst::ICMP_SGT: e = X.cmp(Op::SLT, y, x); break; default: e = X.cmp(Op::SLE, y, x); break;
            }
            r = fromE(e);
            break;
        }
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
            const V &va = get(d.ops[0]), &vb = get(d.ops[1]);
            if (va.k == V::UNDEF || vb.k == V::UNDEF) break;
            E a = D(va), b = D(vb), e;
            if (ieee) {
                Op op = d.opc == Instruction::FAdd ? Op::FADD : d.opc == Instruction::FSub ? Op::FSUB : d.opc == Instruction::FMul ? Op::FMUL : d.opc == Instruction::FDiv ? Op::FDIV : Op::FREM;
                e = X.fop(op, {a, b});
            } else switch (d.opc) {
                case Instruction::FAdd: e = X.add(a, b); break;
                case Instruction::FSub: e = X.sub(a, b); break;
                case Instruction::FMul: e = X.mul(a, b); break;
                case Instruction::FDiv: e = ddiv(a, b); break;
                default: { // a - b*trunc(a/b)
                    E qn = ddiv(a, b);
                    E fl = decide(X.plt0(qn)) ? X.neg(dfloor(X.neg(qn))) : dfloor(qn);
                    e = X.sub(a, X.mul(b, fl));
                }
                }
            r = fromE(e);
            break;
        }
        case Instruction::FNeg: { const V& a = get(d.ops[0]); if (a.k == V::UNDEF) break; r = V::ex(dneg(D(a))); break; }
        case Instruction::FCmp: {
            const V &va = get(d.ops[0]), &vb = get(d.ops[1]);
            if (va.k == V::UNDEF || vb.k == V::UNDEF) break;
            E a = D(va), b = D(vb), e, un;
            auto p = cast<FCmpInst>(I)->getPredicate();
            if (ieee) un = X.bor(X.fop(Op::FISNAN, {a}), X.fop(Op::FISNAN, {b}));
            else un = X.boolc(a == X.NAN_ || b == X.NAN_);
            switch (p) {
            case CmpInst::FCMP_FALSE: e = X.F; break; case CmpInst::FCMP_TRUE: e = X.T; break;
            case CmpInst::FCMP_OEQ: e = deq(a, b); break; case CmpInst::FCMP_UEQ: e = X.bor(un, deq(a, b)); break;
            case CmpInst::FCMP_ONE: e = X.band(X.bnot(un), X.bnot(deq(a, b))); break; case CmpInst::FCMP_UNE: e = X.bor(un, X.bnot(deq(a, b))); break;
            case CmpInst::FCMP_OLT: e = dlt(a, b); break; case CmpInst::FCMP_ULT: e = X.bor(un, dlt(a, b)); break;
            case CmpInst::FCMP_OLE: e = dle(a, b); break; case CmpInst::FCMP_ULE: e = X.bor(un, dle(a, b)); break;
            case CmpInst::FCMP_OGT: e = dlt(b, a); break; case CmpInst::FCMP_UGT: e = X.bor(un, dlt(b, a)); break;
            case CmpInst::FCMP_OGE: e = dle(b, a); break; case CmpInst::FCMP_UGE: e = X.bor(un, dle(b, a)); break;
            case CmpInst::FCMP_ORD: e = X.bnot(un); break; default: e = un; break;
            }
            r = fromE(e);
            break;
        }
        case Instruction::FPToSI: case Instruction::FPToUI: {
            E a = D(get(d.ops[0]));
            bool sg = d.opc == Instruction::FPToSI;
            if (ieee) { r = fromE(X.f2bv(a, d.bits, sg)); break; }
            if (X.special(a)) throw PathError{"ub", "conversion of inf/nan to an integer"};
            if (Ctx::isrc(a)) {
                mpq_class x = Ctx::rcv(a); mpz_class z; mpz_tdiv_q(z.get_mpz_t(), x.get_num_mpz_t(), x.get_den_mpz_t());
                if (z < 0 && !sg) throw PathError{"ub", "negative double converted to unsigned"};
                r = V::ci((uint64_t)(int64_t)z.get_si(), d.bits);
                break;
            }
            r = fromE(X.mkop(Op::R2BV, Sort::BV, d.bits, {a}));
            break;
        }
        case Instruction::SIToFP: case Instruction::UIToFP: {
            const V& a = get(d.ops[0]);
            if (a.k == V::UNDEF) break;
            bool sg = d.opc == Instruction::SIToFP;
            E e = toE(a);
            if (e->sort == Sort::Bool) e = sg ? X.ite(e, X.bv(0xff, 8), X.bv(0, 8)) : X.b2bv(e, 8);
            r = V::ex(ieee ? X.ffrombv(e, sg) : X.i2r(e, sg));
            break;
        }
        case Instruction::FPExt: r = get(d.ops[0]); break;
        case Instruction::FPTrunc: { // narrowing to float loses digits; long double is taken as exact
            const V& a = get(d.ops[0]);
            if (!I->getType()->isFloatTy() || a.k == V::UNDEF) { r = a; break; }
            E e = D(a);
            if (Ctx::isfc(e)) r = V::ex(dbl((double)(float)Ctx::fval(e)));
            else if (ieee) throw Unsupported("narrowing to float");
            else if (X.special(e)) r = a;
            else if (Ctx::isrc(e)) r = V::ex(dbl((double)(float)Ctx::rcv(e).get_d()));
            else r = V::ex(ufcall("tofloat", {e}, X.sgn(e) == SPOS ? SPOS : SANY));
            break;
        }
        case Instruction::Select: {
            const V& c = get(d.ops[0]);
            const V &a = get(d.ops[1]), &b = get(d.ops[2]);
            if (c.k == V::CINT) { r = (c.c & 1) ? a : b; break; }
            if (c.k == V::UNDEF) throw PathError{"uninit", "select on an uninitialised value"};
            if (c.k == V::AGG) throw Unsupported("vector select");
            if (a.k == V::AGG || a.k == V::UNDEF || b.k == V::UNDEF) { r = decide(c.e) ? get(d.ops[1]) : get(d.ops[2]); break; }
            E x = toE(a), y = toE(b);
            if (isD(x) || isD(y)) {
                if (!isD(x)) x = bits2d(x);
                if (!isD(y)) y = bits2d(y);
                r = fromE(dite(c.e, x, y));
            } else if (x->sort == Sort::Bool) r = fromE(X.bite(c.e, x, y));
            else if (I->getType()->isPointerTy()) r = decide(c.e) ? fromE(x) : fromE(y);
            else r = fromE(X.ite(c.e, x, y));
            break;
        }
        case Instruction::ExtractValue: {
            V v = get(d.ops[0]);
            for (unsigned ix : cast<ExtractValueInst>(I)->indices()) { if (v.k != V::AGG) { v = V(); break; } V t = (*v.a)[ix]; v = t; }
            r = v;
            break;
        }
        case Instruction::InsertValue: r = insertV(get(d.ops[0]), cast<InsertValueInst>(I)->getIndices(), 0, get(d.ops[1]), I->getType()); break;
        case Instruction::ExtractElement: { V v = get(d.ops[0]); uint64_t ix = cint(get(d.ops[1])); if (v.k == V::AGG) { V t = (*v.a)[ix]; r = t; } break; }
        case Instruction::InsertElement: {
            V v = get(d.ops[0]); uint64_t ix = cint(get(d.ops[2]));
            V o; o.k = V::AGG; o.a = std::make_shared<std::vector<V>>();
            if (v.k == V::AGG) *o.a = *v.a; else o.a->resize(cast<FixedVectorType>(I->getType())->getNumElements());
            (*o.a)[ix] = get(d.ops[1]);
            r = o;
            break;
        }
        case Instruction::Freeze: r = get(d.ops[0]); if (r.k == V::UNDEF && d.bits) r = V::ci(0, d.bits); break;
        case Instruction::Fence: f.i++; return;
        case Instruction::AtomicRMW: {
            auto* A = cast<AtomicRMWInst>(I);
            uint64_t a = cint(get(d.ops[0]));
            V v = get(d.ops[1]);
            bool pp = s.par; s.par = false;
            V old = load(s, a, I->getType());
            E x = toE(old), y = toE(v), n;
            switch (A->getOperation()) {
            case AtomicRMWInst::Xchg: n = y; break;
            case AtomicRMWInst::Add: n = X.bvop(Op::ADD, x, y); break;
            case AtomicRMWInst::Sub: n = X.bvop(Op::SUB, x, y); break;
            case AtomicRMWInst::And: n = X.bvop(Op::AND, x, y); break;
            case AtomicRMWInst::Or: n = X.bvop(Op::OR, x, y); break;
            case AtomicRMWInst::FAdd: n = ieee ? X.fop(Op::FADD, {D(old), D(v)}) : X.add(D(old), D(v)); break;
            default: throw Unsupported("atomicrmw");
            }
            store(s, a, fromE(n), I->getType());
            s.par = pp;
            r = old;
            break;
        }
        case Instruction::AtomicCmpXchg: {
            uint64_t a = cint(get(d.ops[0]));
            Type* t = I->getOperand(1)->getType();
            V old = load(s, a, t);
            bool eq = decide(X.eq(toE(old), toE(get(d.ops[1]))));
            if (eq) store(s, a, get(d.ops[2]), t);
            V v; v.k = V::AGG; v.a = std::make_shared<std::vector<V>>();
            v.a->push_back(old); v.a->push_back(V::ci(eq, 1));
            r = v;
            break;
        }
        default: throw Unsupported(std::string("instruction ") + I->getOpcodeName());
        }
        set(d, std::move(r));
        f.i++;
    }
    bool checkOvf = false;
    void ovfCheck(const Instruction* I, Op op, E x, E y)
    {
        auto* o = dyn_cast<OverflowingBinaryOperator>(I);
        if (!o || !o->hasNoSignedWrap()) return;
        if (op != Op::ADD && op != Op::SUB && op != Op::MUL) return;
        unsigned w = x->width, W = op == Op::MUL ? 2 * w : w + 1;
        if (W > 128) return;
        E big = X.bvop(op, X.sext(x, W), X.sext(y, W));
        E ok = X.eq(big, X.sext(X.bvop(op, x, y), W));
        obligation(*cur, ok, "no signed overflow");
        addFact(*cur, ok);
    }
    V bitsOp(Op op, E x, E y)
    {
        if (isD(y)) std::swap(x, y);
        if (!isD(x) || y->op != Op::CONST) throw Unsupported("bit operation on a symbolic double");
        uint64_t sgnbit = 1ull << 63;
        if (op == Op::AND && y->c == (sgnbit - 1)) return V::ex(dabs(x));
        if (op == Op::XOR && y->c == sgnbit) return V::ex(dneg(x));
        if (op == Op::LSHR && y->c == 63) return fromE(X.b2bv(dlt(x, dbl(0)), 64));
        throw Unsupported("bit operation on a symbolic double");
    }
    V insertV(const V& b, ArrayRef<unsigned> ix, unsigned k, const V& v, Type* ty)
    {
        if (k == ix.size()) return v;
        V o; o.k = V::AGG; o.a = std::make_shared<std::vector<V>>();
        unsigned n = ty->isStructTy() ? ty->getStructNumElements() : (unsigned)ty->getArrayNumElements();
        if (b.k == V::AGG) *o.a = *b.a; else o.a->resize(n);
        Type* et = ty->isStructTy() ? ty->getStructElementType(ix[k]) : ty->getArrayElementType();
        (*o.a)[ix[k]] = insertV((*o.a)[ix[k]], ix, k + 1, v, et);
        return o;
    }

    long wantWitness = 0, witnessTries = 0;
    std::vector<std::vector<std::pair<std::string, std::string>>> witnesses;
    void runPath()
    {
        State& s = *cur;
        try {
            while (!s.fr.empty()) {
                step();
                if ((s.steps & 63) == 0 && now() - tStart > timeLimit) throw Incomplete{"time limit"};
            }
            ++paths;
            if ((long)witnesses.size() < wantWitness && witnessTries < 2 * wantWitness) {
                ++witnessTries;
                Model m;
                if (findModel(s, X.T, nullptr, m) > 0) {
                    std::vector<std::pair<std::string, std::string>> w;
                    for (auto& in : s.inputs) w.push_back({in.name, inputText(in, m)});
                    witnesses.push_back(std::move(w));
                }
            }
        } catch (Kill&) {
            ++killed;
        } catch (PathError& e) {
            ++paths;
            if (verbose) fprintf(stderr, "path error %s: %s at %s\n", e.kind.c_str(), e.msg.c_str(), where().c_str());
            try { pathError(s, e.kind, e.msg); } catch (Unsupported& u) { ++incompletePaths; incompleteWhy[std::string("unsupported: ") + u.what()]++; }
        } catch (Incomplete& e) {
            ++incompletePaths;
            incompleteWhy[e.msg]++;
        } catch (Unsupported& e) {
            ++incompletePaths;
            std::string w = std::string("unsupported: ") + e.what() + " at " + where();
            if (verbose) { fprintf(stderr, "%s\n", w.c_str()); for (auto& x : stack()) fprintf(stderr, "   in %s\n", x.c_str()); }
            incompleteWhy[w]++;
        }
    }
    void runFunction(const Function* F)
    {
        pushCall(F, {});
        cur->fr.back().i = 0;
    }
    int run(const std::string& entry)
    {
        tStart = now();
        S.deadline = tStart + timeLimit;
        signal(SIGALRM, [](int) { Ctx::stopFlag = 1; });
        alarm((unsigned)timeLimit + 3);
        initGlobals();
        init.next = ((nextG >> 20) + 2) << 20;
        if (init.next < 0x10000000) init.next = 0x10000000;
        const Function* F = M->getFunction(entry);
        if (!F) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
        auto st = std::make_unique<State>(init);
        cur = st.get();
        // static constructors
        if (auto* g = M->getGlobalVariable("llvm.global_ctors"))
            if (auto* ca = dyn_cast<ConstantArray>(g->getInitializer())) {
                std::vector<std::pair<uint64_t, const Function*>> cs;
                for (auto& o : ca->operands()) { auto* c = cast<ConstantStruct>(o); if (auto* f = dyn_cast<Function>(c->getOperand(1))) cs.push_back({cast<ConstantInt>(c->getOperand(0))->getZExtValue(), f}); }
                std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
                for (auto& c : cs) {
                    runFunction(c.second);
                    try { while (!cur->fr.empty()) step(); } catch (Unsupported& e) { fprintf(stderr, "static constructor: %s\n", e.what()); for (auto& x : stack()) fprintf(stderr, "   in %s\n", x.c_str()); return 2; } catch (PathError& e) { fprintf(stderr, "static constructor: %s\n", e.msg.c_str()); return 2; }
                }
            }
        cur->steps = 0;
        runFunction(F);
        work.push_back(std::move(st));
        while (!work.empty()) {
            auto s = std::move(work.back());
            work.pop_back();
            cur = s.get();
            runPath();
            if (paths >= maxPaths) { incompleteWhy["path bound"]++; incompletePaths++; break; }
            if (now() - tStart > timeLimit) { if (!work.empty()) { incompleteWhy["time limit"]++; incompletePaths += (long)work.size(); } break; }
            if (stopFirst && !viol.empty()) break;
        }
        return 0;
    }
    static std::string js(const std::string& s)
    {
        std::string r = "\"";
        for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += (char)c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += (char)c; }
        return r + "\"";
    }
    void report(const std::string& entry, const std::string& file)
    {
        std::ofstream o(file);
        o << "{\n\"entry\":" << js(entry) << ",\n\"paths\":" << paths << ",\"killed\":" << killed << ",\"incomplete_paths\":" << incompletePaths << ",\"forks\":" << forks << ",\"instructions\":" << totalSteps
          << ",\n\"wall\":" << now() - tStart << ",\"solver_time\":" << S.st.solverTime << ",\"branch_queries\":" << S.st.branchQ << ",\"query_cache_hits\":" << S.st.cached << ",\"unsat\":" << S.st.unsat << ",\"sat\":" << S.st.sat << ",\"unknown\":" << S.st.unknown << ",\n\"incomplete\":{";
        bool first = true;
        for (auto& x : incompleteWhy) { o << (first ? "" : ",") << js(x.first) << ":" << x.second; first = false; }
        o << "},\n\"by_solver\":{"; first = true;
        for (auto& x : S.st.bySolver) { o << (first ? "" : ",") << js(x.first) << ":" << x.second; first = false; }
        o << "},\n\"obligations\":{"; first = true;
        for (auto& x : obl) { o << (first ? "" : ",") << js(x.first) << ":{\"total\":" << x.second[0] << ",\"folded\":" << x.second[1] << ",\"proved\":" << x.second[2] << ",\"unknown\":" << x.second[3] << "}"; first = false; }
        o << "},\n\"reach\":{"; first = true;
        for (auto& x : reach) { o << (first ? "" : ",") << js(x.first) << ":" << x.second; first = false; }
        o << "},\n\"assumptions\":["; first = true;
        for (auto& x : assumptions) { o << (first ? "" : ",") << js(x); first = false; }
        o << "],\n\"functions\":["; first = true;
        for (auto& x : dfs) if (x.second->repo && x.second->calls) { o << (first ? "" : ",") << js(x.second->name.substr(0, 200)); first = false; }
        o << "],\n\"sample_query\":" << js(sampleText.substr(0, 1500)) << ",\n\"witnesses\":["; first = true;
        for (auto& w : witnesses) {
            o << (first ? "" : ",") << "["; first = false;
            bool f2 = true;
            for (auto& i : w) { o << (f2 ? "" : ",") << "[" << js(i.first) << "," << js(i.second) << "]"; f2 = false; }
            o << "]";
        }
        o << "],\n\"violations\":["; first = true;
        for (auto& v : viol) {
            o << (first ? "" : ",") << "\n{\"kind\":" << js(v.kind) << ",\"label\":" << js(v.label) << ",\"msg\":" << js(v.msg) << ",\"where\":" << js(v.where) << ",\"margin\":" << v.margin << ",\"inputs\":[";
            bool f2 = true;
            for (auto& i : v.inputs) { o << (f2 ? "" : ",") << "[" << js(i.first) << "," << js(i.second) << "]"; f2 = false; }
            o << "],\"stack\":["; f2 = true;
            for (auto& i : v.stack) { o << (f2 ? "" : ",") << js(i); f2 = false; }
            o << "]}";
            first = false;
        }
        o << "]\n}\n";
    }
};

int main(int argc, char** argv)
{
    signal(SIGPIPE, SIG_IGN);
    std::string file, entry = "hx_main", out = "/dev/stdout";
    Engine g;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&](const char* p) -> const char* { size_t n = strlen(p); return a.compare(0, n, p) == 0 ? a.c_str() + n : nullptr; };
        if (auto v = val("--entry=")) entry = v;
        else if (auto v = val("--out=")) out = v;
        else if (auto v = val("--time=")) g.timeLimit = atof(v);
        else if (auto v = val("--assert-timeout=")) g.S.assertTimeout = atof(v);
        else if (auto v = val("--branch-timeout=")) g.S.branchTimeout = atof(v);
        else if (auto v = val("--model-timeout=")) g.S.modelTimeout = atof(v);
        else if (auto v = val("--steps=")) g.maxSteps = strtoull(v, nullptr, 10);
        else if (auto v = val("--paths=")) g.maxPaths = atol(v);
        else if (auto v = val("--witness=")) g.wantWitness = atol(v);
        else if (auto v = val("--dump=")) g.S.dumpDir = v;
        else if (auto v = val("--seed=")) g.rngBase.seed(strtoull(v, nullptr, 10));
        else if (auto v = val("--repo=")) g.repoPrefix = v;
        else if (auto v = val("--terms=")) g.X.termLimit = (size_t)atol(v);
        else if (a == "--ieee") g.ieee = true;
        else if (a == "--ovf") g.checkOvf = true;
        else if (a == "--ite") g.forkReal = false;
        else if (a == "--first") g.stopFirst = true;
        else if (a == "-v") g.verbose = true;
        else file = a;
    }
    SMDiagnostic Dg;
    g.M = parseIRFile(file, Dg, g.C);
    if (!g.M) { Dg.print("hx", errs()); return 2; }
    g.DL = &g.M->getDataLayout();
    int rc = g.run(entry);
    if (rc) return rc;
    g.report(entry, out);
    return 0;
}
