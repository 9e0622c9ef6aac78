    // ---- external functions, intrinsics and the hx_* harness interface
    double fpArg(const V& v)
    {
        E e = D(v);
        if (ieee && Ctx::isfc(e)) return Ctx::fval(e);
        if (!ieee && Ctx::isrc(e)) return Ctx::rcv(e).get_d();
        throw Unsupported("expected a concrete double");
    }
    mpq_class qArg(const V& v)
    {
        E e = D(v);
        if (ieee && Ctx::isfc(e)) return mpq_class(Ctx::fval(e));
        if (!ieee && e->op == Op::POLY && Ctx::isrc(e)) return Ctx::rcv(e);
        throw Unsupported("expected a concrete double");
    }
    void assume(E c)
    {
        State& s = *cur;
        if (c == X.T) return;
        if (c == X.F) throw Kill{};
        Res r = feasible(s, c);
        if (r == UNSAT) throw Kill{};
        addFact(s, c);
    }
    E mkreal(const std::string& name, bool haslo, mpq_class lo, bool los, bool hashi, mpq_class hi, bool his)
    {
        std::string n = uniq(name);
        E e;
        if (ieee) {
            e = X.fvar(n);
            note(n, e);
            if (haslo) addFact(*cur, los ? X.fop(Op::FLT, {X.fconst(lo.get_d()), e}) : X.fop(Op::FLE, {X.fconst(lo.get_d()), e}));
            if (hashi) addFact(*cur, his ? X.fop(Op::FLT, {e, X.fconst(hi.get_d())}) : X.fop(Op::FLE, {e, X.fconst(hi.get_d())}));
            return e;
        }
        e = X.rvar(n);
        Atom& a = *X.atoms[e->p[0].m->f[0].first];
        a.haslo = haslo; a.lo = lo; a.lostrict = los; a.hashi = hashi; a.hi = hi; a.histrict = his;
        a.sign = SANY;
        if (haslo && (lo > 0 || (lo == 0 && los))) a.sign = SPOS;
        else if (haslo && lo == 0) a.sign = SPOS | SZERO;
        if (hashi && (hi < 0 || (hi == 0 && his))) a.sign = SNEG;
        note(n, e);
        return e;
    }
    V reduceMinMax(const std::string& n, const V& a, const V& b)
    {
        bool mn = n.find("min") != std::string::npos, sg = n.find("llvm.s") == 0;
        if (a.k == V::CINT && b.k == V::CINT) {
            bool lt = sg ? Ctx::sx(a.c, a.w) < Ctx::sx(b.c, b.w) : a.c < b.c;
            return lt == mn ? a : b;
        }
        E x = toE(a), y = toE(b);
        E c = X.cmp(sg ? Op::SLT : Op::ULT, x, y);
        return fromE(mn ? X.ite(c, x, y) : X.ite(c, y, x));
    }
    std::string fmt(const std::string& f, const std::vector<V>& va)
    { // subset of printf formatting, concrete arguments only
        std::string r;
        size_t k = 0;
        for (size_t i = 0; i < f.size(); ++i) {
            if (f[i] != '%') { r += f[i]; continue; }
            if (i + 1 < f.size() && f[i + 1] == '%') { r += '%'; ++i; continue; }
            std::string sp = "%";
            ++i;
            while (i < f.size() && strchr("-+ #0123456789.*", f[i])) { if (f[i] == '*') { sp += std::to_string((int)cint(va.at(k++))); } else sp += f[i]; ++i; }
            while (i < f.size() && strchr("hlzjtL", f[i])) ++i;
            char buf[512];
            char c = f[i];
            if (c == 's') { std::string s = cstr(*cur, cint(va.at(k++))); snprintf(buf, sizeof buf, (sp + "s").c_str(), s.c_str()); r += buf; }
            else if (c == 'c') { r += (char)cint(va.at(k++)); }
            else if (strchr("dixXuo", c)) {
                const V& v = va.at(k++);
                uint64_t x = cint(v);
                if (c == 'd' || c == 'i') { long long y = (long long)Ctx::sx(x, v.w ? v.w : 64); snprintf(buf, sizeof buf, (sp + "lld").c_str(), y); }
                else snprintf(buf, sizeof buf, (sp + "ll" + c).c_str(), (unsigned long long)x);
                r += buf;
            } else if (strchr("eEfFgGaA", c)) { snprintf(buf, sizeof buf, (sp + c).c_str(), fpArg(va.at(k++))); r += buf; }
            else if (c == 'p') { snprintf(buf, sizeof buf, "0x%llx", (unsigned long long)cint(va.at(k++))); r += buf; }
            else throw Unsupported("format " + f);
        }
        return r;
    }
    void writeStr(uint64_t a, const std::string& t)
    {
        for (size_t i = 0; i <= t.size(); ++i) store(*cur, a + i, V::ci(i < t.size() ? (uint8_t)t[i] : 0, 8), Type::getInt8Ty(C));
    }
    enum { NOTBUILTIN = -100 };

    void doCall(DInst& d)
    {
        State& s = *cur;
        const CallBase* cb = cast<CallBase>(d.I);
        if (cb->isInlineAsm()) { afterCall(V()); return; }
        const Function* F = d.callee;
        size_t na = cb->arg_size();
        if (!F) {
            uint64_t a = cint(get(d.ops[na]));
            auto it = faddr.find(a);
            if (it == faddr.end()) throw PathError{"memory", "call through an invalid function pointer"};
            F = it->second;
        }
        if (!F->isDeclaration() && F->getName() != "abort") {
            std::vector<V> args;
            args.reserve(na);
            for (size_t i = 0; i < na; ++i) args.push_back(get(d.ops[i]));
            pushCall(F, std::move(args));
            return;
        }
        std::vector<V> A;
        for (size_t i = 0; i < na; ++i) A.push_back(get(d.ops[i]));
        std::string n = F->getName().str();
        V r;
        if (n.rfind("llvm.", 0) == 0) r = intrinsic(n, A, cb, d);
        else if (n.rfind("hx_", 0) == 0) r = hx(n, A);
        else if (external(n, A, cb, d, r)) {}
        else throw Unsupported("call to external function " + demangle(n));
        if (r.k == V::CINT && r.w == 200) return; // control transferred
        afterCall(std::move(r));
    }
    static V transferred() { V v; v.k = V::CINT; v.w = 200; return v; }

    V intrinsic(const std::string& n, std::vector<V>& A, const CallBase* cb, DInst& d)
    {
        State& s = *cur;
        auto is = [&](const char* p) { return n.compare(0, strlen(p), p) == 0; };
        if (is("llvm.memcpy") || is("llvm.memmove")) { copyMem(s, cint(A[0]), cint(A[1]), cint(A[2])); return V(); }
        if (is("llvm.memset")) { uint64_t p = cint(A[0]), len = cint(A[2]); if (A[1].undef()) return V(); setMem(s, p, toE(A[1]), len); return V(); }
        if (is("llvm.lifetime") || is("llvm.dbg") || is("llvm.assume") || is("llvm.stackrestore") || is("llvm.experimental.noalias") || is("llvm.donothing") || is("llvm.va_end") || is("llvm.prefetch") || is("llvm.invariant")) return V();
        if (is("llvm.stacksave")) return V::ci(0, 64);
        if (is("llvm.expect")) return A[0];
        if (is("llvm.launder") || is("llvm.strip.invariant") || is("llvm.threadlocal.address")) return A[0];
        if (is("llvm.is.constant")) return V::ci(0, 1);
        if (is("llvm.objectsize")) return V::ci(~0ull, d.bits);
        if (is("llvm.trap") || is("llvm.ubsantrap") || is("llvm.debugtrap")) throw PathError{"abort", "trap"};
        if (is("llvm.eh.typeid.for")) return V::ci((uint64_t)typeId(cint(A[0])), 32);
        if (is("llvm.fabs")) { if (A[0].undef()) return V(); return V::ex(dabs(D(A[0]))); }
        if (is("llvm.sqrt")) { if (A[0].undef()) return V(); return V::ex(dsqrt(D(A[0]))); }
        if (is("llvm.minnum") || is("llvm.minimum")) return V::ex(dmin(D(A[0]), D(A[1])));
        if (is("llvm.maxnum") || is("llvm.maximum")) return V::ex(dmax(D(A[0]), D(A[1])));
        if (is("llvm.fmuladd") || is("llvm.fma")) {
            if (A[0].undef() || A[1].undef() || A[2].undef()) return V();
            E a = D(A[0]), b = D(A[1]), c = D(A[2]);
            if (ieee) return V::ex(X.fop(Op::FADD, {X.fop(Op::FMUL, {a, b}), c}));
            return V::ex(X.add(X.mul(a, b), c));
        }
        if (is("llvm.copysign")) return V::ex(copysignD(D(A[0]), D(A[1])));
        if (is("llvm.floor")) return V::ex(ieee ? X.fop(Op::FROUND, {D(A[0])}, 0) : dfloor(D(A[0])));
        if (is("llvm.ceil")) return V::ex(ieee ? X.fop(Op::FROUND, {D(A[0])}, 1) : X.neg(dfloor(X.neg(D(A[0])))));
        if (is("llvm.trunc")) return V::ex(ieee ? X.fop(Op::FROUND, {D(A[0])}, 2) : truncD(D(A[0])));
        if (is("llvm.round") || is("llvm.rint") || is("llvm.nearbyint")) return V::ex(ieee ? X.fop(Op::FROUND, {D(A[0])}, 3) : dfloor(X.add(D(A[0]), X.rconst(mpq_class(1, 2)))));
        if (is("llvm.powi")) return V::ex(dpow(D(A[0]), dbl((double)(int)cint(A[1]))));
        if (is("llvm.pow")) return V::ex(dpow(D(A[0]), D(A[1])));
        for (const char* fn : {"sin", "cos", "exp2", "exp", "log10", "log2", "log", "tan"}) if (is((std::string("llvm.") + fn + ".").c_str())) return V::ex(libm1(fn, D(A[0])));
        if (is("llvm.is.fpclass")) {
            uint64_t m = cint(A[1]);
            E a = D(A[0]);
            if (ieee) {
                E z = X.fconst(0), r = X.F, nan = X.fop(Op::FISNAN, {a}), inf = X.fop(Op::FISINF, {a}), ng = X.fop(Op::FLT, {a, z});
                if (m & 3) r = X.bor(r, nan);
                if ((m & 0x204) == 0x204) r = X.bor(r, inf);
                else if (m & 4) r = X.bor(r, X.band(inf, ng));
                else if (m & 0x200) r = X.bor(r, X.band(inf, X.bnot(ng)));
                if ((m & 0x1f8) == 0x1f8) r = X.bor(r, X.band(X.bnot(nan), X.bnot(inf)));
                else if (m & 0x1f8) throw Unsupported("is.fpclass mask");
                return fromE(r);
            }
            if (a == X.NAN_) return V::ci((m & 3) != 0, 1);
            if (a == X.PINF) return V::ci((m & 0x200) != 0, 1);
            if (a == X.NINF) return V::ci((m & 4) != 0, 1);
            if ((m & 0x1f8) == 0x1f8) return V::ci(1, 1);
            if ((m & 0x1f8) == 0) return V::ci(0, 1);
            throw Unsupported("is.fpclass mask");
        }
        if (is("llvm.smin") || is("llvm.smax") || is("llvm.umin") || is("llvm.umax")) return reduceMinMax(n, A[0], A[1]);
        if (is("llvm.abs")) { E x = toE(A[0]); return fromE(X.ite(X.cmp(Op::SLT, x, X.bv(0, x->width)), X.bvop(Op::SUB, X.bv(0, x->width), x), x)); }
        if (n.find(".with.overflow") != std::string::npos) {
            E x = toE(A[0]), y = toE(A[1]);
            unsigned w = x->width;
            bool sg = is("llvm.s");
            Op op = n.find("add") != std::string::npos ? Op::ADD : n.find("sub") != std::string::npos ? Op::SUB : Op::MUL;
            unsigned W = op == Op::MUL ? 2 * w : w + 1;
            if (W > 128) W = 128;
            E res = X.bvop(op, x, y), big, back;
            if (sg) { big = X.bvop(op, X.sext(x, W), X.sext(y, W)); back = X.sext(res, W); }
            else { big = X.bvop(op, X.zext(x, W), X.zext(y, W)); back = X.zext(res, W); }
            V v; v.k = V::AGG; v.a = std::make_shared<std::vector<V>>();
            v.a->push_back(fromE(res)); v.a->push_back(fromE(X.bnot(X.eq(big, back))));
            return v;
        }
        if (is("llvm.usub.sat") || is("llvm.uadd.sat")) {
            E x = toE(A[0]), y = toE(A[1]);
            if (is("llvm.usub.sat")) return fromE(X.ite(X.cmp(Op::ULT, x, y), X.bv(0, x->width), X.bvop(Op::SUB, x, y)));
            E r = X.bvop(Op::ADD, x, y);
            return fromE(X.ite(X.cmp(Op::ULT, r, x), X.bv(~(u128)0, x->width), r));
        }
        if (is("llvm.ctpop") || is("llvm.ctlz") || is("llvm.cttz") || is("llvm.bswap") || is("llvm.bitreverse")) {
            uint64_t v = cint(A[0]);
            unsigned w = A[0].w ? A[0].w : d.bits;
            if (is("llvm.ctpop")) return V::ci((uint64_t)__builtin_popcountll(v), w);
            if (is("llvm.ctlz")) { unsigned k = 0; while (k < w && !((v >> (w - 1 - k)) & 1)) ++k; return V::ci(k, w); }
            if (is("llvm.cttz")) { unsigned k = 0; while (k < w && !((v >> k) & 1)) ++k; return V::ci(k, w); }
            if (is("llvm.bswap")) { uint64_t r = 0; for (unsigned i = 0; i < w / 8; ++i) r |= ((v >> (8 * i)) & 0xff) << (w - 8 - 8 * i); return V::ci(r, w); }
        }
        if (is("llvm.fshl") || is("llvm.fshr")) {
            uint64_t k = cint(A[2]) % d.bits;
            E x = toE(A[0]), y = toE(A[1]);
            E c = X.concat(x, y);
            if (is("llvm.fshl")) return fromE(X.extract(X.bvop(Op::SHL, c, X.bv(k, c->width)), 2 * d.bits - 1, d.bits));
            return fromE(X.extract(X.bvop(Op::LSHR, c, X.bv(k, c->width)), d.bits - 1, 0));
        }
        if (is("llvm.va_start")) return V();
        throw Unsupported("intrinsic " + n);
    }
    E truncD(E a)
    {
        if (X.special(a)) return a;
        return decide(X.plt0(a)) ? X.neg(dfloor(X.neg(a))) : dfloor(a);
    }
    E copysignD(E a, E b)
    {
        if (ieee) {
            if (Ctx::isfc(a) && Ctx::isfc(b)) return X.fconst(std::copysign(Ctx::fval(a), Ctx::fval(b)));
            E z = X.fconst(0), m = X.fop(Op::FABS, {a});
            return decide(X.fop(Op::FLT, {b, z})) ? X.fop(Op::FNEG, {m}) : m; // -0.0 treated as +
        }
        E m = dabs(a);
        if (X.special(b)) return b == X.NINF ? X.neg(m) : m;
        return decide(X.plt0(b)) ? X.neg(m) : m;
    }

    V hx(const std::string& n, std::vector<V>& A)
    {
        State& s = *cur;
        auto str = [&](int i) { return cstr(s, cint(A[i])); };
        if (n == "hx_symbolic") return V::ci(1, 32);
        if (n == "hx_ieee") return V::ci(ieee, 32);
        if (n == "hx_real") return V::ex(mkreal(str(0), false, 0, false, false, 0, false));
        if (n == "hx_pos") return V::ex(mkreal(str(0), true, 0, true, false, 0, false));
        if (n == "hx_nonneg") return V::ex(mkreal(str(0), true, 0, false, false, 0, false));
        if (n == "hx_real_in") return V::ex(mkreal(str(0), true, qArg(A[1]), false, true, qArg(A[2]), false));
        if (n == "hx_real_inx") return V::ex(mkreal(str(0), true, qArg(A[1]), true, true, qArg(A[2]), true));
        if (n == "hx_real_ge") return V::ex(mkreal(str(0), true, qArg(A[1]), false, false, 0, false));
        if (n == "hx_real_gt") return V::ex(mkreal(str(0), true, qArg(A[1]), true, false, 0, false));
        if (n == "hx_inf") return V::ex(dbl(INFINITY));
        if (n == "hx_nan") return V::ex(dbl(NAN));
        if (n == "hx_int" || n == "hx_uint") {
            std::string nm = uniq(str(0));
            int64_t lo = (int64_t)cint(A[1]), hi = (int64_t)cint(A[2]);
            if (lo == hi) { note(nm, X.bv((uint64_t)lo, 64)); return V::ci((uint64_t)lo, 64); }
            // narrow variable when the range allows it, to keep the bit-blasting small
            unsigned w = 64;
            if (lo >= 0) { w = 1; while (w < 63 && (hi >> w)) ++w; }
            E v = X.bvvar(nm, w), e = X.zext(v, 64);
            note(nm, lo >= 0 && w < 64 ? e : v);
            if (lo >= 0) { if (lo > 0) addFact(s, X.cmp(Op::ULE, X.bv((uint64_t)lo, w), v)); addFact(s, X.cmp(Op::ULE, v, X.bv((uint64_t)hi, w))); }
            else { addFact(s, X.cmp(Op::SLE, X.bv((uint64_t)lo, 64), v)); addFact(s, X.cmp(Op::SLE, v, X.bv((uint64_t)hi, 64))); }
            return fromE(e);
        }
        if (n == "hx_byte") { std::string nm = uniq(str(0)); E v = X.bvvar(nm, 8); note(nm, v); return V::ex(X.zext(v, 32)); }
        if (n == "hx_bool") { std::string nm = uniq(str(0)); E v = X.bvarb(nm); note(nm, v); return fromE(X.b2bv(v, 32)); }
        if (n == "hx_choice") {
            int64_t lo = (int64_t)(int32_t)cint(A[1]), hi = (int64_t)(int32_t)cint(A[2]);
            std::string base = str(0);
            int k = s.names[base];
            std::string nm = k ? base + "#" + std::to_string(k) : base;
            E v = X.bvvar("ch:" + nm, 32);
            for (int64_t x = lo; x <= hi; ++x) {
                E c = X.eq(v, X.bv((uint64_t)x, 32));
                bool t;
                if (s.facts.count(c)) t = true;
                else if (s.facts.count(X.bnot(c))) t = false;
                else if (x == hi) t = true;
                else {
                    auto o = std::make_unique<State>(s);
                    o->id = ++nextId;
                    o->facts.insert(X.bnot(c));
                    o->lastObj.reset();
                    work.push_back(std::move(o));
                    ++forks;
                    t = true;
                }
                if (t) {
                    s.facts.insert(c);
                    s.names[base]++;
                    Input in; in.name = nm; in.e = nullptr; in.text = std::to_string(x);
                    s.inputs.push_back(in);
                    return V::ci((uint64_t)x, 32);
                }
            }
            throw Kill{};
        }
        if (n == "hx_assume") { E c = A[0].undef() ? (throw PathError{"uninit", "assumption on an uninitialised value"}, X.T) : toE(A[0]); if (c->sort == Sort::BV) c = X.bnot(X.eq(c, X.bv(0, c->width))); assume(c); return V(); }
        if (n == "hx_assert") { std::string l = str(1); if (A[0].undef()) { obligation(s, X.F, l, nullptr, "asserted value is uninitialised"); return V(); } E c = toE(A[0]); if (c->sort == Sort::BV) c = X.bnot(X.eq(c, X.bv(0, c->width))); obligation(s, c, l); return V(); }
        if (n == "hx_assert_eq" || n == "hx_assert_le" || n == "hx_assert_lt") {
            std::string l = str(2);
            if (A[0].undef() || A[1].undef()) { obligation(s, X.F, l, nullptr, "compared value is uninitialised"); return V(); }
            E a = D(A[0]), b = D(A[1]);
            if (ieee) { obligation(s, n == "hx_assert_eq" ? X.bor(deq(a, b), X.band(X.fop(Op::FISNAN, {a}), X.fop(Op::FISNAN, {b}))) : n == "hx_assert_le" ? dle(a, b) : dlt(a, b), l); return V(); }
            if (n == "hx_assert_eq" && a == b) { obligation(s, X.T, l); return V(); }
            if (X.special(a) || X.special(b)) { obligation(s, n == "hx_assert_eq" ? X.rcmp(0, a, b) : n == "hx_assert_le" ? X.rcmp(2, a, b) : X.rcmp(1, a, b), l); return V(); }
            E diff = X.sub(a, b), mg = X.rconst(mpq_class(1, 64));
            if (n == "hx_assert_eq") obligation(s, X.peq0(diff), l, X.bor(X.rcmp(2, mg, diff), X.rcmp(2, diff, X.neg(mg))));
            else if (n == "hx_assert_le") obligation(s, X.ple0(diff), l, X.rcmp(2, mg, diff));
            else obligation(s, X.plt0(diff), l);
            return V();
        }
        if (n == "hx_assert_finite") {
            std::string l = str(1);
            if (A[0].undef()) { obligation(s, X.F, l, nullptr, "value is uninitialised"); return V(); }
            E a = D(A[0]);
            if (ieee) { obligation(s, X.band(X.bnot(X.fop(Op::FISNAN, {a})), X.bnot(X.fop(Op::FISINF, {a}))), l); return V(); }
            obligation(s, X.boolc(!X.special(a)), l);
            return V();
        }
        if (n == "hx_reach") { reach[str(0)]++; return V(); }
        if (n == "hx_fail") { obligation(s, X.F, str(0)); throw Kill{}; }
        if (n == "hx_divmode") { s.divmode = (int)cint(A[0]); return V(); }
        if (n == "hx_uf" || n == "hx_uf_pos") {
            std::string nm = str(0);
            uint64_t p = cint(A[1]);
            int k = (int)cint(A[2]);
            std::vector<E> as;
            for (int i = 0; i < k; ++i) as.push_back(D(load(s, p + 8 * i, Type::getDoubleTy(C))));
            E r = ufcall("u:" + nm, as, n == "hx_uf_pos" ? SPOS : SANY);
            note("uf:" + nm, r);
            return V::ex(r);
        }
        if (n == "hx_par_begin") { s.par = true; s.iter = -1; s.race.clear(); return V(); }
        if (n == "hx_par_iter") { s.iter = (int32_t)cint(A[0]); return V(); }
        if (n == "hx_par_end") { s.par = false; s.iter = -1; s.race.clear(); return V(); }
        if (n == "hx_concretize") { E e = toE(A[0]); uint64_t v = A[0].k == V::CINT ? A[0].c : concretize(e); return V::ci(v, 64); }
        if (n == "hx_is_undef") { uint64_t a = cint(A[0]); V v = load(s, a, Type::getDoubleTy(C)); return V::ci(v.undef(), 32); }
        if (n == "hx_poison") { uint64_t a = cint(A[0]); store(s, a, V(), Type::getDoubleTy(C)); return V(); }
        if (n == "hx_forkreal") { forkReal = cint(A[0]) != 0; return V(); }
        if (n == "hx_fork") { E c = toE(A[0]); if (c->sort == Sort::BV) c = X.bnot(X.eq(c, X.bv(0, c->width))); bool b = decide(c); return V::ci(b, 32); }
        if (n == "hx_kill") throw Kill{};
        if (n == "hx_stop") { throw Incomplete{"bound: " + str(0)}; }
        if (n == "hx_show") {
            std::string l = str(0);
            if (A[1].undef()) { fprintf(stderr, "[show] %s = undef\n", l.c_str()); return V(); }
            E e = D(A[1]);
            if (Ctx::isrc(e) && e->op == Op::POLY) fprintf(stderr, "[show] %s = %g\n", l.c_str(), Ctx::rcv(e).get_d());
            else { bool b; std::vector<std::string> vv; std::string t = S.text({X.bvarb("x")}, &vv, {e}, b); fprintf(stderr, "[show] %s =\n%s %s\n", l.c_str(), t.substr(0, 3000).c_str(), vv.back().c_str()); }
            return V();
        }
        if (n == "hx_print") { fprintf(stderr, "[print] %s\n", str(0).c_str()); return V(); }
        throw Unsupported("call to " + n);
    }
    bool external(const std::string& n, std::vector<V>& A, const CallBase* cb, DInst& d, V& r)
    {
        State& s = *cur;
        auto is = [&](const char* p) { return n == p; };
        if (is("malloc") || is("_Znwm") || is("_Znam") || is("_ZnwmSt11align_val_t") || is("_ZnamSt11align_val_t") || is("_ZnwmRKSt9nothrow_t") || is("_ZnamRKSt9nothrow_t")) { r = V::ci(alloc(s, cint(A[0]), 0, "heap"), 64); return true; }
        if (is("aligned_alloc")) { r = V::ci(alloc(s, cint(A[1]), 0, "heap"), 64); return true; }
        if (is("calloc")) { r = V::ci(alloc(s, cint(A[0]) * cint(A[1]), 0, "heap", true), 64); return true; }
        if (is("realloc")) {
            uint64_t p = cint(A[0]), n2 = cint(A[1]);
            uint64_t a = alloc(s, n2, 0, "heap");
            if (p) { auto it = s.mem.find(p); if (it == s.mem.end()) throw PathError{"memory", "realloc of an invalid pointer"}; copyMem(s, a, p, std::min<uint64_t>(n2, it->second->size)); s.mem.erase(p); s.lastObj.reset(); }
            r = V::ci(a, 64);
            return true;
        }
        if (is("free") || n.rfind("_ZdlPv", 0) == 0 || n.rfind("_ZdaPv", 0) == 0) {
            uint64_t p = cint(A[0]);
            if (!p) return true;
            auto it = s.mem.find(p);
            if (it == s.mem.end() || it->second->kind != 0) throw PathError{"memory", "free of an invalid pointer"};
            s.mem.erase(it);
            s.lastObj.reset();
            return true;
        }
        if (is("memcpy") || is("memmove")) { copyMem(s, cint(A[0]), cint(A[1]), cint(A[2])); r = A[0]; return true; }
        if (is("memset")) { setMem(s, cint(A[0]), X.extract(toE(A[1]), 7, 0), cint(A[2])); r = A[0]; return true; }
        // exceptions
        if (is("__cxa_allocate_exception")) { r = V::ci(alloc(s, cint(A[0]) + 16, 0, "exception"), 64); return true; }
        if (is("__cxa_free_exception")) { s.mem.erase(cint(A[0])); return true; }
        if (is("__cxa_throw")) { Exc ex{cint(A[0]), cint(A[1])}; unwindFromCall(ex); r = transferred(); return true; }
        if (is("__cxa_begin_catch")) { uint64_t o = cint(A[0]); s.caught.push_back(s.excs.count(o) ? s.excs[o] : Exc{o, 0}); r = V::ci(o, 64); return true; }
        if (is("__cxa_get_exception_ptr")) { r = A[0]; return true; }
        if (is("__cxa_end_catch")) { if (!s.caught.empty()) s.caught.pop_back(); return true; }
        if (is("__cxa_rethrow")) { if (s.caught.empty()) throw PathError{"abort", "rethrow without exception"}; Exc ex = s.caught.back(); unwindFromCall(ex); r = transferred(); return true; }
        if (is("__clang_call_terminate") || is("_ZSt9terminatev")) throw PathError{"abort", "std::terminate"};
        if (is("__cxa_pure_virtual")) throw PathError{"abort", "pure virtual call"};
        if (is("abort") || is("__assert_fail") || is("__stack_chk_fail") || is("_ZSt21__glibcxx_assert_failPKciS0_S0_")) throw PathError{"abort", n == "__assert_fail" ? "assertion failed: " + cstr(s, cint(A[0])) : n};
        if (is("exit") || is("_exit")) throw PathError{"abort", "exit() called"};
        if (is("__cxa_atexit") || is("atexit") || is("__cxa_thread_atexit")) { r = V::ci(0, 32); return true; }
        if (is("__cxa_guard_acquire")) { uint64_t a = cint(A[0]); V v = load(s, a, Type::getInt8Ty(C)); r = V::ci(cint(v) == 0, 32); return true; }
        if (is("__cxa_guard_release")) { store(s, cint(A[0]), V::ci(1, 8), Type::getInt8Ty(C)); return true; }
        if (is("__cxa_guard_abort")) return true;
        // output
        if (is("printf") || is("fprintf") || is("puts") || is("putchar") || is("fputs") || is("fputc") || is("fflush") || is("fwrite") || is("putc") || is("vprintf") || is("perror")) { r = V::ci(0, 32); if (d.bits == 64) r = V::ci(0, 64); return true; }
        if (is("snprintf") || is("sprintf") || is("vsnprintf") || is("vsprintf")) {
            int fi = is("sprintf") || is("vsprintf") ? 1 : 2;
            std::vector<V> va(A.begin() + fi + 1, A.end());
            if (n[0] == 'v') { // the arguments of the nearest variadic caller, taken from the first
                va.clear();
                for (size_t k = s.fr.size(); k-- > 0;) if (s.fr[k].f->F->isVarArg()) { va = s.fr[k].varargs; break; }
            }
            std::string t = fmt(cstr(s, cint(A[fi])), va);
            int full = (int)t.size();
            if (fi == 2) { uint64_t m = cint(A[1]); if (m == 0) { r = V::ci((uint64_t)full, 32); return true; } if (t.size() >= m) t.resize(m - 1); }
            writeStr(cint(A[0]), t);
            r = V::ci((uint64_t)full, 32);
            return true;
        }
        if (is("__errno_location")) { auto it = s.names.find("%errno"); if (it == s.names.end()) { uint64_t a = alloc(s, 8, 0, "errno", true); s.names["%errno"] = (int)a; } r = V::ci((uint64_t)(uint32_t)s.names["%errno"], 64); return true; }
        if (is("getenv")) { r = V::ci(0, 64); return true; }
        if (is("__gxx_personality_v0")) return true;
        if (is("__dynamic_cast")) { r = dynCast(cint(A[0]), cint(A[1]), cint(A[2])); return true; }
        // math
        static const std::set<std::string> m1 = {"sin", "cos", "tan", "exp", "log", "log10", "tanh", "atan", "asin", "acos", "cbrt", "sinh", "cosh", "exp2", "log2", "logl", "log2l"};
        if (m1.count(n)) { r = V::ex(libm1(n, D(A[0]))); return true; }
        if (is("atan2")) { r = V::ex(datan2(D(A[0]), D(A[1]))); return true; }
        if (is("pow")) { r = V::ex(dpow(D(A[0]), D(A[1]))); return true; }
        if (is("sqrt")) { r = V::ex(dsqrt(D(A[0]))); return true; }
        if (is("fabs")) { r = V::ex(dabs(D(A[0]))); return true; }
        if (is("fmin")) { r = V::ex(dmin(D(A[0]), D(A[1]))); return true; }
        if (is("fmax")) { r = V::ex(dmax(D(A[0]), D(A[1]))); return true; }
        if (is("copysign")) { r = V::ex(copysignD(D(A[0]), D(A[1]))); return true; }
        if (is("fma")) { r = V::ex(ieee ? X.fop(Op::FADD, {X.fop(Op::FMUL, {D(A[0]), D(A[1])}), D(A[2])}) : X.add(X.mul(D(A[0]), D(A[1])), D(A[2]))); return true; }
        if (is("floor")) { r = V::ex(ieee ? X.fop(Op::FROUND, {D(A[0])}, 0) : dfloor(D(A[0]))); return true; }
        if (is("ceil")) { r = V::ex(ieee ? X.fop(Op::FROUND, {D(A[0])}, 1) : X.neg(dfloor(X.neg(D(A[0]))))); return true; }
        if (is("trunc")) { r = V::ex(ieee ? X.fop(Op::FROUND, {D(A[0])}, 2) : truncD(D(A[0]))); return true; }
        if (is("round")) { r = V::ex(ieee ? X.fop(Op::FROUND, {D(A[0])}, 3) : dfloor(X.add(D(A[0]), X.rconst(mpq_class(1, 2))))); return true; }
        if (is("fmod")) { E a = D(A[0]), b = D(A[1]); E qn = ddiv(a, b); E fl = truncD(qn); r = V::ex(X.sub(a, X.mul(b, fl))); return true; }
        if (is("hypot")) { E a = D(A[0]), b = D(A[1]); r = V::ex(dsqrt(X.add(X.mul(a, a), X.mul(b, b)))); return true; }
        return false;
    }
    void unwindFromCall(Exc ex) { unwind(ex); }
    V dynCast(uint64_t p, uint64_t, uint64_t dst)
    { // single inheritance at offset 0 only
        if (!p) return V::ci(0, 64);
        V vt = load(*cur, p, PointerType::get(C, 0));
        uint64_t ti = cint(load(*cur, cint(vt) - 8, PointerType::get(C, 0)));
        return V::ci(typeMatch(ti, dst) ? p : 0, 64);
    }
