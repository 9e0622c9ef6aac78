// SMT-LIB2 rendering of expression DAGs and solver processes (z3, cvc5).
#pragma once
#include "expr.hpp"
#include <chrono>
#include <csignal>
#include <cstdio>
#include <fcntl.h>
#include <poll.h>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>

inline double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
enum Res { UNSAT, SAT, UNKNOWN };
typedef std::map<std::string, std::string> Model; // smt name -> value text

inline std::string q(const mpq_class& c)
{
    mpq_class a = c < 0 ? mpq_class(-c) : c;
    std::string s = a.get_den() == 1 ? a.get_num().get_str() + ".0" : "(/ " + a.get_num().get_str() + ".0 " + a.get_den().get_str() + ".0)";
    return c < 0 ? "(- " + s + ")" : s;
}

struct Render {
    Ctx& X;
    std::string out; // declarations and definitions
    std::vector<std::string> side; // side constraints (text)
    std::unordered_map<E, std::string> memo;
    std::unordered_map<uint32_t, std::string> amemo, imemo;
    std::map<std::string, std::vector<uint32_t>> ufs;
    std::set<std::string> declared;
    bool hasReal = false, hasBV = false, hasFP = false, hasUF = false;
    Render(Ctx& x) : X(x) {}
    static std::string sn(const std::string& n) { return "|" + n + "|"; }

    static const char* opn(Op o)
    {
        switch (o) {
        case Op::ADD: return "bvadd"; case Op::SUB: return "bvsub"; case Op::MUL: return "bvmul";
        case Op::UDIV: return "bvudiv"; case Op::SDIV: return "bvsdiv"; case Op::UREM: return "bvurem"; case Op::SREM: return "bvsrem";
        case Op::AND: return "bvand"; case Op::OR: return "bvor"; case Op::XOR: return "bvxor";
        case Op::SHL: return "bvshl"; case Op::LSHR: return "bvlshr"; case Op::ASHR: return "bvashr";
        case Op::CONCAT: return "concat"; case Op::EQ: return "="; case Op::ULT: return "bvult"; case Op::ULE: return "bvule";
        case Op::SLT: return "bvslt"; case Op::SLE: return "bvsle"; case Op::BAND: return "and"; case Op::BOR: return "or"; case Op::BNOT: return "not";
        case Op::ITE: case Op::BITE: case Op::FITE: return "ite";
        default: return "?";
        }
    }
    std::string sort(E e)
    {
        switch (e->sort) {
        case Sort::Bool: return "Bool";
        case Sort::BV: return "(_ BitVec " + std::to_string(e->width) + ")";
        case Sort::Real: return "Real";
        default: return "(_ FloatingPoint 11 53)";
        }
    }
    static std::string bvlit(u128 v, unsigned w)
    {
        std::string s = "#b";
        for (int i = (int)w - 1; i >= 0; --i) s += ((v >> i) & 1) ? '1' : '0';
        return s;
    }
    void decl(const std::string& n, const std::string& s)
    {
        if (declared.insert(n).second) out += "(declare-const " + n + " " + s + ")\n";
    }
    std::string atom(uint32_t id)
    {
        auto it = amemo.find(id);
        if (it != amemo.end()) return it->second;
        const Atom& a = *X.atoms[id];
        std::string n;
        hasReal = true;
        switch (a.kind) {
        case AK::Var:
            n = sn(a.name);
            decl(n, "Real");
            amemo[id] = n;
            if (a.haslo) side.push_back(std::string("(") + (a.lostrict ? ">" : ">=") + " " + n + " " + q(a.lo) + ")");
            if (a.hashi) side.push_back(std::string("(") + (a.histrict ? "<" : "<=") + " " + n + " " + q(a.hi) + ")");
            return n;
        case AK::Sqrt: {
            std::string x = r(a.args[0]);
            n = "sq" + std::to_string(id);
            decl(n, "Real");
            side.push_back(std::string("(") + (a.sign == SPOS ? ">" : ">=") + " " + n + " 0.0)");
            side.push_back("(= (* " + n + " " + n + ") " + x + ")");
            break;
        }
        case AK::Def: {
            std::string x = r(a.args[0]);
            n = "df" + std::to_string(id);
            out += "(define-fun " + n + " () Real " + x + ")\n";
            break;
        }
        case AK::Ite: {
            std::string c = r(a.args[0]), x = r(a.args[1]), y = r(a.args[2]);
            n = "it" + std::to_string(id);
            out += "(define-fun " + n + " () Real (ite " + c + " " + x + " " + y + "))\n";
            break;
        }
        case AK::Uf: {
            hasUF = true;
            std::vector<std::string> as;
            for (E x : a.args) as.push_back(r(x));
            n = "uf" + std::to_string(id);
            decl(n, "Real");
            if (a.sign == SPOS) side.push_back("(> " + n + " 0.0)");
            else if (a.sign == (SPOS | SZERO)) side.push_back("(>= " + n + " 0.0)");
            for (uint32_t o : ufs[a.name]) {
                const Atom& b = *X.atoms[o];
                if (b.args.size() != a.args.size()) continue;
                std::string eqs;
                bool never = false;
                for (size_t i = 0; i < a.args.size(); ++i) {
                    if (a.args[i] == b.args[i]) continue;
                    if (a.args[i]->sort == Sort::Real) {
                        E d = X.peq0(X.sub(a.args[i], b.args[i]));
                        if (d == X.F) { never = true; break; }
                        eqs += " " + r(d);
                    } else {
                        E d = X.eq(a.args[i], b.args[i]);
                        if (d == X.F) { never = true; break; }
                        eqs += " " + r(d);
                    }
                }
                if (never) continue;
                side.push_back("(=> (and true" + eqs + ") (= " + n + " uf" + std::to_string(o) + "))");
            }
            ufs[a.name].push_back(id);
            if (a.name == "sin" || a.name == "cos") {
                side.push_back("(<= (* " + n + " " + n + ") 1.0)");
                std::string other = a.name == "sin" ? "cos" : "sin";
                for (uint32_t o : ufs[other])
                    if (X.atoms[o]->args[0] == a.args[0]) side.push_back("(= (+ (* " + n + " " + n + ") (* uf" + std::to_string(o) + " uf" + std::to_string(o) + ")) 1.0)");
            }
            break;
        }
        case AK::I2R: {
            std::string x = r(a.args[0]);
            n = "i2r" + std::to_string(id);
            unsigned w = a.args[0]->width;
            std::string u = "(to_real (bv2nat " + x + "))";
            if (a.sgnd) {
                mpz_class p = 1; p <<= w;
                u = "(ite (bvslt " + x + " " + bvlit(0, w) + ") (- " + u + " " + p.get_str() + ".0) " + u + ")";
            }
            out += "(define-fun " + n + " () Real " + u + ")\n";
            break;
        }
        case AK::Floor: {
            std::string x = r(a.args[0]);
            n = "fl" + std::to_string(id);
            out += "(define-fun " + n + " () Real (to_real (to_int " + x + ")))\n";
            break;
        }
        }
        amemo[id] = n;
        return n;
    }
    std::string inva(uint32_t id)
    {
        auto it = imemo.find(id);
        if (it != imemo.end()) return it->second;
        std::string a = atom(id), n = "inv" + std::to_string(id);
        decl(n, "Real");
        side.push_back("(= (* " + n + " " + a + ") 1.0)");
        if (X.atoms[id]->sign == SPOS) side.push_back("(> " + n + " 0.0)");
        imemo[id] = n;
        return n;
    }
    std::string poly(E e)
    {
        hasReal = true;
        if (e->p.empty()) return "0.0";
        std::vector<std::string> ts;
        for (auto& t : e->p) {
            std::vector<std::string> fs;
            if (t.c != 1 || t.m->f.empty()) fs.push_back(q(t.c));
            for (auto& f : t.m->f) {
                std::string s = f.second > 0 ? atom(f.first) : inva(f.first);
                for (int i = 0; i < std::abs(f.second); ++i) fs.push_back(s);
            }
            if (fs.size() == 1) ts.push_back(fs[0]);
            else { std::string s = "(*"; for (auto& x : fs) s += " " + x; ts.push_back(s + ")"); }
        }
        if (ts.size() == 1) return ts[0];
        std::string s = "(+";
        for (auto& x : ts) s += " " + x;
        return s + ")";
    }
    std::string r(E e)
    {
        auto it = memo.find(e);
        if (it != memo.end()) return it->second;
        std::string s;
        bool leaf = false;
        switch (e->op) {
        case Op::BTRUE: s = "true"; leaf = true; break;
        case Op::BFALSE: s = "false"; leaf = true; break;
        case Op::BVAR: s = sn(e->name); decl(s, "Bool"); leaf = true; break;
        case Op::CONST: hasBV = true; s = bvlit(e->c, e->width); leaf = true; break;
        case Op::VAR: hasBV = true; s = sn(e->name); decl(s, sort(e)); leaf = true; break;
        case Op::POLY: s = poly(e); leaf = e->p.size() <= 1; break;
        case Op::RPINF: case Op::RNINF: case Op::RNAN: throw Unsupported("inf/nan in a real formula");
        case Op::PEQ0: case Op::PLT0: case Op::PLE0: {
            // split positive and negative terms
            std::vector<Term> P, N;
            for (auto& t : e->k[0]->p) if (t.c > 0) P.push_back(t); else { Term u = t; u.c = -u.c; N.push_back(u); }
            std::string a = r(X.mkpoly(P)), b = r(X.mkpoly(N));
            s = std::string("(") + (e->op == Op::PEQ0 ? "=" : e->op == Op::PLT0 ? "<" : "<=") + " " + a + " " + b + ")";
            break;
        }
        case Op::EXTRACT: s = "((_ extract " + std::to_string(e->aux) + " " + std::to_string(e->aux2) + ") " + r(e->k[0]) + ")"; break;
        case Op::ZEXT: s = "((_ zero_extend " + std::to_string(e->width - e->k[0]->width) + ") " + r(e->k[0]) + ")"; break;
        case Op::SEXT: s = "((_ sign_extend " + std::to_string(e->width - e->k[0]->width) + ") " + r(e->k[0]) + ")"; break;
        case Op::R2BV: { // truncation toward zero of a real, in range by side condition
            std::string x = r(e->k[0]);
            s = "((_ int2bv " + std::to_string(e->width) + ") (ite (>= " + x + " 0.0) (to_int " + x + ") (- (to_int (- " + x + ")))))";
            break;
        }
        case Op::FCONST: hasFP = true; s = "((_ to_fp 11 53) " + bvlit(e->c, 64) + ")"; break;
        case Op::FVAR: hasFP = true; s = sn(e->name); decl(s, sort(e)); leaf = true; break;
        case Op::FPBITS: { // fresh bit-vector tied to the float
            std::string n = "fb" + std::to_string(e->id);
            std::string x = r(e->k[0]);
            decl(n, "(_ BitVec 64)");
            side.push_back("(= ((_ to_fp 11 53) " + n + ") " + x + ")");
            s = n; leaf = true; break;
        }
        case Op::FP2SBV: s = "((_ fp.to_sbv " + std::to_string(e->width) + ") RTZ " + r(e->k[0]) + ")"; break;
        case Op::FP2UBV: s = "((_ fp.to_ubv " + std::to_string(e->width) + ") RTZ " + r(e->k[0]) + ")"; break;
        case Op::FFROMSBV: s = "((_ to_fp 11 53) RNE " + r(e->k[0]) + ")"; break;
        case Op::FFROMUBV: s = "((_ to_fp_unsigned 11 53) RNE " + r(e->k[0]) + ")"; break;
        case Op::FFROMBITS: s = "((_ to_fp 11 53) " + r(e->k[0]) + ")"; break;
        case Op::FADD: case Op::FSUB: case Op::FMUL: case Op::FDIV: {
            hasFP = true;
            const char* n = e->op == Op::FADD ? "fp.add" : e->op == Op::FSUB ? "fp.sub" : e->op == Op::FMUL ? "fp.mul" : "fp.div";
            s = std::string("(") + n + " RNE " + r(e->k[0]) + " " + r(e->k[1]) + ")";
            break;
        }
        case Op::FREM: throw Unsupported("frem");
        case Op::FSQRT: s = "(fp.sqrt RNE " + r(e->k[0]) + ")"; break;
        case Op::FNEG: s = "(fp.neg " + r(e->k[0]) + ")"; break;
        case Op::FABS: s = "(fp.abs " + r(e->k[0]) + ")"; break;
        case Op::FROUND: s = std::string("(fp.roundToIntegral ") + (e->aux == 0 ? "RTN" : e->aux == 1 ? "RTP" : e->aux == 2 ? "RTZ" : "RNA") + " " + r(e->k[0]) + ")"; break;
        case Op::FMIN: case Op::FMAX: {
            std::string a = r(e->k[0]), b = r(e->k[1]);
            std::string c = e->op == Op::FMIN ? "(fp.lt " + a + " " + b + ")" : "(fp.lt " + b + " " + a + ")";
            s = "(ite (fp.isNaN " + a + ") " + b + " (ite (fp.isNaN " + b + ") " + a + " (ite " + c + " " + a + " " + b + ")))";
            break;
        }
        case Op::FEQ: s = "(fp.eq " + r(e->k[0]) + " " + r(e->k[1]) + ")"; break;
        case Op::FLT: s = "(fp.lt " + r(e->k[0]) + " " + r(e->k[1]) + ")"; break;
        case Op::FLE: s = "(fp.leq " + r(e->k[0]) + " " + r(e->k[1]) + ")"; break;
        case Op::FISNAN: s = "(fp.isNaN " + r(e->k[0]) + ")"; break;
        case Op::FISINF: s = "(fp.isInfinite " + r(e->k[0]) + ")"; break;
        default: {
            std::vector<std::string> ks;
            for (E x : e->k) ks.push_back(r(x));
            s = std::string("(") + opn(e->op);
            for (auto& x : ks) s += " " + x;
            s += ")";
        }
        }
        if (!leaf) {
            std::string n = "e" + std::to_string(e->id);
            out += "(define-fun " + n + " () " + sort(e) + " " + s + ")\n";
            s = n;
        }
        memo[e] = s;
        return s;
    }
};

struct Proc {
    pid_t pid = -1;
    int in = -1, out = -1;
    std::string buf;
    std::vector<std::string> argv;
    void start(const std::vector<std::string>& a)
    {
        argv = a;
        int p1[2], p2[2];
        if (pipe2(p1, O_CLOEXEC) || pipe2(p2, O_CLOEXEC)) throw std::runtime_error("pipe");
        pid = fork();
        if (pid == 0) {
            dup2(p1[0], 0); dup2(p2[1], 1); dup2(p2[1], 2);
            std::vector<char*> v;
            for (auto& s : a) v.push_back((char*)s.c_str());
            v.push_back(nullptr);
            execvp(v[0], v.data());
            _exit(127);
        }
        close(p1[0]); close(p2[1]);
        in = p1[1]; out = p2[0];
        buf.clear();
    }
    void stop()
    {
        if (pid > 0) { kill(pid, SIGKILL); close(in); close(out); int st; waitpid(pid, &st, 0); pid = -1; }
    }
    ~Proc() { stop(); }
    bool send(const std::string& s)
    {
        size_t o = 0;
        while (o < s.size()) {
            // avoid deadlock: drain output while writing
            struct pollfd pf[2] = {{in, POLLOUT, 0}, {out, POLLIN, 0}};
            if (poll(pf, 2, 20000) <= 0) return false;
            if (pf[1].revents & (POLLIN)) { char b[65536]; ssize_t n = read(out, b, sizeof b); if (n <= 0) return false; buf.append(b, n); }
            if (pf[0].revents & (POLLERR | POLLHUP)) return false;
            if (pf[0].revents & POLLOUT) { ssize_t n = write(in, s.data() + o, std::min<size_t>(s.size() - o, 4096)); if (n <= 0) return false; o += n; }
        }
        return true;
    }
    // read until the sentinel line; false on timeout/eof
    bool readUntil(const std::string& sent, double deadline, std::string& res)
    {
        while (true) {
            size_t p = buf.find(sent);
            if (p != std::string::npos) { res = buf.substr(0, p); buf.erase(0, p + sent.size()); while (!buf.empty() && (buf[0] == '\n' || buf[0] == '"')) buf.erase(0, 1); return true; }
            double t = deadline - now();
            if (t <= 0) return false;
            struct pollfd pf = {out, POLLIN, 0};
            int k = poll(&pf, 1, (int)(t * 1000) + 1);
            if (k < 0) return false;
            if (k == 0) continue;
            char b[65536];
            ssize_t n = read(out, b, sizeof b);
            if (n <= 0) return false;
            buf.append(b, n);
        }
    }
};

struct SexpParser {
    const std::string& s; size_t i = 0;
    SexpParser(const std::string& x) : s(x) {}
    void ws() { while (i < s.size() && isspace((unsigned char)s[i])) ++i; }
    std::string any() // raw text of the next s-expression
    {
        ws();
        size_t b = i;
        if (i >= s.size()) return "";
        if (s[i] == '(') {
            int d = 0;
            bool bar = false;
            for (; i < s.size(); ++i) {
                if (s[i] == '|') bar = !bar;
                if (bar) continue;
                if (s[i] == '(') ++d;
                if (s[i] == ')') { --d; if (!d) { ++i; break; } }
            }
            return s.substr(b, i - b);
        }
        if (s[i] == '|') { ++i; while (i < s.size() && s[i] != '|') ++i; ++i; return s.substr(b, i - b); }
        while (i < s.size() && !isspace((unsigned char)s[i]) && s[i] != '(' && s[i] != ')') ++i;
        return s.substr(b, i - b);
    }
};

struct Stats {
    long branchQ = 0, assertQ = 0, unsat = 0, sat = 0, unknown = 0, cached = 0;
    double solverTime = 0;
    std::map<std::string, long> bySolver;
};

struct Solver {
    Ctx& X;
    Proc z3;
    Stats st;
    double branchTimeout = 3, assertTimeout = 60, modelTimeout = 15, deadline = 1e300;
    double clampT(double t) const { double r = deadline - now(); return r < 0.1 ? 0.1 : std::min(t, r); }
    bool haveZ3 = false;
    std::string z3bin = "z3-new", cvc5bin = "cvc5", z3old = "z3";
    std::string dumpDir;
    long dumpN = 0;
    std::string firstQuery; // kept as a sample for the evidence
    Solver(Ctx& x) : X(x) {}

    std::string text(const std::vector<E>& cs, std::vector<std::string>* vars, const std::vector<E>& extraVals, bool& isBV)
    {
        Render R(X);
        std::vector<std::string> as;
        for (E c : cs) as.push_back(R.r(c));
        std::vector<std::string> ev;
        for (E e : extraVals) ev.push_back(R.r(e));
        std::string t = R.out;
        for (auto& s : R.side) t += "(assert " + s + ")\n";
        for (auto& s : as) if (s != "true") t += "(assert " + s + ")\n";
        if (vars) {
            for (auto& d : R.declared) vars->push_back(d);
            for (auto& s : ev) vars->push_back(s);
        }
        isBV = !R.hasReal;
        return t;
    }
    static void parseModel(const std::string& s, Model& m)
    {
        // ((name value) (name value) ...)
        size_t p = s.find("((");
        if (p == std::string::npos) return;
        std::string body = s.substr(p + 1);
        SexpParser P(body);
        while (true) {
            P.ws();
            if (P.i >= body.size() || body[P.i] != '(') break;
            std::string pair = P.any();
            std::string inner = pair.substr(1, pair.size() - 2);
            SexpParser Q(inner);
            std::string n = Q.any(), v = Q.any();
            if (n.size() > 1 && n[0] == '|') n = n.substr(1, n.size() - 2);
            m[n] = v;
        }
    }
    Res quick(const std::vector<E>& cs, Model* mdl = nullptr, const std::vector<E>& extra = {}, double tmo = -1)
    {
        for (E c : cs) if (c == X.F) return UNSAT;
        double t0 = now();
        if (tmo < 0) tmo = branchTimeout;
        tmo = clampT(tmo);
        st.branchQ++;
        std::vector<std::string> vars;
        bool isbv;
        std::string body = text(cs, mdl ? &vars : nullptr, extra, isbv);
        for (int attempt = 0; attempt < 2; ++attempt) {
            if (!haveZ3) { z3.stop(); z3.start({z3bin, "-in"}); haveZ3 = true; }
            std::string t = "(reset)\n(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)\n(set-option :timeout " + std::to_string((int)(tmo * 1000)) + ")\n";
            t += body + "(check-sat)\n";
            if (mdl && !vars.empty()) { t += "(get-value ("; for (auto& v : vars) t += v + " "; t += "))\n"; }
            t += "(echo \"@@done\")\n";
            std::string res;
            if (!z3.send(t) || !z3.readUntil("@@done", now() + tmo * 1.5 + 2, res)) { haveZ3 = false; if (attempt == 0 && now() - t0 < tmo) continue; st.solverTime += now() - t0; st.unknown++; return UNKNOWN; }
            Res r = decode(res, t);
            if (r == SAT && mdl) parseModel(res, *mdl);
            st.solverTime += now() - t0;
            (r == UNSAT ? st.unsat : r == SAT ? st.sat : st.unknown)++;
            return r;
        }
        return UNKNOWN;
    }
    static Res decode(const std::string& res, const std::string& t)
    {
        size_t p = 0;
        Res r = UNKNOWN;
        std::istringstream is(res);
        std::string l;
        bool got = false;
        while (std::getline(is, l)) {
            if (l == "sat" && !got) { r = SAT; got = true; }
            else if (l == "unsat" && !got) { r = UNSAT; got = true; }
            else if ((l == "unknown" || l == "timeout") && !got) { r = UNKNOWN; got = true; }
            else if (l.rfind("(error", 0) == 0 && !got) {
                if (getenv("HX_DEBUG")) fprintf(stderr, "solver error: %s\n", l.c_str());
                return UNKNOWN;
            }
        }
        (void)p; (void)t;
        return r;
    }
    // portfolio: one-shot processes
    Res portfolio(const std::vector<E>& cs, double tmo, Model* mdl = nullptr, const std::vector<E>& extra = {}, bool modelOnly = false)
    {
        for (E c : cs) if (c == X.F) return UNSAT;
        // a first short attempt on the persistent process
        Res r0 = quick(cs, mdl, extra, std::min(tmo, 2.0));
        if (r0 != UNKNOWN) { st.bySolver["z3"]++; return r0; }
        tmo = clampT(tmo);
        double t0 = now();
        std::vector<std::string> vars;
        bool isbv;
        std::string body = text(cs, mdl ? &vars : nullptr, extra, isbv);
        std::string gv;
        if (mdl && !vars.empty()) { gv = "(get-value ("; for (auto& v : vars) gv += v + " "; gv += "))\n"; }
        char fn[] = "/tmp/hxqXXXXXX";
        int fd = mkstemp(fn);
        std::string full = "(set-logic ALL)\n" + body + "(check-sat)\n" + gv;
        (void)!write(fd, full.data(), full.size());
        close(fd);
        char fn2[] = "/tmp/hxrXXXXXX";
        int fd2 = mkstemp(fn2);
        std::string full2 = "(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)\n" + body;
        if (!isbv) full2 += "(check-sat-using (then simplify solve-eqs (or-else (try-for qfnra-nlsat " + std::to_string((int)(tmo * 1000)) + ") smt)))\n" + gv;
        else full2 += "(check-sat)\n" + gv;
        (void)!write(fd2, full2.data(), full2.size());
        close(fd2);
        char fn3[] = "/tmp/hxsXXXXXX";
        int fd3 = mkstemp(fn3);
        std::string full3 = "(set-option :pp.decimal true)\n(set-option :pp.decimal_precision 30)\n" + body + "(check-sat)\n" + gv;
        (void)!write(fd3, full3.data(), full3.size());
        close(fd3);
        std::vector<std::pair<std::string, std::unique_ptr<Proc>>> ps;
        auto add = [&](const std::string& nm, std::vector<std::string> a) { ps.emplace_back(nm, std::make_unique<Proc>()); ps.back().second->start(a); };
        add("z3", {z3bin, "-T:" + std::to_string((int)tmo + 1), fn3});
        if (!isbv) add("z3-nlsat", {z3bin, "-T:" + std::to_string((int)tmo + 1), fn2});
        if (!mdl || !modelOnly) add("cvc5", {cvc5bin, "--produce-models", "--tlimit=" + std::to_string((int)(tmo * 1000)), fn});
        Res r = UNKNOWN;
        std::set<size_t> live;
        for (size_t i = 0; i < ps.size(); ++i) live.insert(i);
        while (!live.empty() && now() < t0 + tmo + 1) {
            std::vector<struct pollfd> pf;
            std::vector<size_t> ix;
            for (size_t i : live) { pf.push_back({ps[i].second->out, POLLIN, 0}); ix.push_back(i); }
            poll(pf.data(), pf.size(), 200);
            bool done = false;
            for (size_t j = 0; j < pf.size(); ++j) {
                if (!(pf[j].revents & (POLLIN | POLLHUP))) continue;
                Proc& P = *ps[ix[j]].second;
                char b[65536];
                ssize_t n = read(P.out, b, sizeof b);
                if (n > 0) { P.buf.append(b, n); continue; }
                live.erase(ix[j]);
                Res x = decode(P.buf, full);
                if (x == SAT && mdl) { Model m; parseModel(P.buf, m); bool bad = m.empty() && !vars.empty(); for (auto& kv : m) if (kv.second.find("real_algebraic") != std::string::npos || kv.second.find("root-obj") != std::string::npos) bad = true; if (bad) continue; *mdl = m; }
                if (x != UNKNOWN) { r = x; st.bySolver[ps[ix[j]].first]++; done = true; break; }
            }
            if (done) break;
        }
        for (auto& p : ps) p.second->stop();
        unlink(fn); unlink(fn2); unlink(fn3);
        st.solverTime += now() - t0;
        (r == UNSAT ? st.unsat : r == SAT ? st.sat : st.unknown)++;
        if (!dumpDir.empty() && r == UNKNOWN) {
            std::string f = dumpDir + "/q" + std::to_string(dumpN++) + ".smt2";
            FILE* o = fopen(f.c_str(), "w"); if (o) { fwrite(full.data(), 1, full.size(), o); fclose(o); }
        }
        return r;
    }
};
