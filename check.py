#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] : decide one property by symbolic
execution of /repo's current sources (see DESIGN.md).
check.py --replay <file> : run a reported counterexample natively again."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HX_REPO", "/repo")
LL = "/usr/lib/llvm-18/bin/"
CLANG = "/usr/bin/clang++" if os.path.exists("/usr/bin/clang++") else LL + "clang++"
CLANGC = "/usr/bin/clang" if os.path.exists("/usr/bin/clang") else LL + "clang"
NCPU = int(os.environ.get("HX_JOBS", "8"))
T0 = time.time()

sys.path.insert(0, V)

def sh(cmd, timeout=None, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
    except subprocess.TimeoutExpired as e:
        class R: pass
        r = R(); r.returncode = 124; r.stdout = e.stdout or b""; r.stderr = (e.stderr or b"") + b"\ntimeout"
        return r

def incdirs():
    out = []
    for base, dirs, files in os.walk(os.path.join(REPO, "src")):
        if "setups" in base.split("/"):
            continue
        out.append(base)
    out.sort()
    return out

class BuildError(Exception):
    pass

VFS = ["-Dfopen=hx_fopen", "-Dfgets=hx_fgets", "-Dfclose=hx_fclose"]

class Unit:
    """one harness source compiled for one configuration"""
    def __init__(self, work, spec, n):
        self.spec, self.work, self.n = spec, work, n
        self.src = os.path.join(V, "harness", spec["src"])
        self.dir = os.path.join(work, "u%d" % n)
        os.makedirs(self.dir)
        self.native = {}
        self.lock = threading.Lock()
        for name, key, val in (("ndim", "Heraclespp_NDIM", str(spec.get("ndim", 3))),
                               ("geom", "Heraclespp_GEOM", spec.get("geom", "Cartesian")),
                               ("eos", "Heraclespp_EOS", spec.get("eos", "PerfectGas"))):
            t = open(os.path.join(REPO, "src/utils", name + ".hpp.in")).read()
            open(os.path.join(self.dir, name + ".hpp"), "w").write(t.replace("@" + key + "@", val))

    def label(self):
        s = self.spec
        r = s["src"].replace(".cpp", "")
        for k in ("ndim", "geom", "eos"):
            if k in s:
                r += "-%s" % s[k]
        for d in s.get("defs", []):
            r += "-" + d
        return r

    def flags(self):
        inc = ["std"] if not self.spec.get("realstd") else []
        fl = ["-I" + os.path.join(V, "shim", x) for x in inc + ["kokkos", "mpi", "io"]]
        fl += ["-I" + os.path.join(V, "harness"), "-I" + self.dir]
        fl += ["-I" + d for d in incdirs()]
        fl += ["-I" + os.path.join(REPO, "vendor/inih/include"), "-I" + os.path.join(REPO, "vendor/inih/src")]
        if self.spec.get("setup"):
            fl += ["-I" + os.path.join(REPO, "src/setups", self.spec["setup"])]
        fl += ["-D" + d for d in self.spec.get("defs", [])] + self.spec.get("cflags", [])
        fl += ["-D__NO_CTYPE", "-U__OPTIMIZE__", "-ffp-contract=off", "-w"]
        for f in ("sin", "cos", "tan", "exp", "log", "log10", "pow", "tanh", "sinh", "cosh", "atan", "atan2"):
            fl.append("-fno-builtin-" + f)
        return fl

    def cfiles(self):
        return [os.path.join(REPO, f) for f in self.spec.get("c_src", [])]

    def generate(self):
        """C++ form of the PDI configuration the code is built with"""
        m = os.path.join(self.dir, "cfg.cpp")
        open(m, "w").write('#include "config.yaml.cpp"\n#include <cstdio>\nint main() { std::fputs(io_config, stdout); }\n')
        y = os.path.join(self.dir, "cfg.yaml")
        r = sh([CLANG, "-std=c++20", "-O0", "-w"] + ["-I" + d for d in incdirs()] + [m, "-o", m + ".x"], 120)
        if r.returncode:
            raise BuildError(r.stderr.decode(errors="replace")[:3000])
        r = sh([m + ".x"], 20)
        open(y, "wb").write(r.stdout)
        r = sh([sys.executable, os.path.join(V, "tools/pdigen.py"), y, os.path.join(self.dir, "hx_pdi_gen.hpp")], 60)
        if r.returncode:
            raise BuildError("PDI configuration: " + r.stderr.decode(errors="replace")[-2000:])

    def compile(self):
        if self.spec.get("pdi"):
            self.generate()
        irf = ["-S", "-emit-llvm", "-O1", "-Xclang", "-disable-llvm-passes", "-gline-tables-only", "-fno-vectorize"]
        out = []
        o = os.path.join(self.dir, "h.ll")
        r = sh([CLANG, "-std=c++20"] + irf + self.flags() + [self.src, "-o", o], 300)
        if r.returncode:
            raise BuildError("%s: %s" % (self.label(), r.stderr.decode(errors="replace")[:3000]))
        out.append(o)
        for i, f in enumerate(self.cfiles()):
            o = os.path.join(self.dir, "c%d.ll" % i)
            r = sh([CLANGC] + irf + self.flags() + VFS + [f, "-o", o], 120)
            if r.returncode:
                raise BuildError(r.stderr.decode(errors="replace")[:3000])
            out.append(o)
        out.append(os.path.join(V, "build/rt.ll"))
        lk = os.path.join(self.dir, "l.bc")
        r = sh([LL + "llvm-link"] + out + ["-o", lk], 120)
        if r.returncode:
            raise BuildError(r.stderr.decode(errors="replace")[:3000])
        self.ll = os.path.join(self.dir, "o.bc")
        r = sh([LL + "opt", "-passes=internalize,globaldce,function(sroa,early-cse,simplifycfg)",
                "--internalize-public-api-list=" + ",".join(self.spec["entries"]), lk, "-o", self.ll], 120)
        if r.returncode:
            raise BuildError(r.stderr.decode(errors="replace")[:3000])

    def build_native(self, san):
        with self.lock:
            if san in self.native:
                return self.native[san]
            o = os.path.join(self.dir, "native_%d" % san)
            sfl = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"] if san else []
            objs = []
            for i, f in enumerate(self.cfiles()):
                ob = os.path.join(self.dir, "n%d_%d.o" % (i, san))
                r = sh([CLANGC, "-c", "-O1", "-g"] + sfl + self.flags() + VFS + [f, "-o", ob], 120)
                if r.returncode:
                    raise BuildError(r.stderr.decode(errors="replace")[:3000])
                objs.append(ob)
            wraps = ["-Wl," + ",".join("--wrap=" + f for f in ("sin", "cos", "tan", "exp", "log", "log10", "tanh", "sinh", "cosh", "atan", "atan2", "pow"))]
            tab = os.path.join(self.dir, "entries.inc")
            with open(tab, "w") as f:
                for e in self.spec["entries"]:
                    f.write("HX_E(%s)\n" % e)
            nat = os.path.join(self.dir, "native_%d.o" % san)
            r0 = sh([CLANG, "-std=c++20", "-c", "-O1", "-I" + self.dir, os.path.join(V, "rt/native.cpp"), "-o", nat], 120)
            r = sh([CLANG, "-std=c++20", "-O1", "-g", "-DHX_NATIVE"] + sfl + self.flags() + [self.src, nat] + objs + wraps + ["-o", o], 300)
            if r.returncode or r0.returncode:
                sys.stderr.write("native build failed: %s\n" % (r0.stderr + r.stderr).decode(errors="replace")[:400])
                o = None
            self.native[san] = o
            return o

def write_inputs(inputs, path):
    with open(path, "w") as f:
        for n, v in inputs:
            f.write("%s\t%s\n" % (n, v))

def run_native(exe, inputs, mode, entry):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1", UBSAN_OPTIONS="print_stacktrace=1")
    r = sh([exe, inputs, mode, entry], 60, env=env, cwd="/tmp")
    return r.returncode, r.stderr.decode(errors="replace")

NOT_OBSERVABLE = ("race", "uninit", "recursion", "unreachable", "ub")

def replay(unit, entry, v, base):
    """returns (confirmed, text)"""
    inp = base + ".inputs"
    write_inputs(v["inputs"], inp)
    log = []
    fz = v["label"].startswith("no division") or v["label"].startswith("no square root") or v["kind"] == "divzero"
    haslibm = any(n.startswith("libm:") for n, _ in v["inputs"])
    for san in (1, 0):
        exe = unit.build_native(san)
        if not exe:
            continue
        rc, err = run_native(exe, inp, "z" if fz else "-", entry)
        log.append("san=%d rc=%d\n%s" % (san, rc, err[-3000:]))
        if v["kind"] == "assert" and not fz:
            if rc == 42:
                return True, "\n".join(log)
            if rc not in (0, 77, 78, 124):
                return True, "\n".join(log)
        elif fz:
            if rc not in (0, 77, 78, 124):
                return True, "\n".join(log)
        elif v["kind"] in NOT_OBSERVABLE or "uninitialised" in v.get("msg", ""):
            if rc in (0, 42) or rc < 0 or rc == 1:
                return True, "\n".join(log) + "\n(the engine's finding is a property of the access trace; the native run confirms that the inputs are admissible)"
        else:
            if rc not in (0, 77, 78, 124):
                return True, "\n".join(log)
    if v["kind"] == "assert" and "uninitialised" in v.get("msg", ""):
        return True, "\n".join(log)
    return False, "\n".join(log)

def run_entry(unit, entry, opts, deadline, seed, idx):
    out = os.path.join(unit.dir, "r_%s.json" % entry)
    tl = min(opts.get("time", 120), max(5, deadline - time.time()))
    cmd = [os.path.join(V, "build/hx"), "--entry=" + entry, "--repo=" + REPO, "--out=" + out, "--seed=%d" % seed,
           "--time=%g" % tl]
    for k in ("assert-timeout", "branch-timeout", "model-timeout", "steps", "paths", "terms", "witness"):
        if k in opts:
            cmd.append("--%s=%s" % (k, opts[k]))
    for k in ("ieee", "ovf", "ite"):
        if opts.get(k):
            cmd.append("--" + k)
    cmd.append(unit.ll)
    r = sh(cmd, tl + opts.get("grace", 150))
    if r.returncode in (124, -9, 137):
        return {"entry": entry, "error": "", "timeout": 1, "violations": [], "obligations": {}, "functions": [], "reach": {}, "incomplete": {"engine stopped (time or memory)": 1},
                "by_solver": {}, "paths": 0, "instructions": 0, "forks": 0, "killed": 0, "branch_queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "solver_time": 0, "sample_query": ""}
    if r.returncode or not os.path.exists(out):
        return {"entry": entry, "error": "engine exit %d: %s" % (r.returncode, r.stderr.decode(errors="replace")[-1500:])}
    try:
        return json.load(open(out))
    except Exception as e:
        return {"entry": entry, "error": "bad report: %s" % e}

def known_for(pid):
    p = os.path.join(V, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get("findings", []) if k["property"] == pid]

def match_known(k, unit, entry, v):
    if k.get("entry") and k["entry"] != entry:
        return False
    for key in ("ndim", "geom", "eos"):
        if key in k and str(unit.spec.get(key, 3 if key == "ndim" else None)) != str(k[key]):
            return False
    if k.get("label") and k["label"] != v["label"]:
        return False
    if k.get("inputs"):
        d = dict((n, t) for n, t in v["inputs"])
        for n, t in k["inputs"].items():
            if d.get(n) != t:
                return False
    return True

def do_replay(path):
    d = json.load(open(path))
    work = tempfile.mkdtemp(prefix="hxr.", dir=os.path.join(V, "build"))
    try:
        u = Unit(work, d["unit"], 0)
        if u.spec.get("pdi"):
            u.generate()
        ok, text = replay(u, d["entry"], d["violation"], os.path.join(work, "x"))
        print(text)
        print("reproduced" if ok else "not reproduced")
        return 1 if ok else 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return do_replay(sys.argv[2])
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    verbose = "-v" in sys.argv
    only = [a[7:] for a in sys.argv if a.startswith("--only=")]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    import specs
    P = specs.PROPS[pid]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(V, "build"), exist_ok=True)
    r = sh([os.path.join(V, "setup.sh")], 600)
    if r.returncode:
        print("setup failed: " + r.stderr.decode(errors="replace")[-2000:])
        return 2
    budget = P.get("budget", {}).get(tier, 600 if tier == "quick" else 5400)
    deadline = T0 + budget
    if P.get("custom"):
        return P["custom"](pid, tier, seed, deadline, V, REPO)
    work = tempfile.mkdtemp(prefix="run.", dir=os.path.join(V, "build"))
    rdir = os.path.join(V, "replays", pid)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    try:
        return decide(pid, P, tier, seed, deadline, work, rdir, verbose, only)
    finally:
        if not os.environ.get("HX_KEEP"):
            shutil.rmtree(work, ignore_errors=True)

def decide(pid, P, tier, seed, deadline, work, rdir, verbose, only):
    specs_ = [u for u in P["units"] if u.get("tier", "quick") == "quick" or tier == "thorough"]
    specs_ = [u for u in specs_ if not (tier == "thorough" and u.get("quick_only"))]
    units = []
    for s in specs_:
        s = dict(s)
        ents = s["entries"] if isinstance(s["entries"], list) else list(s["entries"])
        if only:
            ents = [e for e in ents if e in only]
        if tier == "quick" and "quick_entries" in s:
            ents = [e for e in ents if e in s["quick_entries"]]
        if not ents:
            continue
        s["entries"] = ents
        units.append(Unit(work, s, len(units)))
    results = []
    viol, unrepro, errors, knownhit = [], [], [], []
    notbuilt = []  # harnesses that reach into private parts which have changed
    wit_ok = wit_bad = 0
    pool = cf.ThreadPoolExecutor(NCPU)
    comp = {pool.submit(u.compile): u for u in units}
    try:
        futs = {}
        for f in cf.as_completed(comp):
            u = comp[f]
            try:
                f.result()
            except BuildError as e:
                (notbuilt if u.spec.get("white_box") else errors).append(str(e))
                continue
            for e in u.spec["entries"]:
                o = dict(P.get("opts", {})); o.update(u.spec.get("opts", {}))
                if tier == "thorough":
                    o.update(P.get("thorough_opts", {})); o.update(u.spec.get("thorough_opts", {}))
                futs[pool.submit(run_entry, u, e, o, deadline, seed, 0)] = (u, e)
        for f in cf.as_completed(futs):
            u, e = futs[f]
            res = f.result()
            results.append((u, e, res))
            if verbose:
                o = res.get("obligations", {})
                print("%s %s: paths %s killed %s forks %s instr %s wall %.1f solver %.1f obl %d folded %d proved %d unknown %d viol %d %s %s" % (u.label(), e, res.get("paths"), res.get("killed"), res.get("forks"), res.get("instructions"), res.get("wall", 0), res.get("solver_time", 0), sum(x["total"] for x in o.values()), sum(x["folded"] for x in o.values()), sum(x["proved"] for x in o.values()), sum(x["unknown"] for x in o.values()), len(res.get("violations", [])), res.get("incomplete") or "", (res.get("error") or "")[:300]))
                sys.stdout.flush()
    finally:
        pool.shutdown(wait=True)
    if errors:
        print("BUILD ERROR\n" + "\n".join(errors))
        return 2
    # counterexamples: replay natively before reporting
    nrep = 0
    for u, e, res in results:
        if res.get("error"):
            errors.append("%s/%s: %s" % (u.label(), e, res["error"]))
            continue
        seen = set()
        for v in res["violations"]:
            key = (v["kind"], v["label"])
            if key in seen or (len(viol) >= 6):
                continue
            nrep += 1
            base = os.path.join(rdir, "%s-%s-%s" % (u.label(), e, re.sub(r"[^A-Za-z0-9]+", "_", v["label"])[:60]))
            ok, text = replay(u, e, v, base)
            rec = {"property": pid, "unit": u.spec, "entry": e, "violation": v, "confirmed": ok, "native": text}
            path = base + ".json"
            json.dump(rec, open(path, "w"), indent=1)
            if not ok:
                unrepro.append(path)
                if verbose:
                    print("not reproduced: %s/%s %s %s %s\n%s" % (u.label(), e, v["kind"], v["label"], v["inputs"][:20], text[-300:]))
                continue
            seen.add(key)
            k = next((k for k in known_for(pid) if match_known(k, u, e, v)), None)
            if k:
                knownhit.append((k, path))
            else:
                viol.append((u, e, v, path))
                if verbose:
                    print("VIOLATION %s %s %s %s\n%s" % (v["kind"], v["label"], v["where"], v["inputs"], text[-1500:]))
    # translator validation: run models of completed paths through the real code
    jobs = []
    for i, (u, e, res) in enumerate(results):
        for j, w in enumerate(res.get("witnesses", [])):
            ip = os.path.join(u.dir, "w%d_%d.inputs" % (i, j))
            write_inputs(w, ip)
            jobs.append((u, e, ip))
    def witness(job):
        u, e, ip = job
        if time.time() > deadline + 60:
            return None
        exe = u.build_native(0)
        return run_native(exe, ip, "-", e) if exe else None
    vu = {id(u): u for u, _, _ in jobs}
    with cf.ThreadPoolExecutor(NCPU) as vp:
        list(vp.map(lambda u: u.build_native(0), vu.values()))
        for (u, e, ip), r in zip(jobs, vp.map(witness, jobs)):
            if r is None:
                continue
            if r[0] == 0:
                wit_ok += 1
            elif r[0] not in (77, 78):
                wit_bad += 1
                if verbose:
                    print("witness mismatch %s %s rc=%d %s\n%s" % (u.label(), e, r[0], r[1][-800:], open(ip).read()[:1500]))
    # vacuity: every entry has to reach its end marker
    tot = dict(total=0, folded=0, proved=0, unknown=0)
    labels, fns, reach, inc, sol = {}, set(), {}, {}, {}
    paths = instr = forks = killed = bq = uns = sat = unk = 0
    stime = 0.0
    sample, asm = "", set()
    novac = []
    for u, e, res in results:
        if res.get("error"):
            continue
        for l, o in res["obligations"].items():
            x = labels.setdefault(l, dict(total=0, folded=0, proved=0, unknown=0))
            for k in tot:
                tot[k] += o[k]; x[k] += o[k]
        fns.update(res["functions"])
        if not res["reach"] and not res["incomplete"] and not res["violations"]:
            novac.append("%s/%s" % (u.label(), e))
        for k, n in res["reach"].items():
            reach[k] = reach.get(k, 0) + n
        for k, n in res["incomplete"].items():
            inc["%s/%s: %s" % (u.label(), e, k)] = n
        for k, n in res["by_solver"].items():
            sol[k] = sol.get(k, 0) + n
        paths += res["paths"]; instr += res["instructions"]; forks += res["forks"]; killed += res["killed"]
        bq += res["branch_queries"]; uns += res["unsat"]; sat += res["sat"]; unk += res["unknown"]
        stime += res["solver_time"]
        if not sample and res["sample_query"]:
            sample = res["sample_query"]
    for x in notbuilt:
        inc["not encoded, the private parts it looks at have changed: " + x[:200]] = 1
    samples = [{"sample_query_smtlib": sample[:1200]}] if sample else []
    for u, e, v, p in viol:
        samples.append({"violation": v["label"], "inputs": v["inputs"][:40]})
    samples.append({"entries": ["%s/%s" % (u.label(), e) for u, e, _ in results][:40]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": P["level"],
        "coverage": {
            "states": paths, "transitions": instr, "traces_validated_against_impl": wit_ok, "samples": samples,
            "explanation": "states = symbolic path end states, transitions = LLVM instructions executed symbolically, traces_validated_against_impl = solver models of completed paths that were run through the natively compiled real code and passed every assertion there too",
            "functions_encoded": sorted(fns), "bounds": P.get("bounds", ""),
            "obligations": tot["total"], "folded_by_exact_algebra": tot["folded"], "discharged_by_solver": tot["proved"],
            "undecided": tot["unknown"], "obligations_by_label": labels,
            "branch_queries": bq, "solver_unsat": uns, "solver_sat": sat, "solver_unknown": unk, "solver_time_s": round(stime, 3), "asserts_by_solver": sol,
            "paths_forked": forks, "infeasible_paths_cut": killed, "reachability_witnesses": reach,
            "incomplete": inc, "witness_mismatches": wit_bad,
            "counterexamples_replayed": nrep, "counterexamples_not_reproduced": len(unrepro),
        },
        "assumptions": P.get("assumptions", []) + specs_common(),
        "wall_s": round(time.time() - T0, 2), "violations": len(viol),
    }
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print("%s: %d entries, %d paths, %d obligations (%d folded, %d proved, %d undecided), solver %.1fs, wall %.1fs, validated %d/%d" % (
        pid, len(results), paths, tot["total"], tot["folded"], tot["proved"], tot["unknown"], stime, time.time() - T0, wit_ok, wit_ok + wit_bad))
    if inc:
        for k, n in inc.items():
            print("  incomplete: %s (%d)" % (k, n))
    for l, o in labels.items():
        if o["unknown"]:
            print("  undecided: %s (%d of %d)" % (l, o["unknown"], o["total"]))
    if unrepro:
        print("  counterexamples that did not reproduce natively (not reported): %d" % len(unrepro))
    for k in {id(k): k for k, _ in knownhit}.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for u, e, v, p in viol:
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("  %s/%s: %s '%s' at %s %s" % (u.label(), e, v["kind"], v["label"], v["where"], v["msg"]))
    if viol:
        return 1
    if errors:
        print("ERROR\n" + "\n".join(errors))
        return 2
    if tot["total"] == 0 or tot["folded"] + tot["proved"] == 0:
        print("ERROR nothing was decided")
        return 2
    if novac:
        print("ERROR vacuous: no reachability marker in " + ", ".join(novac))
        return 2
    return 0

def specs_common():
    return ["double arithmetic is interpreted over the reals (rounding, overflow and NaN propagation are outside the claim) unless the entry runs in IEEE mode",
            "Kokkos, MPI, PDI and the C++ streams are replaced by the stand-ins of /verif/shim; kernels run sequentially with inter-iteration conflicts reported as data races",
            "memory allocation does not fail"]

if __name__ == "__main__":
    sys.exit(main())
