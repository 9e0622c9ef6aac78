#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from the definitions in tools/seeds.py: the patch
(against /repo's HEAD), a stand-alone demonstration and meta.json."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from seeds import SEEDS

DEMO = r'''#!/bin/bash
# exit 0: the behaviour is right; run with cwd = the repository, after its build
set -u
here=$(cd "$(dirname "$0")" && pwd)
W=/tmp/demo_hclpp_@ID@
mkdir -p $W/gen
sed 's/@Heraclespp_NDIM@/@NDIM@/' src/utils/ndim.hpp.in > $W/gen/ndim.hpp
sed 's/@Heraclespp_GEOM@/@GEOM@/' src/utils/geom.hpp.in > $W/gen/geom.hpp
sed 's/@Heraclespp_EOS@/@EOS@/' src/utils/eos.hpp.in > $W/gen/eos.hpp
inc="-I$W/gen -I$here/shim/kokkos -I$here/shim/mpi -I$here/shim/io"
for d in $(find src -type d -not -path '*setups*'); do inc="$inc -I$d"; done
inc="$inc @INC@ -Ivendor/inih/include -Ivendor/inih/src -Ivendor/inih -I."
fail() { echo "$1"; rm -rf /tmp/demo_hclpp_@ID@; exit $2; }
@CC@
@PDI@
g++ -std=c++20 -g -O1 -w -ffp-contract=off -DHX_NO_INTRINSICS @FLAGS@ $inc "$here/demo.cpp" $objs -o $W/demo > $W/log 2>&1 || { tail -20 $W/log; fail "does not compile" 3; }
(cd $W && timeout 120 ./demo) || fail "wrong behaviour" 1
rm -rf /tmp/demo_hclpp_@ID@
exit 0
'''
PDI = r'''
printf '#include "config.yaml.cpp"\n#include <cstdio>\nint main() { std::fputs(io_config, stdout); }\n' > $W/cfg.cpp
g++ -std=c++20 -Isrc/io $W/cfg.cpp -o $W/cfg > $W/log 2>&1 || fail "does not compile" 3
$W/cfg > $W/cfg.yaml
python3 "$here/pdigen.py" $W/cfg.yaml $W/gen/hx_pdi_gen.hpp > $W/log 2>&1 || fail "PDI configuration" 3
'''
HEAD = r'''// a small stand-alone program over the real sources, without Kokkos and MPI
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <string>
#include <vector>
#include <stdexcept>
#include <sstream>
#include <iostream>
static int bad = 0;
static void eq(double a, double b, char const* what)
{
    if (!(std::fabs(a - b) <= 1e-9 * (1 + std::fabs(b)))) { std::printf("%s: %.15g instead of %.15g\n", what, a, b); bad = 1; }
}
static void ok(bool c, char const* what)
{
    if (!c) { std::printf("wrong: %s\n", what); bad = 1; }
}
'''
def main():
    only = sys.argv[1:]
    for s in SEEDS:
        if only and s["id"] not in only:
            continue
        d = os.path.join(V, "seeded", s["id"])
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        w = tempfile.mkdtemp(prefix="mkseed")
        subprocess.run("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q . && git add -A . && git -c user.name=a -c user.email=a@b commit -qm x" % (w, w), shell=True, check=True)
        for f, old, new in s["edits"]:
            p = os.path.join(w, f)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = subprocess.run(["git", "-C", w, "diff"], stdout=subprocess.PIPE, check=True).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        shutil.rmtree(w)
        for m in s.get("shims", ["kokkos", "mpi"]):
            shutil.copytree(os.path.join(V, "shim", m), os.path.join(d, "shim", m))
        open(os.path.join(d, "demo.cpp"), "w").write((HEAD + s["demo"]).lstrip())
        sh = DEMO.replace("@ID@", s["id"]).replace("@NDIM@", str(s.get("ndim", 3))).replace("@GEOM@", s.get("geom", "Cartesian")).replace("@EOS@", s.get("eos", "PerfectGas"))
        sh = sh.replace("@INC@", s.get("inc", "")).replace("@FLAGS@", s.get("flags", ""))
        cc = "objs=\n"
        for i, f in enumerate(s.get("c", [])):
            cc += 'gcc -c -g -O1 -w %s $inc %s -o $W/c%d.o > $W/log 2>&1 || fail "does not compile" 3\nobjs="$objs $W/c%d.o"\n' % (s.get("cflags", ""), f, i, i)
        sh = sh.replace("@CC@\n", cc)
        if s.get("pdi"):
            shutil.copy(os.path.join(V, "tools/pdigen.py"), os.path.join(d, "pdigen.py"))
        sh = sh.replace("@PDI@\n", PDI if s.get("pdi") else "")
        open(os.path.join(d, "demo.sh"), "w").write(sh)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print(s["id"])
main()
