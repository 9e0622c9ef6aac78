#!/usr/bin/env python3
# rewrites the generated part of DESIGN.md from props/ and seeded/
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import specs
o = []
for pid, p in sorted(specs.PROPS.items()):
    es = []
    for u in p["units"]:
        tag = "%sD" % u["ndim"] if u.get("ndim") else ""
        es.append("%s%s: %s" % (u["src"], " (" + tag + (", " + u["geom"] if u.get("geom") else "") + ")" if tag else "", " ".join(u["entries"])))
    o.append("### %s %s" % (pid, p["title"]))
    if p.get("custom"): o.append("Own driver: `%s` (specs)." % getattr(p["custom"], "__name__", "custom"))
    o.append("Symbolic: " + p["quant"] + ".")
    o.append("Bounds: " + (p.get("bounds") or "none") + ".")
    if p.get("assumptions"): o.append("Assumed: " + "; ".join(p["assumptions"]) + ".")
    o.append("Harnesses: " + "; ".join(dict.fromkeys(es)) + ".\n")
s = []
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(f))
    s.append("- `%s` (check %s): %s. Needs: %s." % (f.split("/")[-2], m["property"], m["what_it_breaks"].rstrip("."), m["needs"].rstrip(".")))
t = open(V + "/DESIGN.md").read()
for tag, lines in (("PROPERTIES", o), ("SEEDS", s)):
    a, b = "<!-- %s -->" % tag, "<!-- /%s -->" % tag
    i, j = t.index(a) + len(a), t.index(b)
    t = t[:i] + "\n" + "\n".join(lines) + "\n" + t[j:]
open(V + "/DESIGN.md", "w").write(t)
