#!/usr/bin/env python3
"""pdigen.py config.yaml out.hpp : what each PDI event does, as C++ (see shim/io/pdi.h)"""
import re, sys, yaml

class Unsupported(Exception):
    pass

TOK = re.compile(r"\s*(?:(\d+)|\$\{?([A-Za-z_]\w*)((?:\[[^\]]*\])*)\}?|(<=|>=|==|!=|[-+*/%<>=&|()]))")

def expr(x):
    """integer expression"""
    if isinstance(x, bool):
        return "1" if x else "0"
    if isinstance(x, int):
        return str(x)
    s, out, i = str(x).strip(), [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m or m.end() == i:
            raise Unsupported("expression %r" % x)
        i = m.end()
        if m.group(1):
            out.append(str(int(m.group(1))))
        elif m.group(2):
            idx = re.findall(r"\[([^\]]*)\]", m.group(3) or "")
            out.append('c.I("%s"%s)' % (m.group(2), "".join(", static_cast<int>(%s)" % expr(k) for k in idx)))
        else:
            out.append({"=": "==", "&": "&&", "|": "||"}.get(m.group(4), m.group(4)))
        while i < len(s) and s[i].isspace():
            i += 1
    return "(" + " ".join(out) + ")"

def text(x):
    """string with $x and ${x}"""
    parts, i, s = [], 0, str(x)
    for m in re.finditer(r"\$\{([A-Za-z_]\w*)\}|\$([A-Za-z_]\w*)", s):
        if m.start() > i:
            parts.append('"%s"' % s[i:m.start()])
        parts.append('c.S("%s")' % (m.group(1) or m.group(2)))
        i = m.end()
    if i < len(s):
        parts.append('"%s"' % s[i:])
    return "(std::string() + " + " + ".join(parts) + ")"

def aslist(x):
    return x if isinstance(x, list) else [x]

def dims(t):
    """(kind, list of extents)"""
    if isinstance(t, str):
        return t, None
    if t.get("type") != "array":
        return t.get("type"), None
    sub = t.get("subtype")
    if not isinstance(sub, str):
        raise Unsupported("type %r" % t)
    return sub, aslist(t["size"])

KIND = {"double": "d", "int": "i"}

def vec(l):
    return "std::vector<long> {" + ", ".join("static_cast<long>(%s)" % expr(e) for e in l) + "}"

def sel(s):
    if not s:
        return "HxSel()"
    if set(s) - {"size", "start"}:
        raise Unsupported("selection %r" % s)
    r = "HxSel {"
    r += vec(aslist(s["size"])) if "size" in s else "{}"
    r += ", " + (vec(aslist(s["start"])) if "start" in s else "{}") + "}"
    return r

def entries(node):
    """write: / read: of a file -> (data name, entry)"""
    if node is None:
        return []
    if isinstance(node, str):
        return [(node, {})]
    if isinstance(node, list):
        return [(n, {}) for n in node]
    out = []
    for n, e in node.items():
        for x in (e if isinstance(e, list) else [e]):
            out.append((n, x or {}))
    return out

def main(src, dst):
    y = yaml.safe_load(open(src))
    types = {}
    types.update(y.get("metadata") or {})
    types.update(y.get("data") or {})
    o = ["#pragma once", "inline void hx_pdi_meta(HxPdi& c, std::string const& name, void const* p)", "{", "    (void)c; (void)name; (void)p;"]
    for n, t in (y.get("metadata") or {}).items():
        k, d = dims(t)
        o.append('    if (name == "%s") {' % n)
        o.append('        HxPdiMeta x; x.name = name; x.set = true;')
        cnt = " * ".join(expr(e) for e in d) if d else "1"
        if k == "int":
            o.append("        for (long q = 0; q < static_cast<long>(%s); ++q) x.i.push_back(static_cast<int const*>(p)[q]);" % cnt)
        elif k == "double":
            o.append("        for (long q = 0; q < static_cast<long>(%s); ++q) x.d.push_back(static_cast<double const*>(p)[q]);" % cnt)
        elif k == "char":
            o.append("        x.s.assign(static_cast<char const*>(p), static_cast<std::size_t>(%s));" % cnt)
        elif k == "MPI_Comm":
            o.append("        x.comm = *static_cast<MPI_Comm const*>(p);")
            o.append("        if (!x.comm) hx_fail(\"PDI: MPI_COMM_NULL\");")
        else:
            raise Unsupported("metadata type %r" % t)
        o.append("        c.m(name) = x;")
        o.append("        return;")
        o.append("    }")
    o.append("}")
    o.append("inline void hx_pdi_event(HxPdi& c, std::string const& event)")
    o.append("{")
    h5 = (y.get("plugins") or {}).get("decl_hdf5") or []
    for f in aslist(h5):
        bad = set(f) - {"file", "on_event", "collision_policy", "when", "communicator", "datasets", "write", "read", "logging"}
        if bad:
            raise Unsupported("keys %r of a file" % bad)
        if "on_event" not in f:
            raise Unsupported("file without on_event")
        for ev in aslist(f["on_event"]):
            o.append('    if (event == "%s"%s) do {' % (ev, (" && %s" % expr(f["when"])) if "when" in f else ""))
            o.append("        std::string const fn = %s;" % text(f["file"]))
            o.append("        HxH5File* h = hx_h5().find(fn);")
            if "communicator" in f:
                m = re.fullmatch(r"\s*\$\{?(\w+)\}?\s*", str(f["communicator"]))
                if not m:
                    raise Unsupported("communicator")
                o.append('        if (!c.m("%s").set) hx_fail("PDI: communicator used before it has a value");' % m.group(1))
                o.append('        else if (hx_mpi().sched) MPI_Barrier(c.m("%s").comm);' % m.group(1))
            if entries(f.get("write")):
                o.append("        if (!hx_once()) break;")
            pol = str(f.get("collision_policy", "write_into")).replace("_and_warn", "")
            wr = entries(f.get("write"))
            rd = entries(f.get("read"))
            if wr:
                if pol == "replace":
                    o.append("        if (h) { hx_h5().remove(fn); h = nullptr; }")
                elif pol == "skip":
                    o.append("        if (h) break;")
                elif pol == "error":
                    o.append('        if (h) { hx_fail("PDI: the file exists"); break; }')
                elif pol != "write_into":
                    raise Unsupported("collision_policy " + pol)
                o.append("        if (!h) h = hx_h5().create(fn);")
            if rd:
                o.append('        if (!h) { hx_fail("PDI: the file to read does not exist"); break; }')
            for name, e in wr + rd:
                bad = set(e) - {"dataset", "memory_selection", "dataset_selection", "when", "collision_policy"}
                if bad:
                    raise Unsupported("keys %r of %s" % (bad, name))
                if name not in types:
                    raise Unsupported("unknown data " + name)
                k, d = dims(types[name])
                if k not in KIND:
                    raise Unsupported("type of " + name)
                ds = str(e.get("dataset", name))
                pre = "        if (%s) " % expr(e["when"]) if "when" in e else "        "
                decl = None
                for dn, dt in (f.get("datasets") or {}).items():
                    if "$" in ds:
                        pat = re.sub(r"\$\{?\w+\}?", r"\\w+", ds)
                        if re.fullmatch(pat, dn):
                            decl = decl or {}
                            decl[dn] = dt
                    elif dn == ds or re.fullmatch(dn, ds):
                        decl = {dn: dt}
                md = vec(d) if d else "std::vector<long> {1}"
                if (name, e) in wr and any(e is x for _, x in wr):
                    if "$" in ds:
                        # the dataset must be declared; otherwise it takes the shape of the selection
                        o.append("%s{" % pre)
                        o.append("            std::string const dn = %s;" % text(ds))
                        o.append("            std::vector<long> dd; bool has = false;")
                        for dn, dt in (decl or {}).items():
                            o.append('            if (dn == "%s") { dd = %s; has = true; }' % (dn, vec(dims(dt)[1])))
                        o.append('            hx_pdi_write(c, *h, dn, "%s", \'%s\', %s, %s, %s, has ? &dd : nullptr);' % (name, KIND[k], md, sel(e.get("memory_selection")), sel(e.get("dataset_selection"))))
                        o.append("        }")
                    else:
                        dd = None
                        if decl:
                            dk, dl = dims(list(decl.values())[0])
                            dd = vec(dl) if dl else "std::vector<long> {1}"
                        o.append("%s{" % pre)
                        if dd:
                            o.append("            std::vector<long> const dd = %s;" % dd)
                        o.append('            hx_pdi_write(c, *h, "%s", "%s", \'%s\', %s, %s, %s, %s);' % (ds, name, KIND[k], md, sel(e.get("memory_selection")), sel(e.get("dataset_selection")), "&dd" if dd else "nullptr"))
                        o.append("        }")
                else:
                    o.append('%shx_pdi_read(c, *h, %s, "%s", \'%s\', %s, %s, %s);' % (pre, text(ds), name, KIND[k], md, sel(e.get("memory_selection")), sel(e.get("dataset_selection"))))
            o.append("    } while (false);")
    o.append("    (void)c;")
    o.append("}")
    open(dst, "w").write("\n".join(o) + "\n")

if __name__ == "__main__":
    try:
        main(sys.argv[1], sys.argv[2])
    except Unsupported as x:
        sys.stderr.write("PDI configuration: unsupported %s\n" % x)
        sys.exit(3)
