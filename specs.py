# What each property check runs: harness sources, configurations, entries, bounds.
# props/*.py fill PROPS; gen.py derives properties.jsonl and MANIFEST.json from it.
import glob, os

def U(src, entries, **kw):
    d = dict(src=src, entries=entries)
    d.update(kw)
    return d

PROPS = {}
NOT_APPLICABLE = []

def prop(pid, title, statement, over, quant, why, files, mech, units=None, level="model_checking", note="", **kw):
    assert pid not in PROPS, pid
    PROPS[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, units=units or [], level=level, note=note, **kw)

_d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "props")
for _f in sorted(glob.glob(os.path.join(_d, "*.py"))):
    exec(compile(open(_f).read(), _f, "exec"))
