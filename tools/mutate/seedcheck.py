#!/usr/bin/env python3
"""seedcheck.py [-a] [ids…]: runs the property's check (with -a: all checks) against each planted bug, over an overlay."""
import sys, os, json, glob
sys.path.insert(0, os.path.dirname(__file__))
import trylib
args = sys.argv[1:]
allc = "-a" in args
ids = [a for a in args if a != "-a"] or sorted(os.listdir("/verif/seeded"))
for s in ids:
    d = f"/verif/seeded/{s}"
    w = f"/tmp/seedw-{os.getpid()}"
    trylib.clean(w)
    prop = json.load(open(d + "/meta.json"))["property"]
    o = trylib.overlay_from_patch(d + "/patch.diff", w)
    e = trylib.build(o, w, allc or prop == "C15")
    if e: print(s, "NO BUILD", e[:500]); continue
    res = []
    for p in [prop] + ([f"C{i:02d}" for i in range(1, 21) if f"C{i:02d}" != prop] if allc else []):
        code, out, t = trylib.check(w, p)
        kind = [l.strip() for l in out.split("\n") if "kind:" in l][:1]
        if p == prop: res.append(f"{p}={'CAUGHT' if code == 1 and 'VIOLATION property=' + p in out else 'MISSED(%d)' % code} {t:.0f}s {kind}")
        elif code: res.append(p + ("" if code == 1 else f"({code})"))
    print(s, *res, flush=True)
    trylib.clean(w)
