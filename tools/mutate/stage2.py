#!/usr/bin/env python3
"""stage2.py SURVIVORS.jsonl OUT.jsonl [jobs] [stride] [skip-file]: which check catches each mutant that the existing tests miss."""
import json, os, sys, subprocess
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(__file__))
import trylib
muts = [json.loads(l) for l in open(sys.argv[1])]
done = set()
if os.path.exists(sys.argv[2]):
    for l in open(sys.argv[2]):
        m = json.loads(l); done.add((m["file"], m["start"], m["end"], m["new"]))
jobs = int(sys.argv[3]) if len(sys.argv) > 3 else 2
stride = int(sys.argv[4]) if len(sys.argv) > 4 else 8
only = sys.argv[5].split(",") if len(sys.argv) > 5 else None
out = open(sys.argv[2], "a")
ALL = "C02 C03 C01 C04 C05 C13 C12 C11 C10 C20 C19 C08 C07 C06 C17 C16 C18 C14 C09 C15".split()
FIRST = {"lexer/": "C05 C19 C13 C08", "parser/": "C01 C02 C13 C08 C19", "token/": "C19", "textwire.go": "C18 C20 C16", "template.go": "C17 C18", "fail/": "C13 C17 C20", "object/utils": "C12 C20", "object/": "C12 C01",
  "evaluator/str": "C11 C10", "evaluator/array": "C11 C20", "evaluator/int": "C11", "evaluator/float": "C11", "evaluator/": "C01 C02 C03 C04 C13 C09", "files": "C18", "ast/": "C06 C07 C13", "parser_utils": "C06 C07 C18", "utils.go": "C18"}
def order(f):
    first = next((v.split() for k, v in FIRST.items() if f.startswith(k)), [])
    return first + [c for c in ALL if c not in first]
def run(k):
    m = muts[k]
    if (m["file"], m["start"], m["end"], m["new"]) in done: return
    w = f"/tmp/s2-{os.getpid()}-{k}"
    os.makedirs(w, exist_ok=True)
    src = open("/repo/" + m["file"], "rb").read()
    open(w + "/f.go", "wb").write(src[:m["start"]] + m["new"].encode() + src[m["end"]:])
    json.dump({"Replace": {"/repo/" + m["file"]: w + "/f.go"}}, open(w + "/o.json", "w"))
    res, kind = "none", ""
    e = trylib.build(w + "/o.json", w, False)
    if e: res = "nobuild"
    else:
        for c in only or order(m["file"]):
            if c == "C15":
                trylib.build(w + "/o.json", w, True)
            code, o, t = trylib.check(w, c, stride, 600)
            if code == 1:
                res, kind = c, ([l.strip() for l in o.split("\n") if "kind:" in l] + [""])[0]
                break
            if code != 0:
                res, kind = f"{c}({code})", o[-300:]
                break
    m["res"], m["kind"] = res, kind
    out.write(json.dumps(m) + "\n"); out.flush()
    trylib.clean(w)
with ThreadPoolExecutor(jobs) as ex: list(ex.map(run, range(len(muts))))
