#!/usr/bin/env python3
"""stage1.py MUTANTS.jsonl OUT.jsonl [jobs]: keeps the mutants that compile and pass the existing tests of /repo."""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
ENV = dict(os.environ, GOMAXPROCS="3", PATH="/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin", GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GOWORK="off", GOENV="off")
muts = [json.loads(l) for l in open(sys.argv[1])]
out = open(sys.argv[2], "a")
jobs = int(sys.argv[3]) if len(sys.argv) > 3 else 4
W = "/tmp/mut"
os.makedirs(W, exist_ok=True)
def overlay(i, m):
    d = f"{W}/{i}"
    os.makedirs(d, exist_ok=True)
    src = open("/repo/" + m["file"], "rb").read()
    open(d + "/f.go", "wb").write(src[:m["start"]] + m["new"].encode() + src[m["end"]:])
    json.dump({"Replace": {"/repo/" + m["file"]: d + "/f.go"}}, open(d + "/o.json", "w"))
    return d
def run(i):
    m = muts[i]
    d = overlay(i, m)
    try:
        c = subprocess.run(["go", "build", "-overlay", d + "/o.json", "./..."], cwd="/repo", env=ENV, capture_output=True, timeout=120)
        if c.returncode:
            return "nocompile"
        c = subprocess.run(["bash", "-c", "ulimit -v 12000000; go test -vet=off -failfast -count=1 -timeout 20s -overlay %s/o.json ./..." % d], cwd="/repo", env=ENV, capture_output=True, timeout=120)
        if c.returncode:
            return "killed"
    except subprocess.TimeoutExpired:
        return "killed"
    finally:
        subprocess.run(["rm", "-rf", d])
    out.write(json.dumps(m) + "\n"); out.flush()
    return "survived"
from collections import Counter
n = Counter()
with ThreadPoolExecutor(jobs) as ex:
    for k, r in enumerate(ex.map(run, range(len(muts)))):
        n[r] += 1
        if k % 100 == 0:
            print(k, dict(n), flush=True)
print(dict(n))
