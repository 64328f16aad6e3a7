"""Builds the harness against an overlay of /repo and runs checks with it, without touching /repo."""
import json, os, subprocess, shutil, glob, time
ENV = dict(os.environ, PATH="/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin", GOTOOLCHAIN="local", GOPROXY="off", GOSUMDB="off", GOFLAGS="-mod=mod", GOWORK="off", GOENV="off")
HARNESS = os.environ.get("HARNESS", "/verif/harness")
def build(overlay, work, race):
    os.makedirs(work + "/.build", exist_ok=True); os.makedirs(work + "/evidence", exist_ok=True)
    shutil.copy("/verif/known-findings.txt", work)
    for out, fl in [("vh", [])] + ([("vh-race", ["-race"])] if race else []):
        e = dict(ENV, CGO_ENABLED="1") if fl else ENV
        c = subprocess.run(["go", "build", "-overlay", overlay, *fl, "-o", f"{work}/.build/{out}", "."], cwd=HARNESS, env=e, capture_output=True, text=True)
        if c.returncode: return c.stdout + c.stderr
    return ""
def check(work, pid, stride=1, timeout=900, seed="1", failfast=True):
    """Returns (exit code, first line)"""
    e = dict(ENV, VERIF_DIR=work, VERIF_SEED=seed, VERIF_TIER="quick", VERIF_STRIDE=str(stride))
    if failfast: e["VERIF_FAILFAST"] = "1"
    t = time.time()
    p = subprocess.Popen([work + "/.build/vh", "check", pid], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout); code = p.returncode
    except subprocess.TimeoutExpired:
        out, code = "TIMEOUT", 99
    try: os.killpg(p.pid, 9)
    except ProcessLookupError: pass
    return code, out, time.time() - t
def clean(work):
    subprocess.run(["rm", "-rf", work])
def overlay_from_patch(patch, d):
    """Copies the files of a patch into d and applies it; returns the overlay file"""
    os.makedirs(d, exist_ok=True)
    files = subprocess.run(["git", "apply", "--numstat", patch], cwd="/repo", capture_output=True, text=True).stdout.split("\n")
    files = [l.split("\t")[2] for l in files if l]
    rep = {}
    for f in files:
        os.makedirs(os.path.dirname(f"{d}/src/{f}"), exist_ok=True)
        if os.path.exists("/repo/" + f): shutil.copy("/repo/" + f, f"{d}/src/{f}")
        rep["/repo/" + f] = f"{d}/src/{f}"
    c = subprocess.run(["git", "apply", "--unsafe-paths", f"--directory={d}/src", patch], cwd="/tmp", capture_output=True, text=True)
    if c.returncode:
        c = subprocess.run(["patch", "-p1", "-s", "-d", f"{d}/src", "-i", patch], capture_output=True, text=True)
        assert c.returncode == 0, c.stdout + c.stderr
    json.dump({"Replace": rep}, open(d + "/o.json", "w"))
    return d + "/o.json"
