#!/usr/bin/env python3
# run.py FILE.py [NAME...]: applies each rewrite of FILE.py (R = {name: [(file, old, new), ...]}) to a scratch copy of /repo and prints which checks report.
import sys, os, shutil, subprocess, importlib.util, concurrent.futures as cf
spec = importlib.util.spec_from_file_location("r", sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
names = sys.argv[2:] or list(m.R)
check = os.environ.get("CHECK", "all"); binp = os.environ.get("BIN", "/tmp/ac"); show = os.environ.get("SHOW")
def one(n):
    w = "/tmp/ref.%d.%s" % (os.getpid(), n)
    shutil.rmtree(w, ignore_errors=True); shutil.copytree("/repo", w, symlinks=True)
    try:
        for f, o, nw in m.R[n]:
            p = os.path.join(w, f); s = open(p).read()
            if o not in s: return n, "TEXT NOT FOUND: " + o[:60]
            open(p, "w").write(s.replace(o, nw, 1))
        b = subprocess.run("go build ./... && gofmt -l . | head -3", shell=True, cwd=w, capture_output=True, text=True)
        if b.returncode: return n, "BUILD: " + b.stderr[:400]
        v = w + ".v"; os.makedirs(v + "/evidence", exist_ok=True)
        shutil.copy("/verif/known-findings.txt", v)
        o = subprocess.run([binp, "-repo", w, "-check", check], capture_output=True, text=True, env=dict(os.environ, VERIF_DIR=v)).stdout
        bad = [l.split("property=")[1].split()[0] for l in o.split("\n") if "VIOLATION property" in l]
        t = "quiet" if not bad and "OK property" in o else "REPORTS " + " ".join(bad)
        if bad and show: t += "\n" + "\n".join(l[:int(os.environ.get("W","300"))] for l in o.split("\n") if l and not l.startswith("OK") and not l.startswith("  "))[:3000]
        if "OK property" not in o and not bad: t = "??? " + o[:300]
        return n, t
    finally:
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree(w + ".v", ignore_errors=True)
with cf.ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
    for n, t in ex.map(one, names):
        print(n + ": " + t, flush=True)
