#!/usr/bin/env python3
"""For each "fixed:" line of known-findings.txt: undo that commit in a scratch
clone and run the property's check, which must report it again."""
import concurrent.futures, os, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = [l.split(None, 3) for l in open(V + "/known-findings.txt") if l.startswith("fixed:")]
if len(sys.argv) > 1: L = [l for l in L if l[2] in sys.argv[1:]]
def one(l):
    prop, com = l[1].split("=")[1], l[2]
    w = tempfile.mkdtemp(prefix="rev-"); src = w + "/repo"
    try:
        subprocess.run(["git", "clone", "-q", "/repo", src], check=True)
        r = subprocess.run(["git", "-C", src, "revert", "-n", com], capture_output=True, text=True)
        if r.returncode: return com, prop, "CONFLICT " + r.stderr[-300:]
        t = time.time()
        r = subprocess.run([sys.executable, V + "/run.py", prop], capture_output=True, text=True, env=dict(os.environ, NUDB_REPO=src, VERIF_EVIDENCE=w + "/ev"))
        o = r.stdout + r.stderr
        return com, prop, ("reported" if r.returncode == 1 and "VIOLATION" in o else "NOT REPORTED rc=%d" % r.returncode) + " %ds " % (time.time() - t) + " | ".join(x for x in o.splitlines() if x.startswith("case"))[:200]
    finally:
        shutil.rmtree(w)
with concurrent.futures.ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
    for r in ex.map(one, L): print(*r, flush=True)
