#!/usr/bin/env python3
"""Confirms planted bugs in scratch copies: seedcheck.py [--no-check] [--no-test] [-j N] ID...

For each: the patch applies to HEAD, changes no line a fix commit added, builds,
the stable tests pass, demo.sh exits 0 on the unchanged tree and nonzero with
the patch; then the property's quick check is run against the patched copy.
The scratch copies are removed afterwards."""
import argparse, concurrent.futures, json, os, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SUITES = ["basic_store", "buffer", "callgrind", "create", "error", "recover", "rekey", "verify", "visit"]
ap = argparse.ArgumentParser()
ap.add_argument("--no-check", action="store_true")
ap.add_argument("--no-test", action="store_true")
ap.add_argument("--tier", default="quick")
ap.add_argument("--seed", default="1")
ap.add_argument("--prop", help="run the check of another property")
ap.add_argument("-j", type=int, default=4)
ap.add_argument("ids", nargs="*")
a = ap.parse_args()


def sh(cmd, cwd, env=None, timeout=900):
    e = dict(os.environ, **(env or {}))
    try:
        r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           errors="replace", timeout=timeout, shell=isinstance(cmd, str))
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        return 124, str(x.stdout or "")[-2000:]


def build(src):
    return sh(f'''cmake -S {src} -B {src}/_bld -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_STANDARD=14 \
      "-DCMAKE_CXX_FLAGS=-include stdexcept" -DBOOST_ROOT=/usr -Dwith_rocks=OFF -DFETCHCONTENT_FULLY_DISCONNECTED=ON \
      -DFETCHCONTENT_SOURCE_DIR_BEAST_EXTRAS_SRC=/opt/vp/beast_extras -DCMAKE_PROJECT_NuDB_INCLUDE=/opt/vp/extra.cmake \
      >/dev/null && ninja -C {src}/_bld''', src, {"CC": "gcc", "CXX": "g++"})


LOCK = threading.Lock()
def save(sid, prop, what, secs):
    """Remembers the outcome for tools/seedtable.py."""
    if a.tier != "quick":
        return
    with LOCK:
        f = os.path.join(V, "tools", "seeds", "results.json")
        r = json.load(open(f)) if os.path.exists(f) else {}
        r.setdefault(sid, {})[prop] = [what, secs]
        json.dump(r, open(f, "w"), indent=0, sort_keys=True)


def one(sid):
    d = os.path.join(V, "seeded", sid)
    meta = json.load(open(os.path.join(d, "meta.json")))
    w = tempfile.mkdtemp(prefix="seed-" + sid + "-")
    src = os.path.join(w, "repo")
    res = []
    try:
        subprocess.run(["git", "clone", "-q", "/repo", src], check=True)
        base = subprocess.run(["git", "log", "--format=%H", "--grep=^base$"], cwd="/repo", capture_output=True, text=True).stdout.split()[-1]
        demo = tempfile.mkdtemp(prefix="demo", dir=w)
        for f in os.listdir(d):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(d, f), demo)
        rc, o = sh(["git", "apply", "--check", os.path.join(d, "patch.diff")], src)
        if rc:
            return sid, ["PATCH DOES NOT APPLY " + o]
        need = "_bld" in open(os.path.join(d, "demo.sh")).read() or "_build" in open(os.path.join(d, "demo.sh")).read()
        if need:
            build(src)
            os.symlink("_bld", os.path.join(src, "_build"))
        t = time.time()
        rc, o = sh(["bash", os.path.join(demo, "demo.sh")], src, timeout=300)
        if rc:
            return sid, [f"DEMO FAILS ON THE UNCHANGED TREE rc={rc}: " + o[-1500:]]
        t0 = time.time() - t
        subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=src, check=True)
        # do the removed lines come from the base commit?
        removed = []
        for l in open(os.path.join(d, "patch.diff")):
            if l.startswith("-") and not l.startswith("---"):
                removed.append(l[1:].strip())
        mine = set(x[1:].strip() for x in subprocess.run(["git", "diff", base, "HEAD", "--", "include", "tools"], cwd="/repo",
                   capture_output=True, text=True).stdout.splitlines() if x.startswith("+"))
        bad = [l for l in removed if l in mine and len(l) > 25]
        if bad:
            res.append("touches fix lines? " + repr(bad[:2]))
        if not a.no_test or need:
            rc, o = build(src)
            if rc:
                return sid, ["BUILD FAILS " + o[-1500:]]
        if not a.no_test:
            for s in SUITES:
                rc, o = sh([src + "/_bld/test/test-all", s], w, {"TMPDIR": w}, timeout=120)
                if rc:
                    return sid, [f"TEST {s} FAILS rc={rc} " + o[-600:]]
        t = time.time()
        rc, o = sh(["bash", os.path.join(demo, "demo.sh")], src, timeout=300)
        if rc == 0:
            return sid, res + ["DEMO PASSES WITH THE PATCH"]
        if rc == 3:
            return sid, res + ["DEMO DOES NOT COMPILE WITH THE PATCH " + o[-800:]]
        res.append(f"demo ok ({t0:.0f}s; patched rc={rc} {time.time()-t:.0f}s: {o.strip()[-90:]!r})")
        if not a.no_check:
            prop = a.prop or meta["property"]
            t = time.time()
            rc, o = sh([sys.executable, os.path.join(V, "run.py"), prop], V,
                       {"NUDB_REPO": src, "VERIF_SEED": a.seed, "VERIF_TIER": a.tier, "VERIF_EVIDENCE": os.path.join(w, "ev")}, timeout=2000)
            viol = [l for l in o.splitlines() if "VIOLATION" in l]
            save(sid, prop, "caught" if rc == 1 and viol else "missed", round(time.time() - t))
            res.append(("CAUGHT" if rc == 1 and viol else f"MISSED rc={rc}") + f" by {prop} in {time.time()-t:.0f}s "
                       + " | ".join(l[:160] for l in o.splitlines() if "VIOLATION" in l or "FAIL" in l)[:400])
        return sid, res
    finally:
        shutil.rmtree(w)


ids = a.ids or sorted(os.listdir(os.path.join(V, "seeded")))
with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
    for sid, r in ex.map(one, ids):
        print(f"{sid}: " + "\n    ".join(r), flush=True)
