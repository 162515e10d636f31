#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ for the planted bugs described in tools/seeds/*.py.

Each of those files defines SEEDS, a list of dicts: id, property, needs,
what_it_breaks, edits [(file, old, new)...] and demo (C++ source), and
optionally flags and files {name: text}. `old` must occur exactly once in the
file (or give a 4th element: which occurrence, from 0)."""
import glob, importlib.util, json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NUDB_REPO", "/repo")

DEMO_SH = r'''#!/bin/bash
# Run with the repository as the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
out=$(mktemp -d)
trap 'rm -rf -- "$out"' EXIT
g++ -std=c++14 -include stdexcept -g @FLAGS@ -I"$repo/include" -I"$here" \
    "$here/demo.cpp" -o "$out/demo" -lboost_thread -lboost_system -ldl -pthread || exit 3
cd "$out" && @RUN@
'''


def main():
    want = set(sys.argv[1:])
    work = tempfile.mkdtemp()
    n = 0
    for f in sorted(glob.glob(os.path.join(V, "tools/seeds/*.py"))):
        spec = importlib.util.spec_from_file_location("s", f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        for s in m.SEEDS:
            if want and s["id"] not in want:
                continue
            d = os.path.join(V, "seeded", s["id"])
            os.makedirs(d, exist_ok=True)
            patch = ""
            names = []
            texts = {}
            for e in s["edits"]:
                p = e[0]
                if p not in texts:
                    names.append(p)
                    with open(os.path.join(REPO, p)) as fh:
                        texts[p] = fh.read()
                c = texts[p].count(e[1])
                if len(e) > 3:
                    i = -1
                    for _ in range(e[3] + 1):
                        i = texts[p].index(e[1], i + 1)
                    texts[p] = texts[p][:i] + e[2] + texts[p][i + len(e[1]):]
                else:
                    if c != 1:
                        sys.exit(f"{s['id']}: {p}: {c} matches for {e[1]!r}")
                    texts[p] = texts[p].replace(e[1], e[2])
            for p in names:
                a, b = os.path.join(work, "a"), os.path.join(work, "b")
                shutil.copy(os.path.join(REPO, p), a)
                with open(b, "w") as fh:
                    fh.write(texts[p])
                r = subprocess.run(["git", "diff", "--no-index", "--no-color", a, b], capture_output=True, text=True).stdout
                body = r[r.index("@@"):]
                patch += f"diff --git a/{p} b/{p}\n--- a/{p}\n+++ b/{p}\n{body}"
            with open(os.path.join(d, "patch.diff"), "w") as fh:
                fh.write(patch)
            with open(os.path.join(d, "demo.cpp"), "w") as fh:
                fh.write(s["demo"].lstrip("\n"))
            shutil.copy(os.path.join(V, "tools/demo/demo.hpp"), d)
            for k, t in s.get("files", {}).items():
                with open(os.path.join(d, k), "w") as fh:
                    fh.write(t)
            with open(os.path.join(d, "demo.sh"), "w") as fh:
                fh.write(s.get("sh") or DEMO_SH.replace("@FLAGS@", s.get("flags", "-O1"))
                         .replace("@RUN@", s.get("run", "timeout 200 ./demo")))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            with open(os.path.join(d, "meta.json"), "w") as fh:
                json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")}, fh, indent=1)
                fh.write("\n")
            n += 1
    shutil.rmtree(work)
    print(n, "written")


main()
