#!/usr/bin/env python3
"""Mutation survey: mutate.py [-n N] [--seed S] [--files substr] [--only ID...]

Makes small changes (operators, constants, deleted or swapped statements) to the
sources, runs the checks named for the file with a reduced number of cases until
one reports a violation, and for mutants that no check reports builds and runs the
stable tests. Results are appended to --out (JSON lines)."""
import argparse, concurrent.futures, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
ap = argparse.ArgumentParser()
ap.add_argument("-n", type=int, default=50)
ap.add_argument("-j", type=int, default=2)
ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--files", default="")
ap.add_argument("--out", default="/tmp/mut.jsonl")
ap.add_argument("--frac", type=float, default=0.4)
ap.add_argument("--list", action="store_true")
ap.add_argument("--only", nargs="*")
ap.add_argument("--until", type=float, default=0, help="stop starting mutants after this many seconds")
a = ap.parse_args()
I = "include/nudb/"
F = {
 I+"impl/basic_store.ipp": "C01 C05 C03 C10 C11 C02 C23 C08 C06 C07 C09 C18 C25 C17 C22 C19",
 I+"basic_store.hpp": "C01 C05 C03 C08 C06 C07 C25",
 I+"impl/context.ipp": "C08 C09 C06 C07 C02",
 I+"detail/store_base.hpp": "C08 C09 C06 C07",
 I+"impl/create.ipp": "C17 C22 C25 C26 C18 C10 C24 C05 C16",
 I+"impl/recover.ipp": "C04 C03 C16 C18 C19 C25 C22 C11",
 I+"impl/rekey.ipp": "C15 C16 C18 C10 C22 C25 C12 C19 C26",
 I+"impl/verify.ipp": "C12 C13 C19 C18 C25",
 I+"impl/visit.ipp": "C14 C19 C25 C18",
 I+"impl/posix_file.ipp": "C20 C17 C05 C25 C02 C18",
 I+"native_file.hpp": "C22 C25 C17 C20",
 I+"detail/arena.hpp": "C01 C05 C08 C06 C07 C03",
 I+"detail/bucket.hpp": "C01 C10 C03 C12 C13 C19 C15 C14 C05 C23",
 I+"detail/buffer.hpp": "C01 C14 C19 C24",
 I+"detail/bulkio.hpp": "C10 C14 C03 C15 C12 C11 C05 C19 C16",
 I+"detail/cache.hpp": "C01 C05 C03 C06 C07 C08 C10",
 I+"detail/endian.hpp": "C10 C21",
 I+"detail/field.hpp": "C10 C01 C14 C13 C19",
 I+"detail/format.hpp": "C18 C10 C17 C13 C01 C15 C03 C12 C19 C23",
 I+"detail/gentex.hpp": "C06 C07 C08 C05 C01",
 I+"detail/pool.hpp": "C01 C05 C06 C07 C08 C03 C10",
 I+"detail/stream.hpp": "C01 C14 C19 C10",
 I+"detail/xxhash.hpp": "C21",
 I+"verify.hpp": "C12 C13", I+"xxhasher.hpp": "C21",
 "tools/nudb.cpp": "C24",
}
OPS = [(r"(?<![<>=!-])<(?![<=])(?=\s)", "<="), (r"<=", "<"), (r"(?<![->=])>(?![>=])(?=\s)", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="),
       (r"(?<=\s)\+(?=\s)", "-"), (r"(?<=\s)-(?=\s)", "+"), (r"\s[+-]\s1\b", ""), (r"&&", "||"), (r"\|\|", "&&"), (r"!(?=[\w(])", ""), (r"\+=", "-="), (r"-=", "+="),
       (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<=\s)\*(?=\s)", "+"), (r"(?<=\s)/(?=\s)", "*"),
       (r"(?<=\s)%(?=\s)", "/"), (r"\bbreak;", "continue;"), (r"\bstd::min\b", "std::max"), (r"\bstd::max\b", "std::min"), (r"\block_guard|unique_lock\b", None)]
SKIP = re.compile(r"^\s*(//|\*|/\*|#|template|using|namespace|class|struct|typename|public|private|friend|case|default)|BOOST_ASSERT|static_assert|^\s*[{}]")


def mutants(path):
    L = open("/repo/" + path).read().split("\n")
    out = []
    start = next((i for i, l in enumerate(L) if l.startswith("namespace nudb")), 60) if path.startswith("include") else 40
    for i in range(start, len(L)):
        l = L[i]
        code = l.split("//")[0]
        if not code.strip() or SKIP.search(code):
            continue
        for pat, rep in OPS:
            if rep is None:
                continue
            for m in re.finditer(pat, code):
                if "template" in code or "operator" in code or "static_cast<" in code and rep in ("<=", ">="):
                    continue
                out.append((i, code[:m.start()] + rep + code[m.end():] , i, 1))
        s = code.strip()
        if s.endswith(";") and not s.startswith(("return", "auto", "std::", "bool", "const", "break")) and re.match(r"^[\w.\->\[\]:+*]+(\(| [+*/-]?= |\+\+|--|;|\.)", s) and "(" in s or re.match(r"^[\w.\->\[\]]+ [+-]?= .*;$", s):
            out.append((i, "", i, 1))
            nx = L[i + 1].strip() if i + 1 < len(L) else ""
            if nx.endswith(";") and not nx.startswith(("return", "break")) and s != nx:
                out.append((i, L[i + 1] + "\n" + l, i + 1, 2))
        if s == "if(ec)" and L[i + 1].strip() in ("return;", "goto fail;", "break;"):
            out.append((i, "", i + 1, 2))
        if re.match(r"^(if|while)\(.*\)$", s) and "if(ec" not in s and s.count("(") == s.count(")"):
            out.append((i, re.sub(r"(if|while)\((.*)\)$", r"\1(! (\2))", code.rstrip()), i, 1))
            out.append((i, re.sub(r"(if|while)\((.*)\)$", r"\1(false && (\2))", code.rstrip()), i, 1))
    res = []
    for i, new, last, n in out:
        old = "\n".join(L[i:i + n])
        if new.strip() == old.strip():
            continue
        text = "\n".join(L[:i] + ([new] if new else []) + L[i + n:])
        hid = hashlib.sha1((path + str(i) + old + "->" + new).encode()).hexdigest()[:8]
        res.append(dict(id=hid, file=path, line=i + 1, old=old.strip(), new=new.strip(), text=text))
    return res


SUITES = ["basic_store", "buffer", "callgrind", "create", "error", "recover", "rekey", "verify", "visit"]


def tests(src, w):
    r = subprocess.run(f'''cmake -S {src} -B {w}/_bld -G Ninja -Wno-dev -DCMAKE_BUILD_TYPE=Debug -DCMAKE_CXX_STANDARD=14 \
      "-DCMAKE_CXX_FLAGS=-include stdexcept" -DBOOST_ROOT=/usr -Dwith_rocks=OFF -DFETCHCONTENT_FULLY_DISCONNECTED=ON \
      -DFETCHCONTENT_SOURCE_DIR_BEAST_EXTRAS_SRC=/opt/vp/beast_extras -DCMAKE_PROJECT_NuDB_INCLUDE=/opt/vp/extra.cmake \
      >/dev/null && ninja -C {w}/_bld''', shell=True, capture_output=True, text=True, env=dict(os.environ, CC="gcc", CXX="g++"))
    if r.returncode:
        return "no build"
    for s in SUITES:
        try:
            r = subprocess.run([w + "/_bld/test/test-all", s], cwd=w, capture_output=True, env=dict(os.environ, TMPDIR=w), timeout=120)
        except subprocess.TimeoutExpired:
            return "killed by test " + s
        if r.returncode:
            return "killed by test " + s
    return "passes tests"


lock = threading.Lock()
T0 = time.time()


def one(m):
    if a.until and time.time() - T0 > a.until:
        return
    w = tempfile.mkdtemp(prefix="mut-")
    src = w + "/repo"
    t = time.time()
    try:
        subprocess.run(["git", "clone", "-q", "/repo", src], check=True)
        open(src + "/" + m["file"], "w").write(m["text"])
        res, by = "SURVIVED", ""
        for p in F[m["file"]].split():
            q = CHECKS[p]["quick"]
            r = subprocess.run([sys.executable, V + "/run.py", p, "--no-shrink"], capture_output=True, text=True, errors="replace",
                env=dict(os.environ, NUDB_REPO=src, VERIF_EVIDENCE=w + "/ev", VERIF_CASES=str(max(16, int(q * a.frac)))))
            if r.returncode == 3:
                res = "nocompile" if "error:" in r.stderr + r.stdout else "noanswer"; by = p + " " + (r.stdout + r.stderr)[-300:] * (res == "noanswer"); break
            if r.returncode == 1:
                res, by = "caught", p; break
        if res == "SURVIVED":
            by = tests(src, w)
        d = dict(m, res=res, by=by, secs=round(time.time() - t)); d.pop("text")
        with lock:
            open(a.out, "a").write(json.dumps(d) + "\n")
            print(res, by[:40], m["id"], m["file"], m["line"], "|", m["old"].replace("\n", "\\n"), "->", m["new"].replace("\n", "\\n"), "%ds" % (time.time() - t), flush=True)
    finally:
        shutil.rmtree(w)


allm = [m for f in F if a.files in f for m in mutants(f)]
if a.only:
    sel = [m for m in allm if m["id"] in a.only]
else:
    done = set()
    if os.path.exists(a.out):
        done = {json.loads(l)["id"] for l in open(a.out)}
    random.Random(a.seed).shuffle(allm)
    sel = [m for m in allm if m["id"] not in done][:a.n]
print(len(allm), "mutants,", len(sel), "selected")
if a.list:
    from collections import Counter
    print(Counter(m["file"] for m in allm))
    for m in sel[:40]:
        print(m["id"], m["file"], m["line"], m["old"], "->", m["new"])
    sys.exit()
with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
    list(ex.map(one, sel))
