#!/usr/bin/env python3
"""Driver: builds the harness of a property from /repo's current tree, searches,
shrinks, and writes the evidence.  python3 run.py C01 [--replay FILE] [--keep]"""
import json, os, sys, subprocess, tempfile, shutil, time, struct, signal, hashlib, random
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("NUDB_REPO", "/repo")
SRC = os.path.join(HERE, "src")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NW = min(8, os.cpu_count() or 8)
sys.path.insert(0, HERE)
from checks import CHECKS, WRAPS

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def build(spec, out):
    cxx = spec.get("cxx", "clang++")
    base = [cxx, "-std=c++17", "-g1", "-include", "stdexcept", "-I" + REPO + "/include", "-I" + SRC, "-w"]
    jobs = []
    objs = []
    for s in spec["src"]:
        o = os.path.join(out, s.replace("/", "_") + ".o")
        objs.append(o)
        p = s if s.startswith("/") else os.path.join(SRC, s)
        fl = [f for f in spec["flags"] if not f.startswith("-fsanitize") and not f.startswith("-fno-sanitize")] if s in spec.get("plain", ()) else spec["flags"]
        jobs.append(base + fl + ["-c", p, "-o", o])
    exe = os.path.join(out, "harness")
    tool = spec.get("tool")
    if tool:
        ENV["NUDB_TOOL"] = os.path.join(out, "tool")
        jobs.append(["g++", "-std=c++14", "-g1", "-w", "-include", "stdexcept", "-I" + REPO + "/include", REPO + "/" + tool["src"], "-o", ENV["NUDB_TOOL"], "-pthread"] + tool["flags"])
    with ThreadPoolExecutor(8) as ex:
        rs = list(ex.map(sh, jobs))
    for r in rs:
        if r.returncode:
            sys.stderr.write(r.stdout)
            if spec.get("fallback"):
                sys.stderr.write("does not compile; trying with %s\n" % spec["fallback"])
                return build(dict(spec, flags=spec["flags"] + spec["fallback"], fallback=None), out)
            sys.exit(3)
    link = [cxx] + spec["flags"] + objs + ["-o", exe, "-pthread"] + spec.get("link", [])
    if spec.get("wrap", True):
        link += ["-Wl,--wrap=" + w for w in WRAPS]
    link += ["-lboost_thread", "-lboost_system"] + spec.get("libs", [])
    r = sh(link)
    if r.returncode:
        sys.stderr.write(r.stdout)
        sys.exit(3)
    return exe

ENV = dict(os.environ)
def known_findings(pid):
    """Listed findings of a property: id -> what fails."""
    k = {}
    for l in open(os.path.join(HERE, "known-findings.txt")):
        w = l.split(None, 3)
        if len(w) == 4 and w[0] == "known:" and w[1] == "property=" + pid:
            k[w[2]] = w[3].strip()
    return k
ENV["ASAN_OPTIONS"] = "exitcode=97:detect_leaks=0:allocator_may_return_null=1:handle_abort=1:detect_stack_use_after_return=0:malloc_context_size=8:quarantine_size_mb=32"
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=97"
ENV["TSAN_OPTIONS"] = "exitcode=97:halt_on_error=1:history_size=4"
ENV["VERIF_TIER"] = TIER
ENV["NUDB_REPO"] = REPO

def classify(rc, out):
    """-> None if the case passed, else a one line reason"""
    if rc == 0:
        return None
    if rc == 10:
        for l in out.splitlines():
            if l.startswith("FAIL: "):
                return l[6:]
        return "property violated"
    if rc == 98:
        return "does not terminate (" + ([l for l in out.splitlines() if "HANG" in l] or ["HANG"])[0] + ")"
    if rc == 96:
        return "deadlock or lost wakeup: " + ([l for l in out.splitlines() if "DEADLOCK" in l] or [""])[0]
    for l in out.splitlines():
        if "ERROR: AddressSanitizer" in l or "runtime error:" in l or "WARNING: ThreadSanitizer" in l or "Assertion" in l or "terminate called" in l or "what():" in l:
            return "crash: " + l.strip()[:300]
    if rc < 0:
        return "killed by signal %d" % -rc
    return "exit status %d" % rc

class Idle:
    """Tells whether a process sleeps in all of its threads, without children
    and without using any CPU time, for a while: a deadlock (the harness never
    sleeps for long by itself, its clock is virtual)."""
    LIMIT = 15
    def __init__(self, pid):
        self.pid, self.cpu, self.since = pid, None, time.time()
    def check(self):
        try:
            cpu, busy = 0, False
            for t in os.listdir("/proc/%d/task" % self.pid):
                d = open("/proc/%d/task/%s/stat" % (self.pid, t)).read().rsplit(")", 1)[1].split()
                cpu += int(d[11]) + int(d[12])
                if d[0] != "S" or open("/proc/%d/task/%s/children" % (self.pid, t)).read().strip():
                    busy = True
        except (OSError, IndexError):
            busy = True
            cpu = None
        if busy or cpu != self.cpu:
            self.cpu, self.since = cpu, time.time()
        return time.time() - self.since > self.LIMIT

def run_proc(cmd, cwd, timeout):
    """-> exit status and output; a deadlocked or slow process is ended"""
    with tempfile.TemporaryFile(dir=cwd) as o:
        p = subprocess.Popen(cmd, stdout=o, stderr=subprocess.STDOUT, env=ENV, cwd=cwd)
        idle, end, rc, step = Idle(p.pid), time.time() + timeout, None, 0.002
        nextidle = time.time() + 1
        while True:
            try:
                rc = p.wait(step)
                break
            except subprocess.TimeoutExpired:
                pass
            step = min(step * 1.5, 0.05)
            now = time.time()
            if now > end or (now > nextidle and idle.check()):
                why = "HANG: no answer in time" if now > end else "DEADLOCK: all threads sleep forever"
                p.kill()
                p.wait()
                o.seek(0)
                return 98 if now > end else 96, o.read().decode(errors="replace") + "\n" + why + "\n"
            if now > nextidle:
                nextidle = now + 1
        o.seek(0)
        return rc, o.read().decode(errors="replace")

class Runner:
    def __init__(self, pid, spec, exe, tmp):
        self.pid, self.spec, self.exe, self.tmp = pid, spec, exe, tmp
        self.n = 0
        self.cpu = str(spec.get("case_cpu", 90))

    def replay(self, choices, wall=None, cpu=None):
        self.n += 1
        f = os.path.join(self.tmp, "r%d-%d.choices" % (os.getpid(), random.getrandbits(48)))
        with open(f, "w") as o:
            o.write("\n".join(map(str, choices)) + "\n")
        try:
            rc, out = run_proc([self.exe, "--prop", self.pid, "--replay", f, "--cpu", cpu or self.cpu], self.tmp, wall or self.spec.get("wall", 240))
        finally:
            os.unlink(f)
        return classify(rc, out), out

    def worker(self, frm, to, stride, seed=None):
        """Runs the cases frm, frm+stride.. below to in one process, as the search did"""
        f = os.path.join(self.tmp, "w%d" % random.getrandbits(48))
        rc, out = run_proc([self.exe, "--prop", self.pid, "--seed", str(SEED if seed is None else seed), "--from", str(frm), "--to", str(to),
            "--stride", str(stride), "--rec", f, "--stats", f + ".st", "--cpu", self.cpu], self.tmp, 300)
        if rc == 10 and os.path.exists(f + ".st"):
            out += "\nFAIL: " + load_stats(f + ".st").get("why", "")
        return classify(rc, out), out

    def shrink(self, choices, budget_s, hang=False):
        end = time.time() + budget_s
        best = list(choices)
        wall = 60
        def fails(c):
            # While shrinking a case that does not terminate, shorter ones
            # are taken for not terminating earlier than in the search.
            return self.replay(c, wall, "8" if hang else None)[0] is not None
        ex = ThreadPoolExecutor(NW)
        def first(cands):
            """first failing candidate of the list, evaluated NW at a time"""
            i = 0
            while i < len(cands) and time.time() < end:
                chunk = cands[i:i + NW]
                for c, f in zip(chunk, ex.map(fails, chunk)):
                    if f:
                        return c
                i += NW
            return None
        changed = True
        while changed and time.time() < end:
            changed = False
            size = max(1, len(best) // 2)
            while size >= 1 and time.time() < end:
                cands = [best[:i] + best[i + size:] for i in range(max(0, len(best) - size), -1, -size)]
                c = first([x for x in cands if len(x) < len(best)])
                if c is not None:
                    best = c
                    changed = True
                    size = min(size, max(1, len(best) // 2))
                    continue
                size //= 2
            size = max(1, len(best) // 2)
            while size >= 1 and time.time() < end:
                cands = []
                for i in range(0, len(best), size):
                    if any(best[i:i + size]):
                        cands.append(best[:i] + [0] * len(best[i:i + size]) + best[i + size:])
                c = first(cands)
                if c is not None:
                    best = c
                    changed = True
                    continue
                size //= 2
            for i in range(len(best)):
                if time.time() >= end:
                    break
                v = best[i]
                if v <= 1:
                    continue
                cands = []
                for nv in sorted({1, v // 2, v // 4, v * 3 // 4, v - 1}):
                    if nv < v:
                        cands.append(best[:i] + [nv] + best[i + 1:])
                c = first(cands)
                if c is not None:
                    best = c
                    changed = True
        while best and best[-1] == 0 and time.time() < end:
            if fails(best[:-1]):
                best = best[:-1]
            else:
                break
        ex.shutdown()
        return best

def read_rec(f):
    d = open(f, "rb").read()
    idx, n = struct.unpack("<QQ", d[:16])
    n = min(n, (len(d) - 32) // 8)
    return idx, list(struct.unpack("<%dQ" % n, d[32:32 + 8 * n]))

def setup():
    """Checks that the toolchain works; every check builds its own harness from /repo's current tree."""
    for t in ("clang++", "g++"):
        r = sh([t, "--version"])
        if r.returncode:
            sys.exit(t + " is missing")
        print(r.stdout.splitlines()[0])

def main():
    pid = sys.argv[1]
    if pid == "--setup":
        return setup()
    spec = CHECKS[pid]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="nudbv-%s-" % pid)
    try:
        rc = run(pid, spec, tmp, t0)
    finally:
        if "--keep" in sys.argv:
            print("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def save_violation(pid, R, choices, why, out, kind=""):
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.txt" % (pid, hashlib.sha1(repr(choices).encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        if kind:
            f.write("#worker %s\n" % " ".join(map(str, choices)))
            choices = []
        f.write("# property %s: %s\n# replay: cd /verif && python3 run.py %s --replay %s\n" % (pid, why.replace("\n", " "), pid, path))
        for l in out.splitlines()[:400]:
            f.write("# | " + l + "\n")
        f.write("\n".join(map(str, choices)) + "\n")
    return path

def load_stats(path):
    try:
        return json.load(open(path, encoding="utf-8", errors="replace"))
    except (OSError, ValueError):   # the worker was killed before it had written them
        return {}


def load_choices(path):
    return [int(l) for l in open(path).read().splitlines() if l.strip() and not l.startswith("#")]

def run(pid, spec, tmp, t0):
    listed = known_findings(pid)
    ENV["ENG_KNOWN"] = " ".join(listed)
    exe = build(spec, tmp)
    tb = time.time() - t0
    R = Runner(pid, spec, exe, tmp)
    if "--replay" in sys.argv:
        rf = sys.argv[sys.argv.index("--replay") + 1]
        l0 = open(rf).readline().split()
        if l0[:1] == ["#worker"]:
            sd, frm, to, stride = map(int, l0[1:5])
            why, out = R.worker(frm, to, stride, sd)
        else:
            why, out = R.replay(load_choices(rf))
        print(out)
        if why:
            print("VIOLATION property=%s replay=%s" % (pid, sys.argv[sys.argv.index("--replay") + 1]))
        return 1 if why else 0
    failures = []       # (index, choices, why)
    # Replay tier: saved inputs of earlier failures
    saved = 0
    rd = os.path.join(HERE, "regress", pid)
    if os.path.isdir(rd):
        fl = sorted(os.listdir(rd))
        with ThreadPoolExecutor(NW) as ex:
            for name, (why, out) in zip(fl, ex.map(lambda f: R.replay(load_choices(os.path.join(rd, f))), fl)):
                saved += 1
                if why and not failures:
                    failures.append((-1, load_choices(os.path.join(rd, name)), why))
    n = spec[TIER]
    if os.environ.get("VERIF_CASES"):
        n = int(os.environ["VERIF_CASES"])
    tot = dict(cases=0, evals=0, nontrivial=0)
    slowest = [0, 0]
    labels, known, samples, distinct = {}, {}, [], set()
    if not failures:
        nw = spec.get("workers", NW)
        procs = []
        for w in range(nw):
            rec, st = os.path.join(tmp, "rec%d" % w), os.path.join(tmp, "st%d" % w)
            of = open(os.path.join(tmp, "out%d" % w), "w")
            p = subprocess.Popen([exe, "--prop", pid, "--seed", str(SEED), "--from", str(w), "--to", str(n), "--stride", str(nw),
                "--rec", rec, "--stats", st, "--cpu", R.cpu], stdout=of, stderr=subprocess.STDOUT, env=ENV, cwd=tmp)
            procs.append([p, rec, st, of.name, -1, time.time(), Idle(p.pid)])
        nextidle = 0
        pending = list(procs)
        stall = spec.get("stall", 300)
        stop = False
        while pending:
            time.sleep(0.05)
            doidle = time.time() > nextidle
            if doidle:
                nextidle = time.time() + 1
            for q in list(pending):
                p, rec, st, of, last, when, idle = q
                if p.poll() is not None:
                    pending.remove(q)
                    out = open(of, errors="replace").read()
                    if p.returncode != 0:
                        if p.returncode == 3 or not os.path.exists(rec):
                            sys.stderr.write(out)
                            return 3
                        idx, ch = read_rec(rec)
                        if p.returncode == 10 and os.path.exists(st):
                            out += "\nFAIL: " + load_stats(st).get("why", "")
                        failures.append((idx, ch, classify(p.returncode, out)))
                        stop = True
                else:
                    try:
                        d = open(rec, "rb").read(8)
                        idx = struct.unpack("<Q", d)[0] if len(d) == 8 else -1
                    except FileNotFoundError:
                        idx = -1
                    if idx != q[4]:
                        q[4], q[5] = idx, time.time()
                    elif time.time() - q[5] > stall or (doidle and idle.check()):
                        p.kill(); p.wait()
                        pending.remove(q)
                        idx, ch = read_rec(rec)
                        failures.append((idx, ch, "no progress (hang or deadlock)"))
                        stop = True
            if stop:
                for q in pending:
                    q[0].kill(); q[0].wait()
                pending = []
        for p, rec, st, of, _, _, _ in procs:
            if not os.path.exists(st):
                continue
            d = load_stats(st)
            if not d:
                continue
            for k in tot:
                tot[k] += d[k]
            for src, dst in ((d["labels"], labels), (d["known"], known)):
                for k, v in src.items():
                    dst[k] = dst.get(k, 0) + v
            slowest = max(slowest, d.get("slowest", slowest))
            samples += d["samples"][:1]
            b = open(st + ".h", "rb").read()
            distinct.update(struct.unpack("<%dQ" % (len(b) // 8), b))
    violations = 0
    rc = 0
    if failures:
        failures.sort(key=lambda f: f[0])
        confirmed = history = None
        nw = spec.get("workers", NW)
        for idx, ch, why in failures:
            with ThreadPoolExecutor(3) as ex:
                res = list(ex.map(lambda _: R.replay(ch), range(3)))
            k = sum(1 for r in res if r[0])
            if k == 3 or (k and sum(1 for _ in range(10) if R.replay(ch)[0]) >= spec.get("flaky_min", 3)):
                confirmed = (idx, ch, [r for r in res if r[0]][0])
                break
            # it may need the cases that ran before it in the same process
            w = idx % nw
            with ThreadPoolExecutor(2) as ex:
                res = list(ex.map(lambda _: R.worker(w, idx + 1, nw), range(2)))
            if idx >= 0 and all(r[0] for r in res):
                confirmed = (idx, [], res[0])
                history = (SEED, w, idx + 1, nw)
                break
            print("note: case %d failed once (%s) and did not reproduce" % (idx, why))
        if confirmed:
            idx, ch, (why, out) = confirmed
            if history:
                path = save_violation(pid, R, list(history), why, out, "worker")
                print("case %d (after the cases before it): %s" % (idx, why))
                print("VIOLATION property=%s replay=%s" % (pid, path))
            elif len(ch) < 200000 and "--no-shrink" not in sys.argv:
                small = R.shrink(ch, spec.get("shrink_s", 60), why.startswith(("does not terminate", "deadlock")))
                w2, o2 = R.replay(small)
                if w2:
                    ch, why, out = small, w2, o2
            if not history:
                path = save_violation(pid, R, ch, why, out)
                print("case %d: %s" % (idx, why))
                print("shrunk to %d choices" % len(ch))
                print("VIOLATION property=%s replay=%s" % (pid, path))
            violations, rc = 1, 1
        elif spec.get("unreproduced_is_violation"):
            idx, ch, why = failures[0]
            path = save_violation(pid, R, ch, why, "")
            print("VIOLATION property=%s replay=%s" % (pid, path))
            violations, rc = 1, 1
    cov = dict(evaluations=tot["evals"], distinct_nontrivial=len(distinct), rule=spec["rule"],
        samples=(samples or ["(none: stopped at the first failure)"])[:3],
        cases=tot["cases"], slowest_case_ms=slowest[0], saved_inputs_replayed=saved, classes=dict(sorted(labels.items())), build_s=round(tb, 1))
    ev = dict(property=pid, tier=TIER, seed=SEED, level=spec.get("level", "exploration"), coverage=cov,
        assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=violations)
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(known):
        print("KNOWN-FINDING: property=%s %s" % (pid, listed.get(k, k)))
    print("%s %s: %d cases, %d evaluations, %d distinct non-trivial, build %.1fs, total %.1fs" %
        (pid, "VIOLATED" if rc else "held", tot["cases"], tot["evals"], len(distinct), tb, time.time() - t0))
    if "-v" in sys.argv:
        print("   slowest case: %d ms (case %d)" % tuple(slowest))
        for k, v in sorted(labels.items()):
            print("   %-30s %d" % (k, v))
    return rc

if __name__ == "__main__":
    main()
