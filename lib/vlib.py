"""Shared machinery: building drivers from /repo, running them, checking the
recorded histories with TLC, evidence and verdicts."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LCE_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
EVID = os.path.join(VERIF, "evidence")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 8)
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
T0 = time.time()


class CheckError(Exception):
    """The machinery (not the code under test) failed."""


class EvalError(CheckError):
    pass


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def tree_hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    files = []
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in os.walk(p):
                ds.sort()
                files += [os.path.join(d, f) for f in fs if f.endswith((".h", ".cc", ".td", ".py", ".inc", ".hpp"))]
        elif os.path.exists(p):
            files.append(p)
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def locked_build(name, key, builder):
    """Build into BUILD/<name>-<key> once (concurrent checks wait)."""
    os.makedirs(BUILD, exist_ok=True)
    dst = os.path.join(BUILD, "%s-%s" % (name, key))
    with open(os.path.join(BUILD, ".lock-" + name), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(dst, ".done")):
            for old in glob.glob(os.path.join(BUILD, name + "-*")):
                if time.time() - os.path.getmtime(old) > 3600 or old == dst:
                    shutil.rmtree(old, ignore_errors=True)
            os.makedirs(dst, exist_ok=True)
            builder(dst)
            open(os.path.join(dst, ".done"), "w").close()
    return dst


def parallel_compile(jobs):
    """jobs: list of argv; all run in parallel."""
    def one(cmd):
        r = sh(cmd)
        return (cmd, r)
    with ThreadPoolExecutor(NCPU) as ex:
        for cmd, r in ex.map(one, jobs):
            if r.returncode != 0:
                raise CheckError("compile failed: %s\n%s" % (" ".join(cmd), r.stderr[-4000:]))


KFLAGS = ["-std=c++17", "-O1", "-fwrapv", "-w", "-DTFLITE_WITH_RUY"]


def build_ops_driver(sanitize=False):
    shim = os.path.join(VERIF, "shim", "include")
    drv = os.path.join(VERIF, "drivers", "ops_driver.cc")
    lce = os.path.join(REPO, "larq_compute_engine")
    flags = list(KFLAGS)
    if sanitize:
        flags += ["-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-fno-sanitize=shift,alignment,signed-integer-overflow,enum,bool"]
    key = tree_hash([os.path.join(lce, "core"), os.path.join(lce, "tflite", "kernels"), shim, drv], " ".join(flags))

    def builder(dst):
        srcs = [os.path.join(lce, "tflite/kernels", f) for f in ("bconv2d.cc", "bmaxpool.cc", "quantization.cc")] + [drv]
        objs = [os.path.join(dst, os.path.basename(s) + ".o") for s in srcs]
        parallel_compile([["g++"] + flags + ["-I" + shim, "-I" + REPO, "-c", s, "-o", o] for s, o in zip(srcs, objs)])
        parallel_compile([["g++"] + flags + objs + ["-lpthread", "-o", os.path.join(dst, "ops_driver")]])
    return os.path.join(locked_build("ops-san" if sanitize else "ops", key, builder), "ops_driver")


def watched(cmd, out, idle, **kw):
    """Runs cmd while the file out grows; -> (status, stderr), status -999 if out
    did not grow for idle seconds."""
    import time
    with tempfile.TemporaryFile() as ef:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, **kw)
        size, since, step = -1, time.time(), 0.05
        try:
            while True:
                try:
                    rc = p.wait(step)
                    break
                except subprocess.TimeoutExpired:
                    step = min(1.0, step * 1.5)
                n = os.path.getsize(out) if os.path.exists(out) else -1
                if n != size:
                    size, since = n, time.time()
                elif time.time() - since > idle:
                    rc = -999
                    break
        finally:
            if p.poll() is None:
                p.kill()
                p.wait()
        ef.seek(0)
        err = ef.read().decode("utf8", "replace")
    return rc, "timeout" if rc == -999 else err


NOT_RUN = {}


class Patience:
    """Code that hangs or dies on everything: a few cases show it, the others are
    left out (NOT_RUN), and so neither accepted nor rejected by judge_histories."""

    def __init__(self, hangs=2, deaths=400):
        self.left = dict(hangs=hangs, deaths=deaths)

    def saw(self, rc):
        self.left["hangs" if rc == -999 else "deaths"] -= 1

    @property
    def gone(self):
        return min(self.left.values()) <= 0


def not_run(case):
    NOT_RUN[id(case)] = case


def run_script(driver, text, timeout=120, env=None):
    """Run one driver script. Returns (events, status) where status is None or a
    description of how the process died."""
    with tempfile.TemporaryDirectory(prefix="lcev") as d:
        s, o = os.path.join(d, "s"), os.path.join(d, "o")
        with open(s, "w") as f:
            f.write(text)
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1"
        e.update(env or {})
        status = None
        rc, err = watched([driver, s, o], o, timeout, env=e)
        if rc == 3:
            raise CheckError("driver protocol error: " + err[-500:])
        if rc == 77:
            status = "A64: " + err[-300:]
        elif rc == -999:
            status = "did not finish: nothing for %ds" % timeout
        elif rc != 0:
            status = "died with status %d: %s" % (rc, err[-1500:])
        ev = []
        if os.path.exists(o):
            with open(o) as f:
                for line in f:
                    if line.endswith("\n"):
                        try:
                            ev.append(json.loads(line))
                        except ValueError:
                            break
        if status is None and (not ev or ev[-1].get("ev") != "end"):
            status = "ended early"
        return ev, status


def run_histories(driver, scripts, timeout=100):
    """scripts: list of script texts (one per history, no mark line).
    Returns list of (events, status)."""
    res = [([], "not run")] * len(scripts)
    pat = Patience()

    def chunk(ids):
        todo = list(ids)
        while todo and not pat.gone:
            text = "".join("mark %d\n%s\n" % (i, scripts[i]) for i in todo)
            ev, status = run_script(driver, text, timeout)
            cur, got = None, {}
            for e in ev:
                if e["ev"] == "mark":
                    cur = e["h"]
                    got[cur] = []
                elif e["ev"] != "end":
                    got[cur].append(e)
            if status is None:
                for i in todo:
                    res[i] = (got[i], None)
                return
            # the last started history is the one that died
            if not status.startswith("A64"):
                pat.saw(-999 if status.startswith("did not finish") else 1)
            if cur is None:
                raise CheckError("driver died before the first history: %s" % status)
            for i in todo:
                if i == cur:
                    res[i] = (got[i], status)
                    break
                res[i] = (got[i], None)
            todo = todo[todo.index(cur) + 1:]
    n = len(scripts)
    step = max(1, min(200, (n + NCPU - 1) // NCPU))
    with ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(chunk, [range(i, min(n, i + step)) for i in range(0, n, step)]))
    return res


def tlc(module, cfg=None, env=None, workers=NCPU, timeout=800, args=(), mem="10g"):
    """Run TLC; returns (stdout, returncode, stats)."""
    meta = tempfile.mkdtemp(prefix="lcetlc")
    try:
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss64m", "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
               "-config", cfg or module + ".cfg", "-noGenerateSpecTE"] + list(args) + [module + ".tla"]
        try:
            p = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            raise CheckError("TLC timeout on %s" % module)
        out = p.stdout
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        st = dict(generated=int(m[-1][0]) if m else 0, distinct=int(m[-1][1]) if m else 0)
        return out, p.returncode, st
    finally:
        shutil.rmtree(meta, ignore_errors=True)


MODELS = []  # (module, cfg, stats) of the models checked in this run


def model(module, cfg=None, timeout=600, workers=NCPU, args=(), expect_violation=False):
    """Check a design model exhaustively; its failure is a machinery error."""
    for m in MODELS:
        if m[0] == module and m[1] == (cfg or module):
            return m[3], 0, m[2]
    out, rc, st = tlc(module, cfg=(cfg or module) + ".cfg", timeout=timeout, workers=workers, args=args)
    if expect_violation:
        if "is violated" not in out and "is equal to FALSE" not in out:
            raise CheckError("model %s/%s: expected a violation (the check would be vacuous)" % (module, cfg))
    elif rc != 0 or "Model checking completed. No error" not in out:
        raise CheckError("model %s failed (rc %d):\n%s" % (module, rc, out[out.find("Error:"):][:2500]))
    MODELS.append((module, cfg or module, st, out))
    return out, rc, st


# what TLC prints when a recorded history has no meaning in the specification
EVAL_ERR = re.compile("Attempted to|overflow|Overflow|evaluating the expression|was not a|CHOOSE x \\\\in S|index out of|outside its domain|In evaluation")


def tlc_decide(module, histories, env=None, left=None):
    """As tlc_trace; a history the specification gives no meaning is not accepted
    (once a few are found, neither is the undecided rest)."""
    left = left or [40]
    left[0] -= 1
    try:
        return tlc_trace(module, histories, env=env)
    except EvalError:
        none = set(), {}, dict(generated=0, distinct=0)
        if len(histories) == 1 or left[0] < 0:
            return none
        m = len(histories) // 2
        a, _, s1 = tlc_decide(module, histories[:m], env, left)
        b, _, s2 = tlc_decide(module, histories[m:], env, left) if left[0] > 0 else none
        return a | {m + i for i in b}, {}, {k: s1[k] + s2[k] for k in s1}


def tlc_explain(module, histories, env=None):
    """Where and why each (rejected) history is stuck."""
    try:
        return tlc_trace(module, histories, diag=True, env=env)[1]
    except EvalError as e:
        if len(histories) == 1:
            return {0: (0, "the specification gives it no meaning: " + str(e)[:1500])}
        r = {}
        for i, h in enumerate(histories):
            r.update({i: v for v in tlc_explain(module, [h], env).values()})
        return r


def tlc_trace(module, histories, diag=False, env=None, timeout=800, workers=NCPU):
    """Check each history; returns (set of accepted indices, stuck dict, stats)."""
    if not histories:
        return set(), {}, dict(generated=0, distinct=0)
    f = tempfile.NamedTemporaryFile("w", suffix=".ndjson", delete=False)
    try:
        for hst in histories:
            f.write(json.dumps(hst, separators=(",", ":")) + "\n")
        f.close()
        e = dict(env or {})
        e["LCE_TRACE"] = f.name
        e["LCE_DIAG"] = "1" if diag else "0"
        out, rc, st = tlc(module, env=e, timeout=timeout, workers=workers)
        if rc != 0 or "Model checking completed. No error" not in out:
            text = out[out.find("Error:"):][:2500]
            kind = EvalError if EVAL_ERR.search(out) else CheckError
            raise kind("TLC failed on %s (rc %d):\n%s" % (module, rc, text))
        acc = set(int(x) - 1 for x in re.findall(r'<<"ACCEPT", (\d+)>>', out))
        stuck = {}
        for m in re.finditer(r'<<\s*"STUCK",\s*(\d+),\s*(\d+),\s*"(.*?)"\s*>>', out, re.S):
            stuck[int(m.group(1)) - 1] = (int(m.group(2)), m.group(3).replace('\\"', '"'))
        return acc, stuck, st
    finally:
        os.unlink(f.name)


def write_evidence(pid, level, coverage, assumptions=(), violations=0):
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(dict(property=pid, tier=TIER, seed=SEED, level=level, coverage=coverage,
                       assumptions=list(assumptions), wall_s=round(time.time() - T0, 2), violations=violations), f, indent=1)


def write_replay(pid, obj):
    d = os.path.join(EVID, "replay")
    os.makedirs(d, exist_ok=True)
    s = json.dumps(obj, indent=1)
    p = os.path.join(d, "%s-%s.json" % (pid, hashlib.sha256(s.encode()).hexdigest()[:10]))
    with open(p, "w") as f:
        f.write(s)
    return p
