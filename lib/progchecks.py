"""C34: the programs that ship with the engine (spec/ProgramsTrace)."""
import json, os, random, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import netgen, vlib
from vlib import log

CHECKS = {}
ASSUME = ["The benchmark program, the minimal example, the Java resolver and the kernels are compiled and run unmodified, against /verif/shim's benchmark base class, interpreter and text model format instead of TensorFlow Lite's.",
          "TLC, gcc and the host CPU are trusted."]
PROGS = {
    "benchmark": ["tflite/benchmark/lce_benchmark_main.cc", "tflite/benchmark/lce_benchmark_tflite_model.cc"],
    "minimal": ["../examples/lce_minimal.cc"],
    "jni": ["tflite/java/lce_ops_jni.cc"],
}


def build():
    shim = os.path.join(vlib.VERIF, "shim", "include")
    lce = os.path.join(vlib.REPO, "larq_compute_engine")
    drv = os.path.join(vlib.VERIF, "drivers")
    flags = list(vlib.KFLAGS) + ["-I" + shim, "-I" + vlib.REPO]
    mine = [os.path.join(drv, "prog_edges.cc"), os.path.join(drv, "prog_jni.cc")]
    key = vlib.tree_hash([os.path.join(lce, "core"), os.path.join(lce, "tflite"), os.path.join(vlib.REPO, "examples"), shim] + mine, " ".join(flags))

    def builder(dst):
        kernels = [os.path.join(lce, "tflite/kernels", f) for f in ("bconv2d.cc", "bmaxpool.cc", "quantization.cc")]
        own = {p: [os.path.normpath(os.path.join(lce, f)) for f in fs] for p, fs in PROGS.items()}
        own["jni"].append(mine[1])
        srcs = kernels + [mine[0]] + sum(own.values(), [])
        obj = lambda s: os.path.join(dst, os.path.basename(s) + ".o")
        vlib.parallel_compile([["g++"] + flags + ["-c", s, "-o", obj(s)] for s in srcs])
        vlib.parallel_compile([["g++"] + [obj(s) for s in kernels + [mine[0]] + own[p]] + ["-lpthread", "-o", os.path.join(dst, p)] for p in PROGS])
    return vlib.locked_build("programs", key, builder)


def case(rng):
    c = netgen.case(rng)
    while not c["net"]["outs"]:
        c = netgen.case(rng)
    prog = rng.choice(["benchmark"] * 6 + ["jni", "minimal"])
    args = []      # [flag, value] or [word]; "MODEL" stands for the model's path
    if prog == "benchmark":
        for k in ("use_reference_bconv", "use_indirect_bgemm"):
            if rng.random() < 0.6:
                args.append([k, rng.choice(["true", "true", "1", "false", "0"])])
        if rng.random() < 0.4:
            args.append(["num_threads", str(rng.choice([1, 2, 4]))])
        if rng.random() < 0.5:
            args.append(["verbose", rng.choice(["true", "false"])])
        if rng.random() < 0.5:
            args.append(["num_runs", str(rng.choice([1, 2, 3]))])
        if rng.random() < 0.1:
            args.append([rng.choice(["use_reference_bconv", "use_indirect_bgemm", "verbose"]), rng.choice(["yes", "2", ""])])
        if rng.random() < 0.1:
            args.append([rng.choice(["--use_reference_bconv", "--use_indirect_bgemm"])])
        if rng.random() < 0.2:
            args.append(rng.choice([["use_reference_bconvs", "true"], ["use_reference", "true"], ["indirect_bgemm", "true"], ["words"]]))
        if rng.random() < 0.95:
            args.append(["graph", "MODEL"])
        # each flag at most once
        seen = set()
        args = [a for a in args if len(a) == 1 or not (a[0] in seen or seen.add(a[0]))]
        rng.shuffle(args)
    else:
        args = [["MODEL"]]
        if prog == "minimal" and rng.random() < 0.1:
            args = rng.choice([[], [["MODEL"], ["MODEL"]]])
    return dict(kind="program", prog=prog, args=args, there=rng.random() < 0.96, model=c["model"], net=c["net"], feed=feed(c))


def feed(c):
    """One list of tensors per sample of the first call."""
    a = c["calls"][0]["arrays"]
    n = a[0]["s"][0]
    return [[x["d"][i * (len(x["d"]) // n):(i + 1) * (len(x["d"]) // n)] for x in a] for i in range(n)]


def serialize(m):
    import importlib.util
    src = open(os.path.join(vlib.VERIF, "drivers", "py_predict.py")).read()
    a, b = src.index("def serialize(m):"), src.index("def mkarray")
    g = {}
    exec(src[a:b], g)
    return g["serialize"](m)


def run(cases):
    dst = build()
    work = tempfile.mkdtemp(prefix="progs")

    pat = vlib.Patience()

    def one(k):
        c = cases[k]
        if pat.gone:
            vlib.not_run(c)
            return dict(rc=-98, log=None)
        d = os.path.join(work, str(k))
        os.makedirs(d)
        model = os.path.join(d, "model.tflite")
        if c["there"]:
            open(model, "wb").write(serialize(c["model"]))
        open(os.path.join(d, "feed"), "w").write("\n".join(" ".join(s) for s in c["feed"]) + "\n")
        word = lambda x: x.replace("MODEL", model)
        argv = [word(a[0]) if len(a) == 1 else "--%s=%s" % (a[0], word(a[1])) for a in c["args"]]
        env = dict(os.environ, LCE_FEED=os.path.join(d, "feed"), LCE_LOG=os.path.join(d, "log"))
        try:
            rc = subprocess.run([os.path.join(dst, c["prog"])] + argv, env=env, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode
        except subprocess.TimeoutExpired:
            rc = -99
            pat.saw(-999)
        r = dict(rc=rc, log=[json.loads(x) for x in open(env["LCE_LOG"])] if os.path.exists(env["LCE_LOG"]) else None)
        shutil.rmtree(d, ignore_errors=True)
        return r
    try:
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(one, range(len(cases))))
    finally:
        shutil.rmtree(work, ignore_errors=True)


def history(c, r):
    import opgen
    net = dict(nodes=[{k: v for k, v in n.items() if k != "_case"} for n in c["net"]["nodes"]], ins=c["net"]["ins"], outs=c["net"]["outs"])
    steps, k = [], 0
    for ev in r["log"] or []:
        if ev["e"] == "param":
            steps.append(dict(e="param", name=ev["name"], value=ev["value"]))
        elif ev["e"] == "build":
            steps.append(dict(e="build", threads=ev["threads"]))
        elif ev["e"] == "begin":
            steps.append(dict(e="begin", x=[netgen.tok(h) for h in ev["x"]], fed=[netgen.tok(h) for h in c["feed"][k % len(c["feed"])]]))
            k += 1
        elif ev["e"] == "node":
            n = c["net"]["nodes"][ev["k"]]
            lce = n["_case"] is not None
            ns = len(n["src"])
            steps.append(dict(e="node", k=ev["k"] + 1, ok=ev["ok"], guards=ev["guards"], x=[netgen.tok(h) for h in ev["x"][:ns]], y=[netgen.tok(h) for h in ev["y"]],
                              xv=netgen.dec_in(n["cfg"], ev["x"][0]) if lce else [], yv=opgen.dec_out(n["_case"], ev["y"][0]) if lce else []))
        elif ev["e"] == "end":
            steps.append(dict(e="end", y=[netgen.tok(h) for h in ev["y"]]))
    if r["log"] is None:
        steps.append(dict(e="died"))
    steps.append(dict(e="exit", code=r["rc"]))
    return dict(prog=c["prog"], args=c["args"], there=c["there"], net=net, tensors=len(c["model"]["tensors"]), steps=steps)


def C34():
    import runner
    vlib.model("ProgramsMC")
    build()
    log("programs built; model checked")
    rng = random.Random("C34-%d" % vlib.SEED)
    n = runner.tier(1500, 20000)
    agg = dict(generated=0, distinct=0, rejected=0)
    viols, nh, samples, per = [], 0, [], {}
    ex = lambda cs: [history(c, r) for c, r in zip(cs, run(cs))]
    while nh < n and not viols:
        cs = [case(rng) for _ in range(min(3000, n - nh))]
        H = ex(cs)
        for h in H:
            k = "%s exit %s" % (h["prog"], h["steps"][-1]["code"])
            per[k] = per.get(k, 0) + 1
        v, st = runner.judge_histories("C34", "ProgramsTrace", cs, H, lambda idx: ex([cs[i] for i in idx]))
        for x in agg:
            agg[x] += st[x]
        nh += len(cs)
        viols += v
        samples = samples or [dict(prog=c["prog"], args=c["args"]) for c in cs[:3]]
        log("%d runs, %d rejected" % (nh, agg["rejected"]))
    return viols, agg, nh, samples, dict(runs=per)


C34.rerun = lambda c: history(c, run([c])[0])
C34.assume = ASSUME
CHECKS["C34"] = C34
