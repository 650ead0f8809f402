"""Checks of the Python layer: cases are executed by drivers/py_driver.py in
the repository's own Python environment and decided by TLC."""
import json, os, random, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import vlib, pyext
from vlib import CheckError, log

ASSUME = ["Runs /repo's Python modules in /opt/lce/venv (TensorFlow 2.16 and its own TFLite schema); the compiled extension modules are replaced by stand-ins.",
          "TLC, CPython and the host CPU are trusted."]
PY = "/opt/lce/venv/bin/python"
CHECKS = {}


def run_py(cases, timeout=100, env=None):
    """Results of all cases; a case that kills the interpreter gives None."""
    res = [None] * len(cases)
    extra = env or {}
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", TF_USE_LEGACY_KERAS="1", TF_CPP_MIN_LOG_LEVEL="3",
               CUDA_VISIBLE_DEVICES="-1", TF_ENABLE_ONEDNN_OPTS="0", OMP_NUM_THREADS="1")
    env.pop("PYTHONPATH", None)
    env.update(extra)

    pat = vlib.Patience()

    def chunk(ids):
        todo = list(ids)
        while todo:
            if pat.gone:
                for k in todo:
                    vlib.not_run(cases[k])
                return
            with tempfile.TemporaryDirectory(prefix="lcev") as d:
                i, o = os.path.join(d, "i"), os.path.join(d, "o")
                with open(i, "w") as f:
                    for k in todo:
                        f.write(json.dumps(cases[k]) + "\n")
                env2 = dict(env, TMPDIR=d)
                rc, err = vlib.watched([PY, os.path.join(vlib.VERIF, "drivers", "py_driver.py"), vlib.REPO, i, o], o, timeout, env=env2, cwd=d)
                lines = [json.loads(x) for x in open(o).read().splitlines()] if os.path.exists(o) else []
                if lines and lines[-1] == "end":
                    for k, r in zip(todo, lines):
                        res[k] = r
                    return
                if not os.path.exists(o) or rc == 3:
                    raise CheckError("python driver did not start: " + err[-3000:])
                for k, r in zip(todo, lines):
                    res[k] = r
                if rc == 1:      # an exception of the driver itself
                    raise CheckError("python driver: " + err[-3000:])
                pat.saw(rc)
                todo = todo[len(lines) + 1:]
    n = len(cases)
    step = max(1, (n + vlib.NCPU - 1) // vlib.NCPU)
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        list(ex.map(chunk, [range(i, min(n, i + step)) for i in range(0, n, step)]))
    return res


# ---- C16, C17: model io ----------------------------------------------------
F, I32T, I8T = 0, 2, 9


class G:
    """Random subgraphs; tensors are renumbered at the end."""

    def __init__(self, rng, name, codes, buffers):
        self.rng, self.name, self.codes, self.buffers = rng, name, codes, buffers
        self.T, self.O, self.I, self.U = [], [], [], []

    def tensor(self, ty, data=None, q=None):
        r = self.rng
        b = 0
        if data is not None:
            self.buffers.append(data)
            b = len(self.buffers) - 1
        elif r.random() < 0.3:
            self.buffers.append("")      # converters give every tensor its own buffer
            b = len(self.buffers) - 1
        if q is None and ty in (I8T, 3):
            q = [r.choice([0.5, 0.25, 1.0, 0.0078125]), r.choice([0, -128, 3, 127])]
        self.T.append(dict(n="%s_%s%d" % (self.name, r.choice(["t", "x", "conv/"]), len(self.T)), t=ty, s=[r.choice([1, 2, 8]) for _ in range(r.choice([1, 2, 4]))],
                           b=b, q=q))
        return len(self.T) - 1

    def op(self, code, i, o, x=(), opt=None, act=None):
        self.O.append(dict(c=self.codes(code), i=list(i), o=list(o), x=list(x), opt=opt, act=act))
        return o[0]

    def of(self, types):
        c = [k for k in self.live if self.T[k]["t"] in types]
        return self.rng.choice(c) if c else None

    def shuffle(self):
        p = list(range(len(self.T)))
        z = self.rng.random()
        if z < 0.6:
            self.rng.shuffle(p)
        elif z < 0.8:        # the inputs/outputs last: the fast path of the removal
            io = set(self.I + self.U)
            p = [0] * len(self.T)
            for new, old in enumerate([t for t in range(len(self.T)) if t not in io] + [t for t in range(len(self.T)) if t in io]):
                p[old] = new
        T = [None] * len(self.T)
        for old, new in enumerate(p):
            T[new] = self.T[old]
        m = lambda v: [p[t] if t >= 0 else -1 for t in v]
        return dict(name=self.name, T=T, I=m(self.I), U=m(self.U),
                    O=[dict(o, i=m(o["i"]), o=m(o["o"]), x=m(o["x"])) for o in self.O]), p


def rgraph(rng, name, codes, buffers, style):
    g = G(rng, name, codes, buffers)
    g.live = []
    bad = rng.random() < 0.08
    for _ in range(rng.choice([1, 1, 2, 3])):
        ty = rng.choice([F, F, F, F, I8T])
        t = g.tensor(ty)
        g.I.append(t)
        g.live.append(t)
        if ty == F and rng.random() < 0.85:
            q = g.tensor(3 if bad and rng.random() < 0.5 else I8T)
            g.live.append(g.op("QUANTIZE", [t], [q]))
            if rng.random() < 0.06:        # the same input quantized twice
                g.live.append(g.op("QUANTIZE", [t], [g.tensor(I8T)]))
            if rng.random() < 0.85:
                g.live.remove(t)           # nothing else reads the float input
    for _ in range(rng.choice([0, 1, 2, 3, 4])):
        z = rng.random()
        if z < 0.25 and g.of([F, I8T]) is not None:
            a = g.of([F, I8T])
            g.live.append(g.op("ADD", [a, a if rng.random() < 0.2 else g.tensor(g.T[a]["t"], "0102")], [g.tensor(g.T[a]["t"])], act=rng.choice([0, 1, 3])))
        elif z < 0.45 and g.of([F, I8T]) is not None:
            g.live.append(g.op("LceQuantize", [g.of([F, I8T])], [g.tensor(I32T)], opt=""))
        elif z < 0.65 and g.of([I32T]) is not None:
            w = g.tensor(I32T, "a1b2c3d4")
            mb = [g.tensor(F, "0000803f"), g.tensor(F, "00000000"), -1] if rng.random() < 0.6 else [-1, -1, g.tensor(I32T, "05000000")]
            g.live.append(g.op("LceBconv2d", [g.of([I32T]), w] + mb, [g.tensor(I32T if mb[0] < 0 else rng.choice([F, I8T]))], opt="0a0b0c%02x" % rng.randrange(256)))
        elif z < 0.75 and g.of([I8T]) is not None:
            g.live.append(g.op("DEQUANTIZE", [g.of([I8T])], [g.tensor(F)]))
        elif z < 0.83 and g.of([F]) is not None:
            g.live.append(g.op("QUANTIZE", [g.of([F])], [g.tensor(I8T)]))
        elif z < 0.9 and g.of([I8T, F]) is not None:
            a = g.of([I8T, F])
            o = [g.tensor(g.T[a]["t"]) for _ in range(2)]
            g.op("SPLIT", [g.tensor(I32T, "01000000"), a], o)
            g.live += o
        elif g.of([I8T]) is not None:
            g.live.append(g.op("UNIDIRECTIONAL_SEQUENCE_LSTM", [g.of([I8T]), -1, g.tensor(I8T, "07")], [g.tensor(I8T)],
                               x=[g.tensor(rng.choice([7, I8T])) for _ in range(rng.choice([0, 1, 5]))]))
    for _ in range(rng.choice([1, 1, 2, 3])):
        z = rng.random()
        a = g.of([I8T])
        b = g.of([I32T])
        if style == "strip" and z < 0.6 and b is not None:
            t = g.tensor(rng.choice([F, I8T] if not (bad and rng.random() < 0.5) else [6, I32T]))
            g.op("LceDequantize", [b], [t], opt="")
            if g.T[t]["t"] == I8T and rng.random() < 0.6:
                g.live.append(t) if rng.random() < 0.15 else None
                t = g.op("DEQUANTIZE", [t], [g.tensor(F)])
            g.U.append(t)
            if rng.random() < 0.1:
                g.live.append(t)
        elif z < 0.85 and a is not None:
            t = g.op("DEQUANTIZE", [a], [g.tensor(1 if bad and rng.random() < 0.5 else F)])
            g.U.append(t)
            if rng.random() < 0.1:
                g.live.append(t)
        else:
            g.U.append(rng.choice(g.live))
        if rng.random() < 0.06:
            g.U.append(rng.choice(g.U))
    if rng.random() < 0.1 and g.of([F]) is not None:  # a late reader
        a = g.of([F])
        g.U.append(g.op("ADD", [a, a], [g.tensor(F)], act=0))
    return g.shuffle()[0]


def rmodel(rng, style):
    names, order = [], ["QUANTIZE", "DEQUANTIZE", "LceDequantize", "LceQuantize", "LceBconv2d", "ADD", "SPLIT", "UNIDIRECTIONAL_SEQUENCE_LSTM"]
    if rng.random() < 0.3:
        names = rng.sample(order, rng.randrange(len(order)))

    twice = rng.random() < 0.25      # one code per version of an operator

    def code(n):
        if twice and n in names and rng.random() < 0.5:
            n = n + "'"
        if n not in names:
            names.append(n)
        return names.index(n)
    buffers = [""]
    subs = [rgraph(rng, "main", code, buffers, style)]
    extra = rng.choice([0, 0, 0, 1, 2])
    for i in range(extra):
        subs.append(rgraph(rng, "sub%d" % i, code, buffers, style))
    sigs = []
    if rng.random() < 0.8:
        for i in rng.sample(range(len(subs)), len(subs)):
            if i == 0 or rng.random() < 0.8:
                s = subs[i]
                ins = [["in%d" % j, t] for j, t in enumerate(s["I"])]
                outs = [["out%d" % j, t] for j, t in enumerate(s["U"])]
                rng.shuffle(ins)
                rng.shuffle(outs)
                sigs.append(dict(k="sig%d" % i, sub=i, inputs=ins, outputs=outs))
                if rng.random() < 0.15:
                    sigs.append(dict(sigs[-1], k="again%d" % i))
    codes = [dict(b="CUSTOM", c=n.strip("'"), v=1 + n.count("'")) if n.startswith("Lce") else dict(b=n.strip("'"), v=rng.choice([1, 2]) + 2 * n.count("'")) for n in names]
    return dict(buffers=buffers, codes=codes, subs=subs, sigs=sigs, desc=rng.choice(["MLIR Converted.", "x"]))


def io_cases(rng, n, call):
    out = []
    for _ in range(n):
        c = dict(kind="modelio", call=call, g=rmodel(rng, call), it="", ot="")
        if call == "modify":
            c["it"], c["ot"] = rng.choice(["float32", "int8", "int8"]), rng.choice(["float32", "int8", "int8"])
            c["ba"] = rng.random() < 0.2
        out.append(c)
    return out


def io_history(c, r):
    if r is None:
        r = dict(before=dict(subs=[], sigs=[], codes=[], rest=""), after=dict(subs=[], sigs=[], codes=[], rest=""), err="died")
    return dict(req=dict(call=c["call"], it=c["it"], ot=c["ot"]), before=r["before"], after=r["after"], err=r["err"])


def io_check(pid, call, nq, nt):
    def run():
        import runner
        vlib.model("ModelIOMC")
        if vlib.TIER == "thorough":
            vlib.model("ModelIOMC", "ModelIOMC3", timeout=3000)
        log("models checked")
        rng = random.Random("%s-%d" % (pid, vlib.SEED))
        n = runner.tier(nq, nt)
        agg = dict(generated=0, distinct=0, rejected=0)
        viols, nh, refused = [], 0, 0
        samples = []
        ex = lambda cs: [io_history(c, r) for c, r in zip(cs, run_py(cs))]
        while nh < n:
            cases = io_cases(rng, min(6000, n - nh), call)
            H = ex(cases)
            refused += sum(h["err"] != "" for h in H)
            v, st = runner.judge_histories(pid, "ModelIOTrace", cases, H, lambda idx: ex([cases[i] for i in idx]))
            for x in agg:
                agg[x] += st[x]
            nh += len(cases)
            viols += v
            samples = samples or [dict(call=c["call"], it=c["it"], ot=c["ot"], tensors=[len(s["T"]) for s in c["g"]["subs"]], ops=[len(s["O"]) for s in c["g"]["subs"]]) for c in cases[:3]]
            log("%d histories, %d rejected" % (nh, agg["rejected"]))
            if v:
                break
        return viols, agg, nh, samples, dict(refused=refused)
    run.rerun = lambda c: io_history(c, run_py([c])[0])
    run.assume = ASSUME
    return run


CHECKS["C16"] = io_check("C16", "modify", 4000, 60000)
CHECKS["C17"] = io_check("C17", "strip", 4000, 60000)


# ---- C18, C19: interpreter sessions ------------------------------------------
TY = {1: "<f4", 2: "<i4", 3: "|u1", 4: "<i8", 6: "|b1", 7: "<i2", 9: "|i1"}
ODD = {10: "<f2", 11: "<f8", 8: "<c8", 13: "<u8", 16: "<u4", 17: "<u2"}
SIZE = {t: int(n[2:]) for t, n in list(TY.items()) + list(ODD.items())}


def f32hex(x):
    import struct
    return struct.unpack("<f", struct.pack("<f", x))[0].hex()


def rbytes(rng, ty, n):
    if ty in ("|b1",):
        return bytes(rng.randrange(2) for _ in range(n))
    return rng.randbytes(n * int(ty[2:]))


def rquant(rng):
    z = rng.random()
    sc = lambda: rng.choice([0.5, 0.25, 0.0078125, 0.1, 3.0, 1.0, 1e-7])
    if z < 0.4:
        return None
    if z < 0.75:
        return dict(scales=[sc()], zps=[rng.choice([0, -128, 127, 5, 255, -1])])
    n = rng.choice([2, 3, 4])
    zp = rng.choice([0, 0, 7])
    zps = [zp] * rng.choice([1, n])
    if rng.random() < 0.15 and len(zps) > 1:
        zps[-1] += 1
    return dict(scales=[sc() for _ in range(n)], zps=zps)


def imodel(rng, odd=False):
    def t(side, i):
        r = rng.choice([1, 2, 2, 3, 4])
        s = [rng.choice([1, 2, 3, 5]) for _ in range(r)]
        if side == "in" or rng.random() < 0.8:
            s[0] = 1
        ty = rng.choice(list(TY)) if not odd or rng.random() < 0.9 else rng.choice(list(ODD))
        return dict(type=ty, s=s, n="%s%d" % (side, i), q=rquant(rng), scale=rng.choice([0.0, 0.5]), zp=rng.choice([0, 3]))
    ni, no = rng.choice([1, 1, 1, 2, 3]), rng.choice([1, 1, 1, 2, 3])
    T = [t("in", i) for i in range(ni)] + [t("out", i) for i in range(no)]
    ins, outs = list(range(ni)), list(range(ni, ni + no))
    for i in outs:      # every unknown type is an input: outputs are converted back after the run
        if T[i]["type"] in ODD:
            T[i]["type"] = 1
    if rng.random() < 0.3:      # tensor numbers in another order
        p = list(range(len(T)))
        rng.shuffle(p)
        T2 = [None] * len(T)
        for a, b in enumerate(p):
            T2[b] = T[a]
        T, ins, outs = T2, [p[i] for i in ins], [p[i] for i in outs]
    nodes = [dict(op="TEST", custom=False, **{"in": ins, "out": outs})]
    if rng.random() < 0.08:
        nodes[0]["op"] = "FAIL:%d" % rng.randrange(1, 6)
    outs = list(outs)
    if rng.random() < 0.05 and T[ins[0]]["type"] in TY:
        outs.append(ins[0])     # an input that is also an output
    return dict(tensors=T, nodes=nodes, inputs=ins, outputs=outs)


def fit_array(rng, t, n=None, misfit=False):
    """Values for tensor t: one sample (without the batch axis) or n of them."""
    ty, s = TY.get(t["type"], ODD.get(t["type"])), t["s"][1:]
    if misfit:
        z = rng.randrange(8)
        if z == 7 and s and s[-1] == 1:     # same bytes, lower rank
            s = s[:-1]
        elif z == 0:
            ty = rng.choice([x for x in list(TY.values()) + ["<f8", "<f2"] if x != ty])
        elif z == 1 and int(ty[2:]) > 1:
            ty = ">" + ty[1:]
        elif z == 2:
            s = s + [1]
        elif z == 3 and len(s) > 1 and s[0] != s[-1]:
            s = s[::-1]
        elif z == 4 and s:
            s = s[:-1] + [s[-1] + rng.choice([1, -1] if s[-1] > 1 else [1])]
        elif z == 5:
            s = [1] + s
        else:
            ty = "<u4" if ty == "<i4" else "<i4"
    full = ([n] if n is not None else []) + s
    k = 1
    for x in full:
        k *= x
    return dict(t=ty, s=full, d=rbytes(rng, ty, k).hex(), layout=rng.choice(["C", "C", "F", "strided", "neg", "ro", "off"]))


def icall(rng, m, misfits):
    ins = [m["tensors"][i] for i in m["inputs"]]
    n = rng.choice([1, 1, 2, 3, 4, 6])
    c = dict()
    if rng.random() < 0.1:
        c["verbose"] = rng.choice([0, 1])
    bad = misfits and rng.random() < 0.5
    z = rng.random()
    if misfits and z < 0.06:
        return dict(c, form="other_" + rng.choice(["tuple", "none", "dict", "int", "str"]))
    if len(ins) == 1 and z < 0.35:
        return dict(c, form="array", arrays=[fit_array(rng, ins[0], n, bad)])
    if z < 0.6:
        k = rng.randrange(len(ins))
        a = [fit_array(rng, t, n, bad and j == k) for j, t in enumerate(ins)]
        if bad and rng.random() < 0.3:
            a = a[:-1] if len(a) > 1 and rng.random() < 0.5 else a + [a[0]]
        return dict(c, form="list", arrays=a)
    if bad:
        hit = rng.randrange(n)
    items = []
    for i in range(n):
        k = rng.randrange(len(ins))
        it = [fit_array(rng, t, None, bad and i == hit and j == k) for j, t in enumerate(ins)]
        if bad and i == hit and rng.random() < 0.3:
            it = it[:-1] if len(it) > 1 and rng.random() < 0.5 else it + [it[0]]
        items.append(it)
    form = rng.choice(["iter_array", "gen_list", "gen_tuple", "iter_list"] if len(ins) == 1 and all(len(i) == 1 for i in items) else ["gen_list", "gen_tuple", "iter_list"])
    return dict(c, form=form, items=items)


def iopts(rng):
    full = [rng.choice([1, 1, 2, 3, 4, 8, 16]), rng.random() < 0.3, rng.random() < 0.3, rng.random() < 0.3]
    names = ["num_threads", "use_reference_bconv", "use_indirect_bgemm", "use_xnnpack"]
    k = rng.randrange(5)
    kw = {names[i]: full[i] for i in range(k, 4) if rng.random() < 0.6}
    eff = dict(zip(names, [1, False, False, False]))
    eff.update(zip(names[:k], full[:k]))
    eff.update(kw)
    return dict(args=full[:k], kw=kw, threads=eff["num_threads"], xnnpack=eff["use_xnnpack"], ref=eff["use_reference_bconv"], ind=eff["use_indirect_bgemm"])


def p_history(c, r):
    m = c["model"]

    def desc(i):
        t = m["tensors"][i]
        q = t["q"]
        return dict(t=TY.get(t["type"], "unsupported"), s=t["s"], known=t["type"] in TY,
                    scale="None" if not q else ",".join(f32hex(x) for x in q["scales"]),
                    zp="None" if not q else "error" if len(set(q["zps"])) > 1 else str(q["zps"][0]))
    io = dict(I=[desc(i) for i in m["inputs"]], U=[desc(i) for i in m["outputs"]])
    steps = []
    if r is None:
        r = dict(built=False, err="died", build={}, meta={}, calls=[])
    b = r["build"]
    steps.append(dict(e="built", ok=r["built"], threads=b.get("threads", -1), delegates=b.get("delegates", False), err=r["err"]))
    if c.get("meta") and r["built"]:
        g = r["meta"]
        side = lambda s: dict(types=g[s + "_types"], shapes=g[s + "_shapes"], scales=g[s + "_scales"], zps=g[s + "_zero_points"])
        steps.append(dict(e="meta", I=side("input"), U=side("output")))
    for call in r["calls"]:
        if not call["form"].startswith("other"):
            steps.append(dict(e="call", samples=call["samples"]))
        begin = None
        for ev in call["log"] + [dict(e="stop")]:
            if ev["e"] in ("begin", "stop"):
                if begin is not None:
                    steps.append(dict(e="fail", x=begin["x"], model=begin["model"]))
                begin = ev
            elif ev["e"] == "end":
                steps.append(dict(e="run", x=begin["x"], y=ev["y"], model=begin["model"]))
                begin = None
        if call["form"].startswith("other"):
            steps.append(dict(e="bad", err=call["err"]))
        elif call["err"]:
            steps.append(dict(e="raise", err=call["err"]))
        else:
            steps.append(dict(e="result", kind=call["kind"], res=call["res"], kept=call["kept"]))
    return dict(io=io, opts=dict(threads=c["opts"]["threads"], xnnpack=c["opts"]["xnnpack"]), steps=steps)


def p_cases(rng, n, misfits):
    out = []
    for _ in range(n):
        m = imodel(rng, odd=misfits)
        out.append(dict(kind="predict", model=m, opts=iopts(rng), meta=misfits, calls=[icall(rng, m, misfits) for _ in range(rng.choice([1, 2, 3]))]))
    return out


def session_check(pid, models, module, cases, history, nq, nt, describe):
    def run():
        import runner
        for mod in models:
            vlib.model(mod[0], mod[1], expect_violation=True) if isinstance(mod, tuple) else vlib.model(mod)
        ext = pyext.build()
        log("extension built; models checked")
        rng = random.Random("%s-%d" % (pid, vlib.SEED))
        n = runner.tier(nq, nt)
        agg = dict(generated=0, distinct=0, rejected=0)
        viols, nh, samples, steps = [], 0, [], 0
        ex = lambda cs: [history(c, r) for c, r in zip(cs, run_py(cs, env={"LCE_EXT": ext}))]
        while nh < n:
            cs = cases(rng, min(5000, n - nh))
            H = ex(cs)
            steps += sum(len(x["steps"]) for x in H)
            v, st = runner.judge_histories(pid, module, cs, H, lambda idx: ex([cs[i] for i in idx]))
            for x in agg:
                agg[x] += st[x]
            nh += len(cs)
            viols += v
            samples = samples or [describe(c) for c in cs[:3]]
            log("%d histories, %d rejected" % (nh, agg["rejected"]))
            if v:
                break
        return viols, agg, nh, samples, dict(events=steps)
    run.rerun = lambda c: history(c, run_py([c], env={"LCE_EXT": pyext.build()})[0])
    run.assume = ASSUME_EXT
    return run


ASSUME_EXT = ["/repo's extension module, Python classes and kernels are compiled and run unmodified, against /verif/shim's interpreter (memory, graph execution) and text model format instead of TensorFlow Lite's.",
              "TLC, gcc, CPython, numpy, pybind11 and the host CPU are trusted."]
io_brief = lambda c: dict(inputs=[[c["model"]["tensors"][i][k] for k in ("type", "s")] for i in c["model"]["inputs"]], calls=[[x["form"], len(x.get("items", x.get("arrays", [])))] for x in c["calls"]], opts=c["opts"])
CHECKS["C18"] = session_check("C18", ["PredictMC", ("PredictMC", "PredictAlias")], "PredictTrace", lambda r, n: p_cases(r, n, False), p_history, 2500, 40000, io_brief)
CHECKS["C19"] = session_check("C19", ["PredictMC"], "PredictTrace", lambda r, n: p_cases(r, n, True), p_history, 3000, 40000, io_brief)

# ---- C20: networks of LCE ops ------------------------------------------------
import netgen
CHECKS["C20"] = session_check("C20", ["PredictMC", "BinaryDot"], "NetworkTrace", lambda r, n: [netgen.case(r) for _ in range(n)], netgen.history, 1200, 20000, netgen.brief)
