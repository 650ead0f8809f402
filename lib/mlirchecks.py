"""Converter checks: random modules through the real passes; Converter.tla
decides every pass's result."""
import copy, random, re
import vlib, convchecks, convext, mlirbuild, mlirgen, mlirgraph
from vlib import log

CHECKS = {}
ASSUME = ["The passes are compiled unmodified from /repo against the installed MLIR 18; /verif/lib/mtblgen.py stands in for mlir-tblgen with the TensorFlow Lite and TensorFlow dialect definitions in /verif/mlirshim, and a stand-in lowers the few tf ops used to tfl.",
          "Real arithmetic is modelled exactly (dyadic values); rounding of floats in folded constants is outside the model.",
          "TLC, gcc, MLIR and the host CPU are trusted."]


def histories(exe, cases):
    if cases and "kind" in cases[0]:
        return convchecks.histories(convext.build(), cases)
    return [wide_history(c, r) if "wide" in c else mlirgraph.history(c, r) for c, r in zip(cases, mlirgraph.run(exe, cases))]


def module(case):
    return "ConvertTrace" if "kind" in case else "ThresholdTrace" if "wide" in case else "ConverterTrace"


def wide_history(case, res):
    """What ThresholdTrace is told about a convolution that got a bit-packed output."""
    k, act, co = (case["wide"][x] for x in ("k", "act", "co"))
    no = dict(k=k, act=act, fused=False, c=[])
    if not res["ok"] or not res["ok"][-1] or len(res["g"]) < 2:
        return no

    def conv(g):
        vals = {}
        n = len(g["args"])
        for o in g["ops"]:
            for _ in o["o"]:
                n += 1
                vals[n] = o
        c = [o for o in g["ops"] if o["n"] == "lq.Bconv2d"]
        return (c[0], vals) if len(c) == 1 and len(g["ops"]) < 9 else (None, None)

    def const(vals, i):
        v = vals.get(i, {}).get("a", {}).get("value")
        return v["v"] * (1 if len(v["v"]) != 1 else mlirgraph.size(v["t"]["d"])) if isinstance(v, dict) and "v" in v else None
    (c0, v0), (c1, v1) = conv(res["g"][0]), conv(res["g"][-1])
    if not c1 or c1["o"][0]["k"] != "i32" or any(o["n"] == "lq.Quantize" for o in res["g"][-1]["ops"]):
        return no
    w0, w1, thr = const(v0, c0["i"][1]), const(v1, c1["i"][1]), const(v1, c1["i"][4])
    m, b = const(v0, c0["i"][2]), const(v0, c0["i"][3])
    if not w1 or not thr or len(w1) != len(w0) or len(thr) != co:
        return no
    chans = []
    for j in range(co):
        a, z = w0[j * k:(j + 1) * k], w1[j * k:(j + 1) * k]
        sg = {(x[0] == "-") != (y[0] == "-") for x, y in zip(a, z)}
        if len(sg) != 1 or any(float.fromhex(y) == 0 for y in z):
            return no
        chans.append(dict(m=mlirgraph.fx(m[j], case["S"]), b=mlirgraph.fx(b[j], case["S"]), thr=thr[j], flip=sg.pop()))
    return dict(k=k, act=act, fused=True, c=chans)


# ---- known findings -------------------------------------------------------------
def same1(n, f, s, d):
    t = mlirgen.same_total(n, f, s, d)
    return t // 2, t - t // 2


def strided_one_padding(h):
    """The history with every one-padding that merely looks symmetric (and keeps
    SAME's output size) in front of a strided convolution replaced by SAME's own;
    None if there is no such padding."""
    h = copy.deepcopy(h)
    g = h["g"][0]
    where = [("arg", i) for i in range(len(g["args"]))]
    for k, o in enumerate(g["ops"]):
        where += [(k, j) for j in range(len(o["o"]))]
    typ = [g["args"][j] if k == "arg" else g["ops"][k]["o"][j] for k, j in where]
    changed = False
    for o in g["ops"]:
        if o["n"] != "tf.Conv2D" or o["a"].get("padding") != "VALID":
            continue
        k, _ = where[o["i"][0] - 1]
        if k == "arg" or g["ops"][k]["n"] != "tf.PadV2":
            continue
        pad = g["ops"][k]
        ck, _ = where[pad["i"][1] - 1]
        if ck == "arg" or "value" not in g["ops"][ck]["a"] or len(typ[pad["i"][0] - 1]["d"]) != 4:
            continue
        p = g["ops"][ck]["a"]["value"]["v"]
        xd, fd = typ[pad["i"][0] - 1]["d"], typ[o["i"][1] - 1]["d"]
        dil = o["a"].get("dilations", [1, 1, 1, 1])
        for ax in (1, 2):
            b, a = p[2 * ax], p[2 * ax + 1]
            s = o["a"]["strides"][ax]
            want = same1(xd[ax], fd[ax - 1], s, dil[ax])
            t = b + a
            if (b, a) != want and s > 1 and b == t // 2 and a == (t + 1) // 2 and o["o"][0]["d"][ax] == -(-xd[ax] // s):
                p[2 * ax], p[2 * ax + 1] = want
                pad["o"][0]["d"][ax] = xd[ax] + sum(want)
                changed = True
    return h if changed else None


def strided_witness():
    m = mlirgen.Mod()
    x = m.arg([1, 4, 1, 1], "i32")
    b = m.op("lq.Dequantize", [x], ((1, 4, 1, 2), mlirgen.F32))
    p = m.op("tf.PadV2", [b, m.const([4, 2], [0, 0, 1, 1, 0, 0, 0, 0], "i32"), m.const([], [1.0])], ((1, 6, 1, 2), mlirgen.F32))
    f = m.const([3, 1, 2, 1], [1.0, -1.0, -1.0, -1.0, 1.0, 1.0])
    y = m.op("tf.Conv2D", [p, f], ((1, 2, 1, 1), mlirgen.F32), padding="VALID", strides=[1, 2, 1, 1])
    m.ret([y])
    return dict(passes=["tfl-prepare-lce{target=arm}"], text=m.text, S=mlirgen.SC, xs=[[[1, 2, 0, 3]], [[3, 3, 1, 0]]])


KNOWN = {"strided-one-padding": strided_one_padding}
WITNESS = {"strided-one-padding": strided_witness}


def known_findings(pid):
    try:
        text = open(vlib.VERIF + "/KNOWN_FINDINGS").read()
    except OSError:
        return {}
    return {m.group(1): m.group(2) for m in re.finditer(r"^finding: property=%s key=(\S+) (.*)$" % pid, text, re.M)}


# ---- the checks ---------------------------------------------------------------------
def converter_check(pid, gens, models, deep_from=0):
    """gens: [(generator name, quick n, thorough n)]."""
    def check():
        import runner
        for m in models:
            vlib.model(*m[:2], expect_violation=True) if isinstance(m, tuple) else vlib.model(m)
        exe = mlirbuild.build()
        log("driver built; models checked")
        agg = dict(generated=0, distinct=0, rejected=0)
        viols, nh, samples, per = [], 0, [], {}
        ops, seen, listed = {}, set(), known_findings(pid)
        for name, nq, nt in gens:
            rng = random.Random("%s-%s-%d" % (pid, name, vlib.SEED))
            gen = getattr(mlirgen, "gen_" + name)
            n, done = runner.tier(nq, nt), 0
            while done < n and not viols:
                cases = [gen(rng, vlib.TIER == "thorough") for _ in range(min(1500, n - done))]
                done += len(cases)
                if done == len(cases):
                    cases = [WITNESS[k]() for k in listed] + cases
                H = histories(exe, cases)
                for h in H:
                    if "e" in h:
                        for e in h["e"]:
                            per["event " + e["e"]] = per.get("event " + e["e"], 0) + 1
                            for o in e["g"]["ops"] if "g" in e else []:
                                ops[o["n"]] = ops.get(o["n"], 0) + 1
                    if "g" not in h:
                        continue
                    for a, b in zip(h["g"], h["g"][1:]):
                        if a != b:
                            per["rewritten"] = per.get("rewritten", 0) + 1
                    for g in h["g"]:
                        for o in g["ops"]:
                            ops[o["n"]] = ops.get(o["n"], 0) + 1
                v, st = judge(pid, cases, H, exe, seen)
                for x in agg:
                    agg[x] += st[x]
                nh += len(H)
                per[name] = per.get(name, 0) + len(H)
                viols += v
                if len(samples) < 3:
                    samples.append(cases[len(cases) // 2]["text"][:3000])
                log("%s: %d histories, %d rejected" % (name, nh, agg["rejected"]))
        for k in listed:
            if k in seen:
                print("KNOWN-FINDING: property=%s %s" % (pid, listed[k]), flush=True)
        return viols, agg, nh, samples, dict(cases=per, ops=ops, known_findings=sorted(seen))
    check.rerun = lambda case: histories(mlirbuild.build(), [case])[0]
    check.assume = ASSUME
    return check


def judge(pid, cases, H, exe, seen):
    import runner
    listed = known_findings(pid)
    if not listed:
        return runner.judge_histories(pid, module(cases[0]), cases, H, lambda idx: histories(exe, [cases[i] for i in idx]))
    # histories that could be a listed finding are decided twice: as recorded, and altered
    acc, _, st = vlib.tlc_decide("ConverterTrace", H)
    bad = [i for i in range(len(H)) if i not in acc]
    alt = [(i, a) for i in bad for k in listed for a in [KNOWN[k](H[i])] if a is not None]
    ok, _, st2 = vlib.tlc_decide("ConverterTrace", [a for _, a in alt]) if alt else (set(), {}, dict(generated=0, distinct=0))
    known = {alt[j][0] for j in ok}
    for x in st:
        st[x] += st2[x]
    for j in ok:
        seen.add(next(k for k in listed if KNOWN[k](H[alt[j][0]]) == alt[j][1]))
    rest = [i for i in bad if i not in known]
    if not rest:
        return [], dict(rejected=0, **st)
    v, s3 = runner.judge_histories(pid, "ConverterTrace", [cases[i] for i in rest], [H[i] for i in rest],
                                   lambda idx: histories(exe, [cases[rest[i]] for i in idx]))
    for x in st:
        st[x] += s3[x]
    return v, dict(rejected=s3["rejected"], **st)


C21 = converter_check("C21", [("prepare", 700, 12000)], ["RewritesMC", ("RewritesMC", "RewritesLoose_sign")])
C22 = converter_check("C22", [("optimize", 1500, 40000)], ["RewritesMC"] + [("RewritesMC", "RewritesLoose_" + x) for x in ("act", "pool", "mulbias")])
C23 = converter_check("C23", [("threshold", 500, 20000), ("wide", 150, 3000)], ["RewritesMC", ("RewritesMC", "RewritesLoose_flip")])
C24 = converter_check("C24", [("bitpack", 1200, 30000)], [])
C25 = converter_check("C25", [("padding", 700, 20000)], ["RewritesMC", ("RewritesMC", "RewritesLoose_padding")])
C26 = converter_check("C26", [("quantize", 900, 25000)], [])
C27 = converter_check("C27", [("removal", 1200, 30000)], [])
C28 = converter_check("C28", [("detection", 900, 20000)], [])
C30 = converter_check("C30", [("pipeline", 300, 8000), ("convert", 700, 20000)], ["RewritesMC"])
C31 = converter_check("C31", [("request", 1400, 40000)], ["ConvertMC"])


# ---- legalized ops on the real kernels ------------------------------------------------
PADS, ACT = {0: "SAME", 1: "VALID"}, {0: "NONE", 1: "RELU", 2: "RELU_N1_TO_1", 3: "RELU6"}


def lq_module(case):
    """The kernel case's op as the converter sees it."""
    c = case["cfg"]
    m = mlirgen.Mod()
    s = case["shape0"]
    o = c["o"]
    if c["op"] == "bconv":
        co = c["ws"][0]
        x, w = m.arg(s, "i32"), m.arg(c["ws"], "i32")
        mul, bias, thr = m.arg([co]), m.arg([co]), m.arg([co], "i32")
        e = {"f32": "f32", "i32": "i32"}.get(c["ot"]) or "!quant.uniform<i8:f32, 0.5>"
        d = (s[0], opsz(o, s[1], c["ws"][1], "h"), opsz(o, s[2], c["ws"][2], "w"), (co + 31) // 32 if c["ot"] == "i32" else co)
        v = m.op("lq.Bconv2d", [x, w, mul, bias, thr], (d, e), channels_in=o["cin"], dilation_height_factor=o["dh"], dilation_width_factor=o["dw"],
                 fused_activation_function=ACT[o["act"]], pad_values=o["pv"], padding=PADS[o["pad"]], stride_height=o["sh"], stride_width=o["sw"])
    elif c["op"] == "pool":
        x = m.arg(s, "i32")
        d = (s[0], opsz(dict(o, dh=1, dw=1), s[1], o["fh"], "h"), opsz(dict(o, dh=1, dw=1), s[2], o["fw"], "w"), s[3])
        v = m.op("lq.BMaxPool2d", [x], (d, "i32"), padding=PADS[o["pad"]], stride_width=o["sw"], stride_height=o["sh"], filter_width=o["fw"], filter_height=o["fh"])
    else:
        e = {"f32": "f32", "i32": "i32", "i8": "!quant.uniform<i8:f32, 0.5>", "bool": "i1"}
        x = m.arg(s, e[c["it"]])
        d = tuple(s[:-1]) + ((s[-1] + 31) // 32,) if c["op"] == "quant" else tuple(c["os"])
        v = m.op("lq.Quantize" if c["op"] == "quant" else "lq.Dequantize", [x], (d, e[c["ot"]]))
    return dict(passes=["tfl-legalize-lce"], text=m.ret([v]), S=1024, xs=[])


def opsz(o, n, f, ax):
    return mlirgen.out1(PADS[o["pad"]], n, f, o["s" + ax], o["d" + ax])


def deployed(cases):
    """Gives every kernel case the name and the options the converter writes."""
    res = mlirgraph.run(mlirbuild.build(), [lq_module(c) for c in cases])
    out = []
    for c, r in zip(cases, res):
        code, opt = "the pass failed", "00"
        if r["ok"] and r["ok"][-1]:
            ops = [o for o in r["g"][-1]["ops"] if o["n"] == "tfl.custom"]
            if len(ops) == 1:
                code, opt = ops[0]["a"].get("custom_code") or "?", ops[0]["a"].get("custom_option", "")
        out.append(dict(c, code=code.replace(" ", "_"), rawopt=opt or "00"))
    return out


def runtime_cases(rng, n):
    import opgen
    cases = []
    for i in range(n):
        z = rng.random()
        if z < 0.6:
            gr = rng.choice([None, None, None, 2])
            pad = rng.choice([0, 1])
            cases.append(opgen.conv_case(rng, pad=pad, pv=rng.choice([0, 1]) if pad == 0 and i % 3 == 0 else None, groups=gr,
                                         ot="f32" if pad == 0 and i % 3 == 0 else None, act=0 if pad == 0 and i % 3 == 0 else None,
                                         kernels=["ref", "ind"] if gr else ["ref", "bgemm", "ind"], budget=2500))
        elif z < 0.8:
            cases.append(opgen.pool_case(rng))
        elif z < 0.9:
            cases.append(opgen.quant_case(rng))
        else:
            cases.append(opgen.dequant_case(rng))
    import opchecks
    return opchecks.with_judge(cases, opchecks.VALUE)


legal = converter_check("C29", [("legalize", 500, 12000)], [])


def C29():
    import runner
    viols, agg, nh, samples, extra = legal()
    if viols:
        return viols, agg, nh, samples, extra
    driver = vlib.build_ops_driver()
    rng = random.Random("C29-runtime-%d" % vlib.SEED)
    n, done = runner.tier(500, 10000), 0
    while done < n and not viols:
        cases = deployed(runtime_cases(rng, min(2000, n - done)))
        done += len(cases)
        H = runner.run_ops(driver, cases)
        v, st = runner.judge_histories("C29", "LceNodeTrace", cases, H, lambda idx: runner.run_ops(driver, [cases[i] for i in idx]))
        for x in agg:
            agg[x] += st[x]
        nh += len(H)
        viols += v
        log("runtime: %d histories" % nh)
    extra["cases"]["runtime"] = done
    return viols, agg, nh, samples, extra


def rerun29(case):
    if "text" in case:
        return legal.rerun(case)
    import runner
    return runner.run_ops(vlib.build_ops_driver(), deployed([case]))[0]


C29.rerun, C29.assume = rerun29, ASSUME
CHECKS.update(C21=C21, C22=C22, C23=C23, C24=C24, C25=C25, C26=C26, C27=C27, C28=C28, C29=C29, C30=C30, C31=C31)
