"""Case generation for the op-level properties (C01..C14): each function returns
(cases, stats) for a seeded generator; lib/runner.py executes and judges them."""
import json, re
import opgen, vlib
from opgen import conv_case, pool_case, quant_case, dequant_case, rbits, rshape, prod, ceildiv

VALUE = ["alloc", "status", "agree", "value1"]
K3 = ["ref", "bgemm", "ind"]


def axes(rng):
    """All small axis geometries, enumerated by TLC from spec/Geometry."""
    out, rc, st = vlib.model("Geometry")
    ax = [tuple(map(int, m)) for m in re.findall(r'<<"AXIS", (\d+), (\d+), (\d+), (\d+), (\d+)>>', out)]
    if len(ax) < 100:
        raise vlib.CheckError("Geometry emitted %d axes" % len(ax))
    return ax


def geometry_conv(rng, ay, ax, pv, ot, kernels, cin=None, co=None, act=0, judge=None):
    """One convolution whose two axes are the given geometries."""
    pad = ay[0]
    cin = cin or rng.choice([1, 2, 5, 32, 33, 64])
    if pad == 0 and pv == 0 and cin % 2:
        cin += 1
    co = co or rng.choice([1, 2, 3, 4, 5, 8, 33])
    while co > 1 and ay[2] * ax[2] * ay[1] * ax[1] * co * ceildiv(cin, 32) > 3000:
        co = (co + 1) // 2
    cfg = dict(op="bconv", kernels=kernels, missing=[], o=dict(sh=ay[3], sw=ax[3], dh=ay[4], dw=ax[4], pad=pad, pv=pv, cin=cin, act=act),
               ws=[co, ay[2], ax[2], ceildiv(cin, 32)], ot=ot, it="i32", affine=ot == "i8", dyn=False, nout=1)
    s = [rng.choice([1, 1, 2]), ay[1], ax[1], ceildiv(cin, 32)]
    case = dict(cfg=cfg)
    opgen.conv_consts(rng, case)
    cfg["in"][0]["s"] = s
    cfg["os"] = [0, 0, 0, 0]
    case["shape0"] = s
    case["steps"] = [dict(e="alloc"), dict(e="feed", x=rbits(rng, prod(s[:3]), cin)), dict(e="invoke", fill=rng.randrange(256))]
    case["judge"] = judge or VALUE
    return case


def pairs(rng, ax, n, pad=None):
    """n pairs of axes with equal padding, every axis used when n allows."""
    a = [x for x in ax if pad is None or x[0] == pad]
    order = a[:]
    rng.shuffle(order)
    res = []
    while len(res) < n:
        for x in order:
            if len(res) >= n:
                break
            cand = [y for y in a if y[0] == x[0]]
            y = rng.choice(cand)
            res.append((x, y) if rng.random() < 0.5 else (y, x))
    return res


def with_judge(cases, judge):
    for c in cases:
        c["judge"] = judge
    return cases


def plain(case):
    """Identity output stage: the accumulator is directly visible."""
    c = case["cfg"]
    co = c["ws"][0]
    c["fs"] = 1
    c["mul"] = [1] * co
    c["bias"] = [0] * co
    c["qn"], c["qd"] = 1, 1
    case["scale"], case["ozp"], c["zp"] = [1, 1], 0, 0
    case["const"] = [case["const"][0], (2, (opgen.f32(1.0) * co).hex()), (3, (opgen.f32(0.0) * co).hex()), case["const"][3]]
    return case


def C01(rng, n):
    cases = []
    for it in ("f32", "i8", "bool"):          # every channel count up to 130
        for ch in range(1, 131):
            cases.append(quant_case(rng, it=it, s=[rng.choice([1, 2, 3]), ch]))
    if True:                                   # every zero point
        for zp in range(-128, 128):
            c = quant_case(rng, it="i8", s=[2, rng.choice([33, 40, 64, 70])])
            c["cfg"]["izp"] = zp
            for st in c["steps"]:
                if st["e"] == "feed":
                    st["x"] = opgen.quant_vals(rng, "i8", zp, prod(c["shape0"]))
            cases.append(c)
    cases += [quant_case(rng, nsteps=rng.choice([1, 2])) for _ in range(n)]
    return with_judge(cases, VALUE)


def C02(rng, n):
    cases = []
    for ot in ("f32", "i8", "bool"):
        for ch in range(1, 131):
            cases.append(dequant_case(rng, ot=ot, os=[rng.choice([1, 2, 3]), ch]))
    cases += [dequant_case(rng, nsteps=rng.choice([1, 2])) for _ in range(n)]
    return with_judge(cases, VALUE)


def C03(rng, n):
    ax = axes(rng)
    cases = []
    for ay, axx in pairs(rng, ax, n // 2):
        c = geometry_conv(rng, ay, axx, 1 if ay[0] == 0 else rng.choice([0, 1]), rng.choice(["f32", "f32", "f32", "i32", "i8"]), K3)
        cases.append(plain(c) if c["cfg"]["ot"] == "f32" else c)
    for i in range(n - n // 2):
        pad = rng.choice([0, 1])
        c = conv_case(rng, ot=rng.choice(["f32", "f32", "f32", "i32", "i8"]), pad=pad, pv=1 if pad == 0 else rng.choice([0, 1]), act=0)
        cases.append(plain(c) if c["cfg"]["ot"] == "f32" else c)
    for _ in range(max(4, n // 200)):          # wide channels, larger images
        c = conv_case(rng, ot="f32", act=0, budget=40000, pv=1, cin=rng.choice([512, 513, 768, 1000, 1024]), filt=(3, 3))
        cases.append(plain(c))
    cases += [plain(deep_conv(rng, ot="f32")) for _ in range(max(16, n // 400))]
    cases += [plain(conv_case(rng, ot="f32", act=0, pad=1, groups=rng.choice([2, 2, 3, 4]), kernels=["ref", "ind"])) for _ in range(n // 10)]
    return with_judge(cases, VALUE)


def deep_conv(rng, ot=None, big=False, **kw):
    """Sums around and beyond 16 bits: accumulators of the optimized kernels
    must not wrap.  big: several blocks of channels and pixels."""
    fh, fw = rng.choice([(1, 1), (3, 3), (5, 5), (7, 7), (9, 9), (3, 5), (5, 3), (1, 7), (9, 2), (11, 11)])
    k = rng.choice([65535, 65536, 65023, 65024, 66000, 40000, 70000, 100000, 131072]) + 32 * rng.randrange(8)
    cin = max(1, k // (fh * fw)) + rng.choice([0, 0, 1])
    pad = rng.choice([0, 0, 1])
    c = conv_case(rng, ot=ot or rng.choice(["f32", "f32", "i8"] + (["i32", "i32"] if big else [])), pad=pad, pv=1, act=0, filt=(fh, fw), cin=cin, co=rng.choice([1, 2, 3, 5, 8, 9, 13] if big else [1, 2]),
                  stride=(1, 1), dil=(1, 1), budget=1 << 30, **kw)
    h, w = rng.choice([(1, 1), (1, 3), (2, 2), (1, 5)]) if big else (1, 1)
    s = [1, h, w, ceildiv(cin, 32)] if pad == 0 else [1, h + fh - 1, w + fw - 1, ceildiv(cin, 32)]
    c["cfg"]["in"][0]["s"] = c["shape0"] = s
    ones, cfg = rng.random() < 0.7, c["cfg"]
    for st in c["steps"]:
        if st["e"] == "feed":
            st["x"] = rbits(rng, prod(s[:3]), cin, 0.0 if ones else None)
    if ones:
        cfg["w"] = rbits(rng, prod(cfg["ws"][:3]), cin, rng.choice([1.0, 0.97]))
        c["const"] = [(1, opgen.hexs(opgen.bytes_of_halves(cfg["w"])))] + c["const"][1:]
    return c


def digest(case, judge):
    case["digest"] = True
    case["judge"] = judge
    return case


def C04(rng, n):
    judge = ["agree"]
    cases = []
    for i in range(n):
        z = rng.random()
        if z < 0.25:
            c = conv_case(rng, pad=0, pv=0, act=0, ot="f32", budget=60000)
        elif z < 0.45:
            c = conv_case(rng, groups=rng.choice([2, 3, 4]), kernels=["ref", "ind"], budget=60000)
        else:
            c = conv_case(rng, budget=rng.choice([4000, 60000, 300000]))
        cases.append(digest(c, judge))
    cases += [digest(deep_conv(rng, big=True), judge) for _ in range(max(60, n // 200))]
    return cases


def C05(rng, n):
    ax = axes(rng)
    cases = []
    for ay, axx in pairs(rng, ax, n // 2, pad=0):
        cases.append(geometry_conv(rng, ay, axx, 0, "f32", K3))
    for _ in range(n - n // 2):
        z = rng.random()
        if z < 0.7:
            cases.append(conv_case(rng, pad=0, pv=0, act=0, ot="f32"))
        elif z < 0.85:                         # only the reference kernel: any output, activation
            cases.append(conv_case(rng, pad=0, pv=0, ot=rng.choice(["i8", "i32", "f32"]), act=rng.choice([0, 1, 2, 3]), kernels=["ref"]))
        else:
            cases.append(conv_case(rng, pad=0, pv=0, act=0, ot="f32", groups=rng.choice([2, 3]), kernels=["ref", "ind"]))
    return with_judge(cases, VALUE)


def C06(rng, n):
    cases = []
    for i in range(n):
        ot = rng.choice(["f32", "i8", "i8"])
        extreme = i % 12 == 0
        cases.append(conv_case(rng, ot="i8" if extreme else ot, act=rng.choice([0, 1, 2, 3]), pv=1, sat=rng.random() < 0.35, budget=2500, extreme=extreme))
    cases += [deep_conv(rng, ot="i8") for _ in range(max(10, n // 400))]
    cases += [conv_case(rng, ot=rng.choice(["f32", "i8"]), pv=1, groups=rng.choice([2, 2, 3, 4]), kernels=["ref", "ind"], sat=rng.random() < 0.35) for _ in range(n // 10)]
    return with_judge(cases, VALUE)


def C07(rng, n):
    cases = []
    for co in range(1, 101):                   # every remainder of output channels
        cases.append(conv_case(rng, ot="i32", co=co, act=0, pv=1))
    for i in range(n):
        cases.append(conv_case(rng, ot="i32", pv=1))
    cases += [conv_case(rng, ot="i32", pv=1, groups=rng.choice([2, 2, 3, 4]), kernels=["ref", "ind"]) for _ in range(n // 10)]
    return with_judge(cases, VALUE)


def C08(rng, n):
    cases = []
    for i in range(n):
        if i % 6 == 0:                         # zero padding: the reference kernel for any output, the indirect one for float
            ot = rng.choice(["f32", "i8", "i32"])
            cases.append(conv_case(rng, groups=rng.choice([2, 2, 3, 4]), kernels=["ref", "ind"], pad=0, pv=0, ot=ot,
                                   act=rng.choice([0, 0, 1, 3])))
        else:
            cases.append(conv_case(rng, groups=rng.choice([2, 2, 3, 4, 5, 8]), kernels=["ref", "ind"]))
    return with_judge(cases, ["alloc", "status", "value"])


def C09(rng, n):
    ax = [a for a in axes(rng) if a[4] == 1]
    cases = []
    for ay, axx in pairs(rng, ax, n // 2):
        c = pool_case(rng)
        o = c["cfg"]["o"]
        o.update(fh=ay[2], fw=axx[2], sh=ay[3], sw=axx[3], pad=ay[0])
        s = [rng.choice([1, 2]), ay[1], axx[1], rng.choice([1, 1, 2, 3])]
        c["cfg"]["in"] = [dict(t="i32", s=s)]
        c["shape0"] = s
        c["opts"] = [("filter_height", o["fh"]), ("filter_width", o["fw"]), ("stride_height", o["sh"]), ("stride_width", o["sw"]), ("padding", o["pad"])]
        c["steps"] = [dict(e="alloc"), dict(e="feed", x=opgen.pool_data(rng, s)), dict(e="invoke", fill=rng.randrange(256))]
        cases.append(c)
    cases += [pool_case(rng, nsteps=rng.choice([1, 2])) for _ in range(n - n // 2)]
    return with_judge(cases, VALUE)


def lifecycles(rng):
    out, rc, st = vlib.model("Lifecycle")
    hs = [json.loads(m.replace('\\"', '"')) for m in re.findall(r'"HIST (\[.*?\])"\n', out)]
    if len(hs) < 100:
        raise vlib.CheckError("Lifecycle emitted %d histories" % len(hs))
    return hs


def other_shape(rng, case):
    c = case["cfg"]
    s0 = case["shape0"]
    if c["op"] in ("bconv", "pool"):
        for _ in range(20):
            s = rshape(rng, dict(c, _words=s0[3]), budget=2500)
            if rng.random() < 0.3:             # a change of the batch size only
                s = [rng.choice([1, 2, 3])] + s0[1:3] + [s0[3]]
            s[3] = s0[3]
            if c["op"] == "pool" and prod(s) > 300:
                continue
            return s
        return s0
    if c["op"] == "quant":
        s = opgen.rvec_shape(rng, maxel=300, rank=len(s0))
        return s
    return s0


def feed_for(rng, case, s):
    c = case["cfg"]
    if c["op"] == "bconv":
        return rbits(rng, prod(s[:3]), c["o"]["cin"])
    if c["op"] == "pool":
        return opgen.pool_data(rng, s)
    if c["op"] == "quant":
        return opgen.quant_vals(rng, c["it"], c["izp"], prod(s))
    return rbits(rng, prod(s[:-1]), c["os"][-1])


def lifecycle_case(rng, hist):
    z = rng.random()
    if z < 0.3:
        case = conv_case(rng, ot="f32", pad=0, pv=0, act=0, budget=1500)
    elif z < 0.4:
        case = conv_case(rng, groups=rng.choice([2, 3]), kernels=["ref", "ind"], budget=1500)
    elif z < 0.8:
        case = conv_case(rng, budget=1500)
    elif z < 0.88:
        case = pool_case(rng)
    elif z < 0.95:
        case = quant_case(rng)
    else:
        case = dequant_case(rng)
    shapes = {1: case["shape0"]}
    for k in (2, 3):
        shapes[k] = other_shape(rng, case)
    cur, steps = case["shape0"], []
    for e, a in hist:
        if e == "resize":
            cur = shapes[a]
            if case["cfg"]["op"] != "dequant":
                steps.append(dict(e="resize", s=cur))
        elif e == "alloc":
            steps.append(dict(e="alloc"))
        elif e == "feed":
            steps.append(dict(e="feed", x=feed_for(rng, case, cur)))
        else:
            steps.append(dict(e="invoke", fill=rng.randrange(256)))
    # a resize invalidates the allocation: nothing is fed or invoked until the
    # next one (Lifecycle never does it; dropping a resize keeps it ready)
    case["steps"] = steps
    return case


def C10(rng, n):
    hs = lifecycles(rng)
    rng.shuffle(hs)
    hs = [hs[i % len(hs)] for i in range(n)]
    return with_judge([lifecycle_case(rng, h) for h in hs], VALUE)


# ---- C11: acceptance ------------------------------------------------------
def reprog(case):
    """Rebuild the option list after cfg['o'] was changed."""
    o = case["cfg"]["o"]
    if case["cfg"]["op"] == "bconv":
        case["opts"] = [("stride_height", o["sh"]), ("stride_width", o["sw"]), ("dilation_height_factor", o["dh"]),
                        ("dilation_width_factor", o["dw"]), ("padding", o["pad"]), ("pad_values", o["pv"]),
                        ("channels_in", o["cin"]), ("fused_activation_function", o["act"])]
    elif case["cfg"]["op"] == "pool":
        case["opts"] = [("filter_height", o["fh"]), ("filter_width", o["fw"]), ("stride_height", o["sh"]), ("stride_width", o["sw"]), ("padding", o["pad"])]


def conv_mutation(rng):
    kernels = ["ref", "bgemm", "ind"]
    m = rng.choice(["none", "missing", "pv", "ot", "it", "ft", "rank", "frank", "thr_len", "thr_type", "thr_rank", "mul_len", "mul_type",
                    "mul_rank", "bias_len", "bias_type", "bias_rank", "affine", "dyn", "groups", "zeropad", "zeropad", "nin", "groups_ok", "cin_groups"])
    groups = rng.choice([2, 3, 4]) if m in ("groups_ok",) else None
    c = conv_case(rng, groups=groups, kernels=kernels, budget=1500)
    g = c["cfg"]
    if m == "missing":
        g["missing"] = rng.sample([k for k, _ in c["opts"]], rng.choice([1, 1, 2]))
    elif m == "pv":
        g["o"]["pv"] = rng.choice([2, -1, 3, 255, 256, 257])
    elif m == "ot":
        g["ot"] = rng.choice(["u8", "bool", "i16", "i64"])
    elif m == "it":
        g["it"] = g["in"][0]["t"] = rng.choice(["f32", "i8", "i64", "u8"])
    elif m == "ft":
        g["in"][1]["t"] = rng.choice(["f32", "i8", "i64"])
    elif m == "rank":
        s = g["in"][0]["s"]
        g["in"][0]["s"] = rng.choice([s[:3], s + [1], s[2:], [1] + s])
    elif m == "frank":
        s = g["in"][1]["s"]
        g["in"][1]["s"] = rng.choice([s[:3], s + [1], [1] + s])
    elif m in ("thr_len", "thr_type", "thr_rank"):
        if rng.random() < 0.7:
            g["ot"] = "i32"
        if m == "thr_len":
            g["in"][4]["s"] = [max(0, g["ws"][0] + rng.choice([-1, 1, 31, -g["ws"][0]]))]
        elif m == "thr_type":
            g["in"][4]["t"] = rng.choice(["f32", "i8", "i64"])
        else:
            g["in"][4]["s"] = rng.choice([[1, g["ws"][0]], [g["ws"][0], 1], []])
    elif m.split("_")[0] in ("mul", "bias"):
        if rng.random() < 0.7:
            g["ot"] = rng.choice(["f32", "i8"])
            g["affine"] = g["ot"] == "i8"
        j = 2 if m.startswith("mul") else 3
        if m.endswith("len"):
            g["in"][j]["s"] = [max(0, g["ws"][0] + rng.choice([-1, 1, 31, -g["ws"][0]]))]
        elif m.endswith("type"):
            g["in"][j]["t"] = rng.choice(["i32", "i8", "i64"])
        else:
            g["in"][j]["s"] = rng.choice([[1, g["ws"][0]], [g["ws"][0], 1], []])
    elif m == "affine":
        g["ot"], g["affine"] = "i8", False
    elif m == "dyn":
        g["dyn"] = True
    elif m in ("groups", "cin_groups"):
        P = ceildiv(g["o"]["cin"], 32)
        if m == "groups":
            P = rng.choice([2, 3, 4, 6, 8])
            g["o"]["cin"] = 32 * P - rng.choice([0, 0, 0, 1, 16, 31])
        ws3 = rng.choice([x for x in range(1, P + 3)])
        g["ws"] = [g["ws"][0], g["ws"][1], g["ws"][2], ws3]
        s = g["in"][0]["s"]
        g["in"][0]["s"] = s[:3] + [P]
        g["in"][1]["s"] = g["ws"]
    elif m == "zeropad":
        g["o"].update(pad=0, pv=0, act=rng.choice([0, 0, 1, 2, 3]), cin=rng.choice([1, 3, 31, 33, 2, 32, 64]))
        g["ot"] = rng.choice(["f32", "f32", "i8", "i32"])
        g["affine"] = g["ot"] == "i8"
        P = ceildiv(g["o"]["cin"], 32)
        g["ws"] = g["ws"][:3] + [P]
        g["in"][0]["s"] = g["in"][0]["s"][:3] + [P]
        g["in"][1]["s"] = g["ws"]
    elif m == "nin":
        if rng.random() < 0.5:
            g["in"] = g["in"][:rng.choice([2, 3, 4])]
        else:
            g["in"] = g["in"] + [dict(t="i32", s=[1])]
    reprog(c)
    c.setdefault("scale", [1, 1])
    c.setdefault("ozp", 0)
    c["shape0"] = g["in"][0]["s"]
    c["const"] = []
    c["steps"] = [dict(e="alloc")]
    c["mut"] = m
    for k in ("w", "mul", "bias", "thr"):
        g.pop(k, None)
    return c


def pool_mutation(rng):
    c = pool_case(rng)
    g = c["cfg"]
    m = rng.choice(["none", "zero", "missing", "ot", "it", "rank", "nin"])
    keys = dict(filter_height="fh", filter_width="fw", stride_height="sh", stride_width="sw")
    if m == "zero":
        g["o"][rng.choice(["fh", "fw", "sh", "sw"])] = 0
    elif m == "missing":
        k = rng.choice(list(keys))
        g["missing"] = [k]
        g["o"][keys[k]] = 0
    elif m == "ot":
        g["ot"] = rng.choice(["f32", "i8", "i64", "bool"])
    elif m == "it":
        g["it"] = g["in"][0]["t"] = rng.choice(["f32", "i8", "i64"])
    elif m == "rank":
        s = g["in"][0]["s"]
        g["in"][0]["s"] = rng.choice([s[:3], s + [1], s[2:]])
    elif m == "nin":
        g["in"] = g["in"] + [dict(t="i32", s=[1])]
    reprog(c)
    c["shape0"] = g["in"][0]["s"]
    c.setdefault("scale", [1, 1])
    c.setdefault("ozp", 0)
    c["steps"] = [dict(e="alloc")]
    c["mut"] = "pool_" + m
    return c


def qd_mutation(rng):
    if rng.random() < 0.5:
        c = quant_case(rng)
        m = rng.choice(["none", "it", "ot", "rank", "nin"])
        g = c["cfg"]
        if m == "it":
            g["it"] = g["in"][0]["t"] = rng.choice(["i32", "u8", "i64", "i16"])
        elif m == "ot":
            g["ot"] = rng.choice(["f32", "i8", "i64", "bool"])
        elif m == "rank":
            g["os"] = rng.choice([g["os"] + [1], g["os"][:-1] or [1, 1]])
    else:
        c = dequant_case(rng)
        m = rng.choice(["none", "it", "ot", "rank", "dim", "last", "nin"])
        g = c["cfg"]
        if m == "it":
            g["it"] = g["in"][0]["t"] = rng.choice(["f32", "i8", "i64"])
        elif m == "ot":
            g["ot"] = rng.choice(["i32", "u8", "i64", "i16"])
        elif m == "rank":
            s = g["in"][0]["s"]
            g["in"][0]["s"] = rng.choice([s + [1], [1] + s])
        elif m == "dim" and len(g["os"]) > 1:
            s = list(g["in"][0]["s"])
            s[rng.randrange(len(s) - 1)] += 1
            g["in"][0]["s"] = s
        elif m == "last":
            s = list(g["in"][0]["s"])
            s[-1] += rng.choice([1, 2, -1]) if s[-1] > 1 else 1
            g["in"][0]["s"] = s
    if m == "nin":
        g["in"] = g["in"] + [dict(t="i32", s=[1])]
    c["shape0"] = g["in"][0]["s"]
    c.setdefault("scale", [1, 1])
    c.setdefault("ozp", 0)
    c["steps"] = [dict(e="alloc")]
    c["mut"] = g["op"] + "_" + m
    return c


def C11(rng, n):
    cases = []
    for i in range(n):
        z = rng.random()
        cases.append(conv_mutation(rng) if z < 0.7 else pool_mutation(rng) if z < 0.82 else qd_mutation(rng))
    # output shapes over the axis geometries, incl. re-allocation after a resize
    ax = axes(rng)
    for ay, axx in pairs(rng, ax, n // 3):
        c = geometry_conv(rng, ay, axx, 1, rng.choice(["f32", "i8", "i32"]), K3)
        c["const"] = []
        for k in ("w", "mul", "bias", "thr"):
            c["cfg"].pop(k)
        c["steps"] = [dict(e="alloc"), dict(e="resize", s=rshape(rng, c["cfg"])), dict(e="alloc")]
        cases.append(c)
    return with_judge(cases, ["alloc"])


def C13(rng, n):
    cases = []
    for i in range(n):
        z = rng.random()
        if z < 0.6:
            gr = rng.choice([None, None, None, 2, 3])
            c = conv_case(rng, groups=gr, kernels=["ref", "ind"] if gr else K3, budget=rng.choice([2000, 20000, 100000]))
        elif z < 0.75:
            c = conv_case(rng, pad=0, pv=0, act=0, ot="f32", budget=20000)
        elif z < 0.85:
            c = pool_case(rng)
        elif z < 0.93:
            c = quant_case(rng)
        else:
            c = dequant_case(rng)
        cases.append(digest(c, ["writes", "status"]))
    hs = lifecycles(rng)
    for _ in range(n // 5):
        cases.append(digest(lifecycle_case(rng, rng.choice(hs)), ["writes", "status"]))
    return cases


def C14(rng, n):
    cases = []
    allk = ["ref", "bgemm", "ind", "both"]
    for i in range(n):
        z = rng.randrange(5)
        if z == 0:      # grouped: the default kernel refuses
            c = conv_case(rng, groups=rng.choice([2, 3]), kernels=allk, budget=1500)
        elif z == 1:    # zero padding with an activation / other output: reference only
            c = conv_case(rng, pad=0, pv=0, ot=rng.choice(["i8", "i32"]), act=0, kernels=allk, budget=1500)
        elif z == 2:    # dynamic input: not with indirection
            c = conv_case(rng, kernels=allk, budget=1500)
            c["cfg"]["dyn"] = True
        elif z == 3:    # zero padding, odd channels: the optimized kernels only
            c = conv_case(rng, pad=0, pv=0, ot="f32", act=0, kernels=allk, cin=rng.choice([1, 3, 33, 63]), budget=1500)
        else:
            c = rng.choice([pool_case, quant_case, dequant_case])(rng)
        cases.append(c)
    return with_judge(cases, ["reg", "alloc", "status", "agree", "value1"])


# ---- C12: schedules -------------------------------------------------------
def schedules(cfg, gr, gc):
    out, rc, st = vlib.model("Gemm", cfg)
    hs = [json.loads(m) for m in re.findall(r'"SCHED (\[.*?\])"\n', out)]
    if len(hs) < 50:
        raise vlib.CheckError("Gemm emitted %d schedules" % len(hs))
    return [(gr, gc, s) for s in hs]


def C12(rng, n):
    cases = []
    s22 = schedules("GemmEmit", 2, 2)
    s32 = schedules("GemmEmit32", 3, 2)
    rng.shuffle(s32)
    for gr, gc, s in (s22 + s32)[:n // 2]:
        c = conv_case(rng, kernels=["bgemm"], budget=3000, co=rng.choice([3, 8, 33, 40, 64, 65, 70, 96]), pv=1)
        c["steps"].insert(0, dict(e="schedx", gr=gr, gc=gc, steps=s))
        cases.append(c)
    for i in range(n - len(cases)):
        scheds = [[rng.choice([0, 1, 1, 2, 3]), rng.choice([0, 1, 1, 2, 3]), rng.choice([0, rng.randrange(1, 1000)]), rng.choice([1, 1, 2, 3, 4])]
                  for _ in range(3)]
        scheds[0][3] = rng.choice([2, 3, 4])
        z = rng.random()
        kernels = ["ref", "bgemm", "ind"] if z < 0.3 else ["bgemm"]
        c = conv_case(rng, kernels=kernels, budget=3000, scheds=scheds, nsteps=3)
        cases.append(c)
    return with_judge(cases, ["status", "agree", "value1"])
