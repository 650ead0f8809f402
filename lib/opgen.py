"""Cases for the op driver: generation, driver script, and projection of what the
driver reports to the abstract values of spec/LceNodeTrace."""
import hashlib, json, struct
from fractions import Fraction

JUDGE_ALL = ["alloc", "status", "writes", "agree", "value1"]
SENT = 1073741823  # a value the specification can never produce
KARGS = {"ref": ("1", "0"), "bgemm": ("0", "0"), "ind": ("0", "1"), "both": ("1", "1")}
OPNAME = {"bconv": "LceBconv2d", "pool": "LceBMaxPool2d", "quant": "LceQuantize", "dequant": "LceDequantize"}
TSIZE = {"f32": 4, "i32": 4, "i8": 1, "u8": 1, "bool": 1, "i16": 2, "i64": 8}


def prod(s):
    r = 1
    for x in s:
        r *= x
    return r


def ceildiv(a, b):
    return -(-a // b)


def hexs(b):
    return b.hex()


def halves_of_bytes(b):
    return list(struct.unpack("<%dH" % (len(b) // 2), b)) if b else []


def bytes_of_halves(h):
    return struct.pack("<%dH" % len(h), *h)


def f32(x):
    return struct.pack("<f", x)


def order_int(bits):
    """Order preserving integer of a float32 bit pattern (-0 and +0 -> 0)."""
    return -(bits & 0x7FFFFFFF) if bits >> 31 else bits


def dec_out(case, hx):
    """Projection of an output buffer."""
    b = bytes.fromhex(hx)
    t = case["cfg"]["ot"]
    if t == "i32":
        return halves_of_bytes(b)
    if t == "i8":
        return list(struct.unpack("<%db" % len(b), b))
    if t == "bool":
        return list(b)
    r = []
    fs = case["cfg"]["fs"]
    for (v,) in struct.iter_unpack("<f", b):
        if v != v or v in (float("inf"), float("-inf")):
            r.append(SENT)
            continue
        q = Fraction(v) * fs
        r.append(int(q) if q.denominator == 1 and abs(q) < SENT else SENT)
    return r


def fingerprint(hx):
    d = hashlib.sha256(hx.encode()).digest()
    return [len(hx)] + [int.from_bytes(d[3 * i:3 * i + 3], "big") for i in range(4)]


def enc_in(case, x):
    """Bytes of the abstract contents of input 0."""
    t = case["cfg"]["it"]
    if t == "i32":
        return bytes_of_halves(x)
    if t == "i8":
        return struct.pack("<%db" % len(x), *x)
    if t == "bool":
        return bytes(x)
    if t == "f32":
        # abstract 0 is -0.0 at odd positions; beyond infinity are the NaNs,
        # with the sign bit set at odd positions (neither is negative)
        return b"".join(struct.pack("<I", (0x80000000 | -v) if v < 0 else (v | ((i & 1) << 31) if v == 0 or v > 0x7F800000 else v))
                        for i, v in enumerate(x))
    return bytes(prod(case["shape0"]) * TSIZE[t])


def script(case):
    """Driver commands for all kernels of the case."""
    c, out = case["cfg"], []
    for i, k in enumerate(c["kernels"]):
        ref, ind = KARGS[k]
        out.append("new %d %s %s %s" % (i, case.get("code") or OPNAME[c["op"]], ref, ind))
        for key, val in case["opts"]:
            if case.get("rawopt") or key in c["missing"]:
                continue
            out.append("opt %d int %s %d" % (i, key, val))
        if case.get("rawopt"):
            out.append("rawopt %d %s" % (i, case["rawopt"]))
        out.append("init %d" % i)
        for j, t in enumerate(c["in"]):
            # thresholds/multiplier/bias that an output type does not use are
            # left unallocated, as the converter does
            mode = "ro" if j > 0 else ("dyn" if c["dyn"] else "rw")
            if case.get("absent") and len(c["in"]) == 5 and j in dict(i32=(2, 3), f32=(4,), i8=(4,)).get(c["ot"], ()):
                mode = "absent"      # what this output type does not use need not be there
            out.append("tensor %d in %s %s %d %s" % (i, t["t"], mode, len(t["s"]), " ".join(map(str, t["s"]))))
            if c["op"] == "quant":
                out.append("quant %d in %d 1.0 %d 1" % (i, j, c["izp"]))
        for j in range(c["nout"]):
            out.append("tensor %d out %s rw %d %s" % (i, c["ot"], len(c["os"]), " ".join(map(str, c["os"]))))
            if c["ot"] == "i8":
                out.append("quant %d out %d %r %d %d" % (i, j, float(Fraction(*case["scale"])), case["ozp"], 1 if c["affine"] else 0))
        for j, hx in case["const"]:
            out.append("data %d %d %s" % (i, j, hx))
    nk = len(c["kernels"])
    for st in case["steps"]:
        e = st["e"]
        if e == "sched":
            out.append("sched %d %d %d %d" % tuple(st["v"]))
            continue
        if e == "schedx":
            out.append("schedx %d %d %s" % (st["gr"], st["gc"], " ".join("%d %d %d" % tuple(x) for x in st["steps"])))
            continue
        for i in range(nk):
            if e == "resize":
                out.append("resize %d 0 %d %s" % (i, len(st["s"]), " ".join(map(str, st["s"]))))
            elif e == "alloc":
                out.append("prepare %d" % i)
            elif e == "feed":
                out.append("data %d 0 %s" % (i, hexs(enc_in(case, st["x"]))))
            elif e == "invoke":
                out.append("eval %d %d" % (i, st.get("fill", 0x99)))
    for i in range(nk):
        out.append("free %d" % i)
    return "\n".join(out)


def history(case, events, status):
    """Merge the driver's answers into a trace of spec/LceNodeTrace."""
    c = case["cfg"]
    nk = len(c["kernels"])
    evs = [e for e in events if e["ev"] in ("prepare", "eval")]
    pos = 0
    steps = []
    digest = case.get("digest")
    if "reg" in case.get("judge", ()):
        steps.append(dict(e="new", ops=[e["ops"] for e in events if e["ev"] == "new"]))
    ready = False  # some kernel is allocated
    for st in case["steps"]:
        e = st["e"]
        if e in ("sched", "schedx"):
            continue
        if e == "resize":
            steps.append(dict(e="resize", s=st["s"]))
            ready = False
        elif e == "feed":
            if ready:
                steps.append(dict(e="feed", x=[len(st["x"])] if digest else st["x"]))
        elif e == "alloc":
            got = evs[pos:pos + nk]
            pos += nk
            if len(got) < nk:
                steps.append(dict(e="crash", why=str(status)[:200]))
                break
            steps.append(dict(e="alloc", ok=[g["ok"] for g in got], os=[g["oshape"] for g in got]))
            ready = any(g["ok"] for g in got)
        elif e == "invoke":
            got = evs[pos:pos + nk]
            pos += nk
            if len(got) < nk:
                steps.append(dict(e="crash", why=str(status)[:200]))
                break
            if not ready:
                continue
            steps.append(dict(e="invoke", ok=[g["ok"] for g in got], guards=[g["guards"] for g in got],
                              inputs=[g["inputs"] for g in got], y=[fingerprint(g["out"]) if digest else dec_out(case, g["out"]) for g in got]))
    if status is not None and steps and steps[-1]["e"] != "crash":
        steps.append(dict(e="crash", why=str(status)[:200]))
    if digest or "near" in case.get("judge", ()):
        c = {k: v for k, v in c.items() if k not in ("w", "mul", "bias", "thr")}
    return dict(cfg=c, judge=case.get("judge", JUDGE_ALL), steps=steps)


# --------------------------------------------------------------------------
# Generators

def rbits(rng, rows, channels, p=None):
    """rows x channels random bits, packed; p: probability of a one bit."""
    words = ceildiv(channels, 32)
    res = []
    mode = rng.random()
    if p is None:
        p = 0.5 if mode < 0.7 else rng.choice([0.05, 0.95, 0.0, 1.0, 0.25, 0.75])
    for _ in range(rows):
        for h in range(2 * words):
            v = 0
            for b in range(16):
                if 16 * h + b < channels and rng.random() < p:
                    v |= 1 << b
            res.append(v)
    return res


SCALES = [(1, 4), (1, 2), (1, 1), (2, 1), (4, 1), (8, 1), (1, 8)]


def out_size(pad, size, f, stride, dil):
    eff = (f - 1) * dil + 1
    return ceildiv(size, stride) if pad == 0 else ceildiv(size - eff + 1, stride)


def conv_work(cfg, s):
    oh = out_size(cfg["o"]["pad"], s[1], cfg["ws"][1], cfg["o"]["sh"], cfg["o"]["dh"])
    ow = out_size(cfg["o"]["pad"], s[2], cfg["ws"][2], cfg["o"]["sw"], cfg["o"]["dw"])
    return s[0] * oh * ow * cfg["ws"][0] * cfg["ws"][1] * cfg["ws"][2] * 2 * cfg["ws"][3]


def rshape(rng, c, minhw=None, budget=4000):
    """An input shape for conv/pool config c that gives a non-empty output."""
    o = c["o"]
    if c["op"] == "bconv":
        fh, fw, dh, dw, ch = c["ws"][1], c["ws"][2], o["dh"], o["dw"], ceildiv(o["cin"], 32)
    else:
        fh, fw, dh, dw, ch = o["fh"], o["fw"], 1, 1, c["_words"]
    effh, effw = (fh - 1) * dh + 1, (fw - 1) * dw + 1
    for attempt in range(60):
        n = rng.choice([1, 1, 1, 2, 3])
        lo_h = effh if o["pad"] == 1 or (minhw == "image") else 1
        lo_w = effw if o["pad"] == 1 or (minhw == "image") else 1
        if o["pad"] == 0 and minhw is None:
            # mostly images at least as large as the filter, sometimes smaller
            if rng.random() < 0.75:
                lo_h, lo_w = effh, effw
        s = [n, lo_h + rng.choice([0, 0, 1, 2, 3, 4]), lo_w + rng.choice([0, 0, 1, 2, 3, 4, 5]), ch]
        if c["op"] == "pool" or conv_work(c, s) <= budget:
            return s
    return [1, max(lo_h, 1), max(lo_w, 1), ch]


def conv_case(rng, ot=None, pad=None, pv=None, act=None, groups=None, kernels=None, budget=4000,
              cin=None, co=None, resize=False, nsteps=1, scheds=None, sat=False, filt=None, stride=None, dil=None, extreme=False):
    ot = ot or rng.choice(["f32", "f32", "i8", "i32"])
    pad = rng.choice([0, 1]) if pad is None else pad
    pv = (1 if pad == 0 else rng.choice([0, 1])) if pv is None else pv
    act = (rng.choice([0, 0, 1, 2, 3]) if pv == 1 or pad == 1 else 0) if act is None else act
    kernels = kernels or ["ref", "bgemm", "ind"]
    for attempt in range(200):
        fh, fw = filt or (rng.choice([1, 1, 2, 3, 3, 4, 5]), rng.choice([1, 1, 2, 3, 3, 4, 5]))
        sh, sw = stride or (rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 3]))
        dh, dw = dil or (rng.choice([1, 1, 1, 2, 3]), rng.choice([1, 1, 1, 2, 3]))
        g = groups or 1
        if g > 1:
            ci = 32 * g * rng.choice([1, 1, 2, 3, 4, 5, 6, 8])
            o_ch = g * rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 20])
            if co and co % g == 0:
                o_ch = co
        else:
            ci = cin or rng.choice([1, 2, 4, 16, 20, 31, 32, 33, 48, 63, 64, 64, 65, 96, 100, 128, 130, 160, 192, 256])
            o_ch = co or rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 20, 31, 32, 33, 36, 40, 64, 65])
        if pad == 0 and pv == 0 and ci % 2 and not cin and rng.random() < 0.8:
            ci += 1
        wpg = ceildiv(ci, 32) // g
        cfg = dict(op="bconv", kernels=kernels, missing=[], o=dict(sh=sh, sw=sw, dh=dh, dw=dw, pad=pad, pv=pv, cin=ci, act=act),
                   ws=[o_ch, fh, fw, wpg], ot=ot, it="i32", affine=ot == "i8", dyn=False, nout=1)
        s = rshape(rng, cfg, budget=budget)
        if conv_work(cfg, s) <= budget:
            break
    else:
        return conv_case(rng, ot, pad, pv, act, groups, kernels, budget, cin, co, resize, nsteps, scheds, sat, (1, 1), stride, (1, 1), extreme)
    case = dict(cfg=cfg)
    conv_consts(rng, case, sat, extreme)
    cfg["in"][0]["s"] = s
    case["shape0"] = s
    cfg["os"] = [0, 0, 0, 0]
    steps = []
    if scheds:
        steps.append(dict(e="sched", v=scheds[0]))
    steps += [dict(e="alloc")]
    for i in range(nsteps):
        if scheds and i:
            steps.append(dict(e="sched", v=scheds[i % len(scheds)]))
        if i == 0 or not scheds:
            steps.append(dict(e="feed", x=rbits(rng, prod(s[:3]), cfg["o"]["cin"])))
        steps.append(dict(e="invoke", fill=rng.randrange(256)))
    case["steps"] = steps
    return case


def conv_consts(rng, case, sat=False, extreme=False):
    c = case["cfg"]
    o, ws, ot = c["o"], c["ws"], c["ot"]
    co, g = ws[0], ceildiv(o["cin"], 32) // ws[3]
    gcin = o["cin"] // g
    K = ws[1] * ws[2] * gcin
    c["w"] = rbits(rng, co * ws[1] * ws[2], gcin)
    ms = rng.choice([0, 1, 2, 3])
    c["fs"] = 1 << ms
    if ot == "i8" and not sat:
        # spread results over the int8 range
        c["mul"] = [rng.choice([-1, 1]) * rng.choice([1, 1, 2, 3, 5]) for _ in range(co)]
    else:
        c["mul"] = [rng.choice([-1, 1, 1]) * rng.randrange(0, 17) for _ in range(co)]
    c["bias"] = [rng.randrange(-200, 201) for _ in range(co)]
    if ot == "i8":
        mag = max(1, K // (60 if not sat else 6) + 1)
        p = 1
        while p < mag:
            p *= 2
        sc = rng.choice([Fraction(p), Fraction(p, 2), Fraction(p, 4), Fraction(p * 2)])
    else:
        sc = Fraction(1)
    case["scale"] = [sc.numerator, sc.denominator]
    case["ozp"] = c["zp"] = rng.choice([0, 0, -128, 127, 3, -7, 50]) if ot == "i8" else 0
    if extreme:
        # scaled values far beyond int8 and int16, both signs; exact in float
        # (below 2^24) and within 32 bits in the specification
        top = max(2, (1 << 22) // max(1, K))
        c["mul"] = [rng.choice([-1, 1]) * rng.randrange(max(1, top // 8), top) for _ in range(co)]
        c["bias"] = [rng.randrange(-300000, 300001) for _ in range(co)]
        sc = Fraction(1, rng.choice([1, 2, 4, 16, 64]))
        c["fs"] = rng.choice([1, 1, 2])
        case["scale"] = [sc.numerator, sc.denominator]
    q = 1 / (sc * c["fs"])
    c["qn"], c["qd"] = q.numerator, q.denominator
    thr = []
    for _ in range(co):
        r = rng.random()
        if r < 0.75:
            thr.append(max(-1, min(K, K // 2 + rng.randrange(-max(2, K // 8), max(3, K // 8)))))
        elif r < 0.9:
            thr.append(rng.randrange(-1, K + 1))
        else:
            thr.append(rng.choice([-2147483647, 2147483646, -1, 0, K, K - 1, -5, 2147483647]))
    c["thr"] = thr
    case["absent"] = rng.random() < 0.4
    c["in"] = [dict(t="i32", s=[]), dict(t="i32", s=ws), dict(t="f32", s=[co]), dict(t="f32", s=[co]),
               dict(t="i32", s=[co])]
    case["const"] = [
        (1, hexs(bytes_of_halves(c["w"]))),
        (2, hexs(b"".join(f32(m / c["fs"]) for m in c["mul"]))),
        (3, hexs(b"".join(f32(m / c["fs"]) for m in c["bias"]))),
        (4, hexs(b"".join(struct.pack("<i", t) for t in thr)))]
    case["opts"] = [("stride_height", o["sh"]), ("stride_width", o["sw"]), ("dilation_height_factor", o["dh"]),
                    ("dilation_width_factor", o["dw"]), ("padding", o["pad"]), ("pad_values", o["pv"]),
                    ("channels_in", o["cin"]), ("fused_activation_function", o["act"])]


def pool_case(rng, nsteps=1, shape=None):
    while True:
        o = dict(fh=rng.choice([1, 2, 2, 3, 4, 5]), fw=rng.choice([1, 2, 2, 3, 4, 5]), sh=rng.choice([1, 1, 2, 3, 4]),
                 sw=rng.choice([1, 1, 2, 3, 4]), pad=rng.choice([0, 1]))
        words = rng.choice([1, 1, 2, 3, 4, 5])
        cfg = dict(op="pool", kernels=["pool"], missing=[], o=o, ot="i32", it="i32", affine=False, dyn=False, nout=1, _words=words)
        s = shape or rshape(rng, cfg)
        if s[0] * s[1] * s[2] <= 150:
            break
    del cfg["_words"]
    cfg["in"] = [dict(t="i32", s=s)]
    cfg["os"] = [0, 0, 0, 0]
    case = dict(cfg=cfg, shape0=s, const=[], opts=[("filter_height", o["fh"]), ("filter_width", o["fw"]),
                ("stride_height", o["sh"]), ("stride_width", o["sw"]), ("padding", o["pad"])])
    case["steps"] = [dict(e="alloc")]
    for _ in range(nsteps):
        case["steps"] += [dict(e="feed", x=pool_data(rng, s)), dict(e="invoke", fill=rng.randrange(256))]
    return case


def pool_data(rng, s):
    ch = rng.choice([32 * s[3], 32 * s[3], 32 * s[3] - rng.randrange(0, 32)])
    return rbits(rng, prod(s[:3]), ch, p=rng.choice([0.5, 0.7, 0.85, 0.95]))


def rvec_shape(rng, maxel=600, rank=None):
    rank = rank or rng.choice([1, 2, 3, 4, 4, 4, 5])
    ch = rng.choice([1, 2, 5, 15, 16, 17, 31, 32, 33, 47, 63, 64, 65, 95, 96, 97, 127, 128, 129, 160, 192, 255, 256, 257, rng.randrange(1, 300)])
    s = [rng.choice([1, 1, 2, 3, 4]) for _ in range(rank - 1)] + [ch]
    while prod(s) > maxel and rank > 1:
        i = max(range(rank - 1), key=lambda j: s[j])
        if s[i] == 1:
            break
        s[i] -= 1
    return s


def quant_vals(rng, it, izp, n):
    if it == "f32":
        special = [0, 0, 0, 0x7F800001, 0x7FC00000, 0x7FFFFFFF, 1, -1, 0x7F800000, -0x7F800000, 0x00800000, -0x00800000, 0x3F800000, -0x3F800000, 0x7F7FFFFF, -0x7F7FFFFF]
        return [rng.choice(special) if rng.random() < 0.3 else rng.choice([-1, 1]) * rng.randrange(0, 0x7F800000) for _ in range(n)]
    if it == "bool":
        return [rng.randrange(2) for _ in range(n)]
    near = [max(-128, min(127, izp + d)) for d in (-1, 0, 1)] + [-128, 127]
    return [rng.choice(near) if rng.random() < 0.6 else rng.randrange(-128, 128) for _ in range(n)]


def quant_case(rng, nsteps=1, it=None, s=None):
    it = it or rng.choice(["f32", "i8", "i8", "bool"])
    s = s or rvec_shape(rng)
    izp = rng.choice([0, -128, 127, 1, -1, rng.randrange(-128, 128)]) if it == "i8" else 0
    cfg = dict(op="quant", kernels=["op"], missing=[], o=dict(x=0), ot="i32", it=it, affine=False, dyn=False, nout=1,
               izp=izp, os=[0] * len(s), fs=1)
    cfg["in"] = [dict(t=it, s=s)]
    case = dict(cfg=cfg, shape0=s, const=[], opts=[], rawopt="", steps=[dict(e="alloc")])
    for _ in range(nsteps):
        case["steps"] += [dict(e="feed", x=quant_vals(rng, it, izp, prod(s))), dict(e="invoke", fill=rng.randrange(256))]
    return case


def dequant_case(rng, nsteps=1, ot=None, os=None):
    ot = ot or rng.choice(["f32", "i8", "i8", "bool"])
    os = os or rvec_shape(rng)
    s = os[:-1] + [ceildiv(os[-1], 32)]
    sc = Fraction(1)
    zp = 0
    if ot == "i8":
        sc = rng.choice([Fraction(1), Fraction(1, 2), Fraction(1, 4), Fraction(1, 64), Fraction(1, 128), Fraction(1, 256), Fraction(3), Fraction(2), Fraction(3, 2),
                         Fraction(5, 64), Fraction(3, 128), Fraction(1, 127), Fraction(1, 100)])
        zp = rng.choice([0, 0, -128, 127, 1, -1, 100, -100, rng.randrange(-128, 128)])
    q = 1 / sc
    cfg = dict(op="dequant", kernels=["op"], missing=[], o=dict(x=0), ot=ot, it="i32", affine=ot == "i8", dyn=False, nout=1,
               os=os, fs=1, ozp=zp, qn=q.numerator, qd=q.denominator)
    cfg["in"] = [dict(t="i32", s=s)]
    case = dict(cfg=cfg, shape0=s, const=[], opts=[], scale=[sc.numerator, sc.denominator], ozp=zp, steps=[dict(e="alloc")])
    for _ in range(nsteps):
        case["steps"] += [dict(e="feed", x=rbits(rng, prod(s[:-1]), 32 * s[-1] if rng.random() < 0.5 else os[-1])), dict(e="invoke", fill=rng.randrange(256))]
    return case


KARGS["pool"] = KARGS["op"] = ("0", "0")
