"""Networks of LCE ops for spec/NetworkTrace: generation, and projection of the
recorded predictions."""
import hashlib, struct
import opgen
from opgen import prod, ceildiv

CODE = {"f32": 1, "i32": 2, "bool": 6, "i8": 9}
NP = {"f32": "<f4", "i32": "<i4", "bool": "|b1", "i8": "|i1"}


class Net:
    def __init__(self, rng, kernel):
        self.rng, self.kernel = rng, kernel
        self.T, self.nodes, self.defs, self.live = [], [], [], []

    def tensor(self, ty, s, ch=None, zp=0, scale=None, data=None, dyn=False):
        t = dict(type=CODE[ty], s=list(s), n="t%d" % len(self.T), q=None)
        if ty == "i8":
            t["q"] = dict(scales=[float(scale)], zps=[zp])
        if data is not None:
            t["d"] = data
        if dyn:
            t["dyn"] = True
        self.T.append(t)
        return dict(id=len(self.T) - 1, ty=ty, s=list(s), ch=ch if ch is not None else s[-1], zp=zp, scale=scale, dyn=dyn, read=False)

    def add(self, op, case, src, dst, consts=()):
        opts = ";".join("%s=%d" % kv for kv in case.get("opts", []) if kv[0] not in case["cfg"]["missing"])
        ins = [t["id"] for t in src] + list(consts)
        self.defs.append(dict(op=op, custom=True, opts=opts, **{"in": ins, "out": [t["id"] for t in dst]}))
        self.nodes.append(dict(cfg=case["cfg"], src=[t["id"] + 1 for t in src], dst=[t["id"] + 1 for t in dst], _case=case))
        for t in src:
            t["read"] = True
        self.live += dst

    def other(self):
        r = self.rng
        src = r.sample(self.live, min(len(self.live), r.choice([1, 1, 2])))
        a = src[0]
        dst = self.tensor(a["ty"], a["s"], a["ch"], a["zp"], a["scale"])
        if dst["ty"] == "i32":
            return
        self.defs.append(dict(op="TEST", custom=False, **{"in": [t["id"] for t in src], "out": [dst["id"]]}))
        self.nodes.append(dict(cfg=dict(op="other"), src=[t["id"] + 1 for t in src], dst=[dst["id"] + 1], _case=None))
        for t in src:
            t["read"] = True
        self.live.append(dst)

    def quant(self, t):
        case = opgen.quant_case(self.rng, it=t["ty"], s=t["s"])
        case["cfg"]["izp"] = t["zp"]
        y = self.tensor("i32", t["s"][:-1] + [ceildiv(t["s"][-1], 32)], ch=t["s"][-1])
        self.add("LceQuantize", case, [t], [y])

    def dequant(self, t):
        case = opgen.dequant_case(self.rng, os=t["s"][:-1] + [t["ch"]])
        c = case["cfg"]
        if self.rng.random() < 0.03:      # wrong channel count
            c["os"] = c["os"][:-1] + [32 * t["s"][-1] + 1]
        from fractions import Fraction
        y = self.tensor(c["ot"], c["os"], zp=case["ozp"], scale=Fraction(*case["scale"]))
        self.add("LceDequantize", case, [t], [y])

    def pool(self, t):
        case = opgen.pool_case(self.rng, shape=t["s"])
        c = case["cfg"]
        o = c["o"]
        oh, ow = (opgen.out_size(o["pad"], t["s"][1], o["fh"], o["sh"], 1), opgen.out_size(o["pad"], t["s"][2], o["fw"], o["sw"], 1))
        if oh < 1 or ow < 1:
            return
        y = self.tensor("i32", [t["s"][0], oh, ow, t["s"][3]], ch=t["ch"])
        self.add("LceBMaxPool2d", case, [t], [y])

    def conv(self, t, budget=1500):
        r = self.rng
        ci = t["ch"]
        for _ in range(50):
            g = 1
            if ci % 64 == 0 and r.random() < (0.3 if self.kernel != "bgemm" else 0.05):
                g = r.choice([x for x in (2, 4, 8) if ci % (32 * x) == 0])
            co = g * r.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 20, 31, 32, 33, 36, 64, 65] if g == 1 else [1, 2, 4, 8, 16, 17])
            fh, fw = r.choice([1, 1, 2, 3, 3, 4]), r.choice([1, 1, 2, 3, 3, 4])
            sh, sw, dh, dw = r.choice([1, 1, 2]), r.choice([1, 1, 2]), r.choice([1, 1, 1, 2]), r.choice([1, 1, 1, 2])
            pad = r.choice([0, 0, 1])
            pv = r.choice([0, 1])
            ot = r.choice(["f32", "i8", "i32", "i32"])
            act = r.choice([0, 0, 1, 2, 3])
            if pad == 0 and pv == 0 and r.random() < 0.93:       # keep most networks acceptable
                if self.kernel in ("ref", "both"):
                    if ci % 2:
                        pv = 1
                else:
                    ot, act = "f32", 0
            cfg = dict(op="bconv", kernels=[self.kernel], missing=[], o=dict(sh=sh, sw=sw, dh=dh, dw=dw, pad=pad, pv=pv, cin=ci, act=act),
                       ws=[co, fh, fw, ceildiv(ci, 32) // g], ot=ot, it="i32", affine=ot == "i8", dyn=t["dyn"], nout=1)
            oh, ow = opgen.out_size(pad, t["s"][1], fh, sh, dh), opgen.out_size(pad, t["s"][2], fw, sw, dw)
            if oh >= 1 and ow >= 1 and opgen.conv_work(cfg, t["s"]) <= budget:
                break
        else:
            return
        case = dict(cfg=cfg)
        opgen.conv_consts(r, case)
        cfg["in"][0]["s"] = t["s"]
        cfg["os"] = [0] * 4
        if r.random() < 0.01:
            cfg["missing"] = [r.choice(case["opts"])[0]]
        consts = []
        for j, hx in case["const"]:
            unused = j == 4 if ot != "i32" else j in (2, 3)
            if unused and r.random() < 0.7:
                consts.append(-1)
                continue
            consts.append(self.tensor(cfg["in"][j]["t"], cfg["in"][j]["s"], data=hx)["id"])
        from fractions import Fraction
        y = self.tensor(ot, [t["s"][0], oh, ow, ceildiv(co, 32) if ot == "i32" else co], ch=co, zp=case["ozp"], scale=Fraction(*case["scale"]),
                        dyn=r.random() < 0.01)
        self.add("LceBconv2d", case, [t], [y], consts)


def case(rng):
    kernel = rng.choice(["ref", "ind", "bgemm", "bgemm", "both"])
    n = Net(rng, kernel)
    ins = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        ty = rng.choice(["f32", "f32", "f32", "i8", "bool", "i32"])
        ch = rng.choice([1, 3, 4, 17, 32, 33, 64, 64, 70, 96, 128])
        s = [1, rng.randrange(1, 7), rng.randrange(1, 7), ch] if rng.random() < 0.9 or ty == "i32" else [1, ch]
        while ty != "i32" and prod(s) > 1500:
            s[1] = max(1, s[1] - 1)
            s[2] = max(1, s[2] - 1)
        from fractions import Fraction
        if ty == "i32":
            s[3] = ceildiv(ch, 32)
        t = n.tensor(ty, s, ch=ch, zp=rng.choice([0, -128, 127, 5]) if ty == "i8" else 0, scale=Fraction(1, 4), dyn=rng.random() < 0.02)
        ins.append(t)
        n.live.append(t)
    want = rng.choice([1, 2, 3, 4, 5, 6])
    for _ in range(4 * want):
        if len(n.nodes) >= want:
            break
        t = n.live[-1] if rng.random() < 0.7 else rng.choice(n.live)
        if rng.random() < 0.08:
            n.other()
        elif t["ty"] != "i32":
            n.quant(t)
        elif len(t["s"]) == 4:
            z = rng.random()
            n.conv(t) if z < 0.65 else n.pool(t) if z < 0.82 else n.dequant(t)
        else:
            n.dequant(t)
    if not n.nodes:
        return case(rng)
    outs = [t for t in n.live if not t["read"] and t not in ins]
    outs += [t for t in n.live if t["read"] and t not in ins and rng.random() < 0.15]
    rng.shuffle(outs)
    ids = lambda v: [t["id"] for t in v]
    calls = []
    for _ in range(rng.choice([1, 1, 2])):
        k = rng.choice([1, 1, 2, 3])
        arrays = []
        for t in ins:
            b = b""
            for _ in range(k):
                if t["ty"] == "i32":
                    b += opgen.bytes_of_halves(opgen.rbits(rng, prod(t["s"][:-1]), t["ch"]))
                else:
                    v = opgen.quant_vals(rng, t["ty"], t["zp"], prod(t["s"]))
                    b += opgen.enc_in(dict(cfg=dict(it=t["ty"])), v)
            arrays.append(dict(t=NP[t["ty"]], s=[k] + t["s"][1:], d=b.hex(), layout=rng.choice(["C", "F", "off"])))
        calls.append(dict(form="list" if len(ins) > 1 or rng.random() < 0.5 else "array", arrays=arrays))
    opts = dict(args=[], kw=dict(num_threads=rng.choice([1, 2, 4]), use_reference_bconv=kernel in ("ref", "both"), use_indirect_bgemm=kernel in ("ind", "both"),
                                 use_xnnpack=rng.random() < 0.5))
    return dict(kind="predict", model=dict(tensors=n.T, nodes=n.defs, inputs=ids(ins), outputs=ids(outs)), opts=opts, meta=True, calls=calls,
                net=dict(kernel=kernel, nodes=n.nodes, ins=[i + 1 for i in ids(ins)], outs=[i + 1 for i in ids(outs)]))


def tok(hx):
    return hashlib.sha256(hx.encode()).hexdigest()[:16] if hx else "void"


def dec_in(cfg, hx):
    b = bytes.fromhex(hx)
    t = cfg["it"]
    if t == "i32":
        return opgen.halves_of_bytes(b)
    if t == "i8":
        return list(struct.unpack("<%db" % len(b), b))
    if t == "bool":
        return list(b)
    # a NaN is not negative, whatever its sign bit
    return [0x7FC00000 if v & 0x7FFFFFFF > 0x7F800000 else opgen.order_int(v) for (v,) in struct.iter_unpack("<I", b)]


def history(c, r):
    net = dict(c["net"], nodes=[{k: v for k, v in n.items() if k != "_case"} for n in c["net"]["nodes"]])
    steps = []
    if r is None:
        r = dict(built=False, calls=[])
        steps.append(dict(e="died"))
    else:
        steps.append(dict(e="built", ok=r["built"], shapes=r["meta"].get("output_shapes", []) if r["built"] else []))
    for call in r["calls"]:
        k = 0
        for ev in call["log"]:
            if ev["e"] == "begin":
                fed = [tok(a["d"]) for a in call["samples"][k]] if k < len(call["samples"]) else []
                k += 1
                steps.append(dict(e="begin", x=[tok(h) for h in ev["x"]], fed=fed))
            elif ev["e"] == "node":
                n = c["net"]["nodes"][ev["k"]]
                lce = n["_case"] is not None
                ns = len(n["src"])
                steps.append(dict(e="node", k=ev["k"] + 1, ok=ev["ok"], guards=ev["guards"], x=[tok(h) for h in ev["x"][:ns]], y=[tok(h) for h in ev["y"]],
                                  xv=dec_in(n["cfg"], ev["x"][0]) if lce else [], yv=opgen.dec_out(n["_case"], ev["y"][0]) if lce else []))
            else:
                steps.append(dict(e="end", y=[tok(h) for h in ev["y"]]))
        steps.append(dict(e="result", err=call["err"], res=[[tok(h) for h in x["rows"]] for x in call["res"]]))
    return dict(net=net, tensors=len(c["model"]["tensors"]), steps=steps)


def brief(c):
    return dict(kernel=c["net"]["kernel"], inputs=[c["model"]["tensors"][i]["s"] for i in c["model"]["inputs"]],
                nodes=[dict(op=n["cfg"]["op"], ot=n["cfg"].get("ot"), o=n["cfg"].get("o"), ws=n["cfg"].get("ws")) for n in c["net"]["nodes"]],
                samples=[len(x["arrays"][0]["d"]) for x in c["calls"]])
