"""Generators of modules for the converter's passes."""
from mlirgraph import *

SC = 1024  # scale of reals
ACTS = ["NONE", "RELU", "RELU_N1_TO_1", "RELU6"]


def out1(pad, n, f, s, d):
    e = (f - 1) * d + 1
    return (n + s - 1) // s if pad == "SAME" else max(0, (n - e + s) // s)


def same_total(n, f, s, d):
    return max(0, (out1("SAME", n, f, s, d) - 1) * s + (f - 1) * d + 1 - n)


def pick(rng, *w):
    """pick(rng, (weight, value), ...)"""
    r = rng.uniform(0, sum(x[0] for x in w))
    for p, v in w:
        r -= p
        if r <= 0:
            return v
    return w[-1][1]


def quarter(rng, lo=-4, hi=4):
    return rng.randint(lo * 4, hi * 4) / 4


def fvals(rng, n):
    """Sample contents, scaled: signs, zeros, small and larger values."""
    return [rng.choice([0, 1, -1, SC, -SC, rng.randint(-4 * SC, 4 * SC), rng.randint(-20, 20) * 256]) for _ in range(n)]


def ivals(rng, n):
    return [rng.choice([0, -1, rng.randint(-2**31, 2**31 - 1), rng.randint(-40, 40)]) for _ in range(n)]


def packed_vals(rng, d, ch):
    """Packed tensors: the unused bits of each row are zero."""
    w = d[-1]
    out = []
    for _ in range(size(d[:-1])):
        for j in range(w):
            bits = min(32, ch - 32 * j)
            v = rng.getrandbits(bits)
            out.append(v - (1 << 32) if v >= 1 << 31 else v)
    return out


def sample(rng, m, chans):
    """Contents for every argument. chans: channel counts of packed arguments."""
    xs = []
    for (n, (d, e)) in m.args:
        k = size(d)
        if e == F32:
            xs.append(fvals(rng, k))
        elif e == "i32" and n in chans:
            xs.append(packed_vals(rng, d, chans[n]))
        elif e == "i1":
            xs.append([rng.randint(0, 1) for _ in range(k)])
        elif e.startswith("!quant"):
            xs.append([rng.randint(-128, 127) for _ in range(k)])
        else:
            xs.append([rng.randint(-50, 50) for _ in range(k)])
    return xs


def finish(rng, m, passes, rets, nx=2, chans={}, S=SC, **kw):
    text = m.ret(rets)
    return dict(passes=passes, text=text, S=S, xs=[sample(rng, m, chans) for _ in range(nx)], **kw)


# ---- filters -----------------------------------------------------------------
def binary_filter(rng, fs, kind):
    """HWIO weights: exactly binary, nearly, or not."""
    fh, fw, ci, co = fs
    n = size(fs)
    mag = [rng.choice([1, 1, 0.5, 0.25, 2]) for _ in range(co)]
    w = [rng.choice([1, -1]) * mag[i % co] for i in range(n)]
    if kind == "near":        # within half a percent
        for i in range(n):
            w[i] += rng.choice([0, 0, 4, -4, 2, -5, 5]) / 1024 * mag[i % co] * 0.75 if i >= co else 0
        w = [round(x * SC) / SC for x in w]
        for c in range(co):
            for i in range(c, n, co):
                if abs(abs(w[i]) - abs(w[c])) * 200 > abs(w[c]) * 0.95:
                    w[i] = abs(w[c]) * (1 if w[i] > 0 else -1)
    elif kind == "off" and n > co:     # one weight 1.5 % or more away
        i = rng.randrange(co, n)
        w[i] = (abs(w[i % co]) + rng.choice([16, -16, 128, -100]) / 1024) * (1 if w[i] > 0 else -1)
    elif kind == "zero":      # a zero weight
        w[rng.randrange(n)] = 0.0
    elif kind == "zeros":     # an all-zero channel
        c = rng.randrange(co)
        for i in range(c, n, co):
            w[i] = 0.0
    return w


def geometry(rng, big=False):
    pad = rng.choice(["SAME", "VALID"])
    while True:
        h, w = rng.randint(1, 6), rng.randint(1, 6)
        fh, fw = rng.choice([1, 1, 2, 3, 3, 4]), rng.choice([1, 1, 2, 3, 3, 4])
        sh, sw = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 3])
        dh, dw = rng.choice([1, 1, 1, 2]), rng.choice([1, 1, 1, 2])
        if rng.random() < 0.5:
            sw, dw = sh, dh
        oh, ow = out1(pad, h, fh, sh, dh), out1(pad, w, fw, sw, dw)
        if oh > 0 and ow > 0 and oh * ow * fh * fw <= (120 if big else 60):
            return pad, h, w, fh, fw, sh, sw, dh, dw


def channels(rng):
    """(input channels, filter input channels, output channels)"""
    k = pick(rng, (6, "s"), (1, "w"), (1, "g"), (0.6, "badg"))
    if k == "s":
        c = rng.choice([1, 2, 3, 4, 5])
        return c, c, rng.choice([1, 2, 3, 4])
    if k == "w":
        c = rng.choice([31, 32, 33, 40])
        return c, c, rng.choice([1, 2])
    if k == "g":
        return 64, 32, rng.choice([2, 4])
    c, f = rng.choice([(4, 2), (6, 3), (32, 16), (48, 16), (9, 3)])
    return c, f, (c // f) * rng.choice([1, 2])


# ---- preparation ---------------------------------------------------------------
def broadcast_drop(rng, d):
    """A shape that broadcasts to d."""
    e = [1 if rng.random() < 0.4 else x for x in d]
    return e[rng.randint(0, len(e)):] if rng.random() < 0.3 else e


def quantizer(rng, m, x, d, chans):
    """A value of shape d; usually a recognisable sign of x."""
    t = (tuple(d), F32)
    k = pick(rng, (5, "select"), (1.5, "bselect"), (1.2, "oddselect"), (2, "sign"), (1.2, "oddsign"), (2, "lq"), (2, "packed"), (1, "plain"))
    if k == "packed":
        p = m.arg(list(d[:-1]) + [(d[-1] + 31) // 32], "i32")
        chans[p[0]] = d[-1]
        return m.op("lq.Dequantize", [p], t)
    if k == "lq":
        q = m.op("lq.Quantize", [x], (tuple(d[:-1]) + ((d[-1] + 31) // 32,), "i32"))
        return m.op("lq.Dequantize", [q], t)
    if k == "plain":
        return x
    if k in ("sign", "oddsign"):
        s = m.op("tf.Sign", [x], t)
        vals = [0.125, 0.0625, 0.5, 0.25]
        cd = rng.choice([[], [], [], [1], [d[-1]], list(d)])
        cv = [rng.choice(vals)]
        if k == "sign":
            cd = []
        else:
            cv = rng.choice([[1.0], [1.5], [-0.125], [0.0], [-1.0], [2.0], [rng.choice(vals)]])
            if rng.random() < 0.4 and size(cd) > 1:
                cv = [rng.choice([0.125, 0.25, -0.25, 0.0, 1.0, 0.125]) for _ in range(size(cd))]
        c = m.arg(cd) if k == "oddsign" and rng.random() < 0.3 else m.const(cd, cv)
        ins = [s, c] if rng.random() < 0.5 else [c, s]
        return m.op("tf.Sign", [m.op("tf.AddV2", ins, t)], t)
    # where(...)
    cd = list(d)
    if k == "bselect":
        cd = broadcast_drop(rng, d)
    cmp = rng.choice(["tf.GreaterEqual", "tf.LessEqual"])
    th = rng.choice([0.0, 0.0, 0.0, 0.5, -1.25])
    how = rng.choice(["cmp", "cmp", "cmp", "arg", "not"])
    ct = (tuple(cd), "i1")
    if how == "arg":
        cond = m.arg(cd, "i1")
    else:
        y = x if cd == list(d) else m.arg(cd)
        td = rng.choice([[], [], [1], list(cd)[-1:] if cd else []])
        if len(td) > len(cd):
            td = []
        tc = m.const(td, [th])
        cond = m.op(cmp, [y, tc] if rng.random() < 0.7 else [tc, y], ct)
        if how == "not":
            cond = m.op("tf.LogicalNot", [cond], ct)
    a, b = rng.choice([(1.0, -1.0), (1.0, -1.0), (-1.0, 1.0)])
    sel = rng.choice(["tf.Select", "tf.SelectV2"]) if cd == list(d) else "tf.SelectV2"
    if k == "oddselect":
        a, b = rng.choice([(1.0, 1.0), (1.0, 0.0), (2.0, -2.0), (1.0, -1.00390625), (0.0, -1.0), (-1.0, -1.0), (1.0, -0.5)])
    # with a smaller condition the branches give the shape
    full = list(d)
    kd = full if (cd != full or rng.random() < 0.5) and not (cd == full and sel == "tf.SelectV2" and rng.random() < 0.5) else []
    if sel == "tf.Select":
        kd = full
    va, vb = [a], [b]
    if k == "oddselect" and size(kd) > 1 and rng.random() < 0.4:   # not splat
        va = [1.0] * size(kd)
        va[rng.randrange(len(va))] = rng.choice([-1.0, 0.5, 2.0])
        vb = [-1.0]
    return m.op(sel, [cond, m.const(kd, va), m.const(kd if rng.random() < 0.8 or sel == "tf.Select" or (cd != full) else [], vb)], t)


def paddings(rng, n, f, s, d, exact):
    """(before, after), sometimes what SAME would add, sometimes near it."""
    t = same_total(n, f, s, d)
    b, a = t // 2, t - t // 2
    if not exact:
        k = rng.choice(["swap", "more", "sym", "any", "more2"])
        if k == "swap":
            a, b = b, a
        elif k == "more":
            a += 1
        elif k == "more2":
            a, b = a + 1, b + 1
        elif k == "sym":
            b = a = (f - 1) * d // 2
        else:
            a, b = rng.randint(0, 3), rng.randint(0, 3)
    return b, a


def gen_prepare(rng, deep=False):
    m = Mod()
    chans = {}
    pad, h, w, fh, fw, sh, sw, dh, dw = geometry(rng, deep)
    ci, fi, co = channels(rng)
    if ci > 8:
        h, w = min(h, 3), min(w, 3)
        fh, fw = min(fh, 2), min(fw, 2)
        dh = dw = 1
        if out1(pad, h, fh, sh, dh) < 1 or out1(pad, w, fw, sw, dw) < 1:
            pad = "SAME"
    n = rng.choice([1, 1, 1, 2])
    d = [n, h, w, ci]
    x = m.arg(d)
    b = quantizer(rng, m, x, d, chans)
    rets = []
    if rng.random() < 0.15:
        rets.append(b)
    c = b
    cd = d
    if rng.random() < 0.4:
        pt = paddings(rng, h, fh, sh, dh, rng.random() < 0.55)
        pl = paddings(rng, w, fw, sw, dw, rng.random() < 0.7)
        pb, pc = ((0, 0), (0, 0)) if rng.random() < 0.93 else rng.choice([((1, 0), (0, 0)), ((0, 1), (0, 0))])
        if co % 2 == 0 and fi == ci and rng.random() < 0.12:
            pc = rng.choice([(ci, 0), (0, ci)])
        p = [pb[0], pb[1], pt[0], pt[1], pl[0], pl[1], pc[0], pc[1]]
        cd = [d[0] + sum(pb), h + sum(pt), w + sum(pl), ci + sum(pc)]
        if out1("VALID", cd[1], fh, sh, dh) > 0 and out1("VALID", cd[2], fw, sw, dw) > 0:
            pad = "VALID" if rng.random() < 0.9 else "SAME"
            pc_ = m.const([4, 2], p, rng.choice(["i32", "i32", "i32", "i64"]))
            if rng.random() < 0.15:
                c = m.op("tf.Pad", [b, pc_], (tuple(cd), F32))
            else:
                c = m.op("tf.PadV2", [b, pc_, m.const(rng.choice([[], [], [1]]), [rng.choice([1.0, 1.0, 1.0, 0.0, -1.0, 0.5])])], (tuple(cd), F32))
        else:
            cd = d
    if out1(pad, cd[1], fh, sh, dh) < 1 or out1(pad, cd[2], fw, sw, dw) < 1:
        pad = "SAME"
    kind = pick(rng, (6, "exact"), (1.5, "near"), (1, "off"), (0.6, "zero"), (0.5, "zeros"))
    fs = [fh, fw, fi, co]
    wv = binary_filter(rng, fs, kind)
    f = m.const(fs, wv) if rng.random() < 0.96 else m.arg(fs)
    od = (cd[0], out1(pad, cd[1], fh, sh, dh), out1(pad, cd[2], fw, sw, dw), co)
    at_ = dict(padding=pad, strides=[1, sh, sw, 1])
    if (dh, dw) != (1, 1) or rng.random() < 0.5:
        at_["dilations"] = [1, dh, dw, 1]
    if rng.random() < 0.3:
        at_["data_format"] = "NHWC"
    if rng.random() < 0.3:
        at_["use_cudnn_on_gpu"] = rng.random() < 0.5
    y = m.op("tf.Conv2D", [c, f], (od, F32), **at_)
    r = y
    if rng.random() < 0.25:
        r = m.op("tf.AddV2", [r, m.const([co], [quarter(rng) for _ in range(co)])], (od, F32))
    if rng.random() < 0.2:
        r = m.op("tf.Relu", [r], (od, F32))
    rets.append(r)
    tgt = rng.choice(["arm", "arm", "xcore"])
    return finish(rng, m, ["tfl-prepare-lce{target=%s}" % tgt], rets, chans=chans)


# ---- binary convolutions -------------------------------------------------------
def weights(rng, n):
    return [rng.choice([1.0, -1.0]) for _ in range(n)]


def odd_weights(rng, n, zeros=True):
    """Weights of any magnitude: only their signs count."""
    z = [0.0, -0.0] if zeros else []
    return [rng.choice([1.0, -1.0, 0.25, -0.25, 3.5, -2.0] + z) for _ in range(n)]


class Conv:
    """An lq.Bconv2d with recorded parts."""

    def __init__(self, rng, m, chans, deep=False, x=None, filt="const", act=None, pad=None, thr=False, scale=1.0, plain=False, zeros=False):
        padding, h, w, fh, fw, sh, sw, dh, dw = geometry(rng, deep)
        ci, fi, co = channels(rng)
        while ci % fi or (ci != fi and fi % 32):
            ci, fi, co = channels(rng)
        n = rng.choice([1, 1, 2])
        if ci > 8:
            h, w, fh, fw, dh, dw = min(h, 3), min(w, 3), min(fh, 2), min(fw, 2), 1, 1
        if x is not None:
            (n, h, w, ci), fi = x[2], x[2][3]
        if pad:
            padding = pad
        if out1(padding, h, fh, sh, dh) < 1 or out1(padding, w, fw, sw, dw) < 1:
            padding = "SAME"
        self.pv = rng.choice([0, 1])
        self.act = act if act is not None else rng.choice(["NONE", "NONE", "NONE", "RELU", "RELU6", "RELU_N1_TO_1"])
        if padding == "SAME" and self.pv == 0:
            if rng.random() < 0.5:
                self.pv = 1
            else:
                self.act = "NONE"
        self.padding = padding
        P = (ci + 31) // 32
        if x is None:
            v = m.arg([n, h, w, P], "i32")
            chans[v[0]] = ci
        else:
            v = x[0]
        fs = (co, fh, fw, fi)
        self.co = co
        if filt == "const":
            self.f = m.const(fs, weights(rng, size(fs)) if rng.random() < 0.8 else odd_weights(rng, size(fs), zeros))
        elif filt == "arg":
            self.f = m.arg(fs)
        else:
            self.f = filt(fs)
        self.d = (n, out1(padding, h, fh, sh, dh), out1(padding, w, fw, sw, dw), co)
        if plain or rng.random() < 0.4:
            mul, bias = [1.0], [0.0]
        else:
            mul, bias = [quarter(rng, -2, 2) * scale for _ in range(co)], [quarter(rng) * scale for _ in range(co)]
            k = rng.random()
            if k < 0.2:
                mul = [1.0]
            elif k < 0.35:
                bias = [0.0]
        self.mul = m.const([co], mul) if rng.random() < 0.92 else m.arg([co])
        self.bias = m.const([co], bias) if rng.random() < 0.92 else m.arg([co])
        self.attrs = dict(channels_in=ci, dilation_height_factor=dh, dilation_width_factor=dw, fused_activation_function=self.act,
                          pad_values=self.pv, padding=padding, stride_height=sh, stride_width=sw)
        if not (self.pv == 0 and rng.random() < 0.2):
            pass
        self.t = (self.d, F32)
        self.v = m.op("lq.Bconv2d", [v, self.f, self.mul, self.bias, m.none()], self.t, **self.attrs)


def operand(rng, m, d, wide=0.25):
    """A constant (or argument) to combine with a value of shape d; returns (value, result shape)."""
    c = d[-1]
    k = pick(rng, (6, "chan"), (2, "scalar"), (1, "one"), (wide * 8, "odd"))
    if k == "chan":
        s = [c]
    elif k == "scalar":
        s = []
    elif k == "one":
        s = [1]
    else:
        s = rng.choice([[1, 1, 1, c], list(d), list(d)[1:], [1, 1, 1, 1], [d[2], c], [d[2], 1], [2 if d[0] == 1 else d[0], 1, 1, c],
                        [3 if c == 1 else c], [1] * 5])
    return s


def bshape(a, b):
    n = max(len(a), len(b))
    a, b = [1] * (n - len(a)) + list(a), [1] * (n - len(b)) + list(b)
    return tuple(x if y == 1 else y for x, y in zip(a, b))


def gen_optimize(rng, deep=False):
    m = Mod()
    chans = {}
    c = Conv(rng, m, chans, deep, filt="arg" if rng.random() < 0.12 else "const")
    v, d = c.v, c.d
    rets = []
    nx = 2

    def maybe_out():
        if rng.random() < 0.08:
            rets.append(v)
    maybe_out()
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3])):
        k = pick(rng, (5, "arith"), (3, "act"), (1, "pool"))
        if k == "arith":
            op = rng.choice(["tfl.add", "tfl.sub", "tfl.mul", "tfl.div"])
            s = operand(rng, m, d)
            nd = bshape(d, s)
            if size(nd) > 400:
                continue
            vals = [quarter(rng) if op != "tfl.div" else rng.choice([1.0, -1.0, 2.0, -2.0, 0.5, 4.0]) for _ in range(size(s))]
            if op == "tfl.mul":
                vals = [rng.choice([0.5, -0.5, 1.5, 2.0, -1.0, 0.0, 1.0, 3.0]) for _ in range(size(s))]
            o = m.arg(s) if rng.random() < 0.06 else m.const(s, vals)
            if len(o[1][0]) and rng.random() < 0.05:
                o = m.const(s, [vals[0]])
            ins = [v, o]
            if rng.random() < 0.12 and op in ("tfl.add", "tfl.mul", "tfl.sub"):
                ins = [o, v]
            af = rng.choice(ACTS) if rng.random() < 0.12 else "NONE"
            v, d = m.op(op, ins, (nd, F32), fused_activation_function=af), nd
        elif k == "act":
            v = m.op(rng.choice(["tfl.relu", "tfl.relu6", "tfl.relu_n1_to_1"]), [v], (d, F32))
        elif len(d) == 4:
            p = rng.choice(["SAME", "VALID"])
            fh, fw, sh, sw = rng.randint(1, 3), rng.randint(1, 3), rng.randint(1, 2), rng.randint(1, 3)
            od = (d[0], out1(p, d[1], fh, sh, 1), out1(p, d[2], fw, sw, 1), d[3])
            if min(od) < 1:
                continue
            v = m.op("tfl.max_pool_2d", [v], (od, F32), padding=p, stride_w=sw, stride_h=sh, filter_width=fw, filter_height=fh,
                     fused_activation_function=pick(rng, (5, "NONE"), (1, "RELU"), (1, "RELU6"), (1, "RELU_N1_TO_1")))
            d = od
        maybe_out()
    if rng.random() < 0.6:
        if rng.random() < 0.45:
            cmp = rng.choice(["tfl.greater_equal", "tfl.less_equal", "tfl.greater_equal", "tfl.greater"])
            s = operand(rng, m, d, 0.4)
            if rng.random() < 0.5:
                o = m.const(s, [rng.choice([0.0, 0.0, -0.0])])
            else:
                o = m.const(s, [quarter(rng) for _ in range(size(s))]) if rng.random() < 0.8 else m.arg(s)
            if rng.random() < 0.15 and len(s):
                z = [0.0] * size(s)
                z[-1] = 1.0
                o = m.const(s, z)
            nd = bshape(d, s)
            v, d = m.op(cmp, [v, o] if rng.random() < 0.7 else [o, v], (nd, "i1")), nd
            maybe_out()
        v = m.op("lq.Quantize", [v], (tuple(d[:-1]) + ((d[-1] + 31) // 32,), "i32"))
        if rng.random() < 0.2:
            rets.append(m.op("lq.Dequantize", [v], (d, F32)))
    rets.append(v)
    return finish(rng, m, ["tfl-optimize-lce{target=%s}" % rng.choice(["arm", "arm", "xcore"])], rets, nx=nx, chans=chans)


# ---- bit-packed output thresholds ------------------------------------------------
def affine(rng, K, act, S2):
    """A multiplier and a bias (multiples of 1/S2): often with the output's sign
    changing exactly at, or right beside, an accumulator value."""
    accs = [K - 2 * j for j in range(K + 1)]
    lo, hi = {"RELU": (0, 10**9), "RELU6": (0, 6), "RELU_N1_TO_1": (-1, 1), "NONE": (-10**9, 10**9)}[act]

    def ok(mu, bi):
        # not so close to zero that rounding to float decides the sign
        for a in accs:
            y = abs(max(lo, min(hi, a)) * mu + bi)
            if y and y * (1 << (22 if K < 64 else 19)) <= abs(bi) + K * abs(mu):
                return False
        return True
    big = K >= 64
    while True:
        k = rng.choice(["edge", "edge", "edge", "any", "zero", "tiny", "big"])
        a0 = rng.choice(accs) if rng.random() < 0.6 else rng.choice([max(lo, min(hi, x)) for x in accs] + [lo, hi, 0, 1, 6][2:])
        sg = rng.choice([1, -1])
        if k == "zero":
            mu, bi = Fraction(0), Fraction(rng.choice([0, 1, -1, 5 * S2, -3]), S2)
        elif k == "tiny":
            mu = Fraction(sg * rng.choice([1, 2, 3, 5]), S2)
            bi = -mu * a0 + Fraction(rng.choice([0, 1, -1, 2]), S2)
        elif k == "big":
            mu = Fraction(sg * (rng.randint(1, 200) if not big else rng.randint(1, 4)))
            bi = -mu * a0 + Fraction(rng.choice([0, 1, -1, 64, -64]), 64)
        elif k == "any":
            mu, bi = Fraction(rng.randint(-512, 512), 256), Fraction(rng.randint(-4096, 4096), 256)
        else:
            mu = Fraction(sg * rng.choice([1, 2, 3, 5, 7, 16, 100]), rng.choice([1, 2, 4, 64, 1024] if not big else [16, 64, 1024, 4096]))
            bi = -mu * a0 + rng.choice([Fraction(0), Fraction(1, 1024), Fraction(-1, 1024), mu / 2, -mu / 2, mu, -mu])
            bi = Fraction(math.floor(bi * 4096), 4096)
        if ok(mu, bi) and abs(mu) * K * S2 < 2**29 and abs(bi) * S2 < 2**28 and abs(mu) * S2 < 2**28:
            mf, bf = float(mu), float(bi)
            if mf == 0 and rng.random() < 0.3:
                mf = -0.0
            return mf, bf


def gen_wide(rng, deep=False):
    """Thresholds of a convolution with many taps (judged by ThresholdTrace)."""
    S2 = 1 << 16
    fh, fw, ci = rng.choice([(3, 3, rng.choice([3, 8, 32, 64, 100])), (1, 1, rng.choice([64, 65, 96, 128, 200, 256, 512])), (2, 3, 33), (5, 5, 16), (1, 7, 24),
                             (3, 3, rng.choice([128, 192, 256, 512] if deep else [128, 192]))])
    K, co = fh * fw * ci, rng.choice([3, 5, 8])
    act = rng.choice(["NONE", "NONE", "RELU", "RELU6", "RELU_N1_TO_1"])
    m = Mod()
    mb = [affine(rng, K, act, S2) for _ in range(co)]
    pad, pv = rng.choice([("VALID", 0), ("SAME", 1)])
    h = w = 7
    x = m.arg([1, h, w, (ci + 31) // 32], "i32")
    wt = [rng.choice([1.0, -1.0]) for _ in range(co * K)]
    oh, ow = out1(pad, h, fh, 1, 1), out1(pad, w, fw, 1, 1)
    y = m.op("lq.Bconv2d", [x, m.const([co, fh, fw, ci], wt), m.const([co], [q[0] for q in mb]), m.const([co], [q[1] for q in mb]), m.none()],
             ((1, oh, ow, co), F32), channels_in=ci, dilation_height_factor=1, dilation_width_factor=1, fused_activation_function=act, pad_values=pv,
             padding=pad, stride_height=1, stride_width=1)
    q = m.op("lq.Quantize", [y], ((1, oh, ow, (co + 31) // 32), "i32"))
    return dict(passes=["tfl-optimize-lce{target=%s}" % rng.choice(["arm", "xcore"])], text=m.ret([q]), S=S2, xs=[], wide=dict(k=K, act=act, co=co))


def gen_threshold(rng, deep=False):
    """One output position; the batch runs through every accumulator value."""
    S2 = 1 << 16
    m = Mod()
    fh, fw = rng.choice([(1, 1), (1, 2), (2, 1), (2, 2), (3, 1), (3, 3)])
    if fh * fw == 9:
        ci = rng.choice([1, 2, 3])
    else:
        ci = rng.choice([1, 2, 3, 4, 5, 7, 8] + ([31, 32, 33] if fh * fw == 1 else []))
    K = fh * fw * ci
    co = rng.choice([4, 6, 33 if K < 12 else 4])
    act = rng.choice(["NONE", "NONE", "RELU", "RELU6", "RELU_N1_TO_1"])
    same = rng.random() < 0.25
    base = [rng.choice([1.0, -1.0]) for _ in range(K)]
    flips = [rng.choice([1, -1]) for _ in range(co)]
    w = [f * b for f in flips for b in base]
    mb = [affine(rng, K, act, S2) for _ in range(co)]
    n = K + 1
    P = (ci + 31) // 32
    mul, bias = [x[0] for x in mb], [x[1] for x in mb]
    if same:
        # SAME one-padding on one pixel: only the filter's window position matters
        h = w_ = 1
        pad, pv = "SAME", 1
    else:
        h, w_ = fh, fw
        pad, pv = "VALID", 0
    x = m.arg([n, h, w_, P], "i32")
    # with SAME the filter is read in HWI order around the pixel; accumulators then vary less
    f = m.const([co, fh, fw, ci], w)
    y = m.op("lq.Bconv2d", [x, f, m.const([co], mul), m.const([co], bias), m.none()], ((n, 1, 1, co), F32), channels_in=ci, dilation_height_factor=1,
             dilation_width_factor=1, fused_activation_function=act, pad_values=pv, padding=pad, stride_height=1, stride_width=1)
    q = m.op("lq.Quantize", [y], ((n, 1, 1, (co + 31) // 32), "i32"))
    text = m.ret([q])
    # contents: sample j disagrees with the base filter in j places
    vals = []
    for j in range(n):
        order = list(range(K))
        rng.shuffle(order)
        bad = set(order[:j])
        for p in range(h * w_):
            for jw in range(P):
                word = 0
                for b in range(min(32, ci - 32 * jw)):
                    i = p * ci + 32 * jw + b
                    neg = (base[i] < 0) != (i in bad)
                    word |= int(neg) << b
                vals.append(word - (1 << 32) if word >> 31 else word)
    return dict(passes=["tfl-optimize-lce{target=%s}" % rng.choice(["arm", "xcore"])] + (["tfl-lce-bitpack-weights"] if rng.random() < 0.5 else []),
                text=text, S=S2, xs=[[vals]])


# ---- weight bit-packing and constant folding ---------------------------------------
def gen_bitpack(rng, deep=False):
    m = Mod()
    chans = {}
    passes = []
    rets = []
    if rng.random() < 0.6:
        c = Conv(rng, m, chans, deep, filt="arg" if rng.random() < 0.08 else "const", zeros=True)
        v = c.v
        if rng.random() < 0.3:      # bit-packed output with thresholds
            thr = m.const([c.co], [rng.randint(-3, 20) for _ in range(c.co)], "i32")
            a = dict(c.attrs)
            if a["padding"] == "SAME":
                a["pad_values"] = 1
            xin = next(x for x in m.args if x[1][1] == "i32")
            v = m.op("lq.Bconv2d", [xin, c.f, m.none(), m.none(), thr], (c.d[:-1] + ((c.co + 31) // 32,), "i32"), **a)
            if rng.random() < 0.3:
                rets.append(c.v)
        rets.append(v)
        passes.append("tfl-lce-bitpack-weights")
    else:
        passes.append(rng.choice(["canonicalize", "canonicalize", "tfl-lce-bitpack-weights"]))
        x = m.arg([2])
        rets.append(m.op("tfl.relu", [x], ((2,), F32)))
    for _ in range(rng.choice([0, 1, 2]) if rets and len(rets[0][1][0]) == 4 else rng.choice([1, 2, 3])):
        rank = rng.choice([1, 2, 3, 4, 4, 5])
        d = tuple(rng.randint(1, 3) for _ in range(rank - 1)) + (rng.choice([1, 2, 5, 31, 32, 33, 40, 64, 65, 70]),)
        pd = d[:-1] + ((d[-1] + 31) // 32,)
        et = pick(rng, (6, F32), (1, "i32"), (1, "i1"), (1, "i64"), (1, q8(rng.choice([0.5, 0.25, 0.0078125, 2.0]), rng.choice([0, -5, 127, -128]))))
        if rng.random() < 0.5 and not et.startswith("!"):
            if et == F32:
                vals = odd_weights(rng, size(d))
            elif et == "i1":
                vals = [rng.randint(0, 1) for _ in range(size(d))]
            else:
                vals = [rng.choice([0, 1, -1, 7, -100]) for _ in range(size(d))]
            cst = m.const(d, vals if rng.random() < 0.85 else vals[:1], et, tf=False)
            q = m.op("lq.Quantize", [cst], (pd, "i32"))
            rets.append(q)
            if rng.random() < 0.3:
                rets.append(m.op("lq.Dequantize", [q], (d, F32)))
        else:
            cst = m.const(pd, packed_vals(rng, pd, d[-1]) if rng.random() < 0.8 else [rng.choice([0, -1])], "i32")
            u = m.op("lq.Dequantize", [cst], (d, et))
            rets.append(u)
            if rng.random() < 0.3:
                rets.append(m.op("lq.Quantize", [u], (pd, "i32")))
    return finish(rng, m, passes, rets, nx=1, chans=chans)


# ---- padding fusion ------------------------------------------------------------------
def gen_padding(rng, deep=False):
    m = Mod()
    _, h, w, fh, fw, sh, sw, dh, dw = geometry(rng, deep)
    h, w = h + rng.randint(0, 2), w + rng.randint(0, 2)
    if rng.random() < 0.5:
        sh, sw = rng.choice([(1, 1), (2, 2), (2, 1), (1, 3), (3, 2)])
    dwise = rng.random() < 0.4
    n, ci = rng.choice([1, 1, 2]), rng.choice([1, 2, 3])
    x = m.arg([n, h, w, ci])
    rets = []
    pt = paddings(rng, h, fh, sh, dh, rng.random() < 0.6)
    pl = paddings(rng, w, fw, sw, dw, rng.random() < 0.75)
    pb, pc = ((0, 0), (0, 0)) if rng.random() < 0.93 else rng.choice([((1, 0), (0, 0)), ((0, 1), (0, 0)), ((0, 0), (0, 1)), ((0, 0), (1, 0))])
    cd = (n + sum(pb), h + sum(pt), w + sum(pl), ci + sum(pc))
    pad = "VALID" if rng.random() < 0.92 else "SAME"
    if out1(pad, cd[1], fh, sh, dh) < 1 or out1(pad, cd[2], fw, sw, dw) < 1:
        return gen_padding(rng, deep)
    p = m.const([4, 2], [pb[0], pb[1], pt[0], pt[1], pl[0], pl[1], pc[0], pc[1]], rng.choice(["i32", "i32", "i32", "i64"]))
    if rng.random() < 0.5:
        c = m.op("tfl.pad", [x, p], (cd, F32))
    else:
        c = m.op("tfl.padv2", [x, p, m.const(rng.choice([[], [], [1]]), [rng.choice([0.0, 0.0, 0.0, -0.0, 1.0, -1.0, 0.25])])], (cd, F32))
    if rng.random() < 0.12:
        rets.append(c)
    mult = rng.choice([1, 1, 2])
    co = cd[3] * mult if dwise else rng.choice([1, 2, 3])
    fs = (1, fh, fw, co) if dwise else (co, fh, fw, cd[3])
    f = m.const(fs, [quarter(rng, -2, 2) for _ in range(size(fs))]) if rng.random() < 0.9 else m.arg(fs)
    b = rng.choice([lambda: m.none(), lambda: m.const([co], [quarter(rng) for _ in range(co)]), lambda: m.const([co], [0.0])])()
    od = (cd[0], out1(pad, cd[1], fh, sh, dh), out1(pad, cd[2], fw, sw, dw), co)
    at_ = dict(dilation_h_factor=dh, dilation_w_factor=dw, fused_activation_function=rng.choice(ACTS), padding=pad, stride_h=sh, stride_w=sw)
    if dwise:
        at_["depth_multiplier"] = mult
    rets.append(m.op("tfl.depthwise_conv_2d" if dwise else "tfl.conv_2d", [c, f, b], (od, F32), **at_))
    return finish(rng, m, ["tfl-fuse-padding"], rets)


# ---- int8 ----------------------------------------------------------------------------
def qpick(rng):
    return rng.choice([1.0, 0.5, 0.25, 2.0, 0.125, 0.0078125, 3.0, 0.75]), rng.choice([0, 0, 1, -3, 127, -128, 50])


def quant(rng, m, v, d, s=None):
    sc, zp = s or qpick(rng)
    t = (tuple(d), q8(sc, zp))
    return m.op("tfl.quantize", [v], t, qtype=Raw(tt(t)))


def dequant(m, v):
    return m.op("tfl.dequantize", [v], (v[1][0], F32))


def gen_quantize(rng, deep=False):
    m = Mod()
    chans = {}
    rets = []
    k = pick(rng, (5, "conv"), (2, "deq"), (2, "quant"))
    if k == "conv":
        c = Conv(rng, m, chans, deep)
        v = c.v
        if rng.random() < 0.5:
            # quantized multipliers / biases lie on the grid
            mul = quant(rng, m, m.const([c.co], [0.5 * rng.randint(-6, 6) for _ in range(c.co)]), [c.co], (0.5, 0))
            bias = quant(rng, m, m.const([c.co], [0.25 * rng.randint(-20, 20) for _ in range(c.co)]), [c.co], (0.25, rng.choice([0, 7])))
            dm, db = dequant(m, mul), dequant(m, bias)
            if rng.random() < 0.2:
                dm = c.mul
            elif rng.random() < 0.2:
                db = c.bias
            if rng.random() < 0.15:
                rets.append(dm)
            xin = next(x for x in m.args if x[1][1] == "i32")
            v = m.op("lq.Bconv2d", [xin, c.f, dm, db, m.none()], (c.d, F32), **c.attrs)
        d = c.d
    elif k == "deq":
        d = tuple(rng.randint(1, 3) for _ in range(rng.choice([0, 1, 3]))) + (rng.choice([1, 3, 32, 33]),)
        x = m.arg(d[:-1] + ((d[-1] + 31) // 32,), "i32")
        chans[x[0]] = d[-1]
        v = m.op("lq.Dequantize", [x], (d, F32))
    else:
        d = tuple(rng.randint(1, 3) for _ in range(rng.choice([0, 1, 3]))) + (rng.choice([1, 3, 32, 33]),)
        v = m.arg(d)
        if rng.random() < 0.5:
            v = m.op("tfl.relu_n1_to_1", [v], (d, F32))
    if rng.random() < 0.15:
        rets.append(v)
    q = quant(rng, m, v, d)
    if rng.random() < 0.3:
        rets.append(q)
    if rng.random() < 0.6:
        v = dequant(m, q)
        if rng.random() < 0.15:
            rets.append(v)
        if rng.random() < 0.3:
            v = m.op("tfl.relu", [v], (tuple(d), F32))
            if rng.random() < 0.5:
                v = dequant(m, quant(rng, m, v, d))
        v = m.op("lq.Quantize", [v], (tuple(d[:-1]) + ((d[-1] + 31) // 32,), "i32"))
        if rng.random() < 0.4:
            v = m.op("lq.Dequantize", [v], (tuple(d), F32))
            v = quant(rng, m, v, d)
        rets.append(v)
    elif q not in rets:
        rets.append(q)
    return finish(rng, m, ["lce-quantize"], rets, chans=chans)


# ---- op removal ------------------------------------------------------------------------
def gen_removal(rng, deep=False):
    m = Mod()
    vals = []
    for _ in range(rng.choice([1, 2, 3])):
        d = rng.choice([[], [2], [1, 3], [2, 2, 2]])
        vals.append(m.arg(d, rng.choice([F32, F32, "i32", "i1"])))
    for _ in range(rng.randint(1, 8)):
        k = pick(rng, (4, "id"), (2, "idn"), (2, "const"), (2, "op"), (1, "opaque"))
        if k == "id":
            v = rng.choice(vals)
            n = rng.choice(["tf.Identity", "tf.CheckNumerics", "tf.Snapshot", "tf.StopGradient", "tf.PlaceholderWithDefault", "tf.Identity"])
            a = dict(message="nan at %d" % rng.randint(0, 9)) if n == "tf.CheckNumerics" else {}
            if n == "tf.CheckNumerics" and v[1][1] != F32:
                continue
            vals.append(m.op(n, [v], v[1], **a))
        elif k == "idn":
            vs = [rng.choice(vals) for _ in range(rng.choice([1, 2, 3, 4]))]
            vals += m.op("tf.IdentityN", vs, [v[1] for v in vs])
        elif k == "const":
            d, e = rng.choice([[], [3], [1, 2]]), rng.choice([F32, "i32", "i1"])
            vals.append(m.const(d, [rng.choice([0, 1]) for _ in range(size(d))], e, tf=True))
        elif k == "op":
            fs = [v for v in vals if v[1][1] == F32]
            if fs:
                v = rng.choice(fs)
                vals.append(m.op(rng.choice(["tf.Relu", "tf.Sign", "tf.Relu6"]), [v], v[1]))
        else:
            vs = [rng.choice(vals) for _ in range(rng.randint(1, 3))]
            vals.append(m.op("other.op", vs, (tuple(rng.choice([[2], [1, 3]])), rng.choice([F32, "i32"])), number=rng.randint(0, 99)))
    rets = [rng.choice(vals) for _ in range(rng.choice([1, 2, 3, 5]))] + vals[-1:]
    return finish(rng, m, ["lce-op-removal-tf"], rets)


# ---- detection post-processing ------------------------------------------------------------
def gen_detection(rng, deep=False):
    m = Mod()
    rets = []
    nb, nc = rng.randint(1, 4), rng.randint(1, 3)
    shapes = [[1, nb, 4], [1, nb, nc], [nb, 4]]
    ins = []
    sq = qpick(rng)
    for i, s in enumerate(shapes):
        sc = sq if i == 1 else qpick(rng)
        k = pick(rng, (9, "deq"), (0.6, "float"), (1, "quant"))
        if k == "float":
            v = m.arg(s)
        elif k == "deq":
            v = dequant(m, m.arg(s, q8(*sc)))
        else:
            v = dequant(m, quant(rng, m, m.arg(s), s, sc))
        if rng.random() < 0.1:
            rets.append(v)
        ins.append(v)
    if rng.random() < 0.08:
        ins.append(m.arg([2]))
    nd = rng.randint(1, 3)
    e = ["i32", "i32", F32, "i32"]
    if rng.random() < 0.15:
        e = [F32, F32, F32, F32]
    if rng.random() < 0.15:
        i = rng.randrange(4)
        e[i] = "i32" if e[i] == F32 else F32
    od = [[1, nd, 4], [1, nd], [1, nd], [1]]
    outs = [(tuple(d), x) for d, x in zip(od, e)]
    if rng.random() < 0.06:
        outs = outs[:3]
    code = "TFLite_Detection_PostProcess" if rng.random() < 0.9 else rng.choice(["Detection", "TFLite_Detection_PostProcess2"])
    o = m.op("tfl.custom", ins, outs, custom_code=code, custom_option=Raw('#tfl<const_bytes : "0x%02x%02x">' % (rng.randint(0, 255), rng.randint(0, 255))))
    for v in o:
        rets += [v] * rng.choice([0, 1, 1, 2])
    if len(o) > 2 and e[2] == F32 and rng.random() < 0.3:
        rets.append(quant(rng, m, o[2], o[2][1][0], sq))
    rets.append(o[0])
    return finish(rng, m, ["detection-postprocess-int"] * rng.choice([1, 1, 2]), rets)


# ---- legalization and translation back ----------------------------------------------------
def gen_legalize(rng, deep=False):
    m = Mod()
    chans = {}
    rets = []
    for _ in range(rng.choice([1, 1, 2])):
        k = pick(rng, (5, "conv"), (3, "pool"), (2, "quant"), (1, "other"))
        if k == "conv":
            nargs = len(m.args)
            c = Conv(rng, m, chans, deep)
            v, d = c.v, c.d
            if rng.random() < 0.4:
                xin = m.args[nargs]
                if rng.random() < 0.5 and not (c.padding == "SAME" and c.pv == 0):
                    thr = m.const([c.co], [rng.randint(-3, 20) for _ in range(c.co)], "i32")
                    a = dict(c.attrs)
                    v = m.op("lq.Bconv2d", [xin, c.f, m.none(), m.none(), thr], (d[:-1] + ((d[-1] + 31) // 32,), "i32"), **a)
                else:
                    v = m.op("lq.Bconv2d", [xin, c.f, c.mul, c.bias, m.none()], (d, q8(*qpick(rng))), **c.attrs)
            rets.append(v)
            if v[1][1] == F32 and rng.random() < 0.5:
                rets.append(m.op("lq.Quantize", [v], (d[:-1] + ((d[-1] + 31) // 32,), "i32")))
        elif k == "pool":
            p, h, w, fh, fw, sh, sw, _, _ = geometry(rng, deep)
            if out1(p, h, fh, sh, 1) < 1 or out1(p, w, fw, sw, 1) < 1:
                p = "SAME"
            n, ch = rng.choice([1, 2]), rng.choice([1, 2, 32, 33])
            x = m.arg([n, h, w, (ch + 31) // 32], "i32")
            chans[x[0]] = ch
            rets.append(m.op("lq.BMaxPool2d", [x], ((n, out1(p, h, fh, sh, 1), out1(p, w, fw, sw, 1), (ch + 31) // 32), "i32"), padding=p, stride_width=sw,
                             stride_height=sh, filter_width=fw, filter_height=fh))
        elif k == "quant":
            d = tuple(rng.randint(1, 3) for _ in range(rng.choice([0, 1, 3]))) + (rng.choice([1, 3, 32, 33]),)
            et = rng.choice([F32, "i1", "i32", q8(*qpick(rng))])
            x = m.arg(d, et)
            v = m.op("lq.Quantize", [x], (d[:-1] + ((d[-1] + 31) // 32,), "i32"))
            rets.append(v)
            rets.append(m.op("lq.Dequantize", [v], (d, rng.choice([F32, "i1", q8(*qpick(rng))]))))
        else:
            x = m.arg([2, 3])
            rets += m.op("tfl.custom", [x], [((2, 3), F32)] * rng.choice([1, 2]), custom_code=rng.choice(["Lce", "LceQuantizeX", "Other"]),
                         custom_option=Raw('#tfl<const_bytes : "0x0102">'))
    # attributes far from the usual (nothing else reads them)
    passes = ["tfl-legalize-lce", "lce-translate-tfl"]
    if rng.random() < 0.3:
        passes += ["tfl-legalize-lce"]
    return finish(rng, m, passes, rets, nx=1, chans=chans)


# ---- the whole conversion --------------------------------------------------------------------
def network(rng, m, n, full=False, quant=False, layers=None):
    """A random network; full: with the ops only the whole conversion lowers;
    quant: with quantization.  n: batch size (-1: dynamic).  Returns its results."""
    h, w, ci = rng.randint(2, 5), rng.randint(2, 5), rng.choice([1, 2, 3, 4])
    v, d = m.arg([n, h, w, ci]), (n, h, w, ci)
    rets = []
    layers = layers or rng.choice([1, 2, 2, 3])

    def ident(v):
        if rng.random() < 0.25:
            return m.op(rng.choice(["tf.Identity", "tf.StopGradient", "tf.Snapshot"]), [v], v[1])
        return v

    def const(s, vals):
        return m.const(s, vals, tf=rng.random() < 0.6)

    def ones(d, c):
        return const([] if n < 0 or rng.random() < 0.5 else list(d), [c])

    def sign(v, d):
        t = (tuple(d), F32)
        v = ident(v)
        k = rng.choice(["where", "where", "where2", "sign"])
        if k == "sign":
            s = m.op("tf.Sign", [v], t)
            return m.op("tf.Sign", [m.op("tf.AddV2", [s, const([], [0.125])], t)], t)
        th = rng.choice([0.0, 0.0, 0.25])
        c = m.op("tf.GreaterEqual", [v, const([], [th])], (tuple(d), "i1")) if k == "where" else m.op("tf.LessEqual", [const([], [th]), v], (tuple(d), "i1"))
        return m.op("tf.SelectV2", [c, ones(d, 1.0), ones(d, -1.0)], t)

    def fq(y):
        if quant and rng.random() < 0.4:
            # between -32 and 31.75: a step of a quarter
            return m.op("tf.FakeQuantWithMinMaxArgs", [y], y[1], min=Raw("-3.200000e+01 : f32"), max=Raw("3.175000e+01 : f32"), num_bits=Raw("8 : i64"), narrow_range=False)
        return y

    def weights(fs):
        """The filter as larq's quantizers leave it."""
        k = rng.choice(["const", "const", "sign"]) if full else "const"
        w = ident(const(fs, binary_filter(rng, fs, "exact")))
        if k == "sign":
            t = (tuple(fs), F32)
            w = ident(m.op("tf.Sign", [m.op("tf.AddV2", [m.op("tf.Sign", [const(fs, fvals_nonzero(rng, size(fs)))], t), const([], [0.125])], t)], t))
        return w
    v = fq(v)
    if full and rng.random() < 0.3:
        # a first layer that is no binary convolution
        co = rng.choice([1, 2, 3])
        v = m.op("tf.Conv2D", [v, const([1, 1, ci, co], [quarter(rng, -2, 2) for _ in range(ci * co)])], ((n, h, w, co), F32), padding="SAME", strides=[1, 1, 1, 1], dilations=[1, 1, 1, 1])
        d = (n, h, w, co)
        v = fq(v)
    for li in range(layers):
        b = sign(v, d)
        if rng.random() < 0.1:
            rets.append(b)
        fh, fw = rng.choice([(1, 1), (2, 2), (3, 3), (3, 1), (1, 2)])
        sh, sw = rng.choice([(1, 1), (1, 1), (2, 2), (1, 2)])
        dh = dw = rng.choice([1, 1, 1, 2])
        if dh > 1:
            sh = sw = 1
        co = rng.choice([1, 2, 3, 4])
        pad = rng.choice(["SAME", "VALID", "ONE", "SAME"])
        cd = d
        if pad == "ONE":
            th_, tw = same_total(d[1], fh, sh, dh), same_total(d[2], fw, sw, dw)
            cd = (d[0], d[1] + th_, d[2] + tw, d[3])
            b = m.op("tf.PadV2", [b, m.const([4, 2], [0, 0, th_ // 2, th_ - th_ // 2, tw // 2, tw - tw // 2, 0, 0], "i32", tf=rng.random() < 0.5), const([], [1.0])], (cd, F32))
            pad = "VALID"
        if out1(pad, cd[1], fh, sh, dh) < 1 or out1(pad, cd[2], fw, sw, dw) < 1:
            pad = "SAME"
        od = (d[0], out1(pad, cd[1], fh, sh, dh), out1(pad, cd[2], fw, sw, dw), co)
        fs = [fh, fw, d[3], co]
        y = m.op("tf.Conv2D", [b, weights(fs)], (od, F32), padding=pad, strides=[1, sh, sw, 1], dilations=[1, dh, dw, 1])
        d = od
        t = (d, F32)
        if rng.random() < 0.1:
            rets.append(y)
        steps = rng.choice([["relu", "bn"], ["bn"], ["bn", "relu"], ["pool", "bn"], ["bn", "pool"], [], ["relu"], ["add"], ["relu6", "bn"]])
        for s in steps:
            t = (d, F32)
            if s == "relu":
                y = m.op("tf.Relu", [y], t)
            elif s == "relu6":
                y = m.op("tf.Relu6", [y], t)
            elif s == "bn" and full and rng.random() < 0.6:
                i32 = m.const([4], [0, 0, 0, 0], "i32")  # noqa: F841  (an unused constant)
                c1 = ((co,), F32)
                y = m.op("tf.FusedBatchNormV3", [y, const([co], [rng.choice([0.5, -0.5, 1.0, 2.0, -1.0]) for _ in range(co)]), const([co], [quarter(rng, -2, 2) for _ in range(co)]),
                                                 const([co], [quarter(rng, -2, 2) for _ in range(co)]), const([co], [rng.choice([0.25, 1.0, 1.0, 4.0]) - 2.0 ** -10 for _ in range(co)])],
                         [t, c1, c1, c1, c1, c1], epsilon=Raw("9.765625e-04 : f32"), is_training=False, data_format="NHWC")[0]
            elif s == "bn":
                y = m.op("tf.Mul", [y, const([co], [rng.choice([0.5, -0.5, 1.0, 2.0, -1.0]) for _ in range(co)])], t)
                y = m.op("tf.AddV2", [y, const([co], [quarter(rng, -2, 2) for _ in range(co)])], t)
            elif s == "add" and full and rng.random() < 0.6:
                y = m.op("tf.BiasAdd", [y, const([co], [quarter(rng, -2, 2) for _ in range(co)])], t, data_format="NHWC")
            elif s == "add":
                y = m.op(rng.choice(["tf.AddV2", "tf.Sub"]), [y, const(rng.choice([[], [co]]), [quarter(rng)])], t)
            elif min(d[1:3]) > 1:
                p = rng.choice(["SAME", "VALID"])
                nd = (d[0], out1(p, d[1], 2, 2, 1), out1(p, d[2], 2, 2, 1), d[3])
                y = m.op("tf.MaxPool", [y], (nd, F32), padding=p, strides=[1, 2, 2, 1], ksize=[1, 2, 2, 1])
                d = nd
            y = fq(y)
        v = ident(y)
        if rng.random() < 0.08:
            rets.append(v)
    if rng.random() < 0.3:
        v = sign(v, d)
    if full and rng.random() < 0.1:
        # detection post-processing of what has been computed
        o = [((1, 2, 4), F32), ((1, 2), F32), ((1, 2), F32), ((1,), F32)]
        rets += m.op("tfl.custom", [fq(v), fq(v), const([2, 4], [quarter(rng) for _ in range(8)])], o, custom_code="TFLite_Detection_PostProcess",
                     custom_option=Raw('#tfl<const_bytes : "0x00">'))
    return rets + [v]


def fvals_nonzero(rng, n):
    return [rng.choice([-1, 1]) * rng.randint(1, 8) / 4 for _ in range(n)]


def gen_pipeline(rng, deep=False):
    m = Mod()
    tgt = rng.choice(["arm", "arm", "xcore"])
    rets = network(rng, m, rng.choice([1, 1, 2]))
    o = "tfl-optimize-lce{target=%s}" % tgt
    passes = ["lce-op-removal-tf", "canonicalize", "cse", "tfl-prepare-lce{target=%s}" % tgt, "shim-legalize-tf", "canonicalize", o]
    if rng.random() < 0.5:
        passes += [o]
    passes += ["tfl-lce-bitpack-weights", "canonicalize", "cse", "tfl-fuse-padding", "canonicalize", "tfl-legalize-lce"]
    if rng.random() < 0.5:
        passes += ["lce-translate-tfl"]
    return finish(rng, m, passes, rets, nx=1)


def locations(rng, m):
    """Give ops names, many of them long with common beginnings."""
    stems = ["sequential/", "StatefulPartitionedCall/StatefulPartitionedCall/", "model_1/quant_conv2d_%d/" % rng.randrange(3), "", "b" * rng.randint(44, 60)]
    def nm():
        return rng.choice(stems) + rng.choice(["Conv2D", "add", "c" * rng.randint(1, 30), "x%d" % rng.randrange(4), "StatefulPartitionedCall/ste_sign/Sign", "1"])
    for i, l in enumerate(m.lines):
        k = rng.random()
        if k < 0.6:
            m.lines[i] = l + ' loc("%s")' % nm()
        elif k < 0.75:
            m.lines[i] = l + ' loc(fused["%s", "%s"])' % (nm(), nm())


def gen_convert(rng, deep=False, bad=0.0, layers=None):
    """A conversion request through the extension's entry points; bad: chance of one that cannot be served."""
    m = Mod()
    kind = rng.choice(["graphdef", "saved_model"])
    quant = True if kind == "saved_model" else rng.random() < 0.4
    n = rng.choice([1, -1, -1])
    rets = network(rng, m, n, full=True, quant=quant and rng.random() < 0.7, layers=layers)
    tgt = rng.choice(["arm", "arm", "xcore"])
    rngs = {"tuple": rng.choice([[-32.0, 31.75], [-16.0, 15.875], [0.0, 63.75]])} if rng.random() < 0.25 else None
    for_one = [(nm, ((1,) + tuple(t[0][1:]) if t[0] and t[0][0] < 0 else t[0], t[1])) for nm, t in m.args]
    args, m.args = m.args, for_one
    c = finish(rng, m, [], rets, nx=1)
    m.args = args
    if rng.random() < 0.5:
        locations(rng, m)
    fail, missing, v1, saved = "", False, False, kind == "saved_model"
    names = ["x%d" % i for i in range(len(args))]
    outs = ["y%d" % i for i in range(len(rets))]
    entries = [names]
    tags, exported = rng.choice([["serve"], ["serve"], ["serve"], ["serve", "gpu"], []]), rng.choice([["serving_default"]] * 3 + [["a", "b"]])
    if rng.random() < bad:
        what = rng.choice(["fail", "fail", "fail", "target", "v1"] + (["exported", "entries", "missing"] if saved else []))
        if what == "fail":
            fail = rng.choice(["import", "pre", "post", "export", "verify"] + (["register", "nobundle", "nosession", "freeze"] if saved else ["load", "inputs", "outputs"]))
        elif what == "target":
            tgt = rng.choice(["", "x86", "ARM", "arm64"])
        elif what == "v1":
            v1 = True
        elif what == "exported":
            exported = []
        elif what == "missing":
            missing = True
        else:
            entries = rng.choice([[], [None], [names, ["z"]], [None, names], [names, names]])
    m.ret(rets)
    c["text"] = entry(m.text, entries[0] if entries else False, outs)
    for e in entries[1:]:
        c["text"] += entry("func.func @f() -> () {\n  return\n}\n", e, []).replace("@main", "@other")
    if v1:
        c["text"] += 'func.func private @v1() {\n  %%0, %%1 = "tf_executor.%s"() : () -> (tensor<f32>, tensor<i1>)\n  return\n}\n' % rng.choice(["Switch", "Merge", "Enter", "Exit", "NextIteration.Source", "NextIteration.Sink"])
    out = "".join("%02x" % rng.randrange(256) for _ in range(rng.randint(0, 9)))
    if saved:
        a = [tags, exported, rng.choice([1, 2]), tgt, rngs]
    else:
        # the Python side asks for batches of one
        a = [names, [rng.choice(["DT_FLOAT", "DT_FLOAT", "DT_INT32"]) for _ in names], [list(t[0]) for _, t in for_one], outs, quant, tgt, rngs]
    return dict(c, kind=kind, args=a, fail=fail, out=out, missing=missing, entries=[-1 if e is None else len(e) for e in entries], v1=v1)


def gen_request(rng, deep=False):
    c = gen_convert(rng, deep, bad=0.5, layers=1)
    if c["kind"] == "graphdef":
        # inputs and outputs are for the importer alone to understand
        k = rng.choice([1, 1, 2, 3, 0])
        c["args"][0] = rng.sample(["x", "input_1", "serving_default_x:0", "a/b/c", "x:0", "X"], k)
        c["args"][1] = [rng.choice(["DT_FLOAT", "DT_INT32", "DT_INT8", "DT_STRING"]) for _ in range(k)]
        c["args"][2] = [[rng.choice([1, 1, 2, 3, 7, 224]) for _ in range(rng.choice([0, 1, 1, 2, 4]))] for _ in range(k)]
        c["args"][3] = rng.sample(["y", "Identity", "Identity_1", "StatefulPartitionedCall:1"], rng.choice([1, 1, 2, 3]))
    return c


def entry(text, names, outs):
    """The module around a function that is the model's entry (names: its inputs; None: without; False: not an entry)."""
    i = text.index(" {\n")
    at = 'tf.entry_function = {control_outputs = "", %soutputs = "%s"}' % ('inputs = "%s", ' % ",".join(names) if names is not None and names is not False else "", ",".join(outs))
    return text[:i].replace("func.func @f(", "func.func @main(", 1) + (" attributes {%s}" % at if names is not False else "") + text[i:]
