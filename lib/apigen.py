"""Random calls of the converter's Python API, with the Keras models they are given."""
S = 4096
SAVED_FAILS = ["register", "import", "pre", "post", "freeze", "export", "verify"]
GRAPH_FAILS = ["load", "inputs", "outputs", "import", "pre", "post", "export", "verify"]


def out1(pad, n, f, s, d=1):
    e = (f - 1) * d + 1
    return -(-n // s) if pad == "same" else (n - e) // s + 1 if n >= e else 0


class Net:
    """A random Keras model.  Values are (index, shape, bits after the point, bound)."""
    def __init__(self, rng, inputs):
        self.rng, self.layers, self.vals = rng, [], []
        self.inputs = inputs
        for i, x in enumerate(inputs):
            self.vals.append((i, tuple(x["shape"]), 2 if x.get("dtype") != "int32" else 0, 2))

    def add(self, op, ins, shape, f, M, a=None, **kw):
        l = dict(op=op, **{"in": [v[0] for v in ins]}, **kw)
        if a:
            l["a"] = a
        if self.rng.random() < 0.06:
            l["name"] = self.rng.choice(["block/", "x", "l_", "conv-"]) + str(len(self.layers))
        self.layers.append(l)
        v = (len(self.inputs) + len(self.layers) - 1, tuple(shape), f, M)
        self.vals.append(v)
        return v

    # ---- layers: each returns None where it does not fit -------------------------
    def sign(self, v):
        return self.add("quantizer", [v], v[1], 0, 1, dict(q=self.rng.choice(["SteSign", "ApproxSign", "SwishSign"])))

    def conv(self, v, kind=None):
        r = self.rng
        if len(v[1]) != 3:
            return None
        h, w, c = v[1]
        kind = kind or r.choice(["QuantConv2D"] * 6 + ["Conv2D", "QuantDepthwiseConv2D", "DepthwiseConv2D", "QuantSeparableConv2D"])
        kh, kw = r.choice([(1, 1), (2, 2), (3, 3), (3, 3), (1, 3), (2, 1)])
        s = r.choice([1, 1, 1, 2])
        if "Depthwise" not in kind and "Separable" not in kind and r.random() < 0.15:
            sh, sw = s, 3 - s
        else:
            sh = sw = s
        d = 1
        if s == 1 and sh == sw and kind == "QuantConv2D" and r.random() < 0.15 and kh > 1 and kw > 1:
            d = 2
        pad = r.choice(["same", "same", "valid"])
        if out1(pad, h, kh, sh, d) < 1 or out1(pad, w, kw, sw, d) < 1:
            pad = "same"
        if pad == "same" and d > 1 and (h < 2 or w < 2):
            d = 1
        a = dict(kernel_size=[kh, kw], padding=pad, use_bias=r.random() < 0.3)
        if (sh, sw) != (1, 1):
            a["strides"] = [sh, sw]
        if d > 1:
            a["dilation_rate"] = d
        f, M = v[2], v[3]
        q = kind.startswith("Quant")
        if q:
            iq = r.choice(["ste_sign"] * 5 + ["approx_sign", "swish_sign", "SteHeaviside", None])
            if iq:
                a["input_quantizer"] = iq
                f, M = 0, 1
            if pad == "same" and kind == "QuantConv2D" and r.random() < 0.4 and (iq != "SteHeaviside") and iq:
                a["pad_values"] = r.choice([1.0, 1.0, -1.0])
            kq = r.choice(["ste_sign"] * 4 + ["magnitude_aware_sign", "approx_sign", None])
        else:
            kq = None
        wf, wm = (0, 1) if kq in ("ste_sign", "approx_sign") else (2, 2)
        g = 1
        if "Depthwise" in kind:
            m = r.choice([1, 1, 2])
            a["depth_multiplier"] = m
            co, K = c * m, kh * kw
            if kq:
                a["depthwise_quantizer"] = kq if kq != "magnitude_aware_sign" else "ste_sign"
                wf, wm = 0, 1
        elif "Separable" in kind:
            co, K = r.choice([1, 2, 3]), kh * kw * c
            a["filters"] = co
            if kq:
                kq = "ste_sign"
                a["depthwise_quantizer"] = a["pointwise_quantizer"] = kq
                wf, wm = 0, 1
            f, M, K = f + wf, M * wm * kh * kw, c
        else:
            co = r.choice([1, 2, 3, 4, 4, 5, 8, 33] if self.rng.random() < 0.3 else [1, 2, 3, 4])
            if kind == "QuantConv2D" and c % 2 == 0 and c > 1 and r.random() < 0.1:
                g = 2
                co += co % 2
                a["groups"] = 2
            a["filters"] = co
            if kq:
                a["kernel_quantizer"] = kq
                if kq == "magnitude_aware_sign":
                    wf = 2
            K = kh * kw * c // g
        f, M = f + wf, M * wm * K
        if a["use_bias"]:
            f, M = max(f, 2), M + 2
        act = r.choice([None, None, None, "relu"])
        if act:
            a["activation"] = act
        return self.add(kind, [v], (out1(pad, h, kh, sh, d), out1(pad, w, kw, sw, d), co), f, M, a)

    def bn(self, v):
        r = self.rng
        a = {}
        if r.random() < 0.4:
            a["scale"] = False
        if r.random() < 0.1:
            a["center"] = False
        if r.random() < 0.1:
            a["momentum"] = 0.5
        f = max(v[2], 2) + 2 + 1
        return self.add("BatchNormalization", [v], v[1], f, (v[3] + 2) * 4 + 3, a, bits=f)

    def dense(self, v):
        r = self.rng
        if len(v[1]) != 1:
            return None
        n = r.choice([1, 2, 3, 5])
        a = dict(units=n, use_bias=r.random() < 0.5)
        f, M = v[2], v[3]
        wf, wm = 2, 2
        q = r.random() < 0.6
        if q:
            if r.random() < 0.8:
                a["input_quantizer"] = "ste_sign"
                f, M = 0, 1
            if r.random() < 0.8:
                a["kernel_quantizer"] = "ste_sign"
                wf, wm = 0, 1
        if r.random() < 0.2:
            a["activation"] = "relu"
        return self.add("QuantDense" if q else "Dense", [v], (n,), max(f + wf, 2), M * wm * v[1][0] + 2, a)

    def pool(self, v):
        r = self.rng
        if len(v[1]) != 3:
            return None
        h, w, c = v[1]
        k = r.choice(["MaxPool2D", "MaxPool2D", "MaxPool2D", "AveragePooling2D", "GlobalAveragePooling2D", "GlobalMaxPool2D"])
        if k == "GlobalAveragePooling2D":
            return self.add(k, [v], (c,), v[2] + (h * w).bit_length() - 1, v[3]) if (h * w) & (h * w - 1) == 0 else None
        if k == "GlobalMaxPool2D":
            return self.add(k, [v], (c,), v[2], v[3]) if r.random() < 0.3 else None
        pad = r.choice(["same", "valid"]) if k == "MaxPool2D" else "valid"
        p = r.choice([2, 2, 3]) if k == "MaxPool2D" else 2
        s = r.choice([1, 2, None])
        if out1(pad, h, p, s or p) < 1 or out1(pad, w, p, s or p) < 1:
            return None
        return self.add(k, [v], (out1(pad, h, p, s or p), out1(pad, w, p, s or p), c), v[2] + (2 if k[0] == "A" else 0), v[3], dict(pool_size=p, padding=pad, **(dict(strides=s) if s else {})))

    def unary(self, v):
        r = self.rng
        k = r.choice(["ReLU", "ReLU6", "Activation", "scale", "Dropout", "sign", "call"])
        if k == "ReLU":
            return self.add("ReLU", [v], v[1], v[2], v[3])
        if k == "ReLU6":
            return self.add("ReLU", [v], v[1], v[2], min(v[3], 6), dict(max_value=6.0))
        if k == "Activation":
            return self.add("Activation", [v], v[1], v[2], v[3], dict(activation="relu"))
        if k == "scale":
            return self.add("scale", [v], v[1], max(v[2] + 1, 2), v[3] * 2 + 2, dict(mul=r.choice([0.5, -1.0, 2.0, -0.5]), add=r.randint(-8, 8) / 4))
        if k == "Dropout":
            return self.add("Dropout", [v], v[1], v[2], v[3], dict(rate=0.5))
        if k == "sign":
            return self.sign(v)
        c = r.choice(["identity", "abs", "negative", "sign"])
        return self.add("call", [v], v[1], 0 if c == "sign" else v[2], 1 if c == "sign" else v[3], dict(f=c))

    def shaped(self, v):
        r = self.rng
        if len(v[1]) == 3 and r.random() < 0.4:
            t, b, l, q = (r.choice([0, 1]) for _ in range(4))
            return self.add("ZeroPadding2D", [v], (v[1][0] + t + b, v[1][1] + l + q, v[1][2]), v[2], v[3], dict(padding=[[t, b], [l, q]]))
        n = 1
        for x in v[1]:
            n *= x
        if r.random() < 0.7:
            return self.add("Flatten", [v], (n,), v[2], v[3])
        return self.add("Reshape", [v], (1, 1, n), v[2], v[3], dict(target_shape=[1, 1, n]))

    def join(self, v):
        r = self.rng
        o = [x for x in self.vals if x[1] == v[1] and not self.isint(x)]
        w = r.choice(o)
        k = r.choice(["Add", "Add", "Subtract", "Multiply", "Concatenate"])
        if k == "Concatenate":
            o = [x for x in self.vals if x[1][:-1] == v[1][:-1] and len(x[1]) == len(v[1]) and not self.isint(x)]
            w = r.choice(o)
            return self.add(k, [v, w], v[1][:-1] + (v[1][-1] + w[1][-1],), max(v[2], w[2]), max(v[3], w[3]))
        if k == "Multiply":
            return self.add(k, [v, w], v[1], v[2] + w[2], v[3] * w[3]) if v[3] < 128 and w[3] < 128 else None
        return self.add(k, [v, w], v[1], max(v[2], w[2]), v[3] + w[3])

    def isint(self, v):
        return v[0] < len(self.inputs) and self.inputs[v[0]].get("dtype") == "int32"

    def step(self, v, quant):
        r = self.rng
        n, m = len(self.layers), len(self.vals)
        k = r.random()
        if quant and v[2] <= 2 and r.random() < 0.5:
            y = self.add("fq", [v], v[1], v[2], min(v[3], 32), dict(kind=quant if isinstance(quant, str) else "args"))
        else:
            y = self.conv(v) if k < 0.3 else self.bn(v) if k < 0.5 else self.pool(v) if k < 0.6 else self.unary(v) if k < 0.72 else \
                self.shaped(v) if k < 0.8 else self.dense(v) if k < 0.9 else self.join(v)
        if y is None or y[2] > 12 or y[3] > 30000 or size(y[1]) > 700:
            del self.layers[n:]
            del self.vals[m:]
            return v
        return y


def size(s):
    n = 1
    for x in s:
        n *= x
    return n


def samples(rng, inputs, n, batch=None):
    return [[[rng.choice([-2, -1, 0, 1, 2, 1]) if i.get("dtype") == "int32" else rng.randint(-8, 8) / 4 for _ in range((batch or 1) * size(abs(x) for x in i["shape"]))]
             for i in inputs] for _ in range(n)]


def network_case(rng, deep=False):
    """A model, its samples."""
    inputs = []
    for k in range(rng.choice([1, 1, 1, 1, 2, 2, 3])):
        s = [rng.randint(2, 5), rng.randint(2, 5), rng.choice([1, 2, 3, 4])] if rng.random() < 0.8 else [rng.randint(1, 6)]
        if k and rng.random() < 0.5:
            s = inputs[0]["shape"]
        i = dict(shape=list(s))
        if rng.random() < 0.25:
            # not in alphabetical order
            i["name"] = rng.choice(["zeta", "image", "a", "m"]) + str(rng.randint(0, 9)) + "_" * k
        if rng.random() < 0.1:
            i["dtype"] = "int32"
        inputs.append(i)
    net = Net(rng, inputs)
    quant = rng.choice([None, None, None, "args"])
    ends = []
    for v in list(net.vals):
        if net.isint(v):
            v = net.add("cast", [v], v[1], v[2], v[3])
        if quant and rng.random() < 0.7:
            v = net.add("fq", [v], v[1], v[2], min(v[3], 32), dict(kind=quant))
        for _ in range(rng.randint(2, 7 if deep else 5)):
            v = net.step(v, quant)
        ends.append(v)
    if len(ends) > 1 and rng.random() < 0.5:
        # two branches meet
        a, b = ends[0], ends[1]
        fa = a if len(a[1]) == 1 else net.add("Flatten", [a], (size(a[1]),), a[2], a[3])
        fb = b if len(b[1]) == 1 else net.add("Flatten", [b], (size(b[1]),), b[2], b[3])
        ends = [net.add("Concatenate", [fa, fb], (fa[1][0] + fb[1][0],), max(fa[2], fb[2]), max(fa[3], fb[3]))] + ends[2:]
    outs = [v[0] for v in ends]
    extra = [v[0] for v in net.vals if not net.isint(v) and v[0] not in outs and v[0] >= len(inputs)]
    if extra and rng.random() < 0.25:
        outs.insert(rng.randint(0, len(outs)), rng.choice(extra))
    # every model's outputs are computed by a layer
    outs = [o if o >= len(inputs) else net.add("ReLU", [net.vals[o]], net.vals[o][1], 2, 2)[0] for o in outs]
    bits = {v[0]: v[2] for v in net.vals}
    c = dict(inputs=inputs, layers=net.layers, outs=outs, bits=[bits[o] for o in outs], seed=rng.randint(1, 1 << 30), xs=samples(rng, inputs, 2))
    if len(inputs) == 1 and inputs[0].get("dtype") is None and rng.random() < 0.08:
        c["subclass"] = True
    return c


def tiny(rng):
    """A small model, for calls that are about everything else."""
    inputs = []
    for k in range(rng.choice([1, 1, 2, 3])):
        s = [rng.randint(1, 4) for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 3]))]
        i = dict(shape=s)
        if s and rng.random() < 0.15:
            s[rng.randrange(len(s))] = -1
        if rng.random() < 0.3:
            i["name"] = rng.choice(["z", "image", "a"]) + str(k)
        if rng.random() < 0.2:
            i["dtype"] = "int32"
        inputs.append(i)
    net = Net(rng, inputs)
    outs = []
    fq = rng.choice([None, None, "args", "vars", "channel", "qdq2", "qdq3", "cond"])
    for v in list(net.vals):
        if net.isint(v):
            v = net.add("cast", [v], v[1], v[2], v[3])
        k = rng.random()
        v = net.add("scale", [v], v[1], v[2] + 1, 6, dict(mul=0.5, add=1.0)) if k < 0.5 else net.add("ReLU", [v], v[1], v[2], v[3]) if k < 0.7 else net.sign(v)
        if fq and rng.random() < 0.6 and not (fq == "channel" and (not v[1] or v[1][-1] < 0)):
            v = net.add("fq", [v], v[1], v[2], v[3], dict(kind=fq))
        outs.append(v[0])
        if rng.random() < 0.2:
            outs.append(net.add("ReLU", [v], v[1], v[2], v[3])[0])
    if len(outs) > 1 and rng.random() < 0.3:
        outs.reverse()
    c = dict(inputs=inputs, layers=net.layers, outs=outs, bits=[12] * len(outs), seed=rng.randint(1, 1 << 30), xs=samples(rng, inputs, 1))
    dyn = any(-1 in i["shape"] for i in inputs)
    if dyn:
        c["xs"] = []
    elif rng.random() < 0.15:
        c["batch"] = rng.choice([1, 1, 2])
        c["xs"] = samples(rng, inputs, 1, c["batch"])
    if len(inputs) == 1 and inputs[0].get("dtype") is None and not c.get("batch") and not dyn and rng.random() < 0.1:
        c["subclass"] = True
    return c


def gen_network(rng, deep=False):
    c = network_case(rng, deep)
    c.update(api="saved_model" if rng.random() < 0.15 else "keras", target=rng.choice(["arm", "arm", "xcore"]), range=None, fails=["", ""], bytes=["float", "float"])
    c.update({"in": "float32", "out": "float32"})
    if c["api"] == "keras" and rng.random() < 0.5:
        c["fails"][0] = rng.choice(SAVED_FAILS)
    if rng.random() < 0.1:
        c["range"] = [-4.0, 3.5]
    return c


#: every kind of call that is refused (or nearly), tried in every run
MISUSE = [dict(api="keras", mixed=m) for m in ("mixed_float16", "mixed_bfloat16", "float16", "float64")]
MISUSE += [dict(api="keras", notmodel=m) for m in ("layer", "path", "none", "cls")]
MISUSE += [dict({k: v, "api": a}) for a in ("keras", "saved_model") for k in ("in", "out") for v in ("int16", "uint8", "none")]
MISUSE += [dict({"in": i, "out": o, "api": a, "bytes": ["int8", "int8"], "fails": f})
           for a, i, o in (("keras", "int8", "float32"), ("keras", "float32", "int8"), ("saved_model", "int8", "int8")) for f in (["", ""], ["import", ""]) if a == "keras" or not f[0]]
MISUSE += [dict(api=a, target=x) for a in ("keras", "saved_model") for x in ("ARM", "x86", "")]
MISUSE += [dict(api=a, graph=True) for a in ("keras", "saved_model")]
MISUSE += [dict(api="saved_model", there=False)] + [dict(api="saved_model", version=v) for v in (0, 1, 2, 3)]


def gen_call(rng, deep=False, misuse=None):
    c = tiny(rng)
    while misuse and "mixed" in misuse and (c.get("subclass") or any(l["op"] == "fq" for l in c["layers"])):
        c = tiny(rng)
    io = lambda p: "int8" if rng.random() < p else "float32"
    c.update(api=rng.choice(["keras", "keras", "saved_model"]), target=rng.choice(["arm", "xcore"]), range=None)
    c["in"], c["out"] = io(0.4), io(0.4)
    c["fails"] = ["" if rng.random() < 0.4 else rng.choice(SAVED_FAILS + ["nobundle", "nosession"]), "" if rng.random() < 0.8 else rng.choice(GRAPH_FAILS)]
    c["bytes"] = [rng.choice(["int8", "int8", "int8", "uint8", "float"]), rng.choice(["int8", "int8", "uint8", "float"])]
    if c["in"] == c["out"] == "float32" and rng.random() < 0.4:
        c["bytes"] = ["hex:" + "".join(rng.choice("0123456789abcdef") for _ in range(2 * rng.randint(0, 40))) for _ in range(2)]
    k = rng.random()
    if k < 0.3:
        lo = -rng.randint(0, 64) / 8
        c["range"] = rng.choice([[lo, lo + rng.randint(1, 64) / 8], [-6, 6], [0.0, 6.0], [-0.1, 0.3]])
    elif k < 0.4:
        c["range_given"] = True
    z = rng.random()
    if z < 0.07:
        c[rng.choice(["in", "out"])] = rng.choice(["int16", "uint8", "float16", "none"])
    elif z < 0.11:
        c["target"] = rng.choice(["ARM", "arm64", "x86", "", "xcore ", "xmos"])
    elif z < 0.15:
        c["graph"] = True
    elif z < 0.2 and c["api"] == "keras":
        c["notmodel"] = rng.choice(["layer", "path", "none", "cls"])
    elif z < 0.24 and c["api"] == "keras" and not c.get("subclass") and not any(l["op"] == "fq" for l in c["layers"]):
        c["mixed"] = rng.choice(["mixed_float16", "mixed_float16", "mixed_bfloat16", "float16", "float64"])
        c["xs"] = []
    elif z < 0.3 and c["api"] == "saved_model":
        c["there"] = False
    elif z < 0.42 and c["api"] == "saved_model":
        c["version"] = rng.choice([0, 1, 2, 2, 3])
    if c["api"] == "saved_model" and rng.random() < 0.2:
        c["path"] = True
    dflt = [k for k, v in (("inference_input_type", c["in"] == "float32"), ("inference_output_type", c["out"] == "float32"), ("target", c["target"] == "arm")) if v]
    if dflt and rng.random() < 0.3:
        c["omit"] = rng.sample(dflt, rng.randint(1, len(dflt)))
    if misuse:
        for k in ("graph", "notmodel", "mixed", "version", "omit"):
            c.pop(k, None)
        c.update(there=True, target="arm")
        c["in"] = c["out"] = "float32"
        c.update(misuse)
        if c.get("mixed"):
            c["xs"] = []
        if c["api"] != "saved_model":
            c.pop("path", None)
    # a second thing wrong
    elif rng.random() < 0.03:
        c["target"] = "x86"
        c["omit"] = [k for k in c.get("omit", []) if k != "target"]
    return c
