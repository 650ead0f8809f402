"""Writes modules for the converter's passes, runs the passes on them
(mlir_driver) and turns the recorded graphs into histories for
spec/ConverterTrace.tla."""
import hashlib, json, math, os, subprocess, sys, tempfile
from fractions import Fraction
import vlib
from vlib import CheckError

F32 = "f32"


def q8(scale, zp, lo=-128, hi=127):
    rng = "" if (lo, hi) == (-128, 127) else "<%d:%d>" % (lo, hi)
    return "!quant.uniform<i8%s:f32, %s%s>" % (rng, fnum(scale), "" if zp == 0 else ":%d" % zp)


def fnum(x):
    s = repr(float(x))
    if "e" in s:
        m, e = s.split("e")
        return (m if "." in m else m + ".0") + "e" + e
    return s


def tt(t):
    d, e = t
    return "none" if e == "none" else "tensor<%s%s>" % ("".join("%sx" % ("?" if x < 0 else x) for x in d), e)


def size(d):
    n = 1
    for x in d:
        n *= x
    return n


def dense(t, vals):
    """vals: flat list (or one value for a splat)."""
    d, e = t

    def one(v):
        if e == "i1":
            return "true" if v else "false"
        return fnum(v) if e in ("f32", "f64") else str(int(v))
    vals = list(vals)
    if len(vals) == 1 and size(d) != 0:
        return "dense<%s> : %s" % (one(vals[0]), tt(t))
    assert len(vals) == size(d), (t, len(vals))
    if not vals:
        return "dense<> : " + tt(t)

    def rec(dd, off):
        if not dd:
            return one(vals[off])
        step = size(dd[1:])
        return "[" + ", ".join(rec(dd[1:], off + i * step) for i in range(dd[0])) + "]"
    return "dense<%s> : %s" % (rec(list(d), 0), tt(t))


class Mod:
    """One function under construction; values are (name, type)."""

    def __init__(self):
        self.args, self.lines, self.n = [], [], 0

    def arg(self, d, e=F32):
        v = ("%%arg%d" % len(self.args), (tuple(d), e))
        self.args.append(v)
        return v

    def op(self, name, ins, out, **attrs):
        """out: a type or a list of types; attrs: MLIR text, int (i32) or str."""
        outs = out if isinstance(out, list) else [out]
        names = []
        for _ in outs:
            self.n += 1
            names.append("%%v%d" % self.n)
        a = ", ".join("%s = %s" % (k, at(v)) for k, v in attrs.items())
        self.lines.append('  %s"%s"(%s) {%s} : (%s) -> %s' % (", ".join(names) + (" = " if names else ""), name, ", ".join(i[0] for i in ins), a,
                                                       ", ".join(tt(i[1]) for i in ins),
                                                       tt(outs[0]) if len(outs) == 1 else "(%s)" % ", ".join(tt(o) for o in outs)))
        vs = [(n, (tuple(o[0]), o[1])) for n, o in zip(names, outs)]
        return vs if isinstance(out, list) else vs[0]

    def const(self, d, vals, e=F32, tf=False):
        t = (tuple(d), e)
        if tf:
            return self.op("tf.Const", [], t, value=Raw(dense(t, vals)))
        self.n += 1
        n = "%%v%d" % self.n
        self.lines.append("  %s = arith.constant %s" % (n, dense(t, vals)))
        return (n, t)

    def none(self):
        return self.op("tfl.no_value", [], ((), "none"), value=Raw("unit"))

    def ret(self, vals):
        self.text = "func.func @f(%s) -> (%s) {\n%s\n  return %s : %s\n}\n" % (
            ", ".join("%s: %s" % (n, tt(t)) for n, t in self.args), ", ".join(tt(v[1]) for v in vals), "\n".join(self.lines),
            ", ".join(v[0] for v in vals), ", ".join(tt(v[1]) for v in vals))
        return self.text


class Raw(str):
    pass


def at(v):
    if isinstance(v, Raw):
        return str(v)
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, int):
        return "%d : i32" % v
    if isinstance(v, (list, tuple)):
        return "[%s]" % ", ".join("%d" % x for x in v)
    return '"%s"' % v


# ---- running ---------------------------------------------------------------
def chunked(n, k):
    return [range(i, min(n, i + k)) for i in range(0, n, k)]


def run(exe, cases, chunk=40):
    """cases: dicts with passes (list of text) and text.  Recorded graphs per
    case; a case that kills the passes gets ok = [False]."""
    res = [None] * len(cases)
    pat = vlib.Patience()

    def one(ids):
        ids = list(ids)
        if pat.gone:
            for k in ids:
                vlib.not_run(cases[k])
                res[k] = dict(g=[], ok=[False], note=["not run"], died=0, partial="")
            return
        with tempfile.TemporaryDirectory(prefix="lcev") as d:
            i, o = os.path.join(d, "i"), os.path.join(d, "o")
            with open(i, "w") as f:
                for k in ids:
                    f.write("// passes: %s\n%s\n// -----\n" % ("; ".join(cases[k]["passes"]), cases[k]["text"]))
            rc, err = vlib.watched([exe, "run", i, o], o, 25 + len(ids))
            if rc == 3 and "bad pass" in err:
                raise CheckError("a pass is not there: " + err[-3000:])
            if rc == 0:
                for k, x in zip(ids, open(o).read().splitlines()):
                    res[k] = json.loads(x)
            elif len(ids) == 1:
                pat.saw(rc)
                x = open(o).read() if os.path.exists(o) else ""
                res[ids[0]] = dict(g=[], ok=[False], note=["died: %s %s" % (rc, err[-500:])], died=rc, partial=x)
            else:
                m = len(ids) // 2
                one(ids[:m])
                one(ids[m:])
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        list(ex.map(one, chunked(len(cases), chunk)))
    return res


# ---- graphs for the specification -------------------------------------------
NOQ = dict(sn=0, sd=1, zp=0, lo=0, hi=0)
LIM = 1 << 28


def fx(h, S):
    """A real (hex text) scaled by S; inexact values are moved away from zero."""
    x = float.fromhex(h)
    if math.isnan(x):
        return LIM - 1
    if math.isinf(x):
        return LIM if x > 0 else -LIM
    y = Fraction(x) * S
    n = math.floor(abs(y))
    if n != abs(y):
        n += 1
    n = min(n, LIM)
    return n if y >= 0 else -n


def styp(t):
    q = NOQ
    if t["k"] == "q":
        f = Fraction(float.fromhex(t["q"]["scale"])).limit_denominator(1 << 14)
        q = dict(sn=f.numerator, sd=f.denominator, zp=t["q"]["zp"], lo=t["q"]["lo"], hi=t["q"]["hi"])
    k = t["k"] if not (t["k"] == "q" and t["q"]["w"] != 8) else "q%d" % t["q"]["w"]
    return dict(k=k, d=t["d"], q=q)


def flex(hexs):
    """Decode a flexbuffer with the independent Python implementation."""
    b = bytes.fromhex(hexs)
    if not b:
        return True, {}
    global _FLEX
    try:
        m = flexmod().GetRoot(bytearray(b))
        if not m.IsMap:
            return False, {}
        r = {}
        for kk in [x.AsKey for x in m.AsMap.Keys]:
            v = m.AsMap[kk]
            if not v.IsInt:
                return False, {}
            r[str(kk)] = v.AsInt
        return True, r
    except Exception:
        return False, {}


_flex = []


def flexmod():
    if not _flex:
        import importlib.util
        root = "/opt/lce/venv/lib"
        for d in sorted(os.listdir(root)):
            p = os.path.join(root, d, "site-packages")
            if os.path.exists(os.path.join(p, "flatbuffers/flexbuffers.py")):
                sys.path.append(p)
                from flatbuffers import flexbuffers
                _flex.append(flexbuffers)
                break
    return _flex[0]


def sdense(a, S):
    t = styp(a["t"])
    v = a["v"]
    if t["k"] == "f32":
        v = [fx(x, S) for x in v]
    elif v and isinstance(v[0], str):
        v = [fx(x, 1) for x in v]
    else:
        v = [x if abs(x) < 2**31 else (LIM if x > 0 else -LIM) for x in v]
    n = size(t["d"])
    if len(v) == 1 and n != 1:
        v = v * n
    return dict(t=t, v=v)


def sattr(a, S):
    if isinstance(a, dict) and "v" in a and "t" in a:
        return sdense(a, S)
    if isinstance(a, dict) and "k" in a:
        return styp(a)
    return a


def sop(o, S):
    a = {k: sattr(v, S) for k, v in o["a"].items()}
    n = o["n"]
    if n == "tfl.max_pool_2d":
        a["stride_height"], a["stride_width"] = a.pop("stride_h", 0), a.pop("stride_w", 0)
    if n == "lq.Bconv2d":
        a.setdefault("pad_values", 0)
    for k in ("epsilon", "min", "max"):
        if n.startswith("tf.") and isinstance(a.get(k), str):
            a[k] = fx(a[k], S)
    if n == "tfl.custom":
        ok, r = flex(a.get("custom_option", ""))
        a["opt_ok"], a["opt"] = ok, r or {"none": 0}
    h = int(hashlib.sha1((n + json.dumps(o["a"], sort_keys=True)).encode()).hexdigest()[:7], 16)
    return dict(n=n, i=o["i"], o=[styp(t) for t in o["o"]], a=a or {"": 0}, h=h)


def sgraph(g, S):
    if g is None:
        return dict(args=[], sig=[], ret=[], ops=[], outs=[])
    return dict(args=[styp(t) for t in g["args"]], sig=[styp(t) for t in g["sig"]], ret=[styp(t) for t in g["ret"]],
                ops=[sop(o, S) for o in g["ops"]], outs=g["outs"])


def value(t, vals, S):
    """A sample input: vals scaled already for f32."""
    return vals


def pname(p):
    n, _, r = p.partition("{")
    tgt = r.rstrip("}").partition("=")[2] if r else ""
    return dict(**{"pass": n.strip()}, target=tgt or "none")


def history(case, res):
    S = case["S"]
    p = [pname(x) for x in case["passes"]]
    if not res["g"]:
        # died: the first graph is unknown; an empty one with a failed pass is rejected
        e = dict(args=[], sig=[], ret=[], ops=[], outs=[])
        return dict(S=S, p=p[:1], ok=[False], g=[e], xs=[])
    n = len(res["ok"])
    return dict(S=S, p=p[:n], ok=res["ok"], g=[sgraph(g, S) for g in res["g"]], xs=case["xs"])
