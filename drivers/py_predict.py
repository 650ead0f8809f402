# Interpreter sessions; executed inside py_driver.py.
import ctypes, gc, importlib.util
import numpy as np
import io as _io

_EXT = os.environ.get("LCE_EXT")
if _EXT:
    _name = "larq_compute_engine.tflite.python.interpreter_wrapper_lite"
    _spec = importlib.util.spec_from_file_location("interpreter_wrapper_lite", _EXT)
    _mod = importlib.util.module_from_spec(_spec)
    _spec.loader.exec_module(_mod)
    sys.modules[_name] = _mod
    import larq_compute_engine.tflite.python as _pkg
    _pkg.interpreter_wrapper_lite = _mod
    _take = ctypes.CDLL(_EXT).lce_shim_take_log
    _take.restype = ctypes.c_char_p
    from larq_compute_engine.tflite.python.interpreter import Interpreter


def take_log():
    return [json.loads(x) for x in _take().decode().splitlines()]


def serialize(m):
    """The text format of shim/include/lite_shim.h"""
    def ints(v):
        return " ".join(map(str, [len(v)] + list(v)))
    L = ["LCESHIM1"]
    for t in m["tensors"]:
        q = t.get("q")
        L.append("T %d %s %d %d %d %s %s %s %d %s %s" % (
            t["type"], ints(t["s"]), 1 if "d" in t else 0, 1 if t.get("dyn") else 0, 1 if q else 0,
            " ".join([str(len(q["scales"]))] + [repr(x) for x in q["scales"]]) if q else "0",
            ints(q["zps"]) if q else "0", repr(q["scales"][0] if q else t.get("scale", 0.0)), q["zps"][0] if q else t.get("zp", 0), t["n"], t.get("d") or "-"))
    for n in m["nodes"]:
        L.append("N %s %d %s %s %s" % (n["op"], 1 if n["custom"] else 0, n.get("opts") or "-", ints(n["in"]), ints(n["out"])))
    L.append("I " + ints(m["inputs"]))
    L.append("O " + ints(m["outputs"]))
    return "\n".join(L).encode()


def mkarray(a):
    x = np.frombuffer(bytes.fromhex(a["d"]), dtype=np.dtype(a["t"])).reshape(a["s"]).copy()
    lay = a.get("layout", "C")
    if lay == "F":
        x = np.asfortranarray(x)
    elif lay == "strided" and x.ndim:
        big = np.zeros(x.shape[:-1] + (2 * x.shape[-1],), x.dtype)
        big[..., ::2] = x
        x = big[..., ::2]
    elif lay == "neg" and x.ndim:
        x = x[..., ::-1].copy()[..., ::-1]
    elif lay == "ro":
        x.setflags(write=False)
    elif lay == "off" and x.ndim:
        big = np.zeros((x.shape[0] + 2,) + x.shape[1:], x.dtype)
        big[1:-1] = x
        x = big[1:-1]
    return x


def arr(x):
    return dict(t=x.dtype.str, s=[int(v) for v in x.shape], d=np.ascontiguousarray(x).tobytes().hex())


def sample(parts):
    return [dict(arr(p), s=[1] + [int(v) for v in p.shape]) for p in parts]


def user_data(c):
    """What the caller passes, and the samples it stands for."""
    f = c["form"]
    if f.startswith("other"):
        return dict(tuple=(np.zeros((1, 1), np.float32),), none=None, dict={}, int=3, str="abc")[f[6:]], []
    if f == "array":
        x = mkarray(c["arrays"][0])
        return x, [sample([v]) for v in x]
    if f == "list":
        xs = [mkarray(a) for a in c["arrays"]]
        return xs, [sample(v) for v in zip(*xs)]
    items = [[mkarray(a) for a in it] for it in c["items"]]
    smp = [sample(it) for it in items]
    if f == "iter_array":
        return iter([it[0] for it in items]), smp
    if f == "gen_list":
        return (it for it in items), smp
    if f == "gen_tuple":
        return (tuple(it) for it in items), smp
    return iter(items), smp


def rows(x, n):
    if not isinstance(x, np.ndarray):
        return dict(t="type:" + type(x).__name__, s=[], rows=[])
    if n and x.ndim and x.shape[0] % n == 0:
        k = x.shape[0] // n
        return dict(t=x.dtype.str, s=[int(v) for v in x.shape], rows=[np.ascontiguousarray(x[i * k:(i + 1) * k]).tobytes().hex() for i in range(n)])
    return dict(t=x.dtype.str, s=[int(v) for v in x.shape], rows=["?"])


def meta(it):
    def get(name, f):
        try:
            v = getattr(it, name)
            return [f(x) for x in v] if isinstance(v, list) else ["type:" + type(v).__name__]
        except Exception as e:
            return ["error"]
    ty = lambda x: np.dtype(x).str
    sh = lambda x: list(map(int, x)) if isinstance(x, tuple) else ["type"]
    sc = lambda x: "None" if x is None else x.hex() if isinstance(x, float) else ",".join(v.hex() for v in x)
    zp = lambda x: "None" if x is None else str(int(x))
    return {s + n: get(s + n, f) for s in ("input", "output") for n, f in (("_types", ty), ("_shapes", sh), ("_scales", sc), ("_zero_points", zp))}


def predict(c):
    m = serialize(c["model"])
    data = bytes(bytearray(m))
    take_log()
    r = dict(built=False, err="", build={}, meta={}, calls=[])
    try:
        o = c["opts"]
        it = Interpreter(data, *o["args"], **o["kw"])
    except Exception as e:
        r["err"] = type(e).__name__
        return r
    del data
    churn = [bytes([i & 255]) * len(m) for i in range(64)]
    log = take_log()
    r["built"] = True
    r["build"] = log[0] if len(log) == 1 else {}
    if c.get("meta"):
        r["meta"] = meta(it)
    held = []
    for call in c["calls"]:
        x, smp = user_data(call)
        e, res, n = "", [], len(smp)
        kind = ""
        try:
            if call.get("verbose"):
                sys.stderr.flush()
            y = it.predict(x, verbose=call["verbose"]) if "verbose" in call else it.predict(x)
            kind = "array" if isinstance(y, np.ndarray) else "list" if isinstance(y, list) else type(y).__name__
            ys = [y] if kind == "array" else list(y)
            res = [rows(v, n) for v in ys]
            held.append((len(r["calls"]), ys, n))
        except Exception as ex:
            e = type(ex).__name__
        r["calls"].append(dict(form=call["form"], samples=smp, log=take_log(), err=e, kind=kind, res=res, kept=True))
    for k, ys, n in held:
        r["calls"][k]["kept"] = [rows(v, n) for v in ys] == r["calls"][k]["res"]
    return r


KINDS["predict"] = predict
