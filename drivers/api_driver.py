"""Calls the converter's Python API (larq_compute_engine/mlir/python/converter.py)
with real TensorFlow and larq models.  Usage: api_driver.py EXT IN OUT.  The
extension module is replaced by a proxy: it imports the model it is given with
TensorFlow, prints it as MLIR, and has the real extension (EXT, in a process of
its own without TensorFlow: conv_driver.py) convert it.
IN: one JSON call per line (lib/apigen.py); OUT: one JSON line per call."""
import contextlib, json, os, shutil, subprocess, sys, tempfile, types, warnings
os.environ.update(TF_USE_LEGACY_KERAS="1", TF_CPP_MIN_LOG_LEVEL="3", CUDA_VISIBLE_DEVICES="")
EXT, IN, OUT = sys.argv[1:4]
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("LCE_REPO", "/repo")
sys.dont_write_bytecode = True
import numpy as np
import tensorflow as tf
import larq as lq
from tensorflow.lite.python import schema_py_generated as S
from tensorflow.python.framework.convert_to_constants import convert_variables_to_constants_v2

for n in ("larq_compute_engine", "larq_compute_engine.mlir", "larq_compute_engine.mlir.python"):
    p = types.ModuleType(n)
    p.__path__ = [os.path.join(REPO, n.replace(".", "/"))]
    sys.modules[n] = p
sys.modules["larq_compute_engine.mlir.python.tflite_schema"] = S
native = types.ModuleType("larq_compute_engine.mlir._tf_tfl_flatbuffer")
sys.modules[native.__name__] = native
SCRATCH = tempfile.mkdtemp(prefix="lcev")
K = tf.keras

# ---- the extension ---------------------------------------------------------------
helper = None
calls, plan = [], []


def convert(case):
    global helper
    if helper is None or helper.poll() is not None:
        helper = subprocess.Popen([sys.executable, os.path.join(HERE, "conv_driver.py"), EXT], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, text=True)
    helper.stdin.write(json.dumps(case) + "\n")
    helper.stdin.flush()
    line = helper.stdout.readline()
    return json.loads(line) if line else dict(ev=[], ok=None, err="died", out="")


def js(x):
    if isinstance(x, tuple):
        return {"tuple": [js(y) for y in x]}
    if isinstance(x, list):
        return [js(y) for y in x]
    return x if x is None or isinstance(x, (str, int, float, bool)) else {"other": str(x)}


def mlir(f):
    t = tf.mlir.experimental.convert_function(f, pass_pipeline="tf-standard-pipeline", show_debug_info=False)
    return t.replace("}> {", ", ").replace("<{", "{").replace("}>", "}") if "<{" in t else t


def request(kind, args, importer, names=None):
    """Serves a call of one of the extension's entry points (its first argument is the model)."""
    k = len(calls)
    c = dict(kind=kind, args=[js(a) for a in args[1:]], fail=plan[k]["fail"] if k < len(plan) else "", out=plan[k]["bytes"].hex() if k < len(plan) else "")
    calls.append(c)
    try:
        f = importer(*args)
        c["text"] = mlir(f)
        c["innames"] = names or [t.name.split(":")[0] for t in f.inputs]
    except Exception as e:
        c["importer"] = "%s: %s" % (type(e).__name__, str(e)[:300])
        raise RuntimeError("import failed")
    r = convert(c)
    c["res"] = r
    if not r["ok"]:
        raise RuntimeError(r["err"])
    return bytes.fromhex(r["out"])


def load_saved(d, tags, exported, version, target, rng):
    if not isinstance(d, str):
        raise TypeError("saved_model_dir")
    m = tf.saved_model.load(d, tags=list(tags))
    return convert_variables_to_constants_v2(m.signatures[exported[0]], lower_control_flow=False)


DT = dict(DT_FLOAT=tf.float32, DT_INT32=tf.int32, DT_BOOL=tf.bool)


def load_graph(gd, names, dtypes, shapes, outs, quant, target, rng):
    g = tf.compat.v1.GraphDef.FromString(gd)

    def f(*xs):
        return tf.graph_util.import_graph_def(g, input_map={n if ":" in n else n + ":0": x for n, x in zip(names, xs)},
                                              return_elements=[o if ":" in o else o + ":0" for o in outs], name="")
    F = tf.compat.v1.wrap_function(f, [tf.TensorSpec(s, DT[d], name="a%d" % i) for i, (s, d) in enumerate(zip(shapes, dtypes))])
    # functions of the graph (branches) stay where they are
    return F


def graph_request(*a):
    return request("graphdef", a, load_graph, names=list(a[1]))


def saved_request(*a):
    return request("saved_model", a, load_saved)


native.convert_graphdef_to_tflite_flatbuffer = graph_request
native.convert_saved_model_to_tflite_flatbuffer = saved_request
from larq_compute_engine.mlir.python import converter, util  # noqa: E402

# ---- exported bytes ----------------------------------------------------------------


def flatbuffer(kind):
    """A small serialized model: "int8" converts its float input and output,
    "uint8" converts from/to uint8, "float" has no conversions."""
    import flatbuffers
    if kind.startswith("hex:"):
        return bytes.fromhex(kind[4:])
    q = S.TensorType.UINT8 if kind == "uint8" else S.TensorType.INT8
    ts = []
    for i, t in enumerate([S.TensorType.FLOAT32, q, q, S.TensorType.FLOAT32] if kind != "float" else [S.TensorType.FLOAT32] * 2):
        t_ = S.TensorT()
        t_.name, t_.type, t_.shape, t_.buffer = b"t%d" % i, t, [1, 4], 0
        ts.append(t_)

    def op(code, i, o):
        x = S.OperatorT()
        x.opcodeIndex, x.inputs, x.outputs = code, [i], [o]
        return x
    codes = [S.BuiltinOperator.QUANTIZE, S.BuiltinOperator.RELU, S.BuiltinOperator.DEQUANTIZE] if kind != "float" else [S.BuiltinOperator.RELU]
    m, g = S.ModelT(), S.SubGraphT()
    g.tensors, g.name = ts, b"main"
    g.inputs, g.outputs = [0], [len(ts) - 1]
    g.operators = [op(i, i, i + 1) for i in range(len(codes))]
    m.operatorCodes = []
    for c in codes:
        x = S.OperatorCodeT()
        x.builtinCode, x.deprecatedBuiltinCode, x.version = c, min(c, 127), 1
        m.operatorCodes.append(x)
    b = S.BufferT()
    b.data = []
    m.version, m.description, m.subgraphs, m.buffers, m.signatureDefs = 3, b"", [g], [b], []
    bld = flatbuffers.Builder(1024)
    bld.Finish(m.Pack(bld), file_identifier=b"TFL3")
    return bytes(bld.Output())


# ---- models --------------------------------------------------------------------------
class FakeQuant(K.layers.Layer):
    def __init__(self, kind, **kw):
        super().__init__(**kw)
        self.kind = kind

    def call(self, x):
        if self.kind == "args":
            return tf.quantization.fake_quant_with_min_max_args(x, min=-32.0, max=31.75)
        if self.kind == "vars":
            return tf.quantization.fake_quant_with_min_max_vars(x, -32.0, 31.75)
        if self.kind == "channel":
            n = x.shape[-1]
            return tf.quantization.fake_quant_with_min_max_vars_per_channel(x, [-32.0] * n, [31.75] * n)
        if self.kind == "qdq2":
            return tf.raw_ops.QuantizeAndDequantizeV2(input=x, input_min=-32.0, input_max=31.75, range_given=True)
        if self.kind == "qdq3":
            return tf.raw_ops.QuantizeAndDequantizeV3(input=x, input_min=-32.0, input_max=31.75, num_bits=8, range_given=True)
        # inside a function of the graph
        return tf.cond(tf.reduce_sum(x) > 0.0, lambda: tf.quantization.fake_quant_with_min_max_args(x, min=-32.0, max=31.75), lambda: x + 1.0)


class Scale(K.layers.Layer):
    """Multiplies with and adds constants."""
    def __init__(self, mul, add, **kw):
        super().__init__(**kw)
        self.m, self.a = np.float32(mul), np.float32(add)

    def call(self, x):
        return x * self.m + self.a


def quarters(rng, shape, lo=-8, hi=8):
    return (rng.integers(lo, hi + 1, shape) / 4).astype(np.float32)


def weights(rng, layer, kind, bits):
    ws = []
    for v in layer.weights:
        n, s = v.name.split("/")[-1].split(":")[0], tuple(v.shape)
        if n in ("kernel", "depthwise_kernel", "pointwise_kernel"):
            w = quarters(rng, s, -8, 8)
            if kind == "magnitude_aware_sign":
                # every weight of an output channel has the same magnitude
                w = np.where(rng.random(s) < 0.5, -1, 1) * rng.choice([0.25, 0.5, 1.0, 2.0], s[-1]).reshape([1] * (len(s) - 1) + [-1])
            elif kind:
                w = np.clip(w / 2, -1, 1)
            ws.append(w.astype(np.float32))
        elif n == "gamma":
            ws.append(rng.choice([0.5, -0.5, 1.0, 2.0, -1.0], s).astype(np.float32))
        elif n == "beta":
            ws.append((quarters(rng, s) + 2.0 ** -bits).astype(np.float32))
        elif n == "moving_variance":
            ws.append((rng.choice([0.25, 1.0, 4.0], s) - 2.0 ** -10).astype(np.float32))
        else:
            ws.append(quarters(rng, s))
    layer.set_weights(ws)


def build(c):
    rng = np.random.default_rng(c["seed"])
    vs, ins = [], []
    for i in c["inputs"]:
        x = K.Input(shape=[None if d < 0 else d for d in i["shape"]], dtype=i.get("dtype", "float32"), name=i.get("name"), batch_size=c.get("batch"))
        ins.append(x)
        vs.append(x)
    for l in c["layers"]:
        k = l["op"]
        x = [vs[i] for i in l["in"]]
        a = l.get("a", {})
        nm = l.get("name")
        if k == "call":
            f = getattr(tf, a["f"]) if hasattr(tf, a["f"]) else getattr(tf.nn, a["f"])
            vs.append(K.layers.Lambda(lambda z, f=f: f(z), name=nm)(x[0]))
            continue
        if k == "cast":
            vs.append(K.layers.Lambda(lambda z: tf.cast(z, tf.float32), name=nm)(x[0]))
            continue
        if k == "fq":
            layer = FakeQuant(a["kind"], name=nm)
        elif k == "scale":
            layer = Scale(a["mul"], a["add"], name=nm)
        elif k in ("QuantConv2D", "QuantDepthwiseConv2D", "QuantDense", "QuantSeparableConv2D"):
            layer = getattr(lq.layers, k)(name=nm, **a)
        elif k == "BatchNormalization":
            layer = K.layers.BatchNormalization(epsilon=2.0 ** -10, name=nm, **a)
        elif k == "quantizer":
            vs.append(K.layers.Lambda(lambda z, q=getattr(lq.quantizers, a["q"])(): q(z), name=nm)(x[0]))
            continue
        else:
            layer = getattr(K.layers, k)(name=nm, **a)
        y = layer(x if len(x) > 1 else x[0])
        weights(rng, layer, a.get("kernel_quantizer") or a.get("depthwise_quantizer"), l.get("bits", 5))
        vs.append(y)
    outs = [vs[i] for i in c["outs"]]
    m = K.Model(ins if len(ins) > 1 else ins[0], outs if len(outs) > 1 else outs[0])
    if c.get("subclass"):
        class Sub(K.Model):
            def __init__(self, inner):
                super().__init__()
                self.inner = inner

            @tf.function(input_signature=[tf.TensorSpec([None] + list(c["inputs"][0]["shape"]), tf.float32, name="x")])
            def call(self, x):
                return self.inner(x)
        s = Sub(m)
        s(np.zeros([1] + list(c["inputs"][0]["shape"]), np.float32))
        s.inner_model = m
        return s, m
    return m, m


def typ(t):
    return dict(int8=tf.int8, float32=tf.float32, int16=tf.int16, uint8=tf.uint8, float16=tf.float16, none=None)[t]


def run(c):
    calls.clear()
    plan[:] = [dict(fail=f, bytes=flatbuffer(b)) for f, b in zip(c["fails"], c["bytes"])]
    K.backend.clear_session()
    r = dict()
    K.mixed_precision.set_global_policy(c.get("mixed") or "float32")
    m, inner = build(c)
    K.mixed_precision.set_global_policy("float32")
    xs = []
    for s in c["xs"]:
        xs.append([np.array(v, i.get("dtype", "float32")).reshape([c.get("batch") or 1] + list(i["shape"])) if -1 not in i["shape"] else None
                   for v, i in zip(s, c["inputs"])])
    ys = []
    for s in xs:
        if any(v is None for v in s):
            break
        y = m(s if len(s) > 1 else s[0], training=False)
        ys.append([np.asarray(v).astype(np.float64).reshape(-1).tolist() for v in (y if isinstance(y, (list, tuple)) else [y])])
    r["ys"] = ys
    r["innames"] = [t.name.split(":")[0] for t in inner.inputs] if not c.get("subclass") else ["x"]
    r["inputs"] = [dict(name=n, dtype="DT_INT32" if i.get("dtype") == "int32" else "DT_FLOAT", dims=[c.get("batch") or -1] + list(i["shape"])) for n, i in zip(r["innames"], c["inputs"])]
    r["fq"] = any(l["op"] == "fq" for l in c["layers"])
    w0 = [w.copy() for w in m.get_weights()]
    state = lambda: [m.trainable, m.name] + [[l.name, l.trainable, json.dumps(l.get_config(), default=str)] for l in m.layers] + [[v.name, v.trainable] for v in m.weights]
    s0 = state()
    tmp = tempfile.mkdtemp(dir=SCRATCH)
    kw = dict(inference_input_type=typ(c["in"]), inference_output_type=typ(c["out"]), target=c["target"])
    for k in c.get("omit", []):
        kw.pop(k)
    if c["range"] is not None:
        kw["experimental_default_int8_range"] = tuple(c["range"])
    elif c.get("range_given"):
        kw["experimental_default_int8_range"] = None
    saved = None
    if c["api"] == "saved_model":
        saved = os.path.join(tempfile.mkdtemp(dir=SCRATCH), "model")
        if c.get("there", True):
            m.save(saved, save_format="tf")
            if c.get("version") is not None:
                from tensorflow.core.protobuf import saved_model_pb2
                p = os.path.join(saved, "saved_model.pb")
                pb = saved_model_pb2.SavedModel.FromString(open(p, "rb").read())
                pb.saved_model_schema_version = c["version"]
                open(p, "wb").write(pb.SerializeToString())
        import pathlib
        arg = pathlib.Path(saved) if c.get("path") else saved
        f = converter.convert_saved_model
    else:
        arg, f = m, converter.convert_keras_model
        if c.get("notmodel"):
            arg = dict(layer=m.layers[-1], path=os.path.join(tmp, "m"), none=None, cls=K.Model)[c["notmodel"]]
    tempfile.tempdir = tmp
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            with (tf.Graph().as_default() if c.get("graph") else contextlib.nullcontext()):
                b = f(arg, **kw)
            r["end"] = "returned"
            r["out"] = b.hex() if isinstance(b, bytes) else "not bytes"
        except Exception as e:
            r["end"] = "raised"
            mro = [t.__name__ for t in type(e).__mro__]
            r["error"] = next((n for n in ("ValueError", "RuntimeError", "OSError", "TypeError") if n in mro), mro[0])
            r["message"] = str(e)[:300]
    tempfile.tempdir = None
    ws = [str(w.message) for w in ws]
    r["dummy"] = any("experimental_default_int8_range" in w for w in ws)
    r["fallback"] = any("falling back" in w for w in ws)
    r["left"] = len([x for x in os.listdir(tmp) if os.path.isdir(os.path.join(tmp, x)) and x != "__pycache__"])
    r["intact"] = all(np.array_equal(a, b) for a, b in zip(w0, m.get_weights())) and state() == s0
    r["mods"] = []
    for b in plan:
        try:
            x = util.modify_integer_quantized_model_io_type(b["bytes"], inference_input_type=typ(c["in"]), inference_output_type=typ(c["out"])).hex()
        except ValueError:
            x = "refused"
        except Exception as e:
            x = "refused" if len(b["bytes"]) < 20 else "?%s" % e
        r["mods"].append(x)
    r["raw"] = [b["bytes"].hex() for b in plan]
    r["calls"] = [dict(x) for x in calls]
    shutil.rmtree(tmp, ignore_errors=True)
    if saved:
        shutil.rmtree(os.path.dirname(saved), ignore_errors=True)
    return r


try:
    with open(OUT, "w") as o:
        for line in open(IN):
            c = json.loads(line)
            try:
                r = run(c)
            except Exception as e:
                import traceback
                r = dict(broken=traceback.format_exc()[-1500:])
            o.write(json.dumps(r) + "\n")
            o.flush()
finally:
    if helper is not None:
        helper.stdin.close()
        helper.wait()
    shutil.rmtree(SCRATCH, ignore_errors=True)
