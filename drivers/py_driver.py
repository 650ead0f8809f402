"""Runs the Python layer of the code under test on cases read from a file.
Usage: py_driver.py REPO CASES OUT   (one JSON value per line)"""
import hashlib, json, os, sys, types, warnings
warnings.filterwarnings("ignore")
repo, cases, out = sys.argv[1:4]
sys.path.insert(0, repo)
os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
from tensorflow.lite.python import schema_py_generated as S
import tensorflow as tf
import flatbuffers

# The three modules that are generated or compiled.  The schema is the real one.
stub = types.ModuleType("larq_compute_engine.mlir._tf_tfl_flatbuffer")
stub.convert_graphdef_to_tflite_flatbuffer = None
stub.convert_saved_model_to_tflite_flatbuffer = None
sys.modules["larq_compute_engine.mlir._tf_tfl_flatbuffer"] = stub
wrapper = types.ModuleType("larq_compute_engine.tflite.python.interpreter_wrapper_lite")
sys.modules["larq_compute_engine.tflite.python.interpreter_wrapper_lite"] = wrapper
sys.modules["larq_compute_engine.mlir.python.tflite_schema"] = S

from larq_compute_engine.mlir.python import util

if not util.__file__.startswith(repo.rstrip("/") + "/"):
    print("wrong module: " + util.__file__, file=sys.stderr)
    sys.exit(3)

BUILTIN = {v: k for k, v in vars(S.BuiltinOperator).items() if not k.startswith("_")}


def fp(*x):
    return hashlib.sha256(repr(x).encode()).hexdigest()[:10]


def ints(v):
    return [] if v is None else [int(x) for x in v]


# ---- model io --------------------------------------------------------------
def build(g):
    """A serialized model from the abstract description."""
    m = S.ModelT()
    m.version = 3
    m.description = g.get("desc", "generated")
    m.buffers = []
    for b in g["buffers"]:
        t = S.BufferT()
        if b:
            t.data = list(bytes.fromhex(b))
        m.buffers.append(t)
    m.operatorCodes = []
    for c in g["codes"]:
        o = S.OperatorCodeT()
        if c["b"] == "CUSTOM":
            o.builtinCode = o.deprecatedBuiltinCode = 32
            o.customCode = c["c"]
        else:
            o.builtinCode = getattr(S.BuiltinOperator, c["b"])
            o.deprecatedBuiltinCode = min(127, o.builtinCode)
        o.version = c.get("v", 1)
        m.operatorCodes.append(o)
    m.subgraphs = []
    for sg in g["subs"]:
        s = S.SubGraphT()
        s.name = sg["name"]
        s.tensors = []
        for t in sg["T"]:
            x = S.TensorT()
            x.name, x.type, x.shape, x.buffer = t["n"], t["t"], t["s"], t["b"]
            if t.get("q"):
                x.quantization = S.QuantizationParametersT()
                x.quantization.scale, x.quantization.zeroPoint = [t["q"][0]], [t["q"][1]]
            s.tensors.append(x)
        s.inputs, s.outputs = sg["I"], sg["U"]
        s.operators = []
        for o in sg["O"]:
            x = S.OperatorT()
            x.opcodeIndex, x.inputs, x.outputs = o["c"], o["i"], o["o"]
            if o.get("x"):
                x.intermediates = o["x"]
            if o.get("opt"):
                x.customOptions = list(bytes.fromhex(o["opt"]))
            if o.get("act") is not None:
                x.builtinOptionsType = S.BuiltinOptions.AddOptions
                x.builtinOptions = S.AddOptionsT()
                x.builtinOptions.fusedActivationFunction = o["act"]
            s.operators.append(x)
        m.subgraphs.append(s)
    if g["sigs"]:
        m.signatureDefs = []
        for sig in g["sigs"]:
            x = S.SignatureDefT()
            x.signatureKey, x.subgraphIndex = sig["k"], sig["sub"]
            for side in ("inputs", "outputs"):
                r = []
                for n, t in sig[side]:
                    y = S.TensorMapT()
                    y.name, y.tensorIndex = n, t
                    r.append(y)
                setattr(x, side, r)
            m.signatureDefs.append(x)
    b = flatbuffers.Builder(1024)
    b.Finish(m.Pack(b), file_identifier=b"TFL3")
    return bytes(b.Output())


def text(b):
    return b.decode() if isinstance(b, bytes) else (b or "")


def describe(data):
    """The abstract contents of a serialized model."""
    if data[4:8] != b"TFL3":
        return dict(bad="identifier")
    m = S.ModelT.InitFromObj(S.Model.GetRootAsModel(data, 0))
    bufs = [fp(ints(b.data)) for b in m.buffers or []]
    codes = []
    for c in m.operatorCodes or []:
        b = max(c.builtinCode, c.deprecatedBuiltinCode)
        codes.append("custom:" + text(c.customCode) if b == 32 else BUILTIN[b])
    subs = []
    for s in m.subgraphs:
        T = []
        for t in s.tensors:
            q = t.quantization
            T.append(dict(n=text(t.name), t=int(t.type), s=ints(t.shape),
                          q="" if q is None or q.scale is None else fp([float(x) for x in q.scale], ints(q.zeroPoint)),
                          b=bufs[t.buffer] if 0 <= t.buffer < len(bufs) else "bad"))
        O = []
        for o in s.operators:
            opt = fp(m.operatorCodes[o.opcodeIndex].version if 0 <= o.opcodeIndex < len(codes) else "bad", ints(o.customOptions), o.builtinOptionsType,
                     sorted((k, repr(v)) for k, v in vars(o.builtinOptions).items()) if o.builtinOptions is not None else None)
            O.append(dict(c=codes[o.opcodeIndex] if 0 <= o.opcodeIndex < len(codes) else "bad", f=opt,
                          i=[x + 1 for x in ints(o.inputs)], o=[x + 1 for x in ints(o.outputs)], x=[x + 1 for x in ints(o.intermediates)]))
        subs.append(dict(n=text(s.name), T=T, O=O, I=[x + 1 for x in ints(s.inputs)], U=[x + 1 for x in ints(s.outputs)]))
    sigs = [dict(k=text(x.signatureKey), sub=int(x.subgraphIndex) + 1,
                 I=[dict(n=text(t.name), t=int(t.tensorIndex) + 1) for t in x.inputs or []],
                 U=[dict(n=text(t.name), t=int(t.tensorIndex) + 1) for t in x.outputs or []]) for x in m.signatureDefs or []]
    return dict(subs=subs, sigs=sigs, codes=codes, rest=fp(m.version, m.description, m.metadataBuffer, [c.version for c in m.operatorCodes or []]))


TYPES = {"float32": tf.float32, "int8": tf.int8}
NOTHING = dict(subs=[], sigs=[], codes=[], rest="")


def modelio(c):
    data = build(c["g"])
    before = describe(data)
    try:
        if c["call"] == "modify":
            r = util.modify_integer_quantized_model_io_type(bytearray(data) if c.get("ba") else data, inference_input_type=TYPES[c["it"]],
                                                            inference_output_type=TYPES[c["ot"]])
        else:
            r = util.strip_lcedequantize_ops(data)
        if not isinstance(r, (bytes, bytearray)):
            return dict(before=before, err="type:" + type(r).__name__, after=NOTHING)
        return dict(before=before, err="", after=describe(bytes(r)))
    except Exception as e:
        return dict(before=before, err=type(e).__name__, after=NOTHING, msg=str(e)[:200])


KINDS = dict(modelio=modelio)
for extra in ("py_predict", "py_convert"):
    p = os.path.join(os.path.dirname(os.path.abspath(__file__)), extra + ".py")
    if os.path.exists(p):
        exec(compile(open(p).read(), p, "exec"))

with open(cases) as f, open(out, "w") as o:
    for line in f:
        c = json.loads(line)
        o.write(json.dumps(KINDS[c["kind"]](c), separators=(",", ":")) + "\n")
        o.flush()
    o.write('"end"\n')
