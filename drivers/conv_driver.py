"""Runs conversions through the extension built by lib/convext.py (no TensorFlow
in this process).  Usage: conv_driver.py EXT [IN OUT]; IN: one JSON case per line
  {"kind": "graphdef"|"saved_model", "text": MLIR, "args": [...], "fail": "", "out": hex}
where args are the entry point's arguments after the model.  OUT: one JSON line
per case: {"ev": [events], "ok": bool, "err": text, "out": hex}.  Without IN and
OUT, serves cases from stdin to stdout."""
import importlib.util, json, os, shutil, sys, tempfile

spec = importlib.util.spec_from_file_location("_tf_tfl_flatbuffer", sys.argv[1])
ext = importlib.util.module_from_spec(spec)
spec.loader.exec_module(ext)
TMP = tempfile.mkdtemp(prefix="lcev")


def arg(x):
    return tuple(x["tuple"]) if isinstance(x, dict) and "tuple" in x else x


def convert(c):
    rec, out = os.path.join(TMP, "rec"), os.path.join(TMP, "out")
    for f in (rec, out):
        if os.path.exists(f):
            os.unlink(f)
    with open(out, "wb") as f:
        f.write(bytes.fromhex(c.get("out", "")))
    os.environ.update(LCEV_REC=rec, LCEV_OUT=out, LCEV_FAIL=c.get("fail", ""))
    args = [arg(a) for a in c["args"]]
    d = os.path.join(TMP, "model")
    r = dict(ok=True, err="", out="", dir=d)
    try:
        if c["kind"] == "graphdef":
            b = ext.convert_graphdef_to_tflite_flatbuffer(c["text"].encode(), *args)
        else:
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            if not c.get("missing"):
                with open(os.path.join(d, "module.mlir"), "w") as f:
                    f.write(c["text"])
            b = ext.convert_saved_model_to_tflite_flatbuffer(d, *args)
        r["out"] = b.hex()
        r["bytes"] = isinstance(b, bytes)
    except Exception as e:
        r.update(ok=False, err="%s: %s" % (type(e).__name__, e))
    shutil.rmtree(d, ignore_errors=True)
    r["ev"] = [json.loads(l) for l in open(rec)] if os.path.exists(rec) else []
    return r


try:
    if len(sys.argv) > 2:
        with open(sys.argv[3], "w") as o:
            for line in open(sys.argv[2]):
                o.write(json.dumps(convert(json.loads(line))) + "\n")
                o.flush()
    else:
        for line in sys.stdin:
            sys.stdout.write(json.dumps(convert(json.loads(line))) + "\n")
            sys.stdout.flush()
finally:
    shutil.rmtree(TMP, ignore_errors=True)
