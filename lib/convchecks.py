"""Conversions through the extension's entry points; Convert.tla decides them."""
import json, os, random, subprocess, sys, tempfile
import vlib, convext, mlirgen, mlirgraph
from vlib import log

PY = "/opt/lce/venv/bin/python"
DRV = os.path.join(vlib.VERIF, "drivers", "conv_driver.py")
DT = {1: "float", 11: "qint8"}


def run(ext, cases, chunk=40):
    res = [None] * len(cases)
    pat = vlib.Patience()

    def one(ids):
        ids = list(ids)
        if pat.gone:
            for k in ids:
                vlib.not_run(cases[k])
                res[k] = dict(ev=[], ok=None, err="died: not run", out="")
            return
        with tempfile.TemporaryDirectory(prefix="lcev") as d:
            i, o = os.path.join(d, "i"), os.path.join(d, "o")
            with open(i, "w") as f:
                for k in ids:
                    f.write(json.dumps({x: cases[k].get(x) for x in ("kind", "text", "args", "fail", "out", "missing")}) + "\n")
            rc, err = vlib.watched([PY, DRV, ext, i, o], o, 40 + len(ids))
            got = open(o).read().splitlines() if os.path.exists(o) else []
            if rc == 0 and len(got) == len(ids):
                for k, x in zip(ids, got):
                    res[k] = json.loads(x)
            elif len(ids) == 1:
                pat.saw(rc)
                res[ids[0]] = dict(ev=[], ok=None, err="died: %s %s" % (rc, err[-500:]), out="")
            else:
                m = len(ids) // 2
                one(ids[:m])
                one(ids[m:])
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        list(ex.map(one, mlirgraph.chunked(len(cases), chunk)))
    return res


def request(c):
    sv = c["kind"] == "saved_model"
    r = dict(kind=c["kind"], names=[], dtypes=[], shapes=[], outputs=[], tags=[], exported=[], version=0, entries=c["entries"], v1=c["v1"], fails=c["fail"], out=c["out"], quant=True)
    if c.get("missing"):
        r["fails"] = "import"
    if sv:
        r["tags"], r["exported"], r["version"], r["target"], rg = c["args"]
    else:
        r["names"], r["dtypes"], r["shapes"], r["outputs"], r["quant"], r["target"], rg = c["args"]
    r["range"] = [hexd(x) for x in rg["tuple"]] if rg else []
    return r


def hexd(x):
    return float(x).hex()


def norm(x):
    return float.fromhex(x).hex()


def history(c, res):
    """What ConvertTrace is told."""
    S = c["S"]
    h = dict(S=S, xs=c["xs"], req=request(c), freeze=[], assets=[], quantize=[], default=[], layout=[], e=[])
    dflt, cur, exported = [], None, None
    for e in res["ev"]:
        k = e["e"]
        if k == "import":
            a = {x: y for x, y in e.items() if x not in ("e", "dir")}
            if "shapes" in a:
                a["shapes"] = [dict(given=s != "none", d=[] if s == "none" else s) for s in a["shapes"]]
            if a["kind"] == "saved_model":
                a["dir"] = e["dir"] == res.get("dir")
                a["tags"] = sorted(a["tags"])
            h["e"].append(dict(e="import", a=a))
        elif k == "module":
            cur = e["g"]
            h["e"].append(dict(e="module", g=mlirgraph.sgraph(cur, S)))
        elif k == "pass":
            before = cur
            cur = e.get("g") or cur
            if e["n"] == "tfl-default-quant":
                dflt.append((before, cur))
            if exported is not None and e["n"].startswith("lce-translate-tfl"):
                exported["g"] = mlirgraph.sgraph(cur, S)
        elif k == "quantize":
            h["quantize"].append(dict(type=DT.get(e["type"], "?"), input=DT.get(e["input"], "?"), ranges=[bool(x) for x in e["ranges"]], post=e["post"]))
        elif k == "default":
            h["default"].append(dict(min=norm(e["min"]), max=norm(e["max"]), signed=e["signed"]))
        elif k == "layout":
            h["layout"].append(e["format"])
        elif k == "freeze":
            h["freeze"].append(e["session"])
        elif k == "assets":
            h["assets"].append(e["dir"] == res.get("dir"))
        elif k == "export":
            for a, b in dflt:
                h["e"].append(dict(e="default", before=mlirgraph.sgraph(a, S), g=mlirgraph.sgraph(b, S)))
            cur = e["g"]
            exported = dict(e="export", a=dict(tags=sorted(e["tags"]), custom=e["custom"], select=e["select"], stablehlo=e["stablehlo"]),
                            names=[dict(own=a, used=u) for a, u in e["names"]], kernel=mlirgraph.sgraph(cur, S), g=mlirgraph.sgraph(cur, S))
            h["e"].append(exported)
    if res["ok"]:
        h["e"].append(dict(e="return", out=res["out"] if res.get("bytes") else "not bytes"))
    elif res["ok"] is not None:
        h["e"].append(dict(e="error"))
    return h


def histories(ext, cases):
    return [history(c, r) for c, r in zip(cases, run(ext, cases))]
