"""Calls of the converter's Python API on TensorFlow models; Api.tla decides them."""
import json, os, subprocess, tempfile
import vlib, convchecks, convext, mlirgraph, apigen

PY = "/opt/lce/venv/bin/python"
DRV = os.path.join(vlib.VERIF, "drivers", "api_driver.py")
SCHEMA_VERSION = 1  # of the SavedModels TensorFlow writes


def run(cases, procs=vlib.NCPU):
    ext = convext.build()
    res = [None] * len(cases)
    env = dict(os.environ, LCE_REPO=vlib.REPO)
    pat = vlib.Patience(1)

    def one(ids):
        ids = list(ids)
        if pat.gone:
            for k in ids:
                vlib.not_run(cases[k])
                res[k] = dict(died="not run")
            return
        with tempfile.TemporaryDirectory(prefix="lcev") as d:
            i, o = os.path.join(d, "i"), os.path.join(d, "o")
            with open(i, "w") as f:
                for k in ids:
                    f.write(json.dumps(cases[k]) + "\n")
            rc, err = vlib.watched([PY, DRV, ext, i, o], o, 200, cwd=d, env=env)
            got = open(o).read().splitlines() if os.path.exists(o) else []
            for k, x in zip(ids, got):
                res[k] = json.loads(x)
            if len(got) == len(ids):
                return
            pat.saw(rc)
            if not got:
                # nothing works: the Python code cannot be loaded, or its first call died
                res[ids[0]] = dict(died="%s %s" % (rc, err[-1500:]))
                rest = ids[1:]
            else:
                res[ids[len(got)]] = dict(died="%s %s" % (rc, err[-1500:]))
                rest = ids[len(got) + 1:]
            if rest and (got or len(ids) < 3):
                one(rest)
            else:
                for k in rest:
                    res[k] = dict(died="%s %s" % (rc, err[-1500:]))
    from concurrent.futures import ThreadPoolExecutor
    n = max(1, -(-len(cases) // procs))
    with ThreadPoolExecutor(procs) as ex:
        list(ex.map(one, mlirgraph.chunked(len(cases), n)))
    return res


def scaled(vals, bits):
    """The exact values of a model's output that was computed with rounding: multiples of 2^-bits."""
    out = []
    for v in vals:
        q = v * 2 ** bits
        if abs(q - round(q)) > 0.02 or abs(v) > 1e5:
            return None
        out.append(round(q) * apigen.S // 2 ** bits)
    return out


def history(c, r):
    S = apigen.S
    keras = c["api"] == "keras"
    call = dict(api=c["api"], model=not c.get("notmodel"), mixed=bool(c.get("mixed")), eager=not c.get("graph"), there=c.get("there", True),
                version=c["version"] if c.get("version") is not None else SCHEMA_VERSION, target=c["target"], range=[convchecks.hexd(x) for x in c["range"] or []],
                inputs=[dict(dtype=i["dtype"], dims=i["dims"]) for i in r.get("inputs", [])], nout=len(c["outs"]), fq=bool(r.get("fq")))
    call["in"], call["out"] = c["in"], c["out"]
    ys = [[scaled(v, b) for v, b in zip(s, c["bits"])] for s in r.get("ys", [])]
    if any(v is None for s in ys for v in s) or len(ys) != len(c["xs"]) or not c["xs"] or any(len(s) != len(c["outs"]) for s in ys):
        ys = []
    h = dict(S=S, call=call, ys=ys, conv=[], e=[], intact=bool(r.get("intact")), left=r.get("left", 0))
    if "end" not in r:
        h["e"].append(dict(e="raise", err="no result"))
        return h
    for k, x in enumerate(r["calls"]):
        if "importer" in x:
            # TensorFlow cannot import what it is asked to: an unknown or ill-typed tensor
            names, entries = [], [0]
        else:
            names, entries = [n.split(":")[0] for n in x["innames"]], [len(x["innames"])]
        cc = dict(kind=x["kind"], args=x["args"], S=S, entries=entries, v1=False, fail=x["fail"], out=x["out"])
        try:
            req = convchecks.request(cc)
        except Exception:
            req = dict(kind="malformed")
        where = {short(n): j + 1 for j, n in enumerate(r["innames"])}
        pos = [where.get(short(n), 0) for n in names]
        xs = []
        if c["xs"] and 0 not in pos:
            xs = [[[int(v * (S if c["inputs"][p - 1].get("dtype") != "int32" else 1)) for v in s[p - 1]] for p in pos] for s in c["xs"]]
        cc["xs"] = xs
        if req["kind"] == "malformed" or "importer" in x:
            hc = dict(e=[dict(e="import trouble: " + x.get("importer", ""))], freeze=[], assets=[], quantize=[], default=[], layout=[])
        else:
            hc = convchecks.history(cc, x["res"])
        h["conv"].append(dict(req=req, pos=pos, io=r["mods"][k] if k < len(r["mods"]) else "refused", xs=xs, **{n: hc[n] for n in ("freeze", "assets", "quantize", "default", "layout")}))
        h["e"].append(dict(e="request", k=k + 1))
        h["e"] += hc["e"]
    if r["end"] == "returned":
        h["e"].append(dict(e="deliver", out=r["out"], dummy=r["dummy"], fallback=r["fallback"]))
    else:
        h["e"].append(dict(e="raise", err=r["error"]))
    return h


def short(n):
    n = n.split("/")[-1]
    return n[len("serving_default_"):] if n.startswith("serving_default_") else n


def histories(cases):
    return [history(c, r) for c, r in zip(cases, run(cases))]


# ---- the checks ---------------------------------------------------------------------
CHECKS = {}
ASSUME = ["The Python code runs unmodified from /repo with the installed TensorFlow, Keras (tf_keras) and larq; the native extension it calls is the repository's, compiled as for C30/C31, in a process of its own, and is given the model as the installed TensorFlow imports it.",
          "Real arithmetic is modelled exactly (weights and samples are dyadic); a model's predictions are compared where the specification interprets all of its ops.",
          "The exporter of TensorFlow Lite is not available: it returns prepared bytes.",
          "TLC, gcc, MLIR, TensorFlow and the host CPU are trusted."]


def api_check(pid, gen, nq, nt, models):
    def check():
        import random, runner
        for m in models:
            vlib.model(m)
        convext.build()
        vlib.log("extension built; models checked")
        agg = dict(generated=0, distinct=0, rejected=0)
        viols, nh, samples, per, ops = [], 0, [], {}, {}
        rng = random.Random("%s-%d" % (pid, vlib.SEED))
        n = runner.tier(nq, nt)
        while nh < n and not viols:
            cases = [getattr(apigen, gen)(rng, vlib.TIER == "thorough") for _ in range(min(640, n - nh))]
            if not nh and gen == "gen_call":
                cases[:len(apigen.MISUSE)] = [apigen.gen_call(rng, False, m) for m in apigen.MISUSE]
            R = run(cases)
            for c, r in zip(cases, R):
                if "broken" in r:
                    raise vlib.CheckError("the driver cannot make a model: %s\n%s" % (json.dumps(c)[:2000], r["broken"]))
            H = [history(c, r) for c, r in zip(cases, R)]
            nh += len(H)
            for c, h in zip(cases, H):
                for k in ["api " + c["api"], "compared with predictions" if h["ys"] else "no predictions"] + ["event " + e["e"] for e in h["e"] if " " not in e["e"]]:
                    per[k] = per.get(k, 0) + 1
                for k in {l["op"] for l in c["layers"]}:
                    ops[k] = ops.get(k, 0) + 1
            v, st = runner.judge_histories(pid, "ApiTrace", cases, H, lambda idx: histories([cases[i] for i in idx]))
            for x in agg:
                agg[x] += st[x]
            viols += v
            if len(samples) < 3:
                samples.append(json.dumps(cases[len(cases) // 2])[:3000])
            vlib.log("%s: %d histories, %d rejected" % (gen, nh, agg["rejected"]))
        return viols, agg, nh, samples, dict(cases=per, layers=ops)
    check.rerun = lambda case: histories([case])[0]
    check.assume = ASSUME
    return check


C32 = api_check("C32", "gen_call", 480, 8000, ["ApiMC"])
C33 = api_check("C33", "gen_network", 320, 6000, ["ApiMC"])
CHECKS.update(C32=C32, C33=C33)
