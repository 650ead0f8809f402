"""Runs the checks: design models, cases, real executions, trace validation."""
import json, os, random, sys
import vlib, opgen, opchecks
from vlib import log, CheckError


def tier(q, t):
    return t if vlib.TIER == "thorough" else q


def judge_histories(pid, module, cases, histories, rerun, verdict_env=None, batch=3000, lenient=False):
    """TLC decides every history; rejected ones are re-executed and decided
    again.  Returns (violations, stats).  lenient: a rejection that does not
    repeat is no error (rerun uses another build)."""
    gen = dist = 0
    rejected = []
    for b in range(0, len(histories), batch):
        acc, _, st = vlib.tlc_decide(module, histories[b:b + batch], env=verdict_env)
        gen += st["generated"]
        dist += st["distinct"]
        rejected += [b + i for i in range(len(histories[b:b + batch])) if i not in acc and id(cases[b + i]) not in vlib.NOT_RUN]
    viol = []
    if rejected:
        log("%d of %d histories rejected; confirming" % (len(rejected), len(histories)))
        some = rejected[:20]
        again = rerun(some)
        acc, _, _ = vlib.tlc_decide(module, again, env=verdict_env)
        conf = [i for k, i in enumerate(some) if k not in acc]
        if conf:
            k = [j for j, i in enumerate(some) if i in conf]
            stuck = vlib.tlc_explain(module, [again[j] for j in k], env=verdict_env)
            for n, j in enumerate(k):
                viol.append(dict(property=pid, module=module, case=cases[some[j]], history=again[j], rejected_step=stuck.get(n, (0, ""))[0],
                                 why=stuck.get(n, (0, ""))[1][:4000]))
        if not conf and lenient:
            log("rejections not confirmed: %s" % json.dumps(brief(cases[some[0]]))[:1500])
            return [], dict(generated=gen, distinct=dist, rejected=0)
        if not conf:
            raise CheckError("rejections did not repeat on re-execution: %s" % rejected[:5])
    return viol, dict(generated=gen, distinct=dist, rejected=len(rejected))


def report(pid, viol, nrej):
    """Known findings are listed; anything else is a violation."""
    bad = []
    for v in viol:
        path = vlib.write_replay(pid, v)
        bad.append(path)
    if bad:
        v = viol[0]
        print("rejected histories: %d; first: step %s of %s" % (nrej, v.get("rejected_step"), json.dumps(brief(v["case"]))[:600]))
        print("specification: " + v.get("why", "")[:600])
        print("VIOLATION property=%s replay=%s" % (pid, bad[0]), flush=True)
    return bool(bad)


def brief(case):
    if isinstance(case, dict) and "net" in case:
        import netgen
        return netgen.brief(case)
    if isinstance(case, dict) and "cfg" in case:
        c = {k: v for k, v in case["cfg"].items() if k not in ("w", "mul", "bias", "thr", "in")}
        return dict(cfg=c, shape=case.get("shape0"), steps=[{k: v for k, v in s.items() if k != "x"} for s in case["steps"]][:12])
    return case


def run_ops(driver, cases, timeout=100, gemm=None):
    res = vlib.run_histories(driver, [opgen.script(c) for c in cases], timeout)
    for c, (ev, status) in zip(cases, res):
        if status == "not run":
            vlib.not_run(c)
    if gemm is not None:
        for i, (ev, status) in enumerate(res):
            for e in ev:
                if "gemm" in e:
                    gemm.append((i, e["gemm"]))
    return [opgen.history(c, *r) for c, r in zip(cases, res)]


# property -> (design models, generator, quick n, thorough n)
OPS = {
    "C01": (["RoundTrip"], opchecks.C01, 1500, 40000),
    "C02": (["RoundTrip"], opchecks.C02, 1500, 40000),
    "C03": (["BinaryDot", "Geometry"], opchecks.C03, 3000, 60000),
    "C04": (["BinaryDot"], opchecks.C04, 2500, 40000),
    "C05": (["PadCache", ("PadCache", "PadCacheOriginal"), "Geometry"], opchecks.C05, 3000, 60000),
    "C06": (["BinaryDot"], opchecks.C06, 3500, 60000),
    "C07": (["BinaryDot"], opchecks.C07, 2500, 50000),
    "C08": (["BinaryDot"], opchecks.C08, 2000, 40000),
    "C09": (["Geometry"], opchecks.C09, 2500, 50000),
    "C10": (["Lifecycle", ("Lifecycle", "LifecycleOriginal")], opchecks.C10, 1400, 30000),
    "C11": (["Geometry"], opchecks.C11, 6000, 100000),
    "C12": (["Gemm"], opchecks.C12, 900, 20000),
    "C13": (["Lifecycle"], opchecks.C13, 2500, 40000),
    "C14": ([], opchecks.C14, 800, 10000),
}
ASSUME = ["The ops are compiled unmodified from /repo, for the host (portable C++ kernels) and for AArch64 (assembly kernels, interpreted by /verif/arm), against /verif/shim, which stands in for TensorFlow Lite, ruy and flexbuffers.",
          "TLC, gcc, clang's AArch64 back end, the interpreter in /verif/arm and the host CPU are trusted."]


# The AArch64 code of the ops, interpreted (armbuild.py).  It runs the same
# cases; a history equal to the portable one has the same verdict, any other is
# judged by itself.
A64 = set(OPS)
A64_ARGS = dict(quick=[dict()], thorough=[dict(), dict(opt="-O2", defs=("-DRUY_SHIM_FAT=0", "-DRUY_SHIM_OPT_MAX_STREAMING=0"))])
_skip = {}


def a64_driver(**kw):
    """None when the tree does not build for AArch64 here."""
    import armbuild
    k = json.dumps(kw, sort_keys=True)
    if k in _skip:
        return None
    try:
        return armbuild.build(**kw)
    except CheckError as e:
        log("no AArch64 run: %s" % str(e)[:1500])
        _skip[k] = 1


def a64_case(pid, case):
    """The case as it is judged for AArch64: exact ties of int8 results may be
    rounded either way (types.h), and float quantization may go by the sign bit
    (KNOWN_FINDINGS, aarch64-negative-zero)."""
    c = dict(case, a64=True)
    if c["cfg"]["op"] == "quant" and c["cfg"]["it"] == "f32":
        c["cfg"] = dict(c["cfg"], nz=1)
    judge = case.get("judge", opgen.JUDGE_ALL)
    if "agree" in judge and c["cfg"]["ot"] == "i8":
        if "value" in judge or "value1" in judge:
            c["judge"] = [x for x in judge if x not in ("agree", "value1", "value")] + ["value"]
        else:
            c["judge"] = ["near" if x == "agree" else x for x in judge]
            c["digest"] = False
    return c


def a64_pass(pid, cases, H, stat):
    """-> (violations, stats) of the histories that differ from H."""
    tot, viols = dict(generated=0, distinct=0, rejected=0), []
    for kw in A64_ARGS["thorough" if vlib.TIER == "thorough" else "quick"]:
        kw = dict(kw, sanitize=True) if pid == "C13" else kw
        d = a64_driver(**kw)
        if d is None:
            stat["skipped"] = "no AArch64 build"
            continue
        G = run_ops(d, cases, timeout=240)
        diff = [i for i in range(len(cases)) if G[i] != H[i]]
        C = [a64_case(pid, cases[i]) for i in diff]
        G = run_ops(d, C, timeout=240)
        stat["runs"] = stat.get("runs", 0) + len(cases)
        stat["judged"] = stat.get("judged", 0) + len(C)
        keep = [i for i, h in enumerate(G) if not uninterpreted(h)]
        stat["uninterpreted"] = stat.get("uninterpreted", 0) + len(C) - len(keep)
        if not keep:
            continue
        C, G = [C[i] for i in keep], [G[i] for i in keep]
        # confirmed by another compilation of the C++ around the kernels
        d2 = [None]

        def again(idx):
            d2[0] = d2[0] or a64_driver(**dict(kw, opt="-O0")) or d
            return run_ops(d2[0], [C[i] for i in idx], timeout=240)
        v, st = judge_histories(pid, "LceNodeTrace", C, G, again, lenient=True)
        for x in tot:
            tot[x] += st[x]
        viols += v
    return viols, tot


def uninterpreted(h):
    return any(s["e"] == "crash" and s["why"].startswith("A64:") for s in h["steps"])


def a64_known(pid):
    """Known findings of the AArch64 code, shown again on this tree."""
    import mlirchecks
    listed = mlirchecks.known_findings(pid)
    if "aarch64-negative-zero" in listed:
        d = a64_driver()
        if d:
            case = dict(cfg=dict(op="quant", kernels=["op"], missing=[], o=dict(x=0), ot="i32", it="f32", affine=False, dyn=False, nout=1, izp=0, os=[0, 0], fs=1, **{"in": [dict(t="f32", s=[1, 128])]}),
                        shape0=[1, 128], opts=[], const=[], rawopt="", judge=opchecks.VALUE, steps=[dict(e="alloc"), dict(e="feed", x=[0] * 128), dict(e="invoke", fill=0)])
            acc, _, _ = vlib.tlc_decide("LceNodeTrace", run_ops(d, [case]))
            if 0 not in acc:
                print("KNOWN-FINDING: property=%s %s" % (pid, listed["aarch64-negative-zero"]), flush=True)


def check_ops(pid):
    models, gen, nq, nt = OPS[pid]
    for m in models:
        if isinstance(m, tuple):
            vlib.model(m[0], m[1], expect_violation=True)
        else:
            vlib.model(m)
    n = tier(nq, nt)
    san = pid == "C13"
    driver = vlib.build_ops_driver(sanitize=san)
    log("driver built; models checked")
    total = viol = None
    agg = dict(generated=0, distinct=0, rejected=0)
    nh = 0
    samples, viols, opsm, a64 = [], [], {}, {}
    chunk = 6000
    rng = random.Random("%s-%d" % (pid, vlib.SEED))
    done = 0
    while done < n:
        k = min(chunk, n - done)
        cases = gen(rng, k)
        done += k
        gemm = [] if pid == "C12" else None
        H = run_ops(driver, cases, gemm=gemm)
        for c in cases:
            key = c["cfg"]["op"] + ":" + c["cfg"]["ot"]
            opsm[key] = opsm.get(key, 0) + 1
        v, st = judge_histories(pid, "LceNodeTrace", cases, H, lambda idx: run_ops(driver, [cases[i] for i in idx]))
        for x in agg:
            agg[x] += st[x]
        nh += len(H)
        viols += v
        if pid in A64 and not v:
            v, st = a64_pass(pid, cases, H, a64)
            for x in agg:
                agg[x] += st[x]
            viols += v
        if gemm:
            def again(idx):
                r = []
                for i in idx:
                    g = []
                    run_ops(driver, [cases[gemm[i][0]]], gemm=g)
                    r.append(g[0][1] if g else gemm[i][1])
                return r
            v2, st = judge_histories(pid, "GemmTrace", [cases[i] for i, _ in gemm], [g for _, g in gemm], again)
            for x in agg:
                agg[x] += st[x]
            nh += len(gemm)
            viols += v2
            v = v or v2
        if not samples:
            samples = [brief(cases[i]) for i in (0, len(cases) // 2, len(cases) - 1)]
        log("%d histories, %d rejected" % (nh, agg["rejected"]))
        if v:
            break
    if pid in A64:
        a64_known(pid)
        log("AArch64: %s" % json.dumps(a64))
    return viols, agg, nh + a64.get("runs", 0), samples, dict(by_op_and_output=opsm, aarch64=a64)


def evidence_mc(pid, agg, nh, samples, extra, viols):
    states = sum(m[2]["distinct"] for m in vlib.MODELS) + agg["distinct"]
    trans = sum(m[2]["generated"] for m in vlib.MODELS) + agg["generated"]
    cov = dict(states=states, transitions=trans, traces_validated_against_impl=nh, samples=samples,
               models=[dict(module=m[0], config=m[1], distinct=m[2]["distinct"], generated=m[2]["generated"]) for m in vlib.MODELS],
               trace_states=agg["distinct"])
    cov.update(extra)
    vlib.write_evidence(pid, "model_checking", cov, ASSUME if pid in OPS else getattr(other(pid), "assume", ASSUME), len(viols))


def other(pid):
    import otherchecks, pychecks, mlirchecks, apichecks, progchecks
    return {**otherchecks.CHECKS, **pychecks.CHECKS, **mlirchecks.CHECKS, **apichecks.CHECKS, **progchecks.CHECKS}[pid]


def replay(path):
    """Re-executes a recorded case on the current tree."""
    v = json.load(open(path))
    if v["property"] not in OPS:
        h = [other(v["property"]).rerun(v["case"])]
        return replayed(v, h, path)
    case = v["case"]
    driver = a64_driver(**(dict(sanitize=True) if v["property"] == "C13" else {})) if case.get("a64") else vlib.build_ops_driver(sanitize=v["property"] == "C13")
    if not driver:
        raise CheckError("no AArch64 build")
    g = []
    h = run_ops(driver, [case], gemm=g)
    if v["module"] == "GemmTrace":
        h = [g[0][1]]
    return replayed(v, h, path)


def replayed(v, h, path):
    acc, _, _ = vlib.tlc_decide(v["module"], h)
    stuck = {} if 0 in acc else vlib.tlc_explain(v["module"], h)
    if 0 in acc:
        print("replay: accepted")
        return 0
    print("replay: rejected at step", stuck.get(0))
    print("VIOLATION property=%s replay=%s" % (v["property"], path))
    return 1


def main(argv):
    if argv[0] == "--replay":
        return replay(argv[1])
    pid = argv[0]
    if pid in OPS:
        viols, agg, nh, samples, extra = check_ops(pid)
    else:
        viols, agg, nh, samples, extra = other(pid)()
    evidence_mc(pid, agg, nh, samples, extra, viols)
    if report(pid, viols, agg["rejected"]):
        return 1
    log("property %s holds on %d histories" % (pid, nh))
    return 0


if __name__ == "__main__":
    try:
        rc = main(sys.argv[1:])
    except CheckError as e:
        print("CHECK ERROR: %s" % e, flush=True)
        rc = 2
    sys.exit(rc)
