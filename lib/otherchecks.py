"""Checks that do not run through the op driver."""
import json, os, random, re, subprocess, tempfile
import vlib
from vlib import CheckError, log

MLIR_INC = "/usr/lib/llvm-18/include"
CHECKS = {}


def chunked(n, k):
    return [range(i, min(n, i + k)) for i in range(0, n, k)]


# ---- C15: set-batch-size -------------------------------------------------
def build_setbatch():
    drv = os.path.join(vlib.VERIF, "drivers", "setbatch_driver.cc")
    src = os.path.join(vlib.REPO, "larq_compute_engine/mlir/transforms/set_batch_size.cc")
    hdr = os.path.join(vlib.REPO, "larq_compute_engine/mlir/transforms/passes.h")
    key = vlib.tree_hash([drv, src, hdr])

    def builder(dst):
        flags = ["-std=c++17", "-O0", "-w", "-fno-rtti", "-I" + vlib.REPO, "-isystem", MLIR_INC, "-D__STDC_LIMIT_MACROS", "-D__STDC_CONSTANT_MACROS"]
        objs = [os.path.join(dst, os.path.basename(s) + ".o") for s in (drv, src)]
        vlib.parallel_compile([["g++"] + flags + ["-c", s, "-o", o] for s, o in zip((drv, src), objs)])
        vlib.parallel_compile([["g++"] + objs + ["-L/usr/lib/llvm-18/lib", "-Wl,-rpath,/usr/lib/llvm-18/lib", "-lMLIR", "-lLLVM-18", "-o", os.path.join(dst, "setbatch")]])
    return os.path.join(vlib.locked_build("setbatch", key, builder), "setbatch")


ELEMS = ["f32", "i32", "i1", "i8", "f16", "i64", "complex<f32>", "!quant.uniform<i8:f32, 0.5:3>", "!tf_type.resource", "index"]
OTHERS = ["tensor<*xf32>", "i32", "index", "f32", "memref<?x4xf32>", "vector<4xf32>", "tuple<tensor<?x4xf32>, i32>", "none",
          "!tf_type.string", "tensor<*x!tf_type.resource<tensor<?x4xf32>>>", "memref<*xf32>", "(tensor<?xf32>) -> tensor<?xf32>"]


def rtype(rng):
    if rng.random() < 0.2:
        return rng.choice(OTHERS)
    rank = rng.choice([0, 1, 1, 2, 2, 3, 4, 4, 5])
    dims = [rng.choice(["?", "?", "1", "2", "0", "7"]) for _ in range(rank)]
    enc = rng.choice(["", "", "", "", ', "enc"', ", {bounds = 3 : i64}", ", 7 : i32"])
    return "tensor<%s%s%s>" % ("".join(d + "x" for d in dims), rng.choice(ELEMS), enc)


def rmodule(rng):
    out = []
    for fi in range(rng.choice([1, 1, 2, 3, 5])):
        n = rng.choice([0, 1, 1, 2, 3, 4, 8])
        args = [rtype(rng) for _ in range(n)]
        res = [rtype(rng) for _ in range(rng.choice([0, 1, 2]))]
        name = "f%d" % fi
        attrs = rng.choice(["", "", ' attributes {tf.entry_function = {inputs = "a,b", outputs = "c"}, x = 3 : i32}'])
        if rng.random() < 0.15:
            out.append("func.func private @%s(%s) -> (%s)%s" % (name, ", ".join(args), ", ".join(res), attrs))
            continue
        al = ", ".join("%%a%d: %s%s" % (i, t, rng.choice(["", "", " {tf_saved_model.index_path = [\"i%d\"]}" % i])) for i, t in enumerate(args))
        b = ["func.func %s@%s(%s) -> (%s)%s {" % (rng.choice(["", "", "private "]), name, al, ", ".join(res), attrs)]
        vals = [("%%a%d" % i, t) for i, t in enumerate(args)]
        # arguments are consumed by ops with unconstrained operand types
        for k in range(rng.choice([0, 1, 2, 4])):
            use = [rng.choice(vals) for _ in range(rng.choice([0, 1, 2]))] if vals else []
            rt = rtype(rng)
            b.append('  %%v%d = "test.op%d"(%s) {k = %d : i32} : (%s) -> %s' % (k, k, ", ".join(v for v, _ in use), k, ", ".join(t for _, t in use), "(" + rt + ")"))
            vals.append(("%%v%d" % k, rt))
        if rng.random() < 0.25:
            t1, t2 = rtype(rng), rtype(rng)
            b.append('  %%w:2 = "test.src"() : () -> (%s, %s)' % (t1, t2))
            b.append("  cf.br ^bb1(%%w#0, %%w#1 : %s, %s)" % (t1, t2))
            b.append("^bb1(%%b0: %s, %%b1: %s):" % (t1, t2))
        if res:
            b.append('  %%r:%d = "test.ret"() : () -> (%s)' % (len(res), ", ".join(res)))
            b.append("  return %s : %s" % (", ".join("%%r#%d" % i for i in range(len(res))), ", ".join(res)))
        else:
            b.append("  return")
        b.append("}")
        out.append("\n".join(b))
    if rng.random() < 0.2:
        out.append("module @inner attributes {test.k = 1 : i32} {\n}")
    return "\n".join(out)


def run_setbatch(exe, mods):
    res = [None] * len(mods)
    pat = vlib.Patience(hangs=1)

    def dead(rc, err):
        return dict(before=dict(f=[], other=""), after=dict(f=[], other=""), again=dict(f=[], other=""),
                    after_ok=False, again_ok=False, died=rc, err=err)

    def one(ids, args=()):
        ids = list(ids)
        if pat.gone:
            for k in ids:
                vlib.not_run(mods[k])
                res[k] = dead(0, "not run")
            return
        with tempfile.TemporaryDirectory(prefix="lcev") as d:
            i, o = os.path.join(d, "i"), os.path.join(d, "o")
            with open(i, "w") as f:
                f.write("".join(mods[k] + "\n// -----\n" for k in ids))
            rc, err = vlib.watched([exe, i, o], o, 40)
            lines = open(o).read().splitlines() if os.path.exists(o) else []
            if rc == 3:
                raise CheckError("module generator: " + err[-1500:])
            good = [json.loads(x) for x in lines if x.endswith("}")] if rc == 0 else []
            if rc == 0:
                for k, g in zip(ids, good):
                    res[k] = g
            elif len(ids) == 1:
                pat.saw(rc)
                res[ids[0]] = dead(rc, err[-500:])
            else:
                m = len(ids) // 2
                one(ids[:m])
                one(ids[m:])
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        list(ex.map(one, chunked(len(mods), 100)))
    return res


def C15():
    import runner
    vlib.model("SetBatchMC")
    exe = build_setbatch()
    log("driver built; models checked")
    rng = random.Random("C15-%d" % vlib.SEED)
    n = runner.tier(3000, 40000)
    agg = dict(generated=0, distinct=0, rejected=0)
    viols, nh, samples = [], 0, []
    while nh < n:
        mods = [rmodule(rng) for _ in range(min(5000, n - nh))]
        H = run_setbatch(exe, mods)
        v, st = runner.judge_histories("C15", "SetBatchTrace", mods, H, lambda idx: run_setbatch(exe, [mods[i] for i in idx]))
        for x in agg:
            agg[x] += st[x]
        nh += len(mods)
        viols += v
        samples = samples or mods[:3]
        if v:
            break
    return viols, agg, nh, samples, dict(functions=sum(m.count("func.func") for m in mods))


C15.rerun = lambda case: run_setbatch(build_setbatch(), [case])[0]
C15.assume = ["The real pass is compiled against the installed MLIR 18; TLC, gcc and MLIR are trusted."]
CHECKS["C15"] = C15
