"""Builds the converter's MLIR passes from /repo (unmodified sources) against
the installed MLIR 18, the stand-in TF/TFL dialects and generated code."""
import os
from concurrent.futures import ThreadPoolExecutor
import vlib, mtblgen

DRV = os.path.join(vlib.VERIF, "drivers")
SHIM = os.path.join(vlib.VERIF, "mlirshim")
GEN = dict(op_removal="op_removal_patterns", prepare_target_arm="prepare_patterns_target_arm", prepare_target_other="prepare_patterns_common",
           optimize_target_arm="optimize_patterns_target_arm", optimize_target_other="optimize_patterns_common",
           bitpack_activations="bitpack_activations_patterns", bitpack_weights="bitpack_weights_patterns", quantize="quantize_patterns",
           fuse_padding="fuse_padding")
SRCS = ["ir/lce_ops.cc"] + ["transforms/%s.cc" % f for f in ("bitpack", "bitpack_weights", "detection_postprocess", "fuse_padding", "legalize_tflite",
        "op_removal", "optimize", "prepare_tf", "quantize", "set_batch_size", "translate_tflite")]


def generate(dst):
    """The generated .inc files."""
    mlir = os.path.join(vlib.REPO, "larq_compute_engine/mlir")
    incs = [SHIM, vlib.REPO]
    out = os.path.join(dst, "gen", "larq_compute_engine/mlir")
    os.makedirs(os.path.join(out, "ir"), exist_ok=True)
    os.makedirs(os.path.join(out, "transforms"), exist_ok=True)

    def put(path, text):
        with open(path, "w") as f:
            f.write(text)
    try:
        d = mtblgen.dump(os.path.join(mlir, "ir/lce_ops.td"), incs)
        h, c = mtblgen.gen_ops(d, "LarqDialect")
        put(os.path.join(out, "ir/lce_ops.h.inc"), h)
        put(os.path.join(out, "ir/lce_ops.cc.inc"), c)
        h, c = mtblgen.gen_dialect(d, "LarqDialect")
        put(os.path.join(out, "ir/lce_dialect.h.inc"), h)
        put(os.path.join(out, "ir/lce_dialect.cc.inc"), c)
        for n, td, dia in (("tfl", "lite/ir/tfl_ops.td", "TFL_Dialect"), ("tf", "tensorflow/ir/tf_ops.td", "TF_Dialect")):
            d = mtblgen.dump(os.path.join(SHIM, "tensorflow/compiler/mlir", td), incs)
            h, c = mtblgen.gen_ops(d, dia)
            put(os.path.join(dst, "gen", n + "_ops.h.inc"), h)
            put(os.path.join(dst, "gen", n + "_ops.cc.inc"), c)
            h, c = mtblgen.gen_dialect(d, dia)
            put(os.path.join(dst, "gen", n + "_dialect.h.inc"), h)
            put(os.path.join(dst, "gen", n + "_dialect.cc.inc"), c)
    except mtblgen.Unsupported as e:
        raise vlib.CheckError("mtblgen: %s" % e)
    for n, td in GEN.items():
        try:
            put(os.path.join(out, "transforms/generated_%s.inc" % n), mtblgen.gen_rewriters(mtblgen.dump(os.path.join(mlir, "transforms", td + ".td"), incs)))
        except mtblgen.Unsupported as e:
            # only the pass that uses these patterns is lost (see compile_some)
            put(os.path.join(out, "transforms/generated_%s.inc" % n), "#error mtblgen: %s\n" % " ".join(str(e).split()))


def compile_some(jobs, optional):
    """Compiles in parallel; a failing optional source is left out, so that only
    the checks that run its pass give no answer.  Returns the objects."""
    with ThreadPoolExecutor(vlib.NCPU) as ex:
        res = list(ex.map(lambda j: vlib.sh(j[2]), jobs))
    objs = []
    for (src, obj, cmd), r in zip(jobs, res):
        if r.returncode == 0:
            objs.append(obj)
        elif src in optional:
            vlib.log("left out: %s\n%s" % (src, r.stderr[-1500:]))
        else:
            raise vlib.CheckError("compile failed: %s\n%s" % (" ".join(cmd), r.stderr[-4000:]))
    return objs


FLAGS = ["-std=c++17", "-O0", "-w", "-fPIC", "-fno-rtti", "-fno-exceptions"]
LINK = ["-L/usr/lib/llvm-18/lib", "-Wl,-rpath,/usr/lib/llvm-18/lib", "-lMLIR", "-lLLVM-18"]


def includes(gen):
    return ["-I" + gen, "-I" + SHIM, "-I" + os.path.join(vlib.VERIF, "shim/include"), "-I" + DRV, "-I" + vlib.REPO,
            "-isystem", mtblgen.LLVM_INC, "-D__STDC_LIMIT_MACROS", "-D__STDC_CONSTANT_MACROS"]


def build_dir():
    lce = os.path.join(vlib.REPO, "larq_compute_engine")
    drv = os.path.join(DRV, "mlir_driver.cc")
    key = vlib.tree_hash([os.path.join(lce, "mlir/ir"), os.path.join(lce, "mlir/transforms"), os.path.join(lce, "core"), os.path.join(SHIM, "tensorflow"),
                          os.path.join(SHIM, "mlirshim.cc"), drv, os.path.join(DRV, "mlir_graph.h"),
                          os.path.join(vlib.VERIF, "shim/include"), os.path.join(vlib.VERIF, "lib/mtblgen.py"), os.path.join(vlib.VERIF, "lib/mlirbuild.py")])

    def builder(dst):
        generate(dst)
        passes = [os.path.join(lce, "mlir", s) for s in SRCS]
        jobs = []
        for s in passes + [os.path.join(SHIM, "mlirshim.cc"), drv]:
            o = os.path.join(dst, os.path.basename(s) + ".o")
            jobs.append((s, o, ["g++"] + FLAGS + includes(os.path.join(dst, "gen")) + ["-c", s, "-o", o]))
        objs = compile_some(jobs, passes[1:])
        vlib.parallel_compile([["g++"] + objs + LINK + ["-o", os.path.join(dst, "mlir_driver")]])
    return vlib.locked_build("mlir", key, builder)


def build():
    return os.path.join(build_dir(), "mlir_driver")


if __name__ == "__main__":
    print(build())
