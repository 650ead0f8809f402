"""Builds the converter's Python extension (_tf_tfl_flatbuffer) from /repo: the
real conversion entry points, pass pipeline and passes, with stand-ins for
TensorFlow's importer, exporter and passes (mlirshim/convert_edges.cc)."""
import os, sys
import vlib, mtblgen, mlirbuild

PYINC = ["-isystem", "/opt/lce/venv/lib/python3.12/site-packages/pybind11/include", "-isystem", "/usr/include/python3.12"]


def build():
    base = mlirbuild.build_dir()
    mlir = os.path.join(vlib.REPO, "larq_compute_engine/mlir")
    edges = os.path.join(mlirbuild.SHIM, "convert_edges.cc")
    real = [os.path.join(mlir, f) for f in ("tf_to_tfl_flatbuffer.cc", "tf_tfl_passes.cc")]
    py = [os.path.join(mlir, "python", f) for f in ("pybind_export.cc", "common.cc", "graphdef_tfl_flatbuffer.cc", "saved_model_tfl_flatbuffer.cc")]
    heads = [os.path.join(mlir, f) for f in ("tf_to_tfl_flatbuffer.h", "tf_tfl_passes.h", "python/common.h")]
    key = vlib.tree_hash(real + py + heads + [mlirbuild.SHIM, os.path.join(mlirbuild.DRV, "mlir_graph.h"), os.path.join(vlib.VERIF, "lib/convext.py")], base)

    def builder(dst):
        inc = mlirbuild.includes(os.path.join(base, "gen"))
        jobs, objs = [], []
        for s in real + [edges] + py:
            o = os.path.join(dst, os.path.basename(s) + ".o")
            objs.append(o)
            f = [x for x in mlirbuild.FLAGS if x not in ("-fno-rtti", "-fno-exceptions")] if s in py else mlirbuild.FLAGS
            jobs.append(["g++"] + f + inc + (PYINC if s in py else []) + ["-c", s, "-o", o])
        vlib.parallel_compile(jobs)
        passes = [os.path.join(base, f) for f in os.listdir(base) if f.endswith(".o") and f != "mlir_driver.cc.o"]
        vlib.parallel_compile([["g++", "-shared"] + objs + sorted(passes) + mlirbuild.LINK + ["-o", os.path.join(dst, "_tf_tfl_flatbuffer.so")]])
    return os.path.join(vlib.locked_build("conv", key, builder), "_tf_tfl_flatbuffer.so")


if __name__ == "__main__":
    print(build())
