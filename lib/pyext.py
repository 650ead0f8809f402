"""Builds /repo's Python extension module against the shim interpreter."""
import os
import vlib

PY = "/opt/lce/venv/bin/python"
INC = ["/opt/lce/venv/lib/python3.12/site-packages/pybind11/include", "/usr/include/python3.12"]


def build():
    shim = os.path.join(vlib.VERIF, "shim", "include")
    lce = os.path.join(vlib.REPO, "larq_compute_engine")
    flags = list(vlib.KFLAGS) + ["-fPIC", "-I" + shim, "-I" + vlib.REPO]
    src = os.path.join(lce, "tflite/python/interpreter_wrapper_lite.cc")
    key = vlib.tree_hash([os.path.join(lce, "core"), os.path.join(lce, "tflite", "kernels"), src, os.path.join(lce, "tflite/python/interpreter_wrapper_utils.h"), shim], " ".join(flags))

    def builder(dst):
        srcs = [os.path.join(lce, "tflite/kernels", f) for f in ("bconv2d.cc", "bmaxpool.cc", "quantization.cc")] + [src]
        objs = [os.path.join(dst, os.path.basename(s) + ".o") for s in srcs]
        vlib.parallel_compile([["g++"] + flags + sum([["-isystem", i] for i in INC], []) + ["-c", s, "-o", o] for s, o in zip(srcs, objs)])
        vlib.parallel_compile([["g++", "-shared"] + objs + ["-lpthread", "-o", os.path.join(dst, "interpreter_wrapper_lite.so")]])
    return os.path.join(vlib.locked_build("pyext", key, builder), "interpreter_wrapper_lite.so")
