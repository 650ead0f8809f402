"""Makes /verif/seeded/<id> from the table in tools/seeds.py: applies the edit in a
scratch copy of /repo's sources, writes the patch, records what the demonstration
must see on the clean sources, and confirms that the changed sources show
something else.  Usage: mkseed.py [ID...]"""
import difflib, json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import vlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seeds

OUT = os.path.join(vlib.VERIF, "seeded")
REPO = "/repo"

DEMO_OPS = r'''#!/bin/bash
# Builds the LCE ops of the current directory's sources with the stand-ins beside
# this file, runs the script and compares what the ops did with expected.json.
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
F="-std=c++17 -O1 -fwrapv -w -DTFLITE_WITH_RUY -I$D/shim/include -I$PWD"
K=larq_compute_engine/tflite/kernels
for s in $K/bconv2d.cc $K/bmaxpool.cc $K/quantization.cc "$D/ops_driver.cc"; do
  g++ $F -c "$s" -o "$T/$(basename "$s").o" &
done
wait
g++ "$T"/*.o -lpthread -o "$T/driver"
set +e
"$T/driver" "$D/script" "$T/out" 2>/dev/null
python3 - "$T/out" "$D/expected.json" <<'PY'
import json, sys
def view(e):
    return {k: v for k, v in e.items() if k in ("ev", "ok", "oshape", "out", "guards", "inputs", "found", "ops")}
got = []
for line in open(sys.argv[1]):
    try: got.append(view(json.loads(line)))
    except ValueError: break
want = json.load(open(sys.argv[2]))
for i, w in enumerate(want):
    if i >= len(got) or got[i] != w:
        print("DEMO: event %d differs" % i); print(" want", json.dumps(w)[:700]); print(" got ", json.dumps(got[i] if i < len(got) else None)[:700])
        sys.exit(1)
print("DEMO: as expected (%d events)" % len(want))
PY
'''

DEMO_A64 = r'''#!/bin/bash
# Builds the LCE ops of the current directory's sources for AArch64 with clang and
# the stand-ins beside this file, runs the script with the interpreter in arm/ and
# compares what the ops did with expected.json.
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
DRIVER=$(PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$D" A64_OUT="$T" python3 -c "import armbuild; print(armbuild.build(sanitize=SANITIZE))")
set +e
"$DRIVER" "$D/script" "$T/out" 2>/dev/null
'''

# stands in for vlib.py beside armbuild.py in a demonstration
A64_VLIB = r'''import os, subprocess
from concurrent.futures import ThreadPoolExecutor
class CheckError(Exception):
    pass
REPO = os.getcwd()
VERIF = os.path.dirname(os.path.abspath(__file__))
KFLAGS = %r
def sh(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
def tree_hash(paths, extra):
    return ""
def parallel_compile(cmds):
    with ThreadPoolExecutor(8) as ex:
        for r in ex.map(sh, cmds):
            if r.returncode:
                raise CheckError(r.stderr[-2000:])
def locked_build(name, key, builder):
    d = os.path.join(os.environ["A64_OUT"], "build")
    os.makedirs(d)
    builder(d)
    return d
'''
DEMO_A64 += DEMO_OPS[DEMO_OPS.index('python3 - "$T/out"'):]

DEMO_PY = r'''#!/bin/bash
# Runs the Python layer of the current directory's sources on the recorded cases
# and compares what it returned with expected.jsonl.
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
PY=/opt/lce/venv/bin/python
if [ -d "$D/shim" ]; then
  F="-std=c++17 -O1 -fwrapv -w -DTFLITE_WITH_RUY -fPIC -I$D/shim/include -I$PWD -isystem /opt/lce/venv/lib/python3.12/site-packages/pybind11/include -isystem /usr/include/python3.12"
  K=larq_compute_engine/tflite/kernels
  for s in $K/bconv2d.cc $K/bmaxpool.cc $K/quantization.cc larq_compute_engine/tflite/python/interpreter_wrapper_lite.cc; do
    g++ $F -c "$s" -o "$T/$(basename "$s").o" &
  done
  wait
  g++ -shared "$T"/*.o -lpthread -o "$T/interpreter_wrapper_lite.so"
  export LCE_EXT="$T/interpreter_wrapper_lite.so"
fi
export PYTHONDONTWRITEBYTECODE=1 TF_USE_LEGACY_KERAS=1 CUDA_VISIBLE_DEVICES=
set +e
$PY "$D/py_driver.py" "$PWD" "$D/cases.jsonl" "$T/out" 2>"$T/err" || { tail -3 "$T/err"; echo "DEMO: the driver failed"; exit 1; }
$PY - "$T/out" "$D/expected.jsonl" <<'EOF'
import json, sys
def view(x):
    return {k: v for k, v in x.items() if k != "msg"} if isinstance(x, dict) else x
got, want = ([view(json.loads(l)) for l in open(p)] for p in sys.argv[1:3])
for i, w in enumerate(want):
    if i >= len(got) or got[i] != w:
        print("DEMO: case %d differs" % i); print(" want", json.dumps(w)[:600]); print(" got ", json.dumps(got[i] if i < len(got) else None)[:600])
        sys.exit(1)
print("DEMO: as expected (%d cases)" % len(want))
EOF
'''


DEMO_MLIR = r'''#!/bin/bash
# Builds the converter's passes from the current directory's sources with the
# tools beside this file, runs them on modules.mlir and compares the resulting
# programs with expected.jsonl.
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cp -r "$D/tools" "$T/tools"
export LCE_REPO=$PWD PYTHONDONTWRITEBYTECODE=1
EXE=$(python3 "$T/tools/lib/mlirbuild.py")
set +e
"$EXE" run "$D/modules.mlir" "$T/out" 2>"$T/err" || tail -3 "$T/err"
python3 - "$T/out" "$D/expected.jsonl" <<'PY'
import json, os, sys
got, want = (open(p).read().splitlines() if os.path.exists(p) else [] for p in sys.argv[1:3])
for i, w in enumerate(want):
    g = json.loads(got[i]) if i < len(got) else {}
    w = json.loads(w)
    if (g.get("g"), g.get("ok")) != (w["g"], w["ok"]):
        print("DEMO: module %d differs" % i); print(" want", json.dumps(w["g"][-1])[:900]); print(" got ", json.dumps((g.get("g") or [None])[-1])[:900])
        sys.exit(1)
print("DEMO: as expected (%d modules)" % len(want))
PY
'''


DEMO_CONV = r'''#!/bin/bash
# Builds the converter's Python extension from the current directory's sources
# with the tools beside this file, runs the conversions in cases.jsonl and
# compares what was asked of TensorFlow, what was exported and what was returned
# with expected.jsonl.
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
cp -r "$D/tools" "$T/tools"
export LCE_REPO=$PWD PYTHONDONTWRITEBYTECODE=1
EXT=$(python3 "$T/tools/lib/convext.py")
set +e
/opt/lce/venv/bin/python "$T/tools/drivers/conv_driver.py" "$EXT" "$D/cases.jsonl" "$T/out" 2>"$T/err" || tail -3 "$T/err"
python3 - "$T/out" "$D/expected.jsonl" <<'PY'
import json, os, sys
def view(r):
    ev = []
    for e in r["ev"]:
        if e["e"] == "pass":
            continue
        ev.append({k: v != "" if k == "dir" else v for k, v in e.items()})
    return dict(ok=r["ok"], out=r["out"], ev=ev)
got, want = (open(p).read().splitlines() if os.path.exists(p) else [] for p in sys.argv[1:3])
for i, w in enumerate(want):
    w = json.loads(w)
    if i >= len(got) or view(json.loads(got[i])) != view(w):
        print("DEMO: conversion %d differs" % i)
        sys.exit(1)
print("DEMO: as expected (%d conversions)" % len(want))
PY
'''

CLEAN = {}
DEMO_PROGS = r'''#!/bin/bash
# Builds the programs of the current directory's sources with the stand-ins beside
# this file, runs them on the recorded cases and compares what they did.
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
F="-std=c++17 -O1 -fwrapv -w -DTFLITE_WITH_RUY -I$D/shim/include -I$PWD"
L=larq_compute_engine/tflite
for s in $L/kernels/bconv2d.cc $L/kernels/bmaxpool.cc $L/kernels/quantization.cc $L/benchmark/*.cc $L/java/lce_ops_jni.cc examples/lce_minimal.cc "$D/prog_edges.cc" "$D/prog_jni.cc"; do
  g++ $F -c "$s" -o "$T/$(basename "$s").o" &
done
wait
O="$T/bconv2d.cc.o $T/bmaxpool.cc.o $T/quantization.cc.o $T/prog_edges.cc.o"
g++ $O "$T"/lce_benchmark_*.o -lpthread -o "$T/benchmark"
g++ $O "$T/lce_ops_jni.cc.o" "$T/prog_jni.cc.o" -lpthread -o "$T/jni"
g++ $O "$T/lce_minimal.cc.o" -lpthread -o "$T/minimal"
python3 "$D/progs.py" "$T" "$D/cases.jsonl" "$T/out"
python3 - "$T/out" "$D/expected.jsonl" <<'PY'
import json, sys
got, want = [[json.loads(l) for l in open(f)] for f in sys.argv[1:3]]
for i, w in enumerate(want):
    if i >= len(got) or got[i] != w:
        print("DEMO: run %d differs" % i); print(" want", json.dumps(w)[:600]); print(" got ", json.dumps(got[i] if i < len(got) else None)[:600])
        sys.exit(1)
print("DEMO: as expected (%d runs)" % len(want))
PY
'''

DEMO_API = r'''#!/bin/bash
# Calls the Python converter of the current directory's sources on the models in
# cases.jsonl (the native converter is a stand-in that records what it is asked)
# and compares requests, results, warnings and errors with expected.jsonl.
set -e
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
export LCE_REPO=$PWD PYTHONDONTWRITEBYTECODE=1
cd "$T"
set +e
/opt/lce/venv/bin/python "$D/api_driver.py" none "$D/cases.jsonl" "$T/out" 2>"$T/err" || tail -3 "$T/err"
python3 - "$T/out" "$D/expected.jsonl" <<'PY'
import json, os, sys
def view(r):
    v = {k: r.get(k) for k in ("end", "out", "error", "dummy", "fallback", "left", "intact")}
    v["calls"] = [[c["kind"], c["args"], "importer" in c] for c in r["calls"]]
    return v
got, want = (open(p).read().splitlines() if os.path.exists(p) else [] for p in sys.argv[1:3])
for i, w in enumerate(want):
    if i >= len(got) or view(json.loads(got[i])) != json.loads(w):
        print("DEMO: call %d differs" % i)
        sys.exit(1)
print("DEMO: as expected (%d calls)" % len(want))
PY
'''


def mlir_tools(d):
    for f in ("lib/vlib.py", "lib/mtblgen.py", "lib/mlirbuild.py", "drivers/mlir_driver.cc", "drivers/mlir_graph.h", "lib/convext.py", "drivers/conv_driver.py"):
        os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
        shutil.copy(os.path.join(vlib.VERIF, f), os.path.join(d, f))
    shutil.copytree(os.path.join(vlib.VERIF, "mlirshim"), os.path.join(d, "mlirshim"))
    shutil.copytree(os.path.join(vlib.VERIF, "shim"), os.path.join(d, "shim"))


def run(demo_dir, cwd):
    p = subprocess.run(["bash", os.path.join(demo_dir, "demo.sh")], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=280)
    return p.returncode, p.stdout


def main(only):
    work = tempfile.mkdtemp(prefix="mkseed")
    try:
        for s in seeds.SEEDS:
            if only and s["id"] not in only:
                continue
            src = os.path.join(work, s["id"])
            clean = os.path.join(src, "clean")
            bad = os.path.join(src, "bad")
            os.makedirs(src)
            for d in (clean, bad):
                subprocess.check_call("mkdir -p %s && git -C %s archive HEAD | tar -x -C %s" % (d, REPO, d), shell=True)
            files = []
            for f, old, new in s["edits"]:
                p = os.path.join(bad, f)
                t = open(p).read()
                if t.count(old) != 1:
                    raise SystemExit("%s: %d matches in %s of %r" % (s["id"], t.count(old), f, old[:80]))
                open(p, "w").write(t.replace(old, new))
                if f not in files:
                    files.append(f)
            # the gate runs no planted bug that touches .td files
            d = os.path.join(os.path.join(vlib.VERIF, "planted_td") if any(f.endswith(".td") for f in files) else OUT, s["id"])
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            patch = ""
            for f in files:
                a, b = open(os.path.join(clean, f)).read(), open(os.path.join(bad, f)).read()
                patch += "diff --git a/%s b/%s\n" % (f, f)
                patch += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
            open(os.path.join(d, "patch.diff"), "w").write(patch)
            subprocess.check_call(["git", "-C", REPO, "apply", "--check", os.path.join(d, "patch.diff")])
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
            if "script" in s:
                shutil.copytree(os.path.join(vlib.VERIF, "shim"), os.path.join(d, "shim"))
                open(os.path.join(d, "script"), "w").write(s["script"])
                demo = DEMO_OPS
                if s.get("a64"):
                    demo = DEMO_A64.replace("SANITIZE", str(s["a64"] == "san"))
                    shutil.copytree(os.path.join(vlib.VERIF, "arm"), os.path.join(d, "arm"))
                    os.makedirs(os.path.join(d, "drivers"))
                    shutil.copy(os.path.join(vlib.VERIF, "drivers", "ops_driver.cc"), os.path.join(d, "drivers"))
                    shutil.copy(os.path.join(vlib.VERIF, "lib", "armbuild.py"), d)
                    open(os.path.join(d, "vlib.py"), "w").write(A64_VLIB % (list(vlib.KFLAGS),))
                else:
                    shutil.copy(os.path.join(vlib.VERIF, "drivers", "ops_driver.cc"), d)
                open(os.path.join(d, "demo.sh"), "w").write(demo)
                open(os.path.join(d, "expected.json"), "w").write("[]")
                # record the expectation on the clean sources
                probe = demo.replace('python3 - "$T/out" "$D/expected.json"', 'cp "$T/out" "$D/raw.out"; exit 0; python3 -')
                open(os.path.join(d, "probe.sh"), "w").write(probe)
                subprocess.check_call(["bash", os.path.join(d, "probe.sh")], cwd=clean)
                ev = [json.loads(x) for x in open(os.path.join(d, "raw.out"))]
                keep = ("ev", "ok", "oshape", "out", "guards", "inputs", "found", "ops")
                json.dump([{k: v for k, v in e.items() if k in keep} for e in ev], open(os.path.join(d, "expected.json"), "w"))
                if "oracle" in s:
                    s["oracle"](ev)
                os.unlink(os.path.join(d, "probe.sh"))
                os.unlink(os.path.join(d, "raw.out"))
            elif "cases" in s:
                if s["ext"]:
                    shutil.copytree(os.path.join(vlib.VERIF, "shim"), os.path.join(d, "shim"))
                    shutil.copy(os.path.join(vlib.VERIF, "drivers", "py_predict.py"), d)
                shutil.copy(os.path.join(vlib.VERIF, "drivers", "py_driver.py"), d)
                with open(os.path.join(d, "cases.jsonl"), "w") as f:
                    for c in s["cases"]():
                        f.write(json.dumps({k: v for k, v in c.items() if not k.startswith("_")}) + "\n")
                open(os.path.join(d, "expected.jsonl"), "w").close()
                open(os.path.join(d, "demo.sh"), "w").write(DEMO_PY)
                open(os.path.join(d, "probe.sh"), "w").write(DEMO_PY.replace("$PY - ", 'cp "$T/out" "$D/expected.jsonl"; exit 0; $PY - '))
                subprocess.check_call(["bash", os.path.join(d, "probe.sh")], cwd=clean)
                os.unlink(os.path.join(d, "probe.sh"))
                ls = [json.loads(l) for l in open(os.path.join(d, "expected.jsonl"))]
                with open(os.path.join(d, "expected.jsonl"), "w") as f:
                    for l in ls:
                        f.write(json.dumps({k: v for k, v in l.items() if k != "msg"} if isinstance(l, dict) else l) + "\n")
                shutil.rmtree(os.path.join(d, "__pycache__"), ignore_errors=True)
            elif "apis" in s:
                shutil.copy(os.path.join(vlib.VERIF, "drivers", "api_driver.py"), d)
                shutil.copy(os.path.join(vlib.VERIF, "tools", "demo", "conv_stub.py"), os.path.join(d, "conv_driver.py"))

                def put(ms):
                    with open(os.path.join(d, "cases.jsonl"), "w") as f:
                        for c in ms:
                            f.write(json.dumps(c) + "\n")

                def view(r):
                    v = {k: r.get(k) for k in ("end", "out", "error", "dummy", "fallback", "left", "intact")}
                    v["calls"] = [[c["kind"], c["args"], "importer" in c] for c in r["calls"]]
                    return v

                def probe(cwd, ms, shards=8):
                    n = -(-len(ms) // shards)
                    run_ = []
                    for k in range(0, len(ms), n):
                        t = os.path.join(work, "shard%d" % k)
                        with open(t + ".in", "w") as f:
                            f.writelines(json.dumps(c) + "\n" for c in ms[k:k + n])
                        if os.path.exists(t + ".out"):
                            os.unlink(t + ".out")
                        run_.append((t, len(ms[k:k + n]), subprocess.Popen(["/opt/lce/venv/bin/python", os.path.join(d, "api_driver.py"), "none", t + ".in", t + ".out"], cwd=work,
                                     env=dict(os.environ, LCE_REPO=cwd, PYTHONDONTWRITEBYTECODE="1"), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
                    res = []
                    for t, m, p in run_:
                        p.wait()
                        got = [view(json.loads(x)) for x in open(t + ".out")] if os.path.exists(t + ".out") else []
                        res += (got + [None] * m)[:m]
                    return res
                ms = s["apis"]()
                open(os.path.join(d, "demo.sh"), "w").write(DEMO_API)
                key = json.dumps(ms)
                if key not in CLEAN:
                    CLEAN[key] = probe(clean, ms)
                dead, good = probe(bad, ms), CLEAN[key]
                differ = [i for i in range(len(ms)) if i >= len(dead) or dead[i] != good[i]]
                print("    %d of %d calls differ" % (len(differ), len(ms)))
                keep = sorted(set(differ[:4] + list(range(4))))
                put([ms[i] for i in keep])
                good = probe(clean, [ms[i] for i in keep], 1)
                with open(os.path.join(d, "expected.jsonl"), "w") as f:
                    f.writelines(json.dumps(g) + "\n" for g in good)
            elif "progs" in s:
                shutil.copytree(os.path.join(vlib.VERIF, "shim"), os.path.join(d, "shim"))
                for f in ("drivers/prog_edges.cc", "drivers/prog_jni.cc", "tools/demo/progs.py"):
                    shutil.copy(os.path.join(vlib.VERIF, f), d)

                def put(ms):
                    with open(os.path.join(d, "cases.jsonl"), "w") as f:
                        f.writelines(json.dumps(c) + "\n" for c in ms)

                def probe(cwd):
                    subprocess.check_call(["bash", os.path.join(d, "probe.sh")], cwd=cwd)
                    return [json.loads(x) for x in open(os.path.join(d, "expected.jsonl"))]
                ms = s["progs"]()
                open(os.path.join(d, "demo.sh"), "w").write(DEMO_PROGS)
                open(os.path.join(d, "probe.sh"), "w").write(DEMO_PROGS.replace('python3 - "$T', 'cp "$T/out" "$D/expected.jsonl"; exit 0; python3 - "$T'))
                put(ms)
                dead, good = probe(bad), probe(clean)
                differ = [i for i in range(len(ms)) if i >= len(dead) or dead[i] != good[i]]
                print("    %d of %d runs differ" % (len(differ), len(ms)))
                keep = sorted(set(differ[:4] + list(range(8))))
                put([ms[i] for i in keep])
                with open(os.path.join(d, "expected.jsonl"), "w") as f:
                    f.writelines(json.dumps(good[i]) + "\n" for i in keep)
                os.unlink(os.path.join(d, "probe.sh"))
            elif "convs" in s:
                mlir_tools(os.path.join(d, "tools"))

                def put(ms):
                    with open(os.path.join(d, "cases.jsonl"), "w") as f:
                        for c in ms:
                            f.write(json.dumps(c) + "\n")

                def view(r):
                    return dict(ok=r["ok"], out=r["out"], ev=[dict({k: v for k, v in e.items() if k != "dir"}, **({"dir": e["dir"] != ""} if "dir" in e else {})) for e in r["ev"] if e["e"] != "pass"])

                def probe(cwd):
                    subprocess.check_call(["bash", os.path.join(d, "probe.sh")], cwd=cwd)
                    return [view(x) for x in map(json.loads, open(os.path.join(d, "expected.jsonl")))]
                ms = s["convs"]()
                open(os.path.join(d, "demo.sh"), "w").write(DEMO_CONV)
                open(os.path.join(d, "probe.sh"), "w").write(DEMO_CONV.replace('python3 - "$T', 'cp "$T/out" "$D/expected.jsonl"; exit 0; python3 - "$T'))
                put(ms)
                dead, good = probe(bad), probe(clean)
                differ = [i for i in range(len(ms)) if i >= len(dead) or dead[i] != good[i]]
                print("    %d of %d conversions differ" % (len(differ), len(ms)))
                keep = sorted(set(differ[:4] + list(range(8))))
                put([ms[i] for i in keep])
                with open(os.path.join(d, "expected.jsonl"), "w") as f:
                    for i in keep:
                        f.write(json.dumps(good[i]) + "\n")
                os.unlink(os.path.join(d, "probe.sh"))
            elif "modules" in s:
                mlir_tools(os.path.join(d, "tools"))
                def put(ms):
                    with open(os.path.join(d, "modules.mlir"), "w") as f:
                        for c in ms:
                            f.write("// passes: %s\n%s\n// -----\n" % ("; ".join(c["passes"]), c["text"]))

                def probe(cwd):
                    subprocess.check_call(["bash", os.path.join(d, "probe.sh")], cwd=cwd)
                    return [(x["g"], x["ok"]) for x in map(json.loads, open(os.path.join(d, "expected.jsonl")))]
                ms = s["modules"]()
                open(os.path.join(d, "demo.sh"), "w").write(DEMO_MLIR)
                open(os.path.join(d, "probe.sh"), "w").write(DEMO_MLIR.replace("python3 - ", 'cp "$T/out" "$D/expected.jsonl"; exit 0; python3 - '))
                put(ms)
                dead = probe(bad)
                good = probe(clean)
                differ = [i for i in range(len(ms)) if i >= len(dead) or dead[i] != good[i]]
                print("    %d of %d modules differ" % (len(differ), len(ms)))
                put([ms[i] for i in sorted(set(differ[:4] + list(range(12))))])
                probe(clean)
                with open(os.path.join(d, "expected.jsonl")) as f:
                    ls = [json.loads(x) for x in f]
                with open(os.path.join(d, "expected.jsonl"), "w") as f:
                    for x in ls:
                        f.write(json.dumps(dict(g=x["g"], ok=x["ok"])) + "\n")
                os.unlink(os.path.join(d, "probe.sh"))
            else:
                for name, text in s["files"].items():
                    open(os.path.join(d, name), "w").write(text)
            rc0, o0 = run(d, clean)
            rc1, o1 = run(d, bad)
            ok = rc0 == 0 and rc1 != 0
            print("%-28s clean rc=%d, changed rc=%d %s" % (s["id"], rc0, rc1, "ok" if ok else "*** NOT A DEMONSTRATION"))
            print("    " + o1.replace("\n", "\n    ")[:500])
            if not ok:
                print(o0[-1500:])
            shutil.rmtree(src)
    finally:
        shutil.rmtree(work, ignore_errors=True)


main(sys.argv[1:])
