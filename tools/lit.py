"""Runs the repository's own converter tests (mlir/tests/*.mlir RUN lines) on
mlir_driver (up to the printed form of attributes), as evidence that the stand-in dialects are faithful."""
import glob, os, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import mlirbuild, vlib
exe = mlirbuild.build()
bad = 0
tmp = tempfile.mkdtemp()
for t in sorted(glob.glob(vlib.REPO + "/larq_compute_engine/mlir/tests/*.mlir")):
    text = open(t).read()
    norm = text.replace("<{", "{").replace("}>", "}")
    norm = re.sub(r"= (tfl\.\w+) (%\w+), (%\w+) (\{[^}]*\}) : (\S+)", r'= "\1"(\2, \3) \4 : (\5, \5) -> \5', norm)
    chk = os.path.join(tmp, os.path.basename(t))
    open(chk, "w").write(norm)
    for run in re.findall(r"// RUN: (.*)", text):
        cmd = run.replace("lce-tf-opt", exe).replace("FileCheck", "FileCheck-18").replace("FileCheck-18 %s", "FileCheck-18 " + chk).replace("%s", t)
        p = subprocess.run(["bash", "-o", "pipefail", "-c", cmd], capture_output=True, text=True)
        print("ok  " if p.returncode == 0 else "FAIL", os.path.basename(t), run)
        if p.returncode:
            bad += 1
            if "-v" in sys.argv:
                print(p.stderr[:3000])
shutil.rmtree(tmp)
sys.exit(bad)
