"""Runs the property's check against every planted bug, on a scratch copy.
Usage: runseeds.py [-a] [ID...]   (-a: all checks, not only the property's)"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(V + "/seeded") + os.listdir(V + "/planted_td"))
for i in ids:
    d = V + "/seeded/" + i
    if not os.path.exists(d):
        d = V + "/planted_td/" + i
    meta = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="runseed")
    try:
        subprocess.check_call("git -C /repo archive HEAD | tar -x -C %s && cd %s && git init -q . && git apply %s/patch.diff" % (w, w, d), shell=True)
        pids = [meta["property"]]
        if "-a" in sys.argv:
            pids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
        res = []
        for p in pids:
            r = subprocess.run([V + "/check", p], env=dict(os.environ, LCE_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            res.append("%s:%d" % (p, r.returncode))
            why = [l for l in r.stdout.splitlines() if l.startswith(("rejected", "VIOLATION", "CHECK ERROR"))]
        print("%-28s %s  %s" % (i, " ".join(res), (why or [""])[0][:150]), flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)
