"""Runs the programs in BIN on the cases: progs.py BIN CASES OUT (one JSON line per case)."""
import json, os, subprocess, sys, tempfile
out = open(sys.argv[3], "w")
for line in open(sys.argv[2]):
    c = json.loads(line)
    with tempfile.TemporaryDirectory() as d:
        model = os.path.join(d, "model.tflite")
        if c["there"]:
            open(model, "wb").write(c["bytes"].encode("latin1"))
        open(os.path.join(d, "feed"), "w").write(c["feed"])
        w = lambda x: x.replace("MODEL", model)
        argv = [w(a[0]) if len(a) == 1 else "--%s=%s" % (a[0], w(a[1])) for a in c["args"]]
        p = os.path.join(d, "log")
        try:
            rc = subprocess.run([os.path.join(sys.argv[1], c["prog"])] + argv, cwd=d, env=dict(os.environ, LCE_FEED=os.path.join(d, "feed"), LCE_LOG=p),
                                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode
        except subprocess.TimeoutExpired:
            rc = -99
        log = [json.loads(x) for x in open(p)] if os.path.exists(p) else None
        told = sorted([e["name"], e["value"]] for e in log or [] if e["e"] == "param")
        runs = [[e.get(k) for k in ("e", "k", "ok", "x", "y", "threads")] for e in log or [] if e["e"] != "param"]
        out.write(json.dumps(dict(ok=rc == 0, told=told, runs=runs if rc == 0 else None)) + "\n")
