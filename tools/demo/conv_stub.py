"""Stands in for the native converter: fails where it is told, or returns the prepared bytes."""
import json, sys
for line in sys.stdin:
    c = json.loads(line)
    bad = c["fail"] not in ("", "nobundle", "nosession")
    print(json.dumps(dict(ev=[], ok=not bad, err="failed at " + c["fail"] if bad else "", out="" if bad else c["out"])), flush=True)
