"""python3-vt tools/fixed.py PROPERTY COMMIT WHAT...  append a "fixed" entry to known_findings.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, commit, what = sys.argv[1], sys.argv[2], " ".join(sys.argv[3:])
with open(os.path.join(V, "known_findings.jsonl"), "a") as f:
    f.write(json.dumps({"property": prop, "status": "fixed", "commit": commit, "what": what,
                        "entry": "fixed: property=%s %s %s" % (prop, commit, what)}) + "\n")
