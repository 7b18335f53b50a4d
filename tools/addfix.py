"""addfix.py PROPERTY COMMIT "what failed": record a repaired defect in KNOWN_FINDINGS.json (a development helper; no check runs it)."""
import sys, json
p, c, w = sys.argv[1:4]
P = "/verif/KNOWN_FINDINGS.json"
d = json.load(open(P))
d["findings"].append({"property": p, "status": "fixed", "sig": "", "commit": c, "what": "fixed: property=%s %s %s" % (p, c, w)})
open(P, "w").write('{"findings": [\n ' + ",\n ".join(json.dumps(f) for f in d["findings"]) + "\n]}\n")
