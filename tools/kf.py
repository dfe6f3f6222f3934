"""tools/kf.py fixed PROP COMMIT TEXT | finding ID PROP TEXT   (author's helper; never run by a check)"""
import json, sys
p = "/verif/known_findings.json"; d = json.load(open(p))
if sys.argv[1] == "fixed": d["fixed"].append("fixed: property=%s %s %s" % tuple(sys.argv[2:5]))
else: d["findings"].append({"id": sys.argv[2], "property": sys.argv[3], "status": "known", "what": sys.argv[4]})
json.dump(d, open(p, "w"), indent=1)
