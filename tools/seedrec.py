"""record which check caught which planted bug"""
import json, os, sys
f = os.path.join(os.path.dirname(os.path.abspath(__file__)), "seedresults.json")
r = json.load(open(f)) if os.path.exists(f) else {}
i, c, out = sys.argv[1:]
got = set(r.get(i, "").replace("missed", "").split(", ")) - {""}
(got.add if "VIOLATION property=" in open(out).read() else got.discard)(c)
r[i] = ", ".join(sorted(got)) or "missed"
json.dump(dict(sorted(r.items())), open(f, "w"), indent=1)
