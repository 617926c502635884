"""known.py <property> <regex over the case name or key> <what>: lists the violations of the last run as known findings"""
import json
import pathlib
import re
import sys

root = pathlib.Path(__file__).resolve().parent.parent
prop, rx, what = sys.argv[1:4]
vs = json.loads((root / "replays" / f"{prop}.json").read_text(encoding="utf-8"))["violations"]
keys = sorted(v["key"] for v in vs if re.search(rx, v["key"]))
f = root / "known-findings.txt"
with f.open("a", encoding="utf-8") as o:
    o.write(f"known: property={prop} {what}\n")
    for k in keys:
        o.write("  key: " + json.dumps(k, ensure_ascii=False) + "\n")
print(len(keys), "of", len(vs))
