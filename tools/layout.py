"""Writes bsa/layout_baseline.json: where the parser of /repo accepts comments and line breaks today."""
import os, pathlib, sys
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
sys.setrecursionlimit(20000)
from bsa import checks, layout, spec, world
w = world.World(os.environ.get("BSA_REPO") or "/repo")
spec.use(w)
w.parser()
d = layout.write_baseline()
print(len(d), "templates", sum(len(v["b"]) for v in d.values()), "places")
