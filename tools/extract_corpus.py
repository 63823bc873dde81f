"""Footprints of the repository's own test files (OpenStreetMap buildings) -> pbt/corpus.json.

Run once when the corpus is renewed; the checks only read corpus.json.
"""
import glob
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.append("/opt/venv/lib/python3.12/site-packages")
from mathutils import Vector  # noqa: E402

out, seen = [], set()
for path in sorted(glob.glob("/repo/tests/test_*.py") + glob.glob("/repo/tests_special/test_*.py") +
                   glob.glob("/repo/debug/*/*.py")):
    src = open(path).read()
    src = src.split("@pytest")[0].split("faces = bpypolyskel")[0]
    src = "\n".join(l for l in src.split("\n") if not l.startswith(("import", "from", "bpypolyskel", "sys.")))
    ns = dict(Vector=Vector, mathutils=__import__("mathutils"))
    try:
        exec(src, ns)
        v, f = ns["verts"], ns["firstVertIndex"]
        n = ns.get("numPolygonVerts") or ns.get("numVerts")
        c = [[[p.x, p.y] for p in v[a:a + b]] for a, b in [(f, n)] + list(ns.get("holesInfo") or [])]
    except Exception as e:
        print(path, type(e).__name__, e)
        continue
    k = json.dumps(c)
    if k in seen:
        continue
    seen.add(k)
    out.append(dict(name=os.path.basename(path)[:-3].replace("test_", "", 1), dir=path.split("/")[2], contours=c))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "pbt", "corpus.json"), "w") as f:
    f.write("[\n" + ",\n".join(json.dumps(d) for d in out) + "\n]\n")
print(len(out))
