"""Sort the footprints of pbt/corpus.json into classes (run by hand; see DESIGN.md).

class 2: complete roofs whose faces stay within 0.2 of the planes of their walls, for every motion and small jitter tried
class 1: complete roofs, for every motion and small jitter tried
class 0: everything else (not used by a check)
"""
import json
import multiprocessing as mp
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "pbt"))
import env  # noqa: E402,F401
import common  # noqa: E402
import gen  # noqa: E402
import geom  # noqa: E402
import roof  # noqa: E402
from checks import c25  # noqa: E402

N = int(sys.argv[1]) if len(sys.argv) > 1 else 100
SALT = sys.argv[2] if len(sys.argv) > 2 else ""       # repeat with other salts: a footprint can only go down


def work(d):
    g = gen.G(gen.RandSrc(d["name"] + SALT))
    if not geom.is_valid(geom.f32c(d["contours"]), 0) or (SALT and not d["class"]):
        return d["name"], 0, 0.0
    worst, n = 0.0, max(20, min(N, int(N * 900 / sum(map(len, d["contours"])) ** 2)))
    for t in range(n):
        c = c25.generate(g, [d["name"]])
        call, err = common.call_of(c)
        if err or roof.faces_contract(call) or roof.manifold(call) or roof.tiling(call, 0.01):
            return d["name"], 0, 0.0
        worst = max(worst, roof.plane_error(call))
    return d["name"], min(2 if worst <= 0.2 else 1, d.get("class", 2)), worst


if __name__ == "__main__":
    path = os.path.join(HERE, "pbt", "corpus.json")
    C = json.load(open(path))
    with mp.Pool(8) as p:
        R = {n: (k, w) for n, k, w in p.map(work, C, chunksize=1)}
    for d in C:
        d["class"] = R[d["name"]][0]
    with open(path, "w") as f:
        f.write("[\n" + ",\n".join(json.dumps(d) for d in C) + "\n]\n")
    print([sum(1 for d in C if d["class"] == k) for k in (0, 1, 2)])
