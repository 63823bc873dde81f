"""prints the case of one draw that fails, to be listed in findings/known.txt:  findings.py C01 SECTION 'SHAPE[,SHAPE]' [N] [strict]"""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "pbt"))
import env  # noqa
import common  # noqa
import engine  # noqa
import gen  # noqa

check, sec, names, n = sys.argv[1:5]
s = [s for s in engine.load(check).SECTIONS if s.name == sec][0]
best = None
for seed in range(int(n)):
    g = gen.G(gen.RandSrc(seed))
    case = common.roof_case(g, names.split(","), need_strict="strict" in sys.argv, lay=False)
    if case is None or (best and len(json.dumps(case)) >= len(json.dumps(best[0]))):
        continue
    bad = s.judge(case)
    if bad and engine.confirmed(s, case):
        best = case, bad
print(json.dumps(best))
