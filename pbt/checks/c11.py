"""C11: the skeleton is a plane graph with one branch per corner"""
import common
import roof
from common import tup

RULE = common.RULE + " skeletonize() is called on plain edges, with and without given unit vectors."


def judge(case):
    c = common.near_origin(tup(case["contours"]))
    sk, err = roof.skel_attempt(c, bool(case["layout"].get("unit")))
    if err:
        return [err]
    m = common.model(c)
    # the border of walls in line with each other is arbitrary and may be missing
    bad = roof.skel_topology(sk, strict=m is not None and not m.in_line()) + roof.skel_crossings(sk)
    if roof.helper("checkEdgeCrossing") and roof.helper("checkEdgeCrossing")(sk.arcs):
        bad.append("checkEdgeCrossing() reports crossings")
    return bad


def judge_irregular(case):
    c = common.near_origin(tup(case["contours"]))
    sk, err = roof.skel_attempt(c, bool(case["layout"].get("unit")))
    if err:
        return [err]
    return roof.skel_topology(sk, strict=False) + roof.skel_crossings(sk, 0.1)


KW = dict(z=False, tan=False, faces=False)
SECTIONS = common.roof_sections(judge, **KW) + common.irregular_sections(judge_irregular, tie=True, corner=0, **KW)
