"""C10: skeletonize() gives the nodes of the exact straight skeleton"""
import common
import roof
from common import tup

RULE = common.RULE + " skeletonize() is called on plain edges, with and without given unit vectors."


def judge(case):
    c = common.near_origin(tup(case["contours"]))
    sk, err = roof.skel_attempt(c, bool(case["layout"].get("unit")))
    if err:
        return [err]
    m = common.model(c)
    return [] if m is None else roof.skel_exact(sk, m) + roof.skel_arcs(sk, m)


def judge_irregular(case):
    c = common.near_origin(tup(case["contours"]))
    sk, err = roof.skel_attempt(c, bool(case["layout"].get("unit")))
    if err:
        return [err]
    m = common.model(c)
    return [] if m is None or m.tie() else roof.skel_near(sk, m) + roof.skel_arcs(sk, m, 0.3)


SECTIONS = (common.roof_sections(judge, z=False, tan=False, faces=False) +
            common.irregular_sections(judge_irregular, corner=0, z=False, tan=False, faces=False))
