"""C01: the faces tile the footprint"""
import common
import roof
from common import tup

RULE = common.RULE


def judge(case):
    call, err = common.call_of(case)
    if err:
        return [err]
    bad = roof.manifold(call) + roof.tiling(call)
    m = common.model(tup(case["contours"]))
    if m is not None and not bad:
        bad += roof.cover(call, [p for _, p in roof.samples(m)])
    return bad


def judge_irregular(case):
    call, err = common.call_of(case)
    return [err] if err else roof.manifold(call) + roof.tiling(call, 0.01)


SECTIONS = common.roof_sections(judge) + common.irregular_sections(judge_irregular, tie=True, corner=0)
