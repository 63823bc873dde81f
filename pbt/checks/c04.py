"""C04: the roof is the one of the exact straight skeleton"""
import common
import roof
from common import tup

RULE = common.RULE
TOL = 0.005


def judge(case):
    call, err = common.call_of(case)
    if err:
        return [err]
    m = common.model(tup(case["contours"]))
    if m is None:
        return []
    bad = roof.surface(call, m, call.tan, TOL) + roof.face_identity(call, m, roof.samples(m))
    # every node of the exact skeleton is a vertex of the roof
    # (not where walls in line with each other make some of them arbitrary)
    V = call.V[call.n0:]
    if m.in_line():
        return bad
    for x, y, t in m.nodes:
        z = call.z + call.tan * t
        if m.essential((x, y, t)) and not any(abs(v[0] - x) < 0.03 and abs(v[1] - y) < 0.03 and abs(v[2] - z) < 0.03 * max(1, call.tan) + 1e-5 * abs(call.z) for v in V):
            bad.append("no roof vertex at the skeleton node (%.4f, %.4f, %.4f)" % (x, y, z))
    return bad


def judge_irregular(case):
    call, err = common.call_of(case)
    if err:
        return [err]
    m = common.model(tup(case["contours"]))
    if m is None or m.tie():
        return []
    bad = roof.surface(call, m, call.tan, 0.1)
    if not m.sharp():      # faces with needle-sharp corners are merged on purpose
        bad += roof.face_identity(call, m, roof.samples(m, clearance=0.3))
    return bad


SECTIONS = common.roof_sections(judge) + common.irregular_sections(judge_irregular, corner=0)
