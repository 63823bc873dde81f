"""C03: every face is a plane through its eave with the requested pitch"""
import common
import roof

RULE = common.RULE
TOL = 0.005


def judge(case):
    call, err = common.call_of(case)
    if err:
        return [err]
    return roof.planarity(call, call.tan, TOL)


def judge_irregular(case):
    call, err = common.call_of(case)
    return [err] if err else roof.planarity_any(call, 0.2)


SECTIONS = common.roof_sections(judge) + common.irregular_sections(
    judge_irregular, tie=True, corner=0, names=common.IRREGULAR + ["noisy", "bay", "collinear", "recti"])
