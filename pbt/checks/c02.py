"""C02: what every face looks like"""
import common
import roof

RULE = common.RULE


def judge(case):
    call, err = common.call_of(case)
    if err:
        return [err]
    return roof.faces_contract(call) + roof.simple_faces(call)


def judge_irregular(case):
    call, err = common.call_of(case)
    return [err] if err else roof.faces_contract(call)


SECTIONS = common.roof_sections(judge) + common.irregular_sections(judge_irregular, tie=True, corner=0)
