"""any-safety rules report exactly what typescript-eslint's do."""
from vf.rulecheck import *

RULES = """no-unsafe-argument no-unsafe-assignment no-unsafe-call no-unsafe-member-access no-unsafe-return no-unsafe-type-assertion no-unsafe-unary-minus no-unsafe-enum-comparison""".split()


def make():
    return make_group("C22", RULES)
