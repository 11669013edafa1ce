"""enum, switch and return rules report exactly what typescript-eslint's do."""
from vf.rulecheck import *

RULES = """switch-exhaustiveness-check no-mixed-enums consistent-return no-useless-default-assignment""".split()


def make():
    return make_group("C26", RULES)
