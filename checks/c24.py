"""type-syntax rules report exactly what typescript-eslint's do."""
from vf.rulecheck import *

RULES = """no-duplicate-type-constituents no-redundant-type-constituents no-unnecessary-qualifier no-unnecessary-type-arguments no-unnecessary-type-assertion no-unnecessary-type-parameters no-unnecessary-type-conversion non-nullable-type-assertion-style consistent-type-exports prefer-reduce-type-parameter""".split()


def make():
    return make_group("C24", RULES)
