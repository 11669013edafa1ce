"""class and member rules report exactly what typescript-eslint's do."""
from vf.rulecheck import *

RULES = """unbound-method prefer-readonly prefer-readonly-parameter-types prefer-return-this-type related-getter-setter-pairs no-misused-spread dot-notation no-deprecated""".split()


def make():
    return make_group("C27", RULES)
