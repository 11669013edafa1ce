"""condition rules report exactly what typescript-eslint's do."""
from vf.rulecheck import *

RULES = """strict-boolean-expressions no-unnecessary-condition no-unnecessary-boolean-literal-compare prefer-nullish-coalescing prefer-optional-chain no-confusing-void-expression no-meaningless-void-operator strict-void-return""".split()


def make():
    return make_group("C23", RULES)
