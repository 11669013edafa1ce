"""string, array and operator rules report exactly what typescript-eslint's do."""
from vf.rulecheck import *

RULES = """restrict-plus-operands restrict-template-expressions no-base-to-string no-unnecessary-template-expression prefer-includes prefer-string-starts-ends-with prefer-regexp-exec prefer-find require-array-sort-compare no-array-delete no-for-in-array no-implied-eval""".split()


def make():
    return make_group("C25", RULES)
