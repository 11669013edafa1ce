"""Promise rules report exactly what typescript-eslint's do."""
from vf.rulecheck import *

RULES = """await-thenable no-floating-promises no-misused-promises promise-function-async require-await return-await prefer-promise-reject-errors only-throw-error use-unknown-in-catch-callback-variable""".split()


def make():
    return make_group("C21", RULES)
