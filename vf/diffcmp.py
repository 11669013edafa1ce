"""How the two linters' reports are compared: which of their differences mean nothing."""
import json
import re
from .core import *

# the same violation under another name (in some cases the name an earlier upstream version used)
IDS = {
    "unboundWithoutThisAnnotation": "unbound", "errorCall": "unsafeCall", "errorCallThis": "unsafeCallThis", "errorNew": "unsafeNew", "errorTemplateTag": "unsafeTemplateTag",
    "errorMemberExpression": "unsafeMemberExpression", "errorComputedMemberAccess": "unsafeComputedMemberAccess", "errorThisMemberExpression": "unsafeThisMemberExpression",
    "unsafeObjectPattern": "unsafeArrayPatternFromTuple", "missingReturn": "missingReturnValue", "meaninglessVoidOnNonCall": "meaninglessVoidOperator", "deprecatedWithReason": "deprecated",
}
# rules whose squiggle covers a different stretch than upstream's: compared by overlap, or by the line they begin on
LOOSE = set("""await-thenable consistent-type-exports no-array-delete no-base-to-string no-duplicate-type-constituents no-floating-promises no-misused-promises no-redundant-type-constituents
no-unnecessary-condition no-unnecessary-template-expression no-unnecessary-type-assertion no-unsafe-assignment no-unsafe-return no-unsafe-type-assertion only-throw-error prefer-optional-chain
prefer-string-starts-ends-with promise-function-async require-await strict-boolean-expressions strict-void-return consistent-return no-unnecessary-type-conversion""".split())


def match(a, b, ok):
    """Maximum bipartite matching; returns the unmatched of both sides."""
    mb = {}

    def aug(i, seen):
        for j in range(len(b)):
            if j not in seen and ok(a[i], b[j]):
                seen.add(j)
                if j not in mb or aug(mb[j], seen):
                    mb[j] = i
                    return True
        return False
    ua = [a[i] for i in range(len(a)) if not aug(i, set())]
    return ua, [b[j] for j in range(len(b)) if j not in mb]


def _strip(src, p, e):
    while p < e and src[p : p + 1] in b"( \n\t\r":
        p += 1
    while p < e and src[e - 1 : e] in b") \n\t\r":
        e -= 1
    return p, e


STRINGLEGACY = set("anchor big blink bold fixed fontcolor fontsize italics link small strike sub substr sup trimLeft trimRight".split())


def accepted(rule, side, d, src, it):
    """Differences this project's own tests document, or that come from ESTree wrapping optional chains."""
    i, p, e, _ = d
    t = src[p:e].decode("utf-8", "replace")
    code = it["code"]
    if side == "theirs":
        if d[3] in ("meaninglessVoidOnNonCall", "contextuallyInferredTypeArguments"):
            return "a message of a later upstream version"
        if i == "contextuallyUnnecessary":
            return "assertions on argument and literal positions are judged more carefully (TestNoUnnecessaryTypeAssertion/valid-84..155)"
        if rule == "dot-notation" and re.search(r"\b(private|protected)\s+[gs]et\b", code):
            return "accessors of unequal visibility (TestDotNotation/valid-44..46)"
        if rule == "no-deprecated" and t in json.dumps((it["rules"][rule] or {}).get("allow") or []):
            return "the names of contextual properties can be allowed (TestNoDeprecatedRule)"
        if rule == "no-deprecated" and t in STRINGLEGACY:
            return "deprecated String members in a contextual type (TestNoDeprecatedRule/valid-85)"
        if rule == "no-unnecessary-type-conversion" and ("+= ''" in t or "..." in code or re.search(r"\b(String|Number|Boolean|BigInt|toString)\s*\([^()]*(\([^()]*\)[^()]*)*,|toString\([^)]", code)):
            return "conversions that also do something else (TestNoUnnecessaryTypeConversion/valid-6,7,29..31)"
        if rule == "prefer-string-starts-ends-with" and re.search(r"/\w*[gy]\w*\b|undefined|missing", code):
            return "stateful patterns, comparison with undefined (TestPreferStringStartsEndsWithRule/valid-42..46)"
        if rule == "no-unnecessary-qualifier" and re.search(r"\([\w.]+\)\s*\??\.", code):
            return "upstream's own fix for `(A).x` breaks the program"
        if rule == "prefer-readonly" and (it["rules"][rule] or {}).get("onlyInlineLambdas"):
            return "onlyInlineLambdas is about initializers (TestPreferReadonly/valid-52,53)"
        if rule == "no-useless-default-assignment" and i == "noStrictNullCheck" or (rule == "no-useless-default-assignment" and (it["opts"].get("strictNullChecks") is False or it["opts"].get("strict") is False)):
            return "without strictNullChecks only that is reported"
        if rule == "no-unnecessary-condition" and (it["opts"].get("strictNullChecks") is False or it["opts"].get("strict") is False):
            return "without strictNullChecks only that is reported"
        if rule == "no-mixed-enums" and "namespace" in code:
            return "namespaces that do not merge"
        if rule == "switch-exhaustiveness-check" and "no default" in code:
            return "the comment before another comment (TestSwitchExhaustivenessCheckRule/valid-54)"
        if rule == "no-implied-eval" and "?.bind(" in t:
            return "upstream does not look through optional chains"
        if rule == "unbound-method" and re.search(r"[}\]]\)?\s*([-+*/&|^%]|\*\*|<<|>>|>>>|&&|\|\||\?\?)=", code):
            return "a pattern cannot be the target of a compound assignment"
    else:
        if rule == "switch-exhaustiveness-check" and "no default" in code:
            return "the comment before another comment (TestSwitchExhaustivenessCheckRule/valid-54)"
        if rule == "no-unnecessary-condition" and "asserts" in code and re.search(r"\|\||&&", code):
            return "a later upstream version leaves the right operand in an asserted argument alone"
        if rule == "no-duplicate-type-constituents" and i == "unnecessary" and re.search(r"[}\]]\s*\?\s*:", code):
            return "optional binding patterns"
        if rule == "no-unnecessary-type-arguments" and "new " in code:
            return "type arguments of constructors (TestNoUnnecessaryTypeArguments/invalid-28)"
        if rule == "no-unnecessary-condition" and i == "alwaysNullish" and "void" in code:
            return "void is nullish (documented in the rule)"
        if rule == "no-unnecessary-type-conversion" and "extends" in code:
            return "type parameters (TestNoUnnecessaryTypeConversion/invalid-21)"
        if rule == "no-unnecessary-template-expression" and re.search(r"//|/\*", t):
            return "comments in the interpolation"
        if rule == "no-array-delete" and "?." in code:
            return "upstream does not look through optional chains"
    return None


def compare(rule, ours, theirs, it):
    """ours: diagnostics of tsgolint; theirs: messages of typescript-eslint. -> (only ours, only theirs), as (id, pos, end, original id)"""
    src = it["code"].encode("utf-8", "surrogatepass")

    def mk(i, p, e, anywhere=False):
        if rule not in LOOSE:
            p, e = _strip(src, p, e)
        return (IDS.get(i, i), p, e, i) if not anywhere else (IDS.get(i, i), -1, -1, i)
    # a report without a place of its own points out its parts in labels
    a = [mk(d["message"]["id"], d["range"]["pos"], d["range"]["end"], d["range"]["end"] == 0 and bool(d.get("labeled_ranges"))) for d in ours]
    b = [mk(m["id"], m["pos"], m["end"]) for m in theirs]
    a, b = sorted(set(a)), sorted(set(b))
    if rule in LOOSE:
        line = lambda p: src.count(b"\n", 0, p)
        a, b = match(a, b, lambda x, y: x[0] == y[0] and (x[1] < 0 or (x[1] <= y[2] and y[1] <= x[2]) or line(x[1]) == line(y[1])))
    else:
        a, b = match(a, b, lambda x, y: x[0] == y[0] and (x[1] < 0 or x[:3] == y[:3]))
    return [x for x in a if not accepted(rule, "ours", x, src, it)], [y for y in b if not accepted(rule, "theirs", y, src, it)]


# Genuine differences, recorded as findings: (rule, whose report, kind of message, what the program contains, name).
# A difference outside these classes is a violation.
CLASSES = [(r, side, re.compile(ids), re.compile("(?s)" + code), name) for r, side, ids, code, name in [
    ("strict-boolean-expressions", "both", "conditionError", r"", "mixed-unions"),
    ("no-unnecessary-boolean-literal-compare", "ours", "comparingNullable", r"\b(true|false|boolean)\b.*\|", "mixed-unions"),
    ("no-unnecessary-condition", "theirs", "neverOptionalChain", r"\?\.", "missed-optional-chain"),
    ("no-unnecessary-condition", "ours", "neverOptionalChain", r"\]\s*\?\.", "array-index-chain"),
    ("no-unnecessary-condition", "theirs", "always|noOverlap|never", r"\bextends\b|<[A-Z]\w*>\(", "generic"),
    ("no-unnecessary-condition", "theirs", "alwaysTruthy", r"`", "template-literal-type"),
    ("no-unnecessary-condition", "ours", "neverNullish", r"\bunknown\b", "unknown-member"),
    ("no-unnecessary-condition", "theirs", "typeGuardAlreadyIsType", r"\bis\b", "type-guard-literal"),
    ("no-unnecessary-condition", "both", "always(Truthy|Falsy)(Func)?", r"=>\s*\{", "block-callback"),
    ("no-unnecessary-condition", "ours", "always", r"&&.*\|\|", "chained-logical"),
    ("no-unnecessary-condition", "both", "always", r"=>\s*never", "never-callback"),
    ("no-floating-promises", "both", "floating", r"\?\.", "optional-catch"),
    ("no-unsafe-assignment", "ours", "unsafeArrayPatternFromTuple", r"\[", "nested-pattern-default"),
    ("no-unsafe-return", "ours", "unsafeReturnAssignment", r"new \w+<any>", "new-any"),
    ("prefer-nullish-coalescing", "ours", "preferNullishOverAssignment", r"\?\.", "optional-assignment"),
    ("prefer-nullish-coalescing", "theirs", "preferNullish", r"\bvoid\b", "void"),
    ("prefer-nullish-coalescing", "ours", "preferNullish", r"!", "non-null-assertion"),
    ("prefer-nullish-coalescing", "theirs", "preferNullishOverTernary", r"\[", "computed"),
    ("strict-void-return", "ours", "asyncFunc|nonVoid", r"&", "function-intersection"),
    ("strict-void-return", "theirs", "nonVoidReturn", r"\bget\b", "accessor"),
    ("no-confusing-void-expression", "theirs", "invalidVoidExprArrow", r"&", "function-intersection"),
    ("no-redundant-type-constituents", "both", "verrid", r"\(", "parentheses"),
    ("no-unnecessary-qualifier", "both", "unnecessaryQualifier", r"(namespace|module)\s+\w+\s*\.", "dotted-namespace"),
    ("no-unnecessary-type-parameters", "ours", "sole", r"\bin\s+keyof\b", "mapped-type"),
    ("no-unnecessary-type-parameters", "both", "sole", r"NoInfer|class|&", "inference-positions"),
    ("no-implied-eval", "theirs", "noImpliedEval|noFunctionConstructor", r"\(\w+\)\s*[(\[.]", "parentheses"),
    ("no-mixed-enums", "theirs", "mixed", r"any|undefined|null|\bthis\b|\bvoid\b", "any-initializer"),
    ("no-unnecessary-type-assertion", "both", "", r"null|void|undefined", "nullish-generic"),
    ("no-unnecessary-type-assertion", "ours", "", r"\[\]", "contextual-array"),
    ("no-unnecessary-type-assertion", "theirs", "", r"`", "template-tag"),
    ("no-duplicate-type-constituents", "theirs", "duplicate", r"\{", "object-literals"),
    ("prefer-includes", "theirs", "preferStringIncludes", r"RegExp\(|\\|\?\.|/[^/\n]*[{}\]]", "constant-patterns"),
    ("prefer-includes", "theirs", "preferIncludes", r"-\s*(\[|true|\(|\w*')", "coerced-minus-one"),
    ("prefer-find", "theirs", "preferFind", r"", "constant-index"),
    ("prefer-regexp-exec", "theirs", "regExpExec", r"", "constant-patterns"),
    ("prefer-regexp-exec", "ours", "regExpExec", r"match", "string-argument"),
    ("prefer-string-starts-ends-with", "theirs", "prefer", r"RegExp\(", "constant-patterns"),
    ("prefer-string-starts-ends-with", "theirs", "prefer", r"''|\"\"|``|length\s*!|/\^/|/\^?[^/]*[{}]", "constant-length"),
    ("prefer-string-starts-ends-with", "ours", "prefer", r"\?\.", "optional-length"),
    ("consistent-return", "theirs", "missingReturn|unexpectedReturn", r"", "void-returns"),
    ("consistent-return", "ours", "missingReturn|unexpectedReturn", r"\bvoid\b|\bundefined\b", "void-returns"),
    ("prefer-readonly-parameter-types", "both", "shouldBeReadonly", r"\[\]\s*&|&[^;]*\[\]|Partial|Record|Required|Pick|Omit|\bin\b|`|Symbol|unique symbol|\(?(true|false|boolean)\)?\s*&|&\s*\(?(true|false|boolean)", "mapped-and-symbol-keys"),
    ("related-getter-setter-pairs", "theirs", "mismatch", r"\bthis\b", "this-type"),
    ("prefer-readonly", "theirs", "preferReadonly", r"''|\"\"", "empty-name"),
    ("prefer-nullish-coalescing", "both", "", r"undefined|null|\|", "union-spelling"),
    ("no-floating-promises", "theirs", "floating", r"=>\s*void\b", "void-arrow"),
    ("no-unnecessary-type-arguments", "both", "", r"&|\|", "equal-types"),
    ("dot-notation", "ours", "useDot", r"`", "template-index"),
    ("unbound-method", "both", "unbound", r"\bthis:\s*void|window", "wrapped-or-library"),
    ("no-deprecated", "ours", "deprecated", r"\?\s*:", "optional-argument"),
]]


def divergence(rule, ours, theirs, it):
    """The listed finding (known_findings.txt) these differences are instances of, if there is one."""
    names = {_known(rule, "ours", x, it) for x in ours} | {_known(rule, "theirs", x, it) for x in theirs}
    return f"{rule}:{sorted(names)[0]}" if None not in names else None


def _known(rule, side, d, it):
    for r, s, ids, code, name in CLASSES:
        if r == rule and s in (side, "both") and ids.search(d[0]) and code.search(it["code"]):
            return name
    return None
