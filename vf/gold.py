"""The recorded verdicts of the project's own rule snippets."""
from .xform import *

MIN = {"jsx": "preserve", "target": "esnext", "module": "commonjs", "strict": True, "esModuleInterop": True, "lib": ["esnext"], "experimentalDecorators": True, "skipLibCheck": True, "skipDefaultLibCheck": True, "types": []}
STD = {"jsx": "preserve", "target": "esnext", "module": "commonjs", "strict": True, "esModuleInterop": True, "lib": ["es2015", "es2017", "esnext", "DOM"], "experimentalDecorators": True, "types": []}
CONFIGS = {
    "tsconfig.minimal.json": MIN, "tsconfig.json": STD, "tsconfig.lib-dom.json": STD,
    "tsconfig.exactOptionalPropertyTypes.json": {**STD, "exactOptionalPropertyTypes": True},
    "tsconfig.noUncheckedIndexedAccess.json": {**STD, "noUncheckedIndexedAccess": True},
    "tsconfig.unstrict.json": {**STD, "strict": False},
    "tsconfig.noImplicitThis.json": {**STD, "noImplicitThis": False},
    "tsconfig.noPropertyAccessFromIndexSignature.json": {**MIN, "noPropertyAccessFromIndexSignature": True},
}
TAIL = "\nexport {};\n"
_fix, _cases = None, None


def fixtures():
    global _fix
    if _fix is None:
        _fix = {}
        root = VERIF + "/corpus/fixtures"
        for d, _, fs in os.walk(root):
            for f in fs:
                _fix[os.path.relpath(f"{d}/{f}", root)] = open(f"{d}/{f}").read()
    return _fix


def cases():
    """[(corpus case, item)]: the snippets whose recorded verdict does not depend on being a script or on other packages"""
    global _cases
    if _cases is None:
        with open(VERIF + "/corpus/gold_excluded.json") as f:
            ex = set(json.load(f))
        _cases = [(c, it) for c, it in candidates() if c["i"] not in ex]
    return _cases


def candidates():
    for c in corpus():
        cfg = os.path.basename(c["TSConfig"] or c["TSConfigDefault"])
        if c["Files"] or c["Skip"] or cfg not in CONFIGS or c["fn"] not in ("file.ts", "react.tsx"):
            continue
        yield c, item(c["Code"] + TAIL, {c["Rule"]: c["Options"]}, CONFIGS[cfg], ext(c["fn"]))


def run(exe, items):
    return tsgolint(exe, items, size=50, base={}, extra=fixtures())


def linecol(src, p):
    """1-based line and UTF-16 column of a byte offset."""
    t = src[:p].decode("utf-8", "replace")
    ls = re.split(r"\r\n|\n|\r|\u2028|\u2029", t)
    return len(ls), len(ls[-1].encode("utf-16-le", "surrogatepass")) // 2 + 1


def verdict_error(c, it, diags):
    """Do the diagnostics agree with what the case records?"""
    src = it["code"].encode("utf-8", "surrogatepass")
    want = [(e["MessageId"], e["Line"], e["Column"], e["EndLine"], e["EndColumn"]) for e in c["Errors"]]
    got = [(d["message"]["id"], *linecol(src, d["range"]["pos"]), *linecol(src, d["range"]["end"])) for d in diags]
    from .diffcmp import match
    a, b = match(want, got, lambda x, y: x[0] == y[0] and all(p == 0 or p == q for p, q in zip(x[1:], y[1:])))
    if a or b:
        return f"recorded but not reported: {a[:3]}; reported but not recorded: {b[:3]}"
    return None
