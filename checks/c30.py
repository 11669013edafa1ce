"""Verdicts do not depend on layout, comments, names or enclosing scope."""
from vf.pbt import *
from vf.xform import *
from vf.semmut import mutate as semmut, hoist
from vf.diffcmp import match
from vf.ws import CALL_ASSERT
from vf.rulecheck import LAYOUTS

BIN = {}
ALL = rules()
CS = [c for c in corpus() if not c["Files"] and c["fn"] in ("file.ts", "react.tsx") and len(c["Code"]) < 4000]
CFG = [{}] * 8 + [{"noUncheckedIndexedAccess": True}, {"exactOptionalPropertyTypes": True}, {"strict": False}]
OUT = {"moduleDetection": "force"}
_lib = None


def libwords():
    """Words of the default library: not names of the program's own."""
    global _lib
    if _lib is None:
        import glob
        _lib = set()
        for f in glob.glob("/opt/veriftools/node/node_modules/typescript/lib/lib.*.d.ts"):
            _lib |= set(re.findall(r"[A-Za-z_$][\w$]*", open(f, encoding="utf-8").read()))
        # and names upstream's rules know
        for f in glob.glob("/opt/veriftools/node/node_modules/@typescript-eslint/eslint-plugin/dist/**/*.js", recursive=True):
            _lib |= set(re.findall(r"['\"]([A-Za-z_$][\w$]*)['\"]", open(f, encoding="utf-8").read()))
    return _lib


# What a rule does with them is a matter of the words in comments or of the place itself:
SCOPED = {
    # top-level `this`, `await` and `return` mean something else inside of a function; type errors tell the rest apart
    "block": ("{\n", "\n}"), "function": ("function wrapper__() {\n", "\n}"), "arrow": ("const wrapper__ = () => {\n", "\n};"), "namespace": ("namespace Wrapper__ {\n", "\n}"), "blocks": ("{ {{\n", "\n} } }"),
    "static": ("class Wrapper__ { static {\n", "\n} }"), "method": ("class Wrapper__ { m(this: void) {\n", "\n} }"), "if": ("if (Math.random() > 0.5) {\n", "\n}"), "label": ("wrapper__: {\n", "\n}"), "module": ("namespace A__.B__ {\n", "\n}"),
}


def program(r):
    c = r.choice(CS)
    code = c["Code"] if r.random() < 0.5 else semmut(r, c["Rule"], c["Code"])
    if not code.endswith("\n"):
        code += "\n"
    return c, {"code": code, "ext": ext(c["fn"]), "opts": {**OUT, **r.choice(CFG)}}, ({c["Rule"]: c["Options"]} if c["Options"] is not None else {})


def only(code):
    """All rules, without those whose reports are a matter of listed findings."""
    return [x for x in ALL if not (x == "no-unnecessary-type-assertion" and CALL_ASSERT.search(code))]


def full(p, opts):
    return {**p, "rules": {x: opts.get(x) for x in only(p["code"])}}


def shape(res, drop=()):
    """[(rule, message, start, end, labels)]"""
    return [(d["rule"], d["message"]["id"], d["range"]["pos"], d["range"]["end"], tuple(sorted((l["range"]["pos"], l["range"]["end"]) for l in d.get("labeled_ranges") or []))) for d in res["diags"] if d["rule"] not in drop and d["message"]["id"] != "noStrictNullCheck"]


def err(res):
    return collections.Counter(d["message"]["id"] for d in res["types"])


def show(code, xs):
    b = code.encode("utf-8", "surrogatepass")
    return [(x[0], x[1], b[x[2] : x[3]].decode("utf-8", "replace")[:60], x[2]) for x in xs[:4]]


def prop(name, generate, transform, quick, thorough, skip=lambda rule, code: False):
    """transform(batch) -> [(other code or None, same(old range, new range), extra)]"""
    def evaluate(batch):
        tr = transform(batch)
        todo = [i for i, t in enumerate(tr) if t]
        items = [full(batch[i]["p"], batch[i]["o"]) for i in todo]
        # the same rules on both sides
        others = [{**it, "code": tr[i][0], "rules": {x: o for x, o in it["rules"].items() if x != "no-unnecessary-type-assertion" or not CALL_ASSERT.search(tr[i][0])}} for i, it in zip(todo, items)]
        A, B = tsgolint(BIN["x"], items, types=True), tsgolint(BIN["x"], others, types=True)
        bad = [k for k, i in enumerate(todo) if _differ(batch[i], items[k], others[k], A[k], B[k], tr[i])]
        if bad and len(bad) < 300:
            a, b = tsgolint(BIN["x"], [items[k] for k in bad], types=True, size=1), tsgolint(BIN["x"], [others[k] for k in bad], types=True, size=1)
            for k, x, y in zip(bad, a, b):
                A[k], B[k] = x, y
        out = [Verdict(labels=("not applicable",)) for _ in batch]
        for k, i in enumerate(todo):
            a, b = A[k], B[k]
            if "crash" in a or "crash" in b:
                out[i] = Verdict(labels=("crash (C31)",))
                continue
            if err(a) != err(b):
                out[i] = Verdict(labels=("other type errors",))
                continue
            f = _differ(batch[i], items[k], others[k], a, b, tr[i])
            n = sum(d["rule"] in others[k]["rules"] for d in a["diags"])
            out[i] = Verdict(fail=f, key=canon(batch[i]) if n else None, labels=("reports" if n else "silent", *batch[i].get("labels", [])), signature=sig(f) if f else "")
        return out

    def _differ(case, it, other, a, b, t):
        if "crash" in a or "crash" in b or err(a) != err(b):
            return None
        sa = [x for x in shape(a) if x[0] in other["rules"] and not skip(x[0], it["code"], case)]
        sb = [x for x in shape(b) if not skip(x[0], it["code"], case)]
        ok = t[1]
        lab = lambda x, y: len(x) == len(y) and all(ok(p, q) for p, q in zip(x, y))
        x, y = match(sa, sb, lambda x, y: x[:2] == y[:2] and ok(x[2:4], y[2:4]) and lab(x[4], y[4]))
        if x or y:
            return f"{name} {case.get('what', '')}: reported in the original only {show(it['code'], x)}, in the other only {show(other['code'], y)}\n--- original {it['opts']}\n{it['code']}\n--- other\n{other['code']}"
        if case.get("ren"):
            m = case["ren"]
            sub = re.compile(r"\b(" + "|".join(map(re.escape, m)) + r")\b")
            # the compiler orders the members of unions by name
            txt = lambda d: " ".join(sorted(re.findall(r"\w+|[^\w\s]", sub.sub(lambda z: m[z.group(1)], canon({k: v for k, v in d.items() if k != "file_path"})))))
            ta = collections.Counter(txt(d) for d in a["diags"] if d["rule"] in other["rules"])
            tb = collections.Counter(txt(d) for d in b["diags"])
            d = msdiff(ta, tb, "the original", "the renamed")
            return d and f"{name} {m}: {d}\n--- original {it['opts']}\n{it['code']}\n--- other\n{other['code']}"
        return None

    def sig(f):
        return ""

    def reduce(case):
        ls = case["p"]["code"].split("\n")
        out = [{**case, "o": {}}] if case["o"] else []
        out += [{**case, "p": {**case["p"], "code": "\n".join(ls[:i] + ls[i + k :])}} for k in (8, 4, 2, 1) for i in range(0, len(ls), k)]
        return out + [{**case, "what": [w]} for w in case.get("what", []) if isinstance(case["what"], list) and len(case["what"]) > 1]
    return GProp(name, generate, evaluate, reduce, quick=quick, thorough=thorough, batch=24000)


# ------------------------------------------------------------------ layout
def gen_layout(r, n):
    out = []
    for _ in range(n):
        c, p, o = program(r)
        w = r.choice(LAYOUTS)
        out.append({"p": p, "o": o, "what": w, "seed": r.randrange(1 << 30), "labels": ["+".join(w)]})
    return out


def tr_layout(batch):
    out = []
    for b, t in zip(batch, tokens([b["p"] for b in batch])):
        if t is None:
            out.append(None)
            continue
        x = layout(b["p"]["code"], t, random.Random(b["seed"]), b["what"], jsx=b["p"]["ext"] == ".tsx")
        out.append((x.code, lambda o, n, x=x: x.same(o, n)))
    return out


def skip_layout(rule, code, case):
    # comments in `${}` are a reason to keep it; the text of parameters is compared (listed with C25)
    return rule == "no-unnecessary-template-expression" and "comment" in case["what"] and "${" in code or rule == "prefer-includes" and "indexOf" in code


# ------------------------------------------------------------------ names
def fresh(r, w, used):
    al = "abcdefghijklmnopqrstuvwxyz"
    for _ in range(50):
        x = "".join(c if not c.isalpha() else (r.choice(al.upper()) if c.isupper() else r.choice(al)) for c in w)
        if x not in used and x not in libwords():
            return x
    return None


def gen_rename(r, n):
    out = []
    for _ in range(n):
        c, p, o = program(r)
        out.append({"p": p, "o": o, "seed": r.randrange(1 << 30)})
    return out


KEYW = set("""break case catch class const continue debugger default delete do else enum export extends false finally for function if import in instanceof new null return super switch this throw true try typeof var void while with
as implements interface let package private protected public static yield any boolean constructor declare get infer is keyof module namespace never readonly require number object set string symbol type undefined unique unknown from global bigint of async await satisfies abstract asserts override accessor arguments eval jsx div span a b p i""".split())


def tr_rename(batch):
    out = []
    for b, t in zip(batch, tokens([b["p"] for b in batch])):
        code = b["p"]["code"]
        if t is None or b["p"]["ext"] == ".tsx":
            out.append(None)
            continue
        u = code.encode("utf-16-le", "surrogatepass")
        tx = [(s, e, k, u[s * 2 : e * 2].decode("utf-16-le", "surrogatepass")) for s, e, k in t]
        words = set(re.findall(r"[A-Za-z_$][\w$]*", " ".join(x for _, _, k, x in tx if k != "Identifier")))
        gaps = code  # comments too
        for _, _, _, x in sorted(tx, key=lambda z: -z[0]):
            pass
        last, com = 0, ""
        for s, e, _ in t:
            com += u[last * 2 : s * 2].decode("utf-16-le", "surrogatepass")
            last = max(last, e)
        words |= set(re.findall(r"[A-Za-z_$][\w$]*", com + u[last * 2 :].decode("utf-16-le", "surrogatepass"))) | set(re.findall(r"[A-Za-z_$][\w$]*", canon(b["o"]) + " Foo Error"))
        ids = sorted({x for _, _, k, x in tx if k == "Identifier" and x.isascii()})
        # at least as common as one character: those of one letter are renamed to one letter
        r = random.Random(b["seed"])
        mine = [x for x in ids if x not in libwords() and x not in KEYW and x not in words]
        ren = {}
        for x in mine:
            if r.random() < 0.7:
                f = fresh(r, x, set(ids) | set(ren.values()) | KEYW | words)
                if f:
                    ren[x] = f
        if not ren:
            out.append(None)
            continue
        b["ren"] = ren
        parts, last = [], 0
        for s, e, k, x in tx:
            parts.append(u[last * 2 : s * 2].decode("utf-16-le", "surrogatepass"))
            parts.append(ren.get(x, x) if k == "Identifier" else x)
            last = e
        parts.append(u[last * 2 :].decode("utf-16-le", "surrogatepass"))
        out.append(("".join(parts), lambda o, n: tuple(o) == tuple(n)))
    return out


# ------------------------------------------------------------------ scope
def gen_scope(r, n):
    out = []
    while len(out) < n:
        c, p, o = program(r)
        up, body = hoist(p["code"])
        if re.search(r"\b(import|export)\b", body) or not body.strip():
            continue
        w = r.choice(sorted(SCOPED))
        p["code"] = (up + "\n" if up else "") + body
        out.append({"p": p, "o": o, "what": w, "labels": [w]})
    return out


def tr_scope(batch):
    out = []
    for b, t in zip(batch, tokens([b["p"] for b in batch])):
        if t is None:
            out.append(None)
            continue
        up, body = hoist(b["p"]["code"])
        up = up + "\n" if up else ""
        if not b["p"]["code"].startswith(up):
            out.append(None)
            continue
        if b["what"] in ("function", "arrow", "method", "static") and re.search(r"\b(this|arguments|super|await|return|yield|globalThis)\b", body):
            out.append(None)
            continue
        pre, post = SCOPED[b["what"]]
        lim, k = len(up.encode()), len(pre.encode())
        move = lambda p, lim=lim, k=k: p if p < lim else p + k
        out.append((up + pre + body + post, lambda o, n, move=move: tuple(o) == tuple(n) or tuple(move(x) for x in o) == tuple(n)))
    return out


def skip_scope(rule, code, case):
    return False


# ------------------------------------------------------------------ neighbours
def gen_beside(r, n):
    """Two programs in one file, each in a block of its own: the reports are those of the two."""
    out = []
    while len(out) < n:
        c, p, o = program(r)
        if r.random() < 0.6:
            d = r.choice([x for x in _by(c["Rule"])])
            q = d["Code"] if r.random() < 0.5 else semmut(r, c["Rule"], d["Code"])
        else:
            q = program(r)[1]["code"]
        q = q if q.endswith("\n") else q + "\n"
        if any(re.search(r"\b(import|export|declare)\b", x) or not x.strip() for x in (p["code"], q)):
            continue
        wrap = "block" if r.random() < 0.5 and not re.search(r"\b(for|while|do|throw|return|break|continue|never|asserts)\b", p["code"]) else "function"
        out.append({"p": p, "o": o, "q": q, "wrap": wrap})
    return out


_rule = None


def _by(rule):
    global _rule
    if _rule is None:
        _rule = collections.defaultdict(list)
        for c in CS:
            _rule[c["Rule"]].append(c)
    return _rule[rule]


def first(b):
    return ("{\n" if b["wrap"] == "block" else "function first__() {\n") + b["p"]["code"] + "}\n"


def second(b):
    return ("{\n" if b["wrap"] == "block" else "function second__() {\n") + b["q"] + "}\n"


def eval_beside(batch):
    items = []
    T = tokens([x for b in batch for x in (b["p"], {**b["p"], "code": b["q"]})])
    for b in batch:
        rs = [x for x in ALL if x != "no-unnecessary-type-assertion" or not CALL_ASSERT.search(b["p"]["code"] + b["q"])]
        mk = lambda c: {**b["p"], "code": c, "rules": {x: b["o"].get(x) for x in rs}}
        items += [mk(first(b)), mk(second(b)), mk(first(b) + second(b))]
    res = tsgolint(BIN["x"], items, types=True)

    def judge(b, x, y, z):
        if any("crash" in t for t in (x, y, z)):
            return Verdict(labels=("crash (C31)",))
        if err(x) + err(y) != err(z):
            return Verdict(labels=("other type errors",))
        k = len(first(b).encode("utf-8", "surrogatepass"))
        mv = lambda s: (s[0], s[1], s[2] + k if s[3] else s[2], s[3] + k if s[3] else 0, tuple((p + k, q + k) for p, q in s[4]))
        want = collections.Counter(shape(x)) + collections.Counter(mv(s) for s in shape(y))
        got = collections.Counter(shape(z))
        fail = None
        if want != got:
            src = first(b) + second(b)
            fail = f"of two programs side by side, reported alone only {show(src, list((want - got).elements()))}, together only {show(src, list((got - want).elements()))} {b['p']['opts']} {b['o']}\n{src}"
        return Verdict(fail=fail, key=canon(b) if x["diags"] and y["diags"] else None, labels=("both report" if x["diags"] and y["diags"] else "not both",))
    out = [judge(b, *res[3 * i : 3 * i + 3]) if None not in T[2 * i : 2 * i + 2] else Verdict(labels=("syntax errors",)) for i, b in enumerate(batch)]
    bad = [i for i, v in enumerate(out) if v.fail]
    if bad and len(bad) < 100:
        again = tsgolint(BIN["x"], [items[3 * i + j] for i in bad for j in range(3)], types=True, size=1)
        for n, i in enumerate(bad):
            out[i] = judge(batch[i], *again[3 * n : 3 * n + 3])
    return out


def red_beside(b):
    out = [{**b, "o": {}}] if b["o"] else []
    for k in (8, 4, 2, 1):
        ls = b["p"]["code"].split("\n")
        out += [{**b, "p": {**b["p"], "code": "\n".join(ls[:i] + ls[i + k :]) + "\n"}} for i in range(0, len(ls), k)]
        ls = b["q"].split("\n")
        out += [{**b, "q": "\n".join(ls[:i] + ls[i + k :]) + "\n"} for i in range(0, len(ls), k)]
    return out


def setup():
    BIN["x"] = build("tsgolint")["tsgolint"]


def make():
    chk = Check("C30", "programs of every rule's suite, as they are or mutated, under all rules at once, and the same program in another layout (spaces, tabs, new lines, CRLF, comments, text before and after), with its own identifiers consistently renamed, inside a redundant block, function, arrow, method, static block, namespace or label, or next to another program in the same file; the reports have to be the same ones at the moved places (for renaming: the same in every member, with the names replaced). "
                "Compared when the compiler's own errors are the same in both. Non-trivial = something is reported (side by side: by both programs).", setup=setup)
    chk.add(prop("layout", gen_layout, tr_layout, 16000, 100000, skip_layout))
    chk.add(prop("names", gen_rename, tr_rename, 24000, 100000, lambda r, c, k: False))
    chk.add(prop("scope", gen_scope, tr_scope, 16000, 100000, skip_scope))
    chk.add(GProp("beside", gen_beside, eval_beside, red_beside, quick=12000, thorough=60000, batch=12000))
    return chk
