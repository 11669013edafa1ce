"""Quoted string literals evaluate back to the original string."""
from vf.fixing import *
from vf.pbt import *
from vf.probe import probe

BIN = {}
ODD = ["'", '"', "\\", "`", "${", "\n", "\r", "\t", "\v", "\f", "\b", "\0", "\x01", "\x1b", "\x1f", "\x7f", "\x80", "\x85", "\u00a0", "\u2028", "\u2029", "\ufeff", "\u200b", "\u00e9", "\u4f60", "\U0001F600", "\U0010FFFF", "\ufffd", "\ufffe", "0", "7", "8", "u0041", "x41", "n", "\\n", "\\u2028", "\\'", "//", "/*", "*/", "</script>", "\U000E0001", "e\u0301"]


def setup():
    b = build("tsgolint", "probe_utils")
    BIN.update(b, x=b["tsgolint"])


def string(r):
    k = r.random()
    if k < 0.1:
        return chr(r.choice([r.randrange(0x20), r.randrange(0x80, 0xA0), r.randrange(0x2000, 0x2070), r.randrange(0xE000, 0x110000), r.randrange(0xD800)]))
    return "".join(r.choice(ODD) if r.random() < 0.8 else chr(r.choice([r.randrange(0x100), r.randrange(0xD800)])) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 12])))


def gen_strings(r, n):
    out = [{"s": chr(c)} for c in range(0x3000)] + [{"s": chr(c) + d} for c in range(0x20) for d in "019a"]
    out += [{"s": chr(c)} for c in range(0x3000, 0x110000, 997) if not 0xD800 <= c <= 0xDFFF]
    return out + [{"s": string(r)} for _ in range(n)]


RAW = re.compile("[\x00-\x1f\x85\u2028\u2029]")


def evaluate(batch):
    S = [c["s"] for c in batch]
    cut = lambda xs, k: [xs[a : a + k] for a in range(0, len(xs), k)]
    q = [x for b in probe(BIN["probe_utils"], [[{"op": "quote", "strings": p}] for p in cut(S, 3000)]) for x in b[0]]
    orc = oracle()
    js = [x for a in orc.map([{"op": "evalStrings", "exprs": p} for p in cut(q, 3000)]) for x in a["res"]]
    strict = [x for a in orc.map([{"op": "evalStrings", "exprs": [f"(function () {{ 'use strict'; return {x}; }})()" for x in p]} for p in cut(q, 3000)]) for x in a["res"]]
    ts = [x for a in orc.map([{"op": "parse", "texts": [["x.ts", x] for x in p], "tokens": True} for p in cut(q, 3000)]) for x in a["res"]]
    ws = [x for b in probe(BIN["probe_utils"], [[{"op": "space", "strings": p}] for p in cut(S, 3000)]) for x in b[0]]
    jw = [x for a in orc.map([{"op": "evalStrings", "exprs": [f"{json.dumps(x)}.trim() === ''" for x in p]} for p in cut(S, 3000)]) for x in a["res"]]
    out = []
    for c, lit, v, w, t, sp, jsp in zip(batch, q, js, strict, ts, ws, jw):
        s, fail = c["s"], None
        if not (lit.startswith("'") and lit.endswith("'") and len(lit) >= 2):
            fail = f"{lit!r} is not in single quotes"
        elif RAW.search(lit):
            fail = f"{lit!r} has a raw line terminator or control character"
        elif v.get("v") != s or w.get("v") != s:
            fail = f"{lit!r} evaluates to {v}, in strict code {w}"
        elif t["errors"] or [k for *_, k in t["tokens"]][:1] != ["StringLiteral"] or t["tokens"][0][:2] != [0, len(lit.encode("utf-16-le")) // 2]:
            fail = f"{lit!r} is not one string literal to TypeScript: {t}"
        elif sp != jsp.get("v"):
            fail = f"all whitespace: {sp}, by ECMAScript's trim: {jsp}"
        out.append(Verdict(fail=f"for {s!r}: {fail}" if fail else None, key=s if lit != f"'{s}'" or sp else None, labels=("escaped" if lit != f"'{s}'" else "as is", "space" if sp else "text")))
    return out


def eval_spaces(batch):
    got = probe(BIN["probe_utils"], [[{"op": "spaces"}]])[0][0]
    want = oracle().call({"op": "evalStrings", "exprs": ["Array.from({length: 0x110000}, (_, c) => c).filter(c => String.fromCodePoint(c).trim() === '')"]})["res"][0]["v"]
    d = sorted(set(got) ^ set(want))
    return [Verdict(fail=f"whitespace differs from ECMAScript at {[hex(x) for x in d]}" if d else None, key="all", labels=(f"{len(want)} of 0x110000",)) for _ in batch]


# ------------------------------------------------------------------ in fixes
def gen_fix(r, n):
    out = []
    for _ in range(n):
        vals = list(dict.fromkeys(string(r) for _ in range(r.randint(2, 6))))
        out.append({"vals": vals, "kind": r.choice(["union", "enum", "compare"]), "cut": r.randint(0, len(vals) - 1)})
    return out


def program(c):
    lits = [json.dumps(v) for v in c["vals"]]  # ASCII
    if c["kind"] == "union":
        return f"declare const x: {' | '.join(lits)};\nswitch (x) {{\n" + "".join(f"  case {l}: break;\n" for l in lits[: c["cut"]]) + "}\nexport {};\n", {"switch-exhaustiveness-check": None}
    if c["kind"] == "enum":
        return "enum E { " + ", ".join(f"{l} = 'v{i}'" for i, l in enumerate(lits)) + f" }}\ndeclare const x: E;\nswitch (x) {{\n" + "".join(f"  case E[{l}]: break;\n" for l in lits[: c["cut"]]) + "}\nexport {};\n", {"switch-exhaustiveness-check": None}
    return "enum E { " + ", ".join(f"{l} = 'v{i}'" for i, l in enumerate(lits)) + f" }}\ndeclare const x: E;\nif (x === 'v{c['cut']}') {{}}\nexport {{}};\n", {"no-unsafe-enum-comparison": None}


def eval_fix(batch):
    progs = [program(c) for c in batch]
    res = tsgolint(BIN["x"], [item(p, rs) for p, rs in progs])
    texts, plan = [], []
    for c, (p, rs), x in zip(batch, progs, res):
        if "crash" in x:
            plan.append(x["crash"])
            continue
        for d in x["diags"]:
            for g in d.get("suggestions") or []:
                texts.append(apply(p, edits_of(g["fixes"])))
        plan.append((len(x["diags"]), sum(len(d.get("suggestions") or []) for d in x["diags"])))
    js = oracle().map([{"op": "transpile", "texts": texts[a : a + 100]} for a in range(0, len(texts), 100)])
    js = iter([x for r in js for x in r["res"]])
    toks = iter([x for r in oracle().map([{"op": "parse", "texts": [["x.ts", t] for t in texts[a : a + 100]], "tokens": True} for a in range(0, len(texts), 100)]) for x in r["res"]])
    tx = iter(texts)
    out, evals, where = [], [], []
    for c, pl in zip(batch, plan):
        fail = None
        if isinstance(pl, str):
            out.append(Verdict(fail=f"crashed: {pl}"))
            continue
        nd, ns = pl
        if c["kind"] != "compare" and len(c["vals"]) > c["cut"] and not nd:
            fail = "the switch is not exhaustive but not reported"
        # the values that the case labels (or the other side of the comparison) have, in the fixed program
        for _ in range(ns):
            j, t, text = next(js), next(toks), next(tx)
            if t["errors"]:
                fail = fail or f"the suggestion breaks the syntax: {t['errors']}\n{text}"
                continue
            u = text.encode("utf-16-le")
            words = [u[a * 2 : b * 2].decode("utf-16-le") for a, b, _ in t["tokens"]]
            exprs, k = [], 0
            body = words[words.index("switch" if c["kind"] != "compare" else "if"):]
            if c["kind"] == "compare":
                i = next(i for i, w in enumerate(body) if w in ("===", "=="))
                exprs.append("".join(body[i + 1 : body.index("{") - 1]))
            else:
                while k < len(body):
                    if body[k] == "case":
                        e = body.index(":", k)
                        exprs.append("".join(body[k + 1 : e]))
                        k = e
                    k += 1
            pre = "var E = {" + ", ".join(f"[{json.dumps(v)}]: {json.dumps(v)}" for v in c["vals"]) + "};"
            evals.append(f"(() => {{ {pre} return [{', '.join(exprs)}]; }})()")
            where.append((len(out), text))
        out.append(Verdict(fail=fail, key=canon(c) if ns else None, labels=(c["kind"], "suggested" if ns else "no suggestion")))
    for (i, text), v in zip(where, [x for r in oracle().map([{"op": "evalStrings", "exprs": evals[a : a + 200]} for a in range(0, len(evals), 200)]) for x in r["res"]]):
        c = batch[i]
        want = sorted(c["vals"]) if c["kind"] != "compare" else [c["vals"][c["cut"]]]
        got = v.get("v")
        if not out[i].fail and (got is None or sorted(map(str, got)) != want):
            out[i].fail = f"the labels mean {got or v}, expected {want}\n{text}"
    return out


def reduce(c):
    for i in range(len(c["s"])):
        yield {"s": c["s"][:i] + c["s"][i + 1 :]}


def reduce_fix(c):
    for i in range(len(c["vals"])):
        if len(c["vals"]) > 1:
            v = c["vals"][:i] + c["vals"][i + 1 :]
            yield {**c, "vals": v, "cut": min(c["cut"], len(v) - 1)}


def make():
    chk = Check("C16", "'quote': all characters below U+3000, a sample of the others and random strings of awkward pieces: the literal is in single quotes, without raw line terminators or controls, is one token to TypeScript and evaluates in Node (sloppy and strict) to the string; whether the string is all whitespace agrees with String.prototype.trim. 'spaces': every code point. "
                "'fixes': unions and enums of such strings in unfinished switches and comparisons with members' values: the suggested program parses and its labels evaluate to exactly the missing members. Non-trivial = something was escaped, or a suggestion was made.",
                setup=setup, assumptions=["Go strings are UTF-8: lone surrogates are not strings here", "Node 22 evaluates literals as ECMAScript says"])
    chk.add(GProp("spaces", lambda r, n: [{"all": True}], eval_spaces, quick=1, thorough=1))
    chk.add(GProp("quote", gen_strings, evaluate, lambda c: list(reduce(c)), quick=30000, thorough=600000))
    chk.add(GProp("fixes", gen_fix, eval_fix, lambda c: list(reduce_fix(c)), quick=1500, thorough=30000))
    return chk
