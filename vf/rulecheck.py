"""The two properties every rule-agreement check consists of."""
from .pbt import *
from .gold import *
from .diffgen import gen, sources, codes, rtype, BENIGN
from .diffcmp import compare, divergence, match

BIN = {}
LAYOUTS = [["space"], ["comment"], ["newline"], ["comment", "newline"], ["space", "comment", "newline"], ["crlf"], ["prefix"], ["suffix"], ["crlf", "space", "prefix", "suffix"], ["prefix", "comment", "newline", "suffix"]]


def setup():
    BIN["x"] = build("tsgolint")["tsgolint"]
    oracle().map([{"op": "lint", "files": {"/p/a.ts": "let a: any;"}, "options": BASE, "lint": {"/p/a.ts": {"await-thenable": None}}, "diags": "all"} for _ in oracle().workers])


# ------------------------------------------------------------------ recorded verdicts under layout changes
def gold_prop(rules, quick, thorough):
    cs = [(c, it) for c, it in cases() if c["Rule"] in rules]
    toks = {}

    def generate(r, n):
        out = [{"case": c["i"], "what": [], "seed": 0} for c, _ in cs]
        order = list(range(len(cs)))
        while len(out) < n:
            r.shuffle(order)
            # a comment in `${}` is deliberately a reason to keep it
            out += [{"case": cs[k][0]["i"], "what": r.choice(LAYOUTS if cs[k][0]["Rule"] != "no-unnecessary-template-expression" else [l for l in LAYOUTS if "comment" not in l]), "seed": r.randrange(1 << 30)} for k in order]
        return out[: max(n, len(cs))]

    by = {c["i"]: (c, it) for c, it in cs}

    def evaluate(batch):
        need = sorted({b["case"] for b in batch} - set(toks))
        toks.update(zip(need, tokens([by[i][1] for i in need])))
        xs = []
        for b in batch:
            it = by[b["case"]][1]
            t = toks[b["case"]]
            x = layout(it["code"], t, random.Random(b["seed"]), b["what"], jsx=it["ext"] == ".tsx") if t and b["what"] else Xform(it["code"], [])
            xs.append((x, {**it, "code": x.code}))
        base = sorted({b["case"] for b in batch})
        res = run(BIN["x"], [by[i][1] for i in base] + [it for _, it in xs])
        orig = dict(zip(base, res))
        out = []
        for b, (x, it), r in zip(batch, xs, res[len(base) :]):
            c, it0 = by[b["case"]]
            o = orig[b["case"]]
            fail = None
            if "crash" in o or "crash" in r:
                fail = f"{c['Rule']} crashed on {c['Test']}: {o.get('crash') or r.get('crash')}"
            else:
                fail = verdict_error(c, it0, o["diags"])
                if fail:
                    fail = f"{c['Rule']} {c['Test']}: {fail}\n{c['Code']}"
                elif b["what"]:
                    want = [(d["message"]["id"], d["range"]["pos"], d["range"]["end"]) for d in o["diags"]]
                    got = [(d["message"]["id"], d["range"]["pos"], d["range"]["end"]) for d in r["diags"]]
                    a, g = match(want, got, lambda w, y: w[0] == y[0] and x.same(w[1:], y[1:]))
                    if a or g:
                        fail = f"{c['Rule']} {c['Test']} in another layout ({'+'.join(b['what'])}): expected {[(w[0], *x.range(*w[1:])) for w in a]}, reported {g}\n{x.code}"
            # its verdict compares the text of parameters
            sig = "prefer-includes:parameter-text" if c["Rule"] == "prefer-includes" and b["what"] and re.search(r"indexOf\s*\(x", c["Code"]) else ""
            out.append(Verdict(fail=fail, signature=sig, key=canon([b["case"], b["what"], b["seed"]]) if c["Errors"] else None, labels=(c["Rule"], "+".join(b["what"]) or "recorded")))
        return out

    def reduce(b):
        return [{**b, "what": []}] + [{**b, "what": [w]} for w in b["what"]]
    return GProp("recorded", generate, evaluate, reduce, quick=quick, thorough=thorough)


# ------------------------------------------------------------------ the listed differences, input by input
LISTED_SEEDS = {1}
_listed = None


def listed():
    global _listed
    if _listed is None:
        _listed = {}
        if os.path.exists(VERIF + "/known_instances.jsonl"):
            for l in open(VERIF + "/known_instances.jsonl"):
                d = json.loads(l)
                _listed[d["instance"]] = d["finding"]
    return _listed


def instance(it, ours, theirs):
    return hashlib.sha256(canon([list(it["rules"].items()), it["opts"], it["code"], it["ext"], sorted(map(list, ours)), sorted(map(list, theirs))]).encode()).hexdigest()[:16]


# ------------------------------------------------------------------ agreement with typescript-eslint
def judge(it, a, b):
    rule = list(it["rules"])[0]
    if "crash" in a:
        return Verdict(fail=f"{rule} crashed: {a['crash']}", signature="crash")
    if "unknown" in b:
        return Verdict(labels=("oracle-silent",))
    if not {c for c, _ in b["types"]} <= BENIGN:
        return Verdict(labels=("ill-typed-upstream",))
    ours, theirs = compare(rule, a["diags"], b["messages"], it)
    fail = sig = detail = None
    if ours or theirs:
        h = instance(it, ours, theirs)
        sig = listed().get(h)
        # at a seed whose differences are all listed one by one, belonging to a class excuses nothing
        if not sig and not (SEED in LISTED_SEEDS and TIER != "thorough"):
            sig = divergence(rule, ours, theirs, it)
        src = it["code"].encode("utf-8", "surrogatepass")
        show = lambda xs: [(x[3], src[max(x[1], 0) : max(x[2], 0)].decode("utf-8", "replace")[:80]) for x in xs]
        fail = f"{rule} {it['rules'][rule]} {it['opts']}: reported by tsgolint only: {show(ours)}; by typescript-eslint only: {show(theirs)}\n{it['code']}"
        detail = {"instance": h, "class": divergence(rule, ours, theirs, it), "rule": rule, "ours": ours, "theirs": theirs}
    return Verdict(fail=fail, signature=sig or "", detail=detail, key=canon(it) if a["diags"] or b["messages"] else None, labels=(rule, "violations" if b["messages"] else "no violations"))


def diff_eval(batch):
    out = [None] * len(batch)
    pure = [{**it, "rules": {}} for it in batch]
    ty = tsgolint(BIN["x"], pure, types=True, args=[])
    todo = []
    for i, t in enumerate(ty):
        if "crash" in t:  # the compiler itself, or C31's matter
            out[i] = Verdict(labels=("compiler-crash",))
        elif not set(codes(t["types"])) <= BENIGN:
            out[i] = Verdict(labels=("ill-typed",))
        else:
            todo.append(i)
    its = [batch[i] for i in todo]
    A, B = tsgolint(BIN["x"], its), eslint(its)
    bad = []
    for i, it, a, b in zip(todo, its, A, B):
        out[i] = judge(it, a, b)
        if out[i].fail and not out[i].signature:
            bad.append(i)
    log(f"{len(todo)} well-typed, {len(bad)} differ")
    if bad and len(bad) <= 400:  # once more, each in a program of its own
        its = [batch[i] for i in bad]
        for i, it, a, b in zip(bad, its, tsgolint(BIN["x"], its, size=1), eslint(its, size=1)):
            out[i] = judge(it, a, b)
    return out


def reduce_code(it):
    code = it["code"]
    out = []
    ls = code.split("\n")
    for k in (8, 4, 2, 1):
        for a in range(0, len(ls), k):
            out.append("\n".join(ls[:a] + ls[a + k :]))
    t = TOKS.findall(code)
    if len(t) < 400:
        for k in (6, 3, 2, 1):
            for a in range(0, len(t), max(1, k // 2)):
                out.append("".join(t[:a] + t[a + k :]))
    return ([{**it, "opts": {}}] if it["opts"] else []) + [{**it, "rules": {r: None}} for r, o in it["rules"].items() if o is not None] + [{**it, "code": c} for c in dict.fromkeys(out) if c != code]


TOKS = re.compile(r"\s+|[A-Za-z_$][\w$]*|'[^'\n]*'|\"[^\"\n]*\"|\d+|=>|\?\.|\?\?|\|\||&&|[^\w\s]", re.S)


# This implementation recognises other chains than upstream's; the recorded ones are compared.
SELF_WILLED = {"prefer-optional-chain"}


def diff_prop(rules, quick, thorough):
    def generate(r, n):
        rs = [x for x in rules if x not in SELF_WILLED]
        its = [gen(r, r.choice(rs)) for _ in range(n)]
        # names a mutation brought in get a declaration
        seeds = [r.randrange(1 << 30) for _ in its]
        for it, t, sd in zip(its, tsgolint(BIN["x"], [{**it, "rules": {}} for it in its], types=True, args=[]), seeds):
            if "crash" not in t and t["types"] and all(d["message"]["id"] in ("TS2304", "TS2552") for d in t["types"]):
                q = random.Random(sd)
                it["code"] += "".join(f"declare let {u}: {rtype(q)};\n" for u in sorted({m.group(1) for d in t["types"] for m in [re.match(r"Cannot find name '([A-Za-z_$][\w$]*)'", d["message"]["description"])] if m}))
        return its
    return GProp("agreement", generate, diff_eval, reduce_code, quick=quick, thorough=thorough, batch=12000)


def make_group(pid, rules, quick_gold=4000, quick_diff=30000, thorough_gold=60000, thorough_diff=200000):
    rules = [r for r in rules if r in sources()]
    chk = Check(pid, "two searches. 'recorded': every recorded snippet of the project's suite for these rules, as recorded (its verdict and recorded positions) and in random layouts (spaces, tabs, non-ASCII comments, new lines, CRLF, unrelated text before and after), where every report has to move with its tokens exactly. "
                "'agreement': programs made by meaning-changing mutations of those snippets (types, operators, modifiers, names, members, spliced statements), under varied compiler and rule options; those without type errors for both compilers are linted by tsgolint and by typescript-eslint over the same program, and the reports have to agree in message kind and place. Non-trivial = somebody reports something.",
                setup=setup, assumptions=["typescript-eslint 8 with TypeScript 5.9 is the reference; differences this project's suite documents are not compared (vf/diffcmp.py)"])
    chk.add(gold_prop(set(rules), quick_gold, thorough_gold))
    chk.add(diff_prop(rules, quick_diff, thorough_diff))
    return chk
