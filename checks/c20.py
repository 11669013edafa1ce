"""Omitting an option means its documented default."""
from vf.pbt import *
from vf.tse import *
from vf.semmut import mutate as semmut, pool

BIN, SCHEMA = {}, {}
GONE = object()


def schemas():
    """rule -> (kind, {option: (sub-schema, default)}, {option: nested {name: default}}) from the published schemas"""
    if SCHEMA:
        return SCHEMA
    root = REPO + "/internal/rules"
    have = set(rules())
    for d in sorted(os.listdir(root)):
        f, name = f"{root}/{d}/schema.json", d.replace("_", "-")
        if not os.path.exists(f) or name not in have:
            continue
        defs = json.load(open(f))["definitions"]
        main = defs[d + "_options"]
        if "properties" not in main:
            SCHEMA[name] = {"whole": main["default"], "enum": main["enum"]} if "default" in main else None
            continue
        top = {k: v["default"] for k, v in main["properties"].items() if "default" in v}
        nested = {}
        for k, v in main["properties"].items():
            for alt in [v] + v.get("oneOf", []):
                ref = alt.get("$ref", "")
                if ref.startswith("#/definitions/"):
                    nested[k] = {n: p["default"] for n, p in defs[ref.rsplit("/", 1)[1]]["properties"].items() if "default" in p}
        SCHEMA[name] = {"top": top, "nested": nested, "props": main["properties"]}
    return SCHEMA


def variants(r, rule, e, n):
    """[(what it shows, options)]: the same request as e, spelled otherwise"""
    s = schemas()[rule]
    out = []
    if "whole" in s:
        return [("default", s["whole"])] if e is None else []
    if e is None:
        out += [("empty", {}), ("all defaults", dict(s["top"]))]
        for k, dflt in s["nested"].items():
            if s["top"].get(k) is True and all(v is True for v in dflt.values()):
                out += [("nested empty", {k: {}}), ("nested defaults", {k: dict(dflt)}), ("nested subset", {k: {x: dflt[x] for x in dflt if r.random() < 0.5}})]
    if e is not None and not isinstance(e, dict):
        return out
    e = e or {}
    miss = [k for k in s["top"] if k not in e]
    for _ in range(n):
        add = {k: s["top"][k] for k in miss if r.random() < 0.5}
        o = {**e, **add}
        for k, dflt in s["nested"].items():
            if isinstance(o.get(k), dict):
                o[k] = {**o[k], **{x: v for x, v in dflt.items() if x not in o[k] and r.random() < 0.5}}
        ks = list(o)
        r.shuffle(ks)
        out.append(("subset of defaults", {k: o[k] for k in ks}))
    # explicit defaults taken away again
    less = {k: v for k, v in e.items() if not (k in s["top"] and canon(v) == canon(s["top"][k]))}
    if len(less) != len(e):
        out.append(("defaults left out", less))
    if r.random() < 0.3:
        out.append(("unknown option", {**e, "noSuchOption": r.choice([True, None, "x", [1]])}))
    return [x for i, x in enumerate(out) if x[1] not in [y[1] for y in out[:i]]]


def explicit(r, rule):
    """Options to begin with: none, one of the suite's, or some options at other values."""
    s = schemas()[rule]
    k = r.random()
    if k < 0.35:
        return None
    if k < 0.6 or "whole" in s:
        return json.loads(r.choice(pool(rule)[3]))
    e = {}
    for n, p in s["props"].items():
        if r.random() < 0.4:
            vals = ([True, False] if p.get("type") == "boolean" or any(a.get("type") == "boolean" for a in p.get("oneOf", [])) else []) + sum((a.get("enum", []) for a in [p] + p.get("oneOf", [])), [])
            if n in s["nested"] and r.random() < 0.6:
                e[n] = {x: r.random() < 0.5 for x in s["nested"][n] if r.random() < 0.5}
            elif vals:
                e[n] = r.choice(vals)
    return e


def generate(r, n):
    rs = [x for x, s in schemas().items() if s]
    by = {x: [c for c in corpus() if c["Rule"] == x and not c["Files"] and c["fn"] in ("file.ts", "react.tsx")] for x in rs}
    out = []
    while len(out) < n:
        for rule in rs:
            c = r.choice(by[rule])
            code = c["Code"] if r.random() < 0.6 else semmut(r, rule, c["Code"])
            e = c["Options"] if r.random() < 0.4 else explicit(r, rule)
            vs = variants(r, rule, e, 2)
            if vs:
                out.append({"rule": rule, "code": code, "ext": ext(c["fn"]), "options": e, "same": vs})
    return out[:n]


def flipped(rule, e):
    """The same with one option at another value, to see whether the program is sensitive to it at all."""
    s = schemas()[rule]
    if "whole" in s:
        return [v for v in s["enum"] if v != (e or s["whole"])][:2]
    return [{**(e or {}), k: not v} for k, v in s["top"].items() if isinstance(v, bool) and (not isinstance(e, dict) or k not in e)] if e is None or isinstance(e, dict) else []


def evaluate(batch):
    items, ix = [], []
    for b in batch:
        os_ = [b["options"]] + [o for _, o in b["same"]] + flipped(b["rule"], b["options"])
        ix.append((len(items), len(b["same"])))
        items += [item(b["code"] + "\nexport {};\n", {b["rule"]: o}, {}, b["ext"]) for o in os_]
    ix.append((len(items), 0))
    res = tsgolint(BIN["x"], items)
    out = []
    for i, b in enumerate(batch):
        a, k = ix[i]
        g = [("crash: " + x["crash"] if "crash" in x else [{k: v for k, v in d.items() if k != "file_path"} for d in x["diags"]]) for x in res[a : ix[i + 1][0]]]
        fail = None
        for (what, o), y in zip(b["same"], g[1 : k + 1]):
            if y != g[0]:
                fail = f"{b['rule']} with {json.dumps(b['options'])} and with {json.dumps(o)} ({what}) should report the same:\n{str(g[0])[:1500]}\n{str(y)[:1500]}\n{b['code']}"
        sens = any(y != g[0] for y in g[k + 1 :])
        out.append(Verdict(fail=fail, key=canon([b["rule"], b["code"], b["options"]]) if sens else None, labels=(b["rule"], "sensitive" if sens else "insensitive")))
    return out


def reduce(b):
    out = [{**b, "same": [v]} for v in b["same"]] if len(b["same"]) > 1 else []
    ls = b["code"].split("\n")
    out += [{**b, "code": "\n".join(ls[:i] + ls[i + k :])} for k in (8, 3, 1) for i in range(0, len(ls), k)]
    if isinstance(b["options"], dict):
        out += [{**b, "options": {k: v for k, v in b["options"].items() if k != d}, "same": [(w, {k: v for k, v in o.items() if k != d}) for w, o in b["same"] if isinstance(o, dict)]} for d in b["options"]]
    for i, (w, o) in enumerate(b["same"]):
        if isinstance(o, dict):
            out += [{**b, "same": b["same"][:i] + [(w, {k: v for k, v in o.items() if k != d})] + b["same"][i + 1 :]} for d in o if not (isinstance(b["options"], dict) and d in b["options"])]
    return out


# ------------------------------------------------------------------ values of the wrong type
WRONG = ["yes", 1, 0, None, [], {}, [True], {"a": 1}, "", -1.5]


def gen_wrong(r, n):
    out = []
    for b in generate(r, n):
        s = schemas()[b["rule"]]
        if "whole" in s or not (b["options"] is None or isinstance(b["options"], dict)):
            continue
        k = r.choice(sorted(s["props"]))
        out.append({"rule": b["rule"], "code": b["code"], "ext": b["ext"], "options": b["options"] or {}, "option": k, "value": r.choice(WRONG)})
    return out


def eval_wrong(batch):
    items, ix = [], []
    for b in batch:
        s = schemas()[b["rule"]]
        p = s["props"][b["option"]]
        rest = {k: v for k, v in b["options"].items() if k != b["option"]}
        alts = [p] + p.get("oneOf", [])
        vals = sum(([True, False] if a.get("type") == "boolean" else [[]] if a.get("type") == "array" else [""] if a.get("type") == "string" and "enum" not in a else a.get("enum", []) for a in alts), [])
        ok = [rest] + [{**rest, b["option"]: v} for v in vals]
        ix.append((len(items), len(ok)))
        items += [item(b["code"] + "\nexport {};\n", {b["rule"]: o}, {}, b["ext"]) for o in [{**rest, b["option"]: b["value"]}] + ok]
    bad = {a for a, _ in ix}  # those mostly end the process
    res = [None] * len(items)
    for idx, size in (([i for i in range(len(items)) if i in bad], 1), ([i for i in range(len(items)) if i not in bad], 50)):
        for i, x in zip(idx, tsgolint(BIN["x"], [items[i] for i in idx], size=size)):
            res[i] = x
    out = []
    for b, (a, k) in zip(batch, ix):
        g = [("crash" if "crash" in x else [{k: v for k, v in d.items() if k != "file_path"} for d in x["diags"]]) for x in res[a : a + k + 1]]
        fail = None
        if g[0] != "crash" and g[0] not in [y for y in g[1:] if y != "crash"]:
            fail = f"{b['rule']} with {b['options']} and {b['option']}={b['value']!r} reports what no valid value of that option reports: {str(g[0])[:1500]}\n{b['code']}"
        out.append(Verdict(fail=fail, key=canon(b) if any(y != g[1] for y in g[2:] if y != "crash") else None, labels=("refused" if g[0] == "crash" else "read",)))
    return out


def make():
    chk = Check("C20", "'defaults': a program of a rule's suite (as it is or mutated) under no options, options of the suite or random ones, linted again with the same options spelled otherwise: the documented defaults (read from the rule's schema.json) added in random subsets, nested ones included, or taken away, members in another order, an unknown member. Reports and fixes have to be the same. Non-trivial = turning some omitted option to its other value changes the reports. "
                "'wrong': one option gets a value outside the schema; the request is refused, or reports what some valid value (or none) of that option reports.", setup=lambda: BIN.update(x=build("tsgolint")["tsgolint"]))
    chk.add(GProp("defaults", generate, evaluate, reduce, quick=8000, thorough=80000, batch=8000))
    chk.add(GProp("wrong", gen_wrong, eval_wrong, quick=600, thorough=6000))
    return chk
