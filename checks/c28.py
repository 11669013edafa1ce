"""Autofixes and suggestions keep the program syntactically valid and converge."""
from vf.fixing import *
from vf.rulecheck import *
from vf.diffgen import BENIGN, codes

FIXERS = sorted({c["Rule"] for c in corpus() if c["Output"] or any(e.get("Suggestions") for e in c["Errors"] or [])})
LAY = [["space"], ["newline"], ["space", "newline"], ["crlf"], ["prefix"], ["suffix"], ["space", "newline", "prefix", "suffix"]]


# ------------------------------------------------------------------ recorded outputs
def gold():
    cs = [(c, it) for c, it in cases() if c["Output"] or any(e.get("Suggestions") for e in c["Errors"] or [])]
    by = {c["i"]: (c, it) for c, it in cs}
    toks = {}

    def generate(r, n):
        out = [{"case": c["i"], "what": [], "seed": 0} for c, _ in cs]
        ks = list(by)
        while len(out) < n:
            r.shuffle(ks)
            # the verdict of prefer-includes compares the text of parameters (C25's finding)
            out += [{"case": k, "what": r.choice(LAY if not re.search(r"indexOf\s*\(x", by[k][0]["Code"]) else [["prefix"], ["suffix"]]), "seed": r.randrange(1 << 30)} for k in ks]
        return out[: max(n, len(cs))]

    def evaluate(batch):
        need = sorted({b["case"] for b in batch} - set(toks))
        toks.update(zip(need, tokens([by[i][1] for i in need])))
        its = []
        for b in batch:
            c, it = by[b["case"]]
            t = toks[b["case"]]
            b["_x"] = layout(it["code"], t, random.Random(b["seed"]), b["what"], jsx=it["ext"] == ".tsx") if t and b["what"] else Xform(it["code"], [])
            its.append({**it, "code": b["_x"].code})
        st_ = fix_all(lambda xs: run(BIN["x"], xs), its)
        out = []
        texts = []  # everything whose tokens are to be compared
        for b, it, s in zip(batch, its, st_):
            c, it0 = by[b["case"]]
            b["_s"] = []
            if s["first"]:
                src = it["code"].encode("utf-8", "surrogatepass")
                for d in s["first"]["diags"]:
                    for g in d.get("suggestions") or []:
                        e = edits_of(g["fixes"])
                        b["_s"].append((g["message"]["id"], edits_error(src, e), apply(it["code"], e)))
        pr = {}
        todo = {}
        for b, it, s in zip(batch, its, st_):
            if b["what"]:
                c, it0 = by[b["case"]]
                for t in s["texts"] + [t for _, e, t in b["_s"] if not e] + [o + TAIL for o in c["Output"]] + [g["Output"] + TAIL for e in c["Errors"] for g in e.get("Suggestions") or []]:
                    todo[(it["ext"], t)] = 1
        todo = list(todo)
        pr = {k: words(k[1], p)[0] for k, p in zip(todo, parse(todo))}
        for b, it, s in zip(batch, its, st_):
            c, it0 = by[b["case"]]
            fail = None
            if s["crash"]:
                fail = f"crashed: {s['crash']}"
            elif s.get("bad"):
                fail = s["bad"]
            elif any(e for _, e, _ in b["_s"]):
                fail = [e for _, e, _ in b["_s"] if e][0]
            else:
                if b["what"]:
                    view = lambda t: core(pr[(it["ext"], t)], c["Rule"])
                else:
                    view = lambda t: t
                want = [view(o + TAIL) for o in c["Output"] or []]
                got = [view(t) for t in s["texts"]]
                if want != got:
                    fail = f"recorded outputs {c['Output']}, got {s['texts']}"
                ws = sorted((g["MessageId"], view(g["Output"] + TAIL)) for e in c["Errors"] for g in e.get("Suggestions") or [])
                gs = sorted((i, view(t)) for i, _, t in b["_s"])
                if not fail and ws != gs and not (c["Output"] and not ws):
                    fail = f"recorded suggestions {ws}, got {gs}"
                if s["left"]:
                    fail = fail or "fixes do not converge"
            if fail:
                fail = f"{c['Rule']} {c['Test']}" + (f" in another layout ({'+'.join(b['what'])})" if b["what"] else "") + f": {fail}\n{it['code']}"
            out.append(Verdict(fail=fail, key=canon([b["case"], b["what"], b["seed"]]), labels=(c["Rule"], "+".join(b["what"]) or "recorded")))
            del b["_x"], b["_s"]
        return out

    def core(ws, rule):
        """without the unrelated text added before and after"""
        ws = list(ws)
        for u in ("type __Unrelated0 = 0 ;".split(), "; type __Unrelated1 = 1 ;".split(), "function __unrelated2 ( ) { }".split()):
            for a in range(len(ws) - len(u) + 1):
                if ws[a : a + len(u)] == u:
                    del ws[a : a + len(u)]
                    break
        if rule == "require-await":  # its `;` against being parsed as a continuation is deliberately generous
            return [w for w in ws if w != ";"]
        return ws

    def reduce(b):
        return [{**b, "what": []}] + [{**b, "what": [w]} for w in b["what"] if len(b["what"]) > 1]
    return GProp("recorded", generate, evaluate, reduce, quick=3500, thorough=40000)


# ------------------------------------------------------------------ validity and convergence on mutants
def mutants():
    def generate(r, n):
        return [gen(r, r.choice(FIXERS)) for _ in range(n)]

    def evaluate(batch):
        out = [None] * len(batch)
        P = parse([(it["ext"], it["code"]) for it in batch])
        todo = []
        for i, p in enumerate(P):
            if p["errors"]:
                out[i] = Verdict(labels=("unparsable",))
            else:
                todo.append(i)
        st_ = fix_all(lambda xs: tsgolint(BIN["x"], xs), [batch[i] for i in todo])
        # (item, what, before, edits, after)
        steps = []
        for i, s in zip(todo, st_):
            it = batch[i]
            rule = list(it["rules"])[0]
            fail = sig = None
            if s["crash"]:
                fail = f"crashed: {s['crash']}"
                sig = "crash"
            elif s.get("bad"):
                fail = s["bad"]
            elif s["left"]:
                fail = f"fixes still apply after {len(s['texts'])} passes: {s['texts'][-2:]}"
                sig = f"converge:{rule}"
            n = 0
            if s["first"]:
                src = it["code"].encode("utf-8", "surrogatepass")
                cur = it["code"]
                for t, took in zip(s["texts"], s["edits"]):
                    steps.append((i, "fixes", cur, took, t))
                    cur = t
                    n += 1
                for d in s["first"]["diags"]:
                    for g in d.get("suggestions") or []:
                        e = edits_of(g["fixes"])
                        fail = fail or edits_error(src, e)
                        n += 1
                        if not edits_error(src, e):
                            steps.append((i, f"suggestion {g['message']['id']}", it["code"], e, apply(it["code"], e)))
            if fail:
                fail = f"{rule} {it['rules'][rule]} {it['opts']}: {fail}\n{it['code']}"
            out[i] = Verdict(fail=fail, signature=sig or "", key=canon(it) if n else None, labels=(rule, "edits" if n else "no edits"))
        pairs = list(dict.fromkeys([(batch[s[0]]["ext"], x) for s in steps for x in (s[2], s[4])]))
        pr = dict(zip(pairs, parse(pairs)))
        for i, what, before, edits, after in steps:
            it = batch[i]
            if out[i].fail:
                continue
            rule = list(it["rules"])[0]
            pb, pa = pr[it["ext"], before], pr[it["ext"], after]
            if pb["errors"]:
                continue  # reported one step earlier
            f = None
            if pa["errors"]:
                f = f"{what} break the syntax ({pa['errors'][0]})"
                sig = f"syntax:{rule}:{what}"
            else:
                m = u16_to_byte(before)
                kept = [t for a, e, t in words(before, pb)[1] if all(m[e] <= p or q <= m[a] for p, q, _ in edits)]
                lost = collections.Counter(kept) - collections.Counter(t for _, _, t in words(after, pa)[1])
                if lost and it["ext"] != ".tsx":
                    f = f"{what} change comments outside what they replace: {list(lost)[:2]}"
                    sig = f"comments:{rule}:{what}"
            if f:
                out[i].fail = f"{rule} {it['rules'][rule]} {it['opts']}: {f}\n{before}\n=>\n{after}"
                out[i].signature = sig
        return out
    def settled(batch):
        """Failures on programs with errors the compiler reports beyond undeclared names don't count."""
        out = evaluate(batch)
        bad = [i for i, v in enumerate(out) if v.fail and v.signature != "crash"]
        ty = tsgolint(BIN["x"], [{**batch[i], "rules": {}} for i in bad], types=True, args=[], size=1) if bad else []
        for i, t in zip(bad, ty):
            if "crash" in t or any(c not in BENIGN and c not in (2304, 2503, 2552) for c in codes(t["types"])):
                out[i] = Verdict(labels=("ill-typed",))
        return out
    return GProp("mutants", generate, settled, reduce_code, quick=8000, thorough=150000, batch=8000)


def make():
    chk = Check("C28", "two searches. 'recorded': the snippets of the project's suite for which fixed texts or suggestions are recorded: as recorded the text after every pass and after every suggestion is exactly that, and in random layouts it has the same tokens. "
                "'mutants': meaning-changing mutations of all snippets of fixing rules that parse (failures on ill-typed ones don't count): every edit is in bounds and disjoint from the others of its report, the text after each pass and each suggestion parses, comments outside the replaced stretches are still there, and after ten passes no fix applies any more. Non-trivial = the linter offered an edit.",
                setup=setup, assumptions=["TypeScript 5.9's parser decides what is a syntax error"])
    chk.add(gold())
    chk.add(mutants())
    return chk
