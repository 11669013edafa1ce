"""Applying fixes edits exactly the reported ranges and never two conflicting fixes."""
import base64
from vf.pbt import *
from vf.probe import probe

BIN = {}
MARK = re.compile(rb"<(\d+)\.(\d+)>[^<]*")


def setup():
    BIN.update(build("probe_linter"))


def diag(r, n, d, style):
    """The fixes of one report: disjoint, in random order of announcement."""
    if style == "near":  # a lot happens around a few places
        places = sorted(r.choices([0, n // 3, n // 3, n // 2, n, min(n, n // 2 + 1)], k=2 * r.randint(1, 3)))
    elif style == "inserts":
        ps = [r.randint(0, n) for _ in range(r.randint(1, 4))]
        places = [x for p in sorted(r.choice(ps) for _ in range(r.randint(1, 40))) for x in (p, p)]
    else:
        a = r.randint(0, n)
        b = min(n, a + r.randint(0, max(1, n // 4)))
        places = sorted(r.randint(a, b) for _ in range(2 * r.choice([1, 1, 1, 2, 3, 8])))
    fs = [[places[2 * i], places[2 * i + 1], r.choice(["", f"<{d}.{i}>", f"<{d}.{i}>", f"<{d}.{i}>\u00e9\n"])] for i in range(len(places) // 2)]
    if style == "inserts" or r.random() < 0.5:  # insertions at one place keep the order they are given in
        at = {}
        for f in fs:
            at.setdefault((f[0], f[1]), []).append(f)
        order = [k for k in at for _ in at[k]]
        r.shuffle(order)
        nxt = {k: iter(v) for k, v in at.items()}
        return [next(nxt[k]) for k in order]
    return fs


def generate(r, n):
    out = []
    for _ in range(n):
        ln = r.choice([0, 1, 5, 30, 200])
        code = "".join(r.choice(["a", "b", "\n", "(", "\u00e9", "\U0001F600", " "]) for _ in range(ln)).encode()
        ds = []
        for d in range(r.choice([0, 1, 2, 3, 5, 10, 20, 60])):
            k = r.random()
            ds.append([] if k < 0.1 else diag(r, len(code), d, "near" if k < 0.35 else "inserts" if k < 0.4 else "any"))
        out.append({"code": list(code), "diags": ds, "as": r.choice(["", "diagnostics", "suggestions"]), "perm": r.randrange(1 << 30)})
    return out


def span(d):
    return min(f[0] for f in d), max(f[1] for f in d)


def clash(a, b):
    (p, q), (s, t) = span(a), span(b)
    return p < t and s < q


def splice(code, ds):
    """Pieces of the expected text: bytes, or a list of insertions at one place (their order between reports is open)."""
    fs = sorted(((f[0], f[1], d, i, f[2].encode()) for d, x in ds for i, f in enumerate(x)), key=lambda f: f[:2])
    out, last = [], 0
    for p, q, d, i, t in fs:
        if p > last:
            out.append(code[last:p])
        if p == q:
            if not (out and isinstance(out[-1], list) and p == last and out[-1][0][0] == p):
                out.append([])
            out[-1].append((p, d, i, t))
        else:
            out.append(t)
        last = q
    return out + [code[last:]]


def same(out, pieces):
    k = 0
    for p in pieces:
        if isinstance(p, bytes):
            if out[k : k + len(p)] != p:
                return False
            k += len(p)
            continue
        n = sum(len(t) for *_, t in p)
        seg = out[k : k + n]
        k += n
        by = {}
        for _, d, i, t in p:
            if t:
                by.setdefault(d, []).append(t)
        at = {d: 0 for d in by}
        while seg:
            for d, ts in by.items():
                if at[d] < len(ts) and seg.startswith(ts[at[d]]):
                    seg = seg[len(ts[at[d]]):]
                    at[d] += 1
                    break
            else:
                return False
        if any(at[d] != len(ts) for d, ts in by.items()):
            return False
    return k == len(out)


def judge(c, a):
    if "panic" in a or "error" in a or "died" in a:
        return f"crashed: {a}"
    code, ds = bytes(c["code"]), c["diags"]
    out = base64.b64decode(a["out"])
    left = a["unapplied"]
    if len(set(left)) != len(left) or not all(0 <= i < len(ds) for i in left):
        return f"returned {left} as not applied: not a selection of the {len(ds)} reports"
    took = [i for i in range(len(ds)) if i not in set(left)]
    for i in took:
        if not ds[i]:
            return f"report {i} has no fixes but isn't among those not applied {left}"
    s = sorted(took, key=lambda i: span(ds[i]))
    for x, y in zip(s, s[1:]):
        if clash(ds[x], ds[y]):
            return f"reports {x} and {y} overlap and were both applied"
    if a["fixed"] != bool(took):
        return f"fixed flag is {a['fixed']} but {took} were applied"
    if not same(out, splice(code, [(i, ds[i]) for i in took])):
        return f"result {out!r} isn't the text with exactly the fixes of {took} applied"
    for i in left:
        if ds[i] and not any(clash(ds[i], ds[j]) or span(ds[i])[0] < span(ds[j])[1] and span(ds[j])[0] <= span(ds[i])[0] for j in took):
            return f"report {i} conflicts with none of the applied {took} but wasn't applied"
    return None


def evaluate(batch):
    reqs, plan = [], []
    for c in batch:
        q = {"op": "fix", "code": base64.b64encode(bytes(c["code"])).decode(), "as": c["as"], "diags": [[{"pos": f[0], "end": f[1], "text": f[2]} for f in d] for d in c["diags"]]}
        p = list(range(len(c["diags"])))
        random.Random(c["perm"]).shuffle(p)
        plan.append(p)
        reqs += [q, {**q, "diags": [q["diags"][i] for i in p]}]
    N = 2000
    ans = []
    for b, x in zip([reqs[a : a + N] for a in range(0, len(reqs), N)], probe(BIN["probe_linter"], [reqs[a : a + N] for a in range(0, len(reqs), N)])):
        ans += x if isinstance(x, list) else [y if isinstance(y, dict) else y[0] for y in probe(BIN["probe_linter"], [[q] for q in b])]
    out = []
    for c, p, a, b in zip(batch, plan, ans[::2], ans[1::2]):
        ds = c["diags"]
        fail = judge(c, a) or judge({**c, "diags": [ds[i] for i in p]}, b)
        conflict = any(ds[i] and ds[j] and (clash(ds[i], ds[j]) or span(ds[i])[0] <= span(ds[j])[0] <= span(ds[i])[1] or span(ds[j])[0] <= span(ds[i])[0] <= span(ds[j])[1]) for i in range(len(ds)) for j in range(i))
        if not fail and not conflict and a["out"] != b["out"]:
            fail = f"the result depends on the order of reports without conflicts: {base64.b64decode(a['out'])!r} / {base64.b64decode(b['out'])!r}"
        if not fail and not conflict and a["unapplied"] and any(ds[i] for i in a["unapplied"]):
            fail = f"{a['unapplied']} were not applied although nothing conflicts"
        out.append(Verdict(fail=fail, key=canon(c) if sum(map(bool, ds)) > 1 else None, labels=(c["as"] or "messages", "conflicts" if conflict else "no conflicts")))
    return out


def reduce(c):
    ds = c["diags"]
    for i in range(len(ds)):
        yield {**c, "diags": ds[:i] + ds[i + 1 :]}
    for i, d in enumerate(ds):
        for k in range(len(d)):
            yield {**c, "diags": ds[:i] + [d[:k] + d[k + 1 :]] + ds[i + 1 :]}
    if len(c["code"]) > 4:
        n = len(c["code"]) // 2
        yield {**c, "code": c["code"][:n], "diags": [[[min(a, n), min(b, n), t] for a, b, t in d] for d in ds]}


def make():
    chk = Check("C15", "sets of 0-60 reports with 0-40 disjoint fixes each (insertions at one place, touching and nested spans, multi-byte texts) over texts of 0-200 characters, as diagnostics, as suggestions and as another message type, in two random orders. The result is taken apart: the reports not returned as unapplied must not overlap and the text must be theirs spliced in; every report returned must be without fixes or in conflict with an applied one; the flag must agree; "
                "without conflicts both orders give the same text. Non-trivial = at least two reports with fixes.",
                setup=setup, assumptions=["a report's own fixes are disjoint", "which of two insertions at one place, from two reports, comes first is left open"])
    chk.add(GProp("apply", generate, evaluate, lambda c: list(reduce(c)), quick=20000, thorough=600000, batch=40000))
    return chk
