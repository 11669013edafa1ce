"""Overlay file systems show virtual files over the real ones."""
from vf.pbt import *
from vf.probe import probe

BIN = {}
SEG = ["a", "b", "ab", "a.ts", "b.ts", ".x", "\u00e9", "A"]


def setup():
    BIN.update(build("probe_utils", "probe_cmd"))


def generate(r, n):
    out = []
    for _ in range(n):
        path = lambda: "/" + "/".join(r.choice(SEG) for _ in range(r.choice([1, 1, 2, 2, 3, 4])))
        base = {path(): r.choice(["", "base", "b\n\u00e9"]) for _ in range(r.randint(0, 4))}
        virtual = {(r.choice(list(base)) if base and r.random() < 0.3 else path()): r.choice(["", "virtual", "v\n"]) for _ in range(r.randint(0, 5))}
        dirs = sorted({"/"} | {p[: p.rindex("/", 0, i + 1)] or "/" for p in base for i in range(1, len(p)) if p[i] == "/"} | {p[:i] for p in base for i in range(1, len(p)) if p[i] == "/"} | {path() for _ in range(r.randint(0, 2))})
        some = lambda: r.choice([*base, *virtual, *dirs, path(), *[p[:i] for p in virtual for i in range(1, len(p)) if p[i] == "/"]])
        calls = []
        for _ in range(r.randint(1, 20)):
            w = r.choice(["exists", "read", "dir", "entries", "stat", "real", "exists", "read", "dir", "entries", "write", "append", "remove", "chtimes", "walk", "case"])
            p = some()
            if w in ("dir", "entries") and r.random() < 0.2 and p != "/":
                p += "/"
            calls.append([w, p, "data"])
        out.append({"base": base, "virtual": virtual, "dirs": dirs, "calls": calls, "which": r.choice(["utils", "utils", "cmd"])})
    return out


def norm(p):
    return p.rstrip("/") or "/"


def check_one(c, call, a):
    w, p, data = call
    v, log = a["v"], a["log"]
    base, virt, dirs = c["base"], c["virtual"], set(c["dirs"])
    full = c["which"] == "utils"
    inside = p in virt
    boom = isinstance(v, dict) and "panic" in v
    below = [x for x in virt if x.startswith(norm(p).rstrip("/") + "/")]
    if w in ("write", "append", "remove", "chtimes"):
        want = {"write": [f"write {p} {data}"], "append": [f"append {p} {data}"], "remove": [f"remove {p}"], "chtimes": [f"chtimes {p}12"]}[w]
        if inside and full:
            return None if log == [] else f"changed the file below a virtual one: {log}"
        if boom or [x.replace(" 1 2", "12") for x in log] != want or v != w[0]:
            return None if w == "chtimes" and not boom and len(log) == 1 and log[0].startswith(f"chtimes {p}") and v == "c" else f"passed on as {log}, answered {v}"
        return None
    if boom:
        return f"crashed: {v}"
    if w == "walk":
        return None if v == f"walked {p}" and log == [f"walk {p}"] else f"{v} {log}"
    if log:
        return f"changed the base: {log}"
    if w == "case":
        return None if v is True else f"{v}"
    if w == "exists":
        want = inside or p in base
    elif w == "read":
        want = [virt[p], True] if inside else [base[p], True] if p in base else ["", False]
    elif w == "stat":
        bs = [len(base[p].encode()), False] if p in base else [0, True] if p in dirs else None
        want = [len(virt[p].encode()), False] if inside and full else bs
    elif w == "real":
        want = p if inside and full else "/real" + p
    elif w == "dir":
        want = p in dirs or (full and bool(below))
        if norm(p) in dirs and p not in dirs:
            return None  # the base of the probe does not know it with a slash
    elif w == "entries":
        pre = norm(p).rstrip("/") + "/"
        fs = {x[len(pre):] for x in base if x.startswith(pre) and "/" not in x[len(pre):]}
        ds = {x[len(pre):] for x in dirs if x.startswith(pre) and x != pre and "/" not in x[len(pre):]} - {""}
        if full:
            fs |= {x[len(pre):] for x in below if "/" not in x[len(pre):]}
            ds |= {x[len(pre):].split("/")[0] for x in below if "/" in x[len(pre):]}
        want, v = [sorted(fs), sorted(ds)], [sorted(set(v[0])), sorted(set(v[1]) - {""})]
    return None if v == want else f"answered {v}, expected {want}"


def evaluate(batch):
    N = 500
    out = [None] * len(batch)
    for exe, which in (("probe_utils", "utils"), ("probe_cmd", "cmd")):
        idx = [i for i, c in enumerate(batch) if c["which"] == which]
        parts = [idx[a : a + N] for a in range(0, len(idx), N)]
        ans = probe(BIN[exe], [[{"op": "overlay", **{k: batch[i][k] for k in ("base", "virtual", "dirs", "calls")}} for i in p] for p in parts])
        for p, x in zip(parts, ans):
            for k, i in enumerate(p):
                c = batch[i]
                a = x[k] if isinstance(x, list) else x
                fail = None
                if not isinstance(a, list):
                    fail = f"crashed: {a}"
                else:
                    for call, v in zip(c["calls"], a):
                        e = check_one(c, call, v)
                        if e:
                            fail = f"{which}: {call[:2]}: {e}\nvirtual {sorted(c['virtual'])}, base {sorted(c['base'])}, directories {c['dirs']}"
                            break
                out[i] = Verdict(fail=fail, key=canon(c) if c["virtual"] else None, labels=(which,))
    return out


def reduce(c):
    for f in ("calls", "dirs"):
        for i in range(len(c[f])):
            yield {**c, f: c[f][:i] + c[f][i + 1 :]}
    for f in ("base", "virtual"):
        for k in c[f]:
            yield {**c, f: {a: b for a, b in c[f].items() if a != k}}


def make():
    chk = Check("C18", "random base trees and virtual files over a small alphabet of path segments (virtual files over real ones, in existing and in new directories), with 1-20 random calls of all methods, through both overlay file systems over an in-memory base that records changes: every answer is compared with a model on dictionaries. Non-trivial = some virtual file.",
                setup=setup, assumptions=["paths are absolute and normalized, as the compiler passes them", "listings are compared as sets"])
    chk.add(GProp("calls", generate, evaluate, lambda c: list(reduce(c)), quick=12000, thorough=300000))
    return chk
