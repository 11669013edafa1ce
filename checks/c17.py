"""Breadth-first search visits, stops and falls back as specified."""
from vf.pbt import *
from vf.probe import probe

BIN = {}


def setup():
    BIN.update(build("probe_utils"))


def generate(r, n):
    out = []
    for _ in range(n):
        k = r.choice([1, 2, 3, 5, 8, 20, 60])
        deg = r.choice([0, 1, 2, 3, 6])
        near = r.random() < 0.3  # long chains: deep levels
        g = [[(min(k - 1, i + r.randint(0, 2)) if near else r.randrange(k)) for _ in range(r.randint(0, deg))] for i in range(k)]
        sub = lambda p: sorted(r.sample(range(k), r.randint(0, max(0, int(k * p)))))
        c = {"graph": g, "start": r.randrange(k) if not near else 0, "result": sub(r.choice([0, 0.2, 0.6, 1])), "stop": sub(r.choice([0, 0.2, 0.6])), "visited": None, "deleted": None}
        if r.random() < 0.4:
            c["visited"] = sub(0.4)
        if r.random() < 0.4:
            c["deleted"] = [sub(0.3) for _ in range(r.randint(0, 5))]
        out.append(c)
    return out


def model(c):
    """Level by level; the level's nodes are announced with the first parent that names them."""
    g, seen = c["graph"], set(c["visited"] or [])
    level, visits, levels, fallback = {c["start"]: [c["start"]]}, [], [], None
    k = 0
    while level:
        levels.append(list(level))
        if c["deleted"] and k < len(c["deleted"]):
            level = {x: p for x, p in level.items() if x not in c["deleted"][k]}
        k += 1
        nxt = {}
        for x, path in level.items():
            if x in seen:
                continue
            seen.add(x)
            visits.append(x)
            if x in c["result"]:
                if x in c["stop"]:
                    return visits, levels, path, True, seen
                fallback = fallback or path
            for y in g[x]:
                nxt.setdefault(y, [y] + path)
        level = nxt
    return visits, levels, fallback, False, seen


def distance(g, a, b):
    d, q = {a: 0}, [a]
    for x in q:
        for y in g[x]:
            if y not in d:
                d[y] = d[x] + 1
                q.append(y)
    return d.get(b)


def evaluate(batch):
    N = 2000
    ans = [y for a, x in zip(range(0, len(batch), N), probe(BIN["probe_utils"], [[{"op": "bfs", **c} for c in batch[a : a + N]] for a in range(0, len(batch), N)])) for y in (x if isinstance(x, list) else [x] * len(batch[a : a + N]))]
    out = []
    for c, a in zip(batch, ans):
        fail = None
        if "visits" not in a:
            fail = f"crashed: {a}"
        else:
            visits, levels, path, stopped, seen = model(c)
            got = a["path"] or None
            if a["visits"] != visits:
                fail = f"visited {a['visits']}, expected {visits}"
            elif a["stopped"] != stopped:
                fail = f"stopped is {a['stopped']}"
            elif (got is None) != (path is None):
                fail = f"result {got}, expected {path}"
            elif a["hook"]:
                fail = a["hook"]
            elif c["deleted"] is not None and a["levels"] != levels:
                fail = f"the hook saw the levels {a['levels']}, expected {levels}"
            elif c["visited"] is not None and set(a["visited"]) != seen:
                fail = f"marked as visited {a['visited']}, expected {sorted(seen)}"
            elif got:
                if got[0] != path[0] or got[-1] != c["start"]:
                    fail = f"the path {got} does not lead from {path[0]} to the start"
                elif any(x not in c["graph"][y] for x, y in zip(got, got[1:])):
                    fail = f"the path {got} does not follow edges"
                elif len(got) != len(path) or (not c["visited"] and not c["deleted"] and len(got) != distance(c["graph"], c["start"], got[0]) + 1):
                    fail = f"the path {got} is not a shortest one"
        out.append(Verdict(fail=f"{fail}: {canon(c)}" if fail else None, key=canon(c) if len(a.get("visits") or []) > 1 else None, labels=("stopped" if a.get("stopped") else "fallback" if a.get("path") else "nothing",)))
    return out


def reduce(c):
    for f in ("visited", "deleted"):
        if c[f] is not None:
            yield {**c, f: None}
    for f in ("result", "stop", "visited", "deleted"):
        for i in range(len(c[f] or [])):
            yield {**c, f: c[f][:i] + c[f][i + 1 :]}
    for i, e in enumerate(c["graph"]):
        for j in range(len(e)):
            yield {**c, "graph": c["graph"][:i] + [e[:j] + e[j + 1 :]] + c["graph"][i + 1 :]}


def make():
    chk = Check("C17", "random directed graphs of 1-60 nodes (cycles, self-loops, repeated edges, long chains), result and stop sets, pre-marked nodes and nodes removed by the level hook: visits, levels, marks, result and flag are compared with a model that works on dictionaries of levels; the path must follow edges and be a shortest one (checked against distances). Non-trivial = more than one visit.", setup=setup)
    chk.add(GProp("search", generate, evaluate, lambda c: list(reduce(c)), quick=60000, thorough=2000000, batch=60000))
    return chk
