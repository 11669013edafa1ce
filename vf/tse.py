"""Batches of single-file programs through tsgolint and through typescript-eslint."""
from hypothesis import strategies as st
from .lint import *
import re

BASE = {"target": "esnext", "module": "esnext", "moduleResolution": "bundler", "strict": True, "lib": ["esnext", "dom"], "types": [], "jsx": "preserve", "noEmit": True, "skipLibCheck": True, "experimentalDecorators": True, "noImplicitAny": True}
FIX = ["--fix", "--fix-suggestions"]
_orc = []


def oracle():
    if not _orc:
        _orc.append(Oracle())
    return _orc[0]


def ext(fn):
    b = os.path.basename(fn)
    return b[b.index("."):]


def item(code, rules, opts=None, e=".ts"):
    """rules: {name: options or None}; opts: compiler options on top of BASE"""
    return {"code": code, "rules": rules, "opts": opts or {}, "ext": e}


GLOBALS = re.compile(r"declare\s+(global|module)")


def _groups(items, size):
    """Batches of equal compiler options; what declares globals is alone in its program."""
    by = collections.defaultdict(list)
    out = []
    for i, it in enumerate(items):
        if GLOBALS.search(it["code"]):
            out.append([i])
        else:
            by[canon(it["opts"])].append(i)
    for g in by.values():
        for a in range(0, len(g), size):
            out.append(g[a : a + size])
    return out


def canon(x):
    return json.dumps(x, sort_keys=True)


class Crash(Exception):
    pass


def tsgolint(exe, items, size=50, types=False, args=FIX, timeout=120, base=BASE, extra=None):
    """Per item: {'diags': [...], 'types': [...]} or {'crash': text}. Every item is its own module of a
    program it shares with other items of the same compiler options; a crash is traced to its item."""
    res = [None] * len(items)

    def run(g):
        root = scratch("t")
        opts = {**base, **items[g[0]]["opts"]}
        names = {f"c{i}{items[i]['ext']}": i for i in g}
        write_tree(root, {**(extra or {}), **{n: items[i]["code"] for n, i in names.items()}, "tsconfig.json": json.dumps({"compilerOptions": opts, "files": list(names)})})
        cfg = [{"file_paths": [f"{root}/{n}"], "rules": [rule_entry(r, o) for r, o in items[i]["rules"].items()]} for n, i in names.items()]
        try:
            r = headless(exe, {"version": 2, "configs": cfg, "report_syntactic": types, "report_semantic": types}, root, args, {"GOMAXPROCS": "2"}, timeout)
            bad = crashed(r)
        except Inconclusive as e:
            r, bad = None, f"no answer: {e}"
        finally:
            rmtree(root)
        if bad:
            if len(g) == 1:
                res[g[0]] = {"crash": bad}
            else:
                h = len(g) // 2
                run(g[:h])
                run(g[h:])
            return
        for i in g:
            res[i] = {"diags": [], "types": []}
        for d in r.diags:
            if d["message"]["description"] == "Invalid tsconfig":
                raise Inconclusive(f"the generated tsconfig is rejected: {d}")
            i = names[os.path.basename(d["file_path"])]
            res[i]["types" if d["kind"] else "diags"].append(d)
    pmap(run, _groups(items, size), 7)
    for r in res:
        for k in ("diags", "types"):
            if r and k in r:
                r[k].sort(key=lambda d: ((d.get("range") or {"pos": -1})["pos"], (d.get("range") or {"end": -1})["end"], d.get("rule") or "", d["message"]["id"]))
    return res


def hangs(it):
    """typescript-eslint itself needs exponential time on mutually recursive tuples."""
    return "no-base-to-string" in it["rules"] and "UnaryExpression" in it["code"]


def eslint(items, size=60, diags="all", timeout=20, extra=None):
    """Per item: {'messages': [...], 'types': [...]} (byte offsets) or {'unknown': why}."""
    res = [{"unknown": "left out"} if hangs(it) else None for it in items]
    orc = oracle()
    free = collections.deque(orc.workers)
    lk = threading.Condition()

    def run(g, timeout=timeout):
        files = {f"/p/c{i}{items[i]['ext']}": items[i]["code"] for i in g}
        opts = {**BASE, **items[g[0]]["opts"]}
        with lk:
            while not free:
                lk.wait()
            w = free.popleft()
        try:
            r = w.call({"op": "lint", "files": {**{f"/p/{k}": v for k, v in (extra or {}).items()}, **files}, "roots": list(files), "options": opts, "cwd": "/p", "lint": {p: items[i]["rules"] for p, i in zip(files, g)}, "diags": diags}, timeout)
        except ChildDied as e:
            r = {"error": str(e)}
        finally:
            with lk:
                free.append(w)
                lk.notify()
        if "error" in r:
            if len(g) <= (8 if timeout < 10 else 1):
                for i in g:
                    res[i] = {"unknown": r["error"][:300]}
            else:  # a hang or crash of the oracle: narrow it down
                h = len(g) // 2
                run(g[:h], 6)
                run(g[h:], 6)
            return
        for p, i in zip(files, g):
            x = r["res"][p]
            if "messages" not in x:
                res[i] = {"unknown": x.get("fatal") or x.get("crash") or "?"}
                continue
            m = u16_to_byte(items[i]["code"])
            for y in x["messages"]:
                y["pos"], y["end"] = m[y["pos"]], m[y["end"]]
            t = []
            for y in (r["diags"][p]["syn"] + r["diags"][p]["sem"]) if r.get("diags") else []:
                t.append((y["code"], m[y["pos"]] if y["pos"] >= 0 else -1))
            res[i] = {"messages": sorted(x["messages"], key=lambda y: (y["pos"], y["end"], y["rule"], y["id"] or "")), "types": sorted(t)}
    todo = [i for i in range(len(items)) if res[i] is None]
    pmap(run, [[todo[k] for k in g] for g in _groups([items[i] for i in todo], size)], len(orc.workers))
    return res
