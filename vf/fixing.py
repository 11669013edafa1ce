"""Applying what the linter offers: an independent applier, and programs fixed until nothing is left."""
from .gold import *

GAP = re.compile(r"//[^\n\r\u2028\u2029]*|/\*.*?\*/", re.S)


def edits_of(fixes):
    return sorted(((f["range"]["pos"], f["range"]["end"], f["text"]) for f in fixes), key=lambda e: (e[0], e[1]))


def edits_error(src, edits):
    last = 0
    for p, e, _ in edits:
        if not 0 <= p <= e <= len(src):
            return f"edit {(p, e)} is outside the text of {len(src)} bytes"
        if p < last:
            return f"edits of one report overlap: {[(a, b) for a, b, _ in edits]}"
        last = e
    return None


def apply(code, edits):
    src = code.encode("utf-8", "surrogatepass")
    out, last = [], 0
    for p, e, t in edits:
        out += [src[last:p], t.encode("utf-8", "surrogatepass")]
        last = e
    return b"".join(out + [src[last:]]).decode("utf-8", "replace")


def pass_(code, diags):
    """One pass: the fixes of all reports that don't run into an earlier one's. -> (text, [applied edits])"""
    sets = sorted((edits_of(d["fixes"]) for d in diags if d.get("fixes")), key=lambda s: (s[0][0], s[-1][1]))
    took, last = [], 0
    for s in sets:
        if last > s[0][0]:
            continue
        took += s
        last = s[-1][1]
    return apply(code, took), took


def parse(pairs):
    """[(ext, text)] -> [{'errors': [...], 'tokens': [(pos, end, kind)]}], utf-16 offsets"""
    reqs = [{"op": "parse", "texts": [["x" + e, t] for e, t in pairs[a : a + 100]], "tokens": True} for a in range(0, len(pairs), 100)]
    return [x for r in oracle().map(reqs) for x in r["res"]]


def words(text, parsed):
    """The token texts of a program and the comments between them with their utf-16 ranges."""
    u = text.encode("utf-16-le", "surrogatepass")
    cut = lambda a, b: u[a * 2 : b * 2].decode("utf-16-le", "surrogatepass")
    toks, com, last = [], [], 0
    for s, e, k in parsed["tokens"] + [[len(u) // 2, len(u) // 2, "End"]]:
        if s > last:
            g = cut(last, s)
            for m in GAP.finditer(g):
                a = last + len(g[: m.start()].encode("utf-16-le", "surrogatepass")) // 2
                com.append((a, a + len(m.group().encode("utf-16-le", "surrogatepass")) // 2, m.group()))
        if e > s:
            toks.append(cut(s, e))
        last = max(last, e)
    return toks, com


def fix_all(run_, items, rounds=10):
    """Per item the texts after each pass ('crash' ends it): [{'texts': [...], 'first': result, 'left': bool}]"""
    st_ = [{"texts": [], "first": None, "left": False, "crash": None, "edits": []} for _ in items]
    live = list(range(len(items)))
    cur = [it["code"] for it in items]
    for k in range(rounds + 1):
        if not live:
            break
        res = run_([{**items[i], "code": cur[i]} for i in live])
        nxt = []
        for i, r in zip(live, res):
            s = st_[i]
            if "crash" in r:
                s["crash"] = r["crash"]
                continue
            if k == 0:
                s["first"] = r
            bad = [e for d in r["diags"] for e in [edits_error(cur[i].encode("utf-8", "surrogatepass"), edits_of(d.get("fixes") or []))] if e]
            if bad:
                s["bad"] = bad[0]
                continue
            t, took = pass_(cur[i], r["diags"])
            if not took:
                continue
            if k == rounds:
                s["left"] = True
                continue
            s["edits"].append(took)
            s["texts"].append(t)
            cur[i] = t
            nxt.append(i)
        live = nxt
    return st_
