"""Rules see every syntax node exactly once, in order, with the right pattern role."""
from vf.pbt import *
from vf.probe import probe
from vf.lint import corpus
from vf.mut import TOK, POOL

BIN = {}


def setup():
    BIN.update(build("probe_linter"))


# ------------------------------------------------------------------ programs full of assignment targets
class G:
    def __init__(self, r):
        self.r = r

    def name(self):
        return self.r.choice("abcxyz")

    def leaf(self):
        r = self.r
        return r.choice([self.name, lambda: f"{self.name()}.{self.name()}", lambda: f"{self.name()}[{self.expr(1)}]", lambda: f"({self.name()})", lambda: f"f({self.expr(1)}).p", lambda: f"{self.name()}!", lambda: "this.q"])()

    def target(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.25:
            return self.leaf()
        k = r.random()
        if k < 0.5:
            el = [r.choice(["", lambda: self.elem(d - 1)]) for _ in range(r.randint(0, 3))]
            el = [e if isinstance(e, str) else e() for e in el]
            if r.random() < 0.3:
                el.append("..." + self.target(d - 1))
            return "[" + ", ".join(el) + "]"
        ps = [self.prop(d - 1) for _ in range(r.randint(0, 3))]
        if r.random() < 0.3:
            ps.append("..." + self.leaf())
        return "{" + ", ".join(ps) + "}"

    def elem(self, d):
        t = self.target(d)
        return t + (f" = {self.expr(d)}" if self.r.random() < 0.3 else "")

    def key(self, d):
        return self.r.choice([self.name, lambda: f"'{self.name()}'", lambda: "1", lambda: f"[{self.expr(d)}]"])()

    def prop(self, d):
        if self.r.random() < 0.3:
            return self.name() + (f" = {self.expr(d)}" if self.r.random() < 0.5 else "")
        return f"{self.key(d)}: {self.elem(d)}"

    def expr(self, d):
        r = self.r
        if d <= 0:
            return r.choice([self.name(), "1", "'s'", "[]", "{}"]) if r.random() < 0.7 else "[1]"
        e = lambda: self.expr(d - 1)
        return r.choice([
            lambda: "[" + ", ".join(r.choice([e, lambda: "..." + e(), lambda: ""])() for _ in range(r.randint(0, 3))) + "]",
            lambda: "{" + ", ".join(r.choice([lambda: f"{self.key(d - 1)}: {e()}", lambda: "..." + e(), self.name, lambda: f"m() {{ {self.stmt(d - 1)} }}", lambda: f"get [{e()}]() {{ return {e()}; }}"])() for _ in range(r.randint(0, 3))) + "}",
            lambda: f"({self.target(d)} = {e()})",
            lambda: f"f({e()}, ...{e()})",
            lambda: f"({self.name()}, {self.binding(d - 1)}) => {{ {self.stmt(d - 1)} }}",
            lambda: f"({self.binding(d - 1)} = {e()}) => ({e()})",
            lambda: f"({e()} {r.choice(['+', '??', ',', '&&', 'in'])} {e()})",
            lambda: f"`${{{e()}}}t${{{e()}}}`",
            lambda: f"({e()} ? {e()} : {e()})",
            lambda: f"(typeof {e()})", lambda: f"(await {e()})", lambda: f"new C({e()})", lambda: f"({e()} as any)", lambda: f"(class {{ [{e()}] = {e()}; static {{ {self.stmt(d - 1)} }} }})",
            lambda: f"({e()})?.{self.name()}", lambda: f"(x {r.choice(['+=', '??=', '||='])} {e()})", lambda: f"(function* () {{ yield {e()}; }})",
        ])()

    def binding(self, d):
        r = self.r
        if d <= 0 or r.random() < 0.3:
            return self.name()
        dflt = lambda: f" = {self.expr(d - 1)}" if r.random() < 0.3 else ""
        if r.random() < 0.5:
            return "[" + ", ".join(self.binding(d - 1) + dflt() for _ in range(r.randint(0, 2))) + "]"
        return "{" + ", ".join(f"{self.key(d - 1)}: {self.binding(d - 1)}{dflt()}" for _ in range(r.randint(0, 2))) + "}"

    def stmt(self, d):
        r = self.r
        s = lambda: self.stmt(d - 1)
        if d <= 0:
            return f"({self.target(1)} = {self.expr(0)});"
        return r.choice([
            lambda: f"({self.target(d)} = {self.expr(d)});", lambda: f"({self.target(d)} = {self.expr(d)});",
            lambda: f"for ({self.target(d)} of {self.expr(d)}) {{ {s()} }}", lambda: f"for ({self.target(d)} in {self.expr(d)}) {s()}",
            lambda: f"for await ({self.target(d)} of {self.expr(d)}) {s()}",
            lambda: f"for (const {self.binding(d)} of {self.expr(d)}) {s()}", lambda: f"for ({self.target(d)} = {self.expr(1)}; {self.expr(1)}; {self.target(d)} = {self.expr(1)}) {s()}",
            lambda: f"let {self.binding(d)} = {self.expr(d)};", lambda: f"try {{ {s()} }} catch ({self.binding(d - 1)}) {{ {s()} }}",
            lambda: f"[{self.expr(d)}].map(q => {self.expr(d)});", lambda: f"if ({self.expr(1)}) {s()} else {{ {s()} }}", lambda: f"switch ({self.expr(1)}) {{ case {self.expr(1)}: {s()} }}",
            lambda: f"type T = [{{ a: [string] }}, ...any[]];", lambda: f"export default {self.expr(d)};", lambda: f"({self.expr(d)});",
        ])()


BASE = [c for c in corpus() if len(c["Code"]) < 1500]


def text(r):
    k = r.random()
    if k < 0.6:
        g = G(r)
        return "a.ts", "\n".join(g.stmt(r.randint(1, 4)) for _ in range(r.randint(1, 3)))
    c = r.choice(BASE)
    ext = c["fn"][c["fn"].rindex("."):]
    if k < 0.75:
        return "a" + ext, c["Code"]
    t = TOK.findall(c["Code"] if k < 0.9 else G(r).stmt(3))
    for _ in range(r.randint(1, 3)):
        if not t:
            break
        i = r.randrange(len(t))
        w = r.random()
        if w < 0.35:
            del t[i]
        elif w < 0.7:
            t[i] = r.choice(POOL)
        else:
            t.insert(i, r.choice(t))
    return "a" + ext, "".join(t)


def generate(r, n):
    out = []
    for _ in range(n):
        name, t = text(r)
        out.append({"name": name, "text": t})
    return out


SIZE = 40


def evaluate(batch):
    out = [None] * len(batch)
    reqs = []
    for k, a in enumerate(range(0, len(batch), SIZE)):
        cs = batch[a : a + SIZE]
        reqs.append({"op": "visit", "workers": 1 + k % 4, "timing": k % 5 == 4, "files": [{"name": f"f{i}" + c["name"][1:], "text": c["text"].encode("utf-8", "replace").decode()} for i, c in enumerate(cs)]})
    ans = probe(BIN["probe_linter"], reqs)
    redo = []
    for k, (q, x) in enumerate(zip(reqs, ans)):
        a = k * SIZE
        for i in range(len(q["files"])):
            if isinstance(x, list):
                o = x[i]
                out[a + i] = Verdict(fail=(o["fail"] + "\n" + batch[a + i]["text"]) if o["fail"] else None, key=canon(batch[a + i]) if o["nodes"] > 3 else None, labels=("patterns" if o["patterns"] else "no patterns",))
            elif "error" in x:
                raise Inconclusive(x["error"])
            elif len(batch) == 1:
                out[a + i] = Verdict(fail=f"the traversal crashed: {x}\n{batch[a + i]['text']}")
            else:
                redo.append(a + i)
    for i in redo[:200]:
        out[i] = evaluate([batch[i]])[0]
    return [o or Verdict(labels=("not evaluated",)) for o in out]


def reduce(c):
    t = TOK.findall(c["text"])
    for size in (len(t) // 2, len(t) // 4, len(t) // 8, 3, 2, 1):
        if size:
            for a in range(0, len(t), max(1, size)):
                yield {**c, "text": "".join(t[:a] + t[a + size :])}


def make():
    chk = Check("C14", "programs made of nested assignment targets and array/object literals (60 %), the project's snippets, and token mutants of both that need not parse. Two recording rules listen to every kind, on entry and exit and as pattern or not, through the linter's exported entry point (1-4 workers, with and without timing; every third file has only one of the rules); "
                "the calls are compared with a recursive walk whose roles come from looking upwards through the parents. Non-trivial = a program of more than 3 nodes.",
                setup=setup, assumptions=["the parser's ForEachChild enumerates a node's children in order", "array and object literals behind parentheses or assertions at a target position are not JavaScript patterns: their role is left open"])
    chk.add(GProp("visit", generate, evaluate, lambda c: list(reduce(c)), quick=6000, thorough=150000))
    return chk
