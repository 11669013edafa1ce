"""Generators shared by several checks."""
from hypothesis import strategies as st
from .lint import *

WEIRD = ["\u00e9", "\u4f60", "\U0001F600", "\u200b", "\u2028", "\u2029", "\u0085", "\u00a0", "\ufeff", "e\u0301", "\U0001D4B3", "\x0b", "\x0c", "\t", "\0", "\x7f", "\udcff", "\udc80", "\\", "`", "'", '"', "${", "*/", "//", "\r"]
IDENTS = ["a", "foo", "\u00e9t\u00e9", "\u540d", "\U0001D4B3x", "$", "_"]


def snippet_pool(kind="invalid", maxlen=900):
    return [c for c in corpus() if c["Kind"] == kind and len(c["Code"]) <= maxlen and not c["Files"]]


def noise(alphabet=None, max_size=8):
    return st.lists(st.sampled_from(alphabet or WEIRD), max_size=max_size).map("".join)


BROKEN = ["const x = ;", "foo(", "}", "class { a: }", "if (", "function f(a, ) { return", "`${", "a?.[", "type T = |", "<div>", "enum E { A = }", "let { a = 1, ...b } = ", "async () =>", "@dec", "switch (x) { case", "new", "for (const x of)", "import {a from 'b'", "export =", "x as", "await", "yield*", "void", "a!.!b", "/(/", "1n.", "interface I { [k", "type X<T extends", "abstract", "try {", "throw", "delete x.", "() => {", "label:", "x satisfies"]


@st.composite
def weird_text(draw, pool, max_segs=5, broken=True, raw=True):
    segs = []
    for _ in range(draw(st.integers(0, max_segs))):
        k = draw(st.integers(0, 9))
        if k <= 4:
            segs.append(pool[draw(st.integers(0, len(pool) - 1))]["Code"])
        elif k == 5:
            segs.append("// " + draw(noise([w for w in WEIRD if w not in ("\u2028", "\u2029", "\r")])) )
        elif k == 6:
            segs.append("/* " + draw(noise([w for w in WEIRD if w != "*/"])) + " */")
        elif k == 7:
            q = draw(noise())
            segs.append(draw(st.sampled_from(["const s = '%s';", 'declare const o: any; o["%s"];', "`%s${'%s'}`;", "type U = '%s' | '%s' | 'k'; declare const u: U; switch (u) { case 'k': break; }", "Promise.resolve('%s');", "declare const p: Promise<'%s'>; p;"])).replace("%s", q))
        elif k == 8:
            i = draw(st.sampled_from(IDENTS))
            segs.append(draw(st.sampled_from(["async function %s() {} %s();", "declare const %s: { m(): void }; const f = %s.m;", "class %s { private p = 1; get(): number { return this.p } }", "declare const %s: any; const z: string = %s.q;"])).replace("%s", i))
        elif broken:
            segs.append(draw(st.sampled_from(BROKEN)))
    nl = draw(st.sampled_from(["\n", "\n", "\r\n", "\r", "\u2028", "\n\n"]))
    text = nl.join(s if nl == "\n" else s.replace("\n", nl) for s in segs) + draw(st.sampled_from(["", nl, nl + " "]))
    if draw(st.integers(0, 7)) == 0:
        text = "\ufeff" + text
    if not raw:
        text = "".join(ch for ch in text if not 0xD800 <= ord(ch) <= 0xDFFF)
    return text


def enc(text):
    return text.encode("utf-8", "surrogateescape")
