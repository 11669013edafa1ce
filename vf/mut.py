"""Token-level mutation of source text as a Hypothesis strategy."""
import re
from hypothesis import strategies as st

TOK = re.compile(r"[A-Za-z_$][\w$]*|\d+|\s+|'[^'\n]*'|\"[^\"\n]*\"|=>|\?\.|\.\.\.|[^\w\s]")
POOL = ["(", ")", "{", "}", "[", "]", "<", ">", ";", ",", ".", "?.", "...", "=>", "=", "!", "?", ":", "&", "|", "&&", "||", "??", "`", "${", "'", "@", "#", "async ", "await ", "new ", "yield ", "void ", "typeof ", "delete ", "as ", "any", "unknown", "null", "undefined", "this", "super", "1", "1n", "'s'", "`t`", "/r/", "class ", "enum ", "type ", "interface ", "namespace N {", "const ", "let ", "for (", "if (", "switch (", "case ", "default", "return ", "throw ", "try {", "catch (e) {", "function ", "import ", "export ", "extends ", "implements ", "satisfies ", "in ", "of ", "is ", "keyof ", "infer ", "readonly ", "static ", "get ", "set ", "private ", "abstract ", "declare ", "<T,>", "<div/>", "// c\n", "/* c */", "\n"]


@st.composite
def mutate(draw, code, nmax=3):
    t = TOK.findall(code)
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, nmax]))):
        if not t:
            break
        k, i = draw(st.integers(0, 8)), draw(st.integers(0, len(t) - 1))
        if k <= 1:
            del t[i]
        elif k == 2:
            t.insert(i, t[draw(st.integers(0, len(t) - 1))])
        elif k == 3:
            j = draw(st.integers(0, len(t) - 1))
            t[i], t[j] = t[j], t[i]
        elif k == 4:
            t = t[:i]
        elif k == 5:
            del t[i : i + draw(st.integers(1, 5))]
        elif k == 6:
            t.insert(i, draw(st.sampled_from(POOL)))
        else:
            t[i] = draw(st.sampled_from(POOL))
    return "".join(t)
