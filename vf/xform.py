"""Layout transformations that leave a program's meaning alone, with the position map."""
import bisect, random
from .tse import *

# a new line may follow these tokens without changing how the program is parsed
SAFE_NL = {"OpenParenToken", "CommaToken", "OpenBracketToken", "OpenBraceToken", "EqualsToken", "ColonToken", "BarBarToken", "AmpersandAmpersandToken", "EqualsGreaterThanToken", "SemicolonToken"}
COMMENTS = ["/*c*/", "/* é */", "/* 😀 */", " /* // */ ", "/* ' \" ` */"]


# names TypeScript's enum of kinds gives to more than one
ALIAS = {"FirstPunctuation": "OpenBraceToken", "FirstAssignment": "EqualsToken", "FirstTemplateToken": "NoSubstitutionTemplateLiteral", "LastTemplateToken": "TemplateTail", "FirstBinaryOperator": "LessThanToken"}


def _skip(kind):
    return kind.startswith("Jsx") or "Template" in kind or kind in ("EndOfFileToken",)


class Xform:
    """insertions: [(utf-16 offset, text)], applied to code"""

    def __init__(self, code, ins, prefix="", suffix=""):
        u = code.encode("utf-16-le", "surrogatepass")
        ins = sorted(ins)
        m = u16_to_byte(code)
        self.at, self.add = [], []
        out, last, tot = [], 0, len(prefix.encode("utf-8", "surrogatepass"))
        self.base = tot
        for p, t in ins:
            out.append(u[last * 2 : p * 2].decode("utf-16-le", "surrogatepass"))
            out.append(t)
            last = p
            tot += len(t.encode("utf-8", "surrogatepass"))
            self.at.append(m[p])
            self.add.append(tot)
        out.append(u[last * 2 :].decode("utf-16-le", "surrogatepass"))
        self.code = prefix + "".join(out) + suffix

    def start(self, p):
        k = bisect.bisect_right(self.at, p)
        return p + (self.add[k - 1] if k else self.base)

    def end(self, e):
        k = bisect.bisect_left(self.at, e)
        return e + (self.add[k - 1] if k else self.base)

    def range(self, p, e):
        s = self.start(p)
        return s, max(s, self.end(e)) if e > p else s

    def same(self, old, new):
        """Is new where old has moved? Text inserted right at a boundary may lie on either side of it."""
        if old == new == (0, 0):  # no place of its own
            return True
        return all(self.end(o) <= n <= self.start(o) for o, n in zip(old, new))


def tokens(items):
    """Token lists (utf-16 offsets) of every program, None where there are syntax errors."""
    orc = oracle()
    reqs = []
    for a in range(0, len(items), 100):
        reqs.append({"op": "parse", "texts": [["x" + it["ext"], it["code"]] for it in items[a : a + 100]], "tokens": True})
    out = []
    for r in orc.map(reqs):
        out += [[(s, e, ALIAS.get(k, k)) for s, e, k in x["tokens"]] if not x["errors"] else None for x in r["res"]]
    return out


def layout(code, toks, r, what, rate=0.25, jsx=False):
    """what: subset of space, comment, newline, crlf, prefix, suffix"""
    ins = []
    u = code.encode("utf-16-le", "surrogatepass")

    def gap(a, b):
        return u[a * 2 : b * 2].decode("utf-16-le", "surrogatepass")
    prev = None
    for s, e, k in toks:
        if prev and not jsx:
            pk = prev[2]
            # nothing goes between a template's parts, where it would be text, nor behind a line comment's text
            if not (_skip(k) and k != "TemplateHead" and k != "NoSubstitutionTemplateLiteral") and prev[1] <= s:
                g = gap(prev[1], s)
                glue = g == "" and k in ("QuestionToken", "GreaterThanToken", "EqualsToken")
                if not glue and r.random() < rate:
                    ch = [w for w in what if w in ("space", "comment") or (w == "newline" and pk in SAFE_NL)]
                    w = r.choice(ch) if ch else None
                    if w == "space":
                        ins.append((s, r.choice([" ", "  ", "\t"])))
                    elif w == "comment":
                        ins.append((s, r.choice(COMMENTS)))
                    elif w == "newline":
                        ins.append((s, r.choice(["\n", "\n\n  ", "\r\n", "\n// é line\n"] if "comment" in what else ["\n", "\n\n  ", "\r\n"])))
        if prev and "crlf" in what and prev[1] <= s and not jsx:
            g = gap(prev[1], s)
            for i, c in enumerate(g):
                if c == "\n" and (i == 0 or g[i - 1] != "\r"):
                    ins.append((prev[1] + i, "\r"))
        prev = (s, e, k)
    prefix = r.choice(["\n\n", "/* header é */\n", "// header 😀\n", "type __Unrelated0 = 0;\n"]) if "prefix" in what else ""
    suffix = r.choice(["\n\n\n", "\n// footer\n", "\n;type __Unrelated1 = 1;\n", "\nfunction __unrelated2() {}\n"]) if "suffix" in what else ""
    # more than one insertion at a point: in order of addition
    merged = collections.OrderedDict()
    for p, t in ins:
        merged[p] = merged.get(p, "") + t
    return Xform(code, list(merged.items()), prefix, suffix)
