"""Meaning-changing mutations of the project's own rule snippets: still programs, but other ones."""
import random, re
from .lint import corpus

TOK = re.compile(r"//[^\n]*|/\*.*?\*/|'(?:[^'\\\n]|\\.)*'|\"(?:[^\"\\\n]|\\.)*\"|`[^`$\\]*`|[A-Za-z_$][\w$]*|\d[\w.]*|\s+|=>|\?\.|\?\?=|\|\|=|&&=|\?\?|\|\||&&|===|!==|==|!=|<=|>=|\+=|-=|\+\+|--|\.\.\.|[^\w\s]", re.S)
TYPES = ["string", "number", "boolean", "any", "unknown", "never", "null", "undefined", "void", "object", "bigint", "symbol", "{}", "'a'", "0", "1", "true", "false", "1n", "''",
         "string[]", "any[]", "Promise<string>", "Promise<void>", "Promise<any>", "string | null", "number | undefined", "boolean | null", "'a' | 'b'", "string & { __b: 1 }", "Function",
         "() => void", "() => Promise<void>", "(x: any) => string", "RegExp", "Error", "Date", "Map<string, number>", "Set<any>", "Record<string, string>", "readonly string[]", "[string, number]",
         "{ a?: string }", "{ readonly a: number }", "PromiseLike<number>", "Promise<string> | string", "any | string", "unknown[]", "{ toString(): string }", "bigint | number", "symbol | string", "string | number",
         "true | undefined", "0 | 1", "Iterable<string>", "AsyncIterable<string>", "Array<Promise<void>>", "typeof globalThis", "keyof { a: 1 }", "`a${string}`", "Partial<{ a: string }>", "Error | string", "T"]
PRIM = {"string", "number", "boolean", "any", "unknown", "never", "null", "undefined", "void", "object", "bigint", "symbol", "Promise", "RegExp", "Error", "Date", "Function", "Foo", "T"}
LITS = ["0", "1", "-1", "''", "'a'", "'foo'", "`a`", "null", "undefined", "true", "false", "1n", "[]", "{}", "/a/", "/^a/", "NaN", "new Error('x')", "Promise.resolve(1)", "() => {}", "x", "this", "void 0", "[1]", "'a' as string", "(null as any)", "Symbol()", "async () => {}", "function () {}"]
CLASSES = [["&&", "||", "??"], ["===", "==", "!==", "!="], ["<", ">", "<=", ">="], ["+", "-", "*", "/", "%"], ["+=", "-=", "="], ["||=", "&&=", "??=", "="], [".", "?."], ["let", "const", "var"],
           ["private", "public", "protected", "readonly", "private readonly", "static", ""], ["++", "--"], ["for", "for await"], ["in", "of"], ["type", "interface"], ["any", "unknown", "never"],
           ["null", "undefined"], ["true", "false"], ["|", "&"], ["then", "catch", "finally"], ["resolve", "reject"], ["get", "set"], ["indexOf", "includes", "lastIndexOf", "search"],
           ["startsWith", "endsWith", "charAt", "slice", "substring", "match", "test", "exec"], ["filter", "find", "map", "some", "every", "forEach", "reduce", "sort", "toSorted"],
           ["toString", "toLocaleString", "valueOf", "String", "join"], ["String", "Number", "Boolean", "BigInt"], ["return", "throw", "yield", "await", "return await"], ["if", "while"], ["as", "satisfies"], ["class", "abstract class"],
           ["async ", ""], ["void ", "await ", "!", "-", "+", "~", "typeof ", "delete ", ""]]
CLS = {}
for c in CLASSES:
    for w in c:
        CLS.setdefault(w.strip(), []).append(c)
DROP = {"async", "await", "void", "!", "?", "readonly", "static", "private", "public", "protected", "abstract", "override", "declare", "const", "export", "return", "default", "extends", "keyof", "typeof", "new", "delete", "break", "continue"}
PRE = {"ident": ["!", "await ", "void ", "typeof ", "-", "+", "...", "new ", "(", "!!", "return ", "async ", "delete ", "readonly "], "post": ["!", "?", "?.a", ".a", "()", "[0]", " as any", " as unknown", " as const", " ?? 1", " || ''", " && x", "?.()", "['a']", " as string", "[]", " | null", " | undefined", " | any", " & {}", " = undefined", ": any", ".toString()", " satisfies unknown", "!.b", " === null", " == null", " !== undefined", " === true", " + ''", ".then()", ".catch(() => {})", " instanceof Error", " in y"]}

DECLS = {"function", "class", "const", "let", "var", "interface", "type", "enum", "namespace", "module", "infer", "import"}
KEYWORDS = DECLS | {"if", "else", "for", "while", "do", "switch", "case", "default", "return", "throw", "try", "catch", "finally", "break", "continue", "new", "typeof", "void", "delete", "in", "of", "instanceof", "as", "satisfies", "is", "asserts", "keyof", "extends",
                    "implements", "declare", "export", "from", "async", "await", "yield", "static", "readonly", "public", "private", "protected", "abstract", "override", "get", "set", "super", "unique"}

_pool = {}


def _prev(t, i):
    for j in range(i - 1, -1, -1):
        if not t[j].isspace() and t[j]:
            return t[j]
    return ""


def _next(t, i):
    for j in range(i + 1, len(t)):
        if not t[j].isspace() and t[j]:
            return t[j]
    return ""


def _props(rule):
    if rule not in _prop:
        out = {"then", "catch", "length", "toString", "map", "a", "foo"}
        for c in corpus():
            if c["Rule"] == rule:
                out |= set(re.findall(r"\.([A-Za-z_$][\w$]*)", c["Code"]))
        _prop[rule] = sorted(out)
    return _prop[rule]


_prop = {}


def pool(rule):
    """What snippets of this rule consist of: words, statements and bracketed groups to splice in."""
    if rule not in _pool:
        words, groups, stmts, whole = [], [], [], []
        for c in corpus():
            if c["Rule"] != rule or c["Files"]:
                continue
            whole.append(c["Code"])
            t = TOK.findall(c["Code"])
            words += [w for w in t if re.match(r"[A-Za-z_$'\"`\d]", w)]
            st = []
            for i, w in enumerate(t):
                if w in "([{" and len(w) == 1:
                    st.append(i)
                elif w in ")]}" and len(w) == 1 and st:
                    j = st.pop()
                    s = "".join(t[j : i + 1])
                    if len(s) < 160:
                        groups.append(s)
            stmts += [s for s in re.split(r"\n(?=\S)", c["Code"]) if 5 < len(s) < 400]
        _pool[rule] = (sorted(set(words)), sorted(set(groups)), sorted(set(stmts)), sorted({__import__("json").dumps(c["Options"], sort_keys=True) for c in corpus() if c["Rule"] == rule}), whole)
    return _pool[rule]


def _close(t, i):
    d, o = 0, t[i]
    c = {"(": ")", "[": "]", "{": "}"}[o]
    for j in range(i, len(t)):
        if t[j] == o:
            d += 1
        elif t[j] == c:
            d -= 1
            if d == 0:
                return j
    return None


ATOMS = TYPES[:-1] + ["Array<number>", "ReadonlyArray<string>", "[]", "[number?]", "[string, ...number[]]", "Promise<unknown>", "Promise<never>", "Error[]", "WeakMap<object, string>", "'b'", "2", "-1", "10n", "`x`", "unique symbol", "Iterator<number>", "Generator<string>", "Promise<number> | null", "ArrayLike<string>", "Boolean", "Number", "String", "Object"]


def rtype(r, depth=2):
    """A type: mostly one of the usual suspects, sometimes composed of them."""
    if depth == 0 or r.random() < 0.4:
        return r.choice(ATOMS)
    k, t = r.randrange(14), lambda: rtype(r, depth - 1)
    par = lambda x: f"({x})" if re.search(r"=>|[|&]|keyof|typeof", x) else x
    if k < 4:
        return " | ".join(par(t()) if r.random() < 0.8 else t() for _ in range(r.choice([2, 2, 3])))
    if k == 4:
        return par(t()) + " & " + par(t())
    if k == 5:
        return par(t()) + "[]"
    if k == 6:
        return f"Promise<{t()}>"
    if k == 7:
        return f"[{t()}, {t()}]"
    if k == 8:
        return "{ " + "; ".join(f"{r.choice(['', '', 'readonly '])}{n}{r.choice(['', '', '?'])}: {t()}" for n in r.sample(["a", "b", "foo", "then", "x", "length", "0"], r.choice([1, 1, 2]))) + " }"
    if k == 9:
        return f"({r.choice(['', 'x: ' + t(), 'x?: ' + t(), '...x: ' + par(t()) + '[]', 'this: void'])}) => {t()}"
    if k == 10:
        return r.choice(["Set<", "Array<", "ReadonlyArray<", "Iterable<", "PromiseLike<", "Partial<", "Readonly<", "NonNullable<", "Awaited<", "Required<", "Record<string, ", "Promise<"]) + t() + ">"
    if k == 11:
        return f"Map<{t()}, {t()}>"
    if k == 12:
        return f"{{ [k: string]: {t()} }}"
    return f"{{ ({r.choice(['', 'x: ' + t()])}): {t()} }}"


WRAPS = ["(%)", "(%)", "(cnd ? % : %)", "(% || %)", "(% && %)", "(% ?? %)", "(0, %)", "[%]", "{ a: % }", "(% as any)", "(% as unknown)", "%!", "`${%}`", "!%", "!!%", "await %", "(await %)", "void %", "typeof %", "[...%]", "(() => %)()", "(() => %)", "(async () => %)()", "(function () { return %; })", "% === null", "% == undefined", "% !== undefined", "% + ''", "% + %",
         "%.toString()", "String(%)", "Boolean(%)", "Promise.resolve(%)", "[%].map(x => x)", "new Map([[%, %]])", "%?.a", "%.a", "%()", "%?.()", "%[0]", "(% satisfies unknown)", "(% as const)", "cnd && %", "cnd || %", "% ? 1 : 2", "{ ...% }", "(x: any) => %", "(class { p = % })", "(x = %) => x", "-%", "+%", "% instanceof Error", "'a' in %", "Object.assign({}, %)", "JSON.stringify(%)", "Promise.all([%])", "% === true", "% === false", "% > 0", "typeof % === 'string'"]
EMBEDS = ["{\n%\n}", "function wrapper() {\n%\n}", "async function wrapper() {\n%\n}", "() => {\n%\n};", "async () => {\n%\n};", "if (cnd) {\n%\n}", "try {\n%\n} catch (e) {}", "try {} catch (e) {\n%\n}", "try {} finally {\n%\n}", "for (;;) {\n%\nbreak; }", "for (const q of [1]) {\n%\n}", "namespace NS {\n%\n}", "class Outer { static {\n%\n} }", "class Outer { m() {\n%\n} }", "class Outer { async m() {\n%\n} }",
          "switch (1 as number) { case 1: {\n%\n} }", "label: {\n%\n}", "function* wrapper() {\n%\n}", "async function* wrapper() {\n%\n}", "const o = { m() {\n%\n} };", "const o = { get m() {\n%\nreturn 1; } };", "(function () {\n%\n})();", "%\n{\n%\n}", "function f1() {\n%\n}\nfunction f2() {\n%\n}"]


def chain(t, i):
    """The tokens of the member/call chain that begins at i: its end."""
    j = i + 1
    while j < len(t):
        if t[j] in (".", "?.", "!.") and j + 1 < len(t) and re.match(r"[A-Za-z_$#]", t[j + 1]):
            j += 2
        elif t[j] == "?." and j + 1 < len(t) and t[j + 1] in ("(", "["):
            j += 1
        elif t[j] in ("(", "["):
            k = _close(t, j)
            if k is None:
                break
            j = k + 1
        else:
            break
    return j


def hoist(code):
    """(ambient declarations, the rest): what may not stand in a block"""
    ls = code.split("\n")
    up = [l for l in ls if re.match(r"\s*declare .*;\s*$", l)]
    return "\n".join(up), "\n".join(l for l in ls if l not in up)


def mutate(r, rule, code, n=None):
    code = _mutate(r, rule, code, n)
    if r.random() < 0.15:
        other = r.choice(pool(rule)[4]) if r.random() < 0.5 else code
        if "import " not in code and "export " not in code and "import " not in other and "export " not in other:
            a, _, b = r.choice(EMBEDS).partition("%")
            x = [hoist(code), hoist(other)]
            code = a + x[0][1] + b.replace("%", x[1][1]) + "\n" + x[0][0] + ("\n" + x[1][0] if "%" in b and other != code else "")
            if r.random() < 0.3:
                code += "\n{\n" + other + "\n}"
        else:
            code += "\n{\n" + other + "\n}"
    if re.search(r"\bcnd\b", code):
        code += "\ndeclare const cnd: boolean;"
    return code


def _mutate(r, rule, code, n=None):
    t = TOK.findall(code)
    words, groups, stmts, _, _ = pool(rule)
    for _ in range(n or r.choice([1, 1, 1, 2, 2, 3])):
        if not t:
            break
        for _try in range(12):
            i = r.randrange(len(t))
            w = t[i]
            if w.isspace() or w.startswith(("//", "/*")):
                continue
            k = r.random()
            if w in CLS and k < 0.6:
                t[i] = r.choice(r.choice(CLS[w]))
                if t[i] and t[i][-1].isalpha():
                    t[i] += " "
            elif w in DROP and k < 0.8:
                del t[i]
            elif w in PRIM and k < 0.9:
                t[i] = rtype(r)
            elif w in ("(", "[", "{") and k < 0.5:
                j = _close(t, i)
                if j is None:
                    continue
                s = [g for g in (groups[r.randrange(len(groups))] for _ in range(6)) if g[0] == w] if groups else []
                if k < 0.1 and w == "(":
                    t[i : j + 1] = ["()"]
                elif s:
                    t[i : j + 1] = [s[0]]
                else:
                    continue
            elif re.match(r"['\"`\d]", w):
                t[i] = r.choice(LITS if k < 0.7 else words)
            elif re.match(r"[A-Za-z_$]", w):
                pv, nx = _prev(t, i), _next(t, i)
                if w in KEYWORDS:
                    if k < 0.3:
                        t[i] = r.choice(["", "", r.choice(words)])
                    else:
                        continue
                elif pv in DECLS:
                    continue
                elif pv in (".", "?."):
                    t[i] = r.choice(_props(rule)) if k < 0.6 else w + r.choice(PRE["post"])
                elif nx == ":" and pv in ("(", ",", "{", ";", "}") and k < 0.9:
                    if k < 0.3:
                        t[i] = w + "?"
                    elif k < 0.5 and pv == "(":
                        t[i] = "..." + w
                    else:
                        continue
                elif (pv in (":", "|", "&", "as", "satisfies", "extends", "<", "implements", "is", "keyof") or nx in ("|", "&", "[")) and k < 0.4:
                    t[i] = rtype(r)
                elif k < 0.12:
                    t[i] = r.choice(words)
                elif k < 0.3:
                    j = chain(t, i)
                    t[i:j] = [r.choice(WRAPS).replace("%", "".join(t[i:j]))]
                elif k < 0.55:
                    t[i] = w + r.choice(PRE["post"])
                elif k < 0.77:
                    p = r.choice(PRE["ident"])
                    t[i] = p + w + (")" if p == "(" else "")
                elif k < 0.88:
                    j = [x for x in t if re.match(r"[A-Za-z_$]", x) and x not in KEYWORDS]
                    t[i] = r.choice(j) if j else w
                else:
                    t[i] = r.choice(LITS)
            elif w in ("}", ";") and k < 0.3 and stmts:
                t.insert(i + 1, "\n" + r.choice(stmts) + "\n")
            elif w in (",",) and k < 0.3:
                t.insert(i + 1, " " + r.choice(LITS) + ",")
            else:
                continue
            break
    return "".join(t)


def undeclared(code_types):
    """Names the checker cannot find, from its diagnostics."""
    return sorted({m.group(1) for d in code_types for m in [re.match(r"Cannot find name '([A-Za-z_$][\w$]*)'", d["message"]["description"])] if m})
