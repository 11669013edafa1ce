"""Autofixes keep the program's runtime behaviour."""
from vf.fixing import *
from vf.rulecheck import *

RULES = ["dot-notation", "no-unnecessary-template-expression", "no-unnecessary-boolean-literal-compare", "prefer-includes", "prefer-string-starts-ends-with", "prefer-regexp-exec", "prefer-optional-chain",
         "prefer-reduce-type-parameter", "no-unnecessary-type-assertion", "no-unnecessary-type-arguments", "no-meaningless-void-operator", "non-nullable-type-assertion-style", "return-await", "no-useless-default-assignment"]

STR = ["''", "'a'", "'ab'", "'abc'", "'ba'", "'abab'", "'\\n'", "'a\\nab'", "'\u00e9'", "'\\ud83d\\ude00'", "'a.b'", "'AB'", "'0'", "'[a]'", "'x$'", "'ab '"]
NUM = ["0", "1", "-1", "2", "3", "1.5", "100"]
HEAD = "declare function log<T>(tag: string, v: T): T;\n"


def value(r, t):
    """A JavaScript expression for a value of a type."""
    t = t.strip()
    if " | " in t and not t.startswith(("{", "(")):
        return value(r, r.choice(t.split(" | ")))
    if t == "string":
        return r.choice(STR)
    if t == "number":
        return r.choice(NUM)
    if t == "boolean":
        return r.choice(["true", "false"])
    if t in ("undefined", "null", "true", "false"):
        return t
    if t == "bigint":
        return r.choice(["0n", "5n"])
    if t in ("string[]", "readonly string[]"):
        return "[" + ", ".join(r.choice(STR) for _ in range(r.randint(0, 4))) + "]"
    if t == "number[]":
        return "[" + ", ".join(r.choice(NUM) for _ in range(r.randint(0, 4))) + "]"
    if t == "RegExp":
        return r.choice(["/a/", "/^ab/", "/b$/m", "/(a)(b)?/", "/A/i", "/./u"])
    if t == "Obj":
        return "watch({a: %s, k: %s, 'class': 3, $x: 'q', m(x) { return log('m', (x ?? 1) + this.a.length) }, n: %s, C: class { constructor(x) { this.x = x } }, t: (s) => s.raw[0] }, 'o')" % (value(r, "string"), value(r, "number"), r.choice(["undefined", "{a: 'in', k: 2}"]))
    if t == "Deep":
        def deep(d):
            if d == 0 or r.random() < 0.2:
                return "undefined"
            b = f"watch({{b: {deep(d - 1)}, s: {r.choice(STR[1:])}, z: {value(r, 'number | undefined')}, f: {r.choice(['undefined', '(x) => log(%r, x)' % ('f' + str(d))])}, g(x) {{ log('g'); return this.b }}, w: {r.choice(['null', deep(d - 1)])} }}, 'd{d}')"
            return b
        while True:
            x = deep(3)
            if x != "undefined":
                return x
    if t == "Void":
        return "() => { log('v'); }"
    if t == "Prom":
        return r.choice(["Promise.resolve(1)", "Promise.resolve(2)", "(async () => { log('p'); return 3 })()"])
    if t == "Bool":
        return r.choice(["() => log('b', true)", "() => log('b', false)"])
    raise KeyError(t)


TYPES = """interface Obj { a: string; k: number; class: number; $x: string; m(x?: number): number; n?: { a: string; k: number }; C: new (x: number) => { x: number }; t(s: TemplateStringsArray): string }
interface Deep { b?: Deep; s: string; z: number | undefined; f?: (x: number) => number; g(x: number): Deep | undefined; w: Deep | null | undefined }
type Void = () => void; type Prom = Promise<number>; type Bool = () => boolean;
"""


class G:
    def __init__(self, r):
        self.r, self.params, self.pre, self.async_ = r, {}, "", False

    def p(self, name, t):
        self.params[name] = t
        return name

    def str(self, depth=0):
        r = self.r
        return r.choice([lambda: self.p(r.choice("ab"), "string")] * 4 + [lambda: f"log('s', {self.p(r.choice('ab'), 'string')})", lambda: f"({self.p('a', 'string')})", lambda: f"{self.p('o', 'Obj')}.a", lambda: r.choice(STR),
                        lambda: f"({self.p('a', 'string')} + {self.p('b', 'string')})", lambda: f"({self.p('c', 'boolean')} ? {self.p('a', 'string')} : 'ab')", lambda: f"{self.p('a', 'string')}.trim()", lambda: f"`${{{self.p('a', 'string')}}}!`", lambda: f"{self.p('a', 'string')}!",
                        lambda: f"({self.p('a', 'string')} as string)", lambda: f"({self.p('a', 'string')}, {self.p('b', 'string')})"])()

    def bool(self):
        r = self.r
        return r.choice([lambda: self.p(r.choice("cd"), "boolean")] * 3 + [lambda: f"log('b', {self.p('c', 'boolean')})", lambda: f"({self.p('c', 'boolean')} && {self.p('d', 'boolean')})", lambda: f"{self.p('c', 'boolean')} || {self.p('d', 'boolean')}", lambda: f"!{self.p('c', 'boolean')}",
                        lambda: f"{self.p('n', 'number')} > 1", lambda: f"{self.p('h', 'Bool')}()", lambda: f"({self.p('c', 'boolean')} as boolean)", lambda: f"{self.p('a', 'string')} === 'a'", lambda: f"({self.p('c', 'boolean')} ? {self.p('d', 'boolean')} : {self.p('h', 'Bool')}())", lambda: f"{self.p('n', 'number')} in {self.p('o', 'Obj')}", lambda: f"({self.p('q', 'boolean')} = {self.p('c', 'boolean')})"])()


def lit(r, s):
    """A string literal of the text s."""
    q = r.choice("'\"")
    return q + s.replace("\\", "\\\\").replace(q, "\\" + q).replace("\n", "\\n") + q


def dot_notation(g):
    r = g.r
    o = r.choice([lambda: g.p("o", "Obj"), lambda: f"log('o', {g.p('o', 'Obj')})", lambda: f"({g.p('o', 'Obj')})", lambda: f"{g.p('o', 'Obj')}.n!", lambda: f"({g.p('c', 'boolean')} ? {g.p('o', 'Obj')} : {g.p('o2', 'Obj')})", lambda: f"{g.p('o', 'Obj')}!", lambda: f"({g.p('o', 'Obj')} as Obj)"])()
    key = r.choice(["a", "k", "class", "$x", "n", "a", "k"])
    k = r.choice([f"'{key}'", f'"{key}"', f"`{key}`", f"/*1*/ '{key}'", f"( '{key}' )", f"'\\x61'"])
    return r.choice([lambda: f"{o}[{k}]", lambda: f"{o}\n[{k}]", lambda: f"{o} /*x*/ [{k}]", lambda: f"{o}?.[{k}]", lambda: f"{o}['m']({g.p('n', 'number')})", lambda: f"{o}['m']?.(1)", lambda: f"new {g.p('o', 'Obj')}['C']({g.p('n', 'number')})", lambda: f"new ({o}['C'])(1)", lambda: f"{g.p('o', 'Obj')}['t']`x${{1}}y`",
                     lambda: f"({g.p('o', 'Obj')}['k'] = {g.p('n', 'number')})", lambda: f"{g.p('o', 'Obj')}['k']++", lambda: f"({g.p('o', 'Obj')}['k'] += 2)", lambda: f"delete ({g.p('o', 'Obj')} as any)['n']", lambda: f"{g.p('o', 'Obj')}['n']?.['a']", lambda: f"typeof {o}[{k}]", lambda: f"-{o}['k']",
                     lambda: "1['toFixed'](2)", lambda: "1.5['toFixed']()", lambda: "1e3['toFixed']()", lambda: "0x10['toString']()", lambda: "1..valueOf()['toFixed']()", lambda: "'ab'['length']", lambda: f"{g.p('a', 'string')}['length']", lambda: "(() => 1)['length']", lambda: "[1, 2]['length']", lambda: f"({g.p('n', 'number')} + 1)['toFixed']()",
                     lambda: f"{o}[{k}]in{g.p('o', 'Obj')}" if key in ("a", "$x") else f"{o}[{k}]", lambda: f"({{...{g.p('o', 'Obj')}}})['k']", lambda: "1_000['toFixed']()", lambda: "1n['toString']()", lambda: "-1['toFixed']()", lambda: "010.0['toFixed']()", lambda: "/a/['source']"])()


def template(g):
    r = g.r

    def text():
        return r.choice(["", "", "a", "$", "\\`", "\\${", "{", "}", "\\\\", "\\n", "\n", "'", '"', "x y", "\\u0041", "$$", "\\$", "{a}", "\\0", "\u00e9"])

    def part(d=0):
        return r.choice([lambda: lit(r, r.choice(["a", "", "$", "{", "${", "`", "\\", "\n", "'", '"', "a`b", "$\\", "${x}", "\\n", "{x", "$$"]))] * 5 + [lambda: r.choice(["1", "1e3", "0x10", "0b11", "1.50", ".5", "1_000", "10n", "0xffn", "true", "null", "undefined", "NaN", "Infinity", "-1", "/re/g", "/`/", "/\\$/", "0o17", "1e400", "5."]),
                        lambda: g.p("a", "string"), lambda: g.p("n", "number"), lambda: "`" + "".join(text() + ("${" + part(d + 1) + "}" if d < 2 and r.random() < 0.6 else "") for _ in range(r.randint(1, 2))) + text() + "`",
                        lambda: g.str(), lambda: f"({lit(r, 'p')})", lambda: f"{g.p('c', 'boolean')} ? 'a' : 'b'", lambda: f"/* c */ {lit(r, 'q')}", lambda: f"{lit(r, 'q')} as string", lambda: f"\n{lit(r, 'w')}\n", lambda: f"{g.p('a', 'string')} + {g.p('b', 'string')}"])()
    n = r.choice([1, 1, 1, 2, 3])
    body = "".join(text() + "${" + part() + "}" for _ in range(n)) + text() if r.random() < 0.7 else "${" + part() + "}"
    return r.choice(["", "", "", "", "String.raw", ""]) + "`" + body + "`"


def boolcmp(g):
    r = g.r
    x, v, op = g.bool(), r.choice(["true", "false"]), r.choice(["===", "!==", "==", "!="])
    e = f"{x} {op} {v}" if r.random() < 0.7 else f"{v} {op} {x}"
    if "=" in x and not x.startswith("(") or "||" in x and not x.startswith("("):
        e = f"({x}) {op} {v}" if r.random() < 0.7 else f"{v} {op} ({x})"
    return r.choice([e, e, f"!({e})", f"!!({e})", f"({e}) && log('y', 1)", f"({e}) ? 1 : 2", f"({e}) === {g.p('d', 'boolean')}", f"typeof ({e})", f"`${{{e}}}`", f"({e}) + ''", f"[{e}][0]", f"!({e} /* c */)", f"({e}).toString()", f"{g.p('n', 'number')} + +({e})", f"({e}\n)"])


def includes(g):
    r = g.r
    if r.random() < 0.3:
        p = r.choice(["/ab/", "/a\\.b/", "/\\[a\\]/", "/x\\$/", "new RegExp('ab')", "/\\n/", "/ab /", "RegExp('a')", "/\\u00e9/", "/\\//", "/'/", "re"])
        if p == "re":
            g.pre += r.choice(["const re = /ab/;\n", "const re = /a/i;\n", "const re = new RegExp('ab');\n", "const re = /a/g;\n"])
        return r.choice([f"{p}.test({g.str()})", f"!{p}.test({g.str()})", f"{p}?.test({g.str()})", f"typeof {p}.test({g.str()})", f"{p}.test({g.p('a', 'string')} + {g.p('b', 'string')})", f"{p}.test({g.p('c', 'boolean')} ? 'ab' : {g.p('a', 'string')})", f"{p}.test({g.p('a', 'string')} ?? 'x')", f"{p}.test(({g.p('a', 'string')}, {g.p('b', 'string')}))", f"{p}.test(-{g.p('n', 'number')} + 'a')"])
    kind = r.choice("ssn")
    obj = g.str() if kind == "s" else r.choice([g.p("l", "string[]"), f"log('l', {g.p('l', 'string[]')})", f"({g.p('l', 'readonly string[]')})", f"[...{g.p('l', 'string[]')}]"]) if r.random() < 0.5 else g.p("ns", "number[]")
    arg = g.p("n", "number") if obj == "ns" else g.str()
    if r.random() < 0.2:
        arg += f", {g.p('i', 'number')}"
    op = r.choice(["!== -1", "!= -1", ">= 0", "> -1", "=== -1", "== -1", "< 0", "<= -1", "!== (-1)", "=== - 1"])
    e = f"{obj}{r.choice(['', '', '', chr(10), '?'])}.indexOf({arg}) {op}"
    return r.choice([e, e, f"!({e})", f"({e}) ? 1 : 2", f"{e} && log('y', true)", f"typeof ({e})", f"({e}).toString()", f"{e} === {g.p('c', 'boolean')}"])


def starts(g):
    r = g.r
    s = r.choice(["a", "a", "o.a", "(a)", "this_", "(a + b)", "log('s', a)", "a.trim()"])
    g.p("a", "string"), g.p("b", "string")
    if "o." in s:
        g.p("o", "Obj")
    if s == "this_":
        s = "b"
    n = r.choice(["'a'", "'ab'", "'b'", "''", "'\u00e9'", "b", "'\\ud83d\\ude00'", "'a.b'", "`ab`"])
    ln = {"'a'": 1, "'ab'": 2, "'b'": 1, "''": 0, "'\u00e9'": 1, "'\\ud83d\\ude00'": 2, "'a.b'": 3, "`ab`": 2}.get(n)
    L = f"{n}.length" if ln is None or r.random() < 0.4 else str(ln)
    ops = r.choice(["===", "!==", "==", "!="])
    # `s.lastIndexOf(n) === s.length - n.length` is also true of a text one unit shorter than n, `s.slice(-0)` is all of s
    c, k = r.choice([("'a'", 1), ("'ab'", 2), ("'a.b'", 3), ("`ab`", 2)])
    M, P = r.choice([str(k), f"{c}.length"]), f"(a + 'pa.b')"
    e = r.choice([lambda: f"{s}[0] {ops} {n}", lambda: f"{s}.charAt(0) {ops} {n}", lambda: f"{s}[{s}.length - 1] {ops} {n}", lambda: f"{s}.at(-1) {ops} {n}", lambda: f"{s}.charAt({s}.length - 1) {ops} {n}", lambda: f"{s}.indexOf({n}) {ops} 0", lambda: f"{P}.lastIndexOf({c}) {ops} {P}.length - {M}",
                  lambda: f"{s}.slice(0, {L}) {ops} {n}", lambda: f"{s}.slice(-{M}) {ops} {c}", lambda: f"{s}.substring(0, {L}) {ops} {n}", lambda: f"{s}.substring({s}.length - {L}) {ops} {n}", lambda: f"{s}.substring({s}.length - {L}, {s}.length) {ops} {n}", lambda: f"{s}.slice({s}.length - {L}) {ops} {n}",
                  lambda: f"{s}.slice({s}.length - {L}, {s}.length) {ops} {n}", lambda: f"{n} {ops} {s}.slice(0, {L})", lambda: r.choice(["/^ab/", "/ab$/", "/^a\\.b/", "/^/", "/^[/]/", "/\\n$/", "/^\\$/", "new RegExp('^ab')"]) + f".test({g.str()})", lambda: f"{s}.match({r.choice(['/^ab/', '/ab$/', '/^a/m', '/^a/i'])}) {r.choice(['===', '!==', '==', '!='])} null", lambda: f"{s}?.[0] {ops} {n}", lambda: f"{s}?.slice(0, {L}) {ops} {n}"])()
    return r.choice([e, e, e, f"!({e})", f"({e}) ? 1 : 2", f"{e} && log('y', true)", f"typeof ({e})"])


def regexec(g):
    r = g.r
    s = g.str()
    a = r.choice(["/a/", "/(a)(b)?/", "/^ab/m", "'a'", "'a.b'", "'['", "'\\\\d'", "'\\n'", "'/'", "'a/b'", "'[/]b'", "'\\\\/'", "'\\u2028'", "`ab`", "re", "new RegExp('a')", "'(a)|b'", "''", "/[/]/", "x ? /a/ : /b/", g.p("rx", "RegExp")])
    if a == "re":
        g.pre += r.choice(["const re = /a/;\n", "const re = 'a';\n", "const re = new RegExp('a', 'i');\n", "const re = /a/ as RegExp;\n"])
    if "x ?" in a:
        a = a.replace("x", g.p("c", "boolean"))
    e = f"{s}.match({a})"
    return r.choice([e, e, f"{e}?.index", f"{e}?.[1]", f"{e} !== null", f"!{e}", f"{e}![0]", f"({e} ?? [])[0]", f"typeof {e}", f"!!{e}", f"[...({e} ?? [])]"])


def chain(g):
    r = g.r
    base = r.choice([("d", "Deep | undefined"), ("d", "Deep | null"), ("d", "Deep | null | undefined"), ("d", "Deep")])
    g.p(*base)
    path, steps = base[0], [base[0]]
    for _ in range(r.randint(1, 3)):
        s = r.choice([".b", ".b", ".w", "['b']", ".g(1)", ".s", ".z", ".f", ".b!"])
        path += s
        steps.append(path)
        if s in (".s", ".z", ".f"):
            if s == ".f" and r.random() < 0.7:
                steps.append(path + f"({g.p('n', 'number')})")
            elif s == ".s" and r.random() < 0.4:
                steps.append(path + ".length")
            break
    neg = r.random() < 0.3

    def check(p):
        return r.choice([p, p, p, f"{p} != null", f"{p} !== undefined", f"{p} !== null", f"{p} != undefined", f"typeof {p} !== 'undefined'", f"undefined !== {p}", f"{p} !== undefined && {p} !== null", f"!!{p}"]) if not neg else r.choice([f"!{p}", f"!{p}", f"{p} == null", f"{p} === undefined", f"{p} === null", f"{p} === undefined || {p} === null"])
    op = " || " if neg else " && "
    parts = [check(p) for p in steps[:-1]]
    if r.random() < 0.2 and len(parts) > 1:
        parts.pop(r.randrange(1, len(parts)))
    last = steps[-1]
    parts.append(r.choice([last, last, check(last), f"{last} === 'a'" if last.endswith(".s") else check(last), f"{last} !== {r.choice(['undefined', 'null', '1'])}", f"{last} == {r.choice(['0', 'null'])}", f"typeof {last} === 'string'"]) if not neg else r.choice([f"!{last}", check(last), f"{last} === undefined", f"{last} !== 'a'" if last.endswith(".s") else f"!{last}"]))
    if r.random() < 0.15:
        parts.insert(r.randrange(len(parts) + 1), g.p("c", "boolean"))
    e = op.join(parts)
    if r.random() < 0.12:
        e = f"({steps[0]} || {{}} as any){last[len(base[0]):]}"
    return r.choice([f"({e}) ? 1 : 2", f"!({e})", f"!!({e})", f"(log('i', 0), {e}) ? 1 : 2", f"!(c && ({e}))".replace("(c", f"({g.p('c', 'boolean')}"), f"({e}) ? log('y', 1) : log('n', 2)"])


def assertion(g):
    r = g.r
    x = r.choice([g.str, g.bool, lambda: g.p("n", "number"), lambda: f"{g.p('n', 'number')} + 1", lambda: g.p("o", "Obj"), lambda: f"{g.p('o', 'Obj')}.n", lambda: f"{g.p('c', 'boolean')} ? 'x' : {g.p('a', 'string')}", lambda: f"(await {g.p('pr', 'Prom')})", lambda: "'lit'", lambda: "[1, 2]", lambda: f"{g.p('u', 'string | undefined')}", lambda: f"{g.p('u', 'string | undefined')} ?? {g.p('a', 'string')}", lambda: f"{g.p('o', 'Obj')}.m()", lambda: f"-{g.p('n', 'number')}", lambda: f"new {g.p('o', 'Obj')}.C(1)", lambda: f"typeof {g.p('a', 'string')}"])()
    if "await" in x:
        g.async_ = True
    t = r.choice(["string", "number", "boolean", "Obj", "string | undefined", "'lit'", "const", "number[]"])
    e = r.choice([lambda: f"({x})!", lambda: f"({x}) as {t}", lambda: f"<{t}>({x})", lambda: f"{x} as {t}", lambda: f"<{t}>{x}", lambda: f"<{t}>\n{x}", lambda: f"{x}!" if " " not in x else f"({x})!", lambda: f"({x} as {t})", lambda: f"(<{t}>{x})"])()
    return r.choice([e, e, f"({e})", f"({e}) + ''", f"typeof ({e})", f"!({e})", f"[{e}]", f"({e})?.toString()", f"({e}) ? 1 : 2", f"{g.p('c', 'boolean')} && ({e})", f"({{ v: {e} }})", f"(() => {e})()", f"({e} /* c */)", f"`${{{e}}}`"])


def voids(g):
    r = g.r
    f = g.p("v", "Void")
    x = r.choice([f"{f}()", f"{f}?.()", f"({f}(), {f}())", f"(undefined)", f"log('u', undefined)", f"({g.p('c', 'boolean')} ? {f}() : undefined)", f"(() => {{ {f}() }})()", f"({g.p('c', 'boolean')} && undefined)", "function () {}()", "{}.u", "(function () {})()", f"new {g.p('o', 'Obj')}.C(1) && undefined"])
    e = f"void {x}"
    return r.choice([e, e, f"({e})", f"[{e}]", f"typeof ({e})", f"typeof void {x}", f"void void {x}", f"void\n{x}", f"({e}, 1)", f"{g.p('c', 'boolean')} ? {e} : undefined", f"({e}) ?? 2", f"!void {x}", f"(() => {e})()", f"(() => {{ {e}; }})()", f"void/**/{x}", f"(() => {{ if (c) {e}; else {f}(); }})()".replace("if (c)", f"if ({g.p('c', 'boolean')})")])


def typeargs(g):
    r = g.r
    g.pre += "function id<T = string, U = number>(x?: T, y?: U) { return [x, y] as const } class K<T = string> { constructor(readonly v?: T) {} static s<T = string>(this: void, x: T) { return x } } const tag = <T = string>(s: TemplateStringsArray, ...x: T[]) => s.raw.join('|');\n"
    return r.choice([f"id<string>({g.str()})", "id<string, number>()", f"id<string, number>({g.str()}, {g.p('n', 'number')})", "new K<string>", "new K<string>()", "new K<string>('a').v", "new K<string>", "K.s<string>('x')", f"tag<string>`a${{{g.p('a', 'string')}}}b`", "id<string>\n('x')", "id<number, number>(1)", "id<string /* c */>('x')", "id < string > ('x')", "(id<string>)('x')", "new (K<string>)('q')",
                     f"{g.p('l', 'string[]')}.reduce((p, c) => p.concat(c), [] as string[])", f"{g.p('l', 'string[]')}.reduce((p, c) => ({{ ...p, [c]: 1 }}), {{}} as Record<string, number>)", f"{g.p('l', 'string[]')}.reduce((p, c) => p + c.length, 0 as number)", f"{g.p('l', 'string[]')}.reduce((p, c) => p, <string>{g.str()})", f"{g.p('l', 'string[]')}.reduce((p, c) => p, (log('i', 'q') as string))"])


def awaits(g):
    r = g.r
    g.async_ = True
    p = r.choice([lambda: g.p("pr", "Prom"), lambda: f"log('p', {g.p('pr', 'Prom')})", lambda: f"({g.p('c', 'boolean')} ? {g.p('pr', 'Prom')} : 5)", lambda: f"{g.p('n', 'number')}", lambda: f"(async () => {{ log('in', 0); return {g.p('a', 'string')} }})()", lambda: f"Promise.resolve({g.p('o', 'Obj')}.k)", lambda: f"{g.p('pr', 'Prom')}.then(x => x + 1)"])()
    e = r.choice([f"await {p}", f"await {p}", f"await\n{p}", f"(await {p})", f"await ({p})", p, f"{g.p('c', 'boolean')} ? await {p} : 2", f"{g.p('c', 'boolean')} && await {p}", f"{g.p('c', 'boolean')} || (await {p})", f"(log('s', 1), await {p})", f"await ({p}, {p})", f"{g.p('u', 'string | undefined')} ?? await {p}"])
    return e


def defaults(g):
    r = g.r
    d = r.choice(["log('d', 1)", "1", "'x'", "undefined", "(log('d', 2), undefined)"])
    return r.choice([lambda: f"(({{ k = {d} }}: {{ k: number }}) => k)({g.p('o', 'Obj')})", lambda: f"(([x = {d}]: [number]) => x)([{g.p('n', 'number')}])", lambda: f"{g.p('ns', 'number[]')}.map((x = {d}) => x)", lambda: f"{g.p('ns', 'number[]')}.map((x, i = {d}) => i)", lambda: f"((x: number | undefined = undefined) => x)({g.p('z', 'number | undefined')})",
                     lambda: f"(() => {{ const {{ a = {d}, ...rest }} = {g.p('o', 'Obj')}; return [a, Object.keys(rest).length]; }})()", lambda: f"(() => {{ const [x = {d}, y = 2] = [{g.p('n', 'number')}] as const; return [x, y]; }})()", lambda: f"(({{ k: z = {d} }}: {{ k: number }}) => z)({g.p('o', 'Obj')})", lambda: f"(({{ n = undefined }}: {{ n?: object }}) => n)({g.p('o', 'Obj')})",
                     lambda: f"(({{ n: {{ a = {d} }} = {{ a: 'y' }} }}: Obj) => a)({g.p('o', 'Obj')})", lambda: f"((x: number, y: string | undefined = undefined) => [x, y])({g.p('n', 'number')}, {g.p('u', 'string | undefined')})", lambda: f"(({{ ['k']: z = {d} }}: {{ k: number }}) => z)({g.p('o', 'Obj')})", lambda: f"(() => {{ let k; ({{ k = {d} }} = {g.p('o', 'Obj')}); return k; }})()"])()


GEN = {"dot-notation": dot_notation, "no-unnecessary-template-expression": template, "no-unnecessary-boolean-literal-compare": boolcmp, "prefer-includes": includes, "prefer-string-starts-ends-with": starts, "prefer-regexp-exec": regexec, "prefer-optional-chain": chain, "prefer-reduce-type-parameter": typeargs,
       "no-unnecessary-type-assertion": assertion, "no-unnecessary-type-arguments": typeargs, "no-meaningless-void-operator": voids, "non-nullable-type-assertion-style": assertion, "return-await": awaits, "no-useless-default-assignment": defaults}


def body(g, e, rule):
    r = g.r
    if rule == "return-await":
        return r.choice([f"return {e};"] * 3 + [f"if ({g.p('c', 'boolean')}) return {e}; log('n', 0); return {e};", f"return (async () => {e})();", f"const h = async () => {{ return {e} }}; return [await h(), log('q', 1)];", f"return {e}\n;", f"log('x', 0); return ({e});", f"switch ({g.p('n', 'number')}) {{ case 1: return {e}; default: return {e} }}", f"for (const q of [1]) return {e}; return 0;"])
    return r.choice([f"return {e};"] * 5 + [f"const r = {e}; return [r, log('z', 1)];", f"if ({e}) return log('t', 1); else return log('e', 2);", f"return [{e}, log('z', 1)];", f"log('z', 0); {r.choice(['', 'return '])}{e}", f"return log('w', {e});", f"let r = 0; while ({e}) {{ if (r++ > 1) break; log('l', r); }} return r;", f"return (() => {e})();", f"return [1, 2].map(() => {e});", f"log('y', 1)\n{e}", f"return {{ v: {e}, ...{{}} }};", f"return{e if e[0] in WORDLESS else ' ' + e};", f"return `${{{e}}}`;" if "`" not in e else f"return {e};", f"return typeof{e if e[0] in WORDLESS else ' ' + e};", f"return ({e}) as unknown;", f"switch (true) {{ case !!({e}): return 1; default: return 2 }}", f"for (let i = 0; i < 1; i++) {{ {e}; }} return 0;", f"return (log('a', 0), {e});", f"try {{ return {e}; }} finally {{ log('fin', 0); }}"])


def program(r, rule):
    g = G(r)
    e = GEN[rule](g)
    b = body(g, e, rule)
    if "await " in b:
        g.async_ = True
    ps = list(g.params.items())
    code = HEAD + TYPES + g.pre + f"export {'async ' if g.async_ else ''}function f({', '.join(f'{n}: {t}' for n, t in ps)}) {{\n  {b}\n}}\n"
    return code, [t for _, t in ps]


def generate(r, n):
    out = []
    while len(out) < n:
        rule = r.choice(RULES)
        code, ts = program(r, rule)
        out.append({"rule": rule, "code": code, "inputs": [", ".join(value(r, t) for t in ts) for _ in range(6)]})
    return out


WORDLESS = "([`/!'\"-<"
COLLAPSE = ("prefer-optional-chain", "prefer-string-starts-ends-with")  # `a.b && a.b.c` -> `a.b?.c`: what is written twice is evaluated once


def once(o):
    return [o[0], list(dict.fromkeys(o[1].split(" ")))]


PRE = re.compile(r"^.*?(?=export )", re.S)


def evaluate(cases):
    its = [item(c["code"], {c["rule"]: None}, {"noUncheckedIndexedAccess": False}) for c in cases]
    first = tsgolint(BIN["x"], its, types=True, args=["--fix"])
    live, after = [], {}
    for i, (c, a) in enumerate(zip(cases, first)):
        if "crash" in a or a["types"]:
            continue
        if any(d.get("fixes") for d in a["diags"]):
            live.append(i)
    st_ = fix_all(lambda xs: tsgolint(BIN["x"], xs, args=["--fix"]), [its[i] for i in live])
    asks, who = [], []
    for i, s in zip(live, st_):
        if s["crash"] or s.get("bad") or not s["texts"]:
            continue
        who.append(i)
        asks.append({"texts": [cases[i]["code"], *s["texts"]], "inputs": cases[i]["inputs"]})
    res = [x for rr in oracle().map([{"op": "behave", "groups": asks[k : k + 40]} for k in range(0, len(asks), 40)]) for x in rr["res"]]
    got = {i: (a, x) for i, a, x in zip(who, asks, res)}
    out = []
    for i, c in enumerate(cases):
        if i not in got:
            out.append(Verdict(labels=("does not compile" if first[i].get("types") else "no fix",)))
            continue
        a, x = got[i]
        fail = None
        if "bad" in x:
            fail = f"the fixed program does not run: {x['bad']}\n{a['texts'][-1]}"
        else:
            for inp, row in zip(c["inputs"], x["rows"]):
                for k, o in enumerate(row[1:]):
                    if o != row[0] and not (c["rule"] in COLLAPSE and (once(o) == once(row[0]) or row[0][0] == "throws TypeError")):  # a false `x!` throws
                        fail = fail or f"f({inp}): before {row[0]}, after {o}\n" + PRE.sub("", c["code"]) + "\n" + PRE.sub("", a["texts"][k + 1])
        out.append(Verdict(fail=c["rule"] + ": " + fail if fail else None, key=canon([c["rule"], PRE.sub("", c["code"])]), labels=(c["rule"],), signature=signature(c["rule"], fail or "", c["code"])))
    return out


def signature(rule, fail, before):
    """Known findings are told apart by what the wrong fix looks like."""
    if rule == "no-unnecessary-template-expression" and "Octal escape" in fail:
        return rule + ":null-escape"
    if rule == "prefer-optional-chain" and re.search(r"\|\|", before.partition("export ")[2]):
        return rule + ":or-chain"
    return rule


def reduce(c):
    if len(c["inputs"]) > 1:
        for i in c["inputs"]:
            yield {**c, "inputs": [i]}
    for x in reduce_code({"code": c["code"], "ext": ".ts", "rules": {}, "opts": {}}):
        yield {**c, "code": x["code"]}


def make():
    chk = Check("C29", "a typed function built around an expression that one of the rules rewrites - over random operands (parameters, logged calls, conditionals, sequences, awaited values), in random contexts (returns, conditions, operators, templates, statements without semicolons, loops, try) - that compiles without errors and gets at least one automatic fix; the function before and after every pass of fixes is run in Node on six argument lists of the declared types, whose property reads, writes and calls are logged: the same value or kind of error and the same log. Non-trivial = a fix was applied and the program ran.",
                setup=setup, assumptions=["default options of the rules", "arguments are of the declared types; no NaN in arrays searched by indexOf"])
    chk.add(GProp("behaviour", generate, evaluate, lambda c: list(reduce(c)), quick=24000, thorough=300000, batch=12000))
    return chk
