"""The shim generator covers every eligible symbol of any package."""
from concurrent.futures import ThreadPoolExecutor
from vf.pbt import *

PKGS = ["core", "tspath", "jsnum", "ast", "lsp/lsproto", "scanner", "parser", "vfs", "vfs/cachedvfs", "vfs/osvfs", "bundled", "tsoptions", "checker", "compiler", "project"]
ST = {}
BASE = "github.com/microsoft/typescript-go/"


def setup():
    ST.update(build("shimcheck", "gen_shims"))
    ST["cache"] = scratch("gocache")


# ---------------------------------------------------------------- packages
class Pkg:
    def __init__(self, path, r, before):
        self.path, self.r, self.before = path, r, before
        self.name = path.split("/")[-1] if r.random() < 0.9 else "p" + path.split("/")[-1]
        self.decls, self.imports = [], set()
        self.types = []          # exported non-generic named types usable elsewhere: (name, kind)
        self.generic = []        # (name, [constraint kinds])
        self.hidden = []         # unexported named types
        self.constraints = []    # exported constraint interfaces
        self.extra = {"ExtraFunctions": [], "ExtraMethods": {}, "ExtraFields": {}, "IgnoreFunctions": []}
        self.n = 0

    def fresh(self, up=True):
        self.n += 1
        r = self.r
        stem = r.choice(["Get", "Is", "Node", "Type", "parse", "HTTP", "x", "Set_", "T_", "\u00e9t", "value2", "A"]) + str(self.n) + r.choice(["", "", "Of", "_x", "Id"])
        return (stem[0].upper() if up else stem[0].lower()) + stem[1:]

    def basic(self):
        return self.r.choice(["int", "string", "bool", "uint8", "int64", "float64", "uint32", "byte", "rune", "error", "any", "complex128", "uintptr"])

    def q(self, p, n):
        if p is self:
            return n
        self.imports.add(BASE + "internal/" + p.path)
        return p.name + "." + n

    def key(self):
        return self.r.choice(["string", "int", "rune", "[2]int"])

    def exported(self, ok=lambda k: True):
        pool = [(p, n, k) for p in [self, *self.before] for n, k in p.types if ok(k)]
        return self.r.choice(pool) if pool else None

    def ty(self, depth=0, hidden=0.0):
        """A type written in this package; `hidden`: chance of an unexported part."""
        r = self.r
        if hidden and self.hidden and r.random() < hidden:
            h = r.choice(self.hidden)[0]
            return r.choice([h, "*" + h, "[]" + h, "map[string]" + h, "func(" + h + ")", "func() *" + h, "**" + h])
        w = r.random()
        if depth > 2 or w < 0.35:
            return self.basic()
        if w < 0.6:
            e = self.exported()
            if e:
                return r.choice(["", "*", "*", "[]", "[]*"]) + self.q(e[0], e[1])
            return self.basic()
        if w < 0.68:
            pool = [(p, g) for p in [self, *self.before] for g in p.generic]
            if pool:
                p, g = r.choice(pool)
                args = ["int" if c == "num" else self.key() if c == "comparable" else self.ty(depth + 1) for c in g[1]]
                return r.choice(["", "*"]) + self.q(p, g[0]) + "[" + ", ".join(args) + "]"
            return "string"
        if w < 0.73:
            std = r.choice([("context", "context.Context"), ("sync", "*sync.Mutex"), ("io", "io.Writer"), ("time", "time.Duration"), ("iter", "iter.Seq[int]"), ("strings", "*strings.Builder")])
            self.imports.add(std[0])
            return std[1]
        return r.choice([lambda: "[]" + self.ty(depth + 1, hidden), lambda: "map[" + self.key() + "]" + self.ty(depth + 1, hidden), lambda: "*" + self.ty(depth + 1, hidden),
                         lambda: "[3]" + self.ty(depth + 1, hidden), lambda: "func(" + self.ty(depth + 1, hidden) + ", ..." + self.ty(depth + 1) + ") " + self.ty(depth + 1, hidden),
                         lambda: r.choice(["chan ", "<-chan ", "chan<- "]) + self.basic(), lambda: "struct{ A " + self.ty(depth + 1) + "; B string `json:\"b,omitempty\"` }",
                         lambda: "interface{ M(" + self.ty(depth + 1) + ") int }", lambda: "func()"])()

    def signature(self, hidden=0.0):
        """(parameters, results, body) of a function whose answer depends on its arguments."""
        r = self.r
        n = r.choice([0, 1, 1, 2, 2, 3])
        named = r.random() < 0.85
        ps, body = [], []
        for i in range(n):
            t = self.ty(0, hidden)
            if i == n - 1 and r.random() < 0.2:
                t = "..." + t
            nm = r.choice([f"a{i}"] * 4 + ["_", "recv" + str(i), "core", "unsafe"]) if named else ""
            if nm != "_" and named and any(nm == p[0] for p in ps):
                nm = f"a{i}"
            ps.append((nm, t))
        rs = [self.ty(0, hidden if r.random() < 0.5 else 0.0) if r.random() < 0.4 else r.choice(["int", "string", "bool", "error", "[]int"]) for _ in range(r.choice([0, 1, 1, 1, 2, 3]))]
        uid = r.randrange(1, 10**6)
        for i, t in enumerate(rs):
            same = [p for p in ps if p[0] not in ("", "_") and p[1] == t]
            ints = [p[0] for p in ps if p[1] == "int" and p[0] not in ("", "_")]
            strs = [p[0] for p in ps if p[1] == "string" and p[0] not in ("", "_")]
            if same and r.random() < 0.7:
                body.append(f"r{i} = {same[0][0]}")
            elif t == "int":
                body.append(f"r{i} = {uid}" + "".join(f" + {r.randint(2, 9)}*{x}" for x in ints) + "".join(f" + len({x})" for x in strs))
            elif t == "string":
                body.append(f'r{i} = "f{uid}"' + "".join(f" + {x}" for x in strs))
            elif t == "bool":
                body.append(f"r{i} = {' && '.join([f'{x} > {r.randint(-3, 20)}' for x in ints] or ['true'])}")
            elif t == "[]int":
                body.append(f"r{i} = []int{{{', '.join([str(uid)] + ints)}}}")
            elif t == "error":
                self.imports.add("errors")
                body.append(f'r{i} = errors.New("e{uid}")')
        res = ""
        if rs:
            res = " (" + ", ".join(f"r{i} {t}" for i, t in enumerate(rs)) + ")"
            body.append("return")
        return "(" + ", ".join((p[0] + " " + p[1]).strip() for p in ps) + ")" + res, "{\n\t" + "\n\t".join(body) + "\n}" if body else "{}", ps, rs

    def make(self, size):
        r = self.r
        for _ in range(r.randint(1, 3)):
            n = self.fresh(False)
            k = r.choice(["struct", "struct", "basic", "func", "iface", "slice"])
            self.decls.append(f"type {n} " + {"struct": "struct {\n\ta int\n\tb string\n\tc *" + n + "\n}", "basic": r.choice(["int32", "uint64", "uint8", "string"]), "func": "func(int) string", "iface": "interface{ m() int }", "slice": "[]int"}[k])
            self.hidden.append((n, k))
        for _ in range(size):
            w = r.random()
            if w < 0.16:
                self.struct()
            elif w < 0.24:
                n = self.fresh()
                k = r.choice(["basic", "func", "iface", "map", "slice"])
                t = {"basic": r.choice(["int", "uint16", "string", "bool"]), "func": "func(" + self.ty(1) + ") " + self.ty(1), "iface": "interface{ Do(x " + self.ty(1) + ") " + self.ty(1) + " }", "map": "map[string]" + self.ty(1), "slice": "[]" + self.ty(1)}[k]
                self.decls.append(f"type {n} {t}")
                self.types.append((n, k))
                if k == "basic" and r.random() < 0.6:
                    self.methods(n, False)
            elif w < 0.30:
                n = self.fresh()
                e = self.exported()
                self.decls.append(f"type {n} = " + (r.choice(["", "*", "[]"]) + self.q(e[0], e[1]) if e and r.random() < 0.7 else self.ty(1)))
            elif w < 0.36:
                n = self.fresh()
                self.decls.append(f"type {n} interface {{ ~int | ~string | ~uint64 }}")
                self.constraints.append(n)
            elif w < 0.46:
                n = self.fresh()
                cs, kinds = [], []
                for i in range(r.choice([1, 1, 2, 3])):
                    k = r.choice(["any", "any", "comparable", "num", "fmt"])
                    pool = [(p, c) for p in [self, *self.before] for c in p.constraints]
                    if k == "num":
                        c = self.q(*r.choice(pool)) if pool else "~int | ~int64"
                    elif k == "fmt":
                        self.imports.add("fmt") if False else None
                        k, c = "any", "any"
                    else:
                        c = k
                    cs.append(("TKVU"[i] + r.choice(["", "1"]), c))
                    kinds.append(k)
                names = [c[0] for c in cs]
                fields = "\n\t".join(f"F{i} {r.choice(['', '*', '[]'])}{c}" for i, c in enumerate(names))
                params = ", ".join(f"{a} {b}" for a, b in cs)
                form = r.random()
                if form < 0.7:
                    self.decls.append(f"type {n}[{params}] struct {{\n\t{fields}\n}}")
                    self.decls.append(f"func (x *{n}[{', '.join(names)}]) Get() int {{ return {self.n} }}")
                elif form < 0.85:
                    self.decls.append(f"type {n}[{params}] func({', '.join(names)}) {names[0]}")
                else:
                    self.decls.append(f"type {n}[{params}] = struct{{ A {names[0]}; B []{names[-1]} }}")
                self.generic.append((n, kinds))
            elif w < 0.58:
                n = self.fresh(r.random() < 0.8)
                e = self.exported(lambda k: k == "basic")
                v = r.choice(["1", "-7", "1 << 40", "1 << 70", "0x7fff", "3.25", "1e100", "'x'", "'\\u00e9'", '"a\\"b\\x00\\u2028"', "`raw`", "true", "2 + 3i", '""', "0", "len(\"abc\")", "1.0"])
                t = r.choice(["", "", ""] + (["int64"] if v in ("1", "-7", "1 << 40", "0x7fff", "0") else []))
                if e and e[0] is self and False:
                    t = e[1]
                self.decls.append(f"const {n} {t} = {v}")
            elif w < 0.62:
                t = self.fresh()
                self.decls.append(f"type {t} {r.choice(['int', 'uint32', 'uint8'])}")
                self.types.append((t, "basic"))
                names = [self.fresh() for _ in range(r.randint(1, 4))]
                self.decls.append("const (\n\t" + f"{names[0]} {t} = " + r.choice(["iota", "1 << iota", "iota + 3"]) + "".join("\n\t" + x for x in names[1:]) + "\n)")
            elif w < 0.72:
                n = self.fresh(r.random() < 0.8)
                h = [x for x, k in self.hidden if k == "struct"]
                self.decls.append(f"var {n}" + r.choice([f" = {r.randint(0, 99)}", f' = "v{r.randint(0, 99)}"', " = map[string]int{\"a\": 1}", " = []string{\"x\", \"y\"}", " = func(x int) int { return x + " + str(r.randint(1, 9)) + " }", " " + self.ty(), " = [2]int{3, 4}", " = new(int)"] + ([f" = &{h[0]}{{a: {r.randint(1, 9)}}}", f" = {h[0]}{{a: {r.randint(1, 9)}}}"] if h else [])))
            elif w < 0.76:
                up = r.random() < 0.7
                n = self.fresh(up)
                self.decls.append(f"func {n}[T any](x T) T {{ return x }}")
            else:
                up = r.random() < 0.65
                n = self.fresh(up)
                hid = r.random() < 0.2
                sig, body, ps, rs = self.signature(0.5 if hid else 0.0)
                self.decls.append(f"func {n}{sig} {body}")
                if up and r.random() < 0.12:
                    self.extra["IgnoreFunctions"].append(n)
                elif not up and not hid and r.random() < 0.6:
                    self.extra["ExtraFunctions"].append(n)

    def struct(self):
        r = self.r
        n = self.fresh()
        fields, names = [], []
        self.types.append((n, "struct"))
        for i in range(r.randint(0, 7)):
            if r.random() < 0.12:
                e = self.exported(lambda k: k in ("struct", "basic"))
                if e and e[1] != n and e[1] not in names:
                    fields.append(r.choice(["", "*"] if e[0] is not self else ["*"]) + self.q(e[0], e[1]))
                    names.append(e[1])
                    continue
                hs = [h for h, k in self.hidden if k == "struct" and h not in names]
                if hs:
                    fields.append("*" + hs[0])
                    names.append(hs[0])
                    continue
            f = ("F" if r.random() < 0.3 else "f") + str(i) + r.choice(["", "x", "_y"])
            if r.random() < 0.06:
                f = "_"
            t = self.ty(0, 0.0 if r.random() < 0.8 else 0.5)
            if t in (n, "[3]" + n) or (n in t and not re.search(r"[*\]]" + n, t)):
                t = "*" + n
            fields.append(f"{f} {t}")
            if f != "_":
                names.append(f)
        self.decls.append(f"type {n} struct {{\n\t" + "\n\t".join(fields) + "\n}")
        hidden = {h for h, _ in self.hidden}
        ask = [f.split(" ")[0] for f in fields if " " in f and f.split(" ")[0] != "_" and not any(re.search(r"\b" + h + r"\b", f.split(" ", 1)[1]) for h in hidden)]
        if ask and r.random() < 0.6:
            self.extra["ExtraFields"][n] = r.sample(ask, r.randint(1, len(ask)))
        if r.random() < 0.7:
            self.methods(n, True)

    def methods(self, n, struct):
        r = self.r
        chosen = []
        for _ in range(r.randint(1, 3)):
            m = self.fresh(r.random() < 0.5)
            sig, body, ps, rs = self.signature()
            ptr = r.random() < 0.6
            rn = r.choice(["x0", "x0", "_", ""])
            self.decls.append(f"func ({rn} {'*' if ptr else ''}{n}) {m}{sig} {body}".replace("( ", "("))
            if r.random() < 0.6:
                chosen.append(m)
        if chosen:
            self.extra["ExtraMethods"][n] = chosen


def world(r, size):
    ps, out = [], {}
    for path in PKGS:
        p = Pkg(path, r, list(ps))
        p.make(r.randint(size // 2, size))
        ps.append(p)
        out[path] = {"name": p.name, "imports": sorted(p.imports), "decls": p.decls, "extra": p.extra}
    return out


def generate(r, n):
    out = []
    for i in range(n):
        w = world(r, r.choice([2, 6, 14, 20]))
        c = {"pkgs": w, "seed": r.randrange(1 << 30), "bad": None}
        if i % 6 == 5:
            p = r.choice(PKGS)
            e = w[p]["extra"]
            kind = r.choice(["ExtraFunctions", "ExtraMethods", "ExtraMethods type", "ExtraFields", "ExtraFields type"])
            gone = "no" + str(r.randint(1, 99))
            if kind == "ExtraFunctions":
                e[kind].append(gone)
            elif kind.endswith("type"):
                e[kind[:-5]]["No" + gone] = [gone]
            else:
                have = [t for t in e[kind]] or re.findall(r"^type ([A-Z]\w*) struct", "\n".join(w[p]["decls"]), re.M)
                if have:
                    e[kind].setdefault(r.choice(have), []).append(gone)
                else:
                    kind = "ExtraFunctions"
                    e[kind].append(gone)
            c["bad"] = f"{kind} of {p}"
        out.append(c)
    return out


def source(p):
    body = "\n\n".join(p["decls"])
    out = [f"package {p['name']}", ""]
    for i in p["imports"]:
        nm = i.split("/")[-1]
        if re.search(r"\b" + nm + r"\.", body) or re.search(r"\bp" + nm + r"\.", body):
            out.append(f'import "{i}"')
    return "\n".join(out) + "\n\n" + body + "\n"


def go(args, d, env, timeout=240):
    return subprocess.run(args, cwd=d, env=env, capture_output=True, text=True, timeout=timeout)


def run_case(c):
    """(what is wrong or None, symbols compared, non-trivial ones, problem with the input or None)"""
    d = scratch("w")
    try:
        env = dict(go_env(), GOCACHE=ST["cache"], GOMAXPROCS="3")
        files = {"tsgo/go.mod": "module github.com/microsoft/typescript-go\n\ngo 1.26\n",
                 "shim/go.mod": "module github.com/microsoft/typescript-go/shim\n\ngo 1.26\n\nrequire github.com/microsoft/typescript-go v0.0.0\n\nreplace github.com/microsoft/typescript-go => ../tsgo\n",
                 "tsgo/verifshim/rt.go": open(VERIF + "/go/shimrt/rt.go").read()}
        for p, w in c["pkgs"].items():
            files[f"tsgo/internal/{p}/x.go"] = source(w)
            files[f"shim/{p}/extra-shim.json"] = json.dumps({k: v for k, v in w["extra"].items() if v})
        write_tree(d, files)
        r = go([GOROOT + "/bin/go", "build", "./internal/..."], d + "/tsgo", env)
        if r.returncode:
            return None, 0, 0, "the generated packages do not compile: " + r.stderr[:1500]
        r = go([ST["gen_shims"]], d, env)
        if c["bad"]:
            if r.returncode == 0:
                return f"asked for something that does not exist ({c['bad']}), the generator succeeds", 1, 1, None
            return None, 1, 1, None
        if r.returncode:
            return f"the generator fails: exit status {r.returncode}: {(r.stdout + r.stderr)[-1500:]}", 0, 0, None
        os.makedirs(d + "/tsgo/verifshim", exist_ok=True)
        r = go([ST["shimcheck"], "-dir", d + "/shim", "-pkgs", ",".join(PKGS), "-shims", d + "/shim", "-out", d + "/tsgo/verifshim/main.go"], d, env)
        o = json.loads(r.stdout)
        if o["error"]:
            return "the generated shim does not compile: " + o["error"].replace(d, "")[:1500], 0, 0, None
        n = len(o["static"] or [])
        for f in o["static"] or []:
            if f["what"]:
                return f"{f['pkg']}.{f['name']}: {f['what']}", n, n, None
        r = go([GOROOT + "/bin/go", "build", "-o", d + "/cmp", "github.com/microsoft/typescript-go/verifshim"], d + "/shim", env)
        if r.returncode:
            return "a program using the shims does not build: " + r.stderr.replace(d, "")[:1500], n, n, None
        ask = [{"Key": f["pkg"] + " " + f["name"], "Seed": c["seed"] + i, "Calls": "all"} for f in o["runtime"] or [] for i in range(6)]
        r = subprocess.run([d + "/cmp"], input="".join(json.dumps(a) + "\n" for a in ask), capture_output=True, text=True, timeout=200)
        got = [json.loads(l) for l in r.stdout.splitlines()]
        if len(got) < len(ask):
            return f"calling {ask[len(got)]['Key']} ends the process: {r.stderr[:600]}", n, n, None
        for a, g in zip(ask, got):
            if g["how"].startswith("harness"):
                raise Inconclusive(g["how"])
            if g.get("fail"):
                return f"{a['Key']}: {g['fail']}", n, n, None
        return None, n + len(got), n + sum(not g.get("trivial") for g in got), None
    finally:
        shutil.rmtree(d, True)


COUNT = collections.Counter()


def evaluate(cases):
    with ThreadPoolExecutor(6) as ex:
        res = list(ex.map(run_case, cases))
    out = []
    for c, (what, n, k, bad) in zip(cases, res):
        COUNT.update(symbols=n, nontrivial_symbols=k, invalid=bad is not None)
        if bad:
            log(bad)
        kinds = []
        out.append(Verdict(fail=what, key=canon(c) if k else None, labels=("nonexistent extra" if c["bad"] else "invalid" if bad else "packages",), signature=re.sub(r"\d+", "0", what or "")[:60]))
    return out


def reduce(c):
    ps = c["pkgs"]
    for p in ps:
        if ps[p]["decls"] and len(ps[p]["decls"]) > 1:
            yield {**c, "pkgs": {**ps, p: {**ps[p], "decls": [], "extra": {k: type(v)() for k, v in ps[p]["extra"].items()}}}} if not c["bad"] else {**c, "pkgs": {**ps, p: {**ps[p], "decls": []}}}
    for p in ps:
        for i in reversed(range(len(ps[p]["decls"]))):
            yield {**c, "pkgs": {**ps, p: {**ps[p], "decls": ps[p]["decls"][:i] + ps[p]["decls"][i + 1:]}}}


def make():
    c = Check("C33", "a generated module: 15 packages of generated types (generic, alias, struct with hidden parts, embedded fields), constants, variables, functions and methods that import one another, with generated requests for extra functions, methods, fields and ignored functions; the project's generator is run over it, its output compiled, compared symbol by symbol and called. Every sixth case asks for something that does not exist. Non-trivial = at least one symbol compared", setup)
    c.extra = COUNT
    c.add(GProp("packages", generate, evaluate, lambda c: list(reduce(c)), quick=180, thorough=2500, batch=60, shrink_s=150))
    return c
