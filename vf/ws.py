"""Generated workspaces: several projects of module files built from corpus snippets, plus lint jobs."""
from hypothesis import strategies as st
from .lint import *
from .gen import *

ALL = rules()
OPTS = collections.defaultdict(list)
for _c in corpus():
    if _c["Options"] is not None and not any(_c["Options"] == o for o in OPTS[_c["Rule"]]):
        OPTS[_c["Rule"]].append(_c["Options"])
# snippets usable as a module of any program: no other files, no ambient declarations leaking out
MODS = [c for c in corpus() if len(c["Code"]) <= 1200 and not c["Files"] and not re.search(r"declare\s+(global|module)|^\s*///|from\s+['\"]\.|import\(|require\(|@ts-|export\s*=|export as", c["Code"])]
BY = collections.defaultdict(list)
for _c in MODS:
    BY[_c["Rule"]].append(_c)
INV = {r: [c for c in v if c["Kind"] == "invalid"] or v for r, v in BY.items()}
COMPILER = [{}, {}, {"strict": False}, {"strictNullChecks": False}, {"noUncheckedIndexedAccess": True}, {"exactOptionalPropertyTypes": True}, {"noImplicitThis": False}, {"target": "es2015", "lib": ["es2015"]}, {"target": "es2015", "lib": ["es2015", "dom"]}]


@st.composite
def module(draw, names=None, n=None):
    """(extension, text) of a module made of 1-3 snippets of (mostly) invalid cases; now and then a file without statements"""
    segs, tsx = [], False
    if draw(st.integers(0, 11)) == 0:
        return draw(st.sampled_from([".ts", ".mts", ".tsx"])), draw(st.sampled_from(["", "", "// nothing\n", "/* */", "\n\n", "export {};\n", ";"]))
    for _ in range(n or draw(st.integers(1, 3))):
        r = draw(st.sampled_from(names or ALL))
        pool = INV[r] if draw(st.integers(0, 4)) else BY[r]
        c = pool[draw(st.integers(0, len(pool) - 1))]
        tsx = tsx or c["fn"].endswith("x")
        segs.append(c["Code"] if not segs or draw(st.booleans()) else "{\n" + c["Code"] + "\n}" if not re.search(r"\b(import|export)\b", c["Code"]) else c["Code"])
    return (".tsx" if tsx else draw(st.sampled_from([".ts", ".ts", ".ts", ".mts", ".cts"]))), "\n".join(segs) + "\nexport {};\n"


def rule_entries(draw, names=ALL, allp=3):
    if draw(st.integers(0, allp)):
        ns = list(names)
    else:
        ns = draw(st.lists(st.sampled_from(names), min_size=1, max_size=6, unique=True))
    out = []
    for n in ns:
        o = OPTS.get(n)
        k = draw(st.integers(0, len(o) + 2)) if o else 99
        out.append([n, o[k]] if o and k < len(o) else [n, None])
    return out


@st.composite
def workspace(draw, max_projects=3, max_files=3, inferred=False, names=None):
    """{'projects': [{'dir','opts','files':{name:text}}], 'loose': {name:text}}: every file is a module"""
    ps = []
    for i in range(draw(st.integers(1, max_projects))):
        files = {}
        for j in range(draw(st.integers(1, max_files))):
            ext, text = draw(module(names))
            files[f"f{j}{ext}"] = text
        ps.append({"dir": f"p{i}", "opts": draw(st.sampled_from(COMPILER)), "files": files})
    w = {"projects": ps, "loose": {}}
    if inferred:
        for j in range(draw(st.integers(0, 2))):
            ext, text = draw(module(names))
            w["loose"][f"loose/l{j}{ext}"] = text
    return w


def tree(w):
    t = dict(w["loose"])
    for p in w["projects"]:
        t[p["dir"] + "/tsconfig.json"] = tsconfig({**DEFAULT_OPTS, **p["opts"]}, files=list(p["files"]))
        for n, x in p["files"].items():
            t[f"{p['dir']}/{n}"] = x
    return t


def paths(w):
    return [f"{p['dir']}/{n}" for p in w["projects"] for n in p["files"]] + list(w["loose"])


def request(root, jobs, **kw):
    """jobs: [[path, [[rule, opts]...]]...]"""
    return {"version": 2, "configs": [{"file_paths": [f"{root}/{p}"], "rules": [rule_entry(n, o) for n, o in rs]} for p, rs in jobs], **kw}


CALL_ASSERT = re.compile(r"[)`]!?\s*as\b|>\s*(await\b|new\b|[\w.(]+[^;\n]*[(`])")


def settle(w, jobs):
    """Leaves out no-unnecessary-type-assertion where a call might be asserted: known finding ctxfree
    (it resolves such calls without their context, and the checker keeps that for all other rules)."""
    texts = {**w["loose"], **{f"{p['dir']}/{n}": t for p in w["projects"] for n, t in p["files"].items()}}
    return [[p, [r for r in rs if r[0] != "no-unnecessary-type-assertion" or not CALL_ASSERT.search(texts[p])]] for p, rs in jobs]


TYPES = ["string", "number", "any", "Promise<void>", "string | null", "string[]", "{ a: number }", "(() => Promise<void>)", "Error", "'a' | 'b'", "unknown", "boolean | undefined", "Promise<string>[]", "never", "bigint", "{ toString(): string }", "undefined", "RegExp", "Map<string, any>"]
USES = ["v;", "f();", "const s%: string = v;", "`${v}`;", "if (v) {}", "for (const k% in v as any) {}", "async function g%() { await v; return f(); }", "v + 1;", "const m% = new C().m;", "m%b; declare const m%b: C['m'];", "v as any;", "v!;", "const t%: T = f() as any;", "f().x;", "throw v;", "Promise.reject(v);", "[v].sort();", "switch (v) { case 'a': break; }", "v === true;", "new C().m().then(() => {});", "const [q%] = v;", "({ ...v });", "type U% = T | any;", "[1].forEach(f);", "v ?? 'd';", "v && v.a;", "void f();", "const o% = { v, f }; o%.f();", "class D% extends C { n() { return v; } }", "v satisfies T;", "x;", "x.y;", "`${x}`;", "x();"]


@st.composite
def dep(draw):
    """A module exporting v, f, C and T with varying types (now and then broken)"""
    v, f, m, t = (draw(st.sampled_from(TYPES)) for _ in range(4))
    s = f"export declare const v: {v};\nexport declare function f(): {f};\nexport declare class C {{ m(): {m}; }}\nexport type T = {t};\n"
    k = draw(st.integers(0, 9))
    if k == 0:
        s = s.replace("export type T", "type T")
    elif k == 1:
        s += draw(st.sampled_from(BROKEN)) + "\n"
    elif k == 2:
        s = "\n\n// moved\n" + s.replace("\n", "\r\n")
    elif k == 3:
        s += "v.nope;\nconst bad: string = 1;\n"
    return s


@st.composite
def user(draw, frm="./dep", pkg="pkg"):
    s = f"import {{ v, f, C, type T }} from '{frm}';\n" + (f"import x from '{pkg}';\n" if pkg else "")
    return s + "\n".join(draw(st.sampled_from(USES)).replace("%", str(i)) for i in range(draw(st.integers(1, 6)))) + "\n"
