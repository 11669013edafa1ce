"""Type errors are reported exactly when asked, and agree with the pinned compiler."""
from vf.pbt import *
from vf.ws import *
from vf.mut import mutate

BIN = {}
COPTS = [{}, {}, {"strict": False}, {"noUnusedLocals": True, "noUnusedParameters": True}, {"noImplicitReturns": True, "noFallthroughCasesInSwitch": True}, {"allowJs": True, "checkJs": True}, {"allowJs": True}, {"noEmit": False, "declaration": True, "composite": True, "outDir": "out"}, {"isolatedModules": True, "verbatimModuleSyntax": True}, {"erasableSyntaxOnly": True}, {"exactOptionalPropertyTypes": True, "noPropertyAccessFromIndexSignature": True, "noUncheckedIndexedAccess": True}, {"skipLibCheck": False}, {"lib": ["es2015"], "target": "es2015"}, {"experimentalDecorators": True}, {"module": "commonjs", "moduleResolution": "bundler"}, {"module": "nodenext", "moduleResolution": "nodenext"}, {"jsx": "react-jsx"}, {"noEmit": False, "isolatedDeclarations": True, "declaration": True, "outDir": "out"}]
POOL = [c for c in corpus() if len(c["Code"]) <= 900]
SCRIPTS = ["var g = 1;\n", "let g = '';\n", "declare var g: string;\nconst h = g;\n", "interface G { a: string }\n", "interface G { a: number }\n", "class G {}\nfunction h(): void {}\n", "namespace G { export const z = 1; }\n", "declare global { var zz: number; }\n", "function h(): void {}\nh(1);\n"]
MISC = ["import { nope } from './f0';\nnope;\n", "import x from './missing';\nx;\n", "import './f0.js';\n", "export * from './f1';\nexport * from './f0';\n", "/// <reference path='./nope.ts' />\n", "/// <reference types='nope' />\n", "// @ts-nocheck\nconst x: string = 1;\n", "// @ts-expect-error\nconst y: string = 1;\n// @ts-expect-error\nconst z = 1;\n", "/** @type {string} */\nconst j = 1;\nfunction k(a) { return a; }\n", "const u = 1;\nfunction v(p: string, q: number) { return p; }\nexport {};\n", "import d from './data.json' with { type: 'json' };\nd.a.b;\n", "declare module 'zzz' { export const q: number; }\nimport { q } from 'zzz';\nconst r: string = q;\n", "function f(): number { }\nswitch (1 as 1 | 2) { case 1: f(); case 2: }\n", "enum E { A = 'x' }\nnamespace N { const x = 1; }\n", "export const inferred = Math.random() ? { a: 1 } : [];\nexport default function () { return inferred; }\n", "return 1;\n", "await 1;\nexport {};\n"]


@st.composite
def case(draw):
    files, opts = {}, draw(st.sampled_from(COPTS))
    exts = [".ts", ".ts", ".ts", ".tsx", ".mts", ".cts", ".d.ts"] + [".js", ".jsx", ".mjs", ".cjs"] * ("allowJs" in opts)
    for j in range(draw(st.integers(1, 6))):
        k = draw(st.integers(0, 10))
        ext = None
        if k <= 5:
            c = draw(st.sampled_from(POOL))
            t = c["Code"]
            if k >= 3:
                t = draw(mutate(t))
            ext = ".tsx" if c["fn"].endswith("x") else None
            t += draw(st.sampled_from(["", "\nexport {};\n"]))
        elif k == 6:
            t = draw(weird_text(POOL, 3, raw=False))
            ext = draw(st.sampled_from([".ts", ".tsx"]))
        elif k == 7:
            t = draw(st.sampled_from(SCRIPTS))
        else:
            t = "".join(draw(st.lists(st.sampled_from(MISC), min_size=1, max_size=3)))
        files[f"f{j}" + (ext or draw(st.sampled_from(exts)))] = t
    names = list(files)
    req = [n for n in names if draw(st.integers(0, 3))] or names[:1]
    return {"files": files, "opts": opts, "req": req, "rules": rule_entries(draw, allp=2), "syn": draw(st.booleans()) or draw(st.booleans()), "sem": draw(st.booleans()) or draw(st.booleans())}


def evaluate(cases):
    dirs = []
    for c in cases:
        root = scratch()
        write_tree(root, {**c["files"], "data.json": '{"a": 1}', "tsconfig.json": tsconfig({**DEFAULT_OPTS, **c["opts"]}, include=["f*"])})
        dirs.append(root)
    refs = BIN["ref"].map([{"Op": "diags", "Tsconfig": d + "/tsconfig.json", "Files": [f"{d}/{n}" for n in c["req"]]} for c, d in zip(cases, dirs)])

    def one(a):
        c, root, ref = a
        if "panic" in ref or ref["errors"] or ref.get("program") is None or ref["program"]:
            rmtree(root)
            return Verdict(labels=("the compiler panics" if "panic" in ref else "configuration error",))
        req = [n for n in c["req"] if f"{root}/{n}" in ref["files"]]
        jobs = [[n, c["rules"]] for n in req]
        fail, want, got, extra = None, collections.Counter(), collections.Counter(), 0
        if jobs:
            on = headless(BIN["x"], request(root, jobs, report_syntactic=c["syn"], report_semantic=c["sem"]), root, ["--fix", "--fix-suggestions"])
            off = headless(BIN["x"], request(root, jobs), root, ["--fix", "--fix-suggestions"])
            fail = crashed(on) or crashed(off)
            rs = [[d for d in r.diags if d["kind"] == 0] for r in (on, off)]
            fail = fail or msdiff(multiset(rs[0], root), multiset(rs[1], root), "lint with type errors on", "lint with type errors off")
            if not fail and any(d["kind"] != 0 for d in off.diags):
                fail = f"reported without being asked: {[d for d in off.diags if d['kind']][:2]}"
            for n in req:
                f = f"{root}/{n}"
                for k, on_ in (("syn", c["syn"]), ("sem", c["sem"])):
                    for d in ref["files"][f][k] if on_ else []:
                        if d["file"] == f:
                            want[(n, f"TS{d['code']}", d["pos"], d["end"], d["msg"])] += 1
            for d in on.diags:
                if d["kind"] != 0:
                    r = d.get("range") or {"pos": -1, "end": -1}
                    got[(os.path.relpath(d["file_path"], root), d["message"]["id"], r["pos"], r["end"], d["message"]["description"])] += 1
            fail = fail or msdiff(got, want, "tsgolint", "the compiler")
        rmtree(root)
        kinds = {k for n in req for k in ("syn", "sem") if ref["files"][f"{root}/{n}"][k]}
        return Verdict(fail=fail, key=canon(c) if want else None, labels=tuple(sorted(kinds)) + (f"syn={c['syn']} sem={c['sem']}",))
    return pmap(one, list(zip(cases, dirs, refs)))


def make():
    def setup():
        BIN.update(x=build("tsgolint")["tsgolint"], ref=Reference())
    chk = Check("C08", "a project of 1-5 files (corpus snippets, token-mutated ones, broken and odd text, scripts with clashing globals, bad imports, JavaScript with and without checkJs, declaration files) under one of 18 sets of compiler options; a random subset is linted with report_syntactic/report_semantic on or off. Type diagnostics must be exactly those the pinned compiler itself gives for the requested files (code, range, message, multiplicity), and lint diagnostics those of the run without flags. Non-trivial = the compiler has at least one diagnostic to report.",
                setup=setup, assumptions=["the reference is the pinned compiler called through its public program interface (patches of the repository applied)", "programs with option errors are left to C09"])
    chk.add(Prop("types", case(), evaluate, quick=400, thorough=5000))
    return chk
