"""Files outside every project are linted with the documented default options."""
from vf.pbt import *
from vf.ws import *
from vf.mut import mutate

BIN = {}
DEFAULTS = {"allowJs": True, "module": "esnext", "moduleResolution": "bundler", "target": "es2022", "jsx": "react-jsx", "allowImportingTsExtensions": True, "noEmit": True, "strictNullChecks": True, "strictFunctionTypes": True,
            "sourceMap": True, "esModuleInterop": True, "resolveJsonModule": True}
PROBES = ["let a%; a% = a%.x; export const b% = a%;\n", "export function f%(p) { return p.q; }\n", "export class K% { a: string; m() { return function () { return this.a; }; } }\n", "try {} catch (e) { e.message; }\n", "export const n%: string = null;\n", "declare let h%: (x: string | number) => void; h% = (x: string) => {};\n",
          "parseInt.call(undefined, 1, 2, 3);\n", "import d% from './data.json';\nd%.a.b;\n", "import { v as v% } from './dep.ts';\nv%;\n", "import { v as w% } from './dep.js';\nw%;\n", "import * as c% from './cjs.cjs';\nc%.x;\n", "import x% from './cjs.cjs';\nx%.x;\n", "export const j% = <div a={1}>{null}</div>;\n", "await Promise.reject(1);\nexport {};\n",
          "[1, 2].findLast(x => x).toFixed();\nexport {};\n", "Object.hasOwn({}, 'a');\n", "export const it% = [1].values().next().value;\n", "for (const k of new Map()) k;\n", "var shared = %;\n", "declare var shared: string;\n", "shared;\n", "interface Sh { a%: string }\n", "function sharedFn(): void {}\n", "/** @type {number} */\nvar js% = 'a';\n", "export enum E% { A = 1 }\n", "import type { T } from './nope';\nexport type Q% = T;\n", "export const u%: unknown = globalThis.document;\n", "const u = unt(1);\n", "node.x;\n", "using r% = { [Symbol.dispose]() {} };\nexport {};\n", "export const sx% = <T,>(x: T) => x;\n", "import React from 'react';\nReact.x;\n", "export const o% = { async m() { await 1; return this; } };\n"]
EXTS = [".ts", ".ts", ".tsx", ".mts", ".cts", ".js", ".jsx", ".mjs", ".cjs", ".d.ts", ".d.mts"]


@st.composite
def case(draw):
    files = {}
    for j in range(draw(st.integers(1, 6))):
        k = draw(st.integers(0, 5))
        ext = draw(st.sampled_from(EXTS))
        if k <= 3:
            t = "".join(draw(st.lists(st.sampled_from(PROBES), min_size=1, max_size=4))).replace("%", str(j))
        elif k == 4:
            e2, t = draw(module())
            ext = ext if ext not in (".d.ts", ".d.mts") and (e2 != ".tsx" or ext in (".tsx", ".jsx")) else e2
        else:
            t = draw(mutate(draw(st.sampled_from(MODS))["Code"]))
        d = draw(st.sampled_from(["", "", "sub/", "sub/deep/", "other/"]))
        files[f"{d}f{j}{ext}"] = t
    extra = {"dep.ts": draw(dep()), "data.json": '{"a": {"b": 1}}', "cjs.cjs": draw(st.sampled_from(["exports.x = 1;\n", "module.exports = class { static x() {} };\n"]))}
    if draw(st.booleans()):
        extra["node_modules/@types/node/index.d.ts"] = "declare var node: { x: Promise<void> };\ndeclare function unt(x: any): any;\n"
        extra["node_modules/react/index.d.ts"] = "declare const R: { x: Promise<1> };\nexport = R;\n"
    if draw(st.booleans()):
        extra["package.json"] = draw(st.sampled_from(['{"type": "module"}', '{"type": "commonjs"}', "{}", '{"type": '])) 
    proj = draw(module()) if draw(st.integers(0, 2)) == 0 else None
    rs = rule_entries(draw)
    return {"files": files, "extra": extra, "proj": proj, "rules": rs, "order": draw(st.permutations(sorted(files))), "outer": draw(st.sampled_from([None, None, '{"files": []}', '{"files": ["dep.ts"], "compilerOptions": {"strict": false, "target": "es2015"}}'])), "procs": draw(st.sampled_from(["1", "4"]))}


def evaluate(cases):
    def one(c):
        res, fail, root, silent = [], None, scratch() + "/w", set(c["files"])
        for explicit in (False, True):
            os.makedirs(root)
            write_tree(root, {**c["extra"], **c["files"]})
            if c["proj"]:
                write_tree(root, {"proj/p" + c["proj"][0]: c["proj"][1], "proj/tsconfig.json": tsconfig(files=["p" + c["proj"][0]])})
            if not explicit and c["outer"]:
                write_tree(root, {"tsconfig.json": c["outer"]})
            if explicit:
                write_tree(root, {"tsconfig.json": json.dumps({"compilerOptions": DEFAULTS, "files": sorted(c["files"], key=lambda p: f"{root}/{p}".encode())})})
            # a rule every file triggers tells whether a file was linted at all
            jobs = [[p, c["rules"]] for p in c["order"]] + ([["proj/p" + c["proj"][0], c["rules"]]] if c["proj"] else [])
            r = headless(BIN["x"], request(root, jobs, report_syntactic=True, report_semantic=True), root, ["--fix", "--debug", "timings"], {"GOMAXPROCS": c["procs"]})
            fail = fail or crashed(r)
            if not fail:
                ds = [d for d in r.diags if d["message"]["description"] == "Invalid tsconfig"]
                if ds and explicit:
                    rmtree(root)
                    return Verdict(labels=("the explicit configuration is rejected",), detail=ds[:1])
                res.append((multiset(r.diags, root), {t["rule_name"]: t["calls"] for t in r.timings[0]["rules"] or []}, r.diags))
            rmtree(root)
        if not fail:
            fail = msdiff(res[0][0], res[1][0], "the inferred project", "the project with the documented defaults")
            if not fail and res[0][1] != res[1][1]:
                fail = f"rules ran differently often: {res[0][1]} / {res[1][1]}"
        nt = bool(res and res[0][2])
        return Verdict(fail=fail, key=canon(c) if nt else None, labels=tuple(sorted({re.sub(r"^.*?\.", ".", os.path.basename(p)) for p in c["files"]})))
    return pmap(one, cases)


def make():
    chk = Check("C11", "1-6 loose files of every JS/TS extension in several directories (code sensitive to each compiler option, clashing globals, corpus snippets, broken text) with imports of TypeScript, JavaScript, JSON and package files, @types packages and package.json variants, sometimes next to a proper project; the run without a tsconfig must equal - rule diagnostics, type errors, fixes, number of listener calls - the run with an explicit tsconfig of the documented defaults. Non-trivial = something is reported.",
                setup=lambda: BIN.update(x=build("tsgolint")["tsgolint"]), assumptions=["an explicit tsconfig additionally needs noEmit; diagnostics that noEmit hides do not occur without emit"])
    chk.add(Prop("inferred", case(), evaluate, quick=500, thorough=6000))
    return chk
