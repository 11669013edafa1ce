"""A broken tsconfig is reported and affects only its own project."""
from vf.pbt import *
from vf.ws import *

BIN = {}
ENV = "OXLINT_TSGOLINT_DANGEROUSLY_SUPPRESS_PROGRAM_DIAGNOSTICS"
# compiler options whose error is the only thing they change
NEUTRAL = [{"nope": True}, {"strictt": 1, "nope2": {}}, {"listFiles": "yes"}, {"charset": 5}, {"composite": "x"}, {"outDir": 1}, {"sourceRoot": True}, {"noEmit": False, "allowImportingTsExtensions": True, "outDir": "o"}, {"types": ["no-such-types"]}, {"maxNodeModuleJsDepth": "a"}, {"declarationMap": True}, {"inlineSources": True}, {"mapRoot": "./m"}]
OTHER = [{"target": "ES5"}, {"target": "es3"}, {"target": "es1999"}, {"target": 7}, {"module": "amd"}, {"module": "umd"}, {"module": "none"}, {"module": "weird"}, {"moduleResolution": "node10"}, {"moduleResolution": "classic"}, {"moduleResolution": "node"}, {"baseUrl": "./src"}, {"baseUrl": ".", "paths": {"x/*": ["y/*"]}}, {"outFile": "x.js"}, {"lib": ["nope"]}, {"lib": "esnext"}, {"jsx": "nope"}, {"strict": "yes"}, {"esModuleInterop": False}, {"alwaysStrict": False}, {"allowSyntheticDefaultImports": False}, {"downlevelIteration": True}, {"paths": {"a": "b"}}, {"paths": {"*/*": ["./x"]}}, {"module": "node16", "moduleResolution": "bundler"}, {"rootDir": "./elsewhere", "noEmit": False}, {"composite": True, "incremental": False}, {"customConditions": ["a"], "moduleResolution": "node10"}, {"resolveJsonModule": True, "moduleResolution": "classic"}, {"verbatimModuleSyntax": True, "isolatedModules": False}, {"jsxFactory": "h", "jsx": "react-jsx"}, {"exactOptionalPropertyTypes": True, "strictNullChecks": False}]
EXTRA = [{"extends": "../p0/tsconfig.json"}, {"extends": "../p1/tsconfig.json"}, {"extends": "./missing.json"}, {"extends": "./tsconfig.json"}, {"extends": "no-such-package/tsconfig.json"}, {"extends": 5}, {"extends": "../bad-base.json"}, {"extends": "../opt-base.json"}, {"extends": ["../good-base.json", "../bad-base.json"]}, {"references": [{"path": "../nowhere"}]}, {"references": [{"path": "../plain"}]}, {"references": 1}, {"include": "*.ts"}, {"exclude": {}}, {"typeAcquisition": {"enable": 3}}, {"include": ["**/../x"]}]
GOOD = [{}, {"extends": "../good-base.json"}, {"references": [{"path": "../lib"}]}, {"include": ["*"]}]


@st.composite
def config(draw, files):
    kind = draw(st.sampled_from(["good", "good", "neutral", "other", "extra", "json", "both"]))
    o, x, neutral = dict(DEFAULT_OPTS), {}, False
    if kind in ("neutral", "both"):
        o.update(draw(st.sampled_from(NEUTRAL)))
    if kind in ("other", "both"):
        o.update(draw(st.sampled_from(OTHER)))
    if kind in ("extra", "both"):
        x = draw(st.sampled_from(EXTRA))
    if kind == "good":
        x = draw(st.sampled_from(GOOD))
    t = json.dumps({"compilerOptions": o, **({} if draw(st.booleans()) else {"files": files}), **x}, indent=draw(st.sampled_from([None, 2])))
    if kind == "json":
        t = draw(st.sampled_from([t[:-1], t[: len(t) // 2], t + "}", t.replace('"strict": true', '"strict": True'), t.replace(":", "", 1), t.replace('"', "'", 2), "", "[]", "null", "\u00e9" + t, t.replace("{", "{,", 1), t.replace('"target"', "target"), '{"compilerOptions": 3}', '{"compilerOptions": []}']))
    elif draw(st.integers(0, 3)) == 0:
        t = draw(st.sampled_from(["\ufeff" + t, "// comment\n" + t, t.replace("}", ",}", 1), t.replace("\n", "\r\n"), "/* \u4f60\U0001F600 */" + t]))
    return t, kind


@st.composite
def case(draw):
    ps = []
    for i in range(draw(st.integers(1, 4))):
        files = {f"f{j}.ts": draw(module())[1] for j in range(draw(st.integers(1, 2)))}
        d = f"p{i}"
        if i and draw(st.integers(0, 3)) == 0:
            d = ps[-1]["dir"] + "/" + d
        t, kind = draw(config(list(files)))
        ps.append({"dir": d, "files": files, "config": t, "kind": kind})
    loose = draw(st.booleans())
    fs = [f"{p['dir']}/{n}" for p in ps for n in p["files"]] + ["loose/l.ts"] * loose
    return {"ps": ps, "loose": draw(module())[1] if loose else None, "jobs": [[p, rule_entries(draw)] for p in fs], "env": draw(st.sampled_from([None, None, None, "true", "true", "1", "TRUE", "false", "", "true "]))}


COMMON = {"good-base.json": '{"compilerOptions": {"strict": true}}', "opt-base.json": '{"compilerOptions": {"zzz": 1, "target": "ES5"}}', "bad-base.json": '{"compilerOptions": {"strict": ',
          "lib/tsconfig.json": '{"compilerOptions": {"composite": true}}', "lib/a.ts": "export const a = 1;\n", "plain/tsconfig.json": "{}", "plain/b.ts": "export const b = 1;\n"}


def evaluate(cases):
    dirs, q = [], []
    for c in cases:
        root = scratch()
        t = {"loose/l.ts": c["loose"] or ""}
        for p in c["ps"]:
            up = "/".join([".."] * (p["dir"].count("/") + 1))
            t[p["dir"] + "/tsconfig.json"] = p["config"].replace('"../', f'"{up}/')
            for n, x in p["files"].items():
                t[f"{p['dir']}/{n}"] = x
        write_tree(root, {**COMMON, **t})
        dirs.append(root)
        q += [{"Op": o, "Tsconfig": f"{root}/{p['dir']}/tsconfig.json", "Files": []} for p in c["ps"] for o in ("config", "diags")]
    ans = iter(BIN["ref"].map(q))
    refs = [[(next(ans), next(ans)) for _ in c["ps"]] for c in cases]

    def one(a):
        c, root, rs = a
        want, broken, files, fail = collections.Counter(), {}, {}, None
        for p, (cfg, dg) in zip(c["ps"], rs):
            t = f"{root}/{p['dir']}/tsconfig.json"
            if "panic" in cfg or "panic" in dg:
                files[p["dir"]] = []
                continue
            got = [f"{p['dir']}/{n}" for n in p["files"] if f"{root}/{p['dir']}/{n}" in (cfg.get("files") or [])]
            files[p["dir"]] = got
            ds = cfg["errors"] or dg.get("program") or []
            if ds and got:
                broken[p["dir"]] = [(d["file"] or t, d["pos"], d["end"], d["msg"]) for d in ds]
        jobs = [j for j in c["jobs"] if j[0].startswith("loose/") or any(j[0] in f for f in files.values())]
        isb = {f: d for d, fs in files.items() for f in fs if d in broken}
        on = c["env"] == "true"
        env = {} if c["env"] is None else {ENV: c["env"]}
        r = headless(BIN["x"], request(root, jobs), root, ["--fix"], env)
        fail = crashed(r)
        nt = bool(broken)
        if not fail:
            ts = [d for d in r.diags if d["kind"] != 0]
            if on:
                if ts:
                    fail = f"errors reported although suppressed: {ts[:2]}"
                # errors that change nothing else: the project is linted as without them
                t2 = {f"{p['dir']}/tsconfig.json": tsconfig(files=list(p["files"])) for p in c["ps"] if p["kind"] == "neutral"}
                if t2 and not fail and all(p["kind"] in ("neutral", "good") for p in c["ps"]):
                    write_tree(root, t2)
                    ref = headless(BIN["x"], request(root, jobs), root, ["--fix"])
                    fail = crashed(ref) or msdiff(multiset(r.diags, root), multiset(ref.diags, root), "the suppressed run", "the run on the corrected tsconfig")
            else:
                got = collections.Counter()
                for d in ts:
                    rg = d.get("range") or {"pos": -1, "end": -1}
                    if d.get("rule") is not None or d["message"]["description"] != "Invalid tsconfig" or d["message"]["id"] != "tsconfig-error":
                        fail = f"not a tsconfig error: {d}"
                    got[(d["file_path"], rg["pos"], rg["end"], d["message"].get("help", "").split("\n")[0])] += 1
                want = collections.Counter((f, p, e, m.split("\n")[0]) for ds in broken.values() for f, p, e, m in ds)
                fail = fail or msdiff(got, want, "tsgolint", "the compiler's own configuration errors")
                bad = [d for d in r.diags if d["kind"] == 0 and os.path.relpath(d["file_path"], root) in isb]
                if bad and not fail:
                    fail = f"rule diagnostics in a project with an invalid tsconfig: {bad[:2]}"
                rest = [j for j in jobs if j[0] not in isb]
                if not fail and broken and rest:
                    ref = headless(BIN["x"], request(root, rest), root, ["--fix"])
                    fail = crashed(ref) or msdiff(multiset([d for d in r.diags if d["kind"] == 0], root), multiset([d for d in ref.diags if d["kind"] == 0], root), "other files next to the broken project", "other files alone")
        rmtree(root)
        return Verdict(fail=fail, key=canon(c) if nt else None, labels=tuple(sorted({p["kind"] for p in c["ps"]})) + (f"env={c['env']!r}", f"broken={len(broken)}"))
    return pmap(one, list(zip(cases, dirs, refs)))


def make():
    def setup():
        BIN.update(x=build("tsgolint")["tsgolint"], ref=Reference())
    chk = Check("C09", "1-4 projects (nested or not) and loose files; each tsconfig good (with extends, references, comments, BOM, trailing commas) or broken: unknown options, bad values, removed options, broken extends and references, broken JSON. The 'Invalid tsconfig' diagnostics (path, range, text) must be exactly the pinned compiler's own configuration errors, or its program errors when there are none, for the projects that govern a requested file; no rule diagnostics for those files; all other files report what they report alone; the suppression variable works for \"true\" only, and for errors without further effect gives the result of the corrected tsconfig. Non-trivial = at least one project is broken.",
                setup=setup, assumptions=["which errors a tsconfig has is taken from the pinned compiler, called directly"])
    chk.add(Prop("broken", case(), evaluate, quick=260, thorough=3000))
    return chk
