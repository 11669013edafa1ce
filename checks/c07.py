"""Source overrides are indistinguishable from edited files."""
from vf.pbt import *
from vf.ws import *

BIN = {}
TSC = [{}, {"noImplicitAny": False}, {"strict": False}, {"strictNullChecks": False}, {"noUnusedLocals": True}, {"allowJs": True, "checkJs": True}, {"paths": {"pkg": ["./dep.ts"]}}, {"noUncheckedIndexedAccess": True}, {"target": "ES5"}, {"nope": True}, {"exactOptionalPropertyTypes": True}, {"verbatimModuleSyntax": True}]


@st.composite
def text(draw, kind):
    if kind == "dep":
        return draw(dep())
    if kind == "pkg":
        return f"declare const x: {draw(st.sampled_from(TYPES))};\nexport default x;\n"
    if kind == "user":
        s = draw(user())
        return s + draw(st.sampled_from(["", "", draw(st.sampled_from(BROKEN)) + "\n", "// é\u2028\U0001F600 `\n" + "v;\n"]))
    if kind == "mod":
        return draw(module())[1]
    if kind == "script":
        return draw(st.sampled_from(["var g: %s;\ng;\n", "declare var g: %s;\nfunction h() { return g; }\nh();\n", "g + 1;\n", "let g = null! as %s;\n", "", "const x: number = ;\n"])).replace("%s", draw(st.sampled_from(TYPES)))
    if kind == "config":
        return json.dumps({"compilerOptions": {**DEFAULT_OPTS, **draw(st.sampled_from(TSC))}, **draw(st.sampled_from([{}, {}, {"include": ["u*"]}, {"files": ["user.ts"]}, {"exclude": ["mod.ts"]}, {"extends": "../base.json"}]))}) + draw(st.sampled_from(["", "", "", "// c\n", "}"]))
    if kind == "base":
        return json.dumps({"compilerOptions": draw(st.sampled_from(TSC))})
    raise KeyError(kind)


KINDS = {"user.ts": "user", "user2.tsx": "user", "dep.ts": "dep", "mod.ts": "mod", "script.ts": "script", "script2.ts": "script"}


@st.composite
def case(draw):
    base, over = {}, {}

    def put(p, kind):
        base[p] = draw(text(kind))
        if draw(st.integers(0, 1)):
            over[p] = draw(text(kind))
    n = draw(st.integers(1, 2))
    for i in range(n):
        put(f"p{i}/tsconfig.json", "config") if draw(st.integers(0, 2)) == 0 else base.__setitem__(f"p{i}/tsconfig.json", tsconfig())
        for name, kind in KINDS.items():
            if draw(st.integers(0, 3)) or name in ("user.ts", "dep.ts"):
                put(f"p{i}/{name}", kind)
    put("base.json", "base")
    put("packages/pkg/index.d.ts", "pkg")
    loose = draw(st.booleans())
    if loose:
        for name, kind in (("user.ts", "user"), ("dep.ts", "dep"), ("script.ts", "script")):
            put(f"loose/{name}", kind)
    files = sorted(p for p in base if re.search(r"(user2?|mod|script2?|dep)\.tsx?$", p))
    req = draw(st.lists(st.sampled_from(files), min_size=1, max_size=8, unique=True))
    return {"base": base, "over": over, "jobs": [[p, rule_entries(draw)] for p in req], "link": draw(st.booleans())}


def evaluate(cases):
    def one(c):
        rs, fail, root = [], None, scratch() + "/w"
        for k, t in (("override", c["base"]), ("disk", {**c["base"], **c["over"]}), ("plain", c["base"])):
            os.makedirs(root)
            write_tree(root, t)
            os.makedirs(root + "/node_modules")
            if c["link"]:
                os.symlink("../packages/pkg", root + "/node_modules/pkg")
            else:
                os.rename(root + "/packages/pkg", root + "/node_modules/pkg")
            ov = {f"{root}/" + (p if c["link"] else p.replace("packages/", "node_modules/")): x for p, x in c["over"].items()} if k == "override" else {}
            before = {d: [(n, open(os.path.join(d, n), "rb").read()) for n in sorted(fs)] for d, _, fs in os.walk(root)}
            r = headless(BIN["x"], request(root, c["jobs"], report_syntactic=True, report_semantic=True, source_overrides=ov), root, ["--fix", "--fix-suggestions"])
            after = {d: [(n, open(os.path.join(d, n), "rb").read()) for n in sorted(fs)] for d, _, fs in os.walk(root)}
            fail = fail or crashed(r) or (None if before == after else "files on disk changed")
            rs.append(multiset(r.diags, root))
            rmtree(root)
        fail = fail or msdiff(rs[0], rs[1], "the run with overrides", "the run on edited files")
        return Verdict(fail=fail, key=canon(c) if rs[1] != rs[2] else None, labels=("overrides matter" if rs[1] != rs[2] else "overrides do not show", "config overridden" if any(p.endswith("json") for p in c["over"]) else "sources only"))
    return pmap(one, cases)


def make():
    chk = Check("C07", "1-2 projects (importers of a dep module and of an npm package behind a symlink or not, corpus modules, global scripts, tsconfig with extends and globs) plus loose files; half of the files get a second text (other types, other snippets, broken syntax, other compiler options). The request with the second texts as source_overrides must report what the plain request reports once they are on disk, type errors and tsconfig errors included, and leave the disk alone. Non-trivial = the overrides change the result.",
                setup=lambda: BIN.update(x=build("tsgolint")["tsgolint"]), assumptions=["override texts do not start with a byte order mark (reading from disk strips it, overrides are given as decoded text)", "overridden files exist on disk"])
    chk.add(Prop("override", case(), evaluate, quick=200, thorough=2500))
    return chk
