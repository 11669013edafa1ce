"""Each file is linted in the project that governs it."""
from vf.pbt import *
from vf.ws import *

BIN = {}
DIRS = ["", "a", "a/b", "a/b/c", "d", "d/e", "node_modules/p", "a/node_modules/q", "a/b/node_modules", "a/node_modules/q/src"]
NAMES = ["tsconfig.json", "tsconfig.json", "tsconfig.json", "jsconfig.json", "tsconfig.lib.json"]
FILES = ["f.ts", "g.tsx", "h.js", "i.d.ts", "j.mts", "k.cjs", "f.js", "sub/f.ts"]
SPECS = ["*", "**/*", "./f.ts", "b/**/*", "../**/*", "**/f.*", "*.js", "c", "sub", "**/node_modules/**/*", "a/b", "."]


@st.composite
def case(draw):
    dirs = draw(st.lists(st.sampled_from(DIRS), min_size=2, max_size=6, unique=True))
    files = sorted({(d + "/" if d else "") + draw(st.sampled_from(FILES)) for d in dirs for _ in range(draw(st.integers(0, 3)))})
    cfgs = {}
    for d in dirs:
        for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2, 3]))):
            n = draw(st.sampled_from(NAMES))
            cfgs[(d + "/" if d else "") + n] = None
    names = sorted(cfgs)
    comp = draw(st.integers(0, 3))
    for p in names:
        d = os.path.dirname(p)
        j = {}
        k = draw(st.integers(0, 5))
        if k == 0:
            j["files"] = []
        elif k == 1 and files:
            fs = draw(st.lists(st.sampled_from(files), min_size=1, max_size=2, unique=True))
            j["files"] = [os.path.relpath(f, d or ".") for f in fs]
        elif k <= 3:
            j["include"] = draw(st.lists(st.sampled_from(SPECS), min_size=1, max_size=2))
        if k and draw(st.integers(0, 3)) == 0:
            j["exclude"] = draw(st.lists(st.sampled_from(SPECS), max_size=1))
        if draw(st.integers(0, 1)):
            refs = [draw(st.sampled_from(names + [os.path.dirname(x) or "." for x in names] + ["nowhere"] * (comp == 0))) for _ in range(draw(st.integers(1, 3)))]
            j["references"] = [{"path": os.path.relpath(r, d or ".")} for r in refs]
        j["compilerOptions"] = draw(st.sampled_from([{}, {}, {}, {"composite": True}, {"disableSolutionSearching": True}, {"allowJs": True}, {"allowJs": True, "composite": True, "disableReferencedProjectLoad": True}]))
        if comp:
            j["compilerOptions"] = {**j["compilerOptions"], "composite": True}
        cfgs[p] = j
    order = draw(st.permutations(files))
    return {"files": list(order), "cfgs": [[p, cfgs[p]] for p in names], "single": [draw(st.integers(0, 99)) for _ in range(2)], "procs": draw(st.sampled_from(["1", "8"]))}


def model(f, root, exists, info):
    """nearest config with the file, directly or through references, then ancestors"""
    def containing(start):
        queue, seen = [start], set()
        while queue:
            nxt = []
            for c in queue:
                if c in seen:
                    continue
                seen.add(c)
                i = info.get(c)
                if i is None:
                    continue
                if f in i["files"]:
                    return c
                nxt += i["refs"]
            queue = nxt
        return None

    d, first = os.path.dirname(f), ("tsconfig.json", "jsconfig.json")
    while True:
        for n in first:
            c = f"{d}/{n}"
            if c in exists:
                r = containing(c)
                if r:
                    return r
        # a config in a node_modules directory still has ancestors; a search passing one does not
        if d.endswith("/node_modules"):
            return None
        if d == root:
            return None
        d = os.path.dirname(d)


def text(f):
    return "export declare const x: typeof m.nope;\n" if f.endswith(".d.ts") else "// @ts-check\n`${m}`;\nexport {};\n"


def evaluate(cases):
    dirs, q, owner = [], [], []
    for c in cases:
        root = scratch()
        t = {f: text(f) for f in c["files"]}
        for i, (p, j) in enumerate(c["cfgs"]):
            d = os.path.dirname(p)
            o = {"target": "es2022", "lib": ["es5"], "module": "esnext", "moduleResolution": "bundler", "types": [], "outDir": "./out", "jsx": "preserve", "skipLibCheck": False, **j["compilerOptions"], "typeRoots": [os.path.relpath(".markers", d or ".")], "types": [f"m{i}"]}
            t[p] = json.dumps({**j, "compilerOptions": o})
            t[f".markers/m{i}/index.d.ts"] = f"interface Cfg{i} {{ a: 1 }}\ndeclare var m: Cfg{i};\n"
            q.append({"Op": "config", "Tsconfig": f"{root}/{p}"})
        write_tree(root, t)
        dirs.append(root)
    ans = iter(BIN["ref"].map(q))
    infos = [{f"{r}/{p}": next(ans) for p, _ in c["cfgs"]} for c, r in zip(cases, dirs)]

    def one(a):
        c, root, info = a
        info = {k: {"files": set(v.get("files") or []), "refs": v.get("refs") or []} for k, v in info.items()}
        idx = [p for p, _ in c["cfgs"]]
        want = {f: model(f"{root}/{f}", root, info, info) for f in c["files"]}
        want = {f: os.path.relpath(v, root) if v else None for f, v in want.items()}
        fail = None

        def reach(p):
            todo, seen = [p], set()
            while todo:
                x = todo.pop()
                if x and x not in seen:
                    seen.add(x)
                    todo += [os.path.relpath(y, root) for y in info.get(f"{root}/{x}", {"refs": []})["refs"]]
            return seen
        invalid = set()
        sets = [c["files"]] + [[c["files"][s % len(c["files"])]] for s in c["single"] if c["files"]]
        for fs in sets:
            if not fs or fail:
                continue
            r = headless(BIN["x"], request(root, [[f, [["restrict-template-expressions", None]]] for f in fs], report_semantic=True), root, env={"GOMAXPROCS": c["procs"]})
            fail = crashed(r)
            if fail:
                break
            invalid, got = set(), {}
            for d in r.diags:
                p = os.path.relpath(d["file_path"], root)
                s = d["message"]["description"] + "".join("\n" + x["label"] for x in d.get("labeled_ranges") or [])
                if s.split("\n")[0] == "Invalid tsconfig":
                    invalid.add(p)
                    continue
                m = re.search(r"\bCfg(\d+)\b", s)
                if m:
                    got[p] = idx[int(m.group(1))]
                elif d["message"]["id"] == "TS2304":
                    got[p] = None
            for f in fs:
                if f in got:
                    if got[f] != want[f]:
                        fail = f"{f} is linted in {got[f]}, governed by {want[f]} (request of {len(fs)})"
                elif not reach(want[f]) & invalid and not f.endswith(".d.ts"):  # files of referenced projects are not type-checked
                    fail = f"{f}, governed by {want[f]}, does not show its project; invalid: {sorted(invalid)} (request of {len(fs)})"
            extra = invalid - set().union(*[reach(want[f]) for f in fs])
            if extra:
                fail = f"projects {sorted(extra)} were loaded, governing are {want}"
        rmtree(root)
        nt = len(set(want.values())) > 1
        kinds = {"invalid" if invalid else "valid"} | {"own dir" if v and os.path.dirname(v) == os.path.dirname(f) else "unmatched" if v is None else "other dir" for f, v in want.items()}
        return Verdict(fail=fail, key=canon(c) if nt else None, labels=tuple(sorted(kinds)))
    return pmap(one, list(zip(cases, dirs, infos)))


def make():
    def setup():
        BIN.update(x=build("tsgolint")["tsgolint"], ref=Reference())
    chk = Check("C10", "a tree of 2-6 directories (node_modules included) with source files of all extensions and tsconfig/jsconfig/other configs: solution style, globs, excludes, references to configs and directories (missing, cyclic, self), composite, disableSolutionSearching. The project of each file is revealed by a report naming the type of a global that every config declares differently (automatic type directives), and compared with a model of the search over the file lists the pinned compiler gives for each config, in one request for all files and in requests for one. Non-trivial = files of the request belong to at least two different projects (or one and none).",
                setup=setup, assumptions=["the file list and resolved references of one config come from the pinned compiler", "case-sensitive file system, no symlinks"])
    chk.add(Prop("governs", case(), evaluate, quick=600, thorough=6000))
    return chk
