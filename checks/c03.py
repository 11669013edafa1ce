"""Version-1 and version-2 requests mean the same."""
from vf.pbt import *
from vf.ws import *

BIN = {}


@st.composite
def case(draw):
    w = draw(workspace(max_projects=2, max_files=4, inferred=True))
    sets = [list(ALL) if draw(st.integers(0, 2)) == 0 else draw(st.lists(st.sampled_from(ALL), max_size=draw(st.sampled_from([3, 40])), unique=True)) for _ in range(draw(st.integers(1, 3)))]
    return {"w": w, "rules": {p: sets[draw(st.integers(0, len(sets) - 1))] for p in paths(w)}, "version": draw(st.sampled_from([None, 0])), "order": draw(st.integers(0, 99999)), "opts": draw(st.booleans()), "types": draw(st.booleans())}


def v1(c, root):
    j = {"files": [{"file_path": f"{root}/{p}", "rules": r} for p, r in c["rules"].items()]}
    if c["version"] is not None:
        j["version"] = c["version"]
    return j


def grouped(c, root, key, opt=lambda p, n: None):
    """A version-2 request whose configs hold the files with equal rules and equal key"""
    g = collections.defaultdict(list)
    for p, r in c["rules"].items():
        rs = [rule_entry(n, opt(p, n)) for n in r]
        g[json.dumps([rs, key(p)])].append((f"{root}/{p}", rs))
    return {"version": 2, "configs": [{"file_paths": [p for p, _ in v], "rules": v[0][1]} for v in g.values()]}


def evaluate(cases):
    def one(c):
        root = scratch()
        write_tree(root, tree(c["w"]))
        rnd = random.Random(c["order"])
        salt = {p: rnd.randrange(3) for p in c["rules"]}
        flags = {"report_syntactic": c["types"], "report_semantic": c["types"]}
        fail, n = None, 0
        base = headless(BIN["x"], grouped(c, root, lambda p: p), root)
        fail, n = crashed(base), len(base.diags)
        B = multiset(base.diags, root)
        for what, req in (("version-1 request", v1(c, root)), ("request with all equal files in one config", grouped(c, root, lambda p: 0)), ("request with randomly split configs", grouped(c, root, lambda p: salt[p]))):
            r = headless(BIN["x"], req, root)
            fail = fail or crashed(r) or msdiff(B, multiset(r.diags, root), "one config per file", what)
        if not fail and c["opts"]:
            # options reach the rule of their own files only, however files are grouped
            om = {(p, x): rnd.choice(OPTS[x]) for p in c["rules"] for x in c["rules"][p] if OPTS.get(x) and salt[p]}
            opt = lambda p, x: om.get((p, x))
            a = headless(BIN["x"], {**grouped(c, root, lambda p: p, opt), **flags}, root)
            b = headless(BIN["x"], {**grouped(c, root, lambda p: 0, opt), **flags}, root)
            fail = crashed(a) or crashed(b) or msdiff(multiset(a.diags, root), multiset(b.diags, root), "one config per file", "grouped configs")
            if not fail:
                plain = {p for p in c["rules"] if not salt[p]}
                x = multiset([d for d in a.diags if d["kind"] == 0 and os.path.relpath(d["file_path"], root) in plain], root)
                y = multiset([d for d in base.diags if os.path.relpath(d["file_path"], root) in plain], root)
                fail = msdiff(x, y, "files without options next to files with options", "the same files alone without options")
        rmtree(root)
        return Verdict(fail=fail, key=canon(c) if n else None, labels=(f"version={c['version']}", "opts" if c["opts"] else "plain", "diags" if n else "silent"))
    return pmap(one, cases)


def make():
    chk = Check("C03", "a workspace of projects and project-less files, each file with one of 1-3 generated rule sets; asked as version 1 (version absent or 0), as version 2 with one config per file, with equal files in one config, and randomly split; plus options on a random part of the files. All multisets of diagnostics must be equal. Non-trivial = something was reported.",
                setup=lambda: BIN.update(x=build("tsgolint")["tsgolint"]))
    chk.add(Prop("requests", case(), evaluate, quick=190, thorough=2500))
    return chk
