"""Fix flags only add fixes and suggestions; fixes are well-formed."""
from vf.pbt import *
from vf.ws import *
from vf.probe import probe

BIN = {}


def setup():
    b = build("tsgolint", "probe_linter")
    BIN.update(b, x=b["tsgolint"])


PER = 24


@st.composite
def case(draw):
    files = []
    for i in range(draw(st.integers(1, PER))):
        k = draw(st.integers(0, 3))
        if k == 0:
            ext, text = ".ts", draw(weird_text(POOL, raw=False))
        else:
            ext, text = draw(module(n=draw(st.integers(1, 2))))
        files.append([f"f{i}{ext}", text, rule_entries(draw)])
    return {"files": files, "opts": draw(st.sampled_from(COMPILER)), "types": draw(st.booleans())}


POOL = [c for c in snippet_pool() if not c["Tsx"]]


def bad_fixes(d, n):
    for what, fs in [("fixes", d.get("fixes") or [])] + [(f"suggestion {i}", s["fixes"]) for i, s in enumerate(d.get("suggestions") or [])]:
        rs = sorted((f["range"]["pos"], f["range"]["end"]) for f in fs)
        for a, b in zip(rs, rs[1:]):
            if b[0] < a[1]:
                return f"{what} overlap: {rs}: {d}"
        if any(not 0 <= a <= b <= n for a, b in rs):
            return f"{what} out of bounds ({n} bytes): {d}"
    return None


def evaluate(cases):
    def one(c):
        root = scratch()
        t = {n: x for n, x, _ in c["files"]}
        write_tree(root, {**t, "tsconfig.json": tsconfig({**DEFAULT_OPTS, **c["opts"]}, files=list(t))})
        req = request(root, [[n, rs] for n, _, rs in c["files"]], report_syntactic=c["types"], report_semantic=c["types"])
        runs = {a: headless(BIN["x"], req, root, [x for x in a.split() if x]) for a in ("", "--fix", "--fix-suggestions", "--fix --fix-suggestions")}
        fail, sig = None, ""
        size = {n: len(x.encode("utf-8", "surrogatepass")) - (3 if x.startswith("\ufeff") else 0) for n, x in t.items()}
        for a, r in runs.items():
            fail = fail or crashed(r)
            if fail:
                break
            fx = {k for k in ("fixes", "suggestions") for d in r.diags if d.get(k)}
            if "fixes" in fx and "--fix" not in a.split():
                fail = f"flags '{a}': diagnostics carry fixes: {[d for d in r.diags if d.get('fixes')][0]}"
            elif "suggestions" in fx and "--fix-suggestions" not in a.split():
                fail = f"flags '{a}': diagnostics carry suggestions: {[d for d in r.diags if d.get('suggestions')][0]}"
            if not fail and a:
                fail = msdiff(multiset(r.diags, root, ("fixes", "suggestions")), multiset(runs[""].diags, root), f"run with {a}", "run without flags")
            for d in r.diags:
                if d["kind"] == 0:
                    fail = fail or bad_fixes(d, size[os.path.relpath(d["file_path"], root)])
        if not fail:
            both = runs["--fix --fix-suggestions"]
            fail = msdiff(multiset(both.diags, root, ("suggestions",)), multiset(runs["--fix"].diags, root, ("suggestions",)), "fixes with both flags", "fixes with --fix") or \
                msdiff(multiset(both.diags, root, ("fixes",)), multiset(runs["--fix-suggestions"].diags, root, ("fixes",)), "suggestions with both flags", "suggestions with --fix-suggestions")
        nf = sum(len(d.get("fixes") or []) > 0 for d in runs["--fix --fix-suggestions"].diags)
        ns = sum(len(d.get("suggestions") or []) > 0 for d in runs["--fix --fix-suggestions"].diags)
        rmtree(root)
        return Verdict(fail=fail, signature=sig, key=canon(c) if nf or ns else None, labels=("fixes" if nf else "nofixes", "suggestions" if ns else "nosuggestions"))
    return pmap(one, cases)


@st.composite
def reports(draw):
    fs = draw(st.lists(weird_text(POOL, raw=False), min_size=1, max_size=6))
    return {"files": [f.encode("utf-8", "replace").decode() for f in fs], "seed": draw(st.integers(0, 2 ** 31))}


def evaluate_reports(cases):
    ans = probe(BIN["probe_linter"], [{"op": "report", "seed": c["seed"], "files": [{"name": f"f{i}.ts", "text": t} for i, t in enumerate(c["files"])]} for c in cases])
    out = []
    for c, a in zip(cases, ans):
        if "error" in a:
            raise Inconclusive(a["error"])
        fail = a["fail"] or None if "fail" in a else f"crashed: {a}"
        out.append(Verdict(fail=fail, key=canon(c) if a.get("reports", 0) > 8 else None, labels=("reports",)))
    return out


def make():
    chk = Check("C06", f"a project of 1-{PER} files of corpus snippets and malformed text, rules with generated options, type errors at random, run under all four flag combinations: no fixes or suggestions without their flag, everything else equal, and the same fixes with one flag or both; ranges of one diagnostic's fixes and of one suggestion in bounds and disjoint. Non-trivial = some fix or suggestion was produced. "
                "'reports': rules that report in all nine ways the rule context offers, at a random third of the node kinds, run through the linter's exported entry point under all flags with and without timing and 1-3 workers: each report arrives under its rule's name and file, complete, with its fixes and suggestions exactly when the flag asks for them. Non-trivial = more than one report per setting.",
                setup=setup)
    chk.add(Prop("reports", reports(), evaluate_reports, quick=1200, thorough=4000))
    chk.add(Prop("flags", case(), evaluate, quick=240, thorough=1500))
    return chk
