"""Headless output is a well-formed message stream for any source text."""
from vf.pbt import *
from vf.gen import *

BIN = {}
ALL = rules()
POOL = snippet_pool()
BY_RULE = collections.defaultdict(list)
for c in POOL:
    BY_RULE[c["Rule"]].append(c)
EXTS = [".ts", ".tsx", ".mts", ".cts", ".js", ".jsx", ".d.ts"]


@st.composite
def text_case(draw):
    files = []
    for i in range(draw(st.integers(1, 3))):
        rs = ALL if draw(st.integers(0, 2)) else draw(st.lists(st.sampled_from(ALL), max_size=6, unique=True))
        files.append({"name": f"f{i}" + draw(st.sampled_from(EXTS)), "text": draw(weird_text(POOL)), "rules": rs})
    return {"files": files, "fix": draw(st.booleans()), "sugg": draw(st.booleans()), "types": draw(st.booleans()), "tsconfig": draw(st.booleans())}


def ranges_of(d):
    if d.get("range") is not None:
        yield "range", d["range"]
    for l in d.get("labeled_ranges", []) or []:
        yield "labelled range", l["range"]
    for f in d.get("fixes", []) or []:
        yield "fix range", f["range"]
    for s in d.get("suggestions", []) or []:
        for f in s["fixes"]:
            yield "suggestion range", f["range"]


def check_stream(r, root, want):
    """want: path -> (bytes, set of rules)"""
    c = crashed(r)
    if c:
        return c
    for t, pl in r.frames:
        if t not in (0, 1, 2):
            return f"message of unknown type {t}"
        if t != 1:
            return f"unexpected message of type {t}: {pl}"
        if not isinstance(pl, dict) or "kind" not in pl or not isinstance(pl.get("message"), dict) or not isinstance(pl["message"].get("id"), str) or not isinstance(pl["message"].get("description"), str):
            return f"diagnostic without the required members: {pl}"
        p = pl.get("file_path")
        if pl["kind"] == 0:
            if p not in want:
                return f"rule diagnostic for a file that was not requested: {pl}"
            if pl.get("rule") not in want[p][1]:
                return f"diagnostic of a rule not requested for this file: {pl}"
            if not pl.get("range"):
                return f"rule diagnostic without a range: {pl}"
        elif pl["kind"] == 1:
            if p not in want:
                return f"type-error diagnostic for a file that was not requested: {pl}"
        else:
            return f"unknown diagnostic kind: {pl}"
        b, _ = want[p]
        if b.startswith(b"\xef\xbb\xbf"):
            b = b[3:]
        try:
            b.decode("utf-8")
            valid = True
        except UnicodeDecodeError:
            valid = False
        for what, rg in ranges_of(pl):
            if not (0 <= rg["pos"] <= rg["end"] <= len(b)):
                return f"{what} out of bounds (file has {len(b)} bytes): {pl}"
            if valid:
                for x in (rg["pos"], rg["end"]):
                    if x < len(b) and (b[x] & 0xC0) == 0x80:
                        return f"{what} ends inside a character: {pl}"
    return None


def eval_text(cases):
    def one(case):
        root = scratch()
        tree = {f["name"]: enc(f["text"]) for f in case["files"]}
        if case["tsconfig"]:
            tree["tsconfig.json"] = tsconfig({**DEFAULT_OPTS, "allowJs": True, "noEmit": True}, files=[f["name"] for f in case["files"]])
        write_tree(root, tree)
        cfg = [{"file_paths": [f"{root}/{f['name']}"], "rules": [{"name": n} for n in f["rules"]]} for f in case["files"]]
        args = (["--fix"] if case["fix"] else []) + (["--fix-suggestions"] if case["sugg"] else [])
        pl = {"version": 2, "configs": cfg, "report_syntactic": case["types"], "report_semantic": case["types"]}
        r = headless(BIN["x"], pl, root, args)
        want = {f"{root}/{f['name']}": (tree[f["name"]], set(f["rules"])) for f in case["files"]}
        fail = check_stream(r, root, want)
        if not fail and (case["fix"] or case["sugg"]):
            # nothing may get lost in transport: the plain run reports the same set
            r0 = headless(BIN["x"], pl, root)
            fail = check_stream(r0, root, want) or msdiff(multiset(r.diags, root, ("fixes", "suggestions")), multiset(r0.diags, root, ("fixes", "suggestions")), "run with fixes", "plain run")
        non_ascii = any(any(ord(ch) > 127 for ch in f["text"]) for f in case["files"])
        rmtree(root)
        return Verdict(fail=fail, key=hashlib.sha1(canon(case).encode()).hexdigest() if r.diags and non_ascii else None,
                       labels=(("diags" if r.diags else "silent"), ("non-ascii" if non_ascii else "ascii"), ("fix" if case["fix"] else "nofix")))
    return pmap(one, cases)


@st.composite
def volume_case(draw):
    n = draw(st.sampled_from([0, 1, 2, 7, 100, 1000, 4095, 4096, 4097, 9000]))
    return {"n": n, "pad": draw(st.sampled_from(["", "x", "\u4f60", "\U0001F600" * 3])), "wide": draw(st.sampled_from([1, 10, 3000, 5000, 400000, 500000])), "fix": draw(st.booleans())}


def eval_volume(cases):
    def one(case):
        root = scratch()
        lit = "k" * case["wide"]
        head = f"declare function p(): Promise<void>; /*{case['pad']}*/ const u = `${{'{lit}'}}b`;\n"
        line = f"p(); /*{case['pad']}*/\n"
        text = head + line * case["n"]
        write_tree(root, {"a.ts": text, "tsconfig.json": tsconfig(files=["a.ts"])})
        r = headless(BIN["x"], {"version": 2, "configs": [{"file_paths": [root + "/a.ts"], "rules": [{"name": "no-floating-promises"}, {"name": "no-unnecessary-template-expression"}]}]}, root, ["--fix"] if case["fix"] else [])
        fail = check_stream(r, root, {root + "/a.ts": (text.encode(), {"no-floating-promises", "no-unnecessary-template-expression"})})
        if not fail:
            hb, lb = len(head.encode()), len(line.encode())
            want = collections.Counter((hb + i * lb, hb + i * lb + 3) for i in range(case["n"]))
            got = collections.Counter((d["range"]["pos"], d["range"]["end"]) for d in r.diags if d["rule"] == "no-floating-promises")
            if want != got:
                fail = f"{case['n']} floating promises, {sum(got.values())} reported; missing {list((want - got).elements())[:3]} extra {list((got - want).elements())[:3]}"
            sw = [d for d in r.diags if d["rule"] == "no-unnecessary-template-expression"]
            if len(sw) != 1 or case["fix"] and not any(lit in f["text"] for f in sw[0]["fixes"]):
                fail = fail or f"expected one template diagnostic (with a fix quoting the {case['wide']}-character literal: {case['fix']}), got {str(sw)[:300]}"
        rmtree(root)
        return Verdict(fail=fail, key=canon(case) if case["n"] else None, labels=(f"n={case['n']}", f"wide={case['wide']}"))
    return pmap(one, cases)


def make():
    chk = Check("C01", "text: 1-3 files of corpus snippets, weird Unicode, broken fragments, raw invalid bytes, BOMs, any line ending; non-trivial = diagnostics were reported and some file is non-ASCII. volume: n copies of a violation whose exact ranges are known; non-trivial = n > 0.",
                setup=lambda: BIN.update(x=build("tsgolint")["tsgolint"]))
    chk.add(Prop("text", text_case(), eval_text, quick=500, thorough=6000))
    chk.add(Prop("volume", volume_case(), eval_volume, quick=24, thorough=80))
    return chk
