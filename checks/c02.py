"""Invalid headless requests are refused, never half-executed."""
from vf.pbt import *
from vf.gen import *

BIN = {}
# A reference reader of the request format: what is a valid request.
MAXINT = 2 ** 63 - 1


def spec_valid(b):
    """('ok', version) | 'bad' | 'unknown' (left open: duplicate keys, odd encodings...)."""
    try:
        t = b.decode("utf-8")
    except UnicodeDecodeError:
        return "bad"
    dup = []

    def hook(pairs):
        ks = [k for k, _ in pairs]
        if len(set(k.lower() for k in ks)) != len(ks):
            dup.append(1)
        return dict(pairs)

    def const(x):
        raise ValueError(x)
    try:
        j = json.loads(t, object_pairs_hook=hook, parse_constant=const)
    except (ValueError, RecursionError):
        return "bad"
    if dup:
        return "unknown"
    if not isinstance(j, dict):
        return "bad" if j is not None else "unknown"
    v = j.get("version", 0)
    if v is None:
        v = 0
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return "bad"
    if isinstance(v, float) or abs(v) > MAXINT:
        return "bad" if v != int(v) or True else "unknown"
    if v == 0:
        fs = j.get("files")
        if fs is None:
            return "bad"
        if not isinstance(fs, list) or not fs:
            return "bad"
        for f in fs:
            if f is None:
                return "unknown"
            if not isinstance(f, dict):
                return "bad"
            if f.get("file_path") is None:
                return "unknown"
            if not isinstance(f["file_path"], str):
                return "bad"
            r = f.get("rules")
            if r is None:
                continue
            if not isinstance(r, list) or any(x is not None and not isinstance(x, str) for x in r):
                return "bad"
            if any(x is None for x in r):
                return "unknown"
        return ("ok", 1)
    if v != 2:
        return "bad"
    for k in ("report_syntactic", "report_semantic"):
        if j.get(k) is not None and not isinstance(j[k], bool):
            return "bad"
    so = j.get("source_overrides")
    if so is not None:
        if not isinstance(so, dict) or any(x is not None and not isinstance(x, str) for x in so.values()):
            return "bad"
    cs = j.get("configs")
    if cs is None:
        return ("ok", 2)
    if not isinstance(cs, list):
        return "bad"
    for c in cs:
        if c is None:
            continue
        if not isinstance(c, dict):
            return "bad"
        fp, rs = c.get("file_paths"), c.get("rules")
        if fp is not None and (not isinstance(fp, list) or any(x is not None and not isinstance(x, str) for x in fp)):
            return "bad"
        if fp and any(x is None for x in fp):
            return "unknown"
        if rs is not None:
            if not isinstance(rs, list):
                return "bad"
            for r in rs:
                if r is None:
                    return "unknown"
                if not isinstance(r, dict):
                    return "bad"
                if r.get("name") is None:
                    return "unknown"
                if not isinstance(r["name"], str):
                    return "bad"
    return ("ok", 2)


SRC = "async function f(): Promise<void> {}\nf();\nconst a = [1, 2]; delete a[0];\n"
JV = st.recursive(st.none() | st.booleans() | st.integers(-5, 5) | st.sampled_from([2, 1.5, 1e30, -1, 3, 2.0, "2", "x", ""]) | st.text("abc\u00e9", max_size=4), lambda c: st.lists(c, max_size=3) | st.dictionaries(st.sampled_from(["name", "rules", "file_path", "file_paths", "version", "x"]), c, max_size=3), max_leaves=5)


@st.composite
def request_case(draw):
    """A valid request, then JSON-level and byte-level damage."""
    v1 = draw(st.booleans())
    rs = draw(st.lists(st.sampled_from(["no-floating-promises", "no-array-delete", "await-thenable"]), max_size=3, unique=True))
    if v1:
        req = {"files": [{"file_path": "@ROOT@/a.ts", "rules": rs}] * draw(st.integers(0, 2))}
        k = draw(st.integers(0, 3))
        if k == 1:
            req = {"version": 0, **req}
        elif k == 2:
            req = {**req, "version": draw(st.sampled_from([1, 3, -1, 7, 2 ** 31, 2 ** 63, 1.5, "2", True, None, [2], 20, 22]))}
    else:
        req = {"version": 2, "configs": [{"file_paths": ["@ROOT@/a.ts"], "rules": [{"name": r} for r in rs]}] * draw(st.integers(0, 2))}
        for k in ("report_syntactic", "report_semantic"):
            if draw(st.booleans()):
                req[k] = draw(st.booleans())
        if draw(st.integers(0, 3)) == 0:
            req["source_overrides"] = {"@ROOT@/a.ts": SRC}
    for _ in range(draw(st.sampled_from([0, 1, 1, 2]))):
        # replace, remove or add something at a random path
        node, parents = req, []
        while isinstance(node, (dict, list)) and node and draw(st.integers(0, 3)):
            ks = list(node) if isinstance(node, dict) else list(range(len(node)))
            k = draw(st.sampled_from(ks))
            parents.append((node, k))
            node = node[k]
        op = draw(st.integers(0, 3))
        req = json.loads(json.dumps(req))
        if not parents:
            if op == 0:
                req = draw(JV)
            elif isinstance(req, dict):
                req[draw(st.sampled_from(["version", "files", "configs", "report_syntactic", "report_semantic", "source_overrides", "extra"]))] = draw(JV)
            continue
        node = req
        ks = [k for _, k in parents]
        for k in ks[:-1]:
            node = node[k]
        if op == 0 and isinstance(node, dict):
            node.pop(ks[-1])
        else:
            node[ks[-1]] = draw(JV)
    text = json.dumps(req)
    cuts = []
    k = draw(st.integers(0, 9))
    if k == 0 and text:
        text = text[: draw(st.integers(0, len(text) - 1))]
    elif k == 1:
        i = draw(st.integers(0, len(text)))
        text = text[:i] + draw(st.sampled_from(["\udcff", "\udcc3", ",", "}", "{", "]", "\"", "\0", " ", "\n", "x", "1", "\\", "\ufeff", "NaN", "'"])) + text[i:]
    elif k == 2 and text:
        i = draw(st.integers(0, len(text) - 1))
        text = text[:i] + text[i + 1:]
    elif k == 3:
        text = draw(st.sampled_from(["", " ", "null", "[]", "{}", "0", "\"\"", text + text, text + "\0", text + "x", "\x00\x01", "\udcff\udcfe" + text, text + " \n\t", "// c\n" + text, "/*c*/" + text]))
    args = draw(st.sampled_from([[], [], [], ["-fix"], ["--fix", "--fix-suggestions"], ["-debug", "timings"], ["-debug", "timings,"], ["-debug", "nope"], ["-debug", "timings,bogus"], ["-debug", "Timings"], ["-debug", " timings"], ["-debug", ","]]))
    return {"stdin": text, "args": args}


def bad_args(args):
    if "-debug" in args:
        return any(o not in ("", "timings") for o in args[args.index("-debug") + 1].split(","))
    return False


def evaluate(cases):
    def one(case):
        root = scratch()
        write_tree(root, {"a.ts": SRC, "tsconfig.json": tsconfig(files=["a.ts"])})
        data = enc(case["stdin"].replace("@ROOT@", root))
        r = headless(BIN["x"], data, root, case["args"], timeout=60)
        spec = spec_valid(data)
        fail = None
        if r.junk:
            fail = f"stdout is not a message stream: {r.junk}"
        elif bad_args(case["args"]):
            if r.rc == 0 or r.out or not r.err:
                fail = f"unknown debug option accepted: status {r.rc}, {len(r.frames)} messages"
            spec = "badargs"
        elif spec == "bad":
            if r.rc == 0:
                fail = f"an invalid request was accepted (status 0, {len(r.diags)} diagnostics)"
            elif r.diags or len(r.frames) != 1 or r.frames[0][0] != 0:
                fail = f"an invalid request was not answered by exactly one error message: {r.frames[:3]}, stderr {r.err[-500:]}"
            elif not isinstance(r.frames[0][1].get("error"), str) or not r.frames[0][1]["error"]:
                fail = f"empty error message: {r.frames}"
            elif r.rc != 1 or "panic" in r.err or "goroutine " in r.err:
                fail = f"an invalid request made the process crash: status {r.rc}, stderr {r.err[-500:]}"
            else:
                try:
                    v = json.loads(data.decode("utf-8")).get("version")
                    if isinstance(v, int) and not isinstance(v, bool) and v not in (0, 2) and abs(v) <= MAXINT and str(v) not in r.frames[0][1]["error"]:
                        fail = f"the unsupported version {v} is not named: {r.frames}"
                except (ValueError, AttributeError):
                    pass
        elif isinstance(spec, tuple):
            j = json.loads(data.decode())
            names = [x for f in j.get("files") or [] for x in f.get("rules") or []] if spec[1] == 1 else [x["name"] for c in j.get("configs") or [] if c for x in c.get("rules") or []]
            paths = [f["file_path"] for f in j.get("files") or []] if spec[1] == 1 else [p for c in j.get("configs") or [] if c for p in c.get("file_paths") or []]
            so = j.get("source_overrides") if spec[1] == 2 else None
            if any(n not in ("no-floating-promises", "no-array-delete", "await-thenable") for n in names) or any(p != root + "/a.ts" for p in paths) or (so and so.get(root + "/a.ts") != SRC):
                spec = "foreign"  # well-formed, but names unknown rules or files: answered elsewhere
            else:
                want = set()
                if paths:
                    last = ([f.get("rules") or [] for f in j["files"]][-1]) if spec[1] == 1 else [[x["name"] for x in c.get("rules") or []] for c in j["configs"] if c and c.get("file_paths")][-1]
                    want = {n for n in last if n != "await-thenable"}
                got = [d for d in r.diags if d["kind"] == 0]
                if r.rc != 0 or r.errors:
                    fail = f"a valid request was refused: status {r.rc}, {r.errors}, stderr {r.err[-600:]}"
                elif {d["rule"] for d in got} != want:
                    fail = f"a valid version-{spec[1]} request ran {sorted({d['rule'] for d in got})}, asked for {sorted(want)}"
        rmtree(root)
        lab = spec if isinstance(spec, str) else f"valid-v{spec[1]}"
        return Verdict(fail=fail, key=canon(case) if lab in ("bad", "badargs", "valid-v1", "valid-v2") else None, labels=(lab,))
    return pmap(one, cases, 8)


def make():
    chk = Check("C02", "a valid request of either version, damaged at JSON level (replace/remove/add at a random path) and byte level (truncation, insertion, deletion, garbage, invalid UTF-8), with generated debug options; non-trivial = the reference reader decides it (valid or invalid, not left open).",
                setup=lambda: BIN.update(x=build("tsgolint")["tsgolint"]),
                assumptions=["requests the format leaves open (duplicate or case-variant keys, null members) are only required not to corrupt the stream"])
    chk.add(Prop("requests", request_case(), evaluate, quick=700, thorough=8000))
    return chk
