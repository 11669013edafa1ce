"""The command-line mode reports what headless mode reports."""
from vf.pbt import *
from vf.ws import *

BIN = {}
ANSI = re.compile("\x1b\\[[0-9;:]*m")
POOL = [c for c in snippet_pool(maxlen=700) if not CALL_ASSERT.search(c["Code"]) and not re.search("[\x1b\u256d\u2570\u2502]", c["Code"])]
GOSPACE = "\t\n\v\f\r \x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"
NL = re.compile("\r\n|[\n\r\u2028\u2029]")


@st.composite
def text(draw):
    segs = []
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.integers(0, 7))
        if k <= 2:
            segs.append(draw(st.sampled_from(POOL))["Code"])
        elif k == 3:
            segs.append(draw(weird_text(POOL, 2, raw=False)).replace("\ufeff", ""))
        elif k == 4:  # reports spanning many lines, blank and over-indented ones included
            n = draw(st.integers(0, 14))
            pad = [draw(st.sampled_from(["", "  ", "\t\t\t\t", " \u00a0 ", "x,", "      1,", "/* \U0001F600 */", "\u3000'\u4f60',"])) for _ in range(n)]
            segs.append(draw(st.sampled_from(["Promise.all([%s]);", "async function f() {%s}", "(async () => {%s})();", "    Promise.resolve({\n%s});", "void 0, Promise.reject([%s\n  ])"])).replace("%s", "\n".join([""] + [p if not p.endswith(",") or "{" not in "" else p for p in pad if True] + [""]) if n else ""))
        elif k == 5:
            segs.append("const é\U0001F600 = 1;" if draw(st.booleans()) else "/* \U0001F600\u4f60 */ Promise.resolve('\U0001F600');  ")
        elif k == 6:
            segs.append(draw(st.sampled_from([" " * 60, "\t", ""])) + "Promise.resolve(" + draw(st.sampled_from(["", "'" + "x" * 300 + "'", "`\n\n`", "'a\\\nb'"])) + ")" + draw(st.sampled_from([";", "", "   ", ";  // \u2029 "])))
        else:
            segs.append("")
    nl = draw(st.sampled_from(["\n", "\n", "\n", "\r\n", "\r", "\u2028", "\n\n\n", "\n\r"]))
    s = "\n".join(segs).replace("\n", nl) + draw(st.sampled_from(["", nl, nl * 2 + "  ", " "]))
    if CALL_ASSERT.search(s) or "\x1b" in s:
        s = "Promise.resolve(1)"
    return s


@st.composite
def case(draw):
    files = {}
    for j in range(draw(st.integers(1, 4))):
        files[draw(st.sampled_from(["", "src/", "src/deep/"])) + f"f{j}" + draw(st.sampled_from([".ts", ".ts", ".tsx", ".mts", ".d.ts"]))] = draw(text())
    if draw(st.booleans()) and files:
        files["imp.ts"] = "import '../outside';\nimport 'pkg';\nPromise.resolve();\n"
    return {"files": files, "mode": draw(st.sampled_from(["cwd", "cwd", "flag", "none"])), "opts": draw(st.sampled_from(COMPILER)), "list": draw(st.booleans()), "debug": draw(st.booleans()), "single": draw(st.booleans()), "procs": draw(st.sampled_from(["1", "3", "8"]))}


def linecol(t, lines, off):
    """1-based line and UTF-16 column of a byte offset"""
    i = max(k for k, (b, _) in enumerate(lines) if b <= off)
    return i + 1, len(t[lines[i][0]:off].decode("utf-8", "replace").encode("utf-16-le")) // 2 + 1


def lines_of(t):
    s = t.decode("utf-8")
    out, a = [], 0
    for m in NL.finditer(s):
        out.append((a, m.start()))
        a = m.end()
    out.append((a, len(s)))
    pre = [0]
    for ch in s:
        pre.append(pre[-1] + len(ch.encode()))
    return [(pre[x], s[x:y]) for x, y in out]


BLOCK = re.compile(r"^ (?:\x1b\[[0-9;]*m)+ (\S+) \x1b\[0m — (.*)$")
LOC = re.compile(r"^  ╭─┴──────────\( (.*):(\d+):(\d+) \)─────$")


def parse(out):
    """(listed files, blocks, rest) of the plain output"""
    s = out.decode("utf-8")
    parts = re.split(r"\n(?= \x1b\[7m\x1b\[1m\x1b\[38;5;37m \S+ \x1b\[0m — )", "\n" + s)
    blocks, tail = [], ""
    for k, b in enumerate(parts[1:]):
        b = ANSI.sub("", b)
        head, _, rest = b.partition("\n")
        m = re.match(r"^ +(\S+)  — (.*)$", head, re.S)
        loc, _, rest = rest.partition("\n")
        m2 = LOC.match(loc)
        body, sep, tail = (rest + "\n" if k < len(parts) - 2 else rest).partition("  ╰────────────────────────────────\n\n")
        if not m or not m2 or not sep:
            return None, None, f"block {k} is malformed: {b[:400]!r}"
        blocks.append((m.group(1), m.group(2), m2.group(1), int(m2.group(2)), int(m2.group(3)), body))
        if k < len(parts) - 2 and tail != "":
            return None, None, f"text between blocks: {tail[:200]!r}"
    head = parts[0][1:]
    if not blocks:
        tail, head = ANSI.sub("", head), head
        i = tail.rfind("Found ", 0, len(tail))
        while i > 0 and not re.match(r"Found \d", tail[i:]):
            i = tail.rfind("Found ", 0, i)
        head, tail = tail[:i], tail[i:]
    return re.findall(r"^Found file: (.*)$", head, re.M), blocks, tail


def evaluate(cases):
    def one(c):
        top = scratch()
        root = top + "/w"
        write_tree(top, {"outside.ts": "Promise.resolve();\nexport {};\n", "w/node_modules/pkg/index.ts": "Promise.resolve();\nexport {};\n", "w/.keep": "", **{f"w/{n}": t for n, t in c["files"].items()}})
        cfg = "{}" if c["mode"] == "none" else json.dumps({"compilerOptions": {**DEFAULT_OPTS, **c["opts"]}, "include": ["**/*"]})
        name = "tsconfig.json" if c["mode"] != "flag" else "tsconfig.x.json"
        if c["mode"] != "none":
            write_tree(root, {name: cfg})
        args = ["--list-files"] * c["list"] + ["--debug", "timings"] * c["debug"] + ["--singleThreaded"] * c["single"]
        if c["mode"] == "flag":
            args += ["--tsconfig", "w/" + name]
        r = run_bin(BIN["x"], args, cwd=top if c["mode"] == "flag" else root, env={"GOMAXPROCS": c["procs"]})
        write_tree(root, {"tsconfig.json": cfg})
        names = sorted(c["files"])
        h = headless(BIN["x"], request(root, [[n, [[x, None] for x in ALL]] for n in names]), root, ["--debug", "timings"])
        fail = crashed(h)
        if not fail and any(d["kind"] for d in h.diags):
            rmtree(top)
            return Verdict(labels=("invalid tsconfig",))
        if not fail and r.rc != 0:
            fail = f"exit status {r.rc}, stderr: {r.err[-1500:]}"
        nb = 0
        if not fail:
            listed, blocks, tail = parse(r.out)
            fail = tail if blocks is None else None
        if not fail:
            nb = len(blocks)
            data = {n: t.encode().removeprefix(b"\xef\xbb\xbf") for n, t in c["files"].items()}
            lines = {n: lines_of(t) for n, t in data.items()}
            want = collections.Counter((d["rule"], d["message"]["description"], os.path.relpath(d["file_path"], root), *linecol(data[os.path.relpath(d["file_path"], root)], lines[os.path.relpath(d["file_path"], root)], d["range"]["pos"])) for d in h.diags)
            fail = msdiff(collections.Counter(b[:5] for b in blocks), want, "plain output", "headless output")
            ends = collections.defaultdict(set)
            for d in h.diags:
                n = os.path.relpath(d["file_path"], root)
                ends[(d["rule"], n, *linecol(data[n], lines[n], d["range"]["pos"]))].add(linecol(data[n], lines[n], d["range"]["end"])[0])
        if not fail:
            m = re.match(r"Found (\d+) (errors?) \(linted (\d+) (files?) with (\d+) rules in \S+ using (\d+) threads\)\n", tail)
            if not m:
                fail = f"summary is {tail[:300]!r}"
            elif (int(m.group(1)), int(m.group(3)), int(m.group(5))) != (len(h.diags), len(names), len(ALL)):
                fail = f"summary {m.group(0)!r}, expected {len(h.diags)} errors, {len(names)} files, {len(ALL)} rules"
            elif c["list"] and sorted(listed) != names or not c["list"] and listed:
                fail = f"listed {listed}, linted {names}"
            elif c["debug"]:
                calls = {x[0]: int(x[1]) for x in re.findall(r"^(\S+) +[\d.]+ +[\d.]+% +(\d+)$", tail, re.M)}
                if calls != {t["rule_name"]: t["calls"] for t in h.timings[0]["rules"] or []}:
                    fail = f"the timing table gives {calls}"
            elif tail[m.end():]:
                fail = f"text behind the summary: {tail[m.end():][:200]!r}"
        if not fail:
            for rule, _, n, ln, col, body in blocks:
                if "Error range is too big" in body:
                    if max(ends[(rule, n, ln, col)]) - ln < 9:
                        fail = f"{n}:{ln}:{col} {rule}: a range up to line {ends[(rule, n, ln, col)]} is not shown as too big"
                    continue
                rows = re.split(r"^  │ +(\d+) │  ", body, flags=re.M)
                nums = [int(x) for x in rows[1::2]]
                if not nums or nums != list(range(nums[0], nums[0] + len(nums))) or nums[0] != max(ln - 1, 1) or nums[-1] not in {min(e + 1, len(lines[n])) for e in ends[(rule, n, ln, col)]}:
                    fail = f"{n}:{ln}:{col} {rule}: lines {nums} are quoted"
                    break
                for x, y in zip(nums, rows[2::2]):
                    src = lines[n][x - 1][1]
                    if not y.endswith("\n") or y[:-1].strip(GOSPACE) != ANSI.sub("", src).strip(GOSPACE) or y[:-1].strip(GOSPACE) and not src.startswith(src[: len(src) - len(src.lstrip(GOSPACE))]):
                        fail = f"{n}:{ln}:{col} {rule}: line {x} is quoted as {y!r}, it is {src!r}"
                        break
        rmtree(top)
        return Verdict(fail=fail, key=canon(c) if nb else None, labels=(c["mode"], "blocks" if nb else "silent"))
    return pmap(one, cases)


def make():
    chk = Check("C12", "a project of 0-4 files with every line terminator, blank, over-indented and very long lines, astral characters, reports spanning up to 16 lines, imports from outside and from node_modules; default tsconfig, --tsconfig or none at all, with and without --list-files, --debug timings, --singleThreaded. The parsed blocks (rule, message, path, line, UTF-16 column, quoted lines), the summary, the file list and the timing table are compared with the headless run and an independent line splitter. Non-trivial = at least one block is printed.",
                setup=lambda: BIN.update(x=build("tsgolint")["tsgolint"]), assumptions=["files whose assertions ask for a call are not generated (known finding ctxfree of C04)"])
    chk.add(Prop("plain", case(), evaluate, quick=400, thorough=4000))
    return chk
