"""The npm launcher is transparent."""
import base64
from vf.pbt import *

# A stand-in for the binary: records what it is given and does what the plan says.
STUB = """#!%s -IS
import os, sys, json, base64, signal, hashlib
here = os.path.dirname(os.path.abspath(__file__))
plan = json.load(open(os.path.join(here, "plan.json")))
b = lambda x: base64.b64encode(x).decode()
data = sys.stdin.buffer.read() if plan["read"] else b""
rec = {"argv": [b(os.fsencode(a)) for a in sys.argv[1:]], "stdin": hashlib.sha256(data).hexdigest(), "env": sorted([b(k), b(v)] for k, v in os.environb.items()), "cwd": os.getcwd()}
json.dump(rec, open(os.path.join(here, "record.json"), "w"))
for fd, k in ((1, "out"), (2, "err")):
    w = base64.b64decode(plan[k]) * plan["times"]
    while w:
        w = w[os.write(fd, w):]
if plan["signal"]:
    os.kill(os.getpid(), plan["signal"])
os._exit(plan["exit"])
"""
NODE = shutil.which("node") or "/usr/local/bin/node"
PARTS = ["a", "-", "--", "--fix", "=", " ", "'", '"', "\\", "$HOME", "*", "\n", "\t", "\u00e9", "\U0001F600", ";", "&&", "%PATH%", "--inspect", "-e", "--version", "@x", "\x7f", "{", "}"]


def text(r, n=5):
    return "".join(r.choice(PARTS) for _ in range(r.randint(0, n)))


def generate(r, n):
    out = []
    blob = lambda: base64.b64encode(bytes(r.randrange(256) for _ in range(r.choice([0, 1, 10, 100])))).decode()
    for i in range(n):
        fate = r.choice(["exit"] * 8 + ["signal", "missing", "not executable", "no package"])
        out.append({"args": [text(r) for _ in range(r.choice([0, 1, 2, 3, 8]))], "stdin": blob(), "in_times": r.choice([1, 1, 1, 3000]), "read": r.random() < 0.9, "out": blob(), "err": blob(), "times": r.choice([1, 1, 1, 1, 20000]),
                    "exit": r.choice([0, 0, 1, 1, 2, 3, 42, 100, 126, 127, 128, 130, 137, 254, 255, r.randrange(256)]), "signal": r.choice([1, 2, 6, 9, 11, 15]) if fate == "signal" else 0, "fate": fate,
                    "env": {"V" + str(k): text(r) for k in range(r.randint(0, 3))}, "via": r.choice(["direct", "link"])})
    return out


def evaluate(batch):
    def one(c):
        root = scratch("n")
        src = REPO + "/npm/core/bin/tsgolint.js"
        mod = f"{root}/node_modules"
        arch = {"x86_64": "x64", "aarch64": "arm64"}.get(os.uname().machine, os.uname().machine)
        pkg = f"{mod}/@oxlint-tsgolint/linux-{arch}"
        os.makedirs(f"{mod}/oxlint-tsgolint/bin")
        os.makedirs(f"{mod}/.bin")
        os.makedirs(f"{root}/w d")
        shutil.copy(src, f"{mod}/oxlint-tsgolint/bin/tsgolint.js")
        os.symlink("../oxlint-tsgolint/bin/tsgolint.js", f"{mod}/.bin/tsgolint")
        for other in ("linux-arm64", "linux-x64", "darwin-arm64", "win32-x64"):  # only this platform's counts
            if other != f"linux-{arch}":
                write_tree(f"{mod}/@oxlint-tsgolint/{other}", {"tsgolint": "#!/bin/sh\nexit 0\n", "tsgolint.exe": "", "package.json": "{}"})
                os.chmod(f"{mod}/@oxlint-tsgolint/{other}/tsgolint", 0o755)
        if c["fate"] != "no package":
            write_tree(pkg, {"package.json": json.dumps({"name": f"@oxlint-tsgolint/linux-{arch}"}), "plan.json": json.dumps(c)})
            if c["fate"] != "missing":
                write_tree(pkg, {"tsgolint": STUB % "/usr/bin/python3"})
                os.chmod(f"{pkg}/tsgolint", 0o644 if c["fate"] == "not executable" else 0o755)
        env = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent", **c["env"]}
        data = base64.b64decode(c["stdin"]) * c["in_times"]
        path = f"{mod}/oxlint-tsgolint/bin/tsgolint.js" if c["via"] == "direct" else f"{mod}/.bin/tsgolint"
        try:
            with open(f"{root}/in", "wb") as f:
                f.write(data)
            with open(f"{root}/in", "rb") as f:
                r = subprocess.run([NODE, path, *c["args"]], stdin=f, capture_output=True, cwd=f"{root}/w d", env=env, timeout=60)
        except subprocess.TimeoutExpired:
            raise Inconclusive("the launcher did not end")
        fail = None
        rec = json.load(open(f"{pkg}/record.json")) if os.path.exists(f"{pkg}/record.json") else None
        b = lambda x: base64.b64encode(x).decode()
        if c["fate"] in ("missing", "no package", "not executable"):
            if r.returncode == 0:
                fail = f"{c['fate']}: reports success"
        elif rec is None:
            fail = f"the binary was not run: exit {r.returncode}, {r.stderr[-300:]}"
        else:
            if rec["argv"] != [b(os.fsencode(a)) for a in c["args"]]:
                fail = f"arguments {c['args']} arrived as {[base64.b64decode(x) for x in rec['argv']]}"
            elif c["read"] and rec["stdin"] != hashlib.sha256(data).hexdigest():
                fail = "standard input arrived changed"
            elif [e for e in rec["env"] if base64.b64decode(e[0]) not in (b"LC_CTYPE",)] != sorted([b(os.fsencode(k)), b(os.fsencode(v))] for k, v in env.items()):
                fail = f"the environment arrived as {[(base64.b64decode(k), base64.b64decode(v)) for k, v in rec['env']]}"
            elif rec["cwd"] != f"{root}/w d":
                fail = f"working directory {rec['cwd']}"
            elif r.stdout != base64.b64decode(c["out"]) * c["times"]:
                fail = f"standard output changed: {len(r.stdout)} bytes"
            elif c["fate"] == "signal":
                if r.returncode == 0:
                    fail = f"killed by signal {c['signal']}: reports success"
                elif not r.stderr.startswith(base64.b64decode(c["err"]) * c["times"]):
                    fail = "error stream changed"
            elif r.returncode != c["exit"]:
                fail = f"the binary ended with {c['exit']}, the launcher with {r.returncode}"
            elif r.stderr != base64.b64decode(c["err"]) * c["times"]:
                fail = f"error stream changed: {r.stderr[-200:]}"
        rmtree(root)
        return Verdict(fail=f"{fail}\n{json.dumps(c)[:600]}" if fail else None, key=canon(c), labels=(c["fate"], c["via"]))
    return pmap(one, batch, 8)


def reduce(c):
    for k, v in (("args", []), ("stdin", ""), ("out", ""), ("err", ""), ("env", {}), ("times", 1), ("in_times", 1), ("exit", 1), ("via", "direct")):
        if c[k] != v and (k != "exit" or c[k] > 1):
            yield {**c, k: v}
    for i in range(len(c["args"])):
        yield {**c, "args": c["args"][:i] + c["args"][i + 1 :]}


def make():
    chk = Check("C34", "random arguments (empty, quotes, new lines, non-ASCII, options of node), standard input (up to 300 kB) and environment given to the launcher, installed next to a stand-in binary that records them and produces random output (up to 2 MB), any exit status or a signal; called directly and through a .bin link; also with the binary missing, not executable or its package not installed (while other platforms' packages are). Every case counts as non-trivial.")
    chk.add(GProp("launch", generate, evaluate, lambda c: list(reduce(c)), quick=600, thorough=6000))
    return chk
