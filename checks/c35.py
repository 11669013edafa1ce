"""Release packaging puts every platform's binary in the right package."""
from vf.pbt import *

NODE = shutil.which("node") or "/usr/local/bin/node"
GO = {("windows", "amd64"): "win32-x64", ("windows", "arm64"): "win32-arm64", ("linux", "amd64"): "linux-x64", ("linux", "arm64"): "linux-arm64", ("darwin", "amd64"): "darwin-x64", ("darwin", "arm64"): "darwin-arm64"}
STALE = ["npm/linux-x64/old.txt", "npm/win32-x64/tsgolint", "npm/darwin-arm64/package.json", "npm/win32-arm64/sub/x", "npm/core/package.json", "npm/linux-arm64/tsgolint"]


def generate(r, n):
    out = []
    for _ in range(n):
        v = r.choice(["0.0.1", "1.2.3", "10.0.0-beta.1", "0.23.1+build", "1.0.0-rc.1+a", f"{r.randrange(99)}.{r.randrange(99)}.{r.randrange(999)}"])
        fate = r.choice(["ok"] * 5 + ["no version", "no artifact", "no license", "directory"])
        out.append({"version": v, "fate": fate, "which": r.randrange(6), "seed": r.randrange(1 << 30), "stale": r.sample(STALE, r.randint(0, 3)), "size": r.choice([0, 1, 5000, 300000]), "cwd": r.choice(["root", "tools", "elsewhere"]), "extra": r.random() < 0.3})
    return out


def evaluate(batch):
    def one(c):
        root = scratch("p")
        rnd = random.Random(c["seed"])
        repo = root + "/repo"
        for f in ("tools/gen-npm-packages.mjs", "npm/core/bin/tsgolint.js", "LICENSE", "README.md"):
            os.makedirs(os.path.dirname(f"{repo}/{f}"), exist_ok=True)
            shutil.copy(f"{REPO}/{f}", f"{repo}/{f}")
        lic = open(f"{repo}/LICENSE", "rb").read()
        arts = {}
        for k, (goos, arch) in enumerate(GO):
            arts[(goos, arch)] = f"{goos} {arch} ".encode() + rnd.randbytes(c["size"])
            p = f"{repo}/build/tsgolint-{goos}-{arch}"
            if c["fate"] == "no artifact" and k == c["which"]:
                if c["seed"] % 2:
                    os.makedirs(p)
                continue
            os.makedirs(p)
            if c["fate"] == "directory" and k == c["which"]:
                os.makedirs(p + "/tsgolint")
                continue
            with open(p + "/tsgolint", "wb") as f:
                f.write(arts[(goos, arch)])
            os.chmod(p + "/tsgolint", 0o755)
        if c["extra"]:
            write_tree(repo, {"build/tsgolint-freebsd-amd64/tsgolint": "x", "build/tsgolint-linux-386/tsgolint": "x"})
        write_tree(repo, {s: "stale" for s in c["stale"]})
        if c["fate"] == "no license":
            os.unlink(f"{repo}/LICENSE")
        env = {"PATH": "/usr/bin:/bin", "HOME": "/nonexistent"}
        if c["fate"] != "no version":
            env["TSGOLINT_VERSION"] = c["version"]
        os.makedirs(root + "/elsewhere")
        try:
            r = subprocess.run([NODE, f"{repo}/tools/gen-npm-packages.mjs"], cwd={"root": repo, "tools": repo + "/tools", "elsewhere": root + "/elsewhere"}[c["cwd"]], env=env, capture_output=True, timeout=60)
        except subprocess.TimeoutExpired:
            raise Inconclusive("the packaging script did not end")
        fail = None
        if c["fate"] != "ok":
            if r.returncode == 0:
                fail = f"{c['fate']}: reports success"
        elif r.returncode:
            fail = f"failed: {r.stderr[-400:].decode('utf-8', 'replace')}"
        else:
            fail = packages(c, repo, arts, lic)
        if not fail and os.listdir(root + "/elsewhere"):
            fail = "wrote files into the working directory"
        rmtree(root)
        return Verdict(fail=fail, key=canon(c), labels=(c["fate"],))
    return pmap(one, batch, 8)


def packages(c, repo, arts, lic):
    have = sorted(os.listdir(repo + "/npm"))
    if have != sorted(["core", *GO.values()]):
        return f"packages {have}"
    for (goos, arch), name in GO.items():
        d = f"{repo}/npm/{name}"
        platform, cpu = name.split("-")
        exe = "tsgolint.exe" if platform == "win32" else "tsgolint"
        try:
            j = json.load(open(d + "/package.json"))
        except ValueError as e:
            return f"{name}/package.json: {e}"
        want = {"name": f"@oxlint-tsgolint/{name}", "version": c["version"], "os": [platform], "cpu": [cpu], "files": [exe], "license": "MIT"}
        for k, v in want.items():
            if j.get(k) != v:
                return f"{name}: {k} is {j.get(k)!r}, expected {v!r}"
        pc = j.get("publishConfig") or {}
        if pc.get("access") != "public" or pc.get("executableFiles") != [exe]:
            return f"{name}: publishConfig {pc}"
        if sorted(os.listdir(d)) != sorted(["package.json", "LICENSE", exe]):
            return f"{name} contains {sorted(os.listdir(d))}"
        if open(f"{d}/{exe}", "rb").read() != arts[(goos, arch)]:
            return f"{name}/{exe} is not the binary for {goos} {arch}"
        if not os.stat(f"{d}/{exe}").st_mode & 0o111:
            return f"{name}/{exe} is not executable"
        if open(f"{d}/LICENSE", "rb").read() != lic:
            return f"{name}: the licence differs"
    j = json.load(open(f"{repo}/npm/core/package.json"))
    if j.get("name") != "oxlint-tsgolint" or j.get("version") != c["version"]:
        return f"core package is {j.get('name')} {j.get('version')}"
    if j.get("optionalDependencies") != {f"@oxlint-tsgolint/{n}": c["version"] for n in GO.values()}:
        return f"core package depends on {j.get('optionalDependencies')}"
    if j.get("dependencies") or j.get("os") or j.get("cpu"):
        return f"core package is restricted: {j}"
    b = (j.get("bin") or {}).get("tsgolint")
    if not b or not os.path.isfile(f"{repo}/npm/core/{b}"):
        return f"core package's bin is {j.get('bin')}"
    if open(f"{repo}/npm/core/LICENSE", "rb").read() != lic or open(f"{repo}/npm/core/README.md", "rb").read() != open(f"{repo}/README.md", "rb").read():
        return "core package's licence or readme differ"
    if open(f"{repo}/npm/core/bin/tsgolint.js", "rb").read() != open(f"{REPO}/npm/core/bin/tsgolint.js", "rb").read():
        return "the launcher was changed"
    # what the launcher asks for on each platform is in that platform's package
    for (goos, arch), name in GO.items():
        p, cpu = name.split("-")
        src = open(f"{repo}/npm/core/{b}").read()
        code = f"Object.defineProperty(process,'platform',{{value:'{p}'}});Object.defineProperty(process,'arch',{{value:'{cpu}'}});const r0=require;const req=n=>n.startsWith('node:')?process.getBuiltinModule(n):r0(n);req.resolve=n=>(console.log(n),'/x');process.getBuiltinModule('child_process').execFileSync=()=>{{}};new Function('require',{json.dumps(re.sub(r'^#!.*', '', src))})(req);"
        r = subprocess.run([NODE, "-e", code], capture_output=True, text=True, timeout=60)
        asked = r.stdout.strip().split("\n")[-1]
        if not asked.startswith("@oxlint-tsgolint/"):
            continue  # it looks for the package in another way
        if not asked.startswith(f"@oxlint-tsgolint/{name}/") or not os.path.isfile(f"{repo}/npm/{name}/" + asked[len(f"@oxlint-tsgolint/{name}/"):]):
            return f"on {name} the launcher asks for {asked!r}, which is not in the package: {r.stderr[-300:]}"
    return None


def make():
    chk = Check("C35", "the packaging script run in a scratch copy with random versions and artifact contents, stale packages from earlier runs, extra artifacts and different working directories; or with the version, an artifact or the licence missing. The written packages are compared with the platform table, and what the launcher resolves on each platform must be in that platform's package. Every case counts as non-trivial.")
    chk.add(GProp("package", generate, evaluate, lambda c: [{**c, "stale": [], "extra": False, "size": 1, "cwd": "root"}], quick=150, thorough=1500))
    return chk
