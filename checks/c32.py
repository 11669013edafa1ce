"""Shims expose exactly the pinned compiler's internals."""
from vf.pbt import *

PKGS = ["ast", "bundled", "checker", "compiler", "core", "jsnum", "lsp/lsproto", "parser", "project", "scanner", "tsoptions", "tspath", "vfs", "vfs/cachedvfs", "vfs/osvfs"]
ST = {}


def setup():
    b = build("shimcheck", "gen_shims")
    os.makedirs(BUILD + "/shim", exist_ok=True)
    with build_lock():
        r = subprocess.run([b["shimcheck"], "-dir", REPO, "-flags", f"-modfile={BUILD}/shimcheck.mod -overlay={BUILD}/overlay.shimcheck.json", "-pkgs", ",".join(PKGS),
                            "-shims", REPO + "/shim", "-out", BUILD + "/shim/main.new"], env=go_env(), capture_output=True, text=True, timeout=600)
        try:
            o = json.loads(r.stdout)
        except ValueError:
            raise Inconclusive("comparing the shims statically: " + r.stderr[-2000:])
        if o["error"]:
            raise Inconclusive("the shims do not load: " + o["error"][:2000])
        from vf.core import _write_if_changed
        _write_if_changed(BUILD + "/shim/main.go", open(BUILD + "/shim/main.new").read())
    b.update(build("shimcmp"))
    ST.update(b)
    ST["static"] = {(f["class"], f["pkg"], f["name"]): f["what"] for f in o["static"]}
    ST["runtime"] = [(f["class"], f["pkg"], f["name"]) for f in o["runtime"]] + [("var", "ast", "DefaultLocale()"), ("var", "ast", "DiagnosticsMessage")]
    ST["regen"] = regenerate(b)


def regenerate(b):
    """{(package, declaration): (committed, regenerated)} from a run of the project's generator in a scratch copy."""
    d = scratch("shim")
    shutil.copytree(REPO + "/shim", d + "/shim")
    for root, _, files in os.walk(d + "/shim"):
        for f in files:
            if f == "shim.go":
                os.unlink(os.path.join(root, f))
    m = d + "/shim/compiler/go.mod"
    text = open(m).read()
    open(m, "w").write(text + f"\nreplace github.com/microsoft/typescript-go => {BUILD}/tsgo\n")
    shutil.copy(BUILD + "/gen_shims.sum", d + "/shim/compiler/go.sum")
    r = subprocess.run([b["gen_shims"]], cwd=d, env=go_env(), capture_output=True, text=True, timeout=600)
    out = {}
    if r.returncode:
        out[("", "the generator")] = ("exit status 0", f"exit status {r.returncode}: {(r.stdout + r.stderr)[-500:]}")
        return out

    def api(files):
        q = subprocess.run([b["shimcheck"], "-api", ",".join(files)], capture_output=True, text=True)
        return json.loads(q.stdout)
    for p in PKGS:
        have = f"{REPO}/shim/{p}"
        everything = api([f"{have}/{f}" for f in sorted(os.listdir(have)) if f.endswith(".go")])
        generated = api([have + "/shim.go"]) if os.path.exists(have + "/shim.go") else {}
        new = api([f"{d}/shim/{p}/shim.go"]) if os.path.exists(f"{d}/shim/{p}/shim.go") else {}
        for k in sorted({*generated, *new}):
            a, z = everything.get(k), new.get(k)
            if a and z and k.startswith("func ") and (" = " in a) != (" = " in z):
                a, z = a.split(" = ")[0], z.split(" = ")[0]     # written out by hand: what it does is compared at run time
            out[(p, k)] = (a, z)
    return out


def generate(r, n):
    out = [{"kind": "static", "of": list(k)} for k in sorted(ST["static"])] + [{"kind": "regen", "of": list(k)} for k in sorted(ST["regen"])]
    fields = [k for k in ST["runtime"] if k[0] == "field"]
    out += [{"kind": "run", "of": list(k), "seed": r.randrange(1 << 31)} for k in ST["runtime"] for _ in range(8)]
    while len(out) < n:
        out.append({"kind": "run", "of": list(r.choice(fields) if fields else r.choice(ST["runtime"])), "seed": r.randrange(1 << 31)})
    return out


def evaluate(cases):
    run = [c for c in cases if c["kind"] == "run"]
    answers = {}
    todo = run
    while todo:
        q = subprocess.run([ST["shimcmp"]], input="".join(json.dumps({"Key": c["of"][1] + " " + c["of"][2], "Seed": c["seed"]}) + "\n" for c in todo), capture_output=True, text=True, timeout=600)
        got = [json.loads(l) for l in q.stdout.splitlines()]
        for c, a in zip(todo, got):
            answers[canon(c)] = a
        if len(got) < len(todo):
            # the process died on this case: a fatal error in a called function
            answers[canon(todo[len(got)])] = {"how": "process ended: " + q.stderr[:200], "trivial": True}
        todo = todo[len(got) + 1:]
    out = []
    for c in cases:
        if c["kind"] == "static":
            what = ST["static"].get(tuple(c["of"]), "")
            out.append(Verdict(fail=f"{c['of'][1]}.{c['of'][2]}: {what}" if what else None, key=canon(c), labels=(c["of"][0],), signature=f"{c['of'][1]}.{c['of'][2]}"))
        elif c["kind"] == "regen":
            a, z = ST["regen"].get(tuple(c["of"]), (None, None))
            out.append(Verdict(fail=None if a == z else f"shim/{c['of'][0]} {c['of'][1]}: committed {a!r}, regenerated {z!r}", key=canon(c), labels=("regenerated",), signature=f"regen {c['of']}"))
        else:
            a = answers[canon(c)]
            if a["how"].startswith("harness"):
                raise Inconclusive(a["how"])
            out.append(Verdict(fail=f"{c['of'][1]}.{c['of'][2]}: {a['fail']}" if a.get("fail") else None, key=None if a.get("trivial") else canon(c), labels=(a["how"].split(":")[0],), signature=f"{c['of'][1]}.{c['of'][2]}"))
    return out


def make():
    c = Check("C32", "a compared symbol: a constant, type, layout or requested extra of one package; a function found to be the very same code or called with generated arguments; a private field read back from an object with generated (or live) field values; a declaration regenerated by the generator. Zero values and panicking calls are trivial", setup)
    c.add(GProp("symbols", generate, evaluate, quick=60000, thorough=400000))
    return c
