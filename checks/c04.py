"""What a file reports does not depend on what else is in the request."""
from vf.pbt import *
from vf.ws import *

BIN = {}
FIX = ["--fix", "--fix-suggestions"]


@st.composite
def case(draw):
    w = draw(workspace(max_projects=3, max_files=draw(st.sampled_from([2, 4, 9]))))
    jobs = settle(w, [[p, rule_entries(draw)] for p in paths(w)])
    n = draw(st.integers(2, 4))
    mode = draw(st.sampled_from(["files", "rules", "both", "perrule"]))
    return {"w": w, "jobs": jobs, "parts": n, "mode": mode, "order": draw(st.integers(0, 2 ** 32)), "procs": draw(st.sampled_from(["1", "2", "8"]))}


def split(c):
    """A partition of the (file, rule) pairs into requests, and a shuffled full request."""
    rnd = random.Random(c["order"])
    parts = collections.defaultdict(lambda: collections.defaultdict(list))
    salt = rnd.getrandbits(32)

    def h(*a):
        return int(hashlib.sha1(repr((salt,) + a).encode()).hexdigest(), 16) % c["parts"]
    for p, rs in c["jobs"]:
        for r in rs:
            k = {"files": h(p), "rules": h(r[0]), "both": h(p, r[0]), "perrule": (h(r[0]), h(p) % 2)}[c["mode"]]
            parts[k][p].append(r)
    out = []
    for k in sorted(parts, key=str):
        jobs = [[p, rs] for p, rs in parts[k].items()]
        rnd.shuffle(jobs)
        for j in jobs:
            rnd.shuffle(j[1])
        out.append(jobs)
    return out


def evaluate(cases):
    def one(c):
        root = scratch()
        write_tree(root, tree(c["w"]))
        full = headless(BIN["x"], request(root, c["jobs"]), root, FIX, {"GOMAXPROCS": c["procs"]})
        fail = crashed(full)
        total, n = collections.Counter(), 0
        ps = split(c)
        if not fail:
            for jobs in ps:
                r = headless(BIN["x"], request(root, jobs), root, FIX)
                fail = fail or crashed(r)
                total += multiset(r.diags, root)
            fail = fail or msdiff(multiset(full.diags, root), total, "the one request", "the separate requests")
        rmtree(root)
        sig = "ctxfree" if fail and settle(c["w"], c["jobs"]) != c["jobs"] else ""
        nt = len(ps) > 1 and len(full.diags) > 1
        return Verdict(fail=fail, signature=sig, key=canon(c) if nt else None, labels=(c["mode"], f"projects={len(c['w']['projects'])}", "diags" if full.diags else "silent"))
    return pmap(one, cases)


def make():
    chk = Check("C04", "a workspace of 1-3 projects (1-9 modules each, snippets of several rules, different compiler options), each file with its own rules and options; the (file, rule, options) triples are linted in one request and as a random partition into 2-4 requests in shuffled order: the multisets of complete diagnostics (ranges, labels, fixes, suggestions) must be equal. Non-trivial = at least two requests and at least two diagnostics.",
                setup=lambda: BIN.update(x=build("tsgolint")["tsgolint"]), assumptions=["files are modules of a tsconfig project: files of the inferred project share its global scope by design"])
    chk.add(Prop("partition", case(), evaluate, quick=190, thorough=2500))
    return chk
