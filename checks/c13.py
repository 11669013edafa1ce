"""Timing mode changes nothing but adds timings."""
from vf.pbt import *
from vf.ws import *

BIN = {}


@st.composite
def case(draw):
    w = draw(workspace(max_projects=draw(st.sampled_from([1, 1, 3])), max_files=draw(st.sampled_from([1, 3, 10])), inferred=draw(st.booleans())))
    sets = [[[n, None] for n in (ALL if draw(st.integers(0, 2)) == 0 else draw(st.lists(st.sampled_from(ALL), max_size=draw(st.sampled_from([0, 2, 8, 59])), unique=True)))] for _ in range(draw(st.integers(1, 3)))]
    return {"w": w, "jobs": settle(w, [[p, sets[draw(st.integers(0, len(sets) - 1))]] for p in paths(w)]), "types": draw(st.booleans()), "fix": draw(st.booleans()), "debug": draw(st.sampled_from(["timings", "timings", "timings,timings", ",timings"])), "procs": draw(st.sampled_from(["1", "2", "8"]))}


def timing(r):
    if [t for t, _ in r.frames].count(2) != 1:
        return None, f"{len(r.timings)} timing messages"
    if r.frames[-1][0] != 2:
        return None, "the timing message is not the last one"
    return r.timings[0]["rules"] or [], None


def evaluate(cases):
    def one(c):
        root = scratch()
        write_tree(root, tree(c["w"]))
        req = request(root, c["jobs"], report_syntactic=c["types"], report_semantic=c["types"])
        args, env = (["--fix", "--fix-suggestions"] if c["fix"] else []), {"GOMAXPROCS": c["procs"]}
        off = headless(BIN["x"], req, root, args, env)
        on = headless(BIN["x"], req, root, args + ["--debug", c["debug"]], env)
        fail = crashed(off) or crashed(on) or ("a timing message without --debug timings" if off.timings else None) or msdiff(multiset(off.diags, root), multiset(on.diags, root), "run without timings", "run with timings")
        nt = 0
        if not fail:
            ts, fail = timing(on)
        if not fail:
            want = {r for _, rs in c["jobs"] for r, _ in rs}
            names = [t["rule_name"] for t in ts]
            nt = len(want)
            if collections.Counter(names) != collections.Counter(want):
                fail = f"timings list {sorted(names)}, rules that ran: {sorted(want)}"
            elif [(-t["duration"], t["rule_name"]) for t in ts] != sorted((-t["duration"], t["rule_name"]) for t in ts):
                fail = f"not sorted by descending duration, then name: {ts}"
        if not fail:
            per = collections.Counter(r for _, rs in c["jobs"] for r, _ in rs)
            for t in ts:
                if t["calls"] < per[t["rule_name"]]:
                    fail = f"{t['rule_name']} ran on {per[t['rule_name']]} files but counts {t['calls']} calls"
        if not fail and 1 < len(c["jobs"]) <= 8:
            total = collections.Counter()
            for job in c["jobs"]:
                if not job[1]:
                    continue
                r = headless(BIN["x"], request(root, [job]), root, args + ["--debug", "timings"], env)
                fail = fail or crashed(r)
                for t in (r.timings[0]["rules"] or []) if not fail and r.timings else []:
                    total[t["rule_name"]] += t["calls"]
            got = collections.Counter({t["rule_name"]: t["calls"] for t in ts})
            if not fail and total != got:
                bad = {k: (got[k], total[k]) for k in got | total if got[k] != total[k]}
                fail = f"call counts (together, sum of separate runs) differ: {bad}"
        rmtree(root)
        return Verdict(fail=fail, key=canon(c) if nt and len(c["jobs"]) > 1 else None, labels=(f"rules{'=0' if not nt else '<9' if nt < 9 else '>=9'}", f"procs={c['procs']}"))
    return pmap(one, cases)


def make():
    chk = Check("C13", "a workspace, 1-3 rule sets spread over its files, type errors, fixes and CPU count at random; run with and without --debug timings and once per file: equal diagnostics, one final timing message listing exactly the rules that ran, sorted, calls >= files and equal to the sum over separate runs. Non-trivial = some rule ran and there are at least 2 files.",
                setup=lambda: BIN.update(x=build("tsgolint")["tsgolint"]))
    chk.add(Prop("timings", case(), evaluate, quick=260, thorough=1500))
    return chk
