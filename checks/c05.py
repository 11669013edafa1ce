"""Results are independent of worker count and scheduling."""
from vf.pbt import *
from vf.ws import *

BIN = {}


@st.composite
def case(draw):
    w = draw(workspace(max_projects=3, max_files=draw(st.sampled_from([2, 6, 12])), inferred=True))
    if draw(st.integers(0, 2)) == 0:  # clones: many workers in the same code at once
        p = w["projects"][0]
        for i in range(draw(st.integers(4, 16))):
            n, t = draw(st.sampled_from(sorted(p["files"].items())))
            p["files"][f"k{i}_{n}"] = t
    rs = rule_entries(draw, allp=5)
    return {"w": w, "jobs": settle(w, [[p, rs] for p in paths(w)]), "types": draw(st.booleans()), "timings": draw(st.booleans()), "order": draw(st.integers(0, 999))}


def req(c, root, order=None):
    jobs = list(c["jobs"])
    if order is not None:
        random.Random(order).shuffle(jobs)
    return request(root, jobs, report_syntactic=c["types"], report_semantic=c["types"])


KNOWN = {k["signature"] for k in known_findings("C05")}


def race_sig(rep):
    """The two functions whose accesses race."""
    tops = re.findall(r"(?:[Rr]ead|[Ww]rite) at .*:\n\s+(\S+)\(", rep)
    return "race:" + "+".join(sorted({re.sub(r"(\.func\d+)?(\.\d+)*$", "", t.split("/")[-1]) for t in tops}))


def evaluate(exe_names, runs):
    def ev(cases):
        def one(c):
            root = scratch()
            write_tree(root, tree(c["w"]))
            base, fail, n, races, sig = None, None, 0, [], ""
            for i, (exe, procs) in enumerate(runs):
                args = ["--fix", "--fix-suggestions"] + (["--debug", "timings"] if c["timings"] else [])
                r = headless(BIN[exe], req(c, root, c["order"] + i if i % 2 else None), root, args, {"GOMAXPROCS": procs, "GORACE": "halt_on_error=0 exitcode=66"}, timeout=300)
                reports = r.err.split("WARNING: DATA RACE")[1:]
                for rep in reports:
                    s = race_sig(rep)
                    if not races or s not in KNOWN:
                        races.append(s)
                        if s not in KNOWN:
                            fail, sig = fail or f"data race with {procs} CPUs: {s}\n{rep[:3000]}", s
                if reports and r.rc == 66:
                    r.rc = 0
                fail = fail or crashed(r)
                calls = sorted((x["rule_name"], x["calls"]) for t in r.timings for x in t["rules"])
                m = (multiset(r.diags, root), calls)
                if base is None:
                    base, n = m, len(r.diags)
                elif not fail:
                    fail = msdiff(base[0], m[0], f"the run with GOMAXPROCS={runs[0][1]}", f"run {i} with GOMAXPROCS={procs}")
                    if not fail and base[1] != m[1]:
                        fail = f"rule call counts differ between runs: {[x for x in base[1] if x not in m[1]][:4]} / {[x for x in m[1] if x not in base[1]][:4]}"
                if fail:
                    break
            rmtree(root)
            if not fail and races:
                fail, sig = f"data race: {races[0]}", races[0]
            return Verdict(fail=fail, signature=sig, key=canon(c) if len(c["jobs"]) > 2 and n > 3 else None, labels=(f"files<{4 * (len(c['jobs']) // 4 + 1)}", "diags" if n else "silent"))
        return pmap(one, cases, 4)
    return ev


def make():
    chk = Check("C05", "a workspace of projects with 1-28 files each and files outside projects, run with GOMAXPROCS 1, 2, 3, 8, 8 (shuffled request order every other run), fixes on, type errors and timings at random: multisets of complete diagnostics and rule call counts must be equal; race-detector build: no report. Non-trivial = more than 2 files and more than 3 diagnostics.",
                setup=lambda: BIN.update(x=build("tsgolint")["tsgolint"], race=build("tsgolint_race")["tsgolint_race"]),
                assumptions=["schedules are sampled by the Go runtime, not enumerated; the race detector sees the accesses of those schedules"])
    chk.add(Prop("schedules", case(), evaluate(["x"], [("x", "1"), ("x", "2"), ("x", "3"), ("x", "8"), ("x", "8")]), quick=50, thorough=700))
    chk.add(Prop("race", case(), evaluate(["race"], [("race", "4"), ("race", "8")]), quick=24, thorough=300))
    return chk
