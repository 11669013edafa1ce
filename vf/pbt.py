"""Generated-input search with Hypothesis, batch evaluation, shrinking, replay files, evidence.

A check is a list of Props. A Prop has a strategy producing JSON-able cases and `evaluate(cases)`,
which returns one Verdict per case. Hypothesis draws the cases (seeded by VERIF_SEED); they are
evaluated in batches against the real code; on a failure the same seeded Hypothesis run is repeated
with the verdicts memoised, so that Hypothesis itself shrinks the failing case, live."""
import collections, json, os, random, sys, time, traceback
from dataclasses import dataclass, field
from typing import Any, Callable, List, Optional
from hypothesis import given, seed, settings, HealthCheck, Phase, Verbosity, strategies as st
from hypothesis.errors import Flaky, FlakyFailure, Unsatisfiable
from .core import *


@dataclass
class Verdict:
    fail: Optional[str] = None          # what went wrong, or None
    key: Any = None                     # None: trivial; else the identity of a non-trivial case
    labels: tuple = ()                  # classes for the distribution report
    signature: str = ""                 # matches known findings
    detail: Any = None


@dataclass
class Prop:
    name: str
    strategy: Any
    evaluate: Callable[[List[Any]], List[Verdict]]
    quick: int = 100
    thorough: int = 1000
    batch: int = 200
    shrink_s: float = 90.0


@dataclass
class GProp:
    """Like Prop for bulk generation: cases come from a seeded generator of our own and failures are
    shrunk greedily with `reduce(case)`, which yields smaller candidates."""
    name: str
    generate: Callable[[Any, int], List[Any]]
    evaluate: Callable[[List[Any]], List[Verdict]]
    reduce: Callable[[Any], List[Any]] = lambda c: []
    quick: int = 100
    thorough: int = 1000
    batch: int = 100000
    shrink_s: float = 60.0


class Check:
    def __init__(self, pid, level_rule, setup=None, assumptions=()):
        self.pid, self.rule = pid, level_rule
        self.props = []
        self.setup = setup
        self.assumptions = list(assumptions)
        self.evals = 0
        self.keys = set()
        self.labels = collections.Counter()
        self.samples = []
        self.per_prop = {}
        self.extra = {}

    def add(self, prop):
        self.props.append(prop)
        return prop


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def known_findings(pid):
    """Entries `known: property=<id> signature=<sig> replay=<path> :: <what>` of known_findings.txt."""
    out = []
    p = VERIF + "/known_findings.txt"
    if not os.path.exists(p):
        return out
    for line in open(p):
        line = line.strip()
        if not line.startswith("known: "):
            continue
        head, _, what = line[len("known: "):].partition(" :: ")
        kv = dict(x.split("=", 1) for x in head.split())
        if kv.get("property") == pid:
            out.append({"signature": kv.get("signature", ""), "replay": kv.get("replay"), "what": what})
    return out


def _hyp(strategy, n, fn, phases):
    @seed(SEED)
    @settings(max_examples=n, database=None, deadline=None, derandomize=False, phases=phases, print_blob=False,
              suppress_health_check=list(HealthCheck), verbosity=Verbosity.quiet, report_multiple_bugs=False)
    @given(strategy)
    def run(case):
        fn(case)
    run()


class Found(Exception):
    pass


class EndShrink(KeyboardInterrupt):
    """Out of shrinking time (Hypothesis lets KeyboardInterrupt through)."""


def violation(pid, prop, case, verdict):
    os.makedirs(VERIF + "/replays", exist_ok=True)
    h = hashlib.sha256(canon([prop, case]).encode()).hexdigest()[:12]
    path = f"{VERIF}/replays/{pid}-{prop}-{h}.json"
    with open(path, "w") as f:
        json.dump({"property": pid, "prop": prop, "case": case, "fail": verdict.fail, "signature": verdict.signature, "detail": verdict.detail, "seed": SEED}, f, indent=1)
    print(f"[{pid}] {prop}: {verdict.fail}")
    print(f"VIOLATION property={pid} replay={path}", flush=True)


def greedy(p, first, stop, known_sigs):
    best = first
    kind = lambda v: (v.detail or {}).get("class") if isinstance(v.detail, dict) else None
    if kind(first[1]):  # a smaller case could be another instance of a listed finding
        return best
    while time.time() < stop:
        cand = [c for c in p.reduce(best[0]) if len(canon(c)) < len(canon(best[0]))]
        if not cand:
            return best
        try:
            vs = p.evaluate(cand)
        except Inconclusive:
            return best
        ok = sorted([(len(canon(c)), i) for i, (c, v) in enumerate(zip(cand, vs)) if v.fail and not (v.signature and v.signature in known_sigs) and not kind(v)])
        if not ok:
            return best
        best = (cand[ok[0][1]], vs[ok[0][1]])
    return best


def run_check(chk, argv):
    t0 = time.time()
    replay = argv[argv.index("--replay") + 1] if "--replay" in argv else None
    only = argv[argv.index("--prop") + 1] if "--prop" in argv else None
    scale = float(argv[argv.index("--scale") + 1]) if "--scale" in argv else 1.0
    if chk.setup:
        chk.setup()
    if replay:
        r = json.load(open(replay))
        p = next(p for p in chk.props if p.name == r["prop"])
        v = p.evaluate([r["case"]])[0]
        print(json.dumps({"fail": v.fail, "signature": v.signature, "detail": v.detail}, indent=1)[:6000])
        if v.fail:
            print(f"VIOLATION property={chk.pid} replay={replay}", flush=True)
            return 1
        return 0
    known = known_findings(chk.pid)
    known_sigs = {k["signature"] for k in known}
    suppressed = collections.Counter()
    violations = 0
    loaded = [(k, json.load(open(os.path.join(VERIF, k["replay"])))) for k in known if k["replay"]]
    for k in known:  # a listed finding is reported while it still fails
        if not k["replay"]:  # a matter of scheduling: no input shows it every time
            print(f"KNOWN-FINDING: property={chk.pid} {k['what']}", flush=True)
    for p in chk.props:
        ks = [(k, r) for k, r in loaded if r["prop"] == p.name]
        if not ks:
            continue
        for (k, r), v in zip(ks, p.evaluate([r["case"] for _, r in ks])):
            if v.fail and v.signature == k["signature"]:
                print(f"KNOWN-FINDING: property={chk.pid} {k['what']}", flush=True)
            elif v.fail:
                violation(chk.pid, p.name, r["case"], v)
                violations += 1
    for p in chk.props:
        if only and p.name != only:
            continue
        tp = time.time()
        n = max(1, int((p.thorough if TIER == "thorough" else p.quick) * scale))
        cases, seen = [], set()
        total = [0]

        def rec(case):
            total[0] += 1
            c = canon(case)
            if c not in seen:
                seen.add(c)
                cases.append(case)
        if isinstance(p, GProp):
            for case in p.generate(random.Random(f"{SEED}:{chk.pid}:{p.name}"), n):
                rec(case)
        else:
            _hyp(p.strategy, n, rec, (Phase.generate,))
        tg = time.time() - tp
        memo, first = {}, None
        nt0 = len(chk.keys)
        cnt = collections.Counter()
        for a in range(0, len(cases), p.batch):
            chunk = cases[a : a + p.batch]
            vs = p.evaluate(chunk)
            assert len(vs) == len(chunk), (len(vs), len(chunk))
            for c, v in zip(chunk, vs):
                chk.evals += 1
                if v.fail and v.signature and v.signature in known_sigs:
                    suppressed[v.signature] += 1
                    v.fail = None
                memo[canon(c)] = v
                for l in v.labels:
                    chk.labels[f"{p.name}:{l}"] += 1
                if v.key is not None:
                    chk.keys.add(f"{p.name}:{v.key}")
                    cnt["nt"] += 1
                    if len([s for s in chk.samples if s["prop"] == p.name]) < 3:
                        s = json.dumps(c)
                        chk.samples.append({"prop": p.name, "case": c if len(s) < 1500 else s[:1500] + "..."})
                if v.fail:
                    cnt["fail"] += 1
                    if first is None:
                        first = (c, v)
            if first:
                break
        chk.per_prop[p.name] = {"drawn": total[0], "distinct": len(cases), "nontrivial": cnt["nt"], "generate_s": round(tg, 2), "wall_s": round(time.time() - tp, 2)}
        log(f"[{chk.pid}] {p.name}: {chk.per_prop[p.name]}" + (f" FAIL: {first[1].fail[:600]}" if first else ""))
        if first:
            violations += 1
            best = first
            stop = time.time() + p.shrink_s
            if isinstance(p, GProp):
                best = greedy(p, first, stop, known_sigs)
                violation(chk.pid, p.name, best[0], best[1])
                break
            bestlen = [len(canon(first[0]))]

            def att(case):
                nonlocal best
                k = canon(case)
                v = memo.get(k)
                if v is None:
                    if time.time() > stop:
                        raise EndShrink()
                    v = p.evaluate([case])[0]
                    if v.fail and v.signature and v.signature in known_sigs:
                        v.fail = None
                    memo[k] = v
                if v.fail:
                    if len(k) <= len(canon(best[0])):
                        best = (case, v)
                    raise Found(v.fail)
            try:
                _hyp(p.strategy, n, att, (Phase.generate, Phase.shrink))
            except (Found, EndShrink):
                pass
            except (Flaky, FlakyFailure):
                pass
            except Inconclusive:
                pass
            violation(chk.pid, p.name, best[0], best[1])
            break
    cov = {
        "evaluations": chk.evals, "distinct_nontrivial": len(chk.keys), "rule": chk.rule, "samples": chk.samples[:24],
        "per_prop": chk.per_prop, "distribution": dict(sorted(chk.labels.items())), "known_findings_suppressed": dict(suppressed), **chk.extra,
    }
    ev = {"property": chk.pid, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "exploration", "coverage": cov,
          "assumptions": chk.assumptions, "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(VERIF + "/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{chk.pid}.json", "w") as f:
        json.dump(ev, f, indent=1)
    if not violations and not chk.evals:
        raise Inconclusive("nothing was evaluated")
    print(f"[{chk.pid}] {chk.evals} cases, {len(chk.keys)} distinct non-trivial, {violations} violations, {time.time() - t0:.1f}s")
    return 1 if violations else 0
