"""Generated programs for one rule: a snippet of the project's suite, changed, in a compiler configuration."""
import random
from .semmut import *
from .tse import *

_by = None
CFG = [{}] * 12 + [{"noUncheckedIndexedAccess": True}, {"exactOptionalPropertyTypes": True}, {"strictNullChecks": False}, {"strict": False}, {"lib": ["es2015", "dom"], "target": "es2015"}]
SIMPLE = ["any", "unknown", "string", "number", "boolean", "string | null", "number | undefined", "{ a: string }", "() => void", "() => Promise<void>", "Promise<string>", "string[]", "any[]", "'a' | 'b'", "Error", "bigint", "never", "object", "Record<string, any>", "null", "RegExp"]
# errors after which the checker goes on as if they were not there
BENIGN = {2531, 2532, 2533, 18046, 18047, 18048, 18049, 2722, 2564, 2695, 2454, 7005, 7006, 7008, 7031, 7034, 7019, 7027, 7029, 7030, 6133, 2872, 2873, 2869, 2871, 2367, 2774, 2801, 2365, 2363, 2362}


def sources():
    """rule -> single-file snippets under the default configuration"""
    global _by
    if _by is None:
        und = json.load(open(VERIF + "/corpus/undeclared.json"))
        # snippets whose recorded verdict is not upstream's: documented differences
        div = set(json.load(open(VERIF + "/corpus/diverging.json")))
        _by = collections.defaultdict(list)
        for c in corpus():
            if c["i"] not in div and not c["Skip"] and not c["Files"] and not c["TSConfig"] and "/" not in c["fn"] and ext(c["fn"]) in (".ts", ".tsx"):
                c["undeclared"] = und.get(str(c["i"]), [])
                _by[c["Rule"]].append(c)
    return _by


def gen(r, rule, n=None):
    c = r.choice(sources()[rule])
    o = c["Options"]
    if r.random() < 0.3:
        o = json.loads(r.choice(pool(rule)[3]))
    code = mutate(r, rule, c["Code"], n)
    if c["undeclared"] and r.random() < 0.8:
        code += "\n" + "".join(f"declare let {u}: {r.choice(SIMPLE)};\n" for u in c["undeclared"])
    return item(code + "\nexport {};\n", {rule: o}, r.choice(CFG), ext(c["fn"]))


def codes(types):
    return [int(d["message"]["id"][2:]) for d in types]
