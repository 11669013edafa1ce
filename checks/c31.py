"""No source text makes a rule crash or hang."""
from vf.pbt import *
from vf.tse import *
from vf.semmut import mutate as semmut, pool, TOK as STOK
from vf.mut import POOL as JUNK
from vf.gen import BROKEN

BIN = {}
ALL = rules()
CS = [c for c in corpus() if not c["Files"] and len(c["Code"]) < 6000]
EXTS = [".ts"] * 8 + [".tsx"] * 3 + [".mts", ".cts", ".js", ".jsx", ".d.ts"]
CFG = [{}] * 6 + [{"noUncheckedIndexedAccess": True}, {"exactOptionalPropertyTypes": True}, {"strict": False}, {"noImplicitThis": False, "experimentalDecorators": False}, {"lib": ["es5"], "target": "es2015"}, {"lib": ["es2015"], "target": "es2015", "strictNullChecks": False}, {"isolatedModules": True, "jsx": "react-jsx"}]
DEEP = ["(", "[", "{a:", "!", "a.b.c(", "await ", "async () => ", "`${", "x ? y : ", "a && ", "a || ", "a ?? ", "p.then(", "new A(", "-", "void ", "typeof ", "<T,>() => ", "() => { return ", "(x as any).y(", "{ if (a) ", "class { m() {", "Promise<", "A | ", "A & ", "keyof ", "T extends ", "a?.b?.", "`a` + "]


def syntax_mutation(r, code):
    t = STOK.findall(code)
    for _ in range(r.choice([1, 1, 2, 3, 6])):
        if not t:
            break
        i, k = r.randrange(len(t)), r.randrange(11)
        if k <= 1:
            del t[i]
        elif k == 2:
            t.insert(i, r.choice(t))
        elif k == 3:
            j = r.randrange(len(t))
            t[i], t[j] = t[j], t[i]
        elif k == 4:
            t = t[: i + 1]
        elif k == 5:
            del t[i : i + r.randrange(1, 9)]
        elif k == 6:
            j = min(len(t), i + r.randrange(1, 12))
            t[i:i] = t[i:j]
        elif k == 7:
            t = t[i:]
        else:
            t[i:i + (k < 9)] = [r.choice(JUNK)]
    return "".join(t)


def text(r):
    c = r.choice(CS)
    code, k = c["Code"], r.random()
    if k < 0.4:
        code = syntax_mutation(r, code)
    elif k < 0.6:
        code = semmut(r, c["Rule"], code, r.choice([1, 3, 8, 20]))
    elif k < 0.7:
        code = syntax_mutation(r, semmut(r, c["Rule"], code))
    elif k < 0.8:
        o = r.choice(CS)["Code"]
        a, b = STOK.findall(code), STOK.findall(o)
        code = "".join(a[: r.randrange(len(a) + 1)] + b[r.randrange(len(b) + 1) :])
    elif k < 0.85:
        code = "".join(r.choice(BROKEN + JUNK) + r.choice(["", " ", "\n", ";"]) for _ in range(r.randrange(1, 12)))
    elif k < 0.9:
        d = r.choice(DEEP) * r.choice([2, 5, 20, 60])
        code = r.choice(["const v = ", "type V = ", "", "x = ", "if ("]) + d + r.choice(["1", "", ")", "string", code[:40]]) + r.choice([")", "]", "}", ">", ";"]) * r.choice([0, 1, 20])
    else:
        code = code.replace("\n", r.choice(["\r\n", "\r", "\u2028"])) + r.choice(["", "\0", "\ufeff", "\udc80", "`", "/*", "\U0001F600"])
    return code


def generate(r, n):
    opts = {}
    for c in corpus():
        opts.setdefault(c["Rule"], {})[canon(c["Options"])] = c["Options"]
    opts = {k: list(v.values()) for k, v in opts.items()}
    out = []
    for _ in range(n):
        rs = {x: r.choice(opts[x]) if r.random() < 0.4 else None for x in ALL}
        out.append({"code": text(r), "rules": rs, "opts": {"allowJs": True, "moduleDetection": "force", **r.choice(CFG)}, "ext": r.choice(EXTS)})
    return out


def evaluate(batch):
    res = tsgolint(BIN["x"], batch, size=40, types=True, timeout=150)
    out = []
    for it, t in zip(batch, res):
        fail, labels = None, ()
        if "crash" in t:
            alone = tsgolint(BIN["x"], [{**it, "rules": {}}], types=True, timeout=60)[0]
            if "crash" in alone:
                labels = ("the compiler alone crashes",)
            else:
                fail = f"all rules over {it['ext']} {it['opts']}: {t['crash'][:1500]}\n{it['code'][:3000]}"
            key = canon([it["code"], it["ext"]])
        else:
            syn = any(d["message"]["id"].startswith("TS1") and len(d["message"]["id"]) == 6 for d in t["types"])
            labels = ("syntax errors" if syn else "type errors" if t["types"] else "clean", "reported" if t["diags"] else "silent")
            key = canon([it["code"], it["ext"]]) if t["types"] else None
        out.append(Verdict(fail=fail, key=key, labels=labels))
    return out


TK = re.compile(r"\s+|[A-Za-z_$][\w$]*|'[^'\n]*'|\"[^\"\n]*\"|\d+|=>|\?\.|\?\?|\|\||&&|[^\w\s]", re.S)


def reduce(it):
    out, t = [], TK.findall(it["code"])
    k = max(1, len(t) // 2)
    while k:
        out += [{**it, "code": "".join(t[:a] + t[a + k :])} for a in range(0, len(t), k)][:150]
        k //= 2
    out = [{**it, "rules": {x: it["rules"][x]}} for x in it["rules"]] + out if len(it["rules"]) > 1 else out
    return out[:400]


def make():
    chk = Check("C31", "programs obtained from every rule's snippets by breaking them (tokens deleted, duplicated, swapped, cut off, replaced by keywords and punctuation; meaning-changing mutations up to twenty at once; two programs cut and joined; deep nesting; odd line ends and characters), in every file type and several compiler configurations, linted by all rules at once with random valid options, fixes, suggestions and type errors on; "
                "the process has to end with status 0 and a complete message stream. Non-trivial = the program has syntax or type errors.", setup=lambda: BIN.update(x=build("tsgolint")["tsgolint"]),
                assumptions=["a text on which the compiler alone (no rules) ends abnormally is not held against the rules"])
    chk.add(GProp("crash", generate, evaluate, reduce, quick=40000, thorough=400000, batch=20000))
    return chk
