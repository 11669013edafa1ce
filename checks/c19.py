"""Type/value allow-lists match exactly the named declarations."""
from vf.pbt import *
from vf.tse import *
from vf.diffcmp import compare
from vf.diffgen import BENIGN, codes

BIN = {}
# every place declares the same names
BODY = """
export declare class Foo { a: string; m(): void; }
export declare class Bar { b: number[]; }
export declare class SubFoo extends Foo { c: string; }
export declare class Gen<T> { value: T; }
export declare class FooError extends Error { x: string; }
export interface IFoo { a: string; toString(): string; }
export interface IGen<T> { v: T }
export type AFoo = { a: string };
export type UFoo = Foo | Bar;
export type XFoo = Foo & { brand: 1 };
export type PFoo = string & { __brand: 1 };
export type LFoo = 'a' | 'b';
export type FFoo = () => void;
export type ArrFoo = string[];
export type GAlias<T> = { v: T };
export declare enum EFoo { A = 'a', B = 'b' }
export declare class FooPromise<T> extends Promise<T> { x: number }
export interface IPromise<T> extends Promise<T> { y: number }
export type APromise<T> = Promise<T> & { __safe: true };
export declare class Thenable { then(a: (x: string) => void, b: (x: any) => void): Thenable; catch(): Thenable; }
export declare namespace NS { class Foo { n: string } type AFoo = { n: string }; function fooFn(): Promise<void>; /** @deprecated */ function dep(): void; class Deep { d: Date } }
export declare function fooFn(...a: any[]): Promise<void>;
export declare function barFn(): Promise<string>;
export declare function mkFoo(): Foo;
export declare const arrowFn: () => Promise<number>;
export declare const obj: { method(): Promise<void>; nested: { fooFn(): Promise<void> }; fooFn: (x?: any) => Promise<void>; 'quoted'(): Promise<void> };
export declare const iter: Iterable<string>;
/** @deprecated gone */
export declare function dep(): void;
/** @deprecated */
export declare const depConst: string;
/** @deprecated */
export declare class DepClass { constructor(); static s(): void; }
/** @deprecated */
export declare type DepType = string;
/** @deprecated */
export declare interface DepInterface { z: string }
export declare class WithDep { /** @deprecated */ depMethod(): void; /** @deprecated */ depProp: string; /** @deprecated */ static depStatic: string; /** @deprecated */ get depGet(): number; ok: string }
export declare enum DepEnum { /** @deprecated */ A, B }
"""
GLOB = re.sub(r"^export declare (type|interface)", r"\1", BODY, flags=re.M).replace("export declare", "declare").replace("export ", "")
EXTRA = {
    "a.ts": BODY, "sub/b.ts": BODY, "sub/a.ts": BODY,
    "node_modules/pkg/package.json": '{"name": "pkg", "version": "1.0.0", "types": "index.d.ts"}', "node_modules/pkg/index.d.ts": BODY,
    "node_modules/pkg/deep/x.d.ts": BODY, "node_modules/pkg/deep/package.json": '{"type": "module"}',
    "node_modules/@scope/pkg/package.json": '{"name": "@scope/pkg", "version": "2.0.0", "types": "lib/main.d.ts"}', "node_modules/@scope/pkg/lib/main.d.ts": BODY,
    "node_modules/@types/typed/package.json": '{"name": "@types/typed", "version": "1.0.0", "types": "index.d.ts"}', "node_modules/@types/typed/index.d.ts": BODY,
    "node_modules/@types/scope__typed/package.json": '{"name": "@types/scope__typed", "version": "1.0.0", "types": "index.d.ts"}', "node_modules/@types/scope__typed/index.d.ts": BODY,
    "node_modules/re/package.json": '{"name": "re", "version": "1.0.0", "types": "index.d.ts"}', "node_modules/re/index.d.ts": "export * from 'pkg';\n",
    "ambient.d.ts": "declare module 'virtual' {" + re.sub(r"export declare ", "export ", BODY) + "}\ndeclare module '@virt/x' {" + re.sub(r"export declare ", "export ", BODY) + "}\n",
    "globals.d.ts": "".join(l for l in GLOB.splitlines(True)).replace("class Foo ", "class GFoo0 ").replace("Foo &", "GFoo0 &").replace("Foo |", "GFoo0 |").replace("extends Foo", "extends GFoo0").replace(": Foo;", ": GFoo0;"),
}
PLACES = {"./a": 3, "./sub/b": 2, "./sub/a": 1, "pkg": 4, "pkg/deep/x": 1, "@scope/pkg": 3, "typed": 2, "@scope/typed": 2, "virtual": 3, "@virt/x": 1, "re": 2, "<local>": 4}
TY = ["Foo", "Bar", "SubFoo", "Gen<string>", "Gen<Foo>", "FooError", "IFoo", "IGen<number>", "AFoo", "UFoo", "XFoo", "PFoo", "LFoo", "FFoo", "ArrFoo", "GAlias<string>", "EFoo", "FooPromise<void>", "IPromise<string>", "APromise<void>", "Thenable", "NS.Foo", "NS.AFoo", "NS.Deep", "EFoo.A"]
LIBT = ["Error", "TypeError", "Date", "RegExp", "Map<string, number>", "Set<string>", "URL", "Promise<void>", "PromiseLike<string>", "string", "number", "any", "unknown", "undefined", "null", "string[]", "object", "symbol", "() => void", "Uint8Array", "HTMLElement", "Record<string, number>", "Readonly<{ a: 1 }>", "bigint", "{ a: string }", "never", "boolean"]
PROM = ["FooPromise<void>", "IPromise<string>", "APromise<void>", "Thenable", "Promise<void>", "Promise<Foo>", "PromiseLike<string>"]
VALS = ["fooFn()", "barFn()", "arrowFn()", "obj.method()", "obj.nested.fooFn()", "obj.fooFn()", "obj['fooFn']()", "obj?.fooFn()", "fooFn?.()", "NS.fooFn()", "fooFn`x`", "fooFn().then(() => {})", "new FooPromise<void>(() => {})", "obj['quoted']()", "fooFn(1, barFn())", "(fooFn)()", "fooFn!()", "Promise.resolve(1)", "Promise.reject(1)", "obj.method().finally(() => {})", "m.fooFn()", "m.obj.method()"]
DEPS = ["dep();", "depConst;", "new DepClass();", "let z: DepType;", "let z: DepInterface;", "new WithDep().depMethod();", "new WithDep().depProp;", "new WithDep()['depProp'];", "WithDep.depStatic;", "new WithDep().depGet;", "DepEnum.A;", "NS.dep();", "const { depProp } = new WithDep();", "class K extends DepClass {}", "m.dep();", "new m.WithDep().depMethod();", "export { dep };", "const { depConst: q } = m;", "DepClass.s();", "escape('x');", "'a'.substr(1);", "new Date().getYear();", "let w: DepInterface['z'];"]
NAMES = sorted(set(re.findall(r"[A-Za-z]+", " ".join(TY + LIBT + PROM))) | {"fooFn", "barFn", "arrowFn", "obj", "method", "quoted", "dep", "depConst", "DepClass", "DepType", "DepInterface", "depMethod", "depProp", "depStatic", "depGet", "A", "DepEnum", "substr", "escape", "getYear", "default", "resolve", "Error", "then"})
RULES = {"only-throw-error": "allow", "prefer-promise-reject-errors": "allow", "restrict-template-expressions": "allow", "no-misused-spread": "allow", "prefer-readonly-parameter-types": "allow", "no-deprecated": "allow",
         "no-floating-promises": "allowForKnownSafePromises", "no-floating-promises:calls": "allowForKnownSafeCalls"}
DECLARED = sorted(set(re.findall(r"(?:class|interface|type|enum|function|const|namespace) ([A-Za-z]+)", BODY)))


def rty(r, base):
    k = r.random()
    t = lambda: r.choice(base) if r.random() < 0.75 else r.choice(LIBT)
    if k < 0.55:
        return t()
    if k < 0.8:
        return " | ".join(t() if "=>" not in (x := t()) else f"({x})" for _ in range(r.choice([2, 2, 3])))
    if k < 0.9:
        return f"({t()}) & ({t()})".replace("boolean", "string")
    return r.choice(["({})[]", "readonly ({})[]", "Readonly<{}>", "Promise<{}>", "[{}]", "NonNullable<{}>"]).replace("{}", t())


def spec(r, used, place):
    pref = [w for w in re.findall(r"[A-Za-z]+", used) if w in NAMES]
    name = lambda: r.choice(pref) if pref and r.random() < 0.75 else r.choice(NAMES)
    n = name() if r.random() < 0.7 else [name() for _ in range(r.choice([1, 2, 3]))]
    n = n if isinstance(n, str) else sorted(set(n))
    k = r.random()
    if k < 0.2:
        return n if isinstance(n, str) else n[0]
    if k < 0.35:
        return {"from": "file", "name": n}
    if k < 0.5:
        return {"from": "file", "name": n, "path": r.choice(["a.ts", "./a.ts", "sub/b.ts", "sub/../a.ts", "sub/a.ts", "main", "node_modules/pkg/index.d.ts", "b.ts", "ambient.d.ts", "globals.d.ts", "A.ts"])}
    if k < 0.65:
        return {"from": "lib", "name": n}
    return {"from": "package", "name": n, "package": r.choice([place] * 3 + ["pkg", "@scope/pkg", "typed", "@scope/typed", "@types/typed", "scope__typed", "virtual", "@virt/x", "re", "sub", "a", "typescript", "pk", "node_modules"])}


def generate(r, n):
    out = []
    for _ in range(n):
        rule = r.choice(sorted(RULES) + ["no-misused-spread"] * 3)
        place = r.choices(list(PLACES), list(PLACES.values()))[0]
        if rule.startswith("no-floating-promises:"):
            body = "\n".join(r.choice(VALS) + ";" for _ in range(2))
        elif rule == "no-floating-promises":
            body = "\n".join(f"declare const v{i}: {rty(r, PROM)};\n{r.choice(['v%d;', 'v%d;', '(async () => v%d)();', 'v%d.then(() => {});', 'void 0, v%d;', 'cnd && v%d;']) % i}" for i in range(2))
        elif rule == "no-deprecated":
            body = "\n".join(r.sample(DEPS, 2))
        else:
            ts_ = [rty(r, TY) for _ in range(2)]
            site = {"only-throw-error": ["function f%d() { throw v%d; }"], "prefer-promise-reject-errors": ["Promise.reject(v%d);", "new Promise((_, reject) => reject(v%d));"], "restrict-template-expressions": ["`x${v%d}`;"],
                    "no-misused-spread": ["({ ...v%d });", "[...v%d];", "fooFn(...v%d);", "new Map([...v%d]);"], "prefer-readonly-parameter-types": ["const g%d = (p: typeof v%d) => {};"]}[rule]
            body = ""
            for i, t in enumerate(ts_):
                s = r.choice(site)
                if rule == "no-misused-spread" and r.random() < 0.7:  # types the rule objects to, where they can be spread
                    t, s = r.choice([(x, "({ ...v%d });") for x in ("Foo", "SubFoo", "Bar", "Gen<string>", "FooError", "FFoo", "FooPromise<void>", "APromise<void>", "Thenable", "NS.Foo", "Promise<void>", "string[]", "Map<string, number>", "Set<string>", "Date", "ArrFoo", "Error", "AFoo", "XFoo", "IGen<number>")] + [(x, "[...v%d];") for x in ("PFoo", "LFoo", "string", "EFoo")])
                    if "=>" not in t and r.random() < 0.3:
                        t += r.choice([" | ", " & "]) + (t if s[0] == "[" else r.choice(["Foo", "Bar", "Gen<Foo>", "AFoo", "NS.Deep", "IFoo"]))
                    body += f"declare const v{i}: {t};\n" + s.replace("%d", str(i)) + "\n"
                    continue
                if rule == "prefer-readonly-parameter-types" and r.random() < 0.7:
                    body += r.choice(["function g%d(p: {}) {}\n", "class G%d { m(p: {}) {} constructor(readonly q: {}) {} }\n", "type G%d = (p: {}) => void;\n", "function g%d({ a }: { a: {} }, ...x: ({})[]) {}\n"]).replace("%d", str(i)).replace("{}", t, 1).replace("({})", f"({t})")
                else:
                    body += f"declare const v{i}: {t};\n" + s.replace("%d", str(i)) + "\n"
        o = {RULES[rule]: [spec(r, body, place if place[0] not in "<." else "pkg") for _ in range(r.choice([1, 1, 2, 3]))]}
        if rule == "restrict-template-expressions":
            o.update({k: False for k in ("allowAny", "allowBoolean", "allowNullish", "allowNumber", "allowRegExp", "allowArray", "allowNever")})
        if rule in ("only-throw-error", "prefer-promise-reject-errors") and r.random() < 0.5:
            o.update({k: r.random() < 0.5 for k in ("allowThrowingAny", "allowThrowingUnknown")})
        if rule.startswith("no-floating") and r.random() < 0.5:
            o["checkThenables"] = True
        words = set(re.findall(r"[A-Za-z]+", body))
        if place == "<local>":
            pre = BODY
        else:
            imp = [x for x in DECLARED if x in words]
            pre = (f"import {{ {', '.join(imp)} }} from '{place}';\n" if imp else "") + (f"import * as m from '{place}';\n" if "m" in words else "")
        code = "/// <reference path=\"./ambient.d.ts\" />\n" + ('/// <reference path="./globals.d.ts" />\n' if r.random() < 0.2 else "") + pre + body + "\ndeclare const cnd: boolean;\nexport {};\n"
        out.append({"code": code, "rules": {rule.split(":")[0]: o}, "opts": {}, "ext": ".ts"})
    return out


def evaluate(batch):
    out = [None] * len(batch)
    ty = tsgolint(BIN["x"], [{**it, "rules": {}} for it in batch], types=True, args=[], extra=EXTRA)
    todo = []
    for i, t in enumerate(ty):
        if "crash" in t:
            out[i] = Verdict(labels=("compiler-crash",))
        elif not set(codes(t["types"])) <= BENIGN:
            out[i] = Verdict(labels=("ill-typed",))
        else:
            todo.append(i)
    its = [batch[i] for i in todo]
    A, B = tsgolint(BIN["x"], its, extra=EXTRA), eslint(its, extra=EXTRA)
    # without the list: is it what makes the difference?
    none = tsgolint(BIN["x"], [{**it, "rules": {k: {**o, **{x: [] for x in o if x.startswith("allow") and isinstance(o[x], list)}} for k, o in it["rules"].items()}} for it in its], extra=EXTRA)
    for i, it, a, b, c in zip(todo, its, A, B, none):
        rule = list(it["rules"])[0]
        if "crash" in a:
            out[i] = Verdict(fail=f"{rule} crashed: {a['crash']}")
        elif "unknown" in b:
            out[i] = Verdict(labels=("oracle-silent",))
        elif not {x for x, _ in b["types"]} <= BENIGN:
            out[i] = Verdict(labels=("ill-typed-upstream",))
        else:
            o, t = compare(rule, a["diags"], b["messages"], it)
            src = it["code"].encode()
            show = lambda xs: [(x[3], src[max(x[1], 0) : max(x[2], 0)].decode("utf-8", "replace")[:80]) for x in xs]
            fail = None
            if o or t:
                fail = f"{rule} {json.dumps(it['rules'][rule])}: reported by tsgolint only: {show(o)}; by typescript-eslint only: {show(t)}\n" + it["code"].replace(BODY, "<the common declarations>\n")
            eff = "crash" not in c and len(c["diags"]) != len(a["diags"])
            out[i] = Verdict(fail=fail, key=canon(it) if eff else None, labels=(rule, "exempted" if eff else "not exempted"), signature=divergence(it, o, t) if fail else "")
    return out


def divergence(it, o, t):
    return ""


def reduce(it):
    rule, o = list(it["rules"].items())[0]
    out = []
    for k in o:
        out.append({**it, "rules": {rule: {x: v for x, v in o.items() if x != k}}})
        if isinstance(o[k], list):
            out += [{**it, "rules": {rule: {**o, k: o[k][:i] + o[k][i + 1 :]}}} for i in range(len(o[k]))]
            out += [{**it, "rules": {rule: {**o, k: [{**s, "name": [n]} if isinstance(s, dict) and isinstance(s["name"], list) else s for s in o[k]]}}} for s0 in o[k] if isinstance(s0, dict) and isinstance(s0["name"], list) for n in s0["name"]]
    ls = it["code"].split("\n")
    return out + [{**it, "code": "\n".join(ls[:i] + ls[i + k :])} for k in (8, 2, 1) for i in range(0, len(ls), k)]


def make():
    chk = Check("C19", "programs that use types and values declared in this file, in other local files, in packages (scoped, @types, re-exported, nested package.json), in ambient modules and the default library - the same names everywhere, as classes, interfaces, aliases, enums, unions, intersections, generics, namespaces members - at the places the seven rules with allow lists judge, under random specifiers (plain, file, file with path, lib, package; one or several names); reports are compared with typescript-eslint's over the same files. Non-trivial = the list changes the reports.",
                setup=lambda: BIN.update(x=build("tsgolint")["tsgolint"]), assumptions=["typescript-eslint 8 with TypeScript 5.9 is the reference"])
    chk.add(GProp("specifiers", generate, evaluate, reduce, quick=10000, thorough=80000, batch=10000))
    return chk
