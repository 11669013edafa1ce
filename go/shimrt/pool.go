// Live values of the pinned compiler for calling shims: a checked program and everything reached from it.
package main

import (
	"context"
	"reflect"

	"github.com/microsoft/typescript-go/internal/ast"
	"github.com/microsoft/typescript-go/internal/bundled"
	"github.com/microsoft/typescript-go/internal/checker"
	"github.com/microsoft/typescript-go/internal/compiler"
	"github.com/microsoft/typescript-go/internal/core"
	"github.com/microsoft/typescript-go/internal/diagnostics"
	"github.com/microsoft/typescript-go/internal/locale"
	"github.com/microsoft/typescript-go/internal/tsoptions"
	"github.com/microsoft/typescript-go/internal/vfs/iovfs"
	shimast "github.com/microsoft/typescript-go/shim/ast"
	"testing/fstest"
)

const source = `
interface I<T> { readonly a: string; b?: T; m(x: number): x is 1; [k: string]: any }
class C<T extends I<any>> implements I<string> { readonly a = 'x'; b?: string; m(x: number): x is 1 { return true } [k: string]: any; /** @deprecated no */ old = 1 }
type M<T> = { readonly [K in keyof T]?: T[K] }; type Cnd<T> = T extends string ? 'a' : [1, 2?, ...string[]];
type Q = I<number>['a']; type U = { f: M<I<number>> };
const { a: renamed, ...rest } = { a: 1, b: [1, 'x'] as const, c: /x/g };
async function f<T extends C<any>>(this: U, p: T, q: Cnd<T>, ...r: T[]) { await Promise.resolve(q); return p.old + renamed; }
const tuple: readonly [number, s?: string] = [1]; let u: string | number | undefined; enum E { A, B = 'b' }
function assertIt(x: unknown): asserts x is string { if (typeof x !== 'string') throw new Error(` + "`${x}`" + `); }
const g = (x: keyof U, y = x!) => x?.toString() ?? y; label: for (const k of [1]) { switch (k) { case 1: continue label; default: break } }
export { f as ff, rest, tuple, u, E, assertIt, g };
`

func add[T comparable](vs ...T) {
	var zero T
	t := reflect.TypeFor[T]()
	for _, v := range vs {
		if v != zero && len(pool[t]) < 4000 {
			pool[t] = append(pool[t], reflect.ValueOf(v))
		}
	}
}

func init() {
	// the hand-written helpers
	addVar("ast", "DefaultLocale()", func() any { l := shimast.DefaultLocale(); return &l }(), &locale.Default)
	addVar("ast", "DiagnosticsMessage", new(shimast.DiagnosticsMessage), new(diagnostics.Message))
	fs := bundled.WrapFS(iovfs.From(fstest.MapFS{"p/a.ts": {Data: []byte(source)}, "p/tsconfig.json": {Data: []byte(`{"compilerOptions":{"strict":true,"target":"esnext"}}`)}}, true))
	host := compiler.NewCompilerHost("/p", fs, bundled.LibPath(), nil, nil)
	parsed, _ := tsoptions.GetParsedCommandLineOfConfigFile("/p/tsconfig.json", &core.CompilerOptions{}, nil, host, nil)
	p := compiler.NewProgram(compiler.ProgramOptions{Config: parsed, Host: host, SingleThreaded: core.TSTrue})
	c, release := p.GetTypeChecker(context.Background())
	defer release()
	sf := p.GetSourceFile("/p/a.ts")
	add(p)
	add(c)
	add(sf)
	add(p.Options())
	for _, d := range p.GetSemanticDiagnostics(context.Background(), sf) {
		add(d)
	}
	seen := map[*checker.Type]bool{}
	var note func(t *checker.Type)
	note = func(t *checker.Type) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		add(t)
		for _, k := range []checker.SignatureKind{checker.SignatureKindCall, checker.SignatureKindConstruct} {
			for _, s := range c.GetSignaturesOfType(t, k) {
				add(s)
				add(c.GetTypePredicateOfSignature(s))
				note(c.GetReturnTypeOfSignature(s))
			}
		}
		if t.Flags()&checker.TypeFlagsConditional != 0 {
			add(t.AsConditionalType())
		}
		if t.Flags()&checker.TypeFlagsIndexedAccess != 0 {
			add(t.AsIndexedAccessType())
		}
		if t.Flags()&checker.TypeFlagsObject != 0 {
			if t.ObjectFlags()&checker.ObjectFlagsMapped != 0 {
				add(t.AsMappedType())
			}
			if t.ObjectFlags()&checker.ObjectFlagsTuple != 0 {
				add(t.AsTupleType())
			}
			if t.ObjectFlags()&checker.ObjectFlagsClassOrInterface != 0 {
				add(t.AsInterfaceType())
			}
			if t.ObjectFlags()&checker.ObjectFlagsReference != 0 {
				note(t.Target())
			}
		}
	}
	var visit func(n *ast.Node) bool
	visit = func(n *ast.Node) bool {
		add(n)
		if s := n.Symbol(); s != nil {
			add(s)
			note(c.GetDeclaredTypeOfSymbol(s))
		}
		func() {
			defer func() { recover() }()
			note(c.GetTypeAtLocation(n))
			add(c.GetSymbolAtLocation(n))
		}()
		n.ForEachChild(visit)
		return false
	}
	visit(sf.AsNode())
}
