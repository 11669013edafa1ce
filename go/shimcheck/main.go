// Compares shim packages with the packages they stand for. What can be said about types, constants,
// layouts and completeness is decided here and printed as JSON; for everything that has to be observed at
// run time a Go program comparing the two sides is written.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"os"
	"path"
	"sort"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/packages"
)

const base = "github.com/microsoft/typescript-go/"

type finding struct {
	Pkg    string `json:"pkg"`
	Name   string `json:"name"`
	What   string `json:"what"` // "" when all is well
	Class  string `json:"class"`
	Symbol string `json:"symbol"`
}

var out struct {
	Static  []finding `json:"static"`
	Runtime []finding `json:"runtime"`
	Error   string    `json:"error"`
}

type request struct {
	ExtraFunctions  []string
	ExtraMethods    map[string][]string
	ExtraFields     map[string][]string
	IgnoreFunctions []string
}

func title(s string) string {
	r, n := utf8.DecodeRuneInString(s)
	return string(unicode.ToUpper(r)) + s[n:]
}

// expressible: the type can be written down in another package.
func expressible(t types.Type) bool {
	seen := map[types.Type]bool{}
	var ok func(t types.Type) bool
	tuple := func(v *types.Tuple) bool {
		for i := 0; i < v.Len(); i++ {
			if !ok(v.At(i).Type()) {
				return false
			}
		}
		return true
	}
	list := func(l *types.TypeList) bool {
		for i := 0; i < l.Len(); i++ {
			if !ok(l.At(i)) {
				return false
			}
		}
		return true
	}
	ok = func(t types.Type) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		switch t := t.(type) {
		case *types.Alias:
			return (t.Obj().Exported() || t.Obj().Pkg() == nil) && list(t.TypeArgs())
		case *types.Named:
			return (t.Obj().Exported() || t.Obj().Pkg() == nil) && list(t.TypeArgs())
		case *types.Pointer:
			return ok(t.Elem())
		case *types.Slice:
			return ok(t.Elem())
		case *types.Array:
			return ok(t.Elem())
		case *types.Chan:
			return ok(t.Elem())
		case *types.Map:
			return ok(t.Key()) && ok(t.Elem())
		case *types.Signature:
			return tuple(t.Params()) && tuple(t.Results())
		case *types.Struct:
			for i := 0; i < t.NumFields(); i++ {
				if !t.Field(i).Exported() || !ok(t.Field(i).Type()) {
					return false
				}
			}
			return true
		case *types.Interface:
			for i := 0; i < t.NumExplicitMethods(); i++ {
				if !t.ExplicitMethod(i).Exported() || !ok(t.ExplicitMethod(i).Type()) {
					return false
				}
			}
			for i := 0; i < t.NumEmbeddeds(); i++ {
				if !ok(t.EmbeddedType(i)) {
					return false
				}
			}
			return true
		case *types.Union:
			for i := 0; i < t.Len(); i++ {
				if !ok(t.Term(i).Type()) {
					return false
				}
			}
			return true
		}
		return true
	}
	return ok(t)
}

func main() {
	dir := flag.String("dir", ".", "")
	flags := flag.String("flags", "", "")
	pkgs := flag.String("pkgs", "", "")
	shims := flag.String("shims", "", "directory of the shim packages, for extra-shim.json")
	mainOut := flag.String("out", "", "")
	api := flag.String("api", "", "print the declarations of these files instead")
	flag.Parse()
	if *api != "" {
		printAPI(strings.Split(*api, ","))
		return
	}
	defer func() { json.NewEncoder(os.Stdout).Encode(out) }()
	names := strings.Split(*pkgs, ",")
	var pats []string
	for _, n := range names {
		pats = append(pats, base+"internal/"+n, base+"shim/"+n)
	}
	var bf []string
	if *flags != "" {
		bf = strings.Split(*flags, " ")
	}
	loaded, err := packages.Load(&packages.Config{Dir: *dir, Mode: packages.LoadSyntax, BuildFlags: bf}, pats...)
	if err != nil {
		out.Error = err.Error()
		return
	}
	by := map[string]*types.Package{}
	for _, p := range loaded {
		for _, e := range p.Errors {
			if strings.Contains(e.Msg, "missing function body") {
				continue
			}
			out.Error += e.Error() + "\n"
		}
		by[p.PkgPath] = p.Types
	}
	if out.Error != "" {
		return
	}
	var body, decls strings.Builder
	imports := map[string]string{}
	alias := func(p string) string {
		if imports[p] == "" {
			imports[p] = fmt.Sprintf("p%d", len(imports))
		}
		return imports[p]
	}
	qual := func(p *types.Package) string { return alias(p.Path()) }
	linked := 0
	sizes := types.SizesFor("gc", "amd64")
	for _, n := range names {
		o, s := by[base+"internal/"+n], by[base+"shim/"+n]
		if o == nil || s == nil {
			out.Error = "package not loaded: " + n
			return
		}
		var req request
		if data, err := os.ReadFile(path.Join(*shims, n, "extra-shim.json")); err == nil {
			json.Unmarshal(data, &req)
		}
		note := func(name, what, class string) {
			out.Static = append(out.Static, finding{n, name, what, class, ""})
		}
		ignored := map[string]bool{}
		for _, f := range req.IgnoreFunctions {
			ignored[f] = true
		}
		// --- completeness
		for _, name := range o.Scope().Names() {
			ob := o.Scope().Lookup(name)
			if !ob.Exported() {
				continue
			}
			have := s.Scope().Lookup(name)
			if fn, isFn := ob.(*types.Func); isFn {
				sig := fn.Signature()
				switch {
				case ignored[name]:
					if have != nil {
						note(name, "is exposed though it is to be ignored", "ignored")
					} else {
						note(name, "", "ignored")
					}
				case sig.TypeParams() != nil || !expressible(sig):
				case have == nil:
					note(name, "exported function without a shim", "complete")
				default:
					note(name, "", "complete")
				}
				continue
			}
			if _, isVar := ob.(*types.Var); isVar && !expressible(ob.Type()) && false {
				continue
			}
			if have == nil {
				note(name, fmt.Sprintf("exported %T without a shim", ob), "complete")
			} else {
				note(name, "", "complete")
			}
		}
		wanted := func(shim string) {
			if s.Scope().Lookup(shim) == nil {
				note(shim, "requested extra without a shim", "extra")
			} else {
				note(shim, "", "extra")
			}
		}
		for _, f := range req.ExtraFunctions {
			wanted(title(f))
		}
		for _, m := range []map[string][]string{req.ExtraMethods, req.ExtraFields} {
			for t, l := range m {
				for _, f := range l {
					wanted(t + "_" + f)
				}
			}
		}
		// --- every symbol of the shim
		for _, name := range s.Scope().Names() {
			sh := s.Scope().Lookup(name)
			or := o.Scope().Lookup(name)
			if !sh.Exported() {
				// mirrored layouts
				tn, isT := sh.(*types.TypeName)
				if !isT || !strings.HasPrefix(name, "extra_") {
					continue
				}
				ot, _ := o.Scope().Lookup(strings.TrimPrefix(name, "extra_")).(*types.TypeName)
				if ot == nil {
					continue
				}
				a, ok1 := tn.Type().Underlying().(*types.Struct)
				b, ok2 := ot.Type().Underlying().(*types.Struct)
				if !ok1 || !ok2 {
					continue
				}
				what := ""
				if a.NumFields() != b.NumFields() {
					what = fmt.Sprintf("%d fields mirrored as %d", b.NumFields(), a.NumFields())
				} else {
					var fa, fb []*types.Var
					for i := 0; i < a.NumFields(); i++ {
						fa, fb = append(fa, a.Field(i)), append(fb, b.Field(i))
					}
					oa, ob := sizes.Offsetsof(fa), sizes.Offsetsof(fb)
					for i := range fa {
						switch {
						case oa[i] != ob[i] || sizes.Sizeof(fa[i].Type()) != sizes.Sizeof(fb[i].Type()):
							what = fmt.Sprintf("field %d, %s at offset %d size %d, mirrored as %s at offset %d size %d", i, fb[i].Name(), ob[i], sizes.Sizeof(fb[i].Type()), fa[i].Name(), oa[i], sizes.Sizeof(fa[i].Type()))
						case fa[i].Name() != fb[i].Name() && fa[i].Name() != "_" && !fb[i].Embedded():
							what = fmt.Sprintf("field %d, %s, mirrored as %s", i, fb[i].Name(), fa[i].Name())
						}
						if what != "" {
							break
						}
					}
				}
				note(name, what, "layout")
				continue
			}
			if or != nil && !or.Exported() {
				or = nil
			}
			switch sh := sh.(type) {
			case *types.Const:
				if c, ok := or.(*types.Const); ok {
					what := ""
					if !types.Identical(c.Type(), sh.Type()) {
						what = fmt.Sprintf("constant of type %s, originally %s", sh.Type(), c.Type())
					} else if !constant.Compare(c.Val(), token.EQL, sh.Val()) {
						what = fmt.Sprintf("constant %s, originally %s", sh.Val(), c.Val())
					}
					note(name, what, "const")
				} else if or != nil {
					note(name, "a constant, originally something else", "const")
				}
			case *types.TypeName:
				c, ok := or.(*types.TypeName)
				if !ok {
					if or != nil {
						note(name, "a type, originally something else", "type")
					}
					continue
				}
				what := ""
				if al, isA := sh.Type().(*types.Alias); isA && al.TypeParams().Len() > 0 {
					what = genericAlias(al, c)
				} else if !types.Identical(sh.Type(), c.Type()) {
					what = fmt.Sprintf("stands for %s, originally %s", types.Unalias(sh.Type()), types.Unalias(c.Type()))
				}
				note(name, what, "type")
			case *types.Var:
				if or == nil {
					continue
				}
				if _, ok := or.(*types.Var); !ok {
					note(name, "a variable, originally something else", "var")
					continue
				}
				fmt.Fprintf(&body, "\taddVar(%q, %q, &%s.%s, &%s.%s)\n", n, name, alias(s.Path()), name, alias(o.Path()), name)
				out.Runtime = append(out.Runtime, finding{Pkg: n, Name: name, Class: "var"})
			case *types.Func:
				if sh.Signature().TypeParams() != nil {
					continue
				}
				link := func(fn *types.Func, recv *types.Var) {
					linked++
					l := fmt.Sprintf("orig%d", linked)
					sym := fn.Name()
					sig := fn.Signature()
					params := []*types.Var{}
					if recv != nil {
						t := recv.Type()
						if p, ok := t.(*types.Pointer); ok {
							sym = "(*" + p.Elem().(*types.Named).Obj().Name() + ")." + sym
						} else {
							sym = t.(*types.Named).Obj().Name() + "." + sym
						}
						params = append(params, types.NewParam(0, nil, "recv", t))
					}
					for i := 0; i < sig.Params().Len(); i++ {
						params = append(params, types.NewParam(0, nil, fmt.Sprintf("a%d", i), sig.Params().At(i).Type()))
					}
					results := []*types.Var{}
					for i := 0; i < sig.Results().Len(); i++ {
						results = append(results, types.NewParam(0, nil, "", sig.Results().At(i).Type()))
					}
					ns := types.NewSignatureType(nil, nil, nil, types.NewTuple(params...), types.NewTuple(results...), sig.Variadic())
					alias(o.Path())
					fmt.Fprintf(&decls, "//go:linkname %s %s.%s\nfunc %s%s\n\n", l, o.Path(), sym, l, strings.TrimPrefix(types.TypeString(ns, qual), "func"))
					fmt.Fprintf(&body, "\taddFunc(%q, %q, %s.%s, %s, %q)\n", n, name, alias(s.Path()), name, l, o.Path()+"."+sym)
					out.Runtime = append(out.Runtime, finding{Pkg: n, Name: name, Class: "function", Symbol: sym})
				}
				if fn, ok := or.(*types.Func); ok && fn.Signature().TypeParams() == nil {
					fmt.Fprintf(&body, "\taddFunc(%q, %q, %s.%s, %s.%s, %q)\n", n, name, alias(s.Path()), name, alias(o.Path()), name, o.Path()+"."+name)
					out.Runtime = append(out.Runtime, finding{Pkg: n, Name: name, Class: "function", Symbol: name})
					continue
				} else if or != nil {
					note(name, "a function, originally something else", "function")
					continue
				}
				r, w := utf8.DecodeRuneInString(name)
				if fn, ok := o.Scope().Lookup(string(unicode.ToLower(r)) + name[w:]).(*types.Func); ok {
					if expressible(fn.Signature()) {
						link(fn, nil)
					}
					continue
				}
				// T_member, for the longest T that is a type
				done := false
				for i := len(name) - 1; i > 0 && !done; i-- {
					if name[i] != '_' {
						continue
					}
					tn, ok := o.Scope().Lookup(name[:i]).(*types.TypeName)
					if !ok {
						continue
					}
					named, ok := tn.Type().(*types.Named)
					if !ok {
						continue
					}
					member := name[i+1:]
					for k := 0; k < named.NumMethods() && !done; k++ {
						if m := named.Method(k); m.Name() == member {
							done = true
							if expressible(m.Signature()) {
								link(m, m.Signature().Recv())
							}
						}
					}
					if st, ok := named.Underlying().(*types.Struct); ok && !done {
						for k := 0; k < st.NumFields() && !done; k++ {
							if st.Field(k).Name() == member {
								done = true
								ps := sh.Signature().Params()
								if ps.Len() != 1 || !types.Identical(ps.At(0).Type(), types.NewPointer(named)) || sh.Signature().Results().Len() != 1 {
									note(name, "is no accessor of that field: "+sh.Signature().String(), "field")
									continue
								}
								fmt.Fprintf(&body, "\taddField(%q, %q, %s.%s, %q)\n", n, name, alias(s.Path()), name, member)
								out.Runtime = append(out.Runtime, finding{Pkg: n, Name: name, Class: "field"})
							}
						}
					}
				}
			}
		}
	}
	if *mainOut != "" {
		var b strings.Builder
		b.WriteString("// Written by shimcheck.\npackage main\n\nimport _ \"unsafe\"\n")
		var ps []string
		for p := range imports {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			name := imports[p]
			if !strings.Contains(body.String(), name+".") && !strings.Contains(decls.String(), name+".") {
				name = "_"
			}
			fmt.Fprintf(&b, "import %s %q\n", name, p)
		}
		b.WriteString("\n" + decls.String() + "func init() {\n" + body.String() + "}\n")
		if err := os.WriteFile(*mainOut, []byte(b.String()), 0o644); err != nil {
			out.Error = err.Error()
		}
	}
}

func genericAlias(al *types.Alias, c *types.TypeName) string {
	var params *types.TypeParamList
	switch t := c.Type().(type) {
	case *types.Named:
		params = t.TypeParams()
	case *types.Alias:
		params = t.TypeParams()
	}
	if params.Len() != al.TypeParams().Len() {
		return fmt.Sprintf("%d type parameters, originally %d", al.TypeParams().Len(), params.Len())
	}
	var args []types.Type
	for i := 0; i < params.Len(); i++ {
		args = append(args, al.TypeParams().At(i))
	}
	inst, err := types.Instantiate(nil, c.Type(), args, false)
	if err != nil {
		return err.Error()
	}
	if !types.Identical(al.Rhs(), inst) {
		return fmt.Sprintf("stands for %s, originally %s", al.Rhs(), inst)
	}
	for i := 0; i < params.Len(); i++ {
		if a, b := al.TypeParams().At(i).Constraint().String(), params.At(i).Constraint().String(); a != b {
			return fmt.Sprintf("constraint %s, originally %s", a, b)
		}
	}
	return ""
}

// printAPI prints what the files declare, by name: comments and function bodies left out, linknames kept.
func printAPI(files []string) {
	res := map[string]string{}
	for _, name := range files {
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, nil, parser.ParseComments)
		if err != nil {
			res["error "+name] = err.Error()
			continue
		}
		links := map[string]string{}
		for _, g := range f.Comments {
			for _, c := range g.List {
				if w := strings.Fields(c.Text); len(w) == 3 && w[0] == "//go:linkname" {
					links[w[1]] = w[2]
				}
			}
		}
		text := func(n any) string {
			var b strings.Builder
			printer.Fprint(&b, token.NewFileSet(), n)
			return strings.Join(strings.Fields(b.String()), " ")
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				s := text(d.Type)
				if d.Body == nil {
					s += " = " + links[d.Name.Name]
				}
				res["func "+d.Name.Name] = s
			case *ast.GenDecl:
				for _, sp := range d.Specs {
					switch sp := sp.(type) {
					case *ast.TypeSpec:
						sp.Doc, sp.Comment = nil, nil
						res["type "+sp.Name.Name] = text(sp)
					case *ast.ValueSpec:
						for i, n := range sp.Names {
							v := ""
							if i < len(sp.Values) {
								v = text(sp.Values[i])
							}
							res[d.Tok.String()+" "+n.Name] = v
						}
					}
				}
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(res)
}
