// Reference answers straight from the pinned compiler, built inside its module and independent of tsgolint:
// one JSON request per line on stdin, one JSON answer per line on stdout.
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"fmt"
	"os"

	"github.com/microsoft/typescript-go/internal/ast"
	"github.com/microsoft/typescript-go/internal/bundled"
	"github.com/microsoft/typescript-go/internal/compiler"
	"github.com/microsoft/typescript-go/internal/core"
	"github.com/microsoft/typescript-go/internal/parser"
	"github.com/microsoft/typescript-go/internal/tsoptions"
	"github.com/microsoft/typescript-go/internal/tspath"
	"github.com/microsoft/typescript-go/internal/vfs/osvfs"
)

type request struct {
	Op       string
	Tsconfig string
	Files    []string
	FileName string
	Text     string
	Texts    [][2]string
}
type diag struct {
	Code     int    `json:"code"`
	Pos      int    `json:"pos"`
	End      int    `json:"end"`
	Msg      string `json:"msg"`
	File     string `json:"file"`
	Category int    `json:"cat"`
}

func conv(ds []*ast.Diagnostic) []diag {
	out := []diag{}
	for _, d := range ds {
		f := ""
		if d.File() != nil {
			f = d.File().FileName()
		}
		out = append(out, diag{int(d.Code()), d.Pos(), d.End(), d.String(), f, int(d.Category())})
	}
	return out
}

func load(cfg string) (compiler.CompilerHost, *tsoptions.ParsedCommandLine, []*ast.Diagnostic) {
	fs := bundled.WrapFS(osvfs.FS())
	host := compiler.NewCompilerHost(tspath.GetDirectoryPath(cfg), fs, bundled.LibPath(), nil, nil)
	parsed, errs := tsoptions.GetParsedCommandLineOfConfigFile(cfg, &core.CompilerOptions{}, nil, host, nil)
	return host, parsed, errs
}

func handle(r request) (res any) {
	defer func() {
		if e := recover(); e != nil {
			res = map[string]any{"panic": fmt.Sprint(e)}
		}
	}()
	switch r.Op {
	case "config":
		_, parsed, errs := load(r.Tsconfig)
		if parsed == nil {
			return map[string]any{"errors": conv(errs)}
		}
		o := parsed.CompilerOptions()
		return map[string]any{"errors": conv(append(errs, parsed.Errors...)), "files": parsed.FileNames(), "refs": parsed.ResolvedProjectReferencePaths(),
			"composite": o.Composite.IsTrue(), "noSolution": o.DisableSolutionSearching.IsTrue()}
	case "diags":
		host, parsed, errs := load(r.Tsconfig)
		if parsed == nil {
			return map[string]any{"errors": conv(errs)}
		}
		p := compiler.NewProgram(compiler.ProgramOptions{Config: parsed, Host: host, SingleThreaded: core.TSTrue, UseSourceOfProjectReference: true})
		ctx := core.WithRequestID(context.Background(), "ref")
		out := map[string]any{}
		for _, f := range r.Files {
			sf := p.GetSourceFile(f)
			if sf == nil {
				continue
			}
			out[f] = map[string]any{"syn": conv(p.GetSyntacticDiagnostics(ctx, sf)), "sem": conv(p.GetSemanticDiagnostics(ctx, sf))}
		}
		return map[string]any{"errors": conv(append(errs, parsed.Errors...)), "program": conv(p.GetProgramDiagnostics()), "files": out}
	case "parse":
		out := []any{}
		for _, t := range r.Texts {
			kind := core.GetScriptKindFromFileName(t[0])
			sf := parser.ParseSourceFile(ast.SourceFileParseOptions{FileName: t[0], Path: tspath.Path(t[0])}, t[1], kind)
			out = append(out, conv(sf.Diagnostics()))
		}
		return out
	}
	return map[string]any{"error": "unknown op"}
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if len(line) > 1 {
			var r request
			var res any
			if e := json.Unmarshal(line, &r); e != nil {
				res = map[string]any{"error": e.Error()}
			} else {
				res = handle(r)
			}
			b, _ := json.Marshal(res)
			w.Write(b)
			w.WriteByte('\n')
			w.Flush()
		}
		if err != nil {
			return
		}
	}
}
