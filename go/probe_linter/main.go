// Drives the linter's traversal and its application of fixes: one JSON request per line on stdin,
// one JSON answer per line on stdout.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"slices"
	"sync"

	"github.com/microsoft/typescript-go/shim/ast"
	"github.com/microsoft/typescript-go/shim/bundled"
	"github.com/microsoft/typescript-go/shim/core"
	"github.com/microsoft/typescript-go/shim/vfs/cachedvfs"
	"github.com/microsoft/typescript-go/shim/vfs/osvfs"
	"github.com/typescript-eslint/tsgolint/internal/diagnostic"
	"github.com/typescript-eslint/tsgolint/internal/linter"
	"github.com/typescript-eslint/tsgolint/internal/rule"
	"github.com/typescript-eslint/tsgolint/internal/utils"
)

type file struct {
	Name, Text string
}
type fix struct {
	Pos, End int
	Text     string
}
type request struct {
	Op      string
	Files   []file
	Workers int
	Code    []byte
	Diags   [][]fix
	As      string
	Timing  bool
	Seed    int
}

// ---------------------------------------------------------------- traversal
const maxKind = 900

type event struct {
	what string // enter, exit, pattern, pattern exit, plain, plain exit
	node *ast.Node
}

func (e event) String() string {
	return fmt.Sprintf("%s %s [%d,%d)", e.what, e.node.Kind.String(), e.node.Pos(), e.node.End())
}

// target decides whether an expression is what a destructuring assignment assigns to: yes, no or open.
// A literal in parentheses or behind an assertion is no pattern in JavaScript: left open.
func target(n *ast.Node) (yes, open bool) {
	for {
		p := n.Parent
		switch p.Kind {
		case ast.KindBinaryExpression:
			b := p.AsBinaryExpression()
			return b.OperatorToken.Kind == ast.KindEqualsToken && b.Left == n, open
		case ast.KindForOfStatement, ast.KindForInStatement:
			return p.AsForInOrOfStatement().Initializer == n, open
		case ast.KindParenthesizedExpression, ast.KindAsExpression, ast.KindSatisfiesExpression, ast.KindNonNullExpression, ast.KindTypeAssertionExpression:
			open = true
			n = p
		case ast.KindArrayLiteralExpression, ast.KindSpreadElement:
			n = p
		case ast.KindSpreadAssignment:
			n = p.Parent
		case ast.KindPropertyAssignment:
			if p.AsPropertyAssignment().Initializer != n {
				return false, false
			}
			n = p.Parent
		default:
			return false, open
		}
	}
}

func expected(sf *ast.SourceFile) (events []event, open map[*ast.Node]bool) {
	open = map[*ast.Node]bool{}
	var walk func(n *ast.Node) bool
	walk = func(n *ast.Node) bool {
		role := ""
		if n.Kind == ast.KindArrayLiteralExpression || n.Kind == ast.KindObjectLiteralExpression {
			yes, undecided := target(n)
			if yes && undecided {
				open[n] = true
			} else if yes {
				role = "pattern"
			} else {
				role = "plain"
			}
		}
		events = append(events, event{"enter", n})
		if role != "" {
			events = append(events, event{role, n})
		}
		n.ForEachChild(walk)
		if role != "" {
			events = append(events, event{role + " exit", n})
		}
		events = append(events, event{"exit", n})
		return false
	}
	sf.AsNode().ForEachChild(walk)
	return
}

func visit(r request) any {
	const cwd = "/verif-virtual"
	virtual := map[string]string{}
	names := []string{}
	for _, f := range r.Files {
		virtual[cwd+"/"+f.Name] = f.Text
		names = append(names, cwd+"/"+f.Name)
	}
	fs := utils.NewOverlayVFS(bundled.WrapFS(cachedvfs.From(osvfs.FS())), virtual)
	program, _, err := utils.CreateInferredProjectProgram(true, fs, cwd, utils.CreateCompilerHost(cwd, fs), names)
	if err != nil {
		return map[string]any{"error": err.Error()}
	}
	files := []*ast.SourceFile{}
	for _, n := range names {
		files = append(files, program.GetSourceFile(n))
	}
	var mu sync.Mutex
	type key struct {
		sf   *ast.SourceFile
		rule string
	}
	got := map[key][]event{}
	runs := map[key]int{}
	type call struct {
		rule string
		event
	}
	all := map[*ast.SourceFile][]call{}
	mk := func(name string) linter.ConfiguredRule {
		return linter.ConfiguredRule{Name: name, Run: func(ctx rule.RuleContext) rule.RuleListeners {
			k := key{ctx.SourceFile, name}
			mu.Lock()
			runs[k]++
			mu.Unlock()
			l := rule.RuleListeners{}
			put := func(kind ast.Kind, what string) {
				l[kind] = func(n *ast.Node) {
					mu.Lock()
					got[k] = append(got[k], event{what, n})
					all[k.sf] = append(all[k.sf], call{name, event{what, n}})
					mu.Unlock()
				}
			}
			for kind := ast.Kind(0); kind < maxKind; kind++ {
				put(kind, "enter")
				put(rule.ListenerOnExit(kind), "exit")
				put(rule.ListenerOnAllowPattern(kind), "pattern")
				put(rule.ListenerOnExit(rule.ListenerOnAllowPattern(kind)), "pattern exit")
				put(rule.ListenerOnNotAllowPattern(kind), "plain")
				put(rule.ListenerOnExit(rule.ListenerOnNotAllowPattern(kind)), "plain exit")
			}
			return l
		}}
	}
	var timings *linter.RuleTimingStore
	if r.Timing {
		timings = linter.NewRuleTimingStore()
	}
	err = linter.RunLinterOnProgram(linter.RunLinterOnProgramOptions{
		TimingStore: timings,
		Program: program, Files: files, Workers: r.Workers,
		GetRulesForFile: func(sf *ast.SourceFile) []linter.ConfiguredRule {
			i := slices.Index(files, sf)
			if i%3 == 2 { // files differ in their rules
				return []linter.ConfiguredRule{mk("b")}
			}
			return []linter.ConfiguredRule{mk("a"), mk("b")}
		},
		OnDiagnostic:         func(rule.RuleDiagnostic) {},
		OnInternalDiagnostic: func(diagnostic.Internal) {},
	})
	if err != nil {
		return map[string]any{"error": err.Error()}
	}
	res := []any{}
	for i, sf := range files {
		want, open := expected(sf)
		o := map[string]any{"nodes": len(want), "fail": ""}
		pats := 0
		for _, e := range want {
			if e.what == "pattern" {
				pats++
			}
		}
		o["patterns"] = pats
		if log := all[sf]; i%3 != 2 {
			for j := 0; j < len(log); j += 2 {
				if j+1 == len(log) || log[j].rule != "a" || log[j+1].rule != "b" || log[j].event != log[j+1].event {
					o["fail"] = fmt.Sprintf("call %d (%s of rule %s) isn't made to both rules in their order", j, log[j].event.String(), log[j].rule)
					break
				}
			}
		}
		for _, name := range []string{"a", "b"} {
			g := got[key{sf, name}]
			if i%3 == 2 && name == "a" {
				if len(g) > 0 || runs[key{sf, name}] > 0 {
					o["fail"] = "a rule that is not configured for the file was called: " + g[0].String()
				}
				continue
			}
			if n := runs[key{sf, name}]; n != 1 {
				o["fail"] = fmt.Sprintf("rule %s was run %d times for the file", name, n)
			}
			// the announced parts of a pattern, other than literals, are not specified further
			f := g[:0:0]
			for _, e := range g {
				if (e.what == "pattern" || e.what == "pattern exit") && e.node.Kind != ast.KindArrayLiteralExpression && e.node.Kind != ast.KindObjectLiteralExpression {
					continue
				}
				if e.what != "enter" && e.what != "exit" && open[e.node] {
					continue
				}
				f = append(f, e)
			}
			for j := 0; j < len(f) || j < len(want); j++ {
				if j < len(f) && j < len(want) && f[j] == want[j] {
					continue
				}
				a, b := "nothing", "nothing"
				if j < len(f) {
					a = f[j].String()
				}
				if j < len(want) {
					b = want[j].String()
				}
				o["fail"] = fmt.Sprintf("call %d of rule %s is %s, expected %s", j, name, a, b)
				break
			}
		}
		res = append(res, o)
	}
	return res
}

// ---------------------------------------------------------------- reports
type reported struct {
	rule, msg, labels, fixes, suggestions string
	pos, end                             int
}

func mix(xs ...int) int {
	h := uint64(1469598103934665603)
	for _, x := range xs {
		h = (h ^ uint64(x)) * 1099511628211
		h ^= h >> 29
	}
	return int(h >> 2)
}

// report runs rules that report a lot, in every way there is, under all settings.
func report(r request) any {
	const cwd = "/verif-virtual"
	virtual := map[string]string{}
	names := []string{}
	for _, f := range r.Files {
		virtual[cwd+"/"+f.Name] = f.Text
		names = append(names, cwd+"/"+f.Name)
	}
	fs := utils.NewOverlayVFS(bundled.WrapFS(cachedvfs.From(osvfs.FS())), virtual)
	program, _, err := utils.CreateInferredProjectProgram(true, fs, cwd, utils.CreateCompilerHost(cwd, fs), names)
	if err != nil {
		return map[string]any{"error": err.Error()}
	}
	files := []*ast.SourceFile{}
	for _, n := range names {
		files = append(files, program.GetSourceFile(n))
	}
	fail := ""
	total := 0
	var base map[*ast.SourceFile][]reported
	for setting := range 8 {
		flags := linter.Fixes{Fix: setting&1 != 0, FixSuggestions: setting&2 != 0}
		var timings *linter.RuleTimingStore
		if setting&4 != 0 {
			timings = linter.NewRuleTimingStore()
		}
		var mu sync.Mutex
		wants := map[*ast.SourceFile][]reported{}
		gots := map[*ast.SourceFile][]reported{}
		bad := func(format string, a ...any) {
			mu.Lock()
			defer mu.Unlock()
			if fail == "" {
				fail = fmt.Sprintf("fix=%v, fix-suggestions=%v, timing=%v: ", flags.Fix, flags.FixSuggestions, timings != nil) + fmt.Sprintf(format, a...)
			}
		}
		mk := func(name string) linter.ConfiguredRule {
			return linter.ConfiguredRule{Name: name, Run: func(ctx rule.RuleContext) rule.RuleListeners {
				l := rule.RuleListeners{}
				sf := ctx.SourceFile
				k := 0
				on := func(node *ast.Node) {
					k++
					h := mix(r.Seed, k, node.Pos(), int(node.Kind), len(name))
					how := h % 9
					h /= 9
					rng := utils.TrimNodeTextRange(sf, node)
					w := reported{rule: name, msg: fmt.Sprintf("m%d", k), pos: rng.Pos(), end: rng.End()}
					msg := rule.RuleMessage{Id: w.msg, Description: "d" + w.msg}
					fixes := []rule.RuleFix{}
					for i := range h % 3 {
						fixes = append(fixes, rule.RuleFix{Text: fmt.Sprintf("%s.%d", w.msg, i), Range: core.NewTextRange(rng.Pos()+i, rng.Pos()+i)})
					}
					sugs := []rule.RuleSuggestion{}
					for i := range h / 3 % 3 {
						sugs = append(sugs, rule.RuleSuggestion{Message: rule.RuleMessage{Id: fmt.Sprint("s", i)}, FixesArr: fixes})
					}
					fixFn := func() []rule.RuleFix {
						if !flags.Fix {
							bad("the fixes of %s were asked for", w.msg)
						}
						return fixes
					}
					sugFn := func() []rule.RuleSuggestion {
						if !flags.FixSuggestions {
							bad("the suggestions of %s were asked for", w.msg)
						}
						return sugs
					}
					d := rule.RuleDiagnostic{Range: rng, Message: msg}
					if h%2 == 0 {
						d.LabeledRanges = []rule.RuleLabeledRange{{Label: "l" + w.msg, Range: rng}}
					}
					if how <= 2 {
						w.labels = fmt.Sprint(d.LabeledRanges)
					} else {
						w.labels = fmt.Sprint([]rule.RuleLabeledRange(nil))
					}
					withFixes, withSugs := false, false
					mu.Lock()
					at := len(wants[sf])
					wants[sf] = append(wants[sf], w)
					mu.Unlock()
					switch how {
					case 0:
						ctx.ReportDiagnostic(d)
					case 1:
						ctx.ReportDiagnosticWithFixes(d, fixFn)
						withFixes = true
					case 2:
						ctx.ReportDiagnosticWithSuggestions(d, sugFn)
						withSugs = true
					case 3:
						ctx.ReportRange(rng, msg)
					case 4:
						ctx.ReportRangeWithSuggestions(rng, msg, sugFn)
						withSugs = true
					case 5:
						ctx.ReportNode(node, msg)
					case 6:
						ctx.ReportNodeWithFixes(node, msg, fixFn)
						withFixes = true
					case 7:
						ctx.ReportNodeWithSuggestions(node, msg, sugFn)
						withSugs = true
					case 8:
						fix := h%2 == 0
						rule.ReportNodeWithFixesOrSuggestions(ctx, node, fix, msg, rule.RuleMessage{Id: "either"}, fixes...)
						withFixes = fix
						withSugs = !fix
						sugs = []rule.RuleSuggestion{{Message: rule.RuleMessage{Id: "either"}, FixesArr: fixes}}
					}
					mu.Lock()
					if withFixes && flags.Fix {
						wants[sf][at].fixes = fmt.Sprint(fixes)
					} else {
						wants[sf][at].fixes = "[]"
					}
					if withSugs && flags.FixSuggestions {
						wants[sf][at].suggestions = fmt.Sprint(sugs)
					} else {
						wants[sf][at].suggestions = "[]"
					}
					mu.Unlock()
				}
				for kind := ast.Kind(0); kind < maxKind; kind++ {
					if mix(r.Seed, int(kind))%3 == 0 {
						l[kind] = on
					}
					if mix(r.Seed, int(kind))%7 == 0 {
						l[rule.ListenerOnExit(kind)] = on
					}
				}
				if mix(r.Seed, len(name))%2 == 0 { // a report made while starting
					on(sf.AsNode())
				}
				return l
			}}
		}
		rules := []linter.ConfiguredRule{mk("first"), mk("second-rule")}
		err = linter.RunLinterOnProgram(linter.RunLinterOnProgramOptions{
			TimingStore: timings, Program: program, Files: files, Workers: 1 + setting%3, Fixes: flags,
			GetRulesForFile: func(sf *ast.SourceFile) []linter.ConfiguredRule { return rules },
			OnDiagnostic: func(d rule.RuleDiagnostic) {
				mu.Lock()
				defer mu.Unlock()
				gots[d.SourceFile] = append(gots[d.SourceFile], reported{d.RuleName, d.Message.Id, fmt.Sprint(d.LabeledRanges), fmt.Sprint(d.Fixes()), fmt.Sprint(d.GetSuggestions()), d.Range.Pos(), d.Range.End()})
			},
			OnInternalDiagnostic: func(diagnostic.Internal) {},
		})
		if err != nil {
			return map[string]any{"error": err.Error()}
		}
		for sf := range gots {
			if !slices.Contains(files, sf) {
				bad("a report is attributed to a file that is not linted")
			}
		}
		for _, sf := range files {
			g, w := gots[sf], wants[sf]
			total += len(w)
			for i := range max(len(g), len(w)) {
				if i >= len(g) || i >= len(w) || g[i] != w[i] {
					var a, b any = "nothing", "nothing"
					if i < len(g) {
						a = g[i]
					}
					if i < len(w) {
						b = w[i]
					}
					bad("report %d of %s is %+v, expected %+v", i, sf.FileName(), a, b)
					break
				}
			}
			if base != nil && len(base[sf]) != len(w) {
				bad("%d reports instead of %d", len(w), len(base[sf]))
			}
		}
		if base == nil {
			base = wants
		}
	}
	return map[string]any{"fail": fail, "reports": total}
}

// ---------------------------------------------------------------- fixes
type message struct {
	id    int
	fixes []rule.RuleFix
}

func (m message) Fixes() []rule.RuleFix { return m.fixes }

func applyFixes(r request) any {
	conv := func(i int) []rule.RuleFix {
		var fs []rule.RuleFix
		for _, f := range r.Diags[i] {
			fs = append(fs, rule.RuleFix{Text: f.Text, Range: core.NewTextRange(f.Pos, f.End)})
		}
		return fs
	}
	left := []int{}
	var out string
	var did bool
	switch r.As {
	case "diagnostics":
		ds := []rule.RuleDiagnostic{}
		for i := range r.Diags {
			d := rule.RuleDiagnostic{RuleName: fmt.Sprint(i)}
			if fs := conv(i); fs != nil {
				d.FixesPtr = &fs
			}
			ds = append(ds, d)
		}
		o, un, f := linter.ApplyRuleFixes(string(r.Code), ds)
		out, did = o, f
		for _, d := range un {
			var i int
			fmt.Sscan(d.RuleName, &i)
			left = append(left, i)
		}
	case "suggestions":
		ds := []rule.RuleSuggestion{}
		for i := range r.Diags {
			ds = append(ds, rule.RuleSuggestion{Message: rule.RuleMessage{Id: fmt.Sprint(i)}, FixesArr: conv(i)})
		}
		o, un, f := linter.ApplyRuleFixes(string(r.Code), ds)
		out, did = o, f
		for _, d := range un {
			var i int
			fmt.Sscan(d.Message.Id, &i)
			left = append(left, i)
		}
	default:
		ds := []message{}
		for i := range r.Diags {
			ds = append(ds, message{i, conv(i)})
		}
		o, un, f := linter.ApplyRuleFixes(string(r.Code), ds)
		out, did = o, f
		for _, d := range un {
			left = append(left, d.id)
		}
	}
	return map[string]any{"out": []byte(out), "unapplied": left, "fixed": did}
}

func handle(r request) (res any) {
	defer func() {
		if e := recover(); e != nil {
			res = map[string]any{"panic": fmt.Sprint(e)}
		}
	}()
	switch r.Op {
	case "visit":
		return visit(r)
	case "report":
		return report(r)
	case "fix":
		return applyFixes(r)
	}
	return map[string]any{"error": "unknown op"}
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var batch []request
		if err := json.Unmarshal(line, &batch); err != nil {
			var one request
			if err := json.Unmarshal(line, &one); err != nil {
				panic(err)
			}
			b, _ := json.Marshal(handle(one))
			out.Write(b)
		} else {
			res := []any{}
			for _, r := range batch {
				res = append(res, handle(r))
			}
			b, _ := json.Marshal(res)
			out.Write(b)
		}
		out.WriteByte('\n')
		out.Flush()
	}
}
