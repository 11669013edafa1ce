// Drives small parts of internal/utils: one JSON request (or batch) per line on stdin, one answer per line.
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"time"

	"github.com/microsoft/typescript-go/shim/vfs"
	"github.com/typescript-eslint/tsgolint/internal/collections"
	"github.com/typescript-eslint/tsgolint/internal/utils"
)

type request struct {
	Op      string
	Strings []string
	Graph   [][]int
	Start   int
	Result  []int
	Stop    []int
	Visited []int // nil: no set given
	Deleted [][]int
	Base    map[string]string
	Dirs    []string
	Virtual map[string]string
	Calls   [][]string
}

func set(xs []int) map[int]bool {
	m := map[int]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return m
}

func bfs(r request) any {
	result, stop := set(r.Result), set(r.Stop)
	opts := utils.BreadthFirstSearchOptions[int]{}
	var visited *collections.SyncSet[int]
	if r.Visited != nil {
		visited = &collections.SyncSet[int]{}
		for _, v := range r.Visited {
			visited.Add(v)
		}
		opts.Visited = visited
	}
	levels := [][]int{}
	hookErr := ""
	if r.Deleted != nil {
		opts.PreprocessLevel = func(l *utils.BreadthFirstSearchLevel[int]) {
			k := len(levels)
			before := []int{}
			l.Range(func(n int) bool { before = append(before, n); return true })
			for i := range before { // Range stops when told to
				n := 0
				l.Range(func(int) bool { n++; return n <= i })
				if n != i+1 {
					hookErr = fmt.Sprintf("Range went over %d nodes, told to stop after %d", n, i+1)
				}
			}
			if k < len(r.Deleted) {
				for _, n := range r.Deleted[k] {
					l.Delete(n)
					if l.Has(n) {
						hookErr = "a removed node is still there"
					}
				}
			}
			after := []int{}
			l.Range(func(n int) bool { after = append(after, n); return true })
			for _, n := range after {
				if !l.Has(n) {
					hookErr = "Has denies a node Range shows"
				}
			}
			levels = append(levels, before)
		}
	}
	visits := []int{}
	res := utils.BreadthFirstSearch(r.Start, func(n int) []int { return r.Graph[n] }, func(n int) (bool, bool) {
		visits = append(visits, n)
		return result[n], stop[n]
	}, opts)
	after := []int{}
	if visited != nil {
		for n := range len(r.Graph) {
			if visited.Has(n) {
				after = append(after, n)
			}
		}
	}
	return map[string]any{"visits": visits, "path": res.Path, "stopped": res.Stopped, "levels": levels, "hook": hookErr, "visited": after}
}

// fakeFS is a base file system that only records what would be changed.
type fakeFS struct {
	files map[string]string
	dirs  map[string]bool
	log   []string
}

type info struct {
	vfs.FileInfo
	name string
	size int64
	dir  bool
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return i.size }
func (i info) IsDir() bool  { return i.dir }

func (f *fakeFS) UseCaseSensitiveFileNames() bool { return true }
func (f *fakeFS) FileExists(p string) bool        { _, ok := f.files[p]; return ok }
func (f *fakeFS) ReadFile(p string) (string, bool) {
	s, ok := f.files[p]
	return s, ok
}
func (f *fakeFS) WriteFile(p string, d string) error {
	f.log = append(f.log, "write "+p+" "+d)
	return errors.New("w")
}
func (f *fakeFS) AppendFile(p string, d string) error {
	f.log = append(f.log, "append "+p+" "+d)
	return errors.New("a")
}
func (f *fakeFS) Remove(p string) error { f.log = append(f.log, "remove "+p); return errors.New("r") }
func (f *fakeFS) Chtimes(p string, a, m time.Time) error {
	f.log = append(f.log, fmt.Sprint("chtimes ", p, a.Unix(), m.Unix()))
	return errors.New("c")
}
func (f *fakeFS) DirectoryExists(p string) bool { return f.dirs[p] }
func (f *fakeFS) GetAccessibleEntries(p string) vfs.Entries {
	e := vfs.Entries{}
	if p != "" && p[len(p)-1] != '/' {
		p += "/"
	}
	for _, c := range []struct {
		names []string
		to    *[]string
	}{{keys(f.files), &e.Files}, {keys(f.dirs), &e.Directories}} {
		for _, n := range c.names {
			if len(n) > len(p) && n[:len(p)] == p {
				rest := n[len(p):]
				ok := true
				for _, ch := range rest {
					ok = ok && ch != '/'
				}
				if ok {
					*c.to = append(*c.to, rest)
				}
			}
		}
	}
	return e
}
func keys[V any](m map[string]V) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	return
}
func (f *fakeFS) Stat(p string) vfs.FileInfo {
	if s, ok := f.files[p]; ok {
		return info{name: "base:" + p, size: int64(len(s))}
	}
	if f.dirs[p] {
		return info{name: "base:" + p, dir: true}
	}
	return nil
}
func (f *fakeFS) WalkDir(root string, fn vfs.WalkDirFunc) error {
	f.log = append(f.log, "walk "+root)
	return fn("walked "+root, nil, nil)
}
func (f *fakeFS) Realpath(p string) string { return "/real" + p }

func overlay(r request) any {
	base := &fakeFS{files: r.Base, dirs: map[string]bool{}}
	for _, d := range r.Dirs {
		base.dirs[d] = true
	}
	return drive(utils.NewOverlayVFS(base, r.Virtual), base, r.Calls)
}

func drive(fs vfs.FS, base *fakeFS, calls [][]string) any {
	out := []any{}
	for _, c := range calls {
		base.log = nil
		var v any
		func() {
			defer func() {
				if e := recover(); e != nil {
					v = map[string]any{"panic": fmt.Sprint(e)}
				}
			}()
			es := func(e error) any {
				if e == nil {
					return nil
				}
				return e.Error()
			}
			switch c[0] {
			case "exists":
				v = fs.FileExists(c[1])
			case "read":
				s, ok := fs.ReadFile(c[1])
				v = []any{s, ok}
			case "dir":
				v = fs.DirectoryExists(c[1])
			case "entries":
				e := fs.GetAccessibleEntries(c[1])
				v = []any{append([]string{}, e.Files...), append([]string{}, e.Directories...)}
			case "stat":
				s := fs.Stat(c[1])
				if s == nil {
					v = nil
				} else {
					v = []any{s.Size(), s.IsDir()}
				}
			case "real":
				v = fs.Realpath(c[1])
			case "write":
				v = es(fs.WriteFile(c[1], c[2]))
			case "append":
				v = es(fs.AppendFile(c[1], c[2]))
			case "remove":
				v = es(fs.Remove(c[1]))
			case "chtimes":
				v = es(fs.Chtimes(c[1], time.Unix(1, 0), time.Unix(2, 0)))
			case "walk":
				v = es(fs.WalkDir(c[1], func(p string, d vfs.DirEntry, e error) error { return errors.New(p) }))
			case "case":
				v = fs.UseCaseSensitiveFileNames()
			}
		}()
		out = append(out, map[string]any{"v": v, "log": append([]string{}, base.log...)})
	}
	return out
}

func handle(r request) (res any) {
	defer func() {
		if e := recover(); e != nil {
			res = map[string]any{"panic": fmt.Sprint(e)}
		}
	}()
	switch r.Op {
	case "quote":
		out := []string{}
		for _, s := range r.Strings {
			out = append(out, utils.QuoteSingleStringLiteral(s))
		}
		return out
	case "space":
		out := []bool{}
		for _, s := range r.Strings {
			out = append(out, utils.IsStringWhiteSpace(s))
		}
		return out
	case "spaces":
		out := []int{}
		for c := rune(-2); c <= 0x110010; c++ {
			if utils.IsStrWhiteSpace(c) {
				out = append(out, int(c))
			}
		}
		return out
	case "bfs":
		return bfs(r)
	case "overlay":
		return overlay(r)
	}
	return map[string]any{"error": "unknown op"}
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var batch []request
		if err := json.Unmarshal(line, &batch); err != nil {
			panic(err)
		}
		res := []any{}
		for _, r := range batch {
			res = append(res, handle(r))
		}
		b, _ := json.Marshal(res)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}
