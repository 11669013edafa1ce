// Drives the command's overlay file system: one JSON batch per line on stdin, one answer per line.
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"testing"
	"time"

	"github.com/microsoft/typescript-go/shim/vfs"
)

type vRequest struct {
	Base    map[string]string
	Dirs    []string
	Virtual map[string]string
	Calls   [][]string
}

// vFakeFS is a base file system that only records what would be changed.
type vFakeFS struct {
	files map[string]string
	dirs  map[string]bool
	log   []string
}

type vInfo struct {
	vfs.FileInfo
	name string
	size int64
	dir  bool
}

func (i vInfo) Name() string { return i.name }
func (i vInfo) Size() int64  { return i.size }
func (i vInfo) IsDir() bool  { return i.dir }

func (f *vFakeFS) UseCaseSensitiveFileNames() bool { return true }
func (f *vFakeFS) FileExists(p string) bool        { _, ok := f.files[p]; return ok }
func (f *vFakeFS) ReadFile(p string) (string, bool) {
	s, ok := f.files[p]
	return s, ok
}
func (f *vFakeFS) WriteFile(p string, d string) error {
	f.log = append(f.log, "write "+p+" "+d)
	return errors.New("w")
}
func (f *vFakeFS) AppendFile(p string, d string) error {
	f.log = append(f.log, "append "+p+" "+d)
	return errors.New("a")
}
func (f *vFakeFS) Remove(p string) error { f.log = append(f.log, "remove "+p); return errors.New("r") }
func (f *vFakeFS) Chtimes(p string, a, m time.Time) error {
	f.log = append(f.log, fmt.Sprint("chtimes ", p, a.Unix(), m.Unix()))
	return errors.New("c")
}
func (f *vFakeFS) DirectoryExists(p string) bool { return f.dirs[p] }
func (f *vFakeFS) GetAccessibleEntries(p string) vfs.Entries {
	e := vfs.Entries{}
	if p != "" && p[len(p)-1] != '/' {
		p += "/"
	}
	for _, c := range []struct {
		names []string
		to    *[]string
	}{{vKeys(f.files), &e.Files}, {vKeys(f.dirs), &e.Directories}} {
		for _, n := range c.names {
			if len(n) > len(p) && n[:len(p)] == p {
				rest := n[len(p):]
				ok := true
				for _, ch := range rest {
					ok = ok && ch != '/'
				}
				if ok {
					*c.to = append(*c.to, rest)
				}
			}
		}
	}
	return e
}
func vKeys[V any](m map[string]V) (out []string) {
	for k := range m {
		out = append(out, k)
	}
	return
}
func (f *vFakeFS) Stat(p string) vfs.FileInfo {
	if s, ok := f.files[p]; ok {
		return vInfo{name: "base:" + p, size: int64(len(s))}
	}
	if f.dirs[p] {
		return vInfo{name: "base:" + p, dir: true}
	}
	return nil
}
func (f *vFakeFS) WalkDir(root string, fn vfs.WalkDirFunc) error {
	f.log = append(f.log, "walk "+root)
	return fn("walked "+root, nil, nil)
}
func (f *vFakeFS) Realpath(p string) string { return "/real" + p }

func vDrive(fs vfs.FS, base *vFakeFS, calls [][]string) any {
	out := []any{}
	for _, c := range calls {
		base.log = nil
		var v any
		func() {
			defer func() {
				if e := recover(); e != nil {
					v = map[string]any{"panic": fmt.Sprint(e)}
				}
			}()
			es := func(e error) any {
				if e == nil {
					return nil
				}
				return e.Error()
			}
			switch c[0] {
			case "exists":
				v = fs.FileExists(c[1])
			case "read":
				s, ok := fs.ReadFile(c[1])
				v = []any{s, ok}
			case "dir":
				v = fs.DirectoryExists(c[1])
			case "entries":
				e := fs.GetAccessibleEntries(c[1])
				v = []any{append([]string{}, e.Files...), append([]string{}, e.Directories...)}
			case "stat":
				s := fs.Stat(c[1])
				if s == nil {
					v = nil
				} else {
					v = []any{s.Size(), s.IsDir()}
				}
			case "real":
				v = fs.Realpath(c[1])
			case "write":
				v = es(fs.WriteFile(c[1], c[2]))
			case "append":
				v = es(fs.AppendFile(c[1], c[2]))
			case "remove":
				v = es(fs.Remove(c[1]))
			case "chtimes":
				v = es(fs.Chtimes(c[1], time.Unix(1, 0), time.Unix(2, 0)))
			case "walk":
				v = es(fs.WalkDir(c[1], func(p string, d vfs.DirEntry, e error) error { return errors.New(p) }))
			case "case":
				v = fs.UseCaseSensitiveFileNames()
			}
		}()
		out = append(out, map[string]any{"v": v, "log": append([]string{}, base.log...)})
	}
	return out
}


func TestMain(m *testing.M) {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var batch []vRequest
		if err := json.Unmarshal(line, &batch); err != nil {
			panic(err)
		}
		res := []any{}
		for _, r := range batch {
			base := &vFakeFS{files: r.Base, dirs: map[string]bool{}}
			for _, d := range r.Dirs {
				base.dirs[d] = true
			}
			res = append(res, vDrive(newOverlayFS(base, r.Virtual), base, r.Calls))
		}
		b, _ := json.Marshal(res)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}
