// Run-time side of the shim comparison: one JSON case per line on stdin, one JSON verdict per line on stdout.
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"strings"
	"time"
	"unsafe"
)

type entry struct {
	class       string
	shim, orig  any
	name        string
	symbol      string
	pkg, symKey string
}

var entries = map[string]*entry{}

func addVar(pkg, name string, shim, orig any)  { entries[pkg+" "+name] = &entry{class: "var", shim: shim, orig: orig, name: name} }
func addFunc(pkg, name string, shim, orig any, symbol string) {
	entries[pkg+" "+name] = &entry{class: "function", shim: shim, orig: orig, name: name, symbol: symbol}
}
func addField(pkg, name string, shim any, field string) {
	entries[pkg+" "+name] = &entry{class: "field", shim: shim, name: name, symbol: field}
}

// live values by type, filled by an optional second file
var pool = map[reflect.Type][]reflect.Value{}

type filler struct {
	r     *rand.Rand
	ptrs  map[reflect.Type][]reflect.Value
	words []string
}

func settable(v reflect.Value) reflect.Value {
	if v.CanSet() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

var errT = reflect.TypeFor[error]()

func (f *filler) value(t reflect.Type, depth int) reflect.Value {
	r := f.r
	if p := pool[t]; len(p) > 0 && r.Intn(10) < 9 {
		return p[r.Intn(len(p))]
	}
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if r.Intn(2) == 0 {
			v.SetInt(int64(r.Intn(40) - 5))
		} else {
			v.SetInt(int64(r.Uint64()))
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if r.Intn(2) == 0 {
			v.SetUint(uint64(r.Intn(40)))
		} else {
			v.SetUint(r.Uint64())
		}
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(r.Intn(1000)) / 8)
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(float64(r.Intn(9)), float64(r.Intn(9))))
	case reflect.String:
		v.SetString(f.words[r.Intn(len(f.words))])
	case reflect.Slice:
		if n := r.Intn(5); n < 4 && depth < 4 {
			v.Set(reflect.MakeSlice(t, n, n+r.Intn(3)))
			for i := 0; i < n; i++ {
				v.Index(i).Set(f.value(t.Elem(), depth+1))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len() && i < 64; i++ {
			v.Index(i).Set(f.value(t.Elem(), depth+1))
		}
	case reflect.Map:
		if r.Intn(4) > 0 && depth < 4 {
			v.Set(reflect.MakeMap(t))
			for i := r.Intn(3); i > 0; i-- {
				k := f.value(t.Key(), depth+1)
				if !k.Comparable() {
					break
				}
				v.SetMapIndex(k, f.value(t.Elem(), depth+1))
			}
		}
	case reflect.Pointer:
		if r.Intn(5) == 0 || depth > 3 {
			break
		}
		if old := f.ptrs[t]; len(old) > 0 && r.Intn(3) == 0 {
			return old[r.Intn(len(old))]
		}
		p := reflect.New(t.Elem())
		f.ptrs[t] = append(f.ptrs[t], p)
		f.fill(p.Elem(), depth+1)
		v.Set(p)
	case reflect.Struct:
		f.fill(v, depth+1)
	case reflect.Chan:
		if t.ChanDir() == reflect.BothDir {
			v.Set(reflect.MakeChan(t, 1))
		} else {
			c := reflect.MakeChan(reflect.ChanOf(reflect.BothDir, t.Elem()), 1)
			v.Set(c.Convert(t))
		}
	case reflect.Func:
		if r.Intn(5) > 0 {
			outs := []reflect.Value{}
			for i := 0; i < t.NumOut(); i++ {
				outs = append(outs, reflect.Zero(t.Out(i)))
			}
			v.Set(reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value { return outs }))
		}
	case reflect.Interface:
		if t == errT && r.Intn(3) > 0 {
			v.Set(reflect.ValueOf(errors.New(f.words[r.Intn(len(f.words))])))
		} else if t.NumMethod() == 0 && r.Intn(3) > 0 {
			v.Set(reflect.ValueOf([]any{r.Intn(50), f.words[r.Intn(len(f.words))], true, 1.5}[r.Intn(4)]))
		} else {
			for pt, p := range pool {
				if pt.Implements(t) {
					v.Set(p[0])
					break
				}
			}
		}
	case reflect.UnsafePointer:
	}
	return v
}

func (f *filler) fill(v reflect.Value, depth int) {
	if v.Kind() != reflect.Struct {
		settable(v).Set(f.value(v.Type(), depth))
		return
	}
	if n := v.Type().PkgPath(); n == "sync" || n == "sync/atomic" || n == "time" || n == "context" {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		settable(v.Field(i)).Set(f.value(v.Field(i).Type(), depth))
	}
}

func newFiller(seed int64) *filler {
	return &filler{r: rand.New(rand.NewSource(seed)), ptrs: map[reflect.Type][]reflect.Value{}, words: []string{"", "a", "b", "foo", "/a/b.ts", "é", "x y", "A_b"}}
}

// same: the very same value (identity for references)
func same(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Func, reflect.Map, reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
		return a.Pointer() == b.Pointer()
	case reflect.Slice:
		return a.Pointer() == b.Pointer() && a.Len() == b.Len() && a.Cap() == b.Cap()
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float() || a.Float() != a.Float() && b.Float() != b.Float()
	}
	return a.Equal(b)
}

func isZero(v reflect.Value) bool { return !v.IsValid() || v.IsZero() }

type verdict struct {
	Fail    string `json:"fail,omitempty"`
	How     string `json:"how"`
	Trivial bool   `json:"trivial,omitempty"`
}

func describe(v reflect.Value) string {
	s := fmt.Sprintf("%#v", v)
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

func callOnce(fn reflect.Value, args []reflect.Value) (res []reflect.Value, boom string) {
	done := make(chan bool, 1)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				boom = fmt.Sprint("panic: ", e)
			}
			done <- true
		}()
		if fn.Type().IsVariadic() {
			res = fn.CallSlice(args)
		} else {
			res = fn.Call(args)
		}
	}()
	select {
	case <-done:
		return res, boom
	case <-time.After(5 * time.Second):
		return nil, "no answer"
	}
}

func compareCalls(e *entry, seed int64) verdict {
	a, b := reflect.ValueOf(e.shim), reflect.ValueOf(e.orig)
	mk := func() []reflect.Value {
		f := newFiller(seed)
		args := []reflect.Value{}
		for i := 0; i < a.Type().NumIn(); i++ {
			args = append(args, f.value(a.Type().In(i), 0))
		}
		return args
	}
	xa, xb := mk(), mk()
	// what points into the arguments on one side corresponds to the same place on the other
	ra, pa := callOnce(a, xa)
	rb, pb := callOnce(b, xb)
	if pa == "no answer" || pb == "no answer" {
		return verdict{How: "call without an answer", Trivial: true}
	}
	if (pa == "") != (pb == "") {
		return verdict{Fail: fmt.Sprintf("shim: %s original: %s", or(pa, "returns"), or(pb, "returns")), How: "call"}
	}
	if pa != "" {
		return verdict{How: "call panics", Trivial: true}
	}
	trivial := true
	for i := range ra {
		if !isZero(rb[i]) {
			trivial = false
		}
		if k := ra[i].Kind(); k == reflect.Func {
			if ra[i].IsNil() != rb[i].IsNil() {
				return verdict{Fail: fmt.Sprintf("result %d: only one of the functions is nil", i), How: "call"}
			}
			continue
		}
		if !same(ra[i], rb[i]) && !alike(ra[i], rb[i], 0) {
			return verdict{Fail: fmt.Sprintf("result %d: shim %s original %s", i, describe(ra[i]), describe(rb[i])), How: "call"}
		}
	}
	return verdict{How: "call", Trivial: trivial && len(ra) > 0 && len(xa) == 0}
}

// alike: equal as far as can be seen, eight levels deep; functions and channels only as nil or not
func alike(a, b reflect.Value, depth int) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	if depth > 8 {
		return true
	}
	switch a.Kind() {
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		return a.IsNil() == b.IsNil()
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() || a.Pointer() == b.Pointer() {
			return a.IsNil() == b.IsNil()
		}
		return alike(a.Elem(), b.Elem(), depth+1)
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return alike(a.Elem(), b.Elem(), depth+1)
	case reflect.Slice, reflect.Array:
		if a.Kind() == reflect.Slice && a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !alike(a.Index(i), b.Index(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			if w := b.MapIndex(k); k.Kind() != reflect.Pointer && k.Kind() != reflect.Interface && (!w.IsValid() || !alike(a.MapIndex(k), w, depth+1)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !alike(a.Field(i), b.Field(i), depth+1) {
				return false
			}
		}
		return true
	}
	return same(a, b)
}

func hasFunc(t reflect.Type, depth int) bool {
	if depth > 4 {
		return false
	}
	switch t.Kind() {
	case reflect.Func, reflect.Chan:
		return true
	case reflect.Pointer, reflect.Slice, reflect.Array:
		return hasFunc(t.Elem(), depth+1)
	case reflect.Map:
		return hasFunc(t.Elem(), depth+1) || hasFunc(t.Key(), depth+1)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if hasFunc(t.Field(i).Type, depth+1) {
				return true
			}
		}
	case reflect.Interface:
		return t.NumMethod() > 0 && t != errT
	}
	return false
}

func or(a, b string) string {
	if a == "" {
		return b
	}
	return a
}

func judge(key string, seed int64, calls string) (res verdict) {
	defer func() {
		if x := recover(); x != nil {
			buf := make([]byte, 3000)
			res = verdict{How: "harness: " + fmt.Sprint(x) + string(buf[:runtime.Stack(buf, false)]), Trivial: true}
		}
	}()
	e := entries[key]
	if e == nil {
		return verdict{How: "no such symbol", Trivial: true}
	}
	switch e.class {
	case "var":
		a, b := reflect.ValueOf(e.shim).Elem(), reflect.ValueOf(e.orig).Elem()
		if a.Type() != b.Type() {
			return verdict{Fail: fmt.Sprintf("variable of type %s, originally %s", a.Type(), b.Type()), How: "variable"}
		}
		if !same(a, b) && (hasFunc(a.Type(), 0) || !alike(a, b, 0)) {
			return verdict{Fail: fmt.Sprintf("variable %s, originally %s", describe(a), describe(b)), How: "variable"}
		}
		return verdict{How: "variable", Trivial: isZero(b)}
	case "function":
		a, b := reflect.ValueOf(e.shim), reflect.ValueOf(e.orig)
		if a.Type() != b.Type() {
			return verdict{Fail: fmt.Sprintf("function of type %s, originally %s", a.Type(), b.Type()), How: "function type"}
		}
		sa, sb := runtime.FuncForPC(a.Pointer()).Name(), runtime.FuncForPC(b.Pointer()).Name()
		if calls != "all" && a.Pointer() == b.Pointer() {
			return verdict{How: "same function"}
		}
		if calls != "all" && sa == sb && !strings.Contains(sa, "/shim/") && !strings.HasPrefix(sa, "main.") {
			return verdict{How: "same function"}
		}
		if calls != "all" && !strings.Contains(sa, "/shim/") && !strings.HasPrefix(sa, "main.") && strings.HasPrefix(sa, "github.com/microsoft/typescript-go/internal/") {
			return verdict{Fail: "is linked to " + sa + ", not to " + sb, How: "other function"}
		}
		return compareCalls(e, seed)
	case "field":
		fn := reflect.ValueOf(e.shim)
		var obj reflect.Value
		pt := fn.Type().In(0)
		f := newFiller(seed)
		if live := pool[pt]; len(live) > 0 && seed%2 == 0 {
			obj = live[f.r.Intn(len(live))]
		} else {
			obj = reflect.New(pt.Elem())
			f.fill(obj.Elem(), 0)
		}
		want := settable(obj.Elem().FieldByName(e.symbol))
		if want.Type() != fn.Type().Out(0) {
			return verdict{Fail: fmt.Sprintf("field of type %s read as %s", want.Type(), fn.Type().Out(0)), How: "field type"}
		}
		got, boom := callOnce(fn, []reflect.Value{obj})
		if boom != "" {
			return verdict{Fail: boom, How: "field"}
		}
		if !same(got[0], want) {
			return verdict{Fail: fmt.Sprintf("reads %s, the field is %s", describe(got[0]), describe(want)), How: "field"}
		}
		return verdict{How: "field", Trivial: isZero(want)}
	}
	return verdict{How: "?", Trivial: true}
}

func main() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	dec := json.NewDecoder(in)
	for {
		var c struct {
			Key   string
			Seed  int64
			Calls string
		}
		if dec.Decode(&c) != nil {
			return
		}
		b, _ := json.Marshal(judge(c.Key, c.Seed, c.Calls))
		w.Write(b)
		w.WriteByte('\n')
	}
}
