//go:build go1.21

package verifdsl

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"math"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unicode"
	"unsafe"
)

// Entry is one contract that can be executed on concrete inputs.
type Entry struct {
	ID   string
	Fn   interface{}
	Args interface{} // generator of all arguments, or nil
}

// Gen produces concrete inputs, deterministically from a seed.
type Gen struct {
	s     uint64
	vocab []string
	ints  []int64
	size  int
	mode  int
	depth int
	cs    *Consts
	objs  map[reflect.Type][]reflect.Value
	Case  int // index of the case, for generators that enumerate
}

// Consts are the literals found in the code a contract reaches.
type Consts struct {
	Strs []string
	Ints []int64
}

var gens = map[reflect.Type]reflect.Value{}

// RegisterGen registers func(*Gen) T as the generator of T.
func RegisterGen(fn interface{}) {
	v := reflect.ValueOf(fn)
	gens[v.Type().Out(0)] = v
}

func (g *Gen) u64() uint64 {
	g.s += 0x9e3779b97f4a7c15
	z := g.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a number in [0,n).
func (g *Gen) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(g.u64() % uint64(n))
}

func (g *Gen) Bool() bool { return g.u64()&1 == 1 }

// Chance is true p times out of 100.
func (g *Gen) Chance(p int) bool { return g.N(100) < p }

// Size is the preferred maximal collection size of this case.
func (g *Gen) Size() int { return g.size }

func (g *Gen) Pick(s ...string) string { return s[g.N(len(s))] }

var basicStrs = []string{"", "a", "b", "c", "ab", "A", "x-default", "en", "de", ":", "/", ".", ",", " ", "-", "+", "0", "1", "12", "-1", "007", "x:y", "ns:a", "a/b", "[0]", "[1]", "a[2]", "a[en]", "\n", "\t", "=", "\"", "<", "&", "é", "\xff", "1.5", "1/2", "true", "True", "e", "Z"}

// Str returns a string; strings of one case come from a small vocabulary.
func (g *Gen) Str() string {
	r := g.N(100)
	switch {
	case r < 62:
		return g.vocab[g.N(len(g.vocab))]
	case r < 76:
		return g.vocab[g.N(len(g.vocab))] + g.vocab[g.N(len(g.vocab))]
	case r < 84:
		return g.vocab[g.N(len(g.vocab))] + g.Pick(":", "/", ".", ",", " ", "[", "]", "-", "\n") + g.vocab[g.N(len(g.vocab))]
	case r < 92:
		return g.mutate(g.vocab[g.N(len(g.vocab))])
	case r < 97:
		return basicStrs[g.N(len(basicStrs))]
	}
	n := g.N(8)
	if g.Chance(10) {
		n = g.N(80)
	}
	b := make([]byte, n)
	for i := range b {
		if g.Chance(80) {
			b[i] = byte(32 + g.N(95))
		} else {
			b[i] = byte(g.u64())
		}
	}
	return string(b)
}

func (g *Gen) mutate(s string) string {
	switch g.N(8) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		if s != "" {
			i := g.N(len(s))
			return s[:i] + s[i+1:]
		}
	case 3:
		if s != "" {
			i := g.N(len(s) + 1)
			return s[:i] + string(rune(32+g.N(95))) + s[i:]
		}
	case 4:
		if s != "" {
			return s[:g.N(len(s))]
		}
	case 5:
		return s + s
	case 6:
		return strings.Map(func(r rune) rune {
			if g.Bool() {
				return unicode.ToUpper(r)
			}
			return unicode.ToLower(r)
		}, s)
	case 7:
		return " " + s
	}
	return s
}

// Int returns an integer with many small, boundary and mined values.
func (g *Gen) Int() int64 {
	switch g.mode {
	case 0:
		return int64(g.N(4)) - 1
	case 1:
		if g.Chance(70) {
			return int64(g.N(12)) - 3
		}
	}
	r := g.N(100)
	switch {
	case r < 40:
		return int64(g.N(9)) - 3
	case r < 65 && len(g.ints) > 0:
		return g.ints[g.N(len(g.ints))] + int64(g.N(3)) - 1
	case r < 80:
		return int64(g.N(400)) - 100
	case r < 90:
		b := []int64{127, 128, 255, 256, 32767, 32768, 65535, 65536, math.MaxInt32, math.MinInt32, math.MaxUint32, math.MaxInt64, math.MinInt64, 1 << 40}
		return b[g.N(len(b))] + int64(g.N(3)) - 1
	}
	return int64(g.u64())
}

// Len is a collection length.
func (g *Gen) Len() int {
	if g.mode >= 2 && len(g.ints) > 0 && g.Chance(4) {
		if n := g.ints[g.N(len(g.ints))] + int64(g.N(3)) - 1; n >= 0 && n <= 200 {
			return int(n)
		}
	}
	return g.N(g.size + 1)
}

// Fill sets *p to an arbitrary value of its type.
func Any[T any](g *Gen) T {
	var v T
	rv := reflect.ValueOf(&v).Elem()
	rv.Set(g.value(rv.Type()))
	return v
}

func (g *Gen) value(t reflect.Type) reflect.Value {
	if f, ok := gens[t]; ok && g.depth < 12 {
		g.depth++
		defer func() { g.depth-- }()
		return f.Call([]reflect.Value{reflect.ValueOf(g)})[0]
	}
	return g.raw(t)
}

func (g *Gen) raw(t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	g.depth++
	defer func() { g.depth-- }()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(g.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(g.Int()) // truncates
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		v.SetUint(uint64(g.Int()))
	case reflect.Float32, reflect.Float64:
		f := []float64{0, 1, -1, 0.5, 1.5, -2.25, 100, 1e10, 1e-7, 3.14159, math.Inf(1), math.Inf(-1), math.NaN(), float64(g.Int()), float64(g.Int()) / 7}
		v.SetFloat(f[g.N(len(f))])
	case reflect.String:
		v.SetString(g.Str())
	case reflect.Slice:
		if g.depth > 6 {
			return v
		}
		n := g.Len()
		if n == 0 && g.Bool() {
			return v
		}
		c := n
		if g.Bool() {
			c += g.N(4)
		}
		s := reflect.MakeSlice(t, c, c)
		for i := 0; i < c; i++ {
			s.Index(i).Set(g.value(t.Elem()))
		}
		v.Set(s.Slice(0, n))
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(g.value(t.Elem()))
		}
	case reflect.Map:
		if g.depth > 6 {
			return v
		}
		n := g.Len()
		if n == 0 && g.Bool() {
			return v
		}
		m := reflect.MakeMap(t)
		for i := 0; i < n; i++ {
			m.SetMapIndex(g.value(t.Key()), g.value(t.Elem()))
		}
		v.Set(m)
	case reflect.Pointer:
		if g.depth > 8 || g.Chance(3) {
			return v
		}
		if o := g.objs[t]; len(o) > 0 && g.Chance(8) {
			return o[g.N(len(o))]
		}
		p := reflect.New(t.Elem())
		p.Elem().Set(g.value(t.Elem()))
		g.objs[t] = append(g.objs[t], p)
		return p
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := v.Field(i)
			ft := t.Field(i).Type
			if ft.PkgPath() == "sync" || ft.PkgPath() == "sync/atomic" || ft.Kind() == reflect.UnsafePointer {
				continue
			}
			if !f.CanSet() {
				f = reflect.NewAt(ft, unsafe.Pointer(f.UnsafeAddr())).Elem()
			}
			f.Set(g.value(ft))
		}
	case reflect.Interface:
		if t == reflect.TypeOf((*error)(nil)).Elem() {
			if g.Bool() {
				v.Set(reflect.ValueOf(errors.New(g.Str())))
			}
			return v
		}
		if t.NumMethod() == 0 {
			switch g.N(5) {
			case 0:
				v.Set(reflect.ValueOf(g.Str()))
			case 1:
				v.Set(reflect.ValueOf(int(g.Int())))
			case 2:
				v.Set(reflect.ValueOf(g.Bool()))
			case 3:
				v.Set(reflect.ValueOf(float64(g.N(100)) / 4))
			}
		}
	case reflect.Func:
		key := g.u64()
		cs, vocab, ints, size, mode := g.cs, g.vocab, g.ints, g.size, g.mode
		v.Set(reflect.MakeFunc(t, func(args []reflect.Value) []reflect.Value {
			h := fnv.New64a()
			for _, a := range args {
				fmt.Fprint(h, Show(a.Interface()))
			}
			q := &Gen{s: key ^ h.Sum64(), cs: cs, vocab: vocab, ints: ints, size: size, mode: mode, objs: map[reflect.Type][]reflect.Value{}}
			var out []reflect.Value
			for i := 0; i < t.NumOut(); i++ {
				out = append(out, q.value(t.Out(i)))
			}
			return out
		}))
	}
	return v
}

// NewGen prepares the generator of one case.
func NewGen(id string, seed uint64, idx int, cs *Consts) *Gen {
	h := fnv.New64a()
	h.Write([]byte(id))
	g := &Gen{s: h.Sum64() ^ seed*0x9e3779b97f4a7c15 ^ uint64(idx)*0xd1342543de82ef95, cs: cs, objs: map[reflect.Type][]reflect.Value{}, Case: idx}
	g.u64()
	g.mode = idx % 4
	switch {
	case idx < 200:
		g.size = 2
	case g.mode < 2:
		g.size = 4
	default:
		g.size = 6
	}
	g.ints = cs.Ints
	n := 2 + g.N(4)
	for i := 0; i < n; i++ {
		switch {
		case len(cs.Strs) > 0 && g.Chance(55):
			s := cs.Strs[g.N(len(cs.Strs))]
			if g.Chance(15) {
				s = g.mutate(s)
			}
			g.vocab = append(g.vocab, s)
		default:
			g.vocab = append(g.vocab, basicStrs[g.N(len(basicStrs))])
		}
	}
	if g.Bool() {
		g.vocab = append(g.vocab, g.Pick("a", "b", "en"))
	}
	return g
}

// ---- printing

var lastHash uint64

// Show prints a value with its contents.
func Show(v interface{}) string { return ShowV(reflect.ValueOf(v)) }

// ShowV prints a reflected value.
func ShowV(v reflect.Value) string {
	var b strings.Builder
	show(&b, v, map[uintptr]bool{}, 0)
	s := b.String()
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	return s
}

func show(b *strings.Builder, v reflect.Value, seen map[uintptr]bool, depth int) {
	if b.Len() > 6000 {
		return
	}
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "%v", v)
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(b, "bytes(%q)", v.Bytes())
			return
		}
		fallthrough
	case reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(", ")
			}
			show(b, v.Index(i), seen, depth+1)
		}
		b.WriteString("]")
		if v.Kind() == reflect.Slice && v.Cap() > v.Len() {
			fmt.Fprintf(b, "(cap %d)", v.Cap())
		}
	case reflect.Map:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		var ss []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			show(&e, k, seen, depth+1)
			e.WriteString(": ")
			show(&e, v.MapIndex(k), seen, depth+1)
			ss = append(ss, e.String())
		}
		sort.Strings(ss)
		b.WriteString("{" + strings.Join(ss, ", ") + "}")
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if seen[v.Pointer()] || depth > 12 {
			b.WriteString("&...")
			return
		}
		seen[v.Pointer()] = true
		b.WriteString("&")
		show(b, v.Elem(), seen, depth+1)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(b, "%s(", v.Elem().Type())
		show(b, v.Elem(), seen, depth+1)
		b.WriteString(")")
	case reflect.Struct:
		if v.Type().PkgPath() == "sync" {
			b.WriteString("_")
			return
		}
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			b.WriteString(v.Type().Field(i).Name + ":")
			show(b, v.Field(i), seen, depth+1)
		}
		b.WriteString("}")
	default:
		fmt.Fprintf(b, "%s", v.Type())
	}
}

// ---- frame: what a call may not change

type region struct {
	v    reflect.Value // addressable location, or a map
	copy reflect.Value
	addr uintptr
	size uintptr
	path string
	kind byte
}

type memory struct {
	regs []region
	seen map[string]bool
}

func (m *memory) walk(v reflect.Value, path string, depth int) {
	if depth > 40 || len(m.regs) > 4000 || !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		k := fmt.Sprint("p", v.Pointer(), e.Type())
		if m.seen[k] || e.Type().PkgPath() == "sync" {
			return
		}
		m.seen[k] = true
		c := reflect.New(e.Type()).Elem()
		c.Set(access(e))
		m.regs = append(m.regs, region{e, c, v.Pointer(), e.Type().Size(), path, 'p'})
		m.walk(e, path+".*", depth+1)
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 {
			return
		}
		full := v.Slice3(0, v.Cap(), v.Cap())
		k := fmt.Sprint("s", v.Pointer(), v.Cap(), v.Type())
		if m.seen[k] {
			return
		}
		m.seen[k] = true
		c := reflect.MakeSlice(v.Type(), v.Cap(), v.Cap())
		reflect.Copy(c, access(full))
		m.regs = append(m.regs, region{full, c, v.Pointer(), uintptr(v.Cap()) * v.Type().Elem().Size(), path + "[:]", 's'})
		for i := 0; i < v.Cap(); i++ {
			m.walk(full.Index(i), fmt.Sprintf("%s[%d]", path, i), depth+1)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		k := fmt.Sprint("m", v.Pointer())
		if m.seen[k] {
			return
		}
		m.seen[k] = true
		v = access(v)
		c := reflect.MakeMap(v.Type())
		it := v.MapRange()
		for it.Next() {
			c.SetMapIndex(it.Key(), it.Value())
			m.walk(it.Value(), path+"[key]", depth+1)
		}
		m.regs = append(m.regs, region{v, c, v.Pointer(), 0, path, 'm'})
	case reflect.Interface:
		if !v.IsNil() {
			m.walk(v.Elem(), path, depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			m.walk(v.Field(i), path+"."+v.Type().Field(i).Name, depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			m.walk(v.Index(i), fmt.Sprintf("%s[%d]", path, i), depth+1)
		}
	}
}

// access removes the read-only flag of unexported fields.
func access(v reflect.Value) reflect.Value {
	if v.CanInterface() {
		return v
	}
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	n := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Map, reflect.Pointer, reflect.Chan:
		*(*unsafe.Pointer)(unsafe.Pointer(n.UnsafeAddr())) = v.UnsafePointer()
		return n
	case reflect.Slice:
		*(*reflect.SliceHeader)(unsafe.Pointer(n.UnsafeAddr())) = reflect.SliceHeader{Data: v.Pointer(), Len: v.Len(), Cap: v.Cap()}
		return n
	}
	return n
}

// same compares two values shallowly: pointers by identity.
func same(a, b reflect.Value) bool {
	switch a.Kind() {
	case reflect.String:
		return a.String() == b.String()
	case reflect.Slice:
		return a.Pointer() == b.Pointer() && a.Len() == b.Len() && a.Cap() == b.Cap()
	case reflect.Map, reflect.Pointer, reflect.Chan, reflect.Func:
		return a.Pointer() == b.Pointer()
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() && b.IsNil()
		}
		return a.Elem().Type() == b.Elem().Type() && same(a.Elem(), b.Elem())
	case reflect.Struct:
		if a.Type().PkgPath() == "sync" {
			return true
		}
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	}
	return true
}

type modTarget struct {
	addr, size uintptr
	m          uintptr
}

var modTargets []modTarget
var curMem *memory // what the arguments of the current case reach
var modAll bool
var modTypes = map[reflect.Type]bool{}
var frameOff bool

func recordModifies(ts []interface{}) {
	for _, t := range ts {
		v := reflect.ValueOf(t)
		switch v.Kind() {
		case reflect.Pointer:
			if !v.IsNil() {
				modTargets = append(modTargets, modTarget{addr: v.Pointer(), size: v.Type().Elem().Size()})
			}
		case reflect.Slice:
			if v.Cap() > 0 {
				modTargets = append(modTargets, modTarget{addr: v.Pointer(), size: uintptr(v.Cap()) * v.Type().Elem().Size()})
			}
		case reflect.Map:
			if !v.IsNil() {
				modTargets = append(modTargets, modTarget{m: v.Pointer()})
			}
		}
	}
}

func allowed(addr, size uintptr) bool {
	for _, t := range modTargets {
		if t.size > 0 && addr >= t.addr && addr+size <= t.addr+t.size {
			return true
		}
	}
	return false
}

// diff compares two typed locations, skipping the parts a modifies clause names.
func (m *memory) diff(a, b reflect.Value, addr uintptr, path string) string {
	if allowed(addr, a.Type().Size()) {
		return ""
	}
	switch a.Kind() {
	case reflect.Struct:
		if a.Type().PkgPath() == "sync" {
			return ""
		}
		for i := 0; i < a.NumField(); i++ {
			if d := m.diff(a.Field(i), b.Field(i), addr+a.Type().Field(i).Offset, path+"."+a.Type().Field(i).Name); d != "" {
				return d
			}
		}
		return ""
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if d := m.diff(a.Index(i), b.Index(i), addr+uintptr(i)*a.Type().Elem().Size(), fmt.Sprintf("%s[%d]", path, i)); d != "" {
				return d
			}
		}
		return ""
	}
	if !same(a, b) {
		return path
	}
	return ""
}

func (m *memory) check() string {
	if modAll {
		return ""
	}
	for _, r := range m.regs {
		if modTypes[r.v.Type()] && r.kind != 'm' {
			continue
		}
		if r.kind == 'm' && modTypes[reflect.MapOf(r.v.Type().Key(), r.v.Type().Elem())] {
			continue
		}
		if r.kind == 's' && modTypes[reflect.SliceOf(r.v.Type().Elem())] {
			continue
		}
		switch r.kind {
		case 'm':
			ok := false
			for _, t := range modTargets {
				if t.m == r.addr {
					ok = true
				}
			}
			if ok {
				continue
			}
			if r.v.Len() != r.copy.Len() {
				return r.path
			}
			it := r.copy.MapRange()
			for it.Next() {
				w := r.v.MapIndex(it.Key())
				if !w.IsValid() || !same(w, it.Value()) {
					return r.path
				}
			}
		case 's':
			es := r.v.Type().Elem().Size()
			for i := 0; i < r.v.Len(); i++ {
				if d := m.diff(r.v.Index(i), r.copy.Index(i), r.addr+uintptr(i)*es, fmt.Sprintf("%s[%d]", r.path, i)); d != "" {
					return d
				}
			}
		default:
			if d := m.diff(r.v, r.copy, r.addr, r.path); d != "" {
				return d
			}
		}
	}
	return ""
}

// ---- running

type Result struct {
	ID       string
	Cases    int // executed with all preconditions true
	Tried    int
	Distinct int
	Samples  []string
	Checks   int
	Failed   bool
	Index    int
	Clause   string
	Detail   string
	Args     string
	Seconds  float64
}

// RunOne executes one case; ran is false when a precondition was false.
func RunOne(e Entry, seed uint64, idx int, cs *Consts) (fails []Failure, ran bool) {
	fv := reflect.ValueOf(e.Fn)
	g := NewGen(e.ID, seed, idx, cs)
	args := genArgs(g, e)
	h := fnv.New64a()
	for _, a := range args {
		io.WriteString(h, ShowV(a))
	}
	lastHash = h.Sum64()
	mem := &memory{seen: map[string]bool{}}
	for i, a := range args {
		mem.walk(a, fmt.Sprintf("arg%d", i), 0)
	}
	modTargets, modAll, modTypes = nil, false, map[reflect.Type]bool{}
	curMem = mem
	fails, ran = Verdict(func() {
		if fv.Type().IsVariadic() {
			fv.CallSlice(args)
		} else {
			fv.Call(args)
		}
	})
	if ran && len(fails) == 0 && !mayPanicked {
		if d := mem.check(); d != "" {
			fails = append(fails, Failure{"frame", "changed although not in the modifies clause: " + d})
		}
	}
	runtime.KeepAlive(args)
	return
}

func genArgs(g *Gen, e Entry) []reflect.Value {
	if e.Args != nil {
		if a := reflect.ValueOf(e.Args); !a.IsNil() {
			return a.Call([]reflect.Value{reflect.ValueOf(g)})
		}
	}
	t := reflect.TypeOf(e.Fn)
	var args []reflect.Value
	for i := 0; i < t.NumIn(); i++ {
		args = append(args, g.value(t.In(i)))
	}
	return args
}

func argString(e Entry, seed uint64, idx int, cs *Consts) string {
	g := NewGen(e.ID, seed, idx, cs)
	t := reflect.TypeOf(e.Fn)
	var ss []string
	for i, a := range genArgs(g, e) {
		ss = append(ss, fmt.Sprintf("arg%d %s = %s", i, t.In(i), Show(a.Interface())))
	}
	return strings.Join(ss, "; ")
}

type Job struct {
	IDs    []string
	Seed   uint64
	Cases  int
	MS     int
	Consts map[string]*Consts
	Out    string
	Cursor string
	Start  map[string]int // replay: run only this case
}

// RunJob is called from the generated test with the job description.
func RunJob(entries []Entry, file string) {
	debug.SetMaxStack(256 << 20)
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	var j Job
	if err := json.Unmarshal(b, &j); err != nil {
		panic(err)
	}
	by := map[string]Entry{}
	for _, e := range entries {
		by[e.ID] = e
	}
	var cur *os.File
	if j.Cursor != "" {
		cur, _ = os.Create(j.Cursor)
	}
	out, err := os.Create(j.Out)
	if err != nil {
		panic(err)
	}
	enc := json.NewEncoder(out)
	for _, id := range j.IDs {
		e, ok := by[id]
		if !ok {
			continue
		}
		if s, ok := j.Start["show:"+id]; ok {
			cs := j.Consts[id]
			if cs == nil {
				cs = &Consts{}
			}
			enc.Encode(Result{ID: id, Args: argString(e, j.Seed, s, cs)})
			continue
		}
		cs := j.Consts[id]
		if cs == nil {
			cs = &Consts{}
		}
		r := Result{ID: id}
		distinct := map[uint64]bool{}
		start := time.Now()
		lo, hi := 0, j.Cases
		if s, ok := j.Start[id]; ok {
			lo, hi = s, s+1
		}
		for i := lo; i < hi; i++ {
			if cur != nil {
				cur.WriteAt([]byte(fmt.Sprintf("%-12d %-120s\n", i, id)), 0)
			}
			r.Tried++
			fails, ran := RunOne(e, j.Seed, i, cs)
			if ran {
				r.Cases++
				r.Checks += Checked
				if len(distinct) < 200000 {
					distinct[lastHash] = true
				}
				if r.Cases == 3 || r.Cases == 400 {
					s := argString(e, j.Seed, i, cs)
					if len(s) > 400 {
						s = s[:400] + "..."
					}
					r.Samples = append(r.Samples, s)
				}
			}
			if len(fails) > 0 {
				r.Failed, r.Index, r.Clause, r.Detail = true, i, fails[0].Name, fails[0].Detail
				r.Args = argString(e, j.Seed, i, cs)
				break
			}
			if i&15 == 15 && time.Since(start) > time.Duration(j.MS)*time.Millisecond {
				break
			}
		}
		r.Distinct = len(distinct)
		r.Seconds = time.Since(start).Seconds()
		enc.Encode(r)
	}
	out.Close()
}
