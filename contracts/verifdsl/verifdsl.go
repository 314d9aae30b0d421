//go:build go1.21

// Package verifdsl is the contract language. The verifier (gover) interprets the
// calls symbolically; executed natively the same calls evaluate the contract on
// concrete inputs (used to replay counterexamples and for bounded stand-ins).
package verifdsl

import (
	"fmt"
	"math"
	"reflect"
	"runtime/debug"
	"strings"
	"sync"
)

// ---- native execution state

type Failure struct {
	Name   string
	Detail string
}

type skip struct{}

var (
	Failures    []Failure
	Checked     int
	panicsSet   bool
	panicsIff   bool
	mayPanic    bool
	quantCap    = 4096
	mayPanicked bool
)

// Begin resets the native state before one contract execution.
func Begin() {
	Failures = nil
	Checked = 0
	panicsSet, panicsIff, mayPanic, mayPanicked = false, false, false, false
}

// Verdict runs one contract execution. ok=false: a precondition did not hold.
func Verdict(f func()) (fails []Failure, ran bool) {
	Begin()
	ran = true
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, is := r.(skip); is {
					ran = false
					return
				}
				if mayPanic || panicsSet && panicsIff {
					mayPanicked = true
					return
				}
				Failures = append(Failures, Failure{"no-panic", fmt.Sprint(r) + "\n" + trimStack(string(debug.Stack()))})
				return
			}
			if panicsSet && panicsIff {
				Failures = append(Failures, Failure{"must-panic", "the call returned where the contract demands a panic"})
			}
		}()
		f()
	}()
	if !ran {
		return nil, false
	}
	return Failures, true
}

// Requires states a precondition.
func Requires(b bool) {
	if !b {
		panic(skip{})
	}
}

// Ensures states a postcondition.
func Ensures(name string, b bool) {
	Checked++
	if !b {
		Failures = append(Failures, Failure{"ensures:" + name, ""})
	}
}

// Assume is only allowed in trusted contracts.
func Assume(b bool) {
	if !b {
		panic(skip{})
	}
}

// Symbolic reports whether the contract is being interpreted by the verifier.
func Symbolic() bool { return false }

// Snap copies a value: slices and maps get a private copy of their elements.
func Snap[T any](v T) T {
	rv := reflect.ValueOf(&v).Elem()
	return copyVal(rv).Interface().(T)
}

func copyVal(rv reflect.Value) reflect.Value {
	switch rv.Kind() {
	case reflect.Slice:
		if rv.IsNil() {
			return rv
		}
		n := reflect.MakeSlice(rv.Type(), rv.Len(), rv.Len())
		reflect.Copy(n, rv)
		return n
	case reflect.Map:
		if rv.IsNil() {
			return rv
		}
		n := reflect.MakeMap(rv.Type())
		for _, k := range rv.MapKeys() {
			n.SetMapIndex(k, rv.MapIndex(k))
		}
		return n
	}
	return rv
}

// Collect: the values f(0), ..., f(n-1) have now.
func Collect[T any](n int, f func(i int) T) []T {
	l := make([]T, n)
	for i := range l {
		l[i] = f(i)
	}
	return l
}

// Forall: f holds for every i with lo <= i < hi.
func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

// Exists: f holds for some i with lo <= i < hi.
func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

// Count: the number of i with lo <= i < hi and f(i).
func Count(lo, hi int, f func(i int) bool) int {
	n := 0
	for i := lo; i < hi; i++ {
		if f(i) {
			n++
		}
	}
	return n
}

// ForallKeys: f holds for every key of the map.
func ForallKeys[K comparable, V any](m map[K]V, f func(k K) bool) bool {
	for k := range m {
		if !f(k) {
			return false
		}
	}
	return true
}

// ExistsKey: f holds for some key of the map.
func ExistsKey[K comparable, V any](m map[K]V, f func(k K) bool) bool {
	for k := range m {
		if f(k) {
			return true
		}
	}
	return false
}

// Modifies lists what the call may change: pointers (the whole object),
// slices (their elements) and maps. Everything else must stay unchanged.
func Modifies(targets ...interface{}) { recordModifies(targets) }

// ForallObjs: f holds for every object of the type.
func ForallObjs[T any](f func(p *T) bool) bool {
	if curMem == nil {
		return true
	}
	for _, r := range curMem.regs {
		if r.kind == 'p' {
			if p, ok := access(r.v).Addr().Interface().(*T); ok && !f(p) {
				return false
			}
		}
	}
	return true
}

// NewObjs: f holds for every object of the type that the call allocated.
func NewObjs[T any](f func(p *T) bool) bool { return true }

// ObjsUnchangedOr: every object of the type is as it was before the call, or f holds for it.
func ObjsUnchangedOr[T any](f func(p *T) bool) bool {
	if curMem == nil {
		return true
	}
	for _, r := range curMem.regs {
		if r.kind == 'p' {
			if p, ok := access(r.v).Addr().Interface().(*T); ok && !same(r.v, r.copy) && !f(p) {
				return false
			}
		}
	}
	return true
}

// ModifiesAll gives up the frame of a contract (used by trusted contracts only).
func ModifiesAll() { modAll = true }

// ModifiesElems: every slice with the element type of s may get new elements.
func ModifiesElems(s interface{}) { modTypes[reflect.SliceOf(reflect.TypeOf(s).Elem())] = true }

// ModifiesType: every object of the type p points to (or every map of p's type) may change.
func ModifiesType(p interface{}) {
	t := reflect.TypeOf(p)
	if t.Kind() == reflect.Map {
		modTypes[reflect.MapOf(t.Key(), t.Elem())] = true
		return
	}
	modTypes[t.Elem()] = true
}

// SameMap: a and b are one map.
func SameMap(a, b interface{}) bool {
	return reflect.ValueOf(a).Pointer() == reflect.ValueOf(b).Pointer()
}

// Pure: the call changes nothing and its result depends on nothing but what it reads.
func Pure() {}

// LoopInv is an invariant template: it is tried for every loop whose loop-carried
// variables fit the parameter types; it never becomes an assumption unproved.
func LoopInv(f interface{}) {}

// PanicsIff: the call panics exactly when b holds.
func PanicsIff(b bool) { panicsSet, panicsIff = true, b }

// MayPanic: the contract allows the call to panic.
func MayPanic() { mayPanic = true }

// Fresh: the pointer, slice or map was allocated by the call.
func Fresh(v interface{}) bool { return true }

// SameArray: the two slices share their backing array and start.
func SameArray(a, b interface{}) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	return x.Pointer() == y.Pointer()
}

// DisjointArrays: the two slices do not share a backing array.
func DisjointArrays(a, b interface{}) bool {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	if x.Cap() == 0 || y.Cap() == 0 {
		return true
	}
	sz := x.Type().Elem().Size()
	x0, x1 := x.Pointer(), x.Pointer()+uintptr(x.Cap())*sz
	y0, y1 := y.Pointer(), y.Pointer()+uintptr(y.Cap())*y.Type().Elem().Size()
	return x1 <= y0 || y1 <= x0
}

// Unlocked: nobody holds the lock.
func Unlocked(m *sync.RWMutex) bool {
	if !m.TryLock() {
		return false
	}
	m.Unlock()
	return true
}

// Implies is material implication; both sides are evaluated.
func Implies(a, b bool) bool { return !a || b }

// Identical: the same floating-point value; unlike with ==, NaN is itself and the
// two zeros differ.
func Identical(a, b interface{}) bool {
	x, y := reflect.ValueOf(a).Float(), reflect.ValueOf(b).Float()
	return math.Float64bits(x) == math.Float64bits(y) || x != x && y != y
}

// NoNewReferences: nothing reachable from the results, and nothing modified,
// was allocated by the call.
func NoNewReferences() {}

// Deterministic: the result is a function of the arguments' contents.
func Deterministic() {}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "go-xmp") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}
