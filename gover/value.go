package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a symbolic Go value: *Term (bool, integers, strings, floats, maps,
// channels), SliceV, IfaceV, StructV, ArrayV, PtrV, FuncV, TupleV, IterV.
type Value interface{}

type SliceV struct{ arr, off, len, cap *Term }
type IfaceV struct {
	tag, data *Term
	dyn       types.Type // statically known dynamic type
	val       Value
}
type StructV struct{ f []Value }
type ArrayV struct{ e []Value }
type TupleV []Value
type FuncV struct {
	fn   *ssa.Function
	bind []Value
	ref  *Term // opaque function value
	vis  *Term // membership predicate of a visited set
}

const (
	pRef  = iota // object in the typed heap
	pCell        // engine-local object
	pElem        // slice element
)

type PtrV struct {
	kind     int
	ref      *Term
	cell     int
	arr, idx *Term
	root     types.Type
	path     []int
}

// IterV is a map (or string) range iterator; its visited set lives in a cell.
type IterV struct {
	m     *Term
	mt    *types.Map
	cell  int // visited set
	dom   *Term
	isStr bool
	str   *Term
}

type Unsupported struct{ msg string }

func unsupported(f string, a ...interface{}) { panic(Unsupported{fmt.Sprintf(f, a...)}) }

// ---- type layout

func (x *Exec) isRepoType(n *types.Named) bool {
	p := n.Obj().Pkg()
	return p != nil && strings.HasPrefix(p.Path(), repoModule)
}

func (x *Exec) opaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	if x.isRepoType(n) {
		// defined as an external opaque struct (type Date time.Time)
		if st.NumFields() > 0 {
			p := st.Field(0).Pkg()
			if p != nil && !strings.HasPrefix(p.Path(), repoModule) {
				for i := 0; i < st.NumFields(); i++ {
					if !st.Field(i).Exported() {
						return true
					}
				}
			}
		}
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if !st.Field(i).Exported() {
			return true
		}
	}
	return false
}

func (x *Exec) leaves(t types.Type) []string {
	if l, ok := x.leafCache[t]; ok {
		return l
	}
	var l []string
	switch u := t.Underlying().(type) {
	case *types.Basic:
		i := u.Info()
		switch {
		case i&types.IsBoolean != 0:
			l = []string{SBool}
		case i&types.IsInteger != 0, u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			l = []string{SInt}
		case i&types.IsString != 0:
			l = []string{SStr}
		case i&types.IsFloat != 0:
			l = []string{SFlt}
		default:
			unsupported("type %s", t)
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		l = []string{SInt}
	case *types.Slice:
		l = []string{SInt, SInt, SInt, SInt}
	case *types.Interface:
		l = []string{SInt, SInt}
	case *types.Struct:
		if x.opaqueStruct(t) {
			l = []string{SInt}
			break
		}
		for i := 0; i < u.NumFields(); i++ {
			l = append(l, x.leaves(u.Field(i).Type())...)
		}
	case *types.Array:
		if u.Len() > 64 {
			unsupported("large array type %s", t)
		}
		e := x.leaves(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			l = append(l, e...)
		}
	default:
		unsupported("type %s", t)
	}
	x.leafCache[t] = l
	return l
}

// fromLeaves builds a value of type t.
func (x *Exec) fromLeaves(t types.Type, l []*Term) Value {
	v, rest := x.fromLeaves1(t, l)
	if len(rest) != 0 {
		panic("leaf count")
	}
	return v
}

func (x *Exec) fromLeaves1(t types.Type, l []*Term) (Value, []*Term) {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return PtrV{kind: pRef, ref: l[0], root: u.Elem()}, l[1:]
	case *types.Signature:
		return FuncV{ref: l[0]}, l[1:]
	case *types.Slice:
		return SliceV{l[0], l[1], l[2], l[3]}, l[4:]
	case *types.Interface:
		v := IfaceV{tag: l[0], data: l[1]}
		if l[0].isInt() {
			id := int(l[0].val.Int64())
			if id > 0 && id <= len(x.typeList) {
				v.dyn = x.typeList[id-1]
			}
		}
		return v, l[2:]
	case *types.Struct:
		if x.opaqueStruct(t) {
			return l[0], l[1:]
		}
		s := StructV{}
		for i := 0; i < u.NumFields(); i++ {
			var f Value
			f, l = x.fromLeaves1(u.Field(i).Type(), l)
			s.f = append(s.f, f)
		}
		return s, l
	case *types.Array:
		a := ArrayV{}
		for i := int64(0); i < u.Len(); i++ {
			var e Value
			e, l = x.fromLeaves1(u.Elem(), l)
			a.e = append(a.e, e)
		}
		return a, l
	}
	return l[0], l[1:]
}

// toLeaves flattens a value; it may have to move engine-local objects to the heap.
func (x *Exec) toLeaves(st *State, t types.Type, v Value) []*Term {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return []*Term{x.ptrTerm(st, v.(PtrV))}
	case *types.Signature:
		f := v.(FuncV)
		if f.ref != nil {
			return []*Term{f.ref}
		}
		if f.fn == nil {
			return []*Term{x.c.Int(0)}
		}
		x.funcIDs[f.fn.String()] = true
		if len(f.bind) == 0 {
			return []*Term{x.c.UF("funcref_"+f.fn.String(), SInt)}
		}
		return []*Term{x.c.Fresh("closure", SInt)}
	case *types.Slice:
		s := v.(SliceV)
		return []*Term{s.arr, s.off, s.len, s.cap}
	case *types.Interface:
		i := v.(IfaceV)
		x.box(st, &i)
		return []*Term{i.tag, i.data}
	case *types.Struct:
		if x.opaqueStruct(t) {
			return []*Term{v.(*Term)}
		}
		var out []*Term
		s := v.(StructV)
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, x.toLeaves(st, u.Field(i).Type(), s.f[i])...)
		}
		return out
	case *types.Array:
		var out []*Term
		for _, e := range v.(ArrayV).e {
			out = append(out, x.toLeaves(st, u.Elem(), e)...)
		}
		return out
	}
	return []*Term{v.(*Term)}
}

// box makes the data word of an interface available.
func (x *Exec) box(st *State, i *IfaceV) {
	if i.data != nil {
		return
	}
	if p, ok := i.val.(PtrV); ok {
		i.data = x.ptrTerm(st, p)
		return
	}
	l := x.toLeaves(st, i.dyn, i.val)
	name := x.typeKey(i.dyn)
	d := x.c.UF("box|"+name, SInt, l...)
	if len(l) == 0 {
		d = x.c.Int(0)
	}
	for k, t := range l {
		u := x.c.UF(fmt.Sprintf("unbox%d|%s", k, name), t.sort, d)
		st.fact(x.c.Eq(u, t))
	}
	i.data = d
}

func (x *Exec) typeID(t types.Type) *Term {
	k := types.TypeString(types.Unalias(t), nil)
	if id, ok := x.typeIDs[k]; ok {
		return x.c.Int(int64(id))
	}
	x.typeList = append(x.typeList, t)
	x.typeIDs[k] = len(x.typeList)
	return x.c.Int(int64(len(x.typeList)))
}

// typeKey names the heap of a type: struct-identical types share a heap.
var wordByte, wordRune = regexp.MustCompile(`\bbyte\b`), regexp.MustCompile(`\brune\b`)

func (x *Exec) typeKey(t types.Type) string {
	if k, ok := x.keyCache[t]; ok {
		return k
	}
	var k string
	u := t.Underlying()
	switch uu := u.(type) {
	case *types.Pointer:
		k = "*" // all references share the sort; keyed by pointee for separation
		k += x.shortKey(uu.Elem())
	case *types.Struct:
		if x.opaqueStruct(t) {
			k = types.TypeString(t, nil)
		} else {
			k = types.TypeString(u, func(p *types.Package) string { return p.Name() })
		}
	default:
		k = types.TypeString(u, func(p *types.Package) string { return p.Name() })
	}
	if strings.Contains(k, "byte") || strings.Contains(k, "rune") {
		k = wordByte.ReplaceAllString(k, "uint8")
		k = wordRune.ReplaceAllString(k, "int32")
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if _, isS := u.(*types.Struct); isS && !x.opaqueStruct(t) {
			// use a readable canonical name for named structs
			if c, ok := x.structNames[k]; ok {
				k = c
			} else {
				x.structNames[k] = n.Obj().Name()
				for kk, c := range x.structNames {
					if kk != k && c == n.Obj().Name() {
						x.structNames[k] = n.Obj().Pkg().Name() + "." + n.Obj().Name() + "~"
					}
				}
				k = x.structNames[k]
			}
		}
	} else if c, ok := x.structNames[k]; ok {
		k = c
	}
	x.keyCache[t] = k
	return k
}

func (x *Exec) shortKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// zero value of a type
func (x *Exec) zero(t types.Type) Value {
	var l []*Term
	for _, s := range x.leaves(t) {
		l = append(l, x.zeroLeaf(s))
	}
	return x.fromLeaves(t, l)
}

func (x *Exec) zeroLeaf(s string) *Term {
	switch s {
	case SBool:
		return x.c.False()
	case SInt:
		return x.c.Int(0)
	case SStr:
		return x.c.Str("")
	case SFlt:
		return x.fltConst("0")
	}
	panic("zero of " + s)
}

func (x *Exec) fltConst(s string) *Term {
	t := x.c.UF("flt:"+s, SFlt)
	if r, ok := new(big.Rat).SetString(s); ok {
		if x.fltVals == nil {
			x.fltVals = map[*Term]*big.Rat{}
		}
		x.fltVals[t] = r
	}
	return t
}

// freshVal returns an arbitrary value of type t with its typing facts.
func (x *Exec) freshVal(st *State, t types.Type, hint string) Value {
	var l []*Term
	for _, s := range x.leaves(t) {
		l = append(l, x.c.Fresh(hint, s))
	}
	v := x.fromLeaves(t, l)
	x.wf(st, t, v, st.alloc)
	return v
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func intRange(t types.Type) (lo, hi *big.Int, bits uint, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		bits, signed = 64, true
	case types.Int8:
		bits, signed = 8, true
	case types.Int16:
		bits, signed = 16, true
	case types.Int32, types.UntypedRune:
		bits, signed = 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		bits = 64
	case types.Uint8:
		bits = 8
	case types.Uint16:
		bits = 16
	case types.Uint32:
		bits = 32
	default:
		return nil, nil, 0, false, false
	}
	if signed {
		lo = new(big.Int).Neg(pow2(bits - 1))
		hi = new(big.Int).Sub(pow2(bits-1), big.NewInt(1))
	} else {
		lo = big.NewInt(0)
		hi = new(big.Int).Sub(pow2(bits), big.NewInt(1))
	}
	return lo, hi, bits, signed, true
}

const maxLen = int64(1) << 48

// wf adds the typing facts of a value (ranges, slice shape, allocatedness).
func (x *Exec) wf(st *State, t types.Type, v Value, alloc *Term) {
	if x.noFacts > 0 {
		return
	}
	for _, f := range x.wfFacts(t, v, alloc, false) {
		st.fact(f)
	}
}

func (x *Exec) wfFacts(t types.Type, v Value, alloc *Term, initial bool) []*Term {
	c := x.c
	var out []*Term
	switch u := t.Underlying().(type) {
	case *types.Basic:
		tm := v.(*Term)
		if lo, hi, _, _, ok := intRange(t); ok {
			if tm.isInt() {
				return nil
			}
			out = append(out, c.Le(c.Big(lo), tm), c.Le(tm, c.Big(hi)))
		}
		if u.Info()&types.IsString != 0 && tm.op != "str" {
			out = append(out, c.Le(c.Op("str.len", SInt, tm), c.Int(maxLen)))
		}
	case *types.Pointer:
		p := v.(PtrV)
		if p.kind == pRef && len(p.path) == 0 {
			out = append(out, x.refFacts(p.ref, alloc)...)
		}
	case *types.Map, *types.Chan:
		out = append(out, x.refFacts(v.(*Term), alloc)...)
	case *types.Slice:
		s := v.(SliceV)
		out = append(out, x.refFacts(s.arr, alloc)...)
		out = append(out, c.Le(c.Int(0), s.off), c.Le(c.Int(0), s.len), c.Le(s.len, s.cap), c.Le(s.cap, c.Int(maxLen)), c.Le(s.off, c.Int(maxLen)),
			c.Implies(c.Eq(s.arr, c.Int(0)), c.And(c.Eq(s.cap, c.Int(0)), c.Eq(s.off, c.Int(0)))))
	case *types.Interface:
		i := v.(IfaceV)
		out = append(out, c.Le(c.Int(0), i.tag))
		if i.data != nil {
			out = append(out, c.Implies(c.Eq(i.tag, c.Int(0)), c.Eq(i.data, c.Int(0))))
		}
	case *types.Struct:
		if x.opaqueStruct(t) {
			return nil
		}
		s := v.(StructV)
		for i := 0; i < u.NumFields(); i++ {
			out = append(out, x.wfFacts(u.Field(i).Type(), s.f[i], alloc, initial)...)
		}
	case *types.Array:
		for _, e := range v.(ArrayV).e {
			out = append(out, x.wfFacts(u.Elem(), e, alloc, initial)...)
		}
	}
	return out
}

func (x *Exec) refFacts(r, alloc *Term) []*Term {
	if r.isInt() || r.old {
		return nil
	}
	return []*Term{x.c.Lt(r, alloc)}
}

// ---- merging of values under a guard

func (x *Exec) mergeVal(g *Term, a, b Value) (Value, bool) {
	if a == nil && b == nil {
		return nil, true
	}
	switch av := a.(type) {
	case *Term:
		bv, ok := b.(*Term)
		if !ok || av.sort != bv.sort {
			return nil, false
		}
		return x.c.Ite(g, av, bv), true
	case SliceV:
		bv, ok := b.(SliceV)
		if !ok {
			return nil, false
		}
		return SliceV{x.c.Ite(g, av.arr, bv.arr), x.c.Ite(g, av.off, bv.off), x.c.Ite(g, av.len, bv.len), x.c.Ite(g, av.cap, bv.cap)}, true
	case IfaceV:
		bv, ok := b.(IfaceV)
		if !ok || av.data == nil || bv.data == nil {
			return nil, false
		}
		r := IfaceV{tag: x.c.Ite(g, av.tag, bv.tag), data: x.c.Ite(g, av.data, bv.data)}
		if av.tag == bv.tag {
			r.dyn = av.dyn
			if av.data == bv.data {
				r.val = av.val
			}
		}
		return r, true
	case StructV:
		bv, ok := b.(StructV)
		if !ok || len(av.f) != len(bv.f) {
			return nil, false
		}
		r := StructV{}
		for i := range av.f {
			m, ok := x.mergeVal(g, av.f[i], bv.f[i])
			if !ok {
				return nil, false
			}
			r.f = append(r.f, m)
		}
		return r, true
	case ArrayV:
		bv, ok := b.(ArrayV)
		if !ok || len(av.e) != len(bv.e) {
			return nil, false
		}
		r := ArrayV{}
		for i := range av.e {
			m, ok := x.mergeVal(g, av.e[i], bv.e[i])
			if !ok {
				return nil, false
			}
			r.e = append(r.e, m)
		}
		return r, true
	case TupleV:
		bv, ok := b.(TupleV)
		if !ok || len(av) != len(bv) {
			return nil, false
		}
		r := TupleV{}
		for i := range av {
			m, ok := x.mergeVal(g, av[i], bv[i])
			if !ok {
				return nil, false
			}
			r = append(r, m)
		}
		return r, true
	case PtrV:
		bv, ok := b.(PtrV)
		if !ok || av.kind != bv.kind || len(av.path) != len(bv.path) {
			return nil, false
		}
		for i := range av.path {
			if av.path[i] != bv.path[i] {
				return nil, false
			}
		}
		switch av.kind {
		case pCell:
			if av.cell != bv.cell {
				return nil, false
			}
			return av, true
		case pRef:
			r := av
			r.ref = x.c.Ite(g, av.ref, bv.ref)
			return r, true
		case pElem:
			r := av
			r.arr = x.c.Ite(g, av.arr, bv.arr)
			r.idx = x.c.Ite(g, av.idx, bv.idx)
			return r, true
		}
	case FuncV:
		bv, ok := b.(FuncV)
		if ok && av.fn == bv.fn && av.ref == bv.ref && len(av.bind) == 0 && len(bv.bind) == 0 {
			return av, true
		}
		return nil, false
	case IterV:
		return nil, false
	}
	return nil, false
}

// paramVal is an arbitrary initial value: references are old, slices are in
// normal form (offset zero).
func (x *Exec) paramVal(st *State, t0 types.Type, hint string) Value {
	var l []*Term
	roles := x.roles(t0)
	for i, s := range x.leaves(t0) {
		nm := hint
		if i > 0 {
			nm = fmt.Sprintf("%s.%d", hint, i)
		}
		if roles[i] == "off" {
			l = append(l, x.c.Int(0))
			continue
		}
		tm := x.c.Fresh("in_"+nm, s)
		if roles[i] == "ref" || roles[i] == "arr" || roles[i] == "data" {
			if roles[i] != "data" {
				tm.old = true
			}
			st.fact(x.c.Lt(tm, x.c.alloc0))
		}
		l = append(l, tm)
	}
	v := x.fromLeaves(t0, l)
	x.wf(st, t0, v, st.alloc)
	return v
}
