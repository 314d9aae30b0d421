package main

import (
	"fmt"
	"go/types"
	"math/big"
)

type logNode struct {
	prev *logNode
	t    *Term
	cond bool
	n    int
}

type State struct {
	x      *Exec
	heap   map[string]*Term
	cells  map[int]Value
	fwd    map[int]*Term
	fwdArr map[int]*Term
	nonnil map[*Term]bool
	alloc  *Term
	log    *logNode
	joins  []joinOcc
	usePre *State // state before the call whose contract is being used
	epoch  string // distinguishes heaps after calls that may change everything
}

func (st *State) clone() *State {
	n := &State{x: st.x, heap: make(map[string]*Term, len(st.heap)), cells: make(map[int]Value, len(st.cells)),
		fwd: make(map[int]*Term, len(st.fwd)), fwdArr: make(map[int]*Term, len(st.fwdArr)), nonnil: make(map[*Term]bool, len(st.nonnil)),
		alloc: st.alloc, log: st.log, joins: st.joins, epoch: st.epoch, usePre: st.usePre}
	for k, v := range st.heap {
		n.heap[k] = v
	}
	for k, v := range st.cells {
		n.cells[k] = v
	}
	for k, v := range st.fwd {
		n.fwd[k] = v
	}
	for k, v := range st.fwdArr {
		n.fwdArr[k] = v
	}
	for k, v := range st.nonnil {
		n.nonnil[k] = v
	}
	return n
}

func (st *State) push(t *Term, cond bool) {
	n := 1
	if st.log != nil {
		n = st.log.n + 1
	}
	st.log = &logNode{st.log, t, cond, n}
}

// fact adds something that is always true here (typing, contracts).
func (st *State) fact(t *Term) {
	if t.isTrue() || st.x.noFacts > 0 && t.open {
		return
	}
	st.push(t, false)
}

// cond adds a path condition; it reports false when the path is infeasible.
func (st *State) cond(t *Term) bool {
	if t.isTrue() {
		return true
	}
	if t.isFalse() {
		return false
	}
	nt := st.x.c.Not(t)
	for n := st.log; n != nil; n = n.prev {
		if n.t == nt {
			return false
		}
		if n.t == t {
			return true
		}
	}
	switch st.decide(t) {
	case 1:
		return true
	case -1:
		return false
	}
	st.push(t, true)
	return true
}

// bound: t compares v with a constant: v >= lo, v <= hi, or v == lo == hi; ne: v != lo.
func cmpBound(t *Term) (v *Term, lo, hi *big.Int, ne bool) {
	neg := false
	for t.op == "not" {
		neg = !neg
		t = t.args[0]
	}
	if t.op != "=" && t.op != "<=" && t.op != "<" || len(t.args) != 2 || t.args[0].sort != SInt {
		return
	}
	a, b := t.args[0], t.args[1]
	one := big.NewInt(1)
	switch {
	case t.op == "=" && a.isInt():
		return b, a.val, a.val, neg
	case t.op == "=" && b.isInt():
		return a, b.val, b.val, neg
	case t.op == "=" || a.isInt() == b.isInt():
		return
	case a.isInt(): // a <= b, a < b
		k := a.val
		if t.op == "<" {
			k = new(big.Int).Add(k, one)
		}
		if neg {
			return b, nil, new(big.Int).Sub(k, one), false
		}
		return b, k, nil, false
	}
	k := b.val
	if t.op == "<" {
		k = new(big.Int).Sub(k, one)
	}
	if neg {
		return a, new(big.Int).Add(k, one), nil, false
	}
	return a, nil, k, false
}

// decide: 1 if the known bounds of a variable make t true, -1 if they make it false.
func (st *State) decide(t *Term) int {
	v, lo, hi, ne := cmpBound(t)
	if v == nil {
		return 0
	}
	var l, h *big.Int
	var not []*big.Int
	add := func(t *Term) {
		w, a, b, n := cmpBound(t)
		if w != v {
			return
		}
		if n {
			not = append(not, a)
			return
		}
		if a != nil && (l == nil || a.Cmp(l) > 0) {
			l = a
		}
		if b != nil && (h == nil || b.Cmp(h) < 0) {
			h = b
		}
	}
	for n := st.log; n != nil; n = n.prev {
		if n.t.op == "and" {
			for _, a := range n.t.args {
				add(a)
			}
		} else {
			add(n.t)
		}
	}
	one := big.NewInt(1)
	for again := true; again; {
		again = false
		for _, k := range not {
			if l != nil && k.Cmp(l) == 0 {
				l, again = new(big.Int).Add(l, one), true
			}
			if h != nil && k.Cmp(h) == 0 {
				h, again = new(big.Int).Sub(h, one), true
			}
		}
	}
	out := func(k *big.Int) bool { return l != nil && k.Cmp(l) < 0 || h != nil && k.Cmp(h) > 0 }
	if l != nil && h != nil && l.Cmp(h) > 0 {
		return 0 // the path is infeasible anyway
	}
	if ne {
		if out(lo) {
			return 1
		}
		for _, k := range not {
			if k.Cmp(lo) == 0 {
				return 1
			}
		}
		if l != nil && h != nil && l.Cmp(h) == 0 && l.Cmp(lo) == 0 {
			return -1
		}
		return 0
	}
	if (lo == nil || l != nil && l.Cmp(lo) >= 0) && (hi == nil || h != nil && h.Cmp(hi) <= 0) {
		return 1
	}
	if lo != nil && h != nil && h.Cmp(lo) < 0 || hi != nil && l != nil && l.Cmp(hi) > 0 {
		return -1
	}
	if lo != nil && hi != nil {
		for _, k := range not {
			if k.Cmp(lo) == 0 {
				return -1
			}
		}
	}
	return 0
}

func (st *State) facts() []*Term {
	var out []*Term
	for n := st.log; n != nil; n = n.prev {
		out = append(out, n.t)
	}
	for i := len(st.x.axioms) - 1; i >= 0; i-- {
		out = append(out, st.x.axioms[i])
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// since returns the entries added after base, split into conditions and facts.
func (st *State) since(base *logNode) (conds, facts []*Term) {
	for n := st.log; n != base && n != nil; n = n.prev {
		if n.cond {
			conds = append(conds, n.t)
		} else {
			facts = append(facts, n.t)
		}
	}
	return
}

func (st *State) get(key, sort string) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	t := st.x.c.Sym("H"+st.epoch+"0|"+key, sort)
	if st.epoch == "" {
		st.x.initHeap[t] = key
	}
	return t
}

// havocAll forgets the whole heap.
func (st *State) havocAll() {
	st.x.nepoch++
	st.epoch = fmt.Sprintf("e%d_", st.x.nepoch)
	st.heap = map[string]*Term{}
}

func (st *State) newRef() *Term {
	r := st.alloc
	x := st.x
	st.alloc = x.c.Add(st.alloc, x.c.Int(1))
	// where no object of a tracked type lives the heap of that type is blank
	for _, n := range x.objKeys {
		t := x.objTypes[n]
		for i, s := range x.leaves(t) {
			st.fact(x.c.Eq(x.c.Select(st.get(x.fkey(t, i), arrSort(SInt, s)), r), x.zeroLeaf(s)))
		}
	}
	return r
}

func (x *Exec) fkey(t types.Type, i int) string { return fmt.Sprintf("F|%s|%d", x.typeKey(t), i) }
func (x *Exec) ekey(t types.Type, i int) string { return fmt.Sprintf("E|%s|%d", x.typeKey(t), i) }

// walk resolves a field path to a leaf range and type.
func (x *Exec) walk(root types.Type, path []int) (start int, t types.Type) {
	t = root
	for _, p := range path {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if x.opaqueStruct(t) {
				unsupported("field of opaque struct %s", t)
			}
			for i := 0; i < p; i++ {
				start += len(x.leaves(u.Field(i).Type()))
			}
			t = u.Field(p).Type()
		case *types.Array:
			start += p * len(x.leaves(u.Elem()))
			t = u.Elem()
		default:
			unsupported("path into %s", t)
		}
	}
	return
}

func readPath(v Value, path []int) Value {
	for _, p := range path {
		switch s := v.(type) {
		case StructV:
			v = s.f[p]
		case ArrayV:
			v = s.e[p]
		default:
			unsupported("readPath %T", v)
		}
	}
	return v
}

func writePath(v Value, path []int, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	switch s := v.(type) {
	case StructV:
		f := append([]Value{}, s.f...)
		f[path[0]] = writePath(f[path[0]], path[1:], nv)
		return StructV{f}
	case ArrayV:
		e := append([]Value{}, s.e...)
		e[path[0]] = writePath(e[path[0]], path[1:], nv)
		return ArrayV{e}
	}
	unsupported("writePath %T", v)
	return nil
}

func (st *State) resolve(p PtrV) PtrV {
	if p.kind == pCell {
		if r, ok := st.fwd[p.cell]; ok {
			return PtrV{kind: pRef, ref: r, root: p.root, path: p.path}
		}
		if a, ok := st.fwdArr[p.cell]; ok && len(p.path) > 0 {
			et := p.root.Underlying().(*types.Array).Elem()
			return PtrV{kind: pElem, arr: a, idx: st.x.c.Int(int64(p.path[0])), root: et, path: p.path[1:]}
		}
	}
	return p
}

func (x *Exec) load(st *State, p PtrV) Value {
	c := x.c
	p = st.resolve(p)
	switch p.kind {
	case pCell:
		if a, ok := st.fwdArr[p.cell]; ok {
			at := p.root.Underlying().(*types.Array)
			r := ArrayV{}
			for i := int64(0); i < at.Len(); i++ {
				r.e = append(r.e, x.load(st, PtrV{kind: pElem, arr: a, idx: c.Int(i), root: at.Elem()}))
			}
			return r
		}
		v, ok := st.cells[p.cell]
		if !ok {
			panic("load of unknown cell")
		}
		return readPath(v, p.path)
	case pRef:
		start, t := x.walk(p.root, p.path)
		sorts := x.leaves(t)
		roles := x.roles(t)
		var l []*Term
		for i, s := range sorts {
			h := st.get(x.fkey(p.root, start+i), arrSort(SInt, s))
			x.refHeap(x.fkey(p.root, start+i), h, roles[i], "", p.ref.open)
			tm := c.Select(h, p.ref)
			x.initialFacts(st, tm, h, roles[i], p.ref.old || p.ref.isInt() && p.ref.val.Sign() < 0, p.ref)
			l = append(l, tm)
		}
		v := x.fromLeaves(t, l)
		x.wf(st, t, v, st.alloc)
		return v
	case pElem:
		start, t := x.walk(p.root, p.path)
		sorts := x.leaves(t)
		roles := x.roles(t)
		var l []*Term
		for i, s := range sorts {
			if sn, ok := x.snapArr[p.arr]; ok {
				if h := sn[start+i]; h.op == "select" && h.args[0].op == "sym" {
					x.refHeap(x.ekey(p.root, start+i), h.args[0], roles[i], SInt, p.idx.open)
				}
				tm := c.Select(sn[start+i], p.idx)
				x.initialFacts(st, tm, sn[start+i], roles[i], true, p.arr)
				l = append(l, tm)
				continue
			}
			h := st.get(x.ekey(p.root, start+i), arrSort(SInt, arrSort(SInt, s)))
			x.refHeap(x.ekey(p.root, start+i), h, roles[i], SInt, p.arr.open || p.idx.open)
			a := c.Select(h, p.arr)
			tm := c.Select(a, p.idx)
			x.initialFacts(st, tm, h, roles[i], p.arr.old, p.arr)
			l = append(l, tm)
		}
		v := x.fromLeaves(t, l)
		x.wf(st, t, v, st.alloc)
		return v
	}
	panic("load")
}

// allocFact: every reference stored in an object (ks == "") or in an array or map
// (indexed by ks) allocated before bound was itself allocated before bound. It is
// stated once per heap, because reads under a quantifier carry no facts of their own.
func (x *Exec) allocFact(h, bound *Term, ks string) *Term {
	c := x.c
	m := c.FreshVar("m", SInt)
	if ks == "" {
		v := c.Select(h, m)
		return c.Forall([]*Term{m}, c.Implies(c.Lt(m, bound), c.Lt(v, bound)), v)
	}
	k := c.FreshVar("k", ks)
	v := c.Select(c.Select(h, m), k)
	return c.Forall([]*Term{m, k}, c.Implies(c.Lt(m, bound), c.Lt(v, bound)), v)
}

// refHeap notes that references of heap key are read under a quantifier.
func (x *Exec) refHeap(key string, h *Term, role, ks string, open bool) {
	if !open || role != "ref" && role != "arr" {
		return
	}
	if x.mvRoot == nil {
		x.mvRoot = map[string]string{}
		x.mvSort = map[string]string{}
	}
	x.mvRoot[key] = ks + "!"
	x.mvSort[key] = h.sort
	if r := x.c.Sym("H0|"+key, h.sort); x.initHeap[r] != "" && !x.mvAxiom[r] {
		if x.mvAxiom == nil {
			x.mvAxiom = map[*Term]bool{}
		}
		x.mvAxiom[r] = true
		x.axioms = append(x.axioms, x.allocFact(r, x.c.alloc0, ks))
	}
}

// initialFacts: references read from the initial heap were allocated before the
// run, and slices found there start at offset 0 (normal form, see DESIGN.md).
func (x *Exec) initialFacts(st *State, tm, heap *Term, role string, oldBase bool, base *Term) {
	if tm.op != "select" {
		return
	}
	root := tm
	for root.op == "select" {
		root = root.args[0]
	}
	if root.op != "sym" {
		return
	}
	if _, ok := x.initHeap[root]; !ok {
		return
	}
	c := x.c
	switch role {
	case "ref", "arr":
		if tm.open {
			return
		}
		if oldBase {
			tm.old = true
			st.fact(c.Lt(tm, c.alloc0))
		} else {
			st.fact(c.Implies(c.Lt(base, c.alloc0), c.Lt(tm, c.alloc0)))
		}
	case "off":
		if tm.open {
			return
		}
		if oldBase {
			st.fact(c.Eq(tm, c.Int(0)))
		} else {
			st.fact(c.Implies(c.Lt(base, c.alloc0), c.Eq(tm, c.Int(0))))
		}
	}
}

func (x *Exec) roles(t types.Type) []string {
	if r, ok := x.roleCache[t]; ok {
		return r
	}
	var l []string
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		l = []string{"ref"}
	case *types.Slice:
		l = []string{"arr", "off", "len", "cap"}
	case *types.Interface:
		l = []string{"tag", "data"}
	case *types.Struct:
		if x.opaqueStruct(t) {
			l = []string{"opaque"}
			break
		}
		for i := 0; i < u.NumFields(); i++ {
			l = append(l, x.roles(u.Field(i).Type())...)
		}
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			l = append(l, x.roles(u.Elem())...)
		}
	default:
		l = []string{"val"}
	}
	x.roleCache[t] = l
	return l
}

func (x *Exec) store(st *State, p PtrV, v Value) {
	c := x.c
	p = st.resolve(p)
	switch p.kind {
	case pCell:
		if a, ok := st.fwdArr[p.cell]; ok {
			at := p.root.Underlying().(*types.Array)
			for i, e := range v.(ArrayV).e {
				x.store(st, PtrV{kind: pElem, arr: a, idx: c.Int(int64(i)), root: at.Elem()}, e)
			}
			return
		}
		st.cells[p.cell] = writePath(st.cells[p.cell], p.path, v)
	case pRef:
		start, t := x.walk(p.root, p.path)
		l := x.toLeaves(st, t, v)
		for i, tm := range l {
			k := x.fkey(p.root, start+i)
			h := st.get(k, arrSort(SInt, tm.sort))
			st.heap[k] = c.Store(h, p.ref, tm)
		}
	case pElem:
		start, t := x.walk(p.root, p.path)
		l := x.toLeaves(st, t, v)
		for i, tm := range l {
			k := x.ekey(p.root, start+i)
			h := st.get(k, arrSort(SInt, arrSort(SInt, tm.sort)))
			st.heap[k] = c.Store(h, p.arr, c.Store(c.Select(h, p.arr), p.idx, tm))
		}
	}
}

// ptrTerm turns a pointer into a heap reference, moving an engine-local object
// to the heap when needed.
func (x *Exec) ptrTerm(st *State, p PtrV) *Term {
	p = st.resolve(p)
	switch p.kind {
	case pRef:
		if len(p.path) == 0 {
			return p.ref
		}
		// interior pointer used as a value: identified by base and path
		n := "interior"
		for _, i := range p.path {
			n += fmt.Sprintf("_%d", i)
		}
		if x.allowInterior {
			return x.c.UF(n+"|"+x.typeKey(p.root), SInt, p.ref)
		}
	case pCell:
		if len(p.path) == 0 {
			if a, ok := st.fwdArr[p.cell]; ok {
				_ = a
				unsupported("address of array object used as a value")
			}
			v := st.cells[p.cell]
			r := st.newRef()
			st.fwd[p.cell] = r
			st.nonnil[r] = true
			x.store(st, PtrV{kind: pRef, ref: r, root: p.root}, v)
			return r
		}
	case pElem:
		if x.allowInterior && len(p.path) == 0 {
			return x.c.UF("elemptr|"+x.typeKey(p.root), SInt, p.arr, p.idx)
		}
	}
	unsupported("interior pointer used as a value (%v of %s)", p.path, p.root)
	return nil
}

// arrayObj moves an array object into the element heap.
func (x *Exec) arrayObj(st *State, p PtrV) (arr *Term, n int64, et types.Type) {
	p = st.resolve(p)
	at := p.root
	for range p.path {
	}
	_, t := x.walk(p.root, p.path)
	at = t
	a := at.Underlying().(*types.Array)
	if p.kind != pCell || len(p.path) != 0 {
		unsupported("slicing an array inside another object")
	}
	if r, ok := st.fwdArr[p.cell]; ok {
		return r, a.Len(), a.Elem()
	}
	v := st.cells[p.cell].(ArrayV)
	r := st.newRef()
	st.fwdArr[p.cell] = r
	for i, s := range x.leaves(a.Elem()) {
		k := x.ekey(a.Elem(), i)
		h := st.get(k, arrSort(SInt, arrSort(SInt, s)))
		st.heap[k] = x.c.Store(h, r, x.c.ConstArr(arrSort(SInt, s), x.zeroLeaf(s)))
	}
	for i, e := range v.e {
		x.store(st, PtrV{kind: pElem, arr: r, idx: x.c.Int(int64(i)), root: a.Elem()}, e)
	}
	return r, a.Len(), a.Elem()
}

// elems returns the content array (leaf i) of the backing array of s.
func (x *Exec) elems(st *State, et types.Type, arr *Term, i int) *Term {
	if l, ok := x.snapArr[arr]; ok {
		return l[i]
	}
	s := x.leaves(et)[i]
	h := st.get(x.ekey(et, i), arrSort(SInt, arrSort(SInt, s)))
	return x.c.Select(h, arr)
}

func (x *Exec) setElems(st *State, et types.Type, arr *Term, i int, content *Term) {
	s := x.leaves(et)[i]
	k := x.ekey(et, i)
	h := st.get(k, arrSort(SInt, arrSort(SInt, s)))
	st.heap[k] = x.c.Store(h, arr, content)
}
