package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loop invariants: a set of candidate formulas (built-in ones and the
// contract's LoopInv templates) is pruned Houdini-style until every remaining
// candidate holds on entry and is preserved; only those are assumed.

type cand struct {
	name  string
	alive bool
	info  *loopInfo
}

type loopInfo struct {
	key    string
	desc   *loopDesc
	wHeap  map[string]string // modified heap component -> sort
	wAll   bool              // the body may change everything
	wCells map[int]bool
	preFwd map[int]bool
	preArr map[int]bool
	cands  map[string]*cand
	order  []string
}

type loopEntry struct {
	info     *loopInfo
	entry    *State
	entryPhi map[*ssa.Phi]Value
	head     *State
	list     []candInst
}

type candInst struct {
	c    *cand
	eval func(st *State, phis map[*ssa.Phi]Value) *Term
}

func (x *Exec) enterLoop(st *State, fr *Frame, ld *loopDesc, phis map[*ssa.Phi]Value) bool {
	c := x.c
	if x.c.noFresh > 0 {
		unsupported("loop under a quantifier in %s", fr.fn)
	}
	key := fmt.Sprintf("%s@%d", fr.key, ld.header.Index)
	info := x.loops[key]
	if info == nil {
		info = &loopInfo{key: key, desc: ld, wHeap: map[string]string{}, wCells: map[int]bool{}, preFwd: map[int]bool{}, preArr: map[int]bool{}, cands: map[string]*cand{}}
		x.loops[key] = info
	}
	for id := range info.preFwd {
		if _, ok := st.fwd[id]; !ok {
			if _, ok := st.cells[id]; ok {
				x.ptrTerm(st, PtrV{kind: pCell, cell: id, root: x.cellT[id]})
			}
		}
	}
	for id := range info.preArr {
		if _, ok := st.fwdArr[id]; !ok {
			if _, ok := st.cells[id]; ok {
				x.arrayObj(st, PtrV{kind: pCell, cell: id, root: x.cellT[id]})
			}
		}
	}
	// pointers carried by the loop become heap references
	for _, p := range ld.phis {
		if pv, ok := phis[p].(PtrV); ok && (pv.kind != pRef || len(pv.path) > 0) {
			phis[p] = PtrV{kind: pRef, ref: x.ptrTerm(st, pv), root: pv.root}
		}
		if iv, ok := phis[p].(IfaceV); ok {
			x.box(st, &iv)
			phis[p] = iv
		}
	}
	le := &loopEntry{info: info, entry: st.clone(), entryPhi: phis}
	le.list = x.candidates(st, fr, info, le, phis)
	for _, ci := range le.list {
		if !ci.c.alive {
			continue
		}
		x.obligeCand(st, "init", ci.c, ci.eval(st, phis))
	}
	// havoc
	if info.wAll {
		st.havocAll()
	}
	for _, k := range sortedStr(info.wHeap) {
		if info.wAll {
			break
		}
		st.heap[k] = c.Fresh("h|"+k, info.wHeap[k])
	}
	na := c.Fresh("alloc", SInt)
	na.fresh = true
	st.fact(c.Le(st.alloc, na))
	st.alloc = na
	for _, k := range sortedStr(info.wHeap) {
		if ks := x.mvRoot[k]; ks != "" && !info.wAll {
			st.fact(x.allocFact(st.heap[k], na, strings.TrimSuffix(ks, "!")))
		}
	}
	var ids []int
	for id := range info.wCells {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		old, ok := st.cells[id]
		if !ok {
			continue
		}
		st.cells[id] = x.havocLike(st, old, x.cellT[id], fmt.Sprintf("cell%d", id))
	}
	nphis := map[*ssa.Phi]Value{}
	for _, p := range ld.phis {
		hint := p.Comment
		if hint == "" {
			hint = p.Name()
		}
		v := phis[p]
		switch vv := v.(type) {
		case FuncV:
			nphis[p] = vv
			if vv.fn == nil {
				nphis[p] = x.freshVal(st, p.Type(), hint)
			}
		case IterV:
			nphis[p] = v
		case TupleV:
			unsupported("tuple phi")
		default:
			nphis[p] = x.freshVal(st, p.Type(), hint)
		}
		fr.env[p] = nphis[p]
	}
	for _, ci := range le.list {
		if ci.c.alive {
			st.fact(ci.eval(st, nphis))
		}
	}
	le.head = st.clone()
	fr.loops[ld.header] = le
	return true
}

func (x *Exec) havocLike(st *State, old Value, t types.Type, hint string) Value {
	switch o := old.(type) {
	case *Term:
		n := x.c.Fresh(hint, o.sort)
		if t != nil {
			x.wf(st, t, n, st.alloc)
		}
		return n
	}
	if t == nil {
		unsupported("havoc of untyped cell")
	}
	return x.freshVal(st, t, hint)
}

func sortedStr(m map[string]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (x *Exec) obligeCand(st *State, when string, cd *cand, goal *Term) {
	if goal.isTrue() {
		return
	}
	x.obls = append(x.obls, &Obligation{kind: "invariant", name: x.ct.ID + "/invariant:" + when + ":" + cd.name, facts: st.facts(), goal: goal, cand: cd})
}

func (x *Exec) backEdge(st *State, fr *Frame, ld *loopDesc, phis map[*ssa.Phi]Value) {
	le := fr.loops[ld.header]
	info := le.info
	for _, p := range ld.phis {
		if pv, ok := phis[p].(PtrV); ok && (pv.kind != pRef || len(pv.path) > 0) {
			phis[p] = PtrV{kind: pRef, ref: x.ptrTerm(st, pv), root: pv.root}
		}
		if iv, ok := phis[p].(IfaceV); ok {
			x.box(st, &iv)
			phis[p] = iv
		}
	}
	// discover what the body writes
	for id := range st.fwd {
		if _, had := le.head.fwd[id]; !had {
			if _, existed := le.head.cells[id]; existed && !info.preFwd[id] && !x.allocIn(id, ld, fr) {
				info.preFwd[id] = true
				x.wDirty = true
			}
		}
	}
	for id := range st.fwdArr {
		if _, had := le.head.fwdArr[id]; !had {
			if _, existed := le.head.cells[id]; existed && !info.preArr[id] && !x.allocIn(id, ld, fr) {
				info.preArr[id] = true
				x.wDirty = true
			}
		}
	}
	if st.epoch != le.head.epoch && !info.wAll {
		info.wAll = true
		x.wDirty = true
	}
	for k, h := range st.heap {
		if st.epoch != le.head.epoch || info.wAll {
			break
		}
		if le.head.get(k, h.sort) == h {
			continue
		}
		if _, ok := info.wHeap[k]; !ok {
			info.wHeap[k] = h.sort
			x.wDirty = true
		}
	}
	for id, v := range st.cells {
		v0, ok := le.head.cells[id]
		if !ok {
			continue
		}
		if _, f := st.fwd[id]; f {
			continue
		}
		if _, f := st.fwdArr[id]; f {
			continue
		}
		if !sameVal(v0, v) && !info.wCells[id] && !x.allocIn(id, ld, fr) {
			info.wCells[id] = true
			x.wDirty = true
		}
	}
	if x.wDirty {
		return
	}
	for _, ci := range le.list {
		if ci.c.alive {
			x.obligeCand(st, "step", ci.c, ci.eval(st, phis))
		}
	}
}

// allocIn: the cell belongs to an allocation executed inside the loop body.
func (x *Exec) allocIn(id int, ld *loopDesc, fr *Frame) bool {
	for b := range ld.body {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok {
				k := fmt.Sprintf("%s|%s|%p", fr.key, a.Name(), a)
				if x.cellIDs[k] == id {
					return true
				}
			}
		}
	}
	return x.cellOwner[id] != "" && strings.HasPrefix(x.cellOwner[id], fr.key+"/") && x.callInLoop(x.cellOwner[id], ld, fr)
}

func (x *Exec) callInLoop(owner string, ld *loopDesc, fr *Frame) bool {
	rest := strings.TrimPrefix(owner, fr.key+"/")
	var bi int
	if _, err := fmt.Sscanf(rest, "%d.", &bi); err != nil {
		return false
	}
	for b := range ld.body {
		if b.Index == bi {
			return true
		}
	}
	return false
}

func sameVal(a, b Value) bool {
	switch av := a.(type) {
	case *Term:
		return a == b
	case SliceV:
		bv, ok := b.(SliceV)
		return ok && av == bv
	case IfaceV:
		bv, ok := b.(IfaceV)
		return ok && av.tag == bv.tag && av.data == bv.data
	case StructV:
		bv, ok := b.(StructV)
		if !ok || len(av.f) != len(bv.f) {
			return false
		}
		for i := range av.f {
			if !sameVal(av.f[i], bv.f[i]) {
				return false
			}
		}
		return true
	case ArrayV:
		bv, ok := b.(ArrayV)
		if !ok || len(av.e) != len(bv.e) {
			return false
		}
		for i := range av.e {
			if !sameVal(av.e[i], bv.e[i]) {
				return false
			}
		}
		return true
	case PtrV:
		bv, ok := b.(PtrV)
		return ok && av.kind == bv.kind && av.ref == bv.ref && av.cell == bv.cell && av.arr == bv.arr && av.idx == bv.idx && fmt.Sprint(av.path) == fmt.Sprint(bv.path)
	case FuncV:
		bv, ok := b.(FuncV)
		if !ok || av.fn != bv.fn || av.ref != bv.ref || len(av.bind) != len(bv.bind) {
			return false
		}
		for i := range av.bind {
			if !sameVal(av.bind[i], bv.bind[i]) {
				return false
			}
		}
		return true
	case nil:
		return b == nil
	}
	return false
}

// slot is a loop-carried variable.
type slot struct {
	name  string
	typ   types.Type
	get   func(st *State, phis map[*ssa.Phi]Value) Value
	entry Value
	vis   string // key sort for visited sets
	src   string // name of the variable in the source
	bits  bool   // combined with bit operations: not a counter
}

func bitwise(p *ssa.Phi) bool {
	for _, r := range *p.Referrers() {
		if b, ok := r.(*ssa.BinOp); ok {
			switch b.Op {
			case token.OR, token.AND, token.XOR, token.AND_NOT:
				return true
			}
		}
	}
	return false
}

func (x *Exec) slots(st *State, fr *Frame, info *loopInfo, le *loopEntry) []slot {
	var out []slot
	for _, p := range info.desc.phis {
		p := p
		if _, ok := le.entryPhi[p].(IterV); ok {
			continue
		}
		out = append(out, slot{name: p.Name(), src: p.Comment, bits: bitwise(p), typ: p.Type(), entry: le.entryPhi[p], get: func(st *State, ph map[*ssa.Phi]Value) Value { return ph[p] }})
	}
	var ids []int
	for id := range st.cells {
		if _, f := st.fwd[id]; f {
			continue
		}
		if _, f := st.fwdArr[id]; f {
			continue
		}
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		id := id
		if x.cellT[id] == nil {
			// visited set of an iterator of this loop
			if vis, ok := st.cells[id].(*Term); ok && strings.HasPrefix(vis.sort, "(Array") && x.iterInLoop(id, info.desc, fr) {
				out = append(out, slot{name: fmt.Sprintf("vis%d", id), vis: keySort(vis.sort), entry: vis, get: func(st *State, ph map[*ssa.Phi]Value) Value { return st.cells[id] }})
			}
			continue
		}
		if !info.wCells[id] {
			continue
		}
		out = append(out, slot{name: fmt.Sprintf("cell%d", id), typ: x.cellT[id], entry: le.entry.cells[id], get: func(st *State, ph map[*ssa.Phi]Value) Value {
			s2 := st.resolve(PtrV{kind: pCell, cell: id, root: x.cellT[id]})
			return x.load(st, s2)
		}})
	}
	return out
}

// outerSlots: references computed before the loop and used in it.
func (x *Exec) outerSlots(fr *Frame, ld *loopDesc) []slot {
	var out []slot
	seen := map[ssa.Value]bool{}
	var blocks []*ssa.BasicBlock
	for b := range ld.body {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	for _, b := range blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if op == nil || *op == nil || seen[*op] {
					continue
				}
				v := *op
				def, ok := v.(ssa.Instruction)
				if !ok || ld.body[def.Block()] {
					continue
				}
				seen[v] = true
				ev := fr.env[v]
				if ev == nil {
					continue
				}
				switch t := v.Type().Underlying().(type) {
				case *types.Map:
				case *types.Pointer:
					if _, isTerm := ev.(*Term); !isTerm {
						if p, ok := ev.(PtrV); !ok || p.kind == pCell {
							continue
						}
					}
					_ = t
				case *types.Slice:
				default:
					continue
				}
				out = append(out, slot{name: v.Name(), typ: v.Type(), entry: ev, get: func(st *State, ph map[*ssa.Phi]Value) Value { return ev }})
			}
		}
	}
	return out
}

func (x *Exec) iterInLoop(id int, ld *loopDesc, fr *Frame) bool {
	for b := range ld.body {
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok {
				if it, ok := fr.env[n.Iter].(IterV); ok && it.cell == id {
					return true
				}
			}
		}
	}
	return false
}

func (x *Exec) candidates(st *State, fr *Frame, info *loopInfo, le *loopEntry, phis map[*ssa.Phi]Value) []candInst {
	c := x.c
	var list []candInst
	add := func(name string, f func(st *State, phis map[*ssa.Phi]Value) *Term) {
		full := funcName(info.desc.header.Parent()) + "@" + fmt.Sprint(info.desc.header.Index) + ":" + name
		cd := info.cands[full]
		if cd == nil {
			cd = &cand{name: full, alive: true, info: info}
			info.cands[full] = cd
			info.order = append(info.order, full)
		}
		for _, o := range list {
			if o.c == cd {
				return
			}
		}
		list = append(list, candInst{cd, f})
	}
	add("alloc=entry", func(st *State, ph map[*ssa.Phi]Value) *Term { return c.Eq(st.alloc, le.entry.alloc) })
	sl := x.slots(st, fr, info, le)
	isInt := func(s slot) bool { return s.typ != nil && isInteger(s.typ) && !s.bits }
	isSlice := func(s slot) bool {
		if s.typ == nil {
			return false
		}
		_, ok := s.typ.Underlying().(*types.Slice)
		return ok
	}
	var ints, slices []slot
	for _, s := range sl {
		if isInt(s) {
			ints = append(ints, s)
		} else if isSlice(s) {
			slices = append(slices, s)
		}
	}
	// integers
	bounds := x.loopBounds(st, fr, info)
	for _, s := range ints {
		s := s
		e := s.entry.(*Term)
		add(s.name+">=entry", func(st *State, ph map[*ssa.Phi]Value) *Term { return c.Le(e, s.get(st, ph).(*Term)) })
		add(s.name+"<=entry", func(st *State, ph map[*ssa.Phi]Value) *Term { return c.Le(s.get(st, ph).(*Term), e) })
		for k := int64(-1); k <= 0; k++ {
			k := k
			add(fmt.Sprintf("%s>=%d", s.name, k), func(st *State, ph map[*ssa.Phi]Value) *Term { return c.Le(c.Int(k), s.get(st, ph).(*Term)) })
		}
		for _, b := range bounds {
			b := b
			add(s.name+"<="+b.name, func(st *State, ph map[*ssa.Phi]Value) *Term { return c.Le(s.get(st, ph).(*Term), b.get(st)) })
			add(s.name+"<"+b.name, func(st *State, ph map[*ssa.Phi]Value) *Term { return c.Lt(s.get(st, ph).(*Term), b.get(st)) })
		}
	}
	for i, a := range ints {
		for j, b := range ints {
			if i == j {
				continue
			}
			a, b := a, b
			ea, eb := a.entry.(*Term), b.entry.(*Term)
			add(a.name+"<="+b.name, func(st *State, ph map[*ssa.Phi]Value) *Term {
				return c.Le(a.get(st, ph).(*Term), b.get(st, ph).(*Term))
			})
			if i < j {
				add(a.name+"-"+b.name+"=const", func(st *State, ph map[*ssa.Phi]Value) *Term {
					return c.Eq(c.Sub(a.get(st, ph).(*Term), b.get(st, ph).(*Term)), c.Sub(ea, eb))
				})
			} else {
				add(a.name+"<="+b.name+"+1", func(st *State, ph map[*ssa.Phi]Value) *Term {
					return c.Le(a.get(st, ph).(*Term), c.Add(c.Int(1), b.get(st, ph).(*Term)))
				})
			}
		}
	}
	for _, s := range slices {
		s := s
		e, ok := s.entry.(SliceV)
		if !ok {
			continue
		}
		get := func(st *State, ph map[*ssa.Phi]Value) SliceV { return s.get(st, ph).(SliceV) }
		add(s.name+".arr-same-or-fresh", func(st *State, ph map[*ssa.Phi]Value) *Term {
			v := get(st, ph)
			return c.Or(c.Eq(v.arr, e.arr), c.Le(le.entry.alloc, v.arr))
		})
		add(s.name+".arr-fresh", func(st *State, ph map[*ssa.Phi]Value) *Term {
			return c.Le(c.alloc0, get(st, ph).arr)
		})
		add(s.name+".off-entry", func(st *State, ph map[*ssa.Phi]Value) *Term { return c.Eq(get(st, ph).off, e.off) })
		add(s.name+".arr-entry", func(st *State, ph map[*ssa.Phi]Value) *Term { return c.Eq(get(st, ph).arr, e.arr) })
		add(s.name+".len-entry", func(st *State, ph map[*ssa.Phi]Value) *Term { return c.Eq(get(st, ph).len, e.len) })
		add(s.name+".cap-entry", func(st *State, ph map[*ssa.Phi]Value) *Term { return c.Eq(get(st, ph).cap, e.cap) })
		add(s.name+".len>=entry", func(st *State, ph map[*ssa.Phi]Value) *Term { return c.Le(e.len, get(st, ph).len) })
		for _, b := range bounds {
			b := b
			add(s.name+".len<="+b.name, func(st *State, ph map[*ssa.Phi]Value) *Term { return c.Le(get(st, ph).len, b.get(st)) })
		}
		for _, i := range ints {
			i := i
			ei := i.entry.(*Term)
			add(s.name+".len-"+i.name+"=const", func(st *State, ph map[*ssa.Phi]Value) *Term {
				return c.Eq(c.Sub(get(st, ph).len, i.get(st, ph).(*Term)), c.Sub(e.len, ei))
			})
			add(s.name+".len<="+i.name+"+const", func(st *State, ph map[*ssa.Phi]Value) *Term {
				return c.Le(c.Sub(get(st, ph).len, i.get(st, ph).(*Term)), c.Sub(e.len, ei))
			})
		}
		// the elements the slice had on entry are still there
		et := s.typ.Underlying().(*types.Slice).Elem()
		for li := range x.leaves(et) {
			li := li
			add(fmt.Sprintf("%s.prefix%d", s.name, li), func(st *State, ph map[*ssa.Phi]Value) *Term {
				v := get(st, ph)
				now := x.elems(st, et, v.arr, li)
				was := x.elems(le.entry, et, e.arr, li)
				if now == was && v.off == e.off {
					return c.True()
				}
				k := c.FreshVar("k", SInt)
				return c.Forall([]*Term{k}, c.Implies(c.And(c.Le(e.off, k), c.Lt(k, c.Add(e.off, e.len))), c.Eq(c.Select(now, c.Add(k, c.Sub(v.off, e.off))), c.Select(was, k))))
			})
		}
	}
	// values that do not change at all
	for _, s := range sl {
		s := s
		if s.typ == nil {
			continue
		}
		switch e := s.entry.(type) {
		case *Term:
			if !isInteger(s.typ) {
				add(s.name+"=entry", func(st *State, ph map[*ssa.Phi]Value) *Term { return c.Eq(s.get(st, ph).(*Term), e) })
			}
		case IfaceV:
			add(s.name+"=entry", func(st *State, ph map[*ssa.Phi]Value) *Term {
				v := s.get(st, ph).(IfaceV)
				x.box(st, &v)
				return c.And(c.Eq(v.tag, e.tag), c.Eq(v.data, e.data))
			})
		case PtrV:
			if e.kind == pRef && len(e.path) == 0 {
				add(s.name+"=entry", func(st *State, ph map[*ssa.Phi]Value) *Term {
					return c.Eq(x.ptrTerm(st, s.get(st, ph).(PtrV)), e.ref)
				})
				add(s.name+"!=nil", func(st *State, ph map[*ssa.Phi]Value) *Term {
					return c.Ne(x.ptrTerm(st, s.get(st, ph).(PtrV)), c.Int(0))
				})
			}
		}
	}
	x.frameCands(st, fr, info, le, add)
	x.templateCands(st, fr, info, le, append(append([]slot{}, sl...), x.outerSlots(fr, info.desc)...), add)
	return list
}

type bound struct {
	name string
	get  func(st *State) *Term
}

// loopBounds finds loop-invariant integers the loop compares against.
func (x *Exec) loopBounds(st *State, fr *Frame, info *loopInfo) []bound {
	var out []bound
	seen := map[string]bool{}
	add := func(name string, t *Term) {
		if seen[name] {
			return
		}
		seen[name] = true
		out = append(out, bound{name, func(*State) *Term { return t }})
	}
	inv := func(v ssa.Value) (Value, bool) {
		if cst, ok := v.(*ssa.Const); ok {
			return x.constVal(cst), true
		}
		in, ok := v.(ssa.Instruction)
		if ok && info.desc.body[in.Block()] {
			return nil, false
		}
		r, ok := fr.env[v]
		return r, ok
	}
	var blocks []*ssa.BasicBlock
	for b := range info.desc.body {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	for _, b := range blocks {
		for _, in := range b.Instrs {
			bo, ok := in.(*ssa.BinOp)
			if !ok {
				continue
			}
			switch bo.Op {
			case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
			default:
				continue
			}
			if !isInteger(bo.X.Type()) {
				continue
			}
			if bt, ok := bo.X.Type().Underlying().(*types.Basic); ok && (bt.Kind() == types.Uint8 || bt.Kind() == types.Int32) {
				continue // characters
			}
			for _, op := range []ssa.Value{bo.X, bo.Y} {
				if v, ok := inv(op); ok {
					if t, ok := v.(*Term); ok {
						add(fmt.Sprintf("%s", boundName(op)), t)
					}
				} else if cl, ok := op.(*ssa.Call); ok {
					if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
						if v, ok := inv(cl.Call.Args[0]); ok {
							switch s := v.(type) {
							case SliceV:
								add("len("+boundName(cl.Call.Args[0])+")", s.len)
							case *Term:
								if s.sort == SStr {
									add("len("+boundName(cl.Call.Args[0])+")", x.strLen(s))
								}
							}
						}
					}
				}
			}
		}
	}
	// lengths of slices and strings defined before the loop
	for v, r := range fr.env {
		if in, ok := v.(ssa.Instruction); ok && info.desc.body[in.Block()] {
			continue
		}
		if len(out) > 12 {
			break
		}
		switch s := r.(type) {
		case SliceV:
			if _, isParam := v.(*ssa.Parameter); isParam {
				add("len("+v.Name()+")", s.len)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func boundName(v ssa.Value) string {
	if c, ok := v.(*ssa.Const); ok {
		return c.Value.ExactString()
	}
	return v.Name()
}

// frameCands: what the loop has not changed.
func (x *Exec) frameCands(st *State, fr *Frame, info *loopInfo, le *loopEntry, add func(string, func(*State, map[*ssa.Phi]Value) *Term)) {
	c := x.c
	// references in scope
	type nref struct {
		t *Term
		n string
	}
	var refs []nref
	seen := map[*Term]bool{}
	note := func(n string, t *Term) {
		if !seen[t] && t != nil {
			seen[t] = true
			refs = append(refs, nref{t, n})
		}
	}
	for v, r := range fr.env {
		if in, ok := v.(ssa.Instruction); ok && info.desc.body[in.Block()] {
			continue
		}
		switch s := r.(type) {
		case SliceV:
			note(v.Name(), s.arr)
		case PtrV:
			s = st.resolve(s)
			if s.kind == pRef {
				note(v.Name(), s.ref)
			} else if s.kind == pElem {
				note(v.Name(), s.arr)
			}
		case *Term:
			switch v.Type().Underlying().(type) {
			case *types.Map, *types.Chan:
				note(v.Name(), s)
			}
		}
	}
	for p, r := range le.entryPhi {
		switch s := r.(type) {
		case SliceV:
			note(p.Name(), s.arr)
		case PtrV:
			if s.kind == pRef {
				note(p.Name(), s.ref)
			}
		}
	}
	for _, m := range x.targetMods {
		switch m.k {
		case 'p':
			q := st.resolve(m.p)
			if q.kind == pRef {
				note("mod", q.ref)
			}
		case 's':
			note("mod", m.sl.arr)
		case 'm':
			note("mod", m.m)
		}
	}
	sort.Slice(refs, func(i, j int) bool { return refs[i].t.id < refs[j].t.id })
	for _, k := range sortedStr(info.wHeap) {
		k := k
		srt := info.wHeap[k]
		cur := func(st *State) *Term { return st.get(k, srt) }
		was := le.entry.get(k, srt)
		pre, preAlloc := was, c.alloc0
		if x.preState != nil {
			pre, preAlloc = x.preState.get(k, srt), x.preState.alloc
		}
		frame := func(limit *Term, base *Term, except []*Term) func(*State, map[*ssa.Phi]Value) *Term {
			return func(st *State, ph map[*ssa.Phi]Value) *Term {
				now := cur(st)
				if now == base {
					return c.True()
				}
				r := c.FreshVar("r", SInt)
				cs := []*Term{c.Lt(r, limit)}
				for _, e := range except {
					cs = append(cs, c.Ne(r, e))
				}
				return c.Forall([]*Term{r}, c.Implies(c.And(cs...), c.Eq(c.Select(now, r), c.Select(base, r))), c.Select(now, r))
			}
		}
		add("frame-old|"+k, frame(le.entry.alloc, was, nil))
		add("frame-initial|"+k, frame(preAlloc, pre, nil))
		var mods []*Term
		for _, m := range x.targetMods {
			if t := x.modRef(st, m, k); t != nil {
				mods = append(mods, t)
			}
		}
		if len(mods) > 0 {
			add("frame-modifies|"+k, frame(le.entry.alloc, was, mods))
			add("frame-initial-modifies|"+k, frame(preAlloc, pre, mods))
		}
		for mi, m := range x.targetMods {
			if m.k != 's' || x.modRef(st, m, k) == nil {
				continue
			}
			sl := m.sl
			for bi, base := range []*Term{was, pre} {
				base := base
				if bi == 1 && pre == was {
					continue
				}
				add(fmt.Sprintf("frame-range%d.%d|%s", mi, bi, k), func(st *State, ph map[*ssa.Phi]Value) *Term {
					now := cur(st)
					if now == base {
						return c.True()
					}
					i := c.FreshVar("i", SInt)
					out := c.Or(c.Lt(i, sl.off), c.Le(c.Add(sl.off, sl.cap), i))
					a := c.Select(c.Select(now, sl.arr), i)
					return c.Forall([]*Term{i}, c.Implies(out, c.Eq(a, c.Select(c.Select(base, sl.arr), i))), a)
				})
			}
		}
		var all []*Term
		for _, r := range refs {
			all = append(all, r.t)
		}
		if len(all) > 0 {
			add("frame-scope|"+k, frame(le.entry.alloc, was, all))
			if len(all) <= 8 {
				for _, r := range refs {
					r := r
					add("same|"+r.n+"|"+k, func(st *State, ph map[*ssa.Phi]Value) *Term {
						return c.Eq(c.Select(cur(st), r.t), c.Select(was, r.t))
					})
				}
			}
		}
	}
}

// modRef gives the reference a modifies clause allows to change in heap k.
func (x *Exec) modRef(st *State, m modLoc, k string) *Term {
	switch m.k {
	case 'p':
		q := st.resolve(m.p)
		if q.kind != pRef {
			return nil
		}
		if strings.HasPrefix(k, "F|"+x.typeKey(q.root)+"|") {
			return q.ref
		}
	case 's':
		if strings.HasPrefix(k, "E|"+x.typeKey(m.et)+"|") {
			return m.sl.arr
		}
	case 'm':
		n := x.typeKey(m.mt.Key()) + "|" + x.typeKey(m.mt.Elem())
		if k == "MD|"+n || k == "ML|"+n || strings.HasPrefix(k, "MV|"+n+"|") {
			return m.m
		}
	}
	return nil
}

// templateCands instantiates the contract's LoopInv templates.
func (x *Exec) templateCands(st *State, fr *Frame, info *loopInfo, le *loopEntry, sl []slot, add func(string, func(*State, map[*ssa.Phi]Value) *Term)) {
	c := x.c
	type hole struct {
		name string
		get  func(st *State, ph map[*ssa.Phi]Value) Value
	}
	for ti, tm := range x.templates {
		tm := tm
		sig := tm.fn.Signature
		var opts [][]hole
		okAll := true
		for i := 0; i < sig.Params().Len(); i++ {
			pt := sig.Params().At(i).Type()
			var hs []hole
			exact, pinned := false, false
			for _, s := range sl {
				if s.vis == "" && types.Identical(pt, s.typ) {
					exact = true
				}
			}
			for _, s := range sl {
				s := s
				if s.vis != "" {
					if fs, ok := pt.Underlying().(*types.Signature); ok && fs.Params().Len() == 1 && x.leaves(fs.Params().At(0).Type())[0] == s.vis {
						hs = append(hs, hole{s.name, func(st *State, ph map[*ssa.Phi]Value) Value { return FuncV{vis: s.get(st, ph).(*Term)} }})
					}
					continue
				}
				if !types.Identical(pt, s.typ) && (exact || !types.Identical(pt.Underlying(), s.typ.Underlying())) {
					continue
				}
				if sig.Params().At(i).Name() == s.src {
					// the template names the variable
					hs, pinned = []hole{{s.name, s.get}}, true
					break
				}
				hs = append(hs, hole{s.name, s.get})
				if _, named := pt.(*types.Named); isInteger(pt) && !named {
					hs = append(hs, hole{s.name + "+1", func(st *State, ph map[*ssa.Phi]Value) Value {
						return c.Add(s.get(st, ph).(*Term), c.Int(1))
					}})
				}
			}
			if pt := sig.Params().At(i).Type(); !pinned && isInteger(pt) && sig.Params().At(i).Name() == "k" {
				// k counts the finished iterations of a range loop
				for _, s := range sl {
					if s.src == "rangeindex" && types.Identical(pt, s.typ) {
						for _, h := range hs {
							if h.name == s.name+"+1" {
								hs = []hole{h}
								break
							}
						}
						break
					}
				}
			}
			if len(hs) == 0 {
				okAll = false
				break
			}
			opts = append(opts, hs)
		}
		if !okAll {
			continue
		}
		n := 1
		for _, o := range opts {
			n *= len(o)
		}
		if n > 400 {
			continue
		}
		idx := make([]int, len(opts))
		for {
			hs := make([]hole, len(opts))
			nm := fmt.Sprintf("template%d", ti)
			dup := false
			for i := range opts {
				hs[i] = opts[i][idx[i]]
				nm += "," + hs[i].name
				for j := 0; j < i; j++ {
					if hs[j].name == hs[i].name {
						dup = true
					}
				}
			}
			if !dup {
				add(nm, func(st *State, ph map[*ssa.Phi]Value) *Term {
					var args []Value
					for _, h := range hs {
						args = append(args, h.get(st, ph))
					}
					return x.evalSpec(st, tm, args, "template").(*Term)
				})
			}
			i := 0
			for ; i < len(idx); i++ {
				idx[i]++
				if idx[i] < len(opts[i]) {
					break
				}
				idx[i] = 0
			}
			if i == len(idx) {
				break
			}
		}
	}
}
