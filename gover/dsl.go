package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ifaceArgs recovers the typed values behind a variadic interface{} argument.
func (x *Exec) ifaceArgs(st *State, fr *Frame, v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		unsupported("contract arguments must be written inline")
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, rr := range *ia.Referrers() {
			if s, ok := rr.(*ssa.Store); ok {
				if mi, ok := s.Val.(*ssa.MakeInterface); ok {
					out = append(out, mi.X)
				} else {
					out = append(out, s.Val)
				}
			}
		}
	}
	return out
}

func under(v ssa.Value) ssa.Value {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		return mi.X
	}
	return v
}

func (x *Exec) pre(st *State, fr *Frame) *State {
	if fr.prest != nil {
		return fr.prest
	}
	if st.usePre != nil {
		return st.usePre
	}
	return x.preState
}

func (x *Exec) dsl(st *State, fr *Frame, cc *ssa.CallCommon, name string, fn *ssa.Function, args []Value, key string, pos token.Pos) []Outcome {
	c := x.c
	one := func(v Value) []Outcome { return []Outcome{{st, v}} }
	switch name {
	case "Requires":
		b := args[0].(*Term)
		if fr.mode == modeUse {
			o := &Obligation{kind: "precondition", name: x.ct.ID + "/precondition:" + fr.ct.Name, facts: st.facts(), goal: b, pos: x.p.fset.Position(x.callPos).String()}
			if !b.isTrue() {
				if c.noFresh > 0 && b.open {
					unsupported("precondition of %s under a quantifier", fr.ct.Name)
				}
				x.obls = append(x.obls, o)
			}
			st.fact(b)
			return one(nil)
		}
		if !st.cond(b) {
			return nil
		}
		return one(nil)
	case "Assume":
		if !fr.ct.Trusted {
			unsupported("Assume in a contract that is not trusted")
		}
		st.fact(args[0].(*Term))
		return one(nil)
	case "Ensures":
		b := args[1].(*Term)
		if fr.mode == modeUse {
			st.fact(b)
			return one(nil)
		}
		nm := args[0].(*Term)
		if !fr.called && !fr.ct.Lemma {
			unsupported("Ensures before the call in %s", fr.ct.ID)
		}
		x.oblige(st, "ensures", nm.name, b, pos)
		x.ensured[nm.name]++
		return one(nil)
	case "Symbolic":
		return one(c.True())
	case "Implies":
		return one(c.Implies(args[0].(*Term), args[1].(*Term)))
	case "Snap":
		t := fn.Signature.Params().At(0).Type()
		switch u := t.Underlying().(type) {
		case *types.Slice:
			s := args[0].(SliceV)
			x.nsnap++
			r := c.Int(int64(-5000000 - x.nsnap))
			var l []*Term
			for i := range x.leaves(u.Elem()) {
				l = append(l, x.elems(st, u.Elem(), s.arr, i))
			}
			nilp := c.Eq(s.arr, c.Int(0))
			arr := c.Ite(nilp, c.Int(0), r)
			x.snapArr[r] = l
			if !arr.isInt() {
				x.snapArr[arr] = l
			}
			return one(SliceV{arr, s.off, s.len, s.len})
		case *types.Map:
			m := args[0].(*Term)
			dom, ln, vk, ks := x.mkeys(u)
			x.nsnap++
			r := c.Int(int64(-5000000 - x.nsnap))
			sm := &snapM{}
			if o := x.snapMap[m]; o != nil {
				*sm = *o
			} else {
				sm.dom = c.Select(st.get(dom, arrSort(SInt, arrSort(ks, SBool))), m)
				sm.ln = c.Select(st.get(ln, arrSort(SInt, SInt)), m)
				for i, s := range x.leaves(u.Elem()) {
					sm.vals = append(sm.vals, c.Select(st.get(vk[i], arrSort(SInt, arrSort(ks, s))), m))
				}
			}
			nilp := c.Eq(m, c.Int(0))
			arr := c.Ite(nilp, c.Int(0), r)
			x.snapMap[r] = sm
			if !arr.isInt() {
				x.snapMap[arr] = sm
			}
			return one(arr)
		}
		return one(args[0])
	case "Collect":
		// a private slice of the values a function has now
		n, f := args[0].(*Term), args[1].(FuncV)
		et := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
		i := c.FreshVar("i", SInt)
		x.noFacts++
		x.c.noFresh++
		vals := x.toLeaves(st, et, x.evalSpec(st, f, []Value{i}, key))
		x.noFacts--
		x.c.noFresh--
		x.nsnap++
		r := c.Int(int64(-5000000 - x.nsnap))
		var l, eqs []*Term
		for k, srt := range x.leaves(et) {
			a := c.Fresh("collect", arrSort(SInt, srt))
			l = append(l, a)
			eqs = append(eqs, c.Forall([]*Term{i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, n)), c.Eq(c.Select(a, i), vals[k])), c.Select(a, i)))
		}
		for _, e := range eqs {
			st.fact(e)
		}
		x.snapArr[r] = l
		return one(SliceV{r, c.Int(0), n, n})
	case "Forall", "Exists":
		lo, hi := args[0].(*Term), args[1].(*Term)
		f := args[2].(FuncV)
		if lo.isInt() && hi.isInt() && hi.val.Int64()-lo.val.Int64() <= 12 {
			var ts []*Term
			for i := lo.val.Int64(); i < hi.val.Int64(); i++ {
				ts = append(ts, x.evalSpec(st, f, []Value{c.Int(i)}, key).(*Term))
			}
			if name == "Forall" {
				return one(c.And(ts...))
			}
			return one(c.Or(ts...))
		}
		i := c.FreshVar("i", SInt)
		body := x.underBinder(st, f, []Value{i}, key)
		rng := c.And(c.Le(lo, i), c.Lt(i, hi))
		if name == "Forall" {
			return one(x.shiftQuant("forall", i, c.Implies(rng, body)))
		}
		return one(x.shiftQuant("exists", i, c.And(rng, body)))
	case "ForallKeys", "ExistsKey":
		mt := fn.Signature.Params().At(0).Type().Underlying().(*types.Map)
		m := args[0].(*Term)
		f := args[1].(FuncV)
		_, _, _, ks := x.mkeys(mt)
		k := c.FreshVar("k", ks)
		has := x.mapHas(st, mt, m, k)
		body := x.underBinder(st, f, []Value{x.keyValue(mt, k)}, key)
		if name == "ForallKeys" {
			return one(c.Forall([]*Term{k}, c.Implies(has, body)))
		}
		return one(c.Exists([]*Term{k}, c.And(has, body)))
	case "ForallObjs", "NewObjs", "ObjsUnchangedOr":
		pt := fn.Signature.Params().At(0).Type().Underlying().(*types.Signature).Params().At(0).Type()
		et := pt.Underlying().(*types.Pointer).Elem()
		x.trackObjs(et)
		pre := x.pre(st, fr)
		r := c.FreshVar("o", SInt)
		p := PtrV{kind: pRef, ref: r, root: et}
		st.nonnil[r] = true
		body := x.underBinder(st, args[0].(FuncV), []Value{p}, key)
		delete(st.nonnil, r)
		rng := c.And(c.Ne(c.Int(0), r), c.Lt(r, st.alloc))
		if name != "ForallObjs" {
			if pre == nil {
				unsupported("%s outside a postcondition", name)
			}
			if name == "NewObjs" {
				rng = c.And(c.Le(pre.alloc, r), c.Lt(r, st.alloc))
			} else {
				rng = c.And(c.Ne(c.Int(0), r), c.Lt(r, pre.alloc))
				var eqs []*Term
				for i, s := range x.leaves(et) {
					k, srt := x.fkey(et, i), arrSort(SInt, s)
					if a, b := st.get(k, srt), pre.get(k, srt); a != b {
						eqs = append(eqs, c.Eq(c.Select(a, r), c.Select(b, r)))
					}
				}
				body = c.Or(c.And(eqs...), body)
			}
		}
		var pats []*Term
		for _, t := range collect([]*Term{body}) {
			if t.op == "select" && t.args[1] == r && !t.args[0].open && len(pats) < 16 {
				pats = append(pats, t)
			}
		}
		return one(c.Forall([]*Term{r}, c.Implies(rng, body), pats...))
	case "Count":
		return one(x.count(st, args[0].(*Term), args[1].(*Term), args[2].(FuncV), key))
	case "Modifies":
		for _, v := range x.ifaceArgs(st, fr, cc.Args[0]) {
			val := x.val(st, fr, v)
			switch u := v.Type().Underlying().(type) {
			case *types.Pointer:
				fr.mods = append(fr.mods, modLoc{k: 'p', p: val.(PtrV)})
			case *types.Slice:
				fr.mods = append(fr.mods, modLoc{k: 's', sl: val.(SliceV), et: u.Elem()})
			case *types.Map:
				fr.mods = append(fr.mods, modLoc{k: 'm', m: val.(*Term), mt: u})
			default:
				unsupported("Modifies %s", v.Type())
			}
		}
		return one(nil)
	case "ModifiesElems":
		fr.mods = append(fr.mods, modLoc{k: 'E', et: under(cc.Args[0]).Type().Underlying().(*types.Slice).Elem()})
		return one(nil)
	case "ModifiesType":
		if mt, ok := under(cc.Args[0]).Type().Underlying().(*types.Map); ok {
			fr.mods = append(fr.mods, modLoc{k: 'M', mt: mt})
			return one(nil)
		}
		fr.mods = append(fr.mods, modLoc{k: 'T', et: under(cc.Args[0]).Type().Underlying().(*types.Pointer).Elem()})
		return one(nil)
	case "SameMap":
		return one(c.Eq(x.val(st, fr, under(cc.Args[0])).(*Term), x.val(st, fr, under(cc.Args[1])).(*Term)))
	case "ModifiesAll":
		fr.allMods = true
		return one(nil)
	case "Pure":
		fr.pure = true
		return one(nil)
	case "NoNewReferences":
		fr.noNew = true
		return one(nil)
	case "Deterministic":
		fr.determ = true
		return one(nil)
	case "LoopInv":
		if fr.mode == modeVerify {
			x.templates = append(x.templates, x.val(st, fr, under(cc.Args[0])).(FuncV))
		}
		return one(nil)
	case "PanicsIff":
		b := args[0].(*Term)
		if fr.mode == modeUse {
			x.implicit(st, &Frame{fn: fr.ct.Fn, mode: modeCode}, "no-panic", c.Not(b), pos)
			st.fact(c.Not(b))
			return one(nil)
		}
		fr.panics = b
		return one(nil)
	case "MayPanic":
		if fr.mode == modeUse {
			if x.curPanics == nil || !x.curPanics.maypan {
				x.oblige(st, "no-panic", "call of "+fr.ct.Name+" which may panic", c.False(), pos)
			}
			return one(nil)
		}
		fr.maypan = true
		return one(nil)
	case "Fresh":
		v := under(cc.Args[0])
		pre := x.pre(st, fr)
		if pre == nil {
			unsupported("Fresh before the call")
		}
		var r *Term
		switch w := x.val(st, fr, v).(type) {
		case SliceV:
			return one(c.Or(c.Eq(w.cap, c.Int(0)), c.Le(pre.alloc, w.arr)))
		case PtrV:
			q := st.resolve(w)
			if q.kind == pCell {
				_, had := pre.cells[q.cell]
				return one(c.Bool(!had))
			}
			r = q.ref
		case *Term:
			r = w
		default:
			unsupported("Fresh of %T", w)
		}
		return one(c.Le(pre.alloc, r))
	case "Identical":
		l, r := x.val(st, fr, under(cc.Args[0])).(*Term), x.val(st, fr, under(cc.Args[1])).(*Term)
		return ret(st, c.Or(c.Eq(l, r), c.And(x.fltIs(st, "nan", l), x.fltIs(st, "nan", r))))
	case "SameArray":
		a, b := x.val(st, fr, under(cc.Args[0])).(SliceV), x.val(st, fr, under(cc.Args[1])).(SliceV)
		return one(c.And(c.Eq(a.arr, b.arr), c.Eq(a.off, b.off)))
	case "DisjointArrays":
		a, b := x.val(st, fr, under(cc.Args[0])).(SliceV), x.val(st, fr, under(cc.Args[1])).(SliceV)
		// a slice without capacity has no length either
		none := func(s SliceV) *Term { return c.And(c.Eq(s.cap, c.Int(0)), c.Eq(s.len, c.Int(0))) }
		return one(c.Or(none(a), none(b), c.Ne(a.arr, b.arr)))
	case "Unlocked":
		return one(c.Eq(x.load(st, args[0].(PtrV)).(*Term), c.Int(0)))
	}
	unsupported("contract primitive %s", name)
	return nil
}

// trackObjs: the contract speaks about all objects of type et.
func (x *Exec) trackObjs(et types.Type) {
	k := x.typeKey(et)
	if x.objTypes == nil {
		x.objTypes = map[string]types.Type{}
	}
	if x.objTypes[k] == nil {
		x.objTypes[k] = et
		x.objKeys = append(x.objKeys, k)
		x.wDirty = true
	}
}

func (x *Exec) underBinder(st *State, f FuncV, args []Value, key string) *Term {
	x.noFacts++
	x.c.noFresh++
	defer func() { x.noFacts--; x.c.noFresh-- }()
	return x.evalSpec(st, f, args, key).(*Term)
}

// shiftQuant renames the bound variable so that array reads are indexed by the
// variable itself (solvers match on select(a, i), not on select(a, i+k)).
func (x *Exec) shiftQuant(q string, v *Term, body *Term) *Term {
	c := x.c
	count := map[*Term]int{}
	seen := map[*Term]bool{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if !t.open || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "select" && t.args[1].sort == SInt && t.args[1].open {
			l := c.linOf(t.args[1])
			if f, ok := l.co[v]; ok && f.IsInt64() && f.Int64() == 1 {
				k := c.Sub(t.args[1], v)
				fv := map[*Term]bool{}
				c.freeVars(k, fv, map[*Term]bool{})
				if !fv[v] {
					if count[k] == 0 {
						order = append(order, k)
					}
					count[k]++
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	var best *Term
	for _, k := range order {
		if c.isIntVal(k, 0) {
			best = nil
			break
		}
		if best == nil || count[k] > count[best] {
			best = k
		}
	}
	if len(order) > 0 && best != nil {
		zero := false
		for _, k := range order {
			if c.isIntVal(k, 0) {
				zero = true
			}
		}
		if !zero {
			w := c.FreshVar("j", SInt)
			body = c.Subst(body, map[*Term]*Term{v: c.Sub(w, best)})
			v = w
		}
	}
	if q == "forall" {
		// statements about counted positions are instantiated through the count
		var pat *Term
		for _, t := range collect([]*Term{body}) {
			if t.op == "uf:count" && t.args[2] == v && !t.args[0].open && !t.args[1].open {
				pat = t
			}
		}
		if pat != nil {
			return c.Forall([]*Term{v}, body, pat)
		}
		return c.Forall([]*Term{v}, body)
	}
	return c.Exists([]*Term{v}, body)
}

// count: number of indices in [lo,hi) satisfying f, via a characteristic array
// and the recursive definition of counting.
func (x *Exec) count(st *State, lo, hi *Term, f FuncV, key string) *Term {
	c := x.c
	i := c.FreshVar("i", SInt)
	// the predicate is read without the path's own conditions, so that every path
	// counts with the same function
	neutral := st.clone()
	neutral.log = nil
	body := x.underBinder(neutral, f, []Value{i}, key)
	if body.open == false {
		return c.Ite(body, c.Ite(c.Le(lo, hi), c.Sub(hi, lo), c.Int(0)), c.Int(0))
	}
	norm := c.Subst(body, map[*Term]*Term{i: c.Var("cnt_i", SInt)})
	b, ok := x.cntArr[norm]
	if !ok {
		fv := map[*Term]bool{}
		c.freeVars(norm, fv, map[*Term]bool{})
		if len(fv) > 1 {
			unsupported("counting under a quantifier")
		}
		b = c.Sym(fmt.Sprintf("charfn!%d", norm.id), arrSort(SInt, SBool))
		x.cntArr[norm] = b
	}
	cnt := func(l, h *Term) *Term { return c.UF("count", SInt, b, l, h) }
	if x.cntAx[b] == nil {
		l, h, g := c.FreshVar("l", SInt), c.FreshVar("h", SInt), c.FreshVar("g", SInt)
		// consequences of the recursive definition; the step itself is unfolded at
		// ground terms only, so that instantiation terminates
		x.cntAx[b] = []*Term{
			c.Forall([]*Term{i}, c.Eq(c.Select(b, i), body), c.Select(b, i)),
			c.Forall([]*Term{l, h}, c.And(
				c.Implies(c.Le(h, l), c.Eq(cnt(l, h), c.Int(0))),
				c.Implies(c.Le(l, h), c.Le(cnt(l, h), c.Sub(h, l))),
				c.Le(c.Int(0), cnt(l, h))), cnt(l, h)),
			c.Forall([]*Term{l, h, g}, c.Implies(c.And(c.Le(l, h), c.Le(h, g)),
				c.Le(c.Add(cnt(l, h), c.Ite(c.And(c.Lt(h, g), c.Select(b, h)), c.Int(1), c.Int(0))), cnt(l, g))), cnt(l, h), cnt(l, g)),
		}
	}
	for _, f := range x.cntAx[b] {
		st.fact(f)
	}
	step := func(lo, hi *Term) {
		if lo.open || hi.open {
			return
		}
		st.fact(c.Implies(c.Le(lo, hi), c.Eq(cnt(lo, c.Add(hi, c.Int(1))), c.Add(cnt(lo, hi), c.Ite(c.Select(b, hi), c.Int(1), c.Int(0))))))
	}
	step(lo, hi)
	step(lo, c.Sub(hi, c.Int(1)))
	return cnt(lo, hi)
}
