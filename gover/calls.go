package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callArgs evaluates callee and arguments of a call.
func (x *Exec) callArgs(st *State, fr *Frame, cc *ssa.CallCommon) (Value, []Value) {
	var args []Value
	fnv := x.val(st, fr, cc.Value)
	for _, a := range cc.Args {
		args = append(args, x.val(st, fr, a))
	}
	return fnv, args
}

func (x *Exec) callValue(st *State, fr *Frame, cc *ssa.CallCommon, fnv Value, args []Value, key string, pos token.Pos) []Outcome {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(st, fr, cc, b, args, pos)
	}
	if cc.IsInvoke() {
		return x.invoke(st, fr, cc, fnv.(IfaceV), args, key, pos)
	}
	f, ok := fnv.(FuncV)
	if !ok {
		unsupported("call of %T", fnv)
	}
	if f.vis != nil {
		return []Outcome{{st, x.c.Select(f.vis, args[0].(*Term))}}
	}
	if f.fn == nil {
		if f.ref == nil {
			f.ref = x.c.Int(0)
		}
		x.implicit(st, fr, "nil-func-call", x.c.Ne(f.ref, x.c.Int(0)), pos)
		return x.unknownCall(st, cc.Signature(), f.ref, args)
	}
	return x.callFunc(st, fr, cc, f.fn, f.bind, args, key, pos)
}

// unknownCall: a function value from outside; assumed to be a side-effect free
// function of its arguments (listed assumption).
func (x *Exec) unknownCall(st *State, sig *types.Signature, ref *Term, args []Value) []Outcome {
	x.usedModels["function values are side-effect free functions of their arguments"] = true
	ls := []*Term{ref}
	for i, a := range args {
		ls = append(ls, x.toLeaves(st, sig.Params().At(i).Type(), a)...)
	}
	return []Outcome{{st, x.ufResult(st, "call|"+sig.String(), sig, ls)}}
}

func (x *Exec) ufResult(st *State, name string, sig *types.Signature, ls []*Term) Value {
	var rs []Value
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		var l []*Term
		for k, s := range x.leaves(t) {
			l = append(l, x.c.UF(fmt.Sprintf("%s|r%d.%d", name, i, k), s, ls...))
		}
		v := x.fromLeaves(t, l)
		x.wf(st, t, v, st.alloc)
		rs = append(rs, v)
	}
	switch len(rs) {
	case 0:
		return nil
	case 1:
		return rs[0]
	}
	return TupleV(rs)
}

func (x *Exec) invoke(st *State, fr *Frame, cc *ssa.CallCommon, iv IfaceV, args []Value, key string, pos token.Pos) []Outcome {
	c := x.c
	x.implicit(st, fr, "nil-interface-call", c.Ne(iv.tag, c.Int(0)), pos)
	if iv.dyn != nil {
		if x.c.isIntVal(iv.tag, 0) {
			return nil
		}
		fn := x.p.prog.LookupMethod(iv.dyn, cc.Method.Pkg(), cc.Method.Name())
		if fn == nil {
			unsupported("method %s of %s", cc.Method.Name(), iv.dyn)
		}
		recv := iv.val
		if recv == nil {
			recv = x.unbox(st, iv.dyn, iv.data)
		}
		return x.callFunc(st, fr, cc, fn, nil, append([]Value{recv}, args...), key, pos)
	}
	name := types.TypeString(types.Unalias(cc.Value.Type()), nil) + "." + cc.Method.Name()
	if fr.mode == modeUse && fr.ct.Opts["iface"] != "" && x.p.byIface[name] == fr.ct && !fr.called {
		fr.called = true
		fr.prest = st.clone()
		st.usePre = fr.prest
		if fr.determ {
			x.box(st, &iv)
			ls := []*Term{iv.tag, iv.data}
			for i, a := range args {
				ls = append(ls, x.specLeaves(st, cc.Signature().Params().At(i).Type(), a)...)
			}
			fr.result = x.ufResult(st, "fn|"+fr.ct.ID, cc.Signature(), ls)
		} else {
			fr.result = x.havocEffects(st, fr, cc.Signature(), fr.ct.Name)
		}
		return []Outcome{{st, fr.result}}
	}
	if ct := x.p.byIface[name]; ct != nil {
		return x.useContract(st, fr, ct, append([]Value{iv}, args...), key, pos)
	}
	if m, ok := ifaceModels[cc.Method.Name()]; ok {
		x.usedModels["interface method "+cc.Method.Name()] = true
		return m(x, st, fr, cc, iv, args, pos)
	}
	unsupported("call of interface method %s in %s", name, fr.fn)
	return nil
}

func (x *Exec) unbox(st *State, t types.Type, data *Term) Value {
	if _, isP := t.Underlying().(*types.Pointer); isP {
		return x.fromLeaves(t, []*Term{data})
	}
	var l []*Term
	name := x.typeKey(t)
	for k, s := range x.leaves(t) {
		l = append(l, x.c.UF(fmt.Sprintf("unbox%d|%s", k, name), s, data))
	}
	r := x.fromLeaves(t, l)
	x.wf(st, t, r, st.alloc)
	return r
}

func inSpecFile(p *Program, fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Origin() != nil {
		f = f.Origin()
	}
	if !f.Pos().IsValid() {
		return false
	}
	n := p.fset.Position(f.Pos()).Filename
	return strings.Contains(n, "/zz_verif_")
}

func (x *Exec) hasLoops(fn *ssa.Function, depth int) bool {
	if len(x.p.loopsOf(fn)) > 0 {
		return true
	}
	if depth > 4 {
		return true
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if cl, ok := in.(*ssa.Call); ok {
				if f := cl.Call.StaticCallee(); f != nil && f.Pkg != nil && strings.HasPrefix(f.Pkg.Pkg.Path(), repoModule) && f.Pkg.Pkg.Path() != dslPkg && f.Blocks != nil {
					if f == fn || x.hasLoops(f, depth+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (x *Exec) callFunc(st *State, fr *Frame, cc *ssa.CallCommon, fn *ssa.Function, bind, args []Value, key string, pos token.Pos) []Outcome {
	origin := fn
	if fn.Origin() != nil {
		origin = fn.Origin()
	}
	if origin.Pkg != nil && origin.Pkg.Pkg.Path() == dslPkg {
		return x.dsl(st, fr, cc, origin.Name(), fn, args, key, pos)
	}
	if fr.mode != modeCode && fr.ct.Target == fn && !fr.called {
		if fr.mode == modeVerify {
			return x.targetCall(st, fr, fn, args, key, pos)
		}
		return x.targetHavoc(st, fr, fn, args)
	}
	if x.p.uninterp[fn] {
		var ls []*Term
		for i, a := range args {
			ls = append(ls, x.specLeaves(st, fn.Params[i].Type(), a)...)
		}
		return []Outcome{{st, x.ufResult(st, "spec|"+fn.Name(), fn.Signature, ls)}}
	}
	isSpecCtx := x.spec > 0 || fr.mode == modeUse || fr.mode == modeVerify && !(fr.ct.Lemma && !inSpecFile(x.p, fn))
	ct := x.p.contractFor(fn)
	if ct != nil && (x.ct.Inline[fn.Name()] || x.ct.Inline[funcName(fn)] || x.ct.Inline["*"] && !ct.Trusted) {
		ct = nil
	}
	if ct != nil && isSpecCtx && fn.Blocks != nil && ct.Opts["opaque"] == "" && !x.hasLoops(fn, 0) {
		ct = nil
	}
	for _, f := range x.stack {
		if f == fn && ct == nil {
			ct = x.p.contractFor(fn)
			if ct == nil {
				unsupported("recursive call of %s without a contract", fn)
			}
		}
	}
	if ct != nil {
		return x.useContract(st, fr, ct, args, key, pos)
	}
	name := fn.RelString(nil)
	if fn.Origin() != nil {
		name = fn.Origin().RelString(nil)
	}
	if m, ok := models[name]; ok {
		x.usedModels[name] = true
		x.curCC = cc
		return m(x, st, fr, fn, args, key, pos)
	}
	inRepo := fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), repoModule) || fn.Parent() != nil || fn.Synthetic != ""
	if inRepo && fn.Blocks != nil {
		if !inSpecFile(x.p, fn) && fn.Synthetic == "" {
			x.inlined[funcName(fn)] = true
		}
		if isSpecCtx {
			x.spec++
			defer func() { x.spec-- }()
			if fr.mode == modeCode || x.c.noFresh > 0 || true {
				outs := x.runFunc(st, fn, args, bind, key, modeCode, nil)
				if len(outs) > 1 {
					if m, ok := x.tryMergeOuts(outs); ok {
						return m
					}
				}
				return outs
			}
		}
		if fr.mode == modeVerify && fr.ct.Lemma {
			x.inTarget++
			defer func() { x.inTarget-- }()
		}
		return x.runFunc(st, fn, args, bind, key, modeCode, nil)
	}
	unsupported("call of %s (no contract, no model)", name)
	return nil
}

// specLeaves: arguments of an uninterpreted specification function; slices are
// passed as (content, offset, length) so that equal contents give equal results.
func (x *Exec) specLeaves(st *State, t types.Type, a Value) []*Term {
	if sl, ok := t.Underlying().(*types.Slice); ok {
		s := a.(SliceV)
		var out []*Term
		for i := range x.leaves(sl.Elem()) {
			out = append(out, x.elems(st, sl.Elem(), s.arr, i))
		}
		return append(out, s.off, s.len)
	}
	return x.toLeaves(st, t, a)
}

func (x *Exec) tryMergeOuts(outs []Outcome) ([]Outcome, bool) {
	// common prefix of the logs
	base := outs[0].st.log
	for _, o := range outs[1:] {
		base = commonLog(base, o.st.log)
	}
	r := outs[0].st
	for _, o := range outs[1:] {
		if o.st.alloc != r.alloc || o.st.epoch != r.epoch || len(o.st.heap) != len(r.heap) || len(o.st.fwd) != len(r.fwd) || len(o.st.fwdArr) != len(r.fwdArr) {
			return nil, false
		}
		for k, v := range r.heap {
			if o.st.heap[k] != v {
				return nil, false
			}
		}
		for id, v := range r.cells {
			if w, ok := o.st.cells[id]; ok && !sameVal(v, w) {
				return nil, false
			}
		}
	}
	m := r.clone()
	m.log = base
	acc := outs[len(outs)-1].ret
	for i := len(outs) - 1; i >= 0; i-- {
		conds, facts := outs[i].st.since(base)
		g := x.c.And(conds...)
		for _, f := range facts {
			m.fact(x.c.Implies(g, f))
		}
		for id, v := range outs[i].st.cells {
			if _, ok := m.cells[id]; !ok {
				m.cells[id] = v
			}
		}
		if i < len(outs)-1 {
			v, ok := x.mergeVal(g, outs[i].ret, acc)
			if !ok {
				return nil, false
			}
			acc = v
		}
	}
	return []Outcome{{m, acc}}, true
}

func commonLog(a, b *logNode) *logNode {
	na, nb := 0, 0
	if a != nil {
		na = a.n
	}
	if b != nil {
		nb = b.n
	}
	for na > nb {
		a = a.prev
		na--
	}
	for nb > na {
		b = b.prev
		nb--
	}
	for a != b {
		a, b = a.prev, b.prev
	}
	return a
}

// targetCall runs the function under verification.
func (x *Exec) targetCall(st *State, fr *Frame, fn *ssa.Function, args []Value, key string, pos token.Pos) []Outcome {
	fr.called = true
	pre := st.clone()
	fr.prest = pre
	savedPre, savedMods, savedPan := x.preState, x.targetMods, x.curPanics
	x.preState, x.targetMods, x.curPanics = pre, fr.mods, fr
	x.inTarget++
	outs := x.runFunc(st, fn, args, nil, key, modeCode, nil)
	x.inTarget--
	x.curPanics = savedPan
	_ = savedMods
	_ = savedPre
	for _, o := range outs {
		x.retReached++
		if fr.panics != nil && !fr.maypan {
			x.oblige(o.st, "panics-when-required", funcName(fn), x.c.Not(fr.panics), pos)
		}
		if !fr.allMods {
			x.frameCheck(o.st, pre, fr.mods, funcName(fn))
		}
		if fr.noNew {
			sig := fn.Signature.Results()
			for i := 0; i < sig.Len(); i++ {
				v := o.ret
				if t, ok := v.(TupleV); ok && sig.Len() > 1 {
					v = t[i]
				}
				ls := x.toLeaves(o.st, sig.At(i).Type(), v)
				for k, r := range x.roles(sig.At(i).Type()) {
					switch r {
					case "ref", "arr":
						x.oblige(o.st, "no-new-references", funcName(fn), x.c.Lt(ls[k], pre.alloc), pos)
					case "tag", "data", "opaque":
						unsupported("NoNewReferences with a result of type %s", sig.At(i).Type())
					}
				}
			}
		}
		// reachability (vacuity) probe for this path
		x.reach = append(x.reach, &Obligation{name: x.ct.ID + "/reach", kind: "reach", facts: o.st.facts(), goal: x.c.False()})
	}
	return outs
}

// frameCheck: nothing outside the modifies clause changed.
func (x *Exec) frameCheck(st, pre *State, mods []modLoc, who string) {
	c := x.c
	if st.epoch != pre.epoch {
		x.oblige(st, "frame", "a callee may change everything", c.False(), token.NoPos)
		return
	}
	for _, k := range sortedKeys(st.heap) {
		now := st.heap[k]
		was := pre.get(k, now.sort)
		if now == was {
			continue
		}
		whole := false
		for _, m := range mods {
			if m.k == 'E' && strings.HasPrefix(k, "E|"+x.typeKey(m.et)+"|") || m.k == 'T' && strings.HasPrefix(k, "F|"+x.typeKey(m.et)+"|") {
				whole = true
			}
			if m.k == 'M' && x.mapHeap(m.mt, k) {
				whole = true
			}
		}
		if whole {
			continue
		}
		var except []*Term
		var slices []modLoc
		for _, m := range mods {
			t := x.modRef(pre, m, k)
			if t == nil {
				continue
			}
			except = append(except, t)
			if m.k == 's' {
				slices = append(slices, m)
			}
		}
		r := c.FreshVar("r", SInt)
		cs := []*Term{c.Lt(r, pre.alloc)}
		for _, e := range except {
			cs = append(cs, c.Ne(r, e))
		}
		x.oblige(st, "frame", k, c.Forall([]*Term{r}, c.Implies(c.And(cs...), c.Eq(c.Select(now, r), c.Select(was, r)))), token.NoPos)
		if len(slices) == 1 {
			s := slices[0].sl
			i := c.FreshVar("i", SInt)
			out := c.Or(c.Lt(i, s.off), c.Le(c.Add(s.off, s.cap), i))
			x.oblige(st, "frame", k+"[range]", c.Forall([]*Term{i}, c.Implies(out, c.Eq(c.Select(c.Select(now, s.arr), i), c.Select(c.Select(was, s.arr), i)))), token.NoPos)
		}
	}
}

// useContract replaces a call by the callee's contract.
func (x *Exec) useContract(st *State, fr *Frame, ct *Contract, args []Value, key string, pos token.Pos) []Outcome {
	x.usedContracts[ct.ID] = true
	x.callPos = pos
	saved := st.usePre
	st.usePre = nil
	outs := x.runFunc(st, ct.Fn, args, nil, key+"/use", modeUse, ct)
	for i := range outs {
		outs[i].st.usePre = saved
	}
	return outs
}

// targetHavoc is the effect of the call inside a contract used at a call site.
func (x *Exec) targetHavoc(st *State, fr *Frame, fn *ssa.Function, args []Value) []Outcome {
	c := x.c
	fr.called = true
	fr.prest = st.clone()
	st.usePre = fr.prest
	if fr.determ {
		var ls []*Term
		for i, a := range args {
			ls = append(ls, x.specLeaves(st, fn.Params[i].Type(), a)...)
		}
		fr.result = x.ufResult(st, "fn|"+fr.ct.ID, fn.Signature, ls)
		return []Outcome{{st, fr.result}}
	}
	if c.noFresh > 0 {
		unsupported("contract of %s under a quantifier", fn)
	}
	fr.result = x.havocEffects(st, fr, fn.Signature, fr.ct.Name)
	return []Outcome{{st, fr.result}}
}

func (x *Exec) havocEffects(st *State, fr *Frame, sig *types.Signature, hint string) Value {
	c := x.c
	refs := fr.allMods
	for _, m := range fr.mods {
		if fr.pure {
			break
		}
		if m.k != 'p' {
			refs = true
			continue
		}
		_, t := x.walk(st.resolve(m.p).root, st.resolve(m.p).path)
		for _, r := range x.roles(t) {
			refs = refs || r != "val" && r != "opaque"
		}
	}
	for i := 0; i < sig.Results().Len() && !fr.noNew; i++ {
		for _, r := range x.roles(sig.Results().At(i).Type()) {
			refs = refs || r != "val"
		}
	}
	if fr.noNew && refs {
		unsupported("NoNewReferences with modified references")
	}
	if refs { // otherwise nothing the call allocated can be reached afterwards
		na := c.Fresh("alloc", SInt)
		na.fresh = true
		st.fact(c.Le(st.alloc, na))
		st.alloc = na
	}
	if fr.allMods {
		st.havocAll()
	}
	if !fr.pure {
		for _, m := range fr.mods {
			switch m.k {
			case 'p':
				q := st.resolve(m.p)
				_, t := x.walk(q.root, q.path)
				x.store(st, q, x.freshVal(st, t, hint+"_mod"))
			case 's':
				for i, srt := range x.leaves(m.et) {
					old := x.elems(st, m.et, m.sl.arr, i)
					nc := c.Fresh(hint+"_elems", arrSort(SInt, srt))
					k := c.FreshVar("k", SInt)
					out := c.Or(c.Lt(k, m.sl.off), c.Le(c.Add(m.sl.off, m.sl.cap), k))
					st.fact(c.Forall([]*Term{k}, c.Implies(out, c.Eq(c.Select(nc, k), c.Select(old, k))), c.Select(nc, k)))
					x.setElems(st, m.et, m.sl.arr, i, nc)
				}
			case 'E', 'T':
				for i, s := range x.leaves(m.et) {
					k, srt := x.ekey(m.et, i), arrSort(SInt, arrSort(SInt, s))
					if m.k == 'T' {
						k, srt = x.fkey(m.et, i), arrSort(SInt, s)
					}
					st.heap[k] = c.Fresh(hint+"_"+k, srt)
				}
			case 'M':
				dom, ln, vk, ks := x.mkeys(m.mt)
				st.heap[dom] = c.Fresh(hint+"_dom", arrSort(SInt, arrSort(ks, SBool)))
				st.heap[ln] = c.Fresh(hint+"_len", arrSort(SInt, SInt))
				for i, s := range x.leaves(m.mt.Elem()) {
					st.heap[vk[i]] = c.Fresh(hint+"_val", arrSort(SInt, arrSort(ks, s)))
				}
			case 'm':
				dom, ln, vk, ks := x.mkeys(m.mt)
				dh := st.get(dom, arrSort(SInt, arrSort(ks, SBool)))
				st.heap[dom] = c.Store(dh, m.m, c.Fresh(hint+"_dom", arrSort(ks, SBool)))
				lh := st.get(ln, arrSort(SInt, SInt))
				st.heap[ln] = c.Store(lh, m.m, c.Fresh(hint+"_len", SInt))
				for i, s := range x.leaves(m.mt.Elem()) {
					h := st.get(vk[i], arrSort(SInt, arrSort(ks, s)))
					st.heap[vk[i]] = c.Store(h, m.m, c.Fresh(hint+"_val", arrSort(ks, s)))
				}
			}
		}
	}
	if refs {
		for _, k := range sortedStr(x.mvRoot) {
			st.fact(x.allocFact(st.get(k, x.mvSort[k]), st.alloc, strings.TrimSuffix(x.mvRoot[k], "!")))
		}
	}
	// objects allocated by the call have arbitrary content: heaps above the old
	// allocation limit were never constrained, so nothing needs to change here.
	var rs []Value
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, x.freshVal(st, sig.Results().At(i).Type(), hint+"_ret"))
	}
	switch len(rs) {
	case 0:
		return nil
	case 1:
		return rs[0]
	}
	return TupleV(rs)
}

// ---------------------------------------------------------------- builtins

func (x *Exec) builtin(st *State, fr *Frame, cc *ssa.CallCommon, b *ssa.Builtin, args []Value, pos token.Pos) []Outcome {
	c := x.c
	one := func(v Value) []Outcome { return []Outcome{{st, v}} }
	switch b.Name() {
	case "len":
		return one(x.lenOf(st, fr, cc.Args[0], args[0]))
	case "cap":
		switch v := args[0].(type) {
		case SliceV:
			return one(v.cap)
		case *Term:
			r := c.UF("chancap", SInt, v)
			st.fact(c.Le(c.Int(0), r))
			return one(r)
		}
	case "append":
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		s := args[0].(SliceV)
		var t SliceV
		switch v := args[1].(type) {
		case SliceV:
			t = v
		case *Term:
			t = x.strBytes(st, v, et)
		}
		return one(x.appendVals(st, et, s, t))
	case "copy":
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		var s SliceV
		switch v := args[1].(type) {
		case SliceV:
			s = v
		case *Term:
			s = x.strBytes(st, v, et)
		}
		return one(x.copyVals(st, et, args[0].(SliceV), s))
	case "delete":
		x.guardCheck(st, fr, cc.Args[0], true, pos)
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		m := args[0].(*Term)
		// deleting from a nil map is a no-op
		nz := c.Ne(m, c.Int(0))
		if !nz.isTrue() {
			s0 := st.clone()
			var outs []Outcome
			if s0.cond(c.Not(nz)) {
				outs = append(outs, Outcome{s0, nil})
			}
			if st.cond(nz) {
				x.mapDelete(st, mt, m, args[1])
				outs = append(outs, Outcome{st, nil})
			}
			return outs
		}
		x.mapDelete(st, mt, m, args[1])
		return one(nil)
	case "print", "println", "close":
		return one(nil)
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if b.Name() == "min" {
				r = c.Ite(c.Le(t, r), t, r)
			} else {
				r = c.Ite(c.Le(r, t), t, r)
			}
		}
		return one(r)
	case "ssa:wrapnilchk":
		x.nilCheck(st, fr, args[0].(PtrV), pos)
		return one(args[0])
	}
	unsupported("builtin %s", b.Name())
	return nil
}

func (x *Exec) lenOf(st *State, fr *Frame, e ssa.Value, v Value) Value {
	switch s := v.(type) {
	case SliceV:
		return s.len
	case *Term:
		if s.sort == SStr {
			return x.strLen(s)
		}
		switch t := e.Type().Underlying().(type) {
		case *types.Map:
			x.guardCheck(st, fr, e, false, token.NoPos)
			return x.mapLen(st, t, s)
		case *types.Chan:
			r := x.c.Fresh("chanlen", SInt)
			st.fact(x.c.Le(x.c.Int(0), r))
			return r
		}
	case ArrayV:
		return x.c.Int(int64(len(s.e)))
	case PtrV:
		at := s.root
		_, t := x.walk(at, s.path)
		return x.c.Int(t.Underlying().(*types.Array).Len())
	}
	unsupported("len of %T", v)
	return nil
}

// ---------------------------------------------------------------- lock discipline

func (x *Exec) guardCheck(st *State, fr *Frame, v ssa.Value, write bool, pos token.Pos) {
	if fr.mode != modeCode || x.spec > 0 || x.inTarget == 0 || len(x.p.guards) == 0 {
		return
	}
	// maps of a guarded type
	if n, ok := types.Unalias(v.Type()).(*types.Named); ok && n.Obj().Pkg() != nil {
		if _, ok := n.Underlying().(*types.Map); ok {
			for _, g := range x.p.guards {
				if g.typ != n.Obj().Pkg().Path()+"."+n.Obj().Name() {
					continue
				}
				if m, ok := x.val(st, fr, v).(*Term); ok && x.c.allocOff(m) {
					continue // not shared yet
				}
				lg, ok := fr.fn.Pkg.Members[g.lock].(*ssa.Global)
				if !ok {
					x.oblige(st, "lock-held", n.Obj().Name()+":no-lock-variable", x.c.False(), pos)
					continue
				}
				l := x.load(st, x.val(st, fr, lg).(PtrV)).(*Term)
				x.lockOblige(st, fr, l, write, "map of type "+n.Obj().Name(), pos)
			}
		}
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		v = u.X
	}
	switch a := v.(type) {
	case *ssa.FieldAddr:
		pt := a.X.Type().Underlying().(*types.Pointer).Elem()
		n, ok := types.Unalias(pt).(*types.Named)
		if !ok {
			return
		}
		s := pt.Underlying().(*types.Struct)
		fname := s.Field(a.Field).Name()
		tn := n.Obj().Pkg().Path() + "." + n.Obj().Name()
		for _, g := range x.p.guards {
			if g.typ != tn || g.field != fname {
				continue
			}
			base := x.val(st, fr, a.X).(PtrV)
			if r := st.resolve(base); r.kind == pCell || r.kind == pRef && x.c.allocOff(r.ref) {
				return // not shared yet
			}
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == g.lock {
					q := base
					q.path = append(append([]int{}, base.path...), i)
					l := x.load(st, q).(*Term)
					x.lockOblige(st, fr, l, write, fname, pos)
				}
			}
		}
	case *ssa.Global:
		for _, g := range x.p.guards {
			if g.typ != a.Pkg.Pkg.Path()+"."+a.Name() {
				continue
			}
			if g.lock == "atomic" {
				x.oblige(st, "lock-held", "plain access to "+a.Name()+" in "+funcName(fr.fn), x.c.False(), pos)
				return
			}
			lg, ok := a.Pkg.Members[g.lock].(*ssa.Global)
			if !ok {
				x.oblige(st, "lock-held", a.Name()+":no-lock-variable", x.c.False(), pos)
				return
			}
			l := x.load(st, x.val(st, fr, lg).(PtrV)).(*Term)
			x.lockOblige(st, fr, l, write, a.Name(), pos)
		}
	}
}

func (x *Exec) lockOblige(st *State, fr *Frame, l *Term, write bool, what string, pos token.Pos) {
	if write {
		x.oblige(st, "lock-held", "write "+what+" in "+funcName(fr.fn), x.c.Eq(l, x.c.Int(2)), pos)
	} else {
		x.oblige(st, "lock-held", "read "+what+" in "+funcName(fr.fn), x.c.Le(x.c.Int(1), l), pos)
	}
}

// ---------------------------------------------------------------- package variables

func (x *Exec) globalConst(st *State, g *ssa.Global) Value {
	c := x.c
	t := g.Type().(*types.Pointer).Elem()
	external := g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), repoModule)
	if external {
		if types.IsInterface(t) && t.String() == "error" {
			id := x.errID(g.String())
			return IfaceV{tag: c.Int(1000001), data: c.Int(-1000000 - int64(id))}
		}
		unsupported("external variable %s", g)
	}
	if x.p.globMut[g] {
		return nil
	}
	iv := x.p.globInit[g]
	if iv == nil {
		return x.zero(t)
	}
	return x.initVal(st, g, iv, t)
}

func (x *Exec) errID(s string) int {
	if id, ok := x.errIDs[s]; ok {
		return id
	}
	x.errIDs[s] = len(x.errIDs) + 1
	return x.errIDs[s]
}

func (x *Exec) initVal(st *State, g *ssa.Global, v ssa.Value, t types.Type) Value {
	c := x.c
	switch k := v.(type) {
	case *ssa.Const:
		return x.constVal(k)
	case *ssa.Call:
		if f := k.Call.StaticCallee(); f != nil && (f.String() == "errors.New" || f.String() == "fmt.Errorf") {
			return IfaceV{tag: c.Int(1000001), data: c.Int(-1000000 - int64(x.errID(g.String())))}
		}
	case *ssa.MakeInterface:
		return nil
	case *ssa.Function:
		return FuncV{fn: k}
	case *ssa.Convert:
		if cst, ok := k.X.(*ssa.Const); ok && isString(cst.Type()) {
			if sl, ok := t.Underlying().(*types.Slice); ok {
				s := x.constVal(cst).(*Term)
				arr := c.Int(-100000 - int64(x.p.globalID[g]))
				content := x.elems(st, sl.Elem(), arr, 0)
				n := x.strLen(s)
				if x.noFacts == 0 {
					st.fact(c.Eq(content, c.UF("bytes_of_str", arrSort(SInt, SInt), s)))
				}
				x.globStr[arr] = s
				x.usedModels["package-level byte slices keep their initial content"] = true
				return SliceV{arr, c.Int(0), n, n}
			}
		}
	case *ssa.Alloc:
		// pointer to a composite literal: a distinct, non-nil object
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			return PtrV{kind: pRef, ref: c.Int(-200000 - int64(x.p.globalID[g])), root: pt.Elem()}
		}
	case *ssa.MakeMap, *ssa.MakeChan:
		return c.Int(-300000 - int64(x.p.globalID[g]))
	}
	return nil
}
