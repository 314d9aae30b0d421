package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const repoModule = "github.com/trimmer-io/go-xmp"
const dslPkg = repoModule + "/verifdsl"

type Obligation struct {
	name  string // stable name: contract/kind:detail
	kind  string
	facts []*Term
	goal  *Term
	cand  *cand
	res   SolveResult
	pos   string
	note  string
}

type Outcome struct {
	st  *State
	ret Value
}

const (
	modeCode = iota
	modeVerify
	modeUse
)

type modLoc struct {
	p   PtrV
	sl  SliceV
	et  types.Type
	m   *Term
	mt  *types.Map
	k   byte // 'p','s','m','*'
	all bool
}

type deferCall struct {
	call *ssa.CallCommon
	args []Value
	fn   Value
}

type Frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]Value
	bind    []Value
	key     string
	mode    int
	ct      *Contract
	loops   map[*ssa.BasicBlock]*loopEntry
	defers  []deferCall
	depth   int
	mods    []modLoc
	result  Value
	called  bool
	panics  *Term // PanicsIff condition of the contract in force
	maypan  bool
	pure    bool
	prest   *State
	ensN    int
	allMods bool
	determ  bool
	noNew   bool
	rounds  map[*ssa.BasicBlock]int // passes through loops that are unrolled
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Value, len(f.env))
	for k, v := range f.env {
		n.env[k] = v
	}
	n.loops = make(map[*ssa.BasicBlock]*loopEntry, len(f.loops))
	for k, v := range f.loops {
		n.loops[k] = v
	}
	n.rounds = make(map[*ssa.BasicBlock]int, len(f.rounds))
	for k, v := range f.rounds {
		n.rounds[k] = v
	}
	n.defers = append([]deferCall{}, f.defers...)
	n.mods = append([]modLoc{}, f.mods...)
	return &n
}

type workItem struct {
	st   *State
	fr   *Frame
	blk  *ssa.BasicBlock
	idx  int
	prev *ssa.BasicBlock
	stop *ssa.BasicBlock
	sout *[]workItem
}

// Exec runs one contract symbolically.
type Exec struct {
	fltVals       map[*Term]*big.Rat // floating-point constants
	curCC         *ssa.CallCommon
	p             *Program
	c             *Ctx
	ct            *Contract
	obls          []*Obligation
	leafCache     map[types.Type][]string
	roleCache     map[types.Type][]string
	keyCache      map[types.Type]string
	structNames   map[string]string
	typeIDs       map[string]int
	typeList      []types.Type
	funcIDs       map[string]bool
	initHeap      map[*Term]string
	axioms        []*Term
	mvAxiom       map[*Term]bool
	mvRoot        map[string]string // heaps whose references are read under quantifiers
	mvSort        map[string]string
	objTypes      map[string]types.Type
	objKeys       []string
	noFacts       int // inside a binder
	spec          int // evaluating specification code: no obligations
	allowInterior bool
	inTarget      int
	loops         map[string]*loopInfo
	wDirty        bool
	cellIDs       map[string]int
	cellT         map[int]types.Type
	templates     []FuncV
	tmplFrame     *Frame
	npaths        int
	maxPaths      int
	forkAt        map[string]int
	stack         []*ssa.Function
	curPanics     *Frame
	cntDefs       map[int]*Term
	usedContracts map[string]bool
	usedModels    map[string]bool
	inlined       map[string]bool
	reach         []*Obligation
	globals       map[*ssa.Global]int
	lockObl       bool
	retReached    int
	steps         int
	frameGuard    []guardRec
	cellOwner     map[int]string
	bufs          map[*Term]*Term  // texts of bytes.Buffer values
	wins          map[winKey]*Term // texts of parts of byte slices
	targetMods    []modLoc
	preState      *State
	callPos       token.Pos
	errIDs        map[string]int
	ensured       map[string]int
	cntArr        map[*Term]*Term
	globStr       map[*Term]*Term // package-level byte slices made from string constants
	cntAx         map[*Term][]*Term
	snapArr       map[*Term][]*Term // snapshot slices: leaf contents
	snapMap       map[*Term]*snapM
	nsnap         int
	nepoch        int
}

type snapM struct {
	dom, ln *Term
	vals    []*Term
}

type guardRec struct{ st *State }

func (x *Exec) reset() {
	x.c = newCtx()
	x.obls = nil
	x.initHeap = map[*Term]string{}
	x.axioms, x.mvAxiom = nil, nil
	x.templates = nil
	x.wDirty = false
	x.npaths = 0
	x.stack = nil
	x.cntDefs = map[int]*Term{}
	x.noFacts, x.spec, x.inTarget = 0, 0, 0
	x.retReached = 0
	x.steps = 0
	x.reach = nil
	x.targetMods = nil
	x.preState = nil
	x.globStr = map[*Term]*Term{}
	x.cntArr = map[*Term]*Term{}
	x.cntAx = map[*Term][]*Term{}
	x.snapArr = map[*Term][]*Term{}
	x.snapMap = map[*Term]*snapM{}
	x.nsnap = 0
	x.nepoch = 0
}

func newExec(p *Program, ct *Contract) *Exec {
	x := &Exec{p: p, ct: ct, leafCache: map[types.Type][]string{}, roleCache: map[types.Type][]string{}, keyCache: map[types.Type]string{},
		structNames: map[string]string{}, typeIDs: map[string]int{}, funcIDs: map[string]bool{}, loops: map[string]*loopInfo{}, cellIDs: map[string]int{}, cellT: map[int]types.Type{}, cellOwner: map[int]string{}, errIDs: map[string]int{},
		usedContracts: map[string]bool{}, usedModels: map[string]bool{}, inlined: map[string]bool{}, globals: map[*ssa.Global]int{}, maxPaths: 4000, forkAt: map[string]int{}}
	x.reset()
	return x
}

func (x *Exec) newState() *State {
	st := &State{x: x, heap: map[string]*Term{}, cells: map[int]Value{}, fwd: map[int]*Term{}, fwdArr: map[int]*Term{}, nonnil: map[*Term]bool{}, alloc: x.c.alloc0}
	st.fact(x.c.Lt(x.c.Int(0), x.c.alloc0))
	return st
}

// oblige records a proof obligation and then assumes it.
func (x *Exec) oblige(st *State, kind, detail string, goal *Term, pos token.Pos) {
	if x.spec > 0 {
		return
	}
	o := &Obligation{kind: kind, name: x.ct.ID + "/" + kind + ":" + detail, facts: st.facts(), goal: goal}
	if pos.IsValid() {
		o.pos = x.p.fset.Position(pos).String()
	}
	x.obls = append(x.obls, o)
	st.fact(goal)
}

func (x *Exec) implicit(st *State, fr *Frame, kind string, goal *Term, pos token.Pos) {
	if x.spec > 0 || fr.mode != modeCode || x.inTarget == 0 {
		// specification code: reads are total
		if x.spec == 0 && !goal.isTrue() && x.inTarget == 0 && fr.mode == modeCode {
			// code called from a lemma outside a target still must not panic
			x.oblige(st, kind, funcName(fr.fn), goal, pos)
		}
		return
	}
	if x.curPanics != nil && x.curPanics.maypan {
		st.fact(goal)
		return
	}
	x.oblige(st, kind, funcName(fr.fn), goal, pos)
}

func funcName(f *ssa.Function) string {
	n := f.RelString(nil)
	n = strings.ReplaceAll(n, repoModule+"/", "")
	return n
}

// ---------------------------------------------------------------- running

func (x *Exec) runFunc(st *State, fn *ssa.Function, args []Value, bind []Value, key string, mode int, ct *Contract) []Outcome {
	if fn.Blocks == nil {
		unsupported("no body for %s", fn)
	}
	if len(x.stack) > 60 {
		unsupported("inlining too deep at %s", fn)
	}
	if fn.Recover != nil {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
						unsupported("recover in %s", fn)
					}
				}
			}
		}
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, bind: bind, key: key, mode: mode, ct: ct, loops: map[*ssa.BasicBlock]*loopEntry{}, depth: len(x.stack)}
	if len(args) != len(fn.Params) {
		panic(fmt.Sprintf("argument count for %s: %d vs %d", fn, len(args), len(fn.Params)))
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = bind[i]
	}
	var outs []Outcome
	work := []workItem{{st: st, fr: fr, blk: fn.Blocks[0]}}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		x.exec(it, &work, &outs)
	}
	return outs
}

func (x *Exec) exec(it workItem, work *[]workItem, outs *[]Outcome) {
	st, fr, blk := it.st, it.fr, it.blk
	idx, prev := it.idx, it.prev
	_ = prev
	for {
	again:
		var next *ssa.BasicBlock
		for ; idx < len(blk.Instrs); idx++ {
			x.steps++
			if x.steps > 400000 {
				for k, n := range x.forkAt {
					debugf("   %6d forks at %s", n, k)
				}
				unsupported("symbolic execution too long")
			}
			in := blk.Instrs[idx]
			if fr.mode != modeCode {
				if sk := x.p.dslSkip(fr.fn); sk[in] {
					if v, ok := in.(ssa.Value); ok {
						fr.env[v] = nil
					}
					continue
				}
			}
			switch v := in.(type) {
			case *ssa.DebugRef:
			case *ssa.Phi:
				// handled on block entry
			case *ssa.Jump:
				next = blk.Succs[0]
			case *ssa.If:
				cnd := x.val(st, fr, v.Cond).(*Term)
				tst, fst := st, st
				if cnd.isTrue() {
					next = blk.Succs[0]
					break
				}
				if cnd.isFalse() {
					next = blk.Succs[1]
					break
				}
				if x.spec > 0 || fr.mode != modeCode || x.ct.Opts["merge"] != "" {
					if P := x.p.ipdoms(fr.fn)[blk]; P != nil && x.p.loopsOf(fr.fn)[P] == nil && (x.spec > 0 || fr.mode != modeCode || x.loopFree(fr.fn, blk, P)) {
						ms := x.region(st, fr, blk, P, cnd, outs)
						if len(ms) == 0 {
							return
						}
						for _, m := range ms[1:] {
							if P == it.stop {
								*it.sout = append(*it.sout, m)
								continue
							}
							*work = append(*work, workItem{st: m.st, fr: m.fr, blk: P, stop: it.stop, sout: it.sout})
						}
						if P == it.stop {
							*it.sout = append(*it.sout, ms[0])
							return
						}
						st, fr = ms[0].st, ms[0].fr
						prev, blk, idx = blk, P, 0
						goto again
					}
				}
				fst = st.clone()
				okT := tst.cond(cnd)
				okF := fst.cond(x.c.Not(cnd))
				x.npaths++
				if x.forkAt != nil {
					x.forkAt[x.p.fset.Position(v.Cond.Pos()).String()+" "+fr.fn.Name()]++
				}
				if x.npaths > x.maxPaths {
					for k, n := range x.forkAt {
						debugf("   %6d forks at %s", n, k)
					}
					unsupported("too many paths in %s", fr.fn)
				}
				if okT && okF {
					ff := fr.clone()
					if x.enter(fst, ff, blk, blk.Succs[1]) {
						wi := workItem{st: fst, fr: ff, blk: blk.Succs[1], prev: blk, stop: it.stop, sout: it.sout}
						if it.stop == blk.Succs[1] {
							*it.sout = append(*it.sout, wi)
						} else {
							*work = append(*work, wi)
						}
					}
					next = blk.Succs[0]
				} else if okT {
					next = blk.Succs[0]
				} else if okF {
					st = fst
					next = blk.Succs[1]
				} else {
					return
				}
			case *ssa.Return:
				var r Value
				switch len(v.Results) {
				case 0:
				case 1:
					r = x.val(st, fr, v.Results[0])
				default:
					t := TupleV{}
					for _, e := range v.Results {
						t = append(t, x.val(st, fr, e))
					}
					r = t
				}
				if fr.mode != modeCode {
					r = fr.result
				}
				*outs = append(*outs, Outcome{st, r})
				return
			case *ssa.Panic:
				x.doPanic(st, fr, "panic", v.Pos())
				return
			case *ssa.RunDefers:
				states := []*State{st}
				for i := len(fr.defers) - 1; i >= 0; i-- {
					d := fr.defers[i]
					var nst []*State
					for _, s := range states {
						for _, o := range x.callValue(s, fr, d.call, d.fn, d.args, fmt.Sprintf("%s/defer%d", fr.key, i), v.Pos()) {
							nst = append(nst, o.st)
						}
					}
					states = nst
				}
				fr.defers = nil
				if len(states) == 0 {
					return
				}
				for _, s := range states[1:] {
					*work = append(*work, workItem{s, fr.clone(), blk, idx + 1, prev, it.stop, it.sout})
				}
				st = states[0]
			case *ssa.Defer:
				fnv, args := x.callArgs(st, fr, &v.Call)
				fr.defers = append(fr.defers, deferCall{&v.Call, args, fnv})
			case *ssa.Go:
				unsupported("go statement in %s", fr.fn)
			case *ssa.Call:
				fnv, args := x.callArgs(st, fr, &v.Call)
				os := x.callValue(st, fr, &v.Call, fnv, args, fmt.Sprintf("%s/%d.%d", fr.key, blk.Index, idx), v.Pos())
				if len(os) == 0 {
					return
				}
				for _, o := range os[1:] {
					ff := fr.clone()
					ff.env[v] = o.ret
					*work = append(*work, workItem{o.st, ff, blk, idx + 1, prev, it.stop, it.sout})
				}
				st = os[0].st
				fr.env[v] = os[0].ret
			case *ssa.Select:
				os := x.doSelect(st, fr, v)
				for _, o := range os[1:] {
					ff := fr.clone()
					ff.env[v] = o.ret
					*work = append(*work, workItem{o.st, ff, blk, idx + 1, prev, it.stop, it.sout})
				}
				if len(os) == 0 {
					return
				}
				st = os[0].st
				fr.env[v] = os[0].ret
			case *ssa.Next:
				os := x.doNext(st, fr, v)
				for _, o := range os[1:] {
					ff := fr.clone()
					ff.env[v] = o.ret
					*work = append(*work, workItem{o.st, ff, blk, idx + 1, prev, it.stop, it.sout})
				}
				if len(os) == 0 {
					return
				}
				st = os[0].st
				fr.env[v] = os[0].ret
			default:
				if !x.simple(st, fr, in) {
					return
				}
			}
		}
		if next == nil {
			panic("block without successor in " + fr.fn.String())
		}
		if !x.enter(st, fr, blk, next) {
			return
		}
		if next == it.stop {
			*it.sout = append(*it.sout, workItem{st: st, fr: fr, blk: next})
			return
		}
		prev = blk
		blk = next
		idx = 0
	}
}

func (x *Exec) doPanic(st *State, fr *Frame, what string, pos token.Pos) {
	if x.spec > 0 || fr.mode != modeCode {
		return
	}
	if x.curPanics != nil {
		if x.curPanics.maypan {
			return
		}
		if x.curPanics.panics != nil {
			x.oblige(st, "panic-only-when-allowed", funcName(fr.fn), x.curPanics.panics, pos)
			return
		}
	}
	x.oblige(st, "no-panic", funcName(fr.fn), x.c.False(), pos)
}

// enter moves along an edge: phis, loop entry and back edges. false: path ends.
func (x *Exec) enter(st *State, fr *Frame, from, to *ssa.BasicBlock) bool {
	edge := -1
	for i, p := range to.Preds {
		if p == from {
			edge = i
		}
	}
	phis := map[*ssa.Phi]Value{}
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis[p] = x.val(st, fr, p.Edges[edge])
	}
	ld := x.p.loopsOf(fr.fn)[to]
	if lim, err := strconv.Atoi(x.ct.Opts["unroll"]); ld != nil && err == nil && fr.mode == modeCode {
		// every iteration is executed; the proof covers them all or fails
		if fr.rounds == nil {
			fr.rounds = map[*ssa.BasicBlock]int{}
		}
		if !ld.body[from] {
			fr.rounds[to] = 0
		}
		fr.rounds[to]++
		if n := fr.rounds[to]; n > 2 && x.c.solve(st.facts(), x.c.False(), 1000, false).res == rUnsat {
			return false
		} else if n > lim+1 {
			unsupported("loop of more than %d iterations in %s", lim, fr.fn)
		}
		ld = nil
	}
	if ld != nil {
		if ld.body[from] {
			x.backEdge(st, fr, ld, phis)
			return false
		}
		// leaving loops that do not contain the header
		return x.enterLoop(st, fr, ld, phis)
	}
	for p, v := range phis {
		fr.env[p] = v
	}
	return true
}

// val evaluates an operand.
func (x *Exec) val(st *State, fr *Frame, v ssa.Value) Value {
	switch k := v.(type) {
	case *ssa.Const:
		return x.constVal(k)
	case *ssa.Function:
		return FuncV{fn: k}
	case *ssa.Builtin:
		return nil
	case *ssa.Global:
		id, ok := x.p.globalID[k]
		if !ok {
			return PtrV{kind: pRef, ref: x.c.Int(int64(-400000 - x.errID(k.String()))), root: k.Type().(*types.Pointer).Elem()}
		}
		t := x.c.Int(int64(-1 - id))
		return PtrV{kind: pRef, ref: t, root: k.Type().(*types.Pointer).Elem()}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	panic(fmt.Sprintf("no value for %s (%T) in %s", v.Name(), v, fr.fn))
}

func (x *Exec) constVal(k *ssa.Const) Value {
	t := k.Type()
	if k.Value == nil {
		return x.zero(t)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return x.c.Bool(constant.BoolVal(k.Value))
		case b.Info()&types.IsString != 0:
			if k.Value.Kind() == constant.Int {
				i, _ := constant.Int64Val(k.Value)
				return x.c.Str(string(rune(i)))
			}
			return x.c.Str(constant.StringVal(k.Value))
		case b.Info()&types.IsInteger != 0:
			bi, ok := new(big.Int).SetString(constant.ToInt(k.Value).ExactString(), 10)
			if !ok {
				unsupported("constant %s", k)
			}
			return x.c.Big(bi)
		case b.Info()&types.IsFloat != 0:
			return x.fltConst(k.Value.ExactString())
		}
	}
	unsupported("constant of type %s", t)
	return nil
}

// simple executes an instruction that neither forks nor calls.
func (x *Exec) simple(st *State, fr *Frame, in ssa.Instruction) bool {
	c := x.c
	switch v := in.(type) {
	case *ssa.Alloc:
		t := v.Type().(*types.Pointer).Elem()
		id := x.cellID(fr, v)
		x.cellT[id] = t
		delete(st.fwd, id)
		delete(st.fwdArr, id)
		st.cells[id] = x.zero(t)
		fr.env[v] = PtrV{kind: pCell, cell: id, root: t}
	case *ssa.Store:
		p := x.val(st, fr, v.Addr).(PtrV)
		x.nilCheck(st, fr, p, v.Pos())
		x.guardCheck(st, fr, v.Addr, true, v.Pos())
		x.store(st, p, x.val(st, fr, v.Val))
	case *ssa.UnOp:
		fr.env[v] = x.unop(st, fr, v)
	case *ssa.BinOp:
		a, b := x.val(st, fr, v.X), x.val(st, fr, v.Y)
		fr.env[v] = x.binop(st, fr, v.Op, v.X.Type(), v.Type(), a, b, v.Pos())
	case *ssa.FieldAddr:
		p := x.val(st, fr, v.X).(PtrV)
		x.nilCheck(st, fr, p, v.Pos())
		q := p
		q.path = append(append([]int{}, p.path...), v.Field)
		fr.env[v] = q
	case *ssa.Field:
		s, ok := x.val(st, fr, v.X).(StructV)
		if !ok {
			unsupported("field of opaque struct in %s", fr.fn)
		}
		fr.env[v] = s.f[v.Field]
	case *ssa.IndexAddr:
		i := x.val(st, fr, v.Index).(*Term)
		switch b := x.val(st, fr, v.X).(type) {
		case SliceV:
			x.implicit(st, fr, "index-in-range", c.And(c.Le(c.Int(0), i), c.Lt(i, b.len)), v.Pos())
			et := v.X.Type().Underlying().(*types.Slice).Elem()
			fr.env[v] = PtrV{kind: pElem, arr: b.arr, idx: c.Add(b.off, i), root: et}
			if bt, ok := et.Underlying().(*types.Basic); ok && bt.Kind() == types.Byte && i.isInt() && x.noFacts == 0 && x.globStr[b.arr] == nil && onlyLoaded(v) {
				// the byte is the character of the text the bytes stand for
				s := x.bytesStr(st, b, et)
				ch := c.Op("str.to_code", SInt, c.Op("str.at", SStr, s, i))
				if s.op == "str" && i.val.Int64() >= 0 && i.val.Int64() < int64(len(s.name)) {
					ch = c.Int(int64(s.name[i.val.Int64()]))
				}
				st.fact(c.Implies(c.Lt(i, b.len), c.Eq(c.Select(x.elems(st, et, b.arr, 0), c.Add(b.off, i)), ch)))
			}
		case PtrV:
			x.nilCheck(st, fr, b, v.Pos())
			at := v.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			x.implicit(st, fr, "index-in-range", c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(at.Len()))), v.Pos())
			if i.isInt() {
				q := b
				q.path = append(append([]int{}, b.path...), int(i.val.Int64()))
				fr.env[v] = q
			} else {
				arr, _, et := x.arrayObj(st, b)
				fr.env[v] = PtrV{kind: pElem, arr: arr, idx: i, root: et}
			}
		default:
			unsupported("IndexAddr on %T", b)
		}
	case *ssa.Index:
		i := x.val(st, fr, v.Index).(*Term)
		switch b := x.val(st, fr, v.X).(type) {
		case ArrayV:
			x.implicit(st, fr, "index-in-range", c.And(c.Le(c.Int(0), i), c.Lt(i, c.Int(int64(len(b.e))))), v.Pos())
			if i.isInt() {
				fr.env[v] = b.e[i.val.Int64()]
				break
			}
			r := b.e[len(b.e)-1]
			for k := len(b.e) - 2; k >= 0; k-- {
				m, ok := x.mergeVal(c.Eq(i, c.Int(int64(k))), b.e[k], r)
				if !ok {
					unsupported("symbolic array index")
				}
				r = m
			}
			fr.env[v] = r
		case *Term:
			fr.env[v] = x.strIndex(st, fr, b, i, v.Pos())
		}
	case *ssa.Lookup:
		if b, ok := v.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			fr.env[v] = x.strIndex(st, fr, x.val(st, fr, v.X).(*Term), x.val(st, fr, v.Index).(*Term), v.Pos())
			break
		}
		x.guardCheck(st, fr, v.X, false, v.Pos())
		mt := v.X.Type().Underlying().(*types.Map)
		m := x.val(st, fr, v.X).(*Term)
		k := x.val(st, fr, v.Index)
		val, ok := x.mapGet(st, mt, m, k)
		if v.CommaOk {
			fr.env[v] = TupleV{val, ok}
		} else {
			fr.env[v] = val
		}
	case *ssa.MapUpdate:
		x.guardCheck(st, fr, v.Map, true, v.Pos())
		mt := v.Map.Type().Underlying().(*types.Map)
		m := x.val(st, fr, v.Map).(*Term)
		x.implicit(st, fr, "map-not-nil", c.Ne(m, c.Int(0)), v.Pos())
		x.mapSet(st, mt, m, x.val(st, fr, v.Key), x.val(st, fr, v.Value))
	case *ssa.MakeMap:
		mt := v.Type().Underlying().(*types.Map)
		fr.env[v] = x.makeMap(st, mt)
	case *ssa.MakeChan:
		r := st.newRef()
		fr.env[v] = r
	case *ssa.MakeSlice:
		n := x.val(st, fr, v.Len).(*Term)
		cp := x.val(st, fr, v.Cap).(*Term)
		x.implicit(st, fr, "make-size", c.And(c.Le(c.Int(0), n), c.Le(n, cp)), v.Pos())
		if fr.mode == modeCode && x.inTarget > 0 {
			// sizes far beyond memory panic as well
			x.implicit(st, fr, "make-size-bounded", c.Le(cp, c.Int(maxLen)), v.Pos())
		}
		fr.env[v] = x.makeSlice(st, v.Type().Underlying().(*types.Slice).Elem(), n, cp)
	case *ssa.Slice:
		if scanArgs(v) {
			// the scan model reads the pointers themselves
			fr.env[v] = SliceV{x.c.Int(0), x.c.Int(0), x.c.Int(0), x.c.Int(0)}
			return true
		}
		return x.sliceInstr(st, fr, v)
	case *ssa.MakeInterface:
		iv := IfaceV{tag: x.typeID(v.X.Type()), dyn: v.X.Type(), val: x.val(st, fr, v.X)}
		if fv, ok := iv.val.(FuncV); ok {
			iv.data = c.Fresh("funcbox", SInt)
			iv.val = fv
		} else if pv, ok := iv.val.(PtrV); ok && len(pv.path) > 0 {
			// boxed when somebody needs the value
		} else {
			x.box(st, &iv)
		}
		fr.env[v] = iv
	case *ssa.ChangeInterface:
		fr.env[v] = x.val(st, fr, v.X)
	case *ssa.ChangeType:
		fr.env[v] = x.changeType(x.val(st, fr, v.X), v.Type())
	case *ssa.Convert:
		fr.env[v] = x.convert(st, fr, x.val(st, fr, v.X), v.X.Type(), v.Type())
	case *ssa.MultiConvert:
		unsupported("multiconvert")
	case *ssa.TypeAssert:
		fr.env[v] = x.typeAssert(st, fr, v)
	case *ssa.Extract:
		fr.env[v] = x.val(st, fr, v.Tuple).(TupleV)[v.Index]
	case *ssa.MakeClosure:
		f := FuncV{fn: v.Fn.(*ssa.Function)}
		for _, b := range v.Bindings {
			f.bind = append(f.bind, x.val(st, fr, b))
		}
		fr.env[v] = f
	case *ssa.Range:
		fr.env[v] = x.doRange(st, fr, v)
	case *ssa.Send:
		x.doSend(st, fr, x.val(st, fr, v.Chan), x.val(st, fr, v.X), v.Pos())
	default:
		unsupported("instruction %T in %s", in, fr.fn)
	}
	return true
}

func (x *Exec) cellID(fr *Frame, a *ssa.Alloc) int {
	k := fmt.Sprintf("%s|%s|%p", fr.key, a.Name(), a)
	if id, ok := x.cellIDs[k]; ok {
		return id
	}
	id := len(x.cellIDs) + 1
	x.cellIDs[k] = id
	x.cellOwner[id] = fr.key
	return id
}

func (x *Exec) newCell(st *State, key string, v Value, t types.Type) int {
	id, ok := x.cellIDs[key]
	if !ok {
		id = len(x.cellIDs) + 1
		x.cellIDs[key] = id
	}
	x.cellT[id] = t
	st.cells[id] = v
	return id
}

func (x *Exec) nilCheck(st *State, fr *Frame, p PtrV, pos token.Pos) {
	p = st.resolve(p)
	if p.kind != pRef || len(p.path) > 0 {
		return
	}
	if st.nonnil[p.ref] || x.c.allocOff(p.ref) || p.ref.isInt() && p.ref.val.Sign() < 0 {
		return
	}
	x.implicit(st, fr, "nil-deref", x.c.Ne(p.ref, x.c.Int(0)), pos)
	if x.noFacts == 0 {
		st.nonnil[p.ref] = true
	}
}

func (x *Exec) changeType(v Value, t types.Type) Value {
	switch p := v.(type) {
	case PtrV:
		if pt, ok := t.Underlying().(*types.Pointer); ok && len(p.path) == 0 {
			p.root = pt.Elem()
			return p
		}
		return p
	case IfaceV:
		return p
	}
	return v
}

func (x *Exec) strIndex(st *State, fr *Frame, s, i *Term, pos token.Pos) Value {
	c := x.c
	x.implicit(st, fr, "index-in-range", c.And(c.Le(c.Int(0), i), c.Lt(i, x.strLen(s))), pos)
	if s.op == "str" && i.isInt() && i.val.IsInt64() && i.val.Int64() >= 0 && int(i.val.Int64()) < len(s.name) {
		return c.Int(int64(s.name[i.val.Int64()]))
	}
	r := c.Op("str.to_code", SInt, c.Op("str.at", SStr, s, i))
	st.fact(c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, x.strLen(s))), c.And(c.Le(c.Int(0), r), c.Le(r, c.Int(255)))))
	return r
}

func (x *Exec) strLen(s *Term) *Term {
	if s.op == "str" {
		return x.c.Int(int64(len(s.name)))
	}
	if s.op == "str.++" {
		var l []*Term
		for _, a := range s.args {
			l = append(l, x.strLen(a))
		}
		return x.c.Add(l...)
	}
	if s.op == "ite" {
		return x.c.Ite(s.args[0], x.strLen(s.args[1]), x.strLen(s.args[2]))
	}
	return x.c.Op("str.len", SInt, s)
}

func (x *Exec) concat(ss ...*Term) *Term {
	var out []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == "str.++" {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if t.op == "str" {
			if t.name == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].op == "str" {
				out[n-1] = x.c.Str(out[n-1].name + t.name)
				return
			}
		}
		out = append(out, t)
	}
	for _, s := range ss {
		add(s)
	}
	switch len(out) {
	case 0:
		return x.c.Str("")
	case 1:
		return out[0]
	}
	return x.c.Op("str.++", SStr, out...)
}

func (x *Exec) substr(s, off, n *Term) *Term {
	if x.c.isIntVal(off, 0) && n == x.strLen(s) {
		return s
	}
	if s.op == "str" && off.isInt() && n.isInt() {
		o, l := int(off.val.Int64()), int(n.val.Int64())
		if o >= 0 && l >= 0 && o+l <= len(s.name) {
			return x.c.Str(s.name[o : o+l])
		}
	}
	if s.op == "str.++" {
		// drop and keep whole parts
		parts := s.args
		cur := off
		ok := false
		for {
			if cur.isInt() && cur.val.Sign() == 0 {
				ok = true
				break
			}
			if len(parts) == 0 {
				break
			}
			p := parts[0]
			d := x.c.Sub(cur, x.strLen(p))
			if d.isInt() && d.val.Sign() >= 0 {
				parts, cur = parts[1:], d
				continue
			}
			if cur.isInt() && p.op == "str" && cur.val.Sign() > 0 && cur.val.Int64() < int64(len(p.name)) {
				parts = append([]*Term{x.c.Str(p.name[cur.val.Int64():])}, parts[1:]...)
				ok = true
				break
			}
			d = x.c.Sub(cur, x.strLen(p))
			if p.op != "str" && len(parts) > 1 && cur.op != "int" {
				// keep looking only when the offset mentions this part's length
				l := x.c.linOf(cur)
				if f := l.co[x.strLen(p)]; f != nil && f.Sign() > 0 {
					parts, cur = parts[1:], d
					continue
				}
			}
			break
		}
		if ok {
			rest := x.concat(parts...)
			if n == x.strLen(rest) {
				return rest
			}
			var keep []*Term
			left := n
			for len(parts) > 0 {
				if left.isInt() && left.val.Sign() == 0 {
					return x.concat(keep...)
				}
				p := parts[0]
				if left.isInt() && p.op == "str" && left.val.Sign() > 0 && left.val.Int64() <= int64(len(p.name)) {
					return x.concat(append(keep, x.c.Str(p.name[:left.val.Int64()]))...)
				}
				l := x.c.linOf(left)
				ln := x.strLen(p)
				if p.op == "str" || l.co[ln] != nil && l.co[ln].Sign() > 0 {
					keep = append(keep, p)
					left = x.c.Sub(left, ln)
					parts = parts[1:]
					continue
				}
				break
			}
			if len(parts) == 0 && left.isInt() && left.val.Sign() == 0 {
				return x.concat(keep...)
			}
			return x.c.Op("str.substr", SStr, rest, x.c.Int(0), n)
		}
	}
	return x.c.Op("str.substr", SStr, s, off, n)
}

func (x *Exec) unop(st *State, fr *Frame, v *ssa.UnOp) Value {
	c := x.c
	switch v.Op {
	case token.MUL:
		p := x.val(st, fr, v.X).(PtrV)
		x.nilCheck(st, fr, p, v.Pos())
		if g, ok := v.X.(*ssa.Global); ok {
			if gv := x.globalConst(st, g); gv != nil {
				return gv
			}
		}
		x.guardCheck(st, fr, v.X, false, v.Pos())
		return x.load(st, p)
	case token.NOT:
		return c.Not(x.val(st, fr, v.X).(*Term))
	case token.SUB:
		t := x.val(st, fr, v.X).(*Term)
		if t.sort == SFlt {
			return c.UF("flt_neg", SFlt, t)
		}
		return x.arith(st, fr, v.Type(), c.Neg(t), v.Pos())
	case token.XOR:
		t := x.val(st, fr, v.X).(*Term)
		_, hi, _, signed, ok := intRange(v.Type())
		if !ok {
			unsupported("^ on %s", v.Type())
		}
		if signed {
			return c.Sub(c.Neg(t), c.Int(1))
		}
		return c.Sub(c.Big(hi), t)
	case token.ARROW:
		r := x.doRecv(st, fr, x.val(st, fr, v.X), v.X.Type().Underlying().(*types.Chan).Elem())
		if v.CommaOk {
			return TupleV{r, c.Fresh("recvok", SBool)}
		}
		return r
	}
	unsupported("unop %s", v.Op)
	return nil
}

// arith gives the machine result of an integer operation: unsigned and small
// types wrap exactly, 64-bit signed operations must not overflow (obligation).
func (x *Exec) arith(st *State, fr *Frame, t types.Type, r *Term, pos token.Pos) *Term {
	c := x.c
	lo, hi, bits, signed, ok := intRange(t)
	if !ok {
		unsupported("arithmetic on %s", t)
	}
	if r.isInt() && r.val.Cmp(lo) >= 0 && r.val.Cmp(hi) <= 0 {
		return r
	}
	if signed && bits == 64 {
		if x.ct.WrapInt {
			return x.wrap(st, t, r)
		}
		x.implicit(st, fr, "no-overflow", c.And(c.Le(c.Big(lo), r), c.Le(r, c.Big(hi))), pos)
		return r
	}
	return x.wrap(st, t, r)
}

func (x *Exec) wrap(st *State, t types.Type, r *Term) *Term {
	c := x.c
	lo, hi, bits, signed, _ := intRange(t)
	if r.isInt() && r.val.Cmp(lo) >= 0 && r.val.Cmp(hi) <= 0 {
		return r
	}
	m := c.Big(pow2(bits))
	inr := c.And(c.Le(c.Big(lo), r), c.Le(r, c.Big(hi)))
	var w *Term
	if signed {
		h := c.Big(pow2(bits - 1))
		w = c.Sub(c.Mod(c.Add(r, h), m), h)
	} else {
		w = c.Mod(r, m)
	}
	if w.isInt() {
		return w
	}
	return c.Ite(inr, r, w)
}

func (x *Exec) binop(st *State, fr *Frame, op token.Token, t, rt types.Type, a, b Value, pos token.Pos) Value {
	c := x.c
	switch op {
	case token.EQL:
		return x.equal(st, t, a, b)
	case token.NEQ:
		return c.Not(x.equal(st, t, a, b))
	}
	ta, ok1 := a.(*Term)
	tb, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		unsupported("binop %s on %T", op, a)
	}
	bt, _ := t.Underlying().(*types.Basic)
	if bt == nil {
		unsupported("binop %s on %s", op, t)
	}
	switch {
	case bt.Info()&types.IsString != 0:
		switch op {
		case token.ADD:
			return x.concat(ta, tb)
		case token.LSS:
			return c.Op("str.<", SBool, ta, tb)
		case token.GTR:
			return c.Op("str.<", SBool, tb, ta)
		case token.LEQ:
			return c.Not(c.Op("str.<", SBool, tb, ta))
		case token.GEQ:
			return c.Not(c.Op("str.<", SBool, ta, tb))
		}
	case bt.Info()&types.IsFloat != 0:
		if r := x.fltFold(op, ta, tb); r != nil {
			return r
		}
		switch op {
		case token.LSS:
			return c.UF("flt_lt", SBool, ta, tb)
		case token.GTR:
			return c.UF("flt_lt", SBool, tb, ta)
		case token.LEQ:
			return c.UF("flt_le", SBool, ta, tb)
		case token.GEQ:
			return c.UF("flt_le", SBool, tb, ta)
		}
		return c.UF("flt_"+op.String(), SFlt, ta, tb)
	case bt.Info()&types.IsInteger != 0:
		switch op {
		case token.LSS:
			return c.Lt(ta, tb)
		case token.LEQ:
			return c.Le(ta, tb)
		case token.GTR:
			return c.Lt(tb, ta)
		case token.GEQ:
			return c.Le(tb, ta)
		case token.ADD:
			return x.arith(st, fr, rt, c.Add(ta, tb), pos)
		case token.SUB:
			return x.arith(st, fr, rt, c.Sub(ta, tb), pos)
		case token.MUL:
			return x.arith(st, fr, rt, c.Mul(ta, tb), pos)
		case token.QUO, token.REM:
			x.implicit(st, fr, "division-by-zero", c.Ne(tb, c.Int(0)), pos)
			q, r := x.truncDiv(ta, tb)
			if op == token.QUO {
				return x.wrap(st, rt, q)
			}
			return r
		case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR:
			return x.bitop(st, fr, op, rt, ta, tb, pos)
		}
	case bt.Info()&types.IsBoolean != 0:
		switch op {
		case token.AND:
			return c.And(ta, tb)
		case token.OR:
			return c.Or(ta, tb)
		}
	}
	unsupported("binop %s on %s", op, t)
	return nil
}

// truncated division from floor division
func (x *Exec) truncDiv(a, b *Term) (q, r *Term) {
	c := x.c
	if a.isInt() && b.isInt() && b.val.Sign() != 0 {
		qq, rr := new(big.Int), new(big.Int)
		qq.QuoRem(a.val, b.val, rr)
		return c.Big(qq), c.Big(rr)
	}
	// SMT div: a = b*div + mod, 0 <= mod < |b|
	d := c.Div(a, b)
	m := c.Mod(a, b)
	adj := c.And(c.Lt(a, c.Int(0)), c.Ne(m, c.Int(0)))
	pos := c.Lt(c.Int(0), b)
	q = c.Ite(adj, c.Ite(pos, c.Add(d, c.Int(1)), c.Sub(d, c.Int(1))), d)
	r = c.Ite(adj, c.Ite(pos, c.Sub(m, b), c.Add(m, b)), m)
	return
}

// bit operations on mathematical integers: constant masks and shifts become
// div/mod arithmetic, everything else goes through bit-decomposition of the
// constant operand.
func (x *Exec) bitop(st *State, fr *Frame, op token.Token, rt types.Type, a, b *Term, pos token.Pos) *Term {
	c := x.c
	_, _, bits, signed, ok := intRange(rt)
	if !ok {
		unsupported("bit operation on %s", rt)
	}
	if a.isInt() && b.isInt() {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(a.val, b.val)
		case token.OR:
			r.Or(a.val, b.val)
		case token.XOR:
			r.Xor(a.val, b.val)
		case token.AND_NOT:
			r.AndNot(a.val, b.val)
		case token.SHL:
			r.Lsh(a.val, uint(b.val.Uint64()))
		case token.SHR:
			r.Rsh(a.val, uint(b.val.Uint64()))
		}
		return x.wrap(st, rt, c.Big(r))
	}
	switch op {
	case token.SHL:
		if b.isInt() && b.val.IsInt64() && b.val.Int64() >= 0 && b.val.Int64() < 64 {
			return x.wrap(st, rt, c.Mul(a, c.Big(pow2(uint(b.val.Int64())))))
		}
		if a.isInt() || true {
			// symbolic shift below 64: case split
			x.implicit(st, fr, "shift-not-negative", c.Le(c.Int(0), b), pos)
			r := c.Int(0)
			for k := int(bits) - 1; k >= 0; k-- {
				r = c.Ite(c.Eq(b, c.Int(int64(k))), x.wrap(st, rt, c.Mul(a, c.Big(pow2(uint(k))))), r)
			}
			return r
		}
	case token.SHR:
		if b.isInt() && b.val.IsInt64() && b.val.Int64() >= 0 && b.val.Int64() < 64 {
			return c.Div(a, c.Big(pow2(uint(b.val.Int64()))))
		}
		x.implicit(st, fr, "shift-not-negative", c.Le(c.Int(0), b), pos)
		r := c.Ite(c.Lt(a, c.Int(0)), c.Int(-1), c.Int(0))
		for k := int(bits) - 1; k >= 0; k-- {
			r = c.Ite(c.Eq(b, c.Int(int64(k))), c.Div(a, c.Big(pow2(uint(k)))), r)
		}
		return r
	}
	// and/or/xor: by bits of a constant operand when there is one
	if a.isInt() {
		a, b = b, a
		if op == token.AND_NOT {
			// const &^ x = const - (const & x)
			return c.Sub(b, x.andConst(a, b.val, bits))
		}
	}
	if b.isInt() {
		and := x.andConst(a, b.val, bits)
		switch op {
		case token.AND:
			return and
		case token.OR:
			return c.Sub(c.Add(a, b), and)
		case token.XOR:
			return c.Sub(c.Add(a, b), c.Mul(c.Int(2), and))
		case token.AND_NOT:
			return c.Sub(a, and)
		}
	}
	// both symbolic: full bit decomposition for narrow types, flag arithmetic for int
	n := bits
	if n > 16 {
		// values restricted to 8 bits decompose exactly; otherwise uninterpreted
		f := c.UF("bit_"+op.String(), SInt, a, b)
		small := c.And(c.Le(c.Int(0), a), c.Lt(a, c.Int(256)), c.Le(c.Int(0), b), c.Lt(b, c.Int(256)))
		r := x.bitsOp(op, a, b, 8)
		_ = signed
		return c.Ite(small, r, f)
	}
	if signed {
		unsupported("bit operation on signed narrow type")
	}
	return x.bitsOp(op, a, b, int(n))
}

func (x *Exec) bit(a *Term, k int) *Term {
	c := x.c
	return c.Mod(c.Div(a, c.Big(pow2(uint(k)))), c.Int(2))
}

func (x *Exec) bitsOp(op token.Token, a, b *Term, n int) *Term {
	c := x.c
	sum := c.Int(0)
	for k := 0; k < n; k++ {
		ba, bb := c.Eq(x.bit(a, k), c.Int(1)), c.Eq(x.bit(b, k), c.Int(1))
		var g *Term
		switch op {
		case token.AND:
			g = c.And(ba, bb)
		case token.OR:
			g = c.Or(ba, bb)
		case token.XOR:
			g = c.Ne(ba, bb)
		case token.AND_NOT:
			g = c.And(ba, c.Not(bb))
		}
		sum = c.Add(sum, c.Ite(g, c.Big(pow2(uint(k))), c.Int(0)))
	}
	return sum
}

// andConst computes a & mask for a constant mask (two's complement semantics).
func (x *Exec) andConst(a *Term, mask *big.Int, bits uint) *Term {
	c := x.c
	if mask.Sign() < 0 {
		// a & mask = a - (a & ^mask)
		inv := new(big.Int).Not(mask)
		return c.Sub(a, x.andConst(a, inv, bits))
	}
	// contiguous runs of ones
	sum := c.Int(0)
	i := 0
	for i < mask.BitLen() {
		if mask.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < mask.BitLen() && mask.Bit(j) == 1 {
			j++
		}
		part := c.Mod(c.Div(a, c.Big(pow2(uint(i)))), c.Big(pow2(uint(j-i))))
		sum = c.Add(sum, c.Mul(c.Big(pow2(uint(i))), part))
		i = j
	}
	return sum
}

func (x *Exec) equal(st *State, t types.Type, a, b Value) *Term {
	c := x.c
	switch av := a.(type) {
	case *Term:
		bv := b.(*Term)
		if av.sort == SFlt {
			if r := x.fltFold(token.EQL, av, bv); r != nil {
				return r
			}
			if x.noFacts == 0 {
				st.fact(c.Implies(c.And(c.Eq(av, bv), c.Not(x.fltIs(st, "nan", av))), c.UF("flt_eq", SBool, av, bv)))
			}
			return c.UF("flt_eq", SBool, av, bv)
		}
		return c.Eq(av, bv)
	case SliceV:
		bv := b.(SliceV)
		if bv.arr.isInt() && bv.arr.val.Sign() == 0 {
			return c.Eq(av.arr, c.Int(0))
		}
		return c.Eq(bv.arr, c.Int(0))
	case IfaceV:
		bv := b.(IfaceV)
		x.box(st, &av)
		x.box(st, &bv)
		return c.And(c.Eq(av.tag, bv.tag), c.Eq(av.data, bv.data))
	case StructV:
		bv := b.(StructV)
		var cs []*Term
		u := t.Underlying().(*types.Struct)
		for i := range av.f {
			cs = append(cs, x.equal(st, u.Field(i).Type(), av.f[i], bv.f[i]))
		}
		return c.And(cs...)
	case ArrayV:
		bv := b.(ArrayV)
		var cs []*Term
		u := t.Underlying().(*types.Array)
		for i := range av.e {
			cs = append(cs, x.equal(st, u.Elem(), av.e[i], bv.e[i]))
		}
		return c.And(cs...)
	case PtrV:
		bv := b.(PtrV)
		an, bn := x.isNilPtr(av), x.isNilPtr(bv)
		av, bv = st.resolve(av), st.resolve(bv)
		if an || bn {
			if an {
				av, bv = bv, av
			}
			if av.kind != pRef || len(av.path) > 0 {
				return c.False()
			}
			return c.Eq(av.ref, c.Int(0))
		}
		if av.kind == pCell || bv.kind == pCell {
			if av.kind == bv.kind && av.cell == bv.cell && fmt.Sprint(av.path) == fmt.Sprint(bv.path) {
				return c.True()
			}
			if av.kind == pCell && bv.kind == pCell || len(av.path) == 0 && len(bv.path) == 0 {
				return c.False()
			}
		}
		if av.kind == pElem && bv.kind == pElem && len(av.path) == 0 && len(bv.path) == 0 {
			return c.And(c.Eq(av.arr, bv.arr), c.Eq(av.idx, bv.idx))
		}
		if av.kind == pRef && bv.kind == pRef && len(av.path) == 0 && len(bv.path) == 0 {
			return c.Eq(av.ref, bv.ref)
		}
		unsupported("pointer comparison")
	case FuncV:
		bv := b.(FuncV)
		isnil := func(f FuncV) *Term {
			if f.fn != nil {
				return c.False()
			}
			if f.ref == nil {
				return c.True()
			}
			return c.Eq(f.ref, c.Int(0))
		}
		if bv.fn == nil && (bv.ref == nil || c.isIntVal(bv.ref, 0)) {
			return isnil(av)
		}
		if av.fn == nil && (av.ref == nil || c.isIntVal(av.ref, 0)) {
			return isnil(bv)
		}
	}
	unsupported("equality on %T", a)
	return nil
}

func (x *Exec) isNilPtr(p PtrV) bool {
	return p.kind == pRef && len(p.path) == 0 && x.c.isIntVal(p.ref, 0)
}

// ---------------------------------------------------------------- slices

func (x *Exec) makeSlice(st *State, et types.Type, n, cp *Term) SliceV {
	r := st.newRef()
	for i, s := range x.leaves(et) {
		x.setElems(st, et, r, i, x.c.ConstArr(arrSort(SInt, s), x.zeroLeaf(s)))
	}
	return SliceV{r, x.c.Int(0), n, cp}
}

func (x *Exec) sliceInstr(st *State, fr *Frame, v *ssa.Slice) bool {
	c := x.c
	get := func(e ssa.Value, def *Term) *Term {
		if e == nil {
			return def
		}
		return x.val(st, fr, e).(*Term)
	}
	switch b := x.val(st, fr, v.X).(type) {
	case *Term: // string
		n := x.strLen(b)
		lo, hi := get(v.Low, c.Int(0)), get(v.High, n)
		x.implicit(st, fr, "slice-bounds", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, n)), v.Pos())
		fr.env[v] = x.substr(b, lo, c.Sub(hi, lo))
	case SliceV:
		lo, hi, mx := get(v.Low, c.Int(0)), get(v.High, b.len), get(v.Max, b.cap)
		x.implicit(st, fr, "slice-bounds", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, b.cap)), v.Pos())
		if v.High != nil {
			if _, isC := v.High.(*ssa.Const); !isC || true {
				// extending beyond the length would expose unspecified elements
				x.implicit(st, fr, "reslice-within-length", c.Le(hi, b.len), v.Pos())
			}
		}
		fr.env[v] = SliceV{b.arr, c.Add(b.off, lo), c.Sub(hi, lo), c.Sub(mx, lo)}
		// a nil slice stays nil: offsets of nil slices are zero because lo <= cap = 0
	case PtrV:
		x.nilCheck(st, fr, b, v.Pos())
		arr, n, _ := x.arrayObj(st, b)
		lo, hi, mx := get(v.Low, c.Int(0)), get(v.High, c.Int(n)), get(v.Max, c.Int(n))
		x.implicit(st, fr, "slice-bounds", c.And(c.Le(c.Int(0), lo), c.Le(lo, hi), c.Le(hi, mx), c.Le(mx, c.Int(n))), v.Pos())
		fr.env[v] = SliceV{arr, lo, c.Sub(hi, lo), c.Sub(mx, lo)}
	default:
		unsupported("slice of %T", b)
	}
	return true
}

// appendVals implements append(s, t...).
func (x *Exec) appendVals(st *State, et types.Type, s, t SliceV) SliceV {
	c := x.c
	if t.len.isInt() && t.len.val.Sign() == 0 {
		return s
	}
	if s.len.isInt() && s.len.val.Sign() == 0 && s.cap.isInt() && s.cap.val.Sign() == 0 && !t.len.isInt() {
		// append to nil: a copy, or still nil
		r := st.newRef()
		ncap := c.Fresh("cap", SInt)
		st.fact(c.And(c.Le(t.len, ncap), c.Le(ncap, c.Int(maxLen*4))))
		for i, srt := range x.leaves(et) {
			src := x.elems(st, et, t.arr, i)
			nc := src
			if !c.isIntVal(t.off, 0) {
				nc = c.Fresh("appended", arrSort(SInt, srt))
				k := c.FreshVar("k", SInt)
				st.fact(c.Forall([]*Term{k}, c.Implies(c.And(c.Le(c.Int(0), k), c.Lt(k, t.len)), c.Eq(c.Select(nc, k), c.Select(src, c.Add(t.off, k)))), c.Select(nc, k)))
			}
			x.setElems(st, et, r, i, nc)
		}
		em := c.Eq(t.len, c.Int(0))
		return SliceV{c.Ite(em, s.arr, r), c.Int(0), t.len, c.Ite(em, c.Int(0), ncap)}
	}
	nl := c.Add(s.len, t.len)
	grow := c.Lt(s.cap, nl)
	r := st.newRef()
	ncap := c.Fresh("cap", SInt)
	st.fact(c.And(c.Le(nl, ncap), c.Le(ncap, c.Int(maxLen*4))))
	arr := c.Ite(grow, r, s.arr)
	cp := c.Ite(grow, ncap, s.cap)
	small := t.len.isInt() && t.len.val.IsInt64() && t.len.val.Int64() <= 8
	for i, srt := range x.leaves(et) {
		old := x.elems(st, et, s.arr, i)
		src := x.elems(st, et, t.arr, i)
		var nc *Term
		if small {
			nc = old
			for k := int64(0); k < t.len.val.Int64(); k++ {
				nc = c.Store(nc, c.Add(s.off, s.len, c.Int(k)), c.Select(src, c.Add(t.off, c.Int(k))))
			}
		} else {
			nc = c.Fresh("appended", arrSort(SInt, srt))
			k := c.FreshVar("k", SInt)
			base := c.Add(s.off, s.len)
			in := c.And(c.Le(base, k), c.Lt(k, c.Add(base, t.len)))
			body := c.Eq(c.Select(nc, k), c.Ite(in, c.Select(src, c.Add(t.off, c.Sub(k, base))), c.Select(old, k)))
			st.fact(c.Forall([]*Term{k}, body, c.Select(nc, k)))
			st.fact(c.Implies(c.Eq(t.len, c.Int(0)), c.Eq(nc, old)))
		}
		x.setElems(st, et, arr, i, nc)
	}
	return SliceV{arr, s.off, nl, cp}
}

func (x *Exec) copyVals(st *State, et types.Type, d, s SliceV) *Term {
	c := x.c
	n := c.Ite(c.Le(d.len, s.len), d.len, s.len)
	for i, srt := range x.leaves(et) {
		old := x.elems(st, et, d.arr, i)
		src := x.elems(st, et, s.arr, i)
		nc := c.Fresh("copied", arrSort(SInt, srt))
		k := c.FreshVar("k", SInt)
		in := c.And(c.Le(d.off, k), c.Lt(k, c.Add(d.off, n)))
		body := c.Eq(c.Select(nc, k), c.Ite(in, c.Select(src, c.Add(s.off, c.Sub(k, d.off))), c.Select(old, k)))
		st.fact(c.Forall([]*Term{k}, body, c.Select(nc, k)))
		x.setElems(st, et, d.arr, i, nc)
	}
	return n
}

// ---------------------------------------------------------------- maps

func (x *Exec) mkeys(mt *types.Map) (dom, ln string, vals []string, ks string) {
	kl := x.leaves(mt.Key())
	ks = SInt // composite keys are encoded as one integer, see keyTerm
	if len(kl) == 1 {
		ks = kl[0]
	}
	n := x.typeKey(mt.Key()) + "|" + x.typeKey(mt.Elem())
	dom = "MD|" + n
	ln = "ML|" + n
	for i := range x.leaves(mt.Elem()) {
		vals = append(vals, fmt.Sprintf("MV|%s|%d", n, i))
	}
	return
}

// keyTerm is the heap index of a map key; keys of several components are
// encoded injectively.
func (x *Exec) keyTerm(st *State, mt *types.Map, key Value) *Term {
	l := x.toLeaves(st, mt.Key(), key)
	if len(l) == 1 {
		return l[0]
	}
	n := x.typeKey(mt.Key())
	if strings.HasPrefix(l[0].op, "uf:mapkey0:") && len(l[0].args) == 1 {
		// the components of an enumerated key
		k := l[0].args[0]
		same := true
		for i, t := range l {
			same = same && t == x.c.UF(fmt.Sprintf("mapkey%d:%s", i, n), t.sort, k)
		}
		if same {
			return k
		}
	}
	k := x.c.UF("mapkey:"+n, SInt, l...)
	for i, t := range l {
		st.fact(x.c.Eq(x.c.UF(fmt.Sprintf("mapkey%d:%s", i, n), t.sort, k), t))
	}
	return k
}

// keyValue is the inverse of keyTerm.
func (x *Exec) keyValue(mt *types.Map, k *Term) Value {
	sorts := x.leaves(mt.Key())
	if len(sorts) == 1 {
		return x.fromLeaves(mt.Key(), []*Term{k})
	}
	var l []*Term
	for i, s := range sorts {
		l = append(l, x.c.UF(fmt.Sprintf("mapkey%d:%s", i, x.typeKey(mt.Key())), s, k))
	}
	return x.fromLeaves(mt.Key(), l)
}

// mapHeap reports whether heap k belongs to maps of type mt.
func (x *Exec) mapHeap(mt *types.Map, k string) bool {
	n := x.typeKey(mt.Key()) + "|" + x.typeKey(mt.Elem())
	return k == "MD|"+n || k == "ML|"+n || strings.HasPrefix(k, "MV|"+n+"|")
}

func (x *Exec) mapDom(st *State, mt *types.Map, m *Term) *Term {
	if s := x.snapMap[m]; s != nil {
		return s.dom
	}
	dom, _, _, ks := x.mkeys(mt)
	return x.c.Select(st.get(dom, arrSort(SInt, arrSort(ks, SBool))), m)
}

func (x *Exec) mapHas(st *State, mt *types.Map, m, k *Term) *Term {
	return x.c.And(x.c.Ne(m, x.c.Int(0)), x.c.Select(x.mapDom(st, mt, m), k))
}

func (x *Exec) mapValRaw(st *State, mt *types.Map, m, k *Term) Value {
	_, _, vk, ks := x.mkeys(mt)
	var l []*Term
	sorts := x.leaves(mt.Elem())
	roles := x.roles(mt.Elem())
	for i, s := range sorts {
		if sm := x.snapMap[m]; sm != nil {
			tm := x.c.Select(sm.vals[i], k)
			x.initialFacts(st, tm, sm.vals[i], roles[i], true, m)
			l = append(l, tm)
			continue
		}
		h := st.get(vk[i], arrSort(SInt, arrSort(ks, s)))
		x.refHeap(vk[i], h, roles[i], ks, k.open || m.open)
		tm := x.c.Select(x.c.Select(h, m), k)
		x.initialFacts(st, tm, h, roles[i], m.old, m)
		l = append(l, tm)
	}
	v := x.fromLeaves(mt.Elem(), l)
	x.wf(st, mt.Elem(), v, st.alloc)
	return v
}

func (x *Exec) mapGet(st *State, mt *types.Map, m *Term, key Value) (Value, *Term) {
	k := x.keyTerm(st, mt, key)
	ok := x.mapHas(st, mt, m, k)
	raw := x.mapValRaw(st, mt, m, k)
	v, good := x.mergeVal(ok, raw, x.zero(mt.Elem()))
	if !good {
		unsupported("map value merge")
	}
	return v, ok
}

func (x *Exec) mapSet(st *State, mt *types.Map, m *Term, key, val Value) {
	c := x.c
	dom, ln, vk, ks := x.mkeys(mt)
	k := x.keyTerm(st, mt, key)
	had := x.mapHas(st, mt, m, k)
	lh := st.get(ln, arrSort(SInt, SInt))
	st.heap[ln] = c.Store(lh, m, c.Ite(had, c.Select(lh, m), c.Add(c.Select(lh, m), c.Int(1))))
	dh := st.get(dom, arrSort(SInt, arrSort(ks, SBool)))
	st.heap[dom] = c.Store(dh, m, c.Store(c.Select(dh, m), k, c.True()))
	for i, t := range x.toLeaves(st, mt.Elem(), val) {
		h := st.get(vk[i], arrSort(SInt, arrSort(ks, t.sort)))
		st.heap[vk[i]] = c.Store(h, m, c.Store(c.Select(h, m), k, t))
	}
}

func (x *Exec) mapDelete(st *State, mt *types.Map, m *Term, key Value) {
	c := x.c
	dom, ln, _, ks := x.mkeys(mt)
	k := x.keyTerm(st, mt, key)
	had := x.mapHas(st, mt, m, k)
	lh := st.get(ln, arrSort(SInt, SInt))
	st.heap[ln] = c.Store(lh, m, c.Ite(had, c.Sub(c.Select(lh, m), c.Int(1)), c.Select(lh, m)))
	dh := st.get(dom, arrSort(SInt, arrSort(ks, SBool)))
	st.heap[dom] = c.Store(dh, m, c.Store(c.Select(dh, m), k, c.False()))
}

func (x *Exec) makeMap(st *State, mt *types.Map) *Term {
	c := x.c
	dom, ln, _, ks := x.mkeys(mt)
	r := st.newRef()
	dh := st.get(dom, arrSort(SInt, arrSort(ks, SBool)))
	st.heap[dom] = c.Store(dh, r, c.ConstArr(arrSort(ks, SBool), c.False()))
	lh := st.get(ln, arrSort(SInt, SInt))
	st.heap[ln] = c.Store(lh, r, c.Int(0))
	return r
}

func (x *Exec) mapLen(st *State, mt *types.Map, m *Term) *Term {
	c := x.c
	_, ln, _, _ := x.mkeys(mt)
	n := c.Select(st.get(ln, arrSort(SInt, SInt)), m)
	if s := x.snapMap[m]; s != nil {
		n = s.ln
	}
	st.fact(c.And(c.Le(c.Int(0), n), c.Le(n, c.Int(maxLen))))
	return c.Ite(c.Eq(m, c.Int(0)), c.Int(0), n)
}

func (x *Exec) doRange(st *State, fr *Frame, v *ssa.Range) Value {
	switch t := v.X.Type().Underlying().(type) {
	case *types.Map:
		x.guardCheck(st, fr, v.X, false, v.Pos())
		m := x.val(st, fr, v.X).(*Term)
		_, _, _, ks := x.mkeys(t)
		vis := x.c.ConstArr(arrSort(ks, SBool), x.c.False())
		id := x.newCell(st, fmt.Sprintf("%s|iter|%p", fr.key, v), vis, nil)
		return IterV{m: m, mt: t, cell: id}
	}
	unsupported("range over %s in %s", v.X.Type(), fr.fn)
	return nil
}

func (x *Exec) doNext(st *State, fr *Frame, v *ssa.Next) []Outcome {
	c := x.c
	it := x.val(st, fr, v.Iter).(IterV)
	if rg, ok := v.Iter.(*ssa.Range); ok {
		x.guardCheck(st, fr, rg.X, false, v.Pos())
	}
	_, _, _, ks := x.mkeys(it.mt)
	vis := st.cells[it.cell].(*Term)
	// exhausted: every key was visited
	done := st.clone()
	kv := c.FreshVar("key", ks)
	dom := x.mapDom(st, it.mt, it.m)
	done.fact(c.Forall([]*Term{kv}, c.Implies(c.And(c.Ne(it.m, c.Int(0)), c.Select(dom, kv)), c.Select(vis, kv))))
	zk := x.zero(it.mt.Key())
	zv := x.zero(it.mt.Elem())
	o1 := Outcome{done, TupleV{c.False(), zk, zv}}
	// another key
	key := c.Fresh("key", ks)
	st.fact(c.And(c.Ne(it.m, c.Int(0)), c.Select(dom, key), c.Not(c.Select(vis, key))))
	kval := x.keyValue(it.mt, key)
	x.wf(st, it.mt.Key(), kval, st.alloc)
	raw := x.mapValRaw(st, it.mt, it.m, key)
	st.cells[it.cell] = c.Store(vis, key, c.True())
	o2 := Outcome{st, TupleV{c.True(), kval, raw}}
	return []Outcome{o2, o1}
}

// ---------------------------------------------------------------- channels

func (x *Exec) doRecv(st *State, fr *Frame, ch Value, et types.Type) Value {
	// ownership transfer: a received pointer is an object nobody else holds
	if pt, ok := et.Underlying().(*types.Pointer); ok {
		r := st.newRef()
		st.nonnil[r] = true
		for i, s := range x.leaves(pt.Elem()) {
			k := x.fkey(pt.Elem(), i)
			h := st.get(k, arrSort(SInt, s))
			st.heap[k] = x.c.Store(h, r, x.c.Fresh("recycled", s))
		}
		return PtrV{kind: pRef, ref: r, root: pt.Elem()}
	}
	return x.freshVal(st, et, "recv")
}

func (x *Exec) doSend(st *State, fr *Frame, ch, v Value, pos token.Pos) {}

func (x *Exec) doSelect(st *State, fr *Frame, v *ssa.Select) []Outcome {
	var outs []Outcome
	mk := func(s *State, idx int64, recvOK *Term, recv []Value) Outcome {
		t := TupleV{x.c.Int(idx), recvOK}
		t = append(t, recv...)
		return Outcome{s, t}
	}
	var rts []types.Type
	for _, sstate := range v.States {
		if sstate.Dir == types.RecvOnly {
			rts = append(rts, sstate.Chan.Type().Underlying().(*types.Chan).Elem())
		}
	}
	zeros := func() []Value {
		var z []Value
		for _, t := range rts {
			z = append(z, x.zero(t))
		}
		return z
	}
	ri := 0
	for i, ss := range v.States {
		s := st.clone()
		if ss.Dir == types.RecvOnly {
			z := zeros()
			z[ri] = x.doRecv(s, fr, nil, rts[ri])
			ri++
			outs = append(outs, mk(s, int64(i), x.c.True(), z))
		} else {
			x.doSend(s, fr, nil, x.val(s, fr, ss.Send), v.Pos())
			outs = append(outs, mk(s, int64(i), x.c.False(), zeros()))
		}
	}
	if !v.Blocking {
		outs = append(outs, mk(st, -1, x.c.False(), zeros()))
	}
	return outs
}

// ---------------------------------------------------------------- conversions

func (x *Exec) bytesStr(st *State, s SliceV, et types.Type) *Term {
	c := x.c
	content := x.elems(st, et, s.arr, 0)
	if content.op == "uf:bytes_of_str" && c.isIntVal(s.off, 0) && s.len == x.strLen(content.args[0]) {
		return content.args[0]
	}
	if s.len.isInt() && s.len.val.Sign() == 0 {
		return c.Str("")
	}
	whole := c.UF("bytestr", SStr, content)
	if g := x.globStr[s.arr]; g != nil {
		if c.isIntVal(s.off, 0) && s.len == x.strLen(g) {
			return g
		}
		whole = g
	}
	if content.op == "uf:bytes_of_str" {
		whole = content.args[0]
	}
	if w := x.wins[winKey{content, s.off, s.len}]; w != nil {
		return w
	}
	st.fact(c.Le(c.Add(s.off, s.len), c.Op("str.len", SInt, whole)))
	r := x.substr(whole, s.off, s.len)
	if r.op != "str.substr" {
		return r
	}
	st.fact(c.Eq(c.Op("str.len", SInt, r), s.len))
	return r
}

func (x *Exec) strBytes(st *State, s *Term, et types.Type) SliceV {
	c := x.c
	r := st.newRef()
	x.setElems(st, et, r, 0, c.UF("bytes_of_str", arrSort(SInt, SInt), s))
	n := x.strLen(s)
	cp := c.Fresh("cap", SInt)
	st.fact(c.And(c.Le(n, cp), c.Le(cp, c.Int(maxLen*2))))
	return SliceV{r, c.Int(0), n, cp}
}

// onlyLoaded: the element's address is only used to read it.
func onlyLoaded(v *ssa.IndexAddr) bool {
	for _, r := range *v.Referrers() {
		if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
			return false
		}
	}
	return true
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (x *Exec) convert(st *State, fr *Frame, v Value, from, to types.Type) Value {
	c := x.c
	switch {
	case isInteger(from) && isInteger(to):
		return x.wrap(st, to, v.(*Term))
	case isString(from) && isString(to):
		return v
	case isString(to):
		if s, ok := v.(SliceV); ok {
			et := from.Underlying().(*types.Slice).Elem()
			if b, ok := et.Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				return x.bytesStr(st, s, et)
			}
		}
		if t, ok := v.(*Term); ok && isInteger(from) {
			if t.isInt() {
				return c.Str(string(rune(t.val.Int64())))
			}
			return c.UF("rune_str", SStr, t)
		}
	case isString(from):
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Byte {
				return x.strBytes(st, v.(*Term), sl.Elem())
			}
		}
	case isInteger(from) && isFloat(to):
		return c.UF("flt_of_int_"+to.Underlying().String(), SFlt, v.(*Term))
	case isFloat(from) && isInteger(to):
		r := c.UF("int_of_flt_"+to.Underlying().String(), SInt, v.(*Term))
		lo, hi, _, _, _ := intRange(to)
		st.fact(c.And(c.Le(c.Big(lo), r), c.Le(r, c.Big(hi))))
		return r
	case isFloat(from) && isFloat(to):
		if types.Identical(from.Underlying(), to.Underlying()) {
			return v
		}
		f, t := from.Underlying().String(), to.Underlying().String()
		r := c.UF("flt_conv_"+f+"_"+t, SFlt, v.(*Term))
		if x.noFacts == 0 {
			// NaN and the infinities convert to themselves; widening loses nothing
			for _, w := range []string{"nan", "pinf", "ninf"} {
				a, b := x.fltIs(st, w, v.(*Term)), x.fltIs(st, w, r)
				st.fact(c.Implies(a, b))
				if f == "float32" || w == "nan" {
					st.fact(c.Implies(b, a))
				}
			}
			if f == "float32" {
				st.fact(c.Or(x.fltIs(st, "nan", r), c.Eq(c.UF("flt_conv_"+t+"_"+f, SFlt, r), v.(*Term))))
			}
		}
		return r
	}
	unsupported("conversion %s to %s", from, to)
	return nil
}

func (x *Exec) typeAssert(st *State, fr *Frame, v *ssa.TypeAssert) Value {
	c := x.c
	iv := x.val(st, fr, v.X).(IfaceV)
	var ok *Term
	var res Value
	if types.IsInterface(v.AssertedType) {
		it := v.AssertedType.Underlying().(*types.Interface)
		if iv.dyn != nil {
			ok = c.Bool(types.Implements(iv.dyn, it))
		} else if c.isIntVal(iv.tag, 0) {
			ok = c.False()
		} else {
			ok = c.And(c.Ne(iv.tag, c.Int(0)), c.UF("implements|"+types.TypeString(v.AssertedType, nil), SBool, iv.tag))
		}
		x.box(st, &iv)
		res = iv
		if v.CommaOk {
			m, good := x.mergeVal(ok, iv, x.zero(v.AssertedType))
			if !good {
				unsupported("type assert merge")
			}
			res = m
		}
	} else {
		id := x.typeID(v.AssertedType)
		ok = c.Eq(iv.tag, id)
		if iv.dyn != nil && iv.val != nil && ok.isTrue() {
			res = iv.val
		} else {
			x.box(st, &iv)
			if _, isP := v.AssertedType.Underlying().(*types.Pointer); isP {
				res = x.fromLeaves(v.AssertedType, []*Term{iv.data})
			} else {
				var l []*Term
				name := x.typeKey(v.AssertedType)
				for k, s := range x.leaves(v.AssertedType) {
					l = append(l, c.UF(fmt.Sprintf("unbox%d|%s", k, name), s, iv.data))
				}
				res = x.fromLeaves(v.AssertedType, l)
				x.wf(st, v.AssertedType, res, st.alloc)
				// boxing is injective
				st.fact(c.Implies(ok, c.Eq(c.UF("box|"+name, SInt, l...), iv.data)))
			}
		}
		if v.CommaOk {
			m, good := x.mergeVal(ok, res, x.zero(v.AssertedType))
			if !good {
				if ok.isTrue() {
					m = res
				} else {
					unsupported("type assert merge")
				}
			}
			res = m
		}
	}
	if v.CommaOk {
		return TupleV{res, ok}
	}
	x.implicit(st, fr, "type-assertion", ok, v.Pos())
	return res
}

// evalSpec runs specification code and merges its paths into one value.
func (x *Exec) evalSpec(st *State, f FuncV, args []Value, key string) Value {
	x.spec++
	defer func() { x.spec-- }()
	base := st.clone()
	outs := x.runFunc(base, f.fn, args, f.bind, key, modeCode, nil)
	return x.mergeOutcomes(st, outs, key)
}

func (x *Exec) mergeOutcomes(st *State, outs []Outcome, key string) Value {
	if len(outs) == 0 {
		unsupported("specification %s has no outcome", key)
	}
	var acc Value
	for i := len(outs) - 1; i >= 0; i-- {
		conds, facts := outs[i].st.since(st.log)
		g := x.c.And(conds...)
		for _, f := range facts {
			st.fact(x.c.Implies(g, f))
		}
		if acc == nil && i == len(outs)-1 {
			acc = outs[i].ret
			continue
		}
		m, ok := x.mergeVal(g, outs[i].ret, acc)
		if !ok {
			unsupported("specification %s: results do not merge", key)
		}
		acc = m
	}
	return acc
}

func debugf(f string, a ...interface{}) {
	if os.Getenv("GOVER_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func sortedKeys(m map[string]*Term) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// loopFree: no loop starts between blk and join
func (x *Exec) loopFree(fn *ssa.Function, blk, join *ssa.BasicBlock) bool {
	loops := x.p.loopsOf(fn)
	seen := map[*ssa.BasicBlock]bool{join: true, blk: true}
	work := append([]*ssa.BasicBlock(nil), blk.Succs...)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		if loops[b] != nil {
			return false
		}
		work = append(work, b.Succs...)
	}
	return true
}

// region runs both branches of a specification conditional up to their join
// and merges them into one state when they only differ in values.
func (x *Exec) region(st *State, fr *Frame, blk, join *ssa.BasicBlock, cnd *Term, outs *[]Outcome) []workItem {
	var ends []workItem
	var work []workItem
	fst := st.clone()
	base := st.log
	tst := st.clone()
	try := func(s *State, f *Frame, succ *ssa.BasicBlock) {
		if !x.enter(s, f, blk, succ) {
			return
		}
		wi := workItem{st: s, fr: f, blk: succ, prev: blk, stop: join, sout: &ends}
		if succ == join {
			ends = append(ends, wi)
		} else {
			work = append(work, wi)
		}
	}
	nout := len(*outs)
	if tst.cond(cnd) {
		try(tst, fr.clone(), blk.Succs[0])
	}
	if fst.cond(x.c.Not(cnd)) {
		try(fst, fr.clone(), blk.Succs[1])
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		x.exec(it, &work, outs)
	}
	if len(ends) <= 1 || len(*outs) > nout {
		return ends
	}
	if m, ok := x.mergeEnds(st, fr, base, join, ends); ok {
		return []workItem{m}
	}
	return ends
}

func (x *Exec) mergeEnds(st *State, fr *Frame, base *logNode, join *ssa.BasicBlock, ends []workItem) (workItem, bool) {
	r := ends[0].st
	heaps := x.ct.Opts["merge"] != "" // states that differ in their heaps merge too
	gs := make([]*Term, len(ends))
	for i, e := range ends {
		conds, _ := e.st.since(base)
		gs[i] = x.c.And(conds...)
	}
	keys := map[string]bool{}
	for _, e := range ends {
		for k := range e.st.heap {
			keys[k] = true
		}
	}
	differ := map[string]bool{}
	cellVals := map[int]Value{}
	for _, e := range ends[1:] {
		if e.st.epoch != r.epoch || len(e.fr.defers) != len(ends[0].fr.defers) || e.fr.called != ends[0].fr.called {
			return workItem{}, false
		}
		if !heaps && e.st.alloc != r.alloc {
			return workItem{}, false
		}
		for k := range keys {
			a, ok1 := r.heap[k]
			b, ok2 := e.st.heap[k]
			if ok1 && ok2 && a != b || ok1 != ok2 {
				if !heaps {
					return workItem{}, false
				}
				differ[k] = true
			}
		}
		for id, v := range st.cells {
			if !sameVal(e.st.cells[id], v) || !sameVal(r.cells[id], v) {
				if !heaps {
					return workItem{}, false
				}
				cellVals[id] = nil
			}
		}
		if len(e.st.fwd) != len(r.fwd) || len(e.st.fwdArr) != len(r.fwdArr) {
			if !heaps {
				return workItem{}, false
			}
			for id := range st.cells {
				if e.st.fwd[id] != r.fwd[id] || e.st.fwdArr[id] != r.fwdArr[id] {
					return workItem{}, false
				}
			}
		}
	}
	for id := range cellVals {
		acc := ends[len(ends)-1].st.cells[id]
		for i := len(ends) - 2; i >= 0; i-- {
			v, ok := x.mergeVal(gs[i], ends[i].st.cells[id], acc)
			if !ok {
				return workItem{}, false
			}
			acc = v
		}
		cellVals[id] = acc
	}
	m := st.clone()
	if m.epoch != r.epoch {
		m.epoch, m.heap = r.epoch, map[string]*Term{}
	}
	for k, v := range r.heap {
		m.heap[k] = v
	}
	for _, e := range ends {
		for id, v := range e.st.cells {
			if _, ok := m.cells[id]; !ok {
				m.cells[id] = v
			}
		}
	}
	for id, v := range cellVals {
		m.cells[id] = v
	}
	m.alloc = r.alloc
	if heaps {
		acc := ends[len(ends)-1].st.alloc
		for i := len(ends) - 2; i >= 0; i-- {
			acc = x.c.Ite(gs[i], ends[i].st.alloc, acc)
		}
		if acc != r.alloc {
			m.alloc = acc
		}
		for k := range differ {
			var srt string
			for _, e := range ends {
				if t, ok := e.st.heap[k]; ok {
					srt = t.sort
				}
			}
			acc := ends[len(ends)-1].st.get(k, srt)
			for i := len(ends) - 2; i >= 0; i-- {
				acc = x.c.Ite(gs[i], ends[i].st.get(k, srt), acc)
			}
			m.heap[k] = acc
		}
	}
	for _, e := range ends {
		for k, v := range e.st.fwd {
			m.fwd[k] = v
		}
		for k, v := range e.st.fwdArr {
			m.fwdArr[k] = v
		}
	}
	mf := fr.clone()
	for i, e := range ends {
		_, facts := e.st.since(base)
		for _, f := range facts {
			m.fact(x.c.Implies(gs[i], f))
		}
	}
	if some := x.c.Or(gs...); len(gs) != 2 || gs[0] != x.c.Not(gs[1]) && !some.isTrue() {
		// what every branch required
		m.fact(some)
	}
	for _, in := range join.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		acc := ends[len(ends)-1].fr.env[p]
		for i := len(ends) - 2; i >= 0; i-- {
			v, ok := x.mergeVal(gs[i], ends[i].fr.env[p], acc)
			if !ok {
				return workItem{}, false
			}
			acc = v
		}
		mf.env[p] = acc
	}
	mf.mods = ends[0].fr.mods
	mf.panics, mf.maypan, mf.pure = ends[0].fr.panics, ends[0].fr.maypan, ends[0].fr.pure
	mf.called, mf.result, mf.prest = ends[0].fr.called, ends[0].fr.result, ends[0].fr.prest
	return workItem{st: m, fr: mf, blk: join}, true
}
