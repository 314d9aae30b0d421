package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modelFn func(x *Exec, st *State, fr *Frame, fn *ssa.Function, args []Value, key string, pos token.Pos) []Outcome
type ifaceModelFn func(x *Exec, st *State, fr *Frame, cc *ssa.CallCommon, iv IfaceV, args []Value, pos token.Pos) []Outcome

var models map[string]modelFn
var ifaceModels map[string]ifaceModelFn

func ret(st *State, v Value) []Outcome { return []Outcome{{st, v}} }

func (x *Exec) newError(st *State) Value {
	r := st.newRef()
	st.nonnil[r] = true
	return IfaceV{tag: x.c.Int(1000001), data: r}
}

func (x *Exec) nilError() Value { return IfaceV{tag: x.c.Int(0), data: x.c.Int(0)} }

// firstIndex is strings.Index(s, sub) on SMT strings.
func (x *Exec) indexOf(st *State, s, sub *Term) *Term {
	if s.op == "str" && sub.op == "str" {
		return x.c.Int(int64(strings.Index(s.name, sub.name)))
	}
	if s.op == "str.++" && sub.op == "str" && (len(sub.name) == 1 || x.firstByteOnce(st, s, sub)) {
		// the first literal containing the byte decides when the parts before it lack it
		at := x.c.Int(0)
		for _, p := range s.args {
			if p.op == "str" {
				if k := strings.Index(p.name, sub.name); k >= 0 {
					return x.c.Add(at, x.c.Int(int64(k)))
				}
			} else if !x.noSub(st, p, sub) {
				at = nil
				break
			}
			at = x.c.Add(at, x.strLen(p))
		}
		if at != nil {
			return x.c.Int(-1)
		}
	}
	r := x.c.Op("str.indexof", SInt, s, sub, x.c.Int(0))
	if x.noFacts == 0 {
		// stated so that the abstract encoding keeps the range
		c := x.c
		st.fact(c.And(c.Le(c.Int(-1), r), c.Implies(c.Le(c.Int(0), r), c.Le(c.Add(r, x.strLen(sub)), x.strLen(s)))))
	}
	return r
}

// known: the path condition or an established fact contains t.
func (st *State) known(t *Term) bool {
	if t.isTrue() {
		return true
	}
	for n := st.log; n != nil; n = n.prev {
		if n.t == t {
			return true
		}
		if n.t.op == "and" {
			for _, a := range n.t.args {
				if a == t {
					return true
				}
			}
		}
	}
	return false
}

// noSub: a evidently does not contain the one-byte string sub.
func (x *Exec) noSub(st *State, a, sub *Term) bool {
	c := x.c
	if a.op == "str" {
		return !strings.Contains(a.name, sub.name)
	}
	if a.op == "uf:itoa" {
		return sub.name != "-" && (sub.name < "0" || sub.name > "9")
	}
	idx := c.Op("str.indexof", SInt, a, sub, c.Int(0))
	if a.op == "str.substr" && c.isIntVal(a.args[1], 0) {
		// the text before the first occurrence
		j := c.Op("str.indexof", SInt, a.args[0], sub, c.Int(0))
		if a.args[2] == j {
			return true
		}
		if x.noSub(st, a.args[0], sub) {
			return true
		}
	}
	for _, t := range []*Term{c.Lt(idx, c.Int(0)), c.Le(idx, c.Int(-1)), c.Eq(idx, c.Int(-1)), c.Not(c.Op("str.contains", SBool, a, sub))} {
		if st.known(t) {
			return true
		}
	}
	return false
}

func (x *Exec) lock(st *State, fr *Frame, p PtrV, want, to int64, what string, pos token.Pos) []Outcome {
	c := x.c
	cur := x.load(st, p).(*Term)
	if x.spec == 0 {
		x.oblige(st, "lock-state", what+" in "+funcName(fr.fn), c.Eq(cur, c.Int(want)), pos)
	}
	x.store(st, p, c.Int(to))
	return ret(st, nil)
}

func init() {
	models = map[string]modelFn{
		"strings.Index": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, a []Value, key string, pos token.Pos) []Outcome {
			return ret(st, x.indexOf(st, a[0].(*Term), a[1].(*Term)))
		},
		"strings.IndexByte": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, a []Value, key string, pos token.Pos) []Outcome {
			b := a[1].(*Term)
			if !b.isInt() {
				unsupported("strings.IndexByte of a symbolic byte")
			}
			return ret(st, x.indexOf(st, a[0].(*Term), x.c.Str(string([]byte{byte(b.val.Int64())}))))
		},
		"strings.Contains": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, a []Value, key string, pos token.Pos) []Outcome {
			return ret(st, x.c.Op("str.contains", SBool, a[0].(*Term), a[1].(*Term)))
		},
		"strings.HasPrefix": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, a []Value, key string, pos token.Pos) []Outcome {
			return ret(st, x.hasPrefix(a[0].(*Term), a[1].(*Term)))
		},
		"strings.HasSuffix": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, a []Value, key string, pos token.Pos) []Outcome {
			return ret(st, x.hasSuffix(a[0].(*Term), a[1].(*Term)))
		},
		"strings.TrimPrefix": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, a []Value, key string, pos token.Pos) []Outcome {
			s, p := a[0].(*Term), a[1].(*Term)
			g := x.hasPrefix(s, p)
			return x.choose(st, g, x.substr(s, x.strLen(p), x.c.Sub(x.strLen(s), x.strLen(p))), s)
		},
		"strings.TrimSuffix": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, a []Value, key string, pos token.Pos) []Outcome {
			s, p := a[0].(*Term), a[1].(*Term)
			g := x.hasSuffix(s, p)
			return x.choose(st, g, x.substr(s, x.c.Int(0), x.c.Sub(x.strLen(s), x.strLen(p))), s)
		},
		"errors.New": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, a []Value, key string, pos token.Pos) []Outcome {
			return ret(st, x.newError(st))
		},
		"fmt.Errorf": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, a []Value, key string, pos token.Pos) []Outcome {
			return ret(st, x.newError(st))
		},
		"(*sync.RWMutex).Lock": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, a []Value, key string, pos token.Pos) []Outcome {
			return x.lock(st, fr, a[0].(PtrV), 0, 2, "Lock", pos)
		},
		"(*sync.RWMutex).Unlock": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, a []Value, key string, pos token.Pos) []Outcome {
			return x.lock(st, fr, a[0].(PtrV), 2, 0, "Unlock", pos)
		},
		"(*sync.RWMutex).RLock": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, a []Value, key string, pos token.Pos) []Outcome {
			return x.lock(st, fr, a[0].(PtrV), 0, 1, "RLock", pos)
		},
		"(*sync.RWMutex).RUnlock": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, a []Value, key string, pos token.Pos) []Outcome {
			return x.lock(st, fr, a[0].(PtrV), 1, 0, "RUnlock", pos)
		},
		"(*sync.Mutex).Lock": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, a []Value, key string, pos token.Pos) []Outcome {
			return x.lock(st, fr, a[0].(PtrV), 0, 2, "Lock", pos)
		},
		"(*sync.Mutex).Unlock": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, a []Value, key string, pos token.Pos) []Outcome {
			return x.lock(st, fr, a[0].(PtrV), 2, 0, "Unlock", pos)
		},
		"sync/atomic.AddInt64": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, a []Value, key string, pos token.Pos) []Outcome {
			p := a[0].(PtrV)
			v := x.wrap(st, types.Typ[types.Int64], x.c.Add(x.load(st, p).(*Term), a[1].(*Term)))
			x.store(st, p, v)
			return ret(st, v)
		},
		"bytes.Equal": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, a []Value, key string, pos token.Pos) []Outcome {
			s, t := a[0].(SliceV), a[1].(SliceV)
			return ret(st, x.c.Eq(x.bytesStr(st, s, types.Typ[types.Byte]), x.bytesStr(st, t, types.Typ[types.Byte])))
		},
		"bytes.Index": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, a []Value, key string, pos token.Pos) []Outcome {
			s, t := a[0].(SliceV), a[1].(SliceV)
			return ret(st, x.indexOf(st, x.bytesStr(st, s, types.Typ[types.Byte]), x.bytesStr(st, t, types.Typ[types.Byte])))
		},
		"strings.ToLower": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, a []Value, key string, pos token.Pos) []Outcome {
			if s := a[0].(*Term); s.op == "str" {
				return ret(st, x.c.Str(strings.ToLower(s.name)))
			}
			return ret(st, x.c.UF("strings.ToLower", SStr, a[0].(*Term)))
		},
		"strings.TrimSpace": func(x *Exec, st *State, fr *Frame, fn *ssa.Function, a []Value, key string, pos token.Pos) []Outcome {
			if s := a[0].(*Term); s.op == "str" {
				return ret(st, x.c.Str(strings.TrimSpace(s.name)))
			} else if n := len(s.args); s.op == "str.++" && s.args[0].op == "str" && s.args[n-1].op == "str" {
				// text between two visible characters
				f, l := s.args[0].name[0], s.args[n-1].name
				if z := l[len(l)-1]; f > ' ' && f < 127 && z > ' ' && z < 127 {
					return ret(st, s)
				}
			}
			return ret(st, x.c.UF("strings.TrimSpace", SStr, a[0].(*Term)))
		},
		"math.Float64bits": nil,
	}
	delete(models, "math.Float64bits")
	ifaceModels = map[string]ifaceModelFn{
		"Error": func(x *Exec, st *State, fr *Frame, cc *ssa.CallCommon, iv IfaceV, args []Value, pos token.Pos) []Outcome {
			x.box(st, &iv)
			return ret(st, x.c.UF("error_text", SStr, iv.tag, iv.data))
		},
	}
}

func (x *Exec) hasPrefix(s, p *Term) *Term {
	if s.op == "str" && p.op == "str" {
		return x.c.Bool(strings.HasPrefix(s.name, p.name))
	}
	if s.op == "str.++" && p.op == "str" && s.args[0].op == "str" {
		h := s.args[0].name
		if strings.HasPrefix(h, p.name) {
			return x.c.True()
		}
		if !strings.HasPrefix(p.name, h) {
			return x.c.False()
		}
	}
	return x.c.Op("str.prefixof", SBool, p, s)
}

func (x *Exec) hasSuffix(s, p *Term) *Term {
	if s.op == "str" && p.op == "str" {
		return x.c.Bool(strings.HasSuffix(s.name, p.name))
	}
	if s.op == "str.++" && p.op == "str" && s.args[len(s.args)-1].op == "str" {
		h := s.args[len(s.args)-1].name
		if strings.HasSuffix(h, p.name) {
			return x.c.True()
		}
		if !strings.HasSuffix(p.name, h) {
			return x.c.False()
		}
	}
	return x.c.Op("str.suffixof", SBool, p, s)
}

// choose returns a when g holds and b otherwise, on two paths where possible.
func (x *Exec) choose(st *State, g, a, b *Term) []Outcome {
	if g.isTrue() {
		return ret(st, a)
	}
	if g.isFalse() {
		return ret(st, b)
	}
	if x.noFacts > 0 || x.c.noFresh > 0 || g.open {
		return ret(st, x.c.Ite(g, a, b))
	}
	s2 := st.clone()
	var out []Outcome
	if st.cond(g) {
		out = append(out, Outcome{st, a})
	}
	if s2.cond(x.c.Not(g)) {
		out = append(out, Outcome{s2, b})
	}
	return out
}
