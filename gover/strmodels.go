package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// splitParts: strings.Split as a function of the two strings (n parts, part i),
// with the library's laws stated for each occurrence.
func (x *Exec) splitLen(st *State, s, sep *Term) *Term {
	c := x.c
	n := c.UF("split.len", SInt, s, sep)
	if x.noFacts == 0 {
		st.fact(c.Le(c.Int(1), n))
		st.fact(c.Le(n, c.Int(maxLen)))
		if sep.op == "str" && sep.name != "" {
			has := c.Op("str.contains", SBool, s, sep)
			st.fact(c.Eq(c.Eq(n, c.Int(1)), c.Not(has)))
			// a text put together from pieces without the separator
			if ps, free := x.splitPieces(s, sep); len(ps) > 0 {
				if x.freeKnown(st, free) {
					return c.Int(int64(len(ps)))
				}
				e := c.UF("split.elems", arrSort(SInt, SStr), s, sep)
				fs := []*Term{c.Eq(n, c.Int(int64(len(ps))))}
				for i, p := range ps {
					fs = append(fs, c.Eq(c.Select(e, c.Int(int64(i))), p))
				}
				st.fact(c.Implies(c.And(free...), c.And(fs...)))
			}
		}
	}
	return n
}

func (x *Exec) splitArr(st *State, s, sep *Term) *Term {
	c := x.c
	e := c.UF("split.elems", arrSort(SInt, SStr), s, sep)
	if x.noFacts == 0 && sep.op == "str" && sep.name != "" {
		if ps, free := x.splitPieces(s, sep); len(ps) > 0 && x.freeKnown(st, free) {
			for i, p := range ps {
				e = c.Store(e, c.Int(int64(i)), p)
			}
			return e
		}
		n := x.splitLen(st, s, sep)
		i := c.FreshVar("i", SInt)
		sel := c.Select(e, i)
		st.fact(c.Forall([]*Term{i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, n)), c.And(c.Not(c.Op("str.contains", SBool, sel, sep)), c.Le(x.strLen(sel), x.strLen(s)))), sel))
		st.fact(c.Eq(x.joinTerm(e, c.Int(0), n, sep), s))
		st.fact(c.Implies(c.Eq(n, c.Int(1)), c.Eq(c.Select(e, c.Int(0)), s)))
		// first separator ends the first part, the parts after it split the rest
		k := c.Op("str.indexof", SInt, s, sep, c.Int(0))
		st.fact(c.Implies(c.Lt(c.Int(1), n), c.And(c.Le(c.Int(0), k), c.Eq(c.Select(e, c.Int(0)), x.substr(s, c.Int(0), k)))))
		x.joinFacts(st, e, c.Int(0), n, sep)
	}
	return e
}

func (x *Exec) joinTerm(e, off, n, sep *Term) *Term {
	return x.c.UF("strings.Join", SStr, e, off, n, sep)
}

type joinOcc struct{ e, off, n, sep *Term }

// joinFacts: the laws of strings.Join for one occurrence.
func (x *Exec) joinFacts(st *State, e, off, n, sep *Term) {
	if x.noFacts > 0 {
		return
	}
	c := x.c
	j := x.joinTerm(e, off, n, sep)
	for _, o := range st.joins {
		if o.sep != sep || o.e == e && o.off == off && o.n == n {
			continue
		}
		i := c.FreshVar("i", SInt)
		st.fact(c.Or(c.Eq(j, x.joinTerm(o.e, o.off, o.n, o.sep)), c.Ne(n, o.n),
			c.Exists([]*Term{i}, c.And(c.Le(c.Int(0), i), c.Lt(i, n), c.Ne(c.Select(e, c.Add(off, i)), c.Select(o.e, c.Add(o.off, i)))))))
	}
	st.joins = append(append([]joinOcc{}, st.joins...), joinOcc{e, off, n, sep})
	st.fact(c.Implies(c.Le(n, c.Int(0)), c.Eq(j, c.Str(""))))
	st.fact(c.Implies(c.Eq(n, c.Int(1)), c.Eq(j, c.Select(e, off))))
	if sep.op == "str" && sep.name != "" {
		i, k := c.FreshVar("i", SInt), c.FreshVar("k", SInt)
		ret, ri := c.Str("\r"), c.FreshVar("i", SInt)
		if !strings.Contains(sep.name, "\r") {
			st.fact(c.Implies(c.Forall([]*Term{ri}, c.Implies(c.And(c.Le(c.Int(0), ri), c.Lt(ri, n)), c.Not(c.Op("str.contains", SBool, c.Select(e, c.Add(off, ri)), ret)))), c.Not(c.Op("str.contains", SBool, j, ret))))
		}
		free := c.Forall([]*Term{i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, n)), c.Not(c.Op("str.contains", SBool, c.Select(e, c.Add(off, i)), sep))))
		spl := c.UF("split.elems", arrSort(SInt, SStr), j, sep)
		st.fact(c.Implies(c.And(c.Lt(c.Int(0), n), free), c.And(c.Eq(c.UF("split.len", SInt, j, sep), n),
			c.Forall([]*Term{k}, c.Implies(c.And(c.Le(c.Int(0), k), c.Lt(k, n)), c.Eq(c.Select(spl, k), c.Select(e, c.Add(off, k)))), c.Select(spl, k)))))
		st.fact(c.Implies(c.And(c.Lt(c.Int(0), n), c.Ne(c.Select(e, off), c.Str("")), c.Not(c.Op("str.contains", SBool, c.Select(e, off), sep))), c.Not(c.Op("str.prefixof", SBool, sep, j))))
		st.fact(c.Implies(c.And(c.Lt(c.Int(0), n), c.Ne(c.Select(e, off), c.Str(""))), c.Lt(c.Int(0), x.strLen(j))))
		// the first element is a prefix, and the joined text starts with it
		st.fact(c.Implies(c.Lt(c.Int(0), n), c.Op("str.prefixof", SBool, c.Select(e, off), j)))
		st.fact(c.Implies(c.Lt(c.Int(1), n), c.Op("str.prefixof", SBool, c.Op("str.++", SStr, c.Select(e, off), sep), j)))
	}
}

var notDecimal = []string{"[", "]", "/", ":", ".", ",", " ", "\n", "\"", "a", "n", ";", "|", "d", "f", "m", "r", "s", "t"}

func (x *Exec) noneOf(s *Term, subs ...string) *Term {
	var fs []*Term
	for _, b := range subs {
		fs = append(fs, x.c.Not(x.c.Op("str.contains", SBool, s, x.c.Str(b))))
	}
	return x.c.And(fs...)
}

// itoa: decimal text of an integer.
func (x *Exec) itoa(st *State, v *Term) *Term {
	c := x.c
	if v.isInt() {
		return c.Str(v.val.String())
	}
	r := c.UF("itoa", SStr, v)
	if x.noFacts == 0 {
		lo, hi, _, _, _ := intRange(types.Typ[types.Int])
		fs := []*Term{c.Implies(c.And(c.Le(c.Big(lo), v), c.Le(v, c.Big(hi))), c.And(c.UF("atoi.ok", SBool, r), c.Eq(c.UF("atoi.val", SInt, r), v))),
			c.Implies(c.Le(c.Int(0), v), c.And(c.UF("atou.ok", SBool, r), c.Eq(c.UF("atou.val", SInt, r), v))), c.Le(c.Int(1), x.strLen(r)), c.Le(x.strLen(r), c.Int(20))}
		fs = append(fs, x.noneOf(r, notDecimal...), x.noSpace(r))
		z := c.Op("str.++", SStr, c.Str("0"), r)
		fs = append(fs, c.Implies(c.And(c.Le(c.Int(0), v), c.Le(v, c.Big(hi))), c.And(c.UF("atoi.ok", SBool, z), c.Eq(c.UF("atoi.val", SInt, z), v))))
		st.fact(c.And(fs...))
	}
	return r
}

// sprintf renders a constant format; the pieces it cannot express are functions of their arguments.
func (x *Exec) sprintf(st *State, fr *Frame, f *Term, vargs ssa.Value, key string, pos token.Pos) (*Term, bool) {
	c := x.c
	if f.op != "str" {
		return nil, false
	}
	var args []ssa.Value
	if k, ok := vargs.(*ssa.Const); !ok || k.Value != nil {
		args = x.ifaceArgs(st, fr, vargs)
	}
	if vargs != nil && args == nil {
		if k, ok := vargs.(*ssa.Const); !ok || k.Value != nil {
			return nil, false
		}
	}
	var parts []*Term
	s := f.name
	n := 0
	for len(s) > 0 {
		i := strings.IndexByte(s, '%')
		if i < 0 {
			parts = append(parts, c.Str(s))
			break
		}
		parts = append(parts, c.Str(s[:i]))
		s = s[i+1:]
		j := 0
		for j < len(s) && strings.IndexByte("0123456789.+-# ", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			return nil, false
		}
		verb := s[:j+1]
		s = s[j+1:]
		if verb == "%" {
			parts = append(parts, c.Str("%"))
			continue
		}
		if n >= len(args) {
			return nil, false
		}
		a := args[n]
		n++
		v := x.val(st, fr, a)
		t := a.Type()
		str := false
		if m := x.p.prog.LookupMethod; m != nil {
			ms := types.NewMethodSet(t)
			str = ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil
		}
		switch {
		case (verb == "s" || verb == "v") && isString(t) && !str:
			parts = append(parts, v.(*Term))
		case (verb == "d" || verb == "v" && !str) && isInteger(t):
			parts = append(parts, x.itoa(st, v.(*Term)))
		default:
			if _, isI := t.Underlying().(*types.Interface); isI || !x.flat(t) {
				parts = append(parts, c.Fresh("fmt", SStr))
				if x.c.noFresh > 0 {
					return nil, false
				}
				break
			}
			r := c.UF("fmt|"+verb+"|"+x.typeKey(t)+fmt.Sprint(str), SStr, x.toLeaves(st, t, v)...)
			parts = append(parts, r)
		}
	}
	if n != len(args) {
		return nil, false
	}
	return x.concat(parts...), true
}

// fltIs: f is a NaN or an infinity; at most one of them holds.
func (x *Exec) fltIs(st *State, what string, f *Term) *Term {
	c := x.c
	n, p, m := c.UF("flt_is_nan", SBool, f), c.UF("flt_is_pinf", SBool, f), c.UF("flt_is_ninf", SBool, f)
	if x.noFacts == 0 {
		st.fact(c.And(c.Not(c.And(n, p)), c.Not(c.And(n, m)), c.Not(c.And(p, m))))
		// there is one infinity of each sign
		st.fact(c.And(c.Eq(p, c.Eq(f, x.fltConst("pinf"))), c.Eq(m, c.Eq(f, x.fltConst("ninf")))))
	}
	return c.UF("flt_is_"+what, SBool, f)
}

// scanArgs: the slice holds the arguments of a call of fmt.Sscanf and nothing else uses it.
func scanArgs(v *ssa.Slice) bool {
	rs := v.Referrers()
	if rs == nil || len(*rs) != 1 {
		return false
	}
	call, ok := (*rs)[0].(*ssa.Call)
	if !ok || len(call.Call.Args) != 3 || call.Call.Args[2] != ssa.Value(v) {
		return false
	}
	f := call.Call.StaticCallee()
	return f != nil && f.String() == "fmt.Sscanf"
}

// sscanf: integer verbs; a text of two decimal numbers around the separator of
// the format is read exactly, nothing is said about other texts.
func (x *Exec) sscanf(st *State, fr *Frame, s, f *Term, vargs ssa.Value) []Outcome {
	c := x.c
	args := x.ifaceArgs(st, fr, vargs)
	var ps []PtrV
	for _, a := range args {
		pt, ok := a.Type().Underlying().(*types.Pointer)
		if !ok || !isInteger(pt.Elem()) {
			unsupported("fmt.Sscanf into %s", a.Type())
		}
		p := x.val(st, fr, a).(PtrV)
		ps = append(ps, p)
	}
	ok := c.Fresh("scan.ok", SBool)
	good := c.False()
	var vals []*Term
	if n := len(f.name); f.op == "str" && len(ps) == 2 && n >= 5 && n <= 6 && f.name[:2] == "%d" && f.name[n-2:] == "%d" && strings.Trim(f.name[2:n-2], "0123456789%+-") == f.name[2:n-2] && f.name[2] != '\n' && (n == 5 || f.name[3] == ' ' && f.name[2] != ' ') {
		sep := c.Str(f.name[2 : n-2])
		k := x.indexOf(st, s, sep)
		l := x.substr(s, c.Int(0), k)
		at := c.Add(k, c.Int(int64(len(sep.name))))
		r := x.substr(s, at, c.Sub(x.strLen(s), at))
		good = c.And(c.Le(c.Int(0), k), c.UF("atoi.ok", SBool, l), c.UF("atoi.ok", SBool, r))
		st.fact(c.Implies(good, ok))
		vals = []*Term{c.UF("atoi.val", SInt, l), c.UF("atoi.val", SInt, r)}
	}
	for i, p := range ps {
		t := args[i].Type().Underlying().(*types.Pointer).Elem()
		n := c.Fresh("scanned", SInt)
		lo, hi, _, _, _ := intRange(t)
		st.fact(c.And(c.Le(c.Big(lo), n), c.Le(n, c.Big(hi))))
		if vals != nil {
			st.fact(c.Implies(c.And(good, c.Le(c.Big(lo), vals[i]), c.Le(vals[i], c.Big(hi))), c.Eq(n, vals[i])))
		}
		x.store(st, p, n)
	}
	n := c.Fresh("scan.n", SInt)
	st.fact(c.And(c.Le(c.Int(0), n), c.Le(n, c.Int(int64(len(ps))))))
	e := x.newError(st).(IfaceV)
	return ret(st, TupleV{n, IfaceV{tag: c.Ite(ok, c.Int(0), e.tag), data: c.Ite(ok, c.Int(0), e.data)}})
}

// flat: the type holds no references.
func (x *Exec) flat(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !x.flat(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return x.flat(u.Elem())
	}
	return false
}

func init() {
	T := func(v Value) *Term { return v.(*Term) }
	type C = *ssa.Function
	add := func(name string, f modelFn) { models[name] = f }
	add("strings.Split", func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		s, sep := T(a[0]), T(a[1])
		if sep.op != "str" || sep.name == "" {
			unsupported("strings.Split with a symbolic separator")
		}
		n := x.splitLen(st, s, sep)
		e := x.splitArr(st, s, sep)
		r := st.newRef()
		x.setElems(st, types.Typ[types.String], r, 0, e)
		cp := x.c.Fresh("cap", SInt)
		st.fact(x.c.And(x.c.Le(n, cp), x.c.Le(cp, x.c.Int(maxLen*2))))
		return ret(st, SliceV{r, x.c.Int(0), n, cp})
	})
	add("strings.Count", func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		s, sep := T(a[0]), T(a[1])
		if sep.op != "str" || sep.name == "" {
			unsupported("strings.Count with a symbolic separator")
		}
		return ret(st, x.c.Sub(x.splitLen(st, s, sep), x.c.Int(1)))
	})
	add("strings.Join", func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		s := a[0].(SliceV)
		sep := T(a[1])
		e := x.elems(st, types.Typ[types.String], s.arr, 0)
		if s.len.isInt() && s.len.val.Int64() <= 8 {
			var parts []*Term
			for i := int64(0); i < s.len.val.Int64(); i++ {
				if i > 0 {
					parts = append(parts, sep)
				}
				parts = append(parts, x.c.Select(e, x.c.Add(s.off, x.c.Int(i))))
			}
			return ret(st, x.concat(parts...))
		}
		x.joinFacts(st, e, s.off, s.len, sep)
		return ret(st, x.joinTerm(e, s.off, s.len, sep))
	})
	add("strconv.Itoa", func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		return ret(st, x.itoa(st, T(a[0])))
	})
	atoi := func(x *Exec, st *State, s *Term) (*Term, *Term) {
		c := x.c
		if v := x.decimal(st, s); v != nil {
			return c.True(), v
		}
		ok, v := c.UF("atoi.ok", SBool, s), c.UF("atoi.val", SInt, s)
		if x.noFacts == 0 {
			lo, hi, _, _, _ := intRange(types.Typ[types.Int])
			st.fact(c.And(c.Le(c.Big(lo), v), c.Le(v, c.Big(hi))))
			st.fact(c.Implies(ok, c.Le(c.Int(1), x.strLen(s))))
		}
		return ok, v
	}
	add("strconv.Atoi", func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		c := x.c
		ok, v := atoi(x, st, T(a[0]))
		e := x.newError(st).(IfaceV)
		bad := c.UF("atoi.bad", SInt, T(a[0]))
		if x.noFacts == 0 {
			lo, hi, _, _, _ := intRange(types.Typ[types.Int])
			st.fact(c.And(c.Le(c.Big(lo), bad), c.Le(bad, c.Big(hi))))
		}
		return ret(st, TupleV{c.Ite(ok, v, bad), IfaceV{tag: c.Ite(ok, c.Int(0), e.tag), data: c.Ite(ok, c.Int(0), e.data)}})
	})
	// text of an integer in base 10 read back, in the range of a bit size
	parse := func(uns bool) modelFn {
		return func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
			c := x.c
			s, base, bits := T(a[0]), T(a[1]), T(a[2])
			if !base.isInt() || !bits.isInt() {
				unsupported("%s with a symbolic base", fn)
			}
			b := uint(bits.val.Int64())
			if b == 0 {
				b = 64
			}
			lo, hi := big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), b)
			pre := "atou"
			if !uns {
				pre = "atoi"
				hi.Rsh(hi, 1)
				lo.Neg(hi)
			}
			hi.Sub(hi, big.NewInt(1))
			other := !c.isIntVal(base, 10)
			if other {
				pre += base.val.String()
			}
			ok, v, bad := c.UF(pre+".ok", SBool, s), c.UF(pre+".val", SInt, s), c.UF(fmt.Sprint(pre, ".bad", b), SInt, s)
			if x.noFacts == 0 {
				l64, h64, _, _, _ := intRange(types.Typ[types.Int64])
				if other && uns {
					l64, h64, _, _, _ = intRange(types.Typ[types.Uint64])
				} else if uns {
					st.fact(c.Implies(c.And(ok, c.Le(v, c.Big(h64))), c.And(c.UF("atoi.ok", SBool, s), c.Eq(c.UF("atoi.val", SInt, s), v))))
					l64, h64, _, _, _ = intRange(types.Typ[types.Uint64])
				}
				st.fact(c.And(c.Le(c.Big(l64), v), c.Le(v, c.Big(h64)), c.Le(c.Big(lo), bad), c.Le(bad, c.Big(hi))))
				if other {
					st.fact(c.Implies(ok, c.Le(c.Int(1), x.strLen(s))))
				} else {
					st.fact(c.Implies(ok, c.And(c.Le(c.Int(1), x.strLen(s)), x.noneOf(s, notDecimal...))))
				}
			}
			if d := x.decimal(st, s); d != nil && !uns && !other && b == 64 {
				ok, v = c.True(), d
				return ret(st, TupleV{v, x.nilError()})
			}
			good := c.And(ok, c.Le(c.Big(lo), v), c.Le(v, c.Big(hi)))
			e := x.newError(st).(IfaceV)
			return ret(st, TupleV{c.Ite(good, v, bad), IfaceV{tag: c.Ite(good, c.Int(0), e.tag), data: c.Ite(good, c.Int(0), e.data)}})
		}
	}
	add("strings.Replace", func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		c := x.c
		s, old := T(a[0]), T(a[1])
		r := c.UF("strings.Replace", SStr, s, old, T(a[2]), T(a[3]))
		if x.noFacts == 0 && old.op == "str" && old.name != "" {
			st.fact(c.Implies(c.Or(c.Not(c.Op("str.contains", SBool, s, old)), c.Not(c.Op("str.contains", SBool, s, c.Str(old.name[:1])))), c.Eq(r, s)))
		}
		return ret(st, r)
	})
	add("fmt.Sscanf", func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		if x.curCC == nil || len(x.curCC.Args) != 3 || x.c.noFresh > 0 {
			unsupported("fmt.Sscanf")
		}
		return x.sscanf(st, fr, T(a[0]), T(a[1]), x.curCC.Args[2])
	})
	add("strings.Map", func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		return ret(st, x.c.Fresh("strings.Map", SStr))
	})
	add("strconv.ParseInt", parse(false))
	add("strconv.ParseUint", parse(true))
	format := func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		if !x.c.isIntVal(T(a[1]), 10) {
			unsupported("%s with a base other than 10", fn)
		}
		return ret(st, x.itoa(st, T(a[0])))
	}
	add("strconv.FormatInt", format)
	add("strconv.FormatUint", format)
	add("strconv.FormatBool", func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		return x.choose(st, T(a[0]), x.c.Str("true"), x.c.Str("false"))
	})
	add("strings.LastIndex", func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		c := x.c
		s, sub := T(a[0]), T(a[1])
		r := c.UF("strings.LastIndex", SInt, s, sub)
		if x.noFacts == 0 {
			tail := x.substr(s, c.Add(r, c.Int(1)), c.Sub(x.strLen(s), c.Add(r, c.Int(1))))
			st.fact(c.And(c.Le(c.Int(-1), r), c.Eq(c.Lt(r, c.Int(0)), c.Not(c.Op("str.contains", SBool, s, sub)))))
			st.fact(c.Implies(c.Le(c.Int(0), r), c.And(c.Le(c.Add(r, x.strLen(sub)), x.strLen(s)), c.Eq(x.substr(s, r, x.strLen(sub)), sub), c.Not(c.Op("str.contains", SBool, tail, sub)))))
		}
		return ret(st, r)
	})
	// bytes.Buffer: its text is a function of the (opaque) value of the structure
	bufText := func(x *Exec, v *Term) *Term {
		if v.isInt() && v.val.Sign() == 0 {
			return x.c.Str("")
		}
		if t := x.bufs[v]; t != nil {
			return t
		}
		return x.c.UF("bytes.Buffer.text", SStr, v)
	}
	bufAdd := func(what func(x *Exec, st *State, v Value) *Term, n func(x *Exec, s *Term) Value) modelFn {
		return func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
			p := a[0].(PtrV)
			old := bufText(x, x.load(st, p).(*Term))
			s := what(x, st, a[1])
			v := x.c.Fresh("buf", SInt)
			t := x.concat(old, s)
			st.fact(x.c.And(x.c.Ne(v, x.c.Int(0)), x.c.Eq(bufText(x, v), t)))
			if x.bufs == nil {
				x.bufs = map[*Term]*Term{}
			}
			x.bufs[v] = t
			x.store(st, p, v)
			return ret(st, n(x, s))
		}
	}
	lenNil := func(x *Exec, s *Term) Value { return TupleV{x.strLen(s), x.nilError()} }
	add("(*bytes.Buffer).WriteString", bufAdd(func(x *Exec, st *State, v Value) *Term { return T(v) }, lenNil))
	add("(*bytes.Buffer).Write", bufAdd(func(x *Exec, st *State, v Value) *Term { return x.bytesStr(st, v.(SliceV), types.Typ[types.Byte]) }, lenNil))
	add("(*bytes.Buffer).WriteByte", bufAdd(func(x *Exec, st *State, v Value) *Term {
		if T(v).isInt() {
			return x.c.Str(string([]byte{byte(T(v).val.Int64())}))
		}
		unsupported("WriteByte of a symbolic byte")
		return nil
	}, func(x *Exec, s *Term) Value { return x.nilError() }))
	add("(*bytes.Buffer).String", func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		return ret(st, bufText(x, x.load(st, a[0].(PtrV)).(*Term)))
	})
	add("(*bytes.Buffer).Bytes", func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		return ret(st, x.strBytes(st, bufText(x, x.load(st, a[0].(PtrV)).(*Term)), types.Typ[types.Byte]))
	})
	add("bytes.Trim", func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		c := x.c
		s := x.bytesStr(st, a[0].(SliceV), types.Typ[types.Byte])
		cut := T(a[1])
		r := c.UF("strings.Trim", SStr, s, cut)
		if s.op == "str" && cut.op == "str" {
			r = c.Str(strings.Trim(s.name, cut.name))
		} else if x.noFacts == 0 {
			st.fact(c.Le(x.strLen(r), x.strLen(s)))
			if cut.op == "str" && len(cut.name) == 1 {
				st.fact(c.Implies(c.Not(c.Op("str.contains", SBool, s, cut)), c.Eq(r, s)))
				in := x.substr(s, c.Int(1), c.Sub(x.strLen(s), c.Int(2)))
				st.fact(c.Implies(c.And(c.Lt(c.Int(1), x.strLen(s)), x.hasPrefix(s, cut), x.hasSuffix(s, cut), c.Not(c.Op("str.contains", SBool, in, cut))), c.Eq(r, in)))
			}
		}
		return ret(st, x.strBytes(st, r, types.Typ[types.Byte]))
	})
	add("math.IsNaN", func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		return ret(st, x.fltIs(st, "nan", T(a[0])))
	})
	add("math.IsInf", func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		s := T(a[1])
		p, n := x.fltIs(st, "pinf", T(a[0])), x.fltIs(st, "ninf", T(a[0]))
		return ret(st, x.c.Or(x.c.And(x.c.Le(x.c.Int(0), s), p), x.c.And(x.c.Le(s, x.c.Int(0)), n)))
	})
	add("math.NaN", func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		r := x.fltConst("nan")
		st.fact(x.fltIs(st, "nan", r))
		return ret(st, r)
	})
	add("math.Inf", func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		p, n := x.fltConst("pinf"), x.fltConst("ninf")
		st.fact(x.c.And(x.fltIs(st, "pinf", p), x.fltIs(st, "ninf", n)))
		return ret(st, x.c.Ite(x.c.Le(x.c.Int(0), T(a[0])), p, n))
	})
	add("fmt.Sprintf", func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		if x.curCC != nil && len(x.curCC.Args) == 2 {
			if r, ok := x.sprintf(st, fr, T(a[0]), x.curCC.Args[1], key, pos); ok {
				return ret(st, r)
			}
		}
		if x.c.noFresh > 0 {
			unsupported("fmt.Sprintf under a quantifier")
		}
		return ret(st, x.c.Fresh("sprintf", SStr))
	})
	add("strings.TrimLeft", func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		return ret(st, x.c.UF("strings.TrimLeft", SStr, T(a[0]), T(a[1])))
	})
	add("strings.Trim", func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		return ret(st, x.c.UF("strings.Trim", SStr, T(a[0]), T(a[1])))
	})
	add("strings.ToUpper", func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		return ret(st, x.c.UF("strings.ToUpper", SStr, T(a[0])))
	})
	add("strings.EqualFold", func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		return ret(st, x.c.Or(x.c.Eq(T(a[0]), T(a[1])), x.c.UF("strings.EqualFold", SBool, T(a[0]), T(a[1]))))
	})
}
