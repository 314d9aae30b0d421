package main

import (
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// splitPieces cuts a concatenation at the separators in its literals, and
// returns the condition under which those are all of them: no other piece
// holds the separator. A separator of several bytes must not overlap itself,
// and no occurrence may come about at the border of a literal.
func (x *Exec) splitPieces(s, sep *Term) ([]*Term, []*Term) {
	c := x.c
	if s.op == "uf:itoa" {
		return []*Term{s}, []*Term{c.Not(c.Op("str.contains", SBool, s, sep))}
	}
	if s.op != "str.++" {
		return nil, nil
	}
	sp := sep.name
	for j := 1; j < len(sp); j++ {
		if strings.HasSuffix(sp, sp[:j]) {
			return nil, nil
		}
	}
	// the literal beside another piece ends in a separator or in a byte that is in none
	apart := func(i int, right bool) bool {
		if i < 0 || i >= len(s.args) {
			return true
		}
		if s.args[i].op != "str" {
			return false
		}
		l := s.args[i].name
		if right {
			return strings.HasPrefix(l, sp) || strings.IndexByte(sp, l[0]) < 0
		}
		return strings.HasSuffix(l, sp) || strings.IndexByte(sp, l[len(l)-1]) < 0
	}
	var out, cur, free []*Term
	for i, p := range s.args {
		if p.op != "str" {
			if len(sp) > 1 && (!apart(i-1, false) || !apart(i+1, true)) {
				return nil, nil
			}
			cur = append(cur, p)
			free = append(free, c.Not(c.Op("str.contains", SBool, p, sep)))
			continue
		}
		for i, l := range strings.Split(p.name, sp) {
			if i > 0 {
				out = append(out, x.concat(cur...))
				cur = nil
			}
			cur = append(cur, c.Str(l))
		}
	}
	return append(out, x.concat(cur...)), free
}

// freeKnown: the conditions of splitPieces evidently hold.
func (x *Exec) freeKnown(st *State, free []*Term) bool {
	for _, f := range free {
		if f.isTrue() || st.known(f) {
			continue
		}
		if f.op != "not" || f.args[0].op != "str.contains" || f.args[0].args[0].op != "uf:itoa" {
			return false
		}
		if sep := f.args[0].args[1]; sep.op != "str" || strings.Trim(sep.name, "-0123456789") == "" {
			return false
		}
	}
	return true
}

// decimal: the int whose decimal text s is, nil if that is not evident.
func (x *Exec) decimal(st *State, s *Term) *Term {
	c := x.c
	if s.op == "str" {
		if n, err := strconv.ParseInt(s.name, 10, 64); err == nil {
			return c.Int(n)
		}
		return nil
	}
	lead := false
	if s.op == "str.++" && len(s.args) == 2 && s.args[0].op == "str" && s.args[0].name == "0" {
		s, lead = s.args[1], true
	}
	if s.op != "uf:itoa" {
		return nil
	}
	v := s.args[0]
	lo, hi, _, _, _ := intRange(types.Typ[types.Int])
	if !st.known(c.Le(v, c.Big(hi))) || !st.known(c.Le(c.Big(lo), v)) || lead && !st.known(c.Le(c.Int(0), v)) {
		return nil
	}
	return v
}

// winKey: a part of a byte array.
type winKey struct{ content, off, len *Term }

// fltFold decides a comparison of two floating-point constants.
func (x *Exec) fltFold(op token.Token, a, b *Term) *Term {
	num := func(t *Term) (float64, bool) {
		r := x.fltVals[t]
		if r == nil {
			return 0, false
		}
		v, _ := r.Float64() // constants are rounded to their type
		return v, true
	}
	f, ok1 := num(a)
	g, ok2 := num(b)
	if !ok1 || !ok2 {
		return nil
	}
	switch op {
	case token.EQL:
		return x.c.Bool(f == g)
	case token.LSS:
		return x.c.Bool(f < g)
	case token.GTR:
		return x.c.Bool(f > g)
	case token.LEQ:
		return x.c.Bool(f <= g)
	case token.GEQ:
		return x.c.Bool(f >= g)
	}
	return nil
}

// firstByteOnce: the first literal of s that holds the first byte of sub holds sub there,
// and the parts before it lack that byte.
func (x *Exec) firstByteOnce(st *State, s, sub *Term) bool {
	if sub.name == "" {
		return false
	}
	b := x.c.Str(sub.name[:1])
	for _, p := range s.args {
		if p.op != "str" {
			if !x.noSub(st, p, b) {
				return false
			}
			continue
		}
		if i := strings.Index(p.name, b.name); i >= 0 {
			return strings.HasPrefix(p.name[i:], sub.name)
		}
	}
	return true
}

// noSpace: the text holds no white space.
func (x *Exec) noSpace(s *Term) *Term {
	if s.op == "str" {
		return x.c.Bool(len(strings.Fields(s.name)) == 0 && s.name == "" || len(strings.Fields(s.name)) == 1 && strings.TrimSpace(s.name) == s.name)
	}
	return x.c.UF("nospace", SBool, s)
}

// fields: strings.Fields as a function of the text (n parts, part i): every part
// is not empty and holds no white space, and the parts of a text joined from
// such parts with a blank are these parts.
func (x *Exec) fields(st *State, s *Term) (n, e *Term) {
	c := x.c
	n, e = c.UF("fields.len", SInt, s), c.UF("fields.elems", arrSort(SInt, SStr), s)
	if x.noFacts == 0 {
		i := c.FreshVar("i", SInt)
		sel := c.Select(e, i)
		st.fact(c.And(c.Le(c.Int(0), n), c.Le(n, x.strLen(s)), c.Le(n, c.Int(maxLen)), c.Implies(c.Eq(x.strLen(s), c.Int(0)), c.Eq(n, c.Int(0)))))
		st.fact(c.Forall([]*Term{i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, n)), c.And(c.Lt(c.Int(0), x.strLen(sel)), c.Le(x.strLen(sel), x.strLen(s)), c.Ne(sel, c.Str("")), x.noSpace(sel))), sel))
		// decimal texts, also of quantified numbers
		v := c.FreshVar("v", SInt)
		it := c.UF("itoa", SStr, v)
		lo, hi, _, _, _ := intRange(types.Typ[types.Int])
		st.fact(c.Forall([]*Term{v}, c.And(c.Lt(c.Int(0), x.strLen(it)), x.noSpace(it), c.Implies(c.And(c.Le(c.Big(lo), v), c.Le(v, c.Big(hi))), c.And(c.UF("atoi.ok", SBool, it), c.Eq(c.UF("atoi.val", SInt, it), v))),
			c.Implies(c.Le(c.Int(0), v), c.And(c.UF("atou.ok", SBool, it), c.Eq(c.UF("atou.val", SInt, it), v)))), it))
		for _, o := range st.joins {
			if o.sep.op != "str" || o.sep.name != " " || x.joinTerm(o.e, o.off, o.n, o.sep) != s {
				continue
			}
			j, k := c.FreshVar("i", SInt), c.FreshVar("k", SInt)
			el := c.Select(o.e, c.Add(o.off, j))
			free := c.Forall([]*Term{j}, c.Implies(c.And(c.Le(c.Int(0), j), c.Lt(j, o.n)), c.And(c.Lt(c.Int(0), x.strLen(el)), x.noSpace(el))))
			st.fact(c.Implies(free, c.And(c.Eq(n, o.n), c.Forall([]*Term{k}, c.Implies(c.And(c.Le(c.Int(0), k), c.Lt(k, n)), c.Eq(c.Select(e, k), c.Select(o.e, c.Add(o.off, k)))), c.Select(e, k)))))
		}
	}
	return
}

func init() {
	T := func(v Value) *Term { return v.(*Term) }
	type C = *ssa.Function
	add := func(name string, f modelFn) { models[name] = f }
	fcap := func(x *Exec, st *State, n *Term) *Term {
		cp := x.c.Fresh("cap", SInt)
		st.fact(x.c.And(x.c.Le(n, cp), x.c.Le(cp, x.c.Int(maxLen*2))))
		return cp
	}
	bt := types.Typ[types.Byte]
	add("strings.Fields", func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		n, e := x.fields(st, T(a[0]))
		r := st.newRef()
		x.setElems(st, types.Typ[types.String], r, 0, e)
		return ret(st, SliceV{r, x.c.Int(0), n, fcap(x, st, n)})
	})
	add("bytes.HasPrefix", func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		return ret(st, x.hasPrefix(x.bytesStr(st, a[0].(SliceV), bt), x.bytesStr(st, a[1].(SliceV), bt)))
	})
	add("bytes.HasSuffix", func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		return ret(st, x.hasSuffix(x.bytesStr(st, a[0].(SliceV), bt), x.bytesStr(st, a[1].(SliceV), bt)))
	})
	// the parts are windows of the array that is split
	windows := func(x *Exec, st *State, d SliceV, s, n, e *Term) Value {
		c := x.c
		et := types.NewSlice(bt)
		r := st.newRef()
		arr, off := c.Fresh("win.arr", arrSort(SInt, SInt)), c.Fresh("win.off", arrSort(SInt, SInt))
		ln, cp := c.Fresh("win.len", arrSort(SInt, SInt)), c.Fresh("win.cap", arrSort(SInt, SInt))
		content := x.elems(st, bt, d.arr, 0)
		whole := c.UF("bytestr", SStr, content)
		if content.op == "uf:bytes_of_str" {
			whole = content.args[0]
		}
		law := func(i *Term) *Term {
			o, l, p := c.Select(off, i), c.Select(ln, i), c.Select(e, i)
			return c.And(c.Eq(c.Select(arr, i), d.arr), c.Le(d.off, o), c.Le(c.Int(0), l), c.Le(c.Add(o, l), c.Add(d.off, d.len)), c.Eq(l, x.strLen(p)),
				c.Le(l, c.Select(cp, i)), c.Le(c.Select(cp, i), c.Int(maxLen*2)), c.Eq(c.Op("str.substr", SStr, whole, o, l), p))
		}
		i := c.FreshVar("i", SInt)
		st.fact(c.Forall([]*Term{i}, c.Implies(c.And(c.Le(c.Int(0), i), c.Lt(i, n)), law(i)), c.Select(off, i)))
		// the first parts are named so that their text is known
		for k := int64(0); k < 3; k++ {
			st.fact(c.Implies(c.Lt(c.Int(k), n), law(c.Int(k))))
		}
		for k := int64(0); k < 3; k++ {
			i := c.Int(k)
			l, p := x.strLen(c.Select(e, i)), c.Select(e, i)
			o := c.Fresh("win", SInt)
			st.fact(c.Implies(c.Lt(i, n), c.And(c.Eq(o, c.Select(off, i)), c.Eq(l, c.Select(ln, i)), c.Eq(d.arr, c.Select(arr, i)))))
			arr, off, ln = c.Store(arr, i, d.arr), c.Store(off, i, o), c.Store(ln, i, l)
			if x.wins == nil {
				x.wins = map[winKey]*Term{}
			}
			x.wins[winKey{content, o, l}] = p
		}
		for i, t := range []*Term{arr, off, ln, cp} {
			x.setElems(st, et, r, i, t)
		}
		return SliceV{r, c.Int(0), n, fcap(x, st, n)}
	}
	add("bytes.Split", func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		d := a[0].(SliceV)
		s, sep := x.bytesStr(st, d, bt), x.bytesStr(st, a[1].(SliceV), bt)
		if sep.op != "str" || sep.name == "" || x.c.noFresh > 0 {
			unsupported("bytes.Split with a symbolic separator")
		}
		n := x.splitLen(st, s, sep)
		return ret(st, windows(x, st, d, s, n, x.splitArr(st, s, sep)))
	})
	add("bytes.Fields", func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		d := a[0].(SliceV)
		if x.c.noFresh > 0 {
			unsupported("bytes.Fields under a quantifier")
		}
		s := x.bytesStr(st, d, bt)
		n, e := x.fields(st, s)
		return ret(st, windows(x, st, d, s, n, e))
	})
	add("(*bytes.Buffer).WriteRune", func(x *Exec, st *State, fr *Frame, fn C, a []Value, key string, pos token.Pos) []Outcome {
		r := T(a[1])
		if !r.isInt() || r.val.Int64() < 0 || r.val.Int64() > 127 {
			unsupported("WriteRune of a symbolic or wide rune")
		}
		models["(*bytes.Buffer).WriteByte"](x, st, fr, fn, a, key, pos)
		return ret(st, TupleV{x.c.Int(1), x.nilError()})
	})
}
