package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
)

// Term is a hash-consed SMT term.
type Term struct {
	id     int
	op     string // "sym","int","str","bool","var", or an SMT operator / "uf:<name>" / "forall" / "exists"
	name   string // symbol, string constant or binder variable list
	val    *big.Int
	args   []*Term
	sort   string
	open   bool // contains a free bound variable
	old    bool // reference known to be allocated before the run started
	fresh  bool
	vars   []*Term // binder variables
	pats   []*Term // optional trigger
	qdepth bool    // contains a quantifier
}

const (
	SBool = "Bool"
	SInt  = "Int"
	SStr  = "Str"
	SFlt  = "Flt"
)

func arrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

// Ctx owns the term table of one verification run.
type Ctx struct {
	mu      sync.Mutex
	tab     map[string]*Term
	n       int
	nsym    map[string]int
	alloc0  *Term
	ufs     map[string]ufSig
	noFresh int // inside a binder: fresh symbols would be wrong
}

type ufSig struct {
	args []string
	ret  string
}

func newCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, nsym: map[string]int{}, ufs: map[string]ufSig{}}
	c.alloc0 = c.Sym("alloc0", SInt)
	return c
}

func (c *Ctx) mk(op, name string, sort string, val *big.Int, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(name)
	b.WriteByte('|')
	b.WriteString(sort)
	if val != nil {
		b.WriteByte('#')
		b.WriteString(val.String())
	}
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	k := b.String()
	c.mu.Lock()
	defer c.mu.Unlock()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.n++
	t := &Term{id: c.n, op: op, name: name, sort: sort, val: val, args: args}
	if op == "var" {
		t.open = true
	}
	for _, a := range args {
		if a.open {
			t.open = true
		}
		if a.qdepth {
			t.qdepth = true
		}
	}
	c.tab[k] = t
	return t
}

// Sym returns the symbol with exactly this name.
func (c *Ctx) Sym(name, sort string) *Term { return c.mk("sym", name, sort, nil) }

// Fresh returns a new symbol.
func (c *Ctx) Fresh(hint, sort string) *Term {
	if c.noFresh > 0 {
		unsupported("fresh value %s under a quantifier", hint)
	}
	hint = sanitize(hint)
	c.nsym[hint]++
	return c.Sym(fmt.Sprintf("%s!%d", hint, c.nsym[hint]), sort)
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '_' || r == '.' {
			b.WriteRune(r)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func (c *Ctx) Var(name, sort string) *Term { return c.mk("var", name, sort, nil) }
func (c *Ctx) FreshVar(hint, sort string) *Term {
	c.nsym["v:"+hint]++
	return c.Var(fmt.Sprintf("%s?%d", hint, c.nsym["v:"+hint]), sort)
}

func (c *Ctx) Int(i int64) *Term    { return c.mk("int", "", SInt, big.NewInt(i)) }
func (c *Ctx) Big(i *big.Int) *Term { return c.mk("int", "", SInt, i) }
func (c *Ctx) Str(s string) *Term   { return c.mk("str", s, SStr, nil) }
func (c *Ctx) Bool(b bool) *Term    { return c.mk("bool", fmt.Sprint(b), SBool, nil) }
func (c *Ctx) True() *Term          { return c.Bool(true) }
func (c *Ctx) False() *Term         { return c.Bool(false) }
func (t *Term) isTrue() bool        { return t.op == "bool" && t.name == "true" }
func (t *Term) isFalse() bool       { return t.op == "bool" && t.name == "false" }
func (t *Term) isInt() bool         { return t.op == "int" }
func (t *Term) isConst() bool       { return t.op == "int" || t.op == "str" || t.op == "bool" }
func (c *Ctx) isIntVal(t *Term, i int64) bool {
	return t.op == "int" && t.val.IsInt64() && t.val.Int64() == i
}

func (c *Ctx) Not(a *Term) *Term {
	if a.isTrue() {
		return c.False()
	}
	if a.isFalse() {
		return c.True()
	}
	if a.op == "not" {
		return a.args[0]
	}
	if a.op == "<=" {
		return c.mkLt(a.args[1], a.args[0])
	}
	if a.op == "<" {
		return c.mkLe(a.args[1], a.args[0])
	}
	return c.mk("not", "", SBool, nil, a)
}

func (c *Ctx) mkLe(a, b *Term) *Term { return c.Le(a, b) }
func (c *Ctx) mkLt(a, b *Term) *Term { return c.Lt(a, b) }

func (c *Ctx) nary(op string, unit, zero bool, ts []*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t.op == "bool" {
			if t.isTrue() == unit {
				return true
			}
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		if seen[c.Not(t).id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return c.Bool(zero)
		}
	}
	switch len(out) {
	case 0:
		return c.Bool(unit)
	case 1:
		return out[0]
	}
	return c.mk(op, "", SBool, nil, out...)
}

func (c *Ctx) And(ts ...*Term) *Term { return c.nary("and", true, false, ts) }
func (c *Ctx) Or(ts ...*Term) *Term  { return c.nary("or", false, true, ts) }
func (c *Ctx) Implies(a, b *Term) *Term {
	if a.isTrue() {
		return b
	}
	if a.isFalse() || b.isTrue() || a == b {
		return c.True()
	}
	if b.isFalse() {
		return c.Not(a)
	}
	return c.mk("=>", "", SBool, nil, a, b)
}

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g.isTrue() || a == b {
		return a
	}
	if g.isFalse() {
		return b
	}
	if a.sort == SBool {
		if a.isTrue() && b.isFalse() {
			return g
		}
		if a.isFalse() && b.isTrue() {
			return c.Not(g)
		}
		if a.isTrue() {
			return c.Or(g, b)
		}
		if a.isFalse() {
			return c.And(c.Not(g), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(g), a)
		}
		if b.isFalse() {
			return c.And(g, a)
		}
	}
	if g.op == "not" {
		return c.Ite(g.args[0], b, a)
	}
	return c.mk("ite", "", a.sort, nil, g, a, b)
}

// ---- linear integer arithmetic normal form

type lin struct {
	co map[*Term]*big.Int
	k  *big.Int
}

func (c *Ctx) linOf(t *Term) lin {
	l := lin{map[*Term]*big.Int{}, new(big.Int)}
	c.linAdd(&l, t, big.NewInt(1))
	return l
}

func (c *Ctx) linAdd(l *lin, t *Term, f *big.Int) {
	switch {
	case t.op == "int":
		l.k.Add(l.k, new(big.Int).Mul(f, t.val))
	case t.op == "+":
		for _, a := range t.args {
			c.linAdd(l, a, f)
		}
	case t.op == "*" && t.args[0].op == "int":
		c.linAdd(l, t.args[1], new(big.Int).Mul(f, t.args[0].val))
	default:
		v, ok := l.co[t]
		if !ok {
			v = new(big.Int)
		} else {
			v = new(big.Int).Set(v)
		}
		v.Add(v, f)
		if v.Sign() == 0 {
			delete(l.co, t)
		} else {
			l.co[t] = v
		}
	}
}

func (c *Ctx) fromLin(l lin) *Term {
	var ts []*Term
	for t := range l.co {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var out []*Term
	for _, t := range ts {
		f := l.co[t]
		if f.IsInt64() && f.Int64() == 1 {
			out = append(out, t)
		} else {
			out = append(out, c.mk("*", "", SInt, nil, c.Big(f), t))
		}
	}
	if l.k.Sign() != 0 || len(out) == 0 {
		out = append(out, c.Big(new(big.Int).Set(l.k)))
	}
	if len(out) == 1 {
		return out[0]
	}
	return c.mk("+", "", SInt, nil, out...)
}

func (c *Ctx) Add(ts ...*Term) *Term {
	l := lin{map[*Term]*big.Int{}, new(big.Int)}
	for _, t := range ts {
		c.linAdd(&l, t, big.NewInt(1))
	}
	return c.fromLin(l)
}
func (c *Ctx) Sub(a, b *Term) *Term {
	l := lin{map[*Term]*big.Int{}, new(big.Int)}
	c.linAdd(&l, a, big.NewInt(1))
	c.linAdd(&l, b, big.NewInt(-1))
	return c.fromLin(l)
}
func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.Int(0), a) }
func (c *Ctx) Mul(a, b *Term) *Term {
	if b.op == "int" {
		a, b = b, a
	}
	if a.op == "int" {
		l := lin{map[*Term]*big.Int{}, new(big.Int)}
		c.linAdd(&l, b, a.val)
		return c.fromLin(l)
	}
	return c.mk("*", "", SInt, nil, a, b)
}

// floor division and modulus (SMT semantics) with positive constant divisors folded
func (c *Ctx) Div(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.val.Sign() > 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.val, b.val, m)
		return c.Big(q)
	}
	if c.isIntVal(b, 1) {
		return a
	}
	return c.mk("div", "", SInt, nil, a, b)
}
func (c *Ctx) Mod(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.val.Sign() > 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.val, b.val, m)
		return c.Big(m)
	}
	return c.mk("mod", "", SInt, nil, a, b)
}

// allocOff reports whether t is alloc0 + k with k >= 0.
func (c *Ctx) allocOff(t *Term) bool {
	if t == c.alloc0 {
		return true
	}
	if t.fresh {
		return true
	}
	if t.op == "+" && len(t.args) == 2 && (t.args[0] == c.alloc0 || t.args[0].fresh) && t.args[1].isInt() && t.args[1].val.Sign() >= 0 {
		return true
	}
	return false
}

func (c *Ctx) isOld(t *Term) bool {
	return t.old || t.isInt() && t.val.Sign() <= 0
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True()
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sort mismatch %s %s: %s / %s", a.sort, b.sort, a, b))
	}
	if a.isConst() && b.isConst() {
		return c.False()
	}
	switch a.sort {
	case SInt:
		if c.isOld(a) && c.allocOff(b) || c.isOld(b) && c.allocOff(a) {
			return c.False()
		}
		d := c.linOf(c.Sub(a, b))
		if len(d.co) == 0 {
			return c.Bool(d.k.Sign() == 0)
		}
		// ite distribution for constants
		if a.op == "ite" && b.isConst() && (a.args[1].isConst() || a.args[2].isConst()) {
			return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
		}
		if b.op == "ite" && a.isConst() && (b.args[1].isConst() || b.args[2].isConst()) {
			return c.Ite(b.args[0], c.Eq(b.args[1], a), c.Eq(b.args[2], a))
		}
	case SBool:
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
	case SStr:
		if b.op == "ite" && a.isConst() {
			a, b = b, a
		}
		if a.op == "ite" && b.isConst() && (a.args[1].isConst() || a.args[2].isConst()) {
			return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk("=", "", SBool, nil, a, b)
}
func (c *Ctx) Ne(a, b *Term) *Term { return c.Not(c.Eq(a, b)) }

func (c *Ctx) Le(a, b *Term) *Term {
	d := c.linOf(c.Sub(a, b))
	if len(d.co) == 0 {
		return c.Bool(d.k.Sign() <= 0)
	}
	if b.op == "str.len" && a.isInt() && a.val.Sign() <= 0 {
		return c.True()
	}
	return c.mk("<=", "", SBool, nil, a, b)
}
func (c *Ctx) Lt(a, b *Term) *Term {
	d := c.linOf(c.Sub(a, b))
	if len(d.co) == 0 {
		return c.Bool(d.k.Sign() < 0)
	}
	if a.op == "str.len" && b.isInt() && b.val.Sign() <= 0 {
		return c.False()
	}
	return c.mk("<", "", SBool, nil, a, b)
}

// ---- arrays

func elemSort(s string) string {
	// (Array K V) -> V
	k, v := splitArr(s)
	_ = k
	return v
}
func keySort(s string) string {
	k, _ := splitArr(s)
	return k
}

func splitArr(s string) (string, string) {
	body := strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	depth := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return body[:i], body[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

func (c *Ctx) Select(a, i *Term) *Term {
	for {
		switch a.op {
		case "store":
			e := c.Eq(a.args[1], i)
			if e.isTrue() {
				return a.args[2]
			}
			if e.isFalse() {
				a = a.args[0]
				continue
			}
		case "constarr":
			return a.args[0]
		case "ite":
			// push selects into ites whose branches are stores
			if a.args[1].op == "store" || a.args[2].op == "store" || a.args[1].op == "constarr" || a.args[2].op == "constarr" {
				return c.Ite(a.args[0], c.Select(a.args[1], i), c.Select(a.args[2], i))
			}
		}
		break
	}
	return c.mk("select", "", elemSort(a.sort), nil, a, i)
}

func (c *Ctx) Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		return c.Store(a.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	if elemSort(a.sort) != v.sort {
		panic(fmt.Sprintf("store sort mismatch: %s into %s", v.sort, a.sort))
	}
	return c.mk("store", "", a.sort, nil, a, i, v)
}

func (c *Ctx) ConstArr(sort string, v *Term) *Term { return c.mk("constarr", "", sort, nil, v) }

// ---- uninterpreted functions

func (c *Ctx) UF(name, ret string, args ...*Term) *Term {
	n := sanitize(name)
	var as []string
	for _, a := range args {
		as = append(as, a.sort)
	}
	if len(args) == 0 {
		return c.Sym(n, ret)
	}
	if old, ok := c.ufs[n]; ok {
		if old.ret != ret || strings.Join(old.args, ",") != strings.Join(as, ",") {
			n = sanitize(n + "__" + strings.Join(as, "_") + "__" + ret)
			c.ufs[n] = ufSig{as, ret}
		}
	} else {
		c.ufs[n] = ufSig{as, ret}
	}
	return c.mk("uf:"+n, "", ret, nil, args...)
}

// Op builds a term of an interpreted operator without simplification.
func (c *Ctx) Op(op, sort string, args ...*Term) *Term { return c.mk(op, "", sort, nil, args...) }

// ---- quantifiers

func (c *Ctx) quant(q string, vars []*Term, body *Term, pats ...*Term) *Term {
	if body.isTrue() || body.isFalse() {
		return body
	}
	if !body.open {
		return body
	}
	var names []string
	for _, v := range vars {
		names = append(names, v.name)
	}
	var good []*Term
	for _, p := range pats {
		if !badPattern(p) {
			good = append(good, p)
		}
	}
	if len(vars) == 1 || len(good) == len(pats) {
		pats = good
	} else {
		pats = nil
	}
	args := append([]*Term{body}, pats...)
	t := c.mk(q, strings.Join(names, ","), SBool, nil, args...)
	t.vars = vars
	t.pats = pats
	t.qdepth = true
	// recompute openness: open if there is another free bound var
	fv := map[*Term]bool{}
	c.freeVars(body, fv, map[*Term]bool{})
	for _, v := range vars {
		delete(fv, v)
	}
	t.open = len(fv) > 0
	return t
}

func (c *Ctx) freeVars(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if !t.open || seen[t] {
		return
	}
	seen[t] = true
	if t.op == "var" {
		out[t] = true
		return
	}
	if t.op == "forall" || t.op == "exists" {
		in := map[*Term]bool{}
		c.freeVars(t.args[0], in, map[*Term]bool{})
		for _, v := range t.vars {
			delete(in, v)
		}
		for v := range in {
			out[v] = true
		}
		return
	}
	for _, a := range t.args {
		c.freeVars(a, out, seen)
	}
}

func (c *Ctx) Forall(vars []*Term, body *Term, pats ...*Term) *Term {
	return c.quant("forall", vars, body, pats...)
}
func (c *Ctx) Exists(vars []*Term, body *Term) *Term { return c.quant("exists", vars, body) }

// Subst replaces a bound variable or symbol.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = f(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = c.rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "not":
		return c.Not(a[0])
	case "and":
		return c.And(a...)
	case "or":
		return c.Or(a...)
	case "=>":
		return c.Implies(a[0], a[1])
	case "=":
		return c.Eq(a[0], a[1])
	case "ite":
		return c.Ite(a[0], a[1], a[2])
	case "+":
		return c.Add(a...)
	case "*":
		return c.Mul(a[0], a[1])
	case "<=":
		return c.Le(a[0], a[1])
	case "<":
		return c.Lt(a[0], a[1])
	case "select":
		return c.Select(a[0], a[1])
	case "store":
		return c.Store(a[0], a[1], a[2])
	case "forall", "exists":
		return c.quant(t.op, t.vars, a[0], a[1:]...)
	}
	return c.mk(t.op, t.name, t.sort, t.val, a...)
}

func (t *Term) String() string {
	var b strings.Builder
	printTerm(&b, t, nil, 0)
	s := b.String()
	if len(s) > 2000 {
		s = s[:2000] + "..."
	}
	return s
}

func smtInt(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		ch := s[i]
		switch {
		case ch == '"':
			b.WriteString("\"\"")
		case ch == '\\' || ch < 32 || ch > 126:
			fmt.Fprintf(&b, "\\u{%x}", ch)
		default:
			b.WriteByte(ch)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func printTerm(b *strings.Builder, t *Term, names map[*Term]string, depth int) {
	if depth > 0 && names != nil {
		if n, ok := names[t]; ok {
			b.WriteString(n)
			return
		}
	}
	if names == nil && depth > 12 {
		b.WriteString("..")
		return
	}
	switch t.op {
	case "sym", "var":
		b.WriteString("|" + t.name + "|")
	case "int":
		b.WriteString(smtInt(t.val))
	case "bool":
		b.WriteString(t.name)
	case "str":
		if names != nil {
			if n, ok := names[t]; ok {
				b.WriteString(n)
				return
			}
		}
		b.WriteString(smtStr(t.name))
	case "constarr":
		b.WriteString("((as const " + t.sort + ") ")
		printTerm(b, t.args[0], names, depth+1)
		b.WriteString(")")
	case "forall", "exists":
		b.WriteString("(" + t.op + " (")
		for _, v := range t.vars {
			b.WriteString("(|" + v.name + "| " + v.sort + ")")
		}
		b.WriteString(") ")
		if len(t.args) > 1 {
			b.WriteString("(! ")
		}
		printTerm(b, t.args[0], names, depth+1)
		if len(t.args) > 1 {
			// several patterns: alternatives for one variable, one joint pattern for more
			for i, p := range t.args[1:] {
				if i == 0 || len(t.vars) == 1 {
					if i > 0 {
						b.WriteByte(')')
					}
					b.WriteString(" :pattern (")
				} else {
					b.WriteByte(' ')
				}
				printTerm(b, p, names, depth+1)
			}
			b.WriteString("))")
		}
		b.WriteString(")")
	default:
		op := t.op
		if strings.HasPrefix(op, "uf:") {
			op = "|" + op[3:] + "|"
		}
		b.WriteString("(" + op)
		for _, a := range t.args {
			b.WriteByte(' ')
			printTerm(b, a, names, depth+1)
		}
		b.WriteByte(')')
	}
}

// badPattern: solvers do not accept these operators in triggers.
func badPattern(t *Term) bool {
	switch t.op {
	case "ite", "and", "or", "not", "=>", "=", "<", "<=", "forall", "exists":
		return true
	}
	if len(t.vars) > 0 {
		return true
	}
	for _, a := range t.args {
		if badPattern(a) {
			return true
		}
	}
	return false
}
