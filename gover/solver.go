package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Query is one proof obligation in solver form: facts |- goal.
type Query struct {
	facts []*Term
	goal  *Term
}

type SolverStats struct {
	mu      sync.Mutex
	calls   map[string]int
	proved  map[string]int
	seconds map[string]float64
}

var stats = SolverStats{calls: map[string]int{}, proved: map[string]int{}, seconds: map[string]float64{}}
var queryCount int64
var dumpDir string
var procSem = make(chan struct{}, 8)

const (
	rUnsat   = "unsat"
	rSat     = "sat"
	rUnknown = "unknown"
)

func collect(roots []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		out = append(out, t)
	}
	for _, r := range roots {
		walk(r)
	}
	return out
}

func hasStrOps(ts []*Term) bool {
	for _, t := range ts {
		if strings.HasPrefix(t.op, "str.") && t.op != "str.len" {
			return true
		}
	}
	return false
}

// constFacts: the values of library functions of one string on the literals of a query.
func (c *Ctx) constFacts(roots []*Term) []*Term {
	used := map[string]bool{}
	var lits []*Term
	for _, t := range collect(roots) {
		if t.op == "str" {
			lits = append(lits, t)
		} else if strings.HasPrefix(t.op, "uf:") && len(t.args) == 1 {
			used[t.op[3:]] = true
		}
	}
	var fs []*Term
	for _, l := range lits {
		n, err := strconv.ParseInt(l.name, 10, 64)
		u, uerr := strconv.ParseUint(l.name, 10, 64)
		for f := range used {
			switch f {
			case "strings.ToLower":
				fs = append(fs, c.Eq(c.UF(f, SStr, l), c.Str(strings.ToLower(l.name))))
			case "strings.ToUpper":
				fs = append(fs, c.Eq(c.UF(f, SStr, l), c.Str(strings.ToUpper(l.name))))
			case "strings.TrimSpace":
				fs = append(fs, c.Eq(c.UF(f, SStr, l), c.Str(strings.TrimSpace(l.name))))
			case "atoi.ok":
				fs = append(fs, c.Eq(c.UF(f, SBool, l), c.Bool(err == nil)))
			case "atoi.val":
				if err == nil {
					fs = append(fs, c.Eq(c.UF(f, SInt, l), c.Int(n)))
				}
			case "atou.ok":
				fs = append(fs, c.Eq(c.UF(f, SBool, l), c.Bool(uerr == nil)))
			case "atou.val":
				if uerr == nil {
					fs = append(fs, c.Eq(c.UF(f, SInt, l), c.Big(new(big.Int).SetUint64(u))))
				}
			}
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].id < fs[j].id })
	return fs
}

// render prints a query. abstract: strings become an uninterpreted sort.
func (c *Ctx) render(facts []*Term, goal *Term, abstract bool, wantModel bool) string {
	ng := c.Not(goal)
	facts = append(append([]*Term{}, facts...), c.constFacts(append(append([]*Term{}, facts...), ng))...)
	roots := append(append([]*Term{}, facts...), ng)
	all := collect(roots)
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	if wantModel {
		b.WriteString("(set-option :produce-models true)\n")
	}
	fixSort := func(s string) string {
		if abstract {
			return s
		}
		return strings.ReplaceAll(s, "Str", "String")
	}
	usesStr, usesFlt := false, false
	var strs []*Term
	for _, t := range all {
		if strings.Contains(t.sort, "Str") {
			usesStr = true
		}
		if strings.Contains(t.sort, "Flt") {
			usesFlt = true
		}
		if t.op == "str" {
			strs = append(strs, t)
			usesStr = true
		}
	}
	names := map[*Term]string{}
	if usesFlt {
		b.WriteString("(declare-sort Flt 0)\n")
	}
	absOps := map[string]string{}
	if abstract && usesStr {
		b.WriteString("(declare-sort Str 0)\n(declare-fun |astr.len| (Str) Int)\n")
		b.WriteString("(declare-const |s:| Str)\n")
		hasEmpty := false
		for i, s := range strs {
			if s.name == "" {
				names[s] = "|s:|"
				hasEmpty = true
				continue
			}
			names[s] = fmt.Sprintf("|s:%d|", i)
			fmt.Fprintf(&b, "(declare-const %s Str) ; %q\n(assert (= (|astr.len| %s) %d))\n", names[s], s.name, names[s], len(s.name))
		}
		if len(strs) > 1 || len(strs) == 1 && !hasEmpty {
			b.WriteString("(assert (distinct |s:|")
			for _, s := range strs {
				if s.name != "" {
					b.WriteString(" " + names[s])
				}
			}
			b.WriteString("))\n")
		}
		b.WriteString("(assert (forall ((s Str)) (! (and (>= (|astr.len| s) 0) (= (= (|astr.len| s) 0) (= s |s:|))) :pattern ((|astr.len| s)))))\n(assert (= (|astr.len| |s:|) 0))\n")
	}
	ufseen := map[string]bool{}
	for _, t := range all {
		switch {
		case t.op == "sym":
			fmt.Fprintf(&b, "(declare-const |%s| %s)\n", qn(t.name), fixSort(t.sort))
		case strings.HasPrefix(t.op, "uf:"):
			n := t.op[3:]
			if !ufseen[n] {
				ufseen[n] = true
				var as []string
				for _, a := range t.args {
					as = append(as, fixSort(a.sort))
				}
				fmt.Fprintf(&b, "(declare-fun |%s| (%s) %s)\n", qn(n), strings.Join(as, " "), fixSort(t.sort))
			}
		case abstract && strings.HasPrefix(t.op, "str.") && t.op != "str.len":
			if op := absOp(t); absOps[op] == "" {
				absOps[op] = op
				var as []string
				for _, a := range t.args {
					as = append(as, a.sort)
				}
				fmt.Fprintf(&b, "(declare-fun |%s| (%s) %s)\n", op, strings.Join(as, " "), t.sort)
			}
		}
	}
	// shared closed subterms become definitions
	uses := map[*Term]int{}
	for _, t := range all {
		for _, a := range t.args {
			uses[a]++
		}
	}
	for _, r := range roots {
		uses[r]++
	}
	sort.Slice(all, func(i, j int) bool { return all[i].id < all[j].id })
	pr := func(t *Term) string {
		var sb strings.Builder
		if abstract {
			printAbs(&sb, t, names)
		} else {
			printTerm2(&sb, t, names, fixSort)
		}
		return sb.String()
	}
	order := topo(roots)
	for _, t := range order {
		if t.open || len(t.args) == 0 || uses[t] < 2 {
			continue
		}
		s := pr(t)
		n := fmt.Sprintf("t%d", t.id)
		fmt.Fprintf(&b, "(define-fun %s () %s %s)\n", n, fixSort(t.sort), s)
		names[t] = n
	}
	for _, f := range facts {
		if f.isTrue() {
			continue
		}
		b.WriteString("(assert " + pr(f) + ")\n")
	}
	b.WriteString("(assert " + pr(ng) + ")\n(check-sat)\n")
	return b.String()
}

func topo(roots []*Term) []*Term { return collect(roots) }

// absOp: the uninterpreted function for a string operation.
func absOp(t *Term) string {
	if t.op == "str.++" && len(t.args) > 2 {
		return fmt.Sprint("a", t.op, len(t.args))
	}
	return "a" + t.op
}

func printAbs(b *strings.Builder, t *Term, names map[*Term]string) {
	printX(b, t, names, func(s string) string { return s }, true)
}

func printTerm2(b *strings.Builder, t *Term, names map[*Term]string, fs func(string) string) {
	printX(b, t, names, fs, false)
}

func printX(b *strings.Builder, t *Term, names map[*Term]string, fs func(string) string, abs bool) {
	if n, ok := names[t]; ok {
		b.WriteString(n)
		return
	}
	switch t.op {
	case "sym", "var":
		b.WriteString("|" + qn(t.name) + "|")
	case "int":
		b.WriteString(smtInt(t.val))
	case "bool":
		b.WriteString(t.name)
	case "str":
		b.WriteString(smtStr(t.name))
	case "constarr":
		b.WriteString("((as const " + fs(t.sort) + ") ")
		printX(b, t.args[0], names, fs, abs)
		b.WriteString(")")
	case "forall", "exists":
		b.WriteString("(" + t.op + " (")
		for _, v := range t.vars {
			b.WriteString("(|" + qn(v.name) + "| " + fs(v.sort) + ")")
		}
		b.WriteString(") ")
		if len(t.args) > 1 {
			b.WriteString("(! ")
		}
		printX(b, t.args[0], names, fs, abs)
		if len(t.args) > 1 {
			// several patterns: alternatives for one variable, one joint pattern for more
			for i, p := range t.args[1:] {
				if i == 0 || len(t.vars) == 1 {
					if i > 0 {
						b.WriteByte(')')
					}
					b.WriteString(" :pattern (")
				} else {
					b.WriteByte(' ')
				}
				printX(b, p, names, fs, abs)
			}
			b.WriteString("))")
		}
		b.WriteString(")")
	default:
		op := t.op
		if strings.HasPrefix(op, "uf:") {
			op = "|" + qn(op[3:]) + "|"
		} else if abs && strings.HasPrefix(op, "str.") {
			op = "|" + absOp(t) + "|"
		}
		b.WriteString("(" + op)
		for _, a := range t.args {
			b.WriteByte(' ')
			printX(b, a, names, fs, abs)
		}
		b.WriteByte(')')
	}
}

type solverCfg struct {
	name string
	cmd  []string
}

func solverCmd(name string, timeoutMS int) []string {
	switch name {
	case "z3-new", "z3":
		return []string{name, fmt.Sprintf("-t:%d", timeoutMS), "-smt2", "-in"}
	case "cvc5":
		return []string{"cvc5", "--lang=smt2", "--strings-exp", fmt.Sprintf("--tlimit=%d", timeoutMS), "-"}
	}
	panic(name)
}

func runSolver(ctx context.Context, name, text string, timeoutMS int) (string, string) {
	select {
	case procSem <- struct{}{}:
	case <-ctx.Done():
		return rUnknown, "cancelled"
	}
	defer func() { <-procSem }()
	if ctx.Err() != nil {
		return rUnknown, "cancelled"
	}
	args := solverCmd(name, timeoutMS)
	cctx, cancel := context.WithTimeout(ctx, time.Duration(timeoutMS+2000)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(cctx, args[0], args[1:]...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	start := time.Now()
	cmd.Run()
	el := time.Since(start).Seconds()
	res := rUnknown
	o := out.String()
	for _, l := range strings.Split(o, "\n") {
		switch strings.TrimSpace(l) {
		case "unsat":
			res = rUnsat
		case "sat":
			res = rSat
		}
	}
	if strings.Contains(o, "error") && res != rUnsat {
		res = rUnknown
		if os.Getenv("GOVER_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "solver %s: %s\n", name, o)
		}
	} else if strings.Contains(o, "(error") {
		res = rUnknown
	}
	stats.mu.Lock()
	stats.calls[name]++
	stats.seconds[name] += el
	if res == rUnsat {
		stats.proved[name]++
	}
	stats.mu.Unlock()
	return res, o
}

type SolveResult struct {
	res    string
	solver string
	out    string
	text   string
	secs   float64
}

var solveCache sync.Map
var cacheEpoch int64

// freshCache forgets earlier answers (used before a retry with more time).
func freshCache() { atomic.AddInt64(&cacheEpoch, 1) }

// solve decides one query with a portfolio.
func (c *Ctx) solve(facts []*Term, goal *Term, budgetMS int, full bool) SolveResult {
	start := time.Now()
	r := c.solve1(facts, goal, budgetMS, full)
	if r.res == rUnknown && full {
		// a conjunction may be easier part by part
		if parts := c.splitGoal(goal); len(parts) > 1 && len(parts) <= 40 {
			all := true
			last := r
			for _, p := range parts {
				q := c.solve1(facts, p, budgetMS, full)
				if q.res != rUnsat {
					all = false
					if os.Getenv("GOVER_DEBUG") != "" {
						fmt.Fprintf(os.Stderr, "   part %s: %.900s\n", q.res, p.String())
					}
					if q.res == rSat {
						last = q
					}
					break
				}
				last = q
			}
			if all || last.res == rSat {
				r = last
			}
		}
	}
	r.secs = time.Since(start).Seconds()
	return r
}

// splitGoal: goals that together imply the goal.
func (c *Ctx) splitGoal(g *Term) []*Term {
	switch g.op {
	case "and":
		var out []*Term
		for _, a := range g.args {
			out = append(out, c.splitGoal(a)...)
		}
		return out
	case "=>":
		var out []*Term
		for _, b := range c.splitGoal(g.args[1]) {
			out = append(out, c.Implies(g.args[0], b))
		}
		return out
	case "or":
		for i, a := range g.args {
			if a.op != "and" {
				continue
			}
			var out []*Term
			for _, b := range c.splitGoal(a) {
				ts := append([]*Term{}, g.args...)
				ts[i] = b
				out = append(out, c.Or(ts...))
			}
			return out
		}
	case "forall":
		if parts := c.splitGoal(g.args[0]); len(parts) > 1 {
			var out []*Term
			for _, b := range parts {
				out = append(out, c.Forall(g.vars, b))
			}
			return out
		}
	}
	return []*Term{g}
}

func (c *Ctx) solve1(facts []*Term, goal *Term, budgetMS int, full bool) SolveResult {
	if goal.isTrue() {
		return SolveResult{res: rUnsat, solver: "simplifier"}
	}
	for _, f := range facts {
		if f.isFalse() {
			return SolveResult{res: rUnsat, solver: "simplifier"}
		}
	}
	facts = relevant(facts, goal)
	if sub := focus(facts, goal); len(sub) < len(facts) {
		ms := budgetMS / 2
		if ms > 1500 {
			ms = 1500
		}
		text := c.render(sub, goal, true, false)
		key := sha256.Sum256([]byte(fmt.Sprint(cacheEpoch, text)))
		if v, ok := solveCache.Load(key); ok {
			if r := v.(SolveResult); r.res == rUnsat {
				return r
			}
		} else {
			n := atomic.AddInt64(&queryCount, 1)
			if dumpDir != "" {
				os.WriteFile(filepath.Join(dumpDir, fmt.Sprintf("q%05d-focus.smt2", n)), []byte(text), 0644)
			}
			r, o := runSolver(context.Background(), "z3-new", text, ms)
			sr := SolveResult{res: r, solver: "z3-new", out: o, text: text}
			solveCache.Store(key, sr)
			if r == rUnsat {
				return sr
			}
		}
	}
	abs := c.render(facts, goal, true, false)
	key := sha256.Sum256([]byte(fmt.Sprint(cacheEpoch, abs)))
	if v, ok := solveCache.Load(key); ok {
		r := v.(SolveResult)
		if r.res != rUnknown || !full {
			return r
		}
	}
	n := atomic.AddInt64(&queryCount, 1)
	if dumpDir != "" {
		os.WriteFile(filepath.Join(dumpDir, fmt.Sprintf("q%05d.smt2", n)), []byte(abs), 0644)
	}
	all := collect(append(append([]*Term{}, facts...), goal))
	strops := hasStrOps(all)
	ctx := context.Background()
	finish := func(r SolveResult) SolveResult {
		solveCache.Store(key, r)
		return r
	}
	short := budgetMS
	if short > 2500 {
		short = 2500
	}
	r, o := runSolver(ctx, "z3-new", abs, short)
	if r == rUnsat {
		return finish(SolveResult{res: r, solver: "z3-new", out: o, text: abs})
	}
	if r == rSat && !strops {
		return finish(SolveResult{res: r, solver: "z3-new", out: o, text: abs})
	}
	best := SolveResult{res: rUnknown, solver: "z3-new", out: o, text: abs}
	type job struct{ solver, text string }
	var jobs []job
	if strops {
		real := c.render(facts, goal, false, false)
		if dumpDir != "" {
			os.WriteFile(filepath.Join(dumpDir, fmt.Sprintf("q%05d-str.smt2", n)), []byte(real), 0644)
		}
		jobs = append(jobs, job{"cvc5", real}, job{"z3-new", real}, job{"z3", real})
	}
	if full {
		jobs = append(jobs, job{"z3", abs}, job{"cvc5", abs}, job{"z3-new", abs})
	}
	if len(jobs) == 0 {
		return finish(best)
	}
	cctx, cancel := context.WithCancel(ctx)
	defer cancel()
	ch := make(chan SolveResult, len(jobs))
	for i, j := range jobs {
		go func(i int, j job) {
			r, o := runSolver(cctx, j.solver, j.text, budgetMS)
			if r == rSat && strops && j.text == abs {
				r = rUnknown
			}
			ch <- SolveResult{res: r, solver: j.solver, out: o, text: j.text}
		}(i, j)
	}
	for range jobs {
		r := <-ch
		if r.res == rUnsat {
			return finish(r)
		}
		if r.res == rSat {
			best = r
			if strops {
				return finish(r)
			}
		}
	}
	return finish(best)
}

// focus drops quantified facts about functions the goal does not mention.
func focus(facts []*Term, goal *Term) []*Term {
	ufs := func(t *Term) map[string]bool {
		m := map[string]bool{}
		for _, u := range collect([]*Term{t}) {
			if strings.HasPrefix(u.op, "uf:") || u.op == "sym" && strings.HasPrefix(u.name, "charfn") {
				m[u.op+u.name] = true
			}
		}
		return m
	}
	g := ufs(goal)
	var out []*Term
	for _, f := range facts {
		if f.qdepth {
			ok := true
			for k := range ufs(f) {
				if !g[k] {
					ok = false
				}
			}
			if !ok {
				continue
			}
		}
		out = append(out, f)
	}
	return out
}

// relevant keeps the facts connected to the goal through shared symbols.
func relevant(facts []*Term, goal *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, f := range facts {
		if f.isTrue() || seen[f] {
			continue
		}
		seen[f] = true
		out = append(out, f)
	}
	return out
}

func qn(s string) string {
	return strings.NewReplacer("|", "~", "\\", "~").Replace(s)
}
