package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

var retryMode bool

type Result struct {
	ct                         *Contract
	obls                       []*Obligation
	failed                     []*Obligation
	invs                       int
	err                        string // outside the verifier's reach
	vacuous                    bool
	rounds                     int
	wall                       float64
	solver                     map[string]int
	contracts, models, inlined []string
	ensures                    int
	invNames                   []string
}

func (x *Exec) verifyRun() (err error) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(Unsupported); ok {
				err = fmt.Errorf("unsupported: %s", u.msg)
				return
			}
			err = fmt.Errorf("internal: %v\n%s", r, debug.Stack())
		}
	}()
	st := x.newState()
	fn := x.ct.Fn
	var args []Value
	for _, p := range fn.Params {
		args = append(args, x.paramVal(st, p.Type(), p.Name()))
	}
	x.ensured = map[string]int{}
	outs := x.runFunc(st, fn, args, nil, x.ct.Name, modeVerify, x.ct)
	if x.ct.Lemma {
		for _, o := range outs {
			x.retReached++
			x.reach = append(x.reach, &Obligation{name: x.ct.ID + "/reach", kind: "reach", facts: o.st.facts(), goal: x.c.False()})
		}
	}
	return nil
}

func verifyContract(p *Program, ct *Contract, thorough bool) *Result {
	start := time.Now()
	res := &Result{ct: ct, solver: map[string]int{}}
	defer func() { res.wall = time.Since(start).Seconds() }()
	x := newExec(p, ct)
	candMS, mainMS := 2000, 10000
	if v := ct.Opts["candms"]; v != "" {
		fmt.Sscan(v, &candMS)
	}
	if v := ct.Opts["ms"]; v != "" {
		fmt.Sscan(v, &mainMS)
	}
	if retryMode {
		mainMS *= 2
		candMS *= 2
	}
	if thorough {
		mainMS *= 4
		candMS *= 2
	}
	for res.rounds = 1; res.rounds < 60; res.rounds++ {
		debugf("%s: round %d at %.1fs", ct.ID, res.rounds, time.Since(start).Seconds())
		x.reset()
		if err := x.verifyRun(); err != nil {
			res.err = err.Error()
			return res
		}
		if x.wDirty {
			continue
		}
		dropped := x.pruneCandidates(candMS)
		if dropped == 0 {
			break
		}
		debugf("%s: round %d dropped %d candidates", ct.ID, res.rounds, dropped)
	}
	var main []*Obligation
	seen := map[string]bool{}
	for _, o := range x.obls {
		if o.cand == nil {
			main = append(main, o)
		} else if o.cand.alive && !seen[o.cand.name] {
			seen[o.cand.name] = true
			res.invs++
			res.invNames = append(res.invNames, o.cand.name)
		}
	}
	debugf("%s: %d obligations at %.1fs", ct.ID, len(main), time.Since(start).Seconds())
	parallel(main, func(o *Obligation) {
		t := time.Now()
		o.res = x.c.solve(o.facts, o.goal, mainMS, true)
		if d := time.Since(t).Seconds(); d > 3 || o.res.res != rUnsat {
			debugf("   %s %s %.1fs, %d facts", o.res.res, o.name, d, len(o.facts))
		}
	})
	for _, o := range x.obls {
		if o.cand != nil && o.cand.alive {
			res.obls = append(res.obls, o)
			res.solver[o.res.solver]++
		}
	}
	for _, o := range main {
		res.obls = append(res.obls, o)
		if o.res.res == rUnsat {
			res.solver[o.res.solver]++
		} else {
			res.failed = append(res.failed, o)
		}
	}
	res.ensures = 0
	for _, n := range x.ensured {
		res.ensures += n
	}
	// vacuity: some path through the contract must be consistent
	if len(res.failed) == 0 {
		if x.retReached == 0 {
			res.vacuous = true
		}
		ok := len(x.reach) == 0
		for i, o := range x.reach {
			if i >= 400 {
				break
			}
			r := x.c.solve(o.facts, o.goal, 1000, false)
			if r.res != rUnsat {
				ok = true
				break
			}
		}
		if !ok {
			res.vacuous = true
		}
		if len(res.obls) == 0 {
			res.vacuous = true
		}
	}
	res.contracts = keysOf(x.usedContracts)
	res.models = keysOf(x.usedModels)
	res.inlined = keysOf(x.inlined)
	return res
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func parallel(os []*Obligation, f func(*Obligation)) {
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for _, o := range os {
		wg.Add(1)
		sem <- true
		go func(o *Obligation) {
			defer wg.Done()
			defer func() { <-sem }()
			f(o)
		}(o)
	}
	wg.Wait()
}

// pruneCandidates drops the candidates that are not inductive in this round.
func (x *Exec) pruneCandidates(ms int) int {
	// group by (facts, loop, when): prove the conjunction first
	type group struct {
		os []*Obligation
	}
	groups := map[string]*group{}
	var order []string
	for _, o := range x.obls {
		if o.cand == nil || !o.cand.alive {
			continue
		}
		k := fmt.Sprintf("%d|%s", len(o.facts), strings.SplitN(o.name, ":", 3)[1])
		if len(o.facts) > 0 {
			k += fmt.Sprintf("|%d|%p", o.facts[len(o.facts)-1].id, o.cand.info)
		}
		g := groups[k]
		if g == nil {
			g = &group{}
			groups[k] = g
			order = append(order, k)
		}
		g.os = append(g.os, o)
	}
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	var mu sync.Mutex
	fails := map[*cand]bool{}
	for _, k := range order {
		g := groups[k]
		wg.Add(1)
		sem <- true
		go func(g *group) {
			defer wg.Done()
			defer func() { <-sem }()
			x.proveGroup(g.os, ms, &mu, fails)
		}(g)
	}
	wg.Wait()
	for cd := range fails {
		cd.alive = false
		debugf("   drop %s", cd.name)
	}
	return len(fails)
}

var indivSem = make(chan bool, 10)

func (x *Exec) proveGroup(os []*Obligation, ms int, mu *sync.Mutex, fails map[*cand]bool) {
	if len(os) == 0 {
		return
	}
	if len(os) > 1 {
		mu.Lock()
		var gs []*Term
		for _, o := range os {
			gs = append(gs, o.goal)
		}
		all := x.c.And(gs...)
		mu.Unlock()
		r := x.c.solve(os[0].facts, all, ms/2, false)
		if r.res == rUnsat {
			for _, o := range os {
				o.res = r
			}
			return
		}
	}
	var wg sync.WaitGroup
	for _, o := range os {
		wg.Add(1)
		go func(o *Obligation) {
			defer wg.Done()
			indivSem <- true
			defer func() { <-indivSem }()
			mu.Lock()
			dead := fails[o.cand]
			mu.Unlock()
			if dead {
				return
			}
			o.res = x.c.solve(o.facts, o.goal, ms, false)
			if o.res.res == rUnknown && strings.Contains(o.cand.name, ":template") {
				// an invariant written in the contract gets more time
				o.res = x.c.solve(o.facts, o.goal, 5*ms, true)
			}
			if o.res.res != rUnsat {
				debugf("   %s %s", o.res.res, o.name)
				mu.Lock()
				fails[o.cand] = true
				mu.Unlock()
			}
		}(o)
	}
	wg.Wait()
}

func dumpFailed(o *Obligation) {
	fmt.Fprintf(os.Stderr, "  FAILED %s [%s by %s] at %s\n     goal %s\n", o.name, o.res.res, o.res.solver, o.pos, o.goal)
}
