package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- native execution of contracts

type nativeConsts struct {
	Strs []string
	Ints []int64
}

type nativeResult struct {
	ID       string
	Cases    int
	Tried    int
	Distinct int
	Checks   int
	Failed   bool
	Index    int
	Clause   string
	Detail   string
	Args     string
	Samples  []string
	Seconds  float64
}

type nativeJob struct {
	IDs    []string
	Seed   uint64
	Cases  int
	MS     int
	Consts map[string]*nativeConsts
	Out    string
	Cursor string
	Start  map[string]int
}

// mineConsts collects the literals of the functions a contract reaches.
func (p *Program) mineConsts(ct *Contract) *nativeConsts {
	cs := &nativeConsts{}
	seenS, seenI := map[string]bool{}, map[int64]bool{}
	seen := map[*ssa.Function]bool{}
	var visit func(fn *ssa.Function, depth int)
	addConst := func(c *ssa.Const) {
		if c.Value == nil {
			return
		}
		switch c.Value.Kind() {
		case constant.String:
			s := constant.StringVal(c.Value)
			if len(s) <= 64 && !seenS[s] && len(cs.Strs) < 120 {
				seenS[s] = true
				cs.Strs = append(cs.Strs, s)
			}
		case constant.Int:
			if v, ok := constant.Int64Val(c.Value); ok && !seenI[v] && len(cs.Ints) < 80 {
				seenI[v] = true
				cs.Ints = append(cs.Ints, v)
			}
		}
	}
	visit = func(fn *ssa.Function, depth int) {
		if fn == nil || seen[fn] || depth > 5 || len(seen) > 150 {
			return
		}
		if fn.Pkg != nil && (!strings.HasPrefix(fn.Pkg.Pkg.Path(), repoModule) || fn.Pkg.Pkg.Path() == dslPkg) {
			return
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if c, ok := (*op).(*ssa.Const); ok && depth > 0 {
						addConst(c)
					}
					if f, ok := (*op).(*ssa.Function); ok {
						visit(f, depth+1)
					}
				}
				if cl, ok := in.(ssa.CallInstruction); ok {
					visit(cl.Common().StaticCallee(), depth+1)
				}
			}
		}
		for _, a := range fn.AnonFuncs {
			visit(a, depth)
		}
	}
	if ct.Target != nil {
		visit(ct.Target, 1)
	}
	visit(ct.Fn, 0)
	return cs
}

var reGen = regexp.MustCompile(`(?m)^func (gen_\w+)\(g \*vf\.Gen\) `)

// args_CONTRACT generates all the arguments of one contract
var reArgs = regexp.MustCompile(`(?m)^func args_(\w+)\(g \*vf\.Gen\) `)

type runner struct {
	p    *Program
	dir  string
	bins map[string]string // package dir -> binary
	mu   sync.Mutex
	errs map[string]string
}

// build compiles the test binary that executes the contracts of one package.
func (r *runner) build(pkgDir string) (string, error) {
	r.mu.Lock()
	if b, ok := r.bins[pkgDir]; ok {
		e := r.errs[pkgDir]
		r.mu.Unlock()
		if e != "" {
			return "", fmt.Errorf("%s", e)
		}
		return b, nil
	}
	r.mu.Unlock()
	p := r.p
	var w bytes.Buffer
	name := ""
	for i, sp := range p.ssaPkgs {
		if sp != nil && strings.TrimPrefix(p.pkgs[i].PkgPath, repoModule+"/") == pkgDir {
			name = sp.Pkg.Name()
		}
	}
	fmt.Fprintf(&w, "//go:build go1.21\n\npackage %s\n\nimport (\n\t\"os\"\n\t\"testing\"\n\tvf \"%s\"\n)\n\n", name, dslPkg)
	fmt.Fprintf(&w, "func TestVerifRun(t *testing.T) {\n")
	for k, src := range p.overlay {
		if filepath.Dir(k) != filepath.Join(p.repo, pkgDir) {
			continue
		}
		for _, m := range reGen.FindAllStringSubmatch(string(src), -1) {
			fmt.Fprintf(&w, "\tvf.RegisterGen(%s)\n", m[1])
		}
	}
	argFns := map[string]bool{}
	for k, src := range p.overlay {
		if filepath.Dir(k) == filepath.Join(p.repo, pkgDir) {
			for _, m := range reArgs.FindAllStringSubmatch(string(src), -1) {
				argFns[m[1]] = true
			}
		}
	}
	fmt.Fprintf(&w, "\tvf.RunJob([]vf.Entry{\n")
	for _, ct := range p.contracts {
		if ct.PkgDir == pkgDir && !ct.NoRun && ct.Fn.TypeParams().Len() == 0 {
			af := "nil"
			if argFns[ct.Name] {
				af = "args_" + ct.Name
			}
			fmt.Fprintf(&w, "\t\t{ID: %q, Fn: %s, Args: %s},\n", ct.ID, ct.Name, af)
		}
	}
	fmt.Fprintf(&w, "\t}, os.Getenv(\"VERIF_JOB\"))\n}\n")
	slug := strings.ReplaceAll(pkgDir, "/", "_")
	tf := filepath.Join(r.dir, slug+"_run_test.go")
	os.WriteFile(tf, w.Bytes(), 0o644)
	rep := map[string]string{filepath.Join(p.repo, pkgDir, "zz_verif_run_test.go"): tf}
	for k, src := range p.overlay {
		f := filepath.Join(r.dir, "ov_"+strings.ReplaceAll(strings.TrimPrefix(k, "/"), "/", "_"))
		os.WriteFile(f, src, 0o644)
		rep[k] = f
	}
	// the repository's own tests are not part of this binary
	ms, _ := filepath.Glob(filepath.Join(p.repo, pkgDir, "*_test.go"))
	for _, m := range ms {
		rep[m] = ""
	}
	ob, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	of := filepath.Join(r.dir, slug+"_overlay.json")
	os.WriteFile(of, ob, 0o644)
	bin := filepath.Join(r.dir, slug+".test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", of, "-o", bin, "./"+pkgDir)
	cmd.Dir = p.repo
	cmd.Env = goEnv()
	cmd.Path = goTool()
	out, err := cmd.CombinedOutput()
	e := ""
	if err != nil {
		e = fmt.Sprintf("building the native runner for %s: %v\n%s", pkgDir, err, out)
	}
	r.mu.Lock()
	r.bins[pkgDir], r.errs[pkgDir] = bin, e
	r.mu.Unlock()
	if e != "" {
		return "", fmt.Errorf("%s", e)
	}
	return bin, nil
}

func goTool() string {
	for _, g := range []string{"/opt/veriftools/go1.27.3/bin/go", "/usr/local/go/bin/go"} {
		if _, err := os.Stat(g); err == nil {
			return g
		}
	}
	g, _ := exec.LookPath("go")
	return g
}

var jobSeq int

// run executes contracts of one package in one process; crashes and hangs become failures.
func (r *runner) run(bin string, ids []string, seed uint64, cases, ms int, consts map[string]*nativeConsts, start map[string]int) (map[string]*nativeResult, error) {
	out := map[string]*nativeResult{}
	left := append([]string{}, ids...)
	for len(left) > 0 {
		r.mu.Lock()
		jobSeq++
		base := filepath.Join(r.dir, fmt.Sprintf("job%d", jobSeq))
		r.mu.Unlock()
		j := nativeJob{IDs: left, Seed: seed, Cases: cases, MS: ms, Consts: consts, Out: base + ".out", Cursor: base + ".cur", Start: start}
		jb, _ := json.Marshal(j)
		os.WriteFile(base+".json", jb, 0o644)
		os.Remove(j.Cursor)
		wd := base + ".wd"
		os.MkdirAll(wd, 0o755)
		cmd := exec.Command("/bin/sh", "-c", `ulimit -v 16000000; ulimit -f 2000000; exec "$0" -test.run '^TestVerifRun$' -test.timeout 0`, bin)
		cmd.Dir = wd
		cmd.Env = append(goEnv(), "VERIF_JOB="+base+".json", "GOMAXPROCS=2", "GOTRACEBACK=single", "TMPDIR="+wd, "HOME="+wd)
		var buf limitedBuf
		cmd.Stdout, cmd.Stderr = &buf, &buf
		if err := cmd.Start(); err != nil {
			return out, err
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		hung := false
		var werr error
		last, lastAt := "", time.Now()
		tick := time.NewTicker(500 * time.Millisecond)
	wait:
		for {
			select {
			case werr = <-done:
				break wait
			case <-tick.C:
				b, _ := os.ReadFile(j.Cursor)
				if s := string(b); s != last {
					last, lastAt = s, time.Now()
				} else if time.Since(lastAt) > 25*time.Second {
					hung = true
					cmd.Process.Kill()
					werr = <-done
					break wait
				}
			}
		}
		tick.Stop()
		if b, err := os.ReadFile(j.Out); err == nil {
			dec := json.NewDecoder(bytes.NewReader(b))
			for {
				var nr nativeResult
				if dec.Decode(&nr) != nil {
					break
				}
				n := nr
				out[nr.ID] = &n
			}
		}
		var rest []string
		for _, id := range left {
			if out[id] == nil {
				rest = append(rest, id)
			}
		}
		if werr == nil && !hung {
			break // ids not in the table are left without a result
		}
		cb, _ := os.ReadFile(j.Cursor)
		f := strings.Fields(string(cb))
		if len(f) < 2 {
			return out, fmt.Errorf("native runner failed before the first case: %v\n%s", werr, buf.String())
		}
		idx, _ := strconv.Atoi(f[0])
		cl, det := "no-crash", buf.String()
		if hung {
			cl, det = "termination", "one call did not return within 25 s"
		}
		out[f[1]] = &nativeResult{ID: f[1], Failed: true, Index: idx, Clause: cl, Detail: det, Tried: idx + 1, Cases: 1}
		left = nil
		for _, id := range rest {
			if id != f[1] {
				left = append(left, id)
			}
		}
	}
	return out, nil
}

type limitedBuf struct {
	b  []byte
	mu sync.Mutex
}

func (l *limitedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.b) < 6000 {
		l.b = append(l.b, p...)
		if len(l.b) > 6000 {
			l.b = l.b[:6000]
		}
	}
	return len(p), nil
}
func (l *limitedBuf) String() string { return string(l.b) }

// ---- known findings

type finding struct {
	prop, id, text string
}

func loadFindings(path string) []finding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=P14 contract=<contract id> <what fails>
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "known: "), " ", 3)
		if len(f) == 3 {
			out = append(out, finding{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "contract="), f[2]})
		}
	}
	return out
}

// ---- the check command

type violation struct {
	contract string
	clause   string
	input    bool
	replay   map[string]interface{}
}

func checkMain(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("property", "", "")
	tier := fs.String("tier", "", "")
	only := fs.String("only", "", "substring of contract id (development)")
	noproof := fs.Bool("noproof", false, "development: native execution only")
	fs.Parse(args)
	start := time.Now()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = uint64(v)
		}
	}
	if *tier == "thorough" {
		seed += 1000
	}
	contracts := filepath.Join(*verif, "contracts")
	evDir := filepath.Join(*verif, "evidence")
	repDir := filepath.Join(evDir, "replay")
	os.MkdirAll(repDir, 0o755)
	old, _ := filepath.Glob(filepath.Join(repDir, *prop+"-*.json"))
	for _, f := range old {
		os.Remove(f)
	}
	p, err := loadProgram(*repo, contracts, packagesFor(contracts, *prop))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var mine []*Contract
	for _, ct := range p.contracts {
		for _, q := range ct.Props {
			if q == *prop && strings.Contains(ct.ID, *only) {
				mine = append(mine, ct)
			}
		}
	}
	if len(mine) == 0 {
		fmt.Fprintln(os.Stderr, "no contracts for", *prop)
		return 2
	}
	tmp, err := os.MkdirTemp("", "verif")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	rn := &runner{p: p, dir: tmp, bins: map[string]string{}, errs: map[string]string{}}
	findings := map[string]finding{}
	for _, f := range loadFindings(filepath.Join(*verif, "known-findings.txt")) {
		if f.prop == *prop {
			findings[f.id] = f
		}
	}
	var vios []violation
	var vmu sync.Mutex
	knownHit := map[string]bool{}

	// native execution
	native := map[string]*nativeResult{}
	var nmu sync.Mutex
	var nativeErr []string
	consts := map[string]*nativeConsts{}
	byPkg := map[string][]string{}
	byID := map[string]*Contract{}
	for _, ct := range p.contracts {
		byID[ct.ID] = ct
	}
	runnable := 0
	for _, ct := range mine {
		if ct.NoRun || ct.Fn.TypeParams().Len() > 0 {
			continue
		}
		consts[ct.ID] = p.mineConsts(ct)
		byPkg[ct.PkgDir] = append(byPkg[ct.PkgDir], ct.ID)
		runnable++
	}
	budget, cases, minMS, maxMS := 150000, 4000000, 1000, 8000
	if *tier == "thorough" {
		budget, cases, minMS, maxMS = 1600000, 200000000, 4000, 300000
	}
	per := maxMS
	if runnable > 0 && budget/runnable < per {
		per = budget / runnable
	}
	if per < minMS {
		per = minMS
	}
	var nwg sync.WaitGroup
	nwg.Add(1)
	go func() {
		defer nwg.Done()
		sem := make(chan bool, 6)
		var wg sync.WaitGroup
		for pkg, ids := range byPkg {
			bin, err := rn.build(pkg)
			if err != nil {
				nmu.Lock()
				nativeErr = append(nativeErr, err.Error())
				nmu.Unlock()
				continue
			}
			n := 6
			if n > len(ids) {
				n = len(ids)
			}
			for k := 0; k < n; k++ {
				var part []string
				for i := k; i < len(ids); i += n {
					part = append(part, ids[i])
				}
				wg.Add(1)
				go func(bin string, part []string) {
					defer wg.Done()
					sem <- true
					defer func() { <-sem }()
					res, err := rn.run(bin, part, seed, cases, per, consts, nil)
					nmu.Lock()
					defer nmu.Unlock()
					for id, nr := range res {
						native[id] = nr
					}
					if err != nil {
						nativeErr = append(nativeErr, err.Error())
					}
				}(bin, part)
			}
		}
		wg.Wait()
	}()

	// proofs: the property's contracts and every contract they rest on
	proved := map[string]*Result{}
	lost := append([]string{}, p.lost...)
	if !*noproof {
		todo := []*Contract{}
		queued := map[string]bool{}
		push := func(ct *Contract) {
			if !ct.Trusted && !ct.Bounded && !queued[ct.ID] {
				queued[ct.ID] = true
				todo = append(todo, ct)
			}
		}
		for _, ct := range mine {
			push(ct)
		}
		for len(todo) > 0 {
			batch := todo
			todo = nil
			var wg sync.WaitGroup
			var mu sync.Mutex
			sem := make(chan bool, 4)
			for _, ct := range batch {
				wg.Add(1)
				go func(ct *Contract) {
					defer wg.Done()
					sem <- true
					defer func() { <-sem }()
					r := verifyContract(p, ct, *tier == "thorough")
					mu.Lock()
					proved[ct.ID] = r
					for _, u := range r.contracts {
						if c := byID[u]; c != nil {
							push(c)
						}
					}
					mu.Unlock()
				}(ct)
			}
			wg.Wait()
		}
	}
	nwg.Wait()
	// a failed proof gets a second attempt with more time on a quiet machine
	limit := 420.0
	if *tier == "thorough" {
		limit = 3000
	}
	for id, r := range proved {
		if (len(r.failed) > 0) && time.Since(start).Seconds() < limit {
			if nr := native[id]; nr != nil && nr.Failed {
				continue
			}
			freshCache()
			retryMode = true
			proved[id] = verifyContract(p, byID[id], *tier == "thorough")
			retryMode = false
		}
	}
	for _, e := range nativeErr {
		fmt.Fprintln(os.Stderr, e)
	}
	if len(nativeErr) > 0 {
		return 2
	}

	// verdicts
	nativeFailed := map[string]bool{}
	for id, nr := range native {
		if !nr.Failed {
			continue
		}
		ct := byID[id]
		// confirm on the single case in a fresh process
		bin, _ := rn.build(ct.PkgDir)
		conf, _ := rn.run(bin, []string{id}, seed, 1, 1000, consts, map[string]int{id: nr.Index})
		c := conf[id]
		if c == nil || !c.Failed {
			// the failure depends on what ran before it (state kept between calls)
			nr.Detail += "\n(in a run of the cases before it; alone the case passes)"
		} else if c.Args != "" {
			nr.Args, nr.Clause, nr.Detail = c.Args, c.Clause, c.Detail
		}
		if nr.Args == "" {
			nr.Args = rn.show(bin, id, seed, nr.Index, consts)
		}
		nativeFailed[id] = true
		if f, ok := findings[id]; ok && ct.Opts["known"] != "" {
			knownHit[id] = true
			_ = f
			continue
		}
		vios = append(vios, violation{id, nr.Clause, true, map[string]interface{}{
			"property": *prop, "contract": id, "target": ct.TargetNm, "kind": "failing-input", "clause": nr.Clause, "detail": nr.Detail,
			"input": nr.Args, "seed": seed, "case": nr.Index, "consts": consts[id],
			"replay_cmd": fmt.Sprintf("bash /verif/check.sh replay <this file>")}})
	}
	var ids []string
	for id := range proved {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		r := proved[id]
		ct := byID[id]
		rep := map[string]interface{}{"property": *prop, "contract": id, "target": ct.TargetNm, "input": "no-failing-input-found"}
		if nr := native[id]; nr != nil {
			rep["native"] = fmt.Sprintf("%d cases with true preconditions executed, none failed", nr.Cases)
		}
		switch {
		case r.err != "":
			rep["kind"] = "out-of-reach"
			rep["detail"] = r.err
			vmu.Lock()
			vios = append(vios, violation{id, "out-of-reach", nativeFailed[id], rep})
			vmu.Unlock()
		case len(r.failed) > 0:
			rep["kind"] = "failed-obligation"
			var fo []map[string]string
			for _, o := range r.failed {
				g := o.goal.String()
				if len(g) > 3000 {
					g = g[:3000] + "..."
				}
				fo = append(fo, map[string]string{"obligation": o.name, "at": o.pos, "solver": o.res.solver, "answer": o.res.res, "goal": g, "solver_output": cut(o.res.out, 2000)})
			}
			rep["failed"] = fo
			vios = append(vios, violation{id, r.failed[0].name, nativeFailed[id], rep})
		case r.vacuous:
			rep["kind"] = "vacuous"
			rep["detail"] = "no execution satisfies the contract's assumptions any more"
			vios = append(vios, violation{id, "vacuous", nativeFailed[id], rep})
		}
	}
	// contracts whose target disappeared
	for _, l := range lost {
		if strings.Contains(l, "["+*prop+"]") {
			vios = append(vios, violation{l, "target-missing", false, map[string]interface{}{"property": *prop, "kind": "target-missing", "contract": l, "input": "no-failing-input-found"}})
		}
	}
	// witnesses of known findings
	for _, f := range findings {
		if knownHit[f.id] {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", *prop, f.text, f.id)
		}
	}
	// one line per contract; a failing input subsumes the failed proof of the same contract
	sort.SliceStable(vios, func(i, j int) bool { return vios[i].input && !vios[j].input })
	printed := map[string]bool{}
	nv := 0
	for _, v := range vios {
		if printed[v.contract] {
			continue
		}
		printed[v.contract] = true
		nv++
		slug := regexp.MustCompile(`[^\w.-]+`).ReplaceAllString(v.contract, "_")
		f := filepath.Join(repDir, *prop+"-"+slug+".json")
		b, _ := json.MarshalIndent(v.replay, "", "  ")
		os.WriteFile(f, append(b, '\n'), 0o644)
		tail := ""
		if v.replay["kind"] != "failing-input" {
			tail = " no-failing-input-found"
		}
		fmt.Printf("# %s %s: %s\n", v.contract, v.replay["kind"], v.clause)
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", *prop, f, tail)
	}
	writeEvidence(filepath.Join(evDir, *prop+".json"), *prop, *tier, seed, mine, proved, native, byID, lost, nv, time.Since(start).Seconds())
	if nv > 0 {
		return 1
	}
	fmt.Printf("OK property=%s contracts=%d proved=%d native=%d wall=%.0fs\n", *prop, len(mine), len(proved), len(native), time.Since(start).Seconds())
	return 0
}

// show prints the arguments of one case.
func (r *runner) show(bin, id string, seed uint64, idx int, consts map[string]*nativeConsts) string {
	j := nativeJob{IDs: []string{id}, Seed: seed, Consts: consts, Start: map[string]int{"show:" + id: idx}, Out: filepath.Join(r.dir, "show.out")}
	jb, _ := json.Marshal(j)
	f := filepath.Join(r.dir, "show.json")
	os.WriteFile(f, jb, 0o644)
	cmd := exec.Command("timeout", "20", bin, "-test.run", "^TestVerifRun$")
	cmd.Dir = r.dir
	cmd.Env = append(goEnv(), "VERIF_JOB="+f)
	cmd.Run()
	b, _ := os.ReadFile(j.Out)
	var nr nativeResult
	json.Unmarshal(b, &nr)
	return nr.Args
}

// packagesFor lists the package directories with contracts of a property, plus the core.
func packagesFor(contracts, prop string) []string {
	dirs := map[string]bool{"./xmp": true}
	filepath.Walk(contracts, func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		b, _ := os.ReadFile(path)
		if regexp.MustCompile(`(?m)^//vf:property .*\b` + prop + `\b`).Match(b) {
			rel, _ := filepath.Rel(contracts, filepath.Dir(path))
			if rel != "verifdsl" {
				dirs["./"+rel] = true
				// the packages this one's contracts build on
				for _, m := range regexp.MustCompile(`(?m)^//vf:needs (\S+)`).FindAllStringSubmatch(string(b), -1) {
					dirs["./"+m[1]] = true
				}
			}
		}
		return nil
	})
	var out []string
	for d := range dirs {
		out = append(out, d)
	}
	sort.Strings(out)
	return out
}

type propConf struct {
	Level     string   `json:"level"`
	Note      string   `json:"level_note"`
	Technique string   `json:"technique"`
	Assume    []string `json:"assumptions"`
}

func writeEvidence(path, prop, tier string, seed uint64, mine []*Contract, proved map[string]*Result, native map[string]*nativeResult, byID map[string]*Contract, lost []string, nv int, wall float64) {
	type fnEv struct {
		Contract    string         `json:"contract"`
		Target      string         `json:"function"`
		Status      string         `json:"status"`
		Obligations int            `json:"obligations"`
		Discharged  int            `json:"discharged"`
		Invariants  int            `json:"loop_invariants"`
		Backends    map[string]int `json:"backends,omitempty"`
		SolverS     float64        `json:"solver_s"`
		Inlined     []string       `json:"inlined,omitempty"`
		Uses        []string       `json:"contracts_used,omitempty"`
		Models      []string       `json:"library_models,omitempty"`
	}
	type nEv struct {
		Contract string  `json:"contract"`
		Target   string  `json:"function"`
		Role     string  `json:"role"`
		Cases    int     `json:"cases_with_true_preconditions"`
		Tried    int     `json:"cases_tried"`
		Distinct int     `json:"distinct"`
		Seconds  float64 `json:"seconds"`
		Reason   string  `json:"reason,omitempty"`
	}
	var fe []fnEv
	var ne []nEv
	obl, dis := 0, 0
	back := map[string]int{}
	trusted := map[string]bool{}
	solverS := 0.0
	var ids []string
	for id := range proved {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		r := proved[id]
		st := "proved"
		if r.err != "" {
			st = "out of reach: " + strings.SplitN(r.err, "\n", 2)[0]
		} else if len(r.failed) > 0 {
			st = "failed"
		} else if r.vacuous {
			st = "vacuous"
		}
		fe = append(fe, fnEv{id, r.ct.TargetNm, st, len(r.obls), len(r.obls) - len(r.failed), r.invs, r.solver, r.solveS(), r.inlined, r.contracts, r.models})
		obl += len(r.obls)
		dis += len(r.obls) - len(r.failed)
		solverS += r.solveS()
		for k, n := range r.solver {
			back[k] += n
		}
		for _, u := range r.contracts {
			if c := byID[u]; c != nil && c.Trusted {
				trusted["assumed contract "+u+" on "+c.TargetNm+": "+c.Reason] = true
			}
		}
		for _, m := range r.models {
			trusted["library model "+m] = true
		}
		if r.ct.WrapInt {
			trusted["machine integers wrap in "+id+" (modelled)"] = true
		}
	}
	ev, dn := 0, 0
	var samples []interface{}
	var bounded []string
	for _, ct := range mine {
		nr := native[ct.ID]
		if nr == nil {
			continue
		}
		role := "proved contract, executed on concrete inputs to find counterexamples"
		if ct.Bounded {
			role = "bounded stand-in (not counted as proved)"
			bounded = append(bounded, ct.ID)
		} else if ct.Trusted {
			role = "assumed contract, tested"
		}
		ne = append(ne, nEv{ct.ID, ct.TargetNm, role, nr.Cases, nr.Tried, nr.Distinct, nr.Seconds, ct.Reason})
		ev += nr.Cases
		dn += nr.Distinct
		if len(samples) < 12 {
			for _, s := range nr.Samples {
				samples = append(samples, map[string]string{"contract": ct.ID, "input": s})
			}
		}
	}
	tb := keysOf(trusted)
	tb = append(tb, "gover: the verification condition generator of /verif/gover over golang.org/x/tools/go/ssa of the current source",
		"SMT solvers z3 5.3.2, z3 4.8.12, cvc5 1.1.2",
		"Go semantics: slices passed in start at offset 0 of their backing array; mathematical integers except where //vf:wrap; termination is not proved (hangs are looked for by execution)")
	conf := map[string]propConf{}
	if b, err := os.ReadFile(filepath.Join(filepath.Dir(filepath.Dir(path)), "props.json")); err == nil {
		json.Unmarshal(b, &conf)
	}
	level := conf[prop].Level
	if level == "" {
		level = "proof"
	}
	cov := map[string]interface{}{
		"evaluations": ev, "distinct_nontrivial": dn,
		"rule":              "each contract is run on generated inputs (constants mined from the code, small collections, boundary numbers); a case counts when all preconditions hold; distinct by printed arguments",
		"samples":           samples,
		"native_execution":  ne,
		"bounded_stand_ins": bounded,
		"contracts_lost":    lost,
		"functions":         fe,
		"functions_proved":  countProved(proved),
		"backends":          back,
		"solver_s":          solverS,
	}
	if len(proved) > 0 {
		cov["obligations"] = obl
		cov["discharged"] = dis
		cov["checker_cmd"] = "bash /verif/check.sh " + prop
		cov["trusted_base"] = tb
	}
	out := map[string]interface{}{"property": prop, "tier": tier, "seed": int64(seed), "level": level, "coverage": cov, "assumptions": append(tb, conf[prop].Assume...), "wall_s": wall, "violations": nv}
	b, _ := json.MarshalIndent(out, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func countProved(m map[string]*Result) int {
	n := 0
	for _, r := range m {
		if r.err == "" && len(r.failed) == 0 && !r.vacuous {
			n++
		}
	}
	return n
}

func (r *Result) solveS() float64 {
	t := 0.0
	for _, o := range r.obls {
		t += o.res.secs
	}
	return t
}

// replayMain re-executes the failing input of a replay file.
func replayMain(args []string) int {
	if len(args) < 1 {
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rep struct {
		Property, Contract, Kind string
		Seed                     uint64
		Case                     int
		Consts                   *nativeConsts
	}
	json.Unmarshal(b, &rep)
	if rep.Kind != "failing-input" {
		fmt.Println("no failing input in this file; run: bash /verif/check.sh", rep.Property)
		return 2
	}
	contracts := "/verif/contracts"
	p, err := loadProgram("/repo", contracts, packagesFor(contracts, rep.Property))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tmp, _ := os.MkdirTemp("", "verif")
	defer os.RemoveAll(tmp)
	rn := &runner{p: p, dir: tmp, bins: map[string]string{}, errs: map[string]string{}}
	for _, ct := range p.contracts {
		if ct.ID != rep.Contract {
			continue
		}
		bin, err := rn.build(ct.PkgDir)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		cs := map[string]*nativeConsts{ct.ID: rep.Consts}
		res, err := rn.run(bin, []string{ct.ID}, rep.Seed, 1, 1000, cs, map[string]int{ct.ID: rep.Case})
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		r := res[ct.ID]
		if r != nil && r.Failed {
			fmt.Printf("FAILS %s on %s\n  %s\n  %s\n", r.Clause, ct.TargetNm, r.Args, r.Detail)
			return 1
		}
		fmt.Println("passes")
		return 0
	}
	fmt.Println("contract not found")
	return 2
}

var _ = types.Universe
