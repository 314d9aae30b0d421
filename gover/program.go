package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Contract is one machine-checked specification.
type Contract struct {
	ID       string
	Name     string // name of the specification function
	Pkg      string // package path
	PkgDir   string // relative directory
	Fn       *ssa.Function
	Obj      *types.Func
	Target   *ssa.Function
	TargetNm string
	Props    []string
	Trusted  bool
	Bounded  bool
	Lemma    bool
	Also     bool // never used at call sites
	WrapInt  bool
	NoRun    bool // not executed natively
	Reason   string
	Inline   map[string]bool
	Cases    int
	Opts     map[string]string
}

type guardSpec struct {
	typ, field, lock string
}

type Program struct {
	repo      string
	fset      *token.FileSet
	prog      *ssa.Program
	pkgs      []*packages.Package
	ssaPkgs   []*ssa.Package
	contracts []*Contract
	byTarget  map[*ssa.Function]*Contract
	byIface   map[string]*Contract
	globalID  map[*ssa.Global]int
	globInit  map[*ssa.Global]ssa.Value
	globMut   map[*ssa.Global]bool
	loopCache map[*ssa.Function]map[*ssa.BasicBlock]*loopDesc
	guards    []guardSpec
	overlay   map[string][]byte
	overlayF  map[string]string // target path -> source path
	defines   map[*ssa.Function]bool
	uninterp  map[*ssa.Function]bool
	lost      []string // contracts that no longer apply, with reason
	pdomCache map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock
	skipCache map[*ssa.Function]map[ssa.Instruction]bool
	mu        sync.Mutex
}

type loopDesc struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	phis   []*ssa.Phi
}

// overlayFiles maps the specification files into the packages they describe.
func overlayFiles(repo, contracts string) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.Walk(contracts, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(contracts, p)
		dir, base := filepath.Split(rel)
		if strings.HasPrefix(dir, "verifdsl") {
			out[filepath.Join(repo, rel)] = p
		} else {
			out[filepath.Join(repo, dir, "zz_verif_"+base)] = p
		}
		return nil
	})
	return out, err
}

func goEnv() []string {
	env := os.Environ()
	set := map[string]string{"PATH": "/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin", "GOTOOLCHAIN": "local", "GOPROXY": "off",
		"GOFLAGS": "-mod=mod", "GOWORK": "off", "GOSUMDB": "off", "CGO_ENABLED": "0"}
	var out []string
	for _, e := range env {
		k := e[:strings.IndexByte(e, '=')]
		if _, ok := set[k]; !ok {
			out = append(out, e)
		}
	}
	for k, v := range set {
		out = append(out, k+"="+v)
	}
	return out
}

func loadProgram(repo, contracts string, patterns []string) (*Program, error) {
	ov, err := overlayFiles(repo, contracts)
	if err != nil {
		return nil, err
	}
	p := &Program{repo: repo, fset: token.NewFileSet(), byTarget: map[*ssa.Function]*Contract{}, byIface: map[string]*Contract{},
		globalID: map[*ssa.Global]int{}, globInit: map[*ssa.Global]ssa.Value{}, globMut: map[*ssa.Global]bool{},
		loopCache: map[*ssa.Function]map[*ssa.BasicBlock]*loopDesc{}, skipCache: map[*ssa.Function]map[ssa.Instruction]bool{}, overlay: map[string][]byte{}, overlayF: ov,
		defines: map[*ssa.Function]bool{}, uninterp: map[*ssa.Function]bool{}, pdomCache: map[*ssa.Function]map[*ssa.BasicBlock]*ssa.BasicBlock{}}
	for k, v := range ov {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		p.overlay[k] = b
	}
	for round := 0; ; round++ {
		p.fset = token.NewFileSet()
		cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: repo, Fset: p.fset, Overlay: p.overlay, Env: goEnv()}
		p.pkgs, err = packages.Load(cfg, patterns...)
		if err != nil {
			return nil, err
		}
		bad := ""
		cut := false
		packages.Visit(p.pkgs, nil, func(pk *packages.Package) {
			for _, e := range pk.Errors {
				bad += e.Error() + "\n"
				if p.cutDecl(e) {
					cut = true
				}
			}
		})
		if bad == "" {
			break
		}
		if !cut || round > 20 {
			return nil, fmt.Errorf("load: %s", bad)
		}
	}
	p.prog, p.ssaPkgs = ssautil.Packages(p.pkgs, ssa.InstantiateGenerics)
	p.prog.Build()
	n := 0
	for _, sp := range p.ssaPkgs {
		if sp == nil {
			continue
		}
		var names []string
		for nm := range sp.Members {
			names = append(names, nm)
		}
		sort.Strings(names)
		for _, nm := range names {
			if g, ok := sp.Members[nm].(*ssa.Global); ok {
				n++
				p.globalID[g] = n
			}
		}
	}
	p.scanGlobals()
	for i, pk := range p.pkgs {
		if err := p.scanContracts(pk, p.ssaPkgs[i]); err != nil {
			return nil, err
		}
	}
	return p, nil
}

func (p *Program) lose(id string, props []string, why string) {
	s := id + " "
	for _, q := range props {
		s += "[" + q + "]"
	}
	p.lost = append(p.lost, s+" "+why)
}

var rePos = regexp.MustCompile(`^(.*?):(\d+)`)

// cutDecl removes the declaration of a specification file that does not compile
// (the code it refers to is gone) and records the loss.
func (p *Program) cutDecl(e packages.Error) bool {
	m := rePos.FindStringSubmatch(e.Pos)
	if m == nil {
		return false
	}
	src, ok := p.overlay[m[1]]
	if !ok || strings.Contains(m[1], "/verifdsl/") {
		return false
	}
	line, _ := strconv.Atoi(m[2])
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, m[1], src, parser.ParseComments)
	if err != nil {
		return false
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fs.Position(d.Pos()).Line > line || fs.Position(d.End()).Line < line {
			continue
		}
		lo, hi := fs.Position(d.Pos()).Offset, fs.Position(d.End()).Offset
		var props []string
		is := false
		if fd.Doc != nil {
			lo = fs.Position(fd.Doc.Pos()).Offset
			for _, c := range fd.Doc.List {
				if strings.HasPrefix(c.Text, "//vf:property ") {
					props = append(props, strings.Fields(c.Text)[1:]...)
				}
				if strings.HasPrefix(c.Text, "//vf:") {
					is = true
				}
			}
		}
		n := append([]byte{}, src...)
		for i := lo; i < hi; i++ {
			if n[i] != '\n' {
				n[i] = ' '
			}
		}
		// keep the import used
		if !strings.Contains(string(n), "vf.Symbolic()") {
			n = append(n, []byte("\nfunc spec_keep_"+strings.TrimSuffix(strings.TrimPrefix(filepath.Base(m[1]), "zz_verif_"), ".go")+"() bool { return vf.Symbolic() }\n")...)
		}
		p.overlay[m[1]] = n
		if is {
			rel, _ := filepath.Rel(p.repo, filepath.Dir(m[1]))
			p.lose(rel+"."+fd.Name.Name, props, e.Msg)
		}
		return true
	}
	return false
}

// scanGlobals finds the initial values and mutations of package variables.
func (p *Program) scanGlobals() {
	for fn := range ssautil.AllFunctions(p.prog) {
		if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), repoModule) {
			continue
		}
		isInit := fn.Synthetic == "package initializer"
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				s, isStore := in.(*ssa.Store)
				if isStore {
					if g, ok := s.Addr.(*ssa.Global); ok && isInit {
						if _, dup := p.globInit[g]; dup {
							p.globMut[g] = true
						}
						p.globInit[g] = s.Val
						continue
					}
				}
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					if isStore && s.Addr == ssa.Value(g) || !isStore {
						p.globMut[g] = true
					}
				}
			}
		}
	}
}

func (p *Program) lookupFunc(sp *ssa.Package, name string) *ssa.Function {
	if i := strings.LastIndex(name, ":"); i >= 0 { // other/package:Func
		pp := name[:i]
		name = name[i+1:]
		sp = nil
		for _, q := range p.prog.AllPackages() {
			if q.Pkg.Path() == pp || strings.TrimPrefix(q.Pkg.Path(), repoModule+"/") == pp {
				sp = q
			}
		}
		if sp == nil {
			return nil
		}
	}
	ptr := false
	recv := ""
	meth := name
	if strings.HasPrefix(name, "(*") {
		ptr = true
		i := strings.Index(name, ")")
		recv, meth = name[2:i], name[i+2:]
	} else if i := strings.Index(name, "."); i >= 0 {
		recv, meth = name[:i], name[i+1:]
		recv = strings.Trim(recv, "()")
	}
	if recv == "" {
		return sp.Func(meth)
	}
	t := sp.Type(recv)
	if t == nil {
		return nil
	}
	var ty types.Type = t.Type()
	if ptr {
		ty = types.NewPointer(ty)
	}
	return p.prog.LookupMethod(ty, sp.Pkg, meth)
}

func (p *Program) scanContracts(pk *packages.Package, sp *ssa.Package) error {
	for _, f := range pk.Syntax {
		fname := p.fset.Position(f.Pos()).Filename
		if !strings.HasPrefix(filepath.Base(fname), "zz_verif_") {
			continue
		}
		for _, cg := range f.Comments {
			for _, cm := range cg.List {
				if strings.HasPrefix(cm.Text, "//vf:guard ") {
					w := strings.Fields(cm.Text)
					// //vf:guard Type.field lockfield | variable lockvariable | variable atomic | maptype lockvariable
					d := append(strings.Split(w[1], "."), "")
					p.guards = append(p.guards, guardSpec{pk.PkgPath + "." + d[0], d[1], w[2]})
				}
			}
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil || fd.Recv != nil {
				continue
			}
			ct := &Contract{Name: fd.Name.Name, Pkg: pk.PkgPath, Inline: map[string]bool{}, Opts: map[string]string{}}
			is := false
			for _, cm := range fd.Doc.List {
				if !strings.HasPrefix(cm.Text, "//vf:") {
					continue
				}
				w := strings.Fields(cm.Text[5:])
				switch w[0] {
				case "verify", "trusted", "bounded", "iface":
					is = true
					ct.TargetNm = strings.Join(w[1:], " ")
					ct.Trusted = w[0] == "trusted" || w[0] == "iface"
					ct.Bounded = w[0] == "bounded"
					if w[0] == "iface" {
						ct.Opts["iface"] = w[1]
					}
				case "lemma":
					is = true
					ct.Lemma = true
				case "boundedlemma":
					is = true
					ct.Lemma, ct.Bounded = true, true
				case "also":
					ct.Also = true
				case "wrap":
					ct.WrapInt = true
				case "norun":
					ct.NoRun = true
				case "reason":
					ct.Reason = strings.Join(w[1:], " ")
				case "property":
					ct.Props = append(ct.Props, w[1:]...)
				case "inline":
					for _, s := range w[1:] {
						ct.Inline[s] = true
					}
				case "opt":
					for _, s := range w[1:] {
						kv := strings.SplitN(s, "=", 2)
						if len(kv) == 1 {
							kv = append(kv, "1")
						}
						ct.Opts[kv[0]] = kv[1]
					}
				case "uninterpreted":
					p.uninterp[sp.Func(fd.Name.Name)] = true
				default:
					return fmt.Errorf("%s: unknown directive %s", fname, cm.Text)
				}
			}
			if !is {
				continue
			}
			ct.Fn = sp.Func(fd.Name.Name)
			ct.Obj = pk.TypesInfo.Defs[fd.Name].(*types.Func)
			short := strings.TrimPrefix(pk.PkgPath, repoModule+"/")
			ct.PkgDir = short
			ct.ID = short + "." + fd.Name.Name
			if ct.Opts["iface"] != "" {
				n := ct.Opts["iface"]
				if strings.Count(n, ".") < 2 {
					n = pk.PkgPath + "." + n
				}
				p.byIface[n] = ct
			} else if !ct.Lemma {
				ct.Target = p.lookupFunc(sp, ct.TargetNm)
				if ct.Target == nil {
					p.lose(ct.ID, ct.Props, "target "+ct.TargetNm+" not found")
					continue
				}
				if !ct.Also && !ct.Bounded {
					if o := p.byTarget[ct.Target]; o != nil {
						return fmt.Errorf("two contracts for %s: %s and %s", ct.TargetNm, o.ID, ct.ID)
					}
					p.byTarget[ct.Target] = ct
				}
			}
			p.contracts = append(p.contracts, ct)
		}
	}
	return nil
}

func (p *Program) contractFor(fn *ssa.Function) *Contract { return p.byTarget[fn] }

// loopsOf returns the natural loops of a function keyed by header.
func (p *Program) loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]*loopDesc {
	p.mu.Lock()
	defer p.mu.Unlock()
	if l, ok := p.loopCache[fn]; ok {
		return l
	}
	out := map[*ssa.BasicBlock]*loopDesc{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			ld := out[s]
			if ld == nil {
				ld = &loopDesc{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
				for _, in := range s.Instrs {
					if ph, ok := in.(*ssa.Phi); ok {
						ld.phis = append(ld.phis, ph)
					}
				}
				out[s] = ld
			}
			stack := []*ssa.BasicBlock{b}
			for len(stack) > 0 {
				n := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if ld.body[n] {
					continue
				}
				ld.body[n] = true
				stack = append(stack, n.Preds...)
			}
		}
	}
	p.loopCache[fn] = out
	return out
}

// ipdoms computes immediate postdominators (nil: the virtual exit).
func (p *Program) ipdoms(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	p.mu.Lock()
	defer p.mu.Unlock()
	if m, ok := p.pdomCache[fn]; ok {
		return m
	}
	n := len(fn.Blocks)
	// postdominator sets by iteration; functions here are small
	full := make([]map[int]bool, n)
	for i := range full {
		full[i] = map[int]bool{}
		if len(fn.Blocks[i].Succs) == 0 {
			full[i][i] = true
			continue
		}
		for j := 0; j < n; j++ {
			full[i][j] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if len(b.Succs) == 0 {
				continue
			}
			ns := map[int]bool{i: true}
			for j := range full[b.Succs[0].Index] {
				in := true
				for _, s := range b.Succs[1:] {
					if !full[s.Index][j] {
						in = false
					}
				}
				if in {
					ns[j] = true
				}
			}
			if len(ns) != len(full[i]) {
				full[i] = ns
				ch = true
			}
		}
	}
	m := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i, b := range fn.Blocks {
		best := -1
		for j := range full[i] {
			if j == i {
				continue
			}
			// the immediate one is postdominated by all other strict postdominators
			if best < 0 || len(full[j]) > len(full[best]) {
				best = j
			}
		}
		if best >= 0 {
			m[b] = fn.Blocks[best]
		}
	}
	p.pdomCache[fn] = m
	return m
}

// dslSkip lists the instructions that only box arguments of contract primitives.
func (p *Program) dslSkip(fn *ssa.Function) map[ssa.Instruction]bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	if m, ok := p.skipCache[fn]; ok {
		return m
	}
	m := map[ssa.Instruction]bool{}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			cl, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			f := cl.Call.StaticCallee()
			if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != dslPkg {
				continue
			}
			for _, a := range cl.Call.Args {
				switch v := a.(type) {
				case *ssa.MakeInterface:
					if len(*v.Referrers()) == 1 {
						m[v] = true
					}
				case *ssa.Slice:
					al, ok := v.X.(*ssa.Alloc)
					if !ok || f.Name() != "Modifies" {
						continue
					}
					m[v], m[al] = true, true
					for _, r := range *al.Referrers() {
						ia, ok := r.(*ssa.IndexAddr)
						if !ok {
							continue
						}
						m[ia] = true
						for _, rr := range *ia.Referrers() {
							if s, ok := rr.(*ssa.Store); ok {
								m[s] = true
								if mi, ok := s.Val.(*ssa.MakeInterface); ok {
									m[mi] = true
								}
							}
						}
					}
				}
			}
		}
	}
	p.skipCache[fn] = m
	return m
}
