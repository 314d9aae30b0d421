//go:build go1.21

package xmp

import (
	vf "github.com/trimmer-io/go-xmp/verifdsl"
)

// ---- ghost record of reads and writes
//
// What a path holds is only known up to the number of writes so far: the
// uninterpreted functions below name what a read of it gives, and the write
// functions log their arguments. They exist for the verifier only.

var (
	spec_epoch   int // writes tried so far
	spec_mReads  int // reads through a model, and the last one's model
	spec_mReadOf Model
	spec_nReads  int // reads through a raw node
	spec_nReadOf *Node
	spec_mTried  int // writes through a model
	spec_mModel  Model
	spec_mPath   Path
	spec_mValue  string
	spec_mFlags  SyncFlags
	spec_nTried  int // writes through a raw node
	spec_nNode   *Node
	spec_nPath   Path
	spec_nValue  string
	spec_nFlags  SyncFlags
)

// 0: read works, 1: no such path, 2: other failures
//
//vf:uninterpreted
func spec_mReadState(m Model, p Path, epoch int) int { return 0 }

//vf:uninterpreted
func spec_mRead(m Model, p Path, epoch int) string { return "" }

//vf:uninterpreted
func spec_nReadState(n *Node, p Path, epoch int) int { return 0 }

//vf:uninterpreted
func spec_nRead(n *Node, p Path, epoch int) string { return "" }

//vf:uninterpreted
func spec_mWriteState(m Model, p Path, v string, f SyncFlags, epoch int) int { return 0 }

//vf:uninterpreted
func spec_nWriteState(n *Node, p Path, v string, f SyncFlags, epoch int) int { return 0 }

func spec_stateIs(st int, err error) bool {
	return st >= 0 && st <= 2 && (st == 0) == (err == nil) && (st == 1) == (err == errNotFound)
}

//vf:trusted GetModelPath
//vf:norun
//vf:reason reads through reflection; taken to change nothing and to depend on model, path and the writes so far
func assume_GetModelPath(v Model, path Path) {
	vf.Requires(v != nil)
	r := spec_mReads
	vf.Modifies(&spec_mReads, &spec_mReadOf)
	s, err := GetModelPath(v, path)
	vf.Ensures("logged", spec_mReads == r+1 && spec_mReadOf == v)
	vf.Ensures("value", s == spec_mRead(v, path, spec_epoch))
	vf.Ensures("state", spec_stateIs(spec_mReadState(v, path, spec_epoch), err))
}

//vf:trusted SetModelPath
//vf:norun
//vf:reason writes through reflection; taken to change model values and nodes only
func assume_SetModelPath(v Model, path Path, value string, flags SyncFlags) {
	vf.Requires(v != nil)
	e, n := spec_epoch, spec_mTried
	vf.Modifies(&spec_epoch, &spec_mTried, &spec_mModel, &spec_mPath, &spec_mValue, &spec_mFlags)
	vf.ModifiesType((*Node)(nil))
	err := SetModelPath(v, path, value, flags)
	vf.Ensures("logged", spec_epoch == e+1 && spec_mTried == n+1 && spec_mModel == v && spec_mPath == path && spec_mValue == value && spec_mFlags == flags)
	vf.Ensures("state", spec_stateIs(spec_mWriteState(v, path, value, flags, e), err))
}

//vf:trusted (*Node).GetPath
//vf:norun
//vf:reason taken to change nothing and to depend on node, path and the writes so far
func assume_Node_GetPath(n *Node, path Path) {
	vf.Requires(n != nil)
	r := spec_nReads
	vf.Modifies(&spec_nReads, &spec_nReadOf)
	s, err := n.GetPath(path)
	vf.Ensures("logged", spec_nReads == r+1 && spec_nReadOf == n)
	vf.Ensures("value", s == spec_nRead(n, path, spec_epoch))
	vf.Ensures("state", spec_stateIs(spec_nReadState(n, path, spec_epoch), err))
}

//vf:trusted (*Node).SetPath
//vf:norun
//vf:reason taken to change nodes only
func assume_Node_SetPath(n *Node, path Path, value string, flags SyncFlags) {
	vf.Requires(n != nil)
	e, k := spec_epoch, spec_nTried
	vf.Modifies(&spec_epoch, &spec_nTried, &spec_nNode, &spec_nPath, &spec_nValue, &spec_nFlags)
	vf.ModifiesType((*Node)(nil))
	err := n.SetPath(path, value, flags)
	vf.Ensures("logged", spec_epoch == e+1 && spec_nTried == k+1 && spec_nNode == n && spec_nPath == path && spec_nValue == value && spec_nFlags == flags)
	vf.Ensures("state", spec_stateIs(spec_nWriteState(n, path, value, flags, e), err))
}

// ---- namespaces of paths

//vf:verify Path.MatchNamespace
//vf:property P07
func spec_Path_MatchNamespace(x Path, ns *Namespace) {
	r := x.MatchNamespace(ns)
	vf.Ensures("same-prefix", r == (ns != nil && x.IsXmpPath() && spec_pathNs(x) == ns.Name))
}

func args_spec_Path_Namespace(g *vf.Gen) (Path, *Document) {
	p := gen_Path(g)
	if g.Chance(70) {
		p = Path(g.Pick("a", "b", "c", "dc", "xmp", "ext", "sound", "other") + ":x")
	}
	return p, gen_Document(g)
}

//vf:verify Path.Namespace
//vf:property P07
func spec_Path_Namespace(x Path, d *Document) {
	vf.Requires(d != nil && spec_docWF(d) && spec_regNames())
	vf.Modifies(&NsRegistry.m)
	ns, err := x.Namespace(d)
	vf.Ensures("unlocked", vf.Unlocked(&NsRegistry.m))
	vf.Ensures("error-iff-unknown", (err == nil) == (ns != nil))
	vf.Ensures("no-colon-no-namespace", x.IsXmpPath() || ns == nil)
	vf.Ensures("of-the-prefix", ns == nil || ns.Name == spec_pathNs(x))
	vf.Ensures("by-prefix", !x.IsXmpPath() || spec_meant(d, spec_pathNs(x), ns))
}

// ---- sync

func spec_effective(f SyncFlags) SyncFlags {
	if f == 0 {
		return spec_bCreate | spec_bReplace | spec_bDelete | spec_bUnique
	}
	return f
}

func spec_bit(f SyncFlags, b SyncFlags) bool { return f&b != 0 }

// model k is the first one that handles the prefix
func spec_firstHandler(models []Model, k int, prefix string) bool {
	return models[k] != nil && models[k].Can(prefix) && vf.Forall(0, k, func(i int) bool { return models[i] == nil || !models[i].Can(prefix) })
}

// the prefix means some namespace
func spec_knownPrefix(d *Document, pre string) bool { return !spec_meant(d, pre, nil) }

// flags and values allow writing sv where dv is
func spec_allows(fl SyncFlags, sv, dv string) bool {
	return sv != dv && (sv != "" || spec_bit(fl, spec_bDelete)) && (dv != "" || spec_bit(fl, spec_bCreate)) &&
		(dv == "" || spec_bit(fl, spec_bReplace|spec_bDelete|spec_bAppend|spec_bUnique))
}

// from src the write of dst is allowed
func spec_syncAllowed(src, dst Model, sPath, dPath Path, fl SyncFlags, e int) bool {
	return spec_mReadState(src, sPath, e) == 0 && spec_mReadState(dst, dPath, e) == 0 &&
		spec_allows(fl, spec_mRead(src, sPath, e), spec_mRead(dst, dPath, e))
}

//vf:verify (*Document).Sync
//vf:property P07
//vf:norun
func spec_Document_Sync(d *Document, sPath, dPath Path, flags SyncFlags, v Model, f ConverterFunc) {
	vf.Requires(d != nil && spec_docWF(d) && spec_regNames() && errNotFound != nil)
	if v != nil {
		l := v.Namespaces()
		vf.Requires(len(l) > 0)
	}
	fl := spec_effective(flags)
	was, e, mt, nt := d.dirty, spec_epoch, spec_mTried, spec_nTried
	n0 := len(d.nodes)
	models := vf.Collect(n0, func(i int) Model { return d.nodes[i].Model })
	sPre, dPre := spec_pathNs(sPath), spec_pathNs(dPath)
	usable := sPath.IsXmpPath() && dPath.IsXmpPath() && spec_knownPrefix(d, sPre) && spec_knownPrefix(d, dPre)
	matches := false
	if v != nil {
		matches = v.Namespaces()[0].Name == dPre
	}
	vf.Modifies(&spec_epoch, &spec_mTried, &spec_mModel, &spec_mPath, &spec_mValue, &spec_mFlags, &spec_mReads, &spec_mReadOf)
	vf.Modifies(&d.nodes, &d.dirty, d.nodes, d.intNsMap, &npHits, &npAllocs, &NsRegistry.m)
	vf.ModifiesType((*Node)(nil))
	err := d.Sync(sPath, dPath, flags, v, f)
	wrote := spec_mTried == mt+1
	m := spec_mModel
	vf.Ensures("one-write-at-most", spec_nTried == nt && (spec_mTried == mt && spec_epoch == e || wrote && spec_epoch == e+1))
	vf.Ensures("no-write-keeps-all-nodes", wrote || len(d.nodes) != n0 || vf.ObjsUnchangedOr(func(x *Node) bool { return x.Model != nil }))
	vf.Ensures("to-the-destination", !wrote || spec_mPath == dPath && spec_mFlags == fl)
	vf.Ensures("to-the-given-model", !wrote || v == nil || m == v)
	vf.Ensures("to-the-handling-model", !wrote || v != nil || vf.Forall(0, n0, func(j int) bool { return !spec_firstHandler(models, j, dPre) || m == models[j] }))
	vf.Ensures("destination-reads", !wrote || spec_mReadState(m, dPath, e) == 0)
	dv := spec_mRead(m, dPath, e)
	vf.Ensures("create", !wrote || dv != "" || spec_bit(fl, spec_bCreate))
	vf.Ensures("update", !wrote || dv == "" || spec_bit(fl, spec_bReplace|spec_bDelete|spec_bAppend|spec_bUnique))
	vf.Ensures("from-the-source", !wrote || vf.Exists(0, n0, func(i int) bool {
		s := models[i]
		if !spec_firstHandler(models, i, sPre) || spec_mReadState(s, sPath, e) != 0 {
			return false
		}
		sv := spec_mRead(s, sPath, e)
		out := sv
		if f != nil {
			out = f(sv)
		}
		return spec_mValue == out && sv != dv && (sv != "" || spec_bit(fl, spec_bDelete))
	}))
	vf.Ensures("allowed-is-written-to-given-model", wrote || !usable || !matches || vf.Forall(0, n0, func(i int) bool {
		return !spec_firstHandler(models, i, sPre) || !spec_syncAllowed(models[i], v, sPath, dPath, fl, e)
	}))
	vf.Ensures("allowed-is-written-to-present-model", wrote || !usable || v != nil || vf.Forall(0, n0, func(i int) bool {
		return !spec_firstHandler(models, i, sPre) || vf.Forall(0, n0, func(j int) bool {
			return !spec_firstHandler(models, j, dPre) || !spec_syncAllowed(models[i], models[j], sPath, dPath, fl, e)
		})
	}))
	vf.Ensures("nofail", !spec_bit(fl, spec_bNofail) || err == nil)
	failed := wrote && spec_mWriteState(m, dPath, spec_mValue, fl, e) != 0
	vf.Ensures("write-error-reported", !failed || spec_bit(fl, spec_bNofail) || err != nil)
	vf.Ensures("error-means-no-write", err == nil || !wrote || failed)
	vf.Ensures("dirty-after-write", !wrote || failed || d.dirty)
	vf.Ensures("dirty-only-by-write-or-new-model", wrote && !failed || d.dirty == was || v == nil && spec_bit(fl, spec_bCreate))
	vf.Ensures("dirty-stays", !was || d.dirty)
	vf.Ensures("well-formed", spec_docWF(d) && vf.Unlocked(&NsRegistry.m))
}

// the document's own maps are not the registry's
func spec_docApart(d *Document) bool {
	return !vf.SameMap(d.intNsMap, NsRegistry.nsNameMap) && !vf.SameMap(d.intNsMap, NsRegistry.nsUriMap) &&
		!vf.SameMap(d.extNsMap, NsRegistry.nsNameMap) && !vf.SameMap(d.extNsMap, NsRegistry.nsUriMap)
}

//vf:verify (*Document).SyncMulti
//vf:property P07
//vf:norun
func spec_Document_SyncMulti(d *Document, desc SyncDescList, m Model) {
	vf.Requires(d != nil && spec_docWF(d) && spec_regNames() && errNotFound != nil && spec_docApart(d))
	vf.Requires(vf.Forall(0, len(desc), func(i int) bool { return desc[i] != nil }))
	if m != nil {
		l := m.Namespaces()
		vf.Requires(len(l) > 0)
	}
	was, e, mt, nt := d.dirty, spec_epoch, spec_mTried, spec_nTried
	vf.Modifies(&spec_epoch, &spec_mTried, &spec_mModel, &spec_mPath, &spec_mValue, &spec_mFlags, &spec_mReads, &spec_mReadOf)
	vf.ModifiesElems(NodeList(nil))
	vf.Modifies(&d.nodes, &d.dirty, d.intNsMap, &npHits, &npAllocs, &NsRegistry.m)
	vf.ModifiesType((*Node)(nil))
	vf.LoopInv(func() bool { return spec_docWF(d) })
	vf.LoopInv(func() bool { return spec_docApart(d) })
	vf.LoopInv(func() bool { return spec_regNames() })
	vf.LoopInv(func(k int) bool { return spec_mTried >= mt && spec_mTried <= mt+k && spec_epoch-e == spec_mTried-mt })
	vf.LoopInv(func() bool { return spec_nTried == nt && (!was || d.dirty) })
	err := d.SyncMulti(desc, m)
	vf.Ensures("one-write-per-entry-at-most", spec_nTried == nt && spec_mTried >= mt && spec_mTried <= mt+len(desc))
	vf.Ensures("error-only-from-a-failing-entry", err == nil || vf.Exists(0, len(desc), func(i int) bool { return !spec_bit(spec_effective(desc[i].Flags), spec_bNofail) }))
	vf.Ensures("dirty-stays", !was || d.dirty)
	vf.Ensures("well-formed", spec_docWF(d) && vf.Unlocked(&NsRegistry.m))
}

// ---- setting a path

// flags and values allow a set of value where dest is
func spec_setAllows(fl SyncFlags, value, dest string) bool {
	return value != dest && (value != "" || spec_bit(fl, spec_bDelete)) &&
		(dest != "" || spec_bit(fl, spec_bCreate|spec_bAppend|spec_bUnique)) &&
		(dest == "" || spec_bit(fl, spec_bReplace|spec_bDelete|spec_bAppend|spec_bUnique))
}

//vf:verify (*Document).SetPath
//vf:opt merge=1
//vf:property P07
//vf:norun
func spec_Document_SetPath(d *Document, desc PathValue) {
	vf.Requires(d != nil && spec_docWF(d) && spec_regNames() && errNotFound != nil && spec_docApart(d) && desc.Path.Len() > 0)
	r := NsRegistry
	vf.Requires(r.nsNameMap != nil && r.nsUriMap != nil && r.groupMap != nil && !vf.SameMap(r.nsNameMap, r.nsUriMap) && spec_groupsApart(r.groupMap))
	path, value, fl := desc.Path, desc.Value, spec_effective(desc.Flags)
	was, e, mt, nt, mr, nr := d.dirty, spec_epoch, spec_mTried, spec_nTried, spec_mReads, spec_nReads
	n0 := len(d.nodes)
	models := vf.Collect(n0, func(i int) Model { return d.nodes[i].Model })
	pre := spec_pathNs(path)
	xmp := path.IsXmpPath()
	known := desc.Namespace != "" || spec_knownPrefix(d, pre)
	vf.Modifies(&spec_epoch, &spec_mTried, &spec_mModel, &spec_mPath, &spec_mValue, &spec_mFlags, &spec_mReads, &spec_mReadOf)
	vf.Modifies(&spec_nTried, &spec_nNode, &spec_nPath, &spec_nValue, &spec_nFlags, &spec_nReads, &spec_nReadOf)
	vf.Modifies(&d.nodes, &d.dirty, d.nodes, d.intNsMap, &npHits, &npAllocs, &NsRegistry.m, r.nsNameMap, r.nsUriMap, r.groupMap)
	vf.ModifiesElems(NamespaceList(nil))
	vf.ModifiesType((*Node)(nil))
	err := d.SetPath(desc)
	wroteM, wroteN := spec_mTried != mt, spec_nTried != nt
	wrote := wroteM || wroteN
	m, n := spec_mReadOf, spec_nReadOf
	readM, readN := spec_mReads != mr, spec_nReads != nr
	mState, nState := spec_mReadState(m, path, e), spec_nReadState(n, path, e)
	fromM := readM && mState == 0
	fromN := readN && nState == 0 && (!readM || mState == 1)
	dest := spec_nRead(n, path, e)
	if fromM {
		dest = spec_mRead(m, path, e)
	}
	vf.Ensures("one-write-each-at-most", spec_mTried == mt && spec_epoch == e+(spec_nTried-nt) && (spec_nTried == nt || spec_nTried == nt+1) ||
		spec_mTried == mt+1 && spec_epoch == e+1+(spec_nTried-nt) && (spec_nTried == nt || spec_nTried == nt+1))
	vf.Ensures("as-asked", (!wroteM || spec_mPath == path && spec_mValue == value && spec_mFlags == fl && spec_mModel == m) &&
		(!wroteN || spec_nPath == path && spec_nValue == value && spec_nFlags == fl))
	vf.Ensures("write-needs-a-read", !wrote || fromM || fromN)
	mFailed := wroteM && spec_mWriteState(m, path, value, fl, e) != 0
	nFailed := wroteN && spec_nWriteState(spec_nNode, path, value, fl, spec_epoch-1) != 0
	vf.Ensures("node-only-without-model-field", !wroteN || !readM && !wroteM || wroteM && spec_mWriteState(m, path, value, fl, e) == 1)
	vf.Ensures("flags-allow", !wrote || spec_setAllows(fl, value, dest))
	vf.Ensures("allowed-is-written", wrote || !(fromM || fromN) || !spec_setAllows(fl, value, dest))
	vf.Ensures("model-of-the-path", !readM || vf.Forall(0, n0, func(j int) bool { return !spec_firstHandler(models, j, pre) || m == models[j] }))
	done := wroteN && !nFailed || wroteM && !wroteN && !mFailed
	vf.Ensures("dirty-iff-written-or-new-model", done && d.dirty || !done && (d.dirty == was || vf.Forall(0, n0, func(j int) bool { return models[j] == nil || !models[j].Can(pre) })))
	vf.Ensures("dirty-stays", !was || d.dirty)
	vf.Ensures("failed-write-reported", spec_bit(fl, spec_bNofail) || !wrote || done || err != nil)
	vf.Ensures("refusal-reported", spec_bit(fl, spec_bNofail) || wrote || err != nil || (fromM || fromN) && dest == value)
	vf.Ensures("nofail", !spec_bit(fl, spec_bNofail) || err == nil || !wrote && !(fromM || fromN))
	vf.Ensures("bad-path-reported", xmp && known || err != nil && !wrote && d.dirty == was && len(d.nodes) == n0)
	vf.Ensures("well-formed", spec_docWF(d) && vf.Unlocked(&NsRegistry.m))
}

// ---- the same rules, seen from outside

// spec_polModel: a model with a few fields of each kind
type spec_polModel struct {
	A  string      `xmp:"t:a"`
	B  string      `xmp:"t:b"`
	N  int         `xmp:"t:n"`
	L  StringArray `xmp:"t:l"`
	T  AltString   `xmp:"t:t"`
	S  spec_polSub `xmp:"t:s"`
	ns *Namespace
}

type spec_polSub struct {
	X string `xmp:"t:x"`
	Y string `xmp:"t:y"`
}

func (m *spec_polModel) Can(nsName string) bool            { return nsName == m.ns.Name }
func (m *spec_polModel) Namespaces() NamespaceList         { return NamespaceList{m.ns} }
func (m *spec_polModel) SyncFromXMP(d *Document) error     { return nil }
func (m *spec_polModel) SyncToXMP(d *Document) error       { return nil }
func (m *spec_polModel) SyncModel(d *Document) error       { return nil }
func (m *spec_polModel) CanTag(tag string) bool            { return false }
func (m *spec_polModel) GetTag(tag string) (string, error) { return "", nil }
func (m *spec_polModel) SetTag(tag, value string) error    { return nil }

var spec_polFields = []string{"a", "b", "n", "l", "l[0]", "l[1]", "l[2]", "t", "t[en]", "t[de]", "s/x", "s/y", "none", "none/x"}

func spec_polNs(name string, factory bool) *Namespace {
	ns := &Namespace{Name: name, URI: "u:" + name}
	if factory {
		ns.Factory = func(string) Model { return &spec_polModel{ns: ns} }
	}
	return ns
}

func spec_polFill(g *vf.Gen, ns *Namespace) *spec_polModel {
	m := &spec_polModel{ns: ns}
	val := func() string { return g.Pick("", "", "x", "y", "1", "22") }
	m.A, m.B, m.N, m.S.X = val(), val(), g.N(3), val()
	for i := g.N(4); i > 0; i-- {
		m.L = append(m.L, g.Pick("x", "y", "1"))
	}
	if g.Bool() {
		m.T = NewAltString(g.Pick("x", "y"))
		if g.Bool() {
			m.T.Add("en", g.Pick("x", "y"))
		}
	}
	return m
}

// a document with the namespaces t and q: each absent, without a model, or filled
func spec_polDoc(g *vf.Gen) *Document {
	d := NewDocument()
	for _, name := range []string{"t", "q"} {
		ns := spec_polNs(name, g.Chance(80))
		if g.Chance(90) {
			d.extNsMap[ns.URI] = ns
		}
		switch g.N(5) {
		case 0:
		case 1:
			n := d.nodes.AddNode(NewNode(ns.RootName()))
			if ns.Factory == nil && g.Bool() {
				n.AddStringAttr(name+":a", g.Pick("x", "y", ""))
			}
		default:
			if g.Chance(90) {
				d.AddModel(spec_polFill(g, ns))
			}
		}
	}
	d.dirty = g.Chance(30)
	return d
}

func spec_polPath(g *vf.Gen, ns string) Path {
	if g.Chance(3) {
		return Path(g.Pick(ns+":", ns, "nope:a", ""))
	}
	return Path(ns + ":" + spec_polFields[g.N(len(spec_polFields))])
}

// every value of the document, by namespace and field
func spec_polValues(d *Document) []string {
	var l []string
	for _, name := range []string{"t", "q"} {
		for _, f := range spec_polFields {
			p := Path(name + ":" + f)
			v := "absent"
			if m := d.FindModel(&Namespace{Name: name}); m != nil {
				s, err := GetModelPath(m, p)
				v = s
				if err != nil {
					v = "" // nothing there
				}
			} else if n := d.FindNode(&Namespace{Name: name}); n != nil {
				v, _ = n.GetPath(p)
			} else {
				v = ""
			}
			l = append(l, v)
		}
	}
	return l
}

func spec_polAt(l []string, p Path) string {
	for i, name := range []string{"t", "q"} {
		for k, f := range spec_polFields {
			if p == Path(name+":"+f) {
				return l[i*len(spec_polFields)+k]
			}
		}
	}
	return ""
}

// values of fields that have nothing to do with the path are the same
func spec_polOthersKept(a, b []string, p Path) bool {
	for i, name := range []string{"t", "q"} {
		for k, f := range spec_polFields {
			if string(p) != "" && string(p[:1]) == name && len(p) > 2 && f[0] == p[2] {
				continue
			}
			if a[i*len(spec_polFields)+k] != b[i*len(spec_polFields)+k] {
				return false
			}
		}
	}
	return true
}

func spec_polSame(a, b []string) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func spec_polScalar(p Path) bool {
	return len(p) > 2 && (p[2:] == "a" || p[2:] == "b" || p[2:] == "n" || p[2:] == "s/x" || p[2:] == "s/y")
}

func gen_flags(g *vf.Gen) SyncFlags {
	if g.Chance(30) {
		return []SyncFlags{0, DEFAULT, MERGE, EXTEND, ADD, CREATE | REPLACE, DELETE}[g.N(7)]
	}
	return SyncFlags(g.N(64))
}

func args_spec_Document_SetPath_exact(g *vf.Gen) (*Document, PathValue) {
	d := spec_polDoc(g)
	pv := PathValue{Path: spec_polPath(g, g.Pick("t", "t", "q")), Value: g.Pick("", "x", "y", "1", "22"), Flags: gen_flags(g)}
	if g.Chance(20) && len(pv.Path) > 2 {
		pv.Value = spec_polAt(spec_polValues(d), pv.Path)
	}
	return d, pv
}

//vf:bounded (*Document).SetPath
//vf:also
//vf:reason what models and nodes make of a write goes through reflection
//vf:property P07
func spec_Document_SetPath_exact(d *Document, desc PathValue) {
	fl := spec_effective(desc.Flags)
	before := spec_polValues(d)
	was := d.dirty
	nodes := len(d.nodes)
	ns := desc.Path.NamespacePrefix()
	_, nsErr := desc.Path.Namespace(d)
	hadModel := d.FindModel(&Namespace{Name: ns}) != nil
	dest := spec_polAt(before, desc.Path)
	all := desc.Path.Len() == 0 // the path names the whole namespace
	vf.ModifiesAll()
	err := d.SetPath(desc)
	after := spec_polValues(d)
	good := desc.Path.IsXmpPath() && nsErr == nil
	if all {
		vf.Ensures("namespace-removed-only-with-delete", len(d.nodes) >= nodes || spec_bit(fl, spec_bDelete))
		vf.Ensures("namespace-kept-without-delete", spec_bit(fl, spec_bDelete) || spec_polSame(before, after))
		vf.Ensures("namespace-removed", !good || !spec_bit(fl, spec_bDelete) || err != nil || d.FindNode(&Namespace{Name: ns}) == nil)
		return
	}
	if !good {
		vf.Ensures("bad-path", err != nil && spec_polSame(before, after) && d.dirty == was)
		return
	}
	allowed := spec_setAllows(fl, desc.Value, dest)
	vf.Ensures("refused-changes-nothing", allowed || spec_polSame(before, after))
	vf.Ensures("other-fields-kept", spec_polOthersKept(before, after, desc.Path))
	vf.Ensures("failed-keeps-scalars", err == nil || !spec_polScalar(desc.Path) || spec_polAt(after, desc.Path) == dest)
	if hadModel && spec_polScalar(desc.Path) {
		num := desc.Path[2:] == "n"
		bad := num && desc.Value != "1" && desc.Value != "22"
		canWrite := desc.Value == "" || dest == "" || spec_bit(fl, spec_bReplace)
		stored := allowed && canWrite && !bad
		if stored && !num {
			vf.Ensures("stored", spec_polAt(after, desc.Path) == desc.Value && d.dirty)
		}
		if !stored {
			vf.Ensures("kept", spec_polAt(after, desc.Path) == dest && d.dirty == was)
		}
		vf.Ensures("reported", spec_bit(fl, spec_bNofail) || stored || desc.Value == dest || err != nil)
		vf.Ensures("no-error-when-stored", !stored || err == nil)
	}
	vf.Ensures("nofail", !spec_bit(fl, spec_bNofail) || err == nil || !allowed && spec_polSame(before, after))
	vf.Ensures("dirty-when-changed", d.dirty || spec_polSame(before, after))
}

func spec_upper(s string) string { return s + s }

func args_spec_Document_Sync_exact(g *vf.Gen) (*Document, Path, Path, SyncFlags, bool) {
	d := spec_polDoc(g)
	a, b := "t", "q"
	if g.Bool() {
		a, b = b, a
	}
	s := spec_polPath(g, a)
	t := spec_polPath(g, b)
	if g.Chance(60) {
		s, t = Path(a+":"+g.Pick("a", "b", "s/x", "l[0]", "t[en]")), Path(b+":"+g.Pick("a", "b", "s/y"))
	}
	return d, s, t, gen_flags(g), g.Chance(30)
}

//vf:boundedlemma
//vf:reason what models make of a write goes through reflection
//vf:property P07
func spec_Document_Sync_exact(d *Document, s, t Path, flags SyncFlags, convert bool) {
	fl := spec_effective(flags)
	before := spec_polValues(d)
	was := d.dirty
	var f ConverterFunc
	if convert {
		f = spec_upper
	}
	sns, tns := &Namespace{Name: s.NamespacePrefix()}, &Namespace{Name: t.NamespacePrefix()}
	sm, tm := d.FindModel(sns), d.FindModel(tns)
	known := s.IsXmpPath() && t.IsXmpPath()
	if known {
		_, e1 := s.Namespace(d)
		_, e2 := t.Namespace(d)
		known = e1 == nil && e2 == nil
	}
	vf.ModifiesAll()
	err := d.Sync(s, t, flags, nil, f)
	after := spec_polValues(d)
	sv, dv := spec_polAt(before, s), spec_polAt(before, t)
	allowed := spec_allows(fl, sv, dv)
	vf.Ensures("nofail", !spec_bit(fl, spec_bNofail) || err == nil)
	vf.Ensures("other-fields-kept", spec_polOthersKept(before, after, t))
	if !known || sm == nil || sm != nil && !allowed {
		vf.Ensures("refused-changes-nothing", spec_polSame(before, after))
	}
	if sm != nil && tm != nil && known && !allowed {
		vf.Ensures("refused-stays-clean", d.dirty == was)
	}
	if sm != nil && tm != nil && known && allowed && spec_polScalar(t) && t[2:] != "n" && s.Len() > 0 {
		if _, e := GetModelPath(sm, s); e != nil {
			return
		}
		out := sv
		if convert {
			out = spec_upper(sv)
		}
		if dv == "" || out == "" || spec_bit(fl, spec_bReplace) {
			vf.Ensures("stored", spec_polAt(after, t) == out && err == nil && d.dirty)
		} else {
			vf.Ensures("kept", spec_polAt(after, t) == dv && (err != nil || spec_bit(fl, spec_bNofail)))
		}
	}
}
