//go:build go1.21

package xmp

import (
	"strings"

	vf "github.com/trimmer-io/go-xmp/verifdsl"
)

func gen_Document(g *vf.Gen) *Document {
	d := NewDocument()
	names := []string{"a", "b", "c", "dc", "xmp", "ext", "", "sound", "other"}
	for n := g.N(6); n > 0; n-- {
		name := names[g.N(len(names))]
		spec_trees++
		v := spec_genNode(g, g.N(3))
		v.XMLName = NewName(name)
		v.Model = nil
		if g.Chance(40) {
			v.Model = spec_newModel(name)
			if g.Chance(30) {
				v.Model = spec_newModel(name, g.Pick(names...))
			}
		}
		d.nodes = append(d.nodes, v)
		if g.Chance(70) {
			ns := &Namespace{Name: name, URI: "u:" + name}
			if g.Chance(10) {
				ns.URI = "u:second"
			}
			if g.Bool() {
				d.intNsMap[ns.URI] = ns
			} else {
				d.extNsMap[ns.URI] = ns
			}
		}
	}
	if g.Chance(20) {
		ns := gen_Namespace(g)
		d.extNsMap[ns.URI] = ns
	}
	d.dirty = g.Chance(30)
	d.about = g.Pick("", "about")
	return d
}

func gen_NamespacePtrOrNil(g *vf.Gen) *Namespace {
	if g.Chance(5) {
		return nil
	}
	return gen_Namespace(g)
}

func spec_nsMapNoNil(m map[string]*Namespace) bool {
	return vf.ForallKeys(m, func(k string) bool { return m[k] != nil })
}

// a usable document: maps exist, no nil entries, every top-level node is a tree of its own
func spec_docWF(d *Document) bool {
	return d.intNsMap != nil && d.extNsMap != nil && !vf.SameMap(d.intNsMap, d.extNsMap) &&
		spec_nsMapNoNil(d.intNsMap) && spec_nsMapNoNil(d.extNsMap) && spec_noNil(d.nodes)
}

func spec_docTrees(d *Document) bool {
	return spec_treesWF() && spec_treesApart() && vf.ForallObjs(func(m *Node) bool { return vf.DisjointArrays(m.Nodes, d.nodes) }) && vf.Forall(0, len(d.nodes), func(i int) bool {
		return vf.Forall(0, i, func(j int) bool { return spec_tree(d.nodes[i]) != spec_tree(d.nodes[j]) })
	})
}

// the registry knows namespaces under their own names
func spec_regNames() bool {
	m := NsRegistry.nsNameMap
	return vf.Unlocked(&NsRegistry.m) && vf.ForallKeys(m, func(k string) bool { return m[k] != nil && m[k].Name == k })
}

//vf:iface Model.Namespaces
//vf:norun
//vf:reason a model always lists the same namespaces, never nil ones, and changes nothing
func assume_Model_Namespaces(m Model) {
	vf.Deterministic()
	l := m.Namespaces()
	vf.Ensures("no-nil", spec_nsNoNil(l))
}

// ---- flags, lookup

//vf:verify (*Document).SetDirty
//vf:property P14
func spec_Document_SetDirty(d *Document) {
	vf.Requires(d != nil)
	vf.Modifies(&d.dirty)
	d.SetDirty()
	vf.Ensures("dirty", d.dirty)
}

//vf:verify (Document).IsDirty
//vf:property P14
func spec_Document_IsDirty(d Document) {
	r := d.IsDirty()
	vf.Ensures("the-flag", r == d.dirty)
}

//vf:verify NewDocument
//vf:property P14
func spec_NewDocument() {
	d := NewDocument()
	vf.Ensures("new", d != nil && vf.Fresh(d))
	vf.Ensures("empty", len(d.nodes) == 0 && !d.dirty && d.about == "")
	vf.Ensures("knows-no-namespace", d.intNsMap != nil && d.extNsMap != nil && !vf.SameMap(d.intNsMap, d.extNsMap) &&
		vf.ForallKeys(d.intNsMap, func(k string) bool { return false }) && vf.ForallKeys(d.extNsMap, func(k string) bool { return false }))
}

//vf:verify (*Document).FindNode
//vf:property P14
func spec_Document_FindNode(d *Document, ns *Namespace) {
	vf.Requires(d != nil && ns != nil && spec_noNil(d.nodes))
	l := d.nodes
	r := d.FindNode(ns)
	vf.Ensures("nil-iff-no-match", (r == nil) == vf.Forall(0, len(l), func(i int) bool { return !spec_matches(l[i], ns.Name) }))
	vf.Ensures("first-match", r == nil || vf.Exists(0, len(l), func(k int) bool {
		return r == l[k] && spec_matches(l[k], ns.Name) && vf.Forall(0, k, func(i int) bool { return !spec_matches(l[i], ns.Name) })
	}))
}

func spec_handles(v *Node, name string) bool { return v.Model != nil && v.Model.Can(name) }

//vf:verify (*Document).FindModel
//vf:property P14
func spec_Document_FindModel(d *Document, ns *Namespace) {
	vf.Requires(d != nil && ns != nil && spec_noNil(d.nodes))
	l := d.nodes
	vf.LoopInv(func(k int) bool { return vf.Forall(0, k, func(i int) bool { return !spec_handles(l[i], ns.Name) }) })
	m := d.FindModel(ns)
	vf.Ensures("nil-iff-none", (m == nil) == vf.Forall(0, len(l), func(i int) bool { return !spec_handles(l[i], ns.Name) }))
	vf.Ensures("of-the-first-node", m == nil || vf.Exists(0, len(l), func(k int) bool {
		return m == l[k].Model && spec_handles(l[k], ns.Name) && vf.Forall(0, k, func(i int) bool { return !spec_handles(l[i], ns.Name) })
	}))
}

//vf:verify (Document).findNsByURI
//vf:property P14
func spec_Document_findNsByURI(d Document, uri string) {
	in, isIn := d.intNsMap[uri]
	ex, isEx := d.extNsMap[uri]
	r := d.findNsByURI(uri)
	vf.Ensures("internal-first", !isIn || r == in)
	vf.Ensures("then-external", isIn || !isEx || r == ex)
	vf.Ensures("nil-iff-unknown", isIn || isEx || r == nil)
}

func spec_hasName(m map[string]*Namespace, name string) bool {
	return vf.ExistsKey(m, func(k string) bool { return m[k].Name == name })
}

// r is what the prefix means in the document
func spec_meant(d *Document, pre string, r *Namespace) bool {
	in, ex := d.intNsMap, d.extNsMap
	ns, reg := NsRegistry.nsNameMap[pre]
	if spec_hasName(in, pre) {
		return r != nil && r.Name == pre && vf.ExistsKey(in, func(k string) bool { return in[k] == r })
	}
	if spec_hasName(ex, pre) {
		return r != nil && r.Name == pre && vf.ExistsKey(ex, func(k string) bool { return ex[k] == r })
	}
	return reg && r == ns || !reg && r == nil
}

//vf:verify (Document).findNsByPrefix
//vf:property P14
func spec_Document_findNsByPrefix(d Document, pre string) {
	vf.Requires(spec_nsMapNoNil(d.intNsMap) && spec_nsMapNoNil(d.extNsMap) && vf.Unlocked(&NsRegistry.m))
	in, ex := d.intNsMap, d.extNsMap
	vf.Modifies(&NsRegistry.m)
	vf.NoNewReferences()
	vf.LoopInv(func(seen func(string) bool) bool {
		return vf.ForallKeys(in, func(k string) bool { return !seen(k) || in[k].Name != pre })
	})
	vf.LoopInv(func(seen func(string) bool) bool {
		return vf.ForallKeys(ex, func(k string) bool { return !seen(k) || ex[k].Name != pre })
	})
	vf.LoopInv(func() bool { return !spec_hasName(in, pre) })
	r := d.findNsByPrefix(pre)
	vf.Ensures("unlocked", vf.Unlocked(&NsRegistry.m))
	ns, reg := NsRegistry.nsNameMap[pre]
	inHas, exHas := spec_hasName(in, pre), spec_hasName(ex, pre)
	vf.Ensures("internal-first", !inHas || r != nil && r.Name == pre && vf.ExistsKey(in, func(k string) bool { return in[k] == r }))
	vf.Ensures("then-external", inHas || !exHas || r != nil && r.Name == pre && vf.ExistsKey(ex, func(k string) bool { return ex[k] == r }))
	vf.Ensures("then-the-registry", inHas || exHas || reg && r == ns || !reg && r == nil)
}

//vf:verify (Document).FindNs
//vf:property P14
func spec_Document_FindNs(d Document, name, uri string) {
	vf.Requires(spec_nsMapNoNil(d.intNsMap) && spec_nsMapNoNil(d.extNsMap) && vf.Unlocked(&NsRegistry.m))
	in, isIn := d.intNsMap[uri]
	ex, isEx := d.extNsMap[uri]
	vf.Modifies(&NsRegistry.m)
	vf.NoNewReferences()
	r := d.FindNs(name, uri)
	vf.Ensures("unlocked", vf.Unlocked(&NsRegistry.m))
	byURI := uri != "" && (isIn || isEx)
	vf.Ensures("by-uri-first", !byURI || isIn && r == in || !isIn && r == ex)
	vf.Ensures("then-by-prefix", byURI || spec_meant(&d, getPrefix(name), r))
}

// ---- adding

func spec_registered(m map[string]*Namespace, l NamespaceList, k int) bool {
	return vf.Forall(0, k, func(i int) bool {
		return vf.Exists(0, k, func(j int) bool { return l[j].URI == l[i].URI && m[l[i].URI] == l[j] })
	})
}

// entries the model's namespaces have nothing to do with
func spec_othersKept(m, old map[string]*Namespace, l NamespaceList, k int) bool {
	return vf.ForallKeys(old, func(u string) bool {
		v, in := m[u]
		return in && (v == old[u] || vf.Exists(0, k, func(i int) bool { return l[i].URI == u }))
	}) && vf.ForallKeys(m, func(u string) bool {
		_, in := old[u]
		return in || vf.Exists(0, k, func(i int) bool { return l[i].URI == u })
	})
}

func args_spec_Document_AddModel(g *vf.Gen) (*Document, Model) {
	var names []string
	for n := g.N(4); n > 0; n-- {
		names = append(names, g.Pick("a", "b", "dc", "xmp", "c", "other", ""))
	}
	m := spec_newModel(names...)
	if g.Chance(10) {
		return gen_Document(g), nil
	}
	return gen_Document(g), m
}

//vf:verify (*Document).AddModel
//vf:property P14
func spec_Document_AddModel(d *Document, m Model) {
	vf.Requires(d != nil && spec_docWF(d))
	old, ins := vf.Snap(d.nodes), vf.Snap(d.intNsMap)
	var l NamespaceList
	if m != nil {
		l = m.Namespaces()
	}
	vf.Modifies(&d.nodes, &d.dirty, d.nodes, d.intNsMap, &npHits, &npAllocs)
	vf.ModifiesType((*Node)(nil))
	vf.LoopInv(func(k int) bool { return spec_registered(d.intNsMap, l, k) && spec_othersKept(d.intNsMap, ins, l, k) })
	vf.LoopInv(func() bool { return spec_nsMapNoNil(d.intNsMap) })
	was := d.dirty
	found := len(l) > 0 && vf.Exists(0, len(old), func(i int) bool { return spec_matches(old[i], l[0].Name) })
	n, err := d.AddModel(m)
	vf.Ensures("error-iff-no-namespace", (err != nil) == (len(l) == 0) && (n == nil) == (err != nil))
	vf.Ensures("error-changes-nothing", err == nil || d.dirty == was && len(d.nodes) == len(old) && vf.ForallKeys(d.intNsMap, func(u string) bool { return d.intNsMap[u] == ins[u] }))
	vf.Ensures("dirty", err != nil || d.dirty)
	vf.Ensures("model-on-node", err != nil || n.Model == m)
	vf.Ensures("one-node", len(d.nodes) == len(old) && (err != nil || found) || err == nil && !found && len(d.nodes) == len(old)+1 && d.nodes[len(old)] == n)
	vf.Ensures("other-nodes-stay", vf.Forall(0, len(old), func(i int) bool { return d.nodes[i] == old[i] }))
	vf.Ensures("node-of-first-namespace", err != nil || found && vf.Exists(0, len(old), func(i int) bool { return old[i] == n }) || !found && n.XMLName.Local == l[0].Name && vf.Fresh(n))
	vf.Ensures("namespaces-known", err != nil || spec_registered(d.intNsMap, l, len(l)))
	vf.Ensures("other-namespaces-kept", spec_othersKept(d.intNsMap, ins, l, len(l)))
	vf.Ensures("other-nodes-keep-their-content", vf.ObjsUnchangedOr(func(v *Node) bool { return v == n }))
	vf.Ensures("well-formed", spec_docWF(d))
}

func args_spec_Document_MakeModel(g *vf.Gen) (*Document, *Namespace) {
	ns := gen_Namespace(g)
	if g.Chance(70) {
		m := spec_newModel(ns.Name, g.Pick("q", "a", "b"))
		ns.Factory = func(name string) Model { return m }
	}
	return gen_Document(g), ns
}

//vf:verify (*Document).MakeModel
//vf:property P14
func spec_Document_MakeModel(d *Document, ns *Namespace) {
	vf.Requires(d != nil && ns != nil && spec_docWF(d))
	old, ins := vf.Snap(d.nodes), vf.Snap(d.intNsMap)
	vf.Modifies(&d.nodes, &d.dirty, d.nodes, d.intNsMap, &npHits, &npAllocs)
	vf.ModifiesType((*Node)(nil))
	was := d.dirty
	found := vf.Exists(0, len(old), func(i int) bool { return spec_handles(old[i], ns.Name) })
	vf.LoopInv(func(l NamespaceList, k int) bool {
		return spec_registered(d.intNsMap, l, k) && spec_othersKept(d.intNsMap, ins, l, k)
	})
	vf.LoopInv(func() bool { return spec_nsMapNoNil(d.intNsMap) })
	m, err := d.MakeModel(ns)
	made := err == nil && !found
	vf.Ensures("model-or-error", (m == nil) == (err != nil))
	vf.Ensures("never-an-error-when-present", err == nil || !found)
	vf.Ensures("no-factory-no-model", found || ns.Factory != nil || err != nil)
	vf.Ensures("present-one-is-returned", !found || vf.Exists(0, len(old), func(k int) bool {
		return m == old[k].Model && spec_handles(old[k], ns.Name) && vf.Forall(0, k, func(i int) bool { return !spec_handles(old[i], ns.Name) })
	}))
	vf.Ensures("otherwise-nothing-changes", made || d.dirty == was && len(d.nodes) == len(old) &&
		vf.ForallKeys(d.intNsMap, func(u string) bool {
			v, in := ins[u]
			return in && v == d.intNsMap[u]
		}) && vf.ForallKeys(ins, func(u string) bool {
		_, in := d.intNsMap[u]
		return in
	}))
	vf.Ensures("node-appended", !made || d.dirty && len(d.nodes) == len(old)+1 && vf.Fresh(d.nodes[len(old)]) && d.nodes[len(old)].Model == m && d.nodes[len(old)].XMLName.Local == ns.Name)
	vf.Ensures("nodes-stay", vf.Forall(0, len(old), func(i int) bool { return d.nodes[i] == old[i] }))
	vf.Ensures("nodes-keep-their-content", vf.ObjsUnchangedOr(func(v *Node) bool { return made && v == d.nodes[len(old)] }))
	if made {
		l := m.Namespaces()
		vf.Ensures("namespaces-known", spec_registered(d.intNsMap, l, len(l)))
		vf.Ensures("other-namespaces-kept", spec_othersKept(d.intNsMap, ins, l, len(l)))
	}
	vf.Ensures("well-formed", spec_docWF(d))
}

// ---- removing

//vf:verify (*Document).Close
//vf:property P14
func spec_Document_Close(d *Document) {
	vf.Requires(d == nil || spec_noNil(d.nodes) && spec_treesWF() && spec_treesApart())
	if d == nil {
		d.Close()
		return
	}
	old := vf.Snap(d.nodes)
	vf.Modifies(&d.nodes, &npReturns, &npFrees)
	vf.ModifiesType((*Node)(nil))
	vf.LoopInv(func() bool { return spec_treesWF() && spec_treesApart() })
	vf.LoopInv(func() bool { return spec_unchangedOrBlank() })
	vf.LoopInv(func(k int) bool { return vf.Forall(0, k, func(i int) bool { return spec_blank(old[i]) }) })
	d.Close()
	vf.Ensures("empty", len(d.nodes) == 0)
	vf.Ensures("all-cleared", vf.Forall(0, len(old), func(i int) bool { return spec_blank(old[i]) }))
	vf.Ensures("others-unchanged-or-cleared", spec_unchangedOrBlank())
}

//vf:verify (*Document).RemoveNamespace
//vf:property P14
func spec_Document_RemoveNamespace(d *Document, ns *Namespace) {
	vf.Requires(d != nil && spec_docWF(d) && spec_docTrees(d))
	l0 := d.nodes
	old := vf.Snap(d.nodes)
	ins, exs := vf.Snap(d.intNsMap), vf.Snap(d.extNsMap)
	was := d.dirty
	names := vf.Collect(len(old), func(i int) string { return stripPrefix(old[i].XMLName.Local) })
	vf.Modifies(&d.nodes, &d.dirty, d.nodes, d.intNsMap, d.extNsMap, &npReturns, &npFrees)
	vf.ModifiesType((*Node)(nil))
	vf.LoopInv(func(k int) bool { return vf.Forall(0, k, func(i int) bool { return names[i] != ns.Name }) })
	r := d.RemoveNamespace(ns)
	l := d.nodes
	has := ns != nil && vf.Exists(0, len(old), func(i int) bool { return names[i] == ns.Name })
	vf.Ensures("removed-iff-present", r == has)
	vf.Ensures("dirty-iff-removed", d.dirty == (was || r))
	vf.Ensures("absent-nothing-changes", has || len(l) == len(old) && vf.Forall(0, len(l), func(i int) bool { return l[i] == old[i] }) &&
		vf.ObjsUnchangedOr(func(m *Node) bool { return false }))
	vf.Ensures("first-of-the-name-dropped", !has || len(l) == len(old)-1 && vf.Exists(0, len(old), func(k int) bool {
		return names[k] == ns.Name && vf.Forall(0, k, func(i int) bool { return names[i] != ns.Name && l[i] == old[i] }) &&
			vf.Forall(k, len(l), func(i int) bool { return l[i] == old[i+1] }) &&
			spec_blank(old[k]) && vf.ObjsUnchangedOr(func(m *Node) bool { return spec_tree(m) == spec_tree(old[k]) })
	}))
	vf.Ensures("in-place", vf.SameArray(l, l0) && cap(l) == cap(l0) && len(l) <= len(old))
	vf.Ensures("others-stay", vf.Forall(0, len(old), func(i int) bool {
		return has && names[i] == ns.Name || stripPrefix(old[i].XMLName.Local) == names[i] && (i < len(l) && l[i] == old[i] || i > 0 && l[i-1] == old[i])
	}))
	vf.Ensures("nothing-new", vf.Forall(0, len(l), func(i int) bool { return l[i] == old[i] || i+1 < len(old) && l[i] == old[i+1] }))
	vf.Ensures("namespaces-forgotten", vf.ForallKeys(ins, func(k string) bool {
		_, in := d.intNsMap[k]
		return in != (has && k == ns.URI) && (!in || d.intNsMap[k] == ins[k])
	}) && vf.ForallKeys(exs, func(k string) bool {
		_, in := d.extNsMap[k]
		return in != (has && k == ns.URI) && (!in || d.extNsMap[k] == exs[k])
	}))
	vf.Ensures("no-namespaces-added", vf.ForallKeys(d.intNsMap, func(k string) bool {
		_, in := ins[k]
		return in
	}) && vf.ForallKeys(d.extNsMap, func(k string) bool {
		_, in := exs[k]
		return in
	}))
	vf.Ensures("well-formed", spec_docWF(d))
	vf.Ensures("trees", spec_docTrees(d))
}

// nodes of the old list that are none of the named ones are still there; nothing is new
func spec_onlyDropped(d *Document, old NodeList, names []string, drop func(string) bool) bool {
	return vf.Forall(0, len(d.nodes), func(j int) bool {
		return vf.Exists(0, len(old), func(i int) bool { return d.nodes[j] == old[i] })
	}) && vf.Forall(0, len(old), func(i int) bool {
		return drop(names[i]) || stripPrefix(old[i].XMLName.Local) == names[i] && vf.Exists(0, len(d.nodes), func(j int) bool { return d.nodes[j] == old[i] })
	})
}

func spec_nsOnlyDropped(d *Document, ins, exs map[string]*Namespace) bool {
	return vf.ForallKeys(d.intNsMap, func(k string) bool {
		v, in := ins[k]
		return in && v == d.intNsMap[k]
	}) && vf.ForallKeys(d.extNsMap, func(k string) bool {
		v, in := exs[k]
		return in && v == d.extNsMap[k]
	})
}

func spec_nsNamed(l NamespaceList, name string) bool {
	return vf.Exists(0, len(l), func(i int) bool { return l[i] != nil && l[i].Name == name })
}

//vf:verify (*Document).RemoveNamespaces
//vf:property P14
func spec_Document_RemoveNamespaces(d *Document, remove NamespaceList) {
	vf.Requires(d != nil && spec_docWF(d) && spec_docTrees(d))
	l0 := d.nodes
	old := vf.Snap(d.nodes)
	ins, exs := vf.Snap(d.intNsMap), vf.Snap(d.extNsMap)
	was := d.dirty
	names := vf.Collect(len(old), func(i int) string { return stripPrefix(old[i].XMLName.Local) })
	drop := func(n string) bool { return spec_nsNamed(remove, n) }
	vf.Modifies(&d.nodes, &d.dirty, d.nodes, d.intNsMap, d.extNsMap, &npReturns, &npFrees)
	vf.ModifiesType((*Node)(nil))
	vf.LoopInv(func() bool { return spec_docWF(d) && spec_docTrees(d) })
	vf.LoopInv(func() bool { return vf.SameArray(d.nodes, l0) && cap(d.nodes) == cap(l0) })
	vf.LoopInv(func() bool { return spec_nsOnlyDropped(d, ins, exs) })
	vf.LoopInv(func() bool { return spec_onlyDropped(d, old, names, drop) })
	vf.LoopInv(func(removed bool) bool {
		return d.dirty == (was || removed) && removed == (len(d.nodes) < len(old)) && len(d.nodes) <= len(old)
	})
	r := d.RemoveNamespaces(remove)
	vf.Ensures("in-place", vf.SameArray(d.nodes, l0) && cap(d.nodes) == cap(l0) && len(d.nodes) <= len(old))
	vf.Ensures("true-iff-shorter", r == (len(d.nodes) < len(old)))
	vf.Ensures("dirty-iff-removed", d.dirty == (was || r))
	vf.Ensures("only-named-ones-go", spec_onlyDropped(d, old, names, drop))
	vf.Ensures("namespaces-only-forgotten", spec_nsOnlyDropped(d, ins, exs))
	vf.Ensures("well-formed", spec_docWF(d))
	vf.Ensures("trees", spec_docTrees(d))
}

//vf:verify (*Document).RemoveNamespaceByName
//vf:property P14
func spec_Document_RemoveNamespaceByName(d *Document, n string) {
	vf.Requires(d != nil && spec_docWF(d) && spec_docTrees(d) && spec_regNames())
	l0 := d.nodes
	old := vf.Snap(d.nodes)
	ins, exs := vf.Snap(d.intNsMap), vf.Snap(d.extNsMap)
	was := d.dirty
	names := vf.Collect(len(old), func(i int) string { return stripPrefix(old[i].XMLName.Local) })
	_, reg := NsRegistry.nsNameMap[n]
	known := spec_hasName(ins, n) || spec_hasName(exs, n) || reg
	vf.Modifies(&d.nodes, &d.dirty, d.nodes, d.intNsMap, d.extNsMap, &npReturns, &npFrees, &NsRegistry.m)
	vf.ModifiesType((*Node)(nil))
	r := d.RemoveNamespaceByName(n)
	l := d.nodes
	vf.Ensures("unlocked", vf.Unlocked(&NsRegistry.m))
	vf.Ensures("removed-iff-known-and-present", r == (known && vf.Exists(0, len(old), func(i int) bool { return names[i] == n })))
	vf.Ensures("dirty-iff-removed", d.dirty == (was || r))
	vf.Ensures("in-place", vf.SameArray(l, l0) && cap(l) == cap(l0))
	vf.Ensures("absent-nothing-changes", r || len(l) == len(old) && vf.Forall(0, len(l), func(i int) bool { return l[i] == old[i] }))
	vf.Ensures("first-of-the-name-dropped", !r || len(l) == len(old)-1 && vf.Exists(0, len(old), func(k int) bool {
		return names[k] == n && vf.Forall(0, k, func(i int) bool { return names[i] != n && l[i] == old[i] }) &&
			vf.Forall(k, len(l), func(i int) bool { return l[i] == old[i+1] })
	}))
	vf.Ensures("namespaces-only-forgotten", spec_nsOnlyDropped(d, ins, exs))
	vf.Ensures("well-formed", spec_docWF(d))
	vf.Ensures("trees", spec_docTrees(d))
}

//vf:verify (*Document).FilterNamespaces
//vf:property P14 P10
func spec_Document_FilterNamespaces(d *Document, keep NamespaceList) {
	vf.Requires(d != nil && spec_docWF(d) && spec_docTrees(d) && spec_regNames() && spec_nsNoNil(keep))
	l0 := d.nodes
	old := vf.Snap(d.nodes)
	ins, exs := vf.Snap(d.intNsMap), vf.Snap(d.extNsMap)
	was := d.dirty
	names := vf.Collect(len(old), func(i int) string { return stripPrefix(old[i].XMLName.Local) })
	drop := func(n string) bool { return !spec_nsNamed(keep, n) }
	vf.Modifies(&d.nodes, &d.dirty, d.nodes, d.intNsMap, d.extNsMap, &npReturns, &npFrees, &NsRegistry.m)
	vf.ModifiesType((*Node)(nil))
	vf.LoopInv(func() bool { return spec_docWF(d) && spec_docTrees(d) })
	vf.LoopInv(func() bool { return vf.SameArray(d.nodes, l0) && cap(d.nodes) == cap(l0) })
	vf.LoopInv(func() bool { return vf.Unlocked(&NsRegistry.m) })
	vf.LoopInv(func(allNs NamespaceList) bool { return vf.Fresh(allNs) && spec_nsNoNil(allNs) })
	vf.LoopInv(func() bool { return spec_nsOnlyDropped(d, ins, exs) })
	vf.LoopInv(func() bool { return spec_onlyDropped(d, old, names, drop) })
	vf.LoopInv(func(removed bool) bool {
		return d.dirty == (was || removed) && removed == (len(d.nodes) < len(old)) && len(d.nodes) <= len(old)
	})
	r := d.FilterNamespaces(keep)
	vf.Ensures("unlocked", vf.Unlocked(&NsRegistry.m))
	vf.Ensures("in-place", vf.SameArray(d.nodes, l0) && cap(d.nodes) == cap(l0) && len(d.nodes) <= len(old))
	vf.Ensures("true-iff-shorter", r == (len(d.nodes) < len(old)))
	vf.Ensures("dirty-iff-removed", d.dirty == (was || r))
	vf.Ensures("kept-ones-stay", spec_onlyDropped(d, old, names, drop))
	vf.Ensures("namespaces-only-forgotten", spec_nsOnlyDropped(d, ins, exs))
	vf.Ensures("well-formed", spec_docWF(d))
	vf.Ensures("trees", spec_docTrees(d))
}

func args_spec_Document_FilterNamespaces_exact(g *vf.Gen) (*Document, NamespaceList) {
	return gen_Document(g), gen_NamespaceList(g)
}

//vf:bounded (*Document).FilterNamespaces
//vf:also
//vf:reason exactly which nodes go needs counting the nodes of each name
//vf:property P10 P14
func spec_Document_FilterNamespaces_exact(d *Document, keep NamespaceList) {
	vf.Requires(d != nil && spec_docWF(d) && spec_docTrees(d) && spec_regNames() && spec_nsNoNil(keep))
	vf.Requires(vf.Forall(0, len(d.nodes), func(i int) bool {
		return d.nodes[i].XMLName.Space == "" && !strings.Contains(d.nodes[i].XMLName.Local, ":")
	}))
	old := vf.Snap(d.nodes)
	stays := vf.Collect(len(old), func(i int) bool {
		return d.findNsByPrefix(old[i].XMLName.Local) == nil || spec_nsNamed(keep, old[i].XMLName.Local)
	})
	vf.ModifiesAll()
	r := d.FilterNamespaces(keep)
	n := vf.Count(0, len(old), func(i int) bool { return stays[i] })
	vf.Ensures("true-iff-something-goes", r == (n < len(old)))
	vf.Ensures("kept-or-unknown-stay-others-go", len(d.nodes) == n && vf.Forall(0, len(old), func(i int) bool {
		return !stays[i] || d.nodes[vf.Count(0, i, func(j int) bool { return stays[j] })] == old[i]
	}))
}

//vf:bounded (*Document).RemoveNamespaces
//vf:also
//vf:reason exactly which nodes go needs counting the nodes of each name
//vf:property P14 P10
func spec_Document_RemoveNamespaces_exact(d *Document, remove NamespaceList) {
	vf.Requires(d != nil && spec_docWF(d) && spec_docTrees(d))
	old := vf.Snap(d.nodes)
	names := vf.Collect(len(old), func(i int) string { return stripPrefix(old[i].XMLName.Local) })
	// the n-th node of a name goes when the list names it at least n times
	stays := func(i int) bool {
		earlier := vf.Count(0, i, func(j int) bool { return names[j] == names[i] })
		return vf.Count(0, len(remove), func(j int) bool { return remove[j] != nil && remove[j].Name == names[i] }) <= earlier
	}
	vf.ModifiesAll()
	r := d.RemoveNamespaces(remove)
	n := vf.Count(0, len(old), stays)
	vf.Ensures("true-iff-something-goes", r == (n < len(old)))
	vf.Ensures("named-go-others-stay", len(d.nodes) == n && vf.Forall(0, len(old), func(i int) bool {
		return !stays(i) || d.nodes[vf.Count(0, i, stays)] == old[i]
	}))
}
