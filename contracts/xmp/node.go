//go:build go1.21

package xmp

import (
	"encoding/xml"

	vf "github.com/trimmer-io/go-xmp/verifdsl"
)

// ---- inputs

// spec_model is a model that handles the listed namespaces and does nothing.
type spec_model struct {
	names []string
	list  NamespaceList
}

func spec_newModel(names ...string) *spec_model {
	m := &spec_model{names: names}
	for _, v := range names {
		m.list = append(m.list, &Namespace{Name: v, URI: "u:" + v})
	}
	return m
}

func (m *spec_model) Can(nsName string) bool {
	for _, v := range m.names {
		if v == nsName {
			return true
		}
	}
	return false
}
func (m *spec_model) Namespaces() NamespaceList {
	return m.list
}
func (m *spec_model) SyncFromXMP(d *Document) error     { return nil }
func (m *spec_model) SyncToXMP(d *Document) error       { return nil }
func (m *spec_model) SyncModel(d *Document) error       { return nil }
func (m *spec_model) CanTag(tag string) bool            { return false }
func (m *spec_model) GetTag(tag string) (string, error) { return "", nil }
func (m *spec_model) SetTag(tag, value string) error    { return nil }

func gen_Model(g *vf.Gen) Model {
	if g.Chance(60) {
		return nil
	}
	var names []string
	for n := g.N(3); n > 0; n-- {
		names = append(names, g.Pick("a", "b", "dc", "xmp", ""))
	}
	return spec_newModel(names...)
}

func gen_xmlName(g *vf.Gen) xml.Name {
	return xml.Name{Space: g.Pick("", "", "", "u:a", "dc", "http://www.w3.org/1999/02/22-rdf-syntax-ns#"), Local: g.Pick("a", "b", "c", "x:a", "y:a", "x:b", "dc:a", "rdf:Seq", "rdf:Bag", "rdf:li", "xml:lang", "lang", "", ":", "a:b:c")}
}

func gen_Attr(g *vf.Gen) Attr {
	return Attr{Name: gen_xmlName(g), Value: g.Str()}
}

// spec_tree names the tree a node belongs to: an arbitrary labelling for the
// verifier; when executed, the trees the generators built.
//
//vf:uninterpreted
func spec_tree(n *Node) int { return spec_treeOf[n] }

var (
	spec_treeOf = map[*Node]int{}
	spec_trees  int
)

// children carry the label of their parent
func spec_treesApart() bool {
	return vf.ForallObjs(func(m *Node) bool {
		return vf.Forall(0, len(m.Nodes), func(i int) bool { return spec_tree(m.Nodes[i]) == spec_tree(m) })
	})
}

func gen_Node(g *vf.Gen) *Node {
	if len(spec_treeOf) > 100000 {
		spec_treeOf = map[*Node]int{}
	}
	spec_trees++
	return spec_genNode(g, 3)
}

func spec_genNode(g *vf.Gen, depth int) *Node {
	n := &Node{XMLName: gen_xmlName(g), Model: gen_Model(g), Value: g.Str()}
	spec_treeOf[n] = spec_trees
	for i := g.N(3); i > 0; i-- {
		n.Attr = append(n.Attr, gen_Attr(g))
	}
	if depth > 0 {
		for i := g.N(4); i > 0; i-- {
			n.Nodes = append(n.Nodes, spec_genNode(g, depth-1))
		}
	}
	return n
}

func gen_NodeList(g *vf.Gen) NodeList {
	var l NodeList
	for i := g.N(5); i > 0; i-- {
		spec_trees++
		l = append(l, spec_genNode(g, 1))
	}
	return l
}

func spec_noNil(l NodeList) bool {
	return vf.Forall(0, len(l), func(i int) bool { return l[i] != nil })
}

//vf:iface Model.Can
//vf:norun
//vf:reason a model always answers the same for the same name and does not touch the node tree
func assume_Model_Can(m Model, name string) {
	vf.Deterministic()
	m.Can(name)
}

// ---- node lists

//vf:verify (*NodeList).AppendNode
//vf:property P12
func spec_NodeList_AppendNode(x *NodeList, n *Node) {
	vf.Requires(x != nil && n != nil)
	old := vf.Snap(*x)
	vf.Modifies(x, *x)
	r := x.AppendNode(n)
	vf.Ensures("returns-the-node", r == n)
	vf.Ensures("one-more", len(*x) == len(old)+1 && (*x)[len(old)] == n)
	vf.Ensures("others-kept", vf.Forall(0, len(old), func(i int) bool { return (*x)[i] == old[i] }))
}

//vf:verify (*NodeList).AddNode
//vf:property P12
func spec_NodeList_AddNode(x *NodeList, n *Node) {
	vf.Requires(x != nil && n != nil && spec_noNil(*x))
	old := vf.Snap(*x)
	name := n.XMLName.Local
	vf.Modifies(x, *x)
	vf.LoopInv(func(k int) bool {
		return vf.Forall(0, k, func(i int) bool { return old[i].XMLName.Local != name })
	})
	r := x.AddNode(n)
	vf.Ensures("returns-the-node", r == n)
	has := vf.Exists(0, len(old), func(i int) bool { return old[i].XMLName.Local == name })
	vf.Ensures("replaces-the-first-of-the-name", !has || len(*x) == len(old) && vf.Exists(0, len(old), func(k int) bool {
		return old[k].XMLName.Local == name && (*x)[k] == n &&
			vf.Forall(0, k, func(i int) bool { return old[i].XMLName.Local != name }) &&
			vf.Forall(0, len(old), func(i int) bool { return i == k || (*x)[i] == old[i] })
	}))
	vf.Ensures("or-appends", has || len(*x) == len(old)+1 && (*x)[len(old)] == n &&
		vf.Forall(0, len(old), func(i int) bool { return (*x)[i] == old[i] }))
}

//vf:verify (*NodeList).Index
//vf:property P12
func spec_NodeList_Index(x *NodeList, n *Node) {
	vf.Requires(x != nil)
	l := *x
	vf.LoopInv(func(k int) bool { return vf.Forall(0, k, func(i int) bool { return l[i] != n }) })
	r := x.Index(n)
	vf.Ensures("minus-one-iff-absent", (r == -1) == vf.Forall(0, len(l), func(i int) bool { return l[i] != n }))
	vf.Ensures("first-position", r == -1 || 0 <= r && r < len(l) && l[r] == n && vf.Forall(0, r, func(i int) bool { return l[i] != n }))
}

//vf:verify (*NodeList).RemoveNode
//vf:property P12
func spec_NodeList_RemoveNode(x *NodeList, n *Node) {
	vf.Requires(x != nil)
	old := vf.Snap(*x)
	vf.Modifies(x, *x)
	r := x.RemoveNode(n)
	l := *x
	vf.Ensures("returns-the-node", r == n)
	has := vf.Exists(0, len(old), func(i int) bool { return old[i] == n })
	vf.Ensures("absent-nothing-changes", has || len(l) == len(old) && vf.Forall(0, len(l), func(i int) bool { return l[i] == old[i] }))
	vf.Ensures("first-occurrence-dropped", !has || len(l) == len(old)-1 && vf.Exists(0, len(old), func(k int) bool {
		return old[k] == n && vf.Forall(0, k, func(i int) bool { return old[i] != n && l[i] == old[i] }) &&
			vf.Forall(k, len(l), func(i int) bool { return l[i] == old[i+1] })
	}))
}

// the node answers to the name
func spec_matches(v *Node, prefix string) bool {
	return stripPrefix(v.XMLName.Local) == prefix || v.Model != nil && v.Model.Can(prefix)
}

//vf:verify (*Node).Name
//vf:property P12
func spec_Node_Name(n *Node) {
	vf.Requires(n != nil)
	s := n.Name()
	vf.Ensures("local-name", s == stripPrefix(n.XMLName.Local))
}

//vf:verify (*NodeList).FindNodeByName
//vf:property P12
func spec_NodeList_FindNodeByName(n *NodeList, prefix string) {
	vf.Requires(n != nil && spec_noNil(*n))
	l := *n
	vf.LoopInv(func(k int) bool { return vf.Forall(0, k, func(i int) bool { return !spec_matches(l[i], prefix) }) })
	r := n.FindNodeByName(prefix)
	vf.Ensures("nil-iff-no-match", (r == nil) == vf.Forall(0, len(l), func(i int) bool { return !spec_matches(l[i], prefix) }))
	vf.Ensures("first-match", r == nil || vf.Exists(0, len(l), func(k int) bool {
		return r == l[k] && spec_matches(l[k], prefix) && vf.Forall(0, k, func(i int) bool { return !spec_matches(l[i], prefix) })
	}))
}

//vf:verify (*NodeList).FindNode
//vf:property P12
func spec_NodeList_FindNode(n *NodeList, ns *Namespace) {
	vf.Requires(n != nil && ns != nil && spec_noNil(*n))
	l := *n
	r := n.FindNode(ns)
	vf.Ensures("nil-iff-no-match", (r == nil) == vf.Forall(0, len(l), func(i int) bool { return !spec_matches(l[i], ns.Name) }))
	vf.Ensures("first-match", r == nil || vf.Exists(0, len(l), func(k int) bool {
		return r == l[k] && spec_matches(l[k], ns.Name) && vf.Forall(0, k, func(i int) bool { return !spec_matches(l[i], ns.Name) })
	}))
}

// ---- children of a node

//vf:verify (*Node).AddNode
//vf:property P12
func spec_Node_AddNode(n *Node, x *Node) {
	vf.Requires(n != nil && x != nil && spec_noNil(n.Nodes))
	old := vf.Snap(n.Nodes)
	before := *n
	name := x.XMLName.Local
	vf.Modifies(&n.Nodes, n.Nodes)
	vf.PanicsIff(x == n)
	r := n.AddNode(x)
	l := n.Nodes
	vf.Ensures("returns-the-node", r == x)
	vf.Ensures("node-itself-kept", n.XMLName == before.XMLName && n.Value == before.Value && n.Model == before.Model)
	has := vf.Exists(0, len(old), func(i int) bool { return old[i].XMLName.Local == name })
	vf.Ensures("replaces-the-first-of-the-name", !has || len(l) == len(old) && vf.Exists(0, len(old), func(k int) bool {
		return old[k].XMLName.Local == name && l[k] == x &&
			vf.Forall(0, k, func(i int) bool { return old[i].XMLName.Local != name }) &&
			vf.Forall(0, len(old), func(i int) bool { return i == k || l[i] == old[i] })
	}))
	vf.Ensures("or-appends", has || len(l) == len(old)+1 && l[len(old)] == x &&
		vf.Forall(0, len(old), func(i int) bool { return l[i] == old[i] }))
}

//vf:verify (*Node).AppendNode
//vf:property P12
func spec_Node_AppendNode(n *Node, x *Node) {
	vf.Requires(n != nil && x != nil)
	old := vf.Snap(n.Nodes)
	vf.Modifies(&n.Nodes, n.Nodes)
	vf.PanicsIff(x == n)
	r := n.AppendNode(x)
	l := n.Nodes
	vf.Ensures("returns-the-node", r == x)
	vf.Ensures("one-more", len(l) == len(old)+1 && l[len(old)] == x)
	vf.Ensures("others-kept", vf.Forall(0, len(old), func(i int) bool { return l[i] == old[i] }))
}

//vf:verify (*Node).RemoveNode
//vf:property P12
func spec_Node_RemoveNode(n *Node, x *Node) {
	vf.Requires(n != nil)
	old := vf.Snap(n.Nodes)
	vf.Modifies(&n.Nodes, n.Nodes)
	vf.PanicsIff(x == n)
	r := n.RemoveNode(x)
	l := n.Nodes
	vf.Ensures("returns-the-node", r == x)
	has := vf.Exists(0, len(old), func(i int) bool { return old[i] == x })
	vf.Ensures("absent-nothing-changes", has || len(l) == len(old) && vf.Forall(0, len(l), func(i int) bool { return l[i] == old[i] }))
	vf.Ensures("first-occurrence-dropped", !has || len(l) == len(old)-1 && vf.Exists(0, len(old), func(k int) bool {
		return old[k] == x && vf.Forall(0, k, func(i int) bool { return old[i] != x && l[i] == old[i] }) &&
			vf.Forall(k, len(l), func(i int) bool { return l[i] == old[i+1] })
	}))
}

// ---- attributes

//vf:verify (*Node).AddAttr
//vf:property P12
func spec_Node_AddAttr(n *Node, attr Attr) {
	vf.Requires(n != nil)
	old := vf.Snap(n.Attr)
	name := attr.Name.Local
	vf.Modifies(&n.Attr, n.Attr)
	vf.LoopInv(func(k int) bool {
		return vf.Forall(0, k, func(i int) bool { return old[i].Name.Local != name })
	})
	n.AddAttr(attr)
	l := n.Attr
	has := vf.Exists(0, len(old), func(i int) bool { return old[i].Name.Local == name })
	vf.Ensures("overwrites-the-first-of-the-name", !has || len(l) == len(old) && vf.Exists(0, len(old), func(k int) bool {
		return old[k].Name.Local == name && l[k].Value == attr.Value && l[k].Name == old[k].Name &&
			vf.Forall(0, k, func(i int) bool { return old[i].Name.Local != name }) &&
			vf.Forall(0, len(old), func(i int) bool { return i == k || l[i] == old[i] })
	}))
	vf.Ensures("or-appends", has || len(l) == len(old)+1 && l[len(old)] == attr &&
		vf.Forall(0, len(old), func(i int) bool { return l[i] == old[i] }))
}

//vf:verify (*Node).AddStringAttr
//vf:property P12
func spec_Node_AddStringAttr(n *Node, name, value string) {
	vf.Requires(n != nil)
	old := vf.Snap(n.Attr)
	vf.Modifies(&n.Attr, n.Attr)
	n.AddStringAttr(name, value)
	l := n.Attr
	has := vf.Exists(0, len(old), func(i int) bool { return old[i].Name.Local == name })
	vf.Ensures("overwrites-the-first-of-the-name", !has || len(l) == len(old) && vf.Exists(0, len(old), func(k int) bool {
		return old[k].Name.Local == name && l[k].Value == value && l[k].Name == old[k].Name &&
			vf.Forall(0, k, func(i int) bool { return old[i].Name.Local != name }) &&
			vf.Forall(0, len(old), func(i int) bool { return i == k || l[i] == old[i] })
	}))
	vf.Ensures("or-appends", has || len(l) == len(old)+1 && l[len(old)].Name.Local == name && l[len(old)].Name.Space == "" && l[len(old)].Value == value &&
		vf.Forall(0, len(old), func(i int) bool { return l[i] == old[i] }))
}

func spec_attrWanted(a Attr, ns, name string) bool {
	return (ns == "" || a.Name.Space == ns) && (name == "" || stripPrefix(a.Name.Local) == name)
}

//vf:verify (*Node).GetAttr
//vf:property P12
func spec_Node_GetAttr(n *Node, ns, name string) {
	vf.Requires(n != nil)
	a := vf.Snap(n.Attr)
	vf.LoopInv(func(l []Attr, k int) bool {
		return len(l) == vf.Count(0, k, func(i int) bool { return spec_attrWanted(a[i], ns, name) })
	})
	vf.LoopInv(func(l []Attr, k int) bool {
		return vf.Forall(0, k, func(i int) bool {
			return !spec_attrWanted(a[i], ns, name) || l[vf.Count(0, i, func(j int) bool { return spec_attrWanted(a[j], ns, name) })] == a[i]
		})
	})
	l := n.GetAttr(ns, name)
	vf.Ensures("as-many-as-match", len(l) == vf.Count(0, len(a), func(i int) bool { return spec_attrWanted(a[i], ns, name) }))
	vf.Ensures("matching-ones-in-order", vf.Forall(0, len(a), func(i int) bool {
		return !spec_attrWanted(a[i], ns, name) || l[vf.Count(0, i, func(j int) bool { return spec_attrWanted(a[j], ns, name) })] == a[i]
	}))
	vf.Ensures("private", vf.Fresh(l))
}

// ---- pool

//vf:verify NewNode
//vf:property P13
func spec_NewNode(name xml.Name) {
	vf.Modifies(&npHits, &npAllocs)
	n := NewNode(name)
	vf.Ensures("exists", n != nil && vf.Fresh(n))
	vf.Ensures("name", n.XMLName == name)
	vf.Ensures("blank", len(n.Attr) == 0 && len(n.Nodes) == 0 && n.Model == nil && n.Value == "")
	vf.Ensures("no-storage", cap(n.Attr) == 0 && cap(n.Nodes) == 0)
	vf.Ensures("nothing-else-made", vf.NewObjs(func(m *Node) bool { return m == n || spec_blank(m) }))
}

func spec_blank(n *Node) bool {
	return n.XMLName == emptyName && len(n.Attr) == 0 && cap(n.Attr) == 0 && len(n.Nodes) == 0 && cap(n.Nodes) == 0 && n.Model == nil && n.Value == ""
}

// no child list holds a nil node
func spec_treesWF() bool {
	return vf.ForallObjs(func(m *Node) bool { return spec_noNil(m.Nodes) })
}

func spec_unchangedOrBlank() bool {
	return vf.ObjsUnchangedOr(func(m *Node) bool { return spec_blank(m) })
}

//vf:verify (*Node).Close
//vf:property P13
func spec_Node_Close(n *Node) {
	vf.Requires(n != nil && spec_treesWF() && spec_treesApart())
	kids := vf.Snap(n.Nodes)
	vf.Modifies(&npReturns, &npFrees)
	vf.ModifiesType((*Node)(nil))
	vf.LoopInv(func() bool { return spec_treesWF() })
	vf.LoopInv(func() bool { return spec_treesApart() })
	vf.LoopInv(func() bool { return spec_unchangedOrBlank() })
	vf.LoopInv(func() bool { return vf.ObjsUnchangedOr(func(m *Node) bool { return spec_tree(m) == spec_tree(n) }) })
	vf.LoopInv(func() bool { return vf.NewObjs(func(m *Node) bool { return spec_blank(m) }) })
	vf.LoopInv(func(k int) bool { return vf.Forall(0, k, func(i int) bool { return spec_blank(kids[i]) }) })
	n.Close()
	vf.Ensures("cleared", spec_blank(n))
	vf.Ensures("children-cleared", vf.Forall(0, len(kids), func(i int) bool { return spec_blank(kids[i]) }))
	vf.Ensures("others-unchanged-or-cleared", spec_unchangedOrBlank())
	vf.Ensures("other-trees-unchanged", vf.ObjsUnchangedOr(func(m *Node) bool { return spec_tree(m) == spec_tree(n) }))
	vf.Ensures("trees-apart", spec_treesApart())
	vf.Ensures("trees-well-formed", spec_treesWF())
	vf.Ensures("nothing-made", vf.NewObjs(func(m *Node) bool { return spec_blank(m) }))
}

//vf:verify (*Node).Clear
//vf:property P13
func spec_Node_Clear(n *Node) {
	vf.Requires(n != nil && spec_treesWF() && spec_treesApart())
	kids := vf.Snap(n.Nodes)
	vf.Modifies(&npReturns, &npFrees)
	vf.ModifiesType((*Node)(nil))
	vf.LoopInv(func() bool { return spec_treesWF() })
	vf.LoopInv(func() bool { return spec_treesApart() })
	vf.LoopInv(func() bool { return spec_unchangedOrBlank() })
	vf.LoopInv(func() bool { return vf.ObjsUnchangedOr(func(m *Node) bool { return spec_tree(m) == spec_tree(n) }) })
	vf.LoopInv(func() bool { return vf.NewObjs(func(m *Node) bool { return spec_blank(m) }) })
	vf.LoopInv(func(k int) bool { return vf.Forall(0, k, func(i int) bool { return spec_blank(kids[i]) }) })
	n.Clear()
	vf.Ensures("no-children", len(n.Nodes) == 0)
	vf.Ensures("children-cleared", vf.Forall(0, len(kids), func(i int) bool { return spec_blank(kids[i]) }))
	vf.Ensures("others-unchanged-or-cleared", vf.ObjsUnchangedOr(func(m *Node) bool { return m == n || spec_blank(m) }))
	vf.Ensures("other-trees-unchanged", vf.ObjsUnchangedOr(func(m *Node) bool { return spec_tree(m) == spec_tree(n) }))
	vf.Ensures("trees-apart", spec_treesApart())
	vf.Ensures("trees-well-formed", spec_treesWF())
}

// n equals x apart from the children, and shares no attribute or child storage with it
func spec_copyOf(n, x *Node) bool {
	return n.XMLName == x.XMLName && n.Value == x.Value && n.Model == x.Model &&
		len(n.Attr) == len(x.Attr) && vf.Forall(0, len(x.Attr), func(i int) bool { return n.Attr[i] == x.Attr[i] }) &&
		vf.DisjointArrays(n.Attr, x.Attr) && len(n.Nodes) == len(x.Nodes) && vf.DisjointArrays(n.Nodes, x.Nodes)
}

//vf:verify copyNode
//vf:property P13
func spec_copyNode(x *Node) {
	vf.Requires(x != nil && spec_treesWF())
	vf.Modifies(&npHits, &npAllocs)
	n := copyNode(x)
	vf.Ensures("new-node", n != nil && vf.Fresh(n))
	vf.Ensures("equal-but-apart", spec_copyOf(n, x))
	vf.Ensures("children-new", vf.Forall(0, len(x.Nodes), func(i int) bool { return vf.Fresh(n.Nodes[i]) && n.Nodes[i] != nil }))
	vf.Ensures("children-equal-but-apart", vf.Forall(0, len(x.Nodes), func(i int) bool { return spec_copyOf(n.Nodes[i], x.Nodes[i]) }))
	vf.Ensures("trees-well-formed", spec_treesWF())
}

//vf:verify copyNodes
//vf:property P13
func spec_copyNodes(x NodeList) {
	vf.Requires(spec_noNil(x) && spec_treesWF())
	vf.Modifies(&npHits, &npAllocs)
	vf.LoopInv(func() bool { return spec_treesWF() })
	vf.LoopInv(func(l NodeList, k int) bool {
		return len(l) == k && vf.Forall(0, k, func(i int) bool { return vf.Fresh(l[i]) && l[i] != nil })
	})
	vf.LoopInv(func(l NodeList, k int) bool {
		return vf.Forall(0, k, func(i int) bool { return spec_copyOf(l[i], x[i]) })
	})
	l := copyNodes(x)
	vf.Ensures("as-many", len(l) == len(x) && vf.Fresh(l))
	vf.Ensures("new-nodes", vf.Forall(0, len(x), func(i int) bool { return vf.Fresh(l[i]) && l[i] != nil }))
	vf.Ensures("equal-but-apart", vf.Forall(0, len(x), func(i int) bool { return spec_copyOf(l[i], x[i]) }))
	vf.Ensures("trees-well-formed", spec_treesWF())
}

func spec_allNodes(n *Node, into map[*Node]bool) {
	if into[n] {
		return
	}
	into[n] = true
	for _, v := range n.Nodes {
		spec_allNodes(v, into)
	}
}

func spec_deepEq(a, b *Node) bool {
	if a.XMLName != b.XMLName || a.Value != b.Value || a.Model != b.Model || len(a.Attr) != len(b.Attr) || len(a.Nodes) != len(b.Nodes) {
		return false
	}
	for i := range a.Attr {
		if a.Attr[i] != b.Attr[i] {
			return false
		}
	}
	for i := range a.Nodes {
		if !spec_deepEq(a.Nodes[i], b.Nodes[i]) {
			return false
		}
	}
	return true
}

//vf:boundedlemma
//vf:reason the whole-tree statements follow from the contracts by induction over the height, which the verifier does not do
//vf:property P13
func lemma_copy_and_close_trees(x *Node, other *Node) {
	vf.Modifies(&npHits, &npAllocs, &npReturns, &npFrees)
	vf.ModifiesType((*Node)(nil))
	a := copyNode(x)
	keep := copyNode(x)
	in := map[*Node]bool{}
	spec_allNodes(x, in)
	cp := map[*Node]bool{}
	spec_allNodes(a, cp)
	shared := false
	for n := range cp {
		shared = shared || in[n]
	}
	vf.Ensures("copy-equal", spec_deepEq(a, x))
	vf.Ensures("no-shared-node", !shared)
	for n := range cp {
		n.Value += "!"
		for i := range n.Attr {
			n.Attr[i].Value += "!"
		}
		if len(n.Nodes) > 0 {
			n.Nodes[0] = other
		}
	}
	vf.Ensures("original-independent", spec_deepEq(x, keep))
	o := copyNode(other)
	in = map[*Node]bool{}
	spec_allNodes(x, in)
	x.Close()
	released := true
	for n := range in {
		released = released && spec_blank(n)
	}
	vf.Ensures("whole-tree-cleared", released)
	vf.Ensures("other-trees-kept", spec_deepEq(o, other))
	seen := map[*Node]int{}
	twice := false
	for i := 0; i < 64; i++ {
		n := NewNode(emptyName)
		seen[n]++
		twice = twice || seen[n] > 1
	}
	vf.Ensures("no-node-pooled-twice", !twice)
}
