//go:build go1.21

package xmp

import (
	"strings"

	vf "github.com/trimmer-io/go-xmp/verifdsl"
)

func init() {
	// what filters can name when the contracts are executed
	NsRegistry.RegisterNamespace(&Namespace{Name: "a", URI: "u:a"}, NamespaceGroupList{XmpMetadata, ImageMetadata})
	NsRegistry.RegisterNamespace(&Namespace{Name: "b", URI: "u:b"}, NamespaceGroupList{ImageMetadata})
	NsRegistry.RegisterNamespace(&Namespace{Name: "dc", URI: "u:dc"}, NamespaceGroupList{XmpMetadata, RightsMetadata, CameraMetadata})
	NsRegistry.RegisterNamespace(&Namespace{Name: "sound", URI: "u:sound"}, NamespaceGroupList{VfxMetadata, MusicMetadata})
	NsRegistry.RegisterNamespace(&Namespace{Name: "-x", URI: "u:-x"}, NamespaceGroupList{MovieMetadata})
}

func gen_NamespaceList(g *vf.Gen) NamespaceList {
	var l NamespaceList
	for n := g.N(5); n > 0; n-- {
		l = append(l, gen_Namespace(g))
	}
	return l
}

func gen_filterText(g *vf.Gen) string {
	s := ""
	for n := g.N(5); n > 0; n-- {
		s += g.Pick("", "", "+", "-", " ", "--", "+-", "+ ") +
			g.Pick("", "a", "b", "c", "dc", "xmp", "image", "music", "movie", "sound", "camera", "vfx", "rights", "XMP", "unknown", "x:y", "-x", " ") + g.Pick(",", ",", ",", "", ",,")
	}
	return s
}

// ---- namespace lists and groups

func spec_nsNoNil(l NamespaceList) bool {
	return vf.Forall(0, len(l), func(i int) bool { return l[i] != nil })
}

//vf:verify (NamespaceList).Contains
//vf:property P10
func spec_NamespaceList_Contains(l NamespaceList, ns *Namespace) {
	vf.Requires(spec_nsNoNil(l))
	vf.LoopInv(func(k int) bool { return vf.Forall(0, k, func(i int) bool { return l[i].Name != ns.Name }) })
	r := l.Contains(ns)
	vf.Ensures("nothing-contains-nil", ns != nil || !r)
	vf.Ensures("iff-same-name", ns == nil || r == vf.Exists(0, len(l), func(i int) bool { return l[i].Name == ns.Name }))
}

//vf:verify (NamespaceList).ContainsName
//vf:property P10
func spec_NamespaceList_ContainsName(l NamespaceList, n string) {
	vf.Requires(spec_nsNoNil(l))
	vf.LoopInv(func(k int) bool { return vf.Forall(0, k, func(i int) bool { return l[i].Name != n }) })
	r := l.ContainsName(n)
	vf.Ensures("iff-same-name", r == (n != "" && vf.Exists(0, len(l), func(i int) bool { return l[i].Name == n })))
}

//vf:verify (*NamespaceList).RemoveDups
//vf:property P10
func spec_NamespaceList_RemoveDups(l *NamespaceList) {
	vf.Requires(l != nil && spec_nsNoNil(*l))
	old := vf.Snap(*l)
	vf.Modifies(l, *l)
	vf.LoopInv(func(k, j int) bool { return 0 <= j && j <= k && len(*l) == len(old) })
	vf.LoopInv(func(k, j int) bool {
		return vf.Forall(k, len(old), func(i int) bool { return (*l)[i] == old[i] })
	})
	vf.LoopInv(func(j int, found map[string]bool) bool {
		return vf.Forall(0, j, func(m int) bool { return (*l)[m] != nil && found[(*l)[m].URI] })
	})
	vf.LoopInv(func(j int, found map[string]bool) bool {
		return vf.ForallKeys(found, func(u string) bool {
			return vf.Exists(0, j, func(m int) bool { return (*l)[m].URI == u })
		})
	})
	vf.LoopInv(func(k int, found map[string]bool) bool {
		return vf.Forall(0, k, func(i int) bool { return found[old[i].URI] })
	})
	vf.LoopInv(func(j, k int) bool {
		return vf.Forall(0, j, func(m int) bool { return vf.Exists(0, k, func(i int) bool { return (*l)[m] == old[i] }) })
	})
	vf.LoopInv(func(j int) bool {
		return vf.Forall(0, j, func(a int) bool {
			return vf.Forall(0, a, func(b int) bool { return (*l)[a].URI != (*l)[b].URI })
		})
	})
	r := l.RemoveDups()
	vf.Ensures("returns-the-list", vf.SameArray(r, *l) && len(r) == len(*l))
	vf.Ensures("distinct", vf.Forall(0, len(r), func(a int) bool {
		return vf.Forall(0, a, func(b int) bool { return r[a].URI != r[b].URI })
	}))
	vf.Ensures("no-uri-lost", vf.Forall(0, len(old), func(i int) bool {
		return vf.Exists(0, len(r), func(m int) bool { return r[m].URI == old[i].URI })
	}))
	vf.Ensures("nothing-new", vf.Forall(0, len(r), func(m int) bool {
		return r[m] != nil && vf.Exists(0, len(old), func(i int) bool { return r[m] == old[i] })
	}))
}

//vf:bounded (*NamespaceList).RemoveDups
//vf:also
//vf:reason counting with a quantified predicate is out of the solvers' reach
//vf:property P10
func spec_NamespaceList_RemoveDups_order(l *NamespaceList) {
	vf.Requires(l != nil && spec_nsNoNil(*l))
	old := vf.Snap(*l)
	vf.Modifies(l, *l)
	first := func(i int) bool { return vf.Forall(0, i, func(j int) bool { return old[j].URI != old[i].URI }) }
	r := l.RemoveDups()
	vf.Ensures("one-per-uri", len(r) == vf.Count(0, len(old), first))
	vf.Ensures("the-first-of-each-uri-in-order", vf.Forall(0, len(old), func(i int) bool {
		return !first(i) || r[vf.Count(0, i, first)] == old[i]
	}))
}

//vf:verify ParseNamespaceGroup
//vf:property P10
func spec_ParseNamespaceGroup(s string) {
	g := ParseNamespaceGroup(s)
	known := s == "xmp" || s == "image" || s == "music" || s == "movie" || s == "sound" || s == "camera" || s == "vfx" || s == "rights"
	vf.Ensures("the-group-of-that-name", known && string(g) == s || !known && g == NoMetadata)
}

//vf:verify GetNamespace
//vf:property P10
func spec_GetNamespace(prefix string) {
	vf.Requires(vf.Unlocked(&NsRegistry.m))
	want, ok := NsRegistry.nsNameMap[prefix]
	vf.Modifies(&NsRegistry.m)
	ns, err := GetNamespace(prefix)
	vf.Ensures("unlocked", vf.Unlocked(&NsRegistry.m))
	vf.Ensures("found-iff-registered", (err == nil) == ok)
	vf.Ensures("the-registered-one", ns == want)
}

//vf:verify (NamespaceGroup).Namespaces
//vf:property P10
func spec_NamespaceGroup_Namespaces(g NamespaceGroup) {
	vf.Requires(vf.Unlocked(&NsRegistry.m))
	want := NsRegistry.groupMap[g]
	vf.Modifies(&NsRegistry.m)
	l := g.Namespaces()
	vf.Ensures("unlocked", vf.Unlocked(&NsRegistry.m))
	vf.Ensures("registered-ones-in-order", len(l) == len(want) && vf.Forall(0, len(want), func(i int) bool { return l[i] == want[i] }))
	vf.Ensures("private-copy", vf.Fresh(l) && vf.DisjointArrays(l, want))
}

//vf:verify (NamespaceGroup).Contains
//vf:property P10
func spec_NamespaceGroup_Contains(g NamespaceGroup, ns *Namespace) {
	vf.Requires(ns != nil && vf.Unlocked(&NsRegistry.m))
	l := NsRegistry.groupMap[g]
	vf.Requires(spec_nsNoNil(l))
	vf.Modifies(&NsRegistry.m)
	vf.LoopInv(func(k int) bool { return vf.Forall(0, k, func(i int) bool { return l[i].Name != ns.Name }) })
	r := g.Contains(ns)
	vf.Ensures("unlocked", vf.Unlocked(&NsRegistry.m))
	vf.Ensures("iff-same-name", r == vf.Exists(0, len(l), func(i int) bool { return l[i].Name == ns.Name }))
}

//vf:verify (NamespaceGroupList).Contains
//vf:property P10
func spec_NamespaceGroupList_Contains(gl NamespaceGroupList, ns *Namespace) {
	vf.Requires(ns != nil && vf.Unlocked(&NsRegistry.m))
	vf.Requires(vf.ForallKeys(NsRegistry.groupMap, func(g NamespaceGroup) bool { return spec_nsNoNil(NsRegistry.groupMap[g]) }))
	in := func(g NamespaceGroup) bool {
		l := NsRegistry.groupMap[g]
		return vf.Exists(0, len(l), func(i int) bool { return l[i].Name == ns.Name })
	}
	vf.Modifies(&NsRegistry.m)
	vf.LoopInv(func() bool { return vf.Unlocked(&NsRegistry.m) })
	vf.LoopInv(func(k int) bool { return vf.Forall(0, k, func(i int) bool { return !in(gl[i]) }) })
	r := gl.Contains(ns)
	vf.Ensures("unlocked", vf.Unlocked(&NsRegistry.m))
	vf.Ensures("iff-some-group-has-it", r == vf.Exists(0, len(gl), func(i int) bool { return in(gl[i]) }))
}

// ---- filters

//vf:verify NewFilter
//vf:property P10
func spec_NewFilter(include, exclude NamespaceList) {
	f := NewFilter(include, exclude)
	vf.Ensures("new", f != nil && vf.Fresh(f))
	vf.Ensures("as-given", vf.SameArray(f.include, include) && len(f.include) == len(include) && vf.SameArray(f.exclude, exclude) && len(f.exclude) == len(exclude))
}

func spec_excludes(item string) bool { return item != "" && item[0] == '-' }

// the name an item selects; sp: a leading blank stands for '+'
func spec_itemName(item string, sp bool) string {
	if item != "" && (item[0] == '-' || item[0] == '+' || sp && item[0] == ' ') {
		return item[1:]
	}
	return item
}

// the list stands for the items of the given sign, in order; checked by executing
func spec_selects(l NamespaceList, s string, neg, sp bool) bool {
	k := 0
	for _, v := range strings.Split(s, ",") {
		if v == "" || spec_excludes(v) != neg {
			continue
		}
		name := spec_itemName(v, sp)
		if g := ParseNamespaceGroup(name); g != NoMetadata {
			for _, n := range NsRegistry.groupMap[g] {
				if k >= len(l) || l[k] != n {
					return false
				}
				k++
			}
			continue
		}
		if k >= len(l) {
			return false
		}
		if n, ok := NsRegistry.nsNameMap[name]; ok {
			if l[k] != n {
				return false
			}
		} else if l[k].Name != name || l[k].URI != "" || l[k].Factory != nil {
			return false
		}
		k++
	}
	return k == len(l)
}

func spec_unknownItem(s string) bool {
	for _, v := range strings.Split(s, ",") {
		if v == "" {
			continue
		}
		name := spec_itemName(v, false)
		if _, ok := NsRegistry.nsNameMap[name]; !ok && ParseNamespaceGroup(name) == NoMetadata {
			return true
		}
	}
	return false
}

func args_spec_ParseFilter_order(g *vf.Gen) string { return gen_filterText(g) }

//vf:bounded ParseFilter
//vf:also
//vf:reason the exact concatenation of group expansions needs sums over the items
//vf:property P10
func spec_ParseFilter_order(s string) {
	f := ParseFilter(s)
	vf.Ensures("includes-in-order", spec_selects(f.include, s, false, true))
	vf.Ensures("excludes-in-order", spec_selects(f.exclude, s, true, true))
}

func args_spec_ParseFilterStrict_order(g *vf.Gen) string { return gen_filterText(g) }

//vf:bounded ParseFilterStrict
//vf:also
//vf:reason the exact concatenation of group expansions needs sums over the items
//vf:property P10
func spec_ParseFilterStrict_order(s string) {
	f, err := ParseFilterStrict(s)
	vf.Ensures("error-iff-unknown", (err != nil) == spec_unknownItem(s) && (f == nil) == (err != nil))
	vf.Ensures("includes-in-order", err != nil || spec_selects(f.include, s, false, false))
	vf.Ensures("excludes-in-order", err != nil || spec_selects(f.exclude, s, true, false))
}

func spec_registryUsable() bool {
	return vf.Unlocked(&NsRegistry.m) && spec_regWF(&NsRegistry) &&
		vf.ForallKeys(NsRegistry.groupMap, func(g NamespaceGroup) bool { return spec_nsNoNil(NsRegistry.groupMap[g]) })
}

func spec_filterWF(f *Filter) bool {
	return (cap(f.include) == 0 || vf.Fresh(f.include)) && (cap(f.exclude) == 0 || vf.Fresh(f.exclude)) && vf.DisjointArrays(f.include, f.exclude) &&
		spec_nsNoNil(f.include) && spec_nsNoNil(f.exclude)
}

func args_spec_ParseFilter(g *vf.Gen) string { return gen_filterText(g) }

//vf:verify ParseFilter
//vf:property P10
func spec_ParseFilter(s string) {
	vf.Requires(spec_registryUsable())
	vf.Modifies(&NsRegistry.m)
	vf.LoopInv(func(f *Filter) bool { return f != nil && spec_filterWF(f) })
	vf.LoopInv(func() bool { return vf.Unlocked(&NsRegistry.m) })
	f := ParseFilter(s)
	vf.Ensures("new", f != nil && vf.Fresh(f))
	vf.Ensures("private-lists-without-nil", spec_filterWF(f))
	vf.Ensures("unlocked", vf.Unlocked(&NsRegistry.m))
}

// the item names a group or a registered namespace
func spec_knownItem(v string) bool {
	name := spec_itemName(v, false)
	_, ok := NsRegistry.nsNameMap[name]
	return ok || name == "xmp" || name == "image" || name == "music" || name == "movie" || name == "sound" || name == "camera" || name == "vfx" || name == "rights"
}

func args_spec_ParseFilterStrict(g *vf.Gen) string { return gen_filterText(g) }

//vf:verify ParseFilterStrict
//vf:property P10
func spec_ParseFilterStrict(s string) {
	vf.Requires(spec_registryUsable())
	vf.Modifies(&NsRegistry.m)
	items := strings.Split(s, ",")
	vf.LoopInv(func(f *Filter) bool { return f != nil && spec_filterWF(f) })
	vf.LoopInv(func() bool { return vf.Unlocked(&NsRegistry.m) })
	vf.LoopInv(func(k int) bool {
		return vf.Forall(0, k, func(i int) bool { return items[i] == "" || spec_knownItem(items[i]) })
	})
	f, err := ParseFilterStrict(s)
	vf.Ensures("filter-or-error", (f == nil) == (err != nil))
	vf.Ensures("private-lists-without-nil", err != nil || vf.Fresh(f) && spec_filterWF(f))
	vf.Ensures("accepted-only-if-known", err != nil || s == "" || vf.Forall(0, len(items), func(i int) bool { return items[i] == "" || spec_knownItem(items[i]) }))
	vf.Ensures("rejected-only-if-unknown", err == nil || vf.Exists(0, len(items), func(i int) bool { return items[i] != "" && !spec_knownItem(items[i]) }))
	vf.Ensures("unlocked", vf.Unlocked(&NsRegistry.m))
}

func gen_Filter(g *vf.Gen) Filter {
	f := Filter{}
	if g.Chance(70) {
		f.include = gen_NamespaceList(g)
	}
	if g.Chance(70) {
		f.exclude = gen_NamespaceList(g)
	}
	return f
}

//vf:verify (Filter).Apply
//vf:property P10
func spec_Filter_Apply(f Filter, d *Document) {
	vf.Requires(d != nil && spec_docWF(d) && spec_docTrees(d) && spec_regNames() && spec_nsNoNil(f.include))
	l0 := d.nodes
	old := vf.Snap(d.nodes)
	ins, exs := vf.Snap(d.intNsMap), vf.Snap(d.extNsMap)
	was := d.dirty
	names := vf.Collect(len(old), func(i int) string { return stripPrefix(old[i].XMLName.Local) })
	drop := func(n string) bool {
		return len(f.include) > 0 && !spec_nsNamed(f.include, n) || spec_nsNamed(f.exclude, n)
	}
	vf.Modifies(&d.nodes, &d.dirty, d.nodes, d.intNsMap, d.extNsMap, &npReturns, &npFrees, &NsRegistry.m)
	vf.ModifiesType((*Node)(nil))
	r := f.Apply(d)
	vf.Ensures("in-place", vf.SameArray(d.nodes, l0))
	vf.Ensures("true-iff-something-goes", r == (len(d.nodes) < len(old)))
	vf.Ensures("dirty-iff-removed", d.dirty == (was || r))
	vf.Ensures("included-and-not-excluded-stay", spec_onlyDropped(d, old, names, drop))
	vf.Ensures("namespaces-only-forgotten", spec_nsOnlyDropped(d, ins, exs))
	vf.Ensures("well-formed", spec_docWF(d))
	vf.Ensures("trees", spec_docTrees(d))
}

//vf:bounded (Filter).Apply
//vf:also
//vf:reason exactly which nodes go needs counting the nodes of each name
//vf:property P10
func spec_Filter_Apply_exact(f Filter, d *Document) {
	vf.Requires(d != nil && spec_docWF(d) && spec_docTrees(d) && spec_regNames() && spec_nsNoNil(f.include))
	vf.Requires(vf.Forall(0, len(d.nodes), func(i int) bool {
		return d.nodes[i].XMLName.Space == "" && !strings.Contains(d.nodes[i].XMLName.Local, ":") &&
			vf.Forall(0, i, func(j int) bool { return d.nodes[i].XMLName != d.nodes[j].XMLName })
	}))
	old := vf.Snap(d.nodes)
	stays := vf.Collect(len(old), func(i int) bool {
		n := old[i].XMLName.Local
		return (len(f.include) == 0 || d.findNsByPrefix(n) == nil || spec_nsNamed(f.include, n)) && !spec_nsNamed(f.exclude, n)
	})
	vf.ModifiesAll()
	r := f.Apply(d)
	n := vf.Count(0, len(old), func(i int) bool { return stays[i] })
	vf.Ensures("true-iff-something-goes", r == (n < len(old)))
	vf.Ensures("selected-ones-stay-in-order", len(d.nodes) == n && vf.Forall(0, len(old), func(i int) bool {
		return !stays[i] || d.nodes[vf.Count(0, i, func(j int) bool { return stays[j] })] == old[i]
	}))
}

func args_spec_Filter_UnmarshalText(g *vf.Gen) (*Filter, []byte) {
	f := gen_Filter(g)
	return &f, []byte(gen_filterText(g))
}

//vf:bounded (*Filter).UnmarshalText
//vf:reason the exact concatenation of group expansions needs sums over the items
//vf:property P10
func spec_Filter_UnmarshalText(f *Filter, b []byte) {
	vf.Requires(f != nil)
	vf.ModifiesAll()
	err := f.UnmarshalText(b)
	vf.Ensures("accepts-everything", err == nil)
	vf.Ensures("includes-in-order", spec_selects(f.include, string(b), false, true))
	vf.Ensures("excludes-in-order", spec_selects(f.exclude, string(b), true, true))
}

//vf:bounded (Filter).String
//vf:reason joins formatted text
//vf:property P10
func spec_Filter_String(f Filter) {
	plain := func(l NamespaceList) bool {
		return vf.Forall(0, len(l), func(i int) bool {
			return l[i] != nil && !strings.Contains(l[i].Name, ",") && ParseNamespaceGroup(l[i].Name) == NoMetadata
		})
	}
	vf.Requires(plain(f.include) && plain(f.exclude))
	s := f.String()
	r := ParseFilter(s)
	same := func(a, b NamespaceList) bool {
		return len(a) == len(b) && vf.Forall(0, len(a), func(i int) bool { return a[i].Name == b[i].Name })
	}
	vf.Ensures("parses-to-the-same-names", same(r.include, f.include) && same(r.exclude, f.exclude))
}
