//go:build go1.21

package xmp

import (
	"reflect"

	vf "github.com/trimmer-io/go-xmp/verifdsl"
)

//vf:guard Registry.nsNameMap m
//vf:guard Registry.nsUriMap m
//vf:guard Registry.groupMap m
//vf:guard tinfoNsMap tinfoLock
//vf:guard tinfoMap tinfoLock
//vf:guard npHits atomic
//vf:guard npAllocs atomic
//vf:guard npReturns atomic
//vf:guard npFrees atomic

func spec_regWF(r *Registry) bool {
	return vf.ForallKeys(r.nsNameMap, func(k string) bool { return r.nsNameMap[k] != nil }) &&
		vf.ForallKeys(r.nsUriMap, func(k string) bool { return r.nsUriMap[k] != nil })
}

func gen_Registry(g *vf.Gen) *Registry {
	r := &Registry{nsNameMap: map[string]*Namespace{}, nsUriMap: map[string]*Namespace{}, groupMap: map[NamespaceGroup]NamespaceList{}}
	for n := g.N(5); n > 0; n-- {
		ns := gen_Namespace(g)
		r.nsNameMap[ns.Name] = ns
		r.nsUriMap[ns.URI] = ns
		for _, grp := range gen_groups(g) {
			r.groupMap[grp] = append(r.groupMap[grp], ns)
		}
	}
	return r
}

func gen_groups(g *vf.Gen) NamespaceGroupList {
	var l NamespaceGroupList
	for n := g.N(4); n > 0; n-- {
		l = append(l, NamespaceGroup(g.Pick("", "xmp", "image", "music", "other")))
	}
	return l
}

func gen_Namespace(g *vf.Gen) *Namespace {
	return &Namespace{Name: g.Pick("a", "b", "c", "dc", "xmp", "image", "-x", ""), URI: g.Pick("u:a", "u:b", "u:c", "u:d", "u:e", "")}
}

// no two groups share the storage of their lists
func spec_groupsApart(m map[NamespaceGroup]NamespaceList) bool {
	return vf.ForallKeys(m, func(a NamespaceGroup) bool {
		return vf.ForallKeys(m, func(b NamespaceGroup) bool { return a == b || vf.DisjointArrays(m[a], m[b]) })
	})
}

//vf:verify (*Registry).RegisterNamespace
//vf:opt candms=6000
//vf:property P11
func spec_RegisterNamespace(r *Registry, ns *Namespace, groups NamespaceGroupList) {
	vf.Requires(r != nil && ns != nil && r.nsNameMap != nil && r.nsUriMap != nil && r.groupMap != nil)
	vf.Requires(!vf.SameMap(r.nsNameMap, r.nsUriMap))
	vf.Requires(vf.Unlocked(&r.m) && spec_groupsApart(r.groupMap))
	names, uris, grps := vf.Snap(r.nsNameMap), vf.Snap(r.nsUriMap), vf.Snap(r.groupMap)
	gs := vf.Snap(groups)
	vf.LoopInv(func(int) bool { return spec_groupsApart(r.groupMap) })
	vf.LoopInv(func(i int) bool {
		return vf.ForallKeys(grps, func(k NamespaceGroup) bool {
			_, has := r.groupMap[k]
			return has && len(r.groupMap[k]) >= len(grps[k])
		})
	})
	vf.LoopInv(func(i int) bool {
		return vf.ForallKeys(r.groupMap, func(k NamespaceGroup) bool {
			_, had := grps[k]
			return had || vf.Exists(0, i, func(j int) bool { return gs[j] == k && k != NoMetadata })
		})
	})
	vf.LoopInv(func(i int) bool {
		return vf.Forall(0, i, func(j int) bool {
			l, has := r.groupMap[gs[j]]
			return gs[j] == NoMetadata || has && len(l) > 0 && l[len(l)-1] == ns
		})
	})
	vf.LoopInv(func(i int) bool {
		return vf.ForallKeys(grps, func(k NamespaceGroup) bool {
			return len(r.groupMap[k]) == len(grps[k]) || vf.Exists(0, i, func(j int) bool { return gs[j] == k && k != NoMetadata })
		})
	})
	vf.Modifies(r.nsNameMap, r.nsUriMap, r.groupMap, &r.m)
	vf.ModifiesElems(NamespaceList(nil))
	r.RegisterNamespace(ns, groups)
	vf.Ensures("unlocked", vf.Unlocked(&r.m))
	vf.Ensures("found-by-prefix", r.nsNameMap[ns.Name] == ns)
	vf.Ensures("found-by-uri", r.nsUriMap[ns.URI] == ns)
	vf.Ensures("other-prefixes-kept", vf.ForallKeys(names, func(k string) bool { return k == ns.Name || r.nsNameMap[k] == names[k] }))
	vf.Ensures("no-other-prefixes", vf.ForallKeys(r.nsNameMap, func(k string) bool {
		_, had := names[k]
		return had || k == ns.Name
	}))
	vf.Ensures("other-uris-kept", vf.ForallKeys(uris, func(k string) bool { return k == ns.URI || r.nsUriMap[k] == uris[k] }))
	vf.Ensures("no-other-uris", vf.ForallKeys(r.nsUriMap, func(k string) bool {
		_, had := uris[k]
		return had || k == ns.URI
	}))
	n := len(gs)
	vf.Ensures("groups-apart", spec_groupsApart(r.groupMap))
	vf.Ensures("groups-kept", vf.ForallKeys(grps, func(k NamespaceGroup) bool {
		_, has := r.groupMap[k]
		return has && len(r.groupMap[k]) >= len(grps[k])
	}))
	vf.Ensures("listed-in-groups", vf.Forall(0, n, func(j int) bool {
		l, has := r.groupMap[gs[j]]
		return gs[j] == NoMetadata || has && len(l) > 0 && l[len(l)-1] == ns
	}))
	vf.Ensures("only-named-groups", vf.ForallKeys(r.groupMap, func(k NamespaceGroup) bool {
		_, had := grps[k]
		return had && len(r.groupMap[k]) == len(grps[k]) || vf.Exists(0, n, func(j int) bool { return gs[j] == k && k != NoMetadata })
	}))
}

//vf:verify (*Registry).GetNamespace
//vf:property P11
func spec_Registry_GetNamespace(r *Registry, prefix string) {
	vf.Requires(r != nil && vf.Unlocked(&r.m))
	want, ok := r.nsNameMap[prefix]
	vf.Modifies(&r.m)
	ns, err := r.GetNamespace(prefix)
	vf.Ensures("unlocked", vf.Unlocked(&r.m))
	vf.Ensures("found-iff-registered", (err == nil) == ok)
	vf.Ensures("the-registered-one", ns == want)
}

//vf:verify (*Registry).GetPrefix
//vf:property P11
func spec_Registry_GetPrefix(r *Registry, uri string) {
	vf.Requires(r != nil && vf.Unlocked(&r.m) && spec_regWF(r))
	want, ok := r.nsUriMap[uri]
	vf.Modifies(&r.m)
	name := r.GetPrefix(uri)
	vf.Ensures("unlocked", vf.Unlocked(&r.m))
	vf.Ensures("name-of-the-registered", !ok && name == "" || ok && name == want.Name)
}

//vf:verify (*Registry).Short
//vf:property P11
func spec_Registry_Short(r *Registry, uri, name string) {
	vf.Requires(r != nil && vf.Unlocked(&r.m) && spec_regWF(r))
	ns, ok := r.nsUriMap[uri]
	vf.Modifies(&r.m)
	s := r.Short(uri, name)
	vf.Ensures("unlocked", vf.Unlocked(&r.m))
	known := ok && ns.Name != ""
	vf.Ensures("prefixed-iff-registered", known && s == ns.Name+":"+name || !known && s == name)
}

//vf:verify (*Registry).GetGroupNamespaces
//vf:property P11
func spec_Registry_GetGroupNamespaces(r *Registry, group NamespaceGroup) {
	vf.Requires(r != nil && vf.Unlocked(&r.m))
	want, ok := r.groupMap[group]
	vf.Modifies(&r.m)
	l, err := r.GetGroupNamespaces(group)
	vf.Ensures("unlocked", vf.Unlocked(&r.m))
	vf.Ensures("found-iff-registered", (err == nil) == ok)
	vf.Ensures("nothing-on-error", ok || len(l) == 0)
	vf.Ensures("same-length", !ok || len(l) == len(want))
	vf.Ensures("same-elements", !ok || vf.Forall(0, len(want), func(i int) bool { return l[i] == want[i] }))
	vf.Ensures("private-copy", vf.Fresh(l) && vf.DisjointArrays(l, want))
}

//vf:verify (*Registry).Namespaces
//vf:property P11
func spec_Registry_Namespaces(r *Registry) {
	vf.Requires(r != nil && vf.Unlocked(&r.m))
	uris := r.nsUriMap
	vf.Modifies(&r.m)
	vf.LoopInv(func(l NamespaceList) bool {
		return vf.Forall(0, len(l), func(i int) bool {
			return vf.ExistsKey(uris, func(k string) bool { return uris[k] == l[i] })
		})
	})
	l := r.Namespaces()
	vf.Ensures("unlocked", vf.Unlocked(&r.m))
	vf.Ensures("only-registered", vf.Forall(0, len(l), func(i int) bool {
		return vf.ExistsKey(uris, func(k string) bool { return uris[k] == l[i] })
	}))
	vf.Ensures("private", vf.Fresh(l))
}

//vf:verify (*Registry).Prefixes
//vf:property P11
func spec_Registry_Prefixes(r *Registry) {
	vf.Requires(r != nil && vf.Unlocked(&r.m))
	names := r.nsNameMap
	vf.Modifies(&r.m)
	vf.LoopInv(func(l []string) bool {
		return vf.Forall(0, len(l), func(i int) bool {
			_, ok := names[l[i]]
			return ok
		})
	})
	l := r.Prefixes()
	vf.Ensures("unlocked", vf.Unlocked(&r.m))
	vf.Ensures("only-registered", vf.Forall(0, len(l), func(i int) bool {
		_, ok := names[l[i]]
		return ok
	}))
	vf.Ensures("private", vf.Fresh(l))
}

//vf:trusted structFieldInfo
//vf:reason reads struct tags through reflect
//vf:norun
func spec_structFieldInfo(typ reflect.Type, f *reflect.StructField, ns string) {
	finfo, err := structFieldInfo(typ, f, ns)
	vf.Ensures("result-or-error", (err == nil) == (finfo != nil))
}

//vf:trusted addFieldInfo
//vf:reason reads struct tags through reflect
//vf:norun
func spec_addFieldInfo(typ reflect.Type, tinfo *typeInfo, newf *fieldInfo, ns string) {
	vf.Requires(tinfo != nil && newf != nil)
	vf.Modifies(tinfo)
	addFieldInfo(typ, tinfo, newf, ns)
}

// Nothing else is assumed about the types described by reflect.

//vf:iface reflect.Type.Kind
//vf:norun
func spec_reflectKind(t reflect.Type) { t.Kind() }

//vf:iface reflect.Type.String
//vf:norun
func spec_reflectString(t reflect.Type) { _ = t.String() }

//vf:iface reflect.Type.NumField
//vf:norun
func spec_reflectNumField(t reflect.Type) {
	n := t.NumField()
	vf.Ensures("range", 0 <= n && n < 1<<32)
}

//vf:iface reflect.Type.Field
//vf:norun
func spec_reflectField(t reflect.Type, i int) {
	f := t.Field(i)
	vf.Ensures("has-a-type", f.Type != nil)
}

//vf:iface reflect.Type.Elem
//vf:norun
func spec_reflectElem(t reflect.Type) {
	e := t.Elem()
	vf.Ensures("has-an-element-type", e != nil)
}

//vf:trusted reflect:TypeOf
//vf:norun
func spec_reflect_TypeOf(i interface{}) {
	t := reflect.TypeOf(i)
	vf.Ensures("not-nil", i == nil || t != nil)
}

//vf:trusted reflect:(StructTag).Get
//vf:norun
func spec_StructTag_Get(t reflect.StructTag, key string) { _ = t.Get(key) }

type genInner struct{ A, B string }

func gen_reflectType(g *vf.Gen) reflect.Type {
	switch g.N(5) {
	case 0:
		return reflect.TypeOf(0)
	case 1:
		return reflect.TypeOf(genInner{})
	case 2:
		return reflect.TypeOf(struct {
			genInner
			C int `xmp:"x:c"`
		}{})
	case 3:
		return reflect.TypeOf(struct {
			C int `xmp:"x:c,attr,nosuchflag"`
			D int `xmp:"-"`
		}{})
	}
	return reflect.TypeOf(struct {
		*genInner
		A string `dc:"dc:a"`
	}{})
}

// the cached maps exist and hold no nil entries
func spec_tinfoWF() bool {
	return vf.ForallKeys(tinfoNsMap, func(ns string) bool {
		m := tinfoNsMap[ns]
		return m != nil && vf.ForallKeys(m, func(t reflect.Type) bool { return m[t] != nil })
	})
}

//vf:verify getTypeInfo
//vf:property P11
func spec_getTypeInfo(typ reflect.Type, ns string) {
	vf.Requires(typ != nil && vf.Unlocked(&tinfoLock))
	vf.Requires(tinfoNsMap != nil && spec_tinfoWF())
	vf.Modifies(&tinfoLock, tinfoNsMap)
	vf.ModifiesType((tinfoMap)(nil))
	vf.LoopInv(func() bool { return spec_tinfoWF() })
	vf.LoopInv(func(info *typeInfo) bool { return info != nil })
	info, err := getTypeInfo(typ, ns)
	vf.Ensures("cache-well-formed", spec_tinfoWF())
	vf.Ensures("unlocked", vf.Unlocked(&tinfoLock))
	vf.Ensures("result-or-error", (err == nil) == (info != nil))
}
