SEEDS = {}
def T(body, imports=("testing",), pre=""):
    return "package xmp\n\nimport (\n" + "".join(f'\t"{i}"\n' for i in imports) + ")\n\n" + pre + "\nfunc TestSeededDemo(t *testing.T) {\n" + body + "\n}\n"

SEEDS["p01-set-drops-default"] = dict(property="P01", edits=[["xmp/array.go",
"""		(*a)[i].Value = value
	} else {""",
"""		(*a)[i] = AltItem{Value: value, Lang: lang}
	} else {"""]],
test=T('''	a := NewAltString(AltItem{Value: "one", Lang: "en", IsDefault: true}, AltItem{Value: "zwei", Lang: "de"})
	a.Set("en", "uno")
	if !a[0].IsDefault || a.Default() != "uno" {
		t.Fatalf("no default left: %+v", a)
	}'''),
needs="setting the value of the language that is the default", breaks="no item is the default any more")

SEEDS["p01-adddefault-clears-head-only"] = dict(property="P01", edits=[["xmp/array.go",
"""	for i, l := 0, len(*a); i < l; i++ {
		(*a)[i].IsDefault = false
	}
""",
"""	for i := range *a {
		if (*a)[i].IsDefault {
			(*a)[i].IsDefault = (*a)[i].Lang == lang
		}
	}
"""]],
test=T('''	a := NewAltString(AltItem{Value: "one", Lang: "en", IsDefault: true}, AltItem{Value: "zwei", Lang: "de"})
	a.AddDefault("en", "uno")
	n := 0
	for _, v := range a {
		if v.IsDefault {
			n++
		}
	}
	if n != 1 {
		t.Fatalf("%d defaults: %+v", n, a)
	}'''),
needs="AddDefault with the language the present default already has", breaks="two items are marked default")

SEEDS["p02-addunique-last-only"] = dict(property="P02", edits=[["xmp/array.go",
"""func (x *StringList) AddUnique(v string) error {
	if v == "" {
		return nil
	}
	if !x.Contains(v) {""",
"""func (x *StringList) AddUnique(v string) error {
	if v == "" {
		return nil
	}
	if n := len(*x); n == 0 || (*x)[n-1] != v {"""]],
test=T('''	l := NewStringList("a", "b")
	l.AddUnique("a")
	if len(l) != 2 {
		t.Fatalf("duplicate added: %v", l)
	}'''),
needs="adding a value that is present, but not as the last element", breaks="AddUnique adds a duplicate")

SEEDS["p03-after-major"] = dict(property="P03", edits=[["xmp/semver.go",
"(v.Major == a.Major && v.Minor == a.Minor && v.Patch > a.Patch)", "(v.Major >= a.Major-1 && v.Minor == a.Minor && v.Patch > a.Patch)"]],
test=T('''	a, b := Version{1, 2, 5}, Version{2, 2, 3}
	if a.After(b) || !a.Before(b) {
		t.Fatal("1.2.5 must not come after 2.2.3")
	}'''),
needs="versions with adjacent majors, equal minors and a larger patch in the older one", breaks="a version is both before and after another")

SEEDS["p04-pop-root"] = dict(property="P04", edits=[["xmp/path.go",
"""	f := x.Fields()
	f = append(f, segment...)
	return NewPath(x.NamespacePrefix(), f...)""",
"""	f := x.Fields()
	for _, s := range segment {
		if n := len(f); n > 0 && f[n-1] == s {
			continue
		}
		f = append(f, s)
	}
	return NewPath(x.NamespacePrefix(), f...)"""]],
test=T('''	p := NewPath("a", "x").Push("x")
	if p.Len() != 2 {
		t.Fatalf("pushed segment lost: %v", p)
	}'''),
needs="pushing a segment equal to the last one", breaks="Push drops a segment, so Push followed by Pop is not the identity")

SEEDS["p05-find-last"] = dict(property="P05", edits=[["xmp/path.go",
"""	for _, v := range x {
		if v.Path == p {
			return &v
		}
	}
	return nil
}

// assumes""",
"""	for i := len(x) - 1; i >= 0; i-- {
		if x[i].Path == p {
			v := x[i]
			return &v
		}
	}
	return nil
}

// assumes"""]],
test=T('''	l := PathValueList{{Path: "a:b", Value: "1"}, {Path: "a:c", Value: "2"}, {Path: "a:b", Value: "3"}}
	if v := l.Find("a:b"); v == nil || v.Value != "1" {
		t.Fatalf("not the first: %v", v)
	}'''),
needs="a list with two entries for one path", breaks="Find returns the last entry instead of the first")

SEEDS["p06-flags-stop"] = dict(property="P06", edits=[["xmp/sync.go",
"""		f := ParseSyncFlag(strings.ToLower(v))
		if f == 0 {""",
"""		f := ParseSyncFlag(strings.ToLower(v))
		if f == 0 && flags == 0 {"""]],
test=T('''	if f, err := ParseSyncFlags("create,bogus"); err == nil {
		t.Fatalf("unknown flag accepted: %v", f)
	}'''),
needs="an unknown flag after a known one", breaks="an unknown flag name is accepted silently")

SEEDS["p08-packet-alias"] = dict(property="P08", edits=[["xmp/reader.go",
"""			x := make([]byte, len(b))
			copy(x, b)
			packets = append(packets, x)""",
"""			packets = append(packets, b[:len(b):len(b)])"""]],
test=T('''	one := func(s string) string {
		return "<?xpacket begin=\\"\\" id=\\"W5M0MpCehiHzreSzNTczkc9d\\"?>" + s + "<?xpacket end=\\"w\\"?>"
	}
	var want []string
	src := ""
	for i := 0; i < 6; i++ {
		p := one(strings.Repeat(string(rune('a'+i)), 1500))
		want = append(want, p)
		src += p + strings.Repeat(" ", 100)
	}
	got, err := ScanPackets(strings.NewReader(src))
	if err != nil || len(got) != len(want) {
		t.Fatal(err, len(got))
	}
	for i := range want {
		if string(got[i]) != want[i] {
			t.Fatalf("packet %d overwritten", i)
		}
	}''', ("strings", "testing")),
needs="several packets whose total exceeds the scanner's buffer", breaks="earlier packets are overwritten by later reads")

SEEDS["p09-count-first"] = dict(property="P09", edits=[["xmp/marshal.go",
"""		w.n += copied
		if err != nil {
			return int(copied), err
		}""",
"""		if err != nil {
			return int(copied), err
		}
		w.n += copied"""]],
test=T('''	w := newCountWriter(&halfWriter{})
	w.limit = 10
	n, err := w.Write([]byte("12345678"))
	if err == nil || n != 4 || w.n != 4 {
		t.Fatalf("wrote %d, counted %d, err %v", n, w.n, err)
	}''', ("errors", "testing"), '''type halfWriter struct{}

func (halfWriter) Write(b []byte) (int, error) { return len(b) / 2, errors.New("short") }
'''),
needs="a sink that fails part-way through a write under a limit", breaks="bytes that reached the sink are not counted")

SEEDS["p10-apply-exclusive"] = dict(property="P10", edits=[["xmp/filter.go",
"""	if len(x.exclude) > 0 {
		r := d.RemoveNamespaces(x.exclude)
		removed = removed || r
	}""",
"""	if len(x.exclude) > 0 && !removed {
		r := d.RemoveNamespaces(x.exclude)
		removed = removed || r
	}"""]],
test=T('''	a, b, c := &Namespace{Name: "qa", URI: "u:qa"}, &Namespace{Name: "qb", URI: "u:qb"}, &Namespace{Name: "qc", URI: "u:qc"}
	d := NewDocument()
	for _, ns := range []*Namespace{a, b, c} {
		d.extNsMap[ns.URI] = ns
		d.nodes = append(d.nodes, NewNode(NewName(ns.Name)))
	}
	NewFilter(NamespaceList{a, b}, NamespaceList{b}).Apply(d)
	if len(d.nodes) != 1 || d.nodes[0].Name() != "qa" {
		t.Fatalf("excluded namespace survived: %d nodes", len(d.nodes))
	}'''),
needs="a filter whose include list removes something and whose exclude list names an included namespace", breaks="an excluded namespace stays")

SEEDS["p11-group-lock"] = dict(property="P11", edits=[["xmp/registry.go",
"""	r.m.RLock()
	defer r.m.RUnlock()
	if l, ok := r.groupMap[group]; ok {
		v := make(NamespaceList, len(l))
		copy(v, l)
		return v, nil
	}
""",
"""	r.m.RLock()
	if l, ok := r.groupMap[group]; ok {
		defer r.m.RUnlock()
		v := make(NamespaceList, len(l))
		copy(v, l)
		return v, nil
	}
"""]],
test=T('''	NsRegistry.GetGroupNamespaces("no such group")
	done := make(chan bool)
	go func() {
		NsRegistry.RegisterNamespace(&Namespace{Name: "qz", URI: "u:qz"}, nil)
		done <- true
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("registry is locked for good")
	}''', ("testing", "time")),
needs="a query for an unregistered group before a namespace is registered", breaks="the registry's lock is never released")

SEEDS["p11-groups-alias"] = dict(property="P11", edits=[["xmp/registry.go",
"""		v := make(NamespaceList, len(l))
		copy(v, l)
		return v, nil""",
"""		return l[:len(l):len(l)], nil"""]],
test=T('''	NsRegistry.RegisterNamespace(&Namespace{Name: "qy", URI: "u:qy"}, NamespaceGroupList{VfxMetadata})
	l, _ := NsRegistry.GetGroupNamespaces(VfxMetadata)
	l[0] = nil
	m, _ := NsRegistry.GetGroupNamespaces(VfxMetadata)
	if m[0] == nil {
		t.Fatal("a caller can change the registry through the list it was given")
	}'''),
needs="a caller that changes the list it got", breaks="the list returned is the registry's own")

SEEDS["p12-addattr-name"] = dict(property="P12", edits=[["xmp/node.go",
"""		if n.Attr[i].Name.Local == attr.Name.Local {
			n.Attr[i].Value = attr.Value
			return
		}""",
"""		if stripPrefix(n.Attr[i].Name.Local) == stripPrefix(attr.Name.Local) {
			n.Attr[i].Value = attr.Value
			return
		}"""]],
test=T('''	n := NewNode(NewName("a"))
	n.AddStringAttr("x:lang", "1")
	n.AddStringAttr("y:lang", "2")
	if len(n.Attr) != 2 || n.Attr[0].Value != "1" {
		t.Fatalf("attribute overwritten: %v", n.Attr)
	}'''),
needs="two attributes with the same local part under different prefixes", breaks="an attribute of another name is overwritten")

SEEDS["p13-close-keeps-storage"] = dict(property="P13", edits=[["xmp/node.go",
"""	n.XMLName = xml.Name{}
	n.Attr = nil
	n.Nodes = nil
	n.Model = nil""",
"""	n.XMLName = xml.Name{}
	n.Attr = n.Attr[:0]
	n.Nodes = nil
	n.Model = nil"""], ["xmp/node.go",
"""		atomic.AddInt64(&npHits, 1)
		n.XMLName = name
		n.Attr = nil
""",
"""		atomic.AddInt64(&npHits, 1)
		n.XMLName = name
"""]],
test=T('''	for len(nodePool) > 0 {
		<-nodePool
	}
	n := NewNode(NewName("a"))
	n.AddStringAttr("x", "1")
	kept := n.Attr
	n.Close()
	m := NewNode(NewName("b"))
	m.AddStringAttr("y", "2")
	if kept[0].Value != "1" {
		t.Fatalf("a closed node's attributes were overwritten through the pool: %v", kept)
	}'''),
needs="a node taken from the pool after one whose attribute list is still referenced was closed", breaks="attribute storage is shared between a closed node's attributes and a new node")

SEEDS["p13-copy-shares-attr"] = dict(property="P13", edits=[["xmp/node.go",
"""	n.Attr = make([]Attr, len(x.Attr))
	copy(n.Attr, x.Attr)
""",
"""	n.Attr = append(x.Attr[:0:len(x.Attr)], x.Attr...)
"""]],
test=T('''	n := NewNode(NewName("a"))
	n.AddStringAttr("x", "1")
	c := copyNode(n)
	c.Attr[0].Value = "2"
	if n.Attr[0].Value != "1" {
		t.Fatal("copy shares attributes with the original")
	}'''),
needs="a change of an attribute of the copy", breaks="the copy shares its attributes with the original")

SEEDS["p14-remove-forgets-ext"] = dict(property="P14", edits=[["xmp/document.go",
"""			delete(d.intNsMap, ns.GetURI())
			delete(d.extNsMap, ns.GetURI())
			v.Close()""",
"""			if _, ok := d.intNsMap[ns.GetURI()]; ok {
				delete(d.intNsMap, ns.GetURI())
			} else {
				delete(d.extNsMap, ns.GetName())
			}
			v.Close()"""]],
test=T('''	a := &Namespace{Name: "qa", URI: "u:qa"}
	d := NewDocument()
	d.extNsMap[a.URI] = a
	d.nodes = append(d.nodes, NewNode(NewName("qa")))
	if !d.RemoveNamespace(a) || d.findNsByURI("u:qa") != nil {
		t.Fatal("removed namespace is still known")
	}'''),
needs="removal of a namespace the document knows as external", breaks="the namespace stays known to the document after its node is gone")

SEEDS["p14-addmodel-second-ns"] = dict(property="P14", edits=[["xmp/document.go",
"""	n := d.FindNode(ns[0])
	if n == nil {""",
"""	n := d.FindNode(ns[len(ns)-1])
	if n == nil {"""]],
test=T('''	d := NewDocument()
	first, _ := d.AddModel(demoModel{"qa"})
	first.Value = "kept"
	n, err := d.AddModel(demoModel{"qb", "qa"})
	if err != nil || n == first || n.Name() != "qb" {
		t.Fatalf("model stored on the node of another namespace: %v", n.Name())
	}''', ("testing",), '''type demoModel []string

func (m demoModel) Can(n string) bool { return n == m[0] }
func (m demoModel) Namespaces() NamespaceList {
	var l NamespaceList
	for _, v := range m {
		l = append(l, &Namespace{Name: v, URI: "u:" + v})
	}
	return l
}
func (m demoModel) SyncFromXMP(d *Document) error     { return nil }
func (m demoModel) SyncToXMP(d *Document) error       { return nil }
func (m demoModel) SyncModel(d *Document) error       { return nil }
func (m demoModel) CanTag(tag string) bool            { return false }
func (m demoModel) GetTag(tag string) (string, error) { return "", nil }
func (m demoModel) SetTag(tag, value string) error    { return nil }
'''),
needs="a model with several namespaces whose last one already has a node", breaks="the model replaces the model of another namespace's node")
