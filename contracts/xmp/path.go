//go:build go1.21

package xmp

import (
	"strconv"
	"strings"

	vf "github.com/trimmer-io/go-xmp/verifdsl"
)

// ---------------------------------------------------------------- prefixes

func spec_noColon(s string) bool { return !strings.Contains(s, ":") }

//vf:verify hasPrefix
//vf:opt opaque
//vf:property P04
func spec_hasPrefix(n string) {
	vf.Pure()
	vf.Deterministic()
	r := hasPrefix(n)
	vf.Ensures("colon-after-start", r == (strings.Contains(n, ":") && !strings.HasPrefix(n, ":")))
}

//vf:verify getPrefix
//vf:opt opaque
//vf:property P04
func spec_getPrefix(n string) {
	vf.Pure()
	vf.Deterministic()
	r := getPrefix(n)
	vf.Ensures("no-colon", !spec_noColon(n) || r == n)
	vf.Ensures("up-to-first-colon", spec_noColon(n) || spec_noColon(r) && strings.HasPrefix(n, r+":"))
}

//vf:verify stripPrefix
//vf:opt opaque
//vf:property P04
func spec_stripPrefix(n string) {
	vf.Pure()
	vf.Deterministic()
	r := stripPrefix(n)
	vf.Ensures("no-colon", !spec_noColon(n) || r == n)
	vf.Ensures("after-first-colon", spec_noColon(n) || n == n[:len(n)-len(r)-1]+":"+r && spec_noColon(n[:len(n)-len(r)-1]))
}

// ---------------------------------------------------------------- Path

// the text after the namespace prefix, without one leading slash
func spec_pathRest(x Path) string {
	s := string(x)
	i := strings.Index(s, ":")
	if i < 0 {
		return ""
	}
	return strings.TrimPrefix(s[i+1:], "/")
}

func spec_pathNs(x Path) string {
	s := string(x)
	i := strings.Index(s, ":")
	if i < 0 {
		return s
	}
	return s[:i]
}

//vf:verify Path.IsXmpPath
//vf:property P04
func spec_Path_IsXmpPath(x Path) {
	vf.Pure()
	r := x.IsXmpPath()
	vf.Ensures("has-colon", r == strings.Contains(string(x), ":"))
}

//vf:verify Path.NamespacePrefix
//vf:property P04
func spec_Path_NamespacePrefix(x Path) {
	vf.Pure()
	r := x.NamespacePrefix()
	vf.Ensures("up-to-first-colon", r == spec_pathNs(x))
}

//vf:verify Path.Len
//vf:property P04
func spec_Path_Len(x Path) {
	vf.Pure()
	r := x.Len()
	rest := spec_pathRest(x)
	vf.Ensures("none", rest != "" || r == 0)
	vf.Ensures("one-more-than-slashes", rest == "" || r == strings.Count(rest, "/")+1)
}

//vf:lemma
//vf:property P04
func lemma_Path_Len_Fields(x Path) {
	vf.Ensures("number-of-segments", x.Len() == len(x.Fields()))
}

//vf:verify Path.Fields
//vf:property P04
func spec_Path_Fields(x Path) {
	r := x.Fields()
	rest := spec_pathRest(x)
	vf.Ensures("none", rest != "" || len(r) == 0)
	vf.Ensures("segments", rest == "" || spec_seqEq(r, strings.Split(rest, "/")))
	vf.Ensures("joined", rest == "" || strings.Join(r, "/") == rest)
	vf.Ensures("new", vf.Fresh(r))
	vf.Ensures("no-slash", vf.Forall(0, len(r), func(i int) bool { return !strings.Contains(r[i], "/") }))
}

//vf:verify NewPath
//vf:property P04
func spec_NewPath(prefix string, segments ...string) {
	r := NewPath(prefix, segments...)
	vf.Ensures("joined", string(r) == prefix+":"+strings.Join(segments, "/"))
}

func spec_plainSegs(s []string) bool {
	return vf.Forall(0, len(s), func(i int) bool { return s[i] != "" && !strings.Contains(s[i], "/") })
}

//vf:verify Path.Push
//vf:property P04
func spec_Path_Push(x Path, segment ...string) {
	old := x.Fields()
	in := vf.Snap(segment)
	r := x.Push(segment...)
	vf.Ensures("text", string(r) == x.NamespacePrefix()+":"+strings.Join(append(old, in...), "/"))
}

//vf:verify Path.Pop
//vf:property P04
func spec_Path_Pop(x Path) {
	old := x.Fields()
	seg, r := x.Pop()
	n := len(old)
	vf.Ensures("empty", n != 0 || seg == "" && r == x)
	vf.Ensures("last", n == 0 || seg == old[n-1])
	vf.Ensures("text", n == 0 || string(r) == x.NamespacePrefix()+":"+strings.Join(old[:n-1], "/"))
}

//vf:verify Path.PopFront
//vf:property P04
func spec_Path_PopFront(x Path) {
	old := x.Fields()
	seg, r := x.PopFront()
	n := len(old)
	vf.Ensures("empty", n != 0 || seg == "" && r == x)
	own := n > 0 && hasPrefix(old[0])
	vf.Ensures("first", n == 0 || own || seg == old[0])
	vf.Ensures("first-own-prefix", n == 0 || !own || seg == stripPrefix(old[0]))
	vf.Ensures("text", n == 0 || own || string(r) == x.NamespacePrefix()+":"+strings.Join(old[1:], "/"))
	vf.Ensures("prefix-moved", n == 0 || !own || string(r) == getPrefix(old[0])+":"+strings.Join(old[1:], "/"))
}

//vf:boundedlemma
//vf:reason quantified equalities over Split/Join sequences are beyond the solvers
//vf:property P04
func lemma_Path_algebra(x Path, segment []string) {
	old := x.Fields()
	r := x.Push(segment...)
	now := r.Fields()
	vf.Ensures("push-same-prefix", spec_pathNs(r) == spec_pathNs(x))
	if spec_plainSegs(segment) && (len(old) == 0 || old[0] != "") {
		vf.Ensures("push-appends", spec_seqEq(now, append(append([]string{}, old...), segment...)))
		y := r
		for i := len(segment) - 1; i >= 0; i-- {
			var s string
			s, y = y.Pop()
			vf.Ensures("pop-returns-pushed", s == segment[i])
		}
		vf.Ensures("pop-undoes-push", spec_seqEq(y.Fields(), old) && spec_pathNs(y) == spec_pathNs(x))
	}
	seg, p := x.Pop()
	vf.Ensures("pop-same-prefix", spec_pathNs(p) == spec_pathNs(x))
	if n := len(old); n > 0 && (n == 1 || old[0] != "") {
		vf.Ensures("pop-drops-last", seg == old[n-1] && spec_seqEq(p.Fields(), old[:n-1]))
	}
	if n := len(old); n > 0 && (n == 1 || old[1] != "") {
		seg, p := x.PopFront()
		vf.Ensures("popfront-drops-first", spec_seqEq(p.Fields(), old[1:]))
		if hasPrefix(old[0]) {
			vf.Ensures("popfront-moves-prefix", getPrefix(old[0])+":"+seg == old[0] && spec_pathNs(p) == getPrefix(old[0]))
		} else {
			vf.Ensures("popfront-keeps-prefix", seg == old[0] && spec_pathNs(p) == spec_pathNs(x))
		}
	}
}

//vf:verify Path.PeekNamespacePrefix
//vf:property P04
func spec_Path_PeekNamespacePrefix(x Path) {
	f := x.Fields()
	r := x.PeekNamespacePrefix()
	vf.Ensures("own", len(f) == 0 || !hasPrefix(f[0]) || r == getPrefix(f[0]))
	vf.Ensures("path", len(f) > 0 && hasPrefix(f[0]) || r == spec_pathNs(x))
}

//vf:verify (*Path).UnmarshalText
//vf:property P04 P15
func spec_Path_UnmarshalText(x *Path, data []byte) {
	vf.Requires(x != nil)
	old := *x
	text := string(data)
	vf.Modifies(x)
	err := x.UnmarshalText(data)
	vf.Ensures("error-iff-no-colon", (err == nil) == strings.Contains(text, ":"))
	vf.Ensures("stored", err != nil || string(*x) == text)
	vf.Ensures("kept-on-error", err == nil || *x == old)
}

//vf:verify parsePathSegment
//vf:property P04
func spec_parsePathSegment(name string) {
	vf.Pure()
	k := strings.Index(name, "[")
	r, idx, lang := parsePathSegment(name)
	vf.Ensures("plain", k > 0 && len(name) > k+1 || r == name && idx == -1 && lang == "")
	if k > 0 && len(name) > k+1 {
		in := strings.TrimSuffix(name[k+1:], "]")
		n, err := strconv.Atoi(in)
		vf.Ensures("name", r == name[:k])
		vf.Ensures("empty-index", in != "" || idx == 0 && lang == "")
		vf.Ensures("index", in == "" || err != nil || idx == n && lang == "")
		vf.Ensures("language", in == "" || err == nil || idx == -1 && lang == in)
	}
}

// a plain segment name
func spec_plainName(s string) bool {
	return s != "" && !strings.Contains(s, "[") && !strings.Contains(s, "]") && !strings.Contains(s, "/") && !strings.Contains(s, ":")
}

//vf:verify Path.AppendIndex
//vf:property P04
func spec_Path_AppendIndex(x Path, i int) {
	r := x.AppendIndex(i)
	vf.Ensures("text", !strings.HasSuffix(string(x), "]") && string(r) == string(x)+"["+strconv.Itoa(i)+"]" ||
		strings.HasSuffix(string(x), "]") && string(r) == string(x)+"/["+strconv.Itoa(i)+"]")
}

//vf:verify Path.AppendIndexString
//vf:property P04
func spec_Path_AppendIndexString(x Path, s string) {
	r := x.AppendIndexString(s)
	vf.Ensures("text", !strings.HasSuffix(string(x), "]") && string(r) == string(x)+"["+s+"]" ||
		strings.HasSuffix(string(x), "]") && string(r) == string(x)+"/["+s+"]")
}

// an index appended to a plain segment parses back
//
//vf:boundedlemma
//vf:reason needs reasoning over Split of concatenations
//vf:property P04
func lemma_AppendIndex_parse(ns, seg string, i int) {
	vf.Requires(spec_plainName(seg) && spec_noColon(ns) && i >= 0)
	p := Path(ns + ":" + seg).AppendIndex(i)
	last, rest := p.Pop()
	name, idx, lang := parsePathSegment(last)
	vf.Ensures("parses-back", name == seg && idx == i && lang == "")
	vf.Ensures("rest-empty", rest.Len() == 0)
}

//vf:boundedlemma
//vf:reason needs reasoning over Split of concatenations
//vf:property P04
func lemma_AppendLang_parse(ns, seg, l string) {
	vf.Requires(spec_plainName(seg) && spec_noColon(ns) && l != "" && !strings.Contains(l, "]") && !strings.Contains(l, "[") && !strings.Contains(l, "/"))
	_, err := strconv.Atoi(l)
	vf.Requires(err != nil)
	p := Path(ns + ":" + seg).AppendIndexString(l)
	last, rest := p.Pop()
	name, idx, lang := parsePathSegment(last)
	vf.Ensures("parses-back", name == seg && idx == -1 && lang == l)
	vf.Ensures("rest-empty", rest.Len() == 0)
}

// ---------------------------------------------------------------- generators

func gen_Path(g *vf.Gen) Path {
	if g.Chance(25) {
		return Path(g.Str())
	}
	s := g.Str()
	if g.Chance(85) {
		s = g.Pick("dc", "xmp", "ns", "xmpDM", "a", "")
	}
	s += ":"
	if g.Chance(10) {
		s += "/"
	}
	n := g.N(4)
	for i := 0; i < n; i++ {
		if i > 0 {
			s += "/"
		}
		s += gen_segment(g)
	}
	return Path(s)
}

func gen_segment(g *vf.Gen) string {
	s := g.Pick("title", "creator", "a", "b", "seg", "x:y")
	if g.Chance(20) {
		s = g.Str()
	}
	switch g.N(6) {
	case 0:
		s += "[" + strconv.Itoa(int(g.Int())) + "]"
	case 1:
		s += "[" + g.Pick("en", "de", "x-default", "", "0", "1", "12", "-1") + "]"
	}
	return s
}

// ---------------------------------------------------------------- path/value lists

func spec_pvFirst(x PathValueList, p Path, k int) bool {
	return x[k].Path == p && vf.Forall(0, k, func(i int) bool { return x[i].Path != p })
}

func spec_pvHas(x PathValueList, p Path) bool {
	return vf.Exists(0, len(x), func(i int) bool { return x[i].Path == p })
}

//vf:verify (*PathValueList).Add
//vf:property P05
func spec_PathValueList_Add(x *PathValueList, p Path, v string) {
	vf.Requires(x != nil)
	old := vf.Snap(*x)
	vf.Modifies(x, *x)
	x.Add(p, v)
	n := len(old)
	vf.Ensures("empty-not-stored", v != "" || len(*x) == len(old))
	vf.Ensures("appended", v == "" || len(*x) == n+1 && (*x)[n] == PathValue{Path: p, Value: v})
	vf.Ensures("kept", vf.Forall(0, n, func(i int) bool { return (*x)[i] == old[i] }))
}

//vf:verify (*PathValueList).AddFlags
//vf:property P05
func spec_PathValueList_AddFlags(x *PathValueList, p Path, v string, f SyncFlags) {
	vf.Requires(x != nil)
	old := vf.Snap(*x)
	vf.Modifies(x, *x)
	x.AddFlags(p, v, f)
	n := len(old)
	vf.Ensures("empty-not-stored", v != "" || len(*x) == len(old))
	vf.Ensures("appended", v == "" || len(*x) == n+1 && (*x)[n] == PathValue{Path: p, Value: v, Flags: f})
	vf.Ensures("kept", vf.Forall(0, n, func(i int) bool { return (*x)[i] == old[i] }))
}

//vf:verify PathValueList.Find
//vf:property P05
func spec_PathValueList_Find(x PathValueList, p Path) {
	in := vf.Snap(x)
	vf.LoopInv(func(i int) bool { return vf.Forall(0, i, func(k int) bool { return in[k].Path != p }) })
	r := x.Find(p)
	vf.Ensures("nil-iff-absent", (r != nil) == spec_pvHas(in, p))
	vf.Ensures("first", r == nil || vf.Exists(0, len(in), func(k int) bool { return spec_pvFirst(in, p, k) && *r == in[k] }))
	vf.Ensures("copy", r == nil || vf.Fresh(r))
}

//vf:verify PathValueList.Unique
//vf:opt candms=10000 ms=20000
//vf:property P05
func spec_PathValueList_Unique(x PathValueList) {
	in := vf.Snap(x)
	vf.Requires(vf.Forall(0, len(in), func(i int) bool { return in[i].Path != "" }))
	keep := func(i int) bool { return i == 0 || in[i].Path != in[i-1].Path }
	vf.LoopInv(func(i int, last Path) bool { return vf.Implies(i > 0, last == in[i-1].Path) })
	vf.LoopInv(func(i int, last Path) bool { return vf.Implies(i == 0, last == "") })
	vf.LoopInv(func(i int, l PathValueList) bool { return len(l) == vf.Count(0, i, keep) })
	vf.LoopInv(func(i int, l PathValueList) bool {
		return vf.Forall(0, i, func(j int) bool { return !keep(j) || l[vf.Count(0, j, keep)] == in[j] })
	})
	r := x.Unique()
	vf.Ensures("length", len(r) == vf.Count(0, len(in), keep))
	vf.Ensures("first-of-each-run", vf.Forall(0, len(in), func(j int) bool { return !keep(j) || r[vf.Count(0, j, keep)] == in[j] }))
	vf.Ensures("new", vf.Fresh(r))
}

//vf:bounded PathValueList.Diff
//vf:reason the two counting loops with existential membership are beyond the solvers
//vf:property P05
func spec_PathValueList_Diff(x PathValueList, y PathValueList) {
	vf.Requires(len(x) > 0 && len(y) > 0)
	vf.Requires(vf.Forall(0, len(x), func(i int) bool { return x[i].Value != "" }))
	vf.Requires(vf.Forall(0, len(y), func(i int) bool { return y[i].Value != "" }))
	a, b := vf.Snap(x), vf.Snap(y)
	gone := func(i int) bool { return !spec_pvHas(b, a[i].Path) }
	chg := func(i int) bool {
		return vf.Exists(0, len(b), func(k int) bool { return spec_pvFirst(b, a[i].Path, k) && b[k].Value != a[i].Value })
	}
	old := func(i int) bool { return gone(i) || chg(i) }
	nw := func(i int) bool { return !spec_pvHas(a, b[i].Path) }
	r := x.Diff(y)
	no := vf.Count(0, len(a), old)
	vf.Ensures("length", len(r) == no+vf.Count(0, len(b), nw))
	vf.Ensures("deleted", vf.Forall(0, len(a), func(i int) bool {
		return !gone(i) || r[vf.Count(0, i, old)] == PathValue{Path: a[i].Path, Value: a[i].Value, Flags: DELETE}
	}))
	vf.Ensures("replaced", vf.Forall(0, len(a), func(i int) bool {
		return !chg(i) || r[vf.Count(0, i, old)] == PathValue{Path: a[i].Path, Value: a[i].Value, Flags: REPLACE}
	}))
	vf.Ensures("created", vf.Forall(0, len(b), func(i int) bool {
		return !nw(i) || r[no+vf.Count(0, i, nw)] == PathValue{Path: b[i].Path, Value: b[i].Value, Flags: CREATE}
	}))
}

func gen_PathValueList(g *vf.Gen) PathValueList {
	var l PathValueList
	n := g.N(6)
	for i := 0; i < n; i++ {
		p := Path(g.Pick("a:b", "a:c", "a:d", "dc:x", "a:b", "a:B"))
		if g.Chance(15) {
			p = gen_Path(g)
		}
		v := g.Pick("1", "2", "3", "v")
		if g.Chance(10) {
			v = g.Str()
		}
		l = append(l, PathValue{Path: p, Value: v, Flags: SyncFlags(g.N(64))})
	}
	return l
}
