//go:build go1.21

package xmp

import (
	vf "github.com/trimmer-io/go-xmp/verifdsl"
)

// ---------------------------------------------------------------- sequence vocabulary

// s and t are equal as sequences
func spec_seqEq(s, t []string) bool {
	return len(s) == len(t) && vf.Forall(0, len(s), func(i int) bool { return s[i] == t[i] })
}

// now is old followed by v
func spec_seqAppended(now, old []string, v string) bool {
	return len(now) == len(old)+1 && now[len(old)] == v && vf.Forall(0, len(old), func(i int) bool { return now[i] == old[i] })
}

// k is the position of the first v in s
func spec_firstAt(s []string, v string, k int) bool {
	return 0 <= k && k < len(s) && s[k] == v && vf.Forall(0, k, func(i int) bool { return s[i] != v })
}

func spec_absent(s []string, v string) bool {
	return vf.Forall(0, len(s), func(i int) bool { return s[i] != v })
}

// now is old without its element at k
func spec_seqWithout(now, old []string, k int) bool {
	return len(now) == len(old)-1 &&
		vf.Forall(0, k, func(i int) bool { return now[i] == old[i] }) &&
		vf.Forall(k+1, len(old), func(i int) bool { return now[i-1] == old[i] })
}

func spec_indexOf(s []string, v string, r int) bool {
	return v == "" && r == -1 || v != "" && (r == -1 && spec_absent(s, v) || spec_firstAt(s, v, r))
}

// ---------------------------------------------------------------- StringList

//vf:verify (*StringList).Index
//vf:property P02
func spec_StringList_Index(x *StringList, val string) {
	vf.Requires(x != nil)
	vf.Pure()
	vf.LoopInv(func(i int) bool { return vf.Forall(0, i, func(k int) bool { return (*x)[k] != val }) })
	r := x.Index(val)
	vf.Ensures("first-or-minus-one", spec_indexOf(*x, val, r))
}

//vf:verify (*StringList).Contains
//vf:property P02
func spec_StringList_Contains(x *StringList, v string) {
	vf.Requires(x != nil)
	vf.Pure()
	r := x.Contains(v)
	vf.Ensures("iff-member", r == (v != "" && vf.Exists(0, len(*x), func(i int) bool { return (*x)[i] == v })))
}

//vf:verify (*StringList).Add
//vf:property P02
func spec_StringList_Add(x *StringList, v string) {
	vf.Requires(x != nil)
	old := vf.Snap(*x)
	vf.Modifies(x, *x)
	err := x.Add(v)
	vf.Ensures("no-error", err == nil)
	vf.Ensures("empty-not-stored", v != "" || spec_seqEq(*x, old))
	vf.Ensures("appended", v == "" || spec_seqAppended(*x, old, v))
}

//vf:verify (*StringList).AddUnique
//vf:property P02
func spec_StringList_AddUnique(x *StringList, v string) {
	vf.Requires(x != nil)
	old := vf.Snap(*x)
	vf.Modifies(x, *x)
	err := x.AddUnique(v)
	vf.Ensures("no-error", err == nil)
	vf.Ensures("unchanged-if-present", !(v == "" || !spec_absent(old, v)) || spec_seqEq(*x, old))
	vf.Ensures("appended-if-absent", v == "" || !spec_absent(old, v) || spec_seqAppended(*x, old, v))
}

//vf:verify (*StringList).Remove
//vf:property P02
func spec_StringList_Remove(x *StringList, v string) {
	vf.Requires(x != nil)
	old := vf.Snap(*x)
	vf.Modifies(x, *x)
	x.Remove(v)
	vf.Ensures("unchanged-if-absent", !(v == "" || spec_absent(old, v)) || spec_seqEq(*x, old))
	vf.Ensures("first-removed", vf.Forall(0, len(old), func(k int) bool {
		return vf.Implies(v != "" && spec_firstAt(old, v, k), spec_seqWithout(*x, old, k))
	}))
}

//vf:verify NewStringList
//vf:property P02
func spec_NewStringList(items ...string) {
	in := vf.Snap(items)
	vf.LoopInv(func(i int, s StringList) bool {
		return len(s) == vf.Count(0, i, func(k int) bool { return in[k] != "" })
	})
	vf.LoopInv(func(i int, s StringList) bool {
		return vf.Forall(0, i, func(j int) bool {
			return in[j] == "" || s[vf.Count(0, j, func(k int) bool { return in[k] != "" })] == in[j]
		})
	})
	vf.LoopInv(func(s StringList) bool { return vf.Forall(0, len(s), func(j int) bool { return s[j] != "" }) })
	r := NewStringList(items...)
	vf.Ensures("length", len(r) == vf.Count(0, len(in), func(i int) bool { return in[i] != "" }))
	vf.Ensures("no-empty", vf.Forall(0, len(r), func(i int) bool { return r[i] != "" }))
	vf.Ensures("order", vf.Forall(0, len(in), func(i int) bool {
		return in[i] == "" || r[vf.Count(0, i, func(k int) bool { return in[k] != "" })] == in[i]
	}))
}

// ---------------------------------------------------------------- StringArray

//vf:verify (*StringArray).Index
//vf:property P02
func spec_StringArray_Index(x *StringArray, val string) {
	vf.Requires(x != nil)
	vf.Pure()
	vf.LoopInv(func(i int) bool { return vf.Forall(0, i, func(k int) bool { return (*x)[k] != val }) })
	r := x.Index(val)
	vf.Ensures("first-or-minus-one", spec_indexOf(*x, val, r))
}

//vf:verify (*StringArray).Contains
//vf:property P02
func spec_StringArray_Contains(x *StringArray, v string) {
	vf.Requires(x != nil)
	vf.Pure()
	r := x.Contains(v)
	vf.Ensures("iff-member", r == (v != "" && vf.Exists(0, len(*x), func(i int) bool { return (*x)[i] == v })))
}

//vf:verify (*StringArray).Add
//vf:property P02
func spec_StringArray_Add(x *StringArray, v string) {
	vf.Requires(x != nil)
	old := vf.Snap(*x)
	vf.Modifies(x, *x)
	err := x.Add(v)
	vf.Ensures("no-error", err == nil)
	vf.Ensures("empty-not-stored", v != "" || spec_seqEq(*x, old))
	vf.Ensures("appended", v == "" || spec_seqAppended(*x, old, v))
}

//vf:verify (*StringArray).AddUnique
//vf:property P02
func spec_StringArray_AddUnique(x *StringArray, v string) {
	vf.Requires(x != nil)
	old := vf.Snap(*x)
	vf.Modifies(x, *x)
	err := x.AddUnique(v)
	vf.Ensures("no-error", err == nil)
	vf.Ensures("unchanged-if-present", !(v == "" || !spec_absent(old, v)) || spec_seqEq(*x, old))
	vf.Ensures("appended-if-absent", v == "" || !spec_absent(old, v) || spec_seqAppended(*x, old, v))
}

//vf:verify (*StringArray).Remove
//vf:property P02
func spec_StringArray_Remove(x *StringArray, v string) {
	vf.Requires(x != nil)
	old := vf.Snap(*x)
	vf.Modifies(x, *x)
	x.Remove(v)
	vf.Ensures("unchanged-if-absent", !(v == "" || spec_absent(old, v)) || spec_seqEq(*x, old))
	vf.Ensures("first-removed", vf.Forall(0, len(old), func(k int) bool {
		return vf.Implies(v != "" && spec_firstAt(old, v, k), spec_seqWithout(*x, old, k))
	}))
}

//vf:verify NewStringArray
//vf:property P02
func spec_NewStringArray(items ...string) {
	in := vf.Snap(items)
	vf.LoopInv(func(i int, s StringArray) bool {
		return len(s) == vf.Count(0, i, func(k int) bool { return in[k] != "" })
	})
	vf.LoopInv(func(i int, s StringArray) bool {
		return vf.Forall(0, i, func(j int) bool {
			return in[j] == "" || s[vf.Count(0, j, func(k int) bool { return in[k] != "" })] == in[j]
		})
	})
	vf.LoopInv(func(s StringArray) bool { return vf.Forall(0, len(s), func(j int) bool { return s[j] != "" }) })
	r := NewStringArray(items...)
	vf.Ensures("length", len(r) == vf.Count(0, len(in), func(i int) bool { return in[i] != "" }))
	vf.Ensures("no-empty", vf.Forall(0, len(r), func(i int) bool { return r[i] != "" }))
	vf.Ensures("order", vf.Forall(0, len(in), func(i int) bool {
		return in[i] == "" || r[vf.Count(0, i, func(k int) bool { return in[k] != "" })] == in[i]
	}))
}

// ---------------------------------------------------------------- integer lists, bags of alternatives

func spec_appendedT[T comparable](now, old []T, v T) bool {
	return len(now) == len(old)+1 && now[len(old)] == v && vf.Forall(0, len(old), func(i int) bool { return now[i] == old[i] })
}

func spec_eqT[T comparable](now, old []T) bool {
	return len(now) == len(old) && vf.Forall(0, len(old), func(i int) bool { return now[i] == old[i] })
}

//vf:verify (*IntArray).Add
//vf:property P02
func spec_IntArray_Add(x *IntArray, v int) {
	vf.Requires(x != nil)
	old := vf.Snap(*x)
	vf.Modifies(x, *x)
	err := x.Add(v)
	vf.Ensures("no-error", err == nil)
	vf.Ensures("appended", spec_appendedT[int](*x, old, v))
}

//vf:verify (*IntList).Add
//vf:property P02
func spec_IntList_Add(x *IntList, v int) {
	vf.Requires(x != nil)
	old := vf.Snap(*x)
	vf.Modifies(x, *x)
	err := x.Add(v)
	vf.Ensures("no-error", err == nil)
	vf.Ensures("appended", spec_appendedT[int](*x, old, v))
}

//vf:verify NewIntArray
//vf:property P02
func spec_NewIntArray(items ...int) {
	in := vf.Snap(items)
	r := NewIntArray(items...)
	vf.Ensures("same-items", spec_eqT[int](r, in))
}

//vf:verify NewIntList
//vf:property P02
func spec_NewIntList(items ...int) {
	in := vf.Snap(items)
	r := NewIntList(items...)
	vf.Ensures("same-items", spec_eqT[int](r, in))
}

//vf:verify (*AltStringArray).Add
//vf:property P02
func spec_AltStringArray_Add(x *AltStringArray, v *AltString) {
	vf.Requires(x != nil)
	old := vf.Snap(*x)
	vf.Modifies(x, *x)
	err := x.Add(v)
	vf.Ensures("no-error", err == nil)
	vf.Ensures("nil-not-stored", v != nil || spec_eqT[*AltString](*x, old))
	vf.Ensures("appended", v == nil || spec_appendedT[*AltString](*x, old, v))
}

//vf:verify NewAltStringArray
//vf:property P02
func spec_NewAltStringArray(items ...*AltString) {
	in := vf.Snap(items)
	r := NewAltStringArray(items...)
	vf.Ensures("same-items", spec_eqT[*AltString](r, in))
}

// ---------------------------------------------------------------- AltString

// a non-empty array has exactly one default and it comes first
func spec_altInv(a AltString) bool {
	return len(a) == 0 || a[0].IsDefault && vf.Forall(1, len(a), func(i int) bool { return !a[i].IsDefault })
}

func spec_pair(a, b AltItem) bool { return a.Value == b.Value && a.Lang == b.Lang }

func spec_altEq(a, b AltString) bool {
	return len(a) == len(b) && vf.Forall(0, len(a), func(i int) bool { return a[i] == b[i] })
}

// k is the entry that becomes the default: the first default, or else the first entry
func spec_altChosen(n int, at func(i int) AltItem, k int) bool {
	return 0 <= k && k < n && (at(k).IsDefault && vf.Forall(0, k, func(i int) bool { return !at(i).IsDefault }) ||
		k == 0 && vf.Forall(0, n, func(i int) bool { return !at(i).IsDefault }))
}

// now is the sequence at(0..n-1) with its chosen default exchanged to the front
func spec_altNorm(now AltString, n int, at func(i int) AltItem) bool {
	return len(now) == n && vf.Forall(0, n, func(k int) bool {
		return vf.Implies(spec_altChosen(n, at, k),
			spec_pair(now[0], at(k)) && spec_pair(now[k], at(0)) &&
				vf.Forall(1, n, func(i int) bool { return i == k || spec_pair(now[i], at(i)) }))
	})
}

func spec_altFirst(a AltString, lang string, k int) bool {
	return 0 <= k && k < len(a) && a[k].Lang == lang && vf.Forall(0, k, func(i int) bool { return a[i].Lang != lang })
}

func spec_altNone(a AltString, lang string) bool {
	return vf.Forall(0, len(a), func(i int) bool { return a[i].Lang != lang })
}

//vf:verify (*AltString).EnsureDefault
//vf:property P01
func spec_AltString_EnsureDefault(a *AltString) {
	vf.Requires(a != nil)
	old := vf.Snap(*a)
	vf.Modifies(*a)
	vf.LoopInv(func(i int) bool { return vf.Forall(i, len(old), func(k int) bool { return (*a)[k] == old[k] }) })
	vf.LoopInv(func(i int) bool { return vf.Forall(0, i, func(k int) bool { return spec_pair((*a)[k], old[k]) }) })
	vf.LoopInv(func(i, idx int) bool {
		return idx == -1 && vf.Forall(0, i, func(k int) bool { return !old[k].IsDefault && !(*a)[k].IsDefault }) ||
			0 <= idx && idx < i && old[idx].IsDefault && (*a)[idx].IsDefault && vf.Forall(0, idx, func(k int) bool { return !old[k].IsDefault }) &&
				vf.Forall(0, i, func(k int) bool { return k == idx || !(*a)[k].IsDefault })
	})
	a.EnsureDefault()
	vf.Ensures("one-default-first", spec_altInv(*a))
	vf.Ensures("entries-kept", spec_altNorm(*a, len(old), func(i int) AltItem { return old[i] }))
	vf.Ensures("already-normal-unchanged", !spec_altInv(old) || spec_altEq(*a, old))
}

//vf:verify AltString.Default
//vf:property P01
func spec_AltString_Default(a AltString) {
	vf.Pure()
	vf.LoopInv(func(i int) bool { return vf.Forall(0, i, func(k int) bool { return !a[k].IsDefault }) })
	r := a.Default()
	vf.Ensures("first-default", vf.Forall(0, len(a), func(k int) bool {
		return vf.Implies(a[k].IsDefault && vf.Forall(0, k, func(i int) bool { return !a[i].IsDefault }), r == a[k].Value)
	}))
	vf.Ensures("none", vf.Exists(0, len(a), func(k int) bool { return a[k].IsDefault }) || r == "")
}

//vf:verify AltString.Index
//vf:property P01
func spec_AltString_Index(a AltString, lang string) {
	vf.Pure()
	vf.LoopInv(func(i int) bool { return vf.Forall(0, i, func(k int) bool { return a[k].Lang != lang }) })
	r := a.Index(lang)
	vf.Ensures("first-or-minus-one", r == -1 && spec_altNone(a, lang) || spec_altFirst(a, lang, r))
}

//vf:verify AltString.Get
//vf:property P01
func spec_AltString_Get(a AltString, lang string) {
	vf.Pure()
	vf.LoopInv(func(i int) bool { return vf.Forall(0, i, func(k int) bool { return a[k].Lang != lang }) })
	r := a.Get(lang)
	vf.Ensures("first-with-language", lang == "" || vf.Forall(0, len(a), func(k int) bool {
		return vf.Implies(spec_altFirst(a, lang, k), r == a[k].Value)
	}))
	vf.Ensures("missing-language", lang == "" || !spec_altNone(a, lang) || r == "")
	vf.Ensures("default", lang != "" || vf.Forall(0, len(a), func(k int) bool {
		return vf.Implies(a[k].IsDefault && vf.Forall(0, k, func(i int) bool { return !a[i].IsDefault }), r == a[k].Value)
	}))
	vf.Ensures("no-default", lang != "" || vf.Exists(0, len(a), func(k int) bool { return a[k].IsDefault }) || r == "")
}

//vf:verify (*AltString).AddDefault
//vf:property P01
func spec_AltString_AddDefault(a *AltString, lang string, value string) {
	vf.Requires(a != nil)
	old := vf.Snap(*a)
	vf.Modifies(a, *a)
	vf.LoopInv(func(i int) bool { return vf.Forall(0, i, func(k int) bool { return !(*a)[k].IsDefault }) })
	vf.LoopInv(func(i int) bool {
		return vf.Forall(0, len(old), func(k int) bool { return spec_pair((*a)[k], old[k]) })
	})
	a.AddDefault(lang, value)
	vf.Ensures("empty-value-ignored", value != "" || spec_altEq(*a, old))
	vf.Ensures("one-default-first", value == "" || len(*a) > 0 && spec_altInv(*a))
	vf.Ensures("new-pair-first", value == "" || len(*a) == len(old)+1 && (*a)[0].Value == value && (*a)[0].Lang == lang)
	vf.Ensures("others-kept", value == "" || vf.Forall(0, len(old), func(k int) bool { return spec_pair((*a)[k+1], old[k]) }))
}

// the effect of adding a pair
func spec_altAdded(now, old AltString, lang, value string) bool {
	return spec_altInv(now) && len(now) == len(old)+1 &&
		spec_altNorm(now, len(old)+1, func(i int) AltItem {
			if i < len(old) {
				return old[i]
			}
			return AltItem{Value: value, Lang: lang}
		}) && vf.Implies(spec_altInv(old),
		vf.Forall(0, len(old), func(i int) bool { return now[i] == old[i] }) &&
			now[len(old)].Value == value && now[len(old)].Lang == lang)
}

//vf:verify (*AltString).Add
//vf:property P01
func spec_AltString_Add(a *AltString, lang string, value string) {
	vf.Requires(a != nil)
	old := vf.Snap(*a)
	vf.Modifies(a, *a)
	a.Add(lang, value)
	vf.Ensures("empty-value-ignored", value != "" || spec_altEq(*a, old))
	vf.Ensures("added", value == "" || spec_altAdded(*a, old, lang, value))
}

//vf:verify (*AltString).AddUnique
//vf:property P01
func spec_AltString_AddUnique(a *AltString, lang string, value string) {
	vf.Requires(a != nil)
	old := vf.Snap(*a)
	vf.Modifies(a, *a)
	r := a.AddUnique(lang, value)
	same := vf.Exists(0, len(old), func(k int) bool { return spec_altFirst(old, lang, k) && old[k].Value == value })
	vf.Ensures("result", r == (value != "" && !same))
	vf.Ensures("unchanged-if-present", r || spec_altEq(*a, old))
	vf.Ensures("added-if-absent", !r || spec_altAdded(*a, old, lang, value))
}

//vf:verify (*AltString).Set
//vf:property P01
func spec_AltString_Set(a *AltString, lang string, value string) {
	vf.Requires(a != nil)
	old := vf.Snap(*a)
	vf.Modifies(a, *a)
	a.Set(lang, value)
	vf.Ensures("empty-value-ignored", value != "" || spec_altEq(*a, old))
	vf.Ensures("added-if-absent", value == "" || !spec_altNone(old, lang) || spec_altAdded(*a, old, lang, value))
	vf.Ensures("replaced-in-place", value == "" || vf.Forall(0, len(old), func(k int) bool {
		return vf.Implies(spec_altFirst(old, lang, k), len(*a) == len(old) && (*a)[k].Value == value && (*a)[k].Lang == lang && (*a)[k].IsDefault == old[k].IsDefault &&
			vf.Forall(0, len(old), func(i int) bool { return i == k || (*a)[i] == old[i] }))
	}))
	vf.Ensures("form-kept", !spec_altInv(old) || spec_altInv(*a))
}

//vf:verify (*AltString).RemoveLang
//vf:property P01
func spec_AltString_RemoveLang(a *AltString, lang string) {
	vf.Requires(a != nil)
	old := vf.Snap(*a)
	vf.Modifies(a, *a)
	vf.LoopInv(func(i int) bool { return vf.Forall(0, i, func(k int) bool { return (*a)[k].Lang != lang }) })
	a.RemoveLang(lang)
	vf.Ensures("unchanged-if-absent", !spec_altNone(old, lang) || spec_altEq(*a, old))
	vf.Ensures("first-removed", vf.Forall(0, len(old), func(k int) bool {
		return vf.Implies(spec_altFirst(old, lang, k), spec_altInv(*a) &&
			spec_altNorm(*a, len(old)-1, func(i int) AltItem {
				if i < k {
					return old[i]
				}
				return old[i+1]
			}))
	}))
	vf.Ensures("form-kept", !spec_altInv(old) || spec_altInv(*a))
}
