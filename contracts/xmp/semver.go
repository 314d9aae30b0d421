//go:build go1.21

package xmp

import (
	vf "github.com/trimmer-io/go-xmp/verifdsl"
)

// lexicographic order on (major, minor, patch), the specification
func spec_vless(a, b Version) bool {
	if a.Major != b.Major {
		return a.Major < b.Major
	}
	if a.Minor != b.Minor {
		return a.Minor < b.Minor
	}
	return a.Patch < b.Patch
}

func spec_vzero(a Version) bool { return a.Major == 0 && a.Minor == 0 && a.Patch == 0 }

//vf:verify Version.Equal
//vf:property P03
func spec_Version_Equal(v Version, a Version) {
	vf.Pure()
	r := v.Equal(a)
	vf.Ensures("componentwise", r == (v.Major == a.Major && v.Minor == a.Minor && v.Patch == a.Patch))
}

//vf:verify Version.Before
//vf:property P03
func spec_Version_Before(v Version, a Version) {
	vf.Pure()
	r := v.Before(a)
	vf.Ensures("lexicographic", r == spec_vless(v, a))
}

//vf:verify Version.After
//vf:property P03
func spec_Version_After(v Version, a Version) {
	vf.Pure()
	r := v.After(a)
	vf.Ensures("lexicographic", r == spec_vless(a, v))
}

//vf:verify Version.IsZero
//vf:property P03
//vf:wrap
func spec_Version_IsZero(v Version) {
	vf.Pure()
	r := v.IsZero()
	vf.Ensures("all-parts-zero", r == spec_vzero(v))
}

//vf:verify Version.Between
//vf:property P03
func spec_Version_Between(v Version, a Version, b Version) {
	vf.Pure()
	r := v.Between(a, b)
	vf.Ensures("range", r == (spec_vzero(v) || (spec_vzero(a) || !spec_vless(v, a)) && (spec_vzero(b) || !spec_vless(b, v))))
}

// exactly one of before, equal, after
//
//vf:lemma
//vf:property P03
func lemma_Version_total(a Version, b Version) {
	n := 0
	if a.Before(b) {
		n++
	}
	if a.Equal(b) {
		n++
	}
	if a.After(b) {
		n++
	}
	vf.Ensures("exactly-one", n == 1)
	vf.Ensures("converse", a.Before(b) == b.After(a))
}

//vf:lemma
//vf:property P03
func lemma_Version_transitive(a Version, b Version, c Version) {
	vf.Requires(a.Before(b))
	vf.Requires(b.Before(c))
	vf.Ensures("before-transitive", a.Before(c))
	vf.Ensures("after-transitive", c.After(a))
}
