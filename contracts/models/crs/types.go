//go:build go1.21

package crs

import (
	"strconv"

	vf "github.com/trimmer-io/go-xmp/verifdsl"
)

func gen_textBytes(g *vf.Gen) []byte {
	return []byte(g.Pick("", "1, 2", "1,2", "-1, -2", "1", ", ", "a, b", "1, x", g.Str()))
}

//vf:verify Point.String
//vf:property P20
func spec_Point_String(x Point) {
	vf.Pure()
	r := x.String()
	vf.Ensures("pair", r == strconv.FormatInt(x.X, 10)+", "+strconv.FormatInt(x.Y, 10))
}

//vf:verify (*Point).UnmarshalText
//vf:property P20
func spec_Point_UnmarshalText(x *Point, data []byte) {
	vf.Requires(x != nil)
	old := *x
	vf.Modifies(x)
	err := x.UnmarshalText(data)
	vf.Ensures("kept-on-error", err == nil || *x == old)
}

//vf:lemma
//vf:inline *
//vf:property P20
func lemma_Point_text(x Point, y Point) {
	b, _ := x.MarshalText()
	err := y.UnmarshalText(b)
	vf.Ensures("round-trip", err == nil && y == x)
}
