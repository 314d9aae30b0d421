//go:build go1.21

package itunes

import (
	"strings"

	vf "github.com/trimmer-io/go-xmp/verifdsl"
)

var gen_texts = []string{"", "()", "(a|b|c|d)", "a|b|c|d", "|||", " (x|y", "(mpaa|PG-13|300|)", "00000000 00000840 000001CA 00000000003F31F6", "0 1 2 x", "0 x", "é", ")"}

func gen_text(g *vf.Gen) string {
	if g.Chance(60) {
		return gen_texts[g.N(len(gen_texts))]
	}
	return g.Str()
}

func gen_textBytes(g *vf.Gen) []byte { return []byte(gen_text(g)) }

func gen_ContentRating(g *vf.Gen) ContentRating {
	s := func() string { return g.Pick("", "mpaa", "PG-13", "300", "x y", "(", ")", " ") }
	return ContentRating{s(), s(), s(), s()}
}

// part i of the first k
func spec_part(p []string, i, k int) string {
	if i < k {
		return p[i]
	}
	return ""
}

//vf:boundedlemma
//vf:property P20
//vf:reason splitting the trimmed concatenation of unknown texts
func lemma_ContentRating_text(x ContentRating, y ContentRating) {
	vf.Requires(!strings.Contains(x.Standard, "|") && !strings.Contains(x.Rating, "|") && !strings.Contains(x.Score, "|") && !strings.Contains(x.Reasons, "|"))
	vf.Requires(x.Standard != "" || x.Rating != "")
	b, _ := x.MarshalText()
	err := y.UnmarshalText(b)
	vf.Ensures("round-trip", err == nil && y == x)
}

//vf:verify ContentRating.MarshalText
//vf:inline ContentRating.String
//vf:property P20
func spec_ContentRating_MarshalText(x ContentRating) {
	vf.Pure()
	b, err := x.MarshalText()
	vf.Ensures("text", err == nil && (x.IsZero() && len(b) == 0 || !x.IsZero() && string(b) == "("+x.Standard+"|"+x.Rating+"|"+x.Score+"|"+x.Reasons+")"))
}

//vf:verify (*ContentRating).UnmarshalText
//vf:property P20
func spec_ContentRating_UnmarshalText(x *ContentRating, data []byte) {
	vf.Requires(x != nil)
	p := vf.Snap(strings.Split(strings.TrimSuffix(strings.TrimPrefix(strings.TrimSpace(string(data)), "("), ")"), "|"))
	vf.Modifies(x)
	vf.LoopInv(func(cr ContentRating, k int) bool {
		return cr.Standard == spec_part(p, 0, k) && cr.Rating == spec_part(p, 1, k) && cr.Score == spec_part(p, 2, k) && cr.Reasons == spec_part(p, 3, k)
	})
	err := x.UnmarshalText(data)
	n := len(p)
	vf.Ensures("total", err == nil)
	vf.Ensures("parts", x.Standard == spec_part(p, 0, n) && x.Rating == spec_part(p, 1, n) && x.Score == spec_part(p, 2, n) && x.Reasons == spec_part(p, 3, n))
}

//vf:verify (*SMPB).UnmarshalText
//vf:property P20
//vf:wrap
func spec_SMPB_UnmarshalText(x *SMPB, data []byte) {
	vf.Requires(x != nil)
	old := *x
	vf.Modifies(x)
	err := x.UnmarshalText(data)
	vf.Ensures("kept-on-error", err == nil || *x == old)
}
