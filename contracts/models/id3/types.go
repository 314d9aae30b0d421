//go:build go1.21

package id3

import (
	"strings"
	"time"

	vf "github.com/trimmer-io/go-xmp/verifdsl"
)

var gen_texts = []string{"", "1", "10/12", "10/", "/12", "a", "-1/2", "255", "256", "300", "Rock", "Rock, Foo", "RX", "CR", "Rock,RX, Bar", "1504", "0203", "2560", "é"}

func gen_text(g *vf.Gen) string {
	if g.Chance(60) {
		return gen_texts[g.N(len(gen_texts))]
	}
	return g.Str()
}

func gen_textBytes(g *vf.Gen) []byte { return []byte(gen_text(g)) }

//vf:verify (*TrackNum).UnmarshalText
//vf:property P20
func spec_TrackNum_UnmarshalText(x *TrackNum, data []byte) {
	vf.Requires(x != nil)
	old := *x
	vf.Modifies(x)
	err := x.UnmarshalText(data)
	vf.Ensures("kept-on-error", err == nil || *x == old)
}

//vf:lemma
//vf:inline *
//vf:property P20
func lemma_TrackNum_text(x TrackNum, y TrackNum) {
	b, _ := x.MarshalText()
	err := y.UnmarshalText(b)
	vf.Ensures("round-trip", err == nil && y == x)
}

//vf:boundedlemma
//vf:property P20
//vf:reason the table of genre names
func lemma_GenreV1_text(x GenreV1, y GenreV1) {
	b, _ := x.MarshalText()
	err := y.UnmarshalText(b)
	vf.Ensures("round-trip", err == nil && y == x)
}

func args_lemma_GenreV1_text(g *vf.Gen) (GenreV1, GenreV1) { return GenreV1(g.N(256)), 0 }

//vf:boundedlemma
//vf:property P20
//vf:reason the table of genre names
func lemma_Genre_text(x Genre) {
	vf.Requires(len(x) > 0 && vf.Forall(0, len(x), func(i int) bool {
		return x[i] != "" && strings.TrimSpace(x[i]) == x[i] && !strings.Contains(x[i], ",")
	}))
	b, _ := x.MarshalText()
	var y Genre
	err := y.UnmarshalText(b)
	vf.Ensures("round-trip", err == nil && len(y) == len(x) && vf.Forall(0, len(x), func(i int) bool { return y[i] == x[i] }))
}

func args_lemma_Genre_text(g *vf.Gen) Genre {
	var l Genre
	for n := 1 + g.N(3); n > 0; n-- {
		l = append(l, g.Pick("Rock", "Jazz", "Foo", "Remix", "Hip-Hop", "a b"))
	}
	return l
}

//vf:bounded ParseGenreV1
//vf:property P20
//vf:reason the table of genre names
func bounded_ParseGenreV1(s string) {
	_, err := ParseGenreV1(s)
	_ = err
}

func args_bounded_ParseGenreV1(g *vf.Gen) string { return gen_text(g) }

//vf:boundedlemma
//vf:property P20
//vf:reason package time
func lemma_Time23_text(h, m int) {
	x := Time23(time.Date(0, 1, 1, h, m, 0, 0, time.UTC))
	b, _ := x.MarshalText()
	var y Time23
	err := y.UnmarshalText(b)
	vf.Ensures("round-trip", err == nil && y.Value().Equal(x.Value()))
}

func args_lemma_Time23_text(g *vf.Gen) (int, int) { return g.N(24), g.N(60) }

//vf:boundedlemma
//vf:property P20
//vf:reason package time
func lemma_Date23_text(mo, d int) {
	x := Date23(time.Date(0, time.Month(mo), d, 0, 0, 0, 0, time.UTC))
	b, _ := x.MarshalText()
	var y Date23
	err := y.UnmarshalText(b)
	vf.Ensures("round-trip", err == nil && y.Value().Equal(x.Value()))
}

func args_lemma_Date23_text(g *vf.Gen) (int, int) { return 1 + g.N(12), 1 + g.N(28) }
