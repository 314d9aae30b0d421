//go:build go1.21

package xmpdm

import (
	"strconv"
	"strings"

	vf "github.com/trimmer-io/go-xmp/verifdsl"
)

var gen_texts = []string{"", "f", "f25", "f30000s1001", "25f24", "0", "maximum", "maximumf25", "-1", "25", "time:", "/time:25", "/a/time:5d10f25", "/time:5f25r10f25", "time:0dmaximum", "time:d", "time:r", "x;y", ";", "fs", "f1s", "f1s0",
	"fs1", "NTSC", "pal", "25fps", "24p", "50i", "1/0", "00:01:02:03", "00;01;02;03", "1:2:3", "::::", "é", "99999999999999999999"}

func gen_text(g *vf.Gen) string {
	if g.Chance(60) {
		return gen_texts[g.N(len(gen_texts))]
	}
	return g.Str()
}

func gen_textBytes(g *vf.Gen) []byte { return []byte(gen_text(g)) }

func gen_FrameRate(g *vf.Gen) FrameRate {
	if g.Chance(20) {
		return FrameRate{}
	}
	return FrameRate{int64(g.Int()), int64(1 + g.N(1001))}
}

func gen_FrameCount(g *vf.Gen) FrameCount {
	switch g.N(5) {
	case 0:
		return FrameCount{}
	case 1:
		return FrameCount{0, FrameRate{1, 1}}
	case 2:
		return FrameCount{-1, FrameRate{1, 1}}
	}
	return FrameCount{int64(g.Int()), gen_FrameRate(g)}
}

// ---- frame rates

//vf:verify (*FrameRate).UnmarshalText
//vf:property P20
func spec_FrameRate_UnmarshalText(x *FrameRate, data []byte) {
	vf.Requires(x != nil)
	old, s := *x, string(data)
	vf.Modifies(x)
	err := x.UnmarshalText(data)
	vf.Ensures("kept-on-error", err == nil || *x == old)
	vf.Ensures("starts-with-f", err != nil || strings.HasPrefix(s, "f"))
	vf.Ensures("base", err != nil || x.Base != 0)
}

//vf:verify FrameRate.String
//vf:property P20
func spec_FrameRate_String(x FrameRate) {
	vf.Pure()
	r := x.String()
	vf.Ensures("whole", x.Base > 1 || r == "f"+strconv.FormatInt(x.Rate, 10))
	vf.Ensures("fraction", x.Base <= 1 || r == "f"+strconv.FormatInt(x.Rate, 10)+"s"+strconv.FormatInt(x.Base, 10))
}

//vf:lemma
//vf:inline *
//vf:property P20
func lemma_FrameRate_text(x FrameRate, y FrameRate) {
	vf.Requires(x.Base >= 1)
	b, _ := x.MarshalText()
	err := y.UnmarshalText(b)
	vf.Ensures("round-trip", err == nil && y == x)
}

// ---- frame counts

// the counts whose text form says everything: a count of 0 and the maximum are
// written without a rate
func spec_plainCount(x FrameCount) bool {
	return x.Rate.Base >= 1 && (x.Count != 0 && x.Count != -1 || x.Rate == FrameRate{1, 1})
}

//vf:verify (*FrameCount).UnmarshalText
//vf:property P20
func spec_FrameCount_UnmarshalText(x *FrameCount, data []byte) {
	vf.Requires(x != nil)
	old := *x
	vf.Modifies(x)
	err := x.UnmarshalText(data)
	vf.Ensures("kept-on-error", err == nil || *x == old)
	vf.Ensures("base", err != nil || x.Rate.Base != 0)
}

//vf:lemma
//vf:inline *
//vf:property P20
func lemma_FrameCount_text(x FrameCount, y FrameCount) {
	vf.Requires(spec_plainCount(x))
	b, _ := x.MarshalText()
	err := y.UnmarshalText(b)
	vf.Ensures("round-trip", err == nil && y == x)
}

//vf:verify FrameCount.Sub
//vf:property P20
//vf:wrap
func spec_FrameCount_Sub(x, y FrameCount) {
	vf.Pure()
	r := x.Sub(y)
	vf.Ensures("difference", r.Count == x.Count-y.Count && r.Rate == x.Rate)
}

// ---- parts

//vf:verify (*Part).UnmarshalText
//vf:property P20
//vf:wrap
func spec_Part_UnmarshalText(x *Part, data []byte) {
	vf.Requires(x != nil)
	old, s := *x, string(data)
	vf.Modifies(x)
	err := x.UnmarshalText(data)
	vf.Ensures("kept-on-error", err == nil || *x == old)
	vf.Ensures("path", err != nil || strings.HasPrefix(s, x.Path) && !strings.Contains(x.Path, "time:"))
	vf.Ensures("path-only", strings.Contains(s, "time:") || err == nil && x.Path == s)
}

//vf:lemma
//vf:inline *
//vf:property P20
//vf:wrap
func lemma_Part_path(dir string, y Part) {
	vf.Requires(!strings.Contains(dir, "time:"))
	x := Part{Path: dir + "/"}
	b, _ := x.MarshalText()
	err := y.UnmarshalText(b)
	vf.Ensures("round-trip", err == nil && y == x)
}

//vf:lemma
//vf:inline *
//vf:property P20
//vf:wrap
func lemma_Part_duration(dir string, count, rate, base int64, y Part) {
	vf.Requires(!strings.Contains(dir, "time:") && count >= 1 && rate >= 1 && base >= 1)
	x := Part{Path: dir + "/", Duration: FrameCount{count, FrameRate{rate, base}}}
	b, _ := x.MarshalText()
	err := y.UnmarshalText(b)
	vf.Ensures("round-trip", err == nil && y == x)
}

//vf:boundedlemma
//vf:property P20
//vf:reason all combinations of zero, maximum and plain counts
func lemma_Part_text(x Part, y Part) {
	vf.Requires(!strings.Contains(x.Path, "time:") && (x.Path == "" || strings.HasSuffix(x.Path, "/")))
	vf.Requires((x.Start == FrameCount{}) || spec_plainCount(x.Start))
	vf.Requires((x.Duration == FrameCount{}) && (x.Start == FrameCount{}) || spec_plainCount(x.Duration))
	b, _ := x.MarshalText()
	err := y.UnmarshalText(b)
	vf.Ensures("round-trip", err == nil && y == x)
}

func gen_Part(g *vf.Gen) Part {
	p := Part{Path: g.Pick("", "/", "/a/", "a/b/", "/time/", "x"), Start: gen_FrameCount(g), Duration: gen_FrameCount(g)}
	if g.Chance(30) {
		p.Start, p.Duration = FrameCount{}, FrameCount{}
	}
	return p
}

//vf:boundedlemma
//vf:property P20
//vf:reason joined lists of byte slices
func lemma_PartList_text(l PartList) {
	b, err := l.MarshalText()
	vf.Ensures("encoded", err == nil)
	var y PartList
	err = y.UnmarshalText(b)
	vf.Ensures("round-trip", err == nil && len(y) == len(l) && vf.Forall(0, len(l), func(i int) bool { return y[i] == l[i] }))
}

func args_lemma_PartList_text(g *vf.Gen) PartList {
	var l PartList
	for n := 1 + g.N(4); n > 0; n-- {
		p := Part{Path: g.Pick("/", "/a/", "/a/b/")}
		if g.Bool() {
			p.Duration = FrameCount{int64(1 + g.N(1000)), FrameRate{int64(g.N(100)), int64(1 + g.N(3))}}
			if g.Bool() {
				p.Start = p.Duration
			}
		}
		l = append(l, p)
	}
	return l
}

//vf:verify prefixIfNot
//vf:property P20
func spec_prefixIfNot(s, p string) {
	vf.Pure()
	r := prefixIfNot(s, p)
	vf.Ensures("prefix", strings.HasPrefix(r, p))
	vf.Ensures("text", r == s || r == p+s && !strings.HasPrefix(s, p))
}

// ---- time codes

//vf:lemma
//vf:inline *
//vf:property P20
func lemma_ParseTimecodeFormat(isdrop bool) {
	vf.Ensures("24", ParseTimecodeFormat(24, isdrop) == TimecodeFormat24)
	vf.Ensures("25", ParseTimecodeFormat(25, isdrop) == TimecodeFormat25)
	vf.Ensures("30", ParseTimecodeFormat(30, isdrop) == TimecodeFormat30)
	vf.Ensures("50", ParseTimecodeFormat(50, isdrop) == TimecodeFormat50)
	vf.Ensures("60", ParseTimecodeFormat(60, isdrop) == TimecodeFormat60)
	vf.Ensures("29.97", ParseTimecodeFormat(29.97, true) == TimecodeFormat2997 && ParseTimecodeFormat(29.97, false) == TimecodeFormat2997ND)
	vf.Ensures("59.94", ParseTimecodeFormat(59.94, true) == TimecodeFormat5994 && ParseTimecodeFormat(59.94, false) == TimecodeFormat5994ND)
	vf.Ensures("23.976", ParseTimecodeFormat(23.976, isdrop) == TimecodeFormat23976)
}

//vf:verify (*Timecode).Unpack
//vf:property P20
func spec_Timecode_Unpack(x *Timecode) {
	vf.Requires(x != nil)
	format, value, drop := x.Format, x.Value, x.IsDropFrame
	vf.Modifies(x)
	err := x.Unpack()
	vf.Ensures("kept", x.Format == format && x.Value == value && x.IsDropFrame == drop)
	_ = err
}

//vf:lemma
//vf:inline *
//vf:property P20
func lemma_Timecode_text(x Timecode, y Timecode) {
	vf.Requires(x.H >= 0 && x.M >= 0 && x.S >= 0 && x.F >= 0)
	y.Value = x.String()
	y.IsDropFrame = x.IsDropFrame
	err := y.Unpack()
	vf.Ensures("round-trip", err == nil && y.H == x.H && y.M == x.M && y.S == x.S && y.F == x.F)
	vf.Ensures("drop-frame-visible", strings.Contains(y.Value, ";") == x.IsDropFrame)
}

func gen_Timecode(g *vf.Gen) Timecode {
	return Timecode{Value: gen_text(g), H: g.N(30), M: g.N(100), S: g.N(100), F: g.N(200), IsDropFrame: g.Bool()}
}

//vf:boundedlemma
//vf:property P20
//vf:reason encoding/json
func lemma_Timecode_json(x Timecode, y Timecode) {
	b, err := x.MarshalJSON()
	vf.Ensures("encoded", err == nil)
	err = y.UnmarshalJSON(b)
	vf.Ensures("round-trip", err == nil && y.H == x.H && y.M == x.M && y.S == x.S && y.F == x.F && y.IsDropFrame == x.IsDropFrame && y.Format == x.Format)
}

// ---- markers

//vf:verify MarkerTypeList.Contains
//vf:property P20
func spec_MarkerTypeList_Contains(x MarkerTypeList, t MarkerType) {
	vf.Pure()
	vf.LoopInv(func(k int) bool { return vf.Forall(0, k, func(j int) bool { return x[j] != t }) })
	r := x.Contains(t)
	vf.Ensures("member", r == vf.Exists(0, len(x), func(i int) bool { return x[i] == t }))
}

//vf:bounded MarkerTypeList.Intersect
//vf:property P20
//vf:reason a map as a set
func bounded_MarkerTypeList_Intersect(x, y MarkerTypeList) {
	r := x.Intersect(y)
	k := 0
	for _, t := range y {
		if x.Contains(t) {
			vf.Ensures("kept-in-order", k < len(r) && r[k] == t)
			k++
		}
	}
	vf.Ensures("nothing-else", k == len(r))
}

func gen_MarkerTypeList(g *vf.Gen) MarkerTypeList {
	var l MarkerTypeList
	for n := g.N(4); n > 0; n-- {
		l = append(l, MarkerType(g.Pick("", "a", "b", "c")))
	}
	return l
}

//vf:bounded (*VideoFrameRate).UnmarshalText
//vf:property P20
//vf:reason floating-point parsing
func bounded_VideoFrameRate_UnmarshalText(x *VideoFrameRate, data []byte) {
	old := *x
	vf.Modifies(x)
	err := x.UnmarshalText(data)
	vf.Ensures("kept-on-error", err == nil || *x == old)
}

func args_bounded_VideoFrameRate_UnmarshalText(g *vf.Gen) (*VideoFrameRate, []byte) {
	v := VideoFrameRate(24)
	return &v, gen_textBytes(g)
}
