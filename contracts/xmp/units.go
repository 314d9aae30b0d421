//go:build go1.21

package xmp

import (
	"encoding/json"
	"math"
	"regexp"
	"strconv"
	"strings"
	"time"

	vf "github.com/trimmer-io/go-xmp/verifdsl"
)

// spellings that mean "no value" for an optional integer
func spec_noInt(d string) bool {
	return d == "" || d == "-" || d == "--" || d == "---" || d == "NaN" || d == "unknown"
}

func spec_noBool(d string) bool { return d == "" || d == "-" || d == "--" || d == "---" }

func spec_noString(d string) bool { return d == "" || d == "-" || d == "--" || d == "unknown" }

func spec_noFloat(d string) bool {
	return d == "" || d == "-" || d == "--" || d == "---" || d == "unknown"
}

var gen_texts = []string{"", "-", "--", "---", "NaN", "nan", "unknown", "Unknown", "true", "on", "yes", "1", "0", "enabled", "True", "TRUE", "False", "false", "FALSE",
	"-1", "+5", "12", "255", "256", "128", "4294967295", "4294967296", "-2147483648", "9223372036854775807", "9223372036854775808", "1:2:3:4", "255:0:128:1", "1:2:3", "1:2:3:256", "1:-2:3:4",
	"1/2", "-1/3", "1/0", "3 4", "0.5", "0.0", "-0.5", "1.5", "1e5", "1.5e300", "+Inf", "-Inf", "inf", "1s", "1h2m3.5s", "1h 2m", "10", " x ", "\"", "\"1\"", "\"true\"", "\"", "\"\"", "null", "/", " ", "1/", "/1", ".", ".e"}

func gen_text(g *vf.Gen) string {
	if g.Chance(60) {
		return gen_texts[g.N(len(gen_texts))]
	}
	return g.Str()
}

func gen_textBytes(g *vf.Gen) []byte {
	if g.Chance(5) {
		return nil
	}
	return []byte(gen_text(g))
}

// ---- booleans

//vf:verify (*Bool).UnmarshalText
//vf:property P15
func spec_Bool_UnmarshalText(x *Bool, data []byte) {
	vf.Requires(x != nil)
	old, s := *x, string(data)
	t, f := s == "True" || s == "true" || s == "TRUE", s == "False" || s == "false" || s == "FALSE"
	vf.Modifies(x)
	err := x.UnmarshalText(data)
	vf.Ensures("spellings", (err == nil) == (t || f))
	vf.Ensures("value", (!t || bool(*x)) && (!f || !bool(*x)))
	vf.Ensures("kept-on-error", err == nil || *x == old)
}

//vf:verify Bool.MarshalText
//vf:property P15
func spec_Bool_MarshalText(x Bool) {
	vf.Pure()
	b, err := x.MarshalText()
	vf.Ensures("spelling", err == nil && (bool(x) && string(b) == "True" || !bool(x) && string(b) == "False"))
}

//vf:lemma
//vf:property P15
func lemma_Bool_text(x Bool, y Bool) {
	b, _ := x.MarshalText()
	err := y.UnmarshalText(b)
	vf.Ensures("round-trip", err == nil && y == x)
}

//vf:verify ParseNullBool
//vf:property P15
func spec_ParseNullBool(d string) {
	vf.Requires(EEmptyValue != nil)
	l := strings.ToLower(d)
	vf.Pure()
	r, err := ParseNullBool(d)
	vf.Ensures("empty", spec_noBool(l) == (err == EEmptyValue) && (err == nil || err == EEmptyValue))
	vf.Ensures("value", spec_noBool(l) || bool(r) == (l == "true" || l == "on" || l == "yes" || l == "1" || l == "enabled"))
}

//vf:verify (*NullBool).UnmarshalText
//vf:property P15
func spec_NullBool_UnmarshalText(x *NullBool, data []byte) {
	vf.Requires(x != nil && EEmptyValue != nil)
	old, l := *x, strings.ToLower(string(data))
	vf.Modifies(x)
	err := x.UnmarshalText(data)
	vf.Ensures("no-error", err == nil)
	vf.Ensures("empty-keeps", !spec_noBool(l) || *x == old)
	vf.Ensures("value", spec_noBool(l) || bool(*x) == (l == "true" || l == "on" || l == "yes" || l == "1" || l == "enabled"))
}

//vf:verify NullBool.MarshalText
//vf:property P15
func spec_NullBool_MarshalText(x NullBool) {
	vf.Pure()
	b, err := x.MarshalText()
	vf.Ensures("spelling", err == nil && (bool(x) && string(b) == "true" || !bool(x) && string(b) == "false"))
}

//vf:verify NullBool.MarshalJSON
//vf:property P15
func spec_NullBool_MarshalJSON(x NullBool) {
	vf.Pure()
	b, err := x.MarshalJSON()
	vf.Ensures("spelling", err == nil && (bool(x) && string(b) == "true" || !bool(x) && string(b) == "false"))
}

//vf:verify (*NullBool).UnmarshalJSON
//vf:property P15
func spec_NullBool_UnmarshalJSON(x *NullBool, data []byte) {
	vf.Requires(x != nil && EEmptyValue != nil)
	s := string(data)
	vf.Modifies(x)
	err := x.UnmarshalJSON(data)
	vf.Ensures("no-error", err == nil)
	vf.Ensures("true", s != "true" || bool(*x))
	vf.Ensures("false", s != "false" || !bool(*x))
}

//vf:lemma
//vf:property P15
func lemma_NullBool_text(x NullBool, y NullBool) {
	vf.Requires(EEmptyValue != nil)
	b, _ := x.MarshalText()
	err := y.UnmarshalText(b)
	vf.Ensures("round-trip", err == nil && y == x)
}

//vf:lemma
//vf:property P15
func lemma_NullBool_json(x NullBool, y NullBool) {
	vf.Requires(EEmptyValue != nil)
	b, _ := x.MarshalJSON()
	err := y.UnmarshalJSON(b)
	vf.Ensures("round-trip", err == nil && y == x)
}

// ---- optional integers

//vf:verify ParseNullInt
//vf:property P15
func spec_ParseNullInt(d string) {
	vf.Requires(EEmptyValue != nil)
	v, bad := strconv.ParseInt(d, 10, 64)
	vf.Pure()
	r, err := ParseNullInt(d)
	vf.Ensures("empty", spec_noInt(d) == (err == EEmptyValue))
	vf.Ensures("value", spec_noInt(d) || (err == nil) == (bad == nil) && (err != nil || int64(r) == v))
}

//vf:verify (*NullInt).UnmarshalText
//vf:property P15
func spec_NullInt_UnmarshalText(x *NullInt, data []byte) {
	vf.Requires(x != nil && EEmptyValue != nil)
	old, d := *x, string(data)
	v, bad := strconv.ParseInt(d, 10, 64)
	vf.Modifies(x)
	err := x.UnmarshalText(data)
	vf.Ensures("empty-keeps", !spec_noInt(d) || err == nil && *x == old)
	vf.Ensures("kept-on-error", err == nil || *x == old)
	vf.Ensures("value", spec_noInt(d) || (err == nil) == (bad == nil) && (err != nil || int64(*x) == v))
}

//vf:verify NullInt.MarshalText
//vf:property P15
func spec_NullInt_MarshalText(x NullInt) {
	vf.Pure()
	b, err := x.MarshalText()
	vf.Ensures("decimal", err == nil && string(b) == strconv.Itoa(int(x)))
}

//vf:verify NullInt.MarshalJSON
//vf:property P15
func spec_NullInt_MarshalJSON(x NullInt) {
	vf.Pure()
	b, err := x.MarshalJSON()
	vf.Ensures("decimal", err == nil && string(b) == strconv.Itoa(int(x)))
}

//vf:verify (*NullInt).UnmarshalJSON
//vf:property P15
func spec_NullInt_UnmarshalJSON(x *NullInt, data []byte) {
	vf.Requires(x != nil && EEmptyValue != nil)
	old, s := *x, string(data)
	v, bad := strconv.ParseInt(s, 10, 64)
	vf.Modifies(x)
	err := x.UnmarshalJSON(data)
	vf.Ensures("kept-on-error", err == nil || *x == old)
	vf.Ensures("number", strings.Contains(s, "\"") || spec_noInt(s) || (err == nil) == (bad == nil) && (err != nil || int64(*x) == v))
}

//vf:lemma
//vf:property P15
func lemma_NullInt_text(x NullInt, y NullInt) {
	vf.Requires(EEmptyValue != nil)
	b, _ := x.MarshalText()
	err := y.UnmarshalText(b)
	vf.Ensures("round-trip", err == nil && y == x)
}

//vf:lemma
//vf:property P15
func lemma_NullInt_json(x NullInt, y NullInt) {
	vf.Requires(EEmptyValue != nil)
	b, _ := x.MarshalJSON()
	err := y.UnmarshalJSON(b)
	vf.Ensures("round-trip", err == nil && y == x)
}

// ---- byte-wise integers

//vf:verify (*SplitInt).UnmarshalText
//vf:property P15
//vf:wrap
//vf:opt unroll=4
func spec_SplitInt_UnmarshalText(x *SplitInt, data []byte) {
	vf.Requires(x != nil)
	old, d := *x, string(data)
	v, bad := strconv.ParseUint(d, 10, 32)
	f := strings.Split(d, ":")
	vf.Modifies(x)
	err := x.UnmarshalText(data)
	vf.Ensures("empty-keeps", !spec_noInt(d) || err == nil && *x == old)
	vf.Ensures("kept-on-error", err == nil || *x == old)
	vf.Ensures("number", spec_noInt(d) || bad != nil || err == nil && uint32(*x) == uint32(v))
	vf.Ensures("parts", spec_noInt(d) || bad == nil || (err == nil) == (len(f) == 4 && spec_isPart(f[0]) && spec_isPart(f[1]) && spec_isPart(f[2]) && spec_isPart(f[3])))
	vf.Ensures("bytes", spec_noInt(d) || bad == nil || err != nil ||
		uint32(*x) == spec_part(f[0])<<24+spec_part(f[1])<<16+spec_part(f[2])<<8+spec_part(f[3]))
}

func spec_isPart(s string) bool {
	_, err := strconv.ParseUint(s, 10, 8)
	return err == nil
}

func spec_part(s string) uint32 {
	v, _ := strconv.ParseUint(s, 10, 8)
	return uint32(v)
}

// ---- strings

//vf:verify ParseNullString
//vf:property P15
func spec_ParseNullString(s string) {
	vf.Requires(EEmptyValue != nil)
	t := strings.TrimSpace(s)
	vf.Pure()
	r, err := ParseNullString(s)
	vf.Ensures("empty", spec_noString(t) == (err == EEmptyValue) && (err == nil || err == EEmptyValue))
	vf.Ensures("value", spec_noString(t) && r == "" || !spec_noString(t) && string(r) == t)
}

//vf:verify (*NullString).UnmarshalText
//vf:property P15
func spec_NullString_UnmarshalText(x *NullString, data []byte) {
	vf.Requires(x != nil && EEmptyValue != nil)
	old, t := *x, strings.TrimSpace(string(data))
	vf.Modifies(x)
	err := x.UnmarshalText(data)
	vf.Ensures("no-error", err == nil)
	vf.Ensures("first-value-wins", len(old) == 0 || *x == old)
	vf.Ensures("empty-keeps", !spec_noString(t) || *x == old)
	vf.Ensures("value", len(old) > 0 || spec_noString(t) || string(*x) == t)
}

//vf:verify NullString.MarshalText
//vf:property P15
func spec_NullString_MarshalText(x NullString) {
	vf.Pure()
	b, err := x.MarshalText()
	vf.Ensures("text", err == nil && string(b) == string(x))
}

//vf:lemma
//vf:property P15
func lemma_NullString_text(x NullString, y NullString) {
	vf.Requires(EEmptyValue != nil)
	vf.Requires(y == "" && strings.TrimSpace(string(x)) == string(x) && !spec_noString(string(x)))
	b, _ := x.MarshalText()
	err := y.UnmarshalText(b)
	vf.Ensures("round-trip", err == nil && y == x)
}

//vf:verify (*GUID).UnmarshalText
//vf:property P15
func spec_GUID_UnmarshalText(x *GUID, data []byte) {
	vf.Requires(x != nil)
	d := string(data)
	vf.Modifies(x)
	err := x.UnmarshalText(data)
	vf.Ensures("value", err == nil && string(*x) == d)
}

//vf:verify GUID.MarshalText
//vf:property P15
func spec_GUID_MarshalText(x GUID) {
	vf.Pure()
	b, err := x.MarshalText()
	vf.Ensures("text", err == nil && string(b) == string(x))
}

//vf:lemma
//vf:property P15
func lemma_GUID_text(x GUID, y GUID) {
	b, _ := x.MarshalText()
	err := y.UnmarshalText(b)
	vf.Ensures("round-trip", err == nil && y == x)
}

//vf:verify GUID.Issuer
//vf:property P15
func spec_GUID_Issuer(x GUID) {
	vf.Pure()
	r := x.Issuer()
	has := strings.Contains(string(x), ":")
	vf.Ensures("no-issuer", has || r == "")
	vf.Ensures("prefix", !has || strings.HasPrefix(string(x), r+":"))
	vf.Ensures("last", !has || !strings.Contains(string(x)[len(r)+1:], ":"))
}

// ---- floats

// what the float parser makes of a text once everything but digits, signs,
// points and exponents is removed
//
//vf:uninterpreted
func spec_clean(d string) string { return cleanFloat.ReplaceAllString(d, "") }

//vf:uninterpreted
func spec_floatOK(s string, bits int) bool { _, err := strconv.ParseFloat(s, bits); return err == nil }

//vf:uninterpreted
func spec_floatVal(s string, bits int) float64 { v, _ := strconv.ParseFloat(s, bits); return v }

//vf:trusted regexp:(*Regexp).ReplaceAllString
//vf:norun
func assume_ReplaceAllString(re *regexp.Regexp, src, repl string) {
	r := re.ReplaceAllString(src, repl)
	vf.Ensures("cleaned", re != cleanFloat || repl != "" || r == spec_clean(src))
}

//vf:trusted strconv:ParseFloat
func assume_ParseFloat(s string, bitSize int) {
	vf.Requires(bitSize == 32 || bitSize == 64)
	v, err := strconv.ParseFloat(s, bitSize)
	vf.Ensures("function", (err == nil) == spec_floatOK(s, bitSize) && (err != nil || vf.Identical(v, spec_floatVal(s, bitSize))))
}

//vf:trusted strconv:FormatFloat
//vf:reason strconv.FormatFloat: the shortest decimal text that parses back to the value
func assume_FormatFloat(f float64, fmt byte, prec, bitSize int) {
	vf.Requires(fmt == 'f' && prec == -1 && (bitSize == 32 || bitSize == 64))
	r := strconv.FormatFloat(f, fmt, prec, bitSize)
	fin := !math.IsNaN(f) && !math.IsInf(f, 0)
	vf.Ensures("nan", !math.IsNaN(f) || r == "NaN")
	vf.Ensures("inf", (!math.IsInf(f, 1) || r == "+Inf") && (!math.IsInf(f, -1) || r == "-Inf"))
	vf.Ensures("clean", !fin || spec_clean(r) == r && strings.ToLower(r) == r && !spec_noFloat(r) && r != "nan" && r != "+inf" && r != "-inf" && r != "inf" && !strings.Contains(r, "\""))
	vf.Ensures("parses-back", !fin || bitSize == 32 && !vf.Identical(f, float64(float32(f))) || spec_floatOK(r, bitSize) && vf.Identical(spec_floatVal(r, bitSize), f))
}

func args_assume_FormatFloat(g *vf.Gen) (float64, byte, int, int) {
	f := gen_float(g)
	if g.Bool() {
		return float64(float32(f)), 'f', -1, 32
	}
	return f, 'f', -1, 64
}

func args_assume_ParseFloat(g *vf.Gen) (string, int) { return gen_text(g), 32 + 32*g.N(2) }

func gen_float(g *vf.Gen) float64 {
	switch g.N(8) {
	case 0:
		return math.NaN()
	case 1:
		return math.Inf(1)
	case 2:
		return math.Inf(-1)
	case 3:
		return float64(g.Int())
	case 4:
		return float64(g.Int()) / float64(1+g.N(1000))
	case 5:
		return math.Float64frombits(uint64(g.Int()))
	case 6:
		return float64(math.Float32frombits(uint32(g.Int())))
	}
	return []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1e21, 1e-7, math.MaxFloat64, math.SmallestNonzeroFloat64, math.MaxFloat32, math.SmallestNonzeroFloat32}[g.N(11)]
}

func gen_NullFloat(g *vf.Gen) NullFloat     { return NullFloat(gen_float(g)) }
func gen_NullFloat64(g *vf.Gen) NullFloat64 { return NullFloat64(gen_float(g)) }

// the same number, counting NaN as equal to itself
func spec_same64(a, b float64) bool { return a == b || math.IsNaN(a) && math.IsNaN(b) }

//vf:verify ParseNullFloat
//vf:property P15
func spec_ParseNullFloat(d string) {
	vf.Requires(EEmptyValue != nil)
	l := strings.ToLower(d)
	vf.Pure()
	r, err := ParseNullFloat(d)
	vf.Ensures("empty", spec_noFloat(l) == (err == EEmptyValue))
	vf.Ensures("nan", l != "nan" || err == nil && math.IsNaN(r.Value()))
	vf.Ensures("inf", l != "+inf" && l != "inf" || err == nil && math.IsInf(r.Value(), 1))
	vf.Ensures("neg-inf", l != "-inf" || err == nil && math.IsInf(r.Value(), -1))
	word := spec_noFloat(l) || l == "nan" || l == "+inf" || l == "inf" || l == "-inf"
	c := spec_clean(d)
	vf.Ensures("number", word || (err == nil) == spec_floatOK(c, 32) && (err != nil || vf.Identical(r, NullFloat(spec_floatVal(c, 32)))))
}

//vf:verify ParseNullFloat64
//vf:property P15
func spec_ParseNullFloat64(d string) {
	vf.Requires(EEmptyValue != nil)
	l := strings.ToLower(d)
	vf.Pure()
	r, err := ParseNullFloat64(d)
	vf.Ensures("empty", spec_noFloat(l) == (err == EEmptyValue))
	vf.Ensures("nan", l != "nan" || err == nil && math.IsNaN(r.Value()))
	vf.Ensures("inf", l != "+inf" && l != "inf" || err == nil && math.IsInf(r.Value(), 1))
	vf.Ensures("neg-inf", l != "-inf" || err == nil && math.IsInf(r.Value(), -1))
	word := spec_noFloat(l) || l == "nan" || l == "+inf" || l == "inf" || l == "-inf"
	c := spec_clean(d)
	vf.Ensures("number", word || (err == nil) == spec_floatOK(c, 64) && (err != nil || vf.Identical(r, NullFloat64(spec_floatVal(c, 64)))))
}

//vf:verify (*NullFloat).UnmarshalText
//vf:property P15
func spec_NullFloat_UnmarshalText(x *NullFloat, data []byte) {
	vf.Requires(x != nil && EEmptyValue != nil)
	old, l := *x, strings.ToLower(string(data))
	vf.Modifies(x)
	err := x.UnmarshalText(data)
	vf.Ensures("empty-keeps", !spec_noFloat(l) || err == nil && spec_same64(x.Value(), old.Value()))
	vf.Ensures("kept-on-error", err == nil || spec_same64(x.Value(), old.Value()))
}

//vf:verify (*NullFloat64).UnmarshalText
//vf:property P15
func spec_NullFloat64_UnmarshalText(x *NullFloat64, data []byte) {
	vf.Requires(x != nil && EEmptyValue != nil)
	old, l := *x, strings.ToLower(string(data))
	vf.Modifies(x)
	err := x.UnmarshalText(data)
	vf.Ensures("empty-keeps", !spec_noFloat(l) || err == nil && spec_same64(x.Value(), old.Value()))
	vf.Ensures("kept-on-error", err == nil || spec_same64(x.Value(), old.Value()))
}

//vf:lemma
//vf:inline *
//vf:property P15
func lemma_NullFloat_text(x NullFloat, y NullFloat) {
	vf.Requires(EEmptyValue != nil)
	b, _ := x.MarshalText()
	err := y.UnmarshalText(b)
	vf.Ensures("round-trip", err == nil && spec_same64(y.Value(), x.Value()))
}

//vf:lemma
//vf:inline *
//vf:property P15
func lemma_NullFloat64_text(x NullFloat64, y NullFloat64) {
	vf.Requires(EEmptyValue != nil)
	b, _ := x.MarshalText()
	err := y.UnmarshalText(b)
	vf.Ensures("round-trip", err == nil && spec_same64(y.Value(), x.Value()))
}

//vf:trusted encoding/json:Marshal
//vf:norun
//vf:reason json.Marshal of a float64: a number text that parses back to the value
func assume_json_Marshal(v interface{}) {
	b, err := json.Marshal(v)
	s := string(b)
	f, isF := v.(float64)
	fin := !math.IsNaN(f) && !math.IsInf(f, 0)
	vf.Ensures("number", !isF || !fin || err == nil && spec_clean(s) == s && strings.ToLower(s) == s && !spec_noFloat(s) && s != "nan" && s != "+inf" && s != "-inf" && s != "inf" && s[0] != '"')
	vf.Ensures("parses-back", !isF || !fin || spec_floatOK(s, 64) && vf.Identical(spec_floatVal(s, 64), f))
	vf.Ensures("parses-back-32", !isF || !fin || !vf.Identical(f, float64(float32(f))) || spec_floatOK(s, 32) && vf.Identical(spec_floatVal(s, 32), f))
	bl, isB := v.(bool)
	vf.Ensures("bool", !isB || err == nil && (bl && s == "true" || !bl && s == "false"))
}

//vf:lemma
//vf:inline *
//vf:property P15
func lemma_NullFloat_json(x NullFloat, y NullFloat) {
	vf.Requires(EEmptyValue != nil)
	b, _ := x.MarshalJSON()
	err := y.UnmarshalJSON(b)
	vf.Ensures("round-trip", err == nil && spec_same64(y.Value(), x.Value()))
}

//vf:lemma
//vf:inline *
//vf:property P15
func lemma_NullFloat64_json(x NullFloat64, y NullFloat64) {
	vf.Requires(EEmptyValue != nil)
	b, _ := x.MarshalJSON()
	err := y.UnmarshalJSON(b)
	vf.Ensures("round-trip", err == nil && spec_same64(y.Value(), x.Value()))
}

// ---- durations

//vf:uninterpreted
func spec_durText(d int64) string { return time.Duration(d).String() }

//vf:uninterpreted
func spec_durOK(s string) bool { _, err := time.ParseDuration(s); return err == nil }

//vf:uninterpreted
func spec_durVal(s string) int64 { v, _ := time.ParseDuration(s); return int64(v) }

//vf:trusted time:ParseDuration
//vf:norun
func assume_ParseDuration(s string) {
	v, err := time.ParseDuration(s)
	vf.Ensures("function", (err == nil) == spec_durOK(s) && (err != nil || int64(v) == spec_durVal(s)))
}

//vf:trusted time:(Duration).String
//vf:reason time.Duration.String: a text with a unit, which ParseDuration reads back
func assume_Duration_String(d time.Duration) {
	r := d.String()
	_, err := strconv.ParseInt(r, 10, 64)
	vf.Ensures("not-a-number", err != nil)
	vf.Ensures("reads-back", spec_durOK(r) && spec_durVal(r) == int64(d))
}

//vf:verify ParseDuration
//vf:property P15
//vf:wrap
func spec_ParseDuration(d string) {
	n, bad := strconv.ParseInt(d, 10, 64)
	vf.Pure()
	r, err := ParseDuration(d)
	vf.Ensures("seconds", bad != nil || n > 9000000000 || n < -9000000000 || err == nil && int64(r) == n*1000000000)
	vf.Ensures("duration-text", bad == nil || !spec_durOK(d) || err == nil && int64(r) == spec_durVal(d))
}

//vf:verify (*Duration).UnmarshalText
//vf:property P15
func spec_Duration_UnmarshalText(x *Duration, data []byte) {
	vf.Requires(x != nil)
	old := *x
	vf.Modifies(x)
	err := x.UnmarshalText(data)
	vf.Ensures("kept-on-error", err == nil || *x == old)
}

//vf:verify (*Duration).UnmarshalJSON
//vf:property P15
//vf:wrap
func spec_Duration_UnmarshalJSON(x *Duration, data []byte) {
	vf.Requires(x != nil)
	old := *x
	vf.Modifies(x)
	err := x.UnmarshalJSON(data)
	vf.Ensures("kept-on-error", err == nil || *x == old)
}

//vf:lemma
//vf:inline *
//vf:property P15
//vf:wrap
func lemma_Duration_text(x Duration, y Duration) {
	b, _ := x.MarshalText()
	err := y.UnmarshalText(b)
	vf.Ensures("round-trip", err == nil && y == x)
}

// ---- rationals

//vf:verify gcd
//vf:property P15
//vf:wrap
func spec_gcd(x, y int64) {
	vf.Pure()
	vf.LoopInv(func(x, y int64) bool { return x != 0 || y != 0 })
	vf.Requires(x != 0 || y != 0)
	r := gcd(x, y)
	vf.Ensures("not-zero", r != 0)
}

//vf:verify FloatToRational
//vf:property P15
//vf:wrap
func spec_FloatToRational(f float32) {
	vf.Pure()
	r := FloatToRational(f)
	_ = r
}

//vf:verify Rational.String
//vf:property P15
func spec_Rational_String(x Rational) {
	vf.Pure()
	r := x.String()
	vf.Ensures("fraction", r == strconv.FormatInt(x.Num, 10)+"/"+strconv.FormatInt(x.Den, 10))
}

//vf:verify (*Rational).UnmarshalText
//vf:property P15
//vf:wrap
func spec_Rational_UnmarshalText(x *Rational, data []byte) {
	vf.Requires(x != nil)
	old, v := *x, string(data)
	n, bad := strconv.ParseInt(v, 10, 64)
	vf.Modifies(x)
	err := x.UnmarshalText(data)
	vf.Ensures("empty-keeps", v != "" || err == nil && *x == old)
	vf.Ensures("kept-on-error", err == nil || *x == old)
	vf.Ensures("integer", bad != nil || err == nil && x.Num == n && x.Den == 1)
}

//vf:lemma
//vf:inline *
//vf:property P15
//vf:wrap
func lemma_Rational_text(x Rational, y Rational) {
	b, _ := x.MarshalText()
	err := y.UnmarshalText(b)
	vf.Ensures("round-trip", err == nil && y == x)
}

// ---- Min and Max

//vf:verify Max
//vf:property P15
func spec_Max(x, y int) {
	vf.Pure()
	r := Max(x, y)
	vf.Ensures("greatest", r >= x && r >= y && (r == x || r == y))
}

//vf:verify Min
//vf:property P15
func spec_Min(x, y int) {
	vf.Pure()
	r := Min(x, y)
	vf.Ensures("least", r <= x && r <= y && (r == x || r == y))
}

//vf:verify Max64
//vf:property P15
func spec_Max64(x, y int64) {
	vf.Pure()
	r := Max64(x, y)
	vf.Ensures("greatest", r >= x && r >= y && (r == x || r == y))
}

//vf:verify Min64
//vf:property P15
func spec_Min64(x, y int64) {
	vf.Pure()
	r := Min64(x, y)
	vf.Ensures("least", r <= x && r <= y && (r == x || r == y))
}

// ---- string lists as lines of text

//vf:verify (*StringList).UnmarshalText
//vf:property P15
func spec_StringList_UnmarshalText(x *StringList, data []byte) {
	vf.Requires(x != nil)
	old := vf.Snap(*x)
	parts := vf.Snap(strings.Split(strings.Replace(string(data), "\r\n", "\n", -1), "\n"))
	vf.Modifies(x)
	vf.ModifiesElems(*x)
	err := x.UnmarshalText(data)
	n := len(old)
	vf.Ensures("length", err == nil && len(*x) == n+len(parts))
	vf.Ensures("kept", vf.Forall(0, n, func(i int) bool { return (*x)[i] == old[i] }))
	vf.Ensures("lines", vf.Forall(0, len(parts), func(i int) bool { return (*x)[n+i] == parts[i] }))
}

//vf:verify (*StringArray).UnmarshalText
//vf:property P15
func spec_StringArray_UnmarshalText(x *StringArray, data []byte) {
	vf.Requires(x != nil)
	old := vf.Snap(*x)
	parts := vf.Snap(strings.Split(strings.Replace(string(data), "\r\n", "\n", -1), "\n"))
	vf.Modifies(x)
	vf.ModifiesElems(*x)
	err := x.UnmarshalText(data)
	n := len(old)
	vf.Ensures("length", err == nil && len(*x) == n+len(parts))
	vf.Ensures("kept", vf.Forall(0, n, func(i int) bool { return (*x)[i] == old[i] }))
	vf.Ensures("lines", vf.Forall(0, len(parts), func(i int) bool { return (*x)[n+i] == parts[i] }))
}

func gen_line(g *vf.Gen) string {
	return g.Pick("", "a", "b c", "-", ",", "\t", "\x00", "é", "\r", "\n", g.Str())
}

func gen_lines(g *vf.Gen) []string {
	var l []string
	for n := g.N(5); n > 0; n-- {
		l = append(l, gen_line(g))
	}
	return l
}

func gen_StringList(g *vf.Gen) StringList   { return StringList(gen_lines(g)) }
func gen_StringArray(g *vf.Gen) StringArray { return StringArray(gen_lines(g)) }

func spec_isLine(s string) bool { return !strings.Contains(s, "\n") && !strings.Contains(s, "\r") }

//vf:lemma
//vf:inline *
//vf:property P15
func lemma_StringList_text(x StringList) {
	vf.Requires(len(x) > 0 && vf.Forall(0, len(x), func(i int) bool { return spec_isLine(x[i]) }))
	var y StringList
	b, _ := x.MarshalText()
	err := y.UnmarshalText(b)
	vf.Ensures("round-trip", err == nil && len(y) == len(x) && vf.Forall(0, len(x), func(i int) bool { return y[i] == x[i] }))
}

//vf:lemma
//vf:inline *
//vf:property P15
func lemma_StringArray_text(x StringArray) {
	vf.Requires(len(x) > 0 && vf.Forall(0, len(x), func(i int) bool { return spec_isLine(x[i]) }))
	var y StringArray
	b, _ := x.MarshalText()
	err := y.UnmarshalText(b)
	vf.Ensures("round-trip", err == nil && len(y) == len(x) && vf.Forall(0, len(x), func(i int) bool { return y[i] == x[i] }))
}

// ---- dates

//vf:trusted time:Parse
//vf:norun
func assume_time_Parse(layout, value string) { _, _ = time.Parse(layout, value) }

//vf:verify repairTZ
//vf:property P15
func spec_repairTZ(value string) {
	zero := illegalZero.Contains(value)
	vf.Pure()
	r := repairTZ(value)
	vf.Ensures("zero-time", !zero || r == "0001-01-01T00:00:00Z")
	vf.Ensures("short-kept", zero || len(value) >= 20 || r == value)
	vf.Ensures("regular-zone-kept", zero || len(value) < 20 || value[len(value)-1] != 'Z' || !spec_digits4(value[len(value)-6:len(value)-1]) || r == value)
	vf.Ensures("length", zero || len(r) >= len(value)-1)
}

func spec_digits4(s string) bool {
	return s[0] != '+' && s[0] != '-' && s[0] != 'Z' && s[1] != '+' && s[1] != '-' && s[1] != 'Z' && s[4] != '+' && s[4] != '-' && s[4] != 'Z'
}

//vf:verify ParseDate
//vf:property P15
func spec_ParseDate(value string) {
	vf.Pure()
	_, err := ParseDate(value)
	vf.Ensures("empty", value != "" || err != nil)
}

func spec_sameTime(a, b Date) bool { return a.Value().Equal(b.Value()) }

//vf:verify (*Date).UnmarshalText
//vf:property P15
func spec_Date_UnmarshalText(x *Date, data []byte) {
	vf.Requires(x != nil)
	old, d := *x, string(data)
	vf.Modifies(x)
	err := x.UnmarshalText(data)
	vf.Ensures("kept-on-error", err == nil || *x == old)
	vf.Ensures("empty", d != "" || err == nil && *x == Date{})
}

//vf:verify ParseTime
//vf:property P15
func spec_ParseTime(value string) {
	vf.Pure()
	_, err := ParseTime(value)
	vf.Ensures("empty", value != "" || err != nil)
}

//vf:verify (*Time).UnmarshalText
//vf:property P15
func spec_Time_UnmarshalText(x *Time, data []byte) {
	vf.Requires(x != nil)
	old, d := *x, string(data)
	vf.Modifies(x)
	err := x.UnmarshalText(data)
	vf.Ensures("kept-on-error", err == nil || *x == old)
	vf.Ensures("empty-keeps", d != "" || err == nil && *x == old)
}

func gen_Date(g *vf.Gen) Date {
	if g.Chance(10) {
		return Date{}
	}
	zone := time.FixedZone("", 900*(g.N(105)-48))
	return Date(time.Date(1+g.N(9998), time.Month(1+g.N(12)), 1+g.N(28), g.N(24), g.N(60), g.N(60), 0, zone))
}

//vf:boundedlemma
//vf:property P15
func lemma_Date_text(x Date, y Date) {
	b, err0 := x.MarshalText()
	err := y.UnmarshalText(b)
	vf.Ensures("round-trip", err0 == nil && err == nil && y.Value().Equal(x.Value()))
}

func gen_Time(g *vf.Gen) Time { return gen_Date(g).Time() }

//vf:boundedlemma
//vf:property P15
func lemma_Time_text(x Time) {
	vf.Requires(!x.IsZero())
	var y Time
	b, err0 := x.MarshalText()
	err := y.UnmarshalText(b)
	vf.Ensures("round-trip", err0 == nil && err == nil && y.String() == x.String())
}
