//go:build go1.21

package exif

//vf:needs xmp

import (
	"math"
	"strconv"
	"strings"
	"time"

	"github.com/trimmer-io/go-xmp/xmp"

	vf "github.com/trimmer-io/go-xmp/verifdsl"
)

var gen_texts = []string{"", "0", "1", "25", "73", "255", "256", "-1", "1 2 3", " 7  8 ", "1 x", "2 2 a b 1/2 3/4 0/1 5/0", "2 1 65 66", "-1 2 a", "-1 -1 1", "99999999999 9 1", "3 99999999999999999 1", "1 -5 7",
	"2017:02:03 04:05:06", "2017-02-03T04:05:06Z", "2017", "12.5", "-12.25", "1234.5", "NaN", "Inf", "-", "1e300", "1/2", "é", "\x00"}

func gen_text(g *vf.Gen) string {
	if g.Chance(60) {
		return gen_texts[g.N(len(gen_texts))]
	}
	return g.Str()
}

func gen_textBytes(g *vf.Gen) []byte { return []byte(gen_text(g)) }

// ---- flash

//vf:verify (*Flash).UnmarshalText
//vf:property P20
//vf:wrap
func spec_Flash_UnmarshalText(x *Flash, data []byte) {
	vf.Requires(x != nil)
	old := *x
	s := string(data)
	n, bad := strconv.ParseInt(s, 10, 32)
	vf.Modifies(x)
	err := x.UnmarshalText(data)
	vf.Ensures("empty-keeps", len(s) > 0 || err == nil && *x == old)
	vf.Ensures("number", len(s) == 0 || (err == nil) == (bad == nil))
	vf.Ensures("kept-on-error", err == nil || *x == old)
	set := len(s) > 0 && err == nil
	vf.Ensures("fired", !set || x.Fired.Value() == (n&1 != 0))
	vf.Ensures("return", !set || int64(x.Return) == n>>1&3)
	vf.Ensures("mode", !set || int64(x.Mode) == n>>3&3)
	vf.Ensures("function", !set || x.Function.Value() == (n&32 != 0))
	vf.Ensures("red-eye", !set || x.RedEyeMode.Value() == (n&64 != 0))
}

func args_spec_Flash_UnmarshalText(g *vf.Gen) (*Flash, []byte) {
	x := &Flash{Mode: FlashMode(g.N(4)), Fired: xmp.Bool(g.Bool())}
	if g.Chance(70) {
		return x, []byte(strconv.Itoa(g.N(128)))
	}
	return x, gen_textBytes(g)
}

// the seven bits of the numeric form are all found again
//
//vf:lemma
//vf:property P20
//vf:wrap
func lemma_Flash_bits(n int64) {
	vf.Requires(n >= 0 && n < 128)
	var x Flash
	err := x.UnmarshalText([]byte(strconv.FormatInt(n, 10)))
	vf.Ensures("read", err == nil)
	r := int64(x.Return)<<1 + int64(x.Mode)<<3
	if x.Fired {
		r += 1
	}
	if x.Function {
		r += 32
	}
	if x.RedEyeMode {
		r += 64
	}
	vf.Ensures("bits", r == n)
}

func args_lemma_Flash_bits(g *vf.Gen) int64 { return int64(g.N(128)) }

// ---- byte arrays

func spec_byteOK(s string) bool { _, err := strconv.ParseUint(s, 10, 8); return err == nil }
func spec_byteVal(s string) byte {
	v, _ := strconv.ParseUint(s, 10, 8)
	return byte(v)
}

//vf:verify ByteArray.String
//vf:property P20
func spec_ByteArray_String(x ByteArray) {
	vf.Pure()
	vf.LoopInv(func(s []string, k int) bool {
		return len(s) == len(x) && vf.Forall(0, k, func(j int) bool { return s[j] == strconv.Itoa(int(x[j])) })
	})
	r := x.String()
	_ = r
}

//vf:verify (*ByteArray).UnmarshalText
//vf:property P20
//vf:wrap
func spec_ByteArray_UnmarshalText(x *ByteArray, data []byte) {
	vf.Requires(x != nil)
	old := vf.Snap(*x)
	f := vf.Snap(strings.Fields(string(data)))
	vf.Modifies(x)
	vf.LoopInv(func(fields []string, a ByteArray, k int) bool {
		return len(fields) == len(f) && len(a) == len(f) && vf.Forall(0, k, func(j int) bool { return spec_byteOK(f[j]) && a[j] == spec_byteVal(f[j]) })
	})
	err := x.UnmarshalText(data)
	vf.Ensures("kept", err == nil && len(f) > 0 || len(*x) == len(old) && vf.Forall(0, len(old), func(i int) bool { return (*x)[i] == old[i] }))
	vf.Ensures("bytes", (err == nil) == vf.Forall(0, len(f), func(i int) bool { return spec_byteOK(f[i]) }))
	vf.Ensures("values", err != nil || len(f) == 0 || len(*x) == len(f) && vf.Forall(0, len(f), func(i int) bool { return (*x)[i] == spec_byteVal(f[i]) }))
}

//vf:boundedlemma
//vf:property P20
//vf:reason splitting a joined list of unknown length
func lemma_ByteArray_text(x ByteArray) {
	vf.Requires(len(x) > 0)
	var y ByteArray
	b, _ := x.MarshalText()
	err := y.UnmarshalText(b)
	vf.Ensures("round-trip", err == nil && len(y) == len(x) && vf.Forall(0, len(x), func(i int) bool { return y[i] == x[i] }))
}

// ---- tables

//vf:verify (*CFAPattern).UnmarshalText
//vf:property P20
//vf:wrap
func spec_CFAPattern_UnmarshalText(x *CFAPattern, data []byte) {
	vf.Requires(x != nil)
	c, r, n := x.Columns, x.Rows, len(x.Values)
	vf.Modifies(x)
	vf.LoopInv(func(c CFAPattern) bool { return cap(c.Values) == 0 || vf.Fresh(c.Values) })
	err := x.UnmarshalText(data)
	vf.Ensures("kept-on-error", err == nil || x.Columns == c && x.Rows == r && len(x.Values) == n)
}

//vf:verify (*DeviceSettings).UnmarshalText
//vf:property P20
//vf:wrap
func spec_DeviceSettings_UnmarshalText(x *DeviceSettings, data []byte) {
	vf.Requires(x != nil)
	c, r, n := x.Columns, x.Rows, len(x.Values)
	vf.Modifies(x)
	vf.LoopInv(func(s DeviceSettings) bool { return cap(s.Values) == 0 || vf.Fresh(s.Values) })
	err := x.UnmarshalText(data)
	vf.Ensures("kept-on-error", err == nil || x.Columns == c && x.Rows == r && len(x.Values) == n)
}

//vf:verify (*OECF).UnmarshalText
//vf:property P20
//vf:wrap
func spec_OECF_UnmarshalText(x *OECF, data []byte) {
	vf.Requires(x != nil)
	c, r, n := x.Columns, x.Rows, len(x.Values)
	vf.Modifies(x)
	vf.LoopInv(func(o OECF) bool {
		return (cap(o.Values) == 0 || vf.Fresh(o.Values)) && (cap(o.Names) == 0 || vf.Fresh(o.Names))
	})
	err := x.UnmarshalText(data)
	vf.Ensures("kept-on-error", err == nil || x.Columns == c && x.Rows == r && len(x.Values) == n)
}

// ---- dates and coordinates

//vf:bounded convertDateToXMP
//vf:property P20
//vf:reason package time
func bounded_convertDateToXMP(d Date, s string) {
	r, err := convertDateToXMP(d, s)
	_, _ = r, err
}

//vf:boundedlemma
//vf:property P20
//vf:reason calendar arithmetic of package time
func lemma_convertDateToXMP(d Date, digits string) {
	r, err := convertDateToXMP(d, digits)
	vf.Ensures("read", err == nil)
	n := digits
	for len(n) < 9 {
		n += "0"
	}
	ns, _ := strconv.Atoi(n)
	vf.Ensures("date", r.Value().Unix() == d.Value().Unix())
	vf.Ensures("subseconds", r.Value().Nanosecond() == ns)
}

func args_lemma_convertDateToXMP(g *vf.Gen) (Date, string) {
	s := strconv.Itoa(g.N(1000000000))
	if g.Chance(30) {
		s = "00" + s
	}
	if n := 1 + g.N(9); len(s) > n {
		s = s[:n]
	}
	if len(s) > 9 {
		s = s[:9]
	}
	return Date(time.Unix(int64(g.N(2000000000)), 0)), s
}

//vf:boundedlemma
//vf:property P20
//vf:reason calendar arithmetic of package time
func lemma_Date_text(d Date) {
	vf.Requires(!d.IsZero())
	b, err := d.MarshalText()
	var y Date
	err2 := y.UnmarshalText(b)
	vf.Ensures("round-trip", err == nil && err2 == nil && y.Value().Equal(d.Value()))
}

func args_lemma_Date_text(g *vf.Gen) Date {
	return Date(time.Date(g.N(10000), time.Month(1+g.N(12)), 1+g.N(31), g.N(24), g.N(60), g.N(60), 0, time.UTC))
}

//vf:bounded (*Date).UnmarshalText
//vf:property P20
//vf:reason package time
func bounded_Date_UnmarshalText(x *Date, data []byte) {
	old := *x
	vf.Modifies(x)
	err := x.UnmarshalText(data)
	vf.Ensures("kept-on-error", err == nil || *x == old)
}

func args_bounded_Date_UnmarshalText(g *vf.Gen) (*Date, []byte) {
	d := Date(time.Unix(5, 0))
	return &d, gen_textBytes(g)
}

//vf:bounded (*GPSCoord).UnmarshalText
//vf:property P20
//vf:reason floating-point arithmetic
func bounded_GPSCoord_UnmarshalText(x *GPSCoord, data []byte) {
	vf.Requires(x != nil)
	old := *x
	vf.Modifies(x)
	err := x.UnmarshalText(data)
	vf.Ensures("kept-on-error", err == nil || *x == old)
}

//vf:boundedlemma
//vf:property P20
//vf:reason floating-point arithmetic
func lemma_GPSCoord_text(centideg int) {
	f := float64(centideg) / 100
	var x GPSCoord
	err := x.UnmarshalText([]byte(strconv.FormatFloat(f, 'f', -1, 64)))
	vf.Ensures("read", err == nil)
	got := x[0].Value() + x[1].Value()/60 + x[2].Value()/3600
	vf.Ensures("value", math.Abs(got-math.Abs(f)) < 1e-4)
	out, err := convertGPStoXMP(x, "N")
	vf.Ensures("converted", err == nil && strings.HasSuffix(string(out), "N"))
	p := strings.Split(strings.TrimSuffix(string(out), "N"), ",")
	vf.Ensures("two-parts", len(p) == 2)
	deg, e1 := strconv.Atoi(p[0])
	min, e2 := strconv.ParseFloat(p[1], 64)
	vf.Ensures("xmp-value", e1 == nil && e2 == nil && min >= 0 && min < 60.0001 && math.Abs(float64(deg)+min/60-math.Abs(f)) < 1e-4)
}

func args_lemma_GPSCoord_text(g *vf.Gen) int { return g.N(36000) - 18000 }

//vf:bounded convertGPSTimestamp
//vf:property P20
//vf:reason package time
func bounded_convertGPSTimestamp(date Date, x xmp.RationalArray) {
	r := convertGPSTimestamp(date, x)
	_ = r
}

func gen_Date(g *vf.Gen) Date {
	if g.Chance(20) {
		return Date{}
	}
	return Date(time.Unix(int64(g.N(2000000000)), 0))
}
