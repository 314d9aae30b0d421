//go:build go1.21

package xmp

import (
	"bytes"
	"io"

	vf "github.com/trimmer-io/go-xmp/verifdsl"
)

// Ghost state: the bytes the underlying writer has accepted so far, and what is
// left to read in each bytes.Reader.
var (
	spec_sent string
	spec_rest = map[*bytes.Reader]string{}
)

// spec_sink is a writer that records what it accepts and fails on demand.
type spec_sink struct {
	Got   string
	Room  int // bytes accepted before it fails
	Fails bool
}

type spec_sinkFull struct{}

func (spec_sinkFull) Error() string { return "sink full" }

func (s *spec_sink) Write(b []byte) (int, error) {
	if s.Fails && len(b) > s.Room {
		s.Got += string(b[:s.Room])
		n := s.Room
		s.Room = 0
		return n, spec_sinkFull{}
	}
	if s.Fails {
		s.Room -= len(b)
	}
	s.Got += string(b)
	return len(b), nil
}

func gen_sink(g *vf.Gen) io.Writer {
	return &spec_sink{Got: g.Pick("", "", "before"), Room: g.N(20), Fails: g.Chance(25)}
}

func gen_countWriter(g *vf.Gen) *countWriter {
	w := &countWriter{w: gen_sink(g), n: int64(g.N(30))}
	if g.Chance(75) {
		w.limit = w.n + int64(g.N(12))
	}
	return w
}

// what the underlying writer has received
func spec_received(w io.Writer) string {
	if vf.Symbolic() {
		return spec_sent
	}
	return w.(*spec_sink).Got
}

func spec_sinkOf(w io.Writer) *spec_sink {
	if vf.Symbolic() {
		return nil
	}
	return w.(*spec_sink)
}

//vf:iface io.Writer.Write
//vf:norun
//vf:reason io.Writer: accepts a prefix of the data, and gives an error when it is not all of it
func assume_Writer_Write(w io.Writer, b []byte) {
	old := spec_sent
	vf.Modifies(&spec_sent)
	n, err := w.Write(b)
	vf.Ensures("range", 0 <= n && n <= len(b))
	vf.Ensures("short-write-error", n == len(b) || err != nil)
	vf.Ensures("sent", spec_sent == old+string(b[:n]))
}

//vf:trusted bytes:NewReader
//vf:norun
//vf:reason bytes.NewReader: a reader over exactly the given bytes
func assume_bytes_NewReader(b []byte) {
	vf.Modifies(spec_rest)
	r := bytes.NewReader(b)
	vf.Ensures("made", r != nil && vf.Fresh(r))
	vf.Ensures("content", spec_rest[r] == string(b))
}

//vf:trusted io:CopyN
//vf:norun
//vf:reason io.CopyN from a bytes.Reader: moves at most n bytes and reports an error exactly when fewer than n were moved (or the writer failed)
func assume_io_CopyN(dst io.Writer, src io.Reader, n int64) {
	r, ok := src.(*bytes.Reader)
	vf.Requires(ok && r != nil && n >= 0)
	rest := spec_rest[r]
	old := spec_sent
	vf.Modifies(&spec_sent, spec_rest)
	m, err := io.CopyN(dst, src, n)
	vf.Ensures("range", 0 <= m && m <= n && m <= int64(len(rest)))
	vf.Ensures("error-iff-short", (err == nil) == (m == n))
	vf.Ensures("sent", spec_sent == old+rest[:m])
	vf.Ensures("rest", spec_rest[r] == rest[m:])
}

//vf:verify min
//vf:property P09
func spec_min(a, b int64) {
	vf.Pure()
	r := min(a, b)
	vf.Ensures("least", r <= a && r <= b && (r == a || r == b))
}

//vf:verify newCountWriter
//vf:property P09
//vf:norun
func spec_newCountWriter(w io.Writer) {
	vf.Pure()
	r := newCountWriter(w)
	vf.Ensures("fresh", r != nil && vf.Fresh(r))
	vf.Ensures("unlimited", r.limit == 0 && r.n == 0 && r.w == w)
}

//vf:verify (*countWriter).Write
//vf:property P09
func spec_countWriter_Write(w *countWriter, b []byte) {
	vf.Requires(w != nil && w.w != nil && w.n >= 0 && (w.limit <= 0 || w.n <= w.limit))
	vf.Requires(w.n < 1<<62 && len(b) < 1<<62)
	n0, limit, under := w.n, w.limit, w.w
	before := spec_received(under)
	data := string(b)
	vf.Modifies(&w.n, &spec_sent, spec_rest, spec_sinkOf(under))
	n, err := w.Write(b)
	vf.Ensures("range", 0 <= n && n <= len(data))
	vf.Ensures("prefix-reaches-the-writer", spec_received(under) == before+data[:n])
	vf.Ensures("counted", w.n == n0+int64(n) && w.limit == limit && w.w == under)
	vf.Ensures("limit-kept", limit <= 0 || w.n <= limit)
	vf.Ensures("cut-is-reported", n == len(data) || err != nil)
	vf.Ensures("overflow-error", !(limit > 0 && n0+int64(len(data)) > limit && w.n == limit) || err == ErrOverflow)
	vf.Ensures("no-spurious-error", !(limit > 0 && n0 < limit && n == len(data)) || err == nil)
}
