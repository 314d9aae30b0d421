//go:build go1.21

package xmp

import (
	"io"
	"strings"

	vf "github.com/trimmer-io/go-xmp/verifdsl"
)

const (
	spec_begin = "<?xpacket begin"
	spec_end   = "<?xpacket end"
	spec_magic = "W5M0MpCehiHzreSzNTczkc9d"
)

// position just after the first complete packet starting at the first begin
// marker, or -1
func spec_packetEnd(text string) int {
	s := strings.Index(text, spec_begin)
	if s < 0 {
		return -1
	}
	e := strings.Index(text[s:], spec_end)
	if e < 0 || s+e+len(spec_end)+6 > len(text) {
		return -1
	}
	return s + e + len(spec_end) + 6
}

//vf:verify splitPacket
//vf:property P08
func spec_splitPacket(data []byte, atEOF bool) {
	vf.Pure()
	text := string(data)
	start := strings.Index(text, spec_begin)
	end := spec_packetEnd(text)
	advance, token, err := splitPacket(data, atEOF)
	vf.Ensures("no-error", err == nil)
	vf.Ensures("advance-in-data", 0 <= advance && advance <= len(data))
	vf.Ensures("token-iff-complete-packet", (token != nil) == (end >= 0))
	vf.Ensures("token-ends-the-advance", end < 0 || advance == end)
	vf.Ensures("token-is-the-packet", end < 0 || string(token) == text[start:end])
	// nothing that is or may become the begin of a packet is skipped
	vf.Ensures("begin-marker-kept", end >= 0 || atEOF || start < 0 || advance <= start)
	vf.Ensures("partial-marker-kept", end >= 0 || atEOF || start >= 0 || advance == 0 || advance <= len(data)-len(spec_begin)+1)
}

//vf:verify isXmpPacket
//vf:property P08 P18
func spec_isXmpPacket(b []byte) {
	vf.Pure()
	n := len(b)
	if n > 51 {
		n = 51
	}
	head := string(b[:n])
	r := isXmpPacket(b)
	vf.Ensures("id-in-header", r == strings.Contains(head, spec_magic))
}

// a packet found in a prefix of the stream is the packet found in the stream
//
//vf:boundedlemma
//vf:property P08
//vf:reason three nested substring searches over a concatenation: unknown to all solvers
func lemma_splitPacket_token_stable(p, q string, atEOF bool) {
	a, t, _ := splitPacket([]byte(p), false)
	b, u, _ := splitPacket([]byte(p+q), atEOF)
	vf.Ensures("same-packet", t == nil || u != nil && b == a && string(t) == string(u))
}

// what is skipped before a packet is found holds no part of a packet
//
//vf:lemma
//vf:property P08
func lemma_splitPacket_skip_stable(p, q string) {
	a, t, _ := splitPacket([]byte(p), false)
	whole := p + q
	vf.Requires(t == nil)
	s := strings.Index(whole, spec_begin)
	vf.Ensures("begin-not-skipped", s < 0 || a <= s)
}

// ---- the whole scan, over chunking readers (the scanner itself is library code)

// spec_stream is a byte stream and the sizes of the chunks it is read in.
type spec_stream struct {
	Text   string
	Chunks []int
}

func (s spec_stream) reader() io.Reader { return &spec_chunks{[]byte(s.Text), s.Chunks, 0} }

type spec_chunks struct {
	b  []byte
	sz []int
	i  int
}

func (c *spec_chunks) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	n := len(p)
	if len(c.sz) > 0 {
		if k := c.sz[c.i%len(c.sz)]; k < n {
			n = k
		}
		c.i++
	}
	n = copy(p[:n], c.b)
	c.b = c.b[n:]
	return n, nil
}

func gen_spec_stream(g *vf.Gen) spec_stream {
	var s spec_stream
	n := g.N(9)
	for i := 0; i < n; i++ {
		switch g.N(10) {
		case 0:
			s.Text += g.Str()
		case 1:
			s.Text += g.Pick(spec_begin, spec_end, spec_magic, "<?xpacket ", "<?xpacket end=\"w\"?>", "<", "<?", "<?xpacket begi", "<?xpacket en")
		case 2:
			k := 1 + g.N(60)
			if g.Chance(8) {
				k = g.N(9000)
			}
			s.Text += strings.Repeat(g.Pick("x", " ", "<", "<?xpacket", "filler "), k)
		case 3: // a packet without the id, or with the id too late
			s.Text += spec_begin + "=\"\" id=\"" + strings.Repeat("-", g.N(30)) + spec_magic[:g.N(len(spec_magic)+1)] + "\"?>" + g.Str() + spec_end + "=\"w\"?>"
		default:
			body := g.Str()
			if g.Chance(3) {
				body += strings.Repeat(g.Pick("y", " ", "<a>"), g.N(10000))
			}
			s.Text += spec_begin + g.Pick("=\"\" id=\"", "=\"\xef\xbb\xbf\" id=\"", "='' id='") + spec_magic + g.Pick("\"", "'") + "?>" + body + spec_end + g.Pick("=\"w\"?>", "=\"r\"?>", "='w'?>", "=\"w\"")
		}
	}
	if len(s.Text) > 60000 {
		s.Text = s.Text[:60000]
	}
	for i := g.N(5); i > 0; i-- {
		switch g.N(4) {
		case 0:
			s.Chunks = append(s.Chunks, 1+g.N(3))
		case 1:
			s.Chunks = append(s.Chunks, 4090+g.N(12))
		default:
			s.Chunks = append(s.Chunks, 1+g.N(64))
		}
	}
	return s
}

// the packets of a text: split at the first complete packet, again and again
func spec_packets(text string) (out []string) {
	for {
		end := spec_packetEnd(text)
		if end < 0 {
			return
		}
		p := text[strings.Index(text, spec_begin):end]
		head := p
		if len(head) > 51 {
			head = head[:51]
		}
		if strings.Contains(head, spec_magic) {
			out = append(out, p)
		}
		text = text[end:]
	}
}

//vf:bounded ScanPackets
//vf:property P08
//vf:reason bufio.Scanner is library code; streams up to 60000 bytes, generated chunkings
func spec_ScanPackets(r io.Reader) {
	s, ok := r.(*spec_chunks)
	vf.Requires(ok)
	want := spec_packets(string(s.b))
	whole := string(s.b)
	vf.Modifies(r)
	got, err := ScanPackets(r)
	vf.Ensures("eof-iff-none", (err != nil) == (len(want) == 0) && (err == nil || err == io.EOF && got == nil))
	same := len(got) == len(want)
	for i := 0; same && i < len(got); i++ {
		same = string(got[i]) == want[i]
	}
	vf.Ensures("the-packets-in-order", same)
	// the result does not depend on the chunking
	again, err2 := ScanPackets(strings.NewReader(whole))
	same = len(got) == len(again) && (err == nil) == (err2 == nil)
	for i := 0; same && i < len(got); i++ {
		same = string(got[i]) == string(again[i])
	}
	vf.Ensures("chunking-is-irrelevant", same)
}

func gen_reader(g *vf.Gen) io.Reader { return vf.Any[spec_stream](g).reader() }
