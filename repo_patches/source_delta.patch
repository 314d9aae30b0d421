From b0cb3a145eb81decce8558fefc35cbd3fa94af08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 01/19] fix: list Remove duplicated the head instead of
 dropping the element

StringList.Remove and StringArray.Remove appended (*x)[:idx+1] again
instead of the tail (*x)[idx+1:].
---
 xmp/array.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmp/array.go b/xmp/array.go
index b75ab40..c848417 100644
--- a/xmp/array.go
+++ b/xmp/array.go
@@ -395,7 +395,7 @@ func (x *StringList) Remove(v string) {
 		return
 	}
 	if idx := x.Index(v); idx > -1 {
-		*x = append((*x)[:idx], (*x)[:idx+1]...)
+		*x = append((*x)[:idx], (*x)[idx+1:]...)
 	}
 }
 
@@ -499,7 +499,7 @@ func (x *StringArray) Remove(v string) {
 		return
 	}
 	if idx := x.Index(v); idx > -1 {
-		*x = append((*x)[:idx], (*x)[:idx+1]...)
+		*x = append((*x)[:idx], (*x)[idx+1:]...)
 	}
 }
 
-- 
2.43.0


From 622c6f766df26a23b92c247c67fb57f9f503a134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 02/19] fix: EnsureDefault panicked when no item was marked
 default

With two or more items and no default the index stayed -1; the first item
now becomes the default (NewAltString with plain strings, removing the
default language).
---
 xmp/array.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xmp/array.go b/xmp/array.go
index c848417..7d70811 100644
--- a/xmp/array.go
+++ b/xmp/array.go
@@ -108,6 +108,10 @@ func (a *AltString) EnsureDefault() {
 				}
 			}
 		}
+		if idx < 0 {
+			idx = 0
+			(*a)[0].IsDefault = true
+		}
 		if idx != 0 {
 			(*a)[idx], (*a)[0] = (*a)[0], (*a)[idx]
 		}
-- 
2.43.0


From ad8b4c7c8e498ee47d9aabde2215663cb09f14c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 03/19] fix: Version.IsZero treated versions whose parts cancel
 out as zero

---
 xmp/semver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/semver.go b/xmp/semver.go
index 01fda9e..93d8b2b 100644
--- a/xmp/semver.go
+++ b/xmp/semver.go
@@ -61,7 +61,7 @@ func (v Version) String() string {
 }
 
 func (v Version) IsZero() bool {
-	return v.Major+v.Minor+v.Patch == 0
+	return v.Major == 0 && v.Minor == 0 && v.Patch == 0
 }
 
 func (v Version) Between(a, b Version) bool {
-- 
2.43.0


From 9b70692b207609c4ea4270c0f36d70e586856d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:29 +0000
Subject: [PATCH 04/19] fix: Version.Between excluded the upper bound and
 unbounded ranges

With a zero lower bound the upper bound itself was excluded, and with two
zero bounds every version was excluded, so fields without a version range
were dropped as soon as a version was set.
---
 xmp/semver.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xmp/semver.go b/xmp/semver.go
index 93d8b2b..e7c7394 100644
--- a/xmp/semver.go
+++ b/xmp/semver.go
@@ -69,11 +69,11 @@ func (v Version) Between(a, b Version) bool {
 	case v.IsZero():
 		return true
 	case a.IsZero():
-		return v.Before(b) || v.Equal(a)
+		return b.IsZero() || !v.After(b)
 	case b.IsZero():
-		return v.After(a) || v.Equal(a)
+		return !v.Before(a)
 	default:
-		return v.Equal(a) || v.Equal(b) || (v.After(a) && v.Before(b))
+		return !v.Before(a) && !v.After(b)
 	}
 }
 
-- 
2.43.0


From 1fc86fa991e2aab2a95b8022a9de2a5f1588cc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:59 +0000
Subject: [PATCH 05/19] fix: packet scanning panicked on packets shorter than a
 packet header

---
 xmp/reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xmp/reader.go b/xmp/reader.go
index 4b999ed..09d799f 100644
--- a/xmp/reader.go
+++ b/xmp/reader.go
@@ -67,7 +67,10 @@ var packet_end = []byte("<?xpacket end")       // plus suffix `"w"?>`
 var magic = []byte("W5M0MpCehiHzreSzNTczkc9d") // len 24
 
 func isXmpPacket(b []byte) bool {
-	return bytes.Index(b[:51], magic) > -1
+	if len(b) > 51 {
+		b = b[:51]
+	}
+	return bytes.Index(b, magic) > -1
 }
 
 func splitPacket(data []byte, atEOF bool) (advance int, token []byte, err error) {
-- 
2.43.0


From 87e76ae48b36500ac9404475671e8abb87a72afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:21 +0000
Subject: [PATCH 06/19] fix: packet scanning lost begin markers split across
 reads

---
 xmp/reader.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xmp/reader.go b/xmp/reader.go
index 09d799f..6cd4095 100644
--- a/xmp/reader.go
+++ b/xmp/reader.go
@@ -76,11 +76,15 @@ func isXmpPacket(b []byte) bool {
 func splitPacket(data []byte, atEOF bool) (advance int, token []byte, err error) {
 	start := bytes.Index(data, packet_start)
 	if start == -1 {
+		if atEOF {
+			return len(data), nil, nil
+		}
+		// keep the tail, it may hold the first part of a begin marker
 		ofs := len(data) - len(packet_start)
 		if ofs > 0 {
 			return ofs, nil, nil
 		}
-		return len(data), nil, nil
+		return 0, nil, nil
 	}
 	end := bytes.Index(data[start:], packet_end)
 	last := start + end + len(packet_end) + 6
@@ -88,7 +92,8 @@ func splitPacket(data []byte, atEOF bool) (advance int, token []byte, err error)
 		if atEOF {
 			return len(data), nil, nil
 		}
-		return 0, nil, nil
+		// drop what precedes the packet
+		return start, nil, nil
 	}
 	return last, data[start:last], nil
 }
-- 
2.43.0


From 69485ebbaee00f34c58718fb4acde7afbdd602b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:01 +0000
Subject: [PATCH 07/19] fix: node pool counters were updated without
 synchronisation

---
 xmp/dump.go | 15 +++++++++------
 xmp/node.go |  9 +++++----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/xmp/dump.go b/xmp/dump.go
index 999c1a1..664d01b 100644
--- a/xmp/dump.go
+++ b/xmp/dump.go
@@ -17,6 +17,7 @@ package xmp
 import (
 	"fmt"
 	"strings"
+	"sync/atomic"
 )
 
 func (n Node) Dump(d int) {
@@ -59,10 +60,12 @@ func (d *Document) DumpNamespaces() {
 }
 
 func DumpStats() {
-	fmt.Println("xmp: Node Pool Allocs ", npAllocs)
-	fmt.Println("xmp: Node Pool Frees  ", npFrees)
-	fmt.Println("xmp: Node Pool Hits   ", npHits)
-	fmt.Println("xmp: Node Pool Returns", npReturns)
-	fmt.Println("xmp: Node Pool InUse  ", npAllocs+npHits-npReturns-npFrees)
-	fmt.Println("xmp: Node Pool InPool ", Max64(0, npReturns-npHits))
+	allocs, frees := atomic.LoadInt64(&npAllocs), atomic.LoadInt64(&npFrees)
+	hits, returns := atomic.LoadInt64(&npHits), atomic.LoadInt64(&npReturns)
+	fmt.Println("xmp: Node Pool Allocs ", allocs)
+	fmt.Println("xmp: Node Pool Frees  ", frees)
+	fmt.Println("xmp: Node Pool Hits   ", hits)
+	fmt.Println("xmp: Node Pool Returns", returns)
+	fmt.Println("xmp: Node Pool InUse  ", allocs+hits-returns-frees)
+	fmt.Println("xmp: Node Pool InPool ", Max64(0, returns-hits))
 }
diff --git a/xmp/node.go b/xmp/node.go
index 8aec5eb..81a8689 100644
--- a/xmp/node.go
+++ b/xmp/node.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"sort"
 	"strings"
+	"sync/atomic"
 )
 
 var (
@@ -80,14 +81,14 @@ func NewNode(name xml.Name) *Node {
 	var n *Node
 	select {
 	case n = <-nodePool: // Try to get one from the nodePool
-		npHits++
+		atomic.AddInt64(&npHits, 1)
 		n.XMLName = name
 		n.Attr = nil
 		n.Nodes = nil
 		n.Model = nil
 		n.Value = ""
 	default: // All in use, create a new, temporary:
-		npAllocs++
+		atomic.AddInt64(&npAllocs, 1)
 		n = &Node{
 			XMLName: name,
 			Attr:    nil,
@@ -111,9 +112,9 @@ func (n *Node) Close() {
 	n.Value = ""
 	select {
 	case nodePool <- n: // try to put back into the nodePool
-		npReturns++
+		atomic.AddInt64(&npReturns, 1)
 	default: // pool is full, will be garbage collected
-		npFrees++
+		atomic.AddInt64(&npFrees, 1)
 	}
 }
 
-- 
2.43.0


From 6fc4acd900ca645fc9c491d7f31c5c9a4046fbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 08/19] fix: JSON form of infinite floats had its sign swapped

---
 xmp/units.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xmp/units.go b/xmp/units.go
index 31f3c82..121e8f8 100644
--- a/xmp/units.go
+++ b/xmp/units.go
@@ -361,9 +361,9 @@ func (f NullFloat) MarshalJSON() ([]byte, error) {
 	case math.IsNaN(f.Value()):
 		return []byte("\"NaN\""), nil
 	case math.IsInf(f.Value(), -1):
-		return []byte("\"+Inf\""), nil
-	case math.IsInf(f.Value(), 1):
 		return []byte("\"-Inf\""), nil
+	case math.IsInf(f.Value(), 1):
+		return []byte("\"+Inf\""), nil
 	default:
 		return json.Marshal(f.Value())
 	}
@@ -432,9 +432,9 @@ func (f NullFloat64) MarshalJSON() ([]byte, error) {
 	case math.IsNaN(f.Value()):
 		return []byte("\"NaN\""), nil
 	case math.IsInf(f.Value(), -1):
-		return []byte("\"+Inf\""), nil
-	case math.IsInf(f.Value(), 1):
 		return []byte("\"-Inf\""), nil
+	case math.IsInf(f.Value(), 1):
+		return []byte("\"+Inf\""), nil
 	default:
 		return json.Marshal(f.Value())
 	}
-- 
2.43.0


From 98a5fcf2cd13a23ac678401b517e0f37b28cfa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 09/19] fix: SplitInt parts and values are unsigned

---
 xmp/units.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xmp/units.go b/xmp/units.go
index 121e8f8..18ae66c 100644
--- a/xmp/units.go
+++ b/xmp/units.go
@@ -109,12 +109,12 @@ func (x *SplitInt) UnmarshalText(data []byte) error {
 		return nil
 	default:
 		// parse integer
-		if i, err := strconv.ParseInt(d, 10, 32); err == nil {
+		if i, err := strconv.ParseUint(d, 10, 32); err == nil {
 			*x = SplitInt(i)
 		} else if f := strings.Split(d, ":"); len(f) == 4 {
 			var u uint32
 			for i := 0; i < 4; i++ {
-				if v, err := strconv.ParseInt(f[i], 10, 8); err != nil {
+				if v, err := strconv.ParseUint(f[i], 10, 8); err != nil {
 					return fmt.Errorf("xmp: parsing SplitInt '%s': invalid syntax", d)
 				} else {
 					u += uint32(v) << uint32((3-i)*8)
-- 
2.43.0


From e635d31b2a906bd4e54643097f53349ca0147a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 10/19] fix: Rational text 0.0 and negative decimals are no
 reciprocals

---
 xmp/xmp_types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xmp/xmp_types.go b/xmp/xmp_types.go
index 7c2a014..f679443 100644
--- a/xmp/xmp_types.go
+++ b/xmp/xmp_types.go
@@ -577,7 +577,7 @@ func (x *Rational) UnmarshalText(data []byte) error {
 		var f float64
 		f, err = strconv.ParseFloat(v, 32)
 		if err == nil {
-			if f < 1 {
+			if f > 0 && f < 1 {
 				r = Rational{1, int64(1000/f+50) / 1000}
 			} else {
 				r = FloatToRational(float32(f))
-- 
2.43.0


From 8020c6b85b47d59fbbe929beb707806b68b2a15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 11/19] fix: Sync skips destinations whose namespace has no
 model instead of panicking

---
 xmp/sync.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xmp/sync.go b/xmp/sync.go
index 588833e..da20cc5 100644
--- a/xmp/sync.go
+++ b/xmp/sync.go
@@ -194,6 +194,10 @@ func (d *Document) Sync(sPath, dPath Path, flags SyncFlags, v Model, f Converter
 			return nil
 		}
 		dModel = dNs.NewModel()
+		if dModel == nil {
+			// skip when dPath namespace has no model
+			return nil
+		}
 		d.AddModel(dModel)
 	}
 
-- 
2.43.0


From f38ea1038a34d7cdc69eae536e893028a4bd25b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 12/19] fix: SetPath reports models that cannot be added
 instead of dereferencing a nil node

---
 xmp/path.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/xmp/path.go b/xmp/path.go
index 11bda49..52cb3e7 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -470,7 +470,9 @@ func (d *Document) SetPath(desc PathValue) error {
 	if m == nil {
 		m = ns.NewModel()
 		if m != nil {
-			n, _ = d.AddModel(m)
+			if n, err = d.AddModel(m); err != nil {
+				return err
+			}
 		}
 	}
 	if m == nil && n == nil {
-- 
2.43.0


From 52780369af342d540eb9b14cb2038f80d0b99f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 13/19] fix: SetPath stops after it deleted the namespace
 instead of writing to the released node

---
 xmp/path.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xmp/path.go b/xmp/path.go
index 52cb3e7..f6100da 100644
--- a/xmp/path.go
+++ b/xmp/path.go
@@ -490,6 +490,7 @@ func (d *Document) SetPath(desc PathValue) error {
 	// delete model when only namespace is set
 	if path.Len() == 0 && flags&DELETE > 0 {
 		d.RemoveNamespace(ns)
+		return nil
 	}
 
 	// get current version of path value
-- 
2.43.0


From f3f87d493a5b49ac2eafbb817d325688f6bcfec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 14/19] fix: exif sub-second values are added to the date
 instead of being dropped

---
 models/exif/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/exif/types.go b/models/exif/types.go
index 3f9c9be..37ce056 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -121,7 +121,7 @@ func convertDateToXMP(d Date, s string) (xmp.Date, error) {
 	}
 	xd := xmp.Date(d)
 	s = strings.TrimSpace(s)
-	if s != "" {
+	if s == "" {
 		return xd, nil
 	}
 	if i, err := strconv.ParseInt(s, 10, 64); err != nil {
-- 
2.43.0


From 74877558e758e65f960fc67d30fca9672667b597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 15/19] fix: exif OECF reads the name of the last column as a
 name

---
 models/exif/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/exif/types.go b/models/exif/types.go
index 37ce056..96146e6 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -189,7 +189,7 @@ func (x *OECF) UnmarshalText(data []byte) error {
 				return fmt.Errorf("exif: invalid OECF rows value '%s': %v", v, err)
 			}
 			o.Values = make(xmp.RationalArray, 0, o.Columns*o.Rows)
-		case i > 1 && i < o.Columns+1:
+		case i > 1 && i < o.Columns+2:
 			o.Names = append(o.Names, v)
 		default:
 			r := xmp.Rational{}
-- 
2.43.0


From 820c8e9bf90f19d4869830f106883a5e742a6e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 16/19] fix: exif tables with negative or huge dimensions no
 longer panic

---
 models/exif/types.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/models/exif/types.go b/models/exif/types.go
index 96146e6..45ae6a3 100644
--- a/models/exif/types.go
+++ b/models/exif/types.go
@@ -183,12 +183,12 @@ func (x *OECF) UnmarshalText(data []byte) error {
 			if o.Columns, err = strconv.Atoi(v); err != nil {
 				return fmt.Errorf("exif: invalid OECF columns value '%s': %v", v, err)
 			}
-			o.Names = make(xmp.StringArray, 0, o.Columns)
+			o.Names = make(xmp.StringArray, 0)
 		case i == 1:
 			if o.Rows, err = strconv.Atoi(v); err != nil {
 				return fmt.Errorf("exif: invalid OECF rows value '%s': %v", v, err)
 			}
-			o.Values = make(xmp.RationalArray, 0, o.Columns*o.Rows)
+			o.Values = make(xmp.RationalArray, 0)
 		case i > 1 && i < o.Columns+2:
 			o.Names = append(o.Names, v)
 		default:
@@ -238,7 +238,7 @@ func (x *CFAPattern) UnmarshalText(data []byte) error {
 			if c.Rows, err = strconv.Atoi(v); err != nil {
 				return fmt.Errorf("exif: invalid CFA rows value '%s': %v", v, err)
 			}
-			c.Values = make(ByteArray, 0, c.Columns*c.Rows)
+			c.Values = make(ByteArray, 0)
 		default:
 			if j, err := strconv.ParseUint(v, 10, 8); err != nil {
 				return fmt.Errorf("exif: invalid CFA value '%s': %v", v, err)
@@ -289,7 +289,7 @@ func (x *DeviceSettings) UnmarshalText(data []byte) error {
 			if s.Rows, err = strconv.Atoi(v); err != nil {
 				return fmt.Errorf("exif: invalid device settings rows value '%s': %v", v, err)
 			}
-			s.Values = make(xmp.StringArray, 0, s.Columns*s.Rows)
+			s.Values = make(xmp.StringArray, 0)
 		default:
 			s.Values = append(s.Values, v)
 		}
-- 
2.43.0


From 4d4fd76d65c68e024b67e9a9977ee1c4c62fbdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 17/19] fix: id3 genre lists keep each unknown genre instead of
 the whole list

---
 models/id3/types.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/id3/types.go b/models/id3/types.go
index 7f991dc..c6648e3 100644
--- a/models/id3/types.go
+++ b/models/id3/types.go
@@ -151,13 +151,13 @@ func (x *Genre) UnmarshalText(data []byte) error {
 			*x = append(*x, g.String())
 			continue
 		}
-		switch value {
+		switch v {
 		case "RX":
 			*x = append(*x, "Remix")
 		case "CR":
 			*x = append(*x, "Cover")
 		default:
-			*x = append(*x, value)
+			*x = append(*x, v)
 		}
 	}
 	return nil
-- 
2.43.0


From aaf1d6449d6c620adc7129826a5ead609b68e908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 18/19] fix: content ratings read and write all four parts of
 their text form

---
 models/itunes/types.go | 9 +++++----
 models/qt/types.go     | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/models/itunes/types.go b/models/itunes/types.go
index be6b280..e0c44fc 100644
--- a/models/itunes/types.go
+++ b/models/itunes/types.go
@@ -88,6 +88,7 @@ func (x ContentRating) String() string {
 	buf.WriteString(x.Score)
 	buf.WriteByte('|')
 	buf.WriteString(x.Reasons)
+	buf.WriteByte(')')
 	return buf.String()
 }
 
@@ -99,13 +100,13 @@ func (x *ContentRating) UnmarshalText(data []byte) error {
 	v = strings.TrimSuffix(v, ")")
 	for i, s := range strings.Split(v, "|") {
 		switch i {
-		case 1:
+		case 0:
 			cr.Standard = s
-		case 2:
+		case 1:
 			cr.Rating = s
-		case 3:
+		case 2:
 			cr.Score = s
-		case 4:
+		case 3:
 			cr.Reasons = s
 		}
 	}
diff --git a/models/qt/types.go b/models/qt/types.go
index 2719b95..99c8158 100644
--- a/models/qt/types.go
+++ b/models/qt/types.go
@@ -128,6 +128,7 @@ func (x ContentRating) String() string {
 	buf.WriteString(x.Score)
 	buf.WriteByte('|')
 	buf.WriteString(x.Reasons)
+	buf.WriteByte(')')
 	return buf.String()
 }
 
@@ -139,13 +140,13 @@ func (x *ContentRating) UnmarshalText(data []byte) error {
 	v = strings.TrimSuffix(v, ")")
 	for i, s := range strings.Split(v, "|") {
 		switch i {
-		case 1:
+		case 0:
 			cr.Standard = s
-		case 2:
+		case 1:
 			cr.Rating = s
-		case 3:
+		case 2:
 			cr.Score = s
-		case 4:
+		case 3:
 			cr.Reasons = s
 		}
 	}
-- 
2.43.0


From 3381e1033a46bf3811b661f3736ca60207108681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:30 +0000
Subject: [PATCH 19/19] fix: 59.94 fps without drop frames is reported as
 non-drop time code

---
 models/xmp_dm/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/models/xmp_dm/types.go b/models/xmp_dm/types.go
index da17002..ce81c9c 100644
--- a/models/xmp_dm/types.go
+++ b/models/xmp_dm/types.go
@@ -567,7 +567,7 @@ func ParseTimecodeFormat(f float64, isdrop bool) TimecodeFormat {
 		if isdrop {
 			return TimecodeFormat5994
 		} else {
-			return TimecodeFormat5994
+			return TimecodeFormat5994ND
 		}
 	case f == 60:
 		return TimecodeFormat60
-- 
2.43.0

