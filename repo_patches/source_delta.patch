From f7209ef6e27b178ec4035366931109b8bd2faf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 01/13] fix: Join: reject a third rune which is not a tail
 consonant

Tail returns 0 for anything which is not a tail consonant and tailIdx
takes 0 as "no tail", so Join(G, A, DD) or Join(G, A, 'x') dropped the
third rune and returned a syllable instead of U+FFFD.
---
 hangul.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hangul.go b/hangul.go
index 1f5c089..fa5a1c4 100644
--- a/hangul.go
+++ b/hangul.go
@@ -37,8 +37,9 @@ func Join(l, m, t rune) rune {
 		return rune(0xFFFD)
 	}
 
-	ti, ok := tailIdx(Tail(t))
-	if !ok {
+	tt := Tail(t)
+	ti, ok := tailIdx(tt)
+	if !ok || (tt == 0 && t != 0) {
 		return rune(0xFFFD)
 	}
 
-- 
2.43.0


From 693df8fc20a2dbcd8ec944e77af743b5beb782d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 02/13] fix: LastConsonant: a word which does not end in a
 syllable has none

Split is only meaningful for precomposed syllables; LastConsonant("a")
returned 0x11a4, so EndsWithConsonant and AppendPostposition were wrong
for every word which ends in a letter, a digit or a jamo.
---
 hangul.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hangul.go b/hangul.go
index fa5a1c4..8a67d3c 100644
--- a/hangul.go
+++ b/hangul.go
@@ -87,7 +87,11 @@ func LastConsonant(word string) rune {
 		return 0
 	}
 	runes := []rune(word)
-	_, _, t := Split(runes[len(runes)-1])
+	last := runes[len(runes)-1]
+	if last < 0xAC00 || 0xD7A3 < last {
+		return 0
+	}
+	_, _, t := Split(last)
 	return t
 }
 
-- 
2.43.0


From fe6fb23234725e86b576f9f429b21a22bd1a7796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 03/13] fix: split WE into single elements

E is itself a multi element, which SplitMultiElement takes apart for
every other jamo (WAE is O, A, I) and which has no stroke count of its
own: Stroke(WE) was 2 instead of 5.
---
 jamo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jamo.go b/jamo.go
index 0f56d37..3406de6 100644
--- a/jamo.go
+++ b/jamo.go
@@ -77,7 +77,7 @@ var multiElements = map[rune][]rune{
 	WAE: []rune{O, A, I},
 	OE:  []rune{O, I},
 	WEO: []rune{U, EO},
-	WE:  []rune{U, E},
+	WE:  []rune{U, EO, I},
 	WI:  []rune{U, I},
 	YI:  []rune{EU, I},
 }
-- 
2.43.0


From 94a284829c3f34263ab8349b35cafd9a367477f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 04/13] fix: SplitMultiElement: return a copy of the elements

The returned slice was the package's own table entry: a caller which
wrote to it changed every later SplitMultiElement and Stroke.
---
 jamo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jamo.go b/jamo.go
index 3406de6..b826503 100644
--- a/jamo.go
+++ b/jamo.go
@@ -86,7 +86,7 @@ var multiElements = map[rune][]rune{
 func SplitMultiElement(r rune) ([]rune, bool) {
 	r = CompatJamo(r)
 	es, ok := multiElements[r]
-	return es, ok
+	return append([]rune(nil), es...), ok
 }
 
 var toCompatJamo = map[rune]rune{
-- 
2.43.0


From 6bb4fb9474a0bc60ac5b95ecb2d18b85e532ebed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 05/13] fix: cp949: encode a rune above the table as a single
 '?'

Runes above the last table entry (U+FFE6), which includes U+FFFD and so
every invalid byte, were written as "??".
---
 encoding/cp949/cp949.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/encoding/cp949/cp949.go b/encoding/cp949/cp949.go
index e4793c8..2f378d4 100644
--- a/encoding/cp949/cp949.go
+++ b/encoding/cp949/cp949.go
@@ -89,10 +89,6 @@ func (p *translateToCp949) Translate(data []byte) (int, []byte, error) {
 			return false
 		})
 
-		if fi >= len(p.table) {
-			p.scratch = append(p.scratch, '?')
-		}
-
 		if fi < len(p.table) && rUcs2 == p.table[fi].ucs2 {
 			f := p.table[fi]
 			p.scratch = append(p.scratch,
-- 
2.43.0


From 0a755452a0596b3b72fc8a610fc42356792138c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 06/13] fix: cp949: do not encode a rune outside the BMP as
 another character

The rune was truncated to 16 bits: To(U+1AC00) was the code of U+AC00.
---
 encoding/cp949/cp949.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encoding/cp949/cp949.go b/encoding/cp949/cp949.go
index 2f378d4..fdcee7d 100644
--- a/encoding/cp949/cp949.go
+++ b/encoding/cp949/cp949.go
@@ -89,7 +89,7 @@ func (p *translateToCp949) Translate(data []byte) (int, []byte, error) {
 			return false
 		})
 
-		if fi < len(p.table) && rUcs2 == p.table[fi].ucs2 {
+		if fi < len(p.table) && r == rune(p.table[fi].ucs2) {
 			f := p.table[fi]
 			p.scratch = append(p.scratch,
 				byte(f.cp949>>8), byte(f.cp949&0xff))
-- 
2.43.0


From 487f62a65790155da74a36f1326e26cf7e7ee830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 07/13] fix: cp949: Reader: do not lose the data before a
 truncated character

The translator reported nothing as converted when the last character was
incomplete, so the reader dropped all its pending data at EOF, without an
error: reading "abc\xbe" gave "" and io.EOF. Deliver what was
converted, then ErrCP949UnexpectedStream, as From does.
---
 encoding/cp949/cp949.go  | 2 +-
 encoding/cp949/public.go | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/encoding/cp949/cp949.go b/encoding/cp949/cp949.go
index fdcee7d..d9da35e 100644
--- a/encoding/cp949/cp949.go
+++ b/encoding/cp949/cp949.go
@@ -43,7 +43,7 @@ func (p *translateFromCp949) Translate(data []byte) (int, []byte, error) {
 		}
 
 		if len(data) < 2 {
-			return 0, nil, ErrCP949UnexpectedStream
+			return c, p.scratch, ErrCP949UnexpectedStream
 		}
 
 		n := uint16(data[0])<<8 | uint16(data[1])
diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index c1b213d..a48a1d2 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -76,15 +76,15 @@ func (r *cp949Reader) Read(buf []byte) (int, error) {
 			break
 		}
 		nc, cdata, cvterr := r.tr.Translate(r.rdata)
-		if cvterr != nil {
-			// TODO
-		}
 		r.cdata = cdata
 
 		// Ensure that we consume all bytes at eof
 		// if the converter refuses them.
 		if nc == 0 && r.err != nil {
 			nc = len(r.rdata)
+			if cvterr != nil && r.err == io.EOF {
+				r.err = cvterr
+			}
 		}
 
 		// Copy unconsumed data to the start of the rdata buffer.
-- 
2.43.0


From f1e3367e36058218a47149dfafa6a764def1b432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 08/13] fix: cp949: Reader: an empty read is not the end of the
 stream

Read with an empty buffer read zero bytes from the source, took that for
EOF and lost everything which followed.
---
 encoding/cp949/public.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index a48a1d2..245328d 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -57,6 +57,9 @@ func NewReader(r io.Reader) (io.Reader, error) {
 }
 
 func (r *cp949Reader) Read(buf []byte) (int, error) {
+	if len(buf) == 0 {
+		return 0, nil
+	}
 	for {
 		if len(r.cdata) > 0 {
 			n := copy(buf, r.cdata)
-- 
2.43.0


From 0083307990f09fcc62f49a2c73ee8dd857e4013d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 09/13] fix: cp949: Reader: 0, nil from the source is not the
 end of the stream

io.Reader: "Callers should treat a return of 0 and nil as indicating that
nothing happened; in particular it does not indicate EOF." It was taken
for io.EOF and the rest of the source was silently lost.
---
 encoding/cp949/public.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index 245328d..5e1ba85 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -69,9 +69,9 @@ func (r *cp949Reader) Read(buf []byte) (int, error) {
 		if r.err == nil {
 			r.rdata = ensureCap(r.rdata, len(r.rdata)+len(buf))
 			n, err := r.r.Read(r.rdata[len(r.rdata):cap(r.rdata)])
-			// Guard against non-compliant Readers.
+			// Nothing happened, in particular not io.EOF.
 			if n == 0 && err == nil {
-				err = io.EOF
+				return 0, nil
 			}
 			r.rdata = r.rdata[0 : len(r.rdata)+n]
 			r.err = err
-- 
2.43.0


From 24be6d1ad1651a1d6a5c66baec66f3a12a750265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:19 +0000
Subject: [PATCH 10/13] fix: cp949: Writer: keep a rune which is split between
 two writes

The translator consumed the first bytes of an incomplete rune as invalid
ones, so writing the bytes of one character in two calls gave "??????".
Leave them unconsumed: the writer already keeps such bytes for the next
Write. To still replaces each of them with '?'.
---
 encoding/cp949/cp949.go  | 5 +++++
 encoding/cp949/public.go | 6 +++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/encoding/cp949/cp949.go b/encoding/cp949/cp949.go
index d9da35e..7d4435e 100644
--- a/encoding/cp949/cp949.go
+++ b/encoding/cp949/cp949.go
@@ -80,6 +80,11 @@ func (p *translateToCp949) Translate(data []byte) (int, []byte, error) {
 			continue
 		}
 
+		if !utf8.FullRune(data) {
+			// leave an incomplete rune to the caller
+			break
+		}
+
 		r, s := utf8.DecodeRune(data)
 		rUcs2 := uint16(r)
 		fi := sort.Search(len(p.table), func(i int) bool {
diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index 5e1ba85..7a3c5d0 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -30,10 +30,14 @@ func To(in []byte) ([]byte, error) {
 		return nil, err
 	}
 
-	_, out, err := tr.Translate(in)
+	n, out, err := tr.Translate(in)
 	if err != nil {
 		return nil, err
 	}
+	for ; n < len(in); n++ {
+		// nothing will complete the last rune
+		out = append(out, '?')
+	}
 
 	return out, nil
 }
-- 
2.43.0


From a27582b6a74d2e5980788a126a2b664f16d4cc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:43 +0000
Subject: [PATCH 11/13] fix: cp949: Decoder: respect the buffers given to
 Transform

Transform reported more bytes than dst holds, so that reading more than
4096 bytes through Decoder.Reader panicked, and failed on a character
which the caller had only read in part.  Return ErrShortDst and
ErrShortSrc as transform.Transformer asks, with what was converted.
---
 encoding/cp949/encoding.go | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/encoding/cp949/encoding.go b/encoding/cp949/encoding.go
index dcf33a0..55d7799 100644
--- a/encoding/cp949/encoding.go
+++ b/encoding/cp949/encoding.go
@@ -2,6 +2,7 @@ package cp949
 
 import (
 	"golang.org/x/text/encoding"
+	"golang.org/x/text/transform"
 )
 
 // CP949Encoding provides the Encoding interface for CP949 encoding.
@@ -26,15 +27,32 @@ type cp949Decoder struct{}
 
 // Transform converts data from CP949 to UTF-8.
 func (d *cp949Decoder) Transform(dst, src []byte, atEOF bool) (nDst, nSrc int, err error) {
-	// Use the From function to convert CP949 to UTF-8.
-	converted, err := From(src)
-	if err != nil {
-		return 0, 0, err
-	}
+	for nSrc < len(src) {
+		n := 1
+		if src[nSrc]&0x80 != 0 {
+			n = 2
+		}
+		if n > len(src)-nSrc {
+			if !atEOF {
+				return nDst, nSrc, transform.ErrShortSrc
+			}
+			return nDst, nSrc, ErrCP949UnexpectedStream
+		}
 
-	// Copy the converted data to dst.
-	copy(dst, converted)
-	return len(converted), len(src), nil
+		// Use the From function to convert CP949 to UTF-8.
+		converted, err := From(src[nSrc : nSrc+n])
+		if err != nil {
+			return nDst, nSrc, err
+		}
+		if len(converted) > len(dst)-nDst {
+			return nDst, nSrc, transform.ErrShortDst
+		}
+
+		// Copy the converted data to dst.
+		nDst += copy(dst[nDst:], converted)
+		nSrc += n
+	}
+	return nDst, nSrc, nil
 }
 
 type cp949Encoder struct{}
-- 
2.43.0


From 9bd91216b7b1ba4be17d9275f6e3115cfd13769e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:43 +0000
Subject: [PATCH 12/13] fix: cp949: Encoder: respect the buffers given to
 Transform

As for the decoder: Transform reported more bytes than dst holds, and
replaced a rune which the caller had only passed in part by '?'.
---
 encoding/cp949/encoding.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/encoding/cp949/encoding.go b/encoding/cp949/encoding.go
index 55d7799..3adee32 100644
--- a/encoding/cp949/encoding.go
+++ b/encoding/cp949/encoding.go
@@ -1,6 +1,8 @@
 package cp949
 
 import (
+	"unicode/utf8"
+
 	"golang.org/x/text/encoding"
 	"golang.org/x/text/transform"
 )
@@ -59,15 +61,26 @@ type cp949Encoder struct{}
 
 // Transform converts data from UTF-8 to CP949.
 func (e *cp949Encoder) Transform(dst, src []byte, atEOF bool) (nDst, nSrc int, err error) {
-	// Use the To function to convert UTF-8 to CP949.
-	converted, err := To(src)
-	if err != nil {
-		return 0, 0, err
-	}
+	for nSrc < len(src) {
+		if !atEOF && !utf8.FullRune(src[nSrc:]) {
+			return nDst, nSrc, transform.ErrShortSrc
+		}
+		_, n := utf8.DecodeRune(src[nSrc:])
+
+		// Use the To function to convert UTF-8 to CP949.
+		converted, err := To(src[nSrc : nSrc+n])
+		if err != nil {
+			return nDst, nSrc, err
+		}
+		if len(converted) > len(dst)-nDst {
+			return nDst, nSrc, transform.ErrShortDst
+		}
 
-	// Copy the converted data to dst.
-	copy(dst, converted)
-	return len(converted), len(src), nil
+		// Copy the converted data to dst.
+		nDst += copy(dst[nDst:], converted)
+		nSrc += n
+	}
+	return nDst, nSrc, nil
 }
 
 // Reset resets the state of the Transformer.
-- 
2.43.0


From cad712ceac6e70db8b300e85546905d1f21145bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:50 +0000
Subject: [PATCH 13/13] fix: cp949: Writer: a failed Write does not keep its
 data

The data of a Write which reports 0 bytes was kept if a rune was pending, so
writing it again duplicated it.
---
 encoding/cp949/public.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/encoding/cp949/public.go b/encoding/cp949/public.go
index 7a3c5d0..446df77 100644
--- a/encoding/cp949/public.go
+++ b/encoding/cp949/public.go
@@ -129,6 +129,7 @@ func (w *cp949Writer) Write(data []byte) (int, error) {
 	if n > 0 {
 		_, err = w.w.Write(cdata)
 		if err != nil {
+			w.buf = w.buf[:len(wdata)-len(data)] // data was not written
 			return 0, err
 		}
 	}
-- 
2.43.0

