From 79483db4cf13264517230c3e278aabd2f44f64d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 1/6] fix: keep AllTokens results intact for inputs larger than
 the scanner's buffer

The slices returned by bufio.Scanner.Bytes are only valid until the next call
to Scan, so each token must be copied before it is retained.
---
 autoversion/textseg/version_agnostic.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/autoversion/textseg/version_agnostic.go b/autoversion/textseg/version_agnostic.go
index 3681403..eeef1dc 100644
--- a/autoversion/textseg/version_agnostic.go
+++ b/autoversion/textseg/version_agnostic.go
@@ -7,6 +7,7 @@ package textseg
 
 import (
 	"bufio"
+	"bytes"
 
 	realImpl "github.com/apparentlymart/go-textseg/v15/textseg"
 )
@@ -31,5 +32,14 @@ func TokenCount(buf []byte, splitFunc bufio.SplitFunc) (int, error) {
 //
 // Deprecated: This will be removed in a future version.
 func AllTokens(buf []byte, splitFunc bufio.SplitFunc) ([][]byte, error) {
-	return realImpl.AllTokens(buf, splitFunc)
+	// We can't use realImpl.AllTokens here, because it retains the slices
+	// returned by the scanner even though later calls to Scan may overwrite
+	// their backing array once the buffer is larger than the scanner's own.
+	scanner := bufio.NewScanner(bytes.NewReader(buf))
+	scanner.Split(splitFunc)
+	var ret [][]byte
+	for scanner.Scan() {
+		ret = append(ret, bytes.Clone(scanner.Bytes()))
+	}
+	return ret, scanner.Err()
 }
-- 
2.43.0


From b4516f939fe3fd0e6047392937507b178d305d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 2/6] fix: do not truncate block offsets when compacting large
 property trees

The shift was done in uint16, so offsets of blocks from number 1024 on wrapped
around and the generator silently used the wrong source block.
---
 textseg/internal/charprops/gentable/generate.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/textseg/internal/charprops/gentable/generate.go b/textseg/internal/charprops/gentable/generate.go
index 07cd1e8..18392a9 100644
--- a/textseg/internal/charprops/gentable/generate.go
+++ b/textseg/internal/charprops/gentable/generate.go
@@ -246,7 +246,7 @@ func (t *treeInProgress) buildCompactedBlocks(ret *RawPropertyTree, indexLevels
 			// property block.
 			srcBlock = make([]uint16, blockSize)
 		} else {
-			srcBlockStart := srcBlockIdx << blockShift
+			srcBlockStart := int(srcBlockIdx) << blockShift
 			srcBlock = t.indices[srcBlockStart : srcBlockStart+blockSize]
 		}
 
@@ -280,7 +280,7 @@ func (t *treeInProgress) buildCompactedBlocks(ret *RawPropertyTree, indexLevels
 		// property block.
 		srcBlock = make([]uint8, blockSize)
 	} else {
-		srcBlockStart := srcBlockIdx << blockShift
+		srcBlockStart := int(srcBlockIdx) << blockShift
 		srcBlock = t.rawProps[srcBlockStart : srcBlockStart+blockSize]
 	}
 
-- 
2.43.0


From e95529a072c1f298058713c3445b49e83cbd0bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:42 +0000
Subject: [PATCH 3/6] fix: report failure to write the generated property table

---
 textseg/internal/charprops/generate.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/textseg/internal/charprops/generate.go b/textseg/internal/charprops/generate.go
index a500931..ef225c3 100644
--- a/textseg/internal/charprops/generate.go
+++ b/textseg/internal/charprops/generate.go
@@ -74,5 +74,12 @@ func main() {
 		fmt.Fprintf(os.Stderr, "Error: %s\n", err)
 		os.Exit(1)
 	}
-	f.Write(src)
+	if _, err := f.Write(src); err != nil {
+		fmt.Fprintf(os.Stderr, "Error: %s\n", err)
+		os.Exit(1)
+	}
+	if err := f.Close(); err != nil {
+		fmt.Fprintf(os.Stderr, "Error: %s\n", err)
+		os.Exit(1)
+	}
 }
-- 
2.43.0


From 7b9e9b0f9c5d98df6fea1d412647eb89d7ce67f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:02 +0000
Subject: [PATCH 4/6] fix: reject data lines whose code points are not Unicode
 code points

Values beyond U+10FFFF were converted to rune, possibly becoming negative, and
returned as an entry.
---
 textseg/internal/charprops/ucdparse/testdata_scan.go | 3 ++-
 textseg/internal/charprops/ucdparse/ucd_scan.go      | 7 +++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/textseg/internal/charprops/ucdparse/testdata_scan.go b/textseg/internal/charprops/ucdparse/testdata_scan.go
index 6e138f9..3a410fd 100644
--- a/textseg/internal/charprops/ucdparse/testdata_scan.go
+++ b/textseg/internal/charprops/ucdparse/testdata_scan.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"unicode"
 	"unicode/utf8"
 )
 
@@ -45,7 +46,7 @@ func (sc TestDataScanner) NextEntry() (TestDataEntry, error) {
 					continue
 				}
 				charInt, err := strconv.ParseInt(charHexStr, 16, 32)
-				if err != nil {
+				if err != nil || charInt < 0 || charInt > unicode.MaxRune {
 					return TestDataEntry{}, fmt.Errorf("invalid character reference %q", charHexStr)
 				}
 				buf := make([]byte, 4)
diff --git a/textseg/internal/charprops/ucdparse/ucd_scan.go b/textseg/internal/charprops/ucdparse/ucd_scan.go
index e2f3dd2..7d2ae94 100644
--- a/textseg/internal/charprops/ucdparse/ucd_scan.go
+++ b/textseg/internal/charprops/ucdparse/ucd_scan.go
@@ -7,6 +7,7 @@ import (
 	"io"
 	"iter"
 	"strconv"
+	"unicode"
 )
 
 type Scanner struct {
@@ -41,12 +42,18 @@ func (sc Scanner) NextEntry() (Entry, error) {
 		if err != nil {
 			return Entry{}, fmt.Errorf("invalid start of character range %q: %s", startHex, err)
 		}
+		if startInt > unicode.MaxRune {
+			return Entry{}, fmt.Errorf("invalid start of character range %q: not a Unicode code point", startHex)
+		}
 		start = rune(startInt)
 		if isRange {
 			endInt, err := strconv.ParseUint(string(endHex), 16, 32)
 			if err != nil {
 				return Entry{}, fmt.Errorf("invalid end of character range %q: %s", endHex, err)
 			}
+			if endInt > unicode.MaxRune {
+				return Entry{}, fmt.Errorf("invalid end of character range %q: not a Unicode code point", endHex)
+			}
 			end = rune(endInt)
 		} else {
 			end = start
-- 
2.43.0


From b9b0da36842f581290e4030f75a4c5587a102101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:09 +0000
Subject: [PATCH 5/6] fix: reject signed code points in test data lines

---
 textseg/internal/charprops/ucdparse/testdata_scan.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/textseg/internal/charprops/ucdparse/testdata_scan.go b/textseg/internal/charprops/ucdparse/testdata_scan.go
index 3a410fd..a3f9897 100644
--- a/textseg/internal/charprops/ucdparse/testdata_scan.go
+++ b/textseg/internal/charprops/ucdparse/testdata_scan.go
@@ -45,8 +45,8 @@ func (sc TestDataScanner) NextEntry() (TestDataEntry, error) {
 				if len(charHexStr) == 0 {
 					continue
 				}
-				charInt, err := strconv.ParseInt(charHexStr, 16, 32)
-				if err != nil || charInt < 0 || charInt > unicode.MaxRune {
+				charInt, err := strconv.ParseUint(charHexStr, 16, 32)
+				if err != nil || charInt > unicode.MaxRune {
 					return TestDataEntry{}, fmt.Errorf("invalid character reference %q", charHexStr)
 				}
 				buf := make([]byte, 4)
-- 
2.43.0


From 81fd551caf100a0b67875cb36a1fcfd25062cedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:09 +0000
Subject: [PATCH 6/6] fix: do not store surrogates' properties as those of
 U+FFFD

---
 textseg/internal/charprops/gentable/generate.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/textseg/internal/charprops/gentable/generate.go b/textseg/internal/charprops/gentable/generate.go
index 18392a9..851002a 100644
--- a/textseg/internal/charprops/gentable/generate.go
+++ b/textseg/internal/charprops/gentable/generate.go
@@ -126,6 +126,12 @@ func (t *treeInProgress) BitwiseOr(r rune, propMask uint8) {
 }
 
 func (t *treeInProgress) ensureProps(r rune) *uint8 {
+	if !utf8.ValidRune(r) {
+		// Surrogates have no UTF-8 encoding and so can never be looked up,
+		// but utf8.EncodeRune would treat them as U+FFFD. There's nowhere to
+		// store their properties, so we'll discard them.
+		return new(uint8)
+	}
 	asU8 := make([]byte, 4)
 	byteLen := utf8.EncodeRune(asU8, r)
 	asU8 = asU8[:byteLen]
-- 
2.43.0

