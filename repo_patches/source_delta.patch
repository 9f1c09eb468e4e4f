From 6fd1bdda21385eea673f35d7395a50c0d8ab2523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:08 +0000
Subject: [PATCH 01/16] fix: index: do not share exact set storage between
 prefix and suffix in alternate

---
 index/regexp.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/index/regexp.go b/index/regexp.go
index 4f336fe..824f595 100644
--- a/index/regexp.go
+++ b/index/regexp.go
@@ -604,8 +604,8 @@ func alternate(x, y regexpInfo) (out regexpInfo) {
 	if x.exact.have() && y.exact.have() {
 		xy.exact = x.exact.union(y.exact, false)
 	} else if x.exact.have() {
-		xy.prefix = x.exact.union(y.prefix, false)
-		xy.suffix = x.exact.union(y.suffix, true)
+		xy.prefix = x.exact.copy().union(y.prefix, false)
+		xy.suffix = x.exact.copy().union(y.suffix, true)
 		x.addExact()
 	} else if y.exact.have() {
 		xy.prefix = x.prefix.union(y.exact, false)
-- 
2.43.0


From 64e9f56fd951946522f0715ee2ee6760f95fe411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:12 +0000
Subject: [PATCH 02/16] fix: index: stop at end-of-list trigram when merging,
 so merged indexes can be merged again

---
 index/merge.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index/merge.go b/index/merge.go
index 55c5456..fc7fd00 100644
--- a/index/merge.go
+++ b/index/merge.go
@@ -347,6 +347,11 @@ func (r *postMapReader) load(force bool) {
 		r.offset += int(n2)
 		r.block = b
 	}
+	if r.trigram == invalidTrigram {
+		// Sentinel entry ending the list written by IndexWriter and Merge.
+		r.trigram = ^uint32(0)
+		r.count = 0
+	}
 	if r.count == 0 {
 		r.fileid = -1
 		return
-- 
2.43.0


From 12238933bd890deb600d5788dc27ffc057fec851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 03/16] fix: index: treat paths under a root ending in a slash
 as beneath it

---
 index/merge.go | 5 ++++-
 index/path.go  | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/index/merge.go b/index/merge.go
index fc7fd00..9eda819 100644
--- a/index/merge.go
+++ b/index/merge.go
@@ -34,6 +34,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"os"
+	"strings"
 )
 
 // An idrange records that the half-open interval [lo, hi) maps to [new, new+hi-lo).
@@ -74,7 +75,9 @@ func Merge(dst, src1, src2 string) {
 		// but not food or fop. Slash compares equal to \x00,
 		// and if foo is a zip file, foo\x01 is a file in it,
 		// so use foo\x02 as the limit.
-		limit := MakePath(root.String() + "\x02")
+		// If root is / itself, everything beneath it starts with
+		// the slash, so drop it before adding the limit.
+		limit := MakePath(strings.TrimSuffix(root.String(), string(os.PathSeparator)) + "\x02")
 		for i1 < ix1.numName && name1.Compare(limit) < 0 {
 			names1.Next()
 			name1 = names1.Path()
diff --git a/index/path.go b/index/path.go
index d5b0f90..0e65beb 100644
--- a/index/path.go
+++ b/index/path.go
@@ -32,6 +32,8 @@ func (p Path) String() string {
 func (p Path) HasPathPrefix(parent Path) bool {
 	return strings.HasPrefix(p.s, parent.s) &&
 		(p.s == parent.s ||
+			strings.HasSuffix(parent.s, "/") ||
+			strings.HasSuffix(parent.s, string(os.PathSeparator)) ||
 			p.s[len(parent.s)] == '/' ||
 			p.s[len(parent.s)] == os.PathSeparator)
 }
-- 
2.43.0


From 2205fd91c4f47db3941f37d7665d9ea558fbd7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:39 +0000
Subject: [PATCH 04/16] fix: regexp: do not report a match on the empty string
 after the last newline of a chunk as a line

---
 regexp/match.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/regexp/match.go b/regexp/match.go
index 7a90d1a..69f4a95 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -464,7 +464,9 @@ func (g *Grep) Reader(r io.Reader, name string) {
 		for chunkStart < end {
 			m1 := g.Regexp.Match(buf[chunkStart:end], beginText, endText) + chunkStart
 			beginText = false
-			if m1 < chunkStart {
+			if m1 < chunkStart || m1 == end && buf[end-1] == '\n' {
+				// No match, or a match of the empty string
+				// after the final newline, which is not a line.
 				break
 			}
 			g.Match = true
-- 
2.43.0


From 7cdb0454074bb1e2c2cfa08107ff3faf597ac2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:43 +0000
Subject: [PATCH 05/16] fix: regexp: fold letters above U+1044F too

---
 regexp/copy.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp/copy.go b/regexp/copy.go
index 9be1987..400e2d8 100644
--- a/regexp/copy.go
+++ b/regexp/copy.go
@@ -77,7 +77,7 @@ const (
 	// minimum and maximum runes involved in folding.
 	// checked during test.
 	minFold = 0x0041
-	maxFold = 0x1044f
+	maxFold = 0x1e943
 )
 
 // appendFoldedRange returns the result of appending the range lo-hi
-- 
2.43.0


From 1e213de9e805ad23711090968399e0a361f216a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:47 +0000
Subject: [PATCH 06/16] fix: regexp: use the single-byte shortcut for a letter
 and its fold only when both are ASCII

---
 regexp/utf.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp/utf.go b/regexp/utf.go
index d587eaa..48dd9a7 100644
--- a/regexp/utf.go
+++ b/regexp/utf.go
@@ -100,7 +100,7 @@ func oneByteRange(i *syntax.Inst) (lo, hi byte, fold, ok bool) {
 		}
 		return byte(i.Rune[0]), byte(i.Rune[1]), fold, true
 	}
-	if len(i.Rune) == 4 && i.Rune[0] == i.Rune[1] && i.Rune[2] == i.Rune[3] && unicode.SimpleFold(i.Rune[0]) == i.Rune[2] && unicode.SimpleFold(i.Rune[2]) == i.Rune[0] {
+	if len(i.Rune) == 4 && i.Rune[2] < utf8.RuneSelf && i.Rune[0] == i.Rune[1] && i.Rune[2] == i.Rune[3] && unicode.SimpleFold(i.Rune[0]) == i.Rune[2] && unicode.SimpleFold(i.Rune[2]) == i.Rune[0] {
 		return byte(i.Rune[0]), byte(i.Rune[0]), true, true
 	}
 
-- 
2.43.0


From 6cbcab444949f4497cb87739999fc64b76bda5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:51 +0000
Subject: [PATCH 07/16] fix: regexp: leave surrogate halves, which have no
 UTF-8 encoding, out of rune ranges

---
 regexp/utf.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/regexp/utf.go b/regexp/utf.go
index 48dd9a7..ad795a5 100644
--- a/regexp/utf.go
+++ b/regexp/utf.go
@@ -16,6 +16,9 @@ const (
 	instByteRange = syntax.InstRune | 0x80 // local opcode
 
 	argFold = 1 << 16
+
+	minSurrogate = 0xD800
+	maxSurrogate = 0xDFFF
 )
 
 func toByteProg(prog *syntax.Prog) error {
@@ -215,6 +218,13 @@ func (b *runeBuilder) addRange(lo, hi rune, fold bool) {
 		return
 	}
 
+	// Surrogate halves have no UTF-8 encoding.
+	if lo <= maxSurrogate && minSurrogate <= hi {
+		b.addRange(lo, minSurrogate-1, fold)
+		b.addRange(maxSurrogate+1, hi, fold)
+		return
+	}
+
 	// TODO: Pick off 80-10FFFF for special handling?
 	if lo == 0x80 && hi == 0x10FFFF {
 	}
-- 
2.43.0


From d6a97a62610f6991828633fdfa610b2087b544f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 08/16] fix: regexp: print the right line number above a match
 shown with context

---
 regexp/match.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/regexp/match.go b/regexp/match.go
index 69f4a95..8aebe14 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -435,7 +435,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 	}
 	var (
 		buf        = g.buf[:0]
-		needLineno = g.N || g.HTML
+		needLineno = g.N || g.HTML || g.PreContext+g.PostContext > 0
 		lineno     = 1
 		count      = 0
 		prefix     = ""
-- 
2.43.0


From 668e213bf7d34f7587536863c5fa72165b8fac88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:44 +0000
Subject: [PATCH 09/16] fix: regexp: escape context lines and read errors in
 HTML output

---
 regexp/match.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/regexp/match.go b/regexp/match.go
index 8aebe14..7dfa728 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -500,14 +500,14 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			case g.C:
 				count++
 			case g.PreContext+g.PostContext > 0:
-				fmt.Fprintf(g.Stdout, "%s%d:\n", prefix, lineno)
+				fmt.Fprintf(g.Stdout, "%s%d:\n", g.esc(prefix), lineno)
 				before, match, after := lineContext(g.PreContext, g.PostContext, buf, lineStart, lineEnd)
 				for _, line := range before {
-					fmt.Fprintf(g.Stdout, "\t\t%s\n", line)
+					fmt.Fprintf(g.Stdout, "\t\t%s\n", g.esc(string(line)))
 				}
-				fmt.Fprintf(g.Stdout, "\t>>\t%s\n", match)
+				fmt.Fprintf(g.Stdout, "\t>>\t%s\n", g.esc(string(match)))
 				for _, line := range after {
-					fmt.Fprintf(g.Stdout, "\t\t%s\n", line)
+					fmt.Fprintf(g.Stdout, "\t\t%s\n", g.esc(string(line)))
 				}
 			case g.HTML:
 				fmt.Fprintf(g.Stdout, "<a href=\"/show/%s?q=%s#L%d\">%s:%d</a>:%s%s", g.esc(strings.ReplaceAll(name, "#", ">")), g.esc(g.Regexp.String()), lineno, g.esc(name), lineno, g.esc(string(line)), nl)
@@ -535,7 +535,7 @@ func (g *Grep) Reader(r io.Reader, name string) {
 		chunkStart = d
 		if endText && err != nil {
 			if err != io.EOF && err != io.ErrUnexpectedEOF {
-				fmt.Fprintf(g.Stderr, "%s: %v\n", g.esc(name), err)
+				fmt.Fprintf(g.Stderr, "%s: %s\n", g.esc(name), g.esc(err.Error()))
 			}
 			break
 		}
-- 
2.43.0


From 19939d71ec7f0bbc48c5b21700332da9c6f6d738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:47 +0000
Subject: [PATCH 10/16] fix: csweb: escape errors about the query

---
 cmd/csweb/web.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 4b46d92..70d0004 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -56,7 +56,7 @@ func home(w http.ResponseWriter, r *http.Request) {
 	pat := "(?m)" + qarg
 	re, err := regexp.Compile(pat)
 	if err != nil {
-		fmt.Fprintf(w, "Bad query: %v\n", err)
+		fmt.Fprintf(w, "Bad query: %s\n", html.EscapeString(err.Error()))
 		return
 	}
 	g.Regexp = re
@@ -65,7 +65,7 @@ func home(w http.ResponseWriter, r *http.Request) {
 	if farg != "" {
 		fre, err = regexp.Compile(farg)
 		if err != nil {
-			fmt.Fprintf(w, "Bad -f flag: %v\n", err)
+			fmt.Fprintf(w, "Bad -f flag: %s\n", html.EscapeString(err.Error()))
 			return
 		}
 	}
-- 
2.43.0


From 0b4c9b49b68ed86cabd260d17393b91b6bf29153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:50 +0000
Subject: [PATCH 11/16] fix: csweb: do not serve a non-text file as HTML

---
 cmd/csweb/web.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmd/csweb/web.go b/cmd/csweb/web.go
index 70d0004..b21f529 100644
--- a/cmd/csweb/web.go
+++ b/cmd/csweb/web.go
@@ -199,6 +199,13 @@ func show(w http.ResponseWriter, r *http.Request) {
 		http.Error(w, err.Error(), 500)
 		return
 	}
+	if !isText(data) {
+		// The data is served as it is; never let it be taken for HTML.
+		w.Header().Set("X-Content-Type-Options", "nosniff")
+		if strings.HasPrefix(http.DetectContentType(data), "text/") {
+			w.Header().Set("Content-Type", "text/plain; charset=utf-8")
+		}
+	}
 	w.Write(serveFile(file, data))
 }
 
-- 
2.43.0


From 3ac59c62487d58c26256f680d84457347dd0e978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:53 +0000
Subject: [PATCH 12/16] fix: cindex: do not crash on a hidden path that cannot
 be read

---
 cmd/cindex/cindex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index d82bf6c..702d5f9 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -143,7 +143,7 @@ func main() {
 			if _, elem := filepath.Split(path); elem != "" {
 				// Skip various temporary or "hidden" files or directories.
 				if elem[0] == '.' || elem[0] == '#' || elem[0] == '~' || elem[len(elem)-1] == '~' {
-					if info.IsDir() {
+					if info != nil && info.IsDir() {
 						return filepath.SkipDir
 					}
 					return nil
-- 
2.43.0


From 7859184ffaa6482f592da20863e6678b9cae2de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:57 +0000
Subject: [PATCH 13/16] fix: cindex: index files beneath nested or repeated
 roots once

---
 cmd/cindex/cindex.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmd/cindex/cindex.go b/cmd/cindex/cindex.go
index 702d5f9..bb008cd 100644
--- a/cmd/cindex/cindex.go
+++ b/cmd/cindex/cindex.go
@@ -115,6 +115,15 @@ func main() {
 			roots = append(roots, index.MakePath(a))
 		}
 		slices.SortFunc(roots, index.Path.Compare)
+
+		// Drop roots beneath other roots, so that no file is indexed twice.
+		all := roots
+		roots = nil
+		for _, root := range all {
+			if len(roots) == 0 || !root.HasPathPrefix(roots[len(roots)-1]) {
+				roots = append(roots, root)
+			}
+		}
 	}
 
 	master := index.File()
-- 
2.43.0


From e2c1541a2c0d114bcb7b3df566a3dea1ae06f25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:01 +0000
Subject: [PATCH 14/16] fix: index: index zip entries with repeated names once
 and skip malformed names

---
 index/write.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/index/write.go b/index/write.go
index 185ed23..2364888 100644
--- a/index/write.go
+++ b/index/write.go
@@ -179,7 +179,7 @@ func (ix *IndexWriter) Add(name string, f io.Reader) error {
 			return err
 		}
 		files := slices.Clone(r.File)
-		slices.SortFunc(files, func(x, y *zip.File) int {
+		slices.SortStableFunc(files, func(x, y *zip.File) int {
 			for i := 0; i < len(x.Name) && i < len(y.Name); i++ {
 				if x.Name[i] == y.Name[i] {
 					continue
@@ -194,7 +194,15 @@ func (ix *IndexWriter) Add(name string, f io.Reader) error {
 			}
 			return cmp.Compare(len(x.Name), len(y.Name))
 		})
-		for _, file := range files {
+		for i, file := range files {
+			if !isValidName(file.Name) {
+				log.Printf("%s: malformed name %q", name, file.Name)
+				continue
+			}
+			if i+1 < len(files) && files[i+1].Name == file.Name {
+				// Repeated name; the last one counts.
+				continue
+			}
 			r, err := file.Open()
 			if err != nil {
 				println("no3", name)
-- 
2.43.0


From f956ed4b58095e461b788ae342c5d50072bdfe9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:35 +0000
Subject: [PATCH 15/16] fix: regexp: do not take the part of a line at the end
 of the read buffer for a line

---
 regexp/match.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/regexp/match.go b/regexp/match.go
index 7dfa728..1512751 100644
--- a/regexp/match.go
+++ b/regexp/match.go
@@ -454,9 +454,15 @@ func (g *Grep) Reader(r io.Reader, name string) {
 			// Stop scan before trailing fragment of a line;
 			// also stop before g.PostContext whole lines,
 			// so we know we'll have the context we need to print.
-			d := lineSuffixLen(buf, g.PostContext+1)
-			if d < len(buf) {
-				end = len(buf) - d
+			end = len(buf) - lineSuffixLen(buf[chunkStart:], g.PostContext+1)
+			if end == 0 {
+				// Not enough room for the context.
+				// Still stop before the trailing fragment,
+				// unless a single line fills the whole buffer.
+				end = bytes.LastIndex(buf, nl) + 1
+				if end == 0 {
+					end = len(buf)
+				}
 			}
 		} else {
 			endText = true
-- 
2.43.0


From 8ee3be410634b60bd5a00ee5627be67d092d43fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:39 +0000
Subject: [PATCH 16/16] fix: csearch: list the files an empty pattern matches

csearch -l '' took a shortcut that searched an empty reader instead of
the file, and so listed nothing.
---
 cmd/csearch/csearch.go | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/cmd/csearch/csearch.go b/cmd/csearch/csearch.go
index 58af5b8..f2530e7 100644
--- a/cmd/csearch/csearch.go
+++ b/cmd/csearch/csearch.go
@@ -6,7 +6,6 @@ package main
 
 import (
 	"archive/zip"
-	"bytes"
 	"flag"
 	"fmt"
 	"log"
@@ -146,10 +145,6 @@ func Main() {
 
 	for _, fileid := range post {
 		name := ix.Name(fileid).String()
-		if g.L && (pat == "(?m)" || pat == "(?i)(?m)") {
-			g.Reader(bytes.NewReader(nil), name)
-			continue
-		}
 		file, err := os.Open(string(name))
 		if err != nil {
 			if i := strings.Index(name, ".zip\x01"); i >= 0 {
-- 
2.43.0

