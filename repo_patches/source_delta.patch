From 21a8fc129d38f773c65c4c2611fa855cd655a935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:05 +0000
Subject: [PATCH 01/16] fix: decoding an absent optional clears the pointer

Decoding into a variable that already held a value left the previous
pointer in place when the encoding said the optional was absent.
---
 out.go         |  2 ++
 rfc1057/xdr.go |  2 ++
 rfc1813/xdr.go | 20 ++++++++++++++++++++
 3 files changed, 24 insertions(+)

diff --git a/out.go b/out.go
index 5931268..91a17cc 100644
--- a/out.go
+++ b/out.go
@@ -157,6 +157,8 @@ func (t declTypePtr) goXdr(valPtr string) string {
 	res += fmt.Sprintf("if opted {\n")
 	res += fmt.Sprintf("*(%s) = new(%s)\n", valPtr, t.t.goType())
 	res += t.t.goXdr(fmt.Sprintf("*(%s)", valPtr))
+	res += fmt.Sprintf("} else if xs.Decoding() {\n")
+	res += fmt.Sprintf("*(%s) = nil\n", valPtr)
 	res += fmt.Sprintf("}\n")
 	res += fmt.Sprintf("}\n")
 	return res
diff --git a/rfc1057/xdr.go b/rfc1057/xdr.go
index 3ed725a..fd7b221 100644
--- a/rfc1057/xdr.go
+++ b/rfc1057/xdr.go
@@ -116,6 +116,8 @@ func (v *Pmaplist) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&v.P) = new(Pmaplistelem)
 			(*Pmaplistelem)(*(&v.P)).Xdr(xs)
+		} else if xs.Decoding() {
+			*(&v.P) = nil
 		}
 	}
 }
diff --git a/rfc1813/xdr.go b/rfc1813/xdr.go
index 9e7a294..06542a0 100644
--- a/rfc1813/xdr.go
+++ b/rfc1813/xdr.go
@@ -950,6 +950,8 @@ func (v *Entry3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Nextentry)) = new(Entry3)
 			(*Entry3)(*(&((v).Nextentry))).Xdr(xs)
+		} else if xs.Decoding() {
+			*(&((v).Nextentry)) = nil
 		}
 	}
 }
@@ -967,6 +969,8 @@ func (v *Dirlist3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Entries)) = new(Entry3)
 			(*Entry3)(*(&((v).Entries))).Xdr(xs)
+		} else if xs.Decoding() {
+			*(&((v).Entries)) = nil
 		}
 	}
 	xdr.XdrBool(xs, (*bool)(&((v).Eof)))
@@ -1014,6 +1018,8 @@ func (v *Entryplus3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Nextentry)) = new(Entryplus3)
 			(*Entryplus3)(*(&((v).Nextentry))).Xdr(xs)
+		} else if xs.Decoding() {
+			*(&((v).Nextentry)) = nil
 		}
 	}
 }
@@ -1031,6 +1037,8 @@ func (v *Dirlistplus3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Entries)) = new(Entryplus3)
 			(*Entryplus3)(*(&((v).Entries))).Xdr(xs)
+		} else if xs.Decoding() {
+			*(&((v).Entries)) = nil
 		}
 	}
 	xdr.XdrBool(xs, (*bool)(&((v).Eof)))
@@ -1298,6 +1306,8 @@ func (v *Mount3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Ml_next)) = new(Mount3)
 			(*Mount3)(*(&((v).Ml_next))).Xdr(xs)
+		} else if xs.Decoding() {
+			*(&((v).Ml_next)) = nil
 		}
 	}
 }
@@ -1315,6 +1325,8 @@ func (v *Mountopt3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&v.P) = new(Mount3)
 			(*Mount3)(*(&v.P)).Xdr(xs)
+		} else if xs.Decoding() {
+			*(&v.P) = nil
 		}
 	}
 }
@@ -1333,6 +1345,8 @@ func (v *Groups3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Gr_next)) = new(Groups3)
 			(*Groups3)(*(&((v).Gr_next))).Xdr(xs)
+		} else if xs.Decoding() {
+			*(&((v).Gr_next)) = nil
 		}
 	}
 }
@@ -1351,6 +1365,8 @@ func (v *Exports3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Ex_groups)) = new(Groups3)
 			(*Groups3)(*(&((v).Ex_groups))).Xdr(xs)
+		} else if xs.Decoding() {
+			*(&((v).Ex_groups)) = nil
 		}
 	}
 	if xs.Encoding() {
@@ -1366,6 +1382,8 @@ func (v *Exports3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Ex_next)) = new(Exports3)
 			(*Exports3)(*(&((v).Ex_next))).Xdr(xs)
+		} else if xs.Decoding() {
+			*(&((v).Ex_next)) = nil
 		}
 	}
 }
@@ -1383,6 +1401,8 @@ func (v *Exportsopt3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&v.P) = new(Exports3)
 			(*Exports3)(*(&v.P)).Xdr(xs)
+		} else if xs.Decoding() {
+			*(&v.P) = nil
 		}
 	}
 }
-- 
2.43.0


From 7bf8a25676a4b9839a1715cf07b9faf1ac55eb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:06 +0000
Subject: [PATCH 02/16] fix: do not allocate or loop by an unchecked array
 count

The decoder of a variable-length array allocated as many elements as the
count word claimed, before seeing any of them, and kept looping to that
count after running out of input: a message of a few bytes could demand
gigabytes of memory and billions of iterations.
---
 out.go         | 6 ++++--
 rfc1057/xdr.go | 7 +++++--
 rfc1813/xdr.go | 7 +++++--
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/out.go b/out.go
index 91a17cc..6726c0d 100644
--- a/out.go
+++ b/out.go
@@ -78,8 +78,10 @@ func (t declTypeVarArray) goXdr(valPtr string) string {
 	if t.sz != "" {
 		res += fmt.Sprintf("if __arraysz > %s { xs.SetError(\"array too large\") } else {\n", t.sz)
 	}
-	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, __arraysz); }\n", valPtr, t.t.goType())
-	res += fmt.Sprintf("for i := uint64(0); i < uint64(__arraysz); i++ {\n")
+	// Grow the slice as elements are decoded; __arraysz is not trustworthy.
+	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, 0); }\n", valPtr, t.t.goType())
+	res += fmt.Sprintf("for i := uint64(0); i < uint64(__arraysz) && xs.Error() == nil; i++ {\n")
+	res += fmt.Sprintf("if xs.Decoding() { *%s = append(*%s, *new(%s)); }\n", valPtr, valPtr, t.t.goType())
 	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[i])", valPtr)))
 	res += fmt.Sprintf("}\n")
 	if t.sz != "" {
diff --git a/rfc1057/xdr.go b/rfc1057/xdr.go
index fd7b221..e5a701f 100644
--- a/rfc1057/xdr.go
+++ b/rfc1057/xdr.go
@@ -87,9 +87,12 @@ func (v *Auth_unix) Xdr(xs *xdr.XdrState) {
 			xs.SetError("array too large")
 		} else {
 			if xs.Decoding() {
-				*&((v).Gids) = make([]uint32, __arraysz)
+				*&((v).Gids) = make([]uint32, 0)
 			}
-			for i := uint64(0); i < uint64(__arraysz); i++ {
+			for i := uint64(0); i < uint64(__arraysz) && xs.Error() == nil; i++ {
+				if xs.Decoding() {
+					*&((v).Gids) = append(*&((v).Gids), *new(uint32))
+				}
 				xdr.XdrU32(xs, (*uint32)(&((*(&((v).Gids)))[i])))
 
 			}
diff --git a/rfc1813/xdr.go b/rfc1813/xdr.go
index 06542a0..15bd0a0 100644
--- a/rfc1813/xdr.go
+++ b/rfc1813/xdr.go
@@ -1274,9 +1274,12 @@ func (v *Mountres3_ok) Xdr(xs *xdr.XdrState) {
 		xdr.XdrU32(xs, (*uint32)(&__arraysz))
 
 		if xs.Decoding() {
-			*&((v).Auth_flavors) = make([]uint32, __arraysz)
+			*&((v).Auth_flavors) = make([]uint32, 0)
 		}
-		for i := uint64(0); i < uint64(__arraysz); i++ {
+		for i := uint64(0); i < uint64(__arraysz) && xs.Error() == nil; i++ {
+			if xs.Decoding() {
+				*&((v).Auth_flavors) = append(*&((v).Auth_flavors), *new(uint32))
+			}
 			xdr.XdrU32(xs, (*uint32)(&((*(&((v).Auth_flavors)))[i])))
 
 		}
-- 
2.43.0


From 02c5ca8769af91174c595017c859f88a5785a8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:29 +0000
Subject: [PATCH 03/16] fix: generate compilable code for fixed-length arrays

The element expression indexed the pointer instead of the array, and the
loop compared an int with a constant that has a type of its own when
-const-type is given.
---
 out.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/out.go b/out.go
index 6726c0d..f0cb5ae 100644
--- a/out.go
+++ b/out.go
@@ -54,8 +54,8 @@ func (t declTypeArray) goType() string {
 
 func (t declTypeArray) goXdr(valPtr string) string {
 	var res string
-	res += fmt.Sprintf("for i := 0; i < %s; i++ {\n", t.sz)
-	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&(*(%s)[i])", valPtr)))
+	res += fmt.Sprintf("for i := 0; i < len(*(%s)); i++ {\n", valPtr)
+	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[i])", valPtr)))
 	res += fmt.Sprintf("}\n")
 	return res
 }
-- 
2.43.0


From 6bee7dd20591e2be310169f7ef953b4dacff79c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:30 +0000
Subject: [PATCH 04/16] fix: use separate loop variables for nested arrays

An array inside an inline struct or union that is itself an array element
shadowed the outer loop variable and coded the wrong elements.
---
 out.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/out.go b/out.go
index f0cb5ae..e2c726d 100644
--- a/out.go
+++ b/out.go
@@ -43,6 +43,16 @@ func (t declTypeTypespec) goXdr(valPtr string) string {
 	return t.t.goXdr(valPtr)
 }
 
+// loopVar returns a name for a loop variable that valPtr, which may be an
+// element of an enclosing array, does not use already.
+func loopVar(valPtr string) string {
+	name := "i"
+	for strings.Contains(valPtr, "["+name+"]") {
+		name += "i"
+	}
+	return name
+}
+
 type declTypeArray struct {
 	t  typespec
 	sz string
@@ -54,8 +64,9 @@ func (t declTypeArray) goType() string {
 
 func (t declTypeArray) goXdr(valPtr string) string {
 	var res string
-	res += fmt.Sprintf("for i := 0; i < len(*(%s)); i++ {\n", valPtr)
-	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[i])", valPtr)))
+	idx := loopVar(valPtr)
+	res += fmt.Sprintf("for %s := 0; %s < len(*(%s)); %s++ {\n", idx, idx, valPtr, idx)
+	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[%s])", valPtr, idx)))
 	res += fmt.Sprintf("}\n")
 	return res
 }
@@ -80,9 +91,10 @@ func (t declTypeVarArray) goXdr(valPtr string) string {
 	}
 	// Grow the slice as elements are decoded; __arraysz is not trustworthy.
 	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, 0); }\n", valPtr, t.t.goType())
-	res += fmt.Sprintf("for i := uint64(0); i < uint64(__arraysz) && xs.Error() == nil; i++ {\n")
+	idx := loopVar(valPtr)
+	res += fmt.Sprintf("for %s := uint64(0); %s < uint64(__arraysz) && xs.Error() == nil; %s++ {\n", idx, idx, idx)
 	res += fmt.Sprintf("if xs.Decoding() { *%s = append(*%s, *new(%s)); }\n", valPtr, valPtr, t.t.goType())
-	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[i])", valPtr)))
+	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[%s])", valPtr, idx)))
 	res += fmt.Sprintf("}\n")
 	if t.sz != "" {
 		res += fmt.Sprintf("}\n")
-- 
2.43.0


From a9e5448478f03a18ef60ca8037924bccb1a895e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:51 +0000
Subject: [PATCH 05/16] fix: report the supported versions in mismatch replies

RPC_MISMATCH and PROG_MISMATCH replies carried the range 0 to 0 instead
of RPC version 2 and the lowest and highest version registered for the
program.
---
 rfc1057/server.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/rfc1057/server.go b/rfc1057/server.go
index cbb5ee9..66d5d73 100644
--- a/rfc1057/server.go
+++ b/rfc1057/server.go
@@ -66,6 +66,21 @@ func (s *Server) RegisterMany(regs []xdr.ProcRegistration) {
 	}
 }
 
+// versionRange returns the lowest and highest registered version.
+func versionRange(vermap map[uint32]map[uint32]ProcHandler) (low, high uint32) {
+	first := true
+	for v := range vermap {
+		if first || v < low {
+			low = v
+		}
+		if first || v > high {
+			high = v
+		}
+		first = false
+	}
+	return
+}
+
 func (s *Server) Run(rw io.ReadWriter) error {
 	sc := &serverConn{
 		s:  s,
@@ -126,6 +141,8 @@ func (sc *serverConn) handleReqErr(buf []byte) error {
 	if req.Body.Cbody.Rpcvers != 2 {
 		res.Body.Rbody.Stat = MSG_DENIED
 		res.Body.Rbody.Rreply.Stat = RPC_MISMATCH
+		res.Body.Rbody.Rreply.Mismatch_info.Low = 2
+		res.Body.Rbody.Rreply.Mismatch_info.High = 2
 	} else {
 		res.Body.Rbody.Stat = MSG_ACCEPTED
 		vermap, progok := sc.s.handlers[req.Body.Cbody.Prog]
@@ -137,6 +154,8 @@ func (sc *serverConn) handleReqErr(buf []byte) error {
 		procmap, verok := vermap[req.Body.Cbody.Vers]
 		if !verok {
 			res.Body.Rbody.Areply.Reply_data.Stat = PROG_MISMATCH
+			info := &res.Body.Rbody.Areply.Reply_data.Mismatch_info
+			info.Low, info.High = versionRange(vermap)
 			goto reply
 		}
 
-- 
2.43.0


From c560ad45de9f82c507e2098e0fd71e78268ca553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:52 +0000
Subject: [PATCH 06/16] fix: send no result bytes with a GARBAGE_ARGS reply

A handler that returned a result along with its error had the result
appended to the failure reply.
---
 rfc1057/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rfc1057/server.go b/rfc1057/server.go
index 66d5d73..138f0b5 100644
--- a/rfc1057/server.go
+++ b/rfc1057/server.go
@@ -167,6 +167,7 @@ func (sc *serverConn) handleReqErr(buf []byte) error {
 
 		resdata, err = h(rd)
 		if err != nil {
+			resdata = nil
 			res.Body.Rbody.Areply.Reply_data.Stat = GARBAGE_ARGS
 			goto reply
 		}
-- 
2.43.0


From acb5b68503e8ff5fcb6d5829390e5b05009c4149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:07 +0000
Subject: [PATCH 07/16] fix: ignore the Go scanner's automatic semicolons

A line break after an identifier, a number or a closing bracket ended the
declaration, so that legal layouts were rejected and a missing semicolon
at the end of a line was accepted.
---
 scan.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scan.go b/scan.go
index 23ab8ca..8990a4e 100644
--- a/scan.go
+++ b/scan.go
@@ -16,6 +16,12 @@ const eof = 0
 
 func (l *lexer) Lex(lval *xdrSymType) int {
 	pos, tok, lit := l.s.Scan()
+
+	// The Go scanner inserts semicolons at line ends; XDR has none there.
+	for tok == token.SEMICOLON && lit == "\n" {
+		pos, tok, lit = l.s.Scan()
+	}
+
 	if tok == token.EOF {
 		return eof
 	}
-- 
2.43.0


From ac118073989e975da1b1ab4bbc68cc42f1cccd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:08 +0000
Subject: [PATCH 08/16] fix: reject an unterminated comment

The rest of the specification was silently taken as a comment, and the
declarations before it were written out as if they were all of it.
---
 main.go |  3 ++-
 scan.go | 11 ++++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/main.go b/main.go
index 8ad23cf..b14a61c 100644
--- a/main.go
+++ b/main.go
@@ -4,6 +4,7 @@ import (
 	"flag"
 	"fmt"
 	"go/format"
+	"go/scanner"
 	"go/token"
 	"io"
 	"io/ioutil"
@@ -43,7 +44,7 @@ func main() {
 	f := fset.AddFile(*inputFile, -1, len(src))
 
 	var l lexer
-	l.s.Init(f, src, nil, 0)
+	l.s.Init(f, src, nil, scanner.ScanComments)
 
 	outTmp := *outputFile + ".tmp"
 	outf, err := os.OpenFile(outTmp, os.O_WRONLY|os.O_EXCL|os.O_CREATE|os.O_TRUNC, 0666)
diff --git a/scan.go b/scan.go
index 8990a4e..c95d77f 100644
--- a/scan.go
+++ b/scan.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"go/scanner"
 	"go/token"
+	"strings"
 )
 
 type lexer struct {
@@ -18,7 +19,10 @@ func (l *lexer) Lex(lval *xdrSymType) int {
 	pos, tok, lit := l.s.Scan()
 
 	// The Go scanner inserts semicolons at line ends; XDR has none there.
-	for tok == token.SEMICOLON && lit == "\n" {
+	for tok == token.COMMENT || (tok == token.SEMICOLON && lit == "\n") {
+		if tok == token.COMMENT && unterminated(lit) {
+			panic("comment not terminated")
+		}
 		pos, tok, lit = l.s.Scan()
 	}
 
@@ -155,6 +159,11 @@ func (l *lexer) Lex(lval *xdrSymType) int {
 	}
 }
 
+// unterminated reports whether a comment token ran into the end of the file.
+func unterminated(lit string) bool {
+	return strings.HasPrefix(lit, "/*") && (len(lit) < 4 || !strings.HasSuffix(lit, "*/"))
+}
+
 func (l *lexer) Error(e string) {
 	panic(e)
 }
-- 
2.43.0


From c8817c01c68abe4cc4be9c1cc99233139db37b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:27 +0000
Subject: [PATCH 09/16] fix: write no output file if another one cannot be
 formatted

With -t, a specification whose constants or types do not format, such as
one that uses a Go keyword as the name of a constant, replaced the main
output file before failing on the types file.
---
 main.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/main.go b/main.go
index b14a61c..fb46d33 100644
--- a/main.go
+++ b/main.go
@@ -76,16 +76,21 @@ func main() {
 	}
 
 	xdrParse(&l)
+
+	// Write no output file before all of them are known to be good.
 	outf.Close()
-	refmt(outTmp, *outputFile)
+	outbuf := refmt(outTmp)
 
 	if *typesFile != "" {
 		toutf.Close()
-		refmt(toutTmp, *typesFile)
+		toutbuf := refmt(toutTmp)
+		writeFile(*typesFile, toutbuf)
 	}
+
+	writeFile(*outputFile, outbuf)
 }
 
-func refmt(infile string, outfile string) {
+func refmt(infile string) []byte {
 	buf, err := ioutil.ReadFile(infile)
 	if err != nil {
 		panic(err)
@@ -96,7 +101,11 @@ func refmt(infile string, outfile string) {
 		panic(err)
 	}
 
-	err = ioutil.WriteFile(outfile, buf, 0666)
+	return buf
+}
+
+func writeFile(outfile string, buf []byte) {
+	err := ioutil.WriteFile(outfile, buf, 0666)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From a8231bc06bde6526d206b34639e01eee881155b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:32 +0000
Subject: [PATCH 10/16] fix: refer to constants and enumerators by the name and
 type they have

Sizes named by an enumerator and case labels named by a lower-case
constant used a Go name that does not exist, and a limit, label or
enumerator value named by a constant or enumerator of another type did
not compile.
---
 out.go | 55 +++++++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 47 insertions(+), 8 deletions(-)

diff --git a/out.go b/out.go
index e2c726d..7f6d118 100644
--- a/out.go
+++ b/out.go
@@ -16,6 +16,34 @@ func i(ident string) string {
 	}
 }
 
+// consts has the constants seen so far, which keep their name in Go, and
+// enumerators the Go type of each enumerator, whose name is capitalized.
+var consts = make(map[string]bool)
+var enumerators = make(map[string]string)
+
+func isNumber(val string) bool {
+	return val[0] >= '0' && val[0] <= '9'
+}
+
+// size returns the Go expression for a size or enumerator value.
+func size(val string) string {
+	if _, ok := enumerators[val]; ok {
+		return i(val)
+	}
+	return val
+}
+
+// label returns the Go expression for a case label of a switch on goType.
+func label(val string, goType string) string {
+	if isNumber(val) || val == "TRUE" || val == "FALSE" || enumerators[val] == goType {
+		return i(val)
+	}
+	if consts[val] {
+		return fmt.Sprintf("%s(%s)", goType, val)
+	}
+	return fmt.Sprintf("%s(%s)", goType, i(val))
+}
+
 type decl interface{}
 
 type declVoid struct {
@@ -59,7 +87,7 @@ type declTypeArray struct {
 }
 
 func (t declTypeArray) goType() string {
-	return fmt.Sprintf("[%s]%s", t.sz, t.t.goType())
+	return fmt.Sprintf("[%s]%s", size(t.sz), t.t.goType())
 }
 
 func (t declTypeArray) goXdr(valPtr string) string {
@@ -87,7 +115,11 @@ func (t declTypeVarArray) goXdr(valPtr string) string {
 	res += fmt.Sprintf("xs.EncodingSetSize(&__arraysz, len(*%s));\n", valPtr)
 	res += fmt.Sprintf("%s\n", typeInt{true}.goXdr("&__arraysz"))
 	if t.sz != "" {
-		res += fmt.Sprintf("if __arraysz > %s { xs.SetError(\"array too large\") } else {\n", t.sz)
+		max := size(t.sz)
+		if !isNumber(max) {
+			max = fmt.Sprintf("uint32(%s)", max)
+		}
+		res += fmt.Sprintf("if __arraysz > %s { xs.SetError(\"array too large\") } else {\n", max)
 	}
 	// Grow the slice as elements are decoded; __arraysz is not trustworthy.
 	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, 0); }\n", valPtr, t.t.goType())
@@ -108,7 +140,7 @@ type declTypeOpaqueArray struct {
 }
 
 func (t declTypeOpaqueArray) goType() string {
-	return fmt.Sprintf("[%s]byte", t.sz)
+	return fmt.Sprintf("[%s]byte", size(t.sz))
 }
 
 func (t declTypeOpaqueArray) goXdr(valPtr string) string {
@@ -124,7 +156,7 @@ func (t declTypeOpaqueVarArray) goType() string {
 }
 
 func (t declTypeOpaqueVarArray) goXdr(valPtr string) string {
-	sz := t.sz
+	sz := size(t.sz)
 	if sz == "" {
 		sz = "-1"
 	}
@@ -140,7 +172,7 @@ func (t declTypeString) goType() string {
 }
 
 func (t declTypeString) goXdr(valPtr string) string {
-	sz := t.sz
+	sz := size(t.sz)
 	if sz == "" {
 		sz = "-1"
 	}
@@ -318,18 +350,19 @@ func (t typeUnion) goType() string {
 
 func (t typeUnion) goXdr(valPtr string) string {
 	var res string
-	var switchName string
+	var switchName, switchType string
 	switch v := t.switchDecl.(type) {
 	case declVoid:
 		panic("void union switch")
 	case declName:
 		switchName = fmt.Sprintf("(%s).%s", valPtr, i(v.n))
+		switchType = v.t.goType()
 		res += v.t.goXdr(fmt.Sprintf("&(%s)", switchName))
 	}
 	res += fmt.Sprintf("switch %s {\n", switchName)
 	for _, c := range t.cases.cases {
 		for idx, cval := range c.cases {
-			res += fmt.Sprintf("case %s:\n", i(cval))
+			res += fmt.Sprintf("case %s:\n", label(cval, switchType))
 			if idx != len(c.cases)-1 {
 				res += "fallthrough\n"
 			}
@@ -458,6 +491,7 @@ func emitProg(d progDef) {
 }
 
 func emitConst(ident string, val string) {
+	consts[ident] = true
 	fmt.Fprintf(tout, "const %s %s = %s\n", ident, *constTypeFlag, val)
 }
 
@@ -496,7 +530,12 @@ func emitEnum(ident string, val []enumItem) {
 	fmt.Fprintf(out, "}\n")
 
 	for _, v := range val {
-		fmt.Fprintf(tout, "const %s %s = %s\n", i(v.name), i(ident), v.val)
+		val := v.val
+		if !isNumber(val) {
+			val = fmt.Sprintf("%s(%s)", i(ident), size(val))
+		}
+		fmt.Fprintf(tout, "const %s %s = %s\n", i(v.name), i(ident), val)
+		enumerators[v.name] = i(ident)
 	}
 }
 
-- 
2.43.0


From 2d9c22c2ed383dcbbb4b44e8de7d5b28a961841b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:33 +0000
Subject: [PATCH 11/16] fix: compile procedures with basic argument and result
 types

The stubs called the Xdr method of int, hyper and bool, which have none;
use the named types of the xdr package. Types that have no such name are
refused instead of emitting code that cannot compile.
---
 out.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/out.go b/out.go
index 7f6d118..b493c2f 100644
--- a/out.go
+++ b/out.go
@@ -225,7 +225,29 @@ func (t typespecOpt) maybeGoType() string {
 		return ""
 	}
 
-	return t.t.goType()
+	return t.procType()
+}
+
+// procType returns a Go type with an Xdr method for the type.
+func (t typespecOpt) procType() string {
+	switch v := t.t.(type) {
+	case typeInt:
+		if v.unsig {
+			return "xdr.Uint32"
+		}
+		return "xdr.Int32"
+	case typeHyper:
+		if v.unsig {
+			return "xdr.Uint64"
+		}
+		return "xdr.Int64"
+	case typeBool:
+		return "xdr.Bool"
+	case typeIdent:
+		return v.goType()
+	default:
+		panic("unsupported procedure argument or result type")
+	}
 }
 
 type typeInt struct {
@@ -449,14 +471,14 @@ func emitProg(d progDef) {
 			fmt.Fprintf(out, "func (w *%s_%s_handler_wrapper) %s(args *xdr.XdrState) (res xdr.Xdrable, err error) {\n",
 				i(d.name), i(v.name), i(c.name))
 			if !c.arg.isVoid {
-				fmt.Fprintf(out, "var in %s\n", c.arg.t.goType())
+				fmt.Fprintf(out, "var in %s\n", c.arg.procType())
 				fmt.Fprintf(out, "in.Xdr(args)\n")
 				fmt.Fprintf(out, "err = args.Error()\n")
 				fmt.Fprintf(out, "if err != nil { return }\n")
 			}
 
 			if !c.res.isVoid {
-				fmt.Fprintf(out, "var out %s\n", c.res.t.goType())
+				fmt.Fprintf(out, "var out %s\n", c.res.procType())
 			} else {
 				fmt.Fprintf(out, "var out xdr.Void\n")
 			}
-- 
2.43.0


From 3bc1f615823ae73fe0aab9205640b546ac5022aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:57 +0000
Subject: [PATCH 12/16] fix: compile the output of a specification without
 types

The xdr import was unused when a specification only has constants.
---
 main.go        | 1 +
 rfc1057/xdr.go | 2 ++
 rfc1813/xdr.go | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/main.go b/main.go
index fb46d33..5227843 100644
--- a/main.go
+++ b/main.go
@@ -57,6 +57,7 @@ func main() {
 
 	fmt.Fprintf(out, "package %s\n", *outputPackage)
 	fmt.Fprintf(out, "import \"github.com/zeldovich/go-rpcgen/xdr\"\n")
+	fmt.Fprintf(out, "var _ xdr.Xdrable\n")
 
 	var toutTmp string
 	var toutf *os.File
diff --git a/rfc1057/xdr.go b/rfc1057/xdr.go
index e5a701f..d80a573 100644
--- a/rfc1057/xdr.go
+++ b/rfc1057/xdr.go
@@ -2,6 +2,8 @@ package rfc1057
 
 import "github.com/zeldovich/go-rpcgen/xdr"
 
+var _ xdr.Xdrable
+
 func (v *Auth_flavor) Xdr(xs *xdr.XdrState) {
 	xdr.XdrU32(xs, (*uint32)(v))
 }
diff --git a/rfc1813/xdr.go b/rfc1813/xdr.go
index 15bd0a0..d0dc1d6 100644
--- a/rfc1813/xdr.go
+++ b/rfc1813/xdr.go
@@ -2,6 +2,8 @@ package rfc1813
 
 import "github.com/zeldovich/go-rpcgen/xdr"
 
+var _ xdr.Xdrable
+
 func (v *Uint64) Xdr(xs *xdr.XdrState) {
 	xdr.XdrU64(xs, (*uint64)(v))
 }
-- 
2.43.0


From abbfb7c69af919e072594b7d692e952595060034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:58 +0000
Subject: [PATCH 13/16] fix: refuse to send messages too long for a record
 header

A message of 2 GiB or more was sent with a truncated length.
---
 rfc1057/client.go | 4 ++++
 rfc1057/server.go | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/rfc1057/client.go b/rfc1057/client.go
index ce797f3..5f1d229 100644
--- a/rfc1057/client.go
+++ b/rfc1057/client.go
@@ -51,6 +51,10 @@ func (c *Client) Call(proc uint32, cred, verf Opaque_auth, args xdr.Xdrable, res
 	}
 
 	wbuf := wr.WriteBuf()
+	if uint64(len(wbuf)) > maxRecord {
+		return fmt.Errorf("message too large")
+	}
+
 	var hdr [4]byte
 	binary.BigEndian.PutUint32(hdr[:], (1<<31)|uint32(len(wbuf)))
 	_, err = c.rw.Write(append(hdr[:], wbuf...))
diff --git a/rfc1057/server.go b/rfc1057/server.go
index 138f0b5..3f19af7 100644
--- a/rfc1057/server.go
+++ b/rfc1057/server.go
@@ -10,6 +10,9 @@ import (
 	"github.com/zeldovich/go-rpcgen/xdr"
 )
 
+// maxRecord is the largest length that a record header can express.
+const maxRecord = 1<<31 - 1
+
 // reqBufPool holds temporary byte slice buffers used for incoming requests.
 var reqBufPool sync.Pool
 
@@ -195,6 +198,9 @@ reply:
 	}
 
 	wbuf := wr.WriteBuf()
+	if uint64(len(wbuf)-4) > maxRecord {
+		return fmt.Errorf("reply too large")
+	}
 	binary.BigEndian.PutUint32(wbuf[0:4], (1<<31)|uint32(len(wbuf)-4))
 
 	_, err = sc.rw.Write(wbuf)
-- 
2.43.0


From e1a78b26ef2125a36c163127cab2578cf20d8f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:05 +0000
Subject: [PATCH 14/16] fix: allow a procedure name in several versions

The constant for its number was declared once per version, which does not
compile; the same went for a version name used in several programs.
---
 out.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/out.go b/out.go
index b493c2f..e63d8ad 100644
--- a/out.go
+++ b/out.go
@@ -2,6 +2,7 @@ package main
 
 import (
 	"fmt"
+	"strconv"
 	"strings"
 )
 
@@ -448,13 +449,35 @@ type progDef struct {
 	id   string
 }
 
+var numbers = make(map[string]uint64)
+
+// emitNumber emits the constant for a program, version or procedure. The same
+// procedure name can occur in several versions, and the same version name in
+// several programs.
+func emitNumber(name string, id string) {
+	n, err := strconv.ParseUint(id, 0, 32)
+	if err != nil {
+		panic(err)
+	}
+
+	old, ok := numbers[i(name)]
+	if ok && old != n {
+		panic(fmt.Sprintf("%s has two different numbers", name))
+	}
+
+	if !ok {
+		numbers[i(name)] = n
+		fmt.Fprintf(tout, "const %s uint32 = %s\n", i(name), id)
+	}
+}
+
 func emitProg(d progDef) {
-	fmt.Fprintf(tout, "const %s uint32 = %s\n", i(d.name), d.id)
+	emitNumber(d.name, d.id)
 	for _, v := range d.vers {
-		fmt.Fprintf(tout, "const %s uint32 = %s\n", i(v.name), v.id)
+		emitNumber(v.name, v.id)
 
 		for _, c := range v.calls {
-			fmt.Fprintf(tout, "const %s uint32 = %s\n", i(c.name), c.id)
+			emitNumber(c.name, c.id)
 		}
 
 		fmt.Fprintf(out, "type %s_%s_handler interface {\n", i(d.name), i(v.name))
-- 
2.43.0


From 78861909b1d598a84a4a1e9a9fb672221d0d082a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:50 +0000
Subject: [PATCH 15/16] fix: refuse identifiers and constants that only Go has

---
 scan.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/scan.go b/scan.go
index c95d77f..94ea67b 100644
--- a/scan.go
+++ b/scan.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"go/scanner"
 	"go/token"
+	"regexp"
 	"strings"
 )
 
@@ -15,6 +16,9 @@ type lexer struct {
 
 const eof = 0
 
+var xdrIdent = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)
+var xdrConst = regexp.MustCompile(`^(0[xX][0-9a-fA-F]+|0[0-7]*|[1-9][0-9]*)$`)
+
 func (l *lexer) Lex(lval *xdrSymType) int {
 	pos, tok, lit := l.s.Scan()
 
@@ -106,6 +110,9 @@ func (l *lexer) Lex(lval *xdrSymType) int {
 			return KWVERSION
 
 		default:
+			if !xdrIdent.MatchString(lit) {
+				panic(fmt.Sprintf("bad identifier %s", lit))
+			}
 			lval.str = lit
 			return IDENT
 		}
@@ -150,6 +157,10 @@ func (l *lexer) Lex(lval *xdrSymType) int {
 		return '*'
 
 	case token.INT:
+		// Go has more notations than XDR.
+		if !xdrConst.MatchString(lit) {
+			panic(fmt.Sprintf("bad constant %s", lit))
+		}
 		lval.str = lit
 		return CONST
 
-- 
2.43.0


From 6c14a52e17d92d1abcae4fbd6d01156db3e00046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:07 +0000
Subject: [PATCH 16/16] fix: fail when writing the generated code fails

---
 main.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 5227843..cd423b4 100644
--- a/main.go
+++ b/main.go
@@ -22,6 +22,20 @@ var constTypeFlag = flag.String("const-type", "", "Optional type for const defin
 var out io.Writer
 var tout io.Writer
 
+// mustWriter panics if a write fails, so that no incomplete output is used.
+type mustWriter struct {
+	w io.Writer
+}
+
+func (m mustWriter) Write(buf []byte) (int, error) {
+	n, err := m.w.Write(buf)
+	if err != nil {
+		panic(err)
+	}
+
+	return n, nil
+}
+
 func main() {
 	flag.Parse()
 
@@ -53,7 +67,7 @@ func main() {
 	}
 
 	defer os.Remove(outTmp)
-	out = outf
+	out = mustWriter{outf}
 
 	fmt.Fprintf(out, "package %s\n", *outputPackage)
 	fmt.Fprintf(out, "import \"github.com/zeldovich/go-rpcgen/xdr\"\n")
@@ -69,11 +83,11 @@ func main() {
 		}
 
 		defer os.Remove(toutTmp)
-		tout = toutf
+		tout = mustWriter{toutf}
 
 		fmt.Fprintf(tout, "package %s\n", *outputPackage)
 	} else {
-		tout = outf
+		tout = out
 	}
 
 	xdrParse(&l)
-- 
2.43.0

