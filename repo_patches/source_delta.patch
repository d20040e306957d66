From 4466a929c68377405efa5e4e0de66a0f7dd701c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 01/13] fix: emit compilable code for fixed-length arrays

The element expression &(*(v)[i]) dereferences the element instead of the
array pointer, and a bound given by a typed constant does not compare with
the int loop variable.
---
 out.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/out.go b/out.go
index 5931268..552cbe9 100644
--- a/out.go
+++ b/out.go
@@ -54,8 +54,8 @@ func (t declTypeArray) goType() string {
 
 func (t declTypeArray) goXdr(valPtr string) string {
 	var res string
-	res += fmt.Sprintf("for i := 0; i < %s; i++ {\n", t.sz)
-	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&(*(%s)[i])", valPtr)))
+	res += fmt.Sprintf("for i := 0; i < int(%s); i++ {\n", t.sz)
+	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[i])", valPtr)))
 	res += fmt.Sprintf("}\n")
 	return res
 }
-- 
2.43.0


From 4171b0460c54acab0551fee1c3609c48075768a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:09 +0000
Subject: [PATCH 02/13] fix: distinct index variables for nested array loops

An array nested in an inline struct of another array's elements indexed the
outer array with the inner loop's variable.
---
 out.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/out.go b/out.go
index 552cbe9..d292a91 100644
--- a/out.go
+++ b/out.go
@@ -43,6 +43,16 @@ func (t declTypeTypespec) goXdr(valPtr string) string {
 	return t.t.goXdr(valPtr)
 }
 
+// loopVar picks a name for the index variable of a loop over the array at
+// valPtr that differs from the index variables valPtr itself refers to.
+func loopVar(valPtr string) string {
+	depth := strings.Count(valPtr, "[i")
+	if depth == 0 {
+		return "i"
+	}
+	return fmt.Sprintf("i%d", depth)
+}
+
 type declTypeArray struct {
 	t  typespec
 	sz string
@@ -54,8 +64,9 @@ func (t declTypeArray) goType() string {
 
 func (t declTypeArray) goXdr(valPtr string) string {
 	var res string
-	res += fmt.Sprintf("for i := 0; i < int(%s); i++ {\n", t.sz)
-	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[i])", valPtr)))
+	idx := loopVar(valPtr)
+	res += fmt.Sprintf("for %s := 0; %s < int(%s); %s++ {\n", idx, idx, t.sz, idx)
+	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[%s])", valPtr, idx)))
 	res += fmt.Sprintf("}\n")
 	return res
 }
@@ -79,8 +90,9 @@ func (t declTypeVarArray) goXdr(valPtr string) string {
 		res += fmt.Sprintf("if __arraysz > %s { xs.SetError(\"array too large\") } else {\n", t.sz)
 	}
 	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, __arraysz); }\n", valPtr, t.t.goType())
-	res += fmt.Sprintf("for i := uint64(0); i < uint64(__arraysz); i++ {\n")
-	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[i])", valPtr)))
+	idx := loopVar(valPtr)
+	res += fmt.Sprintf("for %s := uint64(0); %s < uint64(__arraysz); %s++ {\n", idx, idx, idx)
+	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[%s])", valPtr, idx)))
 	res += fmt.Sprintf("}\n")
 	if t.sz != "" {
 		res += fmt.Sprintf("}\n")
-- 
2.43.0


From cf9f3e8c8519cda851ba3bcd10646e3147a29045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 03/13] fix: decode absent optional data as nil

Decoding into a variable that already held a pointer kept the old pointer
when the presence flag was false.
---
 out.go         |  2 ++
 rfc1057/xdr.go |  2 ++
 rfc1813/xdr.go | 20 ++++++++++++++++++++
 3 files changed, 24 insertions(+)

diff --git a/out.go b/out.go
index d292a91..75cfb29 100644
--- a/out.go
+++ b/out.go
@@ -169,6 +169,8 @@ func (t declTypePtr) goXdr(valPtr string) string {
 	res += fmt.Sprintf("if opted {\n")
 	res += fmt.Sprintf("*(%s) = new(%s)\n", valPtr, t.t.goType())
 	res += t.t.goXdr(fmt.Sprintf("*(%s)", valPtr))
+	res += fmt.Sprintf("} else {\n")
+	res += fmt.Sprintf("*(%s) = nil\n", valPtr)
 	res += fmt.Sprintf("}\n")
 	res += fmt.Sprintf("}\n")
 	return res
diff --git a/rfc1057/xdr.go b/rfc1057/xdr.go
index 3ed725a..ebbd2d3 100644
--- a/rfc1057/xdr.go
+++ b/rfc1057/xdr.go
@@ -116,6 +116,8 @@ func (v *Pmaplist) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&v.P) = new(Pmaplistelem)
 			(*Pmaplistelem)(*(&v.P)).Xdr(xs)
+		} else {
+			*(&v.P) = nil
 		}
 	}
 }
diff --git a/rfc1813/xdr.go b/rfc1813/xdr.go
index 9e7a294..24f00ca 100644
--- a/rfc1813/xdr.go
+++ b/rfc1813/xdr.go
@@ -950,6 +950,8 @@ func (v *Entry3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Nextentry)) = new(Entry3)
 			(*Entry3)(*(&((v).Nextentry))).Xdr(xs)
+		} else {
+			*(&((v).Nextentry)) = nil
 		}
 	}
 }
@@ -967,6 +969,8 @@ func (v *Dirlist3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Entries)) = new(Entry3)
 			(*Entry3)(*(&((v).Entries))).Xdr(xs)
+		} else {
+			*(&((v).Entries)) = nil
 		}
 	}
 	xdr.XdrBool(xs, (*bool)(&((v).Eof)))
@@ -1014,6 +1018,8 @@ func (v *Entryplus3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Nextentry)) = new(Entryplus3)
 			(*Entryplus3)(*(&((v).Nextentry))).Xdr(xs)
+		} else {
+			*(&((v).Nextentry)) = nil
 		}
 	}
 }
@@ -1031,6 +1037,8 @@ func (v *Dirlistplus3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Entries)) = new(Entryplus3)
 			(*Entryplus3)(*(&((v).Entries))).Xdr(xs)
+		} else {
+			*(&((v).Entries)) = nil
 		}
 	}
 	xdr.XdrBool(xs, (*bool)(&((v).Eof)))
@@ -1298,6 +1306,8 @@ func (v *Mount3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Ml_next)) = new(Mount3)
 			(*Mount3)(*(&((v).Ml_next))).Xdr(xs)
+		} else {
+			*(&((v).Ml_next)) = nil
 		}
 	}
 }
@@ -1315,6 +1325,8 @@ func (v *Mountopt3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&v.P) = new(Mount3)
 			(*Mount3)(*(&v.P)).Xdr(xs)
+		} else {
+			*(&v.P) = nil
 		}
 	}
 }
@@ -1333,6 +1345,8 @@ func (v *Groups3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Gr_next)) = new(Groups3)
 			(*Groups3)(*(&((v).Gr_next))).Xdr(xs)
+		} else {
+			*(&((v).Gr_next)) = nil
 		}
 	}
 }
@@ -1351,6 +1365,8 @@ func (v *Exports3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Ex_groups)) = new(Groups3)
 			(*Groups3)(*(&((v).Ex_groups))).Xdr(xs)
+		} else {
+			*(&((v).Ex_groups)) = nil
 		}
 	}
 	if xs.Encoding() {
@@ -1366,6 +1382,8 @@ func (v *Exports3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&((v).Ex_next)) = new(Exports3)
 			(*Exports3)(*(&((v).Ex_next))).Xdr(xs)
+		} else {
+			*(&((v).Ex_next)) = nil
 		}
 	}
 }
@@ -1383,6 +1401,8 @@ func (v *Exportsopt3) Xdr(xs *xdr.XdrState) {
 		if opted {
 			*(&v.P) = new(Exports3)
 			(*Exports3)(*(&v.P)).Xdr(xs)
+		} else {
+			*(&v.P) = nil
 		}
 	}
 }
-- 
2.43.0


From df24c3609c362a6dea35378b6428fb994ed406f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:45 +0000
Subject: [PATCH 04/13] fix: do not trust the announced length of a
 variable-length array

Decoding allocated the whole array before reading its elements and kept
looping over all of them after the input had run out, so a few bytes could
cost gigabytes and billions of iterations.
---
 out.go         | 7 +++++--
 rfc1057/xdr.go | 7 +++++--
 rfc1813/xdr.go | 7 +++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/out.go b/out.go
index 75cfb29..279a6f3 100644
--- a/out.go
+++ b/out.go
@@ -89,9 +89,12 @@ func (t declTypeVarArray) goXdr(valPtr string) string {
 	if t.sz != "" {
 		res += fmt.Sprintf("if __arraysz > %s { xs.SetError(\"array too large\") } else {\n", t.sz)
 	}
-	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, __arraysz); }\n", valPtr, t.t.goType())
+	// The announced length is not trusted: decoding grows the array one
+	// element at a time, and stops once the input turns out too short.
+	res += fmt.Sprintf("if xs.Decoding() { *%s = make([]%s, 0); }\n", valPtr, t.t.goType())
 	idx := loopVar(valPtr)
-	res += fmt.Sprintf("for %s := uint64(0); %s < uint64(__arraysz); %s++ {\n", idx, idx, idx)
+	res += fmt.Sprintf("for %s := uint64(0); %s < uint64(__arraysz) && xs.Error() == nil; %s++ {\n", idx, idx, idx)
+	res += fmt.Sprintf("if xs.Decoding() { *%s = append(*%s, *new(%s)); }\n", valPtr, valPtr, t.t.goType())
 	res += fmt.Sprintf("%s\n", t.t.goXdr(fmt.Sprintf("&((*(%s))[%s])", valPtr, idx)))
 	res += fmt.Sprintf("}\n")
 	if t.sz != "" {
diff --git a/rfc1057/xdr.go b/rfc1057/xdr.go
index ebbd2d3..2201117 100644
--- a/rfc1057/xdr.go
+++ b/rfc1057/xdr.go
@@ -87,9 +87,12 @@ func (v *Auth_unix) Xdr(xs *xdr.XdrState) {
 			xs.SetError("array too large")
 		} else {
 			if xs.Decoding() {
-				*&((v).Gids) = make([]uint32, __arraysz)
+				*&((v).Gids) = make([]uint32, 0)
 			}
-			for i := uint64(0); i < uint64(__arraysz); i++ {
+			for i := uint64(0); i < uint64(__arraysz) && xs.Error() == nil; i++ {
+				if xs.Decoding() {
+					*&((v).Gids) = append(*&((v).Gids), *new(uint32))
+				}
 				xdr.XdrU32(xs, (*uint32)(&((*(&((v).Gids)))[i])))
 
 			}
diff --git a/rfc1813/xdr.go b/rfc1813/xdr.go
index 24f00ca..4c9ef86 100644
--- a/rfc1813/xdr.go
+++ b/rfc1813/xdr.go
@@ -1274,9 +1274,12 @@ func (v *Mountres3_ok) Xdr(xs *xdr.XdrState) {
 		xdr.XdrU32(xs, (*uint32)(&__arraysz))
 
 		if xs.Decoding() {
-			*&((v).Auth_flavors) = make([]uint32, __arraysz)
+			*&((v).Auth_flavors) = make([]uint32, 0)
 		}
-		for i := uint64(0); i < uint64(__arraysz); i++ {
+		for i := uint64(0); i < uint64(__arraysz) && xs.Error() == nil; i++ {
+			if xs.Decoding() {
+				*&((v).Auth_flavors) = append(*&((v).Auth_flavors), *new(uint32))
+			}
 			xdr.XdrU32(xs, (*uint32)(&((*(&((v).Auth_flavors)))[i])))
 
 		}
-- 
2.43.0


From edcbbc1b86c7085103075dc81a8bbf7820ce4558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:29 +0000
Subject: [PATCH 05/13] fix: export constants like every other definition

Constants kept their spelling while union case labels naming them were
capitalized, so a label or a constant in lower case did not compile.
---
 out.go | 9 +++++++--
 xdr.y  | 2 +-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/out.go b/out.go
index 279a6f3..75d01d9 100644
--- a/out.go
+++ b/out.go
@@ -12,10 +12,15 @@ func i(ident string) string {
 	case "FALSE":
 		return "false"
 	default:
-		return strings.ToUpper(ident[:1]) + ident[1:]
+		return export(ident)
 	}
 }
 
+// export capitalizes an identifier.
+func export(ident string) string {
+	return strings.ToUpper(ident[:1]) + ident[1:]
+}
+
 type decl interface{}
 
 type declVoid struct {
@@ -459,7 +464,7 @@ func emitProg(d progDef) {
 }
 
 func emitConst(ident string, val string) {
-	fmt.Fprintf(tout, "const %s %s = %s\n", ident, *constTypeFlag, val)
+	fmt.Fprintf(tout, "const %s %s = %s\n", export(ident), *constTypeFlag, val)
 }
 
 func emitTypedef(val decl) {
diff --git a/xdr.y b/xdr.y
index 3afbbbf..c8cf4c9 100644
--- a/xdr.y
+++ b/xdr.y
@@ -105,7 +105,7 @@ varlen: '<' '>'
 val: CONST
   { $$ = $1 }
 | IDENT
-  { $$ = $1 }
+  { $$ = export($1) }
 
 typespec: maybeunsig KWINT
   { $$ = typeInt{$1} }
-- 
2.43.0


From 222df338324a26fbc86776c6dffc704dc422b9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:46 +0000
Subject: [PATCH 06/13] fix: refuse records too long for the record header

A request or reply of 2 GB or more overflowed into the last-fragment bit of
the record header and sent a frame with a wrong length.
---
 rfc1057/client.go | 8 ++++++++
 rfc1057/server.go | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/rfc1057/client.go b/rfc1057/client.go
index ce797f3..a5503f4 100644
--- a/rfc1057/client.go
+++ b/rfc1057/client.go
@@ -8,6 +8,10 @@ import (
 	"github.com/zeldovich/go-rpcgen/xdr"
 )
 
+// maxRecordLen is the largest record body that the 31-bit length in a record
+// header can describe.
+const maxRecordLen = 1<<31 - 1
+
 type Client struct {
 	rw   io.ReadWriter
 	xid  uint32
@@ -51,6 +55,10 @@ func (c *Client) Call(proc uint32, cred, verf Opaque_auth, args xdr.Xdrable, res
 	}
 
 	wbuf := wr.WriteBuf()
+	if len(wbuf) > maxRecordLen {
+		return fmt.Errorf("request too long: %d bytes", len(wbuf))
+	}
+
 	var hdr [4]byte
 	binary.BigEndian.PutUint32(hdr[:], (1<<31)|uint32(len(wbuf)))
 	_, err = c.rw.Write(append(hdr[:], wbuf...))
diff --git a/rfc1057/server.go b/rfc1057/server.go
index cbb5ee9..324658e 100644
--- a/rfc1057/server.go
+++ b/rfc1057/server.go
@@ -175,6 +175,10 @@ reply:
 	}
 
 	wbuf := wr.WriteBuf()
+	if len(wbuf)-4 > maxRecordLen {
+		return fmt.Errorf("reply too long: %d bytes", len(wbuf)-4)
+	}
+
 	binary.BigEndian.PutUint32(wbuf[0:4], (1<<31)|uint32(len(wbuf)-4))
 
 	_, err = sc.rw.Write(wbuf)
-- 
2.43.0


From 43cace8fb0f08d776b0078c503533801d5bc6d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:47 +0000
Subject: [PATCH 07/13] fix: no result data after a garbage-arguments reply

A handler that returned both a result and an error had the result appended
to the GARBAGE_ARGS reply, which carries none.
---
 rfc1057/server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rfc1057/server.go b/rfc1057/server.go
index 324658e..43e0412 100644
--- a/rfc1057/server.go
+++ b/rfc1057/server.go
@@ -148,6 +148,7 @@ func (sc *serverConn) handleReqErr(buf []byte) error {
 
 		resdata, err = h(rd)
 		if err != nil {
+			resdata = nil
 			res.Body.Rbody.Areply.Reply_data.Stat = GARBAGE_ARGS
 			goto reply
 		}
-- 
2.43.0


From b5e6bc54adfbc0b0f585b3db54401d2891449e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:48 +0000
Subject: [PATCH 08/13] fix: write no output file unless all of them are good

The main output was already replaced when formatting the types file failed.
---
 main.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/main.go b/main.go
index 8ad23cf..26f99e4 100644
--- a/main.go
+++ b/main.go
@@ -76,15 +76,18 @@ func main() {
 
 	xdrParse(&l)
 	outf.Close()
-	refmt(outTmp, *outputFile)
+	buf := refmt(outTmp)
 
+	// Touch the outputs only once all of them are known to be good.
 	if *typesFile != "" {
 		toutf.Close()
-		refmt(toutTmp, *typesFile)
+		tbuf := refmt(toutTmp)
+		write(*typesFile, tbuf)
 	}
+	write(*outputFile, buf)
 }
 
-func refmt(infile string, outfile string) {
+func refmt(infile string) []byte {
 	buf, err := ioutil.ReadFile(infile)
 	if err != nil {
 		panic(err)
@@ -95,7 +98,11 @@ func refmt(infile string, outfile string) {
 		panic(err)
 	}
 
-	err = ioutil.WriteFile(outfile, buf, 0666)
+	return buf
+}
+
+func write(outfile string, buf []byte) {
+	err := ioutil.WriteFile(outfile, buf, 0666)
 	if err != nil {
 		panic(err)
 	}
-- 
2.43.0


From c0f679f948de090a2eac965cefa78350851b2302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:16 +0000
Subject: [PATCH 09/13] fix: convert named constants used as union labels,
 bounds and enum values

A constant can have a type other than the discriminant (with -const-type, or
when the discriminant is a typedef of the enum), than the uint32 length of an
array, or than the enum it gives a value to; the emitted code did not compile.
---
 out.go         | 18 ++++++++---
 rfc1057/xdr.go | 16 +++++-----
 rfc1813/xdr.go | 86 +++++++++++++++++++++++++-------------------------
 3 files changed, 65 insertions(+), 55 deletions(-)

diff --git a/out.go b/out.go
index 75d01d9..a0203b5 100644
--- a/out.go
+++ b/out.go
@@ -21,6 +21,15 @@ func export(ident string) string {
 	return strings.ToUpper(ident[:1]) + ident[1:]
 }
 
+// convert spells the constant val (a number or the name of a constant) as a
+// value of type t.  Named constants can have some other integer type.
+func convert(t string, val string) string {
+	if val[0] >= '0' && val[0] <= '9' {
+		return val
+	}
+	return fmt.Sprintf("%s(%s)", t, val)
+}
+
 type decl interface{}
 
 type declVoid struct {
@@ -92,7 +101,7 @@ func (t declTypeVarArray) goXdr(valPtr string) string {
 	res += fmt.Sprintf("xs.EncodingSetSize(&__arraysz, len(*%s));\n", valPtr)
 	res += fmt.Sprintf("%s\n", typeInt{true}.goXdr("&__arraysz"))
 	if t.sz != "" {
-		res += fmt.Sprintf("if __arraysz > %s { xs.SetError(\"array too large\") } else {\n", t.sz)
+		res += fmt.Sprintf("if __arraysz > %s { xs.SetError(\"array too large\") } else {\n", convert("uint32", t.sz))
 	}
 	// The announced length is not trusted: decoding grows the array one
 	// element at a time, and stops once the input turns out too short.
@@ -324,18 +333,19 @@ func (t typeUnion) goType() string {
 
 func (t typeUnion) goXdr(valPtr string) string {
 	var res string
-	var switchName string
+	var switchName, switchType string
 	switch v := t.switchDecl.(type) {
 	case declVoid:
 		panic("void union switch")
 	case declName:
 		switchName = fmt.Sprintf("(%s).%s", valPtr, i(v.n))
+		switchType = v.t.goType()
 		res += v.t.goXdr(fmt.Sprintf("&(%s)", switchName))
 	}
 	res += fmt.Sprintf("switch %s {\n", switchName)
 	for _, c := range t.cases.cases {
 		for idx, cval := range c.cases {
-			res += fmt.Sprintf("case %s:\n", i(cval))
+			res += fmt.Sprintf("case %s:\n", convert(switchType, i(cval)))
 			if idx != len(c.cases)-1 {
 				res += "fallthrough\n"
 			}
@@ -502,7 +512,7 @@ func emitEnum(ident string, val []enumItem) {
 	fmt.Fprintf(out, "}\n")
 
 	for _, v := range val {
-		fmt.Fprintf(tout, "const %s %s = %s\n", i(v.name), i(ident), v.val)
+		fmt.Fprintf(tout, "const %s %s = %s\n", i(v.name), i(ident), convert(i(ident), v.val))
 	}
 }
 
diff --git a/rfc1057/xdr.go b/rfc1057/xdr.go
index 2201117..a2a652a 100644
--- a/rfc1057/xdr.go
+++ b/rfc1057/xdr.go
@@ -28,9 +28,9 @@ func (v *Rpc_msg) Xdr(xs *xdr.XdrState) {
 	xdr.XdrU32(xs, (*uint32)(&((v).Xid)))
 	(*Msg_type)(&((&((v).Body)).Mtype)).Xdr(xs)
 	switch (&((v).Body)).Mtype {
-	case CALL:
+	case Msg_type(CALL):
 		(*Call_body)(&((&((v).Body)).Cbody)).Xdr(xs)
-	case REPLY:
+	case Msg_type(REPLY):
 		(*Reply_body)(&((&((v).Body)).Rbody)).Xdr(xs)
 	}
 }
@@ -45,9 +45,9 @@ func (v *Call_body) Xdr(xs *xdr.XdrState) {
 func (v *Reply_body) Xdr(xs *xdr.XdrState) {
 	(*Reply_stat)(&((v).Stat)).Xdr(xs)
 	switch (v).Stat {
-	case MSG_ACCEPTED:
+	case Reply_stat(MSG_ACCEPTED):
 		(*Accepted_reply)(&((v).Areply)).Xdr(xs)
-	case MSG_DENIED:
+	case Reply_stat(MSG_DENIED):
 		(*Rejected_reply)(&((v).Rreply)).Xdr(xs)
 	}
 }
@@ -55,9 +55,9 @@ func (v *Accepted_reply) Xdr(xs *xdr.XdrState) {
 	(*Opaque_auth)(&((v).Verf)).Xdr(xs)
 	(*Accept_stat)(&((&((v).Reply_data)).Stat)).Xdr(xs)
 	switch (&((v).Reply_data)).Stat {
-	case SUCCESS:
+	case Accept_stat(SUCCESS):
 		xdr.XdrArray(xs, (*&((&((v).Reply_data)).Results))[:])
-	case PROG_MISMATCH:
+	case Accept_stat(PROG_MISMATCH):
 		xdr.XdrU32(xs, (*uint32)(&((&((&((v).Reply_data)).Mismatch_info)).Low)))
 		xdr.XdrU32(xs, (*uint32)(&((&((&((v).Reply_data)).Mismatch_info)).High)))
 	default:
@@ -66,10 +66,10 @@ func (v *Accepted_reply) Xdr(xs *xdr.XdrState) {
 func (v *Rejected_reply) Xdr(xs *xdr.XdrState) {
 	(*Reject_stat)(&((v).Stat)).Xdr(xs)
 	switch (v).Stat {
-	case RPC_MISMATCH:
+	case Reject_stat(RPC_MISMATCH):
 		xdr.XdrU32(xs, (*uint32)(&((&((v).Mismatch_info)).Low)))
 		xdr.XdrU32(xs, (*uint32)(&((&((v).Mismatch_info)).High)))
-	case AUTH_ERROR:
+	case Reject_stat(AUTH_ERROR):
 		(*Auth_stat)(&((v).Astat)).Xdr(xs)
 	}
 }
diff --git a/rfc1813/xdr.go b/rfc1813/xdr.go
index 4c9ef86..9496ef6 100644
--- a/rfc1813/xdr.go
+++ b/rfc1813/xdr.go
@@ -82,9 +82,9 @@ func (v *Fattr3) Xdr(xs *xdr.XdrState) {
 func (v *Post_op_attr) Xdr(xs *xdr.XdrState) {
 	xdr.XdrBool(xs, (*bool)(&((v).Attributes_follow)))
 	switch (v).Attributes_follow {
-	case true:
+	case bool(true):
 		(*Fattr3)(&((v).Attributes)).Xdr(xs)
-	case false:
+	case bool(false):
 	}
 }
 func (v *Wcc_attr) Xdr(xs *xdr.XdrState) {
@@ -95,9 +95,9 @@ func (v *Wcc_attr) Xdr(xs *xdr.XdrState) {
 func (v *Pre_op_attr) Xdr(xs *xdr.XdrState) {
 	xdr.XdrBool(xs, (*bool)(&((v).Attributes_follow)))
 	switch (v).Attributes_follow {
-	case true:
+	case bool(true):
 		(*Wcc_attr)(&((v).Attributes)).Xdr(xs)
-	case false:
+	case bool(false):
 	}
 }
 func (v *Wcc_data) Xdr(xs *xdr.XdrState) {
@@ -107,9 +107,9 @@ func (v *Wcc_data) Xdr(xs *xdr.XdrState) {
 func (v *Post_op_fh3) Xdr(xs *xdr.XdrState) {
 	xdr.XdrBool(xs, (*bool)(&((v).Handle_follows)))
 	switch (v).Handle_follows {
-	case true:
+	case bool(true):
 		(*Nfs_fh3)(&((v).Handle)).Xdr(xs)
-	case false:
+	case bool(false):
 	}
 }
 func (v *Time_how) Xdr(xs *xdr.XdrState) {
@@ -118,7 +118,7 @@ func (v *Time_how) Xdr(xs *xdr.XdrState) {
 func (v *Set_mode3) Xdr(xs *xdr.XdrState) {
 	xdr.XdrBool(xs, (*bool)(&((v).Set_it)))
 	switch (v).Set_it {
-	case true:
+	case bool(true):
 		(*Mode3)(&((v).Mode)).Xdr(xs)
 	default:
 	}
@@ -126,7 +126,7 @@ func (v *Set_mode3) Xdr(xs *xdr.XdrState) {
 func (v *Set_uid3) Xdr(xs *xdr.XdrState) {
 	xdr.XdrBool(xs, (*bool)(&((v).Set_it)))
 	switch (v).Set_it {
-	case true:
+	case bool(true):
 		(*Uid3)(&((v).Uid)).Xdr(xs)
 	default:
 	}
@@ -134,7 +134,7 @@ func (v *Set_uid3) Xdr(xs *xdr.XdrState) {
 func (v *Set_gid3) Xdr(xs *xdr.XdrState) {
 	xdr.XdrBool(xs, (*bool)(&((v).Set_it)))
 	switch (v).Set_it {
-	case true:
+	case bool(true):
 		(*Gid3)(&((v).Gid)).Xdr(xs)
 	default:
 	}
@@ -142,7 +142,7 @@ func (v *Set_gid3) Xdr(xs *xdr.XdrState) {
 func (v *Set_size3) Xdr(xs *xdr.XdrState) {
 	xdr.XdrBool(xs, (*bool)(&((v).Set_it)))
 	switch (v).Set_it {
-	case true:
+	case bool(true):
 		(*Size3)(&((v).Size)).Xdr(xs)
 	default:
 	}
@@ -150,7 +150,7 @@ func (v *Set_size3) Xdr(xs *xdr.XdrState) {
 func (v *Set_atime) Xdr(xs *xdr.XdrState) {
 	(*Time_how)(&((v).Set_it)).Xdr(xs)
 	switch (v).Set_it {
-	case SET_TO_CLIENT_TIME:
+	case Time_how(SET_TO_CLIENT_TIME):
 		(*Nfstime3)(&((v).Atime)).Xdr(xs)
 	default:
 	}
@@ -158,7 +158,7 @@ func (v *Set_atime) Xdr(xs *xdr.XdrState) {
 func (v *Set_mtime) Xdr(xs *xdr.XdrState) {
 	(*Time_how)(&((v).Set_it)).Xdr(xs)
 	switch (v).Set_it {
-	case SET_TO_CLIENT_TIME:
+	case Time_how(SET_TO_CLIENT_TIME):
 		(*Nfstime3)(&((v).Mtime)).Xdr(xs)
 	default:
 	}
@@ -586,7 +586,7 @@ func (v *GETATTR3resok) Xdr(xs *xdr.XdrState) {
 func (v *GETATTR3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*GETATTR3resok)(&((v).Resok)).Xdr(xs)
 	default:
 	}
@@ -594,9 +594,9 @@ func (v *GETATTR3res) Xdr(xs *xdr.XdrState) {
 func (v *Sattrguard3) Xdr(xs *xdr.XdrState) {
 	xdr.XdrBool(xs, (*bool)(&((v).Check)))
 	switch (v).Check {
-	case true:
+	case bool(true):
 		(*Nfstime3)(&((v).Obj_ctime)).Xdr(xs)
-	case false:
+	case bool(false):
 	}
 }
 func (v *SETATTR3args) Xdr(xs *xdr.XdrState) {
@@ -613,7 +613,7 @@ func (v *SETATTR3resfail) Xdr(xs *xdr.XdrState) {
 func (v *SETATTR3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*SETATTR3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*SETATTR3resfail)(&((v).Resfail)).Xdr(xs)
@@ -633,7 +633,7 @@ func (v *LOOKUP3resfail) Xdr(xs *xdr.XdrState) {
 func (v *LOOKUP3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*LOOKUP3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*LOOKUP3resfail)(&((v).Resfail)).Xdr(xs)
@@ -653,7 +653,7 @@ func (v *ACCESS3resfail) Xdr(xs *xdr.XdrState) {
 func (v *ACCESS3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*ACCESS3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*ACCESS3resfail)(&((v).Resfail)).Xdr(xs)
@@ -672,7 +672,7 @@ func (v *READLINK3resfail) Xdr(xs *xdr.XdrState) {
 func (v *READLINK3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*READLINK3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*READLINK3resfail)(&((v).Resfail)).Xdr(xs)
@@ -695,7 +695,7 @@ func (v *READ3resfail) Xdr(xs *xdr.XdrState) {
 func (v *READ3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*READ3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*READ3resfail)(&((v).Resfail)).Xdr(xs)
@@ -723,7 +723,7 @@ func (v *WRITE3resfail) Xdr(xs *xdr.XdrState) {
 func (v *WRITE3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*WRITE3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*WRITE3resfail)(&((v).Resfail)).Xdr(xs)
@@ -735,11 +735,11 @@ func (v *Createmode3) Xdr(xs *xdr.XdrState) {
 func (v *Createhow3) Xdr(xs *xdr.XdrState) {
 	(*Createmode3)(&((v).Mode)).Xdr(xs)
 	switch (v).Mode {
-	case UNCHECKED:
+	case Createmode3(UNCHECKED):
 		fallthrough
-	case GUARDED:
+	case Createmode3(GUARDED):
 		(*Sattr3)(&((v).Obj_attributes)).Xdr(xs)
-	case EXCLUSIVE:
+	case Createmode3(EXCLUSIVE):
 		(*Createverf3)(&((v).Verf)).Xdr(xs)
 	}
 }
@@ -758,7 +758,7 @@ func (v *CREATE3resfail) Xdr(xs *xdr.XdrState) {
 func (v *CREATE3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*CREATE3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*CREATE3resfail)(&((v).Resfail)).Xdr(xs)
@@ -779,7 +779,7 @@ func (v *MKDIR3resfail) Xdr(xs *xdr.XdrState) {
 func (v *MKDIR3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*MKDIR3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*MKDIR3resfail)(&((v).Resfail)).Xdr(xs)
@@ -804,7 +804,7 @@ func (v *SYMLINK3resfail) Xdr(xs *xdr.XdrState) {
 func (v *SYMLINK3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*SYMLINK3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*SYMLINK3resfail)(&((v).Resfail)).Xdr(xs)
@@ -817,13 +817,13 @@ func (v *Devicedata3) Xdr(xs *xdr.XdrState) {
 func (v *Mknoddata3) Xdr(xs *xdr.XdrState) {
 	(*Ftype3)(&((v).Ftype)).Xdr(xs)
 	switch (v).Ftype {
-	case NF3CHR:
+	case Ftype3(NF3CHR):
 		fallthrough
-	case NF3BLK:
+	case Ftype3(NF3BLK):
 		(*Devicedata3)(&((v).Device)).Xdr(xs)
-	case NF3SOCK:
+	case Ftype3(NF3SOCK):
 		fallthrough
-	case NF3FIFO:
+	case Ftype3(NF3FIFO):
 		(*Sattr3)(&((v).Pipe_attributes)).Xdr(xs)
 	default:
 	}
@@ -843,7 +843,7 @@ func (v *MKNOD3resfail) Xdr(xs *xdr.XdrState) {
 func (v *MKNOD3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*MKNOD3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*MKNOD3resfail)(&((v).Resfail)).Xdr(xs)
@@ -861,7 +861,7 @@ func (v *REMOVE3resfail) Xdr(xs *xdr.XdrState) {
 func (v *REMOVE3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*REMOVE3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*REMOVE3resfail)(&((v).Resfail)).Xdr(xs)
@@ -879,7 +879,7 @@ func (v *RMDIR3resfail) Xdr(xs *xdr.XdrState) {
 func (v *RMDIR3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*RMDIR3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*RMDIR3resfail)(&((v).Resfail)).Xdr(xs)
@@ -900,7 +900,7 @@ func (v *RENAME3resfail) Xdr(xs *xdr.XdrState) {
 func (v *RENAME3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*RENAME3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*RENAME3resfail)(&((v).Resfail)).Xdr(xs)
@@ -921,7 +921,7 @@ func (v *LINK3resfail) Xdr(xs *xdr.XdrState) {
 func (v *LINK3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*LINK3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*LINK3resfail)(&((v).Resfail)).Xdr(xs)
@@ -986,7 +986,7 @@ func (v *READDIR3resfail) Xdr(xs *xdr.XdrState) {
 func (v *READDIR3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*READDIR3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*READDIR3resfail)(&((v).Resfail)).Xdr(xs)
@@ -1054,7 +1054,7 @@ func (v *READDIRPLUS3resfail) Xdr(xs *xdr.XdrState) {
 func (v *READDIRPLUS3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*READDIRPLUS3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*READDIRPLUS3resfail)(&((v).Resfail)).Xdr(xs)
@@ -1079,7 +1079,7 @@ func (v *FSSTAT3resfail) Xdr(xs *xdr.XdrState) {
 func (v *FSSTAT3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*FSSTAT3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*FSSTAT3resfail)(&((v).Resfail)).Xdr(xs)
@@ -1107,7 +1107,7 @@ func (v *FSINFO3resfail) Xdr(xs *xdr.XdrState) {
 func (v *FSINFO3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*FSINFO3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*FSINFO3resfail)(&((v).Resfail)).Xdr(xs)
@@ -1131,7 +1131,7 @@ func (v *PATHCONF3resfail) Xdr(xs *xdr.XdrState) {
 func (v *PATHCONF3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*PATHCONF3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*PATHCONF3resfail)(&((v).Resfail)).Xdr(xs)
@@ -1152,7 +1152,7 @@ func (v *COMMIT3resfail) Xdr(xs *xdr.XdrState) {
 func (v *COMMIT3res) Xdr(xs *xdr.XdrState) {
 	(*Nfsstat3)(&((v).Status)).Xdr(xs)
 	switch (v).Status {
-	case NFS3_OK:
+	case Nfsstat3(NFS3_OK):
 		(*COMMIT3resok)(&((v).Resok)).Xdr(xs)
 	default:
 		(*COMMIT3resfail)(&((v).Resfail)).Xdr(xs)
@@ -1288,7 +1288,7 @@ func (v *Mountres3_ok) Xdr(xs *xdr.XdrState) {
 func (v *Mountres3) Xdr(xs *xdr.XdrState) {
 	(*Mountstat3)(&((v).Fhs_status)).Xdr(xs)
 	switch (v).Fhs_status {
-	case MNT3_OK:
+	case Mountstat3(MNT3_OK):
 		(*Mountres3_ok)(&((v).Mountinfo)).Xdr(xs)
 	default:
 	}
-- 
2.43.0


From f10e82a1e7fd63acb1b2b2f059d2285e68b47b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:25 +0000
Subject: [PATCH 10/13] fix: accept line ends, Go keywords and negative
 numbers, and refuse malformed tokens, in the scanner

---
 scan.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/scan.go b/scan.go
index 23ab8ca..3c21d15 100644
--- a/scan.go
+++ b/scan.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"go/scanner"
 	"go/token"
+	"strings"
 )
 
 type lexer struct {
@@ -14,8 +15,24 @@ type lexer struct {
 
 const eof = 0
 
+// checkNumber refuses the integer literals that Go has and XDR does not.
+func (l *lexer) checkNumber(lit string) {
+	if strings.Contains(lit, "_") || len(lit) > 1 && strings.ContainsRune("bBoO", rune(lit[1])) {
+		l.Error("not an XDR number: " + lit)
+	}
+}
+
 func (l *lexer) Lex(lval *xdrSymType) int {
 	pos, tok, lit := l.s.Scan()
+	for tok == token.SEMICOLON && lit == "\n" {
+		// Line ends mean nothing in the XDR language.
+		pos, tok, lit = l.s.Scan()
+	}
+
+	if l.s.ErrorCount > 0 {
+		l.Error("malformed token")
+	}
+
 	if tok == token.EOF {
 		return eof
 	}
@@ -140,10 +157,26 @@ func (l *lexer) Lex(lval *xdrSymType) int {
 		return '*'
 
 	case token.INT:
+		l.checkNumber(lit)
 		lval.str = lit
 		return CONST
 
+	case token.SUB:
+		npos, ntok, nlit := l.s.Scan()
+		if ntok != token.INT || npos != pos+1 || l.s.ErrorCount > 0 {
+			l.Error("minus sign without a number")
+		}
+		l.checkNumber(nlit)
+		lval.str = "-" + nlit
+		return CONST
+
 	default:
+		if tok.IsKeyword() {
+			// Reserved in Go, but not in XDR.
+			lval.str = lit
+			return IDENT
+		}
+
 		fmt.Printf("NOT HANDLED: pos=%v, tok=%v, lit=%v\n", pos, tok, lit)
 		panic("token not handled")
 	}
-- 
2.43.0


From 3f6a15a4787d14d2345237ebf673bbbcb5cdea87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:25 +0000
Subject: [PATCH 11/13] fix: remove temporary files before the outputs are
 written

---
 main.go | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/main.go b/main.go
index 26f99e4..dd519b7 100644
--- a/main.go
+++ b/main.go
@@ -45,6 +45,16 @@ func main() {
 	var l lexer
 	l.s.Init(f, src, nil, 0)
 
+	buf, tbuf := generate(&l)
+	if *typesFile != "" {
+		write(*typesFile, tbuf)
+	}
+	write(*outputFile, buf)
+}
+
+// generate runs the parser and returns the code for the two outputs. Its
+// temporary files are gone by the time the outputs are written.
+func generate(l *lexer) (buf, tbuf []byte) {
 	outTmp := *outputFile + ".tmp"
 	outf, err := os.OpenFile(outTmp, os.O_WRONLY|os.O_EXCL|os.O_CREATE|os.O_TRUNC, 0666)
 	if err != nil {
@@ -74,17 +84,15 @@ func main() {
 		tout = outf
 	}
 
-	xdrParse(&l)
+	xdrParse(l)
 	outf.Close()
-	buf := refmt(outTmp)
+	buf = refmt(outTmp)
 
-	// Touch the outputs only once all of them are known to be good.
 	if *typesFile != "" {
 		toutf.Close()
-		tbuf := refmt(toutTmp)
-		write(*typesFile, tbuf)
+		tbuf = refmt(toutTmp)
 	}
-	write(*outputFile, buf)
+	return buf, tbuf
 }
 
 func refmt(infile string) []byte {
-- 
2.43.0


From dd8adf4c1ddea4c0779b3c6a2d80eae398949edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:25 +0000
Subject: [PATCH 12/13] fix: notice failures to write the generated code

---
 main.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/main.go b/main.go
index dd519b7..18f0c2b 100644
--- a/main.go
+++ b/main.go
@@ -62,7 +62,7 @@ func generate(l *lexer) (buf, tbuf []byte) {
 	}
 
 	defer os.Remove(outTmp)
-	out = outf
+	out = checkedWriter{outf}
 
 	fmt.Fprintf(out, "package %s\n", *outputPackage)
 	fmt.Fprintf(out, "import \"github.com/zeldovich/go-rpcgen/xdr\"\n")
@@ -77,24 +77,44 @@ func generate(l *lexer) (buf, tbuf []byte) {
 		}
 
 		defer os.Remove(toutTmp)
-		tout = toutf
+		tout = checkedWriter{toutf}
 
 		fmt.Fprintf(tout, "package %s\n", *outputPackage)
 	} else {
-		tout = outf
+		tout = out
 	}
 
 	xdrParse(l)
-	outf.Close()
+	closeFile(outf)
 	buf = refmt(outTmp)
 
 	if *typesFile != "" {
-		toutf.Close()
+		closeFile(toutf)
 		tbuf = refmt(toutTmp)
 	}
 	return buf, tbuf
 }
 
+// checkedWriter gives up when code cannot be written.
+type checkedWriter struct {
+	w io.Writer
+}
+
+func (c checkedWriter) Write(p []byte) (int, error) {
+	n, err := c.w.Write(p)
+	if err != nil {
+		panic(err)
+	}
+	return n, err
+}
+
+func closeFile(f *os.File) {
+	err := f.Close()
+	if err != nil {
+		panic(err)
+	}
+}
+
 func refmt(infile string) []byte {
 	buf, err := ioutil.ReadFile(infile)
 	if err != nil {
-- 
2.43.0


From 2805caa83673366f25a07b3bd01096e2fc8bb8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:37 +0000
Subject: [PATCH 13/13] fix: guard the handler table with a lock

Registering a handler while requests are served was a data race; the
runtime may end the program with a concurrent map read and map write.
---
 rfc1057/server.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/rfc1057/server.go b/rfc1057/server.go
index 43e0412..4ce9aed 100644
--- a/rfc1057/server.go
+++ b/rfc1057/server.go
@@ -32,6 +32,7 @@ func putReqBuf(s []byte) {
 type ProcHandler func(args *xdr.XdrState) (res xdr.Xdrable, err error)
 
 type Server struct {
+	mu       sync.RWMutex // protects handlers
 	handlers map[uint32]map[uint32]map[uint32]ProcHandler
 }
 
@@ -47,6 +48,9 @@ func MakeServer() *Server {
 }
 
 func (s *Server) Register(prog, vers, proc uint32, handler ProcHandler) {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+
 	_, progok := s.handlers[prog]
 	if !progok {
 		s.handlers[prog] = make(map[uint32]map[uint32]ProcHandler)
@@ -128,19 +132,22 @@ func (sc *serverConn) handleReqErr(buf []byte) error {
 		res.Body.Rbody.Rreply.Stat = RPC_MISMATCH
 	} else {
 		res.Body.Rbody.Stat = MSG_ACCEPTED
+		sc.s.mu.RLock()
 		vermap, progok := sc.s.handlers[req.Body.Cbody.Prog]
+		procmap, verok := vermap[req.Body.Cbody.Vers]
+		h, procok := procmap[req.Body.Cbody.Proc]
+		sc.s.mu.RUnlock()
+
 		if !progok {
 			res.Body.Rbody.Areply.Reply_data.Stat = PROG_UNAVAIL
 			goto reply
 		}
 
-		procmap, verok := vermap[req.Body.Cbody.Vers]
 		if !verok {
 			res.Body.Rbody.Areply.Reply_data.Stat = PROG_MISMATCH
 			goto reply
 		}
 
-		h, procok := procmap[req.Body.Cbody.Proc]
 		if !procok {
 			res.Body.Rbody.Areply.Reply_data.Stat = PROC_UNAVAIL
 			goto reply
-- 
2.43.0

