From 8d28339f471049606dfcf3716ca6c4d384419a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 01/40] fix: report every panic met while packing, unpacking or
 sizing as an error

---
 packing.go | 53 ++++++++++++++++++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 13 deletions(-)

diff --git a/packing.go b/packing.go
index a54025d..fdf05c4 100644
--- a/packing.go
+++ b/packing.go
@@ -22,9 +22,27 @@ package restruct
 
 import (
 	"encoding/binary"
+	"errors"
+	"fmt"
 	"reflect"
 )
 
+// errAborted is reported when an operation was cut short without a reason,
+// which is what a panic with a nil value looks like.
+var errAborted = errors.New("operation aborted")
+
+// panicError converts a recovered panic value into an error.
+func panicError(r interface{}) error {
+	switch r := r.(type) {
+	case nil:
+		return errAborted
+	case error:
+		return r
+	default:
+		return fmt.Errorf("%v", r)
+	}
+}
+
 func fieldFromIntf(v interface{}) (field, reflect.Value) {
 	val := reflect.ValueOf(v)
 	if val.Kind() == reflect.Ptr {
@@ -85,12 +103,10 @@ Flags are comma-separated keys. The following are available:
 	                  boolean should be swapped.
 */
 func Unpack(data []byte, order binary.ByteOrder, v interface{}) (err error) {
+	done := false
 	defer func() {
-		if r := recover(); r != nil {
-			var ok bool
-			if err, ok = r.(error); !ok {
-				panic(err)
-			}
+		if r := recover(); !done {
+			err = panicError(r)
 		}
 	}()
 
@@ -99,6 +115,7 @@ func Unpack(data []byte, order binary.ByteOrder, v interface{}) (err error) {
 	d := decoder{structstack: ss, order: order}
 	d.read(f, val)
 
+	done = true
 	return
 }
 
@@ -106,30 +123,38 @@ func Unpack(data []byte, order binary.ByteOrder, v interface{}) (err error) {
 SizeOf returns the binary encoded size of the given value, in bytes.
 */
 func SizeOf(v interface{}) (size int, err error) {
+	done := false
 	defer func() {
-		if r := recover(); r != nil {
-			err = r.(error)
+		if r := recover(); !done {
+			err = panicError(r)
 		}
 	}()
 
 	ss := structstack{allowexpr: expressionsEnabled}
 	f, val := fieldFromIntf(v)
-	return ss.fieldbytes(f, val), nil
+	size = ss.fieldbytes(f, val)
+
+	done = true
+	return
 }
 
 /*
 BitSize returns the binary encoded size of the given value, in bits.
 */
 func BitSize(v interface{}) (size int, err error) {
+	done := false
 	defer func() {
-		if r := recover(); r != nil {
-			err = r.(error)
+		if r := recover(); !done {
+			err = panicError(r)
 		}
 	}()
 
 	ss := structstack{allowexpr: expressionsEnabled}
 	f, val := fieldFromIntf(v)
-	return ss.fieldbits(f, val), nil
+	size = ss.fieldbits(f, val)
+
+	done = true
+	return
 }
 
 /*
@@ -142,10 +167,11 @@ Each structure is serialized in the same way it would be deserialized with
 Unpack. See Unpack documentation for the struct tag format.
 */
 func Pack(order binary.ByteOrder, v interface{}) (data []byte, err error) {
+	done := false
 	defer func() {
-		if r := recover(); r != nil {
+		if r := recover(); !done {
 			data = nil
-			err = r.(error)
+			err = panicError(r)
 		}
 	}()
 
@@ -158,5 +184,6 @@ func Pack(order binary.ByteOrder, v interface{}) (data []byte, err error) {
 	e := encoder{structstack: ss, order: order}
 	e.write(f, val)
 
+	done = true
 	return
 }
-- 
2.43.0


From 003c6bdcb158cc9897b50eecc01abf3a22316826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:56 +0000
Subject: [PATCH 02/40] fix: report every panic met while parsing or evaluating
 an expression as an error

---
 expr/eval.go | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/expr/eval.go b/expr/eval.go
index 182f164..48f1a12 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -1,28 +1,52 @@
 package expr
 
 import (
+	"errors"
 	"fmt"
 )
 
+// errAborted is reported when an evaluation was cut short without a reason,
+// which is what a panic with a nil value looks like.
+var errAborted = errors.New("evaluation aborted")
+
+// panicError converts a recovered panic value into an error.
+func panicError(r interface{}) error {
+	switch r := r.(type) {
+	case nil:
+		return errAborted
+	case error:
+		return r
+	default:
+		return fmt.Errorf("%v", r)
+	}
+}
+
 // EvalProgram returns the result of executing the program with the given resolver.
 func EvalProgram(resolver Resolver, program *Program) (v interface{}, err error) {
+	done := false
 	defer func() {
-		if r := recover(); r != nil {
-			if rerr, ok := r.(error); ok {
-				err = rerr
-			} else {
-				panic(r)
-			}
+		if r := recover(); !done {
+			err = panicError(r)
 		}
 	}()
 
 	v = evalnode(resolver, program.root).RawValue()
+	done = true
 	return
 }
 
 // Eval returns the result of evaluating the provided expression.
-func Eval(resolver Resolver, expr string) (interface{}, error) {
-	return EvalProgram(resolver, ParseString(expr))
+func Eval(resolver Resolver, expr string) (v interface{}, err error) {
+	done := false
+	defer func() {
+		if r := recover(); !done {
+			err = panicError(r)
+		}
+	}()
+
+	v, err = EvalProgram(resolver, ParseString(expr))
+	done = true
+	return
 }
 
 func evalnode(resolver Resolver, node node) Value {
-- 
2.43.0


From 3b9b7e67ea7bc97eaf90fea8785fa29e8a56734b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 03/40] fix: stop scanning a string literal at the end of the
 text

---
 expr/lex.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expr/lex.go b/expr/lex.go
index c79c63e..b53c522 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -135,6 +135,10 @@ var keywordmap = map[string]tokenkind{
 
 const eof = utf8.MaxRune + 0x0001
 
+func iseof(c rune) bool {
+	return c == eof
+}
+
 // token contains information for a single lexical token.
 type token struct {
 	kind tokenkind
@@ -375,6 +379,8 @@ func (s *scanner) scanstring(quote byte) token {
 		switch {
 		case s.accept(rune(quote)):
 			return token{kind: strtoken, sval: string(str)}
+		case s.peekmatch(iseof):
+			return s.errsymf("unexpected eof in string literal")
 		case s.accept('\\'):
 			str = append(str, s.scanescape(quote)...)
 		default:
-- 
2.43.0


From 90b0ec66efdabdc8cc55fb155f7925b657a72a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 04/40] fix: reject expressions that end inside brackets or
 before an operand

---
 expr/ast.go   |  5 ++++-
 expr/eval.go  |  6 ++++--
 expr/parse.go | 42 +++++++++++++++++++++++++++++++-----------
 3 files changed, 39 insertions(+), 14 deletions(-)

diff --git a/expr/ast.go b/expr/ast.go
index c7cb7d0..c2eed89 100644
--- a/expr/ast.go
+++ b/expr/ast.go
@@ -185,7 +185,10 @@ type binaryexpr struct {
 }
 
 func (n binaryexpr) source() string {
-	a, b := n.a.source(), n.b.source()
+	a, b := n.a.source(), ""
+	if n.b != nil {
+		b = n.b.source()
+	}
 	switch n.op {
 	case binarylogicalor:
 		return a + " || " + b
diff --git a/expr/eval.go b/expr/eval.go
index 48f1a12..47292f0 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -122,8 +122,10 @@ func evalbinary(resolver Resolver, node binaryexpr) Value {
 		panic(fmt.Errorf("expected ident node, got %T", node.b))
 	case binarycall:
 		in := []Value{}
-		for _, n := range flattengroup(node.b) {
-			in = append(in, evalnode(resolver, n))
+		if node.b != nil {
+			for _, n := range flattengroup(node.b) {
+				in = append(in, evalnode(resolver, n))
+			}
 		}
 		return a.Call(in)
 	case binarygroup:
diff --git a/expr/parse.go b/expr/parse.go
index 587bce5..900bae2 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -2,6 +2,7 @@ package expr
 
 import (
 	"bytes"
+	"errors"
 	"fmt"
 	"io"
 )
@@ -65,23 +66,34 @@ func (p *parser) expect(k tokenkind) {
 func (p *parser) parseexpr(depth int) node {
 	var n node
 
+	operand := func(depth int) node {
+		o := p.parseexpr(depth)
+		if o == nil {
+			panic(fmt.Errorf("expected operand, got %s", p.readtoken().kind))
+		}
+		return o
+	}
+
 	unary := func(op unaryop, depth int) {
-		n = unaryexpr{op: op, n: p.parseexpr(depth)}
+		n = unaryexpr{op: op, n: operand(depth)}
 	}
 
 	binary := func(op binaryop, depth int) {
 		if n == nil {
-			panic("unexpected binary op")
+			panic(errors.New("unexpected binary op"))
 		}
-		n = binaryexpr{op: op, a: n, b: p.parseexpr(depth)}
+		n = binaryexpr{op: op, a: n, b: operand(depth)}
 	}
 
 	ternary := func(depth int) {
+		if n == nil {
+			panic(errors.New("unexpected ternary op"))
+		}
 		t := ternaryexpr{}
 		t.a = n
-		t.b = p.parseexpr(depth)
+		t.b = operand(depth)
 		p.expect(colontoken)
-		t.c = p.parseexpr(depth)
+		t.c = operand(depth)
 		n = t
 	}
 
@@ -101,7 +113,8 @@ func (p *parser) parseexpr(depth int) node {
 	case p.accept(nilkeyword):
 		n = newnilnode(p.t)
 	case p.accept(leftparentoken):
-		n = p.parseexpr(1)
+		n = operand(1)
+		p.expect(rightparentoken)
 	default:
 	}
 
@@ -114,11 +127,17 @@ func (p *parser) parseexpr(depth int) node {
 			continue
 		}
 		if n != nil && p.accept(leftparentoken) {
+			if p.accept(rightparentoken) {
+				n = binaryexpr{op: binarycall, a: n}
+				continue
+			}
 			binary(binarycall, 1)
+			p.expect(rightparentoken)
 			continue
 		}
 		if n != nil && p.accept(leftbrackettoken) {
 			binary(binarysubscript, 1)
+			p.expect(rightbrackettoken)
 			continue
 		}
 		if n == nil && p.accept(addtoken) {
@@ -237,15 +256,16 @@ func (p *parser) parseexpr(depth int) node {
 			binary(binarygroup, 2)
 			continue
 		}
-		if depth >= 1 && (p.accept(rightparentoken) || p.accept(rightbrackettoken)) {
-			break
-		}
-		p.expect(eoftoken)
 		break
 	}
 	return n
 }
 
 func (p *parser) parse() node {
-	return p.parseexpr(0)
+	n := p.parseexpr(0)
+	p.expect(eoftoken)
+	if n == nil {
+		panic(errors.New("empty expression"))
+	}
+	return n
 }
-- 
2.43.0


From d9243b22c9683e7d6ea84f9a65d0e597c03c1e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:47 +0000
Subject: [PATCH 05/40] fix: keep bit position right when a skip ends on a byte
 boundary

---
 decoder.go | 2 +-
 encoder.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 64e942c..18720de 100644
--- a/decoder.go
+++ b/decoder.go
@@ -152,7 +152,7 @@ func (d *decoder) readBytes(count int) []byte {
 
 func (d *decoder) skipBits(count int) {
 	d.bitCounter += uint8(count % 8)
-	if d.bitCounter > 8 {
+	if d.bitCounter >= 8 {
 		d.bitCounter -= 8
 		count += 8
 	}
diff --git a/encoder.go b/encoder.go
index b783ffc..c47e4aa 100644
--- a/encoder.go
+++ b/encoder.go
@@ -111,7 +111,7 @@ func (e *encoder) writeS64(f field, x int64) { e.write64(f, uint64(x)) }
 
 func (e *encoder) skipBits(count int) {
 	e.bitCounter += count % 8
-	if e.bitCounter > 8 {
+	if e.bitCounter >= 8 {
 		e.bitCounter -= 8
 		count += 8
 	}
-- 
2.43.0


From fb944bedcdc4b7c3b355780a6e3b05625403443f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:07 +0000
Subject: [PATCH 06/40] fix: unpack strings and byte slices that are not byte
 aligned

---
 decoder.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/decoder.go b/decoder.go
index 18720de..2f89220 100644
--- a/decoder.go
+++ b/decoder.go
@@ -145,6 +145,15 @@ func (d *decoder) readS32(f field) int32 { return int32(d.read32(f, true)) }
 func (d *decoder) readS64(f field) int64 { return int64(d.read64(f, true)) }
 
 func (d *decoder) readBytes(count int) []byte {
+	if d.bitCounter != 0 {
+		// The bytes straddle byte boundaries; reassemble them bit by bit.
+		_ = d.buf[count] // The last byte is partly in here.
+		x := make([]byte, count)
+		for i := 0; i < 8*count; i++ {
+			putBit(x[i/8:i/8+1], 8, i%8, d.readBit())
+		}
+		return x
+	}
 	x := d.buf[0:count]
 	d.buf = d.buf[count:]
 	return x
-- 
2.43.0


From 89ce4b84b46bf8c8afd5b738a721c0cebd291dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 07/40] fix: report input that ends inside skipped bits

---
 decoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/decoder.go b/decoder.go
index 2f89220..20b8376 100644
--- a/decoder.go
+++ b/decoder.go
@@ -166,6 +166,9 @@ func (d *decoder) skipBits(count int) {
 		count += 8
 	}
 	d.buf = d.buf[count/8:]
+	if d.bitCounter != 0 {
+		_ = d.buf[0] // The last byte must be there, too.
+	}
 }
 
 func (d *decoder) skip(f field, v reflect.Value) {
-- 
2.43.0


From fc72e86f31551ef2f708c39ca17409563d850446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 08/40] fix: clear the cases of a switch, not the field with
 the switch's own index

---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 20b8376..1869769 100644
--- a/decoder.go
+++ b/decoder.go
@@ -229,7 +229,7 @@ func (d *decoder) switc(f field, v reflect.Value, on interface{}) {
 
 	// Zero out values for decoding.
 	for i := 0; i < l; i++ {
-		v := v.Field(f.Index)
+		v := v.Field(sfields[i].Index)
 		v.Set(reflect.Zero(v.Type()))
 	}
 
-- 
2.43.0


From 049a52cbf67abd81d293543669e5f3ab88f60320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:09 +0000
Subject: [PATCH 09/40] fix: do not append to what a slice read with while held
 before

---
 decoder.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/decoder.go b/decoder.go
index 1869769..bd2456a 100644
--- a/decoder.go
+++ b/decoder.go
@@ -413,6 +413,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 			if f.WhileExpr != nil {
 				switch f.NativeType.Kind() {
 				case reflect.Slice:
+					v.Set(reflect.Zero(v.Type()))
 					ef := f.Elem()
 					for d.evalWhile(f) {
 						nv := reflect.New(ef.NativeType).Elem()
-- 
2.43.0


From b3da326afeb9ed6820c5f3c2c679d1f490b39d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:21 +0000
Subject: [PATCH 10/40] fix: unpacked byte slices no longer share memory with
 the input

---
 decoder.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index bd2456a..29aa98e 100644
--- a/decoder.go
+++ b/decoder.go
@@ -387,7 +387,8 @@ func (d *decoder) read(f field, v reflect.Value) {
 		fixed := func() {
 			switch f.NativeType.Elem().Kind() {
 			case reflect.Uint8:
-				v.SetBytes(d.readBytes(d.fieldbytes(f, v)))
+				// Copy: the result must not share memory with the input.
+				v.SetBytes(append([]byte{}, d.readBytes(d.fieldbytes(f, v))...))
 			default:
 				ef := f.Elem()
 				for i := 0; i < alen; i++ {
-- 
2.43.0


From 84fd46c32be832dc5224cec4c35db379a04e6c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:22 +0000
Subject: [PATCH 11/40] fix: do not count the skipped bytes as part of a string
 or byte slice

---
 decoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 29aa98e..b1f3ce9 100644
--- a/decoder.go
+++ b/decoder.go
@@ -348,7 +348,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		switch f.NativeType.Kind() {
 		case reflect.String:
 			// When using strings, treat as C string.
-			str := string(d.readBytes(d.fieldbytes(f, v)))
+			str := string(d.readBytes(d.fieldbytes(f, v) - f.Skip))
 			nul := strings.IndexByte(str, 0)
 			if nul != -1 {
 				str = str[0:nul]
@@ -388,7 +388,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 			switch f.NativeType.Elem().Kind() {
 			case reflect.Uint8:
 				// Copy: the result must not share memory with the input.
-				v.SetBytes(append([]byte{}, d.readBytes(d.fieldbytes(f, v))...))
+				v.SetBytes(append([]byte{}, d.readBytes(d.fieldbytes(f, v)-f.Skip)...))
 			default:
 				ef := f.Elem()
 				for i := 0; i < alen; i++ {
-- 
2.43.0


From 1001dbcbc7f422b451830da3a8a354a8095fc289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:05 +0000
Subject: [PATCH 12/40] fix: do not allocate for more elements than the input
 can hold

---
 decoder.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index b1f3ce9..4f84ee2 100644
--- a/decoder.go
+++ b/decoder.go
@@ -392,6 +392,9 @@ func (d *decoder) read(f field, v reflect.Value) {
 			default:
 				ef := f.Elem()
 				for i := 0; i < alen; i++ {
+					if i == v.Len() {
+						v.Set(reflect.Append(v, reflect.Zero(ef.NativeType)))
+					}
 					d.read(ef, v.Index(i))
 				}
 			}
@@ -423,7 +426,15 @@ func (d *decoder) read(f field, v reflect.Value) {
 					}
 				}
 			} else {
-				v.Set(reflect.MakeSlice(f.NativeType, alen, alen))
+				// The length may be damaged: do not allocate room ahead for
+				// more elements than the rest of the input can hold.
+				l := alen
+				if l < 0 || f.NativeType.Elem().Kind() == reflect.Uint8 && l > len(d.buf) {
+					panic(fmt.Errorf("%s: length %d out of range", f.Name, l))
+				} else if max := 8 * len(d.buf); l > max {
+					l = max
+				}
+				v.Set(reflect.MakeSlice(f.NativeType, l, l))
 				fixed()
 			}
 		default:
-- 
2.43.0


From f7b9441f99a841ba93bd7bbc381c6a581979c435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:22 +0000
Subject: [PATCH 13/40] fix: publish expression types only once they are
 complete

---
 expr/type.go | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/expr/type.go b/expr/type.go
index f863ea8..a000772 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -478,27 +478,27 @@ func toreflecttype(t Type) reflect.Type {
 var typemap = map[reflect.Type]Type{}
 var typemutex = sync.Mutex{}
 
-func savetype(reflect reflect.Type, expr Type) Type {
-	typemutex.Lock()
-	defer typemutex.Unlock()
-
-	typemap[reflect] = expr
-	return expr
-}
-
-func loadtype(reflect reflect.Type) (Type, bool) {
+// fromreflecttype converts a runtime type into an expr type.
+func fromreflecttype(t reflect.Type) Type {
 	typemutex.Lock()
 	defer typemutex.Unlock()
 
-	if expr, ok := typemap[reflect]; ok {
-		return expr, true
+	// Types under construction are kept aside until all of them are complete:
+	// nobody else may see them before, or at all if the conversion fails.
+	pending := map[reflect.Type]Type{}
+	et := buildtype(t, pending)
+	for t, et := range pending {
+		typemap[t] = et
 	}
-	return nil, false
+	return et
 }
 
-// fromreflecttype converts a runtime type into an expr type.
-func fromreflecttype(t reflect.Type) Type {
-	if et, ok := loadtype(t); ok {
+// buildtype does the work of fromreflecttype. It is called with typemutex held.
+func buildtype(t reflect.Type, pending map[reflect.Type]Type) Type {
+	if et, ok := typemap[t]; ok {
+		return et
+	}
+	if et, ok := pending[t]; ok {
 		return et
 	}
 
@@ -509,30 +509,30 @@ func fromreflecttype(t reflect.Type) Type {
 		reflect.String:
 		return primType[t.Kind()]
 	case reflect.Array:
-		return NewArrayType(t.Len(), fromreflecttype(t.Elem()))
+		return NewArrayType(t.Len(), buildtype(t.Elem(), pending))
 	case reflect.Func:
 		nin := t.NumIn()
 		in := make([]Type, 0, nin)
 		for i := 0; i < nin; i++ {
-			in = append(in, fromreflecttype(t.In(i)))
+			in = append(in, buildtype(t.In(i), pending))
 		}
 		nout := t.NumOut()
 		out := make([]Type, 0, nout)
 		for i := 0; i < nout; i++ {
-			out = append(out, fromreflecttype(t.Out(i)))
+			out = append(out, buildtype(t.Out(i), pending))
 		}
 		return NewFuncType(in, out, t.IsVariadic())
 	case reflect.Map:
-		return NewMapType(fromreflecttype(t.Key()), fromreflecttype(t.Elem()))
+		return NewMapType(buildtype(t.Key(), pending), buildtype(t.Elem(), pending))
 	case reflect.Ptr:
 		et := &PtrType{}
-		savetype(t, et)
-		*et = *NewPtrType(fromreflecttype(t.Elem()))
+		pending[t] = et
+		et.elem = buildtype(t.Elem(), pending)
 		return et
 	case reflect.Slice:
 		et := &SliceType{}
-		savetype(t, et)
-		*et = *NewSliceType(fromreflecttype(t.Elem()))
+		pending[t] = et
+		et.elem = buildtype(t.Elem(), pending)
 		return et
 	case reflect.Struct:
 		fields := make([]Field, 0, t.NumField())
@@ -540,7 +540,7 @@ func fromreflecttype(t reflect.Type) Type {
 			field := t.Field(i)
 			fields = append(fields, Field{
 				Name: field.Name,
-				Type: fromreflecttype(field.Type),
+				Type: buildtype(field.Type, pending),
 			})
 		}
 		return NewStructType(fields)
-- 
2.43.0


From b450076fe2acd5c13f5272bef4c5500b5a86950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:23 +0000
Subject: [PATCH 14/40] fix: report the same missing sizeof target every time

---
 field.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/field.go b/field.go
index ad64761..89f7e55 100644
--- a/field.go
+++ b/field.go
@@ -292,8 +292,15 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 		})
 	}
 
-	for fieldName := range sizeOfMap {
-		panic(fmt.Errorf("couldn't find SizeOf field %s", fieldName))
+	// Report the first field whose target is missing.
+	first, missing := count, ""
+	for fieldName, i := range sizeOfMap {
+		if i < first {
+			first, missing = i, fieldName
+		}
+	}
+	if first != count {
+		panic(fmt.Errorf("couldn't find SizeOf field %s", missing))
 	}
 
 	return
-- 
2.43.0


From 4d9b59292e7013f6e0890dce2ed777ceaa59b8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:39 +0000
Subject: [PATCH 15/40] fix: find the counts of a struct that has fields
 restruct ignores

---
 field.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/field.go b/field.go
index 89f7e55..9590a07 100644
--- a/field.go
+++ b/field.go
@@ -217,11 +217,11 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 			if !validSizeType(val.Type) {
 				panic(ErrInvalidSizeOf)
 			}
-			sindex = j
-			result[sindex].TIndex = i
+			sindex = result[j].Index
+			result[j].TIndex = i
 			delete(sizeOfMap, val.Name)
 		} else if opts.SizeOf != "" {
-			sizeOfMap[opts.SizeOf] = i
+			sizeOfMap[opts.SizeOf] = len(result)
 		}
 
 		// SizeFrom
@@ -229,11 +229,10 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 			if !validSizeType(val.Type) {
 				panic(ErrInvalidSizeFrom)
 			}
-			for j := 0; j < i; j++ {
-				val := result[j]
-				if opts.SizeFrom == val.Name {
-					sindex = j
-					result[sindex].TIndex = i
+			for j := range result {
+				if opts.SizeFrom == result[j].Name {
+					sindex = result[j].Index
+					result[j].TIndex = i
 				}
 			}
 			if sindex == -1 {
-- 
2.43.0


From 3c27c0f823e004aab9368662da57f44751ae6c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 16/40] fix: refuse to pack a count that does not fit its field

---
 encoder.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/encoder.go b/encoder.go
index c47e4aa..928c4a5 100644
--- a/encoder.go
+++ b/encoder.go
@@ -176,6 +176,18 @@ func (e *encoder) uintFromField(f field, v reflect.Value) uint64 {
 	}
 }
 
+// checkCount makes sure that a count fits the field it is stored in, of whose
+// bits some may be taken by the sign.
+func (e *encoder) checkCount(f field, count int, signBits int) {
+	bits := e.bitSize
+	if bits == 0 {
+		bits = f.BinaryType.Bits()
+	}
+	if uint64(count)>>uint(bits-signBits) != 0 {
+		panic(fmt.Errorf("%s: count %d does not fit in %d bits", f.Name, count, bits))
+	}
+}
+
 func (e *encoder) switc(f field, v reflect.Value, on interface{}) {
 	var def *switchcase
 
@@ -273,8 +285,10 @@ func (e *encoder) write(f field, v reflect.Value) {
 
 		switch f.BinaryType.Kind() {
 		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+			e.checkCount(f, sv.Len(), 1)
 			v.SetInt(int64(sv.Len()))
 		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+			e.checkCount(f, sv.Len(), 0)
 			v.SetUint(uint64(sv.Len()))
 		default:
 			panic(fmt.Errorf("unsupported size type %s: %s", f.BinaryType.String(), f.Name))
-- 
2.43.0


From 6c0ce7308ba4c337ffd06528297bff4c9d9992d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:56 +0000
Subject: [PATCH 17/40] fix: size conditional, skipped and dynamic bit fields
 as they are packed

---
 structstack.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/structstack.go b/structstack.go
index 6e056a5..15bc9fc 100644
--- a/structstack.go
+++ b/structstack.go
@@ -149,7 +149,7 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 	}
 
 	if b := s.evalBits(f); b != 0 {
-		return b
+		return b + skipBits
 	}
 
 	alen := 1
@@ -190,7 +190,7 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 
 		switch f.NativeType.Kind() {
 		case reflect.Ptr:
-			return s.fieldbits(f.Elem(), val.Elem())
+			return size + s.fieldbits(f.Elem(), val.Elem())
 		case reflect.Slice, reflect.String, reflect.Array:
 			// Optimization: if the element type is trivial, we can derive the
 			// length from a single element.
@@ -208,11 +208,7 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		size += skipBits
 		s.push(val)
 		for _, field := range cachedFieldsFromStruct(f.BinaryType) {
-			if field.BitSize != 0 {
-				size += int(field.BitSize)
-			} else {
-				size += s.fieldbits(field, val.Field(field.Index))
-			}
+			size += s.fieldbits(field, val.Field(field.Index))
 		}
 		s.pop(val)
 		return size
-- 
2.43.0


From af748f3fde3a6bf6f339dc7d0712610b37357c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:08 +0000
Subject: [PATCH 18/40] fix: do not size a list by one element when sizes vary,
 nor recurse through pointers

---
 field.go | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/field.go b/field.go
index 9590a07..81b64ca 100644
--- a/field.go
+++ b/field.go
@@ -59,6 +59,11 @@ type BitSizer interface {
 	BitSize() int
 }
 
+var (
+	sizerType    = reflect.TypeOf((*Sizer)(nil)).Elem()
+	bitSizerType = reflect.TypeOf((*BitSizer)(nil)).Elem()
+)
+
 // field represents a structure field, similar to reflect.StructField.
 type field struct {
 	Name       string
@@ -256,6 +261,11 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 			panic(ErrInvalidBits)
 		}
 
+		// A field that is not always there, or whose width varies, makes the
+		// size depend on the value.
+		trivial := isTypeTrivial(ftyp) &&
+			ifExpr == nil && bitsExpr == nil && switchExpr == nil
+
 		// Flags
 		flags := FieldFlags(0)
 		if opts.VariantBoolFlag {
@@ -277,7 +287,7 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 			SIndex:     sindex,
 			TIndex:     tindex,
 			Skip:       opts.Skip,
-			Trivial:    isTypeTrivial(ftyp),
+			Trivial:    trivial,
 			BitSize:    opts.BitSize,
 			Flags:      flags,
 			IfExpr:     ifExpr,
@@ -328,6 +338,10 @@ func isTypeTrivial(typ reflect.Type) bool {
 	if typ == nil {
 		return false
 	}
+	if ptr := reflect.PtrTo(typ); ptr.Implements(sizerType) || ptr.Implements(bitSizerType) {
+		// The size is up to the value.
+		return false
+	}
 	switch typ.Kind() {
 	case reflect.Bool,
 		reflect.Int,
@@ -346,11 +360,11 @@ func isTypeTrivial(typ reflect.Type) bool {
 		reflect.Complex64,
 		reflect.Complex128:
 		return true
-	case reflect.Array, reflect.Ptr:
+	case reflect.Array:
 		return isTypeTrivial(typ.Elem())
 	case reflect.Struct:
 		for _, field := range cachedFieldsFromStruct(typ) {
-			if !isTypeTrivial(field.BinaryType) {
+			if !field.Trivial {
 				return false
 			}
 		}
-- 
2.43.0


From ac8acc3cfc1b8528c83deb8e86add14689d95217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 19/40] fix: report a destination struct whose fields cannot be
 set

---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 4f84ee2..aa52085 100644
--- a/decoder.go
+++ b/decoder.go
@@ -370,7 +370,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		for i := 0; i < l; i++ {
 			f := d.sfields[i]
 			v := v.Field(f.Index)
-			if v.CanSet() {
+			if f.Name != "_" {
 				d.read(f, v)
 			} else {
 				d.skip(f, v)
-- 
2.43.0


From 19e30e18056bb6eb0fb16bf12ed3f669c3ea05a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:21 +0000
Subject: [PATCH 20/40] fix: pack structs passed by value with their contents

---
 packing.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/packing.go b/packing.go
index fdf05c4..31f4398 100644
--- a/packing.go
+++ b/packing.go
@@ -52,6 +52,18 @@ func fieldFromIntf(v interface{}) (field, reflect.Value) {
 	return f, val
 }
 
+// packFieldFromIntf is like fieldFromIntf, but makes sure that the fields of a
+// struct passed by value can be filled in.
+func packFieldFromIntf(v interface{}) (field, reflect.Value) {
+	f, val := fieldFromIntf(v)
+	if !val.CanAddr() {
+		nv := reflect.New(val.Type()).Elem()
+		nv.Set(val)
+		val = nv
+	}
+	return f, val
+}
+
 /*
 Unpack reads data from a byteslice into a value.
 
@@ -131,7 +143,7 @@ func SizeOf(v interface{}) (size int, err error) {
 	}()
 
 	ss := structstack{allowexpr: expressionsEnabled}
-	f, val := fieldFromIntf(v)
+	f, val := packFieldFromIntf(v)
 	size = ss.fieldbytes(f, val)
 
 	done = true
@@ -150,7 +162,7 @@ func BitSize(v interface{}) (size int, err error) {
 	}()
 
 	ss := structstack{allowexpr: expressionsEnabled}
-	f, val := fieldFromIntf(v)
+	f, val := packFieldFromIntf(v)
 	size = ss.fieldbits(f, val)
 
 	done = true
@@ -177,7 +189,7 @@ func Pack(order binary.ByteOrder, v interface{}) (data []byte, err error) {
 
 	ss := structstack{allowexpr: expressionsEnabled, buf: []byte{}}
 
-	f, val := fieldFromIntf(v)
+	f, val := packFieldFromIntf(v)
 	data = make([]byte, ss.fieldbytes(f, val))
 
 	ss.buf = data
-- 
2.43.0


From 15bf1bbbd8651ccbfffc81d35d6351fb606accb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 21/40] fix: keep memory addresses out of the text of
 expression errors

---
 expr/value.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/expr/value.go b/expr/value.go
index 40896a0..b78cc70 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -13,6 +13,11 @@ type InvalidOpError struct {
 }
 
 func (e InvalidOpError) Error() string {
+	switch e.V.Type().Kind() {
+	case Array, Slice, Struct, Map, Ptr, Func, Pkg:
+		// The text of these may contain addresses.
+		return fmt.Sprintf("invalid operation: operator %s not defined for %s", e.Op, e.V.Type())
+	}
 	return fmt.Sprintf("invalid operation: operator %s not defined for %v (%s)", e.Op, e.V.Value(), e.V.Type())
 }
 
-- 
2.43.0


From d704dcf9dc01dcadc8a7e5dad86b2e124c67d575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:08 +0000
Subject: [PATCH 22/40] fix: match numeric cases of a switch by value

---
 decoder.go     |  2 +-
 encoder.go     |  2 +-
 structstack.go | 25 ++++++++++++++++++++++++-
 3 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index aa52085..efb479e 100644
--- a/decoder.go
+++ b/decoder.go
@@ -249,7 +249,7 @@ func (d *decoder) switc(f field, v reflect.Value, on interface{}) {
 			panic(fmt.Errorf("%s: only cases are valid inside switches", f.Name))
 		}
 
-		if d.evalExpr(f.CaseExpr) == on {
+		if caseMatches(d.evalExpr(f.CaseExpr), on) {
 			d.read(f, v)
 			return
 		}
diff --git a/encoder.go b/encoder.go
index 928c4a5..5a2d571 100644
--- a/encoder.go
+++ b/encoder.go
@@ -214,7 +214,7 @@ func (e *encoder) switc(f field, v reflect.Value, on interface{}) {
 			panic(fmt.Errorf("%s: only cases are valid inside switches", f.Name))
 		}
 
-		if e.evalExpr(f.CaseExpr) == on {
+		if caseMatches(e.evalExpr(f.CaseExpr), on) {
 			e.write(f, v)
 			return
 		}
diff --git a/structstack.go b/structstack.go
index 15bc9fc..68c9007 100644
--- a/structstack.go
+++ b/structstack.go
@@ -12,6 +12,29 @@ type switchcase struct {
 	v reflect.Value
 }
 
+// caseMatches compares the value of a case to the value switched on. Integers
+// are compared by value: literals do not have the type of the field.
+func caseMatches(c, on interface{}) bool {
+	a, b := reflect.ValueOf(c), reflect.ValueOf(on)
+	ai, au, aok := intBits(a)
+	bi, bu, bok := intBits(b)
+	if aok && bok {
+		return ai == bi && au == bu
+	}
+	return c == on
+}
+
+// intBits returns whether an integer is negative, and its bits.
+func intBits(v reflect.Value) (negative bool, bits uint64, ok bool) {
+	switch v.Kind() {
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		return v.Int() < 0, uint64(v.Int()), true
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
+		return false, v.Uint(), true
+	}
+	return false, 0, false
+}
+
 type structstack struct {
 	buf       []byte
 	stack     []reflect.Value
@@ -97,7 +120,7 @@ func (s *structstack) switcbits(f field, v reflect.Value, on interface{}) (size
 			panic(fmt.Errorf("%s: only cases are valid inside switches", f.Name))
 		}
 
-		if s.evalExpr(f.CaseExpr) == on {
+		if caseMatches(s.evalExpr(f.CaseExpr), on) {
 			return s.fieldbits(f, v)
 		}
 	}
-- 
2.43.0


From 983aae4eed44da75e8374ee600faf9e214e27869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:19 +0000
Subject: [PATCH 23/40] fix: pack and unpack plain int and uint as the 32 bits
 they are sized as

---
 decoder.go |  4 ++--
 encoder.go | 12 ++++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index efb479e..4a9c45a 100644
--- a/decoder.go
+++ b/decoder.go
@@ -445,7 +445,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		d.setInt(f, v, int64(d.readS8(f)))
 	case reflect.Int16:
 		d.setInt(f, v, int64(d.readS16(f)))
-	case reflect.Int32:
+	case reflect.Int, reflect.Int32:
 		d.setInt(f, v, int64(d.readS32(f)))
 	case reflect.Int64:
 		d.setInt(f, v, d.readS64(f))
@@ -454,7 +454,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		d.setUint(f, v, uint64(d.readU8(f)))
 	case reflect.Uint16:
 		d.setUint(f, v, uint64(d.readU16(f)))
-	case reflect.Uint32:
+	case reflect.Uint, reflect.Uint32:
 		d.setUint(f, v, uint64(d.readU32(f)))
 	case reflect.Uint64:
 		d.setUint(f, v, d.readU64(f))
diff --git a/encoder.go b/encoder.go
index 5a2d571..db59b19 100644
--- a/encoder.go
+++ b/encoder.go
@@ -359,6 +359,12 @@ func (e *encoder) write(f field, v reflect.Value) {
 		e.writeS32(f, int32(e.intFromField(f, ov)))
 	case reflect.Int64:
 		e.writeS64(f, int64(e.intFromField(f, ov)))
+	case reflect.Int:
+		x := e.intFromField(f, ov)
+		if x != int64(int32(x)) {
+			panic(fmt.Errorf("%s: %d does not fit in 32 bits", f.Name, x))
+		}
+		e.writeS32(f, int32(x))
 
 	case reflect.Uint8, reflect.Bool:
 		e.write8(f, uint8(e.uintFromField(f, ov)))
@@ -368,6 +374,12 @@ func (e *encoder) write(f field, v reflect.Value) {
 		e.write32(f, uint32(e.uintFromField(f, ov)))
 	case reflect.Uint64:
 		e.write64(f, uint64(e.uintFromField(f, ov)))
+	case reflect.Uint:
+		x := e.uintFromField(f, ov)
+		if x != uint64(uint32(x)) && ov.Kind() != reflect.Bool {
+			panic(fmt.Errorf("%s: %d does not fit in 32 bits", f.Name, x))
+		}
+		e.write32(f, uint32(x))
 
 	case reflect.Float32:
 		e.write32(f, math.Float32bits(float32(ov.Float())))
-- 
2.43.0


From d50977adf363d12c818c21751170ca932232a0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:43 +0000
Subject: [PATCH 24/40] fix: keep all bits of little endian bit fields that do
 not fill their bytes

---
 decoder.go | 9 +++++++++
 encoder.go | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/decoder.go b/decoder.go
index 4a9c45a..027c332 100644
--- a/decoder.go
+++ b/decoder.go
@@ -70,6 +70,15 @@ func (d *decoder) readBits(f field, outBuf []byte) {
 		// TODO: This needs to be optimized in a way that can be easily
 		// understood; the previous optimized version was simply too hard to
 		// reason about.
+		if d.order == binary.LittleEndian {
+			// The byte that is not full is the last one, not the first.
+			for ; decodedBits > 8; decodedBits -= 8 {
+				for i := 0; i < 8; i++ {
+					putBit(outBuf[:1], 8, i, d.readBit())
+				}
+				outBuf = outBuf[1:]
+			}
+		}
 		for i := 0; i < decodedBits; i++ {
 			putBit(outBuf, decodedBits, i, d.readBit())
 		}
diff --git a/encoder.go b/encoder.go
index db59b19..aa5b1ab 100644
--- a/encoder.go
+++ b/encoder.go
@@ -71,6 +71,15 @@ func (e *encoder) writeBits(f field, inBuf []byte) {
 		// TODO: This needs to be optimized in a way that can be easily
 		// understood; the previous optimized version was simply too hard to
 		// reason about.
+		if e.order == binary.LittleEndian {
+			// The byte that is not full is the last one, not the first.
+			for ; encodedBits > 8; encodedBits -= 8 {
+				for i := 0; i < 8; i++ {
+					e.writeBit(getBit(inBuf[:1], 8, i))
+				}
+				inBuf = inBuf[1:]
+			}
+		}
 		for i := 0; i < encodedBits; i++ {
 			e.writeBit(getBit(inBuf, encodedBits, i))
 		}
-- 
2.43.0


From 022f930963cf57fc6d85c699a0c9063f371ff52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:59 +0000
Subject: [PATCH 25/40] fix: allocate pointers to custom codecs before
 unpacking into them

---
 decoder.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/decoder.go b/decoder.go
index 027c332..093af4a 100644
--- a/decoder.go
+++ b/decoder.go
@@ -17,6 +17,8 @@ type Unpacker interface {
 	Unpack(buf []byte, order binary.ByteOrder) ([]byte, error)
 }
 
+var unpackerType = reflect.TypeOf((*Unpacker)(nil)).Elem()
+
 type decoder struct {
 	structstack
 	order      binary.ByteOrder
@@ -185,6 +187,11 @@ func (d *decoder) skip(f field, v reflect.Value) {
 }
 
 func (d *decoder) unpacker(v reflect.Value) (Unpacker, bool) {
+	if v.Kind() == reflect.Ptr && v.IsNil() && v.CanSet() && v.Type().Implements(unpackerType) {
+		// There must be something to unpack to.
+		v.Set(reflect.New(v.Type().Elem()))
+	}
+
 	if s, ok := v.Interface().(Unpacker); ok {
 		return s, true
 	}
-- 
2.43.0


From c59f71bb9acf8bb3d2aa22ddd185baaf32da26f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:56 +0000
Subject: [PATCH 26/40] fix: using nil with a recursive type does not overflow
 the stack

---
 expr/value.go | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/expr/value.go b/expr/value.go
index b78cc70..78deaa1 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -152,6 +152,16 @@ func promote(from Value, to Type) Value {
 	}
 }
 
+// promoteto promotes a value to a type whose runtime type is known. A nil can
+// only be made for the runtime type itself, not for one reconstructed from an
+// expression type: that would be a different type, and endless if recursive.
+func promoteto(from Value, to Type, rt reflect.Type) Value {
+	if from.Type().Kind() == UntypedNil && assignable(from.Type(), to) {
+		return val{reflect.Zero(rt), to}
+	}
+	return promote(from, to)
+}
+
 func coerce1(v Value) Value {
 	if v.Type().Kind() == UntypedInt {
 		switch n := v.RawValue().(type) {
@@ -168,9 +178,9 @@ func coerce(lhs Value, rhs Value) (Value, Value) {
 	if TypeEqual(lhs.Type(), rhs.Type()) {
 		return coerce1(lhs), coerce1(rhs)
 	} else if assignable(lhs.Type(), rhs.Type()) {
-		return promote(lhs, rhs.Type()), rhs
+		return promoteto(lhs, rhs.Type(), rhs.Value().Type()), rhs
 	} else if assignable(rhs.Type(), lhs.Type()) {
-		return lhs, promote(rhs, lhs.Type())
+		return lhs, promoteto(rhs, lhs.Type(), lhs.Value().Type())
 	}
 	panic(ConversionError{From: lhs.Type(), To: rhs.Type()})
 }
@@ -317,12 +327,30 @@ func (v val) LogicalAnd(rhs Value) Value {
 	return val{reflect.ValueOf(lv && rv), NewPrimitiveType(Bool)}
 }
 
+// equalsnil compares two values if one of them is an untyped nil and the other
+// one can be nil.
+func equalsnil(l, r Value) (equal, ok bool) {
+	if l.Type().Kind() == UntypedNil {
+		l, r = r, l
+	}
+	if l.Type().Kind() == UntypedNil || r.Type().Kind() != UntypedNil || !assignable(r.Type(), l.Type()) {
+		return false, false
+	}
+	return l.Value().IsNil(), true
+}
+
 func (v val) Equal(rhs Value) Value {
+	if equal, ok := equalsnil(v, rhs); ok {
+		return val{reflect.ValueOf(equal), NewPrimitiveType(Bool)}
+	}
 	l, r := coerce(v, rhs)
 	return val{reflect.ValueOf(l.RawValue() == r.RawValue()), NewPrimitiveType(Bool)}
 }
 
 func (v val) NotEqual(rhs Value) Value {
+	if equal, ok := equalsnil(v, rhs); ok {
+		return val{reflect.ValueOf(!equal), NewPrimitiveType(Bool)}
+	}
 	l, r := coerce(v, rhs)
 	return val{reflect.ValueOf(l.RawValue() != r.RawValue()), NewPrimitiveType(Bool)}
 }
@@ -860,7 +888,7 @@ func (v val) Index(rhs Value) Value {
 	case *SliceType:
 		return val{v.v.Index(promote(rhs, NewPrimitiveType(Int)).RawValue().(int)), t.Elem()}
 	case *MapType:
-		return val{v.v.MapIndex(promote(rhs, t.Key()).Value()), t.Value()}
+		return val{v.v.MapIndex(promoteto(rhs, t.Key(), v.v.Type().Key()).Value()), t.Value()}
 	default:
 		panic(InvalidOpError{Op: "[]", V: v})
 	}
@@ -876,7 +904,7 @@ func (v val) Call(in []Value) Value {
 	}
 	inconv := []reflect.Value{}
 	for i, n := range in {
-		inconv = append(inconv, promote(n, ft.In(i)).Value())
+		inconv = append(inconv, promoteto(n, ft.In(i), v.v.Type().In(i)).Value())
 	}
 	out := v.v.Call(inconv)
 	if len(out) != 1 {
-- 
2.43.0


From f39cb831a76c4c364a4092a51c34903a0412a38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:50 +0000
Subject: [PATCH 27/40] fix: report a negative bit width instead of reading
 nothing

---
 structstack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structstack.go b/structstack.go
index 68c9007..f207a61 100644
--- a/structstack.go
+++ b/structstack.go
@@ -65,6 +65,9 @@ func (s *structstack) evalBits(f field) int {
 	}
 	if f.BitsExpr != nil {
 		bits = reflect.ValueOf(s.evalExpr(f.BitsExpr)).Convert(reflect.TypeOf(int(0))).Interface().(int)
+		if bits < 0 {
+			panic(fmt.Errorf("invalid bit size %d for field %s", bits, f.Name))
+		}
 	}
 	return bits
 }
-- 
2.43.0


From 85d0c04445f2a4793418e4a7932274722b53eb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:38 +0000
Subject: [PATCH 28/40] fix: let operators and cases work on values of named
 basic types

---
 expr/eval.go   |  2 +-
 expr/value.go  | 40 +++++++++++++++++++++++++---------------
 structstack.go | 19 +++++++++++++------
 3 files changed, 39 insertions(+), 22 deletions(-)

diff --git a/expr/eval.go b/expr/eval.go
index 47292f0..f3b7a26 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -180,7 +180,7 @@ func evalbinary(resolver Resolver, node binaryexpr) Value {
 }
 
 func evalternary(resolver Resolver, node ternaryexpr) Value {
-	a := evalnode(resolver, node.a).Value().Interface()
+	a := unnamed(evalnode(resolver, node.a)).Value().Interface()
 	cond, ok := a.(bool)
 	if !ok {
 		panic(fmt.Errorf("unexpected type %T for ternary", cond))
diff --git a/expr/value.go b/expr/value.go
index 78deaa1..5db85b2 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -162,6 +162,15 @@ func promoteto(from Value, to Type, rt reflect.Type) Value {
 	return promote(from, to)
 }
 
+// unnamed converts a value of a named primitive type to the primitive type,
+// which is what operators work on.
+func unnamed(v Value) Value {
+	if rt, ok := primRType[v.Type().Kind()]; ok && v.Value().Type() != rt {
+		return val{v.Value().Convert(rt), v.Type()}
+	}
+	return v
+}
+
 func coerce1(v Value) Value {
 	if v.Type().Kind() == UntypedInt {
 		switch n := v.RawValue().(type) {
@@ -175,6 +184,7 @@ func coerce1(v Value) Value {
 }
 
 func coerce(lhs Value, rhs Value) (Value, Value) {
+	lhs, rhs = unnamed(lhs), unnamed(rhs)
 	if TypeEqual(lhs.Type(), rhs.Type()) {
 		return coerce1(lhs), coerce1(rhs)
 	} else if assignable(lhs.Type(), rhs.Type()) {
@@ -198,7 +208,7 @@ func (v val) RawValue() interface{} {
 }
 
 func (v val) Negate() Value {
-	switch n := v.RawValue().(type) {
+	switch n := unnamed(v).RawValue().(type) {
 	case int:
 		return val{reflect.ValueOf(-n), v.t}
 	case int8:
@@ -231,7 +241,7 @@ func (v val) Negate() Value {
 }
 
 func (v val) Not() Value {
-	switch n := v.RawValue().(type) {
+	switch n := unnamed(v).RawValue().(type) {
 	case bool:
 		return val{reflect.ValueOf(!n), v.t}
 	default:
@@ -240,7 +250,7 @@ func (v val) Not() Value {
 }
 
 func (v val) BitNot() Value {
-	switch n := v.RawValue().(type) {
+	switch n := unnamed(v).RawValue().(type) {
 	case int:
 		return val{reflect.ValueOf(^n), v.t}
 	case int8:
@@ -300,12 +310,12 @@ func (v val) Dot(ident string) Value {
 }
 
 func (v val) LogicalOr(rhs Value) Value {
-	lv, ok := v.RawValue().(bool)
+	lv, ok := unnamed(v).RawValue().(bool)
 	if !ok {
 		panic(InvalidOpError{Op: "||", V: v})
 	}
 
-	rv, ok := rhs.RawValue().(bool)
+	rv, ok := unnamed(rhs).RawValue().(bool)
 	if !ok {
 		panic(InvalidOpError{Op: "||", V: rhs})
 	}
@@ -314,12 +324,12 @@ func (v val) LogicalOr(rhs Value) Value {
 }
 
 func (v val) LogicalAnd(rhs Value) Value {
-	lv, ok := v.RawValue().(bool)
+	lv, ok := unnamed(v).RawValue().(bool)
 	if !ok {
 		panic(InvalidOpError{Op: "&&", V: v})
 	}
 
-	rv, ok := rhs.RawValue().(bool)
+	rv, ok := unnamed(rhs).RawValue().(bool)
 	if !ok {
 		panic(InvalidOpError{Op: "&&", V: rhs})
 	}
@@ -720,10 +730,10 @@ func (v val) Rem(rhs Value) Value {
 }
 
 func (v val) Lsh(rhs Value) Value {
-	l := coerce1(v)
+	l := coerce1(unnamed(v))
 	shift := uint64(0)
 
-	switch rv := rhs.RawValue().(type) {
+	switch rv := unnamed(rhs).RawValue().(type) {
 	case uint:
 		shift = uint64(rv)
 	case uint8:
@@ -769,10 +779,10 @@ func (v val) Lsh(rhs Value) Value {
 }
 
 func (v val) Rsh(rhs Value) Value {
-	l := coerce1(v)
+	l := coerce1(unnamed(v))
 	shift := uint64(0)
 
-	switch rv := rhs.RawValue().(type) {
+	switch rv := unnamed(rhs).RawValue().(type) {
 	case uint:
 		shift = uint64(rv)
 	case uint8:
@@ -879,14 +889,14 @@ func (v val) AndNot(rhs Value) Value {
 
 func (v val) Index(rhs Value) Value {
 	if v.t.Kind() == String {
-		index := promote(rhs, NewPrimitiveType(Int)).RawValue().(int)
-		return val{reflect.ValueOf(v.RawValue().(string)[index]), NewPrimitiveType(Uint8)}
+		index := promote(unnamed(rhs), NewPrimitiveType(Int)).RawValue().(int)
+		return val{reflect.ValueOf(unnamed(v).RawValue().(string)[index]), NewPrimitiveType(Uint8)}
 	}
 	switch t := v.t.(type) {
 	case *ArrayType:
-		return val{v.v.Index(promote(rhs, NewPrimitiveType(Int)).RawValue().(int)), t.Elem()}
+		return val{v.v.Index(promote(unnamed(rhs), NewPrimitiveType(Int)).RawValue().(int)), t.Elem()}
 	case *SliceType:
-		return val{v.v.Index(promote(rhs, NewPrimitiveType(Int)).RawValue().(int)), t.Elem()}
+		return val{v.v.Index(promote(unnamed(rhs), NewPrimitiveType(Int)).RawValue().(int)), t.Elem()}
 	case *MapType:
 		return val{v.v.MapIndex(promoteto(rhs, t.Key(), v.v.Type().Key()).Value()), t.Value()}
 	default:
diff --git a/structstack.go b/structstack.go
index f207a61..aa10b25 100644
--- a/structstack.go
+++ b/structstack.go
@@ -12,8 +12,9 @@ type switchcase struct {
 	v reflect.Value
 }
 
-// caseMatches compares the value of a case to the value switched on. Integers
-// are compared by value: literals do not have the type of the field.
+// caseMatches compares the value of a case to the value switched on. Integers,
+// strings and booleans are compared by value: literals do not have the type of
+// the field.
 func caseMatches(c, on interface{}) bool {
 	a, b := reflect.ValueOf(c), reflect.ValueOf(on)
 	ai, au, aok := intBits(a)
@@ -21,6 +22,12 @@ func caseMatches(c, on interface{}) bool {
 	if aok && bok {
 		return ai == bi && au == bu
 	}
+	if a.Kind() == reflect.String && b.Kind() == reflect.String {
+		return a.String() == b.String()
+	}
+	if a.Kind() == reflect.Bool && b.Kind() == reflect.Bool {
+		return a.Bool() == b.Bool()
+	}
 	return c == on
 }
 
@@ -84,15 +91,15 @@ func (s *structstack) evalIf(f field) bool {
 	if f.IfExpr == nil {
 		return true
 	}
-	if b, ok := s.evalExpr(f.IfExpr).(bool); ok {
-		return b
+	if b := reflect.ValueOf(s.evalExpr(f.IfExpr)); b.Kind() == reflect.Bool {
+		return b.Bool()
 	}
 	panic("expected bool value for if expr")
 }
 
 func (s *structstack) evalWhile(f field) bool {
-	if b, ok := s.evalExpr(f.WhileExpr).(bool); ok {
-		return b
+	if b := reflect.ValueOf(s.evalExpr(f.WhileExpr)); b.Kind() == reflect.Bool {
+		return b.Bool()
 	}
 	panic("expected bool value for while expr")
 }
-- 
2.43.0


From 8c387c0b38668e5bd8f6dc840a4b15b4e7831c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:53 +0000
Subject: [PATCH 29/40] fix: report panics with values that contain addresses
 or themselves by their type

---
 expr/eval.go | 25 +++++++++++++++++++++++++
 packing.go   | 24 ++++++++++++++++++++++++
 2 files changed, 49 insertions(+)

diff --git a/expr/eval.go b/expr/eval.go
index f3b7a26..ae93629 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -3,6 +3,7 @@ package expr
 import (
 	"errors"
 	"fmt"
+	"reflect"
 )
 
 // errAborted is reported when an evaluation was cut short without a reason,
@@ -16,11 +17,35 @@ func panicError(r interface{}) error {
 		return errAborted
 	case error:
 		return r
+	case fmt.Stringer:
+		return fmt.Errorf("%v", r)
 	default:
+		if t := reflect.TypeOf(r); !plainType(t) {
+			return fmt.Errorf("panic with a value of type %s", t)
+		}
 		return fmt.Errorf("%v", r)
 	}
 }
 
+// plainType returns whether values of a type refer to nothing else. The text
+// of those that do may contain addresses, and does not end if they refer to
+// themselves.
+func plainType(t reflect.Type) bool {
+	switch t.Kind() {
+	case reflect.Array:
+		return plainType(t.Elem())
+	case reflect.Struct:
+		for i := 0; i < t.NumField(); i++ {
+			if !plainType(t.Field(i).Type) {
+				return false
+			}
+		}
+	case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice, reflect.UnsafePointer:
+		return false
+	}
+	return true
+}
+
 // EvalProgram returns the result of executing the program with the given resolver.
 func EvalProgram(resolver Resolver, program *Program) (v interface{}, err error) {
 	done := false
diff --git a/packing.go b/packing.go
index 31f4398..c441676 100644
--- a/packing.go
+++ b/packing.go
@@ -38,11 +38,35 @@ func panicError(r interface{}) error {
 		return errAborted
 	case error:
 		return r
+	case fmt.Stringer:
+		return fmt.Errorf("%v", r)
 	default:
+		if t := reflect.TypeOf(r); !plainType(t) {
+			return fmt.Errorf("panic with a value of type %s", t)
+		}
 		return fmt.Errorf("%v", r)
 	}
 }
 
+// plainType returns whether values of a type refer to nothing else. The text
+// of those that do may contain addresses, and does not end if they refer to
+// themselves.
+func plainType(t reflect.Type) bool {
+	switch t.Kind() {
+	case reflect.Array:
+		return plainType(t.Elem())
+	case reflect.Struct:
+		for i := 0; i < t.NumField(); i++ {
+			if !plainType(t.Field(i).Type) {
+				return false
+			}
+		}
+	case reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Ptr, reflect.Slice, reflect.UnsafePointer:
+		return false
+	}
+	return true
+}
+
 func fieldFromIntf(v interface{}) (field, reflect.Value) {
 	val := reflect.ValueOf(v)
 	if val.Kind() == reflect.Ptr {
-- 
2.43.0


From 0e57dde9225303fbb14eb159f4baedc0d3e044d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:00 +0000
Subject: [PATCH 30/40] fix: elements of an array that a while condition left
 out kept what a reused destination held

---
 decoder.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/decoder.go b/decoder.go
index 093af4a..a349816 100644
--- a/decoder.go
+++ b/decoder.go
@@ -420,6 +420,8 @@ func (d *decoder) read(f field, v reflect.Value) {
 			v.SetString(string(d.readBytes(alen)))
 		case reflect.Array:
 			if f.WhileExpr != nil {
+				// There may be fewer elements than the array has room for.
+				v.Set(reflect.Zero(v.Type()))
 				i := 0
 				ef := f.Elem()
 				for d.evalWhile(f) {
-- 
2.43.0


From a7237b073e29d4974ef5f9e3a696b368f6fbd9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:24 +0000
Subject: [PATCH 31/40] fix: data longer than the room it is stored in could be
 packed into the padding behind

---
 encoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoder.go b/encoder.go
index aa5b1ab..cd2e699 100644
--- a/encoder.go
+++ b/encoder.go
@@ -333,6 +333,9 @@ func (e *encoder) write(f field, v reflect.Value) {
 			cap := len
 			if f.BinaryType.Kind() == reflect.Array {
 				cap = f.BinaryType.Len()
+				if len > cap {
+					panic(fmt.Errorf("%s: length %d does not fit in %s", f.Name, len, f.BinaryType.String()))
+				}
 			}
 			for i := 0; i < len; i++ {
 				e.write(ef, ov.Index(i))
-- 
2.43.0


From 27af964f16e59d3f2bc549c6da9de5c8759cc326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:10 +0000
Subject: [PATCH 32/40] fix: an array with fewer elements than the room it is
 stored in could be packed but not unpacked

---
 decoder.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index a349816..d0ac4cd 100644
--- a/decoder.go
+++ b/decoder.go
@@ -372,9 +372,13 @@ func (d *decoder) read(f field, v reflect.Value) {
 			v.SetString(str)
 		case reflect.Slice, reflect.Array:
 			ef := f.Elem()
-			for i := 0; i < l; i++ {
+			for i := 0; i < l && i < v.Len(); i++ {
 				d.read(ef, v.Index(i))
 			}
+			for i := v.Len(); i < l; i++ {
+				// There is more room than the array has elements.
+				d.read(ef, reflect.New(ef.NativeType).Elem())
+			}
 		default:
 			panic(fmt.Errorf("invalid array cast type: %s", f.NativeType.String()))
 		}
-- 
2.43.0


From 060a0350d93033e5600cc95d8f67b88c10de9684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:55 +0000
Subject: [PATCH 33/40] fix: literals with a fraction could not be used with
 floating-point fields

---
 expr/value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr/value.go b/expr/value.go
index 5db85b2..931fe0b 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -97,9 +97,9 @@ func promote(from Value, to Type) Value {
 	case UntypedFloat:
 		switch to.Kind() {
 		case Float32:
-			return val{reflect.ValueOf(float32(reflect.ValueOf(from.Value).Float())), to}
+			return val{reflect.ValueOf(float32(from.Value().Float())), to}
 		case Float64:
-			return val{reflect.ValueOf(float64(reflect.ValueOf(from.Value).Float())), to}
+			return val{reflect.ValueOf(float64(from.Value().Float())), to}
 		default:
 			panic(ConversionError{From: ftype, To: to})
 		}
-- 
2.43.0


From ecedc0748c93fa32c1f859fbdcf2dc5507a0ccc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:41 +0000
Subject: [PATCH 34/40] fix: lists of bytes with a codec, or stored as wider
 numbers, were unpacked as raw bytes

Packing and sizing call the codec of every element, and store every element
in the width of the tag. Unpacking copied as many bytes as that takes into the
list instead: the codec was not called, its failure got lost, and the list had
elements that no one had packed.
---
 decoder.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/decoder.go b/decoder.go
index d0ac4cd..bd7c142 100644
--- a/decoder.go
+++ b/decoder.go
@@ -207,6 +207,18 @@ func (d *decoder) unpacker(v reflect.Value) (Unpacker, bool) {
 	return nil, false
 }
 
+// plainBytes returns whether the elements of a list can be copied as they are:
+// they are bytes on both sides, without a codec of their own.
+func plainBytes(f field) bool {
+	if f.NativeType.Elem().Kind() != reflect.Uint8 {
+		return false
+	}
+	if f.BinaryType.Kind() != reflect.String && f.BinaryType.Elem().Size() != 1 {
+		return false
+	}
+	return !reflect.PtrTo(f.NativeType.Elem()).Implements(unpackerType)
+}
+
 func (d *decoder) setUint(f field, v reflect.Value, x uint64) {
 	switch v.Kind() {
 	case reflect.Bool:
@@ -405,11 +417,10 @@ func (d *decoder) read(f field, v reflect.Value) {
 
 	case reflect.Slice, reflect.String:
 		fixed := func() {
-			switch f.NativeType.Elem().Kind() {
-			case reflect.Uint8:
+			if plainBytes(f) {
 				// Copy: the result must not share memory with the input.
 				v.SetBytes(append([]byte{}, d.readBytes(d.fieldbytes(f, v)-f.Skip)...))
-			default:
+			} else {
 				ef := f.Elem()
 				for i := 0; i < alen; i++ {
 					if i == v.Len() {
@@ -451,7 +462,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 				// The length may be damaged: do not allocate room ahead for
 				// more elements than the rest of the input can hold.
 				l := alen
-				if l < 0 || f.NativeType.Elem().Kind() == reflect.Uint8 && l > len(d.buf) {
+				if l < 0 || plainBytes(f) && l > len(d.buf) {
 					panic(fmt.Errorf("%s: length %d out of range", f.Name, l))
 				} else if max := 8 * len(d.buf); l > max {
 					l = max
-- 
2.43.0


From 1cb2929aa64f8387283d0bbaf00ff3cbf8dcf9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:07 +0000
Subject: [PATCH 35/40] fix: input that nests a recursive type very deeply ran
 out of stack, which ends the process

---
 structstack.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/structstack.go b/structstack.go
index aa10b25..46a26b5 100644
--- a/structstack.go
+++ b/structstack.go
@@ -274,7 +274,14 @@ func (s *structstack) evalExpr(program *expr.Program) interface{} {
 	return v
 }
 
+// maxNesting is how deeply structures may be nested. Input decides how deeply
+// recursive types nest; running out of stack cannot be recovered from.
+const maxNesting = 50000
+
 func (s *structstack) push(v reflect.Value) {
+	if len(s.stack) >= maxNesting {
+		panic(fmt.Errorf("structures nested more than %d levels deep", maxNesting))
+	}
 	s.stack = append(s.stack, v)
 }
 
-- 
2.43.0


From 49c03e4fe8408e712c68f6fafbb91b1aada34674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:07 +0000
Subject: [PATCH 36/40] fix: very deeply nested expressions ran out of stack,
 which ends the process

---
 expr/parse.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/expr/parse.go b/expr/parse.go
index 900bae2..97cb2a9 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -22,11 +22,17 @@ func ParseString(s string) *Program {
 	return Parse(bytes.NewBufferString(s))
 }
 
+// maxNesting is how deeply operators and brackets may be nested. Running out of
+// stack cannot be recovered from.
+const maxNesting = 100000
+
 type parser struct {
 	s *scanner
 
 	a bool
 	t token
+
+	nesting int
 }
 
 func newparser(s *scanner) *parser {
@@ -60,12 +66,23 @@ func (p *parser) expect(k tokenkind) {
 	p.consume()
 }
 
+// nest accounts for another level of nesting.
+func (p *parser) nest() {
+	if p.nesting++; p.nesting > maxNesting {
+		panic(fmt.Errorf("expression nested more than %d levels deep", maxNesting))
+	}
+}
+
 // This parser is strongly based on byuu's modified recursive-descent algorithm
 // (particularly the 'depth' parameter.)
 // https://github.com/byuu/bsnes/blob/master/nall/string/eval/parser.hpp
 func (p *parser) parseexpr(depth int) node {
 	var n node
 
+	nesting := p.nesting
+	defer func() { p.nesting = nesting }()
+	p.nest()
+
 	operand := func(depth int) node {
 		o := p.parseexpr(depth)
 		if o == nil {
@@ -119,6 +136,8 @@ func (p *parser) parseexpr(depth int) node {
 	}
 
 	for {
+		// Each operator nests what came before it.
+		p.nest()
 		if depth >= 8 {
 			break
 		}
-- 
2.43.0


From 6ed21b4bcb65b3ae7aa8c7fd42fa26b073f5ecc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:13 +0000
Subject: [PATCH 37/40] fix: a bit width that the value gives was not checked
 before room was made for it

---
 structstack.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/structstack.go b/structstack.go
index 46a26b5..af763c6 100644
--- a/structstack.go
+++ b/structstack.go
@@ -72,7 +72,9 @@ func (s *structstack) evalBits(f field) int {
 	}
 	if f.BitsExpr != nil {
 		bits = reflect.ValueOf(s.evalExpr(f.BitsExpr)).Convert(reflect.TypeOf(int(0))).Interface().(int)
-		if bits < 0 {
+		// Padding may be of any width. Anything else may not, and must not have
+		// room made for it: the value decides how many bits these are.
+		if bits < 0 || f.Name != "_" && bits > 8*int(f.BinaryType.Size()) {
 			panic(fmt.Errorf("invalid bit size %d for field %s", bits, f.Name))
 		}
 	}
-- 
2.43.0


From 0e9653609fde62f1a89dc2976b0bcb94b2f8cf41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:59 +0000
Subject: [PATCH 38/40] fix: converting or spelling out a type that contains
 itself did not end

A map of itself, a function of itself or a structure with such a field ran out
of stack when it was used in an expression, and so did the text of errors about
lists and pointers of themselves. Map types are pointers now, as the others, so
maps can be indexed; a missing key gives the zero value.
---
 expr/type.go  | 59 +++++++++++++++++++++++++++++++++++++--------------
 expr/value.go |  6 +++++-
 2 files changed, 48 insertions(+), 17 deletions(-)

diff --git a/expr/type.go b/expr/type.go
index a000772..1a9cc35 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -224,6 +224,28 @@ func (t PackageType) Symbol(ident string) Type {
 	return nil
 }
 
+// maxtypelevels is how many levels of a type are spelt out. Types that refer to
+// themselves have no end.
+const maxtypelevels = 10
+
+func typestring(t Type, levels int) string {
+	if levels == 0 {
+		return "..."
+	}
+	switch t := t.(type) {
+	case *ArrayType:
+		return fmt.Sprintf("[%d]%s", t.count, typestring(t.elem, levels-1))
+	case *SliceType:
+		return "[]" + typestring(t.elem, levels-1)
+	case *MapType:
+		return "map[" + typestring(t.key, levels-1) + "]" + typestring(t.val, levels-1)
+	case *PtrType:
+		return "*" + typestring(t.elem, levels-1)
+	default:
+		return t.String()
+	}
+}
+
 // ArrayType is the type of array-like values.
 type ArrayType struct {
 	count int
@@ -237,7 +259,7 @@ func NewArrayType(count int, elem Type) *ArrayType {
 
 // String implements Type.
 func (t ArrayType) String() string {
-	return fmt.Sprintf("[%d]%s", t.count, t.elem.String())
+	return typestring(&t, maxtypelevels)
 }
 
 // Kind implements Type.
@@ -267,7 +289,7 @@ func NewSliceType(elem Type) *SliceType {
 
 // String implements Type.
 func (t SliceType) String() string {
-	return "[]" + t.elem.String()
+	return typestring(&t, maxtypelevels)
 }
 
 // Kind implements Type.
@@ -287,12 +309,12 @@ type MapType struct {
 
 // NewMapType returns a new map type.
 func NewMapType(key Type, val Type) Type {
-	return MapType{key: key, val: val}
+	return &MapType{key: key, val: val}
 }
 
 // String implements Type.
 func (t MapType) String() string {
-	return "map[" + t.key.String() + "]" + t.val.String()
+	return typestring(&t, maxtypelevels)
 }
 
 // Kind implements Type.
@@ -369,7 +391,7 @@ func NewPtrType(elem Type) *PtrType {
 
 // String implements Type.
 func (t PtrType) String() string {
-	return "*" + t.elem.String()
+	return typestring(&t, maxtypelevels)
 }
 
 // Kind implements Type.
@@ -511,19 +533,21 @@ func buildtype(t reflect.Type, pending map[reflect.Type]Type) Type {
 	case reflect.Array:
 		return NewArrayType(t.Len(), buildtype(t.Elem(), pending))
 	case reflect.Func:
-		nin := t.NumIn()
-		in := make([]Type, 0, nin)
-		for i := 0; i < nin; i++ {
-			in = append(in, buildtype(t.In(i), pending))
+		et := NewFuncType(make([]Type, t.NumIn()), make([]Type, t.NumOut()), t.IsVariadic())
+		pending[t] = et
+		for i := range et.in {
+			et.in[i] = buildtype(t.In(i), pending)
 		}
-		nout := t.NumOut()
-		out := make([]Type, 0, nout)
-		for i := 0; i < nout; i++ {
-			out = append(out, buildtype(t.Out(i), pending))
+		for i := range et.out {
+			et.out[i] = buildtype(t.Out(i), pending)
 		}
-		return NewFuncType(in, out, t.IsVariadic())
+		return et
 	case reflect.Map:
-		return NewMapType(buildtype(t.Key(), pending), buildtype(t.Elem(), pending))
+		et := &MapType{}
+		pending[t] = et
+		et.key = buildtype(t.Key(), pending)
+		et.val = buildtype(t.Elem(), pending)
+		return et
 	case reflect.Ptr:
 		et := &PtrType{}
 		pending[t] = et
@@ -535,6 +559,8 @@ func buildtype(t reflect.Type, pending map[reflect.Type]Type) Type {
 		et.elem = buildtype(t.Elem(), pending)
 		return et
 	case reflect.Struct:
+		et := &StructType{}
+		pending[t] = et
 		fields := make([]Field, 0, t.NumField())
 		for i := 0; i < t.NumField(); i++ {
 			field := t.Field(i)
@@ -543,7 +569,8 @@ func buildtype(t reflect.Type, pending map[reflect.Type]Type) Type {
 				Type: buildtype(field.Type, pending),
 			})
 		}
-		return NewStructType(fields)
+		*et = *NewStructType(fields)
+		return et
 	default:
 		panic(ErrNotRepresentable)
 	}
diff --git a/expr/value.go b/expr/value.go
index 931fe0b..fe09e9f 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -898,7 +898,11 @@ func (v val) Index(rhs Value) Value {
 	case *SliceType:
 		return val{v.v.Index(promote(unnamed(rhs), NewPrimitiveType(Int)).RawValue().(int)), t.Elem()}
 	case *MapType:
-		return val{v.v.MapIndex(promoteto(rhs, t.Key(), v.v.Type().Key()).Value()), t.Value()}
+		elem := v.v.MapIndex(promoteto(rhs, t.Key(), v.v.Type().Key()).Value())
+		if !elem.IsValid() {
+			elem = reflect.Zero(v.v.Type().Elem())
+		}
+		return val{elem, t.Value()}
 	default:
 		panic(InvalidOpError{Op: "[]", V: v})
 	}
-- 
2.43.0


From f47c8d3533b2ed372dd2c9e174ba8f1299a6f166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:59 +0000
Subject: [PATCH 39/40] fix: a member of a pointer that leads back to itself
 was looked for without end

---
 expr/value.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/expr/value.go b/expr/value.go
index fe09e9f..12537c9 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -304,7 +304,14 @@ func (v val) Dot(ident string) Value {
 			return val{sv, TypeOf(sv.Interface())}
 		}
 	case *PtrType:
-		return v.Deref().Dot(ident)
+		// Pointers may lead back to themselves.
+		p := v.Deref()
+		for i := 0; p.Type().Kind() == Ptr && i < maxNesting; i++ {
+			p = p.Deref()
+		}
+		if p.Type().Kind() != Ptr {
+			return p.Dot(ident)
+		}
 	}
 	panic(InvalidOpError{Op: ".", V: v})
 }
-- 
2.43.0


From e134864cf708ae9d9b5c6fcb82d5bf766493706e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:46 +0000
Subject: [PATCH 40/40] fix: read names and numbers in linear time

Names and numbers were put together one character at a time by
concatenating strings, which takes time and memory that grow with the
square of their length.
---
 expr/lex.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/expr/lex.go b/expr/lex.go
index b53c522..e004b8d 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -247,18 +247,20 @@ func (s *scanner) errsymf(format string, a ...interface{}) token {
 
 func (s *scanner) scanident() token {
 	t := token{kind: identtoken}
+	str := []byte{}
 	if r, ok := s.acceptfn(isletter); ok {
-		t.sval = string(r)
+		str = append(str, runebytes(r)...)
 	} else {
 		return s.errsymf("unexpected ident start token: %c", r)
 	}
 	for {
 		if r, ok := s.acceptfn(isident); ok {
-			t.sval += string(r)
+			str = append(str, runebytes(r)...)
 			continue
 		}
 		break
 	}
+	t.sval = string(str)
 	// Handle boolean constant.
 	if t.sval == "true" {
 		t.kind = booltoken
@@ -276,18 +278,20 @@ func (s *scanner) scanident() token {
 }
 
 func (s *scanner) scannumber(t token) token {
+	str := []byte(t.sval)
 	if r, ok := s.acceptfn(isnumber); ok {
-		t.sval += string(r)
+		str = append(str, runebytes(r)...)
 	} else {
 		return s.errsymf("unexpected int start token: %c", r)
 	}
 	for {
 		if r, ok := s.acceptfn(isnumber); ok {
-			t.sval += string(r)
+			str = append(str, runebytes(r)...)
 			continue
 		}
 		break
 	}
+	t.sval = string(str)
 	var err error
 	if t.uval, err = strconv.ParseUint(t.sval, 0, 64); err == nil {
 		t.ival = int64(t.uval)
-- 
2.43.0

