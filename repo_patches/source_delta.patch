From 3912ced0a8c04b63b611747e53031a0bd1c3466f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:18 +0000
Subject: [PATCH 01/21] fix: count trailing white space in skipSpacesN

Input made of white space only was reported as zero bytes skipped, so
Decoder.InputOffset fell behind by the white space at the end of the
buffered data.
---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index f6efe9f..908751a 100644
--- a/parse.go
+++ b/parse.go
@@ -30,7 +30,7 @@ func skipSpacesN(b []byte) ([]byte, int) {
 			return b[i:], i
 		}
 	}
-	return nil, 0
+	return b[len(b):], len(b)
 }
 
 // parseInt parses a decimanl representation of an int64 from b.
-- 
2.43.0


From bae45434b30f1005507cff7c6bb45742073453fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:45 +0000
Subject: [PATCH 02/21] fix: decode JSON arrays into Go arrays element by
 element

An empty JSON array was an error, elements missing from the input kept
their old value, and commas were not checked once the Go array was full,
so that [1 2] and [,1] were accepted.
---
 decode.go | 60 ++++++++++++++++++++++++++-----------------------------
 1 file changed, 28 insertions(+), 32 deletions(-)

diff --git a/decode.go b/decode.go
index ad4b113..dea539f 100644
--- a/decode.go
+++ b/decode.go
@@ -513,21 +513,39 @@ func (d decoder) decodeArray(b []byte, p unsafe.Pointer, n int, size uintptr, t
 	b = b[1:]
 
 	var err error
-	for i := 0; i < n; i++ {
+	for i := 0; ; i++ {
 		b = skipSpaces(b)
 
-		if i != 0 {
-			if len(b) == 0 {
-				return b, syntaxError(b, "unexpected EOF after array element")
+		if len(b) == 0 {
+			return b, syntaxError(b, "missing closing ']' in array value")
+		}
+
+		if b[0] == ']' {
+			if i < n {
+				// Like the encoding/json package, set the elements which have
+				// no counterpart in the input to their zero value.
+				a, z := reflect.NewAt(t, p).Elem(), reflect.Zero(t.Elem())
+				for ; i < n; i++ {
+					a.Index(i).Set(z)
+				}
 			}
-			switch b[0] {
-			case ',':
-				b = skipSpaces(b[1:])
-			case ']':
-				return b[1:], nil
-			default:
+			return b[1:], nil
+		}
+
+		if i != 0 {
+			if b[0] != ',' {
 				return b, syntaxError(b, "expected ',' after array element but found '%c'", b[0])
 			}
+			b = skipSpaces(b[1:])
+		}
+
+		if i >= n {
+			// The encoding/json package ignores extra elements found when
+			// decoding into array types (which have a fixed size).
+			if _, b, err = parseValue(b); err != nil {
+				return b, err
+			}
+			continue
 		}
 
 		b, err = decode(d, b, unsafe.Pointer(uintptr(p)+(uintptr(i)*size)))
@@ -540,28 +558,6 @@ func (d decoder) decodeArray(b []byte, p unsafe.Pointer, n int, size uintptr, t
 			return b, err
 		}
 	}
-
-	// The encoding/json package ignores extra elements found when decoding into
-	// array types (which have a fixed size).
-	for {
-		b = skipSpaces(b)
-
-		if len(b) == 0 {
-			return b, syntaxError(b, "missing closing ']' in array value")
-		}
-
-		switch b[0] {
-		case ',':
-			b = skipSpaces(b[1:])
-		case ']':
-			return b[1:], nil
-		}
-
-		_, b, err = parseValue(b)
-		if err != nil {
-			return b, err
-		}
-	}
 }
 
 // This is a placeholder used to construct non-nil empty slices.
-- 
2.43.0


From fa7bef479d2d400014ffbcc60845171f753cf06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:48 +0000
Subject: [PATCH 03/21] fix: do not split a number at the end of the Decoder's
 buffer

A number which ended exactly where the buffered data ended was returned
as a complete value, and its remaining digits as the next one.
---
 json.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/json.go b/json.go
index cb27c32..c442a1d 100644
--- a/json.go
+++ b/json.go
@@ -283,11 +283,15 @@ func (dec *Decoder) readValue() (v []byte, err error) {
 		if len(dec.remain) != 0 {
 			v, r, err = parseValue(dec.remain)
 			if err == nil {
-				dec.remain, n = skipSpacesN(r)
-				dec.inputOffset += int64(len(v) + n)
-				return v, nil
-			}
-			if len(r) != 0 {
+				// A number has no terminator: when it reaches the end of the
+				// buffered data, the rest of it may be in the data that was not
+				// read yet.
+				if c := v[len(v)-1]; len(r) != 0 || c < '0' || c > '9' || errors.Is(dec.err, io.EOF) {
+					dec.remain, n = skipSpacesN(r)
+					dec.inputOffset += int64(len(v) + n)
+					return v, nil
+				}
+			} else if len(r) != 0 {
 				// Parsing of the next JSON value stopped at a position other
 				// than the end of the input buffer, which indicaates that a
 				// syntax error was encountered.
-- 
2.43.0


From 40ef618f17b8976a8b42c110a94d019d5aee6489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:51 +0000
Subject: [PATCH 04/21] fix: report the reader's errors in Decoder.Decode

An error returned together with data was dropped, and a reader failing
with io.ErrUnexpectedEOF (like a truncated gzip stream) at the end of a
value was reported as a clean io.EOF.
---
 json.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/json.go b/json.go
index c442a1d..bc94082 100644
--- a/json.go
+++ b/json.go
@@ -322,11 +322,10 @@ func (dec *Decoder) readValue() (v []byte, err error) {
 		n, err = io.ReadFull(dec.reader, dec.buffer[len(dec.buffer):cap(dec.buffer)])
 		if n > 0 {
 			dec.buffer = dec.buffer[:len(dec.buffer)+n]
-			if err != nil {
+			if errors.Is(err, io.ErrUnexpectedEOF) {
+				// The next read reports why this one was short.
 				err = nil
 			}
-		} else if errors.Is(err, io.ErrUnexpectedEOF) {
-			err = io.EOF
 		}
 		dec.remain, n = skipSpacesN(dec.buffer)
 		dec.inputOffset += int64(n)
-- 
2.43.0


From 7908178d5f025722612989129b071bd414fcadc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:55 +0000
Subject: [PATCH 05/21] fix: let the Decoder read on when a \u escape is cut
 off by its buffer

The error of an incomplete escape pointed before the end of the input,
which Decoder.readValue takes for an error that more data cannot cure.
---
 parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/parse.go b/parse.go
index 908751a..d70de9c 100644
--- a/parse.go
+++ b/parse.go
@@ -402,6 +402,9 @@ func parseStringFast(b []byte) ([]byte, []byte, bool, error) {
 				switch b[i] {
 				case '"', '\\', '/', 'n', 'r', 't', 'f', 'b':
 				case 'u':
+					if len(b)-(i+1) < 4 {
+						return nil, b[len(b):], false, unexpectedEOF(b)
+					}
 					_, n, err := parseUnicode(b[i+1:])
 					if err != nil {
 						return nil, b, false, err
-- 
2.43.0


From 5faf9b905eff132142fe490a83f6a35b0502a6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:59 +0000
Subject: [PATCH 06/21] fix: report where a malformed exponent is

parseNumber returned no remainder with this error, so a Decoder read the
whole stream and reported io.ErrUnexpectedEOF instead of a syntax error.
---
 parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parse.go b/parse.go
index d70de9c..71e3de5 100644
--- a/parse.go
+++ b/parse.go
@@ -349,7 +349,7 @@ func parseNumber(b []byte) (v, r []byte, err error) {
 		for i < len(b) {
 			if c := b[i]; c < '0' || c > '9' {
 				if i == exponentStart {
-					err = syntaxError(b, "expected digit but found '%c'", c)
+					r, err = b[i:], syntaxError(b, "expected digit but found '%c'", c)
 					return v, r, err
 				}
 				break
-- 
2.43.0


From a221a99fa3bc879e74b4bca483e0318921ff99c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:19 +0000
Subject: [PATCH 07/21] fix: the token after an empty object is not a key

IsKey was true for a scalar following an empty object in an array.
---
 token.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/token.go b/token.go
index df5f11e..5112102 100644
--- a/token.go
+++ b/token.go
@@ -179,6 +179,7 @@ skipLoop:
 			t.push(inArray)
 		case '}':
 			err = t.pop(inObject)
+			t.isKey = false
 			t.Depth--
 			t.Index = t.index()
 		case ']':
-- 
2.43.0


From fdd6efdf0e7dd76e8eefa9008e908cbf894a2655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:23 +0000
Subject: [PATCH 08/21] fix: report misplaced delimiters in Tokenizer.Err

A closing bracket which does not match ended the iteration with a nil
Err, and a comma outside of any array or object made Next panic.
---
 token.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/token.go b/token.go
index 5112102..70e05dc 100644
--- a/token.go
+++ b/token.go
@@ -189,11 +189,16 @@ skipLoop:
 		case ':':
 			t.isKey = false
 		case ',':
+			if len(t.stack) == 0 {
+				err = syntaxError(t.json, "found unexpected character while tokenizing json input")
+				break
+			}
 			if t.is(inObject) {
 				t.isKey = true
 			}
 			t.stack[len(t.stack)-1].len++
 		}
+		t.Err = err
 	}
 
 	return (d != 0 || len(v) != 0) && err == nil
-- 
2.43.0


From d35af0310e70203580b353bfd7d0822bf80ee7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:26 +0000
Subject: [PATCH 09/21] fix: drop the comma with the member in encodeStruct

The fields of a nil embedded pointer left their comma and newline behind,
which made the output invalid JSON, and a struct without members was
indented as if it had some.
---
 encode.go | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/encode.go b/encode.go
index e4c0202..1b6d8a0 100644
--- a/encode.go
+++ b/encode.go
@@ -695,10 +695,6 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 
 	b = e.clrs.appendPunc(b, '{')
 
-	if len(st.fields) > 0 {
-		b = e.indentr.appendByte(b, '\n')
-	}
-
 	e.indentr.push()
 
 	for i := range st.fields {
@@ -709,10 +705,11 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 			continue
 		}
 
+		lengthBeforeField := len(b)
 		if n != 0 {
 			b = e.clrs.appendPunc(b, ',')
-			b = e.indentr.appendByte(b, '\n')
 		}
+		b = e.indentr.appendByte(b, '\n')
 
 		if (e.flags & EscapeHTML) != 0 {
 			k = f.html
@@ -720,7 +717,6 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 			k = f.json
 		}
 
-		lengthBeforeKey := len(b)
 		b = e.indentr.appendIndent(b)
 
 		if e.clrs == nil {
@@ -737,7 +733,7 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 
 		if b, err = f.codec.encode(e, b, v); err != nil {
 			if errors.Is(err, rollback{}) {
-				b = b[:lengthBeforeKey]
+				b = b[:lengthBeforeField]
 				continue
 			}
 			return b[:start], err
@@ -746,13 +742,12 @@ func (e encoder) encodeStruct(b []byte, p unsafe.Pointer, st *structType) ([]byt
 		n++
 	}
 
+	e.indentr.pop()
 	if n > 0 {
 		b = e.indentr.appendByte(b, '\n')
+		b = e.indentr.appendIndent(b)
 	}
 
-	e.indentr.pop()
-	b = e.indentr.appendIndent(b)
-
 	b = e.clrs.appendPunc(b, '}')
 	return b, nil
 }
-- 
2.43.0


From 08060ce8ccde9cfc7c189d563b56024599e42f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:46 +0000
Subject: [PATCH 10/21] fix: reject a Number with anything after its digits

Only a prefix of it was checked, so that Number("1}") was emitted as is.
---
 encode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 1b6d8a0..f3680b0 100644
--- a/encode.go
+++ b/encode.go
@@ -135,10 +135,13 @@ func (e encoder) encodeNumber(b []byte, p unsafe.Pointer) ([]byte, error) {
 		n = "0"
 	}
 
-	_, _, err := parseNumber(stringToBytes(string(n)))
+	_, r, err := parseNumber(stringToBytes(string(n)))
 	if err != nil {
 		return b, err
 	}
+	if len(r) != 0 {
+		return b, syntaxError(r, "invalid character '%c' after number", r[0])
+	}
 
 	if e.clrs == nil {
 		return append(b, n...), nil
-- 
2.43.0


From 2b795df0d5693dc1c3b17aabf7f07836720f5117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:49 +0000
Subject: [PATCH 11/21] fix: color a nil byte slice as null only

It was emitted as the Bytes color, a colored null, and a second reset.
---
 encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index f3680b0..b5411f7 100644
--- a/encode.go
+++ b/encode.go
@@ -297,7 +297,7 @@ func (e encoder) encodeToString(b []byte, p unsafe.Pointer, encode encodeFunc) (
 }
 
 func (e encoder) encodeBytes(b []byte, p unsafe.Pointer) ([]byte, error) {
-	if e.clrs == nil {
+	if e.clrs == nil || *(*[]byte)(p) == nil {
 		return e.doEncodeBytes(b, p)
 	}
 
-- 
2.43.0


From 7e76102d89b31850e0e7f5d691864dac9c790006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:52 +0000
Subject: [PATCH 12/21] fix: return the error of an invalid RawMessage in an
 unsorted map

The error was dropped and the truncated object returned as a success.
---
 encode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index b5411f7..e9406e0 100644
--- a/encode.go
+++ b/encode.go
@@ -620,7 +620,7 @@ func (e encoder) encodeMapStringRawMessage(b []byte, p unsafe.Pointer) ([]byte,
 				v := m[k]
 				b, err = e.encodeRawMessage(b, unsafe.Pointer(&v))
 				if err != nil {
-					break
+					return b, err
 				}
 
 				i++
-- 
2.43.0


From c72c0d0e1136f19f03d7944962f734534cd45e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:18 +0000
Subject: [PATCH 13/21] fix: look for omitempty fields where an embedded
 pointer points to

The emptiness of the fields of an embedded pointer was read from the
memory around the pointer itself.
---
 codec.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/codec.go b/codec.go
index 8f932b2..a2f3989 100644
--- a/codec.go
+++ b/codec.go
@@ -501,6 +501,13 @@ func constructEmbeddedStructPointerDecodeFunc(t reflect.Type, unexported bool, o
 	}
 }
 
+func constructEmbeddedStructPointerEmptyFunc(offset uintptr, empty emptyFunc) emptyFunc {
+	return func(p unsafe.Pointer) bool {
+		p = *(*unsafe.Pointer)(p)
+		return p == nil || empty(unsafe.Pointer(uintptr(p)+offset))
+	}
+}
+
 type embeddedField struct {
 	index      int
 	offset     uintptr
@@ -619,6 +626,7 @@ func appendStructFields(fields []structField, t reflect.Type, offset uintptr, se
 		}
 
 		if embfield.pointer {
+			subfield.empty = constructEmbeddedStructPointerEmptyFunc(subfield.offset, subfield.empty)
 			subfield.codec = constructEmbeddedStructPointerCodec(embfield.subtype.typ, embfield.unexported, subfield.offset, subfield.codec)
 			subfield.offset = embfield.offset
 		} else {
-- 
2.43.0


From 02fe72210dcd5274e10f01b806618a00a5009ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:09 +0000
Subject: [PATCH 14/21] fix: recognize every type stored inline in interfaces

Arrays of one pointer or map, and structs of one such field next to
fields of size zero, were encoded from the memory they point to.
---
 codec.go | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/codec.go b/codec.go
index a2f3989..332ce60 100644
--- a/codec.go
+++ b/codec.go
@@ -834,17 +834,15 @@ func align(align, size uintptr) uintptr {
 	return size
 }
 
+// inlined reports whether values of type t are stored in the data word of an
+// interface, instead of being pointed to by it.
 func inlined(t reflect.Type) bool {
-	switch t.Kind() {
-	case reflect.Pointer:
-		return true
-	case reflect.Map:
-		return true
-	case reflect.Struct:
-		return t.NumField() == 1 && inlined(t.Field(0).Type)
-	default:
+	if t.Kind() == reflect.Interface {
 		return false
 	}
+	// The zero value of such a type is a nil data word.
+	x := reflect.Zero(t).Interface()
+	return (*iface)(unsafe.Pointer(&x)).ptr == nil
 }
 
 func isValidTag(s string) bool {
-- 
2.43.0


From e32e73f19837c5f33b92d3b4f3401eb872382228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:13 +0000
Subject: [PATCH 15/21] fix: maps with text keys of pointer types, or of
 half-implemented ones

Keys which implement only one of encoding.TextMarshaler and
encoding.TextUnmarshaler, and keys of pointer types, made the encoder or
the decoder panic. A nil key is the empty string, as in encoding/json.
---
 codec.go | 124 +++++++++++++++++++++++++++++++++++--------------------
 1 file changed, 79 insertions(+), 45 deletions(-)

diff --git a/codec.go b/codec.go
index 332ce60..e296ea3 100644
--- a/codec.go
+++ b/codec.go
@@ -352,67 +352,101 @@ func constructMapCodec(t reflect.Type, seen map[reflect.Type]*structType) codec
 	kc := codec{}
 	vc := constructCodec(v, seen, false)
 
-	if k.Implements(textMarshalerType) || reflect.PointerTo(k).Implements(textUnmarshalerType) {
-		kc.encode = constructTextMarshalerEncodeFunc(k, false)
-		kc.decode = constructTextUnmarshalerDecodeFunc(k, true)
+	switch k.Kind() {
+	case reflect.String:
+		kc.encode = encoder.encodeKey
+		kc.decode = decoder.decodeString
 
 		sortKeys = func(keys []reflect.Value) {
-			sort.Slice(keys, func(i, j int) bool {
-				// This is a performance abomination but the use case is rare
-				// enough that it shouldn't be a problem in practice.
-				tm1, _ := keys[i].Interface().(encoding.TextMarshaler)
-				tm2, _ := keys[j].Interface().(encoding.TextMarshaler)
-				k1, _ := tm1.MarshalText()
-				k2, _ := tm2.MarshalText()
-				return string(k1) < string(k2)
-			})
+			sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
 		}
-	} else {
-		switch k.Kind() {
-		case reflect.String:
-			kc.encode = encoder.encodeKey
-			kc.decode = decoder.decodeString
-
-			sortKeys = func(keys []reflect.Value) {
-				sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
-			}
 
-		case reflect.Int,
-			reflect.Int8,
-			reflect.Int16,
-			reflect.Int32,
-			reflect.Int64:
-			kc = constructStringCodec(k, seen, false)
+	case reflect.Int,
+		reflect.Int8,
+		reflect.Int16,
+		reflect.Int32,
+		reflect.Int64:
+		kc = constructStringCodec(k, seen, false)
 
-			sortKeys = func(keys []reflect.Value) {
-				sort.Slice(keys, func(i, j int) bool { return intStringsAreSorted(keys[i].Int(), keys[j].Int()) })
-			}
+		sortKeys = func(keys []reflect.Value) {
+			sort.Slice(keys, func(i, j int) bool { return intStringsAreSorted(keys[i].Int(), keys[j].Int()) })
+		}
 
-		case reflect.Uint,
-			reflect.Uintptr,
-			reflect.Uint8,
-			reflect.Uint16,
-			reflect.Uint32,
-			reflect.Uint64:
-			kc = constructStringCodec(k, seen, false)
+	case reflect.Uint,
+		reflect.Uintptr,
+		reflect.Uint8,
+		reflect.Uint16,
+		reflect.Uint32,
+		reflect.Uint64:
+		kc = constructStringCodec(k, seen, false)
 
-			sortKeys = func(keys []reflect.Value) {
-				sort.Slice(keys, func(i, j int) bool { return uintStringsAreSorted(keys[i].Uint(), keys[j].Uint()) })
-			}
+		sortKeys = func(keys []reflect.Value) {
+			sort.Slice(keys, func(i, j int) bool { return uintStringsAreSorted(keys[i].Uint(), keys[j].Uint()) })
+		}
+	}
 
-		default:
-			return constructUnsupportedTypeCodec(t)
+	// A type may implement only one of the two interfaces.
+	if k.Implements(textMarshalerType) {
+		kc.encode = constructTextMarshalerKeyEncodeFunc(k)
+
+		sortKeys = func(keys []reflect.Value) {
+			sort.Slice(keys, func(i, j int) bool {
+				// This is a performance abomination but the use case is rare
+				// enough that it shouldn't be a problem in practice.
+				return textKey(keys[i]) < textKey(keys[j])
+			})
 		}
 	}
 
+	if reflect.PointerTo(k).Implements(textUnmarshalerType) {
+		kc.decode = constructTextUnmarshalerDecodeFunc(k, true)
+	}
+
+	if inlined(k) && kc.encode != nil {
+		kc.encode = constructInlineValueEncodeFunc(kc.encode)
+	}
+
 	if inlined(v) {
 		vc.encode = constructInlineValueEncodeFunc(vc.encode)
 	}
 
-	return codec{
-		encode: constructMapEncodeFunc(t, kc.encode, vc.encode, sortKeys),
-		decode: constructMapDecodeFunc(t, kc.decode, vc.decode),
+	c := constructUnsupportedTypeCodec(t)
+	if kc.encode != nil {
+		c.encode = constructMapEncodeFunc(t, kc.encode, vc.encode, sortKeys)
+	}
+	if kc.decode != nil {
+		c.decode = constructMapDecodeFunc(t, kc.decode, vc.decode)
+	}
+	return c
+}
+
+// constructTextMarshalerKeyEncodeFunc returns the function encoding map keys of
+// the type t. A nil key is the empty string, like in the encoding/json package.
+func constructTextMarshalerKeyEncodeFunc(t reflect.Type) encodeFunc {
+	encode := constructTextMarshalerEncodeFunc(t, false)
+	switch t.Kind() {
+	case reflect.Pointer, reflect.Interface:
+		return func(e encoder, b []byte, p unsafe.Pointer) ([]byte, error) {
+			if reflect.NewAt(t, p).Elem().IsNil() {
+				return append(b, '"', '"'), nil
+			}
+			return encode(e, b, p)
+		}
+	}
+	return encode
+}
+
+// textKey returns the text which represents the map key k.
+func textKey(k reflect.Value) string {
+	switch k.Kind() {
+	case reflect.Pointer, reflect.Interface:
+		if k.IsNil() {
+			return ""
+		}
 	}
+	tm, _ := k.Interface().(encoding.TextMarshaler)
+	b, _ := tm.MarshalText()
+	return string(b)
 }
 
 func constructMapEncodeFunc(t reflect.Type, encodeKey, encodeValue encodeFunc, sortKeys sortFunc) encodeFunc {
-- 
2.43.0


From aa8978fcb5f10f7630bef708e563e90000f05e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:16 +0000
Subject: [PATCH 16/21] fix: keep escape codes out of quoted numbers and color
 every key as one

Integer map keys and fields with the ",string" option were quoted
together with their escape codes, which are not part of the value, and
text keys had the TextMarshaler color instead of Key.
---
 encode.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index e9406e0..ed311c1 100644
--- a/encode.go
+++ b/encode.go
@@ -278,6 +278,12 @@ func (e encoder) doEncodeString(b []byte, p unsafe.Pointer) ([]byte, error) {
 }
 
 func (e encoder) encodeToString(b []byte, p unsafe.Pointer, encode encodeFunc) ([]byte, error) {
+	clrs := e.clrs
+	e.clrs = nil // escape codes must not end up in the string
+	if clrs != nil {
+		b = append(b, clrs.String...)
+	}
+
 	i := len(b)
 
 	b, err := encode(e, b, p)
@@ -293,7 +299,11 @@ func (e encoder) encodeToString(b []byte, p unsafe.Pointer, encode encodeFunc) (
 	}
 
 	n := copy(b[i:], b[j:])
-	return b[:i+n], nil
+	b = b[:i+n]
+	if clrs != nil {
+		b = append(b, ansiReset...)
+	}
+	return b, nil
 }
 
 func (e encoder) encodeBytes(b []byte, p unsafe.Pointer) ([]byte, error) {
@@ -420,6 +430,9 @@ func (e encoder) encodeMap(b []byte, p unsafe.Pointer, t reflect.Type, encodeKey
 		return e.clrs.appendNull(b), nil
 	}
 
+	plain := e
+	plain.clrs = nil // keys are wrapped in the Key color, whatever their type
+
 	keys := m.MapKeys()
 	if sortKeys != nil && (e.flags&SortMapKeys) != 0 {
 		sortKeys(keys)
@@ -443,9 +456,15 @@ func (e encoder) encodeMap(b []byte, p unsafe.Pointer, t reflect.Type, encodeKey
 			}
 
 			b = e.indentr.appendIndent(b)
-			if b, err = encodeKey(e, b, (*iface)(unsafe.Pointer(&k)).ptr); err != nil {
+			if e.clrs != nil {
+				b = append(b, e.clrs.Key...)
+			}
+			if b, err = encodeKey(plain, b, (*iface)(unsafe.Pointer(&k)).ptr); err != nil {
 				return b[:start], err
 			}
+			if e.clrs != nil {
+				b = append(b, ansiReset...)
+			}
 
 			b = e.clrs.appendPunc(b, ':')
 			b = e.indentr.appendByte(b, ' ')
-- 
2.43.0


From e63256733fba3a19f8bc57511a62855180655347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:41 +0000
Subject: [PATCH 17/21] fix: check the whole RawMessage

Anything after its first value was dropped, and white space before it was
an error. A trusted message which is malformed but made of valid tokens
was re-arranged instead of being passed through.
---
 encode.go | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/encode.go b/encode.go
index ed311c1..cf8faac 100644
--- a/encode.go
+++ b/encode.go
@@ -815,10 +815,9 @@ func (e encoder) encodeUnsupportedTypeError(b []byte, _ unsafe.Pointer, t reflec
 // which reordered keys nondeterministically; see issue #19), and it allows the
 // individual tokens (keys, strings, numbers, etc.) to be colorized.
 //
-// When TrustRawMessage is set the message bytes are emitted without an upfront
-// validity check. If such a message turns out to be malformed and cannot be
-// tokenized, encodeRawMessage honors the "trust" contract by emitting the raw
-// bytes verbatim (uncolorized) rather than returning an error.
+// A message which is not one well-formed JSON value is an error, unless
+// TrustRawMessage is set: encodeRawMessage then honors the "trust" contract by
+// emitting the raw bytes verbatim (uncolorized).
 func (e encoder) encodeRawMessage(b []byte, p unsafe.Pointer) ([]byte, error) {
 	v := *(*RawMessage)(p)
 
@@ -826,25 +825,23 @@ func (e encoder) encodeRawMessage(b []byte, p unsafe.Pointer) ([]byte, error) {
 		return e.clrs.appendNull(b), nil
 	}
 
-	trusted := (e.flags & TrustRawMessage) != 0
-
-	s := []byte(v)
-	if !trusted {
-		var err error
-		s, _, err = parseValue(v)
-		if err != nil {
-			return b, &UnsupportedValueError{Value: reflect.ValueOf(v), Str: err.Error()}
+	s, r, err := parseValue(skipSpaces(v))
+	if err == nil {
+		if r = skipSpaces(r); len(r) != 0 {
+			err = syntaxError(r, "invalid character '%c' after top-level value", r[0])
 		}
 	}
-
-	b, err := e.appendRawMessageTokens(b, s)
-	if err != nil && trusted {
-		// The message was trusted but is not well-formed JSON. Per the
-		// TrustRawMessage contract, emit the bytes verbatim without validation
-		// or colorization.
-		return e.appendRawMessageVerbatim(b, s)
+	if err != nil {
+		if (e.flags & TrustRawMessage) != 0 {
+			// The message was trusted but is not well-formed JSON. Per the
+			// TrustRawMessage contract, emit the bytes verbatim without
+			// validation or colorization.
+			return e.appendRawMessageVerbatim(b, v)
+		}
+		return b, &UnsupportedValueError{Value: reflect.ValueOf(v), Str: err.Error()}
 	}
-	return b, err
+
+	return e.appendRawMessageTokens(b, s)
 }
 
 // appendRawMessageVerbatim appends a (possibly malformed) trusted RawMessage to
-- 
2.43.0


From 8cbcbbfb26804abda692c7c21c9a2d1434448f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:45 +0000
Subject: [PATCH 18/21] fix: leave the indentation as it was when encoding
 fails

An Encoder or Indenter used again after an error indented everything by
the levels that were open when the error occurred.
---
 json.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/json.go b/json.go
index bc94082..0b2d38c 100644
--- a/json.go
+++ b/json.go
@@ -136,8 +136,17 @@ func Append(b []byte, x interface{}, flags AppendFlags, clrs *Colors, indentr *I
 		c = constructCachedCodec(t, cache)
 	}
 
+	depth := 0
+	if indentr != nil {
+		depth = indentr.depth
+	}
+
 	b, err := c.encode(encoder{flags: flags, clrs: clrs, indentr: indentr}, b, p)
 	runtime.KeepAlive(x)
+	if err != nil && indentr != nil {
+		// The error may have been returned from within arrays and objects.
+		indentr.depth = depth
+	}
 	return b, err
 }
 
-- 
2.43.0


From d6a8bf1a86d97b8be0e41facef075ccef0a4bd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:46 +0000
Subject: [PATCH 19/21] fix: match names outside of ASCII regardless of case

Field names were lowered and object keys folded to the next equivalent
rune, so that keys outside of ASCII only matched by chance.
---
 codec.go |  2 +-
 parse.go | 13 ++++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/codec.go b/codec.go
index e296ea3..abebf64 100644
--- a/codec.go
+++ b/codec.go
@@ -491,7 +491,7 @@ func constructStructType(t reflect.Type, seen map[reflect.Type]*structType, canA
 
 		for i := range st.fields {
 			f := &st.fields[i]
-			s := strings.ToLower(f.name)
+			s := string(appendToLower(nil, []byte(f.name)))
 			st.fieldsIndex[f.name] = f
 			// When there is ambiguity because multiple fields have the same
 			// case-insensitive representation, the first field must win.
diff --git a/parse.go b/parse.go
index 71e3de5..f7af68c 100644
--- a/parse.go
+++ b/parse.go
@@ -725,9 +725,16 @@ func appendToLower(b, s []byte) []byte {
 	return b
 }
 
+// foldRune returns the same lower case rune for all runes which are equal under
+// simple case folding, and other runes unchanged.
 func foldRune(r rune) rune {
-	if r = unicode.SimpleFold(r); 'A' <= r && r <= 'Z' {
-		r += 'a' - 'A'
+	// SimpleFold cycles through the equivalent runes in increasing order.
+	r2 := unicode.SimpleFold(r)
+	for r2 > r {
+		r, r2 = r2, unicode.SimpleFold(r2)
 	}
-	return r
+	if r2 != r {
+		r2 = unicode.ToLower(r2)
+	}
+	return r2
 }
-- 
2.43.0


From 0dd75a9f833f417da75de0ec00ce959e59777bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:49 +0000
Subject: [PATCH 20/21] fix: never colorize the output file of jc

IsColorTerminal is true for any writer when FORCE_COLOR is set.
---
 cmd/jc/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/jc/main.go b/cmd/jc/main.go
index 4b6061e..3c1dec0 100644
--- a/cmd/jc/main.go
+++ b/cmd/jc/main.go
@@ -121,7 +121,8 @@ func doMain() error {
 
 	var enc *json.Encoder
 
-	if flagColorize != nil && *flagColorize && json.IsColorTerminal(out) {
+	// Output to a file is never colorized, not even if FORCE_COLOR is set.
+	if flagColorize != nil && *flagColorize && out == os.Stdout && json.IsColorTerminal(out) {
 		outFile, _ := out.(*os.File)
 		out = colorable.NewColorable(outFile) // colorable is needed for Windows
 		enc = json.NewEncoder(out)
-- 
2.43.0


From d8e23b7f7abb9dd461b7c1b2d1971c980d80d12d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:05 +0000
Subject: [PATCH 21/21] fix: return the writer's error from Encoder.Encode

It was only returned by the calls after the one which failed to write.
---
 json.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json.go b/json.go
index 0b2d38c..6a02bea 100644
--- a/json.go
+++ b/json.go
@@ -420,8 +420,8 @@ func (enc *Encoder) Encode(v interface{}) error {
 	buf.data = append(buf.data, '\n')
 	b := buf.data
 
-	if _, err2 := enc.writer.Write(b); err2 != nil {
-		enc.err = err2
+	if _, err = enc.writer.Write(b); err != nil {
+		enc.err = err
 	}
 
 	encoderBufferPool.Put(buf)
-- 
2.43.0

