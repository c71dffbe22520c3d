From e1f001c441e120c9888ad34c2d8cb04ef666c6a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:29 +0000
Subject: [PATCH 01/13] fix: encode values held by interfaces that have methods

---
 encode.go      | 12 +++++++++++-
 instruction.go |  3 +++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/encode.go b/encode.go
index 7525b1f..c56d595 100644
--- a/encode.go
+++ b/encode.go
@@ -62,8 +62,18 @@ func encodeFloat64(p unsafe.Pointer, dst []byte, _ encOpts) ([]byte, error) {
 	return appendFloat(dst, *(*float64)(p), 64)
 }
 
+// encodeNonEmptyInterface is similar to encodeInterface
+// but for interfaces that have methods, the memory layout
+// of which differs from that of the empty interface.
+func encodeNonEmptyInterface(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
+	return appendInterface(*(*interface{ M() })(p), dst, opts)
+}
+
 func encodeInterface(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
-	v := *(*interface{})(p)
+	return appendInterface(*(*interface{})(p), dst, opts)
+}
+
+func appendInterface(v interface{}, dst []byte, opts encOpts) ([]byte, error) {
 	if v == nil {
 		return append(dst, "null"...), nil
 	}
diff --git a/instruction.go b/instruction.go
index 138d7d2..99dd39f 100644
--- a/instruction.go
+++ b/instruction.go
@@ -99,6 +99,9 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 	}
 	switch t.Kind() {
 	case reflect.Interface:
+		if t.NumMethod() != 0 {
+			return encodeNonEmptyInterface
+		}
 		return encodeInterface
 	case reflect.Struct:
 		return newStructInstr(t, canAddr)
-- 
2.43.0


From e659b663bb80458705895dd18f96501f80564f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:58 +0000
Subject: [PATCH 02/13] fix: pass the actual receiver to the methods of
 pointer-shaped types

---
 encode.go | 2 +-
 types.go  | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index c56d595..22d3e70 100644
--- a/encode.go
+++ b/encode.go
@@ -681,7 +681,7 @@ func encodeMarshaler(
 			i = *(*interface{ M() })(p)
 		}
 	} else {
-		i = packEface(p, t, t.Kind() == reflect.Ptr && !canAddr)
+		i = packEface(p, t, isInlined(t) && !canAddr)
 	}
 	return fn(i, dst, opts, t)
 }
diff --git a/types.go b/types.go
index b4aaab4..79ba260 100644
--- a/types.go
+++ b/types.go
@@ -66,12 +66,18 @@ func isInteger(t reflect.Type) bool {
 	}
 }
 
+// isInlined returns whether a value of type t is
+// pointer-shaped, in which case an interface stores
+// the value itself in its data word, and not a pointer
+// to the value.
 func isInlined(t reflect.Type) bool {
 	switch t.Kind() {
-	case reflect.Ptr, reflect.Map:
+	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.Func, reflect.UnsafePointer:
 		return true
 	case reflect.Struct:
 		return t.NumField() == 1 && isInlined(t.Field(0).Type)
+	case reflect.Array:
+		return t.Len() == 1 && isInlined(t.Elem())
 	default:
 		return false
 	}
-- 
2.43.0


From 33040c707fd80ddafd81c549f785391b68cff02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:59 +0000
Subject: [PATCH 03/13] fix: escape the text returned by MarshalText

---
 encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index 22d3e70..61f0979 100644
--- a/encode.go
+++ b/encode.go
@@ -726,13 +726,13 @@ func encodeJSONMarshaler(i interface{}, dst []byte, opts encOpts, t reflect.Type
 	return appendCompactJSON(dst, b, !opts.flags.has(noHTMLEscaping))
 }
 
-func encodeTextMarshaler(i interface{}, dst []byte, _ encOpts, t reflect.Type) ([]byte, error) {
+func encodeTextMarshaler(i interface{}, dst []byte, opts encOpts, t reflect.Type) ([]byte, error) {
 	b, err := i.(encoding.TextMarshaler).MarshalText()
 	if err != nil {
 		return dst, &MarshalerError{t, err, marshalerText}
 	}
 	dst = append(dst, '"')
-	dst = append(dst, b...)
+	dst = appendEscapedBytes(dst, b, opts)
 	dst = append(dst, '"')
 
 	return dst, nil
-- 
2.43.0


From 29ec8ac6801a5f699fbbd1ccbb8b29a7476108a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 04/13] fix: omit a leading null field without leaving a comma
 behind

---
 encode.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/encode.go b/encode.go
index 61f0979..01f310f 100644
--- a/encode.go
+++ b/encode.go
@@ -249,10 +249,6 @@ fieldLoop:
 		}
 		lastKeyOffset := len(dst)
 		dst = append(dst, nxt)
-		if nxt == '{' {
-			lastKeyOffset++
-		}
-		nxt = ','
 		dst = append(dst, key...)
 
 		var err error
@@ -261,7 +257,9 @@ fieldLoop:
 		}
 		if f.omitNullMarshaler && len(dst) > 4 && bytes.Compare(dst[len(dst)-4:], []byte("null")) == 0 {
 			dst = dst[:lastKeyOffset]
+			continue
 		}
+		nxt = ','
 	}
 	if nxt == '{' {
 		return append(dst, "{}"...), nil
-- 
2.43.0


From 82e01ee2fc18cc188ed467758e284314a8aa7795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 05/13] fix: encode nil values of a sync.Map as null

---
 encode.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/encode.go b/encode.go
index 01f310f..cf6c2fa 100644
--- a/encode.go
+++ b/encode.go
@@ -527,7 +527,7 @@ func encodeUnsortedSyncMap(sm *sync.Map, dst []byte, opts encOpts) ([]byte, erro
 		dst = append(dst, ':')
 
 		// Encode the value.
-		if dst, err = appendJSON(dst, value, opts); err != nil {
+		if dst, err = appendInterface(value, dst, opts); err != nil {
 			return false
 		}
 		n++
@@ -567,7 +567,7 @@ func encodeSortedSyncMap(sm *sync.Map, dst []byte, opts encOpts) ([]byte, error)
 		// Encode the value and store the buffer
 		// portion corresponding to the semicolon
 		// delimited key/value pair.
-		if buf.B, err = appendJSON(buf.B, value, opts); err != nil {
+		if buf.B, err = appendInterface(value, buf.B, opts); err != nil {
 			return false
 		}
 		kv.keyval = buf.B[off:len(buf.B)]
-- 
2.43.0


From 646d69959a9b8b9b8117e84a7de59a81cf392335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 06/13] fix: reject raw messages that are not valid JSON

---
 encode.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/encode.go b/encode.go
index cf6c2fa..1841a38 100644
--- a/encode.go
+++ b/encode.go
@@ -109,6 +109,11 @@ func encodeRawMessage(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error
 	if opts.flags.has(noCompact) {
 		return append(dst, v...), nil
 	}
+	if !json.Valid(v) {
+		return dst, &MarshalerError{jsonRawMessageType, &SyntaxError{
+			msg: "json: invalid value",
+		}, marshalerJSON}
+	}
 	return appendCompactJSON(dst, v, !opts.flags.has(noHTMLEscaping))
 }
 
-- 
2.43.0


From 06dd9f43707a23cce1895cf873a147244ab3f879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 07/13] fix: do not share offset sequences between sibling
 embedded structs

---
 struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/struct.go b/struct.go
index 7d51a22..34080c1 100644
--- a/struct.go
+++ b/struct.go
@@ -304,7 +304,7 @@ func scanFields(f field, fields, next []field, cnt, ncnt typeCount) ([]field, []
 				typ:      typ,
 				name:     typ.Name(),
 				index:    index,
-				embedSeq: append(f.embedSeq, seq{sf.Offset, isPtr}),
+				embedSeq: append(f.embedSeq[:len(f.embedSeq):len(f.embedSeq)], seq{sf.Offset, isPtr}),
 			})
 		}
 	}
-- 
2.43.0


From fabefa87edd19136daff70aa67ed8a74c15a2ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 08/13] fix: call AppendJSON and AppendJSONContext for elements
 of byte kind

---
 instruction.go | 14 ++++----------
 types.go       |  9 +++++++++
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/instruction.go b/instruction.go
index 99dd39f..51dea0d 100644
--- a/instruction.go
+++ b/instruction.go
@@ -339,11 +339,8 @@ func newArrayInstr(t reflect.Type, canAddr bool) instruction {
 	// Byte arrays does not encode as a string
 	// by default, this behavior is defined by
 	// the encoder's options during marshaling.
-	if etyp.Kind() == reflect.Uint8 {
-		pe := reflect.PtrTo(etyp)
-		if !pe.Implements(jsonMarshalerType) && !pe.Implements(textMarshalerType) {
-			isba = true
-		}
+	if etyp.Kind() == reflect.Uint8 && !isMarshaler(reflect.PtrTo(etyp)) {
+		isba = true
 	}
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 		return encodeArray(p, dst, opts, ins, size, t.Len(), isba)
@@ -353,11 +350,8 @@ func newArrayInstr(t reflect.Type, canAddr bool) instruction {
 func newSliceInstr(t reflect.Type) instruction {
 	etyp := t.Elem()
 
-	if etyp.Kind() == reflect.Uint8 {
-		pe := reflect.PtrTo(etyp)
-		if !pe.Implements(jsonMarshalerType) && !pe.Implements(textMarshalerType) {
-			return encodeByteSlice
-		}
+	if etyp.Kind() == reflect.Uint8 && !isMarshaler(reflect.PtrTo(etyp)) {
+		return encodeByteSlice
 	}
 	// Slice elements are always addressable.
 	// see https://golang.org/pkg/reflect/#Value.CanAddr
diff --git a/types.go b/types.go
index 79ba260..24b25eb 100644
--- a/types.go
+++ b/types.go
@@ -83,6 +83,15 @@ func isInlined(t reflect.Type) bool {
 	}
 }
 
+// isMarshaler returns whether t has any of the methods
+// that take over the encoding of its values.
+func isMarshaler(t reflect.Type) bool {
+	return t.Implements(appendMarshalerCtxType) ||
+		t.Implements(appendMarshalerType) ||
+		t.Implements(jsonMarshalerType) ||
+		t.Implements(textMarshalerType)
+}
+
 func isNilable(t reflect.Type) bool {
 	switch t.Kind() {
 	case reflect.Ptr, reflect.Interface, reflect.Slice, reflect.Map:
-- 
2.43.0


From e2235b65e7412ba679590bb16a1163c8fae67816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 09/13] fix: apply the time options to pointers to time.Time

---
 instruction.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/instruction.go b/instruction.go
index 51dea0d..3bfe4aa 100644
--- a/instruction.go
+++ b/instruction.go
@@ -91,6 +91,11 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 	if ins := newGoTypeInstr(t); ins != nil {
 		return ins
 	}
+	if t.Kind() == reflect.Ptr && t.Elem() == timeTimeType {
+		// Do not let the MarshalJSON method promoted to
+		// the pointer bypass the options for times.
+		return newPtrInstr(t, quoted)
+	}
 	if ins := newMarshalerTypeInstr(t, canAddr); ins != nil {
 		return ins
 	}
-- 
2.43.0


From af050b7c5f9a669fa8a90ad3f4260c3aca118437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:48 +0000
Subject: [PATCH 10/13] fix: treat fields reached through embedded pointers as
 addressable

---
 instruction.go |  4 +++-
 struct.go      | 11 +++++++++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/instruction.go b/instruction.go
index 3bfe4aa..4afaf19 100644
--- a/instruction.go
+++ b/instruction.go
@@ -321,7 +321,9 @@ func newStructFieldsInstr(t reflect.Type, canAddr bool) instruction {
 		// Generate instruction and empty func of the field.
 		// Only strings, floats, integers, and booleans
 		// types can be quoted.
-		f.instr = newInstruction(ftyp, canAddr, f.quoted && isBasicType(etyp))
+		// A field reached through an embedded pointer is
+		// addressable, even if the struct itself is not.
+		f.instr = newInstruction(ftyp, canAddr || f.isIndirect(), f.quoted && isBasicType(etyp))
 		if f.omitEmpty {
 			f.empty = cachedEmptyFuncOf(ftyp)
 		}
diff --git a/struct.go b/struct.go
index 34080c1..dbd28aa 100644
--- a/struct.go
+++ b/struct.go
@@ -39,6 +39,17 @@ type field struct {
 	embedSeq []seq
 }
 
+// isIndirect returns whether the field is reached
+// through at least one embedded pointer.
+func (f *field) isIndirect() bool {
+	for _, s := range f.embedSeq {
+		if s.indir {
+			return true
+		}
+	}
+	return false
+}
+
 type typeCount map[reflect.Type]int
 
 // byIndex sorts a list of fields by index sequence.
-- 
2.43.0


From a41d8b6067b4a5f35f1b601e2a3b2ee2c745713a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:41 +0000
Subject: [PATCH 11/13] fix: encode map keys with MarshalText or as integers,
 and always quoted

---
 encode.go      | 37 ++++++-------------------
 instruction.go | 75 ++++++++++++++++++++++++++++++++------------------
 2 files changed, 56 insertions(+), 56 deletions(-)

diff --git a/encode.go b/encode.go
index 1841a38..48f60d4 100644
--- a/encode.go
+++ b/encode.go
@@ -606,39 +606,18 @@ func appendSyncMapKey(dst []byte, key interface{}, opts encOpts) ([]byte, error)
 		return dst, errors.New("unsupported nil key in sync.Map")
 	}
 	kt := reflect.TypeOf(key)
-	var (
-		isStr = isString(kt)
-		isInt = isInteger(kt)
-		isTxt = kt.Implements(textMarshalerType)
-	)
-	if !isStr && !isInt && !isTxt {
+	ki := newMapKeyInstr(kt)
+	if ki == nil {
 		return dst, fmt.Errorf("unsupported key of type %s in sync.Map", kt)
 	}
+	if isInlined(kt) {
+		ki = wrapInlineInstr(ki)
+	}
 	var err error
+	dst, err = ki(unpackEface(key).word, dst, opts)
+	runtime.KeepAlive(key)
 
-	// Quotes the key if the type is not
-	// encoded with quotes by default.
-	quoted := !isStr && !isTxt
-
-	// Ensure map key precedence for keys of type
-	// string by using the encodeString function
-	// directly instead of the generic appendJSON.
-	if isStr {
-		dst, err = encodeString(unpackEface(key).word, dst, opts)
-		runtime.KeepAlive(key)
-	} else {
-		if quoted {
-			dst = append(dst, '"')
-		}
-		dst, err = appendJSON(dst, key, opts)
-	}
-	if err != nil {
-		return dst, err
-	}
-	if quoted {
-		dst = append(dst, '"')
-	}
-	return dst, nil
+	return dst, err
 }
 
 func encodeMarshaler(
diff --git a/instruction.go b/instruction.go
index 4afaf19..2517657 100644
--- a/instruction.go
+++ b/instruction.go
@@ -373,41 +373,42 @@ func newSliceInstr(t reflect.Type) instruction {
 }
 
 func newMapInstr(t reflect.Type) instruction {
-	var (
-		ki instruction
-		vi instruction
-	)
-	kt := t.Key()
-	et := t.Elem()
-
-	if !isString(kt) && !isInteger(kt) && !kt.Implements(textMarshalerType) {
+	ki := newMapKeyInstr(t.Key())
+	if ki == nil {
 		return newUnsupportedTypeInstr(t)
 	}
-	// The standard library has a strict precedence order
-	// for map key types, defined by the documentation of
-	// the json.Marshal function. That's why we bypass the
-	// newTypeInstr function if key type is string.
-	if isString(kt) {
-		ki = encodeString
-	} else {
-		ki = newInstruction(kt, false, false)
-	}
-	// Wrap the key instruction for types that
-	// do not encode with quotes by default.
-	if !isString(kt) && !kt.Implements(textMarshalerType) {
-		ki = wrapQuotedInstr(ki)
-	}
-	// See issue golang.org/issue/33675 for reference.
-	if kt.Implements(textMarshalerType) && kt.Kind() == reflect.Ptr {
-		ki = wrapTextMarshalerNilCheck(ki)
-	}
-	vi = newInstruction(et, false, false)
+	vi := newInstruction(t.Elem(), false, false)
 
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 		return encodeMap(p, dst, opts, t, ki, vi)
 	}
 }
 
+// newMapKeyInstr returns an instruction to encode map
+// keys of type t as JSON strings, or nil if the type is
+// not supported. The standard library has a strict order
+// of precedence for map key types that is defined by the
+// documentation of the json.Marshal function, regardless
+// of the other marshaling methods that t may have.
+func newMapKeyInstr(t reflect.Type) instruction {
+	switch {
+	case isString(t):
+		return encodeString
+	case t == timeTimeType || t == timeDurationType:
+		return wrapUnquotedInstr(newGoTypeInstr(t))
+	case t.Implements(textMarshalerType):
+		ki := newTextMarshalerInstr(t, false)
+		if t.Kind() == reflect.Ptr {
+			// See issue golang.org/issue/33675 for reference.
+			ki = wrapTextMarshalerNilCheck(ki)
+		}
+		return ki
+	case isInteger(t):
+		return newBasicTypeInstr(t, true)
+	}
+	return nil
+}
+
 func wrapInlineInstr(ins instruction) instruction {
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 		return ins(noescape(unsafe.Pointer(&p)), dst, opts)
@@ -426,6 +427,26 @@ func wrapQuotedInstr(ins instruction) instruction {
 	}
 }
 
+// wrapUnquotedInstr is similar to wrapQuotedInstr, but
+// does not add quotes to the output of ins if it already
+// is a JSON string.
+func wrapUnquotedInstr(ins instruction) instruction {
+	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
+		off := len(dst)
+		dst = append(dst, '"')
+		var err error
+		dst, err = ins(p, dst, opts)
+		if err != nil {
+			return dst, err
+		}
+		if len(dst) > off+1 && dst[off+1] == '"' {
+			copy(dst[off:], dst[off+1:])
+			return dst[:len(dst)-1], nil
+		}
+		return append(dst, '"'), nil
+	}
+}
+
 func wrapTextMarshalerNilCheck(ins instruction) instruction {
 	return func(p unsafe.Pointer, dst []byte, opts encOpts) ([]byte, error) {
 		if *(*unsafe.Pointer)(p) == nil {
-- 
2.43.0


From 642a19a38257948a37e22ee42d3573d6597c537c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 12/13] fix: sort map entries by the text of their keys

---
 encode.go | 32 ++++++++++++++++++++++++++++++--
 map.go    | 12 +++++++++---
 2 files changed, 39 insertions(+), 5 deletions(-)

diff --git a/encode.go b/encode.go
index 48f60d4..e4886e5 100644
--- a/encode.go
+++ b/encode.go
@@ -433,6 +433,11 @@ func encodeSortedMap(
 		buf = cachedBuffer()
 		mel *mapElems
 	)
+	// Entries are sorted by the text of their
+	// keys, not by its escaped form.
+	keyOpts := opts
+	keyOpts.flags.set(noStringEscaping)
+
 	if v := mapElemsPool.Get(); v != nil {
 		mel = v.(*mapElems)
 	} else {
@@ -443,11 +448,12 @@ func encodeSortedMap(
 
 		// Encode the key and store the buffer
 		// portion to use during sort.
-		if buf.B, err = ki(it.key, buf.B, opts); err != nil {
+		if buf.B, err = ki(it.key, buf.B, keyOpts); err != nil {
 			break
 		}
 		// Omit quotes of keys.
 		kv.key = buf.B[off+1 : len(buf.B)-1]
+		buf.B, off = appendSortedKey(buf.B, off, kv.key, opts)
 
 		// Add separator after key.
 		buf.B = append(buf.B, ':')
@@ -550,6 +556,11 @@ func encodeSortedSyncMap(sm *sync.Map, dst []byte, opts encOpts) ([]byte, error)
 		buf = cachedBuffer()
 		mel *mapElems
 	)
+	// Entries are sorted by the text of their
+	// keys, not by its escaped form.
+	keyOpts := opts
+	keyOpts.flags.set(noStringEscaping)
+
 	if v := mapElemsPool.Get(); v != nil {
 		mel = v.(*mapElems)
 	} else {
@@ -560,11 +571,12 @@ func encodeSortedSyncMap(sm *sync.Map, dst []byte, opts encOpts) ([]byte, error)
 
 		// Encode the key and store the buffer
 		// portion to use during the later sort.
-		if buf.B, err = appendSyncMapKey(buf.B, key, opts); err != nil {
+		if buf.B, err = appendSyncMapKey(buf.B, key, keyOpts); err != nil {
 			return false
 		}
 		// Omit quotes of keys.
 		kv.key = buf.B[off+1 : len(buf.B)-1]
+		buf.B, off = appendSortedKey(buf.B, off, kv.key, opts)
 
 		// Add separator after key.
 		buf.B = append(buf.B, ':')
@@ -601,6 +613,22 @@ func encodeSortedSyncMap(sm *sync.Map, dst []byte, opts encOpts) ([]byte, error)
 	return dst, err
 }
 
+// appendSortedKey appends the escaped form of a key to
+// dst, which holds the quoted text of the key as is from
+// offset off, and returns the offset of the key to use.
+func appendSortedKey(dst []byte, off int, key []byte, opts encOpts) ([]byte, int) {
+	for _, c := range key {
+		if c < ' ' || c >= utf8.RuneSelf || c == '"' || c == '\\' || c == '<' || c == '>' || c == '&' {
+			off = len(dst)
+			dst = append(dst, '"')
+			dst = appendEscapedBytes(dst, key, opts)
+			dst = append(dst, '"')
+			break
+		}
+	}
+	return dst, off
+}
+
 func appendSyncMapKey(dst []byte, key interface{}, opts encOpts) ([]byte, error) {
 	if key == nil {
 		return dst, errors.New("unsupported nil key in sync.Map")
diff --git a/map.go b/map.go
index cb54fff..d7dd229 100644
--- a/map.go
+++ b/map.go
@@ -30,9 +30,15 @@ func releaseMapElems(me *mapElems) {
 	mapElemsPool.Put(me)
 }
 
-func (m mapElems) Len() int           { return len(m.s) }
-func (m mapElems) Swap(i, j int)      { m.s[i], m.s[j] = m.s[j], m.s[i] }
-func (m mapElems) Less(i, j int) bool { return bytes.Compare(m.s[i].key, m.s[j].key) < 0 }
+func (m mapElems) Len() int      { return len(m.s) }
+func (m mapElems) Swap(i, j int) { m.s[i], m.s[j] = m.s[j], m.s[i] }
+func (m mapElems) Less(i, j int) bool {
+	if c := bytes.Compare(m.s[i].key, m.s[j].key); c != 0 {
+		return c < 0
+	}
+	// Distinct keys may have the same text.
+	return bytes.Compare(m.s[i].keyval, m.s[j].keyval) < 0
+}
 
 // hiter is the runtime representation
 // of a hashmap iteration structure.
-- 
2.43.0


From dc1cbe77a2833c16fcc3066be5cb18627259f5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:24 +0000
Subject: [PATCH 13/13] fix: support recursive types that are not structs

---
 instruction.go | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/instruction.go b/instruction.go
index 2517657..4182261 100644
--- a/instruction.go
+++ b/instruction.go
@@ -110,16 +110,28 @@ func newInstruction(t reflect.Type, canAddr, quoted bool) instruction {
 		return encodeInterface
 	case reflect.Struct:
 		return newStructInstr(t, canAddr)
+	case reflect.Map, reflect.Slice, reflect.Array, reflect.Ptr:
+		build := func() instruction { return newCompositeInstr(t, canAddr, quoted) }
+		if t.Name() != "" && !quoted {
+			// Defined types may be recursive.
+			return newRecursiveInstr(t, canAddr, build)
+		}
+		return build()
+	}
+	return newUnsupportedTypeInstr(t)
+}
+
+func newCompositeInstr(t reflect.Type, canAddr, quoted bool) instruction {
+	switch t.Kind() {
 	case reflect.Map:
 		return newMapInstr(t)
 	case reflect.Slice:
 		return newSliceInstr(t)
 	case reflect.Array:
 		return newArrayInstr(t, canAddr)
-	case reflect.Ptr:
+	default:
 		return newPtrInstr(t, quoted)
 	}
-	return newUnsupportedTypeInstr(t)
 }
 
 func newGoTypeInstr(t reflect.Type) instruction {
@@ -257,6 +269,14 @@ func newTextMarshalerInstr(t reflect.Type, hasPtr bool) instruction {
 }
 
 func newStructInstr(t reflect.Type, canAddr bool) instruction {
+	return newRecursiveInstr(t, canAddr, func() instruction {
+		return newStructFieldsInstr(t, canAddr)
+	})
+}
+
+// newRecursiveInstr returns the instruction generated by
+// build for a type that may refer to itself.
+func newRecursiveInstr(t reflect.Type, canAddr bool, build func() instruction) instruction {
 	id := fmt.Sprintf("%p-%t", typeID(t), canAddr)
 
 	if instr, ok := structInstrCache.Load(id); ok {
@@ -284,7 +304,7 @@ func newStructInstr(t reflect.Type, canAddr bool) instruction {
 	}
 	// Generate the real instruction and replace
 	// the indirect func with it.
-	ins = newStructFieldsInstr(t, canAddr)
+	ins = build()
 	wg.Done()
 	structInstrCache.Store(id, ins)
 
-- 
2.43.0

