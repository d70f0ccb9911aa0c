From 3db18ba022e6e18e2d5bcf524bc33c4ca292f3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:06 +0000
Subject: [PATCH 01/18] fix: size map values with the value codec when
 marshalling

---
 proto/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/map.go b/proto/map.go
index 38e3b8b..6c6dd19 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -77,7 +77,7 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 			val := m.Value()
 
 			keySize := keyCodec.size(key, f.keyField)
-			valSize := keyCodec.size(val, f.valField)
+			valSize := valCodec.size(val, f.valField)
 			elemSize := keySize + valSize
 
 			b = append(b, mapTag...)
-- 
2.43.0


From 263ab4604c2ef366afb27917cc7b50af5f94bbaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:16 +0000
Subject: [PATCH 02/18] fix: write nothing for an empty map

---
 proto/map.go | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/proto/map.go b/proto/map.go
index 6c6dd19..e5ac138 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -9,8 +9,6 @@ import (
 	. "github.com/RomiChan/protobuf/internal/runtime_reflect"
 )
 
-const zeroSize = 1 // sizeOfVarint(0)
-
 type mapField struct {
 	wiretag  uint64
 	keyField *structField
@@ -48,16 +46,12 @@ func mapSizeFuncOf(t reflect.Type, f *mapField) sizeFunc {
 			valSize := valCodec.size(m.Value(), f.valField)
 			n += mapTagSize + sizeOfVarint(uint64(keySize+valSize)) + keySize + valSize
 		}
-		if n == 0 {
-			n = mapTagSize + zeroSize
-		}
 		return n
 	}
 }
 
 func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 	mapTag := appendVarint(nil, f.wiretag)
-	zero := append(mapTag, 0)
 	keyCodec := f.keyField.codec
 	valCodec := f.valField.codec
 
@@ -67,8 +61,6 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 		}
 		p = *(*unsafe.Pointer)(p)
 
-		origLen := len(b)
-
 		m := MapIter{}
 		defer m.Done()
 
@@ -86,9 +78,6 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 			b = valCodec.encode(b, val, f.valField)
 		}
 
-		if len(b) == origLen {
-			b = append(b, zero...)
-		}
 		return b
 	}
 }
-- 
2.43.0


From 28fb6e53cd754a32a8247211f6a4f7c788f5551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:12 +0000
Subject: [PATCH 03/18] fix: decode zigzag map keys and values as zigzag

---
 proto/map.go    | 15 +++++++++++----
 proto/walker.go |  2 ++
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/proto/map.go b/proto/map.go
index e5ac138..ceab3ba 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -13,6 +13,9 @@ type mapField struct {
 	wiretag  uint64
 	keyField *structField
 	valField *structField
+
+	keyZigzag bool
+	valZigzag bool
 }
 
 func (w *walker) mapCodec(t reflect.Type, f *mapField) *codec {
@@ -82,14 +85,18 @@ func mapEncodeFuncOf(t reflect.Type, f *mapField) encodeFunc {
 	}
 }
 
-func formatWireTag(wire uint64) reflect.StructTag {
-	return reflect.StructTag(fmt.Sprintf(`protobuf:"%s,%d,opt"`, wireType(wire&7), wire>>3))
+func formatWireTag(wire uint64, zigzag bool) reflect.StructTag {
+	typ := wireType(wire & 7).String()
+	if zigzag {
+		typ = "zigzag64"
+	}
+	return reflect.StructTag(fmt.Sprintf(`protobuf:"%s,%d,opt"`, typ, wire>>3))
 }
 
 func mapDecodeFuncOf(t reflect.Type, m *mapField, w *walker) decodeFunc {
 	structType := reflect.StructOf([]reflect.StructField{
-		{Name: "Key", Type: t.Key(), Tag: formatWireTag(m.keyField.wiretag)},
-		{Name: "Elem", Type: t.Elem(), Tag: formatWireTag(m.valField.wiretag)},
+		{Name: "Key", Type: t.Key(), Tag: formatWireTag(m.keyField.wiretag, m.keyZigzag)},
+		{Name: "Elem", Type: t.Elem(), Tag: formatWireTag(m.valField.wiretag, m.valZigzag)},
 	})
 
 	info := w.structInfo(structType)
diff --git a/proto/walker.go b/proto/walker.go
index 32a4df9..12ad419 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -241,12 +241,14 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				keyField := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				keyField.tagsize = sizeOfVarint(keyField.wiretag)
 				conf.zigzag = t.zigzag
+				m.keyZigzag = t.zigzag
 				keyField.codec = w.codec(key, conf)
 
 				t, _ = parseStructTag(f.Tag.Get("protobuf_val"))
 				valFiled := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				valFiled.tagsize = sizeOfVarint(valFiled.wiretag)
 				conf.zigzag = t.zigzag
+				m.valZigzag = t.zigzag
 				valFiled.codec = w.codec(val, conf)
 
 				m.keyField = keyField
-- 
2.43.0


From efc39731d5b409aec90b001624c2ee2f814e7968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 04/18] fix: honour fixed32/fixed64 tags on signed, repeated
 and map fields

---
 proto/struct.go |  4 ++++
 proto/walker.go | 32 ++++++++++++++++++++++++++++++--
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/proto/struct.go b/proto/struct.go
index 9b9ce5b..39d7a77 100644
--- a/proto/struct.go
+++ b/proto/struct.go
@@ -156,6 +156,10 @@ type structTag struct {
 	zigzag      bool
 }
 
+func (t *structTag) fixed() bool {
+	return t.wireType == fixed32 || t.wireType == fixed64
+}
+
 func parseStructTag(tag string) (structTag, error) {
 	t := structTag{
 		// version:    2,
diff --git a/proto/walker.go b/proto/walker.go
index 12ad419..db41f4f 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -23,6 +23,7 @@ type walker struct {
 
 type walkerConfig struct {
 	zigzag   bool
+	fixed    bool
 	required bool
 }
 
@@ -40,15 +41,27 @@ func (w *walker) codec(t reflect.Type, conf *walkerConfig) *codec {
 		if conf.zigzag {
 			return &zigzag32Codec
 		}
+		if conf.fixed {
+			return &fixed32Codec
+		}
 		return &int32Codec
 	case reflect.Int64:
 		if conf.zigzag {
 			return &zigzag64Codec
 		}
+		if conf.fixed {
+			return &fixed64Codec
+		}
 		return &int64Codec
 	case reflect.Uint32:
+		if conf.fixed {
+			return &fixed32Codec
+		}
 		return &uint32Codec
 	case reflect.Uint64:
+		if conf.fixed {
+			return &fixed64Codec
+		}
 		return &uint64Codec
 	case reflect.Float32:
 		return &float32Codec
@@ -168,7 +181,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 			switch f.Type {
 			case optionFloat32Type:
 				field.codec = &float32OptionCodec
-			case optionUInt32Type:
+			case optionInt32Type, optionUInt32Type:
 				field.codec = &fixed32OptionCodec
 			}
 			switch baseKindOf(f.Type) {
@@ -179,7 +192,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 			}
 		case fixed64:
 			switch f.Type {
-			case optionUInt64Type:
+			case optionInt64Type, optionUInt64Type:
 				field.codec = &fixed64OptionCodec
 			case optionFloat64Type:
 				field.codec = &float64OptionCodec
@@ -216,6 +229,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 		if field.codec == nil {
 			conf := &walkerConfig{
 				zigzag: t.zigzag,
+				fixed:  t.fixed(),
 				// required: t.required,
 			}
 			switch baseKindOf(f.Type) {
@@ -241,6 +255,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				keyField := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				keyField.tagsize = sizeOfVarint(keyField.wiretag)
 				conf.zigzag = t.zigzag
+				conf.fixed = t.fixed()
 				m.keyZigzag = t.zigzag
 				keyField.codec = w.codec(key, conf)
 
@@ -248,6 +263,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				valFiled := &structField{wiretag: uint64(t.fieldNumber)<<3 | uint64(t.wireType)}
 				valFiled.tagsize = sizeOfVarint(valFiled.wiretag)
 				conf.zigzag = t.zigzag
+				conf.fixed = t.fixed()
 				m.valZigzag = t.zigzag
 				valFiled.codec = w.codec(val, conf)
 
@@ -310,15 +326,27 @@ func (w *walker) required(t reflect.Type, conf *walkerConfig) *codec {
 		if conf.zigzag {
 			return &zigzag32RequiredCodec
 		}
+		if conf.fixed {
+			return &fixed32RequiredCodec
+		}
 		return &int32RequiredCodec
 	case reflect.Int64:
 		if conf.zigzag {
 			return &zigzag64RequiredCodec
 		}
+		if conf.fixed {
+			return &fixed64RequiredCodec
+		}
 		return &int64RequiredCodec
 	case reflect.Uint32:
+		if conf.fixed {
+			return &fixed32RequiredCodec
+		}
 		return &uint32RequiredCodec
 	case reflect.Uint64:
+		if conf.fixed {
+			return &fixed64RequiredCodec
+		}
 		return &uint64RequiredCodec
 	case reflect.Float32:
 		return &float32RequiredCodec
-- 
2.43.0


From 9d6f593b43cb4ce6ce6693e18f929715d83e0486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 05/18] fix: dereference pointers to fixed32/fixed64 scalars

---
 proto/walker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proto/walker.go b/proto/walker.go
index db41f4f..869230c 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -184,7 +184,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 			case optionInt32Type, optionUInt32Type:
 				field.codec = &fixed32OptionCodec
 			}
-			switch baseKindOf(f.Type) {
+			switch f.Type.Kind() {
 			case reflect.Uint32:
 				field.codec = &fixed32Codec
 			case reflect.Float32:
@@ -197,7 +197,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 			case optionFloat64Type:
 				field.codec = &float64OptionCodec
 			}
-			switch baseKindOf(f.Type) {
+			switch f.Type.Kind() {
 			case reflect.Uint64:
 				field.codec = &fixed64Codec
 			case reflect.Float64:
-- 
2.43.0


From 0fefd10f03cebba1c1a580d6611f1df876eaf5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 06/18] fix: do not share field codecs between fields of the
 same Go type

---
 proto/map.go    | 2 --
 proto/slice.go  | 7 +------
 proto/walker.go | 3 +--
 3 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/proto/map.go b/proto/map.go
index ceab3ba..47d3da2 100644
--- a/proto/map.go
+++ b/proto/map.go
@@ -20,8 +20,6 @@ type mapField struct {
 
 func (w *walker) mapCodec(t reflect.Type, f *mapField) *codec {
 	m := new(codec)
-	w.codecs[t] = m
-
 	m.size = mapSizeFuncOf(t, f)
 	m.encode = mapEncodeFuncOf(t, f)
 	m.decode = mapDecodeFuncOf(t, f, w)
diff --git a/proto/slice.go b/proto/slice.go
index a3bc710..6b29459 100644
--- a/proto/slice.go
+++ b/proto/slice.go
@@ -10,16 +10,11 @@ import (
 
 var sliceMap sync.Map // map[*codec]*codec for slice
 
-func sliceCodecOf(t reflect.Type, c *codec, w *walker) *codec {
+func sliceCodecOf(t reflect.Type, c *codec) *codec {
 	if loaded, ok := sliceMap.Load(c); ok {
 		return loaded.(*codec)
 	}
-	if w.codecs[t] != nil {
-		return w.codecs[t]
-	}
 	s := new(codec)
-	w.codecs[t] = s
-
 	s.size = sliceSizeFuncOf(t, c)
 	s.encode = sliceEncodeFuncOf(t, c)
 	s.decode = sliceDecodeFuncOf(t, c)
diff --git a/proto/walker.go b/proto/walker.go
index 869230c..6df6870 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -243,7 +243,7 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 				} else {
 					conf.required = true
 					field.codec = w.codec(elem, conf)
-					field.codec = sliceCodecOf(f.Type, field.codec, w)
+					field.codec = sliceCodecOf(f.Type, field.codec)
 				}
 
 			case reflect.Map:
@@ -306,7 +306,6 @@ func (w *walker) pointer(t reflect.Type, conf *walkerConfig) *codec {
 	}
 	// common value
 	p := new(codec)
-	w.codecs[t] = p
 	c := w.codec(t.Elem(), conf)
 	p.size = pointerSizeFuncOf(t, c)
 	p.encode = pointerEncodeFuncOf(t, c)
-- 
2.43.0


From 5f9c23c4aac471da9bbf30de99b134ccc0458375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:08 +0000
Subject: [PATCH 07/18] fix: write non-nil pointers to zero scalars

---
 proto/walker.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/proto/walker.go b/proto/walker.go
index 6df6870..b20c5b0 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -304,9 +304,9 @@ func (w *walker) pointer(t reflect.Type, conf *walkerConfig) *codec {
 	case reflect.Struct:
 		return w.structCodec(t)
 	}
-	// common value
+	// common value, a non-nil pointer is present even if it points to zero
 	p := new(codec)
-	c := w.codec(t.Elem(), conf)
+	c := w.required(t.Elem(), conf)
 	p.size = pointerSizeFuncOf(t, c)
 	p.encode = pointerEncodeFuncOf(t, c)
 	p.decode = pointerDecodeFuncOf(t, c)
-- 
2.43.0


From 9f73b704940d8399341070f92dbd283d36603f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 08/18] fix: decode multi-byte bool varints

---
 proto/normal_codec.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/proto/normal_codec.go b/proto/normal_codec.go
index 8fd393b..5033c68 100644
--- a/proto/normal_codec.go
+++ b/proto/normal_codec.go
@@ -1,7 +1,6 @@
 package proto
 
 import (
-	"io"
 	"math"
 	"unsafe"
 )
@@ -32,11 +31,9 @@ func encodeBool(b []byte, p unsafe.Pointer, f *structField) []byte {
 }
 
 func decodeBool(b []byte, p unsafe.Pointer) (int, error) {
-	if len(b) == 0 {
-		return 0, io.ErrUnexpectedEOF
-	}
-	*(*bool)(p) = b[0] != 0
-	return 1, nil
+	v, n, err := decodeVarint(b)
+	*(*bool)(p) = v != 0
+	return n, err
 }
 
 var bytesCodec = codec{
-- 
2.43.0


From 933b5136a928115c412412fd0a24b44febae9cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:11 +0000
Subject: [PATCH 09/18] fix: use only the low 32 bits of sint32 varints

---
 proto/normal_codec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/normal_codec.go b/proto/normal_codec.go
index 5033c68..ed0d536 100644
--- a/proto/normal_codec.go
+++ b/proto/normal_codec.go
@@ -347,7 +347,7 @@ func encodeZigzag32(b []byte, p unsafe.Pointer, f *structField) []byte {
 
 func decodeZigzag32(b []byte, p unsafe.Pointer) (int, error) {
 	u, n, err := decodeVarint(b)
-	*(*int32)(p) = int32(decodeZigZag64(u))
+	*(*int32)(p) = int32(decodeZigZag64(uint64(uint32(u))))
 	return n, err
 }
 
-- 
2.43.0


From eed100d00cf9b22f6f36dd97ffe8e5683504d32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:12 +0000
Subject: [PATCH 10/18] fix: return errors for nil and pointers to non-structs

---
 proto/proto.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index b687f50..2861754 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -24,10 +24,13 @@ func Size(v interface{}) int {
 
 func Marshal(v interface{}) ([]byte, error) {
 	t, p := inspect(v)
-	if t.Kind() != reflect.Ptr {
+	if t == nil || t.Kind() != reflect.Ptr {
 		return nil, fmt.Errorf("proto.Marshal(%T): not a pointer", v)
 	}
 	t = t.Elem()
+	if t.Kind() != reflect.Struct {
+		return nil, fmt.Errorf("proto.Marshal(%T): not a pointer to a struct", v)
+	}
 	info := cachedStructInfoOf(t)
 	b := make([]byte, 0, info.size(p))
 	b = info.encode(b, p)
@@ -41,7 +44,7 @@ func Unmarshal(b []byte, v interface{}) error {
 	}
 
 	t, p := inspect(v)
-	if t.Kind() != reflect.Pointer || p == nil {
+	if t == nil || t.Kind() != reflect.Pointer || p == nil {
 		return &InvalidUnmarshalError{Type: t}
 	}
 	elem := t.Elem()
-- 
2.43.0


From 74165ed1167e23b7dc8942f1b1c4c96eaeb7ebb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:12 +0000
Subject: [PATCH 11/18] fix: accept the req label the generator writes for
 required fields

---
 proto/struct.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/proto/struct.go b/proto/struct.go
index 39d7a77..d36fc3d 100644
--- a/proto/struct.go
+++ b/proto/struct.go
@@ -196,7 +196,7 @@ func parseStructTag(tag string) (structTag, error) {
 
 		case 2:
 			switch f {
-			case "opt":
+			case "opt", "req":
 				// not sure what this is for
 			case "rep":
 				t.repeated = true
-- 
2.43.0


From ea420873162df24887ccea5bea3dbbf3f0ee6b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 12/18] fix: decode repeated elements into zeroed slots

---
 proto/slice.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/proto/slice.go b/proto/slice.go
index 6b29459..06d5189 100644
--- a/proto/slice.go
+++ b/proto/slice.go
@@ -53,6 +53,8 @@ func sliceEncodeFuncOf(t reflect.Type, c *codec) encodeFunc {
 func sliceDecodeFuncOf(t reflect.Type, c *codec) decodeFunc {
 	elemType := t.Elem()
 	elemSize := alignedSize(elemType)
+	etype := pointer(elemType)
+	elemZero := unsafe.Pointer(reflect.New(elemType).Pointer())
 	return func(b []byte, p unsafe.Pointer) (int, error) {
 		s := (*Slice)(p)
 		i := s.Len()
@@ -61,7 +63,10 @@ func sliceDecodeFuncOf(t reflect.Type, c *codec) decodeFunc {
 			*s = growSlice(elemType, s)
 		}
 
-		n, err := c.decode(b, s.Index(i, elemSize))
+		// the spare capacity may hold a value from an earlier use
+		elem := s.Index(i, elemSize)
+		Assign(etype, elem, elemZero)
+		n, err := c.decode(b, elem)
 		if err == nil {
 			s.SetLen(i + 1)
 		}
-- 
2.43.0


From a921d2ec797d7068c65cc552c1723600f95bb099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:29 +0000
Subject: [PATCH 13/18] fix: write nil byte slices held by repeated and map
 fields as empty values

---
 proto/gen/required/main.go |  2 +-
 proto/required_codec.go    | 14 ++++++++++++++
 proto/walker.go            |  2 +-
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/proto/gen/required/main.go b/proto/gen/required/main.go
index 802ccdb..48054a9 100644
--- a/proto/gen/required/main.go
+++ b/proto/gen/required/main.go
@@ -20,7 +20,7 @@ func setOf(ss ...string) map[string]bool {
 }
 
 var needTransform = setOf(
-	"bool", "string",
+	"bool", "string", "bytes",
 	"float32", "float64",
 	"int32", "int64", "uint32", "uint64",
 	"fixed32", "fixed64", "zigzag32", "zigzag64",
diff --git a/proto/required_codec.go b/proto/required_codec.go
index 3a6279d..d2fe03f 100644
--- a/proto/required_codec.go
+++ b/proto/required_codec.go
@@ -22,6 +22,20 @@ func encodeBoolRequired(b []byte, p unsafe.Pointer, f *structField) []byte {
 	return b
 }
 
+var bytesRequiredCodec = codec{size: sizeOfBytesRequired, encode: encodeBytesRequired, decode: decodeBytes}
+
+func sizeOfBytesRequired(p unsafe.Pointer, f *structField) int {
+	v := *(*[]byte)(p)
+	return sizeOfVarlen(len(v)) + f.tagsize
+}
+func encodeBytesRequired(b []byte, p unsafe.Pointer, f *structField) []byte {
+	v := *(*[]byte)(p)
+	b = appendVarint(b, f.wiretag)
+	b = appendVarint(b, uint64(len(v)))
+	b = append(b, v...)
+	return b
+}
+
 var stringRequiredCodec = codec{size: sizeOfStringRequired, encode: encodeStringRequired, decode: decodeString}
 
 func sizeOfStringRequired(p unsafe.Pointer, f *structField) int {
diff --git a/proto/walker.go b/proto/walker.go
index b20c5b0..7f0f22a 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -357,7 +357,7 @@ func (w *walker) required(t reflect.Type, conf *walkerConfig) *codec {
 		elem := t.Elem()
 		switch elem.Kind() {
 		case reflect.Uint8:
-			return &bytesCodec
+			return &bytesRequiredCodec
 		}
 	case reflect.Struct:
 		panic("nested message must be pointer:" + t.String())
-- 
2.43.0


From 6f1700de45f56355700389b2ede4af2f52bac5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 14/18] fix: publish codecs of recursive types only once
 complete

---
 proto/proto.go  | 12 ++++++++++--
 proto/walker.go |  4 +---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/proto/proto.go b/proto/proto.go
index 2861754..ecf4d35 100644
--- a/proto/proto.go
+++ b/proto/proto.go
@@ -123,6 +123,14 @@ func cachedStructInfoOf(t reflect.Type) *structInfo {
 	}
 
 	info := w.structInfo(t)
-	actual, _ := structInfoCache.LoadOrStore(pointer(t), info)
-	return actual
+
+	// Publish only now that everything reachable from t is complete, types
+	// may be recursive and other goroutines use what they find right away.
+	for t, c := range w.codecs {
+		codecCache.LoadOrStore(pointer(t), c)
+	}
+	for t, i := range w.infos {
+		structInfoCache.LoadOrStore(pointer(t), i)
+	}
+	return info
 }
diff --git a/proto/walker.go b/proto/walker.go
index 7f0f22a..60d2e63 100644
--- a/proto/walker.go
+++ b/proto/walker.go
@@ -129,8 +129,7 @@ func (w *walker) structCodec(t reflect.Type) *codec {
 		l, err := info.decode(b[n:], *v)
 		return n + l, err
 	}
-	actualCodec, _ := codecCache.LoadOrStore(pointer(t), c)
-	return actualCodec.(*codec)
+	return c
 }
 
 func baseKindOf(t reflect.Type) reflect.Kind {
@@ -289,7 +288,6 @@ func (w *walker) structInfo(t reflect.Type) *structInfo {
 		info.fieldIndex[f.fieldNumber()] = f
 	}
 
-	structInfoCache.Store(pointer(t), info)
 	return info
 }
 
-- 
2.43.0


From 89e14c2ac670fa05f44480ba5806a468e4984f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:04 +0000
Subject: [PATCH 15/18] fix: annotate only getters that are generated

With annotate_code, protogen rejects annotations of symbols that the file
does not declare, so that every message with a plain field was an error.
---
 internal/generator/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/generator/main.go b/internal/generator/main.go
index 837f42b..4d8dfc6 100644
--- a/internal/generator/main.go
+++ b/internal/generator/main.go
@@ -319,11 +319,11 @@ func genMessageGetterMethods(g *protogen.GeneratedFile, f *fileInfo, m *messageI
 		// Getter for message field.
 		goType, _, _ := fieldGoType(g, f, field)
 		defaultValue := fieldDefaultValue(g, f, m, field)
-		g.Annotate(m.GoIdent.GoName+".Get"+field.GoName, field.Location)
 		leadingComments := appendDeprecationSuffix("",
 			field.Desc.Options().(*descriptorpb.FieldOptions).GetDeprecated())
 		switch {
 		case field.Oneof != nil && !field.Oneof.Desc.IsSynthetic():
+			g.Annotate(m.GoIdent.GoName+".Get"+field.GoName, field.Location)
 			g.P(leadingComments, "func (x *", m.GoIdent, ") Get", field.GoName, "() ", goType, " {")
 			g.P("if x, ok := x.Get", field.Oneof.GoName, "().(*", field.GoIdent, "); ok {")
 			g.P("return x.", field.GoName)
-- 
2.43.0


From c16eef9a97b435d1846e395a7983417dd7eaa1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:04 +0000
Subject: [PATCH 16/18] fix: forward messages named like a file descriptor

No file descriptors are generated, so that a declaration of that name is a
message or an enum like any other.
---
 internal/generator/main.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/internal/generator/main.go b/internal/generator/main.go
index 4d8dfc6..5b49858 100644
--- a/internal/generator/main.go
+++ b/internal/generator/main.go
@@ -125,10 +125,6 @@ func genImport(gen *protogen.Plugin, g *protogen.GeneratedFile, f *fileInfo, imp
 		if !unicode.IsUpper(r) {
 			return
 		}
-		// Don't import the FileDescriptor.
-		if name == impFile.GoDescriptorIdent.GoName {
-			return
-		}
 		// Don't import decls referencing a symbol defined in another package.
 		// i.e., don't import decls which are themselves public imports:
 		//
-- 
2.43.0


From 3f4130fdec0ed87e84d22a9b321123c7d50bfad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:04 +0000
Subject: [PATCH 17/18] fix: comments that begin like Go directives

A comment such as //line up: below made the generated file one that does not
parse, as //line is a directive to Go; //go: ones do not compile, and gofmt
makes // +build ones, wherever they stand, constraints of the file.
---
 internal/generator/main.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/internal/generator/main.go b/internal/generator/main.go
index 5b49858..d524426 100644
--- a/internal/generator/main.go
+++ b/internal/generator/main.go
@@ -248,7 +248,7 @@ func genMessageField(g *protogen.GeneratedFile, f *fileInfo, m *messageInfo, fie
 		}
 
 		g.Annotate(m.GoIdent.GoName+"."+oneof.GoName, oneof.Location)
-		leadingComments := oneof.Comments.Leading
+		leadingComments := escapeDirectives(oneof.Comments.Leading)
 		if leadingComments != "" {
 			leadingComments += "\n"
 		}
@@ -530,6 +530,7 @@ func (tags structTags) String() string {
 
 // appendDeprecationSuffix optionally appends a deprecation notice as a suffix.
 func appendDeprecationSuffix(protoreflectix protogen.Comments, deprecated bool) protogen.Comments {
+	protoreflectix = escapeDirectives(protoreflectix)
 	if !deprecated {
 		return protoreflectix
 	}
@@ -543,7 +544,7 @@ func appendDeprecationSuffix(protoreflectix protogen.Comments, deprecated bool)
 type trailingComment protogen.Comments
 
 func (c trailingComment) String() string {
-	s := strings.TrimSuffix(protogen.Comments(c).String(), "\n")
+	s := strings.TrimSuffix(escapeDirectives(protogen.Comments(c)).String(), "\n")
 	if strings.Contains(s, "\n") {
 		// We don't support multi-lined trailing comments as it is unclear
 		// how to best render them in the generated code.
@@ -551,3 +552,22 @@ func (c trailingComment) String() string {
 	}
 	return s
 }
+
+// escapeDirectives keeps lines of comments in the proto file from becoming
+// directives to the Go toolchain, such as //line, //go:embed and // +build,
+// which gofmt moves to the top of the file.
+func escapeDirectives(c protogen.Comments) protogen.Comments {
+	if c == "" {
+		return c
+	}
+	lines := strings.Split(string(c), "\n")
+	for i, line := range lines {
+		switch {
+		case strings.HasPrefix(line, "line "), strings.HasPrefix(line, "go:"):
+			lines[i] = " " + line
+		case strings.HasPrefix(strings.TrimSpace(line), "+build"):
+			lines[i] = strings.Replace(line, "+build", "+ build", 1)
+		}
+	}
+	return protogen.Comments(strings.Join(lines, "\n"))
+}
-- 
2.43.0


From c3d54773913093b12949026a9d260734e9667a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:15:16 +0000
Subject: [PATCH 18/18] fix: place nointerface pragmas before getters only

genNoInterfacePragma was called once per field, although plain fields have
no getter: in messages with field tracking the pragma was left without a
function, which the compiler rejects as a misplaced directive when field
tracking is enabled. The getter of the first oneof member lacked it.
---
 internal/generator/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/generator/main.go b/internal/generator/main.go
index d524426..e1264aa 100644
--- a/internal/generator/main.go
+++ b/internal/generator/main.go
@@ -298,10 +298,9 @@ func genMessageMethods(g *protogen.GeneratedFile, f *fileInfo, m *messageInfo) {
 
 func genMessageGetterMethods(g *protogen.GeneratedFile, f *fileInfo, m *messageInfo) {
 	for _, field := range m.Fields {
-		genNoInterfacePragma(g, m.isTracked)
-
 		// Getter for parent oneof.
 		if oneof := field.Oneof; oneof != nil && oneof.Fields[0] == field && !oneof.Desc.IsSynthetic() {
+			genNoInterfacePragma(g, m.isTracked)
 			g.Annotate(m.GoIdent.GoName+".Get"+oneof.GoName, oneof.Location)
 			g.P("func (m *", m.GoIdent.GoName, ") Get", oneof.GoName, "() ", oneofInterfaceName(oneof), " {")
 			g.P("if m != nil {")
@@ -319,6 +318,7 @@ func genMessageGetterMethods(g *protogen.GeneratedFile, f *fileInfo, m *messageI
 			field.Desc.Options().(*descriptorpb.FieldOptions).GetDeprecated())
 		switch {
 		case field.Oneof != nil && !field.Oneof.Desc.IsSynthetic():
+			genNoInterfacePragma(g, m.isTracked)
 			g.Annotate(m.GoIdent.GoName+".Get"+field.GoName, field.Location)
 			g.P(leadingComments, "func (x *", m.GoIdent, ") Get", field.GoName, "() ", goType, " {")
 			g.P("if x, ok := x.Get", field.Oneof.GoName, "().(*", field.GoIdent, "); ok {")
-- 
2.43.0

