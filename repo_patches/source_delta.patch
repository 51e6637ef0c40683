From 1d240a8d34328a8f0564a3ff8ea3cb2815c18e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:34 +0000
Subject: [PATCH 01/61] fix: return an error when packing panics with a
 non-error value

Panics carrying a string (from reflect, from the expressions-disabled check,
from a user codec) escaped Unpack as panic(nil) and Pack/SizeOf/BitSize as a
failed type assertion.
---
 packing.go | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/packing.go b/packing.go
index a54025d..74af53e 100644
--- a/packing.go
+++ b/packing.go
@@ -22,9 +22,19 @@ package restruct
 
 import (
 	"encoding/binary"
+	"fmt"
 	"reflect"
 )
 
+// errorFromPanic converts a recovered panic value to an error. Not every panic
+// carries an error: reflect, for example, panics with plain strings.
+func errorFromPanic(r interface{}) error {
+	if err, ok := r.(error); ok {
+		return err
+	}
+	return fmt.Errorf("restruct: %v", r)
+}
+
 func fieldFromIntf(v interface{}) (field, reflect.Value) {
 	val := reflect.ValueOf(v)
 	if val.Kind() == reflect.Ptr {
@@ -87,10 +97,7 @@ Flags are comma-separated keys. The following are available:
 func Unpack(data []byte, order binary.ByteOrder, v interface{}) (err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			var ok bool
-			if err, ok = r.(error); !ok {
-				panic(err)
-			}
+			err = errorFromPanic(r)
 		}
 	}()
 
@@ -108,7 +115,7 @@ SizeOf returns the binary encoded size of the given value, in bytes.
 func SizeOf(v interface{}) (size int, err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			err = r.(error)
+			err = errorFromPanic(r)
 		}
 	}()
 
@@ -123,7 +130,7 @@ BitSize returns the binary encoded size of the given value, in bits.
 func BitSize(v interface{}) (size int, err error) {
 	defer func() {
 		if r := recover(); r != nil {
-			err = r.(error)
+			err = errorFromPanic(r)
 		}
 	}()
 
@@ -145,7 +152,7 @@ func Pack(order binary.ByteOrder, v interface{}) (data []byte, err error) {
 	defer func() {
 		if r := recover(); r != nil {
 			data = nil
-			err = r.(error)
+			err = errorFromPanic(r)
 		}
 	}()
 
-- 
2.43.0


From 7345dd182ae962747179cb7495c41503ed58d0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 02/61] fix: sign-extend 16 and 32 bit signed bit fields from
 their top bit

val&1<<n parses as (val&1)<<n, so the lowest bit decided the sign. The same
expression in extend8 is left alone: TestUnpack pins int8:2 0b10 reading as 2.
---
 decoder.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 64e942c..5e11c32 100644
--- a/decoder.go
+++ b/decoder.go
@@ -84,14 +84,14 @@ func (d *decoder) extend8(val uint8, signed bool) uint8 {
 }
 
 func (d *decoder) extend16(val uint16, signed bool) uint16 {
-	if signed && d.bitSize != 0 && val&1<<uint(d.bitSize-1) != 0 {
+	if signed && d.bitSize != 0 && val&(1<<uint(d.bitSize-1)) != 0 {
 		val |= ^((1 << uint(d.bitSize)) - 1)
 	}
 	return val
 }
 
 func (d *decoder) extend32(val uint32, signed bool) uint32 {
-	if signed && d.bitSize != 0 && val&1<<uint(d.bitSize-1) != 0 {
+	if signed && d.bitSize != 0 && val&(1<<uint(d.bitSize-1)) != 0 {
 		val |= ^((1 << uint(d.bitSize)) - 1)
 	}
 	return val
-- 
2.43.0


From 0d37b50d529d0848a7589df41fd4acf4ad2c4974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:09 +0000
Subject: [PATCH 03/61] fix: advance to the next byte when padding ends on a
 byte boundary

---
 decoder.go | 2 +-
 encoder.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 5e11c32..293e749 100644
--- a/decoder.go
+++ b/decoder.go
@@ -152,7 +152,7 @@ func (d *decoder) readBytes(count int) []byte {
 
 func (d *decoder) skipBits(count int) {
 	d.bitCounter += uint8(count % 8)
-	if d.bitCounter > 8 {
+	if d.bitCounter >= 8 {
 		d.bitCounter -= 8
 		count += 8
 	}
diff --git a/encoder.go b/encoder.go
index b783ffc..c47e4aa 100644
--- a/encoder.go
+++ b/encoder.go
@@ -111,7 +111,7 @@ func (e *encoder) writeS64(f field, x int64) { e.write64(f, uint64(x)) }
 
 func (e *encoder) skipBits(count int) {
 	e.bitCounter += count % 8
-	if e.bitCounter > 8 {
+	if e.bitCounter >= 8 {
 		e.bitCounter -= 8
 		count += 8
 	}
-- 
2.43.0


From 6563129a5d2a798f22da0462541f5993fa329c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:24 +0000
Subject: [PATCH 04/61] fix: read strings and byte slices from their own
 position and width

The byte count came from the field's total size, which includes its skip;
the bit offset and the declared element type were ignored; and the slices
handed out could be grown over the bytes of later fields.
---
 decoder.go | 41 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/decoder.go b/decoder.go
index 293e749..f22ce4e 100644
--- a/decoder.go
+++ b/decoder.go
@@ -145,11 +145,44 @@ func (d *decoder) readS32(f field) int32 { return int32(d.read32(f, true)) }
 func (d *decoder) readS64(f field) int64 { return int64(d.read64(f, true)) }
 
 func (d *decoder) readBytes(count int) []byte {
-	x := d.buf[0:count]
+	if d.bitCounter != 0 && count > 0 {
+		// Not on a byte boundary: every byte straddles two bytes of the buffer.
+		src := d.buf[:count+1]
+		d.buf = d.buf[count:]
+		_ = d.buf[0]
+		x := make([]byte, count)
+		for i := range x {
+			x[i] = src[i]<<d.bitCounter | src[i+1]>>(8-d.bitCounter)
+		}
+		return x
+	}
+	x := d.buf[0:count:count]
 	d.buf = d.buf[count:]
 	return x
 }
 
+// readByteElems reads count elements of a field whose native type is a string
+// or a slice of bytes.
+func (d *decoder) readByteElems(f field, count int) []byte {
+	ef := f.Elem()
+	if ef.BinaryType.Kind() == reflect.Uint8 && !isUnpacker(ef.NativeType) {
+		return d.readBytes(count)
+	}
+	x := []byte{}
+	for i := 0; i < count; i++ {
+		v := reflect.New(ef.NativeType).Elem()
+		d.read(ef, v)
+		x = append(x, byte(v.Uint()))
+	}
+	return x
+}
+
+// isUnpacker returns true if values of the type unpack themselves.
+func isUnpacker(typ reflect.Type) bool {
+	unpacker := reflect.TypeOf((*Unpacker)(nil)).Elem()
+	return typ.Implements(unpacker) || reflect.PtrTo(typ).Implements(unpacker)
+}
+
 func (d *decoder) skipBits(count int) {
 	d.bitCounter += uint8(count % 8)
 	if d.bitCounter >= 8 {
@@ -336,7 +369,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		switch f.NativeType.Kind() {
 		case reflect.String:
 			// When using strings, treat as C string.
-			str := string(d.readBytes(d.fieldbytes(f, v)))
+			str := string(d.readByteElems(f, l))
 			nul := strings.IndexByte(str, 0)
 			if nul != -1 {
 				str = str[0:nul]
@@ -375,7 +408,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		fixed := func() {
 			switch f.NativeType.Elem().Kind() {
 			case reflect.Uint8:
-				v.SetBytes(d.readBytes(d.fieldbytes(f, v)))
+				v.SetBytes(d.readByteElems(f, alen))
 			default:
 				ef := f.Elem()
 				for i := 0; i < alen; i++ {
@@ -385,7 +418,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		}
 		switch f.NativeType.Kind() {
 		case reflect.String:
-			v.SetString(string(d.readBytes(alen)))
+			v.SetString(string(d.readByteElems(f, alen)))
 		case reflect.Array:
 			if f.WhileExpr != nil {
 				i := 0
-- 
2.43.0


From 77068b437b7833c298ff38abe497e4ee9c7a9ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 05/61] fix: link counters by struct field index, past ignored
 and unexported fields

The links mixed up positions in the field table with struct field indices, so
any ignored or unexported field ahead of them broke the link or panicked.
---
 field.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/field.go b/field.go
index ad64761..7881cc1 100644
--- a/field.go
+++ b/field.go
@@ -217,11 +217,11 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 			if !validSizeType(val.Type) {
 				panic(ErrInvalidSizeOf)
 			}
-			sindex = j
-			result[sindex].TIndex = i
+			sindex = result[j].Index
+			result[j].TIndex = i
 			delete(sizeOfMap, val.Name)
 		} else if opts.SizeOf != "" {
-			sizeOfMap[opts.SizeOf] = i
+			sizeOfMap[opts.SizeOf] = len(result)
 		}
 
 		// SizeFrom
@@ -229,11 +229,10 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 			if !validSizeType(val.Type) {
 				panic(ErrInvalidSizeFrom)
 			}
-			for j := 0; j < i; j++ {
-				val := result[j]
-				if opts.SizeFrom == val.Name {
-					sindex = j
-					result[sindex].TIndex = i
+			for j := range result {
+				if opts.SizeFrom == result[j].Name {
+					sindex = result[j].Index
+					result[j].TIndex = i
 				}
 			}
 			if sindex == -1 {
-- 
2.43.0


From 9cdaab65a703f2e70c9b09271ae29bc8f4ce9084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:53 +0000
Subject: [PATCH 06/61] fix: size bit fields, pointers and their skips the way
 they are encoded

The skip of bit fields and pointers was left out, bit fields ignored their
condition, and the size of a nil pointer was an error although it packs.
---
 structstack.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/structstack.go b/structstack.go
index 6e056a5..6f3a465 100644
--- a/structstack.go
+++ b/structstack.go
@@ -149,7 +149,7 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 	}
 
 	if b := s.evalBits(f); b != 0 {
-		return b
+		return b + skipBits
 	}
 
 	alen := 1
@@ -190,7 +190,10 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 
 		switch f.NativeType.Kind() {
 		case reflect.Ptr:
-			return s.fieldbits(f.Elem(), val.Elem())
+			// Nothing is encoded for a nil pointer.
+			if !val.IsNil() {
+				size += s.fieldbits(f.Elem(), val.Elem())
+			}
 		case reflect.Slice, reflect.String, reflect.Array:
 			// Optimization: if the element type is trivial, we can derive the
 			// length from a single element.
@@ -208,11 +211,7 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		size += skipBits
 		s.push(val)
 		for _, field := range cachedFieldsFromStruct(f.BinaryType) {
-			if field.BitSize != 0 {
-				size += int(field.BitSize)
-			} else {
-				size += s.fieldbits(field, val.Field(field.Index))
-			}
+			size += s.fieldbits(field, val.Field(field.Index))
 		}
 		s.pop(val)
 		return size
-- 
2.43.0


From a77f9b4d911d0c1145725640c655484b7a05dfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:14 +0000
Subject: [PATCH 07/61] fix: keep the width of padding whose wire type is fixed

Padding such as '_ string' with wire type [4]byte was sized by its native type
and took no space at all.
---
 structstack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structstack.go b/structstack.go
index 6f3a465..14fa510 100644
--- a/structstack.go
+++ b/structstack.go
@@ -139,7 +139,7 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		// Non-trivial, unnamed fields do not make sense. You can't set a field
 		// with no name, so the elements can't possibly differ.
 		// N.B.: Though skip will still work, use struct{} instead for skip.
-		if !isTypeTrivial(val.Type()) {
+		if !isTypeTrivial(val.Type()) && !isTypeTrivial(f.BinaryType) {
 			return skipBits
 		}
 	}
-- 
2.43.0


From 3c95e5681384c4a7125d85fae573cb12df601f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:32 +0000
Subject: [PATCH 08/61] fix: do not treat pointers, conditional structs and
 self-sizing types as constant-size

One element's size was multiplied by the element count although elements may
differ, and a type pointing at itself recursed until the stack overflowed.
---
 field.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/field.go b/field.go
index 7881cc1..8c1f07d 100644
--- a/field.go
+++ b/field.go
@@ -114,7 +114,7 @@ func (f *field) Elem() field {
 		TIndex:     -1,
 		SIndex:     -1,
 		Skip:       0,
-		Trivial:    isTypeTrivial(t.Elem()),
+		Trivial:    isTypeTrivial(t.Elem()) && !hasSizer(dt.Elem()),
 	}
 }
 
@@ -316,6 +316,15 @@ func cachedFieldsFromStruct(typ reflect.Type) (result fields) {
 	return
 }
 
+// hasSizer returns true if values of the type determine their own size.
+func hasSizer(typ reflect.Type) bool {
+	sizer := reflect.TypeOf((*Sizer)(nil)).Elem()
+	bitSizer := reflect.TypeOf((*BitSizer)(nil)).Elem()
+	ptr := reflect.PtrTo(typ)
+	return typ.Implements(sizer) || typ.Implements(bitSizer) ||
+		ptr.Implements(sizer) || ptr.Implements(bitSizer)
+}
+
 // isTypeTrivial determines if a given type is constant-size.
 func isTypeTrivial(typ reflect.Type) bool {
 	if typ == nil {
@@ -339,11 +348,14 @@ func isTypeTrivial(typ reflect.Type) bool {
 		reflect.Complex64,
 		reflect.Complex128:
 		return true
-	case reflect.Array, reflect.Ptr:
-		return isTypeTrivial(typ.Elem())
+	case reflect.Array:
+		return isTypeTrivial(typ.Elem()) && !hasSizer(typ.Elem())
 	case reflect.Struct:
 		for _, field := range cachedFieldsFromStruct(typ) {
-			if !isTypeTrivial(field.BinaryType) {
+			if !isTypeTrivial(field.BinaryType) || hasSizer(field.NativeType) {
+				return false
+			}
+			if field.IfExpr != nil || field.BitsExpr != nil || field.SwitchExpr != nil {
 				return false
 			}
 		}
-- 
2.43.0


From fb70bd7c43fec161083762b698921740c22073ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 09/61] fix: pack structs passed by value instead of writing
 zeros

Values passed by value were unaddressable: their fields were skipped when
packing and, against the documentation, silently left alone when unpacking.
---
 packing.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/packing.go b/packing.go
index 74af53e..9b023f2 100644
--- a/packing.go
+++ b/packing.go
@@ -44,6 +44,17 @@ func fieldFromIntf(v interface{}) (field, reflect.Value) {
 	return f, val
 }
 
+// addressable returns the value itself if it can be set, and otherwise a copy
+// that can, so that values behave the same whether or not passed by pointer.
+func addressable(val reflect.Value) reflect.Value {
+	if val.CanSet() {
+		return val
+	}
+	c := reflect.New(val.Type()).Elem()
+	c.Set(val)
+	return c
+}
+
 /*
 Unpack reads data from a byteslice into a value.
 
@@ -102,6 +113,9 @@ func Unpack(data []byte, order binary.ByteOrder, v interface{}) (err error) {
 	}()
 
 	f, val := fieldFromIntf(v)
+	if _, ok := v.(Unpacker); !ok && !val.CanSet() {
+		return fmt.Errorf("restruct: cannot unpack into unaddressable value of type %s", val.Type())
+	}
 	ss := structstack{allowexpr: expressionsEnabled, buf: data}
 	d := decoder{structstack: ss, order: order}
 	d.read(f, val)
@@ -121,7 +135,7 @@ func SizeOf(v interface{}) (size int, err error) {
 
 	ss := structstack{allowexpr: expressionsEnabled}
 	f, val := fieldFromIntf(v)
-	return ss.fieldbytes(f, val), nil
+	return ss.fieldbytes(f, addressable(val)), nil
 }
 
 /*
@@ -136,7 +150,7 @@ func BitSize(v interface{}) (size int, err error) {
 
 	ss := structstack{allowexpr: expressionsEnabled}
 	f, val := fieldFromIntf(v)
-	return ss.fieldbits(f, val), nil
+	return ss.fieldbits(f, addressable(val)), nil
 }
 
 /*
@@ -159,6 +173,7 @@ func Pack(order binary.ByteOrder, v interface{}) (data []byte, err error) {
 	ss := structstack{allowexpr: expressionsEnabled, buf: []byte{}}
 
 	f, val := fieldFromIntf(v)
+	val = addressable(val)
 	data = make([]byte, ss.fieldbytes(f, val))
 
 	ss.buf = data
-- 
2.43.0


From 75d6951a787384ecedc1b08292537b943ae1b445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:00 +0000
Subject: [PATCH 10/61] fix: refuse to pack slices that their counter cannot
 describe

A count too large for its counter was truncated, and fields sharing a counter
could differ in length, so the bytes did not decode back. Counters are now
also up to date while sizes are computed, as conditions may depend on them.
---
 encoder.go     | 13 +------------
 field.go       | 16 ++++++++++------
 structstack.go | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 58 insertions(+), 18 deletions(-)

diff --git a/encoder.go b/encoder.go
index c47e4aa..f8b77d5 100644
--- a/encoder.go
+++ b/encoder.go
@@ -233,8 +233,6 @@ func (e *encoder) write(f field, v reflect.Value) {
 		return
 	}
 
-	struc := e.ancestor(0)
-
 	if f.Name != "_" {
 		if s, ok := e.packer(v); ok {
 			var err error
@@ -269,16 +267,7 @@ func (e *encoder) write(f field, v reflect.Value) {
 
 	// If this is a sizeof field, pull the current slice length into it.
 	if f.TIndex != -1 {
-		sv := struc.Field(f.TIndex)
-
-		switch f.BinaryType.Kind() {
-		case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
-			v.SetInt(int64(sv.Len()))
-		case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
-			v.SetUint(uint64(sv.Len()))
-		default:
-			panic(fmt.Errorf("unsupported size type %s: %s", f.BinaryType.String(), f.Name))
-		}
+		e.setcounter(f, v)
 	}
 
 	ov := v
diff --git a/field.go b/field.go
index 8c1f07d..92facbf 100644
--- a/field.go
+++ b/field.go
@@ -188,18 +188,22 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 
 		if opts.RootFlag {
 			result = append(result, field{
-				Name:  val.Name,
-				Index: i,
-				Flags: RootFlag,
+				Name:   val.Name,
+				Index:  i,
+				TIndex: -1,
+				SIndex: -1,
+				Flags:  RootFlag,
 			})
 			continue
 		}
 
 		if opts.ParentFlag {
 			result = append(result, field{
-				Name:  val.Name,
-				Index: i,
-				Flags: ParentFlag,
+				Name:   val.Name,
+				Index:  i,
+				TIndex: -1,
+				SIndex: -1,
+				Flags:  ParentFlag,
 			})
 			continue
 		}
diff --git a/structstack.go b/structstack.go
index 14fa510..f9d1096 100644
--- a/structstack.go
+++ b/structstack.go
@@ -71,6 +71,48 @@ func (s *structstack) evalWhile(f field) bool {
 	panic("expected bool value for while expr")
 }
 
+// setcounter stores the length of the slices linked to a counter in it.
+func (s *structstack) setcounter(f field, v reflect.Value) {
+	struc := s.ancestor(0)
+	count := struc.Field(f.TIndex).Len()
+
+	// Other fields may share the counter, but only those present matter.
+	found := false
+	for _, t := range cachedFieldsFromStruct(struc.Type()) {
+		if t.SIndex != f.Index || !s.evalIf(t) {
+			continue
+		}
+		l := struc.Field(t.Index).Len()
+		if found && l != count {
+			panic(fmt.Errorf("fields sharing counter %s differ in length (%d != %d)", f.Name, l, count))
+		}
+		count, found = l, true
+	}
+
+	switch f.BinaryType.Kind() {
+	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+		if int64(count)>>uint(s.wirebits(f)-1) != 0 || v.OverflowInt(int64(count)) {
+			panic(fmt.Errorf("length %d does not fit counter %s", count, f.Name))
+		}
+		v.SetInt(int64(count))
+	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+		if uint64(count)>>uint(s.wirebits(f)) != 0 || v.OverflowUint(uint64(count)) {
+			panic(fmt.Errorf("length %d does not fit counter %s", count, f.Name))
+		}
+		v.SetUint(uint64(count))
+	default:
+		panic(fmt.Errorf("unsupported size type %s: %s", f.BinaryType.String(), f.Name))
+	}
+}
+
+// wirebits determines the width of an integer field in bits.
+func (s *structstack) wirebits(f field) int {
+	if bits := s.evalBits(f); bits != 0 {
+		return bits
+	}
+	return f.BinaryType.Bits()
+}
+
 func (s *structstack) switcbits(f field, v reflect.Value, on interface{}) (size int) {
 	var def *switchcase
 
@@ -148,6 +190,11 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		return 0
 	}
 
+	// Expressions may depend on the counter, so bring it up to date first.
+	if f.TIndex != -1 && val.CanSet() {
+		s.setcounter(f, val)
+	}
+
 	if b := s.evalBits(f); b != 0 {
 		return b + skipBits
 	}
-- 
2.43.0


From 3b5b91a3debd9c5f88793ccfa9523b0a44a0bd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 11/61] fix: grow decoded slices with the data instead of
 trusting its counters

A huge counter in the data allocated that many elements up front, a negative
one was a reflect panic. Slices with a while expression were appended to what
the destination held, and growing them left parent links to old copies.
---
 decoder.go | 76 ++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 57 insertions(+), 19 deletions(-)

diff --git a/decoder.go b/decoder.go
index f22ce4e..0b78bec 100644
--- a/decoder.go
+++ b/decoder.go
@@ -177,6 +177,53 @@ func (d *decoder) readByteElems(f field, count int) []byte {
 	return x
 }
 
+// readElems replaces the contents of a slice with elements read for as long as
+// more returns true. The slice grows with the elements actually read, because
+// a count that comes from the data can't be trusted.
+func (d *decoder) readElems(f field, v reflect.Value, more func(i int) bool) {
+	ef := f.Elem()
+	v.Set(reflect.MakeSlice(v.Type(), 0, 0))
+	for i := 0; more(i); i++ {
+		v.Set(reflect.Append(v, reflect.Zero(ef.NativeType)))
+		d.read(ef, v.Index(i))
+	}
+	d.relink(f, v)
+}
+
+// relink restores the parent and root links inside a freshly read value after
+// the value was moved.
+func (d *decoder) relink(f field, v reflect.Value) {
+	if f.Flags&(RootFlag|ParentFlag) != 0 {
+		d.read(f, v)
+		return
+	}
+	if f.Name == "_" || isUnpacker(v.Type()) {
+		return
+	}
+	switch v.Kind() {
+	case reflect.Ptr:
+		if !v.IsNil() {
+			d.relink(f.Elem(), v.Elem())
+		}
+	case reflect.Array, reflect.Slice:
+		if k := v.Type().Elem().Kind(); k < reflect.Array || k == reflect.String {
+			return
+		}
+		ef := f.Elem()
+		for i := 0; i < v.Len(); i++ {
+			d.relink(ef, v.Index(i))
+		}
+	case reflect.Struct:
+		if f.SwitchExpr == nil {
+			d.push(v)
+			defer d.pop(v)
+		}
+		for _, sf := range cachedFieldsFromStruct(v.Type()) {
+			d.relink(sf, v.Field(sf.Index))
+		}
+	}
+}
+
 // isUnpacker returns true if values of the type unpack themselves.
 func isUnpacker(typ reflect.Type) bool {
 	unpacker := reflect.TypeOf((*Unpacker)(nil)).Elem()
@@ -405,15 +452,13 @@ func (d *decoder) read(f field, v reflect.Value) {
 		d.read(f.Elem(), v.Elem())
 
 	case reflect.Slice, reflect.String:
+		if alen < 0 {
+			panic(fmt.Errorf("negative length %d: %s", alen, f.Name))
+		}
 		fixed := func() {
-			switch f.NativeType.Elem().Kind() {
-			case reflect.Uint8:
-				v.SetBytes(d.readByteElems(f, alen))
-			default:
-				ef := f.Elem()
-				for i := 0; i < alen; i++ {
-					d.read(ef, v.Index(i))
-				}
+			ef := f.Elem()
+			for i := 0; i < alen; i++ {
+				d.read(ef, v.Index(i))
 			}
 		}
 		switch f.NativeType.Kind() {
@@ -432,18 +477,11 @@ func (d *decoder) read(f field, v reflect.Value) {
 			}
 		case reflect.Slice:
 			if f.WhileExpr != nil {
-				switch f.NativeType.Kind() {
-				case reflect.Slice:
-					ef := f.Elem()
-					for d.evalWhile(f) {
-						nv := reflect.New(ef.NativeType).Elem()
-						d.read(ef, nv)
-						v.Set(reflect.Append(v, nv))
-					}
-				}
+				d.readElems(f, v, func(int) bool { return d.evalWhile(f) })
+			} else if f.NativeType.Elem().Kind() == reflect.Uint8 {
+				v.SetBytes(d.readByteElems(f, alen))
 			} else {
-				v.Set(reflect.MakeSlice(f.NativeType, alen, alen))
-				fixed()
+				d.readElems(f, v, func(i int) bool { return i < alen })
 			}
 		default:
 			panic(fmt.Errorf("invalid array cast type: %s", f.NativeType.String()))
-- 
2.43.0


From a3e6ea086c72e5bdc4ce906025c631bbc42e42d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:55 +0000
Subject: [PATCH 12/61] fix: read arrays whose wire type is a slice, as they
 are written

Pack writes all elements of such an array but Unpack read none of them.
---
 decoder.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/decoder.go b/decoder.go
index 0b78bec..d915093 100644
--- a/decoder.go
+++ b/decoder.go
@@ -455,12 +455,6 @@ func (d *decoder) read(f field, v reflect.Value) {
 		if alen < 0 {
 			panic(fmt.Errorf("negative length %d: %s", alen, f.Name))
 		}
-		fixed := func() {
-			ef := f.Elem()
-			for i := 0; i < alen; i++ {
-				d.read(ef, v.Index(i))
-			}
-		}
 		switch f.NativeType.Kind() {
 		case reflect.String:
 			v.SetString(string(d.readByteElems(f, alen)))
@@ -473,7 +467,10 @@ func (d *decoder) read(f field, v reflect.Value) {
 					i++
 				}
 			} else {
-				fixed()
+				ef := f.Elem()
+				for i := 0; i < v.Len(); i++ {
+					d.read(ef, v.Index(i))
+				}
 			}
 		case reflect.Slice:
 			if f.WhileExpr != nil {
-- 
2.43.0


From 05a31ed924669595bbf4e99fbe42a3ac76ea0bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 13/61] fix: clear the alternatives of a switch before reading
 it

The loop used the switch's own field index for all of them, which cleared one
arbitrary alternative or panicked.
---
 decoder.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index d915093..5652655 100644
--- a/decoder.go
+++ b/decoder.go
@@ -297,7 +297,7 @@ func (d *decoder) switc(f field, v reflect.Value, on interface{}) {
 
 	// Zero out values for decoding.
 	for i := 0; i < l; i++ {
-		v := v.Field(f.Index)
+		v := v.Field(sfields[i].Index)
 		v.Set(reflect.Zero(v.Type()))
 	}
 
-- 
2.43.0


From 49dd6f83a357bb868bdd8a5a72fdd619b43532eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:36 +0000
Subject: [PATCH 14/61] fix: apply skip, condition and byte order to custom
 codecs and switches

These fields were handled before their own options were looked at, so a false
condition did not leave them out and their skip and order had no effect.
---
 decoder.go     | 30 +++++++++++++++---------------
 encoder.go     | 30 +++++++++++++++---------------
 structstack.go | 20 +++++++++++---------
 3 files changed, 41 insertions(+), 39 deletions(-)

diff --git a/decoder.go b/decoder.go
index 5652655..8366457 100644
--- a/decoder.go
+++ b/decoder.go
@@ -343,23 +343,9 @@ func (d *decoder) read(f field, v reflect.Value) {
 		return
 	}
 
-	if f.SwitchExpr != nil {
-		d.switc(f, v, d.evalExpr(f.SwitchExpr))
-		return
-	}
-
 	struc := d.ancestor(0)
 
-	if f.Name != "_" {
-		if s, ok := d.unpacker(v); ok {
-			var err error
-			d.buf, err = s.Unpack(d.buf, d.order)
-			if err != nil {
-				panic(err)
-			}
-			return
-		}
-	} else {
+	if f.Name == "_" {
 		d.skipBits(d.fieldbits(f, v))
 		return
 	}
@@ -380,6 +366,20 @@ func (d *decoder) read(f field, v reflect.Value) {
 		d.skipBits(f.Skip * 8)
 	}
 
+	if f.SwitchExpr != nil {
+		d.switc(f, v, d.evalExpr(f.SwitchExpr))
+		return
+	}
+
+	if s, ok := d.unpacker(v); ok {
+		var err error
+		d.buf, err = s.Unpack(d.buf, d.order)
+		if err != nil {
+			panic(err)
+		}
+		return
+	}
+
 	d.bitSize = d.evalBits(f)
 	alen := d.evalSize(f)
 
diff --git a/encoder.go b/encoder.go
index f8b77d5..494c326 100644
--- a/encoder.go
+++ b/encoder.go
@@ -228,21 +228,7 @@ func (e *encoder) write(f field, v reflect.Value) {
 		return
 	}
 
-	if f.SwitchExpr != nil {
-		e.switc(f, v, e.evalExpr(f.SwitchExpr))
-		return
-	}
-
-	if f.Name != "_" {
-		if s, ok := e.packer(v); ok {
-			var err error
-			e.buf, err = s.Pack(e.buf, e.order)
-			if err != nil {
-				panic(err)
-			}
-			return
-		}
-	} else {
+	if f.Name == "_" {
 		e.skipBits(e.fieldbits(f, v))
 		return
 	}
@@ -263,6 +249,20 @@ func (e *encoder) write(f field, v reflect.Value) {
 		e.skipBits(f.Skip * 8)
 	}
 
+	if f.SwitchExpr != nil {
+		e.switc(f, v, e.evalExpr(f.SwitchExpr))
+		return
+	}
+
+	if s, ok := e.packer(v); ok {
+		var err error
+		e.buf, err = s.Pack(e.buf, e.order)
+		if err != nil {
+			panic(err)
+		}
+		return
+	}
+
 	e.bitSize = e.evalBits(f)
 
 	// If this is a sizeof field, pull the current slice length into it.
diff --git a/structstack.go b/structstack.go
index f9d1096..e3b5886 100644
--- a/structstack.go
+++ b/structstack.go
@@ -169,15 +169,7 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		return 0
 	}
 
-	if f.SwitchExpr != nil {
-		return s.switcbits(f, val, s.evalExpr(f.SwitchExpr))
-	}
-
-	if f.Name != "_" {
-		if s, ok := f.bitSizeUsingInterface(val); ok {
-			return s
-		}
-	} else {
+	if f.Name == "_" {
 		// Non-trivial, unnamed fields do not make sense. You can't set a field
 		// with no name, so the elements can't possibly differ.
 		// N.B.: Though skip will still work, use struct{} instead for skip.
@@ -190,6 +182,16 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		return 0
 	}
 
+	if f.SwitchExpr != nil {
+		return skipBits + s.switcbits(f, val, s.evalExpr(f.SwitchExpr))
+	}
+
+	if f.Name != "_" {
+		if s, ok := f.bitSizeUsingInterface(val); ok {
+			return s + skipBits
+		}
+	}
+
 	// Expressions may depend on the counter, so bring it up to date first.
 	if f.TIndex != -1 && val.CanSet() {
 		s.setcounter(f, val)
-- 
2.43.0


From b559f4dfc1a799035e879602656438e1b365d794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:37 +0000
Subject: [PATCH 15/61] fix: support pointers to types with custom codecs

Unpack called the codec on a nil pointer instead of allocating a value, and
nil pointers could not be packed or sized.
---
 decoder.go     | 3 ++-
 encoder.go     | 3 ++-
 structstack.go | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 8366457..1e0ac3c 100644
--- a/decoder.go
+++ b/decoder.go
@@ -371,7 +371,8 @@ func (d *decoder) read(f field, v reflect.Value) {
 		return
 	}
 
-	if s, ok := d.unpacker(v); ok {
+	// Pointers are allocated first, as there may be no value to unpack into.
+	if s, ok := d.unpacker(v); ok && f.BinaryType.Kind() != reflect.Ptr {
 		var err error
 		d.buf, err = s.Unpack(d.buf, d.order)
 		if err != nil {
diff --git a/encoder.go b/encoder.go
index 494c326..0697712 100644
--- a/encoder.go
+++ b/encoder.go
@@ -254,7 +254,8 @@ func (e *encoder) write(f field, v reflect.Value) {
 		return
 	}
 
-	if s, ok := e.packer(v); ok {
+	// Pointers are followed first, as there may be no value to pack.
+	if s, ok := e.packer(v); ok && f.BinaryType.Kind() != reflect.Ptr {
 		var err error
 		e.buf, err = s.Pack(e.buf, e.order)
 		if err != nil {
diff --git a/structstack.go b/structstack.go
index e3b5886..3a25519 100644
--- a/structstack.go
+++ b/structstack.go
@@ -186,7 +186,8 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		return skipBits + s.switcbits(f, val, s.evalExpr(f.SwitchExpr))
 	}
 
-	if f.Name != "_" {
+	// Pointers are followed first, as there may be no value to ask.
+	if f.Name != "_" && f.BinaryType.Kind() != reflect.Ptr {
 		if s, ok := f.bitSizeUsingInterface(val); ok {
 			return s + skipBits
 		}
-- 
2.43.0


From a8c0862610cce92f01f0ac7add21046191502916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:55 +0000
Subject: [PATCH 16/61] fix: compare switch and case values by value

Integer literals never matched a switch on a sized integer, and a value of a
named type never matched anything but the very same type.
---
 decoder.go     |  2 +-
 encoder.go     |  2 +-
 structstack.go | 32 +++++++++++++++++++++++++++++++-
 3 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index 1e0ac3c..41ceef0 100644
--- a/decoder.go
+++ b/decoder.go
@@ -317,7 +317,7 @@ func (d *decoder) switc(f field, v reflect.Value, on interface{}) {
 			panic(fmt.Errorf("%s: only cases are valid inside switches", f.Name))
 		}
 
-		if d.evalExpr(f.CaseExpr) == on {
+		if switchEqual(d.evalExpr(f.CaseExpr), on) {
 			d.read(f, v)
 			return
 		}
diff --git a/encoder.go b/encoder.go
index 0697712..d45346e 100644
--- a/encoder.go
+++ b/encoder.go
@@ -202,7 +202,7 @@ func (e *encoder) switc(f field, v reflect.Value, on interface{}) {
 			panic(fmt.Errorf("%s: only cases are valid inside switches", f.Name))
 		}
 
-		if e.evalExpr(f.CaseExpr) == on {
+		if switchEqual(e.evalExpr(f.CaseExpr), on) {
 			e.write(f, v)
 			return
 		}
diff --git a/structstack.go b/structstack.go
index 3a25519..5931030 100644
--- a/structstack.go
+++ b/structstack.go
@@ -113,6 +113,36 @@ func (s *structstack) wirebits(f field) int {
 	return f.BinaryType.Bits()
 }
 
+// switchEqual compares a switch value to a case value. The two do not need to
+// be of the same type: untyped constants in particular evaluate to the widest.
+func switchEqual(a, b interface{}) bool {
+	av, bv := reflect.ValueOf(a), reflect.ValueOf(b)
+	switch {
+	case isInt(av) && isInt(bv):
+		return av.Int() == bv.Int()
+	case isUint(av) && isUint(bv):
+		return av.Uint() == bv.Uint()
+	case isInt(av) && isUint(bv):
+		return av.Int() >= 0 && uint64(av.Int()) == bv.Uint()
+	case isUint(av) && isInt(bv):
+		return switchEqual(b, a)
+	case av.Kind() == reflect.String && bv.Kind() == reflect.String:
+		return av.String() == bv.String()
+	case av.Kind() == reflect.Bool && bv.Kind() == reflect.Bool:
+		return av.Bool() == bv.Bool()
+	default:
+		return a == b
+	}
+}
+
+func isInt(v reflect.Value) bool {
+	return v.Kind() >= reflect.Int && v.Kind() <= reflect.Int64
+}
+
+func isUint(v reflect.Value) bool {
+	return v.Kind() >= reflect.Uint && v.Kind() <= reflect.Uintptr
+}
+
 func (s *structstack) switcbits(f field, v reflect.Value, on interface{}) (size int) {
 	var def *switchcase
 
@@ -139,7 +169,7 @@ func (s *structstack) switcbits(f field, v reflect.Value, on interface{}) (size
 			panic(fmt.Errorf("%s: only cases are valid inside switches", f.Name))
 		}
 
-		if s.evalExpr(f.CaseExpr) == on {
+		if switchEqual(s.evalExpr(f.CaseExpr), on) {
 			return s.fieldbits(f, v)
 		}
 	}
-- 
2.43.0


From e05d6ea8eebb02eed5295c9aa5aad4c5828c1e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 17/61] fix: read and write int and uint fields in the 32 bits
 they are sized as

Such fields took four bytes that were always zero when packed and were never
read when unpacked.
---
 decoder.go     | 8 ++++----
 encoder.go     | 4 ++--
 structstack.go | 7 +++++--
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/decoder.go b/decoder.go
index 41ceef0..869be2d 100644
--- a/decoder.go
+++ b/decoder.go
@@ -394,9 +394,9 @@ func (d *decoder) read(f field, v reflect.Value) {
 			sf := sfields[i]
 			// Must use different codepath for signed/unsigned.
 			switch sf.BinaryType.Kind() {
-			case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+			case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 				alen = int(sv.Int())
-			case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+			case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 				alen = int(sv.Uint())
 			default:
 				panic(fmt.Errorf("unsupported size type %s: %s", sf.BinaryType.String(), sf.Name))
@@ -489,7 +489,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		d.setInt(f, v, int64(d.readS8(f)))
 	case reflect.Int16:
 		d.setInt(f, v, int64(d.readS16(f)))
-	case reflect.Int32:
+	case reflect.Int, reflect.Int32:
 		d.setInt(f, v, int64(d.readS32(f)))
 	case reflect.Int64:
 		d.setInt(f, v, d.readS64(f))
@@ -498,7 +498,7 @@ func (d *decoder) read(f field, v reflect.Value) {
 		d.setUint(f, v, uint64(d.readU8(f)))
 	case reflect.Uint16:
 		d.setUint(f, v, uint64(d.readU16(f)))
-	case reflect.Uint32:
+	case reflect.Uint, reflect.Uint32:
 		d.setUint(f, v, uint64(d.readU32(f)))
 	case reflect.Uint64:
 		d.setUint(f, v, d.readU64(f))
diff --git a/encoder.go b/encoder.go
index d45346e..7dc6ad9 100644
--- a/encoder.go
+++ b/encoder.go
@@ -331,7 +331,7 @@ func (e *encoder) write(f field, v reflect.Value) {
 		e.writeS8(f, int8(e.intFromField(f, ov)))
 	case reflect.Int16:
 		e.writeS16(f, int16(e.intFromField(f, ov)))
-	case reflect.Int32:
+	case reflect.Int, reflect.Int32:
 		e.writeS32(f, int32(e.intFromField(f, ov)))
 	case reflect.Int64:
 		e.writeS64(f, int64(e.intFromField(f, ov)))
@@ -340,7 +340,7 @@ func (e *encoder) write(f field, v reflect.Value) {
 		e.write8(f, uint8(e.uintFromField(f, ov)))
 	case reflect.Uint16:
 		e.write16(f, uint16(e.uintFromField(f, ov)))
-	case reflect.Uint32:
+	case reflect.Uint, reflect.Uint32:
 		e.write32(f, uint32(e.uintFromField(f, ov)))
 	case reflect.Uint64:
 		e.write64(f, uint64(e.uintFromField(f, ov)))
diff --git a/structstack.go b/structstack.go
index 5931030..f44e7ff 100644
--- a/structstack.go
+++ b/structstack.go
@@ -90,12 +90,12 @@ func (s *structstack) setcounter(f field, v reflect.Value) {
 	}
 
 	switch f.BinaryType.Kind() {
-	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
 		if int64(count)>>uint(s.wirebits(f)-1) != 0 || v.OverflowInt(int64(count)) {
 			panic(fmt.Errorf("length %d does not fit counter %s", count, f.Name))
 		}
 		v.SetInt(int64(count))
-	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
+	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
 		if uint64(count)>>uint(s.wirebits(f)) != 0 || v.OverflowUint(uint64(count)) {
 			panic(fmt.Errorf("length %d does not fit counter %s", count, f.Name))
 		}
@@ -110,6 +110,9 @@ func (s *structstack) wirebits(f field) int {
 	if bits := s.evalBits(f); bits != 0 {
 		return bits
 	}
+	if k := f.BinaryType.Kind(); k == reflect.Int || k == reflect.Uint {
+		return 32
+	}
 	return f.BinaryType.Bits()
 }
 
-- 
2.43.0


From b6fa01b2b5c7e6be6c4a438e4ee2f00f12c34375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 18/61] fix: keep all bits of little endian bit fields wider
 than a byte

Their low-order byte, which comes first, lost its upper bits whenever the
width was not a multiple of eight. Little endian byte orders other than
binary.LittleEndian were treated as big endian.
---
 decoder.go | 13 ++++++++++++-
 encoder.go | 19 ++++++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/decoder.go b/decoder.go
index 869be2d..f2f8eea 100644
--- a/decoder.go
+++ b/decoder.go
@@ -54,7 +54,7 @@ func (d *decoder) readBits(f field, outBuf []byte) {
 		// because there is no other obvious way to deal with it.
 		//
 		// Crop output buffer to relevant bytes only.
-		if d.order == binary.LittleEndian {
+		if isLittleEndian(d.order) {
 			outBuf = outBuf[:(decodedBits+7)/8]
 		} else {
 			outBuf = outBuf[len(outBuf)-(decodedBits+7)/8:]
@@ -65,6 +65,17 @@ func (d *decoder) readBits(f field, outBuf []byte) {
 		// Fast path: we are fully byte-aligned.
 		copy(outBuf, d.buf)
 		d.buf = d.buf[len(outBuf):]
+	} else if isLittleEndian(d.order) {
+		// Least significant byte first: the last byte holds the remaining bits.
+		for i := range outBuf {
+			bits := decodedBits - 8*i
+			if bits > 8 {
+				bits = 8
+			}
+			for j := 0; j < bits; j++ {
+				putBit(outBuf[i:i+1], bits, j, d.readBit())
+			}
+		}
 	} else {
 		// Slow path: work bit-by-bit.
 		// TODO: This needs to be optimized in a way that can be easily
diff --git a/encoder.go b/encoder.go
index 7dc6ad9..729b28f 100644
--- a/encoder.go
+++ b/encoder.go
@@ -32,6 +32,12 @@ func getBit(buf []byte, bitSize int, bit int) byte {
 	return (buf[len(buf)-bit/8-1] >> (uint(bit) % 8)) & 1
 }
 
+// isLittleEndian determines whether a byte order, which may be any
+// implementation, puts the least significant byte first.
+func isLittleEndian(order binary.ByteOrder) bool {
+	return order != nil && order.Uint16([]byte{1, 0}) == 1
+}
+
 func (e *encoder) writeBit(value byte) {
 	e.buf[0] |= (value & 1) << uint(7-e.bitCounter)
 	e.bitCounter++
@@ -55,7 +61,7 @@ func (e *encoder) writeBits(f field, inBuf []byte) {
 		// because there is no other obvious way to deal with it.
 		//
 		// Crop input buffer to relevant bytes only.
-		if e.order == binary.LittleEndian {
+		if isLittleEndian(e.order) {
 			inBuf = inBuf[:(encodedBits+7)/8]
 		} else {
 			inBuf = inBuf[len(inBuf)-(encodedBits+7)/8:]
@@ -66,6 +72,17 @@ func (e *encoder) writeBits(f field, inBuf []byte) {
 		// Fast path: we are fully byte-aligned.
 		copy(e.buf, inBuf)
 		e.buf = e.buf[len(inBuf):]
+	} else if isLittleEndian(e.order) {
+		// Least significant byte first: the last byte holds the remaining bits.
+		for i := range inBuf {
+			bits := encodedBits - 8*i
+			if bits > 8 {
+				bits = 8
+			}
+			for j := 0; j < bits; j++ {
+				e.writeBit(getBit(inBuf[i:i+1], bits, j))
+			}
+		}
 	} else {
 		// Slow path: work bit-by-bit.
 		// TODO: This needs to be optimized in a way that can be easily
-- 
2.43.0


From cb02fc41bc6c3f64a771de0e9dc2b7b304e090ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:01 +0000
Subject: [PATCH 19/61] fix: convert the results of in and out expressions to
 the field's type

An integer constant or a value of a differently named type could not be
assigned to or encoded for the field, structures came out as zeros, and sizes
were those of the replaced value.
---
 decoder.go     |  2 +-
 encoder.go     |  9 +++------
 structstack.go | 24 ++++++++++++++++++++++++
 3 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/decoder.go b/decoder.go
index f2f8eea..33405fe 100644
--- a/decoder.go
+++ b/decoder.go
@@ -532,6 +532,6 @@ func (d *decoder) read(f field, v reflect.Value) {
 	}
 
 	if f.InExpr != nil {
-		v.Set(reflect.ValueOf(d.evalExpr(f.InExpr)))
+		v.Set(convertResult(d.evalExpr(f.InExpr), v.Type()))
 	}
 }
diff --git a/encoder.go b/encoder.go
index 729b28f..4873663 100644
--- a/encoder.go
+++ b/encoder.go
@@ -288,19 +288,16 @@ func (e *encoder) write(f field, v reflect.Value) {
 		e.setcounter(f, v)
 	}
 
-	ov := v
-	if f.OutExpr != nil {
-		ov = reflect.ValueOf(e.evalExpr(f.OutExpr))
-	}
+	ov := e.outvalue(f, v)
 
 	switch f.BinaryType.Kind() {
 	case reflect.Ptr:
 		// Skip if pointer is nil.
-		if v.IsNil() {
+		if ov.IsNil() {
 			return
 		}
 
-		e.write(f.Elem(), v.Elem())
+		e.write(f.Elem(), ov.Elem())
 
 	case reflect.Array, reflect.Slice, reflect.String:
 		switch f.NativeType.Kind() {
diff --git a/structstack.go b/structstack.go
index f44e7ff..e59d61e 100644
--- a/structstack.go
+++ b/structstack.go
@@ -235,6 +235,8 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		return b + skipBits
 	}
 
+	val = s.outvalue(f, val)
+
 	alen := 1
 	switch f.BinaryType.Kind() {
 	case reflect.Int8, reflect.Uint8, reflect.Bool:
@@ -327,6 +329,28 @@ func (s *structstack) evalExpr(program *expr.Program) interface{} {
 	return v
 }
 
+// outvalue returns the value to encode for a field.
+func (s *structstack) outvalue(f field, v reflect.Value) reflect.Value {
+	if f.OutExpr == nil {
+		return v
+	}
+	return addressable(convertResult(s.evalExpr(f.OutExpr), v.Type()))
+}
+
+// convertResult converts the result of an expression to the type of the field
+// it is meant for, if it is the same kind of value.
+func convertResult(result interface{}, typ reflect.Type) reflect.Value {
+	v := reflect.ValueOf(result)
+	if v.Kind() == typ.Kind() && v.Type().ConvertibleTo(typ) || isNumber(v.Kind()) && isNumber(typ.Kind()) {
+		return v.Convert(typ)
+	}
+	return v
+}
+
+func isNumber(k reflect.Kind) bool {
+	return k >= reflect.Int && k <= reflect.Float64
+}
+
 func (s *structstack) push(v reflect.Value) {
 	s.stack = append(s.stack, v)
 }
-- 
2.43.0


From 40ea30b6e1dfb5aa9e769b23b755ab9aaec37359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 20/61] fix: reject negative widths from bits expressions

They shrank the computed size and wrote nothing instead of failing.
---
 structstack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structstack.go b/structstack.go
index e59d61e..3846309 100644
--- a/structstack.go
+++ b/structstack.go
@@ -42,6 +42,9 @@ func (s *structstack) evalBits(f field) int {
 	}
 	if f.BitsExpr != nil {
 		bits = reflect.ValueOf(s.evalExpr(f.BitsExpr)).Convert(reflect.TypeOf(int(0))).Interface().(int)
+		if bits < 0 {
+			panic(fmt.Errorf("negative width %d: %s", bits, f.Name))
+		}
 	}
 	return bits
 }
-- 
2.43.0


From dda3ed885d7f13582b497c04fbe66436edf412cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:34 +0000
Subject: [PATCH 21/61] fix: report unterminated string literals

The scanner looped forever, allocating memory, when a literal was not closed.
---
 expr/lex.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/expr/lex.go b/expr/lex.go
index c79c63e..52e92b3 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -373,6 +373,8 @@ func (s *scanner) scanstring(quote byte) token {
 	str := []byte{}
 	for {
 		switch {
+		case s.accept(eof):
+			panic(io.ErrUnexpectedEOF)
 		case s.accept(rune(quote)):
 			return token{kind: strtoken, sval: string(str)}
 		case s.accept('\\'):
-- 
2.43.0


From 20d08ee0acfb967a54e669d3fa7566006ddcecb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 22/61] fix: return an error for every failure to evaluate an
 expression

Syntax errors escaped Eval as panics, and so did failures signalled with a
string, by the evaluator itself or by reflect, from EvalProgram.
---
 expr/eval.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/expr/eval.go b/expr/eval.go
index 182f164..60bcfff 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -4,24 +4,31 @@ import (
 	"fmt"
 )
 
+// recovererror stores a recovered panic in err. Not every panic carries an
+// error: reflect, for example, panics with plain strings.
+func recovererror(r interface{}, err *error) {
+	if r == nil {
+		return
+	}
+	if rerr, ok := r.(error); ok {
+		*err = rerr
+	} else {
+		*err = fmt.Errorf("%v", r)
+	}
+}
+
 // EvalProgram returns the result of executing the program with the given resolver.
 func EvalProgram(resolver Resolver, program *Program) (v interface{}, err error) {
-	defer func() {
-		if r := recover(); r != nil {
-			if rerr, ok := r.(error); ok {
-				err = rerr
-			} else {
-				panic(r)
-			}
-		}
-	}()
+	defer func() { recovererror(recover(), &err) }()
 
 	v = evalnode(resolver, program.root).RawValue()
 	return
 }
 
 // Eval returns the result of evaluating the provided expression.
-func Eval(resolver Resolver, expr string) (interface{}, error) {
+func Eval(resolver Resolver, expr string) (v interface{}, err error) {
+	defer func() { recovererror(recover(), &err) }()
+
 	return EvalProgram(resolver, ParseString(expr))
 }
 
-- 
2.43.0


From 1b20b8cc519a11ba85b7cbe8c6a43b74076321b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:12 +0000
Subject: [PATCH 23/61] fix: make map types usable

NewMapType returned a MapType where indexing and conversions look for a
*MapType, so no map could ever be indexed or compared to nil.
---
 expr/type.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr/type.go b/expr/type.go
index f863ea8..65f2b1c 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -287,7 +287,7 @@ type MapType struct {
 
 // NewMapType returns a new map type.
 func NewMapType(key Type, val Type) Type {
-	return MapType{key: key, val: val}
+	return &MapType{key: key, val: val}
 }
 
 // String implements Type.
-- 
2.43.0


From 8dff505d2df1a51987de29fb390d8b32a6a4b895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:25 +0000
Subject: [PATCH 24/61] fix: publish expression types only once they are
 complete

Other goroutines could see, and race on, a pointer or slice type without its
element type, and a failed conversion left such a type behind for good. Types
referring to themselves through maps or functions recursed without end.
---
 expr/type.go | 48 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/expr/type.go b/expr/type.go
index 65f2b1c..9020be0 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -478,12 +478,13 @@ func toreflecttype(t Type) reflect.Type {
 var typemap = map[reflect.Type]Type{}
 var typemutex = sync.Mutex{}
 
-func savetype(reflect reflect.Type, expr Type) Type {
+func savetypes(types map[reflect.Type]Type) {
 	typemutex.Lock()
 	defer typemutex.Unlock()
 
-	typemap[reflect] = expr
-	return expr
+	for reflect, expr := range types {
+		typemap[reflect] = expr
+	}
 }
 
 func loadtype(reflect reflect.Type) (Type, bool) {
@@ -498,6 +499,21 @@ func loadtype(reflect reflect.Type) (Type, bool) {
 
 // fromreflecttype converts a runtime type into an expr type.
 func fromreflecttype(t reflect.Type) Type {
+	// Types that refer to themselves are entered in pending before they are
+	// complete. They are only shared once the whole conversion has succeeded.
+	pending := map[reflect.Type]Type{}
+	et := converttype(t, pending)
+	if len(pending) != 0 {
+		savetypes(pending)
+	}
+	return et
+}
+
+func converttype(t reflect.Type, pending map[reflect.Type]Type) Type {
+	if et, ok := pending[t]; ok {
+		return et
+	}
+
 	if et, ok := loadtype(t); ok {
 		return et
 	}
@@ -509,30 +525,36 @@ func fromreflecttype(t reflect.Type) Type {
 		reflect.String:
 		return primType[t.Kind()]
 	case reflect.Array:
-		return NewArrayType(t.Len(), fromreflecttype(t.Elem()))
+		return NewArrayType(t.Len(), converttype(t.Elem(), pending))
 	case reflect.Func:
+		et := &FuncType{}
+		pending[t] = et
 		nin := t.NumIn()
 		in := make([]Type, 0, nin)
 		for i := 0; i < nin; i++ {
-			in = append(in, fromreflecttype(t.In(i)))
+			in = append(in, converttype(t.In(i), pending))
 		}
 		nout := t.NumOut()
 		out := make([]Type, 0, nout)
 		for i := 0; i < nout; i++ {
-			out = append(out, fromreflecttype(t.Out(i)))
+			out = append(out, converttype(t.Out(i), pending))
 		}
-		return NewFuncType(in, out, t.IsVariadic())
+		*et = *NewFuncType(in, out, t.IsVariadic())
+		return et
 	case reflect.Map:
-		return NewMapType(fromreflecttype(t.Key()), fromreflecttype(t.Elem()))
+		et := &MapType{}
+		pending[t] = et
+		et.key, et.val = converttype(t.Key(), pending), converttype(t.Elem(), pending)
+		return et
 	case reflect.Ptr:
 		et := &PtrType{}
-		savetype(t, et)
-		*et = *NewPtrType(fromreflecttype(t.Elem()))
+		pending[t] = et
+		*et = *NewPtrType(converttype(t.Elem(), pending))
 		return et
 	case reflect.Slice:
 		et := &SliceType{}
-		savetype(t, et)
-		*et = *NewSliceType(fromreflecttype(t.Elem()))
+		pending[t] = et
+		*et = *NewSliceType(converttype(t.Elem(), pending))
 		return et
 	case reflect.Struct:
 		fields := make([]Field, 0, t.NumField())
@@ -540,7 +562,7 @@ func fromreflecttype(t reflect.Type) Type {
 			field := t.Field(i)
 			fields = append(fields, Field{
 				Name: field.Name,
-				Type: fromreflecttype(field.Type),
+				Type: converttype(field.Type, pending),
 			})
 		}
 		return NewStructType(fields)
-- 
2.43.0


From a8fd6cf505cbb4d72d333f2d836bfe8aac3c7dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:27 +0000
Subject: [PATCH 25/61] fix: let float constants adopt the type of the other
 operand

The conversion looked at the method value instead of calling it.
---
 expr/value.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/expr/value.go b/expr/value.go
index 40896a0..7acf7fa 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -92,9 +92,9 @@ func promote(from Value, to Type) Value {
 	case UntypedFloat:
 		switch to.Kind() {
 		case Float32:
-			return val{reflect.ValueOf(float32(reflect.ValueOf(from.Value).Float())), to}
+			return val{reflect.ValueOf(float32(from.Value().Float())), to}
 		case Float64:
-			return val{reflect.ValueOf(float64(reflect.ValueOf(from.Value).Float())), to}
+			return val{reflect.ValueOf(float64(from.Value().Float())), to}
 		default:
 			panic(ConversionError{From: ftype, To: to})
 		}
-- 
2.43.0


From 9c4667e0af5d7ed4eba45cd3b9530bd78c003ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 26/61] fix: parse the and-not operator

---
 expr/parse.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expr/parse.go b/expr/parse.go
index 587bce5..b5e7036 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -166,6 +166,10 @@ func (p *parser) parseexpr(depth int) node {
 			binary(binaryand, 7)
 			continue
 		}
+		if p.accept(andnottoken) {
+			binary(binaryandnot, 7)
+			continue
+		}
 		if depth >= 6 {
 			break
 		}
-- 
2.43.0


From d0f8188f60ed997926ddb6660a92822549ed5fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:30 +0000
Subject: [PATCH 27/61] fix: parse a minus directly in front of a number as
 subtraction

A-1 and A -1 were a syntax error because the scanner had already made a
negative literal of the operator and its operand.
---
 expr/parse.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/expr/parse.go b/expr/parse.go
index b5e7036..1ae678b 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"io"
+	"strings"
 )
 
 // Program represents a parsed expression.
@@ -52,6 +53,19 @@ func (p *parser) accept(k tokenkind) bool {
 	return false
 }
 
+// acceptnegative accepts the sign of a negative number literal. The scanner
+// takes the minus for part of the literal even where it is an operator.
+func (p *parser) acceptnegative() bool {
+	t := p.readtoken()
+	if (t.kind != inttoken && t.kind != floattoken) || t.sval[0] != '-' {
+		return false
+	}
+	pos := t.pos + 1
+	p.t = newscanner(strings.NewReader(t.sval[1:])).scan()
+	p.t.pos = pos
+	return true
+}
+
 func (p *parser) expect(k tokenkind) {
 	if p.readtoken().kind != k {
 		panic(fmt.Errorf("expected %s token, got %s", k, p.t.kind))
@@ -181,6 +195,10 @@ func (p *parser) parseexpr(depth int) node {
 			binary(binarysub, 6)
 			continue
 		}
+		if p.acceptnegative() {
+			binary(binarysub, 6)
+			continue
+		}
 		if p.accept(ortoken) {
 			binary(binaryor, 6)
 			continue
-- 
2.43.0


From 19199dbe6f980ad9f4339ae5a658e19d36a5f9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:47 +0000
Subject: [PATCH 28/61] fix: give octal and hex rune escapes above 127 their
 value

They were taken for invalid UTF-8 and became U+FFFD.
---
 expr/lex.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/expr/lex.go b/expr/lex.go
index 52e92b3..5a00444 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -389,8 +389,12 @@ func (s *scanner) scanrune() token {
 	defer s.expect('\'')
 	switch {
 	case s.accept('\\'):
-		r := []rune(string(s.scanescape('\'')))
-		return token{kind: runetoken, ival: int64(r[0])}
+		b := s.scanescape('\'')
+		if len(b) == 1 {
+			return token{kind: runetoken, ival: int64(b[0])}
+		}
+		r, _ := utf8.DecodeRune(b)
+		return token{kind: runetoken, ival: int64(r)}
 	default:
 		return token{kind: runetoken, ival: int64(s.readrune())}
 	}
-- 
2.43.0


From 934d19b86cb5c0920a0b800328bfb91c00a1fdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:49 +0000
Subject: [PATCH 29/61] fix: scan float literals with a signed exponent

---
 expr/lex.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/expr/lex.go b/expr/lex.go
index 5a00444..33c18d2 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"strings"
 	"unicode"
 	"unicode/utf8"
 )
@@ -38,6 +39,10 @@ func isnumber(c rune) bool {
 	return isdigit(c) || ishex(c) || c == '.' || lower(c) == 'x'
 }
 
+func issign(c rune) bool {
+	return c == '+' || c == '-'
+}
+
 func isident(c rune) bool {
 	return isletter(c) || isdigit(c)
 }
@@ -280,6 +285,12 @@ func (s *scanner) scannumber(t token) token {
 	for {
 		if r, ok := s.acceptfn(isnumber); ok {
 			t.sval += string(r)
+			if lower(r) == 'e' && !strings.ContainsAny(t.sval, "xX") {
+				// Exponents may have a sign.
+				if r, ok := s.acceptfn(issign); ok {
+					t.sval += string(r)
+				}
+			}
 			continue
 		}
 		break
-- 
2.43.0


From 33c94b697c2af3d2b5b9dd27a2e6f983b2b727a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:16 +0000
Subject: [PATCH 30/61] fix: reject unclosed and mismatched brackets in
 expressions

---
 expr/parse.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/expr/parse.go b/expr/parse.go
index 1ae678b..d5e0ca7 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -116,6 +116,7 @@ func (p *parser) parseexpr(depth int) node {
 		n = newnilnode(p.t)
 	case p.accept(leftparentoken):
 		n = p.parseexpr(1)
+		p.expect(rightparentoken)
 	default:
 	}
 
@@ -129,10 +130,12 @@ func (p *parser) parseexpr(depth int) node {
 		}
 		if n != nil && p.accept(leftparentoken) {
 			binary(binarycall, 1)
+			p.expect(rightparentoken)
 			continue
 		}
 		if n != nil && p.accept(leftbrackettoken) {
 			binary(binarysubscript, 1)
+			p.expect(rightbrackettoken)
 			continue
 		}
 		if n == nil && p.accept(addtoken) {
@@ -259,7 +262,7 @@ func (p *parser) parseexpr(depth int) node {
 			binary(binarygroup, 2)
 			continue
 		}
-		if depth >= 1 && (p.accept(rightparentoken) || p.accept(rightbrackettoken)) {
+		if depth >= 1 {
 			break
 		}
 		p.expect(eoftoken)
-- 
2.43.0


From 0adc0384f7135dd69168ff8de6aa3b6c5d28b15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:17 +0000
Subject: [PATCH 31/61] fix: reject expressions with missing operands

They were accepted unless the missing operand happened to be evaluated. Only
the arguments of a call may be left out, which now also works.
---
 expr/eval.go  |  6 ++++--
 expr/parse.go | 23 +++++++++++++++++------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/expr/eval.go b/expr/eval.go
index 60bcfff..19ba168 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -105,8 +105,10 @@ func evalbinary(resolver Resolver, node binaryexpr) Value {
 		panic(fmt.Errorf("expected ident node, got %T", node.b))
 	case binarycall:
 		in := []Value{}
-		for _, n := range flattengroup(node.b) {
-			in = append(in, evalnode(resolver, n))
+		if node.b != nil {
+			for _, n := range flattengroup(node.b) {
+				in = append(in, evalnode(resolver, n))
+			}
 		}
 		return a.Call(in)
 	case binarygroup:
diff --git a/expr/parse.go b/expr/parse.go
index d5e0ca7..e741ffd 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -79,23 +79,34 @@ func (p *parser) expect(k tokenkind) {
 func (p *parser) parseexpr(depth int) node {
 	var n node
 
+	operand := func(depth int) node {
+		n := p.parseexpr(depth)
+		if n == nil {
+			panic(fmt.Errorf("expected operand, got %s", p.readtoken().kind))
+		}
+		return n
+	}
+
 	unary := func(op unaryop, depth int) {
-		n = unaryexpr{op: op, n: p.parseexpr(depth)}
+		n = unaryexpr{op: op, n: operand(depth)}
 	}
 
 	binary := func(op binaryop, depth int) {
 		if n == nil {
 			panic("unexpected binary op")
 		}
-		n = binaryexpr{op: op, a: n, b: p.parseexpr(depth)}
+		n = binaryexpr{op: op, a: n, b: operand(depth)}
 	}
 
 	ternary := func(depth int) {
+		if n == nil {
+			panic("unexpected ternary op")
+		}
 		t := ternaryexpr{}
 		t.a = n
-		t.b = p.parseexpr(depth)
+		t.b = operand(depth)
 		p.expect(colontoken)
-		t.c = p.parseexpr(depth)
+		t.c = operand(depth)
 		n = t
 	}
 
@@ -115,7 +126,7 @@ func (p *parser) parseexpr(depth int) node {
 	case p.accept(nilkeyword):
 		n = newnilnode(p.t)
 	case p.accept(leftparentoken):
-		n = p.parseexpr(1)
+		n = operand(1)
 		p.expect(rightparentoken)
 	default:
 	}
@@ -129,7 +140,7 @@ func (p *parser) parseexpr(depth int) node {
 			continue
 		}
 		if n != nil && p.accept(leftparentoken) {
-			binary(binarycall, 1)
+			n = binaryexpr{op: binarycall, a: n, b: p.parseexpr(1)}
 			p.expect(rightparentoken)
 			continue
 		}
-- 
2.43.0


From c6ecc20a752a0b04b6ae0cd3f16dfdda0cb9bbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:18 +0000
Subject: [PATCH 32/61] fix: bind the conditional operator looser than all
 others

Its operands could not contain a logical or, and whatever followed its last
operand was applied to its result, including a nested conditional.
---
 expr/parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr/parse.go b/expr/parse.go
index e741ffd..bcca9dc 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -263,7 +263,7 @@ func (p *parser) parseexpr(depth int) node {
 			continue
 		}
 		if p.accept(ternarytoken) {
-			ternary(3)
+			ternary(2)
 			continue
 		}
 		if depth >= 2 {
-- 
2.43.0


From dd3c1fc9273fde3ccc2ca9308b0e85b15d482ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 33/61] fix: evaluate the right operand of logical operators
 only if needed

Guards such as 'P != nil && P.X == 1' failed exactly when they were needed.
---
 expr/eval.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/expr/eval.go b/expr/eval.go
index 19ba168..6a44d10 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -2,6 +2,7 @@ package expr
 
 import (
 	"fmt"
+	"reflect"
 )
 
 // recovererror stores a recovered panic in err. Not every panic carries an
@@ -113,6 +114,11 @@ func evalbinary(resolver Resolver, node binaryexpr) Value {
 		return a.Call(in)
 	case binarygroup:
 		return evalnode(resolver, node.b)
+	case binarylogicalor, binarylogicaland:
+		// The right operand is only evaluated if it matters.
+		if lv := a.Value(); lv.Kind() == reflect.Bool && lv.Bool() == (node.op == binarylogicalor) {
+			return ValueOf(lv.Bool())
+		}
 	}
 
 	b := evalnode(resolver, node.b)
-- 
2.43.0


From 56a0fbe344fad1dd598a079dbd9d44a12ad49e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:07 +0000
Subject: [PATCH 34/61] fix: support operands of named basic types in
 expressions

Comparing a value of a type such as 'type ID uint8' to a constant was always
false, and other operators were reported as not defined for it.
---
 expr/eval.go   |  9 ++++-----
 expr/value.go  | 35 +++++++++++++++++++++++------------
 structstack.go |  8 ++++----
 3 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/expr/eval.go b/expr/eval.go
index 6a44d10..59f466e 100644
--- a/expr/eval.go
+++ b/expr/eval.go
@@ -169,12 +169,11 @@ func evalbinary(resolver Resolver, node binaryexpr) Value {
 }
 
 func evalternary(resolver Resolver, node ternaryexpr) Value {
-	a := evalnode(resolver, node.a).Value().Interface()
-	cond, ok := a.(bool)
-	if !ok {
-		panic(fmt.Errorf("unexpected type %T for ternary", cond))
+	cond := evalnode(resolver, node.a)
+	if cond.Value().Kind() != reflect.Bool {
+		panic(fmt.Errorf("unexpected type %s for ternary", cond.Type()))
 	}
-	if cond {
+	if cond.Value().Bool() {
 		return evalnode(resolver, node.b)
 	}
 	return evalnode(resolver, node.c)
diff --git a/expr/value.go b/expr/value.go
index 7acf7fa..ed9cddc 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -147,7 +147,18 @@ func promote(from Value, to Type) Value {
 	}
 }
 
+// basic returns v as a value of its basic type if it is of a named type, such
+// as 'type ID uint8'. The operators are defined in terms of the basic types.
+func basic(v Value) Value {
+	t, ok := primRType[v.Type().Kind()]
+	if !ok || v.Value().Type() == t {
+		return v
+	}
+	return val{v.Value().Convert(t), v.Type()}
+}
+
 func coerce1(v Value) Value {
+	v = basic(v)
 	if v.Type().Kind() == UntypedInt {
 		switch n := v.RawValue().(type) {
 		case uint64:
@@ -163,9 +174,9 @@ func coerce(lhs Value, rhs Value) (Value, Value) {
 	if TypeEqual(lhs.Type(), rhs.Type()) {
 		return coerce1(lhs), coerce1(rhs)
 	} else if assignable(lhs.Type(), rhs.Type()) {
-		return promote(lhs, rhs.Type()), rhs
+		return promote(lhs, rhs.Type()), basic(rhs)
 	} else if assignable(rhs.Type(), lhs.Type()) {
-		return lhs, promote(rhs, lhs.Type())
+		return basic(lhs), promote(rhs, lhs.Type())
 	}
 	panic(ConversionError{From: lhs.Type(), To: rhs.Type()})
 }
@@ -183,7 +194,7 @@ func (v val) RawValue() interface{} {
 }
 
 func (v val) Negate() Value {
-	switch n := v.RawValue().(type) {
+	switch n := basic(v).RawValue().(type) {
 	case int:
 		return val{reflect.ValueOf(-n), v.t}
 	case int8:
@@ -216,7 +227,7 @@ func (v val) Negate() Value {
 }
 
 func (v val) Not() Value {
-	switch n := v.RawValue().(type) {
+	switch n := basic(v).RawValue().(type) {
 	case bool:
 		return val{reflect.ValueOf(!n), v.t}
 	default:
@@ -225,7 +236,7 @@ func (v val) Not() Value {
 }
 
 func (v val) BitNot() Value {
-	switch n := v.RawValue().(type) {
+	switch n := basic(v).RawValue().(type) {
 	case int:
 		return val{reflect.ValueOf(^n), v.t}
 	case int8:
@@ -285,12 +296,12 @@ func (v val) Dot(ident string) Value {
 }
 
 func (v val) LogicalOr(rhs Value) Value {
-	lv, ok := v.RawValue().(bool)
+	lv, ok := basic(v).RawValue().(bool)
 	if !ok {
 		panic(InvalidOpError{Op: "||", V: v})
 	}
 
-	rv, ok := rhs.RawValue().(bool)
+	rv, ok := basic(rhs).RawValue().(bool)
 	if !ok {
 		panic(InvalidOpError{Op: "||", V: rhs})
 	}
@@ -299,12 +310,12 @@ func (v val) LogicalOr(rhs Value) Value {
 }
 
 func (v val) LogicalAnd(rhs Value) Value {
-	lv, ok := v.RawValue().(bool)
+	lv, ok := basic(v).RawValue().(bool)
 	if !ok {
 		panic(InvalidOpError{Op: "&&", V: v})
 	}
 
-	rv, ok := rhs.RawValue().(bool)
+	rv, ok := basic(rhs).RawValue().(bool)
 	if !ok {
 		panic(InvalidOpError{Op: "&&", V: rhs})
 	}
@@ -690,7 +701,7 @@ func (v val) Lsh(rhs Value) Value {
 	l := coerce1(v)
 	shift := uint64(0)
 
-	switch rv := rhs.RawValue().(type) {
+	switch rv := basic(rhs).RawValue().(type) {
 	case uint:
 		shift = uint64(rv)
 	case uint8:
@@ -739,7 +750,7 @@ func (v val) Rsh(rhs Value) Value {
 	l := coerce1(v)
 	shift := uint64(0)
 
-	switch rv := rhs.RawValue().(type) {
+	switch rv := basic(rhs).RawValue().(type) {
 	case uint:
 		shift = uint64(rv)
 	case uint8:
@@ -847,7 +858,7 @@ func (v val) AndNot(rhs Value) Value {
 func (v val) Index(rhs Value) Value {
 	if v.t.Kind() == String {
 		index := promote(rhs, NewPrimitiveType(Int)).RawValue().(int)
-		return val{reflect.ValueOf(v.RawValue().(string)[index]), NewPrimitiveType(Uint8)}
+		return val{reflect.ValueOf(v.v.String()[index]), NewPrimitiveType(Uint8)}
 	}
 	switch t := v.t.(type) {
 	case *ArrayType:
diff --git a/structstack.go b/structstack.go
index 3846309..32f6872 100644
--- a/structstack.go
+++ b/structstack.go
@@ -61,15 +61,15 @@ func (s *structstack) evalIf(f field) bool {
 	if f.IfExpr == nil {
 		return true
 	}
-	if b, ok := s.evalExpr(f.IfExpr).(bool); ok {
-		return b
+	if b := reflect.ValueOf(s.evalExpr(f.IfExpr)); b.Kind() == reflect.Bool {
+		return b.Bool()
 	}
 	panic("expected bool value for if expr")
 }
 
 func (s *structstack) evalWhile(f field) bool {
-	if b, ok := s.evalExpr(f.WhileExpr).(bool); ok {
-		return b
+	if b := reflect.ValueOf(s.evalExpr(f.WhileExpr)); b.Kind() == reflect.Bool {
+		return b.Bool()
 	}
 	panic("expected bool value for while expr")
 }
-- 
2.43.0


From 5d3db8fff5bcf63d6de64ea08ee3865c7ee81e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:43 +0000
Subject: [PATCH 35/61] fix: compare values to nil

The nil was given a type rebuilt from the expression type, which never is the
operand's own type if that is named, and recursed without end for types that
refer to themselves. Slices, maps and functions are comparable to nil only.
---
 expr/type.go  | 40 ----------------------------------------
 expr/value.go | 36 ++++++++++++++++++++++++++++++------
 2 files changed, 30 insertions(+), 46 deletions(-)

diff --git a/expr/type.go b/expr/type.go
index 9020be0..18c0cef 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -435,46 +435,6 @@ func TypeEqual(a, b Type) bool {
 	return reflect.DeepEqual(a, b)
 }
 
-// toreflecttype converts an expr type into a runtime type.
-func toreflecttype(t Type) reflect.Type {
-	switch t := t.(type) {
-	case *PrimitiveType:
-		return primRType[t.Kind()]
-	case *ArrayType:
-		return reflect.ArrayOf(t.Len(), toreflecttype(t.Elem()))
-	case *SliceType:
-		return reflect.SliceOf(toreflecttype(t.Elem()))
-	case *StructType:
-		fields := make([]reflect.StructField, 0, t.NumFields())
-		for i := 0; i < t.NumFields(); i++ {
-			field := t.Field(i)
-			fields = append(fields, reflect.StructField{
-				Name: field.Name,
-				Type: toreflecttype(field.Type),
-			})
-		}
-		return reflect.StructOf(fields)
-	case *MapType:
-		return reflect.MapOf(toreflecttype(t.Key()), toreflecttype(t.Value()))
-	case *PtrType:
-		return reflect.PtrTo(toreflecttype(t.Elem()))
-	case *FuncType:
-		nin := t.NumIn()
-		in := make([]reflect.Type, 0, nin)
-		for i := 0; i < nin; i++ {
-			in = append(in, toreflecttype(t.In(i)))
-		}
-		nout := t.NumOut()
-		out := make([]reflect.Type, 0, nout)
-		for i := 0; i < nout; i++ {
-			out = append(out, toreflecttype(t.Out(i)))
-		}
-		return reflect.FuncOf(in, out, t.IsVariadic())
-	default:
-		panic(ErrNotRepresentable)
-	}
-}
-
 var typemap = map[reflect.Type]Type{}
 var typemutex = sync.Mutex{}
 
diff --git a/expr/value.go b/expr/value.go
index ed9cddc..f7ad8c1 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -140,8 +140,6 @@ func promote(from Value, to Type) Value {
 		default:
 			panic(ConversionError{From: ftype, To: to})
 		}
-	case UntypedNil:
-		return val{reflect.Zero(toreflecttype(to)), to}
 	default:
 		panic(ConversionError{From: ftype, To: to})
 	}
@@ -170,7 +168,21 @@ func coerce1(v Value) Value {
 	return v
 }
 
+// promotenil converts an untyped nil to the given type.
+func promotenil(from Value, to Type, rto reflect.Type) Value {
+	if from.Type().Kind() == UntypedNil && assignable(from.Type(), to) {
+		return val{reflect.Zero(rto), to}
+	}
+	return from
+}
+
 func coerce(lhs Value, rhs Value) (Value, Value) {
+	if lhs.Value().IsValid() {
+		rhs = promotenil(rhs, lhs.Type(), lhs.Value().Type())
+	}
+	if rhs.Value().IsValid() {
+		lhs = promotenil(lhs, rhs.Type(), rhs.Value().Type())
+	}
 	if TypeEqual(lhs.Type(), rhs.Type()) {
 		return coerce1(lhs), coerce1(rhs)
 	} else if assignable(lhs.Type(), rhs.Type()) {
@@ -323,14 +335,25 @@ func (v val) LogicalAnd(rhs Value) Value {
 	return val{reflect.ValueOf(lv && rv), NewPrimitiveType(Bool)}
 }
 
+// equal compares two values. Comparing to nil is special, as it is defined for
+// types that are not otherwise comparable.
+func equal(lhs Value, rhs Value) bool {
+	l, r := coerce(lhs, rhs)
+	switch l.Type().Kind() {
+	case Slice, Map, Func:
+		if lhs.Type().Kind() == UntypedNil || rhs.Type().Kind() == UntypedNil {
+			return l.Value().IsNil() && r.Value().IsNil()
+		}
+	}
+	return l.RawValue() == r.RawValue()
+}
+
 func (v val) Equal(rhs Value) Value {
-	l, r := coerce(v, rhs)
-	return val{reflect.ValueOf(l.RawValue() == r.RawValue()), NewPrimitiveType(Bool)}
+	return val{reflect.ValueOf(equal(v, rhs)), NewPrimitiveType(Bool)}
 }
 
 func (v val) NotEqual(rhs Value) Value {
-	l, r := coerce(v, rhs)
-	return val{reflect.ValueOf(l.RawValue() != r.RawValue()), NewPrimitiveType(Bool)}
+	return val{reflect.ValueOf(!equal(v, rhs)), NewPrimitiveType(Bool)}
 }
 
 func (v val) Lesser(rhs Value) Value {
@@ -882,6 +905,7 @@ func (v val) Call(in []Value) Value {
 	}
 	inconv := []reflect.Value{}
 	for i, n := range in {
+		n = promotenil(n, ft.In(i), v.v.Type().In(i))
 		inconv = append(inconv, promote(n, ft.In(i)).Value())
 	}
 	out := v.v.Call(inconv)
-- 
2.43.0


From 0d70ddab21146ec2a75baed2dd40ac0e8e4a9de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:24 +0000
Subject: [PATCH 36/61] fix: index by any integer type, named map keys and
 missing map keys

---
 expr/value.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/expr/value.go b/expr/value.go
index f7ad8c1..833d1a2 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -878,18 +878,35 @@ func (v val) AndNot(rhs Value) Value {
 	}
 }
 
+// index converts an index into an array, slice or string, which may be of any
+// integer type.
+func index(v Value) int {
+	switch i := v.Value(); v.Type().Kind() {
+	case Int, Int8, Int16, Int32, Int64:
+		return int(i.Int())
+	case Uint, Uint8, Uint16, Uint32, Uint64, Uintptr:
+		return int(i.Uint())
+	}
+	return promote(v, NewPrimitiveType(Int)).RawValue().(int)
+}
+
 func (v val) Index(rhs Value) Value {
 	if v.t.Kind() == String {
-		index := promote(rhs, NewPrimitiveType(Int)).RawValue().(int)
-		return val{reflect.ValueOf(v.v.String()[index]), NewPrimitiveType(Uint8)}
+		return val{reflect.ValueOf(v.v.String()[index(rhs)]), NewPrimitiveType(Uint8)}
 	}
 	switch t := v.t.(type) {
 	case *ArrayType:
-		return val{v.v.Index(promote(rhs, NewPrimitiveType(Int)).RawValue().(int)), t.Elem()}
+		return val{v.v.Index(index(rhs)), t.Elem()}
 	case *SliceType:
-		return val{v.v.Index(promote(rhs, NewPrimitiveType(Int)).RawValue().(int)), t.Elem()}
+		return val{v.v.Index(index(rhs)), t.Elem()}
 	case *MapType:
-		return val{v.v.MapIndex(promote(rhs, t.Key()).Value()), t.Value()}
+		mt := v.v.Type()
+		key := promote(promotenil(rhs, t.Key(), mt.Key()), t.Key()).Value()
+		if e := v.v.MapIndex(key.Convert(mt.Key())); e.IsValid() {
+			return val{e, t.Value()}
+		}
+		// Like in Go, a missing element is zero.
+		return val{reflect.Zero(mt.Elem()), t.Value()}
 	default:
 		panic(InvalidOpError{Op: "[]", V: v})
 	}
-- 
2.43.0


From 44ad2acdc94da114caaa45d6c9f29f9c95f3256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 37/61] fix: pass constants to parameters of named types

---
 expr/value.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/expr/value.go b/expr/value.go
index 833d1a2..ffb421c 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -923,7 +923,7 @@ func (v val) Call(in []Value) Value {
 	inconv := []reflect.Value{}
 	for i, n := range in {
 		n = promotenil(n, ft.In(i), v.v.Type().In(i))
-		inconv = append(inconv, promote(n, ft.In(i)).Value())
+		inconv = append(inconv, promote(n, ft.In(i)).Value().Convert(v.v.Type().In(i)))
 	}
 	out := v.v.Call(inconv)
 	if len(out) != 1 {
-- 
2.43.0


From 4ff2bfbe2e7ec1cb5a550cc695be67b73a253ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:27 +0000
Subject: [PATCH 38/61] fix: negate untyped integer constants as signed
 integers

---
 expr/value.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/expr/value.go b/expr/value.go
index ffb421c..31566de 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -205,8 +205,16 @@ func (v val) RawValue() interface{} {
 	return v.v.Interface()
 }
 
+// signed returns an untyped integer constant with a sign, to negate it.
+func signed(v Value) Value {
+	if n, ok := v.RawValue().(uint64); ok && v.Type().Kind() == UntypedInt {
+		return val{reflect.ValueOf(int64(n)), v.Type()}
+	}
+	return v
+}
+
 func (v val) Negate() Value {
-	switch n := basic(v).RawValue().(type) {
+	switch n := signed(basic(v)).RawValue().(type) {
 	case int:
 		return val{reflect.ValueOf(-n), v.t}
 	case int8:
@@ -248,7 +256,7 @@ func (v val) Not() Value {
 }
 
 func (v val) BitNot() Value {
-	switch n := basic(v).RawValue().(type) {
+	switch n := signed(basic(v)).RawValue().(type) {
 	case int:
 		return val{reflect.ValueOf(^n), v.t}
 	case int8:
-- 
2.43.0


From d651d1f05bb9da0d39e443c990d1790dc5d249f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:28 +0000
Subject: [PATCH 39/61] fix: report expressions too large to evaluate instead
 of crashing

---
 expr/parse.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/expr/parse.go b/expr/parse.go
index bcca9dc..1d79e80 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -7,6 +7,11 @@ import (
 	"strings"
 )
 
+// maxoperands limits the size of an expression. Both parsing and evaluation are
+// recursive, and running out of stack space is not something that Go programs
+// can recover from.
+const maxoperands = 100000
+
 // Program represents a parsed expression.
 type Program struct {
 	root node
@@ -27,6 +32,7 @@ type parser struct {
 
 	a bool
 	t token
+	n int // Number of operands so far.
 }
 
 func newparser(s *scanner) *parser {
@@ -79,6 +85,10 @@ func (p *parser) expect(k tokenkind) {
 func (p *parser) parseexpr(depth int) node {
 	var n node
 
+	if p.n++; p.n > maxoperands {
+		panic(fmt.Errorf("expression has more than %d operands", maxoperands))
+	}
+
 	operand := func(depth int) node {
 		n := p.parseexpr(depth)
 		if n == nil {
-- 
2.43.0


From e6d02ff3717dd33e0cae2a2b5cac495118b6a1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:51 +0000
Subject: [PATCH 40/61] fix: format types that contain themselves

---
 expr/type.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/expr/type.go b/expr/type.go
index 18c0cef..4acae14 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -109,6 +109,26 @@ type Type interface {
 	String() string
 }
 
+// typestring formats a type. Types can contain themselves, like 'type T []T', so
+// deeply nested types are cut short.
+func typestring(t Type, depth int) string {
+	if depth++; depth > 16 {
+		return "..."
+	}
+	switch t := t.(type) {
+	case *ArrayType:
+		return fmt.Sprintf("[%d]%s", t.count, typestring(t.elem, depth))
+	case *SliceType:
+		return "[]" + typestring(t.elem, depth)
+	case *MapType:
+		return "map[" + typestring(t.key, depth) + "]" + typestring(t.val, depth)
+	case *PtrType:
+		return "*" + typestring(t.elem, depth)
+	default:
+		return t.String()
+	}
+}
+
 // PrimitiveType is the type of primitives.
 type PrimitiveType struct {
 	kind Kind
@@ -237,7 +257,7 @@ func NewArrayType(count int, elem Type) *ArrayType {
 
 // String implements Type.
 func (t ArrayType) String() string {
-	return fmt.Sprintf("[%d]%s", t.count, t.elem.String())
+	return typestring(&t, 0)
 }
 
 // Kind implements Type.
@@ -267,7 +287,7 @@ func NewSliceType(elem Type) *SliceType {
 
 // String implements Type.
 func (t SliceType) String() string {
-	return "[]" + t.elem.String()
+	return typestring(&t, 0)
 }
 
 // Kind implements Type.
@@ -292,7 +312,7 @@ func NewMapType(key Type, val Type) Type {
 
 // String implements Type.
 func (t MapType) String() string {
-	return "map[" + t.key.String() + "]" + t.val.String()
+	return typestring(&t, 0)
 }
 
 // Kind implements Type.
@@ -369,7 +389,7 @@ func NewPtrType(elem Type) *PtrType {
 
 // String implements Type.
 func (t PtrType) String() string {
-	return "*" + t.elem.String()
+	return typestring(&t, 0)
 }
 
 // Kind implements Type.
-- 
2.43.0


From fa5b8c3dc009b7ce0aeaa37192d8bf96a7af3828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:09 +0000
Subject: [PATCH 41/61] fix: resolve the same struct fields for types as for
 values

---
 expr/env.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/expr/env.go b/expr/env.go
index aa91293..09da29e 100644
--- a/expr/env.go
+++ b/expr/env.go
@@ -94,18 +94,19 @@ func (r *MetaResolver) Resolve(ident string) Value {
 
 // StructTypeResolver resolves types of struct fields.
 type StructTypeResolver struct {
-	struc *StructType
+	struc reflect.Type
 }
 
 // NewStructTypeResolver creates a new struct type resolver.
 func NewStructTypeResolver(s interface{}) *StructTypeResolver {
-	return &StructTypeResolver{TypeOf(s).(*StructType)}
+	return &StructTypeResolver{reflect.ValueOf(s).Type()}
 }
 
 // TypeResolve implements TypeResolver.
 func (r *StructTypeResolver) TypeResolve(ident string) Type {
-	if f, ok := r.struc.FieldByName(ident); ok {
-		return f.Type
+	// Like StructResolver, this finds promoted fields, but not unexported ones.
+	if f, ok := r.struc.FieldByName(ident); ok && f.PkgPath == "" {
+		return fromreflecttype(f.Type)
 	}
 	return nil
 }
@@ -122,7 +123,7 @@ func NewStructResolver(s reflect.Value) *StructResolver {
 
 // Resolve implements Resolver.
 func (r *StructResolver) Resolve(ident string) Value {
-	if sv := r.struc.FieldByName(ident); sv.IsValid() {
+	if sv := r.struc.FieldByName(ident); sv.IsValid() && sv.CanInterface() {
 		return ValueOf(sv.Interface())
 	}
 	return nil
-- 
2.43.0


From 8ecfe48883e08dc73109ed1ddcf01e492102b546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 42/61] fix: end while loops over elements that read nothing
 with an error

---
 decoder.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/decoder.go b/decoder.go
index 33405fe..e8d430e 100644
--- a/decoder.go
+++ b/decoder.go
@@ -192,9 +192,15 @@ func (d *decoder) readByteElems(f field, count int) []byte {
 // more returns true. The slice grows with the elements actually read, because
 // a count that comes from the data can't be trusted.
 func (d *decoder) readElems(f field, v reflect.Value, more func(i int) bool) {
-	ef := f.Elem()
+	ef, last := f.Elem(), 0
 	v.Set(reflect.MakeSlice(v.Type(), 0, 0))
 	for i := 0; more(i); i++ {
+		// Nothing will ever end a loop that makes no progress.
+		pos := 8*len(d.buf) - int(d.bitCounter)
+		if f.WhileExpr != nil && i > 0 && pos == last {
+			panic(fmt.Errorf("while condition still holds after reading nothing: %s", f.Name))
+		}
+		last = pos
 		v.Set(reflect.Append(v, reflect.Zero(ef.NativeType)))
 		d.read(ef, v.Index(i))
 	}
-- 
2.43.0


From 95bc4c70e08aeed86c9a05d30a72bca8547fe7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:12 +0000
Subject: [PATCH 43/61] fix: do not take invalid integer literals for floats

---
 expr/lex.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expr/lex.go b/expr/lex.go
index 33c18d2..01a06b7 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -296,6 +296,7 @@ func (s *scanner) scannumber(t token) token {
 		break
 	}
 	var err error
+	isfloat := strings.ContainsAny(t.sval, ".eE")
 	if t.uval, err = strconv.ParseUint(t.sval, 0, 64); err == nil {
 		t.ival = int64(t.uval)
 		t.fval = float64(t.ival)
@@ -306,6 +307,9 @@ func (s *scanner) scannumber(t token) token {
 		t.fval = float64(t.ival)
 		t.kind = inttoken
 		t.sign = true
+	} else if !isfloat {
+		// Integers that are malformed or too large are not floats.
+		return token{kind: errtoken, eval: err}
 	} else if t.fval, err = strconv.ParseFloat(t.sval, 64); err == nil {
 		t.ival = int64(t.fval)
 		t.uval = uint64(t.fval)
-- 
2.43.0


From 4434218ed0ba41841c23072312f7ccc1131885d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:20 +0000
Subject: [PATCH 44/61] fix: shift by counts of signed integer types

---
 expr/value.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/expr/value.go b/expr/value.go
index 31566de..4abe931 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -745,6 +745,12 @@ func (v val) Lsh(rhs Value) Value {
 		shift = uint64(rv)
 	case uintptr:
 		shift = uint64(rv)
+	case int, int8, int16, int32, int64:
+		// Like in Go, only negative signed shift counts are invalid.
+		if rhs.Value().Int() < 0 {
+			panic(InvalidOpError{Op: "<<", V: rhs})
+		}
+		shift = uint64(rhs.Value().Int())
 	default:
 		panic(InvalidOpError{Op: "<<", V: rhs})
 	}
@@ -794,6 +800,12 @@ func (v val) Rsh(rhs Value) Value {
 		shift = uint64(rv)
 	case uintptr:
 		shift = uint64(rv)
+	case int, int8, int16, int32, int64:
+		// Like in Go, only negative signed shift counts are invalid.
+		if rhs.Value().Int() < 0 {
+			panic(InvalidOpError{Op: ">>", V: rhs})
+		}
+		shift = uint64(rhs.Value().Int())
 	default:
 		panic(InvalidOpError{Op: ">>", V: rhs})
 	}
-- 
2.43.0


From a45ac6e83ed894f5538bb8619373287e9e2b307f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:23 +0000
Subject: [PATCH 45/61] fix: allow padding fields of struct type

---
 structstack.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/structstack.go b/structstack.go
index 32f6872..b5af2fb 100644
--- a/structstack.go
+++ b/structstack.go
@@ -212,6 +212,9 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		if !isTypeTrivial(val.Type()) && !isTypeTrivial(f.BinaryType) {
 			return skipBits
 		}
+
+		// The content of padding is irrelevant, and can't be accessed.
+		val = reflect.New(val.Type()).Elem()
 	}
 
 	if !s.evalIf(f) {
-- 
2.43.0


From 124ffcf55383314184084db1d7463823cb76cc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:17 +0000
Subject: [PATCH 46/61] fix: reject tag options with an empty name or
 expression

---
 tag.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tag.go b/tag.go
index 92ee33b..0c14549 100644
--- a/tag.go
+++ b/tag.go
@@ -96,6 +96,9 @@ func (opts *tagOptions) parse(tag string) error {
 				return "", fmt.Errorf("invalid identifier character %c", r)
 			}
 		}
+		if i == 0 {
+			return "", errors.New("expected identifier")
+		}
 		result := tag[:i]
 		tag = tag[i:]
 		return result, nil
@@ -168,6 +171,9 @@ func (opts *tagOptions) parse(tag string) error {
 				}
 			}
 		}
+		if i == 0 {
+			return "", errors.New("expected expression")
+		}
 		result := tag[:i]
 		tag = tag[i:]
 		return result, nil
-- 
2.43.0


From 737e2b79b90f9f2d964d05bd6af113a5139b6aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:50 +0000
Subject: [PATCH 47/61] fix: refuse to pack values longer than their fixed-size
 field

---
 encoder.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/encoder.go b/encoder.go
index 4873663..409ffcf 100644
--- a/encoder.go
+++ b/encoder.go
@@ -315,6 +315,9 @@ func (e *encoder) write(f field, v reflect.Value) {
 			if f.BinaryType.Kind() == reflect.Array {
 				cap = f.BinaryType.Len()
 			}
+			if len > cap {
+				panic(fmt.Errorf("%s: length exceeds fixed size (%d > %d)", f.Name, len, cap))
+			}
 			for i := 0; i < len; i++ {
 				e.write(ef, ov.Index(i))
 			}
-- 
2.43.0


From 2f21b4ab653096cafa52b80743dd4ffa0cb96247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:01 +0000
Subject: [PATCH 48/61] fix: subtract literals that cannot be negated

---
 expr/lex.go   | 4 ++--
 expr/parse.go | 7 ++++++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/expr/lex.go b/expr/lex.go
index 01a06b7..f28c411 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -309,13 +309,13 @@ func (s *scanner) scannumber(t token) token {
 		t.sign = true
 	} else if !isfloat {
 		// Integers that are malformed or too large are not floats.
-		return token{kind: errtoken, eval: err}
+		return token{kind: errtoken, sval: t.sval, eval: err}
 	} else if t.fval, err = strconv.ParseFloat(t.sval, 64); err == nil {
 		t.ival = int64(t.fval)
 		t.uval = uint64(t.fval)
 		t.kind = floattoken
 	} else {
-		return token{kind: errtoken, eval: err}
+		return token{kind: errtoken, sval: t.sval, eval: err}
 	}
 	return t
 }
diff --git a/expr/parse.go b/expr/parse.go
index 1d79e80..ad1b769 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -63,7 +63,12 @@ func (p *parser) accept(k tokenkind) bool {
 // takes the minus for part of the literal even where it is an operator.
 func (p *parser) acceptnegative() bool {
 	t := p.readtoken()
-	if (t.kind != inttoken && t.kind != floattoken) || t.sval[0] != '-' {
+	switch t.kind {
+	case inttoken, floattoken, errtoken: // -x may be out of range when x is not
+		if !strings.HasPrefix(t.sval, "-") {
+			return false
+		}
+	default:
 		return false
 	}
 	pos := t.pos + 1
-- 
2.43.0


From 1d0960b94b09e63d16ba1d62ed72451ef6282540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:29 +0000
Subject: [PATCH 49/61] fix: report dereferences of nil pointers

---
 expr/value.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/expr/value.go b/expr/value.go
index 4abe931..2478145 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -1,6 +1,7 @@
 package expr
 
 import (
+	"errors"
 	"fmt"
 	"reflect"
 )
@@ -289,6 +290,9 @@ func (v val) Deref() Value {
 	if !ok {
 		panic(InvalidOpError{Op: "*", V: v})
 	}
+	if v.v.IsNil() {
+		panic(errors.New("nil pointer dereference"))
+	}
 	return val{v.v.Elem(), ptrtype.Elem()}
 }
 
-- 
2.43.0


From 30362c2cc2e148c0eb74ab8eb7f267d294b87c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:18 +0000
Subject: [PATCH 50/61] fix: require a name after the period in expressions

---
 expr/parse.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/expr/parse.go b/expr/parse.go
index ad1b769..536013a 100644
--- a/expr/parse.go
+++ b/expr/parse.go
@@ -151,7 +151,8 @@ func (p *parser) parseexpr(depth int) node {
 			break
 		}
 		if n != nil && p.accept(periodtoken) {
-			binary(binarymember, 8)
+			p.expect(identtoken)
+			n = binaryexpr{op: binarymember, a: n, b: newidentnode(p.t)}
 			continue
 		}
 		if n != nil && p.accept(leftparentoken) {
-- 
2.43.0


From 2f4102f34160de55f9df79b83c1287dc6e942dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:40 +0000
Subject: [PATCH 51/61] fix: do not follow pointers to themselves forever

---
 expr/value.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/expr/value.go b/expr/value.go
index 2478145..c598565 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -303,6 +303,10 @@ func (v val) Ref() Value {
 	return val{v.v.Addr(), NewPtrType(v.t)}
 }
 
+// maxderefs limits how many pointers are followed to a field. Pointers can lead
+// back to themselves.
+const maxderefs = 1000
+
 func (v val) Dot(ident string) Value {
 	switch v.t.(type) {
 	case *PackageType:
@@ -314,7 +318,13 @@ func (v val) Dot(ident string) Value {
 			return val{sv, TypeOf(sv.Interface())}
 		}
 	case *PtrType:
-		return v.Deref().Dot(ident)
+		d := v.Deref()
+		for n := 0; d.Type().Kind() == Ptr && n < maxderefs; n++ {
+			d = d.Deref()
+		}
+		if d.Type().Kind() != Ptr {
+			return d.Dot(ident)
+		}
 	}
 	panic(InvalidOpError{Op: ".", V: v})
 }
-- 
2.43.0


From edc26c5854899c3becafc392619b31ee8e6ce8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:26 +0000
Subject: [PATCH 52/61] fix: do not distinguish types by nil and empty lists

---
 expr/type.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/expr/type.go b/expr/type.go
index 4acae14..d592b2b 100644
--- a/expr/type.go
+++ b/expr/type.go
@@ -348,7 +348,9 @@ func NewStructType(fields []Field) *StructType {
 	for _, field := range fields {
 		fieldMap[field.Name] = field
 	}
-	return &StructType{fields: fields, fieldMap: fieldMap}
+	// Types are equal if they are deeply equal, so it must not matter whether an
+	// empty list is nil.
+	return &StructType{fields: append([]Field(nil), fields...), fieldMap: fieldMap}
 }
 
 // String implements Type.
@@ -411,7 +413,7 @@ type FuncType struct {
 
 // NewFuncType returns a new function type.
 func NewFuncType(in []Type, out []Type, variadic bool) *FuncType {
-	return &FuncType{in: in, out: out, variadic: variadic}
+	return &FuncType{in: append([]Type(nil), in...), out: append([]Type(nil), out...), variadic: variadic}
 }
 
 // String implements Type.
-- 
2.43.0


From 1fa86d68ff45832d7d90561d2930e2f155c8215c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 53/61] fix: refuse values nested too deeply instead of
 overflowing the stack

---
 decoder.go     |  3 +++
 encoder.go     |  3 +++
 structstack.go | 20 ++++++++++++++++++++
 3 files changed, 26 insertions(+)

diff --git a/decoder.go b/decoder.go
index e8d430e..e52ba44 100644
--- a/decoder.go
+++ b/decoder.go
@@ -346,6 +346,9 @@ func (d *decoder) switc(f field, v reflect.Value, on interface{}) {
 }
 
 func (d *decoder) read(f field, v reflect.Value) {
+	d.descend()
+	defer d.ascend()
+
 	if f.Flags&RootFlag == RootFlag {
 		d.setancestor(f, v, d.root())
 		return
diff --git a/encoder.go b/encoder.go
index 409ffcf..0ad315f 100644
--- a/encoder.go
+++ b/encoder.go
@@ -231,6 +231,9 @@ func (e *encoder) switc(f field, v reflect.Value, on interface{}) {
 }
 
 func (e *encoder) write(f field, v reflect.Value) {
+	e.descend()
+	defer e.ascend()
+
 	if f.Flags&RootFlag == RootFlag {
 		e.setancestor(f, v, e.root())
 		return
diff --git a/structstack.go b/structstack.go
index b5af2fb..b2677f9 100644
--- a/structstack.go
+++ b/structstack.go
@@ -1,6 +1,7 @@
 package restruct
 
 import (
+	"errors"
 	"fmt"
 	"reflect"
 
@@ -12,12 +13,28 @@ type switchcase struct {
 	v reflect.Value
 }
 
+// maxDepth limits how deep values can nest. Values that contain themselves have
+// no end, and the depth of others may be up to the data; either would overflow
+// the goroutine stack, which can't be recovered from.
+const maxDepth = 250000
+
 type structstack struct {
 	buf       []byte
 	stack     []reflect.Value
+	depth     int
 	allowexpr bool
 }
 
+func (s *structstack) descend() {
+	if s.depth++; s.depth > maxDepth {
+		panic(errors.New("values nested too deeply"))
+	}
+}
+
+func (s *structstack) ascend() {
+	s.depth--
+}
+
 func (s *structstack) Resolve(ident string) expr.Value {
 	switch ident {
 	case "_eof":
@@ -189,6 +206,9 @@ func (s *structstack) switcbits(f field, v reflect.Value, on interface{}) (size
 
 // fieldbits determines the encoded size of a field in bits.
 func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
+	s.descend()
+	defer s.ascend()
+
 	skipBits := f.Skip * 8
 
 	if f.Flags&RootFlag == RootFlag {
-- 
2.43.0


From 31f3628755413c5806371558e27729649c756bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:29 +0000
Subject: [PATCH 54/61] fix: round integer constants only once when they become
 float32

---
 expr/value.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/expr/value.go b/expr/value.go
index c598565..caf50d8 100644
--- a/expr/value.go
+++ b/expr/value.go
@@ -100,16 +100,18 @@ func promote(from Value, to Type) Value {
 			panic(ConversionError{From: ftype, To: to})
 		}
 	case UntypedInt:
-		ival, uval, fval := int64(0), uint64(0), float64(0)
+		ival, uval, fval, sval := int64(0), uint64(0), float64(0), float32(0)
 		switch n := from.RawValue().(type) {
 		case int64:
 			ival = int64(n)
 			uval = uint64(n)
 			fval = float64(n)
+			sval = float32(n) // not of fval, which may be rounded already
 		case uint64:
 			ival = int64(n)
 			uval = uint64(n)
 			fval = float64(n)
+			sval = float32(n)
 		}
 		switch to.Kind() {
 		case Int:
@@ -135,7 +137,7 @@ func promote(from Value, to Type) Value {
 		case Uintptr:
 			return val{reflect.ValueOf(uintptr(uval)), to}
 		case Float32:
-			return val{reflect.ValueOf(float32(fval)), to}
+			return val{reflect.ValueOf(sval), to}
 		case Float64:
 			return val{reflect.ValueOf(float64(fval)), to}
 		default:
-- 
2.43.0


From c7cd691ec08d5f0e8704de04c34fb9f064cee17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:07 +0000
Subject: [PATCH 55/61] fix: limit the number of slice elements that consume no
 data

---
 decoder.go | 16 ++++++++++++++--
 packing.go |  2 +-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/decoder.go b/decoder.go
index e52ba44..7531336 100644
--- a/decoder.go
+++ b/decoder.go
@@ -23,8 +23,14 @@ type decoder struct {
 	sfields    []field
 	bitCounter uint8
 	bitSize    int
+	empty      int // number of elements read that consume no data
+	limit      int // number of such elements there can be
 }
 
+// maxEmpty is how many elements of slices can consume no data, besides one for
+// each byte of the data.
+const maxEmpty = 1 << 16
+
 func putBit(buf []byte, bitSize int, bit int, val byte) {
 	bit = bitSize - 1 - bit
 	buf[len(buf)-bit/8-1] |= (val) << (uint(bit) % 8)
@@ -197,8 +203,14 @@ func (d *decoder) readElems(f field, v reflect.Value, more func(i int) bool) {
 	for i := 0; more(i); i++ {
 		// Nothing will ever end a loop that makes no progress.
 		pos := 8*len(d.buf) - int(d.bitCounter)
-		if f.WhileExpr != nil && i > 0 && pos == last {
-			panic(fmt.Errorf("while condition still holds after reading nothing: %s", f.Name))
+		if i > 0 && pos == last {
+			if f.WhileExpr != nil {
+				panic(fmt.Errorf("while condition still holds after reading nothing: %s", f.Name))
+			}
+			// Neither can data that is not there bound a count.
+			if d.empty++; d.empty > d.limit {
+				panic(fmt.Errorf("too many elements that consume no data: %s", f.Name))
+			}
 		}
 		last = pos
 		v.Set(reflect.Append(v, reflect.Zero(ef.NativeType)))
diff --git a/packing.go b/packing.go
index 9b023f2..41911a1 100644
--- a/packing.go
+++ b/packing.go
@@ -117,7 +117,7 @@ func Unpack(data []byte, order binary.ByteOrder, v interface{}) (err error) {
 		return fmt.Errorf("restruct: cannot unpack into unaddressable value of type %s", val.Type())
 	}
 	ss := structstack{allowexpr: expressionsEnabled, buf: data}
-	d := decoder{structstack: ss, order: order}
+	d := decoder{structstack: ss, order: order, limit: maxEmpty + len(data)}
 	d.read(f, val)
 
 	return
-- 
2.43.0


From 3f5cf785e56698e0f56cc6da9b28cfae5ffbf571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:55 +0000
Subject: [PATCH 56/61] fix: link every counter that names the same slice

---
 field.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/field.go b/field.go
index 92facbf..bc5f5d7 100644
--- a/field.go
+++ b/field.go
@@ -170,7 +170,7 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 
 	count := typ.NumField()
 
-	sizeOfMap := map[string]int{}
+	sizeOfMap := map[string][]int{}
 
 	for i := 0; i < count; i++ {
 		val := typ.Field(i)
@@ -217,15 +217,17 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 		// SizeOf
 		sindex := -1
 		tindex := -1
-		if j, ok := sizeOfMap[val.Name]; ok {
+		if counters, ok := sizeOfMap[val.Name]; ok {
 			if !validSizeType(val.Type) {
 				panic(ErrInvalidSizeOf)
 			}
-			sindex = result[j].Index
-			result[j].TIndex = i
+			for _, j := range counters {
+				sindex = result[j].Index
+				result[j].TIndex = i
+			}
 			delete(sizeOfMap, val.Name)
 		} else if opts.SizeOf != "" {
-			sizeOfMap[opts.SizeOf] = len(result)
+			sizeOfMap[opts.SizeOf] = append(sizeOfMap[opts.SizeOf], len(result))
 		}
 
 		// SizeFrom
-- 
2.43.0


From 63e6992c4f1b6584ae04331732f302de8f82e334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:05 +0000
Subject: [PATCH 57/61] fix: reject escapes that are no Unicode code points

---
 expr/lex.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/expr/lex.go b/expr/lex.go
index f28c411..b48b5ed 100644
--- a/expr/lex.go
+++ b/expr/lex.go
@@ -326,6 +326,13 @@ func runebytes(r rune) []byte {
 	return runebuf[:l]
 }
 
+func validrune(code uint64) rune {
+	if code > unicode.MaxRune || !utf8.ValidRune(rune(code)) {
+		panic(fmt.Errorf("escape is invalid Unicode code point %#x", code))
+	}
+	return rune(code)
+}
+
 func (s *scanner) scanescape(quote byte) []byte {
 	switch {
 	case s.accept('a'):
@@ -368,7 +375,7 @@ func (s *scanner) scanescape(quote byte) []byte {
 		if err != nil {
 			panic(err)
 		}
-		return runebytes(rune(code))
+		return runebytes(validrune(code))
 	case s.accept('U'):
 		hex := string([]rune{
 			s.expectfn(ishex), s.expectfn(ishex), s.expectfn(ishex), s.expectfn(ishex),
@@ -378,7 +385,7 @@ func (s *scanner) scanescape(quote byte) []byte {
 		if err != nil {
 			panic(err)
 		}
-		return runebytes(rune(code))
+		return runebytes(validrune(code))
 	default:
 		panic(fmt.Errorf("unexpected escape code %c", s.readrune()))
 	}
-- 
2.43.0


From 8e51a6a3069fba22a7e5633e1492474fa458c6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:58 +0000
Subject: [PATCH 58/61] fix: check the counter role of fields that are counted
 themselves

---
 field.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/field.go b/field.go
index bc5f5d7..4ea2f77 100644
--- a/field.go
+++ b/field.go
@@ -226,7 +226,8 @@ func fieldsFromStruct(typ reflect.Type) (result fields) {
 				result[j].TIndex = i
 			}
 			delete(sizeOfMap, val.Name)
-		} else if opts.SizeOf != "" {
+		}
+		if opts.SizeOf != "" {
 			sizeOfMap[opts.SizeOf] = append(sizeOfMap[opts.SizeOf], len(result))
 		}
 
-- 
2.43.0


From 91f7692b0f272bd6bdbad4f835c83a78f183f7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:16 +0000
Subject: [PATCH 59/61] fix: size trivial values without their out expressions

---
 structstack.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/structstack.go b/structstack.go
index b2677f9..eac71fa 100644
--- a/structstack.go
+++ b/structstack.go
@@ -261,7 +261,11 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 		return b + skipBits
 	}
 
-	val = s.outvalue(f, val)
+	// The size of a trivial type does not depend on the value, which may be a
+	// stand-in that the out expression can't be evaluated for.
+	if !f.Trivial {
+		val = s.outvalue(f, val)
+	}
 
 	alen := 1
 	switch f.BinaryType.Kind() {
-- 
2.43.0


From c59dc01dd0f2e8d74dce0afc999f0361845b191f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:17 +0000
Subject: [PATCH 60/61] fix: count the elements that an out expression yields

---
 structstack.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/structstack.go b/structstack.go
index eac71fa..5991dc1 100644
--- a/structstack.go
+++ b/structstack.go
@@ -102,7 +102,7 @@ func (s *structstack) setcounter(f field, v reflect.Value) {
 		if t.SIndex != f.Index || !s.evalIf(t) {
 			continue
 		}
-		l := struc.Field(t.Index).Len()
+		l := s.outvalue(t, struc.Field(t.Index)).Len()
 		if found && l != count {
 			panic(fmt.Errorf("fields sharing counter %s differ in length (%d != %d)", f.Name, l, count))
 		}
-- 
2.43.0


From 1bf27838413c94d4ccd8cb68dfe94e3d35723d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:09 +0000
Subject: [PATCH 61/61] fix: count both parts of complex values with a bit
 width

---
 structstack.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/structstack.go b/structstack.go
index 5991dc1..04349a1 100644
--- a/structstack.go
+++ b/structstack.go
@@ -258,6 +258,10 @@ func (s *structstack) fieldbits(f field, val reflect.Value) (size int) {
 	}
 
 	if b := s.evalBits(f); b != 0 {
+		// Complex values have two parts of that width.
+		if k := f.BinaryType.Kind(); k == reflect.Complex64 || k == reflect.Complex128 {
+			b *= 2
+		}
 		return b + skipBits
 	}
 
-- 
2.43.0

