From 86d68c716b7995e04876acee654b7892a131cac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:27 +0000
Subject: [PATCH 01/47] fix: write the presence bit of an optional field before
 its alignment padding

zserio aligns the value of an optional field, after its presence bit, and so
did the packed code paths; the unpacked ones and the size computations padded
before the presence bit.
---
 internal/generator/templates/bitsizeof.go.tmpl        |  7 +++----
 internal/generator/templates/decode.go.tmpl           | 11 +++++------
 internal/generator/templates/encode.go.tmpl           | 10 +++++-----
 .../templates/packing_context_bitsize.go.tmpl         |  7 +++----
 4 files changed, 16 insertions(+), 19 deletions(-)

diff --git a/internal/generator/templates/bitsizeof.go.tmpl b/internal/generator/templates/bitsizeof.go.tmpl
index e0c685c..6521641 100644
--- a/internal/generator/templates/bitsizeof.go.tmpl
+++ b/internal/generator/templates/bitsizeof.go.tmpl
@@ -19,14 +19,13 @@
 {{- if $field.OptionalClause }}
     if {{ goExpression $scope $field.OptionalClause }} {
 {{- end }}
-{{- if not (eq $field.Alignment 0) }}
-    endBitPosition += ztype.CountAlignBits(endBitPosition, {{ $field.Alignment }})
-{{- end }}
-
 {{- if $field.IsOptional}}
     endBitPosition += 1
     if v.{{ $field.Name }} != nil {
 {{- end }}
+{{- if not (eq $field.Alignment 0) }}
+    endBitPosition += ztype.CountAlignBits(endBitPosition, {{ $field.Alignment }})
+{{- end }}
 
 {{- template "encode_compound_parameters.go.tmpl" dict "pkg" $scope "field" $field "field_name" $name }}
 {{- if $field.Array }}
diff --git a/internal/generator/templates/decode.go.tmpl b/internal/generator/templates/decode.go.tmpl
index 44e5170..3c31a89 100644
--- a/internal/generator/templates/decode.go.tmpl
+++ b/internal/generator/templates/decode.go.tmpl
@@ -24,12 +24,6 @@
 {{- if $field.OptionalClause }}
     if {{ goExpression $scope $field.OptionalClause }} {
 {{- end }}
-{{- if not (eq $field.Alignment 0) }}
-    if _, err = r.Align({{ $field.Alignment }}); err != nil {
-        return err
-    }
-{{- end }}
-
 {{- $assign_str_lvalue := printf "v.%s" $field.Name }}
 {{- $assign_str_rvalue := $field_name }}
 {{- if $field.IsOptional}}
@@ -45,6 +39,11 @@
     {{- $assign_str_lvalue = "value" }}
     {{- $assign_str_rvalue = "value" }}
 {{- end }}
+{{- if not (eq $field.Alignment 0) }}
+    if _, err = r.Align({{ $field.Alignment }}); err != nil {
+        return err
+    }
+{{- end }}
 
 {{- if and (not $native.IsMarshaler) (not $field.Array) }}
     {{- if or (gt $native.Type.Bits 0) $native.Type.LengthExpression }}
diff --git a/internal/generator/templates/encode.go.tmpl b/internal/generator/templates/encode.go.tmpl
index 686bf49..0d74323 100644
--- a/internal/generator/templates/encode.go.tmpl
+++ b/internal/generator/templates/encode.go.tmpl
@@ -24,17 +24,17 @@
 {{- if $field.OptionalClause }}
     if {{ goExpression $scope $field.OptionalClause }} {
 {{- end }}
-{{- if not (eq $field.Alignment 0) }}
-    if _, err := w.Align({{ $field.Alignment }}); err != nil {
-        return err
-    }
-{{- end }}
 {{- if $field.IsOptional}}
     if err = ztype.WriteBool(w, v.{{ $field.Name }} != nil); err != nil {
         return err
     }
     if v.{{ $field.Name }} != nil {
 {{- end }}
+{{- if not (eq $field.Alignment 0) }}
+    if _, err := w.Align({{ $field.Alignment }}); err != nil {
+        return err
+    }
+{{- end }}
 {{- template "encode_compound_parameters.go.tmpl" dict "pkg" $scope "field" $field "field_name" $field_name }}
 {{- if $field.Array }}
     {{- template "array_init.go.tmpl" dict "pkg" $scope "field_name" $field_name "field" $field "native" $native }}
diff --git a/internal/generator/templates/packing_context_bitsize.go.tmpl b/internal/generator/templates/packing_context_bitsize.go.tmpl
index cf25cf7..5d04a43 100644
--- a/internal/generator/templates/packing_context_bitsize.go.tmpl
+++ b/internal/generator/templates/packing_context_bitsize.go.tmpl
@@ -18,14 +18,13 @@
     {{- end }}
 {{- end }}
 
-{{- if not (eq $field.Alignment 0) }}
-    endBitPosition += ztype.CountAlignBits(endBitPosition, {{ $field.Alignment }})
-{{- end }}
-
 {{- if $field.IsOptional}}
     endBitPosition += 1
     if v.{{ $field.Name }} != nil {
 {{- end }}
+{{- if not (eq $field.Alignment 0) }}
+    endBitPosition += ztype.CountAlignBits(endBitPosition, {{ $field.Alignment }})
+{{- end }}
 
 {{- template "encode_compound_parameters.go.tmpl" dict "pkg" $scope "field" $field "field_name" $field_name }}
 {{- if $field.Array }}
-- 
2.43.0


From 0e3e52b07a37f9dec57d30a58a777c3d1afdbc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 02/47] fix: encode unions with the zero-based choice tag,
 refuse invalid choices, pack them

The tag on the wire is the zero-based position of the chosen field. A union
without a choice, or a tag naming no field, is an error. In packed arrays
unions were not written, read or sized at all.
---
 internal/generator/templates/union.go.tmpl | 89 ++++++++++++++++++++--
 1 file changed, 84 insertions(+), 5 deletions(-)

diff --git a/internal/generator/templates/union.go.tmpl b/internal/generator/templates/union.go.tmpl
index 6db8759..cb8d4ba 100644
--- a/internal/generator/templates/union.go.tmpl
+++ b/internal/generator/templates/union.go.tmpl
@@ -33,7 +33,11 @@ func (v *{{ $union.Name}}) LoadDefaultValues() error {
 
 // MarshalZserio implements the zserio.Marshaler interface.
 func (v *{{ $union.Name}}) MarshalZserio(w zserio.Writer) error {
-  err := ztype.WriteVarsize(w, uint64(v.UnionChoice))
+  if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
+    return errors.New("{{ $union.Name }} has no valid union choice")
+  }
+  // the choice tag on the wire is the zero-based position of the field
+  err := ztype.WriteVarsize(w, uint64(v.UnionChoice) - 1)
   if err != nil {
     return err
   }
@@ -51,7 +55,10 @@ func (v *{{ $union.Name}}) UnmarshalZserio(r zserio.Reader) error {
     if err != nil {
        return err
     }
-    v.UnionChoice = {{ $union.Name }}UnionChoiceType(unionChoice)
+    if unionChoice >= {{ len $union.Fields }} {
+       return errors.New("invalid {{ $union.Name }} choice tag")
+    }
+    v.UnionChoice = {{ $union.Name }}UnionChoiceType(unionChoice + 1)
 
 {{- range $field := $union.Fields }}
    if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
@@ -66,7 +73,10 @@ func (v *{{ $union.Name}}) UnmarshalZserio(r zserio.Reader) error {
 // ZserioBitSize implements the zserio.Marshaler interface.
 func (v *{{ $union.Name}}) ZserioBitSize(bitPosition int) (int, error) {
   endBitPosition := bitPosition
-  if delta, err := ztype.UnsignedBitSize(uint64(v.UnionChoice), 5); err != nil {
+  if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
+    return 0, errors.New("{{ $union.Name }} has no valid union choice")
+  }
+  if delta, err := ztype.UnsignedBitSize(uint64(v.UnionChoice) - 1, 5); err != nil {
     return 0, err
   } else {
     endBitPosition += delta
@@ -81,6 +91,8 @@ func (v *{{ $union.Name}}) ZserioBitSize(bitPosition int) (int, error) {
 
 
 func (v *{{ $union.Name}}) ZserioCreatePackingContext(contextNode *zserio.PackingContextNode) error {
+  // the context of the union itself is used by the choice tag
+  contextNode.Context = &ztype.DeltaContext[uint64]{}
 {{- range $field := $union.Fields }}
   {{- template "packing_context_create.go.tmpl" dict "pkg" $scope "field" $field }}
 {{- end}}
@@ -90,18 +102,65 @@ func (v *{{ $union.Name}}) ZserioCreatePackingContext(contextNode *zserio.Packin
 func (v *{{ $union.Name}}) ZserioInitPackingContext(contextNode *zserio.PackingContextNode) error {
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
+  if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
+    return errors.New("{{ $union.Name }} has no valid union choice")
+  }
+  if tagContext, ok := contextNode.Context.(*ztype.DeltaContext[uint64]); !ok {
+    return errors.New("unknown context type")
+  } else {
+    tagContext.Init(ztype.ArrayTraits.VarSize, uint64(v.UnionChoice) - 1)
+  }
 {{- range $index, $field := $union.Fields }}
+  if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
   {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" $field "index" $index }}
+  }
 {{- end}}
   return nil
 }
 
 func (v *{{ $union.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingContextNode, r zserio.Reader) error {
+  childrenNodes := contextNode.GetChildren()
+  _ = childrenNodes // to avoid "declared but not used" warning
+  tagContext, ok := contextNode.Context.(*ztype.DeltaContext[uint64])
+  if !ok {
+    return errors.New("unknown context type")
+  }
+  unionChoice, err := tagContext.Read(ztype.ArrayTraits.VarSize, r)
+  if err != nil {
+    return err
+  }
+  if unionChoice >= {{ len $union.Fields }} {
+    return errors.New("invalid {{ $union.Name }} choice tag")
+  }
+  v.UnionChoice = {{ $union.Name }}UnionChoiceType(unionChoice + 1)
+{{- range $index, $field := $union.Fields }}
+  if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+{{template "packing_context_decode.go.tmpl" dict "pkg" $scope "field" $field "index" $index }}
+  }
+{{- end}}
   return nil
 }
 
 
-func (v *{{ $union.Name}}) MarshalZserioPacked(contextNode *zserio.PackingContextNode, r zserio.Writer) error {
+func (v *{{ $union.Name}}) MarshalZserioPacked(contextNode *zserio.PackingContextNode, w zserio.Writer) error {
+  childrenNodes := contextNode.GetChildren()
+  _ = childrenNodes // to avoid "declared but not used" warning
+  if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
+    return errors.New("{{ $union.Name }} has no valid union choice")
+  }
+  tagContext, ok := contextNode.Context.(*ztype.DeltaContext[uint64])
+  if !ok {
+    return errors.New("unknown context type")
+  }
+  err := tagContext.Write(ztype.ArrayTraits.VarSize, w, uint64(v.UnionChoice) - 1)
+  if err != nil {
+    return err
+  }
+{{- range $index, $field := $union.Fields }}
+  if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+{{template "packing_context_encode.go.tmpl" dict "pkg" $scope "field" $field "index" $index }}
+  }
+{{- end}}
   return nil
 }
 
@@ -110,5 +169,25 @@ func (v *{{ $union.Name}}) ZserioInitializeOffsetsPacked(contextNode *zserio.Pac
 }
 
 func (v *{{ $union.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingContextNode, bitPosition int) (int, error) {
-  return 0, nil
+  endBitPosition := bitPosition
+  childrenNodes := contextNode.GetChildren()
+  _ = childrenNodes // to avoid "declared but not used" warning
+  if v.UnionChoice == {{ $union.Name }}ChoiceUndefined || v.UnionChoice > {{ len $union.Fields }} {
+    return 0, errors.New("{{ $union.Name }} has no valid union choice")
+  }
+  tagContext, ok := contextNode.Context.(*ztype.DeltaContext[uint64])
+  if !ok {
+    return 0, errors.New("unknown context type")
+  }
+  if delta, err := tagContext.BitSizeOf(ztype.ArrayTraits.VarSize, endBitPosition, uint64(v.UnionChoice) - 1); err != nil {
+    return 0, err
+  } else {
+    endBitPosition += delta
+  }
+{{- range $index, $field := $union.Fields }}
+  if v.UnionChoice == {{ $union.Name }}Choice{{ $field.Name }} {
+    {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "field" $field "index" $index }}
+  }
+{{- end}}
+  return endBitPosition - bitPosition, nil
 }
-- 
2.43.0


From a01b899259220b02c3123c757bfcc33c2415f24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 03/47] fix: report errors of writing array elements

---
 ztype/array_encode.go        | 12 +++++++++---
 ztype/object_array_encode.go | 12 +++++++++---
 ztype/object_array_traits.go |  6 +++---
 ztype/packed_array_traits.go |  6 +++---
 4 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/ztype/array_encode.go b/ztype/array_encode.go
index c3c9fca..a94a08d 100644
--- a/ztype/array_encode.go
+++ b/ztype/array_encode.go
@@ -25,7 +25,9 @@ func (array *Array[T, Y]) MarshalZserio(writer zserio.Writer) error {
 				return err
 			}
 			for _, element := range array.RawArray {
-				packedTraits.InitContext(array.PackedContext, element)
+				if err = packedTraits.InitContext(array.PackedContext, element); err != nil {
+					return err
+				}
 			}
 		}
 		for index, element := range array.RawArray {
@@ -36,10 +38,14 @@ func (array *Array[T, Y]) MarshalZserio(writer zserio.Writer) error {
 				}
 				array.checkOffsetMethod(index, count)
 			}
+			var err error
 			if array.IsPacked {
-				packedTraits.Write(array.PackedContext, writer, element)
+				err = packedTraits.Write(array.PackedContext, writer, element)
 			} else {
-				array.ArrayTraits.Write(writer, element)
+				err = array.ArrayTraits.Write(writer, element)
+			}
+			if err != nil {
+				return err
 			}
 		}
 	}
diff --git a/ztype/object_array_encode.go b/ztype/object_array_encode.go
index c14343b..7112881 100644
--- a/ztype/object_array_encode.go
+++ b/ztype/object_array_encode.go
@@ -27,7 +27,9 @@ func (array *ObjectArray[T, PT]) MarshalZserio(elements []T, writer zserio.Write
 			}
 
 			for index := 0; index < size; index++ {
-				packedTraits.InitContext(array.PackedContext, &elements[index])
+				if err = packedTraits.InitContext(array.PackedContext, &elements[index]); err != nil {
+					return err
+				}
 			}
 		}
 
@@ -41,10 +43,14 @@ func (array *ObjectArray[T, PT]) MarshalZserio(elements []T, writer zserio.Write
 				}
 				array.checkOffsetMethod(index, count)
 			}
+			var err error
 			if array.IsPacked {
-				packedTraits.Write(array.PackedContext, writer, element)
+				err = packedTraits.Write(array.PackedContext, writer, element)
 			} else {
-				arrayTraits.Write(writer, element)
+				err = arrayTraits.Write(writer, element)
+			}
+			if err != nil {
+				return err
 			}
 		}
 	}
diff --git a/ztype/object_array_traits.go b/ztype/object_array_traits.go
index 7085125..09d5dd4 100644
--- a/ztype/object_array_traits.go
+++ b/ztype/object_array_traits.go
@@ -8,7 +8,7 @@ type IPackedObjectArrayTraits[T any, PT zserio.PackableZserioType[T]] interface
 	BitSizeOf(contextNode *zserio.PackingContextNode, bitPosition int, element PT) (int, error)
 	InitializeOffsets(contextNode *zserio.PackingContextNode, bitPosition int, element PT) int
 	Read(contextNode *zserio.PackingContextNode, reader zserio.Reader, element PT) error
-	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value PT)
+	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value PT) error
 }
 
 // ObjectArrayTraits is an array traits for zserio structs, choice, union or enum types
@@ -96,6 +96,6 @@ func (traits *ObjectArrayPackedTraits[T, PT]) Read(contextNode *zserio.PackingCo
 }
 
 // Write writes an array element of a packed array traits.
-func (traits *ObjectArrayPackedTraits[T, PT]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, element PT) {
-	element.MarshalZserioPacked(contextNode, writer)
+func (traits *ObjectArrayPackedTraits[T, PT]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, element PT) error {
+	return element.MarshalZserioPacked(contextNode, writer)
 }
diff --git a/ztype/packed_array_traits.go b/ztype/packed_array_traits.go
index 5adc9a7..777eec4 100644
--- a/ztype/packed_array_traits.go
+++ b/ztype/packed_array_traits.go
@@ -11,7 +11,7 @@ type IPackedArrayTraits[T any] interface {
 	BitSizeOf(contextNode *zserio.PackingContextNode, bitPosition int, element T) (int, error)
 	InitializeOffsets(contextNode *zserio.PackingContextNode, bitPosition int, element T) int
 	Read(contextNode *zserio.PackingContextNode, reader zserio.Reader, index int) (T, error)
-	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T)
+	Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T) error
 }
 
 // PackedArrayTraits is a wrapper around array traits used when the array is
@@ -51,6 +51,6 @@ func (traits *PackedArrayTraits[T, Y]) Read(contextNode *zserio.PackingContextNo
 }
 
 // Write writes an array element of a packed array traits.
-func (traits *PackedArrayTraits[T, Y]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T) {
-	contextNode.Context.(*DeltaContext[T]).Write(traits.ArrayTraits, writer, value)
+func (traits *PackedArrayTraits[T, Y]) Write(contextNode *zserio.PackingContextNode, writer zserio.Writer, value T) error {
+	return contextNode.Context.(*DeltaContext[T]).Write(traits.ArrayTraits, writer, value)
 }
-- 
2.43.0


From 1664f24eaeabf9b48244a80ad449816d4f7a834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 04/47] fix: report errors of reading a packing descriptor

---
 ztype/delta_context.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ztype/delta_context.go b/ztype/delta_context.go
index 69bcdba..de5b10c 100644
--- a/ztype/delta_context.go
+++ b/ztype/delta_context.go
@@ -87,7 +87,9 @@ func (context *DeltaContext[T]) BitSizeOf(arrayTraits IArrayTraits[T], bitPositi
 func (context *DeltaContext[T]) Read(arrayTraits IArrayTraits[T], reader zserio.Reader) (T, error) {
 	if !context.processingStarted {
 		context.processingStarted = true
-		context.ReadDescriptor(reader)
+		if err := context.ReadDescriptor(reader); err != nil {
+			return arrayTraits.FromUint64(0), err
+		}
 		return context.readUnpacked(arrayTraits, reader)
 	}
 	if !context.isPacked {
-- 
2.43.0


From 1f6fa57255c5cb676ff1fd0dc503544c2a6b3e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:33 +0000
Subject: [PATCH 05/47] fix: size the deltas of signed elements by their signed
 difference

A change of sign was taken for a difference of almost 2^64, so that signed
arrays around zero were never packed.
---
 ztype/delta_context.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/ztype/delta_context.go b/ztype/delta_context.go
index de5b10c..386f21a 100644
--- a/ztype/delta_context.go
+++ b/ztype/delta_context.go
@@ -41,6 +41,18 @@ func absDiff(lhs, rhs uint64) uint64 {
 	return rhs - lhs
 }
 
+// orderedUint64 maps the uint64 form of an element to one with the order of
+// the elements: in the two's complement form of signed types, the negative
+// values would come after the positive ones.
+func orderedUint64[T any](value uint64) uint64 {
+	var element T
+	switch any(element).(type) {
+	case int8, int16, int32, int64:
+		return value ^ (1 << 63)
+	}
+	return value
+}
+
 // Init initializes a delta context array, and calculates the needed space per element in the final array.
 func (context *DeltaContext[T]) Init(arrayTraits IArrayTraits[T], element T) {
 	context.numElements++
@@ -53,7 +65,7 @@ func (context *DeltaContext[T]) Init(arrayTraits IArrayTraits[T], element T) {
 		context.isPacked = true
 		// Calculate the delta to the previous value, and calculate how many
 		// bits are needed to store the delta.
-		delta := absDiff(arrayTraits.AsUint64(element), *context.previousElement)
+		delta := absDiff(orderedUint64[T](arrayTraits.AsUint64(element)), orderedUint64[T](*context.previousElement))
 		maxBitNumber := bits.Len64(delta)
 		if maxBitNumber > context.maxBitNumber {
 			context.maxBitNumber = maxBitNumber
-- 
2.43.0


From df28db1640e1cfee2274c46ba52a4ab7baef0834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:04 +0000
Subject: [PATCH 06/47] fix: size varint, varuint and varuint16 array elements
 by their own ranges

---
 ztype/array_traits.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 5e5d196..84e6f4b 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -290,7 +290,7 @@ func (trait VarIntArrayTraits) NeedsReadIndex() bool {
 func (trait VarIntArrayTraits) BitSizeOf(element int64, endBitPosition int) int {
 	// the bit size of a VarInt only depends on the value, not on the position
 	// in the stream. endBitPosition is therefore ignored.
-	bitSize, _ := SignedBitSize(element, 8)
+	bitSize, _ := SignedBitSize(element, 9)
 	return bitSize
 }
 
@@ -474,7 +474,7 @@ func (trait VarUInt16ArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait VarUInt16ArrayTraits) BitSizeOf(element uint16, endBitPosition int) int {
-	bitSize, _ := UnsignedBitSize(uint64(element), 4)
+	bitSize, _ := UnsignedBitSize(uint64(element), 2)
 	return bitSize
 }
 
@@ -609,7 +609,7 @@ func (trait VarUIntArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait VarUIntArrayTraits) BitSizeOf(element uint64, endBitPosition int) int {
-	bitSize, _ := UnsignedBitSize(element, 8)
+	bitSize, _ := UnsignedBitSize(element, 9)
 	return bitSize
 }
 
-- 
2.43.0


From e92280e28bb158e1f5acbda882fa9ac621f6cf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:17 +0000
Subject: [PATCH 07/47] fix: include the length header in the sizes of extern,
 bytes and string array elements

---
 .../templates/builtin_bitsizeof.go.tmpl         |  4 ++--
 ztype/array_traits.go                           | 17 ++++++-----------
 ztype/bytes_encode.go                           | 10 ++++++++++
 ztype/extern_encode.go                          | 10 ++++++++++
 4 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/internal/generator/templates/builtin_bitsizeof.go.tmpl b/internal/generator/templates/builtin_bitsizeof.go.tmpl
index 4c6eeab..d45c3ca 100644
--- a/internal/generator/templates/builtin_bitsizeof.go.tmpl
+++ b/internal/generator/templates/builtin_bitsizeof.go.tmpl
@@ -22,8 +22,6 @@
         {{- else if eq $native.Type.Name "float16" }} endBitPosition += 16
         {{- else if eq $native.Type.Name "float32" }} endBitPosition += 32
         {{- else if eq $native.Type.Name "float64" }} endBitPosition += 64
-        {{- else if eq $native.Type.Name "extern" }} endBitPosition += int({{ $name }}.BitSize)
-        {{- else if eq $native.Type.Name "bytes" }} endBitPosition += 8 * int({{ $name }}.ByteSize)
         {{- else }}
             if delta, err := 
             {{- if eq $native.Type.Name "varuint" }} ztype.UnsignedBitSize({{ $name }}, 9)
@@ -36,6 +34,8 @@
             {{- else if eq $native.Type.Name "varint32" }} ztype.SignedBitSize(int64({{ $name }}), 4)
             {{- else if eq $native.Type.Name "varint64" }} ztype.SignedBitSize({{ $name }}, 8)
             {{- else if eq $native.Type.Name "string" }} ztype.BitSizeOfString({{ $name }})
+            {{- else if eq $native.Type.Name "extern" }} ztype.BitSizeOfExtern({{ $name }})
+            {{- else if eq $native.Type.Name "bytes" }} ztype.BitSizeOfBytes({{ $name }})
             {{- end }}; err != nil {
                 return 0, err
             } else {
diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 84e6f4b..0c49b65 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -857,15 +857,8 @@ func (trait StringArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait StringArrayTraits) BitSizeOf(element string, endBitPosition int) int {
-	byteLength := len(element)
-	bitSizeOfLength, err := SignedBitSize(int64(byteLength), 4)
-	if err != nil {
-		return 0
-	}
-
-	// the total size of a string is 8 bits for each (UTF-8) character, and a
-	// varsize type for the number of characters
-	return bitSizeOfLength + byteLength*8
+	bitSize, _ := BitSizeOfString(element)
+	return bitSize
 }
 
 func (trait StringArrayTraits) InitializeOffsets(bitPosition int, value string) int {
@@ -909,7 +902,8 @@ func (trait BitBufferArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait BitBufferArrayTraits) BitSizeOf(element *ExternType, endBitPosition int) int {
-	return int(element.BitSize)
+	bitSize, _ := BitSizeOfExtern(element)
+	return bitSize
 }
 
 func (trait BitBufferArrayTraits) InitializeOffsets(bitPosition int, value *ExternType) int {
@@ -953,7 +947,8 @@ func (trait BytesArrayTraits) NeedsReadIndex() bool {
 }
 
 func (trait BytesArrayTraits) BitSizeOf(element *BytesType, endBitPosition int) int {
-	return int(element.ByteSize) * 8
+	bitSize, _ := BitSizeOfBytes(element)
+	return bitSize
 }
 
 func (trait BytesArrayTraits) InitializeOffsets(bitPosition int, value *BytesType) int {
diff --git a/ztype/bytes_encode.go b/ztype/bytes_encode.go
index 656128d..270a661 100644
--- a/ztype/bytes_encode.go
+++ b/ztype/bytes_encode.go
@@ -13,3 +13,13 @@ func WriteBytes(w zserio.Writer, b *BytesType) error {
 	}
 	return nil
 }
+
+// BitSizeOfBytes returns the zserio bit size of a bytes type.
+func BitSizeOfBytes(b *BytesType) (int, error) {
+	// the length of a bytes type is encoded as a varsize (max 5 bytes)
+	headerSize, err := UnsignedBitSize(b.ByteSize, 5)
+	if err != nil {
+		return 0, err
+	}
+	return headerSize + 8*int(b.ByteSize), nil
+}
diff --git a/ztype/extern_encode.go b/ztype/extern_encode.go
index 52f77df..254ab66 100644
--- a/ztype/extern_encode.go
+++ b/ztype/extern_encode.go
@@ -26,3 +26,13 @@ func WriteExtern(w zserio.Writer, e *ExternType) error {
 	}
 	return nil
 }
+
+// BitSizeOfExtern returns the zserio bit size of an extern type.
+func BitSizeOfExtern(e *ExternType) (int, error) {
+	// the length of an extern type is encoded as a varsize (max 5 bytes)
+	headerSize, err := UnsignedBitSize(e.BitSize, 5)
+	if err != nil {
+		return 0, err
+	}
+	return headerSize + int(e.BitSize), nil
+}
-- 
2.43.0


From b766ad1afa592afa26b0587e197659c10f60ea63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:23 +0000
Subject: [PATCH 08/47] fix: write packed arrays of strings, floats, bytes and
 externs like unpacked ones

Their elements have no delta encoding: all were taken for 0, and only the first
one was stored.
---
 ztype/array.go        | 12 ++++++++++++
 ztype/array_decode.go |  4 ++--
 ztype/array_encode.go |  4 ++--
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/ztype/array.go b/ztype/array.go
index e5ab568..9c2cb5a 100644
--- a/ztype/array.go
+++ b/ztype/array.go
@@ -37,6 +37,18 @@ func (array *Array[T, Y]) Size() int {
 	return len(array.RawArray)
 }
 
+// usesPacking returns if the elements are written with a packing context. The
+// elements of a packed array that do not support delta encoding are written
+// like those of an unpacked array.
+func (array *Array[T, Y]) usesPacking() bool {
+	var element T
+	switch any(element).(type) {
+	case float32, float64, string, *BytesType, *ExternType:
+		return false
+	}
+	return array.IsPacked
+}
+
 // ZserioBitSize returns the total size of the unpacked array in bits.
 func (array *Array[T, Y]) ZserioBitSize(bitPosition int) (int, error) {
 	endBitPosition := bitPosition
diff --git a/ztype/array_decode.go b/ztype/array_decode.go
index 36f7c89..9791055 100644
--- a/ztype/array_decode.go
+++ b/ztype/array_decode.go
@@ -23,7 +23,7 @@ func (array *Array[T, Y]) UnmarshalZserio(reader zserio.Reader) error {
 		var element T
 		var packedTraits IPackedArrayTraits[T] = nil
 
-		if array.IsPacked {
+		if array.usesPacking() {
 			packedTraits = array.ArrayTraits.PackedTraits()
 			// A descriptor is only written for packed arrays.
 			array.PackedContext, err = packedTraits.CreateContext()
@@ -41,7 +41,7 @@ func (array *Array[T, Y]) UnmarshalZserio(reader zserio.Reader) error {
 				array.checkOffsetMethod(index, count)
 			}
 
-			if array.IsPacked {
+			if array.usesPacking() {
 				element, err = packedTraits.Read(array.PackedContext, reader, index)
 			} else {
 				element, err = array.ArrayTraits.Read(reader, index)
diff --git a/ztype/array_encode.go b/ztype/array_encode.go
index a94a08d..1e20bf4 100644
--- a/ztype/array_encode.go
+++ b/ztype/array_encode.go
@@ -16,7 +16,7 @@ func (array *Array[T, Y]) MarshalZserio(writer zserio.Writer) error {
 
 	if size > 0 {
 		var packedTraits IPackedArrayTraits[T]
-		if array.IsPacked {
+		if array.usesPacking() {
 			// descriptors are only needed if the array is packed
 			var err error
 			packedTraits = array.ArrayTraits.PackedTraits()
@@ -39,7 +39,7 @@ func (array *Array[T, Y]) MarshalZserio(writer zserio.Writer) error {
 				array.checkOffsetMethod(index, count)
 			}
 			var err error
-			if array.IsPacked {
+			if array.usesPacking() {
 				err = packedTraits.Write(array.PackedContext, writer, element)
 			} else {
 				err = array.ArrayTraits.Write(writer, element)
-- 
2.43.0


From 785ee262a00bf9359e0027e0327c018c67adb235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:05 +0000
Subject: [PATCH 09/47] fix: compute the bit sizes of arrays as they are
 written

The size of the length prefix, the padding between elements (only there with
offsets), packed arrays (sized as if unpacked, or with a packing context that
was never initialised), plain arrays (sized as empty) and conditional fields of
packed elements were wrong.
---
 .../generator/templates/bitsizeof.go.tmpl     |  2 ++
 .../templates/packing_context_bitsize.go.tmpl | 19 +++++++++++++---
 ztype/array.go                                | 22 ++++++++++++++-----
 ztype/object_array.go                         | 22 ++++++++++++++-----
 4 files changed, 52 insertions(+), 13 deletions(-)

diff --git a/internal/generator/templates/bitsizeof.go.tmpl b/internal/generator/templates/bitsizeof.go.tmpl
index 6521641..1a633ce 100644
--- a/internal/generator/templates/bitsizeof.go.tmpl
+++ b/internal/generator/templates/bitsizeof.go.tmpl
@@ -40,6 +40,8 @@
         for _, element := range {{ $name }} {
             {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
         }
+        {{- else }}
+        {{ $field.Name }}ArrayProperties.RawArray = {{ $name }}
         {{- end }}
     {{- end }}
     {{- $name = $field.Name }}
diff --git a/internal/generator/templates/packing_context_bitsize.go.tmpl b/internal/generator/templates/packing_context_bitsize.go.tmpl
index 5d04a43..dc66716 100644
--- a/internal/generator/templates/packing_context_bitsize.go.tmpl
+++ b/internal/generator/templates/packing_context_bitsize.go.tmpl
@@ -18,6 +18,10 @@
     {{- end }}
 {{- end }}
 
+{{- if $field.OptionalClause }}
+    if {{ goExpression $scope $field.OptionalClause }} {
+{{- end }}
+
 {{- if $field.IsOptional}}
     endBitPosition += 1
     if v.{{ $field.Name }} != nil {
@@ -29,10 +33,14 @@
 {{- template "encode_compound_parameters.go.tmpl" dict "pkg" $scope "field" $field "field_name" $field_name }}
 {{- if $field.Array }}
     {{- template "array_init.go.tmpl" dict "pkg" $scope "field_name" $field_name "field" $field "native" $native }}
-    
+    {{- if not $field.Array.IsPacked }}
+        // This array is implicitly packed, because its parent object is packed
+        {{ $field.Name }}ArrayProperties.IsPacked = true
+    {{- end }}
+
     {{- $traits := goArrayTraits $scope $native.Type }}
     {{- if eq $traits "ztype.ObjectArrayTraits" }}
-        if delta, err := {{ $field.Name }}ArrayProperties.ZserioBitSizePacked({{if $field.IsOptional}}*{{ end }}v.{{ $field.Name }}, endBitPosition); err != nil {
+        if delta, err := {{ $field.Name }}ArrayProperties.ZserioBitSize({{if $field.IsOptional}}*{{ end }}v.{{ $field.Name }}, endBitPosition); err != nil {
     {{- else }}
         {{- if $native.IsMarshaler }}
         for index := range {{ $field_name }} {
@@ -42,9 +50,11 @@
         for _, element := range {{ $field_name }} {
             {{ $field.Name }}ArrayProperties.RawArray = append({{ $field.Name }}ArrayProperties.RawArray, {{ goType $scope $native.Type }}(element))
         }
+        {{- else }}
+        {{ $field.Name }}ArrayProperties.RawArray = {{ $field_name }}
         {{- end }}
 
-        if delta, err := {{ $field.Name }}ArrayProperties.ZserioBitSizePacked(endBitPosition); err != nil {
+        if delta, err := {{ $field.Name }}ArrayProperties.ZserioBitSize(endBitPosition); err != nil {
     {{- end }}
         return 0, err
     } else {
@@ -78,3 +88,6 @@
 {{- if $field.IsOptional}}
     }
 {{- end }}
+{{- if $field.OptionalClause }}
+    }
+{{- end }}
diff --git a/ztype/array.go b/ztype/array.go
index 9c2cb5a..2115bba 100644
--- a/ztype/array.go
+++ b/ztype/array.go
@@ -49,12 +49,15 @@ func (array *Array[T, Y]) usesPacking() bool {
 	return array.IsPacked
 }
 
-// ZserioBitSize returns the total size of the unpacked array in bits.
+// ZserioBitSize returns the total size of the array in bits.
 func (array *Array[T, Y]) ZserioBitSize(bitPosition int) (int, error) {
+	if array.usesPacking() {
+		return array.ZserioBitSizePacked(bitPosition)
+	}
 	endBitPosition := bitPosition
 	size := array.Size()
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
@@ -63,7 +66,7 @@ func (array *Array[T, Y]) ZserioBitSize(bitPosition int) (int, error) {
 	if array.ArrayTraits.BitSizeOfIsConstant() && size > 0 {
 		var dummy T
 		elementSize := array.ArrayTraits.BitSizeOf(dummy, 0)
-		if array.setOffsetMethod != nil {
+		if array.setOffsetMethod == nil {
 			endBitPosition += size * elementSize
 		} else {
 			// all elements are spaced in the same way
@@ -86,7 +89,7 @@ func (array *Array[T, Y]) ZserioBitSizePacked(bitPosition int) (int, error) {
 	endBitPosition := bitPosition
 	size := array.Size()
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
@@ -94,12 +97,21 @@ func (array *Array[T, Y]) ZserioBitSizePacked(bitPosition int) (int, error) {
 	}
 	if size > 0 {
 		packedTraits := array.ArrayTraits.PackedTraits()
+		packedContext, err := packedTraits.CreateContext()
+		if err != nil {
+			return 0, err
+		}
+		for _, element := range array.RawArray {
+			if err = packedTraits.InitContext(packedContext, element); err != nil {
+				return 0, err
+			}
+		}
 
 		for _, element := range array.RawArray {
 			if array.setOffsetMethod != nil {
 				endBitPosition = alignTo(8, endBitPosition)
 			}
-			delta, err := packedTraits.BitSizeOf(array.PackedContext, endBitPosition, element)
+			delta, err := packedTraits.BitSizeOf(packedContext, endBitPosition, element)
 			if err != nil {
 				return 0, err
 			}
diff --git a/ztype/object_array.go b/ztype/object_array.go
index 29012b6..006379c 100644
--- a/ztype/object_array.go
+++ b/ztype/object_array.go
@@ -24,12 +24,15 @@ type ObjectArray[T any, PT zserio.PackableZserioType[T]] struct {
 	IsPacked bool
 }
 
-// ZserioBitSize returns the total size of the unpacked object array in bits.
+// ZserioBitSize returns the total size of the object array in bits.
 func (array *ObjectArray[T, PT]) ZserioBitSize(elements []T, bitPosition int) (int, error) {
+	if array.IsPacked {
+		return array.ZserioBitSizePacked(elements, bitPosition)
+	}
 	endBitPosition := bitPosition
 	size := len(elements)
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
@@ -41,7 +44,7 @@ func (array *ObjectArray[T, PT]) ZserioBitSize(elements []T, bitPosition int) (i
 	if arrayTraits.BitSizeOfIsConstant() && size > 0 {
 		var dummy PT
 		elementSize := arrayTraits.BitSizeOf(dummy, 0)
-		if array.setOffsetMethod != nil {
+		if array.setOffsetMethod == nil {
 			endBitPosition += size * elementSize
 		} else {
 			// all elements are spaced in the same way
@@ -64,7 +67,7 @@ func (array *ObjectArray[T, PT]) ZserioBitSizePacked(elements []T, bitPosition i
 	endBitPosition := bitPosition
 	size := len(elements)
 	if array.IsAuto {
-		delta, err := SignedBitSize(int64(size), 4)
+		delta, err := UnsignedBitSize(uint64(size), 5)
 		if err != nil {
 			return 0, err
 		}
@@ -73,12 +76,21 @@ func (array *ObjectArray[T, PT]) ZserioBitSizePacked(elements []T, bitPosition i
 	if size > 0 {
 		arrayTraits := ObjectArrayTraits[T, PT]{}
 		packedTraits := arrayTraits.PackedTraits()
+		packedContext, err := packedTraits.CreateContext()
+		if err != nil {
+			return 0, err
+		}
+		for i := 0; i < size; i++ {
+			if err = packedTraits.InitContext(packedContext, &elements[i]); err != nil {
+				return 0, err
+			}
+		}
 
 		for i := 0; i < size; i++ {
 			if array.setOffsetMethod != nil {
 				endBitPosition = alignTo(8, endBitPosition)
 			}
-			delta, err := packedTraits.BitSizeOf(array.PackedContext, endBitPosition, &elements[i])
+			delta, err := packedTraits.BitSizeOf(packedContext, endBitPosition, &elements[i])
 			if err != nil {
 				return 0, err
 			}
-- 
2.43.0


From 27bb0740663cca22fac366b111b772c0eb57246c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:49 +0000
Subject: [PATCH 10/47] fix: resolve parameters, fields and functions inside
 unions

---
 internal/ast/union.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/ast/union.go b/internal/ast/union.go
index 7e8dcd4..9ca57c4 100644
--- a/internal/ast/union.go
+++ b/internal/ast/union.go
@@ -21,6 +21,9 @@ func (u *Union) BuildScope(p *Package) error {
 	for _, field := range u.Fields {
 		compoundScope.Scope[field.Name] = field
 	}
+	for _, function := range u.Functions {
+		compoundScope.Scope[function.Name] = function
+	}
 	p.LocalSymbols.CompoundScopes[u.Name] = compoundScope
 	return nil
 }
@@ -30,6 +33,8 @@ func (u *Union) Evaluate(p *Package) error {
 	if len(u.TemplateParameters) > 0 {
 		return nil
 	}
+	p.LocalSymbols.CurrentCompoundScope = &u.Name
+
 	for _, param := range u.TypeParameters {
 		if err := param.Type.Evaluate(p); err != nil {
 			return err
-- 
2.43.0


From 8e0e94293570ac0b60a9ea5bf9764389381f1366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:50 +0000
Subject: [PATCH 11/47] fix: resolve the default field, the functions and
 constant labels of choices

---
 internal/ast/choice.go      | 45 +++++++++++++++++++++++++++++--------
 internal/model/transform.go | 37 ++++++++++++++++++++++++++++++
 2 files changed, 73 insertions(+), 9 deletions(-)

diff --git a/internal/ast/choice.go b/internal/ast/choice.go
index fd9f1f3..ef561c0 100644
--- a/internal/ast/choice.go
+++ b/internal/ast/choice.go
@@ -43,6 +43,12 @@ func (choice *Choice) BuildScope(p *Package) error {
 			compoundScope.Scope[choiceCase.Field.Name] = choiceCase.Field
 		}
 	}
+	if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+		compoundScope.Scope[choice.DefaultCase.Field.Name] = choice.DefaultCase.Field
+	}
+	for _, function := range choice.Functions {
+		compoundScope.Scope[function.Name] = function
+	}
 	p.LocalSymbols.CompoundScopes[choice.Name] = compoundScope
 	return nil
 }
@@ -50,6 +56,11 @@ func (choice *Choice) BuildScope(p *Package) error {
 // fullySpecifyChoiceConditions fully specifies a choice condition in case the
 // choice case is given as a text, but not a fully determined symbol.
 func (choice *Choice) fullySpecifyChoiceConditions() error {
+	// only the items of enums and bitmasks are given without their type
+	if choice.SelectorExpression.ResultType != ExpressionTypeEnum &&
+		choice.SelectorExpression.ResultType != ExpressionTypeBitmask {
+		return nil
+	}
 	for _, choiceCase := range choice.Cases {
 		for _, condition := range choiceCase.Conditions {
 			// in case the choice case is just a text string, replace that
@@ -58,17 +69,25 @@ func (choice *Choice) fullySpecifyChoiceConditions() error {
 			// ambiguous, for example if the value  is defined in more than one enum.
 			// e.g. VALUE -> EnumType.VALUE
 			if condition.Condition.Type == parser.ZserioParserID {
-				// convert the selector from the parameter type to the underlying
-				// actual type (e.g. enum, bitfield)
-				parameterType, ok := choice.SelectorExpression.ResultSymbol.Symbol.(*Parameter)
-				if !ok {
-					return errors.New("choice selector type is not a parameter")
+				// convert the selector from the parameter or field type to the
+				// underlying actual type (e.g. enum, bitfield)
+				var selectorType *TypeReference
+				if selector := choice.SelectorExpression.ResultSymbol; selector != nil {
+					switch n := selector.Symbol.(type) {
+					case *Parameter:
+						selectorType = n.Type
+					case *Field:
+						selectorType = n.Type
+					}
+				}
+				if selectorType == nil {
+					return errors.New("choice selector type is neither a parameter nor a field")
 				}
 				dotExpression := &Expression{
 					Type: parser.ZserioParserDOT,
 					Operand1: &Expression{
 						Type: parser.ZserioParserID,
-						Text: parameterType.Type.Name,
+						Text: selectorType.Name,
 					},
 					Operand2: condition.Condition,
 				}
@@ -117,8 +136,16 @@ func (choice *Choice) Evaluate(p *Package) error {
 		}
 	}
 
-	if choice.DefaultCase == nil || choice.DefaultCase.Field == nil {
-		return nil
+	if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+		if err := choice.DefaultCase.Field.Evaluate(p); err != nil {
+			return err
+		}
+	}
+
+	for _, function := range choice.Functions {
+		if err := function.Result.Evaluate(p); err != nil {
+			return err
+		}
 	}
-	return choice.DefaultCase.Field.Evaluate(p)
+	return nil
 }
diff --git a/internal/model/transform.go b/internal/model/transform.go
index 3c58d54..eff5f99 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -111,6 +111,7 @@ func (m *Model) CapitalizeNames() {
 				}
 			}
 			if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+				choice.DefaultCase.Field.ZserioName = choice.DefaultCase.Field.Name
 				choice.DefaultCase.Field.Name = strings.Title(choice.DefaultCase.Field.Name)
 				if !choice.DefaultCase.Field.Type.IsBuiltin {
 					choice.DefaultCase.Field.Type.Name = strings.Title(choice.DefaultCase.Field.Type.Name)
@@ -725,6 +726,42 @@ func (m *Model) ResolveTypes() error {
 					}
 				}
 			}
+
+			if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+				field := choice.DefaultCase.Field
+				if field.Type.Package != "" || !templateParams[field.Type.Name] {
+					if err := m.resolveTypeReference(pkg, field.Type, templateParams); err != nil {
+						return TypeError{
+							TypeReference: ast.TypeReference{
+								IsBuiltin: false,
+								Package:   pkg.Name,
+								Name:      choice.Name,
+							},
+							Field: field.Name,
+							Err:   err,
+						}
+					}
+				}
+			}
+
+			for _, function := range choice.Functions {
+				if function.ReturnType.Package == "" && templateParams[function.ReturnType.Name] {
+					// Ignore template types
+					continue
+				}
+
+				if err := m.resolveTypeReference(pkg, function.ReturnType, templateParams); err != nil {
+					return TypeError{
+						TypeReference: ast.TypeReference{
+							IsBuiltin: false,
+							Package:   pkg.Name,
+							Name:      choice.Name,
+						},
+						Field: function.Name,
+						Err:   err,
+					}
+				}
+			}
 		}
 
 		for _, union := range pkg.Unions {
-- 
2.43.0


From 2aa3d1518399eee0ca1e61d9ff006fa5e03a7c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 12/47] fix: resolve the return types of union functions

---
 internal/model/transform.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internal/model/transform.go b/internal/model/transform.go
index eff5f99..868683c 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -807,6 +807,25 @@ func (m *Model) ResolveTypes() error {
 					}
 				}
 			}
+
+			for _, function := range union.Functions {
+				if function.ReturnType.Package == "" && templateParams[function.ReturnType.Name] {
+					// Ignore template types
+					continue
+				}
+
+				if err := m.resolveTypeReference(pkg, function.ReturnType, templateParams); err != nil {
+					return TypeError{
+						TypeReference: ast.TypeReference{
+							IsBuiltin: false,
+							Package:   pkg.Name,
+							Name:      union.Name,
+						},
+						Field: function.Name,
+						Err:   err,
+					}
+				}
+			}
 		}
 
 		for _, subtype := range pkg.Subtypes {
-- 
2.43.0


From da2bbbacefea037e4f85b533c916bc0c12afc299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:52 +0000
Subject: [PATCH 13/47] fix: select choice branches by every label, for every
 selector, also when packed

---
 internal/generator/funcs.go                 | 14 ++++++++
 internal/generator/templates.go             |  1 +
 internal/generator/templates/choice.go.tmpl | 40 +++++++++++----------
 3 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/internal/generator/funcs.go b/internal/generator/funcs.go
index e33110e..a153a8e 100644
--- a/internal/generator/funcs.go
+++ b/internal/generator/funcs.go
@@ -3,6 +3,7 @@ package generator
 // This file contains helper functions that can be called from templates.
 
 import (
+	"strconv"
 	"strings"
 
 	"github.com/woven-planet/go-zserio/internal/ast"
@@ -65,6 +66,19 @@ func GoExpression(scope ast.Scope, expression *ast.Expression) string {
 	return ExpressionToGoString(scope, expression)
 }
 
+// GoChoiceLabels returns the comma-separated labels of a choice case.
+func GoChoiceLabels(choice *ast.Choice, choiceCase *ast.ChoiceCase) string {
+	labels := make([]string, 0, len(choiceCase.Conditions))
+	for _, label := range choiceCase.Conditions {
+		if choice.SelectorExpression.ResultType == ast.ExpressionTypeBool {
+			labels = append(labels, strconv.FormatBool(label.Condition.ResultBoolValue))
+		} else {
+			labels = append(labels, strconv.FormatInt(label.Condition.ResultIntValue, 10))
+		}
+	}
+	return strings.Join(labels, ", ")
+}
+
 func GoNativeType(pkg *ast.Package, typ *ast.TypeReference) (*ast.OriginalTypeReference, error) {
 	return pkg.GetOriginalType(typ)
 }
diff --git a/internal/generator/templates.go b/internal/generator/templates.go
index 0d70aae..b77ce4b 100644
--- a/internal/generator/templates.go
+++ b/internal/generator/templates.go
@@ -21,6 +21,7 @@ func init() {
 		"goGetAllImports":   GoGetAllImports,
 		"getTypeParameter":  GetTypeParameter,
 		"goPackageAlias":    GoPackageAlias,
+		"goChoiceLabels":    GoChoiceLabels,
 		"goExpression":      GoExpression,
 		"goArrayTraits":     GoArrayTraits,
 		"goNativeType":      GoNativeType,
diff --git a/internal/generator/templates/choice.go.tmpl b/internal/generator/templates/choice.go.tmpl
index 21873d1..0c9c8c3 100644
--- a/internal/generator/templates/choice.go.tmpl
+++ b/internal/generator/templates/choice.go.tmpl
@@ -36,10 +36,10 @@ func (v *{{ $choice.Name}}) LoadDefaultValues() error {
 // MarshalZserio implements the zserio.Marshaler interface.
 func (v *{{ $choice.Name}}) MarshalZserio(w zserio.Writer) error {
   var err error
-  switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+  switch {{ goExpression $scope $expr }} {
 {{- range $case := $choice.Cases }}
+  case {{ goChoiceLabels $choice . }}:
   {{- if .Field }}
-  case {{ (index .Conditions 0).Condition.ResultIntValue }}:
     {{- template "encode.go.tmpl" dict "pkg" $scope "field" .Field }}
   {{- end }}
 {{- end }}
@@ -57,10 +57,10 @@ func (v *{{ $choice.Name}}) MarshalZserio(w zserio.Writer) error {
 // UnmarshalZserio implements the zserio.Unmarshaler interface.
 func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
     var err error
-  switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+  switch {{ goExpression $scope $expr }} {
 {{- range $case := $choice.Cases }}
+  case {{ goChoiceLabels $choice . }}:
   {{- if .Field }}
-  case {{ (index .Conditions 0).Condition.ResultIntValue }}: 
     {{- template "decode.go.tmpl" dict "pkg" $scope "field" .Field }}
   {{- end }}
 {{- end }}
@@ -78,10 +78,10 @@ func (v *{{ $choice.Name}}) UnmarshalZserio(r zserio.Reader) error {
 // ZserioBitSize implements the zserio.Marshaler interface.
 func (v *{{ $choice.Name}}) ZserioBitSize(bitPosition int) (int, error) {
   endBitPosition := bitPosition
-  switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+  switch {{ goExpression $scope $expr }} {
 {{- range $case := $choice.Cases }}
+  case {{ goChoiceLabels $choice . }}:
   {{- if .Field }}
-  case {{ (index .Conditions 0).Condition.ResultIntValue }}:
     {{- template "bitsizeof.go.tmpl" dict "pkg" $scope "field" .Field "isarray" false}}
   {{- end }}
 {{- end }}
@@ -106,21 +106,21 @@ func (v *{{ $choice.Name}}) ZserioCreatePackingContext(contextNode *zserio.Packi
 }
 
 func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.PackingContextNode) error {
-{{- if $choice.Cases }}
+{{- if or $choice.Cases $choice.DefaultCase }}
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
-    switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+    switch {{ goExpression $scope $expr }} {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
+      case {{ goChoiceLabels $choice . }}:
     {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}:
       {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
   {{- end }}
   {{- if and $choice.DefaultCase $choice.DefaultCase.Field }}
     default:
-    {{- template "packing_context_create.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field }}
+    {{- template "packing_context_init.go.tmpl" dict "pkg" $scope "field" $choice.DefaultCase.Field "index" $index }}
   {{- end }}
   }
 {{- end }}
@@ -128,15 +128,15 @@ func (v *{{ $choice.Name}}) ZserioInitPackingContext(contextNode *zserio.Packing
 }
 
 func (v *{{ $choice.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingContextNode, r zserio.Reader) error {
-{{- if $choice.Cases }}
+{{- if or $choice.Cases $choice.DefaultCase }}
     var err error
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
-    switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+    switch {{ goExpression $scope $expr }} {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
+      case {{ goChoiceLabels $choice . }}:
     {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}:
       {{ template "packing_context_decode.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
@@ -152,15 +152,15 @@ func (v *{{ $choice.Name}}) UnmarshalZserioPacked(contextNode *zserio.PackingCon
 }
 
 func (v *{{ $choice.Name}}) MarshalZserioPacked(contextNode *zserio.PackingContextNode, w zserio.Writer) error {
-{{- if $choice.Cases }}
+{{- if or $choice.Cases $choice.DefaultCase }}
     var err error
     childrenNodes := contextNode.GetChildren()
     _ = childrenNodes // to avoid "declared but not used" warning
-    switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+    switch {{ goExpression $scope $expr }} {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
+      case {{ goChoiceLabels $choice . }}:
     {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}: 
       {{template "packing_context_encode.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
@@ -181,14 +181,14 @@ func (v *{{ $choice.Name}}) ZserioInitializeOffsetsPacked(contextNode *zserio.Pa
 
 func (v *{{ $choice.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingContextNode, bitPosition int) (int, error) {
   endBitPosition := bitPosition
-{{- if $choice.Cases }}
+{{- if or $choice.Cases $choice.DefaultCase }}
   childrenNodes := contextNode.GetChildren()
   _ = childrenNodes // to avoid "declared but not used" warning
-  switch (v.{{ $expr.ResultSymbol.Symbol.Name }}) {
+  switch {{ goExpression $scope $expr }} {
   {{- $index := 0 }}
   {{- range $case := $choice.Cases }}
+      case {{ goChoiceLabels $choice . }}:
     {{- if .Field }}
-      case {{ (index .Conditions 0).Condition.ResultIntValue }}:
       {{- template "packing_context_bitsize.go.tmpl" dict "pkg" $scope "field" .Field "index" $index }}
       {{- $index = (add $index 1) }}
     {{- end }}
@@ -201,3 +201,5 @@ func (v *{{ $choice.Name}}) ZserioBitSizePacked(contextNode *zserio.PackingConte
 {{- end }}
   return endBitPosition - bitPosition, nil
 }
+
+{{template "functions.go.tmpl" dict "name" $choice.Name "scope" $scope "functions" $choice.Functions }}
-- 
2.43.0


From 964a932daada3afce37a201fbeaca82b9ab8bec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:44 +0000
Subject: [PATCH 14/47] fix: do not share bit field traits between element
 types and goroutines

---
 ztype/array_traits.go | 23 ++++-------------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 0c49b65..21ceb89 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -102,29 +102,14 @@ type staticArrayTraits struct {
 	Int64     *SignedBitFieldArrayTraits[int64]
 }
 
-var (
-	mapSignedBitFieldArrayTraits []any = make([]any, 64)
-	mapBitFieldArrayTraits       []any = make([]any, 64)
-)
-
+// GetSignedBitFieldArrayTraits returns the traits of signed integers of numBits bits.
 func GetSignedBitFieldArrayTraits[T constraints.Signed](numBits uint8) *SignedBitFieldArrayTraits[T] {
-	traits := mapSignedBitFieldArrayTraits[numBits]
-	if traits == nil {
-		traits = &SignedBitFieldArrayTraits[T]{NumBits: uint8(numBits)}
-		mapSignedBitFieldArrayTraits[numBits] = traits
-	}
-
-	return traits.(*SignedBitFieldArrayTraits[T])
+	return &SignedBitFieldArrayTraits[T]{NumBits: numBits}
 }
 
+// GetBitFieldArrayTraits returns the traits of unsigned integers of numBits bits.
 func GetBitFieldArrayTraits[T constraints.Unsigned](numBits uint8) *BitFieldArrayTraits[T] {
-	traits := mapBitFieldArrayTraits[numBits]
-	if traits == nil {
-		traits = &BitFieldArrayTraits[T]{NumBits: uint8(numBits)}
-		mapBitFieldArrayTraits[numBits] = traits
-	}
-
-	return traits.(*BitFieldArrayTraits[T])
+	return &BitFieldArrayTraits[T]{NumBits: numBits}
 }
 
 // Float16ArrayTraits is an array trait implementation for float16 arrays.
-- 
2.43.0


From 915c5362cfb856f82c799bb6831ae43f58ecd5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 15/47] fix: give every definition its own file, with a name
 the Go tools build

---
 internal/generator/gen.go | 68 +++++++++++++++++++++++++++++++--------
 1 file changed, 54 insertions(+), 14 deletions(-)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index 35d6d7a..b1167b3 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -88,6 +88,8 @@ func Generate(m *model.Model, rootPath, rootPackage, outputPackage string, flags
 		return generatePackage(rootPath, pkg, opts)
 	}
 
+	// every run names its files afresh
+	uniquePaths = nil
 	for _, pkg := range m.Packages {
 		if err := generatePackage(rootPath, pkg, opts); err != nil {
 			return err
@@ -134,33 +136,71 @@ func writeToFile(code []byte, rootPath, zserioPkg, fn string, opts *options) (re
 	return writeGoSource(f, code, opts.doNotFormatSource)
 }
 
+// reservedFileNameSuffixes are the endings of file names that the Go tools do
+// not take as part of the name, but as a build constraint.
+var reservedFileNameSuffixes = func() map[string]bool {
+	suffixes := map[string]bool{"test": true}
+	for _, name := range strings.Fields(
+		"aix android darwin dragonfly freebsd hurd illumos ios js linux nacl netbsd openbsd plan9 solaris wasip1 windows zos " +
+			"386 amd64 amd64p32 arm armbe arm64 arm64be loong64 mips mipsle mips64 mips64le mips64p32 mips64p32le " +
+			"ppc ppc64 ppc64le riscv riscv64 s390 s390x sparc sparc64 wasm") {
+		suffixes[name] = true
+	}
+	return suffixes
+}()
+
+// trimToLength shortens a file path to a length, at a word boundary if there is one.
+func trimToLength(outputFile string, maxLength int) string {
+	if len(outputFile) <= maxLength {
+		return outputFile
+	}
+	outputFile = outputFile[:maxLength]
+	if strings.Contains(outputFile, "_") && strings.LastIndex(outputFile, "_") > strings.LastIndex(outputFile, "/")+1 {
+		outputFile = outputFile[:strings.LastIndex(outputFile, "_")]
+	}
+	return outputFile
+}
+
 func assembleUniqueFilePath(outputDir string, fn string, maxPathLength int) (string, error) {
 	if uniquePaths == nil {
 		uniquePaths = make(map[string]int)
 	}
 
-	if minLength := len(outputDir) + FileSuffixLength + MinFileNameLength; maxPathLength < minLength {
+	if minLength := len(outputDir) + FileSuffixLength + MinFileNameLength; maxPathLength > 0 && maxPathLength < minLength {
 		return "", fmt.Errorf("maximum path length %d is too short, at least %d required to fit output directory", maxPathLength, minLength)
 	}
 
 	outputFile := path.Join(outputDir, fn)
 
 	if maxPathLength > 0 {
-		maxLength := maxPathLength - FileSuffixLength
-		if len(outputFile) > maxLength {
-			outputFile = outputFile[:maxLength]
-			if strings.Contains(outputFile, "_") && strings.LastIndex(outputFile, "_") > strings.LastIndex(outputFile, "/") {
-				outputFile = outputFile[:strings.LastIndex(outputFile, "_")]
-			}
-		}
+		outputFile = trimToLength(outputFile, maxPathLength-FileSuffixLength)
 	}
 
-	if count, ok := uniquePaths[outputFile]; ok {
-		uniquePaths[outputFile]++
-		return fmt.Sprintf("%s_%d%s", outputFile, count, FileSuffix), nil
-	} else {
-		uniquePaths[outputFile] = 1
-		return fmt.Sprintf("%s%s", outputFile, FileSuffix), nil
+	// A name that the Go tools would ignore gets a separator at its end
+	if separator := strings.LastIndex(outputFile, "_"); separator > strings.LastIndex(outputFile, "/") && reservedFileNameSuffixes[outputFile[separator+1:]] {
+		outputFile += "_"
+	}
+
+	for index := uniquePaths[outputFile]; ; index++ {
+		candidate := outputFile
+		if index > 0 {
+			suffix := fmt.Sprintf("_%d", index)
+			if maxLength := maxPathLength - len(FileSuffix) - len(suffix); maxPathLength > 0 && len(candidate) > maxLength {
+				if maxLength <= len(outputDir)+1 {
+					return "", fmt.Errorf("maximum path length %d is too short for another file %s", maxPathLength, outputFile)
+				}
+				candidate = candidate[:maxLength]
+			}
+			candidate += suffix
+		}
+		if _, exists := uniquePaths[candidate]; exists {
+			continue
+		}
+		uniquePaths[outputFile] = index + 1
+		if candidate != outputFile {
+			uniquePaths[candidate] = 1
+		}
+		return candidate + FileSuffix, nil
 	}
 }
 
-- 
2.43.0


From 0a4ca0186b521475a1ea37e0b381f1130c7a6a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 16/47] fix: align by more than 64 bits, read zero bits as zero

---
 zstream/reader.go | 18 ++++++++++++++----
 zstream/writer.go |  9 ++++++---
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/zstream/reader.go b/zstream/reader.go
index 72748f7..113d696 100644
--- a/zstream/reader.go
+++ b/zstream/reader.go
@@ -7,6 +7,9 @@ import (
 	"github.com/icza/bitio"
 )
 
+// maxBits is the largest number of bits that can be read or written at once.
+const maxBits uint8 = 64
+
 // Reader is the input to our BitReader.
 type Reader interface {
 	io.Reader
@@ -39,6 +42,10 @@ func (r *BitReader) ReadByte() (byte, error) {
 
 // ReadBits reads n bits and returns them as the lowest n bits of u.
 func (r *BitReader) ReadBits(n uint8) (uint64, error) {
+	if n == 0 {
+		// bitio returns left over bits of the last byte in this case
+		return 0, nil
+	}
 	return r.reader.ReadBits(n)
 }
 
@@ -54,12 +61,15 @@ func (r *BitReader) Align(boundary uint8) (int64, error) {
 		return r.reader.BitsCount, nil
 	}
 
-	_, err := r.ReadBits(d)
-	if err != nil {
-		return 0, fmt.Errorf("discard: %w", err)
+	for d > 0 {
+		n := min(d, maxBits)
+		if _, err := r.ReadBits(n); err != nil {
+			return 0, fmt.Errorf("discard: %w", err)
+		}
+		d -= n
 	}
 
-	return r.reader.BitsCount, err
+	return r.reader.BitsCount, nil
 }
 
 func discard(count int64, boundary uint8) uint8 {
diff --git a/zstream/writer.go b/zstream/writer.go
index 5fb006b..6b75488 100644
--- a/zstream/writer.go
+++ b/zstream/writer.go
@@ -73,9 +73,12 @@ func (w *BitWriter) Align(boundary uint8) (int64, error) {
 		return w.writer.BitsCount, nil
 	}
 
-	err := w.WriteBits(0, d)
-	if err != nil {
-		return 0, fmt.Errorf("discard: %w", err)
+	for d > 0 {
+		n := min(d, maxBits)
+		if err := w.WriteBits(0, n); err != nil {
+			return 0, fmt.Errorf("discard: %w", err)
+		}
+		d -= n
 	}
 
 	return w.writer.BitsCount, nil
-- 
2.43.0


From ff0740ad6c30768013c0c14e233c4a4ce43d0d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:44 +0000
Subject: [PATCH 17/47] fix: report an error for integers wider than 64 bits

---
 ztype/bits_decode.go |  5 ++++-
 ztype/bits_encode.go | 12 +++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/ztype/bits_decode.go b/ztype/bits_decode.go
index c81eae2..eb5f6e2 100644
--- a/ztype/bits_decode.go
+++ b/ztype/bits_decode.go
@@ -4,13 +4,16 @@ import zserio "github.com/woven-planet/go-zserio"
 
 // ReadUnsignedBits reads an unsigned number with a given number of bits
 func ReadUnsignedBits(r zserio.Reader, bits uint8) (uint64, error) {
+	if bits > 64 {
+		return 0, ErrInvalidBitCount
+	}
 	return r.ReadBits(bits)
 }
 
 // ReadSignedBits reads an signed number with a given number of bits
 func ReadSignedBits(r zserio.Reader, bits uint8) (int64, error) {
 	if bits > 64 {
-		panic("can not read more than 64 bits")
+		return 0, ErrInvalidBitCount
 	}
 
 	u, err := r.ReadBits(bits)
diff --git a/ztype/bits_encode.go b/ztype/bits_encode.go
index ad616a9..fb883ed 100644
--- a/ztype/bits_encode.go
+++ b/ztype/bits_encode.go
@@ -10,8 +10,15 @@ import (
 // with a value that is larger than the number of bits allows for.
 var ErrValueOutOfBitRange = errors.New("value is out of range for the given number of bits")
 
+// ErrInvalidBitCount happens when an integer with more than 64 bits is read or
+// written.
+var ErrInvalidBitCount = errors.New("integers can not have more than 64 bits")
+
 // WriteUnsignedBits writes an unsigned number with a given number of bits
 func WriteUnsignedBits(w zserio.Writer, value uint64, bits uint8) error {
+	if bits > 64 {
+		return ErrInvalidBitCount
+	}
 	if value > ((1 << bits) - 1) {
 		return ErrValueOutOfBitRange
 	}
@@ -21,7 +28,10 @@ func WriteUnsignedBits(w zserio.Writer, value uint64, bits uint8) error {
 // WriteSignedBits writes an signed number with a given number of bits
 func WriteSignedBits(w zserio.Writer, value int64, bits uint8) error {
 	if bits > 64 {
-		panic("can not read more than 64 bits")
+		return ErrInvalidBitCount
+	}
+	if bits == 0 && value == 0 {
+		return nil
 	}
 
 	var min int64 = -(1 << (bits - 1))
-- 
2.43.0


From dae4c6d7f5f23082f941b2f2c1770db49761877d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:00 +0000
Subject: [PATCH 18/47] fix: refuse to write the smallest int64 as a varint64

---
 ztype/varint_encode.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ztype/varint_encode.go b/ztype/varint_encode.go
index e2dd79c..7c35566 100644
--- a/ztype/varint_encode.go
+++ b/ztype/varint_encode.go
@@ -81,6 +81,14 @@ func SignedBitSize(v int64, maxBytes int) (int, error) {
 	// Unlike the Python zserio version this version is generic and does
 	// not need a per-type table, but still gets identical performance.
 	if v < 0 {
+		if v == MinInt64 {
+			// It has no positive counterpart to count the bits of. Only
+			// varint can represent it, as a single byte.
+			if maxBytes == 9 {
+				return 8, nil
+			}
+			return 0, ErrOutOfBounds
+		}
 		v = -v
 	}
 	var max int64 = (1 << 6) - 1
-- 
2.43.0


From 542087df4d94d70d3b9a7173341adfec43396f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:39 +0000
Subject: [PATCH 19/47] fix: refuse bytes and extern values whose buffer does
 not match their size

---
 ztype/bytes_encode.go  | 6 ++++++
 ztype/extern.go        | 6 ++++++
 ztype/extern_encode.go | 8 +++++++-
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/ztype/bytes_encode.go b/ztype/bytes_encode.go
index 270a661..40ce32e 100644
--- a/ztype/bytes_encode.go
+++ b/ztype/bytes_encode.go
@@ -4,6 +4,9 @@ import zserio "github.com/woven-planet/go-zserio"
 
 // WriteBytes writes an zserio bytes type (variable size byte buffer) from a reader.
 func WriteBytes(w zserio.Writer, b *BytesType) error {
+	if b == nil || b.ByteSize != uint64(len(b.Buffer)) {
+		return ErrBufferSize
+	}
 	if err := WriteVarsize(w, b.ByteSize); err != nil {
 		return err
 	}
@@ -16,6 +19,9 @@ func WriteBytes(w zserio.Writer, b *BytesType) error {
 
 // BitSizeOfBytes returns the zserio bit size of a bytes type.
 func BitSizeOfBytes(b *BytesType) (int, error) {
+	if b == nil {
+		return 0, ErrBufferSize
+	}
 	// the length of a bytes type is encoded as a varsize (max 5 bytes)
 	headerSize, err := UnsignedBitSize(b.ByteSize, 5)
 	if err != nil {
diff --git a/ztype/extern.go b/ztype/extern.go
index 70bc59c..b49f2af 100644
--- a/ztype/extern.go
+++ b/ztype/extern.go
@@ -1,5 +1,11 @@
 package ztype
 
+import "errors"
+
+// ErrBufferSize happens when the buffer of a bytes or extern value does not hold
+// what its size says, or when there is no value at all.
+var ErrBufferSize = errors.New("buffer does not match its size")
+
 // ExternType is a helper struct to store zserio extern types
 type ExternType struct {
 	// Buffer is the content of the zserio extern type
diff --git a/ztype/extern_encode.go b/ztype/extern_encode.go
index 254ab66..9ddb655 100644
--- a/ztype/extern_encode.go
+++ b/ztype/extern_encode.go
@@ -4,6 +4,9 @@ import zserio "github.com/woven-planet/go-zserio"
 
 // WriteExtern writes an zserio extern type (variable size bitbuffer) from a reader.
 func WriteExtern(w zserio.Writer, e *ExternType) error {
+	if e == nil || e.BitSize > 8*uint64(len(e.Buffer)) {
+		return ErrBufferSize
+	}
 	if err := WriteVarsize(w, e.BitSize); err != nil {
 		return err
 	}
@@ -17,7 +20,7 @@ func WriteExtern(w zserio.Writer, e *ExternType) error {
 
 	// and the remaining 1-7 bits
 	if remainingBits != 0 {
-		lastByte := uint64(e.Buffer[len(e.Buffer)-1])
+		lastByte := uint64(e.Buffer[numOfFullBytes])
 		numOfBitShift := 8 - remainingBits
 		lastByte = lastByte >> numOfBitShift
 		if err := w.WriteBits(lastByte, remainingBits); err != nil {
@@ -29,6 +32,9 @@ func WriteExtern(w zserio.Writer, e *ExternType) error {
 
 // BitSizeOfExtern returns the zserio bit size of an extern type.
 func BitSizeOfExtern(e *ExternType) (int, error) {
+	if e == nil {
+		return 0, ErrBufferSize
+	}
 	// the length of an extern type is encoded as a varsize (max 5 bytes)
 	headerSize, err := UnsignedBitSize(e.BitSize, 5)
 	if err != nil {
-- 
2.43.0


From 0ffff114e3079a44443b519b922b19bea65cb54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:23 +0000
Subject: [PATCH 20/47] fix: refuse array elements and deltas outside the range
 of their type

The elements of bit field arrays were truncated to their width, and the
elements of packed arrays written as deltas were not checked at all.
---
 ztype/array_traits.go  |  8 ++++----
 ztype/delta_context.go | 19 ++++++++++++++++++-
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/ztype/array_traits.go b/ztype/array_traits.go
index 21ceb89..3a698de 100644
--- a/ztype/array_traits.go
+++ b/ztype/array_traits.go
@@ -694,12 +694,12 @@ func (trait BitFieldArrayTraits[T]) InitializeOffsets(bitPosition int, value T)
 }
 
 func (trait BitFieldArrayTraits[T]) Read(reader zserio.Reader, index int) (T, error) {
-	value, err := reader.ReadBits(uint8(trait.NumBits))
+	value, err := ReadUnsignedBits(reader, trait.NumBits)
 	return T(value), err
 }
 
 func (trait BitFieldArrayTraits[T]) Write(writer zserio.Writer, value T) error {
-	return writer.WriteBits(uint64(value), trait.NumBits)
+	return WriteUnsignedBits(writer, uint64(value), trait.NumBits)
 }
 
 func (trait BitFieldArrayTraits[T]) AsUint64(value T) uint64 {
@@ -755,12 +755,12 @@ func (trait SignedBitFieldArrayTraits[T]) InitializeOffsets(bitPosition int, val
 }
 
 func (trait SignedBitFieldArrayTraits[T]) Read(reader zserio.Reader, index int) (T, error) {
-	value, err := reader.ReadBits(uint8(trait.NumBits))
+	value, err := ReadUnsignedBits(reader, trait.NumBits)
 	return T(fillUpperBits(value, trait.NumBits)), err
 }
 
 func (trait SignedBitFieldArrayTraits[T]) Write(writer zserio.Writer, value T) error {
-	return writer.WriteBits(uint64(value), trait.NumBits)
+	return WriteSignedBits(writer, int64(value), trait.NumBits)
 }
 
 func (trait SignedBitFieldArrayTraits[T]) AsUint64(value T) uint64 {
diff --git a/ztype/delta_context.go b/ztype/delta_context.go
index 386f21a..2edf5e4 100644
--- a/ztype/delta_context.go
+++ b/ztype/delta_context.go
@@ -115,7 +115,10 @@ func (context *DeltaContext[T]) Read(arrayTraits IArrayTraits[T], reader zserio.
 		*context.previousElement = uint64(int64(*context.previousElement) + delta)
 	}
 	value := arrayTraits.FromUint64(*context.previousElement)
-	return value, nil
+	if arrayTraits.AsUint64(value) != *context.previousElement {
+		return arrayTraits.FromUint64(0), ErrValueOutOfBitRange
+	}
+	return value, arrayTraits.Write(discard{}, value)
 }
 
 // Write writes an element of an delta context array.
@@ -131,6 +134,10 @@ func (context *DeltaContext[T]) Write(arrayTraits IArrayTraits[T], writer zserio
 	if !context.isPacked {
 		return context.writeUnpacked(arrayTraits, writer, element)
 	}
+	// a delta has no range of its own, so refuse what can not be written plainly
+	if err := arrayTraits.Write(discard{}, element); err != nil {
+		return err
+	}
 	if context.maxBitNumber > 0 {
 		delta := arrayTraits.AsUint64(element) - *context.previousElement
 		err := writer.WriteBits(delta, uint8(context.maxBitNumber+1))
@@ -228,3 +235,13 @@ func (context *DeltaContext[T]) writeUnpacked(arrayTraits IArrayTraits[T], write
 func bitsizeOfUnpacked[T any](arrayTraits IArrayTraits[T], element T) int {
 	return arrayTraits.BitSizeOf(element, 0)
 }
+
+// discard is a writer that ignores what it is given.
+type discard struct{}
+
+func (discard) WriteByte(byte) error                { return nil }
+func (discard) Write(p []byte) (int, error)         { return len(p), nil }
+func (discard) Align(uint8) (int64, error)          { return 0, nil }
+func (discard) WriteBits(uint64, uint8) error       { return nil }
+func (discard) WriteBitsUnsafe(uint64, uint8) error { return nil }
+func (discard) WriteBool(bool) error                { return nil }
-- 
2.43.0


From 7f480f6e7e4c4cb503cedc766038e9546ccb623e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:33 +0000
Subject: [PATCH 21/47] fix: do not allocate or panic by a length found in the
 data

Strings, bytes, externs and arrays allocated their declared length before
reading any of it, and a negative array length panicked.
---
 ztype/array_decode.go        | 11 ++++++++++-
 ztype/bits_decode.go         | 10 ++++++++++
 ztype/bytes_decode.go        | 24 ++++++++++++++++++------
 ztype/extern_decode.go       | 11 ++---------
 ztype/object_array_decode.go |  7 ++++++-
 ztype/string_decode.go       |  6 ++----
 6 files changed, 48 insertions(+), 21 deletions(-)

diff --git a/ztype/array_decode.go b/ztype/array_decode.go
index 9791055..4fde720 100644
--- a/ztype/array_decode.go
+++ b/ztype/array_decode.go
@@ -1,9 +1,14 @@
 package ztype
 
 import (
+	"errors"
+
 	zserio "github.com/woven-planet/go-zserio"
 )
 
+// ErrNegativeArraySize is returned when an array with a length below zero is read.
+var ErrNegativeArraySize = errors.New("the size of an array can not be negative")
+
 // UnmarshalZserio reads an array from a bit reader, in either packed or unpacked configuration.
 func (array *Array[T, Y]) UnmarshalZserio(reader zserio.Reader) error {
 	arraySize := array.FixedSize
@@ -16,7 +21,11 @@ func (array *Array[T, Y]) UnmarshalZserio(reader zserio.Reader) error {
 		arraySize = int(u64ReadSize)
 	}
 
-	array.RawArray = make([]T, 0, arraySize)
+	if arraySize < 0 {
+		return ErrNegativeArraySize
+	}
+
+	array.RawArray = make([]T, 0, min(arraySize, maxInitialSize))
 
 	if arraySize > 0 {
 		var err error
diff --git a/ztype/bits_decode.go b/ztype/bits_decode.go
index eb5f6e2..8cc1f55 100644
--- a/ztype/bits_decode.go
+++ b/ztype/bits_decode.go
@@ -2,6 +2,16 @@ package ztype
 
 import zserio "github.com/woven-planet/go-zserio"
 
+// BitCount returns the number of bits of an integer as the functions that read
+// and write integers take it. A number that no integer can have becomes one
+// that those functions refuse.
+func BitCount(n int64) uint8 {
+	if n < 0 || n > 64 {
+		return MaxUint8
+	}
+	return uint8(n)
+}
+
 // ReadUnsignedBits reads an unsigned number with a given number of bits
 func ReadUnsignedBits(r zserio.Reader, bits uint8) (uint64, error) {
 	if bits > 64 {
diff --git a/ztype/bytes_decode.go b/ztype/bytes_decode.go
index af443d9..d2a8df7 100644
--- a/ztype/bytes_decode.go
+++ b/ztype/bytes_decode.go
@@ -1,7 +1,6 @@
 package ztype
 
 import (
-	"errors"
 	"io"
 
 	zserio "github.com/woven-planet/go-zserio"
@@ -16,13 +15,26 @@ func ReadBytes(r zserio.Reader) (*BytesType, error) {
 		return nil, err
 	}
 
-	b.Buffer = make([]byte, b.ByteSize)
-	n, err := io.ReadFull(r, b.Buffer)
+	b.Buffer, err = readBytes(r, b.ByteSize)
 	if err != nil {
 		return nil, err
 	}
-	if n != int(b.ByteSize) {
-		return nil, errors.New("read number of bytes didn't match")
-	}
 	return b, nil
 }
+
+// maxInitialSize limits the memory that is allocated for a length found in the
+// data, before that much data was seen.
+const maxInitialSize = 1 << 16
+
+// readBytes reads size bytes.
+func readBytes(r zserio.Reader, size uint64) ([]byte, error) {
+	buf := make([]byte, 0, min(size, maxInitialSize))
+	for uint64(len(buf)) < size {
+		start := len(buf)
+		buf = append(buf, make([]byte, min(size-uint64(start), uint64(max(start, maxInitialSize))))...)
+		if _, err := io.ReadFull(r, buf[start:]); err != nil {
+			return nil, err
+		}
+	}
+	return buf, nil
+}
diff --git a/ztype/extern_decode.go b/ztype/extern_decode.go
index f3aea2c..168fb80 100644
--- a/ztype/extern_decode.go
+++ b/ztype/extern_decode.go
@@ -1,9 +1,6 @@
 package ztype
 
 import (
-	"errors"
-	"io"
-
 	zserio "github.com/woven-planet/go-zserio"
 )
 
@@ -15,17 +12,13 @@ func ReadExtern(r zserio.Reader) (*ExternType, error) {
 	if err != nil {
 		return nil, err
 	}
-	numOfFullBytes := int(e.BitSize / 8)
+	numOfFullBytes := e.BitSize / 8
 	remainingBits := uint8(e.BitSize % 8)
 
-	e.Buffer = make([]byte, numOfFullBytes, numOfFullBytes+1)
-	n, err := io.ReadFull(r, e.Buffer)
+	e.Buffer, err = readBytes(r, numOfFullBytes)
 	if err != nil {
 		return nil, err
 	}
-	if n != numOfFullBytes {
-		return nil, errors.New("read number of bytes didn't match")
-	}
 	if remainingBits != 0 {
 		lastByte, err := r.ReadBits(remainingBits)
 		if err != nil {
diff --git a/ztype/object_array_decode.go b/ztype/object_array_decode.go
index 096a32e..68a3acb 100644
--- a/ztype/object_array_decode.go
+++ b/ztype/object_array_decode.go
@@ -14,7 +14,11 @@ func (array *ObjectArray[T, PT]) UnmarshalZserio(reader zserio.Reader) ([]T, err
 		arraySize = int(u64ReadSize)
 	}
 
-	result := make([]T, arraySize)
+	if arraySize < 0 {
+		return nil, ErrNegativeArraySize
+	}
+
+	result := make([]T, 0, min(arraySize, maxInitialSize))
 	arrayTraits := ObjectArrayTraits[T, PT]{}
 
 	if arraySize > 0 {
@@ -32,6 +36,7 @@ func (array *ObjectArray[T, PT]) UnmarshalZserio(reader zserio.Reader) ([]T, err
 		}
 
 		for index := 0; index < arraySize; index++ {
+			result = append(result, *new(T))
 			element = &result[index]
 			if array.SetCompoundParameterFn != nil {
 				array.SetCompoundParameterFn(index, element)
diff --git a/ztype/string_decode.go b/ztype/string_decode.go
index 8020e9f..93b1527 100644
--- a/ztype/string_decode.go
+++ b/ztype/string_decode.go
@@ -1,8 +1,6 @@
 package ztype
 
 import (
-	"io"
-
 	zserio "github.com/woven-planet/go-zserio"
 )
 
@@ -12,8 +10,8 @@ func ReadString(r zserio.Reader) (string, error) {
 	if err != nil {
 		return "", err
 	}
-	buf := make([]byte, size)
-	if _, err = io.ReadFull(r, buf); err != nil {
+	buf, err := readBytes(r, size)
+	if err != nil {
 		return "", err
 	}
 	return string(buf), nil
-- 
2.43.0


From a84e3214d912c56ed185340670d2b0a8f0b66d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:33 +0000
Subject: [PATCH 22/47] fix: refuse dynamic bit widths outside 0 to 64 instead
 of wrapping them

---
 internal/generator/templates/decode.go.tmpl                   | 2 +-
 internal/generator/templates/encode.go.tmpl                   | 2 +-
 internal/generator/templates/instantiate_array_traits.go.tmpl | 2 +-
 internal/generator/templates/packing_context_decode.go.tmpl   | 2 +-
 internal/generator/templates/packing_context_encode.go.tmpl   | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/generator/templates/decode.go.tmpl b/internal/generator/templates/decode.go.tmpl
index 3c31a89..72d3f0e 100644
--- a/internal/generator/templates/decode.go.tmpl
+++ b/internal/generator/templates/decode.go.tmpl
@@ -3,7 +3,7 @@
 {{ $native := goNativeType $scope $field.Type }}
 {{- $bit_size := $native.Type.Bits }}
 {{- if $native.Type.LengthExpression }}
-    {{- $bit_size = printf "uint8(%s)" (goExpression $scope $native.Type.LengthExpression) }}
+    {{- $bit_size = printf "ztype.BitCount(int64(%s))" (goExpression $scope $native.Type.LengthExpression) }}
 {{- end }}
 {{- $field_name := printf "v.%s" $field.Name }}
 {{- if $field.IsOptional}}
diff --git a/internal/generator/templates/encode.go.tmpl b/internal/generator/templates/encode.go.tmpl
index 0d74323..a597bf4 100644
--- a/internal/generator/templates/encode.go.tmpl
+++ b/internal/generator/templates/encode.go.tmpl
@@ -3,7 +3,7 @@
 {{ $native := goNativeType $scope $field.Type }} 
 {{- $bit_size := $native.Type.Bits }}
 {{- if $native.Type.LengthExpression }}
-    {{- $bit_size = printf "uint8(%s)" (goExpression $scope $native.Type.LengthExpression) }}
+    {{- $bit_size = printf "ztype.BitCount(int64(%s))" (goExpression $scope $native.Type.LengthExpression) }}
 {{- end }}
 {{- $field_name := printf "v.%s" $field.Name }}
 {{- if $field.IsOptional}}
diff --git a/internal/generator/templates/instantiate_array_traits.go.tmpl b/internal/generator/templates/instantiate_array_traits.go.tmpl
index a76fcdf..b59fff9 100644
--- a/internal/generator/templates/instantiate_array_traits.go.tmpl
+++ b/internal/generator/templates/instantiate_array_traits.go.tmpl
@@ -5,7 +5,7 @@
     {{- if gt $type.Bits 0 -}}
         ztype.Get{{if eq $traits "ztype.SignedBitFieldArrayTraits" }}Signed{{ end }}BitFieldArrayTraits[{{ goType $scope $type }}](uint8({{- $type.Bits }}))
     {{- else if $type.LengthExpression -}}
-        ztype.Get{{if eq $traits "ztype.SignedBitFieldArrayTraits" }}Signed{{ end }}BitFieldArrayTraits[{{ goType $scope $type }}](uint8({{- goExpression $scope $type.LengthExpression }}))
+        ztype.Get{{if eq $traits "ztype.SignedBitFieldArrayTraits" }}Signed{{ end }}BitFieldArrayTraits[{{ goType $scope $type }}](ztype.BitCount(int64({{- goExpression $scope $type.LengthExpression }})))
     {{- else if eq $type.Name "uint8" }}ztype.ArrayTraits.UInt8
     {{- else if eq $type.Name "uint16" }}ztype.ArrayTraits.UInt16
     {{- else if eq $type.Name "uint32" }}ztype.ArrayTraits.UInt32
diff --git a/internal/generator/templates/packing_context_decode.go.tmpl b/internal/generator/templates/packing_context_decode.go.tmpl
index 49fb863..18585f8 100644
--- a/internal/generator/templates/packing_context_decode.go.tmpl
+++ b/internal/generator/templates/packing_context_decode.go.tmpl
@@ -4,7 +4,7 @@
 {{ $native := goNativeType $scope $field.Type }}
 {{- $bit_size := $native.Type.Bits }}
 {{- if $native.Type.LengthExpression }}
-    {{- $bit_size = printf "uint8(%s)" (goExpression $scope $native.Type.LengthExpression) }}
+    {{- $bit_size = printf "ztype.BitCount(int64(%s))" (goExpression $scope $native.Type.LengthExpression) }}
 {{- end }}
 {{- $field_name := printf "v.%s" $field.Name }}
 {{- if $field.IsOptional}}
diff --git a/internal/generator/templates/packing_context_encode.go.tmpl b/internal/generator/templates/packing_context_encode.go.tmpl
index 9222412..f31c0ff 100644
--- a/internal/generator/templates/packing_context_encode.go.tmpl
+++ b/internal/generator/templates/packing_context_encode.go.tmpl
@@ -4,7 +4,7 @@
 {{ $native := goNativeType $scope $field.Type }} 
 {{- $bit_size := $native.Type.Bits }}
 {{- if $native.Type.LengthExpression }}
-    {{- $bit_size = printf "uint8(%s)" (goExpression $scope $native.Type.LengthExpression) }}
+    {{- $bit_size = printf "ztype.BitCount(int64(%s))" (goExpression $scope $native.Type.LengthExpression) }}
 {{- end }}
 {{- $field_name := printf "v.%s" $field.Name }}
 {{- if $field.IsOptional}}
-- 
2.43.0


From 38d98b3d40b70175fadac3663e04f09090bba463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:14 +0000
Subject: [PATCH 23/47] fix: evaluate the values of expressions as the schema
 language defines them

The types of bool, float and string subtypes, constants of other packages,
float constants, items of enums and bitmasks that were not evaluated yet,
numbits(), ternary, unary and parenthesized expressions, comparisons of
bool, float and enum values, string escape sequences and binary and float
literals were not evaluated correctly. Divisions of constants by zero
panicked.
---
 internal/ast/enum.go       |  13 +++
 internal/ast/expression.go | 193 ++++++++++++++++++++++++++++++-------
 2 files changed, 170 insertions(+), 36 deletions(-)

diff --git a/internal/ast/enum.go b/internal/ast/enum.go
index edd44cc..9e62986 100644
--- a/internal/ast/enum.go
+++ b/internal/ast/enum.go
@@ -51,6 +51,10 @@ func (e *Enum) Evaluate(scope *Package) error {
 			if err := item.Evaluate(scope); err != nil {
 				return err
 			}
+			if item.ResultType == ExpressionTypeEnum {
+				// the value of an item of an enum
+				item.ResultType = ExpressionTypeInteger
+			}
 		}
 	}
 	return nil
@@ -63,6 +67,15 @@ type EnumItem struct {
 	*Expression
 }
 
+// evaluateIn evaluates the value of the item. The value may depend on the
+// preceding items, so all the items are evaluated.
+func (e *EnumItem) evaluateIn(scope *Package) error {
+	if e.Expression != nil && e.EvaluationState == EvaluationStateComplete {
+		return nil
+	}
+	return e.enum.Evaluate(scope)
+}
+
 func (e EnumItem) GoName() string {
 	return e.enum.Name + strcase.ToCamel(strings.ToLower(e.Name))
 }
diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index cafac3b..3ee0463 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"math/bits"
+	"regexp"
 	"strconv"
 	"strings"
 
@@ -113,19 +114,20 @@ func evaluateExpressionType(typeRef *TypeReference, scope *Package) (ExpressionT
 		return "", nil, errors.New("type is not fully resolved")
 	}
 	if originalType.Type.IsBuiltin {
-		switch typeRef.Name {
+		nativeType := originalType.Type
+		switch nativeType.Name {
 		case "bool":
-			return ExpressionTypeBool, typeRef, nil
+			return ExpressionTypeBool, nativeType, nil
 		case "string":
-			return ExpressionTypeString, typeRef, nil
+			return ExpressionTypeString, nativeType, nil
 		case "float16":
-			return ExpressionTypeFloat, typeRef, nil
+			return ExpressionTypeFloat, nativeType, nil
 		case "float32":
-			return ExpressionTypeFloat, typeRef, nil
+			return ExpressionTypeFloat, nativeType, nil
 		case "float64":
-			return ExpressionTypeFloat, typeRef, nil
+			return ExpressionTypeFloat, nativeType, nil
 		default:
-			return ExpressionTypeInteger, typeRef, nil
+			return ExpressionTypeInteger, nativeType, nil
 		}
 	}
 	symbolScope, err := scope.GetImportedScope(typeRef.Package)
@@ -183,13 +185,33 @@ func (expr *Expression) evaluateIdentifier(scope *Package) error {
 
 	// Some symbols, such as consts, can be directly resolved.
 	if constSymbol, ok := symbol.Symbol.(*Const); ok {
-		constSymbol.ValueExpression.Evaluate(scope)
+		symbolScope, err := scope.GetImportedScope(symbol.Package)
+		if err != nil {
+			return err
+		}
+		if err := constSymbol.ValueExpression.Evaluate(symbolScope); err != nil {
+			return err
+		}
 		copyExpressionResult(constSymbol.ValueExpression, expr)
+		if expr.ResultType == ExpressionTypeInteger {
+			resultType, nativeType, err := evaluateExpressionType(constSymbol.Type, symbolScope)
+			if err == nil && resultType == ExpressionTypeFloat {
+				expr.ResultType = resultType
+				expr.NativeZserioType = nativeType
+				expr.ResultFloatValue = float64(expr.ResultIntValue)
+			}
+		}
 		return nil
 	}
 
 	if enumItem, ok := symbol.Symbol.(*EnumItem); ok {
-		enumItem.Evaluate(scope)
+		symbolScope, err := scope.GetImportedScope(symbol.Package)
+		if err != nil {
+			return err
+		}
+		if err := enumItem.evaluateIn(symbolScope); err != nil {
+			return err
+		}
 		copyExpressionResult(enumItem.Expression, expr)
 		return nil
 	}
@@ -212,9 +234,23 @@ func (expr *Expression) evaluateValueOfOperator() error {
 	}
 	expr.ResultType = ExpressionTypeInteger
 	expr.ResultIntValue = expr.Operand1.ResultIntValue
+	if expr.Operand1.isItemReference() {
+		// the value of an item does not change
+		expr.FullyResolved = true
+	}
 	return nil
 }
 
+// isItemReference returns if an expression names an item of an enum, or a
+// value of a bitmask.
+func (expr *Expression) isItemReference() bool {
+	if expr.Type == parser.ZserioParserLPAREN {
+		return expr.Operand1.isItemReference()
+	}
+	return expr.Type == parser.ZserioParserDOT &&
+		(expr.Operand1.ResultType == ExpressionTypeEnum || expr.Operand1.ResultType == ExpressionTypeBitmask)
+}
+
 // evaluateNumBitsOperator evaluates a bit counter operator.
 func (expr *Expression) evaluateNumBitsOperator() error {
 	if expr.Operand1 == nil {
@@ -224,7 +260,12 @@ func (expr *Expression) evaluateNumBitsOperator() error {
 		return errors.New("numbits operator needs an integer type")
 	}
 	expr.ResultType = ExpressionTypeInteger
-	expr.ResultIntValue = int64(bits.Len64(uint64(expr.Operand1.ResultIntValue)))
+	// the number of bits needed for as many different values
+	value := uint64(expr.Operand1.ResultIntValue)
+	if value > 1 {
+		value--
+	}
+	expr.ResultIntValue = int64(bits.Len64(value))
 	return nil
 }
 
@@ -288,6 +329,9 @@ func (expr *Expression) evaluateCompoundDotExpression(scope *Package) error {
 }
 
 func (expr *Expression) evaluateFunctionCallExpression(scope *Package) error {
+	if expr.Operand1.ResultSymbol == nil {
+		return errors.New("function expression expected")
+	}
 	function, ok := expr.Operand1.ResultSymbol.Symbol.(*Function)
 	if !ok {
 		return errors.New("function expression expected")
@@ -318,6 +362,11 @@ func (expr *Expression) evaluateFunctionCallExpression(scope *Package) error {
 		return err
 	}
 	copyExpressionResult(function.Result, expr)
+	// what is returned is converted to the type of the function
+	expr.ResultType, expr.NativeZserioType, err = evaluateExpressionType(function.ReturnType, functionEvaluationScope)
+	if err != nil {
+		return err
+	}
 	// copy the result symbol, in case the type of the symbol needs to be
 	// evaluated.
 	expr.ResultSymbol = expr.Operand1.ResultSymbol
@@ -328,6 +377,9 @@ func (expr *Expression) evaluateFunctionCallExpression(scope *Package) error {
 }
 
 func getArrayField(expr *Expression) (*Field, error) {
+	if expr.ResultSymbol == nil {
+		return nil, errors.New("unexpected array type (field expected)")
+	}
 	field, ok := expr.ResultSymbol.Symbol.(*Field)
 	if !ok {
 		return nil, errors.New("unexpected array type (field expected)")
@@ -351,6 +403,8 @@ func (expr *Expression) evaluateArrayElement(scope *Package) error {
 	if expr.ResultType, expr.NativeZserioType, err = evaluateExpressionType(field.Type, scope); err != nil {
 		return err
 	}
+	// members of the element are looked up in the type of the field
+	expr.ResultSymbol = expr.Operand1.ResultSymbol
 	return nil
 }
 
@@ -373,6 +427,9 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 	// In case the expression does not directly reference to actual enum/bitmask type,
 	// but references it using subtypes, we first need to resolve the actual type.
 	op1Symbol := expr.Operand1.ResultSymbol
+	if op1Symbol == nil {
+		return errors.New("dot expression must use a valid symbol")
+	}
 	op1Symbol, err := scope.GetOriginalSymbol(op1Symbol)
 	if err != nil {
 		return err
@@ -382,12 +439,15 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 		if enum, ok := op1Symbol.Symbol.(*Enum); ok {
 			for _, enumItem := range enum.Items {
 				if enumItem.Name == expr.Operand2.Text {
-					if enumItem.EvaluationState != EvaluationStateComplete {
-						if err := enum.Evaluate(scope); err != nil {
-							return fmt.Errorf("recursive evaluation of %q: %w", enum.Name, err)
-						}
+					enumScope, err := scope.GetImportedScope(op1Symbol.Package)
+					if err != nil {
+						return err
 					}
-					copyExpressionResult(enumItem.Expression, expr)
+					if err := enumItem.evaluateIn(enumScope); err != nil {
+						return fmt.Errorf("recursive evaluation of %q: %w", enum.Name, err)
+					}
+					expr.ResultIntValue = enumItem.Expression.ResultIntValue
+					expr.ResultType = ExpressionTypeEnum
 					return nil
 				}
 			}
@@ -396,6 +456,13 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 		if bitmask, ok := op1Symbol.Symbol.(*BitmaskType); ok {
 			for _, bitmaskValue := range bitmask.Values {
 				if bitmaskValue.Name == expr.Operand2.Text {
+					bitmaskScope, err := scope.GetImportedScope(op1Symbol.Package)
+					if err != nil {
+						return err
+					}
+					if err := bitmask.Evaluate(bitmaskScope); err != nil {
+						return fmt.Errorf("recursive evaluation of %q: %w", bitmask.Name, err)
+					}
 					expr.ResultIntValue = bitmaskValue.Expression.ResultIntValue
 					expr.ResultType = ExpressionTypeBitmask
 					return nil
@@ -431,11 +498,7 @@ func (expr *Expression) evaluateParenthesizedExpression() error {
 	if expr.Operand1 == nil {
 		return errors.New("parenthesis needs an operand")
 	}
-	expr.ResultType = expr.Operand1.ResultType
-	expr.ResultIntValue = expr.Operand1.ResultIntValue
-	expr.ResultStringValue = expr.Operand1.ResultStringValue
-	expr.ResultBoolValue = expr.Operand1.ResultBoolValue
-	expr.NativeZserioType = expr.Operand1.NativeZserioType
+	copyExpressionResult(expr.Operand1, expr)
 	return nil
 }
 
@@ -457,6 +520,11 @@ func (expr *Expression) evaluateUnaryArithmeticExpression() error {
 		if expr.Type == parser.ZserioParserMINUS {
 			expr.ResultIntValue = -expr.Operand1.ResultIntValue
 		}
+	} else {
+		expr.ResultFloatValue = expr.Operand1.ResultFloatValue
+		if expr.Type == parser.ZserioParserMINUS {
+			expr.ResultFloatValue = -expr.Operand1.ResultFloatValue
+		}
 	}
 	return nil
 }
@@ -503,6 +571,9 @@ func (expr *Expression) evaluateArithmeticExpression() error {
 			op2 = 1
 			expr.FullyResolved = false
 		}
+		if op2 == 0 && (expr.Type == parser.ZserioParserDIVIDE || expr.Type == parser.ZserioParserMODULO) {
+			return errors.New("division by zero")
+		}
 
 		switch expr.Type {
 		case parser.ZserioParserPLUS:
@@ -607,6 +678,7 @@ func (expr *Expression) evaluateComparisonExpression() error {
 	}
 	expr.ResultType = ExpressionTypeBool
 	if expr.Operand1.ResultType == ExpressionTypeInteger ||
+		expr.Operand1.ResultType == ExpressionTypeEnum ||
 		expr.Operand1.ResultType == ExpressionTypeBitmask {
 		switch expr.Type {
 		case parser.ZserioParserLT:
@@ -634,8 +706,21 @@ func (expr *Expression) evaluateComparisonExpression() error {
 			expr.ResultBoolValue = expr.Operand1.ResultFloatValue > expr.Operand2.ResultFloatValue
 		case parser.ZserioParserGE:
 			expr.ResultBoolValue = expr.Operand1.ResultFloatValue >= expr.Operand2.ResultFloatValue
+		case parser.ZserioParserEQ:
+			expr.ResultBoolValue = expr.Operand1.ResultFloatValue == expr.Operand2.ResultFloatValue
+		case parser.ZserioParserNE:
+			expr.ResultBoolValue = expr.Operand1.ResultFloatValue != expr.Operand2.ResultFloatValue
 		default:
-			return errors.New("equal/notequal operator not supported for float types")
+			return errors.New("unexpected operand for float expression")
+		}
+	} else if expr.Operand1.ResultType == ExpressionTypeBool {
+		switch expr.Type {
+		case parser.ZserioParserEQ:
+			expr.ResultBoolValue = expr.Operand1.ResultBoolValue == expr.Operand2.ResultBoolValue
+		case parser.ZserioParserNE:
+			expr.ResultBoolValue = expr.Operand1.ResultBoolValue != expr.Operand2.ResultBoolValue
+		default:
+			return errors.New("bool types does not support greater / smaller comparisons")
 		}
 	} else if expr.Operand1.ResultType == ExpressionTypeString {
 		switch expr.Type {
@@ -655,18 +740,26 @@ func (expr *Expression) evaluateTernaryExpression() error {
 		return errors.New("ternary expression operand 1 must be a boolean expression")
 	}
 
+	isNumber := func(operand *Expression) bool {
+		return operand.ResultType == ExpressionTypeInteger || operand.ResultType == ExpressionTypeFloat
+	}
+	if expr.Operand2.ResultType != expr.Operand3.ResultType && !(isNumber(expr.Operand2) && isNumber(expr.Operand3)) {
+		return errors.New("ternary expression operands 2 and 3 must have the same type")
+	}
+
+	operand := expr.Operand3
 	if expr.Operand1.ResultBoolValue {
-		expr.ResultType = expr.Operand2.ResultType
-		expr.ResultIntValue = expr.Operand2.ResultIntValue
-		expr.ResultBoolValue = expr.Operand2.ResultBoolValue
-		expr.ResultStringValue = expr.Operand2.ResultStringValue
-		expr.NativeZserioType = expr.Operand2.NativeZserioType
-	} else {
-		expr.ResultType = expr.Operand3.ResultType
-		expr.ResultIntValue = expr.Operand3.ResultIntValue
-		expr.ResultBoolValue = expr.Operand3.ResultBoolValue
-		expr.ResultStringValue = expr.Operand3.ResultStringValue
-		expr.NativeZserioType = expr.Operand3.NativeZserioType
+		operand = expr.Operand2
+	}
+	copyExpressionResult(operand, expr)
+	if expr.Operand2.ResultType != expr.Operand3.ResultType {
+		// mixing integers and floats
+		if operand.ResultType == ExpressionTypeInteger {
+			expr.ResultFloatValue = float64(operand.ResultIntValue)
+		}
+		var err error
+		expr.ResultType, expr.NativeZserioType, err = DetermineArithmeticOperationResultType(expr.Operand2, expr.Operand3)
+		return err
 	}
 	return nil
 }
@@ -698,13 +791,20 @@ func (expr *Expression) evaluateBitwiseExpression() error {
 	expr.ResultType = expr.Operand1.ResultType
 	expr.NativeZserioType = expr.Operand1.NativeZserioType
 	isShiftOperation := false
+	shiftCount := expr.Operand2.ResultIntValue
+	if shiftCount < 0 {
+		if expr.FullyResolved && (expr.Type == parser.ZserioLexerLSHIFT || expr.Type == parser.ZserioParserRSHIFT) {
+			return errors.New("negative shift count")
+		}
+		shiftCount = 0
+	}
 
 	switch expr.Type {
 	case parser.ZserioLexerLSHIFT:
-		expr.ResultIntValue = expr.Operand1.ResultIntValue << expr.Operand2.ResultIntValue
+		expr.ResultIntValue = expr.Operand1.ResultIntValue << shiftCount
 		isShiftOperation = true
 	case parser.ZserioParserRSHIFT:
-		expr.ResultIntValue = expr.Operand1.ResultIntValue >> expr.Operand2.ResultIntValue
+		expr.ResultIntValue = expr.Operand1.ResultIntValue >> shiftCount
 		isShiftOperation = true
 	case parser.ZserioParserAND:
 		expr.ResultIntValue = expr.Operand1.ResultIntValue & expr.Operand2.ResultIntValue
@@ -737,6 +837,9 @@ func (expr *Expression) evaluateBitwiseExpression() error {
 	return nil
 }
 
+// escapeSequence matches an escape sequence of a string literal.
+var escapeSequence = regexp.MustCompile(`\\0[0-3]?[0-7]?[0-7]?|\\x..|\\.`)
+
 func (expr *Expression) evaluateStringLiteral() error {
 	expressionString := expr.Text
 	// remove the quotes
@@ -745,13 +848,31 @@ func (expr *Expression) evaluateStringLiteral() error {
 	}
 	expr.ResultType = ExpressionTypeString
 	expr.ResultStringValue = expressionString[1 : len(expressionString)-1]
+	if strings.Contains(expressionString, `\`) {
+		// the escape sequences are those of Go, except for the octal and hexadecimal
+		// ones, which name code points here, but bytes in Go
+		var err error
+		expr.ResultStringValue, err = strconv.Unquote(escapeSequence.ReplaceAllStringFunc(expressionString, func(escape string) string {
+			base := 8
+			switch escape[1] {
+			case 'x':
+				base = 16
+			case '0':
+			default:
+				return escape
+			}
+			codePoint, _ := strconv.ParseUint("0"+escape[2:], base, 16)
+			return fmt.Sprintf(`\u%04x`, codePoint)
+		}))
+		return err
+	}
 	return nil
 }
 
 func (expr *Expression) evaluateBinaryLiteral() error {
 	expr.ResultType = ExpressionTypeInteger
 	// remove the trailing "b"
-	binaryString := expr.Text
+	binaryString := strings.ToLower(expr.Text)
 	if !strings.HasSuffix(binaryString, "b") {
 		return errors.New("binary expression is not valid")
 	}
@@ -894,7 +1015,7 @@ func (expr *Expression) Evaluate(scope *Package) error {
 	case parser.ZserioLexerFLOAT_LITERAL:
 		expr.ResultType = ExpressionTypeFloat
 		expr.NativeZserioType = &TypeReference{IsBuiltin: true, Name: "float32"}
-		expr.ResultFloatValue, err = strconv.ParseFloat(expr.Text, 32)
+		expr.ResultFloatValue, err = strconv.ParseFloat(strings.TrimRight(expr.Text, "fF"), 32)
 	case parser.ZserioParserDOUBLE_LITERAL:
 		expr.ResultType = ExpressionTypeFloat
 		expr.NativeZserioType = &TypeReference{IsBuiltin: true, Name: "float64"}
-- 
2.43.0


From dacda80e3ef948ba5aaa8c684549c83c60f6acd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:14 +0000
Subject: [PATCH 24/47] fix: generate Go expressions that evaluate as the
 zserio ones

Operations were calculated in the type of an operand, overflowing it, the
different precedence of the Go operators was not considered, and unary
operators, ternary expressions, float constants and optional fields did
not compile.
---
 internal/generator/expression.go | 454 ++++++++++++++++---------------
 ztype/BUILD.bazel                |   1 +
 ztype/optional.go                |  10 +
 3 files changed, 244 insertions(+), 221 deletions(-)
 create mode 100644 ztype/optional.go

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 8f4da4f..2ff4142 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -1,8 +1,8 @@
 package generator
 
 import (
-	"errors"
 	"fmt"
+	"strconv"
 	"strings"
 
 	"github.com/iancoleman/strcase"
@@ -23,7 +23,7 @@ func IdentifierToGoString(scope ast.Scope, expression *ast.Expression) string {
 
 	switch n := expression.ResultSymbol.Symbol.(type) {
 	case *ast.Field:
-		return "v." + n.Name
+		return fieldToGoString("v."+n.Name, n)
 	case *ast.Parameter:
 		return "v." + n.Name
 	case *ast.Enum:
@@ -39,6 +39,15 @@ func IdentifierToGoString(scope ast.Scope, expression *ast.Expression) string {
 	}
 }
 
+// fieldToGoString prints the value of a field. Optional fields are stored as
+// pointers, an absent one has the zero value.
+func fieldToGoString(name string, field *ast.Field) string {
+	if field.IsOptional {
+		return fmt.Sprintf("(*ztype.OrZero(%s))", name)
+	}
+	return name
+}
+
 // bracketedExpressionToGoString prints an array access expression,
 // such as array[index].
 func bracketedExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
@@ -63,7 +72,7 @@ func dotOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 	// Enums don't exist in Go, so the dot expression must be translated to the
 	// constant, which is Enum name, followed by the Enum value.
 	// The same is valid for bitmasks.
-	if expression.Operand1.ResultType == ast.ExpressionTypeEnum {
+	if isItemReference(expression) {
 		// Due to Go not supporting Enums, we need to check if subtyping is used.
 		// Instead of generating the Enum value with the subtyped name, we need the
 		// original type name.
@@ -87,232 +96,246 @@ func dotOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 		if err != nil {
 			return "ENUM_GO_TYPE_DEDUCTION_FAILED"
 		}
-		enumValue := originalEnumType + strcase.ToCamel(strings.ToLower(expression.Operand2.Text))
+		enumValue := originalEnumType + rightText
+		if expression.Operand1.ResultType == ast.ExpressionTypeEnum {
+			enumValue = originalEnumType + strcase.ToCamel(strings.ToLower(expression.Operand2.Text))
+		}
 		if originalType.RequiresCast {
 			enumValue = fmt.Sprintf("%s(%s)", leftText, enumValue)
 		}
 		return enumValue
-	} else if expression.Operand1.ResultType == ast.ExpressionTypeBitmask {
-		return leftText + rightText
 	}
-	return fmt.Sprintf("%s.%s", leftText, rightText)
+	member := fmt.Sprintf("%s.%s", leftText, rightText)
+	if expression.ResultSymbol != nil {
+		if field, ok := expression.ResultSymbol.Symbol.(*ast.Field); ok {
+			return fieldToGoString(member, field)
+		}
+	}
+	return member
 }
 
-func numBitsOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
-	return fmt.Sprintf("ztype.NumBits(uint64(%s))", ExpressionToGoString(scope, expression.Operand1))
+// isItemReference returns if an expression names an item of an enum, or a
+// value of a bitmask.
+func isItemReference(expression *ast.Expression) bool {
+	return expression.Type == parser.ZserioParserDOT &&
+		(expression.Operand1.ResultType == ast.ExpressionTypeEnum ||
+			expression.Operand1.ResultType == ast.ExpressionTypeBitmask)
 }
 
-func getSymbolType(scope ast.Scope, symbol *ast.SymbolReference) (*ast.TypeReference, error) {
+func numBitsOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
+	return fmt.Sprintf("ztype.NumBits(%s)", integerOperandToGoString(scope, expression.Operand1, "uint64"))
+}
 
-	switch n := symbol.Symbol.(type) {
-	case *ast.Enum:
-		return n.Type, nil
+// expressionTypeReference returns the type of the field, parameter, function
+// or item an expression names, or nil if there is none.
+func expressionTypeReference(expression *ast.Expression) *ast.TypeReference {
+	switch expression.Type {
+	case parser.ZserioParserLPAREN, parser.ZserioParserTILDE,
+		parser.ZserioParserAND, parser.ZserioParserOR, parser.ZserioParserXOR:
+		return expressionTypeReference(expression.Operand1)
+	case parser.ZserioParserQUESTIONMARK:
+		return expressionTypeReference(expression.Operand2)
+	case parser.ZserioParserLBRACKET:
+		return expressionTypeReference(expression.Operand1)
+	case parser.ZserioParserDOT:
+		if isItemReference(expression) {
+			return &ast.TypeReference{
+				Name:    expression.Operand1.ResultSymbol.Name,
+				Package: expression.Operand1.ResultSymbol.Package,
+			}
+		}
+	}
+	if expression.ResultSymbol == nil {
+		return nil
+	}
+	switch n := expression.ResultSymbol.Symbol.(type) {
 	case *ast.Field:
-		return n.Type, nil
+		return n.Type
 	case *ast.Parameter:
-		return n.Type, nil
-	case *ast.Subtype:
-		return &ast.TypeReference{
-			Name:      n.Name,
-			IsBuiltin: false,
-			Package:   symbol.Package,
-		}, nil
+		return n.Type
 	case *ast.Function:
-		return n.ReturnType, nil
-	case *ast.BitmaskType:
-		return n.Type, nil
-	default:
-		return nil, errors.New("unable to evaluate the symbol type")
+		return n.ReturnType
 	}
+	return nil
 }
 
-// twoOperatorEqualTypesToGoString prints out an expression that uses two
-// operands, where the operator expects to be both sides of the same type.
-// since there are many different integer and type to integer types, casting
-// might be necessary here.
-func twoOperatorEqualTypesToGoString(scope ast.Scope, expression *ast.Expression) string {
-	operator := ""
+// isFullUint64 returns if an integer expression can have values that do not
+// fit into an int64.
+func isFullUint64(scope ast.Scope, expression *ast.Expression) bool {
+	if expression.FullyResolved {
+		return false
+	}
 	switch expression.Type {
-	case parser.ZserioParserPLUS:
-		operator = "+"
-	case parser.ZserioParserMINUS:
-		operator = "-"
-	case parser.ZserioParserMULTIPLY:
-		operator = "*"
-	case parser.ZserioParserDIVIDE:
-		operator = "/"
-	case parser.ZserioParserMODULO:
-		operator = "%"
-	case parser.ZserioParserLT:
-		operator = "<"
-	case parser.ZserioParserLE:
-		operator = "<="
-	case parser.ZserioParserGT:
-		operator = ">"
-	case parser.ZserioParserGE:
-		operator = ">="
-	case parser.ZserioParserEQ:
-		operator = "=="
-	case parser.ZserioParserNE:
-		operator = "!="
+	case parser.ZserioParserLENGTHOF, parser.ZserioParserNUMBITS, parser.ZserioParserINDEX:
+		return false
+	case parser.ZserioParserLPAREN, parser.ZserioParserTILDE,
+		parser.ZserioLexerLSHIFT, parser.ZserioParserRSHIFT:
+		return isFullUint64(scope, expression.Operand1)
+	case parser.ZserioParserPLUS, parser.ZserioParserMINUS, parser.ZserioParserMULTIPLY,
+		parser.ZserioParserDIVIDE, parser.ZserioParserMODULO,
+		parser.ZserioParserAND, parser.ZserioParserOR, parser.ZserioParserXOR:
+		return isFullUint64(scope, expression.Operand1) ||
+			(expression.Operand2 != nil && isFullUint64(scope, expression.Operand2))
+	case parser.ZserioParserQUESTIONMARK:
+		return isFullUint64(scope, expression.Operand2) || isFullUint64(scope, expression.Operand3)
+	case parser.ZserioParserVALUEOF:
+		// the values of items are evaluated as int64
+		return false
+	}
+	typeRef := expressionTypeReference(expression)
+	if typeRef == nil {
+		return false
 	}
+	originalType, err := scope.OriginalType(typeRef)
+	if err != nil {
+		return false
+	}
+	switch originalType.Type.Name {
+	case "uint64", "varuint":
+		return true
+	case "bit":
+		return originalType.Type.LengthExpression != nil || originalType.Type.Bits == 64
+	}
+	return false
+}
 
-	operand1Str := ExpressionToGoString(scope, expression.Operand1)
-	operand2Str := ExpressionToGoString(scope, expression.Operand2)
+// integerGoType returns the Go type that operations on integers are calculated
+// in. The operands are not calculated in their own type, because the result of
+// an operation is not limited to that.
+func integerGoType(scope ast.Scope, operands ...*ast.Expression) string {
+	for _, operand := range operands {
+		if isFullUint64(scope, operand) {
+			return "uint64"
+		}
+	}
+	return "int64"
+}
 
-	// Check if casting is needed because of different original types.
-	// Casting is needed in the following cases:
-	// - mixing floats with integers
-	// - mixing signed/unsigned types
-	// - mixing different bit lengths
-	// - mixing numerals of different types, e.g. 17 + 3.5
-	// Casting is not needed in the following cases:
-	// - The expression result is not an integer.
-	// - One or both operands are numerals without type annotations, for example
-	//   "17.5 + 13.6"
-	//   In that case, NativeZserioType will be set to nil. Both operands must be
-	//   integer or float numerals.
-	if (expression.ResultType == ast.ExpressionTypeInteger || expression.ResultType == ast.ExpressionTypeFloat) && expression.NativeZserioType != nil {
-		// Retrieve the resulting type of the expression
-		expressionGoType, err := GoType(scope, expression.NativeZserioType)
-		if err != nil {
-			panic(err)
+// integerOperandToGoString prints an integer operand with the given type.
+func integerOperandToGoString(scope ast.Scope, expression *ast.Expression, goType string) string {
+	if expression.FullyResolved {
+		if goType == "uint64" {
+			return strconv.FormatUint(uint64(expression.ResultIntValue), 10)
 		}
+		return ExpressionToGoString(scope, expression)
+	}
+	return fmt.Sprintf("%s(%s)", goType, ExpressionToGoString(scope, expression))
+}
 
-		operand1RequiresCast := false
-		operand2RequiresCast := false
-		operand1GoType := ""
-		operand2GoType := ""
-		// Check if operand1 or operand2 (or both) needs a type cast.
-		// In very rare cases, both operands need to be casted:
-		// For example, mixing an uint8 with an int32 will require both
-		// operands to be casted to uint32 (highest rank + unsigned wins).
-		if expression.Operand1.ResultSymbol != nil {
-			// If symbols are used, they are likely subtypes. We also need
-			// to cast if different subtypes are used
-			op1Type, err := getSymbolType(scope, expression.Operand1.ResultSymbol)
-			if err != nil {
-				panic(err)
-			}
-			operand1GoType, err = GoType(scope, op1Type)
-			if err != nil {
-				panic(err)
-			}
-		} else {
-			if expression.Operand1.ResultType != expression.ResultType {
-				operand1RequiresCast = true
-			} else if expression.Operand1.NativeZserioType != nil {
-				operand1GoType, err = GoType(scope, expression.Operand1.NativeZserioType)
-				if err != nil {
-					panic(err)
+// operandsToGoString prints operands that must have the same type.
+func operandsToGoString(scope ast.Scope, operands ...*ast.Expression) (string, []string) {
+	goType := ""
+	switch operands[0].ResultType {
+	case ast.ExpressionTypeInteger, ast.ExpressionTypeFloat:
+		goType = integerGoType(scope, operands...)
+		for _, operand := range operands {
+			if operand.ResultType == ast.ExpressionTypeFloat && goType != "float64" {
+				goType = "float64"
+				if operand.NativeZserioType != nil && operand.NativeZserioType.Name != "float64" {
+					goType = "float32"
 				}
 			}
 		}
-		if operand1GoType != expressionGoType {
-			operand1RequiresCast = true
+	case ast.ExpressionTypeBool:
+		goType = "bool"
+	case ast.ExpressionTypeString:
+		goType = "string"
+	}
+	for _, operand := range operands {
+		if operand.ResultType != ast.ExpressionTypeEnum && operand.ResultType != ast.ExpressionTypeBitmask {
+			continue
 		}
-
-		if expression.Operand2.ResultSymbol != nil {
-			// If symbols are used, they are likely subtypes. We also need
-			// to cast if different subtypes are used
-			op2Type, err := getSymbolType(scope, expression.Operand2.ResultSymbol)
-			if err != nil {
-				panic(err)
-			}
-			operand2GoType, err = GoType(scope, op2Type)
-			if err != nil {
-				panic(err)
-			}
-		} else {
-			if expression.Operand2.ResultType != expression.ResultType {
-				operand2RequiresCast = true
-			} else if expression.Operand2.NativeZserioType != nil {
-				operand2GoType, err = GoType(scope, expression.Operand2.NativeZserioType)
-				if err != nil {
-					panic(err)
+		goType = ""
+		if typeRef := expressionTypeReference(operand); typeRef != nil {
+			if originalType, err := scope.OriginalType(typeRef); err == nil {
+				if goType, err = GoType(scope, originalType.Type); err != nil {
+					goType = ""
 				}
+				break
 			}
 		}
-		if operand2GoType != expressionGoType {
-			operand2RequiresCast = true
-		}
-
-		if operand1RequiresCast {
-			operand1Str = fmt.Sprintf("%s(%s)", expressionGoType, operand1Str)
-		}
-		if operand2RequiresCast {
-			operand2Str = fmt.Sprintf("%s(%s)", expressionGoType, operand2Str)
+	}
+	texts := make([]string, 0, len(operands))
+	for _, operand := range operands {
+		switch {
+		case goType == "int64" || goType == "uint64":
+			texts = append(texts, integerOperandToGoString(scope, operand, goType))
+		case operand.FullyResolved || goType == "" || goType == "bool" || goType == "string":
+			texts = append(texts, ExpressionToGoString(scope, operand))
+		default:
+			texts = append(texts, fmt.Sprintf("%s(%s)", goType, ExpressionToGoString(scope, operand)))
 		}
 	}
+	return goType, texts
+}
 
-	return fmt.Sprintf("%s %s %s",
-		operand1Str,
-		operator,
-		operand2Str)
+var goOperators = map[int]string{
+	parser.ZserioParserPLUS:        "+",
+	parser.ZserioParserMINUS:       "-",
+	parser.ZserioParserMULTIPLY:    "*",
+	parser.ZserioParserDIVIDE:      "/",
+	parser.ZserioParserMODULO:      "%",
+	parser.ZserioParserLT:          "<",
+	parser.ZserioParserLE:          "<=",
+	parser.ZserioParserGT:          ">",
+	parser.ZserioParserGE:          ">=",
+	parser.ZserioParserEQ:          "==",
+	parser.ZserioParserNE:          "!=",
+	parser.ZserioParserAND:         "&",
+	parser.ZserioParserOR:          "|",
+	parser.ZserioParserXOR:         "^",
+	parser.ZserioParserLOGICAL_AND: "&&",
+	parser.ZserioParserLOGICAL_OR:  "||",
 }
 
+// twoOperatorToGoString prints out an expression that uses two operands. Since
+// Go expects both sides to be of the same type, and there are many different
+// integer types, casting might be necessary here. The precedence of the
+// operators differs between zserio and Go, therefore the expression is
+// parenthesized.
 func twoOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
-	operator := ""
-	isShiftOperator := false
-	switch expression.Type {
-	case parser.ZserioLexerLSHIFT:
-		operator = "<<"
-		isShiftOperator = true
-	case parser.ZserioParserRSHIFT:
+	_, operands := operandsToGoString(scope, expression.Operand1, expression.Operand2)
+	return fmt.Sprintf("(%s %s %s)", operands[0], goOperators[expression.Type], operands[1])
+}
+
+func shiftOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
+	operator := "<<"
+	if expression.Type == parser.ZserioParserRSHIFT {
 		operator = ">>"
-		isShiftOperator = true
-	case parser.ZserioParserAND:
-		operator = "&"
-	case parser.ZserioParserOR:
-		operator = "|"
-	case parser.ZserioParserXOR:
-		operator = "^"
-	case parser.ZserioParserLOGICAL_AND:
-		operator = "&&"
-	case parser.ZserioParserLOGICAL_OR:
-		operator = "||"
-	}
-	operand1Str := ExpressionToGoString(scope, expression.Operand1)
-	if isShiftOperator && expression.Operand1.ResultType == ast.ExpressionTypeInteger && expression.Operand1.FullyResolved {
-		// Resolve issue
-		// https://stackoverflow.com/questions/24865339/invalid-operation-shift-of-type-float64
-		// Shift operations in Go may implicitly cast the first parameter to a float
-		// if there is a cast to a different type.
-		expressionGoType, err := GoType(scope, expression.NativeZserioType)
-		if err != nil {
-			panic(err)
-		}
-		operand1Str = fmt.Sprintf("%s(%s)", expressionGoType, operand1Str)
 	}
-
-	return fmt.Sprintf("%s %s %s",
-		operand1Str,
+	// the type is also needed for constants, see
+	// https://stackoverflow.com/questions/24865339/invalid-operation-shift-of-type-float64
+	goType := integerGoType(scope, expression.Operand1)
+	return fmt.Sprintf("(%s(%s) %s uint64(%s))",
+		goType,
+		ExpressionToGoString(scope, expression.Operand1),
 		operator,
-		ExpressionToGoString(scope, expression.Operand2))
+		integerOperandToGoString(scope, expression.Operand2, "uint64"))
+}
+
+func unaryOperatorToGoString(scope ast.Scope, expression *ast.Expression, operator string) string {
+	_, operands := operandsToGoString(scope, expression.Operand1)
+	return fmt.Sprintf("(%s%s)", operator, operands[0])
 }
 
 func ternaryExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
-	op1 := ExpressionToGoString(scope, expression.Operand1)
-	op2 := ExpressionToGoString(scope, expression.Operand2)
-	op3 := ExpressionToGoString(scope, expression.Operand3)
-	if expression.ResultType == ast.ExpressionTypeInteger {
-		// in case the expression is a subtype of int (such as uint16), cast to
-		// integer to avoid type cast errors
-		typeCast := "int"
-		op3 = fmt.Sprintf("%s(%s)", typeCast, op3)
-		op2 = fmt.Sprintf("%s(%s)", typeCast, op2)
+	goType, operands := operandsToGoString(scope, expression.Operand2, expression.Operand3)
+	if goType == "" {
+		return "UNSUPPORTED_TYPE"
 	}
 	// Ternary expressions are not supported by Go. As a workaround,
-	// generate the ternary expression as an if/else
-	return fmt.Sprintf("%s\nif %s {\nretVal = %s\n}\n",
-		op3,
-		op1,
-		op2,
+	// generate the ternary expression as a function.
+	return fmt.Sprintf("func() %s {\nif %s {\nreturn %s\n}\nreturn %s\n}()",
+		goType,
+		ExpressionToGoString(scope, expression.Operand1),
+		operands[0],
+		operands[1],
 	)
 }
 
 func isSetOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
-	return fmt.Sprintf("%s & %s != 0", ExpressionToGoString(scope, expression.Operand1), ExpressionToGoString(scope, expression.Operand2))
+	_, operands := operandsToGoString(scope, expression.Operand1, expression.Operand2)
+	return fmt.Sprintf("(%s & %s != 0)", operands[0], operands[1])
 }
 
 func lenOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
@@ -323,20 +346,30 @@ func lenOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 }
 
 func valueOfOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
-	return ExpressionToGoString(scope, expression.Operand1)
+	return integerOperandToGoString(scope, expression.Operand1, "int64")
+}
+
+// floatToGoString prints a float constant.
+func floatToGoString(value float64) string {
+	text := strconv.FormatFloat(value, 'g', -1, 64)
+	if !strings.ContainsAny(text, ".e") {
+		// without a fraction, Go takes it for an integer
+		text += ".0"
+	}
+	return text
 }
 
 func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 	if expression.FullyResolved {
 		switch expression.ResultType {
-		case ast.ExpressionTypeInteger:
+		case ast.ExpressionTypeInteger, ast.ExpressionTypeEnum, ast.ExpressionTypeBitmask:
 			return fmt.Sprintf("%v", expression.ResultIntValue)
 		case ast.ExpressionTypeBool:
 			return fmt.Sprintf("%t", expression.ResultBoolValue)
 		case ast.ExpressionTypeString:
 			return fmt.Sprintf("%q", expression.ResultStringValue)
 		case ast.ExpressionTypeFloat:
-			return fmt.Sprintf("%f", expression.ResultFloatValue)
+			return floatToGoString(expression.ResultFloatValue)
 		default:
 			return "UNSUPPORTED_TYPE"
 		}
@@ -358,44 +391,23 @@ func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 		return valueOfOperatorToGoString(scope, expression)
 	case parser.ZserioParserNUMBITS:
 		return numBitsOperatorToGoString(scope, expression)
-	case parser.ZserioParserPLUS:
-		return twoOperatorEqualTypesToGoString(scope, expression)
-	case parser.ZserioParserMINUS:
-		return twoOperatorEqualTypesToGoString(scope, expression)
-	case parser.ZserioParserMULTIPLY:
-		return twoOperatorEqualTypesToGoString(scope, expression)
-	case parser.ZserioParserDIVIDE:
-		return twoOperatorEqualTypesToGoString(scope, expression)
-	case parser.ZserioParserBANG: // the ! (negation operator)
-		return fmt.Sprintf("!%s", ExpressionToGoString(scope, expression.Operand1))
-	case parser.ZserioParserMODULO:
-		return twoOperatorEqualTypesToGoString(scope, expression)
-	case parser.ZserioLexerLSHIFT:
-		return twoOperatorToGoString(scope, expression)
-	case parser.ZserioParserRSHIFT:
-		return twoOperatorToGoString(scope, expression)
-	case parser.ZserioParserAND:
-		return twoOperatorToGoString(scope, expression)
-	case parser.ZserioParserOR:
-		return twoOperatorToGoString(scope, expression)
-	case parser.ZserioParserXOR:
-		return twoOperatorToGoString(scope, expression)
-	case parser.ZserioParserLOGICAL_AND:
+	case parser.ZserioParserPLUS, parser.ZserioParserMINUS:
+		if expression.Operand2 == nil {
+			return unaryOperatorToGoString(scope, expression, goOperators[expression.Type])
+		}
 		return twoOperatorToGoString(scope, expression)
-	case parser.ZserioParserLOGICAL_OR:
+	case parser.ZserioParserBANG: // the ! (negation operator)
+		return unaryOperatorToGoString(scope, expression, "!")
+	case parser.ZserioParserTILDE:
+		return unaryOperatorToGoString(scope, expression, "^")
+	case parser.ZserioLexerLSHIFT, parser.ZserioParserRSHIFT:
+		return shiftOperatorToGoString(scope, expression)
+	case parser.ZserioParserMULTIPLY, parser.ZserioParserDIVIDE, parser.ZserioParserMODULO,
+		parser.ZserioParserAND, parser.ZserioParserOR, parser.ZserioParserXOR,
+		parser.ZserioParserLOGICAL_AND, parser.ZserioParserLOGICAL_OR,
+		parser.ZserioParserLT, parser.ZserioParserLE, parser.ZserioParserGT,
+		parser.ZserioParserGE, parser.ZserioParserEQ, parser.ZserioParserNE:
 		return twoOperatorToGoString(scope, expression)
-	case parser.ZserioParserLT:
-		return twoOperatorEqualTypesToGoString(scope, expression)
-	case parser.ZserioParserLE:
-		return twoOperatorEqualTypesToGoString(scope, expression)
-	case parser.ZserioParserGT:
-		return twoOperatorEqualTypesToGoString(scope, expression)
-	case parser.ZserioParserGE:
-		return twoOperatorEqualTypesToGoString(scope, expression)
-	case parser.ZserioParserEQ:
-		return twoOperatorEqualTypesToGoString(scope, expression)
-	case parser.ZserioParserNE:
-		return twoOperatorEqualTypesToGoString(scope, expression)
 	case parser.ZserioParserINDEX:
 		// hard-code the name of the index variable used in the template
 		return "index"
diff --git a/ztype/BUILD.bazel b/ztype/BUILD.bazel
index 935527f..404ffd2 100644
--- a/ztype/BUILD.bazel
+++ b/ztype/BUILD.bazel
@@ -27,6 +27,7 @@ go_library(
         "object_array_decode.go",
         "object_array_encode.go",
         "object_array_traits.go",
+        "optional.go",
         "packed_array_traits.go",
         "packing_context_node.go",
         "string_decode.go",
diff --git a/ztype/optional.go b/ztype/optional.go
new file mode 100644
index 0000000..01038da
--- /dev/null
+++ b/ztype/optional.go
@@ -0,0 +1,10 @@
+package ztype
+
+// OrZero returns the pointer to an optional value, or one to the zero value if
+// the value is absent.
+func OrZero[T any](value *T) *T {
+	if value == nil {
+		return new(T)
+	}
+	return value
+}
-- 
2.43.0


From b8a500716dfa7ff1d497a1d66b4b7438644cfe99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 25/47] fix: resolve symbols imported one by one, and packages
 that import each other

---
 internal/ast/package.go     | 66 +++++++++++++++++++++++--------------
 internal/generator/funcs.go |  2 +-
 internal/model/transform.go |  9 +++--
 internal/visitor/visitor.go |  6 ++--
 4 files changed, 52 insertions(+), 31 deletions(-)

diff --git a/internal/ast/package.go b/internal/ast/package.go
index 7675ade..6ab302a 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -22,10 +22,24 @@ type Package struct {
 	Structs           map[string]*Struct
 	Choices           map[string]*Choice
 
-	ImportedPackages []*Package
+	ImportedPackages []*ImportedPackage
 	LocalSymbols     *SymbolScope
 }
 
+// ImportedPackage is a package from which all symbols, or a single symbol are
+// imported.
+type ImportedPackage struct {
+	*Package
+
+	// Symbol is the only imported symbol, or empty if all symbols are imported.
+	Symbol string
+}
+
+// imports returns if a symbol of the package is imported.
+func (i *ImportedPackage) imports(name string) bool {
+	return i.Symbol == "" || i.Symbol == name
+}
+
 // OriginalTypeReference is a reference to the original zserio type, for example
 // fundamental types, but also enums/structs, that were aliased by a subtype.
 type OriginalTypeReference struct {
@@ -236,6 +250,9 @@ func (p *Package) GetType(name string) (*SymbolReference, error) {
 
 	// If the symbol was not found in the local scope, check all imported scopes
 	for _, importedPackage := range p.ImportedPackages {
+		if !importedPackage.imports(name) {
+			continue
+		}
 		if typeSymbol, err := importedPackage.LocalSymbols.GetType(name); err == nil {
 			typeSymbol.Package = importedPackage.Name
 			return typeSymbol, nil
@@ -253,16 +270,6 @@ func (p *Package) GetCurrentCompoundType(name string) (*SymbolReference, error)
 			return typeSymbol, nil
 		}
 	}
-
-	// check all imported scopes
-	for _, importedPackage := range p.ImportedPackages {
-		if importedPackage.LocalSymbols.CurrentCompoundScope != nil {
-			if typeSymbol, err := importedPackage.LocalSymbols.GetCompoundType(*importedPackage.LocalSymbols.CurrentCompoundScope, name); err == nil {
-				typeSymbol.Package = importedPackage.Name
-				return typeSymbol, nil
-			}
-		}
-	}
 	return nil, errors.New("compound symbol not found")
 }
 
@@ -274,6 +281,9 @@ func (p *Package) GetCompoundType(compoundSymbolName, name string) (*SymbolRefer
 
 	// check all imported scopes
 	for _, importedPackage := range p.ImportedPackages {
+		if !importedPackage.imports(compoundSymbolName) {
+			continue
+		}
 		if typeSymbol, err := importedPackage.LocalSymbols.GetCompoundType(compoundSymbolName, name); err == nil {
 			typeSymbol.Package = importedPackage.Name
 			return typeSymbol, nil
@@ -283,6 +293,13 @@ func (p *Package) GetCompoundType(compoundSymbolName, name string) (*SymbolRefer
 }
 
 func (p *Package) GetOtherType(name string) (*SymbolReference, error) {
+	return p.getOtherType(name, map[*Package]bool{})
+}
+
+// getOtherType looks into packages that have not been visited before, as
+// packages can import each other.
+func (p *Package) getOtherType(name string, visited map[*Package]bool) (*SymbolReference, error) {
+	visited[p] = true
 	if symbolRef, err := p.LocalSymbols.GetOtherType(name); err == nil {
 		symbolRef.Package = p.Name
 		return symbolRef, nil
@@ -290,7 +307,10 @@ func (p *Package) GetOtherType(name string) (*SymbolReference, error) {
 
 	// check all imported scopes
 	for _, importedPackage := range p.ImportedPackages {
-		if symbolRef, err := importedPackage.GetOtherType(name); err == nil {
+		if visited[importedPackage.Package] {
+			continue
+		}
+		if symbolRef, err := importedPackage.getOtherType(name, visited); err == nil {
 			return symbolRef, nil
 		}
 	}
@@ -460,19 +480,17 @@ func (p *Package) GetImportedScope(name string) (*Package, error) {
 	if name == "" {
 		return nil, errors.New("unresolved package scope")
 	}
-	if name == p.Name {
-		return p, nil
-	}
-	for _, pkg := range p.ImportedPackages {
-		if pkg.Name == name {
-			return pkg, nil
+	// search the package itself, its imports, and the imports of all imports
+	visited := map[*Package]bool{p: true}
+	for queue := []*Package{p}; len(queue) > 0; queue = queue[1:] {
+		if queue[0].Name == name {
+			return queue[0], nil
 		}
-	}
-	// still not found? try the imports of all imports
-	for _, pkg := range p.ImportedPackages {
-		obj, err := pkg.GetImportedScope(name)
-		if err == nil {
-			return obj, nil
+		for _, pkg := range queue[0].ImportedPackages {
+			if !visited[pkg.Package] {
+				visited[pkg.Package] = true
+				queue = append(queue, pkg.Package)
+			}
 		}
 	}
 	return nil, errors.New("scope does not exist, or has not been imported")
diff --git a/internal/generator/funcs.go b/internal/generator/funcs.go
index a153a8e..730521f 100644
--- a/internal/generator/funcs.go
+++ b/internal/generator/funcs.go
@@ -43,7 +43,7 @@ func GoGetAllImports(pkg *ast.Package) []string {
 			}
 			alreadyProcessed[importPkg.Name] = true
 			imports = append(imports, importPkg.Name)
-			packagesToProcess = append(packagesToProcess, importPkg)
+			packagesToProcess = append(packagesToProcess, importPkg.Package)
 		}
 		if len(packagesToProcess) == 0 {
 			break
diff --git a/internal/model/transform.go b/internal/model/transform.go
index 868683c..60ad208 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -590,9 +590,14 @@ func (m *Model) ResolveImports() error {
 			if !found {
 				return UnknownPackage{imp.Package}
 			}
-			if imp.Type == "*" {
-				pkg.ImportedPackages = append(pkg.ImportedPackages, iPkg)
+			imported := &ast.ImportedPackage{Package: iPkg}
+			if imp.Type != "*" {
+				if !iPkg.HasType(imp.Type) {
+					return UnknownType{TypeReference: ast.TypeReference{Package: imp.Package, Name: imp.Type}}
+				}
+				imported.Symbol = imp.Type
 			}
+			pkg.ImportedPackages = append(pkg.ImportedPackages, imported)
 		}
 	}
 	return nil
diff --git a/internal/visitor/visitor.go b/internal/visitor/visitor.go
index 1a9138e..cbb7a1f 100644
--- a/internal/visitor/visitor.go
+++ b/internal/visitor/visitor.go
@@ -114,10 +114,8 @@ func (v *Visitor) VisitImportDeclaration(ctx *parser.ImportDeclarationContext) a
 		parts = append(parts, children[i].(antlr.ParseTree).GetText())
 	}
 
-	symbolName := parts[len(parts)-1]
-	if ctx.MULTIPLY() != nil {
-		symbolName = "*"
-	}
+	// the last part before the semicolon is the symbol, or the wildcard
+	symbolName := children[len(children)-2].(antlr.ParseTree).GetText()
 	return &ast.Import{
 		Package: strings.Join(parts[:len(parts)-1], ""),
 		Type:    symbolName,
-- 
2.43.0


From decf53db16c7a497984b148e540c051059eb597a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 26/47] fix: look up members and choice labels in the package
 that defines their type

---
 internal/ast/choice.go     | 29 +++++++++++++++++++++++------
 internal/ast/expression.go | 35 +++++++++++------------------------
 2 files changed, 34 insertions(+), 30 deletions(-)

diff --git a/internal/ast/choice.go b/internal/ast/choice.go
index ef561c0..6d6263d 100644
--- a/internal/ast/choice.go
+++ b/internal/ast/choice.go
@@ -55,7 +55,7 @@ func (choice *Choice) BuildScope(p *Package) error {
 
 // fullySpecifyChoiceConditions fully specifies a choice condition in case the
 // choice case is given as a text, but not a fully determined symbol.
-func (choice *Choice) fullySpecifyChoiceConditions() error {
+func (choice *Choice) fullySpecifyChoiceConditions(p *Package) error {
 	// only the items of enums and bitmasks are given without their type
 	if choice.SelectorExpression.ResultType != ExpressionTypeEnum &&
 		choice.SelectorExpression.ResultType != ExpressionTypeBitmask {
@@ -78,18 +78,35 @@ func (choice *Choice) fullySpecifyChoiceConditions() error {
 						selectorType = n.Type
 					case *Field:
 						selectorType = n.Type
+					case *Function:
+						selectorType = n.ReturnType
 					}
 				}
 				if selectorType == nil {
-					return errors.New("choice selector type is neither a parameter nor a field")
+					return errors.New("choice selector type is neither a parameter, nor a field, nor a function")
+				}
+				// the type is looked up in the package that defines it
+				selectorScope, err := p.GetImportedScope(selectorType.Package)
+				if err != nil {
+					return err
+				}
+				selectorSymbol, err := selectorScope.GetType(selectorType.Name)
+				if err != nil {
+					return err
 				}
 				dotExpression := &Expression{
 					Type: parser.ZserioParserDOT,
 					Operand1: &Expression{
-						Type: parser.ZserioParserID,
-						Text: selectorType.Name,
+						Type:            parser.ZserioParserID,
+						Text:            selectorType.Name,
+						EvaluationState: EvaluationStateComplete,
+						ResultType:      choice.SelectorExpression.ResultType,
+						ResultSymbol:    selectorSymbol,
+					},
+					Operand2: &Expression{
+						Type: parser.UnevaluatableExpressionType,
+						Text: condition.Condition.Text,
 					},
-					Operand2: condition.Condition,
 				}
 				condition.Condition = dotExpression
 			}
@@ -111,7 +128,7 @@ func (choice *Choice) Evaluate(p *Package) error {
 	}
 
 	// Fully specify the choice condition symbols
-	if err := choice.fullySpecifyChoiceConditions(); err != nil {
+	if err := choice.fullySpecifyChoiceConditions(p); err != nil {
 		return err
 	}
 
diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 3ee0463..a51b11c 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -281,43 +281,30 @@ func (expr *Expression) evaluateCompoundDotExpression(scope *Package) error {
 		return errors.New("unknown compound dot expression")
 	}
 
-	// look up through all levels of indirections (subtypes)
+	// look up through all levels of indirections (subtypes), each in the
+	// package that defines it
 	var compoundSymbol *SymbolReference
 	newScope := scope
 	var err error
 	for {
-		compoundSymbol, err = scope.GetSymbol(typeReference.Name)
+		newScope, err = newScope.GetImportedScope(typeReference.Package)
 		if err != nil {
 			return err
 		}
-		newScope, err = newScope.GetImportedScope(compoundSymbol.Package)
+		compoundSymbol, err = newScope.GetType(typeReference.Name)
 		if err != nil {
 			return err
 		}
-		if subtype, ok := compoundSymbol.Symbol.(*Subtype); ok {
-			typeReference = subtype.Type
-			// TODO comment
-			newScope, err = newScope.GetImportedScope(typeReference.Package)
-			if err != nil {
-				return err
-			}
-			continue
+		subtype, ok := compoundSymbol.Symbol.(*Subtype)
+		if !ok {
+			break
 		}
-		break
-	}
-
-	if _, ok := compoundSymbol.Symbol.(*Struct); ok {
-		symbol, err := scope.GetCompoundType(compoundSymbol.Name, expr.Operand2.Text)
-		if err != nil {
-			return err
-		}
-		expr.ResultSymbol = symbol
-		expr.ResultType, expr.NativeZserioType, err = evaluateSymbolType(symbol, newScope)
-		return err
+		typeReference = subtype.Type
 	}
 
-	if _, ok := compoundSymbol.Symbol.(*Choice); ok {
-		symbol, err := scope.GetCompoundType(compoundSymbol.Name, expr.Operand2.Text)
+	switch compoundSymbol.Symbol.(type) {
+	case *Struct, *Choice, *Union:
+		symbol, err := newScope.GetCompoundType(compoundSymbol.Name, expr.Operand2.Text)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From a826a0f147f470ce17477f947f8871031806b6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:23 +0000
Subject: [PATCH 27/47] fix: enums and bitmasks of every integer type, with
 names and values that are valid in Go

---
 internal/ast/bitmask.go                      | 20 ++++++
 internal/ast/enum.go                         | 40 ++++++++++-
 internal/ast/package.go                      | 13 ++++
 internal/ast/type_reference.go               | 73 ++++++++++++++++++++
 internal/generator/expression.go             |  4 +-
 internal/generator/templates/bitmask.go.tmpl |  6 +-
 internal/generator/templates/enum.go.tmpl    |  2 +-
 internal/model/transform.go                  | 18 +++--
 8 files changed, 164 insertions(+), 12 deletions(-)

diff --git a/internal/ast/bitmask.go b/internal/ast/bitmask.go
index 1f5c9d2..bf3e05a 100644
--- a/internal/ast/bitmask.go
+++ b/internal/ast/bitmask.go
@@ -1,5 +1,10 @@
 package ast
 
+import (
+	"fmt"
+	"strings"
+)
+
 type BitmaskValue struct {
 	Name string
 	*Expression
@@ -21,6 +26,11 @@ func findNextFreeBit(lastValue int64) int64 {
 }
 
 func (bitmask *BitmaskType) Evaluate(p *Package) error {
+	lowest, highest, err := integerBounds(bitmask.Type, p)
+	if err != nil {
+		return fmt.Errorf("bitmask %s: %w", bitmask.Name, err)
+	}
+	names := map[string]bool{}
 	for ix, value := range bitmask.Values {
 		if value.Expression == nil {
 			if ix == 0 {
@@ -44,6 +54,16 @@ func (bitmask *BitmaskType) Evaluate(p *Package) error {
 				return err
 			}
 		}
+		if value.ResultType != ExpressionTypeInteger {
+			return fmt.Errorf("bitmask %s: the value of %s is not an integer", bitmask.Name, value.Name)
+		}
+		if value.ResultIntValue < 0 || value.ResultIntValue < lowest || value.ResultIntValue > highest {
+			return fmt.Errorf("bitmask %s: the value of %s is out of range", bitmask.Name, value.Name)
+		}
+		if names[strings.Title(value.Name)] {
+			return fmt.Errorf("bitmask %s: the name of %s is not unique", bitmask.Name, value.Name)
+		}
+		names[strings.Title(value.Name)] = true
 	}
 	return nil
 }
diff --git a/internal/ast/enum.go b/internal/ast/enum.go
index 9e62986..c410101 100644
--- a/internal/ast/enum.go
+++ b/internal/ast/enum.go
@@ -2,6 +2,7 @@ package ast
 
 import (
 	"fmt"
+	"math"
 	"strings"
 
 	"github.com/iancoleman/strcase"
@@ -29,6 +30,18 @@ func (e *Enum) AddItem(i *EnumItem) *EnumItem {
 }
 
 func (e *Enum) Evaluate(scope *Package) error {
+	// the items are visible to the values of each other
+	previousScope := scope.LocalSymbols.CurrentCompoundScope
+	scope.LocalSymbols.CurrentCompoundScope = &e.Name
+	defer func() { scope.LocalSymbols.CurrentCompoundScope = previousScope }()
+
+	lowest, highest, err := integerBounds(e.Type, scope)
+	if err != nil {
+		return fmt.Errorf("enum %s: %w", e.Name, err)
+	}
+	names := map[string]bool{}
+	goNames := map[string]bool{}
+	values := map[int64]bool{}
 	for ix, item := range e.Items {
 		if item.Expression == nil {
 			if ix == 0 {
@@ -56,6 +69,19 @@ func (e *Enum) Evaluate(scope *Package) error {
 				item.ResultType = ExpressionTypeInteger
 			}
 		}
+		if item.ResultType != ExpressionTypeInteger {
+			return fmt.Errorf("enum %s: the value of %s is not an integer", e.Name, item.Name)
+		}
+		if item.ResultIntValue < lowest || item.ResultIntValue > highest ||
+			(item.ResultIntValue == math.MinInt64 && ix > 0 && e.Items[ix-1].ResultIntValue == math.MaxInt64) {
+			return fmt.Errorf("enum %s: the value of %s is out of range", e.Name, item.Name)
+		}
+		if names[item.Name] || goNames[item.GoName()] || values[item.ResultIntValue] {
+			return fmt.Errorf("enum %s: the name or value of %s is not unique", e.Name, item.Name)
+		}
+		names[item.Name] = true
+		goNames[item.GoName()] = true
+		values[item.ResultIntValue] = true
 	}
 	return nil
 }
@@ -77,5 +103,17 @@ func (e *EnumItem) evaluateIn(scope *Package) error {
 }
 
 func (e EnumItem) GoName() string {
-	return e.enum.Name + strcase.ToCamel(strings.ToLower(e.Name))
+	return e.enum.Name + EnumItemGoSuffix(e.Name)
+}
+
+// EnumItemGoSuffix returns what follows the name of the enum in the Go name of
+// an item.
+func EnumItemGoSuffix(name string) string {
+	suffix := strcase.ToCamel(strings.ToLower(name))
+	switch suffix {
+	case "String", "Strings", "Values":
+		// the enum has functions of these names
+		suffix += "_"
+	}
+	return suffix
 }
diff --git a/internal/ast/package.go b/internal/ast/package.go
index 6ab302a..bb11e6d 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -95,12 +95,25 @@ func (p *Package) CollectSymbols() error {
 			return err
 		}
 	}
+	// names that are items of more than one enum need the name of the enum
+	itemNames := map[string]int{}
 	for name, value := range p.Enums {
 		p.LocalSymbols.TypeScope[name] = value
 
 		// add all enum values as symbols
+		items := map[string]any{}
 		for _, enumItem := range value.Items {
 			p.LocalSymbols.OtherScope[enumItem.Name] = enumItem
+			if _, found := items[enumItem.Name]; !found {
+				items[enumItem.Name] = enumItem
+				itemNames[enumItem.Name]++
+			}
+		}
+		p.LocalSymbols.CompoundScopes[name] = &CompoundScope{Symbol: value, Scope: items}
+	}
+	for name, count := range itemNames {
+		if count > 1 {
+			delete(p.LocalSymbols.OtherScope, name)
 		}
 	}
 	for name, value := range p.Unions {
diff --git a/internal/ast/type_reference.go b/internal/ast/type_reference.go
index ebc243b..4b4b6dd 100644
--- a/internal/ast/type_reference.go
+++ b/internal/ast/type_reference.go
@@ -1,5 +1,11 @@
 package ast
 
+import (
+	"errors"
+	"fmt"
+	"math"
+)
+
 type TypeReference struct {
 	// IsBuiltin is set to true for standard zserio types
 	IsBuiltin         bool
@@ -31,3 +37,70 @@ func (tr *TypeReference) Evaluate(p *Package) error {
 	}
 	return nil
 }
+
+// integerBounds returns the lowest and highest value of an integer type, as far
+// as they can be written in a schema.
+func integerBounds(tr *TypeReference, p *Package) (int64, int64, error) {
+	if tr.IsBuiltin && tr.LengthExpression != nil {
+		// the type of an enum or bitmask has a constant length
+		if err := tr.LengthExpression.Evaluate(p); err != nil {
+			return 0, 0, err
+		}
+		length := tr.LengthExpression
+		if !length.FullyResolved || length.ResultType != ExpressionTypeInteger ||
+			length.ResultIntValue < 1 || length.ResultIntValue > 64 {
+			return 0, 0, errors.New("the bit length of the type is not a constant between 1 and 64")
+		}
+		tr.Bits = int(length.ResultIntValue)
+		tr.LengthExpression = nil
+	}
+	original, err := p.GetOriginalType(tr)
+	if err != nil {
+		return 0, 0, err
+	}
+	if !original.Type.IsBuiltin {
+		return 0, 0, fmt.Errorf("%s is not an integer type", tr.Name)
+	}
+
+	bits := original.Type.Bits
+	switch original.Type.Name {
+	case "int8", "int16", "int32", "int64", "int":
+		if bits == 0 {
+			bits = map[string]int{"int8": 8, "int16": 16, "int32": 32, "int64": 64}[original.Type.Name]
+		}
+		if bits < 1 || bits > 64 {
+			return 0, 0, errors.New("the bit length of the type is not between 1 and 64")
+		}
+		return -1 << (bits - 1), 1<<(bits-1) - 1, nil
+	case "uint8", "uint16", "uint32", "uint64", "bit":
+		if bits == 0 {
+			bits = map[string]int{"uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64}[original.Type.Name]
+		}
+		if bits < 1 || bits > 64 {
+			return 0, 0, errors.New("the bit length of the type is not between 1 and 64")
+		}
+		if bits == 64 {
+			return 0, math.MaxInt64, nil
+		}
+		return 0, int64(uint64(1)<<bits - 1), nil
+	case "varint16":
+		return -1<<14 + 1, 1<<14 - 1, nil
+	case "varint32":
+		return -1<<28 + 1, 1<<28 - 1, nil
+	case "varint64":
+		return -1<<56 + 1, 1<<56 - 1, nil
+	case "varint":
+		return math.MinInt64, math.MaxInt64, nil
+	case "varuint16":
+		return 0, 1<<15 - 1, nil
+	case "varuint32":
+		return 0, 1<<29 - 1, nil
+	case "varuint64":
+		return 0, 1<<57 - 1, nil
+	case "varuint":
+		return 0, math.MaxInt64, nil
+	case "varsize":
+		return 0, 1<<31 - 1, nil
+	}
+	return 0, 0, fmt.Errorf("%s is not an integer type", tr.Name)
+}
diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 2ff4142..60cbfbd 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -5,8 +5,6 @@ import (
 	"strconv"
 	"strings"
 
-	"github.com/iancoleman/strcase"
-
 	"github.com/woven-planet/go-zserio/internal/ast"
 	"github.com/woven-planet/go-zserio/internal/parser"
 )
@@ -98,7 +96,7 @@ func dotOperatorToGoString(scope ast.Scope, expression *ast.Expression) string {
 		}
 		enumValue := originalEnumType + rightText
 		if expression.Operand1.ResultType == ast.ExpressionTypeEnum {
-			enumValue = originalEnumType + strcase.ToCamel(strings.ToLower(expression.Operand2.Text))
+			enumValue = originalEnumType + ast.EnumItemGoSuffix(expression.Operand2.Text)
 		}
 		if originalType.RequiresCast {
 			enumValue = fmt.Sprintf("%s(%s)", leftText, enumValue)
diff --git a/internal/generator/templates/bitmask.go.tmpl b/internal/generator/templates/bitmask.go.tmpl
index e41159f..a19126b 100644
--- a/internal/generator/templates/bitmask.go.tmpl
+++ b/internal/generator/templates/bitmask.go.tmpl
@@ -1,7 +1,7 @@
 {{ $scope := .pkg }} 
 {{ $bitmask := .bitmask }}
 {{ $native := goNativeType $scope $bitmask.Type }}
-{{ $go_type := goType $scope $bitmask.Type }}
+{{ $go_type := goType $scope $native.Type }}
 {{ $obj_with_cast := printf "%s(*v)" $go_type }} 
 
 
@@ -27,9 +27,9 @@ func (v *{{ $bitmask.Name}}) MarshalZserio(w zserio.Writer) error {
     {{- else if eq $native.Type.Bits 0 }}
       return ztype.Write{{ title $native.Type.Name }}(w, {{ goType $scope $native.Type }}(*v))
     {{- else if eq $native.Type.Name "bit" }}
-      return ztype.WriteUnsignedBits(w, uint64(*v), {{ $bitmask.Type.Bits }})
+      return ztype.WriteUnsignedBits(w, uint64(*v), {{ $native.Type.Bits }})
     {{- else if eq $native.Type.Name "int" }}
-      return ztype.WriteSignedBits(w, int64(*v), {{ $bitmask.Type.Bits }})
+      return ztype.WriteSignedBits(w, int64(*v), {{ $native.Type.Bits }})
     {{- else }}
       panic("unsupported type")
     {{- end }}
diff --git a/internal/generator/templates/enum.go.tmpl b/internal/generator/templates/enum.go.tmpl
index d2dcd9b..3cacc1b 100644
--- a/internal/generator/templates/enum.go.tmpl
+++ b/internal/generator/templates/enum.go.tmpl
@@ -151,7 +151,7 @@ func (v *{{ $enum.Name}}) ZserioBitSize(bitPosition int) (int, error) {
 {{- if not $native.Type.IsBuiltin }}
       panic("only builtin types supported")
 {{- else }}
-  {{ template "builtin_bitsizeof.go.tmpl" dict "pkg" $scope "name" "*v" "native" $native "isarray" false "isoptional" false }}
+  {{ template "builtin_bitsizeof.go.tmpl" dict "pkg" $scope "name" (printf "%s(*v)" (goType $scope $native.Type)) "native" $native "isarray" false "isoptional" false }}
 {{- end }}
   return endBitPosition - bitPosition, nil
 }
diff --git a/internal/model/transform.go b/internal/model/transform.go
index 60ad208..d90ad3b 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -50,10 +50,6 @@ func (m *Model) CapitalizeNames() {
 			if !e.Type.IsBuiltin {
 				e.Type.Name = strings.Title(e.Type.Name)
 			}
-
-			for _, item := range e.Items {
-				item.Name = strings.Title(item.Name)
-			}
 		}
 
 		for _, u := range pkg.Unions {
@@ -847,6 +843,20 @@ func (m *Model) ResolveTypes() error {
 			}
 		}
 
+		for _, enum := range pkg.Enums {
+			if err := m.resolveTypeReference(pkg, enum.Type, map[string]bool{}); err != nil {
+				return TypeError{
+					TypeReference: ast.TypeReference{
+						IsBuiltin: false,
+						Package:   pkg.Name,
+						Name:      enum.Type.Name,
+					},
+					Field: enum.Name,
+					Err:   err,
+				}
+			}
+		}
+
 		for _, bitmask := range pkg.Bitmasks {
 			if err := m.resolveTypeReference(pkg, bitmask.Type, map[string]bool{}); err != nil {
 				return TypeError{
-- 
2.43.0


From 773c464e703d5bc90ea247224b0e8eacac98a02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:47 +0000
Subject: [PATCH 28/47] fix: load the default values of enum and bitmask fields

---
 internal/generator/templates/default_values.go.tmpl | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/internal/generator/templates/default_values.go.tmpl b/internal/generator/templates/default_values.go.tmpl
index 7a1cd67..a275508 100644
--- a/internal/generator/templates/default_values.go.tmpl
+++ b/internal/generator/templates/default_values.go.tmpl
@@ -12,13 +12,11 @@
 {{- end }}
 
 {{- if and (not $field.IsOptional) (not $field.Array) }}
-    {{- if $native.IsMarshaler }}
+    {{- if and $native.IsMarshaler (not $field.Initializer) }}
         if err := {{- $field_name }}.LoadDefaultValues(); err != nil {
             return err
         }
-    {{- else if not $field.Array }}
-        {{- if $field.Initializer }}
-        {{- $field_name }} = {{ if $native.RequiresCast }}{{ goType $scope $field.Type }}({{ end }}{{ goExpression $scope $field.Initializer }}{{ if $native.RequiresCast }}){{ end }}
-        {{- end }}
+    {{- else if $field.Initializer }}
+        v.{{ $field.Name }} = {{ if $native.RequiresCast }}{{ goType $scope $field.Type }}({{ end }}{{ goExpression $scope $field.Initializer }}{{ if $native.RequiresCast }}){{ end }}
     {{- end }}
 {{- end }}
-- 
2.43.0


From c6f53acbcca92f736bb5dd50a3ba2a39038901dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 29/47] fix: subtypes of extern and bytes

---
 internal/ast/package.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/ast/package.go b/internal/ast/package.go
index bb11e6d..965c601 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -388,9 +388,13 @@ func (p *Package) GetOriginalType(typeRef *TypeReference) (*OriginalTypeReferenc
 	currentScope := p
 	for {
 		if typeRef.IsBuiltin {
+			// Subtypes are Go aliases: extern and bytes, which are Go pointers,
+			// need no conversion (and do not have one that can be written as
+			// type(value)).
+			isPointer := typeRef.Name == "extern" || typeRef.Name == "bytes"
 			return &OriginalTypeReference{
 				Type:         typeRef,
-				RequiresCast: requiresCast,
+				RequiresCast: requiresCast && !isPointer,
 			}, nil
 		}
 		currentScope, err := currentScope.GetImportedScope(typeRef.Package)
-- 
2.43.0


From 1fc685f37edf40fa147fbac1c7e16b4e981f579a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 30/47] fix: instantiate templates in a fixed order, with their
 own copy of everything and in the right packages

---
 internal/ast/choice.go      |   9 +-
 internal/ast/expression.go  |  18 +-
 internal/ast/package.go     |  24 ++
 internal/ast/scope.go       |   4 +
 internal/ast/struct.go      |   9 +-
 internal/ast/union.go       |   9 +-
 internal/model/model.go     |   3 +
 internal/model/transform.go | 572 ++++++++++++++++++++----------------
 8 files changed, 391 insertions(+), 257 deletions(-)

diff --git a/internal/ast/choice.go b/internal/ast/choice.go
index 6d6263d..007ff4b 100644
--- a/internal/ast/choice.go
+++ b/internal/ast/choice.go
@@ -26,13 +26,18 @@ type Choice struct {
 	Cases              []*ChoiceCase
 	DefaultCase        *ChoiceCase
 	Functions          []*Function
+
+	// TemplatePackage is the package of the template that this type is an
+	// instantiation of, if it is another one.
+	TemplatePackage *Package
 }
 
 func (choice *Choice) BuildScope(p *Package) error {
 	// create a compound scope
 	compoundScope := &CompoundScope{
-		Symbol: choice,
-		Scope:  make(map[string]any),
+		Symbol:          choice,
+		Scope:           make(map[string]any),
+		TemplatePackage: choice.TemplatePackage,
 	}
 
 	for _, param := range choice.TypeParameters {
diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index a51b11c..4a85651 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -41,6 +41,10 @@ type Expression struct {
 	// Text is the text of the expression.
 	Text string
 
+	// TemplateArgument is the type that an identifier stands for, if it is the
+	// parameter of a template.
+	TemplateArgument *TypeReference
+
 	// Operand1 is the first operand of the expression (if used).
 	Operand1 *Expression
 
@@ -176,9 +180,21 @@ func (expr *Expression) evaluateIndexExpression() error {
 	return nil
 }
 
+// lookUp returns the symbol that an identifier stands for.
+func (expr *Expression) lookUp(scope *Package) (*SymbolReference, error) {
+	if expr.TemplateArgument != nil {
+		argumentScope, err := scope.GetImportedScope(expr.TemplateArgument.Package)
+		if err != nil {
+			return nil, err
+		}
+		return argumentScope.GetType(expr.TemplateArgument.Name)
+	}
+	return scope.GetExpressionSymbol(expr.Text)
+}
+
 // evaluateIdentifier evaluates an identifier expression.
 func (expr *Expression) evaluateIdentifier(scope *Package) error {
-	symbol, err := scope.GetSymbol(expr.Text)
+	symbol, err := expr.lookUp(scope)
 	if err != nil {
 		return errors.New("symbol not found")
 	}
diff --git a/internal/ast/package.go b/internal/ast/package.go
index 965c601..38f261a 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -254,6 +254,30 @@ func (p *Package) GetSymbol(name string) (*SymbolReference, error) {
 	return nil, errors.New("symbol not found")
 }
 
+// GetExpressionSymbol searches for a symbol that is named in an expression. The
+// members of the current compound type hide everything else of the same name.
+func (p *Package) GetExpressionSymbol(name string) (*SymbolReference, error) {
+	if p.LocalSymbols.CurrentCompoundScope == nil {
+		return p.GetSymbol(name)
+	}
+	scope := p.LocalSymbols.CompoundScopes[*p.LocalSymbols.CurrentCompoundScope]
+	if scope == nil {
+		return p.GetSymbol(name)
+	}
+	if _, isEnum := scope.Symbol.(*Enum); !isEnum {
+		if symbol, err := p.GetCurrentCompoundType(name); err == nil {
+			return symbol, nil
+		}
+	}
+	if scope.TemplatePackage != nil {
+		if symbol, err := scope.TemplatePackage.GetType(name); err == nil {
+			return symbol, nil
+		}
+		return scope.TemplatePackage.GetOtherType(name)
+	}
+	return p.GetSymbol(name)
+}
+
 func (p *Package) GetType(name string) (*SymbolReference, error) {
 	// First check the local scope
 	if typeSymbol, err := p.LocalSymbols.GetType(name); err == nil {
diff --git a/internal/ast/scope.go b/internal/ast/scope.go
index 9e1c740..d52435b 100644
--- a/internal/ast/scope.go
+++ b/internal/ast/scope.go
@@ -252,6 +252,10 @@ func (s *RootScope) HasType(t string) bool {
 type CompoundScope struct {
 	Symbol any
 	Scope  map[string]any
+
+	// TemplatePackage is the package, in which the expressions of the compound
+	// type are defined, if it is another one.
+	TemplatePackage *Package
 }
 
 // SymbolScope keeps track of all symbols that are available in this scope
diff --git a/internal/ast/struct.go b/internal/ast/struct.go
index 271e8e8..2916fb7 100644
--- a/internal/ast/struct.go
+++ b/internal/ast/struct.go
@@ -7,13 +7,18 @@ type Struct struct {
 	TypeParameters     []*Parameter
 	Fields             []*Field
 	Functions          []*Function
+
+	// TemplatePackage is the package of the template that this type is an
+	// instantiation of, if it is another one.
+	TemplatePackage *Package
 }
 
 func (s *Struct) BuildScope(p *Package) error {
 	// create a compound scope
 	compoundScope := &CompoundScope{
-		Symbol: s,
-		Scope:  make(map[string]any),
+		Symbol:          s,
+		Scope:           make(map[string]any),
+		TemplatePackage: s.TemplatePackage,
 	}
 	for _, param := range s.TypeParameters {
 		compoundScope.Scope[param.Name] = param
diff --git a/internal/ast/union.go b/internal/ast/union.go
index 9ca57c4..eb85a32 100644
--- a/internal/ast/union.go
+++ b/internal/ast/union.go
@@ -7,13 +7,18 @@ type Union struct {
 	TypeParameters     []*Parameter
 	Fields             []*Field
 	Functions          []*Function
+
+	// TemplatePackage is the package of the template that this type is an
+	// instantiation of, if it is another one.
+	TemplatePackage *Package
 }
 
 func (u *Union) BuildScope(p *Package) error {
 	// create a compound scope
 	compoundScope := &CompoundScope{
-		Symbol: u,
-		Scope:  make(map[string]any),
+		Symbol:          u,
+		Scope:           make(map[string]any),
+		TemplatePackage: u.TemplatePackage,
 	}
 	for _, param := range u.TypeParameters {
 		compoundScope.Scope[param.Name] = param
diff --git a/internal/model/model.go b/internal/model/model.go
index 5255496..387cca1 100644
--- a/internal/model/model.go
+++ b/internal/model/model.go
@@ -13,6 +13,9 @@ import (
 
 type Model struct {
 	Packages map[string]*ast.Package
+
+	// instantiatedNames are the generated names of instantiated templates
+	instantiatedNames map[string]string
 }
 
 func NewModel() *Model {
diff --git a/internal/model/transform.go b/internal/model/transform.go
index d90ad3b..67fa3df 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -3,9 +3,11 @@ package model
 import (
 	"errors"
 	"fmt"
+	"sort"
 	"strings"
 
 	"github.com/woven-planet/go-zserio/internal/ast"
+	"github.com/woven-planet/go-zserio/internal/parser"
 )
 
 type TypeError struct {
@@ -189,9 +191,12 @@ func (m *Model) EvaluateChoices() error {
 
 func (m *Model) InstantiateTemplates() error {
 	var err error
-	for _, pkg := range m.Packages {
+	// The names of the instantiated types depend on the order.
+	for _, pkgName := range sortedKeys(m.Packages) {
+		pkg := m.Packages[pkgName]
 		// Instantiate all template instantiation created with "instantiate" keyword
-		for _, instantiatedType := range pkg.InstantiatedTypes {
+		for _, name := range sortedKeys(pkg.InstantiatedTypes) {
+			instantiatedType := pkg.InstantiatedTypes[name]
 			if instantiatedType.Type, err = m.instantiateType(
 				pkg,
 				instantiatedType.Type,
@@ -210,7 +215,8 @@ func (m *Model) InstantiateTemplates() error {
 
 		// instantiate all templates that were created by using the "subtype", e.g.
 		// subtype TemplateType<int> InstantiatedSubtype;
-		for _, subtype := range pkg.Subtypes {
+		for _, name := range sortedKeys(pkg.Subtypes) {
+			subtype := pkg.Subtypes[name]
 			if subtype.Type, err = m.instantiateType(
 				pkg,
 				subtype.Type,
@@ -230,308 +236,315 @@ func (m *Model) InstantiateTemplates() error {
 		}
 
 		// Instantiate all structs that have template fields
-		for _, structure := range pkg.Structs {
+		for _, name := range sortedKeys(pkg.Structs) {
+			structure := pkg.Structs[name]
 			// don't instantiate template structs
 			if len(structure.TemplateParameters) > 0 {
 				continue
 			}
-			for _, field := range structure.Fields {
-				if field.Type, err = m.instantiateType(
-					pkg,
-					field.Type,
-					field.Type.TemplateArguments,
-					""); // auto-generate a new name
-				err != nil {
-					return TypeError{
-						TypeReference: ast.TypeReference{
-							IsBuiltin: false,
-							Package:   pkg.Name,
-							Name:      structure.Name,
-						},
-						Field: field.Name,
-						Err:   err,
-					}
-				}
+			if err := m.instantiateMembers(pkg, structure.Name, structure.TypeParameters, structure.Fields, structure.Functions); err != nil {
+				return err
 			}
 		}
 
 		// instantiate all choices that have template fields
-		for _, choice := range pkg.Choices {
+		for _, name := range sortedKeys(pkg.Choices) {
+			choice := pkg.Choices[name]
 			// don't instantiate template choices
 			if len(choice.TemplateParameters) > 0 {
 				continue
 			}
+			fields := []*ast.Field{}
 			for _, choiceCase := range choice.Cases {
-				if choiceCase.Field == nil {
-					continue
-				}
-				if choiceCase.Field.Type, err = m.instantiateType(
-					pkg,
-					choiceCase.Field.Type,
-					choiceCase.Field.Type.TemplateArguments,
-					""); // auto-generate a new name
-				err != nil {
-					return TypeError{
-						TypeReference: ast.TypeReference{
-							IsBuiltin: false,
-							Package:   pkg.Name,
-							Name:      choice.Name,
-						},
-						Field: choiceCase.Field.Name,
-						Err:   err,
-					}
+				if choiceCase.Field != nil {
+					fields = append(fields, choiceCase.Field)
 				}
 			}
 			if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
-				if choice.DefaultCase.Field.Type, err = m.instantiateType(
-					pkg,
-					choice.DefaultCase.Field.Type,
-					choice.DefaultCase.Field.Type.TemplateArguments,
-					""); // auto-generate a new name
-				err != nil {
-					return TypeError{
-						TypeReference: ast.TypeReference{
-							IsBuiltin: false,
-							Package:   pkg.Name,
-							Name:      choice.Name,
-						},
-						Field: choice.DefaultCase.Field.Name,
-						Err:   err,
-					}
-				}
+				fields = append(fields, choice.DefaultCase.Field)
+			}
+			if err := m.instantiateMembers(pkg, choice.Name, choice.TypeParameters, fields, choice.Functions); err != nil {
+				return err
+			}
+		}
+
+		// instantiate all unions that have template fields
+		for _, name := range sortedKeys(pkg.Unions) {
+			union := pkg.Unions[name]
+			// don't instantiate template unions
+			if len(union.TemplateParameters) > 0 {
+				continue
+			}
+			if err := m.instantiateMembers(pkg, union.Name, union.TypeParameters, union.Fields, union.Functions); err != nil {
+				return err
 			}
 		}
 	}
 	return nil
 }
 
-func (m *Model) instantiateField(pkgScope *ast.Package, field *ast.Field, templateTypes map[string]*ast.TypeReference) (*ast.Field, error) {
-	fieldCopy := *field
-	if len(field.Type.TemplateArguments) > 0 {
-		// the field itself is a templated compound type, and needs to
-		// be instantiated first.
+// sortedKeys returns the names in a scope in their order.
+func sortedKeys[T any](scope map[string]T) []string {
+	keys := make([]string, 0, len(scope))
+	for key := range scope {
+		keys = append(keys, key)
+	}
+	sort.Strings(keys)
+	return keys
+}
 
-		// the template argument parameter must be recreated, as the
-		// field template arguments might differ from the struct template
-		// arguments. Example:
-		// struct<A, B, C> {
-		//    foo<int, C> field1;
-		//    bar<B, A> field2;
-		// }
-		newTemplateParameters := append([]*ast.TypeReference{}, field.Type.TemplateArguments...)
-		for ix, templateParameter := range newTemplateParameters {
-			if passedTemplateArgument, found := templateTypes[templateParameter.Name]; found {
-				newTemplateParameters[ix] = passedTemplateArgument
+// instantiateMembers instantiates the templates that the members of a compound
+// type use.
+func (m *Model) instantiateMembers(pkg *ast.Package, compoundName string, parameters []*ast.Parameter, fields []*ast.Field, functions []*ast.Function) error {
+	instantiate := func(name string, tr *ast.TypeReference) (*ast.TypeReference, error) {
+		newType, err := m.instantiateType(pkg, tr, tr.TemplateArguments, "") // auto-generate a new name
+		if err != nil {
+			return nil, TypeError{
+				TypeReference: ast.TypeReference{
+					IsBuiltin: false,
+					Package:   pkg.Name,
+					Name:      compoundName,
+				},
+				Field: name,
+				Err:   err,
 			}
 		}
-
-		tt, err := m.instantiateType(pkgScope, field.Type, newTemplateParameters, "")
-		if err != nil {
-			return nil, err
+		return newType, nil
+	}
+	var err error
+	for _, parameter := range parameters {
+		if parameter.Type, err = instantiate(parameter.Name, parameter.Type); err != nil {
+			return err
 		}
-		fieldCopy.Type = tt
-		return &fieldCopy, nil
 	}
-	if tt, ok := templateTypes[field.Type.Name]; ok && field.Type.Package == "" {
-		// the field a template itself
-		fieldCopy.Type = tt
-		//  If the template has type arguments, these arguments need to
-		// be applied also to the instantiated type.
-		fieldCopy.Type.TypeArguments = field.Type.TypeArguments
-		return &fieldCopy, nil
+	for _, field := range fields {
+		if field.Type, err = instantiate(field.Name, field.Type); err != nil {
+			return err
+		}
+	}
+	for _, function := range functions {
+		if function.ReturnType, err = instantiate(function.Name, function.ReturnType); err != nil {
+			return err
+		}
 	}
-	// not templated
-	return field, nil
+	return nil
 }
 
-func (m *Model) instantiateStruct(
-	pkgScope *ast.Package,
-	templStruct *ast.Struct,
-	templateArguments []*ast.TypeReference,
-	instantiatedName string) (*ast.TypeReference, error) {
-	if len(templateArguments) == 0 {
-		return nil, errors.New("struct instantiation called without parameters")
-	}
-	if len(templStruct.TemplateParameters) != len(templateArguments) {
-		return nil, ErrIncorrectNumberOfTemplateParameters
-	}
-	// templateTypes is a map from the template parameter name to the instantiated
-	// type.
-	templateTypes := map[string]*ast.TypeReference{}
-	for ix, ta := range templateArguments {
-		// Instantiate the subtype
-		ta, err := m.instantiateType(pkgScope, ta, ta.TemplateArguments, "")
-		if err != nil {
-			return nil, err
+// templateArguments maps the names of template parameters to the types passed
+// for them.
+type templateArguments map[string]*ast.TypeReference
+
+// substituteType returns a copy of a type reference of a template, with the
+// template parameters replaced.
+func (arguments templateArguments) substituteType(tr *ast.TypeReference) *ast.TypeReference {
+	newType := *tr
+	if argument, found := arguments[tr.Name]; found && !tr.IsBuiltin && tr.Package == "" {
+		newType = *argument
+	} else {
+		newType.LengthExpression = arguments.substituteExpression(tr.LengthExpression)
+		newType.TemplateArguments = nil
+		for _, templateArgument := range tr.TemplateArguments {
+			newType.TemplateArguments = append(newType.TemplateArguments, arguments.substituteType(templateArgument))
 		}
-		templateTypes[templStruct.TemplateParameters[ix]] = ta
 	}
-
-	newType := &ast.TypeReference{
-		IsBuiltin: false,
-		Package:   pkgScope.Name,
-		Name:      instantiatedName,
+	// If the template has type arguments, these arguments need to be applied
+	// also to the instantiated type.
+	newType.TypeArguments = nil
+	for _, typeArgument := range tr.TypeArguments {
+		newType.TypeArguments = append(newType.TypeArguments, arguments.substituteExpression(typeArgument))
 	}
-	// check if the struct was already instantiated
-	if _, exists := pkgScope.Structs[newType.Name]; exists {
-		return newType, nil
+	return &newType
+}
+
+// substituteExpression returns a copy of an expression of a template. Every
+// instantiation evaluates its own copy.
+func (arguments templateArguments) substituteExpression(expression *ast.Expression) *ast.Expression {
+	if expression == nil {
+		return nil
 	}
-	structure := &ast.Struct{
-		Name:    newType.Name,
-		Comment: templStruct.Comment,
+	newExpression := *expression
+	newExpression.Operand1 = arguments.substituteExpression(expression.Operand1)
+	newExpression.Operand2 = arguments.substituteExpression(expression.Operand2)
+	newExpression.Operand3 = arguments.substituteExpression(expression.Operand3)
+	if argument, found := arguments[expression.Text]; found && !argument.IsBuiltin && expression.Type == parser.ZserioParserID {
+		newExpression.TemplateArgument = argument
 	}
+	return &newExpression
+}
 
-	// resolve the templates for the fields
-	for _, field := range templStruct.Fields {
-		newField, err := m.instantiateField(pkgScope, field, templateTypes)
-		if err != nil {
-			return nil, err
-		}
-		structure.Fields = append(structure.Fields, newField)
+func (arguments templateArguments) substituteParameters(parameters []*ast.Parameter) []*ast.Parameter {
+	var newParameters []*ast.Parameter
+	for _, parameter := range parameters {
+		newParameters = append(newParameters, &ast.Parameter{
+			Name: parameter.Name,
+			Type: arguments.substituteType(parameter.Type),
+		})
 	}
+	return newParameters
+}
 
-	// resolve the templates for the types
-	for _, typeParam := range templStruct.TypeParameters {
-		if tt := templateTypes[typeParam.Type.Name]; tt != nil && typeParam.Type.Package == "" {
-			// the parameter is a template
-			structure.TypeParameters = append(structure.TypeParameters, &ast.Parameter{
-				Name: typeParam.Name,
-				Type: tt,
-			})
-		} else {
-			// not templated
-			structure.TypeParameters = append(structure.TypeParameters, typeParam)
-		}
-	}
+func (arguments templateArguments) substituteFunctions(functions []*ast.Function) []*ast.Function {
+	var newFunctions []*ast.Function
+	for _, function := range functions {
+		newFunctions = append(newFunctions, &ast.Function{
+			Name:       function.Name,
+			Comment:    function.Comment,
+			Result:     arguments.substituteExpression(function.Result),
+			ReturnType: arguments.substituteType(function.ReturnType),
+		})
+	}
+	return newFunctions
+}
 
-	// resolve the template for the functions
-	for _, function := range templStruct.Functions {
-		if tt := templateTypes[function.ReturnType.Name]; tt != nil && function.ReturnType.Package == "" {
-			// the function return type is a template
-			structure.Functions = append(structure.Functions, &ast.Function{
-				Name:       function.Name,
-				Comment:    function.Comment,
-				Result:     function.Result,
-				ReturnType: tt,
-			})
-		} else {
-			// not templated
-			structure.Functions = append(structure.Functions, function)
-		}
+func (arguments templateArguments) substituteField(field *ast.Field) *ast.Field {
+	newField := *field
+	newField.Type = arguments.substituteType(field.Type)
+	newField.Initializer = arguments.substituteExpression(field.Initializer)
+	newField.Constraint = arguments.substituteExpression(field.Constraint)
+	newField.OptionalClause = arguments.substituteExpression(field.OptionalClause)
+	if field.Array != nil {
+		newArray := *field.Array
+		newArray.Length = arguments.substituteExpression(field.Array.Length)
+		newField.Array = &newArray
+	}
+	return &newField
+}
+
+func (arguments templateArguments) substituteChoiceCase(choiceCase *ast.ChoiceCase) *ast.ChoiceCase {
+	newChoiceCase := &ast.ChoiceCase{
+		Comment: choiceCase.Comment,
+	}
+	for _, condition := range choiceCase.Conditions {
+		newChoiceCase.Conditions = append(newChoiceCase.Conditions, &ast.ChoiceCaseExpression{
+			Condition: arguments.substituteExpression(condition.Condition),
+			Comment:   condition.Comment,
+		})
 	}
+	if choiceCase.Field != nil {
+		newChoiceCase.Field = arguments.substituteField(choiceCase.Field)
+	}
+	return newChoiceCase
+}
 
-	// update the scope with the newly created scope
-	pkgScope.Structs[newType.Name] = structure
-	pkgScope.LocalSymbols.TypeScope[newType.Name] = structure
-	structure.BuildScope(pkgScope)
-	return newType, nil
+// newTemplateArguments matches the parameters of a template with the arguments.
+func newTemplateArguments(parameters []string, arguments []*ast.TypeReference) (templateArguments, error) {
+	if len(parameters) != len(arguments) {
+		return nil, ErrIncorrectNumberOfTemplateParameters
+	}
+	templateTypes := templateArguments{}
+	for ix, argument := range arguments {
+		templateTypes[parameters[ix]] = argument
+	}
+	return templateTypes, nil
 }
 
-func (m *Model) instantiateChoice(
+func (m *Model) instantiateStruct(
 	pkgScope *ast.Package,
-	templChoice *ast.Choice,
-	templateArguments []*ast.TypeReference,
-	instantiatedName string) (*ast.TypeReference, error) {
-	if len(templateArguments) == 0 {
-		return nil, errors.New("choice instantiation called without parameters")
+	templStruct *ast.Struct,
+	arguments []*ast.TypeReference,
+	instantiatedName string,
+	templatePackage *ast.Package) error {
+	templateTypes, err := newTemplateArguments(templStruct.TemplateParameters, arguments)
+	if err != nil {
+		return err
 	}
-	if len(templChoice.TemplateParameters) != len(templateArguments) {
-		return nil, ErrIncorrectNumberOfTemplateParameters
+	structure := &ast.Struct{
+		Name:            instantiatedName,
+		Comment:         templStruct.Comment,
+		TypeParameters:  templateTypes.substituteParameters(templStruct.TypeParameters),
+		Functions:       templateTypes.substituteFunctions(templStruct.Functions),
+		TemplatePackage: templatePackage,
 	}
-	// templateTypes is a map from the template parameter name to the instantiated
-	// type.
-	templateTypes := map[string]*ast.TypeReference{}
-	for ix, ta := range templateArguments {
-		// Instantiate the subtype
-		ta, err := m.instantiateType(pkgScope, ta, ta.TemplateArguments, "")
-		if err != nil {
-			return nil, err
-		}
-		templateTypes[templChoice.TemplateParameters[ix]] = ta
+	for _, field := range templStruct.Fields {
+		structure.Fields = append(structure.Fields, templateTypes.substituteField(field))
 	}
 
-	newType := &ast.TypeReference{
-		IsBuiltin: false,
-		Package:   pkgScope.Name,
-		Name:      instantiatedName,
+	// update the scope with the newly created scope, before the members are
+	// instantiated, as these can use the same instantiation
+	pkgScope.Structs[structure.Name] = structure
+	pkgScope.LocalSymbols.TypeScope[structure.Name] = structure
+	if err := m.instantiateMembers(pkgScope, structure.Name, structure.TypeParameters, structure.Fields, structure.Functions); err != nil {
+		return err
 	}
+	return structure.BuildScope(pkgScope)
+}
 
-	// check if the type was already instantiated
-	if _, exists := pkgScope.Choices[newType.Name]; exists {
-		return newType, nil
+func (m *Model) instantiateChoice(
+	pkgScope *ast.Package,
+	templChoice *ast.Choice,
+	arguments []*ast.TypeReference,
+	instantiatedName string,
+	templatePackage *ast.Package) error {
+	templateTypes, err := newTemplateArguments(templChoice.TemplateParameters, arguments)
+	if err != nil {
+		return err
 	}
 	choice := &ast.Choice{
-		Name:               newType.Name,
+		Name:               instantiatedName,
 		Comment:            templChoice.Comment,
-		SelectorExpression: templChoice.SelectorExpression,
+		TypeParameters:     templateTypes.substituteParameters(templChoice.TypeParameters),
+		SelectorExpression: templateTypes.substituteExpression(templChoice.SelectorExpression),
+		Functions:          templateTypes.substituteFunctions(templChoice.Functions),
+		TemplatePackage:    templatePackage,
 	}
 
 	// resolve the templates for the choices
+	var fields []*ast.Field
 	for _, choiceCase := range templChoice.Cases {
-		newChoiceCase := &ast.ChoiceCase{
-			Conditions: choiceCase.Conditions,
-			Comment:    choiceCase.Comment,
-		}
-		if choiceCase.Field != nil {
-			newField, err := m.instantiateField(pkgScope, choiceCase.Field, templateTypes)
-			if err != nil {
-				return nil, err
-			}
-			newChoiceCase.Field = newField
-		}
+		newChoiceCase := templateTypes.substituteChoiceCase(choiceCase)
 		choice.Cases = append(choice.Cases, newChoiceCase)
+		if newChoiceCase.Field != nil {
+			fields = append(fields, newChoiceCase.Field)
+		}
 	}
 
 	// also resolve the default case
 	if templChoice.DefaultCase != nil {
-		choice.DefaultCase = &ast.ChoiceCase{
-			Conditions: templChoice.DefaultCase.Conditions,
-			Comment:    templChoice.DefaultCase.Comment,
+		choice.DefaultCase = templateTypes.substituteChoiceCase(templChoice.DefaultCase)
+		if choice.DefaultCase.Field != nil {
+			fields = append(fields, choice.DefaultCase.Field)
 		}
-		if templChoice.DefaultCase.Field != nil {
-			newField, err := m.instantiateField(pkgScope, templChoice.DefaultCase.Field, templateTypes)
-			if err != nil {
-				return nil, err
-			}
-			choice.DefaultCase.Field = newField
-		}
-
 	}
-	// resolve the templates for the types
-	for _, typeParam := range templChoice.TypeParameters {
-		if tt, ok := templateTypes[typeParam.Type.Name]; ok && typeParam.Type.Package == "" {
-			// the parameter is a template
-			choice.TypeParameters = append(choice.TypeParameters, &ast.Parameter{
-				Name: typeParam.Name,
-				Type: tt,
-			})
-		} else {
-			// not templated
-			choice.TypeParameters = append(choice.TypeParameters, typeParam)
-		}
+
+	// update the scope with the newly created scope, before the members are
+	// instantiated, as these can use the same instantiation
+	pkgScope.Choices[choice.Name] = choice
+	pkgScope.LocalSymbols.TypeScope[choice.Name] = choice
+	if err := m.instantiateMembers(pkgScope, choice.Name, choice.TypeParameters, fields, choice.Functions); err != nil {
+		return err
 	}
+	return choice.BuildScope(pkgScope)
+}
 
-	// resolve the template for the functions
-	for _, function := range templChoice.Functions {
-		if tt := templateTypes[function.ReturnType.Name]; tt != nil && function.ReturnType.Package == "" {
-			// the function return type is a template
-			choice.Functions = append(choice.Functions, &ast.Function{
-				Name:       function.Name,
-				Comment:    function.Comment,
-				Result:     function.Result,
-				ReturnType: tt,
-			})
-		} else {
-			// not templated
-			choice.Functions = append(choice.Functions, function)
-		}
+func (m *Model) instantiateUnion(
+	pkgScope *ast.Package,
+	templUnion *ast.Union,
+	arguments []*ast.TypeReference,
+	instantiatedName string,
+	templatePackage *ast.Package) error {
+	templateTypes, err := newTemplateArguments(templUnion.TemplateParameters, arguments)
+	if err != nil {
+		return err
+	}
+	union := &ast.Union{
+		Name:            instantiatedName,
+		Comment:         templUnion.Comment,
+		TypeParameters:  templateTypes.substituteParameters(templUnion.TypeParameters),
+		Functions:       templateTypes.substituteFunctions(templUnion.Functions),
+		TemplatePackage: templatePackage,
+	}
+	for _, field := range templUnion.Fields {
+		union.Fields = append(union.Fields, templateTypes.substituteField(field))
 	}
 
-	// update the scope with the newly created scope
-	pkgScope.Choices[newType.Name] = choice
-	pkgScope.LocalSymbols.TypeScope[newType.Name] = choice
-	choice.BuildScope(pkgScope)
-	return newType, nil
+	// update the scope with the newly created scope, before the members are
+	// instantiated, as these can use the same instantiation
+	pkgScope.Unions[union.Name] = union
+	pkgScope.LocalSymbols.TypeScope[union.Name] = union
+	if err := m.instantiateMembers(pkgScope, union.Name, union.TypeParameters, union.Fields, union.Functions); err != nil {
+		return err
+	}
+	return union.BuildScope(pkgScope)
 }
 
 func generateInstantiatedName(tr *ast.TypeReference, templateArguments []*ast.TypeReference) string {
@@ -542,40 +555,99 @@ func generateInstantiatedName(tr *ast.TypeReference, templateArguments []*ast.Ty
 	return strings.Join(name, "")
 }
 
+// isNameTaken returns if a package has a type, the name of which is the same in
+// the generated code.
+func isNameTaken(pkgScope *ast.Package, name string) bool {
+	for typeName := range pkgScope.LocalSymbols.TypeScope {
+		if strings.Title(typeName) == name {
+			return true
+		}
+	}
+	return false
+}
+
+// instantiationKey identifies the instantiation of a template in a package.
+func instantiationKey(pkgScope *ast.Package, tr *ast.TypeReference, templateArguments []*ast.TypeReference) string {
+	key := fmt.Sprintf("%s:%s.%s", pkgScope.Name, tr.Package, tr.Name)
+	for _, ta := range templateArguments {
+		key += fmt.Sprintf(",%s.%s:%d", ta.Package, ta.Name, ta.Bits)
+	}
+	return key
+}
+
 func (m *Model) instantiateType(pkgScope *ast.Package, tr *ast.TypeReference, templateArguments []*ast.TypeReference, instantiatedName string) (*ast.TypeReference, error) {
 	if len(templateArguments) == 0 {
 		return tr, nil
 	}
 
+	templatePackage, found := m.Packages[tr.Package]
+	if !found {
+		return nil, UnknownPackage{tr.Package}
+	}
+	templateSymbol, err := templatePackage.LocalSymbols.GetType(tr.Name)
+	if err != nil {
+		return nil, err
+	}
+
+	// the arguments can be instantiations of templates themselves
+	arguments := make([]*ast.TypeReference, 0, len(templateArguments))
+	for _, ta := range templateArguments {
+		argument, err := m.instantiateType(pkgScope, ta, ta.TemplateArguments, "")
+		if err != nil {
+			return nil, err
+		}
+		arguments = append(arguments, argument)
+	}
+
+	// The type arguments of the template type apply to the instantiation.
+	instantiatedType := &ast.TypeReference{
+		IsBuiltin:     false,
+		Package:       pkgScope.Name,
+		Name:          instantiatedName,
+		TypeArguments: tr.TypeArguments,
+	}
+
 	if instantiatedName == "" {
+		// check if the template was already instantiated
+		key := instantiationKey(pkgScope, tr, arguments)
+		if instantiatedType.Name, found = m.instantiatedNames[key]; found {
+			return instantiatedType, nil
+		}
+
 		// No explicit name  for the new instantiated object was given.
 		// We need to create an instance of tr, using the arguments from
 		// templateArguments. First we build up the name of the instantiated template
-		// by appending all the argument type names.
-		instantiatedName = generateInstantiatedName(tr, templateArguments)
+		// by appending all the argument type names. Other instantiations or types
+		// can have the same name already.
+		baseName := generateInstantiatedName(tr, templateArguments)
+		instantiatedType.Name = baseName
+		for index := 1; isNameTaken(pkgScope, instantiatedType.Name); index++ {
+			instantiatedType.Name = fmt.Sprintf("%s%d", baseName, index)
+		}
+		if m.instantiatedNames == nil {
+			m.instantiatedNames = map[string]string{}
+		}
+		m.instantiatedNames[key] = instantiatedType.Name
 	}
 
-	templateSymbol, err := pkgScope.GetSymbol(tr.Name)
-	if err != nil {
-		return nil, err
+	// expressions of the template are evaluated in the package that defines it
+	if templatePackage == pkgScope {
+		templatePackage = nil
 	}
-	var instantiatedType *ast.TypeReference
 
 	switch n := templateSymbol.Symbol.(type) {
 	case *ast.Struct:
-		instantiatedType, err = m.instantiateStruct(pkgScope, n, templateArguments, instantiatedName)
+		err = m.instantiateStruct(pkgScope, n, arguments, instantiatedType.Name, templatePackage)
 	case *ast.Choice:
-		instantiatedType, err = m.instantiateChoice(pkgScope, n, templateArguments, instantiatedName)
+		err = m.instantiateChoice(pkgScope, n, arguments, instantiatedType.Name, templatePackage)
+	case *ast.Union:
+		err = m.instantiateUnion(pkgScope, n, arguments, instantiatedType.Name, templatePackage)
 	default:
-		return nil, errors.New("template instantiation not supported for this type")
+		err = errors.New("template instantiation not supported for this type")
 	}
-
 	if err != nil {
 		return nil, err
 	}
-
-	// Link the argument expressions from the template type to the instantiation
-	instantiatedType.TypeArguments = tr.TypeArguments
 	return instantiatedType, nil
 }
 
-- 
2.43.0


From e1928b01fe46cd3438e9d1878faeea97f06d3499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:28 +0000
Subject: [PATCH 31/47] fix: generate packages and types in a fixed order

The names of files that collide were given out in the order of a map, and
types whose file names are the same could swap them.
---
 internal/generator/gen.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index b1167b3..f9c8b13 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -90,8 +90,10 @@ func Generate(m *model.Model, rootPath, rootPackage, outputPackage string, flags
 
 	// every run names its files afresh
 	uniquePaths = nil
-	for _, pkg := range m.Packages {
-		if err := generatePackage(rootPath, pkg, opts); err != nil {
+	names := maps.Keys(m.Packages)
+	sort.Strings(names)
+	for _, name := range names {
+		if err := generatePackage(rootPath, m.Packages[name], opts); err != nil {
 			return err
 		}
 	}
@@ -232,6 +234,7 @@ func writeGoSource(w io.Writer, code []byte, doNotFormatCode bool) error {
 // output allows us easier passing of arguments to write packages.
 type output struct {
 	name         string // the name of the data structure that is output
+	typeName     string // the name as it is in the schema
 	template     string // template file name
 	data         data
 	withPreamble bool
@@ -279,7 +282,9 @@ func newTypeOutput(astType any, d data, withPreamble bool, opts *options) output
 		templateData[k] = v
 	}
 	templateData[typeName] = astType
-	return newOutput(strcase.ToSnake(name), typeName+".go.tmpl", templateData, withPreamble, opts)
+	out := newOutput(strcase.ToSnake(name), typeName+".go.tmpl", templateData, withPreamble, opts)
+	out.typeName = name
+	return out
 }
 
 func (o *output) executeTemplate(w io.Writer) error {
@@ -334,6 +339,9 @@ func newOutputs(pkg *ast.Package, rootPackage string, opts *options) []output {
 
 	sort.Slice(outs, func(i, j int) bool {
 		if outs[i].template == outs[j].template {
+			if outs[i].name == outs[j].name {
+				return outs[i].typeName > outs[j].typeName
+			}
 			return outs[i].name > outs[j].name
 		}
 
-- 
2.43.0


From 95aa58e52de2d47a5031e2101e2a83dfa7eced96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:30 +0000
Subject: [PATCH 32/47] fix: report schemas that do not parse

Syntax errors were printed, and code generated for what was left. Errors of
the visitor were lost or panicked, and the second of two definitions, or
packages, of a name replaced the first one.
---
 internal/model/model.go     |  3 ++
 internal/model/package.go   | 23 ++++++++++++--
 internal/visitor/visitor.go | 62 +++++++++++++++++++++++++------------
 3 files changed, 67 insertions(+), 21 deletions(-)

diff --git a/internal/model/model.go b/internal/model/model.go
index 387cca1..200f603 100644
--- a/internal/model/model.go
+++ b/internal/model/model.go
@@ -98,6 +98,9 @@ func (m *Model) parseFile(path string) error {
 		return err
 	}
 
+	if _, exists := m.Packages[pkg.Name]; exists {
+		return fmt.Errorf("%s: package %s is already defined in another file", path, pkg.Name)
+	}
 	m.Packages[pkg.Name] = pkg
 	return nil
 }
diff --git a/internal/model/package.go b/internal/model/package.go
index 39b7b7a..dd0561f 100644
--- a/internal/model/package.go
+++ b/internal/model/package.go
@@ -1,28 +1,47 @@
 package model
 
 import (
+	"errors"
+	"fmt"
+
 	"github.com/antlr/antlr4/runtime/Go/antlr/v4"
 	"github.com/woven-planet/go-zserio/internal/ast"
 	"github.com/woven-planet/go-zserio/internal/parser"
 	"github.com/woven-planet/go-zserio/internal/visitor"
 )
 
+// syntaxErrorListener collects the errors that the lexer and the parser find.
+type syntaxErrorListener struct {
+	*antlr.DefaultErrorListener
+	path   string
+	errors []error
+}
+
+func (l *syntaxErrorListener) SyntaxError(_ antlr.Recognizer, _ any, line, column int, msg string, _ antlr.RecognitionException) {
+	l.errors = append(l.errors, fmt.Errorf("%s:%d:%d: %s", l.path, line, column, msg))
+}
+
 func PackageFromFile(path string) (*ast.Package, error) {
 	input, err := antlr.NewFileStream(path)
 	if err != nil {
 		return nil, err
 	}
 
+	syntaxErrors := &syntaxErrorListener{path: path}
 	lexer := parser.NewZserioLexer(input)
+	lexer.AddErrorListener(syntaxErrors)
 	stream := antlr.NewCommonTokenStream(lexer, 0)
 	p := parser.NewZserioParser(stream)
-	p.AddErrorListener(antlr.NewDiagnosticErrorListener(true))
+	p.AddErrorListener(syntaxErrors)
 	tree := p.PackageDeclaration()
+	if len(syntaxErrors.errors) > 0 {
+		return nil, errors.Join(syntaxErrors.errors...)
+	}
 	visitor := &visitor.Visitor{}
 
 	switch v := visitor.Visit(tree).(type) {
 	case error:
-		return nil, err
+		return nil, fmt.Errorf("%s: %w", path, v)
 	case *ast.Package:
 		return v, nil
 	}
diff --git a/internal/visitor/visitor.go b/internal/visitor/visitor.go
index cbb7a1f..734e7b1 100644
--- a/internal/visitor/visitor.go
+++ b/internal/visitor/visitor.go
@@ -4,7 +4,6 @@ import (
 	"errors"
 	"fmt"
 	"log"
-	"math"
 	"strconv"
 	"strings"
 
@@ -15,6 +14,14 @@ import (
 
 var ErrImplicitLengthArraysNotSupported = errors.New("implicit length arrays are obsolete, and not supported")
 var ErrAlignmentMustBeInteger = errors.New("alignment expression must be an integer")
+var ErrDuplicateDefinition = errors.New("defined more than once")
+var ErrMissingPackageName = errors.New("the package name is missing")
+
+// schemaError is what a visitor method panics with, if it cannot build a node
+// from a schema. It is recovered where the package is built.
+type schemaError struct {
+	error
+}
 
 type Visitor struct {
 	parser.BaseZserioParserVisitor
@@ -44,7 +51,20 @@ func (v *Visitor) VisitChildren(node antlr.RuleNode) any {
 	return children
 }
 
-func (v *Visitor) VisitPackageDeclaration(ctx *parser.PackageDeclarationContext) any {
+func (v *Visitor) VisitPackageDeclaration(ctx *parser.PackageDeclarationContext) (result any) {
+	defer func() {
+		if r := recover(); r != nil {
+			err, ok := r.(schemaError)
+			if !ok {
+				panic(r)
+			}
+			result = err.error
+		}
+	}()
+
+	if ctx.PackageNameDefinition() == nil {
+		return ErrMissingPackageName
+	}
 	pkg := ast.NewPackage(v.Visit(ctx.PackageNameDefinition().(antlr.ParseTree)).(string))
 	pkg.Comment = getComment(ctx.GetParser(), ctx.GetStart())
 
@@ -55,24 +75,39 @@ func (v *Visitor) VisitPackageDeclaration(ctx *parser.PackageDeclarationContext)
 		}
 	}
 
+	defined := map[string]bool{}
+	define := func(name string) {
+		if defined[name] {
+			panic(schemaError{fmt.Errorf("%w: %s", ErrDuplicateDefinition, name)})
+		}
+		defined[name] = true
+	}
 	for _, dir := range ctx.AllLanguageDirective() {
 		dirNode := v.Visit(dir.(antlr.ParseTree))
 		switch n := dirNode.(type) {
 		case *ast.Const:
+			define(n.Name)
 			pkg.Consts[n.Name] = n
 		case *ast.Subtype:
+			define(n.Name)
 			pkg.Subtypes[n.Name] = n
 		case *ast.InstantiateType:
+			define(n.Name)
 			pkg.InstantiatedTypes[n.Name] = n
 		case *ast.Struct:
+			define(n.Name)
 			pkg.Structs[n.Name] = n
 		case *ast.Enum:
+			define(n.Name)
 			pkg.Enums[n.Name] = n
 		case *ast.Union:
+			define(n.Name)
 			pkg.Unions[n.Name] = n
 		case *ast.BitmaskType:
+			define(n.Name)
 			pkg.Bitmasks[n.Name] = n
 		case *ast.Choice:
+			define(n.Name)
 			pkg.Choices[n.Name] = n
 		}
 	}
@@ -184,11 +219,7 @@ func (v *Visitor) VisitStructureFieldDefinition(ctx *parser.StructureFieldDefini
 	field.Comment = getComment(ctx.GetParser(), ctx.GetStart())
 	field.IsOptional = ctx.OPTIONAL() != nil
 	if a := ctx.FieldAlignment(); a != nil {
-		a, ok := v.Visit(a.(antlr.ParseTree)).(uint8)
-		if !ok {
-			return ErrAlignmentMustBeInteger
-		}
-		field.Alignment = a
+		field.Alignment = v.Visit(a.(antlr.ParseTree)).(uint8)
 	}
 
 	if ctx.FieldInitializer() != nil {
@@ -205,20 +236,13 @@ func (v *Visitor) VisitStructureFieldDefinition(ctx *parser.StructureFieldDefini
 }
 
 func (v *Visitor) VisitFieldAlignment(ctx *parser.FieldAlignmentContext) any {
-	r := v.Visit(ctx.Expression().(antlr.ParseTree))
-	expr, ok := r.(*ast.Expression)
-	if !ok {
-		return r
-	}
+	expr := v.Visit(ctx.Expression().(antlr.ParseTree)).(*ast.Expression)
 	if expr.Type != parser.ZserioParserDECIMAL_LITERAL {
-		return ErrAlignmentMustBeInteger
+		panic(schemaError{ErrAlignmentMustBeInteger})
 	}
 	value, err := strconv.ParseUint(expr.Text, 10, 8)
-	if err != nil {
-		return ErrAlignmentMustBeInteger
-	}
-	if value > math.MaxUint8 {
-		return ErrAlignmentMustBeInteger
+	if err != nil || value == 0 {
+		panic(schemaError{ErrAlignmentMustBeInteger})
 	}
 	return uint8(value)
 }
@@ -627,7 +651,7 @@ func (v *Visitor) VisitFieldTypeId(ctx *parser.FieldTypeIdContext) any {
 		}
 		if ctx.IMPLICIT() != nil {
 			// http://zserio.org/doc/ZserioLanguageOverview.html#implicit-length-arrays
-			return ErrImplicitLengthArraysNotSupported
+			panic(schemaError{ErrImplicitLengthArraysNotSupported})
 		}
 		if ctx.PACKED() != nil {
 			field.Array.IsPacked = true
-- 
2.43.0


From 80b7ed7635a8692cb01dedf3c9310c04c42d0819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:38 +0000
Subject: [PATCH 33/47] fix: generate code for types with a lower-case name

References were capitalized, but the symbols are found by the name that the
schema has.
---
 internal/model/transform.go | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/internal/model/transform.go b/internal/model/transform.go
index 67fa3df..820fa69 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -38,20 +38,21 @@ func (e UnknownType) Error() string {
 
 var ErrIncorrectNumberOfTemplateParameters = errors.New("incorrect number of template parameters")
 
+// CapitalizeNames changes the names of all definitions to exported Go names.
+// References to types keep the name of the schema, as that is what the symbols
+// of the packages are found by.
 func (m *Model) CapitalizeNames() {
 	for _, pkg := range m.Packages {
 		for _, c := range pkg.Consts {
 			c.Name = strings.Title(c.Name)
-			if !c.Type.IsBuiltin {
-				c.Type.Name = strings.Title(c.Type.Name)
-			}
+		}
+
+		for _, s := range pkg.Subtypes {
+			s.Name = strings.Title(s.Name)
 		}
 
 		for _, e := range pkg.Enums {
 			e.Name = strings.Title(e.Name)
-			if !e.Type.IsBuiltin {
-				e.Type.Name = strings.Title(e.Type.Name)
-			}
 		}
 
 		for _, u := range pkg.Unions {
@@ -62,9 +63,6 @@ func (m *Model) CapitalizeNames() {
 			for _, field := range u.Fields {
 				field.ZserioName = field.Name
 				field.Name = strings.Title(field.Name)
-				if !field.Type.IsBuiltin {
-					field.Type.Name = strings.Title(field.Type.Name)
-				}
 			}
 			for _, function := range u.Functions {
 				function.Name = strings.Title(function.Name)
@@ -79,15 +77,13 @@ func (m *Model) CapitalizeNames() {
 		}
 
 		for _, structure := range pkg.Structs {
+			structure.Name = strings.Title(structure.Name)
 			for _, typeParameter := range structure.TypeParameters {
 				typeParameter.Name = strings.Title(typeParameter.Name)
 			}
 			for _, field := range structure.Fields {
 				field.ZserioName = field.Name
 				field.Name = strings.Title(field.Name)
-				if !field.Type.IsBuiltin {
-					field.Type.Name = strings.Title(field.Type.Name)
-				}
 			}
 			for _, function := range structure.Functions {
 				function.Name = strings.Title(function.Name)
@@ -96,6 +92,7 @@ func (m *Model) CapitalizeNames() {
 		}
 
 		for _, choice := range pkg.Choices {
+			choice.Name = strings.Title(choice.Name)
 			for _, typeParameter := range choice.TypeParameters {
 				typeParameter.Name = strings.Title(typeParameter.Name)
 			}
@@ -103,17 +100,11 @@ func (m *Model) CapitalizeNames() {
 				if choiceCase.Field != nil {
 					choiceCase.Field.ZserioName = choiceCase.Field.Name
 					choiceCase.Field.Name = strings.Title(choiceCase.Field.Name)
-					if !choiceCase.Field.Type.IsBuiltin {
-						choiceCase.Field.Type.Name = strings.Title(choiceCase.Field.Type.Name)
-					}
 				}
 			}
 			if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
 				choice.DefaultCase.Field.ZserioName = choice.DefaultCase.Field.Name
 				choice.DefaultCase.Field.Name = strings.Title(choice.DefaultCase.Field.Name)
-				if !choice.DefaultCase.Field.Type.IsBuiltin {
-					choice.DefaultCase.Field.Type.Name = strings.Title(choice.DefaultCase.Field.Type.Name)
-				}
 			}
 			for _, function := range choice.Functions {
 				function.Name = strings.Title(function.Name)
-- 
2.43.0


From c7965c9691e30a43385d32bef0130e5a161d08df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 34/47] fix: parenthesize the types that values are converted
 to

[]byte(x) is fine, *T(x) is not the conversion to a pointer.
---
 internal/generator/expression.go                            | 6 ++++--
 .../generator/templates/decode_compound_parameters.go.tmpl  | 4 ++--
 .../generator/templates/encode_compound_parameters.go.tmpl  | 2 +-
 internal/generator/templates/functions.go.tmpl              | 2 +-
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 60cbfbd..bd82059 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -240,7 +240,9 @@ func operandsToGoString(scope ast.Scope, operands ...*ast.Expression) (string, [
 		goType = "string"
 	}
 	for _, operand := range operands {
-		if operand.ResultType != ast.ExpressionTypeEnum && operand.ResultType != ast.ExpressionTypeBitmask {
+		switch operand.ResultType {
+		case ast.ExpressionTypeEnum, ast.ExpressionTypeBitmask, ast.ExpressionTypeCompound:
+		default:
 			continue
 		}
 		goType = ""
@@ -261,7 +263,7 @@ func operandsToGoString(scope ast.Scope, operands ...*ast.Expression) (string, [
 		case operand.FullyResolved || goType == "" || goType == "bool" || goType == "string":
 			texts = append(texts, ExpressionToGoString(scope, operand))
 		default:
-			texts = append(texts, fmt.Sprintf("%s(%s)", goType, ExpressionToGoString(scope, operand)))
+			texts = append(texts, fmt.Sprintf("(%s)(%s)", goType, ExpressionToGoString(scope, operand)))
 		}
 	}
 	return goType, texts
diff --git a/internal/generator/templates/decode_compound_parameters.go.tmpl b/internal/generator/templates/decode_compound_parameters.go.tmpl
index 8c93a6b..1da3c99 100644
--- a/internal/generator/templates/decode_compound_parameters.go.tmpl
+++ b/internal/generator/templates/decode_compound_parameters.go.tmpl
@@ -17,9 +17,9 @@
     {{- range $i, $argument := $field.Type.TypeArguments }}
         {{- $current_type_parameter := index $type_parameter $i }}
         {{- if $field.Array }}
-            elem.{{ $current_type_parameter.Name}} = {{ goType $scope $current_type_parameter.Type }}({{ goExpression $scope $argument }})
+            elem.{{ $current_type_parameter.Name}} = ({{ goType $scope $current_type_parameter.Type }})({{ goExpression $scope $argument }})
         {{- else }}
-            {{ $field_name }}.{{ $current_type_parameter.Name}} = {{ goType $scope $current_type_parameter.Type }}({{ goExpression $scope $argument }})
+            {{ $field_name }}.{{ $current_type_parameter.Name}} = ({{ goType $scope $current_type_parameter.Type }})({{ goExpression $scope $argument }})
         {{- end }}
     {{- end}}
     
diff --git a/internal/generator/templates/encode_compound_parameters.go.tmpl b/internal/generator/templates/encode_compound_parameters.go.tmpl
index d30717a..85ce2fe 100644
--- a/internal/generator/templates/encode_compound_parameters.go.tmpl
+++ b/internal/generator/templates/encode_compound_parameters.go.tmpl
@@ -11,7 +11,7 @@
     {{- $type_parameter := getTypeParameter $scope $field.Type }}
     {{- range $i, $argument := $field.Type.TypeArguments }}
         {{- $current_type_parameter := index $type_parameter $i }}
-        {{ $field_name }}.{{ $current_type_parameter.Name}} = {{ goType $scope $current_type_parameter.Type }}({{ goExpression $scope $argument }})
+        {{ $field_name }}.{{ $current_type_parameter.Name}} = ({{ goType $scope $current_type_parameter.Type }})({{ goExpression $scope $argument }})
     {{- end}}
     {{- if $field.Array }}
     }
diff --git a/internal/generator/templates/functions.go.tmpl b/internal/generator/templates/functions.go.tmpl
index 821e96e..1bf1ab3 100644
--- a/internal/generator/templates/functions.go.tmpl
+++ b/internal/generator/templates/functions.go.tmpl
@@ -4,6 +4,6 @@
 {{- range $function := $functions }}
 func (v *{{ $name }}) {{ .Name }}() {{ goType $scope .ReturnType }} {
    retVal := {{ goExpression $scope .Result }}
-   return {{ goType $scope .ReturnType }}(retVal)
+   return ({{ goType $scope .ReturnType }})(retVal)
 }
 {{- end}}
-- 
2.43.0


From 087986c070fcb70d746274c270db4b88771487de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 35/47] fix: keep comments of a schema from becoming Go
 directives

---
 internal/visitor/visitor.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/visitor/visitor.go b/internal/visitor/visitor.go
index 734e7b1..6460f97 100644
--- a/internal/visitor/visitor.go
+++ b/internal/visitor/visitor.go
@@ -134,7 +134,7 @@ out:
 	for _, hiddenToken := range hidden {
 		switch hiddenToken.GetTokenType() {
 		case parser.ZserioParserDOC_COMMENT, parser.ZserioParserMARKDOWN_COMMENT, parser.ZserioParserBLOCK_COMMENT, parser.ZserioParserLINE_COMMENT:
-			comments = append(comments, hiddenToken.GetText())
+			comments = append(comments, plainComment(hiddenToken.GetText()))
 		default:
 			break out
 		}
@@ -142,6 +142,16 @@ out:
 	return strings.Join(comments, "\n")
 }
 
+// plainComment returns a comment such that it is not a directive to the Go
+// compiler.
+func plainComment(comment string) string {
+	text, isLine := strings.CutPrefix(comment, "//")
+	if isLine && (strings.HasPrefix(text, "go:") || strings.HasPrefix(strings.TrimSpace(text), "+build")) {
+		return "/*" + strings.ReplaceAll(text, "*/", "* /") + "*/"
+	}
+	return comment
+}
+
 func (v *Visitor) VisitImportDeclaration(ctx *parser.ImportDeclarationContext) any {
 	children := ctx.GetChildren()
 	parts := []string{}
-- 
2.43.0


From 18a41cf4277765f698c8c220f0261d1695f181d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 36/47] fix: check the generated code before any file is
 written

Names that Go cannot express (methods that fields shadow, packages that are
keywords, fields that only differ in case) produced files that do not compile.
Imports were dropped, or kept, by what the text of the code looked like, and
packages whose aliases were the same clashed.
---
 internal/ast/package.go                       |   8 +-
 internal/generator/BUILD.bazel                |   1 +
 internal/generator/check.go                   | 199 ++++++++++++++++++
 internal/generator/gen.go                     |  98 ++++++---
 internal/generator/strip_imports.go           |  88 ++++----
 internal/generator/templates.go               |   1 +
 internal/generator/templates/preamble.go.tmpl |   2 +-
 7 files changed, 319 insertions(+), 78 deletions(-)
 create mode 100644 internal/generator/check.go

diff --git a/internal/ast/package.go b/internal/ast/package.go
index 38f261a..6c98d05 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -479,8 +479,14 @@ func (p *Package) GetOriginalType(typeRef *TypeReference) (*OriginalTypeReferenc
 	}
 }
 
+// GoPackageAlias returns the name that a package is imported as. It is different
+// for each package, and from the names that the generated code uses otherwise.
 func GoPackageAlias(packageName string) string {
-	return strings.Replace(packageName, ".", "_", -1)
+	alias := strings.NewReplacer("_", "_0", ".", "_").Replace(strings.ToLower(packageName))
+	if !strings.Contains(alias, "_") {
+		return alias + "_"
+	}
+	return alias
 }
 
 // GetTypeParameter returns the parameters of a referenced type
diff --git a/internal/generator/BUILD.bazel b/internal/generator/BUILD.bazel
index f7475cc..159c93f 100644
--- a/internal/generator/BUILD.bazel
+++ b/internal/generator/BUILD.bazel
@@ -3,6 +3,7 @@ load("@rules_go//go:def.bzl", "go_library", "go_test")
 go_library(
     name = "generator",
     srcs = [
+        "check.go",
         "expression.go",
         "funcs.go",
         "gen.go",
diff --git a/internal/generator/check.go b/internal/generator/check.go
new file mode 100644
index 0000000..330a7fb
--- /dev/null
+++ b/internal/generator/check.go
@@ -0,0 +1,199 @@
+package generator
+
+import (
+	"errors"
+	"fmt"
+	"go/ast"
+	"go/parser"
+	"go/token"
+	"path"
+	"sort"
+	"strconv"
+	"strings"
+
+	"golang.org/x/exp/maps"
+)
+
+// This file contains checks for schemas that cannot be expressed in Go.
+
+var (
+	ErrDuplicateDeclaration = errors.New("declared more than once in the Go code")
+	ErrInvalidGoName        = errors.New("not a valid Go name here")
+	ErrImportCycle          = errors.New("packages use each other, which Go does not support")
+	ErrRecursiveType        = errors.New("type contains itself, and not as an optional field or array")
+)
+
+// checkSources returns an error if the generated files cannot be compiled,
+// because different names of the schemas are the same in Go, because packages
+// use each other, or because a type contains itself.
+func checkSources(files []sourceFile, rootPackage string) error {
+	packages := map[string][]*ast.File{}
+	schemas := map[string]string{}
+	for _, file := range files {
+		parsed, err := parser.ParseFile(token.NewFileSet(), file.name, file.code, 0)
+		if err != nil {
+			return err
+		}
+		importPath := goImportPath(rootPackage, file.zserioPkg)
+		if name, exists := schemas[importPath]; exists && name != file.zserioPkg {
+			return fmt.Errorf("packages %s and %s: %w", name, file.zserioPkg, ErrDuplicateDeclaration)
+		}
+		schemas[importPath] = file.zserioPkg
+		if parsed.Name.Name == "main" {
+			return fmt.Errorf("package %s: main: %w", file.zserioPkg, ErrInvalidGoName)
+		}
+		packages[importPath] = append(packages[importPath], parsed)
+	}
+
+	dependencies := map[string][]string{}
+	names := maps.Keys(packages)
+	sort.Strings(names)
+	for _, name := range names {
+		if err := checkDeclarations(packages[name]); err != nil {
+			return fmt.Errorf("package %s: %w", schemas[name], err)
+		}
+		for _, file := range packages[name] {
+			used := usedPackages(file)
+			for _, spec := range file.Imports {
+				if importPath, err := strconv.Unquote(spec.Path.Value); err == nil && used[importName(spec)] {
+					dependencies[name] = append(dependencies[name], importPath)
+				}
+			}
+		}
+	}
+	if name := findCycle(dependencies); name != "" {
+		return fmt.Errorf("package %s: %w", schemas[name], ErrImportCycle)
+	}
+	return nil
+}
+
+// checkDeclarations checks the files of one package.
+func checkDeclarations(files []*ast.File) error {
+	declared := map[string]bool{}
+	declare := func(prefix string, names ...*ast.Ident) error {
+		for _, name := range names {
+			if name.Name == "_" {
+				return fmt.Errorf("%s_: %w", prefix, ErrInvalidGoName)
+			}
+			if declared[prefix+name.Name] {
+				return fmt.Errorf("%s%s: %w", prefix, name.Name, ErrDuplicateDeclaration)
+			}
+			declared[prefix+name.Name] = true
+		}
+		return nil
+	}
+
+	contained := map[string][]string{}
+	for _, file := range files {
+		for _, decl := range file.Decls {
+			switch d := decl.(type) {
+			case *ast.FuncDecl:
+				prefix := ""
+				if d.Recv != nil {
+					prefix = strings.TrimPrefix(typeName(d.Recv.List[0].Type), "*") + "."
+				}
+				if err := declare(prefix, d.Name); err != nil {
+					return err
+				}
+			case *ast.GenDecl:
+				for _, spec := range d.Specs {
+					switch s := spec.(type) {
+					case *ast.ValueSpec:
+						if err := declare("", s.Names...); err != nil {
+							return err
+						}
+					case *ast.TypeSpec:
+						if err := declare("", s.Name); err != nil {
+							return err
+						}
+						contained[s.Name.Name] = append(contained[s.Name.Name], typeName(s.Type))
+						structType, ok := s.Type.(*ast.StructType)
+						if !ok {
+							continue
+						}
+						for _, field := range structType.Fields.List {
+							if err := declare(s.Name.Name+".", field.Names...); err != nil {
+								return err
+							}
+							contained[s.Name.Name] = append(contained[s.Name.Name], typeName(field.Type))
+						}
+					}
+				}
+			}
+		}
+		if err := checkExported(file); err != nil {
+			return err
+		}
+	}
+	if name := findCycle(contained); name != "" {
+		return fmt.Errorf("%s: %w", name, ErrRecursiveType)
+	}
+	return nil
+}
+
+// checkExported returns an error if a file uses a name of another package that
+// is not exported from it.
+func checkExported(file *ast.File) (err error) {
+	used := usedPackages(file)
+	ast.Inspect(file, func(node ast.Node) bool {
+		if selector, ok := node.(*ast.SelectorExpr); ok && !selector.Sel.IsExported() {
+			if name := typeName(selector.X); used[name] || selector.Sel.Name == "_" {
+				err = fmt.Errorf("%s.%s: %w", name, selector.Sel.Name, ErrInvalidGoName)
+			}
+		}
+		return err == nil
+	})
+	return err
+}
+
+// typeName returns the name of a type that is declared in the same package.
+func typeName(expression ast.Expr) string {
+	switch e := expression.(type) {
+	case *ast.Ident:
+		return e.Name
+	case *ast.StarExpr:
+		return "*" + typeName(e.X)
+	}
+	return ""
+}
+
+// findCycle returns a node of a graph that is on a cycle, or the empty string
+// if there is none.
+func findCycle(edges map[string][]string) string {
+	const visiting, done = 1, 2
+	state := map[string]int{}
+	var visit func(node string) string
+	visit = func(node string) string {
+		state[node] = visiting
+		for _, next := range edges[node] {
+			if state[next] == visiting {
+				return next
+			}
+			if state[next] == done {
+				continue
+			}
+			if found := visit(next); found != "" {
+				return found
+			}
+		}
+		state[node] = done
+		return ""
+	}
+
+	nodes := maps.Keys(edges)
+	sort.Strings(nodes)
+	for _, node := range nodes {
+		if state[node] == done {
+			continue
+		}
+		if found := visit(node); found != "" {
+			return found
+		}
+	}
+	return ""
+}
+
+// goImportPath returns the import path of the Go package of a zserio package.
+func goImportPath(rootPackage, zserioPkg string) string {
+	return path.Join(rootPackage, strings.ReplaceAll(strings.ToLower(zserioPkg), ".", "/"))
+}
diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index f9c8b13..455d5c2 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -85,21 +85,48 @@ func Generate(m *model.Model, rootPath, rootPackage, outputPackage string, flags
 			return fmt.Errorf("%q not found, only know about %q", outputPackage, known)
 		}
 
-		return generatePackage(rootPath, pkg, opts)
+		files, err := generatePackage(pkg, opts)
+		if err != nil {
+			return err
+		}
+		if err := checkSources(files, opts.rootPackage); err != nil {
+			return err
+		}
+		return writeGoSource(os.Stdout, files[0].code)
 	}
 
 	// every run names its files afresh
 	uniquePaths = nil
 	names := maps.Keys(m.Packages)
 	sort.Strings(names)
+
+	var files []sourceFile
 	for _, name := range names {
-		if err := generatePackage(rootPath, m.Packages[name], opts); err != nil {
+		pkgFiles, err := generatePackage(m.Packages[name], opts)
+		if err != nil {
 			return err
 		}
+		files = append(files, pkgFiles...)
+	}
+	if err := checkSources(files, opts.rootPackage); err != nil {
+		return err
+	}
+
+	for _, file := range files {
+		if err := writeToFile(file.code, rootPath, file.zserioPkg, file.name, opts); err != nil {
+			return fmt.Errorf("write %s: %w", file.name, err)
+		}
 	}
 	return nil
 }
 
+// sourceFile is the code of a generated file.
+type sourceFile struct {
+	zserioPkg string
+	name      string
+	code      []byte
+}
+
 func executeTemplate(out io.Writer, tmpl string, data data) error {
 	templ := templates.Lookup(tmpl)
 	if templ == nil {
@@ -135,7 +162,7 @@ func writeToFile(code []byte, rootPath, zserioPkg, fn string, opts *options) (re
 	}()
 	defer f.Close()
 
-	return writeGoSource(f, code, opts.doNotFormatSource)
+	return writeGoSource(f, code)
 }
 
 // reservedFileNameSuffixes are the endings of file names that the Go tools do
@@ -172,6 +199,10 @@ func assembleUniqueFilePath(outputDir string, fn string, maxPathLength int) (str
 		return "", fmt.Errorf("maximum path length %d is too short, at least %d required to fit output directory", maxPathLength, minLength)
 	}
 
+	// The Go tools would ignore a name that starts with a separator
+	if strings.TrimLeft(fn, "_") != fn || fn == "" {
+		fn = "x" + fn
+	}
 	outputFile := path.Join(outputDir, fn)
 
 	if maxPathLength > 0 {
@@ -206,26 +237,27 @@ func assembleUniqueFilePath(outputDir string, fn string, maxPathLength int) (str
 	}
 }
 
-func writeGoSource(w io.Writer, code []byte, doNotFormatCode bool) error {
+func formatGoSource(code []byte, doNotFormatCode bool) ([]byte, error) {
 	if doNotFormatCode {
-		if _, err := w.Write(code); err != nil {
-			return fmt.Errorf("write: %w", err)
-		}
-		return nil
+		return code, nil
 	}
 
-	code, err := StripImports(code)
+	stripped, err := StripImports(code)
 	if err != nil {
-		return fmt.Errorf("strip imports: %w", err)
+		log.Println(string(code))
+		return nil, fmt.Errorf("strip imports: %w", err)
 	}
 
-	formatted, err := format.Source(code)
+	formatted, err := format.Source(stripped)
 	if err != nil {
-		log.Println(string(code))
-		return fmt.Errorf("format: %w", err)
+		log.Println(string(stripped))
+		return nil, fmt.Errorf("format: %w", err)
 	}
+	return formatted, nil
+}
 
-	if _, err := w.Write(formatted); err != nil {
+func writeGoSource(w io.Writer, code []byte) error {
+	if _, err := w.Write(code); err != nil {
 		return fmt.Errorf("write: %w", err)
 	}
 	return nil
@@ -351,34 +383,30 @@ func newOutputs(pkg *ast.Package, rootPackage string, opts *options) []output {
 	return append([]output{newOutput("pkg", "package.go.tmpl", data, true, opts)}, outs...)
 }
 
-func generatePackage(rootPath string, pkg *ast.Package, opts *options) error {
+// generatePackage generates the code of the files of a package. If the output
+// is printed, the whole package is one file.
+func generatePackage(pkg *ast.Package, opts *options) ([]sourceFile, error) {
 	if opts.rootPackage == "" {
-		return errors.New("BUG: root package needs to be specified")
+		return nil, errors.New("BUG: root package needs to be specified")
 	}
 
+	var files []sourceFile
+	var out bytes.Buffer
 	outs := newOutputs(pkg, opts.rootPackage, opts)
-
-	if opts.outputToStdout {
-		var out bytes.Buffer
-		for _, o := range outs {
-			if err := o.executeTemplate(&out); err != nil {
-				return fmt.Errorf("generate %s: %w", o.name, err)
-			}
-		}
-
-		return writeGoSource(os.Stdout, out.Bytes(), opts.doNotFormatSource)
-	}
-
-	for _, o := range outs {
-		var out bytes.Buffer
+	for i, o := range outs {
 		if err := o.executeTemplate(&out); err != nil {
-			return fmt.Errorf("generate %s: %w", o.name, err)
+			return nil, fmt.Errorf("generate %s: %w", o.name, err)
+		}
+		if opts.outputToStdout && i+1 < len(outs) {
+			continue
 		}
 
-		if err := writeToFile(out.Bytes(), rootPath, pkg.Name, o.name, opts); err != nil {
-			return fmt.Errorf("write %s: %w", o.name, err)
+		code, err := formatGoSource(bytes.Clone(out.Bytes()), opts.doNotFormatSource)
+		if err != nil {
+			return nil, fmt.Errorf("write %s: %w", o.name, err)
 		}
+		files = append(files, sourceFile{pkg.Name, o.name, code})
+		out.Reset()
 	}
-
-	return nil
+	return files, nil
 }
diff --git a/internal/generator/strip_imports.go b/internal/generator/strip_imports.go
index 0d0d31f..a81cd1f 100644
--- a/internal/generator/strip_imports.go
+++ b/internal/generator/strip_imports.go
@@ -1,58 +1,64 @@
 package generator
 
 import (
+	"go/ast"
+	"go/parser"
+	"go/token"
+	"path"
+	"strconv"
 	"strings"
 )
 
 // StripImports searches a *.go file for the import section, and checks if the
 // imports are used.
 func StripImports(code []byte) ([]byte, error) {
-	content := string(code)
-
-	// sarch the import section
-	importKey := "import ("
-	importIndex := strings.Index(content, importKey)
-	if importIndex < 0 {
-		// this file either has only one import, or no imports at all. The zserio
-		// code generator always generated a full import block, so this behavior
-		// can be accepted.
-		return code, nil
+	fset := token.NewFileSet()
+	file, err := parser.ParseFile(fset, "", code, 0)
+	if err != nil {
+		return nil, err
 	}
-	// extract the import section
-	prefix := content[0 : importIndex+len(importKey)]
-	content = content[importIndex+len(importKey):]
-	importEndIndex := strings.Index(content, ")")
-	importSection := content[0:importEndIndex]
-	content = content[importEndIndex:]
-	imports := strings.Split(importSection, "\n")
+	used := usedPackages(file)
 
-	// Extract the last name of the import line, search in the code if it is used,
-	// and delete the import if it cannot be found.
-	usedImports := []string{}
-	for _, currentImport := range imports {
-		line := strings.TrimSpace(currentImport)
-		if len(line) < 3 {
+	// blank the import lines that are not used.
+	content := string(code)
+	for i := len(file.Imports) - 1; i >= 0; i-- {
+		spec := file.Imports[i]
+		if used[importName(spec)] {
 			continue
 		}
-		importName := ""
-		if strings.Contains(line, " ") {
-			// this string uses an alias
-			importName = strings.Split(line, " ")[0]
-		} else {
-			lastSeparator := strings.LastIndex(line, "/")
-			if lastSeparator < 0 {
-				// The import name does not contain any slashes, it must be a
-				// internal module, such as "errors"
-				importName = line[1 : len(line)-1]
-			} else {
-				importName = line[lastSeparator+1 : len(line)-1]
-			}
-		}
-		if strings.Contains(content, importName+".") {
-			usedImports = append(usedImports, currentImport)
+		start, end := fset.Position(spec.Pos()).Offset, fset.Position(spec.End()).Offset
+		start = strings.LastIndex(content[:start], "\n") + 1
+		if newline := strings.Index(content[end:], "\n"); newline >= 0 {
+			end += newline + 1
 		}
+		content = content[:start] + content[end:]
+	}
+	return []byte(content), nil
+}
+
+// importName returns the name that a file uses for a package it imports.
+func importName(spec *ast.ImportSpec) string {
+	if spec.Name != nil {
+		return spec.Name.Name
 	}
-	importSection = strings.Join(usedImports, "\n")
-	return []byte(prefix + importSection + content), nil
+	importPath, _ := strconv.Unquote(spec.Path.Value)
+	return path.Base(importPath)
+}
 
+// usedPackages returns the names of packages that the code of a file uses.
+func usedPackages(file *ast.File) map[string]bool {
+	unresolved := map[*ast.Ident]bool{}
+	for _, ident := range file.Unresolved {
+		unresolved[ident] = true
+	}
+	used := map[string]bool{}
+	ast.Inspect(file, func(node ast.Node) bool {
+		if selector, ok := node.(*ast.SelectorExpr); ok {
+			if ident, ok := selector.X.(*ast.Ident); ok && unresolved[ident] {
+				used[ident.Name] = true
+			}
+		}
+		return true
+	})
+	return used
 }
diff --git a/internal/generator/templates.go b/internal/generator/templates.go
index b77ce4b..9d4dc85 100644
--- a/internal/generator/templates.go
+++ b/internal/generator/templates.go
@@ -21,6 +21,7 @@ func init() {
 		"goGetAllImports":   GoGetAllImports,
 		"getTypeParameter":  GetTypeParameter,
 		"goPackageAlias":    GoPackageAlias,
+		"goImportPath":      goImportPath,
 		"goChoiceLabels":    GoChoiceLabels,
 		"goExpression":      GoExpression,
 		"goArrayTraits":     GoArrayTraits,
diff --git a/internal/generator/templates/preamble.go.tmpl b/internal/generator/templates/preamble.go.tmpl
index 047f7bd..f8a4ef7 100644
--- a/internal/generator/templates/preamble.go.tmpl
+++ b/internal/generator/templates/preamble.go.tmpl
@@ -11,6 +11,6 @@ import (
     zserio "github.com/woven-planet/go-zserio"
     "github.com/woven-planet/go-zserio/ztype"
 {{- range $import := goGetAllImports .pkg }}
-    {{ goPackageAlias $import }} "{{ $root }}/{{ $import | replace "." "/" }}"
+    {{ goPackageAlias $import }} "{{ goImportPath $root $import }}"
 {{- end }}
 )
-- 
2.43.0


From c0cac76eedaac5afe9b61f47fc4ae2c7b5f832d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:56 +0000
Subject: [PATCH 37/47] fix: refuse schemas whose expressions do not fit where
 they are used

Mismatching types, values that are out of range, fields that are not available
yet, unknown types of subtypes and templates that instantiate themselves
without end ended in code that does not compile, panics, or never ended.
---
 internal/ast/BUILD.bazel       |   1 +
 internal/ast/bitmask.go        |   3 +
 internal/ast/check.go          | 519 +++++++++++++++++++++++++++++++++
 internal/ast/choice.go         |  35 +++
 internal/ast/const.go          |  16 +-
 internal/ast/expression.go     |  71 +++--
 internal/ast/field.go          |   5 +
 internal/ast/package.go        |  21 +-
 internal/ast/struct.go         |  10 +-
 internal/ast/type_reference.go |   2 +-
 internal/ast/union.go          |   5 +
 internal/model/model.go        |   6 +
 internal/model/transform.go    |  51 ++++
 internal/visitor/visitor.go    |   6 +-
 14 files changed, 715 insertions(+), 36 deletions(-)
 create mode 100644 internal/ast/check.go

diff --git a/internal/ast/BUILD.bazel b/internal/ast/BUILD.bazel
index 3c036f2..b2468c4 100644
--- a/internal/ast/BUILD.bazel
+++ b/internal/ast/BUILD.bazel
@@ -4,6 +4,7 @@ go_library(
     name = "ast",
     srcs = [
         "bitmask.go",
+        "check.go",
         "choice.go",
         "const.go",
         "enum.go",
diff --git a/internal/ast/bitmask.go b/internal/ast/bitmask.go
index bf3e05a..f8e1c8a 100644
--- a/internal/ast/bitmask.go
+++ b/internal/ast/bitmask.go
@@ -30,6 +30,9 @@ func (bitmask *BitmaskType) Evaluate(p *Package) error {
 	if err != nil {
 		return fmt.Errorf("bitmask %s: %w", bitmask.Name, err)
 	}
+	if lowest < 0 {
+		return fmt.Errorf("bitmask %s: the type is not unsigned", bitmask.Name)
+	}
 	names := map[string]bool{}
 	for ix, value := range bitmask.Values {
 		if value.Expression == nil {
diff --git a/internal/ast/check.go b/internal/ast/check.go
new file mode 100644
index 0000000..3c2fb7e
--- /dev/null
+++ b/internal/ast/check.go
@@ -0,0 +1,519 @@
+package ast
+
+import (
+	"errors"
+	"fmt"
+
+	"github.com/woven-planet/go-zserio/internal/parser"
+)
+
+// This file contains the checks that expressions are used where their type fits.
+
+var (
+	ErrTypeMismatch      = errors.New("type of the expression does not match")
+	ErrNotAValue         = errors.New("the expression does not have a value")
+	ErrNotConstant       = errors.New("the expression is not constant")
+	ErrOutOfRange        = errors.New("value is out of range")
+	ErrInvalidIndex      = errors.New("@index can only be used in the type of an array")
+	ErrDuplicateLabel    = errors.New("the label is used more than once")
+	ErrIncorrectArgument = errors.New("incorrect number of type arguments")
+	ErrUnavailableField  = errors.New("the field is not available here")
+)
+
+// inner returns the expression that is inside of parentheses.
+func (expr *Expression) inner() *Expression {
+	for expr.Type == parser.ZserioParserLPAREN {
+		expr = expr.Operand1
+	}
+	return expr
+}
+
+// symbol returns what the expression names, or nil if it does not just name
+// a symbol.
+func (expr *Expression) symbol() any {
+	expr = expr.inner()
+	if (expr.Type != parser.ZserioParserID && expr.Type != parser.ZserioParserDOT) || expr.ResultSymbol == nil {
+		return nil
+	}
+	return expr.ResultSymbol.Symbol
+}
+
+// checkValue returns an error if the expression does not have a value of its
+// own: arrays, functions and types have none.
+func (expr *Expression) checkValue() error {
+	switch n := expr.symbol().(type) {
+	case *Field:
+		if n.Array != nil {
+			return fmt.Errorf("%s: %w", n.Name, ErrNotAValue)
+		}
+	case *Function, *Enum, *BitmaskType, *Struct, *Choice, *Union, *Subtype, *InstantiateType:
+		return fmt.Errorf("%s: %w", expr.inner().Text, ErrNotAValue)
+	}
+	return nil
+}
+
+// checkOperands returns an error if an operand of the expression needs to have
+// a value, but does not.
+func (expr *Expression) checkOperands() error {
+	operands := []*Expression{expr.Operand1, expr.Operand2, expr.Operand3}
+	switch expr.Type {
+	case parser.ZserioParserLPAREN, parser.ZserioParserRPAREN, parser.ZserioParserLENGTHOF:
+		return nil
+	case parser.ZserioParserDOT:
+		switch expr.Operand1.symbol().(type) {
+		case *Enum, *BitmaskType, *Subtype:
+			return nil
+		}
+		operands = operands[:1]
+	case parser.ZserioParserLBRACKET:
+		operands = operands[1:]
+	}
+	for _, operand := range operands {
+		if operand != nil {
+			if err := operand.checkValue(); err != nil {
+				return err
+			}
+		}
+	}
+	return nil
+}
+
+// any returns if the condition is true for the expression or a part of it.
+func (expr *Expression) any(condition func(*Expression) bool) bool {
+	if expr == nil {
+		return false
+	}
+	return condition(expr) || expr.Operand1.any(condition) || expr.Operand2.any(condition) || expr.Operand3.any(condition)
+}
+
+func (expr *Expression) checkNoIndex() error {
+	if expr.any(func(e *Expression) bool { return e.Type == parser.ZserioParserINDEX }) {
+		return ErrInvalidIndex
+	}
+	return nil
+}
+
+// checkFields returns an error if the expression uses one of the fields.
+func (expr *Expression) checkFields(fields []*Field) error {
+	for _, field := range fields {
+		if expr.any(func(e *Expression) bool {
+			return e.Type == parser.ZserioParserID && e.ResultSymbol != nil && e.ResultSymbol.Symbol == any(field)
+		}) {
+			return fmt.Errorf("%s: %w", field.Name, ErrUnavailableField)
+		}
+	}
+	return nil
+}
+
+// isConstant returns if the value of an expression is known.
+func (expr *Expression) isConstant() bool {
+	expr = expr.inner()
+	switch expr.Type {
+	case parser.ZserioParserDOT:
+		return expr.isItemReference()
+	case parser.ZserioParserID:
+		return expr.FullyResolved
+	case parser.ZserioParserRPAREN, parser.ZserioParserLBRACKET, parser.ZserioParserLENGTHOF, parser.ZserioParserINDEX:
+		return false
+	}
+	for _, operand := range []*Expression{expr.Operand1, expr.Operand2, expr.Operand3} {
+		if operand != nil && !operand.isConstant() {
+			return false
+		}
+	}
+	return true
+}
+
+// definition returns the type that an enum, a bitmask or a compound expression
+// has, or nil if there is none.
+func (expr *Expression) definition(scope *Package) *TypeReference {
+	var typeRef *TypeReference
+	switch expr = expr.inner(); expr.Type {
+	case parser.ZserioParserTILDE, parser.ZserioParserAND, parser.ZserioParserOR, parser.ZserioParserXOR:
+		return expr.Operand1.definition(scope)
+	case parser.ZserioParserQUESTIONMARK:
+		return expr.Operand2.definition(scope)
+	case parser.ZserioParserLBRACKET:
+		expr = expr.Operand1.inner()
+	}
+	if expr.isItemReference() {
+		typeRef = &TypeReference{
+			Name:    expr.Operand1.ResultSymbol.Name,
+			Package: expr.Operand1.ResultSymbol.Package,
+		}
+		switch n := expr.Operand1.ResultSymbol.Symbol.(type) {
+		case *Field:
+			typeRef = n.Type
+		case *Parameter:
+			typeRef = n.Type
+		}
+	} else if expr.ResultSymbol != nil {
+		switch n := expr.ResultSymbol.Symbol.(type) {
+		case *Field:
+			typeRef = n.Type
+		case *Parameter:
+			typeRef = n.Type
+		case *Function:
+			typeRef = n.ReturnType
+		}
+	} else if expr.Type == parser.ZserioParserID {
+		symbol, err := expr.lookUp(scope)
+		if err != nil {
+			return nil
+		}
+		switch n := symbol.Symbol.(type) {
+		case *Const:
+			typeRef = n.Type
+		case *EnumItem:
+			return &TypeReference{Name: n.enum.Name, Package: symbol.Package}
+		}
+	}
+	if typeRef == nil {
+		return nil
+	}
+	original, err := scope.GetOriginalType(typeRef)
+	if err != nil {
+		return nil
+	}
+	return original.Type
+}
+
+// isSameDefinition returns if two expressions have the same type.
+func (expr *Expression) isSameDefinition(other *Expression, scope *Package) bool {
+	return isSameType(expr.definition(scope), other.definition(scope))
+}
+
+func isSameType(a, b *TypeReference) bool {
+	return a != nil && b != nil && a.Name == b.Name && a.Package == b.Package && a.IsBuiltin == b.IsBuiltin
+}
+
+// isItem returns if the expression is the name of an item of an enum.
+func (expr *Expression) isItem(scope *Package) bool {
+	if expr = expr.inner(); expr.Type != parser.ZserioParserID || expr.ResultSymbol != nil {
+		return false
+	}
+	symbol, err := expr.lookUp(scope)
+	if err != nil {
+		return false
+	}
+	_, ok := symbol.Symbol.(*EnumItem)
+	return ok
+}
+
+// checkAssignable returns an error if the value of the expression is none of
+// the type.
+func (expr *Expression) checkAssignable(target *TypeReference, targetScope, scope *Package) error {
+	if err := expr.checkValue(); err != nil {
+		return err
+	}
+	kind, _, err := evaluateExpressionType(target, targetScope)
+	if err != nil {
+		return err
+	}
+	if e := expr.inner(); e.Type == parser.ZserioParserQUESTIONMARK && kind != ExpressionTypeInteger {
+		if err := e.Operand2.checkAssignable(target, targetScope, scope); err != nil {
+			return err
+		}
+		return e.Operand3.checkAssignable(target, targetScope, scope)
+	}
+	original, err := targetScope.GetOriginalType(target)
+	if err != nil {
+		return err
+	}
+	switch kind {
+	case ExpressionTypeInteger:
+		if expr.ResultType != kind {
+			return ErrTypeMismatch
+		}
+		if !expr.isConstant() || original.Type.LengthExpression != nil || original.Type.hasNoLength() {
+			return nil
+		}
+		lowest, highest, err := integerBounds(target, targetScope)
+		if err != nil {
+			return err
+		}
+		if expr.ResultIntValue < lowest || expr.ResultIntValue > highest {
+			return ErrOutOfRange
+		}
+	case ExpressionTypeFloat:
+		if expr.ResultType != kind && expr.ResultType != ExpressionTypeInteger {
+			return ErrTypeMismatch
+		}
+	case ExpressionTypeBool, ExpressionTypeString:
+		if expr.ResultType != kind {
+			return ErrTypeMismatch
+		}
+	default:
+		if expr.ResultType != kind && !(kind == ExpressionTypeEnum && expr.isItem(scope)) {
+			return ErrTypeMismatch
+		}
+		if !isSameType(original.Type, expr.definition(scope)) {
+			return ErrTypeMismatch
+		}
+	}
+	return nil
+}
+
+// checkComparable returns an error if the expression is a number that no item
+// of the other one, an enum or a bitmask, can have.
+func (expr *Expression) checkComparable(other *Expression, scope *Package) error {
+	if expr.ResultType != ExpressionTypeInteger || !expr.isConstant() {
+		return nil
+	}
+	definition := other.definition(scope)
+	if definition == nil || definition.IsBuiltin {
+		return nil
+	}
+	scope, err := scope.GetImportedScope(definition.Package)
+	if err != nil {
+		return err
+	}
+	symbol, err := scope.GetType(definition.Name)
+	if err != nil {
+		return err
+	}
+	var lowest, highest int64
+	switch n := symbol.Symbol.(type) {
+	case *Enum:
+		lowest, highest, err = integerBounds(n.Type, scope)
+	case *BitmaskType:
+		lowest, highest, err = integerBounds(n.Type, scope)
+	default:
+		return nil
+	}
+	if err != nil {
+		return err
+	}
+	if expr.ResultIntValue < lowest || expr.ResultIntValue > highest {
+		return ErrOutOfRange
+	}
+	return nil
+}
+
+// Evaluate checks the type that a subtype stands for.
+func (s *Subtype) Evaluate(p *Package) error {
+	if err := s.Type.Evaluate(p); err != nil {
+		return fmt.Errorf("%s: %w", s.Name, err)
+	}
+	if _, err := p.GetOriginalType(s.Type); err != nil {
+		return fmt.Errorf("%s: %w", s.Name, err)
+	}
+	return nil
+}
+
+// checkType returns an error if the expression is not a value of the type.
+func (expr *Expression) checkType(resultType ExpressionType) error {
+	if expr.ResultType != resultType {
+		return ErrTypeMismatch
+	}
+	if err := expr.checkValue(); err != nil {
+		return err
+	}
+	return expr.checkNoIndex()
+}
+
+// checkResult returns an error if what a function returns is not of its type.
+func (f *Function) checkResult(p *Package) error {
+	if err := f.Result.checkNoIndex(); err != nil {
+		return fmt.Errorf("%s: %w", f.Name, err)
+	}
+	if err := f.Result.checkAssignable(f.ReturnType, p, p); err != nil {
+		return fmt.Errorf("%s: %w", f.Name, err)
+	}
+	return nil
+}
+
+// check returns an error if the length of a bit field is invalid.
+func (tr *TypeReference) check() error {
+	if tr.LengthExpression != nil {
+		if tr.LengthExpression.ResultType != ExpressionTypeInteger {
+			return ErrTypeMismatch
+		}
+		if err := tr.LengthExpression.checkValue(); err != nil {
+			return err
+		}
+		if !tr.IsBuiltin || (tr.Name != "bit" && tr.Name != "int") {
+			return fmt.Errorf("%s: the type has no length", tr.Name)
+		}
+		if length := tr.LengthExpression.ResultIntValue; tr.LengthExpression.isConstant() && (length < 1 || length > 64) {
+			return fmt.Errorf("bit length %d: %w", length, ErrOutOfRange)
+		}
+	} else if tr.IsBuiltin && (tr.Name == "bit" || tr.Name == "int") && tr.Bits > 64 {
+		return fmt.Errorf("bit length %d: %w", tr.Bits, ErrOutOfRange)
+	}
+	return nil
+}
+
+// hasNoLength returns if the type is a bit field whose length is not given. It
+// can be the type of a parameter, but it cannot be encoded.
+func (tr *TypeReference) hasNoLength() bool {
+	return tr.IsBuiltin && (tr.Name == "bit" || tr.Name == "int") && tr.Bits == 0 && tr.LengthExpression == nil
+}
+
+// checkArguments returns an error if the type arguments do not match the
+// parameters of the type.
+func (tr *TypeReference) checkArguments(p *Package) error {
+	original, err := p.GetOriginalType(tr)
+	if err != nil {
+		return err
+	}
+	kind, _, err := evaluateExpressionType(tr, p)
+	if err != nil {
+		return err
+	}
+	var parameters []*Parameter
+	typeScope := p
+	if kind == ExpressionTypeCompound && !original.Type.IsBuiltin {
+		if parameters, err = p.GetTypeParameter(tr); err != nil {
+			return err
+		}
+		if typeScope, err = p.GetImportedScope(original.Type.Package); err != nil {
+			return err
+		}
+	}
+	if len(parameters) != len(tr.TypeArguments) {
+		return fmt.Errorf("%s: %w", tr.Name, ErrIncorrectArgument)
+	}
+	for ix, argument := range tr.TypeArguments {
+		if err := argument.checkAssignable(parameters[ix].Type, typeScope, p); err != nil {
+			return fmt.Errorf("%s: %s: %w", tr.Name, parameters[ix].Name, err)
+		}
+	}
+	return nil
+}
+
+// check returns an error if an expression of the field does not have the type
+// that it needs to have.
+func (f *Field) check(p *Package) error {
+	if err := f.Type.checkArguments(p); err != nil {
+		return err
+	}
+	original, err := p.GetOriginalType(f.Type)
+	if err != nil {
+		return err
+	}
+	if original.Type.hasNoLength() {
+		return fmt.Errorf("%s: the bit length is missing", original.Type.Name)
+	}
+	if f.Array == nil {
+		for _, argument := range f.Type.expressions() {
+			if err := argument.checkNoIndex(); err != nil {
+				return err
+			}
+		}
+	}
+	if f.Initializer != nil {
+		if f.Array != nil {
+			return ErrTypeMismatch
+		}
+		if err := f.Initializer.checkNoIndex(); err != nil {
+			return err
+		}
+		if err := f.Initializer.checkAssignable(f.Type, p, p); err != nil {
+			return err
+		}
+		if !f.Initializer.isConstant() {
+			return ErrNotConstant
+		}
+	}
+	if f.OptionalClause != nil {
+		if err := f.OptionalClause.checkType(ExpressionTypeBool); err != nil {
+			return err
+		}
+	}
+	if f.Constraint != nil {
+		if err := f.Constraint.checkType(ExpressionTypeBool); err != nil {
+			return err
+		}
+	}
+	if f.Array != nil && f.Array.Length != nil {
+		if err := f.Array.Length.checkType(ExpressionTypeInteger); err != nil {
+			return err
+		}
+		if f.Array.Length.isConstant() && f.Array.Length.ResultIntValue < 0 {
+			return ErrOutOfRange
+		}
+	}
+	return nil
+}
+
+// expressions returns the expressions in a type.
+func (tr *TypeReference) expressions() []*Expression {
+	expressions := tr.TypeArguments[:len(tr.TypeArguments):len(tr.TypeArguments)]
+	if tr.LengthExpression != nil {
+		expressions = append(expressions, tr.LengthExpression)
+	}
+	return expressions
+}
+
+// checkAvailable returns an error if the field depends on one of the fields,
+// which are itself and the fields after it.
+func (f *Field) checkAvailable(fields []*Field) error {
+	expressions := f.Type.expressions()
+	if f.OptionalClause != nil {
+		expressions = append(expressions, f.OptionalClause)
+	}
+	if f.Array != nil && f.Array.Length != nil {
+		expressions = append(expressions, f.Array.Length)
+	}
+	for _, expression := range expressions {
+		if err := expression.checkFields(fields); err != nil {
+			return err
+		}
+	}
+	return nil
+}
+
+// fields returns all fields of a choice.
+func (choice *Choice) fields() []*Field {
+	var fields []*Field
+	for _, choiceCase := range choice.Cases {
+		if choiceCase.Field != nil {
+			fields = append(fields, choiceCase.Field)
+		}
+	}
+	if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
+		fields = append(fields, choice.DefaultCase.Field)
+	}
+	return fields
+}
+
+// check returns an error if the selector or a label of a choice is invalid.
+func (choice *Choice) check(p *Package) error {
+	selector := choice.SelectorExpression
+	if err := selector.checkType(selector.ResultType); err != nil {
+		return err
+	}
+	if err := selector.checkFields(choice.fields()); err != nil {
+		return err
+	}
+	switch selector.ResultType {
+	case ExpressionTypeInteger, ExpressionTypeBool, ExpressionTypeEnum, ExpressionTypeBitmask:
+	default:
+		return fmt.Errorf("selector: %w", ErrTypeMismatch)
+	}
+
+	selectorType := selector.definition(p)
+	labels := map[string]bool{}
+	for _, choiceCase := range choice.Cases {
+		for _, condition := range choiceCase.Conditions {
+			label := condition.Condition
+			if selectorType != nil {
+				if err := label.checkAssignable(selectorType, p, p); err != nil {
+					return fmt.Errorf("label %s: %w", label.Text, err)
+				}
+			} else if label.ResultType != selector.ResultType {
+				return fmt.Errorf("label %s: %w", label.Text, ErrTypeMismatch)
+			}
+			if !label.isConstant() {
+				return fmt.Errorf("label %s: %w", label.Text, ErrNotConstant)
+			}
+			value := fmt.Sprint(label.ResultIntValue, label.ResultBoolValue)
+			if labels[value] {
+				return fmt.Errorf("label %s: %w", label.Text, ErrDuplicateLabel)
+			}
+			labels[value] = true
+		}
+	}
+	return nil
+}
diff --git a/internal/ast/choice.go b/internal/ast/choice.go
index 007ff4b..944dbbd 100644
--- a/internal/ast/choice.go
+++ b/internal/ast/choice.go
@@ -2,6 +2,7 @@ package ast
 
 import (
 	"errors"
+	"fmt"
 
 	"github.com/woven-planet/go-zserio/internal/parser"
 )
@@ -99,6 +100,10 @@ func (choice *Choice) fullySpecifyChoiceConditions(p *Package) error {
 				if err != nil {
 					return err
 				}
+				if !hasItem(selectorScope, selectorSymbol, condition.Condition.Text) {
+					// it is a constant
+					continue
+				}
 				dotExpression := &Expression{
 					Type: parser.ZserioParserDOT,
 					Operand1: &Expression{
@@ -119,6 +124,30 @@ func (choice *Choice) fullySpecifyChoiceConditions(p *Package) error {
 	}
 	return nil
 }
+
+// hasItem returns if an enum or a bitmask has an item of a name.
+func hasItem(scope *Package, symbol *SymbolReference, name string) bool {
+	symbol, err := scope.GetOriginalSymbol(symbol)
+	if err != nil {
+		return false
+	}
+	switch n := symbol.Symbol.(type) {
+	case *Enum:
+		for _, item := range n.Items {
+			if item.Name == name {
+				return true
+			}
+		}
+	case *BitmaskType:
+		for _, value := range n.Values {
+			if value.Name == name {
+				return true
+			}
+		}
+	}
+	return false
+}
+
 func (choice *Choice) Evaluate(p *Package) error {
 	// Ignore templates
 	if len(choice.TemplateParameters) > 0 {
@@ -157,6 +186,9 @@ func (choice *Choice) Evaluate(p *Package) error {
 			}
 		}
 	}
+	if err := choice.check(p); err != nil {
+		return fmt.Errorf("%s: %w", choice.Name, err)
+	}
 
 	if choice.DefaultCase != nil && choice.DefaultCase.Field != nil {
 		if err := choice.DefaultCase.Field.Evaluate(p); err != nil {
@@ -168,6 +200,9 @@ func (choice *Choice) Evaluate(p *Package) error {
 		if err := function.Result.Evaluate(p); err != nil {
 			return err
 		}
+		if err := function.checkResult(p); err != nil {
+			return fmt.Errorf("%s.%w", choice.Name, err)
+		}
 	}
 	return nil
 }
diff --git a/internal/ast/const.go b/internal/ast/const.go
index 8cd7e24..a7082d8 100644
--- a/internal/ast/const.go
+++ b/internal/ast/const.go
@@ -1,5 +1,7 @@
 package ast
 
+import "fmt"
+
 // Const is a zserio constant
 type Const struct {
 	Name            string
@@ -10,5 +12,17 @@ type Const struct {
 
 // Evaluate evalutes the value expression of a const type
 func (c *Const) Evaluate(scope *Package) error {
-	return c.ValueExpression.Evaluate(scope)
+	if err := c.Type.Evaluate(scope); err != nil {
+		return err
+	}
+	if err := c.ValueExpression.Evaluate(scope); err != nil {
+		return err
+	}
+	if err := c.ValueExpression.checkNoIndex(); err != nil {
+		return fmt.Errorf("%s: %w", c.Name, err)
+	}
+	if err := c.ValueExpression.checkAssignable(c.Type, scope, scope); err != nil {
+		return fmt.Errorf("%s: %w", c.Name, err)
+	}
+	return nil
 }
diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 4a85651..75c44b4 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -130,6 +130,8 @@ func evaluateExpressionType(typeRef *TypeReference, scope *Package) (ExpressionT
 			return ExpressionTypeFloat, nativeType, nil
 		case "float64":
 			return ExpressionTypeFloat, nativeType, nil
+		case "extern", "bytes":
+			return ExpressionTypeCompound, nil, nil
 		default:
 			return ExpressionTypeInteger, nativeType, nil
 		}
@@ -320,6 +322,11 @@ func (expr *Expression) evaluateCompoundDotExpression(scope *Package) error {
 
 	switch compoundSymbol.Symbol.(type) {
 	case *Struct, *Choice, *Union:
+		// the members are those of the definition, not of others of that name
+		newScope, err = newScope.GetImportedScope(compoundSymbol.Package)
+		if err != nil {
+			return err
+		}
 		symbol, err := newScope.GetCompoundType(compoundSymbol.Name, expr.Operand2.Text)
 		if err != nil {
 			return err
@@ -332,7 +339,7 @@ func (expr *Expression) evaluateCompoundDotExpression(scope *Package) error {
 }
 
 func (expr *Expression) evaluateFunctionCallExpression(scope *Package) error {
-	if expr.Operand1.ResultSymbol == nil {
+	if expr.Operand1.symbol() == nil {
 		return errors.New("function expression expected")
 	}
 	function, ok := expr.Operand1.ResultSymbol.Symbol.(*Function)
@@ -380,10 +387,7 @@ func (expr *Expression) evaluateFunctionCallExpression(scope *Package) error {
 }
 
 func getArrayField(expr *Expression) (*Field, error) {
-	if expr.ResultSymbol == nil {
-		return nil, errors.New("unexpected array type (field expected)")
-	}
-	field, ok := expr.ResultSymbol.Symbol.(*Field)
+	field, ok := expr.symbol().(*Field)
 	if !ok {
 		return nil, errors.New("unexpected array type (field expected)")
 	}
@@ -403,6 +407,9 @@ func (expr *Expression) evaluateArrayElement(scope *Package) error {
 	if expr.Operand2.ResultType != ExpressionTypeInteger {
 		return errors.New("array index expression must be an integer")
 	}
+	if expr.Operand2.isConstant() && expr.Operand2.ResultIntValue < 0 {
+		return fmt.Errorf("array index: %w", ErrOutOfRange)
+	}
 	if expr.ResultType, expr.NativeZserioType, err = evaluateExpressionType(field.Type, scope); err != nil {
 		return err
 	}
@@ -433,6 +440,15 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 	if op1Symbol == nil {
 		return errors.New("dot expression must use a valid symbol")
 	}
+	if expr.Operand1.ResultType != ExpressionTypeCompound {
+		switch op1Symbol.Symbol.(type) {
+		case *Field, *Parameter, *Function:
+			// a member can have the name of the type, which it does not hide here
+			if _, err := scope.GetType(expr.Operand1.Text); err != nil {
+				return errors.New("only a type has items")
+			}
+		}
+	}
 	op1Symbol, err := scope.GetOriginalSymbol(op1Symbol)
 	if err != nil {
 		return err
@@ -481,7 +497,7 @@ func (expr *Expression) evaluateDotExpression(scope *Package) error {
 }
 
 // evaluateParenthesizedExpression evaluates if a bit flag is set in a bitmask.
-func (expr *Expression) evaluateIsSetOperator() error {
+func (expr *Expression) evaluateIsSetOperator(scope *Package) error {
 	if expr.Operand1 == nil || expr.Operand2 == nil {
 		return errors.New("the isset() operator needs two operands")
 	}
@@ -491,6 +507,9 @@ func (expr *Expression) evaluateIsSetOperator() error {
 	if expr.Operand2.ResultType != ExpressionTypeBitmask {
 		return errors.New("the second operand of the isset() operator must be a bitmask")
 	}
+	if !expr.Operand1.isSameDefinition(expr.Operand2, scope) {
+		return errors.New("the operands of the isset() operator must be of the same bitmask")
+	}
 	expr.ResultType = ExpressionTypeBool
 	expr.ResultBoolValue = expr.Operand1.ResultIntValue&expr.Operand2.ResultIntValue != 0
 	return nil
@@ -566,6 +585,10 @@ func (expr *Expression) evaluateArithmeticExpression() error {
 		}
 		op1 := expr.Operand1.ResultIntValue
 		op2 := expr.Operand2.ResultIntValue
+		if op2 == 0 && expr.Operand2.FullyResolved &&
+			(expr.Type == parser.ZserioParserDIVIDE || expr.Type == parser.ZserioParserMODULO) {
+			return errors.New("division by zero")
+		}
 		if !expr.Operand1.FullyResolved || !expr.Operand2.FullyResolved {
 			// If the expression operands are not a fully defined to a constant,
 			// we fill in some dummy values for the sake of checking the correct
@@ -574,9 +597,6 @@ func (expr *Expression) evaluateArithmeticExpression() error {
 			op2 = 1
 			expr.FullyResolved = false
 		}
-		if op2 == 0 && (expr.Type == parser.ZserioParserDIVIDE || expr.Type == parser.ZserioParserMODULO) {
-			return errors.New("division by zero")
-		}
 
 		switch expr.Type {
 		case parser.ZserioParserPLUS:
@@ -667,7 +687,7 @@ func (expr *Expression) evaluateLogicalExpression() error {
 	return nil
 }
 
-func (expr *Expression) evaluateComparisonExpression() error {
+func (expr *Expression) evaluateComparisonExpression(scope *Package) error {
 	if expr.Operand1.ResultType != expr.Operand2.ResultType &&
 		!(expr.Operand1.ResultType == ExpressionTypeEnum &&
 			expr.Operand2.ResultType == ExpressionTypeInteger) &&
@@ -679,6 +699,20 @@ func (expr *Expression) evaluateComparisonExpression() error {
 			expr.Operand2.ResultType == ExpressionTypeInteger) {
 		return errors.New("comparison expression must have operands of the same type")
 	}
+	switch expr.Operand1.ResultType {
+	case ExpressionTypeCompound:
+		return errors.New("compound types cannot be compared")
+	case ExpressionTypeEnum, ExpressionTypeBitmask:
+		if expr.Operand2.ResultType == expr.Operand1.ResultType && !expr.Operand1.isSameDefinition(expr.Operand2, scope) {
+			return errors.New("comparison expression must have operands of the same type")
+		}
+	}
+	if err := expr.Operand1.checkComparable(expr.Operand2, scope); err != nil {
+		return err
+	}
+	if err := expr.Operand2.checkComparable(expr.Operand1, scope); err != nil {
+		return err
+	}
 	expr.ResultType = ExpressionTypeBool
 	if expr.Operand1.ResultType == ExpressionTypeInteger ||
 		expr.Operand1.ResultType == ExpressionTypeEnum ||
@@ -935,6 +969,9 @@ func (expr *Expression) Evaluate(scope *Package) error {
 		}
 	}
 
+	if err := expr.checkOperands(); err != nil {
+		return fmt.Errorf("evaluate %q: %w", expr.Text, err)
+	}
 	switch expr.Type {
 	case parser.ZserioParserLPAREN:
 		err = expr.evaluateParenthesizedExpression()
@@ -945,7 +982,7 @@ func (expr *Expression) Evaluate(scope *Package) error {
 	case parser.ZserioParserDOT:
 		err = expr.evaluateDotExpression(scope)
 	case parser.ZserioParserISSET:
-		err = expr.evaluateIsSetOperator()
+		err = expr.evaluateIsSetOperator(scope)
 	case parser.ZserioParserLENGTHOF:
 		err = expr.evaluateLengthOfOperator(scope)
 	case parser.ZserioParserVALUEOF:
@@ -981,17 +1018,17 @@ func (expr *Expression) Evaluate(scope *Package) error {
 	case parser.ZserioParserLOGICAL_OR:
 		err = expr.evaluateLogicalExpression()
 	case parser.ZserioParserLT:
-		err = expr.evaluateComparisonExpression()
+		err = expr.evaluateComparisonExpression(scope)
 	case parser.ZserioParserLE:
-		err = expr.evaluateComparisonExpression()
+		err = expr.evaluateComparisonExpression(scope)
 	case parser.ZserioParserGT:
-		err = expr.evaluateComparisonExpression()
+		err = expr.evaluateComparisonExpression(scope)
 	case parser.ZserioParserGE:
-		err = expr.evaluateComparisonExpression()
+		err = expr.evaluateComparisonExpression(scope)
 	case parser.ZserioParserEQ:
-		err = expr.evaluateComparisonExpression()
+		err = expr.evaluateComparisonExpression(scope)
 	case parser.ZserioParserNE:
-		err = expr.evaluateComparisonExpression()
+		err = expr.evaluateComparisonExpression(scope)
 	case parser.ZserioParserSTRING_LITERAL:
 		err = expr.evaluateStringLiteral()
 	case parser.ZserioParserBINARY_LITERAL:
diff --git a/internal/ast/field.go b/internal/ast/field.go
index 75239da..643b22c 100644
--- a/internal/ast/field.go
+++ b/internal/ast/field.go
@@ -1,5 +1,7 @@
 package ast
 
+import "fmt"
+
 type Array struct {
 	IsPacked bool
 	Length   *Expression
@@ -55,5 +57,8 @@ func (f *Field) Evaluate(p *Package) error {
 			}
 		}
 	}
+	if err := f.check(p); err != nil {
+		return fmt.Errorf("%s: %w", f.Name, err)
+	}
 	return nil
 }
diff --git a/internal/ast/package.go b/internal/ast/package.go
index 6c98d05..676edd5 100644
--- a/internal/ast/package.go
+++ b/internal/ast/package.go
@@ -310,23 +310,14 @@ func (p *Package) GetCurrentCompoundType(name string) (*SymbolReference, error)
 	return nil, errors.New("compound symbol not found")
 }
 
+// GetCompoundType returns a member of a compound type of the package.
 func (p *Package) GetCompoundType(compoundSymbolName, name string) (*SymbolReference, error) {
-	if typeSymbol, err := p.LocalSymbols.GetCompoundType(compoundSymbolName, name); err == nil {
-		typeSymbol.Package = p.Name
-		return typeSymbol, nil
-	}
-
-	// check all imported scopes
-	for _, importedPackage := range p.ImportedPackages {
-		if !importedPackage.imports(compoundSymbolName) {
-			continue
-		}
-		if typeSymbol, err := importedPackage.LocalSymbols.GetCompoundType(compoundSymbolName, name); err == nil {
-			typeSymbol.Package = importedPackage.Name
-			return typeSymbol, nil
-		}
+	typeSymbol, err := p.LocalSymbols.GetCompoundType(compoundSymbolName, name)
+	if err != nil {
+		return nil, errors.New("compound symbol not found")
 	}
-	return nil, errors.New("compound symbol not found")
+	typeSymbol.Package = p.Name
+	return typeSymbol, nil
 }
 
 func (p *Package) GetOtherType(name string) (*SymbolReference, error) {
diff --git a/internal/ast/struct.go b/internal/ast/struct.go
index 2916fb7..4a3a8fd 100644
--- a/internal/ast/struct.go
+++ b/internal/ast/struct.go
@@ -1,5 +1,7 @@
 package ast
 
+import "fmt"
+
 type Struct struct {
 	Name               string
 	Comment            string
@@ -45,16 +47,22 @@ func (s *Struct) Evaluate(p *Package) error {
 			return err
 		}
 	}
-	for _, field := range s.Fields {
+	for ix, field := range s.Fields {
 		if err := field.Evaluate(p); err != nil {
 			return err
 		}
+		if err := field.checkAvailable(s.Fields[ix:]); err != nil {
+			return fmt.Errorf("%s.%s: %w", s.Name, field.Name, err)
+		}
 	}
 
 	for _, function := range s.Functions {
 		if err := function.Result.Evaluate(p); err != nil {
 			return err
 		}
+		if err := function.checkResult(p); err != nil {
+			return fmt.Errorf("%s.%w", s.Name, err)
+		}
 	}
 	return nil
 }
diff --git a/internal/ast/type_reference.go b/internal/ast/type_reference.go
index 4b4b6dd..f6cea1d 100644
--- a/internal/ast/type_reference.go
+++ b/internal/ast/type_reference.go
@@ -35,7 +35,7 @@ func (tr *TypeReference) Evaluate(p *Package) error {
 			return err
 		}
 	}
-	return nil
+	return tr.check()
 }
 
 // integerBounds returns the lowest and highest value of an integer type, as far
diff --git a/internal/ast/union.go b/internal/ast/union.go
index eb85a32..030ab72 100644
--- a/internal/ast/union.go
+++ b/internal/ast/union.go
@@ -1,5 +1,7 @@
 package ast
 
+import "fmt"
+
 type Union struct {
 	Name               string
 	Comment            string
@@ -54,6 +56,9 @@ func (u *Union) Evaluate(p *Package) error {
 		if err := function.Result.Evaluate(p); err != nil {
 			return err
 		}
+		if err := function.checkResult(p); err != nil {
+			return fmt.Errorf("%s.%w", u.Name, err)
+		}
 	}
 	return nil
 }
diff --git a/internal/model/model.go b/internal/model/model.go
index 200f603..9c92775 100644
--- a/internal/model/model.go
+++ b/internal/model/model.go
@@ -16,6 +16,8 @@ type Model struct {
 
 	// instantiatedNames are the generated names of instantiated templates
 	instantiatedNames map[string]string
+	// instantiationDepth is how many instantiations are in progress
+	instantiationDepth int
 }
 
 func NewModel() *Model {
@@ -118,6 +120,10 @@ func (m *Model) evaluate() error {
 		return fmt.Errorf("instantiate templates: %w", err)
 	}
 
+	if err := m.EvaluateSubtypes(); err != nil {
+		return fmt.Errorf("eval subtypes: %w", err)
+	}
+
 	if err := m.EvaluateConsts(); err != nil {
 		return fmt.Errorf("eval consts: %w", err)
 	}
diff --git a/internal/model/transform.go b/internal/model/transform.go
index 820fa69..927cc76 100644
--- a/internal/model/transform.go
+++ b/internal/model/transform.go
@@ -36,6 +36,11 @@ func (e UnknownType) Error() string {
 	return fmt.Sprintf("unknown type: %s.%s (type not found in package)", e.TypeReference.Package, e.TypeReference.Name)
 }
 
+// maxInstantiationDepth limits how deep instantiations of templates are nested.
+const maxInstantiationDepth = 100
+
+var ErrRecursiveInstantiation = errors.New("template instantiates itself without end")
+var ErrDuplicateTemplateParameter = errors.New("duplicate template parameter")
 var ErrIncorrectNumberOfTemplateParameters = errors.New("incorrect number of template parameters")
 
 // CapitalizeNames changes the names of all definitions to exported Go names.
@@ -113,6 +118,18 @@ func (m *Model) CapitalizeNames() {
 	}
 }
 
+// EvaluateSubtypes evaluates all subtypes in a model
+func (m *Model) EvaluateSubtypes() error {
+	for _, pkg := range m.Packages {
+		for _, subtype := range pkg.Subtypes {
+			if err := subtype.Evaluate(pkg); err != nil {
+				return err
+			}
+		}
+	}
+	return nil
+}
+
 // EvaluateConsts evaluates all constants in a model
 func (m *Model) EvaluateConsts() error {
 	for _, pkg := range m.Packages {
@@ -331,6 +348,8 @@ func (arguments templateArguments) substituteType(tr *ast.TypeReference) *ast.Ty
 	newType := *tr
 	if argument, found := arguments[tr.Name]; found && !tr.IsBuiltin && tr.Package == "" {
 		newType = *argument
+		// an argument is not a template, this is refused when it is instantiated
+		newType.TemplateArguments = tr.TemplateArguments
 	} else {
 		newType.LengthExpression = arguments.substituteExpression(tr.LengthExpression)
 		newType.TemplateArguments = nil
@@ -424,6 +443,9 @@ func newTemplateArguments(parameters []string, arguments []*ast.TypeReference) (
 	}
 	templateTypes := templateArguments{}
 	for ix, argument := range arguments {
+		if _, exists := templateTypes[parameters[ix]]; exists {
+			return nil, ErrDuplicateTemplateParameter
+		}
 		templateTypes[parameters[ix]] = argument
 	}
 	return templateTypes, nil
@@ -566,10 +588,39 @@ func instantiationKey(pkgScope *ast.Package, tr *ast.TypeReference, templateArgu
 	return key
 }
 
+// isTemplate returns if a type needs template arguments.
+func (m *Model) isTemplate(tr *ast.TypeReference) bool {
+	pkg, found := m.Packages[tr.Package]
+	if tr.IsBuiltin || !found {
+		return false
+	}
+	symbol, err := pkg.LocalSymbols.GetType(tr.Name)
+	if err != nil {
+		return false
+	}
+	switch n := symbol.Symbol.(type) {
+	case *ast.Struct:
+		return len(n.TemplateParameters) > 0
+	case *ast.Choice:
+		return len(n.TemplateParameters) > 0
+	case *ast.Union:
+		return len(n.TemplateParameters) > 0
+	}
+	return false
+}
+
 func (m *Model) instantiateType(pkgScope *ast.Package, tr *ast.TypeReference, templateArguments []*ast.TypeReference, instantiatedName string) (*ast.TypeReference, error) {
 	if len(templateArguments) == 0 {
+		if instantiatedName != "" || m.isTemplate(tr) {
+			return nil, ErrIncorrectNumberOfTemplateParameters
+		}
 		return tr, nil
 	}
+	m.instantiationDepth++
+	defer func() { m.instantiationDepth-- }()
+	if m.instantiationDepth > maxInstantiationDepth {
+		return nil, ErrRecursiveInstantiation
+	}
 
 	templatePackage, found := m.Packages[tr.Package]
 	if !found {
diff --git a/internal/visitor/visitor.go b/internal/visitor/visitor.go
index 6460f97..c9850f8 100644
--- a/internal/visitor/visitor.go
+++ b/internal/visitor/visitor.go
@@ -15,6 +15,7 @@ import (
 var ErrImplicitLengthArraysNotSupported = errors.New("implicit length arrays are obsolete, and not supported")
 var ErrAlignmentMustBeInteger = errors.New("alignment expression must be an integer")
 var ErrDuplicateDefinition = errors.New("defined more than once")
+var ErrBitLength = errors.New("the bit length is not between 1 and 64")
 var ErrMissingPackageName = errors.New("the package name is missing")
 
 // schemaError is what a visitor method panics with, if it cannot build a node
@@ -677,7 +678,10 @@ func (v *Visitor) VisitTypeReference(ctx *parser.TypeReferenceContext) any {
 			Name:      t.GetText(),
 		}
 		if ix := strings.Index(typ.Name, ":"); ix != -1 {
-			bits, _ := strconv.ParseUint(typ.Name[ix+1:], 10, 8)
+			bits, err := strconv.ParseUint(typ.Name[ix+1:], 10, 8)
+			if err != nil || bits == 0 {
+				panic(schemaError{fmt.Errorf("%s: %w", typ.Name, ErrBitLength)})
+			}
 			typ.Name = typ.Name[:ix]
 			typ.Bits = int(bits)
 			if typ.Bits == 8 || typ.Bits == 16 || typ.Bits == 32 || typ.Bits == 64 {
-- 
2.43.0


From b95b8a392e7f87cb34b6edc022b53432c6824623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:13 +0000
Subject: [PATCH 38/47] fix: find the schemas of the current directory

A directory, or file, that is named on the command line is taken even if its
name starts with a dot, as '.' and '..' do.
---
 internal/model/model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/model/model.go b/internal/model/model.go
index 9c92775..56b03f2 100644
--- a/internal/model/model.go
+++ b/internal/model/model.go
@@ -66,13 +66,13 @@ func walkDir(root string) ([]string, error) {
 			return err
 		}
 		if d.IsDir() {
-			if strings.HasPrefix(d.Name(), ".") {
+			if path != root && strings.HasPrefix(d.Name(), ".") {
 				return filepath.SkipDir
 			}
 			return nil
 		}
 
-		if strings.HasPrefix(d.Name(), ".") {
+		if path != root && strings.HasPrefix(d.Name(), ".") {
 			return nil
 		}
 
-- 
2.43.0


From aafac3c44e1b48d6bd63eec7e1a09788d27966a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 39/47] fix: --only selects the package when files are written,
 too

---
 internal/generator/gen.go | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index 455d5c2..139c75c 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -73,18 +73,17 @@ func Generate(m *model.Model, rootPath, rootPackage, outputPackage string, flags
 		f(opts)
 	}
 
-	if opts.outputToStdout {
-		pkg, ok := m.Packages[outputPackage]
+	names := maps.Keys(m.Packages)
+	sort.Strings(names)
+	pkg, ok := m.Packages[outputPackage]
+	if outputPackage != "" || opts.outputToStdout {
 		if !ok {
-			var known []string
-			for name := range m.Packages {
-				known = append(known, name)
-			}
-			sort.Strings(known)
-
-			return fmt.Errorf("%q not found, only know about %q", outputPackage, known)
+			return fmt.Errorf("%q not found, only know about %q", outputPackage, names)
 		}
+		names = []string{outputPackage}
+	}
 
+	if opts.outputToStdout {
 		files, err := generatePackage(pkg, opts)
 		if err != nil {
 			return err
@@ -97,9 +96,6 @@ func Generate(m *model.Model, rootPath, rootPackage, outputPackage string, flags
 
 	// every run names its files afresh
 	uniquePaths = nil
-	names := maps.Keys(m.Packages)
-	sort.Strings(names)
-
 	var files []sourceFile
 	for _, name := range names {
 		pkgFiles, err := generatePackage(m.Packages[name], opts)
-- 
2.43.0


From 19af02c02a9a749c9c92c9e337762ef34c26f8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 40/47] fix: report that a file cannot be closed, its data
 might be lost

---
 internal/generator/gen.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index 139c75c..8c7ad91 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -156,9 +156,15 @@ func writeToFile(code []byte, rootPath, zserioPkg, fn string, opts *options) (re
 
 		_ = os.Remove(outputFile)
 	}()
-	defer f.Close()
 
-	return writeGoSource(f, code)
+	if err := writeGoSource(f, code); err != nil {
+		_ = f.Close()
+		return err
+	}
+	if err := f.Close(); err != nil {
+		return fmt.Errorf("close: %w", err)
+	}
+	return nil
 }
 
 // reservedFileNameSuffixes are the endings of file names that the Go tools do
-- 
2.43.0


From cd748647878105b28f3fc1d40d92eb5b5925bdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 41/47] fix: remove unused imports from code that is not
 formatted

It did not compile.
---
 internal/generator/gen.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/internal/generator/gen.go b/internal/generator/gen.go
index 8c7ad91..14d0bdf 100644
--- a/internal/generator/gen.go
+++ b/internal/generator/gen.go
@@ -240,15 +240,14 @@ func assembleUniqueFilePath(outputDir string, fn string, maxPathLength int) (str
 }
 
 func formatGoSource(code []byte, doNotFormatCode bool) ([]byte, error) {
-	if doNotFormatCode {
-		return code, nil
-	}
-
 	stripped, err := StripImports(code)
 	if err != nil {
 		log.Println(string(code))
 		return nil, fmt.Errorf("strip imports: %w", err)
 	}
+	if doNotFormatCode {
+		return stripped, nil
+	}
 
 	formatted, err := format.Source(stripped)
 	if err != nil {
-- 
2.43.0


From 71af6df8fc70e33d2b26a2d771280ee48f49eeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:53 +0000
Subject: [PATCH 42/47] fix: the result of ?: on floats of different sizes has
 the larger size

---
 internal/ast/expression.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 75c44b4..e9b8fdf 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -789,8 +789,8 @@ func (expr *Expression) evaluateTernaryExpression() error {
 		operand = expr.Operand2
 	}
 	copyExpressionResult(operand, expr)
-	if expr.Operand2.ResultType != expr.Operand3.ResultType {
-		// mixing integers and floats
+	if expr.Operand2.ResultType == ExpressionTypeFloat || expr.Operand3.ResultType == ExpressionTypeFloat {
+		// mixing integers and floats, or floats of different sizes
 		if operand.ResultType == ExpressionTypeInteger {
 			expr.ResultFloatValue = float64(operand.ResultIntValue)
 		}
-- 
2.43.0


From f6ac4f6529ac35114390b92bc24c18d92897a921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:38 +0000
Subject: [PATCH 43/47] fix: refuse constants whose value overflows

---
 internal/ast/check.go      |  3 +++
 internal/ast/expression.go | 27 +++++++++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/internal/ast/check.go b/internal/ast/check.go
index 3c2fb7e..2f20db8 100644
--- a/internal/ast/check.go
+++ b/internal/ast/check.go
@@ -239,6 +239,9 @@ func (expr *Expression) checkAssignable(target *TypeReference, targetScope, scop
 		if expr.ResultType != kind && expr.ResultType != ExpressionTypeInteger {
 			return ErrTypeMismatch
 		}
+		if expr.isConstant() && isFloatOverflow(expr.ResultFloatValue, original.Type) {
+			return ErrOutOfRange
+		}
 	case ExpressionTypeBool, ExpressionTypeString:
 		if expr.ResultType != kind {
 			return ErrTypeMismatch
diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index e9b8fdf..2f4b36f 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -3,6 +3,8 @@ package ast
 import (
 	"errors"
 	"fmt"
+	"math"
+	"math/big"
 	"math/bits"
 	"regexp"
 	"strconv"
@@ -541,6 +543,9 @@ func (expr *Expression) evaluateUnaryArithmeticExpression() error {
 		expr.ResultIntValue = expr.Operand1.ResultIntValue
 		if expr.Type == parser.ZserioParserMINUS {
 			expr.ResultIntValue = -expr.Operand1.ResultIntValue
+			if expr.FullyResolved && expr.ResultIntValue == math.MinInt64 {
+				return ErrOutOfRange
+			}
 		}
 	} else {
 		expr.ResultFloatValue = expr.Operand1.ResultFloatValue
@@ -551,6 +556,14 @@ func (expr *Expression) evaluateUnaryArithmeticExpression() error {
 	return nil
 }
 
+// isFloatOverflow reports if a value is too large for a float type.
+func isFloatOverflow(value float64, floatType *TypeReference) bool {
+	if floatType != nil && floatType.Name != "float64" {
+		value = float64(float32(value))
+	}
+	return math.IsInf(value, 0)
+}
+
 // evaluateArithmeticExpression evaluates an arithmetic expression: plus, minus,
 // multiply, divide and modulo.
 // The accepted data types are string, int, and float, with one or two operands.
@@ -598,20 +611,28 @@ func (expr *Expression) evaluateArithmeticExpression() error {
 			expr.FullyResolved = false
 		}
 
+		exact := new(big.Int)
 		switch expr.Type {
 		case parser.ZserioParserPLUS:
 			expr.ResultIntValue = op1 + op2
+			exact.Add(big.NewInt(op1), big.NewInt(op2))
 		case parser.ZserioParserMINUS:
 			expr.ResultIntValue = op1 - op2
+			exact.Sub(big.NewInt(op1), big.NewInt(op2))
 		case parser.ZserioParserMULTIPLY:
 			expr.ResultIntValue = op1 * op2
+			exact.Mul(big.NewInt(op1), big.NewInt(op2))
 		case parser.ZserioParserDIVIDE:
 			expr.ResultIntValue = op1 / op2
+			exact.Quo(big.NewInt(op1), big.NewInt(op2))
 		case parser.ZserioParserMODULO:
 			expr.ResultIntValue = op1 % op2
 		default:
 			return errors.New("unexpected operation in integer arithmetic expression")
 		}
+		if !exact.IsInt64() {
+			return ErrOutOfRange
+		}
 	} else if (expr.Operand1.ResultType == ExpressionTypeFloat && expr.Operand2.ResultType == ExpressionTypeFloat) ||
 		(expr.Operand1.ResultType == ExpressionTypeInteger && expr.Operand2.ResultType == ExpressionTypeFloat) ||
 		(expr.Operand1.ResultType == ExpressionTypeFloat && expr.Operand2.ResultType == ExpressionTypeInteger) {
@@ -647,6 +668,9 @@ func (expr *Expression) evaluateArithmeticExpression() error {
 		default:
 			return errors.New("unexpected operation in float arithmetic expression")
 		}
+		if math.IsNaN(expr.ResultFloatValue) || isFloatOverflow(expr.ResultFloatValue, expr.NativeZserioType) {
+			return ErrOutOfRange
+		}
 	} else {
 		return errors.New("arithmetic expressions for types other than int, float or string not implemented")
 	}
@@ -839,6 +863,9 @@ func (expr *Expression) evaluateBitwiseExpression() error {
 	switch expr.Type {
 	case parser.ZserioLexerLSHIFT:
 		expr.ResultIntValue = expr.Operand1.ResultIntValue << shiftCount
+		if expr.FullyResolved && expr.ResultIntValue>>shiftCount != expr.Operand1.ResultIntValue {
+			return ErrOutOfRange
+		}
 		isShiftOperation = true
 	case parser.ZserioParserRSHIFT:
 		expr.ResultIntValue = expr.Operand1.ResultIntValue >> shiftCount
-- 
2.43.0


From df38a9a182e56b37f16975d705c967cd3ccf4747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:38 +0000
Subject: [PATCH 44/47] fix: negate bitmasks within the bits of their type

The value of a constant such as ~Mask.READ was negative, so that expressions
with it did not compile, and the negation of a bitmask had bits that its type
cannot encode.
---
 internal/ast/check.go                         | 30 +++++++++++++++++++
 internal/ast/expression.go                    | 14 +++++++--
 internal/generator/expression.go              | 11 +++++--
 .../generator/templates/functions.go.tmpl     |  3 +-
 4 files changed, 52 insertions(+), 6 deletions(-)

diff --git a/internal/ast/check.go b/internal/ast/check.go
index 2f20db8..ff2c628 100644
--- a/internal/ast/check.go
+++ b/internal/ast/check.go
@@ -3,6 +3,7 @@ package ast
 import (
 	"errors"
 	"fmt"
+	"math"
 
 	"github.com/woven-planet/go-zserio/internal/parser"
 )
@@ -293,6 +294,35 @@ func (expr *Expression) checkComparable(other *Expression, scope *Package) error
 	return nil
 }
 
+// bitmaskMask returns all the bits that the type of a bitmask expression has.
+func (expr *Expression) bitmaskMask(scope *Package) (uint64, error) {
+	definition := expr.definition(scope)
+	if definition == nil || definition.IsBuiltin {
+		return math.MaxUint64, nil
+	}
+	scope, err := scope.GetImportedScope(definition.Package)
+	if err != nil {
+		return 0, err
+	}
+	symbol, err := scope.GetType(definition.Name)
+	if err != nil {
+		return 0, err
+	}
+	bitmask, ok := symbol.Symbol.(*BitmaskType)
+	if !ok {
+		return math.MaxUint64, nil
+	}
+	_, highest, err := integerBounds(bitmask.Type, scope)
+	if err != nil {
+		return 0, err
+	}
+	if highest == math.MaxInt64 && bitmask.Type.Bits != 63 {
+		// the bounds do not go beyond an int64
+		return math.MaxUint64, nil
+	}
+	return uint64(highest), nil
+}
+
 // Evaluate checks the type that a subtype stands for.
 func (s *Subtype) Evaluate(p *Package) error {
 	if err := s.Type.Evaluate(p); err != nil {
diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 2f4b36f..0d612c0 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -90,6 +90,9 @@ type Expression struct {
 
 	// FullyResolved specifies if the expression is fully resolved (no variables)
 	FullyResolved bool
+
+	// ResultMask is set to the bits that the type of a negated bitmask has.
+	ResultMask uint64
 }
 
 func copyExpressionResult(src, dst *Expression) {
@@ -825,7 +828,7 @@ func (expr *Expression) evaluateTernaryExpression() error {
 	return nil
 }
 
-func (expr *Expression) evaluateBitwiseNegation() error {
+func (expr *Expression) evaluateBitwiseNegation(scope *Package) error {
 	if expr.Operand1 == nil {
 		return errors.New("negation needs exactly one operand")
 	}
@@ -836,6 +839,13 @@ func (expr *Expression) evaluateBitwiseNegation() error {
 	expr.ResultType = expr.Operand1.ResultType
 	expr.ResultIntValue = ^expr.Operand1.ResultIntValue
 	expr.NativeZserioType = expr.Operand1.NativeZserioType
+	if expr.ResultType == ExpressionTypeBitmask {
+		var err error
+		if expr.ResultMask, err = expr.bitmaskMask(scope); err != nil {
+			return err
+		}
+		expr.ResultIntValue &= int64(expr.ResultMask)
+	}
 	return nil
 }
 
@@ -1029,7 +1039,7 @@ func (expr *Expression) Evaluate(scope *Package) error {
 	case parser.ZserioParserBANG: // the ! (negation operator)
 		err = expr.evaluateLogicalNegation()
 	case parser.ZserioParserTILDE:
-		err = expr.evaluateBitwiseNegation()
+		err = expr.evaluateBitwiseNegation(scope)
 	case parser.ZserioLexerLSHIFT:
 		err = expr.evaluateBitwiseExpression()
 	case parser.ZserioParserRSHIFT:
diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index bd82059..4eaa223 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -362,8 +362,10 @@ func floatToGoString(value float64) string {
 func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 	if expression.FullyResolved {
 		switch expression.ResultType {
-		case ast.ExpressionTypeInteger, ast.ExpressionTypeEnum, ast.ExpressionTypeBitmask:
+		case ast.ExpressionTypeInteger, ast.ExpressionTypeEnum:
 			return fmt.Sprintf("%v", expression.ResultIntValue)
+		case ast.ExpressionTypeBitmask:
+			return strconv.FormatUint(uint64(expression.ResultIntValue), 10)
 		case ast.ExpressionTypeBool:
 			return fmt.Sprintf("%t", expression.ResultBoolValue)
 		case ast.ExpressionTypeString:
@@ -399,7 +401,12 @@ func ExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 	case parser.ZserioParserBANG: // the ! (negation operator)
 		return unaryOperatorToGoString(scope, expression, "!")
 	case parser.ZserioParserTILDE:
-		return unaryOperatorToGoString(scope, expression, "^")
+		text := unaryOperatorToGoString(scope, expression, "^")
+		if expression.ResultType == ast.ExpressionTypeBitmask {
+			// without the bits that only the Go type has
+			text = fmt.Sprintf("(%s & %#x)", text, expression.ResultMask)
+		}
+		return text
 	case parser.ZserioLexerLSHIFT, parser.ZserioParserRSHIFT:
 		return shiftOperatorToGoString(scope, expression)
 	case parser.ZserioParserMULTIPLY, parser.ZserioParserDIVIDE, parser.ZserioParserMODULO,
diff --git a/internal/generator/templates/functions.go.tmpl b/internal/generator/templates/functions.go.tmpl
index 1bf1ab3..d933c85 100644
--- a/internal/generator/templates/functions.go.tmpl
+++ b/internal/generator/templates/functions.go.tmpl
@@ -3,7 +3,6 @@
 {{- $functions := .functions }}
 {{- range $function := $functions }}
 func (v *{{ $name }}) {{ .Name }}() {{ goType $scope .ReturnType }} {
-   retVal := {{ goExpression $scope .Result }}
-   return ({{ goType $scope .ReturnType }})(retVal)
+   return ({{ goType $scope .ReturnType }})({{ goExpression $scope .Result }})
 }
 {{- end}}
-- 
2.43.0


From f7895d7372af2639e0870964f5d909b8db94394a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:01 +0000
Subject: [PATCH 45/47] fix: evaluate constant expressions with items of enums
 and bitmasks

Constants like Color.RED == Color.BLUE ? 1 : 2 were generated as function
calls, which are not constant in Go.
---
 internal/ast/check.go      | 15 +++++++++++++++
 internal/ast/expression.go |  8 ++++----
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/internal/ast/check.go b/internal/ast/check.go
index ff2c628..2a21142 100644
--- a/internal/ast/check.go
+++ b/internal/ast/check.go
@@ -125,6 +125,21 @@ func (expr *Expression) isConstant() bool {
 	return true
 }
 
+// dependsOnItemsOnly returns if the value of an expression is known, other
+// than as the name of an item, or as a combination of the items of a bitmask.
+func (expr *Expression) dependsOnItemsOnly() bool {
+	inner := expr.inner()
+	switch inner.ResultType {
+	case ExpressionTypeCompound:
+		return false
+	case ExpressionTypeEnum, ExpressionTypeBitmask:
+		if inner.Type != parser.ZserioParserQUESTIONMARK {
+			return false
+		}
+	}
+	return inner.isConstant()
+}
+
 // definition returns the type that an enum, a bitmask or a compound expression
 // has, or nil if there is none.
 func (expr *Expression) definition(scope *Package) *TypeReference {
diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 0d612c0..cf9ddc5 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -257,10 +257,6 @@ func (expr *Expression) evaluateValueOfOperator() error {
 	}
 	expr.ResultType = ExpressionTypeInteger
 	expr.ResultIntValue = expr.Operand1.ResultIntValue
-	if expr.Operand1.isItemReference() {
-		// the value of an item does not change
-		expr.FullyResolved = true
-	}
 	return nil
 }
 
@@ -1110,6 +1106,10 @@ func (expr *Expression) Evaluate(scope *Package) error {
 	if err != nil {
 		return fmt.Errorf("evaluate %q: %w", expr.Text, err)
 	}
+	if !expr.FullyResolved && expr.dependsOnItemsOnly() {
+		// the values of items do not change
+		expr.FullyResolved = true
+	}
 	expr.EvaluationState = EvaluationStateComplete
 	return nil
 }
-- 
2.43.0


From 27626526352680610807fe9845d84a58e9352aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:02 +0000
Subject: [PATCH 46/47] fix: generate ternary expressions with two constants of
 an enum

---
 internal/ast/expression.go       | 11 +++++++++--
 internal/generator/expression.go |  9 +++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index cf9ddc5..42bbc3e 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -91,6 +91,10 @@ type Expression struct {
 	// FullyResolved specifies if the expression is fully resolved (no variables)
 	FullyResolved bool
 
+	// ResultDefinition is the enum or bitmask that a ternary expression results
+	// in.
+	ResultDefinition *TypeReference
+
 	// ResultMask is set to the bits that the type of a negated bitmask has.
 	ResultMask uint64
 }
@@ -795,7 +799,7 @@ func (expr *Expression) evaluateComparisonExpression(scope *Package) error {
 	return nil
 }
 
-func (expr *Expression) evaluateTernaryExpression() error {
+func (expr *Expression) evaluateTernaryExpression(scope *Package) error {
 	if expr.Operand1.ResultType != ExpressionTypeBool {
 		return errors.New("ternary expression operand 1 must be a boolean expression")
 	}
@@ -812,6 +816,9 @@ func (expr *Expression) evaluateTernaryExpression() error {
 		operand = expr.Operand2
 	}
 	copyExpressionResult(operand, expr)
+	if expr.ResultType == ExpressionTypeEnum || expr.ResultType == ExpressionTypeBitmask {
+		expr.ResultDefinition = operand.definition(scope)
+	}
 	if expr.Operand2.ResultType == ExpressionTypeFloat || expr.Operand3.ResultType == ExpressionTypeFloat {
 		// mixing integers and floats, or floats of different sizes
 		if operand.ResultType == ExpressionTypeInteger {
@@ -1067,7 +1074,7 @@ func (expr *Expression) Evaluate(scope *Package) error {
 	case parser.ZserioParserBINARY_LITERAL:
 		err = expr.evaluateBinaryLiteral()
 	case parser.ZserioParserQUESTIONMARK:
-		err = expr.evaluateTernaryExpression()
+		err = expr.evaluateTernaryExpression(scope)
 	case parser.ZserioParserOCTAL_LITERAL:
 		expr.ResultType = ExpressionTypeInteger
 		// use base 0 to be able to parse the "0" prefix
diff --git a/internal/generator/expression.go b/internal/generator/expression.go
index 4eaa223..d2366bd 100644
--- a/internal/generator/expression.go
+++ b/internal/generator/expression.go
@@ -132,6 +132,9 @@ func expressionTypeReference(expression *ast.Expression) *ast.TypeReference {
 		parser.ZserioParserAND, parser.ZserioParserOR, parser.ZserioParserXOR:
 		return expressionTypeReference(expression.Operand1)
 	case parser.ZserioParserQUESTIONMARK:
+		if expression.ResultDefinition != nil {
+			return expression.ResultDefinition
+		}
 		return expressionTypeReference(expression.Operand2)
 	case parser.ZserioParserLBRACKET:
 		return expressionTypeReference(expression.Operand1)
@@ -320,6 +323,12 @@ func unaryOperatorToGoString(scope ast.Scope, expression *ast.Expression, operat
 
 func ternaryExpressionToGoString(scope ast.Scope, expression *ast.Expression) string {
 	goType, operands := operandsToGoString(scope, expression.Operand2, expression.Operand3)
+	if goType == "" && expression.ResultDefinition != nil {
+		// both operands are constants
+		if name, err := GoType(scope, expression.ResultDefinition); err == nil {
+			goType = name
+		}
+	}
 	if goType == "" {
 		return "UNSUPPORTED_TYPE"
 	}
-- 
2.43.0


From 94b977d5b150f52b993f50e9bd38ee6d42ea5d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:16 +0000
Subject: [PATCH 47/47] fix: refuse ternary and bitwise expressions that mix
 enums or bitmasks

---
 internal/ast/expression.go | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/internal/ast/expression.go b/internal/ast/expression.go
index 42bbc3e..bf0e631 100644
--- a/internal/ast/expression.go
+++ b/internal/ast/expression.go
@@ -810,6 +810,12 @@ func (expr *Expression) evaluateTernaryExpression(scope *Package) error {
 	if expr.Operand2.ResultType != expr.Operand3.ResultType && !(isNumber(expr.Operand2) && isNumber(expr.Operand3)) {
 		return errors.New("ternary expression operands 2 and 3 must have the same type")
 	}
+	switch expr.Operand2.ResultType {
+	case ExpressionTypeEnum, ExpressionTypeBitmask, ExpressionTypeCompound:
+		if !expr.Operand2.isSameDefinition(expr.Operand3, scope) {
+			return errors.New("ternary expression operands 2 and 3 must have the same type")
+		}
+	}
 
 	operand := expr.Operand3
 	if expr.Operand1.ResultBoolValue {
@@ -852,7 +858,7 @@ func (expr *Expression) evaluateBitwiseNegation(scope *Package) error {
 	return nil
 }
 
-func (expr *Expression) evaluateBitwiseExpression() error {
+func (expr *Expression) evaluateBitwiseExpression(scope *Package) error {
 	if expr.Operand1 == nil || expr.Operand2 == nil {
 		return errors.New("bitwise expressions always need to operands")
 	}
@@ -861,6 +867,10 @@ func (expr *Expression) evaluateBitwiseExpression() error {
 		(expr.Operand2.ResultType != ExpressionTypeBitmask && expr.Operand2.ResultType != ExpressionTypeInteger) {
 		return errors.New("integer or bitmask types expected for bitwise expressions")
 	}
+	if expr.Operand1.ResultType == ExpressionTypeBitmask && expr.Operand2.ResultType == ExpressionTypeBitmask &&
+		!expr.Operand1.isSameDefinition(expr.Operand2, scope) {
+		return errors.New("bitwise expressions need bitmasks of the same type")
+	}
 
 	expr.ResultType = expr.Operand1.ResultType
 	expr.NativeZserioType = expr.Operand1.NativeZserioType
@@ -1044,15 +1054,15 @@ func (expr *Expression) Evaluate(scope *Package) error {
 	case parser.ZserioParserTILDE:
 		err = expr.evaluateBitwiseNegation(scope)
 	case parser.ZserioLexerLSHIFT:
-		err = expr.evaluateBitwiseExpression()
+		err = expr.evaluateBitwiseExpression(scope)
 	case parser.ZserioParserRSHIFT:
-		err = expr.evaluateBitwiseExpression()
+		err = expr.evaluateBitwiseExpression(scope)
 	case parser.ZserioParserAND:
-		err = expr.evaluateBitwiseExpression()
+		err = expr.evaluateBitwiseExpression(scope)
 	case parser.ZserioParserOR:
-		err = expr.evaluateBitwiseExpression()
+		err = expr.evaluateBitwiseExpression(scope)
 	case parser.ZserioParserXOR:
-		err = expr.evaluateBitwiseExpression()
+		err = expr.evaluateBitwiseExpression(scope)
 	case parser.ZserioParserLOGICAL_AND:
 		err = expr.evaluateLogicalExpression()
 	case parser.ZserioParserLOGICAL_OR:
-- 
2.43.0

