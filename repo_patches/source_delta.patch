From 8b9628144f7cc55110c034a1b19761ff94244dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:07 +0000
Subject: [PATCH 001/121] fix: write fixed arrays element by element when byte
 order is swapped

Writing a C array through the generic path decayed it to a pointer, so with
swapped byte order the bytes of the pointer (and of the stack behind it) were
written instead of the elements.
---
 datas/binwritter_ref.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/datas/binwritter_ref.hpp b/datas/binwritter_ref.hpp
index 529b532..4252705 100644
--- a/datas/binwritter_ref.hpp
+++ b/datas/binwritter_ref.hpp
@@ -90,6 +90,18 @@ public:
     Write<charType>(0);
   }
 
+  template <class T, size_t _size> void Write(const T (&input)[_size]) const {
+    if (this->swapEndian && sizeof(T) > 1) {
+      for (const T &item : input) {
+        T outCopy = item;
+        FByteswapper(outCopy, true);
+        WriteBuffer(reinterpret_cast<const char *>(&outCopy), sizeof(T));
+      }
+    } else {
+      WriteBuffer(reinterpret_cast<const char *>(input), sizeof(T) * _size);
+    }
+  }
+
   // SFINAE
   // Write class with its Write(BinWritterRef_t) const member method, or writes
   // type itself
-- 
2.43.0


From df24d43d83ac727c2f03f0a4d8a214ff430f9d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:31 +0000
Subject: [PATCH 002/121] fix: encode large negative variable-length integers
 within nine bytes

Values from -2^56 to -2^55 - 1 lost their sign (the flag only has 55 bits
beside it) and values below -2^56 took ten bytes, of which the reader only
consumes nine.
---
 datas/base_128.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datas/base_128.hpp b/datas/base_128.hpp
index 176d946..3b642e1 100644
--- a/datas/base_128.hpp
+++ b/datas/base_128.hpp
@@ -54,8 +54,8 @@ struct bint128 {
 
   void Write(BinWritterRef wr) const {
     // there shouldn't be a sign flag for values lower than
-    // -72'057'594'037'927'936
-    bool sign = value < 0 && !(~(value >> 56));
+    // -36'028'797'018'963'968 (55 bits are left beside the flag)
+    bool sign = value < 0 && !(~(value >> 55));
     uint64 valueCopy = sign ? ~value : value;
     uint8 lastValue = 0;
     size_t lastIndex = 0;
@@ -64,7 +64,7 @@ struct bint128 {
       lastValue = static_cast<uint8>(valueCopy);
       valueCopy >>= 7;
 
-      if (!valueCopy) {
+      if (!valueCopy || lastIndex == 8) {
         break;
       }
 
-- 
2.43.0


From d7f1570bca03f710f7f4638f4ae136e2cc6e8427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 003/121] fix: do not read behind the element when decoding 8,
 4, 6 and 3 byte layouts

R32G32 and R32 loaded twelve bytes, normalised R16G16B16 eight and
normalised R8G8B8 four, which is out of bounds for the last element.
---
 uni/internal/format_full.hpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/uni/internal/format_full.hpp b/uni/internal/format_full.hpp
index 5f3659d..53c2d99 100644
--- a/uni/internal/format_full.hpp
+++ b/uni/internal/format_full.hpp
@@ -99,15 +99,15 @@ public:
 template <> class FormatCodec_t<FormatType::UINT, DataType::R32G32> {
 public:
   static IVector4A16 GetValue(const char *input) {
-    const auto inputRC = *reinterpret_cast<const IVector *>(input);
+    const auto inputRC = *reinterpret_cast<const IVector2 *>(input);
     return IVector4A16(inputRC.X, inputRC.Y, 0, 0);
   }
 };
 template <> class FormatCodec_t<FormatType::UINT, DataType::R32> {
 public:
   static IVector4A16 GetValue(const char *input) {
-    const auto inputRC = *reinterpret_cast<const IVector *>(input);
-    return IVector4A16(inputRC.X, 0, 0, 0);
+    const auto inputRC = *reinterpret_cast<const int32 *>(input);
+    return IVector4A16(inputRC, 0, 0, 0);
   }
 };
 template <> class FormatCodec_t<FormatType::UINT, DataType::R16G16B16A16> {
@@ -354,11 +354,8 @@ public:
 template <> class FormatCodec_t<FormatType::UNORM, DataType::R16G16B16> {
 public:
   static UIVector4A16 GetValueNoFrac(const char *input) {
-    const uint64 rtVal = reinterpret_cast<const uint64 &>(*input);
-    UIVector4A16 vctr(_mm_set1_epi64x(rtVal)); // XY, ZW, XY, ZW
-    const UIVector4A16 result((vctr * UIVector4A16(1 << 16, 1 << 16, 1, 0)) >>
-                              16); // X, Z, Y, W
-    return _mm_shuffle_epi32(result._data, _MM_SHUFFLE(3, 1, 2, 0));
+    const auto inputRC = *reinterpret_cast<const USVector *>(input);
+    return UIVector4A16(inputRC.X, inputRC.Y, inputRC.Z, 0);
   }
 
   static Vector4A16 GetValue(const char *input) {
@@ -404,9 +401,8 @@ public:
 template <> class FormatCodec_t<FormatType::UNORM, DataType::R8G8B8> {
 public:
   static UIVector4A16 GetValueNoFrac(const char *input) {
-    const uint32 rtVal = reinterpret_cast<const uint32 &>(*input);
-    UIVector4A16 vctr(rtVal);
-    return (vctr * UIVector4A16(1 << 24, 1 << 16, 1 << 8, 0)) >> 24;
+    const auto inputRC = *reinterpret_cast<const UCVector *>(input);
+    return UIVector4A16(inputRC.X, inputRC.Y, inputRC.Z, 0);
   }
 
   static Vector4A16 GetValue(const char *input) {
-- 
2.43.0


From 05eb28faf9f2e44dea91377aacb3542fcf6d280e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 004/121] fix: convert small floats exactly around and below
 their smallest normal value

---
 datas/float.hpp | 57 ++++++++++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 22 deletions(-)

diff --git a/datas/float.hpp b/datas/float.hpp
index f617ee5..a590c2d 100644
--- a/datas/float.hpp
+++ b/datas/float.hpp
@@ -27,6 +27,9 @@ public:
   static constexpr size_t SIGN_MASK = _sign ? 1 << (TOTAL_SIZE - 1) : 0;
   static constexpr size_t EXP_REF =
       (0x3f800000 - ((EXPONENT_MASK_NS >> 1) << 23));
+  // Float, which has the smallest subnormal value as its last mantissa bit
+  static constexpr size_t DENORM_REF =
+      EXP_REF + ((24 - static_cast<size_t>(_mantissa)) << 23);
 
   static float ToFloat(size_t value) {
     const IVector4A16 vtored(static_cast<int32>(value));
@@ -47,28 +50,29 @@ public:
         finResult += IVector4A16(EXP_REF, 0, 0, 0);
       }
     } else {
-      finResult *= IVector4A16(0, 0, 1, 1);
-      finResult += IVector4A16(0x3f000000, 0, 0, 0);
+      const float subNorm =
+          FloatFromBits(DENORM_REF | mskEMSM.Y) - FloatFromBits(DENORM_REF);
+      return mskEMSM.Z ? -subNorm : subNorm;
     }
 
     const size_t result = _mm_extract_epi32(
         _mm_hadd_epi32(_mm_hadd_epi32(finResult._data, finResult._data),
                        finResult._data),
         0);
-    const float resultFl = reinterpret_cast<const float &>(result);
 
-    return exponentI ? resultFl : resultFl - 0.5f;
+    return FloatFromBits(result);
   }
 
   static size_t FromFloat(float input) {
-    const size_t cvted = reinterpret_cast<uint32 &>(input);
-    const float catchDenormal = input + 0.5f;
-    const size_t cvtedDenorm = reinterpret_cast<const uint32 &>(catchDenormal);
+    const size_t cvted = BitsFromFloat(input);
     const size_t mskExp = cvted & 0x7f800000;
-    const bool isSubNorm = (cvtedDenorm & 0x3f000000) == 0x3f000000;
+    const bool isSubNorm = mskExp <= EXP_REF;
 
     size_t result =
-        (isSubNorm ? cvtedDenorm : (cvted >> (23 - _mantissa))) & MANTISSA_MASK;
+        isSubNorm
+            ? BitsFromFloat(std::abs(input) + FloatFromBits(DENORM_REF)) -
+                  DENORM_REF
+            : (cvted >> (23 - _mantissa)) & MANTISSA_MASK;
 
     if (_sign && cvted & 0x80000000) {
       result |= SIGN_MASK;
@@ -84,6 +88,15 @@ public:
     return result;
   }
 
+  static float FloatFromBits(size_t bits) {
+    return _mm_cvtss_f32(
+        _mm_castsi128_ps(_mm_cvtsi32_si128(static_cast<int32>(bits))));
+  }
+
+  static uint32 BitsFromFloat(float value) {
+    return _mm_cvtsi128_si32(_mm_castps_si128(_mm_set_ss(value)));
+  }
+
   static const Vector4A16 _to_ps(IVector4A16 input) {
     return reinterpret_cast<const __m128 &>(input);
   }
@@ -100,17 +113,16 @@ public:
     const IVector4A16 mskExp(cvted & 0x7f800000);
     const IVector4A16 shtMant(cvted >> (23 - _mantissa));
 
-    value += 0.5f;
-    const IVector4A16 cvtedDenorm = _to_se(value);
-    const IVector4A16 mskExpDenorm(cvtedDenorm & 0x7f800000);
+    const IVector4A16 denormRef(static_cast<int32>(DENORM_REF));
+    const IVector4A16 cvtedDenorm =
+        _to_se(_to_ps(cvted & 0x7fffffff) + _to_ps(denormRef)) - denormRef;
 
-    const IVector4A16 denormMask(
-        _mm_cmpeq_epi32(mskExpDenorm._data, IVector4A16(0x3f000000)._data));
+    const IVector4A16 denormMask(_mm_cmplt_epi32(
+        mskExp._data, IVector4A16(static_cast<int32>(EXP_REF) + 1)._data));
 
-    const Vector4A16 blendMant(_mm_blendv_ps(_to_ps(shtMant)._data,
-                                             _to_ps(cvtedDenorm)._data,
-                                             _to_ps(denormMask)._data));
-    const IVector4A16 maskedMant(_to_se(blendMant) & MANTISSA_MASK);
+    const IVector4A16 maskedMant = _to_se(_mm_blendv_ps(
+        _to_ps(shtMant & MANTISSA_MASK)._data, _to_ps(cvtedDenorm)._data,
+        _to_ps(denormMask)._data));
 
     const IVector4A16 nanMask(
         _mm_cmpeq_epi32(mskExp._data, IVector4A16(0x7f800000)._data));
@@ -142,14 +154,15 @@ public:
                                mantissa);
 
     const auto imNANNZ = _mm_blendv_ps(_to_ps(nzResult)._data,
-                                       _to_ps(IVector4A16(0x7f800000))._data,
+                                       _to_ps(mantissa | 0x7f800000)._data,
                                        _to_ps(exponentMask)._data);
 
     const IVector4A16 denormMask(
         _mm_cmpeq_epi32(exponentI._data, IVector4A16()._data));
 
-    const IVector4A16 denormResult0((value & MANTISSA_MASK) | 0x3f000000);
-    const Vector4A16 denormResult1(_to_ps(denormResult0) - 0.5f);
+    const IVector4A16 denormRef(static_cast<int32>(DENORM_REF));
+    const IVector4A16 denormResult0((value & MANTISSA_MASK) | denormRef);
+    const Vector4A16 denormResult1(_to_ps(denormResult0) - _to_ps(denormRef));
 
     const IVector4A16 finalResult(_to_se(
         _mm_blendv_ps(imNANNZ, denormResult1._data, _to_ps(denormMask)._data)));
@@ -162,7 +175,7 @@ typedef esFloat<10, 5, true> float16;
 
 struct VectorR11G11B10_UFLOAT {
   uint32 data;
-  typedef esFloat<11, 5, false> codec_type;
+  typedef esFloat<6, 5, false> codec_type;
 
   operator Vector4A16() const {
     const IVector4A16 input0(IVector4A16(data) *
-- 
2.43.0


From ab351847ac3809f271e78a589a4b649ab2f697a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:12 +0000
Subject: [PATCH 005/121] fix: keep text access to bit-field members inside the
 member

---
 datas/reflector.cpp | 51 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 1ef44b2..f9ff912 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -105,7 +105,7 @@ template <class type> struct LimitProxy<BFTag<type>> {
   const int64 iMin;
 
   LimitProxy(size_t numBits_)
-      : numBits(numBits_), uMax((1 << numBits) - 1), iMax(uMax >> 1),
+      : numBits(numBits_), uMax(~0ULL >> (64 - numBits)), iMax(uMax >> 1),
         iMin(~iMax) {}
 };
 
@@ -196,6 +196,36 @@ static Reflector::ErrorType SetBoolean(std::string input, bool &output) {
   return Reflector::ErrorType::None;
 }
 
+// A bit-field member description does not carry size of the bit-field storage,
+// so only bytes occupied by the member itself can be accessed.
+struct BitFieldMemberAccess {
+  size_t byteOffset;
+  size_t numBytes;
+  size_t shift;
+  uint64 mask;
+
+  BitFieldMemberAccess(const reflType &type)
+      : byteOffset(type.offset / 8),
+        numBytes((type.offset + type.subSize - 1) / 8 - byteOffset + 1),
+        shift(type.offset % 8),
+        mask((~0ULL >> (64 - type.subSize)) << shift) {}
+
+  uint64 Load(const char *objAddr) const {
+    uint64 value = 0;
+    memcpy(&value, objAddr + byteOffset, numBytes);
+    return value;
+  }
+
+  uint64 Get(const char *objAddr) const {
+    return (Load(objAddr) & mask) >> shift;
+  }
+
+  void Set(char *objAddr, uint64 input) const {
+    const uint64 value = (Load(objAddr) & ~mask) | ((input << shift) & mask);
+    memcpy(objAddr + byteOffset, &value, numBytes);
+  }
+};
+
 static uint64 GetEnumValue(es::string_view input, JenHash hash,
                            ReflectedEnum **rEnumFallback = nullptr) {
   ReflectedEnum &rEnum = rEnumFallback && *rEnumFallback
@@ -454,17 +484,15 @@ SetReflectedMember(reflType reflValue, es::string_view value, char *objAddr) {
     }
   }
   case REFType::BitFieldMember: {
-    uint64 &output = *reinterpret_cast<uint64 *>(objAddr);
     auto doStuff = [&](auto &&insertVal) {
       LimitProxy<typename std::remove_reference<decltype(insertVal)>::type>
           proxy{reflValue.subSize};
       auto err = SetNumber(value, insertVal, std::true_type{}, proxy);
-      BitMember bfMember;
-      bfMember.size = reflValue.subSize;
-      bfMember.position = reflValue.offset;
-      auto mask = bfMember.GetMask<uint64>();
-      output &= ~mask;
-      output |= insertVal.value << reflValue.offset;
+
+      if (err != Reflector::ErrorType::InvalidFormat) {
+        BitFieldMemberAccess(reflValue).Set(objAddr, insertVal.value);
+      }
+
       return err;
     };
 
@@ -794,12 +822,7 @@ static std::string GetReflectedPrimitive(const char *objAddr, reflType type) {
     return _tmpBuffer;
   }
   case REFType::BitFieldMember: {
-    uint64 output = *reinterpret_cast<const uint64 *>(objAddr);
-    BitMember bfMember;
-    bfMember.size = type.subSize;
-    bfMember.position = type.offset;
-    auto mask = bfMember.GetMask<uint64>();
-    output = (output & mask) >> bfMember.position;
+    const uint64 output = BitFieldMemberAccess(type).Get(objAddr);
 
     if (type.subType == REFType::UnsignedInteger) {
       return std::to_string(output);
-- 
2.43.0


From ec8fe40384f954f340c5533f415c87726058d5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:15 +0000
Subject: [PATCH 006/121] fix: check element indices of text assignments and
 let them set single flags

---
 datas/reflector.cpp | 37 +++++++++++++++++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index f9ff912..d320ef5 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -535,6 +535,32 @@ Reflector::ErrorType Reflector::SetReflectedValue(reflType type,
                                                   size_t subID) {
   auto inst = GetReflectedInstance();
   char *thisAddr = static_cast<char *>(inst.instance);
+
+  if (type.type == REFType::EnumFlags) {
+    if (subID >= type.subSize * 8) {
+      printerror("[Reflector] Too many flags, " << type.subSize * 8
+                                                << " expected.");
+      return ErrorType::OutOfRange;
+    }
+
+    bool flagValue;
+    const ErrorType errType = SetBoolean(es::TrimWhitespace(value), flagValue);
+
+    if (errType == ErrorType::None) {
+      char &flagByte = thisAddr[type.offset + subID / 8];
+      const char flagMask = static_cast<char>(1 << (subID % 8));
+      flagByte = flagValue ? flagByte | flagMask : flagByte & ~flagMask;
+    }
+
+    return errType;
+  }
+
+  if (subID >= type.numItems) {
+    printerror("[Reflector] Too many array elements, " << type.numItems
+                                                       << " expected.");
+    return ErrorType::OutOfRange;
+  }
+
   thisAddr += type.offset + type.subSize * subID;
   type.type = type.subType;
 
@@ -565,14 +591,21 @@ Reflector::ErrorType Reflector::SetReflectedValue(reflType type,
 
   auto inst = GetReflectedInstance();
   char *thisAddr = static_cast<char *>(inst.instance);
+
+  if (subID >= type.numItems) {
+    printerror("[Reflector] Too many array elements, " << type.numItems
+                                                       << " expected.");
+    return ErrorType::OutOfRange;
+  }
+
   thisAddr += type.offset + type.subSize * subID;
 
   if (!enumFlags) {
     _DecomposedVectorHash dec = {type.typeHash};
     type.subSize = dec.size;
 
-    if (element >= dec.size) {
-      printerror("[Reflector] Too many vector elements, " << dec.size
+    if (element >= dec.numItems) {
+      printerror("[Reflector] Too many vector elements, " << dec.numItems
                                                           << " expected.");
       return ErrorType::OutOfRange;
     }
-- 
2.43.0


From c4a0569a46394aaf307cf5b815e6e9a385a8b6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 007/121] fix: report failed array elements and do not assign
 behind the last one

---
 datas/reflector.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index d320ef5..a38aa42 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -369,6 +369,7 @@ static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
     return Reflector::ErrorType::EmptyInput;
   }
 
+  Reflector::ErrorType errType = Reflector::ErrorType::None;
   size_t curElement = 0;
   auto curIter = value.begin();
   reflType subVal = reflValue;
@@ -403,20 +404,29 @@ static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
         return Reflector::ErrorType::ShortInput;
       }
 
-      if (!cValue.empty() && curElement >= reflValue.numItems) {
+      // Only a separator was left behind the last element
+      if (cValue.empty()) {
+        break;
+      }
+
+      if (curElement >= reflValue.numItems) {
         printerror("[Reflector] Too many array elements, " << reflValue.numItems
                                                            << " expected.");
         return Reflector::ErrorType::OutOfRange;
       }
 
-      SetReflectedMember(subVal, cValue,
-                         objAddr + (reflValue.subSize * curElement));
+      const auto subErrType = SetReflectedMember(
+          subVal, cValue, objAddr + (reflValue.subSize * curElement));
+
+      if (subErrType != Reflector::ErrorType::None)
+        errType = subErrType;
+
       curIter = it + 1;
       curElement++;
     }
   }
 
-  return Reflector::ErrorType::None;
+  return errType;
 }
 
 static Reflector::ErrorType
-- 
2.43.0


From d2ce7ac889951a972a039014e12bdc4c3daefd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 008/121] fix: report text assigned to members that cannot take
 it

---
 datas/reflector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index a38aa42..39f11c5 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -524,7 +524,7 @@ SetReflectedMember(reflType reflValue, es::string_view value, char *objAddr) {
   case REFType::ArrayClass:
     return SetReflectedArray(startBrace, endBrace, objAddr, value, reflValue);
   default:
-    break;
+    return Reflector::ErrorType::InvalidDestination;
   }
 
   return errType;
-- 
2.43.0


From 61d8fea7399ab3287476d06582cac02abe33e635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:02 +0000
Subject: [PATCH 009/121] fix: keep sign of numbers too small for a floating
 point member

---
 datas/reflector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 39f11c5..2ea7ee9 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -74,7 +74,7 @@ static Reflector::ErrorType SetNumber(const std::string &input, T &output,
 
     double fVal = atof(input.c_str());
 
-    if (fVal > 0)
+    if (!std::signbit(fVal))
       output = fVal > 1.0 ? fMax : fMin;
     else
       output = fVal < -1.0 ? -fMax : -fMin;
-- 
2.43.0


From 719533a7178b9e7c87fbab785f15490a2077b326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:29 +0000
Subject: [PATCH 010/121] fix: keep leading blanks of text assigned to a string

---
 datas/reflector.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 2ea7ee9..0d9b18f 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -434,7 +434,10 @@ SetReflectedMember(reflType reflValue, es::string_view value, char *objAddr) {
   Reflector::ErrorType errType = Reflector::ErrorType::None;
   char startBrace = 0;
   char endBrace = 0;
-  value = es::SkipStartWhitespace(value);
+
+  if (reflValue.type != REFType::String) {
+    value = es::SkipStartWhitespace(value);
+  }
 
   switch (reflValue.type) {
   case REFType::Array:
-- 
2.43.0


From 28fd2a4bdef645fad7548c6287e8785c2b469683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:00 +0000
Subject: [PATCH 011/121] fix: close quotes in arrays and report an element
 that is not terminated

---
 datas/reflector.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 0d9b18f..6e4bb11 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -386,10 +386,13 @@ static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
   for (auto it = value.begin(); it != value.end(); it++) {
     const bool isEnding = std::next(it) == value.end();
 
-    if ((*it == ']' || *it == '"' || *it == ')' || *it == '}') && localScope)
-      localScope = false;
+    if (localScope) {
+      if (*it != ']' && *it != '"' && *it != ')' && *it != '}') {
+        continue;
+      }
 
-    if (localScope || *it == '[' || *it == '"' || *it == '(' || *it == '{') {
+      localScope = false;
+    } else if (*it == '[' || *it == '"' || *it == '(' || *it == '{') {
       localScope = true;
       continue;
     }
@@ -426,6 +429,11 @@ static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
     }
   }
 
+  if (localScope) {
+    printerror("[Reflector] Array element is not terminated.");
+    return Reflector::ErrorType::InvalidFormat;
+  }
+
   return errType;
 }
 
-- 
2.43.0


From 7635fa570997b6fba18bbbbaf0a6b0a0bbd12f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:53 +0000
Subject: [PATCH 012/121] fix: evaluate signed hexadecimal and octal enumerator
 values

---
 datas/internal/reflector_enum_reg.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/datas/internal/reflector_enum_reg.hpp b/datas/internal/reflector_enum_reg.hpp
index eb93e75..23a3fdb 100644
--- a/datas/internal/reflector_enum_reg.hpp
+++ b/datas/internal/reflector_enum_reg.hpp
@@ -44,9 +44,8 @@ template <class E> static void _REnumInitializer() {
     cName.remove_prefix(1);
     cName = es::SkipStartWhitespace(cName);
 
-    const int _base = !cName.compare(0, 2, "0x") ? 16 : 10;
-
-    uint64 resVal = std::strtoull(cName.data(), nullptr, _base);
+    // Base is resolved from prefix, same as compiler does (even after a sign)
+    uint64 resVal = std::strtoull(cName.data(), nullptr, 0);
     lastValue = resVal + 1;
     rEnumValues[t] = resVal;
   }
-- 
2.43.0


From ad3f9a2601dedcd2733a68eafe7461f2f648c5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:20 +0000
Subject: [PATCH 013/121] fix: do not find members without an alias by an empty
 name

---
 datas/reflector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 6e4bb11..e13dd80 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -35,7 +35,8 @@ const reflType *Reflector::GetReflectedType(const JenHash hash) const {
     if (inst->types[t].valueNameHash == hash)
       return GetReflectedType(t);
 
-  if (inst->typeAliasHashes)
+  // Empty hash marks a member without an alias
+  if (inst->typeAliasHashes && hash != JenHash{})
     for (size_t t = 0; t < _ntypes; t++)
       if (inst->typeAliasHashes[t] == hash)
         return GetReflectedType(t);
-- 
2.43.0


From 7c5526db648aafe97943e00b455cf3ee6b120b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:45 +0000
Subject: [PATCH 014/121] fix: report array elements that follow an empty one
 behind the end

---
 datas/reflector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index e13dd80..ef74e12 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -409,7 +409,7 @@ static Reflector::ErrorType SetReflectedArray(char startBrace, char endBrace,
       }
 
       // Only a separator was left behind the last element
-      if (cValue.empty()) {
+      if (cValue.empty() && isEnding) {
         break;
       }
 
-- 
2.43.0


From af979b9d6322af29782cfedfad61e539eee7d114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 015/121] fix: read flags above the first 31 of a flag set

---
 datas/reflector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index ef74e12..ece5015 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -1003,7 +1003,7 @@ std::string Reflector::GetReflectedValue(size_t id, size_t subID) const {
 
     memcpy(reinterpret_cast<char *>(&eValue), objAddr, reflValue.subSize);
 
-    return (eValue & (1 << subID)) ? "true" : "false";
+    return (eValue & (1ULL << subID)) ? "true" : "false";
   }
 
   default:
@@ -1052,7 +1052,7 @@ std::string Reflector::GetReflectedValue(size_t id, size_t subID,
     memcpy(reinterpret_cast<char *>(&eValue),
            objAddr + reflValue.subSize * subID, reflValue.subSize);
 
-    return (eValue & (1 << element)) ? "true" : "false";
+    return (eValue & (1ULL << element)) ? "true" : "false";
   }
 
   default:
-- 
2.43.0


From a4b32d156b3cc851e4cde76e5078d620434f6a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:39 +0000
Subject: [PATCH 016/121] fix: print names of negative enumerators

---
 datas/reflector.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index ece5015..ff2fe81 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -739,7 +739,8 @@ Reflector::ErrorType Reflector::SetReflectedValueFloat(reflType reflValue,
 }
 
 static es::string_view PrintEnumValue(JenHash hash, uint64 value,
-                                      ReflectedEnum **rEnumFallback = nullptr) {
+                                      ReflectedEnum **rEnumFallback = nullptr,
+                                      uint64 valueMask = ~0ULL) {
   ReflectedEnum &rEnum = rEnumFallback && *rEnumFallback
                              ? **rEnumFallback
                              : REFEnumStorage.at(hash);
@@ -748,8 +749,10 @@ static es::string_view PrintEnumValue(JenHash hash, uint64 value,
     *rEnumFallback = &rEnum;
 
   const uint64 *valuesEnd = rEnum.values + rEnum.size();
-  const uint64 *foundItem = std::find_if(
-      rEnum.values, valuesEnd, [value](uint64 item) { return item == value; });
+  const uint64 *foundItem =
+      std::find_if(rEnum.values, valuesEnd, [value, valueMask](uint64 item) {
+        return (item & valueMask) == value;
+      });
 
   if (foundItem == valuesEnd) {
     throw std::range_error("[Reflector] Enum value not found: " +
@@ -764,7 +767,8 @@ static std::string PrintEnum(const char *objAddr, JenHash hash, uint16 elSize) {
 
   memcpy(reinterpret_cast<char *>(&eValue), objAddr, elSize);
 
-  return PrintEnumValue(hash, eValue);
+  // Negative enumerators are stored sign extended
+  return PrintEnumValue(hash, eValue, nullptr, ~0ULL >> (64 - elSize * 8));
 }
 
 static std::string PrintEnumFlags(const char *objAddr, JenHash hash,
-- 
2.43.0


From 9d03ea7d6b14e1b1896c9a70bd129c597eeb7cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 017/121] fix: read text of the string a member points to, not
 of the pointer

---
 datas/reflector.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index ff2fe81..5728212 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -914,8 +914,10 @@ static std::string GetReflectedPrimitive(const char *objAddr, reflType type) {
     break;
   }
 
-  case REFType::CString:
-    return objAddr;
+  case REFType::CString: {
+    auto string = *reinterpret_cast<const char *const *>(objAddr);
+    return string ? string : "";
+  }
 
   case REFType::String:
     return *reinterpret_cast<const std::string *>(objAddr);
-- 
2.43.0


From 01fc54fb38a711503fec5cf3ef406134a935b7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:52 +0000
Subject: [PATCH 018/121] fix: format pairs of classes without aliases and
 descriptions

---
 datas/internal/reflector.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datas/internal/reflector.inl b/datas/internal/reflector.inl
index e1ef85e..3a09182 100644
--- a/datas/internal/reflector.inl
+++ b/datas/internal/reflector.inl
@@ -214,14 +214,16 @@ Reflector::GetReflectedPair(size_t id, const KVPairFormat &settings) const {
   const auto refInt = GetReflectedInstance().rfStatic;
 
   if (UseNames()) {
-    if (settings.aliasName && refInt->typeAliases[id]) {
+    if (settings.aliasName && refInt->typeAliases &&
+        refInt->typeAliases[id]) {
       retval.name = refInt->typeAliases[id];
     } else {
       retval.name = refInt->typeNames[id];
     }
   }
 
-  if (settings.formatValue && !refInt->typeDescs[id].part1.empty()) {
+  if (settings.formatValue && refInt->typeDescs &&
+      !refInt->typeDescs[id].part1.empty()) {
     retval.value =
         refInt->typeDescs[id].part1.to_string() + ' ' + GetReflectedValue(id);
 
-- 
2.43.0


From d94131ff424b6208d4d53c08f7eb0dfc0cd20a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 019/121] fix: count 87 and 88 macro arguments

---
 datas/macroLoop.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/macroLoop.hpp b/datas/macroLoop.hpp
index 22e6b1f..23a5b99 100644
--- a/datas/macroLoop.hpp
+++ b/datas/macroLoop.hpp
@@ -20,7 +20,7 @@
 #pragma once
 #define VA_NARGS_IMPL(_1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, _14,_15,_16,_17,_18,_19,_20,_21,_22,_23,_24,_25,_26,_27,_28,_29,_30,_31,_32,_33,_34,_35,_36,_37,_38,_39,_40,_41,_42,_43,_44,_45,_46,_47,_48,_49,_50,_51,_52,_53,_54,_55,_56,_57,_58,_59,_60,_61,_62,_63,_64,_65,_66,_67,_68,_69,_70,_71,_72,_73,_74,_75,_76,_77,_78,_79,_80,_81,_82,_83,_84,_85,_86,_87,_88,_89, N, ...) N
 #define VA_NARGS_EVAL(x) x
-#define VA_NARGS(...) VA_NARGS_EVAL(VA_NARGS_IMPL(__VA_ARGS__,89,87,88,86,85,84,83,82,81,80,79,78,77,76,75,74,73,72,71,70,69,68,67,66,65,64,63,62,61,60,59,58,57,56,55,54,53,52,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1))
+#define VA_NARGS(...) VA_NARGS_EVAL(VA_NARGS_IMPL(__VA_ARGS__,89,88,87,86,85,84,83,82,81,80,79,78,77,76,75,74,73,72,71,70,69,68,67,66,65,64,63,62,61,60,59,58,57,56,55,54,53,52,51,50,49,48,47,46,45,44,43,42,41,40,39,38,37,36,35,34,33,32,31,30,29,28,27,26,25,24,23,22,21,20,19,18,17,16,15,14,13,12, 11, 10, 9, 8, 7, 6, 5, 4, 3, 2, 1))
 
 #define _LOOPER_CAT1(c1,c2) c1##c2
 #define _LOOPER_CAT2(c1,c2) _LOOPER_CAT1(c1, c2)
-- 
2.43.0


From e4a88bc334e8c6d9daecd0ec8d1bcb0407e59786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 020/121] fix: name of classes declared without names is empty

---
 datas/internal/reflector.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datas/internal/reflector.inl b/datas/internal/reflector.inl
index 3a09182..b3a3098 100644
--- a/datas/internal/reflector.inl
+++ b/datas/internal/reflector.inl
@@ -248,7 +248,9 @@ Reflector::GetReflectedPair(JenHash hash, const KVPairFormat &settings) const {
 }
 
 inline es::string_view Reflector::GetClassName() const {
-  return GetReflectedInstance().rfStatic->className;
+  const char *className = GetReflectedInstance().rfStatic->className;
+
+  return className ? es::string_view(className) : es::string_view();
 }
 
 inline bool Reflector::IsReflectedSubClass(JenHash hash) const {
-- 
2.43.0


From c8dec3749e22a47a6cf6ed5cbad9e37a335d00c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 021/121] fix: save reflected objects in the byte order of the
 stream

---
 datas/reflector_io.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index d142d75..d8bdcfb 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -503,6 +503,7 @@ static int SaveClass(const Reflector &ri, ReflectedInstanceFriend inst,
   std::stringstream tmpClassBuffer;
 
   BinWritterRef wrTmpClass(tmpClassBuffer);
+  wrTmpClass.SwapEndian(wr.SwappedEndian());
   wrTmpClass.Write(numItems);
 
   for (size_t i = 0; i < numItems; i++) {
@@ -510,6 +511,7 @@ static int SaveClass(const Reflector &ri, ReflectedInstanceFriend inst,
 
     std::stringstream tmpValueBuffer;
     BinWritterRef wrTmp(tmpValueBuffer);
+    wrTmp.SwapEndian(wr.SwappedEndian());
 
     int rVal = WriteDataItem(ri, wrTmp, thisAddr + refData->types[i].offset,
                              refData->types[i]);
-- 
2.43.0


From ab5a0aad3643da88788bf2502cba420de8a93c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:39 +0000
Subject: [PATCH 022/121] fix: save classes nested deeper than one level

---
 datas/reflector_io.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index d8bdcfb..68b337e 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -422,8 +422,7 @@ public:
   using Reflector::GetReflectedType;
 };
 
-static int SaveClass(const Reflector &ri, ReflectedInstanceFriend inst,
-                     BinWritterRef wr);
+static int SaveClass(ReflectedInstanceFriend inst, BinWritterRef wr);
 
 static int WriteDataItem(const Reflector &ri, BinWritterRef wr,
                          const char *objAddr, reflType type) {
@@ -488,15 +487,16 @@ static int WriteDataItem(const Reflector &ri, BinWritterRef wr,
   case REFType::Class: {
     auto sri = static_cast<ReflectedInstanceFriend &&>(
         ri.GetReflectedSubClass(type.ID, type.numItems));
-    return SaveClass(ri, sri, wr);
+    return SaveClass(sri, wr);
   }
   default:
     return 1;
   }
 }
 
-static int SaveClass(const Reflector &ri, ReflectedInstanceFriend inst,
-                     BinWritterRef wr) {
+static int SaveClass(ReflectedInstanceFriend inst, BinWritterRef wr) {
+  // Sub classes are looked up within the class that holds them
+  const ReflectorPureWrap ri(inst);
   auto refData = inst.Refl();
   const buint128 numItems = refData->nTypes;
   const char *thisAddr = static_cast<const char *>(inst.Instance());
@@ -537,7 +537,7 @@ int ReflectorBinUtil::Save(const Reflector &ri, BinWritterRef wr) {
 
   wr.Write(refData->classHash);
 
-  return SaveClass(ri, inst, wr);
+  return SaveClass(inst, wr);
 }
 
 static int LoadClass(ReflectedInstanceFriend inst, BinReaderRef rd);
-- 
2.43.0


From 1b8c607f057d6fe2d70eb7a1a27c44040d56b761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:04 +0000
Subject: [PATCH 023/121] fix: keep loading of reflected objects within their
 saved data and report errors of any member

---
 datas/reflector_io.cpp | 69 ++++++++++++++++++++++++++++--------------
 1 file changed, 46 insertions(+), 23 deletions(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index 68b337e..2090c12 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -542,6 +542,22 @@ int ReflectorBinUtil::Save(const Reflector &ri, BinWritterRef wr) {
 
 static int LoadClass(ReflectedInstanceFriend inst, BinReaderRef rd);
 
+// Data of a class or a value are kept apart, so damaged or differently typed
+// values cannot affect what follows them.
+static bool ReadChunk(BinReaderRef rd, std::stringstream &chunk) {
+  buint128 chunkSize;
+  rd.Read(chunkSize);
+
+  if (rd.IsEOF() || chunkSize > rd.GetSize() - rd.Tell())
+    return false;
+
+  std::string buffer;
+  rd.ReadContainer(buffer, static_cast<size_t>(chunkSize));
+  chunk.str(buffer);
+
+  return true;
+}
+
 static int LoadDataItem(Reflector &ri, BinReaderRef rd, char *objAddr,
                         reflType type) {
   switch (type.type) {
@@ -595,7 +611,13 @@ static int LoadDataItem(Reflector &ri, BinReaderRef rd, char *objAddr,
 
   case REFType::String: {
     std::string *rStr = reinterpret_cast<std::string *>(objAddr);
-    rd.ReadContainer(*rStr);
+    uint32 strSize = 0;
+    rd.Read(strSize);
+
+    if (rd.IsEOF() || strSize > rd.GetSize() - rd.Tell())
+      return 1;
+
+    rd.ReadContainer(*rStr, strSize);
     return 0;
   }
 
@@ -613,45 +635,46 @@ static int LoadClass(ReflectedInstanceFriend inst, BinReaderRef rd) {
   auto refData = inst.Refl();
   const uint32 numItems = refData->nTypes;
   char *thisAddr = static_cast<char *>(inst.Instance());
-  buint128 chunkSize;
-  rd.Read(chunkSize);
-  rd.Push();
+  std::stringstream classChunk;
 
+  if (!ReadChunk(rd, classChunk))
+    return 1;
+
+  BinReaderRef rdClass(classChunk);
+  rdClass.SwapEndian(rd.SwappedEndian());
   buint128 numIOItems;
-  rd.Read(numIOItems);
+  rdClass.Read(numIOItems);
 
-  if (numIOItems != numItems) {
-    rd.Pop();
-    rd.Skip(chunkSize);
+  if (classChunk.fail() || numIOItems != numItems)
     return 1;
-  }
 
   int errType = 0;
 
   for (uint32 i = 0; i < numItems; i++) {
-    BinReaderRef rf(rd);
     JenHash valueNameHash;
-    buint128 valueChunkSize;
-    rd.Read(valueNameHash);
-    rd.Read(valueChunkSize);
-    rd.Push();
+    std::stringstream valueChunk;
+    rdClass.Read(valueNameHash);
+
+    if (!ReadChunk(rdClass, valueChunk))
+      return 1;
 
     ReflectorPureWrap ri(inst);
     auto &&rif = static_cast<ReflectorFriend &>(static_cast<Reflector &>(ri));
     const reflType *cType = rif.GetReflectedType(valueNameHash);
 
-    if (!cType) {
-      rd.Pop();
-      rd.Skip(valueChunkSize);
+    if (!cType)
       continue;
-    }
 
-    errType = LoadDataItem(ri, rf, thisAddr + cType->offset, *cType);
+    BinReaderRef rdValue(valueChunk);
+    rdValue.SwapEndian(rd.SwappedEndian());
 
-    if (errType) {
-      rd.Pop();
-      rd.Skip(valueChunkSize);
-    }
+    const int valueError =
+        LoadDataItem(ri, rdValue, thisAddr + cType->offset, *cType);
+
+    if (valueError)
+      errType = valueError;
+    else if (valueChunk.fail())
+      errType = 1;
   }
 
   return errType;
-- 
2.43.0


From 05bf50d568b98d1347ae7b326822699aec1a2ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:04 +0000
Subject: [PATCH 024/121] fix: save and load alias hashes of type descriptions

---
 datas/reflector_io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index 2090c12..6c0b9d3 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -148,7 +148,7 @@ int ReflectorIO::Load(BinReaderRef rd) {
     }
 
     if (itemIO->aliassesHashesPtr) {
-      itemPtrsBegin[3] = bufferStart + itemIO->aliassesHashesPtr;
+      itemPtrsBegin[4] = bufferStart + itemIO->aliassesHashesPtr;
     } else {
       itemPtrsBegin[4] = 0;
     }
@@ -404,6 +404,7 @@ int ReflectorIO::Save(BinWritterRef wr) {
   itemStringsFixups.WriteFixups();
   classnamesFixups.WriteFixups();
   aliasesFixups.WriteFixups();
+  aliasHashesFixups.WriteFixups();
   descsFixups.WriteFixups();
   wr.Seek(0, std::ios_base::end);
 
-- 
2.43.0


From 0021df291f992006649ba92dd010365e05544ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:07 +0000
Subject: [PATCH 025/121] fix: save type descriptions at any position of a
 stream

---
 datas/reflector_io.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index 6c0b9d3..4f71145 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -213,6 +213,8 @@ int ReflectorIO::Save(BinWritterRef wr) {
   ReflectorIOHeader hdr;
   hdr.numClasses = static_cast<uint32>(classes.size());
   hdr.numEnums = static_cast<uint32>(enums.size());
+  wr.ResetRelativeOrigin(false);
+  const size_t headerPosition = wr.Tell();
   wr.Write(hdr);
   wr.SetRelativeOrigin(wr.Tell(), false);
 
@@ -398,7 +400,8 @@ int ReflectorIO::Save(BinWritterRef wr) {
   }
 
   hdr.bufferSize = static_cast<uint32>(wr.Tell());
-  wr.ResetRelativeOrigin();
+  wr.ResetRelativeOrigin(false);
+  wr.Seek(headerPosition);
   wr.Write(hdr);
   itemFixups.WriteFixups();
   itemStringsFixups.WriteFixups();
-- 
2.43.0


From 9e92e3410e186dd1e9c3a2017f0fee7550b6dd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:07 +0000
Subject: [PATCH 026/121] fix: drop previous type descriptions when loading
 others

---
 datas/reflector_io.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datas/reflector_io.cpp b/datas/reflector_io.cpp
index 4f71145..dba3776 100644
--- a/datas/reflector_io.cpp
+++ b/datas/reflector_io.cpp
@@ -93,6 +93,9 @@ int ReflectorIO::Load(BinReaderRef rd) {
   if (hdr.version > hdr.VERSION)
     return 2;
 
+  // Previous descriptions refer to data that are about to be replaced
+  classes.clear();
+  enums.clear();
   rd.ReadContainer(data, hdr.bufferSize);
 
   const reflectorStatic *classesStart =
-- 
2.43.0


From 19e91a03293b650395dd87c759b29cf8b3f9d530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:43 +0000
Subject: [PATCH 027/121] fix: write text of members to XML as text

---
 datas/reflector_xml.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index 2ffaea4..09acf51 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -150,7 +150,7 @@ pugi::xml_node ReflectorXMLUtil::Save(const Reflector &ri, pugi::xml_node node,
       }
     } else {
       std::string str = ri.GetReflectedValue(t);
-      cNode.append_buffer(str.c_str(), str.size());
+      cNode.append_child(pugi::node_pcdata).set_value(str.c_str());
     }
   }
 
@@ -259,14 +259,14 @@ pugi::xml_node ReflectorXMLUtil::SaveV2a(const Reflector &ri,
       default: {
         pugi::xml_node cNode = thisNode.append_child(varName.c_str());
         std::string str = ri.GetReflectedValue(t);
-        cNode.append_buffer(str.c_str(), str.size());
+        cNode.append_child(pugi::node_pcdata).set_value(str.c_str());
         break;
       }
       }
     } else {
       pugi::xml_node cNode = thisNode.append_child(varName.c_str());
       std::string str = ri.GetReflectedValue(t);
-      cNode.append_buffer(str.c_str(), str.size());
+      cNode.append_child(pugi::node_pcdata).set_value(str.c_str());
     }
   }
 
-- 
2.43.0


From 81769b05c90d59075e1750ec8027afd0c888703d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:05 +0000
Subject: [PATCH 028/121] fix: write whole XML names of members without names

---
 datas/reflector_xml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index 09acf51..608fad5 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -97,7 +97,7 @@ static pugi::xml_node MakeNode(const Reflector &ri, const reflectorStatic *stat,
   else {
     className.resize(15);
     const auto cHash = stat->classHash.raw();
-    snprintf(&className[0], 15, "h:%X", cHash);
+    className.resize(snprintf(&className[0], 15, "h:%X", cHash));
   }
 
   return node.append_child(className.c_str());
@@ -112,7 +112,7 @@ static std::string GetName(const Reflector &ri, const reflectorStatic *stat,
   } else {
     varName.resize(15);
     const auto cHash = cType.valueNameHash.raw();
-    snprintf(&varName[0], 15, "h:%X", cHash);
+    varName.resize(snprintf(&varName[0], 15, "h:%X", cHash));
   }
 
   return varName;
-- 
2.43.0


From 1543c08279864c92042ca81ef20888feba257ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:02 +0000
Subject: [PATCH 029/121] fix: skip XML nodes of unknown members

---
 datas/reflector_xml.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index 608fad5..33e10e8 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -348,6 +348,10 @@ pugi::xml_node ReflectorXMLUtil::LoadV2(Reflector &ri, pugi::xml_node node,
 
     auto refType = rif.GetReflectedType(node.hash);
 
+    if (!refType) {
+      continue;
+    }
+
     auto DoVector = [&] {
       for (auto t : a.attributes()) {
         size_t element = -1;
-- 
2.43.0


From 1a9ead524ff4ae194b8ee719a7e78390bd4c3c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:05 +0000
Subject: [PATCH 030/121] fix: skip XML nodes of array elements that do not
 exist

---
 datas/reflector_xml.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index 33e10e8..da49edd 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -19,6 +19,7 @@
 #include "reflector_xml.hpp"
 #include "master_printer.hpp"
 #include "pugiex.hpp"
+#include <cstring>
 
 struct ReflectedInstanceFriend : ReflectedInstance {
   void *Instance() { return instance; }
@@ -281,6 +282,12 @@ pugi::xml_node ReflectorXMLUtil::LoadV2(Reflector &ri, pugi::xml_node node,
           .Refl();
   pugi::xml_node thisNode;
   static constexpr size_t nan_ = -1;
+
+  // Element of an array, that does not exist
+  if (!stat) {
+    return thisNode;
+  }
+
   struct retval {
     JenHash hash;
     size_t index = nan_;
@@ -441,6 +448,11 @@ pugi::xml_node ReflectorXMLUtil::Load(Reflector &ri, pugi::xml_node node,
           .Refl();
   pugi::xml_node thisNode;
 
+  // Element of an array, that does not exist
+  if (!stat) {
+    return thisNode;
+  }
+
   auto MakeHash = [](es::string_view name) -> JenHash {
     if (name[0] == 'h' && name[1] == ':') {
       name.remove_prefix(2);
@@ -468,6 +480,10 @@ pugi::xml_node ReflectorXMLUtil::Load(Reflector &ri, pugi::xml_node node,
     if (ri.IsReflectedSubClass(hash)) {
       if (ri.IsArray(hash)) {
         for (auto sc : a.children()) {
+          if (strncmp(sc.name(), "i:", 2)) {
+            continue;
+          }
+
           auto index = atoll(sc.name() + 2);
           auto rfInst = ri.GetReflectedSubClass(hash, index);
           ReflectorPureWrap subRefl(rfInst);
-- 
2.43.0


From 2cef4c94492fc2728f33bc16bcfaddd3a64a42a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:33 +0000
Subject: [PATCH 031/121] fix: look for XML class nodes among named nodes only

---
 datas/reflector_xml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/reflector_xml.cpp b/datas/reflector_xml.cpp
index da49edd..8776183 100644
--- a/datas/reflector_xml.cpp
+++ b/datas/reflector_xml.cpp
@@ -319,7 +319,7 @@ pugi::xml_node ReflectorXMLUtil::LoadV2(Reflector &ri, pugi::xml_node node,
 
   if (lookupClassNode) {
     thisNode = node.find_child([&](pugi::xml_node nde) {
-      return !nde.empty() && MakeHash(nde.name()) == stat->classHash;
+      return *nde.name() && MakeHash(nde.name()) == stat->classHash;
     });
   } else {
     thisNode = node;
@@ -464,7 +464,7 @@ pugi::xml_node ReflectorXMLUtil::Load(Reflector &ri, pugi::xml_node node,
 
   if (lookupClassNode) {
     thisNode = node.find_child([&](pugi::xml_node nde) {
-      return !nde.empty() && MakeHash(nde.name()) == stat->classHash;
+      return *nde.name() && MakeHash(nde.name()) == stat->classHash;
     });
   } else {
     thisNode = node;
-- 
2.43.0


From ac0848a4926d1ee52248884c4ff53f86e311698f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 032/121] fix: skip whitespace without reading outside of the
 view

---
 datas/supercore.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/datas/supercore.hpp b/datas/supercore.hpp
index abb2ca6..36c1316 100644
--- a/datas/supercore.hpp
+++ b/datas/supercore.hpp
@@ -95,9 +95,9 @@ bool IsEnd(const cnt &container, const iterType &iter) {
 
 template <class sview>
 sview SkipStartWhitespace(sview input, bool inclNewLine = false) noexcept {
-  while ((input[0] == ' ' || input[0] == '\t' ||
-          (inclNewLine && input[0] == '\n')) &&
-         !input.empty())
+  while (!input.empty() &&
+         (input[0] == ' ' || input[0] == '\t' ||
+          (inclNewLine && input[0] == '\n')))
     input.remove_prefix(1);
 
   return input;
@@ -105,9 +105,9 @@ sview SkipStartWhitespace(sview input, bool inclNewLine = false) noexcept {
 
 template <class sview>
 sview SkipEndWhitespace(sview input, bool inclNewLine = false) noexcept {
-  while ((input.back() == ' ' || input.back() == '\t' ||
-          (inclNewLine && input.back() == '\n')) &&
-         !input.empty())
+  while (!input.empty() &&
+         (input.back() == ' ' || input.back() == '\t' ||
+          (inclNewLine && input.back() == '\n')))
     input.remove_suffix(1);
 
   return input;
-- 
2.43.0


From a3d5f0a2b6860a47422a5b9f2daa82866872f6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 033/121] fix: find texts at the end of string views and
 compare all their characters

---
 datas/internal/string_view.inl | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index 1322ba7..6586dd8 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -294,21 +294,17 @@ namespace es {
   inline typename basic_string_view<CharT, Traits>::size_type
   basic_string_view<CharT, Traits>::find(basic_string_view v,
                                          size_type pos) const {
-    if (v.empty() || v.size() > m_size)
+    if (v.size() > m_size)
       return npos;
 
     const size_type max_index = m_size - v.size();
 
-    for (size_type i = pos; i < max_index; ++i) {
-      size_type j = v.size() - 1;
+    for (size_type i = pos; i <= max_index; ++i) {
+      size_type j = 0;
 
-      if (!j) {
-        j = m_str[i] == v[j] ? 0 : 1;
-      } else {
-        for (;j && v[j] == m_str[i + j]; j--);
-      }
+      for (; j < v.size() && v[j] == m_str[i + j]; ++j);
 
-      if (!j)
+      if (j == v.size())
         return i;
     }
 
-- 
2.43.0


From f89de493adeaca4a49c9b189fd119709de21e91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 034/121] fix: compare forwards in backward search of string
 views

---
 datas/internal/string_view.inl | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index 6586dd8..2cafaa5 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -346,12 +346,14 @@ namespace es {
                                             size_type pos )
     const
   {
+    if( v.size() > m_size ) return npos;
+
     const size_type max_index = m_size - v.size();
 
-    for( size_type i = std::min(max_index-1,pos); i != npos; --i ) {
+    for( size_type i = std::min(max_index,pos); i != npos; --i ) {
       size_type j = 0;
       for( ; j < v.size(); ++j ) {
-        if( v[j] != m_str[i-j] ) {
+        if( v[j] != m_str[i+j] ) {
           break;
         }
       }
-- 
2.43.0


From 18159ea7599e33e9aaabea6a5d82faafdc2cdb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 035/121] fix: find_last_of in empty string views

---
 datas/internal/string_view.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index 2cafaa5..234d60b 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -442,7 +442,9 @@ namespace es {
                                                    size_type pos )
     const
   {
-    for( size_type i = std::min(m_size-1,pos); i >= 0 && i != npos; --i ) {
+    if( empty() ) return npos;
+
+    for( size_type i = std::min(m_size-1,pos); i != npos; --i ) {
       for( size_type j = 0; j < v.size(); ++j ) {
         if( v[j] == m_str[i] ) {
           return i;
-- 
2.43.0


From d323cc49c5cf13c17c70516abdee7f712861c3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 036/121] fix: compare with all characters of the set in
 find_*_not_of

---
 datas/internal/string_view.inl | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index 234d60b..8d84b33 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -491,12 +491,13 @@ namespace es {
     const
   {
     for( size_type i = pos; i < m_size; ++i ) {
-      for( size_type j = 0; j < v.size(); ++j ) {
+      size_type j = 0;
+      for( ; j < v.size(); ++j ) {
         if( v[j] == m_str[i] ) {
           break;
         }
-        return i;
       }
+      if( j == v.size() ) return i;
     }
     return npos;
   }
@@ -536,13 +537,16 @@ namespace es {
                                                        size_type pos )
     const
   {
+    if( empty() ) return npos;
+
     for( size_type i = std::min(m_size-1,pos); i != npos; --i ) {
-      for( size_type j = 0; j < v.size(); ++j ) {
+      size_type j = 0;
+      for( ; j < v.size(); ++j ) {
         if( v[j] == m_str[i] ) {
           break;
         }
-        return i;
       }
+      if( j == v.size() ) return i;
     }
     return npos;
   }
-- 
2.43.0


From 80eb7dde800df43f7e79ef6845edd8562cfa11c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 037/121] fix: copy only requested characters of string views

---
 datas/internal/string_view.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index 8d84b33..f7c58c7 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -212,9 +212,9 @@ namespace es {
                                            size_type pos )
     const
   {
-    if(pos >= m_size) throw std::out_of_range("Index out of range in basic_string_view::copy");
+    if(pos > m_size) throw std::out_of_range("Index out of range in basic_string_view::copy");
 
-    const size_type rcount = std::min(m_size - pos,count+1);
+    const size_type rcount = std::min(m_size - pos,count);
     std::copy( m_str + pos, m_str + pos + rcount, dest);
     return rcount;
   }
-- 
2.43.0


From 74da453a989135cb09c16bb6286ecba05938b7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 038/121] fix: allow substr at the end of string views

---
 datas/internal/string_view.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index f7c58c7..1bf58df 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -227,7 +227,7 @@ namespace es {
   {
     const size_type max_length = pos > m_size ? 0 : m_size - pos;
 
-    return pos < m_size ? basic_string_view<CharT,Traits>( m_str + pos, len > max_length ? max_length : len ) : throw std::out_of_range("Index out of range in basic_string_view::substr");
+    return pos <= m_size ? basic_string_view<CharT,Traits>( m_str + pos, len > max_length ? max_length : len ) : throw std::out_of_range("Index out of range in basic_string_view::substr");
   }
 
   //--------------------------------------------------------------------------
-- 
2.43.0


From c426ad8403a025460acaa3df032db8b36bb5ad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 039/121] fix: explode paths of wide characters and empty paths

---
 datas/fileinfo.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datas/fileinfo.hpp b/datas/fileinfo.hpp
index 9525952..f3f9e58 100644
--- a/datas/fileinfo.hpp
+++ b/datas/fileinfo.hpp
@@ -72,11 +72,11 @@ public:
 
   explode_type Explode() const {
     explode_type resVal;
-    const char *lastOffset = fullPath.data();
+    const T *lastOffset = fullPath.data();
     const size_t fullSize = fullPath.size();
-    const char *pathEnd = std::prev(fullPath.end()).operator->() + 1;
+    const T *pathEnd = lastOffset + fullSize;
 
-    if (*lastOffset == '/')
+    if (fullSize && *lastOffset == '/')
       lastOffset++;
 
     for (size_t c = 1; c < fullSize; c++)
-- 
2.43.0


From cbb34fee6637c47093a706148a0802201e79dc6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 040/121] fix: reset positions of path parts for empty paths

---
 datas/fileinfo.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/datas/fileinfo.hpp b/datas/fileinfo.hpp
index f3f9e58..fc1a898 100644
--- a/datas/fileinfo.hpp
+++ b/datas/fileinfo.hpp
@@ -30,8 +30,8 @@ public:
 
 private:
   string_type fullPath;
-  size_t endFolder;
-  size_t lastDot;
+  size_t endFolder = 0;
+  size_t lastDot = 0;
 
 public:
   FileInfo(stringref_type input) { Load(input); }
@@ -39,6 +39,8 @@ public:
 
   void Load(stringref_type input) {
     fullPath = input;
+    endFolder = 0;
+    lastDot = 0;
 
     if (!fullPath.size())
       return;
-- 
2.43.0


From 88b4e4f6836c32f78496c4a4d635ef52c5af1796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:05 +0000
Subject: [PATCH 041/121] fix: look for file extensions in file names only

---
 datas/fileinfo.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/fileinfo.hpp b/datas/fileinfo.hpp
index fc1a898..6f5ef4c 100644
--- a/datas/fileinfo.hpp
+++ b/datas/fileinfo.hpp
@@ -57,7 +57,7 @@ public:
     else
       endFolder = 0;
 
-    if (!lastDot || lastDot == fullPath.npos)
+    if (!lastDot || lastDot == fullPath.npos || lastDot < endFolder)
       lastDot = fullPath.size();
   }
 
-- 
2.43.0


From 2f3d5dcdca74a6c9098cd72ef54e0ea2c3a69fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:03 +0000
Subject: [PATCH 042/121] fix: catch path branches at whole folder names

---
 datas/fileinfo.hpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/datas/fileinfo.hpp b/datas/fileinfo.hpp
index 6f5ef4c..d7c8086 100644
--- a/datas/fileinfo.hpp
+++ b/datas/fileinfo.hpp
@@ -95,12 +95,23 @@ public:
 
   string_type CatchBranch(const stringref_type &path) const {
     explode_type exVec = Explode();
-    const size_t found = path.find(exVec[0]);
+    auto isSeparator = [](T c) { return c == '/' || c == '\\'; };
 
-    if (found == path.npos)
-      return string_type(path).append(GetFilenameExt());
-    else
-      return string_type(path.begin(), found - 1).append(GetFullPath());
+    if (!exVec.empty() && !exVec[0].empty()) {
+      size_t found = path.find(exVec[0]);
+
+      for (; found != path.npos; found = path.find(exVec[0], found + 1)) {
+        const size_t end = found + exVec[0].size();
+
+        if ((!found || isSeparator(path[found - 1])) &&
+            (end == path.size() || isSeparator(path[end]))) {
+          const size_t begin = fullPath[0] == '/' ? 1 : 0;
+          return string_type(path.data(), found).append(fullPath, begin, fullPath.npos);
+        }
+      }
+    }
+
+    return string_type(path).append(GetFilenameExt());
   }
 };
 
-- 
2.43.0


From c75d14d4d76c02d047053afbbf995fc9ad4ab429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:04 +0000
Subject: [PATCH 043/121] fix: compare whole file type in FileType

---
 datas/internal/stat_ix.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/internal/stat_ix.inl b/datas/internal/stat_ix.inl
index d762f3a..870a8be 100644
--- a/datas/internal/stat_ix.inl
+++ b/datas/internal/stat_ix.inl
@@ -20,9 +20,9 @@
 FileType_e FileType(const std::string &path) {
   struct stat s;
   if (!stat(path.data(), &s)) {
-    if (s.st_mode & S_IFDIR) {
+    if (S_ISDIR(s.st_mode)) {
       return FileType_e::Directory;
-    } else if (s.st_mode & S_IFREG) {
+    } else if (S_ISREG(s.st_mode)) {
       return FileType_e::File;
     } else {
       return FileType_e::Invalid;
-- 
2.43.0


From cd77228b362280b53a251478fd08d484ae6aa176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:04 +0000
Subject: [PATCH 044/121] fix: scan subfolders under their whole names

---
 datas/directory_scanner.cpp | 8 ++++++--
 datas/directory_scanner.hpp | 1 +
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/datas/directory_scanner.cpp b/datas/directory_scanner.cpp
index 5b41e83..d13c904 100644
--- a/datas/directory_scanner.cpp
+++ b/datas/directory_scanner.cpp
@@ -50,6 +50,10 @@ void DirectoryScanner::Scan(std::string dir) {
     }
   }
 
+  ScanFolder(dir);
+}
+
+void DirectoryScanner::ScanFolder(std::string dir) {
 #if defined(__GNUC__) || defined(__GNUG__)
   dir.push_back('.');
   
@@ -72,7 +76,7 @@ void DirectoryScanner::Scan(std::string dir) {
     subFile += miniFile;
 
     if (cFile->d_type == DT_DIR) {
-      Scan(subFile);
+      ScanFolder(subFile + '/');
     } else if (IsFilteredFile(miniFile)) {
       files.push_back(subFile);
     }
@@ -103,7 +107,7 @@ void DirectoryScanner::Scan(std::string dir) {
     subFile += cFileName;
 
     if ((foundData.dwFileAttributes & FILE_ATTRIBUTE_DIRECTORY) != 0) {
-      Scan(subFile);
+      ScanFolder(subFile + '/');
     } else if (IsFilteredFile(cFileName)) {
       files.push_back(subFile);
     }
diff --git a/datas/directory_scanner.hpp b/datas/directory_scanner.hpp
index 6e8faa9..a8421ed 100644
--- a/datas/directory_scanner.hpp
+++ b/datas/directory_scanner.hpp
@@ -22,6 +22,7 @@
 
 class DirectoryScanner {
   bool IsFilteredFile(const std::string &fileName);
+  void ScanFolder(std::string dir);
 
 public:
   typedef std::vector<std::string> storage_type;
-- 
2.43.0


From 8306df2a2858d927940f4ab8d8b31cfd67627295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:04 +0000
Subject: [PATCH 045/121] fix: scan folders on file systems that do not report
 entry types

---
 datas/directory_scanner.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/datas/directory_scanner.cpp b/datas/directory_scanner.cpp
index d13c904..3fea690 100644
--- a/datas/directory_scanner.cpp
+++ b/datas/directory_scanner.cpp
@@ -20,6 +20,7 @@
 
 #if defined(__GNUC__) || defined(__GNUG__)
 #include <dirent.h>
+#include <sys/stat.h>
 #else
 #include <windows.h>
 #endif
@@ -75,7 +76,15 @@ void DirectoryScanner::ScanFolder(std::string dir) {
     subFile.pop_back();
     subFile += miniFile;
 
-    if (cFile->d_type == DT_DIR) {
+    bool isFolder = cFile->d_type == DT_DIR;
+
+    if (cFile->d_type == DT_UNKNOWN) {
+      // not every file system reports types of its entries
+      struct stat s;
+      isFolder = !lstat(subFile.data(), &s) && S_ISDIR(s.st_mode);
+    }
+
+    if (isFolder) {
       ScanFolder(subFile + '/');
     } else if (IsFilteredFile(miniFile)) {
       files.push_back(subFile);
-- 
2.43.0


From ad1186d16877a1b05f25004291fd6b3a04ccfbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:32 +0000
Subject: [PATCH 046/121] fix: keep characters beyond the basic plane in wide
 strings

---
 datas/unicode.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/datas/unicode.hpp b/datas/unicode.hpp
index c7d6fac..b4c9679 100644
--- a/datas/unicode.hpp
+++ b/datas/unicode.hpp
@@ -68,6 +68,11 @@ template <typename _Ty> struct _utf8cvt<_Ty, 4> {
 
 template <typename _Ty> using utf8cvt = _utf8cvt<_Ty, sizeof(_Ty)>;
 
+// UTF-16 or UTF-32, as wide strings are on the platform
+using widecvt = std::conditional<
+    sizeof(wchar_t) == 2, std::codecvt_utf8_utf16<wchar_t>,
+    std::codecvt_utf8<wchar_t>>::type;
+
 } // namespace _es
 
 namespace es {
@@ -80,12 +85,12 @@ template <class C> std::string ToUTF8(const std::basic_string<C> &input) {
 }
 
 inline std::wstring ToUTF1632(const char *input) {
-  std::wstring_convert<std::codecvt_utf8_utf16<wchar_t>> converter;
+  std::wstring_convert<_es::widecvt> converter;
   return converter.from_bytes(input);
 }
 
 inline std::wstring ToUTF1632(const std::string &input) {
-  std::wstring_convert<std::codecvt_utf8_utf16<wchar_t>> converter;
+  std::wstring_convert<_es::widecvt> converter;
   return converter.from_bytes(input);
 }
 }; // namespace es
-- 
2.43.0


From 68b035424bfd1075ca9ef30983205272706d623e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:41 +0000
Subject: [PATCH 047/121] fix: hash last 12 bytes of longer strings in
 JenkinsHash3

---
 datas/jenkinshash3.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/datas/jenkinshash3.hpp b/datas/jenkinshash3.hpp
index 9cfd7c0..fccf963 100644
--- a/datas/jenkinshash3.hpp
+++ b/datas/jenkinshash3.hpp
@@ -110,7 +110,12 @@ constexpr uint32 JenkinsHash3_(es::string_view input, uint32 seed = 0) {
     cTrip.Mix();
   }
 
-  size_t lastKeys = input.size() == 12 ? 12 : input.size() % 12;
+  size_t lastKeys = input.size() % 12;
+
+  if (!lastKeys && !input.empty()) {
+    lastKeys = 12;
+  }
+
   JenTriplet_ lastTrip;
 
   if (lastKeys > 8) {
-- 
2.43.0


From 6bac4a34d86fa695b8af0ab592d8c52acf7e676f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:53 +0000
Subject: [PATCH 048/121] fix: run threaded queues when number of processors is
 unknown

---
 datas/multi_thread.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datas/multi_thread.hpp b/datas/multi_thread.hpp
index b31be1a..c813503 100644
--- a/datas/multi_thread.hpp
+++ b/datas/multi_thread.hpp
@@ -23,7 +23,9 @@
 #include <thread>
 
 template <class lmBody> void RunThreadedQueue(size_t numTasks, lmBody &&fc) {
-  const size_t numHWThreads = std::thread::hardware_concurrency();
+  // can be 0 if it's not computable
+  const size_t numHWThreads =
+      std::max<size_t>(std::thread::hardware_concurrency(), 1);
   const size_t numThreads = std::min(numHWThreads, numTasks);
   size_t curTask = 0;
   using future_type = std::future<decltype(fc(size_t()))>;
-- 
2.43.0


From 7fcb058d8f21f58cc701de2873b5053c0cdcfefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:53 +0000
Subject: [PATCH 049/121] fix: terminate messages flushed without end

---
 datas/master_printer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/datas/master_printer.cpp b/datas/master_printer.cpp
index 0a06803..b744715 100644
--- a/datas/master_printer.cpp
+++ b/datas/master_printer.cpp
@@ -59,13 +59,16 @@ void MasterPrinterThread::AddPrinterFunction(print_func func, bool useColor) {
 }
 
 void MasterPrinterThread::FlushAll() {
-  const size_t buffsize = static_cast<size_t>(_masterstream.tellp()) + 1;
+  _masterstream.clear();
+  const size_t numChars = static_cast<size_t>(_masterstream.tellp());
+  const size_t buffsize = numChars + 1;
 
   _masterstream.seekp(0);
 
   char *tempOut = static_cast<char *>(malloc(buffsize));
 
-  _masterstream.read(tempOut, buffsize);
+  _masterstream.read(tempOut, numChars);
+  tempOut[numChars] = 0;
 
   if (buffsize > static_cast<size_t>(maximumStreamSize))
     _masterstream.str("");
-- 
2.43.0


From bf4db057f9ee337d6ff67a91cc426f216ce90ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:53 +0000
Subject: [PATCH 050/121] fix: guard printer settings from concurrent messages

---
 datas/master_printer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/datas/master_printer.cpp b/datas/master_printer.cpp
index b744715..ac04dbd 100644
--- a/datas/master_printer.cpp
+++ b/datas/master_printer.cpp
@@ -52,6 +52,8 @@ static struct MasterPrinter {
 #endif
 
 void MasterPrinterThread::AddPrinterFunction(print_func func, bool useColor) {
+  std::lock_guard<std::mutex> guard(__MasterPrinter._mutexPrint);
+
   for (auto &c : __MasterPrinter.functions)
     if (c.func == func)
       return;
@@ -121,5 +123,6 @@ void MasterPrinterThread::operator>>(int endWay) {
 }
 
 void MasterPrinterThread::PrintThreadID(bool yn) {
+  std::lock_guard<std::mutex> guard(__MasterPrinter._mutexPrint);
   __MasterPrinter.printThreadID = yn;
 }
-- 
2.43.0


From 49bbd5cc5528f3f972d2f76e6a335e663c1b3e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:54 +0000
Subject: [PATCH 051/121] fix: make scalar operators of V4ScalarType usable

---
 datas/vectors.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/datas/vectors.hpp b/datas/vectors.hpp
index f4cb016..4cbeaff 100644
--- a/datas/vectors.hpp
+++ b/datas/vectors.hpp
@@ -327,28 +327,28 @@ public:
   }
 
   vector operator+(value_type input) const {
-    return *this = *this + vector(input);
+    return *this + vector(input);
   }
   vector operator-(value_type input) const {
-    return *this = *this - vector(input);
+    return *this - vector(input);
   }
   vector operator*(value_type input) const {
-    return *this = *this * vector(input);
+    return *this * vector(input);
   }
   vector operator/(value_type input) const {
-    return *this = *this / vector(input);
+    return *this / vector(input);
   }
   vector operator&(value_type input) const {
-    return *this = *this & vector(input);
+    return *this & vector(input);
   }
   vector operator|(value_type input) const {
-    return *this = *this | vector(input);
+    return *this | vector(input);
   }
   vector operator>>(shift_value input) const {
-    return *this = *this >> vector(input);
+    return *this >> vector(input);
   }
   vector operator<<(shift_value input) const {
-    return *this = *this << vector(input);
+    return *this << vector(input);
   }
 
   vec_ref operator+=(vec_cref input) { return *this = *this + input; }
@@ -369,7 +369,7 @@ public:
   vec_ref operator>>=(shift_value input) { return *this = *this >> input; }
   vec_ref operator<<=(shift_value input) { return *this = *this << input; }
 
-  vector operator-() const { return *this * -1.f; }
+  vector operator-() const { return *this * value_type(-1); }
 
   bool IsSymetrical() const { return (X == Y) && (X == Z) && (Z == W); }
 
-- 
2.43.0


From 0ce79da871a382de768633abb6aacb9e3fb74ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:54 +0000
Subject: [PATCH 052/121] fix: or assignment of V4ScalarType

---
 datas/vectors.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/vectors.hpp b/datas/vectors.hpp
index 4cbeaff..0cf0a66 100644
--- a/datas/vectors.hpp
+++ b/datas/vectors.hpp
@@ -356,7 +356,7 @@ public:
   vec_ref operator*=(vec_cref input) { return *this = *this * input; }
   vec_ref operator/=(vec_cref input) { return *this = *this / input; }
   vec_ref operator&=(vec_cref input) { return *this = *this & input; }
-  vec_ref operator|=(vec_cref input) { return *this = *this & input; }
+  vec_ref operator|=(vec_cref input) { return *this = *this | input; }
   vec_ref operator>>=(shift_vec input) { return *this = *this >> input; }
   vec_ref operator<<=(shift_vec input) { return *this = *this << input; }
 
@@ -365,7 +365,7 @@ public:
   vec_ref operator*=(value_type input) { return *this = *this * input; }
   vec_ref operator/=(value_type input) { return *this = *this / input; }
   vec_ref operator&=(value_type input) { return *this = *this & input; }
-  vec_ref operator|=(value_type input) { return *this = *this & input; }
+  vec_ref operator|=(value_type input) { return *this = *this | input; }
   vec_ref operator>>=(shift_value input) { return *this = *this >> input; }
   vec_ref operator<<=(shift_value input) { return *this = *this << input; }
 
-- 
2.43.0


From d4dc306e031e66af7f22f6156a0d9f7d46f292d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:54 +0000
Subject: [PATCH 053/121] fix: shift vectors of other types than int32 by a
 number

---
 datas/vectors.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/datas/vectors.hpp b/datas/vectors.hpp
index 0cf0a66..312fb8c 100644
--- a/datas/vectors.hpp
+++ b/datas/vectors.hpp
@@ -69,8 +69,12 @@ public:
   vector operator/(value_type input) const { return *this / vector(input); }
   vector operator&(value_type input) const { return *this & vector(input); }
   vector operator|(value_type input) const { return *this | vector(input); }
-  vector operator>>(shift_value input) const { return *this >> vector(input); }
-  vector operator<<(shift_value input) const { return *this << vector(input); }
+  vector operator>>(shift_value input) const {
+    return *this >> t_Vector2<shift_value>(input);
+  }
+  vector operator<<(shift_value input) const {
+    return *this << t_Vector2<shift_value>(input);
+  }
 
   vec_ref operator+=(vec_cref input) { return *this = *this + input; }
   vec_ref operator-=(vec_cref input) { return *this = *this - input; }
@@ -197,8 +201,12 @@ public:
   vector operator/(value_type input) const { return *this / vector(input); }
   vector operator&(value_type input) const { return *this & vector(input); }
   vector operator|(value_type input) const { return *this | vector(input); }
-  vector operator>>(shift_value input) const { return *this >> vector(input); }
-  vector operator<<(shift_value input) const { return *this << vector(input); }
+  vector operator>>(shift_value input) const {
+    return *this >> t_Vector<shift_value>(input);
+  }
+  vector operator<<(shift_value input) const {
+    return *this << t_Vector<shift_value>(input);
+  }
 
   vec_ref operator+=(vec_cref input) { return *this = *this + input; }
   vec_ref operator-=(vec_cref input) { return *this = *this - input; }
@@ -345,10 +353,10 @@ public:
     return *this | vector(input);
   }
   vector operator>>(shift_value input) const {
-    return *this >> vector(input);
+    return *this >> V4ScalarType<shift_value>(input);
   }
   vector operator<<(shift_value input) const {
-    return *this << vector(input);
+    return *this << V4ScalarType<shift_value>(input);
   }
 
   vec_ref operator+=(vec_cref input) { return *this = *this + input; }
-- 
2.43.0


From fe08172719e520bfd10d58990b0f0b027cd26116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:05 +0000
Subject: [PATCH 054/121] fix: compare all components in SIMD IsSymetrical

---
 datas/vectors_simd.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/datas/vectors_simd.hpp b/datas/vectors_simd.hpp
index 7b2e079..384bb83 100644
--- a/datas/vectors_simd.hpp
+++ b/datas/vectors_simd.hpp
@@ -170,9 +170,8 @@ public:
 
   // Check if X == Y == Z == W
   bool IsSymetrical() const {
-    const store_type temp =
-        _mm_shuffle_ps(_data, _data, _MM_SHUFFLE(3, 1, 0, 2));
-    return Compare(_mm_hsub_ps(_data, _data), _mm_hsub_ps(temp, temp));
+    return Compare(_data,
+                   _mm_shuffle_ps(_data, _data, _MM_SHUFFLE(0, 3, 2, 1)));
   }
 
   // Return -1 if [X | Y | Z | W] < 0
-- 
2.43.0


From ec900ae340b8ff9c677af704daa844444c4911ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:28 +0000
Subject: [PATCH 055/121] fix: let a linked container grow into storage of its
 own

The hybrid allocator handed out the linked buffer for every allocation, so
a container that outgrew it wrote beyond the buffer, and never copied out.
The buffer is now handed out once. Linking an empty range links nothing.
---
 datas/allocator_hybrid.hpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/datas/allocator_hybrid.hpp b/datas/allocator_hybrid.hpp
index 4ada4c8..743ca36 100644
--- a/datas/allocator_hybrid.hpp
+++ b/datas/allocator_hybrid.hpp
@@ -34,12 +34,17 @@ struct allocator_hybrid_base {
   template <class C>
   static void LinkStorage(C &input, typename C::pointer start,
                           typename C::pointer end) {
+    if (start == end) {
+      input = C();
+      return;
+    }
+
     input = C(start, end, typename C::allocator_type(start));
   }
 
   template <class C>
   static void LinkStorage(C &input, typename C::pointer start, size_t count) {
-    input = C(start, start + count, typename C::allocator_type(start));
+    LinkStorage(input, start, start + count);
   }
 };
 
@@ -53,6 +58,8 @@ template <class _Ty> struct allocator_hybrid : allocator_hybrid_base {
   typedef std::true_type propagate_on_container_move_assignment;
 
   pointer buffer;
+  // buffer has been handed out, any other space must be allocated
+  bool linked = false;
 
   allocator_hybrid() noexcept : buffer(nullptr) {}
 
@@ -63,18 +70,22 @@ template <class _Ty> struct allocator_hybrid : allocator_hybrid_base {
 
   allocator_hybrid(const allocator_hybrid<value_type> &input) noexcept {
     buffer = input.buffer;
+    linked = input.linked;
   }
 
   _DECLSPEC_ALLOCATOR pointer allocate(size_t count) {
-    if (!buffer)
-      return static_cast<pointer>(operator new(count * sizeof(value_type)));
-    else
+    if (buffer && !linked) {
+      linked = true;
       return buffer;
+    }
+
+    return static_cast<pointer>(operator new(count * sizeof(value_type)));
   }
 
   void deallocate(pointer ptr, size_t) {
     if (buffer == ptr) {
       buffer = nullptr;
+      linked = false;
       return;
     }
 
-- 
2.43.0


From a94930acd52093401116fb3c733409ce3cece51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:28 +0000
Subject: [PATCH 056/121] fix: swap the linked buffer together with the
 container

Without it a swapped container freed the foreign buffer.
---
 datas/allocator_hybrid.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datas/allocator_hybrid.hpp b/datas/allocator_hybrid.hpp
index 743ca36..7a42700 100644
--- a/datas/allocator_hybrid.hpp
+++ b/datas/allocator_hybrid.hpp
@@ -56,6 +56,7 @@ template <class _Ty> struct allocator_hybrid : allocator_hybrid_base {
   typedef const value_type &const_reference;
   typedef std::true_type propagate_on_container_copy_assignment;
   typedef std::true_type propagate_on_container_move_assignment;
+  typedef std::true_type propagate_on_container_swap;
 
   pointer buffer;
   // buffer has been handed out, any other space must be allocated
-- 
2.43.0


From a9e9ea199b56d98cdd9df18d2b43f2be8d1d53f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:38 +0000
Subject: [PATCH 057/121] fix: link constant storage without writing to it

Linking copied every item of the buffer onto itself, which faults when the
buffer is read only.
---
 datas/allocator_hybrid.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/datas/allocator_hybrid.hpp b/datas/allocator_hybrid.hpp
index 7a42700..d1e4c0c 100644
--- a/datas/allocator_hybrid.hpp
+++ b/datas/allocator_hybrid.hpp
@@ -22,7 +22,10 @@
 #endif
 
 #include <cstddef>
+#include <memory>
+#include <new>
 #include <type_traits>
+#include <utility>
 
 namespace es {
 
@@ -83,6 +86,16 @@ template <class _Ty> struct allocator_hybrid : allocator_hybrid_base {
     return static_cast<pointer>(operator new(count * sizeof(value_type)));
   }
 
+  template <class U, class... A> void construct(U *ptr, A &&...args) {
+    ::new (static_cast<void *>(ptr)) U(std::forward<A>(args)...);
+  }
+
+  // items of linked buffer are already in place, the buffer might be constant
+  void construct(pointer ptr, reference value) {
+    if (ptr != std::addressof(value))
+      ::new (static_cast<void *>(ptr)) value_type(value);
+  }
+
   void deallocate(pointer ptr, size_t) {
     if (buffer == ptr) {
       buffer = nullptr;
-- 
2.43.0


From ca3b361657a0b6d70d33c7389289b273c7dd0c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:31 +0000
Subject: [PATCH 058/121] fix: dereference of constant PointerX86

It did not compile.
---
 datas/pointer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/pointer.hpp b/datas/pointer.hpp
index d7e7cff..56e40a9 100644
--- a/datas/pointer.hpp
+++ b/datas/pointer.hpp
@@ -86,7 +86,7 @@ public:
                         reinterpret_cast<const char *>(&varPtr) + varPtr)
                   : nullptr;
   }
-  const C &operator*() const { return *static_cast<C *>(*this); }
+  const C &operator*() const { return *static_cast<const C *>(*this); }
   const C *operator->() const { return *this; }
 
   bool Fixed() const {
-- 
2.43.0


From 6e7bb43938de6154877b694305028f5c2994aef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:42 +0000
Subject: [PATCH 059/121] fix: assign null to PointerX86

It kept the distance to address zero, so the pointer was not null.
---
 datas/pointer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datas/pointer.hpp b/datas/pointer.hpp
index 56e40a9..73aa456 100644
--- a/datas/pointer.hpp
+++ b/datas/pointer.hpp
@@ -112,6 +112,11 @@ public:
   }
 
   PointerX86 &operator=(C *newDest) {
+    if (!newDest) {
+      varPtr = 0;
+      return *this;
+    }
+
     uintptr_t _rawDest = reinterpret_cast<uintptr_t>(newDest);
     varPtr =
         static_cast<uint32>(_rawDest - reinterpret_cast<uintptr_t>(&varPtr));
-- 
2.43.0


From e28b7637747009da6247c1bf7cf6a5ab5daecbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:12 +0000
Subject: [PATCH 060/121] fix: list empty files of ZIP archives

They were skipped together with directories.
---
 datas/zip_vfs.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/datas/zip_vfs.hpp b/datas/zip_vfs.hpp
index f8ebbae..4240bbd 100644
--- a/datas/zip_vfs.hpp
+++ b/datas/zip_vfs.hpp
@@ -74,7 +74,14 @@ private:
 
       [&] {
         if (!hdr.compressedSize) {
-          rd.Skip(hdr.fileNameSize + hdr.extraFieldSize + hdr.uncompressedSize);
+          std::string path;
+          rd.ReadContainer(path, hdr.fileNameSize);
+          rd.Skip(hdr.extraFieldSize + hdr.uncompressedSize);
+
+          // directories are not files
+          if (!path.empty() && path.back() != '/') {
+            emplace(std::move(path), std::make_pair(rd.Tell(), 0));
+          }
           return;
         }
 
-- 
2.43.0


From 15a487a0384179e701482a4b74c87ccef1045f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:42 +0000
Subject: [PATCH 061/121] fix: keep reader of a moved ZIPVFSFile on its own
 buffer

It stayed on the buffer of the file it was moved from.
---
 datas/zip_vfs.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/datas/zip_vfs.hpp b/datas/zip_vfs.hpp
index 4240bbd..e763291 100644
--- a/datas/zip_vfs.hpp
+++ b/datas/zip_vfs.hpp
@@ -28,6 +28,15 @@ struct ZIPVFSFile {
   operator BinReaderRef() const { return reader; }
 
   ZIPVFSFile(std::string &&str) : buffer(str), reader(buffer){};
+  ZIPVFSFile(ZIPVFSFile &&other)
+      : buffer(std::move(other.buffer)), reader(buffer) {
+    reader.SwapEndian(other.reader.SwappedEndian());
+  }
+  ZIPVFSFile &operator=(ZIPVFSFile &&other) {
+    buffer = std::move(other.buffer);
+    reader.SwapEndian(other.reader.SwappedEndian());
+    return *this;
+  }
 };
 
 class ZIPVFS : std::map<std::string, std::pair<size_t, size_t>> {
-- 
2.43.0


From 718d3f1975dae073ab1f0ec244230d8a0b3d29e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:33 +0000
Subject: [PATCH 062/121] fix: skip ZIP blocks of 2 GiB and more

Such sizes skipped backwards, so opening a damaged archive did not end.
---
 datas/zip_vfs.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/datas/zip_vfs.hpp b/datas/zip_vfs.hpp
index e763291..d7d98aa 100644
--- a/datas/zip_vfs.hpp
+++ b/datas/zip_vfs.hpp
@@ -70,6 +70,8 @@ private:
   BinReaderRef rd;
   mutable std::mutex rdMutex;
 
+  void Skip(size_t size) const { rd.Seek(rd.Tell() + size); }
+
   void ReadEntry() {
     uint32 id;
     rd.Push();
@@ -85,7 +87,7 @@ private:
         if (!hdr.compressedSize) {
           std::string path;
           rd.ReadContainer(path, hdr.fileNameSize);
-          rd.Skip(hdr.extraFieldSize + hdr.uncompressedSize);
+          Skip(size_t(hdr.extraFieldSize) + hdr.uncompressedSize);
 
           // directories are not files
           if (!path.empty() && path.back() != '/') {
@@ -110,7 +112,7 @@ private:
         rd.ReadContainer(path, hdr.fileNameSize);
         rd.Skip(hdr.extraFieldSize);
         emplace(std::move(path), std::make_pair(rd.Tell(), hdr.compressedSize));
-        rd.Skip(hdr.compressedSize);
+        Skip(hdr.compressedSize);
       }();
       break;
     }
@@ -151,7 +153,7 @@ private:
     case ZIPExtraData::ID: {
       ZIPExtraData hdr;
       rd.Read(hdr);
-      rd.Skip(hdr.dataSize);
+      Skip(hdr.dataSize);
       break;
     }
 
-- 
2.43.0


From 4a047e9a4e7e9af899d65568da0a4cda56b7a795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:33 +0000
Subject: [PATCH 063/121] fix: report ZIP archives that end within a block

Files reaching beyond the end were listed and read as garbage.
---
 datas/zip_vfs.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/datas/zip_vfs.hpp b/datas/zip_vfs.hpp
index d7d98aa..16a5675 100644
--- a/datas/zip_vfs.hpp
+++ b/datas/zip_vfs.hpp
@@ -169,5 +169,9 @@ private:
     while (rd.Tell() < fileSize) {
       ReadEntry();
     }
+
+    if (rd.Tell() > fileSize) {
+      throw std::runtime_error("Unexpected end of ZIP!");
+    }
   }
 };
-- 
2.43.0


From 4a1592f151c950b78b74e4310142fe510fa700f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:53 +0000
Subject: [PATCH 064/121] fix: take bytes of a Blowfish key as unsigned

Bytes from 0x80 on were sign extended over the other bytes of the word.
---
 datas/encrypt/blowfish.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/encrypt/blowfish.cpp b/datas/encrypt/blowfish.cpp
index 63fbbf9..0ccd6b8 100644
--- a/datas/encrypt/blowfish.cpp
+++ b/datas/encrypt/blowfish.cpp
@@ -462,7 +462,7 @@ void BlowfishEncoder::SetKey(es::string_view key) {
   uint64 lastblock = 0;
 
   memcpy(sboxes, BF_SBOXES, BF_NUMSBOXES * 4);
-  auto inKey = key.data();
+  auto inKey = reinterpret_cast<const uint8 *>(key.data());
   auto inSize = key.size();
 
   for (int i = 0; i < BF_NUMPBOXES; i++) {
-- 
2.43.0


From 1d3916995c96ecf323a2b576c62321651e3adfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:54 +0000
Subject: [PATCH 065/121] fix: write alpha of opaque BC1A blocks

Alpha of blocks in four color mode was left as it was in the output.
---
 formats/BlockDecoder.inl | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/formats/BlockDecoder.inl b/formats/BlockDecoder.inl
index 147246a..9defeec 100644
--- a/formats/BlockDecoder.inl
+++ b/formats/BlockDecoder.inl
@@ -102,20 +102,18 @@ inline void _DecodeBC1BlockA(const char *data, char *obuffer, uint32 w,
         *(obuffer + ((h + row) * width + w + 3) * pixeloffset)) = colors[d4];
     data++;
 
-    if (usealpha) {
-      reinterpret_cast<uint8 &>(
-          *(obuffer + 3 + ((h + row) * width + w) * pixeloffset)) =
-          d1 == 3 ? 0 : 0xff;
-      reinterpret_cast<uint8 &>(
-          *(obuffer + 3 + ((h + row) * width + w + 1) * pixeloffset)) =
-          d2 == 3 ? 0 : 0xff;
-      reinterpret_cast<uint8 &>(
-          *(obuffer + 3 + ((h + row) * width + w + 2) * pixeloffset)) =
-          d3 == 3 ? 0 : 0xff;
-      reinterpret_cast<uint8 &>(
-          *(obuffer + 3 + ((h + row) * width + w + 3) * pixeloffset)) =
-          d4 == 3 ? 0 : 0xff;
-    }
+    reinterpret_cast<uint8 &>(
+        *(obuffer + 3 + ((h + row) * width + w) * pixeloffset)) =
+        usealpha && d1 == 3 ? 0 : 0xff;
+    reinterpret_cast<uint8 &>(
+        *(obuffer + 3 + ((h + row) * width + w + 1) * pixeloffset)) =
+        usealpha && d2 == 3 ? 0 : 0xff;
+    reinterpret_cast<uint8 &>(
+        *(obuffer + 3 + ((h + row) * width + w + 2) * pixeloffset)) =
+        usealpha && d3 == 3 ? 0 : 0xff;
+    reinterpret_cast<uint8 &>(
+        *(obuffer + 3 + ((h + row) * width + w + 3) * pixeloffset)) =
+        usealpha && d4 == 3 ? 0 : 0xff;
   }
 }
 
-- 
2.43.0


From 1121906138259253222d6cee0894209aab332af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:54 +0000
Subject: [PATCH 066/121] fix: average BC1A colors over the full range

The middle of two white colors was not white.
---
 formats/BlockDecoder.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/BlockDecoder.inl b/formats/BlockDecoder.inl
index 9defeec..42ac346 100644
--- a/formats/BlockDecoder.inl
+++ b/formats/BlockDecoder.inl
@@ -81,7 +81,7 @@ inline void _DecodeBC1BlockA(const char *data, char *obuffer, uint32 w,
         ((((color1 * (1.0f / 3.0f)) + (color2 * (2.0f / 3.0f)))) * 255.f)
             .Convert<uint8>();
   } else {
-    *(colors + 2) = ((color1 + color2) * 127.f).Convert<uint8>();
+    *(colors + 2) = ((color1 + color2) * 127.5f).Convert<uint8>();
     *(colors + 3) = *(colors + 2);
     usealpha = true;
   }
-- 
2.43.0


From 4e241c7645486ab820b1944e22bd9553e1716380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:55 +0000
Subject: [PATCH 067/121] fix: decode three color blocks of BC1

Only BC2 and BC3 have all their color blocks in four color mode.
---
 formats/BlockDecoder.inl | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/formats/BlockDecoder.inl b/formats/BlockDecoder.inl
index 42ac346..4ddaf32 100644
--- a/formats/BlockDecoder.inl
+++ b/formats/BlockDecoder.inl
@@ -19,11 +19,14 @@
 #include "BlockDecoder.h"
 
 inline void _DecodeBC1Block(const char *data, char *obuffer, uint32 w, uint32 h,
-                            uint32 width, const uint32 pixeloffset = 3) {
+                            uint32 width, const uint32 pixeloffset = 3,
+                            const bool allowThreeColors = false) {
   Vector color1, color2;
   DecodeRGB565Block(data, color1);
+  const uint16 cl1 = reinterpret_cast<const uint16 &>(*data);
   data += 2;
   DecodeRGB565Block(data, color2);
+  const uint16 cl2 = reinterpret_cast<const uint16 &>(*data);
   data += 2;
   h *= 4;
   w *= 4;
@@ -38,6 +41,11 @@ inline void _DecodeBC1Block(const char *data, char *obuffer, uint32 w, uint32 h,
           .Convert<uint8>(),
   };
 
+  if (allowThreeColors && cl1 <= cl2) {
+    colors[2] = ((color1 + color2) * 127.5f).Convert<uint8>();
+    colors[3] = UCVector();
+  }
+
   for (int row = 0; row < 4; row++) {
     reinterpret_cast<UCVector &>(
         *(obuffer + ((h + row) * width + w) * pixeloffset)) = colors[*data & 3];
@@ -152,7 +160,7 @@ inline void DecodeBC2Block(const char *data, char *obuffer, uint32 w, uint32 h,
 
 inline void DecodeBC1Block(const char *data, char *obuffer, uint32 w, uint32 h,
                            uint32 width) {
-  _DecodeBC1Block(data, obuffer, w, h, width);
+  _DecodeBC1Block(data, obuffer, w, h, width, 3, true);
 }
 
 inline void _DecodeBC4Block(const char *data, char *obuffer, uint32 w, uint32 h,
-- 
2.43.0


From fc4ba74fd1f70d0b71321cc2b09f2f6edad14f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:23 +0000
Subject: [PATCH 068/121] fix: expand colors in vectorized BC1 decoder

Channels were sign extended into their neighbors, contained bits of the
neighboring fields and never reached full intensity.
---
 formats/BlockDecoderSimd.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/formats/BlockDecoderSimd.hpp b/formats/BlockDecoderSimd.hpp
index adf52c8..f06d400 100644
--- a/formats/BlockDecoderSimd.hpp
+++ b/formats/BlockDecoderSimd.hpp
@@ -22,12 +22,15 @@
 static inline void DecodeRGB565Blocks(const char *data, IVector4A16 &color0,
                                       IVector4A16 &color1) {
   const uint32 rawdata = reinterpret_cast<const uint32 &>(*data);
-  const auto cl00 = IVector4A16(rawdata);
-  const auto cl0 = cl00 * IVector4A16(0x8000000, 0x200000, 0x10000, 0);
-  const auto cl1 = cl00 * IVector4A16(0x800, 0x20, 0x1, 0);
-
-  color0 = cl0 >> 24;
-  color1 = cl1 >> 24;
+  static const IVector4A16 masks(0x1f, 0x7e0, 0xf800, 0);
+  // 5 bits: (x * 527 + 23) >> 6, 6 bits: (x * 259 + 33) >> 6
+  static const IVector4A16 scales(527 << 11, 259 << 6, 527, 0);
+  static const IVector4A16 rounding(23 << 11, 33 << 11, 23 << 11, 0);
+  const auto cl0 = IVector4A16(rawdata & 0xffff) & masks;
+  const auto cl1 = IVector4A16(rawdata >> 16) & masks;
+
+  color0 = (cl0 * scales + rounding) >> 17;
+  color1 = (cl1 * scales + rounding) >> 17;
 }
 
 inline void _SDecodeBC1Block(const char *data, char *obuffer, uint32 w,
@@ -41,8 +44,8 @@ inline void _SDecodeBC1Block(const char *data, char *obuffer, uint32 w,
   width *= 4;
 
   // Precompute colors
-  IVector4A16 color2(((color0 * 0xaa) + (color1 * 0x55)) >> 8);
-  IVector4A16 color3(((color0 * 0x55) + (color1 * 0xaa)) >> 8);
+  IVector4A16 color2(((color0 * 2 + color1 + 1) * 0x5556) >> 16);
+  IVector4A16 color3(((color0 + color1 * 2 + 1) * 0x5556) >> 16);
 
   static const IVector4A16 shiftMask(1, 0x100, 0x10000, 1);
 
-- 
2.43.0


From f2146ba68fb438e492229d913fbdfcaec9f9bad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:39 +0000
Subject: [PATCH 069/121] fix: decode three color blocks in vectorized BC1
 decoder

---
 formats/BlockDecoderSimd.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/formats/BlockDecoderSimd.hpp b/formats/BlockDecoderSimd.hpp
index f06d400..f9e92f1 100644
--- a/formats/BlockDecoderSimd.hpp
+++ b/formats/BlockDecoderSimd.hpp
@@ -38,6 +38,8 @@ inline void _SDecodeBC1Block(const char *data, char *obuffer, uint32 w,
                              const uint32 pixeloffset = 3) {
   IVector4A16 color0, color1;
   DecodeRGB565Blocks(data, color0, color1);
+  const uint16 rawColor0 = reinterpret_cast<const uint16 &>(*data);
+  const uint16 rawColor1 = reinterpret_cast<const uint16 &>(*(data + 2));
   data += 4;
   h *= 4;
   w *= 4;
@@ -47,6 +49,11 @@ inline void _SDecodeBC1Block(const char *data, char *obuffer, uint32 w,
   IVector4A16 color2(((color0 * 2 + color1 + 1) * 0x5556) >> 16);
   IVector4A16 color3(((color0 + color1 * 2 + 1) * 0x5556) >> 16);
 
+  if (rawColor0 <= rawColor1) {
+    color2 = (color0 + color1) >> 1;
+    color3 = IVector4A16(0);
+  }
+
   static const IVector4A16 shiftMask(1, 0x100, 0x10000, 1);
 
   // left shift y << 8, z << 16 but with mul
-- 
2.43.0


From 3a854b141e9842ff5a9147ffab8ef98094d3c2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:35 +0000
Subject: [PATCH 070/121] fix: DDS mip level dimensions don't go below one

---
 formats/DDS.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index 13ef396..f510c93 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -524,8 +524,8 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
       dOut.sizes[m] = ((__width * __height * bpp) + 7) / 8;
       dOut.offsets[m] = fullBuffer;
       fullBuffer += dOut.sizes[m];
-      _width /= 2;
-      _height /= 2;
+      _width = _width > 1 ? _width / 2 : 1;
+      _height = _height > 1 ? _height / 2 : 1;
     }
 
     return fullBuffer;
-- 
2.43.0


From 1aedd02586dbed912c364f0fecd25e1f39ece7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:35 +0000
Subject: [PATCH 071/121] fix: DDS block compressed mip levels consist of whole
 blocks

---
 formats/DDS.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index f510c93..a6d2893 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -516,9 +516,9 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
     for (uint32 m = 0; m < _mipCount; m++) {
       uint32 __width = _width, __height = _height;
 
-      if (useBlockCompression && (__width * __height < 16)) {
-        __width = 4;
-        __height = 4;
+      if (useBlockCompression) {
+        __width = (__width + 3) & ~3u;
+        __height = (__height + 3) & ~3u;
       }
 
       dOut.sizes[m] = ((__width * __height * bpp) + 7) / 8;
-- 
2.43.0


From e07169471b361bc707e48095ace6a8324387fcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:35 +0000
Subject: [PATCH 072/121] fix: DDS typeless block compressed formats have block
 sizes

---
 formats/DDS.hpp | 21 +--------------------
 1 file changed, 1 insertion(+), 20 deletions(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index a6d2893..7d9aaf0 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -473,26 +473,7 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
     bool useBlockCompression = false;
 
     if (dxgiFormat) {
-      switch (dxgiFormat) {
-      case DXGI_FORMAT_BC1_UNORM:
-      case DXGI_FORMAT_BC1_UNORM_SRGB:
-      case DXGI_FORMAT_BC2_UNORM:
-      case DXGI_FORMAT_BC2_UNORM_SRGB:
-      case DXGI_FORMAT_BC3_UNORM:
-      case DXGI_FORMAT_BC3_UNORM_SRGB:
-      case DXGI_FORMAT_BC4_UNORM:
-      case DXGI_FORMAT_BC4_SNORM:
-      case DXGI_FORMAT_BC5_UNORM:
-      case DXGI_FORMAT_BC5_SNORM:
-      case DXGI_FORMAT_BC6H_UF16:
-      case DXGI_FORMAT_BC6H_SF16:
-      case DXGI_FORMAT_BC7_UNORM:
-      case DXGI_FORMAT_BC7_UNORM_SRGB:
-        useBlockCompression = true;
-        break;
-      default:
-        break;
-      }
+      useBlockCompression = IsBC(dxgiFormat);
     } else {
       switch (fourCC) {
       case CompileFourCC("DXT1"):
-- 
2.43.0


From a35ea1610086d522d95cecc0135731595ab4a39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:35 +0000
Subject: [PATCH 073/121] fix: DDS sizes of large mip levels overflowed

---
 formats/DDS.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index 7d9aaf0..3556d9e 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -502,7 +502,8 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
         __height = (__height + 3) & ~3u;
       }
 
-      dOut.sizes[m] = ((__width * __height * bpp) + 7) / 8;
+      dOut.sizes[m] = static_cast<uint32>(
+          (static_cast<uint64>(__width) * __height * bpp + 7) / 8);
       dOut.offsets[m] = fullBuffer;
       fullBuffer += dOut.sizes[m];
       _width = _width > 1 ? _width / 2 : 1;
-- 
2.43.0


From 814dad909a327abda2dd3714e8b5adcb557a81d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:35 +0000
Subject: [PATCH 074/121] fix: DDS mip counts beyond limit wrote outside the
 size table

---
 formats/DDS.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index 3556d9e..70734cc 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -467,6 +467,10 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
       return 0;
 
     uint32 _mipCount = mipMapCount ? mipMapCount : 1;
+
+    if (_mipCount > Mips::maxMips)
+      _mipCount = Mips::maxMips;
+
     uint32 _width = width;
     uint32 _height = height;
     uint32 fullBuffer = 0;
-- 
2.43.0


From 5535a9eaa0acc2996fc54a59cd974857aa670c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:35 +0000
Subject: [PATCH 075/121] fix: unknown DXGI formats were looked up outside the
 table

---
 formats/DDS.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index 70734cc..49da14e 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -413,7 +413,8 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
     DDS_PixelFormat &tformat = static_cast<DDS_PixelFormat &>(*this);
 
     if (tformat == DDSFormat_DX10) {
-      bpp = _bpps[dxgiFormat];
+      bpp = dxgiFormat < sizeof(_bpps) / sizeof(_bpps[0]) ? _bpps[dxgiFormat]
+                                                          : 0;
     } else {
       switch (fourCC) {
       case 36:
-- 
2.43.0


From c7194a8bac650a18e3c3a0c07dc8e3208c55dc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:35 +0000
Subject: [PATCH 076/121] fix: DDS UYVY had no bits per pixel

---
 formats/DDS.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index 49da14e..626fab5 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -430,6 +430,7 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
       case 114:
       case CompileFourCC("RBGB"):
       case CompileFourCC("GRGB"):
+      case CompileFourCC("UYVY"):
       case CompileFourCC("YUY2"):
         bpp = 32;
         break;
-- 
2.43.0


From 9c5e4da69ca71b2b2107d120d810f3764e270de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:35 +0000
Subject: [PATCH 077/121] fix: DDS four character code of R8G8_B8G8 is RGBG

---
 formats/DDS.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index 626fab5..c9073ee 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -311,7 +311,7 @@ static constexpr DDS_PixelFormat DDSFormat_BC4S(CompileFourCC("BC4S"), 4);
 static constexpr DDS_PixelFormat DDSFormat_BC5U(CompileFourCC("BC5U"), 8);
 static constexpr DDS_PixelFormat DDSFormat_BC5S(CompileFourCC("BC5S"), 8);
 
-static constexpr DDS_PixelFormat DDSFormat_R8G8_B8G8(CompileFourCC("RBGB"), 32);
+static constexpr DDS_PixelFormat DDSFormat_R8G8_B8G8(CompileFourCC("RGBG"), 32);
 static constexpr DDS_PixelFormat DDSFormat_G8R8_G8B8(CompileFourCC("GRGB"), 32);
 static constexpr DDS_PixelFormat DDSFormat_UYVY(CompileFourCC("UYVY"), 32);
 static constexpr DDS_PixelFormat DDSFormat_YUY2(CompileFourCC("YUY2"), 32);
@@ -428,7 +428,7 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
         break;
       case 112:
       case 114:
-      case CompileFourCC("RBGB"):
+      case CompileFourCC("RGBG"):
       case CompileFourCC("GRGB"):
       case CompileFourCC("UYVY"):
       case CompileFourCC("YUY2"):
@@ -578,7 +578,7 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
     case CompileFourCC("BC5S"):
       dxgiFormat = DXGI_FORMAT_BC5_SNORM;
       break;
-    case CompileFourCC("RBGB"):
+    case CompileFourCC("RGBG"):
       dxgiFormat = DXGI_FORMAT_R8G8_B8G8_UNORM;
       break;
     case CompileFourCC("GRGB"):
-- 
2.43.0


From 33dd9ad2cada113ed0387263a2faea0eba1d772b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:35 +0000
Subject: [PATCH 078/121] fix: DXGI numbers and bits per pixel of video and
 palette formats

---
 formats/DDS.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index c9073ee..aadb978 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -137,7 +137,7 @@ enum DXGI_FORMAT : uint32 {
   DXGI_FORMAT_P8,
   DXGI_FORMAT_A8P8,
   DXGI_FORMAT_B4G4R4A4_UNORM,
-  DXGI_FORMAT_P208,
+  DXGI_FORMAT_P208 = 130,
   DXGI_FORMAT_V208,
   DXGI_FORMAT_V408,
   DXGI_FORMAT_FORCE_UINT
@@ -178,8 +178,9 @@ static constexpr uint32 _bpps[] = {
     32, 32,  32,  32,  32,  32, 32, 32, 32, 32, 32, 32, 16, 16, 16, 16, 16, 16,
     16, 16,  16,  16,  16,  16, 8,  8,  8,  8,  8,  8,  1,  32, 32, 32, 4,  4,
     4,  8,   8,   8,   8,   8,  8,  4,  4,  4,  8,  8,  8,  16, 16, 32, 32, 32,
-    32, 32,  32,  32,  8,   8,  8,  8,  8,  8,  32, 32, 64, 12, 32, 64, 32, 32,
-    32, 64,  0,   0,   0,   0,  0,  16, 0,  0,  0,  0};
+    32, 32,  32,  32,  8,   8,  8,  8,  8,  8,  32, 32, 64, 12, 24, 24, 12, 32,
+    64, 64,  12,  8,   8,   8,  16, 16, 0,  0,  0,  0,  0,  0,  0,  0,  0,  0,
+    0,  0,   0,   0,   16,  16, 24};
 
 ES_STATIC_ASSERT(_bpps[DXGI_FORMAT_R32G32B32A32_TYPELESS] == 128);
 ES_STATIC_ASSERT(_bpps[DXGI_FORMAT_R32G32B32_TYPELESS] == 96);
@@ -204,7 +205,7 @@ ES_STATIC_ASSERT(_bpps[DXGI_FORMAT_B8G8R8X8_UNORM_SRGB] == 32);
 ES_STATIC_ASSERT(_bpps[DXGI_FORMAT_BC6H_TYPELESS] == 8);
 ES_STATIC_ASSERT(_bpps[DXGI_FORMAT_BC7_UNORM_SRGB] == 8);
 ES_STATIC_ASSERT(_bpps[DXGI_FORMAT_AYUV] == 32);
-ES_STATIC_ASSERT(_bpps[DXGI_FORMAT_P016] == 64);
+ES_STATIC_ASSERT(_bpps[DXGI_FORMAT_P016] == 24);
 ES_STATIC_ASSERT(_bpps[DXGI_FORMAT_Y216] == 64);
 ES_STATIC_ASSERT(_bpps[DXGI_FORMAT_B4G4R4A4_UNORM] == 16);
 
-- 
2.43.0


From d6bc474a401ccb2d506b0b890edd758d7e3afc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:35 +0000
Subject: [PATCH 079/121] fix: DDS A2B10G10R10 has alpha bits

---
 formats/DDS.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index aadb978..38e0667 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -324,7 +324,7 @@ static constexpr DDS_PixelFormat DDSFormat_DX10(CompileFourCC("DX10"), 0);
 
 static constexpr DDS_PixelFormat DDSFormat_A2B10G10R10(
     {DDS_PixelFormat::PFFlags_RGB, DDS_PixelFormat::PFFlags_AlphaPixels}, 32,
-    0x000003ff, 0x000ffc00, 0x3ff00000, 0x00000000);
+    0x000003ff, 0x000ffc00, 0x3ff00000, 0xc0000000);
 static constexpr DDS_PixelFormat DDSFormat_A8R8G8B8(
     {DDS_PixelFormat::PFFlags_RGB, DDS_PixelFormat::PFFlags_AlphaPixels}, 32,
     0x00ff0000, 0x0000ff00, 0x000000ff, 0xff000000);
-- 
2.43.0


From a78a34a3768e1a0c0abd04108941ecb7a5939f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 080/121] fix: DDS sizes of packed formats, where element holds
 two pixels

---
 formats/DDS.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index 38e0667..c20af49 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -172,6 +172,20 @@ static constexpr bool IsBC(DXGI_FORMAT fmt) {
   }
 }
 
+// Formats, where one element describes 2 horizontal pixels
+static constexpr bool IsPacked(DXGI_FORMAT fmt) {
+  switch (fmt) {
+  case DXGI_FORMAT_R8G8_B8G8_UNORM:
+  case DXGI_FORMAT_G8R8_G8B8_UNORM:
+  case DXGI_FORMAT_YUY2:
+  case DXGI_FORMAT_Y210:
+  case DXGI_FORMAT_Y216:
+    return true;
+  default:
+    return false;
+  }
+}
+
 static constexpr uint32 _bpps[] = {
     0,  128, 128, 128, 128, 96, 96, 96, 96, 64, 64, 64, 64, 64, 64, 64, 64, 64,
     64, 64,  64,  64,  64,  32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32, 32,
@@ -478,9 +492,11 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
     uint32 _height = height;
     uint32 fullBuffer = 0;
     bool useBlockCompression = false;
+    bool usePacked = false;
 
     if (dxgiFormat) {
       useBlockCompression = IsBC(dxgiFormat);
+      usePacked = IsPacked(dxgiFormat);
     } else {
       switch (fourCC) {
       case CompileFourCC("DXT1"):
@@ -496,6 +512,12 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
       case CompileFourCC("BC5S"):
         useBlockCompression = true;
         break;
+      case CompileFourCC("RGBG"):
+      case CompileFourCC("GRGB"):
+      case CompileFourCC("YUY2"):
+      case CompileFourCC("UYVY"):
+        usePacked = true;
+        break;
       default:
         break;
       }
@@ -507,6 +529,8 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
       if (useBlockCompression) {
         __width = (__width + 3) & ~3u;
         __height = (__height + 3) & ~3u;
+      } else if (usePacked) {
+        __width = __width / 2 + __width % 2;
       }
 
       dOut.sizes[m] = static_cast<uint32>(
-- 
2.43.0


From e6c25052e2157ec66266da49d72cf447f862bccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:10 +0000
Subject: [PATCH 081/121] fix: DDS legacy masks of 8 and 4 bit color formats
 had red and blue swapped

---
 formats/DDS.hpp | 45 +++++++++++++++++----------------------------
 1 file changed, 17 insertions(+), 28 deletions(-)

diff --git a/formats/DDS.hpp b/formats/DDS.hpp
index c20af49..eae862a 100644
--- a/formats/DDS.hpp
+++ b/formats/DDS.hpp
@@ -624,7 +624,11 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
       if (tformat == DDSFormat_A2B10G10R10)
         dxgiFormat = DXGI_FORMAT_R10G10B10A2_UNORM;
       else if (tformat == DDSFormat_A8R8G8B8)
-        dxgiFormat = DXGI_FORMAT_R8G8B8A8_UNORM;
+        dxgiFormat = DXGI_FORMAT_B8G8R8A8_UNORM;
+      else if (tformat == DDSFormat_X8R8G8B8)
+        dxgiFormat = DXGI_FORMAT_B8G8R8X8_UNORM;
+      else if (tformat == DDSFormat_A4R4G4B4)
+        dxgiFormat = DXGI_FORMAT_B4G4R4A4_UNORM;
       else if (tformat == DDSFormat_G16R16)
         dxgiFormat = DXGI_FORMAT_R16G16_UNORM;
       else if (tformat == DDSFormat_A8)
@@ -644,19 +648,7 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
                                 DDS_PixelFormat::PFFlags_AlphaPixels},
                                32, 0x000000ff, 0x0000ff00, 0x00ff0000,
                                0xff000000))
-        dxgiFormat = DXGI_FORMAT_B8G8R8A8_UNORM;
-      else if (tformat ==
-               DDS_PixelFormat({DDS_PixelFormat::PFFlags_RGB,
-                                DDS_PixelFormat::PFFlags_AlphaPixels},
-                               32, 0x000000ff, 0x0000ff00, 0x00ff0000,
-                               0x00000000))
-        dxgiFormat = DXGI_FORMAT_B8G8R8X8_UNORM;
-      else if (tformat ==
-               DDS_PixelFormat({DDS_PixelFormat::PFFlags_RGB,
-                                DDS_PixelFormat::PFFlags_AlphaPixels},
-                               16, 0x0000000f, 0x000000f0, 0x00000f00,
-                               0x0000f000))
-        dxgiFormat = DXGI_FORMAT_B4G4R4A4_UNORM;
+        dxgiFormat = DXGI_FORMAT_R8G8B8A8_UNORM;
       else
         result = 1;
     }
@@ -684,7 +676,10 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
       operator=(DDSFormat_A2B10G10R10);
       break;
     case DXGI_FORMAT_R8G8B8A8_UNORM:
-      operator=(DDSFormat_A8R8G8B8);
+      operator=(DDS_PixelFormat({DDS_PixelFormat::PFFlags_RGB,
+                                 DDS_PixelFormat::PFFlags_AlphaPixels},
+                                32, 0x000000ff, 0x0000ff00, 0x00ff0000,
+                                0xff000000));
       break;
     case DXGI_FORMAT_R16G16_UNORM:
       operator=(DDSFormat_G16R16);
@@ -761,7 +756,10 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
 
       switch (dxgiFormat) {
       case DXGI_FORMAT_R8G8B8A8_UNORM_SRGB:
-        operator=(DDSFormat_A8R8G8B8);
+        operator=(DDS_PixelFormat({DDS_PixelFormat::PFFlags_RGB,
+                                   DDS_PixelFormat::PFFlags_AlphaPixels},
+                                  32, 0x000000ff, 0x0000ff00, 0x00ff0000,
+                                  0xff000000));
         break;
       case DXGI_FORMAT_R8G8_UNORM:
         operator=(DDSFormat_A8L8);
@@ -784,23 +782,14 @@ struct DDS : DDS_Header, DDS_PixelFormat, DDS_HeaderEnd, DDS_HeaderDX10 {
         break;
       case DXGI_FORMAT_B8G8R8A8_UNORM:
       case DXGI_FORMAT_B8G8R8A8_UNORM_SRGB:
-        operator=(DDS_PixelFormat({DDS_PixelFormat::PFFlags_RGB,
-                                   DDS_PixelFormat::PFFlags_AlphaPixels},
-                                  32, 0x000000ff, 0x0000ff00, 0x00ff0000,
-                                  0xff000000));
+        operator=(DDSFormat_A8R8G8B8);
         break;
       case DXGI_FORMAT_B8G8R8X8_UNORM:
       case DXGI_FORMAT_B8G8R8X8_UNORM_SRGB:
-        operator=(DDS_PixelFormat({DDS_PixelFormat::PFFlags_RGB,
-                                   DDS_PixelFormat::PFFlags_AlphaPixels},
-                                  32, 0x000000ff, 0x0000ff00, 0x00ff0000,
-                                  0x00000000));
+        operator=(DDSFormat_X8R8G8B8);
         break;
       case DXGI_FORMAT_B4G4R4A4_UNORM:
-        operator=(DDS_PixelFormat({DDS_PixelFormat::PFFlags_RGB,
-                                   DDS_PixelFormat::PFFlags_AlphaPixels},
-                                  16, 0x0000000f, 0x000000f0, 0x00000f00,
-                                  0x0000f000));
+        operator=(DDSFormat_A4R4G4B4);
         break;
       default:
         result = 1;
-- 
2.43.0


From 8a3039fcceac8aa17a24780725ef2139cf0a238f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:11 +0000
Subject: [PATCH 082/121] fix: MortonAddr couldn't be used in multiple
 translation units

---
 formats/addr_ps3.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/addr_ps3.hpp b/formats/addr_ps3.hpp
index a997629..6151c57 100644
--- a/formats/addr_ps3.hpp
+++ b/formats/addr_ps3.hpp
@@ -50,7 +50,7 @@ struct MortonSettings {
   }
 };
 
-size_t MortonAddr(size_t x, size_t y, const MortonSettings &settings) {
+inline size_t MortonAddr(size_t x, size_t y, const MortonSettings &settings) {
   const size_t x0 = x & 1;
   const size_t x1 = (x & 2) << 1;
   const size_t x2 = (x & 4) << 2;
-- 
2.43.0


From a0b0e924e61f97d64e13383dd06710fe02b38c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:31 +0000
Subject: [PATCH 083/121] fix: Morton addresses of textures higher than wide
 had a gap

---
 formats/addr_ps3.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/formats/addr_ps3.hpp b/formats/addr_ps3.hpp
index 6151c57..2c75d66 100644
--- a/formats/addr_ps3.hpp
+++ b/formats/addr_ps3.hpp
@@ -24,6 +24,8 @@ struct MortonSettings {
   size_t height;
   size_t xmask[10]{};
   size_t ymask[10]{};
+  size_t tailMask = 0;
+  size_t tailShift = 0;
 
   MortonSettings(size_t width_, size_t height_)
       : width(width_), height(height_) {
@@ -44,7 +46,8 @@ struct MortonSettings {
       if (bitOffsetW > bitOffsetH) {
         xmask[bitOffsetH - 4] = mask;
       } else {
-        ymask[bitOffsetW - 4] = mask;
+        tailMask = mask;
+        tailShift = bitOffsetW;
       }
     }
   }
@@ -94,5 +97,7 @@ inline size_t MortonAddr(size_t x, size_t y, const MortonSettings &settings) {
     }
   }
 
+  retval |= (y & settings.tailMask) << settings.tailShift;
+
   return retval;
 }
-- 
2.43.0


From 07a4387c569cddb834071d176d5bf343b340e372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:00 +0000
Subject: [PATCH 084/121] fix: Morton addresses of textures with a dimension
 below 16

---
 formats/addr_ps3.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/formats/addr_ps3.hpp b/formats/addr_ps3.hpp
index 2c75d66..c3451ce 100644
--- a/formats/addr_ps3.hpp
+++ b/formats/addr_ps3.hpp
@@ -26,6 +26,8 @@ struct MortonSettings {
   size_t ymask[10]{};
   size_t tailMask = 0;
   size_t tailShift = 0;
+  // Bits of coordinates, that are always interleaved
+  size_t lowMask = 15;
 
   MortonSettings(size_t width_, size_t height_)
       : width(width_), height(height_) {
@@ -38,7 +40,11 @@ struct MortonSettings {
       ymask[b - 4] = size_t(1) << b;
     }
 
-    if (bitOffsetW != bitOffsetH) {
+    if (minBits < 4) {
+      lowMask = (size_t(1) << minBits) - 1;
+      tailMask = ((width - 1) | (height - 1)) & ~lowMask;
+      tailShift = minBits;
+    } else if (bitOffsetW != bitOffsetH) {
       const size_t maskW = width - 1;
       const size_t maskH = height - 1;
       const size_t mask = maskH ^ maskW;
@@ -54,6 +60,13 @@ struct MortonSettings {
 };
 
 inline size_t MortonAddr(size_t x, size_t y, const MortonSettings &settings) {
+  const size_t tail = (settings.lowMask < 15 ? x | y : y) & settings.tailMask;
+
+  if (settings.lowMask < 15) {
+    x &= settings.lowMask;
+    y &= settings.lowMask;
+  }
+
   const size_t x0 = x & 1;
   const size_t x1 = (x & 2) << 1;
   const size_t x2 = (x & 4) << 2;
@@ -97,7 +110,7 @@ inline size_t MortonAddr(size_t x, size_t y, const MortonSettings &settings) {
     }
   }
 
-  retval |= (y & settings.tailMask) << settings.tailShift;
+  retval |= tail << settings.tailShift;
 
   return retval;
 }
-- 
2.43.0


From bbdb81939159644076845eef39aa962a6b8d2612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 085/121] fix: uni/model.hpp couldn't be included without
 matrix44.hpp

---
 uni/model.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uni/model.hpp b/uni/model.hpp
index 5ed1018..e020dcf 100644
--- a/uni/model.hpp
+++ b/uni/model.hpp
@@ -19,6 +19,8 @@
 #include "format.hpp"
 #include "list.hpp"
 
+class esMatrix44;
+
 namespace uni {
 struct RTSValue;
 struct BBOX {
-- 
2.43.0


From 2be200b19fb0ecaed4380bcd09d2a81f6acacfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:46 +0000
Subject: [PATCH 086/121] fix: errors of unanswered uni queries lost their type
 and message

---
 uni/internal/exception.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/uni/internal/exception.hpp b/uni/internal/exception.hpp
index 914921d..350eaab 100644
--- a/uni/internal/exception.hpp
+++ b/uni/internal/exception.hpp
@@ -22,9 +22,9 @@ namespace _uni_ {
 
 inline std::exception ThrowVoidCall(bool logical) {
   if (logical) {
-    return std::logic_error("Unhandled call!");
+    throw std::logic_error("Unhandled call!");
   } else {
-    return std::runtime_error("Unsupported call!");
+    throw std::runtime_error("Unsupported call!");
   }
 }
 template <class C, C exValue> std::exception ThrowVoidCall(C expected) {
-- 
2.43.0


From 95ae607c463e4fb737a6159719fd1e45fc2deaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:46 +0000
Subject: [PATCH 087/121] fix: uni::ModifyError couldn't be caught as
 std::exception

---
 uni/internal/exception.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uni/internal/exception.hpp b/uni/internal/exception.hpp
index 350eaab..96b505f 100644
--- a/uni/internal/exception.hpp
+++ b/uni/internal/exception.hpp
@@ -33,7 +33,7 @@ template <class C, C exValue> std::exception ThrowVoidCall(C expected) {
 } // namespace _uni_
 
 namespace uni {
-class ModifyError : std::runtime_error {
+class ModifyError : public std::runtime_error {
   using parent = std::runtime_error;
 
 public:
-- 
2.43.0


From 7bbc8e9408a154d7fba3df3656dddf3e9949c6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:56 +0000
Subject: [PATCH 088/121] fix: walks over skeletons and motions used a
 destroyed list

---
 uni/list.hpp     | 23 +++++++++++++++++++++++
 uni/motion.hpp   |  6 +++---
 uni/skeleton.hpp |  7 +++----
 3 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/uni/list.hpp b/uni/list.hpp
index 2d30d13..b59b8bc 100644
--- a/uni/list.hpp
+++ b/uni/list.hpp
@@ -18,6 +18,7 @@
 #pragma once
 #include "virtual_iterator.hpp"
 #include "common.hpp"
+#include <memory>
 
 namespace _uni_ {
 template <class C, class _const_type> class _List : public uni::Base {
@@ -41,4 +42,26 @@ public:
 namespace uni {
 template <class C> using List = _uni_::_List<Element<C>, Element<const C>>;
 template <class C> using Vector = _uni_::_List<C, const C>;
+
+// Iterator, that keeps alive a list it goes through
+template <class C> class ElementIterator : public C::iterator_type_const {
+  using parent = typename C::iterator_type_const;
+  std::shared_ptr<const C> list;
+
+public:
+  ElementIterator(Element<const C> list_, size_t id)
+      : parent(list_.get(), id), list(std::move(list_)) {}
+  explicit ElementIterator(Element<const C> list_)
+      : parent(list_.get()), list(std::move(list_)) {}
+
+  ElementIterator &operator++() {
+    parent::operator++();
+    return *this;
+  }
+  ElementIterator operator++(int) {
+    ElementIterator retval = *this;
+    ++(*this);
+    return retval;
+  }
+};
 } // namespace uni
diff --git a/uni/motion.hpp b/uni/motion.hpp
index 233c59d..391b30c 100644
--- a/uni/motion.hpp
+++ b/uni/motion.hpp
@@ -50,7 +50,7 @@ using MotionTracks = Element<List<MotionTrack>>;
 
 class Motion : public Base {
 public:
-  using iterator_type_const = MotionTracks::element_type::iterator_type_const;
+  using iterator_type_const = ElementIterator<List<MotionTrack>>;
   enum MotionType_e { Absolute, Relative, Additive, Delta };
 
   virtual std::string Name() const = 0;
@@ -60,8 +60,8 @@ public:
   virtual MotionTracksConst Tracks() const = 0;
   virtual MotionType_e MotionType() const = 0;
 
-  iterator_type_const begin() const { return Tracks()->begin(); }
-  iterator_type_const end() const { return Tracks()->end(); }
+  iterator_type_const begin() const { return {Tracks(), 0}; }
+  iterator_type_const end() const { return iterator_type_const(Tracks()); }
 };
 
 using MotionsConst = Element<const List<Motion>>;
diff --git a/uni/skeleton.hpp b/uni/skeleton.hpp
index a9bffdf..ede862a 100644
--- a/uni/skeleton.hpp
+++ b/uni/skeleton.hpp
@@ -41,14 +41,13 @@ using SkeletonBones = Element<List<Bone>>;
 
 class Skeleton : public Base {
 public:
-  using iterator_type_const =
-      SkeletonBonesConst::element_type::iterator_type_const;
+  using iterator_type_const = ElementIterator<List<Bone>>;
 
   virtual SkeletonBonesConst Bones() const = 0;
   virtual std::string Name() const = 0;
 
-  iterator_type_const begin() const { return Bones()->begin(); }
-  iterator_type_const end() const { return Bones()->end(); }
+  iterator_type_const begin() const { return {Bones(), 0}; }
+  iterator_type_const end() const { return iterator_type_const(Bones()); }
 };
 
 using SkeletonsConst = Element<const List<Skeleton>>;
-- 
2.43.0


From 0f2ad9c57e50119507f1fd3a5549678701b50ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:49 +0000
Subject: [PATCH 089/121] fix: next wave chunk is after header and data of the
 current one

---
 formats/WAVE.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/formats/WAVE.hpp b/formats/WAVE.hpp
index 06e1f64..3f7f16f 100644
--- a/formats/WAVE.hpp
+++ b/formats/WAVE.hpp
@@ -26,7 +26,8 @@ struct WAVEGenericHeader {
 
   WAVEGenericHeader *Next() {
     return reinterpret_cast<WAVEGenericHeader *>(
-        reinterpret_cast<char *>(this) + chunkSize);
+        reinterpret_cast<char *>(this) + sizeof(WAVEGenericHeader) +
+        chunkSize);
   }
 };
 
-- 
2.43.0


From e5118b0d5fc3b2c1d1c18391453db256c552c7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:49 +0000
Subject: [PATCH 090/121] fix: wave chunks of odd sizes are padded

---
 formats/WAVE.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/formats/WAVE.hpp b/formats/WAVE.hpp
index 3f7f16f..1afb104 100644
--- a/formats/WAVE.hpp
+++ b/formats/WAVE.hpp
@@ -27,7 +27,7 @@ struct WAVEGenericHeader {
   WAVEGenericHeader *Next() {
     return reinterpret_cast<WAVEGenericHeader *>(
         reinterpret_cast<char *>(this) + sizeof(WAVEGenericHeader) +
-        chunkSize);
+        chunkSize + (chunkSize & 1));
   }
 };
 
-- 
2.43.0


From 3cfdbe58c083a637c8c10c708f1d289721117dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:04 +0000
Subject: [PATCH 091/121] fix: help of settings without descriptions crashed

---
 datas/settings_manager.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/datas/settings_manager.hpp b/datas/settings_manager.hpp
index 04442ee..f2c295f 100644
--- a/datas/settings_manager.hpp
+++ b/datas/settings_manager.hpp
@@ -80,11 +80,10 @@ template <class Base> struct SettingsManager : public ReflectorBase<Base> {
 
     for (size_t i = 0; i < ref->nTypes; i++) {
       es::string_view elName = ref->typeNames[i];
-      auto elDesc = ref->typeDescs[i];
       fillIndent() << elName << std::endl;
 
-      if (!elDesc.part1.empty()) {
-        fillIndent(1) << elDesc.part1 << std::endl;
+      if (ref->typeDescs && !ref->typeDescs[i].part1.empty()) {
+        fillIndent(1) << ref->typeDescs[i].part1 << std::endl;
       }
 
       auto fl = ref->types[i];
-- 
2.43.0


From 12a205a12f05788ec7ed45d5b6d3764412126d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:20 +0000
Subject: [PATCH 092/121] fix: FourCC of characters above 127 had upper bytes
 set

---
 datas/supercore.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/supercore.hpp b/datas/supercore.hpp
index 36c1316..5ba490d 100644
--- a/datas/supercore.hpp
+++ b/datas/supercore.hpp
@@ -38,7 +38,7 @@ ES_STATIC_ASSERT(atohLUT[uint8('F')] == 15);
 template <size_t n> constexpr uint32 CompileFourCC(const char (&input)[n]) {
   uint32 retVal = 0;
   for (size_t i = 0; i < sizeof(retVal); i++) {
-    const uint32 tmp = input[i];
+    const uint32 tmp = static_cast<uint8>(input[i]);
     retVal |= tmp << (8 * i);
   }
 
-- 
2.43.0


From 4e0cf704339863557daaf4991089abf228b5b4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:33 +0000
Subject: [PATCH 093/121] fix: hex digit table took letter g for zero and ended
 there

---
 datas/supercore.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/datas/supercore.hpp b/datas/supercore.hpp
index 5ba490d..c512faa 100644
--- a/datas/supercore.hpp
+++ b/datas/supercore.hpp
@@ -26,7 +26,9 @@
 static constexpr uint8 atohLUT[] = {
     "................................................"
     "\x0\x1\x2\x3\x4\x5\x6\x7\x8\x9.......\xa\xb\xc\xd\xe\xf..................."
-    ".......\xa\xb\xc\xd\xe\xf"};
+    ".......\xa\xb\xc\xd\xe\xf........................."
+    "................................................................"
+    "................................................................"};
 
 ES_STATIC_ASSERT(atohLUT[uint8('0')] == 0);
 ES_STATIC_ASSERT(atohLUT[uint8('9')] == 9);
-- 
2.43.0


From e541abbcd2d98f971ab6d18856bef7dd6f6a4a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:33 +0000
Subject: [PATCH 094/121] fix: magics with zero bytes were cut in errors, long
 ones were read past their end

---
 datas/except.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/datas/except.hpp b/datas/except.hpp
index f2d5ce6..1885db2 100644
--- a/datas/except.hpp
+++ b/datas/except.hpp
@@ -18,6 +18,7 @@
 
 #pragma once
 #include "string_view.hpp"
+#include <cctype>
 #include <cinttypes>
 #include <cstring>
 #include <stdexcept>
@@ -46,12 +47,14 @@ class InvalidHeaderError : public std::runtime_error {
 public:
   static std::string DecompileFourCC(size_t magic, size_t size) {
     const char *rMagic = reinterpret_cast<const char *>(&magic);
-    const size_t capSize =
-        std::min(size, es::string_view::traits_type::length(rMagic));
+    size_t capSize = size < sizeof(magic) ? size : sizeof(magic);
+    while (capSize && !rMagic[capSize - 1]) {
+      capSize--;
+    }
     bool isAlNum = true;
 
     for (size_t c = 0; c < capSize; c++) {
-      if (!isalnum(rMagic[c])) {
+      if (!isalnum(static_cast<unsigned char>(rMagic[c]))) {
         isAlNum = false;
         break;
       }
-- 
2.43.0


From 0e00f5696651321893bc8f5bb42c17a6f63f7e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:33 +0000
Subject: [PATCH 095/121] fix: test macros misread compound operands

---
 datas/unit_testing.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/datas/unit_testing.hpp b/datas/unit_testing.hpp
index 708f678..3f4975f 100644
--- a/datas/unit_testing.hpp
+++ b/datas/unit_testing.hpp
@@ -86,40 +86,40 @@ MasterPrinterThread &PrintCheckFailed(const A &aVal, const B &bVal,
   }
 
 #define TEST_CHECK(val)                                                        \
-  if (!val) {                                                                  \
+  if (!(val)) {                                                                \
     _CHECK_FAILED_TMP(#val);                                                   \
     return 1;                                                                  \
   }
 
 #define TEST_EQUAL(val1, val2)                                                 \
-  if (val1 != val2) {                                                          \
+  if ((val1) != (val2)) {                                                      \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " != ", __FILE__,           \
                          __LINE__);                                            \
     return 1;                                                                  \
   }
 
 #define TEST_GT(val1, val2)                                                    \
-  if (val1 <= val2) {                                                          \
+  if ((val1) <= (val2)) {                                                      \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " <= ", __FILE__,           \
                          __LINE__);                                            \
     return 1;                                                                  \
   }
 
 #define TEST_LT(val1, val2)                                                    \
-  if (val1 >= val2) {                                                          \
+  if ((val1) >= (val2)) {                                                      \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " >= ", __FILE__,           \
                          __LINE__);                                            \
     return 1;                                                                  \
   }
 
 #define TEST_GT_EQ(val1, val2)                                                 \
-  if (val1 < val2) {                                                           \
+  if ((val1) < (val2)) {                                                       \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " < ", __FILE__, __LINE__); \
     return 1;                                                                  \
   }
 
 #define TEST_LE_EQ(val1, val2)                                                 \
-  if (val1 > val2) {                                                           \
+  if ((val1) > (val2)) {                                                       \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " > ", __FILE__, __LINE__); \
     return 1;                                                                  \
   }
@@ -131,7 +131,7 @@ MasterPrinterThread &PrintCheckFailed(const A &aVal, const B &bVal,
   }
 
 #define TEST_NOT_EQUAL(val1, val2)                                             \
-  if (val1 == val2) {                                                          \
+  if ((val1) == (val2)) {                                                      \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " == ", __FILE__,           \
                          __LINE__);                                            \
     return 1;                                                                  \
-- 
2.43.0


From 07ba054fa312a84a17abe0dd190653b85612426f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:56 +0000
Subject: [PATCH 096/121] fix: to_wstring of vectors did not compile

---
 datas/vectors_string.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/datas/vectors_string.hpp b/datas/vectors_string.hpp
index 7125d94..02eb461 100644
--- a/datas/vectors_string.hpp
+++ b/datas/vectors_string.hpp
@@ -34,16 +34,16 @@ template <class C> string to_string(const t_Vector4_<C> &type) {
          ' ' + to_string(type.w);
 }
 
-template <class C> string to_wstring(const t_Vector2<C> &type) {
+template <class C> wstring to_wstring(const t_Vector2<C> &type) {
   return to_wstring(type.x) + L' ' + to_wstring(type.y);
 }
 
-template <class C> string to_wstring(const t_Vector<C> &type) {
+template <class C> wstring to_wstring(const t_Vector<C> &type) {
   return to_wstring(type.x) + L' ' + to_wstring(type.y) + L' ' +
          to_wstring(type.z);
 }
 
-template <class C> string to_wstring(const t_Vector4_<C> &type) {
+template <class C> wstring to_wstring(const t_Vector4_<C> &type) {
   return to_wstring(type.x) + L' ' + to_wstring(type.y) + L' ' +
          to_wstring(type.z) + L' ' + to_wstring(type.w);
 }
-- 
2.43.0


From a886d65b54480cec10aa947d5f186526b1601e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:28 +0000
Subject: [PATCH 097/121] fix: xorenc.hpp needed datas among include folders

---
 datas/encrypt/xorenc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datas/encrypt/xorenc.hpp b/datas/encrypt/xorenc.hpp
index d778b32..08611ee 100644
--- a/datas/encrypt/xorenc.hpp
+++ b/datas/encrypt/xorenc.hpp
@@ -18,7 +18,7 @@
 
 #pragma once
 #include "encryptor.hpp"
-#include "supercore.hpp"
+#include "../supercore.hpp"
 
 class XOREncoder : public IEncryptor {
   es::string_view key;
-- 
2.43.0


From 04e59a6d47820a21578cc73a10db50cd6b2abd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 098/121] fix: SIMD block decoder had no include guard

---
 formats/BlockDecoderSimd.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/BlockDecoderSimd.hpp b/formats/BlockDecoderSimd.hpp
index f9e92f1..2cb8566 100644
--- a/formats/BlockDecoderSimd.hpp
+++ b/formats/BlockDecoderSimd.hpp
@@ -16,6 +16,7 @@
     limitations under the License.
 */
 
+#pragma once
 #include "datas/vectors_simd.hpp"
 #include <cstring>
 
-- 
2.43.0


From c445bae1e3ed6f6ec394aee0991088884c820db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 099/121] fix: virtual_iterator.hpp lacked includes

---
 uni/virtual_iterator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uni/virtual_iterator.hpp b/uni/virtual_iterator.hpp
index e240083..1d0bec4 100644
--- a/uni/virtual_iterator.hpp
+++ b/uni/virtual_iterator.hpp
@@ -16,7 +16,9 @@
 */
 
 #pragma once
+#include <cstddef>
 #include <functional>
+#include <iterator>
 
 namespace uni {
 template <class containerClass, size_t (containerClass::*Counter)() const,
-- 
2.43.0


From 701107646f78800acba1330299d106998d0136ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:33 +0000
Subject: [PATCH 100/121] fix: pointer.hpp lacked include of fixed width types

---
 datas/pointer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datas/pointer.hpp b/datas/pointer.hpp
index 73aa456..34fe25b 100644
--- a/datas/pointer.hpp
+++ b/datas/pointer.hpp
@@ -18,6 +18,7 @@
 #pragma once
 #include "supercore.hpp"
 #include <algorithm>
+#include <cstdint>
 #include <vector>
 
 namespace es {
-- 
2.43.0


From 3b42f8aec1d9f4d30e56236228f77c25cec1db77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:33 +0000
Subject: [PATCH 101/121] fix: ZIP inline files couldn't be included along with
 zip_vfs.hpp

---
 formats/ZIP_istream.inl | 1 +
 formats/ZIP_ostream.inl | 1 +
 2 files changed, 2 insertions(+)

diff --git a/formats/ZIP_istream.inl b/formats/ZIP_istream.inl
index b7a631e..80f8cb1 100644
--- a/formats/ZIP_istream.inl
+++ b/formats/ZIP_istream.inl
@@ -15,6 +15,7 @@
     limitations under the License.
 */
 
+#pragma once
 #include "ZIP.hpp"
 #include "datas/binreader_stream.hpp"
 
diff --git a/formats/ZIP_ostream.inl b/formats/ZIP_ostream.inl
index 55aa377..276a7c9 100644
--- a/formats/ZIP_ostream.inl
+++ b/formats/ZIP_ostream.inl
@@ -15,6 +15,7 @@
     limitations under the License.
 */
 
+#pragma once
 #include "ZIP.hpp"
 #include "datas/binwritter_stream.hpp"
 
-- 
2.43.0


From 9d581add4955d9d57b238785532e68e01ec0acef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:33 +0000
Subject: [PATCH 102/121] fix: BlockDecoder.inl couldn't be included twice

---
 formats/BlockDecoder.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/formats/BlockDecoder.inl b/formats/BlockDecoder.inl
index 4ddaf32..8151976 100644
--- a/formats/BlockDecoder.inl
+++ b/formats/BlockDecoder.inl
@@ -16,6 +16,7 @@
     limitations under the License.
 */
 
+#pragma once
 #include "BlockDecoder.h"
 
 inline void _DecodeBC1Block(const char *data, char *obuffer, uint32 w, uint32 h,
-- 
2.43.0


From 088d1559b110f3c829785f55a813c2c32662341f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:29 +0000
Subject: [PATCH 103/121] fix: moved binary readers and writers kept the file
 of the one moved from

---
 datas/binreader.hpp  | 7 ++++++-
 datas/binwritter.hpp | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/datas/binreader.hpp b/datas/binreader.hpp
index 3ef4984..37203e8 100644
--- a/datas/binreader.hpp
+++ b/datas/binreader.hpp
@@ -37,7 +37,12 @@ public:
   }
   BinReader(const char *filePath) { OpenFile(filePath); }
   BinReader(const BinReader &) = delete;
-  BinReader(BinReader &&) = default;
+  BinReader(BinReader &&other)
+      : BinReaderRef(other), BinStreamFile(std::move(other)) {
+    if (this->baseStream) {
+      this->baseStream = &this->FileStream;
+    }
+  }
   BinReader &operator=(const BinReader &other) = delete;
 
   void Open(const std::string &filePath) { OpenFile(filePath); }
diff --git a/datas/binwritter.hpp b/datas/binwritter.hpp
index 155b74b..aae04ac 100644
--- a/datas/binwritter.hpp
+++ b/datas/binwritter.hpp
@@ -38,7 +38,12 @@ public:
   BinWritter(const char *filePath) { OpenFile(filePath); }
 
   BinWritter(const BinWritter &rd) = delete;
-  BinWritter(BinWritter &&) = default;
+  BinWritter(BinWritter &&other)
+      : BinWritterRef(other), BinStreamFile(std::move(other)) {
+    if (this->baseStream) {
+      this->baseStream = &this->FileStream;
+    }
+  }
   BinWritter &operator=(const BinWritter &other) = delete;
 
   void Open(const std::string &filePath) { OpenFile(filePath); }
-- 
2.43.0


From 953cf4fd56757445510d9d02d53c0f33b1423297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:34 +0000
Subject: [PATCH 104/121] fix: Python objects of the uni module were never
 freed

---
 uni/python/pylist.hpp     |  5 ++++-
 uni/python/pymotion.inl   |  8 ++++++--
 uni/python/pyskeleton.inl | 10 ++++++++--
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/uni/python/pylist.hpp b/uni/python/pylist.hpp
index e757a5a..01a44b5 100644
--- a/uni/python/pylist.hpp
+++ b/uni/python/pylist.hpp
@@ -84,7 +84,10 @@ template <class Info> struct List {
     return &typeObject;
   }
 
-  static void Dealloc(List *self) { auto t0 = std::move(self->cList); }
+  static void Dealloc(List *self) {
+    { auto t0 = std::move(self->cList); }
+    Py_TYPE(self)->tp_free(self);
+  }
 
   static size_t Len(List *self) { return self->cList->Size(); }
 
diff --git a/uni/python/pymotion.inl b/uni/python/pymotion.inl
index 02dc731..e3cf504 100644
--- a/uni/python/pymotion.inl
+++ b/uni/python/pymotion.inl
@@ -150,7 +150,8 @@ static PyTypeObject motionTrackType = {
 PyTypeObject *MotionTrack::GetType() { return &motionTrackType; }
 
 void MotionTrack::Dealloc(MotionTrack *self) {
-  auto t0 = std::move(self->item);
+  { auto t0 = std::move(self->item); }
+  Py_TYPE(self)->tp_free(self);
 }
 
 PyObject *MotionTrack::TrackType(MotionTrack *self) {
@@ -280,7 +281,10 @@ PyTypeObject *Motion::GetType() { return &motionType; }
 
 PyTypeObject *Motion::GetListType() { return MotionList::GetType(); }
 
-void Motion::Dealloc(Motion *self) { auto t0 = std::move(self->item); }
+void Motion::Dealloc(Motion *self) {
+  { auto t0 = std::move(self->item); }
+  Py_TYPE(self)->tp_free(self);
+}
 
 PyObject *Motion::MotionType(Motion *self) {
   return PyLong_FromSize_t(self->item->MotionType());
diff --git a/uni/python/pyskeleton.inl b/uni/python/pyskeleton.inl
index 8d09514..ca7c92d 100644
--- a/uni/python/pyskeleton.inl
+++ b/uni/python/pyskeleton.inl
@@ -114,7 +114,10 @@ static PyTypeObject boneType = {
 
 PyTypeObject *Bone::GetType() { return &boneType; }
 
-void Bone::Dealloc(Bone *self) { auto t0 = std::move(self->item); }
+void Bone::Dealloc(Bone *self) {
+  { auto t0 = std::move(self->item); }
+  Py_TYPE(self)->tp_free(self);
+}
 
 PyObject *Bone::GetTMType(Bone *self) {
   return PyLong_FromLong(self->item->TMType());
@@ -218,7 +221,10 @@ static PyTypeObject skeletonType = {
 
 PyTypeObject *Skeleton::GetType() { return &skeletonType; }
 
-void Skeleton::Dealloc(Skeleton *self) { auto t0 = std::move(self->item); }
+void Skeleton::Dealloc(Skeleton *self) {
+  { auto t0 = std::move(self->item); }
+  Py_TYPE(self)->tp_free(self);
+}
 
 PyObject *Skeleton::Name(Skeleton *self) {
   auto skName = self->item->Name();
-- 
2.43.0


From d4a37378e2963daa9701f679b6c8ae66beb0fba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:09 +0000
Subject: [PATCH 105/121] fix: Python lists of the uni module read behind their
 ends

---
 uni/python/pylist.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/uni/python/pylist.hpp b/uni/python/pylist.hpp
index 01a44b5..c030c5f 100644
--- a/uni/python/pylist.hpp
+++ b/uni/python/pylist.hpp
@@ -93,6 +93,16 @@ template <class Info> struct List {
 
   static PyObject *Subscript(List *self, PyObject *index) {
     const auto id = PyInt_AsSsize_t(index);
+
+    if (id == -1 && PyErr_Occurred()) {
+      return nullptr;
+    }
+
+    if (id < 0 || static_cast<size_t>(id) >= Len(self)) {
+      PyErr_SetString(PyExc_IndexError, "index out of range");
+      return nullptr;
+    }
+
     return self->SubscriptRaw(id);
   }
 
-- 
2.43.0


From 8e542481afdc269980683b00e058dff6743bf026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:09 +0000
Subject: [PATCH 106/121] fix: loops over Python lists of the uni module
 dropped a foreign reference

---
 uni/python/pylist.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/uni/python/pylist.hpp b/uni/python/pylist.hpp
index c030c5f..9ad6b63 100644
--- a/uni/python/pylist.hpp
+++ b/uni/python/pylist.hpp
@@ -115,6 +115,7 @@ template <class Info> struct List {
 
   static PyObject *Iter(List *self) {
     self->iterPos = 0;
+    Py_INCREF(self);
     return reinterpret_cast<PyObject *>(self);
   }
 
-- 
2.43.0


From a16528cdc3885758f9608986fa7aa00c6753cbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:09 +0000
Subject: [PATCH 107/121] fix: Python bindings of the uni module returned None
 without a reference

---
 uni/python/pymotion.inl   | 3 ++-
 uni/python/pyskeleton.inl | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/uni/python/pymotion.inl b/uni/python/pymotion.inl
index e3cf504..9075a3b 100644
--- a/uni/python/pymotion.inl
+++ b/uni/python/pymotion.inl
@@ -216,7 +216,8 @@ PyObject *MotionTrack::GetValues(MotionTrack *self, PyObject *index) {
     break;
   }
   default:
-    return Py_None;
+    Py_DECREF(retList);
+    Py_RETURN_NONE;
   }
 
   return retList;
diff --git a/uni/python/pyskeleton.inl b/uni/python/pyskeleton.inl
index ca7c92d..245f22e 100644
--- a/uni/python/pyskeleton.inl
+++ b/uni/python/pyskeleton.inl
@@ -136,7 +136,7 @@ PyObject *Bone::GetTM(Bone *self) {
     return Py_BuildValue(rts);
   }
   default:
-    return Py_None;
+    Py_RETURN_NONE;
   }
 }
 
@@ -157,7 +157,7 @@ PyObject *Bone::GetParent(Bone *self) {
     rtVal->item = {bne, false};
     return reinterpret_cast<PyObject *>(rtVal);
   } else {
-    return Py_None;
+    Py_RETURN_NONE;
   }
 }
 
-- 
2.43.0


From bd476c5b4c4480b4812663614084166cbf5856b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:45 +0000
Subject: [PATCH 108/121] fix: errors of setting framerate from Python were
 lost or left the binding

---
 uni/python/pymotion.inl | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/uni/python/pymotion.inl b/uni/python/pymotion.inl
index 9075a3b..8175c77 100644
--- a/uni/python/pymotion.inl
+++ b/uni/python/pymotion.inl
@@ -21,6 +21,7 @@
 #include "pylist.hpp"
 #include "pymotion.hpp"
 #include "pyrts.hpp"
+#include <exception>
 #include <vector>
 
 namespace UniPy {
@@ -309,7 +310,24 @@ PyObject *Motion::FrameRate(Motion *self) {
 }
 
 int Motion::SetFrameRate(Motion *self, PyObject *var) {
-  self->sitem->FrameRate(PyLong_AsLong(var));
+  if (!var) {
+    PyErr_SetString(PyExc_TypeError, "framerate can't be deleted");
+    return -1;
+  }
+
+  const auto frameRate = PyLong_AsLong(var);
+
+  if (frameRate == -1 && PyErr_Occurred()) {
+    return -1;
+  }
+
+  try {
+    self->sitem->FrameRate(frameRate);
+  } catch (const std::exception &e) {
+    PyErr_SetString(PyExc_RuntimeError, e.what());
+    return -1;
+  }
+
   return 0;
 }
 
-- 
2.43.0


From ecbcc5a294c7e438dad8c363df6ffd8338d6ed22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:45 +0000
Subject: [PATCH 109/121] fix: MotionTrack.get_values took times that are not
 numbers

---
 uni/python/pymotion.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/uni/python/pymotion.inl b/uni/python/pymotion.inl
index 8175c77..482af6f 100644
--- a/uni/python/pymotion.inl
+++ b/uni/python/pymotion.inl
@@ -175,6 +175,10 @@ PyObject *MotionTrack::GetValues(MotionTrack *self, PyObject *index) {
 
   for (auto &t : times) {
     t = static_cast<float>(PyFloat_AsDouble(*cObj++));
+
+    if (PyErr_Occurred()) {
+      return nullptr;
+    }
   }
 
   auto retList = PyList_New(times.size());
-- 
2.43.0


From 68861f668365e2235c94587162f593d1e880c530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:25 +0000
Subject: [PATCH 110/121] fix: names of reflected enums in Python were read
 behind the last one

---
 datas/python/reflected_enum.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datas/python/reflected_enum.hpp b/datas/python/reflected_enum.hpp
index 8d87cda..d8660bd 100644
--- a/datas/python/reflected_enum.hpp
+++ b/datas/python/reflected_enum.hpp
@@ -93,6 +93,11 @@ template <class E, const char *const doc = nullptr> struct ReflectedEnumPy {
   }
 
   static PyObject *SubscriptRaw(size_t index) {
+    if (index >= GetEnum().size()) {
+      PyErr_SetString(PyExc_IndexError, "index out of range");
+      return nullptr;
+    }
+
     auto eName = GetEnum()[index];
     return PyString_FromStringAndSize(eName.data(), eName.size());
   }
-- 
2.43.0


From e0072daee5e4d5866c73caad4c71561d774c5394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:51 +0000
Subject: [PATCH 111/121] fix: UniPy::Skeleton::GetListType was declared but
 not defined

---
 uni/python/pyskeleton.inl | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/uni/python/pyskeleton.inl b/uni/python/pyskeleton.inl
index 245f22e..8e5fafd 100644
--- a/uni/python/pyskeleton.inl
+++ b/uni/python/pyskeleton.inl
@@ -221,6 +221,8 @@ static PyTypeObject skeletonType = {
 
 PyTypeObject *Skeleton::GetType() { return &skeletonType; }
 
+PyTypeObject *Skeleton::GetListType() { return SkeletonList::GetType(); }
+
 void Skeleton::Dealloc(Skeleton *self) {
   { auto t0 = std::move(self->item); }
   Py_TYPE(self)->tp_free(self);
-- 
2.43.0


From 6c75e0ad0264e5b303d3bf833d3472b988c03c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:32 +0000
Subject: [PATCH 112/121] fix: bit fields of a single member could be declared
 but not used

---
 datas/bitfield.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/datas/bitfield.hpp b/datas/bitfield.hpp
index ea34a8b..ddce8d1 100644
--- a/datas/bitfield.hpp
+++ b/datas/bitfield.hpp
@@ -71,9 +71,17 @@ protected:
 };
 
 template <class head> struct BitField<head> {
+  static constexpr size_t numItems = 1;
   using type = head;
   static constexpr size_t totalSize = type::size;
 
+  static constexpr BitMember Get(size_t) { return {0, head::size}; }
+
+  template <class memdecl> static constexpr BitMember Get() {
+    return Get(memdecl::index);
+  }
+
+protected:
   static constexpr BitMember Get_(size_t, size_t size) {
     return {size - totalSize, head::size};
   }
-- 
2.43.0


From 3ae2915f96ee7d1bee7270b379594e8ec451b8f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:32 +0000
Subject: [PATCH 113/121] fix: text of flags with unnamed bits set had empty
 parts

---
 datas/reflector.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 5728212..405df51 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -782,11 +782,13 @@ static std::string PrintEnumFlags(const char *objAddr, JenHash hash,
 
   for (size_t t = 0; t < numBits; t++) {
     if (eValue & (1ULL << t)) {
-      if (result.size())
-        result.append(" | ");
-
       try {
-        result.append(PrintEnumValue(hash, t, &rEnumFallback));
+        const es::string_view name = PrintEnumValue(hash, t, &rEnumFallback);
+
+        if (result.size())
+          result.append(" | ");
+
+        result.append(name);
       } catch (const std::out_of_range &) {
         printerror("[Reflector] Unregistered enum hash: " << hash.raw());
         break;
-- 
2.43.0


From 285a25d2762a31aa64d26241cb1dc2d91970fa4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:25 +0000
Subject: [PATCH 114/121] fix: a second log of a settings class was lost

---
 datas/settings_manager.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/datas/settings_manager.hpp b/datas/settings_manager.hpp
index f2c295f..96f08fc 100644
--- a/datas/settings_manager.hpp
+++ b/datas/settings_manager.hpp
@@ -45,6 +45,11 @@ template <class Base> struct SettingsManager : public ReflectorBase<Base> {
               &timeStruct);
     logName.append(std::to_string(dateBuffer));
     logName.append(".txt");
+
+    if (GetLogger().is_open()) {
+      GetLogger().close();
+    }
+
     GetLogger().open(ToTSTRING(logName), std::ios::out);
     printer.AddPrinterFunction(SettingsManager::printf, false);
 
-- 
2.43.0


From 1c0c96248babd91e5b912425c5d31687d2598fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:49 +0000
Subject: [PATCH 115/121] fix: blowfish left buffers of 16 GB and more
 untouched

---
 datas/encrypt/blowfish.cpp | 40 +++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/datas/encrypt/blowfish.cpp b/datas/encrypt/blowfish.cpp
index 0ccd6b8..5f7a495 100644
--- a/datas/encrypt/blowfish.cpp
+++ b/datas/encrypt/blowfish.cpp
@@ -313,10 +313,10 @@ void BlowfishEncoder::Decode(char *buffer, size_t size) const {
 }
 
 void BlowfishEncoder::EncodeECB(char *buffer, size_t size) const {
-  const int numblocks = static_cast<int>(size / 8);
+  const size_t numblocks = size / 8;
   const int restbytes = static_cast<int>(size % 8);
 
-  for (int b = 0; b < numblocks; b++) {
+  for (size_t b = 0; b < numblocks; b++) {
     char *curBuffer = buffer + (8 * b);
     uint64 &block = reinterpret_cast<uint64 &>(*curBuffer);
     EncodeBlock(block);
@@ -324,10 +324,10 @@ void BlowfishEncoder::EncodeECB(char *buffer, size_t size) const {
 }
 
 void BlowfishEncoder::DecodeECB(char *buffer, size_t size) const {
-  const int numblocks = static_cast<int>(size / 8);
+  const size_t numblocks = size / 8;
   const int restbytes = static_cast<int>(size % 8);
 
-  for (int b = 0; b < numblocks; b++) {
+  for (size_t b = 0; b < numblocks; b++) {
     char *curBuffer = buffer + (8 * b);
     uint64 &block = reinterpret_cast<uint64 &>(*curBuffer);
     DecodeBlock(block);
@@ -335,11 +335,11 @@ void BlowfishEncoder::DecodeECB(char *buffer, size_t size) const {
 }
 
 void BlowfishEncoder::EncodeCBC(char *buffer, size_t size) const {
-  const int numblocks = static_cast<int>(size / 8);
+  const size_t numblocks = size / 8;
   const int restbytes = static_cast<int>(size % 8);
   uint64 currentVector = eVector;
 
-  for (int b = 0; b < numblocks; b++) {
+  for (size_t b = 0; b < numblocks; b++) {
     char *curBuffer = buffer + (8 * b);
     uint64 &block = reinterpret_cast<uint64 &>(*curBuffer);
     block ^= currentVector;
@@ -349,12 +349,12 @@ void BlowfishEncoder::EncodeCBC(char *buffer, size_t size) const {
 }
 
 void BlowfishEncoder::DecodeCBC(char *buffer, size_t size) const {
-  const int numblocks = static_cast<int>(size / 8);
+  const size_t numblocks = size / 8;
   const int restbytes = static_cast<int>(size % 8);
   uint64 currentVector = eVector;
   uint64 lastVector = 0;
 
-  for (int b = 0; b < numblocks; b++) {
+  for (size_t b = 0; b < numblocks; b++) {
     char *curBuffer = buffer + (8 * b);
     uint64 &block = reinterpret_cast<uint64 &>(*curBuffer);
     lastVector = block;
@@ -365,12 +365,12 @@ void BlowfishEncoder::DecodeCBC(char *buffer, size_t size) const {
 }
 
 void BlowfishEncoder::EncodePCBC(char *buffer, size_t size) const {
-  const int numblocks = static_cast<int>(size / 8);
+  const size_t numblocks = size / 8;
   const int restbytes = static_cast<int>(size % 8);
   uint64 currentVector = eVector;
   uint64 lastVector = 0;
 
-  for (int b = 0; b < numblocks; b++) {
+  for (size_t b = 0; b < numblocks; b++) {
     char *curBuffer = buffer + (8 * b);
     uint64 &block = reinterpret_cast<uint64 &>(*curBuffer);
     lastVector = block;
@@ -381,12 +381,12 @@ void BlowfishEncoder::EncodePCBC(char *buffer, size_t size) const {
 }
 
 void BlowfishEncoder::DecodePCBC(char *buffer, size_t size) const {
-  const int numblocks = static_cast<int>(size / 8);
+  const size_t numblocks = size / 8;
   const int restbytes = static_cast<int>(size % 8);
   uint64 currentVector = eVector;
   uint64 lastVector = 0;
 
-  for (int b = 0; b < numblocks; b++) {
+  for (size_t b = 0; b < numblocks; b++) {
     char *curBuffer = buffer + (8 * b);
     uint64 &block = reinterpret_cast<uint64 &>(*curBuffer);
     lastVector = block;
@@ -397,11 +397,11 @@ void BlowfishEncoder::DecodePCBC(char *buffer, size_t size) const {
 }
 
 void BlowfishEncoder::EncodeCFB(char *buffer, size_t size) const {
-  const int numblocks = static_cast<int>(size / 8);
+  const size_t numblocks = size / 8;
   const int restbytes = static_cast<int>(size % 8);
   uint64 currentVector = eVector;
 
-  for (int b = 0; b < numblocks; b++) {
+  for (size_t b = 0; b < numblocks; b++) {
     char *curBuffer = buffer + (8 * b);
     uint64 &block = reinterpret_cast<uint64 &>(*curBuffer);
     EncodeBlock(currentVector);
@@ -411,12 +411,12 @@ void BlowfishEncoder::EncodeCFB(char *buffer, size_t size) const {
 }
 
 void BlowfishEncoder::DecodeCFB(char *buffer, size_t size) const {
-  const int numblocks = static_cast<int>(size / 8);
+  const size_t numblocks = size / 8;
   const int restbytes = static_cast<int>(size % 8);
   uint64 currentVector = eVector;
   uint64 lastVector = 0;
 
-  for (int b = 0; b < numblocks; b++) {
+  for (size_t b = 0; b < numblocks; b++) {
     char *curBuffer = buffer + (8 * b);
     uint64 &block = reinterpret_cast<uint64 &>(*curBuffer);
     EncodeBlock(currentVector);
@@ -427,12 +427,12 @@ void BlowfishEncoder::DecodeCFB(char *buffer, size_t size) const {
 }
 
 void BlowfishEncoder::EncodeOFB(char *buffer, size_t size) const {
-  const int numblocks = static_cast<int>(size / 8);
+  const size_t numblocks = size / 8;
   const int restbytes = static_cast<int>(size % 8);
   uint64 currentVector = eVector;
   uint64 lastVector = 0;
 
-  for (int b = 0; b < numblocks; b++) {
+  for (size_t b = 0; b < numblocks; b++) {
     char *curBuffer = buffer + (8 * b);
     uint64 &block = reinterpret_cast<uint64 &>(*curBuffer);
     EncodeBlock(currentVector);
@@ -443,11 +443,11 @@ void BlowfishEncoder::EncodeOFB(char *buffer, size_t size) const {
 }
 
 void BlowfishEncoder::DecodeOFB(char *buffer, size_t size) const {
-  const int numblocks = static_cast<int>(size / 8);
+  const size_t numblocks = size / 8;
   const int restbytes = static_cast<int>(size % 8);
   uint64 currentVector = eVector;
 
-  for (int b = 0; b < numblocks; b++) {
+  for (size_t b = 0; b < numblocks; b++) {
     char *curBuffer = buffer + (8 * b);
     uint64 &block = reinterpret_cast<uint64 &>(*curBuffer);
     EncodeBlock(currentVector);
-- 
2.43.0


From 82624eb439ae4f74b1d1dca3278e08e792bd8ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:12 +0000
Subject: [PATCH 116/121] fix: directory scanner kept every parent folder open
 and lost files of deep ones

---
 datas/directory_scanner.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/datas/directory_scanner.cpp b/datas/directory_scanner.cpp
index 3fea690..8fb2ef2 100644
--- a/datas/directory_scanner.cpp
+++ b/datas/directory_scanner.cpp
@@ -65,6 +65,7 @@ void DirectoryScanner::ScanFolder(std::string dir) {
   }
 
   dirent *cFile = nullptr;
+  std::vector<std::pair<std::string, bool>> entries;
 
   while ((cFile = readdir(cDir)) != nullptr) {
     if (!strcmp(cFile->d_name, ".") || !strcmp(cFile->d_name, "..")) {
@@ -84,14 +85,20 @@ void DirectoryScanner::ScanFolder(std::string dir) {
       isFolder = !lstat(subFile.data(), &s) && S_ISDIR(s.st_mode);
     }
 
-    if (isFolder) {
-      ScanFolder(subFile + '/');
-    } else if (IsFilteredFile(miniFile)) {
-      files.push_back(subFile);
-    }
+    entries.emplace_back(std::move(miniFile), isFolder);
   }
 
+  // Number of open folders is limited, close this one before going deeper
   closedir(cDir);
+  dir.pop_back();
+
+  for (auto &e : entries) {
+    if (e.second) {
+      ScanFolder(dir + e.first + '/');
+    } else if (IsFilteredFile(e.first)) {
+      files.push_back(dir + e.first);
+    }
+  }
 #else
   dir.push_back('*');
   const auto wdir = ToTSTRING(dir);
-- 
2.43.0


From 416b009f1ba4a1398fada66723b422dee4a4857e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:31:47 +0000
Subject: [PATCH 117/121] fix: console colours of many digits overflowed their
 buffer

---
 datas/internal/master_printer_ix.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/datas/internal/master_printer_ix.inl b/datas/internal/master_printer_ix.inl
index 1f480a7..1816b87 100644
--- a/datas/internal/master_printer_ix.inl
+++ b/datas/internal/master_printer_ix.inl
@@ -17,8 +17,8 @@
 
 template <class _Func>
 void SetConsoleTextColor(_Func fc, int red, int green, int blue) {
-  char buffer[32] = {};
-  sprintf(buffer, "\033[38;2;%i;%i;%im", red, green, blue);
+  char buffer[64] = {};
+  snprintf(buffer, sizeof(buffer), "\033[38;2;%i;%i;%im", red, green, blue);
   fc(buffer);
 }
 
-- 
2.43.0


From 5045d209ff28d5c1f97f1a48d87d0106b40b7e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:31 +0000
Subject: [PATCH 118/121] fix: assign signed numbers to signed bit-field
 members

---
 datas/reflector.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/datas/reflector.cpp b/datas/reflector.cpp
index 405df51..d0bcfe8 100644
--- a/datas/reflector.cpp
+++ b/datas/reflector.cpp
@@ -110,6 +110,9 @@ template <class type> struct LimitProxy<BFTag<type>> {
         iMin(~iMax) {}
 };
 
+template <class type> struct IsSigned : std::is_signed<type> {};
+template <class type> struct IsSigned<BFTag<type>> : std::is_signed<type> {};
+
 template <typename T>
 static Reflector::ErrorType SetNumber(const std::string &input, T &output,
                                       std::true_type,
@@ -118,7 +121,7 @@ static Reflector::ErrorType SetNumber(const std::string &input, T &output,
   const int base =
       !input.compare(0, 2, "0x") || !input.compare(0, 3, "-0x") ? 16 : 10;
 
-  if (std::is_signed<T>::value) {
+  if (IsSigned<T>::value) {
     int64 value = 0;
     const int64 iMin = proxy.iMin;
     const int64 iMax = proxy.iMax;
-- 
2.43.0


From 43b834bb898cf3aa73a35ee86208b6ce67012130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:12:34 +0000
Subject: [PATCH 119/121] fix: ordering test macros pass for values that do not
 compare

---
 datas/unit_testing.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/datas/unit_testing.hpp b/datas/unit_testing.hpp
index 3f4975f..5eb4425 100644
--- a/datas/unit_testing.hpp
+++ b/datas/unit_testing.hpp
@@ -99,27 +99,27 @@ MasterPrinterThread &PrintCheckFailed(const A &aVal, const B &bVal,
   }
 
 #define TEST_GT(val1, val2)                                                    \
-  if ((val1) <= (val2)) {                                                      \
+  if (!((val1) > (val2))) {                                                    \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " <= ", __FILE__,           \
                          __LINE__);                                            \
     return 1;                                                                  \
   }
 
 #define TEST_LT(val1, val2)                                                    \
-  if ((val1) >= (val2)) {                                                      \
+  if (!((val1) < (val2))) {                                                    \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " >= ", __FILE__,           \
                          __LINE__);                                            \
     return 1;                                                                  \
   }
 
 #define TEST_GT_EQ(val1, val2)                                                 \
-  if ((val1) < (val2)) {                                                       \
+  if (!((val1) >= (val2))) {                                                   \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " < ", __FILE__, __LINE__); \
     return 1;                                                                  \
   }
 
 #define TEST_LE_EQ(val1, val2)                                                 \
-  if ((val1) > (val2)) {                                                       \
+  if (!((val1) <= (val2))) {                                                   \
     es::PrintCheckFailed(val1, val2, #val1, #val2, " > ", __FILE__, __LINE__); \
     return 1;                                                                  \
   }
-- 
2.43.0


From d0da5a6050f63f8903d175d20d89e49c54faffb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:14:31 +0000
Subject: [PATCH 120/121] fix: string views ignore width and fill of streams

---
 datas/internal/string_view.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index 1bf58df..565ce5d 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -622,8 +622,7 @@ namespace es {
   std::basic_ostream<CharT,Traits>& operator << ( std::basic_ostream<CharT,Traits>& o,
                                                   const basic_string_view<CharT,Traits>& str )
   {
-    o.write(str.data(),str.size());
-    return o;
+    return o << std::basic_string<CharT,Traits>( str.data(), str.size() );
   }
 
   template<typename CharT, typename Traits>
-- 
2.43.0


From aefbbea8a9414f69ad717cf1cfad21be90663097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:05 +0000
Subject: [PATCH 121/121] fix: searches of string views ignore their character
 traits

---
 datas/internal/string_view.inl | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/datas/internal/string_view.inl b/datas/internal/string_view.inl
index 565ce5d..9f5e7f6 100644
--- a/datas/internal/string_view.inl
+++ b/datas/internal/string_view.inl
@@ -302,7 +302,7 @@ namespace es {
     for (size_type i = pos; i <= max_index; ++i) {
       size_type j = 0;
 
-      for (; j < v.size() && v[j] == m_str[i + j]; ++j);
+      for (; j < v.size() && Traits::eq(v[j], m_str[i + j]); ++j);
 
       if (j == v.size())
         return i;
@@ -353,7 +353,7 @@ namespace es {
     for( size_type i = std::min(max_index,pos); i != npos; --i ) {
       size_type j = 0;
       for( ; j < v.size(); ++j ) {
-        if( v[j] != m_str[i+j] ) {
+        if( !Traits::eq( v[j], m_str[i+j] ) ) {
           break;
         }
       }
@@ -399,7 +399,7 @@ namespace es {
   {
     for( size_type i = pos; i < m_size; ++i ) {
       for( size_type j = 0; j < v.size(); ++j ) {
-        if( v[j] == m_str[i] ) {
+        if( Traits::eq( v[j], m_str[i] ) ) {
           return i;
         }
       }
@@ -446,7 +446,7 @@ namespace es {
 
     for( size_type i = std::min(m_size-1,pos); i != npos; --i ) {
       for( size_type j = 0; j < v.size(); ++j ) {
-        if( v[j] == m_str[i] ) {
+        if( Traits::eq( v[j], m_str[i] ) ) {
           return i;
         }
       }
@@ -493,7 +493,7 @@ namespace es {
     for( size_type i = pos; i < m_size; ++i ) {
       size_type j = 0;
       for( ; j < v.size(); ++j ) {
-        if( v[j] == m_str[i] ) {
+        if( Traits::eq( v[j], m_str[i] ) ) {
           break;
         }
       }
@@ -542,7 +542,7 @@ namespace es {
     for( size_type i = std::min(m_size-1,pos); i != npos; --i ) {
       size_type j = 0;
       for( ; j < v.size(); ++j ) {
-        if( v[j] == m_str[i] ) {
+        if( Traits::eq( v[j], m_str[i] ) ) {
           break;
         }
       }
-- 
2.43.0

