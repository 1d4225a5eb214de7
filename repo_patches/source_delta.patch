From df6cf2b559b51f828d453cfe61499fe880da60e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 01/31] fix: encode and decode both class bits of ASN.1
 identifiers

The two-bit class was masked with 0x02, so application became universal
and private became context-specific on both write and read.
---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 1718860..b003368 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -172,7 +172,7 @@ int crefl_asn1_ber_ident_read(crefl_buf *buf, asn1_id *_id)
         goto err;
     }
 
-    _id->_class =       (b >> 6) & 0x02;
+    _id->_class =       (b >> 6) & 0x03;
     _id->_constructed = (b >> 5) & 0x01;
     _id->_identifier =   b       & 0x1f;
 
@@ -196,7 +196,7 @@ int crefl_asn1_ber_ident_write(crefl_buf *buf, asn1_id _id)
 {
     int8_t b;
 
-    b = ( (u8)(_id._class       & 0x02) << 6 ) |
+    b = ( (u8)(_id._class       & 0x03) << 6 ) |
         ( (u8)(_id._constructed & 0x01) << 5 ) |
         ( (u8)(_id._identifier < 0x1f ? _id._identifier : 0x1f) );
 
-- 
2.43.0


From c4240c2d8ab5829a9a3d5fd9d951a871dfbf338a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 02/31] fix: refuse high tags and OID components longer than 56
 bits

The read loop stops after eight octets so the width never exceeds 56 and
an unterminated eighth octet was accepted as a truncated value, leaving
the remaining octets to be parsed as something else.
---
 src/asn1.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index b003368..7f4ebc5 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -114,7 +114,7 @@ int crefl_asn1_ber_tag_read(crefl_buf *buf, u64 *tag)
         w += 7;
     } while ((b & 0x80) && w < 56);
 
-    if (w > 56) {
+    if (b & 0x80) {
         goto err;
     }
 
-- 
2.43.0


From 75c0425cb9996ccbf190668f91abd571cbcc73d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:22 +0000
Subject: [PATCH 03/31] fix: refuse LEB128 values that continue past eight
 octets

The loop stops at 56 bits so the check on the width could not fail and
over-long encodings were accepted truncated.
---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 7f4ebc5..2e166b4 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2231,7 +2231,7 @@ int crefl_leb_u64_read(crefl_buf *buf, u64 *value)
         w += 7;
     } while ((b & 0x80) && w < 56);
 
-    if (w > 56) {
+    if (b & 0x80) {
         goto err;
     }
 
@@ -2256,7 +2256,7 @@ u64_result crefl_leb_u64_read_byval(crefl_buf *buf)
         w += 7;
     } while ((b & 0x80) && w < 56);
 
-    if (w > 56) {
+    if (b & 0x80) {
         return u64_result { 0, -1 };
     }
 
-- 
2.43.0


From 9a5424dc1934754c72d1291956938d84ca54efd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 04/31] fix: make crefl_buf_check_capacity able to report
 failure

It returned size_t, so the callers' '< 0' test was never true and LEB128
writes ran past the end of a short buffer. Compare against the remaining
space so that the sum cannot wrap around either.
---
 include/crefl/buf.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/crefl/buf.h b/include/crefl/buf.h
index ac69674..d346b15 100644
--- a/include/crefl/buf.h
+++ b/include/crefl/buf.h
@@ -91,9 +91,10 @@ static size_t crefl_buf_offset(crefl_buf* buf);
 
 #define CREFL_FN(Y,X) crefl_ ## Y ## _ ## X
 
-static inline size_t crefl_buf_check_capacity(crefl_buf *buf, size_t len)
+static inline int crefl_buf_check_capacity(crefl_buf *buf, size_t len)
 {
-    return (buf->data_offset + len > buf->data_size) ? -1 : 0;
+    return (buf->data_offset > buf->data_size ||
+            len > buf->data_size - buf->data_offset) ? -1 : 0;
 }
 
 #if USE_UNALIGNED_ACCESSES && !USE_CRT_MEMCPY
-- 
2.43.0


From 2f4deddea18a44c0f1ac1922c574d2720659ca27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 05/31] fix: do not let huge lengths wrap the buffer bounds
 check

data_offset + len wraps for lengths near SIZE_MAX, so the checked byte
reads and writes passed and copied out of bounds.
---
 include/crefl/buf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crefl/buf.h b/include/crefl/buf.h
index d346b15..e4e0d9f 100644
--- a/include/crefl/buf.h
+++ b/include/crefl/buf.h
@@ -212,7 +212,7 @@ static inline size_t crefl_buf_write_unchecked_i8(crefl_buf *buf, int8_t val)
 
 static inline size_t crefl_buf_write_bytes(crefl_buf* buf, const char *src, size_t len)
 {
-    if (buf->data_offset + len > buf->data_size) return 0;
+    if (crefl_buf_check_capacity(buf, len) < 0) return 0;
 #if USE_CRT_MEMCPY
     memcpy(&buf->data[buf->data_offset], src, len);
 #else
@@ -226,7 +226,7 @@ static inline size_t crefl_buf_write_bytes(crefl_buf* buf, const char *src, size
 
 static inline size_t crefl_buf_read_bytes(crefl_buf* buf, char *dst, size_t len)
 {
-    if (buf->data_offset + len > buf->data_size) return 0;
+    if (crefl_buf_check_capacity(buf, len) < 0) return 0;
 #if USE_CRT_MEMCPY
     memcpy(dst, &buf->data[buf->data_offset], len);
 #else
-- 
2.43.0


From 37888e4e53e3c5e04e23189f1fb1446c884d435f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 06/31] fix: refuse empty integer contents when reading

X.690 8.3.1 requires at least one contents octet; a zero length reached
a shift by 64, which is undefined.
---
 src/asn1.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 2e166b4..40661fb 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -378,7 +378,7 @@ int crefl_asn1_ber_integer_u64_read(crefl_buf *buf, size_t len, u64 *value)
     u64 v = 0, o = 0;
     size_t shift = (64 - len * 8);
 
-    if (len > 8) {
+    if (len < 1 || len > 8) {
         goto err;
     }
     if (crefl_buf_read_bytes(buf, (char*)&o, len) != len) {
@@ -403,7 +403,7 @@ u64_result crefl_asn1_ber_integer_u64_read_byval(crefl_buf *buf, size_t len)
     u64 v = 0, o = 0;
     size_t shift = (64 - len * 8);
 
-    if (len > 8) {
+    if (len < 1 || len > 8) {
         return { 0, -1 };
     }
     if (crefl_buf_read_bytes(buf, (char*)&o, len) != len) {
@@ -483,7 +483,7 @@ int crefl_le_ber_integer_u64_read(crefl_buf *buf, size_t len, u64 *value)
 {
     u64 v = 0, o = 0;
 
-    if (len > 8) {
+    if (len < 1 || len > 8) {
         goto err;
     }
 
@@ -510,7 +510,7 @@ u64_result crefl_le_ber_integer_u64_read_byval(crefl_buf *buf, size_t len)
 {
     u64 v = 0, o = 0;
 
-    if (len > 8) {
+    if (len < 1 || len > 8) {
         return u64_result { 0, -1 };
     }
 
-- 
2.43.0


From 3bf85160c5e70fab37b8570b2eddf0799e135405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 07/31] fix: refuse boolean contents that are not one octet

The length was ignored, so a boolean with an empty or longer contents
left the cursor in the middle of another object.
---
 src/asn1.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/asn1.cc b/src/asn1.cc
index 40661fb..27810e8 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -313,6 +313,9 @@ int crefl_asn1_ber_boolean_read(crefl_buf *buf, size_t len, bool *value)
 {
     int8_t b;
 
+    if (len != 1) {
+        goto err;
+    }
     if (crefl_buf_read_i8(buf, &b) != 1) {
         goto err;
     }
-- 
2.43.0


From 659d11d955aa64e1f93a6b17f52729afacb27841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:10 +0000
Subject: [PATCH 08/31] fix: check the whole octet string against the remaining
 buffer

Only the copied part was checked, so an object longer than the caller's
string moved the cursor past the end of the buffer.
---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 27810e8..a0310b5 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2590,7 +2590,7 @@ int crefl_asn1_ber_octets_read(crefl_buf *buf, size_t len, asn1_string *obj)
     size_t copy_count = len > obj->count ? obj->count : len;
 
     crefl_span span = crefl_buf_remaining(buf);
-    if (span.length < copy_count) {
+    if (span.length < len) {
         return -1;
     }
 
@@ -2608,7 +2608,7 @@ int crefl_asn1_ber_octets_write(crefl_buf *buf, size_t len, const asn1_string *o
     size_t copy_count = len > obj->count ? obj->count : len;
 
     crefl_span span = crefl_buf_remaining(buf);
-    if (span.length < copy_count) {
+    if (span.length < len) {
         return -1;
     }
 
-- 
2.43.0


From 8f9511ef351d813aa123b78ccc7137800c0164b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 09/31] fix: use the X.690 8.5.9 octets for REAL NaN and minus
 zero

0x42 is NOT-A-NUMBER and 0x43 is minus zero, as the comment above the
definitions says; the two were swapped.
---
 src/asn1.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index a0310b5..b2ce568 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -916,8 +916,8 @@ enum _real_decimal_nr {
 enum _real_special {
     _real_special_pos_inf   = 0b01000000,
     _real_special_neg_inf   = 0b01000001,
-    _real_special_neg_zero  = 0b01000010,
-    _real_special_nan       = 0b01000011,
+    _real_special_nan       = 0b01000010,
+    _real_special_neg_zero  = 0b01000011,
 };
 
 static _real_fmt _asn1_real_format(u8 x)
-- 
2.43.0


From 48f60698e52024a119998725e23da0b058cbd498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 10/31] fix: convert REAL mantissa and exponent correctly for
 every double

Subnormals were written with a wrong exponent, zero was shifted by 64,
and on read subnormals, zero mantissas with an exponent and exponents of
2047 and above were turned into other numbers, while the by-pointer
reader left the value untouched on failure. Do the conversion in one
place for both readers.
---
 src/asn1.cc | 90 ++++++++++++++++++++++-------------------------------
 1 file changed, 38 insertions(+), 52 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index b2ce568..c120fd8 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -963,16 +963,15 @@ static f64_asn1_data f64_asn1_data_get(double value)
 {
     u64 frac;
     s64 sexp;
-    size_t frac_tz, frac_lz;
+    size_t frac_tz;
 
     sexp = (s64)f64_exp_dec(value);
     frac = (s64)f64_mant_dec(value) | (-(s64)(sexp > 0) & f64_mant_prefix);
-    frac_tz = ctz(frac);
-    frac_lz = clz(frac);
-    frac >>= frac_tz;
-
-    if (sexp > 0) {
-        sexp += frac_lz + frac_tz - 63 - f64_exp_bias;
+    if (frac > 0) {
+        /* subnormals share the exponent of the smallest normal */
+        frac_tz = ctz(frac);
+        frac >>= frac_tz;
+        sexp += frac_tz + (sexp == 0) - f64_mant_size - f64_exp_bias;
     }
 
     return f64_asn1_data {
@@ -984,6 +983,35 @@ static f64_asn1_data f64_asn1_data_get(double value)
     };
 }
 
+/*
+ * IEEE 754 exponent is relative to the msb of the mantissa
+ * ASN.1 exponent is relative to the lsb of the mantissa
+ *
+ * left-justify the fraction, cropping off the IEEE 754 implied leading
+ * digit 0b1.xxx for normals and shifting it into place for subnormals.
+ */
+static int f64_asn1_data_set(bool sign, u64 frac, s64 sexp, double *value)
+{
+    s64 fexp = 0;
+
+    if (frac > 0) {
+        size_t frac_lz = clz(frac);
+        frac <<= frac_lz;
+        fexp = sexp + 63 - (s64)frac_lz + (s64)f64_exp_bias;
+        if (fexp >= (s64)f64_exp_mask) {
+            return -1;
+        } else if (fexp > 0) {
+            frac = (frac << 1) >> (64 - f64_mant_size);
+        } else {
+            frac = fexp > -52 ? frac >> (64 - f64_mant_size - fexp) : 0;
+            fexp = 0;
+        }
+    }
+
+    *value = f64_pack_float(f64_struct{frac, (u64)fexp, sign});
+    return 0;
+}
+
 size_t crefl_asn1_ber_real_f64_length(const double *value)
 {
     f64_asn1_data d = f64_asn1_data_get(*value);
@@ -1020,9 +1048,7 @@ int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
     size_t exp_len;
     u64 frac;
     s64 sexp;
-    u64 fexp;
     bool sign;
-    size_t frac_lz;
 
     if (crefl_buf_read_i8(buf, &b) != 1) {
         goto err;
@@ -1054,28 +1080,9 @@ int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
     if (crefl_asn1_ber_integer_u64_read(buf, frac_len, &frac) < 0) {
         goto err;
     }
-    frac_lz = clz(frac);
-
-    /*
-     * IEEE 754 exponent is relative to the msb of the mantissa
-     * ASN.1 exponent is relative to the lsb of the mantissa
-     *
-     * left-justify the fraction with the most significant set bit in bit 51
-     * (0-indexed) cropping off the IEEE 754 implied leading digit 0b1.xxx
-     */
-    if (frac == 1 && sexp == 0) {
-        frac = 0;
-        fexp = f64_exp_bias;
-    } else if (frac == 0 && sexp == 0) {
-        fexp = 0;
-    } else {
-        frac = (frac << (frac_lz + 1)) >> (64 - f64_mant_size);
-        fexp = f64_exp_bias + 63 + sexp - frac_lz;
-    }
-    if (fexp > f64_exp_mask || frac > f64_mant_mask) {
-        return -1;
+    if (f64_asn1_data_set(sign, frac, sexp, &v) < 0) {
+        goto err;
     }
-    v = f64_pack_float(f64_struct{frac, fexp, sign});
 
     *value = v;
     return 0;
@@ -1094,9 +1101,7 @@ f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
     size_t exp_len;
     u64 frac;
     s64 sexp;
-    u64 fexp;
     bool sign;
-    size_t frac_lz;
     s64_result rexp;
     u64_result rfrac;
 
@@ -1134,28 +1139,9 @@ f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
         return f64_result { 0, rfrac.error };
     }
     frac = rfrac.value;
-    frac_lz = clz(frac);
-
-    /*
-     * IEEE 754 exponent is relative to the msb of the mantissa
-     * ASN.1 exponent is relative to the lsb of the mantissa
-     *
-     * left-justify the fraction with the most significant set bit in bit 51
-     * (0-indexed) cropping off the IEEE 754 implied leading digit 0b1.xxx
-     */
-    if (frac == 1 && sexp == 0) {
-        frac = 0;
-        fexp = f64_exp_bias;
-    } else if (frac == 0 && sexp == 0) {
-        fexp = 0;
-    } else {
-        frac = (frac << (frac_lz + 1)) >> (64 - f64_mant_size);
-        fexp = f64_exp_bias + 63 + sexp - frac_lz;
-    }
-    if (fexp > f64_exp_mask || frac > f64_mant_mask) {
+    if (f64_asn1_data_set(sign, frac, sexp, &v) < 0) {
         return f64_result { 0, -1 };
     }
-    v = f64_pack_float(f64_struct{frac, fexp, sign});
 
     return f64_result { v, 0 };
 }
-- 
2.43.0


From b7988c1ee639b7e995c95e5311d76d929cc08643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 11/31] fix: keep REAL reads inside their contents octets

A REAL of length zero (plus zero, X.690 8.5.2) consumed the first octet
of the next object, and special values ignored the length.
---
 src/asn1.cc | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/asn1.cc b/src/asn1.cc
index c120fd8..1731b85 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -1050,10 +1050,18 @@ int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
     s64 sexp;
     bool sign;
 
+    /* ISO/IEC 8825-1:2003 8.5.2 plus zero has no contents octets */
+    if (len == 0) {
+        *value = 0;
+        return 0;
+    }
     if (crefl_buf_read_i8(buf, &b) != 1) {
         goto err;
     }
     fmt = _asn1_real_format(b);
+    if (fmt == _real_fmt_special && len != 1) {
+        goto err;
+    }
     switch (b) {
     case _real_special_pos_inf:  *value = std::numeric_limits<f64>::infinity();  return 0;
     case _real_special_neg_inf:  *value = -std::numeric_limits<f64>::infinity(); return 0;
@@ -1105,10 +1113,17 @@ f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
     s64_result rexp;
     u64_result rfrac;
 
+    /* ISO/IEC 8825-1:2003 8.5.2 plus zero has no contents octets */
+    if (len == 0) {
+        return f64_result { 0, 0 };
+    }
     if (crefl_buf_read_i8(buf, &b) != 1) {
         return f64_result { 0, -1 };
     }
     fmt = _asn1_real_format(b);
+    if (fmt == _real_fmt_special && len != 1) {
+        return f64_result { 0, -1 };
+    }
     switch (b) {
     case _real_special_pos_inf:  return f64_result { std::numeric_limits<f64>::infinity(), 0 };
     case _real_special_neg_inf:  return f64_result { -std::numeric_limits<f64>::infinity(), 0 };
-- 
2.43.0


From a53486364bbecce74facd84165a5f0d30e2a8360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 12/31] fix: refuse REAL encodings with base 8 or 16 or a scale
 factor

They are not supported, but were decoded as if they were base 2 without
scaling, giving a different number.
---
 src/asn1.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/asn1.cc b/src/asn1.cc
index 1731b85..edac9ba 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -1074,6 +1074,11 @@ int crefl_asn1_ber_real_f64_read(crefl_buf *buf, size_t len, double *value)
     case _real_fmt_binary_neg: sign = true; break;
     default: goto err;
     }
+    /* only base 2 without a scale factor is supported */
+    if (b & (_real_base_mask << _real_base_shift |
+             _real_scale_mask << _real_scale_shift)) {
+        goto err;
+    }
     exp_mode = _asn1_real_exp(b);
     switch(exp_mode) {
     case _real_exp_1: exp_len = 1; break;
@@ -1136,6 +1141,11 @@ f64_result crefl_asn1_ber_real_f64_read_byval(crefl_buf *buf, size_t len)
     case _real_fmt_binary_neg: sign = true; break;
     default: return f64_result { 0, -1 };
     }
+    /* only base 2 without a scale factor is supported */
+    if (b & (_real_base_mask << _real_base_shift |
+             _real_scale_mask << _real_scale_shift)) {
+        return f64_result { 0, -1 };
+    }
     exp_mode = _asn1_real_exp(b);
     switch(exp_mode) {
     case _real_exp_1: exp_len = 1; break;
-- 
2.43.0


From 11089718734a467605a6295f5a7a762cf2d03cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 13/31] fix: split the first OID subidentifier by X.690 8.19.4
 and bound the component count

---
 src/asn1.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index edac9ba..39bc73e 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2460,15 +2460,14 @@ int crefl_asn1_ber_oid_read(crefl_buf *buf, size_t len, asn1_oid *obj)
         /*
          * 8.19.4 rule where first two components are combined -> (X*40) + Y
          */
-        if (n == 0 && comp > 40) {
-            if (n < limit) obj->oid[n] = comp/40;
-            n++;
-            if (n < limit) obj->oid[n] = comp%40;
-            n++;
+        if (n == 0) {
+            u64 arc = comp < 80 ? comp/40 : 2;
+            obj->oid[n++] = arc;
+            obj->oid[n++] = comp - arc * 40;
         }
         else {
-            if (n < limit) obj->oid[n] = comp;
-            n++;
+            if (n >= limit) goto err;
+            obj->oid[n++] = comp;
         }
         offset = crefl_buf_offset(buf);
     }
-- 
2.43.0


From 00bb12dc60745bbf817ebb0f59b16250d79eb508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 14/31] fix: do not print OIDs past the end of the string or as
 negative numbers

---
 src/asn1.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 39bc73e..129bff0 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2527,9 +2527,9 @@ int crefl_asn1_oid_to_string(char *str, size_t *buflen, const asn1_oid *obj)
         asn1_oid_comp_max : obj->count;
     for (size_t i = 0; i < count; i ++) {
         int ret = snprintf(
-            (limit ? str + offset : NULL),
-            (limit ? limit - offset : 0),
-            (i == 0 ? "%lld" : ".%lld"),
+            (limit > offset ? str + offset : NULL),
+            (limit > offset ? limit - offset : 0),
+            (i == 0 ? "%llu" : ".%llu"),
             obj->oid[i]
         );
         offset += ret > 0 ? ret : 0;
-- 
2.43.0


From 5e92c37d9ad42ed68c3399ec58aabc4448b55e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:20 +0000
Subject: [PATCH 15/31] fix: parse OID strings with zero components and only
 within their length

---
 src/asn1.cc | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 129bff0..91e7ee3 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2545,21 +2545,20 @@ int crefl_asn1_oid_from_string(asn1_oid *obj, const char *str, size_t buflen)
     for (size_t i = 0; i <= buflen; i++) {
         if (i != last && ((i < buflen && str[i] == '.') || i == buflen)) {
             size_t comp_len = i - last + 1;
-            if (comp < asn1_oid_comp_max) {
-                obj->oid[comp] = comp_num;
-            }
+            if (comp >= asn1_oid_comp_max) goto err;
+            obj->oid[comp] = comp_num;
             comp++;
             comp_num = 0;
             last = i + 1;
-        } else if (isdigit(str[i])) {
+        } else if (i < buflen && isdigit(str[i])) {
             u64 num = comp_num * 10 + (int)str[i] - '0';
-            if (num > comp_num && num < (1ull << 56)) {
+            if (num < (1ull << 56)) {
                 comp_num = num;
             } else {
                 goto err;
             }
-        } else if (i == buflen) {
-            //
+        } else if (i == buflen && i == 0) {
+            /* empty string */
         } else {
             goto err;
         }
-- 
2.43.0


From 18bed402c6df7e0f682ce04a5fe71aca07c0e8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:29 +0000
Subject: [PATCH 16/31] fix: refuse database images shorter than their tables
 or with unterminated names

---
 src/db.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/db.cc b/src/db.cc
index 5120ab9..97e879a 100644
--- a/src/db.cc
+++ b/src/db.cc
@@ -75,6 +75,16 @@ int crefl_db_read_mem(decl_db *db, const uint8_t *buf, size_t input_sz)
         return 0;
     }
 
+    /* check that both tables are inside the image and names are terminated */
+    if (input_sz - hdr_sz < decl_sz || input_sz - hdr_sz - decl_sz < name_sz) {
+        fprintf(stderr, "crefl: *** error: truncated image\n");
+        return -1;
+    }
+    if (name_sz > 0 && buf[hdr_sz + decl_sz + name_sz - 1] != 0) {
+        fprintf(stderr, "crefl: *** error: unterminated name table\n");
+        return -1;
+    }
+
     /*
      * for space compactness we elide builtin types from the output.
      * initialize builtin types then check the first element is root.
-- 
2.43.0


From 38ee88db4758fbe767e5cf781985dd6cbb101957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 17/31] fix: population count of zero is zero

---
 include/crefl/bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crefl/bits.h b/include/crefl/bits.h
index 7c1d988..f648e2f 100644
--- a/include/crefl/bits.h
+++ b/include/crefl/bits.h
@@ -47,8 +47,8 @@ static inline unsigned clz_u32(__bits_u32 val) { return val == 0 ? 32 : __builti
 static inline unsigned clz_u64(__bits_u64 val) { return val == 0 ? 64 : __builtin_clzll(val); }
 static inline unsigned ctz_u32(__bits_u32 val) { return val == 0 ? 32 : __builtin_ctz(val); }
 static inline unsigned ctz_u64(__bits_u64 val) { return val == 0 ? 64 : __builtin_ctzll(val); }
-static inline unsigned popcnt_u32(__bits_u32 val) { return val == 0 ? 32 : __builtin_popcount(val); }
-static inline unsigned popcnt_u64(__bits_u64 val) { return val == 0 ? 64 : __builtin_popcountll(val); }
+static inline unsigned popcnt_u32(__bits_u32 val) { return __builtin_popcount(val); }
+static inline unsigned popcnt_u64(__bits_u64 val) { return __builtin_popcountll(val); }
 #define _bits_defined (_clz_defined | _ctz_defined | _popcnt_defined)
 #elif defined (_MSC_VER) && defined (_M_X64)
 static inline unsigned clz_u32(__bits_u32 val) { return (int)_lzcnt_u32(val); }
-- 
2.43.0


From ee9e0506bb5107063154d4e9062859c931f9eae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 18/31] fix: map the C11 popcnt of unsigned words to popcnt

---
 include/crefl/bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crefl/bits.h b/include/crefl/bits.h
index f648e2f..a4cf58d 100644
--- a/include/crefl/bits.h
+++ b/include/crefl/bits.h
@@ -158,8 +158,8 @@ static inline unsigned ctz_u64(__bits_u64 v)
 	unsigned int: ctz_u32, signed int: ctz_u32, \
 	unsigned long long: ctz_u64, signed long long: ctz_u64)(X)
 #define popcnt(X) _Generic((X), \
-	unsigned int: ctz_u32, signed int: popcnt_u32, \
-	unsigned long long: ctz_u64, signed long long: popcnt_u64)(X)
+	unsigned int: popcnt_u32, signed int: popcnt_u32, \
+	unsigned long long: popcnt_u64, signed long long: popcnt_u64)(X)
 #endif
 
 /*
-- 
2.43.0


From 5da3a07cc7924bc21ccdc24512f3a4c5289425f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 19/31] fix: allocate whole words for the hashmap slot bitmap

---
 include/crefl/hashmap.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index 9cee859..ec7dd3b 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -96,7 +96,7 @@ struct hashmap
         used(0), tombs(0), limit(initial_size)
     {
         size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t bitmap_size = ((limit + 31) >> 5) * sizeof(uint64_t);
         size_t total_size = data_size + bitmap_size;
 
         assert(is_pow2(limit));
@@ -115,7 +115,7 @@ struct hashmap
         used(o.used), tombs(o.tombs), limit(o.limit)
     {
         size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t bitmap_size = ((limit + 31) >> 5) * sizeof(uint64_t);
         size_t total_size = data_size + bitmap_size;
 
         data = (data_type*)malloc(total_size);
@@ -140,7 +140,7 @@ struct hashmap
         limit = o.limit;
 
         size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t bitmap_size = ((limit + 31) >> 5) * sizeof(uint64_t);
         size_t total_size = data_size + bitmap_size;
 
         data = (data_type*)malloc(total_size);
@@ -209,7 +209,7 @@ struct hashmap
                          size_t old_size, size_t new_size)
     {
         size_t data_size = sizeof(data_type) * new_size;
-        size_t bitmap_size = new_size >> 2;
+        size_t bitmap_size = ((new_size + 31) >> 5) * sizeof(uint64_t);
         size_t total_size = data_size + bitmap_size;
 
         assert(is_pow2(new_size));
@@ -238,7 +238,7 @@ struct hashmap
     void clear()
     {
         size_t data_size = sizeof(data_type) * limit;
-        size_t bitmap_size = limit >> 2;
+        size_t bitmap_size = ((limit + 31) >> 5) * sizeof(uint64_t);
         size_t total_size = data_size + bitmap_size;
         memset(data, 0, total_size);
         used = tombs = 0;
-- 
2.43.0


From a351194919cd60e111debc01cf60036b886d4021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 20/31] fix: do not insert a key again in front of its live
 entry

---
 include/crefl/hashmap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index ec7dd3b..9e2306f 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -251,6 +251,7 @@ struct hashmap
     {
         for (size_t i = key_index(v.first); ; i = (i+1) & index_mask()) {
             bitmap_state state = bitmap_get(bitmap, i);
+            if (state == deleted && find(v.first) != end()) continue;
             if ((state & occupied) != occupied) {
                 bitmap_set(bitmap, i, occupied);
                 data[i] = data_type{v.first, v.second};
@@ -280,6 +281,7 @@ struct hashmap
     {
         for (size_t i = key_index(key); ; i = (i+1) & index_mask()) {
             bitmap_state state = bitmap_get(bitmap, i);
+            if (state == deleted && find(key) != end()) continue;
             if ((state & occupied) != occupied) {
                 bitmap_set(bitmap, i, occupied);
                 data[i].first = key;
-- 
2.43.0


From d52f6ee07977e65f522021f83a7ddf66e200c4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:45 +0000
Subject: [PATCH 21/31] fix: hashmap begin() is the first occupied slot

---
 include/crefl/hashmap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/crefl/hashmap.h b/include/crefl/hashmap.h
index 9e2306f..89103fd 100644
--- a/include/crefl/hashmap.h
+++ b/include/crefl/hashmap.h
@@ -175,7 +175,7 @@ struct hashmap
     inline size_t hash_index(uint64_t h) { return h & index_mask(); }
     inline size_t key_index(Key key) { return hash_index(_hasher(key)); }
     inline hasher hash_function() const { return _hasher; }
-    inline iterator begin() { return iterator{ this, 0 }; }
+    inline iterator begin() { iterator i{ this, 0 }; i.i = i.step(0); return i; }
     inline iterator end() { return iterator{ this, limit }; }
 
     /*
-- 
2.43.0


From 8a53e11769703b5600cb321215113a6e2ff472fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 22/31] fix: byte padding aligns to 8 bits

---
 src/model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.cc b/src/model.cc
index 9ae3998..356f9c8 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -253,7 +253,7 @@ static _alignment _pad_align(size_t width, size_t count, decl_set props)
     size_t n;
 
     if ((props & _decl_pad_byte)) {
-        n = 8;
+        n = 3;
     }
     else if ((props & _decl_pad_pow2)) {
         n = 63 - clz(width);
-- 
2.43.0


From eb175efc5fdeed6fc50e2180ee4aa83b781c0e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 23/31] fix: natural alignment stops at 128 bits

---
 src/model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.cc b/src/model.cc
index 356f9c8..e9b87f6 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -248,7 +248,7 @@ struct _alignment { size_t align; size_t size; };
 
 static _alignment _pad_align(size_t width, size_t count, decl_set props)
 {
-    const intptr_t maxalign = 9; /* 128 bits */
+    const intptr_t maxalign = 7; /* 128 bits */
 
     size_t n;
 
-- 
2.43.0


From 180659cc67040cb9319b35ec5ab138eae9b863de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 24/31] fix: align complex types like their parts

---
 src/model.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/model.cc b/src/model.cc
index e9b87f6..a6d2e7a 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -256,7 +256,8 @@ static _alignment _pad_align(size_t width, size_t count, decl_set props)
         n = 3;
     }
     else if ((props & _decl_pad_pow2)) {
-        n = 63 - clz(width);
+        /* complex types are aligned like their parts */
+        n = 63 - clz((props & _decl_complex) ? width >> 1 : width);
         if (n > maxalign) n = maxalign;
     } else {
         n = 0;
-- 
2.43.0


From f2ea194fa876cf8582deea25393f16da90a41296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 25/31] fix: round union width up to its alignment

---
 src/model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/model.cc b/src/model.cc
index a6d2e7a..552adb7 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -341,7 +341,7 @@ static _alignment _union_pad(decl_ref d)
         d = crefl_decl_next(d);
     }
 
-    return max;
+    return _alignment { max.align, _align(max.size, max.align) };
 }
 
 static _alignment _type_pad(decl_ref d)
-- 
2.43.0


From bcc324cfde2b7f363bc14f61cfd1e325d3df8e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:30 +0000
Subject: [PATCH 26/31] fix: compute width and alignment of typedefs, qualified
 types, enums and sets

---
 src/model.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/model.cc b/src/model.cc
index 552adb7..375a5ae 100644
--- a/src/model.cc
+++ b/src/model.cc
@@ -353,6 +353,10 @@ static _alignment _type_pad(decl_ref d)
     case _decl_field: return _field_pad(d);
     case _decl_array: return _array_pad(d);
     case _decl_pointer: return _pointer_pad(d);
+    case _decl_typedef: return _type_pad(crefl_decl_link(d));
+    case _decl_qualifier: return _type_pad(crefl_decl_link(d));
+    case _decl_set:
+    case _decl_enum: return _pad_align(crefl_decl_qty(d), 1, _decl_pad_pow2);
     }
     return _alignment { 0 };
 }
-- 
2.43.0


From 4a8a7c1625f5ce39153319b1dfa2a6ecdfbc9796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 27/31] fix: define the by-value signed integer functions as
 the header declares them

---
 include/crefl/asn1.h | 2 +-
 src/asn1.cc          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crefl/asn1.h b/include/crefl/asn1.h
index 4c806e4..50689e2 100644
--- a/include/crefl/asn1.h
+++ b/include/crefl/asn1.h
@@ -208,7 +208,7 @@ size_t crefl_le_ber_integer_s64_length(const s64 *value);
 int crefl_le_ber_integer_s64_read(crefl_buf *buf, size_t len, s64 *value);
 int crefl_le_ber_integer_s64_write(crefl_buf *buf, size_t len, const s64 *value);
 
-size_t crefl_le_ber_integer_s64_length_byval(const s64 *value);
+size_t crefl_le_ber_integer_s64_length_byval(const s64 value);
 struct s64_result crefl_le_ber_integer_s64_read_byval(crefl_buf *buf, size_t len);
 int crefl_le_ber_integer_s64_write_byval(crefl_buf *buf, size_t len, const s64 value);
 
diff --git a/src/asn1.cc b/src/asn1.cc
index 91e7ee3..4e6224c 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -706,7 +706,7 @@ int crefl_asn1_der_integer_s64_read(crefl_buf *buf, asn1_tag _tag, s64 *value)
     return crefl_asn1_ber_integer_s64_read(buf, hdr._length, value);
 }
 
-s64_result crefl_asn1_der_integer_s64_read_byval(crefl_buf *buf, asn1_tag _tag, s64 *value)
+s64_result crefl_asn1_der_integer_s64_read_byval(crefl_buf *buf, asn1_tag _tag)
 {
     asn1_hdr hdr;
     if (crefl_asn1_ber_ident_read(buf, &hdr._id) < 0) return s64_result { 0, -1 };
-- 
2.43.0


From 9ba08a16262433dddb37a6f809b1b21bded10a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:57 +0000
Subject: [PATCH 28/31] fix: keep compressed-float shifts in range and refuse
 malformed exponents

---
 src/asn1.cc | 48 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/asn1.cc b/src/asn1.cc
index 4e6224c..84278c4 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -1386,7 +1386,7 @@ int crefl_vf_f64_read(crefl_buf *buf, double *value)
                  * of the point hence 59 = (63 - 4) then left-justify
                  * the mantissa and truncate the leading 1. */
                 vp_exp = f64_exp_bias + 59 - lz;
-                vp_man = ((u64)vf_man << (lz + 1)) >> (f64_exp_size + 1);
+                vp_man = ((u64)vf_man << lz << 1) >> (f64_exp_size + 1);
             } else {
                 /* Zero */
                 vp_exp = 0;
@@ -1412,8 +1412,13 @@ int crefl_vf_f64_read(crefl_buf *buf, double *value)
         if (vr_exp <= -(s64)f64_exp_bias) {
             /* normal to subnormal - calculate shift using exponent delta
              * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s64)f64_exp_bias - f64_mant_size);
+            if (vr_exp < -(s64)f64_exp_bias - f64_mant_size) {
+                goto err;
+            }
             size_t sh = f64_exp_bias + vr_exp + lz - f64_exp_size;
+            if (sh >= 64) {
+                goto err;
+            }
             vp_exp = 0;
             vp_man = (u64)vr_man << sh;
         } else {
@@ -1421,7 +1426,8 @@ int crefl_vf_f64_read(crefl_buf *buf, double *value)
              * +/-0.9900.. with a unary prefix containing the exponent. */
             if (vf_exp == 0) vr_exp = -tz - 1;
             vp_exp = f64_exp_bias + vr_exp;
-            vp_man = (u64)vr_man << (lz + 1) >> (f64_exp_size + 1);
+            vp_man = vr_man == 0 ? 0 :
+                (u64)vr_man << lz << 1 >> (f64_exp_size + 1);
         }
     }
 
@@ -1488,7 +1494,7 @@ f64_result crefl_vf_f64_read_byval(crefl_buf *buf)
                  * of the point hence 59 = (63 - 4) then left-justify
                  * the mantissa and truncate the leading 1. */
                 vp_exp = f64_exp_bias + 59 - lz;
-                vp_man = ((u64)vf_man << (lz + 1)) >> (f64_exp_size + 1);
+                vp_man = ((u64)vf_man << lz << 1) >> (f64_exp_size + 1);
             } else {
                 /* Zero */
                 vp_exp = 0;
@@ -1514,8 +1520,13 @@ f64_result crefl_vf_f64_read_byval(crefl_buf *buf)
         if (vr_exp <= -(s64)f64_exp_bias) {
             /* normal to subnormal - calculate shift using exponent delta
              * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s64)f64_exp_bias - f64_mant_size);
+            if (vr_exp < -(s64)f64_exp_bias - f64_mant_size) {
+                return f64_result { 0, -1 };
+            }
             size_t sh = f64_exp_bias + vr_exp + lz - f64_exp_size;
+            if (sh >= 64) {
+                return f64_result { 0, -1 };
+            }
             vp_exp = 0;
             vp_man = (u64)vr_man << sh;
         } else {
@@ -1523,7 +1534,8 @@ f64_result crefl_vf_f64_read_byval(crefl_buf *buf)
              * +/-0.9900.. with a unary prefix containing the exponent. */
             if (vf_exp == 0) vr_exp = -tz - 1;
             vp_exp = f64_exp_bias + vr_exp;
-            vp_man = (u64)vr_man << (lz + 1) >> (f64_exp_size + 1);
+            vp_man = vr_man == 0 ? 0 :
+                (u64)vr_man << lz << 1 >> (f64_exp_size + 1);
         }
     }
 
@@ -1858,7 +1870,7 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
                  * of the point hence 27 = (31 - 4) then left-justify
                  * the mantissa and truncate the leading 1. */
                 vp_exp = f32_exp_bias + 27 - (u32)lz;
-                vp_man = ((u32)vf_man << (lz + 1)) >> (f32_exp_size + 1);
+                vp_man = ((u32)vf_man << lz << 1) >> (f32_exp_size + 1);
             } else {
                 /* Zero */
                 vp_exp = 0;
@@ -1884,8 +1896,13 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
         if (vr_exp <= -(s32)f32_exp_bias) {
             /* normal to subnormal - calculate shift using exponent delta
              * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s32)f32_exp_bias - f32_mant_size);
+            if (vr_exp < -(s32)f32_exp_bias - f32_mant_size) {
+                goto err;
+            }
             size_t sh = f32_exp_bias + vr_exp + (u32)lz - f32_exp_size;
+            if (sh >= 32) {
+                goto err;
+            }
             vp_exp = 0;
             vp_man = (u32)vr_man << sh;
         } else {
@@ -1893,7 +1910,8 @@ int crefl_vf_f32_read(crefl_buf *buf, float *value)
              * +/-0.9900.. with a unary prefix containing the exponent. */
             if (vf_exp == 0) vr_exp = -(s32)tz - 1;
             vp_exp = f32_exp_bias + vr_exp;
-            vp_man = (u32)vr_man << (lz + 1) >> (f32_exp_size + 1);
+            vp_man = vr_man == 0 ? 0 :
+                (u32)vr_man << lz << 1 >> (f32_exp_size + 1);
         }
     }
 
@@ -1965,7 +1983,7 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
                  * of the point hence 27 = (31 - 4) then left-justify
                  * the mantissa and truncate the leading 1. */
                 vp_exp = f32_exp_bias + 27 - (u32)lz;
-                vp_man = ((u32)vf_man << (lz + 1)) >> (f32_exp_size + 1);
+                vp_man = ((u32)vf_man << lz << 1) >> (f32_exp_size + 1);
             } else {
                 /* Zero */
                 vp_exp = 0;
@@ -1991,8 +2009,13 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
         if (vr_exp <= -(s32)f32_exp_bias) {
             /* normal to subnormal - calculate shift using exponent delta
              * then left-justify the mantissa preserving the leading 1. */
-            assert(vr_exp >= -(s32)f32_exp_bias - f32_mant_size);
+            if (vr_exp < -(s32)f32_exp_bias - f32_mant_size) {
+                return f32_result { 0, -1 };
+            }
             size_t sh = f32_exp_bias + vr_exp + (u32)lz - f32_exp_size;
+            if (sh >= 32) {
+                return f32_result { 0, -1 };
+            }
             vp_exp = 0;
             vp_man = (u32)vr_man << sh;
         } else {
@@ -2000,7 +2023,8 @@ f32_result crefl_vf_f32_read_byval(crefl_buf *buf)
              * +/-0.9900.. with a unary prefix containing the exponent. */
             if (vf_exp == 0) vr_exp = -(s32)tz - 1;
             vp_exp = f32_exp_bias + vr_exp;
-            vp_man = (u32)vr_man << (lz + 1) >> (f32_exp_size + 1);
+            vp_man = vr_man == 0 ? 0 :
+                (u32)vr_man << lz << 1 >> (f32_exp_size + 1);
         }
     }
 
-- 
2.43.0


From 9135f0ae1a531eeb693c24486f4f358b39572a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:05 +0000
Subject: [PATCH 29/31] fix: no signed overflow in the portable trailing zero
 count

---
 include/crefl/bits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/crefl/bits.h b/include/crefl/bits.h
index a4cf58d..5a25454 100644
--- a/include/crefl/bits.h
+++ b/include/crefl/bits.h
@@ -122,7 +122,7 @@ static inline unsigned clz_u64(__bits_u64 x)
 static inline unsigned ctz_u32(__bits_u32 v)
 {
     unsigned c = 32;
-    v &= -(__bits_s32)v;
+    v &= 0 - v;
     if (v) c--;
     if (v & 0x0000FFFF) c -= 16;
     if (v & 0x00FF00FF) c -= 8;
@@ -135,7 +135,7 @@ static inline unsigned ctz_u32(__bits_u32 v)
 static inline unsigned ctz_u64(__bits_u64 v)
 {
     unsigned c = 64;
-    v &= -(__bits_s64)v;
+    v &= 0 - v;
     if (v) c--;
     if (v & 0x00000000FFFFFFFFULL) c -= 32;
     if (v & 0x0000FFFF0000FFFFULL) c -= 16;
-- 
2.43.0


From 1597c9699213048b5fd3a037ee273e656ecfc1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:35 +0000
Subject: [PATCH 30/31] fix: refuse OID contents whose last subidentifier
 overruns them

---
 src/asn1.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/asn1.cc b/src/asn1.cc
index 84278c4..34fc251 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -2495,6 +2495,7 @@ int crefl_asn1_ber_oid_read(crefl_buf *buf, size_t len, asn1_oid *obj)
         }
         offset = crefl_buf_offset(buf);
     }
+    if (offset - start != len) goto err;
     obj->count = n;
     return 0;
 err:
-- 
2.43.0


From 98a1a798da9aabc2873b5e1c6f17405e7317410b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:35 +0000
Subject: [PATCH 31/31] fix: refuse to write a boolean with contents other than
 one octet

---
 src/asn1.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/asn1.cc b/src/asn1.cc
index 34fc251..c7c8c79 100644
--- a/src/asn1.cc
+++ b/src/asn1.cc
@@ -331,6 +331,10 @@ int crefl_asn1_ber_boolean_write(crefl_buf *buf, size_t len, const bool *value)
 {
     int8_t b;
 
+    if (len != 1) {
+        goto err;
+    }
+
     b = *value;
     if (crefl_buf_write_i8(buf, b) != 1) {
         goto err;
-- 
2.43.0

