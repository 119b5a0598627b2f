From 96e142df08530b959b0cd9849dd982c8f37f1657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:21 +0000
Subject: [PATCH 01/13] fix: itoa() with radix wrote '-' into a buffer too
 small for the number

itoa() documents that no writes occur when the buffer is too small, but
the radix overloads stored the sign before checking the size.
---
 src/c4/charconv.hpp | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 41a513b..382a75b 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1010,18 +1010,18 @@ C4_NO_INLINE size_t _itoa2buf(substr buf, I radix) noexcept
 {
     using digits_type = detail::charconv_digits<I>;
     size_t pos = 0;
-    if(C4_LIKELY(buf.len > 0))
-        buf.str[pos++] = '-';
     switch(radix)
     {
     case I(10):
         if(C4_UNLIKELY(buf.len < digits_type::maxdigits_dec))
             return digits_type::maxdigits_dec;
+        buf.str[pos++] = '-';
         pos =_itoa2buf(buf, pos, digits_type::min_value_dec());
         break;
     case I(16):
         if(C4_UNLIKELY(buf.len < digits_type::maxdigits_hex))
             return digits_type::maxdigits_hex;
+        buf.str[pos++] = '-';
         buf.str[pos++] = '0';
         buf.str[pos++] = 'x';
         pos = _itoa2buf(buf, pos, digits_type::min_value_hex());
@@ -1029,6 +1029,7 @@ C4_NO_INLINE size_t _itoa2buf(substr buf, I radix) noexcept
     case I( 2):
         if(C4_UNLIKELY(buf.len < digits_type::maxdigits_bin))
             return digits_type::maxdigits_bin;
+        buf.str[pos++] = '-';
         buf.str[pos++] = '0';
         buf.str[pos++] = 'b';
         pos = _itoa2buf(buf, pos, digits_type::min_value_bin());
@@ -1036,6 +1037,7 @@ C4_NO_INLINE size_t _itoa2buf(substr buf, I radix) noexcept
     case I( 8):
         if(C4_UNLIKELY(buf.len < digits_type::maxdigits_oct))
             return digits_type::maxdigits_oct;
+        buf.str[pos++] = '-';
         buf.str[pos++] = '0';
         buf.str[pos++] = 'o';
         pos = _itoa2buf(buf, pos, digits_type::min_value_oct());
@@ -1049,8 +1051,6 @@ C4_NO_INLINE size_t _itoa2buf(substr buf, I radix, size_t num_digits) noexcept
     using digits_type = detail::charconv_digits<I>;
     size_t pos = 0;
     size_t needed_digits = 0;
-    if(C4_LIKELY(buf.len > 0))
-        buf.str[pos++] = '-';
     switch(radix)
     {
     case I(10):
@@ -1058,6 +1058,7 @@ C4_NO_INLINE size_t _itoa2buf(substr buf, I radix, size_t num_digits) noexcept
         needed_digits = num_digits+1 > digits_type::maxdigits_dec ? num_digits+1 : digits_type::maxdigits_dec;
         if(C4_UNLIKELY(buf.len < needed_digits))
             return needed_digits;
+        buf.str[pos++] = '-';
         pos = _itoa2bufwithdigits(buf, pos, num_digits, digits_type::min_value_dec());
         break;
     case I(16):
@@ -1065,6 +1066,7 @@ C4_NO_INLINE size_t _itoa2buf(substr buf, I radix, size_t num_digits) noexcept
         needed_digits = num_digits+3 > digits_type::maxdigits_hex ? num_digits+3 : digits_type::maxdigits_hex;
         if(C4_UNLIKELY(buf.len < needed_digits))
             return needed_digits;
+        buf.str[pos++] = '-';
         buf.str[pos++] = '0';
         buf.str[pos++] = 'x';
         pos = _itoa2bufwithdigits(buf, pos, num_digits, digits_type::min_value_hex());
@@ -1074,6 +1076,7 @@ C4_NO_INLINE size_t _itoa2buf(substr buf, I radix, size_t num_digits) noexcept
         needed_digits = num_digits+3 > digits_type::maxdigits_bin ? num_digits+3 : digits_type::maxdigits_bin;
         if(C4_UNLIKELY(buf.len < needed_digits))
             return needed_digits;
+        buf.str[pos++] = '-';
         C4_ASSERT(buf.len >= digits_type::maxdigits_bin);
         buf.str[pos++] = '0';
         buf.str[pos++] = 'b';
@@ -1084,6 +1087,7 @@ C4_NO_INLINE size_t _itoa2buf(substr buf, I radix, size_t num_digits) noexcept
         needed_digits = num_digits+3 > digits_type::maxdigits_oct ? num_digits+3 : digits_type::maxdigits_oct;
         if(C4_UNLIKELY(buf.len < needed_digits))
             return needed_digits;
+        buf.str[pos++] = '-';
         C4_ASSERT(buf.len >= digits_type::maxdigits_oct);
         buf.str[pos++] = '0';
         buf.str[pos++] = 'o';
@@ -1154,8 +1158,6 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix) noexcept
         if(v < 0)
         {
             v = -v;
-            if(C4_LIKELY(buf.len > 0))
-                buf.str[pos] = '-';
             ++pos;
         }
         unsigned digits = 0;
@@ -1164,12 +1166,18 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix) noexcept
         case T(10):
             digits = digits_dec(v);
             if(C4_LIKELY(buf.len >= pos + digits))
+            {
+                if(pos)
+                    buf.str[0] = '-';
                 write_dec_unchecked(buf.sub(pos), v, digits);
+            }
             break;
         case T(16):
             digits = digits_hex(v);
             if(C4_LIKELY(buf.len >= pos + 2u + digits))
             {
+                if(pos)
+                    buf.str[0] = '-';
                 buf.str[pos + 0] = '0';
                 buf.str[pos + 1] = 'x';
                 write_hex_unchecked(buf.sub(pos + 2), v, digits);
@@ -1180,6 +1188,8 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix) noexcept
             digits = digits_bin(v);
             if(C4_LIKELY(buf.len >= pos + 2u + digits))
             {
+                if(pos)
+                    buf.str[0] = '-';
                 buf.str[pos + 0] = '0';
                 buf.str[pos + 1] = 'b';
                 write_bin_unchecked(buf.sub(pos + 2), v, digits);
@@ -1190,6 +1200,8 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix) noexcept
             digits = digits_oct(v);
             if(C4_LIKELY(buf.len >= pos + 2u + digits))
             {
+                if(pos)
+                    buf.str[0] = '-';
                 buf.str[pos + 0] = '0';
                 buf.str[pos + 1] = 'o';
                 write_oct_unchecked(buf.sub(pos + 2), v, digits);
@@ -1231,8 +1243,6 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
         if(v < 0)
         {
             v = -v;
-            if(C4_LIKELY(buf.len > 0))
-                buf.str[pos] = '-';
             ++pos;
         }
         unsigned total_digits = 0;
@@ -1242,13 +1252,19 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
             total_digits = digits_dec(v);
             total_digits = pos + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
+            {
+                if(pos)
+                    buf.str[0] = '-';
                 write_dec(buf.sub(pos), v, num_digits);
+            }
             break;
         case T(16):
             total_digits = digits_hex(v);
             total_digits = pos + 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
             {
+                if(pos)
+                    buf.str[0] = '-';
                 buf.str[pos + 0] = '0';
                 buf.str[pos + 1] = 'x';
                 write_hex(buf.sub(pos + 2), v, num_digits);
@@ -1259,6 +1275,8 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
             total_digits = pos + 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
             {
+                if(pos)
+                    buf.str[0] = '-';
                 buf.str[pos + 0] = '0';
                 buf.str[pos + 1] = 'b';
                 write_bin(buf.sub(pos + 2), v, num_digits);
@@ -1269,6 +1287,8 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
             total_digits = pos + 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
             {
+                if(pos)
+                    buf.str[0] = '-';
                 buf.str[pos + 0] = '0';
                 buf.str[pos + 1] = 'o';
                 write_oct(buf.sub(pos + 2), v, num_digits);
-- 
2.43.0


From 2bc53fdd86b0ff43a23870b29213b9f0555bf879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:50 +0000
Subject: [PATCH 02/13] fix: itoa()/utoa() truncated the padded size to 32 bits

With num_digits >= 2^32 the returned size was num_digits modulo 2^32.
---
 src/c4/charconv.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 382a75b..f438d84 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1245,12 +1245,12 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
             v = -v;
             ++pos;
         }
-        unsigned total_digits = 0;
+        size_t total_digits = 0;
         switch(radix)
         {
         case T(10):
             total_digits = digits_dec(v);
-            total_digits = pos + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+            total_digits = pos + (num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
             {
                 if(pos)
@@ -1260,7 +1260,7 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
             break;
         case T(16):
             total_digits = digits_hex(v);
-            total_digits = pos + 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+            total_digits = pos + 2u + (num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
             {
                 if(pos)
@@ -1272,7 +1272,7 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
             break;
         case T(2):
             total_digits = digits_bin(v);
-            total_digits = pos + 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+            total_digits = pos + 2u + (num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
             {
                 if(pos)
@@ -1284,7 +1284,7 @@ C4_ALWAYS_INLINE size_t itoa(substr buf, T v, T radix, size_t num_digits) noexce
             break;
         case T(8):
             total_digits = digits_oct(v);
-            total_digits = pos + 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+            total_digits = pos + 2u + (num_digits > total_digits ? num_digits : total_digits);
             if(C4_LIKELY(buf.len >= total_digits))
             {
                 if(pos)
@@ -1395,18 +1395,18 @@ C4_ALWAYS_INLINE size_t utoa(substr buf, T v, T radix, size_t num_digits) noexce
 {
     C4_STATIC_ASSERT(std::is_unsigned<T>::value);
     C4_ASSERT(radix == 10 || radix == 16 || radix == 2 || radix == 8);
-    unsigned total_digits = 0;
+    size_t total_digits = 0;
     switch(radix)
     {
     case T(10):
         total_digits = digits_dec(v);
-        total_digits = (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+        total_digits = (num_digits > total_digits ? num_digits : total_digits);
         if(C4_LIKELY(buf.len >= total_digits))
             write_dec(buf, v, num_digits);
         break;
     case T(16):
         total_digits = digits_hex(v);
-        total_digits = 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+        total_digits = 2u + (num_digits > total_digits ? num_digits : total_digits);
         if(C4_LIKELY(buf.len >= total_digits))
         {
             buf.str[0] = '0';
@@ -1416,7 +1416,7 @@ C4_ALWAYS_INLINE size_t utoa(substr buf, T v, T radix, size_t num_digits) noexce
         break;
     case T(2):
         total_digits = digits_bin(v);
-        total_digits = 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+        total_digits = 2u + (num_digits > total_digits ? num_digits : total_digits);
         if(C4_LIKELY(buf.len >= total_digits))
         {
             buf.str[0] = '0';
@@ -1426,7 +1426,7 @@ C4_ALWAYS_INLINE size_t utoa(substr buf, T v, T radix, size_t num_digits) noexce
         break;
     case T(8):
         total_digits = digits_oct(v);
-        total_digits = 2u + (unsigned)(num_digits > total_digits ? num_digits : total_digits);
+        total_digits = 2u + (num_digits > total_digits ? num_digits : total_digits);
         if(C4_LIKELY(buf.len >= total_digits))
         {
             buf.str[0] = '0';
-- 
2.43.0


From b0e66c73ed50ded4d61ebca4179981ccb8ac9348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:45 +0000
Subject: [PATCH 03/13] fix: comparing a substring with a char truncated the
 length to int

compare(char) returned static_cast<int>(len) - 1 when the first character
matched: a view of 2^32+1 characters starting with '0' compared equal to
'0' (and len == 2^31 overflowed the subtraction).
---
 src/c4/substr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index 7a1e4fc..cb77a95 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -229,7 +229,7 @@ public:
     {
         C4_XASSERT((str != nullptr) || len == 0);
         if(C4_LIKELY(str != nullptr && len > 0))
-            return (*str != c) ? *str - c : (static_cast<int>(len) - 1);
+            return (*str != c) ? *str - c : (len > 1 ? 1 : 0);
         else
             return -1;
     }
-- 
2.43.0


From 7cfff0369e6da0154168f7e19dfd841499f1c895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:37 +0000
Subject: [PATCH 04/13] fix: overflows<signed>() read past the end of the
 one-character string "-"

---
 src/c4/charconv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index f438d84..98192a0 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -1741,7 +1741,7 @@ auto overflows(csubstr str)
         return false;
     if(str.str[0] == '-')
     {
-        if(str.str[1] == '0')
+        if(str.len > 1 && str.str[1] == '0')
         {
             if(str.len == 2)
                 return false;
-- 
2.43.0


From b5a1b70e444d3ea10970c95ca0eb085a7b141ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:03 +0000
Subject: [PATCH 05/13] fix: left_of/right_of/offs: do not accept positions
 giving a view outside the parent

---
 src/c4/substr.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index cb77a95..268230b 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -368,7 +368,7 @@ public:
     {
         C4_ASSERT(left  >= 0 && left  <= len);
         C4_ASSERT(right >= 0 && right <= len);
-        C4_ASSERT(left  <= len - right + 1);
+        C4_ASSERT(left  <= len - right);
         return basic_substring(str + left, len - right - left);
     }
 
@@ -384,7 +384,7 @@ public:
     /** return [0, pos+include_pos[ . Same as .first(pos+1), but provided for compatibility with .right_of() */
     C4_ALWAYS_INLINE C4_PURE basic_substring left_of(size_t pos, bool include_pos) const noexcept
     {
-        C4_ASSERT(pos <= len || pos == npos);
+        C4_ASSERT(pos < len || (pos == len && !include_pos) || pos == npos);
         return (pos != npos) ?
             basic_substring(str, pos+include_pos) :
             *this;
@@ -393,7 +393,7 @@ public:
     /** return [pos+1, len[ */
     C4_ALWAYS_INLINE C4_PURE basic_substring right_of(size_t pos) const noexcept
     {
-        C4_ASSERT(pos <= len || pos == npos);
+        C4_ASSERT(pos < len || pos == npos);
         return (pos != npos) ?
             basic_substring(str + (pos + 1), len - (pos + 1)) :
             basic_substring(str + len, size_t(0));
@@ -402,7 +402,7 @@ public:
     /** return [pos+!include_pos, len[ */
     C4_ALWAYS_INLINE C4_PURE basic_substring right_of(size_t pos, bool include_pos) const noexcept
     {
-        C4_ASSERT(pos <= len || pos == npos);
+        C4_ASSERT(pos < len || (pos == len && include_pos) || pos == npos);
         return (pos != npos) ?
             basic_substring(str + (pos + !include_pos), len - (pos + !include_pos)) :
             basic_substring(str + len, size_t(0));
-- 
2.43.0


From 24ad882f05fa896b95f8f97c115b05e7b8741441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:03 +0000
Subject: [PATCH 06/13] fix: substr::overlaps(): an empty string overlaps
 nothing

---
 src/c4/substr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index 268230b..92b4c72 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -313,7 +313,7 @@ public:
     C4_ALWAYS_INLINE C4_PURE bool overlaps(ro_substr const that) const noexcept
     {
         // thanks @timwynants
-        return that.str+that.len > str && that.str < str+len;
+        return len > 0 && that.len > 0 && that.str+that.len > str && that.str < str+len;
     }
 
 public:
-- 
2.43.0


From 3b10772d216f3e6b5db1223863e422cc87ba9fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:03 +0000
Subject: [PATCH 07/13] fix: substr::count(): do not loop forever on an empty
 pattern

---
 src/c4/substr.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index 92b4c72..a36453e 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -578,6 +578,8 @@ public:
     inline size_t count(ro_substr c, size_t pos=0) const
     {
         C4_ASSERT(pos >= 0 && pos <= len);
+        if(c.len == 0) // the empty string occurs at every position
+            return len - pos + 1;
         size_t num = 0;
         pos = find(c, pos);
         while(pos != npos)
-- 
2.43.0


From 566ae1d5a436663ebb29958937c387336121943e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:42 +0000
Subject: [PATCH 08/13] fix: substr::toupper()/tolower(): negative chars are
 undefined behaviour for the C functions

---
 src/c4/substr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/substr.hpp b/src/c4/substr.hpp
index a36453e..37360ce 100644
--- a/src/c4/substr.hpp
+++ b/src/c4/substr.hpp
@@ -1981,7 +1981,7 @@ public:
     {
         for(size_t i = 0; i < len; ++i)
         {
-            str[i] = static_cast<C>(::toupper(str[i]));
+            str[i] = static_cast<C>(::toupper(static_cast<unsigned char>(str[i])));
         }
     }
 
@@ -1991,7 +1991,7 @@ public:
     {
         for(size_t i = 0; i < len; ++i)
         {
-            str[i] = static_cast<C>(::tolower(str[i]));
+            str[i] = static_cast<C>(::tolower(static_cast<unsigned char>(str[i])));
         }
     }
 
-- 
2.43.0


From 9b52c357f53f24b96fcc98352b1fba40ddff92be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:35 +0000
Subject: [PATCH 09/13] fix: base64_valid() accepts padding characters anywhere

'=' was accepted at any position, so that texts like "a=bc" or "====" were
reported as valid base64. Padding is valid only in the last one or two
characters.
---
 src/c4/base64.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/c4/base64.cpp b/src/c4/base64.cpp
index 7f8b339..1eda638 100644
--- a/src/c4/base64.cpp
+++ b/src/c4/base64.cpp
@@ -98,12 +98,14 @@ bool base64_valid(csubstr encoded)
 {
     if(encoded.len & 3u) // (encoded.len % 4u)
         return false;
-    for(const char c : encoded)
+    // padding can only happen in the last one or two characters
+    size_t num_padding = 0;
+    if(encoded.ends_with('='))
+        num_padding = encoded.ends_with("==") ? 2 : 1;
+    for(const char c : encoded.first(encoded.len - num_padding))
     {
         if(c < 0/* || c >= 128*/)
             return false;
-        if(c == '=')
-            continue;
         if(detail::base64_char_to_sextet_[c] == char(-1))
             return false;
     }
-- 
2.43.0


From 1dca9d78329c68a61fdae9988ed09cd9909b8888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:43 +0000
Subject: [PATCH 10/13] fix: to_chars(fmt::left/right): do not pad past the end
 of the buffer

When the value fits in the buffer but the requested width does not, the
padding was written past the end of the buffer.
---
 src/c4/format.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/c4/format.hpp b/src/c4/format.hpp
index 519c2a4..a1146ea 100644
--- a/src/c4/format.hpp
+++ b/src/c4/format.hpp
@@ -545,8 +545,10 @@ template<class T>
 size_t to_chars(substr buf, fmt::left_<T> const& C4_RESTRICT align)
 {
     size_t ret = to_chars(buf, align.val);
-    if(ret >= buf.len || ret >= align.width)
-        return ret > align.width ? ret : align.width;
+    if(ret >= align.width)
+        return ret;
+    else if(align.width > buf.len) // not enough space for the padding
+        return align.width;
     buf.first(align.width).sub(ret).fill(align.pad);
     to_chars(buf, align.val);
     return align.width;
@@ -557,8 +559,10 @@ template<class T>
 size_t to_chars(substr buf, fmt::right_<T> const& C4_RESTRICT align)
 {
     size_t ret = to_chars(buf, align.val);
-    if(ret >= buf.len || ret >= align.width)
-        return ret > align.width ? ret : align.width;
+    if(ret >= align.width)
+        return ret;
+    else if(align.width > buf.len) // not enough space for the padding
+        return align.width;
     size_t rem = static_cast<size_t>(align.width - ret);
     buf.first(rem).fill(align.pad);
     to_chars(buf.sub(rem), align.val);
-- 
2.43.0


From 059132220e5e223a58e44911c374c3764be377ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:43 +0000
Subject: [PATCH 11/13] fix: from_chars_first(bool): read only the first span

The whole string was parsed instead of the first span, so any string with
more characters after the boolean was rejected; and the returned length did
not include the skipped leading characters.
---
 src/c4/charconv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index 98192a0..c0ced6d 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -2511,9 +2511,9 @@ inline bool from_chars(csubstr buf, bool * C4_RESTRICT v) noexcept
 inline size_t from_chars_first(csubstr buf, bool * C4_RESTRICT v) noexcept
 {
     csubstr trimmed = buf.first_non_empty_span();
-    if(trimmed.len == 0 || !from_chars(buf, v))
+    if(trimmed.len == 0 || !from_chars(trimmed, v))
         return csubstr::npos;
-    return trimmed.len;
+    return static_cast<size_t>(trimmed.end() - buf.begin());
 }
 
 
-- 
2.43.0


From cb9e6f2ea8e4086f4e063c69ac49e014c507f5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:43 +0000
Subject: [PATCH 12/13] fix: from_chars_first(T**): return the number of
 characters

The size was stored in a bool: the function returned 1 for every string,
including strings without a number, for which the pointer was set from an
uninitialized variable.
---
 src/c4/charconv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/charconv.hpp b/src/c4/charconv.hpp
index c0ced6d..065d542 100644
--- a/src/c4/charconv.hpp
+++ b/src/c4/charconv.hpp
@@ -2422,7 +2422,7 @@ C4_ALWAYS_INLINE size_t from_chars_first(csubstr buf,   double *C4_RESTRICT v) n
 template <class T> _C4_IF_NOT_FIXED_LENGTH_I(T, size_t)::type from_chars_first(csubstr buf, T *C4_RESTRICT v) noexcept { return atoi_first(buf, v); }
 template <class T> _C4_IF_NOT_FIXED_LENGTH_U(T, size_t)::type from_chars_first(csubstr buf, T *C4_RESTRICT v) noexcept { return atou_first(buf, v); }
 template <class T>
-C4_ALWAYS_INLINE size_t from_chars_first(csubstr buf, T **v) noexcept { intptr_t tmp; bool ret = from_chars_first(buf, &tmp); if(ret) { *v = (T*)tmp; } return ret; }
+C4_ALWAYS_INLINE size_t from_chars_first(csubstr buf, T **v) noexcept { intptr_t tmp; size_t ret = from_chars_first(buf, &tmp); if(ret != csubstr::npos) { *v = (T*)tmp; } return ret; }
 
 /** @} */
 
-- 
2.43.0


From 38a4758898c26a50c1e8b016c3808d22cd601f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:29 +0000
Subject: [PATCH 13/13] fix: span::subspan(first,num): reject sizes for which
 first+num wraps around

subspan(1, size_t(-1)) passed the check because first+num==0, and gave a span
reaching far outside of the original one.
---
 src/c4/span.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/c4/span.hpp b/src/c4/span.hpp
index 43bb633..6e38b7a 100644
--- a/src/c4/span.hpp
+++ b/src/c4/span.hpp
@@ -99,7 +99,7 @@ public:
     C4_ALWAYS_INLINE SpanImpl subspan(I first, I num) const C4_NOEXCEPT_X
     {
         C4_XASSERT((first >= 0 && first < _c4csz) || (first == _c4csz && num == 0));
-        C4_XASSERT((first + num >= 0) && (first + num <= _c4csz));
+        C4_XASSERT((num >= 0) && (num <= _c4csz - first)); // careful: first+num may wrap around
         return _c4cthis->_select(_c4cptr + first, num);
     }
     C4_ALWAYS_INLINE SpanImpl subspan(I first) const C4_NOEXCEPT_X ///< goes up until the end of the span
-- 
2.43.0

