From 631d53621662fc387b037945781b6f10bf538371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:23 +0000
Subject: [PATCH 01/84] fix: base64_decode indexed its table with negative
 values for bytes >= 0x80

Plain char is signed on common platforms, so any byte above 0x7f (for example
in the credentials of an Authorization header) read memory in front of the
decoding table.
---
 src/algorithm.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/algorithm.cpp b/src/algorithm.cpp
index 00ea0b6..15c5904 100644
--- a/src/algorithm.cpp
+++ b/src/algorithm.cpp
@@ -60,12 +60,12 @@ bool algorithm::base64_decode(const std::string &input, std::string &output)
         char base64code2 = 0;   // initialized to 0 to suppress warnings
         char base64code3;
 
-        base64code0 = decoding_data[static_cast<int>(input_ptr[i])];
+        base64code0 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
         if(base64code0==nop)            // non base64 character
             return false;
         if(!(++i<input_length)) // we need at least two input bytes for first byte output
             return false;
-        base64code1 = decoding_data[static_cast<int>(input_ptr[i])];
+        base64code1 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
         if(base64code1==nop)            // non base64 character
             return false;
 
@@ -77,7 +77,7 @@ bool algorithm::base64_decode(const std::string &input, std::string &output)
                 BOOST_ASSERT( (base64code1 & 0x0f)==0);
                 return true;
             }
-            base64code2 = decoding_data[static_cast<int>(input_ptr[i])];
+            base64code2 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
             if(base64code2==nop)            // non base64 character
                 return false;
 
@@ -90,7 +90,7 @@ bool algorithm::base64_decode(const std::string &input, std::string &output)
                 BOOST_ASSERT( (base64code2 & 0x03)==0);
                 return true;
             }
-            base64code3 = decoding_data[static_cast<int>(input_ptr[i])];
+            base64code3 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
             if(base64code3==nop)            // non base64 character
                 return false;
 
-- 
2.43.0


From 167878be526f4016f8c27fcab2b2b25072019d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:23 +0000
Subject: [PATCH 02/84] fix: url_decode treated non-hexadecimal escapes as if
 they were encoded bytes

strtol() accepts leading blanks, signs and a partial number, so "%1g", "% 1"
and "%-1" swallowed characters and produced unrelated bytes. Escapes that are
not two hexadecimal digits are now left as they are, like the other invalid
ones.
---
 src/algorithm.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/algorithm.cpp b/src/algorithm.cpp
index 15c5904..b4f64a7 100644
--- a/src/algorithm.cpp
+++ b/src/algorithm.cpp
@@ -7,6 +7,7 @@
 // See http://www.boost.org/LICENSE_1_0.txt
 //
 
+#include <cctype>
 #include <cmath>
 #include <cstdlib>
 #include <cstdio>
@@ -165,15 +166,17 @@ std::string algorithm::url_decode(const std::string& str)
             break;
         case '%':
             // decode hexadecimal value
-            if (pos + 2 < str.size()) {
+            if (pos + 2 < str.size()
+                && isxdigit(static_cast<unsigned char>(str[pos+1]))
+                && isxdigit(static_cast<unsigned char>(str[pos+2])))
+            {
                 decode_buf[0] = str[++pos];
                 decode_buf[1] = str[++pos];
                 decode_buf[2] = '\0';
 
                 char decoded_char = static_cast<char>( strtol(decode_buf, 0, 16) );
 
-                // decoded_char will be '\0' if strtol can't parse decode_buf as hex
-                // (or if decode_buf == "00", which is also not valid).
+                // decoded_char will be '\0' if decode_buf == "00", which is not valid.
                 // In this case, recover from error by not decoding.
                 if (decoded_char == '\0') {
                     result += '%';
-- 
2.43.0


From c76ba0bf844f4d11ba2a350364758b8b4b82c095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:23 +0000
Subject: [PATCH 03/84] fix: xml_encode passed overlong, surrogate and
 out-of-range UTF-8 through

Its output is meant to be valid UTF-8 made of XML characters only, with
everything else replaced; these sequences make the document not well-formed.
---
 src/algorithm.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/algorithm.cpp b/src/algorithm.cpp
index b4f64a7..24c8d13 100644
--- a/src/algorithm.cpp
+++ b/src/algorithm.cpp
@@ -279,9 +279,9 @@ std::string algorithm::xml_encode(const std::string& str)
                 result += UTF8_REPLACEMENT_CHAR;
             }
         } else if (*ptr >= 0xE0 && *ptr <= 0xEF) {
-            // three-byte sequence
-            if (*(ptr+1) >= 0x80 && *(ptr+1) <= 0xBF
-                && *(ptr+2) >= 0x80 && *(ptr+2) <= 0xBF) {
+            // three-byte sequence, other than overlong forms, surrogates, U+FFFE and U+FFFF
+            if (*(ptr+1) >= (*ptr == 0xE0 ? 0xA0 : 0x80) && *(ptr+1) <= (*ptr == 0xED ? 0x9F : 0xBF)
+                && *(ptr+2) >= 0x80 && *(ptr+2) <= (*ptr == 0xEF && *(ptr+1) == 0xBF ? 0xBD : 0xBF)) {
                 result += *ptr;
                 result += *(++ptr);
                 result += *(++ptr);
@@ -290,8 +290,8 @@ std::string algorithm::xml_encode(const std::string& str)
                 result += UTF8_REPLACEMENT_CHAR;
             }
         } else if (*ptr >= 0xF0 && *ptr <= 0xF4) {
-            // four-byte sequence
-            if (*(ptr+1) >= 0x80 && *(ptr+1) <= 0xBF
+            // four-byte sequence, other than overlong forms and values above U+10FFFF
+            if (*(ptr+1) >= (*ptr == 0xF0 ? 0x90 : 0x80) && *(ptr+1) <= (*ptr == 0xF4 ? 0x8F : 0xBF)
                 && *(ptr+2) >= 0x80 && *(ptr+2) <= 0xBF
                 && *(ptr+3) >= 0x80 && *(ptr+3) <= 0xBF) {
                 result += *ptr;
-- 
2.43.0


From 48c02459f3dd9c2e450fce818030da6628c67ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:01 +0000
Subject: [PATCH 04/84] fix: float_to_bytes never returned for infinity and
 NaN; subnormals were wrong

The exponent loops do not end for values that are not finite, and subnormal
numbers, negative zero and quadruple-precision values outside the range of a
double did not convert back to the value they were made from.
---
 src/algorithm.cpp | 75 +++++++++++++++++++++++++++--------------------
 1 file changed, 43 insertions(+), 32 deletions(-)

diff --git a/src/algorithm.cpp b/src/algorithm.cpp
index 24c8d13..dbd386c 100644
--- a/src/algorithm.cpp
+++ b/src/algorithm.cpp
@@ -12,6 +12,7 @@
 #include <cstdlib>
 #include <cstdio>
 #include <cstring>
+#include <limits>
 #include <pion/algorithm.hpp>
 #include <boost/assert.hpp>
 
@@ -328,19 +329,32 @@ void algorithm::float_from_bytes(long double& value, const unsigned char *ptr, s
     }
     
     // build significand from bitstream
+    const boost::int16_t max_exponent = (boost::int16_t)((1L << num_exp_bits) - 1);
     long double significand = exponent ? 1.0 : 0.0;
     long double significand_value = 1.0;
+    bool got_fraction = false;
     while (num_fraction_bits) {
         SHIFT_BITMASK(ptr, mask);
         significand_value /= 2;
-        if (*ptr & mask)
+        if (*ptr & mask) {
             significand += significand_value;
+            got_fraction = true;
+        }
         --num_fraction_bits;
     }
+
+    if (exponent == max_exponent) {
+        // infinity or not a number
+        value = got_fraction ? std::numeric_limits<long double>::quiet_NaN()
+            : value_sign * std::numeric_limits<long double>::infinity();
+        return;
+    }
     
-    // calculate final value
-    exponent -= (boost::int16_t)(::pow((long double)2, (int)(num_exp_bits - 1)) - 1);
-    value = value_sign * significand * ::pow((long double)2, exponent);
+    // calculate final value (subnormal numbers use the smallest exponent)
+    if (exponent == 0)
+        exponent = 1;
+    exponent -= max_exponent / 2;
+    value = value_sign * std::ldexp(significand, exponent);
 }
 
 void algorithm::float_to_bytes(long double value, unsigned char *buf, size_t num_exp_bits, size_t num_fraction_bits)
@@ -350,16 +364,29 @@ void algorithm::float_to_bytes(long double value, unsigned char *buf, size_t num
     memset(ptr, 0x00, (size_t)(::ceil(static_cast<float>(num_exp_bits + num_fraction_bits + 1) / 8)));
     
     // initialize first byte starting with sign of number
-    if (value < 0) {
+    if (value < 0 || (value == 0 && 1 / value < 0)) {
         *ptr = 0x80;
         value *= -1;
     }
     
-    // break down numbers >= 1.0 by incrementing the exponent & dividing by 2
-    boost::int16_t exponent = 0;
-    while (value >= 1) {
-        value /= 2;
-        ++exponent;
+    // infinity and values that are not numbers have all exponent bits set
+    const boost::int32_t max_exponent = (boost::int32_t)((1L << num_exp_bits) - 1);
+    boost::int32_t exponent = 0;
+    if (value != value || value > (std::numeric_limits<long double>::max)()) {
+        exponent = max_exponent;
+        value = (value != value ? 0.5 : 0);
+    } else if (value) {
+        // break number down into a fraction < 1.0 and an exponent
+        value = std::frexp(value, &exponent);
+        exponent += max_exponent / 2 - 1;
+        if (exponent > 0) {
+            // drop the leading bit, which is implied
+            value = value * 2 - 1;
+        } else {
+            // subnormal number: has no implied bit
+            value = std::ldexp(value, exponent);
+            exponent = 0;
+        }
     }
 
     // skip past exponent bits because we don't know the value yet
@@ -374,35 +401,19 @@ void algorithm::float_to_bytes(long double value, unsigned char *buf, size_t num
     }
     
     // serialize fractional value < 1.0
-    bool got_exponent = false;
     boost::uint16_t num_bits = 0;
     while (value && num_bits < num_fraction_bits) {
         value *= 2;
-        if (got_exponent) {
-            if (value >= 1.0) {
-                *ptr |= mask;
-                value -= 1.0;
-            }
-            SHIFT_BITMASK(ptr, mask);
-            ++num_bits;
-        } else {
-            --exponent;
-            if (value >= 1.0) {
-                value -= 1.0;
-                got_exponent = true;
-            }
+        if (value >= 1.0) {
+            *ptr |= mask;
+            value -= 1.0;
         }
+        SHIFT_BITMASK(ptr, mask);
+        ++num_bits;
     }
     
-    // normalize exponent.
-    // note: we should have a zero exponent if value == 0
-    boost::int32_t high_bit = (boost::int32_t)(::pow((long double)2, (int)(num_exp_bits - 1)));
-    if (got_exponent)
-        exponent += (high_bit - 1);
-    else
-        exponent = 0;
-    
     // serialize exponent bits
+    boost::int32_t high_bit = (max_exponent + 1) / 2;
     ptr = buf;
     mask = 0x80;
     for (size_t n = 0; n < num_exp_bits; ++n) {
-- 
2.43.0


From 70f57514a6671a011960da5b8373f425a9b88eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:56 +0000
Subject: [PATCH 05/84] fix: base64_2binary refused buffers of the size it had
 asked for

The size check compared the buffer with the length of the encoded text instead
of the required size that is reported to the caller.
---
 src/http_parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 9a796b5..7690c54 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1048,7 +1048,7 @@ bool parser::base64_2binary(char *out_buf, const std::size_t buf_size, std::size
     out_size = (size - prefix_end_pos)*6/8+1;
     if (size == 0)
         return true;
-    if (size > buf_size || out_buf == NULL)
+    if (out_size > buf_size || out_buf == NULL)
         return false;
 
     char *p = std::copy(
-- 
2.43.0


From 50c45af29dadd7c1b7ca27ad0898d4d8ee7e3cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:11 +0000
Subject: [PATCH 06/84] fix: a request line that ends after the space behind
 the resource was rejected

PARSE_HTTP_VERSION_H set the state for the missing-version case and then
overwrote it, so "GET /x \r\n" failed as a bad version.
---
 src/http_parser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 7690c54..3ad0383 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -361,11 +361,12 @@ boost::tribool parser::parse_headers(http::message& http_msg,
                 http_msg.set_version_major(0);
                 http_msg.set_version_minor(0);
                 m_headers_parse_state = PARSE_EXPECTING_CR;
-            } else if (*m_read_ptr != 'H') {
+            } else if (*m_read_ptr == 'H') {
+                m_headers_parse_state = PARSE_HTTP_VERSION_T_1;
+            } else {
                 set_error(ec, ERROR_VERSION_CHAR);
                 return false;
             }
-            m_headers_parse_state = PARSE_HTTP_VERSION_T_1;
             break;
 
         case PARSE_HTTP_VERSION_T_1:
-- 
2.43.0


From f8dde0949acb2e8fb3e25673bdb3af7ff8827c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:11 +0000
Subject: [PATCH 07/84] fix: trailers of a chunked message were left unparsed
 with a payload handler

parse() reported the message complete at the first trailer byte, so the
trailers were taken for the start of the next message.
---
 src/http_parser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 3ad0383..90b3871 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -89,8 +89,9 @@ boost::tribool parser::parse(http::message& http_msg,
                 rc = parse_chunks(http_msg.get_chunk_cache(), ec);
                 total_bytes_parsed += m_bytes_last_read;
                 // check if we have finished parsing all chunks
-                if (rc == true && !m_payload_handler) {
-                    http_msg.concatenate_chunks();
+                if (rc == true) {
+                    if (! m_payload_handler)
+                        http_msg.concatenate_chunks();
                     
                     // Handle footers if present
                     rc = ((m_message_parse_state == PARSE_FOOTERS) ?
-- 
2.43.0


From edf03fd82daf92d75d0869cc416f78ccc233cbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:11 +0000
Subject: [PATCH 08/84] fix: chunked content over the maximum length never
 completed

Bytes past the maximum were not counted, so the parser swallowed the rest
of the connection as part of the same chunk.
---
 src/http_parser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 90b3871..da11442 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1447,8 +1447,10 @@ boost::tribool parser::parse_chunks(http::message::chunk_cache_t& chunks,
                     m_payload_handler(m_read_ptr, len);
                     m_bytes_read_in_current_chunk += len;
                     if (len > 1) m_read_ptr += (len - 1);
-                } else if (chunks.size() < m_max_content_length) {
-                    chunks.push_back(*m_read_ptr);
+                } else {
+                    // bytes beyond the maximum are consumed but not stored
+                    if (chunks.size() < m_max_content_length)
+                        chunks.push_back(*m_read_ptr);
                     m_bytes_read_in_current_chunk++;
                 }
             }
-- 
2.43.0


From c7ad4c8996d8f537caef2f37ab7cf3a8b9bbd0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:32 +0000
Subject: [PATCH 09/84] fix: bodyless responses announcing chunked encoding
 waited for chunks

Responses to HEAD and 1xx, 204 and 304 responses never have a payload, but
finish_header_parsing() looked at Transfer-Encoding first, so the next
response on the connection was consumed as chunk data.
---
 src/http_parser.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index da11442..941d55f 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -761,7 +761,12 @@ boost::tribool parser::finish_header_parsing(http::message& http_msg,
     http_msg.update_transfer_encoding_using_header();
     update_message_with_header_data(http_msg);
 
-    if (http_msg.is_chunked()) {
+    // HEAD, 1xx, 204 and 304 responses end with their headers, whatever the headers
+    // say; 205 may still use an empty chunked payload (RFC 7231, section 6.3.6)
+    const bool has_no_payload = (http_msg.is_content_length_implied()
+                                 && (m_is_request || m_status_code != 205));
+
+    if (http_msg.is_chunked() && ! has_no_payload) {
 
         // content is encoded using chunks
         m_message_parse_state = PARSE_CHUNKS;
-- 
2.43.0


From 3019ddc1ca165aba5f4d7c4261b6b2a58aa24951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:32 +0000
Subject: [PATCH 10/84] fix: multipart part headers without a value hid the end
 of the part's headers

The name of an ignored header stayed behind, so the blank line after it was
not recognised and the part's content was parsed as headers.
---
 src/http_parser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 941d55f..63a689c 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1143,6 +1143,7 @@ bool parser::parse_multipart_form_data(ihash_multimap& dict,
                         parse_state = (*ptr == '\r' ? MP_PARSE_HEADER_LAST_LF : MP_PARSE_FIELD_DATA);
                     } else {
                         // premature CR or LF -> just ignore and start parsing next header
+                        header_name.clear();
                         parse_state = (*ptr == '\r' ? MP_PARSE_HEADER_LF : MP_PARSE_HEADER_NAME);
                     }
                 } else if (*ptr == ':') {
@@ -1157,9 +1158,11 @@ bool parser::parse_multipart_form_data(ihash_multimap& dict,
                 // expecting a space before header value
                 if (*ptr == '\r') {
                     // premature CR -> just ignore and start parsing next header
+                    header_name.clear();
                     parse_state = MP_PARSE_HEADER_LF;
                 } else if (*ptr == '\n') {
                     // premature LF -> just ignore and start parsing next header
+                    header_name.clear();
                     parse_state = MP_PARSE_HEADER_NAME;
                 } else if (*ptr != ' ') {
                     // not a space -> assume it's a value char
-- 
2.43.0


From 5c9c7cd6f95af956eac6df45a365c30a09399ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:32 +0000
Subject: [PATCH 11/84] fix: multipart field directly followed by its boundary
 had a negative length

The CRLF that ends the part's headers was taken for the one before the
boundary, so the field ended before it began: std::length_error out of the
parser for text fields, out-of-bounds reads for encoded ones.
---
 src/http_parser.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 63a689c..0f33f55 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1215,12 +1215,11 @@ bool parser::parse_multipart_form_data(ihash_multimap& dict,
                 // parsing the value of a field -> find the end of it
                 const char *field_end_ptr = end_ptr;
                 const char *next_ptr = std::search(ptr, end_ptr, boundary.begin(), boundary.end());
-                if (next_ptr) {
+                if (next_ptr - ptr >= 2 && next_ptr[-2] == '\r' && next_ptr[-1] == '\n') {
                     // don't include CRLF before next boundary
-                    const char *temp_ptr = next_ptr - 2;
-                    if (temp_ptr[0] == '\r' && temp_ptr[1] == '\n')
-                        field_end_ptr = temp_ptr;
-                    else field_end_ptr = next_ptr;
+                    field_end_ptr = next_ptr - 2;
+                } else {
+                    field_end_ptr = next_ptr;
                 }
                 do {
                     if (do_mime64_convertion) {
-- 
2.43.0


From 2d99a2894d23dfeff6c5333efb84adbe9ce0aaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:53 +0000
Subject: [PATCH 12/84] fix: signed Content-Length values were accepted

boost::lexical_cast<size_t> takes "+5" and wraps "-1" to a huge length; a
Content-Length is digits only, anything else is an invalid length.
---
 include/pion/http/message.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index 0df5977..5962fcd 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -321,6 +321,9 @@ public:
         } else {
             std::string trimmed_length(i->second);
             boost::algorithm::trim(trimmed_length);
+            // lexical_cast would also accept a sign ("-1" becomes a huge length)
+            if (trimmed_length.find_first_not_of("0123456789") != std::string::npos)
+                throw boost::bad_lexical_cast();
             m_content_length = boost::lexical_cast<size_t>(trimmed_length);
         }
     }
-- 
2.43.0


From f91c2cec4b73341ab30f355e70a3b206116e8efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:53 +0000
Subject: [PATCH 13/84] fix: content buffer of the largest length wrote outside
 its allocation

len+1 wrapped to zero for Content-Length 18446744073709551615; a failed
allocation also left the new length on the old buffer.
---
 include/pion/http/message.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index 5962fcd..cabe9ec 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -11,6 +11,7 @@
 #define __PION_HTTP_MESSAGE_HEADER__
 
 #include <iosfwd>
+#include <new>
 #include <vector>
 #include <cstring>
 #include <boost/cstdint.hpp>
@@ -544,15 +545,17 @@ protected:
         
         /// changes the size of the content buffer
         inline void resize(std::size_t len) {
-            m_len = len;
             if (len == 0) {
                 m_buf.reset();
                 m_ptr = &m_empty;
             } else {
+                if (len + 1 == 0)   // no room for the terminator
+                    throw std::bad_alloc();
                 m_buf.reset(new char[len+1]);
                 m_buf[len] = '\0';
                 m_ptr = m_buf.get();
             }
+            m_len = len;
         }
         
         /// clears the content buffer
-- 
2.43.0


From db77d7b317d0e2542968a084f15412e967d0f97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:53 +0000
Subject: [PATCH 14/84] fix: missing data beyond the maximum length left
 content uninitialized

When a gap crossed the maximum content length, none of it was filled in and
the part inside the buffer exposed whatever the heap held before.
---
 src/http_parser.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 0f33f55..a6db6b5 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -197,12 +197,12 @@ boost::tribool parser::parse_missing_data(http::message& http_msg,
                 if (m_payload_handler) {
                     for (std::size_t n = 0; n < len; ++n)
                         m_payload_handler(&MISSING_DATA_CHAR, 1);
-                } else if ( (m_bytes_content_read+len) <= m_max_content_length) {
-                    // use dummy content for missing data
-                    for (std::size_t n = 0; n < len; ++n)
-                        http_msg.get_content()[m_bytes_content_read++] = MISSING_DATA_CHAR;
                 } else {
-                    m_bytes_content_read += len;
+                    // use dummy content for missing data (as much as the buffer holds)
+                    for (std::size_t n = 0; n < len; ++n, ++m_bytes_content_read) {
+                        if (m_bytes_content_read < m_max_content_length)
+                            http_msg.get_content()[m_bytes_content_read] = MISSING_DATA_CHAR;
+                    }
                 }
 
                 m_bytes_content_remaining -= len;
-- 
2.43.0


From a1d62ea722adb0a50428414eb6b6fb4a51fdbd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:49 +0000
Subject: [PATCH 15/84] fix: base64_2binary ran past its input for incomplete
 base64 text

With one digit left over, the width transformation steps over the end of
the range and never compares equal to it: it decoded (and wrote) on until it
met a byte outside the base64 alphabet.
---
 src/http_parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index a6db6b5..88f19d9 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1052,6 +1052,10 @@ bool parser::base64_2binary(char *out_buf, const std::size_t buf_size, std::size
             --size;
     }
 
+    // a single left-over digit holds no complete byte
+    if ((size - prefix_end_pos) % 4 == 1)
+        return false;
+
     out_size = (size - prefix_end_pos)*6/8+1;
     if (size == 0)
         return true;
-- 
2.43.0


From 7432718e501f7cee705ac0165df1c47c996d4929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:00 +0000
Subject: [PATCH 16/84] fix: request's first line kept the old resource after
 change_resource()

---
 include/pion/http/request.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pion/http/request.hpp b/include/pion/http/request.hpp
index 65b67cd..df0e106 100644
--- a/include/pion/http/request.hpp
+++ b/include/pion/http/request.hpp
@@ -96,7 +96,10 @@ public:
     }
 
     /// changes the resource or uri-stem to be delivered (called as the result of a redirect)
-    inline void change_resource(const std::string& str) { m_resource = str; }
+    inline void change_resource(const std::string& str) {
+        m_resource = str;
+        clear_first_line();
+    }
 
     /// sets the uri-query or query string requested
     inline void set_query_string(const std::string& str) {
-- 
2.43.0


From dad07b3cafab4ac07888b84c7f638ccd977befeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:00 +0000
Subject: [PATCH 17/84] fix: assigning a message to itself lost its content

---
 include/pion/http/message.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index cabe9ec..beba001 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -522,6 +522,8 @@ protected:
 
         /// assignment operator
         content_buffer_t& operator=(const content_buffer_t& buf) {
+            if (this == &buf)
+                return *this;
             if (buf.size()) {
                 resize(buf.size());
                 memcpy(get(), buf.get(), buf.size());
-- 
2.43.0


From 9cbfb15f1180df1b536fc6e39f207c0c38926a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:00 +0000
Subject: [PATCH 18/84] fix: receive() and read() forgot that the response
 answers a HEAD request

Both start with clear(), which dropped the request method, so a response
constructed for a HEAD request waited for content that never comes.
---
 include/pion/http/response.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pion/http/response.hpp b/include/pion/http/response.hpp
index f1d0bcf..da4afff 100644
--- a/include/pion/http/response.hpp
+++ b/include/pion/http/response.hpp
@@ -74,7 +74,8 @@ public:
         http::message::clear();
         m_status_code = RESPONSE_CODE_OK;
         m_status_message = RESPONSE_MESSAGE_OK;
-        m_request_method.clear();
+        // keeps m_request_method: it is not response data, and receive() and
+        // read(), which start with clear(), need it to frame the response
     }
 
     /// the content length may be implied for certain types of responses
-- 
2.43.0


From 8de018384b7de3cc34ae0069ae980256ebc20e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:00 +0000
Subject: [PATCH 19/84] fix: parse_uri wrapped out-of-range ports and kept a
 stale query string

Port 65616 became 80, and for a URI without a path the query of whatever
was parsed before stayed in the output.
---
 src/http_parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 88f19d9..1423309 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -863,6 +863,7 @@ bool parser::parse_uri(const std::string& uri, std::string& proto,
     if (server_port_end == std::string::npos) {
         // no path -> use just /
         path = "/";
+        query.clear();
         server_port_end = uri.size();
     }
     
@@ -881,7 +882,10 @@ bool parser::parse_uri(const std::string& uri, std::string& proto,
     // parse the port, if it's not empty
     if(port_pos != std::string::npos) {
         try {
-            port = boost::lexical_cast<int>(t.substr(port_pos+1));
+            const int port_num = boost::lexical_cast<int>(t.substr(port_pos+1));
+            if (port_num < 0 || port_num > 65535)
+                return false;
+            port = static_cast<boost::uint16_t>(port_num);
         } catch (boost::bad_lexical_cast &) {
             return false;
         }
-- 
2.43.0


From eb1082711602181a83f59b271f2a6acb3249b48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:00 +0000
Subject: [PATCH 20/84] fix: multipart forms with a quoted boundary or further
 parameters were refused

Everything after boundary= was taken for the boundary, including quotes and
following parameters (Content-Type: multipart/form-data; boundary=x; charset=y).
---
 src/http_parser.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 1423309..a8076ca 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1088,7 +1088,16 @@ bool parser::parse_multipart_form_data(ihash_multimap& dict,
     std::size_t pos = content_type.find("boundary=");
     if (pos == std::string::npos)
         return false;
-    const std::string boundary = std::string("--") + content_type.substr(pos+9);
+    std::string boundary(content_type.substr(pos+9));
+    if (! boundary.empty() && boundary[0] == '\"') {
+        // the parameter's value is a quoted string
+        boundary.erase(0, 1);
+        boundary.erase(std::min(boundary.find('\"'), boundary.size()));
+    } else {
+        // other parameters may follow
+        boundary.erase(std::min(boundary.find_first_of("; \t"), boundary.size()));
+    }
+    boundary.insert(0, "--");
     
     // used to track what we are parsing
     enum MultiPartParseState {
-- 
2.43.0


From 16a18a9c9e4a713313d9b7e6ce6c258e0b69df0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:00 +0000
Subject: [PATCH 21/84] fix: multipart field took its name from a filename
 parameter that came first

---
 src/http_parser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index a8076ca..137ffa4 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1199,6 +1199,11 @@ bool parser::parse_multipart_form_data(ihash_multimap& dict,
                     } else if (boost::algorithm::iequals(header_name, types::HEADER_CONTENT_DISPOSITION)) {
                         // get current field from content-disposition header
                         std::size_t name_pos = header_value.find("name=\"");
+                        // do not mistake another parameter (i.e. filename="") for it
+                        while (name_pos != std::string::npos && name_pos > 0
+                               && header_value[name_pos-1] != ' ' && header_value[name_pos-1] != ';'
+                               && header_value[name_pos-1] != '\t')
+                            name_pos = header_value.find("name=\"", name_pos + 1);
                         if (name_pos != std::string::npos) {
                             for (name_pos += 6; name_pos < header_value.size() && header_value[name_pos] != '\"'; ++name_pos) {
                                 field_name += header_value[name_pos];
-- 
2.43.0


From e8157531d21c26a5d968f1e86a0f1724a69990cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:00 +0000
Subject: [PATCH 22/84] fix: sending a message again repeated all of its cookie
 headers

---
 include/pion/http/message.hpp  | 11 +++++++++++
 include/pion/http/request.hpp  |  2 +-
 include/pion/http/response.hpp |  2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index beba001..9fb2463 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -608,6 +608,17 @@ protected:
     /// appends HTTP headers for any cookies defined by the http::message
     virtual void append_cookie_headers(void) {}
 
+    /// adds a header unless it already has that value (i.e. from an earlier send)
+    inline void add_header_once(const std::string& key, const std::string& value) {
+        std::pair<ihash_multimap::iterator, ihash_multimap::iterator>
+            result_pair = m_headers.equal_range(key);
+        for (; result_pair.first != result_pair.second; ++result_pair.first) {
+            if (result_pair.first->second == value)
+                return;
+        }
+        add_header(key, value);
+    }
+
     /**
      * Returns the first value in a dictionary if key is found; or an empty
      * string if no values are found
diff --git a/include/pion/http/request.hpp b/include/pion/http/request.hpp
index df0e106..320e5fc 100644
--- a/include/pion/http/request.hpp
+++ b/include/pion/http/request.hpp
@@ -189,7 +189,7 @@ protected:
             cookie_header = i->first;
             cookie_header += COOKIE_NAME_VALUE_DELIMITER;
             cookie_header += i->second;
-            add_header(HEADER_COOKIE, cookie_header);
+            add_header_once(HEADER_COOKIE, cookie_header);
         }
     }
 
diff --git a/include/pion/http/response.hpp b/include/pion/http/response.hpp
index da4afff..35d06f3 100644
--- a/include/pion/http/response.hpp
+++ b/include/pion/http/response.hpp
@@ -216,7 +216,7 @@ protected:
     /// appends HTTP headers for any cookies defined by the http::message
     virtual void append_cookie_headers(void) {
         for (ihash_multimap::const_iterator i = get_cookies().begin(); i != get_cookies().end(); ++i) {
-            set_cookie(i->first, i->second);
+            add_header_once(HEADER_SET_COOKIE, make_set_cookie_header(i->first, i->second, "/"));
         }
     }
 
-- 
2.43.0


From ac5ad01deb060e18a41445b86e4fa9c354be642d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:29 +0000
Subject: [PATCH 23/84] fix: SPDY parser read beyond the packet it was given

Frame lengths were trusted: a packet shorter than a frame header, a header
frame shorter than its fixed fields or longer than the packet, and RST, PING
and GOAWAY frames cut short were all read past their end; GOAWAY took its
status from whatever followed its four bytes. A frame header that is not
complete is now reported as unfinished, a header frame that is not complete
as an error.
---
 include/pion/spdy/parser.hpp |  3 +++
 src/spdy_parser.cpp          | 50 +++++++++++++++++++++++++++++++-----
 2 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/include/pion/spdy/parser.hpp b/include/pion/spdy/parser.hpp
index ce38e67..b51be12 100644
--- a/include/pion/spdy/parser.hpp
+++ b/include/pion/spdy/parser.hpp
@@ -227,6 +227,9 @@ private:
     /// generic read pointer which parses the spdy data
     const char *                        m_read_ptr;
     
+    /// points past the last byte of the current frame that is part of the packet
+    const char *                        m_read_end_ptr;
+
     /// points to the first character of the uncompressed http headers
     const char *                        m_uncompressed_ptr;
     
diff --git a/src/spdy_parser.cpp b/src/spdy_parser.cpp
index 172c83c..81b3d9f 100644
--- a/src/spdy_parser.cpp
+++ b/src/spdy_parser.cpp
@@ -48,6 +48,7 @@ boost::once_flag            parser::m_instance_flag = BOOST_ONCE_INIT;
 
 parser::parser()
     : m_read_ptr(NULL),
+    m_read_end_ptr(NULL),
     m_uncompressed_ptr(NULL),
     m_current_data_chunk_ptr(NULL),
     m_last_data_chunk_ptr(NULL),
@@ -150,6 +151,10 @@ boost::tribool parser::parse_spdy_frame(boost::system::error_code& ec,
     // Verify that this is a spdy frame
     
     BOOST_ASSERT(m_read_ptr);
+    if (length_packet == 0) {
+        set_error(ec, ERROR_MISSING_HEADER_DATA);
+        return boost::indeterminate;
+    }
     boost::uint8_t first_byte = (boost::uint8_t)*m_read_ptr;
     if (first_byte != 0x80 && first_byte != 0x0) {
         // This is not a SPDY frame, throw an error
@@ -164,6 +169,20 @@ boost::tribool parser::parse_spdy_frame(boost::system::error_code& ec,
     
     ec.clear();
 
+    // Every frame starts with 8 bytes
+    if (length_packet < 8) {
+        if (first_byte == 0x80 && length_packet >= 4
+            && algorithm::to_uint16(m_read_ptr + 2) >= SPDY_INVALID)
+        {
+            PION_LOG_ERROR(m_logger, "Invalid SPDY Frame");
+            set_error(ec, ERROR_INVALID_SPDY_FRAME);
+            return false;
+        }
+        // the rest of the frame is not part of this packet
+        set_error(ec, ERROR_MISSING_HEADER_DATA);
+        return boost::indeterminate;
+    }
+
     // Populate the frame
     bool populate_frame_result = populate_frame(ec, frame, length_packet, stream_id, http_info);
     
@@ -172,8 +191,9 @@ boost::tribool parser::parse_spdy_frame(boost::system::error_code& ec,
         return false;
     }
     
-    BOOST_ASSERT(stream_id != 0);
-    
+    // The frame may continue beyond this packet
+    m_read_end_ptr = m_read_ptr + (length_packet < frame.length ? length_packet : frame.length);
+
     control_bit = (boost::uint8_t)frame.control_bit;
     
     // There is a possibility that there are more than one SPDY frames in one TCP frame
@@ -337,7 +357,7 @@ bool parser::populate_frame(boost::system::error_code& ec,
     
     http_info.data_size = frame.length;
     
-    if(control_bit){
+    if(control_bit && length_packet >= 4){
         four_bytes = algorithm::to_uint32(m_read_ptr);
         stream_id = four_bytes & 0x7FFFFFFF;
     }
@@ -353,6 +373,18 @@ void parser::parse_header_payload(boost::system::error_code &ec,
 {
     boost::uint32_t stream_id = 0;
     boost::uint32_t header_block_length = frame.length;
+    const boost::uint32_t fixed_length = (frame.type == SPDY_SYN_STREAM ? 10 : 6);
+
+    if (header_block_length < fixed_length) {
+        // too short for its fixed fields
+        set_error(ec, ERROR_INVALID_SPDY_FRAME);
+        return;
+    }
+    if ((boost::uint32_t)(m_read_end_ptr - m_read_ptr) < header_block_length) {
+        // the frame is not complete
+        set_error(ec, ERROR_MISSING_HEADER_DATA);
+        return;
+    }
     
     // Get the 31 bit stream id
     
@@ -476,7 +508,7 @@ void parser::parse_spdy_rst_stream(boost::system::error_code& /* ec */,
     
     // First complete the check for size and flag
     // The flag for RST frame should be 0, The length should be 8
-    if(frame.flags != 0 || frame.length != 8 ){
+    if(frame.flags != 0 || frame.length != 8 || m_read_end_ptr - m_read_ptr < 8){
         return;
     }
 
@@ -500,7 +532,7 @@ void parser::parse_spdy_ping_frame(boost::system::error_code& /* ec */,
 {
     // First complete the check for size 
     // The length should be 4 always
-    if(frame.length != 4){
+    if(frame.length != 4 || m_read_end_ptr - m_read_ptr < 4){
         return;
     }
   
@@ -526,8 +558,8 @@ void parser::parse_spdy_goaway_frame(boost::system::error_code &ec,
                                      const spdy_control_frame_info& frame)
 {
     // First complete the check for size
-    // The length should be 4 always
-    if(frame.length != 4){
+    // The length should be 4 (SPDYv2) or, with a status code, 8 (SPDYv3)
+    if((frame.length != 4 && frame.length != 8) || m_read_end_ptr - m_read_ptr < (long)frame.length){
         return;
     }
     
@@ -536,6 +568,10 @@ void parser::parse_spdy_goaway_frame(boost::system::error_code &ec,
     // Ignore the 31 bit stream id
     m_read_ptr += 4;
     
+    if(frame.length == 4){
+        return;
+    }
+    
     // Get the status code
     
     status_code = algorithm::to_uint32(m_read_ptr);
-- 
2.43.0


From ec0ad2ea21f80cf598703b721eef749d24299ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:29 +0000
Subject: [PATCH 24/84] fix: SPDY header blocks were read beyond their
 decompressed bytes

The number of pairs and the name and value lengths come from the peer; they
were followed past the decompressed data, through stale bytes of earlier
frames and out of the decompressor's buffer.
---
 include/pion/spdy/decompressor.hpp | 13 +++++++++++++
 src/spdy_decompressor.cpp          | 12 +++++++++++-
 src/spdy_parser.cpp                | 29 ++++++++++++++++++++++++++++-
 3 files changed, 52 insertions(+), 2 deletions(-)

diff --git a/include/pion/spdy/decompressor.hpp b/include/pion/spdy/decompressor.hpp
index eb88a6d..84917b0 100644
--- a/include/pion/spdy/decompressor.hpp
+++ b/include/pion/spdy/decompressor.hpp
@@ -52,6 +52,19 @@ public:
                      const spdy_control_frame_info& frame,
                      boost::uint32_t header_block_length);
 
+    /**
+     * decompresses the http content
+     *
+     * @param uncomp_length set to the number of uncompressed bytes
+     *
+     * @return the uncompressed string, or null on failure
+     */
+    char* decompress(const char *compressed_data_ptr,
+                     boost::uint32_t stream_id,
+                     const spdy_control_frame_info& frame,
+                     boost::uint32_t header_block_length,
+                     boost::uint32_t& uncomp_length);
+
     
 protected:
 
diff --git a/src/spdy_decompressor.cpp b/src/spdy_decompressor.cpp
index d1b4152..ff2ea02 100644
--- a/src/spdy_decompressor.cpp
+++ b/src/spdy_decompressor.cpp
@@ -90,6 +90,16 @@ char* decompressor::decompress(const char *compressed_data_ptr,
                                boost::uint32_t stream_id,
                                const spdy_control_frame_info& frame,
                                boost::uint32_t header_block_length)
+{
+    boost::uint32_t uncomp_length = 0;
+    return decompress(compressed_data_ptr, stream_id, frame, header_block_length, uncomp_length);
+}
+
+char* decompressor::decompress(const char *compressed_data_ptr,
+                               boost::uint32_t stream_id,
+                               const spdy_control_frame_info& frame,
+                               boost::uint32_t header_block_length,
+                               boost::uint32_t& uncomp_length)
 {
     /// Get our decompressor.
     z_streamp decomp = NULL;
@@ -113,7 +123,7 @@ char* decompressor::decompress(const char *compressed_data_ptr,
     BOOST_ASSERT(decomp);
     
     // Decompress the data
-    boost::uint32_t uncomp_length = 0;
+    uncomp_length = 0;
     
     // Catch decompression failures.
     if (!spdy_decompress_header(compressed_data_ptr, decomp,
diff --git a/src/spdy_parser.cpp b/src/spdy_parser.cpp
index 81b3d9f..630baf5 100644
--- a/src/spdy_parser.cpp
+++ b/src/spdy_parser.cpp
@@ -432,16 +432,28 @@ void parser::parse_header_payload(boost::system::error_code &ec,
             return;
     }
     
+    if (!decompressor) {
+        set_error(ec, ERROR_DECOMPRESSION);
+        return;
+    }
+    
     // Decompress header block as necessary.
+    boost::uint32_t uncomp_length = 0;
     m_uncompressed_ptr = decompressor->decompress(m_read_ptr,
                                                   stream_id,
                                                   frame,
-                                                  header_block_length);
+                                                  header_block_length,
+                                                  uncomp_length);
     
     if (!m_uncompressed_ptr) {
         set_error(ec, ERROR_DECOMPRESSION);
         return;
     }
+    const char * const uncompressed_end_ptr = m_uncompressed_ptr + uncomp_length;
+    if (uncomp_length < 2) {
+        set_error(ec, ERROR_MISSING_HEADER_DATA);
+        return;
+    }
         
     // Now parse the name/value pairs
     
@@ -460,11 +472,21 @@ void parser::parse_header_payload(boost::system::error_code &ec,
         
         
         // Get the length of the name
+        if (uncompressed_end_ptr - m_uncompressed_ptr < 2) {
+            set_error(ec, ERROR_MISSING_HEADER_DATA);
+            return;
+        }
         boost::uint16_t length_name = algorithm::to_uint16(m_uncompressed_ptr);
         std::string name = "";
         
         m_uncompressed_ptr += 2;
         
+        // the name is followed by the length of the value
+        if (uncompressed_end_ptr - m_uncompressed_ptr < length_name + 2) {
+            set_error(ec, ERROR_MISSING_HEADER_DATA);
+            return;
+        }
+        
         {
             for(boost::uint16_t count = 0; count < length_name; ++count){
                 name.push_back(*(m_uncompressed_ptr+count));
@@ -478,6 +500,11 @@ void parser::parse_header_payload(boost::system::error_code &ec,
         
         m_uncompressed_ptr += 2;
         
+        if (uncompressed_end_ptr - m_uncompressed_ptr < length_value) {
+            set_error(ec, ERROR_MISSING_HEADER_DATA);
+            return;
+        }
+        
         {
             for(boost::uint16_t count = 0; count < length_value; ++count){
                 value.push_back(*(m_uncompressed_ptr+count));
-- 
2.43.0


From b7f971777ec59f6e25d6e050f0f3746cb9760138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:18 +0000
Subject: [PATCH 25/84] fix: a restarted scheduler kept one thread busy
 re-arming its timer

---
 include/pion/scheduler.hpp | 11 +++++++++++
 src/scheduler.cpp          | 12 +++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/pion/scheduler.hpp b/include/pion/scheduler.hpp
index bc2369b..38efc60 100644
--- a/include/pion/scheduler.hpp
+++ b/include/pion/scheduler.hpp
@@ -133,6 +133,17 @@ public:
 
 protected:
 
+    /**
+     * called when a keep_running() timer has expired or was cancelled
+     *
+     * @param ec result of waiting for the timer
+     * @param my_service IO service used to re-schedule keep_running()
+     * @param my_timer deadline timer used to keep the IO service active while running
+     */
+    void handle_keep_running(const boost::system::error_code& ec,
+                             boost::asio::io_service& my_service,
+                             boost::asio::deadline_timer& my_timer);
+
     /**
      * calculates a wakeup time in boost::system_time format
      *
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index ee35f84..5f0bed4 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -80,11 +80,21 @@ void scheduler::keep_running(boost::asio::io_service& my_service,
     if (m_is_running) {
         // schedule this again to make sure the service doesn't complete
         my_timer.expires_from_now(boost::posix_time::seconds(KEEP_RUNNING_TIMER_SECONDS));
-        my_timer.async_wait(boost::bind(&scheduler::keep_running, this,
+        my_timer.async_wait(boost::bind(&scheduler::handle_keep_running, this,
+                                        boost::asio::placeholders::error,
                                         boost::ref(my_service), boost::ref(my_timer)));
     }
 }
 
+void scheduler::handle_keep_running(const boost::system::error_code& ec,
+                                    boost::asio::io_service& my_service,
+                                    boost::asio::deadline_timer& my_timer)
+{
+    // a wait is cancelled when a newer one replaces it
+    if (ec != boost::asio::error::operation_aborted)
+        keep_running(my_service, my_timer);
+}
+
 void scheduler::add_active_user(void)
 {
     if (!m_is_running) startup();
-- 
2.43.0


From 89c9c237cebcfef2cebcf80602945c9d589f3220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:18 +0000
Subject: [PATCH 26/84] fix: a user registered during shutdown was left with a
 stopped scheduler

---
 src/scheduler.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 5f0bed4..e2625be 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -97,9 +97,12 @@ void scheduler::handle_keep_running(const boost::system::error_code& ec,
 
 void scheduler::add_active_user(void)
 {
+    {
+        // register first so that a concurrent shutdown() waits for this user
+        boost::mutex::scoped_lock scheduler_lock(m_mutex);
+        ++m_active_users;
+    }
     if (!m_is_running) startup();
-    boost::mutex::scoped_lock scheduler_lock(m_mutex);
-    ++m_active_users;
 }
 
 void scheduler::remove_active_user(void)
-- 
2.43.0


From 5dac8e1dc9ed357b30c39da7131129622b2b0951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:18 +0000
Subject: [PATCH 27/84] fix: workers read the scheduler's running flag without
 synchronization

---
 include/pion/scheduler.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pion/scheduler.hpp b/include/pion/scheduler.hpp
index 38efc60..b09a914 100644
--- a/include/pion/scheduler.hpp
+++ b/include/pion/scheduler.hpp
@@ -17,6 +17,7 @@
 #include <boost/function/function0.hpp>
 #include <boost/cstdint.hpp>
 #include <boost/shared_ptr.hpp>
+#include <boost/atomic.hpp>
 #include <boost/noncopyable.hpp>
 #include <boost/thread/thread.hpp>
 #include <boost/thread/mutex.hpp>
@@ -200,7 +201,7 @@ protected:
     boost::uint32_t                 m_active_users;
 
     /// true if the thread scheduler is running
-    bool                            m_is_running;
+    boost::atomic<bool>             m_is_running;
 };
 
     
-- 
2.43.0


From 43f83a78fde02c916e1d18a2e5708c8a74e49bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:56 +0000
Subject: [PATCH 28/84] fix: shutdown deadlocked with running tasks that post
 more work

---
 include/pion/scheduler.hpp | 20 ++++++++++++++++-
 src/scheduler.cpp          | 45 +++++++++++++++++++++++++++++++-------
 2 files changed, 56 insertions(+), 9 deletions(-)

diff --git a/include/pion/scheduler.hpp b/include/pion/scheduler.hpp
index b09a914..8855412 100644
--- a/include/pion/scheduler.hpp
+++ b/include/pion/scheduler.hpp
@@ -40,7 +40,8 @@ public:
     /// constructs a new scheduler
     scheduler(void)
         : m_logger(PION_GET_LOGGER("pion.scheduler")),
-        m_num_threads(DEFAULT_NUM_THREADS), m_active_users(0), m_is_running(false)
+        m_num_threads(DEFAULT_NUM_THREADS), m_active_users(0), m_is_running(false),
+        m_is_stopping(false)
     {}
     
     /// virtual destructor
@@ -145,6 +146,20 @@ protected:
                              boost::asio::io_service& my_service,
                              boost::asio::deadline_timer& my_timer);
 
+    /**
+     * stops all services and threads; the mutex is released while waiting for the threads
+     *
+     * @param scheduler_lock lock held for the scheduler's mutex
+     */
+    void stop_all(boost::mutex::scoped_lock& scheduler_lock);
+
+    /**
+     * waits until no thread is in stop_all()
+     *
+     * @param scheduler_lock lock held for the scheduler's mutex
+     */
+    void wait_until_stopped(boost::mutex::scoped_lock& scheduler_lock);
+
     /**
      * calculates a wakeup time in boost::system_time format
      *
@@ -202,6 +217,9 @@ protected:
 
     /// true if the thread scheduler is running
     boost::atomic<bool>             m_is_running;
+
+    /// true while the thread scheduler waits for its threads to finish
+    bool                            m_is_stopping;
 };
 
     
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index e2625be..b2b190f 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -29,6 +29,9 @@ void scheduler::shutdown(void)
     // lock mutex for thread safety
     boost::mutex::scoped_lock scheduler_lock(m_mutex);
     
+    // wait for any other thread that is stopping the scheduler
+    wait_until_stopped(scheduler_lock);
+    
     if (m_is_running) {
         
         PION_LOG_INFO(m_logger, "Shutting down the thread scheduler");
@@ -37,14 +40,12 @@ void scheduler::shutdown(void)
             // first, wait for any active users to exit
             PION_LOG_INFO(m_logger, "Waiting for " << m_active_users << " scheduler users to finish");
             m_no_more_active_users.wait(scheduler_lock);
+            wait_until_stopped(scheduler_lock);
         }
 
         // shut everything down
         m_is_running = false;
-        stop_services();
-        stop_threads();
-        finish_services();
-        finish_threads();
+        stop_all(scheduler_lock);
         
         PION_LOG_INFO(m_logger, "The thread scheduler has shutdown");
 
@@ -54,21 +55,45 @@ void scheduler::shutdown(void)
     } else {
         
         // stop and finish everything to be certain that no events are pending
+        stop_all(scheduler_lock);
+        
+        // Make sure anyone waiting on shutdown gets notified
+        // even if the scheduler did not startup successfully
+        m_scheduler_has_stopped.notify_all();
+    }
+}
+
+void scheduler::stop_all(boost::mutex::scoped_lock& scheduler_lock)
+{
+    m_is_stopping = true;
+    try {
         stop_services();
+        // work that is still being performed may need the mutex to finish
+        scheduler_lock.unlock();
         stop_threads();
+        scheduler_lock.lock();
         finish_services();
         finish_threads();
-        
-        // Make sure anyone waiting on shutdown gets notified
-        // even if the scheduler did not startup successfully
+    } catch (...) {
+        if (! scheduler_lock.owns_lock())
+            scheduler_lock.lock();
+        m_is_stopping = false;
         m_scheduler_has_stopped.notify_all();
+        throw;
     }
+    m_is_stopping = false;
+}
+
+void scheduler::wait_until_stopped(boost::mutex::scoped_lock& scheduler_lock)
+{
+    while (m_is_stopping)
+        m_scheduler_has_stopped.wait(scheduler_lock);
 }
 
 void scheduler::join(void)
 {
     boost::mutex::scoped_lock scheduler_lock(m_mutex);
-    while (m_is_running) {
+    while (m_is_running || m_is_stopping) {
         // sleep until scheduler_has_stopped condition is signaled
         m_scheduler_has_stopped.wait(scheduler_lock);
     }
@@ -138,6 +163,8 @@ void single_service_scheduler::startup(void)
     // lock mutex for thread safety
     boost::mutex::scoped_lock scheduler_lock(m_mutex);
     
+    wait_until_stopped(scheduler_lock);
+
     if (! m_is_running) {
         PION_LOG_INFO(m_logger, "Starting thread scheduler");
         m_is_running = true;
@@ -163,6 +190,8 @@ void one_to_one_scheduler::startup(void)
     // lock mutex for thread safety
     boost::mutex::scoped_lock scheduler_lock(m_mutex);
     
+    wait_until_stopped(scheduler_lock);
+
     if (! m_is_running) {
         PION_LOG_INFO(m_logger, "Starting thread scheduler");
         m_is_running = true;
-- 
2.43.0


From e999382e96bc60edfe477192d475be382cb20b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:11 +0000
Subject: [PATCH 29/84] fix: opening a loaded plug-in with an object already in
 use deadlocked

---
 src/plugin.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/plugin.cpp b/src/plugin.cpp
index ab18041..c1b11ef 100644
--- a/src/plugin.cpp
+++ b/src/plugin.cpp
@@ -85,17 +85,21 @@ void plugin::reset_plugin_directories(void)
 void plugin::open(const std::string& plugin_name)
 {
     // check first if name matches an existing plugin name
+    data_type *existing_data = NULL;
     {
         config_type& cfg = get_plugin_config();
         boost::mutex::scoped_lock plugin_lock(cfg.m_plugin_mutex);
         map_type::iterator itr = cfg.m_plugin_map.find(plugin_name);
         if (itr != cfg.m_plugin_map.end()) {
-            release_data();  // make sure we're not already pointing to something
-            m_plugin_data = itr->second;
-            ++ m_plugin_data->m_references;
-            return;
+            existing_data = itr->second;
+            ++ existing_data->m_references;
         }
     }
+    if (existing_data != NULL) {
+        release_data();  // make sure we're not already pointing to something
+        m_plugin_data = existing_data;
+        return;
+    }
     
     // nope, look for shared library file
     std::string plugin_file;
-- 
2.43.0


From 42c5a9a5eef5ee0db993c29c3fa11fb4006d2611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:11 +0000
Subject: [PATCH 30/84] fix: assigning a plug-in object to itself closed it

---
 src/plugin.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/plugin.cpp b/src/plugin.cpp
index c1b11ef..315e3fd 100644
--- a/src/plugin.cpp
+++ b/src/plugin.cpp
@@ -171,13 +171,14 @@ void plugin::release_data(void)
 
 void plugin::grab_data(const plugin& p)
 {
-    release_data();  // make sure we're not already pointing to something
-    config_type& cfg = get_plugin_config();
-    boost::mutex::scoped_lock plugin_lock(cfg.m_plugin_mutex);
-    m_plugin_data = const_cast<data_type*>(p.m_plugin_data);
-    if (m_plugin_data != NULL) {
-        ++ m_plugin_data->m_references;
+    data_type *new_data = const_cast<data_type*>(p.m_plugin_data);
+    if (new_data != NULL) {
+        config_type& cfg = get_plugin_config();
+        boost::mutex::scoped_lock plugin_lock(cfg.m_plugin_mutex);
+        ++ new_data->m_references;
     }
+    release_data();  // make sure we're not already pointing to something
+    m_plugin_data = new_data;
 }
 
 bool plugin::find_file(std::string& path_to_file, const std::string& name,
-- 
2.43.0


From b4ecd1371a7882be329d47ce169807af50b2c19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:11 +0000
Subject: [PATCH 31/84] fix: plug-in instances were destroyed again after
 reset() or a failed create()

---
 include/pion/plugin.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pion/plugin.hpp b/include/pion/plugin.hpp
index 8efd424..c1a0b50 100644
--- a/include/pion/plugin.hpp
+++ b/include/pion/plugin.hpp
@@ -367,6 +367,7 @@ public:
     inline void reset(void) { 
         if (m_instance_ptr) {
             m_plugin_ptr.destroy(m_instance_ptr);
+            m_instance_ptr = NULL;
         }
     }
     
-- 
2.43.0


From 9ee93c0de132c4fd14fe0cca639752ce98a0b807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:11 +0000
Subject: [PATCH 32/84] fix: plug-in lookup by resource missed matches behind
 unrelated identifiers

---
 include/pion/plugin_manager.hpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/include/pion/plugin_manager.hpp b/include/pion/plugin_manager.hpp
index 80ee545..1ccf8ca 100644
--- a/include/pion/plugin_manager.hpp
+++ b/include/pion/plugin_manager.hpp
@@ -310,16 +310,8 @@ inline PluginType *plugin_manager<PluginType>::find(const std::string& resource)
         
         // keep checking while the first part of the strings match
         if (resource.compare(0, i->first.size(), i->first) != 0) {
-            // the first part no longer matches
-            if (i != m_plugin_map.begin()) {
-                // continue to next plug-in in list if its size is < this one
-                typename pion::plugin_manager<PluginType>::map_type::iterator j=i;
-                --j;
-                if (j->first.size() < i->first.size())
-                    continue;
-            }
-            // otherwise we've reached the end; stop looking for a match
-            break;
+            // the first part does not match; a shorter identifier still may
+            continue;
         }
         
         // only if the resource matches the plug-in's identifier
-- 
2.43.0


From 73be12badc36e5d5e85d91dd8a9b0c55253c08c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:11 +0000
Subject: [PATCH 33/84] fix: plug-ins added under an identifier already in use
 were lost

---
 include/pion/plugin_manager.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/pion/plugin_manager.hpp b/include/pion/plugin_manager.hpp
index 1ccf8ca..891e3a9 100644
--- a/include/pion/plugin_manager.hpp
+++ b/include/pion/plugin_manager.hpp
@@ -61,7 +61,8 @@ public:
      * adds a new plug-in object
      *
      * @param plugin_id unique identifier associated with the plug-in
-     * @param plugin_object_ptr pointer to the plug-in object to add
+     * @param plugin_object_ptr pointer to the plug-in object to add (it still belongs
+     *                          to the caller if the identifier is already in use)
      */
     inline void add(const std::string& plugin_id, PluginType *plugin_object_ptr);
     
@@ -190,8 +191,9 @@ inline void plugin_manager<PluginType>::add(const std::string& plugin_id,
 {
     plugin_ptr<PluginType> plugin_ptr;
     boost::mutex::scoped_lock plugins_lock(m_plugin_mutex);
-    m_plugin_map.insert(std::make_pair(plugin_id,
-                                       std::make_pair(plugin_object_ptr, plugin_ptr)));
+    if (! m_plugin_map.insert(std::make_pair(plugin_id,
+                                             std::make_pair(plugin_object_ptr, plugin_ptr))).second)
+        BOOST_THROW_EXCEPTION( error::duplicate_plugin() << error::errinfo_plugin_name(plugin_id) );
 }
 
 template <typename PluginType>
@@ -240,7 +242,7 @@ inline PluginType *plugin_manager<PluginType>::load(const std::string& plugin_id
                                                      const std::string& plugin_type)
 {
     // search for the plug-in file using the configured paths
-    if (m_plugin_map.find(plugin_id) != m_plugin_map.end())
+    if (get(plugin_id) != NULL)
         BOOST_THROW_EXCEPTION( error::duplicate_plugin() << error::errinfo_plugin_name(plugin_id) );
     
     // open up the plug-in's shared object library
@@ -252,8 +254,13 @@ inline PluginType *plugin_manager<PluginType>::load(const std::string& plugin_id
     
     // add the new plug-in object to our map
     boost::mutex::scoped_lock plugins_lock(m_plugin_mutex);
-    m_plugin_map.insert(std::make_pair(plugin_id,
-                                       std::make_pair(plugin_object_ptr, plugin_ptr)));
+    if (! m_plugin_map.insert(std::make_pair(plugin_id,
+                                             std::make_pair(plugin_object_ptr, plugin_ptr))).second)
+    {
+        // another thread has used the identifier in the meantime
+        plugin_ptr.destroy(plugin_object_ptr);
+        BOOST_THROW_EXCEPTION( error::duplicate_plugin() << error::errinfo_plugin_name(plugin_id) );
+    }
 
     return plugin_object_ptr;
 }
-- 
2.43.0


From 459bfab39543dc7da9015f4e853868db898a665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:11 +0000
Subject: [PATCH 34/84] fix: password hashes with other characters than
 hexadecimal digits were accepted

---
 include/pion/user.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/pion/user.hpp b/include/pion/user.hpp
index 761b4de..dd5645e 100644
--- a/include/pion/user.hpp
+++ b/include/pion/user.hpp
@@ -112,14 +112,20 @@ public:
 #ifdef PION_HAVE_SSL
     /// sets encrypted password credentials for given user
     virtual void set_password_hash(const std::string& password_hash) {
+        // nothing but hexadecimal digits is a hash value
+        if (password_hash.find_first_not_of("0123456789abcdefABCDEF") != std::string::npos)
+            BOOST_THROW_EXCEPTION( error::bad_password_hash() );
+
         // update password string representation
+        password_hash_type_t hash_type;
         if (password_hash.size() == SHA256_DIGEST_LENGTH * 2) {
-            m_password_hash_type = SHA_256;
+            hash_type = SHA_256;
         } else if (password_hash.size() == SHA_DIGEST_LENGTH * 2) {
-            m_password_hash_type = SHA_1;
+            hash_type = SHA_1;
         } else {
             BOOST_THROW_EXCEPTION( error::bad_password_hash() );
         }
+        m_password_hash_type = hash_type;
         m_password = password_hash;
 
         // convert string from hex to binary value
-- 
2.43.0


From 5e6d84eda6d31a29aa9a84ff299c1fce793d630d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:11 +0000
Subject: [PATCH 35/84] fix: a loaded service could get requests before it knew
 its resource

---
 src/http_plugin_server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http_plugin_server.cpp b/src/http_plugin_server.cpp
index be729b0..9115cf0 100644
--- a/src/http_plugin_server.cpp
+++ b/src/http_plugin_server.cpp
@@ -37,8 +37,8 @@ void plugin_server::load_service(const std::string& resource, const std::string&
     const std::string clean_resource(strip_trailing_slash(resource));
     http::plugin_service *service_ptr;
     service_ptr = m_services.load(clean_resource, service_name);
-    http::server::add_resource(clean_resource, boost::ref(*service_ptr));
     service_ptr->set_resource(clean_resource);
+    http::server::add_resource(clean_resource, boost::ref(*service_ptr));
     PION_LOG_INFO(m_logger, "Loaded web service plug-in for resource (" << clean_resource << "): " << service_name);
 }
 
-- 
2.43.0


From 30bfb8fad3874331f1be43aa6f4db739c89f074d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:50 +0000
Subject: [PATCH 36/84] fix: a failed or repeated open released the library the
 plug-in object was using

---
 src/plugin.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/plugin.cpp b/src/plugin.cpp
index 315e3fd..144fd85 100644
--- a/src/plugin.cpp
+++ b/src/plugin.cpp
@@ -112,10 +112,9 @@ void plugin::open(const std::string& plugin_name)
 
 void plugin::open_file(const std::string& plugin_file)
 {
-    release_data();  // make sure we're not already pointing to something
-    
     // use a temporary object first since open_plugin() may throw
     data_type plugin_data(get_plugin_name(plugin_file));
+    data_type *new_data = NULL;
     
     // check to see if we already have a matching shared library
     config_type& cfg = get_plugin_config();
@@ -128,16 +127,20 @@ void plugin::open_file(const std::string& plugin_file)
         open_plugin(plugin_file, plugin_data);   // may throw
         
         // all is good -> insert it into the plug-in map
-        m_plugin_data = new data_type(plugin_data);
-        cfg.m_plugin_map.insert( std::make_pair(m_plugin_data->m_plugin_name,
-                                            m_plugin_data) );
+        new_data = new data_type(plugin_data);
+        cfg.m_plugin_map.insert( std::make_pair(new_data->m_plugin_name,
+                                            new_data) );
     } else {
         // found an existing plug-in with the same name
-        m_plugin_data = itr->second;
+        new_data = itr->second;
     }
     
     // increment the number of references
-    ++ m_plugin_data->m_references;
+    ++ new_data->m_references;
+    plugin_lock.unlock();
+    
+    release_data();  // make sure we're not already pointing to something
+    m_plugin_data = new_data;
 }
 
 void plugin::release_data(void)
-- 
2.43.0


From 62614b01d9610e8ba254ec6c4e042d87ce069b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:38 +0000
Subject: [PATCH 37/84] fix: user ids above 32767 were not restored when
 releasing administrative rights

The saved user id was truncated to 16 bits, so that release() failed (the process
kept running as root) or switched to another user.
---
 include/pion/admin_rights.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pion/admin_rights.hpp b/include/pion/admin_rights.hpp
index 52a7260..53cd8a2 100644
--- a/include/pion/admin_rights.hpp
+++ b/include/pion/admin_rights.hpp
@@ -72,7 +72,7 @@ private:
     boost::unique_lock<boost::mutex>    m_lock;
 
     /// saved user identifier before upgrading to administrator
-    boost::int16_t                      m_user_id;
+    boost::int32_t                      m_user_id;
 
     /// true if the class currently holds administrative rights
     bool                                m_has_rights;
-- 
2.43.0


From ffcaf32a1cb97fac176cb3ccc90d326a96ab78ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:38 +0000
Subject: [PATCH 38/84] fix: the group id was taken for the user id of users
 without a password field

run_as_user() and run_as_group() skipped the empty second field of lines like
"name::1000:100:" and used the fourth instead of the third one.
---
 src/admin_rights.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/admin_rights.cpp b/src/admin_rights.cpp
index 5d28618..91d2508 100644
--- a/src/admin_rights.cpp
+++ b/src/admin_rights.cpp
@@ -132,7 +132,8 @@ long admin_rights::find_system_id(const std::string& name,
 
     // find id in system file
     typedef boost::tokenizer<boost::char_separator<char> > Tok;
-    boost::char_separator<char> sep(":");
+    // keep empty fields, such as that of an empty password
+    boost::char_separator<char> sep(":", "", boost::keep_empty_tokens);
     std::string line;
     boost::int32_t system_id = -1;
 
-- 
2.43.0


From 0c3213f798ff9b7c3e095dae2a20fcf4f43804d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:38 +0000
Subject: [PATCH 39/84] fix: user and group ids above 2147483647 made
 run_as_user and run_as_group throw

---
 src/admin_rights.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/admin_rights.cpp b/src/admin_rights.cpp
index 91d2508..297a1c8 100644
--- a/src/admin_rights.cpp
+++ b/src/admin_rights.cpp
@@ -91,6 +91,16 @@ void admin_rights::release(void)
     }
 }
 
+/// converts a user or group id; returns -1 if it is out of range
+static long parse_system_id(const std::string& id)
+{
+    try {
+        return boost::lexical_cast<boost::uint32_t>(id);
+    } catch (boost::bad_lexical_cast&) {
+        return -1;
+    }
+}
+
 long admin_rights::run_as_user(const std::string& user_name)
 {
     long user_id = find_system_id(user_name, "/etc/passwd");
@@ -121,7 +131,7 @@ long admin_rights::find_system_id(const std::string& name,
     // check if name is the system id
     const boost::regex just_numbers("\\d+");
     if (boost::regex_match(name, just_numbers)) {
-        return boost::lexical_cast<boost::int32_t>(name);
+        return parse_system_id(name);
     }
 
     // open system file
@@ -135,7 +145,7 @@ long admin_rights::find_system_id(const std::string& name,
     // keep empty fields, such as that of an empty password
     boost::char_separator<char> sep(":", "", boost::keep_empty_tokens);
     std::string line;
-    boost::int32_t system_id = -1;
+    long system_id = -1;
 
     while (std::getline(system_file, line, '\n')) {
         Tok tokens(line, sep);
@@ -146,7 +156,7 @@ long admin_rights::find_system_id(const std::string& name,
                 && boost::regex_match(*token_it, just_numbers))
             {
                 // found id as third parameter
-                system_id = boost::lexical_cast<boost::int32_t>(*token_it);
+                system_id = parse_system_id(*token_it);
             }
             break;
         }
-- 
2.43.0


From 8c0379bd8e9bddaa39e9347410238d462d4d0ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:38 +0000
Subject: [PATCH 40/84] fix: a signal that interrupted wait_for_shutdown() or
 shutdown() deadlocked the process

The signal handler locked the shutdown mutex, which the interrupted thread may own.
---
 src/process.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/process.cpp b/src/process.cpp
index 7b976e1..0bbf387 100644
--- a/src/process.cpp
+++ b/src/process.cpp
@@ -25,6 +25,9 @@ namespace pion {    // begin namespace pion
     
 // static members of process
     
+/// set when a signal has requested the shutdown of the process
+static volatile sig_atomic_t    shutdown_signaled = 0;
+
 boost::once_flag                process::m_instance_flag = BOOST_ONCE_INIT;
 process::config_type *process::m_config_ptr = NULL;
 
@@ -45,8 +48,10 @@ void process::wait_for_shutdown(void)
 {
     config_type& cfg = get_config();
     boost::mutex::scoped_lock shutdown_lock(cfg.shutdown_mutex);
-    while (! cfg.shutdown_now)
-        cfg.shutdown_cond.wait(shutdown_lock);
+    while (! cfg.shutdown_now && ! shutdown_signaled) {
+        // wake up regularly to look for signals, which cannot trigger the condition
+        cfg.shutdown_cond.timed_wait(shutdown_lock, boost::posix_time::milliseconds(100));
+    }
 }
 
 void process::create_config(void)
@@ -221,7 +226,8 @@ void process::daemonize(void)
 
 void handle_signal(int /* sig */)
 {
-    process::shutdown();
+    // locking a mutex is not permitted here: the interrupted thread may own it
+    shutdown_signaled = 1;
 }
 
 void process::initialize(void)
-- 
2.43.0


From 4d20b6eddd166b78d80c96a3676b90112fb45ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:41 +0000
Subject: [PATCH 41/84] fix: handlers of kept-alive connections ran with the
 server's mutex locked

A handler that asked the server for its connections, or finished the connection
without waiting for anything, deadlocked the whole server.
---
 src/tcp_server.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tcp_server.cpp b/src/tcp_server.cpp
index 483b629..aecc2e0 100644
--- a/src/tcp_server.cpp
+++ b/src/tcp_server.cpp
@@ -249,7 +249,9 @@ void server::finish_connection(const tcp::connection_ptr& tcp_conn)
     boost::mutex::scoped_lock server_lock(m_mutex);
     if (m_is_listening && tcp_conn->get_keep_alive()) {
         
-        // keep the connection alive
+        // keep the connection alive; the handler must not run with the mutex locked,
+        // since it may use the server or finish the connection right away
+        server_lock.unlock();
         handle_connection(tcp_conn);
 
     } else {
-- 
2.43.0


From 091afee6a7b8e11e0e45a63dbddbbdde6c2830a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:41 +0000
Subject: [PATCH 42/84] fix: a server that failed to bind its port could never
 be started again

---
 src/tcp_server.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tcp_server.cpp b/src/tcp_server.cpp
index aecc2e0..295642d 100644
--- a/src/tcp_server.cpp
+++ b/src/tcp_server.cpp
@@ -96,6 +96,9 @@ void server::start(void)
             m_tcp_acceptor.listen();
         } catch (std::exception& e) {
             PION_LOG_ERROR(m_logger, "Unable to bind to port " << get_port() << ": " << e.what());
+            // leave the acceptor closed so that the server can be started again
+            boost::system::error_code ec;
+            m_tcp_acceptor.close(ec);
             throw;
         }
 
-- 
2.43.0


From 3ba724f9f2780bb468d98f8e155096fd8c4504cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:48 +0000
Subject: [PATCH 43/84] fix: stopping a server crashed when other threads were
 using its connections

stop() closed the sockets of all open connections from its own thread while worker
threads could be starting operations on them, which sockets do not support; it also
waited forever for a connection that was accepted at the same time.
---
 include/pion/tcp/connection.hpp |  8 ++++++++
 include/pion/tcp/server.hpp     |  3 +++
 src/tcp_server.cpp              | 31 +++++++++++++++++++++----------
 3 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/include/pion/tcp/connection.hpp b/include/pion/tcp/connection.hpp
index b4f70a8..713a05f 100644
--- a/include/pion/tcp/connection.hpp
+++ b/include/pion/tcp/connection.hpp
@@ -168,6 +168,14 @@ public:
         }
     }
 
+    /// shuts down the connection in both directions, which ends any asynchronous
+    /// operations pending on the socket; unlike close(), this may be called
+    /// while other threads are using the connection
+    inline void shutdown(void) {
+        boost::system::error_code ec;
+        m_ssl_socket.next_layer().shutdown(boost::asio::ip::tcp::socket::shutdown_both, ec);
+    }
+
     /// cancels any asynchronous operations pending on the socket.
     /// there is no good way to do this on windows until vista or later (0x0600)
     /// see http://www.boost.org/doc/libs/1_53_0/doc/html/boost_asio/reference/basic_stream_socket/cancel/overload2.html
diff --git a/include/pion/tcp/server.hpp b/include/pion/tcp/server.hpp
index ad0c85c..c174d2e 100644
--- a/include/pion/tcp/server.hpp
+++ b/include/pion/tcp/server.hpp
@@ -222,6 +222,9 @@ private:
     /// pool of active connections associated with this server 
     ConnectionPool                          m_conn_pool;
 
+    /// connection waiting to be accepted, or NULL if there is none
+    const connection *                      m_accepting_conn;
+
     /// tcp endpoint used to listen for new connections
     boost::asio::ip::tcp::endpoint          m_endpoint;
 
diff --git a/src/tcp_server.cpp b/src/tcp_server.cpp
index 295642d..da7efab 100644
--- a/src/tcp_server.cpp
+++ b/src/tcp_server.cpp
@@ -29,7 +29,7 @@ server::server(scheduler& sched, const unsigned int tcp_port)
 #else
     m_ssl_context(0),
 #endif
-    m_endpoint(boost::asio::ip::tcp::v4(), tcp_port), m_ssl_flag(false), m_is_listening(false)
+    m_accepting_conn(NULL), m_endpoint(boost::asio::ip::tcp::v4(), tcp_port), m_ssl_flag(false), m_is_listening(false)
 {}
     
 server::server(scheduler& sched, const boost::asio::ip::tcp::endpoint& endpoint)
@@ -41,7 +41,7 @@ server::server(scheduler& sched, const boost::asio::ip::tcp::endpoint& endpoint)
 #else
     m_ssl_context(0),
 #endif
-    m_endpoint(endpoint), m_ssl_flag(false), m_is_listening(false)
+    m_accepting_conn(NULL), m_endpoint(endpoint), m_ssl_flag(false), m_is_listening(false)
 {}
 
 server::server(const unsigned int tcp_port)
@@ -53,7 +53,7 @@ server::server(const unsigned int tcp_port)
 #else
     m_ssl_context(0),
 #endif
-    m_endpoint(boost::asio::ip::tcp::v4(), tcp_port), m_ssl_flag(false), m_is_listening(false)
+    m_accepting_conn(NULL), m_endpoint(boost::asio::ip::tcp::v4(), tcp_port), m_ssl_flag(false), m_is_listening(false)
 {}
 
 server::server(const boost::asio::ip::tcp::endpoint& endpoint)
@@ -65,7 +65,7 @@ server::server(const boost::asio::ip::tcp::endpoint& endpoint)
 #else
     m_ssl_context(0),
 #endif
-    m_endpoint(endpoint), m_ssl_flag(false), m_is_listening(false)
+    m_accepting_conn(NULL), m_endpoint(endpoint), m_ssl_flag(false), m_is_listening(false)
 {}
     
 void server::start(void)
@@ -126,14 +126,17 @@ void server::stop(bool wait_until_finished)
         // this terminates any connections waiting to be accepted
         m_tcp_acceptor.close();
         
-        if (! wait_until_finished) {
-            // this terminates any other open connections
-            std::for_each(m_conn_pool.begin(), m_conn_pool.end(),
-                          boost::bind(&connection::close, _1));
-        }
-    
         // wait for all pending connections to complete
         while (! m_conn_pool.empty()) {
+            if (! wait_until_finished) {
+                // this terminates any other open connections (including those
+                // that were being accepted); other threads may be using them,
+                // so they are closed only after their handlers have finished
+                for (ConnectionPool::iterator i = m_conn_pool.begin(); i != m_conn_pool.end(); ++i) {
+                    if (i->get() != m_accepting_conn)
+                        (*i)->shutdown();
+                }
+            }
             // try to prun connections that didn't finish cleanly
             if (prune_connections() == 0)
                 break;  // if no more left, then we can stop waiting
@@ -190,6 +193,7 @@ void server::listen(void)
 
         // keep track of the object in the server's connection pool
         m_conn_pool.insert(new_connection);
+        m_accepting_conn = new_connection.get();
         
         // use the object to accept a new connection
         new_connection->async_accept(m_tcp_acceptor,
@@ -202,6 +206,13 @@ void server::listen(void)
 void server::handle_accept(const tcp::connection_ptr& tcp_conn,
                              const boost::system::error_code& accept_error)
 {
+    {
+        // the connection is no longer waiting to be accepted
+        boost::mutex::scoped_lock server_lock(m_mutex);
+        if (m_accepting_conn == tcp_conn.get())
+            m_accepting_conn = NULL;
+    }
+
     if (accept_error) {
         // an error occured while trying to a accept a new connection
         // this happens when the server is being shut down
-- 
2.43.0


From ba4513d9817c0e2deecfb4929ca31a90ba1f86d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:48 +0000
Subject: [PATCH 44/84] fix: worker threads read the server's listening flag
 without synchronization

---
 include/pion/tcp/server.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pion/tcp/server.hpp b/include/pion/tcp/server.hpp
index c174d2e..64967b5 100644
--- a/include/pion/tcp/server.hpp
+++ b/include/pion/tcp/server.hpp
@@ -12,6 +12,7 @@
 
 #include <set>
 #include <boost/asio.hpp>
+#include <boost/atomic.hpp>
 #include <boost/noncopyable.hpp>
 #include <boost/shared_ptr.hpp>
 #include <boost/thread/mutex.hpp>
@@ -232,7 +233,7 @@ private:
     bool                                    m_ssl_flag;
 
     /// set to true when the server is listening for new connections
-    bool                                    m_is_listening;
+    boost::atomic<bool>                     m_is_listening;
 
     /// mutex to make class thread-safe
     mutable boost::mutex                    m_mutex;
-- 
2.43.0


From 354200ebfd54bd9a661762baad2496a91d6dbc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:17 +0000
Subject: [PATCH 45/84] fix: get_connections() returned a huge number while the
 server was being started

---
 src/tcp_server.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/tcp_server.cpp b/src/tcp_server.cpp
index da7efab..93ddec8 100644
--- a/src/tcp_server.cpp
+++ b/src/tcp_server.cpp
@@ -305,7 +305,10 @@ std::size_t server::prune_connections(void)
 std::size_t server::get_connections(void) const
 {
     boost::mutex::scoped_lock server_lock(m_mutex);
-    return (m_is_listening ? (m_conn_pool.size() - 1) : m_conn_pool.size());
+    // do not count the connection that is waiting to be accepted (there is none
+    // while the server is being started, or while it handles a new connection)
+    const bool accepting = (m_is_listening && m_accepting_conn != NULL && ! m_conn_pool.empty());
+    return (accepting ? (m_conn_pool.size() - 1) : m_conn_pool.size());
 }
 
 }   // end namespace tcp
-- 
2.43.0


From 5f744de985c67caa3941503d83773ca9778ab378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:28:32 +0000
Subject: [PATCH 46/84] fix: stop() never returned when another thread started
 the server again meanwhile

---
 include/pion/tcp/server.hpp |  3 +++
 src/tcp_server.cpp          | 14 ++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/pion/tcp/server.hpp b/include/pion/tcp/server.hpp
index 64967b5..068ac32 100644
--- a/include/pion/tcp/server.hpp
+++ b/include/pion/tcp/server.hpp
@@ -235,6 +235,9 @@ private:
     /// set to true when the server is listening for new connections
     boost::atomic<bool>                     m_is_listening;
 
+    /// true while stop() waits for open connections to finish
+    bool                                    m_is_stopping;
+
     /// mutex to make class thread-safe
     mutable boost::mutex                    m_mutex;
 };
diff --git a/src/tcp_server.cpp b/src/tcp_server.cpp
index 93ddec8..82bd464 100644
--- a/src/tcp_server.cpp
+++ b/src/tcp_server.cpp
@@ -29,7 +29,7 @@ server::server(scheduler& sched, const unsigned int tcp_port)
 #else
     m_ssl_context(0),
 #endif
-    m_accepting_conn(NULL), m_endpoint(boost::asio::ip::tcp::v4(), tcp_port), m_ssl_flag(false), m_is_listening(false)
+    m_accepting_conn(NULL), m_endpoint(boost::asio::ip::tcp::v4(), tcp_port), m_ssl_flag(false), m_is_listening(false), m_is_stopping(false)
 {}
     
 server::server(scheduler& sched, const boost::asio::ip::tcp::endpoint& endpoint)
@@ -41,7 +41,7 @@ server::server(scheduler& sched, const boost::asio::ip::tcp::endpoint& endpoint)
 #else
     m_ssl_context(0),
 #endif
-    m_accepting_conn(NULL), m_endpoint(endpoint), m_ssl_flag(false), m_is_listening(false)
+    m_accepting_conn(NULL), m_endpoint(endpoint), m_ssl_flag(false), m_is_listening(false), m_is_stopping(false)
 {}
 
 server::server(const unsigned int tcp_port)
@@ -53,7 +53,7 @@ server::server(const unsigned int tcp_port)
 #else
     m_ssl_context(0),
 #endif
-    m_accepting_conn(NULL), m_endpoint(boost::asio::ip::tcp::v4(), tcp_port), m_ssl_flag(false), m_is_listening(false)
+    m_accepting_conn(NULL), m_endpoint(boost::asio::ip::tcp::v4(), tcp_port), m_ssl_flag(false), m_is_listening(false), m_is_stopping(false)
 {}
 
 server::server(const boost::asio::ip::tcp::endpoint& endpoint)
@@ -65,7 +65,7 @@ server::server(const boost::asio::ip::tcp::endpoint& endpoint)
 #else
     m_ssl_context(0),
 #endif
-    m_accepting_conn(NULL), m_endpoint(endpoint), m_ssl_flag(false), m_is_listening(false)
+    m_accepting_conn(NULL), m_endpoint(endpoint), m_ssl_flag(false), m_is_listening(false), m_is_stopping(false)
 {}
     
 void server::start(void)
@@ -73,6 +73,10 @@ void server::start(void)
     // lock mutex for thread safety
     boost::mutex::scoped_lock server_lock(m_mutex);
 
+    // if another thread is stopping the server, then let it finish first
+    while (m_is_stopping)
+        m_server_has_stopped.wait(server_lock);
+
     if (! m_is_listening) {
         PION_LOG_INFO(m_logger, "Starting server on port " << get_port());
         
@@ -122,6 +126,7 @@ void server::stop(bool wait_until_finished)
         PION_LOG_INFO(m_logger, "Shutting down server on port " << get_port());
     
         m_is_listening = false;
+        m_is_stopping = true;
 
         // this terminates any connections waiting to be accepted
         m_tcp_acceptor.close();
@@ -150,6 +155,7 @@ void server::stop(bool wait_until_finished)
         
         // all done!
         after_stopping();
+        m_is_stopping = false;
         m_server_has_stopped.notify_all();
     }
 }
-- 
2.43.0


From bd3d966f5c7d50af8f32d9c72d48aa283db32772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:04 +0000
Subject: [PATCH 47/84] fix: TCP streams used unfinished operations after
 spurious condition wakeups

---
 include/pion/tcp/stream.hpp | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/include/pion/tcp/stream.hpp b/include/pion/tcp/stream.hpp
index 606600d..0918491 100644
--- a/include/pion/tcp/stream.hpp
+++ b/include/pion/tcp/stream.hpp
@@ -54,7 +54,8 @@ public:
      * @param conn_ptr pointer to the TCP connection to use for reading & writing
      */
     explicit stream_buffer(const tcp::connection_ptr& conn_ptr)
-        : m_conn_ptr(conn_ptr), m_bytes_transferred(0), m_read_buf(m_conn_ptr->get_read_buffer().c_array())
+        : m_conn_ptr(conn_ptr), m_bytes_transferred(0), m_operation_pending(false),
+        m_read_buf(m_conn_ptr->get_read_buffer().c_array())
     {
         setup_buffers();
     }
@@ -68,6 +69,7 @@ public:
     explicit stream_buffer(boost::asio::io_service& io_service,
                              const bool ssl_flag = false)
         : m_conn_ptr(new connection(io_service, ssl_flag)),
+        m_bytes_transferred(0), m_operation_pending(false),
         m_read_buf(m_conn_ptr->get_read_buffer().c_array())
     {
         setup_buffers();
@@ -82,6 +84,7 @@ public:
     stream_buffer(boost::asio::io_service& io_service,
                     connection::ssl_context_type& ssl_context)
         : m_conn_ptr(new connection(io_service, ssl_context)),
+        m_bytes_transferred(0), m_operation_pending(false),
         m_read_buf(m_conn_ptr->get_read_buffer().c_array())
     {
         setup_buffers();
@@ -117,12 +120,12 @@ protected:
         int_type bytes_sent = 0;
         if (bytes_to_send > 0) {
             boost::mutex::scoped_lock async_lock(m_async_mutex);
-            m_bytes_transferred = 0;
+            start_operation();
             m_conn_ptr->async_write(boost::asio::buffer(pbase(), bytes_to_send),
                                     boost::bind(&stream_buffer::operation_finished, this,
                                                 boost::asio::placeholders::error,
                                                 boost::asio::placeholders::bytes_transferred));
-            m_async_done.wait(async_lock);
+            wait_for_operation(async_lock);
             bytes_sent = m_bytes_transferred;
             pbump(-bytes_sent);
             if (m_async_error)
@@ -154,13 +157,13 @@ protected:
         // note that this has to be an ansynchronous call; otherwise, it cannot
         // be cancelled by other threads and will block forever (such as during shutdown)
         boost::mutex::scoped_lock async_lock(m_async_mutex);
-        m_bytes_transferred = 0;
+        start_operation();
         m_conn_ptr->async_read_some(boost::asio::buffer(m_read_buf+PUT_BACK_MAX,
                                                         connection::READ_BUFFER_SIZE-PUT_BACK_MAX),
                                     boost::bind(&stream_buffer::operation_finished, this,
                                                 boost::asio::placeholders::error,
                                                 boost::asio::placeholders::bytes_transferred));
-        m_async_done.wait(async_lock);
+        wait_for_operation(async_lock);
         if (m_async_error)
             return traits_type::eof();
         
@@ -222,13 +225,13 @@ protected:
                 // the remaining data to send is larger than the buffer available
                 // send it all now rather than buffering
                 boost::mutex::scoped_lock async_lock(m_async_mutex);
-                m_bytes_transferred = 0;
+                start_operation();
                 m_conn_ptr->async_write(boost::asio::buffer(s+bytes_available,
                                                             n-bytes_available),
                                         boost::bind(&stream_buffer::operation_finished, this,
                                                     boost::asio::placeholders::error,
                                                     boost::asio::placeholders::bytes_transferred));
-                m_async_done.wait(async_lock);
+                wait_for_operation(async_lock);
                 bytes_sent = bytes_available + m_bytes_transferred;
             } else {
                 // the buffer is larger than the remaining data
@@ -283,6 +286,19 @@ protected:
     
 private:
     
+    /// called before an asynchronous operation is started
+    inline void start_operation(void) {
+        m_bytes_transferred = 0;
+        m_operation_pending = true;
+    }
+
+    /// waits until the asynchronous operation has completed
+    inline void wait_for_operation(boost::mutex::scoped_lock& async_lock) {
+        // the condition may be woken up without having been signaled
+        while (m_operation_pending)
+            m_async_done.wait(async_lock);
+    }
+
     /// function called after an asynchronous operation has completed
     inline void operation_finished(const boost::system::error_code& error_code,
                                   std::size_t bytes_transferred)
@@ -290,6 +306,7 @@ private:
         boost::mutex::scoped_lock async_lock(m_async_mutex);
         m_async_error = error_code;
         m_bytes_transferred = bytes_transferred;
+        m_operation_pending = false;
         m_async_done.notify_one();
     }
     
@@ -308,6 +325,9 @@ private:
     
     /// the number of bytes transferred by the last asynchronous operation
     std::size_t                 m_bytes_transferred;
+
+    /// true while an asynchronous operation has not completed yet
+    bool                        m_operation_pending;
     
     /// pointer to the start of the TCP connection's read buffer
     char_type *                 m_read_buf;
-- 
2.43.0


From 01fd98ff02804123a800533729fe185ea9511f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:04 +0000
Subject: [PATCH 48/84] fix: responses cut off by the read timeout were
 reported as complete

---
 src/http_reader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http_reader.cpp b/src/http_reader.cpp
index ad5433f..fdd547e 100644
--- a/src/http_reader.cpp
+++ b/src/http_reader.cpp
@@ -141,7 +141,8 @@ void reader::handle_read_error(const boost::system::error_code& read_error)
     m_tcp_conn->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE);   // make sure it will get closed
 
     // check if this is just a message with unknown content length
-    if (! check_premature_eof(get_message())) {
+    // (unless the read was cancelled, which happens after a timeout)
+    if (read_error != boost::asio::error::operation_aborted && ! check_premature_eof(get_message())) {
         boost::system::error_code ec;   // clear error code
         finished_reading(ec);
         return;
-- 
2.43.0


From 40db38a1907d50dff74b6744ab084cd3f1dedfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:43 +0000
Subject: [PATCH 49/84] fix: bytes put back into a TCP stream after its end
 came back different

---
 include/pion/tcp/stream.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/pion/tcp/stream.hpp b/include/pion/tcp/stream.hpp
index 0918491..2cb24ed 100644
--- a/include/pion/tcp/stream.hpp
+++ b/include/pion/tcp/stream.hpp
@@ -152,6 +152,11 @@ protected:
         // copy the last bytes read to the beginning of the buffer (for put back)
         if (put_back_num > 0)
             memmove(m_read_buf+(PUT_BACK_MAX-put_back_num), gptr()-put_back_num, put_back_num);
+
+        // the bytes that can be put back have moved, even if no more data can be read
+        setg(m_read_buf+(PUT_BACK_MAX-put_back_num),            //< beginning of putback bytes
+             m_read_buf+PUT_BACK_MAX,                           //< read position
+             m_read_buf+PUT_BACK_MAX);                          //< end of buffer
         
         // read data from the TCP connection
         // note that this has to be an ansynchronous call; otherwise, it cannot
-- 
2.43.0


From d5ed534dc2899dd8f29f1b0ab23b73c69d26a320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:37 +0000
Subject: [PATCH 50/84] fix: connections stayed open after requests with
 "Connection: Close"

---
 include/pion/http/message.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index 9fb2463..a1f7d39 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -15,6 +15,7 @@
 #include <vector>
 #include <cstring>
 #include <boost/cstdint.hpp>
+#include <boost/algorithm/string/predicate.hpp>
 #include <boost/asio.hpp>
 #include <boost/scoped_array.hpp>
 #include <boost/lexical_cast.hpp>
@@ -383,7 +384,7 @@ public:
 
     /// returns true if the HTTP connection may be kept alive
     inline bool check_keep_alive(void) const {
-        return (get_header(HEADER_CONNECTION) != "close"
+        return (! boost::algorithm::iequals(get_header(HEADER_CONNECTION), "close")
                 && (get_version_major() > 1
                     || (get_version_major() >= 1 && get_version_minor() >= 1)) );
     }
-- 
2.43.0


From bc70cce147a1b5bc385f43656f32d02e0b1b5089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:37 +0000
Subject: [PATCH 51/84] fix: clearing an HTTP writer leaked the binary content
 written to it

---
 include/pion/http/writer.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/pion/http/writer.hpp b/include/pion/http/writer.hpp
index e245ff3..1f29c49 100644
--- a/include/pion/http/writer.hpp
+++ b/include/pion/http/writer.hpp
@@ -90,7 +90,7 @@ public:
     /// clears out all of the memory buffers used to cache payload content data
     inline void clear(void) {
         m_content_buffers.clear();
-        m_binary_cache.clear();
+        m_binary_cache.release();
         m_text_cache.clear();
         m_content_stream.str("");
         m_stream_is_empty = true;
@@ -307,10 +307,13 @@ private:
     /// used to cache binary data included within the payload content
     class binary_cache_t : public std::vector<std::pair<const char *, size_t> > {
     public:
-        ~binary_cache_t() {
+        ~binary_cache_t() { release(); }
+        /// frees all of the cached data
+        inline void release(void) {
             for (iterator i=begin(); i!=end(); ++i) {
                 delete[] i->first;
             }
+            clear();
         }
         inline boost::asio::const_buffer add(const void *ptr, const size_t size) {
             char *data_ptr = new char[size];
-- 
2.43.0


From e21609a6b88577910145081d7dd395299f70b216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:37 +0000
Subject: [PATCH 52/84] fix: HTTP writers left out message content that begins
 with a zero byte

---
 include/pion/http/request_writer.hpp  | 3 +--
 include/pion/http/response_writer.hpp | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/pion/http/request_writer.hpp b/include/pion/http/request_writer.hpp
index a8a06e1..317c7b3 100644
--- a/include/pion/http/request_writer.hpp
+++ b/include/pion/http/request_writer.hpp
@@ -101,8 +101,7 @@ protected:
         // check if we should initialize the payload content using
         // the request's content buffer
         if (m_http_request->get_content_length() > 0
-            && m_http_request->get_content() != NULL
-            && m_http_request->get_content()[0] != '\0')
+            && m_http_request->is_content_buffer_allocated())
         {
             write_no_copy(m_http_request->get_content(),
                         m_http_request->get_content_length());
diff --git a/include/pion/http/response_writer.hpp b/include/pion/http/response_writer.hpp
index d24af9d..03c5414 100644
--- a/include/pion/http/response_writer.hpp
+++ b/include/pion/http/response_writer.hpp
@@ -94,8 +94,7 @@ protected:
         // check if we should initialize the payload content using
         // the response's content buffer
         if (m_http_response->get_content_length() > 0
-            && m_http_response->get_content() != NULL
-            && m_http_response->get_content()[0] != '\0')
+            && m_http_response->is_content_buffer_allocated())
         {
             write_no_copy(m_http_response->get_content(), m_http_response->get_content_length());
         }
-- 
2.43.0


From 27872ee02bcebd7932dfaab5fa31e347b3133d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:25 +0000
Subject: [PATCH 53/84] fix: responses to HEAD requests and others without
 content were sent with content

---
 include/pion/http/response_writer.hpp | 5 +++++
 include/pion/http/writer.hpp          | 3 +++
 src/http_writer.cpp                   | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/include/pion/http/response_writer.hpp b/include/pion/http/response_writer.hpp
index 03c5414..46c6bb8 100644
--- a/include/pion/http/response_writer.hpp
+++ b/include/pion/http/response_writer.hpp
@@ -130,6 +130,11 @@ protected:
                                                sending_chunked_message());
     }   
 
+    /// responses without content (to HEAD requests, for example) only have headers
+    virtual bool sending_content(void) const {
+        return ! m_http_response->is_content_length_implied();
+    }
+
     /// returns a function bound to http::writer::handle_write()
     virtual write_handler_t bind_to_write_handler(void) {
         return boost::bind(&response_writer::handle_write, shared_from_this(),
diff --git a/include/pion/http/writer.hpp b/include/pion/http/writer.hpp
index 1f29c49..3830d64 100644
--- a/include/pion/http/writer.hpp
+++ b/include/pion/http/writer.hpp
@@ -75,6 +75,9 @@ protected:
                                       
     /// returns a function bound to writer::handle_write()
     virtual write_handler_t bind_to_write_handler(void) = 0;
+
+    /// returns false if the message must not include any payload content
+    virtual bool sending_content(void) const { return true; }
     
     /// called after we have finished sending the HTTP message
     inline void finished_writing(const boost::system::error_code& ec) {
diff --git a/src/http_writer.cpp b/src/http_writer.cpp
index 690b033..0945fb8 100644
--- a/src/http_writer.cpp
+++ b/src/http_writer.cpp
@@ -34,6 +34,10 @@ void writer::prepare_write_buffers(http::message::write_buffers_t& write_buffers
     // can be sent together; otherwise, we would have to send headers
     // and content separately, which would not be as efficient
     
+    // don't send any content or chunks if the message must not have any
+    if (! sending_content())
+        return;
+
     // don't send anything if there is no data in content buffers
     if (m_content_length > 0) {
         if (supports_chunked_messages() && sending_chunked_message()) {
-- 
2.43.0


From 996e07a3760b028b2977d284f053de3e79c77230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:25 +0000
Subject: [PATCH 54/84] fix: redirects were read without the lock that protects
 them

---
 src/http_server.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/http_server.cpp b/src/http_server.cpp
index ccfac53..f98582a 100644
--- a/src/http_server.cpp
+++ b/src/http_server.cpp
@@ -67,11 +67,13 @@ void server::handle_request(const http::request_ptr& http_request_ptr,
     std::string resource_requested(strip_trailing_slash(http_request_ptr->get_resource()));
 
     // apply any redirection
+    boost::mutex::scoped_lock redirect_lock(m_resource_mutex);
     redirect_map_t::const_iterator it = m_redirects.find(resource_requested);
     unsigned int num_redirects = 0;
     while (it != m_redirects.end()) {
         if (++num_redirects > MAX_REDIRECTS) {
             PION_LOG_ERROR(m_logger, "Maximum number of redirects (server::MAX_REDIRECTS) exceeded for requested resource: " << http_request_ptr->get_original_resource());
+            redirect_lock.unlock();
             m_server_error_handler(http_request_ptr, tcp_conn, "Maximum number of redirects (server::MAX_REDIRECTS) exceeded for requested resource");
             return;
         }
@@ -79,6 +81,7 @@ void server::handle_request(const http::request_ptr& http_request_ptr,
         http_request_ptr->change_resource(resource_requested);
         it = m_redirects.find(resource_requested);
     }
+    redirect_lock.unlock();
 
     // if authentication activated, check current request
     if (m_auth_ptr) {
-- 
2.43.0


From f850ad1ca85fd8cb06678dee7a88a96c877d0095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:25 +0000
Subject: [PATCH 55/84] fix: error messages were put into "403 Forbidden" pages
 without escaping

---
 src/http_server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/http_server.cpp b/src/http_server.cpp
index f98582a..3047978 100644
--- a/src/http_server.cpp
+++ b/src/http_server.cpp
@@ -272,7 +272,7 @@ void server::handle_forbidden_request(const http::request_ptr& http_request_ptr,
     writer->write_no_copy(FORBIDDEN_HTML_START);
     writer << algorithm::xml_encode(http_request_ptr->get_resource());
     writer->write_no_copy(FORBIDDEN_HTML_MIDDLE);
-    writer << error_msg;
+    writer << algorithm::xml_encode(error_msg);
     writer->write_no_copy(FORBIDDEN_HTML_FINISH);
     writer->send();
 }
-- 
2.43.0


From f3eae2624af7931f12e89c47a1327379a20e7410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:07 +0000
Subject: [PATCH 56/84] fix: requests sent in chunks lacked the
 Transfer-Encoding header

---
 include/pion/http/request_writer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/pion/http/request_writer.hpp b/include/pion/http/request_writer.hpp
index 317c7b3..d7d17ea 100644
--- a/include/pion/http/request_writer.hpp
+++ b/include/pion/http/request_writer.hpp
@@ -117,6 +117,8 @@ protected:
     virtual void prepare_buffers_for_send(http::message::write_buffers_t& write_buffers) {
         if (get_content_length() > 0)
             m_http_request->set_content_length(get_content_length());
+        if (sending_chunked_message() && supports_chunked_messages())
+            m_http_request->set_chunks_supported(true);
         m_http_request->prepare_buffers_for_send(write_buffers,
                                               get_connection()->get_keep_alive(),
                                               sending_chunked_message());
-- 
2.43.0


From 59ab095a11e54dfbc6a7d64e4dbde4b0636a374e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:34 +0000
Subject: [PATCH 57/84] fix: connections leaked when clients disconnected with
 pipelined requests waiting

---
 include/pion/http/writer.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/pion/http/writer.hpp b/include/pion/http/writer.hpp
index 3830d64..c0e5e01 100644
--- a/include/pion/http/writer.hpp
+++ b/include/pion/http/writer.hpp
@@ -81,6 +81,8 @@ protected:
     
     /// called after we have finished sending the HTTP message
     inline void finished_writing(const boost::system::error_code& ec) {
+        // do not read another message from a connection that cannot be written to
+        if (ec) m_tcp_conn->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE);
         if (m_finished) m_finished(ec);
     }
     
-- 
2.43.0


From 9d2a9142203b23543a9b14b9f31cc2efccc19269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:53 +0000
Subject: [PATCH 58/84] fix: expired cookie sessions were accepted until the
 next cache cleanup

expire_cache() only runs once every CACHE_EXPIRATION seconds, so a session
that had been idle for up to twice that long was still valid, and using it
extended it again.
---
 src/http_cookie_auth.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/http_cookie_auth.cpp b/src/http_cookie_auth.cpp
index 06f3b38..d3100c7 100644
--- a/src/http_cookie_auth.cpp
+++ b/src/http_cookie_auth.cpp
@@ -75,7 +75,11 @@ bool cookie_auth::handle_request(const http::request_ptr& http_request_ptr, cons
         // check if this cookie is in user cache
         boost::mutex::scoped_lock cache_lock(m_cache_mutex);
         user_cache_type::iterator user_cache_itr=m_user_cache.find(auth_cookie);
-        if (user_cache_itr != m_user_cache.end()) {
+        if (user_cache_itr != m_user_cache.end()
+            && time_now > user_cache_itr->second.first + boost::posix_time::seconds(CACHE_EXPIRATION)) {
+            // expired, but not yet removed by the periodic cleanup
+            m_user_cache.erase(user_cache_itr);
+        } else if (user_cache_itr != m_user_cache.end()) {
             // we find those credential in our cache...
             // we can approve authorization now!
             http_request_ptr->set_user(user_cache_itr->second.second);
-- 
2.43.0


From 6e378b1ecf837fdaa993b44653909f379dffc980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:53 +0000
Subject: [PATCH 59/84] fix: concurrent logins shared the session identifier
 generator without a lock

Two logins at the same time raced on the state of the random number
generator and could be given the same session identifier.
---
 src/http_cookie_auth.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http_cookie_auth.cpp b/src/http_cookie_auth.cpp
index d3100c7..2b2ac02 100644
--- a/src/http_cookie_auth.cpp
+++ b/src/http_cookie_auth.cpp
@@ -133,7 +133,8 @@ bool cookie_auth::process_login(const http::request_ptr& http_request_ptr, const
         }
         // ok we have a new user session, create  a new cookie, add to cache
 
-        // create random cookie
+        // create random cookie (the mutex also protects the random number generator)
+        boost::mutex::scoped_lock cache_lock(m_cache_mutex);
         std::string rand_binary;
         rand_binary.reserve(RANDOM_COOKIE_BYTES);
         for (unsigned int i=0; i<RANDOM_COOKIE_BYTES ; i++) {
@@ -143,7 +144,6 @@ bool cookie_auth::process_login(const http::request_ptr& http_request_ptr, const
 
         // add new session to cache
         boost::posix_time::ptime time_now(boost::posix_time::second_clock::universal_time());
-        boost::mutex::scoped_lock cache_lock(m_cache_mutex);
         m_user_cache.insert(std::make_pair(new_cookie,std::make_pair(time_now,user)));
     } else {
         // process logout sequence
-- 
2.43.0


From c981031543cb733f4061063219cfe3e188dd1ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:53 +0000
Subject: [PATCH 60/84] fix: the time of the last authentication cache cleanup
 was read without a lock

---
 src/http_basic_auth.cpp  | 5 +++--
 src/http_cookie_auth.cpp | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/http_basic_auth.cpp b/src/http_basic_auth.cpp
index cb26648..ad6b250 100644
--- a/src/http_basic_auth.cpp
+++ b/src/http_basic_auth.cpp
@@ -39,9 +39,9 @@ bool basic_auth::handle_request(const http::request_ptr& http_request_ptr, const
     }
     
     boost::posix_time::ptime time_now(boost::posix_time::second_clock::universal_time());
+    boost::mutex::scoped_lock cache_lock(m_cache_mutex);
     if (time_now > m_cache_cleanup_time + boost::posix_time::seconds(CACHE_EXPIRATION)) {
         // expire cache
-        boost::mutex::scoped_lock cache_lock(m_cache_mutex);
         user_cache_type::iterator i;
         user_cache_type::iterator next=m_user_cache.begin();
         while (next!=m_user_cache.end()) {
@@ -61,7 +61,6 @@ bool basic_auth::handle_request(const http::request_ptr& http_request_ptr, const
         std::string credentials;
         if (parse_authorization(authorization, credentials)) {
             // to do - use fast cache to match with active credentials
-            boost::mutex::scoped_lock cache_lock(m_cache_mutex);
             user_cache_type::iterator user_cache_ptr=m_user_cache.find(credentials);
             if (user_cache_ptr!=m_user_cache.end()) {
                 // we found the credentials in our cache...
@@ -88,6 +87,8 @@ bool basic_auth::handle_request(const http::request_ptr& http_request_ptr, const
         }
     }
 
+    cache_lock.unlock();
+
     // user not found
     handle_unauthorized(http_request_ptr, tcp_conn);
     return false;
diff --git a/src/http_cookie_auth.cpp b/src/http_cookie_auth.cpp
index 2b2ac02..0169907 100644
--- a/src/http_cookie_auth.cpp
+++ b/src/http_cookie_auth.cpp
@@ -264,9 +264,9 @@ void cookie_auth::handle_ok(const http::request_ptr& http_request_ptr,
 
 void cookie_auth::expire_cache(const boost::posix_time::ptime &time_now)
 {
+    boost::mutex::scoped_lock cache_lock(m_cache_mutex);
     if (time_now > m_cache_cleanup_time + boost::posix_time::seconds(CACHE_EXPIRATION)) {
         // expire cache
-        boost::mutex::scoped_lock cache_lock(m_cache_mutex);
         user_cache_type::iterator i;
         user_cache_type::iterator next=m_user_cache.begin();
         while (next!=m_user_cache.end()) {
-- 
2.43.0


From 197e374ccfc47164b4a4eb20c1378f5a598514c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:53 +0000
Subject: [PATCH 61/84] fix: the url given to a login or logout could add
 headers to the response

The decoded value of the url query was copied into the Location header, so
a value with line breaks could set cookies or split the response.
---
 src/http_cookie_auth.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/http_cookie_auth.cpp b/src/http_cookie_auth.cpp
index 0169907..b5f3f0f 100644
--- a/src/http_cookie_auth.cpp
+++ b/src/http_cookie_auth.cpp
@@ -222,7 +222,18 @@ void cookie_auth::handle_redirection(const http::request_ptr& http_request_ptr,
         boost::bind(&tcp::connection::finish, tcp_conn)));
     writer->get_response().set_status_code(http::types::RESPONSE_CODE_FOUND);
     writer->get_response().set_status_message(http::types::RESPONSE_MESSAGE_FOUND);
-    writer->get_response().add_header(http::types::HEADER_LOCATION, redirection_url);
+
+    // the URL may come from the request: encode control characters, so that it
+    // cannot end the header and add others
+    std::string location;
+    for (std::string::const_iterator i = redirection_url.begin(); i != redirection_url.end(); ++i) {
+        const unsigned char c = static_cast<unsigned char>(*i);
+        if (c < 0x20 || c == 0x7f)
+            location += algorithm::url_encode(std::string(1, *i));
+        else
+            location += *i;
+    }
+    writer->get_response().add_header(http::types::HEADER_LOCATION, location);
     // Note: use empty pass "" while setting cookies to workaround IE/FF difference
     // It is assumed that request url points to the root
     // ToDo: find a better workaround
-- 
2.43.0


From c3426d6553efa7b3ab0e176240ee5e9fb80d43d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:53 +0000
Subject: [PATCH 62/84] fix: basic authentication kept accepting removed users
 and old passwords

Credentials stay in the cache for as long as they are used, and were never
compared with the user list again: after remove_user() or update_user() the
old ones were admitted.
---
 include/pion/http/basic_auth.hpp |  3 +++
 include/pion/user.hpp            | 18 +++++++++++++++++-
 src/http_basic_auth.cpp          | 10 +++++++++-
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/pion/http/basic_auth.hpp b/include/pion/http/basic_auth.hpp
index 9eacecd..424467f 100644
--- a/include/pion/http/basic_auth.hpp
+++ b/include/pion/http/basic_auth.hpp
@@ -96,6 +96,9 @@ private:
         
     /// cache of users that are currently active
     user_cache_type             m_user_cache;
+
+    /// revision of the user list that the cache was filled from
+    boost::uint64_t             m_cache_revision;
     
     /// mutex used to protect access to the user cache
     mutable boost::mutex        m_cache_mutex;
diff --git a/include/pion/user.hpp b/include/pion/user.hpp
index dd5645e..8d1fe13 100644
--- a/include/pion/user.hpp
+++ b/include/pion/user.hpp
@@ -15,6 +15,7 @@
 #include <cstdio>
 #include <cstring>
 #include <boost/shared_ptr.hpp>
+#include <boost/cstdint.hpp>
 #include <boost/noncopyable.hpp>
 #include <boost/thread/mutex.hpp>
 #include <boost/numeric/conversion/cast.hpp>
@@ -176,7 +177,7 @@ class user_manager :
 public:
 
     /// construct a new user_manager object
-    user_manager(void) {}
+    user_manager(void) : m_revision(0) {}
 
     /// virtual destructor
     virtual ~user_manager() {}
@@ -187,6 +188,13 @@ public:
         return m_users.empty();
     }
 
+    /// returns the number of changes made to the user list (results of an
+    /// earlier lookup are out of date if this has changed since)
+    inline boost::uint64_t get_revision(void) const {
+        boost::mutex::scoped_lock lock(m_mutex);
+        return m_revision;
+    }
+
     /**
      * used to add a new user with plaintext password
      *
@@ -204,6 +212,7 @@ public:
             return false;
         user_ptr user_ptr(new user(username, password));
         m_users.insert(std::make_pair(username, user_ptr));
+        ++m_revision;
         return true;
     }
 
@@ -223,6 +232,7 @@ public:
         if (i==m_users.end())
             return false;
         i->second->set_password(password);
+        ++m_revision;
         return true;
     }
 
@@ -245,6 +255,7 @@ public:
         user_ptr user_ptr(new user(username));
         user_ptr->set_password_hash(password_hash);
         m_users.insert(std::make_pair(username, user_ptr));
+        ++m_revision;
         return true;
     }
 
@@ -264,6 +275,7 @@ public:
         if (i==m_users.end())
             return false;
         i->second->set_password_hash(password_hash);
+        ++m_revision;
         return true;
     }
 #endif
@@ -279,6 +291,7 @@ public:
         if (i==m_users.end())
             return false;
         m_users.erase(i);
+        ++m_revision;
         return true;
     }
 
@@ -318,6 +331,9 @@ protected:
 
     /// user records container
     user_map_t              m_users;
+
+    /// number of changes made to the user list
+    boost::uint64_t         m_revision;
 };
 
 /// data type for a user_manager pointer
diff --git a/src/http_basic_auth.cpp b/src/http_basic_auth.cpp
index ad6b250..7c33055 100644
--- a/src/http_basic_auth.cpp
+++ b/src/http_basic_auth.cpp
@@ -27,7 +27,8 @@ const unsigned int  basic_auth::CACHE_EXPIRATION = 300;  // 5 minutes
 
 basic_auth::basic_auth(user_manager_ptr userManager, const std::string& realm)
     : http::auth(userManager), m_realm(realm),
-    m_cache_cleanup_time(boost::posix_time::second_clock::universal_time())
+    m_cache_cleanup_time(boost::posix_time::second_clock::universal_time()),
+    m_cache_revision(userManager->get_revision())
 {
     set_logger(PION_GET_LOGGER("pion.http.basic_auth"));
 }
@@ -54,6 +55,13 @@ bool basic_auth::handle_request(const http::request_ptr& http_request_ptr, const
         }
         m_cache_cleanup_time = time_now;
     }
+
+    // cached credentials are of no use once any user has changed
+    const boost::uint64_t revision = m_user_manager->get_revision();
+    if (revision != m_cache_revision) {
+        m_user_cache.clear();
+        m_cache_revision = revision;
+    }
     
     // if we are here, we need to check if access authorized...
     std::string authorization = http_request_ptr->get_header(http::types::HEADER_AUTHORIZATION);
-- 
2.43.0


From 8e98685199afa20ce477f343038cfda8756d9e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:55 +0000
Subject: [PATCH 63/84] fix: base64_decode() aborted on padded text with
 leftover bits

The text may come from a client (the Authorization header); it was checked
with an assertion only, so builds with assertions ended and others accepted it.
---
 src/algorithm.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/algorithm.cpp b/src/algorithm.cpp
index dbd386c..93ad8cf 100644
--- a/src/algorithm.cpp
+++ b/src/algorithm.cpp
@@ -76,8 +76,7 @@ bool algorithm::base64_decode(const std::string &input, std::string &output)
         if(++i<input_length) {
             char c = input_ptr[i];
             if(c =='=') { // padding , end of input
-                BOOST_ASSERT( (base64code1 & 0x0f)==0);
-                return true;
+                return (base64code1 & 0x0f)==0;     // leftover bits: not valid
             }
             base64code2 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
             if(base64code2==nop)            // non base64 character
@@ -89,8 +88,7 @@ bool algorithm::base64_decode(const std::string &input, std::string &output)
         if(++i<input_length) {
             char c = input_ptr[i];
             if(c =='=') { // padding , end of input
-                BOOST_ASSERT( (base64code2 & 0x03)==0);
-                return true;
+                return (base64code2 & 0x03)==0;     // leftover bits: not valid
             }
             base64code3 = decoding_data[static_cast<unsigned char>(input_ptr[i])];
             if(base64code3==nop)            // non base64 character
-- 
2.43.0


From 63256a57f6d47c5777931a52ad63b2b99e91005f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:33 +0000
Subject: [PATCH 64/84] fix: file service compared its directory as a string
 prefix

Files of sibling directories whose names start alike were reachable, and a
directory given with a trailing slash or as "." refused every file. The file
option no longer has to lie within the directory.
---
 services/FileService.cpp | 32 +++++++++++++++++++++++++-------
 services/FileService.hpp | 11 +++++++++++
 2 files changed, 36 insertions(+), 7 deletions(-)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index 342bc87..27bd216 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -114,6 +114,30 @@ void FileService::set_option(const std::string& name, const std::string& value)
     }
 }
 
+bool FileService::isWithinDirectory(const boost::filesystem::path& file_path,
+                                    const boost::filesystem::path& dir_path)
+{
+    // compare whole path elements; both paths are normalized but may contain "."
+    boost::filesystem::path::iterator file_itr = file_path.begin();
+    for (boost::filesystem::path::iterator dir_itr = dir_path.begin();
+         dir_itr != dir_path.end(); ++dir_itr)
+    {
+        if (*dir_itr == ".")
+            continue;
+        while (file_itr != file_path.end() && *file_itr == ".")
+            ++file_itr;
+        if (file_itr == file_path.end() || *file_itr != *dir_itr)
+            return false;
+        ++file_itr;
+    }
+    // the rest of the path must not lead out of the directory again
+    for ( ; file_itr != file_path.end(); ++file_itr) {
+        if (*file_itr == "..")
+            return false;
+    }
+    return true;
+}
+
 void FileService::operator()(const http::request_ptr& http_request_ptr, const tcp::connection_ptr& tcp_conn)
 {
     // get the relative resource path for the request
@@ -149,13 +173,7 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
 
     // make sure that the requested file is within the configured directory
     file_path.normalize();
-# if defined(BOOST_FILESYSTEM_VERSION) && BOOST_FILESYSTEM_VERSION >= 3
-    std::string file_string = file_path.string();
-    if (file_string.find(m_directory.string()) != 0) {
-#else
-    std::string file_string = file_path.file_string();
-    if (file_string.find(m_directory.directory_string()) != 0) {
-#endif
+    if (! relative_path.empty() && ! isWithinDirectory(file_path, m_directory)) {
         PION_LOG_WARN(m_logger, "Request for file outside of directory ("
                       << get_resource() << "): " << relative_path);
         static const std::string FORBIDDEN_HTML_START =
diff --git a/services/FileService.hpp b/services/FileService.hpp
index a93dbfa..3251141 100644
--- a/services/FileService.hpp
+++ b/services/FileService.hpp
@@ -300,6 +300,17 @@ protected:
                       const boost::filesystem::path& file_path,
                       const bool placeholder);
 
+    /**
+     * checks whether a file is within a directory
+     *
+     * @param file_path normalized path to the file
+     * @param dir_path normalized path to the directory
+     *
+     * @return true if the file is within the directory
+     */
+    static bool isWithinDirectory(const boost::filesystem::path& file_path,
+                                  const boost::filesystem::path& dir_path);
+
     /**
      * searches for a MIME type that matches a file
      *
-- 
2.43.0


From 01cf1cfb031d87045b7111949cf5cbe384545a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:03 +0000
Subject: [PATCH 65/84] fix: file service answered HEAD requests with a zero
 content length

---
 services/FileService.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index 27bd216..9d09b50 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -423,6 +423,8 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
                     writer->get_response().set_status_message(http::types::RESPONSE_MESSAGE_NOT_MODIFIED);
                     break;
                 case RESPONSE_HEAD_OK:
+                    // announce the length of the content a GET request would return
+                    writer->get_response().set_content_length(response_file.getFileSize());
                     // set "OK" response (not really necessary since this is the default)
                     writer->get_response().set_status_code(http::types::RESPONSE_CODE_OK);
                     writer->get_response().set_status_message(http::types::RESPONSE_MESSAGE_OK);
-- 
2.43.0


From 55c006473abe3a7ed4e22bdb4943821a223b5757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:03 +0000
Subject: [PATCH 66/84] fix: file service answered 500 instead of 404 for
 cached files that were removed

---
 services/FileService.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index 9d09b50..a24a1c1 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -271,7 +271,14 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
                 PION_LOG_DEBUG(m_logger, "Found cache entry for request ("
                                << get_resource() << "): " << relative_path);
 
-                if (m_cache_setting == 0) {
+                if ((m_cache_setting < 2 || cache_itr->second.getLastModified() == 0)
+                    && ! boost::filesystem::exists(cache_itr->second.getFilePath()))
+                {
+                    // the file has been removed since it was added to the cache
+                    PION_LOG_WARN(m_logger, "File not found ("
+                                  << get_resource() << "): " << relative_path);
+                    response_type = RESPONSE_NOT_FOUND;
+                } else if (m_cache_setting == 0) {
                     // cache is disabled
 
                     // copy & re-use file_path and mime_type
-- 
2.43.0


From a5c1d693a6553d3b9df5e59eda70aeef50a938f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:03 +0000
Subject: [PATCH 67/84] fix: file service cached uninitialized memory when a
 changed file could not be read

The new size and date were stored before the content was read, so the next
request took the entry for current and sent whatever the new buffer held.
---
 services/FileService.cpp | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index a24a1c1..d2f8ec6 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -312,13 +312,15 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
 
                         // cache file for the first time
                         cache_was_updated = true;
-                        cache_itr->second.update();
-                        if (m_max_cache_size==0 || cache_itr->second.getFileSize() <= m_max_cache_size) {
+                        DiskFile new_entry(cache_itr->second);
+                        new_entry.update();
+                        if (m_max_cache_size==0 || new_entry.getFileSize() <= m_max_cache_size) {
                             // read the file (may throw exception)
-                            cache_itr->second.read();
+                            new_entry.read();
                         } else {
-                            cache_itr->second.resetFileContent();
+                            new_entry.resetFileContent();
                         }
+                        cache_itr->second = new_entry;
 
                     } else if (m_cache_setting == 1) {
 
@@ -793,15 +795,15 @@ void DiskFile::update(void)
 
 void DiskFile::read(void)
 {
-    // re-allocate storage buffer for the file's content
-    m_file_content.reset(new char[m_file_size]);
+    // allocate new storage buffer for the file's content
+    boost::shared_array<char> new_content(new char[m_file_size]);
 
     // open the file for reading
     boost::filesystem::ifstream file_stream;
     file_stream.open(m_file_path, std::ios::in | std::ios::binary);
 
     // read the file into memory
-    if (!file_stream.is_open() || !file_stream.read(m_file_content.get(), m_file_size)) {
+    if (!file_stream.is_open() || !file_stream.read(new_content.get(), m_file_size)) {
 # if defined(BOOST_FILESYSTEM_VERSION) && BOOST_FILESYSTEM_VERSION >= 3
         const std::string file_name = m_file_path.string();
 #else
@@ -809,6 +811,8 @@ void DiskFile::read(void)
 #endif
         BOOST_THROW_EXCEPTION( error::read_file() << error::errinfo_file_name(file_name) );
     }
+
+    m_file_content = new_content;
 }
 
 bool DiskFile::checkUpdated(void)
@@ -823,13 +827,13 @@ bool DiskFile::checkUpdated(void)
 
     // file has been updated
 
-    // update file_size and last_modified timestamp
-    m_file_size = cur_size;
-    m_last_modified = cur_modified;
-    m_last_modified_string = http::types::get_date_string( m_last_modified );
-
-    // read new contents
-    read();
+    // read new contents before replacing the old ones (may throw exception)
+    DiskFile new_file(*this);
+    new_file.m_file_size = cur_size;
+    new_file.m_last_modified = cur_modified;
+    new_file.m_last_modified_string = http::types::get_date_string( cur_modified );
+    new_file.read();
+    *this = new_file;
 
     return true;
 }
-- 
2.43.0


From cb40075fe4326e29eae05311498e7dd4ebf03786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:03 +0000
Subject: [PATCH 68/84] fix: file service never finished the connection when a
 file could not be read

---
 services/FileService.cpp | 18 ++++++++++++++++++
 services/FileService.hpp |  4 ++++
 2 files changed, 22 insertions(+)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index d2f8ec6..626b7b9 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -906,6 +906,7 @@ void DiskFileSender::send(void)
                 PION_LOG_ERROR(m_logger, "Unable to open file: "
                                << m_disk_file.getFilePath().file_string());
 #endif
+                sendError();
                 return;
             }
         }
@@ -936,6 +937,7 @@ void DiskFileSender::send(void)
                                << m_disk_file.getFilePath().file_string());
 #endif
             }
+            sendError();
             return;
         }
     }
@@ -967,6 +969,22 @@ void DiskFileSender::send(void)
     }
 }
 
+void DiskFileSender::sendError(void)
+{
+    if (m_bytes_sent == 0) {
+        // nothing has been sent yet
+        m_writer->get_response().delete_header(http::types::HEADER_LAST_MODIFIED);
+        m_writer->get_response().set_content_type(http::types::CONTENT_TYPE_HTML);
+        m_writer->get_response().set_status_code(http::types::RESPONSE_CODE_SERVER_ERROR);
+        m_writer->get_response().set_status_message(http::types::RESPONSE_MESSAGE_SERVER_ERROR);
+        m_writer->send();
+    } else {
+        // all we can do is close the connection before the response is complete
+        m_writer->get_connection()->set_lifecycle(tcp::connection::LIFECYCLE_CLOSE);
+        m_writer->get_connection()->finish();
+    }
+}
+
 void DiskFileSender::handle_write(const boost::system::error_code& write_error,
                                  std::size_t /* bytes_written */)
 {
diff --git a/services/FileService.hpp b/services/FileService.hpp
index 3251141..8847311 100644
--- a/services/FileService.hpp
+++ b/services/FileService.hpp
@@ -193,6 +193,10 @@ protected:
                      std::size_t bytes_written);
 
 
+    /// ends the response if the file cannot be read
+    void sendError(void);
+
+
     /// primary logging interface used by this class
     logger                              m_logger;
 
-- 
2.43.0


From c04825789093e466a9f62054eae6d22e86da39ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:34 +0000
Subject: [PATCH 69/84] fix: file service reported uploads as done without
 checking that they were written

---
 services/FileService.cpp | 42 +++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index 626b7b9..4acebab 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -473,10 +473,8 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
             if (http_request_ptr->get_method() == http::types::REQUEST_METHOD_POST
                 || http_request_ptr->get_method() == http::types::REQUEST_METHOD_PUT)
             {
-                if (boost::filesystem::exists(file_path)) {
-                    writer->get_response().set_status_code(http::types::RESPONSE_CODE_NO_CONTENT);
-                    writer->get_response().set_status_message(http::types::RESPONSE_MESSAGE_NO_CONTENT);
-                } else {
+                const bool file_existed = boost::filesystem::exists(file_path);
+                if (! file_existed) {
                     // The file doesn't exist yet, so it will be created below, unless the
                     // directory of the requested file also doesn't exist.
                     if (!boost::filesystem::exists(file_path.branch_path())) {
@@ -497,28 +495,13 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
                         writer->send();
                         return;
                     }
-                    static const std::string CREATED_HTML_START =
-                        "<html><head>\n"
-                        "<title>201 Created</title>\n"
-                        "</head><body>\n"
-                        "<h1>Created</h1>\n"
-                        "<p>";
-                    static const std::string CREATED_HTML_FINISH =
-                        "</p>\n"
-                        "</body></html>\n";
-                    writer->get_response().set_status_code(http::types::RESPONSE_CODE_CREATED);
-                    writer->get_response().set_status_message(http::types::RESPONSE_MESSAGE_CREATED);
-                    writer->get_response().add_header(http::types::HEADER_LOCATION, http_request_ptr->get_resource());
-                    writer->write_no_copy(CREATED_HTML_START);
-                    writer << algorithm::xml_encode(http_request_ptr->get_resource());
-                    writer->write_no_copy(CREATED_HTML_FINISH);
                 }
                 std::ios_base::openmode mode = http_request_ptr->get_method() == http::types::REQUEST_METHOD_POST?
                                                std::ios::app : std::ios::out;
                 boost::filesystem::ofstream file_stream(file_path, mode);
                 file_stream.write(http_request_ptr->get_content(), http_request_ptr->get_content_length());
                 file_stream.close();
-                if (!boost::filesystem::exists(file_path)) {
+                if (file_stream.fail() || !boost::filesystem::exists(file_path)) {
                     static const std::string PUT_FAILED_HTML_START =
                         "<html><head>\n"
                         "<title>500 Server Error</title>\n"
@@ -533,6 +516,25 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
                     writer->write_no_copy(PUT_FAILED_HTML_START);
                     writer << algorithm::xml_encode(http_request_ptr->get_resource());
                     writer->write_no_copy(PUT_FAILED_HTML_FINISH);
+                } else if (file_existed) {
+                    writer->get_response().set_status_code(http::types::RESPONSE_CODE_NO_CONTENT);
+                    writer->get_response().set_status_message(http::types::RESPONSE_MESSAGE_NO_CONTENT);
+                } else {
+                    static const std::string CREATED_HTML_START =
+                        "<html><head>\n"
+                        "<title>201 Created</title>\n"
+                        "</head><body>\n"
+                        "<h1>Created</h1>\n"
+                        "<p>";
+                    static const std::string CREATED_HTML_FINISH =
+                        "</p>\n"
+                        "</body></html>\n";
+                    writer->get_response().set_status_code(http::types::RESPONSE_CODE_CREATED);
+                    writer->get_response().set_status_message(http::types::RESPONSE_MESSAGE_CREATED);
+                    writer->get_response().add_header(http::types::HEADER_LOCATION, http_request_ptr->get_resource());
+                    writer->write_no_copy(CREATED_HTML_START);
+                    writer << algorithm::xml_encode(http_request_ptr->get_resource());
+                    writer->write_no_copy(CREATED_HTML_FINISH);
                 }
                 writer->send();
             } else if (http_request_ptr->get_method() == http::types::REQUEST_METHOD_DELETE) {
-- 
2.43.0


From ed9a55fed26eb2a9dc7c5b4c95f9974a73a9832e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:34 +0000
Subject: [PATCH 70/84] fix: file service kept serving cached content after
 replacing it with an upload

Updates are detected by date and size; an upload of the same size within the
same second was missed.
---
 services/FileService.cpp | 15 +++++++++++++++
 services/FileService.hpp | 10 ++++++++++
 2 files changed, 25 insertions(+)

diff --git a/services/FileService.cpp b/services/FileService.cpp
index 4acebab..8b6815e 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -114,6 +114,20 @@ void FileService::set_option(const std::string& name, const std::string& value)
     }
 }
 
+void FileService::markUpdated(const boost::filesystem::path& file_path)
+{
+    // the file may have kept its size and been written within the same second
+    if (m_cache_setting == 1) {
+        boost::mutex::scoped_lock cache_lock(m_cache_mutex);
+        for (CacheMap::iterator i = m_cache_map.begin(); i != m_cache_map.end(); ++i) {
+            boost::filesystem::path cached_path(i->second.getFilePath());
+            cached_path.normalize();
+            if (cached_path == file_path)
+                i->second.setUpdated();
+        }
+    }
+}
+
 bool FileService::isWithinDirectory(const boost::filesystem::path& file_path,
                                     const boost::filesystem::path& dir_path)
 {
@@ -501,6 +515,7 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
                 boost::filesystem::ofstream file_stream(file_path, mode);
                 file_stream.write(http_request_ptr->get_content(), http_request_ptr->get_content_length());
                 file_stream.close();
+                markUpdated(file_path);
                 if (file_stream.fail() || !boost::filesystem::exists(file_path)) {
                     static const std::string PUT_FAILED_HTML_START =
                         "<html><head>\n"
diff --git a/services/FileService.hpp b/services/FileService.hpp
index 8847311..3310261 100644
--- a/services/FileService.hpp
+++ b/services/FileService.hpp
@@ -98,6 +98,9 @@ public:
     /// sets the mime type for the cached file
     inline void setMimeType(const std::string& t) { m_mime_type = t; }
 
+    /// makes the cached file be read again when it is used next
+    inline void setUpdated(void) { m_last_modified = 0; }
+
     /// resets the size of the file content buffer
     inline void resetFileContent(unsigned long n = 0) {
         if (n == 0) m_file_content.reset();
@@ -304,6 +307,13 @@ protected:
                       const boost::filesystem::path& file_path,
                       const bool placeholder);
 
+    /**
+     * makes sure that cached content of a file that was written is not used again
+     *
+     * @param file_path path to the file
+     */
+    void markUpdated(const boost::filesystem::path& file_path);
+
     /**
      * checks whether a file is within a directory
      *
-- 
2.43.0


From 952359c95ebc1aa3092224d05c660b082732a219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:20 +0000
Subject: [PATCH 71/84] fix: file service stored the leading part of uploads
 beyond the content maximum

The parser drops what exceeds the maximum; messages now tell, and such uploads
are refused instead of being reported as done.
---
 include/pion/http/message.hpp | 17 +++++++++++++++--
 include/pion/http/parser.hpp  |  7 ++++++-
 services/FileService.cpp      | 19 +++++++++++++++++++
 src/http_parser.cpp           | 10 +++++++++-
 4 files changed, 49 insertions(+), 4 deletions(-)

diff --git a/include/pion/http/message.hpp b/include/pion/http/message.hpp
index a1f7d39..2d01833 100644
--- a/include/pion/http/message.hpp
+++ b/include/pion/http/message.hpp
@@ -99,7 +99,8 @@ public:
         : m_is_valid(false), m_is_chunked(false), m_chunks_supported(false),
         m_do_not_send_content_length(false),
         m_version_major(1), m_version_minor(1), m_content_length(0), m_content_buf(),
-        m_status(STATUS_NONE), m_has_missing_packets(false), m_has_data_after_missing(false)
+        m_status(STATUS_NONE), m_has_missing_packets(false), m_has_data_after_missing(false),
+        m_has_truncated_content(false)
     {}
 
     /// copy constructor
@@ -120,7 +121,8 @@ public:
         m_cookie_params(http_msg.m_cookie_params),
         m_status(http_msg.m_status),
         m_has_missing_packets(http_msg.m_has_missing_packets),
-        m_has_data_after_missing(http_msg.m_has_data_after_missing)
+        m_has_data_after_missing(http_msg.m_has_data_after_missing),
+        m_has_truncated_content(http_msg.m_has_truncated_content)
     {}
 
     /// assignment operator
@@ -141,6 +143,7 @@ public:
         m_status = http_msg.m_status;
         m_has_missing_packets = http_msg.m_has_missing_packets;
         m_has_data_after_missing = http_msg.m_has_data_after_missing;
+        m_has_truncated_content = http_msg.m_has_truncated_content;
         return *this;
     }
 
@@ -162,6 +165,7 @@ public:
         m_status = STATUS_NONE;
         m_has_missing_packets = false;
         m_has_data_after_missing = false;
+        m_has_truncated_content = false;
     }
 
     /// should return true if the content length can be implied without headers
@@ -282,6 +286,12 @@ public:
 
     inline void set_data_after_missing_packet(bool newVal) { m_has_data_after_missing = newVal; }
 
+    /// true if payload content beyond the maximum length was received but not stored
+    inline bool has_truncated_content() const { return m_has_truncated_content; }
+
+    /// set to true when payload content beyond the maximum length is not stored
+    inline void set_truncated_content(bool newVal) { m_has_truncated_content = newVal; }
+
     /// sets whether or not the message is valid
     inline void set_is_valid(bool b = true) { m_is_valid = b; }
 
@@ -750,6 +760,9 @@ private:
 
     /// indicates missing packets in the middle of the data stream
     bool                            m_has_data_after_missing;
+
+    /// indicates payload content beyond the maximum length that was not stored
+    bool                            m_has_truncated_content;
 };
 
 
diff --git a/include/pion/http/parser.hpp b/include/pion/http/parser.hpp
index 0286242..80c55a0 100644
--- a/include/pion/http/parser.hpp
+++ b/include/pion/http/parser.hpp
@@ -135,7 +135,8 @@ public:
         m_bytes_content_remaining(0), m_bytes_content_read(0),
         m_bytes_last_read(0), m_bytes_total_read(0),
         m_max_content_length(max_content_length),
-        m_parse_headers_only(false), m_save_raw_headers(false)
+        m_parse_headers_only(false), m_save_raw_headers(false),
+        m_content_truncated(false)
     {}
 
     /// default destructor
@@ -244,6 +245,7 @@ public:
         m_query_string.erase();
         m_raw_headers.erase();
         m_bytes_content_read = m_bytes_last_read = m_bytes_total_read = 0;
+        m_content_truncated = false;
     }
 
     /// returns true if there are no more bytes available in the read buffer
@@ -699,6 +701,9 @@ private:
     /// if true, the raw contents of HTTP headers are stored into m_raw_headers
     bool                                m_save_raw_headers;
 
+    /// true if payload content was not stored because it exceeds the maximum length
+    bool                                m_content_truncated;
+
     /// points to a single and unique instance of the parser error_category_t
     static error_category_t *           m_error_category_ptr;
         
diff --git a/services/FileService.cpp b/services/FileService.cpp
index 8b6815e..0c07492 100644
--- a/services/FileService.cpp
+++ b/services/FileService.cpp
@@ -487,6 +487,25 @@ void FileService::operator()(const http::request_ptr& http_request_ptr, const tc
             if (http_request_ptr->get_method() == http::types::REQUEST_METHOD_POST
                 || http_request_ptr->get_method() == http::types::REQUEST_METHOD_PUT)
             {
+                // never write less than what was sent
+                if (http_request_ptr->has_truncated_content()) {
+                    static const std::string TOO_LARGE_HTML_START =
+                        "<html><head>\n"
+                        "<title>413 Request Entity Too Large</title>\n"
+                        "</head><body>\n"
+                        "<h1>Request Entity Too Large</h1>\n"
+                        "<p>The content sent for ";
+                    static const std::string TOO_LARGE_HTML_FINISH =
+                        " is too large.</p>\n"
+                        "</body></html>\n";
+                    writer->get_response().set_status_code(413);
+                    writer->get_response().set_status_message("Request Entity Too Large");
+                    writer->write_no_copy(TOO_LARGE_HTML_START);
+                    writer << algorithm::xml_encode(http_request_ptr->get_resource());
+                    writer->write_no_copy(TOO_LARGE_HTML_FINISH);
+                    writer->send();
+                    return;
+                }
                 const bool file_existed = boost::filesystem::exists(file_path);
                 if (! file_existed) {
                     // The file doesn't exist yet, so it will be created below, unless the
diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 137ffa4..323fbbd 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -757,6 +757,7 @@ boost::tribool parser::finish_header_parsing(http::message& http_msg,
     boost::tribool rc = boost::indeterminate;
 
     m_bytes_content_remaining = m_bytes_content_read = 0;
+    m_content_truncated = false;
     http_msg.set_content_length(0);
     http_msg.update_transfer_encoding_using_header();
     update_message_with_header_data(http_msg);
@@ -804,8 +805,10 @@ boost::tribool parser::finish_header_parsing(http::message& http_msg,
                 m_bytes_content_remaining = http_msg.get_content_length();
 
                 // check if content-length exceeds maximum allowed
-                if (m_bytes_content_remaining > m_max_content_length)
+                if (m_bytes_content_remaining > m_max_content_length) {
                     http_msg.set_content_length(m_max_content_length);
+                    m_content_truncated = ! m_payload_handler;
+                }
 
                 if (m_parse_headers_only) {
                     // return true if parsing headers only
@@ -1480,6 +1483,8 @@ boost::tribool parser::parse_chunks(http::message::chunk_cache_t& chunks,
                     // bytes beyond the maximum are consumed but not stored
                     if (chunks.size() < m_max_content_length)
                         chunks.push_back(*m_read_ptr);
+                    else
+                        m_content_truncated = true;
                     m_bytes_read_in_current_chunk++;
                 }
             }
@@ -1608,6 +1613,8 @@ std::size_t parser::consume_content_as_next_chunk(http::message::chunk_cache_t&
             while (m_read_ptr < m_read_end_ptr) {
                 if (chunks.size() < m_max_content_length)
                     chunks.push_back(*m_read_ptr);
+                else
+                    m_content_truncated = true;
                 ++m_read_ptr;
             }
         }
@@ -1653,6 +1660,7 @@ void parser::finish(http::message& http_msg) const
     }
 
     compute_msg_status(http_msg, http_msg.is_valid());
+    http_msg.set_truncated_content(m_content_truncated);
 
     if (is_parsing_request() && !m_payload_handler && !m_parse_headers_only) {
         // Parse query pairs from post content if content type is x-www-form-urlencoded.
-- 
2.43.0


From b997d8664617e6f7b6eda24e070a14950e409500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:19 +0000
Subject: [PATCH 72/84] fix: service configuration ignored a last line without
 a line end

Such a directive was silently dropped, even if invalid; with restrict or user
the resources were left without protection.
---
 src/http_plugin_server.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/http_plugin_server.cpp b/src/http_plugin_server.cpp
index 9115cf0..7fcf4f1 100644
--- a/src/http_plugin_server.cpp
+++ b/src/http_plugin_server.cpp
@@ -75,8 +75,14 @@ void plugin_server::load_service_config(const std::string& config_name)
     std::string option_name_string;
     std::string option_value_string;
     int c = config_stream.get();    // read the first character
+    bool end_of_file = false;
     
-    while (config_stream) {
+    while (! end_of_file) {
+        if (! config_stream) {
+            // the end of the file also ends its last line
+            end_of_file = true;
+            c = '\n';
+        }
         switch(parse_state) {
         case PARSE_NEWLINE:
             // parsing command portion (or beginning of line)
-- 
2.43.0


From 0f1b6af2f63967ed14b37cd5093543b54d47b1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:00 +0000
Subject: [PATCH 73/84] fix: plugin server unloaded services while its worker
 threads were still executing them

The pool of connections is empty as soon as the last request was answered,
but the thread that handled it may still be returning through code of the
plug-in library when the server is cleared or destroyed.
---
 include/pion/http/plugin_server.hpp | 2 ++
 include/pion/tcp/server.hpp         | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/include/pion/http/plugin_server.hpp b/include/pion/http/plugin_server.hpp
index 786af3e..8def4c7 100644
--- a/include/pion/http/plugin_server.hpp
+++ b/include/pion/http/plugin_server.hpp
@@ -127,6 +127,8 @@ public:
     /// clears all the web services that are currently configured
     virtual void clear(void) {
         if (is_listening()) stop();
+        // worker threads may still be executing code of the web services
+        finish_default_scheduler();
         m_services.clear();
         http::server::clear();
     }
diff --git a/include/pion/tcp/server.hpp b/include/pion/tcp/server.hpp
index 068ac32..6fe300d 100644
--- a/include/pion/tcp/server.hpp
+++ b/include/pion/tcp/server.hpp
@@ -156,6 +156,10 @@ protected:
     /// returns an async I/O service used to schedule work
     inline boost::asio::io_service& get_io_service(void) { return m_active_scheduler.get_io_service(); }
     
+    /// waits until the worker threads of the server's own scheduler (if that
+    /// is used) have finished; starting the server starts the scheduler again
+    inline void finish_default_scheduler(void) { m_default_scheduler.shutdown(); }
+    
     
     /// primary logging interface used by this class
     logger                  m_logger;
-- 
2.43.0


From 777c3efc0ea27022d67632109d7ba0e803439ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:59 +0000
Subject: [PATCH 74/84] fix: messages cut off in their trailers lost their
 content and held each query and cookie twice

---
 src/http_parser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 323fbbd..f3443bd 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -1636,12 +1636,15 @@ void parser::finish(http::message& http_msg) const
         http_msg.set_is_valid(true);
         break;
     case PARSE_HEADERS:
-    case PARSE_FOOTERS:
         http_msg.set_is_valid(false);
         update_message_with_header_data(http_msg);
         http_msg.set_content_length(0);
         http_msg.create_content_buffer();
         break;
+    case PARSE_FOOTERS:
+        // the message has its header data and content already
+        http_msg.set_is_valid(false);
+        break;
     case PARSE_CONTENT:
         http_msg.set_is_valid(false);
         if (get_content_bytes_read() < m_max_content_length)   // NOTE: we can read more than we have allocated/stored
-- 
2.43.0


From 292d44518a9c00840ce65de4d527e4a4ee3cfde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:10 +0000
Subject: [PATCH 75/84] fix: asynchronous SSL handshakes changed the connection
 while its handler was using it

---
 include/pion/tcp/connection.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pion/tcp/connection.hpp b/include/pion/tcp/connection.hpp
index 713a05f..f45944e 100644
--- a/include/pion/tcp/connection.hpp
+++ b/include/pion/tcp/connection.hpp
@@ -331,8 +331,8 @@ public:
     template <typename SSLHandshakeHandler>
     inline void async_handshake_client(SSLHandshakeHandler handler) {
 #ifdef PION_HAVE_SSL
+        m_ssl_flag = true;  // the handler may be called by another thread at any time
         m_ssl_socket.async_handshake(boost::asio::ssl::stream_base::client, handler);
-        m_ssl_flag = true;
 #endif
     }
 
@@ -346,8 +346,8 @@ public:
     template <typename SSLHandshakeHandler>
     inline void async_handshake_server(SSLHandshakeHandler handler) {
 #ifdef PION_HAVE_SSL
+        m_ssl_flag = true;  // the handler may be called by another thread at any time
         m_ssl_socket.async_handshake(boost::asio::ssl::stream_base::server, handler);
-        m_ssl_flag = true;
 #endif
     }
     
-- 
2.43.0


From 14276c77381486e69474e21fef24b60bbc558e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:08 +0000
Subject: [PATCH 76/84] fix: concurrent start and stop left a TCP server with
 two acceptors

---
 include/pion/tcp/server.hpp |  3 +++
 src/tcp_server.cpp          | 11 ++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/pion/tcp/server.hpp b/include/pion/tcp/server.hpp
index 6fe300d..1e2b8ed 100644
--- a/include/pion/tcp/server.hpp
+++ b/include/pion/tcp/server.hpp
@@ -173,6 +173,9 @@ private:
     /// listens for a new connection
     void listen(void);
 
+    /// listens for a new connection (assumes that a server lock has been acquired)
+    void accept_connection(void);
+
     /**
      * handles new connections (checks if there was an accept error)
      *
diff --git a/src/tcp_server.cpp b/src/tcp_server.cpp
index 82bd464..d00ad3a 100644
--- a/src/tcp_server.cpp
+++ b/src/tcp_server.cpp
@@ -108,9 +108,9 @@ void server::start(void)
 
         m_is_listening = true;
 
-        // unlock the mutex since listen() requires its own lock
+        // start accepting connections before any other thread can stop the server
+        accept_connection();
         server_lock.unlock();
-        listen();
         
         // notify the thread scheduler that we need it now
         m_active_scheduler.add_active_user();
@@ -186,7 +186,12 @@ void server::listen(void)
 {
     // lock mutex for thread safety
     boost::mutex::scoped_lock server_lock(m_mutex);
-    
+    accept_connection();
+}
+
+void server::accept_connection(void)
+{
+    // assumes that a server lock has already been acquired
     if (m_is_listening) {
         // create a new TCP connection object
         tcp::connection_ptr new_connection(connection::create(get_io_service(),
-- 
2.43.0


From 7e7fd4fc8a70eef36b90e79c6010fa4034794d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 77/84] fix: chunk sizes that do not fit were replaced with
 another size

---
 src/http_parser.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index f3443bd..7e45606 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -7,6 +7,7 @@
 // See http://www.boost.org/LICENSE_1_0.txt
 //
 
+#include <cerrno>
 #include <cstdlib>
 #include <cstring>
 #include <boost/regex.hpp>
@@ -1458,7 +1459,13 @@ boost::tribool parser::parse_chunks(http::message::chunk_cache_t& chunks,
             // if we see anything other than LF, we can't be certain where the chunk starts.
             if (*m_read_ptr == '\x0A') {
                 m_bytes_read_in_current_chunk = 0;
+                errno = 0;
                 m_size_of_current_chunk = strtol(m_chunk_size_str.c_str(), 0, 16);
+                if (errno == ERANGE) {
+                    // the size does not fit; don't use another one in its place
+                    set_error(ec, ERROR_CHUNK_CHAR);
+                    return false;
+                }
                 if (m_size_of_current_chunk == 0) {
                     m_chunked_content_parse_state = PARSE_EXPECTING_FINAL_CR_OR_FOOTERS_AFTER_LAST_CHUNK;
                 } else {
-- 
2.43.0


From 40a806b0137f537cf6c0e30dd527bd9227d2f1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 78/84] fix: header values right after the colon were refused
 if they began with a separator

---
 src/http_parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index 7e45606..b074acf 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -633,7 +633,7 @@ boost::tribool parser::parse_headers(http::message& http_msg,
 
         case PARSE_SPACE_BEFORE_HEADER_VALUE:
             // parsing space character before a header's value
-            if (*m_read_ptr == ' ') {
+            if (*m_read_ptr == ' ' || *m_read_ptr == '\t') {
                 m_headers_parse_state = PARSE_HEADER_VALUE;
             } else if (*m_read_ptr == '\r') {
                 http_msg.add_header(m_header_name, m_header_value);
@@ -641,7 +641,7 @@ boost::tribool parser::parse_headers(http::message& http_msg,
             } else if (*m_read_ptr == '\n') {
                 http_msg.add_header(m_header_name, m_header_value);
                 m_headers_parse_state = PARSE_EXPECTING_CR;
-            } else if (!is_char(*m_read_ptr) || is_control(*m_read_ptr) || is_special(*m_read_ptr)) {
+            } else if (is_control(*m_read_ptr)) {
                 set_error(ec, ERROR_HEADER_CHAR);
                 return false;
             } else {
-- 
2.43.0


From 7f6864622386508d54cff67f640a6d1d8321ddac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 79/84] fix: version and status numbers of parsed messages
 wrapped around

---
 src/http_parser.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/http_parser.cpp b/src/http_parser.cpp
index b074acf..bd7cf60 100644
--- a/src/http_parser.cpp
+++ b/src/http_parser.cpp
@@ -421,7 +421,7 @@ boost::tribool parser::parse_headers(http::message& http_msg,
             // parsing the major version number (not first digit)
             if (*m_read_ptr == '.') {
                 m_headers_parse_state = PARSE_HTTP_VERSION_MINOR_START;
-            } else if (is_digit(*m_read_ptr)) {
+            } else if (is_digit(*m_read_ptr) && http_msg.get_version_major() < 100) {
                 http_msg.set_version_major( (http_msg.get_version_major() * 10)
                                           + (*m_read_ptr - '0') );
             } else {
@@ -461,7 +461,7 @@ boost::tribool parser::parse_headers(http::message& http_msg,
                     return false;
                 }
                 m_headers_parse_state = PARSE_EXPECTING_CR;
-            } else if (is_digit(*m_read_ptr)) {
+            } else if (is_digit(*m_read_ptr) && http_msg.get_version_minor() < 100) {
                 http_msg.set_version_minor( (http_msg.get_version_minor() * 10)
                                           + (*m_read_ptr - '0') );
             } else {
@@ -485,7 +485,7 @@ boost::tribool parser::parse_headers(http::message& http_msg,
             if (*m_read_ptr == ' ') {
                 m_status_message.erase();
                 m_headers_parse_state = PARSE_STATUS_MESSAGE;
-            } else if (is_digit(*m_read_ptr)) {
+            } else if (is_digit(*m_read_ptr) && m_status_code < 100) {
                 m_status_code = ( (m_status_code * 10) + (*m_read_ptr - '0') );
             } else if (*m_read_ptr == '\r') {
                 // recover from status message not sent
-- 
2.43.0


From ce025ee0777d763342ff177501ea33d520d11839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 80/84] fix: the error message for oversized URIs named the
 method

---
 include/pion/http/parser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pion/http/parser.hpp b/include/pion/http/parser.hpp
index 80c55a0..4389ae8 100644
--- a/include/pion/http/parser.hpp
+++ b/include/pion/http/parser.hpp
@@ -85,7 +85,7 @@ public:
             case ERROR_URI_CHAR:
                 return "invalid URI character";
             case ERROR_URI_SIZE:
-                return "method exceeds maximum size";
+                return "URI exceeds maximum size";
             case ERROR_QUERY_CHAR:
                 return "invalid query string character";
             case ERROR_QUERY_SIZE:
-- 
2.43.0


From 1c5bc08fff739fe1f178e22ca8dd94ff25f41a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 81/84] fix: connection::read() into its own buffer could not
 be used (it called async_read)

---
 include/pion/tcp/connection.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/pion/tcp/connection.hpp b/include/pion/tcp/connection.hpp
index f45944e..ffa4787 100644
--- a/include/pion/tcp/connection.hpp
+++ b/include/pion/tcp/connection.hpp
@@ -523,12 +523,12 @@ public:
     {
 #ifdef PION_HAVE_SSL
         if (get_ssl_flag())
-            return boost::asio::async_read(m_ssl_socket, boost::asio::buffer(m_read_buffer),
-                                           completion_condition, ec);
+            return boost::asio::read(m_ssl_socket, boost::asio::buffer(m_read_buffer),
+                                     completion_condition, ec);
         else
 #endif      
-            return boost::asio::async_read(m_ssl_socket.next_layer(), boost::asio::buffer(m_read_buffer),
-                                           completion_condition, ec);
+            return boost::asio::read(m_ssl_socket.next_layer(), boost::asio::buffer(m_read_buffer),
+                                     completion_condition, ec);
     }
     
     /**
-- 
2.43.0


From 10ac6c45c5cf559a2f6397d980bf8a2d017572ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 82/84] fix: cookie authentication objects created in the same
 second issued the same sessions

---
 src/http_cookie_auth.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/http_cookie_auth.cpp b/src/http_cookie_auth.cpp
index b5f3f0f..b5ccb14 100644
--- a/src/http_cookie_auth.cpp
+++ b/src/http_cookie_auth.cpp
@@ -12,7 +12,11 @@
 #include <pion/http/cookie_auth.hpp>
 #include <pion/http/response_writer.hpp>
 #include <pion/http/server.hpp>
+#include <boost/date_time/posix_time/posix_time_types.hpp>
 #include <ctime>
+#ifdef PION_HAVE_SSL
+    #include <openssl/rand.h>
+#endif
 
 
 namespace pion {    // begin namespace pion
@@ -39,11 +43,21 @@ cookie_auth::cookie_auth(user_manager_ptr userManager,
     // set logger for this class
     set_logger(PION_GET_LOGGER("pion.http.cookie_auth"));
 
-    // Seed random number generator with current time as time_t int value, cast to the required type.
-    // (Note that boost::mt19937::result_type is boost::uint32_t, and casting to an unsigned n-bit integer is
-    // defined by the standard to keep the lower n bits.  Since ::time() returns seconds since Jan 1, 1970, 
-    // it will be a long time before we lose any entropy here, even if time_t is a 64-bit int.)
-    m_random_gen.seed(static_cast<boost::mt19937::result_type>(::time(NULL)));
+    // Seed the random number generator with values that differ between all objects, since two
+    // generators with the same seed issue the same session identifiers: the current time and its
+    // microseconds, the address of this object and, if OpenSSL is available, random bytes.
+    boost::uint32_t seed[boost::mt19937::state_size];
+    for (unsigned int n = 0; n < boost::mt19937::state_size; ++n)
+        seed[n] = n;
+#ifdef PION_HAVE_SSL
+    RAND_bytes(reinterpret_cast<unsigned char*>(seed), sizeof(seed));
+#endif
+    const boost::posix_time::time_duration t(boost::posix_time::microsec_clock::universal_time().time_of_day());
+    seed[0] ^= static_cast<boost::uint32_t>(::time(NULL));
+    seed[1] ^= static_cast<boost::uint32_t>(t.total_microseconds());
+    seed[2] ^= static_cast<boost::uint32_t>(reinterpret_cast<std::size_t>(this));
+    boost::uint32_t *seed_ptr = seed;
+    m_random_gen.seed(seed_ptr, seed + boost::mt19937::state_size);
 
     // generate some random numbers to increase entropy of the rng
     for (unsigned int n = 0; n < 100; ++n)
-- 
2.43.0


From eda35d2868504ce59a7b3d0de2247fd1c583179e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:55 +0000
Subject: [PATCH 83/84] fix: the cookie service let requests add headers and
 markup to its responses

---
 services/CookieService.cpp | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/services/CookieService.cpp b/services/CookieService.cpp
index 7f8327a..0ec0893 100644
--- a/services/CookieService.cpp
+++ b/services/CookieService.cpp
@@ -17,6 +17,22 @@ namespace pion {        // begin namespace pion
 namespace plugins {     // begin namespace plugins
 
     
+/// true if str may be used for the name (or value) of a cookie: everything else could
+/// end the Set-Cookie header or its name (or the quotes around the value)
+static bool is_valid_cookie_text(const std::string& str, const bool is_name)
+{
+    static const std::string NAME_SEPARATORS(" ()<>@,;:/[]?={}");
+    for (std::string::const_iterator i = str.begin(); i != str.end(); ++i) {
+        const unsigned char c = static_cast<unsigned char>(*i);
+        if (c < 0x20 || c == 0x7F || c == '\"' || c == '\\')
+            return false;
+        if (is_name && (c > 0x7F || NAME_SEPARATORS.find(*i) != std::string::npos))
+            return false;
+    }
+    return true;
+}
+
+
 // CookieService member functions
 
 /// handles requests for CookieService
@@ -40,18 +56,23 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
             const std::string cookie_value(http_request_ptr->get_query("cookie_value"));
             if (cookie_name.empty() || cookie_value.empty()) {
                 writer << "\n<p>[Error: You must specify a name and value to add a cookie]</p>\n\n";
+            } else if (! is_valid_cookie_text(cookie_name, true) || ! is_valid_cookie_text(cookie_value, false)) {
+                writer << "\n<p>[Error: The name or value has characters that are not allowed in a cookie]</p>\n\n";
             } else {
                 writer->get_response().set_cookie(cookie_name, cookie_value);
                 writer << "\n<p>[Added cookie "
-                    << cookie_name << '=' << cookie_value << "]</p>\n\n";
+                    << algorithm::xml_encode(cookie_name) << '='
+                    << algorithm::xml_encode(cookie_value) << "]</p>\n\n";
             }
         } else if (http_request_ptr->get_query("action") == "delete") {
             const std::string cookie_name(http_request_ptr->get_query("cookie_name"));
             if (cookie_name.empty()) {
                 writer << "\n<p>[Error: You must specify a name to delete a cookie]</p>\n\n";
+            } else if (! is_valid_cookie_text(cookie_name, true)) {
+                writer << "\n<p>[Error: The name has characters that are not allowed in a cookie]</p>\n\n";
             } else {
                 writer->get_response().delete_cookie(cookie_name);
-                writer << "\n<p>[Deleted cookie " << cookie_name << "]</p>\n\n";
+                writer << "\n<p>[Deleted cookie " << algorithm::xml_encode(cookie_name) << "]</p>\n\n";
             }
         } else {
             writer << "\n<p>[Error: Unrecognized action]</p>\n\n";
@@ -67,7 +88,7 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
              header_iterator != http_request_ptr->get_headers().end()
              && header_iterator != header_pair.second; ++header_iterator)
         {
-            writer << "<li>Cookie: " << header_iterator->second << "\n";
+            writer << "<li>Cookie: " << algorithm::xml_encode(header_iterator->second) << "\n";
         }
         writer << "</ul>\n\n";
     } else {
@@ -81,9 +102,9 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
         for (ihash_multimap::const_iterator i = cookie_params.begin();
              i != cookie_params.end(); ++i)
         {
-            writer << "<li>" << i->first << ": " << i->second
-                << " <a href=\"" << http_request_ptr->get_resource()
-                << "?action=delete&cookie_name=" << i->first
+            writer << "<li>" << algorithm::xml_encode(i->first) << ": " << algorithm::xml_encode(i->second)
+                << " <a href=\"" << algorithm::xml_encode(http_request_ptr->get_resource())
+                << "?action=delete&cookie_name=" << algorithm::url_encode(i->first)
                 << "\">[Delete]</a>\n";
         }
         writer << "</ul>\n\n";
@@ -93,7 +114,7 @@ void CookieService::operator()(const http::request_ptr& http_request_ptr, const
 
     // display form to add a cookie
     writer << "\n<h2>Add Cookie</h2>\n"
-        "<p><form action=\"" << http_request_ptr->get_resource() << "\" method=\"POST\">\n"
+        "<p><form action=\"" << algorithm::xml_encode(http_request_ptr->get_resource()) << "\" method=\"POST\">\n"
         "Name: <input type=\"text\" name=\"cookie_name\"><br />\n"
         "Value: <input type=\"text\" name=\"cookie_value\"><br />\n"
         "<input type=\"submit\" name=\"action\" value=\"Add Cookie\"></p>\n"
-- 
2.43.0


From a30f7c423c7b0309b67dd455081aa709e3d40e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:32 +0000
Subject: [PATCH 84/84] fix: piond refuses an invalid IP address instead of
 ending with an uncaught exception

---
 utils/piond.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/utils/piond.cpp b/utils/piond.cpp
index 7cfddc9..5f21c96 100644
--- a/utils/piond.cpp
+++ b/utils/piond.cpp
@@ -63,7 +63,12 @@ int main (int argc, char *argv[])
                 if (cfg_endpoint.port() == 0) cfg_endpoint.port(DEFAULT_PORT);
             } else if (argv[argnum][1] == 'i' && argv[argnum][2] == '\0' && argnum+1 < argc) {
                 // set ip address
-                cfg_endpoint.address(boost::asio::ip::address::from_string(argv[++argnum]));
+                boost::system::error_code ec;
+                cfg_endpoint.address(boost::asio::ip::address::from_string(argv[++argnum], ec));
+                if (ec) {
+                    std::cerr << "piond: Invalid IP address: " << argv[argnum] << std::endl;
+                    return 1;
+                }
             } else if (argv[argnum][1] == 'c' && argv[argnum][2] == '\0' && argnum+1 < argc) {
                 service_config_file = argv[++argnum];
             } else if (argv[argnum][1] == 'd' && argv[argnum][2] == '\0' && argnum+1 < argc) {
-- 
2.43.0

