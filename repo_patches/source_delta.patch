From 45965b8de886e62db1a35c8e21e83d8115b18eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:35 +0000
Subject: [PATCH 001/154] fix: bound RLP length fields to the decoded input

The length bytes of long strings/lists were read without checking that they
are part of the input, lengths with more than 4 bytes overflowed an int shift,
and on error the returned item could point outside of the input.
---
 src/chains/eth/verifier/rlp.c | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/chains/eth/verifier/rlp.c b/src/chains/eth/verifier/rlp.c
index 9eed7e6..d3e4925 100644
--- a/src/chains/eth/verifier/rlp.c
+++ b/src/chains/eth/verifier/rlp.c
@@ -25,8 +25,26 @@
 
 static int check_range(bytes_t* target, bytes_t* src, size_t new_len, uint8_t* new_start, rlp_type_t result_type) {
   if (!target) return RLP_OUT_OF_RANGE;
-  *target = bytes(new_start, new_len);
-  return (new_start >= src->data && (new_start + new_len) >= src->data && (new_start + new_len) <= (src->data + src->len)) ? result_type : RLP_OUT_OF_RANGE;
+  bool in_range = new_start >= src->data && new_start <= src->data + src->len && new_len <= (size_t) (src->data + src->len - new_start);
+  *target       = in_range ? bytes(new_start, new_len) : NULL_BYTES;
+  return in_range ? result_type : RLP_OUT_OF_RANGE;
+}
+
+static rlp_type_t out_of_range(int index, bytes_t* target) {
+  if (index >= 0 && target) *target = NULL_BYTES;
+  return RLP_OUT_OF_RANGE;
+}
+
+// reads the big endian length field of n bytes following the prefix byte at src_idx,
+// returns false if the length field or the payload would exceed the source.
+static bool read_length(bytes_t* src, size_t src_idx, size_t n, size_t* len) {
+  uint64_t value = 0;
+  if (n > src->len - src_idx - 1) return false;
+  for (size_t i = 0; i < n; i++)
+    value = (value << 8) | src->data[src_idx + 1 + i];
+  if (value > src->len - src_idx - 1 - n) return false;
+  *len = (size_t) value;
+  return true;
 }
 
 INTERNAL rlp_type_t rlp_decode(bytes_t* src, int index, bytes_t* target) {
@@ -43,9 +61,8 @@ INTERNAL rlp_type_t rlp_decode(bytes_t* src, int index, bytes_t* target) {
       src_idx += c - 0x80;
     }
     else if (c < 0xc0) {
-      size_t len, n;
-      for (len = 0, n = 0; n < (uint8_t) (c - 0xB7); n++)
-        len |= (*(src->data + src_idx + 1 + n)) << (8 * ((c - 0xb7) - n - 1));
+      size_t len = 0;
+      if (!read_length(src, src_idx, c - 0xb7, &len)) return out_of_range(index, target);
       if ((int) pos == index) return check_range(target, src, len, src->data + src_idx + c - 0xb7 + 1, RLP_ITEM);
       src_idx += len + c - 0xb7;
     }
@@ -57,8 +74,7 @@ INTERNAL rlp_type_t rlp_decode(bytes_t* src, int index, bytes_t* target) {
     }
     else {
       size_t len = 0;
-      for (size_t i = 0; i < (uint8_t) (c - 0xF7); i++)
-        len |= (*(src->data + src_idx + 1 + i)) << (8 * ((c - 0xf7) - i - 1));
+      if (!read_length(src, src_idx, c - 0xf7, &len)) return out_of_range(index, target);
       if ((int) pos == index)
         return check_range(target, src, len, src->data + src_idx + c - 0xf7 + 1, RLP_LIST);
       src_idx += len + c - 0xf7;
-- 
2.43.0


From a335dcbcddc4b6dd3cde38646c7576dc3d028e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:35 +0000
Subject: [PATCH 002/154] fix: rlp_to_list wrote past its length buffer for
 payloads of 16MB and more

---
 src/chains/eth/verifier/rlp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/rlp.c b/src/chains/eth/verifier/rlp.c
index d3e4925..41af6a4 100644
--- a/src/chains/eth/verifier/rlp.c
+++ b/src/chains/eth/verifier/rlp.c
@@ -136,7 +136,7 @@ INTERNAL void rlp_add_uint64(buffer_t* buf, uint64_t value) {
 }
 
 INTERNAL void rlp_to_list(buffer_t* buf) {
-  uint8_t  tmp[4] = {0};
+  uint8_t  tmp[5] = {0}; // prefix and up to 4 length bytes
   buffer_t tbuf   = stack_buffer(tmp);
   encode_length(&tbuf, buf->data.len, 0xc0);
   buffer_splice(buf, 0, 0, tbuf.data);
-- 
2.43.0


From 608a17ed91718b07abc02efe3fc785279b6460eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:35 +0000
Subject: [PATCH 003/154] fix: rlp_get_uint64 returned the bytes of the whole
 list for a missing item

---
 src/chains/eth/verifier/rlp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/rlp.c b/src/chains/eth/verifier/rlp.c
index 41af6a4..bd74a8a 100644
--- a/src/chains/eth/verifier/rlp.c
+++ b/src/chains/eth/verifier/rlp.c
@@ -144,7 +144,7 @@ INTERNAL void rlp_to_list(buffer_t* buf) {
 
 INTERNAL uint64_t rlp_get_uint64(bytes_t data, int index) {
   uint64_t value = 0;
-  rlp_decode(&data, index, &data);
+  if (rlp_decode(&data, index, &data) != RLP_ITEM) return 0;
   if (data.len > 8 || !data.len) return 0;
   for (int i = 0; i < data.len; i++)
     value |= ((uint64_t) data.data[i]) << ((data.len - i - 1) << 3);
-- 
2.43.0


From dae5d37f466626feb7e975f67aacfc20cf3225f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:35 +0000
Subject: [PATCH 004/154] fix: buffer_add_be/le/bytes wrote past fixed size
 buffers

---
 src/util/bytes.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/util/bytes.c b/src/util/bytes.c
index e21decb..532c9d8 100644
--- a/src/util/bytes.c
+++ b/src/util/bytes.c
@@ -483,7 +483,7 @@ bytes_t bytes_read(char* filename) {
 }
 
 void buffer_add_bytes(buffer_t* buf, uint32_t len, ...) {
-  buffer_grow(buf, buf->data.len + len);
+  if (buffer_grow(buf, buf->data.len + len) < buf->data.len + len) return; // fixed buffer without enough space
   va_list args;
   va_start(args, len);
   for (uint32_t i = 0; i < len; i++) {
@@ -494,17 +494,17 @@ void buffer_add_bytes(buffer_t* buf, uint32_t len, ...) {
 }
 
 void buffer_add_be(buffer_t* buffer, uint64_t value, uint32_t len) {
-  buffer_grow(buffer, buffer->data.len + len);
+  if (buffer_grow(buffer, buffer->data.len + len) < buffer->data.len + len) return; // fixed buffer without enough space
   uint32_t s = buffer->data.len;
   for (uint32_t i = 0; i < len; i++)
-    buffer->data.data[s + len - i - 1] = (value >> (i << 3)) & 0xFF;
+    buffer->data.data[s + len - i - 1] = i < 8 ? (value >> (i << 3)) & 0xFF : 0;
   buffer->data.len += len;
 }
 void buffer_add_le(buffer_t* buffer, uint64_t value, uint32_t len) {
-  buffer_grow(buffer, buffer->data.len + len);
+  if (buffer_grow(buffer, buffer->data.len + len) < buffer->data.len + len) return; // fixed buffer without enough space
   uint32_t s = buffer->data.len;
   for (uint32_t i = 0; i < len; i++)
-    buffer->data.data[s + i] = (value >> (i << 3)) & 0xFF;
+    buffer->data.data[s + i] = i < 8 ? (value >> (i << 3)) & 0xFF : 0;
   buffer->data.len += len;
 }
 
-- 
2.43.0


From 4336774832abbdc5d72e97da223120dd28ece914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:04 +0000
Subject: [PATCH 005/154] fix: bprintf left a filled fixed size buffer without
 NUL terminator

---
 src/util/bytes.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/util/bytes.c b/src/util/bytes.c
index 532c9d8..67c64b1 100644
--- a/src/util/bytes.c
+++ b/src/util/bytes.c
@@ -720,13 +720,12 @@ char* bprintf(buffer_t* buf, const char* fmt, ...) {
     }
   }
   va_end(args);
-  if (last_pos != p)
-    buffer_add_chars(buf, last_pos);                            // automaticly appen NULL-Terminator
-  else if (buffer_grow(buf, buf->data.len + 1) > buf->data.len) // can we add the NULL-Terminator?
-    buf->data.data[buf->data.len] = 0;                          // then add it
-  else {                                                        // so we reached a limit without space for the NULL-Terminator
-    buf->data.len--;                                            // remove the last character
-    buf->data.data[buf->data.len] = 0;                          // then add it
+  if (*last_pos) buffer_append(buf, bytes((uint8_t*) last_pos, strlen(last_pos)));
+  if (buffer_grow(buf, buf->data.len + 1) > buf->data.len) // can we add the NULL-Terminator?
+    buf->data.data[buf->data.len] = 0;                     // then add it
+  else if (buf->data.len) {                                // so we reached a limit without space for the NULL-Terminator
+    buf->data.len--;                                       // remove the last character
+    buf->data.data[buf->data.len] = 0;                     // then add it
   }
   return (char*) buf->data.data;
 }
-- 
2.43.0


From b5611dfe5239f69cb60c4ad20509aae3065d03ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:25 +0000
Subject: [PATCH 006/154] fix: bprintf %S and %u accessed memory beyond a full
 fixed size buffer

---
 src/util/bytes.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/util/bytes.c b/src/util/bytes.c
index 67c64b1..c5dd94b 100644
--- a/src/util/bytes.c
+++ b/src/util/bytes.c
@@ -360,7 +360,14 @@ static inline void buffer_add_chars_escaped(buffer_t* buffer, const char* data)
     }
   }
 
-  buffer_grow(buffer, buffer->data.len + len + escaped_len + 1);
+  size_t required = (size_t) buffer->data.len + len + escaped_len + 1;
+  if (buffer_grow(buffer, required) < required) { // fixed buffer without enough space for the escaped string
+    buffer_t tmp = {0};
+    buffer_add_chars_escaped(&tmp, data);
+    buffer_append(buffer, tmp.data);
+    buffer_free(&tmp);
+    return;
+  }
 
   // Fast path: if no escaping needed, use buffer_append
   if (escaped_len == 0) {
@@ -650,7 +657,7 @@ char* bprintf(buffer_t* buf, const char* fmt, ...) {
         case 'u': { // write bytes as hex without leading zeros
           uint32_t len = buf->data.len;
           buffer_add_hex_chars(buf, bytes_remove_leading_zeros(va_arg(args, bytes_t)));
-          if (buf->data.data[len] == '0')
+          if (buf->data.len > len && buf->data.data[len] == '0')
             buffer_splice(buf, len, 1, bytes(NULL, 0));
           break;
         }
-- 
2.43.0


From 7daa1bbcf9c30528655054a821776aa28346a28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:41 +0000
Subject: [PATCH 007/154] fix: hex_to_bytes wrote to empty buffers and accepted
 an invalid leading digit

---
 src/util/bytes.c | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/util/bytes.c b/src/util/bytes.c
index c5dd94b..79ff54d 100644
--- a/src/util/bytes.c
+++ b/src/util/bytes.c
@@ -290,20 +290,23 @@ static inline int hexchar_to_int(char c) {
 }
 
 int hex_to_bytes(const char* hexstring, int len, bytes_t buffer) {
-  size_t hex_len = len == -1 ? strlen(hexstring) : (size_t) len;
   if (!hexstring || !buffer.data) return -1;
+  size_t hex_len = len == -1 ? strlen(hexstring) : (size_t) len;
 
   // Handle odd-length hex strings by padding with leading zero
   int dst_offset = hex_len % 2;
   // Skip optional "0x" prefix
-  int src_offset = (hexstring[0] == '0' && hexstring[1] == 'x') ? 2 : 0;
-
-  // Handle leading nibble for odd-length strings
-  if (dst_offset) buffer.data[0] = hexchar_to_int(hexstring[src_offset++]);
+  int src_offset = (hex_len > 1 && hexstring[0] == '0' && hexstring[1] == 'x') ? 2 : 0;
 
   // Validate buffer has enough space for the conversion
-  if ((hex_len - src_offset) % 2 || (buffer.len - dst_offset) < (hex_len - src_offset) / 2)
-    return -1;
+  if (buffer.len < (hex_len - src_offset + 1) / 2) return -1;
+
+  // Handle leading nibble for odd-length strings
+  if (dst_offset) {
+    int nibble = hexchar_to_int(hexstring[src_offset++]);
+    if (nibble == -1) return -1;
+    buffer.data[0] = nibble;
+  }
 
   // Convert pairs of hex characters to bytes
   for (size_t i = src_offset; i < hex_len; i += 2) {
-- 
2.43.0


From 28990392a1aa76c8e1bb96ce97355db9c4e71106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:14 +0000
Subject: [PATCH 008/154] fix: json_equal_string never matched the string it
 was compared with

---
 src/util/json.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/util/json.c b/src/util/json.c
index 7810e71..f87b66c 100644
--- a/src/util/json.c
+++ b/src/util/json.c
@@ -407,7 +407,6 @@ char* json_new_string(json_t parent) {
 
 bool json_equal_string(json_t value, const char* str) {
   if (!str || !value.start) return false;
-  int len = strlen(str);
-  if (len < 2) return false; // Prevent underflow
-  return value.type == JSON_TYPE_STRING && value.len == len - 2 && memcmp(value.start + 1, str, value.len - 2) == 0;
+  size_t len = strlen(str);
+  return value.type == JSON_TYPE_STRING && value.len == len + 2 && memcmp(value.start + 1, str, len) == 0;
 }
-- 
2.43.0


From c2e0f38fe1a02ba888da06eec61f6cd9023ff81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:14 +0000
Subject: [PATCH 009/154] fix: json_as_string and buffer_add_json wrote the
 terminator behind a full fixed size buffer

---
 src/util/json.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/util/json.c b/src/util/json.c
index f87b66c..80d249f 100644
--- a/src/util/json.c
+++ b/src/util/json.c
@@ -333,6 +333,15 @@ json_t json_dup(json_t json) {
   return new_json;
 }
 
+// adds the NULL-terminator (not counted in the length), dropping the last character if a fixed buffer is already full.
+static void terminate_string(buffer_t* buffer) {
+  if (buffer_grow(buffer, buffer->data.len + 1) <= buffer->data.len) {
+    if (!buffer->data.len) return;
+    buffer->data.len--;
+  }
+  buffer->data.data[buffer->data.len] = '\0';
+}
+
 char* json_as_string(json_t value, buffer_t* buffer) {
   buffer_t tmp = {0};
   if (!buffer) buffer = &tmp;
@@ -340,13 +349,13 @@ char* json_as_string(json_t value, buffer_t* buffer) {
   buffer_grow(buffer, value.len + 1);
   if (value.type == JSON_TYPE_STRING) {
     buffer_append(buffer, bytes((uint8_t*) value.start + 1, value.len - 2));
-    buffer->data.data[buffer->data.len] = '\0';
+    terminate_string(buffer);
     buffer->data.len++;
     json_deescape_string(buffer);
   }
   else {
     buffer_append(buffer, bytes((uint8_t*) value.start, value.len));
-    buffer->data.data[buffer->data.len] = '\0';
+    terminate_string(buffer);
   }
   return (char*) buffer->data.data;
 }
@@ -398,7 +407,7 @@ bool json_as_null(json_t value) {
 void buffer_add_json(buffer_t* buffer, json_t data) {
   buffer_grow(buffer, buffer->data.len + data.len + 1);
   buffer_append(buffer, bytes((uint8_t*) data.start, data.len));
-  buffer->data.data[buffer->data.len] = 0;
+  terminate_string(buffer);
 }
 
 char* json_new_string(json_t parent) {
-- 
2.43.0


From 5126bc6b8d348c9a1d8c96f8b161d6bf3552049a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:14 +0000
Subject: [PATCH 010/154] fix: json_as_uint64 corrupted the stack for hex
 values of more than 8 bytes and cut 20 digit numbers

---
 src/util/json.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/util/json.c b/src/util/json.c
index 80d249f..9f2488e 100644
--- a/src/util/json.c
+++ b/src/util/json.c
@@ -361,14 +361,13 @@ char* json_as_string(json_t value, buffer_t* buffer) {
 }
 
 uint64_t json_as_uint64(json_t value) {
-  uint8_t  tmp[20] = {0};
+  uint8_t  tmp[32] = {0};
   buffer_t buffer  = stack_buffer(tmp);
   if (value.len > 4 && value.start && value.start[1] == '0' && value.start[2] == 'x') {
-    int len = hex_to_bytes(value.start + 1, value.len - 2, bytes(tmp, 20));
+    int len = hex_to_bytes(value.start + 1, value.len - 2, bytes(tmp, sizeof(tmp)));
     if (len == -1) return 0;
-    memmove(tmp + 8 - len, tmp, len);
-    memset(tmp, 0, 8 - len);
-    return uint64_from_be(tmp);
+    if (len > 8) return bytes_all_zero(bytes(tmp, len - 8)) ? uint64_from_be(tmp + len - 8) : 0; // does not fit
+    return bytes_as_be(bytes(tmp, len));
   }
   return (uint64_t) strtoull(json_as_string(value, &buffer), NULL, 10);
 }
-- 
2.43.0


From 3d6cd433c575b46b2e2bb37137ba91a37197344e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:14 +0000
Subject: [PATCH 011/154] fix: json_as_bytes and json_to_bytes wrote past fixed
 size targets

---
 src/util/json.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/util/json.c b/src/util/json.c
index 9f2488e..3b30884 100644
--- a/src/util/json.c
+++ b/src/util/json.c
@@ -380,15 +380,14 @@ bytes_t json_as_bytes(json_t value, buffer_t* buffer) {
   buffer_t tmp = {0};
   if (!buffer) buffer = &tmp;
   if (value.type == JSON_TYPE_NUMBER) {
+    if (buffer_grow(buffer, 8) < 8) return NULL_BYTES;
     buffer->data.len = 8;
-    buffer_grow(buffer, 8);
     uint64_to_be(buffer->data.data, json_as_uint64(value));
     return buffer->data;
   }
   if (value.type != JSON_TYPE_STRING) return NULL_BYTES;
 
-  buffer_grow(buffer, value.len / 2);
-  buffer->data.len = value.len;
+  buffer->data.len = (uint32_t) buffer_grow(buffer, value.len / 2);
   int len          = hex_to_bytes(value.start + 1, value.len - 2, buffer->data);
   if (len == -1) return NULL_BYTES;
   buffer->data.len = (uint32_t) len;
-- 
2.43.0


From 28454ea4c49291d310d1bce63493523a20650218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:14 +0000
Subject: [PATCH 012/154] fix: json_get_path copied long path elements into a
 fixed stack buffer

---
 src/util/json.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/json.c b/src/util/json.c
index 3b30884..bd266ed 100644
--- a/src/util/json.c
+++ b/src/util/json.c
@@ -202,6 +202,7 @@ json_t json_get_path(json_t parent, const char* path) {
   const char* next_idx  = strchr(path, '[');
   const char* next      = (next_prop && next_idx) ? (next_prop < next_idx ? next_prop : next_idx) : (next_prop ? next_prop : next_idx);
   if (!next) return json_get(parent, path);
+  if ((size_t) (next - path) >= sizeof(tmp)) return JSON_NOT_FOUND(parent.start);
   strncpy(tmp, path, next - path);
   tmp[next - path] = '\0';
   json_t value     = json_get(parent, tmp);
@@ -209,7 +210,7 @@ json_t json_get_path(json_t parent, const char* path) {
   if (next && strlen(next + 1) > 0) {
     if (*next == '[') {
       const char* end_idx = strchr(next + 1, ']');
-      if (!end_idx) return JSON_INVALID(parent.start);
+      if (!end_idx || (size_t) (end_idx - next - 1) >= sizeof(tmp)) return JSON_INVALID(parent.start);
       strncpy(tmp, next + 1, end_idx - next - 1);
       tmp[end_idx - next - 1] = '\0';
       json_t item             = json_at(value, atoi(tmp));
-- 
2.43.0


From 886e7d1f2b8bb19a2205639fd7d0664656e5e610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:14 +0000
Subject: [PATCH 013/154] fix: JSON numbers with a positive exponent sign were
 cut

---
 src/util/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/json.c b/src/util/json.c
index bd266ed..4f8b8f4 100644
--- a/src/util/json.c
+++ b/src/util/json.c
@@ -87,7 +87,7 @@ static const char* find_end(const char* pos, char start, char end) {
 static json_t parse_number(const char* start) {
   json_t json = json(JSON_TYPE_NUMBER, start, 0);
   for (; *start; start++) {
-    if (isdigit((unsigned char)*start) || *start == '.' || *start == '-' || *start == 'e' || *start == 'E')
+    if (isdigit((unsigned char)*start) || *start == '.' || *start == '-' || *start == '+' || *start == 'e' || *start == 'E')
       json.len++;
     else
       break;
-- 
2.43.0


From 4e762d33f6631886e83bb97743485674036a7313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:38 +0000
Subject: [PATCH 014/154] fix: JSON surrogate pairs were decoded to two invalid
 UTF-8 sequences

---
 src/util/json.c | 46 ++++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/src/util/json.c b/src/util/json.c
index 4f8b8f4..61066f2 100644
--- a/src/util/json.c
+++ b/src/util/json.c
@@ -226,6 +226,17 @@ json_t json_get_path(json_t parent, const char* path) {
   return value;
 }
 
+static bool parse_unicode_digits(const uint8_t* digits, uint32_t* codepoint) {
+  uint32_t value = 0;
+  for (int j = 0; j < 4; j++) {
+    uint8_t hex_char = digits[j];
+    if (!isxdigit(hex_char)) return false;
+    value = (value << 4) | (uint32_t) (isdigit(hex_char) ? hex_char - '0' : tolower(hex_char) - 'a' + 10);
+  }
+  *codepoint = value;
+  return true;
+}
+
 static void json_deescape_string(buffer_t* buffer) {
   if (!buffer) return;
   for (size_t i = 0; i < buffer->data.len; i++) {
@@ -271,22 +282,17 @@ static void json_deescape_string(buffer_t* buffer) {
           // Unicode escape sequence: \uXXXX
           if (i + 5 < buffer->data.len) {
             // Parse the 4 hex digits
-            uint16_t codepoint = 0;
-            bool     valid     = true;
-            for (int j = 0; j < 4; j++) {
-              uint8_t hex_char = buffer->data.data[i + 2 + j];
-              uint8_t hex_val  = 0;
-              if (hex_char >= '0' && hex_char <= '9')
-                hex_val = hex_char - '0';
-              else if (hex_char >= 'a' && hex_char <= 'f')
-                hex_val = hex_char - 'a' + 10;
-              else if (hex_char >= 'A' && hex_char <= 'F')
-                hex_val = hex_char - 'A' + 10;
-              else {
-                valid = false;
-                break;
+            uint32_t codepoint  = 0;
+            uint32_t escape_len = 6;
+            bool     valid      = parse_unicode_digits(buffer->data.data + i + 2, &codepoint);
+
+            if (valid && codepoint >= 0xD800 && codepoint <= 0xDBFF && i + 11 < buffer->data.len && buffer->data.data[i + 6] == '\\' && buffer->data.data[i + 7] == 'u') {
+              // a high surrogate followed by a low surrogate is one codepoint
+              uint32_t low = 0;
+              if (parse_unicode_digits(buffer->data.data + i + 8, &low) && low >= 0xDC00 && low <= 0xDFFF) {
+                codepoint  = 0x10000 + ((codepoint - 0xD800) << 10) + (low - 0xDC00);
+                escape_len = 12;
               }
-              codepoint = (codepoint << 4) | hex_val;
             }
 
             if (valid) {
@@ -302,6 +308,14 @@ static void json_deescape_string(buffer_t* buffer) {
                 replacement[1]  = 0x80 | (codepoint & 0x3F);
                 replacement_len = 2;
               }
+              else if (codepoint > 0xFFFF) {
+                // 4-byte UTF-8
+                replacement[0]  = 0xF0 | ((codepoint >> 18) & 0x07);
+                replacement[1]  = 0x80 | ((codepoint >> 12) & 0x3F);
+                replacement[2]  = 0x80 | ((codepoint >> 6) & 0x3F);
+                replacement[3]  = 0x80 | (codepoint & 0x3F);
+                replacement_len = 4;
+              }
               else {
                 // 3-byte UTF-8 (covers BMP)
                 replacement[0]  = 0xE0 | ((codepoint >> 12) & 0x0F);
@@ -309,7 +323,7 @@ static void json_deescape_string(buffer_t* buffer) {
                 replacement[2]  = 0x80 | (codepoint & 0x3F);
                 replacement_len = 3;
               }
-              buffer_splice(buffer, i, 6, bytes(replacement, replacement_len));
+              buffer_splice(buffer, i, escape_len, bytes(replacement, replacement_len));
               i += replacement_len - 1;
               continue;
             }
-- 
2.43.0


From b1acf398d9d4e822881f8c1d74aa98ffd67e3100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:38 +0000
Subject: [PATCH 015/154] fix: json_validate accepted hex strings with a wrong
 prefix or more than 32 bytes

---
 src/util/json_validate.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/json_validate.c b/src/util/json_validate.c
index 68a3456..1899b95 100644
--- a/src/util/json_validate.c
+++ b/src/util/json_validate.c
@@ -155,7 +155,7 @@ static const char* check_object(json_t ob, const char* def, const char* error_pr
 
 static const char* check_hex(json_t val, int len, bool isuint, const char* error_prefix) {
   if (val.type != JSON_TYPE_STRING) ERROR("%sExpected hex string", error_prefix);
-  if (val.start[1] != '0' && val.start[2] != 'x') ERROR("%sExpected hex prefixed (0x) string", error_prefix);
+  if (val.len < 4 || val.start[1] != '0' || val.start[2] != 'x') ERROR("%sExpected hex prefixed (0x) string", error_prefix);
   int l = 0;
   for (int i = 3; i < val.len - 1; i++, l++) {
     if (!isxdigit((unsigned char)val.start[i])) ERROR("%sExpected hex string", error_prefix);
@@ -164,8 +164,8 @@ static const char* check_hex(json_t val, int len, bool isuint, const char* error
   if (len > 0 && (l % 2 || l / 2 != len)) ERROR("%sExpected hex string with fixed size (%d) but got %d bytes", error_prefix, len, l / 2);
   if (isuint && (l == 0 || (val.start[3] == '0' && l > 1)))
     ERROR("%sno leading zeros allowed for uint", error_prefix);
-  if (isuint && l / 2 > 32) ERROR("%sexpected uint with max 32 bytes length, but got %d bytes ", error_prefix, l / 2);
-  if (len < 0 && l / 2 > (-len)) ERROR("%sexpected uint with max %d bytes length, but got %d bytes ", error_prefix, -len, l / 2);
+  if (isuint && l > 64) ERROR("%sexpected uint with max 32 bytes length, but got %d bytes ", error_prefix, l / 2);
+  if (len < 0 && l > 2 * (-len)) ERROR("%sexpected uint with max %d bytes length, but got %d bytes ", error_prefix, -len, l / 2);
   return NULL;
 }
 
-- 
2.43.0


From 1166884225019b4ea6d9235e48a146d4fe4c51af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:38 +0000
Subject: [PATCH 016/154] fix: json_validate accepted any string as suint

---
 src/util/json_validate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/json_validate.c b/src/util/json_validate.c
index 1899b95..97251a4 100644
--- a/src/util/json_validate.c
+++ b/src/util/json_validate.c
@@ -194,7 +194,7 @@ const char* json_validate(json_t val, const char* def, const char* error_prefix)
   if (strncmp(def, "hex32", 5) == 0) return check_hex(val, -32, false, error_prefix);
   if (strncmp(def, "bytes", 5) == 0) return check_hex(val, 0, false, error_prefix);
   if (strncmp(def, "uint", 4) == 0) return val.type == JSON_TYPE_NUMBER ? NULL : strdup("Expected uint");
-  if (strncmp(def, "suint", 5) == 0) return val.type == JSON_TYPE_STRING ? NULL : strdup("Expected suint");
+  if (strncmp(def, "suint", 5) == 0) return check_suint(val, error_prefix);
   if (strncmp(def, "bool", 4) == 0) return val.type == JSON_TYPE_BOOLEAN ? NULL : strdup("Expected boolean");
   if (strncmp(def, "block", 5) == 0) return check_block(val, error_prefix);
   ERROR("%sUnknown type %s", error_prefix ? error_prefix : "", def);
-- 
2.43.0


From 6d9c2076b7cfb818d36b6d971782c5b5b91f35c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:43 +0000
Subject: [PATCH 017/154] fix: ssz_from_json returned wrong lengths for
 booleans, bit vectors and invalid hex values

---
 src/util/ssz_builder.c | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/util/ssz_builder.c b/src/util/ssz_builder.c
index 62bb05f..0f7b238 100644
--- a/src/util/ssz_builder.c
+++ b/src/util/ssz_builder.c
@@ -299,8 +299,7 @@ ssz_ob_t ssz_from_json(json_t json, const ssz_def_t* def, c4_state_t* state) {
     }
     case SSZ_TYPE_BOOLEAN: {
       // Boolean: convert JSON boolean to 0 or 1
-      buffer_grow(&buf.fixed, 1);
-      buf.fixed.data.data[0] = json_as_bool(json) ? 1 : 0;
+      ssz_add_uint8(&buf, json_as_bool(json) ? 1 : 0);
       return (ssz_ob_t) {.def = def, .bytes = buf.fixed.data};
     }
     case SSZ_TYPE_NONE: {
@@ -309,7 +308,8 @@ ssz_ob_t ssz_from_json(json_t json, const ssz_def_t* def, c4_state_t* state) {
     case SSZ_TYPE_VECTOR: {
       // Vector: convert JSON array to fixed-length SSZ vector
       if (def->def.vector.type->type == SSZ_TYPE_UINT && def->def.vector.type->def.uint.len == 1) {
-        bytes_t bytes = json_as_bytes(json, &buf.fixed);
+        bytes_t bytes      = json_as_bytes(json, &buf.fixed);
+        buf.fixed.data.len = bytes.len; // not set if the value could not be decoded
         if (bytes.len > def->def.vector.len)
           buf.fixed.data.len = def->def.vector.len;
         else if (bytes.len < def->def.vector.len)
@@ -327,8 +327,10 @@ ssz_ob_t ssz_from_json(json_t json, const ssz_def_t* def, c4_state_t* state) {
     }
     case SSZ_TYPE_LIST: {
       // List: convert JSON array to variable-length SSZ list
-      if (def->def.vector.type->type == SSZ_TYPE_UINT && def->def.vector.type->def.uint.len == 1)
-        return (ssz_ob_t) {.def = def, .bytes = json_as_bytes(json, &buf.fixed)};
+      if (def->def.vector.type->type == SSZ_TYPE_UINT && def->def.vector.type->def.uint.len == 1) {
+        buf.fixed.data.len = json_as_bytes(json, &buf.fixed).len;
+        return (ssz_ob_t) {.def = def, .bytes = buf.fixed.data};
+      }
       uint32_t len = json_len(json);
       if (ssz_is_dynamic(def->def.vector.type))
         for (uint32_t i = 0; i < len; i++) {
@@ -348,15 +350,18 @@ ssz_ob_t ssz_from_json(json_t json, const ssz_def_t* def, c4_state_t* state) {
       return ssz_builder_to_bytes(&buf);
     }
     case SSZ_TYPE_BIT_VECTOR: {
-      bytes_t bytes = json_as_bytes(json, &buf.fixed);
-      if (bytes.len > def->def.vector.len / 8)
-        buf.fixed.data.len = def->def.vector.len / 8;
-      else if (bytes.len < def->def.vector.len / 8)
-        buffer_append(&buf.fixed, bytes(NULL, def->def.vector.len / 8 - bytes.len));
+      uint32_t vector_len = (def->def.vector.len + 7) / 8;
+      bytes_t  bytes      = json_as_bytes(json, &buf.fixed);
+      buf.fixed.data.len  = bytes.len; // not set if the value could not be decoded
+      if (bytes.len > vector_len)
+        buf.fixed.data.len = vector_len;
+      else if (bytes.len < vector_len)
+        buffer_append(&buf.fixed, bytes(NULL, vector_len - bytes.len));
       return (ssz_ob_t) {.def = def, .bytes = buf.fixed.data};
     }
     case SSZ_TYPE_BIT_LIST:
-      return (ssz_ob_t) {.def = def, .bytes = json_as_bytes(json, &buf.fixed)};
+      buf.fixed.data.len = json_as_bytes(json, &buf.fixed).len;
+      return (ssz_ob_t) {.def = def, .bytes = buf.fixed.data};
     default:
       return (ssz_ob_t) {.def = def, .bytes = {0}};
   }
-- 
2.43.0


From e6e6a75e4df5aac465e7e28a3f9cfd2a06126bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:43 +0000
Subject: [PATCH 018/154] fix: ssz_add_uint256 wrote past the buffer for values
 of more than 32 bytes

---
 src/util/ssz_builder.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/ssz_builder.c b/src/util/ssz_builder.c
index 0f7b238..8d74cd2 100644
--- a/src/util/ssz_builder.c
+++ b/src/util/ssz_builder.c
@@ -156,6 +156,7 @@ void ssz_add_bytes(ssz_builder_t* buffer, const char* name, bytes_t data) {
 }
 
 void ssz_add_uint256(ssz_builder_t* buffer, bytes_t data) {
+  if (data.len > 32) data = bytes(data.data + data.len - 32, 32);
   buffer_grow(&buffer->fixed, buffer->fixed.data.len + 32);
   uint8_t* ptr = buffer->fixed.data.data + buffer->fixed.data.len;
   for (int i = 0; i < data.len; i++, ptr++) {
-- 
2.43.0


From 528d5abc716a9aa97778578ca4ea13e1ac53062c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:43 +0000
Subject: [PATCH 019/154] fix: ssz_is_valid accepted containers without their
 fixed part, offset gaps and malformed bitfields

---
 src/util/ssz.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/util/ssz.c b/src/util/ssz.c
index f47e727..356fc8f 100644
--- a/src/util/ssz.c
+++ b/src/util/ssz.c
@@ -143,12 +143,13 @@ bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
         if (ob.bytes.len < SSZ_OFFSET_SIZE) THROW_INVALID("Invalid bytelength for list");
         uint32_t first_offset = uint32_from_le(ob.bytes.data);
         // First offset must be aligned and within bounds
-        if (first_offset >= ob.bytes.len || first_offset < SSZ_OFFSET_SIZE || first_offset % SSZ_OFFSET_SIZE != 0)
+        if (first_offset > ob.bytes.len || first_offset < SSZ_OFFSET_SIZE || first_offset % SSZ_OFFSET_SIZE != 0)
           THROW_INVALID("Invalid first offset for list");
+        if (first_offset / SSZ_OFFSET_SIZE > ob.def->def.vector.len) THROW_INVALID("Too many elements for list");
         uint32_t offset = first_offset;
         for (int i = SSZ_OFFSET_SIZE; i < first_offset; i += SSZ_OFFSET_SIZE) {
           uint32_t next_offset = uint32_from_le(ob.bytes.data + i);
-          if (next_offset >= ob.bytes.len || next_offset < offset) THROW_INVALID("Invalid  offset for list");
+          if (next_offset > ob.bytes.len || next_offset < offset) THROW_INVALID("Invalid  offset for list");
           if (recursive && !ssz_is_valid(ssz_ob(*ob.def->def.vector.type, bytes(ob.bytes.data + offset, next_offset - offset)), recursive, state)) return false;
           offset = next_offset;
         }
@@ -167,17 +168,22 @@ bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
       return true;
     }
     case SSZ_TYPE_BIT_VECTOR:
-      // Bit vector length must match definition exactly
-      RETURN_VALID_IF(ob.bytes.len == (ob.def->def.vector.len + 7) >> 3, "Invalid length for bit vector");
+      // Bit vector length must match definition exactly and the padding bits must not be set
+      if (ob.bytes.len != (ob.def->def.vector.len + 7) >> 3) THROW_INVALID("Invalid length for bit vector");
+      RETURN_VALID_IF(ob.def->def.vector.len % 8 == 0 || (ob.bytes.data[ob.bytes.len - 1] >> (ob.def->def.vector.len % 8)) == 0, "Invalid padding for bit vector");
     case SSZ_TYPE_BIT_LIST:
-      // Bit list length can be up to max length
-      RETURN_VALID_IF(ob.bytes.len <= (ob.def->def.vector.len + 7) >> 3, "Invalid length for bit list");
+      // Bit list must end with the byte containing the delimiter bit and can have up to max length bits
+      if (ob.bytes.len == 0 || ob.bytes.data[ob.bytes.len - 1] == 0) THROW_INVALID("Missing delimiter for bit list");
+      RETURN_VALID_IF(ssz_len(ob) <= ob.def->def.vector.len, "Invalid length for bit list");
     case SSZ_TYPE_UINT:
       // Uint length must match definition
       RETURN_VALID_IF(ob.bytes.len == ob.def->def.uint.len, "Invalid length for uint");
     case SSZ_TYPE_CONTAINER: {
       // Container with mixed fixed/dynamic fields
-      if (ssz_is_dynamic(ob.def) ? (ob.bytes.len < ssz_fixed_length(ob.def)) : (ob.bytes.len != ssz_fixed_length(ob.def))) THROW_INVALID("Invalid length for container");
+      size_t fixed_part = 0;
+      for (int i = 0; i < ob.def->def.container.len; i++)
+        fixed_part += ssz_fixed_length(ob.def->def.container.elements + i);
+      if (ssz_is_dynamic(ob.def) ? (ob.bytes.len < fixed_part) : (ob.bytes.len != fixed_part)) THROW_INVALID("Invalid length for container");
       if (recursive) {
         ssz_ob_t last_ob     = {0};
         uint32_t last_offset = 0;
@@ -186,8 +192,8 @@ bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
           const ssz_def_t* def = ob.def->def.container.elements + i;
           if (ssz_is_dynamic(def)) {
             uint32_t offset = uint32_from_le(ob.bytes.data + pos);
-            // Validate offset: must be within bounds, after fixed portion, and monotonically increasing
-            if (offset > ob.bytes.len || offset < pos + SSZ_OFFSET_SIZE || (last_offset > 0 && last_offset > offset))
+            // Validate offset: must be within bounds, the first one directly after the fixed portion, and monotonically increasing
+            if (offset > ob.bytes.len || (last_ob.def ? last_offset > offset : offset != fixed_part))
               THROW_INVALID("Invalid offset for container");
             if (last_ob.def) {
               last_ob.bytes = bytes(ob.bytes.data + last_offset, offset - last_offset);
@@ -213,6 +219,7 @@ bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
     case SSZ_TYPE_UNION:
       // Union: first byte is selector, remaining bytes are the selected variant
       if (ob.bytes.len == 0 || ob.bytes.data[0] >= ob.def->def.container.len) THROW_INVALID("Invalid selector for union");
+      if (ob.def->def.container.elements[ob.bytes.data[0]].type == SSZ_TYPE_NONE && ob.bytes.len != 1) THROW_INVALID("Invalid length for empty union");
       if (recursive && ob.def->def.container.elements[ob.bytes.data[0]].type != SSZ_TYPE_NONE && !ssz_is_valid(ssz_ob(ob.def->def.container.elements[ob.bytes.data[0]], bytes(ob.bytes.data + 1, ob.bytes.len - 1)), recursive, state)) return false;
       return true;
     default:
-- 
2.43.0


From c780bac93b12a54813abf71e00e241d68421234f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:43 +0000
Subject: [PATCH 020/154] fix: merkle proofs missed witnesses of objects with a
 single leaf, bit lists and list lengths

---
 src/util/ssz_merkle.c | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/util/ssz_merkle.c b/src/util/ssz_merkle.c
index 070c8d2..ca6fc6e 100644
--- a/src/util/ssz_merkle.c
+++ b/src/util/ssz_merkle.c
@@ -357,6 +357,13 @@ static void set_leaf(ssz_ob_t ob, int index, uint8_t* out, merkle_ctx_t* ctx) {
   }
 }
 
+// stores the value of a witness at its position in the proof
+static void add_witness(merkle_ctx_t* ctx, int pos, uint8_t* value) {
+  buffer_grow(ctx->proof->proof, (ctx->proof->witnesses->data.len / sizeof(gindex_t)) * 32);
+  ctx->proof->proof->data.len = ctx->proof->witnesses->data.len / sizeof(gindex_t) * 32;
+  memcpy(ctx->proof->proof->data.data + pos * 32, value, 32);
+}
+
 /**
  * Recursively computes a node in the Merkle tree.
  *
@@ -413,11 +420,7 @@ static void merkle_hash(merkle_ctx_t* ctx, int index, int depth, uint8_t* out) {
                    gindex, index, depth, ctx->root_gindex, pos >= 0 ? "X" : " ", bytes(out, 32));
     //    fprintf(stderr, "gindex: %llu (i: %d  d:%d  r:%llu) %s", gindex, index, depth, ctx->root_gindex, pos >= 0 ? "X" : " ");
     //    print_hex(stderr, bytes(out, 32), " : ", "\n");
-    if (pos >= 0) {
-      buffer_grow(ctx->proof->proof, (ctx->proof->witnesses->data.len / sizeof(gindex_t)) * 32);
-      ctx->proof->proof->data.len = ctx->proof->witnesses->data.len / sizeof(gindex_t) * 32;
-      memcpy(ctx->proof->proof->data.data + pos * 32, out, 32);
-    }
+    if (pos >= 0) add_witness(ctx, pos, out);
   }
 }
 
@@ -443,8 +446,7 @@ static void mix_in_length(uint8_t* root, uint32_t length, merkle_ctx_t* ctx) {
 
   if (ctx && ctx->proof) {
     int pos = gindex_indexOf(ctx->proof->witnesses, ctx->root_gindex + 1);
-    if (pos >= 0 && ctx->proof->proof->data.data)
-      memcpy(ctx->proof->proof->data.data + pos * 32, length_bytes, 32);
+    if (pos >= 0) add_witness(ctx, pos, length_bytes);
   }
 }
 
@@ -464,13 +466,10 @@ static void hash_tree_root(ssz_ob_t ob, uint8_t* out, merkle_ctx_t* parent) {
   calc_leafes(&ctx, ob);
   if (parent) {
     ctx.proof       = parent->proof;
-    ctx.root_gindex = ob.def->type == SSZ_TYPE_LIST ? parent->last_gindex * 2 : parent->last_gindex;
+    ctx.root_gindex = ob.def->type == SSZ_TYPE_LIST || ob.def->type == SSZ_TYPE_BIT_LIST ? parent->last_gindex * 2 : parent->last_gindex;
   }
 
-  if (ctx.num_leafes == 1)
-    set_leaf(ob, 0, out, NULL);
-  else
-    merkle_hash(&ctx, 0, 0, out);
+  merkle_hash(&ctx, 0, 0, out);
 
   // Mix in length for variable-length types (lists and bit lists)
   if (ob.def->type == SSZ_TYPE_LIST || ob.def->type == SSZ_TYPE_BIT_LIST)
-- 
2.43.0


From f173c2a7ee196effd293c6e5f9f2f4a8dabb58fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:43 +0000
Subject: [PATCH 021/154] fix: ssz_add_gindex cut gindexes to 32 bit

---
 src/util/ssz_merkle.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/util/ssz_merkle.c b/src/util/ssz_merkle.c
index ca6fc6e..b98c780 100644
--- a/src/util/ssz_merkle.c
+++ b/src/util/ssz_merkle.c
@@ -629,10 +629,11 @@ void ssz_verify_single_merkle_proof(bytes_t proof_data, bytes32_t leaf, gindex_t
 }
 
 gindex_t ssz_add_gindex(gindex_t gindex1, gindex_t gindex2) {
-  uint32_t depth = log2_ceil((uint32_t) gindex2 + 1) - 1;
-  if (depth > 63) {
-    log_error("gindex depth is too large: %u", depth);
+  if (gindex2 == 0) {
+    log_error("invalid gindex 0");
     return 0;
   }
-  return (gindex1 << depth) | (gindex2 & ((1 << depth) - 1));
+  uint32_t depth = 0;
+  while (gindex2 >> depth > 1) depth++;
+  return (gindex1 << depth) | (gindex2 & ((((gindex_t) 1) << depth) - 1));
 }
-- 
2.43.0


From 44b6e4cb194dc01aff549d7882259fe6322272da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:40 +0000
Subject: [PATCH 022/154] fix: merkle proofs within unused parts of a list
 contained uninitialized witnesses

---
 src/util/ssz_merkle.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/util/ssz_merkle.c b/src/util/ssz_merkle.c
index b98c780..52cc021 100644
--- a/src/util/ssz_merkle.c
+++ b/src/util/ssz_merkle.c
@@ -364,6 +364,22 @@ static void add_witness(merkle_ctx_t* ctx, int pos, uint8_t* value) {
   memcpy(ctx->proof->proof->data.data + pos * 32, value, 32);
 }
 
+#ifdef PRECOMPILE_ZERO_HASHES
+// checks if the proof needs a witness below the given (global) gindex
+static bool has_witness_below(merkle_ctx_t* ctx, gindex_t gindex) {
+  if (!ctx->proof) return false;
+  int       len       = ctx->proof->witnesses->data.len / sizeof(gindex_t);
+  gindex_t* witnesses = (gindex_t*) ctx->proof->witnesses->data.data;
+  for (int i = 0; i < len; i++) {
+    gindex_t witness = witnesses[i];
+    if (witness <= gindex) continue;
+    while (witness > gindex) witness >>= 1;
+    if (witness == gindex) return true;
+  }
+  return false;
+}
+#endif
+
 /**
  * Recursively computes a node in the Merkle tree.
  *
@@ -396,7 +412,7 @@ static void merkle_hash(merkle_ctx_t* ctx, int index, int depth, uint8_t* out) {
 
     int gindex_subtree_left_leaf = gindex << subtree_depth;                          // gindex of first leaf of the current subtree
     int gindex_last_used_leaf    = (1 << ctx->max_depth) + ctx->num_used_leafes - 1; // gindex of last leaf of the used leafes
-    if (gindex_last_used_leaf < gindex_subtree_left_leaf && subtree_depth < MAX_DEPTH)
+    if (gindex_last_used_leaf < gindex_subtree_left_leaf && subtree_depth < MAX_DEPTH && !has_witness_below(ctx, ssz_add_gindex(ctx->root_gindex, gindex)))
       cached_zero_hash(subtree_depth - 1, out);
     else {
 #endif
-- 
2.43.0


From f3a4c9389168bfce8976f5e8ffffee10de196718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:10 +0000
Subject: [PATCH 023/154] fix: chunk offset overflow for proofs behind the end
 of large lists

---
 src/util/ssz_merkle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/ssz_merkle.c b/src/util/ssz_merkle.c
index 52cc021..0d231d0 100644
--- a/src/util/ssz_merkle.c
+++ b/src/util/ssz_merkle.c
@@ -339,8 +339,8 @@ static void set_leaf(ssz_ob_t ob, int index, uint8_t* out, merkle_ctx_t* ctx) {
         return;
       }
 
-      int offset = index * SSZ_BYTES_PER_CHUNK;
-      int len    = ob.bytes.len - offset;
+      int64_t offset = (int64_t) index * SSZ_BYTES_PER_CHUNK;
+      int64_t len    = (int64_t) ob.bytes.len - offset;
       if (len > SSZ_BYTES_PER_CHUNK) len = SSZ_BYTES_PER_CHUNK;
       if (offset < ob.bytes.len)
         memcpy(out, ob.bytes.data + offset, len);
-- 
2.43.0


From 1182f241aba2f0d569bd0d335a035a981582c037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:12 +0000
Subject: [PATCH 024/154] fix: patricia root and proof of tries with nodes
 smaller than 32 bytes

---
 src/chains/eth/verifier/patricia_trie.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/verifier/patricia_trie.c b/src/chains/eth/verifier/patricia_trie.c
index f5f9c3a..c466f57 100644
--- a/src/chains/eth/verifier/patricia_trie.c
+++ b/src/chains/eth/verifier/patricia_trie.c
@@ -358,9 +358,10 @@ INTERNAL ssz_ob_t patricia_create_merkle_proof(node_t* root, bytes_t path) {
   builder.def           = &def;
   while (root && offset <= nibbles.len) {
     // add the node
-    if (root->hash_len >= 32)
+    if (root->hash_len >= 32 || !root->parent) { // embedded nodes are part of their parent, but the root is always included
       node_update_hash(root, false, &builder);
-    len++;
+      len++;
+    }
 
     if (offset == nibbles.len) break;
     if (root->type == NODE_TYPE_BRANCH) {
@@ -373,7 +374,8 @@ INTERNAL ssz_ob_t patricia_create_merkle_proof(node_t* root, bytes_t path) {
       nibbles_t remaining = remaining_nibbles(nibbles, offset);
       int       leaf_nibble_len;
       int       same = nibble_cmp(remaining, root->values.leaf.path, &leaf_nibble_len);
-      root           = root->values.extension.child;
+      if (same < leaf_nibble_len) break; // the path leaves the trie here
+      root = root->values.extension.child;
       offset += same;
     }
   }
@@ -389,6 +391,10 @@ INTERNAL ssz_ob_t patricia_create_merkle_proof(node_t* root, bytes_t path) {
 }
 
 INTERNAL bytes_t patricia_get_root(node_t* node) {
+  if (node->hash_len < 32) { // the root is always hashed, even if it is small enough to be embedded
+    keccak(bytes(node->hash, node->hash_len), node->hash);
+    node->hash_len = 32;
+  }
   return bytes(node->hash, 32);
 }
 
-- 
2.43.0


From f377bffc17ed822a37e00332d8372b632e5299d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:12 +0000
Subject: [PATCH 025/154] fix: patricia_verify accepted truncated and empty
 proofs as found

---
 src/chains/eth/verifier/patricia.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/chains/eth/verifier/patricia.c b/src/chains/eth/verifier/patricia.c
index 5f6cdf5..52c6130 100644
--- a/src/chains/eth/verifier/patricia.c
+++ b/src/chains/eth/verifier/patricia.c
@@ -150,6 +150,11 @@ INTERNAL patricia_result_t patricia_verify(bytes32_t root, bytes_t path, ssz_ob_
 
   uint32_t proof_len = ssz_len(proof);
   size_t   depth     = 0;
+  if (proof_len == 0) { // without any node, this can only be the empty trie
+    uint8_t empty_node = 0x80;
+    keccak(bytes(&empty_node, 1), root);
+    result = 2;
+  }
   for (uint32_t i = 0; i < proof_len; i++) {
     ssz_ob_t witness = ssz_at(proof, i);
     keccak(witness.bytes, node_hash);
@@ -164,6 +169,8 @@ INTERNAL patricia_result_t patricia_verify(bytes32_t root, bytes_t path, ssz_ob_
     if (1 != (result = handle_node(&witness.bytes, &key, i + 1 == proof_len, &last_value, expected_hash, &depth))) break;
   }
 
+  if (result == 1) result = 0; // the last node has to end the path
+
   if (result && expected)
     *expected = result == 2 ? NULL_BYTES : last_value;
 
-- 
2.43.0


From e90b8f8f2057f997706e312217fc4ebfabe0d02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:13 +0000
Subject: [PATCH 026/154] fix: patricia_verify read outside of the proof for
 embedded or malformed nodes

---
 src/chains/eth/verifier/patricia.c | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/chains/eth/verifier/patricia.c b/src/chains/eth/verifier/patricia.c
index 52c6130..e841664 100644
--- a/src/chains/eth/verifier/patricia.c
+++ b/src/chains/eth/verifier/patricia.c
@@ -62,12 +62,12 @@ static uint8_t* patricia_to_nibbles(bytes_t p, bool prefix) {
 }
 
 static int handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_val, uint8_t* next_hash, size_t* depth) {
-  bytes_t val;
-  bytes_t node;
+  bytes_t val  = {0};
+  bytes_t node = {0};
 
   if (MAX_DEPTH < (++(*depth))) return 0;
 
-  rlp_decode(raw, 0, &node);
+  if (rlp_decode(raw, 0, &node) != RLP_LIST) return 0;
   switch ((int) rlp_decode(&node, -1, NULL)) {
 
     case NODE_BRANCH:
@@ -78,20 +78,25 @@ static int handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_v
       }
 
       if (rlp_decode(&node, **k, &val) == RLP_LIST) { // found embedded node in branch
-        rlp_decode(&node, (**k) - 1, &node);
+        bytes_t  prev  = {0};
+        uint8_t* start = node.data; // the embedded node starts after the previous item
+        if (**k > 0) {
+          rlp_decode(&node, (**k) - 1, &prev);
+          start = prev.data + prev.len;
+        }
         *k += 1;
-        node = bytes(node.data + node.len, val.data + val.len - node.data); // decode the embedded node
-        return handle_node(&node, k, **k == 0xFF || *(*k + 1) == 0xFF, last_val, next_hash, depth);
+        node = bytes(start, val.data + val.len - start); // decode the embedded node
+        return handle_node(&node, k, last_node, last_val, next_hash, depth);
       }
       else if (val.len != 32) // we got a NULL, which means value does not exists
-        return 2;
+        return last_node && val.len == 0 ? 2 : 0;
       else
         memcpy(next_hash, val.data, 32); // the hash of the next node
       *k += 1;
       return 1;
 
     case NODE_LEAF:
-      if (rlp_decode(&node, 0, &val) != RLP_ITEM)
+      if (rlp_decode(&node, 0, &val) != RLP_ITEM || val.len == 0)
         return 0;
       else {
         uint8_t* pn      = patricia_to_nibbles(val, 1);
@@ -104,11 +109,12 @@ static int handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_v
 
         *k += np_len;
         if (rlp_decode(&node, 1, &val) == RLP_LIST) { // embedded
+          if (is_leaf) return 0;
           rlp_decode(&node, 0, &node);
           node.data += node.len;
           node.len = val.data + val.len - node.data;
 
-          return handle_node(&node, k, k && *k && *(k + 1) == NULL, last_val, next_hash, depth);
+          return handle_node(&node, k, last_node, last_val, next_hash, depth);
         }
         else if (**k == 0xFF) { // we reached the end of the path
           if (is_leaf) {
@@ -119,8 +125,9 @@ static int handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_v
             return 0; // this is an extension node, but the path is not complete
 
           // follow the extension, which should lead to branch with the value.
+          if (val.len != 32) return 0;
           *last_val = val;
-          memcpy(next_hash, val.data, (val.len >= 32) ? 32 : val.len);
+          memcpy(next_hash, val.data, 32);
           return 1;
 
           //          if (!last_node || (expected_val == NULL && is_leaf)) return 0;
@@ -128,8 +135,9 @@ static int handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_v
         else if (is_leaf)           // we found a leaf matching the path, but the patch is not complete yet.
           return last_node ? 2 : 0; // it is either a proof, that the account does not exist or an error.
         else {                      // it is an extension and we follow the extension to the branch.
+          if (val.len != 32) return 0;
           *last_val = val;
-          memcpy(next_hash, val.data, (val.len >= 32) ? 32 : val.len);
+          memcpy(next_hash, val.data, 32);
           return 1;
         }
       }
-- 
2.43.0


From c4107171db5eb05a5ef651d5017ec8714a717368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:42:27 +0000
Subject: [PATCH 027/154] fix: splitting an extension left its child linked to
 the old node, so later inserts did not update the root

---
 src/chains/eth/verifier/patricia_trie.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chains/eth/verifier/patricia_trie.c b/src/chains/eth/verifier/patricia_trie.c
index c466f57..9a53aca 100644
--- a/src/chains/eth/verifier/patricia_trie.c
+++ b/src/chains/eth/verifier/patricia_trie.c
@@ -283,6 +283,7 @@ static void set_value(node_t* parent, nibbles_t nibbles, bytes_t value) {
           old_leaf->values.leaf.path =                              // just adjusting the path
               nibbles_to_path(remaining_nibbles(leaf_nibbles, same + 1), old_leaf->type == NODE_TYPE_LEAF);
           old_idx = leaf_nibbles.data[matching];
+          if (old_leaf->type == NODE_TYPE_EXTENSION) old_leaf->values.extension.child->parent = old_leaf;
         }
 
         // handle new node
-- 
2.43.0


From 8e9962371cc005d5e9163362831cbb0354c6b84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:51 +0000
Subject: [PATCH 028/154] fix: reject malformed raw transactions (field count,
 types, lengths, v) before using their fields

---
 src/chains/eth/verifier/eth_tx.c | 38 +++++++++++++++++++++++---------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 715b823..666ff82 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -182,15 +182,36 @@ static bool get_and_remove_tx_type(verify_ctx_t* ctx, bytes_t* raw_tx, tx_type_t
   return true;
 }
 
+// checks that the list holds exactly the fields of the definition and that each of them has the expected type and length.
+static bool check_tx_fields(verify_ctx_t* ctx, bytes_t raw_tx, bytes_t fields, const rlp_type_defs_t* defs) {
+  bytes_t val = {0};
+  if (fields.data + fields.len != raw_tx.data + raw_tx.len) RETURN_VERIFY_ERROR(ctx, "invalid tx data, unexpected bytes after the transaction!");
+  if (rlp_decode(&fields, -1, &val) != (int) defs->len) RETURN_VERIFY_ERROR(ctx, "invalid tx data, wrong number of fields!");
+  for (uint32_t i = 0; i < defs->len; i++) {
+    const char* name    = defs->defs[i].name;
+    uint32_t    len     = defs->defs[i].len;
+    bool        is_list = len == 2;
+    uint32_t    max_int = strcmp(name, "value") == 0 || strcmp(name, "mint") == 0 || strcmp(name, "r") == 0 || strcmp(name, "s") == 0 || strcmp(name, "maxFeePerBlobGas") == 0 ? 32 : 8;
+    if (strcmp(name, "chainId") == 0) max_int = 4;
+    if (rlp_decode(&fields, i, &val) != (is_list ? RLP_LIST : RLP_ITEM)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, unexpected field type!");
+    if (len == 1 && val.len > max_int) RETURN_VERIFY_ERROR(ctx, "invalid tx data, integer too large!");
+    if (len == 32 && val.len != 32) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid hash length!");
+    if ((len == 20 || len == (uint32_t) -20) && val.len != 20 && (val.len || strcmp(name, "to"))) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid address length!");
+  }
+  return true;
+}
+
 INTERNAL bool c4_tx_create_from_address(verify_ctx_t* ctx, bytes_t raw_tx, uint8_t* address) {
   buffer_t  buf      = {0};
   bytes32_t raw_hash = {0};
   bytes_t   last_item;
   tx_type_t type = 0;
   if (!get_and_remove_tx_type(ctx, &raw_tx, &type)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, missing type!");
+  bytes_t tx_rlp = raw_tx;
   if (rlp_decode(&raw_tx, 0, &raw_tx) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid tx data!");
   const rlp_type_defs_t* defs_ptr = get_tx_type_defs(type);
   if (!defs_ptr) RETURN_VERIFY_ERROR(ctx, "unsupported transaction type");
+  if (!check_tx_fields(ctx, tx_rlp, raw_tx, defs_ptr)) return false;
   rlp_type_defs_t defs = *defs_ptr;
   if (type == TX_TYPE_DEPOSITED) {
     bytes_t from = {0};
@@ -198,19 +219,17 @@ INTERNAL bool c4_tx_create_from_address(verify_ctx_t* ctx, bytes_t raw_tx, uint8
     memcpy(address, from.data, 20);
     return true;
   }
+  uint64_t v = rlp_get_uint64(raw_tx, defs.len - 3);
+  if (type == TX_TYPE_LEGACY ? (v != 27 && v != 28 && v < 35) : v > 1) RETURN_VERIFY_ERROR(ctx, "invalid signature, invalid v!");
   rlp_decode(&raw_tx, defs.len - 4, &last_item);
   buffer_append(&buf, bytes(raw_tx.data, last_item.data + last_item.len - raw_tx.data));
-  uint64_t v = 0;
   if (type == TX_TYPE_LEGACY) {
-    v = rlp_get_uint64(raw_tx, 6);
     if (v > 28) {
       rlp_add_uint64(&buf, (v - 36 + v % 2) / 2);
       rlp_add_item(&buf, NULL_BYTES);
       rlp_add_item(&buf, NULL_BYTES);
     }
   }
-  else
-    v = rlp_get_uint64(raw_tx, defs.len - 3);
 
   rlp_to_list(&buf);
 
@@ -489,7 +508,7 @@ static ssz_builder_t build_access_list_ssz(verify_ctx_t* ctx, bytes_t rlp_access
         ssz_builder_free(&access_list_builder);
         return (ssz_builder_t) {0};
       }
-      if (rlp_decode(&entry_rlp, 0, &address_rlp) != RLP_ITEM) {
+      if (rlp_decode(&entry_rlp, 0, &address_rlp) != RLP_ITEM || address_rlp.len != 20) {
         c4_state_add_error(&ctx->state, "build_access_list_ssz: Failed to decode access list address");
         ssz_builder_free(&entry_builder);
         ssz_builder_free(&access_list_builder);
@@ -589,7 +608,7 @@ static ssz_builder_t build_authorization_list_ssz(verify_ctx_t* ctx, bytes_t rlp
       ssz_add_bytes(&auth_entry_builder, "address", rlp_item_addr);
 
       // Field 1 in SSZ: chainId (from RLP index 0)
-      if (rlp_decode(&auth_tuple_rlp, 0, &rlp_item_chain_id) != RLP_ITEM) {
+      if (rlp_decode(&auth_tuple_rlp, 0, &rlp_item_chain_id) != RLP_ITEM || rlp_item_chain_id.len > 4) {
         c4_state_add_error(&ctx->state, "build_authorization_list_ssz: Failed to decode auth chain_id");
         ssz_builder_free(&auth_entry_builder);
         ssz_builder_free(&authorization_list_builder);
@@ -598,7 +617,7 @@ static ssz_builder_t build_authorization_list_ssz(verify_ctx_t* ctx, bytes_t rlp
       ssz_add_uint32(&auth_entry_builder, (uint32_t) bytes_as_be(rlp_item_chain_id));
 
       // Field 2 in SSZ: nonce (from RLP index 2)
-      if (rlp_decode(&auth_tuple_rlp, 2, &rlp_item_nonce) != RLP_ITEM) {
+      if (rlp_decode(&auth_tuple_rlp, 2, &rlp_item_nonce) != RLP_ITEM || rlp_item_nonce.len > 8) {
         c4_state_add_error(&ctx->state, "build_authorization_list_ssz: Failed to decode auth nonce");
         ssz_builder_free(&auth_entry_builder);
         ssz_builder_free(&authorization_list_builder);
@@ -629,7 +648,7 @@ static ssz_builder_t build_authorization_list_ssz(verify_ctx_t* ctx, bytes_t rlp
       ssz_add_bytes(&auth_entry_builder, "s", bytes(s_val, 32));
 
       // Field 5 in SSZ: yParity (from RLP index 3)
-      if (rlp_decode(&auth_tuple_rlp, 3, &rlp_item_y_parity) != RLP_ITEM) {
+      if (rlp_decode(&auth_tuple_rlp, 3, &rlp_item_y_parity) != RLP_ITEM || rlp_item_y_parity.len > 1) {
         c4_state_add_error(&ctx->state, "build_authorization_list_ssz: Failed to decode auth y_parity");
         ssz_builder_free(&auth_entry_builder);
         ssz_builder_free(&authorization_list_builder);
@@ -658,8 +677,7 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
   const rlp_type_defs_t* defs_ptr         = get_tx_type_defs(type); // get the specific typedef for the tx type
   if (!defs_ptr) RETURN_VERIFY_ERROR(ctx, "unsupported transaction type");
   if (rlp_decode(&rlp_list_payload, 0, &rlp_list_payload) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "c4_write_tx_data_from_raw: invalid RLP list payload");
-  int num_fields = rlp_decode(&rlp_list_payload, -1, NULL);
-  if (num_fields != defs_ptr->len) RETURN_VERIFY_ERROR(ctx, "c4_write_tx_data_from_raw: RLP field count mismatch with definition");
+  if (!check_tx_fields(ctx, raw_tx, rlp_list_payload, defs_ptr)) return false;
 
   // Deposited transactions don't have signatures, so we extract 'from' from RLP directly
   if (type == TX_TYPE_DEPOSITED) {
-- 
2.43.0


From 7e7ffa26867fdfb77f120a53aae6bf497f0af7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:51 +0000
Subject: [PATCH 029/154] fix: chainId and yParity of legacy transactions with
 v=28 or a multi-byte v

---
 src/chains/eth/verifier/eth_tx.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 666ff82..1b93b07 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -745,10 +745,10 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
 
   // Calculate v_for_ssz, chain_id (legacy overwrite), and gas_price
   if (type == TX_TYPE_LEGACY) {
-    uint8_t rlp_v_val = rlp_v_field.len ? rlp_v_field.data[0] : 0;
-    tx_sig_y_parity   = (rlp_v_val - 1) % 2;
-    chain_id          = rlp_v_val < 28 ? 1 : (rlp_v_val - 35 - tx_sig_y_parity) / 2;
-    v_for_ssz         = rlp_v_val;
+    uint64_t rlp_v_val = bytes_as_be(rlp_v_field);
+    tx_sig_y_parity    = (rlp_v_val - 1) % 2;
+    chain_id           = rlp_v_val < 35 ? 1 : (uint32_t) ((rlp_v_val - 35 - tx_sig_y_parity) / 2);
+    v_for_ssz          = (uint8_t) rlp_v_val;
   }
   else if (type != TX_TYPE_DEPOSITED)
     v_for_ssz = tx_sig_y_parity;
-- 
2.43.0


From 1c18141d49948a11b29565c65764b06ca473da98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:51 +0000
Subject: [PATCH 030/154] fix: mint of deposited transactions must fill the
 whole uint256

---
 src/chains/eth/verifier/eth_tx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 1b93b07..caf1aa9 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -839,7 +839,7 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
     for (int i = 0; i < actual_len; i++) {
       mint_le[i] = mint_rlp.data[mint_rlp.len - 1 - i];
     }
-    ssz_add_bytes(buffer, "mint", bytes(mint_le, actual_len ? actual_len : 1));
+    ssz_add_bytes(buffer, "mint", bytes(mint_le, 32));
     ssz_add_bytes(buffer, "isSystemTx", bytes(&system_tx_true, 1));
 
     // Add depositReceiptVersion (always 1 for current Optimism version)
-- 
2.43.0


From 41ba2fc65bae36ec46541b34d445d431fbfb229f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:51 +0000
Subject: [PATCH 031/154] fix: colibri_decodeTransaction wrote its error over
 the verify context

---
 src/chains/eth/verifier/verify_local.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/verify_local.c b/src/chains/eth/verifier/verify_local.c
index 18c8f6e..d34d974 100644
--- a/src/chains/eth/verifier/verify_local.c
+++ b/src/chains/eth/verifier/verify_local.c
@@ -118,7 +118,7 @@ static ssz_ob_t colibri_decodeTransaction(verify_ctx_t* ctx) {
   if (!success) {
     buffer_free(&tx_data.dynamic);
     buffer_free(&tx_data.fixed);
-    if (ctx->state.error == NULL) c4_state_add_error(ctx, "invalid tx data!");
+    if (ctx->state.error == NULL) c4_state_add_error(&ctx->state, "invalid tx data!");
     return (ssz_ob_t) {0};
   }
   return ssz_builder_to_bytes(&tx_data);
-- 
2.43.0


From dbeac186aaafe8b9bb4e21a7a27d9d579b4f4a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:39 +0000
Subject: [PATCH 032/154] fix: web3_sha3 hashed uninitialised memory for an
 invalid parameter

---
 src/chains/eth/verifier/verify_local.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/verify_local.c b/src/chains/eth/verifier/verify_local.c
index d34d974..728aa59 100644
--- a/src/chains/eth/verifier/verify_local.c
+++ b/src/chains/eth/verifier/verify_local.c
@@ -86,7 +86,11 @@ static ssz_ob_t net_version(verify_ctx_t* ctx) {
 
 static ssz_ob_t web3_sha3(verify_ctx_t* ctx) {
   buffer_t buf = {0};
-  json_as_bytes(json_at(ctx->args, 0), &buf);
+  if (!json_as_bytes(json_at(ctx->args, 0), &buf).data) {
+    buffer_free(&buf);
+    c4_state_add_error(&ctx->state, "web3_sha3: parameter must be a hex string");
+    return (ssz_ob_t) {0};
+  }
   buffer_grow(&buf, 32);
   keccak(buf.data, buf.data.data);
   return (ssz_ob_t) {.def = &ssz_bytes32, .bytes = bytes(buf.data.data, 32)};
-- 
2.43.0


From 73b66cc7b9a10bc0dba5d710c097d52b8f2fc8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:32 +0000
Subject: [PATCH 033/154] fix: deleting from the tx cache lost entries of the
 same probe sequence

---
 src/chains/eth/prover/tx_cache.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/chains/eth/prover/tx_cache.c b/src/chains/eth/prover/tx_cache.c
index 31faa67..1245c1b 100644
--- a/src/chains/eth/prover/tx_cache.c
+++ b/src/chains/eth/prover/tx_cache.c
@@ -120,13 +120,12 @@ static void table_delete_at(size_t pos) {
   while (g_table[j].used) {
     uint64_t h    = hash_bytes32(g_table[j].key);
     size_t   home = table_index(h);
-    // If entry is in its home bucket, stop shifting
-    if (home == j) {
-      break;
+    // only move the entry if the free position lies between its home bucket and its current position
+    if (((j - home) & (TABLE_CAPACITY - 1u)) >= ((j - i) & (TABLE_CAPACITY - 1u))) {
+      g_table[i] = g_table[j];
+      i          = j;
     }
-    g_table[i] = g_table[j];
-    i          = j;
-    j          = (j + 1u) & (TABLE_CAPACITY - 1u);
+    j = (j + 1u) & (TABLE_CAPACITY - 1u);
   }
   g_table[i].used = false;
 }
-- 
2.43.0


From 927c898e0149c1dc3a95ff9fc0d5919b0944b29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:32 +0000
Subject: [PATCH 034/154] fix: tx cache limit must stay below the table size

---
 src/chains/eth/prover/tx_cache.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chains/eth/prover/tx_cache.c b/src/chains/eth/prover/tx_cache.c
index 1245c1b..4e7e3b3 100644
--- a/src/chains/eth/prover/tx_cache.c
+++ b/src/chains/eth/prover/tx_cache.c
@@ -278,6 +278,7 @@ void c4_eth_tx_cache_reserve(uint32_t number_of_entries_to_add) {
 
 void c4_eth_tx_cache_set_max_size(uint32_t max) {
   if (max == 0) max = 1; // avoid zero which breaks invariants
+  if (max > TABLE_CAPACITY - 1u) max = TABLE_CAPACITY - 1u; // probing needs at least one free bucket in order to terminate
   g_max_tx_cache_size = (size_t) max;
   // Ensure we do not exceed the new limit
   clean_up_cache(0);
-- 
2.43.0


From c953ade77b145e7f03de4f021db50c4f93d7d8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:58 +0000
Subject: [PATCH 035/154] fix: updating an entry of a full tx cache evicted
 other entries

---
 src/chains/eth/prover/tx_cache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/prover/tx_cache.c b/src/chains/eth/prover/tx_cache.c
index 4e7e3b3..aa6b2cb 100644
--- a/src/chains/eth/prover/tx_cache.c
+++ b/src/chains/eth/prover/tx_cache.c
@@ -232,7 +232,7 @@ static void clean_up_cache(int number_of_entries_to_add) {
 
 void c4_eth_tx_cache_set(bytes32_t tx_hash, uint64_t block_number, uint32_t tx_index) {
   // Best-effort pre-evict if full and we are adding a new entry.
-  if (g_size >= g_max_tx_cache_size) {
+  if (g_size >= g_max_tx_cache_size && table_find_index(tx_hash) == (size_t) (-1)) {
     clean_up_cache(1);
   }
   bool is_new = table_set(tx_hash, block_number, tx_index);
-- 
2.43.0


From 12f69275290ab19077bf4976366dff023205b1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:24 +0000
Subject: [PATCH 036/154] fix: logs cache kept stale events and lost block
 numbers when replacing or rotating blocks

---
 src/chains/eth/prover/logs_cache.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/prover/logs_cache.c b/src/chains/eth/prover/logs_cache.c
index 00bd113..abee0c0 100644
--- a/src/chains/eth/prover/logs_cache.c
+++ b/src/chains/eth/prover/logs_cache.c
@@ -163,11 +163,14 @@ static void bloom_add_element_buf(uint8_t bloom[256], bytes_t element) {
  */
 static block_entry_t* push_block(uint64_t block_number) {
   // block is already in the cache?
-  if (g_cache.start_number <= block_number && g_cache.start_number + g_cache.blocks_count > block_number)
-    return g_cache.blocks + ((block_number - g_cache.start_number) % g_cache.blocks_count);
+  if (g_cache.start_number <= block_number && g_cache.start_number + g_cache.blocks_count > block_number) {
+    block_entry_t* existing = g_cache.blocks + ((g_cache.start_idx + (uint32_t) (block_number - g_cache.start_number)) % g_cache.blocks_count);
+    existing->events_count  = 0; // the new content replaces the old one
+    return existing;
+  }
 
   // is previous block in the cache? if not, we need to reset in order to have a contiguous cache
-  if (g_cache.start_number && g_cache.start_number + g_cache.blocks_count != block_number) {
+  if (g_cache.blocks_count && g_cache.start_number + g_cache.blocks_count != block_number) {
     log_warn("logs_cache: non-contiguous block detected (got %l, expected %l). Resetting cache.", block_number,
              g_cache.start_number + g_cache.blocks_count);
     reset_cache();
@@ -178,6 +181,7 @@ static block_entry_t* push_block(uint64_t block_number) {
     block_entry_t* oldest = &g_cache.blocks[g_cache.start_idx];            // current oldest block spot will be used for the new block.
     safe_free(oldest->events);                                             // clean up old events
     memset(oldest, 0, sizeof(block_entry_t));                              // clear the block entry
+    oldest->block_number = block_number;                                   // and use it for the new block
     g_cache.start_idx    = (g_cache.start_idx + 1) % g_cache.blocks_count; // rotate to next block
     g_cache.start_number = g_cache.blocks[g_cache.start_idx].block_number; // update the start number to the new oldest block
     return oldest;
-- 
2.43.0


From 79f12da32062fb96396dc72c9ebc6efafa14d16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:24 +0000
Subject: [PATCH 037/154] fix: logs cache returned no logs when the bloom
 prefilter is disabled

---
 src/chains/eth/prover/logs_cache.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/prover/logs_cache.c b/src/chains/eth/prover/logs_cache.c
index abee0c0..7814884 100644
--- a/src/chains/eth/prover/logs_cache.c
+++ b/src/chains/eth/prover/logs_cache.c
@@ -536,7 +536,7 @@ static void build_match_index(log_cache_state_t* st) {
   uint64_t* variants      = (uint64_t*) st->filter_blooms.data;
   for (uint64_t bn = st->from_block; bn <= st->to_block; bn++) {
     block_entry_t* e = g_cache.blocks + ((g_cache.start_idx + (uint32_t) (bn - g_cache.start_number)) % g_cache.blocks_count);
-    if (!bloom_matches(variant_count, variants, e->logs_bloom64)) continue;
+    if (variant_count && !bloom_matches(variant_count, variants, e->logs_bloom64)) continue; // without variants the bloom prefilter is disabled
     // Confirm by scanning cached events
     block_result_t* block_res = NULL;
     for (uint32_t i = 0; i < e->events_count; i++) {
-- 
2.43.0


From 744e9acb802f0b6f048b3cbfab63c1fdc6102d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:24 +0000
Subject: [PATCH 038/154] fix: logs cache returned logs in reverse order

---
 src/chains/eth/prover/logs_cache.c | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/chains/eth/prover/logs_cache.c b/src/chains/eth/prover/logs_cache.c
index 7814884..47a6cc1 100644
--- a/src/chains/eth/prover/logs_cache.c
+++ b/src/chains/eth/prover/logs_cache.c
@@ -316,20 +316,19 @@ static log_cache_state_t* get_log_state(prover_ctx_t* ctx) {
 }
 
 static inline tx_result_t* ensure_tx_result(block_result_t* b, uint32_t tx_idx) {
-  for (tx_result_t* t = b->txs; t; t = t->next)
-    if (t->tx_idx == tx_idx) return t;
-  tx_result_t* t = (tx_result_t*) safe_calloc(1, sizeof(tx_result_t));
-  t->tx_idx      = tx_idx;
-  t->next        = b->txs;
-  b->txs         = t;
-  return t;
+  tx_result_t** tail = &b->txs; // append in order to keep the order of the block
+  for (; *tail; tail = &(*tail)->next)
+    if ((*tail)->tx_idx == tx_idx) return *tail;
+  *tail           = (tx_result_t*) safe_calloc(1, sizeof(tx_result_t));
+  (*tail)->tx_idx = tx_idx;
+  return *tail;
 }
 
 static inline block_result_t* add_block_result(block_result_t** head, uint64_t block_number) {
   block_result_t* b = (block_result_t*) safe_calloc(1, sizeof(block_result_t));
   b->block_number   = block_number;
-  b->next           = *head;
-  *head             = b;
+  while (*head) head = &(*head)->next; // append in order to keep ascending blocks
+  *head = b;
   return b;
 }
 
@@ -550,8 +549,9 @@ static void build_match_index(log_cache_state_t* st) {
       // append event
       event_result_t* er = (event_result_t*) safe_calloc(1, sizeof(event_result_t));
       er->log_idx        = ev->log_index;
-      er->next           = txr->events;
-      txr->events        = er;
+      event_result_t** tail = &txr->events;
+      while (*tail) tail = &(*tail)->next;
+      *tail = er;
     }
   }
 }
-- 
2.43.0


From dbacc602d588194a0877e93ecfbf3971abeada2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:24 +0000
Subject: [PATCH 039/154] fix: changing the limit of the logs cache broke its
 ringbuffer

---
 src/chains/eth/prover/logs_cache.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chains/eth/prover/logs_cache.c b/src/chains/eth/prover/logs_cache.c
index 47a6cc1..1ffe9da 100644
--- a/src/chains/eth/prover/logs_cache.c
+++ b/src/chains/eth/prover/logs_cache.c
@@ -730,6 +730,7 @@ uint64_t c4_eth_logs_cache_last_block(void) { return g_cache.start_number + g_ca
 uint32_t c4_eth_logs_cache_capacity_blocks(void) { return g_cache.blocks_count; }
 
 void c4_eth_logs_cache_enable(uint32_t max_blocks) {
+  if (g_cache.blocks_limit != max_blocks) reset_cache(); // the ringbuffer is bound to its limit
   g_cache.blocks_limit = max_blocks;
 }
 
-- 
2.43.0


From a13be71cb434267874cc1ab5da0e9a4d6e3c28d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:54:24 +0000
Subject: [PATCH 040/154] fix: logs cache answered blockHash filters with the
 logs of the latest block

---
 src/chains/eth/prover/logs_cache.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chains/eth/prover/logs_cache.c b/src/chains/eth/prover/logs_cache.c
index 1ffe9da..2239500 100644
--- a/src/chains/eth/prover/logs_cache.c
+++ b/src/chains/eth/prover/logs_cache.c
@@ -644,6 +644,7 @@ static c4_status_t get_exec_blocknumber(prover_ctx_t* ctx, json_t block, uint64_
 c4_status_t c4_eth_logs_cache_scan(prover_ctx_t* ctx, json_t filter, json_t* out_logs, bool* served_from_cache) {
   if (served_from_cache) *served_from_cache = false;
   if (!c4_eth_logs_cache_is_enabled()) return C4_SUCCESS;
+  if (json_get(filter, "blockHash").type == JSON_TYPE_STRING) return C4_SUCCESS; // the cache only knows block numbers
 
   // Resolve and persist the numeric range across async invocations
   log_cache_state_t* st = get_log_state(ctx);
-- 
2.43.0


From 6b29219c4d3de91cc8c08f04a84b2cbf6bb5fbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:25 +0000
Subject: [PATCH 041/154] fix: prover cache returned expired values and kept
 them instead of newer ones

---
 src/prover/prover.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/prover/prover.c b/src/prover/prover.c
index 934e1f4..bad96a3 100644
--- a/src/prover/prover.c
+++ b/src/prover/prover.c
@@ -138,8 +138,8 @@ const void* c4_prover_cache_get(prover_ctx_t* ctx, bytes32_t key) {
     if (CACHE_KEY_MATCH(entry, key_aligned)) {
 
       // Skip invalidated entries (timestamp == 0 means invalidated)
-      if (entry->timestamp == 0) {
-        log_debug("Found matching key %b in global cache, but it was invalidated. Treating as miss.", bytes(key, 32));
+      if (entry->timestamp == 0 || entry->timestamp < current_ms()) {
+        log_debug("Found matching key %b in global cache, but it was invalidated or expired. Treating as miss.", bytes(key, 32));
         continue; // Skip this entry, check next
       }
 
@@ -285,7 +285,7 @@ static cache_entry_t* find_global_cache_entry(bytes32_t key) {
   memcpy(key_aligned.bytes32, key, 32);
   for (size_t i = 0; i < global_cache_array.count; ++i) {
     cache_entry_t* entry = &global_cache_array.entries[i];
-    if (CACHE_KEY_MATCH(entry, key_aligned) && entry->timestamp > 0) return entry; // Return pointer to the entry in the array
+    if (CACHE_KEY_MATCH(entry, key_aligned) && entry->timestamp > 0 && entry->timestamp >= current_ms()) return entry; // Return pointer to the entry in the array
   }
   return NULL; // Not found
 }
-- 
2.43.0


From 3a24a92abc0ecfe475dc24767a7a1d2f7ad07c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:25 +0000
Subject: [PATCH 042/154] fix: releasing a context must decrement the use
 counter of the cached value it used

---
 src/prover/prover.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/prover/prover.c b/src/prover/prover.c
index bad96a3..fdd4d7f 100644
--- a/src/prover/prover.c
+++ b/src/prover/prover.c
@@ -290,6 +290,14 @@ static cache_entry_t* find_global_cache_entry(bytes32_t key) {
   return NULL; // Not found
 }
 
+// Find the entry holding the given value, even if it is invalidated or expired
+static cache_entry_t* find_global_cache_value(const void* value) {
+  for (size_t i = 0; i < global_cache_array.count; ++i) {
+    if (global_cache_array.entries[i].value == value) return &global_cache_array.entries[i];
+  }
+  return NULL; // Not found
+}
+
 // Invalidate a specific entry in the global cache by setting its timestamp to 0
 void c4_prover_cache_invalidate(bytes32_t key) {
   cache_entry_t* entry = find_global_cache_entry(key);
@@ -400,8 +408,9 @@ void c4_prover_free(prover_ctx_t* ctx) {
 
       if (current_local_entry->from_global_cache) {
         // This was copied from global, decrement the counter on the source.
-        // Re-find the global entry by key before decrementing for safety against realloc.
-        cache_entry_t* global_src = find_global_cache_entry(current_local_entry->key.bytes32);
+        // Re-find the global entry by its value before decrementing for safety against realloc.
+        // (the key alone is not sufficient, since it may be invalidated or replaced in the meantime)
+        cache_entry_t* global_src = find_global_cache_value(current_local_entry->value);
         if (global_src && global_src->use_counter > 0) // Prevent underflow
           global_src->use_counter--;
         else
-- 
2.43.0


From f7ea3fe9b8559b1da98e3c75fad0420466984e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:54 +0000
Subject: [PATCH 043/154] fix: historic proofs accepted any position in the
 state as block root

---
 src/chains/eth/verifier/beacon_header.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/beacon_header.c b/src/chains/eth/verifier/beacon_header.c
index b837be9..3ccc096 100644
--- a/src/chains/eth/verifier/beacon_header.c
+++ b/src/chains/eth/verifier/beacon_header.c
@@ -114,13 +114,26 @@ static c4_status_t c4_verify_headers_proof(verify_ctx_t* ctx, ssz_ob_t header, s
   return c4_verify_blockroot_signature(ctx, &signed_header, &sync_committee_bits, &sync_committee_signature, 0, NULL);
 }
 
+// checks that the gindex points to a block root within the historical_summaries of the BeaconState (index 27)
+static bool is_historic_block_gindex(verify_ctx_t* ctx, gindex_t gindex, uint64_t signed_slot) {
+  const chain_spec_t* spec = c4_eth_get_chain_spec(ctx->chain_id);
+  if (!spec) return false;
+  gindex_t summaries_gidx = (c4_chain_fork_id(ctx->chain_id, epoch_for_slot(signed_slot, spec)) >= C4_FORK_ELECTRA ? 64 : 32) + 27; // the gindex of the summaries in the state
+  return (gindex >> 38) == (summaries_gidx << 1)                                                                                     // the 24 bits summary_index, 1 bit summary-property and 13 bits block_index
+         && (gindex & (1 << 13)) == 0;                                                                                               // must be in the block_summary_root
+}
+
 static c4_status_t c4_verify_historic_proof(verify_ctx_t* ctx, ssz_ob_t header, ssz_ob_t sync_committee_bits, ssz_ob_t sync_committee_signature, ssz_ob_t historic_proof) {
   bytes32_t block_root    = {0};
   bytes32_t state_root    = {0};
   ssz_ob_t  signed_header = ssz_get(&historic_proof, "header");
+  gindex_t  gindex        = ssz_get_uint64(&historic_proof, "gindex");
+
+  if (!is_historic_block_gindex(ctx, gindex, ssz_get_uint64(&signed_header, "slot")))
+    THROW_ERROR("invalid gindex for historic proof!");
 
   ssz_hash_tree_root(header, block_root);
-  ssz_verify_single_merkle_proof(ssz_get(&historic_proof, "proof").bytes, block_root, ssz_get_uint64(&historic_proof, "gindex"), state_root);
+  ssz_verify_single_merkle_proof(ssz_get(&historic_proof, "proof").bytes, block_root, gindex, state_root);
 
   if (memcmp(state_root, ssz_get(&signed_header, "stateRoot").bytes.data, 32))
     THROW_ERROR("invalid state root for historic proof!");
-- 
2.43.0


From 71fae2d23828a546f53fb3bce233aeae01576989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:21:54 +0000
Subject: [PATCH 044/154] fix: sync committee signatures were accepted without
 a supermajority of participants

---
 src/chains/eth/verifier/beacon_header.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/chains/eth/verifier/beacon_header.c b/src/chains/eth/verifier/beacon_header.c
index 3ccc096..36a7c30 100644
--- a/src/chains/eth/verifier/beacon_header.c
+++ b/src/chains/eth/verifier/beacon_header.c
@@ -156,6 +156,14 @@ c4_status_t c4_verify_header(verify_ctx_t* ctx, ssz_ob_t header, ssz_ob_t block_
   return c4_verify_historic_proof(ctx, header, sync_committee_bits, sync_committee_signature, header_proof);
 }
 
+// a sync aggregate is only accepted if at least 2/3 of the 512 members participated.
+static bool has_supermajority(bytes_t sync_committee_bits) {
+  uint32_t participants = 0;
+  for (uint32_t i = 0; i < sync_committee_bits.len * 8; i++)
+    participants += (sync_committee_bits.data[i >> 3] >> (i & 7)) & 1;
+  return participants * 3 >= 512 * 2;
+}
+
 c4_status_t c4_verify_blockroot_signature(verify_ctx_t* ctx, ssz_ob_t* header, ssz_ob_t* sync_committee_bits, ssz_ob_t* sync_committee_signature, uint64_t slot, bytes32_t pubkey_hash) {
   bytes32_t            root       = {0};
   c4_sync_validators_t sync_state = {0};
@@ -165,6 +173,7 @@ c4_status_t c4_verify_blockroot_signature(verify_ctx_t* ctx, ssz_ob_t* header, s
   if (slot == 0) slot = ssz_get_uint64(header, "slot") + 1;
   if (slot == 0) THROW_ERROR("slot is missing in beacon header!");
   if (!spec) THROW_ERROR("unsupported chain id!");
+  if (!has_supermajority(sync_committee_bits->bytes)) THROW_ERROR("not enough participants in the sync committee signature!");
 
   uint32_t period = slot >> (spec->slots_per_epoch_bits + spec->epochs_per_period_bits);
 
-- 
2.43.0


From 8a6881b808deecc5619ad04982174f87f4c123c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:48 +0000
Subject: [PATCH 045/154] fix: account proofs by blockhash were only accepted
 for the wrong blockhash

---
 src/chains/eth/verifier/eth_account.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index f0ae0a9..1c8ab20 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -285,7 +285,7 @@ bool eth_verify_state_proof(verify_ctx_t* ctx, ssz_ob_t state_proof, bytes32_t s
     if (block_number.len == 68) {
       if (block.bytes.len != 32) RETURN_VERIFY_ERROR(ctx, "did not expect blockhhash as blocknumber");
       hex_to_bytes(block_number.start + 3, 64, bytes(leafes, 32));
-      if (memcmp(leafes, block.bytes.data, 32) == 0) RETURN_VERIFY_ERROR(ctx, "wrong blockhash");
+      if (memcmp(leafes, block.bytes.data, 32) != 0) RETURN_VERIFY_ERROR(ctx, "wrong blockhash");
     }
     else {
       if (block.bytes.len != 8) RETURN_VERIFY_ERROR(ctx, "did not expect blockhhash as blocknumber");
-- 
2.43.0


From c20e2ab7090156833bf38ba17ec47226c39c40c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:51 +0000
Subject: [PATCH 046/154] fix: account proofs wrote outside of the values
 buffer without storage keys or with oversized values

---
 src/chains/eth/verifier/eth_account.c          | 11 +++++++----
 src/chains/eth/verifier/verify_account_proof.c |  1 +
 src/chains/op/verifier/op_verify_account.c     |  1 +
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index 1c8ab20..ee77265 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -56,7 +56,7 @@ static bool is_equal(ssz_ob_t expect, bytes_t* list, int index) {
 }
 
 static bool verify_storage(verify_ctx_t* ctx, ssz_ob_t storage_proofs, bytes32_t storage_hash, bytes_t values) {
-  if (values.data) memset(values.data, 0, 32);
+  if (values.data) memset(values.data, 0, values.len);
   int len = ssz_len(storage_proofs);
   if (len != 0 && memcmp(storage_hash, EMPTY_ROOT_HASH, 32) == 0) RETURN_VERIFY_ERROR(ctx, "invalid storage proof because an empty storage hash can not have values!");
   for (int i = 0; i < len; i++) {
@@ -69,8 +69,10 @@ static bool verify_storage(verify_ctx_t* ctx, ssz_ob_t storage_proofs, bytes32_t
     keccak(key.bytes, path);
     if (patricia_verify(root, bytes(path, 32), proof, &leaf) == PATRICIA_INVALID) RETURN_VERIFY_ERROR(ctx, "invalid storage proof!");
     if (memcmp(root, storage_hash, 32) != 0) RETURN_VERIFY_ERROR(ctx, "invalid storage root!");
-    if (values.data && values.len >= (i + 1) * 32 && rlp_decode(&leaf, 0, &leaf) == RLP_ITEM)
+    if (values.data && values.len >= (i + 1) * 32 && rlp_decode(&leaf, 0, &leaf) == RLP_ITEM) {
+      if (leaf.len > 32) RETURN_VERIFY_ERROR(ctx, "invalid storage value!");
       memcpy(values.data + (i + 1) * 32 - leaf.len, leaf.data, leaf.len);
+    }
   }
 
   return true;
@@ -355,13 +357,14 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
         bytes_t       value         = {0};
         if (account.data && rlp_decode(&account, 0, &account) == RLP_LIST && rlp_decode(&account, -1, NULL) == 4) {
           ssz_builder_t storage_list_builder = ssz_builder_for_def(ssz_get_def(builder.def, "storageProof"));
-          for (int i = 0; i < values.len / 32; i++) {
+          uint32_t      storage_len          = ssz_len(storage_proof);
+          for (int i = 0; i < storage_len; i++) {
             ssz_builder_t storage_builder = ssz_builder_for_def(storage_list_builder.def->def.vector.type);
             ssz_ob_t      storage         = ssz_at(storage_proof, i);
             ssz_add_bytes(&storage_builder, "key", ssz_get(&storage, "key").bytes);
             ssz_add_bytes(&storage_builder, "value", bytes(values.data + i * 32, 32));
             ssz_add_bytes(&storage_builder, "proof", ssz_get(&storage, "proof").bytes);
-            ssz_add_dynamic_list_builders(&storage_list_builder, values.len / 32, storage_builder);
+            ssz_add_dynamic_list_builders(&storage_list_builder, storage_len, storage_builder);
           }
           rlp_decode(&account, 1, &value);
           ssz_add_uint256(&builder, value); // balance
diff --git a/src/chains/eth/verifier/verify_account_proof.c b/src/chains/eth/verifier/verify_account_proof.c
index 33cc9c4..2ca876d 100644
--- a/src/chains/eth/verifier/verify_account_proof.c
+++ b/src/chains/eth/verifier/verify_account_proof.c
@@ -51,6 +51,7 @@ bool verify_account_proof(verify_ctx_t* ctx) {
   eth_account_field_t field            = eth_account_get_field(ctx);
   bytes32_t           value            = {0};
   uint32_t            storage_keys_len = ssz_len(ssz_get(&ctx->proof, "storageProof"));
+  if (storage_keys_len == 0) storage_keys_len = 1; // the buffer must at least be able to hold one value
 #ifdef _MSC_VER
   bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(_alloca(32 * storage_keys_len), 32 * storage_keys_len) : bytes(value, 32);
 #else
diff --git a/src/chains/op/verifier/op_verify_account.c b/src/chains/op/verifier/op_verify_account.c
index 3cc5c5a..13ccab6 100644
--- a/src/chains/op/verifier/op_verify_account.c
+++ b/src/chains/op/verifier/op_verify_account.c
@@ -52,6 +52,7 @@ bool op_verify_account_proof(verify_ctx_t* ctx) {
   bytes32_t           value            = {0};
   uint32_t            storage_keys_len = ssz_len(ssz_get(&ctx->proof, "storageProof"));
   json_t              block_number     = json_at(ctx->args, json_len(ctx->args) - 1);
+  if (storage_keys_len == 0) storage_keys_len = 1; // the buffer must at least be able to hold one value
 #ifdef _MSC_VER
   bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(_alloca(32 * storage_keys_len), 32 * storage_keys_len) : bytes(value, 32);
 #else
-- 
2.43.0


From 396ab23b84c1e5209529b84ff67e33df787f5794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:00 +0000
Subject: [PATCH 047/154] fix: proofs for storage of missing accounts or empty
 storage were rejected

---
 src/chains/eth/verifier/eth_account.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index ee77265..25cc318 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -58,7 +58,7 @@ static bool is_equal(ssz_ob_t expect, bytes_t* list, int index) {
 static bool verify_storage(verify_ctx_t* ctx, ssz_ob_t storage_proofs, bytes32_t storage_hash, bytes_t values) {
   if (values.data) memset(values.data, 0, values.len);
   int len = ssz_len(storage_proofs);
-  if (len != 0 && memcmp(storage_hash, EMPTY_ROOT_HASH, 32) == 0) RETURN_VERIFY_ERROR(ctx, "invalid storage proof because an empty storage hash can not have values!");
+
   for (int i = 0; i < len; i++) {
     bytes32_t path    = {0};
     bytes32_t root    = {0};
@@ -87,6 +87,7 @@ INTERNAL bool eth_verify_account_proof_exec(verify_ctx_t* ctx, ssz_ob_t* proof,
   bytes32_t storage_hash  = {0};
 
   keccak(address.bytes, address_hash);
+  memcpy(storage_hash, EMPTY_ROOT_HASH, 32); // if the account does not exist, the storage must be empty
 
   switch (field) {
     case ETH_ACCOUNT_CODE_HASH:
-- 
2.43.0


From 684fcea528560651806eead7ffea3fac72cfc83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:00 +0000
Subject: [PATCH 048/154] fix: account and storage values were taken from the
 last node of exclusion proofs

---
 src/chains/eth/verifier/eth_account.c | 41 +++++++--------------------
 1 file changed, 10 insertions(+), 31 deletions(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index 25cc318..143690a 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -125,25 +125,17 @@ INTERNAL bool eth_verify_account_proof_exec(verify_ctx_t* ctx, ssz_ob_t* proof,
   return true;
 }
 
-static bytes_t get_last_value(ssz_ob_t proof) {
-  bytes_t last_value = ssz_at(proof, ssz_len(proof) - 1).bytes;
-  if (!last_value.data) return NULL_BYTES;
-  if (rlp_decode(&last_value, 0, &last_value) != RLP_LIST) return NULL_BYTES;
-  switch ((int) rlp_decode(&last_value, -1, &last_value)) {
-    case 2: // must be a leaf (otherwise the verification would have failed)
-      if (rlp_decode(&last_value, 1, &last_value) != RLP_ITEM) return NULL_BYTES;
-      break;
-    case 17: // branch noch with the value
-      if (rlp_decode(&last_value, 16, &last_value) != RLP_ITEM) return NULL_BYTES;
-      break;
-    default:
-      return NULL_BYTES;
-  }
-  return last_value;
+// returns the value of the key or NULL_BYTES if the (already verified) proof shows, that there is none.
+static bytes_t get_proven_value(ssz_ob_t proof, bytes_t key) {
+  bytes32_t root  = {0};
+  bytes32_t path  = {0};
+  bytes_t   value = {0};
+  keccak(key, path);
+  return patricia_verify(root, bytes(path, 32), proof, &value) == PATRICIA_FOUND ? value : NULL_BYTES;
 }
 
 bool eth_get_storage_value(ssz_ob_t storage, bytes32_t value) {
-  bytes_t last_value = get_last_value(ssz_get(&storage, "proof"));
+  bytes_t last_value = get_proven_value(ssz_get(&storage, "proof"), ssz_get(&storage, "key").bytes);
   if (!last_value.data) return false;
   if (rlp_decode(&last_value, 0, &last_value) != RLP_ITEM) return false;
   if (last_value.len > 32) return false;
@@ -152,7 +144,7 @@ bool eth_get_storage_value(ssz_ob_t storage, bytes32_t value) {
 }
 
 void eth_get_account_value(ssz_ob_t account, eth_account_field_t field, bytes32_t value) {
-  bytes_t last_value = get_last_value(ssz_get(&account, "accountProof"));
+  bytes_t last_value = get_proven_value(ssz_get(&account, "accountProof"), ssz_get(&account, "address").bytes);
   if (!last_value.data) return;
   if (rlp_decode(&last_value, 0, &last_value) != RLP_LIST) return;
   if (rlp_decode(&last_value, field - 1, &last_value) != RLP_ITEM) return;
@@ -312,20 +304,7 @@ eth_account_field_t eth_account_get_field(verify_ctx_t* ctx) {
   return ETH_ACCOUNT_NONE;
 }
 
-static bytes_t get_leaf(ssz_ob_t proof) {
-  bytes_t node = ssz_at(proof, ssz_len(proof) - 1).bytes;
-  if (rlp_decode(&node, 0, &node) != RLP_LIST) return NULL_BYTES;
-  int len = rlp_decode(&node, -1, NULL);
 
-  if (len == 17)
-    rlp_decode(&node, 16, &node);
-  else if (len == 2)
-    rlp_decode(&node, 1, &node);
-  else
-    return NULL_BYTES;
-
-  return node;
-}
 
 bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_account_field_t field, bytes_t values) {
   ssz_ob_t  data           = ctx->data;
@@ -354,7 +333,7 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
       case ETH_ACCOUNT_PROOF: {
         ssz_builder_t builder       = ssz_builder_for_type(ETH_SSZ_DATA_PROOF);
         ssz_ob_t      storage_proof = ssz_get(&ctx->proof, "storageProof");
-        bytes_t       account       = get_leaf(ssz_get(&ctx->proof, "accountProof"));
+        bytes_t       account       = get_proven_value(ssz_get(&ctx->proof, "accountProof"), ssz_get(&ctx->proof, "address").bytes);
         bytes_t       value         = {0};
         if (account.data && rlp_decode(&account, 0, &account) == RLP_LIST && rlp_decode(&account, -1, NULL) == 4) {
           ssz_builder_t storage_list_builder = ssz_builder_for_def(ssz_get_def(builder.def, "storageProof"));
-- 
2.43.0


From 13eb055196d77df503be36a032f39f70844f57c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:42 +0000
Subject: [PATCH 049/154] fix: eth_getProof for a missing account did not
 return the requested storage keys

---
 src/chains/eth/verifier/eth_account.c | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index 143690a..5f1e3bd 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -335,17 +335,19 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
         ssz_ob_t      storage_proof = ssz_get(&ctx->proof, "storageProof");
         bytes_t       account       = get_proven_value(ssz_get(&ctx->proof, "accountProof"), ssz_get(&ctx->proof, "address").bytes);
         bytes_t       value         = {0};
+        uint32_t      storage_len   = ssz_len(storage_proof);
+
+        ssz_builder_t storage_list_builder = ssz_builder_for_def(ssz_get_def(builder.def, "storageProof"));
+        for (int i = 0; i < storage_len; i++) {
+          ssz_builder_t storage_builder = ssz_builder_for_def(storage_list_builder.def->def.vector.type);
+          ssz_ob_t      storage         = ssz_at(storage_proof, i);
+          ssz_add_bytes(&storage_builder, "key", ssz_get(&storage, "key").bytes);
+          ssz_add_bytes(&storage_builder, "value", bytes(values.data + i * 32, 32));
+          ssz_add_bytes(&storage_builder, "proof", ssz_get(&storage, "proof").bytes);
+          ssz_add_dynamic_list_builders(&storage_list_builder, storage_len, storage_builder);
+        }
+
         if (account.data && rlp_decode(&account, 0, &account) == RLP_LIST && rlp_decode(&account, -1, NULL) == 4) {
-          ssz_builder_t storage_list_builder = ssz_builder_for_def(ssz_get_def(builder.def, "storageProof"));
-          uint32_t      storage_len          = ssz_len(storage_proof);
-          for (int i = 0; i < storage_len; i++) {
-            ssz_builder_t storage_builder = ssz_builder_for_def(storage_list_builder.def->def.vector.type);
-            ssz_ob_t      storage         = ssz_at(storage_proof, i);
-            ssz_add_bytes(&storage_builder, "key", ssz_get(&storage, "key").bytes);
-            ssz_add_bytes(&storage_builder, "value", bytes(values.data + i * 32, 32));
-            ssz_add_bytes(&storage_builder, "proof", ssz_get(&storage, "proof").bytes);
-            ssz_add_dynamic_list_builders(&storage_list_builder, storage_len, storage_builder);
-          }
           rlp_decode(&account, 1, &value);
           ssz_add_uint256(&builder, value); // balance
           rlp_decode(&account, 3, &value);
@@ -355,7 +357,6 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
           rlp_decode(&account, 2, &value);
           ssz_add_bytes(&builder, "storageHash", value);
           ssz_add_bytes(&builder, "accountProof", ssz_get(&ctx->proof, "accountProof").bytes);
-          ssz_add_builders(&builder, "storageProof", storage_list_builder);
         }
         else {
           ssz_add_bytes(&builder, "balance", bytes(0, 32));
@@ -363,8 +364,8 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
           ssz_add_bytes(&builder, "nonce", bytes(0, 32));
           ssz_add_bytes(&builder, "storageHash", bytes(EMPTY_ROOT_HASH, 32));
           ssz_add_bytes(&builder, "accountProof", ssz_get(&ctx->proof, "accountProof").bytes);
-          ssz_add_bytes(&builder, "storageProof", NULL_BYTES);
         }
+        ssz_add_builders(&builder, "storageProof", storage_list_builder);
 
         ctx->data = ssz_builder_to_bytes(&builder);
         break;
-- 
2.43.0


From e1c9ff66bd4199f7ebf5f7218fd4666c258ce0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:37:08 +0000
Subject: [PATCH 050/154] fix: account proofs were accepted for other storage
 keys, without arguments or with data of another type

---
 src/chains/eth/verifier/eth_account.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index 5f1e3bd..a92475d 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -306,12 +306,34 @@ eth_account_field_t eth_account_get_field(verify_ctx_t* ctx) {
 
 
 
+// checks that the storage proofs are the ones for the requested keys
+static bool matches_requested_keys(ssz_ob_t storage_proof, eth_account_field_t field, json_t requested) {
+  uint32_t len      = ssz_len(storage_proof);
+  bool     is_array = requested.type == JSON_TYPE_ARRAY;
+  if (is_array != (field == ETH_ACCOUNT_PROOF) || len != (is_array ? json_len(requested) : 1)) return false;
+  for (uint32_t i = 0; i < len; i++) {
+    json_t    requested_key = is_array ? json_at(requested, i) : requested;
+    bytes32_t raw           = {0};
+    bytes32_t key           = {0};
+    buffer_t  buf           = stack_buffer(raw);
+    ssz_ob_t  storage       = ssz_at(storage_proof, i);
+    if (requested_key.type != JSON_TYPE_STRING || requested_key.len > 68) return false; // at most 32 bytes as hex
+    bytes_t value = json_as_bytes(requested_key, &buf);
+    if (!value.data || value.len == 0 || value.len > 32) return false;
+    memcpy(key + 32 - value.len, value.data, value.len);
+    if (memcmp(key, ssz_get(&storage, "key").bytes.data, 32)) return false;
+  }
+  return true;
+}
+
 bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_account_field_t field, bytes_t values) {
   ssz_ob_t  data           = ctx->data;
   bytes32_t expected_value = {0};
   buffer_t  address_buf    = stack_buffer(expected_value);
   bytes_t   req_address    = json_as_bytes(json_at(ctx->args, 0), &address_buf);
-  if (req_address.data && (req_address.len != 20 || memcmp(req_address.data, verified_address, 20) != 0)) RETURN_VERIFY_ERROR(ctx, "proof does not match the address in request");
+  if (!req_address.data || req_address.len != 20 || memcmp(req_address.data, verified_address, 20) != 0) RETURN_VERIFY_ERROR(ctx, "proof does not match the address in request");
+  if ((field == ETH_ACCOUNT_STORAGE_HASH || field == ETH_ACCOUNT_PROOF) && !matches_requested_keys(ssz_get(&ctx->proof, "storageProof"), field, json_at(ctx->args, 1)))
+    RETURN_VERIFY_ERROR(ctx, "proof does not match the storage keys in request");
   if (!data.def) RETURN_VERIFY_ERROR(ctx, "invalid data!");
   if (data.def->type == SSZ_TYPE_NONE) {
     switch (field) {
@@ -376,6 +398,7 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
     ctx->flags |= VERIFY_FLAG_FREE_DATA;
   }
   else if (field == ETH_ACCOUNT_CODE_HASH) {
+    if (!ssz_is_type(&data, eth_ssz_verification_type(ETH_SSZ_DATA_BYTES))) RETURN_VERIFY_ERROR(ctx, "invalid type of the code!");
     keccak(data.bytes, expected_value);
     if (memcmp(expected_value, values.data, 32)) RETURN_VERIFY_ERROR(ctx, "invalid code hash!");
   }
-- 
2.43.0


From 8dcaa2cc570bcd33355ce7d4e2722913df08afc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:03 +0000
Subject: [PATCH 051/154] fix: reject transaction indexes outside of the
 transactions list in tx, receipt and logs proofs

---
 src/chains/eth/verifier/eth_tx.h               | 1 +
 src/chains/eth/verifier/verify_logs_proof.c    | 3 +++
 src/chains/eth/verifier/verify_receipt_proof.c | 3 +++
 src/chains/eth/verifier/verify_tx_proof.c      | 3 +++
 4 files changed, 10 insertions(+)

diff --git a/src/chains/eth/verifier/eth_tx.h b/src/chains/eth/verifier/eth_tx.h
index dcd63cd..e3ceabd 100644
--- a/src/chains/eth/verifier/eth_tx.h
+++ b/src/chains/eth/verifier/eth_tx.h
@@ -34,6 +34,7 @@ extern "C" {
 #define GINDEX_BLOCKUMBER   806
 #define GINDEX_BLOCHASH     812
 #define GINDEX_TXINDEX_G    1704984576L // gindex of the first tx
+#define MAX_TX_COUNT        1048576     // the max number of transactions in the transactions list (limit of the SSZ List)
 
 /*
    SSZ_BYTES32("blockHash"),                                                  // the blockHash of the execution block containing the transaction
diff --git a/src/chains/eth/verifier/verify_logs_proof.c b/src/chains/eth/verifier/verify_logs_proof.c
index 0cb6731..d71aa15 100644
--- a/src/chains/eth/verifier/verify_logs_proof.c
+++ b/src/chains/eth/verifier/verify_logs_proof.c
@@ -83,6 +83,9 @@ static bool verify_tx(verify_ctx_t* ctx, ssz_ob_t block, ssz_ob_t tx, bytes32_t
   bytes_t   block_hash   = ssz_get(&block, "blockHash").bytes;
   ssz_ob_t  block_number = ssz_get(&block, "blockNumber");
 
+  // indexes outside of the transactions list would point to other parts of the block body
+  if (ssz_uint32(tidx) >= MAX_TX_COUNT) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
+
   if (ctx->data.def->type == SSZ_TYPE_NONE && ctx->method && strcmp(ctx->method, "eth_verifyLogs") == 0) {
     ctx->data = ssz_from_json(ctx->args, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), &ctx->state);
     ctx->flags |= VERIFY_FLAG_FREE_DATA;
diff --git a/src/chains/eth/verifier/verify_receipt_proof.c b/src/chains/eth/verifier/verify_receipt_proof.c
index c8e0c65..4c6b6bd 100644
--- a/src/chains/eth/verifier/verify_receipt_proof.c
+++ b/src/chains/eth/verifier/verify_receipt_proof.c
@@ -43,6 +43,9 @@ static bool verify_merkle_proof(verify_ctx_t* ctx, ssz_ob_t proof, bytes_t block
   bytes32_t root_hash      = {0};                                                                                    // calculated body root hash
   gindex_t  gindexes[]     = {GINDEX_BLOCKUMBER, GINDEX_BLOCHASH, GINDEX_RECEIPT_ROOT, GINDEX_TXINDEX_G + tx_index}; // calculate the gindexes for the proof
 
+  // indexes outside of the transactions list would point to other parts of the block body
+  if (tx_index >= MAX_TX_COUNT) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
+
   // copy leaf data
   memcpy(leafes, block_number.data, block_number.len);
   memcpy(leafes + 32, block_hash.data, block_hash.len);
diff --git a/src/chains/eth/verifier/verify_tx_proof.c b/src/chains/eth/verifier/verify_tx_proof.c
index 9213e95..e36e4bc 100644
--- a/src/chains/eth/verifier/verify_tx_proof.c
+++ b/src/chains/eth/verifier/verify_tx_proof.c
@@ -48,6 +48,9 @@ static bool verify_merkle_proof(verify_ctx_t* ctx, ssz_ob_t proof, bytes_t block
   bytes32_t root_hash   = {0};                                                                                     // calculated body root hash
   gindex_t  gindexes[]  = {GINDEX_BLOCKUMBER, GINDEX_BLOCHASH, GINDEX_BASEFEEPERGAS, GINDEX_TXINDEX_G + tx_index}; // calculate the gindexes for the proof
 
+  // indexes outside of the transactions list would point to other parts of the block body
+  if (tx_index >= MAX_TX_COUNT) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
+
   // copy leaf data
   memcpy(leafes, block_number.data, block_number.len);
   memcpy(leafes + 32, block_hash.data, block_hash.len);
-- 
2.43.0


From 889d66641a94b6f93322579331d6cf865515fe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:31 +0000
Subject: [PATCH 052/154] fix: reject receipts reporting another transaction
 type

---
 src/chains/eth/verifier/eth_tx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index caf1aa9..ae959ea 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -320,7 +320,7 @@ INTERNAL bool c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data
   // from
   if (!c4_tx_create_from_address(ctx, tx_raw, tmp) || memcmp(tmp, ssz_get(&receipt_data, "from").bytes.data, 20)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, wrong from address!");
   // type
-  if (!get_and_remove_tx_type(ctx, &tx_raw, &type) && type != (uint8_t) ssz_get_uint32(&receipt_data, "type")) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
+  if (!get_and_remove_tx_type(ctx, &tx_raw, &type) || type != (uint8_t) ssz_get_uint32(&receipt_data, "type")) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
   // to
   int to_idx = type == TX_TYPE_DEPOSITED ? 2 : (type == TX_TYPE_EIP4844 ? 5 : min32(5, 3 + type));
   if (rlp_decode(&tx_raw, 0, &tx_raw) != RLP_LIST || rlp_decode(&tx_raw, to_idx, &val) != RLP_ITEM || !bytes_eq(val, ssz_get(&receipt_data, "to").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid to address!");
-- 
2.43.0


From 4b8549205c9fef74867591e11ec3dc4c0bb95d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:31 +0000
Subject: [PATCH 053/154] fix: verify transactionHash, transactionIndex and
 removed of the logs in a receipt

---
 src/chains/eth/verifier/eth_tx.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index ae959ea..e2a1ef0 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -355,6 +355,9 @@ INTERNAL bool c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data
     if (rlp_decode(&log_rlp, 2, &val) != RLP_ITEM || !bytes_eq(val, ssz_get(&log, "data").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid receipt data!");
     if (block_number != ssz_get_uint64(&log, "blockNumber")) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
     if (!bytes_eq(ssz_get(&log, "blockHash").bytes, bytes(block_hash, 32))) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
+    if (!bytes_eq(ssz_get(&log, "transactionHash").bytes, bytes(tx_hash, 32))) RETURN_VERIFY_ERROR(ctx, "invalid transaction hash!");
+    if (tx_index != ssz_get_uint32(&log, "transactionIndex")) RETURN_VERIFY_ERROR(ctx, "invalid transaction index!");
+    if (ssz_get_uint32(&log, "removed")) RETURN_VERIFY_ERROR(ctx, "a proven log can not be removed!");
 
     log = ssz_get(&log, "topics");
     if (rlp_decode(&log_rlp, 1, &log_rlp) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid topics!");
-- 
2.43.0


From 7d418ecd4ed2c6733d11ffc869bbc5e3315267ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:43 +0000
Subject: [PATCH 054/154] fix: receipt proofs without receipt data crashed the
 verifier

---
 src/chains/eth/verifier/verify_receipt_proof.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chains/eth/verifier/verify_receipt_proof.c b/src/chains/eth/verifier/verify_receipt_proof.c
index 4c6b6bd..7aec616 100644
--- a/src/chains/eth/verifier/verify_receipt_proof.c
+++ b/src/chains/eth/verifier/verify_receipt_proof.c
@@ -69,6 +69,7 @@ bool verify_receipt_proof(verify_ctx_t* ctx) {
   bytes32_t receipt_root  = {0};
   bytes_t   raw_receipt   = {0};
 
+  if (!ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_RECEIPT))) RETURN_VERIFY_ERROR(ctx, "invalid receipt data type!");
   if (!c4_tx_verify_tx_hash(ctx, raw_tx.bytes)) RETURN_VERIFY_ERROR(ctx, "invalid tx hash!");
   if (!c4_tx_verify_receipt_proof(ctx, receipt_proof, tx_index, receipt_root, &raw_receipt)) RETURN_VERIFY_ERROR(ctx, "invalid receipt proof!");
   if (!c4_tx_verify_receipt_data(ctx, ctx->data, block_hash.bytes.data, ssz_uint64(block_number), tx_index, raw_tx.bytes, raw_receipt)) RETURN_VERIFY_ERROR(ctx, "invalid tx data!");
-- 
2.43.0


From c8a1f154fc0d069e771b271093c374a908b78237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:43 +0000
Subject: [PATCH 055/154] fix: accept block hashes starting with a zero as
 block argument

---
 src/util/json_validate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/json_validate.c b/src/util/json_validate.c
index 97251a4..233aed1 100644
--- a/src/util/json_validate.c
+++ b/src/util/json_validate.c
@@ -172,7 +172,7 @@ static const char* check_hex(json_t val, int len, bool isuint, const char* error
 static const char* check_block(json_t val, const char* error_prefix) {
   if (val.type != JSON_TYPE_STRING) ERROR("%sExpected block number", error_prefix);
   if (strncmp("\"latest\"", val.start, 8) == 0 || strncmp("\"safe\"", val.start, 6) == 0 || strncmp("\"finalized\"", val.start, 11) == 0) return NULL;
-  return check_hex(val, 0, true, error_prefix);
+  return check_hex(val, 0, val.len != 68, error_prefix); // 32 bytes are a block hash, which may start with zeros
 }
 
 static const char* check_suint(json_t val, const char* error_prefix) {
-- 
2.43.0


From de456122fca4eb5a48806a2fd6b4e103ad9a761d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:57 +0000
Subject: [PATCH 056/154] fix: parse the logs of eth_verifyLogs before
 verifying, so that all of them are checked, and only accept logs as data of a
 logs proof

---
 src/chains/eth/verifier/verify_logs_proof.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/chains/eth/verifier/verify_logs_proof.c b/src/chains/eth/verifier/verify_logs_proof.c
index d71aa15..732ce65 100644
--- a/src/chains/eth/verifier/verify_logs_proof.c
+++ b/src/chains/eth/verifier/verify_logs_proof.c
@@ -86,11 +86,6 @@ static bool verify_tx(verify_ctx_t* ctx, ssz_ob_t block, ssz_ob_t tx, bytes32_t
   // indexes outside of the transactions list would point to other parts of the block body
   if (ssz_uint32(tidx) >= MAX_TX_COUNT) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
 
-  if (ctx->data.def->type == SSZ_TYPE_NONE && ctx->method && strcmp(ctx->method, "eth_verifyLogs") == 0) {
-    ctx->data = ssz_from_json(ctx->args, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), &ctx->state);
-    ctx->flags |= VERIFY_FLAG_FREE_DATA;
-  }
-
   // verify receipt proof
   if (!c4_tx_verify_receipt_proof(ctx, ssz_get(&tx, "proof"), ssz_uint32(tidx), root_hash, &raw_receipt)) RETURN_VERIFY_ERROR(ctx, "invalid receipt proof!");
   if (bytes_all_zero(bytes(receipt_root, 32)))
@@ -140,6 +135,19 @@ static bool has_proof(verify_ctx_t* ctx, bytes_t block_number, bytes_t tx_index,
 
 bool verify_logs_proof(verify_ctx_t* ctx) {
 
+  // the logs to verify are either part of the proof or passed as arguments, in both cases they must be known before verifying the blocks.
+  if (ctx->method && strcmp(ctx->method, "eth_verifyLogs") == 0 && !(ctx->flags & VERIFY_FLAG_FREE_DATA)) {
+    if (ctx->data.def->type != SSZ_TYPE_NONE) RETURN_VERIFY_ERROR(ctx, "unexpected data for eth_verifyLogs!");
+    ssz_ob_t logs = ssz_from_json(ctx->args, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), &ctx->state);
+    if (ctx->state.error) {
+      safe_free(logs.bytes.data);
+      return false;
+    }
+    ctx->data = logs;
+    ctx->flags |= VERIFY_FLAG_FREE_DATA;
+  }
+  if (!ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS))) RETURN_VERIFY_ERROR(ctx, "invalid data type for a logs proof!");
+
   uint32_t log_count   = ssz_len(ctx->data);
   uint32_t block_count = ssz_len(ctx->proof);
 
-- 
2.43.0


From 24b6632541037d9ce110a3f2e7c0de2f3c3bedce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:04:57 +0000
Subject: [PATCH 057/154] fix: reject logs marked as removed in a logs proof

---
 src/chains/eth/verifier/eth_tx.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index e2a1ef0..034829b 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -299,6 +299,7 @@ INTERNAL bool c4_tx_verify_log_data(verify_ctx_t* ctx, ssz_ob_t log, bytes32_t b
   if (block_number != ssz_get_uint64(&log, "blockNumber")) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
   if (!bytes_eq(ssz_get(&log, "blockHash").bytes, bytes(block_hash, 32))) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
   if (tx_index != ssz_get_uint32(&log, "transactionIndex")) RETURN_VERIFY_ERROR(ctx, "invalid transaction index!");
+  if (ssz_get(&log, "removed").bytes.data[0]) RETURN_VERIFY_ERROR(ctx, "a log of a verified block is not removed!");
   if (!get_and_remove_tx_type(ctx, &receipt_raw, &type)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
   if (rlp_decode(&receipt_raw, 0, &receipt_raw) != RLP_LIST || rlp_decode(&receipt_raw, 3, &logs) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid to data!");
   uint32_t logs_len = rlp_decode(&logs, -1, &logs);
-- 
2.43.0


From 62177fb53b71d6397b1fb8cc3de638ce7ac618d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:50 +0000
Subject: [PATCH 058/154] fix: do not accept block data passed along with a
 block proof as verified

---
 src/chains/eth/verifier/verify_block.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/verify_block.c b/src/chains/eth/verifier/verify_block.c
index cd0404a..96fd83e 100644
--- a/src/chains/eth/verifier/verify_block.c
+++ b/src/chains/eth/verifier/verify_block.c
@@ -84,7 +84,11 @@ static ssz_builder_t create_txs_builder(verify_ctx_t* ctx, const ssz_def_t* tx_u
 }
 
 void eth_set_block_data(verify_ctx_t* ctx, uint32_t mask, ssz_ob_t block, bytes32_t parent_root, bytes32_t withdrawel_root, bool include_txs) {
-  if (ctx->data.def && ctx->data.def->type == SSZ_TYPE_CONTAINER) return;
+  // the block data are always derived from the verified payload
+  if (ctx->data.def && ctx->data.def->type != SSZ_TYPE_NONE) {
+    c4_state_add_error(&ctx->state, "unexpected data for a block proof!");
+    return;
+  }
 
   bytes32_t     tx_root = {0};
   ssz_builder_t data    = ssz_builder_for_type(ETH_SSZ_DATA_BLOCK);
-- 
2.43.0


From 52b5c302076a6f66dafe38f91a9c8291b657be47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:50 +0000
Subject: [PATCH 059/154] fix: accept block numbers with a single hex digit
 when verifying block proofs

---
 src/chains/eth/verifier/verify_block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/verify_block.c b/src/chains/eth/verifier/verify_block.c
index 96fd83e..4ec4976 100644
--- a/src/chains/eth/verifier/verify_block.c
+++ b/src/chains/eth/verifier/verify_block.c
@@ -123,7 +123,7 @@ void eth_set_block_data(verify_ctx_t* ctx, uint32_t mask, ssz_ob_t block, bytes3
 }
 
 static bool matches_blocknumber(verify_ctx_t* ctx, ssz_ob_t block, json_t req_block) {
-  if (req_block.type != JSON_TYPE_STRING || req_block.len < 6) RETURN_VERIFY_ERROR(ctx, "invalid blocknumber");
+  if (req_block.type != JSON_TYPE_STRING || req_block.len < 5) RETURN_VERIFY_ERROR(ctx, "invalid blocknumber");
   if (req_block.start[1] != '0' || req_block.start[2] != 'x') return true;
   if (req_block.len == 68) { // hash
     bytes32_t hash = {0};
-- 
2.43.0


From 0f2a904b5479d976bab480885b87882942355d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:50 +0000
Subject: [PATCH 060/154] fix: report an error if the merkle proof of a block
 number is invalid

---
 src/chains/eth/verifier/verify_block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/verify_block.c b/src/chains/eth/verifier/verify_block.c
index 4ec4976..2aba87a 100644
--- a/src/chains/eth/verifier/verify_block.c
+++ b/src/chains/eth/verifier/verify_block.c
@@ -179,7 +179,7 @@ bool verify_block_number_proof(verify_ctx_t* ctx) {
   ssz_ob_t  header       = ssz_get(&ctx->proof, "header");
 
   // calculate the tree root of the execution payload
-  if (!verify_block_number_merkle_proof(ctx, proof.bytes, body_root, block_number.bytes, timestamp.bytes)) return false;
+  if (!verify_block_number_merkle_proof(ctx, proof.bytes, body_root, block_number.bytes, timestamp.bytes)) RETURN_VERIFY_ERROR(ctx, "invalid merkle proof for the block number!");
   if (memcmp(body_root, ssz_get(&header, "bodyRoot").bytes.data, 32) != 0) RETURN_VERIFY_ERROR(ctx, "invalid body root!");
   if (c4_verify_header(ctx, header, ctx->proof) != C4_SUCCESS) return false;
 
-- 
2.43.0


From 1a6f66de9256c61a2477627d81c25f65da1a00a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:00 +0000
Subject: [PATCH 061/154] fix: only accept a proof of the type required for the
 method

---
 src/chains/eth/verifier/eth_verify.c | 36 ++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/chains/eth/verifier/eth_verify.c b/src/chains/eth/verifier/eth_verify.c
index f99770e..99755f5 100644
--- a/src/chains/eth/verifier/eth_verify.c
+++ b/src/chains/eth/verifier/eth_verify.c
@@ -110,8 +110,44 @@ const ssz_def_t* c4_eth_get_request_type(chain_type_t chain_type) {
   return chain_type == C4_CHAIN_TYPE_ETHEREUM ? eth_ssz_verification_type(ETH_SSZ_VERIFY_REQUEST) : NULL;
 }
 
+// the type of proof required for each method
+static const struct {
+  const char*    method;
+  eth_ssz_type_t proof;
+} method_proofs[] = {
+    {"eth_call", ETH_SSZ_VERIFY_CALL_PROOF},
+    {"colibri_simulateTransaction", ETH_SSZ_VERIFY_CALL_PROOF},
+    {"eth_getProof", ETH_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getBalance", ETH_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getCode", ETH_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getTransactionCount", ETH_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getStorageAt", ETH_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getBlockByHash", ETH_SSZ_VERIFY_BLOCK_PROOF},
+    {"eth_getBlockByNumber", ETH_SSZ_VERIFY_BLOCK_PROOF},
+    {"eth_blockNumber", ETH_SSZ_VERIFY_BLOCK_NUMBER_PROOF},
+    {"eth_getLogs", ETH_SSZ_VERIFY_LOGS_PROOF},
+    {"eth_verifyLogs", ETH_SSZ_VERIFY_LOGS_PROOF},
+    {"eth_getTransactionReceipt", ETH_SSZ_VERIFY_RECEIPT_PROOF},
+    {"eth_getTransactionByHash", ETH_SSZ_VERIFY_TRANSACTION_PROOF},
+    {"eth_getTransactionByBlockHashAndIndex", ETH_SSZ_VERIFY_TRANSACTION_PROOF},
+    {"eth_getTransactionByBlockNumberAndIndex", ETH_SSZ_VERIFY_TRANSACTION_PROOF},
+};
+
+static bool proof_fits_method(verify_ctx_t* ctx) {
+  if (ctx->proof.def->type == SSZ_TYPE_NONE) return true; // local methods or sync data only
+  for (int i = 0; i < sizeof(method_proofs) / sizeof(method_proofs[0]); i++) {
+    if (ctx->method && strcmp(ctx->method, method_proofs[i].method) == 0)
+      return ssz_is_type(&ctx->proof, eth_ssz_verification_type(method_proofs[i].proof));
+  }
+  return false;
+}
+
 bool c4_eth_verify(verify_ctx_t* ctx) {
   if (c4_chain_type(ctx->chain_id) != C4_CHAIN_TYPE_ETHEREUM || c4_eth_get_chain_spec(ctx->chain_id) == NULL) return false;
+  if (!proof_fits_method(ctx)) {
+    c4_state_add_error(&ctx->state, "the proof is not of the type required for the method");
+    return true;
+  }
   if (!c4_update_from_sync_data(ctx)) return true;
 
 #ifdef ETH_TX
-- 
2.43.0


From 0cb36420e88dd1d671370f7af35b8d68665c2b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:11 +0000
Subject: [PATCH 062/154] fix: only accept bytes as claimed result of eth_call

---
 src/chains/eth/verifier/verify_call.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/verify_call.c b/src/chains/eth/verifier/verify_call.c
index 043c047..4d47e38 100644
--- a/src/chains/eth/verifier/verify_call.c
+++ b/src/chains/eth/verifier/verify_call.c
@@ -100,7 +100,7 @@ bool verify_call_proof(verify_ctx_t* ctx) {
     match = true;
   }
   else {
-    match = call_result.data && bytes_eq(call_result, ctx->data.bytes);
+    match = call_result.data && ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_BYTES)) && bytes_eq(call_result, ctx->data.bytes);
     safe_free(call_result.data);
   }
   eth_free_codes(call_codes);
-- 
2.43.0


From 4dd81b9a973f0a142546cb4051d4e7ce36773214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:11 +0000
Subject: [PATCH 063/154] fix: only accept a simulation result as claimed
 result of a simulation

---
 src/chains/eth/verifier/verify_simulate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/verify_simulate.c b/src/chains/eth/verifier/verify_simulate.c
index 2d97903..eec8529 100644
--- a/src/chains/eth/verifier/verify_simulate.c
+++ b/src/chains/eth/verifier/verify_simulate.c
@@ -157,7 +157,7 @@ bool verify_simulate_proof(verify_ctx_t* ctx) {
     match = true;
   }
   else {
-    match = simulation_result.bytes.data && bytes_eq(simulation_result.bytes, ctx->data.bytes);
+    match = simulation_result.bytes.data && ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_SIMULATION)) && bytes_eq(simulation_result.bytes, ctx->data.bytes);
     if (simulation_result.bytes.data) safe_free(simulation_result.bytes.data);
   }
   bool accounts_verified = match && c4_eth_verify_accounts(ctx, accounts, state_root, overrides_ptr);
-- 
2.43.0


From 110bde187a97c8102261290c25446bac05543fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:31 +0000
Subject: [PATCH 064/154] fix: ssz_is_type must not treat a vector as list (or
 other kinds of types as equal)

---
 src/util/ssz.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/ssz.c b/src/util/ssz.c
index 356fc8f..9693354 100644
--- a/src/util/ssz.c
+++ b/src/util/ssz.c
@@ -304,6 +304,7 @@ bool ssz_is_type(ssz_ob_t* ob, const ssz_def_t* def) {
   }
   if (ob->def->type == SSZ_TYPE_CONTAINER) return ob->def->def.container.elements == def;
   if (ob->def->type == SSZ_TYPE_LIST) return ob->def->def.vector.type == def;
+  if (ob->def->type != def->type) return false;
   switch (def->type) {
     case SSZ_TYPE_UINT:
       return def->type == SSZ_TYPE_UINT && ob->def->def.uint.len == def->def.uint.len;
-- 
2.43.0


From db0e4217f345a8269a19513f43238fbb654130ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:39 +0000
Subject: [PATCH 065/154] fix: reject logs which do not match the filter of
 eth_getLogs

---
 src/chains/eth/verifier/verify_logs_proof.c | 32 +++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/chains/eth/verifier/verify_logs_proof.c b/src/chains/eth/verifier/verify_logs_proof.c
index 732ce65..b26fddb 100644
--- a/src/chains/eth/verifier/verify_logs_proof.c
+++ b/src/chains/eth/verifier/verify_logs_proof.c
@@ -133,6 +133,37 @@ static bool has_proof(verify_ctx_t* ctx, bytes_t block_number, bytes_t tx_index,
   return false;
 }
 
+// checks a value against a filter entry: nothing, a single value or a list of accepted values
+static bool matches_value(json_t filter, bytes_t value) {
+  bytes32_t tmp = {0};
+  buffer_t  buf = stack_buffer(tmp);
+  if (filter.type == JSON_TYPE_STRING) return bytes_eq(json_as_bytes(filter, &buf), value);
+  if (filter.type != JSON_TYPE_ARRAY) return true;
+  uint32_t len = json_len(filter);
+  for (uint32_t i = 0; i < len; i++) {
+    if (matches_value(json_at(filter, i), value)) return true;
+  }
+  return len == 0;
+}
+
+static bool matches_filter(json_t filter, ssz_ob_t log) {
+  uint64_t block_number = ssz_get_uint64(&log, "blockNumber");
+  json_t   from         = json_get(filter, "fromBlock");
+  json_t   to           = json_get(filter, "toBlock");
+  json_t   topics       = json_get(filter, "topics");
+  ssz_ob_t log_topics   = ssz_get(&log, "topics");
+  uint32_t topics_len   = topics.type == JSON_TYPE_ARRAY ? json_len(topics) : 0;
+
+  if (from.type == JSON_TYPE_STRING && strncmp(from.start, "\"0x", 3) == 0 && block_number < json_as_uint64(from)) return false;
+  if (to.type == JSON_TYPE_STRING && strncmp(to.start, "\"0x", 3) == 0 && block_number > json_as_uint64(to)) return false;
+  if (!matches_value(json_get(filter, "blockHash"), ssz_get(&log, "blockHash").bytes)) return false;
+  if (!matches_value(json_get(filter, "address"), ssz_get(&log, "address").bytes)) return false;
+  for (uint32_t i = 0; i < topics_len; i++) {
+    if (!matches_value(json_at(topics, i), i < ssz_len(log_topics) ? ssz_at(log_topics, i).bytes : NULL_BYTES)) return false;
+  }
+  return true;
+}
+
 bool verify_logs_proof(verify_ctx_t* ctx) {
 
   // the logs to verify are either part of the proof or passed as arguments, in both cases they must be known before verifying the blocks.
@@ -160,6 +191,7 @@ bool verify_logs_proof(verify_ctx_t* ctx) {
   for (int i = 0; i < log_count; i++) {
     ssz_ob_t log = ssz_at(ctx->data, i);
     if (!has_proof(ctx, ssz_get(&log, "blockNumber").bytes, ssz_get(&log, "transactionIndex").bytes, block_count)) RETURN_VERIFY_ERROR(ctx, "missing log proof!");
+    if (strcmp(ctx->method, "eth_getLogs") == 0 && !matches_filter(json_at(ctx->args, 0), log)) RETURN_VERIFY_ERROR(ctx, "log does not match the filter!");
   }
 
   ctx->success = true;
-- 
2.43.0


From ae081a2d6fe4f4b2293a8f9ada40f088dc3a1eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:56 +0000
Subject: [PATCH 066/154] fix: never use or cache code from a proof which does
 not match the code hash

The code of a (not yet verified) call proof was stored in the code cache under the
hash of the account proof without checking it, so a rejected proof could poison the
cache for later calls. Accounts which do not exist have no code to be fetched.
---
 src/chains/eth/verifier/eth_account.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index a92475d..d1015d5 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -173,7 +173,7 @@ INTERNAL c4_status_t eth_get_call_codes(verify_ctx_t* ctx, call_code_t** call_co
     // fetch from cache
     buffer_reset(&buf);
     buffer_t data = {0};
-    if (memcmp(ac->hash, EMPTY_HASH, 32) == 0) { // empty code
+    if (memcmp(ac->hash, EMPTY_HASH, 32) == 0 || bytes_all_zero(bytes(ac->hash, 32))) { // empty code or no account
       ac->code = NULL_BYTES;
       ac->free = false;
     }
@@ -185,8 +185,15 @@ INTERNAL c4_status_t eth_get_call_codes(verify_ctx_t* ctx, call_code_t** call_co
       ac->code = code.bytes;
       ac->free = false;
 
-      // store in cache
-      cache.set((char*) buf.data.data, ac->code);
+      // store in cache, but only if this is really the code for the hash
+      keccak(ac->code, hash);
+      if (memcmp(hash, ac->hash, 32) == 0)
+        cache.set((char*) buf.data.data, ac->code);
+      else {
+        safe_free(ac);
+        ac     = NULL;
+        status = c4_state_add_error(&ctx->state, "code hash mismatch");
+      }
     }
     else {
       buffer_reset(&buf);
-- 
2.43.0


From 1c3e57c322baff3bbb0451a1de87d1edf87fdcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:09 +0000
Subject: [PATCH 067/154] fix: accept calls returning no data

---
 src/chains/eth/verifier/verify_call.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/verify_call.c b/src/chains/eth/verifier/verify_call.c
index 4d47e38..07f3cce 100644
--- a/src/chains/eth/verifier/verify_call.c
+++ b/src/chains/eth/verifier/verify_call.c
@@ -94,13 +94,13 @@ bool verify_call_proof(verify_ctx_t* ctx) {
 #else
   c4_status_t call_status = c4_state_add_error(&ctx->state, "no EVM is enabled, build with -DEVMONE=1");
 #endif
-  if (call_result.data && (ctx->data.def == NULL || ctx->data.def->type == SSZ_TYPE_NONE)) {
+  if (call_status == C4_SUCCESS && (ctx->data.def == NULL || ctx->data.def->type == SSZ_TYPE_NONE)) {
     ctx->data = (ssz_ob_t) {.bytes = call_result, .def = eth_ssz_verification_type(ETH_SSZ_DATA_BYTES)};
     ctx->flags |= VERIFY_FLAG_FREE_DATA;
     match = true;
   }
   else {
-    match = call_result.data && ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_BYTES)) && bytes_eq(call_result, ctx->data.bytes);
+    match = call_status == C4_SUCCESS && ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_BYTES)) && bytes_eq(call_result, ctx->data.bytes);
     safe_free(call_result.data);
   }
   eth_free_codes(call_codes);
-- 
2.43.0


From c6a4a8b0adcef968145053afb95f8922797e7cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:24 +0000
Subject: [PATCH 068/154] fix: keep the results of nested calls and precompiles
 until the end of the execution

The results of calls made by a sub-call were added to the list of the sub-call only and
never released, and so was the output of precompiles.
---
 src/chains/eth/verifier/call_evmone.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index 9587eb8..1a48e95 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -58,15 +58,18 @@ typedef enum {
 
 typedef struct evm_res_ptr {
   struct evmone_result result;
+  uint8_t*             output; // output allocated by the host (precompiles)
   struct evm_res_ptr*  next;
 } evm_res_ptr_t;
 
 /* EVM Host interface implementation */
 static const struct evmone_host_interface host_interface;
 
-static void add_evm_result(evmone_context_t* ctx, struct evmone_result* result) {
+static void add_evm_result(evmone_context_t* ctx, struct evmone_result* result, uint8_t* output) {
+  while (ctx->parent) ctx = ctx->parent; // the results must stay valid until the root context is done
   evm_res_ptr_t* new_result = safe_malloc(sizeof(evm_res_ptr_t));
   new_result->result        = *result;
+  new_result->output        = output;
   new_result->next          = ctx->results;
   ctx->results              = new_result;
 }
@@ -251,7 +254,7 @@ static void host_call(void* context, const struct evmone_message* msg, const uin
       EVM_LOG("Precompile failed with status code: %d", pre_result);
       result->gas_left = 0;
     }
-    add_evm_result(ctx, result);
+    add_evm_result(ctx, result, output.data.data);
     return;
   }
 
@@ -304,7 +307,7 @@ static void host_call(void* context, const struct evmone_message* msg, const uin
                exec_result.output_size > 64 ? "..." : "");
     }
   }
-  add_evm_result(ctx, &exec_result);
+  add_evm_result(ctx, &exec_result, NULL);
 
   if (exec_result.status_code == 0) {
     context_apply(&child);
@@ -623,6 +626,7 @@ INTERNAL c4_status_t eth_run_call_evmone_with_events(verify_ctx_t* ctx, call_cod
     evm_res_ptr_t* res  = (evm_res_ptr_t*) context.results;
     evm_res_ptr_t* next = res->next;
     evmone_release_result(&res->result);
+    safe_free(res->output);
     safe_free(res);
     context.results = next;
   }
-- 
2.43.0


From 32f10ce917cb13fc4e4853ce48481e7e4c3f54bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:41 +0000
Subject: [PATCH 069/154] fix: check the requested block of calls with state
 overrides

The block was expected to be the last argument, so with state overrides the call was
executed on the state of any block.
---
 src/chains/eth/verifier/eth_account.c          | 3 +--
 src/chains/eth/verifier/eth_account.h          | 2 +-
 src/chains/eth/verifier/verify_account_proof.c | 2 +-
 src/chains/eth/verifier/verify_call.c          | 2 +-
 src/chains/eth/verifier/verify_simulate.c      | 2 +-
 5 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index d1015d5..a282481 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -272,9 +272,8 @@ gindex_t eth_get_gindex_for_block(fork_id_t fork, json_t block) {
   return block.len == 68 ? GINDEX_BLOCHASH : GINDEX_BLOCKUMBER;
 }
 
-bool eth_verify_state_proof(verify_ctx_t* ctx, ssz_ob_t state_proof, bytes32_t state_root) {
+bool eth_verify_state_proof(verify_ctx_t* ctx, ssz_ob_t state_proof, bytes32_t state_root, json_t block_number) {
   bytes32_t body_root          = {0};
-  json_t    block_number       = json_len(ctx->args) ? json_at(ctx->args, json_len(ctx->args) - 1) : (json_t) {0};
   ssz_ob_t  state_merkle_proof = ssz_get(&state_proof, "proof");
   ssz_ob_t  header             = ssz_get(&state_proof, "header");
   ssz_ob_t  block              = ssz_get(&state_proof, "block");
diff --git a/src/chains/eth/verifier/eth_account.h b/src/chains/eth/verifier/eth_account.h
index 44623b9..cf54abb 100644
--- a/src/chains/eth/verifier/eth_account.h
+++ b/src/chains/eth/verifier/eth_account.h
@@ -50,7 +50,7 @@ typedef struct call_code {
   struct call_code* next;
 } call_code_t;
 
-bool                eth_verify_state_proof(verify_ctx_t* ctx, ssz_ob_t state_proof, bytes32_t state_root);
+bool                eth_verify_state_proof(verify_ctx_t* ctx, ssz_ob_t state_proof, bytes32_t state_root, json_t block_number);
 bool                eth_verify_account_proof_exec(verify_ctx_t* ctx, ssz_ob_t* proof, bytes32_t state_root, eth_account_field_t field, bytes_t value);
 bool                eth_get_storage_value(ssz_ob_t storage, bytes32_t value);
 void                eth_get_account_value(ssz_ob_t account, eth_account_field_t field, bytes32_t value);
diff --git a/src/chains/eth/verifier/verify_account_proof.c b/src/chains/eth/verifier/verify_account_proof.c
index 2ca876d..930c3fa 100644
--- a/src/chains/eth/verifier/verify_account_proof.c
+++ b/src/chains/eth/verifier/verify_account_proof.c
@@ -59,7 +59,7 @@ bool verify_account_proof(verify_ctx_t* ctx) {
 #endif
 
   if (!eth_verify_account_proof_exec(ctx, &ctx->proof, state_root, field == ETH_ACCOUNT_PROOF ? ETH_ACCOUNT_STORAGE_HASH : field, values)) RETURN_VERIFY_ERROR(ctx, "invalid account proof!");
-  if (!eth_verify_state_proof(ctx, state_proof, state_root)) return false;
+  if (!eth_verify_state_proof(ctx, state_proof, state_root, json_len(ctx->args) ? json_at(ctx->args, json_len(ctx->args) - 1) : (json_t) {0})) return false;
   if (c4_verify_header(ctx, header, state_proof) != C4_SUCCESS) return false;
   if (field && !eth_account_verify_data(ctx, verified_address.data, field, values)) RETURN_VERIFY_ERROR(ctx, "invalid account data!");
 
diff --git a/src/chains/eth/verifier/verify_call.c b/src/chains/eth/verifier/verify_call.c
index 07f3cce..6e5c317 100644
--- a/src/chains/eth/verifier/verify_call.c
+++ b/src/chains/eth/verifier/verify_call.c
@@ -118,7 +118,7 @@ bool verify_call_proof(verify_ctx_t* ctx) {
   }
   eth_state_overrides_free(&overrides);
 
-  if (!eth_verify_state_proof(ctx, state_proof, state_root)) return false;
+  if (!eth_verify_state_proof(ctx, state_proof, state_root, json_at(ctx->args, 1))) return false;
   if (c4_verify_header(ctx, header, state_proof) != C4_SUCCESS) return false;
 
   ctx->success = true;
diff --git a/src/chains/eth/verifier/verify_simulate.c b/src/chains/eth/verifier/verify_simulate.c
index eec8529..8e312a6 100644
--- a/src/chains/eth/verifier/verify_simulate.c
+++ b/src/chains/eth/verifier/verify_simulate.c
@@ -170,7 +170,7 @@ bool verify_simulate_proof(verify_ctx_t* ctx) {
 
   if (!match) RETURN_VERIFY_ERROR(ctx, "Simulation result mismatch");
   if (!accounts_verified) RETURN_VERIFY_ERROR(ctx, "Failed to verify accounts");
-  if (!eth_verify_state_proof(ctx, state_proof, state_root)) return false;
+  if (!eth_verify_state_proof(ctx, state_proof, state_root, json_at(ctx->args, 1))) return false;
   if (c4_verify_header(ctx, header, state_proof) != C4_SUCCESS) return false;
 
   ctx->success = true;
-- 
2.43.0


From b282217cc5f3f9827702e0ce452abe2d7f6ba67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:02 +0000
Subject: [PATCH 070/154] fix: release the output and keep the first error of
 failed simulations

---
 src/chains/eth/verifier/call_evmone.c     | 2 +-
 src/chains/eth/verifier/verify_simulate.c | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index 1a48e95..8f4eb02 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -615,7 +615,7 @@ INTERNAL c4_status_t eth_run_call_evmone_with_events(verify_ctx_t* ctx, call_cod
       case -3: error_msg = "Out of memory"; break;
     }
     EVM_LOG("Error details: %s", error_msg);
-    ctx->state.error = strdup(error_msg);
+    c4_state_add_error(&ctx->state, error_msg);
   }
 
   // Clean up resources
diff --git a/src/chains/eth/verifier/verify_simulate.c b/src/chains/eth/verifier/verify_simulate.c
index 8e312a6..2ef18ed 100644
--- a/src/chains/eth/verifier/verify_simulate.c
+++ b/src/chains/eth/verifier/verify_simulate.c
@@ -139,6 +139,7 @@ bool verify_simulate_proof(verify_ctx_t* ctx) {
 #endif
 
   if (call_status != C4_SUCCESS) {
+    safe_free(call_result.data);
     free_emitted_logs(logs);
     eth_free_codes(call_codes);
     eth_state_overrides_free(&overrides);
-- 
2.43.0


From 3af274a53da50962f4b7f39db5c132a83fd1285b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:34 +0000
Subject: [PATCH 071/154] fix: serve balance, code and existence of changed
 accounts from the proof

An account with a changed storage (or a partial override) lost its code if the code was
not part of the proof, had an empty balance if there was no proof for it, and was
reported as not existing. Accounts proven as missing were reported as existing, and the
code of accounts for which the proof has no code was silently treated as empty.
---
 src/chains/eth/verifier/call_ctx.h    | 30 ++++++++++++++++----------
 src/chains/eth/verifier/call_evmone.c | 31 +++++++++++++++++++++------
 2 files changed, 43 insertions(+), 18 deletions(-)

diff --git a/src/chains/eth/verifier/call_ctx.h b/src/chains/eth/verifier/call_ctx.h
index 5a61e69..0ef2fe3 100644
--- a/src/chains/eth/verifier/call_ctx.h
+++ b/src/chains/eth/verifier/call_ctx.h
@@ -52,6 +52,8 @@ typedef struct changed_account {
   bytes_t                 code;
   struct changed_account* next;
   changed_storage_t*      storage;
+  bool                    has_balance; // if false, the balance is the one of the proof
+  bool                    has_code;    // if false, the code is the one of the proof
   bool                    full_state_override;
   bool                    deleted;
   bool                    free_code;
@@ -146,7 +148,6 @@ static changed_account_t* create_changed_account(evmone_context_t* ctx, const ad
   }
   changed_account_t* parent_acc  = ctx->parent ? get_changed_account(ctx->parent, address) : NULL;
   *created                       = parent_acc == NULL;
-  ssz_ob_t           old_account = get_src_account(ctx, address, true);
   changed_account_t* acc         = safe_calloc(1, sizeof(changed_account_t));
   memcpy(acc->address, address, 20);
   acc->next             = ctx->changed_accounts;
@@ -155,7 +156,9 @@ static changed_account_t* create_changed_account(evmone_context_t* ctx, const ad
   if (parent_acc) {
     memcpy(acc->balance, parent_acc->balance, 32);
     acc->code                       = parent_acc->code;
-    acc->full_state_override         = parent_acc->full_state_override;
+    acc->has_balance                = parent_acc->has_balance;
+    acc->has_code                   = parent_acc->has_code;
+    acc->full_state_override        = parent_acc->full_state_override;
     changed_storage_t** storage_ptr = &acc->storage;
     for (changed_storage_t* s = parent_acc->storage; s != NULL; s = s->next) {
       *storage_ptr = safe_calloc(1, sizeof(changed_storage_t));
@@ -165,11 +168,6 @@ static changed_account_t* create_changed_account(evmone_context_t* ctx, const ad
       storage_ptr          = &(*storage_ptr)->next;
     }
   }
-  else if (old_account.def) {
-    ssz_ob_t code = ssz_get(&old_account, "code");
-    if (code.def && code.def->type == SSZ_TYPE_LIST && code.bytes.len > 0) acc->code = code.bytes;
-    eth_get_account_value(old_account, ETH_ACCOUNT_BALANCE, acc->balance);
-  }
   return acc;
 }
 
@@ -192,7 +190,7 @@ static void set_changed_storage(evmone_context_t* ctx, const address_t addr, con
 }
 static bytes_t get_code(evmone_context_t* ctx, const address_t address) {
   changed_account_t* changed_account = get_changed_account(ctx, address);
-  if (changed_account) return changed_account->code;
+  if (changed_account && changed_account->has_code) return changed_account->code;
   ssz_ob_t account = get_src_account(ctx, address, false);
   if (!account.def) return NULL_BYTES;
   bytes32_t code_hash = {0};
@@ -204,8 +202,16 @@ static bytes_t get_code(evmone_context_t* ctx, const address_t address) {
 
   ssz_ob_t code = ssz_get(&account, "code");
   if (code.def && code.def->type == SSZ_TYPE_LIST) return code.bytes;
+  if (!ctx->ctx->state.error && !bytes_all_zero(bytes(code_hash, 32)) && memcmp(code_hash, EMPTY_HASH, 32))
+    ctx->ctx->state.error = bprintf(NULL, "Missing code for account 0x%x", bytes(address, 20));
   return NULL_BYTES;
-  //  return account.def ? ssz_get(&account, "code").bytes : NULL_BYTES;
+}
+
+// the proven code hash or zero if the account does not exist
+static void get_src_code_hash(evmone_context_t* ctx, const address_t address, bytes32_t code_hash) {
+  ssz_ob_t account = get_src_account(ctx, address, false);
+  memset(code_hash, 0, 32);
+  if (account.def) eth_get_account_value(account, ETH_ACCOUNT_CODE_HASH, code_hash);
 }
 
 static void changed_account_free(changed_account_t* acc) {
@@ -276,8 +282,10 @@ static void context_apply(evmone_context_t* ctx) {
   for (changed_account_t* acc = ctx->changed_accounts; acc; acc = acc->next) {
     changed_account_t* parent_acc = create_changed_account(ctx->parent, acc->address, &created);
     memcpy(parent_acc->balance, acc->balance, 32);
-    parent_acc->code      = acc->code;
-    parent_acc->free_code = acc->free_code;
+    parent_acc->code        = acc->code;
+    parent_acc->free_code   = acc->free_code;
+    parent_acc->has_balance = acc->has_balance;
+    parent_acc->has_code    = acc->has_code;
     parent_acc->full_state_override = acc->full_state_override;
 
     for (changed_storage_t* s = acc->storage; s; s = s->next)
diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index 8f4eb02..daa4380 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -91,9 +91,16 @@ static bool host_account_exists(void* context, const evmc_address* addr) {
   evmone_context_t* ctx = (evmone_context_t*) context;
   debug_print_address("account_exists for", addr);
   changed_account_t* ac = get_changed_account(ctx, addr->bytes);
-  if (ac) return ac->deleted;
-  bool exists = get_src_account(ctx, addr->bytes, false).def != NULL;
-  // TODO existance check over the values of the account!
+  bytes32_t          code_hash;
+  bool               exists = false;
+  if (ac && ac->deleted)
+    exists = false;
+  else if (ac && ((ac->has_code && ac->code.len) || (ac->has_balance && !bytes_all_zero(bytes(ac->balance, 32)))))
+    exists = true;
+  else {
+    get_src_code_hash(ctx, addr->bytes, code_hash);
+    exists = !bytes_all_zero(bytes(code_hash, 32));
+  }
   EVM_LOG("account_exists result: %s", exists ? "true" : "false");
   return exists;
 }
@@ -166,7 +173,7 @@ static evmc_bytes32 host_get_balance(void* context, const evmc_address* addr) {
 
   evmc_bytes32       result = {0};
   changed_account_t* acc    = get_changed_account(ctx, addr->bytes);
-  if (acc)
+  if (acc && acc->has_balance)
     memcpy(result.bytes, acc->balance, 32);
   else {
     ssz_ob_t account = get_src_account(ctx, addr->bytes, false);
@@ -192,8 +199,14 @@ static evmc_bytes32 host_get_code_hash(void* context, const evmc_address* addr)
   evmone_context_t* ctx = (evmone_context_t*) context;
   debug_print_address("get_code_hash for", addr);
 
-  evmc_bytes32 result = {0};
-  keccak(get_code(ctx, addr->bytes), result.bytes);
+  evmc_bytes32       result = {0};
+  changed_account_t* ac     = get_changed_account(ctx, addr->bytes);
+  if (ac && ac->has_code)
+    keccak(ac->code, result.bytes);
+  else if (ac && ac->has_balance && !bytes_all_zero(bytes(ac->balance, 32))) // exists, even if there is no account in the proof
+    keccak(get_code(ctx, addr->bytes), result.bytes);
+  else
+    get_src_code_hash(ctx, addr->bytes, result.bytes);
 
   debug_print_bytes32("get_code_hash result", &result);
   return result;
@@ -383,8 +396,12 @@ static void apply_state_overrides(evmone_context_t* context, const eth_state_ove
   for (const eth_account_override_t* a = overrides->accounts; a; a = a->next) {
     bool               created = false;
     changed_account_t* acc     = create_changed_account(context, a->address, &created);
-    if (a->has_balance) memcpy(acc->balance, a->balance, 32);
+    if (a->has_balance) {
+      memcpy(acc->balance, a->balance, 32);
+      acc->has_balance = true;
+    }
     if (a->has_code) {
+      acc->has_code  = true;
       acc->code      = a->code;
       acc->free_code = false;
     }
-- 
2.43.0


From 44c108067512d147cf3a0e868c2ed2ef2aa3cde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:03 +0000
Subject: [PATCH 072/154] fix: keep the logs of sub-calls separate and in the
 order of emission

A sub-call started with the logs of its caller, which then were duplicated, freed twice
or lost, and the simulation reported the logs in reverse order.
---
 src/chains/eth/verifier/call_ctx.h    | 19 ++++++++-----------
 src/chains/eth/verifier/call_evmone.c |  1 +
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/chains/eth/verifier/call_ctx.h b/src/chains/eth/verifier/call_ctx.h
index 0ef2fe3..013f7ec 100644
--- a/src/chains/eth/verifier/call_ctx.h
+++ b/src/chains/eth/verifier/call_ctx.h
@@ -268,9 +268,10 @@ static emitted_log_t* add_emitted_log(evmone_context_t* ctx, const evmc_address*
     }
   }
 
-  // Add to linked list
-  log->next = ctx->logs;
-  ctx->logs = log;
+  // Add to the end of the linked list, so the logs stay in the order they were emitted
+  emitted_log_t** tail = &ctx->logs;
+  while (*tail) tail = &(*tail)->next;
+  *tail = log;
 
   return log;
 }
@@ -292,15 +293,11 @@ static void context_apply(evmone_context_t* ctx) {
       set_changed_storage(ctx->parent, acc->address, s->key, s->value, &created, &created);
   }
 
-  // Transfer logs to parent if parent is capturing events
+  // Transfer logs to parent (after the ones already emitted there) if parent is capturing events
   if (ctx->parent->capture_events && ctx->logs) {
-    emitted_log_t* log = ctx->logs;
-    while (log) {
-      emitted_log_t* next = log->next;
-      log->next           = ctx->parent->logs;
-      ctx->parent->logs   = log;
-      log                 = next;
-    }
+    emitted_log_t** tail = &ctx->parent->logs;
+    while (*tail) tail = &(*tail)->next;
+    *tail     = ctx->logs;
     ctx->logs = NULL; // Prevent double-free
   }
 }
diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index daa4380..c01909f 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -299,6 +299,7 @@ static void host_call(void* context, const struct evmone_message* msg, const uin
   evmone_context_t child = *ctx;
   child.parent           = ctx;
   child.changed_accounts = NULL;
+  child.logs             = NULL;
 
   // Execute the code (now using fetched code if needed)
   evmone_result exec_result = evmone_execute(
-- 
2.43.0


From 07d5c0d7edeac99f6c12980da8734cb1fddf2704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:22 +0000
Subject: [PATCH 073/154] fix: copy no code if the offset is behind the end of
 the code

---
 src/chains/eth/verifier/call_evmone.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index c01909f..9112120 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -219,9 +219,9 @@ static size_t host_copy_code(void* context, const evmc_address* addr, size_t cod
   EVM_LOG("copy_code offset: %zu, buffer size: %zu", code_offset, buffer_size);
 
   bytes_t code      = get_code(ctx, addr->bytes);
-  size_t  copy_size = code.len - code_offset;
+  size_t  copy_size = code_offset < code.len ? code.len - code_offset : 0;
   if (buffer_size < copy_size) copy_size = buffer_size;
-  if (code.data) memcpy(buffer_data, code.data + code_offset, copy_size);
+  if (copy_size) memcpy(buffer_data, code.data + code_offset, copy_size);
 
   EVM_LOG("copy_code result: copied %zu bytes", copy_size);
   return copy_size;
-- 
2.43.0


From 85bc0f07331d7485d5d7c566e8fac2f8716f8150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:41 +0000
Subject: [PATCH 074/154] fix: release already parsed accounts if the state
 overrides are invalid

---
 src/chains/eth/verifier/state_overrides.c | 66 ++++++-----------------
 1 file changed, 16 insertions(+), 50 deletions(-)

diff --git a/src/chains/eth/verifier/state_overrides.c b/src/chains/eth/verifier/state_overrides.c
index 43a752e..93c746f 100644
--- a/src/chains/eth/verifier/state_overrides.c
+++ b/src/chains/eth/verifier/state_overrides.c
@@ -139,8 +139,7 @@ static c4_status_t validate_override_keys(c4_state_t* st, json_t override_obj) {
   return C4_SUCCESS;
 }
 
-c4_status_t eth_parse_state_overrides_state(c4_state_t* state, json_t overrides, eth_state_overrides_t* out) {
-  c4_state_t* st = state;
+static c4_status_t parse_state_overrides(c4_state_t* st, json_t overrides, eth_state_overrides_t* out) {
   if (!out) return c4_state_add_error(st, "stateOverrides: invalid output pointer");
   memset(out, 0, sizeof(*out));
 
@@ -167,34 +166,26 @@ c4_status_t eth_parse_state_overrides_state(c4_state_t* state, json_t overrides,
 
     eth_account_override_t* acc = (eth_account_override_t*) safe_calloc(1, sizeof(eth_account_override_t));
     memcpy(acc->address, address, 20);
+    acc->next     = out->accounts;
+    out->accounts = acc; // from now on freed with the overrides
 
     json_t balance = json_get(override_obj, "balance");
     if (balance.type != JSON_TYPE_NOT_FOUND && balance.type != JSON_TYPE_NULL) {
       char* err = (char*) json_validate(balance, "hexuint", "stateOverrides.balance");
-      if (err) {
-        safe_free(acc);
-        return c4_state_set_error_msg(st, err);
-      }
+      if (err) return c4_state_set_error_msg(st, err);
       c4_status_t s = parse_uint256_be(st, balance, acc->balance);
-      if (s != C4_SUCCESS) {
-        safe_free(acc);
-        return s;
-      }
+      if (s != C4_SUCCESS) return s;
       acc->has_balance = true;
     }
 
     json_t code = json_get(override_obj, "code");
     if (code.type != JSON_TYPE_NOT_FOUND && code.type != JSON_TYPE_NULL) {
       char* err = (char*) json_validate(code, "bytes", "stateOverrides.code");
-      if (err) {
-        safe_free(acc);
-        return c4_state_set_error_msg(st, err);
-      }
+      if (err) return c4_state_set_error_msg(st, err);
       buffer_t tmp = {0};
       bytes_t  c   = json_as_bytes(code, &tmp);
       if (!c.data) {
         buffer_free(&tmp);
-        safe_free(acc);
         return c4_state_set_error_msg(st, bprintf(NULL, "stateOverrides: invalid 'code' value"));
       }
       acc->code     = bytes_dup(c);
@@ -204,54 +195,29 @@ c4_status_t eth_parse_state_overrides_state(c4_state_t* state, json_t overrides,
 
     if (has_state) {
       char* err = (char*) json_validate(state_obj, "{*:bytes32}", "stateOverrides.state");
-      if (err) {
-        safe_free(acc);
-        return c4_state_set_error_msg(st, err);
-      }
+      if (err) return c4_state_set_error_msg(st, err);
       acc->full_state = true;
       c4_status_t s   = parse_storage_map(st, state_obj, &acc->storage);
-      if (s != C4_SUCCESS) {
-        if (acc->storage) {
-          eth_storage_override_t* cur = acc->storage;
-          while (cur) {
-            eth_storage_override_t* next = cur->next;
-            safe_free(cur);
-            cur = next;
-          }
-        }
-        safe_free(acc);
-        return s;
-      }
+      if (s != C4_SUCCESS) return s;
     }
     else if (has_stateDiff) {
       char* err = (char*) json_validate(state_diff_obj, "{*:bytes32}", "stateOverrides.stateDiff");
-      if (err) {
-        safe_free(acc);
-        return c4_state_set_error_msg(st, err);
-      }
+      if (err) return c4_state_set_error_msg(st, err);
       acc->full_state = false;
       c4_status_t s   = parse_storage_map(st, state_diff_obj, &acc->storage);
-      if (s != C4_SUCCESS) {
-        if (acc->storage) {
-          eth_storage_override_t* cur = acc->storage;
-          while (cur) {
-            eth_storage_override_t* next = cur->next;
-            safe_free(cur);
-            cur = next;
-          }
-        }
-        safe_free(acc);
-        return s;
-      }
+      if (s != C4_SUCCESS) return s;
     }
-
-    acc->next     = out->accounts;
-    out->accounts = acc;
   }
 
   return C4_SUCCESS;
 }
 
+c4_status_t eth_parse_state_overrides_state(c4_state_t* state, json_t overrides, eth_state_overrides_t* out) {
+  c4_status_t status = parse_state_overrides(state, overrides, out);
+  if (status != C4_SUCCESS && out) eth_state_overrides_free(out);
+  return status;
+}
+
 c4_status_t eth_parse_state_overrides(verify_ctx_t* ctx, json_t overrides, eth_state_overrides_t* out) {
   if (!ctx) return C4_ERROR;
   return eth_parse_state_overrides_state(&ctx->state, overrides, out);
-- 
2.43.0


From adbae3a229fd12fa65d760dfa5e0a413d46228bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:50 +0000
Subject: [PATCH 075/154] fix: apply an empty state override

'state: {}' replaces the whole storage of the account and must not be ignored.
---
 src/chains/eth/verifier/call_evmone.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index 9112120..833d6ee 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -406,7 +406,7 @@ static void apply_state_overrides(evmone_context_t* context, const eth_state_ove
       acc->code      = a->code;
       acc->free_code = false;
     }
-    if (a->storage) {
+    if (a->storage || a->full_state) {
       acc->full_state_override = a->full_state;
       for (const eth_storage_override_t* s = a->storage; s; s = s->next) {
         bool tmp = false;
-- 
2.43.0


From ff184164e332c0ac2108d242edd027f1f528956d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:01 +0000
Subject: [PATCH 076/154] fix: failed sub-calls must not change the storage of
 their caller

A slot already changed by a caller was written in the caller's state, so the value
survived the revert of the sub-call.
---
 src/chains/eth/verifier/call_ctx.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/call_ctx.h b/src/chains/eth/verifier/call_ctx.h
index 013f7ec..9c4c5f3 100644
--- a/src/chains/eth/verifier/call_ctx.h
+++ b/src/chains/eth/verifier/call_ctx.h
@@ -172,14 +172,16 @@ static changed_account_t* create_changed_account(evmone_context_t* ctx, const ad
 }
 
 static void set_changed_storage(evmone_context_t* ctx, const address_t addr, const bytes32_t key, const bytes32_t value, bool* account_created, bool* storage_created) {
-  changed_storage_t* storage = get_changed_storage(ctx, addr, key);
+  // always use the account of this context (created as copy of the parent's), since the changes are dropped if the call fails.
+  changed_account_t* account = create_changed_account(ctx, addr, account_created);
+  changed_storage_t* storage = account->storage;
+  while (storage && memcmp(storage->key, key, 32)) storage = storage->next;
   if (storage) {
     memcpy(storage->value, value, 32);
     *account_created = false;
     *storage_created = false;
   }
   else {
-    changed_account_t* account = create_changed_account(ctx, addr, account_created);
     *storage_created           = true;
     changed_storage_t* storage = safe_calloc(1, sizeof(changed_storage_t));
     memcpy(storage->key, key, 32);
-- 
2.43.0


From 168b8ec647dc74148eb66f3406062e08657b97de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:04 +0000
Subject: [PATCH 077/154] fix: do not execute precompiles behind the end of the
 table

---
 src/chains/eth/precompiles/precompiles_basic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/precompiles/precompiles_basic.c b/src/chains/eth/precompiles/precompiles_basic.c
index a67e331..ee30d81 100644
--- a/src/chains/eth/precompiles/precompiles_basic.c
+++ b/src/chains/eth/precompiles/precompiles_basic.c
@@ -37,7 +37,7 @@
 
 typedef pre_result_t (*precompile_func_t)(bytes_t input, buffer_t* output, uint64_t* gas_used);
 
-#define PRECOMPILE_FN_COUNT 20 // Updated count based on new array size (0x13 + 1)
+#define PRECOMPILE_FN_COUNT (sizeof(precompile_fn) / sizeof(precompile_fn[0]))
 #define data_word_size(x)   ((x + 31) / 32)
 
 #ifdef PRECOMPILED_BN128
@@ -238,7 +238,7 @@ const precompile_func_t precompile_fn[] = {
 };
 
 pre_result_t eth_execute_precompile(const uint8_t* address, const bytes_t input, buffer_t* output, uint64_t* gas_used) {
-  if (!bytes_all_zero(bytes(address, 19)) || address[19] > PRECOMPILE_FN_COUNT) return PRE_INVALID_ADDRESS;
+  if (!bytes_all_zero(bytes(address, 19)) || !address[19] || address[19] > PRECOMPILE_FN_COUNT) return PRE_INVALID_ADDRESS;
   precompile_func_t fn = precompile_fn[address[19] - 1];
   if (fn == NULL) return PRE_NOT_SUPPORTED;
   return fn(input, output, gas_used);
-- 
2.43.0


From c796adc4f39f91873335ed51165a663f293786d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:04 +0000
Subject: [PATCH 078/154] fix: precompiles without enough gas fail, unsupported
 ones are no result

The remaining gas of a precompile underflowed, if there was not enough gas. Addresses
without a precompile are normal accounts, and for precompiles not part of the build the
result of the call is unknown and must not be verified.
---
 src/chains/eth/verifier/call_evmone.c | 33 +++++++++++++--------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index 833d6ee..67c0e06 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -254,19 +254,18 @@ static void host_call(void* context, const struct evmone_message* msg, const uin
   debug_print_address("code from", &msg->code_address);
   EVM_LOG("call gas: %zu, depth: %d, is_static: %s", (size_t) msg->gas, msg->depth, msg->is_static ? "true" : "false");
 
-  if (bytes_all_zero(bytes(msg->code_address.bytes, 19)) && msg->code_address.bytes[19]) {
-    buffer_t     output     = {0};
-    uint64_t     gas_used   = 0;
-    pre_result_t pre_result = eth_execute_precompile(msg->code_address.bytes, bytes(msg->input_data, msg->input_size), &output, &gas_used);
-    result->output_data     = output.data.data;
-    result->output_size     = output.data.len;
-    result->gas_left        = msg->gas - gas_used;
-    result->gas_refund      = 0;
-    result->status_code     = pre_result;
-    if (pre_result != PRE_SUCCESS) {
-      EVM_LOG("Precompile failed with status code: %d", pre_result);
-      result->gas_left = 0;
-    }
+  buffer_t     output     = {0};
+  uint64_t     gas_used   = 0;
+  pre_result_t pre_result = eth_execute_precompile(msg->code_address.bytes, bytes(msg->input_data, msg->input_size), &output, &gas_used);
+  if (pre_result != PRE_INVALID_ADDRESS) {
+    if (pre_result == PRE_NOT_SUPPORTED && !ctx->ctx->state.error) ctx->ctx->state.error = strdup("Precompile not supported");
+    bool success        = pre_result == PRE_SUCCESS && msg->gas >= 0 && gas_used <= (uint64_t) msg->gas;
+    result->output_data = success ? output.data.data : NULL;
+    result->output_size = success ? output.data.len : 0;
+    result->gas_left    = success ? (uint64_t) msg->gas - gas_used : 0;
+    result->gas_refund  = 0;
+    result->status_code = success ? 0 : (pre_result == PRE_SUCCESS ? 3 /* out of gas */ : pre_result);
+    EVM_LOG("Precompile executed with status code: %d", result->status_code);
     add_evm_result(ctx, result, output.data.data);
     return;
   }
@@ -521,10 +520,10 @@ INTERNAL c4_status_t eth_run_call_evmone_with_events(verify_ctx_t* ctx, call_cod
   set_message(&message, tx, &buffer);
 
   // is this a call to a precompile directly?
-  if (bytes_all_zero(bytes(to, 19)) && to[19]) {
-    buffer_t     output     = {0};
-    uint64_t     gas_used   = 0;
-    pre_result_t pre_result = eth_execute_precompile(to, bytes(message.input_data, message.input_size), &output, &gas_used);
+  buffer_t     output     = {0};
+  uint64_t     gas_used   = 0;
+  pre_result_t pre_result = eth_execute_precompile(to, bytes(message.input_data, message.input_size), &output, &gas_used);
+  if (pre_result != PRE_INVALID_ADDRESS) {
     buffer_free(&buffer);
     *call_result = output.data;
     switch (pre_result) {
-- 
2.43.0


From 61bc3e4e81a5ea67288fe7e0931fc9226fc4ae4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:23:36 +0000
Subject: [PATCH 079/154] fix: keep the list of sync periods free of duplicates
 and within its bounds

---
 .../eth/verifier/sync_committee_state.c       | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 13261db..c4554e6 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -383,8 +383,10 @@ static uint32_t cleanup_old_periods(c4_chain_state_t* state, chain_id_t chain_id
           oldest_2nd_index = i;
         }
       }
-      oldest_index = oldest_2nd_index;
-      oldest       = oldest_2nd;
+      if (oldest_2nd) {
+        oldest_index = oldest_2nd_index;
+        oldest       = oldest_2nd;
+      }
     }
 
     // Delete from storage and remove from periods array
@@ -392,7 +394,7 @@ static uint32_t cleanup_old_periods(c4_chain_state_t* state, chain_id_t chain_id
     storage_conf.del(name);
     if (oldest_index < periods - 1)
       memmove(state->data.periods + oldest_index, state->data.periods + oldest_index + 1, (periods - oldest_index - 1) * sizeof(uint32_t));
-    periods--;
+    state->data.periods[--periods] = 0;
   }
 
   return periods;
@@ -448,11 +450,17 @@ INTERNAL bool c4_set_sync_period(uint32_t period, bytes_t validators, chain_id_t
 
   c4_get_storage_config(&storage_conf);
 
-  // Cleanup old periods if storage limit reached
-  uint32_t periods = cleanup_old_periods(&state, chain_id, storage_conf.max_sync_states);
+  bool listed = false;
+  for (uint32_t i = 0; i < MAX_SYNC_PERIODS; i++) listed = listed || state.data.periods[i] == period;
+
+  if (!listed) {
+    // Cleanup old periods if storage limit reached
+    uint32_t max_states = storage_conf.max_sync_states < MAX_SYNC_PERIODS ? storage_conf.max_sync_states : MAX_SYNC_PERIODS;
+    uint32_t periods    = cleanup_old_periods(&state, chain_id, max_states);
 
-  // Add new period to tracking
-  state.data.periods[periods] = period;
+    // Add new period to tracking
+    state.data.periods[periods] = period;
+  }
 
   // Store the sync committee data
   if (!store_sync_period(period, validators, previous_pubkeys_hash, chain_id))
-- 
2.43.0


From 2dd307d01fcb37bd243661260783c66ae4d88a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:08 +0000
Subject: [PATCH 080/154] fix: check the lengths within lists of light client
 updates

---
 src/chains/eth/verifier/sync_committee.c | 108 +++++++++++------------
 src/chains/eth/verifier/sync_committee.h |  13 +++
 2 files changed, 64 insertions(+), 57 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee.c b/src/chains/eth/verifier/sync_committee.c
index aae1fe0..5c66050 100644
--- a/src/chains/eth/verifier/sync_committee.c
+++ b/src/chains/eth/verifier/sync_committee.c
@@ -275,6 +275,51 @@ static bool detect_update_format(bytes_t data) {
          uint32_from_le(data.data) < 1000;
 }
 
+/**
+ * Reads one update of a list of light client updates and checks its bounds and SSZ structure.
+ *
+ * @param chain_id Chain identifier
+ * @param light_client_updates Raw bytes containing one or more light client updates
+ * @param idx Index of the update
+ * @param pos Position of the update, set to the position of the next one
+ * @param update Output parameter for the update
+ * @param state State used to report errors or NULL
+ * @return true if the update is valid
+ */
+INTERNAL bool c4_read_light_client_update(chain_id_t chain_id, bytes_t light_client_updates, uint32_t idx, uint64_t* pos, ssz_ob_t* update, c4_state_t* state) {
+  const char* err         = NULL;
+  uint64_t    data_offset = UPDATE_PREFIX_SIZE;
+  uint64_t    length      = 0;
+
+  if (detect_update_format(light_client_updates)) {
+    data_offset = LIGHTHOUSE_OFFSET_SIZE + SSZ_OFFSET_SIZE;
+    if (((uint64_t) idx + 1) * SSZ_OFFSET_SIZE > light_client_updates.len)
+      err = "invalid lighthouse index exceeds data bounds!";
+    else if ((*pos = uint32_from_le(light_client_updates.data + (idx * SSZ_OFFSET_SIZE))) + UPDATE_PREFIX_SIZE > light_client_updates.len)
+      err = "invalid offset in lighthouse client update!";
+  }
+
+  if (!err) {
+    length = uint64_from_le(light_client_updates.data + *pos);
+    if (length <= SSZ_OFFSET_SIZE || length > light_client_updates.len || *pos + data_offset + length - SSZ_OFFSET_SIZE > light_client_updates.len)
+      err = "invalid length causes overflow or exceeds bounds!";
+  }
+
+  if (!err) {
+    update->bytes = bytes(light_client_updates.data + *pos + data_offset, length - SSZ_OFFSET_SIZE);
+    update->def   = eth_get_light_client_update(c4_eth_get_fork_for_lcu(chain_id, update->bytes));
+    // Validate SSZ structure (checks offsets and ensures all properties exist)
+    if (!update->def)
+      err = "unsupported fork of the light client update";
+    else if (!ssz_is_valid(*update, true, state))
+      err = "Invalid SSZ structure in light client update";
+    *pos += length + SSZ_LENGTH_SIZE;
+  }
+
+  if (err && state) c4_state_add_error(state, err);
+  return err == NULL;
+}
+
 /**
  * Process light client updates with a callback function for each update.
  * This handles both standard SSZ and Lighthouse formats.
@@ -285,66 +330,15 @@ static bool detect_update_format(bytes_t data) {
  * @return true if all updates were processed successfully, false otherwise
  */
 INTERNAL bool c4_process_light_client_updates(verify_ctx_t* ctx, bytes_t light_client_updates, bool (*process_update)(verify_ctx_t*, ssz_ob_t*)) {
-  uint64_t length     = 0;
-  bool     success    = true;
-  bool     lighthouse = detect_update_format(light_client_updates);
-  int      idx        = 0;
-
-  for (uint32_t pos = 0; pos + UPDATE_PREFIX_SIZE < light_client_updates.len; pos += length + SSZ_LENGTH_SIZE, idx++) {
-    uint32_t data_offset        = pos + SSZ_LENGTH_SIZE + SSZ_OFFSET_SIZE;
-    uint32_t data_length_offset = SSZ_OFFSET_SIZE;
-
-    if (lighthouse) {
-      // Check bounds before reading offset
-      if (idx * SSZ_OFFSET_SIZE + SSZ_OFFSET_SIZE > light_client_updates.len) {
-        success = false;
-        c4_state_add_error(&ctx->state, "invalid lighthouse index exceeds data bounds!");
-        break;
-      }
-      pos = uint32_from_le(light_client_updates.data + (idx * SSZ_OFFSET_SIZE));
-      if (pos + UPDATE_PREFIX_SIZE > light_client_updates.len) {
-        success = false;
-        c4_state_add_error(&ctx->state, "invalid offset in lighthouse client update!");
-        break;
-      }
-      data_offset = pos + LIGHTHOUSE_OFFSET_SIZE + SSZ_OFFSET_SIZE;
-    }
-
-    length = uint64_from_le(light_client_updates.data + pos);
+  uint64_t pos    = 0;
+  ssz_ob_t update = {0};
 
-    // Check for integer overflow and bounds
-    if (length > UPDATE_PREFIX_SIZE && (pos + SSZ_LENGTH_SIZE + length > light_client_updates.len || pos + SSZ_LENGTH_SIZE + length < pos)) {
-      success = false;
-      c4_state_add_error(&ctx->state, "invalid length causes overflow or exceeds bounds!");
-      break;
-    }
-
-    bytes_t          light_client_update_bytes = bytes(light_client_updates.data + data_offset, length - data_length_offset);
-    fork_id_t        fork                      = c4_eth_get_fork_for_lcu(ctx->chain_id, light_client_update_bytes);
-    const ssz_def_t* light_client_update_def   = eth_get_light_client_update(fork);
-
-    if (!light_client_update_def) {
-      success = false;
-      break;
-    }
-
-    ssz_ob_t light_client_update_ob = {.bytes = light_client_update_bytes, .def = light_client_update_def};
-
-    // Validate SSZ structure (checks offsets and ensures all properties exist)
-    if (!ssz_is_valid(light_client_update_ob, true, &ctx->state)) {
-      success = false;
-      c4_state_add_error(&ctx->state, "Invalid SSZ structure in light client update");
-      break;
-    }
-
-    // Process this update using the callback
-    if (!process_update(ctx, &light_client_update_ob)) {
-      success = false;
-      break;
-    }
+  for (uint32_t idx = 0; pos + UPDATE_PREFIX_SIZE < light_client_updates.len; idx++) {
+    if (!c4_read_light_client_update(ctx->chain_id, light_client_updates, idx, &pos, &update, &ctx->state)) return false;
+    if (!process_update(ctx, &update)) return false;
   }
 
-  return success;
+  return true;
 }
 
 INTERNAL bool c4_handle_client_updates(verify_ctx_t* ctx, bytes_t light_client_updates) {
diff --git a/src/chains/eth/verifier/sync_committee.h b/src/chains/eth/verifier/sync_committee.h
index 234ea26..09455fc 100644
--- a/src/chains/eth/verifier/sync_committee.h
+++ b/src/chains/eth/verifier/sync_committee.h
@@ -114,6 +114,19 @@ bool c4_update_from_sync_data(verify_ctx_t* ctx);
  */
 bool c4_handle_client_updates(verify_ctx_t* ctx, bytes_t client_updates);
 
+/**
+ * Reads one update of a list of light client updates and checks its bounds and SSZ structure.
+ *
+ * @param chain_id Chain identifier
+ * @param light_client_updates Raw SSZ-encoded updates
+ * @param idx Index of the update
+ * @param pos Position of the update, set to the position of the next one
+ * @param update Output parameter for the update
+ * @param state State used to report errors or NULL
+ * @return true if the update is valid
+ */
+bool c4_read_light_client_update(chain_id_t chain_id, bytes_t light_client_updates, uint32_t idx, uint64_t* pos, ssz_ob_t* update, c4_state_t* state);
+
 /**
  * Generic iterator for processing light client updates with a callback.
  * Handles both standard SSZ and Lighthouse formats, validates structure,
-- 
2.43.0


From 600359a29055096f6b1b0b8230628b97f43a4db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:08 +0000
Subject: [PATCH 081/154] fix: the offset of a light client update must not
 overflow

---
 src/chains/eth/verifier/sync_committee.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/sync_committee.c b/src/chains/eth/verifier/sync_committee.c
index 5c66050..ca7398e 100644
--- a/src/chains/eth/verifier/sync_committee.c
+++ b/src/chains/eth/verifier/sync_committee.c
@@ -255,7 +255,7 @@ INTERNAL bool c4_update_from_sync_data(verify_ctx_t* ctx) {
 fork_id_t c4_eth_get_fork_for_lcu(chain_id_t chain_id, bytes_t data) {
   if (data.len < 4) return 0;
   uint32_t offset = uint32_from_le(data.data);
-  if (offset + 8 > data.len) return 0;
+  if (data.len < 8 || offset > data.len - 8) return 0;
   uint64_t            slot = uint64_from_le(data.data + offset);
   const chain_spec_t* spec = c4_eth_get_chain_spec(chain_id);
   return c4_chain_fork_id(chain_id, epoch_for_slot(slot, spec));
-- 
2.43.0


From a29df466f794dd07625500a319ceb324301bb53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:08 +0000
Subject: [PATCH 082/154] fix: do not trust periods beyond the weak
 subjectivity period before the checkpoint is confirmed

---
 .../eth/verifier/sync_committee_state.c       | 82 ++++++++-----------
 1 file changed, 34 insertions(+), 48 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index c4554e6..08b7e24 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -631,42 +631,27 @@ static void clear_sync_state(chain_id_t chain_id) {
 
 #ifdef USE_CHECKPOINTZ
 /**
- * Find the most recent finalized checkpoint from verified light client updates.
- * Iterates through all cached light_client/updates requests to find the highest finalized slot.
+ * Find the most recent finalized checkpoint within the given light client updates.
  * Used for weak subjectivity validation when syncing across large time gaps.
  *
- * @param ctx Verification context with cached requests
+ * @param ctx Verification context
+ * @param client_updates the light client updates, which are about to be verified and stored
  * @param checkpoint_root Output parameter for the finalized checkpoint root
  * @return Slot number of the last finalized checkpoint, or 0 if not found
  */
-static uint64_t find_last_verified_finality_checkpoint(verify_ctx_t* ctx, bytes32_t checkpoint_root) {
+static uint64_t find_last_finality_checkpoint(verify_ctx_t* ctx, bytes_t client_updates, bytes32_t checkpoint_root) {
   ssz_ob_t finalized_header = {0};
   uint64_t finalized_slot   = 0;
-  for (data_request_t* req = ctx->state.requests; req; req = req->next) {
-    if (req->type == C4_DATA_TYPE_BEACON_API && strncmp(req->url, "eth/v1/beacon/light_client/updates", 34) == 0 && req->response.data && req->response.len > 0 && req->encoding == C4_DATA_ENCODING_SSZ) {
-      bytes_t  client_updates = req->response;
-      uint64_t length         = 0;
-      for (uint32_t pos = 0; pos + UPDATE_PREFIX_SIZE < client_updates.len; pos += length + SSZ_LENGTH_SIZE) {
-        uint32_t data_offset        = pos + SSZ_LENGTH_SIZE + SSZ_OFFSET_SIZE;
-        uint32_t data_length_offset = SSZ_OFFSET_SIZE;
-        length                      = uint64_from_le(client_updates.data + pos);
-
-        if (pos + SSZ_LENGTH_SIZE + length > client_updates.len && length > UPDATE_PREFIX_SIZE) break;
-
-        bytes_t          client_update_bytes = bytes(client_updates.data + data_offset, length - data_length_offset);
-        fork_id_t        fork                = c4_eth_get_fork_for_lcu(ctx->chain_id, client_update_bytes);
-        const ssz_def_t* client_update_def   = eth_get_light_client_update(fork);
-        if (!client_update_def) break;
-
-        ssz_ob_t update    = {.bytes = client_update_bytes, .def = client_update_def};
-        ssz_ob_t finalized = ssz_get(&update, "finalizedHeader");
-        ssz_ob_t header    = ssz_get(&finalized, "beacon");
-        uint64_t slot      = ssz_get_uint64(&header, "slot");
-        if (slot > finalized_slot) {
-          finalized_slot   = slot;
-          finalized_header = header;
-        }
-      }
+  uint64_t pos              = 0;
+  ssz_ob_t update           = {0};
+  for (uint32_t idx = 0; pos + UPDATE_PREFIX_SIZE < client_updates.len; idx++) {
+    if (!c4_read_light_client_update(ctx->chain_id, client_updates, idx, &pos, &update, NULL)) break;
+    ssz_ob_t finalized = ssz_get(&update, "finalizedHeader");
+    ssz_ob_t header    = ssz_get(&finalized, "beacon");
+    uint64_t slot      = ssz_get_uint64(&header, "slot");
+    if (slot > finalized_slot) {
+      finalized_slot   = slot;
+      finalized_header = header;
     }
   }
   if (finalized_slot == 0) return 0;
@@ -691,7 +676,7 @@ static uint64_t find_last_verified_finality_checkpoint(verify_ctx_t* ctx, bytes3
  * ## Implementation
  *
  * When a sync gap exceeds the WSP, this function:
- * 1. Finds the last verified finalized checkpoint from cached light client updates
+ * 1. Finds the last finalized checkpoint within the light client updates (which must be verified afterwards)
  * 2. Queries checkpointz (external beacon node) for the block root at that slot
  * 3. Verifies that both roots match, confirming we're on the canonical chain
  *
@@ -711,9 +696,11 @@ static uint64_t find_last_verified_finality_checkpoint(verify_ctx_t* ctx, bytes3
  * @param ctx Verification context
  * @param sync_state Current sync committee state
  * @param target_period Target period to sync to
- * @return C4_SUCCESS if validation passes, C4_ERROR if checkpoint mismatch, C4_PENDING if waiting for checkpointz response
+ * @param client_updates the light client updates used to sync
+ * @param mismatch set to true, if the checkpoint does not match
+ * @return C4_SUCCESS if the check is done, C4_ERROR if it was not possible, C4_PENDING if waiting for checkpointz response
  */
-static c4_status_t c4_check_weak_subjectivity(verify_ctx_t* ctx, c4_sync_validators_t* sync_state, uint32_t target_period) {
+static c4_status_t c4_check_weak_subjectivity(verify_ctx_t* ctx, c4_sync_validators_t* sync_state, uint32_t target_period, bytes_t client_updates, bool* mismatch) {
   const chain_spec_t* spec                                   = c4_eth_get_chain_spec(ctx->chain_id);
   bytes32_t           last_verified_finality_checkpoint_root = {0};
   if (!spec) return C4_SUCCESS; // Cannot validate without spec
@@ -727,12 +714,10 @@ static c4_status_t c4_check_weak_subjectivity(verify_ctx_t* ctx, c4_sync_validat
   // Check if we exceed weak subjectivity period
   if (epoch_diff <= spec->weak_subjectivity_epochs) return C4_SUCCESS; // Within WSP
 
-  // first find the last finality checkpoint we have verifier during a light_client_update.
-  uint64_t finality_slot = find_last_verified_finality_checkpoint(ctx, last_verified_finality_checkpoint_root);
-  if (!finality_slot) {
-    clear_sync_state(ctx->chain_id);
-    return c4_state_add_error(&ctx->state, "Checkpoint slot not found in local state");
-  }
+  // first find the last finality checkpoint of the light_client_updates.
+  uint64_t finality_slot = find_last_finality_checkpoint(ctx, client_updates, last_verified_finality_checkpoint_root);
+  if (!finality_slot)
+    return c4_state_add_error(&ctx->state, "Checkpoint slot not found in the light client updates");
 
   buffer_t url_buf = {0};
   bprintf(&url_buf, "eth/v1/beacon/blocks/%l/root", finality_slot);
@@ -781,11 +766,7 @@ static c4_status_t c4_check_weak_subjectivity(verify_ctx_t* ctx, c4_sync_validat
     buffer_t  root_buf         = {.data = bytes(checkpointz_root, 32), .allocated = -32};
     json_as_bytes(root, &root_buf);
 
-    if (memcmp(checkpointz_root, last_verified_finality_checkpoint_root, 32) != 0) {
-      clear_sync_state(ctx->chain_id);
-      return c4_state_add_error(&ctx->state, "Weak subjectivity check failed: checkpoint mismatch");
-    }
-
+    *mismatch = memcmp(checkpointz_root, last_verified_finality_checkpoint_root, 32) != 0;
     return C4_SUCCESS;
   }
 
@@ -952,18 +933,23 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
 
     // Strategy 3: Normal sync path - fetch light_client_updates from lowest to target period
     bytes_t light_client_updates = {0};
+    bool    mismatch             = false;
     if (req_client_update(&ctx->state, sync_state.lowest_period, sync_state.current_period - sync_state.lowest_period, ctx->chain_id, &light_client_updates)) {
+      // Check weak subjectivity period BEFORE storing anything, otherwise the next call would find the stored periods and use them without the check.
+#ifdef USE_CHECKPOINTZ
+      TRY_ASYNC(c4_check_weak_subjectivity(ctx, &sync_state, period, light_client_updates, &mismatch));
+#endif
       if (!c4_handle_client_updates(ctx, light_client_updates))
         return c4_state_get_pending_request(&ctx->state) ? C4_PENDING : c4_state_add_error(&ctx->state, "Failed to handle light client updates");
     }
     else
       return ctx->state.error ? C4_ERROR : C4_PENDING;
 
-    // Check weak subjectivity period BEFORE loading new sync state
-    // If this fails, clear_sync_state() is called inside to force re-initialization
-#ifdef USE_CHECKPOINTZ
-    TRY_ASYNC(c4_check_weak_subjectivity(ctx, &sync_state, period));
-#endif
+    // correctly signed updates, which are not part of the canonical chain, force re-initialization
+    if (mismatch) {
+      clear_sync_state(ctx->chain_id);
+      return c4_state_add_error(&ctx->state, "Weak subjectivity check failed: checkpoint mismatch");
+    }
 
     // Load new sync state after successful WSP check
     sync_state = get_validators_from_cache(ctx, period);
-- 
2.43.0


From 0c07bd820575443fe19ea67b56ecc1f0d25a0861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:53 +0000
Subject: [PATCH 083/154] fix: do not read behind a full list of sync periods

---
 src/chains/eth/verifier/sync_committee_state.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 08b7e24..f4baf40 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -362,7 +362,7 @@ static uint32_t cleanup_old_periods(c4_chain_state_t* state, chain_id_t chain_id
     int      oldest_index = 0;
 
     // Find the oldest and latest period
-    for (int i = 0; state->data.periods[i]; i++) {
+    for (uint32_t i = 0; i < periods; i++) {
       uint32_t p = state->data.periods[i];
       if (p > latest || latest == 0)
         latest = p;
-- 
2.43.0


From 6973042d40fd89169520dce7323b3a3175a35d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:29:05 +0000
Subject: [PATCH 084/154] fix: light client updates of other periods than
 requested must not lead to an endless recursion

---
 .../eth/verifier/sync_committee_state.c       | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index f4baf40..896cf1f 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -895,6 +895,29 @@ static c4_status_t c4_try_sync_from_next_period(verify_ctx_t* ctx, uint32_t peri
     return ctx->state.error ? C4_ERROR : C4_PENDING;
 }
 
+/**
+ * Checks that all updates are attested before the given period.
+ * The updates are used to get the validators of this period. An update attested in this period (or later) would be verified
+ * with the very validators we are looking for and so would lead to an endless recursion.
+ *
+ * @param ctx Verification context
+ * @param client_updates Raw bytes containing the light client updates
+ * @param period The period we're trying to sync
+ * @return false if there is an update attested in the period or later
+ */
+static bool are_updates_before_period(verify_ctx_t* ctx, bytes_t client_updates, uint32_t period) {
+  const chain_spec_t* spec   = c4_eth_get_chain_spec(ctx->chain_id);
+  uint64_t            pos    = 0;
+  ssz_ob_t            update = {0};
+  for (uint32_t idx = 0; pos + UPDATE_PREFIX_SIZE < client_updates.len; idx++) {
+    if (!c4_read_light_client_update(ctx->chain_id, client_updates, idx, &pos, &update, NULL)) break; // will be reported when handling it
+    ssz_ob_t attested = ssz_get(&update, "attestedHeader");
+    ssz_ob_t header   = ssz_get(&attested, "beacon");
+    if (period_for_slot(ssz_get_uint64(&header, "slot"), spec) >= period) return false;
+  }
+  return true;
+}
+
 /**
  * Main entry point to retrieve sync committee validators for a given period.
  * Implements a multi-strategy approach: cache lookup → initialization → edge case fallback → normal sync.
@@ -935,6 +958,7 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
     bytes_t light_client_updates = {0};
     bool    mismatch             = false;
     if (req_client_update(&ctx->state, sync_state.lowest_period, sync_state.current_period - sync_state.lowest_period, ctx->chain_id, &light_client_updates)) {
+      if (!are_updates_before_period(ctx, light_client_updates, period)) THROW_ERROR("light client updates do not belong to the requested periods");
       // Check weak subjectivity period BEFORE storing anything, otherwise the next call would find the stored periods and use them without the check.
 #ifdef USE_CHECKPOINTZ
       TRY_ASYNC(c4_check_weak_subjectivity(ctx, &sync_state, period, light_client_updates, &mismatch));
-- 
2.43.0


From 7f3f3f48b6a9dce020a5757cee85d65af16c7cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:46 +0000
Subject: [PATCH 085/154] fix: use the signature slot of light client updates
 for the domain of the signature

---
 src/chains/eth/verifier/sync_committee.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee.c b/src/chains/eth/verifier/sync_committee.c
index ca7398e..289b7a0 100644
--- a/src/chains/eth/verifier/sync_committee.c
+++ b/src/chains/eth/verifier/sync_committee.c
@@ -93,12 +93,20 @@ static bool update_light_client_update(verify_ctx_t* ctx, ssz_ob_t* update) {
   ssz_ob_t sync_committee      = ssz_get(update, "nextSyncCommittee");
   ssz_ob_t attested_state_root = ssz_get(&attested_header, "stateRoot");
   uint64_t attested_slot       = ssz_get_uint64(&attested_header, "slot");
+  uint64_t signature_slot      = ssz_get_uint64(update, "signatureSlot");
+
+  const chain_spec_t* spec = c4_eth_get_chain_spec(ctx->chain_id);
+  if (!spec) RETURN_VERIFY_ERROR(ctx, "unsupported chain!");
+
+  // the fork version used for signing is the one of the slot before the signature slot, which must be signed by the committee of the attested period
+  if (signature_slot <= attested_slot || period_for_slot(signature_slot, spec) != period_for_slot(attested_slot, spec))
+    RETURN_VERIFY_ERROR(ctx, "invalid signature slot of the light client update!");
 
   // calculate the attested blockhash
   ssz_hash_tree_root(attested_header, attested_blockhash);
 
   // verify the signature of the old sync committee against the attested header
-  if (c4_verify_blockroot_signature(ctx, &attested_header, &sync_bits, &signature, attested_slot, previous_pubkeys_hash) != C4_SUCCESS)
+  if (c4_verify_blockroot_signature(ctx, &attested_header, &sync_bits, &signature, signature_slot, previous_pubkeys_hash) != C4_SUCCESS)
     return false;
 
   // verify nextSyncCommittee merkle proof against attested state root
@@ -115,8 +123,7 @@ static bool update_light_client_update(verify_ctx_t* ctx, ssz_ob_t* update) {
 
   // calculate finalized blockhash and store it with the next sync committee
   // +1 because nextSyncCommittee is for the next period
-  const chain_spec_t* spec   = c4_eth_get_chain_spec(ctx->chain_id);
-  uint32_t            period = (attested_slot >> (spec->slots_per_epoch_bits + spec->epochs_per_period_bits)) + 1;
+  uint32_t period = (attested_slot >> (spec->slots_per_epoch_bits + spec->epochs_per_period_bits)) + 1;
   return c4_set_sync_period(period, ssz_get(&sync_committee, "pubkeys").bytes, ctx->chain_id, previous_pubkeys_hash);
 }
 static bool verify_signatures(verify_ctx_t* ctx, ssz_ob_t checkpoint_ob, ssz_ob_t attested_header, ssz_ob_t signatures) {
-- 
2.43.0


From dbb7fd854ccb9eb8e9ee53be6f9d9d0c049d7986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:39:36 +0000
Subject: [PATCH 086/154] fix: sync a missing period from the hash stored with
 the following one

---
 .../eth/verifier/sync_committee_state.c       | 84 ++++++++-----------
 1 file changed, 33 insertions(+), 51 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 896cf1f..76b0526 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -803,8 +803,8 @@ static c4_status_t c4_check_weak_subjectivity(verify_ctx_t* ctx, c4_sync_validat
  *
  * If signature verification fails with period N+1's keys:
  * 1. Check if we have period N+1 cached (highest_period == period + 1)
- * 2. Fetch the light_client_update for period N
- * 3. Extract nextSyncCommittee (which represents period N+1's keys)
+ * 2. Fetch the light_client_update for period N-1
+ * 3. Extract nextSyncCommittee (which represents period N's keys)
  * 4. Hash these keys and compare against the stored previous_pubkeys_hash
  * 5. If match: use the keys from step 3 for verification
  *
@@ -840,59 +840,44 @@ static c4_status_t c4_try_sync_from_next_period(verify_ctx_t* ctx, uint32_t peri
   safe_free(sync_state->validators.data);
 #endif
 
-  // Step 3: Fetch the light_client_update for period N from Beacon API
+  // the hash is only known if period N+1 came from a light client update and was not yet stored deserialized, otherwise we use the normal sync path
+  if (bytes_all_zero(bytes(previous_hash, 32))) return C4_SUCCESS;
+
+  // Step 3: Fetch the light_client_update for period N-1 from Beacon API
   bytes_t   light_client_update = {0};
   bytes32_t computed_root       = {0};
-  if (req_client_update(&ctx->state, period, 1, ctx->chain_id, &light_client_update)) {
-    // Parse the SSZ-encoded update
-    fork_id_t        fork              = c4_eth_get_fork_for_lcu(ctx->chain_id, light_client_update);
-    const ssz_def_t* client_update_def = eth_get_light_client_update(fork);
-
-    if (!client_update_def || light_client_update.len < UPDATE_PREFIX_SIZE)
-      THROW_ERROR("Invalid light client update format in edge case sync");
-
-    // Navigate to the first update in the list
-    uint32_t offset = uint32_from_le(light_client_update.data);
-    if (offset + UPDATE_PREFIX_SIZE > light_client_update.len)
-      THROW_ERROR("Invalid offset in light client update list");
+  ssz_ob_t  update_ob           = {0};
+  uint64_t  pos                 = 0;
+  if (!req_client_update(&ctx->state, period - 1, 1, ctx->chain_id, &light_client_update))
+    return ctx->state.error ? C4_ERROR : C4_PENDING;
 
-    uint64_t length                    = uint64_from_le(light_client_update.data + offset);
-    bytes_t  light_client_update_bytes = bytes(light_client_update.data + offset + UPDATE_PREFIX_SIZE, length - SSZ_OFFSET_SIZE);
-    ssz_ob_t update_ob                 = {.bytes = light_client_update_bytes, .def = client_update_def};
+  if (light_client_update.len < UPDATE_PREFIX_SIZE || !c4_read_light_client_update(ctx->chain_id, light_client_update, 0, &pos, &update_ob, &ctx->state))
+    THROW_ERROR("Invalid light client update format in edge case sync");
 
-    // Step 4: Extract nextSyncCommittee from the update (this is period N+1's committee in period N's update)
-    ssz_ob_t next_sync_committee = ssz_get(&update_ob, "nextSyncCommittee");
-    if (ssz_is_error(next_sync_committee))
-      THROW_ERROR("Failed to extract nextSyncCommittee from light client update");
+  // Step 4: Extract nextSyncCommittee from the update (this is period N's committee in period N-1's update)
+  ssz_ob_t next_sync_committee = ssz_get(&update_ob, "nextSyncCommittee");
+  bytes_t  pubkeys             = ssz_get(&next_sync_committee, "pubkeys").bytes;
 
-    // Step 5: Compute the hash of these keys (optionally deserialize for efficiency)
+  // Step 5: Compute the hash of these keys (optionally deserialized, because this is how the validators are hashed when storing the next period)
 #ifdef BLS_DESERIALIZE
-    bytes_t b = blst_deserialize_p1_affine(ssz_get(&next_sync_committee, "pubkeys").bytes.data, 512, NULL);
+  bytes_t b = blst_deserialize_p1_affine(pubkeys.data, 512, NULL);
+  sha256(b, computed_root);
+  safe_free(b.data);
 #else
-    bytes_t b = bytes_dup(ssz_get(&next_sync_committee, "pubkeys").bytes);
+  sha256(pubkeys, computed_root);
 #endif
-    sha256(b, computed_root);
-
-    // Step 6: Verify computed hash matches the stored previous_pubkeys_hash
-    // This proves the keys we fetched are indeed period N's keys
-    bool valid = memcmp(previous_hash, computed_root, 32) == 0;
-    if (valid)
-      sync_state->validators = b; // Success! Use these keys for verification
-    else {
-      safe_free(b.data);
-      THROW_ERROR("Sync committee root mismatch in period transition edge case");
-    }
 
-    // Step 7: Store period N's keys for future use (with no previous hash since we're using fallback)
-    if (!c4_set_sync_period(period, ssz_get(&next_sync_committee, "pubkeys").bytes, ctx->chain_id, no_prev)) {
-      safe_free(b.data);
-      THROW_ERROR("Failed to store sync committee for period transition");
-    }
+  // Step 6: Verify computed hash matches the stored previous_pubkeys_hash
+  // This proves the keys we fetched are indeed period N's keys
+  if (memcmp(previous_hash, computed_root, 32))
+    THROW_ERROR("Sync committee root mismatch in period transition edge case");
 
-    return C4_SUCCESS;
-  }
-  else
-    return ctx->state.error ? C4_ERROR : C4_PENDING;
+  // Step 7: Store period N's keys for future use (with no previous hash since we're using fallback)
+  if (!c4_set_sync_period(period, pubkeys, ctx->chain_id, no_prev))
+    THROW_ERROR("Failed to store sync committee for period transition");
+
+  *sync_state = get_validators_from_cache(ctx, period); // Success! Use these keys for verification
+  return C4_SUCCESS;
 }
 
 /**
@@ -947,13 +932,10 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
     // Strategy 2: Edge case - we have period+1 but not period (delayed finality at boundary)
     // Uses previous_pubkeys_hash to verify period N's keys without full chain proof
     TRY_ASYNC(c4_try_sync_from_next_period(ctx, period, &sync_state));
+  }
 
-    // Check if edge case fallback succeeded
-    if (sync_state.validators.data) {
-      *target_state = sync_state;
-      return C4_SUCCESS;
-    }
-
+  // Check if edge case fallback succeeded
+  if (sync_state.validators.data == NULL) {
     // Strategy 3: Normal sync path - fetch light_client_updates from lowest to target period
     bytes_t light_client_updates = {0};
     bool    mismatch             = false;
-- 
2.43.0


From f6e76433c1360f4a6db53349c5d4d64e95ef5f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:44 +0000
Subject: [PATCH 087/154] fix: no endless recursion if the sync state can not
 be stored

---
 src/chains/eth/verifier/sync_committee_state.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 76b0526..75023b3 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -489,6 +489,7 @@ static c4_status_t init_sync_state(verify_ctx_t* ctx) {
       if (c4_req_checkpointz_status(state, ctx->chain_id, &checkpoint_epoch, checkpoint_root)) {
         // Set the checkpoint as trusted blockhash
         c4_eth_set_trusted_checkpoint(ctx->chain_id, checkpoint_root);
+        if (c4_get_chain_state(ctx->chain_id).status == C4_STATE_SYNC_EMPTY) THROW_ERROR("the checkpoint could not be stored");
         // Recursively call init_sync_state to process the bootstrap with the new trusted checkpoint
         return init_sync_state(ctx);
       }
@@ -925,8 +926,9 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
     if (sync_state.lowest_period == 0) {
       if (sync_state.highest_period) THROW_ERROR("the last sync state is higher than the required period, but we cannot sync backwards");
       TRY_ASYNC(init_sync_state(ctx));
+      if (c4_get_chain_state(ctx->chain_id).status != C4_STATE_SYNC_PERIODS) THROW_ERROR("the sync state could not be stored");
       // Recursively call to retrieve the period after initialization
-      return c4_get_validators(ctx, period, target_state, NULL);
+      return c4_get_validators(ctx, period, target_state, pubkey_hash);
     }
 
     // Strategy 2: Edge case - we have period+1 but not period (delayed finality at boundary)
-- 
2.43.0


From 32f4dcee6898ebc2fb36c8bc96a273b7c2094149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:12 +0000
Subject: [PATCH 088/154] fix: never list sync periods without a committee if
 the process stops

---
 .../eth/verifier/sync_committee_state.c       | 39 ++++++++++++-------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 75023b3..c138b0c 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -344,17 +344,14 @@ c4_status_t c4_handle_bootstrap(verify_ctx_t* ctx, bytes_t bootstrap_data, bytes
 /**
  * Cleanup old sync periods when storage limit is reached.
  * Keeps the oldest and latest periods, removes intermediate ones.
+ * Only the list is changed, the committees must be deleted after the list was stored.
  *
  * @param state Chain state containing period information
- * @param chain_id Chain identifier
  * @param max_states Maximum number of sync states to keep
  * @return Updated number of periods after cleanup
  */
-static uint32_t cleanup_old_periods(c4_chain_state_t* state, chain_id_t chain_id, uint32_t max_states) {
-  storage_plugin_t storage_conf = {0};
-  c4_get_storage_config(&storage_conf);
+static uint32_t cleanup_old_periods(c4_chain_state_t* state, uint32_t max_states) {
   uint32_t periods = period_count(state);
-  char     name[100];
 
   while (periods >= max_states) {
     uint32_t oldest       = 0;
@@ -389,9 +386,7 @@ static uint32_t cleanup_old_periods(c4_chain_state_t* state, chain_id_t chain_id
       }
     }
 
-    // Delete from storage and remove from periods array
-    sbprintf(name, "sync_%l_%d", (uint64_t) chain_id, oldest);
-    storage_conf.del(name);
+    // remove from periods array
     if (oldest_index < periods - 1)
       memmove(state->data.periods + oldest_index, state->data.periods + oldest_index + 1, (periods - oldest_index - 1) * sizeof(uint32_t));
     state->data.periods[--periods] = 0;
@@ -440,6 +435,8 @@ INTERNAL bool c4_set_sync_period(uint32_t period, bytes_t validators, chain_id_t
   const chain_spec_t* spec         = c4_eth_get_chain_spec(chain_id);
   storage_plugin_t    storage_conf = {0};
   c4_chain_state_t    state        = c4_get_chain_state(chain_id);
+  c4_chain_state_t    old_state    = state;
+  uint32_t            old_periods  = period_count(&old_state);
 
   if (!spec) return false;
   // Initialize period tracking if needed
@@ -456,7 +453,7 @@ INTERNAL bool c4_set_sync_period(uint32_t period, bytes_t validators, chain_id_t
   if (!listed) {
     // Cleanup old periods if storage limit reached
     uint32_t max_states = storage_conf.max_sync_states < MAX_SYNC_PERIODS ? storage_conf.max_sync_states : MAX_SYNC_PERIODS;
-    uint32_t periods    = cleanup_old_periods(&state, chain_id, max_states);
+    uint32_t periods    = cleanup_old_periods(&state, max_states);
 
     // Add new period to tracking
     state.data.periods[periods] = period;
@@ -468,6 +465,17 @@ INTERNAL bool c4_set_sync_period(uint32_t period, bytes_t validators, chain_id_t
 
   // Update chain state
   c4_set_chain_state(chain_id, &state);
+
+  // delete the committees which are not listed anymore, after the list is stored, so there is never a listed period without a committee
+  for (uint32_t i = 0; i < old_periods; i++) {
+    listed = false;
+    for (uint32_t j = 0; j < MAX_SYNC_PERIODS; j++) listed = listed || state.data.periods[j] == old_state.data.periods[i];
+    if (!listed) {
+      char name[100];
+      sbprintf(name, "sync_%l_%d", (uint64_t) chain_id, old_state.data.periods[i]);
+      storage_conf.del(name);
+    }
+  }
   return true;
 }
 
@@ -615,19 +623,20 @@ static void clear_sync_state(chain_id_t chain_id) {
   storage_plugin_t storage_conf = {0};
   c4_get_storage_config(&storage_conf);
 
-  // Delete all sync states for this chain
   c4_chain_state_t chain_state = c4_get_chain_state(chain_id);
+
+  // Delete chain state first, so there is never a listed period without a committee
+  char state_name[100];
+  sbprintf(state_name, "states_%l", (uint64_t) chain_id);
+  storage_conf.del(state_name);
+
+  // Delete all sync states for this chain
   for (uint32_t i = 0; chain_state.status == C4_STATE_SYNC_PERIODS && i < MAX_SYNC_PERIODS && chain_state.data.periods[i] != 0; i++) {
     uint32_t p = chain_state.data.periods[i];
     char     name[100];
     sbprintf(name, "sync_%l_%d", (uint64_t) chain_id, p);
     storage_conf.del(name);
   }
-
-  // Delete chain state
-  char name[100];
-  sbprintf(name, "states_%l", (uint64_t) chain_id);
-  storage_conf.del(name);
 }
 
 #ifdef USE_CHECKPOINTZ
-- 
2.43.0


From e8e8c4425569c44ce2f110deedd188a2195cb4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:05 +0000
Subject: [PATCH 089/154] fix: fetch the code of the proven block instead of an
 unknown block tag

---
 src/chains/eth/prover/eth_req.c       | 6 +++++-
 src/chains/eth/prover/proof_account.c | 2 +-
 src/chains/eth/prover/proof_call.c    | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/prover/eth_req.c b/src/chains/eth/prover/eth_req.c
index 8224b07..f4ba22f 100644
--- a/src/chains/eth/prover/eth_req.c
+++ b/src/chains/eth/prover/eth_req.c
@@ -112,7 +112,11 @@ c4_status_t eth_get_code(prover_ctx_t* ctx, json_t address, json_t* code, uint64
   char            tmp[120];
   buffer_t        buf = stack_buffer(tmp);
   data_request_t* req = NULL;
-  TRY_ASYNC(c4_send_eth_rpc(ctx, "eth_getCode", bprintf(&buf, "[%J,\"lastest\"]", address), DEFAULT_TTL, code, &req));
+  if (block_number)
+    bprintf(&buf, "[%J,\"0x%lx\"]", address, block_number);
+  else
+    bprintf(&buf, "[%J,\"latest\"]", address);
+  TRY_ASYNC(c4_send_eth_rpc(ctx, "eth_getCode", (char*) buf.data.data, DEFAULT_TTL, code, &req));
   if (req && !req->validated) {
     CHECK_JSON(*code, "bytes", "Invalid results for Code: ");
     req->validated = true;
diff --git a/src/chains/eth/prover/proof_account.c b/src/chains/eth/prover/proof_account.c
index b9a8c07..63cdca5 100644
--- a/src/chains/eth/prover/proof_account.c
+++ b/src/chains/eth/prover/proof_account.c
@@ -78,7 +78,7 @@ static c4_status_t create_eth_account_proof(prover_ctx_t* ctx, json_t eth_proof,
   TRY_ASYNC(c4_get_syncdata_proof(ctx, &historic_proof.sync, &sync_proof));
 
   // make sure we have the full code
-  if (strcmp(ctx->method, "eth_getCode") == 0) TRY_ASYNC(eth_get_code(ctx, address, &json_code, 0));
+  if (strcmp(ctx->method, "eth_getCode") == 0) TRY_ASYNC(eth_get_code(ctx, address, &json_code, ssz_get_uint64(&block_data->execution, "blockNumber")));
 
   // build the account proof
   add_dynamic_byte_list(json_get(eth_proof, "accountProof"), &eth_account_proof, "accountProof");
diff --git a/src/chains/eth/prover/proof_call.c b/src/chains/eth/prover/proof_call.c
index cfae54a..87babd0 100644
--- a/src/chains/eth/prover/proof_call.c
+++ b/src/chains/eth/prover/proof_call.c
@@ -193,7 +193,7 @@ static c4_status_t handle_access_list(prover_ctx_t* ctx, json_t storage, bytes_t
     else if ((ctx->flags & C4_PROVER_FLAG_INCLUDE_CODE) == 0)
       code.type = JSON_TYPE_BOOLEAN;
     else
-      TRY_ASYNC(eth_get_code(ctx, (json_t) {.type = JSON_TYPE_STRING, .start = (const char*) account.data - 1, .len = account.len + 2}, &code, 0));
+      TRY_ASYNC(eth_get_code(ctx, (json_t) {.type = JSON_TYPE_STRING, .start = (const char*) account.data - 1, .len = account.len + 2}, &code, block_number));
   }
 
   add_account(
-- 
2.43.0


From e54d02560e301b999a374f42eb7774b89f5cdf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:05 +0000
Subject: [PATCH 090/154] fix: recognize the block tag finalized

---
 src/chains/eth/prover/beacon.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/prover/beacon.c b/src/chains/eth/prover/beacon.c
index 3a8ddfc..3f09e74 100644
--- a/src/chains/eth/prover/beacon.c
+++ b/src/chains/eth/prover/beacon.c
@@ -37,7 +37,7 @@ static inline void create_cache_block_key(bytes32_t key, json_t block) {
   buffer_t buffer = {.allocated = -32, .data = {.data = key, .len = 0}};
   if (strncmp(block.start, "\"latest\"", 8) == 0)
     sbprintf(((char*) key) + 1, "%s", "latest");
-  else if (strncmp(block.start, "\"safe\"", 6) == 0 || strncmp(block.start, "\"finalized\"", 12) == 0) {
+  else if (strncmp(block.start, "\"safe\"", 6) == 0 || strncmp(block.start, "\"finalized\"", 11) == 0) {
     sbprintf((char*) key, "%s", FINALITY_KEY);
     return;
   }
@@ -56,7 +56,7 @@ static beacon_head_t* c4_beacon_cache_get_slot(prover_ctx_t* ctx, json_t block)
   if (strncmp(block.start, "\"latest\"", 8) == 0 && !cached) {
     log_warn("Slatest block not found in cache, but it is requested! This should not happen!");
   }
-  if (cached && strncmp(block.start, "\"finalized\"", 12) == 0) return cached + 1;
+  if (cached && strncmp(block.start, "\"finalized\"", 11) == 0) return cached + 1;
   return cached;
 }
 static bool c4_beacon_cache_get_blockdata(prover_ctx_t* ctx, bytes32_t block_root, beacon_block_t* beacon_block) {
@@ -380,7 +380,7 @@ static inline c4_status_t eth_get_block_roots(prover_ctx_t* ctx, json_t block, b
     return C4_SUCCESS; // latest -  we do nothing since 2 empty root_hashes are returned, which will trigger head-requests
   else if (strncmp(block.start, "\"safe\"", 6) == 0)
     TRY_ASYNC(eth_get_final_hash(ctx, true, data_root, NULL));
-  else if (strncmp(block.start, "\"finalized\"", 12) == 0)
+  else if (strncmp(block.start, "\"finalized\"", 11) == 0)
     TRY_ASYNC(eth_get_final_hash(ctx, false, data_root, NULL));
   else if (block.type == JSON_TYPE_STRING && block.len == 68) // blockhash
     TRY_ASYNC(eth_get_by_hash(ctx, block, data_root));
-- 
2.43.0


From 67adad20afa570416ebd583635fccef620a37f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:19 +0000
Subject: [PATCH 091/154] fix: only use aggregates with enough participants and
 find the latest signed block

---
 src/chains/eth/prover/beacon.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/chains/eth/prover/beacon.c b/src/chains/eth/prover/beacon.c
index 3f09e74..69fe9cf 100644
--- a/src/chains/eth/prover/beacon.c
+++ b/src/chains/eth/prover/beacon.c
@@ -32,6 +32,8 @@
 #include <stdlib.h>
 #include <string.h>
 
+#define MAX_SIGN_BLOCK_DEPTH 16
+
 #ifdef PROVER_CACHE
 static inline void create_cache_block_key(bytes32_t key, json_t block) {
   buffer_t buffer = {.allocated = -32, .data = {.data = key, .len = 0}};
@@ -236,10 +238,15 @@ static bool has_signature(ssz_ob_t* block) {
   if (!block || !block->bytes.data) return false;
   ssz_ob_t sig_body = ssz_get(block, "body");
   ssz_ob_t sync     = ssz_get(&sig_body, "syncAggregate");
-  return !bytes_all_zero(bytes(sync.bytes.data, 64));
+  // the verifier only accepts an aggregate of at least 2/3 of the sync committee
+  uint32_t participants = 0;
+  for (int i = 0; i < 64; i++) {
+    for (uint8_t bits = sync.bytes.data[i]; bits; bits &= bits - 1) participants++;
+  }
+  return participants * 3 >= 512 * 2;
 }
 
-c4_status_t c4_eth_get_signblock_and_parent(prover_ctx_t* ctx, bytes32_t sign_hash, bytes32_t data_hash, ssz_ob_t* sig_block, ssz_ob_t* data_block, bytes32_t data_root_result) {
+static c4_status_t get_signblock_and_parent(prover_ctx_t* ctx, bytes32_t sign_hash, bytes32_t data_hash, ssz_ob_t* sig_block, ssz_ob_t* data_block, bytes32_t data_root_result, int depth) {
 
   beacon_head_t sign   = {0};
   beacon_head_t data   = {0};
@@ -258,16 +265,15 @@ c4_status_t c4_eth_get_signblock_and_parent(prover_ctx_t* ctx, bytes32_t sign_ha
 
   // check if we have a valid signature
   if (status == C4_SUCCESS && !has_signature(sig_block)) {
-    if (bytes_all_zero(bytes(sign.root, 32))) { // we fetched the head block
-      if (data_hash) THROW_ERROR("latest block has no signature");
+    if (depth >= MAX_SIGN_BLOCK_DEPTH) THROW_ERROR("no block found with signature");
+    if (!data_hash) // we are looking for the latest signed block, so we go back
       memcpy(sign.root, ssz_get(sig_block, "parentRoot").bytes.data, 32);
-    }
     else {
       json_t header = {0}; // we need to find the next block first
       TRY_ASYNC(get_beacon_header_by_parent_hash(ctx, sign.root, &header, sign.root));
       if (header.type == JSON_TYPE_NOT_FOUND) THROW_ERROR("no block found with signature");
     }
-    return c4_eth_get_signblock_and_parent(ctx, sign.root, data_hash, sig_block, data_block, data_root_result);
+    return get_signblock_and_parent(ctx, sign.root, data_hash, sig_block, data_block, data_root_result, depth + 1);
   }
 
   // handle data_block
@@ -291,6 +297,10 @@ c4_status_t c4_eth_get_signblock_and_parent(prover_ctx_t* ctx, bytes32_t sign_ha
   return status;
 }
 
+c4_status_t c4_eth_get_signblock_and_parent(prover_ctx_t* ctx, bytes32_t sign_hash, bytes32_t data_hash, ssz_ob_t* sig_block, ssz_ob_t* data_block, bytes32_t data_root_result) {
+  return get_signblock_and_parent(ctx, sign_hash, data_hash, sig_block, data_block, data_root_result, 0);
+}
+
 static c4_status_t eth_get_block(prover_ctx_t* ctx, json_t block, bool full_tx, json_t* result) {
   uint8_t  tmp[200] = {0};
   buffer_t buffer   = stack_buffer(tmp);
-- 
2.43.0


From f7fd0af39cd82effead58a9a9ca436bbe0b02bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:40 +0000
Subject: [PATCH 092/154] fix: attesting indices of attester slashings are 64
 bit

---
 src/chains/eth/ssz/beacon_denep.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/ssz/beacon_denep.c b/src/chains/eth/ssz/beacon_denep.c
index 899e10f..6a441e2 100644
--- a/src/chains/eth/ssz/beacon_denep.c
+++ b/src/chains/eth/ssz/beacon_denep.c
@@ -116,7 +116,7 @@ static const ssz_def_t ATTESTATION_DATA[] = {
 
 // an index attestation is a list of attesting indices, a data and a signature
 static const ssz_def_t INDEX_ATTESTATION[] = {
-    SSZ_LIST("attestingIndices", ssz_uint8, 2048), // the list of attesting indices
+    SSZ_LIST("attestingIndices", ssz_uint64_def, 2048), // the list of attesting indices
     SSZ_CONTAINER("data", ATTESTATION_DATA),       // the data of the attestation
     SSZ_BYTE_VECTOR("signature", 96)               // the BLS signature of the attestation
 };
-- 
2.43.0


From 770288cd792e61a362487aa0ea48c5fedf86d83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:41 +0000
Subject: [PATCH 093/154] fix: write the headers of a header proof in the order
 the verifier expects

---
 src/chains/eth/prover/historic_proof.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/chains/eth/prover/historic_proof.c b/src/chains/eth/prover/historic_proof.c
index 64dfb6e..b2f99c1 100644
--- a/src/chains/eth/prover/historic_proof.c
+++ b/src/chains/eth/prover/historic_proof.c
@@ -79,7 +79,6 @@ static c4_status_t check_historic_proof_header(prover_ctx_t* ctx, blockroot_proo
   json_t    proof_header  = {0};
   json_t    header        = {0};
   bytes32_t root          = {0};
-  buffer_t  proof_headers = {0};
   bytes32_t header_data   = {0};
   buffer_t  header_buf    = stack_buffer(header_data);
   buffer_t  root_buf      = stack_buffer(root);
@@ -90,17 +89,20 @@ static c4_status_t check_historic_proof_header(prover_ctx_t* ctx, blockroot_proo
 
   for (int i = 0; i <= MAX_HISTORIC_PROOF_HEADER_DEPTH; i++) {
     if (i == MAX_HISTORIC_PROOF_HEADER_DEPTH) {
-      buffer_free(&proof_headers);
+      buffer_free(&proof);
       THROW_ERROR("Max header limit reached!");
     }
 
     if (memcmp(root, src_block->data_block_root, 32) == 0) break;
     TRY_ASYNC_CATCH(get_beacon_header(ctx, root, &header), buffer_free(&proof));
     json_get_bytes(header, "parent_root", &root_buf);
-    buffer_add_le(&proof, json_get_uint64(header, "slot"), 8);
-    buffer_add_le(&proof, json_get_uint64(header, "proposer_index"), 8);
-    buffer_append(&proof, json_get_bytes(header, "state_root", &header_buf));
-    buffer_append(&proof, json_get_bytes(header, "body_root", &header_buf));
+    uint8_t  header_bytes[80] = {0};
+    buffer_t header_bytes_buf = stack_buffer(header_bytes);
+    buffer_add_le(&header_bytes_buf, json_get_uint64(header, "slot"), 8);
+    buffer_add_le(&header_bytes_buf, json_get_uint64(header, "proposer_index"), 8);
+    buffer_append(&header_bytes_buf, json_get_bytes(header, "state_root", &header_buf));
+    buffer_append(&header_bytes_buf, json_get_bytes(header, "body_root", &header_buf));
+    buffer_splice(&proof, 0, 0, bytes(header_bytes, sizeof(header_bytes))); // we walk back from the signed header, but the verifier starts with the oldest header
   }
 
   block_proof->sync_aggregate = src_block->sync_aggregate;
-- 
2.43.0


From 97515876cb9c955920dea0d90e8c5c5dc9ce032d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:51 +0000
Subject: [PATCH 094/154] fix: keep the proof of an empty list of logs

---
 src/chains/eth/prover/eth_tools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/prover/eth_tools.c b/src/chains/eth/prover/eth_tools.c
index 5aa8c44..1e7f12f 100644
--- a/src/chains/eth/prover/eth_tools.c
+++ b/src/chains/eth/prover/eth_tools.c
@@ -30,7 +30,7 @@
 #include "version.h"
 
 static void set_data(ssz_builder_t* req, const char* name, ssz_builder_t data) {
-  if (data.fixed.data.data || data.dynamic.data.data)
+  if (data.def)
     ssz_add_builders(req, name, data);
   else
     ssz_add_bytes(req, name, bytes(NULL, 1));
-- 
2.43.0


From 05a5bb61b7f6658614f49a624ba6a940cfd42992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:27:51 +0000
Subject: [PATCH 095/154] fix: use the period of the highest block for the sync
 data of logs and free the blocks

---
 src/chains/eth/prover/proof_logs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/prover/proof_logs.c b/src/chains/eth/prover/proof_logs.c
index 09d2bf1..b3c6d7a 100644
--- a/src/chains/eth/prover/proof_logs.c
+++ b/src/chains/eth/prover/proof_logs.c
@@ -290,7 +290,7 @@ c4_status_t c4_proof_logs(prover_ctx_t* ctx) {
       if (!highest_block || block->beacon_block.slot > highest_block->beacon_block.slot) highest_block = block;
     }
     for (proof_logs_block_t* block = blocks; block; block = block->next)
-      block->block_proof.sync.required_period = highest_block->beacon_block.slot << (chain->slots_per_epoch_bits + chain->epochs_per_period_bits);
+      block->block_proof.sync.required_period = (highest_block->beacon_block.slot + 1) >> (chain->slots_per_epoch_bits + chain->epochs_per_period_bits);
   }
 
   // create the merkle proofs for all the blocks
@@ -298,7 +298,7 @@ c4_status_t c4_proof_logs(prover_ctx_t* ctx) {
     TRY_ASYNC_CATCH(proof_block(ctx, block), free_blocks(blocks));
 
   if (ctx->flags & C4_PROVER_FLAG_INCLUDE_SYNC && highest_block)
-    TRY_ASYNC(c4_get_syncdata_proof(ctx, &highest_block->block_proof.sync, &sync_proof));
+    TRY_ASYNC_CATCH(c4_get_syncdata_proof(ctx, &highest_block->block_proof.sync, &sync_proof), free_blocks(blocks));
 
   // serialize the proof
   serialize_log_proof(ctx, blocks, logs, sync_proof);
-- 
2.43.0


From fb333b541e820bfb29a16ede09bef9081a56a3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:11 +0000
Subject: [PATCH 096/154] fix: add the sync committee which signed the header
 to the sync data

---
 src/chains/eth/prover/historic_proof.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/prover/historic_proof.c b/src/chains/eth/prover/historic_proof.c
index b2f99c1..ead68b5 100644
--- a/src/chains/eth/prover/historic_proof.c
+++ b/src/chains/eth/prover/historic_proof.c
@@ -407,13 +407,18 @@ static c4_status_t update_syncdata_state(prover_ctx_t* ctx, syncdata_state_t* sy
   return C4_SUCCESS;
 }
 
+// the period of the sync committee, which signed the block of the given slot (the signature is part of the next slot).
+static uint64_t signature_period(uint64_t signed_slot, const chain_spec_t* chain) {
+  return (signed_slot + 1) >> (chain->epochs_per_period_bits + chain->slots_per_epoch_bits);
+}
+
 c4_status_t c4_check_blockroot_proof(prover_ctx_t* ctx, blockroot_proof_t* block_proof, beacon_block_t* src_block) {
   const chain_spec_t* chain = c4_eth_get_chain_spec(ctx->chain_id);
   if (!chain) THROW_ERROR("unsupported chain id!");
 
   // set the periods in the sync daata
   // we also allow pending requests here
-  block_proof->sync.required_period = max64(block_proof->sync.required_period, (uint64_t) (src_block->slot >> (chain->epochs_per_period_bits + chain->slots_per_epoch_bits)));
+  block_proof->sync.required_period = max64(block_proof->sync.required_period, signature_period(src_block->slot, chain));
   c4_status_t update_status         = update_syncdata_state(ctx, &block_proof->sync, chain);
 
   // we continue, if only light_clientupdates are pending, but we wait for checkpoints, since we need to make decisions based on the checkpoint period.
@@ -421,9 +426,13 @@ c4_status_t c4_check_blockroot_proof(prover_ctx_t* ctx, blockroot_proof_t* block
 
   // should we use historic summaries?
   TRY_ASYNC(check_historic_proof_direct(ctx, block_proof, src_block));
-  if (block_proof->historic_proof.len) return update_status;
 
   // no proof means we use the current, but do we we need headers-proof?
-  TRY_ASYNC(check_historic_proof_header(ctx, block_proof, src_block));
+  if (!block_proof->historic_proof.len)
+    TRY_ASYNC(check_historic_proof_header(ctx, block_proof, src_block));
+
+  // the client needs the sync committee, which signed the header
+  if (block_proof->type != HISTORIC_PROOF_NONE)
+    block_proof->sync.required_period = max64(block_proof->sync.required_period, signature_period(uint64_from_le(block_proof->proof_header.data), chain));
   return update_status;
 }
-- 
2.43.0


From 1ac45780adb3209db1f4b7c1a294716ec3c6a524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:28:36 +0000
Subject: [PATCH 097/154] fix: use the period of the block for its historic
 proof

---
 src/chains/eth/prover/historic_proof.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/chains/eth/prover/historic_proof.c b/src/chains/eth/prover/historic_proof.c
index ead68b5..bf37aa5 100644
--- a/src/chains/eth/prover/historic_proof.c
+++ b/src/chains/eth/prover/historic_proof.c
@@ -156,6 +156,11 @@ static c4_status_t get_historical_summaries(prover_ctx_t* ctx, beacon_block_t* b
    */
 }
 
+// the period of the sync committee, which signed the block of the given slot (the signature is part of the next slot).
+static uint64_t signature_period(uint64_t signed_slot, const chain_spec_t* chain) {
+  return (signed_slot + 1) >> (chain->epochs_per_period_bits + chain->slots_per_epoch_bits);
+}
+
 static c4_status_t check_historic_proof_direct(prover_ctx_t* ctx, blockroot_proof_t* block_proof, beacon_block_t* src_block) {
   uint64_t            slot          = src_block->slot;
   c4_status_t         status        = C4_SUCCESS;
@@ -163,20 +168,21 @@ static c4_status_t check_historic_proof_direct(prover_ctx_t* ctx, blockroot_proo
   json_t              history_proof = {0};
   uint8_t             tmp[200]      = {0};
   buffer_t            buf           = stack_buffer(tmp);
-  buffer_t            buf2          = stack_buffer(tmp);
+  char                path[100]     = {0};
   const chain_spec_t* chain         = c4_eth_get_chain_spec(ctx->chain_id);
   bytes_t             blocks        = {0};
 
   if (chain == NULL) THROW_ERROR("unsupported chain id!");
   if (!ctx->client_state.len || !(ctx->flags & C4_PROVER_FLAG_CHAIN_STORE)) return C4_SUCCESS; // no client state means we can't check for historic proofs and assume we simply use the synccommittee for this block.
   uint64_t state_period = block_proof->sync.oldest_period;                                     // this is the oldest period we have in the client state
-  uint64_t block_period = block_proof->sync.required_period;                                   // the period of the target block
+  uint64_t block_period = slot >> (chain->epochs_per_period_bits + chain->slots_per_epoch_bits); // the period of the target block
   if (!state_period) return C4_SUCCESS;                                                        // the client does not have a state yet, so he might as well get the head and verify the block.
-  if (block_period >= state_period) return C4_SUCCESS;                                         // the target block is within the current range of the client
+  if (signature_period(slot, chain) >= state_period) return C4_SUCCESS;                        // the target block is within the current range of the client
 
   TRY_ASYNC(c4_beacon_get_block_for_eth(ctx, json_parse("\"latest\""), &block)); // we get the latest because we know for latest we get the a proof for the state. Older sztates are not stored
   TRY_ADD_ASYNC(status, get_historical_summaries(ctx, &block, &history_proof));
-  TRY_ADD_ASYNC(status, c4_send_internal_request(ctx, bprintf(&buf2, "period_store/%d/blocks.ssz", block_period), NULL, 0, &blocks)); // get the blockd
+  sbprintf(path, "period_store/%l/blocks.ssz", block_period);
+  TRY_ADD_ASYNC(status, c4_send_internal_request(ctx, path, NULL, 0, &blocks)); // get the blockd
   TRY_ASYNC(status);                                                                                                                  // finish requests before continuing
 
   uint32_t  offset_period  = (uint32_t) (chain->fork_epochs[C4_FORK_BELLATRIX] >> chain->epochs_per_period_bits);
@@ -407,11 +413,6 @@ static c4_status_t update_syncdata_state(prover_ctx_t* ctx, syncdata_state_t* sy
   return C4_SUCCESS;
 }
 
-// the period of the sync committee, which signed the block of the given slot (the signature is part of the next slot).
-static uint64_t signature_period(uint64_t signed_slot, const chain_spec_t* chain) {
-  return (signed_slot + 1) >> (chain->epochs_per_period_bits + chain->slots_per_epoch_bits);
-}
-
 c4_status_t c4_check_blockroot_proof(prover_ctx_t* ctx, blockroot_proof_t* block_proof, beacon_block_t* src_block) {
   const chain_spec_t* chain = c4_eth_get_chain_spec(ctx->chain_id);
   if (!chain) THROW_ERROR("unsupported chain id!");
-- 
2.43.0


From 949dd1dac83b8afba26a74de46b53bac04d265bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:14 +0000
Subject: [PATCH 098/154] fix: prove the sender and the contract even if the
 access list does not mention them

---
 src/chains/eth/prover/proof_call.c | 31 ++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/prover/proof_call.c b/src/chains/eth/prover/proof_call.c
index 87babd0..3a5d5fc 100644
--- a/src/chains/eth/prover/proof_call.c
+++ b/src/chains/eth/prover/proof_call.c
@@ -205,6 +205,20 @@ static c4_status_t handle_access_list(prover_ctx_t* ctx, json_t storage, bytes_t
   return C4_SUCCESS;
 }
 
+static bool same_address(json_t a, json_t b) {
+  address_t addresses[2] = {0};
+  buffer_t  buf_a        = stack_buffer(addresses[0]);
+  buffer_t  buf_b        = stack_buffer(addresses[1]);
+  return json_as_bytes(a, &buf_a).len == 20 && json_as_bytes(b, &buf_b).len == 20 && memcmp(addresses[0], addresses[1], 20) == 0;
+}
+
+static bool access_list_contains(json_t access_list, json_t address) {
+  json_for_each_value(access_list, values) {
+    if (same_address(json_get(values, "address"), address)) return true;
+  }
+  return false;
+}
+
 c4_status_t c4_get_eth_proofs(prover_ctx_t* ctx, json_t tx, json_t trace, uint64_t block_number, ssz_builder_t* builder, address_t miner, const eth_state_overrides_t* overrides) {
   c4_status_t status       = C4_SUCCESS;
   json_t      eth_proof    = {0};
@@ -212,9 +226,22 @@ c4_status_t c4_get_eth_proofs(prover_ctx_t* ctx, json_t tx, json_t trace, uint64
   uint8_t     address[20]  = {0};
   int         accounts_len = 0;
 
-  if (ctx->flags & C4_PROVER_FLAG_USE_ACCESSLIST) {
+  if (overrides || (ctx->flags & C4_PROVER_FLAG_USE_ACCESSLIST)) { // with overrides we always fetch the access list
     json_t access_list = json_get(trace, "accessList");
-    accounts_len       = json_len(access_list);
+    json_t implicit[2] = {json_get(tx, "to"), json_get(tx, "from")}; // the access list does not mention these as long as their storage is not used.
+    for (int i = 0; i < 2; i++) {
+      if (implicit[i].type == JSON_TYPE_STRING && (access_list_contains(access_list, implicit[i]) || (i && same_address(implicit[0], implicit[1]))))
+        implicit[i] = (json_t) {0};
+      if (implicit[i].type == JSON_TYPE_STRING) accounts_len++;
+    }
+    accounts_len += json_len(access_list);
+    for (int i = 0; i < 2; i++) {
+      if (implicit[i].type != JSON_TYPE_STRING) continue;
+      buffer_t buf = stack_buffer(address);
+      account      = bytes(implicit[i].start + 1, implicit[i].len - 2);
+      json_as_bytes(implicit[i], &buf);
+      TRY_ADD_ASYNC(status, handle_access_list(ctx, (json_t) {.type = JSON_TYPE_NOT_FOUND}, account, (json_t) {0}, accounts_len, block_number, address, builder, overrides));
+    }
     json_for_each_value(access_list, values) {
       buffer_t buf  = stack_buffer(address);
       json_t   addr = json_get(values, "address");
-- 
2.43.0


From 177de4ff56628eef9ba82997f577917a11ba6bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:39 +0000
Subject: [PATCH 099/154] fix: left pad the storage keys a node returns without
 leading zeros

---
 src/chains/eth/prover/eth_tools.c     | 9 +++++++++
 src/chains/eth/prover/eth_tools.h     | 1 +
 src/chains/eth/prover/proof_account.c | 6 ++----
 src/chains/eth/prover/proof_call.c    | 6 +-----
 4 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/chains/eth/prover/eth_tools.c b/src/chains/eth/prover/eth_tools.c
index 1e7f12f..6453676 100644
--- a/src/chains/eth/prover/eth_tools.c
+++ b/src/chains/eth/prover/eth_tools.c
@@ -75,6 +75,15 @@ static void ssz_add_block_proof(ssz_builder_t* builder, beacon_block_t* block_da
   ssz_add_bytes(builder, "block", bytes(buffer, l));
 }
 
+void eth_ssz_add_storage_key(ssz_builder_t* builder, json_t key) {
+  bytes32_t tmp   = {0};
+  bytes32_t key32 = {0};
+  buffer_t  buf   = stack_buffer(tmp);
+  bytes_t   data  = json_as_bytes(key, &buf);
+  memcpy(key32 + 32 - data.len, data.data, data.len);
+  ssz_add_bytes(builder, "key", bytes(key32, 32));
+}
+
 ssz_builder_t eth_ssz_create_state_proof(prover_ctx_t* ctx, json_t block_number, beacon_block_t* block, blockroot_proof_t* historic_proof) {
   uint8_t       empty_selector = 0;
   bytes32_t     body_root      = {0};
diff --git a/src/chains/eth/prover/eth_tools.h b/src/chains/eth/prover/eth_tools.h
index b347ef2..9960aaf 100644
--- a/src/chains/eth/prover/eth_tools.h
+++ b/src/chains/eth/prover/eth_tools.h
@@ -37,6 +37,7 @@ typedef struct eth_state_overrides eth_state_overrides_t;
 #define FROM_JSON(data, type) ssz_builder_from(ssz_from_json(data, eth_ssz_verification_type(type), &ctx->state))
 
 bytes_t       eth_create_proof_request(chain_id_t chain_id, ssz_builder_t data, ssz_builder_t proof, ssz_builder_t sync_data);
+void          eth_ssz_add_storage_key(ssz_builder_t* builder, json_t key); // adds the key as bytes32, even if the node removed the leading zeros
 ssz_builder_t eth_ssz_create_state_proof(prover_ctx_t* ctx, json_t block_number, beacon_block_t* block, blockroot_proof_t* historic_proof);
 c4_status_t   c4_eth_get_receipt_proof(prover_ctx_t* ctx, bytes32_t block_hash, json_t block_receipts, uint32_t tx_index, json_t* receipt, ssz_ob_t* receipt_proof);
 c4_status_t   c4_get_eth_proofs(prover_ctx_t* ctx, json_t tx, json_t trace, uint64_t block_number, ssz_builder_t* builder, address_t miner, const eth_state_overrides_t* overrides);
diff --git a/src/chains/eth/prover/proof_account.c b/src/chains/eth/prover/proof_account.c
index 63cdca5..1db457c 100644
--- a/src/chains/eth/prover/proof_account.c
+++ b/src/chains/eth/prover/proof_account.c
@@ -54,12 +54,10 @@ static void add_dynamic_byte_list(json_t bytes_list, ssz_builder_t* builder, cha
 
 static ssz_builder_t create_storage_proof(prover_ctx_t* ctx, const ssz_def_t* def, json_t storage_list) {
   ssz_builder_t storage_proof = {.def = def};
-  bytes32_t     tmp;
-  buffer_t      tmp_buffer = stack_buffer(tmp);
-  int           len        = json_len(storage_list);
+  int           len           = json_len(storage_list);
   json_for_each_value(storage_list, entry) {
     ssz_builder_t storage_builder = {.def = def->def.vector.type};
-    ssz_add_bytes(&storage_builder, "key", json_as_bytes(json_get(entry, "key"), &tmp_buffer));
+    eth_ssz_add_storage_key(&storage_builder, json_get(entry, "key"));
     add_dynamic_byte_list(json_get(entry, "proof"), &storage_builder, "proof");
     ssz_add_dynamic_list_builders(&storage_proof, len, storage_builder);
   }
diff --git a/src/chains/eth/prover/proof_call.c b/src/chains/eth/prover/proof_call.c
index 3a5d5fc..c6aa27b 100644
--- a/src/chains/eth/prover/proof_call.c
+++ b/src/chains/eth/prover/proof_call.c
@@ -74,8 +74,6 @@ static c4_status_t create_eth_call_proof(prover_ctx_t* ctx, ssz_builder_t accoun
 
 static void add_account(prover_ctx_t* ctx, ssz_builder_t* builder, json_t values, bytes_t address, json_t code, int accounts_len) {
   builder->def                  = ssz_get_def(eth_ssz_verification_type(ETH_SSZ_VERIFY_CALL_PROOF), "accounts");
-  bytes_t          key          = {0};
-  buffer_t         buf          = {0};
   ssz_builder_t    account      = ssz_builder_for_def(builder->def->def.vector.type);
   const ssz_def_t* code_def     = ssz_get_def(account.def, "code");
   bool             include_code = ctx->flags & C4_PROVER_FLAG_INCLUDE_CODE;
@@ -100,14 +98,12 @@ static void add_account(prover_ctx_t* ctx, ssz_builder_t* builder, json_t values
 
   json_for_each_value(storage, val) {
     ssz_builder_t storage_key = ssz_builder_for_def(storage_list.def->def.vector.type);
-    ssz_add_bytes(&storage_key, "key", json_as_bytes(json_get(val, "key"), &buf));
+    eth_ssz_add_storage_key(&storage_key, json_get(val, "key"));
     add_dynamic_byte_list(json_get(val, "proof"), &storage_key, "proof");
     ssz_add_dynamic_list_builders(&storage_list, storage_len, storage_key);
   }
   ssz_add_builders(&account, "storageProof", storage_list);
   ssz_add_dynamic_list_builders(builder, accounts_len, account);
-
-  buffer_free(&buf);
 }
 
 static bool storage_key_is_overridden(const eth_account_override_t* acc_override, bytes32_t key) {
-- 
2.43.0


From 5f8c25a4faacbc5f20092285fb8dc694c8b21f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:53 +0000
Subject: [PATCH 100/154] fix: pass the bytes of the light client updates to
 the internal request

---
 src/chains/eth/prover/historic_proof.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/prover/historic_proof.c b/src/chains/eth/prover/historic_proof.c
index bf37aa5..342d3b0 100644
--- a/src/chains/eth/prover/historic_proof.c
+++ b/src/chains/eth/prover/historic_proof.c
@@ -304,7 +304,7 @@ static c4_status_t fetch_updates_data(prover_ctx_t* ctx, syncdata_state_t* sync_
   char     query[100] = {0};
   sbprintf(query, "start_period=%l&count=%l", sync_data->newest_period, sync_data->required_period - sync_data->newest_period);
   if (ctx->flags & C4_PROVER_FLAG_CHAIN_STORE)
-    TRY_ASYNC(c4_send_internal_request(ctx, "lcu_updates", query, 0, &result));
+    TRY_ASYNC(c4_send_internal_request(ctx, "lcu_updates", query, 0, &result.bytes));
   else
     TRY_ASYNC(c4_send_beacon_ssz(ctx, "eth/v1/beacon/light_client/updates", query, NULL, DEFAULT_TTL, &result));
 
-- 
2.43.0


From e04632cf1de0ae57a939461114d112941367be84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:41:35 +0000
Subject: [PATCH 101/154] fix: add the zk proof to the proof of logs

---
 src/chains/eth/prover/proof_logs.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/prover/proof_logs.c b/src/chains/eth/prover/proof_logs.c
index b3c6d7a..ebdc63c 100644
--- a/src/chains/eth/prover/proof_logs.c
+++ b/src/chains/eth/prover/proof_logs.c
@@ -285,7 +285,7 @@ c4_status_t c4_proof_logs(prover_ctx_t* ctx) {
   TRY_ASYNC_CATCH(get_receipts(ctx, blocks), free_blocks(blocks));
 
   // now we have all the blockreceipts and the beaconblock.
-  if (ctx->flags & C4_PROVER_FLAG_INCLUDE_SYNC && ctx->client_state.data && ctx->client_state.len) {
+  if (ctx->flags & (C4_PROVER_FLAG_INCLUDE_SYNC | C4_PROVER_FLAG_ZK_PROOF)) {
     for (proof_logs_block_t* block = blocks; block; block = block->next) {
       if (!highest_block || block->beacon_block.slot > highest_block->beacon_block.slot) highest_block = block;
     }
@@ -297,7 +297,11 @@ c4_status_t c4_proof_logs(prover_ctx_t* ctx) {
   for (proof_logs_block_t* block = blocks; block; block = block->next)
     TRY_ASYNC_CATCH(proof_block(ctx, block), free_blocks(blocks));
 
-  if (ctx->flags & C4_PROVER_FLAG_INCLUDE_SYNC && highest_block)
+  // a header proof may need the committee of a later period
+  for (proof_logs_block_t* block = blocks; block && highest_block; block = block->next) {
+    if (block->block_proof.sync.required_period > highest_block->block_proof.sync.required_period) highest_block = block;
+  }
+  if (highest_block)
     TRY_ASYNC_CATCH(c4_get_syncdata_proof(ctx, &highest_block->block_proof.sync, &sync_proof), free_blocks(blocks));
 
   // serialize the proof
-- 
2.43.0


From 204fb2c5505593ffb101e5003aaa95f685959a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:34 +0000
Subject: [PATCH 102/154] fix: aggregate public keys which are repeated in a
 sync committee

---
 src/util/crypto.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/crypto.c b/src/util/crypto.c
index 60af08f..0e0a95c 100644
--- a/src/util/crypto.c
+++ b/src/util/crypto.c
@@ -153,8 +153,8 @@ static void blst_aggregate_body(int chunk_idx, void* ctx_ptr) {
 
       // Aggregate the public key
       // We use blst_p1_add_or_double_affine which is safe for adding a point to itself.
-      // blst_p1_add_affine would be slightly faster but undefined if points are equal.
-      // Since public keys in the sync committee are unique, blst_p1_add_affine is safe here.
+      // blst_p1_add_affine would be slightly faster but undefined if points are equal:
+      // validators may be selected more than once for the same sync committee.
       //
       // Note on blst_p1s_add: We intentionally do not use the multi-scalar addition
       // blst_p1s_add despite it using Pippenger's algorithm (approx 60-85% faster).
@@ -165,7 +165,7 @@ static void blst_aggregate_body(int chunk_idx, void* ctx_ptr) {
         first = false;
       }
       else
-        blst_p1_add_affine(&sum, &sum, &pubkey_affine);
+        blst_p1_add_or_double_affine(&sum, &sum, &pubkey_affine);
     }
   }
 
-- 
2.43.0


From d0b48d6877b7c6fcaeeeb1e7cd952e4aec78244a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:35 +0000
Subject: [PATCH 103/154] fix: do not recover public keys for invalid recovery
 ids

---
 src/util/crypto.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/crypto.c b/src/util/crypto.c
index 0e0a95c..c597164 100644
--- a/src/util/crypto.c
+++ b/src/util/crypto.c
@@ -344,6 +344,7 @@ bool secp256k1_recover(const bytes32_t digest, bytes_t signature, uint8_t* pubke
   if (recovery_id >= ECDSA_RECOVERY_ID_OFFSET) {
     recovery_id -= ECDSA_RECOVERY_ID_OFFSET;
   }
+  if (recovery_id > 3) return false;
 
   if (ecdsa_recover_pub_from_sig(&secp256k1, pub, signature.data, digest, recovery_id))
     return false;
-- 
2.43.0


From eb754e847261ccfdff76cb9d7f412ce3223eea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:15 +0000
Subject: [PATCH 104/154] fix: verify signatures of several threads
 independently

---
 src/util/crypto.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/util/crypto.c b/src/util/crypto.c
index c597164..a690773 100644
--- a/src/util/crypto.c
+++ b/src/util/crypto.c
@@ -299,9 +299,12 @@ skip_standard_aggregation:
   // on the stack (approx 4KB) and disable the group checks.
 
 #define C4_PAIRING_CTX_SIZE (4u * 1024u)
-  static C4_ALIGNED16_PREFIX uint8_t pairing_ctx_buf[C4_PAIRING_CTX_SIZE] C4_ALIGNED16_SUFFIX;
-  blst_pairing*                      ctx  = (blst_pairing*) (void*) pairing_ctx_buf;
-  size_t                             need = blst_pairing_sizeof();
+#if defined(C4_SMALL_STACK) || defined(EMBEDDED) || defined(ESP_PLATFORM)
+  static // single threaded, but with a small stack
+#endif
+      C4_ALIGNED16_PREFIX uint8_t pairing_ctx_buf[C4_PAIRING_CTX_SIZE] C4_ALIGNED16_SUFFIX;
+  blst_pairing* ctx  = (blst_pairing*) (void*) pairing_ctx_buf;
+  size_t        need = blst_pairing_sizeof();
 
   if (need > sizeof(pairing_ctx_buf)) {
     // Should not happen as sizeof(pairing) is ~3.2KB
-- 
2.43.0


From 8e5fdf518d393f5a02437126cd324c8be03810e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:50 +0000
Subject: [PATCH 105/154] fix: free method and arguments of the verifier in the
 bindings

---
 bindings/colibri.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bindings/colibri.c b/bindings/colibri.c
index 901f971..e51780b 100644
--- a/bindings/colibri.c
+++ b/bindings/colibri.c
@@ -37,6 +37,8 @@
 typedef struct {
   verify_ctx_t ctx;
   bytes_t      proof;
+  char*        method;
+  char*        args;
   bool         initialised;
 } c4_verify_ctx_t;
 
@@ -163,7 +165,9 @@ bytes_t c4_prover_get_proof(prover_t* prover) {
 void* c4_verify_create_ctx(bytes_t proof, char* method, char* args, uint64_t chain_id, char* trusted_checkpoint) {
   c4_verify_ctx_t* ctx = calloc(1, sizeof(c4_verify_ctx_t));
   ctx->proof           = bytes_dup(proof);
-  c4_verify_init(&ctx->ctx, ctx->proof, method ? strdup(method) : NULL, args ? json_parse(strdup(args)) : ((json_t) {0}), (chain_id_t) chain_id);
+  ctx->method          = method ? strdup(method) : NULL;
+  ctx->args            = args ? strdup(args) : NULL;
+  c4_verify_init(&ctx->ctx, ctx->proof, ctx->method, args ? json_parse(ctx->args) : ((json_t) {0}), (chain_id_t) chain_id);
   if (trusted_checkpoint && strlen(trusted_checkpoint) == 66) {
     bytes32_t checkpoint;
     hex_to_bytes(trusted_checkpoint + 2, 64, bytes(checkpoint, 32));
@@ -207,8 +211,8 @@ char* c4_verify_execute_json_status(void* ptr) {
 void c4_verify_free_ctx(void* ptr) {
   c4_verify_ctx_t* ctx = (c4_verify_ctx_t*) ptr;
   if (ctx->proof.data) free(ctx->proof.data);
-  if (ctx->ctx.method) free((char*) ctx->ctx.method);
-  if (ctx->ctx.args.start) free((char*) ctx->ctx.args.start);
+  if (ctx->method) free(ctx->method);
+  if (ctx->args) free(ctx->args);
   c4_verify_free_data(&(ctx->ctx));
   free(ctx);
 }
-- 
2.43.0


From ea9050220da099a83974eb6da759010aebffaa68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:50 +0000
Subject: [PATCH 106/154] fix: terminate the responses passed by the bindings

---
 bindings/colibri.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/colibri.c b/bindings/colibri.c
index e51780b..bbab936 100644
--- a/bindings/colibri.c
+++ b/bindings/colibri.c
@@ -146,7 +146,9 @@ void c4_free_prover_ctx(prover_t* ctx) {
 void c4_req_set_response(void* req_ptr, bytes_t data, uint16_t node_index) {
   //  fprintf(stderr, "c4_req_set_response: %p\n : %d\n", req_ptr, data.len);
   data_request_t* ctx      = (data_request_t*) req_ptr;
-  ctx->response            = bytes_dup(bytes(data.data, data.len));
+  ctx->response            = bytes(safe_malloc((size_t) data.len + 1), data.len); // with a terminating 0, because a response may be parsed as JSON
+  if (data.len) memcpy(ctx->response.data, data.data, data.len);
+  ctx->response.data[data.len] = 0;
   ctx->response_node_index = node_index;
 }
 
-- 
2.43.0


From ac8ad558f5a49af06450ea46029ed2287b7ffe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:56 +0000
Subject: [PATCH 107/154] fix: escape strings of SSZ objects written as JSON

---
 src/util/ssz.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/util/ssz.c b/src/util/ssz.c
index 9693354..49bf599 100644
--- a/src/util/ssz.c
+++ b/src/util/ssz.c
@@ -335,6 +335,22 @@ typedef struct {
   bool     no_quotes;
 } ssz_dump_t;
 
+static void dump_string(ssz_dump_t* ctx, bytes_t str) {
+  if (ctx->no_quotes) {
+    buffer_append(&ctx->buf, str);
+    return;
+  }
+  buffer_add_chars(&ctx->buf, "\"");
+  for (uint32_t i = 0; i < str.len; i++) {
+    char c[2] = {(char) str.data[i], 0};
+    if (c[0])
+      bprintf(&ctx->buf, "%S", c);
+    else
+      buffer_add_chars(&ctx->buf, "\\u0000");
+  }
+  buffer_add_chars(&ctx->buf, "\"");
+}
+
 /**
  * Main function for JSON serialization of SSZ objects.
  * Recursively converts SSZ data to JSON format with pretty-printing.
@@ -422,7 +438,7 @@ static void dump(ssz_dump_t* ctx, ssz_ob_t ob, const char* name, int intend) {
     case SSZ_TYPE_LIST: {
       // Lists/vectors: special handling for byte arrays, strings, and complex types
       if (def == &ssz_string_def || def->flags & SSZ_FLAG_STRING)
-        bprintf(buf, ctx->no_quotes ? "%J" : "\"%J\"", (json_t) {.type = JSON_TYPE_OBJECT, .start = (char*) ob.bytes.data, .len = ob.bytes.len});
+        dump_string(ctx, ob.bytes);
       else if (def->def.vector.type->type == SSZ_TYPE_UINT && def->def.vector.type->def.uint.len == 1) { // byte array
         if (def->flags & SSZ_FLAG_UINT) {
           bytes32_t tmp = {0};
-- 
2.43.0


From 8c2699cd9ec53ed76fdbfc7fb7ddee1cf2b70e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:30 +0000
Subject: [PATCH 108/154] fix: an unverified result must not be reported as
 success

---
 src/verifier/verify.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/verifier/verify.c b/src/verifier/verify.c
index 9e864e1..7bcb4b2 100644
--- a/src/verifier/verify.c
+++ b/src/verifier/verify.c
@@ -43,9 +43,8 @@ c4_status_t c4_verify_init(verify_ctx_t* ctx, bytes_t request_bytes, char* metho
   chain_type_t chain_type = c4_chain_type(chain_id);
   // Input validation
   if (!ctx) return C4_ERROR;
-  if (!method) THROW_ERROR("method cannot be NULL");
-
   memset(ctx, 0, sizeof(verify_ctx_t));
+  if (!method) THROW_ERROR("method cannot be NULL");
   if (request_bytes.len == 0) {
     method_type_t method_type = c4_get_method_type(chain_id, method);
     if (method_type == METHOD_UNDEFINED)
@@ -86,7 +85,11 @@ c4_status_t c4_verify(verify_ctx_t* ctx) {
 
   // verify the proof
   if (!handle_verification(ctx))
-    ctx->state.error = bprintf(NULL, "verification for proof of chain %l is not supported", ctx->chain_id);
+    c4_state_add_error(&ctx->state, "verification for proofs of this chain is not supported");
+
+  // never return a result which was not verified
+  if (!ctx->success && !ctx->state.error && !c4_state_get_pending_request(&ctx->state))
+    c4_state_add_error(&ctx->state, "verification failed");
 
   return (ctx->state.error ? C4_ERROR : (c4_state_get_pending_request(&ctx->state) ? C4_PENDING : C4_SUCCESS));
 }
-- 
2.43.0


From 72f7fd819a8f10f9eb35607aee8144ac01fe3162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:30 +0000
Subject: [PATCH 109/154] fix: keep the first error of the verification

---
 src/chains/eth/verifier/eth_verify.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/eth_verify.c b/src/chains/eth/verifier/eth_verify.c
index 99755f5..61a4a70 100644
--- a/src/chains/eth/verifier/eth_verify.c
+++ b/src/chains/eth/verifier/eth_verify.c
@@ -194,7 +194,7 @@ bool c4_eth_verify(verify_ctx_t* ctx) {
       if (ctx->method == NULL && ctx->proof.def->type == SSZ_TYPE_NONE && ctx->sync_data.def->type != SSZ_TYPE_NONE && ctx->data.def->type == SSZ_TYPE_NONE)
     ctx->success = true; // if you only verify the sync data, this is ok
   else {
-    ctx->state.error = strdup("proof is not a supported proof type or not enabled");
+    c4_state_add_error(&ctx->state, "proof is not a supported proof type or not enabled");
     ctx->success     = false;
   }
   return true;
-- 
2.43.0


From d043531ecb04db5f82d20d09426055fd38eba030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:20 +0000
Subject: [PATCH 110/154] fix: free the validation error of the finality
 checkpoints

---
 src/chains/eth/verifier/sync_committee_state.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index c138b0c..6de5110 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -224,9 +224,10 @@ bool c4_req_checkpointz_status(c4_state_t* state, chain_id_t chain_id, uint64_t*
       json_t res = json_parse((char*) req->response.data);
 
       // Validate JSON structure (Beacon API compatible format)
-      const char* err = json_validate(res, "{data:{finalized:{epoch:suint,root:bytes32}}}", "finality checkpoints");
+      char* err = (char*) json_validate(res, "{data:{finalized:{epoch:suint,root:bytes32}}}", "finality checkpoints");
       if (err) {
         c4_state_add_error(state, err);
+        safe_free(err);
         return false;
       }
 
@@ -240,10 +241,9 @@ bool c4_req_checkpointz_status(c4_state_t* state, chain_id_t chain_id, uint64_t*
       json_as_bytes(root, &root_buf);
       return true;
     }
-    else if (req->error) {
+    else if (req->error)
       c4_state_add_error(state, req->error);
-      return false;
-    }
+    return false;
   }
   data_request_t* new_req = safe_calloc(1, sizeof(data_request_t));
   new_req->chain_id       = chain_id;
-- 
2.43.0


From 69678b4b424c9a9084a92cd71af1163292590f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:37 +0000
Subject: [PATCH 111/154] fix: an invalid list of logs in a receipt must not
 lead to billions of iterations

---
 src/chains/eth/verifier/eth_tx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 034829b..af1e7b0 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -302,9 +302,9 @@ INTERNAL bool c4_tx_verify_log_data(verify_ctx_t* ctx, ssz_ob_t log, bytes32_t b
   if (ssz_get(&log, "removed").bytes.data[0]) RETURN_VERIFY_ERROR(ctx, "a log of a verified block is not removed!");
   if (!get_and_remove_tx_type(ctx, &receipt_raw, &type)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
   if (rlp_decode(&receipt_raw, 0, &receipt_raw) != RLP_LIST || rlp_decode(&receipt_raw, 3, &logs) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid to data!");
-  uint32_t logs_len = rlp_decode(&logs, -1, &logs);
+  int logs_len = (int) rlp_decode(&logs, -1, &logs); // negative if the list is invalid
 
-  for (uint32_t i = 0; i < logs_len; i++) {
+  for (int i = 0; i < logs_len; i++) {
     bytes_t log_rlp = {0};
     rlp_decode(&logs, i, &log_rlp);
     if (matches(log, log_rlp)) return true;
-- 
2.43.0


From 3275d8f5daf08752c71d94ec1586bbe8f7573fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:18 +0000
Subject: [PATCH 112/154] fix: only accept a proof of the type required for the
 method on OP chains

---
 src/chains/op/verifier/op_verify.c | 41 ++++++++++++++++++++++++++++--
 1 file changed, 39 insertions(+), 2 deletions(-)

diff --git a/src/chains/op/verifier/op_verify.c b/src/chains/op/verifier/op_verify.c
index 0bf4f80..b791841 100644
--- a/src/chains/op/verifier/op_verify.c
+++ b/src/chains/op/verifier/op_verify.c
@@ -109,9 +109,46 @@ const ssz_def_t* c4_op_get_request_type(chain_type_t chain_type) {
 }
 extern bool verify_eth_local(verify_ctx_t* ctx);
 
+// the type of the proof each method requires, since a proof of a different type would not verify what the method returns.
+static const struct {
+  const char*   method;
+  op_ssz_type_t proof;
+} method_proofs[] = {
+    {"eth_call", OP_SSZ_VERIFY_CALL_PROOF},
+    {"colibri_simulateTransaction", OP_SSZ_VERIFY_CALL_PROOF},
+    {"eth_getProof", OP_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getBalance", OP_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getCode", OP_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getTransactionCount", OP_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getStorageAt", OP_SSZ_VERIFY_ACCOUNT_PROOF},
+    {"eth_getBlockByHash", OP_SSZ_VERIFY_BLOCK_PROOF},
+    {"eth_getBlockByNumber", OP_SSZ_VERIFY_BLOCK_PROOF},
+    {"eth_blockNumber", OP_SSZ_VERIFY_BLOCK_PROOF},
+    {"eth_getLogs", OP_SSZ_VERIFY_LOGS_PROOF},
+    {"eth_verifyLogs", OP_SSZ_VERIFY_LOGS_PROOF},
+    {"eth_getTransactionReceipt", OP_SSZ_VERIFY_RECEIPT_PROOF},
+    {"eth_getTransactionByHash", OP_SSZ_VERIFY_TRANSACTION_PROOF},
+    {"eth_getTransactionByBlockHashAndIndex", OP_SSZ_VERIFY_TRANSACTION_PROOF},
+    {"eth_getTransactionByBlockNumberAndIndex", OP_SSZ_VERIFY_TRANSACTION_PROOF},
+};
+
+static bool proof_fits_method(verify_ctx_t* ctx) {
+  if (ctx->proof.def->type == SSZ_TYPE_NONE) return true; // local methods or sync data only
+  for (int i = 0; i < sizeof(method_proofs) / sizeof(method_proofs[0]); i++) {
+    if (ctx->method && strcmp(ctx->method, method_proofs[i].method) == 0)
+      return ssz_is_type(&ctx->proof, op_ssz_verification_type(method_proofs[i].proof));
+  }
+  return false;
+}
+
 bool c4_op_verify(verify_ctx_t* ctx) {
   if (c4_chain_type(ctx->chain_id) != C4_CHAIN_TYPE_OP) return false;
 
+  if (!proof_fits_method(ctx)) {
+    c4_state_add_error(&ctx->state, "the proof is not of the type required for the method");
+    return true;
+  }
+
   // Handle local methods first (they don't need proofs)
   if (ssz_is_type(&ctx->proof, op_ssz_verification_type(OP_SSZ_VERIFY_BLOCK_PROOF)))
     op_verify_block(ctx);
@@ -134,8 +171,8 @@ bool c4_op_verify(verify_ctx_t* ctx) {
   else if (ctx->method == NULL && ctx->proof.def->type == SSZ_TYPE_NONE && ctx->sync_data.def->type != SSZ_TYPE_NONE && ctx->data.def->type == SSZ_TYPE_NONE)
     ctx->success = true; // if you only verify the sync data, this is ok
   else {
-    ctx->state.error = strdup("proof is not a supported proof type or not enabled");
-    ctx->success     = false;
+    c4_state_add_error(&ctx->state, "proof is not a supported proof type or not enabled");
+    ctx->success = false;
   }
   return true;
 }
-- 
2.43.0


From e41a8bbda186debd5492a6a1aa5db976947bd5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:18 +0000
Subject: [PATCH 113/154] fix: compare the hash of a transaction on OP chains
 with the requested one

---
 src/chains/op/verifier/op_verify_tx.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/chains/op/verifier/op_verify_tx.c b/src/chains/op/verifier/op_verify_tx.c
index 150edc1..32e2146 100644
--- a/src/chains/op/verifier/op_verify_tx.c
+++ b/src/chains/op/verifier/op_verify_tx.c
@@ -58,6 +58,7 @@ bool op_verify_tx_proof(verify_ctx_t* ctx) {
   if (strcmp(ctx->method, "eth_getTransactionByBlockNumberAndIndex") == 0) {
     json_t block_number = json_at(ctx->args, 0);
     if (json_as_uint32(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
+    if (block_number.type != JSON_TYPE_STRING) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
     execution_payload = op_extract_verified_execution_payload(ctx, block_proof, &block_number, NULL);
   }
   else if (strcmp(ctx->method, "eth_getTransactionByBlockHashAndIndex") == 0) {
@@ -80,13 +81,18 @@ bool op_verify_tx_proof(verify_ctx_t* ctx) {
   }
   if (execution_payload == NULL) return false; // error already set
 
+  if (tx_index >= ssz_len(ssz_get(execution_payload, "transactions"))) {
+    safe_free(execution_payload);
+    RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
+  }
+
   // for now we only support the full execution payload
   ssz_ob_t raw              = ssz_at(ssz_get(execution_payload, "transactions"), tx_index);
   ssz_ob_t block_hash       = ssz_get(execution_payload, "blockHash");
   ssz_ob_t block_number     = ssz_get(execution_payload, "blockNumber");
   ssz_ob_t base_fee_per_gas = ssz_get(execution_payload, "baseFeePerGas");
 
-  ctx->success = create_eth_tx_data(ctx, bytes_all_zero(bytes(tx_hash_expected, 32)) ? tx_hash_expected : NULL, raw.bytes, block_hash.bytes.data, ssz_uint64(block_number), ssz_uint64(base_fee_per_gas), tx_index);
+  ctx->success = create_eth_tx_data(ctx, strcmp(ctx->method, "eth_getTransactionByHash") == 0 ? tx_hash_expected : NULL, raw.bytes, block_hash.bytes.data, ssz_uint64(block_number), ssz_uint64(base_fee_per_gas), tx_index);
   safe_free(execution_payload);
   return ctx->success;
 }
\ No newline at end of file
-- 
2.43.0


From 461fa00b8ea794348abc7ee53af58e65349bccf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:18 +0000
Subject: [PATCH 114/154] fix: check the type of the receipt and the index of
 its transaction on OP chains

---
 src/chains/op/verifier/op_verify_receipt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/chains/op/verifier/op_verify_receipt.c b/src/chains/op/verifier/op_verify_receipt.c
index 440c8d7..404568c 100644
--- a/src/chains/op/verifier/op_verify_receipt.c
+++ b/src/chains/op/verifier/op_verify_receipt.c
@@ -59,6 +59,10 @@ bool op_verify_receipt_proof(verify_ctx_t* ctx) {
   ssz_ob_t  block_proof       = ssz_get(&ctx->proof, "block_proof");
   ssz_ob_t* execution_payload = op_extract_verified_execution_payload(ctx, block_proof, NULL, NULL);
   if (!execution_payload) return false;
+  if (!ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_RECEIPT)) || tx_index >= ssz_len(ssz_get(execution_payload, "transactions"))) {
+    safe_free(execution_payload);
+    RETURN_VERIFY_ERROR(ctx, "invalid receipt data type or tx index!");
+  }
 
   ssz_ob_t  raw_tx                  = ssz_at(ssz_get(execution_payload, "transactions"), tx_index);
   ssz_ob_t  block_hash              = ssz_get(execution_payload, "blockHash");
-- 
2.43.0


From 848a6d80917b2866986d83d94810f440d04dd124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:01 +0000
Subject: [PATCH 115/154] fix: limit the size of the payload of OP blocks and
 check the recovered public key

---
 src/chains/op/verifier/op_verify_block.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/chains/op/verifier/op_verify_block.c b/src/chains/op/verifier/op_verify_block.c
index 2611bd0..cb7ba89 100644
--- a/src/chains/op/verifier/op_verify_block.c
+++ b/src/chains/op/verifier/op_verify_block.c
@@ -44,15 +44,19 @@
 
 static const ssz_def_t EXECUTION_PAYLOAD_CONTAINER = SSZ_CONTAINER("payload", DENEP_EXECUTION_PAYLOAD);
 
-static void verify_signature(bytes_t data, bytes_t signature, uint64_t chain_id, address_t address) {
+// max size of a payload (gossip messages are limited to 10MB)
+#define MAX_PAYLOAD_SIZE (16 * 1024 * 1024)
+
+static bool verify_signature(bytes_t data, bytes_t signature, uint64_t chain_id, address_t address) {
   uint8_t buf[96] = {0};
   uint8_t pub[64] = {0};
   uint64_to_be(buf + 64 - 8, chain_id);
   keccak(data, buf + 64);
   keccak(bytes(buf, 96), buf);
-  secp256k1_recover(buf, signature, pub);
+  if (!secp256k1_recover(buf, signature, pub)) return false;
   keccak(bytes(pub, 64), buf);
   memcpy(address, buf + 12, 20);
+  return true;
 }
 
 ssz_ob_t* op_extract_verified_execution_payload(verify_ctx_t* ctx, ssz_ob_t block_proof, json_t* block_number, bytes32_t parent_hash) {
@@ -67,7 +71,10 @@ ssz_ob_t* op_extract_verified_execution_payload(verify_ctx_t* ctx, ssz_ob_t bloc
   }
 
   size_t expected_size = op_zstd_get_decompressed_size(compressed_data.bytes);
-  if (expected_size == 0) RETURN_VERIFY_ERROR(ctx, "failed to get decompressed size");
+  if (expected_size <= 32 || expected_size > MAX_PAYLOAD_SIZE) {
+    c4_state_add_error(&ctx->state, "failed to get decompressed size");
+    return NULL;
+  }
 
   bytes_t decompressed_data = bytes(safe_malloc(expected_size), expected_size);
   size_t  actual_size       = op_zstd_decompress(compressed_data.bytes, decompressed_data);
@@ -79,9 +86,7 @@ ssz_ob_t* op_extract_verified_execution_payload(verify_ctx_t* ctx, ssz_ob_t bloc
   }
 
   // Verify signature from sequencer
-  verify_signature(decompressed_data, signature.bytes, ctx->chain_id, signer);
-
-  if (memcmp(config->sequencer_address, signer, 20)) {
+  if (!verify_signature(decompressed_data, signature.bytes, ctx->chain_id, signer) || memcmp(config->sequencer_address, signer, 20)) {
     safe_free(decompressed_data.data);
     c4_state_add_error(&ctx->state, "invalid sequencer signature");
     return NULL;
-- 
2.43.0


From 8a8b48c5d8b39e1ed971b07fae46fad2b4bb5c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:01 +0000
Subject: [PATCH 116/154] fix: require the requested block for block proofs on
 OP chains

---
 src/chains/op/verifier/op_verify_block.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/chains/op/verifier/op_verify_block.c b/src/chains/op/verifier/op_verify_block.c
index cb7ba89..e2a03a5 100644
--- a/src/chains/op/verifier/op_verify_block.c
+++ b/src/chains/op/verifier/op_verify_block.c
@@ -102,7 +102,7 @@ ssz_ob_t* op_extract_verified_execution_payload(verify_ctx_t* ctx, ssz_ob_t bloc
 
   // check blocknumber
 
-  if (block_number && block_number->len > 2 && block_number->start[1] == '0' && block_number->start[2] == 'x') {
+  if (block_number && block_number->type == JSON_TYPE_STRING && block_number->len > 3 && block_number->start[1] == '0' && block_number->start[2] == 'x') {
     bytes32_t buf    = {0};
     buffer_t  buffer = stack_buffer(buf);
     if (block_number->len == 68) { // must be blockhash
@@ -131,13 +131,14 @@ bool op_verify_block(verify_ctx_t* ctx) {
   ssz_ob_t  block_proof       = ssz_get(&ctx->proof, "block_proof");
   bytes32_t parent_root       = {0};
   bytes32_t withdrawel_root   = {0};
-  ssz_ob_t* execution_payload = op_extract_verified_execution_payload(ctx, block_proof, &block_number, &parent_root);
+  if (block_number.type != JSON_TYPE_STRING || block_number.len < 5) RETURN_VERIFY_ERROR(ctx, "invalid blocknumber");
+  ssz_ob_t* execution_payload = op_extract_verified_execution_payload(ctx, block_proof, &block_number, parent_root);
   if (!execution_payload) return false;
 
   if (is_blocknumber) {
+    if (ctx->flags & VERIFY_FLAG_FREE_DATA) safe_free(ctx->data.bytes.data);
     ctx->data       = ssz_get(execution_payload, "blockNumber");
     ctx->data.bytes = bytes_dup(ctx->data.bytes); // need to copy bytes, because payload will be deleted
-    ctx->success    = true;
     ctx->flags |= VERIFY_FLAG_FREE_DATA;
   }
   else {
@@ -145,6 +146,6 @@ bool op_verify_block(verify_ctx_t* ctx) {
     eth_set_block_data(ctx, ETH_BLOCK_DATA_MASK_ALL, *execution_payload, parent_root, withdrawel_root, include_txs);
   }
   safe_free(execution_payload);
-  ctx->success = true;
-  return true;
+  ctx->success = ctx->state.error == NULL;
+  return ctx->success;
 }
-- 
2.43.0


From 1177b353bf0e97896542575e1f662364497d8959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:01 +0000
Subject: [PATCH 117/154] fix: handle account proofs without arguments on OP
 chains

---
 src/chains/op/verifier/op_verify_account.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/op/verifier/op_verify_account.c b/src/chains/op/verifier/op_verify_account.c
index 13ccab6..fc7bc4c 100644
--- a/src/chains/op/verifier/op_verify_account.c
+++ b/src/chains/op/verifier/op_verify_account.c
@@ -51,7 +51,7 @@ bool op_verify_account_proof(verify_ctx_t* ctx) {
   eth_account_field_t field            = eth_account_get_field(ctx);
   bytes32_t           value            = {0};
   uint32_t            storage_keys_len = ssz_len(ssz_get(&ctx->proof, "storageProof"));
-  json_t              block_number     = json_at(ctx->args, json_len(ctx->args) - 1);
+  json_t              block_number     = json_len(ctx->args) ? json_at(ctx->args, json_len(ctx->args) - 1) : (json_t) {0};
   if (storage_keys_len == 0) storage_keys_len = 1; // the buffer must at least be able to hold one value
 #ifdef _MSC_VER
   bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(_alloca(32 * storage_keys_len), 32 * storage_keys_len) : bytes(value, 32);
-- 
2.43.0


From f7b7bcd6f591edc9d8e550c1f59de15085a1045c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:01 +0000
Subject: [PATCH 118/154] fix: check the requested block of calls on OP chains,
 accept empty results and free the overrides

---
 src/chains/op/verifier/op_verify_call.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/chains/op/verifier/op_verify_call.c b/src/chains/op/verifier/op_verify_call.c
index ab34d99..914b2d1 100644
--- a/src/chains/op/verifier/op_verify_call.c
+++ b/src/chains/op/verifier/op_verify_call.c
@@ -59,19 +59,22 @@ bool op_verify_call_proof(verify_ctx_t* ctx) {
   }
 
   // make sure we have all the code data we need
-  if (eth_get_call_codes(ctx, &call_codes, accounts) != C4_SUCCESS) return false;
+  if (eth_get_call_codes(ctx, &call_codes, accounts) != C4_SUCCESS) {
+    eth_state_overrides_free(&overrides);
+    return false;
+  }
 #ifdef EVMONE
   c4_status_t call_status = eth_run_call_evmone(ctx, call_codes, accounts, json_at(ctx->args, 0), &call_result, overrides_ptr);
 #else
   c4_status_t call_status = c4_state_add_error(&ctx->state, "no EVM is enabled, build with -DEVMONE=1");
 #endif
-  if (call_result.data && (ctx->data.def == NULL || ctx->data.def->type == SSZ_TYPE_NONE)) {
+  if (call_status == C4_SUCCESS && (ctx->data.def == NULL || ctx->data.def->type == SSZ_TYPE_NONE)) {
     ctx->data = (ssz_ob_t) {.bytes = call_result, .def = eth_ssz_verification_type(ETH_SSZ_DATA_BYTES)};
     ctx->flags |= VERIFY_FLAG_FREE_DATA;
     match = true;
   }
   else {
-    match = call_result.data && bytes_eq(call_result, ctx->data.bytes);
+    match = call_status == C4_SUCCESS && ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_BYTES)) && bytes_eq(call_result, ctx->data.bytes);
     safe_free(call_result.data);
   }
   eth_free_codes(call_codes);
@@ -87,13 +90,14 @@ bool op_verify_call_proof(verify_ctx_t* ctx) {
     eth_state_overrides_free(&overrides);
     RETURN_VERIFY_ERROR(ctx, "Failed to verify accounts");
   }
-  ssz_ob_t* execution_payload = op_extract_verified_execution_payload(ctx, block_proof, NULL, NULL);
+  eth_state_overrides_free(&overrides);
+  json_t    block_number      = json_at(ctx->args, 1);
+  ssz_ob_t* execution_payload = op_extract_verified_execution_payload(ctx, block_proof, &block_number, NULL);
   if (!execution_payload) return false;
   match = memcmp(state_root, ssz_get(execution_payload, "stateRoot").bytes.data, 32) == 0;
   safe_free(execution_payload);
   if (!match) RETURN_VERIFY_ERROR(ctx, "State root mismatch");
 
   ctx->success = true;
-  eth_state_overrides_free(&overrides);
   return ctx->success;
 }
\ No newline at end of file
-- 
2.43.0


From d6dd8120fc828c3f725dc74bee3a70b88890e1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:01 +0000
Subject: [PATCH 119/154] fix: check the requested block of simulations on OP
 chains and free the overrides

---
 src/chains/op/verifier/op_verify_simulate.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/chains/op/verifier/op_verify_simulate.c b/src/chains/op/verifier/op_verify_simulate.c
index e8d00a7..7e3493b 100644
--- a/src/chains/op/verifier/op_verify_simulate.c
+++ b/src/chains/op/verifier/op_verify_simulate.c
@@ -63,7 +63,10 @@ bool op_verify_simulate_proof(verify_ctx_t* ctx) {
     overrides_ptr = &overrides;
   }
 
-  if (eth_get_call_codes(ctx, &call_codes, accounts) != C4_SUCCESS) return false;
+  if (eth_get_call_codes(ctx, &call_codes, accounts) != C4_SUCCESS) {
+    eth_state_overrides_free(&overrides);
+    return false;
+  }
 
 #ifdef EVMONE
   c4_status_t call_status = eth_run_call_evmone_with_events(ctx, call_codes, accounts, json_at(ctx->args, 0), &call_result, &logs, true, overrides_ptr);
@@ -72,6 +75,7 @@ bool op_verify_simulate_proof(verify_ctx_t* ctx) {
 #endif
 
   if (call_status != C4_SUCCESS) {
+    safe_free(call_result.data);
     free_emitted_logs(logs);
     eth_free_codes(call_codes);
     eth_state_overrides_free(&overrides);
@@ -79,11 +83,13 @@ bool op_verify_simulate_proof(verify_ctx_t* ctx) {
   }
 
   // Extract and verify execution payload (OP Stack specific)
-  ssz_ob_t* execution_payload = op_extract_verified_execution_payload(ctx, block_proof, NULL, NULL);
+  json_t    block_number      = json_at(ctx->args, 1);
+  ssz_ob_t* execution_payload = op_extract_verified_execution_payload(ctx, block_proof, &block_number, NULL);
   if (!execution_payload) {
     safe_free(call_result.data);
     free_emitted_logs(logs);
     eth_free_codes(call_codes);
+    eth_state_overrides_free(&overrides);
     return false;
   }
 
@@ -100,7 +106,7 @@ bool op_verify_simulate_proof(verify_ctx_t* ctx) {
     match = true;
   }
   else {
-    match = simulation_result.bytes.data && bytes_eq(simulation_result.bytes, ctx->data.bytes);
+    match = simulation_result.bytes.data && ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_SIMULATION)) && bytes_eq(simulation_result.bytes, ctx->data.bytes);
     if (simulation_result.bytes.data) safe_free(simulation_result.bytes.data);
   }
 
@@ -122,6 +128,7 @@ bool op_verify_simulate_proof(verify_ctx_t* ctx) {
     safe_free(call_result.data);
     free_emitted_logs(logs);
     eth_free_codes(call_codes);
+    eth_state_overrides_free(&overrides);
     RETURN_VERIFY_ERROR(ctx, "State root mismatch");
   }
 
-- 
2.43.0


From 272312fe09e0d5e29fa3d31dd8c5a33f959aa7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:21:12 +0000
Subject: [PATCH 120/154] fix: verify all logs and their filter on OP chains

---
 src/chains/eth/verifier/eth_tx.h            |  2 ++
 src/chains/eth/verifier/verify_logs_proof.c | 14 +++++++++-----
 src/chains/op/verifier/op_verify_logs.c     | 12 ++++++------
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/chains/eth/verifier/eth_tx.h b/src/chains/eth/verifier/eth_tx.h
index e3ceabd..cb64a97 100644
--- a/src/chains/eth/verifier/eth_tx.h
+++ b/src/chains/eth/verifier/eth_tx.h
@@ -99,6 +99,8 @@ bool    c4_tx_verify_tx_hash(verify_ctx_t* ctx, bytes_t raw);
 bool    c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data, bytes32_t block_hash, uint64_t block_number, uint32_t tx_index, bytes_t tx_raw, bytes_t receipt_raw);
 bool    c4_tx_verify_receipt_proof(verify_ctx_t* ctx, ssz_ob_t receipt_proof, uint32_t tx_index, bytes32_t receipt_root, bytes_t* receipt_raw);
 bool    c4_tx_verify_log_data(verify_ctx_t* ctx, ssz_ob_t log, bytes32_t block_hash, uint64_t block_number, uint32_t tx_index, bytes_t tx_raw, bytes_t receipt_raw);
+bool    c4_eth_init_logs_data(verify_ctx_t* ctx);
+bool    c4_eth_log_matches_filter(json_t filter, ssz_ob_t log);
 bytes_t c4_eth_create_tx_path(uint32_t tx_index, buffer_t* buf);
 bool    c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer, bytes_t raw_tx,
                                   bytes32_t tx_hash, bytes32_t block_hash, uint64_t block_number, uint32_t transaction_index, uint64_t base_fee);
diff --git a/src/chains/eth/verifier/verify_logs_proof.c b/src/chains/eth/verifier/verify_logs_proof.c
index b26fddb..00e5bde 100644
--- a/src/chains/eth/verifier/verify_logs_proof.c
+++ b/src/chains/eth/verifier/verify_logs_proof.c
@@ -146,7 +146,7 @@ static bool matches_value(json_t filter, bytes_t value) {
   return len == 0;
 }
 
-static bool matches_filter(json_t filter, ssz_ob_t log) {
+INTERNAL bool c4_eth_log_matches_filter(json_t filter, ssz_ob_t log) {
   uint64_t block_number = ssz_get_uint64(&log, "blockNumber");
   json_t   from         = json_get(filter, "fromBlock");
   json_t   to           = json_get(filter, "toBlock");
@@ -164,9 +164,8 @@ static bool matches_filter(json_t filter, ssz_ob_t log) {
   return true;
 }
 
-bool verify_logs_proof(verify_ctx_t* ctx) {
-
-  // the logs to verify are either part of the proof or passed as arguments, in both cases they must be known before verifying the blocks.
+// the logs to verify are either part of the proof or passed as arguments, in both cases they must be known before verifying the blocks.
+INTERNAL bool c4_eth_init_logs_data(verify_ctx_t* ctx) {
   if (ctx->method && strcmp(ctx->method, "eth_verifyLogs") == 0 && !(ctx->flags & VERIFY_FLAG_FREE_DATA)) {
     if (ctx->data.def->type != SSZ_TYPE_NONE) RETURN_VERIFY_ERROR(ctx, "unexpected data for eth_verifyLogs!");
     ssz_ob_t logs = ssz_from_json(ctx->args, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), &ctx->state);
@@ -178,6 +177,11 @@ bool verify_logs_proof(verify_ctx_t* ctx) {
     ctx->flags |= VERIFY_FLAG_FREE_DATA;
   }
   if (!ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS))) RETURN_VERIFY_ERROR(ctx, "invalid data type for a logs proof!");
+  return true;
+}
+
+bool verify_logs_proof(verify_ctx_t* ctx) {
+  if (!c4_eth_init_logs_data(ctx)) return false;
 
   uint32_t log_count   = ssz_len(ctx->data);
   uint32_t block_count = ssz_len(ctx->proof);
@@ -191,7 +195,7 @@ bool verify_logs_proof(verify_ctx_t* ctx) {
   for (int i = 0; i < log_count; i++) {
     ssz_ob_t log = ssz_at(ctx->data, i);
     if (!has_proof(ctx, ssz_get(&log, "blockNumber").bytes, ssz_get(&log, "transactionIndex").bytes, block_count)) RETURN_VERIFY_ERROR(ctx, "missing log proof!");
-    if (strcmp(ctx->method, "eth_getLogs") == 0 && !matches_filter(json_at(ctx->args, 0), log)) RETURN_VERIFY_ERROR(ctx, "log does not match the filter!");
+    if (strcmp(ctx->method, "eth_getLogs") == 0 && !c4_eth_log_matches_filter(json_at(ctx->args, 0), log)) RETURN_VERIFY_ERROR(ctx, "log does not match the filter!");
   }
 
   ctx->success = true;
diff --git a/src/chains/op/verifier/op_verify_logs.c b/src/chains/op/verifier/op_verify_logs.c
index df3eff4..5a91d15 100644
--- a/src/chains/op/verifier/op_verify_logs.c
+++ b/src/chains/op/verifier/op_verify_logs.c
@@ -40,18 +40,13 @@
 #include <string.h>
 
 static bool verify_tx(verify_ctx_t* ctx, ssz_ob_t block, ssz_ob_t tx, bytes32_t receipt_root) {
-
-  if (ctx->data.def->type == SSZ_TYPE_NONE && ctx->method && strcmp(ctx->method, "eth_verifyLogs") == 0) {
-    ctx->data = ssz_from_json(ctx->args, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), &ctx->state);
-    ctx->flags |= VERIFY_FLAG_FREE_DATA;
-  }
-
   bytes_t   raw_receipt  = {0};
   bytes32_t root_hash    = {0};
   uint32_t  log_len      = ssz_len(ctx->data);
   ssz_ob_t  tidx         = ssz_get(&tx, "transactionIndex");
   bytes_t   block_hash   = ssz_get(&block, "blockHash").bytes;
   ssz_ob_t  block_number = ssz_get(&block, "blockNumber");
+  if (ssz_uint32(tidx) >= ssz_len(ssz_get(&block, "transactions"))) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
   ssz_ob_t  tx_raw       = ssz_at(ssz_get(&block, "transactions"), ssz_uint32(tidx));
 
   // verify receipt proof
@@ -117,6 +112,7 @@ static bool has_proof(verify_ctx_t* ctx, bytes_t block_numbers, bytes_t block_nu
 }
 
 bool op_verify_logs_proof(verify_ctx_t* ctx) {
+  if (!c4_eth_init_logs_data(ctx)) return false;
 
   uint32_t log_count     = ssz_len(ctx->data);
   uint32_t block_count   = ssz_len(ctx->proof);
@@ -139,6 +135,10 @@ bool op_verify_logs_proof(verify_ctx_t* ctx) {
       c4_state_add_error(&ctx->state, "missing log proof!");
       valid = false;
     }
+    else if (strcmp(ctx->method, "eth_getLogs") == 0 && !c4_eth_log_matches_filter(json_at(ctx->args, 0), log)) {
+      c4_state_add_error(&ctx->state, "log does not match the filter!");
+      valid = false;
+    }
   }
 
   ctx->success = valid;
-- 
2.43.0


From 99175082948c1c37e01070a65526fc2561faf8cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:01 +0000
Subject: [PATCH 121/154] fix: require the requested block number for
 transactions on OP chains

---
 src/chains/op/verifier/op_verify_tx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/op/verifier/op_verify_tx.c b/src/chains/op/verifier/op_verify_tx.c
index 32e2146..7450749 100644
--- a/src/chains/op/verifier/op_verify_tx.c
+++ b/src/chains/op/verifier/op_verify_tx.c
@@ -58,7 +58,7 @@ bool op_verify_tx_proof(verify_ctx_t* ctx) {
   if (strcmp(ctx->method, "eth_getTransactionByBlockNumberAndIndex") == 0) {
     json_t block_number = json_at(ctx->args, 0);
     if (json_as_uint32(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
-    if (block_number.type != JSON_TYPE_STRING) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
+    if (block_number.type != JSON_TYPE_STRING || block_number.len < 5) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
     execution_payload = op_extract_verified_execution_payload(ctx, block_proof, &block_number, NULL);
   }
   else if (strcmp(ctx->method, "eth_getTransactionByBlockHashAndIndex") == 0) {
-- 
2.43.0


From c7428581e3833a0da16741baaf28c961b0112277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:17 +0000
Subject: [PATCH 122/154] fix: keep earlier errors when an RPC response is not
 a JSON object

---
 src/chains/eth/prover/eth_req.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/chains/eth/prover/eth_req.c b/src/chains/eth/prover/eth_req.c
index f4ba22f..73302f8 100644
--- a/src/chains/eth/prover/eth_req.c
+++ b/src/chains/eth/prover/eth_req.c
@@ -233,10 +233,7 @@ c4_status_t c4_send_eth_rpc(prover_ctx_t* ctx, char* method, char* params, uint3
     if (c4_state_is_pending(data_request)) return C4_PENDING;
     if (!data_request->error && data_request->response.data) {
       json_t response = json_parse((char*) data_request->response.data);
-      if (response.type != JSON_TYPE_OBJECT) {
-        ctx->state.error = strdup("Invalid JSON response");
-        return C4_ERROR;
-      }
+      if (response.type != JSON_TYPE_OBJECT) THROW_ERROR("Invalid JSON response");
 
       json_t error = json_get(response, "error");
       if (error.type == JSON_TYPE_OBJECT) {
-- 
2.43.0


From db00b6a249f920f47238b4b75cee24bc3099fddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:31 +0000
Subject: [PATCH 123/154] fix: keep earlier errors when the validation of JSON
 fails

---
 src/util/state.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/util/state.h b/src/util/state.h
index d65d529..0bbae84 100644
--- a/src/util/state.h
+++ b/src/util/state.h
@@ -525,22 +525,28 @@ static inline c4_status_t c4_state_set_error_msg(c4_state_t* state, char* msg) {
  * Static inline helpers for JSON validation macros to avoid static analyzer warnings.
  * These functions handle memory ownership of the validation error string.
  */
+static inline c4_status_t c4_state_take_error_msg(c4_state_t* state, char* msg) {
+  c4_status_t status = c4_state_add_error(state, msg);
+  safe_free(msg);
+  return status;
+}
+
 static inline c4_status_t c4_check_json_inline(c4_state_t* state, json_t val, const char* def, const char* prefix) {
   char* err = (char*) json_validate(val, def, prefix);
-  if (err) return c4_state_set_error_msg(state, err);
+  if (err) return c4_state_take_error_msg(state, err);
   return C4_SUCCESS;
 }
 
 static inline c4_status_t c4_check_json_cached_inline(c4_state_t* state, json_t val, const char* def, const char* prefix) {
   char* err = (char*) json_validate_cached(val, def, prefix);
-  if (err) return c4_state_set_error_msg(state, err);
+  if (err) return c4_state_take_error_msg(state, err);
   return C4_SUCCESS;
 }
 
 static inline bool c4_check_json_verify_inline(c4_state_t* state, bool* success, json_t val, const char* def, const char* prefix) {
   char* err = (char*) json_validate(val, def, prefix);
   if (err) {
-    c4_state_set_error_msg(state, err);
+    c4_state_take_error_msg(state, err);
     if (success) *success = false;
     return false;
   }
@@ -550,7 +556,7 @@ static inline bool c4_check_json_verify_inline(c4_state_t* state, bool* success,
 static inline bool c4_check_json_verify_cached_inline(c4_state_t* state, bool* success, json_t val, const char* def, const char* prefix) {
   char* err = (char*) json_validate_cached(val, def, prefix);
   if (err) {
-    c4_state_set_error_msg(state, err);
+    c4_state_take_error_msg(state, err);
     if (success) *success = false;
     return false;
   }
-- 
2.43.0


From 7609a64e1b7184f27c4fd9640a73ded484e76f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:07 +0000
Subject: [PATCH 124/154] fix: free the block root proof of the prover when
 requests are pending, check header and summaries

---
 src/chains/eth/prover/historic_proof.c | 37 +++++++++++++++++++-------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/chains/eth/prover/historic_proof.c b/src/chains/eth/prover/historic_proof.c
index 342d3b0..d0a64cc 100644
--- a/src/chains/eth/prover/historic_proof.c
+++ b/src/chains/eth/prover/historic_proof.c
@@ -58,7 +58,7 @@ static c4_status_t get_beacon_header(prover_ctx_t* ctx, bytes32_t block_hash, js
   if (val.type != JSON_TYPE_OBJECT) THROW_ERROR("Invalid header!");
   val     = json_get(val, "header");
   *header = json_get(val, "message");
-  if (!header->start) THROW_ERROR("Invalid header!");
+  CHECK_JSON(*header, "{slot:suint,proposer_index:suint,parent_root:bytes32,state_root:bytes32,body_root:bytes32}", "Invalid header: ");
   return C4_SUCCESS;
 }
 
@@ -200,6 +200,10 @@ static c4_status_t check_historic_proof_direct(prover_ctx_t* ctx, blockroot_proo
   bytes32_t body_root      = {0};
   bytes32_t blocks_root    = {0};
 
+  CHECK_JSON(data, "{historical_summaries:[{block_summary_root:bytes32,state_summary_root:bytes32}],proof:[bytes32]}", "Invalid historical summaries: ");
+  if (block_period < offset_period || summary_idx >= json_len(json_get(data, "historical_summaries"))) THROW_ERROR("no historical summary for the period of the block");
+  if (blocks.len != 8192 * 32) THROW_ERROR("invalid block roots of the period");
+
   // create summary-list
   json_for_each_value(json_get(data, "historical_summaries"), entry) {
     buffer_append(&list_data, json_get_bytes(entry, "block_summary_root", &buf));
@@ -275,9 +279,11 @@ void ssz_add_header_proof(ssz_builder_t* builder, beacon_block_t* block_data, bl
 }
 
 void c4_free_block_proof(blockroot_proof_t* block_proof) {
-  if (block_proof->type == HISTORIC_PROOF_NONE) return;
   safe_free(block_proof->historic_proof.data);
   safe_free(block_proof->proof_header.data);
+  block_proof->historic_proof = NULL_BYTES;
+  block_proof->proof_header   = NULL_BYTES;
+  block_proof->type           = HISTORIC_PROOF_NONE;
 }
 
 static c4_status_t fetch_bootstrap_data(prover_ctx_t* ctx, syncdata_state_t* sync_data, ssz_ob_t* bootstrap) {
@@ -312,12 +318,13 @@ static c4_status_t fetch_updates_data(prover_ctx_t* ctx, syncdata_state_t* sync_
 
   bytes_t  client_updates = result.bytes;
   uint64_t length         = 0;
-  for (uint32_t pos = 0; pos + UPDATE_PREFIX_SIZE < client_updates.len; pos += length + SSZ_LENGTH_SIZE) {
+  uint32_t found          = 0;
+  for (uint32_t pos = 0; pos + UPDATE_PREFIX_SIZE < client_updates.len; pos += length + SSZ_LENGTH_SIZE, found++) {
     uint32_t data_offset        = pos + SSZ_LENGTH_SIZE + SSZ_OFFSET_SIZE;
     uint32_t data_length_offset = SSZ_OFFSET_SIZE;
     length                      = uint64_from_le(client_updates.data + pos);
 
-    if (pos + SSZ_LENGTH_SIZE + length > client_updates.len && length > UPDATE_PREFIX_SIZE) break;
+    if (length <= SSZ_OFFSET_SIZE || length > client_updates.len - pos - SSZ_LENGTH_SIZE || found == count) THROW_ERROR("Invalid update data!");
 
     bytes_t   client_update_bytes = bytes(client_updates.data + data_offset, length - data_length_offset);
     fork_id_t fork                = c4_eth_get_fork_for_lcu(ctx->chain_id, client_update_bytes);
@@ -330,6 +337,7 @@ static c4_status_t fetch_updates_data(prover_ctx_t* ctx, syncdata_state_t* sync_
     ssz_add_dynamic_list_bytes(updates, count, prefixed);
     safe_free(prefixed.data);
   }
+  if (found != count) THROW_ERROR("Missing light client updates!"); // the offsets of the list depend on the number of updates
 
   return C4_SUCCESS;
 }
@@ -343,6 +351,10 @@ c4_status_t c4_get_syncdata_proof(prover_ctx_t* ctx, syncdata_state_t* sync_data
     builder->def             = C4_ETH_REQUEST_SYNCDATA_UNION + 2; // TODO find a way to better handle this in the future, so updates on ssz will not break the build.
     zk_proof_data_t zk_proof = {0};
     TRY_ASYNC(c4_fetch_zk_proof_data(ctx, &zk_proof, sync_data->required_period));
+    if (!ssz_is_valid(zk_proof.sync_proof, true, &ctx->state)) {
+      safe_free(zk_proof.signatures.data);
+      THROW_ERROR("Invalid zk proof!");
+    }
     ssz_add_bytes(builder, "vk_hash", ssz_get(&zk_proof.sync_proof, "vk_hash").bytes);
     ssz_add_bytes(builder, "proof", ssz_get(&zk_proof.sync_proof, "proof").bytes);
     ssz_add_ob(builder, "header", ssz_get(&zk_proof.sync_proof, "header"));
@@ -358,7 +370,7 @@ c4_status_t c4_get_syncdata_proof(prover_ctx_t* ctx, syncdata_state_t* sync_data
   ssz_ob_t      bootstrap = {.def = &ssz_none};
   ssz_builder_t updates   = ssz_builder_for_def(ssz_get_def(builder->def, "update"));
   if (sync_data->checkpoint_period) TRY_ASYNC(fetch_bootstrap_data(ctx, sync_data, &bootstrap));
-  if (sync_data->required_period > sync_data->newest_period) TRY_ASYNC(fetch_updates_data(ctx, sync_data, &updates));
+  if (sync_data->required_period > sync_data->newest_period) TRY_ASYNC_CATCH(fetch_updates_data(ctx, sync_data, &updates), ssz_builder_free(&updates));
 
   ssz_add_ob(builder, "bootstrap", bootstrap);
   ssz_add_builders(builder, "update", updates);
@@ -370,6 +382,7 @@ c4_status_t c4_get_syncdata_proof(prover_ctx_t* ctx, syncdata_state_t* sync_data
  */
 static c4_status_t update_syncdata_state(prover_ctx_t* ctx, syncdata_state_t* sync_data, const chain_spec_t* chain) {
   if (!sync_data || !chain) return C4_SUCCESS;
+  c4_status_t      status      = C4_SUCCESS;
   zk_proof_data_t  zk_proof    = {0};
   c4_chain_state_t chain_state = c4_state_deserialize(ctx->client_state);
   sync_data->status            = chain_state.status;
@@ -377,9 +390,8 @@ static c4_status_t update_syncdata_state(prover_ctx_t* ctx, syncdata_state_t* sy
     case C4_STATE_SYNC_EMPTY:
       if (ctx->flags & C4_PROVER_FLAG_ZK_PROOF) {
         // we only fetch them so we safe time in case we download the proof files later.
-        c4_status_t status = c4_fetch_zk_proof_data(ctx, &zk_proof, sync_data->required_period);
-        if (status == C4_SUCCESS)
-          safe_free(zk_proof.signatures.data);
+        status = c4_fetch_zk_proof_data(ctx, &zk_proof, sync_data->required_period);
+        safe_free(zk_proof.signatures.data);
         return status;
       }
       return C4_SUCCESS;
@@ -406,8 +418,11 @@ static c4_status_t update_syncdata_state(prover_ctx_t* ctx, syncdata_state_t* sy
     }
   }
   // if there is a gap, fetch the light client updates
-  if ((ctx->flags & C4_PROVER_FLAG_ZK_PROOF) && sync_data->newest_period < sync_data->required_period)
-    return c4_fetch_zk_proof_data(ctx, &zk_proof, sync_data->required_period);
+  if ((ctx->flags & C4_PROVER_FLAG_ZK_PROOF) && sync_data->newest_period < sync_data->required_period) {
+    status = c4_fetch_zk_proof_data(ctx, &zk_proof, sync_data->required_period);
+    safe_free(zk_proof.signatures.data);
+    return status;
+  }
   else if ((ctx->flags & C4_PROVER_FLAG_INCLUDE_SYNC) && sync_data->newest_period < sync_data->required_period)
     return fetch_updates_data(ctx, sync_data, NULL);
   return C4_SUCCESS;
@@ -426,6 +441,7 @@ c4_status_t c4_check_blockroot_proof(prover_ctx_t* ctx, blockroot_proof_t* block
   if (update_status == C4_ERROR || (update_status == C4_PENDING && block_proof->sync.checkpoint && !block_proof->sync.checkpoint_period)) return update_status;
 
   // should we use historic summaries?
+  c4_free_block_proof(block_proof);
   TRY_ASYNC(check_historic_proof_direct(ctx, block_proof, src_block));
 
   // no proof means we use the current, but do we we need headers-proof?
@@ -435,5 +451,6 @@ c4_status_t c4_check_blockroot_proof(prover_ctx_t* ctx, blockroot_proof_t* block
   // the client needs the sync committee, which signed the header
   if (block_proof->type != HISTORIC_PROOF_NONE)
     block_proof->sync.required_period = max64(block_proof->sync.required_period, signature_period(uint64_from_le(block_proof->proof_header.data), chain));
+  if (update_status != C4_SUCCESS) c4_free_block_proof(block_proof);
   return update_status;
 }
-- 
2.43.0


From fcf2eb02f476bdfdd1e85816bfc215c0d2c52168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:44 +0000
Subject: [PATCH 125/154] fix: free the block root proof in block proofs when
 requests are pending

---
 src/chains/eth/prover/proof_block.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/prover/proof_block.c b/src/chains/eth/prover/proof_block.c
index cdc8122..f434214 100644
--- a/src/chains/eth/prover/proof_block.c
+++ b/src/chains/eth/prover/proof_block.c
@@ -45,7 +45,7 @@ c4_status_t c4_proof_block(prover_ctx_t* ctx) {
   // fetch the block
   TRY_ASYNC(c4_beacon_get_block_for_eth(ctx, json_at(ctx->params, 0), &block));
   TRY_ASYNC(c4_check_blockroot_proof(ctx, &historic_proof, &block));
-  TRY_ASYNC(c4_get_syncdata_proof(ctx, &historic_proof.sync, &sync_proof));
+  TRY_ASYNC_CATCH(c4_get_syncdata_proof(ctx, &historic_proof.sync, &sync_proof), c4_free_block_proof(&historic_proof));
 
   // create merkle proof
   bytes_t execution_payload_proof = ssz_create_proof(block.body, body_root, ssz_gindex(block.body.def, 1, "executionPayload"));
@@ -79,7 +79,7 @@ c4_status_t c4_proof_block_number(prover_ctx_t* ctx) {
   // fetch the block
   TRY_ASYNC(c4_beacon_get_block_for_eth(ctx, json_parse("\"latest\""), &block));
   TRY_ASYNC(c4_check_blockroot_proof(ctx, &historic_proof, &block));
-  TRY_ASYNC(c4_get_syncdata_proof(ctx, &historic_proof.sync, &sync_proof));
+  TRY_ASYNC_CATCH(c4_get_syncdata_proof(ctx, &historic_proof.sync, &sync_proof), c4_free_block_proof(&historic_proof));
 
   // create merkle proof
   bytes_t execution_payload_proof = ssz_create_multi_proof(block.body, body_root, 2,
-- 
2.43.0


From e8457a2fc3a21519edcfc6dac184d08478b41a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:02:44 +0000
Subject: [PATCH 126/154] fix: free the block root proof in transaction proofs,
 reject an index behind the last transaction

---
 src/chains/eth/prover/proof_transaction.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/prover/proof_transaction.c b/src/chains/eth/prover/proof_transaction.c
index e8aaef4..71e402c 100644
--- a/src/chains/eth/prover/proof_transaction.c
+++ b/src/chains/eth/prover/proof_transaction.c
@@ -108,10 +108,14 @@ c4_status_t c4_proof_transaction(prover_ctx_t* ctx) {
   if (block.slot) TRY_ADD_ASYNC(status, c4_check_blockroot_proof(ctx, &block_proof, &block));
 
   if (status != C4_SUCCESS) {
-    safe_free(block_proof.historic_proof.data);
+    c4_free_block_proof(&block_proof);
     return status;
   }
-  REQUEST_WORKER_THREAD_CATCH(ctx, safe_free(block_proof.historic_proof.data));
+  if (tx_index >= ssz_len(ssz_get(&block.execution, "transactions"))) {
+    c4_free_block_proof(&block_proof);
+    THROW_ERROR("the block does not contain a transaction with this index");
+  }
+  REQUEST_WORKER_THREAD_CATCH(ctx, c4_free_block_proof(&block_proof));
 
   TRACE_START(ctx, "proof_data");
 
-- 
2.43.0


From 4b3302513befd3f3ed3b01a025faac0d4f1fb3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:33 +0000
Subject: [PATCH 127/154] fix: free the proofs of a receipt when work is
 pending, reject missing receipts and transactions

---
 src/chains/eth/prover/proof_receipt.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/prover/proof_receipt.c b/src/chains/eth/prover/proof_receipt.c
index 6e617b7..a5d613c 100644
--- a/src/chains/eth/prover/proof_receipt.c
+++ b/src/chains/eth/prover/proof_receipt.c
@@ -164,7 +164,12 @@ c4_status_t c4_proof_receipt(prover_ctx_t* ctx) {
   TRY_ASYNC_CATCH(c4_eth_get_receipt_proof(ctx, ssz_get(&(block.execution), "blockHash").bytes.data, block_receipts, tx_index, &receipt, &receipt_proof),
                   c4_free_block_proof(&block_proof));
 
-  REQUEST_WORKER_THREAD_CATCH(ctx, c4_free_block_proof(&block_proof));
+  REQUEST_WORKER_THREAD_CATCH(ctx, safe_free(receipt_proof.bytes.data); c4_free_block_proof(&block_proof));
+  if (receipt.type != JSON_TYPE_OBJECT || tx_index >= ssz_len(ssz_get(&block.execution, "transactions"))) {
+    safe_free(receipt_proof.bytes.data);
+    c4_free_block_proof(&block_proof);
+    THROW_ERROR("the block does not contain the transaction or its receipt");
+  }
   TRACE_START(ctx, "multiproof");
   bytes_t state_proof = ssz_create_multi_proof(block.body, body_root, 4,
                                                ssz_gindex(block.body.def, 2, "executionPayload", "blockNumber"),
-- 
2.43.0


From 82785b054228d14a7238d71aae52609ebbaed2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:33 +0000
Subject: [PATCH 128/154] fix: fetch the code before the sync data, so it is
 not leaked while the code is pending

---
 src/chains/eth/prover/proof_account.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/prover/proof_account.c b/src/chains/eth/prover/proof_account.c
index 1db457c..df3a5f3 100644
--- a/src/chains/eth/prover/proof_account.c
+++ b/src/chains/eth/prover/proof_account.c
@@ -72,12 +72,12 @@ static c4_status_t create_eth_account_proof(prover_ctx_t* ctx, json_t eth_proof,
   ssz_builder_t eth_account_proof = ssz_builder_for_type(ETH_SSZ_VERIFY_ACCOUNT_PROOF);
   ssz_builder_t sync_proof        = NULL_SSZ_BUILDER;
 
-  // get the sync_proof if needed
-  TRY_ASYNC(c4_get_syncdata_proof(ctx, &historic_proof.sync, &sync_proof));
-
   // make sure we have the full code
   if (strcmp(ctx->method, "eth_getCode") == 0) TRY_ASYNC(eth_get_code(ctx, address, &json_code, ssz_get_uint64(&block_data->execution, "blockNumber")));
 
+  // get the sync_proof if needed
+  TRY_ASYNC(c4_get_syncdata_proof(ctx, &historic_proof.sync, &sync_proof));
+
   // build the account proof
   add_dynamic_byte_list(json_get(eth_proof, "accountProof"), &eth_account_proof, "accountProof");
   ssz_add_bytes(&eth_account_proof, "address", json_as_bytes(address, &tmp));
-- 
2.43.0


From efee1652733dc743359355f1d020b324f53e5bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:03:33 +0000
Subject: [PATCH 129/154] fix: free overrides and proofs of a call when
 requests fail or are pending

---
 src/chains/eth/prover/proof_call.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/chains/eth/prover/proof_call.c b/src/chains/eth/prover/proof_call.c
index c6aa27b..737f744 100644
--- a/src/chains/eth/prover/proof_call.c
+++ b/src/chains/eth/prover/proof_call.c
@@ -58,7 +58,7 @@ static c4_status_t create_eth_call_proof(prover_ctx_t* ctx, ssz_builder_t accoun
   ssz_builder_t sync_proof     = NULL_SSZ_BUILDER;
 
   // get the sync_proof if needed
-  TRY_ASYNC(c4_get_syncdata_proof(ctx, &historic_proof->sync, &sync_proof));
+  TRY_ASYNC_CATCH(c4_get_syncdata_proof(ctx, &historic_proof->sync, &sync_proof), ssz_builder_free(&account_proofs));
 
   ssz_add_builders(&eth_call_proof, "accounts", account_proofs);
   ssz_add_builders(&eth_call_proof, "state_proof", eth_ssz_create_state_proof(ctx, block_number, block_data, historic_proof));
@@ -293,10 +293,13 @@ c4_status_t c4_proof_call(prover_ctx_t* ctx) {
   TRACE_START(ctx, "fetch access list and eth_getProof");
   // If state overrides are provided, we must use eth_createAccessList so the upstream can account for overrides.
   if (has_overrides)
-    TRY_ADD_ASYNC(status, eth_create_access_list(ctx, tx, &trace, target_block, state_overrides));
+    status = eth_create_access_list(ctx, tx, &trace, target_block, state_overrides);
   else
-    TRY_ADD_ASYNC(status, ctx->flags & C4_PROVER_FLAG_USE_ACCESSLIST ? eth_create_access_list(ctx, tx, &trace, target_block, (json_t) {0}) : eth_debug_trace_call(ctx, tx, &trace, target_block));
-  TRY_ADD_ASYNC(status, c4_check_blockroot_proof(ctx, &historic_proof, &block));
+    status = ctx->flags & C4_PROVER_FLAG_USE_ACCESSLIST ? eth_create_access_list(ctx, tx, &trace, target_block, (json_t) {0}) : eth_debug_trace_call(ctx, tx, &trace, target_block);
+  if (status != C4_ERROR) {
+    c4_status_t proof_status = c4_check_blockroot_proof(ctx, &historic_proof, &block);
+    if (proof_status != C4_SUCCESS) status = proof_status;
+  }
   TRY_ASYNC_CATCH(status, c4_free_block_proof(&historic_proof); eth_state_overrides_free(&overrides_parsed));
   TRY_ASYNC_CATCH(
       c4_get_eth_proofs(ctx, tx, trace, target_block, &accounts, miner.data, has_overrides ? &overrides_parsed : NULL),
-- 
2.43.0


From dbcb81453f4e0a60d8619c9f2a7030530d51bd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:17 +0000
Subject: [PATCH 130/154] fix: reject logs of transactions, which are not part
 of the block

---
 src/chains/eth/prover/proof_logs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/chains/eth/prover/proof_logs.c b/src/chains/eth/prover/proof_logs.c
index ebdc63c..af0d769 100644
--- a/src/chains/eth/prover/proof_logs.c
+++ b/src/chains/eth/prover/proof_logs.c
@@ -181,6 +181,10 @@ static c4_status_t proof_block(prover_ctx_t* ctx, proof_logs_block_t* block) {
 
   block->block_hash = ssz_get(&block->beacon_block.execution, "blockHash").bytes;
 
+  for (proof_logs_tx_t* tx = block->txs; tx; tx = tx->next) {
+    if (tx->tx_index >= ssz_len(ssz_get(&block->beacon_block.execution, "transactions"))) THROW_ERROR("the block does not contain the transaction of the log");
+  }
+
   TRY_ASYNC(c4_check_blockroot_proof(ctx, &block->block_proof, &block->beacon_block));
 
 #ifdef PROVER_CACHE
-- 
2.43.0


From 2c1803015f0c7ad87c49f840446951dbaab1cbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:17 +0000
Subject: [PATCH 131/154] fix: keep earlier errors for unsupported methods

---
 src/chains/eth/prover/eth_prover.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/prover/eth_prover.c b/src/chains/eth/prover/eth_prover.c
index 3a611a7..6d205ee 100644
--- a/src/chains/eth/prover/eth_prover.c
+++ b/src/chains/eth/prover/eth_prover.c
@@ -68,7 +68,7 @@ bool eth_prover_execute(prover_ctx_t* ctx) {
   else if (strcmp(ctx->method, "c4_witness") == 0)
     c4_proof_witness(ctx);
   else
-    ctx->state.error = strdup("Unsupported method");
+    c4_state_add_error(&ctx->state, "Unsupported method");
 
   return true;
 }
-- 
2.43.0


From aabbd0979bf9e2ceb3738c683bdae103da7e9090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:17 +0000
Subject: [PATCH 132/154] fix: send the complete filter of eth_getLogs, log the
 access list instead of its address

---
 src/chains/eth/prover/eth_req.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/chains/eth/prover/eth_req.c b/src/chains/eth/prover/eth_req.c
index 73302f8..b1a64ea 100644
--- a/src/chains/eth/prover/eth_req.c
+++ b/src/chains/eth/prover/eth_req.c
@@ -75,10 +75,9 @@ c4_status_t eth_getBlockReceipts(prover_ctx_t* ctx, json_t block, json_t* receip
 }
 
 c4_status_t eth_get_logs(prover_ctx_t* ctx, json_t params, json_t* logs) {
-  uint8_t         tmp[1000];
-  buffer_t        buf = stack_buffer(tmp);
+  buffer_t        buf = {0};
   data_request_t* req = NULL;
-  TRY_ASYNC(c4_send_eth_rpc(ctx, "eth_getLogs", json_as_string(params, &buf), 12, logs, &req));
+  TRY_ASYNC_FINAL(c4_send_eth_rpc(ctx, "eth_getLogs", json_as_string(params, &buf), 12, logs, &req), buffer_free(&buf));
   if (req && !req->validated) {
     CHECK_JSON(*logs, "[" JSON_LOG_FIELDS "]", "Invalid results for Logs: ");
     req->validated = true;
@@ -144,7 +143,7 @@ c4_status_t eth_create_access_list(prover_ctx_t* ctx, json_t tx, json_t* trace,
     TRY_ASYNC_FINAL(c4_send_eth_rpc(ctx, "eth_createAccessList", bprintf(&buf, "[%J},\"0x%lx\",%J]", tx, block_number, state_overrides), 12, trace, &req), buffer_free(&buf));
   else
     TRY_ASYNC_FINAL(c4_send_eth_rpc(ctx, "eth_createAccessList", bprintf(&buf, "[%J},\"0x%lx\"]", tx, block_number), 12, trace, &req), buffer_free(&buf));
-  log_debug("access list: %j", trace);
+  log_debug("access list: %j", *trace);
   if (req && !req->validated) {
     CHECK_JSON(*trace, JSON_ACCESS_LIST_FIELDS, "Invalid results for access list: ");
     req->validated = true;
-- 
2.43.0


From fc122220307414d7daa446cb1fb71fb498319254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:07 +0000
Subject: [PATCH 133/154] fix: do not write debug files for JSON blocks,
 require the headers and roots of beacon responses

---
 src/chains/eth/prover/beacon.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/chains/eth/prover/beacon.c b/src/chains/eth/prover/beacon.c
index 69fe9cf..68b8241 100644
--- a/src/chains/eth/prover/beacon.c
+++ b/src/chains/eth/prover/beacon.c
@@ -184,10 +184,13 @@ static c4_status_t get_beacon_header_by_parent_hash(prover_ctx_t* ctx, bytes32_t
   if (val.type == JSON_TYPE_ARRAY)
     val = json_at(val, 0);
   if (val.type != JSON_TYPE_OBJECT) {
-    *header = val;
+    *header = (json_t) {.type = JSON_TYPE_NOT_FOUND};
     return C4_SUCCESS;
   };
-  if (root) json_get_bytes(val, "root", &buffer);
+  if (root) {
+    CHECK_JSON(val, "{root:bytes32}", "Invalid header: ");
+    json_get_bytes(val, "root", &buffer);
+  }
   val     = json_get(val, "header");
   *header = json_get(val, "message");
 
@@ -339,7 +342,9 @@ static inline c4_status_t eth_get_by_hash(prover_ctx_t* ctx, json_t block_hash,
   TRY_ASYNC(eth_get_block(ctx, block_hash, false, &eth_block));
 
   // get the beacon block matching the parent hash
-  return get_beacon_header_from_eth_block(ctx, eth_block, &header, data_root, parent_root);
+  TRY_ASYNC(get_beacon_header_from_eth_block(ctx, eth_block, &header, data_root, parent_root));
+  if (header.type == JSON_TYPE_NOT_FOUND) THROW_ERROR_WITH("There is no beacon block for the block %j!", block_hash);
+  return C4_SUCCESS;
 }
 
 static inline c4_status_t eth_get_final_hash(prover_ctx_t* ctx, bool safe, bytes32_t hash, uint64_t* slot) {
@@ -350,6 +355,7 @@ static inline c4_status_t eth_get_final_hash(prover_ctx_t* ctx, bool safe, bytes
 
   //  uint8_t* root = safe ? blockroot : blockroot + 32;
   TRY_ASYNC(get_finality_check_points(ctx, &result));
+  CHECK_JSON(result, "{current_justified:{root:bytes32},finalized:{root:bytes32}}", "Invalid finality checkpoints: ");
   json_get_bytes(json_get(result, "current_justified"), "root", &buf_justified);
   json_get_bytes(json_get(result, "finalized"), "root", &buf_finalized);
   if (slot) {
@@ -529,12 +535,6 @@ static bool convert_to_ssz(prover_ctx_t* ctx, data_request_t* data_request, ssz_
     return false;
   }
 
-  buffer_t buffer = {0};
-  bprintf(&buffer, "%z", ssz_result);
-  bytes_write(result->bytes, fopen("block_src.json", "wb"), true);
-  bytes_write(buffer.data, fopen("block_ssz.json", "wb"), true);
-  buffer_free(&buffer);
-
   safe_free(data_request->response.data);
   data_request->response = ssz_result.bytes;
   result->bytes          = ssz_result.bytes;
-- 
2.43.0


From 274ba412634abf69e97d2e6021b7aae7b9afdb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:41 +0000
Subject: [PATCH 134/154] fix: keep waiting for the client updates of a sync
 proof and check their lengths

---
 src/chains/eth/prover/proof_sync.c | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/chains/eth/prover/proof_sync.c b/src/chains/eth/prover/proof_sync.c
index 053ea4e..8d2c764 100644
--- a/src/chains/eth/prover/proof_sync.c
+++ b/src/chains/eth/prover/proof_sync.c
@@ -48,10 +48,10 @@ static c4_status_t req_client_update(prover_ctx_t* ctx, uint32_t period, uint32_
     *data = req->response;
     return C4_SUCCESS;
   }
-  else if (req && req->error) {
-    ctx->state.error = strdup(req->error);
-    return C4_ERROR;
-  }
+  else if (req && req->error)
+    THROW_ERROR(req->error);
+  else if (req)
+    return C4_PENDING;
   data_request_t* new_req = safe_calloc(1, sizeof(data_request_t));
   new_req->chain_id       = chain_id;
   new_req->url            = (char*) tmp.data.data;
@@ -76,19 +76,21 @@ typedef struct {
 static c4_status_t extract_sync_data(prover_ctx_t* ctx, bytes_t data, period_data_t* period) {
   bytes32_t domain    = {0};
   bytes32_t aggregate = {0};
-  if (data.len < 12) THROW_ERROR("invalid client_update");
-  ssz_ob_t old_update = {.bytes = bytes(data.data + 12, uint64_from_le(data.data) - 4), .def = NULL};
-  if (old_update.bytes.len + 24 > data.len) THROW_ERROR("invalid client_update");
+  if (data.len < 24) THROW_ERROR("invalid client_update");
+  uint64_t length = uint64_from_le(data.data);
+  if (length < 4 || length - 4 > data.len - 24) THROW_ERROR("invalid client_update");
+  ssz_ob_t old_update = {.bytes = bytes(data.data + 12, (uint32_t) length - 4), .def = NULL};
   fork_id_t        fork       = c4_eth_get_fork_for_lcu(ctx->chain_id, old_update.bytes);
   const ssz_def_t* update_def = eth_get_light_client_update(fork);
   old_update.def              = update_def;
-  if (!old_update.def) THROW_ERROR("invalid client_update");
-  ssz_ob_t new_update = {.bytes = bytes(data.data + 24 + old_update.bytes.len, uint64_from_le(data.data + 12 + old_update.bytes.len) - 4), .def = NULL};
-  if (new_update.bytes.len + 24 + old_update.bytes.len > data.len) THROW_ERROR("invalid client_update");
+  if (!old_update.def || !ssz_is_valid(old_update, true, &ctx->state)) THROW_ERROR("invalid client_update");
+  length = uint64_from_le(data.data + 12 + old_update.bytes.len);
+  if (length < 4 || length - 4 > data.len - 24 - old_update.bytes.len) THROW_ERROR("invalid client_update");
+  ssz_ob_t new_update = {.bytes = bytes(data.data + 24 + old_update.bytes.len, (uint32_t) length - 4), .def = NULL};
   fork           = c4_eth_get_fork_for_lcu(ctx->chain_id, new_update.bytes);
   update_def     = eth_get_light_client_update(fork);
   new_update.def = update_def;
-  if (!new_update.def) THROW_ERROR("invalid client_update");
+  if (!new_update.def || !ssz_is_valid(new_update, true, &ctx->state)) THROW_ERROR("invalid client_update");
 
   ssz_ob_t old_sync_keys  = ssz_get(&old_update, "nextSyncCommittee");
   ssz_ob_t new_sync_keys  = ssz_get(&new_update, "nextSyncCommittee");
@@ -159,7 +161,7 @@ c4_status_t c4_proof_sync(prover_ctx_t* ctx) {
   json_t        period_data   = json_at(ctx->params, 0);
   uint32_t      period        = json_as_uint32(period_data);
 
-  if (period == 0) THROW_ERROR_WITH("Invalid period: %j", period_data);
+  if (period < 2) THROW_ERROR_WITH("Invalid period: %j", period_data);
   TRY_ASYNC(req_client_update(ctx, period - 2, 2, ctx->chain_id, &data));
   TRY_ASYNC(extract_sync_data(ctx, data, &period_values));
   return create_proof(ctx, &period_values);
-- 
2.43.0


From fd07d48ee790140204463fe495960cf24081a181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:08:58 +0000
Subject: [PATCH 135/154] fix: limit the cache key of a block tag to its size

---
 src/chains/eth/prover/beacon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/prover/beacon.c b/src/chains/eth/prover/beacon.c
index 68b8241..5f6fbdb 100644
--- a/src/chains/eth/prover/beacon.c
+++ b/src/chains/eth/prover/beacon.c
@@ -45,7 +45,7 @@ static inline void create_cache_block_key(bytes32_t key, json_t block) {
   }
   else if (block.start[1] == '0' && block.start[2] == 'x') {
     json_as_bytes(block, &buffer);
-    if (block.len < 68) memmove(key + 1, key, buffer.data.len);
+    if (block.len < 68) memmove(key + 1, key, buffer.data.len > 31 ? 31 : buffer.data.len);
   }
   else
     memcpy(key + 1, block.start, block.len > 31 ? 31 : block.len);
-- 
2.43.0


From a90152a5d320b98234ca483e4cfd6ccd275c9c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:14 +0000
Subject: [PATCH 136/154] fix: only sign complete block witnesses

---
 src/chains/eth/prover/proof_witness.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/prover/proof_witness.c b/src/chains/eth/prover/proof_witness.c
index 2b1fbf2..b95903c 100644
--- a/src/chains/eth/prover/proof_witness.c
+++ b/src/chains/eth/prover/proof_witness.c
@@ -54,13 +54,14 @@ const ssz_def_t C4_BLOCK_HASH_WITNESS[3] = {
 */
 
 static c4_status_t c4_proof_witness_blockhash(prover_ctx_t* ctx, json_t block_number, ssz_builder_t* witness_builder) {
-  if (block_number.type != JSON_TYPE_STRING) THROW_ERROR_WITH("Invalid or missing block number : %j", block_number);
+  CHECK_JSON(block_number, "block", "Invalid or missing block number : ");
   uint8_t  tmp[200] = {0};
   buffer_t buffer   = stack_buffer(tmp);
   json_t   result   = {0};
 
   TRY_ASYNC(c4_send_eth_rpc(ctx, block_number.len == 68 ? "eth_getBlockByHash" : "eth_getBlockByNumber", bprintf(&buffer, "[%J,false]", block_number), block_number.len == 68 ? DEFAULT_TTL : 12, &result, NULL));
 
+  CHECK_JSON(result, "{number:hexuint,hash:bytes32,stateRoot:bytes32,receiptsRoot:bytes32,transactionsRoot:bytes32}", "Invalid block for the witness: ");
   ssz_builder_t witness = ssz_builder_for_def(c4_witness_get_def(C4_BLOCK_HASH_WITNESS_ID));
   ssz_add_uint64(&witness, ctx->chain_id);
   ssz_add_uint64(&witness, json_as_uint64(json_get(result, "number")));
-- 
2.43.0


From 767c678021fc5cc8e83b47c1d711999fbf6d3ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:18:15 +0000
Subject: [PATCH 137/154] fix: require a valid parentBeaconBlockRoot

---
 src/chains/eth/prover/beacon.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chains/eth/prover/beacon.c b/src/chains/eth/prover/beacon.c
index 5f6fbdb..9014820 100644
--- a/src/chains/eth/prover/beacon.c
+++ b/src/chains/eth/prover/beacon.c
@@ -313,6 +313,7 @@ static c4_status_t get_beacon_header_from_eth_block(prover_ctx_t* ctx, json_t et
   buffer_t buffer = {.allocated = -32, .data = {.data = parent_root, .len = 0}};
   json_t   p_hash = json_get(eth_block, "parentBeaconBlockRoot");
   if (p_hash.len != 68) THROW_ERROR("The Block is not a Beacon Block!");
+  CHECK_JSON(p_hash, "bytes32", "Invalid parentBeaconBlockRoot: ");
   return get_beacon_header_by_parent_hash(ctx, json_as_bytes(p_hash, &buffer).data, header, root);
 }
 
-- 
2.43.0


From fec4e9a11721f0c7cad5376c1723282288b4ee4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:37 +0000
Subject: [PATCH 138/154] fix: report the chain id of data requests in the
 bindings

---
 bindings/colibri.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bindings/colibri.c b/bindings/colibri.c
index bbab936..a73c44f 100644
--- a/bindings/colibri.c
+++ b/bindings/colibri.c
@@ -96,9 +96,9 @@ static const char* data_request_type_to_string(data_request_type_t type) {
       return "internal";
   }
 }
-static void add_data_request(buffer_t* result, data_request_t* data_request) {
+static void add_data_request(buffer_t* result, data_request_t* data_request, chain_id_t chain_id) {
   bprintf(result, "{\"req_ptr\": %l,", (uint64_t) data_request);
-  bprintf(result, "\"chain_id\": %d,", (uint32_t) data_request->chain_id);
+  bprintf(result, "\"chain_id\": %l,", (uint64_t) (data_request->chain_id ? data_request->chain_id : chain_id));
   bprintf(result, "\"encoding\": \"%s\",", encoding_to_string(data_request->encoding));
   bprintf(result, "\"exclude_mask\": \"%d\",", (uint32_t) data_request->node_exclude_mask);
   bprintf(result, "\"method\": \"%s\",", method_to_string(data_request->method));
@@ -126,7 +126,7 @@ char* c4_prover_execute_json_status(prover_t* prover) {
       while (data_request) {
         if (!data_request->response.data && !data_request->error) {
           if (result.data.data[result.data.len - 1] != '[') bprintf(&result, ",");
-          add_data_request(&result, data_request);
+          add_data_request(&result, data_request, ctx->chain_id);
         }
         data_request = data_request->next;
       }
@@ -197,7 +197,7 @@ char* c4_verify_execute_json_status(void* ptr) {
       while (data_request) {
         if (!data_request->response.data && !data_request->error) {
           if (buf.data.data[buf.data.len - 1] != '[') bprintf(&buf, ",");
-          add_data_request(&buf, data_request);
+          add_data_request(&buf, data_request, ctx->ctx.chain_id);
         }
         data_request = data_request->next;
       }
-- 
2.43.0


From 25f4b51334e68e68d61a3b9b0a57fd4dad3176ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:52 +0000
Subject: [PATCH 139/154] fix: return merkle proofs with a valid type
 definition

---
 src/chains/eth/verifier/patricia_trie.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/patricia_trie.c b/src/chains/eth/verifier/patricia_trie.c
index 9a53aca..50be813 100644
--- a/src/chains/eth/verifier/patricia_trie.c
+++ b/src/chains/eth/verifier/patricia_trie.c
@@ -350,7 +350,7 @@ INTERNAL void patricia_set_value(node_t** root, bytes_t path, bytes_t value) {
 }
 
 INTERNAL ssz_ob_t patricia_create_merkle_proof(node_t* root, bytes_t path) {
-  ssz_def_t     def     = SSZ_LIST("bytes", ssz_bytes_list, 1024);
+  static const ssz_def_t def = SSZ_LIST("bytes", ssz_bytes_list, 1024); // the returned object refers to it
   ssz_builder_t builder = {0};
   buffer_t      buf     = {0};
   nibbles_t     nibbles = path_to_nibbles(path, false);
-- 
2.43.0


From d5f947ca19b5bdffad46a8a5a61c6e0218941581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:48 +0000
Subject: [PATCH 140/154] fix: bind cached witnesses to the chain, key and
 params they were requested for

---
 src/chains/eth/prover/proof_witness.c | 31 +++++++++------------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/src/chains/eth/prover/proof_witness.c b/src/chains/eth/prover/proof_witness.c
index b95903c..0ced926 100644
--- a/src/chains/eth/prover/proof_witness.c
+++ b/src/chains/eth/prover/proof_witness.c
@@ -74,25 +74,14 @@ static c4_status_t c4_proof_witness_blockhash(prover_ctx_t* ctx, json_t block_nu
   return C4_SUCCESS;
 }
 
-static void create_cache_key(json_t params, bytes32_t cache_key) {
-  uint8_t  tmp[200] = {0};
-  buffer_t buffer   = stack_buffer(tmp);
-  int      p        = 0;
-  memset(cache_key, 0, 32); // Initialize cache_key to zero
-
-  json_for_each_value(params, param) {
-    if (param.type == JSON_TYPE_STRING) {
-      bytes_t b = {0};
-      if (param.start[1] == '0' && param.start[2] == 'x')
-        b = json_as_bytes(param, &buffer);
-      else
-        b = bytes(param.start + 1, param.len - 2);
-      if (p + b.len > 32) b.len = 32 - p;
-      memcpy(cache_key + p, b.data, b.len);
-      p += b.len;
-    }
-    if (p > 32) break;
-  }
+// the cached witness is bound to the chain, the key used to sign it and the params
+static void create_cache_key(prover_ctx_t* ctx, bytes32_t cache_key) {
+  buffer_t buffer = {0};
+  buffer_append(&buffer, bytes((uint8_t*) &ctx->chain_id, sizeof(ctx->chain_id)));
+  buffer_append(&buffer, ctx->witness_key);
+  buffer_append(&buffer, bytes((uint8_t*) ctx->params.start, ctx->params.len));
+  keccak(buffer.data, cache_key);
+  buffer_free(&buffer);
 }
 
 c4_status_t c4_proof_witness(prover_ctx_t* ctx) {
@@ -101,7 +90,7 @@ c4_status_t c4_proof_witness(prover_ctx_t* ctx) {
   if (ctx->witness_key.len != 32) THROW_ERROR("Witness key is not set");
 #ifdef PROVER_CACHE
   bytes32_t cache_key = {0};
-  create_cache_key(ctx->params, &cache_key);
+  create_cache_key(ctx, cache_key);
 
   ssz_ob_t* witness_cache = (ssz_ob_t*) c4_prover_cache_get(ctx, cache_key);
   if (witness_cache) {
@@ -131,7 +120,7 @@ c4_status_t c4_proof_witness(prover_ctx_t* ctx) {
   cache_entry->def      = witness_signed.def;
   if (witness_signed.fixed.data.len) memcpy(cache_entry->bytes.data, witness_signed.fixed.data.data, witness_signed.fixed.data.len);
   if (witness_signed.dynamic.data.len) memcpy(cache_entry->bytes.data + witness_signed.fixed.data.len, witness_signed.dynamic.data.data, witness_signed.dynamic.data.len);
-  c4_prover_cache_set(ctx, cache_key, cache_entry, sizeof(ssz_ob_t) + cache_entry->bytes.len, DEFAULT_TTL, free);
+  c4_prover_cache_set(ctx, cache_key, cache_entry, sizeof(ssz_ob_t) + cache_entry->bytes.len, json_at(ctx->params, 1).len == 68 ? DEFAULT_TTL : 12, free);
 #endif
   ctx->proof = eth_create_proof_request(
       ctx->chain_id,
-- 
2.43.0


From c0057cc9f0d1031ce7f294632254228b9954c606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:53:48 +0000
Subject: [PATCH 141/154] fix: prove empty logs on OP-Stack chains

---
 src/chains/op/prover/op_tools.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/op/prover/op_tools.c b/src/chains/op/prover/op_tools.c
index 6ee4b16..c3d1901 100644
--- a/src/chains/op/prover/op_tools.c
+++ b/src/chains/op/prover/op_tools.c
@@ -9,7 +9,7 @@
 static const ssz_def_t EXECUTION_PAYLOAD_CONTAINER = SSZ_CONTAINER("payload", DENEP_EXECUTION_PAYLOAD);
 
 static void set_data(ssz_builder_t* req, const char* name, ssz_builder_t data) {
-  if (data.fixed.data.data || data.dynamic.data.data)
+  if (data.def)
     ssz_add_builders(req, name, data);
   else
     ssz_add_bytes(req, name, bytes(NULL, 1));
-- 
2.43.0


From 1ec51f048464ff19120ca1d0fc03229812fb6588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:56:18 +0000
Subject: [PATCH 142/154] fix: decode the execution payload of OP preconfs
 without the union selector

---
 src/chains/op/prover/op_proof_account.c |  4 ++++
 src/chains/op/prover/op_proof_call.c    |  4 ++++
 src/chains/op/prover/op_proof_logs.c    |  4 +++-
 src/chains/op/prover/op_tools.c         | 19 ++++++++++++++++---
 src/chains/op/prover/op_tools.h         |  2 +-
 5 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/chains/op/prover/op_proof_account.c b/src/chains/op/prover/op_proof_account.c
index 3819805..707de5b 100644
--- a/src/chains/op/prover/op_proof_account.c
+++ b/src/chains/op/prover/op_proof_account.c
@@ -120,6 +120,10 @@ c4_status_t c4_op_proof_account(prover_ctx_t* ctx) {
     CHECK_JSON(ctx->params, "[address,block]", "Invalid arguments for AccountProof: ");
   TRY_ASYNC(c4_op_create_block_proof(ctx, block_number, &block_proof));
   ssz_ob_t* execution_payload = op_get_execution_payload(&block_proof);
+  if (!execution_payload) {
+    ssz_builder_free(&block_proof);
+    THROW_ERROR("Invalid preconf payload");
+  }
   block_number_uint64         = ssz_get_uint64(execution_payload, "blockNumber");
   safe_free(execution_payload);
   TRY_ASYNC_CATCH(eth_get_proof(ctx, address, storage_keys, &eth_proof, block_number_uint64), ssz_builder_free(&block_proof));
diff --git a/src/chains/op/prover/op_proof_call.c b/src/chains/op/prover/op_proof_call.c
index 21e5a8f..4991eaf 100644
--- a/src/chains/op/prover/op_proof_call.c
+++ b/src/chains/op/prover/op_proof_call.c
@@ -78,6 +78,10 @@ c4_status_t c4_op_proof_call(prover_ctx_t* ctx) {
   // get the latest block proof
   TRY_ASYNC(c4_op_create_block_proof(ctx, block_number, &proof.block_proof));
   proof.execution_payload = op_get_execution_payload(&proof.block_proof);
+  if (!proof.execution_payload) {
+    free_proof(&proof);
+    THROW_ERROR("Invalid preconf payload");
+  }
   proof.target_block      = ssz_get_uint64(proof.execution_payload, "blockNumber");
   proof.miner             = ssz_get(proof.execution_payload, "feeRecipient").bytes;
 
diff --git a/src/chains/op/prover/op_proof_logs.c b/src/chains/op/prover/op_proof_logs.c
index 60af86c..38152d1 100644
--- a/src/chains/op/prover/op_proof_logs.c
+++ b/src/chains/op/prover/op_proof_logs.c
@@ -143,6 +143,7 @@ static uint8_t* get_cache_key(proof_logs_block_t* block) {
   if (bytes_all_zero(bytes(block->cache_key, 32))) {
     if (!block->block_proof.def) return NULL;
     ssz_ob_t* execution_payload = get_execution_payload(block);
+    if (!execution_payload) return NULL;
     ssz_ob_t  receipt_root      = ssz_get(execution_payload, "receiptsRoot");
     memcpy(block->cache_key, receipt_root.bytes.data, 32);
   }
@@ -159,7 +160,8 @@ static c4_status_t get_receipts(prover_ctx_t* ctx, proof_logs_block_t* blocks) {
     TRY_ADD_ASYNC(status, c4_op_create_block_proof(ctx, block_number, &block->block_proof));
 #ifdef PROVER_CACHE
     // we get the merkle tree from the cache if available now so we can use it later in the worker thread
-    if (status == C4_SUCCESS && get_cache_key(block) && c4_prover_cache_get(ctx, block->cache_key))
+    if (status == C4_SUCCESS && !get_cache_key(block)) THROW_ERROR("Invalid preconf payload");
+    if (status == C4_SUCCESS && c4_prover_cache_get(ctx, block->cache_key))
       continue;
 #endif
 
diff --git a/src/chains/op/prover/op_tools.c b/src/chains/op/prover/op_tools.c
index c3d1901..77f60b8 100644
--- a/src/chains/op/prover/op_tools.c
+++ b/src/chains/op/prover/op_tools.c
@@ -6,6 +6,10 @@
 #include "op_zstd.h"
 #include "ssz.h"
 #include "version.h"
+
+// max size of a payload (gossip messages are limited to 10MB)
+#define MAX_PAYLOAD_SIZE (16 * 1024 * 1024)
+
 static const ssz_def_t EXECUTION_PAYLOAD_CONTAINER = SSZ_CONTAINER("payload", DENEP_EXECUTION_PAYLOAD);
 
 static void set_data(ssz_builder_t* req, const char* name, ssz_builder_t data) {
@@ -33,12 +37,21 @@ bytes_t op_create_proof_request(chain_id_t chain_id, ssz_builder_t data, ssz_bui
 }
 
 ssz_ob_t* op_get_execution_payload(ssz_builder_t* block_proof) {
-  if (!block_proof || !block_proof->dynamic.data.data) return NULL;
-  size_t  len     = op_zstd_get_decompressed_size(block_proof->dynamic.data);
+  if (!block_proof || block_proof->dynamic.data.len < 2) return NULL;
+  bytes_t compressed = bytes_slice(block_proof->dynamic.data, 1, block_proof->dynamic.data.len - 1); // the first byte is the selector of the payload-union
+  size_t  len        = op_zstd_get_decompressed_size(compressed);
+  if (len <= 32 || len > MAX_PAYLOAD_SIZE) return NULL;
   bytes_t payload = bytes(safe_malloc(len), len);
-  op_zstd_decompress(block_proof->dynamic.data, payload);
+  if (op_zstd_decompress(compressed, payload) != len) {
+    safe_free(payload.data);
+    return NULL;
+  }
   ssz_ob_t* ob = (ssz_ob_t*) (void*) payload.data;
   ob->bytes    = bytes_slice(payload, 32, len - 32);
   ob->def      = &EXECUTION_PAYLOAD_CONTAINER;
+  if (!ssz_get(ob, "excessBlobGas").bytes.data) { // must contain at least all the fixed fields
+    safe_free(ob);
+    return NULL;
+  }
   return ob;
 }
diff --git a/src/chains/op/prover/op_tools.h b/src/chains/op/prover/op_tools.h
index 1f7496e..3e1dc83 100644
--- a/src/chains/op/prover/op_tools.h
+++ b/src/chains/op/prover/op_tools.h
@@ -35,7 +35,7 @@ extern "C" {
 #include "ssz.h"
 
 bytes_t op_create_proof_request(chain_id_t chain_id, ssz_builder_t data, ssz_builder_t proof, ssz_builder_t sync_data);
-// creates the executionpayload from the block_proof. Caller must free the ssz_ob_t! with safe_free(execution_payload).
+// creates the executionpayload from the block_proof. Caller must free the ssz_ob_t! with safe_free(execution_payload). Returns NULL if the payload is invalid.
 ssz_ob_t* op_get_execution_payload(ssz_builder_t* block_proof);
 #ifdef __cplusplus
 }
-- 
2.43.0


From 957a41c246445fa4e5c7f3fdefd4e36692e9ecd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:16 +0000
Subject: [PATCH 143/154] fix: encode the nonce and version of deposit receipts
 as integers

---
 src/chains/eth/prover/eth_req.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/chains/eth/prover/eth_req.c b/src/chains/eth/prover/eth_req.c
index b1a64ea..1d1647e 100644
--- a/src/chains/eth/prover/eth_req.c
+++ b/src/chains/eth/prover/eth_req.c
@@ -201,10 +201,8 @@ bytes_t c4_serialize_receipt(json_t r, buffer_t* buf) {
     json_t depositNonce          = json_get(r, "depositNonce");
     json_t depositReceiptVersion = json_get(r, "depositReceiptVersion");
     if (depositNonce.type == JSON_TYPE_STRING && depositReceiptVersion.type == JSON_TYPE_STRING) {
-      buffer_reset(&short_buf);
-      rlp_add_item(buf, json_as_bytes(depositNonce, &short_buf));
-      buffer_reset(&short_buf);
-      rlp_add_item(buf, json_as_bytes(depositReceiptVersion, &short_buf));
+      rlp_add_uint64(buf, json_as_uint64(depositNonce));
+      rlp_add_uint64(buf, json_as_uint64(depositReceiptVersion));
     }
   }
 
-- 
2.43.0


From fd7757f1a9dea23bebcde1a9ccfd7e39a58ee2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:37 +0000
Subject: [PATCH 144/154] fix: prove the code of the requested block on
 OP-Stack chains

---
 src/chains/op/prover/op_proof_account.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chains/op/prover/op_proof_account.c b/src/chains/op/prover/op_proof_account.c
index 707de5b..427dc02 100644
--- a/src/chains/op/prover/op_proof_account.c
+++ b/src/chains/op/prover/op_proof_account.c
@@ -69,7 +69,7 @@ static ssz_builder_t create_storage_proof(prover_ctx_t* ctx, const ssz_def_t* de
   return storage_proof;
 }
 
-static c4_status_t create_eth_account_proof(prover_ctx_t* ctx, json_t eth_proof, json_t address, json_t block_number, ssz_builder_t block_proof) {
+static c4_status_t create_eth_account_proof(prover_ctx_t* ctx, json_t eth_proof, json_t address, uint64_t block_number, ssz_builder_t block_proof) {
 
   json_t        json_code         = {0};
   address_t     address_buf       = {0};
@@ -78,7 +78,7 @@ static c4_status_t create_eth_account_proof(prover_ctx_t* ctx, json_t eth_proof,
   ssz_builder_t eth_account_proof = ssz_builder_for_op_type(OP_SSZ_VERIFY_ACCOUNT_PROOF);
 
   // make sure we have the full code
-  if (strcmp(ctx->method, "eth_getCode") == 0) TRY_ASYNC(eth_get_code(ctx, address, &json_code, 0));
+  if (strcmp(ctx->method, "eth_getCode") == 0) TRY_ASYNC(eth_get_code(ctx, address, &json_code, block_number));
 
   // build the account proof
   add_dynamic_byte_list(json_get(eth_proof, "accountProof"), &eth_account_proof, "accountProof");
@@ -127,6 +127,6 @@ c4_status_t c4_op_proof_account(prover_ctx_t* ctx) {
   block_number_uint64         = ssz_get_uint64(execution_payload, "blockNumber");
   safe_free(execution_payload);
   TRY_ASYNC_CATCH(eth_get_proof(ctx, address, storage_keys, &eth_proof, block_number_uint64), ssz_builder_free(&block_proof));
-  TRY_ASYNC_CATCH(create_eth_account_proof(ctx, eth_proof, address, block_number, block_proof), ssz_builder_free(&block_proof));
+  TRY_ASYNC_CATCH(create_eth_account_proof(ctx, eth_proof, address, block_number_uint64, block_proof), ssz_builder_free(&block_proof));
   return C4_SUCCESS;
 }
\ No newline at end of file
-- 
2.43.0


From e1fd8b1d30648bbf25f82d4a45313c86e25b375d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:28 +0000
Subject: [PATCH 145/154] fix: use the access list and the state overrides for
 call proofs on OP-Stack chains

---
 src/chains/op/prover/op_proof_call.c | 31 +++++++++++++++++++---------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/chains/op/prover/op_proof_call.c b/src/chains/op/prover/op_proof_call.c
index 4991eaf..40dbe99 100644
--- a/src/chains/op/prover/op_proof_call.c
+++ b/src/chains/op/prover/op_proof_call.c
@@ -31,6 +31,7 @@
 #include "op_types.h"
 #include "prover.h"
 #include "ssz.h"
+#include "state_overrides.h"
 #include "version.h"
 #include <inttypes.h> // Include this header for PRIu64 and PRIx64
 #include <stdlib.h>
@@ -44,6 +45,7 @@ typedef struct {
   json_t        trace;
   ssz_builder_t accounts;
 
+  eth_state_overrides_t overrides;
 } op_call_proof_t;
 
 static c4_status_t create_eth_call_proof(prover_ctx_t* ctx, op_call_proof_t* proof) {
@@ -67,27 +69,36 @@ static void free_proof(op_call_proof_t* proof) {
   ssz_builder_free(&proof->block_proof);
   ssz_builder_free(&proof->accounts);
   if (proof->execution_payload) safe_free(proof->execution_payload);
+  eth_state_overrides_free(&proof->overrides);
 }
 
 c4_status_t c4_op_proof_call(prover_ctx_t* ctx) {
-  json_t          tx           = json_at(ctx->params, 0);
-  json_t          block_number = json_at(ctx->params, 1);
-  c4_status_t     status       = C4_SUCCESS;
-  op_call_proof_t proof        = {0};
+  json_t          tx              = json_at(ctx->params, 0);
+  json_t          block_number    = json_at(ctx->params, 1);
+  json_t          state_overrides = json_at(ctx->params, 2);
+  bool            has_overrides   = state_overrides.type == JSON_TYPE_OBJECT;
+  c4_status_t     status          = C4_SUCCESS;
+  op_call_proof_t proof           = {0};
+
+  CHECK_JSON(ctx->params, "[{to:address,data:bytes,gas?:hexuint,value?:hexuint,gasPrice?:hexuint,from?:address},block,{*:{balance?:hexuint,code?:bytes,state?:{*:bytes32},stateDiff?:{*:bytes32}}}?]", "Invalid transaction");
+  if (has_overrides) TRY_ASYNC(eth_parse_state_overrides_state(&ctx->state, state_overrides, &proof.overrides));
 
   // get the latest block proof
-  TRY_ASYNC(c4_op_create_block_proof(ctx, block_number, &proof.block_proof));
+  TRY_ASYNC_CATCH(c4_op_create_block_proof(ctx, block_number, &proof.block_proof), free_proof(&proof));
   proof.execution_payload = op_get_execution_payload(&proof.block_proof);
   if (!proof.execution_payload) {
     free_proof(&proof);
     THROW_ERROR("Invalid preconf payload");
   }
-  proof.target_block      = ssz_get_uint64(proof.execution_payload, "blockNumber");
-  proof.miner             = ssz_get(proof.execution_payload, "feeRecipient").bytes;
+  proof.target_block = ssz_get_uint64(proof.execution_payload, "blockNumber");
+  proof.miner        = ssz_get(proof.execution_payload, "feeRecipient").bytes;
 
-  TRY_ASYNC_CATCH(eth_debug_trace_call(ctx, tx, &proof.trace, proof.target_block), free_proof(&proof));
-  // TRY_ASYNC_CATCH(eth_debug_trace_call(ctx, tx, &proof.trace, proof.target_block), free_proof(&proof));
-  TRY_ASYNC_CATCH(c4_get_eth_proofs(ctx, tx, proof.trace, proof.target_block, &proof.accounts, proof.miner.data, NULL), free_proof(&proof));
+  // c4_get_eth_proofs expects the access list if overrides are used or the flag is set
+  if (has_overrides || (ctx->flags & C4_PROVER_FLAG_USE_ACCESSLIST))
+    TRY_ASYNC_CATCH(eth_create_access_list(ctx, tx, &proof.trace, proof.target_block, state_overrides), free_proof(&proof));
+  else
+    TRY_ASYNC_CATCH(eth_debug_trace_call(ctx, tx, &proof.trace, proof.target_block), free_proof(&proof));
+  TRY_ASYNC_CATCH(c4_get_eth_proofs(ctx, tx, proof.trace, proof.target_block, &proof.accounts, proof.miner.data, has_overrides ? &proof.overrides : NULL), free_proof(&proof));
 
   status = create_eth_call_proof(ctx, &proof);
   free_proof(&proof);
-- 
2.43.0


From 8de5555b293bc818c56dd172892cbedddc5cab88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:20 +0000
Subject: [PATCH 146/154] fix: check the block reference and the preconf before
 creating OP block proofs

---
 src/chains/op/prover/op_proof_block.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chains/op/prover/op_proof_block.c b/src/chains/op/prover/op_proof_block.c
index 90527fd..cf73560 100644
--- a/src/chains/op/prover/op_proof_block.c
+++ b/src/chains/op/prover/op_proof_block.c
@@ -41,6 +41,7 @@ c4_status_t c4_op_create_block_proof(prover_ctx_t* ctx, json_t block_number, ssz
   buffer_t buf2         = stack_buffer(path);
   bytes_t  preconf_data = {0};
 
+  CHECK_JSON(block_number, "block", "Invalid block: ");
   if ((ctx->flags & C4_PROVER_FLAG_UNSTABLE_LATEST) == 0 && block_number.start[1] == 'l')
     bprintf(&buf2, "preconf/pre_latest");
   else
@@ -48,6 +49,7 @@ c4_status_t c4_op_create_block_proof(prover_ctx_t* ctx, json_t block_number, ssz
 
   TRY_ASYNC(c4_send_internal_request(ctx, (char*) buf2.data.data, NULL, 0, &preconf_data)); // get the raw-data
   if (!preconf_data.len) THROW_ERROR("No preconf data found, currently only supports preconfs");
+  if (preconf_data.len <= 65) THROW_ERROR("Invalid preconf data");
   // Extract payload and signature
   bytes_t payload   = bytes_slice(preconf_data, 0, preconf_data.len - 65);
   bytes_t signature = bytes_slice(preconf_data, preconf_data.len - 65, 65);
-- 
2.43.0


From f1126e74523468f6396eb321b15667cebd735423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:07:31 +0000
Subject: [PATCH 147/154] fix: do not leak the block proof if the receipts of
 an OP block are invalid

---
 src/chains/op/prover/op_proof_receipt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/op/prover/op_proof_receipt.c b/src/chains/op/prover/op_proof_receipt.c
index 705261b..4f3dbb9 100644
--- a/src/chains/op/prover/op_proof_receipt.c
+++ b/src/chains/op/prover/op_proof_receipt.c
@@ -75,8 +75,8 @@ c4_status_t c4_op_proof_receipt(prover_ctx_t* ctx) {
   json_t        block_number = json_get(tx_data, "blockNumber");
   json_get_bytes(tx_data, "blockHash", &buf);
 
-  TRY_ADD_ASYNC(status, c4_op_create_block_proof(ctx, block_number, &block_proof));
   TRY_ADD_ASYNC(status, eth_getBlockReceipts(ctx, block_number, &block_receipts));
+  TRY_ADD_ASYNC(status, c4_op_create_block_proof(ctx, block_number, &block_proof));
   TRY_ASYNC_CATCH(status, ssz_builder_free(&block_proof));
 
   TRY_ASYNC_CATCH(c4_eth_get_receipt_proof(ctx, block_hash, block_receipts, tx_index, &receipt, &receipt_proof),
-- 
2.43.0


From 8617b2daefc12b7c1964029eae8d63ae7d099ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:02 +0000
Subject: [PATCH 148/154] fix: compare all bits of a requested transaction
 index

---
 src/chains/eth/verifier/verify_tx_proof.c | 4 ++--
 src/chains/op/verifier/op_verify_tx.c     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/chains/eth/verifier/verify_tx_proof.c b/src/chains/eth/verifier/verify_tx_proof.c
index e36e4bc..7ce0deb 100644
--- a/src/chains/eth/verifier/verify_tx_proof.c
+++ b/src/chains/eth/verifier/verify_tx_proof.c
@@ -88,13 +88,13 @@ static bool verify_args(verify_ctx_t* ctx, bytes_t raw, uint32_t tx_index, bytes
     bytes_t   req_block_hash = json_as_bytes(json_at(ctx->args, 0), &buf);
     if (req_block_hash.len != 32) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
     if (memcmp(req_block_hash.data, block_hash, 32) != 0) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
-    if (json_as_uint32(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
+    if (json_as_uint64(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
   }
   else if (strcmp(ctx->method, "eth_getTransactionByBlockNumberAndIndex") == 0) {
     uint64_t req_block_num = json_as_uint64(json_at(ctx->args, 0));
     if (!req_block_num) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
     if (req_block_num != ssz_get_uint64(&ctx->proof, "blockNumber")) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
-    if (json_as_uint32(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
+    if (json_as_uint64(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
   }
   else
     RETURN_VERIFY_ERROR(ctx, "invalid method for tx proof!");
diff --git a/src/chains/op/verifier/op_verify_tx.c b/src/chains/op/verifier/op_verify_tx.c
index 7450749..b6ad3e8 100644
--- a/src/chains/op/verifier/op_verify_tx.c
+++ b/src/chains/op/verifier/op_verify_tx.c
@@ -57,7 +57,7 @@ bool op_verify_tx_proof(verify_ctx_t* ctx) {
 
   if (strcmp(ctx->method, "eth_getTransactionByBlockNumberAndIndex") == 0) {
     json_t block_number = json_at(ctx->args, 0);
-    if (json_as_uint32(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
+    if (json_as_uint64(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
     if (block_number.type != JSON_TYPE_STRING || block_number.len < 5) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
     execution_payload = op_extract_verified_execution_payload(ctx, block_proof, &block_number, NULL);
   }
@@ -65,7 +65,7 @@ bool op_verify_tx_proof(verify_ctx_t* ctx) {
     bytes32_t block_hash_expected = {0};
     buffer_t  buf                 = stack_buffer(block_hash_expected);
     json_as_bytes(json_at(ctx->args, 0), &buf);
-    if (json_as_uint32(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
+    if (json_as_uint64(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
     execution_payload = op_extract_verified_execution_payload(ctx, block_proof, NULL, NULL);
     if (execution_payload == NULL) return false; // error already set
     bytes_t block_hash_found = ssz_get(execution_payload, "blockHash").bytes;
-- 
2.43.0


From 1cfee41d20ce03f33c983970cdcdbd1a943016bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:00:02 +0000
Subject: [PATCH 149/154] fix: hex numbers of more than 64 bits are not 0

---
 src/util/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/json.c b/src/util/json.c
index 61066f2..fd50997 100644
--- a/src/util/json.c
+++ b/src/util/json.c
@@ -381,7 +381,7 @@ uint64_t json_as_uint64(json_t value) {
   if (value.len > 4 && value.start && value.start[1] == '0' && value.start[2] == 'x') {
     int len = hex_to_bytes(value.start + 1, value.len - 2, bytes(tmp, sizeof(tmp)));
     if (len == -1) return 0;
-    if (len > 8) return bytes_all_zero(bytes(tmp, len - 8)) ? uint64_from_be(tmp + len - 8) : 0; // does not fit
+    if (len > 8) return bytes_all_zero(bytes(tmp, len - 8)) ? uint64_from_be(tmp + len - 8) : UINT64_MAX; // does not fit
     return bytes_as_be(bytes(tmp, len));
   }
   return (uint64_t) strtoull(json_as_string(value, &buffer), NULL, 10);
-- 
2.43.0


From a0687b9a79b5e73c677664a1cdb7a9ea0b6da202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:12 +0000
Subject: [PATCH 150/154] fix: pass non ASCII strings completely to the core

---
 bindings/emscripten/src/wasm_shared.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bindings/emscripten/src/wasm_shared.ts b/bindings/emscripten/src/wasm_shared.ts
index 8d8961d..d92678e 100644
--- a/bindings/emscripten/src/wasm_shared.ts
+++ b/bindings/emscripten/src/wasm_shared.ts
@@ -115,8 +115,9 @@ export async function get_default_storage(): Promise<Storage> {
 }
 
 export function as_char_ptr(str: string, c4w: C4W, free_ptrs?: number[]) {
-    const ptr = c4w._malloc(str.length + 1);
-    c4w.stringToUTF8(str, ptr, str.length + 1);
+    const size = new TextEncoder().encode(str).length + 1;
+    const ptr = c4w._malloc(size);
+    c4w.stringToUTF8(str, ptr, size);
     if (free_ptrs) free_ptrs.push(ptr);
     return ptr;
 }
-- 
2.43.0


From cd7ce0445d314eefa8b56c6d1c096bc0598ac9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:12 +0000
Subject: [PATCH 151/154] fix: try the next node if a node of the JavaScript
 client can not be reached

---
 bindings/emscripten/src/http.ts | 42 ++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/bindings/emscripten/src/http.ts b/bindings/emscripten/src/http.ts
index c0a508f..fc3a363 100644
--- a/bindings/emscripten/src/http.ts
+++ b/bindings/emscripten/src/http.ts
@@ -96,27 +96,31 @@ function log(msg: string) {
 export async function fetch_rpc(urls: string[], payload: any, as_proof: boolean = false): Promise<any> {
   let last_error = 'All nodes failed';
   for (const url of urls) {
-    const response = await fetch(url, {
-      method: 'POST',
-      body: JSON.stringify({ id: 1, jsonrpc: '2.0', ...payload }),
-      headers: {
-        'Content-Type': 'application/json',
-        'Accept': as_proof ? 'application/octet-stream' : 'application/json',
-      },
-    });
-    if (response.ok) {
-      if (!as_proof) {
-        const res = await response.json();
-        if (res.error) {
-          last_error = res.error?.message || res.error;
-          continue;
+    try {
+      const response = await fetch(url, {
+        method: 'POST',
+        body: JSON.stringify({ id: 1, jsonrpc: '2.0', ...payload }),
+        headers: {
+          'Content-Type': 'application/json',
+          'Accept': as_proof ? 'application/octet-stream' : 'application/json',
+        },
+      });
+      if (response.ok) {
+        if (!as_proof) {
+          const res = await response.json();
+          if (res.error) {
+            last_error = res.error?.message || res.error;
+            continue;
+          }
+          return res.result;
         }
-        return res.result;
+        const bytes = await response.blob().then(blob => blob.arrayBuffer());
+        return new Uint8Array(bytes);
+      } else {
+        last_error = `HTTP error! Status: ${response.status}, Details: ${await response.text()}`;
       }
-      const bytes = await response.blob().then(blob => blob.arrayBuffer());
-      return new Uint8Array(bytes);
-    } else {
-      last_error = `HTTP error! Status: ${response.status}, Details: ${await response.text()}`;
+    } catch (e) {
+      last_error = (e instanceof Error) ? e.message : String(e);
     }
   }
   throw new Error(last_error);
-- 
2.43.0


From de884a374e3426be122ba45ce475b2c513728980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:12 +0000
Subject: [PATCH 152/154] fix: compare recipient, value and calldata of a
 signed transaction exactly

---
 .../emscripten/src/transactionVerifier.ts     | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/bindings/emscripten/src/transactionVerifier.ts b/bindings/emscripten/src/transactionVerifier.ts
index 5e0ac03..88de2fa 100644
--- a/bindings/emscripten/src/transactionVerifier.ts
+++ b/bindings/emscripten/src/transactionVerifier.ts
@@ -100,13 +100,22 @@ export class TransactionVerifier {
         }
 
         // Kritische Parameter vergleichen
-        const criticalFields = ['to', 'value', 'data', 'gas', 'gasPrice', 'maxFeePerGas', 'maxPriorityFeePerGas', 'nonce'];
+        const criticalFields = ['to', 'value', 'data', 'input', 'gas', 'gasPrice', 'maxFeePerGas', 'maxPriorityFeePerGas', 'nonce'];
+        const calldata = decoded.input ?? decoded.data;
+        const expected = {
+            ...original,
+            to: original.to ?? '0x', // contract creation
+            value: original.value ?? '0x0',
+            data: original.data ?? original.input ?? '0x'
+        };
 
         for (const field of criticalFields) {
-            if (original[field] !== undefined) {
-                // Normalisierung für Hex-Werte (0x-Prefix, Leading Zeros)
-                const originalValue = this.normalizeHexValue(original[field]);
-                const decodedValue = this.normalizeHexValue(decoded[field]);
+            if (expected[field] !== undefined) {
+                // Adressen und Daten exakt, Zahlen normalisiert vergleichen (0x-Prefix, Leading Zeros)
+                const isCalldata = field === 'data' || field === 'input';
+                const normalize = (v: any) => isCalldata || field === 'to' ? (v ?? '0x').toString().toLowerCase() : this.normalizeHexValue(v);
+                const originalValue = normalize(expected[field]);
+                const decodedValue = normalize(isCalldata ? calldata : decoded[field]);
 
                 if (originalValue !== decodedValue) {
                     if (config.debug) {
@@ -140,7 +149,7 @@ export class TransactionVerifier {
 
         // Führende Nullen entfernen, aber mindestens eine Ziffer behalten
         const withoutPrefix = str.slice(2);
-        const normalized = withoutPrefix.replace(/^0+/, '') || '0';
+        const normalized = withoutPrefix.replace(/^0+/, '').toLowerCase() || '0';
         return '0x' + normalized;
     }
 }
-- 
2.43.0


From e95f6233a03aafebb8283eafc94f04eaa30cbe9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:24:12 +0000
Subject: [PATCH 153/154] fix: deliver blocks and logs of filters exactly once

---
 .../emscripten/src/subscriptionManager.ts     | 30 ++++++++++---------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/bindings/emscripten/src/subscriptionManager.ts b/bindings/emscripten/src/subscriptionManager.ts
index 2e6137d..5fc3a4b 100644
--- a/bindings/emscripten/src/subscriptionManager.ts
+++ b/bindings/emscripten/src/subscriptionManager.ts
@@ -226,11 +226,14 @@ export class SubscriptionManager {
             if (this.config.debug) console.warn('[SubMan] Could not fetch eth_blockNumber for polling context:', e);
         }
 
+        if (currentVerifiableBlockNumber === null) return results; // the range is unknown, so we try again with the next poll
+
         if (sub.kind === 'newHeads' || sub.kind === 'block') { // block is for eth_newBlockFilter
-            if (currentVerifiableBlockNumber) {
-                let fromBlock = sub.lastPolledBlockNumber ? sub.lastPolledBlockNumber + 1n : currentVerifiableBlockNumber;
+            if (currentVerifiableBlockNumber !== null) {
+                let lastBlock = currentVerifiableBlockNumber;
+                let fromBlock = sub.lastPolledBlockNumber !== undefined ? sub.lastPolledBlockNumber + 1n : currentVerifiableBlockNumber;
                 if (sub.kind === 'newHeads') { // For newHeads, we only care if the latest is newer
-                    if (!sub.lastPolledBlockNumber) sub.lastPolledBlockNumber = currentVerifiableBlockNumber;
+                    if (sub.lastPolledBlockNumber === undefined) sub.lastPolledBlockNumber = currentVerifiableBlockNumber;
                     if (currentVerifiableBlockNumber <= sub.lastPolledBlockNumber) return []; // No new head yet for eth_subscribe('newHeads')
                 }
 
@@ -243,7 +246,10 @@ export class SubscriptionManager {
                         }
                     } catch (e) {
                         if (this.config.debug) console.error(`[SubMan] Error fetching block ${blockNum} for sub/filter ${sub.id}:`, e);
-                        if (sub.kind === 'block') break; // For block filters, stop if a block in sequence fails
+                        if (sub.kind === 'block') { // For block filters, stop if a block in sequence fails
+                            lastBlock = blockNum - 1n; // and continue with this block
+                            break;
+                        }
                     }
                 }
                 if (results.length > 0 && sub.kind === 'newHeads' && !returnResults && this.activeSubscriptions.has(sub.id)) {
@@ -257,23 +263,20 @@ export class SubscriptionManager {
                     });
                     if (this.config.debug) console.log(`[SubMan] Emitted ${results.length} newHead(s) for sub ${sub.id}`);
                 }
-                sub.lastPolledBlockNumber = currentVerifiableBlockNumber;
+                sub.lastPolledBlockNumber = lastBlock;
             }
         } else if (sub.kind === 'logs' || sub.kind === 'log') { // 'log' is for eth_newFilter(logs)
             const filterParams = { ...(sub.params || {}) };
-            if (sub.lastPolledBlockNumber) {
+            if (sub.lastPolledBlockNumber !== undefined) {
                 filterParams.fromBlock = '0x' + (sub.lastPolledBlockNumber + 1n).toString(16);
-            } else if (!filterParams.fromBlock && currentVerifiableBlockNumber) {
+            } else if (!filterParams.fromBlock || filterParams.fromBlock === 'latest' || filterParams.fromBlock === 'pending') {
                 filterParams.fromBlock = '0x' + currentVerifiableBlockNumber.toString(16);
             }
 
-            if (currentVerifiableBlockNumber) {
+            if (!filterParams.toBlock?.startsWith?.('0x') || BigInt(filterParams.toBlock) > currentVerifiableBlockNumber)
                 filterParams.toBlock = '0x' + currentVerifiableBlockNumber.toString(16);
-            } else if (!filterParams.toBlock) {
-                filterParams.toBlock = 'latest';
-            }
 
-            if (filterParams.fromBlock && filterParams.toBlock && filterParams.toBlock !== 'latest' && BigInt(filterParams.fromBlock) > BigInt(filterParams.toBlock)) {
+            if (filterParams.fromBlock.startsWith('0x') && BigInt(filterParams.fromBlock) > BigInt(filterParams.toBlock)) {
                 // Skip if fromBlock is ahead
             } else {
                 try {
@@ -288,8 +291,7 @@ export class SubscriptionManager {
                             if (this.config.debug) console.log(`[SubMan] Emitted ${logs.length} logs for sub ${sub.id}`);
                         }
                     }
-                    if (filterParams.toBlock !== 'latest') sub.lastPolledBlockNumber = BigInt(filterParams.toBlock);
-                    else if (currentVerifiableBlockNumber) sub.lastPolledBlockNumber = currentVerifiableBlockNumber;
+                    sub.lastPolledBlockNumber = BigInt(filterParams.toBlock);
                 } catch (e) {
                     if (this.config.debug) console.error(`[SubMan] Error fetching logs for sub/filter ${sub.id}:`, e);
                 }
-- 
2.43.0


From 986125bf16c3daef20f8262854f2188baf24c171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:57 +0000
Subject: [PATCH 154/154] fix: try the next server if a checkpoint server can
 not be reached

---
 bindings/emscripten/src/index.ts | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/bindings/emscripten/src/index.ts b/bindings/emscripten/src/index.ts
index 5cb1988..26582a3 100644
--- a/bindings/emscripten/src/index.ts
+++ b/bindings/emscripten/src/index.ts
@@ -170,16 +170,20 @@ export default class C4Client {
   private async fetch_checkpointz() {
     let checkpoint: string | undefined = undefined
     for (const url of [...(this.config.checkpointz || []), ...(this.config.beacon_apis || []), ...(this.config.prover || [])]) {
-      const response = await fetch(url + (url.endsWith('/') ? '' : '/') + 'eth/v1/beacon/states/head/finality_checkpoints', {
-        method: 'GET',
-        headers: {
-          "Content-Type": "application/json"
+      try {
+        const response = await fetch(url + (url.endsWith('/') ? '' : '/') + 'eth/v1/beacon/states/head/finality_checkpoints', {
+          method: 'GET',
+          headers: {
+            "Content-Type": "application/json"
+          }
+        })
+        if (response.ok) {
+          const res = await response.json();
+          checkpoint = res?.data?.finalized?.root
+          if (checkpoint) break;
         }
-      })
-      if (response.ok) {
-        const res = await response.json();
-        checkpoint = res?.data?.finalized?.root
-        if (checkpoint) break;
+      } catch (e) {
+        if (this.config.debug) console.warn(`[C4Client] no checkpoint from ${url}:`, e); // try the next one
       }
     }
     if (!checkpoint) throw new Error('No checkpoint found');
-- 
2.43.0

