From 5343db6f917b24d7635973903a84c3a59ea2ccc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 01/89] fix: checked_copy of std::string left the destination
 unterminated

A shorter string copied over a longer one (an entry reused after a refused
make_server) kept the tail of the longer one.
---
 src/misc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc.h b/src/misc.h
index 1c2f741..d55ac9a 100644
--- a/src/misc.h
+++ b/src/misc.h
@@ -96,7 +96,7 @@ void checked_copy(const std::string &src, char (&dst)[N]) {
     throw std::length_error(string_format(
         "%s too long for destination of %d bytes", src.c_str(), N));
   }
-  std::copy_n(src.c_str(), src.size(), dst);
+  std::copy_n(src.c_str(), src.size() + 1, dst);
 }
 
 template <unsigned int N>
-- 
2.43.0


From 3b79e031c3da8e055f43c195493e998299744277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 02/89] fix: deleting the last field of a type shifted the
 wrong type offsets

Fbfr32::erase() read the type of the erased field after memmove() had already
put another field in its place.
---
 src/fbfr32.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index d8b31f9..3de1347 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -663,9 +663,10 @@ struct Fbfr32 {
       to = reinterpret_cast<fieldhead *>(data_ + len_);
     }
 
+    auto type = Fldtype32(from->fieldid);
     auto diff = reinterpret_cast<char *>(to) - reinterpret_cast<char *>(from);
     memmove(from, to, (data_ + len_) - reinterpret_cast<char *>(to));
-    shift(Fldtype32(from->fieldid), -diff);
+    shift(type, -diff);
   }
 
   int offset_for(int type) {
-- 
2.43.0


From d8fee0333f88aea1485f69b13f205f94a3bf00c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 03/89] fix: Fjoin32 looped forever when more than one
 occurrence had to go

The occurrence counter advanced past a deleted occurrence.
---
 src/fbfr32.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 3de1347..8c1393c 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -590,6 +590,8 @@ struct Fbfr32 {
       if (r == -1) {
         return -1;
       } else if (r == 1) {
+        // what follows takes the place (and occurrence) of the deleted field
+        oc--;
         end = reinterpret_cast<fieldhead *>(data_ + len_);
       } else {
         it = next_(it);
-- 
2.43.0


From a964bf75e3a3164232937efe6ec201ec9e4fde6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 04/89] fix: default value of a nested FML32 field was read
 past its end

An empty FML32 buffer takes 40 bytes.
---
 src/fbfr32.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 8c1393c..b1ca674 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -35,10 +35,8 @@ static unsigned int crc32b(unsigned char *data, size_t len) {
   return ~crc;
 }
 
-static char zeros[] {
-  0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0,
-  0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0, 0x0
-};
+// Default value of every type, the largest is an empty FML32 buffer
+static char zeros[64] __attribute__((aligned(8))) = {0x0};
 
 struct fieldhead {
   FLDID32 fieldid;
-- 
2.43.0


From edd1c4880bf65b7a6af47cc9bf5439ecf03f15b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 05/89] fix: failed Fchg32 left default values behind

Changing an occurrence past the last one adds default values first; when there
was no room for all of them some stayed in the buffer after FNOSPACE.
---
 src/fbfr32.h | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index b1ca674..5ac792e 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -167,26 +167,24 @@ struct Fbfr32 {
       oc = count;
     }
 
-    // Fill missing occurances with default values
-    for (FLDOCC32 o = count; o < oc; o++) {
-      chg(fieldid, o, zeros, 0);
-    }
-
     auto type = Fldtype32(fieldid);
     auto klass = fldclass(fieldid);
 
     // Fill in default values
     flen = value_len(type, value, flen);
 
-    ssize_t need;
-    if (klass == FIELD8) {
-      need = sizeof(field8b);
-    } else if (klass == FIELD16) {
-      need = sizeof(field16b);
-    } else if (klass == FIELDN) {
-      need = sizeof(fieldn) + fieldn::size(flen);
-    } else {
-      __builtin_unreachable();  // LCOV_EXCL_LINE
+    ssize_t need = field_size(klass, flen);
+
+    if (oc > static_cast<FLDOCC32>(count)) {
+      // Fill missing occurances with default values, all of them or none
+      ssize_t filler = field_size(klass, value_len(type, zeros, 0));
+      if (len_ + (oc - static_cast<ssize_t>(count)) * filler + need > size_) {
+        FERROR(FNOSPACE, "");
+        return -1;
+      }
+      for (FLDOCC32 o = count; o < oc; o++) {
+        chg(fieldid, o, zeros, 0);
+      }
     }
 
     auto field = where(fieldid, oc);
@@ -893,6 +891,17 @@ struct Fbfr32 {
 
   enum storage_class { FIELD8, FIELD16, FIELDN };
 
+  static ssize_t field_size(storage_class klass, FLDLEN32 flen) {
+    if (klass == FIELD8) {
+      return sizeof(field8b);
+    } else if (klass == FIELD16) {
+      return sizeof(field16b);
+    } else if (klass == FIELDN) {
+      return sizeof(fieldn) + fieldn::size(flen);
+    }
+    __builtin_unreachable();  // LCOV_EXCL_LINE
+  }
+
   static constexpr storage_class fldclass(FLDID32 fieldid) {
     switch (Fbfr32fields::Fldtype32(fieldid)) {
       case FLD_SHORT:
-- 
2.43.0


From e9d731cf3519920fa0826a91ff1c9e3f1ff32fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:45 +0000
Subject: [PATCH 06/89] fix: Fnext32 skipped a field after a missing one and
 ignored value without len

When the current occurrence is not in the buffer (deleted meanwhile) the next
field was skipped or the iteration ended early, and the value was not returned
when len was NULL.
---
 src/fbfr32.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 5ac792e..d5b38d3 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -367,16 +367,19 @@ struct Fbfr32 {
     }
 
     auto it = reinterpret_cast<fieldhead *>(data_);
-    auto end = reinterpret_cast<fieldhead *>(data_ + len_);
+    auto last = reinterpret_cast<fieldhead *>(data_ + len_);
 
     if (*fieldid != BADFLDID) {
       it = where(*fieldid, *oc);
-      if (it != nullptr && it < end) {
+      if (it == nullptr) {
+        // not present and nothing of the same type after it
+        it = end(Fldtype32(*fieldid));
+      } else if (it->fieldid == *fieldid) {
         it = next_(it);
       }
     }
 
-    if (it != nullptr && it < end) {
+    if (it != nullptr && it < last) {
       if (it->fieldid == *fieldid) {
         (*oc)++;
       } else {
@@ -391,11 +394,12 @@ struct Fbfr32 {
           *len = flen;
           FERROR(FNOSPACE, "");
           return -1;
-        } else if (value != nullptr) {
-          std::copy_n(fvalue(it), flen, value);
         }
         *len = flen;
       }
+      if (value != nullptr) {
+        std::copy_n(fvalue(it), flength(it), value);
+      }
       return 1;
     }
     return 0;
-- 
2.43.0


From 3a8be22819f688a376fd8123a1ac167101b00794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 07/89] fix: tprealloc did not record the new size of the
 buffer

tpimport() and replies trusted the size at allocation: a shrunk buffer was
overrun, a grown fielded buffer ended up with less room than it used.
---
 src/mem.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mem.cpp b/src/mem.cpp
index a7bd82c..67fa4f8 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -109,6 +109,7 @@ char *tprealloc(char *ptr, long size) {
 
   size = (size >= tptype->default_size) ? size : tptype->default_size;
   mem = (tpmem *)realloc(mem, sizeof(tpmem) + size);
+  mem->size = size;
   if (tptype->reinit != nullptr) {
     tptype->reinit(mem->data, size);
   }
-- 
2.43.0


From 417541e48c852e74741de151ceba0d918797d879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 08/89] fix: tptypes did not return the size of the buffer

---
 src/mem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mem.cpp b/src/mem.cpp
index 67fa4f8..47af37a 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -159,7 +159,7 @@ long tptypes(char *ptr, char *type, char *subtype) {
   }
 
   fux::atmi::reset_tperrno();
-  return 0;
+  return mem->size;
 }
 
 int tpimport(char *istr, long ilen, char **obuf, long *olen, long flags) {
-- 
2.43.0


From ea661bfb095ff1b812fef36497317bdc8fdce9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 09/89] fix: tpalloc and tprealloc crashed when memory was not
 available

---
 src/mem.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mem.cpp b/src/mem.cpp
index 47af37a..b3db4b1 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -73,6 +73,10 @@ char *tpalloc(char *type, char *subtype, long size) {
 
   size = size >= tptype->default_size ? size : tptype->default_size;
   auto mem = (tpmem *)malloc(sizeof(tpmem) + size);
+  if (mem == nullptr) {
+    TPERROR(TPEOS, "Failed to allocate %ld bytes", size);
+    return nullptr;
+  }
 #pragma GCC diagnostic push
 #pragma GCC diagnostic ignored "-Wstringop-truncation"
   strncpy(mem->type, type, sizeof(mem->type));
@@ -109,6 +113,10 @@ char *tprealloc(char *ptr, long size) {
 
   size = (size >= tptype->default_size) ? size : tptype->default_size;
   mem = (tpmem *)realloc(mem, sizeof(tpmem) + size);
+  if (mem == nullptr) {
+    TPERROR(TPEOS, "Failed to allocate %ld bytes", size);
+    return nullptr;
+  }
   mem->size = size;
   if (tptype->reinit != nullptr) {
     tptype->reinit(mem->data, size);
-- 
2.43.0


From d9d0d790b0cde039165bdfe61c5630ef07e073aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 10/89] fix: tpimport ruined the buffer on invalid input and
 returned a wrong length

Input without a complete header or of an unknown type was copied over the
output buffer before it was refused, and *olen was the length of the input
instead of the length of the imported data.
---
 src/mem.cpp | 45 +++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/mem.cpp b/src/mem.cpp
index b3db4b1..26dc99b 100644
--- a/src/mem.cpp
+++ b/src/mem.cpp
@@ -5,6 +5,7 @@
 #include <algorithm>
 #include <cstddef>
 #include <cstring>
+#include <vector>
 
 #include "misc.h"
 
@@ -184,43 +185,47 @@ int tpimport(char *istr, long ilen, char **obuf, long *olen, long flags) {
     flags |= TPEX_STRING;
   }
 
-  long needed = sizeof(tpmem);
+  std::vector<char> decoded;
   if (flags & TPEX_STRING) {
     ilen = strlen(istr);
     if (ilen % 4) {
       TPERROR(TPEPROTO, "Invalid base64 string");
       return -1;
     }
-    needed += ilen / 4 * 3;
-  } else {
-    needed += ilen;
-  }
-
-  auto omem = memptr(*obuf);
-  if (needed > omem->size) {
-    *obuf = tprealloc(*obuf, needed);
-    omem = memptr(*obuf);
+    decoded.resize(ilen / 4 * 3);
+    ilen = base64decode(istr, ilen, decoded.data(), decoded.size());
+    istr = decoded.data();
   }
 
-  if (flags & TPEX_STRING) {
-    (void)base64decode(istr, ilen,
-                       reinterpret_cast<char *>(omem) + offsetof(tpmem, type),
-                       ilen);
-  } else {
-    std::copy_n(istr, ilen,
-                reinterpret_cast<char *>(omem) + offsetof(tpmem, type));
+  // Check what will be imported before touching the output buffer
+  const long header = offsetof(tpmem, data) - offsetof(tpmem, type);
+  if (ilen < header) {
+    TPERROR(TPEPROTO, "Incomplete buffer");
+    return -1;
   }
-
-  const auto tptype = typeptr(omem->type, omem->subtype);
+  const auto tptype = typeptr(istr, istr + sizeof(tpmem::type));
   if (tptype == nullptr) {
     return -1;
   }
+
+  auto omem = memptr(*obuf);
+  if (ilen - header > omem->size) {
+    auto nbuf = tprealloc(*obuf, ilen - header);
+    if (nbuf == nullptr) {
+      return -1;
+    }
+    *obuf = nbuf;
+    omem = memptr(*obuf);
+  }
+
+  std::copy_n(istr, ilen,
+              reinterpret_cast<char *>(omem) + offsetof(tpmem, type));
   if (tptype->reinit != nullptr) {
     tptype->reinit(omem->data, omem->size);
   }
 
   if (olen != nullptr) {
-    *olen = ilen;
+    *olen = ilen - header;
   }
   fux::atmi::reset_tperrno();
   return 0;
-- 
2.43.0


From a94006dd11a9ebc3443bdea076931f12f9637cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 11/89] fix: Fread32 of truncated data left an inconsistent
 buffer

---
 src/fbfr32.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index d5b38d3..3b39b35 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -149,6 +149,8 @@ struct Fbfr32 {
     len_ = len;
     auto n = used() - sizeof(size_) - sizeof(len_);
     if (fread(reinterpret_cast<char *>(&len_) + sizeof(len_), 1, n, iop) != n) {
+      // Neither the old nor the new contents: leave an empty buffer
+      init(size());
       FERROR(FEUNIX, "");
       return -1;
     }
-- 
2.43.0


From 0acd3208f2a5c383d39ba9834a781ccedc1dae2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 12/89] fix: printed bytes above 127 and backslashes did not
 read back

---
 src/fbfr32.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fbfr32.h b/src/fbfr32.h
index 3b39b35..3c2dbdd 100644
--- a/src/fbfr32.h
+++ b/src/fbfr32.h
@@ -654,10 +654,11 @@ struct Fbfr32 {
  private:
   void print_bytes(FILE *iop, const char *s, int len) {
     for (int i = 0; i < len; i++, s++) {
-      if (isprint(*s)) {
-        fputc(*s, iop);
+      auto c = static_cast<unsigned char>(*s);
+      if (isprint(c) && c != '\\') {
+        fputc(c, iop);
       } else {
-        fprintf(iop, "\\%02x", *s);
+        fprintf(iop, "\\%02x", c);
       }
     }
   }
-- 
2.43.0


From 0c35ce81a7a424d2b6f62eb3928ba769f5d906a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 13/89] fix: Fextread32 lost bytes of CARRAY fields and
 accepted unknown fields

---
 src/extreader.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/extreader.h b/src/extreader.h
index 1403e88..b4d39c8 100644
--- a/src/extreader.h
+++ b/src/extreader.h
@@ -70,9 +70,16 @@ class extreader : public basic_parser {
 
     auto fieldid = Fldid32(const_cast<char *>(fname.c_str()));
     if (fieldid == BADFLDID) {
+      throw basic_parser_error("unknown field name", row_, col_,
+                               "'" + fname + "' is not in field tables");
     }
 
-    if (Fldtype32(fieldid) == FLD_FML32) {
+    if (Fldtype32(fieldid) == FLD_CARRAY) {
+      fml.mutate([&](FBFR32 *fbfr) {
+        return Fadd32(fbfr, fieldid, const_cast<char *>(fvalue.data()),
+                      fvalue.size());
+      });
+    } else if (Fldtype32(fieldid) == FLD_FML32) {
       auto nested = parse_buf(indent + 1);
       fml.mutate([&](FBFR32 *fbfr) {
         return Fadd32(fbfr, fieldid, reinterpret_cast<char *>(nested.get()), 0);
-- 
2.43.0


From 36ca75870c9bbf699effb562abbc7855ef8aaeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:29 +0000
Subject: [PATCH 14/89] fix: Fextread32 swallowed the first character of the
 next buffer

---
 src/basic_parser.h | 6 ++++++
 src/extreader.h    | 1 +
 src/fml32.cpp      | 1 +
 3 files changed, 8 insertions(+)

diff --git a/src/basic_parser.h b/src/basic_parser.h
index efb1a90..eaeaa8b 100644
--- a/src/basic_parser.h
+++ b/src/basic_parser.h
@@ -35,6 +35,12 @@ class basic_parser {
 
  protected:
   bool eof() { return sym_ == EOF; }
+  // Returns the character read ahead
+  void unread() {
+    if (fin_ != nullptr && sym_ != EOF) {
+      ungetc(sym_, fin_);
+    }
+  }
   bool accept(std::function<bool(int)> f, std::string *s = nullptr) {
     if (sym_ == EOF || !f(sym_)) {
       return false;
diff --git a/src/extreader.h b/src/extreader.h
index b4d39c8..ff4f7a0 100644
--- a/src/extreader.h
+++ b/src/extreader.h
@@ -22,6 +22,7 @@ class extreader : public basic_parser {
     return true;
   }
   FBFR32 *get() { return buf.get(); }
+  using basic_parser::unread;
 
  private:
   fux::fml32ptr buf;
diff --git a/src/fml32.cpp b/src/fml32.cpp
index d50ef97..1ca0a52 100644
--- a/src/fml32.cpp
+++ b/src/fml32.cpp
@@ -572,6 +572,7 @@ int Fextread32(FBFR32 *fbfr, FILE *iop) {
         if (!p.parse()) {
           return -1;
         }
+        p.unread();
         return fbfr->cpy(p.get());
       },
       -1);
-- 
2.43.0


From d22289622ce09162d3ad4367ceed8f5a8ddb75cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 15/89] fix: compiling a long string constant wrote past the
 end of the tree

---
 src/expr.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 28997e7..befdbf6 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -76,7 +76,9 @@ class ast_tree {
 
   void insert(uint32_t where, const char *data, uint32_t len) {
     if (size_ - len_ < len) {
-      size_ *= 2;
+      while (size_ - len_ < len) {
+        size_ *= 2;
+      }
       tree_ = (char *)realloc(tree_, size_);
     }
     memmove(tree_ + where + len, tree_ + where, len_ - where);
-- 
2.43.0


From 01f48704959b70d907db499db96dafaa936ae3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 16/89] fix: Fboolco32 accepted anything after the end of an
 expression

---
 src/expr.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/expr.cpp b/src/expr.cpp
index befdbf6..f2a7f77 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -134,6 +134,11 @@ class expression_parser : public basic_parser {
 
   char *parse() {
     if (parse_expr()) {
+      if (!eof()) {
+        throw basic_parser_error(
+            "Unexpected input after expression", row_, col_,
+            "found '" + std::string(1, sym_) + "'");
+      }
       return tree_.take_tree();
     }
     return nullptr;
-- 
2.43.0


From dfd3de85696489ade3bfe40045bab524f8c11862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 17/89] fix: string constant with a NUL character corrupted the
 expression tree

---
 src/expr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index f2a7f77..cffc689 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -304,7 +304,7 @@ class expression_parser : public basic_parser {
                          sizeof(value));
       }
     } else if (string(&tok)) {
-      e = tree_.append(const_string, tok.c_str(), tok.size() + 1);
+      e = tree_.append(const_string, tok.c_str(), strlen(tok.c_str()) + 1);
     } else if (accept('(')) {
       e = parse_expr();
       if (!accept(')')) {
-- 
2.43.0


From 04eabac6e75a5ccb737babbf536af201ca9c20be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:32 +0000
Subject: [PATCH 18/89] fix: boolean expressions truncated floating point
 values

---
 src/expr.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index cffc689..6129837 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -295,7 +295,7 @@ class expression_parser : public basic_parser {
       }
     } else if (unsigned_number(&tok)) {
       if (tok.find('.') != std::string::npos) {
-        double value = std::stof(tok);
+        double value = std::stod(tok);
         e = tree_.append(const_double, reinterpret_cast<char *>(&value),
                          sizeof(value));
       } else {
@@ -487,6 +487,10 @@ class eval_value {
     __builtin_unreachable();  // LCOV_EXCL_LINE
   }
 
+  bool to_bool() const {
+    return type_ == eval_type::is_double ? d != 0 : to_long() != 0;
+  }
+
   const char *to_string(char *buf) const {
     if (type_ == eval_type::is_long) {
       sprintf(buf, "%ld", l);
@@ -622,9 +626,12 @@ eval_value boolev(FBFR32 *fbfr, char *tree) {
     auto val = boolev(fbfr, tree);
     tree = val.tree;
     if (op == unary_minus) {
+      if (val.is_double()) {
+        return eval_value(tree, -val.to_double());
+      }
       return eval_value(tree, -val.to_long());
     } else if (op == logical_negation) {
-      return eval_value(tree, !val.to_long());
+      return eval_value(tree, !val.to_bool());
     } else if (op == bitwise_negation) {
       return eval_value(tree, ~val.to_long());
     }
@@ -695,7 +702,7 @@ int Fboolev32(FBFR32 *fbfr, char *tree) {
     return -1;
   }
   auto v = boolev(fbfr, tree + 4);
-  return v.to_long() != 0;
+  return v.to_bool();
 }
 
 double Ffloatev32(FBFR32 *fbfr, char *tree) {
-- 
2.43.0


From db0bbafad3acbdaf32858d3b6ec5c2aa2b7c2747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 19/89] fix: Fboolpr32 printed string constants that did not
 compile again

---
 src/expr.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index 6129837..fdb2d29 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -402,7 +402,16 @@ static char *boolpr(char *tree, FILE *iop) {
     fprintf(iop, "( %f ) ", value);
   } else if (op == const_string) {
     auto len = strlen(tree);
-    fprintf(iop, "( '%s' ) ", tree);
+    fprintf(iop, "( '");
+    for (auto s = tree; s != tree + len; s++) {
+      auto c = static_cast<unsigned char>(*s);
+      if (isprint(c) && c != '\'' && c != '\\') {
+        fputc(c, iop);
+      } else {
+        fprintf(iop, "\\%02x", c);
+      }
+    }
+    fprintf(iop, "' ) ");
     tree += len + 1;
   } else if (op == field) {
     FLDID32 fieldid;
-- 
2.43.0


From 3b2d701baf97986a53b0003e274575e6dab08356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 20/89] fix: boolean expressions compared a string field with
 itself and crashed matching numbers

---
 src/expr.cpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index fdb2d29..d1470a7 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -454,7 +454,8 @@ class eval_value {
   char *tree;
   long l;
   double d;
-  const char *s;
+  // own copy: conversions of field values share a buffer
+  std::string s;
 
   eval_value(char *tree, int value)
       : tree(tree), l(value), type_(eval_type::is_long) {}
@@ -481,7 +482,7 @@ class eval_value {
     } else if (type_ == eval_type::is_double) {
       return d;
     } else if (type_ == eval_type::is_string) {
-      return atof(s);
+      return atof(s.c_str());
     }
     __builtin_unreachable();  // LCOV_EXCL_LINE
   }
@@ -491,7 +492,7 @@ class eval_value {
     } else if (type_ == eval_type::is_double) {
       return d;
     } else if (type_ == eval_type::is_string) {
-      return atol(s);
+      return atol(s.c_str());
     }
     __builtin_unreachable();  // LCOV_EXCL_LINE
   }
@@ -500,13 +501,11 @@ class eval_value {
     return type_ == eval_type::is_double ? d != 0 : to_long() != 0;
   }
 
-  const char *to_string(char *buf) const {
+  std::string to_string() const {
     if (type_ == eval_type::is_long) {
-      sprintf(buf, "%ld", l);
-      return buf;
+      return std::to_string(l);
     } else if (type_ == eval_type::is_double) {
-      sprintf(buf, "%f", d);
-      return buf;
+      return std::to_string(d);
     }
     return s;
   }
@@ -570,8 +569,8 @@ static eval_value boolev_cmp(char *tree, char op, eval_value lhs,
   auto lexical_compare = lhs.is_const_string() || rhs.is_const_string() ||
                          (lhs.is_string() && rhs.is_string());
   if (lexical_compare && op != matches && op != not_matches) {
-    char lbuf[64], rbuf[64];
-    lhs = eval_value(nullptr, strcmp(lhs.to_string(lbuf), rhs.to_string(rbuf)));
+    lhs = eval_value(nullptr, strcmp(lhs.to_string().c_str(),
+                                     rhs.to_string().c_str()));
     rhs = eval_value(nullptr, 0);
   }
 
@@ -589,17 +588,17 @@ static eval_value boolev_cmp(char *tree, char op, eval_value lhs,
     return apply<std::not_equal_to>(tree, lhs, rhs);
   } else if (op == matches) {
     regex_t regex;
-    if (regcomp(&regex, rhs.s, 0) == 0) {
+    if (regcomp(&regex, rhs.s.c_str(), 0) == 0) {
       regmatch_t m[1];
-      auto r = regexec(&regex, lhs.s, 1, m, 0);
+      auto r = regexec(&regex, lhs.to_string().c_str(), 1, m, 0);
       regfree(&regex);
       return eval_value(tree, r == 0 && m[0].rm_so == 0);
     }
   } else if (op == not_matches) {
     regex_t regex;
-    if (regcomp(&regex, rhs.s, 0) == 0) {
+    if (regcomp(&regex, rhs.s.c_str(), 0) == 0) {
       regmatch_t m[1];
-      auto r = regexec(&regex, lhs.s, 1, m, 0);
+      auto r = regexec(&regex, lhs.to_string().c_str(), 1, m, 0);
       regfree(&regex);
       return eval_value(tree, r == REG_NOMATCH || m[0].rm_so != 0);
     }
-- 
2.43.0


From 815ae347316a661a2b4e5d31cc27476e93abf582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:53 +0000
Subject: [PATCH 21/89] fix: errors and division by zero in boolean expressions
 terminated the process

---
 src/expr.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/expr.cpp b/src/expr.cpp
index d1470a7..7f33e84 100644
--- a/src/expr.cpp
+++ b/src/expr.cpp
@@ -6,6 +6,7 @@
 
 #include <algorithm>
 #include <functional>
+#include <limits>
 #include <map>
 #include <memory>
 #include <sstream>
@@ -606,6 +607,12 @@ static eval_value boolev_cmp(char *tree, char op, eval_value lhs,
   throw std::runtime_error("unsupported comparison operator");
 }
 
+static void check_divisor(long lhs, long rhs) {
+  if (rhs == 0 || (rhs == -1 && lhs == std::numeric_limits<long>::min())) {
+    throw std::runtime_error("division by zero or overflow");
+  }
+}
+
 eval_value boolev(FBFR32 *fbfr, char *tree) {
   char op = *tree++;
   if (op == const_long) {
@@ -652,9 +659,13 @@ eval_value boolev(FBFR32 *fbfr, char *tree) {
     if (op == multiplication) {
       return apply<std::multiplies>(tree, lhs, rhs);
     } else if (op == division) {
+      if (!lhs.is_double() && !rhs.is_double()) {
+        check_divisor(lhs.to_long(), rhs.to_long());
+      }
       return apply<std::divides>(tree, lhs, rhs);
     } else if (op == modulus) {
       // Fail on double?
+      check_divisor(lhs.to_long(), rhs.to_long());
       return eval_value(tree, lhs.to_long() % rhs.to_long());
     } else if (op == addition) {
       return apply<std::plus>(tree, lhs, rhs);
@@ -709,8 +720,12 @@ int Fboolev32(FBFR32 *fbfr, char *tree) {
     FERROR(FNOTFLD, "tree is NULL");
     return -1;
   }
-  auto v = boolev(fbfr, tree + 4);
-  return v.to_bool();
+  return fux::fml32::exception_boundary(
+      [&] {
+        auto v = boolev(fbfr, tree + 4);
+        return static_cast<int>(v.to_bool());
+      },
+      -1);
 }
 
 double Ffloatev32(FBFR32 *fbfr, char *tree) {
@@ -722,6 +737,10 @@ double Ffloatev32(FBFR32 *fbfr, char *tree) {
     FERROR(FNOTFLD, "tree is NULL");
     return -1;
   }
-  auto v = boolev(fbfr, tree + 4);
-  return v.to_double();
+  return fux::fml32::exception_boundary(
+      [&] {
+        auto v = boolev(fbfr, tree + 4);
+        return v.to_double();
+      },
+      -1.0);
 }
-- 
2.43.0


From 08fcbc39e3d67f214e39e07b113668a3f3ce1655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 22/89] fix: category was not sent for messages stored in a
 file

---
 src/ipc.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index 13916de..68e1552 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -193,6 +193,7 @@ bool qsend(int msqid, msg &data, long timeout, enum flags flags) {
     msgfile fmsg;
     fmsg.mtype = data->mtype;
     fmsg.ttype = fux::ipc::file;
+    fmsg.cat = data->cat;
     std::copy_n(tmpname, sizeof(tmpname), fmsg.filename);
     auto len = sizeof(msgbase) + sizeof(tmpname);
 
-- 
2.43.0


From 7c4a9376a891c9721ff58731b1059c1ec00f8523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 23/89] fix: message file was left behind when the queue could
 not be used

---
 src/ipc.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index 68e1552..75d64ce 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -197,9 +197,14 @@ bool qsend(int msqid, msg &data, long timeout, enum flags flags) {
     std::copy_n(tmpname, sizeof(tmpname), fmsg.filename);
     auto len = sizeof(msgbase) + sizeof(tmpname);
 
-    if (!msgsnd_timed(msqid, &fmsg, len, flags, timeout)) {
+    try {
+      if (!msgsnd_timed(msqid, &fmsg, len, flags, timeout)) {
+        unlink(tmpname);
+        return false;
+      }
+    } catch (...) {
       unlink(tmpname);
-      return false;
+      throw;
     }
     return true;
   } else {
-- 
2.43.0


From c4a259860474b6aee0f327c2b9dc8be020bc56fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:16 +0000
Subject: [PATCH 24/89] fix: files of undelivered messages were left behind
 when the queue was deleted

---
 src/ipc.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index 75d64ce..3fd4a53 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -237,7 +237,19 @@ void qrecv(int msqid, msg &data, long msgtype, int flags) {
   }
 }
 
-void qdelete(int msqid) { msgctl(msqid, IPC_RMID, NULL); }
+void qdelete(int msqid) {
+  // Messages stored in files take their files with them
+  msgfile fmsg;
+  ssize_t n;
+  while ((n = msgrcv(msqid, &fmsg, sizeof(fmsg) - sizeof(long), 0,
+                     IPC_NOWAIT | MSG_NOERROR)) != -1) {
+    if (n > ssize_t(sizeof(msgbase) - sizeof(long)) &&
+        fmsg.ttype == fux::ipc::file) {
+      unlink(fmsg.filename);
+    }
+  }
+  msgctl(msqid, IPC_RMID, NULL);
+}
 
 void msg::set_data(char *data, long len) {
   if (data == nullptr) {
-- 
2.43.0


From 4ad67df77fa1afdee750c6f1b53afa6a641d54af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:00 +0000
Subject: [PATCH 25/89] fix: replies to cancelled calls were delivered

---
 src/client.cpp |  3 +++
 src/resp.h     | 10 ++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 466af02..f58411d 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -166,6 +166,9 @@ class client {
           cds.buffer(std::move(res));
           continue;
         }
+      } else if (!cds.outstanding(res->cd)) {
+        // Reply to a cancelled call
+        continue;
       }
 
       res.get_data(data);
diff --git a/src/resp.h b/src/resp.h
index baa6759..372c96d 100644
--- a/src/resp.h
+++ b/src/resp.h
@@ -53,6 +53,8 @@ class responses {
     return 0;
   }
 
+  bool outstanding(int cd) const { return calls_.find(cd) != calls_.end(); }
+
   int any_buffered() {
     for (auto it : calls_) {
       if (it.second.status == flags::buffered) {
@@ -63,8 +65,12 @@ class responses {
   }
 
   void buffer(fux::ipc::msg &&res) {
-    calls_[res->cd].res = res;
-    calls_[res->cd].status = flags::buffered;
+    // Replies to cancelled calls are dropped
+    auto it = calls_.find(res->cd);
+    if (it != calls_.end()) {
+      it->second.res = res;
+      it->second.status = flags::buffered;
+    }
   }
 
   bool is_buffered(int cd) { return calls_[cd].status == flags::buffered; }
-- 
2.43.0


From 7192ba901c5f17241302c3fc3010e01aa04241b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:00 +0000
Subject: [PATCH 26/89] fix: tpgetrply without a place for descriptor or data
 crashed

---
 src/client.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index f58411d..25a443a 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -113,8 +113,9 @@ class client {
   }
 
   int tpgetrply(int *cd, char **data, long *len, long flags) {
-    if (data == nullptr) {
-      TPERROR(TPEINVAL, "data is null");
+    if (cd == nullptr || data == nullptr) {
+      TPERROR(TPEINVAL, "cd or data is null");
+      return -1;
     }
     if (tptypes(*data, nullptr, nullptr) == -1) {
       return -1;
-- 
2.43.0


From c948bbba290baa2d72383e56c1dc73b0a3f59f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:00 +0000
Subject: [PATCH 27/89] fix: call descriptor was lost when the request queue
 was gone

---
 src/client.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 25a443a..70667a2 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -95,9 +95,16 @@ class client {
       rq->gttid = fux::bad_gttid;
     }
 
-    if (fux::ipc::qsend(msqid, rq, next_blocktime(), to_flags(flags))) {
-      fux::atmi::reset_tperrno();
-      return rq->cd;
+    try {
+      if (fux::ipc::qsend(msqid, rq, next_blocktime(), to_flags(flags))) {
+        fux::atmi::reset_tperrno();
+        return rq->cd;
+      }
+    } catch (...) {
+      if (rq->cd != 0) {
+        cds.release(rq->cd);
+      }
+      throw;
     }
 
     if (flags & TPNOBLOCK) {
-- 
2.43.0


From 23e39fa18a0a504a9523501495a24061b37e73a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:49 +0000
Subject: [PATCH 28/89] fix: tpcall lost its call descriptor when it timed out

---
 src/client.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 70667a2..cc200a2 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -196,6 +196,19 @@ class client {
     }
   }
 
+  int tpcall(const char *svc, char *idata, long ilen, char **odata, long *olen,
+             long flags) {
+    int cd = tpacall_group(-1, svc, idata, ilen, flags);
+    if (cd == -1) {
+      return -1;
+    }
+    int rc = ::tpgetrply(&cd, odata, olen, flags);
+    if (rc == -1 && cds.outstanding(cd)) {
+      cds.release(cd);
+    }
+    return rc;
+  }
+
   int tpcancel(int cd) {
     if (cds.release(cd) == -1) {
       return -1;
@@ -378,11 +391,7 @@ int tpcall(char *svc, char *idata, long ilen, char **odata, long *olen,
   return fux::atmi::exception_boundary(
       [&] {
         fux::suspend_guard g(!(flags & TPNOTRAN));
-        int cd = getclient().tpacall_group(-1, svc, idata, ilen, flags);
-        if (cd == -1) {
-          return -1;
-        }
-        return tpgetrply(&cd, odata, olen, flags);
+        return getclient().tpcall(svc, idata, ilen, odata, olen, flags);
       },
       -1);
 }
-- 
2.43.0


From dc909bd97b0b6b7a2e13b00ec1708a5a8b48cfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:49 +0000
Subject: [PATCH 29/89] fix: waiting for a reply ended before its limit or not
 at all

---
 src/client.cpp | 46 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index cc200a2..276a24e 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -96,7 +96,9 @@ class client {
     }
 
     try {
-      if (fux::ipc::qsend(msqid, rq, next_blocktime(), to_flags(flags))) {
+      // Calls that never wait leave the limit for the next call
+      auto limit = (flags & (TPNOBLOCK | TPNOTIME)) ? 0 : next_blocktime();
+      if (fux::ipc::qsend(msqid, rq, limit, to_flags(flags))) {
         fux::atmi::reset_tperrno();
         return rq->cd;
       }
@@ -127,6 +129,16 @@ class client {
     if (tptypes(*data, nullptr, nullptr) == -1) {
       return -1;
     }
+    if (!(flags & TPGETANY) && cds.check(*cd) == -1) {
+      return -1;
+    }
+
+    // One limit for the whole call no matter how many messages are received
+    auto deadline = INVALID_TIME;
+    if (!(flags & (TPNOBLOCK | TPNOTIME))) {
+      deadline = std::chrono::steady_clock::now() +
+                 std::chrono::milliseconds(next_blocktime());
+    }
 
     while (true) {
       fux::ipc::msg res;
@@ -140,9 +152,6 @@ class client {
           has_res = true;
         }
       } else {
-        if (cds.check(*cd) == -1) {
-          return -1;
-        }
         if (cds.is_buffered(*cd)) {
           res = std::move(cds.buffered(*cd));
           has_res = true;
@@ -150,15 +159,27 @@ class client {
       }
 
       if (!has_res) {
-        mibcon_.accessers().at(client_).rpid_timeout =
-            std::chrono::steady_clock::now() +
-            std::chrono::milliseconds(next_blocktime());
-        fux::ipc::qrecv(rpid, res, 0, 0);
-        mibcon_.accessers().at(client_).rpid_timeout = INVALID_TIME;
+        auto &rpid_timeout = mibcon_.accessers().at(client_).rpid_timeout;
+        try {
+          rpid_timeout = deadline;
+          fux::ipc::qrecv(rpid, res, 0, (flags & TPNOBLOCK) ? IPC_NOWAIT : 0);
+          rpid_timeout = INVALID_TIME;
+        } catch (const std::system_error &e) {
+          rpid_timeout = INVALID_TIME;
+          if (e.code().value() == ENOMSG) {
+            TPERROR(TPEBLOCK, "No reply available");
+            return -1;
+          }
+          throw;
+        }
         userlog("%s received on %0x", __func__, rpid);
       }
 
       if (res->cat == fux::ipc::unblock) {
+        if (std::chrono::steady_clock::now() < deadline) {
+          // Sent for one of the previous calls
+          continue;
+        }
         if (flags & TPGETANY) {
           *cd = 0;
         } else {
@@ -198,11 +219,18 @@ class client {
 
   int tpcall(const char *svc, char *idata, long ilen, char **odata, long *olen,
              long flags) {
+    auto limit_next = blocktime_next;
     int cd = tpacall_group(-1, svc, idata, ilen, flags);
     if (cd == -1) {
       return -1;
     }
+    // TPNOBLOCK is for sending only, the limit is for both
+    flags &= ~(TPNOBLOCK | TPGETANY);
+    blocktime_next = limit_next;
     int rc = ::tpgetrply(&cd, odata, olen, flags);
+    if (!(flags & TPNOTIME)) {
+      blocktime_next = 0;
+    }
     if (rc == -1 && cds.outstanding(cd)) {
       cds.release(cd);
     }
-- 
2.43.0


From 2697cb5f59f167594553db838f40c1eec2c24dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:49 +0000
Subject: [PATCH 30/89] fix: negative and large blocktimes were accepted but
 not kept

---
 src/client.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/client.cpp b/src/client.cpp
index 276a24e..4899f8f 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -251,8 +251,12 @@ class client {
     long what = flags - units;
     long timeout;
 
+    if (blktime < 0) {
+      TPERROR(TPEINVAL, "Negative blocktime");
+      return -1;
+    }
     if (units == TPBLK_SECOND) {
-      timeout = blktime * 1000;
+      timeout = blktime * 1000L;
     } else if (units == TPBLK_MILLISECOND) {
       timeout = blktime;
     } else {
-- 
2.43.0


From a37fd608ba6f70b8621425bc3719b1a3b53196fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:49 +0000
Subject: [PATCH 31/89] fix: flags of an earlier request were sent along

---
 src/client.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client.cpp b/src/client.cpp
index 4899f8f..cc0d34a 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -88,7 +88,7 @@ class client {
       }
     }
     if (!(flags & TPNOTRAN) && fux::tx::transactional()) {
-      rq->flags |= TPTRAN;
+      rq->flags = TPTRAN;
       rq->gttid = fux::tx::gttid();
     } else {
       rq->flags = 0;
-- 
2.43.0


From 671cfd43becb3929175b6a29bb88f33d56be3f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:11 +0000
Subject: [PATCH 32/89] fix: length of received data included internal headers,
 missing data was read from old messages

---
 src/client.cpp |  7 ++-----
 src/ipc.cpp    | 11 +++++++++--
 src/ipc.h      |  2 +-
 src/server.cpp |  6 +++---
 4 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index cc0d34a..007fa9b 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -200,13 +200,10 @@ class client {
         continue;
       }
 
-      res.get_data(data);
-      tpurcode = res->rcode;
       *cd = res->cd;
       cds.release(*cd);
-      if (len != nullptr) {
-        *len = res.size_data();
-      }
+      res.get_data(data, len);
+      tpurcode = res->rcode;
       if (res->rval == TPMINVAL) {
         fux::atmi::reset_tperrno();
         return 0;
diff --git a/src/ipc.cpp b/src/ipc.cpp
index 3fd4a53..93f6bb7 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -263,8 +263,15 @@ void msg::set_data(char *data, long len) {
   }
 }
 
-void msg::get_data(char **data) {
-  if (tpimport((*this)->data, size_data(), data, 0, 0) == -1) {
+void msg::get_data(char **data, long *len) {
+  if (size_data() == 0) {
+    // Sent without data
+    if (len != nullptr) {
+      *len = 0;
+    }
+    return;
+  }
+  if (tpimport((*this)->data, size_data(), data, len, 0) == -1) {
     throw std::runtime_error("tpimport failed");
   }
 }
diff --git a/src/ipc.h b/src/ipc.h
index 809518f..eaf2945 100644
--- a/src/ipc.h
+++ b/src/ipc.h
@@ -88,7 +88,7 @@ class msg {
   size_t size_data() const { return bytes_.size() - sizeof(msgmem); }
 
   void set_data(char *data, long len);
-  void get_data(char **data);
+  void get_data(char **data, long *len = nullptr);
 
  private:
   std::vector<char> bytes_;
diff --git a/src/server.cpp b/src/server.cpp
index 39a3995..39a31a9 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -289,8 +289,9 @@ static void dispatch() {
                       main_ptr->mtype(), 0);
 
       thread_ptr->prepare();
-      thread_ptr->req.get_data(&thread_ptr->atmibuf);
-      tpsvcinfo.data = thread_ptr->atmibuf;
+      thread_ptr->req.get_data(&thread_ptr->atmibuf, &tpsvcinfo.len);
+      tpsvcinfo.data =
+          thread_ptr->req.size_data() > 0 ? thread_ptr->atmibuf : nullptr;
       if (strcmp(thread_ptr->req->servicename, ".stop") == 0) {
         fux::fml32buf buf(&tpsvcinfo);
 
@@ -313,7 +314,6 @@ static void dispatch() {
 
     checked_copy(thread_ptr->req->servicename, tpsvcinfo.name);
     tpsvcinfo.flags = thread_ptr->req->flags;
-    tpsvcinfo.len = thread_ptr->req.size_data();
     tpsvcinfo.cd = thread_ptr->req->cd;
 
     if (thread_ptr->req->flags & TPTRAN) {
-- 
2.43.0


From 0b97cedeb8a279ec7cc469b6411931cc954dde46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 33/89] fix: server of a shared queue crashed on the shutdown
 request of another

---
 src/server.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/server.cpp b/src/server.cpp
index 39a31a9..aefd2e1 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -308,6 +308,7 @@ static void dispatch() {
           userlog("Not the target receiver of message, put back in queue");
           fux::ipc::qsend(main_ptr->request_queue, thread_ptr->req, 0,
                           fux::ipc::flags::notime);
+          continue;
         }
       }
     }  // lock
-- 
2.43.0


From 7ce7a3ad7af0aa024d347d83387635cd82420122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 34/89] fix: forwarded requests that expect no reply were lost

---
 src/server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server.cpp b/src/server.cpp
index aefd2e1..812582b 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -227,7 +227,7 @@ struct server_thread {
     checked_copy(svc, res->servicename);
     res->flags = flags;
     res->replyq = req->replyq;
-    res->mtype = req->cd;
+    res->mtype = req->mtype;
     res->cd = req->cd;
     res->gttid = gttid;
 
-- 
2.43.0


From 47a5e956abd561b0ba20fb0b540c308a05aae318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 35/89] fix: successful services ended their transaction branch
 with failure

---
 src/server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server.cpp b/src/server.cpp
index 812582b..2c415e4 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -261,7 +261,7 @@ struct server_thread {
 
   void tpreturn(int rval, long rcode, char *data, long len, long flags) {
     if (fux::tx::transactional()) {
-      fux::tx_end(rval == TPSUCCESS);
+      fux::tx_end(rval == TPMINVAL);
     }
     reply(rval, rcode, data, len, flags);
     longjmp(tpreturn_env, 1);
-- 
2.43.0


From 55015fe3ffaf64696ae3be08a75659e8afb97847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:27 +0000
Subject: [PATCH 36/89] fix: nobody replied when a service returned without
 tpreturn

---
 src/server.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/server.cpp b/src/server.cpp
index 2c415e4..e130fc7 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -324,6 +324,9 @@ static void dispatch() {
     if (setjmp(thread_ptr->tpreturn_env) == 0) {
       auto it = main_ptr->advertisements.find(tpsvcinfo.name);
       it->second(&tpsvcinfo);
+      userlog("Service %s returned without tpreturn() or tpforward()",
+              tpsvcinfo.name);
+      ::tpreturn(TPESVCERR, 0, nullptr, 0, TPNOFLAGS);
     }
   }
 }
-- 
2.43.0


From 1af2da00d067af97761dae737e3cd8afbdc30af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:27 +0000
Subject: [PATCH 37/89] fix: data was freed twice when tpforward could not send
 the request

---
 src/server.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index e130fc7..e24db44 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -217,10 +217,6 @@ struct server_thread {
     int msqid = get_queue(svc);
     res.set_data(data, len);
 
-    if (data != nullptr && data != atmibuf) {
-      tpfree(data);
-    }
-
     if (flags != 0) {
       userlog("tpforward with flags!=0");
     }
@@ -233,6 +229,9 @@ struct server_thread {
 
     fux::ipc::qsend(msqid, res, 0, fux::ipc::flags::notime);
 
+    if (data != nullptr && data != atmibuf) {
+      tpfree(data);
+    }
     longjmp(tpreturn_env, 1);
   }
 
-- 
2.43.0


From 79f3e6303b3692cb1531fa78a1bc122c0a858b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:27 +0000
Subject: [PATCH 38/89] fix: advertising in a threaded server blocked until the
 next request

---
 src/server.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index e24db44..4a25627 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -80,6 +80,7 @@ struct server_main {
   struct tmsvrargs_t *tmsvrargs;
 
   std::mutex mutex;
+  std::mutex advertisements_mutex;
   std::map<const char *, void (*)(TPSVCINFO *), cmp_cstr> advertisements;
 
   mib &m_;
@@ -94,7 +95,7 @@ struct server_main {
 
   int tpadvertisex(const char *svcname, void (*func)(TPSVCINFO *), long flags) {
     // TODO: flags
-    fux::scoped_fuxlock lock(mutex);
+    fux::scoped_fuxlock lock(advertisements_mutex);
 
     if (svcname == nullptr || strlen(svcname) == 0) {
       TPERROR(TPEINVAL, "invalid svcname");
@@ -135,7 +136,7 @@ struct server_main {
   }
 
   int tpunadvertise(const char *svcname) {
-    fux::scoped_fuxlock lock(mutex);
+    fux::scoped_fuxlock lock(advertisements_mutex);
     if (svcname == nullptr || strlen(svcname) == 0) {
       TPERROR(TPEINVAL, "invalid svcname");
       return -1;
@@ -143,10 +144,13 @@ struct server_main {
     auto it = advertisements.find(svcname);
 
     if (it != advertisements.end()) {
+      {
+        auto lock = m_.data_lock();
+        m_.unadvertise(svcname, mib_queue, mib_server);
+      }
       auto freeme = it->first;
       advertisements.erase(it);
       free(const_cast<char *>(freeme));
-      m_.unadvertise(svcname, mib_queue, mib_server);
     } else {
       TPERROR(TPENOENT, "svcname not advertised");
       return -1;
@@ -154,6 +158,12 @@ struct server_main {
     return 0;
   }
 
+  auto find_advertisement(const char *svcname) {
+    fux::scoped_fuxlock lock(advertisements_mutex);
+    auto it = advertisements.find(svcname);
+    return it != advertisements.end() ? it->second : nullptr;
+  }
+
   bool handle(long mtype, fux::fml32buf &buf) {
     // Do not want to see this message again
     mtype_ = -(mtype - 1);
@@ -321,8 +331,7 @@ static void dispatch() {
     }
 
     if (setjmp(thread_ptr->tpreturn_env) == 0) {
-      auto it = main_ptr->advertisements.find(tpsvcinfo.name);
-      it->second(&tpsvcinfo);
+      main_ptr->find_advertisement(tpsvcinfo.name)(&tpsvcinfo);
       userlog("Service %s returned without tpreturn() or tpforward()",
               tpsvcinfo.name);
       ::tpreturn(TPESVCERR, 0, nullptr, 0, TPNOFLAGS);
-- 
2.43.0


From 38366f658190bcfe1025d3acce9be29260835200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:57 +0000
Subject: [PATCH 39/89] fix: server crashed on a request for a service it does
 not advertise any more

---
 src/mib.cpp    | 14 ++++++++++++++
 src/mib.h      |  1 +
 src/server.cpp | 28 +++++++++++++++++++++++++++-
 3 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/src/mib.cpp b/src/mib.cpp
index fb727ff..6022dff 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -188,6 +188,20 @@ void mib::unadvertise(const std::string &servicename, size_t queue,
   services().at(service).modified();
 }
 
+bool mib::advertised(const std::string &servicename, size_t queue) {
+  auto service = find_service(servicename);
+  if (service == badoff) {
+    return false;
+  }
+  for (size_t i = 0; i < advertisements()->len; i++) {
+    auto &advertisement = advertisements().at(i);
+    if (advertisement.service == service && advertisement.queue == queue) {
+      return true;
+    }
+  }
+  return false;
+}
+
 size_t mib::find_queue(const std::string &rqaddr) {
   for (size_t i = 0; i < queues()->len; i++) {
     if (rqaddr == queues().at(i).rqaddr) {
diff --git a/src/mib.h b/src/mib.h
index c02ed2b..72845c5 100644
--- a/src/mib.h
+++ b/src/mib.h
@@ -148,6 +148,7 @@ class mib {
 
   void advertise(const std::string &servicename, size_t queue, size_t server);
   void unadvertise(const std::string &servicename, size_t queue, size_t server);
+  bool advertised(const std::string &servicename, size_t queue);
 
   size_t find_queue(const std::string &rqaddr);
   size_t make_queue(const std::string &rqaddr);
diff --git a/src/server.cpp b/src/server.cpp
index 4a25627..e843de3 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -164,6 +164,11 @@ struct server_main {
     return it != advertisements.end() ? it->second : nullptr;
   }
 
+  bool advertised_by_others(const char *svcname) {
+    auto lock = m_.data_lock();
+    return m_.advertised(svcname, mib_queue);
+  }
+
   bool handle(long mtype, fux::fml32buf &buf) {
     // Do not want to see this message again
     mtype_ = -(mtype - 1);
@@ -280,6 +285,21 @@ struct server_thread {
 static thread_local std::unique_ptr<server_thread> thread_ptr;
 static server_thread *main_thread_ptr;
 
+// Request was sent before the service was unadvertised
+static void not_advertised(const char *svcname) try {
+  if (main_ptr->advertised_by_others(svcname)) {
+    userlog("%s is not advertised, put back in queue", svcname);
+    fux::ipc::qsend(main_ptr->request_queue, thread_ptr->req, 0,
+                    fux::ipc::flags::notime);
+    std::this_thread::sleep_for(std::chrono::milliseconds(1));
+  } else {
+    userlog("%s is not advertised", svcname);
+    thread_ptr->reply(TPENOENT, 0, nullptr, 0, TPNOFLAGS);
+  }
+} catch (const std::exception &e) {
+  userlog("Request for %s failed: %s", svcname, e.what());
+}
+
 static void dispatch() {
   while (true) {
     if (main_ptr->stop) {
@@ -326,12 +346,18 @@ static void dispatch() {
     tpsvcinfo.flags = thread_ptr->req->flags;
     tpsvcinfo.cd = thread_ptr->req->cd;
 
+    auto func = main_ptr->find_advertisement(tpsvcinfo.name);
+    if (func == nullptr) {
+      not_advertised(tpsvcinfo.name);
+      continue;
+    }
+
     if (thread_ptr->req->flags & TPTRAN) {
       fux::tx_join(thread_ptr->req->gttid);
     }
 
     if (setjmp(thread_ptr->tpreturn_env) == 0) {
-      main_ptr->find_advertisement(tpsvcinfo.name)(&tpsvcinfo);
+      func(&tpsvcinfo);
       userlog("Service %s returned without tpreturn() or tpforward()",
               tpsvcinfo.name);
       ::tpreturn(TPESVCERR, 0, nullptr, 0, TPNOFLAGS);
-- 
2.43.0


From c1f9a1dfca6b36af6089165de9acc07145f9dfb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:57 +0000
Subject: [PATCH 40/89] fix: services of stopped and dead servers stayed
 advertised and such servers failed to start again

---
 src/BBL.cpp    |  9 +++++++--
 src/mib.cpp    | 13 +++++++++++++
 src/mib.h      |  1 +
 src/server.cpp | 11 +++++++++++
 4 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/BBL.cpp b/src/BBL.cpp
index 9bdcb1c..73210fd 100644
--- a/src/BBL.cpp
+++ b/src/BBL.cpp
@@ -69,8 +69,13 @@ static void monitor_servers() {
     if (server.pid == 0) {
       continue;
     }
-    if (!alive(server.pid)) {
-      server.pid = 0;
+    auto pid = server.pid;
+    if (!alive(pid)) {
+      auto lock = m.data_lock();
+      if (server.pid == pid) {
+        server.pid = 0;
+        m.unadvertise_all(i);
+      }
     }
   }
 }
diff --git a/src/mib.cpp b/src/mib.cpp
index 6022dff..26b0fb4 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -188,6 +188,19 @@ void mib::unadvertise(const std::string &servicename, size_t queue,
   services().at(service).modified();
 }
 
+void mib::unadvertise_all(size_t server) {
+  for (size_t i = 0; i < advertisements()->len; i++) {
+    auto &advertisement = advertisements().at(i);
+    if (advertisement.server == server) {
+      auto service = advertisement.service;
+      advertisement.state = state_t::INValid;
+      advertisement.service = advertisement.queue = advertisement.server =
+          badoff;
+      services().at(service).modified();
+    }
+  }
+}
+
 bool mib::advertised(const std::string &servicename, size_t queue) {
   auto service = find_service(servicename);
   if (service == badoff) {
diff --git a/src/mib.h b/src/mib.h
index 72845c5..da83d5b 100644
--- a/src/mib.h
+++ b/src/mib.h
@@ -148,6 +148,7 @@ class mib {
 
   void advertise(const std::string &servicename, size_t queue, size_t server);
   void unadvertise(const std::string &servicename, size_t queue, size_t server);
+  void unadvertise_all(size_t server);
   bool advertised(const std::string &servicename, size_t queue);
 
   size_t find_queue(const std::string &rqaddr);
diff --git a/src/server.cpp b/src/server.cpp
index e843de3..906560d 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -169,6 +169,11 @@ struct server_main {
     return m_.advertised(svcname, mib_queue);
   }
 
+  void unadvertise_all() {
+    auto lock = m_.data_lock();
+    m_.unadvertise_all(mib_server);
+  }
+
   bool handle(long mtype, fux::fml32buf &buf) {
     // Do not want to see this message again
     mtype_ = -(mtype - 1);
@@ -447,8 +452,12 @@ int _tmstartserver(int argc, char **argv, struct tmsvrargs_t *tmsvrargs) {
   main_ptr->tmsvrargs = tmsvrargs;
   fux::glob::xasw = tmsvrargs->xa_switch;
 
+  // Whatever the previous instance left behind
+  main_ptr->unadvertise_all();
+
   if (int n = tmsvrargs->svrinit(argc, argv); n != 0) {
     userlog("tpsvrinit() = %d", n);
+    main_ptr->unadvertise_all();
     return -1;
   }
 
@@ -462,6 +471,7 @@ int _tmstartserver(int argc, char **argv, struct tmsvrargs_t *tmsvrargs) {
       if (tpadvertise(const_cast<char *>(rec->svcname), rec->svcfunc) == -1) {
         userlog("Failed to advertise service %s / function %s : %s",
                 rec->svcname, rec->funcname, tpstrerror(tperrno));
+        main_ptr->unadvertise_all();
         return -1;
       }
       rec++;
@@ -483,6 +493,7 @@ int _tmstartserver(int argc, char **argv, struct tmsvrargs_t *tmsvrargs) {
     dispatch();
   }
 
+  main_ptr->unadvertise_all();
   tmsvrargs->mainloop(0);
 
   tmsvrargs->svrdone();
-- 
2.43.0


From 4e75575af5c15f85e93371d86a8d4acf77c46082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:20 +0000
Subject: [PATCH 41/89] fix: threads that joined the application at the same
 time crashed the client

---
 src/mib.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mib.cpp b/src/mib.cpp
index 26b0fb4..2ca7685 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -8,6 +8,7 @@
 #include <iostream>
 #include <limits>
 #include <memory>
+#include <mutex>
 #include <stdexcept>
 #include <string>
 
@@ -460,6 +461,8 @@ void ubb2mib(ubbconfig &u, mib &m);
 
 mib &getmib() {
   static std::unique_ptr<mib> mibcon;
+  static std::mutex mibcon_mutex;
+  std::lock_guard<std::mutex> lock(mibcon_mutex);
 
   if (!mibcon.get()) {
     auto cfg = getconfig();
-- 
2.43.0


From c45539093356ce6538f1658c40da40ca74172d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:50 +0000
Subject: [PATCH 42/89] fix: clients and servers aborted when they ended after
 the application was shut down

---
 src/client.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 007fa9b..0b19608 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -53,9 +53,14 @@ class client {
   }
 
   ~client() {
-    auto lock = mibcon_.data_lock();
-    fux::ipc::qdelete(mibcon_.accessers().at(client_).rpid);
-    mibcon_.accessers().at(client_).invalidate();
+    try {
+      auto lock = mibcon_.data_lock();
+      fux::ipc::qdelete(mibcon_.accessers().at(client_).rpid);
+      mibcon_.accessers().at(client_).invalidate();
+    } catch (const std::exception &e) {
+      // The application was shut down before
+      userlog("Failed to leave the application: %s", e.what());
+    }
   }
 
   int tpacall_group(int grpno, const char *svc, char *data, long len,
-- 
2.43.0


From a6868d0b16fd82d494092b2882ca0279dd035286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:19 +0000
Subject: [PATCH 43/89] fix: the transaction table reached past the end of the
 shared memory

Its offset is counted from the start of the memory, but was added to the
end of the header.
---
 src/mib.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mib.h b/src/mib.h
index da83d5b..ffe41de 100644
--- a/src/mib.h
+++ b/src/mib.h
@@ -142,8 +142,8 @@ class mib {
     return mibarrptr<advertisement>(&mem_->advertisements);
   }
   transaction_table &transactions() {
-    return *reinterpret_cast<transaction_table *>(mem_->data +
-                                                  mem_->transactions_off);
+    return *reinterpret_cast<transaction_table *>(
+        reinterpret_cast<char *>(mem_) + mem_->transactions_off);
   }
 
   void advertise(const std::string &servicename, size_t queue, size_t server);
-- 
2.43.0


From d46ea05d479be4d9962a34410927d3a4ef06f1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:19 +0000
Subject: [PATCH 44/89] fix: tx_info reported characteristics that were never
 set

They were uninitialised memory until the program set them. After RMs were
closed in chained mode and opened again they did not agree with the state.
---
 src/tx.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index 0ae2a08..b672f83 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -58,9 +58,16 @@ struct tx_context {
       grpcfg = &mibcon_.group_by_id(fux::tx::grpno);
       fux::tx::grpidx = mibcon_.find_group(fux::tx::grpno);
     }
+    initial();
+  }
+  void initial() {
+    info.when_return = TX_COMMIT_COMPLETED;
+    info.transaction_control = TX_UNCHAINED;
+    info.transaction_timeout = 0;
     notrx();
   }
   void notrx() {
+    info.transaction_state = TX_ACTIVE;
     info.xid.formatID = -1;
     gttid = fux::bad_gttid;
   }
@@ -105,7 +112,7 @@ int tx_open() {
   auto xarc = xasw->xa_open_entry(info + len + 1, fux::tx::grpno, TMNOFLAGS);
   if (xarc == XA_OK) {
     if (getctxt().state == tx_state::s0) {
-      getctxt().notrx();
+      getctxt().initial();
       getctxt().state = tx_state::s1;
     }
     return TX_OK;
-- 
2.43.0


From 10962eb001acb61e358dcfdf5f81565092d7a10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:19 +0000
Subject: [PATCH 45/89] fix: tx_open and tx_close crashed in clients

Clients do not belong to a group. Also the RM was given what follows the
end of an empty OPENINFO.
---
 src/tx.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index b672f83..92f4931 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -99,17 +99,20 @@ static int rm_err(int xarc, const char *func) {
 }
 
 int tx_open() {
-  char *info = getctxt().grpcfg->openinfo;
-  auto len = strlen(xasw->name);
-  if (strlen(getctxt().grpcfg->openinfo) > 0) {
+  char empty[] = "";
+  // Clients do not belong to a group
+  char *info = getctxt().grpcfg != nullptr ? getctxt().grpcfg->openinfo : empty;
+  if (strlen(info) > 0) {
+    auto len = strlen(xasw->name);
     if (strncmp(xasw->name, info, len) != 0 || info[len] != ':') {
       userlog("Resource Manager mismatch %s and open info %s", xasw->name,
               info);
       return TX_ERROR;
     }
+    info += len + 1;
   }
 
-  auto xarc = xasw->xa_open_entry(info + len + 1, fux::tx::grpno, TMNOFLAGS);
+  auto xarc = xasw->xa_open_entry(info, fux::tx::grpno, TMNOFLAGS);
   if (xarc == XA_OK) {
     if (getctxt().state == tx_state::s0) {
       getctxt().initial();
@@ -126,8 +129,15 @@ int tx_close() {
         getctxt().state == tx_state::s2)) {
     return TX_PROTOCOL_ERROR;
   }
-  auto xarc = xasw->xa_close_entry(getctxt().grpcfg->closeinfo, fux::tx::grpno,
-                                   TMNOFLAGS);
+  char empty[] = "";
+  char *info =
+      getctxt().grpcfg != nullptr ? getctxt().grpcfg->closeinfo : empty;
+  auto len = strlen(xasw->name);
+  if (strncmp(xasw->name, info, len) == 0 && info[len] == ':') {
+    info += len + 1;
+  }
+
+  auto xarc = xasw->xa_close_entry(info, fux::tx::grpno, TMNOFLAGS);
   if (xarc == XA_OK) {
     getctxt().state = tx_state::s0;
     return TX_OK;
-- 
2.43.0


From eb4527b32fe9ab79c03b54048fcb6a13047b3f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:01 +0000
Subject: [PATCH 46/89] fix: a refused tx_begin replaced the current
 transaction

An entry was taken and the number of the transaction overwritten before the
state was looked at, entries were taken without a lock, transactions the RM
refused to start were current all the same and kept their entries, and a
full table threw an exception at the program. Transactions of clients had
the first group as a participant.
---
 src/trx.h  | 17 +++++++++++++----
 src/tx.cpp | 42 +++++++++++++++++++++++++++++++-----------
 2 files changed, 44 insertions(+), 15 deletions(-)

diff --git a/src/trx.h b/src/trx.h
index dbb6c19..6cdd2c5 100644
--- a/src/trx.h
+++ b/src/trx.h
@@ -134,21 +134,30 @@ struct transaction_table {
     return t.groups[group] > 0;
   }
 
-  fux::gttid init(fux::gttid i, const XID &xid, uint16_t group) {
+  fux::gttid init(fux::gttid i, const XID &xid) {
     memset(&(*this)[i], 0, entry_size);
     (*this)[i].xid = xid;
-    join(i, group);
     return i;
   }
 
   fux::gttid start(const XID &xid, uint16_t group) {
+    if (group >= max_groups) {
+      throw std::out_of_range("group out of range");
+    }
+    auto i = start(xid);
+    join(i, group);
+    return i;
+  }
+
+  // No group takes part yet
+  fux::gttid start(const XID &xid) {
     for (size_t i = 0; i < len; i++) {
       if ((*this)[i].xid.formatID == -1) {
-        return init(i, xid, group);
+        return init(i, xid);
       }
     }
     if (len < size) {
-      return init(len++, xid, group);
+      return init(len++, xid);
     }
     throw std::out_of_range("No free entries in transaction table");
   }
diff --git a/src/tx.cpp b/src/tx.cpp
index 92f4931..76e7f89 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -180,10 +180,32 @@ int tx_begin() {
     // return TX_OK;
   }
 
+  if (!(getctxt().state == tx_state::s1 || getctxt().state == tx_state::s2)) {
+    return TX_PROTOCOL_ERROR;
+  }
+
   TXINFO info;
   info.xid = xid();
-  getctxt().gttid = getmib().transactions().start(info.xid, fux::tx::grpidx);
-  return _tx_start(&info);
+  fux::gttid gttid;
+  try {
+    auto lock = getmib().data_lock();
+    auto &transactions = getmib().transactions();
+    // Clients do not belong to a group
+    gttid = fux::tx::grpno != 0 ? transactions.start(info.xid, fux::tx::grpidx)
+                                : transactions.start(info.xid);
+  } catch (const std::out_of_range &e) {
+    userlog("Failed to begin a transaction: %s", e.what());
+    return TX_ERROR;
+  }
+
+  auto rc = _tx_start(&info);
+  if (rc == TX_OK) {
+    getctxt().gttid = gttid;
+  } else {
+    auto lock = getmib().data_lock();
+    getmib().transactions().end(gttid);
+  }
+  return rc;
 }
 
 static bool tx_set1(int rc) {
@@ -358,17 +380,15 @@ static int _tx_start(TXINFO *info, long flags) {
     return TX_PROTOCOL_ERROR;
   }
 
-  if (info != nullptr) {
-    getctxt().info.xid = info->xid;
-  }
+  XID xid = info != nullptr ? info->xid : getctxt().info.xid;
 
-  userlog("xa_start(%s, %d, 0x%08lx) ...",
-          fux::to_string(&getctxt().info.xid).c_str(), fux::tx::grpno, flags);
-  auto xarc = xasw->xa_start_entry(&getctxt().info.xid, fux::tx::grpno, flags);
-  userlog("xa_start(%s, %d, 0x%08lx) = %d",
-          fux::to_string(&getctxt().info.xid).c_str(), fux::tx::grpno, flags,
-          xarc);
+  userlog("xa_start(%s, %d, 0x%08lx) ...", fux::to_string(&xid).c_str(),
+          fux::tx::grpno, flags);
+  auto xarc = xasw->xa_start_entry(&xid, fux::tx::grpno, flags);
+  userlog("xa_start(%s, %d, 0x%08lx) = %d", fux::to_string(&xid).c_str(),
+          fux::tx::grpno, flags, xarc);
   if (xarc == XA_OK) {
+    getctxt().info.xid = xid;
     if (getctxt().state == tx_state::s1) {
       getctxt().state = tx_state::s3;
     } else if (getctxt().state == tx_state::s2) {
-- 
2.43.0


From fd80513c9d01ada963533ded4dbee81c97161b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:08 +0000
Subject: [PATCH 47/89] fix: ends of transactions lost transactions and began
 too many

In chained mode the end of a transaction began one before the commit and
another one after it, and the first one was never ended. When the RM failed
to end or resume an association the transaction was forgotten by the thread,
neither committed nor rolled back, and the thread could neither begin nor end
transactions. Roll back what can't be committed and report TX_ROLLBACK,
report TX_*_NO_BEGIN if the next transaction does not begin.
---
 src/client.cpp |   3 +-
 src/trx.h      |   2 +-
 src/tx.cpp     | 130 +++++++++++++++++++++++++++----------------------
 3 files changed, 73 insertions(+), 62 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 0b19608..530bb2d 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -29,8 +29,7 @@ bool is_server();
 struct suspend_guard {
   suspend_guard(bool suspend = true) : suspended(false) {
     if (suspend && fux::tx::transactional()) {
-      suspended = true;
-      fux::tx_suspend();
+      suspended = fux::tx_suspend();
     }
   }
   ~suspend_guard() {
diff --git a/src/trx.h b/src/trx.h
index 6cdd2c5..0ebc7ba 100644
--- a/src/trx.h
+++ b/src/trx.h
@@ -17,7 +17,7 @@ fux::gttid gttid();
 bool transactional();
 }  // namespace tx
 void tx_resume();
-void tx_suspend();
+bool tx_suspend();
 void tx_join(fux::gttid id);
 void tx_end(bool ok);
 
diff --git a/src/tx.cpp b/src/tx.cpp
index 76e7f89..ecc1278 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -208,29 +208,21 @@ int tx_begin() {
   return rc;
 }
 
-static bool tx_set1(int rc) {
-  return rc == TX_OK || rc == TX_ROLLBACK || rc == TX_MIXED ||
-         rc == TX_HAZARD || rc == TX_COMMITTED;
-}
-
-static bool tx_set2(int rc) {
-  return rc == TX_NO_BEGIN || rc == TX_ROLLBACK_NO_BEGIN ||
-         rc == TX_MIXED_NO_BEGIN || rc == TX_HAZARD_NO_BEGIN ||
-         rc == TX_COMMITTED_NO_BEGIN;
+static void leave_transaction() {
+  if (getctxt().state == tx_state::s3) {
+    getctxt().state = tx_state::s1;
+  } else if (getctxt().state == tx_state::s4) {
+    getctxt().state = tx_state::s2;
+  }
 }
 
+// The transaction has ended with rc
 static int change_state(int rc) {
-  if (tx_set1(rc)) {
-    if (getctxt().state == tx_state::s3) {
-      getctxt().state = tx_state::s1;
-    } else if (getctxt().state == tx_state::s4) {
-      // Chained
-      getctxt().state = tx_state::s2;
-      return tx_begin();
-    }
-  } else if (tx_set2(rc)) {
-    if (getctxt().state == tx_state::s4) {
-      getctxt().state = tx_state::s2;
+  leave_transaction();
+  if (getctxt().state == tx_state::s2) {
+    // Chained
+    if (tx_begin() != TX_OK) {
+      return rc + TX_NO_BEGIN;
     }
   }
   return rc;
@@ -263,12 +255,24 @@ static std::vector<branch> collect(XID *xid) {
   return branches;
 }
 
-int _tx_end(TXINFO *info);
+static int _tx_end(TXINFO *info, long flags);
+
+static void rollback(XID *xid) {
+  std::vector<branch> branches = collect(xid);
+  command(branches, xid, fux::tm::rollback);
+}
+
 int tx_commit() {
+  if (!(getctxt().state == tx_state::s3 || getctxt().state == tx_state::s4)) {
+    return TX_PROTOCOL_ERROR;
+  }
+
   TXINFO info;
-  auto rc = _tx_end(&info);
-  if (rc != TX_OK) {
-    return rc;
+  auto rc = _tx_end(&info, TMSUCCESS);
+  getctxt().notrx();
+  if (rc != TX_OK || info.transaction_state == TX_ROLLBACK_ONLY) {
+    rollback(&info.xid);
+    return change_state(TX_ROLLBACK);
   }
 
   std::vector<branch> branches1 = collect(&info.xid);
@@ -299,29 +303,23 @@ int tx_commit() {
     return change_state(TX_OK);
   } else {
     command(branches2, &info.xid, fux::tm::rollback);
-    return change_state(TX_FAIL);
+    return change_state(TX_ROLLBACK);
   }
 }
 
 int tx_rollback() {
-  TXINFO info;
-  auto rc = _tx_end(&info);
-  if (rc != TX_OK) {
-    return rc;
+  if (!(getctxt().state == tx_state::s3 || getctxt().state == tx_state::s4)) {
+    return TX_PROTOCOL_ERROR;
   }
 
-  std::vector<branch> branches = collect(&info.xid);
-
-  command(branches, &info.xid, fux::tm::rollback);
-
+  TXINFO info;
+  (void)_tx_end(&info, TMSUCCESS);
+  getctxt().notrx();
+  rollback(&info.xid);
   return change_state(TX_OK);
 }
 
 static int _tx_end(TXINFO *info, long flags) {
-  if (!(getctxt().state == tx_state::s3 || getctxt().state == tx_state::s4)) {
-    return TX_PROTOCOL_ERROR;
-  }
-
   userlog("xa_end(%s, %d, 0x%0lx) ...",
           fux::to_string(&getctxt().info.xid).c_str(), fux::tx::grpno, flags);
   auto xarc = xasw->xa_end_entry(&getctxt().info.xid, fux::tx::grpno, flags);
@@ -330,7 +328,6 @@ static int _tx_end(TXINFO *info, long flags) {
           xarc);
   if (info != nullptr) {
     *info = getctxt().info;
-    getctxt().notrx();
   }
 
   int rc = TX_OK;
@@ -352,27 +349,37 @@ static int _tx_end(TXINFO *info, long flags) {
 // The main difference is that suspend does not start a new transaction even in
 // chained mode
 int _tx_suspend(TXINFO *info) {
+  if (!(getctxt().state == tx_state::s3 || getctxt().state == tx_state::s4)) {
+    return TX_PROTOCOL_ERROR;
+  }
+
   auto rc = _tx_end(info, TMSUSPEND);
   if (rc == TX_OK) {
-    if (getctxt().state == tx_state::s3) {
-      getctxt().state = tx_state::s1;
-    } else if (getctxt().state == tx_state::s4) {
-      getctxt().state = tx_state::s2;
-    }
+    getctxt().notrx();
+    leave_transaction();
+  } else {
+    // Some of the work may be outside of the transaction from now on
+    getctxt().info.transaction_state = TX_ROLLBACK_ONLY;
   }
 
   return rc;
 }
 
-int _tx_end(TXINFO *info) {
-  auto rc = _tx_end(info, TMSUCCESS);
-  return change_state(rc);
-}
-
 int _tx_end(bool ok) {
   TXINFO info;
   auto rc = _tx_end(&info, ok ? TMSUCCESS : TMFAIL);
-  return change_state(rc);
+  getctxt().notrx();
+  leave_transaction();
+  return rc;
+}
+
+static int rm_start(XID *xid, long flags) {
+  userlog("xa_start(%s, %d, 0x%08lx) ...", fux::to_string(xid).c_str(),
+          fux::tx::grpno, flags);
+  auto xarc = xasw->xa_start_entry(xid, fux::tx::grpno, flags);
+  userlog("xa_start(%s, %d, 0x%08lx) = %d", fux::to_string(xid).c_str(),
+          fux::tx::grpno, flags, xarc);
+  return xarc;
 }
 
 static int _tx_start(TXINFO *info, long flags) {
@@ -380,15 +387,9 @@ static int _tx_start(TXINFO *info, long flags) {
     return TX_PROTOCOL_ERROR;
   }
 
-  XID xid = info != nullptr ? info->xid : getctxt().info.xid;
-
-  userlog("xa_start(%s, %d, 0x%08lx) ...", fux::to_string(&xid).c_str(),
-          fux::tx::grpno, flags);
-  auto xarc = xasw->xa_start_entry(&xid, fux::tx::grpno, flags);
-  userlog("xa_start(%s, %d, 0x%08lx) = %d", fux::to_string(&xid).c_str(),
-          fux::tx::grpno, flags, xarc);
+  auto xarc = rm_start(&info->xid, flags);
   if (xarc == XA_OK) {
-    getctxt().info.xid = xid;
+    getctxt().info.xid = info->xid;
     if (getctxt().state == tx_state::s1) {
       getctxt().state = tx_state::s3;
     } else if (getctxt().state == tx_state::s2) {
@@ -419,8 +420,19 @@ int _tx_resume(TXINFO *info) { return _tx_start(info, TMRESUME); }
 int _tx_start(TXINFO *info) { return _tx_start(info, TMNOFLAGS); }
 
 namespace fux {
-void tx_resume() { _tx_resume(nullptr); }
-void tx_suspend() { _tx_suspend(nullptr); }
+// The transaction stays current while suspended for the time of a call
+void tx_resume() {
+  if (rm_start(&getctxt().info.xid, TMRESUME) != XA_OK) {
+    getctxt().info.transaction_state = TX_ROLLBACK_ONLY;
+  }
+}
+bool tx_suspend() {
+  if (_tx_end(nullptr, TMSUSPEND) != TX_OK) {
+    getctxt().info.transaction_state = TX_ROLLBACK_ONLY;
+    return false;
+  }
+  return true;
+}
 void tx_end(bool ok) { _tx_end(ok); }
 void tx_join(fux::gttid gttid) {
   auto &t = getmib().transactions().join(gttid, fux::tx::grpidx);
-- 
2.43.0


From d2a4ce78f0a063dd524204d3305e90988639eee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:48 +0000
Subject: [PATCH 48/89] fix: services could end the transaction of their caller

The caller then failed to find the transaction it was still working in. Only
who began it may commit, roll back or suspend it.
---
 src/tx.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index ecc1278..73abfb8 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -70,8 +70,10 @@ struct tx_context {
     info.transaction_state = TX_ACTIVE;
     info.xid.formatID = -1;
     gttid = fux::bad_gttid;
+    joined = false;
   }
   tx_state state;
+  bool joined = false;  // The transaction was begun and will be ended by others
   group *grpcfg = nullptr;
   TXINFO info;
   fux::gttid gttid;
@@ -263,7 +265,8 @@ static void rollback(XID *xid) {
 }
 
 int tx_commit() {
-  if (!(getctxt().state == tx_state::s3 || getctxt().state == tx_state::s4)) {
+  if (!(getctxt().state == tx_state::s3 || getctxt().state == tx_state::s4) ||
+      getctxt().joined) {
     return TX_PROTOCOL_ERROR;
   }
 
@@ -308,7 +311,8 @@ int tx_commit() {
 }
 
 int tx_rollback() {
-  if (!(getctxt().state == tx_state::s3 || getctxt().state == tx_state::s4)) {
+  if (!(getctxt().state == tx_state::s3 || getctxt().state == tx_state::s4) ||
+      getctxt().joined) {
     return TX_PROTOCOL_ERROR;
   }
 
@@ -349,7 +353,8 @@ static int _tx_end(TXINFO *info, long flags) {
 // The main difference is that suspend does not start a new transaction even in
 // chained mode
 int _tx_suspend(TXINFO *info) {
-  if (!(getctxt().state == tx_state::s3 || getctxt().state == tx_state::s4)) {
+  if (!(getctxt().state == tx_state::s3 || getctxt().state == tx_state::s4) ||
+      getctxt().joined) {
     return TX_PROTOCOL_ERROR;
   }
 
-- 
2.43.0


From 1c0f26e7af66626b7de4a8c202a8a7e2f35fd621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:48 +0000
Subject: [PATCH 49/89] fix: services ran outside of the transaction they were
 called in

A server that could not join ran the service all the same, or terminated if
the transaction did not exist. Its own calls went to no transaction because
the number was not kept. The first server of a group joined a branch that
nobody had created. Transactions begun by the service and not ended were left
behind, and in chained mode each return began one.
---
 src/server.cpp | 22 +++++++++++++----
 src/trx.h      |  4 ++--
 src/tx.cpp     | 64 +++++++++++++++++++++++++++++++++++++++++++-------
 3 files changed, 76 insertions(+), 14 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index 906560d..56bffbd 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -279,8 +279,10 @@ struct server_thread {
   }
 
   void tpreturn(int rval, long rcode, char *data, long len, long flags) {
-    if (fux::tx::transactional()) {
-      fux::tx_end(rval == TPMINVAL);
+    auto ok = rval == TPMINVAL && flags == 0;
+    if (fux::tx::transactional() && !fux::tx_end(ok) && ok) {
+      userlog("Service succeeded but the transaction did not");
+      rval = TPESVCERR;
     }
     reply(rval, rcode, data, len, flags);
     longjmp(tpreturn_env, 1);
@@ -290,6 +292,14 @@ struct server_thread {
 static thread_local std::unique_ptr<server_thread> thread_ptr;
 static server_thread *main_thread_ptr;
 
+// Request in a transaction this server can't take part in
+static void refuse_transaction(const char *svcname) try {
+  userlog("%s can't join the transaction", svcname);
+  thread_ptr->reply(TPESVCERR, 0, nullptr, 0, TPNOFLAGS);
+} catch (const std::exception &e) {
+  userlog("Request for %s failed: %s", svcname, e.what());
+}
+
 // Request was sent before the service was unadvertised
 static void not_advertised(const char *svcname) try {
   if (main_ptr->advertised_by_others(svcname)) {
@@ -357,8 +367,12 @@ static void dispatch() {
       continue;
     }
 
-    if (thread_ptr->req->flags & TPTRAN) {
-      fux::tx_join(thread_ptr->req->gttid);
+    // System services do not belong to a group and do not take part
+    if ((thread_ptr->req->flags & TPTRAN) && main_ptr->grpno != 0) {
+      if (!fux::tx_join(thread_ptr->req->gttid)) {
+        refuse_transaction(tpsvcinfo.name);
+        continue;
+      }
     }
 
     if (setjmp(thread_ptr->tpreturn_env) == 0) {
diff --git a/src/trx.h b/src/trx.h
index 0ebc7ba..ac8bd7f 100644
--- a/src/trx.h
+++ b/src/trx.h
@@ -18,8 +18,8 @@ bool transactional();
 }  // namespace tx
 void tx_resume();
 bool tx_suspend();
-void tx_join(fux::gttid id);
-void tx_end(bool ok);
+bool tx_join(fux::gttid id);
+bool tx_end(bool ok);
 
 inline std::string to_string(XID *xid) {
   char buf[32];
diff --git a/src/tx.cpp b/src/tx.cpp
index 73abfb8..b16ccf6 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -370,12 +370,21 @@ int _tx_suspend(TXINFO *info) {
   return rc;
 }
 
-int _tx_end(bool ok) {
+// False if the transaction can't be committed
+static bool leave(bool ok) {
   TXINFO info;
+  if (getctxt().info.transaction_state == TX_ROLLBACK_ONLY) {
+    ok = false;
+  }
+  auto joined = getctxt().joined;
   auto rc = _tx_end(&info, ok ? TMSUCCESS : TMFAIL);
   getctxt().notrx();
+  if (!joined) {
+    userlog("Transaction begun by the service was not ended");
+    rollback(&info.xid);
+  }
   leave_transaction();
-  return rc;
+  return joined && ok && rc == TX_OK;
 }
 
 static int rm_start(XID *xid, long flags) {
@@ -438,12 +447,51 @@ bool tx_suspend() {
   }
   return true;
 }
-void tx_end(bool ok) { _tx_end(ok); }
-void tx_join(fux::gttid gttid) {
-  auto &t = getmib().transactions().join(gttid, fux::tx::grpidx);
-  TXINFO info;
-  info.xid = t.xid;
-  _tx_start(&info, TMJOIN);
+bool tx_end(bool ok) { return leave(ok); }
+bool tx_join(fux::gttid gttid) {
+  auto &ctxt = getctxt();
+  if (!(ctxt.state == tx_state::s1 || ctxt.state == tx_state::s2)) {
+    userlog("Can't join a transaction in state %d", static_cast<int>(ctxt.state));
+    return false;
+  }
+
+  XID xid;
+  bool known;
+  try {
+    auto lock = getmib().data_lock();
+    auto &transactions = getmib().transactions();
+    xid = transactions.at(gttid).xid;
+    known = transactions.has_joined(gttid, fux::tx::grpidx);
+    transactions.join(gttid, fux::tx::grpidx);
+  } catch (const std::out_of_range &e) {
+    userlog("Can't join a transaction: %s", e.what());
+    return false;
+  }
+
+  // The first one of the group creates the branch, servers of the group may
+  // be joining at the same time
+  auto flags = known ? TMJOIN : TMNOFLAGS;
+  auto xarc = rm_start(&xid, flags);
+  for (int i = 0; i < 2; i++) {
+    if (flags == TMJOIN && xarc == XAER_NOTA) {
+      flags = TMNOFLAGS;
+    } else if (flags == TMNOFLAGS && xarc == XAER_DUPID) {
+      flags = TMJOIN;
+    } else {
+      break;
+    }
+    xarc = rm_start(&xid, flags);
+  }
+  if (xarc != XA_OK) {
+    return false;
+  }
+
+  ctxt.info.xid = xid;
+  ctxt.gttid = gttid;
+  ctxt.joined = true;
+  ctxt.state =
+      ctxt.state == tx_state::s1 ? tx_state::s3 : tx_state::s4;
+  return true;
 }
 namespace tx {
 fux::gttid gttid() { return getctxt().gttid; }
-- 
2.43.0


From a5e78d79d18fbe7166d166662a8ea69f943907ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:48 +0000
Subject: [PATCH 50/89] fix: forwarded requests left the transaction of the
 caller

The next service was not told that the request is a part of it. A forward to
an unknown service ended the work of this one as good.
---
 src/server.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index 56bffbd..7bb1cd0 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -229,23 +229,23 @@ struct server_thread {
   jmp_buf tpreturn_env;
 
   void tpforward(char *svc, char *data, long len, long flags) {
-    auto gttid = fux::tx::gttid();
-    if (fux::tx::transactional()) {
-      fux::tx_end(true);
-    }
-
     int msqid = get_queue(svc);
     res.set_data(data, len);
 
+    // Once nothing else can fail
+    if (fux::tx::transactional() && !fux::tx_end(true)) {
+      return tpreturn(TPESVCERR, 0, data, len, TPNOFLAGS);
+    }
+
     if (flags != 0) {
       userlog("tpforward with flags!=0");
     }
     checked_copy(svc, res->servicename);
-    res->flags = flags;
+    res->flags = req->flags;
     res->replyq = req->replyq;
     res->mtype = req->mtype;
     res->cd = req->cd;
-    res->gttid = gttid;
+    res->gttid = req->gttid;
 
     fux::ipc::qsend(msqid, res, 0, fux::ipc::flags::notime);
 
-- 
2.43.0


From 5676485fa0cd0dae3bec04225c7a2012631eda8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:48 +0000
Subject: [PATCH 51/89] fix: tpreturn with invalid data sent no reply

The caller waited until the time-out, and with TPNOTIME forever.
---
 src/server.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/server.cpp b/src/server.cpp
index 7bb1cd0..6b39777 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -278,7 +278,22 @@ struct server_thread {
     }
   }
 
+  // The caller gets an answer even if the intended one can't be sent
+  void fail() {
+    try {
+      reply(TPESVCERR, 0, nullptr, 0, TPNOFLAGS);
+    } catch (const std::exception &e) {
+      userlog("Reply failed: %s", e.what());
+    }
+    longjmp(tpreturn_env, 1);
+  }
+
   void tpreturn(int rval, long rcode, char *data, long len, long flags) {
+    if (data != nullptr && tptypes(data, nullptr, nullptr) == -1) {
+      userlog("tpreturn with invalid data");
+      rval = TPESVCERR;
+      data = nullptr;
+    }
     auto ok = rval == TPMINVAL && flags == 0;
     if (fux::tx::transactional() && !fux::tx_end(ok) && ok) {
       userlog("Service succeeded but the transaction did not");
@@ -554,9 +569,9 @@ void tpreturn(int rval, long rcode, char *data, long len, long flags) try {
     rval = TPESVCERR;
   }
   return thread_ptr->tpreturn(rval, rcode, data, len, flags);
-} catch (...) {
-  userlog("tpreturn failed");
-  longjmp(thread_ptr->tpreturn_env, -1);
+} catch (const std::exception &e) {
+  userlog("tpreturn failed: %s", e.what());
+  thread_ptr->fail();
 }
 
 void tpforward(char *svc, char *data, long len, long flags) try {
-- 
2.43.0


From 0b01a39b6843c6c96a371b7c420d6ce0cc0cf881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:41 +0000
Subject: [PATCH 52/89] fix: transactions ended differently in groups after a
 TM that failed

The first TM that could not be called ended the loop, all others were not
called and counted as successful. A TM that did not answer was waited for in
an endless loop. Replies the program was waiting for were thrown away while
waiting for TMs.
---
 src/tx.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index b16ccf6..49cf944 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -553,7 +553,6 @@ int tx_set_transaction_timeout(TRANSACTION_TIMEOUT timeout) {
 int tpacall_group(int grpno, char *svc, char *data, long len, long flags);
 void command(std::vector<branch> &branches, XID *xid, int command) {
   fux::fml32buf buf;
-  int pending = 0;
 
   for (auto &p : branches) {
     buf.put(TA_XAFUNC, 0, command);
@@ -568,23 +567,24 @@ void command(std::vector<branch> &branches, XID *xid, int command) {
     if (p.cd == -1) {
       userlog("Failed to call TM in group %d (%s)", p.grpno,
               tpstrerror(tperrno));
-      p.result = TMER_TMERR;
-      break;
     }
-    pending++;
   }
 
-  while (pending > 0) {
-    int cd;
+  // Replies to other calls of the program are left for the program
+  for (auto &p : branches) {
+    p.result = TMER_TMERR;
+    if (p.cd == -1) {
+      continue;
+    }
+    int cd = p.cd;
     long len = 0;
-    int rc =
-        tpgetrply(&cd, reinterpret_cast<char **>(buf.ptrptr()), &len, TPGETANY);
-
-    for (auto &p : branches) {
-      if (p.cd == cd) {
-        p.result = buf.get<long>(TA_XARET, 0);
-        pending--;
-      }
+    if (tpgetrply(&cd, reinterpret_cast<char **>(buf.ptrptr()), &len,
+                  TPNOFLAGS) != -1) {
+      p.result = buf.get<long>(TA_XARET, 0);
+    } else {
+      userlog("No answer from TM in group %d (%s)", p.grpno,
+              tpstrerror(tperrno));
+      tpcancel(p.cd);
     }
   }
 }
-- 
2.43.0


From 2f53614c2b34b2383e1d053d020d63c7e32dfbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:41 +0000
Subject: [PATCH 53/89] fix: transactions that were not committed everywhere
 were reported as such

The answers to commit and rollback were not looked at.
---
 src/tx.cpp | 54 ++++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 14 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index 49cf944..4d8a726 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -259,9 +259,37 @@ static std::vector<branch> collect(XID *xid) {
 
 static int _tx_end(TXINFO *info, long flags);
 
-static void rollback(XID *xid) {
-  std::vector<branch> branches = collect(xid);
+// What became of a transaction that was to be rolled back
+static int rollback(std::vector<branch> &branches, XID *xid) {
   command(branches, xid, fux::tm::rollback);
+  int rc = TX_ROLLBACK;
+  for (auto &p : branches) {
+    if (p.result == XA_HEURCOM || p.result == XA_HEURMIX) {
+      rc = TX_MIXED;
+    } else if (p.result == XA_HEURHAZ && rc != TX_MIXED) {
+      rc = TX_HAZARD;
+    }
+  }
+  return rc;
+}
+
+static int rollback(XID *xid) {
+  std::vector<branch> branches = collect(xid);
+  return rollback(branches, xid);
+}
+
+// What became of a transaction that was to be committed
+static int commit(std::vector<branch> &branches, XID *xid) {
+  command(branches, xid, fux::tm::commit);
+  int rc = TX_OK;
+  for (auto &p : branches) {
+    if (p.result == XA_HEURRB || p.result == XA_HEURMIX) {
+      rc = TX_MIXED;
+    } else if (p.result != XA_OK && p.result != XA_HEURCOM && rc != TX_MIXED) {
+      rc = TX_HAZARD;
+    }
+  }
+  return rc;
 }
 
 int tx_commit() {
@@ -274,8 +302,7 @@ int tx_commit() {
   auto rc = _tx_end(&info, TMSUCCESS);
   getctxt().notrx();
   if (rc != TX_OK || info.transaction_state == TX_ROLLBACK_ONLY) {
-    rollback(&info.xid);
-    return change_state(TX_ROLLBACK);
+    return change_state(rollback(&info.xid));
   }
 
   std::vector<branch> branches1 = collect(&info.xid);
@@ -284,30 +311,29 @@ int tx_commit() {
 
   // Collect interested branches for the 2nd phase
   std::vector<branch> branches2;
-  bool commit = true;
+  bool prepared = true;
   for (auto &p : branches1) {
     if (p.result == XA_RDONLY) {
       // Nothing to do
       continue;
     }
     if (p.result != XA_OK) {
-      commit = false;
+      prepared = false;
     }
     branches2.push_back(p);
   }
 
-  if (commit) {
+  if (prepared) {
     persist_tlog(&info.xid, branches2);
   }
 
-  if (commit) {
-    command(branches2, &info.xid, fux::tm::commit);
+  if (prepared) {
+    rc = commit(branches2, &info.xid);
     clean_tlog(&info.xid);
-    return change_state(TX_OK);
   } else {
-    command(branches2, &info.xid, fux::tm::rollback);
-    return change_state(TX_ROLLBACK);
+    rc = rollback(branches2, &info.xid);
   }
+  return change_state(rc);
 }
 
 int tx_rollback() {
@@ -319,8 +345,8 @@ int tx_rollback() {
   TXINFO info;
   (void)_tx_end(&info, TMSUCCESS);
   getctxt().notrx();
-  rollback(&info.xid);
-  return change_state(TX_OK);
+  auto rc = rollback(&info.xid);
+  return change_state(rc == TX_ROLLBACK ? TX_OK : rc);
 }
 
 static int _tx_end(TXINFO *info, long flags) {
-- 
2.43.0


From 9d4ea8cb61910deb228e684624e08e100ecebc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:41 +0000
Subject: [PATCH 54/89] fix: no transaction could begin after the first hundred

Entries of transactions were not freed when they ended. With entries being
used again requests of a transaction that has ended must not join another
one.
---
 src/client.cpp |  1 +
 src/ipc.h      |  1 +
 src/server.cpp |  3 ++-
 src/trx.h      | 10 +++++++++-
 src/tx.cpp     | 33 +++++++++++++++++++++++++++------
 5 files changed, 40 insertions(+), 8 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 530bb2d..43ad644 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -94,6 +94,7 @@ class client {
     if (!(flags & TPNOTRAN) && fux::tx::transactional()) {
       rq->flags = TPTRAN;
       rq->gttid = fux::tx::gttid();
+      rq->uid = fux::tx::uid();
     } else {
       rq->flags = 0;
       rq->gttid = fux::bad_gttid;
diff --git a/src/ipc.h b/src/ipc.h
index eaf2945..140e073 100644
--- a/src/ipc.h
+++ b/src/ipc.h
@@ -63,6 +63,7 @@ struct msgfile : msgbase {
 struct msgmem : msgbase {
   char servicename[XATMI_SERVICE_NAME_LENGTH];
   fux::gttid gttid;
+  uint64_t uid;
   long flags;
   int cd;
   int replyq;
diff --git a/src/server.cpp b/src/server.cpp
index 6b39777..3b07eca 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -246,6 +246,7 @@ struct server_thread {
     res->mtype = req->mtype;
     res->cd = req->cd;
     res->gttid = req->gttid;
+    res->uid = req->uid;
 
     fux::ipc::qsend(msqid, res, 0, fux::ipc::flags::notime);
 
@@ -384,7 +385,7 @@ static void dispatch() {
 
     // System services do not belong to a group and do not take part
     if ((thread_ptr->req->flags & TPTRAN) && main_ptr->grpno != 0) {
-      if (!fux::tx_join(thread_ptr->req->gttid)) {
+      if (!fux::tx_join(thread_ptr->req->gttid, thread_ptr->req->uid)) {
         refuse_transaction(tpsvcinfo.name);
         continue;
       }
diff --git a/src/trx.h b/src/trx.h
index ac8bd7f..fd52676 100644
--- a/src/trx.h
+++ b/src/trx.h
@@ -14,13 +14,21 @@ namespace fux {
 
 namespace tx {
 fux::gttid gttid();
+uint64_t uid();
 bool transactional();
 }  // namespace tx
 void tx_resume();
 bool tx_suspend();
-bool tx_join(fux::gttid id);
+bool tx_join(fux::gttid id, uint64_t uid);
 bool tx_end(bool ok);
 
+// The unique part of identifiers of this domain
+inline uint64_t to_uid(const XID &xid) {
+  uint64_t uid;
+  memcpy(&uid, xid.data, sizeof(uid));
+  return uid;
+}
+
 inline std::string to_string(XID *xid) {
   char buf[32];
 
diff --git a/src/tx.cpp b/src/tx.cpp
index 4d8a726..c651dbd 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -245,18 +245,28 @@ static void clean_tlog(XID *xid) {
   // TODO
 }
 
+// Nobody can join the transaction from now on
 static std::vector<branch> collect(XID *xid) {
   std::vector<branch> branches;
-  auto max = getmib().transactions().max_groups;
-  auto &tx = getmib().transactions()[getmib().transactions().find(*xid)];
+  auto &m = getmib();
+  auto lock = m.data_lock();
+  auto max = m.transactions().max_groups;
+  auto &tx = m.transactions()[m.transactions().find(*xid)];
+  tx.state = transaction::finished;
   for (size_t group = 0; group < max; group++) {
     if (tx.groups[group] > 0) {
-      branches.push_back({getmib().groups().at(group).grpno});
+      branches.push_back({m.groups().at(group).grpno});
     }
   }
   return branches;
 }
 
+static void forget(XID *xid) {
+  auto lock = getmib().data_lock();
+  auto &transactions = getmib().transactions();
+  transactions.end(transactions.find(*xid));
+}
+
 static int _tx_end(TXINFO *info, long flags);
 
 // What became of a transaction that was to be rolled back
@@ -275,7 +285,9 @@ static int rollback(std::vector<branch> &branches, XID *xid) {
 
 static int rollback(XID *xid) {
   std::vector<branch> branches = collect(xid);
-  return rollback(branches, xid);
+  auto rc = rollback(branches, xid);
+  forget(xid);
+  return rc;
 }
 
 // What became of a transaction that was to be committed
@@ -333,6 +345,7 @@ int tx_commit() {
   } else {
     rc = rollback(branches2, &info.xid);
   }
+  forget(&info.xid);
   return change_state(rc);
 }
 
@@ -474,7 +487,7 @@ bool tx_suspend() {
   return true;
 }
 bool tx_end(bool ok) { return leave(ok); }
-bool tx_join(fux::gttid gttid) {
+bool tx_join(fux::gttid gttid, uint64_t uid) {
   auto &ctxt = getctxt();
   if (!(ctxt.state == tx_state::s1 || ctxt.state == tx_state::s2)) {
     userlog("Can't join a transaction in state %d", static_cast<int>(ctxt.state));
@@ -486,7 +499,14 @@ bool tx_join(fux::gttid gttid) {
   try {
     auto lock = getmib().data_lock();
     auto &transactions = getmib().transactions();
-    xid = transactions.at(gttid).xid;
+    auto &t = transactions.at(gttid);
+    xid = t.xid;
+    // The entry may be used by another transaction by now
+    if (xid.formatID == -1 || fux::to_uid(xid) != uid ||
+        t.state != transaction::active) {
+      userlog("Can't join a transaction that has ended");
+      return false;
+    }
     known = transactions.has_joined(gttid, fux::tx::grpidx);
     transactions.join(gttid, fux::tx::grpidx);
   } catch (const std::out_of_range &e) {
@@ -521,6 +541,7 @@ bool tx_join(fux::gttid gttid) {
 }
 namespace tx {
 fux::gttid gttid() { return getctxt().gttid; }
+uint64_t uid() { return to_uid(getctxt().info.xid); }
 bool transactional() { return !(getctxt().info.xid.formatID == -1); }
 }  // namespace tx
 };  // namespace fux
-- 
2.43.0


From 3b57a6eb508787233aec2dd6243bb99b028094d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:41 +0000
Subject: [PATCH 55/89] fix: calls made after tpresume were outside of the
 transaction

The number of the transaction was not restored, so that the servers called
could not join it. Unknown transactions were resumed.
---
 src/trx.cpp |  4 ++++
 src/tx.cpp  | 21 ++++++++++++++++++++-
 2 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/src/trx.cpp b/src/trx.cpp
index a097296..fe5a5e4 100644
--- a/src/trx.cpp
+++ b/src/trx.cpp
@@ -203,5 +203,9 @@ int tpresume(TPTRANID *tranid, long flags) {
     return 0;
   }
 
+  if (rc == TX_EINVAL) {
+    TPERROR(TPEINVAL, "Unknown transaction");
+    return -1;
+  }
   return trx_err(rc, "_tx_start");
 }
diff --git a/src/tx.cpp b/src/tx.cpp
index c651dbd..728a1e3 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -468,7 +468,26 @@ static int _tx_start(TXINFO *info, long flags) {
   return TX_FAIL;
 }
 
-int _tx_resume(TXINFO *info) { return _tx_start(info, TMRESUME); }
+int _tx_resume(TXINFO *info) {
+  if (!(getctxt().state == tx_state::s1 || getctxt().state == tx_state::s2)) {
+    return TX_PROTOCOL_ERROR;
+  }
+
+  fux::gttid gttid;
+  try {
+    auto lock = getmib().data_lock();
+    gttid = getmib().transactions().find(info->xid);
+  } catch (const std::out_of_range &e) {
+    userlog("Can't resume a transaction: %s", e.what());
+    return TX_EINVAL;
+  }
+
+  auto rc = _tx_start(info, TMRESUME);
+  if (rc == TX_OK) {
+    getctxt().gttid = gttid;
+  }
+  return rc;
+}
 
 int _tx_start(TXINFO *info) { return _tx_start(info, TMNOFLAGS); }
 
-- 
2.43.0


From 95fa31308a840299a275c08e5778d67fcd18bb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:41 +0000
Subject: [PATCH 56/89] fix: a refused tpbegin changed the transaction timeout

Also report a timeout out of range as TPEINVAL.
---
 src/trx.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/trx.cpp b/src/trx.cpp
index fe5a5e4..998445c 100644
--- a/src/trx.cpp
+++ b/src/trx.cpp
@@ -53,9 +53,18 @@ int tpbegin(unsigned long timeout, long flags) {
     return -1;
   }
 
-  int rc = tx_set_transaction_timeout(timeout);
-  if (rc == TX_OK) {
-    rc = tx_begin();
+  TXINFO info;
+  int rc = tx_info(&info);
+  if (rc == 1) {
+    rc = TX_PROTOCOL_ERROR;
+  } else if (rc == 0) {
+    rc = tx_set_transaction_timeout(timeout);
+    if (rc == TX_OK) {
+      rc = tx_begin();
+      if (rc != TX_OK) {
+        (void)tx_set_transaction_timeout(info.transaction_timeout);
+      }
+    }
   }
 
   if (rc == TX_OK) {
@@ -69,6 +78,8 @@ int tpbegin(unsigned long timeout, long flags) {
     TPERROR(TPETRAN, "tx_begin()=%d", rc);
   } else if (rc == TX_PROTOCOL_ERROR) {
     TPERROR(TPEPROTO, "tx_begin()=%d", rc);
+  } else if (rc == TX_EINVAL) {
+    TPERROR(TPEINVAL, "tx_begin()=%d", rc);
   } else {
     TPERROR(TPESYSTEM, "Unexpected tx_begin()=%d", rc);
   }
-- 
2.43.0


From 79ae2f2a1cc77a292ff5eb0a4dc286a67f17e5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:41 +0000
Subject: [PATCH 57/89] fix: tpcommit and tpabort hid the outcome of chained
 transactions

An outcome combined with the failure to begin the next transaction was
reported as TPESYSTEM.
---
 src/trx.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/trx.cpp b/src/trx.cpp
index 998445c..f44071b 100644
--- a/src/trx.cpp
+++ b/src/trx.cpp
@@ -104,6 +104,11 @@ int tpgetlev() {
   return -1;
 }
 
+// Outcome of the transaction, whether or not the next chained one has begun
+static int outcome(int rc) {
+  return rc <= TX_NO_BEGIN ? rc - TX_NO_BEGIN : rc;
+}
+
 static int trx_err(int rc, const char *func) {
   if (rc == TX_ERROR || rc == TX_FAIL) {
     TPERROR(TPERMERR, "%s()=%d", func, rc);
@@ -126,7 +131,7 @@ int tpabort(long flags) {
   }
 
   // TODO: clean call descriptors
-  int rc = tx_rollback();
+  int rc = outcome(tx_rollback());
 
   if (rc == TX_OK) {
     fux::atmi::reset_tperrno();
@@ -147,7 +152,7 @@ int tpcommit(long flags) {
   }
 
   // TODO: clean call descriptors, do rollback
-  int rc = tx_commit();
+  int rc = outcome(tx_commit());
 
   if (rc == TX_OK) {
     fux::atmi::reset_tperrno();
-- 
2.43.0


From 2c7d72d20d5f9a13e0b378cb7510ba42977f8598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:14 +0000
Subject: [PATCH 58/89] fix: work of requests that outlived their transaction
 was never undone

A branch can't be rolled back while a service is using it. Roll it back when
the service returns to find the transaction rolled back.
---
 src/tx.cpp | 41 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index 728a1e3..5006709 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -246,13 +246,13 @@ static void clean_tlog(XID *xid) {
 }
 
 // Nobody can join the transaction from now on
-static std::vector<branch> collect(XID *xid) {
+static std::vector<branch> collect(XID *xid, decltype(transaction::state) state) {
   std::vector<branch> branches;
   auto &m = getmib();
   auto lock = m.data_lock();
   auto max = m.transactions().max_groups;
   auto &tx = m.transactions()[m.transactions().find(*xid)];
-  tx.state = transaction::finished;
+  tx.state = state;
   for (size_t group = 0; group < max; group++) {
     if (tx.groups[group] > 0) {
       branches.push_back({m.groups().at(group).grpno});
@@ -271,6 +271,11 @@ static int _tx_end(TXINFO *info, long flags);
 
 // What became of a transaction that was to be rolled back
 static int rollback(std::vector<branch> &branches, XID *xid) {
+  {
+    auto lock = getmib().data_lock();
+    auto &transactions = getmib().transactions();
+    transactions[transactions.find(*xid)].state = transaction::do_rollback;
+  }
   command(branches, xid, fux::tm::rollback);
   int rc = TX_ROLLBACK;
   for (auto &p : branches) {
@@ -284,7 +289,7 @@ static int rollback(std::vector<branch> &branches, XID *xid) {
 }
 
 static int rollback(XID *xid) {
-  std::vector<branch> branches = collect(xid);
+  std::vector<branch> branches = collect(xid, transaction::do_rollback);
   auto rc = rollback(branches, xid);
   forget(xid);
   return rc;
@@ -317,7 +322,7 @@ int tx_commit() {
     return change_state(rollback(&info.xid));
   }
 
-  std::vector<branch> branches1 = collect(&info.xid);
+  std::vector<branch> branches1 = collect(&info.xid, transaction::preparing);
 
   command(branches1, &info.xid, fux::tm::prepare);
 
@@ -409,6 +414,26 @@ int _tx_suspend(TXINFO *info) {
   return rc;
 }
 
+// Those who rolled it back could not roll back a branch in use
+static bool abandoned(XID *xid) {
+  auto lock = getmib().data_lock();
+  auto &transactions = getmib().transactions();
+  try {
+    return transactions[transactions.find(*xid)].state ==
+           transaction::do_rollback;
+  } catch (const std::out_of_range &e) {
+    return true;
+  }
+}
+
+static void rm_rollback(XID *xid) {
+  userlog("xa_rollback(%s, %d, 0x%0lx) ...", fux::to_string(xid).c_str(),
+          fux::tx::grpno, TMNOFLAGS);
+  auto xarc = xasw->xa_rollback_entry(xid, fux::tx::grpno, TMNOFLAGS);
+  userlog("xa_rollback(%s, %d, 0x%0lx) = %d", fux::to_string(xid).c_str(),
+          fux::tx::grpno, TMNOFLAGS, xarc);
+}
+
 // False if the transaction can't be committed
 static bool leave(bool ok) {
   TXINFO info;
@@ -421,6 +446,9 @@ static bool leave(bool ok) {
   if (!joined) {
     userlog("Transaction begun by the service was not ended");
     rollback(&info.xid);
+  } else if (abandoned(&info.xid)) {
+    rm_rollback(&info.xid);
+    ok = false;
   }
   leave_transaction();
   return joined && ok && rc == TX_OK;
@@ -550,6 +578,11 @@ bool tx_join(fux::gttid gttid, uint64_t uid) {
   if (xarc != XA_OK) {
     return false;
   }
+  if (abandoned(&xid)) {
+    xasw->xa_end_entry(&xid, fux::tx::grpno, TMFAIL);
+    rm_rollback(&xid);
+    return false;
+  }
 
   ctxt.info.xid = xid;
   ctxt.gttid = gttid;
-- 
2.43.0


From 1b298f9afca4d2d016ca26e95bec159dc927eabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:32 +0000
Subject: [PATCH 59/89] fix: tpcall suspended its transaction twice

It waits for the reply with tpgetrply, which suspends the transaction as well;
a resource manager refuses to suspend a branch that is suspended already.
---
 src/tx.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tx.cpp b/src/tx.cpp
index 5006709..86763b4 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -73,6 +73,7 @@ struct tx_context {
     joined = false;
   }
   tx_state state;
+  bool suspended = false;  // For the time of a call
   bool joined = false;  // The transaction was begun and will be ended by others
   group *grpcfg = nullptr;
   TXINFO info;
@@ -522,15 +523,20 @@ int _tx_start(TXINFO *info) { return _tx_start(info, TMNOFLAGS); }
 namespace fux {
 // The transaction stays current while suspended for the time of a call
 void tx_resume() {
+  getctxt().suspended = false;
   if (rm_start(&getctxt().info.xid, TMRESUME) != XA_OK) {
     getctxt().info.transaction_state = TX_ROLLBACK_ONLY;
   }
 }
 bool tx_suspend() {
+  if (getctxt().suspended) {
+    return false;
+  }
   if (_tx_end(nullptr, TMSUSPEND) != TX_OK) {
     getctxt().info.transaction_state = TX_ROLLBACK_ONLY;
     return false;
   }
+  getctxt().suspended = true;
   return true;
 }
 bool tx_end(bool ok) { return leave(ok); }
-- 
2.43.0


From de2d3f17a7ac6dd0ac0782118fb5498d955fe446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:32 +0000
Subject: [PATCH 60/89] fix: branches could join a transaction that is being
 committed

A service that was about to start its branch while the transaction managers
prepared the others did so in a branch that nobody would ever commit.
---
 src/tx.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/tx.cpp b/src/tx.cpp
index 86763b4..1509623 100644
--- a/src/tx.cpp
+++ b/src/tx.cpp
@@ -415,18 +415,22 @@ int _tx_suspend(TXINFO *info) {
   return rc;
 }
 
-// Those who rolled it back could not roll back a branch in use
-static bool abandoned(XID *xid) {
+static decltype(transaction::state) state_of(XID *xid) {
   auto lock = getmib().data_lock();
   auto &transactions = getmib().transactions();
   try {
-    return transactions[transactions.find(*xid)].state ==
-           transaction::do_rollback;
+    return transactions[transactions.find(*xid)].state;
   } catch (const std::out_of_range &e) {
-    return true;
+    return transaction::finished;
   }
 }
 
+// Those who rolled it back could not roll back a branch in use
+static bool abandoned(XID *xid) {
+  auto state = state_of(xid);
+  return state == transaction::do_rollback || state == transaction::finished;
+}
+
 static void rm_rollback(XID *xid) {
   userlog("xa_rollback(%s, %d, 0x%0lx) ...", fux::to_string(xid).c_str(),
           fux::tx::grpno, TMNOFLAGS);
@@ -584,7 +588,8 @@ bool tx_join(fux::gttid gttid, uint64_t uid) {
   if (xarc != XA_OK) {
     return false;
   }
-  if (abandoned(&xid)) {
+  // Its branches are being prepared, there must be no new ones
+  if (state_of(&xid) != transaction::active) {
     xasw->xa_end_entry(&xid, fux::tx::grpno, TMFAIL);
     rm_rollback(&xid);
     return false;
-- 
2.43.0


From 37eba6945c0e244d4fe39c5410bc31906d7fcb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 61/89] fix: tmboot and tmshutdown act on the selected servers
 only

---
 src/mib.cpp        | 11 +++++++++++
 src/mib.h          |  2 ++
 src/tmboot.cpp     |  2 +-
 src/tmshutdown.cpp |  4 ++--
 4 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/mib.cpp b/src/mib.cpp
index 2ca7685..23c48b9 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -248,6 +248,17 @@ size_t mib::group_index(const std::string_view &srvgrp) {
   return badoff;
 }
 
+bool mib::selected(const server &srv, const std::string &grpname, int srvid) {
+  if (srvid != -1 && srvid != srv.srvid) {
+    return false;
+  }
+  if (grpname.empty()) {
+    return true;
+  }
+  auto idx = group_index(grpname);
+  return idx != badoff && groups().at(idx).grpno == srv.grpno;
+}
+
 size_t mib::find_group(uint16_t grpno) {
   for (size_t i = 0; i < groups()->len; i++) {
     auto &group = groups().at(i);
diff --git a/src/mib.h b/src/mib.h
index ffe41de..79b8368 100644
--- a/src/mib.h
+++ b/src/mib.h
@@ -167,6 +167,8 @@ class mib {
   }
 
   size_t group_index(const std::string_view &srvgrp);
+  // Does the server have the SRVGRP and SRVID given on the command line?
+  bool selected(const server &srv, const std::string &grpname, int srvid);
   size_t server_index(uint16_t srvid, size_t group_idx);
 
   size_t find_server(uint16_t srvid, uint16_t grpno);
diff --git a/src/tmboot.cpp b/src/tmboot.cpp
index 8814da1..49080ae 100644
--- a/src/tmboot.cpp
+++ b/src/tmboot.cpp
@@ -125,7 +125,7 @@ int main(int argc, char *argv[]) {
     auto servers = m.servers();
     for (size_t i = 0; i < servers->len; i++) {
       auto &srv = servers[i];
-      if (srv.autostart) {
+      if (srv.autostart && m.selected(srv, grpname, srvid)) {
         start(srv, no, d1);
       }
     }
diff --git a/src/tmshutdown.cpp b/src/tmshutdown.cpp
index 87c7174..2bbecb6 100644
--- a/src/tmshutdown.cpp
+++ b/src/tmshutdown.cpp
@@ -54,7 +54,7 @@ int main(int argc, char *argv[]) {
 
     for (int i = servers->len - 1; i >= 0; i--) {
       auto &server = servers[i];
-      if (srvid != -1 && srvid != server.srvid) {
+      if (!m.selected(server, grpname, srvid)) {
         continue;
       }
       if (server.pid == 0) {
@@ -96,7 +96,7 @@ int main(int argc, char *argv[]) {
     }
 
     tpterm();
-    if (srvid == -1) {
+    if (srvid == -1 && grpname.empty()) {
       m.remove();
     }
   } catch (const std::exception &e) {
-- 
2.43.0


From 1e141608553ac2d7b461c35078920f19b8b704e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:56 +0000
Subject: [PATCH 62/89] fix: tmshutdown does not wait for servers that are dead

---
 src/BBL.cpp        | 3 +--
 src/mib.cpp        | 6 ++++++
 src/mib.h          | 2 ++
 src/tmshutdown.cpp | 6 ++++++
 4 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/BBL.cpp b/src/BBL.cpp
index 73210fd..1d312ef 100644
--- a/src/BBL.cpp
+++ b/src/BBL.cpp
@@ -73,8 +73,7 @@ static void monitor_servers() {
     if (!alive(pid)) {
       auto lock = m.data_lock();
       if (server.pid == pid) {
-        server.pid = 0;
-        m.unadvertise_all(i);
+        m.dead(i);
       }
     }
   }
diff --git a/src/mib.cpp b/src/mib.cpp
index 23c48b9..4467bc8 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -202,6 +202,12 @@ void mib::unadvertise_all(size_t server) {
   }
 }
 
+void mib::dead(size_t server) {
+  servers().at(server).pid = 0;
+  servers().at(server).state = state_t::INActive;
+  unadvertise_all(server);
+}
+
 bool mib::advertised(const std::string &servicename, size_t queue) {
   auto service = find_service(servicename);
   if (service == badoff) {
diff --git a/src/mib.h b/src/mib.h
index 79b8368..b57d710 100644
--- a/src/mib.h
+++ b/src/mib.h
@@ -150,6 +150,8 @@ class mib {
   void unadvertise(const std::string &servicename, size_t queue, size_t server);
   void unadvertise_all(size_t server);
   bool advertised(const std::string &servicename, size_t queue);
+  // The process of the server is gone
+  void dead(size_t server);
 
   size_t find_queue(const std::string &rqaddr);
   size_t make_queue(const std::string &rqaddr);
diff --git a/src/tmshutdown.cpp b/src/tmshutdown.cpp
index 2bbecb6..463d831 100644
--- a/src/tmshutdown.cpp
+++ b/src/tmshutdown.cpp
@@ -63,6 +63,12 @@ int main(int argc, char *argv[]) {
       if (server.is_inactive()) {
         continue;
       }
+      if (!alive(server.pid)) {
+        // Nobody is there to answer
+        auto lock = m.data_lock();
+        m.dead(i);
+        continue;
+      }
       server.suspend();
       auto &queue = queues.at(server.rqaddr);
 
-- 
2.43.0


From c2dbda395904ae66e90717b5a5792944b9ba43de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:22 +0000
Subject: [PATCH 63/89] fix: bad management requests were not answered with an
 error or ended BBL

---
 include/tpadm     |  5 +++++
 include/tpadm.h   |  5 +++++
 src/BBL.cpp       | 12 ++++++++++--
 src/fux.h         |  2 ++
 src/tpadmcall.cpp | 29 ++++++++++++++++++++++++-----
 5 files changed, 46 insertions(+), 7 deletions(-)

diff --git a/include/tpadm b/include/tpadm
index 158bb78..bf05bec 100644
--- a/include/tpadm
+++ b/include/tpadm
@@ -29,6 +29,11 @@ $// TAPARTIAL a partial update was successfully made to the application.
 $#define TAOK       0
 $#define TAUPDATED  1
 $#define TAPARTIAL  2
+$// TAEINVAL invalid value in a field, TAEREQUIRED a required field is
+$// missing, TAESYSTEM anything else
+$#define TAEINVAL -3
+$#define TAEREQUIRED -8
+$#define TAESYSTEM -10
 TA_SRVGRP                          11 string     -
 TA_GRPNO                           12 long       -
 TA_LMID                            13 string     -
diff --git a/include/tpadm.h b/include/tpadm.h
index 2290fd8..5dadbfa 100644
--- a/include/tpadm.h
+++ b/include/tpadm.h
@@ -31,6 +31,11 @@ int tpadmcall(FBFR32 *inbuf, FBFR32 **outbuf, long flags);
 #define TAOK 0
 #define TAUPDATED 1
 #define TAPARTIAL 2
+// TAEINVAL invalid value in a field, TAEREQUIRED a required field is
+// missing, TAESYSTEM anything else
+#define TAEINVAL -3
+#define TAEREQUIRED -8
+#define TAESYSTEM -10
 #define TA_SRVGRP ((FLDID32)83886191)    // TA_SRVGRP	111	string	     -
 #define TA_GRPNO ((FLDID32)16777328)     // TA_GRPNO	112	long	       -
 #define TA_LMID ((FLDID32)83886193)      // TA_LMID	113	string	     -
diff --git a/src/BBL.cpp b/src/BBL.cpp
index 1d312ef..cc6e2e5 100644
--- a/src/BBL.cpp
+++ b/src/BBL.cpp
@@ -115,10 +115,18 @@ int tpsvrinit(int, char *[]) {
 }
 
 extern "C" void TMIB(TPSVCINFO *svcinfo) {
+  char type[8];
+  if (svcinfo->data == nullptr ||
+      tptypes(svcinfo->data, type, nullptr) == -1 ||
+      strncmp(type, "FML32", sizeof(type)) != 0) {
+    userlog("Management requests must be in FML32 buffers");
+    tpreturn(TPFAIL, 0, nullptr, 0, 0);
+  }
+
   fux::fml32buf rq(svcinfo);
   fux::fml32buf rs;
 
-  tpadmcall(rq.ptr(), rs.ptrptr(), 0);
+  auto rc = tpadmcall(rq.ptr(), rs.ptrptr(), 0);
 
-  fux::tpreturn(TPSUCCESS, 0, rs);
+  fux::tpreturn(rc == -1 ? TPFAIL : TPSUCCESS, 0, rs);
 }
diff --git a/src/fux.h b/src/fux.h
index 258c952..c7ca461 100644
--- a/src/fux.h
+++ b/src/fux.h
@@ -151,6 +151,8 @@ class fml32buf {
     return *this;
   }
 
+  void clear() { buf_.reinit(); }
+
   FLDOCC32 count(FLDID32 fieldid) { return Foccur32(ptr(), fieldid); }
 
   FBFR32 *ptr() const { return buf_.ptr(); }
diff --git a/src/tpadmcall.cpp b/src/tpadmcall.cpp
index 9fd2949..2d68424 100644
--- a/src/tpadmcall.cpp
+++ b/src/tpadmcall.cpp
@@ -2,6 +2,7 @@
 // Copyright (C) 2018 Aivars Kalvans <aivars.kalvans@gmail.com>
 
 #include <tpadm.h>
+#include <userlog.h>
 #include <xatmi.h>
 
 #include "fux.h"
@@ -259,18 +260,36 @@ static std::map<std::tuple<std::string, std::string>,
                    {{"T_GROUP", "GET"}, t_group_get},
                    {{"T_QUEUE", "GET"}, t_queue_get}};
 
+static int failed(fml32buf &out, long err) {
+  out.clear();
+  out.put(TA_ERROR, 0, err);
+  TPERROR(TPESVCFAIL, "Request failed with TA_ERROR=%ld", err);
+  return -1;
+}
+
 int tpadmcall(FBFR32 *inbuf, FBFR32 **outbuf, long flags) {
   fml32buf in(&inbuf);
   fml32buf out(outbuf);
+  out.clear();
 
-  auto klass = in.get<std::string>(TA_CLASS, 0);
-  auto operation = in.get<std::string>(TA_OPERATION, 0);
+  auto klass = in.get(TA_CLASS, 0, "");
+  auto operation = in.get(TA_OPERATION, 0, "");
+  if (klass.empty() || operation.empty()) {
+    return failed(out, TAEREQUIRED);
+  }
 
   auto func = implemented.find({klass, operation});
   if (func == implemented.end()) {
-  } else {
-    func->second(in, out);
+    return failed(out, TAEINVAL);
   }
 
-  return -1;
+  try {
+    auto lock = getmib().data_lock();
+    func->second(in, out);
+  } catch (const std::exception &e) {
+    userlog("%s of %s failed: %s", operation.c_str(), klass.c_str(), e.what());
+    return failed(out, TAESYSTEM);
+  }
+  fux::atmi::reset_tperrno();
+  return 0;
 }
-- 
2.43.0


From 14dd876d8e30c6cd751c449c2a1c2dd2880e3a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:22 +0000
Subject: [PATCH 64/89] fix: T_SERVER reported the group of somebody else

---
 src/mib.cpp       | 1 +
 src/tpadmcall.cpp | 6 ++++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mib.cpp b/src/mib.cpp
index 4467bc8..ec48a86 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -323,6 +323,7 @@ size_t mib::make_server(uint16_t srvid, uint16_t grpno,
   auto &server = servers().at(servers()->len);
   server.srvid = srvid;
   server.grpno = grpno;
+  server.group_idx = find_group(grpno);
   checked_copy(servername, server.servername);
   checked_copy(clopt, server.clopt);
 
diff --git a/src/tpadmcall.cpp b/src/tpadmcall.cpp
index 2d68424..2b68e0e 100644
--- a/src/tpadmcall.cpp
+++ b/src/tpadmcall.cpp
@@ -138,10 +138,12 @@ static void t_server_get(fml32buf &in, fml32buf &out) {
   for (size_t i = 0; i < srv.length(); i++) {
     auto &server = srv.at(i);
 
-    out.put(TA_SRVGRP, oc, m.groups().at(server.group_idx).srvgrp);
+    // BBL does not belong to a group
+    out.put(TA_SRVGRP, oc,
+            server.grpno != 0 ? m.groups().at(server.group_idx).srvgrp : "");
     out.put(TA_SRVID, oc, server.srvid);
     out.put(TA_SERVERNAME, oc, server.servername);
-    out.put(TA_GRPNO, oc, m.groups().at(server.group_idx).grpno);
+    out.put(TA_GRPNO, oc, server.grpno);
     out.put(TA_STATE, oc, to_string(server.state));
     out.put(TA_BASESRVID, oc, server.basesrvid);
     out.put(TA_CLOPT, oc, server.clopt);
-- 
2.43.0


From 2f42e276f0bcd65bf8b2aea8855c07c463b0a9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:22 +0000
Subject: [PATCH 65/89] fix: T_SVCGRP failed once a service was unadvertised

---
 src/tpadmcall.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tpadmcall.cpp b/src/tpadmcall.cpp
index 2b68e0e..5b16d6a 100644
--- a/src/tpadmcall.cpp
+++ b/src/tpadmcall.cpp
@@ -179,6 +179,9 @@ static void t_svcgrp_get(fml32buf &in, fml32buf &out) {
   FLDOCC32 oc = 0;
   for (size_t i = 0; i < svcgrp.length(); i++) {
     auto &adv = svcgrp.at(i);
+    if (adv.state == state_t::INValid) {
+      continue;
+    }
     auto &service = m.services().at(adv.service);
     out.put(TA_SERVICENAME, oc, service.servicename);
     //    out.put(TA_SRVGRP, oc,
-- 
2.43.0


From f10d04d65cf27c332c91f3c1742f2ed96102c0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:22 +0000
Subject: [PATCH 66/89] fix: services nobody offers were reported as active

---
 src/mib.cpp | 19 +++++++++++++++++--
 src/mib.h   |  1 +
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/mib.cpp b/src/mib.cpp
index ec48a86..c57c1c7 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -171,6 +171,21 @@ void mib::advertise(const std::string &servicename, size_t queue,
   services().at(service).modified();
 }
 
+// Somebody stopped offering the service
+void mib::withdrawn(size_t service) {
+  bool offered = false;
+  for (size_t i = 0; i < advertisements()->len; i++) {
+    if (advertisements().at(i).service == service) {
+      offered = true;
+      break;
+    }
+  }
+  if (!offered) {
+    services().at(service).state = state_t::INActive;
+  }
+  services().at(service).modified();
+}
+
 void mib::unadvertise(const std::string &servicename, size_t queue,
                       size_t server) {
   auto service = find_service(servicename);
@@ -186,7 +201,7 @@ void mib::unadvertise(const std::string &servicename, size_t queue,
   advertisement.state = state_t::INValid;
   advertisement.service = advertisement.queue = advertisement.server = badoff;
 
-  services().at(service).modified();
+  withdrawn(service);
 }
 
 void mib::unadvertise_all(size_t server) {
@@ -197,7 +212,7 @@ void mib::unadvertise_all(size_t server) {
       advertisement.state = state_t::INValid;
       advertisement.service = advertisement.queue = advertisement.server =
           badoff;
-      services().at(service).modified();
+      withdrawn(service);
     }
   }
 }
diff --git a/src/mib.h b/src/mib.h
index b57d710..51a3031 100644
--- a/src/mib.h
+++ b/src/mib.h
@@ -198,6 +198,7 @@ class mib {
  private:
   size_t find_advertisement(size_t service, size_t queue, size_t server);
   void init_memory();
+  void withdrawn(size_t service);
 
   tuxconfig cfg_;
   int shmid_;
-- 
2.43.0


From 122881b27eae34f211289fb3a4ff44c654ed4e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:22 +0000
Subject: [PATCH 67/89] fix: T_DOMAIN reported no MASTER

---
 src/ubb2mib.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ubb2mib.cpp b/src/ubb2mib.cpp
index 0b4d3b1..7115339 100644
--- a/src/ubb2mib.cpp
+++ b/src/ubb2mib.cpp
@@ -79,6 +79,7 @@ void ubb2mib(ubbconfig &u, mib &m) {
 
   auto &domain = m.domain();
   domain.ipckey = m.conf().ipckey;
+  checked_copy(u.resources["MASTER"], domain.master);
   domain.maxservers = m.conf().maxservers;
   domain.maxservices = m.conf().maxservices;
   domain.maxqueues = m.conf().maxqueues;
-- 
2.43.0


From 01ea2e1cfb3a59cf7e8bde544072ead5efa275e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:00 +0000
Subject: [PATCH 68/89] fix: servers that were never started were reported as
 invalid

---
 src/mib.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mib.cpp b/src/mib.cpp
index c57c1c7..28f1f92 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -339,6 +339,7 @@ size_t mib::make_server(uint16_t srvid, uint16_t grpno,
   server.srvid = srvid;
   server.grpno = grpno;
   server.group_idx = find_group(grpno);
+  server.state = state_t::INActive;
   checked_copy(servername, server.servername);
   checked_copy(clopt, server.clopt);
 
-- 
2.43.0


From c09f9c5cbbd84349bf5eeecea6d7fe9c4da589bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:40 +0000
Subject: [PATCH 69/89] fix: a client beyond MAXACCESSERS harmed the others and
 was told that it joined

---
 src/client.cpp | 20 ++++++++++++++++----
 src/mib.cpp    |  5 ++++-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/client.cpp b/src/client.cpp
index 43ad644..a0647fb 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -352,13 +352,26 @@ static client &getclient() {
   return *current_client;
 }
 
+static int attach() {
+  return fux::atmi::exception_boundary(
+      [&] {
+        try {
+          getclient();
+        } catch (const std::out_of_range &) {
+          TPERROR(TPENOENT, "No room for one more, see MAXACCESSERS");
+          return -1;
+        }
+        return 0;
+      },
+      -1);
+}
+
 int tpinit(TPINIT *tpinfo) {
   if (fux::is_server()) {
     TPERROR(TPEPROTO, "%s called from server", __func__);
     return -1;
   }
-  fux::atmi::exception_boundary([&] { getclient(); });
-  return 0;
+  return attach();
 }
 
 int tpterm() {
@@ -375,8 +388,7 @@ int tpappthrinit(TPINIT *tpinfo) {
     TPERROR(TPEPROTO, "%s called from client", __func__);
     return -1;
   }
-  fux::atmi::exception_boundary([&] { getclient(); });
-  return 0;
+  return attach();
 }
 
 int tpappthrterm() {
diff --git a/src/mib.cpp b/src/mib.cpp
index 28f1f92..ba0dd35 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -375,9 +375,12 @@ size_t mib::make_accesser(pid_t pid) {
     }
   }
   if (at == -1) {
-    at = accessers()->len++;
+    at = accessers()->len;
   }
   auto &accesser = accessers().at(at);
+  if (size_t(at) == accessers()->len) {
+    accessers()->len++;
+  }
   accesser.rpid_timeout = INVALID_TIME;
   accesser.pid = pid;
   return at;
-- 
2.43.0


From 5e8145f95509f7fcd3dbbe9322d81369f9ec2c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:40 +0000
Subject: [PATCH 70/89] fix: queues of somebody else were removed for clients
 without one

---
 src/BBL.cpp | 5 ++---
 src/mib.cpp | 1 +
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/BBL.cpp b/src/BBL.cpp
index cc6e2e5..ea546ba 100644
--- a/src/BBL.cpp
+++ b/src/BBL.cpp
@@ -89,11 +89,10 @@ static void monitor_clients() {
       continue;
     }
     if (!alive(accesser.pid)) {
-      accesser.pid = 0;
-      if (accesser.rpid != 0) {
+      if (accesser.rpid != -1) {
         fux::ipc::qdelete(accesser.rpid);
-        accesser.rpid = 0;
       }
+      accesser.invalidate();
     }
   }
 }
diff --git a/src/mib.cpp b/src/mib.cpp
index ba0dd35..14471da 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -382,6 +382,7 @@ size_t mib::make_accesser(pid_t pid) {
     accessers()->len++;
   }
   accesser.rpid_timeout = INVALID_TIME;
+  accesser.rpid = -1;
   accesser.pid = pid;
   return at;
 }
-- 
2.43.0


From 3dd38256b355bf6dc232a2ec63007d2d915c30e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:13 +0000
Subject: [PATCH 71/89] fix: one client could keep the watchdog from looking
 after the others

---
 src/BBL.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/BBL.cpp b/src/BBL.cpp
index ea546ba..08eca79 100644
--- a/src/BBL.cpp
+++ b/src/BBL.cpp
@@ -42,6 +42,7 @@ int main(int argc, char **argv) {
 
 static void handle_blocktime() {
   mib &m = getmib();
+  auto lock = m.data_lock();
   auto now = std::chrono::steady_clock::now();
 
   auto accessers = m.accessers();
@@ -55,7 +56,8 @@ static void handle_blocktime() {
       req->cat = fux::ipc::unblock;
       userlog("Sending unblock message to client=%d queue=%0x", int(i),
               acc.rpid);
-      fux::ipc::qsend(acc.rpid, req, 0, fux::ipc::flags::notime);
+      // A full queue has something to wake up for
+      fux::ipc::qsend(acc.rpid, req, 0, fux::ipc::flags::noblock);
     }
   }
 }
@@ -81,6 +83,7 @@ static void monitor_servers() {
 
 static void monitor_clients() {
   mib &m = getmib();
+  auto lock = m.data_lock();
   auto accessers = m.accessers();
 
   for (int i = accessers->len - 1; i >= 0; i--) {
@@ -101,9 +104,13 @@ static void run_watchdog() {
   while (true) {
     std::this_thread::sleep_for(std::chrono::seconds(1));
 
-    handle_blocktime();
-    monitor_servers();
-    monitor_clients();
+    try {
+      handle_blocktime();
+      monitor_servers();
+      monitor_clients();
+    } catch (const std::exception &e) {
+      userlog("Watchdog failed: %s", e.what());
+    }
   }
 }
 
-- 
2.43.0


From b4d0bb5cd2c66d57cfc338913f0d1b50c66d37ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:28 +0000
Subject: [PATCH 72/89] fix: a client that got no queue kept its place

---
 src/client.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/client.cpp b/src/client.cpp
index a0647fb..baa883c 100644
--- a/src/client.cpp
+++ b/src/client.cpp
@@ -48,7 +48,12 @@ class client {
       : mibcon_(mibcon), repo_(mibcon), blocktime_next(0), blocktime_all(0) {
     auto lock = mibcon_.data_lock();
     client_ = mibcon_.make_accesser(getpid());
-    rpid = mibcon_.accessers().at(client_).rpid = fux::ipc::qcreate();
+    try {
+      rpid = mibcon_.accessers().at(client_).rpid = fux::ipc::qcreate();
+    } catch (...) {
+      mibcon_.accessers().at(client_).invalidate();
+      throw;
+    }
   }
 
   ~client() {
-- 
2.43.0


From 848257f74cf96f33ce4c9415a12bb2b8c70c4afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:46 +0000
Subject: [PATCH 73/89] fix: SCANUNIT in seconds was refused and in other units
 ignored

---
 src/ubb2mib.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ubb2mib.cpp b/src/ubb2mib.cpp
index 7115339..aac34ec 100644
--- a/src/ubb2mib.cpp
+++ b/src/ubb2mib.cpp
@@ -69,7 +69,8 @@ void ubb2mib(ubbconfig &u, mib &m) {
   // scanunit to milliseconds
   std::transform(scanunit.begin(), scanunit.end(), scanunit.begin(),
                  [](unsigned char c) { return std::tolower(c); });
-  if (scanunit.compare(scanunit.size() - 2, 2, "ms")) {
+  if (scanunit.size() > 2 &&
+      scanunit.compare(scanunit.size() - 2, 2, "ms") == 0) {
     scanunit = scanunit.substr(0, scanunit.size() - 2);
   } else {
     scanunit += "000";
-- 
2.43.0


From fa8ebda5ee45a6c714f567b13528ac980dc39efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:46 +0000
Subject: [PATCH 74/89] fix: numbers in the configuration followed by something
 else, negative and zero keys and times were accepted

---
 src/tmloadcf.cpp | 11 +++++------
 src/ubb.h        | 21 +++++++++++++++++++++
 src/ubb2mib.cpp  | 17 ++++++-----------
 3 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/tmloadcf.cpp b/src/tmloadcf.cpp
index 9999622..67d53a6 100644
--- a/src/tmloadcf.cpp
+++ b/src/tmloadcf.cpp
@@ -5,6 +5,7 @@
 #include <cstdlib>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <string>
 #include <system_error>
 
@@ -30,11 +31,7 @@ long require(T &dict, const std::string &key, long min, long max,
     return defvalue;
     //    throw std::out_of_range(key + " required");
   }
-  auto value = std::stol(dict[key]);
-  if (value < min || value > max) {
-    throw std::out_of_range(key + " out of range");
-  }
-  return value;
+  return ubb_number(key, dict[key], min, max);
 }
 
 int main(int argc, char *argv[]) {
@@ -74,7 +71,9 @@ int main(int argc, char *argv[]) {
 
     tuxconfig tuxcfg;
     tuxcfg.size = sizeof(tuxcfg) + fs::file_size(file);
-    tuxcfg.ipckey = std::stoi(config.resources.at("IPCKEY"));
+    tuxcfg.ipckey = ubb_number(
+        "IPCKEY", config.resources.at("IPCKEY"), 1,
+        std::numeric_limits<int>::max());
     tuxcfg.maxservers = require(config.resources, "MAXSERVERS", 1, 8192, 50);
     tuxcfg.maxservices =
         require(config.resources, "MAXSERVICES", 1, 1048575, 100);
diff --git a/src/ubb.h b/src/ubb.h
index c7cb9e2..3ab69fb 100644
--- a/src/ubb.h
+++ b/src/ubb.h
@@ -4,6 +4,8 @@
 
 #include <cstdint>
 #include <map>
+#include <stdexcept>
+#include <string>
 #include <vector>
 
 typedef std::map<std::string, std::string> ubb_params;
@@ -26,6 +28,25 @@ struct ubbconfig {
         } {}
 };
 
+// Value of a parameter that must be a number
+inline long ubb_number(const std::string &key, const std::string &value,
+                       long min, long max) {
+  size_t end = 0;
+  long number = 0;
+  try {
+    number = std::stol(value, &end);
+  } catch (const std::invalid_argument &) {
+    end = 0;
+  }
+  if (value.empty() || end != value.size()) {
+    throw std::invalid_argument(key + " is not a number");
+  }
+  if (number < min || number > max) {
+    throw std::out_of_range(key + " out of range");
+  }
+  return number;
+}
+
 // "Binary" version of ubbconfig
 // Really just some significant info at fixed offsets and then the text version
 // ubbconfig
diff --git a/src/ubb2mib.cpp b/src/ubb2mib.cpp
index aac34ec..b90445e 100644
--- a/src/ubb2mib.cpp
+++ b/src/ubb2mib.cpp
@@ -4,6 +4,7 @@
 #include <cstdlib>
 #include <functional>  //std::hash
 #include <iostream>
+#include <limits>
 
 #include "fux.h"
 #include "mib.h"
@@ -15,11 +16,7 @@ static long checked_get(T &dict, const std::string &key, long min, long max) {
   if (dict.find(key) == dict.end()) {
     throw std::out_of_range(key + " required");
   }
-  auto value = std::stol(dict[key]);
-  if (value < min || value > max) {
-    throw std::out_of_range(key + " out of range");
-  }
-  return value;
+  return ubb_number(key, dict[key], min, max);
 }
 
 template <typename T>
@@ -28,11 +25,7 @@ static long checked_get(T &dict, const std::string &key, long min, long max,
   if (dict.find(key) == dict.end()) {
     return defvalue;
   }
-  auto value = std::stol(dict[key]);
-  if (value < min || value > max) {
-    throw std::out_of_range(key + " out of range");
-  }
-  return value;
+  return ubb_number(key, dict[key], min, max);
 }
 
 void ubb2mib(ubbconfig &u, mib &m) {
@@ -76,7 +69,9 @@ void ubb2mib(ubbconfig &u, mib &m) {
     scanunit += "000";
   }
 
-  m.mach().blocktime = std::stol(blocktime) * std::stol(scanunit);
+  constexpr long max = std::numeric_limits<int>::max();
+  m.mach().blocktime = ubb_number("BLOCKTIME", blocktime, 1, max) *
+                       ubb_number("SCANUNIT", scanunit, 1, max);
 
   auto &domain = m.domain();
   domain.ipckey = m.conf().ipckey;
-- 
2.43.0


From a4ee9fcca5125764691baaae8412a7ce440c3a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:46 +0000
Subject: [PATCH 75/89] fix: MAXSERVICES beyond 65535 was truncated

---
 src/mib.cpp    | 10 ++++++++--
 src/mibtypes.h |  2 +-
 src/ubb.h      |  2 +-
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mib.cpp b/src/mib.cpp
index 14471da..73b7a6e 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -9,6 +9,7 @@
 #include <limits>
 #include <memory>
 #include <mutex>
+#include <new>
 #include <stdexcept>
 #include <string>
 
@@ -105,7 +106,8 @@ size_t mib::needed(const tuxconfig &cfg) {
          nearest64(cfg.maxservers * sizeof(server)) +
          nearest64(cfg.maxqueues * sizeof(queue)) +
          nearest64(cfg.maxservices * sizeof(service)) +
-         nearest64(cfg.maxservers * cfg.maxservices * sizeof(advertisement)) +
+         nearest64(size_t(cfg.maxservers) * cfg.maxservices *
+                   sizeof(advertisement)) +
          nearest64(cfg.maxgroups * sizeof(group)) +
          nearest64(cfg.maxaccessers * sizeof(accesser)) +
          nearest64(transaction_table::needed(100, cfg.maxgroups));
@@ -118,7 +120,8 @@ void mib::init_memory() {
   off +=
       init(mem_->services, cfg_.maxservices, off - offsetof(mibmem, services));
   off += init(mem_->groups, cfg_.maxgroups, off - offsetof(mibmem, groups));
-  off += init(mem_->advertisements, cfg_.maxservers * cfg_.maxservices,
+  off += init(mem_->advertisements,
+              size_t(cfg_.maxservers) * cfg_.maxservices,
               off - offsetof(mibmem, advertisements));
   off += init(mem_->accessers, cfg_.maxaccessers,
               off - offsetof(mibmem, accessers));
@@ -541,6 +544,9 @@ mib::mib(const tuxconfig &cfg) : cfg_(cfg) {
 
 mib::mib(const tuxconfig &cfg, fux::mib::in_heap) : cfg_(cfg) {
   mem_ = reinterpret_cast<mibmem *>(calloc(1, needed(cfg_)));
+  if (mem_ == nullptr) {
+    throw std::bad_alloc();
+  }
   init_memory();
 }
 
diff --git a/src/mibtypes.h b/src/mibtypes.h
index 96872b5..f972247 100644
--- a/src/mibtypes.h
+++ b/src/mibtypes.h
@@ -36,7 +36,7 @@ struct t_domain {
 
   uint32_t trantime;
   uint16_t maxservers;
-  uint16_t maxservices;
+  uint32_t maxservices;
   uint16_t maxqueues;
   uint16_t maxgroups;
   uint16_t maxaccessers;
diff --git a/src/ubb.h b/src/ubb.h
index 3ab69fb..e1fa9de 100644
--- a/src/ubb.h
+++ b/src/ubb.h
@@ -54,7 +54,7 @@ struct tuxconfig {
   size_t size;  // Size and "signature" at the same time
   uint32_t ipckey;
   uint16_t maxservers;
-  uint16_t maxservices;
+  uint32_t maxservices;
   uint16_t maxqueues;
   uint16_t maxgroups;
   uint16_t maxaccessers;
-- 
2.43.0


From a394ce794f37ffb24dffbfa367641bee174bf92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:46 +0000
Subject: [PATCH 76/89] fix: MAX below MIN and beyond the range of SRVID was
 accepted, MIN without MAX ignored

---
 src/ubb2mib.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ubb2mib.cpp b/src/ubb2mib.cpp
index b90445e..ce18bf8 100644
--- a/src/ubb2mib.cpp
+++ b/src/ubb2mib.cpp
@@ -118,7 +118,10 @@ void ubb2mib(ubbconfig &u, mib &m) {
   for (auto &srvconf : u.servers) {
     auto basesrvid = checked_get(srvconf.second, "SRVID", 1, 30000);
     auto min = checked_get(srvconf.second, "MIN", 1, 1000, 1);
-    auto max = checked_get(srvconf.second, "MAX", 1, 1000, 1);
+    auto max = checked_get(srvconf.second, "MAX", min, 1000, min);
+    if (basesrvid + max - 1 > 30000) {
+      throw std::out_of_range("SRVID of the last server out of range");
+    }
     auto minthreads =
         checked_get(srvconf.second, "MINDISPATCHTHREADS", 1, 1000, 1);
     auto maxthreads =
-- 
2.43.0


From 4ebc89f5e4c0e6d168b4bea4db108bc077650ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:46 +0000
Subject: [PATCH 77/89] fix: groups with the same name were accepted

---
 src/ubb2mib.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ubb2mib.cpp b/src/ubb2mib.cpp
index ce18bf8..a5fe8b9 100644
--- a/src/ubb2mib.cpp
+++ b/src/ubb2mib.cpp
@@ -98,6 +98,9 @@ void ubb2mib(ubbconfig &u, mib &m) {
   for (auto &grpconf : u.groups) {
     auto grpno = checked_get(grpconf.second, "GRPNO", 1, 30000);
 
+    if (group_ids.count(grpconf.first) != 0) {
+      throw std::logic_error("Duplicate group name " + grpconf.first);
+    }
     auto &group = groups.at(
         m.make_group(grpno, grpconf.first, grpconf.second["OPENINFO"],
                      grpconf.second["CLOSEINFO"], grpconf.second["TMSNAME"]));
-- 
2.43.0


From d5a78845eb555d4893442bb2b4521d12a2f08600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:59 +0000
Subject: [PATCH 78/89] fix: tmloadcf replaced the stored configuration by one
 it refused, with -n and when it could not be written

---
 src/tmloadcf.cpp | 36 +++++++++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/src/tmloadcf.cpp b/src/tmloadcf.cpp
index 67d53a6..41ab55c 100644
--- a/src/tmloadcf.cpp
+++ b/src/tmloadcf.cpp
@@ -34,6 +34,25 @@ long require(T &dict, const std::string &key, long min, long max,
   return ubb_number(key, dict[key], min, max);
 }
 
+// Replaces the stored configuration only when everything was written
+static void store(const std::string &outfile, const tuxconfig &tuxcfg,
+                  std::ifstream &fin) {
+  auto tmpfile = outfile + ".new";
+  try {
+    std::ofstream fout;
+    fout.exceptions(std::ofstream::failbit | std::ofstream::badbit);
+    fout.open(tmpfile, std::ios::binary | std::ios::trunc);
+    fout.write(reinterpret_cast<const char *>(&tuxcfg), sizeof(tuxcfg));
+    fout << fin.rdbuf();
+    fout.close();
+    fs::rename(tmpfile, outfile);
+  } catch (...) {
+    std::error_code ignored;
+    fs::remove(tmpfile, ignored);
+    throw;
+  }
+}
+
 int main(int argc, char *argv[]) {
   bool show_help = false;
   bool noop = false;
@@ -82,18 +101,17 @@ int main(int argc, char *argv[]) {
     tuxcfg.maxaccessers =
         require(config.resources, "MAXACCESSERS", 1, 32768, 100);
 
-    std::ofstream fout(outfile, std::ios::binary);
-    fout.write(reinterpret_cast<char *>(&tuxcfg), sizeof(tuxcfg));
-
-    fin.clear();
-    fin.seekg(0);
-    fout << fin.rdbuf();
-
-    //    tuxcfg.maxqueues = std::stoi(config.resources.at("MAXQUEUES"));
-
     mib m(tuxcfg, fux::mib::in_heap());
 
     ubb2mib(config, m);
+
+    if (noop) {
+      return 0;
+    }
+
+    fin.clear();
+    fin.seekg(0);
+    store(outfile, tuxcfg, fin);
   } catch (const std::system_error &e) {
     std::cerr << e.code().message() << std::endl;
     return -1;
-- 
2.43.0


From 353c81a47890f9bc776c76971099a3a65bd458c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:59 +0000
Subject: [PATCH 79/89] fix: processes that attached at the same time saw or
 made incomplete tables

---
 src/mib.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mib.cpp b/src/mib.cpp
index 73b7a6e..33160ae 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -508,6 +508,8 @@ mib &getmib() {
   if (!mibcon.get()) {
     auto cfg = getconfig();
     mibcon = std::make_unique<mib>(cfg);
+    // One process loads the tables, the others wait until they are complete
+    auto loading = mibcon->data_lock();
     if (mibcon->servers()->len == 0) {
       ubbconfig u;
       getconfig(&u);
-- 
2.43.0


From f9c3df3464fb75fe550b3376f1a910a6e6441f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:15 +0000
Subject: [PATCH 80/89] fix: a line of blanks after the parameters of an object
 was refused

---
 src/ubbreader.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ubbreader.h b/src/ubbreader.h
index 0d75c0e..7828d2f 100644
--- a/src/ubbreader.h
+++ b/src/ubbreader.h
@@ -89,9 +89,10 @@ class ubbreader : public basic_parser {
       whitespace();
       // Continued on next line
       if (accept('\n')) {
-        if (!whitespace()) {
+        if (!whitespace() || eof()) {
           return true;
         }
+        continue;
       }
 
       std::string key, value;
-- 
2.43.0


From 86c9a0364b7fa79458838f7a54b72add5eddd937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:42 +0000
Subject: [PATCH 81/89] fix: lookups in field tables while another mapping is
 loaded, field numbers out of range

---
 src/fbfr32fld.h  | 29 +++++++++++++++++++++--------
 src/fieldtbl32.h |  8 ++++++--
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/fbfr32fld.h b/src/fbfr32fld.h
index 7e3db98..0d77eaf 100644
--- a/src/fbfr32fld.h
+++ b/src/fbfr32fld.h
@@ -47,7 +47,7 @@ struct Fbfr32fields {
       Ferror32 = FTYPERR;
       return -1;
     }
-    if (num < 1) {
+    if (num < 1 || num > 0xffffff) {
       Ferror32 = FBADFLD;
       return -1;
     }
@@ -105,9 +105,13 @@ struct Fbfr32fields {
 
     field_table_parser p(fields);
     p.parse();
-    for (auto field : p.fields()) {
-      id_to_name.insert(make_pair(field.fieldid, field.name));
-      name_to_id.insert(make_pair(field.name, field.fieldid));
+    for (auto &field : p.fields()) {
+      if (!id_to_name_loaded) {
+        id_to_name.insert(make_pair(field.fieldid, field.name));
+      }
+      if (!name_to_id_loaded) {
+        name_to_id.insert(make_pair(field.name, field.fieldid));
+      }
     }
 
     return true;
@@ -126,11 +130,17 @@ struct Fbfr32fields {
 
     std::unique_lock<std::shared_timed_mutex> lock(mutex);
 
-    id_to_name.clear();
-    name_to_id.clear();
+    if (id_to_name_loaded && name_to_id_loaded) {
+      return;
+    }
 
-    id_to_name_loaded = true;
-    name_to_id_loaded = true;
+    // Only mappings not loaded: names in a loaded one may be in use
+    if (!id_to_name_loaded) {
+      id_to_name.clear();
+    }
+    if (!name_to_id_loaded) {
+      name_to_id.clear();
+    }
 
     for (auto &fname : files) {
       for (auto &dname : dirs) {
@@ -139,5 +149,8 @@ struct Fbfr32fields {
         }
       }
     }
+
+    id_to_name_loaded = true;
+    name_to_id_loaded = true;
   }
 };
diff --git a/src/fieldtbl32.h b/src/fieldtbl32.h
index 339eb0b..09fad17 100644
--- a/src/fieldtbl32.h
+++ b/src/fieldtbl32.h
@@ -89,8 +89,12 @@ class field_table_parser : public basic_parser {
                                        "double, string, carray, fml32");
         }
 
-        fields_.push_back(
-            {fname, Fmkfldid32(t->second, base_ + std::stol(num)), c});
+        auto number = base_ + std::stol(num);
+        if (number < 1 || number > 0xffffff) {
+          throw basic_parser_error("field number out of range", row_, num);
+        }
+
+        fields_.push_back({fname, Fmkfldid32(t->second, number), c});
         entries_.push_back(
             {nullptr, nullptr, std::make_unique<field>(fields_.back())});
       } else {
-- 
2.43.0


From e6ad937ba9f150da353a62ce1bc4a3b1dfc60875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:44 +0000
Subject: [PATCH 82/89] fix: userlog() overran its buffer with long messages
 and mixed them with entries of other processes

---
 src/userlog.cpp | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/userlog.cpp b/src/userlog.cpp
index 978c6e3..6afdda1 100644
--- a/src/userlog.cpp
+++ b/src/userlog.cpp
@@ -53,26 +53,39 @@ int userlog(const char *fmt, ...) {
   }
   auto _ = gsl::finally([&] { fclose(fout); });
 
-  char buf[BUFSIZ];
-  ssize_t n;
+  char prefix[BUFSIZ];
   if (millisec) {
-    n = snprintf(buf, sizeof(buf),
-                 "%02d%02d%02d.%03d.%s:%s.%d: ", timeinfo.tm_hour,
-                 timeinfo.tm_min, timeinfo.tm_sec, int(tv.tv_usec / 1000),
-                 nodename.c_str(), proc_name, getpid());
+    snprintf(prefix, sizeof(prefix),
+             "%02d%02d%02d.%03d.%s:%s.%d: ", timeinfo.tm_hour,
+             timeinfo.tm_min, timeinfo.tm_sec, int(tv.tv_usec / 1000),
+             nodename.c_str(), proc_name, getpid());
   } else {
-    n = snprintf(buf, sizeof(buf), "%02d%02d%02d.%s:%s.%d: ", timeinfo.tm_hour,
-                 timeinfo.tm_min, timeinfo.tm_sec, nodename.c_str(), proc_name,
-                 getpid());
+    snprintf(prefix, sizeof(prefix), "%02d%02d%02d.%s:%s.%d: ",
+             timeinfo.tm_hour, timeinfo.tm_min, timeinfo.tm_sec,
+             nodename.c_str(), proc_name, getpid());
   }
 
   va_list ap;
   va_start(ap, fmt);
-  n += vsnprintf(buf + n, sizeof(buf) - n - 1, fmt, ap);
+  auto n = vsnprintf(nullptr, 0, fmt, ap);
   va_end(ap);
-  buf[n++] = '\n';
-  buf[n] = 0;
-  fwrite(buf, n, 1, fout);
+  if (n < 0) {
+    return -1;
+  }
+
+  std::string entry(prefix);
+  auto text = entry.size();
+  entry.resize(text + n + 1);
+  va_start(ap, fmt);
+  vsnprintf(&entry[text], n + 1, fmt, ap);
+  va_end(ap);
+  entry.back() = '\n';
+
+  // A single write to not mix with entries of other processes
+  setvbuf(fout, nullptr, _IONBF, 0);
+  if (fwrite(entry.data(), entry.size(), 1, fout) != 1) {
+    return -1;
+  }
 
   return 0;
 }
-- 
2.43.0


From 9d27b634bc2c69bbf6163d9e80d3d4f831679854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:15 +0000
Subject: [PATCH 83/89] fix: converting an array of characters to its own type
 added a byte

---
 src/fml32.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fml32.cpp b/src/fml32.cpp
index 1ca0a52..1efb89e 100644
--- a/src/fml32.cpp
+++ b/src/fml32.cpp
@@ -452,6 +452,9 @@ char *Ftypcvt32(FLDLEN32 *tolen, int totype, char *fromval, int fromtype,
         } else if (fromtype == FLD_CARRAY) {
           auto from = std::string(fromval, fromlen);
           TYPCVTS;
+          if (totype == FLD_CARRAY) {
+            *tolen = fromlen;
+          }
         } else {
           FERROR(FEBADOP, "");
           return nullptr;
-- 
2.43.0


From 7a936d3b1ef8c9fc7d30b784e401c8408931bef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:15 +0000
Subject: [PATCH 84/89] fix: CFget32 wrote into a buffer of no length

---
 src/fml32.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fml32.cpp b/src/fml32.cpp
index 1efb89e..13fbcae 100644
--- a/src/fml32.cpp
+++ b/src/fml32.cpp
@@ -550,7 +550,8 @@ int CFget32(FBFR32 *fbfr, FLDID32 fieldid, FLDOCC32 oc, char *buf,
 
   FLDLEN32 rlen = 0;
   FLDLEN32 local_flen;
-  if (len == nullptr) {
+  bool limited = len != nullptr;
+  if (!limited) {
     len = &local_flen;
   } else {
     rlen = *len;
@@ -559,7 +560,7 @@ int CFget32(FBFR32 *fbfr, FLDID32 fieldid, FLDOCC32 oc, char *buf,
   if (res == nullptr) {
     return -1;
   }
-  if (rlen != 0 && *len > rlen) {
+  if (limited && *len > rlen) {
     FERROR(FNOSPACE, "");
     return -1;
   }
-- 
2.43.0


From 94025de275d192721be40b764c9a72467e83dafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:15 +0000
Subject: [PATCH 85/89] fix: CFfindocc32 took converted values for regular
 expressions

---
 src/fml32.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fml32.cpp b/src/fml32.cpp
index 13fbcae..20116ef 100644
--- a/src/fml32.cpp
+++ b/src/fml32.cpp
@@ -519,6 +519,10 @@ FLDOCC32 CFfindocc32(FBFR32 *fbfr, FLDID32 fieldid, char *value, FLDLEN32 len,
   if (cvtvalue == nullptr) {
     return -1;
   }
+  if (Fldtype32(fieldid) == FLD_STRING) {
+    // Only a string given with its length is a regular expression
+    flen = type == FLD_STRING ? len : 0;
+  }
   return fux::fml32::exception_boundary(
       [&] { return fbfr->findocc(fieldid, cvtvalue, flen); }, -1);
 }
-- 
2.43.0


From 17ae0b17ebd72795ec19d720a9792462f7d09f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:55 +0000
Subject: [PATCH 86/89] fix: viewc32 kept the extension in names of headers for
 views in other directories

---
 src/viewc32.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/viewc32.cpp b/src/viewc32.cpp
index 0764278..7707384 100644
--- a/src/viewc32.cpp
+++ b/src/viewc32.cpp
@@ -22,15 +22,13 @@ static void process_file(const std::string &file, bool no_fml,
 
   std::ofstream fout;
   auto slash = file.find_last_of('/');
-  if (slash == std::string::npos) {
-    slash = 0;
-  }
+  auto start = slash == std::string::npos ? 0 : slash + 1;
   auto dot = file.find_last_of('.');
-  if (dot != std::string::npos && dot < slash) {
-    dot = std::string::npos;
+  if (dot == std::string::npos || dot < start) {
+    dot = file.size();
   }
   fout.exceptions(std::ifstream::failbit | std::ifstream::badbit);
-  fout.open(output_directory + "/" + file.substr(slash, dot) + ".h");
+  fout.open(output_directory + "/" + file.substr(start, dot - start) + ".h");
 
   for (auto &i : p.entries()) {
     if (i.r) {
-- 
2.43.0


From e39ee393072540fa7370f6f9a786467a2a1ec9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:55 +0000
Subject: [PATCH 87/89] fix: viewc32 accepted fields outside of the view and
 generated broken headers

---
 src/view32.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/view32.h b/src/view32.h
index d757c45..591af9f 100644
--- a/src/view32.h
+++ b/src/view32.h
@@ -58,7 +58,7 @@ class view_parser : public basic_parser {
       std::string first;
       if (field_name(&first)) {
         if (first == "END") {
-          if (name_.empty()) {
+          if (name_.empty() || done_) {
             throw basic_parser_error("No view definition", row_,
                                      "VIEW\tVIEWNAME\nEND");
           }
@@ -77,6 +77,10 @@ class view_parser : public basic_parser {
         entries_.push_back(
           {nullptr, nullptr, std::make_unique<std::string>(name_), nullptr});
         } else {
+          if (name_.empty() || done_) {
+            throw basic_parser_error("Field outside of view definition", row_,
+                                     "VIEW\tVIEWNAME\nEND");
+          }
           std::string type = first;
 
           std::string cname, fbname, count, flag, size, nullv;
-- 
2.43.0


From 8683cd50cc4cb98a225168176eb09251d5ab7109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:44 +0000
Subject: [PATCH 88/89] fix: files of large messages in removed queues stayed
 behind

---
 src/mib.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mib.cpp b/src/mib.cpp
index 33160ae..f1f5561 100644
--- a/src/mib.cpp
+++ b/src/mib.cpp
@@ -485,7 +485,7 @@ void mib::collect(std::vector<int> &q, std::vector<int> &m,
 void mib::remove(std::vector<int> &q, std::vector<int> &m,
                  std::vector<int> &s) {
   for (int i : q) {
-    msgctl(i, IPC_RMID, NULL);
+    fux::ipc::qdelete(i);
   }
   for (int i : s) {
     fux::ipc::semrm(i);
-- 
2.43.0


From 9b5f0676cec8b1860083beea29900c7d94d27950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:49 +0000
Subject: [PATCH 89/89] fix: a message that could not be stored left a file and
 an open descriptor behind

---
 src/ipc.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ipc.cpp b/src/ipc.cpp
index 93f6bb7..1cae351 100644
--- a/src/ipc.cpp
+++ b/src/ipc.cpp
@@ -185,10 +185,18 @@ bool qsend(int msqid, msg &data, long timeout, enum flags flags) {
     char tmpname[] = "/tmp/msgbase-XXXXXX";
     int fd = mkstemp(tmpname);
     fail_if(fd == -1);
-    fail_if(write(fd, data.buf() + sizeof(msgbase),
-                  data.size() - sizeof(msgbase)) !=
-            data.size() - sizeof(msgbase));
-    fail_if(close(fd) == -1);
+    auto len_file = data.size() - sizeof(msgbase);
+    ssize_t n = write(fd, data.buf() + sizeof(msgbase), len_file);
+    auto err = n == -1 ? errno : ENOSPC;
+    if (close(fd) == -1 && n == ssize_t(len_file)) {
+      n = -1;
+      err = errno;
+    }
+    if (n != ssize_t(len_file)) {
+      unlink(tmpname);
+      throw std::system_error(err, std::system_category(),
+                              "Failed to store message");
+    }
 
     msgfile fmsg;
     fmsg.mtype = data->mtype;
-- 
2.43.0

