From 6635dbfc2c3d0475a6f5cc0c2258c9881c314bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:42 +0000
Subject: [PATCH 01/52] fix: reading uncompressed records larger than the read
 buffer never ended

---
 spoc/io.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spoc/io.h b/spoc/io.h
index f41f265..ce76e58 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -99,10 +99,6 @@ inline point_record::point_records read_uncompressed_points (std::istream &s,
     const size_t total_points,
     const size_t extra_fields)
 {
-    // Allocate the buffer
-    const size_t buffer_size = 1 * 1024;
-    std::vector<char> buffer (buffer_size);
-
     // Determine sizes
     const size_t struct_size =
         sizeof(double) // x
@@ -116,6 +112,12 @@ inline point_record::point_records read_uncompressed_points (std::istream &s,
         + sizeof(uint16_t); // b
     const size_t extra_size = extra_fields * sizeof(uint64_t);
     const size_t record_size = struct_size + extra_size;
+
+    // Allocate the buffer
+    //
+    // It must be able to hold at least one record
+    const size_t buffer_size = std::max<size_t> (1 * 1024, record_size);
+    std::vector<char> buffer (buffer_size);
     const size_t records_per_buffer = buffer_size / record_size;
 
     // Allocate the records
-- 
2.43.0


From efd41f75a2914dd582cb07cecae9c13ad7a91366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:35 +0000
Subject: [PATCH 02/52] fix: compressed files lost the sign of negative zeros

---
 spoc/io.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/spoc/io.h b/spoc/io.h
index ce76e58..9e6684a 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -8,6 +8,7 @@
 #include <algorithm>
 #include <cmath>
 #include <cstdint>
+#include <cstring>
 #include <fstream>
 #include <iomanip>
 #include <iostream>
@@ -25,8 +26,11 @@ namespace io
 template<typename T>
 inline bool all_zero (const std::vector<T> &x)
 {
+    // Compare representations instead of values because -0.0 == 0.0, but
+    // the sign must not get lost
+    const T zero = 0;
     if (std::any_of (x.begin (), x.end (),
-        [](const T &i) { return i != 0; }))
+        [&](const T &i) { return std::memcmp (&i, &zero, sizeof(T)) != 0; }))
         return false;
     return true;
 }
-- 
2.43.0


From a66e51f835a68aa3d15f2308728e62b601cc3889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:16 +0000
Subject: [PATCH 03/52] fix: undefined behaviour when compressing or
 decompressing empty vectors

---
 spoc/compression.h | 6 +++---
 spoc/io.h          | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/spoc/compression.h b/spoc/compression.h
index 2b4605e..3f78fc2 100644
--- a/spoc/compression.h
+++ b/spoc/compression.h
@@ -112,7 +112,7 @@ inline std::vector<uint8_t> compress (const uint8_t *p, const size_t nbytes, con
 
 inline std::vector<uint8_t> compress (const std::vector<uint8_t> &input, const int level = -1)
 {
-    return compress (&input[0], input.size (), level);
+    return compress (input.data (), input.size (), level);
 }
 
 inline void compress (std::istream &is, std::ostream &os, const int level)
@@ -156,7 +156,7 @@ inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
 
     // Get bytes directory from input vector
     inflator.s.avail_in = input.size ();
-    inflator.s.next_in = const_cast<unsigned char *> (&input[0]);
+    inflator.s.next_in = const_cast<unsigned char *> (input.data ());
 
     do {
         inflator.s.avail_out = BUFFER_SIZE;
@@ -190,7 +190,7 @@ inline void decompress (const std::vector<uint8_t> &input, uint8_t *output, cons
     if (d.size () != output_bytes)
         throw std::runtime_error ("Can't decompress: unexpected number of decompressed bytes");;
     // GCOV_EXCL_STOP
-    std::copy (&d[0], &d[0] + output_bytes, output);
+    std::copy (d.begin (), d.end (), output);
 }
 
 inline void decompress (std::istream &is, std::ostream &os)
diff --git a/spoc/io.h b/spoc/io.h
index 9e6684a..27f13c0 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -86,11 +86,11 @@ inline std::vector<T> read_compressed (std::istream &s, const size_t size)
 
     // Read compressed bytes
     std::vector<uint8_t> c (n);
-    s.read (reinterpret_cast<char *> (&c[0]), n);
+    s.read (reinterpret_cast<char *> (c.data ()), n);
 
     // Decompress
     std::vector<T> x (size);
-    spoc::compression::decompress (c, reinterpret_cast<uint8_t *> (&x[0]), x.size () * sizeof(T));
+    spoc::compression::decompress (c, reinterpret_cast<uint8_t *> (x.data ()), x.size () * sizeof(T));
 
     return x;
 }
-- 
2.43.0


From 30175515b70d416ae35f8e6fdaea1a636a1ccf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:03 +0000
Subject: [PATCH 04/52] fix: undefined behaviour when encoding or decoding an
 empty vector of points

---
 spoc/point.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spoc/point.h b/spoc/point.h
index 82048a7..4c2cc69 100644
--- a/spoc/point.h
+++ b/spoc/point.h
@@ -182,7 +182,7 @@ inline std::vector<uint8_t> encode_points (const std::vector<point<T>> &points)
     // Output bytes
     std::vector<uint8_t> bytes;
     // Encode the points (NOT PORTABLE)
-    const uint8_t *pd = reinterpret_cast<const uint8_t *> (&points[0]);
+    const uint8_t *pd = reinterpret_cast<const uint8_t *> (points.data ());
     bytes.insert (bytes.end (), pd, pd + points.size () * sizeof(point<T>));
     return bytes;
 }
@@ -196,7 +196,7 @@ inline std::vector<point<T>> decode_points (const std::vector<uint8_t> &bytes)
     // Decoded points
     std::vector<point<T>> points;
     // Decode the points (NOT PORTABLE)
-    const point<T> *pc = reinterpret_cast<const point<T> *> (&bytes[0]);
+    const point<T> *pc = reinterpret_cast<const point<T> *> (bytes.data ());
     const size_t total_points = bytes.size () / sizeof(point<T>);
     points.insert (points.end (), pc, pc + total_points);
     return points;
-- 
2.43.0


From 0562f5890b4379fb4d3a86c2d77a19d243f1b471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:21 +0000
Subject: [PATCH 05/52] fix: truncated headers were accepted as complete ones

---
 spoc/header.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spoc/header.h b/spoc/header.h
index c76d2ce..aef2301 100644
--- a/spoc/header.h
+++ b/spoc/header.h
@@ -154,7 +154,7 @@ inline header read_header (std::istream &s)
 {
     header h;
     s.read (reinterpret_cast<char*>(&h.signature), 4 * sizeof(char));
-    if (!h.check_signature ())
+    if (!s || !h.check_signature ())
         throw std::runtime_error ("Invalid spoc file format");
     s.read (reinterpret_cast<char*>(&h.major_version), sizeof(uint8_t));
     if (h.major_version != MAJOR_VERSION)
@@ -172,6 +172,8 @@ inline header read_header (std::istream &s)
     s.read (reinterpret_cast<char*>(&h.extra_fields), sizeof(uint8_t));
     s.read (reinterpret_cast<char*>(&h.total_points), sizeof(uint64_t));
     s.read (reinterpret_cast<char*>(&h.compressed), sizeof(uint8_t));
+    if (!s)
+        throw std::runtime_error ("Could not read the spoc file header");
     return h;
 }
 
-- 
2.43.0


From c1763a483ff01339aea31106bba8383456a64bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:15 +0000
Subject: [PATCH 06/52] fix: truncated point data was accepted as complete

---
 spoc/io.h           | 6 ++++++
 spoc/point_record.h | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/spoc/io.h b/spoc/io.h
index 27f13c0..36ffdb5 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -79,6 +79,8 @@ inline std::vector<T> read_compressed (std::istream &s, const size_t size)
     // Get number of compressed bytes
     uint64_t n = 0;
     s.read (reinterpret_cast<char*>(&n), sizeof(uint64_t));
+    if (!s)
+        throw std::runtime_error ("Could not read the compressed field length");
 
     // If a '0' was written, the vector is empty
     if (n == 0)
@@ -87,6 +89,8 @@ inline std::vector<T> read_compressed (std::istream &s, const size_t size)
     // Read compressed bytes
     std::vector<uint8_t> c (n);
     s.read (reinterpret_cast<char *> (c.data ()), n);
+    if (!s)
+        throw std::runtime_error ("Could not read the compressed field");
 
     // Decompress
     std::vector<T> x (size);
@@ -136,6 +140,8 @@ inline point_record::point_records read_uncompressed_points (std::istream &s,
             ? records_per_buffer
             : total_points - i;
         s.read (&buffer[0], total_records * record_size);
+        if (!s)
+            throw std::runtime_error ("Could not read the point records");
 
         // Convert from raw memory to record
         for (size_t j = 0; j < total_records; ++j)
diff --git a/spoc/point_record.h b/spoc/point_record.h
index c6353e3..6336ddd 100644
--- a/spoc/point_record.h
+++ b/spoc/point_record.h
@@ -158,6 +158,8 @@ inline point_record read_point_record (std::istream &s, const size_t extra_field
         + sizeof(uint16_t));
     if (p.extra.size () != 0)
         s.read (reinterpret_cast<char*>(&p.extra[0]), p.extra.size () * sizeof(uint64_t));
+    if (!s)
+        throw std::runtime_error ("Could not read a point record");
     return p;
 }
 
-- 
2.43.0


From ab92b7f7c6af2ec9a56bb764995794f534b96f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:33 +0000
Subject: [PATCH 07/52] fix: incomplete deflate data was decompressed without
 an error

---
 spoc/compression.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/spoc/compression.h b/spoc/compression.h
index 3f78fc2..148a265 100644
--- a/spoc/compression.h
+++ b/spoc/compression.h
@@ -158,10 +158,11 @@ inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
     inflator.s.avail_in = input.size ();
     inflator.s.next_in = const_cast<unsigned char *> (input.data ());
 
+    int ret = Z_OK;
     do {
         inflator.s.avail_out = BUFFER_SIZE;
         inflator.s.next_out = &output_buffer[0];
-        const auto ret = inflate (&inflator.s, Z_NO_FLUSH);
+        ret = inflate (&inflator.s, Z_NO_FLUSH);
         switch (ret)
         {
             // GCOV_EXCL_START
@@ -180,6 +181,10 @@ inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
             output_buffer.begin () + decompressed_bytes);
     } while (inflator.s.avail_out == 0);
 
+    // The end of the data must have been reached
+    if (ret != Z_STREAM_END)
+        throw std::runtime_error (zlib_error_string (Z_DATA_ERROR));
+
     return output;
 }
 
@@ -208,8 +213,9 @@ inline void decompress (std::istream &is, std::ostream &os)
         inflator.s.avail_in = is.gcount();
 
         // GCOV_EXCL_START
+        // The input ended before the end of the data was reached
         if (inflator.s.avail_in == 0)
-            break;
+            throw std::runtime_error (zlib_error_string (Z_DATA_ERROR));
         // GCOV_EXCL_STOP
 
         inflator.s.next_in = &input_buffer[0];
-- 
2.43.0


From 69bb9a1bdeeb4aefbbe78b11f665bbaf8a59f3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:10 +0000
Subject: [PATCH 08/52] fix: only the low 32 bits of the size were compressed
 or decompressed

---
 spoc/compression.h | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/spoc/compression.h b/spoc/compression.h
index 148a265..1452f0a 100644
--- a/spoc/compression.h
+++ b/spoc/compression.h
@@ -1,8 +1,10 @@
 #pragma once
 
+#include <algorithm>
 #include <cassert>
 #include <cstdint>
 #include <iostream>
+#include <limits>
 #include <stdexcept>
 #include <string>
 #include <vector>
@@ -90,14 +92,23 @@ inline std::vector<uint8_t> compress (const uint8_t *p, const size_t nbytes, con
     zlib_deflator deflator (level);
 
     // Get bytes directly from the input vector
-    deflator.s.avail_in = nbytes;
+    //
+    // 'avail_in' can't hold more than 32 bits
+    size_t remaining = nbytes;
+    deflator.s.avail_in = 0;
     deflator.s.next_in = const_cast<unsigned char *> (p);
 
     do {
+        if (deflator.s.avail_in == 0)
+        {
+            deflator.s.avail_in = std::min<size_t> (remaining, std::numeric_limits<uInt>::max ());
+            remaining -= deflator.s.avail_in;
+        }
+
         // Compress from input to output buffer
         deflator.s.avail_out = BUFFER_SIZE;
         deflator.s.next_out = &output_buffer[0];
-        deflate (&deflator.s, Z_FINISH);
+        deflate (&deflator.s, remaining == 0 ? Z_FINISH : Z_NO_FLUSH);
         const auto compressed_bytes = BUFFER_SIZE - deflator.s.avail_out;
 
         // Save compressed bytes
@@ -105,7 +116,7 @@ inline std::vector<uint8_t> compress (const uint8_t *p, const size_t nbytes, con
         output.insert (output.end (),
             output_buffer.begin (),
             output_buffer.begin () + compressed_bytes);
-    } while (deflator.s.avail_out == 0);
+    } while (deflator.s.avail_out == 0 || deflator.s.avail_in != 0 || remaining != 0);
 
     return output;
 }
@@ -155,11 +166,20 @@ inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
     zlib_inflator inflator;
 
     // Get bytes directory from input vector
-    inflator.s.avail_in = input.size ();
+    //
+    // 'avail_in' can't hold more than 32 bits
+    size_t remaining = input.size ();
+    inflator.s.avail_in = 0;
     inflator.s.next_in = const_cast<unsigned char *> (input.data ());
 
     int ret = Z_OK;
     do {
+        if (inflator.s.avail_in == 0)
+        {
+            inflator.s.avail_in = std::min<size_t> (remaining, std::numeric_limits<uInt>::max ());
+            remaining -= inflator.s.avail_in;
+        }
+
         inflator.s.avail_out = BUFFER_SIZE;
         inflator.s.next_out = &output_buffer[0];
         ret = inflate (&inflator.s, Z_NO_FLUSH);
@@ -179,7 +199,7 @@ inline std::vector<uint8_t> decompress (const std::vector<uint8_t> &input)
         output.insert (output.end (),
             output_buffer.begin (),
             output_buffer.begin () + decompressed_bytes);
-    } while (inflator.s.avail_out == 0);
+    } while (inflator.s.avail_out == 0 || (ret != Z_STREAM_END && remaining != 0));
 
     // The end of the data must have been reached
     if (ret != Z_STREAM_END)
-- 
2.43.0


From 51f0263eba56ea31197f521c02edfca78777d979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:00 +0000
Subject: [PATCH 09/52] fix: a header with an overlong WKT was written with a
 wrong length

---
 spoc/header.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spoc/header.h b/spoc/header.h
index aef2301..7c47ed6 100644
--- a/spoc/header.h
+++ b/spoc/header.h
@@ -134,7 +134,7 @@ inline bool operator!= (const header &a, const header &b)
 /// @param h Header struct
 inline void write_header (std::ostream &s, const header &h)
 {
-    if (!h.check_signature ())
+    if (!h.is_valid ())
         throw std::runtime_error ("Invalid spoc file format");
     s.write (reinterpret_cast<const char*>(h.signature), 4 * sizeof(char));
     s.write (reinterpret_cast<const char*>(&h.major_version), sizeof(uint8_t));
-- 
2.43.0


From 06a14cf2b61c831018986346098c35dd94c6d939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:55 +0000
Subject: [PATCH 10/52] fix: failures to write a spoc file were not reported

---
 spoc/header.h       | 2 ++
 spoc/io.h           | 4 ++++
 spoc/point_record.h | 2 ++
 3 files changed, 8 insertions(+)

diff --git a/spoc/header.h b/spoc/header.h
index 7c47ed6..7a9d7d3 100644
--- a/spoc/header.h
+++ b/spoc/header.h
@@ -146,6 +146,8 @@ inline void write_header (std::ostream &s, const header &h)
     s.write (reinterpret_cast<const char*>(&h.total_points), sizeof(uint64_t));
     s.write (reinterpret_cast<const char*>(&h.compressed), sizeof(uint8_t));
     s.flush ();
+    if (!s)
+        throw std::runtime_error ("Could not write the spoc file header");
 }
 
 /// I/O function
diff --git a/spoc/io.h b/spoc/io.h
index 36ffdb5..2ead6f0 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -383,6 +383,10 @@ inline void write_spoc_file_compressed (std::ostream &s, const spoc::file::spoc_
 
     for (size_t j = 0; j < extras.size (); ++j)
         write_compressed (s, extras[j]);
+
+    s.flush ();
+    if (!s)
+        throw std::runtime_error ("Could not write the compressed fields");
 }
 
 /// Helper I/O function
diff --git a/spoc/point_record.h b/spoc/point_record.h
index 6336ddd..7af6910 100644
--- a/spoc/point_record.h
+++ b/spoc/point_record.h
@@ -141,6 +141,8 @@ inline void write_point_record (std::ostream &s, const point_record &p)
     if (p.extra.size () != 0)
         s.write (reinterpret_cast<const char*>(&p.extra[0]), p.extra.size () * sizeof(uint64_t));
     s.flush ();
+    if (!s)
+        throw std::runtime_error ("Could not write a point record");
 }
 
 // Record I/O
-- 
2.43.0


From 20eb94a4f5133a4ed0955b1b75aa94017ffa43d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:08 +0000
Subject: [PATCH 11/52] fix: failures to write to stdout were not reported

---
 apps/info/info.cpp | 3 +++
 apps/srs/srs.cpp   | 3 +++
 apps/tool/tool.cpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/apps/info/info.cpp b/apps/info/info.cpp
index 9121ba9..7cdabf3 100644
--- a/apps/info/info.cpp
+++ b/apps/info/info.cpp
@@ -83,6 +83,9 @@ int main (int argc, char **argv)
             }
         }
 
+        if (!cout.flush ())
+            throw runtime_error ("Could not write to stdout");
+
         return 0;
     }
     catch (const exception &e)
diff --git a/apps/srs/srs.cpp b/apps/srs/srs.cpp
index 52b4ac4..ee5309a 100644
--- a/apps/srs/srs.cpp
+++ b/apps/srs/srs.cpp
@@ -117,6 +117,9 @@ int main (int argc, char **argv)
             }
         }
 
+        if (!cout.flush ())
+            throw runtime_error ("Could not write to stdout");
+
         return 0;
     }
     catch (const exception &e)
diff --git a/apps/tool/tool.cpp b/apps/tool/tool.cpp
index 8347f9a..7029976 100644
--- a/apps/tool/tool.cpp
+++ b/apps/tool/tool.cpp
@@ -63,6 +63,9 @@ int main (int argc, char **argv)
             const auto l = consume_field_name (s);
             get_field (f, cout, l);
 
+            if (!cout.flush ())
+                throw runtime_error ("Could not write to stdout");
+
             // Short-circuit so that the SPOC file is not written
             return 0;
         }
-- 
2.43.0


From 803cc605860ca93dc17e75ff86d45309c6558927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:58 +0000
Subject: [PATCH 12/52] fix: replace-not wrote the replacement into the
 classification field

---
 apps/transform/transform.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/apps/transform/transform.h b/apps/transform/transform.h
index d043456..a4ae647 100644
--- a/apps/transform/transform.h
+++ b/apps/transform/transform.h
@@ -302,11 +302,11 @@ OP get_replace_not_op (const std::string &field_name,
             switch (field_name[0])
             {
                 case 'c': p.c = r; break;
-                case 'p': p.c = r; break;
-                case 'i': p.c = r; break;
-                case 'r': p.c = r; break;
-                case 'g': p.c = r; break;
-                case 'b': p.c = r; break;
+                case 'p': p.p = r; break;
+                case 'i': p.i = r; break;
+                case 'r': p.r = r; break;
+                case 'g': p.g = r; break;
+                case 'b': p.b = r; break;
                 case 'e': // extra
                 {
                     assert (is_extra_field (field_name));
-- 
2.43.0


From dab4ee5164df6ffb559304c8ee4e7cc74a9d708b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:16 +0000
Subject: [PATCH 13/52] fix: the noise commands and -a were refused by
 spoc_transform

---
 apps/transform/transform_cmd.h | 42 +++++++++++++++++++++++++++++++++-
 1 file changed, 41 insertions(+), 1 deletion(-)

diff --git a/apps/transform/transform_cmd.h b/apps/transform/transform_cmd.h
index addd80c..4b7acbc 100644
--- a/apps/transform/transform_cmd.h
+++ b/apps/transform/transform_cmd.h
@@ -100,7 +100,7 @@ inline args get_args (int argc, char **argv, const std::string &usage)
             {0, 0, 0, 0}
         };
 
-        int c = getopt_long(argc, argv, "hve", long_options, &option_index);
+        int c = getopt_long(argc, argv, "hvea:", long_options, &option_index);
         if (c == -1)
             break;
 
@@ -138,6 +138,26 @@ inline args get_args (int argc, char **argv, const std::string &usage)
                 args.commands.push_back (get_command ("copy-field", optarg));
                 break;
             }
+            case GAUSSIAN_NOISE:
+            {
+                args.commands.push_back (get_command ("gaussian-noise", optarg));
+                break;
+            }
+            case GAUSSIAN_NOISE_X:
+            {
+                args.commands.push_back (get_command ("gaussian-noise-x", optarg));
+                break;
+            }
+            case GAUSSIAN_NOISE_Y:
+            {
+                args.commands.push_back (get_command ("gaussian-noise-y", optarg));
+                break;
+            }
+            case GAUSSIAN_NOISE_Z:
+            {
+                args.commands.push_back (get_command ("gaussian-noise-z", optarg));
+                break;
+            }
             case QUANTIZE_XYZ:
             {
                 args.commands.push_back (get_command ("quantize-xyz", optarg));
@@ -193,6 +213,26 @@ inline args get_args (int argc, char **argv, const std::string &usage)
                 args.commands.push_back (get_command ("set", optarg));
                 break;
             }
+            case UNIFORM_NOISE:
+            {
+                args.commands.push_back (get_command ("uniform-noise", optarg));
+                break;
+            }
+            case UNIFORM_NOISE_X:
+            {
+                args.commands.push_back (get_command ("uniform-noise-x", optarg));
+                break;
+            }
+            case UNIFORM_NOISE_Y:
+            {
+                args.commands.push_back (get_command ("uniform-noise-y", optarg));
+                break;
+            }
+            case UNIFORM_NOISE_Z:
+            {
+                args.commands.push_back (get_command ("uniform-noise-z", optarg));
+                break;
+            }
         }
     }
 
-- 
2.43.0


From 2920e975b04edf7d5468256dcb58aea715688a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:14 +0000
Subject: [PATCH 14/52] fix: quantizing overflowed when the quotient does not
 fit an int

---
 apps/transform/transform.h | 7 ++++---
 spoc/utils.h               | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/apps/transform/transform.h b/apps/transform/transform.h
index a4ae647..2d98d41 100644
--- a/apps/transform/transform.h
+++ b/apps/transform/transform.h
@@ -3,6 +3,7 @@
 #include "spoc/app_utils.h"
 #include "spoc/spoc.h"
 #include <cassert>
+#include <cmath>
 #include <iostream>
 #include <limits>
 #include <random>
@@ -172,9 +173,9 @@ OP get_quantize_op (const double precision)
     OP op = [=] (PR p)
     {
         // Quantize the point
-        p.x = static_cast<int> (p.x / precision) * precision;
-        p.y = static_cast<int> (p.y / precision) * precision;
-        p.z = static_cast<int> (p.z / precision) * precision;
+        p.x = std::trunc (p.x / precision) * precision;
+        p.y = std::trunc (p.y / precision) * precision;
+        p.z = std::trunc (p.z / precision) * precision;
         return p;
     };
 
diff --git a/spoc/utils.h b/spoc/utils.h
index e7f8d63..2adefc9 100644
--- a/spoc/utils.h
+++ b/spoc/utils.h
@@ -1,5 +1,6 @@
 #pragma once
 #include "contracts.h"
+#include <cmath>
 #include <functional>
 
 namespace spoc
@@ -44,9 +45,9 @@ void quantize (T &p, const double precision)
     for (size_t i = 0; i < p.size (); ++i)
     {
         // Quantize the point
-        p[i].x = static_cast<int> (p[i].x / precision) * precision;
-        p[i].y = static_cast<int> (p[i].y / precision) * precision;
-        p[i].z = static_cast<int> (p[i].z / precision) * precision;
+        p[i].x = std::trunc (p[i].x / precision) * precision;
+        p[i].y = std::trunc (p[i].y / precision) * precision;
+        p[i].z = std::trunc (p[i].z / precision) * precision;
     }
 }
 
-- 
2.43.0


From a1b312083a1a631848028de368a5a44406d76f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:50 +0000
Subject: [PATCH 15/52] fix: noise distributions were created with invalid
 parameters

---
 apps/transform/transform.h | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/apps/transform/transform.h b/apps/transform/transform.h
index 2d98d41..6ce7267 100644
--- a/apps/transform/transform.h
+++ b/apps/transform/transform.h
@@ -147,19 +147,22 @@ OP get_gaussian_noise_op (const size_t random_seed,
     std::default_random_engine rng (random_seed);
 
     // Create the distributions
-    std::normal_distribution<double> dx (0.0, std_x);
-    std::normal_distribution<double> dy (0.0, std_y);
-    std::normal_distribution<double> dz (0.0, std_z);
+    //
+    // The standard deviation of a distribution must not be zero, so
+    // scale the values of the standard distribution instead
+    std::normal_distribution<double> dx (0.0, 1.0);
+    std::normal_distribution<double> dy (0.0, 1.0);
+    std::normal_distribution<double> dz (0.0, 1.0);
 
     // Get the operation
     OP op = [=] (PR p) mutable
     {
         if (std_x != 0.0)
-            p.x += dx (rng);
+            p.x += dx (rng) * std_x;
         if (std_y != 0.0)
-            p.y += dy (rng);
+            p.y += dy (rng) * std_y;
         if (std_z != 0.0)
-            p.z += dz (rng);
+            p.z += dz (rng) * std_z;
         return p;
     };
 
@@ -446,9 +449,9 @@ OP get_uniform_noise_op (const size_t random_seed,
     std::default_random_engine rng (random_seed);
 
     // Create the distributions
-    std::uniform_real_distribution<double> dx (-mag_x, mag_x);
-    std::uniform_real_distribution<double> dy (-mag_y, mag_y);
-    std::uniform_real_distribution<double> dz (-mag_z, mag_z);
+    std::uniform_real_distribution<double> dx (-std::abs (mag_x), std::abs (mag_x));
+    std::uniform_real_distribution<double> dy (-std::abs (mag_y), std::abs (mag_y));
+    std::uniform_real_distribution<double> dz (-std::abs (mag_z), std::abs (mag_z));
 
     // Get the operation
     OP op = [=] (PR p) mutable
-- 
2.43.0


From 97f86f8aeca18288ae2e4d01eb5c747631459975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:45 +0000
Subject: [PATCH 16/52] fix: files with more than 255 extra fields were written
 with a wrong count

---
 spoc/file.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spoc/file.h b/spoc/file.h
index 238df40..c2b91ab 100644
--- a/spoc/file.h
+++ b/spoc/file.h
@@ -147,6 +147,9 @@ class spoc_file
     {
         const size_t extra_fields = get_extra_fields ();
         const size_t total_points = prs.size ();
+        // The header can't hold more than 8 bits
+        if (extra_fields > 0xFF)
+            throw std::runtime_error ("The number of extra fields may not exceed 255");
         header::header h (major_version, minor_version, wkt, extra_fields, total_points, compressed);
 
         return h;
-- 
2.43.0


From 0f7f2e830f586e9c5ea9e8c0dd2285204d217a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:58 +0000
Subject: [PATCH 17/52] fix: out-of-bounds read when getting an extra field
 that does not exist

---
 apps/tool/tool.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/apps/tool/tool.h b/apps/tool/tool.h
index 75b7d6c..a50511d 100644
--- a/apps/tool/tool.h
+++ b/apps/tool/tool.h
@@ -36,6 +36,12 @@ inline void get_field (const T &f, std::ostream &os, const std::string &field_na
         ? app_utils::get_extra_index (field_name)
         : f.get_extra_fields () + 1;
 
+    // Make sure that the extra field exists
+    if (app_utils::is_extra_field (field_name)
+        && !f.get_point_records ().empty ()
+        && j >= f.get_extra_fields ())
+        throw std::runtime_error ("Invalid extra field specification");
+
     // Write out the fields
     for (const auto &p : f.get_point_records ())
     {
-- 
2.43.0


From abd81d2e37aa473b75753f3805cebf41618aa825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:13 +0000
Subject: [PATCH 18/52] fix: set-field accepted malformed values and too many
 extra fields

---
 apps/tool/tool.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/apps/tool/tool.h b/apps/tool/tool.h
index a50511d..a6db4a8 100644
--- a/apps/tool/tool.h
+++ b/apps/tool/tool.h
@@ -175,8 +175,11 @@ inline T set_field (const T &f, std::istream &field_ifs, const std::string &fiel
             field_ifs >> f_size_t[i];
 
         // Make sure there are still values to read
-        if (field_ifs.eof ())
-            throw std::runtime_error ("Reached end-of-file before reading all field values");
+        //
+        // The last value may be the last character in the file, so
+        // reaching the end-of-file is not an error by itself
+        if (field_ifs.fail ())
+            throw std::runtime_error ("Could not read all field values");
     }
 
     // Copy points
@@ -191,6 +194,10 @@ inline T set_field (const T &f, std::istream &field_ifs, const std::string &fiel
         // 'j' is only used if the field starts with 'e'
         j = app_utils::get_extra_index (field_name);
 
+        // There can't be more than 255 of them
+        if (j >= 255)
+            throw std::runtime_error ("The number of extra fields must be < 256");
+
         // If there are not enough extra fields, add them
         if (j >= f.get_extra_fields ())
         {
-- 
2.43.0


From 8c8777f8b55a40f9b1d1ac409b7a7c5535791092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:29 +0000
Subject: [PATCH 19/52] fix: 32-bit values were not printed in JSON

---
 spoc/json.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spoc/json.h b/spoc/json.h
index f681258..88e3b3e 100644
--- a/spoc/json.h
+++ b/spoc/json.h
@@ -20,6 +20,7 @@ namespace json
 //      char,
 //      uint8_t,
 //      uint16_t,
+//      uint32_t,
 //      uint64_t,
 //      float,
 //      double,
@@ -93,6 +94,10 @@ inline void pretty_print (std::ostream &s, const json::value &v, const int inden
     {
         s << std::any_cast<uint16_t> (v);
     }
+    else if (v.type () == typeid (uint32_t))
+    {
+        s << std::any_cast<uint32_t> (v);
+    }
     else if (v.type () == typeid (uint64_t))
     {
         s << std::any_cast<uint64_t> (v);
@@ -172,6 +177,8 @@ inline std::ostream &operator<< (std::ostream &s, const json::value &v)
         s << int (std::any_cast<uint8_t> (v));
     else if (v.type () == typeid (uint16_t))
         s << std::any_cast<uint16_t> (v);
+    else if (v.type () == typeid (uint32_t))
+        s << std::any_cast<uint32_t> (v);
     else if (v.type () == typeid (uint64_t))
         s << std::any_cast<uint64_t> (v);
     else if (v.type () == typeid (float))
-- 
2.43.0


From d2200ea39f3a9768501bf4368b3f866fbbfb9266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:02 +0000
Subject: [PATCH 20/52] fix: a missing field name aborted debug builds

---
 spoc/app_utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spoc/app_utils.h b/spoc/app_utils.h
index eef04f2..4e6801a 100644
--- a/spoc/app_utils.h
+++ b/spoc/app_utils.h
@@ -123,7 +123,8 @@ bool check_field_name (const std::string &f)
 std::string consume_field_name (std::string &s)
 {
     // Check string
-    assert (!s.empty ());
+    if (s.empty ())
+        throw std::runtime_error ("A field name is missing");
 
     // Get the char
     char c = s[0];
-- 
2.43.0


From 407e202c29ed71c6ea149e476319f17653f693d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:08 +0000
Subject: [PATCH 21/52] fix: command parameters that can't be parsed were
 silently ignored

---
 apps/tool/tool.cpp         |  2 ++
 apps/transform/transform.h | 22 +++++++++++++++++++++-
 spoc/app_utils.h           | 31 ++++++++++++++++++++++++++-----
 3 files changed, 49 insertions(+), 6 deletions(-)

diff --git a/apps/tool/tool.cpp b/apps/tool/tool.cpp
index 7029976..8041903 100644
--- a/apps/tool/tool.cpp
+++ b/apps/tool/tool.cpp
@@ -61,6 +61,7 @@ int main (int argc, char **argv)
         {
             string s = args.command.params;
             const auto l = consume_field_name (s);
+            check_consumed (s);
             get_field (f, cout, l);
 
             if (!cout.flush ())
@@ -93,6 +94,7 @@ int main (int argc, char **argv)
                 throw runtime_error ("Could not open file for reading");
             string s = args.command.params;
             const auto l = consume_field_name (s);
+            check_consumed (s);
             f = set_field (f, field_ifs, l);
         }
         else if (args.command.name == "subtract-min-xy")
diff --git a/apps/transform/transform.h b/apps/transform/transform.h
index 6ce7267..eed472d 100644
--- a/apps/transform/transform.h
+++ b/apps/transform/transform.h
@@ -255,7 +255,7 @@ OP get_replace_not_op (const std::string &field_name,
         throw std::runtime_error ("Not enough values were specified in the replace-not command");
 
     // Get the last value
-    const int r = v.back ();
+    const unsigned r = v.back ();
 
     // Remove it
     v.pop_back ();
@@ -498,6 +498,7 @@ void apply (std::istream &is,
             // Get offset
             std::string s = c.params;
             const auto v = consume_double (s);
+            check_consumed (s);
             ops.push_back (get_add_x_op (v));
         }
         else if (c.name == "add-y")
@@ -505,6 +506,7 @@ void apply (std::istream &is,
             // Get offset
             std::string s = c.params;
             const auto v = consume_double (s);
+            check_consumed (s);
             ops.push_back (get_add_y_op (v));
         }
         else if (c.name == "add-z")
@@ -512,6 +514,7 @@ void apply (std::istream &is,
             // Get offset
             std::string s = c.params;
             const auto v = consume_double (s);
+            check_consumed (s);
             ops.push_back (get_add_z_op (v));
         }
         else if (c.name == "copy-field")
@@ -520,6 +523,7 @@ void apply (std::istream &is,
             std::string s = c.params;
             const auto f1 = consume_field_name (s);
             const auto f2 = consume_field_name (s);
+            check_consumed (s);
             ops.push_back (get_copy_field_op (f1, f2, h.extra_fields));
         }
         else if (c.name == "gaussian-noise")
@@ -534,6 +538,7 @@ void apply (std::istream &is,
             // Get variance for X
             std::string s = c.params;
             const auto v = consume_double (s);
+            check_consumed (s);
             ops.push_back (get_gaussian_noise_op (random_seed, v, 0.0, 0.0));
         }
         else if (c.name == "gaussian-noise-y")
@@ -541,6 +546,7 @@ void apply (std::istream &is,
             // Get variance for Y
             std::string s = c.params;
             const auto v = consume_double (s);
+            check_consumed (s);
             ops.push_back (get_gaussian_noise_op (random_seed, 0.0, v, 0.0));
         }
         else if (c.name == "gaussian-noise-z")
@@ -548,6 +554,7 @@ void apply (std::istream &is,
             // Get variance for Z
             std::string s = c.params;
             const auto v = consume_double (s);
+            check_consumed (s);
             ops.push_back (get_gaussian_noise_op (random_seed, 0.0, 0.0, v));
         }
         else if (c.name == "quantize-xyz")
@@ -555,6 +562,7 @@ void apply (std::istream &is,
             // Get precision
             std::string s = c.params;
             const auto v = consume_double (s);
+            check_consumed (s);
             ops.push_back (get_quantize_op (v));
         }
         else if (c.name == "replace")
@@ -564,6 +572,7 @@ void apply (std::istream &is,
             const auto l = consume_field_name (s);
             const auto v1 = consume_int (s);
             const auto v2 = consume_int (s);
+            check_consumed (s);
             ops.push_back (get_replace_op (l, v1, v2, h.extra_fields));
         }
         else if (c.name == "replace-not")
@@ -572,6 +581,7 @@ void apply (std::istream &is,
             std::string s = c.params;
             const auto l = consume_field_name (s);
             auto v = consume_ints (s);
+            check_consumed (s);
             ops.push_back (get_replace_not_op (l, v, h.extra_fields));
         }
         else if (c.name == "rotate-x")
@@ -579,6 +589,7 @@ void apply (std::istream &is,
             // Get degrees
             std::string s = c.params;
             const auto v = consume_double (s);
+            check_consumed (s);
             ops.push_back (get_rotate_x_op (v));
         }
         else if (c.name == "rotate-y")
@@ -586,6 +597,7 @@ void apply (std::istream &is,
             // Get degrees
             std::string s = c.params;
             const auto v = consume_double (s);
+            check_consumed (s);
             ops.push_back (get_rotate_y_op (v));
         }
         else if (c.name == "rotate-z")
@@ -593,6 +605,7 @@ void apply (std::istream &is,
             // Get degrees
             std::string s = c.params;
             const auto v = consume_double (s);
+            check_consumed (s);
             ops.push_back (get_rotate_z_op (v));
         }
         else if (c.name == "scale-x")
@@ -600,6 +613,7 @@ void apply (std::istream &is,
             // Get magnitude
             std::string s = c.params;
             const auto v = consume_double (s);
+            check_consumed (s);
             ops.push_back (get_scale_x_op (v));
         }
         else if (c.name == "scale-y")
@@ -607,6 +621,7 @@ void apply (std::istream &is,
             // Get magnitude
             std::string s = c.params;
             const auto v = consume_double (s);
+            check_consumed (s);
             ops.push_back (get_scale_y_op (v));
         }
         else if (c.name == "scale-z")
@@ -614,6 +629,7 @@ void apply (std::istream &is,
             // Get magnitude
             std::string s = c.params;
             const auto v = consume_double (s);
+            check_consumed (s);
             ops.push_back (get_scale_z_op (v));
         }
         else if (c.name == "set")
@@ -622,6 +638,7 @@ void apply (std::istream &is,
             std::string s = c.params;
             const auto l = consume_field_name (s);
             const auto v = consume_double (s);
+            check_consumed (s);
             ops.push_back (get_set_op (l, v, h.extra_fields));
         }
         else if (c.name == "uniform-noise")
@@ -636,6 +653,7 @@ void apply (std::istream &is,
             // Get magnitude
             std::string s = c.params;
             const auto v = consume_double (s);
+            check_consumed (s);
             ops.push_back (get_uniform_noise_op (random_seed, v, 0.0, 0.0));
         }
         else if (c.name == "uniform-noise-y")
@@ -643,6 +661,7 @@ void apply (std::istream &is,
             // Get magnitude
             std::string s = c.params;
             const auto v = consume_double (s);
+            check_consumed (s);
             ops.push_back (get_uniform_noise_op (random_seed, 0.0, v, 0.0));
         }
         else if (c.name == "uniform-noise-z")
@@ -650,6 +669,7 @@ void apply (std::istream &is,
             // Get magnitude
             std::string s = c.params;
             const auto v = consume_double (s);
+            check_consumed (s);
             ops.push_back (get_uniform_noise_op (random_seed, 0.0, 0.0, v));
         }
         else
diff --git a/spoc/app_utils.h b/spoc/app_utils.h
index 4e6801a..7ff07ca 100644
--- a/spoc/app_utils.h
+++ b/spoc/app_utils.h
@@ -3,6 +3,7 @@
 #include <cassert>
 #include <fstream>
 #include <iostream>
+#include <limits>
 #include <stdexcept>
 #include <string>
 #include <unordered_set>
@@ -95,6 +96,10 @@ int get_extra_index (const std::string &f)
     // Skip over the 'e'
     e.erase (0, 1);
 
+    // The rest must be a number
+    if (e.empty () || e.find_first_not_of ("0123456789") != std::string::npos)
+        return -1;
+
     // Convert to int
     int n;
     try { n = stoi (e); }
@@ -141,6 +146,10 @@ std::string consume_field_name (std::string &s)
     if (!check_field_name (field_name))
         throw std::runtime_error (std::string ("Invalid field name: " + field_name));
 
+    // It must be followed by a separator or by nothing
+    if (!s.empty () && s[0] != ',')
+        throw std::runtime_error (std::string ("Invalid field name: ") + field_name + s);
+
     // Skip over the char
     s.erase (0, 1);
 
@@ -150,9 +159,13 @@ std::string consume_field_name (std::string &s)
 unsigned consume_int (std::string &s)
 {
     size_t sz = 0;
-    unsigned v = 0;
-    try { v = std::stoi (s, &sz); }
+    long long v = 0;
+    try { v = std::stoll (s, &sz); }
     catch (...) { throw std::runtime_error (std::string ("Could not parse int value string: ") + s); }
+    if (sz < s.size () && s[sz] != ',')
+        throw std::runtime_error (std::string ("Could not parse int value string: ") + s);
+    if (v < 0 || v > std::numeric_limits<unsigned>::max ())
+        throw std::runtime_error (std::string ("The value is out of range: ") + s);
     s.erase (0, sz + 1);
     return v;
 }
@@ -164,10 +177,9 @@ std::vector<unsigned> consume_ints (std::string &s)
     unsigned v = consume_int (s);
     vs.push_back (v);
     // Get the rest
-    while (true)
+    while (!s.empty ())
     {
-        try { v = consume_int (s); }
-        catch (...) { break; }
+        v = consume_int (s);
         vs.push_back (v);
     }
     return vs;
@@ -179,10 +191,19 @@ double consume_double (std::string &s)
     double v = 0.0;
     try { v = std::stod (s, &sz); }
     catch (...) { throw std::runtime_error (std::string ("Could not parse number value string: ") + s); }
+    if (sz < s.size () && s[sz] != ',')
+        throw std::runtime_error (std::string ("Could not parse number value string: ") + s);
     s.erase (0, sz + 1);
     return v;
 }
 
+// Make sure that nothing is left after all parameters were consumed
+void check_consumed (const std::string &s)
+{
+    if (!s.empty ())
+        throw std::runtime_error (std::string ("Unexpected parameters: ") + s);
+}
+
 } // namespace app_utils
 
 } // namespace spoc
-- 
2.43.0


From 1b92b64f50259ed4bbd80292bfed09f7b33dc538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:55 +0000
Subject: [PATCH 22/52] fix: set and replace stored values that do not fit into
 the field

---
 apps/transform/transform.h | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/apps/transform/transform.h b/apps/transform/transform.h
index eed472d..d921715 100644
--- a/apps/transform/transform.h
+++ b/apps/transform/transform.h
@@ -37,6 +37,31 @@ const spoc::header::header read_header_uncompressed (std::istream &is)
     return h;
 }
 
+// Make sure that a value can be represented in a field
+void check_value (const std::string &field_name, const double v)
+{
+    double limit = 0.0;
+    switch (field_name[0])
+    {
+        case 'x':
+        case 'y':
+        case 'z':
+            return;
+        case 'c':
+        case 'p':
+            limit = std::ldexp (1.0, 32);
+            break;
+        case 'e':
+            limit = std::ldexp (1.0, 64);
+            break;
+        default:
+            limit = std::ldexp (1.0, 16);
+            break;
+    }
+    if (!(v >= 0.0 && v < limit))
+        throw std::runtime_error (std::string ("The value does not fit into the field ") + field_name);
+}
+
 }
 
 using PR = spoc::point_record::point_record;
@@ -201,6 +226,9 @@ OP get_replace_op (const std::string &field_name,
         case 'z': throw std::runtime_error ("Cannot run the replace command on floating point fields (X, Y, Z)");
     }
 
+    // Make sure that the field can hold the value
+    detail::check_value (field_name, v2);
+
     // Get the extra index
     const size_t j = is_extra_field (field_name)
         ? get_extra_index (field_name)
@@ -260,6 +288,9 @@ OP get_replace_not_op (const std::string &field_name,
     // Remove it
     v.pop_back ();
 
+    // Make sure that the field can hold the value
+    detail::check_value (field_name, r);
+
     // Get the extra index
     const size_t j = is_extra_field (field_name)
         ? get_extra_index (field_name)
@@ -405,6 +436,9 @@ OP get_set_op (const std::string &field_name, const double v, const size_t extra
 {
     using namespace spoc::app_utils;
 
+    // Make sure that the field can hold the value
+    detail::check_value (field_name, v);
+
     // Get the extra index
     const size_t j = is_extra_field (field_name)
         ? get_extra_index (field_name)
-- 
2.43.0


From f6014eb90ea9f9133bc65cbf92c9dc4025ba60e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:23 +0000
Subject: [PATCH 23/52] fix: malformed numbers in options were silently
 accepted

---
 apps/filter/filter_cmd.h       | 18 ++++++++++++------
 apps/merge/merge_cmd.h         |  4 ++--
 apps/tile/tile_cmd.h           | 10 +++++-----
 apps/tool/tool.cpp             |  3 ++-
 apps/tool/tool_cmd.h           |  2 +-
 apps/transform/transform_cmd.h |  2 +-
 spoc/cmd.h                     | 31 +++++++++++++++++++++++++++++++
 7 files changed, 54 insertions(+), 16 deletions(-)

diff --git a/apps/filter/filter_cmd.h b/apps/filter/filter_cmd.h
index 73ac6ac..96aa2d2 100644
--- a/apps/filter/filter_cmd.h
+++ b/apps/filter/filter_cmd.h
@@ -18,9 +18,9 @@ struct args
     bool help = false;
     bool verbose = false;
     bool version = false;
-    std::unordered_set<int> keep_classes;
+    std::unordered_set<uint32_t> keep_classes;
     size_t random_seed = 0;
-    std::unordered_set<int> remove_classes;
+    std::unordered_set<uint32_t> remove_classes;
     bool unique_xyz = false;
     double subsample = 0.0;
     std::string remove_coords;
@@ -65,11 +65,17 @@ inline args get_args (int argc, char **argv, const std::string &usage)
             }
             case 'v': { args.verbose = true; break; }
             case 'e': { args.version = true; break; }
-            case 'k': { args.keep_classes.insert (std::atoi (optarg)); break; }
-            case 'a': { args.random_seed = std::atol (optarg); break; }
-            case 'r': { args.remove_classes.insert (std::atoi (optarg)); break; }
+            case 'k': { args.keep_classes.insert (spoc::cmd::parse_int (optarg, 0, std::numeric_limits<uint32_t>::max ())); break; }
+            case 'a': { args.random_seed = spoc::cmd::parse_int (optarg, std::numeric_limits<long long>::min (), std::numeric_limits<long long>::max ()); break; }
+            case 'r': { args.remove_classes.insert (spoc::cmd::parse_int (optarg, 0, std::numeric_limits<uint32_t>::max ())); break; }
             case 'u': { args.unique_xyz = true; break; }
-            case 's': { args.subsample = std::atof (optarg); break; }
+            case 's':
+            {
+                args.subsample = spoc::cmd::parse_double (optarg);
+                if (!(args.subsample > 0.0))
+                    throw std::runtime_error ("The subsampling resolution must be > 0.0");
+                break;
+            }
             case 'c': { args.remove_coords = std::string (optarg); break; }
         }
     }
diff --git a/apps/merge/merge_cmd.h b/apps/merge/merge_cmd.h
index a460eb6..1ee4824 100644
--- a/apps/merge/merge_cmd.h
+++ b/apps/merge/merge_cmd.h
@@ -17,7 +17,7 @@ struct args
     bool verbose = false;
     bool version = false;
     bool quiet = false;
-    int point_id = -1;
+    long long point_id = -1;
     std::vector<std::string> fns;
 };
 
@@ -55,7 +55,7 @@ inline args get_args (int argc, char **argv, const std::string &usage)
             case 'v': args.verbose = true; break;
             case 'e': args.version = true; break;
             case 'q': args.quiet = !args.quiet; break;
-            case 'p': args.point_id = std::atoi (optarg); break;
+            case 'p': args.point_id = spoc::cmd::parse_int (optarg, 0, std::numeric_limits<uint32_t>::max ()); break;
         }
     }
 
diff --git a/apps/tile/tile_cmd.h b/apps/tile/tile_cmd.h
index baec061..647705c 100644
--- a/apps/tile/tile_cmd.h
+++ b/apps/tile/tile_cmd.h
@@ -64,11 +64,11 @@ inline args get_args (int argc, char **argv, const std::string &usage)
             case 'v': args.verbose = true; break;
             case 'e': args.version = true; break;
             case 'f': args.force = true; break;
-            case 't': args.tiles = atoi (optarg); break;
-            case 'd': args.digits = atoi (optarg); break;
-            case 's': args.tile_size = atof (optarg); break;
-            case 'x': args.tile_size_x = atof (optarg); break;
-            case 'y': args.tile_size_y = atof (optarg); break;
+            case 't': args.tiles = spoc::cmd::parse_int (optarg, 1, std::numeric_limits<unsigned>::max ()); break;
+            case 'd': args.digits = spoc::cmd::parse_int (optarg, 0, 255); break;
+            case 's': args.tile_size = spoc::cmd::parse_double (optarg); break;
+            case 'x': args.tile_size_x = spoc::cmd::parse_double (optarg); break;
+            case 'y': args.tile_size_y = spoc::cmd::parse_double (optarg); break;
             case 'p': args.prefix = std::string (optarg); break;
         }
     }
diff --git a/apps/tool/tool.cpp b/apps/tool/tool.cpp
index 8041903..ac93ca2 100644
--- a/apps/tool/tool.cpp
+++ b/apps/tool/tool.cpp
@@ -76,7 +76,8 @@ int main (int argc, char **argv)
             f = recenter (f, true);
         else if (args.command.name == "resize-extra")
         {
-            const int new_size = std::stoi (args.command.params);
+            const int new_size = spoc::cmd::parse_int (args.command.params,
+                std::numeric_limits<int>::min (), std::numeric_limits<int>::max ());
             if (new_size < 0)
                 throw runtime_error ("The number of extra fields must be >= 0");
             if (new_size > 255)
diff --git a/apps/tool/tool_cmd.h b/apps/tool/tool_cmd.h
index 7a93ddc..5d14289 100644
--- a/apps/tool/tool_cmd.h
+++ b/apps/tool/tool_cmd.h
@@ -142,7 +142,7 @@ inline args get_args (int argc, char **argv, const std::string &usage)
             }
             case RESOLUTION:
             {
-                args.resolution = atof (optarg);
+                args.resolution = spoc::cmd::parse_double (optarg);
                 break;
             }
         }
diff --git a/apps/transform/transform_cmd.h b/apps/transform/transform_cmd.h
index 4b7acbc..f9a913c 100644
--- a/apps/transform/transform_cmd.h
+++ b/apps/transform/transform_cmd.h
@@ -165,7 +165,7 @@ inline args get_args (int argc, char **argv, const std::string &usage)
             }
             case 'a':
             {
-                args.random_seed = std::atol (optarg);
+                args.random_seed = spoc::cmd::parse_int (optarg, std::numeric_limits<long long>::min (), std::numeric_limits<long long>::max ());
                 break;
             }
             case REPLACE:
diff --git a/spoc/cmd.h b/spoc/cmd.h
index cc8914f..0f71bc5 100644
--- a/spoc/cmd.h
+++ b/spoc/cmd.h
@@ -4,6 +4,9 @@
 
 #include <getopt.h>
 #include <iostream>
+#include <limits>
+#include <stdexcept>
+#include <string>
 
 namespace spoc
 {
@@ -42,6 +45,34 @@ void print_help (std::ostream &os, const std::string &usage, const size_t noptio
     }
 }
 
+/// @brief Convert an option's argument to an integer
+/// @param s Argument
+/// @param min Smallest valid value
+/// @param max Greatest valid value
+inline long long parse_int (const std::string &s, const long long min, const long long max)
+{
+    size_t sz = 0;
+    long long v = 0;
+    try { v = std::stoll (s, &sz); }
+    catch (...) { sz = 0; }
+    if (s.empty () || sz != s.size () || v < min || v > max)
+        throw std::runtime_error ("Invalid integer argument: '" + s + "'");
+    return v;
+}
+
+/// @brief Convert an option's argument to a number
+/// @param s Argument
+inline double parse_double (const std::string &s)
+{
+    size_t sz = 0;
+    double v = 0.0;
+    try { v = std::stod (s, &sz); }
+    catch (...) { sz = 0; }
+    if (s.empty () || sz != s.size ())
+        throw std::runtime_error ("Invalid number argument: '" + s + "'");
+    return v;
+}
+
 } // namespace cmd
 
 } // namespace spoc
-- 
2.43.0


From e0edbe9ac15484c6fa163d529f5625a4ddd00df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:20 +0000
Subject: [PATCH 24/52] fix: classifications above 2^31 were counted with a
 wrong label

---
 apps/info/info.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apps/info/info.h b/apps/info/info.h
index 4942653..53f943c 100644
--- a/apps/info/info.h
+++ b/apps/info/info.h
@@ -15,7 +15,7 @@ namespace info_app
 template<typename T>
 inline std::map<std::string,size_t> get_class_count_map (const T &c)
 {
-    std::unordered_map<int,size_t> m;
+    std::unordered_map<uint32_t,size_t> m;
 
     // Count each classification
     //
@@ -323,7 +323,7 @@ inline void process (std::ostream &os,
 
             for (auto i : class_count_map)
             {
-                const auto j = std::stoi (i.first);
+                const auto j = std::stoul (i.first);
                 const auto l = class_map.find (j) == class_map.end ()
                     ? "undefined"
                     : class_map.at (j);
-- 
2.43.0


From 6ac40fdde8f26972a547f08049797fa468142991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:32 +0000
Subject: [PATCH 25/52] fix: diff ignored an extra field that only one of the
 files has

---
 apps/diff/diff.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/apps/diff/diff.h b/apps/diff/diff.h
index 38a82c7..a644699 100644
--- a/apps/diff/diff.h
+++ b/apps/diff/diff.h
@@ -149,9 +149,11 @@ inline int diff (const spoc::file::spoc_file &f1,
                 case '8':
                 case '9': {
                               const size_t index = field - '0';
-                              if (index < get_extra_fields_size (f1.get_point_records ())
-                                    && index < get_extra_fields_size (f2.get_point_records ())
-                                    && (get_extra (index, f1.get_point_records ()) != get_extra (index, f2.get_point_records ())))
+                              const bool has1 = index < get_extra_fields_size (f1.get_point_records ());
+                              const bool has2 = index < get_extra_fields_size (f2.get_point_records ());
+                              if (has1 != has2)
+                                  return_code = -1;
+                              else if (has1 && (get_extra (index, f1.get_point_records ()) != get_extra (index, f2.get_point_records ())))
                                   return_code = -1;
                               break;
                           }
-- 
2.43.0


From 0d7930b35dc34c32752b7a8ac0075546dc3d714a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:43 +0000
Subject: [PATCH 26/52] fix: diff accepted more than one selection

---
 apps/diff/diff.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/diff/diff.cpp b/apps/diff/diff.cpp
index c349918..608d0cc 100644
--- a/apps/diff/diff.cpp
+++ b/apps/diff/diff.cpp
@@ -46,7 +46,7 @@ int main (int argc, char **argv)
             clog << "filename2\t'" << args.fn2 << "'" << endl;
         }
 
-        if (args.header_only + args.data_only + !args.fields.empty () > 2)
+        if (args.header_only + args.data_only + !args.fields.empty () > 1)
             throw runtime_error ("Can't specify more than 1 of 'header-only', 'data-only', and specific fields");
 
         if (args.verbose)
-- 
2.43.0


From eeb2fbbf3ff8a0f20803f741c5b8d7a1fbe6ff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:41 +0000
Subject: [PATCH 27/52] fix: radius search overflowed for voxel indexes that do
 not fit an int

---
 spoc/radius_search.h | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/spoc/radius_search.h b/spoc/radius_search.h
index 686d84b..19d5b6d 100644
--- a/spoc/radius_search.h
+++ b/spoc/radius_search.h
@@ -39,17 +39,14 @@ class random_neighbor_selector
         , voxel_counts (total_voxels)
     {
         // Get the voxel indexes for the 27 voxels
-        const int i1 = static_cast<int> (ijk.i) - 1;
-        const int i2 = static_cast<int> (ijk.i) + 2;
-        const int j1 = static_cast<int> (ijk.j) - 1;
-        const int j2 = static_cast<int> (ijk.j) + 2;
-        const int k1 = static_cast<int> (ijk.k) - 1;
-        const int k2 = static_cast<int> (ijk.k) + 2;
+        //
+        // Indexes below zero wrap around, so they never match an
+        // occupied voxel
         size_t n = 0;
-        for (int i = i1; i < i2; ++i)
-            for (int j = j1; j < j2; ++j)
-                for (int k = k1; k < k2; ++k)
-                    voxel_indexes[n++] = spoc::voxel::voxel_index (i, j, k);
+        for (size_t i = 0; i < 3; ++i)
+            for (size_t j = 0; j < 3; ++j)
+                for (size_t k = 0; k < 3; ++k)
+                    voxel_indexes[n++] = spoc::voxel::voxel_index (ijk.i + i - 1, ijk.j + j - 1, ijk.k + k - 1);
 
         // There should have been 27
         assert (n == total_voxels);
-- 
2.43.0


From f30cf264a366636121d2e0b00fabe4a1d06b235f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:53 +0000
Subject: [PATCH 28/52] fix: upsampling matched points below the high
 resolution extent

---
 apps/tool/tool.h | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/apps/tool/tool.h b/apps/tool/tool.h
index a6db4a8..1869cbb 100644
--- a/apps/tool/tool.h
+++ b/apps/tool/tool.h
@@ -295,9 +295,8 @@ inline T upsample_classifications (
     // Compute h's voxel indexes, relative to the extent in 'h'
     const auto vh = get_voxel_indexes (f.get_point_records (), resolution);
 
-    // Compute l's voxel indexes, relative to the extent in 'h' (not l)
+    // l's voxel indexes are relative to the extent in 'h' (not l)
     const auto eh = spoc::extent::get_extent (h.get_point_records ());
-    const auto vl = get_voxel_indexes (l.get_point_records (), eh, resolution);
 
     // Get a map of voxel indexes to point record indexes in 'h'
     const auto vmh = get_voxel_index_map (vh);
@@ -306,11 +305,19 @@ inline T upsample_classifications (
     // assigned to a low resolution classification
     size_t assigned_points = 0;
 
-    // For each voxel index in the low resolution spoc file...
-    for (size_t i = 0; i < vl.size (); ++i)
+    // For each point record in the low resolution spoc file...
+    for (size_t i = 0; i < l.get_point_records ().size (); ++i)
     {
+        // Get a reference to the low resolution point record
+        const auto &p = l.get_point_record (i);
+
+        // Voxel indexes can't be negative, so a point that lies below
+        // the high resolution extent does not match any voxel
+        if (p.x < eh.minp.x || p.y < eh.minp.y || p.z < eh.minp.z)
+            continue;
+
         // Get the voxel index
-        const auto &v = vl[i];
+        const auto v = get_voxel_index (p, eh.minp, resolution);
 
         // Does it correspond to a voxel in the high resolution spoc
         // file?
@@ -324,9 +331,6 @@ inline T upsample_classifications (
         // Check our logic, if it matched a voxel, it can't be empty
         assert (!indexes.empty ());
 
-        // Get a reference to the low resolution point record
-        const auto &p = l.get_point_record (i);
-
         // For each point record index in this high resolution voxel...
         for (const auto j : indexes)
         {
-- 
2.43.0


From 21a858b828d5e799443a55f4ce7ab981fc3111e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:53 +0000
Subject: [PATCH 29/52] fix: setting a point record out of range corrupted
 memory in release builds

---
 spoc/file.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spoc/file.h b/spoc/file.h
index c2b91ab..c98d2c2 100644
--- a/spoc/file.h
+++ b/spoc/file.h
@@ -208,7 +208,8 @@ class spoc_file
     /// @param pr Point record value
     void set_point_record (const size_t i, const point_record::point_record &p)
     {
-        REQUIRE (i < prs.size ());
+        if (i >= prs.size ())
+            throw std::runtime_error ("spoc_file::set_point_record(): the index is out of range");
         const size_t extra_fields = prs.empty () ? 0 : prs[0].extra.size ();
         if (p.extra.size () != extra_fields)
             throw std::runtime_error ("spoc_file::set_point_record(): the point record extra fields size is inconsistent with existing point records");
-- 
2.43.0


From 0ffc95a54c179a5804a9164ae4081a2824bfaa62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:07 +0000
Subject: [PATCH 30/52] fix: out-of-range indexes crashed the Python
 interpreter

---
 spocpy/spocpy/spocpy.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/spocpy/spocpy/spocpy.cpp b/spocpy/spocpy/spocpy.cpp
index 3e40d8f..00f1e3f 100644
--- a/spocpy/spocpy/spocpy.cpp
+++ b/spocpy/spocpy/spocpy.cpp
@@ -53,6 +53,20 @@ void py_writespocfile (const std::string &filename, const spoc::file::spoc_file
     return spoc::io::write_spoc_file (ofs, f);
 }
 
+spoc::point_record::point_record py_getpointrecord (const spoc::file::spoc_file &f, const size_t i)
+{
+    if (i >= f.get_point_records ().size ())
+        throw py::index_error ("The point record index is out of range");
+    return f.get_point_record (i);
+}
+
+std::vector<uint64_t> py_getextra (const spoc::file::spoc_file &f, const size_t k)
+{
+    if (k >= f.get_extra_fields ())
+        throw py::index_error ("The extra field index is out of range");
+    return f.get_extra (k);
+}
+
 //-------------------------
 // Python module definition
 //-------------------------
@@ -96,7 +110,7 @@ PYBIND11_MODULE(spocpy_cpp,m)
         .def("setWKT", &spoc::file::spoc_file::set_wkt)
         .def("getCompressed", &spoc::file::spoc_file::get_compressed)
         .def("setCompressed", &spoc::file::spoc_file::set_compressed)
-        .def("getPointRecord", &spoc::file::spoc_file::get_point_record)
+        .def("getPointRecord", &py_getpointrecord)
         .def("setPointRecord", &spoc::file::spoc_file::set_point_record)
         .def("getPointRecords", &spoc::file::spoc_file::get_point_records)
         .def("setPointRecords", &spoc::file::spoc_file::set_point_records)
@@ -109,7 +123,7 @@ PYBIND11_MODULE(spocpy_cpp,m)
         .def("getR", &spoc::file::spoc_file::get_r)
         .def("getG", &spoc::file::spoc_file::get_g)
         .def("getB", &spoc::file::spoc_file::get_b)
-        .def("getExtra", &spoc::file::spoc_file::get_extra)
+        .def("getExtra", &py_getextra)
         ;
     m.def("readspocfile", &py_readspocfile, "Read a SPOC file");
     m.def("writespocfile", &py_writespocfile, "Write a SPOC file");
-- 
2.43.0


From 70631658d23f3418566afdf5d327824a3a9c24ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:16 +0000
Subject: [PATCH 31/52] fix: spoc_srs emptied the output file when the SRS was
 too long

---
 apps/srs/srs.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apps/srs/srs.cpp b/apps/srs/srs.cpp
index ee5309a..d5d9313 100644
--- a/apps/srs/srs.cpp
+++ b/apps/srs/srs.cpp
@@ -42,6 +42,9 @@ int main (int argc, char **argv)
             clog << "filenames\t" << args.fns.size () << endl;
         }
 
+        if (args.srs.size () > 0xFFFF)
+            throw runtime_error ("The SRS length may not exceed 65535");
+
         if (args.fns.empty ())
         {
             if (args.verbose)
-- 
2.43.0


From 6f62f932f1b57a1ffdd9bff73d5bdb152c37cf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:19 +0000
Subject: [PATCH 32/52] fix: non-finite numbers made JSON output malformed

---
 spoc/json.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/spoc/json.h b/spoc/json.h
index 88e3b3e..415613f 100644
--- a/spoc/json.h
+++ b/spoc/json.h
@@ -2,6 +2,7 @@
 
 #include <any>
 #include <cassert>
+#include <cmath>
 #include <cstdint>
 #include <iostream>
 #include <map>
@@ -37,6 +38,16 @@ using object = std::map<std::string,value>;
 // json::array is a vector of json::values
 using array = std::vector<value>;
 
+// JSON numbers must be finite, so anything else is printed as a string
+template<typename T>
+inline void print_number (std::ostream &s, const T v)
+{
+    if (std::isfinite (v))
+        s << v;
+    else
+        s << "'" << v << "'";
+}
+
 inline void print_indents (std::ostream &s, const int indents)
 {
     for (auto i = 0; i < indents; ++i)
@@ -104,7 +115,7 @@ inline void pretty_print (std::ostream &s, const json::value &v, const int inden
     }
     else if (v.type () == typeid (float))
     {
-        s << std::any_cast<float> (v);
+        print_number (s, std::any_cast<float> (v));
     }
     else if (v.type () == typeid (bool))
     {
@@ -113,7 +124,7 @@ inline void pretty_print (std::ostream &s, const json::value &v, const int inden
     }
     else if (v.type () == typeid (double))
     {
-        s << std::any_cast<double> (v);
+        print_number (s, std::any_cast<double> (v));
     }
     else if (v.type () == typeid (std::string))
     {
@@ -182,11 +193,11 @@ inline std::ostream &operator<< (std::ostream &s, const json::value &v)
     else if (v.type () == typeid (uint64_t))
         s << std::any_cast<uint64_t> (v);
     else if (v.type () == typeid (float))
-        s << std::any_cast<float> (v);
+        print_number (s, std::any_cast<float> (v));
     else if (v.type () == typeid (bool))
         s << std::boolalpha << std::any_cast<bool> (v);
     else if (v.type () == typeid (double))
-        s << std::any_cast<double> (v);
+        print_number (s, std::any_cast<double> (v));
     else if (v.type () == typeid (std::string))
         s << "'" << std::any_cast<std::string> (v) << "'";
     else if (v.type () == typeid (const char *))
-- 
2.43.0


From bd4c9c310ab202242f3af57bdbe9cd68e47f31be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:22 +0000
Subject: [PATCH 33/52] fix: the manual pages listed options that do not exist

---
 apps/info/info.1.md | 2 +-
 apps/tool/tool.1.md | 3 ---
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/apps/info/info.1.md b/apps/info/info.1.md
index 27847fc..440f781 100644
--- a/apps/info/info.1.md
+++ b/apps/info/info.1.md
@@ -72,7 +72,7 @@ highest 25% of the values are spread out over the range 89 to 4088.
 \-\-classification-info, -l
 : Toggle classification information switch
 
-\-\-metric-info, -l
+\-\-metric-info, -m
 : Toggle metric information switch
 
 \-\-compact, -c
diff --git a/apps/tool/tool.1.md b/apps/tool/tool.1.md
index 656b435..29026d1 100644
--- a/apps/tool/tool.1.md
+++ b/apps/tool/tool.1.md
@@ -25,9 +25,6 @@ Collection of tools to run on a SPOC file
 \-\-version, -e
 :   Print version information and exit
 
-\-\-random-seed=*#*, -r *#*
-:   Set the random seed equal to *#*
-
 \-\-resolution=*#*
 :   Set the resolution used for upsampling
 
-- 
2.43.0


From 6803f710ec615458688bfb4a6cc57c1bda76c38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:37 +0000
Subject: [PATCH 34/52] fix: voxel indexes that can't be represented merged
 distinct voxels

---
 spoc/voxel.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/spoc/voxel.h b/spoc/voxel.h
index a0a9816..bd78a51 100644
--- a/spoc/voxel.h
+++ b/spoc/voxel.h
@@ -3,7 +3,9 @@
 #include "spoc/extent.h"
 #include <unordered_map>
 #include <unordered_set>
+#include <limits>
 #include <numeric>
+#include <stdexcept>
 
 namespace spoc
 {
@@ -46,11 +48,23 @@ voxel_index get_voxel_index (const T &p, const U &minp, const double res)
     return v;
 }
 
+// Make sure that all voxel indexes within an extent can be represented
+inline void check_resolution (const spoc::extent::extent &e, const double res)
+{
+    const double limit = static_cast<double> (std::numeric_limits<size_t>::max ());
+    if ((e.maxp.x - e.minp.x) / res >= limit
+        || (e.maxp.y - e.minp.y) / res >= limit
+        || (e.maxp.z - e.minp.z) / res >= limit)
+        throw std::runtime_error ("The voxel resolution is too small");
+}
+
 template<typename T>
 std::vector<voxel_index> get_voxel_indexes (const T &points,
     const spoc::extent::extent &e,
     const double res)
 {
+    check_resolution (e, res);
+
     // Return value
     std::vector<voxel_index> voxel_indexes (points.size ());
 #pragma omp parallel for
@@ -66,6 +80,7 @@ std::vector<voxel_index> get_voxel_indexes (const T &points,
 {
     // get extent so we can get the minimum point
     const auto e = spoc::extent::get_extent (points);
+    check_resolution (e, res);
     std::vector<voxel_index> voxel_indexes (point_indexes.size ());
 #pragma omp parallel for
     for (size_t i = 0; i < voxel_indexes.size (); ++i)
-- 
2.43.0


From 7ffe0e6e8b7b7099dba8d82ffcffb527076431f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:23 +0000
Subject: [PATCH 35/52] fix: do not terminate when a compressed file needs too
 much memory

The extra fields were allocated inside the parallel region, which an
exception can't leave.
---
 spoc/io.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spoc/io.h b/spoc/io.h
index 2ead6f0..49bfe2f 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -215,7 +215,10 @@ inline point_record::point_records read_compressed_points (std::istream &s,
         extra[j] = read_compressed<uint64_t> (s, total_points);
 
     // Copy them into the point records
-    point_record::point_records prs (total_points);
+    //
+    // Allocate the extra fields here because an exception can't leave the
+    // parallel region
+    point_record::point_records prs (total_points, point_record::point_record (extra_fields));
 
     #pragma omp parallel for
     for (size_t n = 0; n < prs.size (); ++n)
@@ -229,7 +232,6 @@ inline point_record::point_records read_compressed_points (std::istream &s,
         if (!r.empty ()) prs[n].r = r[n];
         if (!g.empty ()) prs[n].g = g[n];
         if (!b.empty ()) prs[n].b = b[n];
-        prs[n].extra.resize (extra_fields);
         for (size_t j = 0; j < prs[n].extra.size (); ++j)
             if (!extra[j].empty ()) prs[n].extra[j] = extra[j][n];
     }
-- 
2.43.0


From 48f10261b005fbd888730680fb3a435da25e8960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:24 +0000
Subject: [PATCH 36/52] fix: report an error in the parallel compression
 instead of terminating

An exception that leaves a parallel region terminates the program.
---
 spoc/io.h | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/spoc/io.h b/spoc/io.h
index 49bfe2f..87a117b 100644
--- a/spoc/io.h
+++ b/spoc/io.h
@@ -9,6 +9,7 @@
 #include <cmath>
 #include <cstdint>
 #include <cstring>
+#include <exception>
 #include <fstream>
 #include <iomanip>
 #include <iostream>
@@ -345,35 +346,52 @@ inline void write_spoc_file_compressed (std::ostream &s, const spoc::file::spoc_
             e[j][n] = prs[n].extra[j];
     }
 
+    // An exception can't leave a parallel region, so keep the last one
+    // and throw it afterwards
+    std::exception_ptr error;
+    const auto try_compress = [&error] (const auto &v)
+    {
+        try { return compress_field (v); }
+        catch (...)
+        {
+            #pragma omp critical
+            error = std::current_exception ();
+            return std::vector<uint8_t> ();
+        }
+    };
+
     // Compress fields in parallel
     std::vector<std::vector<uint8_t>> fields (9);
     #pragma omp parallel sections
     {
         #pragma omp section
-        { fields[0] = compress_field (x); }
+        { fields[0] = try_compress (x); }
         #pragma omp section
-        { fields[1] = compress_field (y); }
+        { fields[1] = try_compress (y); }
         #pragma omp section
-        { fields[2] = compress_field (z); }
+        { fields[2] = try_compress (z); }
         #pragma omp section
-        { fields[3] = compress_field (c); }
+        { fields[3] = try_compress (c); }
         #pragma omp section
-        { fields[4] = compress_field (p); }
+        { fields[4] = try_compress (p); }
         #pragma omp section
-        { fields[5] = compress_field (i); }
+        { fields[5] = try_compress (i); }
         #pragma omp section
-        { fields[6] = compress_field (r); }
+        { fields[6] = try_compress (r); }
         #pragma omp section
-        { fields[7] = compress_field (g); }
+        { fields[7] = try_compress (g); }
         #pragma omp section
-        { fields[8] = compress_field (b); }
+        { fields[8] = try_compress (b); }
     }
 
     // Compress extra fields in parallel
     std::vector<std::vector<uint8_t>> extras (e.size ());
     #pragma omp parallel for
     for (size_t j = 0; j < extras.size (); ++j)
-        extras[j] = compress_field (e[j]);
+        extras[j] = try_compress (e[j]);
+
+    if (error)
+        std::rethrow_exception (error);
 
     // Write the header
     const header::header &h = f.get_header ();
-- 
2.43.0


From 2613f0cccf6f50760e1b0619ae10befa1216a5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:57 +0000
Subject: [PATCH 37/52] fix: refuse malformed remove-coords options

Characters after the value and an empty option were ignored.
---
 apps/filter/filter.h     | 5 ++++-
 apps/filter/filter_cmd.h | 8 +++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/apps/filter/filter.h b/apps/filter/filter.h
index 86965b2..0241db1 100644
--- a/apps/filter/filter.h
+++ b/apps/filter/filter.h
@@ -146,7 +146,10 @@ inline T remove_coords (const T &f, const std::string &op)
     double compare_value = std::numeric_limits<double>::quiet_NaN();
     try
     {
-        compare_value = std::stod(ops[2]);
+        size_t sz = 0;
+        compare_value = std::stod(ops[2], &sz);
+        if (sz != ops[2].size())
+            throw std::runtime_error("Unexpected characters");
     }
     catch (const std::exception &e)
     {
diff --git a/apps/filter/filter_cmd.h b/apps/filter/filter_cmd.h
index 96aa2d2..334e4c6 100644
--- a/apps/filter/filter_cmd.h
+++ b/apps/filter/filter_cmd.h
@@ -76,7 +76,13 @@ inline args get_args (int argc, char **argv, const std::string &usage)
                     throw std::runtime_error ("The subsampling resolution must be > 0.0");
                 break;
             }
-            case 'c': { args.remove_coords = std::string (optarg); break; }
+            case 'c':
+            {
+                args.remove_coords = std::string (optarg);
+                if (args.remove_coords.empty ())
+                    throw std::runtime_error ("The remove-coords option is empty");
+                break;
+            }
         }
     }
 
-- 
2.43.0


From ec6a712edbb188ef0cf41f6b7a9db1cf95a78749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:39 +0000
Subject: [PATCH 38/52] fix: always refuse unknown fields in spoc_diff

An unknown field after a field that differs was ignored, and an empty
field list compared everything.
---
 apps/diff/diff_cmd.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/apps/diff/diff_cmd.h b/apps/diff/diff_cmd.h
index ed73ba7..09b00ef 100644
--- a/apps/diff/diff_cmd.h
+++ b/apps/diff/diff_cmd.h
@@ -64,6 +64,9 @@ inline args get_args (int argc, char **argv, const std::string &usage)
             case 'f':
             {
                 std::string s = std::string (optarg);
+                // The comparison may end before it gets to all of them
+                if (s.empty () || s.find_first_not_of ("xyzcpirgb0123456789") != std::string::npos)
+                    throw std::runtime_error (std::string ("Unknown field specifier: ") + s);
                 for (size_t i = 0; i < s.size (); ++i)
                     args.fields.push_back (s[i]);
                 break;
-- 
2.43.0


From 2a62f8b59ea628d31790b9faa06d1a7166b02456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:24 +0000
Subject: [PATCH 39/52] fix: noise seeds 0 and 1 gave the same noise

---
 apps/transform/transform.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/apps/transform/transform.h b/apps/transform/transform.h
index d921715..e367b55 100644
--- a/apps/transform/transform.h
+++ b/apps/transform/transform.h
@@ -169,7 +169,9 @@ OP get_gaussian_noise_op (const size_t random_seed,
     const double std_z)
 {
     // Create rng
-    std::default_random_engine rng (random_seed);
+    //
+    // Every seed must give a different sequence
+    std::mt19937_64 rng (random_seed);
 
     // Create the distributions
     //
@@ -480,7 +482,9 @@ OP get_uniform_noise_op (const size_t random_seed,
     const double mag_z)
 {
     // Create rng
-    std::default_random_engine rng (random_seed);
+    //
+    // Every seed must give a different sequence
+    std::mt19937_64 rng (random_seed);
 
     // Create the distributions
     std::uniform_real_distribution<double> dx (-std::abs (mag_x), std::abs (mag_x));
-- 
2.43.0


From 75b054a3685d6ad9bf11480fb34a4d6cdd4d6ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:46 +0000
Subject: [PATCH 40/52] fix: refuse values that do not fit the field in
 set-field

---
 apps/tool/tool.h | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/apps/tool/tool.h b/apps/tool/tool.h
index 1869cbb..5223334 100644
--- a/apps/tool/tool.h
+++ b/apps/tool/tool.h
@@ -165,9 +165,28 @@ inline T set_field (const T &f, std::istream &field_ifs, const std::string &fiel
     else
         f_size_t.resize (n);
 
+    // Get the greatest value that an integer field can hold
+    size_t limit = std::numeric_limits<size_t>::max ();
+    switch (field_name[0])
+    {
+        case 'c':
+        case 'p':
+        limit = std::numeric_limits<uint32_t>::max ();
+        break;
+        case 'i':
+        case 'r':
+        case 'g':
+        case 'b':
+        limit = std::numeric_limits<uint16_t>::max ();
+    }
+
     // Read the values
     for (size_t i = 0; i < n; ++i)
     {
+        // Integer fields can't be negative
+        if (!float_flag && (field_ifs >> std::ws).peek () == '-')
+            throw std::runtime_error ("A value does not fit into the field");
+
         // Read the field value
         if (float_flag)
             field_ifs >> f_double[i];
@@ -180,6 +199,14 @@ inline T set_field (const T &f, std::istream &field_ifs, const std::string &fiel
         // reaching the end-of-file is not an error by itself
         if (field_ifs.fail ())
             throw std::runtime_error ("Could not read all field values");
+
+        // It must have been the whole value
+        if (!field_ifs.eof () && field_ifs.peek () != EOF && !isspace (field_ifs.peek ()))
+            throw std::runtime_error ("Invalid field value");
+
+        // The field must be able to hold it
+        if (!float_flag && f_size_t[i] > limit)
+            throw std::runtime_error ("A value does not fit into the field");
     }
 
     // Copy points
-- 
2.43.0


From e648ec74424cde0d5eaabee9ad582bd152a240cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:20 +0000
Subject: [PATCH 41/52] fix: refuse to copy values that do not fit the target
 field

---
 apps/transform/transform.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apps/transform/transform.h b/apps/transform/transform.h
index e367b55..670a10c 100644
--- a/apps/transform/transform.h
+++ b/apps/transform/transform.h
@@ -138,6 +138,11 @@ OP get_copy_field_op (const std::string &field_name1,
             break;
         }
 
+        // Make sure that the dest field can hold the value, an extra
+        // field always can
+        if (field_name2[0] != 'e')
+            detail::check_value (field_name2, src);
+
         // Set it in the dest field
         switch (field_name2[0])
         {
-- 
2.43.0


From 4159ceb8f010c85718d351c6563cbf49f9b11f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:52 +0000
Subject: [PATCH 42/52] fix: an exception in the parallel radius search ended
 the program

---
 spoc/radius_search.h | 54 ++++++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 19 deletions(-)

diff --git a/spoc/radius_search.h b/spoc/radius_search.h
index 19d5b6d..18d7e31 100644
--- a/spoc/radius_search.h
+++ b/spoc/radius_search.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <exception>
 #include <vector>
 
 #include "spoc/point_record.h"
@@ -263,30 +264,45 @@ void radius_search (
     // Map each unique i,j,k to a vector of indexes back into 'points'
     const auto neighbor_vim = spoc::voxel::get_voxel_index_map (neighbor_voxel_indexes);
 
+    // An exception can't leave a parallel region, so keep the last one
+    // and throw it afterwards
+    std::exception_ptr error;
+
     // For each search starting point
 #pragma omp parallel for
     for (size_t i = 0; i < point_voxel_indexes.size(); ++i)
     {
-        // The neighbor indexes
-        std::vector<size_t> neighbors;
-
-        neighbors = get_neighbors (i,
-                points,
-                point_indexes,
-                neighbor_indexes,
-                point_voxel_indexes,
-                neighbor_vim,
-                radius,
-                max_neighbors);
-
-        // Do the neighbor operation
-        //
-        // Be sure to make this operation thread-safe. See note above.
-        //
-        // Also note that 'i' is the index into 'point_indexes', not an index
-        // into 'points'.
-        neighbor_op (i, neighbors);
+        try
+        {
+            // The neighbor indexes
+            std::vector<size_t> neighbors;
+
+            neighbors = get_neighbors (i,
+                    points,
+                    point_indexes,
+                    neighbor_indexes,
+                    point_voxel_indexes,
+                    neighbor_vim,
+                    radius,
+                    max_neighbors);
+
+            // Do the neighbor operation
+            //
+            // Be sure to make this operation thread-safe. See note above.
+            //
+            // Also note that 'i' is the index into 'point_indexes', not an index
+            // into 'points'.
+            neighbor_op (i, neighbors);
+        }
+        catch (...)
+        {
+#pragma omp critical
+            error = std::current_exception ();
+        }
     }
+
+    if (error)
+        std::rethrow_exception (error);
 }
 
 /// @brief Perform 'op' on neighbors within a specified radius, only looking
-- 
2.43.0


From 76dd1a046a073cd40f51e9838575c6bf8f653ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:36 +0000
Subject: [PATCH 43/52] fix: quotes and control characters in strings made JSON
 output malformed

---
 spoc/json.h | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/spoc/json.h b/spoc/json.h
index 415613f..1cfd894 100644
--- a/spoc/json.h
+++ b/spoc/json.h
@@ -6,6 +6,7 @@
 #include <cstdint>
 #include <iostream>
 #include <map>
+#include <string>
 #include <vector>
 
 namespace spoc
@@ -48,6 +49,22 @@ inline void print_number (std::ostream &s, const T v)
         s << "'" << v << "'";
 }
 
+// Quotes, backslashes, and control characters must be escaped
+inline void print_string (std::ostream &s, const std::string &v)
+{
+    s << "'";
+    for (const unsigned char c : v)
+    {
+        if (c == '\'' || c == '\\')
+            s << '\\' << c;
+        else if (c < 0x20)
+            s << "\\u00" << "0123456789abcdef"[c >> 4] << "0123456789abcdef"[c & 15];
+        else
+            s << c;
+    }
+    s << "'";
+}
+
 inline void print_indents (std::ostream &s, const int indents)
 {
     for (auto i = 0; i < indents; ++i)
@@ -75,7 +92,7 @@ inline void pretty_print (std::ostream &s, const json::object &o, const int inde
     while (i != o.end ())
     {
         print_indents (s, indents + 1);
-        s << "'" << i->first << "'";
+        print_string (s, i->first);
         s << " : ";
         pretty_print (s, i->second, indents + 1);
         ++i;
@@ -128,15 +145,11 @@ inline void pretty_print (std::ostream &s, const json::value &v, const int inden
     }
     else if (v.type () == typeid (std::string))
     {
-        s << "'";
-        s << std::any_cast<std::string> (v);
-        s << "'";
+        print_string (s, std::any_cast<std::string> (v));
     }
     else if (v.type () == typeid (const char *))
     {
-        s << "'";
-        s << std::any_cast<const char *> (v);
-        s << "'";
+        print_string (s, std::any_cast<const char *> (v));
     }
     else if (v.type () == typeid (json::array))
         pretty_print (s, std::any_cast<json::array> (v), indents);
@@ -167,7 +180,7 @@ inline std::ostream &operator<< (std::ostream &s, const json::object &o)
     auto i = o.begin ();
     while (i != o.end ())
     {
-        s << "'" << i->first << "'";
+        print_string (s, i->first);
         s << " : ";
         s << i->second;
         ++i;
@@ -199,9 +212,9 @@ inline std::ostream &operator<< (std::ostream &s, const json::value &v)
     else if (v.type () == typeid (double))
         print_number (s, std::any_cast<double> (v));
     else if (v.type () == typeid (std::string))
-        s << "'" << std::any_cast<std::string> (v) << "'";
+        print_string (s, std::any_cast<std::string> (v));
     else if (v.type () == typeid (const char *))
-        s << "'" << std::any_cast<const char *> (v) << "'";
+        print_string (s, std::any_cast<const char *> (v));
     else if (v.type () == typeid (json::array))
         s << std::any_cast<json::array> (v);
     else if (v.type () == typeid (json::object))
-- 
2.43.0


From 878681d329b7115e20b6fddca674c94b5af53b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:52 +0000
Subject: [PATCH 44/52] fix: a shortage of memory left the records of a
 spoc_file inconsistent

---
 spoc/file.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/spoc/file.h b/spoc/file.h
index c98d2c2..5697914 100644
--- a/spoc/file.h
+++ b/spoc/file.h
@@ -179,6 +179,10 @@ class spoc_file
     /// fields in all point records must be resized
     void resize_extra_fields (const size_t extra_fields)
     {
+        // Allocate first so that the records stay consistent if there is not
+        // enough memory
+        for (auto &p : prs)
+            p.extra.reserve (extra_fields);
         for (auto &p : prs)
             p.extra.resize (extra_fields);
     }
@@ -225,7 +229,11 @@ class spoc_file
             throw std::runtime_error ("The point record extra fields have inconsistent sizes");
 
         // Set the point records
-        this->prs = prs;
+        //
+        // Copy first so that the records stay consistent if there is not
+        // enough memory
+        point_record::point_records tmp (prs);
+        this->prs.swap (tmp);
     }
 
     /// @brief Move point records from the spoc_file object
-- 
2.43.0


From 938e2974bc24cad2280fda06a72f13bffc9c562e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:06 +0000
Subject: [PATCH 45/52] fix: rescaling points along a dimension whose size is
 zero

---
 spoc/extent.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spoc/extent.h b/spoc/extent.h
index 7e8c762..340efda 100644
--- a/spoc/extent.h
+++ b/spoc/extent.h
@@ -109,10 +109,11 @@ inline spoc::point::point<uint64_t> rescale (const spoc::point::point<double> &p
     const spoc::point::point<double> &s,
     const spoc::point::point<double> &minp)
 {
+    // All coordinates are the same along a dimension whose size is zero
     spoc::point::point<uint64_t> q;
-    q.x = (p.x - minp.x) * max_value / s.x;
-    q.y = (p.y - minp.y) * max_value / s.y;
-    q.z = (p.z - minp.z) * max_value / s.z;
+    q.x = s.x == 0.0 ? 0.0 : (p.x - minp.x) * max_value / s.x;
+    q.y = s.y == 0.0 ? 0.0 : (p.y - minp.y) * max_value / s.y;
+    q.z = s.z == 0.0 ? 0.0 : (p.z - minp.z) * max_value / s.z;
     return q;
 }
 
-- 
2.43.0


From ba81d55179e836dd0814174a7b363853f1bd83be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:26 +0000
Subject: [PATCH 46/52] fix: uniform noise with a magnitude that is not finite

---
 apps/transform/transform.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/apps/transform/transform.h b/apps/transform/transform.h
index 670a10c..f3a6002 100644
--- a/apps/transform/transform.h
+++ b/apps/transform/transform.h
@@ -486,6 +486,10 @@ OP get_uniform_noise_op (const size_t random_seed,
     const double mag_y,
     const double mag_z)
 {
+    // The bounds of a uniform distribution must be finite
+    if (!std::isfinite (mag_x) || !std::isfinite (mag_y) || !std::isfinite (mag_z))
+        throw std::runtime_error ("The magnitude of uniform noise must be a finite number");
+
     // Create rng
     //
     // Every seed must give a different sequence
-- 
2.43.0


From 70045c7d749cbac10354373266ba4f698eacb110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:51 +0000
Subject: [PATCH 47/52] fix: upsampling took time proportional to the product
 of the points per voxel

---
 apps/tool/tool.h | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/apps/tool/tool.h b/apps/tool/tool.h
index 5223334..81c15f1 100644
--- a/apps/tool/tool.h
+++ b/apps/tool/tool.h
@@ -328,9 +328,10 @@ inline T upsample_classifications (
     // Get a map of voxel indexes to point record indexes in 'h'
     const auto vmh = get_voxel_index_map (vh);
 
-    // Count the number of high resolution point records that get
-    // assigned to a low resolution classification
-    size_t assigned_points = 0;
+    // Get the low resolution classification of each voxel in 'h'.
+    // There is only one per voxel, no matter how many low resolution
+    // points the voxel contains.
+    std::unordered_map<voxel_index, uint32_t, voxel_index_hash> classifications;
 
     // For each point record in the low resolution spoc file...
     for (size_t i = 0; i < l.get_point_records ().size (); ++i)
@@ -351,9 +352,20 @@ inline T upsample_classifications (
         if (vmh.find (v) == vmh.end ())
             continue; // No, skip to next voxel
 
+        // Remember the low resolution classification
+        classifications[v] = p.c;
+    }
+
+    // Count the number of high resolution point records that get
+    // assigned to a low resolution classification
+    size_t assigned_points = 0;
+
+    // For each voxel that contains a low resolution point record...
+    for (const auto &vc : classifications)
+    {
         // Get indexes of the point records that are in this high
         // resolution voxel
-        const auto &indexes = vmh.at (v);
+        const auto &indexes = vmh.at (vc.first);
 
         // Check our logic, if it matched a voxel, it can't be empty
         assert (!indexes.empty ());
@@ -369,7 +381,7 @@ inline T upsample_classifications (
             auto r = h.get_point_record (j);
 
             // Set it to low res classification
-            r.c = p.c;
+            r.c = vc.second;
             h.set_point_record (j, r);
 
             // Count the assignment
-- 
2.43.0


From 40f92f5129c3d348d27c8b18ad5abc6391b7fd6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:17 +0000
Subject: [PATCH 48/52] fix: tiles too small to be numbered put points of
 different cells in one tile

---
 apps/tile/tile.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/apps/tile/tile.h b/apps/tile/tile.h
index b9aea78..bd33b6c 100644
--- a/apps/tile/tile.h
+++ b/apps/tile/tile.h
@@ -3,8 +3,10 @@
 #include "spoc/extent.h"
 #include <algorithm>
 #include <cassert>
+#include <cmath>
 #include <iostream>
 #include <limits>
+#include <stdexcept>
 #include <vector>
 #include <unordered_map>
 
@@ -34,11 +36,25 @@ std::vector<size_t> get_tile_indexes (const T &p,
     const double tile_size_x,
     const double tile_size_y)
 {
-    // Get difference in X extent
+    // The extent of no points is empty
+    if (p.empty ())
+        return std::vector<size_t> ();
+
+    // Get difference in X and Y extents
     const double dx = e.maxp.x - e.minp.x;
+    const double dy = e.maxp.y - e.minp.y;
+
+    // Get the greatest X and Y indexes
+    const double max_xi = tile_size_x > 0.0 ? std::floor (dx / tile_size_x) : 0.0;
+    const double max_yi = tile_size_y > 0.0 ? std::floor (dy / tile_size_y) : 0.0;
+
+    // Make sure that all tile indexes can be represented
+    const double limit = static_cast<double> (std::numeric_limits<size_t>::max ());
+    if ((max_xi + 1.0) * (max_yi + 1.0) >= limit)
+        throw std::runtime_error ("The tile size is too small");
 
     // Compute the stride of the number of tiles
-    const size_t stride = tile_size_x > 0.0 ? dx / tile_size_x + 1.0 : 1.0;
+    const size_t stride = static_cast<size_t> (max_xi) + 1;
 
     // Allocate return value
     std::vector<size_t> indexes (p.size ());
-- 
2.43.0


From d80ffd3cda2cc81d874c0f6d022c55a5e97e88ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:27 +0000
Subject: [PATCH 49/52] fix: points whose voxel index can't be represented were
 put into the first voxel

---
 spoc/voxel.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/spoc/voxel.h b/spoc/voxel.h
index bd78a51..a86fcb1 100644
--- a/spoc/voxel.h
+++ b/spoc/voxel.h
@@ -37,14 +37,26 @@ struct voxel_index
     }
 };
 
+// Get an index along one dimension
+//
+// An offset that can't be represented gets the greatest index, which no
+// other offset has
+inline size_t get_dimension_index (const double offset)
+{
+    const double limit = static_cast<double> (std::numeric_limits<size_t>::max ());
+    if (!(offset > -1.0 && offset < limit))
+        return std::numeric_limits<size_t>::max ();
+    return offset;
+}
+
 // Get a 3D index given a point in xyz space
 template<typename T,typename U>
 voxel_index get_voxel_index (const T &p, const U &minp, const double res)
 {
     voxel_index v;
-    v.i = (p.x - minp.x) / res;
-    v.j = (p.y - minp.y) / res;
-    v.k = (p.z - minp.z) / res;
+    v.i = get_dimension_index ((p.x - minp.x) / res);
+    v.j = get_dimension_index ((p.y - minp.y) / res);
+    v.k = get_dimension_index ((p.z - minp.z) / res);
     return v;
 }
 
-- 
2.43.0


From 538da62658e39ad222aff489c31b3d1d0b38ae09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:47 +0000
Subject: [PATCH 50/52] fix: tiling coordinates that are not finite relied on
 undefined conversions

---
 apps/tile/tile.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/apps/tile/tile.h b/apps/tile/tile.h
index bd33b6c..96705e4 100644
--- a/apps/tile/tile.h
+++ b/apps/tile/tile.h
@@ -40,6 +40,11 @@ std::vector<size_t> get_tile_indexes (const T &p,
     if (p.empty ())
         return std::vector<size_t> ();
 
+    // Make sure that each point lies in a tile
+    for (const auto &i : p)
+        if (!std::isfinite (i.x) || !std::isfinite (i.y))
+            throw std::runtime_error ("The X and Y coordinates must be finite");
+
     // Get difference in X and Y extents
     const double dx = e.maxp.x - e.minp.x;
     const double dy = e.maxp.y - e.minp.y;
-- 
2.43.0


From 7a9a1f7ca2a45e3d02a0d68f30ee25e8312c280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:15:44 +0000
Subject: [PATCH 51/52] fix: spoc_merge: input files without points suppressed
 the area warning

---
 apps/merge/merge.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/apps/merge/merge.cpp b/apps/merge/merge.cpp
index 5395917..652bf0b 100644
--- a/apps/merge/merge.cpp
+++ b/apps/merge/merge.cpp
@@ -93,8 +93,10 @@ int main (int argc, char **argv)
             // Get the extent
             const auto e = get_extent (p);
 
-            // Get the area
-            const auto a = (e.maxp.x - e.minp.x) * (e.maxp.y - e.minp.y);
+            // Get the area, a file without points has none
+            const auto a = p.empty ()
+                ? 0.0
+                : (e.maxp.x - e.minp.x) * (e.maxp.y - e.minp.y);
 
             // Sum areas
             area_sum += a;
-- 
2.43.0


From 81b13b67cd47120b6b4f7809b8114eafc85e2379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:37 +0000
Subject: [PATCH 52/52] fix: compressing from a stream that fails looped
 forever

---
 spoc/compression.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/spoc/compression.h b/spoc/compression.h
index 1452f0a..3d90792 100644
--- a/spoc/compression.h
+++ b/spoc/compression.h
@@ -137,6 +137,13 @@ inline void compress (std::istream &is, std::ostream &os, const int level)
     do {
         // Read into buffer from stream
         is.read (reinterpret_cast<char *> (&input_buffer[0]), BUFFER_SIZE);
+
+        // GCOV_EXCL_START
+        // The input failed before its end was reached
+        if (is.fail () && !is.eof ())
+            throw std::runtime_error (zlib_error_string (Z_ERRNO));
+        // GCOV_EXCL_STOP
+
         deflator.s.avail_in = is.gcount();
         deflator.s.next_in = &input_buffer[0];
 
-- 
2.43.0

