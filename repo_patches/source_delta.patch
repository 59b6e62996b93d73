From 6ac520454de6e6656303725026ebfc4d0a1eb0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 01/53] fix: HarmonicCoeffs resize/move-assignment kept stale
 row storage

---
 src/gravity/harmonic_coeffs.cpp   | 23 +++++++++++++----------
 var/icgem/src/harmonic_coeffs.cpp | 11 +++++++----
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/gravity/harmonic_coeffs.cpp b/src/gravity/harmonic_coeffs.cpp
index 9def5a1..3853b2c 100644
--- a/src/gravity/harmonic_coeffs.cpp
+++ b/src/gravity/harmonic_coeffs.cpp
@@ -21,9 +21,9 @@ int dso::HarmonicCoeffs::deallocate() noexcept {
 }
 
 void dso::HarmonicCoeffs::resize(int degree) noexcept {
-    if (degree <= m_degree) {
-      m_degree = degree;
-    } else {
+    // rows are allocated (and freed) per degree, so any change of degree needs
+    // new storage
+    if (degree != m_degree || !m_data) {
       deallocate();
       m_data = nullptr;
       m_degree = degree;
@@ -45,13 +45,16 @@ dso::HarmonicCoeffs::HarmonicCoeffs(dso::HarmonicCoeffs &&h) noexcept {
 
 dso::HarmonicCoeffs &
 dso::HarmonicCoeffs::operator=(dso::HarmonicCoeffs &&h) noexcept {
-  this->m_degree = h.m_degree;
-  this->m_data = h.m_data;
-  this->_GM = h._GM;
-  this->_Re = h._Re;
-  this->_cnormalized = h._cnormalized;
-  h.m_degree = 0;
-  h.m_data = nullptr;
+  if (this != &h) {
+    this->deallocate();
+    this->m_degree = h.m_degree;
+    this->m_data = h.m_data;
+    this->_GM = h._GM;
+    this->_Re = h._Re;
+    this->_cnormalized = h._cnormalized;
+    h.m_degree = 0;
+    h.m_data = nullptr;
+  }
   return *this;
 }
 
diff --git a/var/icgem/src/harmonic_coeffs.cpp b/var/icgem/src/harmonic_coeffs.cpp
index 65903d2..5af3904 100644
--- a/var/icgem/src/harmonic_coeffs.cpp
+++ b/var/icgem/src/harmonic_coeffs.cpp
@@ -30,10 +30,13 @@ dso::HarmonicCoeffs::HarmonicCoeffs(dso::HarmonicCoeffs &&h) noexcept {
 
 dso::HarmonicCoeffs &
 dso::HarmonicCoeffs::operator=(dso::HarmonicCoeffs &&h) noexcept {
-  this->m_degree = h.m_degree;
-  this->m_data = h.m_data;
-  h.m_degree = 0;
-  h.m_data = nullptr;
+  if (this != &h) {
+    this->deallocate();
+    this->m_degree = h.m_degree;
+    this->m_data = h.m_data;
+    h.m_degree = 0;
+    h.m_data = nullptr;
+  }
   return *this;
 }
 
-- 
2.43.0


From 687c0c4bdc4aec6691dac0d8d4a42c25fedd1393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 02/53] fix: Mat2D copy, assignment and trapezoid indexing

---
 src/cmat2d.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/cmat2d.hpp b/src/cmat2d.hpp
index 3b5d232..c95c8a4 100644
--- a/src/cmat2d.hpp
+++ b/src/cmat2d.hpp
@@ -69,7 +69,7 @@ template <> struct StorageImplementation<MatrixStorageType::Trapezoid> {
   /// E.g. data[element_offset(1,2)] will return the element in the second row,
   /// and third column.
   constexpr int element_offset(int row, int column) const noexcept {
-    return (column <= rows) ? (slice(row) + column) : (slice(column) + row);
+    return (column <= row) ? (slice(row) + column) : (slice(column) + row);
   }
 
 #ifdef DEBUG
@@ -234,7 +234,7 @@ public:
 
   Mat2D(const Mat2D &mat) noexcept
       : m_storage(mat.m_storage), m_data(new double[mat.num_elements()]) {
-    std::memset(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+    std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
   }
 
   Mat2D(Mat2D &&mat) noexcept : m_storage(mat.m_storage), m_data(mat.m_data) {
@@ -243,11 +243,11 @@ public:
 
   Mat2D &operator=(const Mat2D &mat) noexcept {
     if (this != &mat) {
-      if (m_data && (m_storage.num_elements() != mat.num_elements())) {
+      if (!m_data || (num_elements() != mat.num_elements())) {
         delete[] m_data;
         m_data = new double[mat.num_elements()];
       }
-      std::memset(m_data, mat.m_data, sizeof(double) * mat.num_elements());
+      std::memcpy(m_data, mat.m_data, sizeof(double) * mat.num_elements());
       m_storage.rows = mat.rows();
       m_storage.cols = mat.cols();
     }
@@ -255,10 +255,14 @@ public:
   }
 
   Mat2D &operator=(Mat2D &&mat) noexcept {
-    m_storage.rows = mat.rows();
-    m_storage.cols = mat.cols();
-    m_data = mat.m_data;
-    mat.m_data = nullptr;
+    if (this != &mat) {
+      delete[] m_data;
+      m_storage.rows = mat.rows();
+      m_storage.cols = mat.cols();
+      m_data = mat.m_data;
+      mat.m_data = nullptr;
+    }
+    return *this;
   }
 
 #ifdef DEBUG
-- 
2.43.0


From 2329c8c3476c2b7ef35dcf46b78060b5ce7231b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:08 +0000
Subject: [PATCH 03/53] fix: denormalize overflowed for high degrees and
 aborted on degree 0

---
 src/gravity/harmonic_coeffs.cpp   | 7 ++++---
 var/icgem/src/harmonic_coeffs.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/gravity/harmonic_coeffs.cpp b/src/gravity/harmonic_coeffs.cpp
index 3853b2c..24dd7ae 100644
--- a/src/gravity/harmonic_coeffs.cpp
+++ b/src/gravity/harmonic_coeffs.cpp
@@ -58,6 +58,8 @@ dso::HarmonicCoeffs::operator=(dso::HarmonicCoeffs &&h) noexcept {
   return *this;
 }
 
+/// square root of (n+m)! / (n-m)!; the roots are accumulated, since the ratio
+/// itself overflows for (moderately) large degrees
 double _sum(int n, int m) noexcept {
   if (m == 0)
     return 1e0;
@@ -65,13 +67,13 @@ double _sum(int n, int m) noexcept {
   int stop = n + m;
   double fac = 1e0;
   for (int i = start; i <= stop; i++)
-    fac *= (double)i;
+    fac *= std::sqrt((double)i);
   return fac;
 }
 
 int compute_fac(int n, int m, double *fac) noexcept {
   for (int i = 0; i <= m; i++)
-    fac[i] = std::sqrt(_sum(n, i) / (2 * n + 1) / (2 - (i == 0)));
+    fac[i] = _sum(n, i) * std::sqrt(1e0 / (2 * n + 1) / (2 - (i == 0)));
   return 0;
 }
 
@@ -88,7 +90,6 @@ int dso::HarmonicCoeffs::denormalize(int order) noexcept {
     return 1;
   }
 
-  assert(m_degree > 0);
   double *facs = new double[m_degree + 1];
   for (int n = 1; n <= m_degree; n++) {
     int mm = std::min(order, n);
diff --git a/var/icgem/src/harmonic_coeffs.cpp b/var/icgem/src/harmonic_coeffs.cpp
index 5af3904..bfd6157 100644
--- a/var/icgem/src/harmonic_coeffs.cpp
+++ b/var/icgem/src/harmonic_coeffs.cpp
@@ -40,6 +40,8 @@ dso::HarmonicCoeffs::operator=(dso::HarmonicCoeffs &&h) noexcept {
   return *this;
 }
 
+/// square root of (n+m)! / (n-m)!; the roots are accumulated, since the ratio
+/// itself overflows for (moderately) large degrees
 double _sum(int n, int m) noexcept {
   if (m == 0)
     return 1e0;
@@ -47,13 +49,13 @@ double _sum(int n, int m) noexcept {
   int stop = n + m;
   double fac = 1e0;
   for (int i = start; i <= stop; i++)
-    fac *= (double)i;
+    fac *= std::sqrt((double)i);
   return fac;
 }
 
 int compute_fac(int n, int m, double *fac) noexcept {
   for (int i = 0; i <= m; i++)
-    fac[i] = std::sqrt(_sum(n, i) / (2 * n + 1) / (2 - (i == 0)));
+    fac[i] = _sum(n, i) * std::sqrt(1e0 / (2 * n + 1) / (2 - (i == 0)));
   return 0;
 }
 
@@ -68,7 +70,6 @@ int dso::HarmonicCoeffs::denormalize(int order) noexcept {
     return 1;
   }
 
-  assert(m_degree > 0);
   double *facs = new double[m_degree + 1];
   for (int n = 1; n <= m_degree; n++) {
     int mm = std::min(order, n);
-- 
2.43.0


From a4c37525a1855ad7db5dc3c718a1ed4ab082fa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:39 +0000
Subject: [PATCH 04/53] fix: icgem header parsing (keyword/value boundaries,
 malformed, over-long and missing values)

---
 src/gravity/icgemio_rdhead.cpp   | 111 +++++++++++++++++++++++--------
 var/icgem/src/icgemio_rdhead.cpp | 111 +++++++++++++++++++++++--------
 2 files changed, 170 insertions(+), 52 deletions(-)

diff --git a/src/gravity/icgemio_rdhead.cpp b/src/gravity/icgemio_rdhead.cpp
index cce597d..c6b517c 100644
--- a/src/gravity/icgemio_rdhead.cpp
+++ b/src/gravity/icgemio_rdhead.cpp
@@ -1,5 +1,7 @@
 #include "icgemio.hpp"
-#include <cassert>
+#include <algorithm>
+#include <cctype>
+#include <cmath>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
@@ -31,14 +33,14 @@ void dso::Icgem::print_details() {
 ///          return '\0'
 const char *next_non_ws_char(const char *line) noexcept {
   const char *s = line;
-  while (*s && *s == ' ')
+  while (*s && std::isspace((unsigned char)*s))
     ++s;
   return s;
 }
 
 const char *next_ws_char(const char *line) noexcept {
   const char *s = line;
-  while (*s && *s != ' ')
+  while (*s && !std::isspace((unsigned char)*s))
     ++s;
   return s;
 }
@@ -53,16 +55,17 @@ const char *resolve_header_keyword(const char *parameter_name, const char *line,
   keyword_size = 0;
 
   // does the line start with the parameter_name string ?
-  if (!std::strncmp(line, parameter_name, psz)) {
+  if (!std::strncmp(line, parameter_name, psz) &&
+      (!line[psz] || std::isspace((unsigned char)line[psz]))) {
     // start of new word after the keyword in line
-    const char *start = next_non_ws_char(line + psz + 1);
+    const char *start = next_non_ws_char(line + psz);
     // start of second word after the keyword in line
     const char *stop = next_ws_char(start);
-    if (!start || !stop) {
+    if (start == stop) {
       keyword_size = -1;
       return nullptr;
     }
-    keyword_size = stop - start + 1;
+    keyword_size = stop - start;
     return start;
   } else {
     // parameter_name not matched in begining of line; return NULL
@@ -70,6 +73,29 @@ const char *resolve_header_keyword(const char *parameter_name, const char *line,
   }
 }
 
+/// Copy a (header parameter) value of given size to a character array of (total)
+/// size sz; returns non-zero if the value does not fit.
+int copy_value(const char *value, int size, char *to, std::size_t sz) noexcept {
+  if (size >= (int)sz)
+    return 1;
+  std::memcpy(to, value, size);
+  to[size] = '\0';
+  return 0;
+}
+
+/// Resolve a numeric (header parameter) value; exponents can be given in
+/// Fortran format. The whole of the value must be numeric. Returns non-zero in
+/// case of error
+int resolve_double(const char *value, int size, double &d) noexcept {
+  char tmp[64], *end;
+  if (copy_value(value, size, tmp, sizeof(tmp)))
+    return 1;
+  std::replace(tmp, tmp + size, 'D', 'E');
+  std::replace(tmp, tmp + size, 'd', 'e');
+  d = std::strtod(tmp, &end);
+  return end == tmp || *end || !std::isfinite(d);
+}
+
 /// @warning this function assumes that comment and header lines do not exceed
 ///          256 characters; this is not guaranteed by the icgem format, but
 ///          practically holds for all cases.
@@ -89,7 +115,7 @@ int dso::Icgem::parse_header() noexcept {
 
   // keep reading new lines untill we meet a line starting with 'end_of_head'
   fin.getline(buf, bsz);
-  while (std::strncmp(buf, "end_of_head", 11)) {
+  while (std::strncmp(next_non_ws_char(buf), "end_of_head", 11)) {
     // the line read can start with leading whitespace characters; skip them
     // it can also be empty!
     const char *line = next_non_ws_char(buf);
@@ -103,8 +129,13 @@ int dso::Icgem::parse_header() noexcept {
               "product_type", filename.c_str(), __func__);
       error = 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(product_type));
-      std::strncpy(product_type, keyword, keyword_size);
+      if (copy_value(keyword, keyword_size, product_type, sizeof(product_type))) {
+        fprintf(stderr,
+                "[ERROR] Value too long for parameter %s in icgem "
+                "%s(traceback: %s)\n",
+                "product_type", filename.c_str(), __func__);
+        error = 1;
+      }
     }
 
     // check if this the 'modelname' field (mandatory keyword)
@@ -116,8 +147,13 @@ int dso::Icgem::parse_header() noexcept {
               "modelname", filename.c_str(), __func__);
       error = 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(modelname));
-      std::strncpy(modelname, keyword, keyword_size);
+      if (copy_value(keyword, keyword_size, modelname, sizeof(modelname))) {
+        fprintf(stderr,
+                "[ERROR] Value too long for parameter %s in icgem "
+                "%s(traceback: %s)\n",
+                "modelname", filename.c_str(), __func__);
+        error = 1;
+      }
     }
 
     // check if this the 'earth_gravity_constant' field (mandatory keyword)
@@ -130,9 +166,7 @@ int dso::Icgem::parse_header() noexcept {
               "earth_gravity_constant", filename.c_str(), __func__);
       error = 1;
     } else if (keyword) {
-      char *end;
-      earth_gravity_constant = std::strtod(keyword, &end);
-      if (end == keyword || earth_gravity_constant == 0e0) {
+      if (resolve_double(keyword, keyword_size, earth_gravity_constant) || earth_gravity_constant <= 0e0) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
                 "%s(traceback: %s)\n",
@@ -150,9 +184,7 @@ int dso::Icgem::parse_header() noexcept {
               "radius", filename.c_str(), __func__);
       error = 1;
     } else if (keyword) {
-      char *end;
-      radius = std::strtod(keyword, &end);
-      if (end == keyword || radius == 0e0) {
+      if (resolve_double(keyword, keyword_size, radius) || radius <= 0e0) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
                 "%s(traceback: %s)\n",
@@ -171,8 +203,10 @@ int dso::Icgem::parse_header() noexcept {
       error = 1;
     } else if (keyword) {
       char *end;
-      max_degree = std::strtol(keyword, &end, 10);
-      if (end == keyword || max_degree == 0e0) {
+      const long degree = std::strtol(keyword, &end, 10);
+      max_degree = (int)degree;
+      if (end == keyword || end != keyword + keyword_size || degree <= 0 ||
+          degree != max_degree) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
                 "%s(traceback: %s)\n",
@@ -190,8 +224,13 @@ int dso::Icgem::parse_header() noexcept {
               "errors", filename.c_str(), __func__);
       error = 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(errors));
-      std::strncpy(errors, keyword, keyword_size);
+      if (copy_value(keyword, keyword_size, errors, sizeof(errors))) {
+        fprintf(stderr,
+                "[ERROR] Value too long for parameter %s in icgem "
+                "%s(traceback: %s)\n",
+                "errors", filename.c_str(), __func__);
+        error = 1;
+      }
     }
 
     // check if this the 'tide_system' field (optional keyword)
@@ -203,8 +242,13 @@ int dso::Icgem::parse_header() noexcept {
               "tide_system", filename.c_str(), __func__);
       error = 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(tide_system));
-      std::strncpy(tide_system, keyword, keyword_size);
+      if (copy_value(keyword, keyword_size, tide_system, sizeof(tide_system))) {
+        fprintf(stderr,
+                "[ERROR] Value too long for parameter %s in icgem "
+                "%s(traceback: %s)\n",
+                "tide_system", filename.c_str(), __func__);
+        error = 1;
+      }
     }
 
     // check if this the 'norm' field (optional keyword)
@@ -216,8 +260,13 @@ int dso::Icgem::parse_header() noexcept {
               "norm", filename.c_str(), __func__);
       error = 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(norm));
-      std::strncpy(norm, keyword, keyword_size);
+      if (copy_value(keyword, keyword_size, norm, sizeof(norm))) {
+        fprintf(stderr,
+                "[ERROR] Value too long for parameter %s in icgem "
+                "%s(traceback: %s)\n",
+                "norm", filename.c_str(), __func__);
+        error = 1;
+      }
     }
 
     fin.getline(buf, bsz);
@@ -233,6 +282,16 @@ int dso::Icgem::parse_header() noexcept {
 
   } // keep on parsing (header) lines ...
 
+  // all of the mandatory keywords should have been resolved
+  if (!*product_type || !*modelname || !*errors ||
+      earth_gravity_constant == 0e0 || radius == 0e0 || max_degree == 0) {
+    fprintf(stderr,
+            "[ERROR] Missing mandatory parameter(s) in header of icgem %s "
+            "(traceback: %s)\n",
+            filename.c_str(), __func__);
+    return 1;
+  }
+
   data_section_pos = fin.tellg();
   return 0;
 }
diff --git a/var/icgem/src/icgemio_rdhead.cpp b/var/icgem/src/icgemio_rdhead.cpp
index eee0992..faed05a 100644
--- a/var/icgem/src/icgemio_rdhead.cpp
+++ b/var/icgem/src/icgemio_rdhead.cpp
@@ -1,5 +1,7 @@
 #include "icgemio.hpp"
-#include <cassert>
+#include <algorithm>
+#include <cctype>
+#include <cmath>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
@@ -24,14 +26,14 @@ void dso::Icgem::print_details() {
 
 const char *next_non_ws_char(const char *line) noexcept {
   const char *s = line;
-  while (*s && *s == ' ')
+  while (*s && std::isspace((unsigned char)*s))
     ++s;
   return s;
 }
 
 const char *next_ws_char(const char *line) noexcept {
   const char *s = line;
-  while (*s && *s != ' ')
+  while (*s && !std::isspace((unsigned char)*s))
     ++s;
   return s;
 }
@@ -40,20 +42,44 @@ const char *resolve_header_keyword(const char *parameter_name, const char *line,
                                    int &keyword_size) noexcept {
   auto psz = std::strlen(parameter_name);
   keyword_size = 0;
-  if (!std::strncmp(line, parameter_name, psz)) {
-    const char *start = next_non_ws_char(line + psz + 1);
+  if (!std::strncmp(line, parameter_name, psz) &&
+      (!line[psz] || std::isspace((unsigned char)line[psz]))) {
+    const char *start = next_non_ws_char(line + psz);
     const char *stop = next_ws_char(start);
-    if (!start || !stop) {
+    if (start == stop) {
       keyword_size = -1;
       return nullptr;
     }
-    keyword_size = stop - start + 1;
+    keyword_size = stop - start;
     return start;
   } else {
     return nullptr;
   }
 }
 
+/// Copy a (header parameter) value of given size to a character array of (total)
+/// size sz; returns non-zero if the value does not fit.
+int copy_value(const char *value, int size, char *to, std::size_t sz) noexcept {
+  if (size >= (int)sz)
+    return 1;
+  std::memcpy(to, value, size);
+  to[size] = '\0';
+  return 0;
+}
+
+/// Resolve a numeric (header parameter) value; exponents can be given in
+/// Fortran format. The whole of the value must be numeric. Returns non-zero in
+/// case of error
+int resolve_double(const char *value, int size, double &d) noexcept {
+  char tmp[64], *end;
+  if (copy_value(value, size, tmp, sizeof(tmp)))
+    return 1;
+  std::replace(tmp, tmp + size, 'D', 'E');
+  std::replace(tmp, tmp + size, 'd', 'e');
+  d = std::strtod(tmp, &end);
+  return end == tmp || *end || !std::isfinite(d);
+}
+
 /// @warning this function assumes that comment and header lines do not exceed
 ///          256 characters; this is not guaranteed by the icgem format, but
 ///          practically holds for all cases.
@@ -71,7 +97,7 @@ int dso::Icgem::parse_header() noexcept {
   int counter = 0;
 
   fin.getline(buf, bsz);
-  while (std::strncmp(buf, "end_of_head", 11)) {
+  while (std::strncmp(next_non_ws_char(buf), "end_of_head", 11)) {
     // the line read can start with leading whitespace characters; skip them
     // it can also be empty!
     const char *line = next_non_ws_char(buf);
@@ -84,8 +110,13 @@ int dso::Icgem::parse_header() noexcept {
               "product_type", filename.c_str(), __func__);
       return 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(product_type));
-      std::strncpy(product_type, keyword, keyword_size);
+      if (copy_value(keyword, keyword_size, product_type, sizeof(product_type))) {
+        fprintf(stderr,
+                "[ERROR] Value too long for parameter %s in icgem "
+                "%s(traceback: %s)\n",
+                "product_type", filename.c_str(), __func__);
+        return 1;
+      }
     }
 
     keyword = resolve_header_keyword("modelname", line, keyword_size);
@@ -96,8 +127,13 @@ int dso::Icgem::parse_header() noexcept {
               "modelname", filename.c_str(), __func__);
       return 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(modelname));
-      std::strncpy(modelname, keyword, keyword_size);
+      if (copy_value(keyword, keyword_size, modelname, sizeof(modelname))) {
+        fprintf(stderr,
+                "[ERROR] Value too long for parameter %s in icgem "
+                "%s(traceback: %s)\n",
+                "modelname", filename.c_str(), __func__);
+        return 1;
+      }
     }
 
     keyword =
@@ -109,9 +145,7 @@ int dso::Icgem::parse_header() noexcept {
               "earth_gravity_constant", filename.c_str(), __func__);
       return 1;
     } else if (keyword) {
-      char *end;
-      earth_gravity_constant = std::strtod(keyword, &end);
-      if (end == keyword || earth_gravity_constant == 0e0) {
+      if (resolve_double(keyword, keyword_size, earth_gravity_constant) || earth_gravity_constant <= 0e0) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
                 "%s(traceback: %s)\n",
@@ -128,9 +162,7 @@ int dso::Icgem::parse_header() noexcept {
               "radius", filename.c_str(), __func__);
       return 1;
     } else if (keyword) {
-      char *end;
-      radius = std::strtod(keyword, &end);
-      if (end == keyword || radius == 0e0) {
+      if (resolve_double(keyword, keyword_size, radius) || radius <= 0e0) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
                 "%s(traceback: %s)\n",
@@ -148,8 +180,10 @@ int dso::Icgem::parse_header() noexcept {
       return 1;
     } else if (keyword) {
       char *end;
-      max_degree = std::strtol(keyword, &end, 10);
-      if (end == keyword || max_degree == 0e0) {
+      const long degree = std::strtol(keyword, &end, 10);
+      max_degree = (int)degree;
+      if (end == keyword || end != keyword + keyword_size || degree <= 0 ||
+          degree != max_degree) {
         fprintf(stderr,
                 "[ERROR] Failed parsing value for parameter %s in icgem "
                 "%s(traceback: %s)\n",
@@ -166,8 +200,13 @@ int dso::Icgem::parse_header() noexcept {
               "errors", filename.c_str(), __func__);
       return 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(errors));
-      std::strncpy(errors, keyword, keyword_size);
+      if (copy_value(keyword, keyword_size, errors, sizeof(errors))) {
+        fprintf(stderr,
+                "[ERROR] Value too long for parameter %s in icgem "
+                "%s(traceback: %s)\n",
+                "errors", filename.c_str(), __func__);
+        return 1;
+      }
     }
 
     keyword = resolve_header_keyword("tide_system", line, keyword_size);
@@ -178,8 +217,13 @@ int dso::Icgem::parse_header() noexcept {
               "tide_system", filename.c_str(), __func__);
       return 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(tide_system));
-      std::strncpy(tide_system, keyword, keyword_size);
+      if (copy_value(keyword, keyword_size, tide_system, sizeof(tide_system))) {
+        fprintf(stderr,
+                "[ERROR] Value too long for parameter %s in icgem "
+                "%s(traceback: %s)\n",
+                "tide_system", filename.c_str(), __func__);
+        return 1;
+      }
     }
 
     keyword = resolve_header_keyword("norm", line, keyword_size);
@@ -190,8 +234,13 @@ int dso::Icgem::parse_header() noexcept {
               "norm", filename.c_str(), __func__);
       return 1;
     } else if (keyword) {
-      assert(keyword_size < (int)sizeof(norm));
-      std::strncpy(norm, keyword, keyword_size);
+      if (copy_value(keyword, keyword_size, norm, sizeof(norm))) {
+        fprintf(stderr,
+                "[ERROR] Value too long for parameter %s in icgem "
+                "%s(traceback: %s)\n",
+                "norm", filename.c_str(), __func__);
+        return 1;
+      }
     }
 
     fin.getline(buf, bsz);
@@ -204,6 +253,16 @@ int dso::Icgem::parse_header() noexcept {
     }
   }
 
+  // all of the mandatory keywords should have been resolved
+  if (!*product_type || !*modelname || !*errors ||
+      earth_gravity_constant == 0e0 || radius == 0e0 || max_degree == 0) {
+    fprintf(stderr,
+            "[ERROR] Missing mandatory parameter(s) in header of icgem %s "
+            "(traceback: %s)\n",
+            filename.c_str(), __func__);
+    return 1;
+  }
+
   data_section_pos = fin.tellg();
   return 0;
 }
-- 
2.43.0


From 71e77627d77ab0d8b05a5c22f156202ff4cd6322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:00 +0000
Subject: [PATCH 05/53] fix: icgem data parsing (indexes, duplicates, missing
 degree-1 terms, Fortran exponents, last line)

---
 src/gravity/icgemio_rddata.cpp   | 73 +++++++++++++++++++++-----------
 var/icgem/src/icgemio_rddata.cpp | 73 +++++++++++++++++++++-----------
 2 files changed, 96 insertions(+), 50 deletions(-)

diff --git a/src/gravity/icgemio_rddata.cpp b/src/gravity/icgemio_rddata.cpp
index a240e93..560a449 100644
--- a/src/gravity/icgemio_rddata.cpp
+++ b/src/gravity/icgemio_rddata.cpp
@@ -1,8 +1,11 @@
 #include "icgemio.hpp"
-#include <cassert>
+#include <algorithm>
+#include <cctype>
+#include <cmath>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <vector>
 
 ///< approximate max data line length, see
 ///< http://icgem.gfz-potsdam.de/ICGEM-Format-2011.pdf
@@ -31,7 +34,7 @@ std::size_t coeffs_nr(int l, int m) noexcept {
 int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
   int error = 0;
-  if (l > max_degree || m > l) {
+  if (l > max_degree || m > l || m < 0) {
     fprintf(
         stderr,
         "[ERROR] Invalid degree/order given to data parse (traceback: %s)\n",
@@ -66,26 +69,26 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
   // Note (1)
   // -------------------------------------------------------------------------
   // for some gfc files (e.g. the EGM2008) it may happen that the values for
-  // C_10 and C_11 are missing; that is because the are nominally zero; here
-  // we will set them to some random value, so that if at the end of parsing
-  // we are missing exactly two values and the C_10 and C_11 have the values
-  // set here, these are the ones not parsed!
-  coeffs->C(1, 0) = -999e0;
-  coeffs->C(1, 1) = -999e0;
+  // C_10 and/or C_11 are missing; that is because the are nominally zero. We
+  // keep track of the coefficients actually read, so that if at the end of
+  // parsing these are the only ones missing, they can be set to zero.
+  std::vector<bool> parsed((std::size_t)(l + 1) * (l + 1), false);
 
   char line[max_data_line], *end, *start;
-  int ll, mm;
+  long ll, mm;
   double Clm, Slm;
   std::size_t coeffs_read = 0, coeffs_to_read = coeffs_nr(l, m);
 
-  fin.getline(line, max_data_line);
-  while (fin.good() && coeffs_read < coeffs_to_read) {
+  while (coeffs_read < coeffs_to_read && fin.getline(line, max_data_line)) {
     // we are only interested in lines that start with 'gfc' (but not 'gfct')
     if (starts_with("gfc ", line)) {
 
       // expecting columns: degree, order, Clm, Slm, [...]; note that it
       // (seldom) happens that the doubles are written in fortran format ...
       start = line + 4;
+      for (char *c = start; *c; ++c)
+        if (*c == 'D' || *c == 'd')
+          *c = 'e';
       ll = std::strtol(start, &end, 10);
       if (end == start) {
         fprintf(stderr,
@@ -105,13 +108,22 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
         return 1;
       }
 
+      if (!std::isspace((unsigned char)*end) || ll < 0 || mm < 0 || mm > ll) {
+        fprintf(stderr,
+                "[ERROR] Invalid degree/order in line: [%s]; icgem file %s "
+                "(traceback: %s)\n",
+                line, filename.c_str(), __func__);
+        return 1;
+      }
+
       // only interested in the coefficients, if degree and order are less than
       // max
       if (ll <= l && mm <= m) {
 
         start = end;
         Clm = std::strtod(start, &end);
-        if (end == start) {
+        if (end == start || !std::isspace((unsigned char)*end) ||
+            !std::isfinite(Clm)) {
           fprintf(stderr,
                   "[ERROR] Failed parsing Clm parameter in line: [%s]; icgem "
                   "file %s (traceback: %s)\n",
@@ -121,7 +133,8 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
         start = end;
         Slm = std::strtod(start, &end);
-        if (end == start) {
+        if (end == start || (*end && !std::isspace((unsigned char)*end)) ||
+            !std::isfinite(Slm) || (mm == 0 && Slm != 0e0)) {
           fprintf(stderr,
                   "[ERROR] Failed parsing Slm parameter in line: [%s]; icgem "
                   "file %s (traceback: %s)\n",
@@ -130,30 +143,40 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
         }
 
         // assign to harmonic coefficients matrix
+        if (parsed[ll * (l + 1) + mm]) {
+          fprintf(stderr,
+                  "[ERROR] Duplicate coefficients in line: [%s]; icgem file %s "
+                  "(traceback: %s)\n",
+                  line, filename.c_str(), __func__);
+          return 1;
+        }
+        parsed[ll * (l + 1) + mm] = true;
         coeffs->C(ll, mm) = Clm;
         ++coeffs_read;
-        if (mm == 0) {
-          assert(Slm == 0e0);
-        } else {
+        if (mm > 0)
           coeffs->S(ll, mm) = Slm;
-        }
       }
     }
-
-    fin.getline(line, max_data_line);
   }
 
   if (coeffs_read < coeffs_to_read) {
     // before reporting an error, see if we are in the case described in
     // note (1)
-    if (coeffs_to_read - coeffs_read == 2 &&
-        (coeffs->C(1, 0) == coeffs->C(1, 1) && coeffs->C(1, 1) == -999e0)) {
-      printf("[NOTE] The coefficients C(1,0) and C(1,1) are not explicitly "
+    const int order = (l > 0) ? std::min(m, 1) : -1;
+    std::size_t missing = 0;
+    for (int i = 0; i <= order; i++)
+      missing += !parsed[(l + 1) + i];
+    if (coeffs_to_read - coeffs_read == missing) {
+      printf("[NOTE] Setting to zero the degree 1 coefficients not explicitly "
              "written in the icgem file: %s\n",
              filename.c_str());
-      printf("[NOTE] Setting C(1, 0) = C(1, 1) = 0e0\n");
-      coeffs->C(1, 0) = 0e0;
-      coeffs->C(1, 1) = 0e0;
+      for (int i = 0; i <= order; i++) {
+        if (!parsed[(l + 1) + i]) {
+          coeffs->C(1, i) = 0e0;
+          if (i)
+            coeffs->S(1, i) = 0e0;
+        }
+      }
     } else {
       fprintf(stderr,
               "[ERROR] EOF reached before reading all Snm/Cnm coefficients! "
diff --git a/var/icgem/src/icgemio_rddata.cpp b/var/icgem/src/icgemio_rddata.cpp
index 8f3c87d..75d900f 100644
--- a/var/icgem/src/icgemio_rddata.cpp
+++ b/var/icgem/src/icgemio_rddata.cpp
@@ -1,8 +1,11 @@
 #include "icgemio.hpp"
-#include <cassert>
+#include <algorithm>
+#include <cctype>
+#include <cmath>
 #include <cstdio>
 #include <cstdlib>
 #include <cstring>
+#include <vector>
 
 ///< approximate max data line length, see
 ///< http://icgem.gfz-potsdam.de/ICGEM-Format-2011.pdf
@@ -30,7 +33,7 @@ std::size_t coeffs_nr(int l, int m) noexcept {
 ///          enough memmory to hold the (to-be-) parsed coefficients.
 int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
-  if (l > max_degree || m > l) {
+  if (l > max_degree || m > l || m < 0) {
     fprintf(
         stderr,
         "[ERROR] Invalid degree/order given to data parse (traceback: %s)\n",
@@ -58,26 +61,26 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
   // Note (1)
   // -------------------------------------------------------------------------
   // for some gfc files (e.g. the EGM2008) it may happen that the values for
-  // C_10 and C_11 are missing; that is because the are nominally zero; here
-  // we will set them to some random value, so that if at the end of parsing
-  // we are missing exactly two values and the C_10 and C_11 have the values
-  // set here, these are the ones not parsed!
-  coeffs->C(1, 0) = -999e0;
-  coeffs->C(1, 1) = -999e0;
+  // C_10 and/or C_11 are missing; that is because the are nominally zero. We
+  // keep track of the coefficients actually read, so that if at the end of
+  // parsing these are the only ones missing, they can be set to zero.
+  std::vector<bool> parsed((std::size_t)(l + 1) * (l + 1), false);
 
   char line[max_data_line], *end, *start;
-  int ll, mm;
+  long ll, mm;
   double Clm, Slm;
   std::size_t coeffs_read = 0, coeffs_to_read = coeffs_nr(l, m);
 
-  fin.getline(line, max_data_line);
-  while (fin.good() && coeffs_read < coeffs_to_read) {
+  while (coeffs_read < coeffs_to_read && fin.getline(line, max_data_line)) {
     // we are only interested in lines that start with 'gfc' (but not 'gfct')
     if (starts_with("gfc ", line)) {
 
       // expecting columns: degree, order, Clm, Slm, [...]; note that it
       // (seldom) happens that the doubles are written in fortran format ...
       start = line + 4;
+      for (char *c = start; *c; ++c)
+        if (*c == 'D' || *c == 'd')
+          *c = 'e';
       ll = std::strtol(start, &end, 10);
       if (end == start) {
         fprintf(stderr,
@@ -97,13 +100,22 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
         return 1;
       }
 
+      if (!std::isspace((unsigned char)*end) || ll < 0 || mm < 0 || mm > ll) {
+        fprintf(stderr,
+                "[ERROR] Invalid degree/order in line: [%s]; icgem file %s "
+                "(traceback: %s)\n",
+                line, filename.c_str(), __func__);
+        return 1;
+      }
+
       // only interested in the coefficients, if degree and order are less than
       // max
       if (ll <= l && mm <= m) {
 
         start = end;
         Clm = std::strtod(start, &end);
-        if (end == start) {
+        if (end == start || !std::isspace((unsigned char)*end) ||
+            !std::isfinite(Clm)) {
           fprintf(stderr,
                   "[ERROR] Failed parsing Clm parameter in line: [%s]; icgem "
                   "file %s (traceback: %s)\n",
@@ -113,7 +125,8 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
 
         start = end;
         Slm = std::strtod(start, &end);
-        if (end == start) {
+        if (end == start || (*end && !std::isspace((unsigned char)*end)) ||
+            !std::isfinite(Slm) || (mm == 0 && Slm != 0e0)) {
           fprintf(stderr,
                   "[ERROR] Failed parsing Slm parameter in line: [%s]; icgem "
                   "file %s (traceback: %s)\n",
@@ -122,30 +135,40 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
         }
 
         // assign to harmonic coefficients matrix
+        if (parsed[ll * (l + 1) + mm]) {
+          fprintf(stderr,
+                  "[ERROR] Duplicate coefficients in line: [%s]; icgem file %s "
+                  "(traceback: %s)\n",
+                  line, filename.c_str(), __func__);
+          return 1;
+        }
+        parsed[ll * (l + 1) + mm] = true;
         coeffs->C(ll, mm) = Clm;
         ++coeffs_read;
-        if (mm == 0) {
-          assert(Slm == 0e0);
-        } else {
+        if (mm > 0)
           coeffs->S(ll, mm) = Slm;
-        }
       }
     }
-
-    fin.getline(line, max_data_line);
   }
 
   if (coeffs_read < coeffs_to_read) {
     // before reporting an error, see if we are in the case described in
     // note (1)
-    if (coeffs_to_read - coeffs_read == 2 &&
-        (coeffs->C(1, 0) == coeffs->C(1, 1) && coeffs->C(1, 1) == -999e0)) {
-      printf("[NOTE] The coefficients C(1,0) and C(1,1) are not explicitly "
+    const int order = (l > 0) ? std::min(m, 1) : -1;
+    std::size_t missing = 0;
+    for (int i = 0; i <= order; i++)
+      missing += !parsed[(l + 1) + i];
+    if (coeffs_to_read - coeffs_read == missing) {
+      printf("[NOTE] Setting to zero the degree 1 coefficients not explicitly "
              "written in the icgem file: %s\n",
              filename.c_str());
-      printf("[NOTE] Setting C(1, 0) = C(1, 1) = 0e0\n");
-      coeffs->C(1, 0) = 0e0;
-      coeffs->C(1, 1) = 0e0;
+      for (int i = 0; i <= order; i++) {
+        if (!parsed[(l + 1) + i]) {
+          coeffs->C(1, i) = 0e0;
+          if (i)
+            coeffs->S(1, i) = 0e0;
+        }
+      }
     } else {
       fprintf(stderr,
               "[ERROR] EOF reached before reading all Snm/Cnm coefficients! "
-- 
2.43.0


From 76a5679470b3078daf1a9f42957484ffe99dc9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:56 +0000
Subject: [PATCH 06/53] fix: an over-long icgem data line was taken for the end
 of the file

---
 src/gravity/icgemio_rddata.cpp   | 9 +++++++++
 var/icgem/src/icgemio_rddata.cpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/gravity/icgemio_rddata.cpp b/src/gravity/icgemio_rddata.cpp
index 560a449..f447946 100644
--- a/src/gravity/icgemio_rddata.cpp
+++ b/src/gravity/icgemio_rddata.cpp
@@ -159,6 +159,15 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
     }
   }
 
+  // a line too long for the buffer is not the end of the file
+  if (coeffs_read < coeffs_to_read && !fin.eof()) {
+    fprintf(stderr,
+            "[ERROR] Failed reading data line: [%s]; icgem file %s "
+            "(traceback: %s)\n",
+            line, filename.c_str(), __func__);
+    return 1;
+  }
+
   if (coeffs_read < coeffs_to_read) {
     // before reporting an error, see if we are in the case described in
     // note (1)
diff --git a/var/icgem/src/icgemio_rddata.cpp b/var/icgem/src/icgemio_rddata.cpp
index 75d900f..1ef4ed7 100644
--- a/var/icgem/src/icgemio_rddata.cpp
+++ b/var/icgem/src/icgemio_rddata.cpp
@@ -151,6 +151,15 @@ int dso::Icgem::parse_data(int l, int m, dso::HarmonicCoeffs *coeffs) noexcept {
     }
   }
 
+  // a line too long for the buffer is not the end of the file
+  if (coeffs_read < coeffs_to_read && !fin.eof()) {
+    fprintf(stderr,
+            "[ERROR] Failed reading data line: [%s]; icgem file %s "
+            "(traceback: %s)\n",
+            line, filename.c_str(), __func__);
+    return 1;
+  }
+
   if (coeffs_read < coeffs_to_read) {
     // before reporting an error, see if we are in the case described in
     // note (1)
-- 
2.43.0


From a5030637d45b5ddb0c681c73ac8f4bc91ea60092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 07/53] fix: interpolators flagged the last node as out of
 range

---
 var/intrp.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/var/intrp.cc b/var/intrp.cc
index f43adc5..0ee1fa7 100644
--- a/var/intrp.cc
+++ b/var/intrp.cc
@@ -28,7 +28,8 @@ struct NearestNeighborInterpolator {
         return (dist_xt1 < dist_xt2) ? base.y[i - 1] : base.y[i];
       }
     }
-    status = 2;
+    // the last node is still in range
+    status = (x == base.x[base.size - 1]) ? 0 : 2;
     return base.y[base.size - 1];
   }
 };
@@ -52,7 +53,8 @@ struct LinearInterpolator {
                    (x - base.x[i - 1]);
       }
     }
-    status = 2;
+    // the last node is still in range
+    status = (x == base.x[base.size - 1]) ? 0 : 2;
     return base.y[base.size - 1];
   }
 };
@@ -95,7 +97,8 @@ struct QuadraticInterpolator {
         return y0 * L0 + y1 * L1 + y2 *L2;
       }
     }
-    status = 2;
+    // the last node is still in range
+    status = (x == base.x[base.size - 1]) ? 0 : 2;
     return base.y[base.size - 1];
   }
 };
-- 
2.43.0


From cb00fd0c8906c8423c181bf9fdfe4efdd80c80cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:34 +0000
Subject: [PATCH 08/53] fix: setting several flags at once cleared the ones
 already set

---
 var/flags.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/var/flags.cc b/var/flags.cc
index 6b9f00a..0f8a350 100644
--- a/var/flags.cc
+++ b/var/flags.cc
@@ -60,7 +60,7 @@ struct Sp3Flag {
     bits_ |= (1 << static_cast<uitype>(e));
   }
   void set(details::__WrapperFlag__ w) noexcept {
-    bits_ = w.bits_;
+    bits_ |= w.bits_;
   }
   /// Un-Mark flag with an Sp3Event (aka, unset the Sp3Event)
   void clear(Sp3Event e) noexcept {
-- 
2.43.0


From 0eb42d5f2a025ccb7838340d66619d8deabeb0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:01 +0000
Subject: [PATCH 09/53] fix: http_get destroyed the existing file on failure
 and ignored close errors

---
 src/web/http_get.cpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/web/http_get.cpp b/src/web/http_get.cpp
index eff0431..4b3362e 100644
--- a/src/web/http_get.cpp
+++ b/src/web/http_get.cpp
@@ -4,6 +4,7 @@
 #include <stdlib.h>
 #include <unistd.h>
 #include <filesystem>
+#include <string>
 #include <system_error>
 
 namespace fs = std::filesystem;
@@ -30,6 +31,11 @@ int dso::http_get(const char *url, const char *local, bool force) noexcept {
   FILE *pagefile;
   int status = 1;
 
+  // download to a temporary file next to the local one; the latter is only
+  // (re)placed by a complete download
+  const std::string part =
+      std::string(local) + "." + std::to_string(getpid()) + ".part";
+
   curl_global_init(CURL_GLOBAL_ALL);
 
   //  init the curl session
@@ -51,7 +57,7 @@ int dso::http_get(const char *url, const char *local, bool force) noexcept {
   curl_easy_setopt(curl_handle, CURLOPT_WRITEFUNCTION, write_data);
 
   //  open the file
-  pagefile = fopen(local, "wb");
+  pagefile = fopen(part.c_str(), "wb");
   if (pagefile) {
 
     //  write the page body to this file handle
@@ -60,12 +66,16 @@ int dso::http_get(const char *url, const char *local, bool force) noexcept {
     //  get it!
     status = curl_easy_perform(curl_handle);
 
-    //  close the header file
-    fclose(pagefile);
-  }
+    //  close the header file; this may well be where writing fails
+    if (fclose(pagefile) && status == CURLE_OK) status = CURLE_WRITE_ERROR;
 
-  // remove the opened but empty file in case of error
-  if (status != CURLE_OK) remove(local);
+    //  all data received and stored
+    if (status == CURLE_OK && rename(part.c_str(), local))
+      status = CURLE_WRITE_ERROR;
+
+    // remove the temporary file in case of error
+    if (status != CURLE_OK) remove(part.c_str());
+  }
 
   //  cleanup curl stuff
   curl_easy_cleanup(curl_handle);
-- 
2.43.0


From 4559457c2e99666b03b5cfdb1d6c877049d95340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:44 +0000
Subject: [PATCH 10/53] fix: SGOde step failures, restart after an exact stop,
 rounding control and zero tolerances

---
 src/integrators/sgode.hpp      |  4 ++++
 src/integrators/sgode_de.cpp   |  6 +++---
 src/integrators/sgode_step.cpp | 17 ++++++++---------
 var/ode_solvers/sgode.hpp      |  4 ++++
 var/ode_solvers/sgode_de.cpp   |  6 +++---
 var/ode_solvers/sgode_step.cpp | 16 +++++++---------
 6 files changed, 29 insertions(+), 24 deletions(-)

diff --git a/src/integrators/sgode.hpp b/src/integrators/sgode.hpp
index 1adaa71..fecb697 100644
--- a/src/integrators/sgode.hpp
+++ b/src/integrators/sgode.hpp
@@ -17,6 +17,10 @@ public:
     Arrays13 = new double[13 * 7]; // psi, alpha, beta, v, w, sig, g (col-major)
   }
 
+  // holds raw memory
+  SGOde(const SGOde &) = delete;
+  SGOde &operator=(const SGOde &) = delete;
+
   ~SGOde() noexcept {
     if (Arrays13) delete[] Arrays13;
   }
diff --git a/src/integrators/sgode_de.cpp b/src/integrators/sgode_de.cpp
index fd6b188..4c28b59 100644
--- a/src/integrators/sgode_de.cpp
+++ b/src/integrators/sgode_de.cpp
@@ -29,7 +29,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
 
   // test for improper parameters
   double eps = std::max(relerr, abserr);
-  if (neqn < 1 || t == tout || (relerr < 0e0 || abserr < 0e0) || eps < 0e0 ||
+  if (neqn < 1 || t == tout || (relerr < 0e0 || abserr < 0e0) || eps <= 0e0 ||
       !iflag || (t != told && std::abs(iflag) != 1)) {
     iflag = 6;
 #ifdef DEBUG
@@ -40,7 +40,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
       error_flag = 2;
     else if (relerr < 0e0 || abserr < 0e0)
       error_flag = 3;
-    else if (eps < 0e0)
+    else if (eps <= 0e0)
       error_flag = 4;
     else if (!iflag)
       error_flag = 5;
@@ -73,7 +73,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
   const double releps = relerr / eps;
   const double abseps = abserr / eps;
 
-  if (delsgn * del <= 0e0 || iflag == 1) {
+  if (iflag == 1 || isnold < 0 || delsgn * del <= 0e0) {
     // on start and restart also set work variables x and yy(*), store the
     // direction of integration and initialize the step size
     x = t;
diff --git a/src/integrators/sgode_step.cpp b/src/integrators/sgode_step.cpp
index f237283..e8a1b89 100644
--- a/src/integrators/sgode_step.cpp
+++ b/src/integrators/sgode_step.cpp
@@ -66,8 +66,8 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
       nornd = false;
       Phi.col(14).setZero();
     }
-    ifail = 0;
   }
+  ifail = 0;
 
   // ***     end block 0     ***
 
@@ -215,7 +215,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
 
     // -- break point 230: --
     if (!nornd) { // else goto 240:
-      const auto tau = h * p() - Phi.col(14);
+      const Eigen::VectorXd tau = h * p() - Phi.col(14);
       p() = yy() + tau;
       Phi.col(15) = (p() - yy()) - tau;
       // goto 250:
@@ -300,15 +300,13 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
       // -- break point 320: --
       ++ifail;
       double t2 = 5e-1;
-      if (ifail == 3) {
+      if (ifail > 3 && p5eps < 0.25 * erk)
+        t2 = std::sqrt(p5eps / erk);
+      if (ifail >= 3)
         knew = 1;
-      } else if (ifail < 3) {
-        if (p5eps < 0.25 * erk)
-          t2 = std::sqrt(p5eps / erk);
-        knew = 1;
-      }
       h = t2 * h;
       k = knew;
+      ns = 0;
 
       if (!(std::abs(h) >= fouru * std::abs(x))) {
         crash = true;
@@ -344,7 +342,8 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
     // non-debug mode.
     // Don't have a fucking clue why!!!
     // const auto rho = t1 * (yp() - Phi.col(0)) - Phi.col(15);
-    const auto rho = t1 * (ArraysNeqn.col(3) - Phi.col(0)) - Phi.col(15);
+    const Eigen::VectorXd rho =
+        t1 * (ArraysNeqn.col(3) - Phi.col(0)) - Phi.col(15);
     yy() = p() + rho;
     Phi.col(14) = (yy() - p()) - rho;
   } else {
diff --git a/var/ode_solvers/sgode.hpp b/var/ode_solvers/sgode.hpp
index a443edb..ed5bca3 100644
--- a/var/ode_solvers/sgode.hpp
+++ b/var/ode_solvers/sgode.hpp
@@ -23,6 +23,10 @@ public:
     Arrays13 = new double[13 * 7]; // psi, alpha, beta, v, w, sig, g (col-major)
   }
 
+  // holds raw memory
+  SGOde(const SGOde &) = delete;
+  SGOde &operator=(const SGOde &) = delete;
+
   ~SGOde() noexcept {
     if (Arrays13) delete[] Arrays13;
   }
diff --git a/var/ode_solvers/sgode_de.cpp b/var/ode_solvers/sgode_de.cpp
index 4d18b88..5052b42 100644
--- a/var/ode_solvers/sgode_de.cpp
+++ b/var/ode_solvers/sgode_de.cpp
@@ -29,7 +29,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
 
   // test for improper parameters
   double eps = std::max(relerr, abserr);
-  if (neqn < 1 || t == tout || (relerr < 0e0 || abserr < 0e0) || eps < 0e0 ||
+  if (neqn < 1 || t == tout || (relerr < 0e0 || abserr < 0e0) || eps <= 0e0 ||
       !iflag || (t != told && std::abs(iflag) != 1)) {
     iflag = 6;
 #ifdef DEBUG
@@ -40,7 +40,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
       error_flag = 2;
     else if (relerr < 0e0 || abserr < 0e0)
       error_flag = 3;
-    else if (eps < 0e0)
+    else if (eps <= 0e0)
       error_flag = 4;
     else if (!iflag)
       error_flag = 5;
@@ -73,7 +73,7 @@ int dso::SGOde::de(double& t, double tout, const Eigen::VectorXd &y0,
   const double releps = relerr / eps;
   const double abseps = abserr / eps;
 
-  if (delsgn * del <= 0e0 || iflag == 1) {
+  if (iflag == 1 || isnold < 0 || delsgn * del <= 0e0) {
     // on start and restart also set work variables x and yy(*), store the
     // direction of integration and initialize the step size
     x = t;
diff --git a/var/ode_solvers/sgode_step.cpp b/var/ode_solvers/sgode_step.cpp
index 1d47793..ba59301 100644
--- a/var/ode_solvers/sgode_step.cpp
+++ b/var/ode_solvers/sgode_step.cpp
@@ -66,8 +66,8 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
       nornd = false;
       Phi.col(14).setZero();
     }
-    ifail = 0;
   }
+  ifail = 0;
 
   // ***     end block 0     ***
 
@@ -215,7 +215,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
 
     // -- break point 230: --
     if (!nornd) { // else goto 240:
-      const auto tau = h * p() - Phi.col(14);
+      const Eigen::VectorXd tau = h * p() - Phi.col(14);
       p() = yy() + tau;
       Phi.col(15) = (p() - yy()) - tau;
       // goto 250:
@@ -294,15 +294,13 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
       // -- break point 320: --
       ++ifail;
       double t2 = 5e-1;
-      if (ifail == 3) {
+      if (ifail > 3 && p5eps < 0.25 * erk)
+        t2 = std::sqrt(p5eps / erk);
+      if (ifail >= 3)
         knew = 1;
-      } else if (ifail < 3) {
-        if (p5eps < 0.25 * erk)
-          t2 = std::sqrt(p5eps / erk);
-        knew = 1;
-      }
       h = t2 * h;
       k = knew;
+      ns = 0;
 
       if (!(std::abs(h) >= fouru * std::abs(x))) {
         crash = true;
@@ -331,7 +329,7 @@ int dso::SGOde::step(double &eps, int &crash) noexcept {
   // correct and evaluate
   const double t1 = h * g(kp1 - 1);
   if (!nornd) {
-    const auto rho = t1 * (yp() - Phi.col(0)) - Phi.col(15);
+    const Eigen::VectorXd rho = t1 * (yp() - Phi.col(0)) - Phi.col(15);
     yy() = p() + rho;
     Phi.col(14) = (yy() - p()) - rho;
   } else {
-- 
2.43.0


From 524c4c242037cbd6348bd29d7dbe4f422e8ee5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:23 +0000
Subject: [PATCH 11/53] fix: RKF45 step-size control, error weights,
 uninitialised state and first call with coincident epochs

---
 var/ode_solvers/rkf45.hpp      | 12 ++++++------
 var/ode_solvers/rkf45_rkfs.cpp | 16 ++++++++++------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/var/ode_solvers/rkf45.hpp b/var/ode_solvers/rkf45.hpp
index 54e799d..e31b25f 100644
--- a/var/ode_solvers/rkf45.hpp
+++ b/var/ode_solvers/rkf45.hpp
@@ -25,16 +25,16 @@ public:
 private:
   ODEfun f;
   int neqn;
-  int iflag, jflag, kflag;
-  int nfe,  ///< counter for function evaluations
-      kop,  ///< indicator for too many output points
-      init; ///< initialization completion indicator
+  int iflag, jflag{0}, kflag{0};
+  int nfe{0},  ///< counter for function evaluations
+      kop{0},  ///< indicator for too many output points
+      init{0}; ///< initialization completion indicator
   Eigen::MatrixXd F; // dimension 
   Eigen::VectorXd yp;
   double relerr;
   double abserr;
-  double h;
-  double savae, savre;
+  double h{0e0};
+  double savae{0e0}, savre{0e0};
   /// May store a pointer to some king of parameters that are passed in the
   /// ODE function
   void *params{nullptr};
diff --git a/var/ode_solvers/rkf45_rkfs.cpp b/var/ode_solvers/rkf45_rkfs.cpp
index f55dcb7..214bcda 100644
--- a/var/ode_solvers/rkf45_rkfs.cpp
+++ b/var/ode_solvers/rkf45_rkfs.cpp
@@ -11,12 +11,16 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
   constexpr const double u26 = 13e0 * twoeps;
 
   // check input parameters for error
-  if (neqn < 1 || (iflag < -2 || iflag > 8) || (relerr < 0e0 || abserr < 0e0) ||
-      (t == tout && kflag != 3)) {
+  if (neqn < 1 || (!iflag || iflag < -2 || iflag > 8) ||
+      (relerr < 0e0 || abserr < 0e0) ||
+      (t == tout && kflag != 3 && std::abs(iflag) != 1)) {
     iflag = 8;
     return 1;
   }
 
+  // the last call was refused and did nothing; the input is now valid, start
+  if (iflag == 8) iflag = 1;
+
   int mflag = std::abs(iflag);
 
   // check for first call, aka iflag == -1 or +1
@@ -131,7 +135,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
       toln = tol;
       const double ypk = std::abs(yp(i));
       if (ypk * std::pow(h, 5e0) > tol) {
-        h = (tol / ypk) * (tol / ypk);
+        h = std::pow(tol / ypk, 0.2e0);
       }
     }
   }
@@ -243,7 +247,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
       // solution at the beginning and end of the step.
       double eeoet = 0e0;
       for (int i = 0; i < neqn; i++) {
-        const double et = std::abs(y(i)) + std::abs(F(0, i)) + ae;
+        const double et = std::abs(y(i)) + std::abs(F(i, 0)) + ae;
         if (et <= 0e0) {
           iflag = 5;
           return 0;
@@ -268,7 +272,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
       output = false;
       s = 1e-1;
       if (esttol < 59049e0)
-        s = 9e-1 / (esttol * esttol);
+        s = 9e-1 / std::pow(esttol, 0.2e0);
       h *= s;
 
       // if (std::abs(h) > hmin)
@@ -299,7 +303,7 @@ int dso::RKF45::rkfs(double &t, double tout, Eigen::VectorXd &y) noexcept {
     // stepsize is not allowed to increase
     s = 5e0;
     if (esttol > 1.889568e-4)
-      s = 9e-1 / (esttol * esttol);
+      s = 9e-1 / std::pow(esttol, 0.2e0);
     if (hfaild)
       s = std::min(s, 1e0);
     h = std::copysign(std::max(s * std::abs(h), hmin), h);
-- 
2.43.0


From c9321705f1559fbb6f6836945f36ce3e76e41fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:17 +0000
Subject: [PATCH 12/53] fix: apriori tropo setters of the linear-clock filter
 hit other parameters

---
 src/filters/filters.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/filters/filters.hpp b/src/filters/filters.hpp
index f595bff..925c200 100644
--- a/src/filters/filters.hpp
+++ b/src/filters/filters.hpp
@@ -148,7 +148,7 @@ struct EkfFilter<Np, BeaconClockModel::Linear> {
         _ekf._ekf.x(tropo_index(beacon_nr)) = val;
       } else {
         const int start_idx = tropo_index(0);
-        constexpr int step = 2;
+        constexpr int step = 3;
         int idx = start_idx;
         for (int i = 0; i < _ekf.num_stations(); i++) {
           _ekf._ekf.x(idx) = val;
@@ -165,7 +165,7 @@ struct EkfFilter<Np, BeaconClockModel::Linear> {
         _ekf._ekf.P(tropo_index(beacon_nr), tropo_index(beacon_nr)) = val;
       } else {
         const int start_idx = tropo_index(0);
-        constexpr int step = 2;
+        constexpr int step = 3;
         int idx = start_idx;
         for (int i = 0; i < _ekf.num_stations(); i++) {
           _ekf._ekf.P(idx,idx) = val;
-- 
2.43.0


From 437128a22767b1bd93028c20ae0f06a73ca92a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:17 +0000
Subject: [PATCH 13/53] fix: PolynomialModel ownership (copy/move assignment,
 move construction, order-0 leak)

---
 src/filters/models.hpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/filters/models.hpp b/src/filters/models.hpp
index d271e8b..dc89ebf 100644
--- a/src/filters/models.hpp
+++ b/src/filters/models.hpp
@@ -41,7 +41,7 @@ namespace dso {
     PolynomialModel(int porder) noexcept
         : _order(porder), cf(new double[porder + 1]){};
     
-    ~PolynomialModel() noexcept { if (_order) delete[] cf;}
+    ~PolynomialModel() noexcept { delete[] cf;}
     
     PolynomialModel(const PolynomialModel &p) noexcept
         : _order(p._order), xref(p.xref), cf(new double[p._order + 1]) {
@@ -49,21 +49,29 @@ namespace dso {
     }
     
     PolynomialModel &operator=(const PolynomialModel &p) noexcept {
-      if (*this != p) {
+      if (this != &p) {
         this->resize(p._order);
         std::memcpy(cf, p.cf, sizeof(double)*(_order+1));
-        xref = p.xref();
+        xref = p.xref;
       }
       return *this;
     }
 
     PolynomialModel(PolynomialModel &&p) noexcept
-        : _order(p._order), xref(p.xref), cf(p.cf) {};
+        : _order(p._order), xref(p.xref), cf(p.cf) {
+      p.cf = nullptr;
+      p._order = -1;
+    };
     
     PolynomialModel &operator=(PolynomialModel &&p) noexcept {
-      _order = p._order;
-      xref = p.xref;
-      cf = p.cf;
+      if (this != &p) {
+        delete[] cf;
+        _order = p._order;
+        xref = p.xref;
+        cf = p.cf;
+        p.cf = nullptr;
+        p._order = -1;
+      }
       return *this;
     }
 
-- 
2.43.0


From 15dc4d3060ad5c566876cf39f52a6f7df0ac728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 14/53] fix: beacon table reader depended on earlier errors,
 re-read stale bytes of short lines, stopped at long ones

---
 src/beacon_tbl.hpp            |  5 +++--
 src/beacon_tbl/beacon_tbl.cpp | 21 ++++++++++++++++++++-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/beacon_tbl.hpp b/src/beacon_tbl.hpp
index f4bd343..8929ef5 100644
--- a/src/beacon_tbl.hpp
+++ b/src/beacon_tbl.hpp
@@ -4,6 +4,7 @@
 #include "datetime/datetime_read.hpp"
 #include <cstring>
 #include <fstream>
+#include <string>
 #include <vector>
 
 namespace dso {
@@ -26,10 +27,10 @@ struct BeaconInformationTableEntry {
 };
 
 class BeaconInformationTable {
-  char fn_[256];
+  std::string fn_;
 
 public:
-  BeaconInformationTable(const char *fn) noexcept { std::strcpy(fn_, fn); }
+  BeaconInformationTable(const char *fn) noexcept : fn_(fn) {}
   BeaconInformationTable(const BeaconInformationTable &) = delete;
   BeaconInformationTable(BeaconInformationTable &&) = delete;
   BeaconInformationTable &operator=(const BeaconInformationTable &) = delete;
diff --git a/src/beacon_tbl/beacon_tbl.cpp b/src/beacon_tbl/beacon_tbl.cpp
index 100727b..e554040 100644
--- a/src/beacon_tbl/beacon_tbl.cpp
+++ b/src/beacon_tbl/beacon_tbl.cpp
@@ -1,4 +1,5 @@
 #include "beacon_tbl.hpp"
+#include <cerrno>
 #include <stdexcept>
 
 std::vector<dso::BeaconInformationTableEntry>
@@ -6,7 +7,8 @@ dso::BeaconInformationTable::load_to_memmory(
     const dso::datetime<dso::nanoseconds> &t) {
   std::ifstream fin(fn_);
   if (!fin.is_open()) {
-    fprintf(stderr, "ERROR. Failed to open file %s (traceback: %s)\n", fn_,
+    fprintf(stderr, "ERROR. Failed to open file %s (traceback: %s)\n",
+            fn_.c_str(),
             __func__);
     throw std::runtime_error("Open file error");
   }
@@ -19,9 +21,19 @@ dso::BeaconInformationTable::load_to_memmory(
 
   char *end;
   while (fin.getline(line, 256)) {
+    // skip blank lines; everything else must reach the height column
+    if (!line[std::strspn(line, " \t\r")])
+      continue;
+    if (std::strlen(line) <= 45) {
+      fprintf(stderr,
+              "ERROR. Beacon record too short, line \'%s\' (traceback: %s)\n",
+              line, __func__);
+      throw std::runtime_error("Parse file error");
+    }
     std::memcpy(name, line, 4 * sizeof(char));
     const auto from = dso::strptime_ymd_hms<dso::nanoseconds>(line + 5, &end);
     const auto to = dso::strptime_ymd_hms<dso::nanoseconds>(line + 24, &end);
+    errno = 0;
     double height = std::strtod(line + 45, &end);
     if (errno || end == line + 45) {
       fprintf(stderr,
@@ -35,5 +47,12 @@ dso::BeaconInformationTable::load_to_memmory(
     }
   }
 
+  // a line too long to be read is not the end of the file
+  if (!fin.eof()) {
+    fprintf(stderr, "ERROR. Failed reading file %s (traceback: %s)\n", fn_.c_str(),
+            __func__);
+    throw std::runtime_error("Parse file error");
+  }
+
   return vec;
 }
\ No newline at end of file
-- 
2.43.0


From 50bb49855643a8d3e5bc650b16cf8623cadd0d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:40 +0000
Subject: [PATCH 15/53] fix: EopLookUpTable copies only sz bytes per column,
 moves lose capacity and leak

---
 src/eop.hpp | 54 +++++++++++++++++------------------------------------
 1 file changed, 17 insertions(+), 37 deletions(-)

diff --git a/src/eop.hpp b/src/eop.hpp
index c22744d..a3d5ebb 100644
--- a/src/eop.hpp
+++ b/src/eop.hpp
@@ -35,6 +35,14 @@ private:
       *loda{nullptr},    ///< [sec/day], start index = 6
       *omegaa{nullptr};  ///< [?], start index = 7
 
+  ///< copy the (sz) rows of another table, with its own capacity, into this one
+  void copy_columns(const EopLookUpTable &eopt) noexcept {
+    if (sz > 0)
+      for (int i = 0; i < 8; i++)
+        std::memcpy(mem_arena + i * capacity,
+                    eopt.mem_arena + i * eopt.capacity, sz * sizeof(double));
+  }
+
 public:
   int size() const noexcept { return sz; }
 
@@ -147,7 +155,7 @@ public:
   /// @brief Resize; alocation/dealocation depends on capacity
   void resize(int sz_) noexcept {
     // no need to dealocate/alocate; just change the effective size
-    if (sz_ < capacity) {
+    if (sz_ <= capacity) {
       sz = sz_;
       return;
     } else {
@@ -176,7 +184,7 @@ public:
 
   /// @brief Move constructor
   EopLookUpTable(EopLookUpTable &&eopt) noexcept
-      : sz{eopt.sz}, capacity{eopt.sz}, mem_arena{eopt.mem_arena},
+      : sz{eopt.sz}, capacity{eopt.capacity}, mem_arena{eopt.mem_arena},
         mjda{eopt.mjda}, xpa{eopt.xpa}, ypa{eopt.ypa}, ut1a{eopt.ut1a},
         dxa{eopt.dxa}, dya{eopt.dya}, loda{eopt.loda}, omegaa{eopt.omegaa} {
     eopt.sz = eopt.capacity = 0;
@@ -186,24 +194,8 @@ public:
   /// @brief Assignment operator
   EopLookUpTable &operator=(const EopLookUpTable &eopt) noexcept {
     if (this != &eopt) {
-      if (sz != eopt.sz) {
-        this->resize(eopt.sz);
-      }
-      mjda = (double *)std::memcpy(mem_arena, eopt.mem_arena, sz);
-      xpa = (double *)std::memcpy(mem_arena + 1 * capacity,
-                                  eopt.mem_arena + 1 * eopt.capacity, sz);
-      ypa = (double *)std::memcpy(mem_arena + 2 * capacity,
-                                  eopt.mem_arena + 2 * eopt.capacity, sz);
-      ut1a = (double *)std::memcpy(mem_arena + 3 * capacity,
-                                   eopt.mem_arena + 3 * eopt.capacity, sz);
-      dxa = (double *)std::memcpy(mem_arena + 4 * capacity,
-                                  eopt.mem_arena + 4 * eopt.capacity, sz);
-      dya = (double *)std::memcpy(mem_arena + 5 * capacity,
-                                  eopt.mem_arena + 5 * eopt.capacity, sz);
-      loda = (double *)std::memcpy(mem_arena + 6 * capacity,
-                                   eopt.mem_arena + 6 * eopt.capacity, sz);
-      omegaa = (double *)std::memcpy(mem_arena + 7 * capacity,
-                                     eopt.mem_arena + 7 * eopt.capacity, sz);
+      this->resize(eopt.sz);
+      copy_columns(eopt);
     }
     return *this;
   }
@@ -212,8 +204,9 @@ public:
   EopLookUpTable &operator=(EopLookUpTable &&eopt) noexcept {
     if (this != &eopt) {
       // just move elements ...
+      delete[] mem_arena;
       sz = eopt.sz;
-      capacity = eopt.sz;
+      capacity = eopt.capacity;
       mem_arena = eopt.mem_arena;
       mjda = eopt.mjda;
       xpa = eopt.xpa;
@@ -234,22 +227,9 @@ public:
   /// @brief Copy constructor. The created copy will have a capacity and size
   ///        (both) equal to eopt's size.
   EopLookUpTable(const EopLookUpTable &eopt) noexcept
-      : sz{eopt.sz}, capacity{eopt.sz}, mem_arena(new double[capacity * 8]),
-        mjda((double *)std::memcpy(mem_arena, eopt.mem_arena, sz)),
-        xpa((double *)std::memcpy(mem_arena + 1 * capacity,
-                                  eopt.mem_arena + 1 * eopt.capacity, sz)),
-        ypa((double *)std::memcpy(mem_arena + 2 * capacity,
-                                  eopt.mem_arena + 2 * eopt.capacity, sz)),
-        ut1a((double *)std::memcpy(mem_arena + 3 * capacity,
-                                   eopt.mem_arena + 3 * eopt.capacity, sz)),
-        dxa((double *)std::memcpy(mem_arena + 4 * capacity,
-                                  eopt.mem_arena + 4 * eopt.capacity, sz)),
-        dya((double *)std::memcpy(mem_arena + 5 * capacity,
-                                  eopt.mem_arena + 5 * eopt.capacity, sz)),
-        loda((double *)std::memcpy(mem_arena + 6 * capacity,
-                                   eopt.mem_arena + 6 * eopt.capacity, sz)),
-        omegaa((double *)std::memcpy(mem_arena + 7 * capacity,
-                                     eopt.mem_arena + 7 * eopt.capacity, sz)) {}
+      : EopLookUpTable(eopt.sz) {
+    copy_columns(eopt);
+  }
 
   /// @brief Compute the effect of zonal Earth tides on the rotation of the
   ///        Earth (using iers2010::rg_zont2 on UT1-UTC, LOD and
-- 
2.43.0


From 015dfa19fba28f0e56420de926630d676c742877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:40 +0000
Subject: [PATCH 16/53] fix: EOP duplicates written past the table, stale bytes
 of short lines, uninitialised omega, ignored interpolation failures

---
 src/iers/eop_interpolate.cpp |  6 +++++-
 src/iers/parse_c04.cpp       | 14 +++++++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/iers/eop_interpolate.cpp b/src/iers/eop_interpolate.cpp
index 772c9e4..9bb2904 100644
--- a/src/iers/eop_interpolate.cpp
+++ b/src/iers/eop_interpolate.cpp
@@ -36,6 +36,9 @@ int dso::EopLookUpTable::interpolate_lagrange(
   // remember to assign date to the filled-in instance
   eopr.mjd = tt_fmjd;
 
+  // not interpolated, but do not leave it to whatever the instance held
+  eopr.omega = 0e0;
+
   return 0;
 }
 
@@ -43,7 +46,8 @@ int dso::EopLookUpTable::interpolate(double tt_fmjd,
                                      dso::EopRecord &eopr, int order) const noexcept {
 
   // perform simple interpolation (lagrangian)
-  dso::EopLookUpTable::interpolate_lagrange(tt_fmjd, eopr, order);
+  if (dso::EopLookUpTable::interpolate_lagrange(tt_fmjd, eopr, order))
+    return 1;
 
   // TT as Julian centuries since J2000 (try to keep accuracy)
   double imjd;
diff --git a/src/iers/parse_c04.cpp b/src/iers/parse_c04.cpp
index 9af4ea6..20a1d85 100644
--- a/src/iers/parse_c04.cpp
+++ b/src/iers/parse_c04.cpp
@@ -45,6 +45,8 @@ int dso::parse_iers_C04(const char *c04fn, dso::modified_julian_day start_mjd,
 
   // if needed, resize the EOP table, interval is [start.end)
   int days = end_mjd.as_underlying_type() - start_mjd.as_underlying_type();
+  if (days < 0)
+    return 1;
   eoptable.resize(days);
 
   char line[MAX_LINE_CHARS];
@@ -59,8 +61,8 @@ int dso::parse_iers_C04(const char *c04fn, dso::modified_julian_day start_mjd,
     if (*line && (*line != ' ' && *line != '#')) {
       // skip the data (YYYY MM DD) which is 12 chars length
       // get the mjd
-      start = next_num(line + 12);
       end = line + std::strlen(line);
+      start = next_num(end - line > 12 ? line + 12 : end);
       auto fcr = std::from_chars(start, end, imjd);
       if (fcr.ec != std::errc() || fcr.ptr == start) {
         fprintf(stderr,
@@ -76,6 +78,14 @@ int dso::parse_iers_C04(const char *c04fn, dso::modified_julian_day start_mjd,
       // if the date is ok, collect data
       if (cmjd >= start_mjd && cmjd < end_mjd) {
         error = 0;
+        // one row per day, in order
+        if (imjd != start_mjd.as_underlying_type() + sz) {
+          fprintf(stderr,
+                  "[ERROR] Unexpected date in EOP line [%s]. EOP file is %s "
+                  "(traceback: %s/err=C)\n",
+                  line, c04fn, __func__);
+          return 3;
+        }
         // do we need to transform the given UTC date to TAI?
         if (utc2tt) {
           dso::modified_julian_day tai_mjd;
@@ -111,6 +121,8 @@ int dso::parse_iers_C04(const char *c04fn, dso::modified_julian_day start_mjd,
         *(eoptable.lod(sz)) = data[3];
         *(eoptable.dx(sz)) = data[4];
         *(eoptable.dy(sz)) = data[5];
+        // not given in C04 files
+        *(eoptable.omega(sz)) = 0e0;
 
         ++sz;
       } else if (cmjd >= end_mjd) {
-- 
2.43.0


From 0761319a5a418d2f37412f777e1a2335d0a27cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:30 +0000
Subject: [PATCH 17/53] fix: antenna phase law read past its table at 90 deg.
 and did not flag Alcatel angles outside it

---
 src/antenna_pcv.hpp    | 36 +++++++++++++++++++++++++-----------
 var/antenna/phselaw.cc | 35 +++++++++++++++++++----------------
 2 files changed, 44 insertions(+), 27 deletions(-)

diff --git a/src/antenna_pcv.hpp b/src/antenna_pcv.hpp
index d3e2c0a..3f02f36 100644
--- a/src/antenna_pcv.hpp
+++ b/src/antenna_pcv.hpp
@@ -1,9 +1,11 @@
 #ifndef __DORIS_ANTENNA_PCV_HPP__
 #define __DORIS_ANTENNA_PCV_HPP__
 
-#include "doris_system_info.hpp"
 #include "geodesy/units.hpp"
 #include "eigen3/Eigen/Eigen"
+#include <cassert>
+#include <cmath>
+#include <cstdint>
 
 namespace dso {
 
@@ -48,13 +50,17 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Alcatel, 1> {
   static constexpr double pcv(double zenith, int &out_of_bounds) noexcept {
     const double angle = dso::rad2deg<double>(zenith);
     out_of_bounds = 0;
-    if (zenith < 0e0 || zenith > dso::DPI / 2e0) {
-      return 0e0;
+    if (!(zenith >= 0e0 && zenith <= dso::DPI / 2e0)) {
       out_of_bounds = 1;
+      return 0e0;
     }
     int index = std::floor(angle / 5e0);
+    // the last node (90 deg.) belongs to the last interval
+    constexpr int intervals = sizeof(plarray) / sizeof(plarray[0]) - 1;
+    if (index >= intervals)
+      index = intervals - 1;
 #ifdef DEBUG
-    assert(index >= 0 && index < static_cast<int>(sizeof(plarray) - 1));
+    assert(index >= 0 && index < intervals);
 #endif
     return plarray[index] + (angle - 5e0 * index) *
                                 ((plarray[index + 1] - plarray[index]) / 5e0);
@@ -71,7 +77,7 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Alcatel, 2> {
   
   /// @brief Antenna/Frequency pair has no PCV information; always return 0
   static constexpr double pcv(double zenith, int &out_of_bounds) noexcept {
-    out_of_bounds = (zenith < 0e0) + (zenith > dso::DPI / 2e0);
+    out_of_bounds = !(zenith >= 0e0 && zenith <= dso::DPI / 2e0);
     return 0e0;
   }
 
@@ -101,13 +107,17 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Starec_B, 1> {
   static constexpr double pcv(double zenith, int &out_of_bounds) noexcept {
     const double angle(dso::rad2deg<double>(zenith));
     out_of_bounds = 0;
-    if (zenith < 0e0 || zenith > dso::DPI / 2e0) {
+    if (!(zenith >= 0e0 && zenith <= dso::DPI / 2e0)) {
       out_of_bounds = 1;
       return 0e0;
     }
     int index = std::floor(angle / 5e0);
+    // the last node (90 deg.) belongs to the last interval
+    constexpr int intervals = sizeof(plarray) / sizeof(plarray[0]) - 1;
+    if (index >= intervals)
+      index = intervals - 1;
 #ifdef DEBUG
-    assert(index >= 0 && index < static_cast<int>(sizeof(plarray) - 1));
+    assert(index >= 0 && index < intervals);
 #endif
     return plarray[index] + (angle - 5e0 * index) *
                                 ((plarray[index + 1] - plarray[index]) / 5e0);
@@ -124,7 +134,7 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Starec_B, 2> {
   
   /// @brief Antenna/Frequency pair has no PCV information; always return 0
   static constexpr double pcv(double zenith, int &out_of_bounds) noexcept {
-    out_of_bounds = (zenith < 0e0) + (zenith > dso::DPI / 2e0);
+    out_of_bounds = !(zenith >= 0e0 && zenith <= dso::DPI / 2e0);
     return 0e0;
   }
 };
@@ -153,13 +163,17 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Starec_C, 1> {
   static constexpr double pcv(double zenith, int &out_of_bounds) noexcept {
     const double angle(dso::rad2deg<double>(zenith));
     out_of_bounds = 0;
-    if (zenith < 0e0 || zenith > dso::DPI / 2e0) {
+    if (!(zenith >= 0e0 && zenith <= dso::DPI / 2e0)) {
       out_of_bounds = 1;
       return 0e0;
     }
     int index = std::floor(angle / 5e0);
+    // the last node (90 deg.) belongs to the last interval
+    constexpr int intervals = sizeof(plarray) / sizeof(plarray[0]) - 1;
+    if (index >= intervals)
+      index = intervals - 1;
 #ifdef DEBUG
-    assert(index >= 0 && index < static_cast<int>(sizeof(plarray) - 1));
+    assert(index >= 0 && index < intervals);
 #endif
     return plarray[index] + (angle - 5e0 * index) *
                                 ((plarray[index + 1] - plarray[index]) / 5e0);
@@ -176,7 +190,7 @@ template <> struct AntennaOffsetTraits<GroundAntennaType::Starec_C, 2> {
   
   /// @brief Antenna/Frequency pair has no PCV information; always return 0
   static constexpr double pcv(double zenith, int &out_of_bounds) noexcept {
-    out_of_bounds = (zenith < 0e0) + (zenith > dso::DPI / 2e0);
+    out_of_bounds = !(zenith >= 0e0 && zenith <= dso::DPI / 2e0);
     return 0e0;
   }
 };
diff --git a/var/antenna/phselaw.cc b/var/antenna/phselaw.cc
index 9bfd03e..eb8048e 100644
--- a/var/antenna/phselaw.cc
+++ b/var/antenna/phselaw.cc
@@ -16,14 +16,15 @@ struct AntennaOffsetTraits<GroundAntennaType::Alcatel, 1> {
   static constexpr double pcv(double zenith, int& out_of_bounds) noexcept {
     const double angle = ngpt::rad2deg<double>(zenith);
     out_of_bounds = 0;
-    if (zenith<0e0 || zenith > ngpt::DPI/2e0) {
+    if (!(zenith>=0e0 && zenith <= ngpt::DPI/2e0)) {
+      out_of_bounds = 1;
       return 0e0;
-      out_of_bounds=1;
     }
     int index = std::floor(angle/5e0);
-#ifdef DEBUG
-    assert(index>=0 && index < sizeof(plarray)-1);
-#endif
+    // the last node (90 deg.) belongs to the last interval
+    constexpr int intervals = sizeof(plarray) / sizeof(plarray[0]) - 1;
+    if (index >= intervals)
+      index = intervals - 1;
     return plarray[index] + (angle-5e0*index)*( (plarray[index+1]-plarray[index])/5e0 );
   }
 };
@@ -32,7 +33,7 @@ template<>
 struct AntennaOffsetTraits<GroundAntennaType::Alcatel, 2> {
   static constexpr double offset[3] = { 0e0, 0e0, 335e0 };
   static constexpr double pcv(double zenith, int& out_of_bounds) noexcept {
-    out_of_bounds = 0;
+    out_of_bounds = !(zenith>=0e0 && zenith <= ngpt::DPI/2e0);
     return 0e0;
   }
 };
@@ -47,14 +48,15 @@ struct AntennaOffsetTraits<GroundAntennaType::Starec_B, 1> {
   static constexpr double pcv(double zenith, int& out_of_bounds) noexcept {
     const double angle(ngpt::rad2deg<double>(zenith));
     out_of_bounds = 0;
-    if (zenith<0e0 || zenith > ngpt::DPI/2e0) {
+    if (!(zenith>=0e0 && zenith <= ngpt::DPI/2e0)) {
       out_of_bounds = 1;
       return 0e0;
     }
     int index = std::floor(angle/5e0);
-#ifdef DEBUG
-    assert(index>=0 && index < sizeof(plarray)-1);
-#endif
+    // the last node (90 deg.) belongs to the last interval
+    constexpr int intervals = sizeof(plarray) / sizeof(plarray[0]) - 1;
+    if (index >= intervals)
+      index = intervals - 1;
     return plarray[index] + (angle-5e0*index)*( (plarray[index+1]-plarray[index])/5e0 );
   }
 };
@@ -63,7 +65,7 @@ template<>
 struct AntennaOffsetTraits<GroundAntennaType::Starec_B, 2> {
   static double constexpr offset[3] = {0e0, 0e0, 0e0};
   static constexpr double pcv(double zenith, int& out_of_bounds) noexcept {
-    out_of_bounds = 0;
+    out_of_bounds = !(zenith>=0e0 && zenith <= ngpt::DPI/2e0);
     return 0e0;
   }
 };
@@ -78,14 +80,15 @@ struct AntennaOffsetTraits<GroundAntennaType::Starec_C, 1> {
   static constexpr double pcv(double zenith, int& out_of_bounds) noexcept {
     const double angle(ngpt::rad2deg<double>(zenith));
     out_of_bounds = 0;
-    if (zenith<0e0 || zenith > ngpt::DPI/2e0) {
+    if (!(zenith>=0e0 && zenith <= ngpt::DPI/2e0)) {
       out_of_bounds = 1;
       return 0e0;
     }
     int index = std::floor(angle/5e0);
-#ifdef DEBUG
-    assert(index>=0 && index < sizeof(plarray)-1);
-#endif
+    // the last node (90 deg.) belongs to the last interval
+    constexpr int intervals = sizeof(plarray) / sizeof(plarray[0]) - 1;
+    if (index >= intervals)
+      index = intervals - 1;
     return plarray[index] + (angle-5e0*index)*( (plarray[index+1]-plarray[index])/5e0 );
   }
 };
@@ -94,7 +97,7 @@ template<>
 struct AntennaOffsetTraits<GroundAntennaType::Starec_C, 2> {
   static constexpr double offset[3] = {0e0, 0e0, 0e0};
   static constexpr double pcv(double zenith, int& out_of_bounds) noexcept {
-    out_of_bounds = 0;
+    out_of_bounds = !(zenith>=0e0 && zenith <= ngpt::DPI/2e0);
     return 0e0;
   }
 };
-- 
2.43.0


From f541d26e37d970a451b51ed0a7ad855edebcccef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:01 +0000
Subject: [PATCH 18/53] fix: station records: stale errno, merged type/shift
 columns, unterminated name in to_str, dangling phase-centre temporaries

---
 src/doris/doris_system_info.cpp | 6 ++++--
 src/doris_system_info.hpp       | 8 +++++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/doris/doris_system_info.cpp b/src/doris/doris_system_info.cpp
index f1e9633..78edee2 100644
--- a/src/doris/doris_system_info.cpp
+++ b/src/doris/doris_system_info.cpp
@@ -1,5 +1,6 @@
 #include "doris_system_info.hpp"
 #include <cassert>
+#include <cerrno>
 #include <cstring>
 #include <stdexcept>
 
@@ -103,8 +104,9 @@ int dso::BeaconStation::set_from_rinex_line(const char *line) noexcept {
   std::memcpy(m_station_name, line + 10, sizeof m_station_name);
   std::memcpy(m_station_domes, line + 40, sizeof m_station_domes);
   char *end;
+  errno = 0;
   m_type = std::strtol(line + 50, &end, 10);
-  if (errno || end == line + 50) {
+  if (errno || end == line + 50 || end > line + 52) {
     errno = 0;
     return 2;
   }
@@ -126,7 +128,7 @@ int dso::BeaconStation::set_from_rinex_line(const char *line) noexcept {
 }
 
 char *dso::BeaconStation::to_str(char *buffer) const noexcept {
-  std::sprintf(buffer, "[%.3s/%.4s_%.9s](%s)", m_internal_code, m_station_id,
+  std::sprintf(buffer, "[%.3s/%.4s_%.9s](%.30s)", m_internal_code, m_station_id,
                m_station_domes, m_station_name);
   return buffer;
 }
diff --git a/src/doris_system_info.hpp b/src/doris_system_info.hpp
index 7f0dbec..d0f079b 100644
--- a/src/doris_system_info.hpp
+++ b/src/doris_system_info.hpp
@@ -161,14 +161,16 @@ struct BeaconStation {
   ///        position estimation using DORIS RINEX data", section 2.5.7
   Eigen::Matrix<double, 3, 1> iono_free_phase_center() const noexcept {
     // the 2GHz Phase center in [mm]
-    const auto r_2Ghz = AntennaOffset<GroundAntennaType::Alcatel, 1>::pco() *
+    const Eigen::Matrix<double, 3, 1> r_2Ghz =
+        AntennaOffset<GroundAntennaType::Alcatel, 1>::pco() *
                             (type() == GroundAntennaType::Alcatel) +
                         AntennaOffset<GroundAntennaType::Starec_B, 1>::pco() *
                             (type() == GroundAntennaType::Starec_B ||
                              type() == GroundAntennaType::Starec_C);
 
     // the 400MHz Phase center in [mm]
-    const auto r_400MHz = AntennaOffset<GroundAntennaType::Alcatel, 2>::pco() *
+    const Eigen::Matrix<double, 3, 1> r_400MHz =
+        AntennaOffset<GroundAntennaType::Alcatel, 2>::pco() *
                               (type() == GroundAntennaType::Alcatel) +
                           AntennaOffset<GroundAntennaType::Starec_B, 2>::pco() *
                               (type() == GroundAntennaType::Starec_B ||
@@ -179,7 +181,7 @@ struct BeaconStation {
   }
 
   /// @brief Concatenate Beacon information to a string
-  /// @param[in] buffer A char array of length > 51 chars
+  /// @param[in] buffer A char array of length > 52 chars
   /// @return a pointer to the (formatted) buffer string
   char *to_str(char *buffer) const noexcept;
 
-- 
2.43.0


From 088798231ae0283f9fcbbd67863f57ae3195507d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:02 +0000
Subject: [PATCH 19/53] fix: space-weather reader accepted incomplete windows,
 refused the last day, misread records with empty columns, over-read short
 lines

---
 src/var/celestrak_swdata.cpp | 68 +++++++++++++++++++++---------------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/src/var/celestrak_swdata.cpp b/src/var/celestrak_swdata.cpp
index 5e66737..04c3873 100644
--- a/src/var/celestrak_swdata.cpp
+++ b/src/var/celestrak_swdata.cpp
@@ -37,14 +37,11 @@ int dso::utils::celestrak::details::resolve_csv_line_records(
   const char *c = line;
 
   // find and skip 12 ',' chars
-  int commas = 0;
-  while (*c++ && commas < 12) {
-    if (*c == ',') {
+  for (int commas = 0; commas < 12; ++c) {
+    if (!*c)
+      return 2;
+    if (*c == ',')
       ++commas;
-    }
-  }
-  if (!*c) {
-    return 2;
   }
 
   // last character in the string, the limit for conversions
@@ -71,15 +68,12 @@ int dso::utils::celestrak::details::resolve_csv_line_records(
 
   // we are now at column CP; skip and, and do so also for columns:
   // C9, ISN
-  // Go three ',' forward
-  commas = 0;
-  while (*c++ && commas < 3) {
-    if (*c == ',') {
+  // Go three ',' forward (note that any of these columns may be empty)
+  for (int commas = 0; commas < 3; ++c) {
+    if (!*c)
+      return 12;
+    if (*c == ',')
       ++commas;
-    }
-  }
-  if (!*c) {
-    return 12;
   }
 
   // we are not at the F10.7_OBS column (25)
@@ -97,6 +91,8 @@ int dso::utils::celestrak::details::resolve_csv_line_records(
   }
 
   // we are now at the F10.7_DATA_TYPE; just copy three chars
+  if (std::strlen(c) < 4)
+    return 15;
   std::memcpy(flux_data.flag, c, 3 * sizeof(char));
   c += 3;
   if (*c++ != ',')
@@ -133,17 +129,27 @@ int dso::utils::celestrak::details::resolve_csv_line_date(
     const char *line, dso::modified_julian_day &mjd) noexcept {
   // date format: 2017-01-10
   int year, month, day;
+  if (std::strlen(line) < 10 || line[4] != '-' || line[7] != '-')
+    return 1;
   // year ...
   auto pec = std::from_chars(line, line + 4, year);
-  if (pec.ec != std::errc{})
+  if (pec.ec != std::errc{} || pec.ptr != line + 4)
     return 1;
   // month ...
   pec = std::from_chars(line + 5, line + 7, month);
-  if (pec.ec != std::errc{})
+  if (pec.ec != std::errc{} || pec.ptr != line + 7)
     return 1;
   // day ...
   pec = std::from_chars(line + 8, line + 10, day);
-  if (pec.ec != std::errc{})
+  if (pec.ec != std::errc{} || pec.ptr != line + 10)
+    return 1;
+  // must be a calendar date
+  constexpr const int mdays[] = {31, 28, 31, 30, 31, 30,
+                                 31, 31, 30, 31, 30, 31};
+  if (year < 1 || month < 1 || month > 12)
+    return 1;
+  const bool leap = (year % 4 == 0 && year % 100 != 0) || year % 400 == 0;
+  if (day < 1 || day > mdays[month - 1] + (leap && month == 2))
     return 1;
 
   // to datetime ... (note that this is UTC)
@@ -233,8 +239,11 @@ int dso::utils::celestrak::details::parse_csv_for_date(
 
   // read first data line; if record_date > start_mjd data, the target date is
   // not included in the file ...
-  fin.getline(line, MAX_SW_CHARS);
-  if (resolve_csv_line_date(line, cmjd)) {
+  if (!fin.getline(line, MAX_SW_CHARS) || resolve_csv_line_date(line, cmjd)) {
+    // same as below; maybe there is nothing left to read after fpos
+    if (fpos2)
+      return parse_csv_for_date(mjd, fncsv, flux_data, fpos, days_before,
+                                days_after);
     fprintf(stderr, "ERROR@%s: Failed parsing SW csv line %s\n", __func__,
             line);
     return parse_error;
@@ -275,22 +284,23 @@ int dso::utils::celestrak::details::parse_csv_for_date(
               __func__, line, error);
       return parse_error;
     }
+    // all days collected? do not look at whatever follows
+    if (++cdi == days_to_resolve)
+      break;
     // read in next line (should be next day)
-    if (fin.getline(line, MAX_SW_CHARS)) {
-      error = resolve_csv_line_date(line, cmjd);
-    } else {
-      return error;
-    }
-    if (cmjd != start_mjd + dso::modified_julian_day{cdi + 1}) {
+    if (!fin.getline(line, MAX_SW_CHARS))
+      return eof_reached;
+    if (resolve_csv_line_date(line, cmjd) ||
+        cmjd != start_mjd + dso::modified_julian_day{cdi}) {
       fprintf(stderr, "ERROR@%s Error parsing SW CVS file %s\n", __func__,
               fncsv);
       return parse_error;
     }
-    ++cdi;
   }
 
-  // set fpos
-  fpos = fin.tellg();
+  // set fpos (if the last line ended without a newline, leave it at the top)
+  if (!fin.eof())
+    fpos = fin.tellg();
 
   return 0;
 }
-- 
2.43.0


From 1d5b541907d920ba15a9812c63ef9075bda4b262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:02 +0000
Subject: [PATCH 20/53] fix: flux feed: failed updates corrupted later ones,
 seconds beyond a day read outside the index table, path overflow

---
 src/atmosphere/nrlmsise00_get_flux_data.cpp | 24 ++++++++++++---------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/atmosphere/nrlmsise00_get_flux_data.cpp b/src/atmosphere/nrlmsise00_get_flux_data.cpp
index 1240a0c..5e35dee 100644
--- a/src/atmosphere/nrlmsise00_get_flux_data.cpp
+++ b/src/atmosphere/nrlmsise00_get_flux_data.cpp
@@ -9,24 +9,27 @@
 dso::nrlmsise00::detail::Nrlmsise00DataFeed::Nrlmsise00DataFeed(
     const char *fncsv, dso::nrlmsise00::detail::InParamsCore &in)
     {
-      std::strcpy(fncsv_,fncsv);
+  if (std::strlen(fncsv) >= sizeof(fncsv_))
+    throw std::runtime_error("Failed to initialize Nrlmsise00DataFeed\n");
+  std::strcpy(fncsv_, fncsv);
 
-  const dso::datetime<dso::milliseconds> t(dso::datetime<dso::milliseconds>(
-      dso::year(in.year), dso::day_of_year(in.doy), dso::milliseconds(0)));
+  dso::modified_julian_day mjd(dso::ydoy2mjd(in.year, in.doy));
+  mjd += dso::modified_julian_day((int)(in.sec / 86400e0));
   if (dso::utils::celestrak::details::parse_csv_for_date(
-          t.mjd(), fncsv, flux_data_, fpos, 3, 0)) {
+          mjd, fncsv, flux_data_, fpos, 3, 0)) {
     throw std::runtime_error("Failed to initialize Nrlmsise00DataFeed\n");
   }
 
-  mjd_ = t.mjd();
+  mjd_ = mjd;
 
   if (init(in))
     throw std::runtime_error("Failed to initialize Nrlmsise00DataFeed\n");
 }
 
+// hour of day; seconds may exceed one day, whole days are handled by the date
 int ihours(double secday) noexcept {
   constexpr const int sec_in_hour = 60 * 60;
-  return static_cast<int>(secday) / sec_in_hour;
+  return (static_cast<int>(secday) % 86400) / sec_in_hour;
 }
 
 int dso::nrlmsise00::detail::Nrlmsise00DataFeed::init(
@@ -177,9 +180,6 @@ int dso::nrlmsise00::detail::Nrlmsise00DataFeed::update(
       return 0;
     } else {
       // shit, hour index changed
-#ifdef DEBUG
-      assert(chi != 7);
-#endif
       error = this->init(in);
     }
   } else {
@@ -190,8 +190,12 @@ int dso::nrlmsise00::detail::Nrlmsise00DataFeed::update(
                                                        flux_data_, 4, fpos);
     } else {
       // else just parse the file from the top and fill in data arrays ...
+      // (do not touch the current arrays in case of failure)
+      dso::utils::celestrak::details::CelestTrakSWFlux new_flux[4];
       error = dso::utils::celestrak::details::parse_csv_for_date(
-          new_mjd, fncsv_, flux_data_, fpos, 3, 0);
+          new_mjd, fncsv_, new_flux, fpos, 3, 0);
+      if (!error)
+        std::memcpy(flux_data_, new_flux, sizeof(flux_data_));
     }
     if (!error) {
       mjd_ = new_mjd;
-- 
2.43.0


From 57db56728d7a4098101e133cdcc340469a73a7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 21/53] fix: RINEX header reader: short lines, optional and
 repeated records, counts, field limits, uninitialised members

---
 src/doris_rinex.hpp           | 48 ++++++++++++++-----
 src/rinex/read_rnx_header.cpp | 88 +++++++++++++++++++++++------------
 2 files changed, 95 insertions(+), 41 deletions(-)

diff --git a/src/doris_rinex.hpp b/src/doris_rinex.hpp
index 63416cb..09330e5 100644
--- a/src/doris_rinex.hpp
+++ b/src/doris_rinex.hpp
@@ -6,11 +6,37 @@
 #include "filters/models.hpp"
 #include <datetime/dtfund.hpp>
 #include <fstream>
+#include <cmath>
+#include <cstring>
 #include <vector>
 #include <algorithm>
 
 namespace dso {
 
+namespace rinex_details {
+/// @brief Read next line off from a stream, and fill whatever is left of the
+///        buffer with blanks (so that fixed-column fields can be accessed
+///        even in short lines, e.g. if trailing blanks are trimmed)
+/// @param[out] line The line read; it will always hold size-1 characters
+///        and a null terminating character
+/// @param[out] len Actual length of the line
+/// @return true if the line was read, false otherwise
+inline bool getline_padded(std::istream &fin, char *line, int size,
+                           int &len) noexcept {
+  const bool ok = static_cast<bool>(fin.getline(line, size));
+  len = ok ? std::strlen(line) : 0;
+  std::memset(line + len, ' ', size - 1 - len);
+  line[size - 1] = '\0';
+  return ok;
+}
+
+/// @brief Fractional seconds to (rounded) nanoseconds
+inline dso::nanoseconds sec2nsec(double sec) noexcept {
+  return dso::nanoseconds(static_cast<dso::nanoseconds::underlying_type>(
+      std::round(sec * 1e9)));
+}
+} // namespace rinex_details
+
 /// @class TimeReferenceStation
 /// This class holds time reference stations (beacons) recorded in a DORIS
 /// RINEX files. These stations are marked with the 'TIME REF STATION' in the
@@ -108,27 +134,27 @@ std::string m_filename;
 /// The infput (file) stream; open at constructor
 std::ifstream m_stream;
 /// RINEX version
-float m_version;
+float m_version{0};
 /// Satellite name
-char m_satellite_name[60];
+char m_satellite_name[61]{'\0'};
 /// COSPAR number
-char m_cospar_number[20];
+char m_cospar_number[21]{'\0'};
 /// DORIS chain used (chain1 or chain2), exp. “CHAIN1”
-char m_rec_chain[20];
+char m_rec_chain[21]{'\0'};
 /// DORIS instrument type; exp. “DGXX”
-char m_rec_type[20];
+char m_rec_type[21]{'\0'};
 /// The software version used on board DORIS/DIODE, exp. “1.00”
-char m_rec_version[20];
+char m_rec_version[21]{'\0'};
 /// The antenna type is “STAREC”
-char m_antenna_type[20];
+char m_antenna_type[21]{'\0'};
 /// The antenna number is “DORIS”
-char m_antenna_number[20];
+char m_antenna_number[21]{'\0'};
 /// Position of 2 GHz phase center, in the platform reference frame (Units:
 /// Meters, System: ITRS recommended)
-float m_approx_position[3];
+float m_approx_position[3]{0};
 /// The center of mass of the vehicle (for space borne receivers):
 /// CENTER OF MASS: XYZ, defined at the beginning of the mission.
-float m_center_mass[3];
+float m_center_mass[3]{0};
 /// A vector of ObservationCode contained in the RINEX file
 std::vector<ObservationCode> m_obs_codes;
 /// A vector of scale factors corresponding to m_obs_codes (aka they have
@@ -144,7 +170,7 @@ dso::datetime<dso::nanoseconds> m_time_ref_stat;
 /// date of the 2GHz phase measurement in microseconds. Positive if the 
 /// measurement of phase 400 MHz is performed after the measurement of phase 
 /// 2 GHz
-double m_l12_date_offset;
+double m_l12_date_offset{0};
 /// Epoch, code, and phase are corrected by applying the realtime-derived 
 /// receiver clock offset: 1=yes, 0=no; default: 0=no
 bool rcv_clock_offs_appl{false};
diff --git a/src/rinex/read_rnx_header.cpp b/src/rinex/read_rnx_header.cpp
index 04455f4..a2c9070 100644
--- a/src/rinex/read_rnx_header.cpp
+++ b/src/rinex/read_rnx_header.cpp
@@ -1,7 +1,7 @@
 #include "datetime/datetime_read.hpp"
 #include "doris_rinex.hpp"
 #include <algorithm>
-#include <cassert>
+#include <cerrno>
 #include <cstring>
 
 /// Max header lines.
@@ -17,7 +17,7 @@
 /// str="                       ", from=22, return value=0
 /// str=" a                     ", from=22, return value=2
 int count_length_reverse(const char *str, int from) noexcept {
-  while (*(str + from) == ' ' && from >= 0)
+  while (from >= 0 && *(str + from) == ' ')
     --from;
   return ++from;
 }
@@ -41,10 +41,10 @@ int dso::DorisObsRinex::read_header() noexcept {
   int num_stations = 0;
   int num_ref_stations = 0;
   int obs_types_num = 0;
-  int tmp_sz;
+  int tmp_sz, len;
 
   // first line; RINEX VERSION / TYPE (get version, type and system)
-  m_stream.getline(line, MAX_HEADER_CHARS);
+  rinex_details::getline_padded(m_stream, line, MAX_HEADER_CHARS, len);
   if (std::strncmp(line + 60, "RINEX VERSION / TYPE", 20))
     return 10;
   m_version = std::strtof(line, &str_end);
@@ -52,16 +52,21 @@ int dso::DorisObsRinex::read_header() noexcept {
     return 11;
 
   // second line; PGM / RUN BY / DATE
-  m_stream.getline(line, MAX_HEADER_CHARS);
+  rinex_details::getline_padded(m_stream, line, MAX_HEADER_CHARS, len);
   if (std::strncmp(line + 60, "PGM / RUN BY / DATE", 19))
     return 20;
 
   // read on untill EOH
-  while (m_stream && m_stream.getline(line, MAX_HEADER_CHARS)) {
+  while (m_stream && rinex_details::getline_padded(m_stream, line,
+                                                   MAX_HEADER_CHARS, len)) {
+    // every record must have a label
+    if (len <= 60)
+      return -4;
+
     if (!std::strncmp(line + 60, "SATELLITE NAME", 14)) {
       // SATELLITE NAME; get m_satellite_name (err. code 30)
       tmp_sz = count_length_reverse(line, 59);
-      if (!tmp_sz || tmp_sz >= 59)
+      if (!tmp_sz)
         return 30;
       std::memcpy(m_satellite_name, line, tmp_sz);
       m_satellite_name[tmp_sz] = '\0';
@@ -69,7 +74,7 @@ int dso::DorisObsRinex::read_header() noexcept {
     } else if (!std::strncmp(line + 60, "COSPAR NUMBER", 13)) {
       // COSPAR NUMBER; get m_cospar_number (err. code 40)
       tmp_sz = count_length_reverse(line, 59);
-      if (!tmp_sz || tmp_sz > 19)
+      if (!tmp_sz || tmp_sz > 20)
         return 40;
       std::memcpy(m_cospar_number, line, tmp_sz);
       m_cospar_number[tmp_sz] = '\0';
@@ -87,17 +92,17 @@ int dso::DorisObsRinex::read_header() noexcept {
       // REC # / TYPE / VERS; get m_rec_chain, m_rec_type and m_rec_version
       // (err. code 70)
       tmp_sz = count_length_reverse(line, 19);
-      if (tmp_sz < 1 || tmp_sz >= 19)
+      if (tmp_sz < 1)
         return 71;
       std::memcpy(m_rec_chain, line, tmp_sz);
       m_rec_chain[tmp_sz] = '\0';
       tmp_sz = count_length_reverse(line + 20, 19);
-      if (tmp_sz < 1 || tmp_sz >= 19)
+      if (tmp_sz < 1)
         return 72;
       std::memcpy(m_rec_type, line + 20, tmp_sz);
       m_rec_type[tmp_sz] = '\0';
       tmp_sz = count_length_reverse(line + 40, 19);
-      if (tmp_sz < 1 || tmp_sz >= 19)
+      if (tmp_sz < 1)
         return 73;
       std::memcpy(m_rec_version, line + 40, tmp_sz);
       m_rec_version[tmp_sz] = '\0';
@@ -106,12 +111,12 @@ int dso::DorisObsRinex::read_header() noexcept {
       // ANT # / TYPE; get and validate m_antenna_number and m_antenna_type
       // (err. code 80)
       tmp_sz = count_length_reverse(line, 19);
-      if (tmp_sz < 1 || tmp_sz >= 19)
+      if (tmp_sz < 1)
         return 81;
       std::memcpy(m_antenna_number, line, tmp_sz);
       m_antenna_number[tmp_sz] = '\0';
       tmp_sz = count_length_reverse(line + 20, 19);
-      if (tmp_sz < 1 || tmp_sz >= 19)
+      if (tmp_sz < 1)
         return 82;
       std::memcpy(m_antenna_type, line + 20, tmp_sz);
       m_antenna_type[tmp_sz] = '\0';
@@ -125,7 +130,7 @@ int dso::DorisObsRinex::read_header() noexcept {
       char *start = line;
       for (int i = 0; i < 3; i++) {
         m_approx_position[i] = std::strtof(start, &end);
-        if (start == end || errno) {
+        if (start == end || end > start + 14 || errno) {
           errno = 0;
           return 90 + i;
         }
@@ -138,7 +143,7 @@ int dso::DorisObsRinex::read_header() noexcept {
       char *start = line;
       for (int i = 0; i < 3; i++) {
         m_center_mass[i] = std::strtof(start, &end);
-        if (start == end || errno) {
+        if (start == end || end > start + 14 || errno) {
           errno = 0;
           return 100 + i;
         }
@@ -151,23 +156,28 @@ int dso::DorisObsRinex::read_header() noexcept {
       if (*line != 'D')
         return 111;
       obs_types_num = std::strtol(line + 1, &end, 10);
-      if ((errno || end == line + 1) || !obs_types_num) {
+      if ((errno || end == line + 1 || end > line + 6) || obs_types_num <= 0) {
         errno = 0;
         return 112;
       }
-      assert(obs_types_num < 13);
+      // no continuation lines
+      if (obs_types_num > 12)
+        return 115;
       if (!m_obs_codes.empty())
         m_obs_codes.clear();
       for (int code = 0; code < obs_types_num; code++) {
         char *s = line + 6 + code * 4;
+        const char *const stop = s + 4;
         while (*s == ' ') // we need to skip leading whitespaces ...
           ++s;
+        if (s >= stop) // missing code
+          return 114;
         try {
           ObservationType type(char_to_observationType(*s)); // may throw!
           int freq = 0;
           if (observationType_has_frequency(type)) {
             freq = std::strtol(s + 1, &end, 10);
-            if (errno || end == s + 1) {
+            if (errno || end == s + 1 || end > stop) {
               errno = 0;
               return 113;
             }
@@ -198,11 +208,11 @@ int dso::DorisObsRinex::read_header() noexcept {
       // SYS / SCALE FACTOR; get/fill m_obs_scale_factors
       if (*line != 'D')
         return 141;
-      if (!m_obs_scale_factors.empty())
-        m_obs_scale_factors.clear();
       // create a vector of 1's with a size equal to m_obs_codes. the two
-      // vectors will have a one-to-one correspondance
-      m_obs_scale_factors = std::vector<int>(m_obs_codes.size(), 1);
+      // vectors will have a one-to-one correspondance. Note that there may be
+      // more than one such records
+      if (m_obs_scale_factors.empty())
+        m_obs_scale_factors = std::vector<int>(m_obs_codes.size(), 1);
       int factor = std::strtol(line + 2, &end, 10);
       if (!factor || (errno || end == line + 2)) {
         errno = 0;
@@ -210,25 +220,33 @@ int dso::DorisObsRinex::read_header() noexcept {
       }
       int num_obs;
       if (line[8] == line[9] && line[8] == ' ') { // blank means all ....
-        num_obs = m_obs_scale_factors.size();
+        num_obs = 0;
       } else {
         // scale factors can be defined for any number of ObservationCodes, in
         // the range [0, m_obs_codes.size()]
         num_obs = std::strtol(line + 8, &end, 10);
-        if ((!num_obs || num_obs > (int)m_obs_scale_factors.size()) ||
-            (errno || end == line + 8))
+        if ((num_obs < 0 || num_obs > (int)m_obs_scale_factors.size()) ||
+            (errno || end == line + 8 || end > line + 10)) {
+          errno = 0;
           return 143;
+        }
       }
+      if (!num_obs) // 0 or blank, all observation types
+        std::fill(m_obs_scale_factors.begin(), m_obs_scale_factors.end(),
+                  factor);
       for (int code = 0; code < num_obs; code++) {
         char *s = line + 10 + code * 4;
+        const char *const stop = s + 4;
         while (*s == ' ') // ignore leading whitespaces ...
           ++s;
+        if (s >= stop) // missing code
+          return 146;
         try {
           ObservationType type(char_to_observationType(*s));
           int freq = 0;
           if (observationType_has_frequency(type)) {
             freq = std::strtol(s + 1, &end, 10);
-            if (!freq || (errno || end == s + 1)) {
+            if (!freq || (errno || end == s + 1 || end > stop)) {
               errno = 0;
               return 144;
             }
@@ -262,8 +280,10 @@ int dso::DorisObsRinex::read_header() noexcept {
       errno = 0;
       // # OF STATIONS; reserve size for m_stations (err. code 160)
       num_stations = std::strtol(line, &end, 10);
-      if (!num_stations || (errno || end == line))
+      if (num_stations <= 0 || (errno || end == line || end > line + 6)) {
+        errno = 0;
         return 161;
+      }
       //printf(">> Num stations: %d, capacity: %d\n", num_stations,
       //       (int)m_stations.capacity());
       if ((int)m_stations.capacity() < num_stations)
@@ -282,7 +302,7 @@ int dso::DorisObsRinex::read_header() noexcept {
       errno = 0;
       // # TIME REF STATIONS; reserve size for m_ref_stations (err. code 180)
       num_ref_stations = std::strtol(line, &end, 10);
-      if (!num_ref_stations || (errno || end == line)) {
+      if (num_ref_stations < 0 || (errno || end == line || end > line + 6)) {
         errno = 0;
         return 181;
       }
@@ -296,7 +316,7 @@ int dso::DorisObsRinex::read_header() noexcept {
       TimeReferenceStation refsta;
       std::memcpy(refsta.m_station_code, line, sizeof refsta.m_station_code);
       refsta.m_bias = std::strtod(line + 5, &end);
-      if (errno || end == line + 5) {
+      if (errno || end == line + 5 || end > line + 5 + 14) {
         errno = 0;
         return 191;
       }
@@ -328,6 +348,7 @@ int dso::DorisObsRinex::read_header() noexcept {
     } else if (!std::strncmp(line + 60, "RCV CLOCK OFFS APPL",
                              19)) { // Code: 210
 
+      errno = 0;
       int rcv_clock_offs_appl_int = -99;
       rcv_clock_offs_appl_int = std::strtol(line, &end, 10);
       if ((errno || end == line) ||
@@ -352,12 +373,19 @@ int dso::DorisObsRinex::read_header() noexcept {
   if (!m_stream.good() || !m_end_of_head)
     return -2;
 
+  // scale factors are optional
+  if (m_obs_scale_factors.empty())
+    m_obs_scale_factors = std::vector<int>(m_obs_codes.size(), 1);
+
   // final checks on collected info
+  if (m_obs_codes.empty())
+    return -3;
   if (m_obs_codes.size() != m_obs_scale_factors.size() ||
       obs_types_num != static_cast<int>(m_obs_codes.size()))
     return -3;
   if (num_stations != static_cast<int>(m_stations.size()) ||
-      m_ref_stations.size() >= m_stations.size())
+      num_ref_stations != static_cast<int>(m_ref_stations.size()) ||
+      m_ref_stations.size() > m_stations.size())
     return -3;
 
   return 0;
-- 
2.43.0


From 3c144f371de7c6f93960570ee14aaa0cc6ac8763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 22/53] fix: RINEX data blocks: short lines, missing lines and
 values, garbage after a value, blank clock flag

---
 src/rinex/doris_rinex.cpp | 55 +++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/src/rinex/doris_rinex.cpp b/src/rinex/doris_rinex.cpp
index ffcd2e2..83308eb 100644
--- a/src/rinex/doris_rinex.cpp
+++ b/src/rinex/doris_rinex.cpp
@@ -2,6 +2,8 @@
 #include "datetime/datetime_read.hpp"
 #include <algorithm>
 #include <cctype>
+#include <cerrno>
+#include <cstring>
 #include <stdexcept>
 #ifdef DEBUG
 #include "datetime/datetime_write.hpp"
@@ -132,7 +134,8 @@ void dso::DorisObsRinex::read() {
 int dso::DorisObsRinex::read_data_block(
     dso::RinexDataRecordHeader &hdr,
     std::vector<BeaconObservations> &obsvec) noexcept {
-  static char line[MAX_RECORD_CHARS];
+  char line[MAX_RECORD_CHARS];
+  int len;
   if (!obsvec.empty())
     obsvec.clear();
 
@@ -153,12 +156,17 @@ int dso::DorisObsRinex::read_data_block(
     while (curobs < (int)m_obs_codes.size()) {
       // should we change/get the next line ?
       if (!(curobs % 5)) {
-        m_stream.getline(line, MAX_RECORD_CHARS);
+        if (!rinex_details::getline_padded(m_stream, line, MAX_RECORD_CHARS,
+                                           len))
+          return 3;
         // if this is the first data line for the beacon, get its code
         if (!curline) {
-          if ((*line) != 'D')
+          if ((*line) != 'D' || !isdigit(static_cast<unsigned char>(line[2])))
             return 1;
           std::memcpy(obsvec_it->m_beacon_id, line, 3);
+        } else if (std::strncmp(line, "   ", 3)) {
+          // not a continuation line
+          return 4;
         }
         ++curline;
       }
@@ -177,11 +185,10 @@ int dso::DorisObsRinex::read_data_block(
       char flagm1 = line[3 + (curobs % 5) * 16 + 14];
       char flagm2 = line[3 + (curobs % 5) * 16 + 15];
       val = (buf_is_empty) ? OBSERVATION_VALUE_MISSING : std::strtod(buf, &end);
-      if (val == 0e0 || end == buf) {
+      if (end == buf || end[std::strspn(end, " ")])
+        return 2;
+      if (val == 0e0)
         val = OBSERVATION_VALUE_MISSING;
-        if (end == buf)
-          return 2;
-      }
       // push value to the current BeaconObservations instance (in-place)
       // WAIT! check if we have a scale factor for the observable (note that
       // the m_obs_scale_factors are in one-to-one correspondance with the
@@ -189,7 +196,8 @@ int dso::DorisObsRinex::read_data_block(
       // index of the observable. If no scale factor for the observable exists,
       // then the m_obs_scale_factors should have an '1' in the corresponding
       // index
-      val /= m_obs_scale_factors[curobs];
+      if (val != OBSERVATION_VALUE_MISSING)
+        val /= m_obs_scale_factors[curobs];
       obsvec_it->m_values.emplace_back(val, flagm1, flagm2);
       ++curobs;
     }
@@ -237,10 +245,17 @@ int dso::DorisObsRinex::read_data_block(
 ///   +-------------------------+-----------+------------------------------
 ///
 int dso::DorisObsRinex::resolve_data_epoch(
-    const char *line, dso::RinexDataRecordHeader &hdr) const noexcept {
-  if (*line != '>')
+    const char *str, dso::RinexDataRecordHeader &hdr) const noexcept {
+  if (*str != '>')
     return 1; // must start with '>' character
 
+  // the record's columns, padded with blanks (trailing ones may be missing)
+  char line[61];
+  const std::size_t len = std::min<std::size_t>(std::strlen(str), 60);
+  std::memcpy(line, str, len);
+  std::memset(line + len, ' ', 60 - len);
+  line[60] = '\0';
+
   char *end;
   int status = 0;
 
@@ -263,7 +278,7 @@ int dso::DorisObsRinex::resolve_data_epoch(
   std::memcpy(tbuf, line + 31, 3);
   // hdr.m_flag = static_cast<int_fast8_t>(std::strtol(line + 31, &end, 10));
   hdr.m_flag = static_cast<int_fast8_t>(std::strtol(tbuf, &end, 10));
-  if (end == tbuf || errno) {
+  if (end == tbuf || *end || errno) {
     errno = 0;
     status = status ? status : 3;
   }
@@ -272,7 +287,7 @@ int dso::DorisObsRinex::resolve_data_epoch(
   // hdr.m_num_stations =
   //     static_cast<int_fast16_t>(std::strtol(line + 34, &end, 10));
   hdr.m_num_stations = static_cast<int_fast16_t>(std::strtol(tbuf, &end, 10));
-  if (end == tbuf || errno) {
+  if (end == tbuf || *end || errno || hdr.m_num_stations < 0) {
     errno = 0;
     status = status ? status : 4;
   }
@@ -286,7 +301,8 @@ int dso::DorisObsRinex::resolve_data_epoch(
   }
   if (has_clock_offset) {
     hdr.m_clock_offset = std::strtod(line + 43, &end);
-    if (errno || end == line + 43) {
+    if (errno || end == line + 43 || end > line + 56 ||
+        (int)std::strspn(end, " ") < (line + 56) - end) {
       errno = 0;
       status = status ? status : 5;
     }
@@ -294,10 +310,15 @@ int dso::DorisObsRinex::resolve_data_epoch(
     hdr.m_clock_offset = RECEIVER_CLOCK_OFFSET_MISSING;
   }
 
-  hdr.m_clock_flag = static_cast<int_fast8_t>(std::strtol(line + 56, &end, 10));
-  if (errno || end == line + 56) {
-    errno = 0;
-    status = status ? status : 6;
+  // (optional) clock offset flag; 0 if blank
+  hdr.m_clock_flag = 0;
+  if (line[56 + std::strspn(line + 56, " ")]) {
+    hdr.m_clock_flag =
+        static_cast<int_fast8_t>(std::strtol(line + 56, &end, 10));
+    if (errno || end == line + 56) {
+      errno = 0;
+      status = status ? status : 6;
+    }
   }
 
   return status;
-- 
2.43.0


From e214f1dbf3ad7d85b4ec549d36c1eda2fc9753e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:16 +0000
Subject: [PATCH 23/53] fix: RINEX epochs: round offsets to nanoseconds, ignore
 a missing clock offset

---
 src/doris_rinex.hpp                  | 20 ++++++++------------
 src/rinex/rnx_datablock_iterator.cpp |  5 ++---
 2 files changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/doris_rinex.hpp b/src/doris_rinex.hpp
index 09330e5..90eaf6a 100644
--- a/src/doris_rinex.hpp
+++ b/src/doris_rinex.hpp
@@ -65,16 +65,16 @@ struct RinexDataRecordHeader {
   ///< Receiver clock offset in seconds (optional)
   double m_clock_offset{RECEIVER_CLOCK_OFFSET_MISSING};
   ///< Number of stations observed in current epoch
-  int_fast16_t m_num_stations;
+  int_fast16_t m_num_stations{0};
   ///< Epoch flag
-  int_fast8_t m_flag,
+  int_fast8_t m_flag{0},
       ///< Receiver clock offset flag, 1 if extrapolated, 0 otherwise
-      m_clock_flag;
+      m_clock_flag{0};
   /// @brief Apply the recorded (in RINEX) clock offset to time m_epoch
   void apply_clock_offset() noexcept {
-    dso::nanoseconds off_nsec {static_cast<dso::nanoseconds::underlying_type>( 
-      m_clock_offset * dso::nanoseconds::sec_factor<double>())};
-    m_epoch.add_seconds(off_nsec);
+    // nothing to do if the offset is missing
+    if (m_clock_offset != RECEIVER_CLOCK_OFFSET_MISSING)
+      m_epoch.add_seconds(rinex_details::sec2nsec(m_clock_offset));
   }
 }; // RinexDataRecordHeader
 
@@ -332,9 +332,7 @@ public:
   dso::nanoseconds l21_date_offset() const noexcept {
     // note that the value extracted from the RINEX file is in microsecond
     // transform it to nanoseconds (integer)
-    const double offset_nanoseconds = m_l12_date_offset * 1e3;
-    return dso::nanoseconds(
-        static_cast<dso::nanoseconds::underlying_type>(offset_nanoseconds));
+    return rinex_details::sec2nsec(m_l12_date_offset * 1e-6);
   }
 
 #ifdef DEBUG
@@ -422,9 +420,7 @@ struct RinexDataBlockIterator {
           static_cast<double>(cheader.m_clock_offset !=
                               RECEIVER_CLOCK_OFFSET_MISSING) *
           cheader.m_clock_offset;
-      dso::nanoseconds noff(
-          static_cast<dso::nanoseconds::underlying_type>(clock_offset * 1e9));
-      t.add_seconds(noff);
+      t.add_seconds(rinex_details::sec2nsec(clock_offset));
     }
     return t;
   }
diff --git a/src/rinex/rnx_datablock_iterator.cpp b/src/rinex/rnx_datablock_iterator.cpp
index 7ad1511..3abd71e 100644
--- a/src/rinex/rnx_datablock_iterator.cpp
+++ b/src/rinex/rnx_datablock_iterator.cpp
@@ -37,9 +37,8 @@ dso::datetime<dso::nanoseconds> dso::RinexDataBlockIterator::corrected_l1_epoch(
   dso::datetime<dso::nanoseconds> t = cheader.m_epoch;
   if (!rnx->receiver_clock_offsets_applied()) [[likely]] {
     // clock offset in nanoseconds (from seconds)
-    dso::nanoseconds noff(static_cast<dso::nanoseconds::underlying_type>(
-        cheader.m_clock_offset * 1e9));
-    t.add_seconds(noff);
+    if (cheader.m_clock_offset != RECEIVER_CLOCK_OFFSET_MISSING)
+      t.add_seconds(rinex_details::sec2nsec(cheader.m_clock_offset));
   }
 
   // get the L1/L2 offset in nanoseconds
-- 
2.43.0


From d62879597f34409eb98e20c5efc72ad9f28c2bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 24/53] fix: relative frequency offset fits use only recorded F
 values, proper averages and report what cannot be fitted

---
 src/doris/fit_rfo.cpp |  69 +++++++++++-----
 src/rinex/fit_rfo.cpp | 179 ++++++++++++++++++------------------------
 2 files changed, 126 insertions(+), 122 deletions(-)

diff --git a/src/doris/fit_rfo.cpp b/src/doris/fit_rfo.cpp
index 58be2b4..598da86 100644
--- a/src/doris/fit_rfo.cpp
+++ b/src/doris/fit_rfo.cpp
@@ -84,8 +84,20 @@ struct LinearKalman {
   dso::datetime<dso::nanoseconds> tref;
 };
 
+/// @brief First F value recorded in a block, i.e. skip beacons for which it is
+///        missing
+/// @return The (relative frequency offset) value, or OBSERVATION_VALUE_MISSING
+///        if there is none in the block
+double block_rfo(const std::vector<dso::BeaconObservations> &obsvec,
+                 int findex) noexcept {
+  for (const auto &bobs : obsvec)
+    if (bobs.m_values[findex].m_value != dso::OBSERVATION_VALUE_MISSING)
+      return bobs.m_values[findex].m_value;
+  return dso::OBSERVATION_VALUE_MISSING;
+}
+
 int get_starting_rfo(const char *rnx_fn, double &rfo,
-                     dso::datetime<dso::nanoseconds> &reft) noexcept {
+                     dso::datetime<dso::nanoseconds> &reft) {
   using namespace dso;
 
   DorisObsRinex rnx(rnx_fn); // may throw ....
@@ -108,26 +120,34 @@ int get_starting_rfo(const char *rnx_fn, double &rfo,
   }
   int findex = std::distance(obs_list.begin(), fit);
 
-  rnx.stream().getline(line, DorisObsRinex::MAX_RECORD_CHARS);
-  // resolve the data-block header
-  if (int status = rnx.resolve_data_epoch(line, hdr); status) {
-    fprintf(stderr,
-            "[ERROR] Failed to resolve data block header! error=%d "
-            "(traceback: %s)\n",
-            status, __func__);
-    return 1;
-  }
+  // read blocks, up to the first one that holds an F value
+  do {
+    if (!rnx.stream().getline(line, DorisObsRinex::MAX_RECORD_CHARS)) {
+      fprintf(stderr,
+              "[ERROR] Failed to find an F value in RINEX %s (traceback: %s)\n",
+              rnx_fn, __func__);
+      return 1;
+    }
+    // resolve the data-block header
+    if (int status = rnx.resolve_data_epoch(line, hdr); status) {
+      fprintf(stderr,
+              "[ERROR] Failed to resolve data block header! error=%d "
+              "(traceback: %s)\n",
+              status, __func__);
+      return 1;
+    }
 
-  // get the measurements
-  if (int status = rnx.read_data_block(hdr, obsvec); status) {
-    fprintf(stderr,
-            "[ERROR] Failed to resolve data block! error=%d (traceback: %s)\n",
-            status, __func__);
-    return 1;
-  }
+    // get the measurements
+    if (int status = rnx.read_data_block(hdr, obsvec); status) {
+      fprintf(stderr,
+              "[ERROR] Failed to resolve data block! error=%d (traceback: %s)\n",
+              status, __func__);
+      return 1;
+    }
 
-  // for a single block, all F measurements/values should be the same!
-  rfo = obsvec[0].m_values[findex].m_value;
+    // for a single block, all F measurements/values should be the same!
+    rfo = block_rfo(obsvec, findex);
+  } while (rfo == OBSERVATION_VALUE_MISSING);
 
   // get & assign the header time
   reft = hdr.m_epoch;
@@ -185,9 +205,12 @@ int get_rinex_rfo(const char *rnx_fn, long &rfo_collected,
     }
 
     // for a single block, all F measurements/values should be the same!
-    rfo = obsvec[0].m_values[findex].m_value;
+    rfo = block_rfo(obsvec, findex);
+    if (rfo == OBSERVATION_VALUE_MISSING)
+      continue;
     for (const auto &bobs : obsvec) {
-      if (bobs.m_values[findex].m_value != rfo) {
+      if (bobs.m_values[findex].m_value != rfo &&
+          bobs.m_values[findex].m_value != OBSERVATION_VALUE_MISSING) {
         fprintf(stderr,
                 "[ERROR] F value differs within the same data block! "
                 "(traceback: %s)\n",
@@ -225,6 +248,10 @@ int dso::fit_relative_frequency_offset(char **rinex_fns, int num_rinex,
   // first RINEX file; also get reference time for kalman
   dso::datetime<dso::nanoseconds> reft;
   double rfo_0 = 0e0;
+  if (num_rinex < 1) {
+    fprintf(stderr, "[ERROR] No RINEX given to collect F values from (traceback: %s)\n", __func__);
+    return 1;
+  }
   try {
     if (get_starting_rfo(rinex_fns[0], rfo_0, reft)) {
       fprintf(stderr,
diff --git a/src/rinex/fit_rfo.cpp b/src/rinex/fit_rfo.cpp
index 7879a49..72cd5c2 100644
--- a/src/rinex/fit_rfo.cpp
+++ b/src/rinex/fit_rfo.cpp
@@ -13,16 +13,12 @@ int parse_rinex_rfos(const char *fnrnx,
     int every,
     Datetime &tref,
     const dso::PolynomialModel<Datetime> &fit,
-    Eigen::VectorXd &b,
-    Eigen::MatrixXd &A,
-    unsigned &idx,
+    std::vector<double> &dts,
+    std::vector<double> &rfos,
     const Datetime &start,
-    const Datetime &end) noexcept {
+    const Datetime &end) {
 
-  // polynomial order
-  const int poly_order = fit.order();
-  
-  // Construct the instance
+  // Construct the instance (may throw)
   dso::DorisObsRinex rnx(fnrnx);
 
   // Set reference date (if not set)
@@ -33,14 +29,28 @@ int parse_rinex_rfos(const char *fnrnx,
   const int f_idx = rnx.get_observation_code_index(
       dso::ObservationCode{dso::ObservationType::frequency_offset});
 
+  if (f_idx < 0) {
+    fprintf(stderr,
+            "[ERROR] No \'F\' observable in RINEX %s (traceback: %s)\n", fnrnx,
+            __func__);
+    return 1;
+  }
+
   // get an iterator to the RINEXs data blocks
   dso::RinexDataBlockIterator it(&rnx);
 
-  // buffer for F values
-  std::vector<double> fs(every,0e0);
+  // sums of F values and of the respective epochs (seconds from tref)
+  double fsum = 0e0, dtsum = 0e0;
+  int error, cval = 0;
+
+  // average whatever is in the sums to a new data point
+  auto add_point = [&]() {
+    rfos.push_back(fsum / cval);
+    dts.push_back(dtsum / cval);
+    fsum = dtsum = 0e0;
+    cval = 0;
+  };
 
-  int error, cval=0;
-  dso::datetime<dso::nanoseconds> t0, tend;
   // for every new data block in the RINEX file (aka every epoch) ...
   while (!(error = it.next())) {
     // the current reference time for the L1 observation (corrected for
@@ -52,41 +62,23 @@ int parse_rinex_rfos(const char *fnrnx,
       // current proper time (aka tau)
       const auto tproper = it.proper_time();
 
-      // get the first observation set; note that all observations in block
-      // should have the same F value
-      auto beaconobs = it.cblock.begin();
-
-      // temporarily store value at buffer
-      fs[cval % every] = beaconobs->m_values[f_idx].m_value;
-
-      // store current date
-      tend = (use_tai) ? tl1 : tproper;
-      
-      // check if we reached every values
-      if (!((cval + 1) % every)) {
-        // we did, compute data points and add to matrices
-        b(idx) = std::reduce(fs.begin(), fs.end(), 0e0) / every;
-
-        // midpoint in time, between t0 and tend
-        const auto dsec = tend.delta_sec(t0);
-        const dso::nanoseconds half =
-            dso::nanoseconds(std::lround(dsec.as_underlying_type() / 2));
-        dso::datetime<dso::nanoseconds> t = t0;
-        t.add_seconds(half);
-
-        // difference in time (aka from tref)
-        A(idx, 0) = 1e0;
-        const double dt = fit.deltax(t,tref);// t.delta_date(tref).as_mjd();
-        A(idx, 1) = dt;
-        for (int i = 1; i < poly_order; i++)
-          A(idx, i+1) = A(idx, i) * dt;
-        // increase matrix index
-        ++idx;
-      } else if (!(cval % every)) {
-        t0 = tend;
+      // get the first observation set with an F value; note that all
+      // observations in block should have the same F value. If there is none,
+      // skip the block
+      const auto beaconobs = std::find_if(
+          it.cblock.begin(), it.cblock.end(),
+          [f_idx](const dso::BeaconObservations &obs) {
+            return obs.m_values[f_idx].m_value != dso::OBSERVATION_VALUE_MISSING;
+          });
+
+      if (beaconobs != it.cblock.end()) {
+        fsum += beaconobs->m_values[f_idx].m_value;
+        dtsum += fit.deltax(use_tai ? tl1 : tproper, tref);
+
+        // check if we reached every values
+        if (++cval == every)
+          add_point();
       }
-
-      ++cval;
     } // current block within date range
     else if (tl1 >= end) {
       break;
@@ -102,28 +94,9 @@ int parse_rinex_rfos(const char *fnrnx,
     return 1;
   }
 
-  --cval;
-  // add any reamaining data in the buffer
-  if ((cval % every) != every - 1) {
-    const int j = cval % every;
-    b(idx) = std::reduce(fs.begin(), fs.end()+j, 0e0) / j;
-    
-    const auto dsec = tend.delta_sec(t0);
-    const dso::nanoseconds half =
-        dso::nanoseconds(std::lround(dsec.as_underlying_type() / 2));
-    dso::datetime<dso::nanoseconds> t = t0;
-    t.add_seconds(half);
-    
-    // difference in time (aka from tref)
-    A(idx,0) = 1e0;
-    const double dt = t.delta_date(tref).as_mjd();
-    A(idx,1) = dt;
-    for (int i = 1; i < poly_order; i++)
-      A(idx, i + 1) = A(idx, i) * dt;
-
-    // increase matrix index
-    ++idx;
-  }
+  // add any reamaining data
+  if (cval)
+    add_point();
 
   return 0;
 }
@@ -138,41 +111,29 @@ int dso::fit_relative_frequency_offset(
 {
   assert(fit.order() >= 1);
 
-  // Initial guess for the number of RFO values to be read for every RINEX
-  // RINEX are (most probably) daily, hence they span 86400 seconds. For every
-  // 10sec we have two F values, hence we will have a total of: 8640 * 2 = 
-  constexpr const int num_vals_daily = 8640 * 2;
-
-  // we will be taking one F value every N, hence we are going to have a total 
-  // of 8640 * 2 / every F data points per day (aka per RINEX)
-  const int NDay = std::ceil(num_vals_daily / every);
-
-  // how many days do we want to use data from? If start and end are not set, 
-  // then just count the number of RINEX files
-  float num_days = fns.size();
-  if (start != dso::datetime<dso::nanoseconds>::min() &&
-      end != dso::datetime<dso::nanoseconds>::max()) {
-    num_days = end.as_mjd() - start.as_mjd();
+  if (every < 1) {
+    fprintf(stderr,
+            "[ERROR] Cannot average RFO values every %d blocks (traceback: %s)\n",
+            every, __func__);
+    return 1;
   }
 
-  // So, this is our educated guess about the number of points we will be 
-  // using, for the whole time-span
-  long num_pts = NDay * num_days + 10 /* just to be sure ... */;
-
   // how many columns in design matrix ?
   const int M = fit.order() + 1;
 
-  // allocate matrices (A,b)
-  Eigen::VectorXd b(num_pts);
-  Eigen::MatrixXd A(num_pts, M);
-
-  // read through all RINEX's in list, and parse data to the b and A matrices.
-  // The reference date will be set from the first RINEX
-  unsigned index = 0;
+  // read through all RINEX's in list, and collect data points. The reference
+  // date will be set from the first RINEX
+  std::vector<double> dts, rfos;
   dso::datetime<dso::nanoseconds> tref = dso::datetime<dso::nanoseconds>::min();
   for (const auto sptr : fns) {
-    if (parse_rinex_rfos(sptr, use_tai, every, tref, fit, b, A, index,
-                         start, end)) {
+    int error = 1;
+    try {
+      error =
+          parse_rinex_rfos(sptr, use_tai, every, tref, fit, dts, rfos, start, end);
+    } catch (std::exception &e) {
+      fprintf(stderr, "[ERROR] %s (traceback: %s)\n", e.what(), __func__);
+    }
+    if (error) {
       fprintf(stderr,
               "[ERROR] Failed fitting Receiver Frequency Offset values! failed "
               "at RINEX file %s (traceback: %s)\n",
@@ -181,15 +142,31 @@ int dso::fit_relative_frequency_offset(
     }
   }
 
-  // OK! all RINEX files parsed. We now need to resize the matrices, given
-  // their true sizes
-  b.conservativeResize(index, Eigen::NoChange);
-  A.conservativeResize(index, Eigen::NoChange);
+  // OK! all RINEX files parsed. We need at least as many data points as there
+  // are coefficients
+  const int num_pts = dts.size();
+  if (num_pts < M) {
+    fprintf(stderr,
+            "[ERROR] Only %d data points to fit %d coefficients of Receiver "
+            "Frequency Offset (traceback: %s)\n",
+            num_pts, M, __func__);
+    return 1;
+  }
+
+  // fill in matrices (A,b)
+  Eigen::VectorXd b(num_pts);
+  Eigen::MatrixXd A(num_pts, M);
+  for (int k = 0; k < num_pts; k++) {
+    b(k) = rfos[k];
+    A(k, 0) = 1e0;
+    for (int i = 1; i < M; i++)
+      A(k, i) = A(k, i - 1) * dts[k];
+  }
 
   printf("Solving LS with b=%ldx%ld and A=%ldx%ld\n", b.rows(), b.cols(), A.rows(), A.cols());
 
   // Solve the LS problem
-  const auto y = (A.transpose() * A).ldlt().solve(A.transpose() * b);
+  const Eigen::VectorXd y = (A.transpose() * A).ldlt().solve(A.transpose() * b);
 
   // assign to the (returned) model
   fit.xref = tref;
-- 
2.43.0


From f00cedc80166d482d49424904fdecfdc3be8aa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 25/53] fix: Doppler counts: compare 3-char ids, find L1/L2 by
 code, skip missing values

---
 src/doris/extract_doppler_count.cpp | 48 ++++++++++++++++-------------
 1 file changed, 26 insertions(+), 22 deletions(-)

diff --git a/src/doris/extract_doppler_count.cpp b/src/doris/extract_doppler_count.cpp
index 598f730..695352e 100644
--- a/src/doris/extract_doppler_count.cpp
+++ b/src/doris/extract_doppler_count.cpp
@@ -13,7 +13,7 @@ struct BeaconObservationData {
 };
 
 int compute_ndop(const std::vector<dso::BeaconObservations> &obsvec,
-    const dso::datetime<dso::nanoseconds> &t,
+    const dso::datetime<dso::nanoseconds> &t, int l1_idx, int l2_idx,
     std::vector<BeaconObservationData> &data) noexcept {
   const char *newid = nullptr;
   for (const auto &newobs : obsvec) {
@@ -21,16 +21,22 @@ int compute_ndop(const std::vector<dso::BeaconObservations> &obsvec,
 
     auto it = std::find_if(data.begin(), data.end(),
                            [&](const BeaconObservationData &bod) noexcept {
-                             return !std::strcmp(bod.obs.m_beacon_id, newid);
+                             return !std::strncmp(bod.obs.m_beacon_id, newid, 3);
                            });
     if (it != data.end()) {
-      double dl1 = newobs.m_values[0].m_value - it->obs.m_values[0].m_value;
-      double dl2 = newobs.m_values[1].m_value - it->obs.m_values[1].m_value;
+      // no difference can be computed if any of the values is missing
+      if (newobs.m_values[l1_idx].m_value == dso::OBSERVATION_VALUE_MISSING ||
+          newobs.m_values[l2_idx].m_value == dso::OBSERVATION_VALUE_MISSING ||
+          it->obs.m_values[l1_idx].m_value == dso::OBSERVATION_VALUE_MISSING ||
+          it->obs.m_values[l2_idx].m_value == dso::OBSERVATION_VALUE_MISSING)
+        continue;
+      double dl1 = newobs.m_values[l1_idx].m_value - it->obs.m_values[l1_idx].m_value;
+      double dl2 = newobs.m_values[l2_idx].m_value - it->obs.m_values[l2_idx].m_value;
       auto tdsec = t.delta_sec(it->t);
       double dsec = static_cast<double>(tdsec.as_underlying_type()) /
                     dso::nanoseconds::sec_factor<double>();
 
-      printf("%s %.5f %.5f %.5f %.7f\n", newid, t.as_mjd(), dl1, dl2, dsec);
+      printf("%.3s %.5f %.5f %.5f %.7f\n", newid, t.as_mjd(), dl1, dl2, dsec);
     }
   }
 
@@ -47,7 +53,7 @@ int update(const std::vector<dso::BeaconObservations> &obsvec,
     newid = newobs.m_beacon_id;
     auto it = std::find_if(data.begin(), data.end(),
                            [&](const BeaconObservationData &bod) noexcept {
-                             return !std::strcmp(bod.obs.m_beacon_id, newid);
+                             return !std::strncmp(bod.obs.m_beacon_id, newid, 3);
                            });
     // if not, append
     if (it == data.end()) {
@@ -66,27 +72,25 @@ int dso::DorisObsRinex::get_doppler_counts() noexcept {
 
   long parsed_blocks = 0;
 
-  /* find indexes of L1 and L2 in this RINEX's observation codes vector
-  auto l1_ptr = std::find_if(m_obs_codes.cbegin(), m_obs_codes.cend(),
-  ObservationType{ObservationType::phase, 1}); if (l1_ptr == m_obs_codes.cend())
-  { fprintf(stderr, "[ERROR] Failed to find ObservationType L1 in RINEX\'s
-  observation types vector! (traceback: %s)\n", __func__); return 1;
-  }
-  auto l2_ptr = std::find_if(m_obs_codes.cbegin(), m_obs_codes.cend(),
-  ObservationType{ObservationType::phase, 2}); if (l2_ptr == m_obs_codes.cend())
-  { fprintf(stderr, "[ERROR] Failed to find ObservationType L2 in RINEX\'s
-  observation types vector! (traceback: %s)\n", __func__); return 1;
+  // find indexes of L1 and L2 in this RINEX's observation codes vector
+  const int l1_idx =
+      get_observation_code_index(ObservationCode{ObservationType::phase, 1});
+  const int l2_idx =
+      get_observation_code_index(ObservationCode{ObservationType::phase, 2});
+  if (l1_idx < 0 || l2_idx < 0) {
+    fprintf(stderr,
+            "[ERROR] Failed to find ObservationType L1 and/or L2 in RINEX\'s "
+            "observation types vector! (traceback: %s)\n",
+            __func__);
+    return 1;
   }
 
-  // index of L1 and L2 in the m_obs_codes vector
-  int l1_idx = std::distance(m_obs_codes.cbegin(), l1_ptr);
-  int l2_idx = std::distance(m_obs_codes.cbegin(), l2_ptr);
-  */
-
   // vector of beacon observations; last observation extracted for each beacon
   std::vector<BeaconObservationData> latest_data;
   latest_data.reserve(m_stations.size());
 
+  // (re)start from the first data block, even if the stream has reached EOF
+  m_stream.clear();
   m_stream.seekg(m_end_of_head);
   char line[MAX_RECORD_CHARS];
   RinexDataRecordHeader hdr;
@@ -135,7 +139,7 @@ int dso::DorisObsRinex::get_doppler_counts() noexcept {
 
     // compute Doppler counts for each beacon (if a previous observation is
     // preseent)
-    if (compute_ndop(obsvec, hdr.m_epoch, latest_data)) {
+    if (compute_ndop(obsvec, hdr.m_epoch, l1_idx, l2_idx, latest_data)) {
       fprintf(stderr, "[ERROR] Failed computing ndop (traceback: %s)\n",
               __func__);
       return 5;
-- 
2.43.0


From 786a479c1db2dc1e6eb6fd9abe982f249ef95290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 26/53] fix: Jason-3 quaternions: fill the whole buffer, keep
 it on failure, refuse epochs before it and malformed records

---
 src/satellites/jason3_quaternions.cpp | 130 +++++++++++---------------
 src/satellites/jason3_quaternions.hpp |   6 +-
 2 files changed, 58 insertions(+), 78 deletions(-)

diff --git a/src/satellites/jason3_quaternions.cpp b/src/satellites/jason3_quaternions.cpp
index a4565c9..9617b3d 100644
--- a/src/satellites/jason3_quaternions.cpp
+++ b/src/satellites/jason3_quaternions.cpp
@@ -1,6 +1,8 @@
 #include "datetime/utcdates.hpp"
 #include "jason3_quaternions.hpp"
 #include <charconv>
+#include <cassert>
+#include <cstring>
 #include <cstdio>
 #include <datetime/dtfund.hpp>
 #include <exception>
@@ -25,34 +27,39 @@ int resolve_jason3_body_quaternion_line(
     return 1;
   }
 
-  const char *last = line + 255;
+  const char *last = line + std::strlen(line);
   int error = 0;
   double qdata[4]; // temporary quaternion buffer
 
-  // skip field UI1 and tab character
-  const char *c = line+23+1;
+  const char *c = line;
+  // skip a field of n chars, followed by a tab
+  auto skip = [&](int n) {
+    if (last - c <= n || c[n] != '\t')
+      return 1;
+    c += n + 1;
+    return 0;
+  };
+
+  // parse a component, followed by a tab; nothing past the end of line is read
+  auto parse = [&](double &val) {
+    if (c >= last)
+      return 1;
+    auto pec = std::from_chars(c, last, val);
+    c = pec.ptr;
+    return (*c++ != '\t' || pec.ec != std::errc{}) ? 1 : 0;
+  };
 
-  // UI1 -- 10 chars, unused value
-  c += 10 + 1;
+  // skip date and field UI1 -- 10 chars, unused value
+  error = skip(23) || skip(10);
 
   // parse scalar part of quaternion
-  auto pec = std::from_chars(c, last, qdata[0]);
-  c = pec.ptr;
-  if (*c++ != '\t' || pec.ec != std::errc{}) {
-    ++error;
-  }
+  if (!error)
+    error = parse(qdata[0]);
 
   // parse vector part of quaternion
-  for (int i = 0; i < 3; i++ && !error) {
-    // UI2 -- 4 chars, unused value
-    c += 4 + 1;
-    // UI3 -- 10 chars, unused value
-    c += 10 + 1;
-    pec = std::from_chars(c, last, qdata[i + 1]);
-    c = pec.ptr;
-    if (*c++ != '\t' || pec.ec != std::errc{}) {
-      ++error;
-    }
+  for (int i = 0; i < 3 && !error; i++) {
+    // UI2 -- 4 chars, and UI3 -- 10 chars, unused values
+    error = skip(4) || skip(10) || parse(qdata[i + 1]);
   }
 
   // check for errors
@@ -80,8 +87,8 @@ int resolve_jason3_body_quaternion_line(
 
 dso::JasonQuaternionHunter::JasonQuaternionHunter(const char *body_fn)
     : bodyin(body_fn) {
-  // read-in the first two quaternions
-  if (bodyin.get_next(bodyq, 2)) {
+  // fill in the buffer with the first quaternions
+  if (bodyin.get_next(bodyq, NumQuaternionsInBuffer)) {
     throw std::runtime_error(
         "ERROR JasonQuaternionHunter failed to caonstruct\n");
   }
@@ -116,7 +123,7 @@ int dso::JasonBodyQuaternionFile::get_next(dso::JasonBodyQuaternion *records,
       fin.getline(line, LINE_SZ);
     
     if (resolve_jason3_body_quaternion_line(line, records[i]))
-      return i*10;
+      return 1;
   }
 
   return 0;
@@ -126,70 +133,39 @@ int dso::JasonQuaternionHunter::set_at(double tai_mjd, int &index) noexcept {
   // first, check if we are ok, i.e. the time requested is within the buffered
   // interval
   index = this->find_interval(tai_mjd);
-  assert(index >= 0);
+  if (index < 0) {
+    fprintf(stderr,
+            "ERROR Requested quaternion for an epoch prior to current "
+            "interval, t=%.15f\n",
+            tai_mjd);
+    fprintf(stderr, "      Current interval spans: %.15f to %.15f\n",
+            bodyq[0].tai_mjd, bodyq[NumQuaternionsInBuffer - 1].tai_mjd);
+    return 1;
+  }
   if (index < NumQuaternionsInBuffer) {
     return 0;
   }
 
-  // get next quaternion, hopefully we are ok now ...
+  // keep on reading records untill the ones in the buffer enclose the epoch; if a record cannot be read, the buffer is left as is
   dso::JasonBodyQuaternion tmp;
-  if (bodyin.get_next(tmp)) {
-    fprintf(
-        stderr,
-        "[ERROR] Failed to get quaternion for requested date (traceback: %s)\n",
-        __func__);
-    return 1;
-  }
-
-  // new quternion temporarilly stored in tmp
-#ifdef DEBUG
-  assert(tmp.tai_mjd > bodyq[NumQuaternionsInBuffer - 1].tai_mjd);
-#endif
-
-  // check if we are ok with this pair ...
-  if (tai_mjd >= bodyq[NumQuaternionsInBuffer - 1].tai_mjd &&
-      tai_mjd < tmp.tai_mjd) {
-    //  left shift quaternions and add the new in the last index
-    left_shift();
-    bodyq[NumQuaternionsInBuffer - 1] = tmp;
-    index = NumQuaternionsInBuffer - 2;
-
-    return 0;
-  } else {
-    if (tai_mjd < bodyq[0].tai_mjd) {
+  do {
+    if (bodyin.get_next(tmp)) {
       fprintf(stderr,
-              "ERROR Requested quaternion for an epoch prior to current "
-              "interval, t=%.15f\n",
-              tai_mjd);
-      fprintf(stderr, "      Current interval spans: %.15f to %.15f\n",
-              bodyq[0].tai_mjd, bodyq[1].tai_mjd);
+              "[ERROR] Failed to get quaternion for requested date, t=%.15f. "
+              "Last found was for %.15f (traceback: %s)\n",
+              tai_mjd, bodyq[NumQuaternionsInBuffer - 1].tai_mjd, __func__);
       return 1;
     }
-    // else, find a suitable interval ....
-    int error = 0;
+#ifdef DEBUG
+    assert(tmp.tai_mjd > bodyq[NumQuaternionsInBuffer - 1].tai_mjd);
+#endif
+    //  left shift quaternions and add the new in the last index
     left_shift();
     bodyq[NumQuaternionsInBuffer - 1] = tmp;
+    index = this->find_interval(tai_mjd);
+  } while (index >= NumQuaternionsInBuffer);
 
-    do {
-      error = bodyin.get_next(tmp);
-      left_shift();
-      bodyq[NumQuaternionsInBuffer - 1] = tmp;
-      // bodyq[0] = tmp;
-      // bodyq[1] = tmp2;
-      // tmp = tmp2;
-    } while (!error && !(tai_mjd >= bodyq[NumQuaternionsInBuffer - 2].tai_mjd &&
-                         tai_mjd < bodyq[NumQuaternionsInBuffer - 1].tai_mjd));
-#ifdef DEBUG
-if (error) {
-      fprintf(stderr,
-              "[ERROR] Failed hunting quaternion for epoch: %.15f. Last found "
-              "was for %.15f. error=%d (traceback: %s)\n",
-              tai_mjd, bodyq[NumQuaternionsInBuffer - 1].tai_mjd, error,
-              __func__);
-    }
-  #endif
-    return (error) ? (error) : ((index=NumQuaternionsInBuffer - 2)==-1);
-  }
+  return index < 0;
 }
 
 int dso::JasonQuaternionHunter::get_at(double tai_mjd,
@@ -200,7 +176,7 @@ int dso::JasonQuaternionHunter::get_at(double tai_mjd,
 
 #ifdef DEBUG
   assert(index>=0 && index < NumQuaternionsInBuffer-1);
-  assert(tai_mjd >= bodyq[index].tai_mjd && tai_mjd < bodyq[index+1].tai_mjd);
+  assert(tai_mjd >= bodyq[index].tai_mjd && tai_mjd <= bodyq[index+1].tai_mjd);
 #endif
 
   const int i0 = index;
diff --git a/src/satellites/jason3_quaternions.hpp b/src/satellites/jason3_quaternions.hpp
index a30fb82..6e6e986 100644
--- a/src/satellites/jason3_quaternions.hpp
+++ b/src/satellites/jason3_quaternions.hpp
@@ -2,6 +2,7 @@
 #define __DSO_JASON3_QUATERNION_ROT_HPP__
 
 #include "jason3.hpp"
+#include <cstring>
 #include <fstream>
 #include <stdexcept>
 #include "eigen3/Eigen/Geometry"
@@ -87,8 +88,11 @@ struct JasonQuaternionHunter {
     // tai_mjd is out of bounds, prior to first record in buffer
     if (tai_mjd < bodyq[0].tai_mjd)
       return -1;
+    // exactly at the last record in buffer
+    if (tai_mjd == bodyq[NumQuaternionsInBuffer - 1].tai_mjd)
+      return NumQuaternionsInBuffer - 2;
     // tai_mjd is out of bounds, after the last record in buffer
-    if (tai_mjd >= bodyq[NumQuaternionsInBuffer - 1].tai_mjd)
+    if (tai_mjd > bodyq[NumQuaternionsInBuffer - 1].tai_mjd)
       return NumQuaternionsInBuffer + 1;
     // we should never reach this point
     return -100;
-- 
2.43.0


From 71fa7f63ec33c5e0b98848275c6e090168699b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:47 +0000
Subject: [PATCH 27/53] fix: satellite mass history: compare date before time
 of day, parse every column, refuse malformed lines

---
 src/satellites/satellite_corrections.cpp | 49 +++++++++++++-----------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/src/satellites/satellite_corrections.cpp b/src/satellites/satellite_corrections.cpp
index e602c04..b004fb3 100644
--- a/src/satellites/satellite_corrections.cpp
+++ b/src/satellites/satellite_corrections.cpp
@@ -1,6 +1,8 @@
 #include "satellites.hpp"
+#include <cctype>
 #include <charconv>
 #include <cstdio>
+#include <cstring>
 #include <fstream>
 
 int dso::get_satellite_corrections(const char *j3mass,
@@ -27,41 +29,42 @@ int dso::get_satellite_corrections(const char *j3mass,
     // check for comment lines ...
     if (line[0] != 'C' && line[0] != '/') {
       const char *c = line;
-      char *last = line + 255;
+      const char *last = line + std::strlen(line);
 
-      // remove whitespace chars
-      while (*c++ == ' '); 
+      // parse next number, skipping leading whitespace; it must be followed by
+      // whitespace or the end of line
+      auto next_double = [&](double &val) {
+        while (*c == ' ')
+          ++c;
+        auto pec = std::from_chars(c, last, val);
+        c = pec.ptr;
+        return (pec.ec != std::errc{} ||
+                (c != last && !std::isspace(static_cast<unsigned char>(*c))))
+                   ? 1
+                   : 0;
+      };
 
       // first resolve datetime from Julian date
       double cjd, csec;
-      auto pec = std::from_chars(c, last, cjd);
-      c = pec.ptr;
-      if (*c++ != ' ' || pec.ec != std::errc{}) {
-        ++error;
-      }
-      while (*c++ == ' ');
-      pec = std::from_chars(c, last, csec);
-      c = pec.ptr;
-      if (*c++ != ' ' || pec.ec != std::errc{}) {
-        ++error;
-      }
+      error += next_double(cjd);
+      error += next_double(csec);
 
       // reached a date later than the requested, end here
-      if (error || (cjd >= jd && csec >= sec))
+      if (error || cjd > jd || (cjd == jd && csec > sec))
         break;
 
       // prior date, update corrections
-      for (int i = 0; i < 4; i++) {
-        while (*c++ == ' ');
-        pec = std::from_chars(c, last, dmdxyz[i]);
-        c = pec.ptr + 1;
-        if (/**c++ != ' ' || */pec.ec != std::errc{}) {
-          ++error;
-        }
-      }
+      for (int i = 0; i < 4; i++)
+        error += next_double(dmdxyz[i]);
+      if (error)
+        break;
     }
   }
 
+  // a line too long for the buffer, or an I/O error
+  if (!error && !fin.good() && !fin.eof())
+    ++error;
+
   if (error) {
     fprintf(stderr,
             "[ERROR] Failed resolving line: \"%s\" in satellite ninformation file: "
-- 
2.43.0


From ea45397c2bb37e642ac936da6f00034caa62932c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 28/53] fix: site coordinates: missing sites when allowed,
 repeated or doubled sites, one solution per site, unterminated name

---
 src/ids/get_pdop_crd.cpp | 56 +++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/src/ids/get_pdop_crd.cpp b/src/ids/get_pdop_crd.cpp
index 06f9ad8..89f0ffb 100644
--- a/src/ids/get_pdop_crd.cpp
+++ b/src/ids/get_pdop_crd.cpp
@@ -8,20 +8,35 @@ int extrapolate_coordinates(
     const dso::datetime<dso::microseconds> &t, double *pos) noexcept {
 
   const char *components[] = {"STAX", "STAY", "STAZ"};
+
+  // a site may have more than one solutions; the first one collected is used,
+  // for all components (never mix values of different solutions)
+  const auto sol = std::find_if(
+      estimates.begin(), estimates.end(),
+      [&](const dso::sinex::SolutionEstimate &est) {
+        return !std::strncmp(est.m_site_code, siteid, 4) &&
+               !std::strncmp(est.m_param_type, components[0], 4);
+      });
+  auto of_solution = [&](const dso::sinex::SolutionEstimate &est) {
+    return sol != estimates.end() &&
+           !std::strncmp(est.m_site_code, sol->m_site_code, 4) &&
+           !std::strncmp(est.m_point_code, sol->m_point_code, 2) &&
+           !std::strncmp(est.m_soln_id, sol->m_soln_id, 4);
+  };
   for (int i = 0; i < 3; i++) {
     const char *sta = components[i];
-    char vel[4] = "VEL";
+    char vel[5] = "VEL";
     vel[3] = sta[3];
     auto pos_sx =
         std::find_if(estimates.begin(), estimates.end(),
                      [&](const dso::sinex::SolutionEstimate &est) {
-                       return !std::strncmp(est.m_site_code, siteid, 4) &&
+                       return of_solution(est) &&
                               !std::strncmp(est.m_param_type, sta, 4);
                      });
     auto pos_vx =
         std::find_if(estimates.begin(), estimates.end(),
                      [&](const dso::sinex::SolutionEstimate &est) {
-                       return !std::strncmp(est.m_site_code, siteid, 4) &&
+                       return of_solution(est) &&
                               !std::strncmp(est.m_param_type, vel, 4);
                      });
 
@@ -116,34 +131,37 @@ int dso::extrapolate_sinex_coordinates(
 
   // parse the block SITE/ID to collect info for the given sites
   int error = snx.parse_block_site_id(site_vec, num_stations, station_ids);
-  if (error || (int)site_vec.size() != num_stations) {
-    if (error) {
+  if (error) {
     fprintf(stderr,
             "[ERROR] Failed to collect info for given sites; SINEX file is %s "
             "(traceback: %s)\n",
             snx.filename().c_str(), __func__);
     return 1;
-    } else {
-      // report the missing station(s)
-      for (int i=0; i<num_stations; i++) {
-        const char *sid = station_ids[i];
-        const auto it = std::find_if(site_vec.begin(), site_vec.end(),
-                                     [&](const dso::sinex::SiteId& rid) {return !std::strncmp(sid, rid.m_site_code, 4);});
-        if (it == site_vec.end()) {
-          fprintf(stderr, "[WARNING] Failed to find station %.4s in SINEX file %s\n", sid, snx_fn);
-          missing_indexes.push_back(i);
-        }
-      }
-      if (missing_site_is_error) return 2;
+  }
+
+  // report the missing station(s)
+  for (int i = 0; i < num_stations; i++) {
+    const char *sid = station_ids[i];
+    const auto it = std::find_if(site_vec.begin(), site_vec.end(),
+                                 [&](const dso::sinex::SiteId &rid) {
+                                   return !std::strncmp(sid, rid.m_site_code, 4);
+                                 });
+    if (it == site_vec.end()) {
+      fprintf(stderr,
+              "[WARNING] Failed to find station %.4s in SINEX file %s\n", sid,
+              snx_fn);
+      missing_indexes.push_back(i);
     }
   }
+  if (missing_site_is_error && !missing_indexes.empty())
+    return 2;
 
   // first declare a vector of SolutionEstimate to hold results
   std::vector<dso::sinex::SolutionEstimate> est_vec;
 
   // get the solution estimates for the sites
   error = snx.parse_block_solution_estimate(est_vec, site_vec);
-  if (error || (int)est_vec.size() < num_stations * 6) {
+  if (error) {
     fprintf(stderr,
             "[ERROR] Failed to collect estimates for given sites; SINEX file "
             "is %s "
@@ -169,6 +187,8 @@ int dso::extrapolate_sinex_coordinates(
                 "[ERROR] Failed to extrapolate coordinates for site %s from "
                 "SINEX %s (traceback: %s)\n",
                 sid, snx.filename().c_str(), __func__);
+        if (missing_site_is_error)
+          return 2;
       } else {
         std::memcpy(result_array[result_size].id, sid, 4 * sizeof(char));
         result_array[result_size].x = pos[0];
-- 
2.43.0


From 5fe02b6738224b64d7feb6ed7d462ad577c2af9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:56 +0000
Subject: [PATCH 29/53] fix: element conversions: swapped node and perigee,
 wrong perifocal rotation, NaN angles, anomaly scale and ranges, right
 ascension

---
 src/astrodynamics/perifocal.cpp    |   4 +-
 src/astrodynamics/pos2ra.cpp       |  22 +---
 src/astrodynamics/state2kepler.cpp | 171 +++++++++++------------------
 3 files changed, 73 insertions(+), 124 deletions(-)

diff --git a/src/astrodynamics/perifocal.cpp b/src/astrodynamics/perifocal.cpp
index 76a89f5..2710d1f 100644
--- a/src/astrodynamics/perifocal.cpp
+++ b/src/astrodynamics/perifocal.cpp
@@ -19,8 +19,8 @@ dso::Mat3x3 dso::perifocal2equatorial_matrix(double Omega, double omega,
   const double m10 = sO * co + cO * so * ci;
   const double m11 = -sO * so + cO * co * ci;
   const double m12 = -cO * si;
-  const double m20 = sO * si;
-  const double m21 = cO * si;
+  const double m20 = so * si;
+  const double m21 = co * si;
   const double m22 = ci;
 
   return dso::Mat3x3({m00, m01, m02, m10, m11, m12, m20, m21, m22});
diff --git a/src/astrodynamics/pos2ra.cpp b/src/astrodynamics/pos2ra.cpp
index 2a9bf8f..cb0f8d1 100644
--- a/src/astrodynamics/pos2ra.cpp
+++ b/src/astrodynamics/pos2ra.cpp
@@ -1,8 +1,5 @@
 #include "astrodynamics.hpp"
 #include <cmath>
-#ifdef ASSERT_ERROR
-#include <cassert>
-#endif
 
 int dso::pos2ad(const Vector3 &pos, double &a, double &d) noexcept {
   // calculate the magnitude of r
@@ -14,19 +11,12 @@ int dso::pos2ad(const Vector3 &pos, double &a, double &d) noexcept {
   const double n = pos.z() / r;
   
   // Calculate the declination
-#ifdef ASSERT_ERROR
-  assert(n>=-1e0 && n<=1e0);
-#endif
-  d = std::asin(n); // range [-pi/2 to pi/2]
-  
-  // Calculate the right ascension
-  const double af = std::acos(l / std::cos(d));
-#ifdef BRANCHLESS
-  const double ret[] = {iers2010::D2PI - af, af};
-  a = ret[m>0];
-#else
-  a = (m<=0) ? (iers2010::D2PI - af) : af;
-#endif
+  d = std::atan2(n, std::sqrt(l * l + m * m)); // range [-pi/2 to pi/2]
+
+  // Calculate the right ascension, range [0 to 2pi]
+  a = std::atan2(m, l);
+  if (a < 0e0)
+    a += iers2010::D2PI;
 
   return 0;
 }
diff --git a/src/astrodynamics/state2kepler.cpp b/src/astrodynamics/state2kepler.cpp
index e74fcd0..3595fdc 100644
--- a/src/astrodynamics/state2kepler.cpp
+++ b/src/astrodynamics/state2kepler.cpp
@@ -13,6 +13,41 @@
 
 using dso::Vector3;
 
+// Longitude of the ascending node and argument of latitude; h is the angular
+// momentum vector and H its norm. For equatorial orbits, where the node is
+// undefined, the node is placed on the x-axis.
+static void node_and_latitude_argument(const double *r, const double *h,
+                                       double H, double &Omega,
+                                       double &u) noexcept {
+  const bool equatorial = (h[0] == 0e0 && h[1] == 0e0);
+  Omega = equatorial ? 0e0
+                     : dso::norm_angle<double, dso::AngleUnit::Radians>(
+                           std::atan2(h[0], -h[1]));
+  u = equatorial ? std::atan2(h[2] < 0e0 ? -r[1] : r[1], r[0])
+                 : std::atan2(r[2] * H, -r[0] * h[1] + r[1] * h[0]);
+}
+
+// Inclination, node, argument of perigee and true anomaly (i.e. elements 1, 2,
+// 4 and 5 of the array) off from the angular momentum, eccentricity and
+// position vectors. For equatorial orbits the node is placed on the x-axis; for
+// circular orbits the perigee is placed on the node.
+static void kepler_angles(const Vector3 &h, const Vector3 &e, const Vector3 &r,
+                          double *keplerian) noexcept {
+  const double H = h.norm();
+  const bool equatorial = (h.x() == 0e0 && h.y() == 0e0);
+  const Vector3 n = equatorial ? Vector3({1e0, 0e0, 0e0})
+                               : Vector3({-h.y(), h.x(), 0e0});
+  const Vector3 p = (e.norm() > 0e0) ? e : n;
+  keplerian[1] =
+      std::atan2(std::sqrt(h.x() * h.x() + h.y() * h.y()), h.z());
+  keplerian[2] = dso::norm_angle<double, dso::AngleUnit::Radians>(
+      std::atan2(n.y(), n.x()));
+  keplerian[4] = dso::norm_angle<double, dso::AngleUnit::Radians>(std::atan2(
+      h.dot_product(n.cross_product(p)) / H, n.dot_product(p)));
+  keplerian[5] = dso::norm_angle<double, dso::AngleUnit::Radians>(std::atan2(
+      h.dot_product(p.cross_product(r)) / H, p.dot_product(r)));
+}
+
 int dso::elements2state(const dso::OrbitalElements &ele, double dt,
                         dso::Vector3 &r, dso::Vector3 &v, double GM) noexcept {
   // mean anomaly M at time t
@@ -79,17 +114,17 @@ Eigen::Matrix<double, 6, 1> dso::elements2state(double GM, double dt,
   const double Omega = ele.Omega();
   const double omega = ele.omega();
   const double i = ele.inclination();
-  Eigen::Matrix3d R(Eigen::AngleAxisd(-Omega, Eigen::Vector3d::UnitZ()) *
-                    Eigen::AngleAxisd(-i, Eigen::Vector3d::UnitX()) *
-                    Eigen::AngleAxisd(-omega, Eigen::Vector3d::UnitZ()));
+  const Eigen::Matrix3d R(Eigen::AngleAxisd(Omega, Eigen::Vector3d::UnitZ()) *
+                          Eigen::AngleAxisd(i, Eigen::Vector3d::UnitX()) *
+                          Eigen::AngleAxisd(omega, Eigen::Vector3d::UnitZ()));
   //printf("PQW = [%+20.10f %+20.10f %20.10f]\n", R(0,0),R(0,1),R(0,2));
   //printf("      [%+20.10f %+20.10f %20.10f]\n", R(1,0),R(1,1),R(1,2));
   //printf("      [%+20.10f %+20.10f %20.10f]\n", R(2,0),R(2,1),R(2,2));
   //printf("xAngle %+10.5f yAngle %+10.5f zAngle %+10.5f\n", dso::rad2deg(Omega), dso::rad2deg(i), dso::rad2deg(omega));
 
   // rotate to get equatorial, aka geocentric/(quasi-)inertial
-  Y.block<3,1>(0,0) = R.transpose() * Y.block<3,1>(0,0);
-  Y.block<3,1>(3,0) = R.transpose() * Y.block<3,1>(3,0);
+  Y.block<3,1>(0,0) = R * Y.block<3,1>(0,0);
+  Y.block<3,1>(3,0) = R * Y.block<3,1>(3,0);
   //printf("inertial coordinates: r=[%+20.10f %+20.10f %20.10f]\n", Y(0),Y(1),Y(2));
   //printf("                      v=[%+20.10f %+20.10f %20.10f]\n", Y(3),Y(4),Y(5));
   return Y;
@@ -100,13 +135,14 @@ int dso::state2elements(const dso::Vector3 &r, const dso::Vector3 &v,
   const Vector3 h = r.cross_product(v);
   const double hmag = h.norm();
 
-  ele.Omega() = dso::norm_angle<double, dso::AngleUnit::Radians>(
-      std::atan2(h.x(), -h.y()));
   ele.inclination() =
       std::atan2(std::sqrt(h.x() * h.x() + h.y() * h.y()), h.z());
 
   // argument of latitude
-  const double u = std::atan2(r.z() * hmag, -r.x() * h.y() + r.y() * h.x());
+  const double rxyz[] = {r.x(), r.y(), r.z()};
+  const double hxyz[] = {h.x(), h.y(), h.z()};
+  double u;
+  node_and_latitude_argument(rxyz, hxyz, hmag, ele.Omega(), u);
 
   const double rmag = r.norm();
   ele.semimajor() = 1e0 / (2e0 / rmag - v.dot_product(v) / GM);
@@ -141,13 +177,14 @@ dso::OrbitalElements dso::state2elements(double GM, const Eigen::Matrix<double,
 
   dso::OrbitalElements ele;
 
-  ele.Omega() = dso::norm_angle<double, dso::AngleUnit::Radians>(
-      std::atan2(h(0), -h(1)));
   ele.inclination() =
       std::atan2(std::sqrt(h(0)*h(0)+h(1)*h(1)), h(2));
   
   // argument of latitude
-  const double u = std::atan2(r(2)*H, -r(0)*h(1)+r(1)*h(0));
+  const double rxyz[] = {r(0), r(1), r(2)};
+  const double hxyz[] = {h(0), h(1), h(2)};
+  double u;
+  node_and_latitude_argument(rxyz, hxyz, H, ele.Omega(), u);
 
   const double R = r.norm();
   ele.semimajor() = 1e0 / (2e0/R-(v.dot(v))/GM); 
@@ -183,25 +220,22 @@ int dso::alternatives::state2kepler_montenbruck(const double *state,
   const Vector3 h = r.cross_product(v);
   const double hmag = h.norm();
   keplerian[0] = hmag;
-  const Vector3 W{{h.x() / hmag, h.y() / hmag, h.z() / hmag}};
 
-  keplerian[1] = std::atan2(std::sqrt(W.x() * W.x() + W.y() * W.y()), W.z());
-  keplerian[2] = std::atan2(W.x(), -W.y());
+  keplerian[1] = std::atan2(std::sqrt(h.x() * h.x() + h.y() * h.y()), h.z());
+  const double hxyz[] = {h.x(), h.y(), h.z()};
+  double u; // argument of latitude
+  node_and_latitude_argument(state, hxyz, hmag, keplerian[2], u);
 
-  const double p = h.norm_squared() / m;
   const double a = 1e0 / ((2e0 / rmag) - (v.norm_squared() / m));
-  const double n = std::sqrt(m / (a * a * a));
-  const double e = std::sqrt(1e0 - (p / a));
-  keplerian[3] = e;
-
-  const double E = atan2(r.dot_product(v) / a * a / n, 1e0 - rmag / a);
-  const double sE = std::sin(E);
-  // const double M = E - e * sE;
+  const double eCosE = 1e0 - rmag / a;
+  const double eSinE = r.dot_product(v) / std::sqrt(m * a);
+  const double e2 = eCosE * eCosE + eSinE * eSinE;
+  keplerian[3] = std::sqrt(e2);
 
-  const double u = std::atan2(r.z(), -r.x() * W.y() + r.y() * W.x());
-  const double t = std::atan2(std::sqrt(1e0 - e * e) * sE, std::cos(E) - e);
-  keplerian[4] = u - t;
-  keplerian[5] = t;
+  // true anomaly
+  const double t = std::atan2(std::sqrt(1e0 - e2) * eSinE, eCosE - e2);
+  keplerian[4] = dso::norm_angle<double, dso::AngleUnit::Radians>(u - t);
+  keplerian[5] = dso::norm_angle<double, dso::AngleUnit::Radians>(t);
 
   return 0;
 }
@@ -218,9 +252,6 @@ int dso::alternatives::state2kepler_vallado(const double *state,
   const double hnorm = h.norm();
   keplerian[0] = hnorm;
 
-  const Vector3 n{{-h.y(), h.x(), 0e0}}; // N = k_unit x h
-  const double nnorm = n.norm();
-
   Vector3 e = r * (v.norm_squared() - m / rnorm) - v * (r.dot_product(v));
   e /= m;
   double enorm = e.norm();
@@ -241,22 +272,7 @@ int dso::alternatives::state2kepler_vallado(const double *state,
   //  enorm * enorm);
   //#endif
 
-  keplerian[1] = std::acos(h.z() / hnorm);
-
-  double Omega = std::acos(n.x() / nnorm);
-  if (n.y() < 0e0)
-    Omega = iers2010::D2PI - Omega;
-  keplerian[2] = Omega;
-
-  double omega = std::acos(n.dot_product(e) / (nnorm * enorm));
-  if (e.z() < 0e0)
-    omega = iers2010::D2PI - omega;
-  keplerian[4] = omega;
-
-  double ni = std::acos(e.dot_product(r) / (enorm * rnorm));
-  if (r.dot_product(v) < 0e0)
-    ni = iers2010::D2PI - ni;
-  keplerian[5] = ni;
+  kepler_angles(h, e, r, keplerian);
 
   return 0;
 }
@@ -281,37 +297,6 @@ int dso::state2kepler(const double *state, double *keplerian,
   // and its magnitude (h); This is the first orbital element.
   keplerian[0] = hv.norm();
 
-  // Calculate the inclination (i); this is the second orbital element.
-  // Recall that i must lie between 0° and 180°, which is precisely the range
-  // (principal values) of the acos function
-  // (https://en.cppreference.com/w/cpp/numeric/math/acos). Hence, there is no
-  // quadrant ambiguity to contend with here. If 90° < i  180°, the angular
-  // momentum h points in a southerly direction. In that case, the orbit is
-  // retrograde, which means that the motion of the satellite around the earth
-  // is opposite to earth’s rotation.
-  keplerian[1] = std::acos(hv.z() / keplerian[0]);
-
-  // calculate N = k x h ; this vector defines the node line.
-  const Vector3 Nv{{-hv.y(), hv.x(), 0e0}};
-  const double N = Nv.norm();
-
-  // Calculate the right ascension of the ascending node (Omega).
-  // This is the third orbital element. If NX>0, then Ω lies in either the
-  // first or fourth quadrant. If NX < 0, then Ω lies in either the second or
-  // third quadrant. To place Ω in the proper quadrant, observe that the
-  // ascending node lies on the positive side of the vertical XZ plane
-  // (0 <  Ω < 180°) if NY > 0. On the other hand, the ascending node lies on
-  // the negative side of the XZ plane (180° < Ω < 360°) if NY < 0. Therefore,
-  // NY > 0 implies that 0  Ω < 180°, whereas NY < 0 implies that
-  // 180° < Ω < 360°
-  const double Nf = std::acos(Nv.x() / N);
-#ifdef BRANCHLESS
-  const double retN[] = {Nf, iers2010::D2PI - Nf};
-  keplerian[2] = retN[Nv.y() < 0e0];
-#else
-  keplerian[2] = (Nv.y() < 0e0) ? (iers2010::D2PI - Nf) : Nf;
-#endif
-
   // Calculate the eccentricity vector e
   const Vector3 ev = (pos * (v * v - (m / r)) - vel * (r * vr)) / m;
   // or ... just compute the magnitude ...., the forth orbital element
@@ -319,36 +304,10 @@ int dso::state2kepler(const double *state, double *keplerian,
   const double e = ev.norm();
   keplerian[3] = e;
 
-  // Calculate the argument of perigee.
-  // This is the fifth orbital element. If Ne > 0, then ω lies in either the
-  // first or fourth quadrant. If Ne < 0, then ω lies in either the second or
-  // third quadrant. To place ω in the proper quadrant, observe that perigee
-  // lies above the equatorial plane (0°  ω < 180°) if e points up (in the
-  // positive Z direction) and that perigee lies below the plane
-  // (180°  ω < 360°) if e points down. Therefore, eZ >=  0 implies that
-  // 0° < ω < 180°, whereas eZ < 0 implies that 180° < ω < 360°.
-  const double Of = std::acos(Nv.dot_product(ev) / N / e);
-#ifdef BRANCHLESS
-  const double retO[] = {Of, iers2010::D2PI - Of};
-  keplerian[4] = retO[ev.z() < 0e0];
-#else
-  keplerian[4] = (ev.z() < 0e0) ? (iers2010::D2PI - Of) : Of;
-#endif
-
-  // Calculate true anomaly.
-  // This is the sixth and final orbital element. If e*r > 0, then θ lies in
-  // the first or fourth quadrant. If e*r < 0, then θ lies in the second or
-  // third quadrant. To place θ in the proper quadrant, note that if the
-  // satellite is flying away from perigee (r*v >= 0), then 0 <  θ < 180°,
-  // whereas if the satellite is flying toward perigee (r*v < 0), then
-  // 180° < θ < 360°.
-  const double Tf = std::acos(ev.dot_product(pos) / e / r);
-#ifdef BRANCHLESS
-  const double retT[] = {Tf, iers2010::D2PI - Tf};
-  keplerian[5] = retT[vr < 0e0];
-#else
-  keplerian[5] = (vr < 0e0) ? (iers2010::D2PI - Tf) : Tf;
-#endif
+  // Calculate the inclination, the right ascension of the ascending node, the
+  // argument of perigee and the true anomaly (second, third, fifth and sixth
+  // orbital elements).
+  kepler_angles(hv, ev, pos, keplerian);
 
   return 0;
 }
-- 
2.43.0


From 4bc38815fb8b72a50c4f5ccc3a2323a113970337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:56 +0000
Subject: [PATCH 30/53] fix: element partials of equatorial orbits were NaN

---
 src/astrodynamics/state_partials.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/astrodynamics/state_partials.cpp b/src/astrodynamics/state_partials.cpp
index a50daa4..4796b2c 100644
--- a/src/astrodynamics/state_partials.cpp
+++ b/src/astrodynamics/state_partials.cpp
@@ -20,12 +20,10 @@ Eigen::Matrix<double, 6, 6> dso::state_partials(double GM,
       Eigen::AngleAxisd(ele.omega(), Eigen::Vector3d::UnitZ()));
   const auto P = PQW.block<3, 1>(0, 0); // first column
   const auto Q = PQW.block<3, 1>(0, 1); // second column
-  const auto W = PQW.block<3, 1>(0, 2); // third column
-  
-  auto N = Eigen::Vector3d::UnitZ().cross(W);
-  N = N / N.norm();
 
-  // const Vector3 n({std::cos(ele.Omega(), std::sin(ele.Omega), 0e0});
+  // unit vector towards the ascending node (also defined for equatorial orbits)
+  const Eigen::Vector3d N(std::cos(ele.Omega()), std::sin(ele.Omega()), 0e0);
+
   const auto dPdi = N.cross(P);
   const auto dPdO = Eigen::Vector3d::UnitZ().cross(P);
   const auto dPdo = Q;
-- 
2.43.0


From 4545f8cac9faaa987316a8b3230d98836361fdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:34 +0000
Subject: [PATCH 31/53] fix: geopotential: order-1 terms and symmetric
 partials, sectorial recursion, degree 0, no side effects inside asserts

---
 src/egravity.hpp                       | 12 ++++++++----
 src/gravity/gravity_acceleration.cpp   | 21 +++++++++++++--------
 src/gravity/lagrange_poly.cpp          | 16 ++++++++++------
 var/icgem/src/egravity.hpp             |  4 ++--
 var/icgem/src/gravity_acceleration.cpp |  2 +-
 var/icgem/src/lagrange_poly.cpp        | 16 ++++++++++------
 6 files changed, 44 insertions(+), 27 deletions(-)

diff --git a/src/egravity.hpp b/src/egravity.hpp
index e524b56..ae664e8 100644
--- a/src/egravity.hpp
+++ b/src/egravity.hpp
@@ -168,7 +168,9 @@ grav_potential_accel(const Eigen::Matrix<double, 3, 1> &pos, int degree,
   assert(V.rows() >= degree + 2 && V.cols() >= order + 2);
   assert(W.rows() >= degree + 2 && W.cols() >= order + 2);
   // compute Langrange polynomials
-  assert(!dso::lagrange_polynomials(pos, hc.Re(), degree + 1, order + 1, V, W));
+  [[maybe_unused]] const int error =
+      dso::lagrange_polynomials(pos, hc.Re(), degree + 1, order + 1, V, W);
+  assert(!error);
   // return acceleration
   return grav_potential_accel(degree, order, hc.Re(), hc.GM(), V, W, hc);
 }
@@ -185,10 +187,12 @@ grav_potential_accel(const Eigen::Matrix<double, 3, 1> &pos, int degree,
                      const dso::HarmonicCoeffs &hc,
                      Eigen::Matrix<double, 3, 3> &partials) noexcept {
   // validate the size of V and W
-  assert(V.rows() == degree + 3 && V.cols() == order + 3);
-  assert(W.rows() == degree + 3 && W.cols() == order + 3);
+  assert(V.rows() >= degree + 3 && V.cols() >= order + 3);
+  assert(W.rows() >= degree + 3 && W.cols() >= order + 3);
   // compute Langrange polynomials
-  assert(!dso::lagrange_polynomials(pos, hc.Re(), degree + 2, order + 2, V, W));
+  [[maybe_unused]] const int error =
+      dso::lagrange_polynomials(pos, hc.Re(), degree + 2, order + 2, V, W);
+  assert(!error);
   // return acceleration
   return grav_potential_accel(degree, order, hc.Re(), hc.GM(), V, W, hc,
                               partials);
diff --git a/src/gravity/gravity_acceleration.cpp b/src/gravity/gravity_acceleration.cpp
index dc6a4b3..2f65327 100644
--- a/src/gravity/gravity_acceleration.cpp
+++ b/src/gravity/gravity_acceleration.cpp
@@ -103,16 +103,21 @@ Eigen::Matrix<double,3,1> dso::grav_potential_accel(
   // printf("\tGravitational potential (m=0)\n");
   // printf("\t%+15.6f %+15.6f %15.6f\n", xacc, yacc, zacc);
 
-  double daxdx_m1(0e0), daxdy_m1(0e0), dazdz_m1(0e0);
+  double daxdx_m1(0e0), daxdy_m1(0e0), daxdz_m1(0e0), daydz_m1(0e0),
+      dazdz_m1(0e0);
   // m = 1 part (only considered for partials)
   fac = 2e0; /* recursion of (n+1)! / (n-1)! */
-  for (int i = 1; i <= degree; i++) {
+  for (int i = 1; order > 0 && i <= degree; i++) {
     const double Cn1 = hc.C(i, 1);
     const double Sn1 = hc.S(i, 1);
     daxdx_m1 += 0.25e0 * (Cn1 * V(i + 2, 3) + Sn1 * W(i + 2, 3) +
                           fac * (-3e0 * Cn1 * V(i + 2, 1) - Sn1 * W(i + 2, 1)));
     daxdy_m1 += 0.25e0 * (Cn1 * W(i + 2, 3) - Sn1 * V(i + 2, 3) +
                           fac * (-Cn1 * W(i + 2, 1) - Sn1 * V(i + 2, 1)));
+    daxdz_m1 += 0.5e0 * ((double)i * (Cn1 * V(i + 2, 2) + Sn1 * W(i + 2, 2)) -
+                         fac * (i + 2) * (Cn1 * V(i + 2, 0)));
+    daydz_m1 += 0.5e0 * ((double)i * (Cn1 * W(i + 2, 2) - Sn1 * V(i + 2, 2)) -
+                         fac * (i + 2) * (Sn1 * V(i + 2, 0)));
     dazdz_m1 += (double)(i * (i + 1)) * (Cn1 * V(i + 2, 1) + Sn1 * W(i + 2, 1));
 
     fac *= ((double)(i + 2) / (double)i);
@@ -203,14 +208,14 @@ Eigen::Matrix<double,3,1> dso::grav_potential_accel(
   // Sum-up partial derivatives, column-wise
   partials(0, 0) = daxdx_m0 + daxdx_m1 + daxdx_m2; // dax/dx
   partials(1, 0) = daxdy_m0 + daxdy_m1 + daxdy_m2; // dax/dy
-  partials(2, 0) = daxdz_m0 + daxdz_m2;            // dax/dz
+  partials(2, 0) = daxdz_m0 + daxdz_m1 + daxdz_m2; // dax/dz
 
-  partials(0, 1) = partials(0, 1);      // day/dx
-  partials(1, 1) = 1e0;                 // day/dy
-  partials(2, 1) = daydz_m0 + daydz_m2; // day/dz
+  partials(0, 1) = partials(1, 0);                 // day/dx
+  partials(1, 1) = 1e0;                            // day/dy
+  partials(2, 1) = daydz_m0 + daydz_m1 + daydz_m2; // day/dz
 
-  partials(0, 2) = partials(0, 2);                 // daz/dx
-  partials(1, 2) = partials(1, 2);                 // daz/dy
+  partials(0, 2) = partials(2, 0);                 // daz/dx
+  partials(1, 2) = partials(2, 1);                 // daz/dy
   partials(2, 2) = dazdz_m0 + dazdz_m1 + dazdz_m2; // daz/dz
 
   // computation of day / dy from the fact that:
diff --git a/src/gravity/lagrange_poly.cpp b/src/gravity/lagrange_poly.cpp
index fea9ca7..4a1e821 100644
--- a/src/gravity/lagrange_poly.cpp
+++ b/src/gravity/lagrange_poly.cpp
@@ -29,8 +29,10 @@ int dso::lagrange_polynomials(
   V(0, 0) = R / std::sqrt(r2);
   W(0, 0) = 0e0;
 
-  V(1, 0) = z0 * V(0, 0);
-  W(1, 0) = 0e0;
+  if (l > 0) {
+    V(1, 0) = z0 * V(0, 0);
+    W(1, 0) = 0e0;
+  }
 
   int n = 0, m = 0;
   for (n = 2; n <= l; n++) {
@@ -41,8 +43,8 @@ int dso::lagrange_polynomials(
 
   for (m = 1; m <= k; m++) {
     // use 3.29 to compute V_mm and W_mm
-    V(m, m) = (2 * m - 1) * x0 * V(m - 1, m - 1) - y0 * W(m - 1, m - 1);
-    W(m, m) = (2 * m - 1) * x0 * W(m - 1, m - 1) + y0 * V(m - 1, m - 1);
+    V(m, m) = (2 * m - 1) * (x0 * V(m - 1, m - 1) - y0 * W(m - 1, m - 1));
+    W(m, m) = (2 * m - 1) * (x0 * W(m - 1, m - 1) + y0 * V(m - 1, m - 1));
 
     if (m < l) {
       V(m + 1, m) = (2 * m + 1) * z0 * V(m, m);
@@ -90,8 +92,10 @@ int dso::lagrange_polynomials(
   V(0, 0) = R / std::sqrt(r2);
   W(0, 0) = 0e0;
 
-  V(1, 0) = z0 * V(0, 0);
-  W(1, 0) = 0e0;
+  if (l > 0) {
+    V(1, 0) = z0 * V(0, 0);
+    W(1, 0) = 0e0;
+  }
 
   int n = 0, m = 0;
   for (n = 2; n <= l; n++) {
diff --git a/var/icgem/src/egravity.hpp b/var/icgem/src/egravity.hpp
index 1b57e51..fff5b42 100644
--- a/var/icgem/src/egravity.hpp
+++ b/var/icgem/src/egravity.hpp
@@ -14,8 +14,8 @@ namespace dso {
 /// @param[in] robj Point mass position vector (e.g. moon)
 /// @return A vector containing the acceleration components
 /// @see e.g. Curtis, Chapter 10.10
-Vector3 point_mass_accel(const Vector3 &rsat, const Vector3 &robj,
-                         double GM) noexcept {
+inline Vector3 point_mass_accel(const Vector3 &rsat, const Vector3 &robj,
+                                double GM) noexcept {
   //  Relative position vector of satellite w.r.t. point mass
   auto d = rsat - robj;
   // Acceleration
diff --git a/var/icgem/src/gravity_acceleration.cpp b/var/icgem/src/gravity_acceleration.cpp
index cd53e5b..b9fdd48 100644
--- a/var/icgem/src/gravity_acceleration.cpp
+++ b/var/icgem/src/gravity_acceleration.cpp
@@ -41,7 +41,7 @@ int dso::grav_potential_accel(
       xacc2 += 0.5e0 * (-Cnm * Vnp1mp1 - Snm * Wnp1mp1) +
                fac * (Cnm * Vnp1mm1 + Snm * Wnp1mm1);
       yacc2 += 0.5e0 * (-Cnm * Wnp1mp1 + Snm * Vnp1mp1) +
-               fac * (-Cnm * Vnp1mm1 + Snm * Wnp1mm1);
+               fac * (-Cnm * Wnp1mm1 + Snm * Vnp1mm1);
       zacc += (i - j + 1) * (-Cnm * Vnp1mp0 - Snm * Wnp1mp0);
     }
   }
diff --git a/var/icgem/src/lagrange_poly.cpp b/var/icgem/src/lagrange_poly.cpp
index bd8848d..73bc5e5 100644
--- a/var/icgem/src/lagrange_poly.cpp
+++ b/var/icgem/src/lagrange_poly.cpp
@@ -29,8 +29,10 @@ int dso::lagrange_polynomials(
   V(0, 0) = R / std::sqrt(r2);
   W(0, 0) = 0e0;
 
-  V(1, 0) = z0 * V(0, 0);
-  W(1, 0) = 0e0;
+  if (l > 0) {
+    V(1, 0) = z0 * V(0, 0);
+    W(1, 0) = 0e0;
+  }
 
   int n = 0, m = 0;
   for (n = 2; n <= l; n++) {
@@ -41,8 +43,8 @@ int dso::lagrange_polynomials(
 
   for (m = 1; m <= k; m++) {
     // use 3.29 to compute V_mm and W_mm
-    V(m, m) = (2 * m - 1) * x0 * V(m - 1, m - 1) - y0 * W(m - 1, m - 1);
-    W(m, m) = (2 * m - 1) * x0 * W(m - 1, m - 1) + y0 * V(m - 1, m - 1);
+    V(m, m) = (2 * m - 1) * (x0 * V(m - 1, m - 1) - y0 * W(m - 1, m - 1));
+    W(m, m) = (2 * m - 1) * (x0 * W(m - 1, m - 1) + y0 * V(m - 1, m - 1));
 
     if (m < l) {
       V(m + 1, m) = (2 * m + 1) * z0 * V(m, m);
@@ -90,8 +92,10 @@ int dso::lagrange_polynomials(
   V(0, 0) = R / std::sqrt(r2);
   W(0, 0) = 0e0;
 
-  V(1, 0) = z0 * V(0, 0);
-  W(1, 0) = 0e0;
+  if (l > 0) {
+    V(1, 0) = z0 * V(0, 0);
+    W(1, 0) = 0e0;
+  }
 
   int n = 0, m = 0;
   for (n = 2; n <= l; n++) {
-- 
2.43.0


From faee4063e9aacf678df1086f63b39a9920b9a768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:34 +0000
Subject: [PATCH 32/53] fix: third-body partials, and the unit of the Sun's
 acceleration

---
 src/gravity/point_mass_acceleration.cpp | 6 +++---
 src/sunmoon.cpp                         | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/gravity/point_mass_acceleration.cpp b/src/gravity/point_mass_acceleration.cpp
index 1ea8059..04b5a4d 100644
--- a/src/gravity/point_mass_acceleration.cpp
+++ b/src/gravity/point_mass_acceleration.cpp
@@ -36,9 +36,9 @@ dso::point_mass_accel(double GM, const Eigen::Matrix<double, 3, 1> &rsat,
   // const Eigen::Matrix<double, 3, 1> a = (-GM) * (d / (dn*dn2) + robj / (sn*sn2));
 
   // partials w.r.t. position
-  const double sn5 = sn2 * sn2 * sn;
-  partials = (-GM) * ( Eigen::Matrix<double, 3, 3>::Identity() / (dn*dn2) 
-  +3e0 * (d*d.transpose()) / sn5);
+  const double dn5 = dn2 * dn2 * dn;
+  partials = (-GM) * (Eigen::Matrix<double, 3, 3>::Identity() / (dn * dn2) -
+                      3e0 * (d * d.transpose()) / dn5);
 
   return (-GM) * (d / (dn*dn2) + robj / (sn*sn2));
 }
diff --git a/src/sunmoon.cpp b/src/sunmoon.cpp
index aa12e71..ed42372 100644
--- a/src/sunmoon.cpp
+++ b/src/sunmoon.cpp
@@ -29,7 +29,7 @@ void dso::SunMoon(double mjd_tai, const Eigen::Matrix<double, 3, 1> &rsat,
 
   // Sun-induced acceleration [km/sec^2]
   sun_acc = dso::point_mass_accel(GMSun, rsat * 1e-3, rSun);
-  sun_acc = sun_acc * 1e-3; // [m/sec^2]
+  sun_acc = sun_acc * 1e3; // [m/sec^2]
 
   // Moon-induced acceleration [m/sec^2]
   moon_acc =
-- 
2.43.0


From e5f6e34c6f67d6f1bff7021366fd277477e58142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:41 +0000
Subject: [PATCH 33/53] fix: kernel name comparison, and text PCKs, when
 deciding whether a kernel is loaded

---
 src/planets/cspice_utils.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/planets/cspice_utils.cpp b/src/planets/cspice_utils.cpp
index 6db24e9..3b3b7b6 100644
--- a/src/planets/cspice_utils.cpp
+++ b/src/planets/cspice_utils.cpp
@@ -20,7 +20,7 @@ int dso::cspice::load_if_unloaded_lsk(const char *lsk_kernel) noexcept {
     for (which = 0; which < count; which++) {
       kdata_c(which, "text", FILLEN, TYPLEN, SRCLEN, file, filtyp, source,
               &handle, &found);
-      if (!std::strncmp(file, lsk_kernel, std::strlen(lsk_kernel))) return 0;
+      if (found && !std::strncmp(file, lsk_kernel, FILLEN - 1)) return 0;
     }
   }
 
@@ -42,7 +42,7 @@ int dso::cspice::load_if_unloaded_spk(const char *spk_kernel) noexcept {
     for (which = 0; which < count; which++) {
       kdata_c(which, "spk", FILLEN, TYPLEN, SRCLEN, file, filtyp, source,
               &handle, &found);
-      if (!std::strncmp(file, spk_kernel, std::strlen(spk_kernel))) return 0;
+      if (found && !std::strncmp(file, spk_kernel, FILLEN - 1)) return 0;
     }
   }
 
@@ -57,14 +57,15 @@ int dso::cspice::load_if_unloaded_pck(const char *pck_kernel) noexcept {
   SpiceChar source[SRCLEN];
   SpiceBoolean found;
 
-  // get number of spk kernels loaded ... 
-  ktotal_c("pck", &count);
+  // get number of pck kernels loaded; note that ascii PCKs (e.g. the ones
+  // holding GM constants) are listed as text kernels
+  ktotal_c("pck text", &count);
 
   if (count) {
     for (which = 0; which < count; which++) {
-      kdata_c(which, "pck", FILLEN, TYPLEN, SRCLEN, file, filtyp, source,
+      kdata_c(which, "pck text", FILLEN, TYPLEN, SRCLEN, file, filtyp, source,
               &handle, &found);
-      if (!std::strncmp(file, pck_kernel, std::strlen(pck_kernel))) return 0;
+      if (found && !std::strncmp(file, pck_kernel, FILLEN - 1)) return 0;
     }
   }
 
-- 
2.43.0


From 778ce3da485c021bec702113554130c54aafe459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:24 +0000
Subject: [PATCH 34/53] fix: dangling matrix temporaries in the velocity
 transformations

---
 src/itrs2gcrs.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/itrs2gcrs.cpp b/src/itrs2gcrs.cpp
index 36718b6..1141dc2 100644
--- a/src/itrs2gcrs.cpp
+++ b/src/itrs2gcrs.cpp
@@ -105,11 +105,13 @@ dso::ycel2ter(const Eigen::Matrix<double, 6, 1> y,
   const double data[] = {0e0, -1e0, 0e0, 1e0, 0e0, 0e0, 0e0, 0e0, 0e0};
 
 #ifdef NEW_EOP
-  const auto rc2ti = (OmegaEarth(xlod) * Eigen::Matrix<double, 3, 3>(data) *
+  const Eigen::Matrix<double, 3, 3> rc2ti =
+                     (OmegaEarth(xlod) * Eigen::Matrix<double, 3, 3>(data) *
                       Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ())) *
                      rc2i;
 #else
-  const auto rc2ti = (iers2010::OmegaEarth * Eigen::Matrix<double, 3, 3>(data) *
+  const Eigen::Matrix<double, 3, 3> rc2ti =
+                     (iers2010::OmegaEarth * Eigen::Matrix<double, 3, 3>(data) *
                       Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ())) *
                      rc2i;
 #endif
@@ -141,11 +143,13 @@ dso::yter2cel(const Eigen::Matrix<double, 6, 1> y,
   const double data[] = {0e0, -1e0, 0e0, 1e0, 0e0, 0e0, 0e0, 0e0, 0e0};
 
 #ifdef NEW_EOP
-  const auto rc2ti = (OmegaEarth(xlod) * Eigen::Matrix<double, 3, 3>(data) *
+  const Eigen::Matrix<double, 3, 3> rc2ti =
+                     (OmegaEarth(xlod) * Eigen::Matrix<double, 3, 3>(data) *
                       Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ())) *
                      rc2i;
 #else
-  const auto rc2ti = (iers2010::OmegaEarth * Eigen::Matrix<double, 3, 3>(data) *
+  const Eigen::Matrix<double, 3, 3> rc2ti =
+                     (iers2010::OmegaEarth * Eigen::Matrix<double, 3, 3>(data) *
                       Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ())) *
                      rc2i;
 #endif
-- 
2.43.0


From dc81fd172087f786b2fcc5c8f71f8318cc500ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:02 +0000
Subject: [PATCH 35/53] fix: dangling temporaries in the drag acceleration

---
 src/astrodynamics/drag.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/astrodynamics/drag.cpp b/src/astrodynamics/drag.cpp
index 5145ea1..bf02570 100644
--- a/src/astrodynamics/drag.cpp
+++ b/src/astrodynamics/drag.cpp
@@ -26,11 +26,11 @@ dso::drag_accel(const Eigen::Matrix<double, 3, 1> &rsat,
   const Eigen::Matrix<double, 3, 1> omega{omegav};
 
   // position and velocity of satellite to true-of-date system
-  const auto rtod = rbpn * rsat;
-  const auto vtod = rbpn * vsat;
+  const Eigen::Matrix<double, 3, 1> rtod = rbpn * rsat;
+  const Eigen::Matrix<double, 3, 1> vtod = rbpn * vsat;
 
   // Velocity relative to the Earth's atmosphere
-  const auto vrel = vtod - omega.cross(rtod);
+  const Eigen::Matrix<double, 3, 1> vrel = vtod - omega.cross(rtod);
   const auto vabs = vrel.norm();
 
   // Acceleration
-- 
2.43.0


From 0961e71a7d7d5d3908fda4cdb37e1b6a899c282f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:18 +0000
Subject: [PATCH 36/53] fix: radiation pressure partial for a vanishing
 coefficient

---
 src/astrodynamics/solar_radiation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/astrodynamics/solar_radiation.cpp b/src/astrodynamics/solar_radiation.cpp
index 963a1fb..cdc261f 100644
--- a/src/astrodynamics/solar_radiation.cpp
+++ b/src/astrodynamics/solar_radiation.cpp
@@ -42,7 +42,7 @@ dso::solar_radiation_acceleration(const Eigen::Matrix<double, 3, 1> &rsat,
       C * (Area / mass) * P0 * AU2 * d / D3;
 
   // partials w.r.t C, see Monentbruck, 7.3.3
-  dadC = acceleration / C;
+  dadC = (Area / mass) * P0 * AU2 * d / D3;
 
   return acceleration;
 }
-- 
2.43.0


From 5a4ead78b079da751faf7ace402f38de31e735ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:35 +0000
Subject: [PATCH 37/53] fix: scale height of the 180-200 km layer

---
 src/atmosphere/exponential_atmospheric_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/atmosphere/exponential_atmospheric_model.cpp b/src/atmosphere/exponential_atmospheric_model.cpp
index e28c923..86434bb 100644
--- a/src/atmosphere/exponential_atmospheric_model.cpp
+++ b/src/atmosphere/exponential_atmospheric_model.cpp
@@ -29,7 +29,7 @@ const AtmLayer AtmTable[] = {
     {130, 140, 130, 8.484e-9, 12.636e0},
     {140, 150, 140, 3.845e-9, 16.149e0},
     {150, 180, 150, 2.070e-9, 22.523e0},
-    {180, 200, 180, 5.464e-10, 29740e0},
+    {180, 200, 180, 5.464e-10, 29.740e0},
     {200, 250, 200, 2.789e-10, 37.105e0},
     {250, 300, 250, 7.248e-11, 45.546e0},
     {300, 350, 300, 2.418e-11, 53.628e0},
-- 
2.43.0


From 0da7054763db7a2657f96b60a8ce4079bb2d2724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:36 +0000
Subject: [PATCH 38/53] fix: eclipse models: cone angle on the wrong side, NaN
 on the shadow axis and at the edge of the penumbra

---
 src/astrodynamics/occultation.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/astrodynamics/occultation.cpp b/src/astrodynamics/occultation.cpp
index b072257..cbb0b7a 100644
--- a/src/astrodynamics/occultation.cpp
+++ b/src/astrodynamics/occultation.cpp
@@ -1,4 +1,5 @@
 #include "astrodynamics.hpp"
+#include <algorithm>
 #include <cmath>
 #include "gcem.hpp" // for constexpr math (trigonometric funcs)
 #include "geodesy/ellipsoid.hpp"
@@ -21,7 +22,8 @@ double utest::vallado_shadow(const dso::Vector3 &r_sat,
 
   const double r = r_sat.norm();
   const double s = r_sun.norm();
-  const double cosz = product / (r * s);
+  // angle from the shadow axis, which points away from the Sun
+  const double cosz = std::min(-product / (r * s), 1e0);
   const double zeta = std::acos(cosz);
   const double sinz = std::sin(zeta);
   const double sath = r * cosz;
@@ -67,7 +69,7 @@ double utest::bernese_shadow1(const dso::Vector3 &r_sat,
     const double rsun = zsun.norm();
     const double rsat2 = zsat.norm_squared();
     const double rcos = zsat.dot_product(zsun) / rsun;
-    const double rsin = std::sqrt(rsat2-rcos*rcos);
+    const double rsin = std::sqrt(std::max(rsat2-rcos*rcos, 0e0));
     if (rcos<0e0 && (rsin-iers2010::Re<0e0)) return 0e0;
     return 1;
 }
@@ -78,7 +80,9 @@ double utest::conical_shadow(const dso::Vector3 &r_sat,
   const double nsunsat = (r_sun - r_sat).norm();
   const double ts = std::asin(iers2010::Rs / nsunsat);
   const double tes =
-      std::acos(-r_sat.dot_product(r_sun - r_sat) / (nsunsat * r_sat.norm()));
+      std::acos(std::clamp(-r_sat.dot_product(r_sun - r_sat) /
+                               (nsunsat * r_sat.norm()),
+                           -1e0, 1e0));
 
   if (tes >= te + ts)
     return 1e0;
@@ -88,8 +92,10 @@ double utest::conical_shadow(const dso::Vector3 &r_sat,
   const double ts2 = ts * ts;
   const double te2 = te * te;
   const double tes2 = tes * tes;
-  const double caf = std::acos((ts2 + tes2 - te2) / (2e0 * ts * tes));
-  const double cbd = std::acos((te2 + tes2 - ts2) / (2e0 * te * tes));
+  const double caf = std::acos(
+      std::clamp((ts2 + tes2 - te2) / (2e0 * ts * tes), -1e0, 1e0));
+  const double cbd = std::acos(
+      std::clamp((te2 + tes2 - ts2) / (2e0 * te * tes), -1e0, 1e0));
   const double Safc = 0.5 * caf * ts2;
   const double Saec = 0.5 * (ts * std::sin(caf)) * (ts * std::cos(caf));
   const double Sbdc = 0.5 * cbd * te2;
-- 
2.43.0


From 35dc19d2fd7d595e479f18cbde02d16dd2e29206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:56 +0000
Subject: [PATCH 39/53] fix: Sun's mean anomaly (Vallado) and obliquity
 (Curtis) rates had transposed digits; these series refer to the equinox of
 date

---
 src/planetpos.hpp      | 4 ++--
 src/planets/sunpos.cpp | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/planetpos.hpp b/src/planetpos.hpp
index 8684317..f5f35ff 100644
--- a/src/planetpos.hpp
+++ b/src/planetpos.hpp
@@ -96,7 +96,7 @@ int sun_vector_montenbruck(double tt_jdc, double *rsun) noexcept;
 /// @brief Sun's geocentric position using a low precision analytical series
 /// @param[in] tt_jdc Terestrial time as Modified Julian cent. since J2000
 /// @param[out] rsun Components of the Solar position vector [km] with respect
-///             to the mean equator and equinox of J2000 (EME2000, ICRF)
+///             to the mean equator and equinox of date
 /// @see Vallado, Fundamentals of Astrodynamics and Applications, Fourth 
 ///             Edition, Chapter 5.1.1
 /// @note This is the same algorithm as also described in Orbital Mechanics for
@@ -110,7 +110,7 @@ int sun_vector_approx21(double tt_jdc, double *rsun) noexcept;
 /// @brief Sun's geocentric position using a low precision analytical series
 /// @param[in] tt_jdc Terestrial time as Modified Julian cent. since J2000
 /// @param[out] rsun Components of the Solar position vector [km] with respect
-///             to the mean equator and equinox of J2000 (EME2000, ICRF)
+///             to the mean equator and equinox of date
 /// @see Curtis, Orbital Mechanics for Engineering Students, Fourth Edition,
 ///             Chapter 12.9
 int sun_vector_curtis(double n, double *rsun) noexcept;
diff --git a/src/planets/sunpos.cpp b/src/planets/sunpos.cpp
index 71f57d9..7253812 100644
--- a/src/planets/sunpos.cpp
+++ b/src/planets/sunpos.cpp
@@ -49,7 +49,7 @@ int dso::sun_vector_vallado(double t, double *rsun) noexcept {
   const double lambda =
       std::fmod(280.460e0 + 36000.771e0 * t, 360e0); // [degrees]
   const double M =
-      std::fmod(357.5291092e0 + 35999.50534e0 * t, 360e0); // [degrees]
+      std::fmod(357.5291092e0 + 35999.05034e0 * t, 360e0); // [degrees]
   const double Mrad = dso::deg2rad(M);
   const double l_ecliptic = std::fmod(lambda + 1.914666471e0 * sin(Mrad) +
                                           0.019994643e0 * sin(2e0 * Mrad),
@@ -80,7 +80,7 @@ int dso::sun_vector_approx21(double t, double *rsun) noexcept {
   const double lambda = std::modf(cf1 + cf2 * t, &dummy) * pi2; // [rad]
 
   constexpr double cf3 = normalize_deg(357.5291092e0);
-  constexpr double cf4 = normalize_deg(35999.50534e0);
+  constexpr double cf4 = normalize_deg(35999.05034e0);
   const double M = std::modf(cf3 + cf4 * t, &dummy) * pi2; // [rad]
 
   const double lon_arg = 1.914666471e0 * sin(M) + 0.019994643e0 * sin(2e0 * M);
@@ -114,7 +114,7 @@ int dso::sun_vector_curtis(double n, double *rsun) noexcept {
                                    0.0200e0 * sin(2e0 * dso::deg2rad(M)),
                                360e0);
   // Calculate the obliquity ε [deg]
-  const double e = 23.439e0 - 3.65e-7 * n;
+  const double e = 23.439e0 - 3.56e-7 * n;
   // Calculate the unit vector u_n from the earth to the sun
   const double ux = cos(dso::deg2rad(lon));
   const double uy = cos(dso::deg2rad(e)) * sin(dso::deg2rad(lon));
-- 
2.43.0


From 7ac411ac85ad608a28cdf5a029c9bd0c8ce6c9b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:56 +0000
Subject: [PATCH 40/53] fix: J2 term of the relativistic clock correction uses
 the geocentric latitude

---
 src/relativity/relativistic_clock_correction.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/relativity/relativistic_clock_correction.cpp b/src/relativity/relativistic_clock_correction.cpp
index 550d4e7..3cb1b8d 100644
--- a/src/relativity/relativistic_clock_correction.cpp
+++ b/src/relativity/relativistic_clock_correction.cpp
@@ -45,19 +45,17 @@ double
 dso::relativistic_clock_correction(const Eigen::Matrix<double, 3, 1> &recef,
                                    const Eigen::Matrix<double, 3, 1> &vecef,
                                    double GM, double J2, double Re) noexcept {
-  // compute ellipsoidal height
-  const auto lfh = dso::car2ell<dso::ellipsoid::grs80>(recef);
-
-  const double latitude = lfh[1]; // [rad]
-
   // norm of position vector
   const double R = recef.norm();
 
+  // sine of (geocentric) latitude
+  const double sinphi = recef(2) / R;
+
   // potential, including J2 zonal term (Lemoine et al, Eq. 15)
   const double U =
       (GM / R) *
       (1e0 - (Re / R) * (Re / R) * J2 *
-                 (3e0 * std::sin(latitude) * std::sin(latitude) - 1e0) / 2e0);
+                 (3e0 * sinphi * sinphi - 1e0) / 2e0);
 
   // velocity squared
   const double V2 = vecef.squaredNorm();
-- 
2.43.0


From c5c6e37f28b989aed93acdde42f720c2a5f2f0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:38 +0000
Subject: [PATCH 41/53] fix: cached terms of the atmosphere model were shared
 between instances and not renewed with all their inputs

---
 src/atmosphere/nrlmsise00_glob7s.cpp | 31 ++------------
 src/atmosphere/nrlmsise00_globe7.cpp | 60 ++++++----------------------
 2 files changed, 17 insertions(+), 74 deletions(-)

diff --git a/src/atmosphere/nrlmsise00_glob7s.cpp b/src/atmosphere/nrlmsise00_glob7s.cpp
index 9ca1ce9..b19d713 100644
--- a/src/atmosphere/nrlmsise00_glob7s.cpp
+++ b/src/atmosphere/nrlmsise00_glob7s.cpp
@@ -14,37 +14,14 @@ double dso::Nrlmsise00::glob7s(const InParamsCore *in, double *pp) noexcept {
 
   // VERSION OF GLOBE FOR LOWER ATMOSPHERE 10/26/99
   constexpr const double pset = 2e0;
-  static int last_doy = -1e0; // last doy used
-  static double p32 = -1e3;
-  static double p18 = -1e3;
-  static double p14 = -1e3;
-  static double p39 = -1e3;
-  static double cd14;
-  static double cd18;
-  static double cd32;
-  static double cd39;
 
   if (std::abs(p[99]) < nearzero)
     p[99] = pset;
 
-  // did day of year change?
-  const bool doy_changed = (int)in->doy - last_doy != 0;
-  if (doy_changed || std::abs(p32 - p[31]) > nearzero)
-    cd32 = std::cos(dr * (doy - p[31]));
-  if (doy_changed || std::abs(p18 - p[17]) > nearzero)
-    cd18 = std::cos(2e0 * dr * (doy - p[17]));
-  if (doy_changed || std::abs(p14 - p[13]) > nearzero)
-    cd14 = std::cos(dr * (doy - p[13]));
-  if (doy_changed || std::abs(p39 - p[38]) > nearzero)
-    cd39 = std::cos(2e0 * dr * (doy - p[38]));
-
-  // update last used doy
-  last_doy = doy;
-
-  p32 = p[31];
-  p18 = p[17];
-  p14 = p[13];
-  p39 = p[39];
+  const double cd32 = std::cos(dr * (doy - p[31]));
+  const double cd18 = std::cos(2e0 * dr * (doy - p[17]));
+  const double cd14 = std::cos(dr * (doy - p[13]));
+  const double cd39 = std::cos(2e0 * dr * (doy - p[38]));
 
   t[0] = p[21] * dfa;
   
diff --git a/src/atmosphere/nrlmsise00_globe7.cpp b/src/atmosphere/nrlmsise00_globe7.cpp
index bf495eb..ceee973 100644
--- a/src/atmosphere/nrlmsise00_globe7.cpp
+++ b/src/atmosphere/nrlmsise00_globe7.cpp
@@ -18,23 +18,10 @@ double dso::Nrlmsise00::globe7(const InParamsCore *in, double *pp) noexcept {
   constexpr const double hr = 0.2618e0;
   constexpr const double sr = 7.2722e-5;
 
-  // last latitude (so we don't re-compute legendre polynomials)
-  static double xl = 1000e0;
-  // last used tloc/lst (so we don't recompute trig numbers)
-  static double tll = 1000e0;
-  static double sw9 = 1e0;
-  // last doy used 
-  static int last_doy = -1;
-  static double p14 = -1e3;
-  static double p18 = -1e3;
-  static double p32 = -1e3;
-  static double p39 = -1e3;
-  static double cd14, cd18, cd32, cd39;
-
   double t[14] = {0e0};
-  sw9 = 1e0 * (sw[8] < 0e0) * -1e0;
+  const double sw9 = 1e0 * (sw[8] < 0e0) * -1e0;
 
-  if (std::abs(xl - in->glat) > nearzero) {
+  {
     // calculate legendre polynomials
     const double c = std::sin(dso::deg2rad(in->glat));
     const double s = std::cos(dso::deg2rad(in->glat));
@@ -66,43 +53,22 @@ double dso::Nrlmsise00::globe7(const InParamsCore *in, double *pp) noexcept {
     plg[3][4] = 105e0 * s2 * s * c;
     plg[3][5] = (9e0 * c * plg[3][4] - 7e0 * plg[3][3]) / 2e0;
     plg[3][6] = (11e0 * c * plg[3][5] - 8e0 * plg[3][4]) / 3e0;
-
-    // set last used latitude ...
-    xl = in->glat;
   }
 
   const double tloc = in->lst;
-  if (std::abs(tll - tloc) > nearzero) {
-    if (std::abs(sw[6]) > 0e0 || std::abs(sw[7]) > 0e0 || std::abs(sw[13])) {
-      stloc = std::sin(hr * tloc);
-      ctloc = std::cos(hr * tloc);
-      s2tloc = std::sin(2e0 * hr * tloc);
-      c2tloc = std::cos(2e0 * hr * tloc);
-      s3tloc = std::sin(3e0 * hr * tloc);
-      c3tloc = std::cos(3e0 * hr * tloc);
-
-      // update last used tloc
-      tll = tloc;
-    }
+  if (std::abs(sw[6]) > 0e0 || std::abs(sw[7]) > 0e0 || std::abs(sw[13])) {
+    stloc = std::sin(hr * tloc);
+    ctloc = std::cos(hr * tloc);
+    s2tloc = std::sin(2e0 * hr * tloc);
+    c2tloc = std::cos(2e0 * hr * tloc);
+    s3tloc = std::sin(3e0 * hr * tloc);
+    c3tloc = std::cos(3e0 * hr * tloc);
   }
 
-  const bool doy_changed = last_doy - (int)in->doy != 0;
-  if (doy_changed || std::abs(p[13] - p14) > nearzero)
-    cd14 = std::cos(dr * (in->doy - p[13]));
-  if (doy_changed || std::abs(p[17] - p18) > nearzero)
-    cd18 = std::cos(2e0 * dr * (in->doy - p[17]));
-  if (doy_changed || std::abs(p[31] - p32) > nearzero)
-    cd32 = std::cos(dr * (in->doy - p[31]));
-  if (doy_changed || std::abs(p[38] - p39) > nearzero)
-    cd39 = std::cos(2e0 * dr * (in->doy - p[38]));
-
-  // update last doy used ...
-  last_doy = in->doy;
-
-  p14 = p[13];
-  p18 = p[17];
-  p32 = p[31];
-  p39 = p[38];
+  const double cd14 = std::cos(dr * (in->doy - p[13]));
+  const double cd18 = std::cos(2e0 * dr * (in->doy - p[17]));
+  const double cd32 = std::cos(dr * (in->doy - p[31]));
+  const double cd39 = std::cos(2e0 * dr * (in->doy - p[38]));
 
   // F10.7 effect
   const double df = in->f107 - in->f107A;
-- 
2.43.0


From d32ab1eb3717adba923deebe25526295efffbea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 42/53] fix: atmosphere model: gravity with latitude switch
 off, densities of gases not asked for, 450 km edge, uninitialised mixed
 density

---
 src/atmosphere/nrlmsise00_gtd7.cpp | 6 ++++--
 src/atmosphere/nrlmsise00_gts7.cpp | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/atmosphere/nrlmsise00_gtd7.cpp b/src/atmosphere/nrlmsise00_gtd7.cpp
index 4d855d8..75fc50d 100644
--- a/src/atmosphere/nrlmsise00_gtd7.cpp
+++ b/src/atmosphere/nrlmsise00_gtd7.cpp
@@ -20,7 +20,7 @@ int dso::Nrlmsise00::gtd7(const InParamsCore *in,
 
   // latitude variation of gravity (none for SW(2)=0)
   double xlat = in->glat;
-  if (std::abs(in->sw.sw[1]) < 0)
+  if (in->sw.sw[1] == 0e0)
     xlat = 45e0;
   re = glatf(xlat, gsurf);
 
@@ -86,6 +86,7 @@ int dso::Nrlmsise00::gtd7(const InParamsCore *in,
 
   double dmr, tz;
   if (mass == 0) {
+    std::memset(d, 0, sizeof(double) * 9);
     dd = densm(in->alt, 1e0, 0e0, tz);
     t[1] = tz;
   } else {
@@ -99,7 +100,7 @@ int dso::Nrlmsise00::gtd7(const InParamsCore *in,
     d[2] = densm(in->alt, dm28m, xmm, tz);
     d[2] *= (1e0 + dmr * dmc);
     // HE DENSITY
-    d[1] = 0e0;
+    d[0] = 0e0;
     if (mass == 4 || mass == 48) {
       dmr = ds[0] / (dz28 * pdm[0][1]) - 1e0;
       d[0] = d[2] * pdm[0][1] * (1e0 + dmr * dmc);
@@ -125,6 +126,7 @@ int dso::Nrlmsise00::gtd7(const InParamsCore *in,
     d[7] = 0e0;
 
     // TOTAL MASS DENSITY
+    d[5] = 0e0;
     if (mass == 48) {
       d[5] = 1.66e-24 * (4e0 * d[0] + 16e0 * d[1] + 28e0 * d[2] + 32e0 * d[3] +
                          40e0 * d[4] + d[6] + 14e0 * d[7]);
diff --git a/src/atmosphere/nrlmsise00_gts7.cpp b/src/atmosphere/nrlmsise00_gts7.cpp
index b1d723a..c7c24f4 100644
--- a/src/atmosphere/nrlmsise00_gts7.cpp
+++ b/src/atmosphere/nrlmsise00_gts7.cpp
@@ -107,7 +107,7 @@ int dso::Nrlmsise00::gts7(const InParamsCore *in,
     double tz = 0, zhm28 = 0, b28 = 0;
     double db01, db04, db14, db16, db28, db32, db40;
     if (goto_100) {
-      if (z < altl[5] || mass == 28 || mass == 48) {
+      if (z <= altl[5] || mass == 28 || mass == 48) {
         //
         //  **** N2 DENSITY ****
         //
@@ -124,6 +124,7 @@ int dso::Nrlmsise00::gts7(const InParamsCore *in,
         // mixed density at Zlb
         b28 = densu(zh28, db28, tinf, tlb, xmd, alpha[2] - 1e0, tz, ptm[5], s,
                     zn1);
+        dm28 = out->d[2];
         if (z <= altl[2] && std::abs(in->sw.sw[14]) > 0e0) {
           // mixed density at alt
           dm28 = densu(z, b28, tinf, tlb, xmm, alpha[2], tz, ptm[5], s, zn1);
-- 
2.43.0


From 78713cf67fcc6e06bd3d5fc14936e8d6e1c2a7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 43/53] fix: local solar time of the atmosphere inputs was
 never set

---
 src/atmosphere/nrlmsise00.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/atmosphere/nrlmsise00.hpp b/src/atmosphere/nrlmsise00.hpp
index 178f6c9..851df13 100644
--- a/src/atmosphere/nrlmsise00.hpp
+++ b/src/atmosphere/nrlmsise00.hpp
@@ -184,10 +184,10 @@ struct InParamsCore {
   int year;     // year, currently ignored
   int doy;      // day of year
   double sec;   // seconds in day (UT)
-  double alt;   // altitude in kilometers [km]
-  double glat;  // geodetic latitude [degrees]
-  double glon;  // geodetic longitude  [degrees]
-  double lst;   // local apparent solar time (hours), see note
+  double alt{0e0};  // altitude in kilometers [km]
+  double glat{0e0}; // geodetic latitude [degrees]
+  double glon{0e0}; // geodetic longitude  [degrees]
+  double lst{0e0};  // local apparent solar time (hours), see note
   double f107A; // 81 day average of F10.7 flux (centered on doy)
   double f107;  // daily F10.7 flux for previous day
   double ap;    // magnetic index(daily)
@@ -327,9 +327,15 @@ template <> struct InParams<detail::FluxDataFeedType::ST_CSV_SW> {
     params_.year = ydoy.__year.as_underlying_type();
     params_.doy = ydoy.__doy.as_underlying_type();
     params_.sec = t.sec().to_fractional_seconds();
+    update_lst();
     return feed_.update(params_);
   }
 
+  /// @brief Set the local solar time, consistent with UT and longitude
+  void update_lst() noexcept {
+    params_.lst = params_.sec / 3600e0 + params_.glon / 15e0;
+  }
+
   /// @brief Set parameter set spatial input data (longitude, latitude and 
   /// altitude) from a set of cartesian ECEF coordinates
   void
@@ -339,6 +345,7 @@ template <> struct InParams<detail::FluxDataFeedType::ST_CSV_SW> {
     params_.glon = dso::rad2deg(lfh(0)); // longitude in degrees
     params_.glat = dso::rad2deg(lfh(1)); // latitude in degrees
     params_.alt  = lfh(2) * 1e-3; // altitude in km
+    update_lst();
   }
 };
 
-- 
2.43.0


From d64aabbec01b3af56c8848b2c6847e61d8841808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:12 +0000
Subject: [PATCH 44/53] fix: atmosphere model below 32.5 km: temperature of the
 uppermost node was never set

---
 src/atmosphere/nrlmsise00_gtd7.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/atmosphere/nrlmsise00_gtd7.cpp b/src/atmosphere/nrlmsise00_gtd7.cpp
index 75fc50d..cdd613c 100644
--- a/src/atmosphere/nrlmsise00_gtd7.cpp
+++ b/src/atmosphere/nrlmsise00_gtd7.cpp
@@ -72,9 +72,10 @@ int dso::Nrlmsise00::gtd7(const InParamsCore *in,
   // Temperature at nodes and gradients at end nodes
   // Inverse temperature a linear function of spherical harmonics
   // Only calculate nodes if input changed
-  if (in->alt < zn3[0]) {
+  if (in->alt <= zn3[0]) {
     if (input_changed || altlast >= zn3[0]) {
       tgn3[0] = tgn2[1];
+      tn3[0] = tn2[3];
       tn3[1] = pma[3][0] * pavgm[3] / (1e0 - sw21 * glob7s(in, pma[3]));
       tn3[2] = pma[4][0] * pavgm[4] / (1e0 - sw21 * glob7s(in, pma[4]));
       tn3[3] = pma[5][0] * pavgm[5] / (1e0 - sw21 * glob7s(in, pma[5]));
-- 
2.43.0


From c11ed4dc336c0725a176ee204c8782e81a0252d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:47 +0000
Subject: [PATCH 45/53] fix: atmosphere model: atomic nitrogen was not computed
 when asked for alone

---
 src/atmosphere/nrlmsise00_gts7.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/atmosphere/nrlmsise00_gts7.cpp b/src/atmosphere/nrlmsise00_gts7.cpp
index c7c24f4..d4bf42b 100644
--- a/src/atmosphere/nrlmsise00_gts7.cpp
+++ b/src/atmosphere/nrlmsise00_gts7.cpp
@@ -331,7 +331,8 @@ int dso::Nrlmsise00::gts7(const InParamsCore *in,
       }
     }
 
-    if (j == 1 || j == 3 || j == 4 || j == 6 || j == 9 || j == 7 || j == 8) {
+    if (j == 1 || j == 3 || j == 4 || j == 6 || j == 9 || j == 7 || j == 8 ||
+        j == 10) {
 
       //
       // **** ATOMIC NITROGEN DENSITY ****
-- 
2.43.0


From 05f2ee649769486aa35115f71deb27344547e8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:30 +0000
Subject: [PATCH 46/53] fix: gravity partials of the variational equations were
 rotated the wrong way; status of the frame transformation

---
 src/variational_equations.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/variational_equations.cpp b/src/variational_equations.cpp
index d7fe823..b1b4c8d 100644
--- a/src/variational_equations.cpp
+++ b/src/variational_equations.cpp
@@ -25,7 +25,13 @@ void dso::VariationalEquations(
 #else
   Eigen::Matrix<double, 3, 3> rc2i, rpom;
   double era,xlod;
-  assert(!gcrs2itrs(cmjd, params.eopLUT, rc2i, era, rpom, xlod));
+  if (gcrs2itrs(cmjd, params.eopLUT, rc2i, era, rpom, xlod)) {
+    fprintf(stderr, "ERROR Failed to transform between celestial and "
+                    "terrestrial frame\n");
+    assert(false);
+    yPhiP.setConstant(std::numeric_limits<double>::quiet_NaN());
+    return;
+  }
   // const auto t2c = (rpom * rc2ti).transpose() ;
 #endif
   //{
@@ -71,8 +77,12 @@ void dso::VariationalEquations(
   //}
 #else
   gacc = rter2cel(gacc, rc2i, era, rpom);
-  const auto rc2ti = Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ()) * rc2i;
-  gpartials = (rpom * rc2ti) * gpartials * (rpom * rc2ti).transpose();
+  // celestial to terrestrial; partials are needed w.r.t the inertial position
+  const Eigen::Matrix<double, 3, 3> rc2t =
+      rpom *
+      (Eigen::AngleAxisd(era, -Eigen::Vector3d::UnitZ()).toRotationMatrix() *
+       rc2i);
+  gpartials = rc2t.transpose() * gpartials * rc2t;
   //for (int i=0; i<3; i++) {
   //  for (int j=0; j<3; j++) {
   //    printf(" %+.6f ",(rpom * rc2ti)(i,j));
-- 
2.43.0


From 7a0eb83fc1d9c6947ac12a7a581895766146ea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:30 +0000
Subject: [PATCH 47/53] fix: atmospheric density of the variational equations
 was looked up for the previous day

---
 src/variational_equations.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variational_equations.cpp b/src/variational_equations.cpp
index b1b4c8d..84b22b5 100644
--- a/src/variational_equations.cpp
+++ b/src/variational_equations.cpp
@@ -139,10 +139,10 @@ void dso::VariationalEquations(
     double utc_fday = std::modf(cmjd, &imjd);
     const int leap_sec = dso::dat(cmjd, eid);
     utc_fday -= leap_sec / (86400e0 + (double)eid);
-    if (utc_fday > 1e0) {
+    if (utc_fday >= 1e0) {
       utc_fday -= 1e0;
       ++imjd;
-    } else if (utc_fday < 1e0) {
+    } else if (utc_fday < 0e0) {
       utc_fday += 1e0;
       --imjd;
     }
-- 
2.43.0


From 465e55b2fa635cd1e8b736e26b3bb45b4f1d83fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:04 +0000
Subject: [PATCH 48/53] fix: atmospheric density of the variational equations:
 terrestrial position, gradient in the inertial frame, calls made inside
 assertions

---
 src/orbit_integration.hpp     |  4 ++-
 src/variational_equations.cpp | 64 ++++++++++++++---------------------
 2 files changed, 29 insertions(+), 39 deletions(-)

diff --git a/src/orbit_integration.hpp b/src/orbit_integration.hpp
index 8464980..e544156 100644
--- a/src/orbit_integration.hpp
+++ b/src/orbit_integration.hpp
@@ -52,7 +52,9 @@ struct IntegrationParameters {
         degree(degree_), order(order_) {
     assert(degree_ == harmonics_.degree());
     // gravitational parameters
-    assert(!dso::get_sun_moon_GM(pck_kernel, GMSun, GMMon));
+    [[maybe_unused]] const int gm_error =
+        dso::get_sun_moon_GM(pck_kernel, GMSun, GMMon);
+    assert(!gm_error);
   };
 
   ~IntegrationParameters() noexcept {
diff --git a/src/variational_equations.cpp b/src/variational_equations.cpp
index 84b22b5..6a66abb 100644
--- a/src/variational_equations.cpp
+++ b/src/variational_equations.cpp
@@ -3,6 +3,10 @@
 #include "astrodynamics.hpp"
 #include "geodesy/geodesy.hpp"
 #include "geodesy/units.hpp"
+#include <cassert>
+#include <cmath>
+#include <cstdio>
+#include <limits>
 
 constexpr const int Np = 1;
 
@@ -115,6 +119,8 @@ void dso::VariationalEquations(
   if (params.qhunt->get_at(cmjd, q)) {
     fprintf(stderr, "ERROR Failed to find quaternion for datetime\n");
     assert(false);
+    yPhiP.setConstant(std::numeric_limits<double>::quiet_NaN());
+    return;
   } else {
     // compute cross-section area
     constexpr const double omegav[] = {0e0, 0e0, iers2010::OmegaEarth};
@@ -146,45 +152,27 @@ void dso::VariationalEquations(
       utc_fday += 1e0;
       --imjd;
     }
-    assert(!params.AtmDataFeed->update_params(imjd, utc_fday*86400e0));
-    params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0));
-    dso::nrlmsise00::OutParams aout;
-    assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
-    const double atmdens = aout.d[5];
+    // density [kg/m^3] at given (inertial) position
+    int atm_error = params.AtmDataFeed->update_params(imjd, utc_fday*86400e0);
+    auto density_at = [&](const Eigen::Matrix<double, 3, 1> &pos) {
+      dso::nrlmsise00::OutParams aout;
+      params.AtmDataFeed->set_spatial_from_cartesian(
+          rcel2ter(pos, rc2i, era, rpom));
+      atm_error += params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout);
+      return aout.d[5];
+    };
+    // approximate arithmetic derivative w.r.t satellite (inertial) position
     Eigen::Matrix<double,3,1> drhodr;
-    { // approximate arithmetic derivative w.r.t satellite ECEF position
-      Eigen::Matrix<double,3,1> unitv = Eigen::Matrix<double,3,1>::Zero();
-      double p1,m1;
-      // w.r.t X component
-      unitv << 1e0, 0e0, 0e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
-      p1 = aout.d[5];
-      unitv << -1e0, 0e0, 0e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
-      m1 = aout.d[5];
-      drhodr(0) = ((p1-atmdens) + (atmdens-m1)) / 2e0;
-      // w.r.t Y component
-      unitv << 0e0, 1e0, 0e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
-      p1 = aout.d[5];
-      unitv << 0e0, -1e0, 0e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
-      m1 = aout.d[5];
-      drhodr(1) = ((p1-atmdens) + (atmdens-m1)) / 2e0;
-      // w.r.t Z component
-      unitv << 0e0, 0e0, 1e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
-      p1 = aout.d[5];
-      unitv << 0e0, 0e0, 1e0;
-      params.AtmDataFeed->set_spatial_from_cartesian(yPhi.block<3, 1>(0, 0) + unitv);
-      assert(!params.nrlmsise00->gtd7d(&(params.AtmDataFeed->params_), &aout));
-      m1 = aout.d[5];
-      drhodr(2) = ((p1-atmdens) + (atmdens-m1)) / 2e0;
+    for (int i=0; i<3; i++) {
+      const Eigen::Matrix<double,3,1> unitv = Eigen::Matrix<double,3,1>::Unit(i);
+      drhodr(i) = (density_at(r + unitv) - density_at(r - unitv)) / 2e0;
+    }
+    const double atmdens = density_at(r);
+    if (atm_error) {
+      fprintf(stderr, "ERROR Failed to compute atmospheric density\n");
+      assert(false);
+      yPhiP.setConstant(std::numeric_limits<double>::quiet_NaN());
+      return;
     }
   //  //printf("Note: Using drag coefficient=%.3f\n", params.get_drag_coefficient());
     //drag = dso::drag_accel(r, v, ProjArea, /*params.get_drag_coefficient()*/2e0,
-- 
2.43.0


From fa9d39b3c2714081f2838ed27e90612864356b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:06 +0000
Subject: [PATCH 49/53] fix: site logs whose block ends the file, block 4
 headers, and heights without decimals or in other units

---
 script/pydoris/pydoris/log/ids_log_parser.py | 22 +++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/script/pydoris/pydoris/log/ids_log_parser.py b/script/pydoris/pydoris/log/ids_log_parser.py
index 4ea5af1..3b39809 100755
--- a/script/pydoris/pydoris/log/ids_log_parser.py
+++ b/script/pydoris/pydoris/log/ids_log_parser.py
@@ -8,10 +8,10 @@ def parse_first_log_line(line):
     """ Expect a line of type:
       '    YELLOWKNIFE DORIS site description form'
     """
-    m = re.match(r"\s* [a-zA-Z_-]+ DORIS site description form\s*", line)
+    m = re.match(r"\s*([a-zA-Z_-]+) DORIS site description form\s*", line)
     if not m or len(m.groups()) != 1:
         errmsg = 'ERROR. Failed to match expected pattern in fist line \'{:}\''.format(
-            line.strip)
+            line.strip())
         raise RuntimeError(errmsg)
     return m.group(1)
 
@@ -21,7 +21,7 @@ IdsLogFileBlocks = {
     1: '1. Site location information',
     2: '2. DORIS antenna and reference point information',
     3: '3. DORIS beacons information',
-    4: '4. ITRF coordinates and velocities of the current DORIS ref. point (YEMB)',
+    4: '4. ITRF coordinates and velocities of the current DORIS ref. point',
     5: '5. IERS colocation information',
     6: '6. Tide Gauge colocation information',
     7: '7. Local site ties',
@@ -31,7 +31,7 @@ IdsLogFileBlocks = {
 
 def line_is_block_header(line):
     for k, v in IdsLogFileBlocks.items():
-        if re.match(r"{:}".format(v), line.strip()):
+        if line.strip().startswith(v):
             return k
     return None
 
@@ -53,7 +53,7 @@ class IdsLogFile:
         line = self.istream_.readline()
         line_matched = False
         while line:
-            if re.match(r"{:}".format(strpattern), line):
+            if line.startswith(strpattern):
                 line_matched = True
                 break
             line = self.istream_.readline()
@@ -68,7 +68,7 @@ class IdsLogFile:
             if len(line):
                 next_line_read = False
 
-                if re.match(r"{:}.[0-9]+\s*".format(block_nr), line):
+                if re.match(r"{:}\.[0-9]+\s*".format(block_nr), line):
                     # new dictionary/sub-header
                     if cdic:
                         ret.append(cdic)
@@ -95,8 +95,7 @@ class IdsLogFile:
                         cdic[l[0]] += ' ' + line.strip()
                         line = self.istream_.readline()
 
-                elif line_is_block_header(line):
-                    ret.append(cdic)
+                elif line_is_block_header(line) is not None:
                     break
 
                 if not next_line_read:
@@ -104,6 +103,8 @@ class IdsLogFile:
             else:
                 line = self.istream_.readline()
 
+        # the block ends at the next header, or at the end of the file
+        ret.append(cdic)
         return ret
 
     def parse_block_nr(self, block_nr):
@@ -121,11 +122,12 @@ def dump_log_antenna_info(logfn,fout=sys.stdout):
     for subblock in lofd:
         name = subblock["Four character ID"]
         height_str = subblock["Height above ground mark"]
-        m = re.match(r"([0-9]+.[0-9]+)?\s*m", height_str)
+        number = r"([+-]?[0-9]+\.?[0-9]*|[+-]?\.[0-9]+)?"
+        m = re.match(number + r"\s*m(?:\b|et)", height_str)
         ## Guard against the case where no explicit "m" (aka meters) character
         ## is present. Produce a warning though
         if not m:
-            m = re.match(r"([0-9]+.[0-9]+)?\s*", height_str)
+            m = re.match(number + r"\s*$", height_str)
             if not m:
                 errmsg = "ERROR. Failed to parse height from string \'{}\' (file {:})".format(height_str,logfn)
                 raise RuntimeError(errmsg)
-- 
2.43.0


From 79b7014601738ace6d8bbade9744157653eca09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:06 +0000
Subject: [PATCH 50/53] fix: C04 fetching looped forever or failed at bulletin
 edges and dropped or misordered months

---
 script/fetch_iers_c04.py | 35 +++++++++++++----------------------
 1 file changed, 13 insertions(+), 22 deletions(-)

diff --git a/script/fetch_iers_c04.py b/script/fetch_iers_c04.py
index cec061d..2275fa5 100755
--- a/script/fetch_iers_c04.py
+++ b/script/fetch_iers_c04.py
@@ -229,16 +229,7 @@ def c04_date_span(c04fn):
 ##                           {'t0':datetime_start, 't':datetime_stop}, ...
 ## to  a sorted list of filenames, base on the value 't0'
 def c04_dict_to_sorted_list(c04_dict):
-    lst = []
-    ct = datetime.datetime.max
-    for fn,vals in c04_dict.items():
-        if vals['t0'] < ct:
-            lst = [fn] + lst
-            ct = vals['t0']
-        else:
-            lst.append(fn)
-            if len(lst) == 1: ct = vals['t0']
-    return lst
+    return sorted(c04_dict, key=lambda fn: c04_dict[fn]['t0'])
 
 ## write out a list (of dicts) of IERS Bulletin B/C04 final data
 def c04_cat(outfn, *c04fns):
@@ -296,31 +287,29 @@ if __name__ == '__main__':
 
     # guess the number of the file
     dummy_it = 0
-    guess = bc04_nr0 + (t_start - bc04_first_date).days // 31
-    while not prior_covered or not post_covered and dummy_it < 1000:
+    guess = bc04_nr0 + max(0, (t_start - bc04_first_date).days // 31)
+    while not prior_covered or not post_covered:
 
         ## download remote file
         remote = bc04_url + '{:}'.format(guess)
         local  = os.path.basename(remote)
         data = requests.get(remote, allow_redirects=True)
-        open(local, 'wb').write(data.content)
+        data.raise_for_status()
+        with open(local, 'wb') as fout: fout.write(data.content)
         vprint('Downloaded file: {:}'.format(remote))
 
         ## get its time span
         d0,dn = c04_date_span(local)
         vprint('\tTime span: {:} to {:}'.format(d0, dn))
 
-        ## will we be needing it?
-        file_is_of_use = False
+        ## will we be needing it? check if it overlaps the requested interval
+        file_is_of_use = d0 <= t_end and t_start <= dn
 
-        ## check if it overlaps the requested interval
-        if not prior_covered and d0 < t_start and t_start < dn:
+        if d0 <= t_start and t_start <= dn:
             prior_covered = True
-            file_is_of_use = True
 
-        if not post_covered and d0 < t_end and t_end < dn:
+        if d0 <= t_end and t_end <= dn:
             post_covered = True
-            file_is_of_use = True
 
         ## if not to be used, remove local
         if file_is_of_use:
@@ -329,14 +318,16 @@ if __name__ == '__main__':
             os.remove(local)
 
         ## next guess
-        if d0 > t_start: guess -= 1
-        elif dn < t_end: guess += 1
+        if not prior_covered and d0 > t_start: guess -= 1
+        elif not post_covered and dn < t_end: guess += 1
         elif prior_covered and post_covered:
           pass
         else:
            raise RuntimeError('WTF??')
 
         dummy_it += 1
+        if dummy_it >= 1000:
+           raise RuntimeError('Failed to cover the requested interval')
 
     ## what file are we writing in?
     outfile = None if not args.save_as else args.save_as
-- 
2.43.0


From c0ab6b55b1ba3743c2391a9c16188722af43d329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:06 +0000
Subject: [PATCH 51/53] fix: a refused space weather download was stored as the
 file

---
 script/fetch_celestrak_space_weather_data_csv.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/script/fetch_celestrak_space_weather_data_csv.py b/script/fetch_celestrak_space_weather_data_csv.py
index c2753b3..d77e32f 100755
--- a/script/fetch_celestrak_space_weather_data_csv.py
+++ b/script/fetch_celestrak_space_weather_data_csv.py
@@ -65,6 +65,7 @@ if __name__ == '__main__':
     local = os.path.join(args.save_dir, local_fn)
 
     data = requests.get(remote, allow_redirects=True)
-    open(local, 'wb').write(data.content)
+    data.raise_for_status()
+    with open(local, 'wb') as fout: fout.write(data.content)
 
     sys.exit(0)
-- 
2.43.0


From cca3b8108af511041b490e9702d8261f4a0a10b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:06 +0000
Subject: [PATCH 52/53] fix: gfc conversion never ended on a file without
 end_of_head

---
 script/gfc_fortran2c.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/script/gfc_fortran2c.py b/script/gfc_fortran2c.py
index 6d51aec..abe5e8d 100755
--- a/script/gfc_fortran2c.py
+++ b/script/gfc_fortran2c.py
@@ -21,6 +21,9 @@ with open(sys.argv[1], encoding="utf8", errors='ignore') as fin:
   ## skip the header segment ...
   while True: 
     line = fin.readline()
+    if not line:
+      print('ERROR. No \'end_of_head\' found in {:}'.format(sys.argv[1]), file=sys.stderr)
+      sys.exit(1)
     print('{:}'.format(line.strip()))
     if line.lstrip().startswith('end_of_head'): break
   
-- 
2.43.0


From ae94e7663560bfea3e79b6d77de6f0c978c4aa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:03 +0000
Subject: [PATCH 53/53] fix: a configuration file that is not a map ended the
 program on a three-level lookup

---
 src/var_utils.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/var_utils.hpp b/src/var_utils.hpp
index 49775bc..2edbaa5 100644
--- a/src/var_utils.hpp
+++ b/src/var_utils.hpp
@@ -102,8 +102,14 @@ int get_yaml_value_depth2(const YAML::Node &root, const char *key1,
 template <typename T>
 int get_yaml_value_depth3(const YAML::Node &root, const char *key1,
                           const char *key2, const char *key3, T &val) {
-  const YAML::Node node = get_yaml_node(root, key1);
-  return get_yaml_value_depth2(node, key2, key3, val);
+  try {
+    const YAML::Node node = get_yaml_node(root, key1);
+    return get_yaml_value_depth2(node, key2, key3, val);
+  } catch (...) {
+    fprintf(stderr, "ERROR@%s Failed finding key %s::%s::%s\n", __func__,
+            key1, key2, key3);
+    return 1;
+  }
 }
 
 /// @brief Specialization of the template <typename T>::get_yaml_value_depth3
@@ -111,8 +117,14 @@ int get_yaml_value_depth3(const YAML::Node &root, const char *key1,
 inline
 int get_yaml_value_depth3(const YAML::Node &root, const char *key1,
                           const char *key2, const char *key3, char *buf) {
-  const YAML::Node node = get_yaml_node(root, key1);
-  return get_yaml_value_depth2(node, key2, key3, buf);
+  try {
+    const YAML::Node node = get_yaml_node(root, key1);
+    return get_yaml_value_depth2(node, key2, key3, buf);
+  } catch (...) {
+    fprintf(stderr, "ERROR@%s Failed finding key %s::%s::%s\n", __func__,
+            key1, key2, key3);
+    return 1;
+  }
 }
 
 // int get_CelesTrack_flux_data(
-- 
2.43.0

