From 5d9b2e41091753d11016d6cf3a5dfa659b07ec4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:07 +0000
Subject: [PATCH 01/93] fix: bitset::set() must set every member of the set

---
 src/sets.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/sets.cpp b/src/sets.cpp
index 758630b..0f4a483 100644
--- a/src/sets.cpp
+++ b/src/sets.cpp
@@ -94,12 +94,10 @@ namespace susa
 
   void bitset::set()
   {
-    for (unsigned int index = 0; index < nbytes; index++)
-    {
-      unsigned int byte = index / 8;
-      unsigned int bit  = index % 8;
-      this->_matrix[byte] |= (0x01 << bit);
-    }
+    for (size_t indx = 0; indx < nbytes; indx++) this->_matrix[indx] = 0xFF;
+
+    // The bits beyond the set size are not members.
+    if (uint_set_size % 8) this->_matrix[nbytes - 1] = (0x01 << (uint_set_size % 8)) - 1;
   }
 
   void bitset::reset()
-- 
2.43.0


From ec059c2d0f3a61fb7054735389b6dcbb0b5b23a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:34 +0000
Subject: [PATCH 02/93] fix: matrix self assignment and copies of an empty
 matrix

---
 inc/susa/matrix.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index f9df673..b48abaa 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -443,7 +443,7 @@ matrix <T, Allocator>::matrix(const matrix <T, Allocator> &mat_arg)
     this->sizet_cols      = mat_arg.sizet_cols;
     this->sizet_objects   = mat_arg.sizet_objects;
 
-    if (allocate(sizet_objects))
+    if (sizet_objects != 0 && allocate(sizet_objects))
     {
         std::memcpy(_matrix, mat_arg._matrix, sizet_objects * sizeof(T));
     }
@@ -1292,6 +1292,8 @@ template <typename T, typename Allocator> matrix<T, Allocator> matrix <T, Alloca
 //  =
 template <typename T, typename Allocator> matrix<T, Allocator>& matrix <T, Allocator>::operator=( const matrix <T, Allocator> &mat_arg )
 {
+    if (this == &mat_arg) return *this;
+
     if (sizet_objects != 0 && _matrix != nullptr)
     {
         alloc.deallocate(_matrix, sizet_objects);
@@ -1302,7 +1304,7 @@ template <typename T, typename Allocator> matrix<T, Allocator>& matrix <T, Alloc
     sizet_cols      = mat_arg.sizet_cols;
     sizet_objects   = sizet_rows * sizet_cols;
 
-    if (allocate(sizet_objects))
+    if (sizet_objects != 0 && allocate(sizet_objects))
     {
         std::memcpy(_matrix, mat_arg._matrix, sizet_objects * sizeof(T));
     }
-- 
2.43.0


From 7162cef9c8af98f05e8767c5119d5324bb49978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:11 +0000
Subject: [PATCH 03/93] fix: text without spare characters inside brackets
 parsed with extra columns

---
 src/matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index b71843d..8de3fb8 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -101,8 +101,8 @@ void pre_parser(std::string& str_string)
     }
 
     // (4) shrink the string to its real size (delete extra 0x20 that was created in the loop above)
-    if (str_string[int_counter - 1] == 0x20) str_string.erase(int_counter - 1, int_length - 1);
-    else str_string.erase(int_counter,int_length - 1);
+    if (int_counter > 0 && str_string[int_counter - 1] == 0x20) int_counter--;
+    str_string.erase(int_counter);
 }
 
 }      // NAMESPACE SUSA
-- 
2.43.0


From 1afb5f137ad20b345f04d3f6a415c827a16803d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 04/93] fix: a moved-from matrix is left empty and usable

---
 inc/susa/matrix.h | 41 ++++++++++++++++++++++-------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index b48abaa..e43b810 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -90,7 +90,7 @@ template <typename T, typename Allocator = std::allocator <T>> class matrix
     size_t          sizet_rows;
     size_t          sizet_cols;
     size_t          sizet_objects;
-    T*              T_default;
+    T               T_default;
     Allocator       alloc;
     T*              _matrix;
 
@@ -392,7 +392,7 @@ template <typename T, typename Allocator> matrix <T, Allocator>::matrix()
 : sizet_rows(0)
 , sizet_cols(0)
 , sizet_objects(0)
-, T_default(new T)
+, T_default()
 , alloc()
 , _matrix(nullptr)
 {
@@ -401,7 +401,7 @@ template <typename T, typename Allocator> matrix <T, Allocator>::matrix()
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix(size_t sizet_rows, size_t sizet_cols, T Tinitial)
-: T_default(new T)
+: T_default()
 , alloc()
 , _matrix(nullptr)
 {
@@ -422,7 +422,7 @@ matrix <T, Allocator>::matrix(size_t sizet_rows, size_t sizet_cols, T Tinitial)
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix( size_t sizet_rows, size_t sizet_cols )
-: T_default(new T)
+: T_default()
 , alloc()
 , _matrix(nullptr)
 {
@@ -435,7 +435,7 @@ matrix <T, Allocator>::matrix( size_t sizet_rows, size_t sizet_cols )
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix(const matrix <T, Allocator> &mat_arg)
-: T_default(new T)
+: T_default()
 , alloc(mat_arg.alloc)
 , _matrix(nullptr)
 {
@@ -451,7 +451,7 @@ matrix <T, Allocator>::matrix(const matrix <T, Allocator> &mat_arg)
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix(const std::tuple<size_t, size_t>& tshape)
-: T_default(new T)
+: T_default()
 , _matrix(nullptr)
 {
     size_t sizet_rows;
@@ -467,7 +467,7 @@ matrix <T, Allocator>::matrix(const std::tuple<size_t, size_t>& tshape)
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix(const std::tuple<size_t, size_t>& tshape, T Tinitial)
-: T_default(new T)
+: T_default()
 , _matrix(nullptr)
 {
     size_t sizet_rows;
@@ -489,15 +489,17 @@ matrix <T, Allocator>::matrix(const std::tuple<size_t, size_t>& tshape, T Tiniti
 
 template <typename T, typename Allocator>
 matrix <T, Allocator>::matrix(matrix<T, Allocator>&& mat_arg) noexcept
+: T_default()
+, alloc(std::move(mat_arg.alloc))
 {
-    sizet_rows          = mat_arg.sizet_rows;
-    sizet_cols          = mat_arg.sizet_cols;
-    sizet_objects       = mat_arg.sizet_objects;
-    T_default              = mat_arg.T_default;
-    T_default              = mat_arg.T_default;
-    _matrix             = mat_arg._matrix;
-    mat_arg.T_default      = nullptr;
-    mat_arg._matrix     = nullptr;
+    sizet_rows            = mat_arg.sizet_rows;
+    sizet_cols            = mat_arg.sizet_cols;
+    sizet_objects         = mat_arg.sizet_objects;
+    _matrix               = mat_arg._matrix;
+    mat_arg._matrix       = nullptr;
+    mat_arg.sizet_rows    = 0;
+    mat_arg.sizet_cols    = 0;
+    mat_arg.sizet_objects = 0;
 }
 
 
@@ -505,7 +507,7 @@ template <typename T, typename Allocator> matrix <T, Allocator>::matrix(std::str
 : sizet_rows(0)
 , sizet_cols(0)
 , sizet_objects(0)
-, T_default(new T)
+, T_default()
 , alloc()
 , _matrix(nullptr)
 {
@@ -514,7 +516,6 @@ template <typename T, typename Allocator> matrix <T, Allocator>::matrix(std::str
 
 template <typename T, typename Allocator> matrix <T, Allocator>::~matrix() noexcept
 {
-    if (T_default != nullptr) delete T_default;
     if (_matrix != nullptr) alloc.deallocate(_matrix, sizet_objects);
 }
 
@@ -901,7 +902,8 @@ template <typename T, typename Allocator> T &matrix<T, Allocator>::operator ()(
       return this->_matrix[get_lindex(sizet_row,sizet_col)];
   }
 
-  return *T_default;
+  T_default = T();
+  return T_default;
 }
 
 template <typename T, typename Allocator> T matrix<T, Allocator>::operator ()( size_t sizet_row, size_t sizet_col ) const
@@ -921,7 +923,8 @@ template <typename T, typename Allocator> T &matrix<T, Allocator>::operator ()(
       return _matrix[sizet_elem];
     }
 
-    return *T_default;
+    T_default = T();
+    return T_default;
 }
 
 template <typename T, typename Allocator> T matrix<T, Allocator>::operator ()( size_t sizet_elem ) const
-- 
2.43.0


From 6302784eddbf36d61fb99b497e5121eb16539df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:53 +0000
Subject: [PATCH 05/93] fix: reject text whose rows have different lengths even
 if the total divides

---
 inc/susa/matrix.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index e43b810..b7cd9af 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -1380,6 +1380,9 @@ bool matrix <T, Allocator>::parser(std::string str_string)
     size_t sizet_size  = 0;                     // linear size of the matrix (#rows * #columns)
     size_t sizet_cols_ = 0;                     // number of columns
     size_t sizet_rows_ = 0;                     // number of rows
+    size_t sizet_row_cols   = 1;                // number of columns in the current row
+    size_t sizet_first_cols = 0;                // number of columns in the first row
+    bool   bool_equal       = true;             // all the rows have the same number of columns
     int int_length     = str_string.length();   // length of the input string
 
 
@@ -1390,6 +1393,9 @@ bool matrix <T, Allocator>::parser(std::string str_string)
         {
         case ';':
             sizet_rows_++;
+            if (sizet_first_cols == 0) sizet_first_cols = sizet_row_cols;
+            bool_equal     = bool_equal && (sizet_row_cols == sizet_first_cols);
+            sizet_row_cols = 1;
             // since the number of rows are counted by number of space and the
             // spaces around ';' are cut, we also count a column here !
             sizet_cols_++;
@@ -1401,6 +1407,7 @@ bool matrix <T, Allocator>::parser(std::string str_string)
 
         case 0x20:
             sizet_cols_++;
+            sizet_row_cols++;
             break;
 
         default:
@@ -1411,10 +1418,11 @@ bool matrix <T, Allocator>::parser(std::string str_string)
     sizet_cols_++;
     sizet_rows_++;
     sizet_size = sizet_cols_ * sizet_rows_;
+    if (sizet_first_cols != 0) bool_equal = bool_equal && (sizet_row_cols == sizet_first_cols);
+
+    SUSA_ASSERT_MESSAGE(bool_equal, "the number of columns are not equal in each row.");
+    if (!bool_equal) return false;
 
-    SUSA_ASSERT_MESSAGE(sizet_cols_ % sizet_rows_ == 0, "the number of columns are not equal in each row.");
-    if (sizet_cols_ % sizet_rows_ != 0) return false;
-    
 
     if (sizet_size == 0)
     {
-- 
2.43.0


From 6a47138896c80c849eb92aba799415ee8c184439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 06/93] fix: parse rows longer than 4095 characters, empty text
 and failed allocation safely

---
 inc/susa/matrix.h | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index b7cd9af..619f98f 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -1424,13 +1424,13 @@ bool matrix <T, Allocator>::parser(std::string str_string)
     if (!bool_equal) return false;
 
 
-    if (sizet_size == 0)
+    if (int_length == 0)
     {
+        if (_matrix != nullptr) alloc.deallocate(_matrix, sizet_objects);
+        _matrix = nullptr;
         sizet_rows      = 0;
         sizet_cols      = 0;
         sizet_objects   = 0;
-        if (_matrix != nullptr) alloc.deallocate(_matrix, sizet_size);
-        _matrix = nullptr;
         return false;
     }
 
@@ -1449,26 +1449,25 @@ bool matrix <T, Allocator>::parser(std::string str_string)
             sizet_objects   = 0;
         }
 
-        if (allocate(sizet_size))
-        {
-            sizet_objects = sizet_size;
-        }
+        if (!allocate(sizet_size)) return false;
+        sizet_objects = sizet_size;
     }
 
 
     std::stringstream ss_all(str_string);
-    char char_buff[MAX_STR_LEN];
+    std::string str_row;
+    std::string str_elem;
 
     std::conditional_t<std::is_same_v<T, uint8_t> || std::is_same_v<T, int8_t>, int, T> T_tmp;
 
     for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
     {
-        ss_all.getline(char_buff, MAX_STR_LEN, ';');
-        std::stringstream ssrow(char_buff);
+        std::getline(ss_all, str_row, ';');
+        std::stringstream ssrow(str_row);
         for (size_t sizet_col = 0; sizet_col < sizet_cols; sizet_col++)
         {
-            ssrow.getline(char_buff, MAX_STR_LEN, 0x20);
-            if (!(std::istringstream(char_buff) >> T_tmp))
+            std::getline(ssrow, str_elem, (char)0x20);
+            if (!(std::istringstream(str_elem) >> T_tmp))
             {
                 SUSA_LOG_ERR("std::istringstream failed to parse the string");
                 T_tmp = 0;
-- 
2.43.0


From cbb1d9df90f6fa6dd60c524d10ad766e2f8569fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:36 +0000
Subject: [PATCH 07/93] fix: right() of a vector started one element too early

---
 inc/susa/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 619f98f..2eb69b1 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -827,7 +827,7 @@ matrix <T, Allocator> matrix <T, Allocator>::right(size_t sizet_right) const
         if (sizet_rows == 1) mat_ret = matrix <T, Allocator> (1,sizet_right);
         else if (sizet_cols == 1) mat_ret = matrix <T, Allocator> (sizet_right,1);
 
-        size_t sz_start  = sizet_objects - sizet_right - 1;
+        size_t sz_start  = sizet_objects - sizet_right;
         T*     _r_matrix = &_matrix[sz_start];
         for (size_t sizet_i = 0; sizet_i < sizet_right; sizet_i++)
         {
-- 
2.43.0


From 2f81b30a1990e31449b717bafb3abe17e36741c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:36 +0000
Subject: [PATCH 08/93] fix: elementwise operators write through null when
 their result cannot be allocated

---
 inc/susa/matrix.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 2eb69b1..0399948 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -1066,7 +1066,7 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator+(const m
 {
 
     matrix <T, Allocator> mat_ret(mat_argl.sizet_rows, mat_argl.sizet_cols);
-    size_t sizet_size = mat_argl.sizet_rows * mat_argl.sizet_cols;
+    size_t sizet_size = mat_ret._matrix == nullptr ? 0 : mat_argl.sizet_objects;
 
     SUSA_ASSERT_MESSAGE((mat_argl.sizet_rows == mat_argr.sizet_rows)
       && (mat_argl.sizet_cols == mat_argr.sizet_cols),
@@ -1087,7 +1087,7 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator+( const
 {
 
     matrix <T, Allocator> mat_ret(mat_argl.shape());
-    size_t sizet_size = mat_argl.sizet_objects;
+    size_t sizet_size = mat_ret._matrix == nullptr ? 0 : mat_argl.sizet_objects;
 
     for ( size_t sizet_index = 0; sizet_index < sizet_size; sizet_index++ )
     {
@@ -1101,7 +1101,7 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator+( T T_ar
 {
 
     matrix <T, Allocator> mat_ret(mat_argr.shape());
-    size_t sizet_size = mat_argr.sizet_objects;
+    size_t sizet_size = mat_ret._matrix == nullptr ? 0 : mat_argr.sizet_objects;
 
     for ( size_t sizet_index = 0; sizet_index < sizet_size; sizet_index++ )
     {
@@ -1118,7 +1118,7 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator-( const
 {
 
     matrix <T, Allocator> mat_ret(mat_argl.shape());
-    size_t sizet_size = mat_argl.sizet_objects;
+    size_t sizet_size = mat_ret._matrix == nullptr ? 0 : mat_argl.sizet_objects;
 
     SUSA_ASSERT_MESSAGE((mat_argl.sizet_rows == mat_argr.sizet_rows)
       && (mat_argl.sizet_cols == mat_argr.sizet_cols),
@@ -1139,7 +1139,7 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator-( const
 {
 
     matrix <T, Allocator> mat_ret(mat_argl.shape());
-    size_t sizet_size = mat_argl.sizet_objects;
+    size_t sizet_size = mat_ret._matrix == nullptr ? 0 : mat_argl.sizet_objects;
 
     for ( size_t sizet_index = 0; sizet_index < sizet_size; sizet_index++ )
     {
@@ -1153,7 +1153,7 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator-( T T_ar
 {
 
     matrix <T, Allocator> mat_ret(mat_argr.shape());
-    size_t sizet_size = mat_argr.sizet_objects;
+    size_t sizet_size = mat_ret._matrix == nullptr ? 0 : mat_argr.sizet_objects;
 
     for ( size_t sizet_index = 0; sizet_index < sizet_size; sizet_index++ )
     {
@@ -1168,7 +1168,7 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator*( const
 {
 
     matrix <T, Allocator> mat_ret(mat_argl.shape());
-    size_t sizet_size = mat_argl.sizet_objects;
+    size_t sizet_size = mat_ret._matrix == nullptr ? 0 : mat_argl.sizet_objects;
 
     SUSA_ASSERT_MESSAGE((mat_argl.sizet_rows == mat_argr.sizet_rows)
       && (mat_argl.sizet_cols == mat_argr.sizet_cols),
@@ -1189,7 +1189,7 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator*( const
 {
 
     matrix <T, Allocator> mat_ret(mat_argl.shape());
-    size_t sizet_size = mat_argl.sizet_objects;
+    size_t sizet_size = mat_ret._matrix == nullptr ? 0 : mat_argl.sizet_objects;
 
     for ( size_t sizet_index = 0; sizet_index < sizet_size; sizet_index++ )
     {
@@ -1203,7 +1203,7 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator*( T T_ar
 {
 
     matrix <T, Allocator> mat_ret(mat_argr.shape());
-    size_t sizet_size = mat_argr.sizet_objects;
+    size_t sizet_size = mat_ret._matrix == nullptr ? 0 : mat_argr.sizet_objects;
 
     for ( size_t sizet_index = 0; sizet_index < sizet_size; sizet_index++ )
     {
@@ -1218,7 +1218,7 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator/( const
 {
 
     matrix <T, Allocator> mat_ret(mat_argl.shape());
-    size_t sizet_size = mat_argl.sizet_objects;
+    size_t sizet_size = mat_ret._matrix == nullptr ? 0 : mat_argl.sizet_objects;
 
     SUSA_ASSERT_MESSAGE((mat_argl.sizet_rows == mat_argr.sizet_rows)
       && (mat_argl.sizet_cols == mat_argr.sizet_cols),
@@ -1239,7 +1239,7 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator/( const
 {
 
     matrix <T, Allocator> mat_ret(mat_argl.shape());
-    size_t sizet_size = mat_argl.sizet_objects;
+    size_t sizet_size = mat_ret._matrix == nullptr ? 0 : mat_argl.sizet_objects;
 
     for ( size_t sizet_index = 0; sizet_index < sizet_size; sizet_index++ )
     {
-- 
2.43.0


From 876e22a604b98be80732d192337f740b63db8798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:36 +0000
Subject: [PATCH 09/93] fix: keep out-of-range accesses inside the matrix

---
 inc/susa/matrix.h | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 0399948..f548cbd 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -527,6 +527,8 @@ template <typename T, typename Allocator> T matrix <T, Allocator>::get( size_t s
 
   SUSA_ASSERT_MESSAGE(sizet_row < sizet_rows && sizet_col < sizet_cols, "one or more indices is/are out of range.");
 
+  if (_matrix == nullptr || sizet_row >= sizet_rows || sizet_col >= sizet_cols) return T();
+
   return _matrix[get_lindex(sizet_row,sizet_col)];
 }
 
@@ -536,6 +538,8 @@ template <typename T, typename Allocator> T matrix <T, Allocator>::get( size_t s
 
   SUSA_ASSERT_MESSAGE(sizet_elem < this->sizet_objects, "the element index is out of range.");
 
+  if (_matrix == nullptr || sizet_elem >= this->sizet_objects) return T();
+
   return this->_matrix[sizet_elem];
 }
 
@@ -620,8 +624,8 @@ template <typename T, typename Allocator> size_t matrix <T, Allocator>::size() c
 
 template <typename T, typename Allocator> bool matrix <T, Allocator>::set_row(size_t row, const matrix <T, Allocator>& mat_arg)
 {
-    SUSA_ASSERT_MESSAGE((row < sizet_rows || mat_arg.sizet_objects >= sizet_cols), "dimention mismatch");
-    if (row > sizet_rows || mat_arg.sizet_objects < sizet_cols) return false;
+    SUSA_ASSERT_MESSAGE((row < sizet_rows && mat_arg.sizet_objects >= sizet_cols), "dimention mismatch");
+    if (row >= sizet_rows || mat_arg.sizet_objects < sizet_cols) return false;
 
     for (size_t indx = 0; indx < sizet_cols; indx++)
     {
@@ -633,8 +637,8 @@ template <typename T, typename Allocator> bool matrix <T, Allocator>::set_row(si
 
 template <typename T, typename Allocator> bool matrix <T, Allocator>::set_col(size_t col, const matrix <T, Allocator>& mat_arg)
 {
-    SUSA_ASSERT_MESSAGE((col < sizet_cols || mat_arg.sizet_objects >= sizet_rows), "dimension mismatch");
-    if (col > sizet_cols || mat_arg.sizet_objects < sizet_rows) return false;
+    SUSA_ASSERT_MESSAGE((col < sizet_cols && mat_arg.sizet_objects >= sizet_rows), "dimension mismatch");
+    if (col >= sizet_cols || mat_arg.sizet_objects < sizet_rows) return false;
 
     for (size_t indx = 0; indx < sizet_rows; indx++)
     {
@@ -670,6 +674,9 @@ template <typename T, typename Allocator> void matrix <T, Allocator>::swap_cols(
 {
     T T_tmp;
 
+    SUSA_ASSERT_MESSAGE(col_a < sizet_cols && col_b < sizet_cols, "the column index is out of range.");
+    if (col_a >= sizet_cols || col_b >= sizet_cols) return;
+
     for (size_t row = 0; row < sizet_rows; row++)
     {
         T_tmp = this->_matrix[get_lindex(row,col_a)];
@@ -683,6 +690,9 @@ template <typename T, typename Allocator> void matrix <T, Allocator>::swap_rows(
 {
     T T_tmp;
 
+    SUSA_ASSERT_MESSAGE(row_a < sizet_rows && row_b < sizet_rows, "the row index is out of range.");
+    if (row_a >= sizet_rows || row_b >= sizet_rows) return;
+
     for (size_t col = 0; col < sizet_cols; col++)
     {
         T_tmp = this->_matrix[get_lindex(row_a,col)];
@@ -791,6 +801,7 @@ matrix <T, Allocator> matrix <T, Allocator>::left(size_t sizet_left) const
     if (is_vector())
     {
         SUSA_ASSERT(sizet_objects >= sizet_left);
+        if (sizet_objects < sizet_left) return mat_ret;
 
         if (sizet_rows == 1) mat_ret = matrix <T, Allocator> (1,sizet_left);
         else if (sizet_cols == 1) mat_ret = matrix <T, Allocator> (sizet_left,1);
@@ -802,6 +813,9 @@ matrix <T, Allocator> matrix <T, Allocator>::left(size_t sizet_left) const
     }
     else
     {
+        SUSA_ASSERT(sizet_cols >= sizet_left);
+        if (sizet_cols < sizet_left) return mat_ret;
+
         mat_ret = matrix <T, Allocator> (sizet_rows,sizet_left);
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
             for (size_t sizet_col = 0; sizet_col < sizet_cols && sizet_col < sizet_left; sizet_col++)
@@ -823,6 +837,7 @@ matrix <T, Allocator> matrix <T, Allocator>::right(size_t sizet_right) const
     if (is_vector())
     {
         SUSA_ASSERT(sizet_objects >= sizet_right);
+        if (sizet_objects < sizet_right) return mat_ret;
 
         if (sizet_rows == 1) mat_ret = matrix <T, Allocator> (1,sizet_right);
         else if (sizet_cols == 1) mat_ret = matrix <T, Allocator> (sizet_right,1);
@@ -836,6 +851,9 @@ matrix <T, Allocator> matrix <T, Allocator>::right(size_t sizet_right) const
     }
     else
     {
+        SUSA_ASSERT(sizet_cols >= sizet_right);
+        if (sizet_cols < sizet_right) return mat_ret;
+
         size_t sz_start = sizet_cols - sizet_right;
         mat_ret = matrix <T, Allocator> (sizet_rows, sizet_right);
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
@@ -862,7 +880,7 @@ matrix <T, Allocator> matrix <T, Allocator>::mid(size_t sizet_begin, size_t size
     if (is_vector())
     {
         SUSA_ASSERT(sizet_objects > sizet_begin && sizet_objects > sizet_end);
-        if (sizet_begin > sizet_objects || sizet_end > sizet_objects) return mat_ret;
+        if (sizet_begin >= sizet_objects || sizet_end >= sizet_objects) return mat_ret;
 
         if (sizet_rows == 1) mat_ret = matrix <T, Allocator> (1,sz_width);
         else if (sizet_cols == 1) mat_ret = matrix <T, Allocator> (sz_width,1);
@@ -876,7 +894,7 @@ matrix <T, Allocator> matrix <T, Allocator>::mid(size_t sizet_begin, size_t size
     else
     {
         SUSA_ASSERT(sizet_cols > sizet_begin && sizet_cols > sizet_end);
-        if (sizet_begin > sizet_cols || sizet_end > sizet_cols) return mat_ret;
+        if (sizet_begin >= sizet_cols || sizet_end >= sizet_cols) return mat_ret;
 
         mat_ret = matrix <T, Allocator> (sizet_rows, sz_width);
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
-- 
2.43.0


From bcd7af862bc29a34dfca66ebdb12a6ae6be662ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:06 +0000
Subject: [PATCH 10/93] fix: reshape() returned unspecified contents when its
 copy could not be allocated

---
 inc/susa/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index f548cbd..42ae208 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -761,7 +761,7 @@ matrix <T, Allocator> matrix <T, Allocator>::reshape(size_t sizet_rows, size_t s
     matrix <T, Allocator> mat_ret;
     if ((sizet_rows * sizet_cols) != sizet_objects) return mat_ret;
     mat_ret = *this;
-    mat_ret.resize(sizet_rows, sizet_cols);
+    if (mat_ret._matrix != nullptr) mat_ret.resize(sizet_rows, sizet_cols);
     return mat_ret;
 }
 
-- 
2.43.0


From 848935174cb58a7f7347dd7d8729e3c23cc69793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:21 +0000
Subject: [PATCH 11/93] fix: constructor from text leaked its storage when
 parsing ran out of memory

---
 inc/susa/matrix.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 42ae208..fc209eb 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -504,12 +504,7 @@ matrix <T, Allocator>::matrix(matrix<T, Allocator>&& mat_arg) noexcept
 
 
 template <typename T, typename Allocator> matrix <T, Allocator>::matrix(std::string str_string)
-: sizet_rows(0)
-, sizet_cols(0)
-, sizet_objects(0)
-, T_default()
-, alloc()
-, _matrix(nullptr)
+: matrix()
 {
   parser(str_string);
 }
-- 
2.43.0


From d159b5971ad72cd2b5b66e0d956ca140d5f196a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:41 +0000
Subject: [PATCH 12/93] fix: matmul() wrote through null when its result cannot
 be allocated

---
 inc/susa/linalg.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index 66f9072..d6d13da 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -60,6 +60,8 @@ matrix <T, Allocator> matmul(const matrix <T, Allocator> &mat_argl, const matrix
     if (mat_argl.no_cols() == mat_argr.no_rows())
     {
         mat_ret = matrix <T, Allocator> (sizet_rows, sizet_cols, 0);
+        if (mat_ret._matrix == nullptr) return mat_ret;
+
         for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
         {
             for (size_t sizet_col = 0; sizet_col < sizet_cols; sizet_col++)
-- 
2.43.0


From 472d3648a176844a95a5e4b1dafceb5e8d79433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:41 +0000
Subject: [PATCH 13/93] fix: concat() of matrices with different numbers of
 columns overwrote the left one

---
 inc/susa/linalg.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index d6d13da..26eedd2 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -246,7 +246,7 @@ matrix <T, Allocator> concat(const matrix <T, Allocator> &mat_argl, const matrix
         {
             for (size_t sizet_col = 0; sizet_col < mat_argr.no_cols(); sizet_col++)
             {
-                mat_ret(sizet_row,mat_argr.no_cols() + sizet_col) = mat_argr(sizet_row,sizet_col);
+                mat_ret(sizet_row,mat_argl.no_cols() + sizet_col) = mat_argr(sizet_row,sizet_col);
             }
         }
     }
-- 
2.43.0


From 7b20eff0549fe022b6ad027e53677749b0f651f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:41 +0000
Subject: [PATCH 14/93] fix: hermitian() could not be instantiated

---
 inc/susa/linalg.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index 26eedd2..1ed5b93 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -125,12 +125,12 @@ matrix <std::complex<T>, Allocator> hermitian(const matrix <std::complex<T>, All
 {
     size_t sizet_rows = mat_arg.no_rows();
     size_t sizet_cols = mat_arg.no_cols();
-    matrix <T, Allocator> mat_ret;
+    matrix <std::complex<T>, Allocator> mat_ret;
 
-    SUSA_ASSERT(mat_arg._matrix != nullptr);
-    if (mat_arg._matrix == nullptr) return mat_ret;
+    SUSA_ASSERT(mat_arg.size() != 0);
+    if (mat_arg.size() == 0) return mat_ret;
 
-    mat_ret = matrix <T, Allocator> (sizet_cols, sizet_rows);
+    mat_ret = matrix <std::complex<T>, Allocator> (sizet_cols, sizet_rows);
 
     for (size_t sizet_col = 0; sizet_col < sizet_cols; sizet_col++)
     {
-- 
2.43.0


From fcce249728490f3781f64d0a0a0acdf7d848751f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:44 +0000
Subject: [PATCH 15/93] fix: radix2() never returned for an empty input with
 assertions disabled

---
 inc/susa/fft.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/susa/fft.h b/inc/susa/fft.h
index 50ca562..eec889c 100644
--- a/inc/susa/fft.h
+++ b/inc/susa/fft.h
@@ -108,6 +108,8 @@ class fft <T, Allocator, typename std::enable_if_t<std::is_floating_point<T>::va
     {
         size_t          size        = mat_arg.size();
         SUSA_ASSERT(is_power_of_two(size));
+        if (!is_power_of_two(size)) return matrix <std::complex<T>, complex_allocator> ();
+
         size_t          sz_stage    = susa::log2(size);
         matrix <std::complex<T>, complex_allocator> mat_brev = convert_to_complex(mat_arg);
 
-- 
2.43.0


From a2aeb66ef0d6159bc3e98614723c20be362da5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:27 +0000
Subject: [PATCH 16/93] fix: blanks inside and after brackets of a row added
 elements to the text of a matrix

---
 src/matrix.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index 8de3fb8..3124734 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -55,9 +55,9 @@ void pre_parser(std::string& str_string)
         }
     }
 
-    // (1) Replace tabs and "," with spaces
+    // (1) Replace tabs, "," and brackets with spaces
     for (int int_i = 0; int_i < int_length; int_i++)
-        if (str_string[int_i] == 0x09 || str_string[int_i] == ',')
+        if (str_string[int_i] == 0x09 || str_string[int_i] == ',' || str_string[int_i] == '[' || str_string[int_i] == ']')
             str_string[int_i] = 0x20;
 
     // (2) Remove spaces (0x20) after ';'
-- 
2.43.0


From f4372ee1de5d555c116c3122bcca9d927e86fb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:32 +0000
Subject: [PATCH 17/93] fix: reject text with an empty row instead of inventing
 a zero for it

---
 inc/susa/matrix.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index fc209eb..34af68d 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -1408,6 +1408,8 @@ bool matrix <T, Allocator>::parser(std::string str_string)
             sizet_rows_++;
             if (sizet_first_cols == 0) sizet_first_cols = sizet_row_cols;
             bool_equal     = bool_equal && (sizet_row_cols == sizet_first_cols);
+            // an empty row has no element
+            bool_equal     = bool_equal && int_i > 0 && str_string[int_i - 1] != ';' && int_i + 1 < int_length;
             sizet_row_cols = 1;
             // since the number of rows are counted by number of space and the
             // spaces around ';' are cut, we also count a column here !
-- 
2.43.0


From ad971d3b86b7474eb0d2fb74f5f8b7d7a987554f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:36 +0000
Subject: [PATCH 18/93] fix: text of a complex 8-bit matrix was read as
 characters

---
 inc/susa/matrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 34af68d..3186718 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -1473,7 +1473,8 @@ bool matrix <T, Allocator>::parser(std::string str_string)
     std::string str_row;
     std::string str_elem;
 
-    std::conditional_t<std::is_same_v<T, uint8_t> || std::is_same_v<T, int8_t>, int, T> T_tmp;
+    std::conditional_t<std::is_same_v<T, uint8_t> || std::is_same_v<T, int8_t>, int,
+    std::conditional_t<std::is_same_v<T, std::complex<uint8_t>> || std::is_same_v<T, std::complex<int8_t>>, std::complex<int>, T>> T_tmp;
 
     for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
     {
-- 
2.43.0


From ef4c2024d18e1eca004f43f4c2cfbed6ca796dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:36 +0000
Subject: [PATCH 19/93] fix: define the declared division of a scalar by a
 matrix

---
 inc/susa/matrix.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 3186718..5e8826c 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -1262,6 +1262,20 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator/( const
     return mat_ret;
 }
 
+template <typename T, typename Allocator> matrix<T, Allocator> operator/( T T_arg, const matrix <T, Allocator> &mat_argr )
+{
+
+    matrix <T, Allocator> mat_ret(mat_argr.shape());
+    size_t sizet_size = mat_ret.size();
+
+    for ( size_t sizet_index = 0; sizet_index < sizet_size; sizet_index++ )
+    {
+        mat_ret(sizet_index) = T_arg / mat_argr(sizet_index);
+    }
+
+    return mat_ret;
+}
+
 
 //  -=
 template <typename T, typename Allocator> matrix<T, Allocator> matrix <T, Allocator>::operator-=(const matrix <T, Allocator> &mat_arg)
-- 
2.43.0


From f98e5a54c4aee684c6f85c0b3bd0d129e4ecff44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:06 +0000
Subject: [PATCH 20/93] fix: abs() did not compile for real elements and
 skipped the first one

---
 inc/susa/base.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index 30526f8..b69fe80 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -371,7 +371,7 @@ template <typename T>
 std::vector <T> abs(const std::vector <T> &vec_arg)
 {
     std::vector <T> vec_abs(vec_arg.size(),0);
-    for (size_t i = 0; i < vec_arg.size(); i++) vec_abs[i] = abs(vec_arg[i]);
+    for (size_t i = 0; i < vec_arg.size(); i++) vec_abs[i] = std::abs(vec_arg[i]);
     return vec_abs;
 }
 
@@ -380,9 +380,9 @@ susa::matrix <T, Allocator> abs(const susa::matrix <T, Allocator> &mat_arg)
 {
     susa::matrix <T, Allocator>     mat_ret(mat_arg.shape());
     size_t size = mat_arg.size();
-    for (size_t uint_i = 1; uint_i < size; uint_i++)
+    for (size_t uint_i = 0; uint_i < size; uint_i++)
     {
-        mat_ret(uint_i) = abs(mat_arg(uint_i));
+        mat_ret(uint_i) = std::abs(mat_arg(uint_i));
     }
 
     return mat_ret;
-- 
2.43.0


From e3179b2a7d7e042d6d3bc665f877b9cceca6d8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:10 +0000
Subject: [PATCH 21/93] fix: max() of a one-element matrix returned an empty
 matrix

---
 inc/susa/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index b69fe80..dbf6fae 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -447,7 +447,7 @@ matrix <size_t> max(const matrix <T, Allocator> &mat_arg)
             }
         }
     }
-    else if (mat_arg.no_rows() > 1 && mat_arg.no_cols() > 1)
+    else if (mat_arg.size() > 0)
     {
         mat_ret = matrix <size_t> (1, mat_arg.no_cols(), 0);
         for (size_t uint_col = 0; uint_col < mat_arg.no_cols(); uint_col++)
-- 
2.43.0


From 1666bc6eedf0ea7dfb4cfb24dff47c87fb7b0f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:14 +0000
Subject: [PATCH 22/93] fix: mean() of negative integers divided as unsigned

---
 inc/susa/base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index dbf6fae..3bcab2f 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -344,7 +344,7 @@ matrix <T, Allocator> mean(const matrix <T, Allocator> &mat_arg)
         {
             T_ret += mat_arg(uint_i);
         }
-        T_ret /= mat_arg.size();
+        T_ret /= static_cast<std::ptrdiff_t>(mat_arg.size());
         mat_ret = matrix <T, Allocator> (1, 1, T_ret);
     }
     else if (mat_arg.no_rows() > 1 && mat_arg.no_cols() > 1)
@@ -358,7 +358,7 @@ matrix <T, Allocator> mean(const matrix <T, Allocator> &mat_arg)
                 T_ret += mat_arg(uint_row, uint_col);
             }
 
-            T_ret               /= no_rows;
+            T_ret               /= static_cast<std::ptrdiff_t>(no_rows);
             mat_ret(uint_col)   = T_ret;
             T_ret               = T(0);
         }
-- 
2.43.0


From 4636bd45bcca31352a382749ef81e530e923504f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:19 +0000
Subject: [PATCH 23/93] fix: norm() of complex elements summed squares instead
 of squared magnitudes

---
 inc/susa/base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index 3bcab2f..e5592fb 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -501,7 +501,7 @@ matrix <T, Allocator> norm(const matrix <T, Allocator> &mat_arg)
         mat_ret = matrix <T, Allocator> (1,1, T(0));
         for (size_t uint_i = 0; uint_i < mat_arg.size(); uint_i++)
         {
-            mat_ret(0) += mat_arg(uint_i) * mat_arg(uint_i);
+            mat_ret(0) += std::norm(mat_arg(uint_i));
         }
         mat_ret(0) = std::sqrt(mat_ret(0));
     }
@@ -512,7 +512,7 @@ matrix <T, Allocator> norm(const matrix <T, Allocator> &mat_arg)
         {
             for (size_t uint_row = 0; uint_row < mat_arg.no_rows(); uint_row++)
             {
-                mat_ret(uint_col) += mat_arg(uint_row,uint_col) * mat_arg(uint_row,uint_col);
+                mat_ret(uint_col) += std::norm(mat_arg(uint_row,uint_col));
             }
             mat_ret(uint_col) = std::sqrt(mat_ret(uint_col));
         }
-- 
2.43.0


From 3dcb316bf436347673a84227f6046d03a23cca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:23 +0000
Subject: [PATCH 24/93] fix: diff() could not take a constant vector as
 declared

---
 inc/susa/base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index e5592fb..60e546e 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -56,7 +56,7 @@ template <typename T, typename Allocator> matrix <size_t> max(const matrix <T, A
  * @return returns discrete differential of the input vector
  * @ingroup Math
  */
-template <typename T, typename Allocator> std::vector <T> diff(const std::vector <T> &vec_arg);
+template <typename T> std::vector <T> diff(const std::vector <T> &vec_arg);
 
 /**
  * @brief Sum
@@ -284,7 +284,7 @@ T log2(T int_arg)
     return (ret - 1);
 }
 
-template <typename T> std::vector <T> diff(std::vector <T> &vec_arg)
+template <typename T> std::vector <T> diff(const std::vector <T> &vec_arg)
 {
     std::vector <T> vec_diff(vec_arg.size() - 1, T(0));
 
-- 
2.43.0


From 97c917476a0c727d6bcf518c7536c3cacc21b30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:27 +0000
Subject: [PATCH 25/93] fix: mean(), var() and stdv() of integers used unsigned
 and truncating division

---
 inc/susa/statistics.h | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/inc/susa/statistics.h b/inc/susa/statistics.h
index d8b32fc..78fc045 100644
--- a/inc/susa/statistics.h
+++ b/inc/susa/statistics.h
@@ -61,15 +61,17 @@ template <class T> T mean(std::vector <T> vec_arg)
         tMean += vec_arg[i];
     }
 
-    return (tMean/vec_arg.size());
+    return (tMean/static_cast<std::ptrdiff_t>(vec_arg.size()));
 }
 
 
 
 template <class T> double var(std::vector <T> vec_arg)
 {
-    T tMean = mean(vec_arg);
-    T tVar = 0;
+    double tMean = 0;
+    double tVar = 0;
+    for (size_t i=0; i<vec_arg.size(); i++) tMean += vec_arg[i];
+    tMean /= vec_arg.size();
     for (int i=0; i<vec_arg.size(); i++)
     {
         tVar += (vec_arg[i] - tMean)*(vec_arg[i] - tMean);
@@ -83,14 +85,7 @@ template <class T> double var(std::vector <T> vec_arg)
 
 template <class T> double stdv(std::vector <T> vec_arg)
 {
-    T tMean = mean(vec_arg);
-    T tStd = 0;
-    for (int i=0; i<vec_arg.size(); i++)
-    {
-        tStd += (vec_arg[i] - tMean)*(vec_arg[i] - tMean);
-    }
-
-    return (sqrt(tStd/vec_arg.size()));
+    return std::sqrt(var(vec_arg));
 }
 } // NAMESPACE SUSA
 #endif // STATISTICS_H
-- 
2.43.0


From c124cd4245ef021da3e74ce2e06111e13a7d6688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:10 +0000
Subject: [PATCH 26/93] fix: det() of integer matrices wrapped around
 (unsigned) or overflowed

---
 inc/susa/linalg.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index 1ed5b93..9d144d8 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -166,7 +166,7 @@ double det(const matrix <T, Allocator> &mat_arg)
         }
         else if (sizet_rows == 2)
         { // 2 x 2
-            dbl_ret = mat_arg(0, 0) * mat_arg(1, 1) - mat_arg(1, 0) * mat_arg(0, 1);
+            dbl_ret = (double)mat_arg(0, 0) * mat_arg(1, 1) - (double)mat_arg(1, 0) * mat_arg(0, 1);
         }
         else
         { // 3 x 3 and more
@@ -182,7 +182,7 @@ double det(const matrix <T, Allocator> &mat_arg)
                     SUSA_LOG_ERR("falling into an infinite loop avoided.");
                     return dbl_ret;
                 }
-                dbl_ret +=  (-2 * (int)(sizet_col % 2) + 1) * mat_arg(0, sizet_col) * det(mat_minor);
+                dbl_ret +=  (-2.0 * (int)(sizet_col % 2) + 1) * mat_arg(0, sizet_col) * det(mat_minor);
             }
         }
     }
-- 
2.43.0


From 4a0856b2d13a8e7b3c164bb06cce922691fa41c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:15 +0000
Subject: [PATCH 27/93] fix: rank() of integer and float matrices lost the
 fractions of the elimination

---
 inc/susa/linalg.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index 9d144d8..c46f4f7 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -379,11 +379,16 @@ matrix<T, Allocator> eye(size_t sizet_n)
  * @ingroup LALG
  */
 template <typename T, template <typename> typename Allocator>
-unsigned int rank(susa::matrix<T, Allocator<T>> mat_arg, double epsilon = 1e-9)
+unsigned int rank(susa::matrix<T, Allocator<T>> mat_in, double epsilon = 1e-9)
 {
     unsigned int uint_ret = 0;
-    size_t sz_rows = mat_arg.no_rows();
-    size_t sz_cols = mat_arg.no_cols();
+    size_t sz_rows = mat_in.no_rows();
+    size_t sz_cols = mat_in.no_cols();
+
+    // the elimination needs fractions and the precision of double
+    using W = std::conditional_t<is_complex<T>::value, std::complex<double>, double>;
+    susa::matrix <W, Allocator<W>> mat_arg(sz_rows, sz_cols);
+    for (size_t sz_elem = 0; sz_elem < mat_in.size(); ++sz_elem) mat_arg(sz_elem) = W(mat_in(sz_elem));
 
 
     susa::matrix <bool, Allocator<bool>> row_selected(sz_rows, 1, false);
-- 
2.43.0


From eb07d3307f354c4d53e4f25d15dbe68e2e9b494e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:59 +0000
Subject: [PATCH 28/93] fix: lu::decompose() divided by a zero pivot and
 reported success

---
 inc/susa/solver.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index 9b120a6..55fe8af 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -199,6 +199,8 @@ template <class T> bool lu<T>::decompose()
             }
             else
             {
+                if (mat_upper(i,i) == T(0)) return false;
+
                 T sum = 0;
                 for (size_t j = 0; j < i; j++)
                 {
-- 
2.43.0


From 9cf49a070e94c5a728d89b5f9edc1a19bd84a775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:03 +0000
Subject: [PATCH 29/93] fix: lup::decompose() chose pivots from the matrix
 before elimination

---
 inc/susa/solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index 55fe8af..71573de 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -235,7 +235,7 @@ template <class T> bool lup<T>::decompose()
 
         for (size_t sizet_row = sizet_col; sizet_row < sizet_n; sizet_row++)
         {
-            T_abs = mat_a(sizet_row, sizet_col);
+            T_abs = mat_lu(sizet_row, sizet_col);
             if (T_abs < 0) T_abs *= -1.0;
             if ( T_abs > T_max)
             {
-- 
2.43.0


From d9c302792d89fabf37e698e4476ed912fa196ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:07 +0000
Subject: [PATCH 30/93] fix: lup::decompose_alt() chose pivots from the wrong
 column

---
 inc/susa/solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index 71573de..5e891f9 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -323,7 +323,7 @@ template <class T> bool lup<T>::decompose_alt()
             q       = 0;
             while (q < i)
             {
-                Uii -= mat_lu(r,q) * mat_lu(q,r);
+                Uii -= mat_lu(r,q) * mat_lu(q,i);
                 q++;
             }
             if (std::abs(Uii) > Umax)
-- 
2.43.0


From 2a2db334aaa4e5aba4e68194a60b08052b8e6751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:12 +0000
Subject: [PATCH 31/93] fix: lup::solve() returned zero for a single equation

---
 inc/susa/solver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index 5e891f9..4b686e8 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -271,7 +271,7 @@ template <class T> matrix<T> lup<T>::solve(const matrix<T> &mat_b)
 {
     matrix<T> mat_ret(sizet_n, 1, 0);
 
-    if (sizet_n == 0 || !mat_b.is_vector() || mat_b.size() != sizet_n) return mat_ret;
+    if (sizet_n == 0 || (mat_b.no_rows() != 1 && mat_b.no_cols() != 1) || mat_b.size() != sizet_n) return mat_ret;
 
     for (size_t sizet_row = 0; sizet_row < sizet_n; sizet_row++)
     {
-- 
2.43.0


From 091aeba8e2e588074c50adb0deb973148affbb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:43 +0000
Subject: [PATCH 32/93] fix: svd() of a matrix with more columns than rows
 aborted

---
 src/svd.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/svd.cpp b/src/svd.cpp
index 54982c6..4f4ec8f 100644
--- a/src/svd.cpp
+++ b/src/svd.cpp
@@ -61,6 +61,9 @@ int svd(const matrix <float> &mat_arg_a,
     int n = mat_arg_a.no_cols();
     int p = (m > n)?n:m;
 
+    // a wide matrix is decomposed through its transpose
+    if (m < n) return svd(transpose(mat_arg_a), mat_arg_v, mat_arg_s, mat_arg_u);
+
     int flag, i, its, j, jj, k, l, nm;
     double c, f, h, s, x, y, z;
     double anorm = 0.0, g = 0.0, scale = 0.0;
-- 
2.43.0


From 22f6881161328ca1bf3f7b15db20b1a7232a08d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:58 +0000
Subject: [PATCH 33/93] fix: svd() of a matrix whose bidiagonal form has a zero
 inside gave wrong factors

---
 src/svd.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/svd.cpp b/src/svd.cpp
index 4f4ec8f..6d85f81 100644
--- a/src/svd.cpp
+++ b/src/svd.cpp
@@ -230,6 +230,7 @@ int svd(const matrix <float> &mat_arg_a,
                 for (i = l; i <= k; i++)
                 {
                     f = s * rv1(i);
+                    rv1(i) = c * rv1(i);
                     if (fabs(f) + anorm != anorm)
                     {
                         g = (double)mat_arg_s(i);
-- 
2.43.0


From 64c183b28458d17cb8bd07c00eb4dd2d07fbdd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:20 +0000
Subject: [PATCH 34/93] fix: svd() kept rotating with a stale angle after the
 cancellation of a zero was complete

---
 src/svd.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/svd.cpp b/src/svd.cpp
index 6d85f81..fe94187 100644
--- a/src/svd.cpp
+++ b/src/svd.cpp
@@ -231,7 +231,8 @@ int svd(const matrix <float> &mat_arg_a,
                 {
                     f = s * rv1(i);
                     rv1(i) = c * rv1(i);
-                    if (fabs(f) + anorm != anorm)
+                    if (fabs(f) + anorm == anorm) break;
+                    else
                     {
                         g = (double)mat_arg_s(i);
                         h = _susa_svd_pythag(f, g);
-- 
2.43.0


From bb0bd46012c59dfff09db70ff4fc99f78b8a8887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:32 +0000
Subject: [PATCH 35/93] fix: svd() did not converge for matrices with repeated
 singular values

---
 src/svd.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/svd.cpp b/src/svd.cpp
index fe94187..bdec3de 100644
--- a/src/svd.cpp
+++ b/src/svd.cpp
@@ -212,16 +212,24 @@ int svd(const matrix <float> &mat_arg_a,
     { // loop over singular values
         for (its = 0; its < 30; its++)
         { // loop over allowed iterations
+            // U, S and V are rounded to single precision in every sweep, so that an
+            // off-diagonal element may never vanish in double precision
+            auto negligible = [&] (double value)
+            {
+                if (its < 15) return (fabs(value) + anorm == anorm);
+                return ((float)(fabs(value) + anorm) == (float)anorm);
+            };
+
             flag = 1;
             for (l = k; l >= 0; l--)
             { // test for splitting
                 nm = l - 1;
-                if (fabs(rv1(l)) + anorm == anorm)
+                if (negligible(rv1(l)))
                 {
                     flag = 0;
                     break;
                 }
-                if (fabs((double)mat_arg_s(nm)) + anorm == anorm) break;
+                if (negligible((double)mat_arg_s(nm))) break;
             }
             if (flag)
             {
@@ -231,7 +239,7 @@ int svd(const matrix <float> &mat_arg_a,
                 {
                     f = s * rv1(i);
                     rv1(i) = c * rv1(i);
-                    if (fabs(f) + anorm == anorm) break;
+                    if (negligible(f)) break;
                     else
                     {
                         g = (double)mat_arg_s(i);
-- 
2.43.0


From a9d0674adba77b7d55081ce11ab5389514354271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:37 +0000
Subject: [PATCH 36/93] fix: upsample() left the inserted samples uninitialised

---
 inc/susa/signal.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/signal.h b/inc/susa/signal.h
index 31e6979..e2e88f5 100644
--- a/inc/susa/signal.h
+++ b/inc/susa/signal.h
@@ -138,7 +138,7 @@ matrix <T, Allocator> toeplitz(const matrix <T, Allocator>& mat_col);
 template <typename T, typename Allocator>
 matrix <T, Allocator> upsample(const matrix <T, Allocator> &mat_arg, size_t uint_u)
 {
-    matrix <T, Allocator> mat_tmp(uint_u * mat_arg.no_rows(), mat_arg.no_cols());
+    matrix <T, Allocator> mat_tmp(uint_u * mat_arg.no_rows(), mat_arg.no_cols(), T(0));
 
     for (size_t size_col = 0; size_col < mat_arg.no_cols(); size_col++)
     {
-- 
2.43.0


From a846f0124e97a81faa93e932a10efd1642b7f350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:41 +0000
Subject: [PATCH 37/93] fix: filter() of a single sample returned nothing

---
 inc/susa/signal.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/susa/signal.h b/inc/susa/signal.h
index e2e88f5..4f76637 100644
--- a/inc/susa/signal.h
+++ b/inc/susa/signal.h
@@ -209,9 +209,9 @@ filter(const matrix <TT, Allocator<TT>>& mat_arg_b, const matrix <TT, Allocator<
             }
         }
     }
-    else if (size_x_cols == 1 && size_x_rows > 1)
+    else if (size_x_cols == 1 && size_x_rows >= 1)
     {
-        // for column vector
+        // for column vector (or a single sample)
         size_ret_len = size_x + size_length;
         mat_y = matrix <T, Allocator<T>> (size_ret_len, 1, 0);
         size_t size_y      = mat_y.size();
-- 
2.43.0


From f4a90b7dd0575a24286db7bb80590802d6e2d04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:44 +0000
Subject: [PATCH 38/93] fix: conv() of a scalar and a vector

---
 inc/susa/signal.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/inc/susa/signal.h b/inc/susa/signal.h
index 4f76637..c5b8048 100644
--- a/inc/susa/signal.h
+++ b/inc/susa/signal.h
@@ -262,7 +262,15 @@ matrix <T, Allocator> conv(const matrix <T, Allocator>& mat_arg_a, const matrix
     matrix <T, Allocator>   mat_ret;
     size_t                  size_length;
 
-    if (mat_arg_b.is_vector())
+    if (mat_arg_b.is_scalar())
+    {
+        mat_ret = mat_arg_b(0) * mat_arg_a;
+    }
+    else if (mat_arg_a.is_scalar())
+    {
+        mat_ret = mat_arg_a(0) * mat_arg_b;
+    }
+    else if (mat_arg_b.is_vector())
     {
         size_length = mat_arg_b.size() - 1;
         mat_ret = filter(mat_arg_b, matrix <T, Allocator> (1,1,1), mat_arg_a, size_length);
@@ -273,14 +281,6 @@ matrix <T, Allocator> conv(const matrix <T, Allocator>& mat_arg_a, const matrix
         mat_ret = filter(mat_arg_a, matrix <T, Allocator> (1,1,1), mat_arg_b, size_length);
 
     }
-    else if (mat_arg_b.is_scalar())
-    {
-        mat_ret = mat_arg_b(0) * mat_arg_a;
-    }
-    else if (mat_arg_a.is_scalar())
-    {
-        mat_ret = mat_arg_a(0) * mat_arg_b;
-    }
     else
     {
         //TODO: implement conv2()
-- 
2.43.0


From 75f5e3dc217966d784cb2fa73f1da0cd80beac05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:53 +0000
Subject: [PATCH 39/93] fix: log2() did not terminate for values with the most
 significant bit set

---
 inc/susa/base.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index 60e546e..69b15c2 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -276,8 +276,9 @@ T log2(T int_arg)
 {
     T ret(0);
 
-    while ((int_arg >> ret) != 0)
+    while (int_arg != 0)
     {
+        int_arg >>= 1;
         ret++;
     }
 
-- 
2.43.0


From df33a48631c62fac9ad338d44df79367b4c85d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:55 +0000
Subject: [PATCH 40/93] fix: mod() was wrong for arguments beyond the float
 precision

---
 src/base.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/base.cpp b/src/base.cpp
index 8eaa960..438d91c 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -80,7 +80,10 @@ int pow(int int_b, unsigned int uint_p)
 
 long int mod(long int lint_a, long int lint_mod)
 {
-    return(lint_a - std::floor((float)lint_a / lint_mod) * lint_mod);
+    // the remainder takes the sign of the modulus
+    long int lint_ret = (lint_mod == -1) ? 0 : lint_a % lint_mod;
+    if (lint_ret != 0 && (lint_ret < 0) != (lint_mod < 0)) lint_ret += lint_mod;
+    return lint_ret;
 }
 
 double round(const double dbl_arg, int int_decimal)
-- 
2.43.0


From 6725fcba39efcc76cbd681f8f69061a7a2c11fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:56 +0000
Subject: [PATCH 41/93] fix: round() overflowed for large numbers

---
 src/base.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/base.cpp b/src/base.cpp
index 438d91c..9ecca62 100644
--- a/src/base.cpp
+++ b/src/base.cpp
@@ -88,12 +88,14 @@ long int mod(long int lint_a, long int lint_mod)
 
 double round(const double dbl_arg, int int_decimal)
 {
-    //TODO: to be fixed for large doubles to prevent the overflow.
     double dbl_p = std::pow(10.0, int_decimal);
 
     if (int_decimal > 0)
     {
-        return (std::round(dbl_arg * dbl_p) / dbl_p);
+        double dbl_scaled = dbl_arg * dbl_p;
+        // such a large number has no decimals to be rounded
+        if (!std::isfinite(dbl_scaled)) return dbl_arg;
+        return (std::round(dbl_scaled) / dbl_p);
     }
 
     return std::round(dbl_arg);
-- 
2.43.0


From a0ab41561037a3d00175e7cd08c34f2fb80efa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:59 +0000
Subject: [PATCH 42/93] fix: select_most() marked the selected elements by an
 ordinary value

---
 inc/susa/search.h | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index d76dc35..de40554 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -196,7 +196,6 @@ template <class T> matrix <unsigned int> select_most(const matrix <T> &mat_arg,
     SUSA_ASSERT_MESSAGE(mat_arg.is_vector(), "this method supports one dimensional matrices (vectors) only.");
 
     unsigned int uint_size = mat_arg.size();
-    matrix <T> mat_ret     = mat_arg;
     matrix <unsigned int> mat_index(uint_num, 1);
 
 
@@ -208,24 +207,19 @@ template <class T> matrix <unsigned int> select_most(const matrix <T> &mat_arg,
     }
 
     unsigned int uint_max_index;
-    T T_max;
+    std::vector <bool> vec_taken(uint_size, false);
 
-    for( unsigned int uint_i = 0; uint_i < uint_num; uint_i++)
+    for (unsigned int uint_i = 0; uint_i < uint_num; uint_i++)
     {
-        uint_max_index = uint_i;
-        T_max = mat_ret(uint_i);
+        uint_max_index = uint_size;
         for (unsigned int uint_j = 0; uint_j < uint_size; uint_j++)
         {
-            if (mat_ret(uint_j) > T_max)
-            {
-                uint_max_index = uint_j;
-                T_max = mat_ret(uint_j);
-            }
+            if (vec_taken[uint_j]) continue;
+            if (uint_max_index == uint_size || mat_arg(uint_j) > mat_arg(uint_max_index)) uint_max_index = uint_j;
         }
 
+        if (uint_max_index < uint_size) vec_taken[uint_max_index] = true;
         mat_index(uint_i) = uint_max_index;
-
-        mat_ret(uint_max_index) = std::numeric_limits<T>::min();
     }
 
     return mat_index;
-- 
2.43.0


From 87d67c5b338835e33b26d658bbba7c964a19913c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:03 +0000
Subject: [PATCH 43/93] fix: select_limited_least() selected elements out of
 the limited indices

---
 inc/susa/search.h | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index de40554..c958e24 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -156,7 +156,6 @@ template <class T> matrix <unsigned int> select_limited_least(const matrix <T> &
     SUSA_ASSERT_MESSAGE(mat_arg.is_vector(), "this method supports one dimensional matrices (vectors) only.");
 
     unsigned int uint_size = mat_arg.size();
-    matrix <T> mat_ret     = mat_arg;
     matrix <unsigned int> mat_index(uint_num, 1);
 
     SUSA_ASSERT_MESSAGE(uint_size > uint_num, "The number of elements to be selected is larger than the matrix size.");
@@ -166,24 +165,20 @@ template <class T> matrix <unsigned int> select_limited_least(const matrix <T> &
     }
 
     unsigned int uint_min_index;
-    T T_min;
+    std::vector <bool> vec_taken(uint_size, false);
 
-    for( unsigned int uint_i = 0; uint_i < uint_num; uint_i++)
+    for (unsigned int uint_i = 0; uint_i < uint_num; uint_i++)
     {
-        uint_min_index = uint_i;
-        T_min = mat_ret(uint_i);
+        uint_min_index = uint_size;
         for (unsigned int uint_j = 0; uint_j < mat_limited_index.size(); uint_j++)
         {
-            if (mat_ret(mat_limited_index(uint_j)) < T_min)
-            {
-                uint_min_index = mat_limited_index(uint_j);
-                T_min = mat_ret(mat_limited_index(uint_j));
-            }
+            unsigned int uint_index = mat_limited_index(uint_j);
+            if (uint_index >= uint_size || vec_taken[uint_index]) continue;
+            if (uint_min_index == uint_size || mat_arg(uint_index) < mat_arg(uint_min_index)) uint_min_index = uint_index;
         }
 
+        if (uint_min_index < uint_size) vec_taken[uint_min_index] = true;
         mat_index(uint_i) = uint_min_index;
-
-        mat_ret(uint_min_index) = std::numeric_limits<T>::max();
     }
 
     return mat_index;
-- 
2.43.0


From f7d4d376ea2282b8192778fea0fd252df131e995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:07 +0000
Subject: [PATCH 44/93] fix: select_least() marked the selected elements by an
 ordinary value

---
 inc/susa/search.h | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index c958e24..7314932 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -113,7 +113,6 @@ template <class T> matrix <unsigned int> select_least(const matrix <T> &mat_arg,
     SUSA_ASSERT_MESSAGE(mat_arg.is_vector(), "this method supports one dimensional matrices (vectors) only.");
 
     unsigned int uint_size = mat_arg.size();
-    matrix <T> mat_ret     = mat_arg;
     matrix <unsigned int> mat_index(uint_num, 1);
 
     SUSA_ASSERT_MESSAGE(uint_size > uint_num, "The number of elements to be selected is larger than the matrix size.");
@@ -124,24 +123,19 @@ template <class T> matrix <unsigned int> select_least(const matrix <T> &mat_arg,
     }
 
     unsigned int uint_min_index;
-    T T_min;
+    std::vector <bool> vec_taken(uint_size, false);
 
     for (unsigned int uint_i = 0; uint_i < uint_num; uint_i++)
     {
-        uint_min_index = uint_i;
-        T_min = mat_ret(uint_i);
+        uint_min_index = uint_size;
         for (unsigned int uint_j = 0; uint_j < uint_size; uint_j++)
         {
-            if (mat_ret(uint_j) < T_min)
-            {
-                uint_min_index = uint_j;
-                T_min = mat_ret(uint_j);
-            }
+            if (vec_taken[uint_j]) continue;
+            if (uint_min_index == uint_size || mat_arg(uint_j) < mat_arg(uint_min_index)) uint_min_index = uint_j;
         }
 
+        if (uint_min_index < uint_size) vec_taken[uint_min_index] = true;
         mat_index(uint_i) = uint_min_index;
-
-        mat_ret(uint_min_index) = std::numeric_limits<T>::max();
     }
 
     return mat_index;
-- 
2.43.0


From 258a96c92132e2d546997bf1068ed51ca255dffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:11 +0000
Subject: [PATCH 45/93] fix: sort() stopped before the vector was sorted

---
 inc/susa/search.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index 7314932..1e34df6 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -336,7 +336,6 @@ template <class T> matrix <T> sort(const matrix <T> &mat_arg)
     unsigned int uint_size   = mat_arg.size();
     matrix <T>   mat_return  = mat_arg;
     T T_swap;
-    bool bool_changed = false;
 
     for (unsigned int uint_indx = 0; uint_indx < uint_size; uint_indx++)
     {
@@ -347,11 +346,8 @@ template <class T> matrix <T> sort(const matrix <T> &mat_arg)
                 T_swap = mat_return(uint_indx);
                 mat_return(uint_indx) = mat_return(uint_indx_);
                 mat_return(uint_indx_) = T_swap;
-                bool_changed = true;
             }
         }
-        if (!bool_changed) break;
-        bool_changed = false;
     }
 
     return mat_return;
-- 
2.43.0


From 27f8b92130a389fb2d0aeb3938ed004979b0eb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:30 +0000
Subject: [PATCH 46/93] fix: select_least/most() refused to select all elements

---
 inc/susa/search.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index 1e34df6..f4aa137 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -115,7 +115,7 @@ template <class T> matrix <unsigned int> select_least(const matrix <T> &mat_arg,
     unsigned int uint_size = mat_arg.size();
     matrix <unsigned int> mat_index(uint_num, 1);
 
-    SUSA_ASSERT_MESSAGE(uint_size > uint_num, "The number of elements to be selected is larger than the matrix size.");
+    SUSA_ASSERT_MESSAGE(uint_size >= uint_num, "The number of elements to be selected is larger than the matrix size.");
 
     if (uint_size < uint_num)
     {
@@ -152,7 +152,7 @@ template <class T> matrix <unsigned int> select_limited_least(const matrix <T> &
     unsigned int uint_size = mat_arg.size();
     matrix <unsigned int> mat_index(uint_num, 1);
 
-    SUSA_ASSERT_MESSAGE(uint_size > uint_num, "The number of elements to be selected is larger than the matrix size.");
+    SUSA_ASSERT_MESSAGE(uint_size >= uint_num, "The number of elements to be selected is larger than the matrix size.");
     if (uint_size < uint_num)
     {
         return mat_index;
@@ -188,7 +188,7 @@ template <class T> matrix <unsigned int> select_most(const matrix <T> &mat_arg,
     matrix <unsigned int> mat_index(uint_num, 1);
 
 
-    SUSA_ASSERT_MESSAGE(uint_size > uint_num,
+    SUSA_ASSERT_MESSAGE(uint_size >= uint_num,
       "The number of elements to be selected is larger than the matrix size.");
     if (uint_size < uint_num)
     {
-- 
2.43.0


From 6d4c71b4a24c02f7a31cdc971a45e3592c0077cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:34 +0000
Subject: [PATCH 47/93] fix: dijkstra() truncated fractional weights and left
 predecessors uninitialised

---
 inc/susa/search.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index f4aa137..fef017d 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -239,23 +239,28 @@ template <class T> matrix <unsigned int> dijkstra(const matrix <T> &mat_graph, u
 
   if (!mat_graph.is_square()) return (matrix <unsigned int> ());
 
+  // large enough for the sum of integer weights, exact for floating point ones
+  using weight = decltype(T() + 0u);
   unsigned int uint_num_nodes = mat_graph.no_cols();
-  susa::matrix <unsigned int> dist(uint_num_nodes, 1, std::numeric_limits<int>::max());
+  susa::matrix <weight> dist(uint_num_nodes, 1, std::numeric_limits<weight>::max());
   susa::matrix <unsigned int> prev(uint_num_nodes, 1);
 
+  // a node that is not reached is its own predecessor
+  for (unsigned int uint_index = 0; uint_index < uint_num_nodes; uint_index++) prev(uint_index) = uint_index;
+
   dist(uint_src) = 0;
 
   susa::bitset nset(uint_num_nodes);
   nset.set();
 
 
-  unsigned int uint_min       = 0;
+  weight       uint_min       = 0;
   unsigned int uint_min_index = 0;
-  unsigned int uint_alt       = 0;
+  weight       uint_alt       = 0;
   while (nset.any())
   {
 
-    uint_min = std::numeric_limits <unsigned int>::max();
+    uint_min = std::numeric_limits <weight>::max();
     for (unsigned int uint_index = 0; uint_index < uint_num_nodes; uint_index++)
     {
       if (nset.exists(uint_index) && dist(uint_index) < uint_min)
@@ -265,6 +270,7 @@ template <class T> matrix <unsigned int> dijkstra(const matrix <T> &mat_graph, u
       }
     }
 
+    if (uint_min == std::numeric_limits <weight>::max()) break; // the rest is not reachable
     nset.reset(uint_min_index);
 
 
-- 
2.43.0


From de4c5d92c7e8b5198491f74549d65ba314f1c366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:37 +0000
Subject: [PATCH 48/93] fix: dijkstra() overflowed for large weights

---
 inc/susa/search.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index fef017d..ad92a89 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -276,12 +276,12 @@ template <class T> matrix <unsigned int> dijkstra(const matrix <T> &mat_graph, u
 
     for (unsigned int uint_i = 0; uint_i < uint_num_nodes; uint_i++)
     {
-      if (mat_graph(uint_min_index,uint_i)) // if zero then there is no way
+      if (nset.exists(uint_i) && mat_graph(uint_min_index,uint_i)) // if zero then there is no way
       {
-        uint_alt = dist(uint_min_index) + mat_graph(uint_min_index,uint_i);
-        if (uint_alt < dist(uint_i))
+        uint_alt = mat_graph(uint_min_index,uint_i);
+        if (uint_alt < dist(uint_i) - dist(uint_min_index)) // the sum might overflow
         {
-          dist(uint_i) = uint_alt;
+          dist(uint_i) = dist(uint_min_index) + uint_alt;
           prev(uint_i) = uint_min_index;
         }
       }
-- 
2.43.0


From 1bafa53c77c2d53d9325cba3e1453e9590b59807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:54 +0000
Subject: [PATCH 49/93] fix: a moved-from array had no default element and a
 failed allocation leaked it

---
 inc/susa/array.h | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index cd4edcb..70b75cd 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -108,7 +108,7 @@ namespace susa
         return this->_matrix[uint_index];
       }
 
-      return *T_default;
+      return T_default;
     }
 
     template <typename... Args>
@@ -121,7 +121,7 @@ namespace susa
     std::vector<size_t> vec_dims;
     size_t uint_total;
     size_t uint_num_dims;
-    T *T_default;
+    T T_default;
 
     std::vector<size_t> vec_get;
     size_t uint_get_step;
@@ -140,7 +140,8 @@ namespace susa
   template <typename T, typename Allocator>
   array<T, Allocator>::array()
   : uint_total(0)
-  , T_default(new T)
+  , uint_num_dims(0)
+  , T_default()
   , uint_get_step(0)
   , alloc()
   , _matrix(nullptr)
@@ -150,7 +151,7 @@ namespace susa
   template <typename T, typename Allocator>
   array<T, Allocator>::array(std::initializer_list<size_t> list)
   : vec_dims(list)
-  , T_default(new T)
+  , T_default()
   , alloc()
   {
     uint_total = 1;
@@ -186,7 +187,8 @@ namespace susa
 
   template <typename T, typename Allocator>
   array<T, Allocator>::array(array &&arg)
-  : alloc(std::move(arg.alloc))
+  : T_default()
+  , alloc(std::move(arg.alloc))
   {
 
     uint_total      = arg.uint_total;
@@ -195,17 +197,15 @@ namespace susa
     vec_get         = std::vector<size_t>(uint_num_dims);
     uint_get_step   = 0;
 
-    T_default          = arg.T_default;
     _matrix         = arg._matrix;
   
-    arg.T_default      = nullptr;
     arg._matrix     = nullptr;
     arg.uint_total  = 0;
   }
 
   template <typename T, typename Allocator>
   array<T, Allocator>::array(const array &arg)
-  : T_default(new T)
+  : T_default()
   , alloc(arg.alloc)
   {
 
@@ -240,7 +240,6 @@ namespace susa
   template <typename T, typename Allocator>
   array<T, Allocator>::~array() noexcept
   {
-    if (T_default != nullptr) delete T_default;
     if (_matrix != nullptr) alloc.deallocate(_matrix, uint_total);
   }
 
@@ -274,7 +273,7 @@ namespace susa
       return _matrix[uint_elem];
     }
 
-    return *T_default;
+    return T_default;
   }
 
   template <typename T, typename Allocator>
@@ -292,7 +291,7 @@ namespace susa
       return _matrix[uint_index];
     }
 
-    return *T_default;
+    return T_default;
   }
 
   template <typename T, typename Allocator>
@@ -311,7 +310,7 @@ namespace susa
       return _matrix[uint_index];
     }
 
-    return *T_default;
+    return T_default;
   }
 
   template <typename T, typename Allocator>
-- 
2.43.0


From 81f9fb3a0aad0491e2d44a2cba9854fec0742967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:58 +0000
Subject: [PATCH 50/93] fix: assigning an array to itself read freed memory

---
 inc/susa/array.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index 70b75cd..58ded32 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -215,24 +215,26 @@ namespace susa
     vec_get       = std::vector<size_t>(uint_num_dims);
     uint_get_step = 0;
     _matrix       = alloc.allocate(uint_total);
-    std::memcpy(_matrix, arg._matrix, uint_total * sizeof(T));
+    if (uint_total != 0) std::memcpy(_matrix, arg._matrix, uint_total * sizeof(T));
   }
 
   template <typename T, typename Allocator>
   array<T, Allocator> &array<T, Allocator>::operator=(const array &arg)
   {
-    if (uint_total != 0 && _matrix != nullptr)
-    {
-      alloc.deallocate(_matrix, uint_total);
-    }
+    if (this == &arg) return *this;
+
+    std::vector<size_t> vec_arg_dims = arg.vec_dims;
+    T* block = alloc.allocate(arg.uint_total);
+    if (_matrix != nullptr) alloc.deallocate(_matrix, uint_total);
+
+    _matrix       = block;
     uint_total    = arg.uint_total;
-    vec_dims      = arg.vec_dims;
+    vec_dims.swap(vec_arg_dims);
     uint_num_dims = vec_dims.size();
     vec_get       = std::vector<size_t>(uint_num_dims);
     uint_get_step = 0;
 
-    _matrix       = alloc.allocate(uint_total);
-    std::memcpy(_matrix, arg._matrix, uint_total * sizeof(T));
+    if (uint_total != 0) std::memcpy(_matrix, arg._matrix, uint_total * sizeof(T));
 
     return *this;
   }
-- 
2.43.0


From d817b82c66ad4762fd6d777d28f7c80c7b29c341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:02 +0000
Subject: [PATCH 51/93] fix: array::clone() allocated a block of the old size

---
 inc/susa/array.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index 58ded32..8235a5c 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -173,11 +173,9 @@ namespace susa
 
     if (length != uint_total)
     {
-      if (uint_total != 0 && _matrix != nullptr)
-      {
-        alloc.deallocate(_matrix, uint_total);
-      }
-      _matrix       = alloc.allocate(uint_total);
+      T* block = alloc.allocate(length);
+      if (_matrix != nullptr) alloc.deallocate(_matrix, uint_total);
+      _matrix       = block;
       uint_total    = length;
     }
   
-- 
2.43.0


From a0000fa33db210f77e34d26c448bd911f4bccc62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:07 +0000
Subject: [PATCH 52/93] fix: elements of a const array could not be read

---
 inc/susa/array.h | 109 +++++++++++++----------------------------------
 1 file changed, 29 insertions(+), 80 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index 8235a5c..1d09b8f 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -87,7 +87,7 @@ namespace susa
     void clone(T *data, size_t length);
 
     template <typename... Args>
-    T get(size_t uint_elem, Args... uint_args);
+    T get(size_t uint_elem, Args... uint_args) const;
 
     //! () operator to set or get elements
     template <typename... Args>
@@ -112,7 +112,7 @@ namespace susa
     }
 
     template <typename... Args>
-    size_t get_raw_index(size_t uint_elem, Args... uint_args)
+    size_t get_raw_index(size_t uint_elem, Args... uint_args) const
     {
       return index(uint_elem, uint_args...);
     }
@@ -123,17 +123,14 @@ namespace susa
     size_t uint_num_dims;
     T T_default;
 
-    std::vector<size_t> vec_get;
-    size_t uint_get_step;
-    T T_get_value;
-
     Allocator alloc;
     T *_matrix;
 
-    size_t index(size_t uint_elem);
-    size_t index(const std::vector<size_t> &list);
+    size_t index(const size_t *list, size_t count) const;
+    size_t index(size_t uint_elem) const;
+    size_t index(const std::vector<size_t> &list) const;
     template <typename... Args>
-    size_t index(size_t uint_elem, Args... uint_args);
+    size_t index(size_t uint_elem, Args... uint_args) const;
   };
 
   // Implementations
@@ -142,7 +139,6 @@ namespace susa
   : uint_total(0)
   , uint_num_dims(0)
   , T_default()
-  , uint_get_step(0)
   , alloc()
   , _matrix(nullptr)
   {
@@ -161,8 +157,6 @@ namespace susa
     }
 
     uint_num_dims = vec_dims.size();
-    uint_get_step = 0;
-    vec_get = std::vector<size_t>(uint_num_dims);
 
     _matrix = alloc.allocate(uint_total);
   }
@@ -192,8 +186,6 @@ namespace susa
     uint_total      = arg.uint_total;
     vec_dims        = arg.vec_dims;
     uint_num_dims   = vec_dims.size();
-    vec_get         = std::vector<size_t>(uint_num_dims);
-    uint_get_step   = 0;
 
     _matrix         = arg._matrix;
   
@@ -210,8 +202,6 @@ namespace susa
     uint_total    = arg.uint_total;
     vec_dims      = arg.vec_dims;
     uint_num_dims = vec_dims.size();
-    vec_get       = std::vector<size_t>(uint_num_dims);
-    uint_get_step = 0;
     _matrix       = alloc.allocate(uint_total);
     if (uint_total != 0) std::memcpy(_matrix, arg._matrix, uint_total * sizeof(T));
   }
@@ -229,8 +219,6 @@ namespace susa
     uint_total    = arg.uint_total;
     vec_dims.swap(vec_arg_dims);
     uint_num_dims = vec_dims.size();
-    vec_get       = std::vector<size_t>(uint_num_dims);
-    uint_get_step = 0;
 
     if (uint_total != 0) std::memcpy(_matrix, arg._matrix, uint_total * sizeof(T));
 
@@ -249,22 +237,7 @@ namespace susa
 
     SUSA_ASSERT(_matrix != nullptr);
 
-    size_t uint_elem      = 0;
-    size_t uint_dim_count = 0;
-    size_t uint_factor    = 1;
-
-    for (auto dim_size : list)
-    {
-
-      uint_factor = 1;
-      for (size_t indx = 0; indx < uint_dim_count; ++indx)
-      {
-        uint_factor *= vec_dims[indx];
-      }
-
-      uint_elem += dim_size * uint_factor;
-      uint_dim_count++;
-    }
+    size_t uint_elem = index(list.begin(), list.size());
 
     SUSA_ASSERT_MESSAGE(uint_elem < uint_total, "the element index is out of range.");
 
@@ -296,7 +269,7 @@ namespace susa
 
   template <typename T, typename Allocator>
   template <typename... Args>
-  T array<T, Allocator>::get(size_t uint_elem, Args... uint_args)
+  T array<T, Allocator>::get(size_t uint_elem, Args... uint_args) const
   {
 
     SUSA_ASSERT(_matrix != nullptr);
@@ -314,75 +287,51 @@ namespace susa
   }
 
   template <typename T, typename Allocator>
-  size_t array<T, Allocator>::index(const std::vector<size_t> &list)
+  size_t array<T, Allocator>::index(const size_t *list, size_t count) const
   {
 
-    size_t uint_elem = 0;
-    size_t uint_dim_count = 0;
+    size_t uint_elem   = 0;
     size_t uint_factor = 1;
 
-    for (auto dim_size : list)
-    {
+    SUSA_ASSERT_MESSAGE(count <= uint_num_dims, "the number of arguments exceeded the number of dimensions.");
 
-      uint_factor = 1;
-      for (size_t indx = 0; indx < uint_dim_count; ++indx)
-      {
-        uint_factor *= vec_dims[indx];
-      }
+    if (count > uint_num_dims) return uint_total;
 
-      uint_elem += dim_size * uint_factor;
-      uint_dim_count++;
+    for (size_t indx = 0; indx < count; ++indx)
+    {
+      uint_elem   += list[indx] * uint_factor;
+      uint_factor *= vec_dims[indx];
     }
-    
+
     SUSA_ASSERT_MESSAGE(uint_elem < uint_total, "the element index is out of range.");
 
     return uint_elem;
   }
 
   template <typename T, typename Allocator>
-  size_t array<T, Allocator>::index(size_t uint_elem)
+  size_t array<T, Allocator>::index(const std::vector<size_t> &list) const
   {
+    return index(list.data(), list.size());
+  }
 
-    size_t ret;
-
-    if (uint_get_step == 0)
-    {
-      vec_get       = std::vector<size_t>(uint_num_dims);
-      uint_get_step = 0;
-
-      SUSA_ASSERT_MESSAGE(uint_elem < uint_total, "the element index is out of range.");
-
-      if (uint_elem < uint_total) return uint_elem;
-
-      return 0;
-    }
-    else
-    {
-
-      SUSA_ASSERT_MESSAGE(uint_get_step < uint_num_dims, "the number of arguments exceeded the number of dimensions.");
-
-      vec_get[uint_get_step] = uint_elem;
-      uint_get_step++;
+  template <typename T, typename Allocator>
+  size_t array<T, Allocator>::index(size_t uint_elem) const
+  {
 
-      ret = index(vec_get);
-    }
+    SUSA_ASSERT_MESSAGE(uint_elem < uint_total, "the element index is out of range.");
 
-    vec_get = std::vector<size_t>(uint_num_dims);
-    uint_get_step = 0;
+    if (uint_elem < uint_total) return uint_elem;
 
-    return ret;
+    return 0;
   }
 
   template <typename T, typename Allocator>
   template <typename... Args>
-  size_t array<T, Allocator>::index(size_t uint_elem, Args... uint_args)
+  size_t array<T, Allocator>::index(size_t uint_elem, Args... uint_args) const
   {
+    const size_t list[] = { uint_elem, static_cast<size_t>(uint_args)... };
 
-    SUSA_ASSERT_MESSAGE(uint_get_step < uint_num_dims, "the number of arguments exceeded the number of dimensions.");
-
-    vec_get[uint_get_step] = uint_elem;
-    uint_get_step++;
-    return index(uint_args...);
+    return index(list, 1 + sizeof...(uint_args));
   }
 
 } // namespace susa
-- 
2.43.0


From bbc9a8e5be3a94b0850186b70547723865eb85d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:43 +0000
Subject: [PATCH 53/93] fix: a failed allocation was counted as used memory

---
 inc/susa/memory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/memory.h b/inc/susa/memory.h
index e0d6be2..cdde7cc 100644
--- a/inc/susa/memory.h
+++ b/inc/susa/memory.h
@@ -105,8 +105,8 @@ template <typename T> class allocator_log : public std::allocator<T>
          */
         pointer allocate(size_type size, const void *hint = 0)
         {
-            memory_tacker::instance().add(size * sizeof(T));
             pointer ptr = base::allocate(size, hint);
+            memory_tacker::instance().add(size * sizeof(T));
             SUSA_LOG_INF("allocate " << size * sizeof(T) << " bytes. pointer (" << ptr << ")");
             return ptr;
         }
-- 
2.43.0


From 6275935620ff7e5beb08ab94793c0ec517865ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:28 +0000
Subject: [PATCH 54/93] fix: copies of a convolutional code released the same
 generators

---
 inc/susa/ccode.h |  2 +-
 src/ccode.cpp    | 18 ++++++++----------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/inc/susa/ccode.h b/inc/susa/ccode.h
index fd14b3a..3ec7b4c 100644
--- a/inc/susa/ccode.h
+++ b/inc/susa/ccode.h
@@ -171,7 +171,7 @@ class ccode
     uint32_t  uint_n;     // Number of outputs
     uint32_t  uint_m;     // Number of memories
     uint32_t  uint_mmask; // Memory mask
-    uint32_t* uint_gen;   // Dynamic array of generators
+    std::vector <uint32_t> uint_gen; // generators
 
     //! convert octal numbers to decimal
     uint32_t oct_to_dec(uint32_t);
diff --git a/src/ccode.cpp b/src/ccode.cpp
index f5e055f..8903cae 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -30,18 +30,15 @@ namespace susa {
 
 ccode::ccode()
 {
-    uint_k = 1;
-    uint_n = 0;
-    uint_m = 0;
+    uint_k     = 1;
+    uint_n     = 0;
+    uint_m     = 0;
+    uint_mmask = 0;
+    zero_state();
 }
 
 ccode::~ccode()
 {
-    if (uint_gen != NULL)
-    {
-        delete [] uint_gen;
-        uint_gen = nullptr;
-    }
 }
 
 ccode::ccode(uint32_t uint_n, uint32_t uint_k, uint32_t uint_m)
@@ -52,11 +49,12 @@ ccode::ccode(uint32_t uint_n, uint32_t uint_k, uint32_t uint_m)
     this->uint_k     = uint_k;
     this->uint_n     = uint_n;
     this->uint_m     = uint_m;
-    uint_mmask       = susa::pow(2, uint_m) - 1;
+    uint_mmask       = susa::pow(2u, uint_m) - 1;
+    zero_state();
 
     try
     {
-        uint_gen   = new uint32_t[uint_n];
+        uint_gen.assign(uint_n, 0);
     }
     catch(const std::bad_alloc& e)
     {
-- 
2.43.0


From 3ef6864369c17febf97251d17c0039c7b8bdf272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:32 +0000
Subject: [PATCH 55/93] fix: the rate of a convolutional code was always zero

---
 inc/susa/ccode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/ccode.h b/inc/susa/ccode.h
index 3ec7b4c..445ca36 100644
--- a/inc/susa/ccode.h
+++ b/inc/susa/ccode.h
@@ -106,7 +106,7 @@ class ccode
      **/
     float rate()
     {
-      return (uint_k / uint_n);
+      return ((float)uint_k / uint_n);
     }
 
     /**
-- 
2.43.0


From d504cc2f1d4fb84a153742fdc4b93ac2419e8e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:34 +0000
Subject: [PATCH 56/93] fix: BCJR decoder started from uninitialised state
 probabilities

---
 src/ccode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ccode.cpp b/src/ccode.cpp
index 8903cae..3d94a99 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -184,12 +184,12 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
 
     // Alpha
     matrix <double> mat_alpha(uint_num_states, 1, 0);
-    std::vector <matrix <double> > vec_alpha(uint_num_stages + 1, matrix <double> (uint_num_states,1));
+    std::vector <matrix <double> > vec_alpha(uint_num_stages + 1, matrix <double> (uint_num_states, 1, 0));
     vec_alpha[0](0,0) = 1;
 
     // Beta
     matrix <double> mat_beta(uint_num_states, 1, 0);
-    std::vector <matrix <double> > vec_beta(uint_num_stages + 1, matrix <double> (uint_num_states,1));
+    std::vector <matrix <double> > vec_beta(uint_num_stages + 1, matrix <double> (uint_num_states, 1, 0));
     vec_beta[uint_num_stages](0,0) = 1;
 
 
-- 
2.43.0


From 0b514a43ae6a78b8ad2547c8e0f6e1b9c0ac8dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:35 +0000
Subject: [PATCH 57/93] fix: BCJR decoder ignored the a-priori probability

---
 src/ccode.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ccode.cpp b/src/ccode.cpp
index 3d94a99..58e5e05 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -214,7 +214,7 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
                 dbl_arg += mat_arg(uint_n * uint_stage + uint_i) * (((this->next_output(uint_state,false) >> uint_i) & 0x1) == 0 ? -1 : 1);
             }
 
-            mat_gamma(uint_state, uint_next_zero) = c_k * exp(0.5 * l_c * dbl_arg);
+            mat_gamma(uint_state, uint_next_zero) = (1 - c_k) * exp(0.5 * l_c * dbl_arg);
 
             dbl_arg = 0;
             for (uint32_t uint_i = 0; uint_i < uint_n; uint_i++)
-- 
2.43.0


From 9a3e254cd5e8c79512014d8daea88409de06c5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:37 +0000
Subject: [PATCH 58/93] fix: BCJR decoder overflowed at high signal to noise
 ratios

---
 src/ccode.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ccode.cpp b/src/ccode.cpp
index 58e5e05..783ae84 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -198,10 +198,14 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
 
     uint32_t uint_next_zero, uint_next_one;
     double dbl_arg = 0;
+    double dbl_max = 0;
 
     for (uint32_t uint_stage = 0; uint_stage < uint_num_stages; uint_stage++)
     {
-        // Gamma Calculation
+        // Gamma Calculation (scaled by the largest possible metric to prevent the overflow)
+        dbl_max = 0;
+        for (uint32_t uint_i = 0; uint_i < uint_n; uint_i++) dbl_max += std::fabs(mat_arg(uint_n * uint_stage + uint_i));
+
         for (uint32_t uint_state = 0; uint_state < uint_num_states; uint_state++)
         {
 
@@ -214,7 +218,7 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
                 dbl_arg += mat_arg(uint_n * uint_stage + uint_i) * (((this->next_output(uint_state,false) >> uint_i) & 0x1) == 0 ? -1 : 1);
             }
 
-            mat_gamma(uint_state, uint_next_zero) = (1 - c_k) * exp(0.5 * l_c * dbl_arg);
+            mat_gamma(uint_state, uint_next_zero) = (1 - c_k) * exp(0.5 * l_c * (dbl_arg - dbl_max));
 
             dbl_arg = 0;
             for (uint32_t uint_i = 0; uint_i < uint_n; uint_i++)
@@ -222,7 +226,7 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
                 dbl_arg += mat_arg(uint_n * uint_stage + uint_i) * (((this->next_output(uint_state,true) >> uint_i) & 0x1) == 0 ? -1 : 1);
             }
 
-            mat_gamma(uint_state, uint_next_one) = c_k * exp(0.5 * l_c * dbl_arg);
+            mat_gamma(uint_state, uint_next_one) = c_k * exp(0.5 * l_c * (dbl_arg - dbl_max));
         }
 
         vec_gamma[uint_stage] = mat_gamma;
-- 
2.43.0


From 3382e2c65512e206ee9d77a2cdff4059daa6b277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:59 +0000
Subject: [PATCH 59/93] fix: mid stopped the process for a range of one element

---
 inc/susa/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 5e8826c..6433049 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -867,7 +867,7 @@ matrix <T, Allocator> matrix <T, Allocator>::mid(size_t sizet_begin, size_t size
 
     SUSA_ASSERT(_matrix != nullptr);
     if (_matrix == nullptr) return mat_ret;
-    SUSA_ASSERT(sizet_end > sizet_begin);
+    SUSA_ASSERT(sizet_end >= sizet_begin);
     if (sizet_end < sizet_begin) return mat_ret;
 
     size_t sz_width = sizet_end - sizet_begin + 1;
-- 
2.43.0


From c8f6fbc67fb61c598966f3cd227f605268b0a922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:36 +0000
Subject: [PATCH 60/93] fix: MLSE equaliser ignored the block's tail and mixed
 two paths

---
 inc/susa/channel.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/susa/channel.h b/inc/susa/channel.h
index 5ec0c13..5a1ab11 100644
--- a/inc/susa/channel.h
+++ b/inc/susa/channel.h
@@ -360,7 +360,7 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
     {
         mat_first(uint_i) = norm(conv(flipud(get_mem_state(uint_i)),mat_taps).left(uint_l) - mat_arg.left(uint_l))(0);
         mat_first(uint_i) *= mat_first(uint_i);
-        mat_metric_past(uint_i) = mat_first(uint_i)/uint_l;
+        mat_metric_past(uint_i) = mat_first(uint_i);
     }
 
 
@@ -396,7 +396,7 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
     {
         mat_last(uint_i) = norm(conv(flipud(get_mem_state(uint_i)),mat_taps).right(uint_l) - mat_arg.right(uint_l))(0);
         mat_last(uint_i) *= mat_last(uint_i);
-        mat_metric_next(uint_i) += mat_last(uint_i)/uint_l;
+        mat_metric_past(uint_i) += mat_last(uint_i);
     }
 
 
@@ -417,7 +417,7 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
         mat_ret(uint_stage - 1) = mat_pam(uint_curr_input);
         uint_curr_state = mat_previous_state(uint_curr_state,uint_stage - 1);
     }
-    mat_ret = concat(flipud(get_mem_state(min(mat_first)(0))),mat_ret);
+    mat_ret = concat(flipud(get_mem_state(uint_curr_state)),mat_ret);
 
     return mat_ret;
 } // DECODE_MLSE
-- 
2.43.0


From 7484932300a0c5b42c6510f566a417136a7a9556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:40 +0000
Subject: [PATCH 61/93] fix: MLSE equaliser with a known start read
 uninitialised metrics

---
 inc/susa/channel.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/susa/channel.h b/inc/susa/channel.h
index 5a1ab11..346b34f 100644
--- a/inc/susa/channel.h
+++ b/inc/susa/channel.h
@@ -264,15 +264,15 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
     unsigned int uint_num_states = uint_num_states_mem;
 
 
-    matrix <T> mat_metric_past(uint_num_states, 1);
+    matrix <T> mat_metric_past(uint_num_states, 1, 0);
     matrix <T> mat_metric_next(uint_num_states, 1,std::numeric_limits<T>::max());
 
 
     matrix <unsigned int> mat_survivor_path(uint_num_states, uint_num_stages);
     matrix <unsigned int> mat_previous_state(uint_num_states, uint_num_stages);
 
-    matrix <unsigned int> mat_visited(uint_num_states,1);
-    matrix <unsigned int> mat_visited_forward(uint_num_states,1);
+    matrix <unsigned int> mat_visited(uint_num_states,1,0);
+    matrix <unsigned int> mat_visited_forward(uint_num_states,1,0);
     mat_visited(uint_init_state) = 1;
 
     T dbl_next_output;
@@ -307,7 +307,7 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
         mat_metric_past = mat_metric_next;
         mat_metric_next = matrix <T> (uint_num_states, 1,std::numeric_limits<T>::max());
         mat_visited = mat_visited_forward;
-        mat_visited_forward = matrix <unsigned int> (uint_num_states,1);
+        mat_visited_forward = matrix <unsigned int> (uint_num_states,1,0);
     }
 
 
-- 
2.43.0


From 8e3c215ce78c0f586b44c4282935977ddbe8ebf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:41 +0000
Subject: [PATCH 62/93] fix: BCJR equaliser returned NaN for distant received
 values

---
 inc/susa/channel.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/inc/susa/channel.h b/inc/susa/channel.h
index 346b34f..fd9e849 100644
--- a/inc/susa/channel.h
+++ b/inc/susa/channel.h
@@ -457,15 +457,26 @@ template <class T> matrix <T> channel <T>::decode_bcjr(const matrix <T> &mat_arg
     {
         // Gamma Calculation
 
+        // The likelihoods of a stage are relative to the closest output, otherwise they all vanish for a distant sample.
+        T dbl_min = std::numeric_limits<T>::max();
+        for (unsigned int uint_state = 0; uint_state < uint_num_states; uint_state++)
+        {
+            for (unsigned int uint_pam_index = 0; uint_pam_index < 2; uint_pam_index++)
+            {
+                T dbl_dist = std::pow(mat_arg(uint_stage) - this->next_output(uint_state, uint_pam_index),2);
+                if (dbl_dist < dbl_min) dbl_min = dbl_dist;
+            }
+        }
+
         for (unsigned int uint_state = 0; uint_state < uint_num_states; uint_state++)
         {
 
             uint_next_zero  =  this->next_state(uint_state, 0);
             uint_next_one   =  this->next_state(uint_state, 1);
 
-            mat_gamma(uint_state,uint_next_zero) = exp((-dbl_ebn0) * std::pow(mat_arg(uint_stage) - this->next_output(uint_state, 0),2));
+            mat_gamma(uint_state,uint_next_zero) = exp((-dbl_ebn0) * (std::pow(mat_arg(uint_stage) - this->next_output(uint_state, 0),2) - dbl_min));
 
-            mat_gamma(uint_state,uint_next_one) = exp((-dbl_ebn0) * std::pow(mat_arg(uint_stage) - this->next_output(uint_state, 1),2));
+            mat_gamma(uint_state,uint_next_one) = exp((-dbl_ebn0) * (std::pow(mat_arg(uint_stage) - this->next_output(uint_state, 1),2) - dbl_min));
 
         }
         vec_gamma[uint_stage] = mat_gamma;
-- 
2.43.0


From a9c038cc34f89872480b361b0bbffb11a350d7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:34 +0000
Subject: [PATCH 63/93] fix: rng tempering was not MT19937's

---
 src/rng.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rng.cpp b/src/rng.cpp
index e8bc91e..b25977a 100644
--- a/src/rng.cpp
+++ b/src/rng.cpp
@@ -220,7 +220,7 @@ unsigned int rng::extract_number()
     uint32_t x = MT[uint_index++];
     x = x ^ (x  >> U);
     x = x ^ ((x << S)  & B);
-    x = x ^ ((x << T)  ^ C);
+    x = x ^ ((x << T)  & C);
     x = x ^ (x  >> L);
     return x;
 }
-- 
2.43.0


From 1daa49f3c4738ae79002ba3376591fc46fd6a227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:36 +0000
Subject: [PATCH 64/93] fix: rng delivered the raw seed state and kept its
 position when seeded again

---
 src/rng.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rng.cpp b/src/rng.cpp
index b25977a..453b6f8 100644
--- a/src/rng.cpp
+++ b/src/rng.cpp
@@ -36,7 +36,6 @@ rng::rng()
 
 rng::rng(unsigned int uint_seed)
 {
-    uint_index = 0;
     init(uint_seed);
 }
 
@@ -149,6 +148,9 @@ void rng::init(unsigned int uint_seed)
     {
         MT[indx] = F * (MT[indx - 1] ^ (MT[indx - 1]) >> 30) + indx;
     }
+
+    // The first draw follows a regeneration of the state
+    uint_index = N;
 }
 
 size_t rng::get_nonuniform(double* prob, size_t n)
-- 
2.43.0


From 84031b2167de4fd45e43d204cb0580696a90b001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:38 +0000
Subject: [PATCH 65/93] fix: a default constructed rng drew from uninitialised
 memory

---
 src/rng.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rng.cpp b/src/rng.cpp
index 453b6f8..4b9d92c 100644
--- a/src/rng.cpp
+++ b/src/rng.cpp
@@ -31,7 +31,8 @@ namespace susa {
 // Constructors and Destructor
 rng::rng()
 {
-    uint_index = 0;
+    // MT19937's default seed
+    init(5489);
 }
 
 rng::rng(unsigned int uint_seed)
-- 
2.43.0


From b2006a91c3c625cfcaeaca12215da4c3a377dae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:42 +0000
Subject: [PATCH 66/93] fix: copies of an mt generator shared and twice
 released their state

---
 inc/susa/mt.h | 2 +-
 src/mt.cpp    | 3 ---
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/inc/susa/mt.h b/inc/susa/mt.h
index a32313c..3f9b65e 100644
--- a/inc/susa/mt.h
+++ b/inc/susa/mt.h
@@ -52,7 +52,7 @@ class mt {
     matrix <double>       mat_probabilities;
     matrix <unsigned int> mat_sort_indices;
     matrix <double>       mat_prob_sorted;
-    uint32_t*             uint_mt; /* the array for the state vector  */
+    uint32_t              uint_mt[_MT_N]; /* the array for the state vector  */
     int                   mti;   /* mti==N+1 means mt[N] is not initialized */
 
     void init_genrand(uint32_t s);
diff --git a/src/mt.cpp b/src/mt.cpp
index 3e22a44..27859eb 100644
--- a/src/mt.cpp
+++ b/src/mt.cpp
@@ -28,13 +28,11 @@ namespace susa {
 
 mt::mt()
 {
-    uint_mt = new uint32_t[_MT_N];
     mti = _MT_N + 1;
 }
 
 mt::mt(uint32_t uint_seed)
 {
-    uint_mt = new uint32_t[_MT_N];
     mti = _MT_N + 1;
 
     init_genrand(uint_seed);
@@ -42,7 +40,6 @@ mt::mt(uint32_t uint_seed)
 
 mt::~mt()
 {
-    delete [] uint_mt;
 }
 
 /* initializes uint_mt[_MT_N] with a seed */
-- 
2.43.0


From 2658845235847d85ca15854e8feebecdfc34a094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:43 +0000
Subject: [PATCH 67/93] fix: nonuniform left draws uninitialised when the
 probabilities sum below one

---
 src/mt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mt.cpp b/src/mt.cpp
index 27859eb..a8ad8ea 100644
--- a/src/mt.cpp
+++ b/src/mt.cpp
@@ -281,7 +281,7 @@ unsigned int mt::nonuniform()
 
 matrix <unsigned int> mt::nonuniform(matrix <double> mat_probabilities, unsigned int uint_length)
 {
-  matrix <unsigned int> mat_rand(uint_length, 1);
+  matrix <unsigned int> mat_rand(uint_length, 1, 0);
   unsigned int uint_prob_size = mat_probabilities.size();
   double       dbl_th         = 0;
   double       dbl_rnd        = genrand_real3();
-- 
2.43.0


From 685bebe8a6b8d4c139bfa2fd26256ae97e6eab05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:47 +0000
Subject: [PATCH 68/93] fix: root-raised-cosine spectrum was sampled in
 unsigned integer arithmetic

---
 src/rrcosine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rrcosine.cpp b/src/rrcosine.cpp
index 31a386c..53a7446 100644
--- a/src/rrcosine.cpp
+++ b/src/rrcosine.cpp
@@ -38,7 +38,7 @@ rrcosine::rrcosine(unsigned dbl_l, double dbl_alpha, int int_ord)
     {
         for (int m=-(int_ord - 1)/2; m <= (int_ord - 1)/2 ; m++)
         {
-            cmat_g_T(i) += sqrt(xrc(dbl_l * m / int_ord, dbl_alpha)) * 
+            cmat_g_T(i) += sqrt(xrc((double)dbl_l * m / int_ord, dbl_alpha)) * 
                             exp(std::complex<double>(0, 2 * PI * m * (i - (int_ord - 1)/2)/int_ord));
         }
     }
-- 
2.43.0


From db4af5111d0b6b04ab0709d1c301a4c78c6ef027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:48 +0000
Subject: [PATCH 69/93] fix: QAM of documented orders 8 and 128 stopped the
 process

---
 src/modulation.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/modulation.cpp b/src/modulation.cpp
index 7252af3..7056c3a 100644
--- a/src/modulation.cpp
+++ b/src/modulation.cpp
@@ -44,17 +44,18 @@ qam::qam(unsigned int uint_m)
 : uint_m(uint_m)
 {
     uint_bps                = log2(uint_m);
-    double          dbl_p   = sqrt(uint_m);
-    unsigned int    uint_l  = (unsigned int)(uint_m/dbl_p);
+    // The constellation is square, or rectangular for an odd number of bits per symbol
+    unsigned int    uint_p  = 1u << (uint_bps / 2);
+    unsigned int    uint_l  = uint_m / uint_p;
 
     // Constellation generation
-    mat_s    = matrix < std::complex <double> > (uint_l, uint_l, std::complex <double>(0,0));
-    mat_axis = matrix < std::complex <double> > ((unsigned int)dbl_p, 1, std::complex <double>(0,0));
-
-    for (unsigned int i=0; i < dbl_p; i++)
-        mat_axis(i) = std::complex <double> (i - (dbl_p - 1)/2,i - (dbl_p - 1)/2);
+    mat_s    = matrix < std::complex <double> > (uint_p, uint_l, std::complex <double>(0,0));
+    mat_axis = matrix < std::complex <double> > (uint_l, 1, std::complex <double>(0,0));
 
     for (unsigned int i=0; i < uint_l; i++)
+        mat_axis(i) = std::complex <double> (i - (uint_p - 1)/2.0,i - (uint_l - 1)/2.0);
+
+    for (unsigned int i=0; i < uint_p; i++)
     {
         for (unsigned int j=0; j < uint_l; j++)
         {
-- 
2.43.0


From b89724b2b0d72ec48bcd6c44d9a5bed1d167acc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:05 +0000
Subject: [PATCH 70/93] fix: time stamps were wrong outside the years 2000 to
 2099

---
 src/utility.cpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/utility.cpp b/src/utility.cpp
index 566be7c..03869b2 100644
--- a/src/utility.cpp
+++ b/src/utility.cpp
@@ -62,12 +62,7 @@ std::string timestamp()
 
     time(&rawtime);
     ptm = localtime(&rawtime);
-    ss_ret << std::string("20");
-
-    ss_itos.str(std::string());
-    ss_itos << ptm->tm_year - 100;
-    if (ss_itos.str().length() > 1) ss_ret << ss_itos.str();
-    else ss_ret << std::string("0") << ss_itos.str();
+    ss_ret << ptm->tm_year + 1900;
 
     ss_itos.str(std::string());
     ss_itos << ptm->tm_mon+1;
-- 
2.43.0


From 69ee3f9787d804a5e223ec346ee1d4ac133d53d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:32 +0000
Subject: [PATCH 71/93] fix: selections of more elements than there are
 returned uninitialised positions with assertions disabled

---
 inc/susa/search.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index ad92a89..7afadb6 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -113,7 +113,7 @@ template <class T> matrix <unsigned int> select_least(const matrix <T> &mat_arg,
     SUSA_ASSERT_MESSAGE(mat_arg.is_vector(), "this method supports one dimensional matrices (vectors) only.");
 
     unsigned int uint_size = mat_arg.size();
-    matrix <unsigned int> mat_index(uint_num, 1);
+    matrix <unsigned int> mat_index(uint_num, 1, 0);
 
     SUSA_ASSERT_MESSAGE(uint_size >= uint_num, "The number of elements to be selected is larger than the matrix size.");
 
@@ -150,7 +150,7 @@ template <class T> matrix <unsigned int> select_limited_least(const matrix <T> &
     SUSA_ASSERT_MESSAGE(mat_arg.is_vector(), "this method supports one dimensional matrices (vectors) only.");
 
     unsigned int uint_size = mat_arg.size();
-    matrix <unsigned int> mat_index(uint_num, 1);
+    matrix <unsigned int> mat_index(uint_num, 1, 0);
 
     SUSA_ASSERT_MESSAGE(uint_size >= uint_num, "The number of elements to be selected is larger than the matrix size.");
     if (uint_size < uint_num)
@@ -185,7 +185,7 @@ template <class T> matrix <unsigned int> select_most(const matrix <T> &mat_arg,
     SUSA_ASSERT_MESSAGE(mat_arg.is_vector(), "this method supports one dimensional matrices (vectors) only.");
 
     unsigned int uint_size = mat_arg.size();
-    matrix <unsigned int> mat_index(uint_num, 1);
+    matrix <unsigned int> mat_index(uint_num, 1, 0);
 
 
     SUSA_ASSERT_MESSAGE(uint_size >= uint_num,
-- 
2.43.0


From c5cc52964bbf0a348fec42b4f6ca2e5b1bf0fa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:44 +0000
Subject: [PATCH 72/93] fix: sort_indices() of a matrix returned uninitialised
 positions with assertions disabled

---
 inc/susa/search.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index 7afadb6..f5c985b 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -301,7 +301,7 @@ template <class T> matrix <unsigned int> sort_indices(const matrix <T> &mat_arg)
     unsigned int uint_size = mat_arg.size();
 
     matrix <T>   mat_elements = mat_arg;
-    matrix <unsigned int> mat_indices(uint_size, 1);
+    matrix <unsigned int> mat_indices(uint_size, 1, 0);
 
     T            T_max        = mat_arg(max(mat_arg)(0));
     unsigned int uint_indx    = 0;
-- 
2.43.0


From 2e0d06ac3958b0bc546f777f3992617fc1450a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:52 +0000
Subject: [PATCH 73/93] fix: radix2() of columns that are no power of two
 returned uninitialised samples with assertions disabled

---
 inc/susa/fft.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/fft.h b/inc/susa/fft.h
index eec889c..597fbf9 100644
--- a/inc/susa/fft.h
+++ b/inc/susa/fft.h
@@ -64,7 +64,7 @@ class fft <T, Allocator, typename std::enable_if_t<std::is_floating_point<T>::va
         }
         else
         {
-            mat_ret = matrix <std::complex<T>, complex_allocator> (mat_arg.shape());
+            mat_ret = matrix <std::complex<T>, complex_allocator> (mat_arg.shape(), std::complex <T> (0,0));
             for (size_t sz_col = 0; sz_col < mat_arg.no_cols(); sz_col++)
             {
                 mat_ret.set_col(sz_col, vector_radix2(mat_arg.col(sz_col)));
-- 
2.43.0


From db131105ca83330ec79751797e9d6541d0979a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:34 +0000
Subject: [PATCH 74/93] fix: dijkstra() of an empty graph returned an
 uninitialised predecessor with assertions disabled

---
 inc/susa/search.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/search.h b/inc/susa/search.h
index f5c985b..1b74253 100644
--- a/inc/susa/search.h
+++ b/inc/susa/search.h
@@ -243,7 +243,7 @@ template <class T> matrix <unsigned int> dijkstra(const matrix <T> &mat_graph, u
   using weight = decltype(T() + 0u);
   unsigned int uint_num_nodes = mat_graph.no_cols();
   susa::matrix <weight> dist(uint_num_nodes, 1, std::numeric_limits<weight>::max());
-  susa::matrix <unsigned int> prev(uint_num_nodes, 1);
+  susa::matrix <unsigned int> prev(uint_num_nodes, 1, 0);
 
   // a node that is not reached is its own predecessor
   for (unsigned int uint_index = 0; uint_index < uint_num_nodes; uint_index++) prev(uint_index) = uint_index;
-- 
2.43.0


From 466da941b67e9d3f4dfb70c92b2d2c6b270bd746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:31 +0000
Subject: [PATCH 75/93] fix: elementwise operators over different sizes
 returned uninitialised elements with assertions disabled

---
 inc/susa/matrix.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 6433049..a258743 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -1092,6 +1092,10 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator+(const m
             mat_ret._matrix[sizet_index] = mat_argl._matrix[sizet_index] + mat_argr._matrix[sizet_index];
         }
     }
+    else
+    {
+        mat_ret.set_all(T());
+    }
 
     return mat_ret;
 }
@@ -1144,6 +1148,10 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator-( const
             mat_ret._matrix[sizet_index] = mat_argl._matrix[sizet_index] - mat_argr._matrix[sizet_index];
         }
     }
+    else
+    {
+        mat_ret.set_all(T());
+    }
 
     return mat_ret;
 }
@@ -1194,6 +1202,10 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator*( const
             mat_ret._matrix[sizet_index] = mat_argl._matrix[sizet_index] * mat_argr._matrix[sizet_index];
         }
     }
+    else
+    {
+        mat_ret.set_all(T());
+    }
 
     return mat_ret;
 }
@@ -1244,6 +1256,10 @@ template <typename T, typename Allocator> matrix<T, Allocator> operator/( const
             mat_ret._matrix[sizet_index] = mat_argl._matrix[sizet_index] / mat_argr._matrix[sizet_index];
         }
     }
+    else
+    {
+        mat_ret.set_all(T());
+    }
 
     return mat_ret;
 }
-- 
2.43.0


From 1c8d66b35217dd702f958a6ee6a87a92e8c2850b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:09 +0000
Subject: [PATCH 76/93] fix: ccode::set_generator() wrote outside the
 generators with assertions disabled

---
 src/ccode.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ccode.cpp b/src/ccode.cpp
index 783ae84..fb7ae6c 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -68,6 +68,7 @@ ccode::ccode(uint32_t uint_n, uint32_t uint_k, uint32_t uint_m)
 void ccode::set_generator(uint32_t uint_gen, uint32_t uint_gen_indx)
 {
     SUSA_ASSERT_MESSAGE(uint_gen_indx < uint_n, "id exceeded the number of generators.");
+    if (uint_gen_indx >= uint_n) return;
     this->uint_gen[uint_gen_indx] = oct_to_dec(uint_gen);
 }
 
-- 
2.43.0


From 000e502f37dc3f2e0f2bee7138f602786fbf4e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:05 +0000
Subject: [PATCH 77/93] fix: BCJR decoder knew the first eight outputs of a
 code only

---
 src/ccode.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ccode.cpp b/src/ccode.cpp
index fb7ae6c..54eeaf0 100755
--- a/src/ccode.cpp
+++ b/src/ccode.cpp
@@ -216,7 +216,7 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
             dbl_arg = 0;
             for (uint32_t uint_i = 0; uint_i < uint_n; uint_i++)
             {
-                dbl_arg += mat_arg(uint_n * uint_stage + uint_i) * (((this->next_output(uint_state,false) >> uint_i) & 0x1) == 0 ? -1 : 1);
+                dbl_arg += mat_arg(uint_n * uint_stage + uint_i) * ((count_1bits(uint_state & uint_gen[uint_i]) % 2) == 0 ? -1 : 1);
             }
 
             mat_gamma(uint_state, uint_next_zero) = (1 - c_k) * exp(0.5 * l_c * (dbl_arg - dbl_max));
@@ -224,7 +224,7 @@ matrix <double> ccode::decode_bcjr(const matrix <double> &mat_arg, double dbl_eb
             dbl_arg = 0;
             for (uint32_t uint_i = 0; uint_i < uint_n; uint_i++)
             {
-                dbl_arg += mat_arg(uint_n * uint_stage + uint_i) * (((this->next_output(uint_state,true) >> uint_i) & 0x1) == 0 ? -1 : 1);
+                dbl_arg += mat_arg(uint_n * uint_stage + uint_i) * ((count_1bits((uint_state | (1<<uint_m)) & uint_gen[uint_i]) % 2) == 0 ? -1 : 1);
             }
 
             mat_gamma(uint_state, uint_next_one) = c_k * exp(0.5 * l_c * (dbl_arg - dbl_max));
-- 
2.43.0


From ec4314e4d05e83bf8e0f7e0d5f5f292cb6b36ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:32 +0000
Subject: [PATCH 78/93] fix: array gave access to other elements out of its
 range with assertions disabled

---
 inc/susa/array.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index 1d09b8f..468825e 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -108,6 +108,7 @@ namespace susa
         return this->_matrix[uint_index];
       }
 
+      T_default = T();
       return T_default;
     }
 
@@ -320,9 +321,8 @@ namespace susa
 
     SUSA_ASSERT_MESSAGE(uint_elem < uint_total, "the element index is out of range.");
 
-    if (uint_elem < uint_total) return uint_elem;
-
-    return 0;
+    // an index out of range is refused by the callers
+    return uint_elem;
   }
 
   template <typename T, typename Allocator>
-- 
2.43.0


From d2b4b3687b7e0161c1e5ba8b90d13ca03e830233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:52 +0000
Subject: [PATCH 79/93] fix: svd() of a matrix with undefined or infinite
 elements read out of range

---
 src/svd.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/svd.cpp b/src/svd.cpp
index bdec3de..ff67a27 100644
--- a/src/svd.cpp
+++ b/src/svd.cpp
@@ -224,7 +224,7 @@ int svd(const matrix <float> &mat_arg_a,
             for (l = k; l >= 0; l--)
             { // test for splitting
                 nm = l - 1;
-                if (negligible(rv1(l)))
+                if (l == 0 || negligible(rv1(l))) // there is nothing above the first one
                 {
                     flag = 0;
                     break;
-- 
2.43.0


From dbc7d2fa75b78f3e062d122536e64ef65e6a750a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:20 +0000
Subject: [PATCH 80/93] fix: channel::decode_mlse() followed uninitialized
 states for undefined or infinite samples

---
 inc/susa/channel.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/susa/channel.h b/inc/susa/channel.h
index fd9e849..67f621c 100644
--- a/inc/susa/channel.h
+++ b/inc/susa/channel.h
@@ -268,8 +268,8 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
     matrix <T> mat_metric_next(uint_num_states, 1,std::numeric_limits<T>::max());
 
 
-    matrix <unsigned int> mat_survivor_path(uint_num_states, uint_num_stages);
-    matrix <unsigned int> mat_previous_state(uint_num_states, uint_num_stages);
+    matrix <unsigned int> mat_survivor_path(uint_num_states, uint_num_stages, 0);
+    matrix <unsigned int> mat_previous_state(uint_num_states, uint_num_stages, 0);
 
     matrix <unsigned int> mat_visited(uint_num_states,1,0);
     matrix <unsigned int> mat_visited_forward(uint_num_states,1,0);
@@ -348,8 +348,8 @@ template <class T> matrix <T> channel <T>::decode_mlse(const matrix <T> &mat_arg
     matrix <T> mat_metric_past(uint_num_states, 1);
     matrix <T> mat_metric_next(uint_num_states, 1,std::numeric_limits<T>::max());
 
-    matrix <unsigned int> mat_survivor_path(uint_num_states, uint_num_stages);
-    matrix <unsigned int> mat_previous_state(uint_num_states, uint_num_stages);
+    matrix <unsigned int> mat_survivor_path(uint_num_states, uint_num_stages, 0);
+    matrix <unsigned int> mat_previous_state(uint_num_states, uint_num_stages, 0);
 
 
     // First
-- 
2.43.0


From 3fd888c5f8f5362c039ed6cdb2b0e1a4e1786b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:50 +0000
Subject: [PATCH 81/93] fix: rank() amplified the rounding errors by small
 pivots

---
 inc/susa/linalg.h | 49 ++++++++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 20 deletions(-)

diff --git a/inc/susa/linalg.h b/inc/susa/linalg.h
index c46f4f7..559fcad 100644
--- a/inc/susa/linalg.h
+++ b/inc/susa/linalg.h
@@ -392,33 +392,42 @@ unsigned int rank(susa::matrix<T, Allocator<T>> mat_in, double epsilon = 1e-9)
 
 
     susa::matrix <bool, Allocator<bool>> row_selected(sz_rows, 1, false);
-    for (size_t sz_col = 0; sz_col < sz_cols; ++sz_col)
+    susa::matrix <bool, Allocator<bool>> col_selected(sz_cols, 1, false);
+    while (uint_ret < sz_rows && uint_ret < sz_cols)
     {
-        size_t sz_row;
-        for (sz_row = 0; sz_row < sz_rows; ++sz_row)
+        // the largest of the remaining elements is the pivot, a small one would amplify the rounding errors
+        size_t sz_row    = sz_rows;
+        size_t sz_col    = sz_cols;
+        double dbl_pivot = epsilon;
+        for (size_t p = 0; p < sz_cols; ++p)
         {
-            if (!row_selected(sz_row) && std::abs(mat_arg(sz_row,sz_col)) > epsilon)
-                break;
+            for (size_t k = 0; k < sz_rows; ++k)
+            {
+                if (!col_selected(p) && !row_selected(k) && std::abs(mat_arg(k,p)) > dbl_pivot)
+                {
+                    dbl_pivot = std::abs(mat_arg(k,p));
+                    sz_row    = k;
+                    sz_col    = p;
+                }
+            }
         }
 
-        if (sz_row != sz_rows)
+        if (sz_row == sz_rows) break;
+
+        uint_ret++;
+        row_selected(sz_row) = true;
+        col_selected(sz_col) = true;
+        for (size_t p = 0; p < sz_cols; ++p)
         {
-            uint_ret++;
-            row_selected(sz_row) = true;
-            for (size_t p = sz_col + 1; p < sz_cols; ++p)
-            {
-                mat_arg(sz_row,p) /= mat_arg(sz_row,sz_col);
-            }
+            if (!col_selected(p)) mat_arg(sz_row,p) /= mat_arg(sz_row,sz_col);
+        }
 
-            for (size_t k = 0; k < sz_rows; ++k)
+        for (size_t k = 0; k < sz_rows; ++k)
+        {
+            if (row_selected(k)) continue;
+            for (size_t p = 0; p < sz_cols; ++p)
             {
-                if (k != sz_row && std::abs(mat_arg(k,sz_col)) > epsilon)
-                {
-                    for (size_t p = sz_col + 1; p < sz_cols; ++p)
-                    {
-                        mat_arg(k,p) -= mat_arg(sz_row,p) * mat_arg(k,sz_col);
-                    }
-                }
+                if (!col_selected(p)) mat_arg(k,p) -= mat_arg(sz_row,p) * mat_arg(k,sz_col);
             }
         }
     }
-- 
2.43.0


From a313988f4df6325bc78eea85d974a8f6b7fb7913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:51 +0000
Subject: [PATCH 82/93] fix: svd() lost the orthogonality of its factors for
 large matrices of low rank

---
 src/svd.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/svd.cpp b/src/svd.cpp
index ff67a27..4425a38 100644
--- a/src/svd.cpp
+++ b/src/svd.cpp
@@ -73,6 +73,13 @@ int svd(const matrix <float> &mat_arg_a,
     mat_arg_s.resize(p, 1);
     mat_arg_v.resize(p, p);
 
+    // the residue of eliminated columns vanishes below the normal range of single precision,
+    // where the reflections lose their orthogonality
+    double amax = 0.0;
+    for (i = 0; i < m * n; i++) amax = MAX(amax, fabs((double)mat_arg_u(i)));
+    const double residue = std::min(amax * std::numeric_limits<float>::epsilon(),
+                                    (double)std::numeric_limits<float>::min() / std::numeric_limits<float>::epsilon());
+
     /* Householder reduction to bidiagonal form */
     for (i = 0; i < n; i++)
     {
@@ -84,6 +91,7 @@ int svd(const matrix <float> &mat_arg_a,
         {
             for (k = i; k < m; k++)
                 scale += fabs((double)mat_arg_u(k,i));
+            if (scale < residue) scale = 0.0;
             if (scale)
             {
                 for (k = i; k < m; k++)
@@ -118,6 +126,7 @@ int svd(const matrix <float> &mat_arg_a,
         {
             for (k = l; k < n; k++)
                 scale += fabs((double)mat_arg_u(i,k));
+            if (scale < residue) scale = 0.0;
             if (scale)
             {
                 for (k = l; k < n; k++)
-- 
2.43.0


From 4f0f326d20f64a8f39d34d7163ffb35e47c5a2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:26 +0000
Subject: [PATCH 83/93] fix: awgn() computed the power of the signal in the
 type of its samples

---
 inc/susa/modulation.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/inc/susa/modulation.h b/inc/susa/modulation.h
index 301e81b..0aff651 100644
--- a/inc/susa/modulation.h
+++ b/inc/susa/modulation.h
@@ -99,15 +99,20 @@ auto awgn(matrix <T, Allocator<T>> mat_signal, float flt_snr_db, unsigned ovs =
     // N0 = P / gamma
     // Noise_var = N0 / 2
 
-    double P;
-    if constexpr (is_complex<T>::value)
-    {
-        P = ovs * sum(sum(mag(mat_signal)))(0)/mat_signal.size();
-    }
-    else
+    // the power does not fit the type of the samples in general
+    double P = 0;
+    for (size_t indx = 0; indx < mat_signal.size(); indx++)
     {
-        P = ovs * sum(sum(mat_signal * mat_signal))(0)/mat_signal.size();
+        if constexpr (is_complex<T>::value)
+        {
+            P += std::norm(std::complex<double>(mat_signal(indx).real(), mat_signal(indx).imag()));
+        }
+        else
+        {
+            P += (double)mat_signal(indx) * (double)mat_signal(indx);
+        }
     }
+    P = ovs * P / mat_signal.size();
 
     double gamma        = std::pow(10, flt_snr_db/10);
     double N0           = P / gamma;
-- 
2.43.0


From b6751a646362e6fc2b118e99db54e1e4d8befdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:23 +0000
Subject: [PATCH 84/93] fix: lup divided by a zero pivot when the tolerance was
 zero

---
 inc/susa/solver.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index 4b686e8..74f29d2 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -244,7 +244,7 @@ template <class T> bool lup<T>::decompose()
             }
         }
 
-        if (T_max < dbl_tol) return false;
+        if (T_max < dbl_tol || T_max == 0) return false;
 
         if (sizet_max_row != sizet_col)
         {
@@ -333,7 +333,7 @@ template <class T> bool lup<T>::decompose_alt()
             }
         }
 
-        if (Umax < dbl_tol) return false;
+        if (Umax < dbl_tol || Umax == 0) return false;
 
         if (i != row)
         { //swap rows
-- 
2.43.0


From 03cf9e936ada26adead8682c26cc031da0a7c460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:26 +0000
Subject: [PATCH 85/93] fix: lup::decompose() did not provide the pivot

---
 inc/susa/solver.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index 74f29d2..ca00661 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -220,6 +220,7 @@ template <class T> bool lup<T>::decompose()
     if (!mat_a.is_square()) return false;
 
     mat_lu      = mat_a;
+    mat_pp      = eye <T> (sizet_n);
     mat_p       = matrix<size_t>(sizet_n + 1, 1);
 
     for (size_t indx = 0; indx <= sizet_n; indx++)
@@ -250,6 +251,7 @@ template <class T> bool lup<T>::decompose()
         {
             std::swap(mat_p(sizet_max_row), mat_p(sizet_col));
             mat_lu.swap_rows(sizet_max_row, sizet_col);
+            mat_pp.swap_rows(sizet_max_row, sizet_col);
             mat_p(sizet_n)++;
         }
 
-- 
2.43.0


From f4272687215422d62d63087d5f974b3995af5ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:22 +0000
Subject: [PATCH 86/93] fix: mean() and norm() of integers overflowed in the
 element type

---
 inc/susa/base.h        | 22 ++++++++++++----------
 inc/susa/statistics.h  |  6 +++---
 inc/susa/type_traits.h | 16 ++++++++++++++++
 3 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index 69b15c2..6f80bad 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -337,16 +337,16 @@ template <typename T, typename Allocator>
 matrix <T, Allocator> mean(const matrix <T, Allocator> &mat_arg)
 {
     matrix <T, Allocator>   mat_ret;
-    T                       T_ret(0);
+    typename sum_type<T>::type T_ret(0);
 
     if (mat_arg.no_rows() == 1 || mat_arg.no_cols() == 1)
     {
         for (size_t uint_i = 0; uint_i < mat_arg.size(); uint_i++)
         {
-            T_ret += mat_arg(uint_i);
+            T_ret += static_cast<typename sum_type<T>::type>(mat_arg(uint_i));
         }
         T_ret /= static_cast<std::ptrdiff_t>(mat_arg.size());
-        mat_ret = matrix <T, Allocator> (1, 1, T_ret);
+        mat_ret = matrix <T, Allocator> (1, 1, static_cast<T>(T_ret));
     }
     else if (mat_arg.no_rows() > 1 && mat_arg.no_cols() > 1)
     {
@@ -356,12 +356,12 @@ matrix <T, Allocator> mean(const matrix <T, Allocator> &mat_arg)
         {
             for (size_t uint_row = 0; uint_row < no_rows; uint_row++)
             {
-                T_ret += mat_arg(uint_row, uint_col);
+                T_ret += static_cast<typename sum_type<T>::type>(mat_arg(uint_row, uint_col));
             }
 
             T_ret               /= static_cast<std::ptrdiff_t>(no_rows);
-            mat_ret(uint_col)   = T_ret;
-            T_ret               = T(0);
+            mat_ret(uint_col)   = static_cast<T>(T_ret);
+            T_ret               = 0;
         }
     }
 
@@ -496,15 +496,16 @@ template <typename T, typename Allocator>
 matrix <T, Allocator> norm(const matrix <T, Allocator> &mat_arg)
 {
     matrix <T, Allocator> mat_ret;
+    decltype(std::norm(typename sum_type<T>::type(0))) squares(0);
 
     if (mat_arg.is_vector())
     {
         mat_ret = matrix <T, Allocator> (1,1, T(0));
         for (size_t uint_i = 0; uint_i < mat_arg.size(); uint_i++)
         {
-            mat_ret(0) += std::norm(mat_arg(uint_i));
+            squares += std::norm(static_cast<typename sum_type<T>::type>(mat_arg(uint_i)));
         }
-        mat_ret(0) = std::sqrt(mat_ret(0));
+        mat_ret(0) = static_cast<T>(std::sqrt(squares));
     }
     else
     {
@@ -513,9 +514,10 @@ matrix <T, Allocator> norm(const matrix <T, Allocator> &mat_arg)
         {
             for (size_t uint_row = 0; uint_row < mat_arg.no_rows(); uint_row++)
             {
-                mat_ret(uint_col) += std::norm(mat_arg(uint_row,uint_col));
+                squares += std::norm(static_cast<typename sum_type<T>::type>(mat_arg(uint_row,uint_col)));
             }
-            mat_ret(uint_col) = std::sqrt(mat_ret(uint_col));
+            mat_ret(uint_col) = static_cast<T>(std::sqrt(squares));
+            squares = 0;
         }
     }
     return mat_ret;
diff --git a/inc/susa/statistics.h b/inc/susa/statistics.h
index 78fc045..f200508 100644
--- a/inc/susa/statistics.h
+++ b/inc/susa/statistics.h
@@ -55,13 +55,13 @@ template <class T> double stdv(std::vector <T> vec_arg);
 
 template <class T> T mean(std::vector <T> vec_arg)
 {
-    T tMean=0;
+    typename sum_type<T>::type tMean=0;
     for (int i=0; i<vec_arg.size(); i++)
     {
-        tMean += vec_arg[i];
+        tMean += static_cast<typename sum_type<T>::type>(vec_arg[i]);
     }
 
-    return (tMean/static_cast<std::ptrdiff_t>(vec_arg.size()));
+    return static_cast<T>(tMean/static_cast<std::ptrdiff_t>(vec_arg.size()));
 }
 
 
diff --git a/inc/susa/type_traits.h b/inc/susa/type_traits.h
index 3684cd6..3d910bc 100644
--- a/inc/susa/type_traits.h
+++ b/inc/susa/type_traits.h
@@ -25,6 +25,8 @@
 #ifndef SUSA_TYPE_TRAITS_H
 #define SUSA_TYPE_TRAITS_H
 
+#include <complex>
+#include <cstdint>
 #include <type_traits>
 
 #ifndef DOXYGEN_SHOULD_SKIP_THIS
@@ -36,6 +38,20 @@ template<class T> struct is_complex : public std::false_type {};
 
 template<class T> struct is_complex<std::complex<T>> : public std::true_type {};
 
+// The type in which elements are accumulated. The sum of integers can be
+// much larger than their mean or norm.
+template<class T, typename Enable = void> struct sum_type { using type = T; };
+
+template<class T> struct sum_type<T, std::enable_if_t<std::is_integral<T>::value>>
+{
+    using type = std::conditional_t<std::is_signed<T>::value, std::intmax_t, std::uintmax_t>;
+};
+
+template<class T> struct sum_type<std::complex<T>, std::enable_if_t<std::is_integral<T>::value>>
+{
+    using type = std::complex<typename sum_type<T>::type>;
+};
+
 template<typename, typename>
 struct get_allocator {};
 
-- 
2.43.0


From 82ae49f49aaa3f96bd4894e318aaa8818bbbbcd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:15 +0000
Subject: [PATCH 87/93] fix: complex elements could not be parsed

---
 src/matrix.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/matrix.cpp b/src/matrix.cpp
index 3124734..a7f4452 100644
--- a/src/matrix.cpp
+++ b/src/matrix.cpp
@@ -55,10 +55,17 @@ void pre_parser(std::string& str_string)
         }
     }
 
-    // (1) Replace tabs, "," and brackets with spaces
+    // (1) Replace tabs, "," and brackets with spaces. A "," between parentheses
+    // separates the real and the imaginary parts of a complex number.
+    bool bool_complex = false;
     for (int int_i = 0; int_i < int_length; int_i++)
+    {
+        if (str_string[int_i] == '(') bool_complex = true;
+        if (str_string[int_i] == ')' || str_string[int_i] == ';') bool_complex = false;
+        if (str_string[int_i] == ',' && bool_complex) continue;
         if (str_string[int_i] == 0x09 || str_string[int_i] == ',' || str_string[int_i] == '[' || str_string[int_i] == ']')
             str_string[int_i] = 0x20;
+    }
 
     // (2) Remove spaces (0x20) after ';'
     int int_counter = 0;
@@ -78,17 +85,22 @@ void pre_parser(std::string& str_string)
 
 
     // (3) This is to remove extra spaces.
-    int_counter = 0;
+    int_counter  = 0;
+    bool_complex = false;
     for (int int_i = 0; int_i < int_length; int_i++)
     {
+        if (str_string[int_i] == '(') bool_complex = true;
+        if (str_string[int_i] == ')' || str_string[int_i] == ';') bool_complex = false;
+
         if (str_string[int_i] != 0x20 && str_string[int_i] != ']' && str_string[int_i] != '[')
         {
             str_string[int_counter] = str_string[int_i];
             int_counter++;
         }
-        else if (str_string[int_i] == 0x20 && str_string[int_i + 1] != ';' &&
+        else if (str_string[int_i] == 0x20 && !bool_complex && str_string[int_i + 1] != ';' &&
                   (str_string[int_i + 1] >  0x2F  ||
                    str_string[int_i + 1] == '.'   ||    // decimal
+                   str_string[int_i + 1] == '('   ||    // complex
                    str_string[int_i + 1] == 0x2B  ||    // '+'
                    str_string[int_i + 1] == 0x2D))      // '-'
         {
-- 
2.43.0


From 1e0d769f94abae378539c3f73e8a9e1fb308d536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:19 +0000
Subject: [PATCH 88/93] fix: elements of matrix<char> were parsed as characters

---
 inc/susa/matrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index a258743..0d04c5a 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -1503,7 +1503,7 @@ bool matrix <T, Allocator>::parser(std::string str_string)
     std::string str_row;
     std::string str_elem;
 
-    std::conditional_t<std::is_same_v<T, uint8_t> || std::is_same_v<T, int8_t>, int,
+    std::conditional_t<std::is_same_v<T, uint8_t> || std::is_same_v<T, int8_t> || std::is_same_v<T, char>, int,
     std::conditional_t<std::is_same_v<T, std::complex<uint8_t>> || std::is_same_v<T, std::complex<int8_t>>, std::complex<int>, T>> T_tmp;
 
     for (size_t sizet_row = 0; sizet_row < sizet_rows; sizet_row++)
-- 
2.43.0


From 9fe09e81b51c6dc426a1eb92d537558445de8c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:23 +0000
Subject: [PATCH 89/93] fix: abs() of complex integers divided integers

---
 inc/susa/base.h | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/inc/susa/base.h b/inc/susa/base.h
index 6f80bad..bd07d5a 100644
--- a/inc/susa/base.h
+++ b/inc/susa/base.h
@@ -368,11 +368,28 @@ matrix <T, Allocator> mean(const matrix <T, Allocator> &mat_arg)
     return mat_ret;
 }
 
+// The absolute value of an element. std::abs() is unspecified for complex
+// integers and it divides by integers where it is available.
+template <typename T>
+inline T abs_element(const T &arg)
+{
+    if constexpr (is_complex<T>::value)
+    {
+        if constexpr (std::is_integral<typename T::value_type>::value)
+        {
+            using S = typename sum_type<T>::type;
+            return T(static_cast<typename T::value_type>(std::sqrt(std::norm(static_cast<S>(arg)))));
+        }
+        else return std::abs(arg);
+    }
+    else return std::abs(arg);
+}
+
 template <typename T>
 std::vector <T> abs(const std::vector <T> &vec_arg)
 {
     std::vector <T> vec_abs(vec_arg.size(),0);
-    for (size_t i = 0; i < vec_arg.size(); i++) vec_abs[i] = std::abs(vec_arg[i]);
+    for (size_t i = 0; i < vec_arg.size(); i++) vec_abs[i] = abs_element(vec_arg[i]);
     return vec_abs;
 }
 
@@ -383,7 +400,7 @@ susa::matrix <T, Allocator> abs(const susa::matrix <T, Allocator> &mat_arg)
     size_t size = mat_arg.size();
     for (size_t uint_i = 0; uint_i < size; uint_i++)
     {
-        mat_ret(uint_i) = std::abs(mat_arg(uint_i));
+        mat_ret(uint_i) = abs_element(mat_arg(uint_i));
     }
 
     return mat_ret;
-- 
2.43.0


From c0410e5ccb6db5e2e471cd5357ed5153ef30c221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:49 +0000
Subject: [PATCH 90/93] fix: a matrix whose number of elements does not fit
 size_t claimed elements it did not own

---
 inc/susa/matrix.h | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 0d04c5a..7140e69 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -106,6 +106,12 @@ template <typename T, typename Allocator = std::allocator <T>> class matrix
 
     bool    allocate(size_t sz_objects);
 
+    //! compute the number of elements. It is more than any allocator provides when it does not fit size_t.
+    static size_t count(size_t sizet_rows, size_t sizet_cols)
+    {
+        return sizet_rows > SIZE_MAX / sizet_cols ? SIZE_MAX : sizet_rows * sizet_cols;
+    }
+
   public:
     //! Constructor
     matrix();
@@ -410,7 +416,7 @@ matrix <T, Allocator>::matrix(size_t sizet_rows, size_t sizet_cols, T Tinitial)
 
   this->sizet_rows = sizet_rows < 2 ? 1 : sizet_rows;
   this->sizet_cols = sizet_cols < 2 ? 1 : sizet_cols;
-  sizet_objects = this->sizet_rows * this->sizet_cols;
+  sizet_objects = count(this->sizet_rows, this->sizet_cols);
 
   if (!allocate(sizet_objects)) return;
 
@@ -429,7 +435,7 @@ matrix <T, Allocator>::matrix( size_t sizet_rows, size_t sizet_cols )
     SUSA_ASSERT(sizet_cols > 0 && sizet_rows > 0);
     this->sizet_rows = sizet_rows < 2 ? 1 : sizet_rows;
     this->sizet_cols = sizet_cols < 2 ? 1 : sizet_cols;
-    sizet_objects = this->sizet_rows * this->sizet_cols;
+    sizet_objects = count(this->sizet_rows, this->sizet_cols);
     allocate(sizet_objects);
 }
 
@@ -461,7 +467,7 @@ matrix <T, Allocator>::matrix(const std::tuple<size_t, size_t>& tshape)
     SUSA_ASSERT(sizet_cols > 0 && sizet_rows > 0);
     this->sizet_rows = sizet_rows < 2 ? 1 : sizet_rows;
     this->sizet_cols = sizet_cols < 2 ? 1 : sizet_cols;
-    sizet_objects = this->sizet_rows * this->sizet_cols;
+    sizet_objects = count(this->sizet_rows, this->sizet_cols);
     allocate(sizet_objects);
 }
 
@@ -477,7 +483,7 @@ matrix <T, Allocator>::matrix(const std::tuple<size_t, size_t>& tshape, T Tiniti
     SUSA_ASSERT(sizet_cols > 0 && sizet_rows > 0);
     this->sizet_rows    = sizet_rows < 2 ? 1 : sizet_rows;
     this->sizet_cols    = sizet_cols < 2 ? 1 : sizet_cols;
-    sizet_objects       = this->sizet_rows * this->sizet_cols;
+    sizet_objects       = count(this->sizet_rows, this->sizet_cols);
 
     if(!allocate(sizet_objects)) return;
 
@@ -767,7 +773,7 @@ bool matrix<T, Allocator>::resize(size_t sizet_rows, size_t sizet_cols)
 
     this->sizet_rows        = sizet_rows < 2 ? 1 : sizet_rows;
     this->sizet_cols        = sizet_cols < 2 ? 1 : sizet_cols;
-    size_t sizet_objects    = this->sizet_rows * this->sizet_cols;
+    size_t sizet_objects    = count(this->sizet_rows, this->sizet_cols);
 
     if (sizet_objects != this->sizet_objects)
     {
-- 
2.43.0


From 85df729bae83cb31cf6a9b9e0c7f50be743e9b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:51 +0000
Subject: [PATCH 91/93] fix: an array whose number of elements does not fit
 size_t was accepted

---
 inc/susa/array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/inc/susa/array.h b/inc/susa/array.h
index 468825e..78a8213 100644
--- a/inc/susa/array.h
+++ b/inc/susa/array.h
@@ -154,7 +154,8 @@ namespace susa
     uint_total = 1;
     for (auto dim_size : vec_dims)
     {
-      uint_total *= dim_size;
+      // more elements than any allocator provides
+      uint_total = (dim_size != 0 && uint_total > SIZE_MAX / dim_size) ? SIZE_MAX : uint_total * dim_size;
     }
 
     uint_num_dims = vec_dims.size();
-- 
2.43.0


From 842757c64921a1d61706d7c554d31018269dca04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:19 +0000
Subject: [PATCH 92/93] fix: set_row() with the matrix itself as the argument
 read elements it had overwritten

---
 inc/susa/matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/inc/susa/matrix.h b/inc/susa/matrix.h
index 7140e69..4bf2ded 100644
--- a/inc/susa/matrix.h
+++ b/inc/susa/matrix.h
@@ -627,6 +627,7 @@ template <typename T, typename Allocator> bool matrix <T, Allocator>::set_row(si
 {
     SUSA_ASSERT_MESSAGE((row < sizet_rows && mat_arg.sizet_objects >= sizet_cols), "dimention mismatch");
     if (row >= sizet_rows || mat_arg.sizet_objects < sizet_cols) return false;
+    if (this == &mat_arg) return set_row(row, matrix <T, Allocator> (mat_arg)); // elements are read and written
 
     for (size_t indx = 0; indx < sizet_cols; indx++)
     {
-- 
2.43.0


From c0a94cce398a3f55fa7c7b0aa90edbf902dc22ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:42 +0000
Subject: [PATCH 93/93] fix: decompose_alt() reported success for a matrix that
 is not square

---
 inc/susa/solver.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/inc/susa/solver.h b/inc/susa/solver.h
index ca00661..2f01277 100644
--- a/inc/susa/solver.h
+++ b/inc/susa/solver.h
@@ -303,6 +303,8 @@ template <class T> matrix<T> lup<T>::solve(const matrix<T> &mat_b)
 
 template <class T> bool lup<T>::decompose_alt()
 {
+    if (!mat_a.is_square()) return false;
+
     mat_lu      = mat_a;
     mat_pp      = eye <T> (sizet_n);
     mat_p       = matrix<size_t>(sizet_n + 1, 1);
-- 
2.43.0

