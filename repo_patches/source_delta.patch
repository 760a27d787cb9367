From 1cbdcdf136416a6088f84a1359f573899722c6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 01/71] fix: compare floating point values of different types
 (==, != between mixed element types did not compile)

---
 include/malg/feq.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/malg/feq.hpp b/include/malg/feq.hpp
index 70f25f4..3e39dff 100644
--- a/include/malg/feq.hpp
+++ b/include/malg/feq.hpp
@@ -4,6 +4,7 @@
 
 #pragma once
 
+#include <algorithm>
 #include <cmath>
 #include <limits>
 #include <complex>
@@ -26,7 +27,8 @@ static inline auto &tolerance()
 template <typename T1, typename T2>
 inline bool approximately_equal(T1 a, T2 b)
 {
-    return std::abs(a - b) <= tolerance() * std::max(std::abs(a), std::abs(b));
+    using magnitude_t = std::common_type_t<decltype(std::abs(a)), decltype(std::abs(b))>;
+    return std::abs(a - b) <= tolerance() * std::max<magnitude_t>(std::abs(a), std::abs(b));
 }
 
 /// @brief Checks if the fir floating point value is lesser than or equal to the second one.
-- 
2.43.0


From 53f285078b7cdd6acedc6691068fc93b176401ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 02/71] fix: CofactorView linear access uses the wrong
 dimension on non-square matrices

---
 include/malg/view.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/malg/view.hpp b/include/malg/view.hpp
index 659181e..2d3a1cd 100644
--- a/include/malg/view.hpp
+++ b/include/malg/view.hpp
@@ -336,9 +336,9 @@ public:
     inline T &operator[](std::size_t pos) override
     {
 #ifdef ROW_MAJOR
-        return this->at((pos / this->rows()), (pos % this->rows()));
+        return this->at((pos / this->cols()), (pos % this->cols()));
 #else
-        return this->at((pos % this->cols()), (pos / this->cols()));
+        return this->at((pos % this->rows()), (pos / this->rows()));
 #endif
     }
 
@@ -348,9 +348,9 @@ public:
     inline const T &operator[](std::size_t pos) const override
     {
 #ifdef ROW_MAJOR
-        return this->at((pos / this->rows()), (pos % this->rows()));
+        return this->at((pos / this->cols()), (pos % this->cols()));
 #else
-        return this->at((pos % this->cols()), (pos / this->cols()));
+        return this->at((pos % this->rows()), (pos / this->rows()));
 #endif
     }
 
-- 
2.43.0


From e05b3c93b1ff4c2b3c0456e7faf87d62b3b3c34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 03/71] fix: views always report to be empty

---
 include/malg/matrix_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/matrix_base.hpp b/include/malg/matrix_base.hpp
index dbbb732..9198668 100644
--- a/include/malg/matrix_base.hpp
+++ b/include/malg/matrix_base.hpp
@@ -76,7 +76,7 @@ public:
     /// @returns false otherwise.
     inline virtual bool empty() const
     {
-        return (_rows == 0) || (_cols == 0);
+        return (this->rows() == 0) || (this->cols() == 0);
     }
 
     /// @brief Returns a pointer to the internal data.
-- 
2.43.0


From cdafbc3953f03c856d15f4ba7451ea9a88c22ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 04/71] fix: a moved-from matrix keeps its old shape without
 any data

---
 include/malg/matrix.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index f960506..2e633f3 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -173,7 +173,8 @@ public:
         : MatrixBase<T>(rhs.rows(), rhs.cols()),
           _data(std::move(rhs._data))
     {
-        // Nothing to do.
+        // The other matrix has lost its data.
+        rhs._rows = rhs._cols = 0;
     }
 
     /// @brief Construct a new Matrix object.
@@ -360,6 +361,8 @@ public:
             // Set the new rows and columns.
             this->_rows = rhs.rows();
             this->_cols = rhs.cols();
+            // The other matrix has lost its data.
+            rhs._rows = rhs._cols = 0;
         }
         return *this;
     }
-- 
2.43.0


From 649bc2c3626ef2ddc4ca11e2e06d47ae44f42198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 05/71] fix: moving from a vector or matrix of another element
 type did not compile

---
 include/malg/matrix.hpp |  6 ++++--
 include/malg/vector.hpp | 18 ++++++++++--------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index 2e633f3..0cebc54 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -183,9 +183,11 @@ public:
     template <typename T2>
     explicit Matrix(Matrix<T2> &&rhs)
         : MatrixBase<T>(rhs.rows(), rhs.cols()),
-          _data(std::move(rhs._data))
+          _data(rhs.rows() * rhs.cols())
     {
-        // Nothing to do.
+        for (std::size_t i = 0; i < (_rows * _cols); ++i) {
+            _data[i] = rhs[i];
+        }
     }
 
     /// @brief Destroy the Matrix object.
diff --git a/include/malg/vector.hpp b/include/malg/vector.hpp
index 451769f..9a56084 100644
--- a/include/malg/vector.hpp
+++ b/include/malg/vector.hpp
@@ -136,10 +136,11 @@ public:
         : _data(),
           _size()
     {
-        if (this != &other) {
-            this->deallocate();
-            std::swap(_data, other._data);
-            std::swap(_size, other._size);
+        // The types differ, we cannot steal the data.
+        if (this->allocate(other.size())) {
+            for (std::size_t i = 0; i < _size; ++i) {
+                _data[i] = other[i];
+            }
         }
     }
 
@@ -260,10 +261,11 @@ public:
     template <typename T2>
     inline auto &operator=(Vector<T2> &&other)
     {
-        if (this != &other) {
-            this->deallocate();
-            std::swap(_data, other._data);
-            std::swap(_size, other._size);
+        // The types differ, we cannot steal the data.
+        if (this->allocate(other.size())) {
+            for (std::size_t i = 0; i < _size; ++i) {
+                _data[i] = other[i];
+            }
         }
         return *this;
     }
-- 
2.43.0


From 3b0980c0d519e2f545a374b86d9ae73f298a7c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 06/71] fix: assigning a matrix of another element type did not
 compile

---
 include/malg/matrix.hpp | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index 0cebc54..500f86b 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -332,21 +332,15 @@ public:
     template <typename T2>
     Matrix<T> &operator=(const Matrix<T2> &rhs)
     {
-        if (&rhs != this) {
-            if (!std::is_same_v<T, T2>) {
-                if (rhs.size() > 0) {
-                    // Initialize the new vector of data.
-                    _data = Vector<T>(rhs.rows() * rhs.cols());
-                    // Set the new rows and columns.
-                    this->_rows = rhs.rows();
-                    this->_cols = rhs.cols();
-                    // Copy the content.
-                    for (std::size_t r = 0; r < _rows; ++r) {
-                        for (std::size_t c = 0; c < _cols; ++c) {
-                            this->at(r, c) = rhs(r, c);
-                        }
-                    }
-                }
+        // Initialize the new vector of data.
+        _data = Vector<T>(rhs.rows() * rhs.cols());
+        // Set the new rows and columns.
+        this->_rows = rhs.rows();
+        this->_cols = rhs.cols();
+        // Copy the content.
+        for (std::size_t r = 0; r < _rows; ++r) {
+            for (std::size_t c = 0; c < _cols; ++c) {
+                this->at(r, c) = rhs(r, c);
             }
         }
         return *this;
-- 
2.43.0


From 8a6dea5b52ae7896a4db24cd3fc1672fe4902e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 07/71] fix: assigning an empty matrix is ignored, and
 assigning a view of the matrix itself reads released data

---
 include/malg/matrix.hpp | 71 ++++++++++++++++++++---------------------
 1 file changed, 34 insertions(+), 37 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index 500f86b..fca2cd7 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -264,19 +264,18 @@ public:
         if (&rhs == this) {
             return *this;
         }
-        if (rhs.size() > 0) {
-            // Initialize the new vector of data.
-            _data = Vector<T>(rhs.rows() * rhs.cols());
-            // Set the new rows and columns.
-            this->_rows = rhs.rows();
-            this->_cols = rhs.cols();
-            // Copy the content.
-            for (std::size_t r = 0; r < _rows; ++r) {
-                for (std::size_t c = 0; c < _cols; ++c) {
-                    this->at(r, c) = rhs(r, c);
-                }
-            }
+        // Initialize the new vector of data.
+        Vector<T> data(rhs.rows() * rhs.cols());
+        // Copy the content, rhs might be a view of this very matrix.
+        for (std::size_t i = 0; i < data.size(); ++i) {
+            data[i] = rhs[i];
         }
+        // Set the new rows and columns.
+        const std::size_t rows = rhs.rows(), cols = rhs.cols();
+        this->_rows = rows;
+        this->_cols = cols;
+        // Move the data.
+        _data = std::move(data);
         return *this;
     }
 
@@ -288,19 +287,18 @@ public:
         if (&rhs == this) {
             return *this;
         }
-        if (rhs.size() > 0) {
-            // Initialize the new vector of data.
-            _data = Vector<T>(rhs.rows() * rhs.cols());
-            // Set the new rows and columns.
-            this->_rows = rhs.rows();
-            this->_cols = rhs.cols();
-            // Copy the content.
-            for (std::size_t r = 0; r < _rows; ++r) {
-                for (std::size_t c = 0; c < _cols; ++c) {
-                    this->at(r, c) = rhs(r, c);
-                }
-            }
+        // Initialize the new vector of data.
+        Vector<T> data(rhs.rows() * rhs.cols());
+        // Copy the content, rhs might be a view of this very matrix.
+        for (std::size_t i = 0; i < data.size(); ++i) {
+            data[i] = rhs[i];
         }
+        // Set the new rows and columns.
+        const std::size_t rows = rhs.rows(), cols = rhs.cols();
+        this->_rows = rows;
+        this->_cols = cols;
+        // Move the data.
+        _data = std::move(data);
         return *this;
     }
 
@@ -310,19 +308,18 @@ public:
     template <typename T2>
     auto &operator=(const MatrixBase<T2> &rhs)
     {
-        if (rhs.size() > 0) {
-            // Initialize the new vector of data.
-            _data = Vector<T>(rhs.rows() * rhs.cols());
-            // Set the new rows and columns.
-            this->_rows = rhs.rows();
-            this->_cols = rhs.cols();
-            // Copy the content.
-            for (std::size_t r = 0; r < _rows; ++r) {
-                for (std::size_t c = 0; c < _cols; ++c) {
-                    this->at(r, c) = rhs(r, c);
-                }
-            }
+        // Initialize the new vector of data.
+        Vector<T> data(rhs.rows() * rhs.cols());
+        // Copy the content, rhs might be a view of this very matrix.
+        for (std::size_t i = 0; i < data.size(); ++i) {
+            data[i] = rhs[i];
         }
+        // Set the new rows and columns.
+        const std::size_t rows = rhs.rows(), cols = rhs.cols();
+        this->_rows = rows;
+        this->_cols = cols;
+        // Move the data.
+        _data = std::move(data);
         return *this;
     }
 
@@ -351,7 +348,7 @@ public:
     /// @returns a reference to this matrix.
     auto &operator=(Matrix<T> &&rhs)
     {
-        if ((&rhs != this) && (rhs.size() > 0)) {
+        if (&rhs != this) {
             // Copy the content.
             _data = std::move(rhs._data);
             // Set the new rows and columns.
-- 
2.43.0


From 6a04e841aefcd6664beed6fa01eea10ef96418d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:31 +0000
Subject: [PATCH 08/71] fix: adding a scalar to, or subtracting one from, a
 matrix in place did not compile

---
 include/malg/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index e5a9812..abc64a0 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -82,7 +82,7 @@ auto &operator+=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns matrix A.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator+=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator+=(malg::MatrixBase<T1> &A, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -160,7 +160,7 @@ auto &operator-=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns matrix A.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator-=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator-=(malg::MatrixBase<T1> &A, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
-- 
2.43.0


From cdf0ce6496e6724dd1f571efcb4ad78cb129b3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:31 +0000
Subject: [PATCH 09/71] fix: compound assignment between a vector and a scalar
 did not compile

---
 include/malg/math.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index abc64a0..37cad24 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -717,7 +717,7 @@ inline auto &operator+=(malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the left-hand side vector, containing the sum of the scalar and the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator+=(const malg::Vector<T1> &a, const T2 &b)
+inline auto &operator+=(malg::Vector<T1> &a, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -793,7 +793,7 @@ inline auto &operator-=(malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the left-hand side vector, containing the subtraction of the scalar from the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator-=(const malg::Vector<T1> &a, const T2 &b)
+inline auto &operator-=(malg::Vector<T1> &a, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -869,7 +869,7 @@ inline auto operator*(const T1 &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the input vector, containing the multiplication of the scalar and the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator*=(const malg::Vector<T1> &a, const T2 &b)
+inline auto &operator*=(malg::Vector<T1> &a, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -905,7 +905,7 @@ inline auto operator/(const malg::Vector<T1> &a, const T2 &b)
 /// @param b the scalar.
 /// @returns a reference to the input vector, containing the division of the elements of the vector by the scalar.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator/=(const malg::Vector<T1> &a, const T2 &b)
+inline auto &operator/=(malg::Vector<T1> &a, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
-- 
2.43.0


From 1d41653d5f5ee7f271260f37166bbedd9b0f1846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:31 +0000
Subject: [PATCH 10/71] fix: multiplying a scalar by a vector did not compile

---
 include/malg/math.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 37cad24..ed3b4f6 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -850,15 +850,15 @@ inline auto operator*(const malg::Vector<T1> &a, const T2 &b)
 /// @param a the vector.
 /// @param b the scalar.
 /// @returns a vector containing the multiplication of the scalar for the vector.
-template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T1>, T1>>
+template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T1> || malg::is_complex_v<T1>, T1>>
 inline auto operator*(const T1 &a, const malg::Vector<T2> &b)
 {
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T1, T2>>;
     // Declare the output vector.
-    malg::Vector<data_type_t> result(a.size());
+    malg::Vector<data_type_t> result(b.size());
     // Perform the operation.
-    for (std::size_t i = 0; i < a.size(); ++i) {
+    for (std::size_t i = 0; i < b.size(); ++i) {
         result[i] = a * b[i];
     }
     return result;
-- 
2.43.0


From 848effc1e6b41f2972621d9adf31704af49e3a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:31 +0000
Subject: [PATCH 11/71] fix: in-place matrix multiplication writes out of
 bounds when the second matrix is not square

---
 include/malg/math.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index ed3b4f6..c747a8b 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -236,6 +236,10 @@ auto &operator*=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
         throw std::invalid_argument("For matrix multiplication, the number of columns in the first"
                                     "matrix must be equal to the number of rows in the second matrix.");
     }
+    // The result must fit the first matrix.
+    if (A.cols() != B.cols()) {
+        throw std::invalid_argument("For in-place matrix multiplication, the second matrix must be square.");
+    }
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T1, T2>>;
     // Declare the output matrix.
-- 
2.43.0


From b3e079edd072ec9e9cf3774d6d592e23c35f274d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:31 +0000
Subject: [PATCH 12/71] fix: the product between a matrix and a vector of the
 wrong size reads out of bounds

---
 include/malg/math.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index c747a8b..dd8c9d4 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -929,6 +929,10 @@ inline auto &operator/=(malg::Vector<T1> &a, const T2 &b)
 template <typename T1, typename T2>
 inline auto operator*(const malg::MatrixBase<T1> &A, const malg::Vector<T2> &b)
 {
+    // Check the sizes.
+    if (A.cols() != b.size()) {
+        throw std::invalid_argument("The number of columns of the matrix must be equal to the size of the vector.");
+    }
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T1, T2>>;
     // Create the result vector.
@@ -974,6 +978,10 @@ inline auto dot(const malg::Vector<T1> &a, const malg::Vector<T2> &b)
 template <typename T1, typename T2>
 inline auto dot(const malg::MatrixBase<T1> &A, const malg::Vector<T2> &b)
 {
+    // Check the sizes.
+    if (A.cols() != b.size()) {
+        throw std::invalid_argument("The number of columns of the matrix must be equal to the size of the vector.");
+    }
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T1, T2>>;
     // Create the result vector.
-- 
2.43.0


From f61a7d00dac080f8b7a5c28659ad22c92f3b9805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:31 +0000
Subject: [PATCH 13/71] fix: element_wise_function discards the values returned
 by the function

---
 include/malg/math.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index dd8c9d4..4374291 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1005,9 +1005,11 @@ inline auto element_wise_function(const malg::Vector<T> &a, Function fun)
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T, decltype(fun(std::declval<T>()))>>;
     // Create the resulting vector.
-    malg::Vector<data_type_t> result(a);
+    malg::Vector<data_type_t> result(a.size());
     // Apply the function to all the elements.
-    std::for_each(result.begin(), result.end(), fun);
+    for (std::size_t i = 0; i < a.size(); ++i) {
+        result[i] = fun(a[i]);
+    }
     // Return the vector.
     return result;
 }
@@ -1024,7 +1026,9 @@ inline auto element_wise_function(const malg::MatrixBase<T> &A, Function fun)
     // Create the resulting matrix.
     malg::Matrix<data_type_t> result(A.rows(), A.cols());
     // Apply the function to all the elements.
-    std::for_each(result.begin(), result.end(), fun);
+    for (std::size_t i = 0; i < A.size(); ++i) {
+        result[i] = fun(A[i]);
+    }
     // Return the matrix.
     return result;
 }
-- 
2.43.0


From 21e979ac88b057c16c9147ee9c5f93c876f5b311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:31 +0000
Subject: [PATCH 14/71] fix: element_wise_product and linear_combination
 convert the second matrix to the type of the first

---
 include/malg/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 4374291..227c6bc 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1199,7 +1199,7 @@ inline auto vector_length(malg::MatrixBase<T> &A, std::size_t c, std::size_t r_s
 template <typename T1, typename T2>
 auto element_wise_product(const malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 {
-    return element_wise_binary_function(A, B, [&](const T1 lhs, const T1 rhs) { return lhs * rhs; });
+    return element_wise_binary_function(A, B, [&](const T1 lhs, const T2 rhs) { return lhs * rhs; });
 }
 
 /// @brief Computes the linear combination of matrices.
@@ -1211,7 +1211,7 @@ auto element_wise_product(const malg::MatrixBase<T1> &A, const malg::MatrixBase<
 template <typename T1, typename T2, typename T3, typename T4>
 auto linear_combination(const malg::MatrixBase<T1> &A, const T2 &a, const malg::MatrixBase<T3> &B, const T4 &b)
 {
-    return element_wise_binary_function(A, B, [&](const T1 lhs, const T1 rhs) { return lhs * a + rhs * b; });
+    return element_wise_binary_function(A, B, [&](const T1 lhs, const T3 rhs) { return lhs * a + rhs * b; });
 }
 
 /// @brief Sums the element of the vector.
-- 
2.43.0


From 17a1325b9890b950d5381d13d98a6cb2f34ffaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:31 +0000
Subject: [PATCH 15/71] fix: sign did not compile

---
 include/malg/math.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 227c6bc..24c86ff 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1144,10 +1144,11 @@ auto abs(const malg::Vector<T> &a)
 template <typename T>
 auto sign(const malg::MatrixBase<T> &a)
 {
-    if (malg::is_complex_v<T>) {
+    if constexpr (malg::is_complex_v<std::remove_const_t<T>>) {
         return element_wise_function(a, [](const T &value) { return T(std::real(value) > 0 ? +1 : -1, std::imag(value) > 0 ? +1 : -1); });
+    } else {
+        return element_wise_function(a, [](const T &value) { return value > 0 ? +1 : -1; });
     }
-    return element_wise_function(a, [](const T &value) { return value > 0 ? +1 : -1; });
 }
 
 /// @brief Returns a matrix containing the sign of the values in the input matrix.
@@ -1156,10 +1157,11 @@ auto sign(const malg::MatrixBase<T> &a)
 template <typename T>
 auto sign(const malg::Vector<T> &a)
 {
-    if (malg::is_complex_v<T>) {
+    if constexpr (malg::is_complex_v<std::remove_const_t<T>>) {
         return element_wise_function(a, [](const T &value) { return T(std::real(value) > 0 ? +1 : -1, std::imag(value) > 0 ? +1 : -1); });
+    } else {
+        return element_wise_function(a, [](const T &value) { return value > 0 ? +1 : -1; });
     }
-    return element_wise_function(a, [](const T &value) { return value > 0 ? +1 : -1; });
 }
 
 /// @brief Vector projection of **a** onto **b**.
-- 
2.43.0


From e000f7f551d367d1718f66e6851868076c95575a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:31 +0000
Subject: [PATCH 16/71] fix: the norms did not compile for complex values,
 integer values, or constant views

---
 include/malg/math.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 24c86ff..e81c7ed 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1183,9 +1183,9 @@ inline auto projection(const malg::Vector<T1> &a, const malg::Vector<T2> &b)
 template <typename T>
 inline auto vector_length(malg::MatrixBase<T> &A, std::size_t c, std::size_t r_start, std::size_t r_end)
 {
-    std::remove_const_t<malg::is_complex_t<T>> accum = 0;
+    malg::is_complex_t<std::remove_const_t<T>> accum = 0;
     for (std::size_t r = r_start; r < std::min(r_end, A.rows()); r++) {
-        if (malg::is_complex_v<T>) {
+        if constexpr (malg::is_complex_v<std::remove_const_t<T>>) {
             accum += std::norm(A(r, c));
         } else {
             accum += A(r, c) * A(r, c);
@@ -1394,9 +1394,9 @@ inline bool any(const Vector<T> &v)
 template <typename T>
 inline auto square_norm(const malg::Vector<T> &v)
 {
-    std::remove_const_t<malg::is_complex_t<T>> accum = 0;
+    malg::is_complex_t<std::remove_const_t<T>> accum = 0;
     for (std::size_t i = 0; i < v.size(); ++i) {
-        if (malg::is_complex_v<T>) {
+        if constexpr (malg::is_complex_v<std::remove_const_t<T>>) {
             accum += std::norm(v[i]);
         } else {
             accum += v[i] * v[i];
@@ -1411,11 +1411,11 @@ inline auto square_norm(const malg::Vector<T> &v)
 template <typename T>
 inline auto square_norm(const malg::MatrixBase<T> &A)
 {
-    std::remove_const_t<malg::is_complex_t<T>> accum = 0;
+    malg::is_complex_t<std::remove_const_t<T>> accum = 0;
     // Compute the sum of squares of the elements of the given matrix.
     for (std::size_t r = 0; r < A.rows(); ++r) {
         for (std::size_t c = 0; c < A.cols(); ++c) {
-            if (malg::is_complex_v<T>) {
+            if constexpr (malg::is_complex_v<std::remove_const_t<T>>) {
                 accum += std::norm(A(r, c));
             } else {
                 accum += A(r, c) * A(r, c);
@@ -1432,7 +1432,7 @@ inline auto square_norm(const malg::MatrixBase<T> &A)
 template <typename T>
 inline auto infinity_norm(const malg::Vector<T> &v)
 {
-    using data_type_t = std::remove_const_t<T>;
+    using data_type_t = malg::is_complex_t<std::remove_const_t<T>>;
     if (v.empty()) {
         return data_type_t(0.);
     }
@@ -1452,7 +1452,7 @@ inline auto infinity_norm(const malg::Vector<T> &v)
 template <typename T>
 inline auto infinity_norm(const malg::MatrixBase<T> &A)
 {
-    using data_type_t = std::remove_const_t<malg::is_complex_t<T>>;
+    using data_type_t = malg::is_complex_t<std::remove_const_t<T>>;
     if (A.empty()) {
         return data_type_t(0.);
     }
@@ -1473,9 +1473,9 @@ inline auto infinity_norm(const malg::MatrixBase<T> &A)
 template <typename T>
 auto sub_norm(const malg::MatrixBase<T> &A)
 {
-    using data_type_t = std::remove_const_t<malg::is_complex_t<T>>;
+    using data_type_t = malg::is_complex_t<std::remove_const_t<T>>;
     if (A.empty()) {
-        return data_type_t(0.);
+        return decltype(std::sqrt(data_type_t(0)))(0.);
     }
     if (!malg::utility::is_square(A)) {
         throw std::invalid_argument("Matrix A is not square.");
@@ -1483,7 +1483,7 @@ auto sub_norm(const malg::MatrixBase<T> &A)
     data_type_t accum = 0;
     for (std::size_t r = 1; r < A.rows(); ++r) {
         for (std::size_t c = 0; c < r; ++c) {
-            if (malg::is_complex_v<T>) {
+            if constexpr (malg::is_complex_v<std::remove_const_t<T>>) {
                 accum += std::norm(A(r, c));
             } else {
                 accum += A(r, c) * A(r, c);
@@ -1499,7 +1499,7 @@ auto sub_norm(const malg::MatrixBase<T> &A)
 template <typename T>
 auto log2_ceil(const malg::MatrixBase<T> &A)
 {
-    using data_type_t      = std::remove_const_t<malg::is_complex_t<T>>;
+    using data_type_t      = malg::is_complex_t<std::remove_const_t<T>>;
     std::size_t iterations = 0;
     data_type_t scale      = 1.0;
     const auto norm        = malg::infinity_norm(A);
-- 
2.43.0


From 4ad3f1744e0a277c1d9513f850b237627d555212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:31 +0000
Subject: [PATCH 17/71] fix: all and any did not compile for complex values

---
 include/malg/math.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index e81c7ed..0aa30be 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1336,7 +1336,7 @@ template <typename T>
 inline bool all(const MatrixBase<T> &a)
 {
     for (std::size_t i = 0; i < a.size(); ++i) {
-        if (a[i] == 0) {
+        if (a[i] == T(0)) {
             return false;
         }
     }
@@ -1351,7 +1351,7 @@ template <typename T>
 inline bool all(const Vector<T> &v)
 {
     for (std::size_t i = 0; i < v.size(); ++i) {
-        if (v[i] == 0) {
+        if (v[i] == T(0)) {
             return false;
         }
     }
@@ -1366,7 +1366,7 @@ template <typename T>
 inline bool any(const MatrixBase<T> &a)
 {
     for (std::size_t i = 0; i < a.size(); ++i) {
-        if (a[i] != 0) {
+        if (a[i] != T(0)) {
             return true;
         }
     }
@@ -1381,7 +1381,7 @@ template <typename T>
 inline bool any(const Vector<T> &v)
 {
     for (std::size_t i = 0; i < v.size(); ++i) {
-        if (v[i] != 0) {
+        if (v[i] != T(0)) {
             return true;
         }
     }
-- 
2.43.0


From 27f6aef12b2490c57f48fae65fed9431c833975d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:31 +0000
Subject: [PATCH 18/71] fix: trace reads out of bounds when the matrix has more
 rows than columns

---
 include/malg/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 0aa30be..7bed076 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1239,7 +1239,7 @@ inline auto trace(const MatrixBase<T> &A)
     return sum(diag(A));
 #else
     std::remove_const_t<T> result = 0;
-    for (std::size_t i = 0; i < A.rows(); ++i) {
+    for (std::size_t i = 0; i < std::min(A.rows(), A.cols()); ++i) {
         result += A(i, i);
     }
     return result;
-- 
2.43.0


From 589b09bae7b53be4836290927ff06d5d4725de14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:31 +0000
Subject: [PATCH 19/71] fix: the eigen functions did not compile because
 vector_length and identity lack the defaults they rely on

---
 include/malg/math.hpp    | 2 +-
 include/malg/utility.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 7bed076..71d5151 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1181,7 +1181,7 @@ inline auto projection(const malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param r_end the ending row.
 /// @returns the mangnitude of the column vector.
 template <typename T>
-inline auto vector_length(malg::MatrixBase<T> &A, std::size_t c, std::size_t r_start, std::size_t r_end)
+inline auto vector_length(const malg::MatrixBase<T> &A, std::size_t c, std::size_t r_start, std::size_t r_end = std::numeric_limits<std::size_t>::max())
 {
     malg::is_complex_t<std::remove_const_t<T>> accum = 0;
     for (std::size_t r = r_start; r < std::min(r_end, A.rows()); r++) {
diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 64f595a..6f2e1fa 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -63,7 +63,7 @@ inline auto eye(std::size_t rows, std::size_t cols, T value)
 /// @param value value for the diagonal.
 /// @returns the identity matrix.
 template <typename T>
-inline auto identity(std::size_t N, T value)
+inline auto identity(std::size_t N, T value = T(1))
 {
     return utility::eye<T>(N, N, value);
 }
-- 
2.43.0


From b5b1c978081bf4ae5774fb151ed2f70bc1d8bb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 20/71] fix: hermitian_transpose did not compile

---
 include/malg/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index fb45a9a..cd4c768 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -59,7 +59,7 @@ inline auto powm(const MatrixBase<T> &A, std::size_t N)
 template <typename T>
 inline auto hermitian_transpose(const MatrixBase<std::complex<T>> &A)
 {
-    Matrix<std::remove_const_t<T>> result(A.cols(), A.rows(), 0.0);
+    Matrix<std::complex<std::remove_const_t<T>>> result(A.cols(), A.rows(), 0.0);
     for (std::size_t r = 0, c = 0; r < A.rows(); ++r) {
         for (c = 0; c < A.cols(); ++c) {
             result(c, r) = std::conj(A(r, c));
-- 
2.43.0


From ec906f6cba25a3e9b9f6a20f618055de902997ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 21/71] fix: the determinant of singular matrices larger than
 4x4 is not zero

---
 include/malg/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index cd4c768..f7447df 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -173,7 +173,7 @@ inline auto determinant(const MatrixBase<CT> &matrix)
             }
             // If we did not find a non-zero value, we have a singular matrix.
             if (k == A.rows()) {
-                break;
+                return static_cast<T>(0.);
             }
             // Swap the rows.
             utility::swap_rows(A, c, k);
-- 
2.43.0


From 49e3bbb8ecb80c78bb3fca92d3d665a5e8ff5761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 22/71] fix: the determinant of matrices larger than 4x4 loses
 all accuracy on tiny pivots

---
 include/malg/linalg.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index f7447df..a51edf7 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -163,6 +163,19 @@ inline auto determinant(const MatrixBase<CT> &matrix)
     T det = static_cast<T>(1.), pivot, ratio;
     // We convert the temporary to upper triangular form.
     for (c = 0; c < N; ++c) {
+        // Bring the largest pivot on the diagonal, dividing by a tiny one would
+        // cancel the other rows.
+        if constexpr (!std::is_integral_v<T>) {
+            for (k = c, r = c + 1; r < N; ++r) {
+                if (std::abs(A(r, c)) > std::abs(A(k, c))) {
+                    k = r;
+                }
+            }
+            if (k != c) {
+                utility::swap_rows(A, c, k);
+                det *= -1;
+            }
+        }
         // If we have a negative value on the diagonal, we need to move it
         // somewhere else.
         if (malg::feq::approximately_equal_to_zero(A(c, c))) {
-- 
2.43.0


From f7e173bd4347338c279532daa9c271dbf433e894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 23/71] fix: linalg::exp returns the transposed of the result

---
 include/malg/linalg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index a51edf7..5408ffd 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -399,10 +399,10 @@ inline auto div(const MatrixBase<T1> &A, const MatrixBase<T2> &B)
 template <typename T>
 inline auto exp(const MatrixBase<T> &A)
 {
-    Matrix<std::remove_const_t<T>> result(A.cols(), A.rows(), 0.0);
+    Matrix<std::remove_const_t<T>> result(A.rows(), A.cols(), 0.0);
     for (std::size_t r = 0, c = 0; r < A.rows(); ++r) {
         for (c = 0; c < A.cols(); ++c) {
-            result(c, r) = std::exp(A(r, c));
+            result(r, c) = std::exp(A(r, c));
         }
     }
     return result;
-- 
2.43.0


From 5f87d96db55d7ebe10403b756d70c80da1a93f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 24/71] fix: qr_decomposition did not compile

---
 include/malg/linalg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 5408ffd..7ad3169 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -284,7 +284,7 @@ inline auto qr_decomposition(const Matrix<T> &A)
         u[0]   = 1;
         // Finding Householder projection.
         return utility::eye(a.size(), a.size(), data_type_t(1.)) -
-               (utility::to_matrix(u, false) * utility::to_matrix(u, true)) * (2. / (u * u));
+               (utility::to_matrix(u, false) * utility::to_matrix(u, true)) * (2. / malg::dot(u, u));
     };
 
     // Initialize matrix R.
@@ -303,7 +303,7 @@ inline auto qr_decomposition(const Matrix<T> &A)
             }
         }
         // Calculate Householder matrix i: rows and i: columns from R i: rows and ith column
-        View(H, i, -1, i, -1) = make_householder(utility::extract_column(R, i, i, -1));
+        View(&H, i, -1, i, -1) = make_householder(utility::extract_column(R, i, i, -1));
         // Update Q and R.
         Q = Q * H;
         R = H * R;
-- 
2.43.0


From 60fbf1d2819c80fe2910c1a4757cb2f062a1ad4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 25/71] fix: qr_decomposition accesses rows outside matrices
 with more columns than rows

---
 include/malg/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 7ad3169..d324185 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -295,7 +295,7 @@ inline auto qr_decomposition(const Matrix<T> &A)
     Matrix<data_type_t> H(R.rows(), R.rows(), data_type_t(0.));
 
     // Compute Q and R.
-    for (std::size_t i = 0; i < (R.cols() - (R.cols() == R.rows())); ++i) {
+    for (std::size_t i = 0; i < std::min(R.rows() - 1, R.cols()); ++i) {
         // Initialize holder.
         for (std::size_t r = 0; r < H.rows(); ++r) {
             for (std::size_t c = 0; c < H.cols(); ++c) {
-- 
2.43.0


From 1ad1e691eab38134dd35befe677d56a6fed2f0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 26/71] fix: qr_decomposition returns NaN when a column is
 already zero

---
 include/malg/linalg.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index d324185..34cc5a9 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -279,6 +279,10 @@ inline auto qr_decomposition(const Matrix<T> &A)
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T, double>>;
     // This function is required to build the householder.
     static auto make_householder = [](const Vector<data_type_t> &a) {
+        // There is nothing to mirror.
+        if (malg::square_norm(a) == 0) {
+            return utility::eye(a.size(), a.size(), data_type_t(1.));
+        }
         // Find prependicular vector to mirror.
         auto u = a / (a[0] + std::copysign(malg::square_norm(a), a[0]));
         u[0]   = 1;
-- 
2.43.0


From 77bd3b075d56a188ba506650ecd6a03d68348277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 27/71] fix: solve did not compile

---
 include/malg/linalg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 34cc5a9..41638d8 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -377,9 +377,9 @@ auto solve(const Matrix<T> &A, const Vector<T> &b)
     if (rows > cols) {
         auto [_q, _r] = linalg::qr_decomposition(A);
         return malg::dot(
-            linalg::inverse(View(_r, 0, cols, 0, cols)),
+            linalg::inverse(View(&_r, 0, cols, 0, cols)),
             malg::dot(
-                linalg::transpose(View(_q, 0, rows, 0, cols)),
+                linalg::transpose(View(&_q, 0, rows, 0, cols)),
                 b));
     }
     // Underdetermined system.
-- 
2.43.0


From 8b142ba2a8bbb1507dec2418be499dffc66ff524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 28/71] fix: lu_decomposition did not compile for constant
 views

---
 include/malg/linalg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 41638d8..1798457 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -331,8 +331,8 @@ inline auto lu_decomposition(const MatrixBase<T> &A)
         throw std::invalid_argument("The input matrix is not square.");
     }
     std::size_t N = A.rows();
-    Matrix<T> l(N, N, 0);
-    Matrix<T> u(N, N, 0);
+    Matrix<std::remove_const_t<T>> l(N, N, 0);
+    Matrix<std::remove_const_t<T>> u(N, N, 0);
 
     std::size_t i, j, k;
     for (i = 0; i < N; i++) {
-- 
2.43.0


From 52e37bb4f8ef1a8b27a149feef61addf63d22d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 29/71] fix: expm did not compile for single precision values
 and constant views

---
 include/malg/linalg.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 1798457..c1b4975 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -419,6 +419,8 @@ inline auto exp(const MatrixBase<T> &A)
 template <typename T>
 inline auto expm(const MatrixBase<T> &A, double accuracy)
 {
+    // Create an alias for the non-constant type.
+    using data_type_t = std::remove_const_t<T>;
     // TODO(enrico): use simplified form of "scale and square". Trade faster
     // coversion in power series for a couple of additional square operations.
     // TODO(enrico): better/faster algorithm than power series?
@@ -432,13 +434,13 @@ inline auto expm(const MatrixBase<T> &A, double accuracy)
     // init (k = 0)
     const auto batch_size      = A.rows() * A.rows();
     const auto square_accuracy = accuracy * accuracy * scale * scale;
-    auto mtk                   = malg::utility::eye<T>(A.rows(), A.cols(), 1); // scaled_a to the power k
-    auto ret                   = malg::utility::eye<T>(A.rows(), A.cols(), 1); // sum of power seriees
+    auto mtk                   = malg::utility::eye<data_type_t>(A.rows(), A.cols(), 1); // scaled_a to the power k
+    auto ret                   = malg::utility::eye<data_type_t>(A.rows(), A.cols(), 1); // sum of power seriees
     auto fac_inv               = double{ 1.0 };                                // inverse faculty
     auto rel_square_diff       = square_accuracy + 1.0;
 
     for (std::size_t batch_start_idx = 1; (rel_square_diff > square_accuracy && !malg::feq::approximately_equal_to_zero(fac_inv)); batch_start_idx += batch_size) {
-        auto local_accum = malg::Matrix<T>(A.rows(), A.cols());
+        auto local_accum = malg::Matrix<data_type_t>(A.rows(), A.cols());
         for (std::size_t i = 0; i < batch_size; ++i) {
             const double k = static_cast<double>(batch_start_idx + i);
             fac_inv        = fac_inv * (1.0 / k);
@@ -451,7 +453,7 @@ inline auto expm(const MatrixBase<T> &A, double accuracy)
         ret += local_accum;
         // Caclulate relative change in this iteration.
         // TODO(enrico): properly guard against division by zero
-        const malg::Matrix<T> rel_error = malg::linalg::div(local_accum * local_accum, ret * ret + accuracy);
+        const auto rel_error = malg::linalg::div(local_accum * local_accum, ret * ret + accuracy);
         rel_square_diff                 = malg::square_norm(rel_error);
     };
     // raise the result
-- 
2.43.0


From 8fd85e4cff29b7f1a539fda5a959c55f1c29a361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 30/71] fix: obsv did not compile

---
 include/malg/control/control.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index 48aea7b..f060a41 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -194,7 +194,7 @@ inline auto obsv(const MatrixBase<T> &A, const MatrixBase<T> &C)
         throw std::runtime_error("ctrb: A and C matrices dimensions doesn't match.");
     }
     // Create the observability matrix.
-    Matrix<T> result = C;
+    Matrix<T> result(C);
     // Construct the observability matrix.
     for (std::size_t i = 1; i < A.rows(); ++i) {
         result = utility::vstack(result, C * linalg::powm(A, i));
-- 
2.43.0


From 2508fec134d207768413b1b380f069ff59ae8a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 31/71] fix: stacking a matrix and a vector did not compile

---
 include/malg/utility.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 6f2e1fa..23cb0f9 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -240,7 +240,7 @@ inline auto vstack(const MatrixBase<T1> &A, const Vector<T2> &b)
     // Select the right type.
     using T = malg::extract_common_type_t<T1, T2>;
     // Create the output matrix.
-    Matrix<T> C = A;
+    Matrix<T> C(A);
     // Resize the matrix by adding the row for b.
     C.resize(A.rows() + 1, A.cols());
     // Append b to C.
@@ -291,7 +291,7 @@ inline auto hstack(const MatrixBase<T1> &A, const Vector<T2> &b)
     // Select the right type.
     using T = malg::extract_common_type_t<T1, T2>;
     // Create the output matrix.
-    Matrix<T> C = A;
+    Matrix<T> C(A);
     // Resize the matrix by adding the row for b.
     C.resize(A.rows(), A.cols() + 1);
     // Append b to C.
-- 
2.43.0


From c6462c7e5367c39d19bdf2e75ff0c0fc143b1dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 32/71] fix: poly did not compile for constant views

---
 include/malg/control/control.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index f060a41..273e64f 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -249,12 +249,12 @@ inline auto poly(const MatrixBase<T> &A)
 {
     // An empty matrix.
     if ((A.size() == 0)) {
-        return Vector<T>{ 1 };
+        return Vector<std::remove_const_t<T>>{ 1 };
     }
 
     // A row/column vector.
     if ((A.rows() == 1) || (A.cols() == 1)) {
-        Vector<T> c(A.size() + 1);
+        Vector<std::remove_const_t<T>> c(A.size() + 1);
         c[0] = 1;
         for (std::size_t j = 0; j < A.size(); ++j) {
             for (std::size_t i = j + 1; i >= 1; --i) {
@@ -268,12 +268,12 @@ inline auto poly(const MatrixBase<T> &A)
         throw std::runtime_error("poly: Matrix A must be square.");
     }
     auto n = A.rows();
-    Vector<T> c(n + 1);
-    Matrix<T> B(A);
+    Vector<std::remove_const_t<T>> c(n + 1);
+    Matrix<std::remove_const_t<T>> B(A);
     auto last_c = trace(B);
     c[0]        = 1;
     c[1]        = -last_c;
-    auto I      = utility::identity<T>(B.rows(), 1);
+    auto I      = utility::identity<std::remove_const_t<T>>(B.rows(), 1);
     for (std::size_t m = 2; m < (n + 1); ++m) {
         B      = A * (B - (I * last_c));
         last_c = trace(B) / static_cast<double>(m);
-- 
2.43.0


From dc6044294186866aff8a11ac778e152a8ccae8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 33/71] fix: polyreduce did not compile for complex values

---
 include/malg/control/control.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index 273e64f..69f5845 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -227,7 +227,7 @@ inline auto polyreduce(const Vector<T> &a)
 {
     std::size_t i, j;
     for (j = 0; j < a.size(); ++j) {
-        if (a[j] != 0) {
+        if (a[j] != T(0)) {
             break;
         }
     }
-- 
2.43.0


From 25c853ddb563a266560e222e6b5d031fff03b958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 34/71] fix: the time of the last state returned by simulate is
 always zero

---
 include/malg/control/control.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index 69f5845..225fd0f 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -142,6 +142,7 @@ inline auto simulate(
     std::vector<Vector<T>> y;
     // Perform the simulation.
     double rtime = 0.;
+    t[steps]     = static_cast<T>(steps) * sys.sample_time;
     for (std::size_t i = 0; i < steps; ++i, rtime += sys.sample_time) {
         t[i]      = rtime;
         auto step = simulate_step(sys, x.back(), u[i]);
-- 
2.43.0


From 990db612a9354c9b5ec0675714566f07884f6b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 35/71] fix: acker reads out of bounds when the poles are fewer
 than the states

---
 include/malg/control/control.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index 225fd0f..67ab06d 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -296,7 +296,7 @@ inline auto acker(const MatrixBase<T> &A, const MatrixBase<T> &B, const MatrixBa
         exit(1);
     }
     // poles could be complex.
-    if (!utility::is_row_vector(poles) || poles.empty()) {
+    if (!utility::is_row_vector(poles) || (poles.size() != A.rows())) {
         std::cerr << "acker: poles must be a vector.\n";
         exit(1);
     }
-- 
2.43.0


From de110bbc605a7249f39517a3e428fdf508d82cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 36/71] fix: extracting from a position outside the matrix
 underflows the size of the result

---
 include/malg/utility.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 23cb0f9..36064c4 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -337,6 +337,8 @@ inline auto extract(const MatrixBase<T> &matrix,
                     std::size_t start_column = 0,
                     std::size_t end_column   = std::numeric_limits<std::size_t>::max())
 {
+    end_row    = std::min(matrix.rows(), end_row);
+    end_column = std::min(matrix.cols(), end_column);
     if (start_row >= end_row) {
         throw std::invalid_argument("The starting row must be lower than the ending row.");
     }
@@ -344,8 +346,6 @@ inline auto extract(const MatrixBase<T> &matrix,
         throw std::invalid_argument("The starting column must be lower than the ending column.");
     }
     using data_type = std::remove_const_t<T>;
-    end_row         = std::min(matrix.rows(), end_row);
-    end_column      = std::min(matrix.cols(), end_column);
     Matrix<data_type> result(end_row - start_row, end_column - start_column, data_type(0.));
     for (std::size_t r = start_row; r < end_row; ++r) {
         for (std::size_t c = start_column; c < end_column; ++c) {
@@ -367,6 +367,7 @@ inline auto extract_column(const MatrixBase<T> &matrix,
                            std::size_t start_row = 0,
                            std::size_t end_row   = std::numeric_limits<std::size_t>::max())
 {
+    end_row = std::min(matrix.rows(), end_row);
     if (start_row >= end_row) {
         throw std::invalid_argument("The starting row must be lower than the ending row.");
     }
@@ -374,7 +375,6 @@ inline auto extract_column(const MatrixBase<T> &matrix,
         throw std::invalid_argument("The selected column is outsize the matrix.");
     }
     using data_type = std::remove_const_t<T>;
-    end_row         = std::min(matrix.rows(), end_row);
     Vector<data_type> result(end_row - start_row, data_type(0.));
     for (std::size_t r = start_row; r < end_row; ++r) {
         result[r - start_row] = matrix(r, column);
@@ -397,11 +397,11 @@ inline auto extract_row(const MatrixBase<T> &matrix,
     if (row >= matrix.rows()) {
         throw std::invalid_argument("The selected row is outsize the matrix.");
     }
+    end_column = std::min(matrix.cols(), end_column);
     if (start_column >= end_column) {
         throw std::invalid_argument("The starting column must be lower than the ending column.");
     }
     using data_type = std::remove_const_t<T>;
-    end_column      = std::min(matrix.cols(), end_column);
     Vector<data_type> result(end_column - start_column, data_type(0.));
     for (std::size_t c = start_column; c < end_column; ++c) {
         result[c - start_column] = matrix(row, c);
-- 
2.43.0


From 807c02702d0a3a4eed16d4e1d457868db50addc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 37/71] fix: is_skew_symmetric ignores the diagonal

---
 include/malg/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 36064c4..b04fb08 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -538,7 +538,7 @@ inline auto is_skew_symmetric(const MatrixBase<T> &matrix)
         return false;
     }
     for (std::size_t i = 0; i < matrix.rows(); ++i) {
-        for (std::size_t j = i + 1; j < matrix.cols(); ++j) {
+        for (std::size_t j = i; j < matrix.cols(); ++j) {
             if (matrix(i, j) != -matrix(j, i)) {
                 return false;
             }
-- 
2.43.0


From 022f52abd8273a17b01d43f7ab3a25efb3a93cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 38/71] fix: find returns meaningless indices when limited to
 the first or last n

---
 include/malg/utility.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index b04fb08..26fc1d1 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -942,11 +942,11 @@ inline auto find(const Matrix<T> &A, std::size_t n = std::numeric_limits<std::si
         return Matrix<std::size_t>(0UL, 0UL);
     }
     if ((n > 0) && (n < index.size())) {
-        std::size_t start = static_cast<std::size_t>(*index.begin());
+        const auto count = static_cast<std::ptrdiff_t>(n);
         if (first_last) {
-            index = std::vector<size_t>(start + 0UL, start + n);
+            index = std::vector<size_t>(index.begin(), index.begin() + count);
         } else {
-            index = std::vector<size_t>(start + index.size() - n, start + index.size());
+            index = std::vector<size_t>(index.end() - count, index.end());
         }
     }
     // Prepare the array for the indexes. If the input is a row-vector, return the indexes as a row-vector.
-- 
2.43.0


From 968ed6b8b5ad13a50605e1293b89e641786a42ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 39/71] fix: all_close considers NaN close to any value

---
 include/malg/utility.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 26fc1d1..3e06d04 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -601,7 +601,7 @@ inline auto all_close(const Vector<T> &a, const Vector<T> &b, double tolerance =
         throw std::invalid_argument("Vectors has different sizes.");
     }
     for (std::size_t i = 0; i < a.size(); ++i) {
-        if (std::abs(a[i] - b[i]) > tolerance) {
+        if (!(std::abs(a[i] - b[i]) <= tolerance)) {
             return false;
         }
     }
@@ -625,7 +625,7 @@ inline auto all_close(const MatrixBase<T> &A, const MatrixBase<T> &B, double tol
         throw std::invalid_argument("Matrices has different number of colmuns.");
     }
     for (std::size_t i = 0; i < A.size(); ++i) {
-        if (std::abs(A[i] - B[i]) > tolerance) {
+        if (!(std::abs(A[i] - B[i]) <= tolerance)) {
             return false;
         }
     }
-- 
2.43.0


From 62372ab44cd649830ab6172b401fdd39ad22b705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 40/71] fix: is_diagonal and the triangular predicates did not
 compile for complex values

---
 include/malg/utility.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 3e06d04..88e9c79 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -559,7 +559,7 @@ inline auto is_diagonal(const MatrixBase<T> &matrix)
     }
     for (std::size_t i = 0; i < matrix.rows(); ++i) {
         for (std::size_t j = 0; j < matrix.cols(); ++j) {
-            if ((i != j) && (matrix(i, j) != 0)) {
+            if ((i != j) && (matrix(i, j) != T(0))) {
                 return false;
             }
         }
@@ -700,7 +700,7 @@ inline auto is_lower_triangular(const MatrixBase<T> &matrix)
     }
     for (std::size_t r = 0, c = 0; r < matrix.rows(); ++r) {
         for (c = r + 1; c < matrix.cols(); ++c) {
-            if (matrix(r, c)) {
+            if (matrix(r, c) != T(0)) {
                 return false;
             }
         }
@@ -720,7 +720,7 @@ inline auto is_upper_triangular(const MatrixBase<T> &matrix)
     }
     for (std::size_t r = 0, c = 0; r < matrix.rows(); ++r) {
         for (c = 0; c < r; ++c) {
-            if (matrix(r, c)) {
+            if (matrix(r, c) != T(0)) {
                 return false;
             }
         }
-- 
2.43.0


From 620a8f903bb1c69ef030d83d48bd365e1435e547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 41/71] fix: is_zero and is_constant did not compile

---
 include/malg/utility.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 88e9c79..ac64cf7 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -574,7 +574,12 @@ inline auto is_diagonal(const MatrixBase<T> &matrix)
 template <typename T>
 inline auto is_zero(const MatrixBase<T> &matrix)
 {
-    return std::all_of(matrix.begin(), matrix.end(), [](const T &x) { return x == 0; });
+    for (std::size_t i = 0; i < matrix.size(); ++i) {
+        if (matrix[i] != T(0)) {
+            return false;
+        }
+    }
+    return true;
 }
 
 /// @brief Checks if the matrix contains the same value everywhere.
@@ -584,7 +589,12 @@ inline auto is_zero(const MatrixBase<T> &matrix)
 template <typename T>
 inline auto is_constant(const MatrixBase<T> &matrix)
 {
-    return std::adjacent_find(matrix.begin(), matrix.end(), std::not_equal_to{}) == matrix.end();
+    for (std::size_t i = 1; i < matrix.size(); ++i) {
+        if (matrix[i] != matrix[i - 1]) {
+            return false;
+        }
+    }
+    return true;
 }
 
 /// @brief Checks if the matrix contains the same value everywhere.
-- 
2.43.0


From a1a15e3a941f1f72fd37f3bd6e1cf52d51765d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 42/71] fix: is_identity and is_orthogonal did not compile

---
 include/malg/utility.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index ac64cf7..71b7e8d 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -652,7 +652,14 @@ inline auto is_identity(const MatrixBase<T> &matrix)
     if (!is_square(matrix)) {
         return false;
     }
-    return (matrix == utility::identity<T>(matrix.cols()));
+    for (std::size_t r = 0; r < matrix.rows(); ++r) {
+        for (std::size_t c = 0; c < matrix.cols(); ++c) {
+            if (matrix(r, c) != T((r == c) ? 1 : 0)) {
+                return false;
+            }
+        }
+    }
+    return true;
 }
 
 /// @brief Checks if the matrix is orthogonal.
@@ -665,7 +672,18 @@ inline auto is_orthogonal(const MatrixBase<T> &matrix)
     if (!is_square(matrix)) {
         return false;
     }
-    return (matrix * matrix.transpose() == utility::identity<T>(matrix.cols()));
+    for (std::size_t i = 0; i < matrix.rows(); ++i) {
+        for (std::size_t j = 0; j < matrix.rows(); ++j) {
+            std::remove_const_t<T> product = 0;
+            for (std::size_t k = 0; k < matrix.cols(); ++k) {
+                product += matrix(i, k) * matrix(j, k);
+            }
+            if (std::abs(product - T((i == j) ? 1 : 0)) > feq::tolerance()) {
+                return false;
+            }
+        }
+    }
+    return true;
 }
 
 /// @brief Checks if the matrix is invertible.
-- 
2.43.0


From ecd197511113dadd88455d3747ae6a15ee05fe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 43/71] fix: is_invertible and the linear dependence predicates
 did not compile

---
 include/malg/utility.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 71b7e8d..395c8fb 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -18,6 +18,14 @@
 #include <limits>
 #include <random>
 
+namespace malg::linalg
+{
+
+template <typename CT>
+inline auto determinant(const MatrixBase<CT> &matrix);
+
+} // namespace malg::linalg
+
 namespace malg::utility
 {
 
@@ -693,7 +701,7 @@ inline auto is_orthogonal(const MatrixBase<T> &matrix)
 template <typename T>
 inline auto is_invertible(const MatrixBase<T> &matrix)
 {
-    return matrix.determinant() != 0;
+    return linalg::determinant(matrix) != T(0);
 }
 
 /// @brief Checks if the matrix is linearly dependent.
@@ -703,7 +711,7 @@ inline auto is_invertible(const MatrixBase<T> &matrix)
 template <typename T>
 inline auto is_linearly_dependent(const MatrixBase<T> &matrix)
 {
-    return matrix.determinant() == 0;
+    return linalg::determinant(matrix) == T(0);
 }
 
 /// @brief Checks if the matrix is linearly independent.
@@ -713,7 +721,7 @@ inline auto is_linearly_dependent(const MatrixBase<T> &matrix)
 template <typename T>
 inline auto is_linearly_independent(const MatrixBase<T> &matrix)
 {
-    return !matrix.is_linearly_dependent();
+    return !utility::is_linearly_dependent(matrix);
 }
 
 /// @brief Checks if the matrix is a lower triangular one.
-- 
2.43.0


From 988a2bfa1b10dbba524373f14c5a98515ee8334b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 44/71] fix: to_cpp did not compile

---
 include/malg/io.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index 9475bbc..42dd5a8 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -330,13 +330,13 @@ inline std::string to_cpp(const char *name, const char *type, const malg::Vector
 {
     std::stringstream ss;
     ss << "malg::Vector<" << type << "> " << name << " = {";
-    for (std::size_t i = 0; i < v->size(); ++i) {
+    for (std::size_t i = 0; i < v.size(); ++i) {
         if constexpr (malg::is_complex_v<T>) {
-            ss << v->operator[](i).real() << std::showpos << v->operator[](i).imag() << "i" << std::noshowpos;
+            ss << v[i].real() << std::showpos << v[i].imag() << "i" << std::noshowpos;
         } else {
-            ss << v->operator[](i);
+            ss << v[i];
         }
-        if (i < (v->size() - 1)) {
+        if (i < (v.size() - 1)) {
             ss << ", ";
         }
     }
@@ -354,20 +354,20 @@ inline std::string to_cpp(const char *name, const char *type, const malg::Matrix
 {
     std::stringstream ss;
     ss << "malg::Matrix<" << type << "> " << name << " = {";
-    for (std::size_t r = 0, c = 0; r < m->rows(); ++r) {
+    for (std::size_t r = 0, c = 0; r < m.rows(); ++r) {
         ss << "{";
-        for (c = 0; c < m->cols(); ++c) {
+        for (c = 0; c < m.cols(); ++c) {
             if constexpr (malg::is_complex_v<T>) {
-                ss << m->operator()(r, c).real() << std::showpos << m->operator()(r, c).imag() << "i" << std::noshowpos;
+                ss << m(r, c).real() << std::showpos << m(r, c).imag() << "i" << std::noshowpos;
             } else {
-                ss << m->operator()(r, c);
+                ss << m(r, c);
             }
-            if (c < (m->cols() - 1)) {
+            if (c < (m.cols() - 1)) {
                 ss << ",";
             }
         }
         ss << "}";
-        if (r < (m->rows() - 1)) {
+        if (r < (m.rows() - 1)) {
             ss << ",";
         }
     }
-- 
2.43.0


From 7b3c29be082aff2c07e4f82ec53b511356884517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:20 +0000
Subject: [PATCH 45/71] fix: to_matlab prints complex vectors in a form matlab
 does not accept

---
 include/malg/io.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index 42dd5a8..b0655fb 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -284,7 +284,11 @@ inline std::string to_matlab(const char *name, const malg::Vector<T> &v)
     std::stringstream ss;
     ss << name << " = [";
     for (std::size_t i = 0; i < v.size(); ++i) {
-        ss << v[i];
+        if constexpr (malg::is_complex_v<T>) {
+            ss << v[i].real() << std::showpos << v[i].imag() << "i" << std::noshowpos;
+        } else {
+            ss << v[i];
+        }
         if (i < (v.size() - 1)) {
             ss << " ";
         }
-- 
2.43.0


From 441d5e4df860ebc70e16f6e92e4eecc904f16af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:50 +0000
Subject: [PATCH 46/71] fix: c2d throws when the system matrix is singular

---
 include/malg/control/control.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index 67ab06d..f8364bd 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -91,7 +91,13 @@ inline auto c2d(const StateSpace<T> &sys, T sample_time)
     DiscreteStateSpace<T> dsys;
     // Compute the discretized matrices.
     dsys.A = linalg::expm(sys.A * sample_time, 1e-05);
-    dsys.B = linalg::inverse(sys.A) * (dsys.A - utility::identity<T>(sys.A.rows(), 1)) * sys.B;
+    // The exponential of [A B; 0 0] also provides the discretized B, even when A
+    // is singular and has no inverse.
+    const std::size_t N = sys.A.rows(), M = sys.B.cols();
+    Matrix<T> AB(N + M, N + M, 0);
+    View(&AB, 0, N, 0, N)     = sys.A * sample_time;
+    View(&AB, 0, N, N, N + M) = sys.B * sample_time;
+    dsys.B                    = utility::extract(linalg::expm(AB, 1e-05), 0, N, N, N + M);
     dsys.C = sys.C;
     dsys.D = sys.D;
     // Set the sampling period.
-- 
2.43.0


From 3d36f472687038866a20cde9a52a129f6716918c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:50 +0000
Subject: [PATCH 47/71] fix: vectors use the memory of failed allocations

---
 include/malg/vector.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/malg/vector.hpp b/include/malg/vector.hpp
index 9a56084..3eaee68 100644
--- a/include/malg/vector.hpp
+++ b/include/malg/vector.hpp
@@ -7,6 +7,8 @@
 #include <cassert>
 #include <cstdlib>
 #include <initializer_list>
+#include <limits>
+#include <new>
 #include <utility>
 
 //#define MEM_TRACE
@@ -336,8 +338,16 @@ private:
         if (size == _size) {
             return true;
         }
+        // Check that the number of bytes can be represented.
+        if (size > (std::numeric_limits<std::size_t>::max() / sizeof(T))) {
+            throw std::bad_alloc();
+        }
         // Re-allocate the data.
-        _data = static_cast<T *>(std::realloc(_data, sizeof(T) * size));
+        T *data = static_cast<T *>(std::realloc(_data, sizeof(T) * size));
+        if (data == nullptr) {
+            throw std::bad_alloc();
+        }
+        _data = data;
 #ifdef MEM_TRACE
         if (_size == 0)
             std::cout << "Allocating    " << (sizeof(T) * size) << " bytes (" << _data << ")\n";
-- 
2.43.0


From b209958e8675fdc293425551d4f72ade79d59d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:50 +0000
Subject: [PATCH 48/71] fix: reading from an empty or truncated file uses
 uninitialised variables

---
 include/malg/io.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index b0655fb..13dc218 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -161,8 +161,8 @@ inline std::ostream &operator<<(std::ostream &lhs, const malg::Range &rhs)
 template <typename T>
 inline std::ifstream &operator>>(std::ifstream &lhs, malg::Vector<T> &rhs)
 {
-    std::size_t size, i;
-    char type;
+    std::size_t size = 0, i;
+    char type        = 0;
     // Read the type.
     lhs >> type;
     if (type != 'V') {
@@ -188,8 +188,8 @@ inline std::ifstream &operator>>(std::ifstream &lhs, malg::Vector<T> &rhs)
 template <typename T>
 inline std::ifstream &operator>>(std::ifstream &lhs, malg::Matrix<T> &rhs)
 {
-    std::size_t rows, cols, r = 0, c = 0;
-    char type;
+    std::size_t rows = 0, cols = 0, r = 0, c = 0;
+    char type = 0;
     // Read the type.
     lhs >> type;
     if (type != 'M') {
-- 
2.43.0


From 2cb5e0158ee617a8ff2f7cf174ea69d12873f923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:50 +0000
Subject: [PATCH 49/71] fix: reading a matrix whose number of elements
 overflows accesses memory out of bounds

---
 include/malg/io.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index 13dc218..2aaa67f 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -12,6 +12,7 @@
 #include <fstream>
 #include <iomanip>
 #include <iostream>
+#include <limits>
 #include <sstream>
 
 namespace malg
@@ -199,6 +200,12 @@ inline std::ifstream &operator>>(std::ifstream &lhs, malg::Matrix<T> &rhs)
     // Read the size.
     lhs >> rows;
     lhs >> cols;
+    // The number of elements must be representable.
+    if ((cols > 0) && (rows > (std::numeric_limits<std::size_t>::max() / cols))) {
+        std::cerr << "The file does not contain a valid matrix.\n";
+        lhs.setstate(std::ios::failbit);
+        return lhs;
+    }
     // Prepare the matrix.
     rhs.resize(rows, cols);
     // Read the matrix.
-- 
2.43.0


From 2b4db66bf472a2fbf391136dae9344b31995eeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 50/71] fix: assigning a cofactor view to another one of the
 same type rebinds it

---
 include/malg/view.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/malg/view.hpp b/include/malg/view.hpp
index 2d3a1cd..24acb7c 100644
--- a/include/malg/view.hpp
+++ b/include/malg/view.hpp
@@ -316,6 +316,19 @@ public:
         return *this;
     }
 
+    /// @brief Assign operator.
+    /// @param rhs the other matrix.
+    /// @returns a reference to this matrix.
+    inline auto &operator=(const CofactorView<MatrixType> &rhs)
+    {
+        assert(this->rows() == rhs.rows());
+        assert(this->cols() == rhs.cols());
+        for (std::size_t r = 0; r < rhs.rows(); ++r)
+            for (std::size_t c = 0; c < rhs.cols(); ++c)
+                this->at(r, c) = rhs(r, c);
+        return *this;
+    }
+
     /// @brief Returns a pointer to the content.
     /// @returns the pointer.
     inline T *data() override
-- 
2.43.0


From 26028aa4d796006754bdcb4bdd22a5a5e2799e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:54 +0000
Subject: [PATCH 51/71] fix: in-place operations by a scalar that is an element
 of the operand use the modified element

---
 include/malg/math.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 71d5151..031f34e 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -82,7 +82,7 @@ auto &operator+=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns matrix A.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator+=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator+=(malg::MatrixBase<T1> &A, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -160,7 +160,7 @@ auto &operator-=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns matrix A.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator-=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator-=(malg::MatrixBase<T1> &A, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -263,7 +263,7 @@ auto &operator*=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns the resulting matrix.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator*=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator*=(malg::MatrixBase<T1> &A, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -295,7 +295,7 @@ inline auto operator/(const malg::MatrixBase<T1> &A, const T2 &b)
 /// @param b scalar value.
 /// @returns the resulting matrix.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator/=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator/=(malg::MatrixBase<T1> &A, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -721,7 +721,7 @@ inline auto &operator+=(malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the left-hand side vector, containing the sum of the scalar and the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator+=(malg::Vector<T1> &a, const T2 &b)
+inline auto &operator+=(malg::Vector<T1> &a, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -797,7 +797,7 @@ inline auto &operator-=(malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the left-hand side vector, containing the subtraction of the scalar from the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator-=(malg::Vector<T1> &a, const T2 &b)
+inline auto &operator-=(malg::Vector<T1> &a, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -873,7 +873,7 @@ inline auto operator*(const T1 &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the input vector, containing the multiplication of the scalar and the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator*=(malg::Vector<T1> &a, const T2 &b)
+inline auto &operator*=(malg::Vector<T1> &a, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -909,7 +909,7 @@ inline auto operator/(const malg::Vector<T1> &a, const T2 &b)
 /// @param b the scalar.
 /// @returns a reference to the input vector, containing the division of the elements of the vector by the scalar.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator/=(malg::Vector<T1> &a, const T2 &b)
+inline auto &operator/=(malg::Vector<T1> &a, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
-- 
2.43.0


From 0afceb5feade2debb866493308ff2efcdcdda0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 52/71] fix: common type of constant complex elements

---
 include/malg/type_traits.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/malg/type_traits.hpp b/include/malg/type_traits.hpp
index a7c24f3..2e437ef 100644
--- a/include/malg/type_traits.hpp
+++ b/include/malg/type_traits.hpp
@@ -26,6 +26,10 @@ struct is_complex<std::complex<T>> : public std::true_type {
     using type = T; ///< An alias for T.
 };
 
+/// @brief A constant type is complex if the type is.
+template <typename T>
+struct is_complex<const T> : public is_complex<T> {};
+
 /// @brief Alias template for checking if a type is complex.F
 /// @tparam T the type we are analyzing.
 /// @details
-- 
2.43.0


From bd0c50e1a2438a14fe3450cfd7144b5f71d4e843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:06 +0000
Subject: [PATCH 53/71] fix: each source file has its own comparison tolerance

With internal linkage, a change of the tolerance made in one source file
was not seen by the comparisons instantiated in another one.
---
 include/malg/feq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/feq.hpp b/include/malg/feq.hpp
index 3e39dff..c225423 100644
--- a/include/malg/feq.hpp
+++ b/include/malg/feq.hpp
@@ -13,7 +13,7 @@
 namespace malg::feq
 {
 
-static inline auto &tolerance()
+inline auto &tolerance()
 {
     static double tol = 1e-06;
     return tol;
-- 
2.43.0


From 430a90e7ba5e56e905825401efc8cd4e4a6ae563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:27 +0000
Subject: [PATCH 54/71] fix: real, imag and the conjugate transposes did not
 compile for constant views

---
 include/malg/linalg.hpp | 12 ++++++------
 include/malg/math.hpp   | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index c1b4975..05dfaa7 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -56,10 +56,10 @@ inline auto powm(const MatrixBase<T> &A, std::size_t N)
 /// @brief Computes the hermitian transpose of the complex matrix.
 /// @param A the matrix.
 /// @returns the matrix transposed.
-template <typename T>
-inline auto hermitian_transpose(const MatrixBase<std::complex<T>> &A)
+template <typename T, typename = std::enable_if_t<malg::is_complex_v<T>>>
+inline auto hermitian_transpose(const MatrixBase<T> &A)
 {
-    Matrix<std::complex<std::remove_const_t<T>>> result(A.cols(), A.rows(), 0.0);
+    Matrix<std::remove_const_t<T>> result(A.cols(), A.rows(), 0.0);
     for (std::size_t r = 0, c = 0; r < A.rows(); ++r) {
         for (c = 0; c < A.cols(); ++c) {
             result(c, r) = std::conj(A(r, c));
@@ -71,10 +71,10 @@ inline auto hermitian_transpose(const MatrixBase<std::complex<T>> &A)
 /// @brief Computes the transpose and takes the complex conjugate of each entry.
 /// @param matrix the matrix.
 /// @returns the matrix transposed.
-template <typename T>
-inline auto conjugate_transpose(const MatrixBase<std::complex<T>> &matrix)
+template <typename T, typename = std::enable_if_t<malg::is_complex_v<T>>>
+inline auto conjugate_transpose(const MatrixBase<T> &matrix)
 {
-    Matrix<std::complex<std::remove_const_t<T>>> result(matrix.cols(), matrix.rows(), 0.);
+    Matrix<std::remove_const_t<T>> result(matrix.cols(), matrix.rows(), 0.);
     for (std::size_t r = 0, c = 0; r < matrix.rows(); ++r) {
         for (c = 0; c < matrix.cols(); ++c) {
             result(c, r) = std::conj(matrix(r, c));
diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 031f34e..10d840d 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1087,10 +1087,10 @@ inline auto element_wise_binary_function(const malg::MatrixBase<T1> &A, const ma
 /// @brief Extracts the real part of the values of a.
 /// @param a the matrix.
 /// @returns the real part of the values of a.
-template <typename T>
-auto real(const malg::MatrixBase<std::complex<T>> &a)
+template <typename T, typename = std::enable_if_t<malg::is_complex_v<T>>>
+auto real(const malg::MatrixBase<T> &a)
 {
-    return element_wise_function(a, [](const std::complex<T> &value) { return value.real(); });
+    return element_wise_function(a, [](const T &value) { return value.real(); });
 }
 
 /// @brief Extracts the real part of the values of a.
@@ -1105,10 +1105,10 @@ auto real(const malg::Vector<std::complex<T>> &a)
 /// @brief Extracts the imaginary part of the values of a.
 /// @param a the matrix.
 /// @returns imaginary part of the values of a.
-template <typename T>
-auto imag(const malg::MatrixBase<std::complex<T>> &a)
+template <typename T, typename = std::enable_if_t<malg::is_complex_v<T>>>
+auto imag(const malg::MatrixBase<T> &a)
 {
-    return element_wise_function(a, [](const std::complex<T> &value) { return value.imag(); });
+    return element_wise_function(a, [](const T &value) { return value.imag(); });
 }
 
 /// @brief Extracts the imaginary part of the values of a.
-- 
2.43.0


From 8fd0684bab4d3300cfa115d7462b4ce47aab4717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:04 +0000
Subject: [PATCH 55/71] fix: infinite values are considered equal to any value,
 and to zero

---
 include/malg/feq.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/malg/feq.hpp b/include/malg/feq.hpp
index c225423..6cffddc 100644
--- a/include/malg/feq.hpp
+++ b/include/malg/feq.hpp
@@ -6,6 +6,7 @@
 
 #include <algorithm>
 #include <cmath>
+#include <functional>
 #include <limits>
 #include <complex>
 #include <type_traits>
@@ -28,7 +29,12 @@ template <typename T1, typename T2>
 inline bool approximately_equal(T1 a, T2 b)
 {
     using magnitude_t = std::common_type_t<decltype(std::abs(a)), decltype(std::abs(b))>;
-    return std::abs(a - b) <= tolerance() * std::max<magnitude_t>(std::abs(a), std::abs(b));
+    const auto magnitude = std::max<magnitude_t>(std::abs(a), std::abs(b));
+    // Every difference is below an infinite magnitude.
+    if (std::isinf(static_cast<double>(magnitude))) {
+        return std::equal_to<>()(a, b);
+    }
+    return std::abs(a - b) <= tolerance() * magnitude;
 }
 
 /// @brief Checks if the fir floating point value is lesser than or equal to the second one.
@@ -60,7 +66,7 @@ inline bool approximately_greater_than_equal(T1 a, T2 b)
 template <typename T>
 inline bool approximately_equal_to_zero(T a)
 {
-    return std::abs(a) <= malg::feq::tolerance() * std::abs(a);
+    return malg::feq::approximately_equal(a, T(0));
 }
 
 } // namespace malg::feq
-- 
2.43.0


From 7b02ee4c493ee53969f283895e500a6e0538b2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:07 +0000
Subject: [PATCH 56/71] fix: ctrb, obsv and acker did not compile for constant
 views

---
 include/malg/control/control.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index f8364bd..d9e39f2 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -173,7 +173,7 @@ inline auto ctrb(const MatrixBase<T> &A, const MatrixBase<T> &B)
         throw std::runtime_error("ctrb: A and B matrices dimensions doesn't match.");
     }
     // Create the controllability matrix.
-    Matrix<T> result(B);
+    Matrix<std::remove_const_t<T>> result(B);
     // Construct the controllability matrix.
     for (std::size_t i = 1; i < A.rows(); ++i) {
         result = utility::hstack(result, linalg::powm(A, i) * B);
@@ -201,7 +201,7 @@ inline auto obsv(const MatrixBase<T> &A, const MatrixBase<T> &C)
         throw std::runtime_error("ctrb: A and C matrices dimensions doesn't match.");
     }
     // Create the observability matrix.
-    Matrix<T> result(C);
+    Matrix<std::remove_const_t<T>> result(C);
     // Construct the observability matrix.
     for (std::size_t i = 1; i < A.rows(); ++i) {
         result = utility::vstack(result, C * linalg::powm(A, i));
@@ -315,12 +315,12 @@ inline auto acker(const MatrixBase<T> &A, const MatrixBase<T> &B, const MatrixBa
     // Compute the desired characteristic polynomial.
     auto p = poly(poles);
     // Place the poles using Ackermann's method.
-    auto Ap = utility::zeros<T>(A.rows(), A.cols());
+    auto Ap = utility::zeros<std::remove_const_t<T>>(A.rows(), A.cols());
     for (std::size_t i = 0; i < (A.rows() + 1); ++i) {
         Ap += linalg::powm(A, (A.cols() - i)) * p[i];
     }
     // Prepare the selection matrix.
-    auto selection = utility::zeros<T>(1, ct.rows());
+    auto selection = utility::zeros<std::remove_const_t<T>>(1, ct.rows());
     // We are interested only in the last row.
     selection[ct.rows() - 1] = 1;
     // Compute the final matrix and select only the last row.
-- 
2.43.0


From e2df7a86c1dd332bf253b1658f4fe52886060386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:47 +0000
Subject: [PATCH 57/71] fix: reducing the zero polynomial of complex
 coefficients gave no coefficient

---
 include/malg/control/control.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index d9e39f2..aae1265 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -239,7 +239,7 @@ inline auto polyreduce(const Vector<T> &a)
         }
     }
     if (j == a.size()) {
-        return Vector<T>({ 0 });
+        return Vector<T>(1, T(0));
     }
     Vector<T> c(a.size() - j);
     for (i = j; i < a.size(); ++i) {
-- 
2.43.0


From 10b4f150bc84fd8f6c84a58c94b8b8cb3e4cebc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:03 +0000
Subject: [PATCH 58/71] fix: the Hessenberg reduction of a column with tiny
 elements was not unitary

---
 include/malg/eigen.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/malg/eigen.hpp b/include/malg/eigen.hpp
index 9ab168e..cfffb9a 100644
--- a/include/malg/eigen.hpp
+++ b/include/malg/eigen.hpp
@@ -69,7 +69,11 @@ inline auto hessenberg(const malg::Matrix<std::complex<T>> &A)
             U[i] = H(i, k);
             ulength += std::norm(U[i]);
         }
-        ulength = std::max(std::sqrt(ulength), std::numeric_limits<T>::epsilon());
+        // There is nothing to reflect.
+        if (ulength < std::numeric_limits<T>::min()) {
+            continue;
+        }
+        ulength = std::sqrt(ulength);
         for (int i = k + 1; i < N; i++) {
             U[i] /= ulength;
         }
-- 
2.43.0


From a34166f8ae1b191e2f18eb132589b19ad671ac6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:44 +0000
Subject: [PATCH 59/71] fix: the Hessenberg reduction of a matrix of tiny
 elements was not Hessenberg

---
 include/malg/eigen.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/eigen.hpp b/include/malg/eigen.hpp
index cfffb9a..6076548 100644
--- a/include/malg/eigen.hpp
+++ b/include/malg/eigen.hpp
@@ -60,7 +60,7 @@ inline auto hessenberg(const malg::Matrix<std::complex<T>> &A)
         std::complex<T> rho(1.0, 0.);
         auto xk  = H(k + 1, k);
         auto axk = std::abs(xk);
-        if (axk > std::numeric_limits<T>::epsilon()) {
+        if (axk > std::numeric_limits<T>::min()) {
             rho = -xk / axk;
         }
         U[k + 1]     = xk - rho * xlength;
-- 
2.43.0


From 2f8d75e8f38cef6d48e33dee461a093240d1fac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:44 +0000
Subject: [PATCH 60/71] fix: the columns of printed matrices were not aligned
 with the number format of the stream

---
 include/malg/io.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index 2aaa67f..84b622a 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -23,13 +23,15 @@ namespace details
 
 /// @brief Returns the longhest value inside the data.
 /// @param data the input data.
-/// @param precision the desired precision.
+/// @param stream the stream the data will be written to, i.e., its format.
 /// @returns the number of characters for the longhest value.
 template <typename T>
-inline auto get_longhest_value(T &data, std::streamsize precision)
+inline auto get_longhest_value(T &data, const std::ios_base &stream)
 {
     std::stringstream ss;
-    ss.precision(precision);
+    ss.imbue(stream.getloc());
+    ss.flags(stream.flags());
+    ss.precision(stream.precision());
     int longhest = 0, length;
     for (std::size_t i = 0; i < data.size(); ++i) {
         ss.str("");
@@ -54,7 +56,7 @@ inline std::ostream &operator<<(std::ostream &lhs, const malg::Vector<T> &rhs)
 {
     std::size_t i;
     // Get the longhest value.
-    auto length = malg::details::get_longhest_value(rhs, lhs.precision());
+    auto length = malg::details::get_longhest_value(rhs, lhs);
     // Print the vector.
     for (i = 0; i < rhs.size(); ++i) {
         lhs << std::setw(length) << rhs[i];
@@ -75,7 +77,7 @@ inline std::ostream &operator<<(std::ostream &lhs, const malg::MatrixBase<T> &rh
 {
     std::size_t r = 0, c = 0;
     // Get the longhest value.
-    auto length = malg::details::get_longhest_value(rhs, lhs.precision());
+    auto length = malg::details::get_longhest_value(rhs, lhs);
     // Print the matrix.
     for (r = 0; r < rhs.rows(); ++r) {
         for (c = 0; c < rhs.cols(); ++c) {
@@ -101,7 +103,7 @@ inline std::ofstream &operator<<(std::ofstream &lhs, const malg::Vector<T> &rhs)
 {
     std::size_t i;
     // Get the longhest value.
-    auto length = malg::details::get_longhest_value(rhs, lhs.precision());
+    auto length = malg::details::get_longhest_value(rhs, lhs);
     // Print the vector size.
     lhs << "V " << rhs.size() << "\n";
     // Print the vector.
@@ -125,7 +127,7 @@ inline std::ofstream &operator<<(std::ofstream &lhs, const malg::MatrixBase<T> &
 {
     std::size_t r = 0, c = 0;
     // Get the longhest value.
-    auto length = malg::details::get_longhest_value(rhs, lhs.precision());
+    auto length = malg::details::get_longhest_value(rhs, lhs);
     // Print the matrix size.
     lhs << "M " << rhs.rows() << " " << rhs.cols() << "\n";
     // Print the matrix.
-- 
2.43.0


From dbf126d41bf750236f815861e91fcc917d47bb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:15 +0000
Subject: [PATCH 61/71] fix: reading a matrix with no columns and a huge number
 of rows did not terminate

---
 include/malg/io.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index 84b622a..4dff93e 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -210,6 +210,10 @@ inline std::ifstream &operator>>(std::ifstream &lhs, malg::Matrix<T> &rhs)
     }
     // Prepare the matrix.
     rhs.resize(rows, cols);
+    // Without columns there is nothing to read, however many rows there are.
+    if (cols == 0) {
+        return lhs;
+    }
     // Read the matrix.
     for (r = 0; r < rhs.rows(); ++r) {
         for (c = 0; c < rhs.cols(); ++c) {
-- 
2.43.0


From 1226420fbd5cb292c83c618f89dbaa9c4fbe8329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:42 +0000
Subject: [PATCH 62/71] fix: state space models could not be printed outside of
 the malg namespace

---
 include/malg/io.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index 4dff93e..5ce2d6a 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -262,6 +262,14 @@ inline std::ostream &operator<<(std::ostream &lhs, const malg::control::Discrete
     return lhs;
 }
 
+namespace control
+{
+
+// The models are found in this namespace, and so must be their operators.
+using malg::operator<<;
+
+} // namespace control
+
 /// @brief Prepares a string for printing the vector.
 /// @param name the name to show.
 /// @param v the vector to display.
-- 
2.43.0


From 44b0f92a0ab4471e9aa09750c4c0dace67475213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:22 +0000
Subject: [PATCH 63/71] fix: reshape accepted dimensions whose product wraps
 around to the number of elements

---
 include/malg/matrix.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index fca2cd7..2b248fd 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -216,7 +216,8 @@ public:
     /// @return a reference to this matrix.
     auto &reshape(std::size_t rows, std::size_t cols)
     {
-        if (this->size() != (rows * cols)) {
+        // The product of the new dimensions can also wrap around.
+        if ((this->size() != (rows * cols)) || ((rows != 0) && (cols > (static_cast<std::size_t>(-1) / rows)))) {
             throw std::invalid_argument("The new shape has a different number of elements.");
         }
         this->_rows = rows;
-- 
2.43.0


From 6eedb30ff4c9aade62564d6df2a1bd5d8d2a782c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:35 +0000
Subject: [PATCH 64/71] fix: assign between overlapping views as from a copy

---
 include/malg/view.hpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/malg/view.hpp b/include/malg/view.hpp
index 24acb7c..ee3d7d1 100644
--- a/include/malg/view.hpp
+++ b/include/malg/view.hpp
@@ -94,10 +94,13 @@ public:
     /// @param rhs the other matrix.
     /// @returns a reference to this matrix.
     template <typename T2>
-    inline auto &operator=(const MatrixBase<T2> &rhs)
+    inline View &operator=(const MatrixBase<T2> &rhs)
     {
         assert(this->rows() == rhs.rows());
         assert(this->cols() == rhs.cols());
+        // When both show the same matrix, read every element before writing any.
+        if (!rhs.empty() && (static_cast<const void *>(this->data()) == rhs.data()))
+            return *this = Matrix<std::remove_const_t<T2>>(rhs);
         for (std::size_t r = 0; r < rhs.rows(); ++r)
             for (std::size_t c = 0; c < rhs.cols(); ++c)
                 this->at(r, c) = rhs(r, c);
@@ -107,10 +110,13 @@ public:
     /// @brief Assign operator.
     /// @param rhs the other matrix.
     /// @returns a reference to this matrix.
-    inline auto &operator=(const View<MatrixType> &rhs)
+    inline View &operator=(const View<MatrixType> &rhs)
     {
         assert(this->rows() == rhs.rows());
         assert(this->cols() == rhs.cols());
+        // When both show the same matrix, read every element before writing any.
+        if (!rhs.empty() && (static_cast<const void *>(this->data()) == rhs.data()))
+            return *this = Matrix<std::remove_const_t<T>>(rhs);
         for (std::size_t r = 0; r < rhs.rows(); ++r)
             for (std::size_t c = 0; c < rhs.cols(); ++c)
                 this->at(r, c) = rhs(r, c);
@@ -121,10 +127,13 @@ public:
     /// @param rhs the other matrix.
     /// @returns a reference to this matrix.
     template <typename T2>
-    inline auto &operator=(const View<T2> &rhs)
+    inline View &operator=(const View<T2> &rhs)
     {
         assert(this->rows() == rhs.rows());
         assert(this->cols() == rhs.cols());
+        // When both show the same matrix, read every element before writing any.
+        if (!rhs.empty() && (static_cast<const void *>(this->data()) == rhs.data()))
+            return *this = Matrix<std::remove_const_t<typename T2::value_type>>(rhs);
         for (std::size_t r = 0; r < rhs.rows(); ++r)
             for (std::size_t c = 0; c < rhs.cols(); ++c)
                 this->at(r, c) = rhs(r, c);
@@ -306,10 +315,13 @@ public:
     /// @param rhs the other matrix.
     /// @returns a reference to this matrix.
     template <typename T2>
-    inline auto &operator=(const MatrixBase<T2> &rhs)
+    inline CofactorView &operator=(const MatrixBase<T2> &rhs)
     {
         assert(this->rows() == rhs.rows());
         assert(this->cols() == rhs.cols());
+        // When both show the same matrix, read every element before writing any.
+        if (!rhs.empty() && (static_cast<const void *>(this->data()) == rhs.data()))
+            return *this = Matrix<std::remove_const_t<T2>>(rhs);
         for (std::size_t r = 0; r < rhs.rows(); ++r)
             for (std::size_t c = 0; c < rhs.cols(); ++c)
                 this->at(r, c) = rhs(r, c);
@@ -319,10 +331,13 @@ public:
     /// @brief Assign operator.
     /// @param rhs the other matrix.
     /// @returns a reference to this matrix.
-    inline auto &operator=(const CofactorView<MatrixType> &rhs)
+    inline CofactorView &operator=(const CofactorView<MatrixType> &rhs)
     {
         assert(this->rows() == rhs.rows());
         assert(this->cols() == rhs.cols());
+        // When both show the same matrix, read every element before writing any.
+        if (!rhs.empty() && (static_cast<const void *>(this->data()) == rhs.data()))
+            return *this = Matrix<std::remove_const_t<T>>(rhs);
         for (std::size_t r = 0; r < rhs.rows(); ++r)
             for (std::size_t c = 0; c < rhs.cols(); ++c)
                 this->at(r, c) = rhs(r, c);
-- 
2.43.0


From b848a4fd6ffd35bb5685b1e04c1ac6ce04565216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:35 +0000
Subject: [PATCH 65/71] fix: add and subtract overlapping views in place as
 with a copy

---
 include/malg/math.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 10d840d..212fd83 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -61,7 +61,7 @@ inline auto operator+(const malg::MatrixBase<T1> &A, const T2 &b)
 /// @param B second matrix.
 /// @returns matrix A.
 template <typename T1, typename T2>
-auto &operator+=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
+malg::MatrixBase<T1> &operator+=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 {
     // Check the sizes.
     if (A.rows() != B.rows()) {
@@ -70,6 +70,10 @@ auto &operator+=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
     if (A.cols() != B.cols()) {
         throw std::invalid_argument("Matrices has different number of colmuns.");
     }
+    // When both show the same matrix, read every element before writing any.
+    if (!B.empty() && (static_cast<const void *>(A.data()) == B.data()) && (static_cast<const void *>(&A) != &B)) {
+        return A += malg::Matrix<std::remove_const_t<T2>>(B);
+    }
     // Compute the result.
     for (std::size_t i = 0; i < A.size(); ++i) {
         A[i] += B[i];
@@ -139,7 +143,7 @@ inline auto operator-(const malg::MatrixBase<T1> &A, const T2 &b)
 /// @param B second matrix.
 /// @returns matrix A.
 template <typename T1, typename T2>
-auto &operator-=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
+malg::MatrixBase<T1> &operator-=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 {
     // Check the sizes.
     if (A.rows() != B.rows()) {
@@ -148,6 +152,10 @@ auto &operator-=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
     if (A.cols() != B.cols()) {
         throw std::invalid_argument("Matrices has different number of colmuns.");
     }
+    // When both show the same matrix, read every element before writing any.
+    if (!B.empty() && (static_cast<const void *>(A.data()) == B.data()) && (static_cast<const void *>(&A) != &B)) {
+        return A -= malg::Matrix<std::remove_const_t<T2>>(B);
+    }
     // Compute the result.
     for (std::size_t i = 0; i < A.size(); ++i) {
         A[i] -= B[i];
-- 
2.43.0


From 3b9a3154ae1c37a906e492d80cff765b63e8f807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:40 +0000
Subject: [PATCH 66/71] fix: leave a matrix as it is when a list assigned to it
 does not fit in memory

---
 include/malg/matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index 2b248fd..f2b1734 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -374,12 +374,12 @@ public:
         if (data.begin()->size() <= 0) {
             return *this;
         }
+        // Initialize the vector.
+        _data = Vector<T>(data.size() * data.begin()->size());
         // Get the number of rows.
         this->_rows = data.size();
         // Get the number of columns.
         this->_cols = data.begin()->size();
-        // Initialize the vector.
-        _data = Vector<T>(_rows * _cols);
         // Get an interator for the data.
         auto r_it = data.begin();
         for (std::size_t r = 0, c = 0; r < _rows; ++r, ++r_it) {
-- 
2.43.0


From 30793ac974aa553fd784e8bcf2125eeb34573cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:06 +0000
Subject: [PATCH 67/71] fix: eigen.hpp could not be included more than once

---
 include/malg/eigen.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/malg/eigen.hpp b/include/malg/eigen.hpp
index 6076548..7b8800c 100644
--- a/include/malg/eigen.hpp
+++ b/include/malg/eigen.hpp
@@ -9,6 +9,8 @@
 ///     https://www.math.kth.se/na/SF2524/matber15/qrmethod.pdf
 ///     https://www.ams.org/journals/mcom/2002-71-240/S0025-5718-01-01387-4/S0025-5718-01-01387-4.pdf
 
+#pragma once
+
 #include "malg/utility.hpp"
 #include "malg/linalg.hpp"
 #include "malg/math.hpp"
-- 
2.43.0


From 9cc7c9f5bc2fb455a7af0d7231a32ee30ad3c5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:49 +0000
Subject: [PATCH 68/71] fix: is_invertible and is_linearly_(in)dependent did
 not compile with utility.hpp alone

---
 include/malg/math.hpp    | 3 +++
 include/malg/utility.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 212fd83..85005dd 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1519,3 +1519,6 @@ auto log2_ceil(const malg::MatrixBase<T> &A)
 }
 
 } // namespace malg
+
+// The determinant, of which utility.hpp only has the declaration.
+#include "malg/linalg.hpp"
diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 395c8fb..6637fa4 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -1146,3 +1146,6 @@ inline auto rand_vector(std::size_t size, T2 min, T2 max)
 }
 
 } // namespace malg::utility
+
+// is_invertible and the others need the definition of the determinant.
+#include "malg/math.hpp"
-- 
2.43.0


From c35172d094eb811ff6fe7308bdba2957b2b220c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:09 +0000
Subject: [PATCH 69/71] fix: simulate converted an infinite, negative or
 undefined number of steps to an integer

---
 include/malg/control/control.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index aae1265..9868e8c 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -138,8 +138,9 @@ inline auto simulate(
     T simulated_time,
     Vector<T> init)
 {
-    // Compute the simulation steps.
-    auto steps = std::min(u.size(), static_cast<size_t>(simulated_time / sys.sample_time));
+    // Compute the simulation steps, the quotient might be infinite, negative, or not a number.
+    auto ratio = std::fmin(std::fmax(simulated_time / sys.sample_time, T(0)), static_cast<double>(u.size()));
+    auto steps = std::min(u.size(), static_cast<size_t>(ratio));
     // Prepare a vector for the time vector.
     std::vector<T> t(steps + 1, 0.);
     // Prepare a vector for the state vector, specifically just the initial value.
-- 
2.43.0


From 298814b3eac702afd3d442e8444eaebe20a9e587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:54 +0000
Subject: [PATCH 70/71] fix: a view of rows or columns that the matrix does not
 have is empty

---
 include/malg/view.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/view.hpp b/include/malg/view.hpp
index ee3d7d1..3800d9d 100644
--- a/include/malg/view.hpp
+++ b/include/malg/view.hpp
@@ -73,14 +73,14 @@ public:
     /// @returns the number of rows.
     inline std::size_t rows() const override
     {
-        return std::min(_row.stop, _matrix->rows()) - _row.start;
+        return std::min(_row.stop, _matrix->rows()) - std::min(_row.start, _matrix->rows());
     }
 
     /// @brief Get the number of columns of the matrix.
     /// @returns the number of columns.
     inline std::size_t cols() const override
     {
-        return std::min(_col.stop, _matrix->cols()) - _col.start;
+        return std::min(_col.stop, _matrix->cols()) - std::min(_col.start, _matrix->cols());
     }
 
     /// @brief Returns the total size of the matrix.
-- 
2.43.0


From ac93740f1fb2a0171550d009eb32d8d7cee6c85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:54 +0000
Subject: [PATCH 71/71] fix: a cofactor view hides a row and a column only if
 the matrix has them

---
 include/malg/view.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/view.hpp b/include/malg/view.hpp
index 3800d9d..29c6a7c 100644
--- a/include/malg/view.hpp
+++ b/include/malg/view.hpp
@@ -294,14 +294,14 @@ public:
     /// @returns the number of rows.
     inline std::size_t rows() const override
     {
-        return _matrix->rows() - 1;
+        return _matrix->rows() - (_excluded_row < _matrix->rows());
     }
 
     /// @brief Get the number of columns of the matrix.
     /// @returns the number of columns.
     inline std::size_t cols() const override
     {
-        return _matrix->cols() - 1;
+        return _matrix->cols() - (_excluded_col < _matrix->cols());
     }
 
     /// @brief Returns the total size of the matrix.
-- 
2.43.0

