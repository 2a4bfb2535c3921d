From b146b19897652442a7d960d40cfd5d342f0c6241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:44 +0000
Subject: [PATCH 01/73] fix: report allocation failure and size overflow in
 Vector

---
 include/malg/vector.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/malg/vector.hpp b/include/malg/vector.hpp
index 451769f..4b9fabb 100644
--- a/include/malg/vector.hpp
+++ b/include/malg/vector.hpp
@@ -7,6 +7,7 @@
 #include <cassert>
 #include <cstdlib>
 #include <initializer_list>
+#include <new>
 #include <utility>
 
 //#define MEM_TRACE
@@ -334,8 +335,16 @@ private:
         if (size == _size) {
             return true;
         }
-        // Re-allocate the data.
-        _data = static_cast<T *>(std::realloc(_data, sizeof(T) * size));
+        // Check that the number of bytes can be represented.
+        if (size > (static_cast<std::size_t>(-1) / sizeof(T))) {
+            throw std::bad_alloc();
+        }
+        // Re-allocate the data, on failure the old data must still be owned by the vector.
+        T *data = static_cast<T *>(std::realloc(_data, sizeof(T) * size));
+        if (data == nullptr) {
+            throw std::bad_alloc();
+        }
+        _data = data;
 #ifdef MEM_TRACE
         if (_size == 0)
             std::cout << "Allocating    " << (sizeof(T) * size) << " bytes (" << _data << ")\n";
-- 
2.43.0


From 273647cff2c48364553fef6515099bd6c9ec988a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:47 +0000
Subject: [PATCH 02/73] fix: convert the elements when moving a Vector of
 another type

---
 include/malg/vector.hpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/include/malg/vector.hpp b/include/malg/vector.hpp
index 4b9fabb..5c6099d 100644
--- a/include/malg/vector.hpp
+++ b/include/malg/vector.hpp
@@ -134,14 +134,9 @@ public:
     /// @param other the other vector.
     template <typename T2>
     explicit Vector(Vector<T2> &&other)
-        : _data(),
-          _size()
+        : Vector(static_cast<const Vector<T2> &>(other))
     {
-        if (this != &other) {
-            this->deallocate();
-            std::swap(_data, other._data);
-            std::swap(_size, other._size);
-        }
+        // The data have different types, they cannot be moved.
     }
 
     /// @brief Destroy the Vector object.
@@ -261,12 +256,8 @@ public:
     template <typename T2>
     inline auto &operator=(Vector<T2> &&other)
     {
-        if (this != &other) {
-            this->deallocate();
-            std::swap(_data, other._data);
-            std::swap(_size, other._size);
-        }
-        return *this;
+        // The data have different types, they cannot be moved.
+        return *this = static_cast<const Vector<T2> &>(other);
     }
 
     /// @brief Provides a pointer to the begining of the vector.
-- 
2.43.0


From d1bc53397bd50b5121764195f83d0a4f39c6129b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:50 +0000
Subject: [PATCH 03/73] fix: make assigning an empty matrix empty the
 destination, and leave moved-from matrices empty

---
 include/malg/matrix.hpp | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index f960506..7858c30 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -173,7 +173,9 @@ public:
         : MatrixBase<T>(rhs.rows(), rhs.cols()),
           _data(std::move(rhs._data))
     {
-        // Nothing to do.
+        // The moved matrix no longer holds any element.
+        rhs._rows = 0;
+        rhs._cols = 0;
     }
 
     /// @brief Construct a new Matrix object.
@@ -261,17 +263,15 @@ public:
         if (&rhs == this) {
             return *this;
         }
-        if (rhs.size() > 0) {
-            // Initialize the new vector of data.
-            _data = Vector<T>(rhs.rows() * rhs.cols());
-            // Set the new rows and columns.
-            this->_rows = rhs.rows();
-            this->_cols = rhs.cols();
-            // Copy the content.
-            for (std::size_t r = 0; r < _rows; ++r) {
-                for (std::size_t c = 0; c < _cols; ++c) {
-                    this->at(r, c) = rhs(r, c);
-                }
+        // Initialize the new vector of data.
+        _data = Vector<T>(rhs.rows() * rhs.cols());
+        // Set the new rows and columns.
+        this->_rows = rhs.rows();
+        this->_cols = rhs.cols();
+        // Copy the content.
+        for (std::size_t r = 0; r < _rows; ++r) {
+            for (std::size_t c = 0; c < _cols; ++c) {
+                this->at(r, c) = rhs(r, c);
             }
         }
         return *this;
@@ -354,12 +354,15 @@ public:
     /// @returns a reference to this matrix.
     auto &operator=(Matrix<T> &&rhs)
     {
-        if ((&rhs != this) && (rhs.size() > 0)) {
+        if (&rhs != this) {
             // Copy the content.
             _data = std::move(rhs._data);
             // Set the new rows and columns.
             this->_rows = rhs.rows();
             this->_cols = rhs.cols();
+            // The moved matrix no longer holds any element.
+            rhs._rows = 0;
+            rhs._cols = 0;
         }
         return *this;
     }
-- 
2.43.0


From 8b18410484f9227552543eaa98f7ab9ec49e3d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:52 +0000
Subject: [PATCH 04/73] fix: copy the content before assigning a view of the
 same matrix

---
 include/malg/matrix.hpp | 32 ++++----------------------------
 1 file changed, 4 insertions(+), 28 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index 7858c30..5ffb61a 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -285,20 +285,8 @@ public:
         if (&rhs == this) {
             return *this;
         }
-        if (rhs.size() > 0) {
-            // Initialize the new vector of data.
-            _data = Vector<T>(rhs.rows() * rhs.cols());
-            // Set the new rows and columns.
-            this->_rows = rhs.rows();
-            this->_cols = rhs.cols();
-            // Copy the content.
-            for (std::size_t r = 0; r < _rows; ++r) {
-                for (std::size_t c = 0; c < _cols; ++c) {
-                    this->at(r, c) = rhs(r, c);
-                }
-            }
-        }
-        return *this;
+        // Copy the content first, since rhs might be a view of this matrix.
+        return *this = Matrix<T>(rhs);
     }
 
     /// @brief Assign operator.
@@ -307,20 +295,8 @@ public:
     template <typename T2>
     auto &operator=(const MatrixBase<T2> &rhs)
     {
-        if (rhs.size() > 0) {
-            // Initialize the new vector of data.
-            _data = Vector<T>(rhs.rows() * rhs.cols());
-            // Set the new rows and columns.
-            this->_rows = rhs.rows();
-            this->_cols = rhs.cols();
-            // Copy the content.
-            for (std::size_t r = 0; r < _rows; ++r) {
-                for (std::size_t c = 0; c < _cols; ++c) {
-                    this->at(r, c) = rhs(r, c);
-                }
-            }
-        }
-        return *this;
+        // Copy the content first, since rhs might be a view of this matrix.
+        return *this = Matrix<T>(rhs);
     }
 
     /// @brief Assign operator.
-- 
2.43.0


From 32877ccae90e35c857b1e44f49c8d487d64f8e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:55 +0000
Subject: [PATCH 05/73] fix: allow assigning and moving a Matrix of another
 element type

---
 include/malg/matrix.hpp | 24 +++---------------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index 5ffb61a..1d8a0b0 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -183,10 +183,9 @@ public:
     /// @param rhs the other matrix.
     template <typename T2>
     explicit Matrix(Matrix<T2> &&rhs)
-        : MatrixBase<T>(rhs.rows(), rhs.cols()),
-          _data(std::move(rhs._data))
+        : Matrix(static_cast<const MatrixBase<T2> &>(rhs))
     {
-        // Nothing to do.
+        // The data have different types, they cannot be moved.
     }
 
     /// @brief Destroy the Matrix object.
@@ -305,24 +304,7 @@ public:
     template <typename T2>
     Matrix<T> &operator=(const Matrix<T2> &rhs)
     {
-        if (&rhs != this) {
-            if (!std::is_same_v<T, T2>) {
-                if (rhs.size() > 0) {
-                    // Initialize the new vector of data.
-                    _data = Vector<T>(rhs.rows() * rhs.cols());
-                    // Set the new rows and columns.
-                    this->_rows = rhs.rows();
-                    this->_cols = rhs.cols();
-                    // Copy the content.
-                    for (std::size_t r = 0; r < _rows; ++r) {
-                        for (std::size_t c = 0; c < _cols; ++c) {
-                            this->at(r, c) = rhs(r, c);
-                        }
-                    }
-                }
-            }
-        }
-        return *this;
+        return *this = static_cast<const MatrixBase<T2> &>(rhs);
     }
 
     /// @brief Assign operator.
-- 
2.43.0


From e6fba9ff403741a9d3d0564d0fb859354f4a2336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 06/73] fix: reject lists and vectors that do not have enough
 elements for the matrix

---
 include/malg/matrix.hpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index 1d8a0b0..1c6059c 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -66,6 +66,9 @@ public:
         : MatrixBase<T>(rows, cols),
           _data(rows * cols)
     {
+        if (data.size() < (rows * cols)) {
+            throw std::invalid_argument("The input list does not have enough elements.");
+        }
         auto it = data.begin();
         for (std::size_t r = 0, c = 0; r < _rows; ++r) {
             for (c = 0; c < _cols; ++c, ++it) {
@@ -82,6 +85,9 @@ public:
         : MatrixBase<T>(rows, cols),
           _data(rows * cols)
     {
+        if (data.size() < (rows * cols)) {
+            throw std::invalid_argument("The input vector does not have enough elements.");
+        }
         auto it = data.begin();
         for (std::size_t r = 0, c = 0; r < _rows; ++r) {
             for (c = 0; c < _cols; ++c, ++it) {
@@ -104,6 +110,11 @@ public:
         if (data.begin()->size() <= 0) {
             throw std::invalid_argument("The input list has no columns.");
         }
+        for (const auto &row : data) {
+            if (row.size() != data.begin()->size()) {
+                throw std::invalid_argument("The rows of the input list have different lengths.");
+            }
+        }
         // Get the number of rows.
         this->_rows = data.size();
         // Get the number of columns.
@@ -338,12 +349,17 @@ public:
         if (data.begin()->size() <= 0) {
             return *this;
         }
+        for (const auto &row : data) {
+            if (row.size() != data.begin()->size()) {
+                throw std::invalid_argument("The rows of the input list have different lengths.");
+            }
+        }
+        // Initialize the vector.
+        _data = Vector<T>(data.size() * data.begin()->size());
         // Get the number of rows.
         this->_rows = data.size();
         // Get the number of columns.
         this->_cols = data.begin()->size();
-        // Initialize the vector.
-        _data = Vector<T>(_rows * _cols);
         // Get an interator for the data.
         auto r_it = data.begin();
         for (std::size_t r = 0, c = 0; r < _rows; ++r, ++r_it) {
-- 
2.43.0


From bed7e5f150fea29c68abc6eca8b34ed9a20c0cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:01 +0000
Subject: [PATCH 07/73] fix: compute emptiness of views from their own shape

---
 include/malg/matrix_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/matrix_base.hpp b/include/malg/matrix_base.hpp
index dbbb732..9198668 100644
--- a/include/malg/matrix_base.hpp
+++ b/include/malg/matrix_base.hpp
@@ -76,7 +76,7 @@ public:
     /// @returns false otherwise.
     inline virtual bool empty() const
     {
-        return (_rows == 0) || (_cols == 0);
+        return (this->rows() == 0) || (this->cols() == 0);
     }
 
     /// @brief Returns a pointer to the internal data.
-- 
2.43.0


From ec9bb2a4dbd2b8d89232ff9e2972868ba16f953c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:03 +0000
Subject: [PATCH 08/73] fix: use the row length for linear access to a
 CofactorView

---
 include/malg/view.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/malg/view.hpp b/include/malg/view.hpp
index 659181e..2d3a1cd 100644
--- a/include/malg/view.hpp
+++ b/include/malg/view.hpp
@@ -336,9 +336,9 @@ public:
     inline T &operator[](std::size_t pos) override
     {
 #ifdef ROW_MAJOR
-        return this->at((pos / this->rows()), (pos % this->rows()));
+        return this->at((pos / this->cols()), (pos % this->cols()));
 #else
-        return this->at((pos % this->cols()), (pos / this->cols()));
+        return this->at((pos % this->rows()), (pos / this->rows()));
 #endif
     }
 
@@ -348,9 +348,9 @@ public:
     inline const T &operator[](std::size_t pos) const override
     {
 #ifdef ROW_MAJOR
-        return this->at((pos / this->rows()), (pos % this->rows()));
+        return this->at((pos / this->cols()), (pos % this->cols()));
 #else
-        return this->at((pos % this->cols()), (pos / this->cols()));
+        return this->at((pos % this->rows()), (pos / this->rows()));
 #endif
     }
 
-- 
2.43.0


From 8866a79fe562ce7ace4547d778caaf5769f28054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:06 +0000
Subject: [PATCH 09/73] fix: assign the elements when copying a CofactorView
 onto another

---
 include/malg/view.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/malg/view.hpp b/include/malg/view.hpp
index 2d3a1cd..0873ad6 100644
--- a/include/malg/view.hpp
+++ b/include/malg/view.hpp
@@ -316,6 +316,14 @@ public:
         return *this;
     }
 
+    /// @brief Assign operator.
+    /// @param rhs the other view.
+    /// @returns a reference to this view.
+    inline auto &operator=(const CofactorView<MatrixType> &rhs)
+    {
+        return *this = static_cast<const MatrixBase<T> &>(rhs);
+    }
+
     /// @brief Returns a pointer to the content.
     /// @returns the pointer.
     inline T *data() override
-- 
2.43.0


From 891002edc5180af233e074eb9d7a741d63a33ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:09 +0000
Subject: [PATCH 10/73] fix: reject ragged lists when assigning to a View

---
 include/malg/view.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/malg/view.hpp b/include/malg/view.hpp
index 0873ad6..caf73e7 100644
--- a/include/malg/view.hpp
+++ b/include/malg/view.hpp
@@ -154,6 +154,12 @@ public:
             std::cerr << "View: second dimension of initializer list is incompatible (" << this->cols() << " vs " << data.begin()->size() << ").\n";
             return *this;
         }
+        for (const auto &row : data) {
+            if (this->cols() != row.size()) {
+                std::cerr << "View: the rows of the initializer list have different lengths.\n";
+                return *this;
+            }
+        }
         // Get an interator for the data.
         auto r_it = data.begin();
         decltype(r_it->begin()) c_it;
-- 
2.43.0


From 55a212b88fdf44a5a93bbb01267534aaaccd3256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:01 +0000
Subject: [PATCH 11/73] fix: recognize const complex types

---
 include/malg/type_traits.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/malg/type_traits.hpp b/include/malg/type_traits.hpp
index a7c24f3..60a0c5d 100644
--- a/include/malg/type_traits.hpp
+++ b/include/malg/type_traits.hpp
@@ -26,6 +26,12 @@ struct is_complex<std::complex<T>> : public std::true_type {
     using type = T; ///< An alias for T.
 };
 
+/// @brief The elements of constant views are constant.
+/// @tparam T the non-constant type.
+template <typename T>
+struct is_complex<const T> : public is_complex<T> {
+};
+
 /// @brief Alias template for checking if a type is complex.F
 /// @tparam T the type we are analyzing.
 /// @details
-- 
2.43.0


From b39fb18a86e5101b73d29846f5264cb9e9607c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:03 +0000
Subject: [PATCH 12/73] fix: compare values of different types for approximate
 equality

---
 include/malg/feq.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/malg/feq.hpp b/include/malg/feq.hpp
index 70f25f4..048af46 100644
--- a/include/malg/feq.hpp
+++ b/include/malg/feq.hpp
@@ -26,7 +26,8 @@ static inline auto &tolerance()
 template <typename T1, typename T2>
 inline bool approximately_equal(T1 a, T2 b)
 {
-    return std::abs(a - b) <= tolerance() * std::max(std::abs(a), std::abs(b));
+    using T = std::common_type_t<decltype(std::abs(a)), decltype(std::abs(b))>;
+    return std::abs(a - b) <= tolerance() * std::max<T>(std::abs(a), std::abs(b));
 }
 
 /// @brief Checks if the fir floating point value is lesser than or equal to the second one.
-- 
2.43.0


From 0106e345b70096bc606e05d1406f2b9544d59ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:06 +0000
Subject: [PATCH 13/73] fix: return the matrix by reference when adding a
 scalar to it in place

---
 include/malg/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index e5a9812..52d4577 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -82,7 +82,7 @@ auto &operator+=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns matrix A.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator+=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator+=(malg::MatrixBase<T1> &A, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
-- 
2.43.0


From be81c124491028799fd9c6c510c194dc590bd860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:09 +0000
Subject: [PATCH 14/73] fix: return the matrix by reference when subtracting a
 scalar from it in place

---
 include/malg/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 52d4577..abc64a0 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -160,7 +160,7 @@ auto &operator-=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns matrix A.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator-=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator-=(malg::MatrixBase<T1> &A, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
-- 
2.43.0


From c6a4b9b32c54de46e1cf924615724fe5cbfd0278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:12 +0000
Subject: [PATCH 15/73] fix: let the in-place vector-scalar operators modify
 the vector

---
 include/malg/math.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index abc64a0..37cad24 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -717,7 +717,7 @@ inline auto &operator+=(malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the left-hand side vector, containing the sum of the scalar and the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator+=(const malg::Vector<T1> &a, const T2 &b)
+inline auto &operator+=(malg::Vector<T1> &a, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -793,7 +793,7 @@ inline auto &operator-=(malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the left-hand side vector, containing the subtraction of the scalar from the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator-=(const malg::Vector<T1> &a, const T2 &b)
+inline auto &operator-=(malg::Vector<T1> &a, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -869,7 +869,7 @@ inline auto operator*(const T1 &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the input vector, containing the multiplication of the scalar and the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator*=(const malg::Vector<T1> &a, const T2 &b)
+inline auto &operator*=(malg::Vector<T1> &a, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -905,7 +905,7 @@ inline auto operator/(const malg::Vector<T1> &a, const T2 &b)
 /// @param b the scalar.
 /// @returns a reference to the input vector, containing the division of the elements of the vector by the scalar.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto operator/=(const malg::Vector<T1> &a, const T2 &b)
+inline auto &operator/=(malg::Vector<T1> &a, const T2 &b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
-- 
2.43.0


From 80bc6ac830837dc2e3b2985a9927edeee2f90a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:15 +0000
Subject: [PATCH 16/73] fix: use the vector as the vector in scalar times
 vector

---
 include/malg/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 37cad24..bd54155 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -856,9 +856,9 @@ inline auto operator*(const T1 &a, const malg::Vector<T2> &b)
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T1, T2>>;
     // Declare the output vector.
-    malg::Vector<data_type_t> result(a.size());
+    malg::Vector<data_type_t> result(b.size());
     // Perform the operation.
-    for (std::size_t i = 0; i < a.size(); ++i) {
+    for (std::size_t i = 0; i < b.size(); ++i) {
         result[i] = a * b[i];
     }
     return result;
-- 
2.43.0


From c71b3f962efe04bf17dd0915f3c65b7b13365ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:17 +0000
Subject: [PATCH 17/73] fix: reject in-place multiplication by a matrix that
 changes the shape

---
 include/malg/math.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index bd54155..0018f56 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -236,6 +236,9 @@ auto &operator*=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
         throw std::invalid_argument("For matrix multiplication, the number of columns in the first"
                                     "matrix must be equal to the number of rows in the second matrix.");
     }
+    if (A.cols() != B.cols()) {
+        throw std::invalid_argument("For in-place matrix multiplication, the second matrix must be square.");
+    }
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T1, T2>>;
     // Declare the output matrix.
-- 
2.43.0


From e33d8add9f4a925bb94254eeb26cc9c62b8122c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:20 +0000
Subject: [PATCH 18/73] fix: check the sizes when multiplying a matrix and a
 vector

---
 include/malg/math.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 0018f56..15bcdc8 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -928,6 +928,10 @@ inline auto &operator/=(malg::Vector<T1> &a, const T2 &b)
 template <typename T1, typename T2>
 inline auto operator*(const malg::MatrixBase<T1> &A, const malg::Vector<T2> &b)
 {
+    // Check the sizes.
+    if (A.cols() != b.size()) {
+        throw std::invalid_argument("The matrix must have the same number of columns as the size of the vector.");
+    }
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T1, T2>>;
     // Create the result vector.
@@ -973,6 +977,10 @@ inline auto dot(const malg::Vector<T1> &a, const malg::Vector<T2> &b)
 template <typename T1, typename T2>
 inline auto dot(const malg::MatrixBase<T1> &A, const malg::Vector<T2> &b)
 {
+    // Check the sizes.
+    if (A.cols() != b.size()) {
+        throw std::invalid_argument("The matrix must have the same number of columns as the size of the vector.");
+    }
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T1, T2>>;
     // Create the result vector.
-- 
2.43.0


From e4bcdf29e349f609af61e8f9b8e3b4cd29f6bf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:22 +0000
Subject: [PATCH 19/73] fix: store the results of element-wise functions

---
 include/malg/math.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 15bcdc8..dfddb05 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1004,9 +1004,11 @@ inline auto element_wise_function(const malg::Vector<T> &a, Function fun)
     // Select the right type.
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T, decltype(fun(std::declval<T>()))>>;
     // Create the resulting vector.
-    malg::Vector<data_type_t> result(a);
+    malg::Vector<data_type_t> result(a.size());
     // Apply the function to all the elements.
-    std::for_each(result.begin(), result.end(), fun);
+    for (std::size_t i = 0; i < a.size(); ++i) {
+        result[i] = fun(a[i]);
+    }
     // Return the vector.
     return result;
 }
@@ -1023,7 +1025,9 @@ inline auto element_wise_function(const malg::MatrixBase<T> &A, Function fun)
     // Create the resulting matrix.
     malg::Matrix<data_type_t> result(A.rows(), A.cols());
     // Apply the function to all the elements.
-    std::for_each(result.begin(), result.end(), fun);
+    for (std::size_t i = 0; i < A.size(); ++i) {
+        result[i] = fun(A[i]);
+    }
     // Return the matrix.
     return result;
 }
-- 
2.43.0


From 5cc3aec39aabe8379bd269c06a6e43dd34c8df1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:25 +0000
Subject: [PATCH 20/73] fix: select the kind of sign at compile time

---
 include/malg/math.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index dfddb05..7e85dfe 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1143,10 +1143,11 @@ auto abs(const malg::Vector<T> &a)
 template <typename T>
 auto sign(const malg::MatrixBase<T> &a)
 {
-    if (malg::is_complex_v<T>) {
+    if constexpr (malg::is_complex_v<T>) {
         return element_wise_function(a, [](const T &value) { return T(std::real(value) > 0 ? +1 : -1, std::imag(value) > 0 ? +1 : -1); });
+    } else {
+        return element_wise_function(a, [](const T &value) { return value > 0 ? +1 : -1; });
     }
-    return element_wise_function(a, [](const T &value) { return value > 0 ? +1 : -1; });
 }
 
 /// @brief Returns a matrix containing the sign of the values in the input matrix.
@@ -1155,10 +1156,11 @@ auto sign(const malg::MatrixBase<T> &a)
 template <typename T>
 auto sign(const malg::Vector<T> &a)
 {
-    if (malg::is_complex_v<T>) {
+    if constexpr (malg::is_complex_v<T>) {
         return element_wise_function(a, [](const T &value) { return T(std::real(value) > 0 ? +1 : -1, std::imag(value) > 0 ? +1 : -1); });
+    } else {
+        return element_wise_function(a, [](const T &value) { return value > 0 ? +1 : -1; });
     }
-    return element_wise_function(a, [](const T &value) { return value > 0 ? +1 : -1; });
 }
 
 /// @brief Vector projection of **a** onto **b**.
-- 
2.43.0


From 174f4db68724d22108930b41ae8ed7992f82e220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:28 +0000
Subject: [PATCH 21/73] fix: do not narrow the second operand of element-wise
 products and linear combinations

---
 include/malg/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 7e85dfe..68e0e15 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1200,7 +1200,7 @@ inline auto vector_length(malg::MatrixBase<T> &A, std::size_t c, std::size_t r_s
 template <typename T1, typename T2>
 auto element_wise_product(const malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 {
-    return element_wise_binary_function(A, B, [&](const T1 lhs, const T1 rhs) { return lhs * rhs; });
+    return element_wise_binary_function(A, B, [&](const T1 lhs, const T2 rhs) { return lhs * rhs; });
 }
 
 /// @brief Computes the linear combination of matrices.
@@ -1212,7 +1212,7 @@ auto element_wise_product(const malg::MatrixBase<T1> &A, const malg::MatrixBase<
 template <typename T1, typename T2, typename T3, typename T4>
 auto linear_combination(const malg::MatrixBase<T1> &A, const T2 &a, const malg::MatrixBase<T3> &B, const T4 &b)
 {
-    return element_wise_binary_function(A, B, [&](const T1 lhs, const T1 rhs) { return lhs * a + rhs * b; });
+    return element_wise_binary_function(A, B, [&](const T1 lhs, const T3 rhs) { return lhs * a + rhs * b; });
 }
 
 /// @brief Sums the element of the vector.
-- 
2.43.0


From 0a4a77fdc0eb54bf3440f5aa795d68a4b90ce704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:30 +0000
Subject: [PATCH 22/73] fix: accept constant, complex and open-ended columns in
 vector_length

---
 include/malg/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 68e0e15..0b08540 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1180,11 +1180,11 @@ inline auto projection(const malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param r_end the ending row.
 /// @returns the mangnitude of the column vector.
 template <typename T>
-inline auto vector_length(malg::MatrixBase<T> &A, std::size_t c, std::size_t r_start, std::size_t r_end)
+inline auto vector_length(const malg::MatrixBase<T> &A, std::size_t c, std::size_t r_start = 0, std::size_t r_end = std::numeric_limits<std::size_t>::max())
 {
     std::remove_const_t<malg::is_complex_t<T>> accum = 0;
     for (std::size_t r = r_start; r < std::min(r_end, A.rows()); r++) {
-        if (malg::is_complex_v<T>) {
+        if constexpr (malg::is_complex_v<T>) {
             accum += std::norm(A(r, c));
         } else {
             accum += A(r, c) * A(r, c);
-- 
2.43.0


From 762dfcfc79bf5994c834097dfd3c4bd5cbfdefa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:33 +0000
Subject: [PATCH 23/73] fix: compute the trace of matrices with more rows than
 columns

---
 include/malg/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 0b08540..eb2046e 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1238,7 +1238,7 @@ inline auto trace(const MatrixBase<T> &A)
     return sum(diag(A));
 #else
     std::remove_const_t<T> result = 0;
-    for (std::size_t i = 0; i < A.rows(); ++i) {
+    for (std::size_t i = 0; i < std::min(A.rows(), A.cols()); ++i) {
         result += A(i, i);
     }
     return result;
-- 
2.43.0


From c6b1fe9095fb5dfe2fdad3080578d5948b7d7a88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 24/73] fix: compare with the zero of the element type in all
 and any

---
 include/malg/math.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index eb2046e..f4bb9b2 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1335,7 +1335,7 @@ template <typename T>
 inline bool all(const MatrixBase<T> &a)
 {
     for (std::size_t i = 0; i < a.size(); ++i) {
-        if (a[i] == 0) {
+        if (a[i] == T(0)) {
             return false;
         }
     }
@@ -1350,7 +1350,7 @@ template <typename T>
 inline bool all(const Vector<T> &v)
 {
     for (std::size_t i = 0; i < v.size(); ++i) {
-        if (v[i] == 0) {
+        if (v[i] == T(0)) {
             return false;
         }
     }
@@ -1365,7 +1365,7 @@ template <typename T>
 inline bool any(const MatrixBase<T> &a)
 {
     for (std::size_t i = 0; i < a.size(); ++i) {
-        if (a[i] != 0) {
+        if (a[i] != T(0)) {
             return true;
         }
     }
@@ -1380,7 +1380,7 @@ template <typename T>
 inline bool any(const Vector<T> &v)
 {
     for (std::size_t i = 0; i < v.size(); ++i) {
-        if (v[i] != 0) {
+        if (v[i] != T(0)) {
             return true;
         }
     }
-- 
2.43.0


From 393b1b940a46686da1f64c3bb52af1d2660c1866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:39 +0000
Subject: [PATCH 25/73] fix: select the complex form of the norms at compile
 time

---
 include/malg/math.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index f4bb9b2..6fade8f 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1395,7 +1395,7 @@ inline auto square_norm(const malg::Vector<T> &v)
 {
     std::remove_const_t<malg::is_complex_t<T>> accum = 0;
     for (std::size_t i = 0; i < v.size(); ++i) {
-        if (malg::is_complex_v<T>) {
+        if constexpr (malg::is_complex_v<T>) {
             accum += std::norm(v[i]);
         } else {
             accum += v[i] * v[i];
@@ -1414,7 +1414,7 @@ inline auto square_norm(const malg::MatrixBase<T> &A)
     // Compute the sum of squares of the elements of the given matrix.
     for (std::size_t r = 0; r < A.rows(); ++r) {
         for (std::size_t c = 0; c < A.cols(); ++c) {
-            if (malg::is_complex_v<T>) {
+            if constexpr (malg::is_complex_v<T>) {
                 accum += std::norm(A(r, c));
             } else {
                 accum += A(r, c) * A(r, c);
@@ -1482,7 +1482,7 @@ auto sub_norm(const malg::MatrixBase<T> &A)
     data_type_t accum = 0;
     for (std::size_t r = 1; r < A.rows(); ++r) {
         for (std::size_t c = 0; c < r; ++c) {
-            if (malg::is_complex_v<T>) {
+            if constexpr (malg::is_complex_v<T>) {
                 accum += std::norm(A(r, c));
             } else {
                 accum += A(r, c) * A(r, c);
-- 
2.43.0


From 467ca265b474bcc9525205a94f7e4f80f336deb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:42 +0000
Subject: [PATCH 26/73] fix: use the magnitude type in the infinity norm of
 vectors and the sub-diagonal norm

---
 include/malg/math.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index 6fade8f..e691d21 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -1431,7 +1431,7 @@ inline auto square_norm(const malg::MatrixBase<T> &A)
 template <typename T>
 inline auto infinity_norm(const malg::Vector<T> &v)
 {
-    using data_type_t = std::remove_const_t<T>;
+    using data_type_t = std::remove_const_t<malg::is_complex_t<T>>;
     if (v.empty()) {
         return data_type_t(0.);
     }
@@ -1474,7 +1474,7 @@ auto sub_norm(const malg::MatrixBase<T> &A)
 {
     using data_type_t = std::remove_const_t<malg::is_complex_t<T>>;
     if (A.empty()) {
-        return data_type_t(0.);
+        return std::sqrt(data_type_t(0.));
     }
     if (!malg::utility::is_square(A)) {
         throw std::invalid_argument("Matrix A is not square.");
-- 
2.43.0


From 5c015f23ff91140241012e730e23250d82c25422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:36 +0000
Subject: [PATCH 27/73] fix: copy the scalar of the in-place operators, since
 it might be an element of the left operand

---
 include/malg/math.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/malg/math.hpp b/include/malg/math.hpp
index e691d21..dddd5f9 100644
--- a/include/malg/math.hpp
+++ b/include/malg/math.hpp
@@ -82,7 +82,7 @@ auto &operator+=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns matrix A.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator+=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator+=(malg::MatrixBase<T1> &A, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -160,7 +160,7 @@ auto &operator-=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns matrix A.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator-=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator-=(malg::MatrixBase<T1> &A, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -262,7 +262,7 @@ auto &operator*=(malg::MatrixBase<T1> &A, const malg::MatrixBase<T2> &B)
 /// @param b scalar value.
 /// @returns the resulting matrix.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator*=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator*=(malg::MatrixBase<T1> &A, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -294,7 +294,7 @@ inline auto operator/(const malg::MatrixBase<T1> &A, const T2 &b)
 /// @param b scalar value.
 /// @returns the resulting matrix.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator/=(malg::MatrixBase<T1> &A, const T2 &b)
+inline auto &operator/=(malg::MatrixBase<T1> &A, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < A.size(); ++i) {
@@ -720,7 +720,7 @@ inline auto &operator+=(malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the left-hand side vector, containing the sum of the scalar and the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator+=(malg::Vector<T1> &a, const T2 &b)
+inline auto &operator+=(malg::Vector<T1> &a, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -796,7 +796,7 @@ inline auto &operator-=(malg::Vector<T1> &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the left-hand side vector, containing the subtraction of the scalar from the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator-=(malg::Vector<T1> &a, const T2 &b)
+inline auto &operator-=(malg::Vector<T1> &a, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -872,7 +872,7 @@ inline auto operator*(const T1 &a, const malg::Vector<T2> &b)
 /// @param b the scalar.
 /// @returns a reference to the input vector, containing the multiplication of the scalar and the vector.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator*=(malg::Vector<T1> &a, const T2 &b)
+inline auto &operator*=(malg::Vector<T1> &a, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
@@ -908,7 +908,7 @@ inline auto operator/(const malg::Vector<T1> &a, const T2 &b)
 /// @param b the scalar.
 /// @returns a reference to the input vector, containing the division of the elements of the vector by the scalar.
 template <typename T1, typename T2, typename = typename std::enable_if_t<std::is_arithmetic_v<T2> || malg::is_complex_v<T2>, T2>>
-inline auto &operator/=(malg::Vector<T1> &a, const T2 &b)
+inline auto &operator/=(malg::Vector<T1> &a, const T2 b)
 {
     // Perform the operation.
     for (std::size_t i = 0; i < a.size(); ++i) {
-- 
2.43.0


From b97c3d29a18d2c3e5aa82d5ef01da5cd452e97cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:39 +0000
Subject: [PATCH 28/73] fix: default the value of the identity matrix to one

---
 include/malg/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 64f595a..6f2e1fa 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -63,7 +63,7 @@ inline auto eye(std::size_t rows, std::size_t cols, T value)
 /// @param value value for the diagonal.
 /// @returns the identity matrix.
 template <typename T>
-inline auto identity(std::size_t N, T value)
+inline auto identity(std::size_t N, T value = T(1))
 {
     return utility::eye<T>(N, N, value);
 }
-- 
2.43.0


From 7d9cf25e20834c211f21bfdd5b9d020e6e7e5bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:41 +0000
Subject: [PATCH 29/73] fix: construct the result of stacking a vector
 explicitly

---
 include/malg/utility.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 6f2e1fa..23cb0f9 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -240,7 +240,7 @@ inline auto vstack(const MatrixBase<T1> &A, const Vector<T2> &b)
     // Select the right type.
     using T = malg::extract_common_type_t<T1, T2>;
     // Create the output matrix.
-    Matrix<T> C = A;
+    Matrix<T> C(A);
     // Resize the matrix by adding the row for b.
     C.resize(A.rows() + 1, A.cols());
     // Append b to C.
@@ -291,7 +291,7 @@ inline auto hstack(const MatrixBase<T1> &A, const Vector<T2> &b)
     // Select the right type.
     using T = malg::extract_common_type_t<T1, T2>;
     // Create the output matrix.
-    Matrix<T> C = A;
+    Matrix<T> C(A);
     // Resize the matrix by adding the row for b.
     C.resize(A.rows(), A.cols() + 1);
     // Append b to C.
-- 
2.43.0


From 4bdc2516b5a653638fcde9800e966e396861deea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:44 +0000
Subject: [PATCH 30/73] fix: reject extraction ranges that start outside the
 matrix

---
 include/malg/utility.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 23cb0f9..72be6af 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -343,6 +343,9 @@ inline auto extract(const MatrixBase<T> &matrix,
     if (start_column >= end_column) {
         throw std::invalid_argument("The starting column must be lower than the ending column.");
     }
+    if ((start_row > matrix.rows()) || (start_column > matrix.cols())) {
+        throw std::invalid_argument("The selected range is outside the matrix.");
+    }
     using data_type = std::remove_const_t<T>;
     end_row         = std::min(matrix.rows(), end_row);
     end_column      = std::min(matrix.cols(), end_column);
@@ -373,6 +376,9 @@ inline auto extract_column(const MatrixBase<T> &matrix,
     if (column >= matrix.cols()) {
         throw std::invalid_argument("The selected column is outsize the matrix.");
     }
+    if (start_row > matrix.rows()) {
+        throw std::invalid_argument("The selected range is outside the matrix.");
+    }
     using data_type = std::remove_const_t<T>;
     end_row         = std::min(matrix.rows(), end_row);
     Vector<data_type> result(end_row - start_row, data_type(0.));
@@ -400,6 +406,9 @@ inline auto extract_row(const MatrixBase<T> &matrix,
     if (start_column >= end_column) {
         throw std::invalid_argument("The starting column must be lower than the ending column.");
     }
+    if (start_column > matrix.cols()) {
+        throw std::invalid_argument("The selected range is outside the matrix.");
+    }
     using data_type = std::remove_const_t<T>;
     end_column      = std::min(matrix.cols(), end_column);
     Vector<data_type> result(end_column - start_column, data_type(0.));
-- 
2.43.0


From e86b9dc19d4acd1f1d5ffbcf78c8a5c5310dc815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:47 +0000
Subject: [PATCH 31/73] fix: check the diagonal in is_skew_symmetric

---
 include/malg/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 72be6af..ea8d0b5 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -547,7 +547,7 @@ inline auto is_skew_symmetric(const MatrixBase<T> &matrix)
         return false;
     }
     for (std::size_t i = 0; i < matrix.rows(); ++i) {
-        for (std::size_t j = i + 1; j < matrix.cols(); ++j) {
+        for (std::size_t j = i; j < matrix.cols(); ++j) {
             if (matrix(i, j) != -matrix(j, i)) {
                 return false;
             }
-- 
2.43.0


From 7c3acfc46944c19794c411e5a2b1984c95d2f3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:49 +0000
Subject: [PATCH 32/73] fix: compare with the zero of the element type in the
 structural predicates

---
 include/malg/utility.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index ea8d0b5..69659d5 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -568,7 +568,7 @@ inline auto is_diagonal(const MatrixBase<T> &matrix)
     }
     for (std::size_t i = 0; i < matrix.rows(); ++i) {
         for (std::size_t j = 0; j < matrix.cols(); ++j) {
-            if ((i != j) && (matrix(i, j) != 0)) {
+            if ((i != j) && (matrix(i, j) != T(0))) {
                 return false;
             }
         }
@@ -709,7 +709,7 @@ inline auto is_lower_triangular(const MatrixBase<T> &matrix)
     }
     for (std::size_t r = 0, c = 0; r < matrix.rows(); ++r) {
         for (c = r + 1; c < matrix.cols(); ++c) {
-            if (matrix(r, c)) {
+            if (matrix(r, c) != T(0)) {
                 return false;
             }
         }
@@ -729,7 +729,7 @@ inline auto is_upper_triangular(const MatrixBase<T> &matrix)
     }
     for (std::size_t r = 0, c = 0; r < matrix.rows(); ++r) {
         for (c = 0; c < r; ++c) {
-            if (matrix(r, c)) {
+            if (matrix(r, c) != T(0)) {
                 return false;
             }
         }
-- 
2.43.0


From 35e0f142ddb31f0fcf7d794f4a6ad068a50c0cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:52 +0000
Subject: [PATCH 33/73] fix: iterate by position in is_zero and is_constant

---
 include/malg/utility.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 69659d5..af5273f 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -583,7 +583,12 @@ inline auto is_diagonal(const MatrixBase<T> &matrix)
 template <typename T>
 inline auto is_zero(const MatrixBase<T> &matrix)
 {
-    return std::all_of(matrix.begin(), matrix.end(), [](const T &x) { return x == 0; });
+    for (std::size_t i = 0; i < matrix.size(); ++i) {
+        if (matrix[i] != T(0)) {
+            return false;
+        }
+    }
+    return true;
 }
 
 /// @brief Checks if the matrix contains the same value everywhere.
@@ -593,7 +598,12 @@ inline auto is_zero(const MatrixBase<T> &matrix)
 template <typename T>
 inline auto is_constant(const MatrixBase<T> &matrix)
 {
-    return std::adjacent_find(matrix.begin(), matrix.end(), std::not_equal_to{}) == matrix.end();
+    for (std::size_t i = 1; i < matrix.size(); ++i) {
+        if (matrix[i] != matrix[0]) {
+            return false;
+        }
+    }
+    return true;
 }
 
 /// @brief Checks if the matrix contains the same value everywhere.
-- 
2.43.0


From 8ee6ff709d470ad3cf4d41bc621db5db9c1745b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:54 +0000
Subject: [PATCH 34/73] fix: do not accept NaN differences in all_close

---
 include/malg/utility.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index af5273f..2bae39c 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -620,7 +620,7 @@ inline auto all_close(const Vector<T> &a, const Vector<T> &b, double tolerance =
         throw std::invalid_argument("Vectors has different sizes.");
     }
     for (std::size_t i = 0; i < a.size(); ++i) {
-        if (std::abs(a[i] - b[i]) > tolerance) {
+        if (!(std::abs(a[i] - b[i]) <= tolerance)) {
             return false;
         }
     }
@@ -644,7 +644,7 @@ inline auto all_close(const MatrixBase<T> &A, const MatrixBase<T> &B, double tol
         throw std::invalid_argument("Matrices has different number of colmuns.");
     }
     for (std::size_t i = 0; i < A.size(); ++i) {
-        if (std::abs(A[i] - B[i]) > tolerance) {
+        if (!(std::abs(A[i] - B[i]) <= tolerance)) {
             return false;
         }
     }
-- 
2.43.0


From b8f56d1efeb7aa62f5fa16253f2b5ef0211105ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:56 +0000
Subject: [PATCH 35/73] fix: compare with the identity element by element

---
 include/malg/utility.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 2bae39c..da80d34 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -661,7 +661,14 @@ inline auto is_identity(const MatrixBase<T> &matrix)
     if (!is_square(matrix)) {
         return false;
     }
-    return (matrix == utility::identity<T>(matrix.cols()));
+    for (std::size_t r = 0; r < matrix.rows(); ++r) {
+        for (std::size_t c = 0; c < matrix.cols(); ++c) {
+            if (matrix(r, c) != ((r == c) ? T(1) : T(0))) {
+                return false;
+            }
+        }
+    }
+    return true;
 }
 
 /// @brief Checks if the matrix is orthogonal.
@@ -674,7 +681,18 @@ inline auto is_orthogonal(const MatrixBase<T> &matrix)
     if (!is_square(matrix)) {
         return false;
     }
-    return (matrix * matrix.transpose() == utility::identity<T>(matrix.cols()));
+    for (std::size_t r = 0; r < matrix.rows(); ++r) {
+        for (std::size_t c = 0; c < matrix.rows(); ++c) {
+            std::remove_const_t<T> element = (r == c) ? T(-1) : T(0);
+            for (std::size_t k = 0; k < matrix.cols(); ++k) {
+                element += matrix(r, k) * matrix(c, k);
+            }
+            if (!(std::abs(element) <= feq::tolerance())) {
+                return false;
+            }
+        }
+    }
+    return true;
 }
 
 /// @brief Checks if the matrix is invertible.
-- 
2.43.0


From b0672f7f89e7392e22f5dacf26697f813f818f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:59 +0000
Subject: [PATCH 36/73] fix: use the determinant function in the invertibility
 and dependence predicates

---
 include/malg/utility.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index da80d34..bd19563 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -18,6 +18,14 @@
 #include <limits>
 #include <random>
 
+namespace malg::linalg
+{
+
+template <typename CT>
+inline auto determinant(const MatrixBase<CT> &matrix);
+
+} // namespace malg::linalg
+
 namespace malg::utility
 {
 
@@ -702,7 +710,7 @@ inline auto is_orthogonal(const MatrixBase<T> &matrix)
 template <typename T>
 inline auto is_invertible(const MatrixBase<T> &matrix)
 {
-    return matrix.determinant() != 0;
+    return is_square(matrix) && (linalg::determinant(matrix) != T(0));
 }
 
 /// @brief Checks if the matrix is linearly dependent.
@@ -712,7 +720,7 @@ inline auto is_invertible(const MatrixBase<T> &matrix)
 template <typename T>
 inline auto is_linearly_dependent(const MatrixBase<T> &matrix)
 {
-    return matrix.determinant() == 0;
+    return linalg::determinant(matrix) == T(0);
 }
 
 /// @brief Checks if the matrix is linearly independent.
@@ -722,7 +730,7 @@ inline auto is_linearly_dependent(const MatrixBase<T> &matrix)
 template <typename T>
 inline auto is_linearly_independent(const MatrixBase<T> &matrix)
 {
-    return !matrix.is_linearly_dependent();
+    return !utility::is_linearly_dependent(matrix);
 }
 
 /// @brief Checks if the matrix is a lower triangular one.
-- 
2.43.0


From 3aca5eebf5eae1a56b4e4301c702c2ef137cfa1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:01 +0000
Subject: [PATCH 37/73] fix: select the first or last indices, not the numbers
 around the first index, in find

---
 include/malg/utility.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index bd19563..558a6bf 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -987,11 +987,11 @@ inline auto find(const Matrix<T> &A, std::size_t n = std::numeric_limits<std::si
         return Matrix<std::size_t>(0UL, 0UL);
     }
     if ((n > 0) && (n < index.size())) {
-        std::size_t start = static_cast<std::size_t>(*index.begin());
+        const auto count = static_cast<std::ptrdiff_t>(n);
         if (first_last) {
-            index = std::vector<size_t>(start + 0UL, start + n);
+            index = std::vector<size_t>(index.begin(), index.begin() + count);
         } else {
-            index = std::vector<size_t>(start + index.size() - n, start + index.size());
+            index = std::vector<size_t>(index.end() - count, index.end());
         }
     }
     // Prepare the array for the indexes. If the input is a row-vector, return the indexes as a row-vector.
-- 
2.43.0


From 3c93a0d2fec9426cb811290cef1fa258580cf71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:03 +0000
Subject: [PATCH 38/73] fix: count positions from one in compare, so that a
 difference is never zero

---
 include/malg/utility.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 558a6bf..df3666f 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -1017,10 +1017,10 @@ inline int64_t compare(const malg::MatrixBase<T> &A, const malg::MatrixBase<T> &
     }
     for (std::size_t i = 0; i < A.size(); ++i) {
         if (A[i] < B[i]) {
-            return -static_cast<int64_t>(i);
+            return -static_cast<int64_t>(i + 1);
         }
         if (A[i] > B[i]) {
-            return static_cast<int64_t>(i);
+            return static_cast<int64_t>(i + 1);
         }
     }
     return 0;
@@ -1042,10 +1042,10 @@ inline int64_t compare(const malg::Vector<T> &a, const malg::Vector<T> &b)
     }
     for (std::size_t i = 0; i < a.size(); ++i) {
         if (a[i] < b[i]) {
-            return -static_cast<int64_t>(i);
+            return -static_cast<int64_t>(i + 1);
         }
         if (a[i] > b[i]) {
-            return static_cast<int64_t>(i);
+            return static_cast<int64_t>(i + 1);
         }
     }
     return 0;
-- 
2.43.0


From 7a0cb87a43682a764fd84f548171af55ee84b445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:01 +0000
Subject: [PATCH 39/73] fix: produce complex elements in hermitian_transpose

---
 include/malg/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index fb45a9a..cd4c768 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -59,7 +59,7 @@ inline auto powm(const MatrixBase<T> &A, std::size_t N)
 template <typename T>
 inline auto hermitian_transpose(const MatrixBase<std::complex<T>> &A)
 {
-    Matrix<std::remove_const_t<T>> result(A.cols(), A.rows(), 0.0);
+    Matrix<std::complex<std::remove_const_t<T>>> result(A.cols(), A.rows(), 0.0);
     for (std::size_t r = 0, c = 0; r < A.rows(); ++r) {
         for (c = 0; c < A.cols(); ++c) {
             result(c, r) = std::conj(A(r, c));
-- 
2.43.0


From 165c9d1d94a38979f60e10453cf3e24c95464585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:04 +0000
Subject: [PATCH 40/73] fix: return zero as the determinant when no pivot is
 found

---
 include/malg/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index cd4c768..f7447df 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -173,7 +173,7 @@ inline auto determinant(const MatrixBase<CT> &matrix)
             }
             // If we did not find a non-zero value, we have a singular matrix.
             if (k == A.rows()) {
-                break;
+                return static_cast<T>(0.);
             }
             // Swap the rows.
             utility::swap_rows(A, c, k);
-- 
2.43.0


From 6825101abb2d2d302c9608ecc819b7ada5e50797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:38 +0000
Subject: [PATCH 41/73] fix: check that the matrix is square in powm

---
 include/malg/linalg.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index f7447df..e3deb7c 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -46,6 +46,9 @@ inline T factorial(T n)
 template <typename T>
 inline auto powm(const MatrixBase<T> &A, std::size_t N)
 {
+    if (!malg::utility::is_square(A)) {
+        throw std::invalid_argument("The input matrix is not square.");
+    }
     auto R = utility::eye<std::remove_const_t<T>>(A.rows(), A.cols(), 1);
     for (std::size_t k = 0; k < N; ++k) {
         R *= A;
-- 
2.43.0


From 1a8918dfd1fafc29422b5262310746f22683e7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:41 +0000
Subject: [PATCH 42/73] fix: build the views and the scalar product in
 qr_decomposition

---
 include/malg/linalg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index e3deb7c..058f0e3 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -274,7 +274,7 @@ inline auto qr_decomposition(const Matrix<T> &A)
         u[0]   = 1;
         // Finding Householder projection.
         return utility::eye(a.size(), a.size(), data_type_t(1.)) -
-               (utility::to_matrix(u, false) * utility::to_matrix(u, true)) * (2. / (u * u));
+               (utility::to_matrix(u, false) * utility::to_matrix(u, true)) * (2. / malg::dot(u, u));
     };
 
     // Initialize matrix R.
@@ -293,7 +293,7 @@ inline auto qr_decomposition(const Matrix<T> &A)
             }
         }
         // Calculate Householder matrix i: rows and i: columns from R i: rows and ith column
-        View(H, i, -1, i, -1) = make_householder(utility::extract_column(R, i, i, -1));
+        View(&H, i, -1, i, -1) = make_householder(utility::extract_column(R, i, i, -1));
         // Update Q and R.
         Q = Q * H;
         R = H * R;
-- 
2.43.0


From 9feeb3890033bed466ed0e647c1d1ccea83bbe61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:44 +0000
Subject: [PATCH 43/73] fix: do not reflect zero columns in qr_decomposition

---
 include/malg/linalg.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 058f0e3..2b5b81b 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -269,6 +269,10 @@ inline auto qr_decomposition(const Matrix<T> &A)
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T, double>>;
     // This function is required to build the householder.
     static auto make_householder = [](const Vector<data_type_t> &a) {
+        // A zero column does not need to be mirrored.
+        if (!malg::any(a)) {
+            return utility::eye(a.size(), a.size(), data_type_t(1.));
+        }
         // Find prependicular vector to mirror.
         auto u = a / (a[0] + std::copysign(malg::square_norm(a), a[0]));
         u[0]   = 1;
-- 
2.43.0


From 74a9f9a27270953663158c93aa95b587ac530d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:46 +0000
Subject: [PATCH 44/73] fix: allocate non-constant factors in lu_decomposition

---
 include/malg/linalg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 2b5b81b..6e67ab5 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -321,8 +321,8 @@ inline auto lu_decomposition(const MatrixBase<T> &A)
         throw std::invalid_argument("The input matrix is not square.");
     }
     std::size_t N = A.rows();
-    Matrix<T> l(N, N, 0);
-    Matrix<T> u(N, N, 0);
+    Matrix<std::remove_const_t<T>> l(N, N, 0);
+    Matrix<std::remove_const_t<T>> u(N, N, 0);
 
     std::size_t i, j, k;
     for (i = 0; i < N; i++) {
-- 
2.43.0


From 89ab8abf16a7c69c32e63a4d931c3ae58f5fdf2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:49 +0000
Subject: [PATCH 45/73] fix: build the views of the factors in solve

---
 include/malg/linalg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 6e67ab5..5b602f8 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -367,9 +367,9 @@ auto solve(const Matrix<T> &A, const Vector<T> &b)
     if (rows > cols) {
         auto [_q, _r] = linalg::qr_decomposition(A);
         return malg::dot(
-            linalg::inverse(View(_r, 0, cols, 0, cols)),
+            linalg::inverse(View(&_r, 0, cols, 0, cols)),
             malg::dot(
-                linalg::transpose(View(_q, 0, rows, 0, cols)),
+                linalg::transpose(View(&_q, 0, rows, 0, cols)),
                 b));
     }
     // Underdetermined system.
-- 
2.43.0


From df579afcca25821bba16e4b608f2294f2a68c187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:53 +0000
Subject: [PATCH 46/73] fix: keep the positions in the element-wise exponential

---
 include/malg/linalg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 5b602f8..b9ee50d 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -393,10 +393,10 @@ inline auto div(const MatrixBase<T1> &A, const MatrixBase<T2> &B)
 template <typename T>
 inline auto exp(const MatrixBase<T> &A)
 {
-    Matrix<std::remove_const_t<T>> result(A.cols(), A.rows(), 0.0);
+    Matrix<std::remove_const_t<T>> result(A.rows(), A.cols(), 0.0);
     for (std::size_t r = 0, c = 0; r < A.rows(); ++r) {
         for (c = 0; c < A.cols(); ++c) {
-            result(c, r) = std::exp(A(r, c));
+            result(r, c) = std::exp(A(r, c));
         }
     }
     return result;
-- 
2.43.0


From dc04505eac66eb8ddf0ec62e709f91406e4b3890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:55 +0000
Subject: [PATCH 47/73] fix: support constant views, complex and single
 precision matrices in expm

---
 include/malg/linalg.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index b9ee50d..75c097c 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -409,6 +409,8 @@ inline auto exp(const MatrixBase<T> &A)
 template <typename T>
 inline auto expm(const MatrixBase<T> &A, double accuracy)
 {
+    // Create an alias for the non-constant type.
+    using data_type_t = std::remove_const_t<T>;
     // TODO(enrico): use simplified form of "scale and square". Trade faster
     // coversion in power series for a couple of additional square operations.
     // TODO(enrico): better/faster algorithm than power series?
@@ -422,13 +424,13 @@ inline auto expm(const MatrixBase<T> &A, double accuracy)
     // init (k = 0)
     const auto batch_size      = A.rows() * A.rows();
     const auto square_accuracy = accuracy * accuracy * scale * scale;
-    auto mtk                   = malg::utility::eye<T>(A.rows(), A.cols(), 1); // scaled_a to the power k
-    auto ret                   = malg::utility::eye<T>(A.rows(), A.cols(), 1); // sum of power seriees
+    auto mtk                   = malg::utility::eye<data_type_t>(A.rows(), A.cols(), 1); // scaled_a to the power k
+    auto ret                   = malg::utility::eye<data_type_t>(A.rows(), A.cols(), 1); // sum of power seriees
     auto fac_inv               = double{ 1.0 };                                // inverse faculty
     auto rel_square_diff       = square_accuracy + 1.0;
 
     for (std::size_t batch_start_idx = 1; (rel_square_diff > square_accuracy && !malg::feq::approximately_equal_to_zero(fac_inv)); batch_start_idx += batch_size) {
-        auto local_accum = malg::Matrix<T>(A.rows(), A.cols());
+        auto local_accum = malg::Matrix<data_type_t>(A.rows(), A.cols());
         for (std::size_t i = 0; i < batch_size; ++i) {
             const double k = static_cast<double>(batch_start_idx + i);
             fac_inv        = fac_inv * (1.0 / k);
@@ -441,7 +443,7 @@ inline auto expm(const MatrixBase<T> &A, double accuracy)
         ret += local_accum;
         // Caclulate relative change in this iteration.
         // TODO(enrico): properly guard against division by zero
-        const malg::Matrix<T> rel_error = malg::linalg::div(local_accum * local_accum, ret * ret + accuracy);
+        const auto rel_error = malg::linalg::div(local_accum * local_accum, ret * ret + accuracy);
         rel_square_diff                 = malg::square_norm(rel_error);
     };
     // raise the result
-- 
2.43.0


From 3040743b64e721ec0acd1865503c41ab48322020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:56 +0000
Subject: [PATCH 48/73] fix: guard eigen.hpp against repeated inclusion

---
 include/malg/eigen.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/malg/eigen.hpp b/include/malg/eigen.hpp
index 9ab168e..098e314 100644
--- a/include/malg/eigen.hpp
+++ b/include/malg/eigen.hpp
@@ -9,6 +9,8 @@
 ///     https://www.math.kth.se/na/SF2524/matber15/qrmethod.pdf
 ///     https://www.ams.org/journals/mcom/2002-71-240/S0025-5718-01-01387-4/S0025-5718-01-01387-4.pdf
 
+#pragma once
+
 #include "malg/utility.hpp"
 #include "malg/linalg.hpp"
 #include "malg/math.hpp"
-- 
2.43.0


From 3011c3982d965ebebfe8e60ba804c19ff8b92e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:59 +0000
Subject: [PATCH 49/73] fix: construct the observability matrix explicitly

---
 include/malg/control/control.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index 48aea7b..f060a41 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -194,7 +194,7 @@ inline auto obsv(const MatrixBase<T> &A, const MatrixBase<T> &C)
         throw std::runtime_error("ctrb: A and C matrices dimensions doesn't match.");
     }
     // Create the observability matrix.
-    Matrix<T> result = C;
+    Matrix<T> result(C);
     // Construct the observability matrix.
     for (std::size_t i = 1; i < A.rows(); ++i) {
         result = utility::vstack(result, C * linalg::powm(A, i));
-- 
2.43.0


From d4268ac109ed039fc90b36e447aa3490a24c7426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:02 +0000
Subject: [PATCH 50/73] fix: record the time of the last state in simulate

---
 include/malg/control/control.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index f060a41..e9fb79a 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -148,6 +148,8 @@ inline auto simulate(
         x.emplace_back(step.first);
         y.emplace_back(step.second);
     }
+    // Set the time of the last state.
+    t[steps] = rtime;
     return std::make_tuple(t, x, y);
 }
 
-- 
2.43.0


From 0fe35adcc04e483fc07b1ed847fe8cc59e025d8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:05 +0000
Subject: [PATCH 51/73] fix: compare with the zero of the element type in
 polyreduce

---
 include/malg/control/control.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index e9fb79a..74d5686 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -229,7 +229,7 @@ inline auto polyreduce(const Vector<T> &a)
 {
     std::size_t i, j;
     for (j = 0; j < a.size(); ++j) {
-        if (a[j] != 0) {
+        if (a[j] != T(0)) {
             break;
         }
     }
-- 
2.43.0


From 14ca73503e468805f8e36d96c374566b08fbd4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:08 +0000
Subject: [PATCH 52/73] fix: reject a wrong number of poles in acker

---
 include/malg/control/control.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index 74d5686..0df508d 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -301,6 +301,10 @@ inline auto acker(const MatrixBase<T> &A, const MatrixBase<T> &B, const MatrixBa
         std::cerr << "acker: poles must be a vector.\n";
         exit(1);
     }
+    if (poles.cols() != A.rows()) {
+        std::cerr << "acker: the number of poles must be equal to the number of states.\n";
+        exit(1);
+    }
     // Make sure the system is controllable.
     auto ct = ctrb<T>(A, B);
     if (malg::feq::approximately_equal_to_zero(linalg::determinant(ct))) {
-- 
2.43.0


From e927533f6e3dbf8530ce9c38db1437d5d297386e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:10 +0000
Subject: [PATCH 53/73] fix: initialize the header read from a file

---
 include/malg/io.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index 9475bbc..b854b13 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -161,8 +161,8 @@ inline std::ostream &operator<<(std::ostream &lhs, const malg::Range &rhs)
 template <typename T>
 inline std::ifstream &operator>>(std::ifstream &lhs, malg::Vector<T> &rhs)
 {
-    std::size_t size, i;
-    char type;
+    std::size_t size = 0, i;
+    char type = 0;
     // Read the type.
     lhs >> type;
     if (type != 'V') {
@@ -188,8 +188,8 @@ inline std::ifstream &operator>>(std::ifstream &lhs, malg::Vector<T> &rhs)
 template <typename T>
 inline std::ifstream &operator>>(std::ifstream &lhs, malg::Matrix<T> &rhs)
 {
-    std::size_t rows, cols, r = 0, c = 0;
-    char type;
+    std::size_t rows = 0, cols = 0, r = 0, c = 0;
+    char type = 0;
     // Read the type.
     lhs >> type;
     if (type != 'M') {
-- 
2.43.0


From 9cfd079709650f45578f675854666592f0f54034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 54/73] fix: write complex vectors in the syntax of matlab

---
 include/malg/io.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index b854b13..b140c99 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -284,7 +284,11 @@ inline std::string to_matlab(const char *name, const malg::Vector<T> &v)
     std::stringstream ss;
     ss << name << " = [";
     for (std::size_t i = 0; i < v.size(); ++i) {
-        ss << v[i];
+        if constexpr (malg::is_complex_v<T>) {
+            ss << v[i].real() << std::showpos << v[i].imag() << "i" << std::noshowpos;
+        } else {
+            ss << v[i];
+        }
         if (i < (v.size() - 1)) {
             ss << " ";
         }
-- 
2.43.0


From a1f43bd3973b1801dfcd1135659b17adc8f86d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:17 +0000
Subject: [PATCH 55/73] fix: access the operand of to_cpp as an object

---
 include/malg/io.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index b140c99..8eae628 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -334,13 +334,13 @@ inline std::string to_cpp(const char *name, const char *type, const malg::Vector
 {
     std::stringstream ss;
     ss << "malg::Vector<" << type << "> " << name << " = {";
-    for (std::size_t i = 0; i < v->size(); ++i) {
+    for (std::size_t i = 0; i < v.size(); ++i) {
         if constexpr (malg::is_complex_v<T>) {
-            ss << v->operator[](i).real() << std::showpos << v->operator[](i).imag() << "i" << std::noshowpos;
+            ss << v[i].real() << std::showpos << v[i].imag() << "i" << std::noshowpos;
         } else {
-            ss << v->operator[](i);
+            ss << v[i];
         }
-        if (i < (v->size() - 1)) {
+        if (i < (v.size() - 1)) {
             ss << ", ";
         }
     }
@@ -358,20 +358,20 @@ inline std::string to_cpp(const char *name, const char *type, const malg::Matrix
 {
     std::stringstream ss;
     ss << "malg::Matrix<" << type << "> " << name << " = {";
-    for (std::size_t r = 0, c = 0; r < m->rows(); ++r) {
+    for (std::size_t r = 0, c = 0; r < m.rows(); ++r) {
         ss << "{";
-        for (c = 0; c < m->cols(); ++c) {
+        for (c = 0; c < m.cols(); ++c) {
             if constexpr (malg::is_complex_v<T>) {
-                ss << m->operator()(r, c).real() << std::showpos << m->operator()(r, c).imag() << "i" << std::noshowpos;
+                ss << m(r, c).real() << std::showpos << m(r, c).imag() << "i" << std::noshowpos;
             } else {
-                ss << m->operator()(r, c);
+                ss << m(r, c);
             }
-            if (c < (m->cols() - 1)) {
+            if (c < (m.cols() - 1)) {
                 ss << ",";
             }
         }
         ss << "}";
-        if (r < (m->rows() - 1)) {
+        if (r < (m.rows() - 1)) {
             ss << ",";
         }
     }
-- 
2.43.0


From 97179e87e0138ad4b30117b8552778efb322b92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 56/73] fix: write complex values in the syntax of c++

---
 include/malg/io.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index 8eae628..8c82df4 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -336,7 +336,7 @@ inline std::string to_cpp(const char *name, const char *type, const malg::Vector
     ss << "malg::Vector<" << type << "> " << name << " = {";
     for (std::size_t i = 0; i < v.size(); ++i) {
         if constexpr (malg::is_complex_v<T>) {
-            ss << v[i].real() << std::showpos << v[i].imag() << "i" << std::noshowpos;
+            ss << type << "(" << v[i].real() << ", " << v[i].imag() << ")";
         } else {
             ss << v[i];
         }
@@ -362,7 +362,7 @@ inline std::string to_cpp(const char *name, const char *type, const malg::Matrix
         ss << "{";
         for (c = 0; c < m.cols(); ++c) {
             if constexpr (malg::is_complex_v<T>) {
-                ss << m(r, c).real() << std::showpos << m(r, c).imag() << "i" << std::noshowpos;
+                ss << type << "(" << m(r, c).real() << ", " << m(r, c).imag() << ")";
             } else {
                 ss << m(r, c);
             }
-- 
2.43.0


From 97ff8a3659399e079e92779770545552e44705f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:58 +0000
Subject: [PATCH 57/73] fix: pivot on the largest element in determinant

---
 include/malg/linalg.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 75c097c..b7696fa 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -166,6 +166,20 @@ inline auto determinant(const MatrixBase<CT> &matrix)
     T det = static_cast<T>(1.), pivot, ratio;
     // We convert the temporary to upper triangular form.
     for (c = 0; c < N; ++c) {
+        // A small pivot (e.g., the rounding error of a zero) amplifies the
+        // rounding errors, thus, we move the largest element on the diagonal.
+        if constexpr (!std::is_integral_v<T>) {
+            std::size_t largest = c;
+            for (k = c + 1; k < N; ++k) {
+                if (std::abs(A(k, c)) > std::abs(A(largest, c))) {
+                    largest = k;
+                }
+            }
+            if (largest != c) {
+                utility::swap_rows(A, c, largest);
+                det *= -1;
+            }
+        }
         // If we have a negative value on the diagonal, we need to move it
         // somewhere else.
         if (malg::feq::approximately_equal_to_zero(A(c, c))) {
-- 
2.43.0


From 0b31792f1429ae30892087271954f1eb1dd9ae7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:56 +0000
Subject: [PATCH 58/73] fix: keep the Householder reflection finite for columns
 with tiny or huge entries

---
 include/malg/linalg.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index b7696fa..e96f332 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -287,8 +287,10 @@ inline auto qr_decomposition(const Matrix<T> &A)
         if (!malg::any(a)) {
             return utility::eye(a.size(), a.size(), data_type_t(1.));
         }
+        // Scale the column, its squares must neither overflow nor vanish.
+        const auto s = a / malg::infinity_norm(a);
         // Find prependicular vector to mirror.
-        auto u = a / (a[0] + std::copysign(malg::square_norm(a), a[0]));
+        auto u = s / (s[0] + std::copysign(malg::square_norm(s), s[0]));
         u[0]   = 1;
         // Finding Householder projection.
         return utility::eye(a.size(), a.size(), data_type_t(1.)) -
-- 
2.43.0


From 5180ecfb24fca47b04cc3498c0711517ac38790f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:23 +0000
Subject: [PATCH 59/73] fix: reject matrix shapes whose number of elements
 cannot be represented

---
 include/malg/matrix.hpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/malg/matrix.hpp b/include/malg/matrix.hpp
index 1c6059c..6d93d96 100644
--- a/include/malg/matrix.hpp
+++ b/include/malg/matrix.hpp
@@ -10,6 +10,7 @@
 
 #include <algorithm>
 #include <initializer_list>
+#include <stdexcept>
 #include <vector>
 
 namespace malg
@@ -31,6 +32,19 @@ private:
     /// Columns of the matrix.
     using MatrixBase<T>::_cols;
 
+    /// @brief Computes the number of elements of a matrix.
+    /// @param rows the number of rows.
+    /// @param cols the number of columns.
+    /// @return the number of elements.
+    static inline std::size_t elements(std::size_t rows, std::size_t cols)
+    {
+        // Check that the number of elements can be represented.
+        if ((cols > 0) && (rows > (static_cast<std::size_t>(-1) / cols))) {
+            throw std::length_error("The matrix has too many elements.");
+        }
+        return rows * cols;
+    }
+
 public:
     /// The data types of the element of the matrix.
     using value_type = T;
@@ -53,7 +67,7 @@ public:
     /// @param initial
     Matrix(std::size_t rows, std::size_t cols, const T &initial = T(0))
         : MatrixBase<T>(rows, cols),
-          _data(rows * cols, initial)
+          _data(elements(rows, cols), initial)
     {
         // Nothing to do.
     }
@@ -64,7 +78,7 @@ public:
     /// @param data
     Matrix(std::size_t rows, std::size_t cols, const std::initializer_list<T> &data)
         : MatrixBase<T>(rows, cols),
-          _data(rows * cols)
+          _data(elements(rows, cols))
     {
         if (data.size() < (rows * cols)) {
             throw std::invalid_argument("The input list does not have enough elements.");
@@ -83,7 +97,7 @@ public:
     /// @param data
     Matrix(std::size_t rows, std::size_t cols, const std::vector<T> &data)
         : MatrixBase<T>(rows, cols),
-          _data(rows * cols)
+          _data(elements(rows, cols))
     {
         if (data.size() < (rows * cols)) {
             throw std::invalid_argument("The input vector does not have enough elements.");
@@ -225,7 +239,7 @@ public:
     /// @return a reference to this matrix.
     auto &reshape(std::size_t rows, std::size_t cols)
     {
-        if (this->size() != (rows * cols)) {
+        if (this->size() != elements(rows, cols)) {
             throw std::invalid_argument("The new shape has a different number of elements.");
         }
         this->_rows = rows;
@@ -248,7 +262,7 @@ public:
         if (_rows == rows) {
 #endif
             // Resize the data.
-            _data.resize(rows * cols);
+            _data.resize(elements(rows, cols));
         } else {
             malg::Matrix<T> m(rows, cols, static_cast<T>(0));
             for (std::size_t r = 0; r < std::min(_rows, rows); ++r) {
-- 
2.43.0


From 30e2c7959f2e0beb1369706f5f7343ee4564432c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:32 +0000
Subject: [PATCH 60/73] fix: stop reading when the sizes in the header of a
 file cannot be read

---
 include/malg/io.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index 8c82df4..81f176f 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -171,6 +171,9 @@ inline std::ifstream &operator>>(std::ifstream &lhs, malg::Vector<T> &rhs)
     }
     // Read the size.
     lhs >> size;
+    if (!lhs) {
+        return lhs;
+    }
     // Prepare the vector.
     rhs.resize(size);
     // Read the vector.
@@ -199,6 +202,9 @@ inline std::ifstream &operator>>(std::ifstream &lhs, malg::Matrix<T> &rhs)
     // Read the size.
     lhs >> rows;
     lhs >> cols;
+    if (!lhs) {
+        return lhs;
+    }
     // Prepare the matrix.
     rhs.resize(rows, cols);
     // Read the matrix.
-- 
2.43.0


From 72c2e5328e7b532f0f7d78fe896fe454ea08cfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:27 +0000
Subject: [PATCH 61/73] fix: use one comparison tolerance for all translation
 units

---
 include/malg/feq.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/feq.hpp b/include/malg/feq.hpp
index 048af46..d6f297d 100644
--- a/include/malg/feq.hpp
+++ b/include/malg/feq.hpp
@@ -12,7 +12,7 @@
 namespace malg::feq
 {
 
-static inline auto &tolerance()
+inline auto &tolerance()
 {
     static double tol = 1e-06;
     return tol;
-- 
2.43.0


From e79bf8eb17243bc649eb0bea7f185b67c3cf1702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:47 +0000
Subject: [PATCH 62/73] fix: simulate no step for a negative time and all
 inputs for a very long one

---
 include/malg/control/control.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index 0df508d..b49284c 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -133,7 +133,12 @@ inline auto simulate(
     Vector<T> init)
 {
     // Compute the simulation steps.
-    auto steps = std::min(u.size(), static_cast<size_t>(simulated_time / sys.sample_time));
+    auto steps         = u.size();
+    const auto samples = simulated_time / sys.sample_time;
+    if (!(samples >= static_cast<T>(steps))) {
+        // There are no samples in a negative time.
+        steps = (samples > 0) ? static_cast<std::size_t>(samples) : 0;
+    }
     // Prepare a vector for the time vector.
     std::vector<T> t(steps + 1, 0.);
     // Prepare a vector for the state vector, specifically just the initial value.
-- 
2.43.0


From 888bc238466fb077f4b7158890bfbda41a413a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:11 +0000
Subject: [PATCH 63/73] fix: space points between close end points as well

---
 include/malg/utility.hpp | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index df3666f..5d7f3a9 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -839,27 +839,17 @@ template <typename T>
     if (num == 0) {
         return result;
     }
-    bool are_the_same;
-    if constexpr (std::is_floating_point<T>::value) {
-        are_the_same = malg::feq::approximately_equal(start, stop);
-    } else {
-        are_the_same = start == stop;
-    }
     if (num == 1) {
         result[0] = stop;
         return result;
     }
-    if (are_the_same) {
-        for (unsigned i = 0; i < num; ++i) {
-            result[i] = stop;
-        }
-    } else if (start < stop) {
+    if (start < stop) {
         T step = (stop - start) / static_cast<T>(num - 1);
         for (unsigned i = 0; i < num; ++i) {
             result[i] = start + step * static_cast<T>(i);
         }
     } else {
-        // When start > stop, generate a decreasing sequence
+        // When start >= stop, generate a decreasing (or constant) sequence
         T step = (start - stop) / static_cast<T>(num - 1);
         for (unsigned i = 0; i < num; ++i) {
             result[i] = start - step * static_cast<T>(i);
@@ -882,27 +872,17 @@ template <typename T>
     if (num == 0) {
         return result;
     }
-    bool are_the_same;
-    if constexpr (std::is_floating_point<T>::value) {
-        are_the_same = malg::feq::approximately_equal(start, stop);
-    } else {
-        are_the_same = start == stop;
-    }
     if (num == 1) {
         result[0] = std::pow(base, stop);
         return result;
     }
-    if (are_the_same) {
-        for (unsigned i = 0; i < num; ++i) {
-            result[i] = std::pow(base, stop);
-        }
-    } else if (start < stop) {
+    if (start < stop) {
         T step = (stop - start) / static_cast<T>(num - 1);
         for (unsigned i = 0; i < num; ++i) {
             result[i] = std::pow(base, start + step * static_cast<T>(i));
         }
     } else {
-        // When start > stop, generate a decreasing sequence
+        // When start >= stop, generate a decreasing (or constant) sequence
         T step = (start - stop) / static_cast<T>(num - 1);
         for (unsigned i = 0; i < num; ++i) {
             result[i] = std::pow(base, start - step * static_cast<T>(i));
-- 
2.43.0


From 1587144267bacdf95c9b001ebff0824eb098457e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:10 +0000
Subject: [PATCH 64/73] fix: reduce matrices of any scale to hessenberg form

---
 include/malg/eigen.hpp | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/include/malg/eigen.hpp b/include/malg/eigen.hpp
index 098e314..3ea63c9 100644
--- a/include/malg/eigen.hpp
+++ b/include/malg/eigen.hpp
@@ -54,24 +54,36 @@ inline auto hessenberg(const malg::Matrix<std::complex<T>> &A)
     auto H = A;
     for (int k = 0; k < N - 2; k++) // k is the working column
     {
-        // X vector, based on the elements from k+1 down in the k-th column
-        auto xlength = malg::vector_length(H, k, k + 1);
+        // X vector, based on the elements from k+1 down in the k-th column. It is
+        // scaled, so that its size has no influence on the reflection.
+        malg::Vector<std::complex<T>> U(N, 0);
+        T scale(0);
+        for (int i = k + 1; i < N; i++) {
+            scale = std::max(scale, std::abs(H(i, k)));
+        }
+        if (scale < std::numeric_limits<T>::min()) {
+            continue; // Nothing to eliminate.
+        }
+        T xlength(0);
+        for (int i = k + 1; i < N; i++) {
+            U[i] = H(i, k) / scale;
+            xlength += std::norm(U[i]);
+        }
+        xlength = std::sqrt(xlength);
 
         // U vector ( normalise X - rho.|x|.e_k )
-        malg::Vector<std::complex<T>> U(N, 0);
         std::complex<T> rho(1.0, 0.);
-        auto xk  = H(k + 1, k);
+        auto xk  = U[k + 1];
         auto axk = std::abs(xk);
         if (axk > std::numeric_limits<T>::epsilon()) {
             rho = -xk / axk;
         }
-        U[k + 1]     = xk - rho * xlength;
-        auto ulength = std::norm(U[k + 1]);
-        for (int i = k + 2; i < N; i++) {
-            U[i] = H(i, k);
+        U[k + 1] = xk - rho * xlength;
+        T ulength(0);
+        for (int i = k + 1; i < N; i++) {
             ulength += std::norm(U[i]);
         }
-        ulength = std::max(std::sqrt(ulength), std::numeric_limits<T>::epsilon());
+        ulength = std::sqrt(ulength);
         for (int i = k + 1; i < N; i++) {
             U[i] /= ulength;
         }
-- 
2.43.0


From 1873f5bfe59e1b612c0148f1129078ed62e7ef86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 65/73] fix: keep the coefficients of the exponential series in
 the precision of the elements

---
 include/malg/linalg.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index e96f332..2968105 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -427,6 +427,8 @@ inline auto expm(const MatrixBase<T> &A, double accuracy)
 {
     // Create an alias for the non-constant type.
     using data_type_t = std::remove_const_t<T>;
+    // The coefficients of the series, at least as precise as the elements.
+    using factor_t = std::common_type_t<double, malg::is_complex_t<data_type_t>>;
     // TODO(enrico): use simplified form of "scale and square". Trade faster
     // coversion in power series for a couple of additional square operations.
     // TODO(enrico): better/faster algorithm than power series?
@@ -442,15 +444,15 @@ inline auto expm(const MatrixBase<T> &A, double accuracy)
     const auto square_accuracy = accuracy * accuracy * scale * scale;
     auto mtk                   = malg::utility::eye<data_type_t>(A.rows(), A.cols(), 1); // scaled_a to the power k
     auto ret                   = malg::utility::eye<data_type_t>(A.rows(), A.cols(), 1); // sum of power seriees
-    auto fac_inv               = double{ 1.0 };                                // inverse faculty
+    auto fac_inv               = factor_t{ 1.0 };                              // inverse faculty
     auto rel_square_diff       = square_accuracy + 1.0;
 
     for (std::size_t batch_start_idx = 1; (rel_square_diff > square_accuracy && !malg::feq::approximately_equal_to_zero(fac_inv)); batch_start_idx += batch_size) {
         auto local_accum = malg::Matrix<data_type_t>(A.rows(), A.cols());
         for (std::size_t i = 0; i < batch_size; ++i) {
-            const double k = static_cast<double>(batch_start_idx + i);
-            fac_inv        = fac_inv * (1.0 / k);
-            if (malg::feq::approximately_equal(fac_inv, 0.0)) {
+            const auto k = static_cast<factor_t>(batch_start_idx + i);
+            fac_inv      = fac_inv * (factor_t{ 1.0 } / k);
+            if (malg::feq::approximately_equal(fac_inv, factor_t{ 0.0 })) {
                 break;
             }
             mtk = mtk * scaled_a;
-- 
2.43.0


From c20d762ad847abd3b8304b3b4b0df2617da195bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:56 +0000
Subject: [PATCH 66/73] fix: keep the simulated time in the precision of the
 system

---
 include/malg/control/control.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index b49284c..4734ec9 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -146,7 +146,7 @@ inline auto simulate(
     // Prepare a vector for the output.
     std::vector<Vector<T>> y;
     // Perform the simulation.
-    double rtime = 0.;
+    auto rtime = std::common_type_t<double, T>(0);
     for (std::size_t i = 0; i < steps; ++i, rtime += sys.sample_time) {
         t[i]      = rtime;
         auto step = simulate_step(sys, x.back(), u[i]);
-- 
2.43.0


From f4b329a2ee5514263548184cc3c2f26e4a70ffea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 67/73] fix: divide the coefficients of poly in their own type

---
 include/malg/control/control.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/malg/control/control.hpp b/include/malg/control/control.hpp
index 4734ec9..1d0cc92 100644
--- a/include/malg/control/control.hpp
+++ b/include/malg/control/control.hpp
@@ -283,7 +283,7 @@ inline auto poly(const MatrixBase<T> &A)
     auto I      = utility::identity<T>(B.rows(), 1);
     for (std::size_t m = 2; m < (n + 1); ++m) {
         B      = A * (B - (I * last_c));
-        last_c = trace(B) / static_cast<double>(m);
+        last_c = trace(B) / static_cast<std::remove_const_t<malg::is_complex_t<T>>>(m);
         c[m]   = -last_c;
     }
     return c;
-- 
2.43.0


From a47a757fc46b82973b973bde3984058575081f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:10 +0000
Subject: [PATCH 68/73] fix: QRHessenberg iterates on the matrix scaled to a
 unit size

---
 include/malg/eigen.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/malg/eigen.hpp b/include/malg/eigen.hpp
index 3ea63c9..19f3a61 100644
--- a/include/malg/eigen.hpp
+++ b/include/malg/eigen.hpp
@@ -166,6 +166,17 @@ auto QRHessenberg(const malg::Matrix<std::complex<T>> &A)
     // Stage 1: transform to hessenberg Matrix ( HM = Hessenberg Matrix, UT = unitary transformation )
     auto [HM, UT] = hessenberg(A);
 
+    // The tolerances of the iteration are absolute: it works on the matrix scaled
+    // (exactly, by a power of two) to a unit size.
+    T size(0);
+    for (std::size_t i = 0; i < UT.size(); ++i) {
+        size = std::max(size, std::abs(UT[i]));
+    }
+    const int exponent = ((size >= std::numeric_limits<T>::min()) && std::isfinite(size)) ? std::ilogb(size) : 0;
+    for (std::size_t i = 0; i < UT.size(); ++i) {
+        UT[i] = std::complex<T>(std::ldexp(UT[i].real(), -exponent), std::ldexp(UT[i].imag(), -exponent));
+    }
+
     // Stage 2: apply QR factorisation (using Givens rotations)
     int iter        = 1;
     double residual = 1.0;
@@ -200,6 +211,9 @@ auto QRHessenberg(const malg::Matrix<std::complex<T>> &A)
     if (residual > TOLERANCE) {
         std::cout << "***** WARNING ***** QR algorithm not converged\n";
     }
+    for (std::size_t i = 0; i < UT.size(); ++i) {
+        UT[i] = std::complex<T>(std::ldexp(UT[i].real(), exponent), std::ldexp(UT[i].imag(), exponent));
+    }
     return std::make_pair(HM, UT);
 }
 
-- 
2.43.0


From 09f33c94f1bc9b3978a3220c21c35680ff840981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:51 +0000
Subject: [PATCH 69/73] fix: Givens factorisation decides what is negligible
 relative to the size of the matrix

---
 include/malg/eigen.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/malg/eigen.hpp b/include/malg/eigen.hpp
index 19f3a61..d1b8154 100644
--- a/include/malg/eigen.hpp
+++ b/include/malg/eigen.hpp
@@ -112,16 +112,22 @@ auto qr_factorise_givens(const malg::Matrix<std::complex<T>> &A)
 {
     malg::Matrix<std::complex<T>> Q = malg::utility::identity<std::complex<T>>(A.rows());
     malg::Matrix<std::complex<T>> R(A);
+    // What is small is decided relative to the size of the matrix.
+    T size(0);
+    for (std::size_t i = 0; i < A.size(); ++i) {
+        size = std::max(size, std::abs(A[i]));
+    }
+    const T negligible = std::max(std::numeric_limits<T>::epsilon() * size, std::numeric_limits<T>::min());
     for (std::size_t i = 1, j = 0; i < A.rows(); ++i, j = i - 1) {
         // i : The row number
         // j : aiming to zero the element one place below the diagonal.
-        if (std::abs(R(i, j)) < std::numeric_limits<T>::epsilon()) {
+        if (std::abs(R(i, j)) < negligible) {
             continue;
         }
         // Form the Givens malg::Matrix<std::complex<T>>
         std::complex<T> c = R(j, j);
         std::complex<T> s = -std::conj(R(i, j));
-        double length     = std::sqrt(std::norm(c) + std::norm(s));
+        double length     = std::hypot(std::abs(c), std::abs(s));
         c /= length;
         s /= length;
         std::complex<T> cstar            = std::conj(c); //  G*T = ( c* -s )     G = (  c  s  )     <--- j
-- 
2.43.0


From 1820d5353792a0e7176b4e41950a891ece834e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:51 +0000
Subject: [PATCH 70/73] fix: the eigenvectors do not depend on the scale of a
 small matrix

---
 include/malg/eigen.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/malg/eigen.hpp b/include/malg/eigen.hpp
index d1b8154..085eeea 100644
--- a/include/malg/eigen.hpp
+++ b/include/malg/eigen.hpp
@@ -238,19 +238,32 @@ auto eigenvectorUpper(const malg::Matrix<std::complex<T>> &M)
     // Columns of E will hold the eigenvectors.
     malg::Matrix<std::complex<T>> E(N, N, 0.);
 
+    // The tolerances below are absolute: a small matrix is scaled up (exactly, by
+    // a power of two), which has no influence on its eigenvectors.
     malg::Matrix<std::complex<T>> TT = M;
+    T size(0);
+    for (std::size_t i = 0; i < TT.size(); ++i) {
+        size = std::max(size, std::abs(TT[i]));
+    }
+    if ((size < T(1)) && (size >= std::numeric_limits<T>::min())) {
+        const int exponent = std::ilogb(size);
+        for (std::size_t i = 0; i < TT.size(); ++i) {
+            TT[i] = std::complex<T>(std::ldexp(TT[i].real(), -exponent), std::ldexp(TT[i].imag(), -exponent));
+        }
+    }
+    const malg::Matrix<std::complex<T>> scaled(TT);
     for (int L = N - 1; L >= 0; L--) // find Lth eigenvector, working from the bottom
     {
         bool ok = true;
 
         malg::Vector<std::complex<T>> V(N, 0.0);
-        std::complex<T> lambda = M(L, L);
+        std::complex<T> lambda = scaled(L, L);
         // TT = M - lambda I
         // Solve TT.V = 0
         // free choice of this component
         // back-substitute for other components
         for (int k = 0; k < N; k++) {
-            TT(k, k) = M(k, k) - lambda;
+            TT(k, k) = scaled(k, k) - lambda;
         }
 
         V[L] = 1.0;
-- 
2.43.0


From 994a13ac3bce8fd91099f569ad6d6513857845c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:24 +0000
Subject: [PATCH 71/73] fix: measure the elements in the number format of the
 stream

---
 include/malg/io.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/malg/io.hpp b/include/malg/io.hpp
index 81f176f..d9b32a0 100644
--- a/include/malg/io.hpp
+++ b/include/malg/io.hpp
@@ -22,13 +22,14 @@ namespace details
 
 /// @brief Returns the longhest value inside the data.
 /// @param data the input data.
-/// @param precision the desired precision.
+/// @param format the stream with the desired format.
 /// @returns the number of characters for the longhest value.
 template <typename T>
-inline auto get_longhest_value(T &data, std::streamsize precision)
+inline auto get_longhest_value(T &data, const std::ios &format)
 {
     std::stringstream ss;
-    ss.precision(precision);
+    ss.flags(format.flags());
+    ss.precision(format.precision());
     int longhest = 0, length;
     for (std::size_t i = 0; i < data.size(); ++i) {
         ss.str("");
@@ -53,7 +54,7 @@ inline std::ostream &operator<<(std::ostream &lhs, const malg::Vector<T> &rhs)
 {
     std::size_t i;
     // Get the longhest value.
-    auto length = malg::details::get_longhest_value(rhs, lhs.precision());
+    auto length = malg::details::get_longhest_value(rhs, lhs);
     // Print the vector.
     for (i = 0; i < rhs.size(); ++i) {
         lhs << std::setw(length) << rhs[i];
@@ -74,7 +75,7 @@ inline std::ostream &operator<<(std::ostream &lhs, const malg::MatrixBase<T> &rh
 {
     std::size_t r = 0, c = 0;
     // Get the longhest value.
-    auto length = malg::details::get_longhest_value(rhs, lhs.precision());
+    auto length = malg::details::get_longhest_value(rhs, lhs);
     // Print the matrix.
     for (r = 0; r < rhs.rows(); ++r) {
         for (c = 0; c < rhs.cols(); ++c) {
@@ -100,7 +101,7 @@ inline std::ofstream &operator<<(std::ofstream &lhs, const malg::Vector<T> &rhs)
 {
     std::size_t i;
     // Get the longhest value.
-    auto length = malg::details::get_longhest_value(rhs, lhs.precision());
+    auto length = malg::details::get_longhest_value(rhs, lhs);
     // Print the vector size.
     lhs << "V " << rhs.size() << "\n";
     // Print the vector.
@@ -124,7 +125,7 @@ inline std::ofstream &operator<<(std::ofstream &lhs, const malg::MatrixBase<T> &
 {
     std::size_t r = 0, c = 0;
     // Get the longhest value.
-    auto length = malg::details::get_longhest_value(rhs, lhs.precision());
+    auto length = malg::details::get_longhest_value(rhs, lhs);
     // Print the matrix size.
     lhs << "M " << rhs.rows() << " " << rhs.cols() << "\n";
     // Print the matrix.
-- 
2.43.0


From c9652e37a2576abb787cebd05785f55918789caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:05 +0000
Subject: [PATCH 72/73] fix: compare infinite values by their value

---
 include/malg/feq.hpp    | 6 +++++-
 include/malg/linalg.hpp | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/malg/feq.hpp b/include/malg/feq.hpp
index d6f297d..6f02f8b 100644
--- a/include/malg/feq.hpp
+++ b/include/malg/feq.hpp
@@ -27,6 +27,10 @@ template <typename T1, typename T2>
 inline bool approximately_equal(T1 a, T2 b)
 {
     using T = std::common_type_t<decltype(std::abs(a)), decltype(std::abs(b))>;
+    // An infinite value is equal only to itself.
+    if (std::isinf(std::real(a)) || std::isinf(std::imag(a)) || std::isinf(std::real(b)) || std::isinf(std::imag(b))) {
+        return (std::real(a) == std::real(b)) && (std::imag(a) == std::imag(b));
+    }
     return std::abs(a - b) <= tolerance() * std::max<T>(std::abs(a), std::abs(b));
 }
 
@@ -59,7 +63,7 @@ inline bool approximately_greater_than_equal(T1 a, T2 b)
 template <typename T>
 inline bool approximately_equal_to_zero(T a)
 {
-    return std::abs(a) <= malg::feq::tolerance() * std::abs(a);
+    return !std::isinf(std::abs(a)) && (std::abs(a) <= malg::feq::tolerance() * std::abs(a));
 }
 
 } // namespace malg::feq
diff --git a/include/malg/linalg.hpp b/include/malg/linalg.hpp
index 2968105..eebac04 100644
--- a/include/malg/linalg.hpp
+++ b/include/malg/linalg.hpp
@@ -255,8 +255,8 @@ inline auto inverse(const MatrixBase<T> &matrix)
     using data_type_t = std::remove_const_t<malg::extract_common_type_t<T, double>>;
     // Compute the determinant.
     data_type_t det = linalg::determinant(matrix);
-    // If determinant is zero, the matrix is singular.
-    if (malg::feq::approximately_equal_to_zero(det)) {
+    // If determinant is zero, the matrix is singular (nothing can be said when it overflows).
+    if (malg::feq::approximately_equal_to_zero(det) || std::isinf(std::abs(det))) {
         std::cerr << "Matrix is singular.\n";
         return Matrix<data_type_t>();
     }
-- 
2.43.0


From bf72178629e47dabddb036cfcdd965500c2b882d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:03 +0000
Subject: [PATCH 73/73] fix: end linspace and logspace at the requested value

---
 include/malg/utility.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/malg/utility.hpp b/include/malg/utility.hpp
index 5d7f3a9..5fb92ae 100644
--- a/include/malg/utility.hpp
+++ b/include/malg/utility.hpp
@@ -855,6 +855,10 @@ template <typename T>
             result[i] = start - step * static_cast<T>(i);
         }
     }
+    // The rounding of the step must not move the last element.
+    if constexpr (std::is_floating_point_v<T>) {
+        result[num - 1] = stop;
+    }
     return result;
 }
 
@@ -888,6 +892,10 @@ template <typename T>
             result[i] = std::pow(base, start - step * static_cast<T>(i));
         }
     }
+    // The rounding of the step must not move the last element.
+    if constexpr (std::is_floating_point_v<T>) {
+        result[num - 1] = std::pow(base, stop);
+    }
     return result;
 }
 
-- 
2.43.0

