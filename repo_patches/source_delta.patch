From 8d14b3bf8cc1da6165fa186eb2a01b069dd30b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 01/55] fix: copy of a proxy storage owns the memory it
 allocates

The copy constructor allocates, but took over ownMemory_ == false from a
proxy, so the block was never released.
---
 include/BlasBooster/Core/Storage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 86f51e3..f0302d8 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -328,7 +328,7 @@ public:
 
     /// Copy constructor
     Storage(Storage const& rhs)
-     : data_(allocate<T>(rhs.size_)), size_(rhs.size_), ownMemory_(rhs.ownMemory_)
+     : data_(allocate<T>(rhs.size_)), size_(rhs.size_), ownMemory_(true)
     {
         BLASBOOSTER_DEBUG_PRINT("Storage (onHeap): Copy constructor is called.");
         std::copy(rhs.begin(), rhs.end(), begin());
-- 
2.43.0


From c47c4eacf56b4ec7abdf4b872552938c15dd2d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 02/55] fix: Storage keeps its memory if resize or copy
 assignment cannot allocate

Both released the old block before allocating the new one, so that
std::bad_alloc left a dangling pointer which the destructor freed again.
---
 include/BlasBooster/Core/Storage.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index f0302d8..25bede5 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -365,8 +365,9 @@ public:
     void resize(size_t size) {
         if (size_ == size) return;
         if (!ownMemory_) throw std::runtime_error("resize storage with not own memory.");
+        T* newData = allocate<T>(size);
         if (data_) deallocate<T>(data_);
-        data_ = allocate<T>(size);
+        data_ = newData;
         size_ = size;
     }
 
@@ -374,13 +375,13 @@ public:
     Storage& operator = ( const self& rhs ) {
         BLASBOOSTER_DEBUG_PRINT("Storage (onHeap): Copy assignment is called.");
         if ( this != &rhs ) {
-            if (ownMemory_) deallocate<T>(data_);
+            T* newData = rhs.data_;
             if (rhs.ownMemory_) {
-                data_ = allocate<T>(rhs.size_);
-                std::copy(rhs.begin(),rhs.end(),begin());
-            } else {
-                data_ = rhs.data_;
+                newData = allocate<T>(rhs.size_);
+                std::copy(rhs.begin(),rhs.end(),newData);
             }
+            if (ownMemory_) deallocate<T>(data_);
+            data_ = newData;
             size_ = rhs.size_;
             ownMemory_ = rhs.ownMemory_;
         }
-- 
2.43.0


From b7e329b0e8a38db2929b1e8c98e80c53f54c98f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 03/55] fix: moving a matrix transfers all of its dimensions
 and leaves an empty matrix

The move constructor of the dense matrix lost the leading and unblocked
dimensions, and a moved-from matrix kept its dimensions without elements
and could not be resized again.
---
 include/BlasBooster/Core/DenseMatrix.h  | 8 ++++++++
 include/BlasBooster/Core/SparseMatrix.h | 2 ++
 include/BlasBooster/Core/Storage.h      | 4 ++--
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index d38d5c7..bf4c9a2 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -199,9 +199,13 @@ public: // member functions
     /// Move constructor
     Matrix(self&& other)
      : dimension(std::move(other)),
+       leadingDimension(std::move(other)),
+       unblockedDimension(std::move(other)),
        storage(std::forward<storage>(other))
     {
         BLASBOOSTER_DEBUG_PRINT("Matrix: Move constructor is called.");
+        static_cast<dimension&>(other) = dimension();
+        static_cast<unblockedDimension&>(other) = unblockedDimension();
     }
 
     /// Default destructor
@@ -217,6 +221,10 @@ public: // member functions
         leadingDimension::operator=(std::forward<leadingDimension>(rhs));
         unblockedDimension::operator=(std::forward<unblockedDimension>(rhs));
         storage::operator=(std::forward<storage>(rhs));
+        if (this != &rhs) {
+            static_cast<dimension&>(rhs) = dimension();
+            static_cast<unblockedDimension&>(rhs) = unblockedDimension();
+        }
         return *this;
     }
 
diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 38900ca..06885ca 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -93,6 +93,7 @@ public:
        storage(std::forward<storage>(rhs))
     {
         BLASBOOSTER_DEBUG_PRINT("SparseMatrix: Move constructor is called.");
+        static_cast<dimension&>(rhs) = dimension();
     }
 
     /// Default destructor
@@ -107,6 +108,7 @@ public:
         BLASBOOSTER_DEBUG_PRINT("SparseMatrix: Move assignment operator is called.");
         dimension::operator=(std::forward<dimension>(rhs));
         storage::operator=(std::forward<storage>(rhs));
+        if (this != &rhs) static_cast<dimension&>(rhs) = dimension();
         return *this;
     }
 
diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 25bede5..51479b8 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -341,7 +341,7 @@ public:
         BLASBOOSTER_DEBUG_PRINT("Storage (onHeap): Move constructor is called.");
         rhs.data_ = nullptr;
         rhs.size_ = 0;
-        rhs.ownMemory_ = false;
+        rhs.ownMemory_ = true;
     }
 
     /// Conversion constructor
@@ -400,7 +400,7 @@ public:
         // clean other resources
         rhs.data_ = nullptr;
         rhs.size_ = 0;
-        rhs.ownMemory_ = false;
+        rhs.ownMemory_ = true;
         return *this;
     }
 
-- 
2.43.0


From 3bcb165851b403ed6a2d485411711bcb2a5e8d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 04/55] fix: swapping matrices swaps the whole dimension

getSize() and the leading and unblocked dimensions stayed behind.
---
 include/BlasBooster/Core/DenseMatrix.h  | 10 ++++------
 include/BlasBooster/Core/SparseMatrix.h |  3 +--
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index bf4c9a2..9d576c4 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -294,12 +294,10 @@ public: // member functions
 
     friend void swap( self& a, self& b ) BLASBOOSTER_NOEXCEPT {
         using std::swap; // bring in swap for built-in types
-        swap(a.data_,b.data_);
-        swap(a.size_,b.size_);
-        swap(a.ownMemory_,b.ownMemory_);
-        swap(a.nbRows_,b.nbRows_);
-        swap(a.nbColumns_,b.nbColumns_);
-        //swap(a.storage,b.storage);
+        swap(static_cast<dimension&>(a), static_cast<dimension&>(b));
+        swap(static_cast<leadingDimension&>(a), static_cast<leadingDimension&>(b));
+        swap(static_cast<unblockedDimension&>(a), static_cast<unblockedDimension&>(b));
+        swap(static_cast<storage&>(a), static_cast<storage&>(b));
     }
 
     static const size_t typeIndex_ = GetIndex<self, DynamicMatrixTypeList>::value;
diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 06885ca..7e06023 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -130,8 +130,7 @@ public:
         swap(a.value_,b.value_);
         swap(a.key_,b.key_);
         swap(a.offset_,b.offset_);
-        swap(a.nbRows_,b.nbRows_);
-        swap(a.nbColumns_,b.nbColumns_);
+        swap(static_cast<dimension&>(a), static_cast<dimension&>(b));
     }
 
     static const size_t typeIndex_ = GetIndex<self, DynamicMatrixTypeList>::value;
-- 
2.43.0


From 542e7b9555118694bb280095c86d629f7866deac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 05/55] fix: a matrix stays consistent if resize or copy
 assignment cannot allocate

The dimensions were changed before the storage, and the three arrays of a
sparse matrix one after the other.  The size of a resized blocked matrix
was not updated.
---
 include/BlasBooster/Core/DenseMatrix.h   | 20 +++++++++++++------
 include/BlasBooster/Core/SparseMatrix.h  | 15 +++++++++-----
 include/BlasBooster/Core/SparseStorage.h | 25 +++++++++++++++++++++---
 3 files changed, 46 insertions(+), 14 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 9d576c4..7210d34 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -211,8 +211,17 @@ public: // member functions
     /// Default destructor
     ~Matrix() = default;
 
-    /// Default copy assignment operator
-    Matrix& operator = (self const& other) = default;
+    /// Copy assignment operator
+    Matrix& operator = (self const& other)
+    {
+        storage::operator=(other);
+        dimension::operator=(other);
+        leadingDimension::operator=(other);
+        unblockedDimension::operator=(other);
+        NormPolicy<self, typename P::NormType>::operator=(other);
+        OccupationPolicy<self>::operator=(other);
+        return *this;
+    }
 
     /// Move assignment operator
     Matrix& operator = (self&& rhs) BLASBOOSTER_NOEXCEPT {
@@ -697,8 +706,8 @@ template <class Filler, class U>
 void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexType nbColumns, Filler const& filler,
     typename std::enable_if<!std::is_same<U, DynamicMatrix>::value>::type*)
 {
-    static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     static_cast<storage*>(this)->resize(nbRows * nbColumns);
+    static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     filler(*this);
 }
 
@@ -708,11 +717,10 @@ void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexTy
     typename P::IndexType nbUnblockedRows, typename P::IndexType nbUnblockedColumns,
     typename std::enable_if<std::is_same<U, DynamicMatrix>::value>::type*)
 {
-    this->nbRows_ = nbRows;
-    this->nbColumns_ = nbColumns;
+    static_cast<storage*>(this)->resize(nbRows*nbColumns);
+    static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     this->ubRows_ = nbUnblockedRows;
     this->ubColumns_ = nbUnblockedColumns;
-    static_cast<storage*>(this)->resize(nbRows*nbColumns);
 }
 
 template <class T, class P>
diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 7e06023..60e4c1c 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -99,8 +99,15 @@ public:
     /// Default destructor
     ~Matrix() = default;
 
-    /// Default copy assignment operator
-    Matrix& operator = (Matrix const& other) = default;
+    /// Copy assignment operator
+    Matrix& operator = (Matrix const& other)
+    {
+        storage::operator=(other);
+        dimension::operator=(other);
+        NormPolicy<self, typename P::NormType>::operator=(other);
+        OccupationPolicy<self>::operator=(other);
+        return *this;
+    }
 
     /// Move assignment operator
     Matrix& operator = (Matrix&& rhs)
@@ -264,10 +271,8 @@ template <class T, class P>
 void Matrix<Sparse,T,P>::resize(typename P::IndexType nbRows, typename P::IndexType nbColumns,
     typename P::IndexType nbSignificantElements)
 {
-    this->nbRows_ = nbRows;
-    this->nbColumns_ = nbColumns;
-    this->full_size_ = nbRows * nbColumns;
     static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, nbColumns + 1);
+    static_cast<dimension*>(this)->resize(nbRows, nbColumns);
 }
 
 } // namespace BlasBooster
diff --git a/include/BlasBooster/Core/SparseStorage.h b/include/BlasBooster/Core/SparseStorage.h
index 591d0e5..8cc087a 100644
--- a/include/BlasBooster/Core/SparseStorage.h
+++ b/include/BlasBooster/Core/SparseStorage.h
@@ -112,10 +112,29 @@ public:
        offset_(rhs.offset_)
     {}
 
+    /// Copy constructor
+    SparseStorage(SparseStorage const& rhs) = default;
+
+    /// Move constructor
+    SparseStorage(SparseStorage&& rhs) = default;
+
+    /// Copy assignment, all arrays are copied before one of them is replaced
+    SparseStorage& operator = (SparseStorage const& rhs) {
+        SparseStorage copy(rhs);
+        return operator=(std::move(copy));
+    }
+
+    /// Move assignment
+    SparseStorage& operator = (SparseStorage&& rhs) = default;
+
+    /// All arrays are allocated before one of them is replaced
     void resize(IndexType nbOfValues, IndexType nbOfOffsets) {
-        value_.resize(nbOfValues);
-        key_.resize(nbOfValues);
-        offset_.resize(nbOfOffsets);
+        SparseStorage other(nbOfValues, nbOfOffsets);
+        if (value_.size() != nbOfValues) {
+            value_ = std::move(other.value_);
+            key_ = std::move(other.key_);
+        }
+        if (offset_.size() != nbOfOffsets) offset_ = std::move(other.offset_);
     }
 
     bool operator == (SparseStorage const& rhs ) const {
-- 
2.43.0


From dfd9a98d824bfc63dc9461c4e9a793c011eabf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 06/55] fix: resizing a zero matrix updates its size

---
 include/BlasBooster/Core/ZeroMatrix.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/ZeroMatrix.h b/include/BlasBooster/Core/ZeroMatrix.h
index c9b0605..fc70ed7 100644
--- a/include/BlasBooster/Core/ZeroMatrix.h
+++ b/include/BlasBooster/Core/ZeroMatrix.h
@@ -99,8 +99,7 @@ Matrix<Zero,NullType,P>::Matrix(Matrix<M2,T2,P2> const& other)
 template <class P>
 void Matrix<Zero,NullType,P>::resize(typename P::IndexType nbRows, typename P::IndexType nbColumns)
 {
-    this->nbRows_ = nbRows;
-    this->nbColumns_ = nbColumns;
+    static_cast<dimension*>(this)->resize(nbRows, nbColumns);
 }
 
 template <class P, class NormType>
-- 
2.43.0


From 92ab616367fd556cb7813652c3638c49ec95ca0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 07/55] fix: conversion of a row-major dense matrix to a sparse
 matrix

The loop has to run in the order of the sparse matrix, whatever the
order of the dense matrix is.
---
 include/BlasBooster/Core/SparseMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 60e4c1c..c3d01a5 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -202,7 +202,7 @@ Matrix<Sparse,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const&
     typename P::IndexType key, offset(0);
 
     typedef typename std::conditional<
-        std::is_same<typename P::orientation, typename P2::orientation>::value,
+        std::is_same<typename P::orientation, ColumnMajor>::value,
         Cursor<const Matrix<Dense,T2,P2>, Direction::Column>,
         Cursor<const Matrix<Dense,T2,P2>, Direction::Row>
     >::type OuterCursor;
-- 
2.43.0


From 94156e2483eca2a995909ac804e9a48b1a0f3a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 08/55] fix: count the significant elements when a sparse
 matrix is allocated

The cached number may be older than the elements, and more elements than
the storage can hold were written.
---
 include/BlasBooster/Core/SparseMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index c3d01a5..10d8963 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -193,7 +193,7 @@ template <class T, class P>
 template <class T2, class P2, class ValueChecker>
 Matrix<Sparse,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, ValueChecker const& valueChecker)
  : dimension(other.getNbRows(), other.getNbColumns()),
-   storage(other.getNbOfSignificantElements(valueChecker), this->getMinorDimension() + 1)
+   storage(countDesiredElements(other, valueChecker), this->getMinorDimension() + 1)
 {
     iterator iterValueCur(this->begin());
     index_iterator iterKeyCur(this->beginKey());
-- 
2.43.0


From b0d378e8e57785245d537d096ef3a9f998f37335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:30 +0000
Subject: [PATCH 09/55] fix: sparse results hold exactly their significant
 elements

The sum, difference and product of sparse matrices kept nbRows * nbColumns
values, most of them uninitialised, which entered norm and occupation.
---
 include/BlasBooster/Core/BinaryFunctors.h        |  2 ++
 include/BlasBooster/Core/Multiplication_Native.h |  2 ++
 include/BlasBooster/Core/SparseStorage.h         | 11 +++++++++++
 3 files changed, 15 insertions(+)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 00ec5d4..1383fdb 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -244,6 +244,8 @@ struct BinaryOperationFunctor<Operation,Sparse,T1,P1,Sparse,T2,P2,Sparse,T3,P3>
 
             *iterOffsetCCur = offset;
         }
+
+        C.shrink(offset);
     }
 };
 
diff --git a/include/BlasBooster/Core/Multiplication_Native.h b/include/BlasBooster/Core/Multiplication_Native.h
index a708099..f861691 100644
--- a/include/BlasBooster/Core/Multiplication_Native.h
+++ b/include/BlasBooster/Core/Multiplication_Native.h
@@ -201,6 +201,8 @@ struct MultiplicationFunctor<Sparse,T1,P1,Sparse,T2,P2,Sparse,T3,P3,Native>
             }
         }
         *iterOffsetCCur++ = offset;
+
+        C.shrink(offset);
     }
 };
 
diff --git a/include/BlasBooster/Core/SparseStorage.h b/include/BlasBooster/Core/SparseStorage.h
index 8cc087a..e1d85cf 100644
--- a/include/BlasBooster/Core/SparseStorage.h
+++ b/include/BlasBooster/Core/SparseStorage.h
@@ -137,6 +137,17 @@ public:
         if (offset_.size() != nbOfOffsets) offset_ = std::move(other.offset_);
     }
 
+    /// Keep only the first nbOfValues values
+    void shrink(IndexType nbOfValues) {
+        if (nbOfValues == value_.size()) return;
+        Storage<ValueType,false,false,0> value(nbOfValues);
+        Storage<IndexType,false,false,0> key(nbOfValues);
+        std::copy_n(value_.begin(), nbOfValues, value.begin());
+        std::copy_n(key_.begin(), nbOfValues, key.begin());
+        value_ = std::move(value);
+        key_ = std::move(key);
+    }
+
     bool operator == (SparseStorage const& rhs ) const {
         return offset_ == rhs.offset_ and key_ == rhs.key_ and value_ == rhs.value_;
     }
-- 
2.43.0


From 680accc92a61601c340cce892b3d1e1041677f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 10/55] fix: transposed sparse matrix without elements

It held nbRows * nbColumns uninitialised values.
---
 include/BlasBooster/Core/Transposition.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/BlasBooster/Core/Transposition.h b/include/BlasBooster/Core/Transposition.h
index 31497e3..11dee7d 100644
--- a/include/BlasBooster/Core/Transposition.h
+++ b/include/BlasBooster/Core/Transposition.h
@@ -35,6 +35,7 @@ template <class T, class P>
 Matrix<Sparse,T,P> transpose(Matrix<Sparse,T,P> const& matrix)
 {
     Matrix<Sparse,T,P> transposedMatrix(matrix.getNbColumns(), matrix.getNbRows(), matrix.nnz());
+    transposedMatrix.shrink(matrix.nnz()); // zero elements means full size for the constructor
 
     typedef typename Matrix<Sparse,T,P>::IndexType IndexType;
     typedef typename Matrix<Sparse,T,P>::iterator iterator;
-- 
2.43.0


From a24339f3f2506b4a68f507d1cf4ab89fbe6fe085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 11/55] fix: NormOne of a MultipleMatrix uses both of its
 matrices

---
 include/BlasBooster/Core/Norm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Norm.h b/include/BlasBooster/Core/Norm.h
index c924e12..abaaac2 100644
--- a/include/BlasBooster/Core/Norm.h
+++ b/include/BlasBooster/Core/Norm.h
@@ -73,7 +73,7 @@ struct NormFunctor<NormOne,MultipleMatrix<X1,X2> >
     double operator () (MultipleMatrix<X1,X2> const& m) const
     {
         //return norm<NormOne>(m.getMatrix1()) + norm<NormOne>(m.getMatrix1());
-        return norm<NormOne>(m.getMatrix1() + m.getMatrix1());
+        return norm<NormOne>(m.getMatrix1() + m.getMatrix2());
     }
 };
 
-- 
2.43.0


From 19615fd76e7f7b304b2af04c7317191bcd7ed99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:42 +0000
Subject: [PATCH 12/55] fix: cached norm and occupation follow the elements

The cached values were never made obsolete when elements changed, when
matrices were swapped, moved or resized, and were updated without
synchronization by concurrent const queries.
---
 include/BlasBooster/Core/DenseMatrix.h      | 26 ++++++++++++++++
 include/BlasBooster/Core/NormPolicy.h       | 26 ++++++++++++++--
 include/BlasBooster/Core/OccupationPolicy.h | 34 ++++++++++++++++++++-
 include/BlasBooster/Core/SparseMatrix.h     | 22 +++++++++++++
 4 files changed, 104 insertions(+), 4 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 7210d34..443cb3c 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -206,6 +206,7 @@ public: // member functions
         BLASBOOSTER_DEBUG_PRINT("Matrix: Move constructor is called.");
         static_cast<dimension&>(other) = dimension();
         static_cast<unblockedDimension&>(other) = unblockedDimension();
+        other.resetCaches();
     }
 
     /// Default destructor
@@ -234,6 +235,8 @@ public: // member functions
             static_cast<dimension&>(rhs) = dimension();
             static_cast<unblockedDimension&>(rhs) = unblockedDimension();
         }
+        resetCaches();
+        rhs.resetCaches();
         return *this;
     }
 
@@ -273,6 +276,18 @@ public: // member functions
         return !equal(rhs);
     }
 
+    // Access to the elements for modification makes the cached norm and occupation obsolete
+
+    iterator begin() { resetCaches(); return storage::begin(); }
+    const_iterator begin() const { return storage::begin(); }
+    iterator end() { resetCaches(); return storage::end(); }
+    const_iterator end() const { return storage::end(); }
+
+    T* getDataPointer() { resetCaches(); return storage::getDataPointer(); }
+    const T* getDataPointer() const { return storage::getDataPointer(); }
+
+    void fill(T const& value) { resetCaches(); storage::fill(value); }
+
     T& operator () (IndexType row, IndexType column);
     const T& operator () (IndexType row, IndexType column) const;
 
@@ -307,6 +322,8 @@ public: // member functions
         swap(static_cast<leadingDimension&>(a), static_cast<leadingDimension&>(b));
         swap(static_cast<unblockedDimension&>(a), static_cast<unblockedDimension&>(b));
         swap(static_cast<storage&>(a), static_cast<storage&>(b));
+        a.resetCaches();
+        b.resetCaches();
     }
 
     static const size_t typeIndex_ = GetIndex<self, DynamicMatrixTypeList>::value;
@@ -315,6 +332,12 @@ public: // member functions
 
 private:
 
+    void resetCaches()
+    {
+        this->resetNorm();
+        this->reset();
+    }
+
     template <class M2, class T2, class P2>
     friend struct Matrix;
 
@@ -328,6 +351,7 @@ private:
     {
         ar & boost::serialization::base_object<dimension>(*this);
         ar & boost::serialization::base_object<storage>(*this);
+        if (Archive::is_loading::value) resetCaches();
     }
 
     template <class U = P>
@@ -706,6 +730,7 @@ template <class Filler, class U>
 void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexType nbColumns, Filler const& filler,
     typename std::enable_if<!std::is_same<U, DynamicMatrix>::value>::type*)
 {
+    resetCaches();
     static_cast<storage*>(this)->resize(nbRows * nbColumns);
     static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     filler(*this);
@@ -717,6 +742,7 @@ void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexTy
     typename P::IndexType nbUnblockedRows, typename P::IndexType nbUnblockedColumns,
     typename std::enable_if<std::is_same<U, DynamicMatrix>::value>::type*)
 {
+    resetCaches();
     static_cast<storage*>(this)->resize(nbRows*nbColumns);
     static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     this->ubRows_ = nbUnblockedRows;
diff --git a/include/BlasBooster/Core/NormPolicy.h b/include/BlasBooster/Core/NormPolicy.h
index 241304a..fe5a8e9 100644
--- a/include/BlasBooster/Core/NormPolicy.h
+++ b/include/BlasBooster/Core/NormPolicy.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "Norm.h"
+#include <atomic>
 #include <cmath>
 #include <iostream>
 #include <stdexcept>
@@ -17,6 +18,20 @@ public:
      : norm_(0.0), isNormUpToDate_(false)
     {}
 
+    NormPolicy(NormPolicy const& other)
+     : norm_(0.0), isNormUpToDate_(false)
+    {
+        *this = other;
+    }
+
+    NormPolicy& operator = (NormPolicy const& other)
+    {
+        bool isUpToDate = other.isNormUpToDate_;
+        if (isUpToDate) norm_ = other.norm_.load();
+        isNormUpToDate_ = isUpToDate;
+        return *this;
+    }
+
     double getNorm() const
     {
         if (!isNormUpToDate_) updateNorm();
@@ -41,15 +56,20 @@ public:
     {
         if (!isNormUpToDate_) {
             norm_ = norm<NormType>(*(static_cast<const Derived*>(this)));
-            isNormUpToDate_ = true;
+            // The elements of a blocked or a submatrix may be modified by others
+            isNormUpToDate_ = !Derived::parameter::isBlockedMatrix and !Derived::parameter::isSubMatrix;
         }
     }
 
+    /// The norm has to be determined again, because the elements may change
+    void resetNorm() { isNormUpToDate_.store(false, std::memory_order_relaxed); }
+
 private:
 
-    mutable double norm_;
+    // A const matrix may be queried concurrently: norm_ is written before isNormUpToDate_.
+    mutable std::atomic<double> norm_;
 
-    mutable bool isNormUpToDate_;
+    mutable std::atomic<bool> isNormUpToDate_;
 
 };
 
diff --git a/include/BlasBooster/Core/OccupationPolicy.h b/include/BlasBooster/Core/OccupationPolicy.h
index 0b4a084..44fcff5 100644
--- a/include/BlasBooster/Core/OccupationPolicy.h
+++ b/include/BlasBooster/Core/OccupationPolicy.h
@@ -3,7 +3,9 @@
 #include "AbsoluteValueRangeChecker.h"
 #include "Occupation.h"
 #include "Threshold.h"
+#include <atomic>
 #include <map>
+#include <mutex>
 
 namespace BlasBooster {
 
@@ -14,11 +16,34 @@ public:
 
     OccupationPolicy() = default;
 
+    OccupationPolicy(OccupationPolicy const& other)
+    {
+        *this = other;
+    }
+
+    OccupationPolicy& operator = (OccupationPolicy const& other)
+    {
+        if (this == &other) return *this;
+        reset();
+        std::lock_guard<std::mutex> lock(other.mutex_);
+        if (other.isUpToDate_) {
+            nbDesiredElementsMap_ = other.nbDesiredElementsMap_;
+            isUpToDate_ = true;
+        }
+        return *this;
+    }
+
     /// Return number of values which fulfill the valueChecker
     template <class ValueChecker>
     size_t getNbOfSignificantElements(ValueChecker const& valueChecker) const
     {
         auto key = std::shared_ptr<ValueCheckerBase>(new ValueChecker(valueChecker));
+        std::lock_guard<std::mutex> lock(mutex_);
+        if (!isUpToDate_) {
+            nbDesiredElementsMap_.clear();
+            // The elements of a blocked or a submatrix may be modified by others
+            isUpToDate_ = !Derived::parameter::isBlockedMatrix and !Derived::parameter::isSubMatrix;
+        }
         if (nbDesiredElementsMap_.count(key)) {
             return nbDesiredElementsMap_[key];
         } else {
@@ -48,13 +73,20 @@ public:
         return getOccupation(valueChecker) < value;
     }
 
+    /// The elements have to be counted again, because they may change
     void reset()
     {
-        nbDesiredElementsMap_.clear();
+        isUpToDate_.store(false, std::memory_order_relaxed);
     }
 
 private:
 
+    // A const matrix may be queried concurrently
+    mutable std::mutex mutex_;
+
+    /// If false, the content of nbDesiredElementsMap_ is obsolete
+    mutable std::atomic<bool> isUpToDate_{false};
+
     mutable std::map<std::shared_ptr<ValueCheckerBase>,size_t,ValueCheckerLess> nbDesiredElementsMap_;
 
 };
diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 10d8963..0040e69 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -94,6 +94,7 @@ public:
     {
         BLASBOOSTER_DEBUG_PRINT("SparseMatrix: Move constructor is called.");
         static_cast<dimension&>(rhs) = dimension();
+        rhs.resetCaches();
     }
 
     /// Default destructor
@@ -116,6 +117,8 @@ public:
         dimension::operator=(std::forward<dimension>(rhs));
         storage::operator=(std::forward<storage>(rhs));
         if (this != &rhs) static_cast<dimension&>(rhs) = dimension();
+        resetCaches();
+        rhs.resetCaches();
         return *this;
     }
 
@@ -124,6 +127,16 @@ public:
     /// If nbSignificantElements equal zero, storage of size nbRows*nbColumns will be allocated.
     void resize(IndexType nbRows, IndexType nbColumns, IndexType nbSignificantElements = 0);
 
+    // Access to the elements for modification makes the cached norm and occupation obsolete
+
+    iterator begin() { resetCaches(); return storage::begin(); }
+    const_iterator begin() const { return storage::begin(); }
+    iterator end() { resetCaches(); return storage::end(); }
+    const_iterator end() const { return storage::end(); }
+
+    /// Keep only the first nbOfValues values
+    void shrink(IndexType nbOfValues) { resetCaches(); storage::shrink(nbOfValues); }
+
     bool operator == (Matrix const& rhs) const {
         return storage::operator==(rhs) and dimension::operator==(rhs);
     }
@@ -138,6 +151,8 @@ public:
         swap(a.key_,b.key_);
         swap(a.offset_,b.offset_);
         swap(static_cast<dimension&>(a), static_cast<dimension&>(b));
+        a.resetCaches();
+        b.resetCaches();
     }
 
     static const size_t typeIndex_ = GetIndex<self, DynamicMatrixTypeList>::value;
@@ -146,6 +161,12 @@ public:
 
 private:
 
+    void resetCaches()
+    {
+        this->resetNorm();
+        this->reset();
+    }
+
     template <class M2, class T2, class P2>
     friend struct Matrix;
 
@@ -271,6 +292,7 @@ template <class T, class P>
 void Matrix<Sparse,T,P>::resize(typename P::IndexType nbRows, typename P::IndexType nbColumns,
     typename P::IndexType nbSignificantElements)
 {
+    resetCaches();
     static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, nbColumns + 1);
     static_cast<dimension*>(this)->resize(nbRows, nbColumns);
 }
-- 
2.43.0


From 7e0f1ac88e4e15c106d07276b7b6084949e894c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 13/55] fix: loading a matrix from an archive releases its old
 elements

The old elements leaked, and a matrix that could not be loaded completely
claimed elements it did not have.
---
 include/BlasBooster/Core/DenseMatrix.h | 22 ++++++++++++++++++----
 include/BlasBooster/Core/Storage.h     |  9 +++++----
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 443cb3c..0a3cfe4 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -346,12 +346,26 @@ private:
 
     friend class boost::serialization::access;
 
+    BOOST_SERIALIZATION_SPLIT_MEMBER()
+
+    template <class Archive>
+    void save(Archive & ar, const unsigned int version) const
+    {
+        ar << boost::serialization::base_object<dimension>(*this);
+        ar << boost::serialization::base_object<storage>(*this);
+    }
+
+    /// The matrix is not modified if it can not be loaded completely
     template <class Archive>
-    void serialize(Archive & ar, const unsigned int version)
+    void load(Archive & ar, const unsigned int version)
     {
-        ar & boost::serialization::base_object<dimension>(*this);
-        ar & boost::serialization::base_object<storage>(*this);
-        if (Archive::is_loading::value) resetCaches();
+        dimension dimensionTmp;
+        storage storageTmp;
+        ar >> dimensionTmp;
+        ar >> storageTmp;
+        dimension::operator=(std::move(dimensionTmp));
+        storage::operator=(std::move(storageTmp));
+        resetCaches();
     }
 
     template <class U = P>
diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 51479b8..0c68aee 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -486,10 +486,11 @@ protected:
     template <class Archive>
     void load(Archive & ar, const unsigned int version)
     {
-        ar >> size_;
-        data_ = allocate<T>(size_);
-        for ( size_t i(0); i != size_; ++i ) ar >> data_[i];
-        ownMemory_ = true;
+        size_t size;
+        ar >> size;
+        Storage storage(size);
+        for ( size_t i(0); i != size; ++i ) ar >> storage.data_[i];
+        *this = std::move(storage);
     }
 
     T* data_;
-- 
2.43.0


From c56612dc393f8b2591be86aed613dac49d163345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:02 +0000
Subject: [PATCH 14/55] fix: value checkers of different types are never equal
 keys

The checkers with float or int thresholds share one id, so the cached count
of one was returned for another, after an invalid downcast.
---
 include/BlasBooster/Core/AbsoluteValueRangeChecker.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/AbsoluteValueRangeChecker.h b/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
index c1d6fb6..329b1bf 100644
--- a/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
+++ b/include/BlasBooster/Core/AbsoluteValueRangeChecker.h
@@ -4,6 +4,7 @@
 #include "BlasBooster/Core/CoreException.h"
 #include <cmath>
 #include <memory>
+#include <typeinfo>
 
 namespace BlasBooster {
 
@@ -26,7 +27,12 @@ struct ValueCheckerLess
     bool operator () (std::shared_ptr<ValueCheckerBase> const& v1, std::shared_ptr<ValueCheckerBase> const& v2) const
     {
         assert(v1 and v2);
-        return *v1 < *v2;
+        // Checkers of different types have no common order and may have the same id
+        ValueCheckerBase const& c1 = *v1;
+        ValueCheckerBase const& c2 = *v2;
+        if (c1.getID() != c2.getID()) return c1.getID() < c2.getID();
+        if (typeid(c1) != typeid(c2)) return typeid(c1).before(typeid(c2));
+        return c1 < c2;
     }
 };
 
-- 
2.43.0


From aecc067c5539f37c0ccaa4811fefaed47eb4a03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 15/55] fix: difference with a sparse or zero minuend has the
 right sign

---
 include/BlasBooster/Core/BinaryFunctors.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 1383fdb..8ca4322 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -289,8 +289,9 @@ struct BinaryOperationFunctor<Operation,Sparse,T1,P1,Dense,T2,P2,Dense,T3,P3>
 {
     void operator () (Matrix<Sparse,T1,P1> const& A, Matrix<Dense,T2,P2> const& B, Matrix<Dense,T3,P3>& C)
     {
-        // Because matrix addition is commutative it can be forwarded to C = B + A;
+        // Forwarded to C = B <Operation> A, which is A + B or -(A - B)
         BinaryOperationFunctor<Operation,Dense,T2,P2,Sparse,T1,P1,Dense,T3,P3>()(B,A,C);
+        for (auto& value : C) UnaryOperation<Operation>()(value,value);
     }
 };
 
@@ -311,6 +312,7 @@ struct BinaryOperationFunctor<Operation,Zero,NullType,P,M,T,P,M,T,P>
     void operator () (Matrix<Zero,NullType,P> const& A, Matrix<M,T,P> const& B, Matrix<M,T,P>& C)
     {
         C = B;
+        for (auto& value : C) UnaryOperation<Operation>()(value,value);
     }
 };
 
-- 
2.43.0


From 7730168fb07ed5da1164c6782c02bb050d68fd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 16/55] fix: compound assignment and difference of two-part
 sums

---
 include/BlasBooster/Core/BinaryFunctors.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index 8ca4322..d3fbd23 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -524,7 +524,6 @@ template <class M1, class T1, class P1, class X1, class X2>
 inline MultipleMatrix<X1,X2>& operator += (MultipleMatrix<X1,X2>& A, Matrix<M1,T1,P1> const& B)
 {
     A.getMatrix1() += B;
-    A.getMatrix2() += B;
     return A;
 }
 
@@ -533,8 +532,6 @@ template <class X1, class X2, class Y1, class Y2>
 inline MultipleMatrix<X1,X2>& operator += (MultipleMatrix<X1,X2>& A, MultipleMatrix<Y1,Y2> const& B)
 {
     A.getMatrix1() += B.getMatrix1();
-    A.getMatrix2() += B.getMatrix1();
-    A.getMatrix1() += B.getMatrix2();
     A.getMatrix2() += B.getMatrix2();
     return A;
 }
@@ -558,9 +555,9 @@ inline auto operator - (MultipleMatrix<X1,X2> const& A, Matrix<M1,T1,P1> const&
 /// Operator for MultipleMatrix subtraction
 template <class X1, class X2, class Y1, class Y2>
 inline auto operator - (MultipleMatrix<X1,X2> const& A, MultipleMatrix<Y1,Y2> const& B)
-    -> decltype(X1() + X2() - Y1() + Y2())
+    -> decltype(X1() + X2() - Y1() - Y2())
 {
-    return A.getMatrix1() + A.getMatrix2() - B.getMatrix1() + B.getMatrix2();
+    return A.getMatrix1() + A.getMatrix2() - B.getMatrix1() - B.getMatrix2();
 }
 
 /// Operator for MultipleMatrix addition assignment
@@ -576,7 +573,6 @@ template <class M1, class T1, class P1, class X1, class X2>
 inline MultipleMatrix<X1,X2>& operator -= (MultipleMatrix<X1,X2>& A, Matrix<M1,T1,P1> const& B)
 {
     A.getMatrix1() -= B;
-    A.getMatrix2() -= B;
     return A;
 }
 
@@ -585,8 +581,6 @@ template <class X1, class X2, class Y1, class Y2>
 inline MultipleMatrix<X1,X2>& operator -= (MultipleMatrix<X1,X2>& A, MultipleMatrix<Y1,Y2> const& B)
 {
     A.getMatrix1() -= B.getMatrix1();
-    A.getMatrix2() -= B.getMatrix1();
-    A.getMatrix1() -= B.getMatrix2();
     A.getMatrix2() -= B.getMatrix2();
     return A;
 }
-- 
2.43.0


From fa312e02aa7b8b31711e6e04c6260b52fe528123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:10 +0000
Subject: [PATCH 17/55] fix: products with row-major dense matrices

---
 include/BlasBooster/Core/Multiplication_Native.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/BlasBooster/Core/Multiplication_Native.h b/include/BlasBooster/Core/Multiplication_Native.h
index f861691..f5d6246 100644
--- a/include/BlasBooster/Core/Multiplication_Native.h
+++ b/include/BlasBooster/Core/Multiplication_Native.h
@@ -101,7 +101,13 @@ template <class T1, class P1,
           class T2, class P2,
           class T3, class P3>
 struct MultiplicationFunctor<Dense,T1,P1,Dense,T2,P2,Dense,T3,P3,Native>
- : public GeneralDenseMultiplicationFunctor<T1,P1,T2,P2,T3,P3>
+ : public std::conditional<
+       std::is_same<typename P1::orientation, ColumnMajor>::value and
+       std::is_same<typename P2::orientation, ColumnMajor>::value and
+       std::is_same<typename P3::orientation, ColumnMajor>::value,
+       GeneralDenseMultiplicationFunctor<T1,P1,T2,P2,T3,P3>,
+       GeneralDenseMultiplicationFunctorUsingCursor<T1,P1,T2,P2,T3,P3>
+   >::type
 {};
 
 /// Matrix multiplication specialized for DynamicMatrix Dense, Dense.
@@ -228,12 +234,9 @@ struct MultiplicationFunctor<Sparse,T1,P1,Dense,T2,P2,Dense,T3,P3,Native>
 
             for (; iter_A_key != iter_A_key_end; ++iter_A_key, ++iter_A_val)
             {
-            	auto&& iter_B = B.begin() + col_A;
-            	auto&& iter_C = C.begin() + *iter_A_key;
-
-                for (size_t i = 0; i != B.getNbColumns(); ++i, iter_B += B.getNbRows(), iter_C += C.getNbRows())
+                for (size_t i = 0; i != B.getNbColumns(); ++i)
                 {
-                    *iter_C += (*iter_A_val) * (*iter_B);
+                    C(*iter_A_key, i) += (*iter_A_val) * B(col_A, i);
                 }
             }
         }
-- 
2.43.0


From d15c3511d3417f7460ea3096f4d87007c10d5457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:50 +0000
Subject: [PATCH 18/55] fix: keep all significant elements of a block converted
 to a sparse double matrix

A block is converted to Matrix<Sparse,double> if the occupations above the
single and the double precision significance threshold are small enough, but
the elements between both thresholds were dropped.
---
 include/BlasBooster/Core/MatrixConverter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/MatrixConverter.h b/include/BlasBooster/Core/MatrixConverter.h
index cac376e..f779e90 100644
--- a/include/BlasBooster/Core/MatrixConverter.h
+++ b/include/BlasBooster/Core/MatrixConverter.h
@@ -72,7 +72,7 @@ struct ConversionFunctor<M1,T1,P1,Matrix<Sparse,double,P2> >
     DynamicMatrix operator () (Matrix<M1,T1,P1> const& matrix, Threshold const& threshold) const
     {
         return DynamicMatrix(new Matrix<Sparse,double,P2>(matrix,
-            AbsoluteValueRangeChecker<double>(threshold.getSignificanceThreshold<float>())));
+            AbsoluteValueRangeChecker<double>(threshold.getSignificanceThreshold<double>())));
     }
 };
 
-- 
2.43.0


From 651ce618e43ccd337902ee6c32916a1b7ca5322f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:50 +0000
Subject: [PATCH 19/55] fix: single precision occupation threshold of the zero
 matrix was ignored

---
 include/BlasBooster/Core/Threshold.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/Threshold.h b/include/BlasBooster/Core/Threshold.h
index 66591c7..75cec0a 100644
--- a/include/BlasBooster/Core/Threshold.h
+++ b/include/BlasBooster/Core/Threshold.h
@@ -170,7 +170,7 @@ struct OccupationThresholdDistributor<Matrix<Dense,double>,double>
 template <>
 struct OccupationThresholdDistributor<Matrix<Zero>,float>
 {
-    ThresholdType operator () (Threshold const& threshold) const { return threshold.settings.occupationThresholdMatrixZeroDoublePrecision; }
+    ThresholdType operator () (Threshold const& threshold) const { return threshold.settings.occupationThresholdMatrixZeroSinglePrecision; }
 };
 
 template <>
-- 
2.43.0


From 8fc1457cedf3fcc4556506ba00983daefde6852e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:50 +0000
Subject: [PATCH 20/55] fix: block types were counted onto uninitialised memory

---
 include/BlasBooster/Core/GenerateTypeMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/GenerateTypeMatrix.h b/include/BlasBooster/Core/GenerateTypeMatrix.h
index 6616c5e..a637071 100644
--- a/include/BlasBooster/Core/GenerateTypeMatrix.h
+++ b/include/BlasBooster/Core/GenerateTypeMatrix.h
@@ -26,7 +26,7 @@ inline TypeMatrix generateTypeMatrix(BlockedDenseMatrix const& matrix)
 
 inline std::array<size_t, GetSize<DynamicMatrixTypeList>::value> get_type_counting(BlockedDenseMatrix const& matrix)
 {
-    std::array<size_t, GetSize<DynamicMatrixTypeList>::value> type_counting;
+    std::array<size_t, GetSize<DynamicMatrixTypeList>::value> type_counting{};
     for (auto&& submatrix : matrix) ++type_counting[submatrix->getTypeIndex()];
     return type_counting;
 }
-- 
2.43.0


From 0f91ecfe603c743eb5fc4945555aaa7c9bf164f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:59 +0000
Subject: [PATCH 21/55] fix: block size generator read uninitialised indices if
 no index can divide its block

Depending on the stack content the loop did not terminate or a border outside
of the matrix was inserted.
---
 include/BlasBooster/Core/BlockSizeGenerator.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/BlockSizeGenerator.h b/include/BlasBooster/Core/BlockSizeGenerator.h
index 34432da..84c5db8 100644
--- a/include/BlasBooster/Core/BlockSizeGenerator.h
+++ b/include/BlasBooster/Core/BlockSizeGenerator.h
@@ -162,7 +162,7 @@ std::vector<size_t> BlockSizeGenerator::get_block_size(std::vector<T> const& det
         while (!equal_indices.empty()) {
             size_t largest_min = 0;
             size_t idx, left_idx, left, right;
-            size_t next_j, next_idx, next_left_idx, next_left, next_right;
+            size_t next_j = 0, next_idx = 0, next_left_idx = 0, next_left = 0, next_right = 0;
             for (auto const& j : equal_indices) {
                 idx = sorted_indices[j] + 1;
                 left_idx = *(std::prev(borders.lower_bound(idx)));
@@ -180,6 +180,8 @@ std::vector<size_t> BlockSizeGenerator::get_block_size(std::vector<T> const& det
                     next_right = right;
                 }
             }
+            // None of the remaining indices can divide its block
+            if (largest_min == 0) break;
             equal_indices.erase(next_j);
             borders.insert(next_idx);
             if (large_blocks.find(next_left_idx) != large_blocks.end())
-- 
2.43.0


From 5464b2ca8aa4b704c2533706c5b0d8fbf5f0fcae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 22/55] fix: submatrix of a submatrix used the wrong leading
 dimension

---
 include/BlasBooster/Core/DenseMatrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 0a3cfe4..5ebd23b 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -482,10 +482,10 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, typename P::IndexTyp
         U::isSubMatrix
     >::type*)
  : dimension(nbRows,nbColumns),
-   leadingDimension(other.getNbRows(),other.getNbColumns()),
+   leadingDimension(other.getLdRows(),other.getLdColumns()),
    // TODO: avoid const_cast
-   storage(const_cast<T2*>(other.getDataPointer() + beginRow + beginColumn * other.getNbRows()),
-       nbRows, nbColumns, other.getNbRows() - nbRows)
+   storage(const_cast<T2*>(other.getDataPointer() + beginRow + beginColumn * other.getLdRows()),
+       nbRows, nbColumns, other.getLdRows() - nbRows)
 {}
 
 template <class T, class P>
-- 
2.43.0


From 32cb6ab9416a3d592740d087f273b3502c276190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:14 +0000
Subject: [PATCH 23/55] fix: striped iterators left their window when turning
 back at its ends

---
 include/BlasBooster/Core/Storage.h         | 8 ++++----
 include/BlasBooster/Core/StripedIterator.h | 7 +++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/BlasBooster/Core/Storage.h b/include/BlasBooster/Core/Storage.h
index 0c68aee..299b337 100644
--- a/include/BlasBooster/Core/Storage.h
+++ b/include/BlasBooster/Core/Storage.h
@@ -604,19 +604,19 @@ public:
     }
 
     iterator end() {
-        return iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_, continuousSize_, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_, 0, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     const_iterator end() const {
-        return const_iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_, continuousSize_, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
+        return const_iterator(data_ + size_ + (nbBlocks_-1) * separatorSize_, 0, nbBlocks_, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     iterator rend() {
-        return iterator(data_ - 1, continuousSize_, -1, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(data_ - 1, continuousSize_-1, -1, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     const_iterator rend() const {
-        return iterator(data_ - 1, continuousSize_, -1, continuousSize_, separatorSize_, nbBlocks_);
+        return iterator(data_ - 1, continuousSize_-1, -1, continuousSize_, separatorSize_, nbBlocks_);
     }
 
     size_t size() const {
diff --git a/include/BlasBooster/Core/StripedIterator.h b/include/BlasBooster/Core/StripedIterator.h
index d0c96cb..e5aa8b3 100644
--- a/include/BlasBooster/Core/StripedIterator.h
+++ b/include/BlasBooster/Core/StripedIterator.h
@@ -49,7 +49,9 @@ public:
     void increment()
     {
         if (position_ == continuousSizeMinus1_) {
-            if (static_cast<size_t>(++block_) == nbBlocks_) ++iter_;
+            // No separator in front of the first and behind the last block
+            ++block_;
+            if (block_ == 0 or static_cast<size_t>(block_) == nbBlocks_) ++iter_;
             else iter_ += separatorSizePlus1_;
             position_ = 0;
         } else {
@@ -61,7 +63,8 @@ public:
     void decrement()
     {
         if (position_ == 0) {
-            if (--block_ == -1) --iter_;
+            --block_;
+            if (block_ == -1 or static_cast<size_t>(block_) + 1 == nbBlocks_) --iter_;
             else iter_ -= separatorSizePlus1_;
             position_ = continuousSizeMinus1_;
         } else {
-- 
2.43.0


From 6b169cefabf1b005cab16d515c87260caf3eca50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:04 +0000
Subject: [PATCH 24/55] fix: calls of trackers in concurrent threads got lost

---
 include/BlasBooster/Utilities/Tracker.h | 10 ++++++----
 src/Utilities/tracker.cpp               |  4 ++--
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/BlasBooster/Utilities/Tracker.h b/include/BlasBooster/Utilities/Tracker.h
index e2373a7..e29bda1 100644
--- a/include/BlasBooster/Utilities/Tracker.h
+++ b/include/BlasBooster/Utilities/Tracker.h
@@ -2,6 +2,7 @@
 
 #include <stddef.h>
 #include <array>
+#include <atomic>
 #include <chrono>
 #include <iostream>
 #include <iomanip>
@@ -76,7 +77,7 @@ enum class TrackerID {
     {
         static void add(TrackerID id, clock::duration const& duration)
         {
-            time[static_cast<size_t>(id)] += duration;
+            time[static_cast<size_t>(id)] += duration.count();
             ++count[static_cast<size_t>(id)];
         }
 
@@ -93,14 +94,15 @@ enum class TrackerID {
                 if (count[i] == 0) continue;
                 os << std::setw(20) << EnumParser<TrackerID>()(static_cast<TrackerID>(i))
                    << std::setw(10) << count[i]
-                   << time[i].count() << " ns"
+                   << time[i] << " ns"
                    << std::endl;
             }
             return os;
         }
 
-        static std::array<clock::duration, static_cast<size_t>(TrackerID::size)> time;
-        static std::array<size_t, static_cast<size_t>(TrackerID::size)> count;
+        // Trackers may be used by several threads at the same time
+        static std::array<std::atomic<clock::duration::rep>, static_cast<size_t>(TrackerID::size)> time;
+        static std::array<std::atomic<size_t>, static_cast<size_t>(TrackerID::size)> count;
     };
 
     template <TrackerID ID>
diff --git a/src/Utilities/tracker.cpp b/src/Utilities/tracker.cpp
index 3e07e0a..0c009ec 100644
--- a/src/Utilities/tracker.cpp
+++ b/src/Utilities/tracker.cpp
@@ -3,6 +3,6 @@
 using namespace BlasBooster;
 
 #ifdef BLASBOOSTER_USE_TRACKER
-    std::array<clock::duration, static_cast<size_t>(TrackerID::size)> TrackerRegister::time;
-    std::array<size_t, static_cast<size_t>(TrackerID::size)> TrackerRegister::count;
+    std::array<std::atomic<clock::duration::rep>, static_cast<size_t>(TrackerID::size)> TrackerRegister::time;
+    std::array<std::atomic<size_t>, static_cast<size_t>(TrackerID::size)> TrackerRegister::count;
 #endif
-- 
2.43.0


From ede0376bf6430c90833b61bce28dd3219e3b5aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:05 +0000
Subject: [PATCH 25/55] fix: trackers and timers measured steps of the wall
 clock

---
 include/BlasBooster/Utilities/ScopedTimer.h | 2 +-
 include/BlasBooster/Utilities/Tracker.h     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Utilities/ScopedTimer.h b/include/BlasBooster/Utilities/ScopedTimer.h
index 753f414..0320361 100644
--- a/include/BlasBooster/Utilities/ScopedTimer.h
+++ b/include/BlasBooster/Utilities/ScopedTimer.h
@@ -7,7 +7,7 @@
 
 class ScopedTimer
 {
-    using clock = std::chrono::high_resolution_clock;
+    using clock = std::chrono::steady_clock;
 
 public:
 
diff --git a/include/BlasBooster/Utilities/Tracker.h b/include/BlasBooster/Utilities/Tracker.h
index e29bda1..bd195dc 100644
--- a/include/BlasBooster/Utilities/Tracker.h
+++ b/include/BlasBooster/Utilities/Tracker.h
@@ -41,7 +41,7 @@ enum class TrackerID {
 };
 
 #ifdef BLASBOOSTER_USE_TRACKER
-    using clock = std::chrono::high_resolution_clock;
+    using clock = std::chrono::steady_clock;
 
     template <>
     inline EnumParser<TrackerID>::EnumParser()
-- 
2.43.0


From 51b8ee73f15acb90d7acc4b093016b18cf27d192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:05 +0000
Subject: [PATCH 26/55] fix: scoped timer left its number format in std::cout

---
 include/BlasBooster/Utilities/ScopedTimer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/BlasBooster/Utilities/ScopedTimer.h b/include/BlasBooster/Utilities/ScopedTimer.h
index 0320361..8daeff4 100644
--- a/include/BlasBooster/Utilities/ScopedTimer.h
+++ b/include/BlasBooster/Utilities/ScopedTimer.h
@@ -18,8 +18,12 @@ public:
     virtual ~ScopedTimer()
     {
         std::chrono::duration<double> elapsed_seconds = clock::now() - start;
+        auto const flags = std::cout.flags();
+        auto const oldPrecision = std::cout.precision();
         std::cout << std::fixed << std::setprecision(precision)
                   << label << ": " << elapsed_seconds.count() << " s" << std::endl;
+        std::cout.flags(flags);
+        std::cout.precision(oldPrecision);
     }
 
 private:
-- 
2.43.0


From 3075648017362418c397607ddf4742814f751432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:05 +0000
Subject: [PATCH 27/55] fix: tracker report printed count and time as one
 number

---
 include/BlasBooster/Utilities/Tracker.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Utilities/Tracker.h b/include/BlasBooster/Utilities/Tracker.h
index bd195dc..91d6125 100644
--- a/include/BlasBooster/Utilities/Tracker.h
+++ b/include/BlasBooster/Utilities/Tracker.h
@@ -86,7 +86,7 @@ enum class TrackerID {
             os << "\n"
                << std::setw(20) << "tracker"
                << std::setw(10) << "count"
-               << "time\n"
+               << "  time\n"
                << std::string(60,'-')
                << std::endl;
 
@@ -94,7 +94,7 @@ enum class TrackerID {
                 if (count[i] == 0) continue;
                 os << std::setw(20) << EnumParser<TrackerID>()(static_cast<TrackerID>(i))
                    << std::setw(10) << count[i]
-                   << time[i] << " ns"
+                   << "  " << time[i] << " ns"
                    << std::endl;
             }
             return os;
-- 
2.43.0


From d4191b71bce84efd195b2aac848f3aa7a0eb19f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:59 +0000
Subject: [PATCH 28/55] fix: truncated or contradicting matrix files gave
 matrices with invented elements

---
 include/BlasBooster/Core/MatrixFileIO.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/BlasBooster/Core/MatrixFileIO.h b/include/BlasBooster/Core/MatrixFileIO.h
index 623cea2..779a42f 100644
--- a/include/BlasBooster/Core/MatrixFileIO.h
+++ b/include/BlasBooster/Core/MatrixFileIO.h
@@ -5,6 +5,7 @@
 #include "BrainTwister/Record.h"
 #include <iostream>
 #include <fstream>
+#include <limits>
 // tmp
 #include <boost/property_tree/ptree.hpp>
 #include <boost/property_tree/xml_parser.hpp>
@@ -28,27 +29,35 @@ std::istream& operator >> (std::istream& is, Matrix<Dense,T,P>& matrix)
     boost::property_tree::ptree tree;
     boost::property_tree::read_xml(is, tree);
     MatrixFileSettings settings(tree);
-    matrix.resize(settings.nbRows, settings.nbColumns);
 
-    // Some dimension checks
-    if (settings.nbRows + settings.rowOffset > settings.rowLeadingDimension) throw BlasBoosterException("");
-    if (settings.nbColumns + settings.columnOffset > settings.columnLeadingDimension) throw BlasBoosterException("");
+    // Some dimension checks, the sums and products may overflow
+    if (settings.rowOffset > settings.rowLeadingDimension or
+        settings.nbRows > settings.rowLeadingDimension - settings.rowOffset)
+        throw BlasBoosterException("Row dimensions of matrix file " + settings.filename + " do not fit");
+    if (settings.columnOffset > settings.columnLeadingDimension or
+        settings.nbColumns > settings.columnLeadingDimension - settings.columnOffset)
+        throw BlasBoosterException("Column dimensions of matrix file " + settings.filename + " do not fit");
+    if (settings.columnLeadingDimension != 0 and settings.rowLeadingDimension >
+        static_cast<size_t>(std::numeric_limits<std::streamoff>::max()) / sizeof(T) / settings.columnLeadingDimension)
+        throw BlasBoosterException("Dimensions of matrix file " + settings.filename + " are too large");
 
     std::ifstream is2(settings.filename, std::ifstream::binary);
     if (!is2) throw BlasBoosterException("Can't open file " + settings.filename);
 
+    matrix.resize(settings.nbRows, settings.nbColumns);
     T* dataPointer = matrix.getDataPointer();
 
     if (settings.nbColumns == settings.columnLeadingDimension and settings.nbRows == settings.rowLeadingDimension) {
         is2.read(reinterpret_cast<char*>(dataPointer), settings.nbRows * settings.nbColumns * sizeof(T));
     } else {
-        is2.seekg((settings.columnOffset * settings.rowLeadingDimension + settings.rowOffset) * sizeof(T), is.cur);
+        is2.seekg((settings.columnOffset * settings.rowLeadingDimension + settings.rowOffset) * sizeof(T), is2.cur);
         for (size_t col = 0; col < settings.nbColumns; ++col) {
             is2.read(reinterpret_cast<char*>(dataPointer), settings.nbRows * sizeof(T));
             dataPointer += settings.nbRows;
-            is2.seekg((settings.rowLeadingDimension - settings.nbRows) * sizeof(T), is.cur);
+            is2.seekg((settings.rowLeadingDimension - settings.nbRows) * sizeof(T), is2.cur);
         }
     }
+    if (!is2) throw BlasBoosterException("Error reading file " + settings.filename);
 
     return is;
 }
-- 
2.43.0


From 7ffc1696aaca948265e299b3bac2438c57d21db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 29/55] fix: matrix files were read transposed into row-major
 matrices

---
 include/BlasBooster/Core/MatrixFileIO.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/MatrixFileIO.h b/include/BlasBooster/Core/MatrixFileIO.h
index 779a42f..94694f7 100644
--- a/include/BlasBooster/Core/MatrixFileIO.h
+++ b/include/BlasBooster/Core/MatrixFileIO.h
@@ -6,6 +6,8 @@
 #include <iostream>
 #include <fstream>
 #include <limits>
+#include <type_traits>
+#include <vector>
 // tmp
 #include <boost/property_tree/ptree.hpp>
 #include <boost/property_tree/xml_parser.hpp>
@@ -47,7 +49,16 @@ std::istream& operator >> (std::istream& is, Matrix<Dense,T,P>& matrix)
     matrix.resize(settings.nbRows, settings.nbColumns);
     T* dataPointer = matrix.getDataPointer();
 
-    if (settings.nbColumns == settings.columnLeadingDimension and settings.nbRows == settings.rowLeadingDimension) {
+    if (std::is_same<typename P::orientation, RowMajor>::value) {
+        // The file contains the matrix column by column
+        std::vector<T> column(settings.nbRows);
+        is2.seekg((settings.columnOffset * settings.rowLeadingDimension + settings.rowOffset) * sizeof(T), is2.cur);
+        for (size_t col = 0; col < settings.nbColumns; ++col) {
+            is2.read(reinterpret_cast<char*>(column.data()), settings.nbRows * sizeof(T));
+            for (size_t row = 0; row < settings.nbRows; ++row) matrix(row,col) = column[row];
+            is2.seekg((settings.rowLeadingDimension - settings.nbRows) * sizeof(T), is2.cur);
+        }
+    } else if (settings.nbColumns == settings.columnLeadingDimension and settings.nbRows == settings.rowLeadingDimension) {
         is2.read(reinterpret_cast<char*>(dataPointer), settings.nbRows * settings.nbColumns * sizeof(T));
     } else {
         is2.seekg((settings.columnOffset * settings.rowLeadingDimension + settings.rowOffset) * sizeof(T), is2.cur);
-- 
2.43.0


From 376cb378f184b88d4276d3691ee85599ee44d447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 30/55] fix: importing a matrix with overflowing dimensions
 gave a matrix without elements

---
 src/MatrixFactory/MatrixFileImporter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/MatrixFactory/MatrixFileImporter.cpp b/src/MatrixFactory/MatrixFileImporter.cpp
index 69f198a..6125897 100644
--- a/src/MatrixFactory/MatrixFileImporter.cpp
+++ b/src/MatrixFactory/MatrixFileImporter.cpp
@@ -1,6 +1,7 @@
 #include "BlasBooster/MatrixFactory/MatrixFileImporter.h"
 #include "BlasBooster/Utilities/BlasBoosterException.h"
 #include <fstream>
+#include <limits>
 
 namespace BlasBooster {
 
@@ -12,6 +13,9 @@ MatrixFileImporter::MatrixFileImporter(filesystem::path const& file)
         throw BlasBoosterException("Can't open file " + file.string());
     if (!(is >> nbRows >> nbColumns >> dataFile))
         throw BlasBoosterException("Error reading file " + file.string());
+    if (nbColumns != 0 and nbRows >
+        static_cast<size_t>(std::numeric_limits<std::streamsize>::max()) / sizeof(double) / nbColumns)
+        throw BlasBoosterException("Dimensions in file " + file.string() + " are too large");
 }
 
 Matrix<Dense,double> MatrixFileImporter::operator()() const
-- 
2.43.0


From ef7ce19236b6a0b570ad1f9a246fbc90c379ce75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 31/55] fix: failing writes of settings files were not
 reported; existing files could be overwritten

---
 include/BlasBooster/Utilities/FileIO.h | 41 +++++++++++++++++++++-----
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/include/BlasBooster/Utilities/FileIO.h b/include/BlasBooster/Utilities/FileIO.h
index 3b32196..71a81c3 100644
--- a/include/BlasBooster/Utilities/FileIO.h
+++ b/include/BlasBooster/Utilities/FileIO.h
@@ -7,11 +7,28 @@
 #include <boost/archive/xml_oarchive.hpp>
 #include <boost/filesystem.hpp>
 #include <boost/serialization/nvp.hpp>
+#include <cerrno>
+#include <cstdio>
 #include <fstream>
 #include <string>
 
 namespace BlasBooster {
 
+/// Open a file for writing, which must not exist if overwrite is false
+inline void openForWriting( std::ofstream& out, const boost::filesystem::path& filename, bool overwrite,
+    const std::string& caller )
+{
+    if (!overwrite) {
+        // Check and creation are a single step, because others may create the file at the same time
+        std::FILE* file = std::fopen(filename.string().c_str(), "wx");
+        if (!file and errno == EEXIST) throw BlasBoosterException(caller + ": " + filename.string() + " exist");
+        if (!file) throw BlasBoosterException(caller + ": Can't open " + filename.string());
+        std::fclose(file);
+    }
+    out.open(filename.string().c_str());
+    if (!out) throw BlasBoosterException(caller + ": Can't open " + filename.string());
+}
+
 template <class T>
 void readXML( T& settings, const std::string& name, const boost::filesystem::path& filename )
 {
@@ -25,10 +42,14 @@ template <class T>
 void writeXML( T& settings, const std::string& name, const boost::filesystem::path& filename,
     bool overwrite = true )
 {
-    if (!overwrite and exists(filename)) throw BlasBoosterException("writeXML: " + filename.string() + " exist");
-    std::ofstream out(filename.string().c_str());
-    boost::archive::xml_oarchive oa(out);
-    oa << boost::serialization::make_nvp(name.c_str(),settings);
+    std::ofstream out;
+    openForWriting(out,filename,overwrite,"writeXML");
+    {
+        boost::archive::xml_oarchive oa(out);
+        oa << boost::serialization::make_nvp(name.c_str(),settings);
+    }
+    out.close();
+    if (!out) throw BlasBoosterException("writeXML: Error writing " + filename.string());
 }
 
 template <class T>
@@ -44,10 +65,14 @@ template <class T>
 void writeBinary( T& settings, const std::string& name, const boost::filesystem::path& filename,
     bool overwrite = true )
 {
-    if (!overwrite and exists(filename)) throw BlasBoosterException("writeBinary: " + filename.string() + " exist");
-    std::ofstream out(filename.string().c_str());
-    boost::archive::binary_oarchive oa(out);
-    oa << boost::serialization::make_nvp(name.c_str(),settings);
+    std::ofstream out;
+    openForWriting(out,filename,overwrite,"writeBinary");
+    {
+        boost::archive::binary_oarchive oa(out);
+        oa << boost::serialization::make_nvp(name.c_str(),settings);
+    }
+    out.close();
+    if (!out) throw BlasBoosterException("writeBinary: Error writing " + filename.string());
 }
 
 } // namespace BlasBooster
-- 
2.43.0


From d1df5727f3ede5f0fc896fc30381871339d1c1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:32 +0000
Subject: [PATCH 32/55] fix: failing writes of pattern images were not reported

---
 include/BlasBooster/Core/PatternGenerator.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/BlasBooster/Core/PatternGenerator.h b/include/BlasBooster/Core/PatternGenerator.h
index 8c79a20..187b773 100644
--- a/include/BlasBooster/Core/PatternGenerator.h
+++ b/include/BlasBooster/Core/PatternGenerator.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include "BlasBooster/Utilities/BlasBoosterException.h"
 #include "BlasBooster/Utilities/FileIO.h"
 #include "BlasBooster/Utilities/Filesystem.h"
 #include "BrainTwister/Record.h"
@@ -45,6 +46,7 @@ template <class T, class P>
 void PatternGenerator::operator()(Matrix<Dense,T,P> const& matrix, filesystem::path const& file) const
 {
     std::ofstream outfile(file.string());
+    if (!outfile) throw BlasBoosterException("PatternGenerator: Can't open file " + file.string());
 
     // <width> <height> <colors> <char on pixel>
     outfile << "/* XPM */\nstatic char * matrix_xpm[] = {\n\""
@@ -102,6 +104,9 @@ void PatternGenerator::operator()(Matrix<Dense,T,P> const& matrix, filesystem::p
         else outfile << "\"," << std::endl;
     }
     outfile << "};" << std::endl;
+
+    outfile.close();
+    if (!outfile) throw BlasBoosterException("PatternGenerator: Error writing file " + file.string());
 }
 
 } // namespace BlasBooster
-- 
2.43.0


From 65e7ec8a3e96d729e1303e56df56983e3df35596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:34 +0000
Subject: [PATCH 33/55] fix: reading a settings file torn in its closing tag
 ended the program

---
 include/BlasBooster/Utilities/FileIO.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Utilities/FileIO.h b/include/BlasBooster/Utilities/FileIO.h
index 71a81c3..6ef474d 100644
--- a/include/BlasBooster/Utilities/FileIO.h
+++ b/include/BlasBooster/Utilities/FileIO.h
@@ -10,6 +10,7 @@
 #include <cerrno>
 #include <cstdio>
 #include <fstream>
+#include <sstream>
 #include <string>
 
 namespace BlasBooster {
@@ -34,8 +35,18 @@ void readXML( T& settings, const std::string& name, const boost::filesystem::pat
 {
     if (!exists(filename)) throw BlasBoosterException("readXML: " + filename.string() + " not exist");
     std::ifstream in(filename.string().c_str());
-    boost::archive::xml_iarchive ia(in);
+    if (!in) throw BlasBoosterException("readXML: Can't open " + filename.string());
+    std::stringstream buffer;
+    buffer << in.rdbuf();
+    if (!in or !buffer) throw BlasBoosterException("readXML: Error reading " + filename.string());
+    boost::archive::xml_iarchive ia(buffer);
     ia >> boost::serialization::make_nvp(name.c_str(),settings);
+    // The destructor of the archive would end the program if it can't find its closing tag,
+    // which is not read in case of an exception
+    std::string closingTag;
+    if (!(buffer >> std::ws >> closingTag) or closingTag != "</boost_serialization>")
+        throw BlasBoosterException("readXML: " + filename.string() + " is incomplete");
+    buffer.seekg(-static_cast<std::streamoff>(closingTag.size()), std::ios::cur);
 }
 
 template <class T>
-- 
2.43.0


From c3e2b33a70caecc74906117da926518bdbfa4e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:35 +0000
Subject: [PATCH 34/55] fix: a failing flush of a binary settings file was not
 reported

---
 include/BlasBooster/Utilities/FileIO.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/BlasBooster/Utilities/FileIO.h b/include/BlasBooster/Utilities/FileIO.h
index 6ef474d..2257ca4 100644
--- a/include/BlasBooster/Utilities/FileIO.h
+++ b/include/BlasBooster/Utilities/FileIO.h
@@ -81,6 +81,8 @@ void writeBinary( T& settings, const std::string& name, const boost::filesystem:
     {
         boost::archive::binary_oarchive oa(out);
         oa << boost::serialization::make_nvp(name.c_str(),settings);
+        // The destructor of the archive would ignore an error
+        if (!out.flush()) throw BlasBoosterException("writeBinary: Error writing " + filename.string());
     }
     out.close();
     if (!out) throw BlasBoosterException("writeBinary: Error writing " + filename.string());
-- 
2.43.0


From 8fa6c4700014a371b5f68154edfc3f2328473ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:34 +0000
Subject: [PATCH 35/55] fix: contradicting significance thresholds dropped
 significant elements

---
 include/BlasBooster/Core/MatrixConverter.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/BlasBooster/Core/MatrixConverter.h b/include/BlasBooster/Core/MatrixConverter.h
index f779e90..b7d5000 100644
--- a/include/BlasBooster/Core/MatrixConverter.h
+++ b/include/BlasBooster/Core/MatrixConverter.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "BlasBooster/Core/AbsoluteValueRangeChecker.h"
+#include "BlasBooster/Core/CoreException.h"
 #include "BlasBooster/Core/Matrix.h"
 #include "BlasBooster/Core/Threshold.h"
 #include "BlasBooster/Utilities/exec_if.h"
@@ -140,6 +141,9 @@ struct MatrixConverter
     template <class M, class T, class P>
     DynamicMatrix operator () (Matrix<M,T,P> const& matrix, Threshold const& threshold) const
     {
+        if (threshold.getSignificanceThreshold<float>() < threshold.getSignificanceThreshold<double>())
+            throw CoreException("MatrixConverter: significance threshold of single precision is smaller than of double precision");
+
         return exec_if<DynamicMatrixTypeList>(
             IsConvertibleChecker<M,T,P>(matrix, threshold),
             DynamicConversionFunctor<M,T,P>(matrix, threshold)
-- 
2.43.0


From fc3e57f0cd0ca4f9da7564818beff228eba5aee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:58 +0000
Subject: [PATCH 36/55] fix: one print manipulator index for all translation
 units

fullprint and the printing of a matrix instantiated in different translation
units used different indices, so that fullprint had no effect.
---
 include/BlasBooster/Core/MatrixIO.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/MatrixIO.h b/include/BlasBooster/Core/MatrixIO.h
index 7fc91e8..1c33b96 100644
--- a/include/BlasBooster/Core/MatrixIO.h
+++ b/include/BlasBooster/Core/MatrixIO.h
@@ -10,7 +10,7 @@
 namespace BlasBooster {
 
 /// Matrix print manipulator for full information
-static int const matrixPrintIndex = std::ios_base::xalloc();
+inline int const matrixPrintIndex = std::ios_base::xalloc();
 
 inline std::ostream& fullprint(std::ostream& stream)
 {
-- 
2.43.0


From 782104b4b4d99fbafae771bebc82642f68d206ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:58 +0000
Subject: [PATCH 37/55] fix: printing a dense matrix reports a failing
 allocation

The measuring stream swallowed the failure and the columns were printed
without separation.
---
 include/BlasBooster/Core/MatrixIO.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/BlasBooster/Core/MatrixIO.h b/include/BlasBooster/Core/MatrixIO.h
index 1c33b96..57e96a2 100644
--- a/include/BlasBooster/Core/MatrixIO.h
+++ b/include/BlasBooster/Core/MatrixIO.h
@@ -66,6 +66,7 @@ struct MatrixPrintFunctor<Dense,T,P>
                     columnEnd(A,rowCur.end()); columnCur != columnEnd; ++columnCur, ++widthCur )
                 {
                     std::stringstream element;
+                    element.exceptions(std::ios_base::badbit);
                     element << std::scientific << std::setprecision(10) << *columnCur;
                     *widthCur = std::max(*widthCur,element.str().size());
                 }
-- 
2.43.0


From 7ecdea87b7f91953c27768a255703cd7049aed26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:40 +0000
Subject: [PATCH 38/55] fix: generate_matrix wrote outside of non-square and
 narrow matrices

---
 src/Benchmark/generate_matrix.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/Benchmark/generate_matrix.cpp b/src/Benchmark/generate_matrix.cpp
index 69d79e8..25072e4 100644
--- a/src/Benchmark/generate_matrix.cpp
+++ b/src/Benchmark/generate_matrix.cpp
@@ -3,6 +3,7 @@
 #include "BlasBooster/Utilities/BlasBoosterException.h"
 #include "BlasBooster/Utilities/Version.h"
 #include "clara.hpp"
+#include <algorithm>
 #include <fstream>
 
 using namespace BlasBooster;
@@ -45,11 +46,9 @@ int main(int argc, char* argv[])
 
         if (type == "band") {
             matrix = Matrix<Dense, double>{rows, cols, AllFiller<double>{0.0}};
-            for (size_t b = 0; b != band_width; ++b) {
-                for (size_t i = 0; i != rows-b; ++i) {
-                    matrix(i+b,i) = value;
-                    matrix(i,i+b) = value;
-                }
+            for (size_t b = 0; b < std::min(band_width, std::max(rows, cols)); ++b) {
+                for (size_t i = 0; i + b < rows && i < cols; ++i) matrix(i+b,i) = value;
+                for (size_t i = 0; i < rows && i + b < cols; ++i) matrix(i,i+b) = value;
             }
         } else {
             DynamicMatrix D(new Matrix<Dense,double>(1000, 1000, DiagonalFiller<double>(0.1)));
-- 
2.43.0


From 6ae73796cd4e2bdea2360457a58fef2551cea775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:40 +0000
Subject: [PATCH 39/55] fix: generate_matrix reports a file that could not be
 written

---
 src/Benchmark/generate_matrix.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Benchmark/generate_matrix.cpp b/src/Benchmark/generate_matrix.cpp
index 25072e4..869fa73 100644
--- a/src/Benchmark/generate_matrix.cpp
+++ b/src/Benchmark/generate_matrix.cpp
@@ -61,6 +61,8 @@ int main(int argc, char* argv[])
 
         std::ofstream os(matrix_file, std::ofstream::binary);
         os.write(reinterpret_cast<const char*>(matrix.getDataPointer()), matrix.getSize()*sizeof(double));
+        os.close();
+        if (!os) throw BlasBoosterException("Error writing file " + matrix_file);
 
     } catch ( BlasBoosterException const& e ) {
         std::cout << "BlasBooster exception: " << e.what() << std::endl;
-- 
2.43.0


From 5907a24fd6871a57ada86198f0dca10061f84b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:40 +0000
Subject: [PATCH 40/55] fix: show_pattern drew borders wider than a block
 outside of it

---
 src/Benchmark/show_pattern.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/Benchmark/show_pattern.cpp b/src/Benchmark/show_pattern.cpp
index 296292c..c8ded3c 100644
--- a/src/Benchmark/show_pattern.cpp
+++ b/src/Benchmark/show_pattern.cpp
@@ -111,9 +111,10 @@ int main(int argc, char* argv[])
 
                     AllFiller<double>(std::pow(10, -1.0 * (*type_column_cur)))(sub_matrix);
 
-                    for (int i = 0; i != border_width; ++i) {
-                        for (size_t j = 0; j != (*dim_column_cur).first; ++j) sub_matrix(j,i) = 0.0;
-                        for (size_t j = border_width; j != (*dim_column_cur).second; ++j) sub_matrix(i,j) = 0.0;
+                    for (size_t j = 0; j != (*dim_column_cur).second; ++j) {
+                        for (size_t i = 0; i != (*dim_column_cur).first; ++i) {
+                            if (static_cast<long>(i) < border_width || static_cast<long>(j) < border_width) sub_matrix(i,j) = 0.0;
+                        }
                     }
 
                     // TODO: rowOffset is ideally determined one time (all submatrices in a column have the same row size).
-- 
2.43.0


From 65e81bbdd111c1d9d88aeb68c982735a4c6f984e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:40 +0000
Subject: [PATCH 41/55] fix: DiagonalBand matrices with a band wider than the
 matrix were written out of bounds

---
 src/Benchmark/MatrixProvider.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Benchmark/MatrixProvider.cpp b/src/Benchmark/MatrixProvider.cpp
index 709bb84..2c0d540 100644
--- a/src/Benchmark/MatrixProvider.cpp
+++ b/src/Benchmark/MatrixProvider.cpp
@@ -1,4 +1,5 @@
 #include "MatrixProvider.h"
+#include <algorithm>
 #include <iostream>
 
 namespace BlasBooster {
@@ -25,7 +26,7 @@ MatrixProvider::MatrixProvider(ptree const& tree)
                 for (auto&& dim : dim_list) {
                     for (auto&& band_width : band_width_list) {
                         Matrix<Dense, double> matrix(dim, dim, AllFiller<double>(0.0));
-                        for (size_t b = 0; b != band_width; ++b) {
+                        for (size_t b = 0; b < std::min(band_width, dim); ++b) {
                             for (size_t i = 0; i != dim-b; ++i) {
                                 matrix(i+b, i) = value;
                                 matrix(i, i+b) = value;
-- 
2.43.0


From b78c594fdfb615a32547edfd17c842173340b6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:40 +0000
Subject: [PATCH 42/55] fix: unknown matrix sets and kinds of matrices are
 reported

---
 src/Benchmark/MatrixProvider.cpp | 3 ++-
 src/Benchmark/MatrixProvider.h   | 8 +++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Benchmark/MatrixProvider.cpp b/src/Benchmark/MatrixProvider.cpp
index 2c0d540..eaeb854 100644
--- a/src/Benchmark/MatrixProvider.cpp
+++ b/src/Benchmark/MatrixProvider.cpp
@@ -1,6 +1,7 @@
 #include "MatrixProvider.h"
 #include <algorithm>
 #include <iostream>
+#include <stdexcept>
 
 namespace BlasBooster {
 
@@ -42,7 +43,7 @@ MatrixProvider::MatrixProvider(ptree const& tree)
                 auto&& filename = type_leaf.second.get_value<std::string>();
                 matrix_set[name_leaf.first].push_back(Matrix<Dense, double>(filename));
             } else {
-                std::runtime_error("Unknown matrix_set type.");
+                throw std::runtime_error("Unknown matrix_set type: " + type_leaf.first);
             }
         }
     }
diff --git a/src/Benchmark/MatrixProvider.h b/src/Benchmark/MatrixProvider.h
index 44f30ae..5ca1514 100644
--- a/src/Benchmark/MatrixProvider.h
+++ b/src/Benchmark/MatrixProvider.h
@@ -3,6 +3,7 @@
 #include "BlasBooster/Core/DenseMatrix.h"
 #include <boost/property_tree/ptree.hpp>
 #include "BrainTwister/Record.h"
+#include <stdexcept>
 #include <string>
 #include <unordered_map>
 #include <vector>
@@ -24,7 +25,12 @@ public:
 
     bool operator == (MatrixProvider const& other) const { return matrix_set == other.matrix_set; }
 
-    MatrixList get(std::string const& name) const { return matrix_set.find(name)->second; }
+    MatrixList get(std::string const& name) const
+    {
+        auto const iter = matrix_set.find(name);
+        if (iter == matrix_set.end()) throw std::runtime_error("Unknown matrix set: " + name);
+        return iter->second;
+    }
 
 private:
 
-- 
2.43.0


From f0315baf039cc6c66d9ca6eff7969d56f0277356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:40 +0000
Subject: [PATCH 43/55] fix: unknown benchmark actions are reported

---
 src/Benchmark/ActionProvider.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Benchmark/ActionProvider.cpp b/src/Benchmark/ActionProvider.cpp
index a278dcb..3db6967 100644
--- a/src/Benchmark/ActionProvider.cpp
+++ b/src/Benchmark/ActionProvider.cpp
@@ -101,7 +101,7 @@ ActionProvider::ActionProvider(ptree const& tree)
 //    	if (leaf.first == "blasbooster_sparse_float") {
 //    		action_list.push_back(std::make_shared<Action_blasbooster_sparse_float>(leaf.second));
         } else {
-            std::runtime_error(std::string("Unknown action: ") + leaf.first);
+            throw std::runtime_error(std::string("Unknown action: ") + leaf.first);
         }
     }
 }
-- 
2.43.0


From 4226f211b84132913b54caad52a6d4f28eef7af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:40 +0000
Subject: [PATCH 44/55] fix: benchmark reports a difference file that could not
 be written

---
 src/Benchmark/benchmark.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Benchmark/benchmark.cpp b/src/Benchmark/benchmark.cpp
index 5c615b5..2bf844f 100644
--- a/src/Benchmark/benchmark.cpp
+++ b/src/Benchmark/benchmark.cpp
@@ -111,6 +111,8 @@ int main(int argc, char* argv[])
                 if (write_diff) {
                     std::ofstream os(std::string("diff_") + std::to_string(i) + ".dat", std::ofstream::binary);
                     os.write(reinterpret_cast<const char*>(diff.getDataPointer()), diff.getSize()*sizeof(double));
+                    os.close();
+                    if (!os) throw std::runtime_error("Error writing file diff_" + std::to_string(i) + ".dat");
                 }
             }
         }
-- 
2.43.0


From b08ec5bc18615191b63016e4fcb4c60a8bc4612a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:05 +0000
Subject: [PATCH 45/55] fix: dense matrices with overflowing dimensions got too
 few elements

---
 include/BlasBooster/Core/DenseMatrix.h  | 8 ++++----
 include/BlasBooster/Core/Dimension.h    | 9 +++++++++
 include/BlasBooster/Core/SparseMatrix.h | 2 +-
 3 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 5ebd23b..3d94577 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -396,7 +396,7 @@ template <class Filler, class U>
 Matrix<Dense,T,P>::Matrix(typename P::IndexType nbRows, typename P::IndexType nbColumns, Filler const& filler,
     typename std::enable_if<!std::is_same<U, DynamicMatrix>::value>::type*)
  : dimension(nbRows,nbColumns),
-   storage(nbRows*nbColumns)
+   storage(getNbElements(nbRows, nbColumns))
 {
     filler(*this);
 }
@@ -408,7 +408,7 @@ Matrix<Dense,T,P>::Matrix(typename P::IndexType nbRows, typename P::IndexType nb
     typename std::enable_if<std::is_same<U, DynamicMatrix>::value>::type*)
  : dimension(nbRows,nbColumns),
    unblockedDimension(nbUnblockedRows,nbUnblockedColumns),
-   storage(nbRows*nbColumns)
+   storage(getNbElements(nbRows, nbColumns))
 {}
 
 template <class T, class P>
@@ -745,7 +745,7 @@ void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexTy
     typename std::enable_if<!std::is_same<U, DynamicMatrix>::value>::type*)
 {
     resetCaches();
-    static_cast<storage*>(this)->resize(nbRows * nbColumns);
+    static_cast<storage*>(this)->resize(getNbElements(nbRows, nbColumns));
     static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     filler(*this);
 }
@@ -757,7 +757,7 @@ void Matrix<Dense,T,P>::resize(typename P::IndexType nbRows, typename P::IndexTy
     typename std::enable_if<std::is_same<U, DynamicMatrix>::value>::type*)
 {
     resetCaches();
-    static_cast<storage*>(this)->resize(nbRows*nbColumns);
+    static_cast<storage*>(this)->resize(getNbElements(nbRows, nbColumns));
     static_cast<dimension*>(this)->resize(nbRows, nbColumns);
     this->ubRows_ = nbUnblockedRows;
     this->ubColumns_ = nbUnblockedColumns;
diff --git a/include/BlasBooster/Core/Dimension.h b/include/BlasBooster/Core/Dimension.h
index e9a61cd..67a9201 100644
--- a/include/BlasBooster/Core/Dimension.h
+++ b/include/BlasBooster/Core/Dimension.h
@@ -3,6 +3,8 @@
 #include "BlasBooster/Utilities/Noexcept.h"
 #include <boost/serialization/access.hpp>
 #include <cstddef>
+#include <limits>
+#include <new>
 #include <utility>
 
 namespace BlasBooster {
@@ -24,6 +26,13 @@ struct FixedSize
 /// Dimension is determined during run-time.
 struct VariableSize {};
 
+/// Number of elements of a completely stored matrix, an allocation failure if it can't be represented
+inline size_t getNbElements(size_t nbRows, size_t nbColumns)
+{
+    if (nbColumns != 0 and nbRows > std::numeric_limits<size_t>::max() / nbColumns) throw std::bad_alloc();
+    return nbRows * nbColumns;
+}
+
 template <class SizeArg, class OrientationArg>
 struct Dimension
 {
diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index 0040e69..a621bd9 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -196,7 +196,7 @@ template <class Filler>
 Matrix<Sparse,T,P>::Matrix(typename P::IndexType nbRows, typename P::IndexType nbColumns,
     typename P::IndexType nbSignificantElements, Filler const& filler)
  : dimension(nbRows, nbColumns),
-   storage(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, nbColumns + 1)
+   storage(nbSignificantElements ? nbSignificantElements : getNbElements(nbRows, nbColumns), nbColumns + 1)
 {
     filler(*this);
 }
-- 
2.43.0


From 276bd9fd01c8d256ef2e09c16b9a0e1bdff7e731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:19 +0000
Subject: [PATCH 46/55] fix: resizing a sparse matrix to overflowing dimensions
 got too few elements

---
 include/BlasBooster/Core/SparseMatrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/SparseMatrix.h b/include/BlasBooster/Core/SparseMatrix.h
index a621bd9..c5b8fdc 100644
--- a/include/BlasBooster/Core/SparseMatrix.h
+++ b/include/BlasBooster/Core/SparseMatrix.h
@@ -293,7 +293,8 @@ void Matrix<Sparse,T,P>::resize(typename P::IndexType nbRows, typename P::IndexT
     typename P::IndexType nbSignificantElements)
 {
     resetCaches();
-    static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : nbRows*nbColumns, nbColumns + 1);
+    static_cast<storage*>(this)->resize(nbSignificantElements ? nbSignificantElements : getNbElements(nbRows, nbColumns),
+        nbColumns + 1);
     static_cast<dimension*>(this)->resize(nbRows, nbColumns);
 }
 
-- 
2.43.0


From 6d5593e1833f70f544521a14edeca26c64f65594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:35 +0000
Subject: [PATCH 47/55] fix: sums and differences with sparse and zero matrices
 changed or shared an operand using external memory

---
 include/BlasBooster/Core/BinaryFunctors.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index d3fbd23..ddf8af0 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -265,7 +265,8 @@ struct BinaryOperationFunctor<Operation,Dense,T1,P1,Sparse,T2,P2,Dense,T3,P3>
         typename Matrix<Sparse,T2,P2>::const_index_iterator iterKeyBCur, iterKeyBEnd;
         typename Matrix<Sparse,T2,P2>::const_index_iterator iterOffsetBCur(B.beginOffset()), iterOffsetBEnd(B.endOffset() - 1);
 
-        C = A;
+        // The assignment of a matrix using external memory would share it
+        C = Matrix<Dense,T3,P3>(A);
 
         typename Matrix<Dense,T3,P3>::iterator iterCCur(C.begin());
 
@@ -301,7 +302,7 @@ struct BinaryOperationFunctor<Operation,M,T,P,Zero,NullType,P,M,T,P>
 {
     void operator () (Matrix<M,T,P> const& A, Matrix<Zero,NullType,P> const& B, Matrix<M,T,P>& C)
     {
-        C = A;
+        C = Matrix<M,T,P>(A);
     }
 };
 
@@ -311,7 +312,7 @@ struct BinaryOperationFunctor<Operation,Zero,NullType,P,M,T,P,M,T,P>
 {
     void operator () (Matrix<Zero,NullType,P> const& A, Matrix<M,T,P> const& B, Matrix<M,T,P>& C)
     {
-        C = B;
+        C = Matrix<M,T,P>(B);
         for (auto& value : C) UnaryOperation<Operation>()(value,value);
     }
 };
-- 
2.43.0


From 471f0249588993d6d09ab62517b8d929314ffc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:49 +0000
Subject: [PATCH 48/55] fix: sums and products of matrices whose dimensions do
 not fit were computed out of bounds

---
 include/BlasBooster/Core/BinaryFunctors.h | 12 ++++++++++++
 include/BlasBooster/Core/MatrixMultExp.h  |  8 ++++++--
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/BinaryFunctors.h b/include/BlasBooster/Core/BinaryFunctors.h
index ddf8af0..d4c95be 100644
--- a/include/BlasBooster/Core/BinaryFunctors.h
+++ b/include/BlasBooster/Core/BinaryFunctors.h
@@ -452,10 +452,19 @@ template <class T> T operator - (NullType, T);
 NullType operator + (NullType, NullType);
 NullType operator - (NullType, NullType);
 
+/// Throws if the dimensions of the operands of a sum or difference are different
+template <class X1, class X2>
+inline void checkEqualDimensions(X1 const& A, X2 const& B)
+{
+    if (A.getNbRows() != B.getNbRows() or A.getNbColumns() != B.getNbColumns())
+        throw CoreException("Sum or difference of matrices with different dimensions.");
+}
+
 template <class M1, class T1, class M2, class T2, class P>
 inline auto operator + (Matrix<M1,T1,P> const& A, Matrix<M2,T2,P> const& B)
     -> Matrix<decltype(M1() + M2()),decltype(T1() + T2()),P>
 {
+    checkEqualDimensions(A,B);
     Matrix<decltype(M1() + M2()),decltype(T1() + T2()),P> C;
     BinaryOperationFunctor<Plus,M1,T1,P,M2,T2,P,
         decltype(M1() + M2()),decltype(T1() + T2()),P>()(A,B,C);
@@ -466,6 +475,7 @@ template <class M1, class T1,
           class M2, class T2, class P>
 inline Matrix<M1,T1,P>& operator += (Matrix<M1,T1,P>& A, Matrix<M2,T2,P> const& B)
 {
+    checkEqualDimensions(A,B);
     BinaryAssignmentOperationFunctor<Plus,M1,T1,P,M2,T2,P>()(A,B);
     return A;
 }
@@ -475,6 +485,7 @@ template <class M1, class T1,
 inline auto operator - (Matrix<M1,T1,P> const& A, Matrix<M2,T2,P> const& B)
     -> Matrix<decltype(M1() - M2()),decltype(T1() - T2()),P>
 {
+    checkEqualDimensions(A,B);
     Matrix<decltype(M1() - M2()),decltype(T1() - T2()),P> C;
     BinaryOperationFunctor<Minus,M1,T1,P,M2,T2,P,
         decltype(M1() - M2()),decltype(T1() - T2()),P>()(A,B,C);
@@ -485,6 +496,7 @@ template <class M1, class T1,
           class M2, class T2, class P>
 inline Matrix<M1,T1,P>& operator -= (Matrix<M1,T1,P>& A, Matrix<M2,T2,P> const& B)
 {
+    checkEqualDimensions(A,B);
     BinaryAssignmentOperationFunctor<Minus,M1,T1,P,M2,T2,P>()(A,B);
     return A;
 }
diff --git a/include/BlasBooster/Core/MatrixMultExp.h b/include/BlasBooster/Core/MatrixMultExp.h
index 33cca37..32ed8fd 100644
--- a/include/BlasBooster/Core/MatrixMultExp.h
+++ b/include/BlasBooster/Core/MatrixMultExp.h
@@ -33,7 +33,9 @@ public:
 
     MatrixMultExp(Matrix<M1,T1,P1> const& A, Matrix<M2,T2,P2> const& B)
      : A(A), B(B)
-    {}
+    {
+        if (A.getNbColumns() != B.getNbRows()) throw CoreException("Product of matrices whose dimensions do not fit.");
+    }
 
     template <class Interface>
     auto execute() const -> Matrix<decltype(M1() * M2()), decltype(T1() * T2()), decltype(P1() * P2())>
@@ -58,7 +60,9 @@ public:
 
     MatrixMultExp(Matrix<M1,DynamicMatrix,P> const& A, Matrix<M2,DynamicMatrix,P> const& B)
      : A(A), B(B)
-    {}
+    {
+        if (A.getNbColumns() != B.getNbRows()) throw CoreException("Product of matrices whose dimensions do not fit.");
+    }
 
     template <class Interface>
     auto execute() const -> Matrix<decltype(M1() * M2()), DynamicMatrix, P>
-- 
2.43.0


From 3435587a196b634eacba4fc8c2090532f1d49af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:49 +0000
Subject: [PATCH 49/55] fix: block sizes of factors whose dimensions do not fit
 were computed out of bounds

---
 include/BlasBooster/Core/BlockSizeGenerator.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/BlasBooster/Core/BlockSizeGenerator.h b/include/BlasBooster/Core/BlockSizeGenerator.h
index 84c5db8..d2f5aff 100644
--- a/include/BlasBooster/Core/BlockSizeGenerator.h
+++ b/include/BlasBooster/Core/BlockSizeGenerator.h
@@ -95,6 +95,8 @@ std::tuple<std::vector<size_t>, std::vector<size_t>> BlockSizeGenerator::operato
 template <class T, class P>
 std::tuple<std::vector<size_t>, std::vector<size_t>, std::vector<size_t>> BlockSizeGenerator::matrix_matrix_mult(Matrix<Dense,T,P> const& A, Matrix<Dense,T,P> const& B) const
 {
+    if (A.getNbColumns() != B.getNbRows()) throw BlasBoosterException("BlockSizeGenerator: dimensions of the factors do not fit.");
+
     auto&& [row_detect_A, col_detect_A] = get_detection_arrays(A);
     auto&& [row_detect_B, col_detect_B] = get_detection_arrays(B);
 
-- 
2.43.0


From 657a992037532211b476db92671c1ef0d578a708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:49 +0000
Subject: [PATCH 50/55] fix: contradicting block sizes were accepted if twice
 the minimum overflows

---
 include/BlasBooster/Core/BlockSizeGenerator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/BlockSizeGenerator.h b/include/BlasBooster/Core/BlockSizeGenerator.h
index d2f5aff..eaf72e2 100644
--- a/include/BlasBooster/Core/BlockSizeGenerator.h
+++ b/include/BlasBooster/Core/BlockSizeGenerator.h
@@ -57,7 +57,7 @@ struct BlockSizeGenerator
     BlockSizeGenerator(size_t min_block_size, size_t max_block_size)
      : min_block_size(min_block_size), max_block_size(max_block_size)
     {
-        if (2*min_block_size > max_block_size) throw BlasBoosterException("BlockSizeGenerator: max_block_size must be at least twice as large as min_block_size.");
+        if (min_block_size > max_block_size / 2) throw BlasBoosterException("BlockSizeGenerator: max_block_size must be at least twice as large as min_block_size.");
     }
 
     template <class T, class P>
-- 
2.43.0


From 84ceacea33889a11dad34da99dd1bbacca2b9174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:37 +0000
Subject: [PATCH 51/55] fix: the benchmark multiplied matrices whose dimensions
 do not fit out of bounds

---
 src/Benchmark/benchmark.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Benchmark/benchmark.cpp b/src/Benchmark/benchmark.cpp
index 2bf844f..0c8353f 100644
--- a/src/Benchmark/benchmark.cpp
+++ b/src/Benchmark/benchmark.cpp
@@ -80,6 +80,9 @@ int main(int argc, char* argv[])
         if (list_A.size() != list_B.size()) throw std::runtime_error("Number of matrices A and B not equal");
         if (actions.size() == 0) throw std::runtime_error("No actions defined");
 
+        for (auto&& [A, B] : ranges::views::zip(list_A, list_B))
+            if (A.getNbColumns() != B.getNbRows()) throw std::runtime_error("Dimensions of matrices A and B do not fit");
+
         for (auto&& [A, B, i] : ranges::views::zip(list_A, list_B, ranges::views::indices(list_A.size())))
         {
             std::cout << std::setw(10) << std::left << i
-- 
2.43.0


From cccf9c907bda9edf20eddcb6ac50a82c580ede75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:46 +0000
Subject: [PATCH 52/55] fix: lists of elements or blocks that do not fit were
 read out of bounds

---
 include/BlasBooster/Core/DenseMatrix.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 3d94577..8cfcecc 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -432,6 +432,7 @@ Matrix<Dense,T,P>::Matrix(std::initializer_list< std::initializer_list<T> > valu
     auto val1 = values.begin();
     for (RowCursor rowCur(*this,0), rowEnd(*this,this->getNbRows()); rowCur != rowEnd; ++rowCur, ++val1 )
     {
+        if (val1->size() != this->getNbColumns()) throw std::runtime_error("wrong number of columns");
         auto val2 = val1->begin();
         for ( ColumnCursor columnCur(*this,rowCur.begin()),
             columnEnd(*this,rowCur.end()); columnCur != columnEnd; ++columnCur, ++val2 )
@@ -455,15 +456,18 @@ Matrix<Dense,T,P>::Matrix(std::initializer_list< std::initializer_list<T> > valu
     typename P::IndexType ubRowsTmp, ubColumnsTmp;
     for (RowCursor rowCur(*this,0), rowEnd(*this,this->getNbRows()); rowCur != rowEnd; ++rowCur, ++val1)
     {
+        if (val1->size() != this->getNbColumns()) throw std::runtime_error("wrong number of blocks");
         auto val2 = val1->begin();
+        auto valTop = values.begin()->begin();
         ubRowsTmp = getNbRows(*val2);
         this->ubRows_ += ubRowsTmp;
         ubColumnsTmp = 0;
         for (ColumnCursor columnCur(*this,rowCur.begin()),
-            columnEnd(*this,rowCur.end()); columnCur != columnEnd; ++columnCur, ++val2)
+            columnEnd(*this,rowCur.end()); columnCur != columnEnd; ++columnCur, ++val2, ++valTop)
         {
             *columnCur = *val2;
-            if (ubRowsTmp != getNbRows(*val2)) throw std::runtime_error("wrong sub-dimension");
+            if (ubRowsTmp != getNbRows(*val2) or getNbColumns(*valTop) != getNbColumns(*val2))
+                throw std::runtime_error("wrong sub-dimension");
             ubColumnsTmp += getNbColumns(*val2);
         }
         this->ubColumns_ = ubColumnsTmp;
-- 
2.43.0


From f6c278fe4cda6793233a34dd4cbe56667d12dfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:46 +0000
Subject: [PATCH 53/55] fix: submatrices could exceed their matrix

---
 include/BlasBooster/Core/DenseMatrix.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/BlasBooster/Core/DenseMatrix.h b/include/BlasBooster/Core/DenseMatrix.h
index 8cfcecc..7a2d755 100644
--- a/include/BlasBooster/Core/DenseMatrix.h
+++ b/include/BlasBooster/Core/DenseMatrix.h
@@ -2,6 +2,7 @@
 
 #include "BlasBooster/Core/BinaryFunctors.h"
 #include "BlasBooster/Core/Copy.h"
+#include "BlasBooster/Core/CoreException.h"
 #include "BlasBooster/Core/Cursor.h"
 #include "BlasBooster/Core/DynamicMatrixFunctions.h"
 #include "BlasBooster/Core/Matrix.h"
@@ -490,7 +491,11 @@ Matrix<Dense,T,P>::Matrix(Matrix<Dense,T2,P2> const& other, typename P::IndexTyp
    // TODO: avoid const_cast
    storage(const_cast<T2*>(other.getDataPointer() + beginRow + beginColumn * other.getLdRows()),
        nbRows, nbColumns, other.getLdRows() - nbRows)
-{}
+{
+    if (beginRow > other.getNbRows() or nbRows > other.getNbRows() - beginRow or
+        beginColumn > other.getNbColumns() or nbColumns > other.getNbColumns() - beginColumn)
+        throw CoreException("Submatrix exceeds the matrix.");
+}
 
 template <class T, class P>
 template <class T2, class P2, class U>
-- 
2.43.0


From 4ac7569cc24d69d636ad9e40dc984686bbfb9651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:46 +0000
Subject: [PATCH 54/55] fix: copying between matrices of different dimensions
 wrote out of bounds

---
 include/BlasBooster/Core/Copy.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/BlasBooster/Core/Copy.h b/include/BlasBooster/Core/Copy.h
index d89d740..b208bcc 100644
--- a/include/BlasBooster/Core/Copy.h
+++ b/include/BlasBooster/Core/Copy.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include "CoreException.h"
 #include "Cursor.h"
 #include "Matrix.h"
 
@@ -10,6 +11,9 @@ namespace BlasBooster {
 template <class T1, class P1, class T2, class P2>
 void copy(Matrix<Dense,T1,P1> const& source, Matrix<Dense,T2,P2>& dest)
 {
+    if (source.getNbRows() != dest.getNbRows() or source.getNbColumns() != dest.getNbColumns())
+        throw CoreException("copy: Dimensions of source and destination are different.");
+
     typedef Cursor<const Matrix<Dense,T1,P1>, Direction::Row> SourceRowCursor;
     typedef Cursor<SourceRowCursor, Direction::Column> SourceColumnCursor;
     typedef Cursor<Matrix<Dense,T2,P2>, Direction::Row> DestRowCursor;
-- 
2.43.0


From 505225afe2f4652b501dffa438f606b3afc1614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:41:46 +0000
Subject: [PATCH 55/55] fix: block sizes that do not add up to the dimensions
 were accepted

---
 .../BlasBooster/Core/BlockedMatrixGenerator.h   | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/BlasBooster/Core/BlockedMatrixGenerator.h b/include/BlasBooster/Core/BlockedMatrixGenerator.h
index b62a531..1b78dd3 100644
--- a/include/BlasBooster/Core/BlockedMatrixGenerator.h
+++ b/include/BlasBooster/Core/BlockedMatrixGenerator.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "BlasBooster/Core/BlockedMatrix.h"
+#include "BlasBooster/Core/CoreException.h"
 #include "BlasBooster/Core/DenseMatrix.h"
 #include "BlasBooster/Core/MatrixConverter.h"
 #include "BlasBooster/Core/SparseMatrix.h"
@@ -19,6 +20,9 @@ struct BlockedMatrixGenerator
         typedef Cursor<RowCursor, Direction::Column> ColumnCursor;
         typedef Parameter<typename P::IndexType, typename P::orientation, typename P::SizeType, LeadingDimension> ParameterType;
     
+        if (!fit(rowBlockSizeList,matrix.getNbRows()) or !fit(columnBlockSizeList,matrix.getNbColumns()))
+            throw CoreException("BlockedMatrixGenerator: Block sizes do not fit to the matrix.");
+
         BlockedDenseMatrix blockedMatrix(rowBlockSizeList.size(),columnBlockSizeList.size(),
             matrix.getNbRows(),matrix.getNbColumns());
     
@@ -48,6 +52,19 @@ struct BlockedMatrixGenerator
         }
         return blockedMatrix;
     }
+
+private:
+
+    /// Return true if the sum of the block sizes, which may overflow, is the dimension
+    static bool fit(std::vector<size_t> const& blockSizeList, size_t dimension)
+    {
+        for (auto blockSize : blockSizeList) {
+            if (blockSize > dimension) return false;
+            dimension -= blockSize;
+        }
+        return dimension == 0;
+    }
+
 };
 
 } // namespace BlasBooster
-- 
2.43.0

