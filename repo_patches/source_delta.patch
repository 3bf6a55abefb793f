From 4522318e17a50b183da1ef228f7b18a28c3e58a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:28 +0000
Subject: [PATCH 001/102] fix: out-of-place vector addition and subtraction
 return the sum and leave the operands alone

---
 lube/math.cpp | 52 +++++++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index ae82f76..d5e7869 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -366,36 +366,60 @@ void Add::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
-    assert(iVar1.is(oVar));
     int size = iVar2.size();
+    bool inPlace = iVar1.is(oVar);
     switch(iVar1.atype())
     {
     case TYPE_FLOAT:
+        if (!inPlace)
+            blas::copy(
+                size,
+                iVar1.ptr<float>(iOffset1),
+                oVar.ptr<float>(iOffsetO)
+            );
         blas::axpy(
             size, 1.0f,
             iVar2.ptr<float>(iOffset2),
-            iVar1.ptr<float>(iOffset1)
+            oVar.ptr<float>(iOffsetO)
         );
         break;
     case TYPE_DOUBLE:
+        if (!inPlace)
+            blas::copy(
+                size,
+                iVar1.ptr<double>(iOffset1),
+                oVar.ptr<double>(iOffsetO)
+            );
         blas::axpy(
             size, 1.0,
             iVar2.ptr<double>(iOffset2),
-            iVar1.ptr<double>(iOffset1)
+            oVar.ptr<double>(iOffsetO)
         );
         break;
     case TYPE_CFLOAT:
+        if (!inPlace)
+            blas::copy(
+                size,
+                iVar1.ptr<cfloat>(iOffset1),
+                oVar.ptr<cfloat>(iOffsetO)
+            );
         blas::axpy(
             size, cfloat(1.0f,0.0f),
             iVar2.ptr<cfloat>(iOffset2),
-            iVar1.ptr<cfloat>(iOffset1)
+            oVar.ptr<cfloat>(iOffsetO)
         );
         break;
     case TYPE_CDOUBLE:
+        if (!inPlace)
+            blas::copy(
+                size,
+                iVar1.ptr<cdouble>(iOffset1),
+                oVar.ptr<cdouble>(iOffsetO)
+            );
         blas::axpy(
             size, cdouble(1.0,0.0),
             iVar2.ptr<cdouble>(iOffset2),
-            iVar1.ptr<cdouble>(iOffset1)
+            oVar.ptr<cdouble>(iOffsetO)
         );
         break;
     default:
@@ -445,22 +469,34 @@ void Sub::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
-    assert(iVar1.is(oVar));
     int size = iVar2.size();
+    bool inPlace = iVar1.is(oVar);
     switch(iVar1.atype())
     {
     case TYPE_FLOAT:
+        if (!inPlace)
+            blas::copy(
+                size,
+                iVar1.ptr<float>(iOffset1),
+                oVar.ptr<float>(iOffsetO)
+            );
         blas::axpy(
             size, -1.0f,
             iVar2.ptr<float>(iOffset2),
-            iVar1.ptr<float>(iOffset1)
+            oVar.ptr<float>(iOffsetO)
         );
         break;
     case TYPE_DOUBLE:
+        if (!inPlace)
+            blas::copy(
+                size,
+                iVar1.ptr<double>(iOffset1),
+                oVar.ptr<double>(iOffsetO)
+            );
         blas::axpy(
             size, -1.0,
             iVar2.ptr<double>(iOffset2),
-            iVar1.ptr<double>(iOffset1)
+            oVar.ptr<double>(iOffsetO)
         );
         break;
     default:
-- 
2.43.0


From 671ccb41a57a23436401825e23a836d518b47c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:59 +0000
Subject: [PATCH 002/102] fix: mathematical functions act on every element of a
 double complex array

---
 lube/math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index d5e7869..c32fe1c 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -76,7 +76,7 @@ using namespace libube;
 ind type(var iVar)
 {
     ind type = iVar.type();
-    if (iVar.atype<cdouble>())
+    if (iVar.atype<cdouble>() && !iVar.view() && (iVar.size() == 1))
         type = TYPE_CDOUBLE;
     return type;
 }
-- 
2.43.0


From cc2583525efc9893b65b7961a84bd0a669e320d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:03 +0000
Subject: [PATCH 003/102] fix: complex arrays can be assigned to complex views

---
 lube/math.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lube/math.cpp b/lube/math.cpp
index c32fe1c..77f9efa 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -268,6 +268,20 @@ void Set::vector(
             iVar1.ptr<double>(iOffset1)
         );
         break;
+    case TYPE_CFLOAT:
+        blas::copy(
+            size,
+            iVar2.ptr<cfloat>(iOffset2),
+            iVar1.ptr<cfloat>(iOffset1)
+        );
+        break;
+    case TYPE_CDOUBLE:
+        blas::copy(
+            size,
+            iVar2.ptr<cdouble>(iOffset2),
+            iVar1.ptr<cdouble>(iOffset1)
+        );
+        break;
     default:
         throw error("Set::vector: Unknown type");
     }
-- 
2.43.0


From e5cb8c288d320e6dfd635331f718a34e4c1d96d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:25 +0000
Subject: [PATCH 004/102] fix: arithmetic on arrays of variables returns new
 values rather than corrupting nil elements

---
 lube/math.cpp | 64 +++++++++++++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 77f9efa..b787441 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -347,25 +347,27 @@ void Add::scalar(const var& iVar1, const var& iVar2, var& oVar) const
         broadcast(iVar1, iVar2, oVar);
         break;
     case TYPE_CHAR:
-        *oVar.ptr<char>() = iVar1.get<char>() + iVar2.cast<char>();
+        oVar = static_cast<char>(
+            iVar1.get<char>() + iVar2.cast<char>()
+        );
         break;
     case TYPE_INT:
-        *oVar.ptr<int>() = iVar1.get<int>() + iVar2.cast<int>();
+        oVar = iVar1.get<int>() + iVar2.cast<int>();
         break;
     case TYPE_LONG:
-        *oVar.ptr<long>() = iVar1.get<long>() + iVar2.cast<long>();
+        oVar = iVar1.get<long>() + iVar2.cast<long>();
         break;
     case TYPE_FLOAT:
-        *oVar.ptr<float>() = iVar1.get<float>() + iVar2.cast<float>();
+        oVar = iVar1.get<float>() + iVar2.cast<float>();
         break;
     case TYPE_DOUBLE:
-        *oVar.ptr<double>() = iVar1.get<double>() + iVar2.cast<double>();
+        oVar = iVar1.get<double>() + iVar2.cast<double>();
         break;
     case TYPE_CFLOAT:
-        *oVar.ptr<cfloat>() = iVar1.get<cfloat>() + iVar2.cast<cfloat>();
+        oVar = iVar1.get<cfloat>() + iVar2.cast<cfloat>();
         break;
     case TYPE_CDOUBLE:
-        *oVar.ptr<cdouble>() = iVar1.get<cdouble>() + iVar2.cast<cdouble>();
+        oVar = iVar1.get<cdouble>() + iVar2.cast<cdouble>();
         break;
     default:
         throw error("Add::scalar: Unknown type");
@@ -450,25 +452,27 @@ void Sub::scalar(const var& iVar1, const var& iVar2, var& oVar) const
         broadcast(iVar1, iVar2, oVar);
         break;
     case TYPE_CHAR:
-        *oVar.ptr<char>() = iVar1.get<char>() - iVar2.cast<char>();
+        oVar = static_cast<char>(
+            iVar1.get<char>() - iVar2.cast<char>()
+        );
         break;
     case TYPE_INT:
-        *oVar.ptr<int>() = iVar1.get<int>() - iVar2.cast<int>();
+        oVar = iVar1.get<int>() - iVar2.cast<int>();
         break;
     case TYPE_LONG:
-        *oVar.ptr<long>() = iVar1.get<long>() - iVar2.cast<long>();
+        oVar = iVar1.get<long>() - iVar2.cast<long>();
         break;
     case TYPE_FLOAT:
-        *oVar.ptr<float>() = iVar1.get<float>() - iVar2.cast<float>();
+        oVar = iVar1.get<float>() - iVar2.cast<float>();
         break;
     case TYPE_DOUBLE:
-        *oVar.ptr<double>() = iVar1.get<double>() - iVar2.cast<double>();
+        oVar = iVar1.get<double>() - iVar2.cast<double>();
         break;
     case TYPE_CFLOAT:
-        *oVar.ptr<cfloat>() = iVar1.get<cfloat>() - iVar2.cast<cfloat>();
+        oVar = iVar1.get<cfloat>() - iVar2.cast<cfloat>();
         break;
     case TYPE_CDOUBLE:
-        *oVar.ptr<cdouble>() = iVar1.get<cdouble>() - iVar2.cast<cdouble>();
+        oVar = iVar1.get<cdouble>() - iVar2.cast<cdouble>();
         break;
     default:
         throw error("Sub::scalar: Unknown type");
@@ -602,25 +606,27 @@ void Mul::scalar(const var& iVar1, const var& iVar2, var& oVar) const
         broadcast(iVar1, iVar2, oVar);
         break;
     case TYPE_CHAR:
-        *oVar.ptr<char>() = iVar1.get<char>() * iVar2.cast<char>();
+        oVar = static_cast<char>(
+            iVar1.get<char>() * iVar2.cast<char>()
+        );
         break;
     case TYPE_INT:
-        *oVar.ptr<int>() = iVar1.get<int>() * iVar2.cast<int>();
+        oVar = iVar1.get<int>() * iVar2.cast<int>();
         break;
     case TYPE_LONG:
-        *oVar.ptr<long>() = iVar1.get<long>() * iVar2.cast<long>();
+        oVar = iVar1.get<long>() * iVar2.cast<long>();
         break;
     case TYPE_FLOAT:
-        *oVar.ptr<float>() = iVar1.get<float>() * iVar2.cast<float>();
+        oVar = iVar1.get<float>() * iVar2.cast<float>();
         break;
     case TYPE_DOUBLE:
-        *oVar.ptr<double>() = iVar1.get<double>() * iVar2.cast<double>();
+        oVar = iVar1.get<double>() * iVar2.cast<double>();
         break;
     case TYPE_CFLOAT:
-        *oVar.ptr<cfloat>() = iVar1.get<cfloat>() * iVar2.cast<cfloat>();
+        oVar = iVar1.get<cfloat>() * iVar2.cast<cfloat>();
         break;
     case TYPE_CDOUBLE:
-        *oVar.ptr<cdouble>() = iVar1.get<cdouble>() * iVar2.cast<cdouble>();
+        oVar = iVar1.get<cdouble>() * iVar2.cast<cdouble>();
         break;
     default:
         throw error("Mul::scalar: Unknown type");
@@ -807,25 +813,27 @@ void Div::scalar(const var& iVar1, const var& iVar2, var& oVar) const
         broadcast(iVar1, iVar2, oVar);
         break;
     case TYPE_CHAR:
-        *oVar.ptr<char>() = iVar1.get<char>() / iVar2.cast<char>();
+        oVar = static_cast<char>(
+            iVar1.get<char>() / iVar2.cast<char>()
+        );
         break;
     case TYPE_INT:
-        *oVar.ptr<int>() = iVar1.get<int>() / iVar2.cast<int>();
+        oVar = iVar1.get<int>() / iVar2.cast<int>();
         break;
     case TYPE_LONG:
-        *oVar.ptr<long>() = iVar1.get<long>() / iVar2.cast<long>();
+        oVar = iVar1.get<long>() / iVar2.cast<long>();
         break;
     case TYPE_FLOAT:
-        *oVar.ptr<float>() = iVar1.get<float>() / iVar2.cast<float>();
+        oVar = iVar1.get<float>() / iVar2.cast<float>();
         break;
     case TYPE_DOUBLE:
-        *oVar.ptr<double>() = iVar1.get<double>() / iVar2.cast<double>();
+        oVar = iVar1.get<double>() / iVar2.cast<double>();
         break;
     case TYPE_CFLOAT:
-        *oVar.ptr<cfloat>() = iVar1.get<cfloat>() / iVar2.cast<cfloat>();
+        oVar = iVar1.get<cfloat>() / iVar2.cast<cfloat>();
         break;
     case TYPE_CDOUBLE:
-        *oVar.ptr<cdouble>() = iVar1.get<cdouble>() / iVar2.cast<cdouble>();
+        oVar = iVar1.get<cdouble>() / iVar2.cast<cdouble>();
         break;
     default:
         throw error("Div::scalar: Unknown type");
-- 
2.43.0


From 0394fcda345484adad15ee69c7630c26daf3176e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:41 +0000
Subject: [PATCH 005/102] fix: functors do not divide by zero on arrays with an
 empty dimension

---
 lube/func.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index 0812928..3b7e8c1 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -13,6 +13,20 @@
 using namespace libube;
 
 
+/**
+ * The number of trailing blocks of a var, being the product of its iDim
+ * leading dimensions.  Unlike dividing the size by a stride, it copes with
+ * dimensions of size zero.
+ */
+static int blocks(const var& iVar, int iDim)
+{
+    int n = 1;
+    for (int i=0; i<iDim; i++)
+        n *= iVar.shape(i);
+    return n;
+}
+
+
 /**
  * The default allocator is simply to make a copy of the input variable with
  * the same type and shape.  Only the allocation is done; data is not copied.
@@ -125,7 +139,7 @@ void UnaryFunctor::broadcast(var iVar, var& oVar) const
     int dimO = oVar.dim();
     int stepI = dimI-mDim > 0 ? iVar.stride(dimI-mDim-1) : iVar.size();
     int stepO = dimO-mDim > 0 ? oVar.stride(dimO-mDim-1) : oVar.size();
-    int nOps = iVar.size() / stepI;
+    int nOps = blocks(iVar, dimI-mDim);
     for (int i=0; i<nOps; i++)
         vector(iVar, stepI*i, oVar, stepO*i);
 }
@@ -242,7 +256,7 @@ void BinaryFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     int step1 = cdim > 0 ? iVar1.stride(cdim-1) : 0;
     int step2 = cdim > 0 ? iVar2.stride(cdim-1) : 0;
     int stepO = cdim > 0 ?  oVar.stride(cdim-1) : 0;
-    int nOps = cdim > 0 ? iVar1.size() / step1 : 1;
+    int nOps = blocks(iVar1, cdim);
     for (int i=0; i<nOps; i++)
         vector(iVar1, step1*i, iVar2, step2*i, oVar, stepO*i);
 }
@@ -293,7 +307,7 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     int dimO = oVar.dim();
     int step1 = dim1-dim2 > 0 ? iVar1.stride(dim1-dim2-1) : iVar1.size();
     int stepO = dimO-dim2 > 0 ? oVar.stride(dimO-dim2-1) : oVar.size();
-    int nOps = iVar1.size() / step1;
+    int nOps = blocks(iVar1, dim1-dim2);
     for (int i=0; i<nOps; i++)
         vector(iVar1, step1*i, iVar2, 0, oVar, stepO*i);
 }
@@ -391,7 +405,7 @@ void NaryFunctor::broadcast(var iVar, var& oVar) const
 
     // Assume that the common dimension is to be broadcast over.
     int stepO = cdim > 0 ?  oVar.stride(cdim-1) : 0;
-    int nOps = cdim > 0 ? oVar.size() / stepO : 1;
+    int nOps = blocks(oVar, cdim);
     for (int i=0; i<nOps; i++)
     {
         var iv;
-- 
2.43.0


From d94198cadfa014e8cefdb56ee54ba7377a009d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:44 +0000
Subject: [PATCH 006/102] fix: elementwise operations and dot products reject
 arrays of different shapes

---
 lube/math.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/lube/math.cpp b/lube/math.cpp
index b787441..b00f9c6 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -126,6 +126,20 @@ static var scalarAlloc(var iVar)
 }
 
 
+/**
+ * Check that the second of two arrays matches the trailing dimensions of the
+ * first one, i.e., that it can be broadcast over it element by element.
+ */
+static void conform(const var& iVar1, const var& iVar2)
+{
+    int dim1 = iVar1.dim();
+    int dim2 = iVar2.dim();
+    for (int i=1; i<=dim2; i++)
+        if (iVar1.shape(dim1-i) != iVar2.shape(dim2-i))
+            throw error("math: array shapes do not match");
+}
+
+
 #define CMATH_UNARY_FUNCTOR(F,f)                                        \
     void F::scalar(const var& iVar, var& oVar) const                    \
     {                                                                   \
@@ -251,6 +265,7 @@ void Set::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
+    conform(iVar1, iVar2);
     int size = iVar2.size();
     switch(iVar1.atype())
     {
@@ -382,6 +397,7 @@ void Add::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
+    conform(iVar1, iVar2);
     int size = iVar2.size();
     bool inPlace = iVar1.is(oVar);
     switch(iVar1.atype())
@@ -487,6 +503,7 @@ void Sub::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
+    conform(iVar1, iVar2);
     int size = iVar2.size();
     bool inPlace = iVar1.is(oVar);
     switch(iVar1.atype())
@@ -644,6 +661,7 @@ void Mul::vector(
     // matrix.  In BLAS speak, a diagonal matrix is a band matrix with no
     // superdiagonals.
     assert(type(iVar1) == TYPE_ARRAY);
+    conform(iVar1, iVar2);
     int size = iVar2.size();
     if (iVar1.is(oVar))
     {
@@ -724,6 +742,7 @@ void Dot::vector(
 
     if (iVar2.dim() == 1)
     {
+        conform(iVar1, iVar2);
         // It's a one dimensional thing, so do it as a dot product with
         // blas::dot()
         int size = iVar2.size();
-- 
2.43.0


From 3af64b32ed3a3c13484161b7f7cf2fc0ef723c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:06 +0000
Subject: [PATCH 007/102] fix: set() writes to its output rather than to its
 first operand

---
 lube/math.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index b00f9c6..7323cce 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -273,28 +273,28 @@ void Set::vector(
         blas::copy(
             size,
             iVar2.ptr<float>(iOffset2),
-            iVar1.ptr<float>(iOffset1)
+            oVar.ptr<float>(iOffsetO)
         );
         break;
     case TYPE_DOUBLE:
         blas::copy(
             size,
             iVar2.ptr<double>(iOffset2),
-            iVar1.ptr<double>(iOffset1)
+            oVar.ptr<double>(iOffsetO)
         );
         break;
     case TYPE_CFLOAT:
         blas::copy(
             size,
             iVar2.ptr<cfloat>(iOffset2),
-            iVar1.ptr<cfloat>(iOffset1)
+            oVar.ptr<cfloat>(iOffsetO)
         );
         break;
     case TYPE_CDOUBLE:
         blas::copy(
             size,
             iVar2.ptr<cdouble>(iOffset2),
-            iVar1.ptr<cdouble>(iOffset1)
+            oVar.ptr<cdouble>(iOffsetO)
         );
         break;
     default:
-- 
2.43.0


From 019860644dc702249872ee1d4145c9f3015db84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:09 +0000
Subject: [PATCH 008/102] fix: matrix product of a tensor uses its trailing
 dimensions

---
 lube/math.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 7323cce..6d1635b 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -788,16 +788,13 @@ void Dot::vector(
     {
         // It's a two dimensional thing, so do it as a matrix multiplication
         // with blas::gemm()
-        if (iVar1.shape(1) != iVar2.shape(0))
-        {
-            std::cout << iVar1.shape() << iVar2.shape() << std::endl;
+        if (iVar1.shape(-1) != iVar2.shape(0))
             throw error("Dot::vector: Shapes not compatible");
-        }
         switch(iVar1.atype())
         {
         case TYPE_FLOAT:
             blas::gemm(
-                iVar1.shape(0), iVar2.shape(1), iVar1.shape(1),
+                iVar1.shape(-2), iVar2.shape(1), iVar1.shape(-1),
                 1.0f,
                 iVar1.ptr<float>(iOffset1),
                 iVar2.ptr<float>(iOffset2),
@@ -807,7 +804,7 @@ void Dot::vector(
             break;
         case TYPE_DOUBLE:
             blas::gemm(
-                iVar1.shape(0), iVar2.shape(1), iVar1.shape(1),
+                iVar1.shape(-2), iVar2.shape(1), iVar1.shape(-1),
                 1.0,
                 iVar1.ptr<double>(iOffset1),
                 iVar2.ptr<double>(iOffset2),
-- 
2.43.0


From f74edd1471b6cd936f35656cb3615b5bf3d1f4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:11 +0000
Subject: [PATCH 009/102] fix: swap exchanges one row at a time, and only
 arrays of the same shape

---
 lube/math.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 6d1635b..8fc6854 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -317,7 +317,10 @@ void Swap::vector(
 ) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
-    int size = iVar1.size();
+    if (iVar1.dim() != iVar2.dim())
+        throw error("Swap::vector: dimensions do not match");
+    conform(iVar1, iVar2);
+    int size = iVar1.shape(-1);
     switch(iVar1.atype())
     {
     case TYPE_FLOAT:
-- 
2.43.0


From 550fa702ec6aafd9571086003ad24e7ebd7a0562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:32 +0000
Subject: [PATCH 010/102] fix: concatenate rejects an output of the wrong shape

---
 lube/math.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lube/math.cpp b/lube/math.cpp
index 8fc6854..80dff72 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1327,6 +1327,11 @@ var Concatenate::alloc(var iVar) const
 void Concatenate::vector(var iVar, var& oVar) const
 {
     int sum = 0;
+    for (int i=0; i<iVar.size(); i++)
+        sum += iVar[i].shape(-1);
+    if (sum != oVar.shape(-1))
+        throw error("Concatenate::vector: output has the wrong shape");
+    sum = 0;
     switch(oVar.atype())
     {
     case TYPE_FLOAT:
-- 
2.43.0


From da415b750b22a0df228d7dc48ed7fe89cb6d0fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:34 +0000
Subject: [PATCH 011/102] fix: coefficients of double complex roots are
 allocated as double complex

---
 lube/math.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 80dff72..7d2c1c5 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1218,7 +1218,7 @@ var Poly::alloc(var iVar) const
         r = view(s, cfloat(0.0f, 0.0f));
         break;
     case TYPE_CDOUBLE:
-        r = view(s, cfloat(0.0, 0.0));
+        r = view(s, cdouble(0.0, 0.0));
         break;
     }
     return r;
-- 
2.43.0


From a9de022a2d62c28c5071273df33afcab64a7d7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:37 +0000
Subject: [PATCH 012/102] fix: absolute sum of a complex scalar is stored in
 its real output

---
 lube/math.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 7d2c1c5..7abff18 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -912,10 +912,10 @@ void ASum::scalar(const var& iVar, var& oVar) const
         *oVar.ptr<double>() = std::abs(iVar.get<double>());
         break;
     case TYPE_CFLOAT:
-        *oVar.ptr<cfloat>() = std::abs(iVar.get<cfloat>());
+        *oVar.ptr<float>() = std::abs(iVar.get<cfloat>());
         break;
     case TYPE_CDOUBLE:
-        *oVar.ptr<cdouble>() = std::abs(iVar.get<cdouble>());
+        *oVar.ptr<double>() = std::abs(iVar.get<cdouble>());
         break;
     default:
         throw error("ASum::operator(): Unknown type");
-- 
2.43.0


From 3ba1919cb41290d028b99db90026aed69d8cdead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:39 +0000
Subject: [PATCH 013/102] fix: eigenvalue wrappers report the whole LAPACK
 status, not uninitialised high bits

---
 lube/clapack.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lube/clapack.cpp b/lube/clapack.cpp
index a69a0f1..81d66e6 100644
--- a/lube/clapack.cpp
+++ b/lube/clapack.cpp
@@ -239,8 +239,8 @@ namespace lapack
         long n, float* a, float* wr, float* wi, float* vs
     )
     {
-        long sdim;
-        long info;
+        long sdim = 0;
+        long info = 0;
         long lwork = std::max(1L,n*3);
         float work[lwork];
         sgees_(
@@ -258,7 +258,7 @@ namespace lapack
         long n, float* a, float* wr, float* wi, float* vl, float* vr
     )
     {
-        long info;
+        long info = 0;
         long lwork = std::max(1L,n*4);
         float work[lwork];
         sgeev_(
@@ -277,7 +277,7 @@ namespace lapack
         long n, double* a, double* wr, double* wi, double* vl, double* vr
     )
     {
-        long info;
+        long info = 0;
         long lwork = std::max(1L,n*4);
         double work[lwork];
         dgeev_(
-- 
2.43.0


From 73499f533ad9b8a22b79b563fbc47e817555f8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:27 +0000
Subject: [PATCH 014/102] fix: transforms of double complex data recognise
 their own type

A double complex var is an array, so its type() is never TYPE_CDOUBLE and both
the double precision real and the double precision complex transforms threw.
---
 lube/dft-mkl.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lube/dft-mkl.cpp b/lube/dft-mkl.cpp
index 2feb0d4..dcb3844 100644
--- a/lube/dft-mkl.cpp
+++ b/lube/dft-mkl.cpp
@@ -56,7 +56,7 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
 
     // Set the input and output types for a forward transform
     MKL_LONG r;
-    switch (mImpl->forwardType.type())
+    switch (mImpl->forwardType.atype())
     {
     case TYPE_FLOAT:
         mImpl->inverseType = cfloat(0.0f, 0.0f);
@@ -125,13 +125,13 @@ void DFTBase::scalar(const var& iVar, var& oVar) const
     if (oVar.type() != TYPE_ARRAY)
         throw error("DFTBase::scalar: DFTBase output must be vector");
     if (iVar.atype() != (mImpl->inverse
-                         ? mImpl->inverseType.type()
-                         : mImpl->forwardType.type()
+                         ? mImpl->inverseType.atype()
+                         : mImpl->forwardType.atype()
         ))
         throw error("DFTBase::scalar: wrong input type");
     if (oVar.atype() != (mImpl->inverse
-                          ? mImpl->forwardType.type()
-                          : mImpl->inverseType.type()
+                          ? mImpl->forwardType.atype()
+                          : mImpl->inverseType.atype()
         ))
         throw error("DFTBase::scalar: wrong output type");
 
@@ -157,7 +157,7 @@ void DFTBase::vector(var iVar, ind iOffsetI, var& oVar, ind iOffsetO) const
     }
     else
         if (mImpl->inverse)
-            switch (mImpl->forwardType.type())
+            switch (mImpl->forwardType.atype())
             {
             case TYPE_FLOAT:
                 r = DftiComputeBackward(
@@ -191,7 +191,7 @@ void DFTBase::vector(var iVar, ind iOffsetI, var& oVar, ind iOffsetO) const
                 throw error("DFTBase::vector(): unknown type");
             }
         else
-            switch (mImpl->forwardType.type())
+            switch (mImpl->forwardType.atype())
             {
             case TYPE_FLOAT:
                 r = DftiComputeForward(
-- 
2.43.0


From 75a38372954f3a75ab139a1b2cf87bc7464ccc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:29 +0000
Subject: [PATCH 015/102] fix: transforms reject rows that are not of the
 transform's length

---
 lube/dft-mkl.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/lube/dft-mkl.cpp b/lube/dft-mkl.cpp
index dcb3844..515ba66 100644
--- a/lube/dft-mkl.cpp
+++ b/lube/dft-mkl.cpp
@@ -21,6 +21,7 @@ struct libube::DFTImpl
     DFTI_DESCRIPTOR_HANDLE handle;
     var forwardType;
     var inverseType;
+    int iSize;
     int oSize;
     bool inverse;
 };
@@ -91,6 +92,11 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
     }
     dftiCheck(r);
 
+    // The length of an input row
+    mImpl->iSize = iInverse && (mImpl->forwardType.atype() == TYPE_FLOAT ||
+                                mImpl->forwardType.atype() == TYPE_DOUBLE)
+        ? iSize / 2 + 1 : iSize;
+
     // Default is to overwrite the input
     r = DftiSetValue(mImpl->handle, DFTI_PLACEMENT, DFTI_NOT_INPLACE);
     dftiCheck(r);
@@ -134,6 +140,11 @@ void DFTBase::scalar(const var& iVar, var& oVar) const
                           : mImpl->inverseType.atype()
         ))
         throw error("DFTBase::scalar: wrong output type");
+    if (iVar.shape(-1) != mImpl->iSize)
+        throw error("DFTBase::scalar: wrong input size");
+    if (oVar.shape(-1) != mImpl->oSize ||
+        oVar.size() / mImpl->oSize != iVar.size() / mImpl->iSize)
+        throw error("DFTBase::scalar: wrong output size");
 
     // DFTBase always broadcasts to vector()
     broadcast(iVar, oVar);
-- 
2.43.0


From fa12096c35d2a437d440426346a206e84f28004b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:31 +0000
Subject: [PATCH 016/102] fix: a transform that can not be constructed releases
 its storage

---
 lube/dft-mkl.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lube/dft-mkl.cpp b/lube/dft-mkl.cpp
index 515ba66..1ba3411 100644
--- a/lube/dft-mkl.cpp
+++ b/lube/dft-mkl.cpp
@@ -8,6 +8,7 @@
  */
 
 #include <cassert>
+#include <memory>
 #include <mkl_dfti.h>
 
 #include "lube/dft.h"
@@ -18,6 +19,7 @@
  */
 struct libube::DFTImpl
 {
+    ~DFTImpl() { if (handle) DftiFreeDescriptor(&handle); };
     DFTI_DESCRIPTOR_HANDLE handle;
     var forwardType;
     var inverseType;
@@ -47,7 +49,9 @@ void dftiCheck(MKL_LONG iReturn)
  */
 DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
 {
-    mImpl = new DFTImpl;
+    // Owned locally until the constructor can no longer throw
+    std::unique_ptr<DFTImpl> impl(new DFTImpl);
+    mImpl = impl.get();
 
     // It's a 1 dimensional thing (for now)
     mDim = 1;
@@ -103,12 +107,11 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
 
     r = DftiCommitDescriptor(mImpl->handle);
     dftiCheck(r);
+    impl.release();
 }
 
 DFTBase::~DFTBase()
 {
-    MKL_LONG r = DftiFreeDescriptor(&mImpl->handle);
-    dftiCheck(r);
     delete mImpl;
     mImpl = 0;
 }
-- 
2.43.0


From 5d58dcaf10531ee492aae04de352d25a3cbac13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:02 +0000
Subject: [PATCH 017/102] fix: complex arrays can be copied

---
 lube/heap.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index cd160cf..60edab1 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -7,6 +7,7 @@
  *   Phil Garner, July 2013
  */
 
+#include <algorithm>
 #include <cassert>
 #include <cstring>
 #include <stdexcept>
@@ -297,6 +298,12 @@ void Heap::copy(const Heap* iHeap, int iSize)
     case TYPE_DOUBLE:
         memcpy(mData.dp, iHeap->mData.dp, mSize*sizeof(double));
         break;
+    case TYPE_CFLOAT:
+        std::copy(iHeap->mData.cfp, iHeap->mData.cfp+mSize, mData.cfp);
+        break;
+    case TYPE_CDOUBLE:
+        std::copy(iHeap->mData.cdp, iHeap->mData.cdp+mSize, mData.cdp);
+        break;
     case TYPE_VAR:
         for (int i=0; i<mSize; i++)
             mData.vp[i] = iHeap->mData.vp[i];
-- 
2.43.0


From b91f99b2872a8f72c8b7701e46e432e49ea29bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:05 +0000
Subject: [PATCH 018/102] fix: view() allocates its own storage rather than
 resizing the array that gives its type

---
 lube/var.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 0d0764c..c68815a 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1385,7 +1385,7 @@ var libube::view(const std::initializer_list<int> iShape, var iType)
     int s = 1;
     for (const int* it=begin(iShape); it!=end(iShape); ++it)
         s *= *it;
-    var v = iType ? iType : 0.0f;
+    var v = iType ? iType.copy() : 0.0f;
     v.array();
     v.resize(s);
     return v.view(iShape);
@@ -1401,7 +1401,7 @@ var libube::view(var iShape, var iType)
     int s = 1;
     for (int i=0; i<iShape.size(); i++)
         s *= iShape[i].cast<int>();
-    var v = iType ? iType : 0.0f;
+    var v = iType ? iType.copy() : 0.0f;
     v.array();
     v.resize(s);
     return v.view(iShape);
-- 
2.43.0


From 468ad6c72eba9f9980ac335a1cd99f121098f88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:09 +0000
Subject: [PATCH 019/102] fix: comparison is a consistent order on nil,
 complex, arrays, maps and views

Comparing nil with nil or an array dereferenced a null pointer, comparing double
complex values recursed for ever, arrays could each be less than the other, map
keys were ignored and views compared their shapes rather than their elements.
---
 lube/heap.cpp | 57 ++++++++++++++++++++++++++++++++++++++++++++++-----
 lube/heap.h   | 16 +++++++++++++++
 lube/var.cpp  | 26 ++++++++++++++++++-----
 3 files changed, 89 insertions(+), 10 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 60edab1..d8ae7a6 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -452,23 +452,70 @@ var& Heap::key(int iIndex)
 }
 
 
+/**
+ * Not equal, assuming that the sizes are the same.  Uses the virtual accessors
+ * so that views compare by their contents.
+ */
 bool Heap::neq(IHeap* iHeap)
 {
-    for (int i=0; i<mSize; i++)
+    if ((type() == TYPE_PAIR) != (iHeap->type() == TYPE_PAIR))
+        return true;
+
+    // at() on a cdouble returns an array of cdouble, so compare directly
+    if ( (type() == TYPE_CDOUBLE) && (iHeap->type() == TYPE_CDOUBLE) )
+        return !std::equal(
+            ptrcdouble(), ptrcdouble() + size(), iHeap->ptrcdouble()
+        );
+
+    for (int i=0; i<size(); i++)
+    {
+        if ((type() == TYPE_PAIR) && (key(i) != iHeap->key(i)))
+            return true;
         if (at(i) != iHeap->at(i))
             return true;
+    }
     return false;
 }
 
 
+/**
+ * Less than: lexicographic.  Strings compare bytewise, maps come after other
+ * arrays and compare by key then value.
+ */
 bool Heap::lt(IHeap* iHeap)
 {
-    if ( (mType == TYPE_CHAR) && (iHeap->type() == TYPE_CHAR) )
-        return (std::strcmp(ptrchar(), iHeap->ptrchar()) < 0);
-    for (int i=0; i<std::min(size(), iHeap->size()); i++)
+    bool pair = (type() == TYPE_PAIR);
+    if (pair != (iHeap->type() == TYPE_PAIR))
+        return !pair;
+
+    int n = std::min(size(), iHeap->size());
+    if ( (type() == TYPE_CHAR) && (iHeap->type() == TYPE_CHAR) )
+    {
+        int c = std::memcmp(ptrchar(), iHeap->ptrchar(), n);
+        return c ? (c < 0) : (size() < iHeap->size());
+    }
+    if ( (type() == TYPE_CDOUBLE) && (iHeap->type() == TYPE_CDOUBLE) )
+        return std::lexicographical_compare(
+            ptrcdouble(), ptrcdouble() + size(),
+            iHeap->ptrcdouble(), iHeap->ptrcdouble() + iHeap->size(),
+            complexLess<double>
+        );
+
+    for (int i=0; i<n; i++)
+    {
+        if (pair)
+        {
+            if (key(i) < iHeap->key(i))
+                return true;
+            if (iHeap->key(i) < key(i))
+                return false;
+        }
         if (at(i) < iHeap->at(i))
             return true;
-    return false;
+        if (iHeap->at(i) < at(i))
+            return false;
+    }
+    return size() < iHeap->size();
 }
 
 
diff --git a/lube/heap.h b/lube/heap.h
index 7ecfd02..9fedcd0 100644
--- a/lube/heap.h
+++ b/lube/heap.h
@@ -24,6 +24,22 @@ namespace libube
 
     class Heap;
 
+    /**
+     * Order of complex numbers: by magnitude; those of the same magnitude are
+     * ordered too so that only equal numbers are equivalent.
+     */
+    template<class T>
+    bool complexLess(const std::complex<T>& iX, const std::complex<T>& iY)
+    {
+        T x = std::abs(iX);
+        T y = std::abs(iY);
+        if (x != y)
+            return x < y;
+        if (iX.real() != iY.real())
+            return iX.real() < iY.real();
+        return iX.imag() < iY.imag();
+    }
+
     /**
      * Heap interface
      */
diff --git a/lube/var.cpp b/lube/var.cpp
index c68815a..b4ad551 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -498,6 +498,16 @@ var& var::varderef()
 }
 
 
+/**
+ * Converts a reference to a cdouble into the array that holds a cdouble.
+ */
+static var array1(var iVar)
+{
+    iVar.dereference();
+    return iVar;
+}
+
+
 /**
  * Negation operator
  *
@@ -507,6 +517,9 @@ var& var::varderef()
  */
 bool var::operator !=(var iVar) const
 {
+    // A reference to a cdouble has a type that the cdouble itself does not
+    if (type() == TYPE_CDOUBLE || iVar.type() == TYPE_CDOUBLE)
+        return array1(*this) != array1(iVar);
     if (type() != iVar.type())
         return true;
     if (size() != iVar.size())
@@ -514,6 +527,8 @@ bool var::operator !=(var iVar) const
     switch (type())
     {
     case TYPE_ARRAY:
+        if (!heap() || !iVar.heap())
+            return heap() != iVar.heap();
         return heap()->neq(iVar.heap());
     case TYPE_CHAR:
         return (get<char>() != iVar.get<char>());
@@ -527,8 +542,6 @@ bool var::operator !=(var iVar) const
         return (get<double>() != iVar.get<double>());
     case TYPE_CFLOAT:
         return (get<cfloat>() != iVar.get<cfloat>());
-    case TYPE_CDOUBLE:
-        return (get<cdouble>() != iVar.get<cdouble>());
     default:
         throw error("operator !=(): Unknown type");
     }
@@ -545,12 +558,17 @@ bool var::operator !=(var iVar) const
  */
 bool var::operator <(var iVar) const
 {
+    if (type() == TYPE_CDOUBLE || iVar.type() == TYPE_CDOUBLE)
+        return array1(*this) < array1(iVar);
     if (type() != iVar.type())
         return (type() < iVar.type());
 
     switch (type())
     {
     case TYPE_ARRAY:
+        // nil comes before any array
+        if (!heap() || !iVar.heap())
+            return !heap() && iVar.heap();
         return heap()->lt(iVar.heap());
     case TYPE_CHAR:
         return (get<char>() < iVar.get<char>());
@@ -563,9 +581,7 @@ bool var::operator <(var iVar) const
     case TYPE_DOUBLE:
         return (get<double>() < iVar.get<double>());
     case TYPE_CFLOAT:
-        return (std::abs(get<cfloat>()) < std::abs(iVar.get<cfloat>()));
-    case TYPE_CDOUBLE:
-        return (std::abs(get<cdouble>()) < std::abs(iVar.get<cdouble>()));
+        return complexLess(get<cfloat>(), iVar.get<cfloat>());
     default:
         throw error("operator <(): Unknown type");
     }
-- 
2.43.0


From d99e1dd1326bf4db6e426b4693cc87ee60c23a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:12 +0000
Subject: [PATCH 020/102] fix: views of arrays of variables and of maps reach
 the underlying elements

---
 lube/heap.h   | 14 ++++++++++++++
 lube/view.cpp | 20 ++++++++++++++++++++
 2 files changed, 34 insertions(+)

diff --git a/lube/heap.h b/lube/heap.h
index 9fedcd0..ceb1fed 100644
--- a/lube/heap.h
+++ b/lube/heap.h
@@ -239,7 +239,21 @@ namespace libube
         virtual Heap* view() const { return mHeap; };
         virtual int& shape(int iDim) const;
         virtual int& stride(int iDim) const;
+        virtual var at(int iIndex, bool iKey=false) const;
+        virtual var& key(int iIndex);
         virtual bool copyable(IHeap* iHeap);
+        virtual bool defined(ind iIndex) {
+            return mHeap->defined(iIndex + mData.ip[0]);
+        };
+        virtual var* deref(ind iIndex) {
+            return mHeap->deref(iIndex + mData.ip[0]);
+        };
+        virtual IHeap* derefHeap(ind iIndex) {
+            return mHeap->derefHeap(iIndex + mData.ip[0]);
+        };
+        virtual var derefInt(ind iIndex, int iArrayIndex) {
+            return mHeap->derefInt(iIndex + mData.ip[0], iArrayIndex);
+        };
         virtual int derefSize(ind iIndex) {
             return mHeap->derefSize(iIndex + mData.ip[0]);
         };
diff --git a/lube/view.cpp b/lube/view.cpp
index 551b9f8..4e382a8 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -8,6 +8,7 @@
  */
 
 #include <cassert>
+#include <stdexcept>
 
 #include "lube/var.h"
 #include "lube/heap.h"
@@ -144,6 +145,25 @@ int& View::stride(int iDim) const
 }
 
 
+/**
+ * An element of the underlying array, or the key of one.
+ */
+var View::at(int iIndex, bool iKey) const
+{
+    if ( (iIndex < 0) || (iIndex >= size()) )
+        throw std::range_error("View::at(): index out of bounds");
+    return mHeap->at(iIndex + mData.ip[0], iKey);
+}
+
+
+var& View::key(int iIndex)
+{
+    if ( (iIndex < 0) || (iIndex >= size()) )
+        throw std::range_error("View::key(): index out of bounds");
+    return mHeap->key(iIndex + mData.ip[0]);
+}
+
+
 /**
  * Normally, x = y will copy the var such that both x and y point to
  * the same Heap.  However, if x is a view, we want the data from y
-- 
2.43.0


From 3cdc0e6634f9eed0d4b91d4e85f8de54dbc1286f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:16 +0000
Subject: [PATCH 021/102] fix: operations that would resize a view throw rather
 than resize its shape

---
 lube/heap.h   | 9 +++++++++
 lube/view.cpp | 8 ++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/lube/heap.h b/lube/heap.h
index ceb1fed..84143ae 100644
--- a/lube/heap.h
+++ b/lube/heap.h
@@ -230,6 +230,14 @@ namespace libube
         VPTRDECL(var)
         VPTRDECL(pair)
 
+        // A view has a fixed size
+        void append(int iSize, const char* iData) { fixed(); };
+        void append(int iSize, const int* iData) { fixed(); };
+        void append(int iSize, const cdouble* iData) { fixed(); };
+        virtual void resize(int iSize) { if (iSize != size()) fixed(); };
+        virtual var shift() { fixed(); return nil; };
+        virtual void unshift(var iVar) { fixed(); };
+
         // Trivial accessors
         virtual int size() const { return stride(0) * shape(0); };
         virtual ind type() const { return mHeap->type(); };
@@ -266,6 +274,7 @@ namespace libube
 
     private:
         void setStrides(int iDim);
+        void fixed() const { throw error("View: can not resize a view"); };
         Heap* mHeap;    ///< The real storage
     };
 }
diff --git a/lube/view.cpp b/lube/view.cpp
index 4e382a8..c6b06e0 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -28,7 +28,7 @@ View::View(const IHeap& iHeap, bool iAllocOnly) : Heap()
 {
     assert(iHeap.view());
     mType = TYPE_INT;
-    resize(iHeap.dim()*2+1);
+    Heap::resize(iHeap.dim()*2+1);
     mHeap = new Heap(*iHeap.view(), iAllocOnly);
     mHeap->attach();
     copy(reinterpret_cast<const Heap*>(&iHeap), mSize);
@@ -43,7 +43,7 @@ View::View(IHeap* iHeap) : Heap()
 
     // Initialise the offset with the old one if it was a view
     mType = TYPE_INT;
-    resize(1);
+    Heap::resize(1);
     mData.ip[0] = iHeap->view() ? iHeap->offset() : 0;
 }
 
@@ -72,7 +72,7 @@ View::View(IHeap* iHeap, const std::initializer_list<int> iList, int iOffset)
     : View(iHeap)
 {
     int dim = iList.size();
-    resize(dim*2+1);
+    Heap::resize(dim*2+1);
 
     // The first entry is the offset
     mData.ip[0] += iOffset;;
@@ -94,7 +94,7 @@ View::View(IHeap* iHeap, const std::initializer_list<int> iList, int iOffset)
 View::View(IHeap* iHeap, var iShape, int iOffset) : View(iHeap)
 {
     int dim = iShape.size();
-    resize(dim*2+1);
+    Heap::resize(dim*2+1);
 
     // The first entry is the offset
     mData.ip[0] += iOffset;;
-- 
2.43.0


From 33db3c34be6e6665422034e4c8d1cdf0fed12f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:18 +0000
Subject: [PATCH 022/102] fix: views of negative size or offset, or overflowing
 size, are rejected without a leak

---
 lube/heap.cpp |  6 +++---
 lube/view.cpp | 13 +++++++++----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index d8ae7a6..1ce3f54 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -53,12 +53,13 @@ Heap::Heap()
  * Destructor
  *
  * The dtor should be called when the reference count hits zero.  So
- * the refcount should already be zero here.  The memory will have
- * been freed by the dealloc().
+ * the refcount should already be zero here.  It is also called if a
+ * constructor throws, so it's the place to free the memory.
  */
 Heap::~Heap()
 {
     assert(!mRefCount);
+    dealloc(mData);
 }
 
 
@@ -217,7 +218,6 @@ int Heap::detach()
     int count = --mRefCount;
     if (count == 0)
     {
-        dealloc(mData);
         delete this;
     }
     return count;
diff --git a/lube/view.cpp b/lube/view.cpp
index c6b06e0..e6453cb 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -8,6 +8,7 @@
  */
 
 #include <cassert>
+#include <limits>
 #include <stdexcept>
 
 #include "lube/var.h"
@@ -55,15 +56,19 @@ void View::setStrides(int iDim)
         throw error("View::setStrides(): view must have dim > 0");
 
     // The second of each pair is the stride
-    int p = 1;
+    long p = 1;
     for (int i=iDim-1; i>=0; i--)
     {
+        if (mData.ip[i*2+1] < 0)
+            throw error("View::setStrides(): negative dimension");
         mData.ip[i*2+2] = p;
         p *= mData.ip[i*2+1];
+        if (p > std::numeric_limits<int>::max())
+            throw error("View::setStrides(): view too large");
     }
 
     // the p that drops out should be the overall size
-    if (p+mData.ip[0] > mHeap->size())
+    if (mData.ip[0] < 0 || p+mData.ip[0] > mHeap->size())
         throw error("View::setStrides(): Array too small for view");
 }
 
@@ -120,8 +125,8 @@ View::~View()
 
 int View::offset(int iOffset)
 {
-    if (iOffset + size() > mHeap->size())
-        throw error("View::offset(): offset too large");
+    if (iOffset < 0 || iOffset > mHeap->size() - size())
+        throw error("View::offset(): offset out of range");
     mData.ip[0] = iOffset;
     return iOffset;
 }
-- 
2.43.0


From d53db8ff397dfc4aa9666ef0e337518f2033008f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:14 +0000
Subject: [PATCH 023/102] fix: remove() returns the element removed rather than
 a reference to the next, and keeps map keys

---
 lube/var.cpp | 32 +++++++++++++++++++++++++-------
 lube/var.h   |  1 +
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index b4ad551..2141061 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -508,6 +508,16 @@ static var array1(var iVar)
 }
 
 
+/**
+ * The var to change: that to which this refers if it refers to a var, so that
+ * the change persists, otherwise this one.
+ */
+var& var::target()
+{
+    return reference() ? varderef() : *this;
+}
+
+
 /**
  * Negation operator
  *
@@ -1158,14 +1168,22 @@ var& var::insert(var iVar, int iIndex)
 
 var var::remove(int iIndex)
 {
-    assert(iIndex >= 0);
-    if (iIndex > size()-1)
-        throw std::range_error("remove(): index too large");
+    if (iIndex < 0 || iIndex > size()-1)
+        throw std::range_error("remove(): index out of range");
+    if (view())
+        throw error("remove(): can not resize a view");
 
-    var r = at(iIndex).copy();
-    for (int i=iIndex+1; i<size(); i++)
-        at(i-1) = at(i);
-    resize(size()-1);
+    var& v = target();
+    v.array();
+    var r = v.at(iIndex).copy();
+    r.dereference();
+    for (int i=iIndex+1; i<v.size(); i++)
+    {
+        if (v.atype<pair>())
+            v.heap()->key(i-1) = v.heap()->key(i);
+        v.at(i-1) = v.at(i);
+    }
+    v.resize(v.size()-1);
     return r;
 }
 
diff --git a/lube/var.h b/lube/var.h
index 5b32b29..12c26aa 100644
--- a/lube/var.h
+++ b/lube/var.h
@@ -218,6 +218,7 @@ namespace libube
         // Methods
         template<class T> T& data();
         var& varderef();
+        var& target();
         bool reference() const { return !mType; };
         var reference(int iIndex) const;
         int attach(IHeap* iHeap=0);
-- 
2.43.0


From 6f04397c5b89471957f96800cad133ff70ce706e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:17 +0000
Subject: [PATCH 024/102] fix: pop() returns the element popped, leaves a
 scalar empty, and rejects an empty array

---
 lube/var.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 2141061..fbbc73f 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -946,7 +946,7 @@ var& var::resize(int iSize)
     if (!v.heap())
     {
         // Not allocated
-        if (((v.type() != TYPE_ARRAY) && (iSize > 1)) ||
+        if (((v.type() != TYPE_ARRAY) && (iSize != 1)) ||
             (v.type() == TYPE_ARRAY) )
         {
             // Need to allocate
@@ -959,7 +959,8 @@ var& var::resize(int iSize)
                 var tmp = v;
                 v.mType = TYPE_ARRAY;
                 v.attach(new Heap(iSize, tmp.mType));
-                v.at(0) = tmp;
+                if (iSize > 0)
+                    v.at(0) = tmp;
             }
         }
     }
@@ -1117,8 +1118,13 @@ var& var::push(var iVar)
 
 var var::pop()
 {
+    if (size() == 0)
+        throw std::range_error("pop(): nothing to pop");
+
+    // at() is a reference to something that is about to go away
     var r = at(size()-1);
-    resize(size()-1);
+    r.dereference();
+    target().resize(size()-1);
     return r;
 }
 
-- 
2.43.0


From 0e07f5cb57cca025bafd79681a71e92c63502654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:20 +0000
Subject: [PATCH 025/102] fix: shift() empties a scalar and rejects an empty
 array

---
 lube/var.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index fbbc73f..e71974f 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1196,10 +1196,12 @@ var var::remove(int iIndex)
 
 var var::shift()
 {
-    if (heap())
-        return heap()->shift();
-    else
-        return *this;
+    if (size() == 0)
+        throw std::range_error("shift(): nothing to shift");
+
+    var& v = target();
+    v.array();
+    return v.heap()->shift();
 }
 
 
-- 
2.43.0


From 609c83037982b2fed77d4a9002a6e835686163df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:23 +0000
Subject: [PATCH 026/102] fix: elements shrunk away are released at once

---
 lube/heap.cpp | 13 +++++++++++++
 lube/var.cpp  |  2 ++
 2 files changed, 15 insertions(+)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 1ce3f54..8c8a939 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -227,8 +227,21 @@ void Heap::resize(int iSize)
 {
     // It is possible to resize to zero; the capacity stays the same
     assert(mCapacity >= 0);
+    int oldSize = mSize;
     mSize = iSize;
 
+    // Release whatever is held by elements that are going away
+    for (int i=mSize; i<oldSize; i++)
+        if (mType == TYPE_VAR)
+            mData.vp[i].clear();
+        else if (mType == TYPE_PAIR)
+        {
+            mData.pp[i].key.clear();
+            mData.pp[i].val.clear();
+        }
+        else
+            break;
+
     // strings have an extra '\0'
     if (mType == TYPE_CHAR)
         iSize += 1;
diff --git a/lube/var.cpp b/lube/var.cpp
index e71974f..fd494d1 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1270,6 +1270,8 @@ var& var::presize(int iSize)
 {
     // There is no doubt a more efficient way
     int s = size();
+    if (iSize < s)
+        return *this;
     resize(iSize);
     resize(s);
     return *this;
-- 
2.43.0


From 91bbd8d634ba836b15f74b96ef6310f46f5e715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:26 +0000
Subject: [PATCH 027/102] fix: unshift() converts its value to the type of the
 array

---
 lube/heap.cpp | 46 ++++++++++++++++++++++++++++++++++++++--------
 lube/var.cpp  | 13 +++++++++----
 2 files changed, 47 insertions(+), 12 deletions(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 8c8a939..6a05cbe 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -601,38 +601,68 @@ var Heap::shift()
  */
 void Heap::unshift(var iVar)
 {
-    resize(mSize+1);
+    // Convert first: nothing should change if the conversion throws
     switch (mType)
     {
     case TYPE_CHAR:
+    {
+        char t = iVar.cast<char>();
+        resize(mSize+1);
         memmove(mData.cp+1, mData.cp, (mSize-1)*sizeof(char));
-        mData.cp[0] = iVar.get<char>();
+        mData.cp[0] = t;
         break;
+    }
     case TYPE_INT:
+    {
+        int t = iVar.cast<int>();
+        resize(mSize+1);
         memmove(mData.ip+1, mData.ip, (mSize-1)*sizeof(int));
-        mData.ip[0] = iVar.get<int>();
+        mData.ip[0] = t;
         break;
+    }
     case TYPE_LONG:
+    {
+        long t = iVar.cast<long>();
+        resize(mSize+1);
         memmove(mData.lp+1, mData.lp, (mSize-1)*sizeof(long));
-        mData.lp[0] = iVar.get<long>();
+        mData.lp[0] = t;
         break;
+    }
     case TYPE_FLOAT:
+    {
+        float t = iVar.cast<float>();
+        resize(mSize+1);
         memmove(mData.fp+1, mData.fp, (mSize-1)*sizeof(float));
-        mData.fp[0] = iVar.get<float>();
+        mData.fp[0] = t;
         break;
+    }
     case TYPE_DOUBLE:
+    {
+        double t = iVar.cast<double>();
+        resize(mSize+1);
         memmove(mData.dp+1, mData.dp, (mSize-1)*sizeof(double));
-        mData.dp[0] = iVar.get<double>();
+        mData.dp[0] = t;
         break;
+    }
     case TYPE_CFLOAT:
+    {
+        cfloat t = iVar.cast<cfloat>();
+        resize(mSize+1);
         memmove(mData.cfp+1, mData.cfp, (mSize-1)*sizeof(cfloat));
-        mData.cfp[0] = iVar.get<cfloat>();
+        mData.cfp[0] = t;
         break;
+    }
     case TYPE_CDOUBLE:
+    {
+        cdouble t = iVar.cast<cdouble>();
+        resize(mSize+1);
         memmove(mData.cdp+1, mData.cdp, (mSize-1)*sizeof(cdouble));
-        mData.cdp[0] = iVar.get<cdouble>();
+        mData.cdp[0] = t;
         break;
+    }
     case TYPE_VAR:
+        iVar.dereference();
+        resize(mSize+1);
         memmove(mData.vp+1, mData.vp, (mSize-1)*sizeof(var));
         new (&mData.vp[0]) var();
         mData.vp[0] = iVar;
diff --git a/lube/var.cpp b/lube/var.cpp
index fd494d1..f9470f0 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1207,15 +1207,20 @@ var var::shift()
 
 var& var::unshift(var iVar)
 {
-    if (!defined())
+    // As for push(): an array goes into an array of var, and a value initialises
+    // or matches a value
+    iVar.dereference();
+    if (!defined() && (iVar.type() != TYPE_ARRAY))
     {
         *this = iVar;
         return *this;
     }
+    if (defined() && (type() != TYPE_ARRAY) && (iVar.type() != type()))
+        throw error("unshift(): Incompatible types");
 
-    if (!heap())
-        array();
-    heap()->unshift(iVar);
+    var& v = target();
+    v.defined() ? v.array() : v.resize(0);
+    v.heap()->unshift(iVar);
     return *this;
 }
 
-- 
2.43.0


From 1429d13aa88d6dc88033ce914cf14ed3e978af54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:29 +0000
Subject: [PATCH 028/102] fix: insert() copes with the array's own elements,
 and rejects before changing anything

---
 lube/var.cpp | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index f9470f0..35bef84 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1135,8 +1135,17 @@ var var::pop()
  */
 var& var::insert(var iVar, int iIndex)
 {
-    if (iIndex > size())
-        throw std::range_error("insert(): index too large");
+    if (iIndex < 0 || iIndex > size())
+        throw std::range_error("insert(): index out of range");
+
+    // A reference would refer to another element after moving them
+    iVar.dereference();
+    var& v = target();
+    if (&v != this)
+    {
+        v.insert(iVar, iIndex);
+        return *this;
+    }
 
     if (heap() && atype<var>())
     {
@@ -1160,12 +1169,18 @@ var& var::insert(var iVar, int iIndex)
     }
     else
     {
-        // It's a fundamental type, insert the whole array
-        resize(size()+iVar.size());
-        for (int i=size()-1; i>iIndex+iVar.size()-1; i--)
-            at(i) = at(i-iVar.size());
-        for (int i=0; i<iVar.size(); i++)
-            at(iIndex+i) = iVar[i];
+        // It's a fundamental type, insert the whole array.  Conversion to that
+        // type can throw, and iVar can be this array, so it goes via a copy.
+        int n = iVar.size();
+        var tmp;
+        tmp.attach(new Heap(n, defined() ? atype() : ind(TYPE_VAR)));
+        for (int i=0; i<n; i++)
+            tmp.at(i) = iVar.at(i);
+        resize(size()+n);
+        for (int i=size()-1; i>iIndex+n-1; i--)
+            at(i) = at(i-n);
+        for (int i=0; i<n; i++)
+            at(iIndex+i) = tmp.at(i);
     }
 
     return *this;
-- 
2.43.0


From 8471105077ee7905d0b20d75169fc0cec94d0182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:31 +0000
Subject: [PATCH 029/102] fix: append() of raw data does not overwrite arrays
 of another type

---
 lube/var.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 35bef84..32e5eb5 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1065,8 +1065,13 @@ var var::atypeStr() const
 #define APPEND(T)                                               \
     template<> var& var::append<T>(int iSize, const T* iData)   \
     {                                                           \
-        array();                                                \
-        heap()->append(iSize, iData);                           \
+        var& v = target();                                      \
+        if (!v)                                                 \
+            v.attach(new Heap(iSize, iData));                   \
+        else if (!v.atype<T>())                                 \
+            throw error("append(): Incompatible types");        \
+        else                                                    \
+            v.array().heap()->append(iSize, iData);             \
         return *this;                                           \
     }
 
@@ -1077,9 +1082,7 @@ APPEND(cdouble)
 var& var::append(const char* iStr)
 {
     // It should be a special case to avoid the strlen
-    array();
-    heap()->append(std::strlen(iStr), iStr);
-    return *this;
+    return append<char>(std::strlen(iStr), iStr);
 }
 
 
-- 
2.43.0


From 5bbea714a8498adcf7aa9a30fca6b076e360495c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:34 +0000
Subject: [PATCH 030/102] fix: push() of a value that does not convert leaves
 the array alone, and negative indices are rejected

---
 lube/var.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 32e5eb5..7a4731a 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -837,6 +837,8 @@ var var::at(int iIndex) const
     v.dereference();
     if (!v)
         throw error("var::at(): uninitialised");
+    if (iIndex < 0)
+        throw error("var::at(): Negative index");
     if (v.type() == TYPE_ARRAY)
         return v.reference(iIndex);
     if (iIndex == 0)
@@ -1114,7 +1116,18 @@ var& var::push(var iVar)
             throw error("push(): Incompatible types");
     }
 
-    (*this)[size()] = iVar;
+    int s = size();
+    try
+    {
+        (*this)[s] = iVar;
+    }
+    catch (...)
+    {
+        // The value could not be converted to the type of the array
+        if (size() > s)
+            target().resize(s);
+        throw;
+    }
     return *this;
 }
 
-- 
2.43.0


From 7c918a42d845cd3b2026deaab6b9de4e9ba79108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:11 +0000
Subject: [PATCH 031/102] fix: conversion between complex types keeps the
 imaginary part

---
 lube/var.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 7a4731a..a126280 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -669,6 +669,26 @@ ind var::atype() const
 }
 
 
+/*
+ * Conversion from complex keeps the real part if that's all there is room for
+ */
+template <class T>
+struct FromComplex
+{
+    template <class C> static T cast(const C& iC) {
+        return static_cast<T>(iC.real());
+    }
+};
+
+template <class T>
+struct FromComplex<std::complex<T>>
+{
+    template <class C> static std::complex<T> cast(const C& iC) {
+        return std::complex<T>(iC.real(), iC.imag());
+    }
+};
+
+
 template <class T>
 void Cast<T>::scalar(const var& iVar, var& oVar) const
 {
@@ -715,10 +735,10 @@ void Cast<T>::scalar(const var& iVar, var& oVar) const
         oVar = static_cast<T>(iVar.get<double>());
         break;
     case TYPE_CFLOAT:
-        oVar = static_cast<T>(iVar.get<cfloat>().real());
+        oVar = FromComplex<T>::cast(iVar.get<cfloat>());
         break;
     case TYPE_CDOUBLE:
-        oVar = static_cast<T>(iVar.get<cdouble>().real());
+        oVar = FromComplex<T>::cast(iVar.get<cdouble>());
         break;
     default:
         throw error("Cast::operator(): Unknown type");
-- 
2.43.0


From 633a49395b02b68d63f71f694799806887d2417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:15 +0000
Subject: [PATCH 032/102] fix: arrays cast as the number they hold, or throw,
 rather than as part of a pointer

---
 lube/var.cpp | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index a126280..f56377c 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -126,26 +126,43 @@ namespace libube
     }
 
 
+    /*
+     * The builtin types are scalar, so that's what can be cast to one: nil is
+     * zero, a string is parsed, and an array of one element is that element.
+     */
+    static var castable(const var& iVar)
+    {
+        if (!iVar)
+            return 0;
+        if (!iVar.heap() || iVar.atype<char>())
+            return iVar;
+        if (iVar.size() != 1 || iVar.atype<pair>())
+            throw error("var::cast(): can not cast an array to a scalar");
+        var v = iVar.at(0);
+        return iVar.atype<var>() ? castable(v) : v;
+    }
+
+
     template<> char var::cast<char>() const {
-        return castChar(*this).get<char>();
+        return castChar(castable(*this)).get<char>();
     }
     template<> int var::cast<int>() const {
-        return castInt(*this).get<int>();
+        return castInt(castable(*this)).get<int>();
     }
     template<> long var::cast<long>() const {
-        return castLong(*this).get<long>();
+        return castLong(castable(*this)).get<long>();
     }
     template<> float var::cast<float>() const {
-        return castFloat(*this).get<float>();
+        return castFloat(castable(*this)).get<float>();
     }
     template<> double var::cast<double>() const {
-        return castDouble(*this).get<double>();
+        return castDouble(castable(*this)).get<double>();
     }
     template<> cfloat var::cast<cfloat>() const {
-        return castCFloat(*this).get<cfloat>();
+        return castCFloat(castable(*this)).get<cfloat>();
     }
     template<> cdouble var::cast<cdouble>() const {
-        return castCDouble(*this).get<cdouble>();
+        return castCDouble(castable(*this)).get<cdouble>();
     }
 }
 
-- 
2.43.0


From 4dc7a00fa90d0f8ffbfe7ade15611e85ff53f060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:19 +0000
Subject: [PATCH 033/102] fix: a string cast to double complex is parsed rather
 than read as a number

---
 lube/var.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index f56377c..cb6c732 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -712,7 +712,7 @@ void Cast<T>::scalar(const var& iVar, var& oVar) const
     // Return immediately if no cast is required
     const T t = 0;
     static var v = t;
-    if (v.type() == iVar.type())
+    if (v.type() == iVar.type() && (!iVar.heap() || v.atype() == iVar.atype()))
     {
         if (!iVar.is(oVar))
             oVar = iVar;
-- 
2.43.0


From 1fa9c4d806d4f317ac6c856b5bdfce9660925bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:22 +0000
Subject: [PATCH 034/102] fix: the backtrace of an exception does not leak or
 dereference null

---
 lube/var.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index cb6c732..a18a76a 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1679,6 +1679,8 @@ void error::backTrace(std::ostream& iStream)
         // We want to demangle the function name
         char* paren1 = strchr(symbol[i], '(');
         char* paren2 = strchr(symbol[i], ')');
+        if (!paren1)
+            continue;
         *paren1 = '\0';
         // Just the file, not very helpful
         //iStream << "\n  " << symbol[i] << ":\n    ";
@@ -1686,11 +1688,14 @@ void error::backTrace(std::ostream& iStream)
         {
             // It's an empty name
             iStream << "(undefined)";
-            return;
+            break;
         }
         char* plus = strchr(paren1+1, '+');
-        *plus = '\0';
-        buffer = abi::__cxa_demangle(paren1+1, buffer, &length, &status);
+        if (plus)
+            *plus = '\0';
+        char* name = abi::__cxa_demangle(paren1+1, buffer, &length, &status);
+        if (name)
+            buffer = name;
         iStream << "\n  ";  // Indent
         switch (status)
         {
-- 
2.43.0


From e72516bf95ab8c2a42b524bb0c3a9b6042d69404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:25 +0000
Subject: [PATCH 035/102] fix: view() rejects negative and overflowing shapes

---
 lube/var.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index a18a76a..e6b5121 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -10,6 +10,7 @@
 #include <cassert>
 #include <cstring>
 #include <cstdarg>
+#include <limits>
 #include <stdexcept>
 #ifdef HAVE_BACKTRACE
 # include <execinfo.h>
@@ -1493,6 +1494,19 @@ var var::view(var iShape, int iOffset)
 }
 
 
+/**
+ * The size of iDim arrays of size iSize
+ */
+static int grow(int iSize, int iDim)
+{
+    if (iDim < 0)
+        throw error("libube::view(): Negative dimension");
+    if (iDim && iSize > std::numeric_limits<int>::max() / iDim)
+        throw error("libube::view(): Too many elements");
+    return iSize * iDim;
+}
+
+
 /**
  * View initialiser function.  Allocates the underlying array as well as the
  * view.
@@ -1501,7 +1515,7 @@ var libube::view(const std::initializer_list<int> iShape, var iType)
 {
     int s = 1;
     for (const int* it=begin(iShape); it!=end(iShape); ++it)
-        s *= *it;
+        s = grow(s, *it);
     var v = iType ? iType.copy() : 0.0f;
     v.array();
     v.resize(s);
@@ -1517,7 +1531,7 @@ var libube::view(var iShape, var iType)
 {
     int s = 1;
     for (int i=0; i<iShape.size(); i++)
-        s *= iShape[i].cast<int>();
+        s = grow(s, iShape[i].cast<int>());
     var v = iType ? iType.copy() : 0.0f;
     v.array();
     v.resize(s);
-- 
2.43.0


From 3649db57668de9fd7bfd100ddea527a0d43563b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:38 +0000
Subject: [PATCH 036/102] fix: a stream on a var does not mistake byte 255 for
 the end

---
 lube/stream.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lube/stream.cpp b/lube/stream.cpp
index 3fc3b76..d27038a 100644
--- a/lube/stream.cpp
+++ b/lube/stream.cpp
@@ -56,7 +56,7 @@ int varbuf::uflow()
     //
     // Following stringstream, this doesn't destroy the string
     if (mInd < mVar.size())
-        return mVar[mInd++].get<char>();
+        return traits_type::to_int_type(mVar[mInd++].get<char>());
     return traits_type::eof();
 }
 
@@ -64,7 +64,7 @@ int varbuf::underflow()
 {
     // Called for reads that do not consume data if not uflow().
     if (mInd < mVar.size())
-        return mVar[mInd].get<char>();
+        return traits_type::to_int_type(mVar[mInd].get<char>());
     return traits_type::eof();
 }
 
@@ -73,7 +73,7 @@ int varbuf::pbackfail(int iInt)
     // istreams are supposed to allow putting back one character.  Putting back
     // will always fail since it's bufferless, in which case this is called.
     if (mInd > 0)
-        return mVar[--mInd].get<char>();
+        return traits_type::to_int_type(mVar[--mInd].get<char>());
     return traits_type::eof();
 }
 
-- 
2.43.0


From 24ca54136abb3f9622d2346d1eae1ef4a5bfc0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:41 +0000
Subject: [PATCH 037/102] fix: a stream on a var can seek to its end, and fails
 to seek beyond it

---
 lube/stream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lube/stream.cpp b/lube/stream.cpp
index d27038a..6fe63b0 100644
--- a/lube/stream.cpp
+++ b/lube/stream.cpp
@@ -82,8 +82,9 @@ std::streampos varbuf::seekpos(
 )
 {
     // Ignore mode for the moment
-    if (iPos < mVar.size())
-        mInd = iPos;
+    if (iPos < 0 || iPos > mVar.size())
+        return std::streamoff(-1);
+    mInd = iPos;
     return iPos;
 }
 
-- 
2.43.0


From a2d18cbb765e1641c48238bc69d4b08a4c7b3e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:44 +0000
Subject: [PATCH 038/102] fix: double complex elements are printed rather than
 their addresses

---
 lube/json.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index e96ff29..0d7dc0e 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -273,8 +273,8 @@ void JSON::format(std::ostream& iStream, var iVar, int iIndent)
         iStream << iVar.get<cfloat>();
         break;
     case TYPE_CDOUBLE:
-        //iStream << iVar.get<cdouble>();
-        throw error("var::format(): cdouble should be array");
+        // A cdouble is an array; this is a reference to one
+        iStream << iVar.get<cdouble>();
         break;
     default:
         throw error("var::format(): Unknown type");
@@ -346,7 +346,7 @@ void JSON::formatArray(std::ostream& iStream, var iVar, int iIndent)
             {
                 for (int j=0; j<iIndent+2; j++)
                     iStream << " ";
-                iStream << iVar.ptr<cdouble>(i);
+                iStream << *iVar.ptr<cdouble>(i);
                 if (i < iVar.size()-1)
                     iStream << ",";
                 iStream << "\n";
-- 
2.43.0


From fab96ecb7112e75a38c3b8c4daf76c407de3b41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:47 +0000
Subject: [PATCH 039/102] fix: the JSON reader leaves the delimiter after a
 number, and rejects truncated arrays and objects

---
 lube/json.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index 0d7dc0e..a0d8b84 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -104,7 +104,8 @@ var JSON::doObject(std::istream& iStream)
             throw error("Unknown character");
         }
     }
-    return obj;
+    throw error("Unterminated JSON object");
+    return nil;
 }
 
 var JSON::doArray(std::istream& iStream)
@@ -128,7 +129,8 @@ var JSON::doArray(std::istream& iStream)
             arr.push(doValue(iStream));
         }
     }
-    return arr;
+    throw error("Unterminated JSON array");
+    return nil;
 }
 
 var JSON::doString(std::istream& iStream)
@@ -187,13 +189,15 @@ var JSON::doRaw(std::istream& iStream)
     // Read up to a space or JSON delimiter
     var val = "";
     char c;
-    while (iStream.get(c))
+    while (iStream.peek() != EOF)
     {
+        c = iStream.peek();
         if (isspace(c))
             break;
-        if (strchr(",[]{}", c))
+        if (c && strchr(",:[]{}\"", c))
             break;
         val.push(c);
+        iStream.get();
     }
 
     // These values have special meanings
-- 
2.43.0


From f2c4b287e512fde28fd7648f919b2b78340a5ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:49 +0000
Subject: [PATCH 040/102] fix: the JSON reader does not truncate floating point
 numbers to integers

---
 lube/json.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index a0d8b84..a2b1901 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -169,7 +169,7 @@ var toNumber(var iStr)
     varstream vs(iStr);
     long l;
     vs >> l;
-    if (!vs.fail())
+    if (!vs.fail() && vs.peek() == EOF)
         return l;
 
     // Try for double
@@ -177,7 +177,7 @@ var toNumber(var iStr)
     vs.seekg(0);
     double d;
     vs >> d;
-    if (!vs.fail())
+    if (!vs.fail() && vs.peek() == EOF)
         return d;
 
     // Failed
-- 
2.43.0


From 10dd5ec21adfdaefed029fb5fe0a9849e81c2471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:52 +0000
Subject: [PATCH 041/102] fix: JSON strings are escaped when written, and all
 the escapes are read

---
 lube/json.cpp | 71 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 70 insertions(+), 1 deletion(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index a2b1901..ae0cd8d 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -33,6 +33,8 @@ namespace libube
         var doObject(std::istream& iStream);
         var doArray(std::istream& iStream);
         var doString(std::istream& iStream);
+        int doHex(std::istream& iStream);
+        void doUnicode(std::istream& iStream, var& ioStr);
         var doRaw(std::istream& iStream);
     };
 }
@@ -150,8 +152,28 @@ var JSON::doString(std::istream& iStream)
             switch (got)
             {
             case '\"':
+            case '\\':
+            case '/':
                 str.push(got);
                 break;
+            case 'b':
+                str.push('\b');
+                break;
+            case 'f':
+                str.push('\f');
+                break;
+            case 'n':
+                str.push('\n');
+                break;
+            case 'r':
+                str.push('\r');
+                break;
+            case 't':
+                str.push('\t');
+                break;
+            case 'u':
+                doUnicode(iStream, str);
+                break;
             default:
                 throw error("Unrecognised JSON string escape");
             }
@@ -163,6 +185,47 @@ var JSON::doString(std::istream& iStream)
     return nil;
 }
 
+/** The four hex digits of a unicode escape */
+int JSON::doHex(std::istream& iStream)
+{
+    int code = 0;
+    for (int i=0; i<4; i++)
+    {
+        int c = iStream.get();
+        if (!isxdigit(c))
+            throw error("Invalid JSON unicode escape");
+        code = code * 16 + (isdigit(c) ? c - '0' : std::tolower(c) - 'a' + 10);
+    }
+    return code;
+}
+
+/** Appends the UTF-8 encoding of a unicode escape (or pair of escapes) */
+void JSON::doUnicode(std::istream& iStream, var& ioStr)
+{
+    int code = doHex(iStream);
+    if (code >= 0xdc00 && code < 0xe000)
+        throw error("Invalid JSON unicode escape");
+    if (code >= 0xd800 && code < 0xdc00)
+    {
+        if (iStream.get() != '\\' || iStream.get() != 'u')
+            throw error("Invalid JSON unicode escape");
+        int low = doHex(iStream);
+        if (low < 0xdc00 || low >= 0xe000)
+            throw error("Invalid JSON unicode escape");
+        code = 0x10000 + ((code - 0xd800) << 10) + (low - 0xdc00);
+    }
+    if (code < 0x80)
+        ioStr.push(char(code));
+    else
+    {
+        int n = (code < 0x800) ? 1 : (code < 0x10000) ? 2 : 3;
+        static const int lead[] = {0, 0xc0, 0xe0, 0xf0};
+        ioStr.push(char(lead[n] | (code >> 6*n)));
+        while (n--)
+            ioStr.push(char(0x80 | ((code >> 6*n) & 0x3f)));
+    }
+}
+
 var toNumber(var iStr)
 {
     // Try for integer
@@ -300,7 +363,13 @@ void JSON::formatArray(std::ostream& iStream, var iVar, int iIndent)
     {
     case TYPE_CHAR:
         iStream << "\"";
-        iStream << iVar.ptr<char>();
+        for (int i=0; i<iVar.size(); i++)
+        {
+            char c = *iVar.ptr<char>(i);
+            if (c == '\"' || c == '\\')
+                iStream.put('\\');
+            iStream.put(c);
+        }
         iStream << "\"";
         break;
     case TYPE_PAIR:
-- 
2.43.0


From 52aa690d3b471889f0100217e6e906a63e83954e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:54 +0000
Subject: [PATCH 042/102] fix: the JSON reader accepts arrays of mixed types

---
 lube/json.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lube/json.cpp b/lube/json.cpp
index ae0cd8d..ca4a6cb 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -110,9 +110,23 @@ var JSON::doObject(std::istream& iStream)
     return nil;
 }
 
+/** Push everything to a new array, becoming dense if the types all match */
+static var dense(var iArr)
+{
+    for (int i=0; i<iArr.size(); i++)
+        if (iArr[i].type() == TYPE_ARRAY || iArr[i].type() != iArr[0].type())
+            return iArr;
+    var arr;
+    for (int i=0; i<iArr.size(); i++)
+        arr.push(iArr[i]);
+    return arr;
+}
+
 var JSON::doArray(std::istream& iStream)
 {
+    // Collect in an array of var; the elements can be of any type
     var arr;
+    arr.resize(0);
     char got = iStream.get();
     if (got != '[')
         throw error("JSON array doesn't start with [");
@@ -122,7 +136,7 @@ var JSON::doArray(std::istream& iStream)
         {
         case ']':
             iStream.get();
-            return arr;
+            return dense(arr);
             break;
         case ',':
             iStream.get();
-- 
2.43.0


From 0f36c03a997317da05ccffea0307c58fbaaa6047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:57 +0000
Subject: [PATCH 043/102] fix: deeply nested JSON is rejected rather than
 overflowing the stack

---
 lube/json.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lube/json.cpp b/lube/json.cpp
index ca4a6cb..9ba89c0 100644
--- a/lube/json.cpp
+++ b/lube/json.cpp
@@ -26,6 +26,7 @@ namespace libube
         var operator ()(std::istream& iStream);
         void format(std::ostream& iStream, var iVar, int iIndent = 0);
     private:
+        int mDepth = 0; ///< Current nesting of the parser
         void formatArray(std::ostream& iStream, var iVar, int iIndent);
         void formatView(std::ostream& iStream, var iVar, int iIndent);
         char peek(std::istream& iStream);
@@ -57,6 +58,11 @@ char JSON::peek(std::istream& iStream)
 
 var JSON::doValue(std::istream& iStream)
 {
+    // The parser is recursive, so the nesting is limited by the stack
+    const int maxDepth = 1000;
+    if (mDepth >= maxDepth)
+        throw error("JSON too deeply nested");
+    mDepth++;
     var val;
     switch (peek(iStream))
     {
@@ -72,6 +78,7 @@ var JSON::doValue(std::istream& iStream)
     default:
         val = doRaw(iStream);
     }
+    mDepth--;
     return val;
 }
 
-- 
2.43.0


From 89b0982e60101fad8eb938a64cfeff40ebe7ed97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:32 +0000
Subject: [PATCH 044/102] fix: getline() does not append a character at the end
 of the stream, or loop for ever on a failed one

---
 lube/string.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lube/string.cpp b/lube/string.cpp
index eb9353e..d62eb2a 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -106,8 +106,7 @@ RegExFunctor::~RegExFunctor()
 var& var::getline(std::istream& iStream)
 {
     // Peek ahead to set eof if necessary, return nil if done
-    iStream.peek();
-    if (iStream.eof())
+    if (iStream.peek() == EOF)
         return clear();
 
     // Start off as a string as an array; re-use the existing array if possible
@@ -121,9 +120,9 @@ var& var::getline(std::istream& iStream)
     int size = 63; // var adds the \0 automatically
     resize(size);
     char* str = ptr<char>();
-    while (!iStream.eof())
+    int c;
+    while ((c = iStream.get()) != EOF)
     {
-        char c = iStream.get();
         if (c == '\n') // Unix specific?  ...no, I think c++ will change it to
                        // whatever is appropriate
             break;
-- 
2.43.0


From f0549d0737ecdfaf946335a9e16974a4ae03ec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:44 +0000
Subject: [PATCH 045/102] fix: strip() does not write to released storage, or
 overflow on a string of spaces

---
 lube/string.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lube/string.cpp b/lube/string.cpp
index d62eb2a..f082c6e 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -235,7 +235,7 @@ void Strip::string(const var& iVar, var& oVar) const
     while ((leading < is) && (isspace(ip[leading])))
         leading++;
     int trailing = 0;
-    while ((trailing < is) && (isspace(ip[is-trailing-1])))
+    while ((leading + trailing < is) && (isspace(ip[is-trailing-1])))
         trailing++;
 
     int newSize = is - leading - trailing;
@@ -250,6 +250,7 @@ void Strip::string(const var& iVar, var& oVar) const
     {
         oVar = "";
         oVar.resize(newSize);
+        op = oVar.ptr<char>();
         for (int i=0; i<newSize; i++)
             op[i] = ip[i+leading];
     }
-- 
2.43.0


From e2f9eefbb6b44f4438179f82654173a266f4199a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:58 +0000
Subject: [PATCH 046/102] fix: string functors reject numbers rather than
 recurse for ever

---
 lube/string.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lube/string.cpp b/lube/string.cpp
index f082c6e..5c34750 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -19,6 +19,7 @@
 #include "lube/string.h"
 #include "lube/regex.h"
 #include "lube/var.h"
+#include "lube/heap.h"
 
 
 namespace libube
@@ -78,6 +79,10 @@ void StringFunctor::string(const var& iVar, var& oVar) const
  */
 void StringFunctor::broadcast(var iVar, var& oVar) const
 {
+    // The elements of anything other than an array or map can't be strings
+    if (!iVar.heap() || !(iVar.atype<var>() || iVar.atype<pair>()))
+        throw error("StringFunctor: not a string");
+
     // This could be parallel!
     for (int i=0; i<iVar.size(); i++)
     {
-- 
2.43.0


From bed14f232533d2ede8e0311a14ee0ce67faad7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:11 +0000
Subject: [PATCH 047/102] fix: split() on an empty separator throws rather than
 loop for ever

---
 lube/string.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/string.cpp b/lube/string.cpp
index 5c34750..c4a6918 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -153,6 +153,8 @@ var var::split(const char* iStr, int iMax) const
 {
     var r;
     int strLen = std::strlen(iStr);
+    if (strLen == 0)
+        throw error("var::split(): Empty separator");
     const char* source = this->str();
     const char* p;
     if (iMax != 1)
-- 
2.43.0


From 8f6fa419949d28de0a5783ff6893ddc5205ad7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:43 +0000
Subject: [PATCH 048/102] fix: the tree of a directory does not follow symbolic
 links, just as the recursive listing does not

---
 lube/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/path.cpp b/lube/path.cpp
index 089d4b2..c07e093 100644
--- a/lube/path.cpp
+++ b/lube/path.cpp
@@ -99,7 +99,7 @@ var Path::tree(std::filesystem::path iPath)
     var dir;
     fs::directory_iterator end;
     for (fs::directory_iterator it(iPath); it != end; it++)
-        if (fs::is_directory(*it))
+        if (fs::is_directory(*it) && !fs::is_symlink(*it))
             dir[it->path().filename().string().c_str()] = tree(*it);
         else
             dir[it->path().filename().string().c_str()] = nil;
-- 
2.43.0


From 9e3029da30494f1b58a06164c70f6bd62495e22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:44 +0000
Subject: [PATCH 049/102] fix: INI values can contain the separator

---
 lube/inifile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/inifile.cpp b/lube/inifile.cpp
index 6bcc125..b765652 100644
--- a/lube/inifile.cpp
+++ b/lube/inifile.cpp
@@ -58,9 +58,9 @@ var inifile::read(var iFile)
         else
         {
             // It's a 'key [=:] value' line
-            var kv = f.split("=");
+            var kv = f.split("=", 2);
             if (kv.size() < 2)
-                kv = f.split(":");
+                kv = f.split(":", 2);
             if (kv.size() < 2)
                 throw error("inifile::read(): couldn't split");
             kv[0].strip();
-- 
2.43.0


From 28df238629f0a6d7139c46b7338fe85045ad58dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:46 +0000
Subject: [PATCH 050/102] fix: XML can be split over lines anywhere that white
 space is allowed

---
 lube/xmlfile.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index c2bb25e..1f1d0b6 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -92,8 +92,11 @@ static void DefaultHandler(
     void *iUserData, const XML_Char *iStr, int iLen
 )
 {
-    // DOS line ends find their way here.  Why?
-    if ((iLen == 1) && (*iStr == '\r'))
+    // White space outside the top level element finds its way here
+    int i = 0;
+    while ((i < iLen) && isspace(iStr[i]))
+        i++;
+    if (i == iLen)
         return;
 
     var str(iLen, iStr);
@@ -178,6 +181,9 @@ var Expat::parse(const char* iFile)
     while (f.getline(is))
     {
         s = XML_Parse(mParser, f.str(), f.size(), 0);
+        if (s)
+            // getline() removes the newline, but it also separates attributes
+            s = XML_Parse(mParser, "\n", 1, 0);
         if (!s)
             throw error("xmlfile::parse(): Error!");
     }
@@ -233,6 +239,9 @@ void Expat::endElementHandler(const XML_Char *iName)
 
 void Expat::characterDataHandler(const XML_Char *iStr, int iLen)
 {
+    // Line ends are not part of the text
+    if ((iLen == 1) && (*iStr == '\n'))
+        return;
     var str(iLen, iStr);
     mStack.top()[DATA].push(str);
 }
-- 
2.43.0


From bca198e0b4fbc3bbe3b954deff5524daf403ddfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:47 +0000
Subject: [PATCH 051/102] fix: XML that ends before or after its top level
 element is complete is rejected

---
 lube/xmlfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index 1f1d0b6..2bca0bc 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -187,7 +187,7 @@ var Expat::parse(const char* iFile)
         if (!s)
             throw error("xmlfile::parse(): Error!");
     }
-    s = XML_Parse(mParser, f.str(), 0, 0);
+    s = XML_Parse(mParser, f.str(), 0, 1);
     if (!s)
         throw error("xmlfile::parse(): Error!");
     if (mStack.size() != 0)
-- 
2.43.0


From 7d70b3d759837fe90311081b4f5faa94666d64ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:49 +0000
Subject: [PATCH 052/102] fix: deeply nested XML is rejected rather than
 overflowing the stack

---
 lube/xmlfile.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index 2bca0bc..9fc1765 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -214,6 +214,10 @@ var Expat::element()
 
 void Expat::startElementHandler(const XML_Char *iName, const XML_Char **iAtts)
 {
+    // Trees are handled recursively, so the nesting is limited by the stack
+    if (mStack.size() >= 1000)
+        throw error("xmlfile::parse(): Too deeply nested");
+
     var elem = element();
     if (mStack)
         mStack.top()[DATA].push(elem);
-- 
2.43.0


From 4c93458fe37a5254a3cb7efbae3ae8f33f89ccc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:50 +0000
Subject: [PATCH 053/102] fix: white space in XML attributes survives being
 written

---
 lube/xmlfile.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index 9fc1765..7dba6cb 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -319,6 +319,12 @@ void XMLWriter::escape(std::ofstream& iOS, var iVar)
         case '"':
             iOS << "&quot;";
             break;
+        case '\t':
+        case '\n':
+        case '\r':
+            // Otherwise normalised when read
+            iOS << "&#" << int(str[i]) << ";";
+            break;
         default:
             iOS.put(str[i]);
             break;
-- 
2.43.0


From 91598e87beff4b300fe9c6d67678fe3fbd3ad41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:52 +0000
Subject: [PATCH 054/102] fix: GEDCOM loads that fail throw and release the
 file, and each load is independent

---
 lube/gedfile.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/lube/gedfile.cpp b/lube/gedfile.cpp
index 4619192..c7ffb17 100644
--- a/lube/gedfile.cpp
+++ b/lube/gedfile.cpp
@@ -159,8 +159,8 @@ int GEDCOM::readLine()
     if (line.getline(mInStream))
         mField = line.split(" ");
     else
-        std::cout << "Premature end of file" << std::endl;
-        
+        throw error("GEDCOM::readLine(): Premature end of file");
+
     int level = mField.shift().cast<int>();
     //std::cout << "[" << level << "]" << mField << std::endl;
     return level;
@@ -168,10 +168,24 @@ int GEDCOM::readLine()
 
 var GEDCOM::loadFile(var iFileName)
 {
+    // Nothing remains of a previous load, which may have thrown
+    mVar = nil;
+    mIndividualMap = nil;
+    mFamilyMap = nil;
+    mInStream.close();
+    mInStream.clear();
     mInStream.open(iFileName.str());
     if (mInStream.fail())
-        std::cout << "Open failed" << std::endl;
-    doFile(readLine());
+        throw error("GEDCOM::loadFile(): Open failed");
+    try
+    {
+        doFile(readLine());
+    }
+    catch (...)
+    {
+        mInStream.close();
+        throw;
+    }
     mInStream.close();
     return mVar;
 }
-- 
2.43.0


From 19b64bbc641bc883f05e15d15409c8c596217135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:54 +0000
Subject: [PATCH 055/102] fix: GEDCOM records that are empty or not recognised
 do not upset those that follow

---
 lube/gedfile.cpp | 77 +++++++++++++++++++++++++++---------------------
 1 file changed, 44 insertions(+), 33 deletions(-)

diff --git a/lube/gedfile.cpp b/lube/gedfile.cpp
index c7ffb17..a0f6418 100644
--- a/lube/gedfile.cpp
+++ b/lube/gedfile.cpp
@@ -29,8 +29,7 @@ namespace libube
         int readLine();
         bool knownToken(var iToken);
         void doFile(int iLevel);
-        int doHeader(int iLevel);
-        int doSubmitter(int iLevel);
+        int skip(int iLevel);
         int doIndividual(int iLevel, var iInd);
         int doFamily(int iLevel, var iFam);
         int doBirth(int iLevel);
@@ -211,28 +210,36 @@ void GEDCOM::doFile(int iLevel)
             var token = mField.shift();
 
             if (!knownToken(token))
-                break;
+            {
+                level = skip(level);
+                continue;
+            }
 
             var entity;
             switch (mTokenMap[token].cast<int>())
             {
             case SUBM:
-                doSubmitter(readLine());
+                level = skip(level);
                 break;
             case INDI:
                 entity = individual();
                 mIndividualMap[xref] = mVar["Individual"].size();
                 mVar["Individual"].push(entity);
-                doIndividual(readLine(), entity);
+                level = readLine();
+                if (level > iLevel)
+                    level = doIndividual(level, entity);
                 break;
             case FAM:
                 entity = family();
                 mFamilyMap[xref] = mVar["Family"].size();
                 mVar["Family"].push(entity);
-                doFamily(readLine(), entity);
+                level = readLine();
+                if (level > iLevel)
+                    level = doFamily(level, entity);
                 break;
             default:
                 std::cout << "File: Unknown tag " << mField << std::endl;
+                level = skip(level);
             }
         }
         else
@@ -241,16 +248,20 @@ void GEDCOM::doFile(int iLevel)
             var token = mField.shift();
 
             if (!knownToken(token))
-                break;
+            {
+                level = skip(level);
+                continue;
+            }
             switch (mTokenMap[token].cast<int>())
             {
             case HEAD:
-                level = doHeader(readLine());
+                level = skip(level);
                 continue;
             case TRLR:
                 return;
             default:
                 std::cout << "File: Unknown tag " << token << std::endl;
+                level = skip(level);
             }
         }
     }
@@ -259,27 +270,16 @@ void GEDCOM::doFile(int iLevel)
         std::cout << "Trailer not found" << std::endl;
 }
 
-int GEDCOM::doHeader(int iLevel)
-{
-    int level = iLevel;
-    do
-    {
-        level = readLine();
-        // Just chuck away the header
-    }
-     while (level >= iLevel);
-    return level;
-}
-
-int GEDCOM::doSubmitter(int iLevel)
+/**
+ * Reads the line after the record at iLevel, discarding anything subordinate to
+ * that record.  Returns the level of the line.
+ */
+int GEDCOM::skip(int iLevel)
 {
-    int level = iLevel;
+    int level;
     do
-    {
         level = readLine();
-        // Just chuck away the submitter
-    }
-    while (level >= iLevel);
+    while (level > iLevel);
     return level;
 }
 
@@ -290,7 +290,10 @@ int GEDCOM::doIndividual(int iLevel, var iInd)
     {
         var token = mField.shift();
         if (!knownToken(token))
-            break;
+        {
+            level = skip(level);
+            continue;
+        }
         switch (mTokenMap[token].cast<int>())
         {
         case NAME:
@@ -327,7 +330,7 @@ int GEDCOM::doIndividual(int iLevel, var iInd)
         default:
             std::cout << "Individual: Unknown tag" << mField << std::endl;
         }
-        level = readLine();
+        level = skip(level);
     }
     while (level >= iLevel);
     return level;
@@ -341,7 +344,10 @@ int GEDCOM::doBirth(int iLevel)
     {
         var token = mField.shift();
         if (!knownToken(token))
-            break;
+        {
+            level = skip(level);
+            continue;
+        }
         switch (mTokenMap[token].cast<int>())
         {
         case DATE:
@@ -360,7 +366,7 @@ int GEDCOM::doBirth(int iLevel)
         default:
             std::cout << "Birth: Unknown tag" << token << std::endl;
         }
-        level = readLine();
+        level = skip(level);
     }
     while (level >= iLevel);
     return level;
@@ -376,7 +382,10 @@ int GEDCOM::doFamily(int iLevel, var iFam)
         var token = mField.shift();
         var indiv;
         if (!knownToken(token))
-            break;
+        {
+            level = skip(level);
+            continue;
+        }
         switch (mTokenMap[token].cast<int>())
         {
         case HUSB:
@@ -405,12 +414,14 @@ int GEDCOM::doFamily(int iLevel, var iFam)
             break;
         case MARR:
             std::cout << "Married" << std::endl;
-            level = doBirth(readLine());
+            level = readLine();
+            if (level > iLevel)
+                level = doBirth(level);
             continue;
         default:
             std::cout << "Family: Unknown tag" << token << std::endl;
         }
-        level = readLine();
+        level = skip(level);
     }
     while (level >= iLevel);
 
-- 
2.43.0


From 5f144ac130b6f99e8201184c9d82c24e26989eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:55 +0000
Subject: [PATCH 056/102] fix: GEDCOM families can refer to individuals that
 come later

---
 lube/gedfile.cpp | 48 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 36 insertions(+), 12 deletions(-)

diff --git a/lube/gedfile.cpp b/lube/gedfile.cpp
index a0f6418..201dc62 100644
--- a/lube/gedfile.cpp
+++ b/lube/gedfile.cpp
@@ -34,6 +34,8 @@ namespace libube
         int doFamily(int iLevel, var iFam);
         int doBirth(int iLevel);
         int doContinue(int iLevel, var iToken);
+        var position(var iXRef);
+        void link(var iFam);
 
         var mVar;
         std::ifstream mInStream;
@@ -186,9 +188,40 @@ var GEDCOM::loadFile(var iFileName)
         throw;
     }
     mInStream.close();
+
+    // Individuals can come after the families that refer to them
+    if (mVar && mVar.index("Family"))
+        for (int i=0; i<mVar["Family"].size(); i++)
+            link(mVar["Family"][i]);
     return mVar;
 }
 
+/** The position of the individual with a given cross reference; nil if none */
+var GEDCOM::position(var iXRef)
+{
+    if (!iXRef)
+        return nil;
+    var p = mIndividualMap ? mIndividualMap.at(iXRef) : nil;
+    if (!p)
+        std::cout << "Missing: " << iXRef << std::endl;
+    return p ? var(p.cast<int>()) : nil;
+}
+
+/** Replace the cross references in a family with positions */
+void GEDCOM::link(var iFam)
+{
+    iFam["HUSB"] = position(iFam["HUSB"]);
+    iFam["WIFE"] = position(iFam["WIFE"]);
+    var child;
+    for (int i=0; i<iFam["CHIL"].size(); i++)
+    {
+        var p = position(iFam["CHIL"][i]);
+        if (p)
+            child.push(p);
+    }
+    iFam["CHIL"] = child;
+}
+
 bool GEDCOM::knownToken(var iToken)
 {
     if (mTokenMap.at(iToken))
@@ -390,24 +423,15 @@ int GEDCOM::doFamily(int iLevel, var iFam)
         {
         case HUSB:
             indiv = mField.shift();
-            if (!mIndividualMap.at(indiv))
-                std::cout << "Missing: " << indiv << std::endl;
-            else
-                iFam["HUSB"] = mIndividualMap.at(indiv).cast<int>();
+            iFam["HUSB"] = indiv;
             break;
         case WIFE:
             indiv = mField.shift();
-            if (!mIndividualMap.at(indiv))
-                std::cout << "Missing: " << indiv << std::endl;
-            else
-                iFam["WIFE"] = mIndividualMap.at(indiv).cast<int>();
+            iFam["WIFE"] = indiv;
             break;
         case CHIL:
             indiv = mField.shift();
-            if (!mIndividualMap.at(indiv))
-                std::cout << "Missing: " << indiv << std::endl;
-            else
-                iFam["CHIL"].push(mIndividualMap.at(indiv).cast<int>());
+            iFam["CHIL"].push(indiv);
             break;
         case DIV:
             std::cout << "Div ?" << std::endl;
-- 
2.43.0


From b6abde7f65142d62a4ddd910b01ffff0899248e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:31 +0000
Subject: [PATCH 057/102] fix: multi-channel audio is read by frame, and the
 file is closed whatever happens

---
 lube/sndfile.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lube/sndfile.cpp b/lube/sndfile.cpp
index 38ca37b..5b3be37 100644
--- a/lube/sndfile.cpp
+++ b/lube/sndfile.cpp
@@ -7,6 +7,7 @@
  *   Phil Garner, December 2013
  */
 
+#include <limits>
 #include <sndfile.h>
 #include <lube/module.h>
 
@@ -48,16 +49,20 @@ var sndfile::read(var iFile)
 
     // Read stuff
     mAttr["rate"] = sfInfo.samplerate;
-    int size = sfInfo.frames * sfInfo.channels;
     var data = 0.0f;
-    data.resize(size);
-    int nGot = sf_readf_float(snd, data.ptr<float>(), size);
-    if (nGot != size)
+    sf_count_t nGot = -1;
+    if (sfInfo.frames <= std::numeric_limits<int>::max() / sfInfo.channels)
+    {
+        data.array();
+        data.resize(sfInfo.frames * sfInfo.channels);
+        nGot = sf_readf_float(snd, data.ptr<float>(), sfInfo.frames);
+    }
+    sf_close(snd);
+    if (nGot != sfInfo.frames)
         throw error("sndfile::read: Size fuckup");
     if (sfInfo.channels != 1)
         // In place transpose for channels > 1
         data = data.view({(int)sfInfo.frames, sfInfo.channels}).transpose();
-    sf_close(snd);
     return data;
 }
 
-- 
2.43.0


From d0f04ab7e6643453e26782c846d82ccfb821d113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:32 +0000
Subject: [PATCH 058/102] fix: multi-channel audio is written by frame, and
 only from float data

---
 lube/sndfile.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lube/sndfile.cpp b/lube/sndfile.cpp
index 5b3be37..823de04 100644
--- a/lube/sndfile.cpp
+++ b/lube/sndfile.cpp
@@ -68,6 +68,9 @@ var sndfile::read(var iFile)
 
 void sndfile::write(var iFile, var iVar)
 {
+    if (!iVar || !iVar.atype<float>() || iVar.dim() > 2)
+        throw error("sndfile::write: Not a vector or matrix of float");
+
     // Open the file
     SF_INFO sfInfo;
     sfInfo.format = SF_FORMAT_WAV | SF_FORMAT_PCM_16 | SF_ENDIAN_FILE;
@@ -82,11 +85,11 @@ void sndfile::write(var iFile, var iVar)
     if (iVar.dim() > 1)
     {
         var tr = transpose(iVar);
-        n = (int)sf_writef_float(snd, tr.ptr<float>(), tr.size());
+        n = (int)sf_writef_float(snd, tr.ptr<float>(), tr.shape(0));
     }
     else
         n = (int)sf_writef_float(snd, iVar.ptr<float>(), iVar.size());
     sf_close(snd);
-    if (iVar.size() != n)
+    if (iVar.shape(-1) != n)
         throw error("sndfile::write: Size fuckup");
 }
-- 
2.43.0


From 174de8add9e6a4dcaaebd1e219a397298bad9286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:34 +0000
Subject: [PATCH 059/102] fix: a library without a factory is unloaded again

---
 lube/module.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lube/module.cpp b/lube/module.cpp
index de518bd..b876617 100644
--- a/lube/module.cpp
+++ b/lube/module.cpp
@@ -35,7 +35,12 @@ module::module(var iType)
     // Find the factory function
     *(void **)(&mFactory) = dlsym(mHandle, "factory");
     if ((dle = dlerror()) != NULL)
-        throw error(dle);
+    {
+        // The destructor isn't called if the constructor throws
+        var e = dle;
+        dlclose(mHandle);
+        throw error(e);
+    }
 }
 
 
-- 
2.43.0


From 80150e3635029d619007a35d5742343f2ab8dabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:36 +0000
Subject: [PATCH 060/102] fix: command line flags can be repeated

---
 lube/config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/config.cpp b/lube/config.cpp
index 18ac363..8382146 100644
--- a/lube/config.cpp
+++ b/lube/config.cpp
@@ -97,7 +97,7 @@ var Option::parse(int iArgc, char** iArgv)
         var o = (char)get();
         if (o == '?')
             usage(0);
-        var a = mOpts[o] ? arg() : 1;
+        var a = optarg ? arg() : 1;
         mOpts[o] = a;
     }
     return mOpts;
-- 
2.43.0


From f0fd157c8a882aff2534ce78b9a5fda2f4dd900d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:37 +0000
Subject: [PATCH 061/102] fix: plotting several views does not overwrite the
 first

---
 lube/gnuplot.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lube/gnuplot.cpp b/lube/gnuplot.cpp
index 303b06e..90c2646 100644
--- a/lube/gnuplot.cpp
+++ b/lube/gnuplot.cpp
@@ -68,7 +68,6 @@ var gnuplot::read(var iFile)
 
 void gnuplot::write(var iFile, var iVar)
 {
-    var line;
     if (iFile)
     {
         // Default to whatever gnuplot's default is, but if a file is supplied
@@ -82,7 +81,9 @@ void gnuplot::write(var iFile, var iVar)
     // Loop over the input var assuming it's an array of vars
     for (int i=0; i<iVar.size(); i++)
     {
-        line = iVar[i];
+        // Assigning to something that is already a view would overwrite it
+        var line = iVar[i];
+        line.dereference();
         switch (line.atype())
         {
         case TYPE_CHAR:
-- 
2.43.0


From 4f391a6735b397bb2f1d986ea1ba92e0fe54181c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:41 +0000
Subject: [PATCH 062/102] fix: a range from an array element does not change
 the element

---
 lube/var.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index e6b5121..6042cc1 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -923,6 +923,7 @@ var var::key(int iIndex) const
 var libube::irange(var iLo, var iHi, var iStep)
 {
     var r;
+    iLo.dereference(); // Or it would write to the array it refers to
     while (iLo < iHi)
     {
         r.push(iLo);
@@ -949,6 +950,7 @@ var libube::irange(var iHi)
 var libube::range(var iLo, var iHi, var iStep)
 {
     var r;
+    iLo.dereference(); // Or it would write to the array it refers to
     while (iLo <= iHi)
     {
         r.push(iLo);
-- 
2.43.0


From b09e7af7f072ca9c29e5ce819739886d1b349279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:44 +0000
Subject: [PATCH 063/102] fix: looking up a key of a number throws rather than
 dereferencing null

---
 lube/var.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 6042cc1..9ba7077 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -805,7 +805,7 @@ var var::operator [](var iVar)
         v.attach(new Heap(0, TYPE_PAIR));
     }
     else
-        if (v.heap() && !v.atype<pair>())
+        if (!v.heap() || !v.atype<pair>())
             // Fall back to normal array if the var can be cast to int
             return operator [](iVar.cast<int>());
     if (!iVar)
@@ -897,7 +897,7 @@ var var::at(var iVar) const
     if (!defined())
         throw error("var::at(): uninitialised");
     else
-        if (heap() && !atype<pair>())
+        if (!heap() || !atype<pair>())
             throw error("operator [var]: Not a map");
 
     int index = binary(iVar);
-- 
2.43.0


From 3fb9f77b734fbaef471cbde5eaec0127f0dc9b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:47 +0000
Subject: [PATCH 064/102] fix: a reference that is the last thing holding its
 array can be resized and indexed

---
 lube/var.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 9ba7077..f412c7e 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1381,6 +1381,16 @@ var var::reference(int iIndex) const
 }
 
 
+/**
+ * True if the heap is attached just once
+ */
+static bool sole(IHeap* iHeap)
+{
+    iHeap->attach();
+    return iHeap->detach() == 1;
+}
+
+
 /**
  * Converts a reference to an actual var in place
  *
@@ -1396,11 +1406,16 @@ var& var::dereference()
     var& r = varderef();
     if (&r != this)
     {
+        // If this is all that holds the array then the original goes away too,
+        // and the copy is what's left to modify
+        IHeap* hp = mData.hp;
+        bool last = sole(hp) && (!hp->view() || sole(hp->view()));
+
         // Set mType to not-a-reference, then let operator=() do the
         // housekeeping
         mType = 0;
         *this = r;
-        return r;
+        return last ? *this : r;
     }
     else
     {
-- 
2.43.0


From cc4d628b7aad14a86d20541c6fe009f7ba9677e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:50 +0000
Subject: [PATCH 065/102] fix: the element type name of an undefined var raises
 an exception

---
 lube/var.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index f412c7e..3210b6a 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1090,7 +1090,7 @@ var var::atypeStr() const
     if (type() == TYPE_ARRAY)
     {
         varstream s;
-        s << "array[" << libube::typeStr(heap()->type()) << "]";
+        s << "array[" << libube::typeStr(atype()) << "]";
         return var(s);
     }
     return typeStr();
-- 
2.43.0


From 8a59258900ca21d2f23fb1d2fe7aaaba7f4d5beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:40 +0000
Subject: [PATCH 066/102] fix: looking up a key with at() in a map that is an
 element finds that map's value

---
 lube/var.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 3210b6a..910e6db 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -900,10 +900,13 @@ var var::at(var iVar) const
         if (!heap() || !atype<pair>())
             throw error("operator [var]: Not a map");
 
-    int index = binary(iVar);
-    if ( (index >= size()) || (heap()->key(index) != iVar) )
+    // A reference to a map would otherwise refer to what holds the map
+    var v = *this;
+    v.dereference();
+    int index = v.binary(iVar);
+    if ( (index >= v.size()) || (v.heap()->key(index) != iVar) )
         return nil;
-    return reference(index);
+    return v.reference(index);
 }
 
 
-- 
2.43.0


From ff9b3e8738a41009fda4b6cc6df670cf6f09bca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:02 +0000
Subject: [PATCH 067/102] fix: an element of an array of var or a map can be
 assigned to itself

---
 lube/var.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 910e6db..0722217 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -344,14 +344,15 @@ var& var::operator =(var iVar)
     else
     {
         // Not a reference.  Record whether the old value was a heap
-        // allocation. If so, detach it after attaching the new value.
+        // allocation. If so, detach it after attaching the new value.  The new
+        // value could be a reference to this very var.
+        iVar.dereference();
         IHeap* tmp = ((mType == TYPE_ARRAY) && mData.hp) ? mData.hp : 0;
         mData = iVar.mData;
         mType = iVar.mType;
         attach();
         if (tmp)
             detach(tmp);
-        dereference();
     }
     return *this;
 }
-- 
2.43.0


From 9969bc395a2593c5b99e667c3e5f73705ce64124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:37 +0000
Subject: [PATCH 068/102] fix: single characters order as the bytes of strings
 do, so that the order is transitive

---
 lube/math.cpp | 5 ++++-
 lube/var.cpp  | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 7abff18..6e521e7 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1273,7 +1273,10 @@ void Sort::vector(var iVar, var& oVar) const
     switch (iVar.atype())
     {
     case TYPE_CHAR:
-        std::sort(iVar.ptr<char>(), iVar.ptr<char>()+size);
+        std::sort(
+            iVar.ptr<char>(), iVar.ptr<char>()+size,
+            [](unsigned char a, unsigned char b) { return a < b; }
+        );
         break;
     case TYPE_INT:
         std::sort(iVar.ptr<int>(), iVar.ptr<int>()+size);
diff --git a/lube/var.cpp b/lube/var.cpp
index 0722217..56d9bc1 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -600,7 +600,11 @@ bool var::operator <(var iVar) const
             return !heap() && iVar.heap();
         return heap()->lt(iVar.heap());
     case TYPE_CHAR:
-        return (get<char>() < iVar.get<char>());
+        // As in strings, which compare bytewise
+        return (
+            static_cast<unsigned char>(get<char>()) <
+            static_cast<unsigned char>(iVar.get<char>())
+        );
     case TYPE_INT:
         return (get<int>() < iVar.get<int>());
     case TYPE_LONG:
-- 
2.43.0


From efedc3f2a7d051e8c501668d11253bd07da841d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:56 +0000
Subject: [PATCH 069/102] fix: dot product with a vector of one element doesn't
 recurse indefinitely

---
 lube/func.cpp | 17 +++++++++++++++++
 lube/math.cpp | 24 ++++++++++++++++++++++++
 lube/math.h   |  1 +
 3 files changed, 42 insertions(+)

diff --git a/lube/func.cpp b/lube/func.cpp
index 3b7e8c1..543a12e 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -27,6 +27,18 @@ static int blocks(const var& iVar, int iDim)
 }
 
 
+/**
+ * True if the var is a single value.  Note that a cdouble looks like an array
+ * because it is stored on the heap.
+ */
+static bool single(const var& iVar)
+{
+    if (iVar.type() != TYPE_ARRAY)
+        return true;
+    return iVar.atype<cdouble>() && !iVar.view() && (iVar.size() == 1);
+}
+
+
 /**
  * The default allocator is simply to make a copy of the input variable with
  * the same type and shape.  Only the allocation is done; data is not copied.
@@ -277,6 +289,11 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     // Call back to the unary operator
     if ((dim2 == 1) && (iVar2.size() == 1))
     {
+        // If these are already scalars then scalar() wasn't overridden; calling
+        // it again would recurse indefinitely
+        if (single(iVar1) && single(oVar))
+            throw error("ArithmeticFunctor: not a scalar operation");
+
         // This could be parallel!
         for (int i=0; i<iVar1.size(); i++)
         {
diff --git a/lube/math.cpp b/lube/math.cpp
index 6e521e7..7db85ff 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -733,6 +733,30 @@ var Dot::alloc(var iVar1, var iVar2) const
 }
 
 
+void Dot::broadcast(var iVar1, var iVar2, var& oVar) const
+{
+    if ((iVar2.dim() != 1) || (iVar2.size() != 1))
+    {
+        ArithmeticFunctor::broadcast(iVar1, iVar2, oVar);
+        return;
+    }
+
+    // A vector of one element is still a vector; it's not a scalar to be
+    // broadcast over all the elements of iVar1.
+    if (iVar1.atype() != iVar2.atype())
+        throw error("Dot::broadcast: types must match");
+    int dim1 = iVar1.dim();
+    int dimO = oVar.dim();
+    int step1 = dim1 > 1 ? iVar1.stride(dim1-2) : iVar1.size();
+    int stepO = dimO > 1 ? oVar.stride(dimO-2) : oVar.size();
+    int nOps = 1;
+    for (int i=0; i<dim1-1; i++)
+        nOps *= iVar1.shape(i);
+    for (int i=0; i<nOps; i++)
+        vector(iVar1, step1*i, iVar2, 0, oVar, stepO*i);
+}
+
+
 void Dot::vector(
     var iVar1, ind iOffset1,
     var iVar2, ind iOffset2,
diff --git a/lube/math.h b/lube/math.h
index 3be44ed..34acb89 100644
--- a/lube/math.h
+++ b/lube/math.h
@@ -162,6 +162,7 @@ namespace libube
     {
     protected:
         var alloc(var iVar1, var iVar2) const;
+        void broadcast(var iVar1, var iVar2, var& oVar) const;
         void vector(
             var iVar1, ind iOffset1,
             var iVar2, ind iOffset2,
-- 
2.43.0


From 424f1ebf63172d48addfa43568c71c46d529ff5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:15 +0000
Subject: [PATCH 070/102] fix: concatenate rejects operands and outputs whose
 dimensions or types differ

---
 lube/math.cpp | 20 ++++++++++++++++++++
 lube/math.h   |  1 +
 2 files changed, 21 insertions(+)

diff --git a/lube/math.cpp b/lube/math.cpp
index 7db85ff..b3950f1 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1351,6 +1351,26 @@ var Concatenate::alloc(var iVar) const
 }
 
 
+void Concatenate::broadcast(var iVar, var& oVar) const
+{
+    // Everything has the leading dimensions of the output; an input with one
+    // fewer dimension is a single column
+    int dim = oVar.dim();
+    for (int v=0; v<iVar.size(); v++)
+    {
+        int vdim = iVar[v].dim();
+        if ((vdim != dim) && (vdim != dim-1))
+            throw error("Concatenate::broadcast: dimensions differ");
+        for (int d=0; d<dim-1; d++)
+            if (iVar[v].shape(d) != oVar.shape(d))
+                throw error("Concatenate::broadcast: shapes differ");
+        if (iVar[v].atype() != oVar.atype())
+            throw error("Concatenate::broadcast: types differ");
+    }
+    NaryFunctor::broadcast(iVar, oVar);
+}
+
+
 void Concatenate::vector(var iVar, var& oVar) const
 {
     int sum = 0;
diff --git a/lube/math.h b/lube/math.h
index 34acb89..4490260 100644
--- a/lube/math.h
+++ b/lube/math.h
@@ -285,6 +285,7 @@ namespace libube
     public:
         Concatenate() { mDim = 1; };
     protected:
+        void broadcast(var iVar, var& oVar) const;
         var alloc(var iVar) const;
         virtual void vector(var iVar, var& oVar) const;
     };
-- 
2.43.0


From 7bf2ea6e0f9b5315193cc5dc51a39950ff592984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:17 +0000
Subject: [PATCH 071/102] fix: transpose rejects an output of the wrong type or
 shape

---
 lube/transpose-mkl.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lube/transpose-mkl.cpp b/lube/transpose-mkl.cpp
index f2f43b3..6648be8 100644
--- a/lube/transpose-mkl.cpp
+++ b/lube/transpose-mkl.cpp
@@ -47,6 +47,22 @@ void Transpose::scalar(const var& iVar, var& oVar) const
     // already.  This leaves the in-place case; this happens after the
     // operation.
 
+    // If the output is supplied, check that it is indeed the transposed shape
+    if (!iVar.is(oVar))
+    {
+        int d = iVar.dim();
+        if (d < 2)
+            throw error("Transpose::scalar: dimension < 2");
+        if ((oVar.dim() != d) || (oVar.atype() != iVar.atype()))
+            throw error("Transpose::scalar: output does not match input");
+        for (int i=0; i<d; i++)
+        {
+            int j = (i == d-1) ? d-2 : (i == d-2) ? d-1 : i;
+            if (oVar.shape(i) != iVar.shape(j))
+                throw error("Transpose::scalar: output has the wrong shape");
+        }
+    }
+
     // Transpose always broadcasts to array()
     broadcast(iVar, oVar);
 
-- 
2.43.0


From 0bf527b5a19337b6ebdc25cf298a03d36a8e8333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:19 +0000
Subject: [PATCH 072/102] fix: DFT length is passed on as an MKL_LONG and must
 be positive

---
 lube/dft-mkl.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lube/dft-mkl.cpp b/lube/dft-mkl.cpp
index 1ba3411..6e74299 100644
--- a/lube/dft-mkl.cpp
+++ b/lube/dft-mkl.cpp
@@ -59,6 +59,11 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
     mImpl->inverse = iInverse;
     mImpl->forwardType = iForwardType;
 
+    // The length is a variadic argument below, so it must be the right type
+    if (iSize < 1)
+        throw error("DFTBase::DFTBase: size must be positive");
+    const MKL_LONG size = iSize;
+
     // Set the input and output types for a forward transform
     MKL_LONG r;
     switch (mImpl->forwardType.atype())
@@ -67,28 +72,28 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
         mImpl->inverseType = cfloat(0.0f, 0.0f);
         mImpl->oSize = iInverse ? iSize : iSize / 2 + 1;
         r = DftiCreateDescriptor(
-            &mImpl->handle, DFTI_SINGLE, DFTI_REAL, 1, iSize
+            &mImpl->handle, DFTI_SINGLE, DFTI_REAL, 1, size
         );
         break;
     case TYPE_DOUBLE:
         mImpl->inverseType = cdouble(0.0, 0.0);
         mImpl->oSize = iInverse ? iSize : iSize / 2 + 1;
         r = DftiCreateDescriptor(
-            &mImpl->handle, DFTI_DOUBLE, DFTI_REAL, 1, iSize
+            &mImpl->handle, DFTI_DOUBLE, DFTI_REAL, 1, size
         );
         break;
     case TYPE_CFLOAT:
         mImpl->inverseType = cfloat(0.0f, 0.0f);
         mImpl->oSize = iSize;
         r = DftiCreateDescriptor(
-            &mImpl->handle, DFTI_SINGLE, DFTI_COMPLEX, 1, iSize
+            &mImpl->handle, DFTI_SINGLE, DFTI_COMPLEX, 1, size
         );
         break;
     case TYPE_CDOUBLE:
         mImpl->inverseType = cdouble(0.0, 0.0);
         mImpl->oSize = iSize;
         r = DftiCreateDescriptor(
-            &mImpl->handle, DFTI_DOUBLE, DFTI_COMPLEX, 1, iSize
+            &mImpl->handle, DFTI_DOUBLE, DFTI_COMPLEX, 1, size
         );
         break;
     default:
-- 
2.43.0


From bd6a3a0a1948f13cfb048bbec81b24aa9712dd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:17 +0000
Subject: [PATCH 073/102] fix: mathematical functors reject outputs of the
 wrong type or shape

---
 lube/func.cpp | 11 ++++++++++
 lube/math.cpp | 60 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 70 insertions(+), 1 deletion(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index 543a12e..697df58 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -127,6 +127,8 @@ void UnaryFunctor::broadcast(var iVar, var& oVar) const
     // Call back to the unary operator
     if (mDim == 0)
     {
+        if (oVar.size() != iVar.size())
+            throw error("UnaryFunctor::broadcast: output has the wrong size");
         // This could be parallel!
         for (int i=0; i<iVar.size(); i++)
         {
@@ -152,6 +154,8 @@ void UnaryFunctor::broadcast(var iVar, var& oVar) const
     int stepI = dimI-mDim > 0 ? iVar.stride(dimI-mDim-1) : iVar.size();
     int stepO = dimO-mDim > 0 ? oVar.stride(dimO-mDim-1) : oVar.size();
     int nOps = blocks(iVar, dimI-mDim);
+    if ((mDim > dimO) || (blocks(oVar, dimO-mDim) != nOps))
+        throw error("UnaryFunctor::broadcast: output has the wrong shape");
     for (int i=0; i<nOps; i++)
         vector(iVar, stepI*i, oVar, stepO*i);
 }
@@ -294,6 +298,11 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
         if (single(iVar1) && single(oVar))
             throw error("ArithmeticFunctor: not a scalar operation");
 
+        if (oVar.size() != iVar1.size())
+            throw error(
+                "ArithmeticFunctor::broadcast: output has the wrong size"
+            );
+
         // This could be parallel!
         for (int i=0; i<iVar1.size(); i++)
         {
@@ -325,6 +334,8 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
     int step1 = dim1-dim2 > 0 ? iVar1.stride(dim1-dim2-1) : iVar1.size();
     int stepO = dimO-dim2 > 0 ? oVar.stride(dimO-dim2-1) : oVar.size();
     int nOps = blocks(iVar1, dim1-dim2);
+    if ((dim2 > dimO) || (blocks(oVar, dimO-dim2) != nOps))
+        throw error("ArithmeticFunctor::broadcast: output has the wrong shape");
     for (int i=0; i<nOps; i++)
         vector(iVar1, step1*i, iVar2, 0, oVar, stepO*i);
 }
diff --git a/lube/math.cpp b/lube/math.cpp
index b3950f1..8a6808a 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -140,6 +140,28 @@ static void conform(const var& iVar1, const var& iVar2)
 }
 
 
+/**
+ * Check that an output has the right type and last dimension.  The leading
+ * dimensions are checked when broadcasting.
+ */
+static void output(const var& oVar, ind iType, int iSize)
+{
+    if ((oVar.atype() != iType) || (oVar.shape(-1) != iSize))
+        throw error("math: output has the wrong type or shape");
+}
+
+
+/**
+ * Check that an output has the type and shape of the input
+ */
+static void output(const var& oVar, const var& iVar)
+{
+    if ((oVar.atype() != iVar.atype()) || (oVar.dim() != iVar.dim()))
+        throw error("math: output has the wrong type or shape");
+    conform(oVar, iVar);
+}
+
+
 #define CMATH_UNARY_FUNCTOR(F,f)                                        \
     void F::scalar(const var& iVar, var& oVar) const                    \
     {                                                                   \
@@ -266,6 +288,7 @@ void Set::vector(
 {
     assert(type(iVar1) == TYPE_ARRAY);
     conform(iVar1, iVar2);
+    output(oVar, iVar1);
     int size = iVar2.size();
     switch(iVar1.atype())
     {
@@ -401,6 +424,7 @@ void Add::vector(
 {
     assert(type(iVar1) == TYPE_ARRAY);
     conform(iVar1, iVar2);
+    output(oVar, iVar1);
     int size = iVar2.size();
     bool inPlace = iVar1.is(oVar);
     switch(iVar1.atype())
@@ -507,6 +531,7 @@ void Sub::vector(
 {
     assert(type(iVar1) == TYPE_ARRAY);
     conform(iVar1, iVar2);
+    output(oVar, iVar1);
     int size = iVar2.size();
     bool inPlace = iVar1.is(oVar);
     switch(iVar1.atype())
@@ -564,6 +589,7 @@ void Mul::broadcast(var iVar1, var iVar2, var& oVar) const
 void Mul::scale(var iVar1, var iVar2, var& oVar, int iOffset) const
 {
     assert(type(iVar1) == TYPE_ARRAY);
+    output(oVar, iVar1);
     int size = iVar1.size();
     if (oVar.is(iVar1))
     {
@@ -665,6 +691,7 @@ void Mul::vector(
     // superdiagonals.
     assert(type(iVar1) == TYPE_ARRAY);
     conform(iVar1, iVar2);
+    output(oVar, iVar1);
     int size = iVar2.size();
     if (iVar1.is(oVar))
     {
@@ -752,6 +779,8 @@ void Dot::broadcast(var iVar1, var iVar2, var& oVar) const
     int nOps = 1;
     for (int i=0; i<dim1-1; i++)
         nOps *= iVar1.shape(i);
+    if (oVar.size() != nOps)
+        throw error("Dot::broadcast: output has the wrong shape");
     for (int i=0; i<nOps; i++)
         vector(iVar1, step1*i, iVar2, 0, oVar, stepO*i);
 }
@@ -770,6 +799,7 @@ void Dot::vector(
     if (iVar2.dim() == 1)
     {
         conform(iVar1, iVar2);
+        output(oVar, iVar1.atype(), 1);
         // It's a one dimensional thing, so do it as a dot product with
         // blas::dot()
         int size = iVar2.size();
@@ -817,6 +847,9 @@ void Dot::vector(
         // with blas::gemm()
         if (iVar1.shape(-1) != iVar2.shape(0))
             throw error("Dot::vector: Shapes not compatible");
+        output(oVar, iVar1.atype(), iVar2.shape(1));
+        if (oVar.shape(-2) != iVar1.shape(-2))
+            throw error("Dot::vector: output has the wrong shape");
         switch(iVar1.atype())
         {
         case TYPE_FLOAT:
@@ -930,15 +963,19 @@ void ASum::scalar(const var& iVar, var& oVar) const
         broadcast(iVar, oVar);
         break;
     case TYPE_FLOAT:
+        output(oVar, TYPE_FLOAT, 1);
         *oVar.ptr<float>() = std::abs(iVar.get<float>());
         break;
     case TYPE_DOUBLE:
+        output(oVar, TYPE_DOUBLE, 1);
         *oVar.ptr<double>() = std::abs(iVar.get<double>());
         break;
     case TYPE_CFLOAT:
+        output(oVar, TYPE_FLOAT, 1);
         *oVar.ptr<float>() = std::abs(iVar.get<cfloat>());
         break;
     case TYPE_CDOUBLE:
+        output(oVar, TYPE_DOUBLE, 1);
         *oVar.ptr<double>() = std::abs(iVar.get<cdouble>());
         break;
     default:
@@ -950,6 +987,7 @@ void ASum::scalar(const var& iVar, var& oVar) const
 void ASum::vector(var iVar, ind iOffsetI, var& oVar, ind iOffsetO) const
 {
     assert(type(iVar) == TYPE_ARRAY);
+    output(oVar, iVar.atype(), 1);
     int size = iVar.shape(-1);
     switch(iVar.atype())
     {
@@ -982,15 +1020,19 @@ void Sum::scalar(const var& iVar, var& oVar) const
         broadcast(iVar, oVar);
         break;
     case TYPE_FLOAT:
+        output(oVar, TYPE_FLOAT, 1);
         *oVar.ptr<float>() = iVar.get<float>();
         break;
     case TYPE_DOUBLE:
+        output(oVar, TYPE_DOUBLE, 1);
         *oVar.ptr<double>() = iVar.get<double>();
         break;
     case TYPE_CFLOAT:
+        output(oVar, TYPE_CFLOAT, 1);
         *oVar.ptr<cfloat>() = iVar.get<cfloat>();
         break;
     case TYPE_CDOUBLE:
+        output(oVar, TYPE_CDOUBLE, 1);
         *oVar.ptr<cdouble>() = iVar.get<cdouble>();
         break;
     default:
@@ -1012,6 +1054,7 @@ T sumArray(int iSize, T* iPointer)
 void Sum::vector(var iVar, ind iOffsetI, var& oVar, ind iOffsetO) const
 {
     assert(type(iVar) == TYPE_ARRAY);
+    output(oVar, iVar.atype(), 1);
     int size = iVar.shape(-1);
     switch(iVar.atype())
     {
@@ -1062,6 +1105,7 @@ void IAMax::vector(
     assert(type(iVar) == TYPE_ARRAY);
     if (iVar.is(oVar))
         throw error("IAMax::vector: Cannot operate in place");
+    output(oVar, TYPE_LONG, 1);
 
     int size = iVar.shape(-1);
     switch(iVar.atype())
@@ -1150,8 +1194,21 @@ var Roots::alloc(var iVar) const
 
 void Roots::vector(var iVar, var& oVar) const
 {
+    // The number of roots is one less than the number of coefficients
+    int size = iVar.size() - 1;
+    switch (iVar.atype())
+    {
+    case TYPE_FLOAT:
+        output(oVar, TYPE_CFLOAT, size);
+        break;
+    case TYPE_DOUBLE:
+        output(oVar, TYPE_CDOUBLE, size);
+        break;
+    default:
+        throw error("Roots::vector: Unknown type");
+    }
+
     // Form the companion matrix of the polynomial
-    int size = oVar.size();
     var a = var(size*size, iVar.at(0)).view({size, size});
     for (int r=1; r<size; r++)
         a(r, size-1) = 0.0;
@@ -1269,6 +1326,7 @@ void polyt(int iOrder, T* iData, T* oData)
 void Poly::vector(var iVar, var& oVar) const
 {
     int order = iVar.shape(-1);
+    output(oVar, iVar.atype(), order+1);
     switch (iVar.atype())
     {
     case TYPE_FLOAT:
-- 
2.43.0


From 543dbf866fddb6ff195aafc633c5111bece76937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:20 +0000
Subject: [PATCH 074/102] fix: roots of polynomials of degree one or zero

---
 lube/math.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lube/math.cpp b/lube/math.cpp
index 8a6808a..9189785 100644
--- a/lube/math.cpp
+++ b/lube/math.cpp
@@ -1208,8 +1208,11 @@ void Roots::vector(var iVar, var& oVar) const
         throw error("Roots::vector: Unknown type");
     }
 
+    if (size == 0)
+        return;
+
     // Form the companion matrix of the polynomial
-    var a = var(size*size, iVar.at(0)).view({size, size});
+    var a = view({size, size}, iVar.at(0));
     for (int r=1; r<size; r++)
         a(r, size-1) = 0.0;
     for (int r=0; r<size-1; r++)
-- 
2.43.0


From 38ef954204d126f706e2542e4828dfe63f8deb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:44 +0000
Subject: [PATCH 075/102] fix: string functors broadcast out of place over
 nested arrays and maps

---
 lube/string.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lube/string.cpp b/lube/string.cpp
index c4a6918..a026e13 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -41,6 +41,13 @@ var StringFunctor::alloc(var iVar) const
 {
     var r;
     r = iVar.copy(true);
+    // The keys of a map are not part of the operation
+    if (iVar.atype<pair>())
+    {
+        r.clear();
+        for (int i=0; i<iVar.size(); i++)
+            r[iVar.key(i)] = nil;
+    }
     return r;
 }
 
@@ -86,8 +93,11 @@ void StringFunctor::broadcast(var iVar, var& oVar) const
     // This could be parallel!
     for (int i=0; i<iVar.size(); i++)
     {
+        var val = iVar.at(i);
         var ref = oVar.at(i);
-        operator()(iVar.at(i), ref);
+        if (!ref.defined() && val.heap() && !val.atype<char>())
+            ref = alloc(val);
+        operator()(val, ref);
     }
 }
 
-- 
2.43.0


From 6883cfb716cce155a5ae6b06d64b772c6439b6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:49 +0000
Subject: [PATCH 076/102] fix: a GEDCOM continuation line does not swallow the
 lines beside it

---
 lube/gedfile.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/gedfile.cpp b/lube/gedfile.cpp
index 201dc62..cb774d9 100644
--- a/lube/gedfile.cpp
+++ b/lube/gedfile.cpp
@@ -472,7 +472,7 @@ int GEDCOM::doContinue(int iLevel, var iToken)
         }
         level = readLine();
     }
-    while (level >= iLevel);
+    while (level > iLevel);
     return level;
 }
 
-- 
2.43.0


From b1be2d1c6680d0376edc71f53ec1af2049a337cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:27 +0000
Subject: [PATCH 077/102] fix: exceptions in XML callbacks do not pass through
 the parser, which leaked its memory

---
 lube/xmlfile.cpp | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index 7dba6cb..ce8f488 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -7,6 +7,7 @@
  *   Phil Garner, October 2013
  */
 
+#include <exception>
 #include <fstream>
 #include <stdexcept>
 #include <lube/module.h>
@@ -40,10 +41,12 @@ namespace libube
         void startElementHandler(const XML_Char *iName, const XML_Char **iAtts);
         void endElementHandler(const XML_Char *iName);
         void characterDataHandler(const XML_Char *iStr, int iLen);
+        void fail();
     private:
         var mVar;            ///< Var to populate during parse
         var mStack;          ///< Parse stack
         XML_Parser mParser;  ///< The expat parser
+        std::exception_ptr mError; ///< What a callback threw, if anything
         var element();
     };
 
@@ -101,7 +104,8 @@ static void DefaultHandler(
 
     var str(iLen, iStr);
     std::cout << "expat::DefaultHandler: " << str << std::endl;
-    throw error("xmlfile: default handler called");
+    try { throw error("xmlfile: default handler called"); }
+    catch (...) { ((Expat*)iUserData)->fail(); }
 }
 
 
@@ -124,7 +128,8 @@ static void StartElementHandler(
     void *iUserData, const XML_Char *iName, const XML_Char **iAtts
 )
 {
-    return ((Expat*)iUserData)->startElementHandler(iName, iAtts);
+    try { ((Expat*)iUserData)->startElementHandler(iName, iAtts); }
+    catch (...) { ((Expat*)iUserData)->fail(); }
 }
 
 
@@ -132,7 +137,8 @@ static void EndElementHandler(
     void *iUserData, const XML_Char *iName
 )
 {
-    return ((Expat*)iUserData)->endElementHandler(iName);
+    try { ((Expat*)iUserData)->endElementHandler(iName); }
+    catch (...) { ((Expat*)iUserData)->fail(); }
 }
 
 
@@ -140,7 +146,8 @@ static void CharacterDataHandler(
     void *iUserData, const XML_Char *iStr, int iLen
 )
 {
-    return ((Expat*)iUserData)->characterDataHandler(iStr, iLen);
+    try { ((Expat*)iUserData)->characterDataHandler(iStr, iLen); }
+    catch (...) { ((Expat*)iUserData)->fail(); }
 }
 
 
@@ -184,10 +191,14 @@ var Expat::parse(const char* iFile)
         if (s)
             // getline() removes the newline, but it also separates attributes
             s = XML_Parse(mParser, "\n", 1, 0);
+        if (mError)
+            std::rethrow_exception(mError);
         if (!s)
             throw error("xmlfile::parse(): Error!");
     }
     s = XML_Parse(mParser, f.str(), 0, 1);
+    if (mError)
+        std::rethrow_exception(mError);
     if (!s)
         throw error("xmlfile::parse(): Error!");
     if (mStack.size() != 0)
@@ -197,6 +208,18 @@ var Expat::parse(const char* iFile)
 }
 
 
+/**
+ * Keeps what a callback threw until parse() can throw it.  It can't go through
+ * the expat library, which is not C++.
+ */
+void Expat::fail()
+{
+    if (!mError)
+        mError = std::current_exception();
+    XML_StopParser(mParser, XML_FALSE);
+}
+
+
 var Expat::element()
 {
     static var elem;
-- 
2.43.0


From 33ec280c713d5eabfb02208b623e1387b823f2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:02 +0000
Subject: [PATCH 078/102] fix: a new Option starts afresh after an abandoned
 command line

---
 lube/config.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lube/config.cpp b/lube/config.cpp
index 8382146..0491cf5 100644
--- a/lube/config.cpp
+++ b/lube/config.cpp
@@ -16,7 +16,13 @@ using namespace libube;
 
 Option::Option()
 {
-    optind = 1; // Resets getopt.  This class should be a singleton.
+    // Resets getopt.  This class should be a singleton.  Zero has it forget where
+    // in a previous command line it was, but only once it is called.
+    char name[] = "";
+    char* argv[] = {name, 0};
+    optind = 0;
+    getopt(1, argv, "");
+    optind = 1;
     mArgc = 0;
     mArgv = 0;
     mOptString = "";
-- 
2.43.0


From 5332656aa16c01de86573e8a93eaee90165f4649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:11 +0000
Subject: [PATCH 079/102] fix: path::tree() copes with links that can't be
 followed

---
 lube/path.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lube/path.cpp b/lube/path.cpp
index c07e093..3c7ddb6 100644
--- a/lube/path.cpp
+++ b/lube/path.cpp
@@ -99,7 +99,7 @@ var Path::tree(std::filesystem::path iPath)
     var dir;
     fs::directory_iterator end;
     for (fs::directory_iterator it(iPath); it != end; it++)
-        if (fs::is_directory(*it) && !fs::is_symlink(*it))
+        if (!fs::is_symlink(*it) && fs::is_directory(*it))
             dir[it->path().filename().string().c_str()] = tree(*it);
         else
             dir[it->path().filename().string().c_str()] = nil;
-- 
2.43.0


From 522ae4b25ab71d8cbe64be38451dbe9bfdc0205b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:10 +0000
Subject: [PATCH 080/102] fix: graph::addEdge() rejects negative vertices

---
 lube/graph.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lube/graph.cpp b/lube/graph.cpp
index 16b1c1c..bbe6ccf 100644
--- a/lube/graph.cpp
+++ b/lube/graph.cpp
@@ -48,6 +48,9 @@ using namespace libube;
 
 void Graph::addEdge(ind iVertex1, ind iVertex2)
 {
+    if (iVertex1 < 0 || iVertex2 < 0)
+        throw error("addEdge: negative vertex");
+
     // An edge is some non-trivial thing; it does ot cast to an integer type
     std::pair<edge, bool> ret;
     ret = add_edge(iVertex1, iVertex2, mGraph);
-- 
2.43.0


From fc9b20282cf33544da8a6770c142705847adfc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:18 +0000
Subject: [PATCH 081/102] fix: graph::writeGraphViz() reports a file it can't
 open

---
 lube/graph.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/graph.cpp b/lube/graph.cpp
index bbe6ccf..c135265 100644
--- a/lube/graph.cpp
+++ b/lube/graph.cpp
@@ -85,6 +85,8 @@ private:
 void Graph::writeGraphViz(var iFileName)
 {
     std::ofstream ofs(iFileName.str(), std::ofstream::out);
+    if (ofs.fail())
+        throw error("writeGraphViz: Open failed");
     LabelWriter lw(mGraph);
     write_graphviz(ofs, mGraph, lw);
 }
-- 
2.43.0


From b8c0dcb68756419ccb23655979ab06737fa1ef73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:13 +0000
Subject: [PATCH 082/102] fix: range() and irange() reject arguments for which
 they would never end

---
 lube/var.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lube/var.cpp b/lube/var.cpp
index 56d9bc1..40ec997 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -923,6 +923,20 @@ var var::key(int iIndex) const
 }
 
 
+/**
+ * Throws unless the arguments are something from which to generate a range that
+ * comes to an end.
+ */
+static void rangeCheck(var iLo, var iHi, var iStep)
+{
+    if (!iLo || iLo.heap() || (iLo.type() != iHi.type()))
+        throw error("range(): Limits must be scalars of the same type");
+    var zero = iLo - iLo;
+    if (iLo <= iHi && !(zero + iStep > zero))
+        throw error("range(): Step must be positive");
+}
+
+
 /**
  * Generate a range of indeces.  Does pretty much what python's range() does,
  * in that the higher value is not included, and it starts at 0 if the lower
@@ -932,10 +946,13 @@ var libube::irange(var iLo, var iHi, var iStep)
 {
     var r;
     iLo.dereference(); // Or it would write to the array it refers to
+    rangeCheck(iLo, iHi, iStep);
     while (iLo < iHi)
     {
         r.push(iLo);
         iLo += iStep;
+        if (iLo <= r.top())
+            break; // It wrapped around
     }
     return r;
 }
@@ -959,10 +976,13 @@ var libube::range(var iLo, var iHi, var iStep)
 {
     var r;
     iLo.dereference(); // Or it would write to the array it refers to
+    rangeCheck(iLo, iHi, iStep);
     while (iLo <= iHi)
     {
         r.push(iLo);
         iLo += iStep;
+        if (iLo <= r.top())
+            break; // It wrapped around
     }
     return r;
 }
-- 
2.43.0


From e8a7d7af4bcbc8b4e5f66bc0d84eae760fe2d827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:13 +0000
Subject: [PATCH 083/102] fix: insert() and remove() move elements that are
 views instead of writing into them

---
 lube/var.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 40ec997..3411496 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1233,11 +1233,12 @@ var& var::insert(var iVar, int iIndex)
 
     if (heap() && atype<var>())
     {
-        // Implies array; insert a single var
+        // Implies array; insert a single var.  The elements are cleared first
+        // as assigning to a view would copy into it.
         resize(size()+1);
         for (int i=size()-1; i>iIndex; i--)
-            at(i) = at(i-1);
-        at(iIndex) = iVar;
+            at(i).clear() = at(i-1);
+        at(iIndex).clear() = iVar;
     }
     else if (heap() && atype<pair>())
     {
@@ -1245,10 +1246,10 @@ var& var::insert(var iVar, int iIndex)
         resize(size()+1);
         for (int i=size()-1; i>iIndex; i--)
         {
-            heap()->key(i) = heap()->key(i-1);
-            at(i) = at(i-1);
+            heap()->key(i).clear() = heap()->key(i-1);
+            at(i).clear() = at(i-1);
         }
-        heap()->key(iIndex) = iVar;
+        heap()->key(iIndex).clear() = iVar;
         at(iIndex).clear();
     }
     else
@@ -1284,8 +1285,11 @@ var var::remove(int iIndex)
     r.dereference();
     for (int i=iIndex+1; i<v.size(); i++)
     {
+        // As for insert(), assigning to a view would copy into it
         if (v.atype<pair>())
-            v.heap()->key(i-1) = v.heap()->key(i);
+            v.heap()->key(i-1).clear() = v.heap()->key(i);
+        if (v.atype<pair>() || v.atype<var>())
+            v.at(i-1).clear();
         v.at(i-1) = v.at(i);
     }
     v.resize(v.size()-1);
-- 
2.43.0


From 5f21dd1fd18a8e0a66b3a260cd589153704fcf56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:56 +0000
Subject: [PATCH 084/102] fix: a unary functor's output blocks have its own
 dimension whatever the leading dimensions

---
 lube/func.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index 697df58..da3e289 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -93,11 +93,10 @@ void UnaryFunctor::scalar(const var& iVar, var& oVar) const
  */
 void UnaryFunctor::vector(var iVar, ind iIOffset, var& oVar, ind iOOffset) const
 {
-    int dimI = iVar.dim();
-    int dimO = oVar.dim();
-    int cdim = dimI - mDim;
-    var iv = iVar.subview(dimI-cdim, iIOffset);
-    var ov = oVar.subview(dimO-cdim, iOOffset);
+    // broadcast() only checks that the number of operations is the same, so
+    // the leading dimensions can differ
+    var iv = iVar.subview(mDim, iIOffset);
+    var ov = oVar.subview(mDim, iOOffset);
     vector(iv, ov);
 }
 
-- 
2.43.0


From 6d2af0ba4ec32a86d13f41e2a2580daaee07e10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:59 +0000
Subject: [PATCH 085/102] fix: binary and n-ary functors reject operands with
 different numbers of blocks before doing any

---
 lube/func.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lube/func.cpp b/lube/func.cpp
index da3e289..c02861f 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -268,10 +268,13 @@ void BinaryFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
         throw error("var::broadcast: input dimension too small");
 
     // Assume that the common dimension is to be broadcast over.
+    int nOps = blocks(iVar1, cdim);
+    if ((cdim > iVar2.dim()) || (blocks(iVar2, cdim) != nOps) ||
+        (cdim >  oVar.dim()) || (blocks( oVar, cdim) != nOps))
+        throw error("var::broadcast: common dimensions differ");
     int step1 = cdim > 0 ? iVar1.stride(cdim-1) : 0;
     int step2 = cdim > 0 ? iVar2.stride(cdim-1) : 0;
     int stepO = cdim > 0 ?  oVar.stride(cdim-1) : 0;
-    int nOps = blocks(iVar1, cdim);
     for (int i=0; i<nOps; i++)
         vector(iVar1, step1*i, iVar2, step2*i, oVar, stepO*i);
 }
@@ -433,6 +436,9 @@ void NaryFunctor::broadcast(var iVar, var& oVar) const
     // Assume that the common dimension is to be broadcast over.
     int stepO = cdim > 0 ?  oVar.stride(cdim-1) : 0;
     int nOps = blocks(oVar, cdim);
+    for (int i=0; i<iVar.size(); i++)
+        if ((cdim > iVar[i].dim()) || (blocks(iVar[i], cdim) != nOps))
+            throw error("var::broadcast: common dimensions differ");
     for (int i=0; i<nOps; i++)
     {
         var iv;
-- 
2.43.0


From 9c997fdfeab6ae191f0cc319d42cf51a2a22d12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:01 +0000
Subject: [PATCH 086/102] fix: arithmetic functors that take views are given
 the right blocks of both operands

---
 lube/func.cpp | 19 +++++++++++++++++++
 lube/func.h   |  6 ++++++
 2 files changed, 25 insertions(+)

diff --git a/lube/func.cpp b/lube/func.cpp
index c02861f..da412ce 100644
--- a/lube/func.cpp
+++ b/lube/func.cpp
@@ -343,6 +343,25 @@ void ArithmeticFunctor::broadcast(var iVar1, var iVar2, var& oVar) const
 }
 
 
+/**
+ * As for BinaryFunctor, this default implementation encodes the offsets into
+ * views.  Here, though, the dimension of the operation is that of iVar2, all
+ * of which is used each time.
+ */
+void ArithmeticFunctor::vector(
+    var iVar1, ind iOffset1,
+    var iVar2, ind iOffset2,
+    var& oVar, ind iOffsetO
+) const
+{
+    int dim2 = iVar2.dim();
+    var iv1 = iVar1.subview(dim2, iOffset1);
+    var iv2 = iVar2.subview(dim2, iOffset2);
+    var ov = oVar.subview(dim2, iOffsetO);
+    vector(iv1, iv2, ov);
+}
+
+
 /**
  * The allocator for a N-ary functor
  */
diff --git a/lube/func.h b/lube/func.h
index f267c34..3e39322 100644
--- a/lube/func.h
+++ b/lube/func.h
@@ -90,7 +90,13 @@ namespace libube
     class ArithmeticFunctor : public BinaryFunctor
     {
     protected:
+        using BinaryFunctor::vector;
         virtual void broadcast(var iVar1, var iVar2, var& oVar) const;
+        virtual void vector(
+            var iVar1, ind iOffset1,
+            var iVar2, ind iOffset2,
+            var& oVar, ind iOffsetO
+        ) const;
     };
 
 
-- 
2.43.0


From 89494899a091586928c9568ac04fb6c0115dae77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:27 +0000
Subject: [PATCH 087/102] fix: str() rejects arrays that are not strings
 instead of having them read past their end

---
 lube/var.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 3411496..4c7cc36 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -214,7 +214,11 @@ const char* var::str() const
     // The static is a cheap trick to avoid thinking about references for the
     // moment
     static char z = 0;
-    return heap() ? heap()->ptrchar() : &z;
+    if (!heap())
+        return &z;
+    if (!atype<char>())
+        throw error("var::str(): not a string");
+    return heap()->ptrchar();
 }
 
 
-- 
2.43.0


From 39c75858969f0f2ffec839de0d622fda25bd5db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:31 +0000
Subject: [PATCH 088/102] fix: copy() of a reference to a single value is a
 copy and not another reference

---
 lube/var.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 4c7cc36..6d88b05 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -636,12 +636,15 @@ bool var::operator <(var iVar) const
  */
 var var::copy(bool iAllocOnly) const
 {
-    // Deref and return if there's no heap
+    // Deref and return if there's no heap; it's the assignment that derefs
+    var r;
     if (!heap())
-        return *this;
+    {
+        r = *this;
+        return r;
+    }
 
     // It's a heap
-    var r;
     if (view())
         r.attach(new View(*heap(), iAllocOnly));
     else
-- 
2.43.0


From 673f40981090f9feb1e99f35d651e99640171603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:25 +0000
Subject: [PATCH 089/102] fix: strip() in place of a view that it can not
 resize leaves it alone

---
 lube/string.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/string.cpp b/lube/string.cpp
index a026e13..587cce4 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -258,6 +258,8 @@ void Strip::string(const var& iVar, var& oVar) const
     int newSize = is - leading - trailing;
     if (iVar.is(oVar))
     {
+        if ((newSize != is) && oVar.view())
+            throw error("Strip::string(): can not resize a view");
         if (leading > 0)
             std::memmove(op, op+leading, newSize);
         if (newSize != oVar.size())
-- 
2.43.0


From 1604e89cf1093c5a8baf0727dab8d4c3fc3bcdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:07 +0000
Subject: [PATCH 090/102] fix: report text, INI and XML files that could not be
 written completely

---
 lube/inifile.cpp | 3 +++
 lube/txtfile.cpp | 3 +++
 lube/xmlfile.cpp | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/lube/inifile.cpp b/lube/inifile.cpp
index b765652..7d11e90 100644
--- a/lube/inifile.cpp
+++ b/lube/inifile.cpp
@@ -78,4 +78,7 @@ void inifile::write(var iFile, var iVar)
         throw error("inifile::write(): Open failed");
     for (int i=0; i<iVar.size(); i++)
         os << iVar.at(i) << std::endl;
+    os.close();
+    if (os.fail())
+        throw error("inifile::write(): Write failed");
 }
diff --git a/lube/txtfile.cpp b/lube/txtfile.cpp
index 404ac12..1040532 100644
--- a/lube/txtfile.cpp
+++ b/lube/txtfile.cpp
@@ -50,4 +50,7 @@ void txtfile::write(var iFile, var iVar)
         throw error("txtfile::write(): Open failed");
     for (int i=0; i<iVar.size(); i++)
         os << iVar.at(i) << std::endl;
+    os.close();
+    if (os.fail())
+        throw error("txtfile::write(): Write failed");
 }
diff --git a/lube/xmlfile.cpp b/lube/xmlfile.cpp
index ce8f488..392b8aa 100644
--- a/lube/xmlfile.cpp
+++ b/lube/xmlfile.cpp
@@ -288,6 +288,9 @@ void XMLWriter::write(const char* iFile, var iVar)
     if (!writeElem(os, iVar))
         throw error("xmlwriter::write(): Top level not element");
     os << std::endl;
+    os.close();
+    if (os.fail())
+        throw error("xmlwriter::write(): Write failed");
 }
 
 bool XMLWriter::writeElem(std::ofstream& iOS, var iVar)
-- 
2.43.0


From 3c582a9a7025d1a2a0c4d84ff79d8af9bff50eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:43 +0000
Subject: [PATCH 091/102] fix: split() on white space in to at most one piece
 gives one

---
 lube/string.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/string.cpp b/lube/string.cpp
index 587cce4..cb64408 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -196,6 +196,8 @@ var var::split(int iMax) const
     const char* source = this->str();
     const char* p = source;
     while (std::isspace(*p)) { ++p; }
+    if (*p && iMax == 1)
+        return r.push(p);
     while (*p)
     {
         const char* beg = p;
-- 
2.43.0


From a2927f72bbff6a4cce0b352ec4c90267e81959db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:07 +0000
Subject: [PATCH 092/102] fix: a reference in to a view is not dereferenced by
 writing to the view

---
 lube/var.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lube/var.cpp b/lube/var.cpp
index 6d88b05..386ea00 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1450,10 +1450,12 @@ var& var::dereference()
         IHeap* hp = mData.hp;
         bool last = sole(hp) && (!hp->view() || sole(hp->view()));
 
-        // Set mType to not-a-reference, then let operator=() do the
-        // housekeeping
-        mType = 0;
-        *this = r;
+        // Attach the new value before detaching the array that holds it.  This
+        // isn't operator=(); if the array is a view, that could write to it.
+        mData = r.mData;
+        mType = r.mType;
+        attach();
+        detach(hp);
         return last ? *this : r;
     }
     else
-- 
2.43.0


From c9c05a18e334d03f6a9b5e070b142db9cc3d1fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:28 +0000
Subject: [PATCH 093/102] fix: copies of the DFT and regular expression
 functors free what they share once

---
 lube/dft-kiss.cpp | 20 +++++++++-----------
 lube/dft-mkl.cpp  |  9 ++-------
 lube/dft.h        |  4 +++-
 lube/regex.h      |  4 +++-
 lube/string.cpp   | 13 ++++++-------
 5 files changed, 23 insertions(+), 27 deletions(-)

diff --git a/lube/dft-kiss.cpp b/lube/dft-kiss.cpp
index 651cbd5..ee00514 100644
--- a/lube/dft-kiss.cpp
+++ b/lube/dft-kiss.cpp
@@ -26,6 +26,13 @@ namespace kissfft
  */
 struct libube::DFTImpl
 {
+    DFTImpl() : config(0) { kissfft::sInstanceCount++; };
+    ~DFTImpl()
+    {
+        free(config);
+        if (--kissfft::sInstanceCount == 0)
+            kiss_fft_cleanup();
+    };
     void* config;
     var forwardType;
     var inverseType;
@@ -46,11 +53,10 @@ using namespace libube;
  */
 DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
 {
-    mImpl = new DFTImpl;
+    mImpl.reset(new DFTImpl);
 
     // It's a 1 dimensional thing (for now)
     mDim = 1;
-    mImpl->config = 0;
     mImpl->inverse = iInverse;
     mImpl->forwardType = iForwardType;
 
@@ -82,19 +88,11 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
     default:
         throw error("DFTBase::DFTBase: Unknown type");
     }
-    
-    // Update the instance count
-    kissfft::sInstanceCount++;
 }
 
 DFTBase::~DFTBase()
 {
-    free(mImpl->config);
-    delete mImpl;
-    mImpl = 0;
-
-    if (--kissfft::sInstanceCount == 0)
-        kiss_fft_cleanup();
+    // The last copy of mImpl frees it
 }
 
 var DFTBase::alloc(var iVar) const
diff --git a/lube/dft-mkl.cpp b/lube/dft-mkl.cpp
index 6e74299..919af1e 100644
--- a/lube/dft-mkl.cpp
+++ b/lube/dft-mkl.cpp
@@ -8,7 +8,6 @@
  */
 
 #include <cassert>
-#include <memory>
 #include <mkl_dfti.h>
 
 #include "lube/dft.h"
@@ -49,9 +48,7 @@ void dftiCheck(MKL_LONG iReturn)
  */
 DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
 {
-    // Owned locally until the constructor can no longer throw
-    std::unique_ptr<DFTImpl> impl(new DFTImpl);
-    mImpl = impl.get();
+    mImpl.reset(new DFTImpl);
 
     // It's a 1 dimensional thing (for now)
     mDim = 1;
@@ -112,13 +109,11 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
 
     r = DftiCommitDescriptor(mImpl->handle);
     dftiCheck(r);
-    impl.release();
 }
 
 DFTBase::~DFTBase()
 {
-    delete mImpl;
-    mImpl = 0;
+    // The last copy of mImpl frees it
 }
 
 var DFTBase::alloc(var iVar) const
diff --git a/lube/dft.h b/lube/dft.h
index 45864e9..25629ce 100644
--- a/lube/dft.h
+++ b/lube/dft.h
@@ -10,6 +10,7 @@
 #ifndef DFT_H
 #define DFT_H
 
+#include <memory>
 #include <lube/var.h>
 
 namespace libube
@@ -37,7 +38,8 @@ namespace libube
         void scalar(const var& iVar, var& oVar) const;
         void vector(var iVar, ind iOffsetI, var& oVar, ind iOffsetO) const;
     private:
-        DFTImpl* mImpl;
+        // Shared so that copies of the functor free it just once
+        std::shared_ptr<DFTImpl> mImpl;
     };
 
     /**
diff --git a/lube/regex.h b/lube/regex.h
index b533e0a..dc23a5f 100644
--- a/lube/regex.h
+++ b/lube/regex.h
@@ -10,6 +10,7 @@
 #ifndef REGEX_H
 #define REGEX_H
 
+#include <memory>
 #include <lube/var.h>
 
 namespace libube
@@ -25,7 +26,8 @@ namespace libube
         RegExFunctor(var iRE);
         virtual ~RegExFunctor();
     protected:
-        void* mRE;
+        // Shared so that copies of the functor free it just once
+        std::shared_ptr<void> mRE;
     };
 
 #   define BASIC_REGEX_FUNCTOR_DECL(f)                      \
diff --git a/lube/string.cpp b/lube/string.cpp
index cb64408..5987f07 100644
--- a/lube/string.cpp
+++ b/lube/string.cpp
@@ -104,14 +104,13 @@ void StringFunctor::broadcast(var iVar, var& oVar) const
 
 RegExFunctor::RegExFunctor(var iRE)
 {
-    mRE = new boost::regex(iRE.str());
+    mRE = std::make_shared<boost::regex>(iRE.str());
 }
 
 RegExFunctor::~RegExFunctor()
 {
-    // This (and other) reinterpret_cast<>s are to avoid var.h including boost
-    // headers; this in turn would slow down compilation.
-    delete reinterpret_cast<boost::regex*>(mRE);
+    // The static_cast<>s below are to avoid var.h including boost headers; this
+    // in turn would slow down compilation.
 }
 
 
@@ -279,7 +278,7 @@ void Strip::string(const var& iVar, var& oVar) const
 
 void Search::string(const var& iVar, var& oVar) const
 {
-    boost::regex re = *reinterpret_cast<boost::regex*>(mRE);
+    boost::regex re = *static_cast<boost::regex*>(mRE.get());
     boost::cmatch matches;
     bool r = boost::regex_search(const_cast<var&>(iVar).str(), matches, re);
     oVar = nil;
@@ -298,7 +297,7 @@ var var::search(var iRE)
 
 void Match::string(const var& iVar, var& oVar) const
 {
-    boost::regex re = *reinterpret_cast<boost::regex*>(mRE);
+    boost::regex re = *static_cast<boost::regex*>(mRE.get());
     boost::cmatch matches;
     bool r = boost::regex_match(const_cast<var&>(iVar).str(), matches, re);
     oVar = nil;
@@ -323,7 +322,7 @@ Replace::Replace(var iRE, var iStr)
 
 void Replace::string(const var& iVar, var& oVar) const
 {
-    boost::regex re = *reinterpret_cast<boost::regex*>(mRE);
+    boost::regex re = *static_cast<boost::regex*>(mRE.get());
     std::string s = const_cast<var&>(iVar).str();
     var str(mStr); // const thing
     var r = boost::regex_replace(s, re, str.str()).c_str();
-- 
2.43.0


From 29b84bcf175290c7c408f90a6876b61b91fcba45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:06 +0000
Subject: [PATCH 094/102] fix: a module can not be copied, as the copies would
 both free what it owns

---
 lube/module.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lube/module.h b/lube/module.h
index 2a391ed..31d6d1d 100644
--- a/lube/module.h
+++ b/lube/module.h
@@ -46,6 +46,8 @@ namespace libube
     public:
         module(var iType);
         virtual ~module();
+        module(const module&) = delete; // It owns the library and instances
+        module& operator =(const module&) = delete;
         virtual Module& create(var iArg=nil);
     protected:
         std::vector<Module*> mInstance; ///< Instances of module
-- 
2.43.0


From e20fb64bee652d3242775f3cad2e9a58b52344c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:11 +0000
Subject: [PATCH 095/102] fix: the transpose without MKL rejects an output that
 is not the transposed shape

---
 lube/transpose-adhoc.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lube/transpose-adhoc.cpp b/lube/transpose-adhoc.cpp
index 34e36db..22d4c8d 100644
--- a/lube/transpose-adhoc.cpp
+++ b/lube/transpose-adhoc.cpp
@@ -46,6 +46,22 @@ void Transpose::scalar(const var& iVar, var& oVar) const
     // already.  This leaves the in-place case; this happens after the
     // operation.
 
+    // If the output is supplied, check that it is indeed the transposed shape
+    if (!iVar.is(oVar))
+    {
+        int d = iVar.dim();
+        if (d < 2)
+            throw error("Transpose::scalar: dimension < 2");
+        if ((oVar.dim() != d) || (oVar.atype() != iVar.atype()))
+            throw error("Transpose::scalar: output does not match input");
+        for (int i=0; i<d; i++)
+        {
+            int j = (i == d-1) ? d-2 : (i == d-2) ? d-1 : i;
+            if (oVar.shape(i) != iVar.shape(j))
+                throw error("Transpose::scalar: output has the wrong shape");
+        }
+    }
+
     // Transpose always broadcasts to array()
     broadcast(iVar, oVar);
 
-- 
2.43.0


From 0212480416ee140ae6789f77f2cca3e8cf502e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:12 +0000
Subject: [PATCH 096/102] fix: the DFT without MKL rejects sizes and arrays it
 can not transform

---
 lube/dft-kiss.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lube/dft-kiss.cpp b/lube/dft-kiss.cpp
index ee00514..3b4d56b 100644
--- a/lube/dft-kiss.cpp
+++ b/lube/dft-kiss.cpp
@@ -36,6 +36,7 @@ struct libube::DFTImpl
     void* config;
     var forwardType;
     var inverseType;
+    int iSize;
     int oSize;
     bool inverse;
 };
@@ -59,6 +60,8 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
     mDim = 1;
     mImpl->inverse = iInverse;
     mImpl->forwardType = iForwardType;
+    if (iSize < 1)
+        throw error("DFTBase::DFTBase: size must be positive");
 
     // Set the input and output types for a forward transform
     switch (mImpl->forwardType.type())
@@ -88,6 +91,14 @@ DFTBase::DFTBase(int iSize, bool iInverse, var iForwardType)
     default:
         throw error("DFTBase::DFTBase: Unknown type");
     }
+
+    // Kiss FFT does not do real transforms of odd sizes
+    if (!mImpl->config)
+        throw error("DFTBase::DFTBase: Kiss FFT cannot do this size");
+
+    // The length of an input row
+    mImpl->iSize = iInverse && (mImpl->forwardType.type() == TYPE_FLOAT)
+        ? iSize / 2 + 1 : iSize;
 }
 
 DFTBase::~DFTBase()
@@ -122,6 +133,11 @@ void DFTBase::scalar(const var& iVar, var& oVar) const
                           : mImpl->inverseType.type()
         ))
         throw error("DFTBase::scalar: wrong output type");
+    if (iVar.shape(-1) != mImpl->iSize)
+        throw error("DFTBase::scalar: wrong input size");
+    if (oVar.shape(-1) != mImpl->oSize ||
+        oVar.size() / mImpl->oSize != iVar.size() / mImpl->iSize)
+        throw error("DFTBase::scalar: wrong output size");
 
     // DFTBase always broadcasts to vector()
     broadcast(iVar, oVar);
-- 
2.43.0


From 2323057892cd4c0b9b5f984de4d965b5d572105e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:35 +0000
Subject: [PATCH 097/102] fix: the DFT without MKL counts its instances
 atomically

---
 lube/dft-kiss.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lube/dft-kiss.cpp b/lube/dft-kiss.cpp
index 3b4d56b..23d7b47 100644
--- a/lube/dft-kiss.cpp
+++ b/lube/dft-kiss.cpp
@@ -7,6 +7,7 @@
  *   Phil Garner, May 2014
  */
 
+#include <atomic>
 #include <cassert>
 
 #include "kiss_fft.h"
@@ -17,7 +18,7 @@
 
 namespace kissfft
 {
-    static int sInstanceCount = 0;
+    static std::atomic<int> sInstanceCount(0);
 };
 
 
-- 
2.43.0


From 1f49dc1d5d00df5ad245661bdd6af66c715debdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:45 +0000
Subject: [PATCH 098/102] fix: functions of the values of a map keep its keys

---
 lube/heap.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lube/heap.cpp b/lube/heap.cpp
index 6a05cbe..2cd7578 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -74,8 +74,13 @@ Heap::Heap(const IHeap& iHeap, bool iAllocOnly) : Heap()
 {
     mType = iHeap.type();
     resize(iHeap.size());
+    const Heap* heap = reinterpret_cast<const Heap*>(&iHeap);
     if (!iAllocOnly)
-        copy(reinterpret_cast<const Heap*>(&iHeap), mSize);
+        copy(heap, mSize);
+    else if (mType == TYPE_PAIR)
+        // Only the values of a map are to be filled in later
+        for (int i=0; i<mSize; i++)
+            mData.pp[i].key = heap->mData.pp[i].key;
 }
 
 
-- 
2.43.0


From e66abc510a0263d68743bcdad5f88537d28aaf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:32 +0000
Subject: [PATCH 099/102] fix: report graphs that could not be written
 completely

---
 lube/graph.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lube/graph.cpp b/lube/graph.cpp
index c135265..41815e3 100644
--- a/lube/graph.cpp
+++ b/lube/graph.cpp
@@ -89,4 +89,7 @@ void Graph::writeGraphViz(var iFileName)
         throw error("writeGraphViz: Open failed");
     LabelWriter lw(mGraph);
     write_graphviz(ofs, mGraph, lw);
+    ofs.close();
+    if (ofs.fail())
+        throw error("writeGraphViz: Write failed");
 }
-- 
2.43.0


From 51537f256d60da63b9d39bab52aed456945de2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:31 +0000
Subject: [PATCH 100/102] fix: values stay as they were when memory runs out

---
 lube/dft-mkl.cpp |  2 +-
 lube/heap.cpp    | 13 ++++++++-----
 lube/var.cpp     |  6 ++++--
 lube/view.cpp    |  6 ++++--
 4 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/lube/dft-mkl.cpp b/lube/dft-mkl.cpp
index 919af1e..daea1aa 100644
--- a/lube/dft-mkl.cpp
+++ b/lube/dft-mkl.cpp
@@ -19,7 +19,7 @@
 struct libube::DFTImpl
 {
     ~DFTImpl() { if (handle) DftiFreeDescriptor(&handle); };
-    DFTI_DESCRIPTOR_HANDLE handle;
+    DFTI_DESCRIPTOR_HANDLE handle = 0;
     var forwardType;
     var inverseType;
     int iSize;
diff --git a/lube/heap.cpp b/lube/heap.cpp
index 2cd7578..cd3f36c 100644
--- a/lube/heap.cpp
+++ b/lube/heap.cpp
@@ -232,11 +232,10 @@ void Heap::resize(int iSize)
 {
     // It is possible to resize to zero; the capacity stays the same
     assert(mCapacity >= 0);
-    int oldSize = mSize;
-    mSize = iSize;
+    const int size = iSize;
 
     // Release whatever is held by elements that are going away
-    for (int i=mSize; i<oldSize; i++)
+    for (int i=size; i<mSize; i++)
         if (mType == TYPE_VAR)
             mData.vp[i].clear();
         else if (mType == TYPE_PAIR)
@@ -255,8 +254,9 @@ void Heap::resize(int iSize)
     if (mCapacity == 0)
     {
         // Allocate
-        mCapacity = allocSize(iSize);
-        alloc(mCapacity);
+        int newSize = allocSize(iSize);
+        alloc(newSize);
+        mCapacity = newSize;
     }
 
     // Allocated
@@ -282,6 +282,9 @@ void Heap::resize(int iSize)
         }
     }
 
+    // The size is as it was if the allocation failed
+    mSize = size;
+
     // Put in the null terminator
     if (mType == TYPE_CHAR)
         mData.cp[mSize] = 0;
diff --git a/lube/var.cpp b/lube/var.cpp
index 386ea00..46a6efe 100644
--- a/lube/var.cpp
+++ b/lube/var.cpp
@@ -1007,8 +1007,9 @@ var& var::array()
     if (!v.heap())
     {
         var tmp = v;
+        IHeap* heap = new Heap(1, tmp.mType);
         v.mType = TYPE_ARRAY;
-        v.attach(new Heap(1, tmp.mType));
+        v.attach(heap);
         v.at(0) = tmp;
     }
     return *this;
@@ -1034,8 +1035,9 @@ var& var::resize(int iSize)
             else
             {
                 var tmp = v;
+                IHeap* heap = new Heap(iSize, tmp.mType);
                 v.mType = TYPE_ARRAY;
-                v.attach(new Heap(iSize, tmp.mType));
+                v.attach(heap);
                 if (iSize > 0)
                     v.at(0) = tmp;
             }
diff --git a/lube/view.cpp b/lube/view.cpp
index e6453cb..c060668 100644
--- a/lube/view.cpp
+++ b/lube/view.cpp
@@ -38,13 +38,15 @@ View::View(const IHeap& iHeap, bool iAllocOnly) : Heap()
 /* This is a constructor, not a copy constructor */
 View::View(IHeap* iHeap) : Heap()
 {
+    // The destructor is not called if this fails
+    mType = TYPE_INT;
+    Heap::resize(1);
+
     // If we're given a view, bypass it to get to the underlying heap
     mHeap = iHeap->view() ? iHeap->view() : reinterpret_cast<Heap*>(iHeap);
     mHeap->attach();
 
     // Initialise the offset with the old one if it was a view
-    mType = TYPE_INT;
-    Heap::resize(1);
     mData.ip[0] = iHeap->view() ? iHeap->offset() : 0;
 }
 
-- 
2.43.0


From 10b0ed65fb2c043300de9f068997c7c6fe92dee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:38 +0000
Subject: [PATCH 101/102] fix: module instances are not lost when memory runs
 out

---
 lube/module.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lube/module.cpp b/lube/module.cpp
index b876617..1bd712e 100644
--- a/lube/module.cpp
+++ b/lube/module.cpp
@@ -9,6 +9,7 @@
 
 #include <cassert>
 #include <stdexcept>
+#include <memory>
 #include <dlfcn.h>
 
 #include "lube/module.h"
@@ -65,6 +66,8 @@ Module& module::create(var iArg)
     (*mFactory)(&inst, iArg);
     if (!inst)
         throw error("Module factory failed");
+    std::unique_ptr<Module> owner(inst);
     mInstance.push_back(inst);
+    owner.release();
     return *(mInstance.back());
 }
-- 
2.43.0


From 17521a2e0133e98e1ec4aff533de465681df0a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:28 +0000
Subject: [PATCH 102/102] fix: numbers are read and written the same whatever
 the global locale

---
 lube/graph.cpp   | 12 +++++++++++-
 lube/inifile.cpp |  1 +
 lube/stream.cpp  |  3 +++
 lube/txtfile.cpp |  1 +
 4 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/lube/graph.cpp b/lube/graph.cpp
index 41815e3..90a7c9c 100644
--- a/lube/graph.cpp
+++ b/lube/graph.cpp
@@ -11,6 +11,7 @@
 #include <fstream>
 #include <boost/graph/adjacency_list.hpp>
 #include <boost/graph/graphviz.hpp>
+#include <boost/property_map/function_property_map.hpp>
 
 namespace libube
 {
@@ -85,10 +86,19 @@ private:
 void Graph::writeGraphViz(var iFileName)
 {
     std::ofstream ofs(iFileName.str(), std::ofstream::out);
+    ofs.imbue(std::locale::classic());
     if (ofs.fail())
         throw error("writeGraphViz: Open failed");
     LabelWriter lw(mGraph);
-    write_graphviz(ofs, mGraph, lw);
+
+    // The default vertex numbers would be formatted for the global locale
+    auto id = boost::make_function_property_map<vertex>(
+        [](const vertex& iV) { return std::to_string(iV); }
+    );
+    write_graphviz(
+        ofs, mGraph, lw,
+        boost::default_writer(), boost::default_writer(), id
+    );
     ofs.close();
     if (ofs.fail())
         throw error("writeGraphViz: Write failed");
diff --git a/lube/inifile.cpp b/lube/inifile.cpp
index 7d11e90..211f80e 100644
--- a/lube/inifile.cpp
+++ b/lube/inifile.cpp
@@ -74,6 +74,7 @@ var inifile::read(var iFile)
 void inifile::write(var iFile, var iVar)
 {
     std::ofstream os(iFile.str(), std::ofstream::out);
+    os.imbue(std::locale::classic());
     if (os.fail())
         throw error("inifile::write(): Open failed");
     for (int i=0; i<iVar.size(); i++)
diff --git a/lube/stream.cpp b/lube/stream.cpp
index 6fe63b0..9369f7c 100644
--- a/lube/stream.cpp
+++ b/lube/stream.cpp
@@ -95,4 +95,7 @@ varstream::varstream(class var iVar)
     // just passing the buffer to the constructor as above ought to work; I
     // either didn't understand it or had problems before.
     //rdbuf(&mVarBuf);
+
+    // Numbers don't depend on where the program is run
+    imbue(std::locale::classic());
 }
diff --git a/lube/txtfile.cpp b/lube/txtfile.cpp
index 1040532..963e888 100644
--- a/lube/txtfile.cpp
+++ b/lube/txtfile.cpp
@@ -46,6 +46,7 @@ var txtfile::read(var iFile)
 void txtfile::write(var iFile, var iVar)
 {
     std::ofstream os(iFile.str(), std::ofstream::out);
+    os.imbue(std::locale::classic());
     if (os.fail())
         throw error("txtfile::write(): Open failed");
     for (int i=0; i<iVar.size(); i++)
-- 
2.43.0

