From eb02648a9d43be95d90d5d2e642f2110a0287b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 01/62] fix: transpose of a matrix without columns returned no
 row pointer

---
 CSR.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 96bae24..03be1de 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -493,6 +493,9 @@ CSR *CSR::transpose() const
   }
 
   if (0 == n) {
+    AT->rowptr = MALLOC(int, 1);
+    assert(AT->rowptr);
+    AT->rowptr[0] = base;
     return AT;
   }
 
-- 
2.43.0


From f0f786a0f4a8b4af747e2ea8484d46e9bea13abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 02/62] fix: switching the index base left extptr behind

---
 CSR.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 03be1de..85e8fc2 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -415,6 +415,12 @@ void CSR::make0BasedIndexing()
     for (int i = 0; i < m; i++)
       diagptr[i]--;
   }
+
+  if (extptr) {
+#pragma omp parallel for
+    for (int i = 0; i < m; i++)
+      extptr[i]--;
+  }
 }
 
 void CSR::make1BasedIndexing()
@@ -436,6 +442,12 @@ void CSR::make1BasedIndexing()
     for (int i = 0; i < m; i++)
       diagptr[i]++;
   }
+
+  if (extptr) {
+#pragma omp parallel for
+    for (int i = 0; i < m; i++)
+      extptr[i]++;
+  }
 }
 
 void CSR::computeInverseDiag()
-- 
2.43.0


From cbac77aec4c3cda75653d978c34019a1da09a811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 03/62] fix: copy constructor dropped extptr

---
 CSR.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 85e8fc2..7542c47 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -89,6 +89,7 @@ CSR::CSR(const CSR& A) : m(A.m), n(A.n), values(NULL), idiag(NULL), diag(NULL),
   if (A.diagptr) diagptr = MALLOC(int, m);
   if (A.idiag) idiag = MALLOC(double, m);
   if (A.diag) diag = MALLOC(double, m);
+  if (A.extptr) extptr = MALLOC(int, m);
 
   copyVector(rowptr, A.rowptr, A.m + 1);
   copyVector(colidx, A.colidx, nnz);
@@ -96,6 +97,7 @@ CSR::CSR(const CSR& A) : m(A.m), n(A.n), values(NULL), idiag(NULL), diag(NULL),
   if (diagptr) copyVector(diagptr, A.diagptr, m);
   if (idiag) copyVector(idiag, A.idiag, m);
   if (diag) copyVector(diag, A.diag, m);
+  if (extptr) copyVector(extptr, A.extptr, m);
 }
 
 CSR::CSR(const char *fileName, int base /*=0*/, bool forceSymmetric /*=false*/, int pad /*=1*/)
-- 
2.43.0


From 3656abd8950769945d318f1c9efd0dc6291e7ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 04/62] fix: hasZeroDiag read shifted rows of 1-based matrices

---
 CSR.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 7542c47..2334f49 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -250,6 +250,9 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
 bool CSR::hasZeroDiag() const
 {
   int base = getBase();
+  const int *rowptr = this->rowptr - base;
+  const int *colidx = this->colidx - base;
+  const double *values = this->values - base;
   volatile bool hasZeroDiag = false;
 
 #pragma omp parallel
-- 
2.43.0


From 924fea18fc9f53a0c0916edcddeb6fccc9375818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 05/62] fix: isSymmetric skipped the last column of 1-based
 matrices

---
 CSR.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index 2334f49..c5947fb 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -193,7 +193,7 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
       for (int i = begin; i < end; ++i) {
         for (int j = rowptr[i]; j < extptr[i]; ++j) {
           int c = colidx[j];
-          if (c != i && c >= 0 && c < m) {
+          if (c != i && c >= base && c < m + base) {
             bool hasPair = false;
             for (int k = rowptr[c]; k < extptr[c]; ++k) {
               if (colidx[k] == i) {
@@ -219,7 +219,7 @@ bool CSR::isSymmetric(bool checkValues, bool printFirstNonSymmetry) const
     for (int i = base; i < m + base; ++i) {
       for (int j = rowptr[i]; j < extptr[i]; ++j) {
         int c = colidx[j];
-        if (c != i && c >= 0 && c < m) {
+        if (c != i && c >= base && c < m + base) {
           bool hasPair = false;
           for (int k = rowptr[c]; k < extptr[c]; ++k) {
             if (colidx[k] == i) {
-- 
2.43.0


From 4d5cfa816205e1861f3c90110dd2566bdf0a9098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 06/62] fix: permuteRows of 1-based matrices indexed the result
 off by one

---
 Permute.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/Permute.cpp b/Permute.cpp
index 7ed76ff..be37491 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -380,6 +380,10 @@ static void permuteRowsMain_(
   const T *values = in->values ? in->values - BASE : NULL;
   const T *idiag = in->idiag ? in->idiag - BASE : NULL;
 
+  const int *newRowptr = out->rowptr - BASE;
+  int *newDiagptr = out->diagptr ? out->diagptr - BASE : NULL;
+  T *newIdiag = out->idiag ? out->idiag - BASE : NULL;
+
   int m = in->m;
 
 #pragma omp parallel
@@ -392,16 +396,16 @@ static void permuteRowsMain_(
     for (int i = iBegin; i < iEnd; ++i) {
       int row = rowInversePerm ? rowInversePerm[i - BASE] + BASE : i;
       int begin = rowptr[row], end = rowptr[row + 1];
-      int newBegin = out->rowptr[i] - BASE;
+      int newBegin = newRowptr[i] - BASE;
 
       if (values)
         memcpy(out->values + newBegin, values + begin, (end - begin)*sizeof(double));
       memcpy(out->colidx + newBegin, colidx + begin, (end - begin)*sizeof(int));
 
       if (diagptr)
-        out->diagptr[i] =
-          out->rowptr[i] + (diagptr[row] - rowptr[row]);
-      if (idiag) out->idiag[i] = idiag[row];
+        newDiagptr[i] =
+          newRowptr[i] + (diagptr[row] - rowptr[row]);
+      if (idiag) newIdiag[i] = idiag[row];
     }
   }
 }
-- 
2.43.0


From 4c17fd08a80c110731adb1d7c3b3ef8c0e086c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 07/62] fix: permuteColsInPlace dereferenced missing values and
 asserted on 1-based columns

---
 Permute.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Permute.cpp b/Permute.cpp
index be37491..659808f 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -121,7 +121,7 @@ void permuteColsInPlace_(CSR *A, const int *perm)
   int *diagptr = A->diagptr ? A->diagptr - BASE : NULL;
 
   int *colidx = A->colidx - BASE;
-  T *values = A->values - BASE;
+  T *values = A->values ? A->values - BASE : NULL;
 
   int m = A->m;
 
@@ -130,7 +130,7 @@ void permuteColsInPlace_(CSR *A, const int *perm)
     int diagCol = -1;
     for (int j = rowptr[i]; j < extptr[i]; ++j) {
       int c = colidx[j];
-      assert(c >= 0 && c < m);
+      assert(c - BASE >= 0 && c - BASE < m);
       colidx[j] = perm[c - BASE] + BASE;
       assert(colidx[j] - BASE >= 0 && colidx[j] - BASE < m);
       if (c == i) diagCol = perm[c - BASE] + BASE;
@@ -205,17 +205,17 @@ void permuteColsInPlace_(CSR *A, const int *perm)
     else {
       for (int j = rowptr[i] + 1; j < extptr[i]; ++j) {
         int c = colidx[j];
-        double v = values[j];
+        T v = values ? values[j] : T();
 
         int k = j - 1;
         while (k >= rowptr[i] && colidx[k] > c) {
           colidx[k + 1] = colidx[k];
-          values[k + 1] = values[k];
+          if (values) values[k + 1] = values[k];
           --k;
         }
 
         colidx[k + 1] = c;
-        values[k + 1] = v;
+        if (values) values[k + 1] = v;
       }
     }
   } // for each row
-- 
2.43.0


From 4849d5a174bd4e8618cb0f4c98c0519a6d8f0541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 08/62] fix: permuting a pattern-only matrix dereferenced
 missing values

---
 Permute.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Permute.cpp b/Permute.cpp
index 659808f..30c937f 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -308,7 +308,7 @@ static void permuteMain_(
         if (in->extptr) {
           for (int j = end; j < rowptr[row + 1]; ++j, ++k) {
             newColidx[k] = colidx[j];
-            newValues[k] = values[j];
+            if (values) newValues[k] = values[j];
           }
         }
 
@@ -318,17 +318,17 @@ static void permuteMain_(
           // insertion sort
           for (int j = newBegin + 1; j < newExtptr[i]; ++j) {
             int c = newColidx[j];
-            double v = newValues[j];
+            T v = values ? newValues[j] : T();
 
             int k = j - 1;
             while (k >= newBegin && newColidx[k] > c) {
               newColidx[k + 1] = newColidx[k];
-              newValues[k + 1] = newValues[k];
+              if (values) newValues[k + 1] = newValues[k];
               --k;
             }
 
             newColidx[k + 1] = c;
-            newValues[k + 1] = v;
+            if (values) newValues[k + 1] = v;
           }
         }
 
-- 
2.43.0


From 29597a090c4feadd8dec0c838643b3bfda7ec405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:54 +0000
Subject: [PATCH 09/62] fix: getSymmetricNnzPattern miscounted and misplaced
 1-based patterns

---
 SymGS.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/SymGS.cpp b/SymGS.cpp
index 956abaa..9d0df85 100644
--- a/SymGS.cpp
+++ b/SymGS.cpp
@@ -194,7 +194,7 @@ bool getSymmetricNnzPattern(
         for (int i = base; i < m + base; ++i) {
           (*symRowPtr)[i + 1] += (*symRowPtr)[i];
         }
-        *symColIdx = MALLOC(int, (*symRowPtr)[m]);
+        *symColIdx = MALLOC(int, (*symRowPtr)[m + base] - base);
         *symColIdx -= base;
 
         *symDiagPtr = MALLOC(int, m + 1);
@@ -204,6 +204,7 @@ bool getSymmetricNnzPattern(
           *symExtPtr -= base;
         }
         cnts = MALLOC(int, m);
+        cnts -= base;
       }
 
 #ifdef PRINT_TIME_BREAKDOWN
@@ -268,13 +269,16 @@ bool getSymmetricNnzPattern(
       }
 #undef PRINT_TIME_BREAKDOWN
 #endif
-
-      *symColIdx += base;
-      if (*symExtPtr) *symExtPtr += base;
     } // !isSymmetric
   } // omp parallel
 
   *symRowPtr += base;
+  if (!isSymmetric) {
+    *symColIdx += base;
+    *symDiagPtr += base;
+    if (A->extptr) *symExtPtr += base;
+    cnts += base;
+  }
 
   if (isSymmetric) {
     if (!A->useMemoryPool_()) {
-- 
2.43.0


From 4508300af945e2e4de558142ea3731d530078870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 10/62] fix: permuteRows of 1-based matrices balanced rows by a
 shifted row pointer

---
 Permute.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Permute.cpp b/Permute.cpp
index 30c937f..edab486 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -389,7 +389,7 @@ static void permuteRowsMain_(
 #pragma omp parallel
   {
     int iBegin, iEnd;
-    getLoadBalancedPartition(&iBegin, &iEnd, out->rowptr + BASE, m);
+    getLoadBalancedPartition(&iBegin, &iEnd, out->rowptr, m);
     iBegin += BASE;
     iEnd += BASE;
 
-- 
2.43.0


From df22350f9d2f617ea173d81f05ada9755a0239f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 11/62] fix: ReduceBarrier value mailboxes could be overwritten
 by the next episode

---
 synk/reduce.hpp | 57 +++++++++++++++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 23 deletions(-)

diff --git a/synk/reduce.hpp b/synk/reduce.hpp
index bad5891..f83eaba 100644
--- a/synk/reduce.hpp
+++ b/synk/reduce.hpp
@@ -144,8 +144,10 @@ void ReduceBarrier<T>::init(int tid)
         core->sense = 1;
 
         core->threadRvals = MALLOC(volatile T, numThreadsPerCore);
-        core->myRvals = MALLOC(volatile T, lgNumCores);
-        core->partnerRvals = MALLOC(T *, lgNumCores);
+        /* one mailbox per round and parity: a partner may already be in
+           its next episode when we read this one's value */
+        core->myRvals = MALLOC(volatile T, 2*lgNumCores);
+        core->partnerRvals = MALLOC(T *, 2*lgNumCores);
 
         core->pseudoCore = NULL;
 
@@ -164,8 +166,8 @@ void ReduceBarrier<T>::init(int tid)
             pseudoCore->parity = 0;
             pseudoCore->sense = 1;
 
-            pseudoCore->myRvals = MALLOC(volatile T, lgNumCores);
-            pseudoCore->partnerRvals = MALLOC(T *, lgNumCores);
+            pseudoCore->myRvals = MALLOC(volatile T, 2*lgNumCores);
+            pseudoCore->partnerRvals = MALLOC(T *, 2*lgNumCores);
 
             core->pseudoCore = pseudoCore;
         }
@@ -187,53 +189,62 @@ void ReduceBarrier<T>::init(int tid)
     if (coreTid == 0) {
         for (int i = 0;  i < lgNumCores;  i++) {
             core->myRvals[i] = (volatile T)NULL;
+            core->myRvals[lgNumCores + i] = (volatile T)NULL;
 
             /* find reduction partner and link */
             int reduceCid = (cid + (1 << i)) % nearestPow2Cores;
 
             /* is our reduction partner a real core? */
             if (reduceCid < numCores) {
-                core->partnerRvals[i] = (T *)&cores[reduceCid]->myRvals[i];
-                for (int j = 0;  j < 2;  j++)
+                for (int j = 0;  j < 2;  j++) {
+                    core->partnerRvals[j * lgNumCores + i] = (T *)
+                        &cores[reduceCid]->myRvals[j * lgNumCores + i];
                     core->partnerFlags[j][i] = (uint8_t *)
                         &cores[reduceCid]->myFlags[j][i * CacheLineSize];
+                }
             }
 
             /* no, it's a pseudo core */
             else {
                 reduceCid -= numCores;
-                core->partnerRvals[i] = (T *)
-                    &cores[reduceCid]->pseudoCore->myRvals[i];
-                for (int j = 0;  j < 2;  j++)
+                for (int j = 0;  j < 2;  j++) {
+                    core->partnerRvals[j * lgNumCores + i] = (T *)
+                        &cores[reduceCid]->
+                        pseudoCore->myRvals[j * lgNumCores + i];
                     core->partnerFlags[j][i] = (uint8_t *)
                         &cores[reduceCid]->
                         pseudoCore->myFlags[j][i * CacheLineSize];
+                }
             }
 
             /* if this is one of the cores that represents a pseudo
                core, we have to initialize and link its fields too */
             if (pseudoCore) {
                 pseudoCore->myRvals[i] = (volatile T)NULL;
+                pseudoCore->myRvals[lgNumCores + i] = (volatile T)NULL;
 
                 reduceCid = (pseudoCore->coreId + (1 << i)) % nearestPow2Cores;
 
                 /* this pseudo core's reduction partner might be a real
                    core or a pseudo core */
                 if (reduceCid < numCores) {
-                    pseudoCore->partnerRvals[i] = (T *)
-                        &cores[reduceCid]->myRvals[i];
-                    for (int j = 0;  j < 2;  j++)
+                    for (int j = 0;  j < 2;  j++) {
+                        pseudoCore->partnerRvals[j * lgNumCores + i] = (T *)
+                            &cores[reduceCid]->myRvals[j * lgNumCores + i];
                         pseudoCore->partnerFlags[j][i] = (uint8_t *)
                             &cores[reduceCid]->myFlags[j][i * CacheLineSize];
+                    }
                 }
                 else {
                     reduceCid -= numCores;
-                    pseudoCore->partnerRvals[i] = (T *)
-                        &cores[reduceCid]->pseudoCore->myRvals[i];
-                    for (int j = 0;  j < 2;  j++)
+                    for (int j = 0;  j < 2;  j++) {
+                        pseudoCore->partnerRvals[j * lgNumCores + i] = (T *)
+                            &cores[reduceCid]->
+                            pseudoCore->myRvals[j * lgNumCores + i];
                         pseudoCore->partnerFlags[j][i] = (uint8_t *)
                             &cores[reduceCid]->
                             pseudoCore->myFlags[j][i * CacheLineSize];
+                    }
                 }
             }
         }
@@ -279,8 +290,8 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
            handle both */
         if (numThreadsPerCore == 1  &&  bar->pseudoCore) {
             for (i = di = 0;  i < lgNumCores;  i++, di += CacheLineSize) {
-                *bar->partnerRvals[i] = redVal;
-                *bar->pseudoCore->partnerRvals[i] = zeroVal;
+                *bar->partnerRvals[bar->parity * lgNumCores + i] = redVal;
+                *bar->pseudoCore->partnerRvals[bar->pseudoCore->parity * lgNumCores + i] = zeroVal;
 
                 sfence();
 
@@ -295,8 +306,8 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
                     cpu_pause();
 
                 /* reduction operations */
-                redVal = redFunc(redVal, (T)bar->myRvals[i]);
-                zeroVal = redFunc(zeroVal, (T)bar->pseudoCore->myRvals[i]);
+                redVal = redFunc(redVal, (T)bar->myRvals[bar->parity * lgNumCores + i]);
+                zeroVal = redFunc(zeroVal, (T)bar->pseudoCore->myRvals[bar->pseudoCore->parity * lgNumCores + i]);
             }
 
             if (bar->parity == 1) bar->sense = !bar->sense;
@@ -309,14 +320,14 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
         /* no pseudo core, only handle self */
         else {
             for (i = di = 0;  i < lgNumCores;  i++, di += CacheLineSize) {
-                *bar->partnerRvals[i] = redVal;
+                *bar->partnerRvals[bar->parity * lgNumCores + i] = redVal;
                 sfence();
                 *bar->partnerFlags[bar->parity][i] = bar->sense;
                 while (bar->myFlags[bar->parity][di] != bar->sense)
                     cpu_pause();
 
                 /* reduction operations */
-                redVal = redFunc(redVal, (T)bar->myRvals[i]);
+                redVal = redFunc(redVal, (T)bar->myRvals[bar->parity * lgNumCores + i]);
             }
 
             if (bar->parity == 1) bar->sense = !bar->sense;
@@ -334,7 +345,7 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
     else {
         if (coreTid == 1  &&  bar->pseudoCore) {
             for (i = di = 0;  i < lgNumCores;  i++, di += CacheLineSize) {
-                *bar->pseudoCore->partnerRvals[i] = zeroVal;
+                *bar->pseudoCore->partnerRvals[bar->pseudoCore->parity * lgNumCores + i] = zeroVal;
                 sfence();
                 *bar->pseudoCore->partnerFlags[bar->pseudoCore->parity][i]
                     = bar->pseudoCore->sense;
@@ -343,7 +354,7 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
                     cpu_pause();
 
                 /* reduction operations */
-                zeroVal = redFunc(zeroVal, (T)bar->pseudoCore->myRvals[i]);
+                zeroVal = redFunc(zeroVal, (T)bar->pseudoCore->myRvals[bar->pseudoCore->parity * lgNumCores + i]);
             }
             if (bar->pseudoCore->parity == 1)
                 bar->pseudoCore->sense = !bar->pseudoCore->sense;
-- 
2.43.0


From de0303456af2344deb70d3c73286e1b9405ade37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 12/62] fix: ReduceBarrier with one core folded its own value
 in twice

---
 synk/reduce.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/synk/reduce.hpp b/synk/reduce.hpp
index f83eaba..d260317 100644
--- a/synk/reduce.hpp
+++ b/synk/reduce.hpp
@@ -317,8 +317,8 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
             bar->pseudoCore->parity = 1 - bar->pseudoCore->parity;
         }
 
-        /* no pseudo core, only handle self */
-        else {
+        /* no pseudo core, only handle self (a lone core has no partner) */
+        else if (numCores > 1) {
             for (i = di = 0;  i < lgNumCores;  i++, di += CacheLineSize) {
                 *bar->partnerRvals[bar->parity * lgNumCores + i] = redVal;
                 sfence();
-- 
2.43.0


From e9af71046ad8dbb3a4c5c38fca9bf92257652df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:31 +0000
Subject: [PATCH 13/62] fix: LoadImba::deleteInstance was defined as
 Barrier::deleteInstance

---
 synk/loadimba.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/synk/loadimba.cpp b/synk/loadimba.cpp
index 50b1511..be3e4d5 100644
--- a/synk/loadimba.cpp
+++ b/synk/loadimba.cpp
@@ -112,9 +112,10 @@ LoadImba *LoadImba::getInstance()
     return instance;
 }
 
-void Barrier::deleteInstance()
+void LoadImba::deleteInstance()
 {
     delete instance;
+    instance = NULL;
 }
 
 /* constructor */
-- 
2.43.0


From 2212b43139b815aa24e146f985e573907de8c7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:40 +0000
Subject: [PATCH 14/62] hook: make the parallel level search threshold settable
 under SPMP_VERIF

---
 LevelSchedule.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index c40defe..dd49a89 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -45,6 +45,10 @@ namespace SpMP
 
 using namespace std;
 
+#ifdef SPMP_VERIF
+extern int spmpVerifLevelThresh; // level size from which levels are searched in parallel
+#endif
+
 #ifdef TRACE_TASK_TIMES
 unsigned long long *taskTimes[NUM_MAX_THREADS] = { NULL };
 unsigned long long taskTimeCnt[NUM_MAX_THREADS];
@@ -228,7 +232,11 @@ void findLevels_(
           bar->wait(tid); // wake up other threads
           break;
         }
+#ifdef SPMP_VERIF
+#define THRESH spmpVerifLevelThresh
+#else
 #define THRESH 64
+#endif
         currIterSerial = qTail[0] < THRESH*2;
         if (!currIterSerial) {
           *endSynchronized = begin;
-- 
2.43.0


From 315208c32bad986a7a5b7c11f7e7e3cefbb52a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:40 +0000
Subject: [PATCH 15/62] fix: predecessor lists of fused SpMV tasks overlapped

---
 LevelSchedule.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index dd49a89..214d33f 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -1279,7 +1279,7 @@ void constructTaskGraph_(
         fusedSchedule->parents[task] = fusedSchedule->parentsBuf + cnt;
         fusedSchedule->nparents[task] = tempParents[task].size();
         copy(tempParents[task].begin(), tempParents[task].end(), fusedSchedule->parents[task]);
-        cnt += taskInvAdjacencyLengths[task];
+        cnt += fusedSchedule->nparents[task];
       }
 
       /*int cnt = 0;
-- 
2.43.0


From 251a5b234d28b46623f597c1ddfc349d9139f19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:40 +0000
Subject: [PATCH 16/62] fix: memory of the pool was freed when building an
 unreduced schedule

---
 LevelSchedule.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 214d33f..322b13f 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -1689,7 +1689,9 @@ void constructTaskGraph_(
         cForward += nparentsForward[i];
         cBackward += nparentsBackward[i];
       }
-      FREE(taskInvAdjacencyLengths);
+      if (!useMemoryPool) {
+        FREE(taskInvAdjacencyLengths);
+      }
 
       parentsBuf[0] = schedule->allocate<int>(cForward);
       parentsBuf[1] = schedule->allocate<int>(cBackward);
-- 
2.43.0


From 880e2b030aacc5ff5ba0b766ed70b261c409f608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 17/62] fix: per-thread queues of the level search could
 overflow

---
 LevelSchedule.cpp | 46 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 43 insertions(+), 3 deletions(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 322b13f..46d018c 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -191,10 +191,25 @@ void LevelSchedule::constructTaskGraph(
 
 #define NUM_MAX_THREADS (2048)
 
+/**
+ * Double the capacity of a per-thread queue.
+ *
+ * @params grown buffer allocated by a previous call for this queue or NULL
+ */
+static void growQueue_(int **q, int *capacity, int **grown)
+{
+  int *temp = MALLOC(int, 2*(*capacity));
+  memcpy(temp, *q, sizeof(int)*(*capacity));
+  FREE(*grown);
+  *q = *grown = temp;
+  *capacity *= 2;
+}
+
 template<int BASE = 0>
 static
 void findLevels_(
   int *qTail, int *nnzPrefixSum, int *nparents, int **q, int **rowPtrs,
+  int qCapacity, // initial capacity of each q[tid] and rowPtrs[tid]
   const int *diagptr, const int *extptr,
   const int *colidx,
   int *reversePerm, vector<int>& levIndices,
@@ -222,6 +237,10 @@ void findLevels_(
 
   int end = 0;
 
+  // one thread can discover many more than its share of the nodes of a level
+  int tailCapacity = qCapacity, rowPtrCapacity = qCapacity;
+  int *tailGrown = NULL, *rowPtrGrown = NULL;
+
   while (true) { // until all nodes are visited
     bool currIterSerial = false;
     int begin = end;
@@ -336,6 +355,12 @@ void findLevels_(
             --nparents[succ];
             assert(nparents[succ] >= 0);
             if (nparents[succ] == 0) {
+              if (rowPtr + 1 == rowPtrs[tid] + rowPtrCapacity) {
+                int cnt = rowPtr - rowPtrs[tid];
+                growQueue_(&rowPtrs[tid], &rowPtrCapacity, &rowPtrGrown);
+                rowPtr = rowPtrs[tid] + cnt;
+              }
+
               *tailPtr = succ;
               *(rowPtr + 1) = *rowPtr + extptr[succ] - diagptr[succ] - 1;
 
@@ -415,6 +440,16 @@ void findLevels_(
           int succ = colidx[j] - BASE;
           if (succ >= m) continue; // for a "fat" matrices with halo
           if (__sync_fetch_and_add(nparents + succ, -1) == 1) {
+            int cnt = tailPtr - q[tid];
+            if (cnt == tailCapacity) {
+              growQueue_(&q[tid], &tailCapacity, &tailGrown);
+              tailPtr = q[tid] + cnt;
+            }
+            if (cnt + 1 == rowPtrCapacity) {
+              growQueue_(&rowPtrs[tid], &rowPtrCapacity, &rowPtrGrown);
+              rowPtr = rowPtrs[tid] + cnt;
+            }
+
             *tailPtr = succ;
             *(rowPtr + 1) =
               *rowPtr + extptr[succ] - diagptr[succ] - 1;
@@ -433,6 +468,9 @@ void findLevels_(
 
     prevIterSerial = currIterSerial;
   } // while true
+
+  FREE(tailGrown);
+  FREE(rowPtrGrown);
   } // omp parallel
 
 #ifndef NDEBUG
@@ -526,6 +564,8 @@ void findLevels_(
   int **rowPtrs = (int **)tempBuffer; tempBuffer += NUM_MAX_THREADS*(sizeof(int *)/sizeof(int));
   int *nnzPrefixSum = tempBuffer; tempBuffer += NUM_MAX_THREADS*2;
 
+  int qCapacity = max(nthreads, n + nthreads - 1)/nthreads*2;
+
   nnzPrefixSum[0] = 0;
   nnzPrefixSum[nthreads + 1] = 0;
 
@@ -545,8 +585,8 @@ void findLevels_(
   unsigned long long tTemp = __rdtsc();
 #endif
 
-  q[tid] = buffer + max(nthreads, n + nthreads - 1)/nthreads*2*tid;
-  rowPtrs[tid] = buffer + max(nthreads, n + nthreads - 1)*2 + max(nthreads, n + nthreads - 1)/nthreads*2*tid;
+  q[tid] = buffer + qCapacity*tid;
+  rowPtrs[tid] = buffer + max(nthreads, n + nthreads - 1)*2 + qCapacity*tid;
 
   int *tailPtr = q[tid];
   int *rowPtr = rowPtrs[tid];
@@ -574,7 +614,7 @@ void findLevels_(
 
   assert(q[0]);
   findLevels_<BASE>(
-    qTail, nnzPrefixSum, nparents, q, rowPtrs,
+    qTail, nnzPrefixSum, nparents, q, rowPtrs, qCapacity,
     diagptr, extptr, colidx,
     levContToOrigPerm, levIndices, m,
     tt2, tt3, tt4, tt5, tt6);
-- 
2.43.0


From f3b200fc31d1711f11b6ce7fc82de3600029d727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:28 +0000
Subject: [PATCH 18/62] hook: make the parallel component threshold of the
 reorderings settable under SPMP_VERIF

---
 reordering/RCM.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index 3672b64..ec1c90d 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -54,7 +54,11 @@ using namespace std;
 namespace SpMP
 {
 
+#ifdef SPMP_VERIF
+extern int PAR_THR; // set by the verification harness
+#else
 const int PAR_THR = 65536;
+#endif
 
 void findConnectedComponents(
   const CSR *A,
-- 
2.43.0


From 9bb7743f660a4c95f39e71fcecf6bca7a26037c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 19/62] fix: concurrent union-find could overwrite another
 thread's link of a root

When the compare-and-swap on a root failed, the plain store that followed
replaced the link another thread had just made, splitting a component.
---
 reordering/ConnectedComponents.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index 0c33f39..f723aae 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -167,11 +167,16 @@ void findConnectedComponents_(
           int p_r_x = old_p_r_x > old_p_r_y ? old_p_r_x : old_p_r_y;
           int p_r_y = old_p_r_x > old_p_r_y ? old_p_r_y : old_p_r_x;
 
-          if (p_r_x == r_x && __sync_bool_compare_and_swap(&p[r_x], r_x, p_r_y)) {
-            break;
+          if (p_r_x == r_x) {
+            if (__sync_bool_compare_and_swap(&p[r_x], r_x, p_r_y)) {
+              break;
+            }
+            // another thread has just linked root r_x: keep its link and retry
+          }
+          else {
+            p[r_x] = p_r_y;
+            r_x = p_r_x;
           }
-          p[r_x] = p_r_y;
-          r_x = p_r_x;
         } // while
       } // p[xx] != p[y]
     }
-- 
2.43.0


From 43dd662069eff086bad8f8f1169e36b3430770d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 20/62] fix: component search without any node wrote past its
 output

---
 reordering/ConnectedComponents.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index f723aae..5143da7 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -277,7 +277,7 @@ void findConnectedComponents_(
   int cPerThread = (nComp + nthreads - 1)/nthreads;
   int cBegin = max(min(cPerThread*tid, nComp), 1);
   int cEnd = min(cBegin + cPerThread, nComp);
-  if (0 == tid) {
+  if (0 == tid && nComp > 0) {
     (*compSizes)[0] = (*compSizePrefixSum)[nComp*(nthreads - 1)];
   }
   for (int c = cBegin; c < cEnd; ++c) {
-- 
2.43.0


From 098fd88d94d86697ace02de22fce924d03a63f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 21/62] fix: debug check of the component search read past the
 last component

---
 reordering/ConnectedComponents.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index 5143da7..6ef79a8 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -317,7 +317,7 @@ void findConnectedComponents_(
 
     for (int j = (*compSizePrefixSum)[i]; j < (*compSizePrefixSum)[i] + (*compSizes)[i]; ++j) {
       assert(p[(*nodesSortedByComp)[j]] == (*compToRoot)[i]);
-      if (j < (*compSizePrefixSum)[i + 1] - 1) {
+      if (j < (*compSizePrefixSum)[i] + (*compSizes)[i] - 1) {
         assert((*nodesSortedByComp)[j] < (*nodesSortedByComp)[j + 1]);
       }
     }
-- 
2.43.0


From 0495c7c32636e7e915fed039b5b11129a1104e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 22/62] fix: BFS of a single row wrote one past its row pointer
 buffer

---
 reordering/RCM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index ec1c90d..1990406 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -188,7 +188,7 @@ bfsAuxData::bfsAuxData(int m)
 
   qTailPrefixSum = new int[omp_get_max_threads() + 1];
 
-  rowptrs = new int[omp_get_max_threads()*m];
+  rowptrs = new int[omp_get_max_threads()*m + 1];
   nnzPrefixSum = new int[omp_get_max_threads() + 1];
 
   candidates = new int[m];
-- 
2.43.0


From 9b767ecdceb3c2ad1bc844ba4320cc8a298432c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 23/62] fix: RCM of components with as many levels as nodes
 overflowed its buffers

---
 reordering/RCM.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index 1990406..5e77740 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -694,8 +694,8 @@ void CSR::getRCMPermutation(int *perm, int *inversePerm, bool pseudoDiameterSour
   int singletonCnt = 0, twinCnt = 0;
 
   bfsAuxData aux(m);
-  volatile int *write_offset = new int[(m + 1)*16];
-  int *prefixSum_array = new int[max(omp_get_max_threads()*PAR_THR, m) + 1];
+  volatile int *write_offset = new int[(m + 2)*16];
+  int *prefixSum_array = new int[max(omp_get_max_threads()*(PAR_THR + 1), m + 2)];
 
   DegreeComparator comparator(rowptr);
 
-- 
2.43.0


From 68e0107d8fb955ee0022abeed4a281945fa4a85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 24/62] fix: candidate buffer of the pseudo diameter heuristic
 could overflow

---
 reordering/RCM.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index 5e77740..268c27b 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -191,7 +191,7 @@ bfsAuxData::bfsAuxData(int m)
   rowptrs = new int[omp_get_max_threads()*m + 1];
   nnzPrefixSum = new int[omp_get_max_threads() + 1];
 
-  candidates = new int[m];
+  candidates = new int[omp_get_max_threads()*m]; // threads can reach the same node
 }
 
 bfsAuxData::~bfsAuxData()
-- 
2.43.0


From 01e620b088a95b60962bd36c045f18222b7b5b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:26 +0000
Subject: [PATCH 25/62] fix: bipartite BFS wrote one past its row pointer
 buffer

---
 reordering/BFSBipartite.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reordering/BFSBipartite.cpp b/reordering/BFSBipartite.cpp
index 31e393a..ef0ef07 100644
--- a/reordering/BFSBipartite.cpp
+++ b/reordering/BFSBipartite.cpp
@@ -450,7 +450,7 @@ bfsAuxData::bfsAuxData(int m)
 
   qTailPrefixSum = new int[omp_get_max_threads() + 1];
 
-  rowptrs = new int[omp_get_max_threads()*m];
+  rowptrs = new int[omp_get_max_threads()*m + 1];
   nnzPrefixSum = new int[omp_get_max_threads() + 1];
 
   candidates = new int[m];
-- 
2.43.0


From 29d600c73f2ddc1bff853de63a1400d04828d9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 26/62] fix: isPerm accepted arrays with entries outside of
 0..n-1

Only duplicates were looked for, so {1, 2, 3} passed.  The duplicates found
aborted debug builds instead of returning false, and leaked the copy.
---
 Utils.cpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index d08cccf..f4d154b 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -105,26 +105,25 @@ bool isPerm(const int *perm, int n)
   int *temp = new int[n];
   memcpy(temp, perm, sizeof(int)*n);
   sort(temp, temp + n);
-  int *last = unique(temp, temp + n);
-  if (last != temp + n) {
-    memcpy(temp, perm, sizeof(int)*n);
-    sort(temp, temp + n);
-
-    for (int i = 0; i < n; ++i) {
-      if (temp[i] == i - 1) {
-        printf("%d duplicated\n", i - 1);
-        assert(false);
-        return false;
+
+  // once sorted, a permutation of 0..n-1 is the identity
+  bool ret = true;
+  for (int i = 0; i < n && ret; ++i) {
+    if (temp[i] != i) {
+      if (i > 0 && temp[i] == temp[i - 1]) {
+        printf("%d duplicated\n", temp[i]);
+      }
+      else if (temp[i] < 0 || temp[i] >= n) {
+        printf("%d out of range\n", temp[i]);
       }
-      else if (temp[i] != i) {
+      else {
         printf("%d missed\n", i);
-        assert(false);
-        return false;
       }
+      ret = false;
     }
   }
   delete[] temp;
-  return true;
+  return ret;
 }
 
 bool isInversePerm(const int *perm, const int *inversePerm, int len)
-- 
2.43.0


From 465f48bc4df92c6131d4eda922e7eec494884ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 27/62] fix: isInversePerm read out of bounds for entries
 outside of 0..len-1

---
 Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils.cpp b/Utils.cpp
index f4d154b..93c54b4 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -129,7 +129,7 @@ bool isPerm(const int *perm, int n)
 bool isInversePerm(const int *perm, const int *inversePerm, int len)
 {
   for (int i = 0; i < len; ++i) {
-    if (inversePerm[perm[i]] != i) return false;
+    if (perm[i] < 0 || perm[i] >= len || inversePerm[perm[i]] != i) return false;
   }
   return true;
 }
-- 
2.43.0


From cad41dd33c293abdfe07314ffdf49d350a8270e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 28/62] fix: in-place multiplyWithVector copied m instead of n
 elements of x

---
 SpMV.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SpMV.cpp b/SpMV.cpp
index 7017d85..d159c3b 100644
--- a/SpMV.cpp
+++ b/SpMV.cpp
@@ -161,10 +161,10 @@ void CSR::multiplyWithVector(
   // if x and w point to the same array, copy x to a temporary buffer
   // in order to avoid possible race condition in SpMV_
   if (w == x) {
-    tmp_x = MALLOC(double, m);
+    tmp_x = MALLOC(double, n);
  
     #pragma omp parallel for
-    for (int i=0; i<m; i++) {
+    for (int i=0; i<n; i++) {
       tmp_x[i] = x[i];
     }
   }
-- 
2.43.0


From 67ff3665035fc4816c14eb7636279735884cb63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 29/62] fix: multiplyWithDenseMatrix of 1-based matrices
 ignored the row strides in its offset

---
 SpMV.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/SpMV.cpp b/SpMV.cpp
index d159c3b..9946205 100644
--- a/SpMV.cpp
+++ b/SpMV.cpp
@@ -199,9 +199,9 @@ static void SpMDM_(
   colidx -= base;
   values -= base;
 
-  W -= base;
-  X -= base;
-  Y -= base;
+  W -= base*wRowStride;
+  X -= base*xRowStride;
+  Y -= base*yRowStride;
 
 //#define MEASURE_LOAD_BALANCE
 #ifdef MEASURE_LOAD_BALANCE
-- 
2.43.0


From 02c9d0d6684b8a6eccf96fc0f5de15b3ca057b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 30/62] fix: consecutive prefix sums sharing a workspace
 overwrote unread results

---
 PrefixSum.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/PrefixSum.cpp b/PrefixSum.cpp
index 2e5d3d6..93d601c 100644
--- a/PrefixSum.cpp
+++ b/PrefixSum.cpp
@@ -23,6 +23,9 @@ void prefixSum(int *in_out, int *sum, int *workspace)
 #pragma omp barrier
 
   *in_out = workspace[tid];
+
+  // a following call may reuse workspace and sum
+#pragma omp barrier
 }
 
 void prefixSumMultiple(int *in_out, int *sum, int n, int *workspace)
@@ -60,6 +63,9 @@ void prefixSumMultiple(int *in_out, int *sum, int n, int *workspace)
   for (i = 0; i < n; i++) {
     in_out[i] = workspace[tid*n + i];
   }
+
+  // a following call may reuse workspace and sum
+#pragma omp barrier
 }
 
 } // namespace SpMP
-- 
2.43.0


From 47e4d6f7bf224dfa433f7112ccdb3eee98724b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 31/62] fix: 27-point Laplacian counted entries of flat grids
 along the wrong dimension

---
 Laplacian.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Laplacian.cpp b/Laplacian.cpp
index feec43b..25eca61 100644
--- a/Laplacian.cpp
+++ b/Laplacian.cpp
@@ -66,11 +66,11 @@ void generate3D27PtLaplacian(CSR *A, int nx, int ny, int nz, int base /*=0*/) {
   for (int iz = 0; iz < nz; ++iz) {
     int dz = (iz >= 1 && iz < nz - 1) ? 3 : (nz == 1 ? 1 : 2);
     for (int iy = 0; iy < ny; ++iy) {
-      int dy = ((iy >= 1 && iy < ny - 1) ? 3 : (nz == 1 ? 1 : 2))*dz;
+      int dy = ((iy >= 1 && iy < ny - 1) ? 3 : (ny == 1 ? 1 : 2))*dz;
       for (int ix = 0; ix < nx; ++ix) {
         int row = (iz*ny + iy)*nx + ix;
 
-        int dx = (ix >= 1 && ix < nx - 1) ? 3 : (nz == 1 ? 1 : 2);
+        int dx = (ix >= 1 && ix < nx - 1) ? 3 : (nx == 1 ? 1 : 2);
         idx += dx*dy;
         A->rowptr[row + 1] = idx;
       } // ix
-- 
2.43.0


From e2b878adefa9be8642110969f1a441de84dfee5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:58 +0000
Subject: [PATCH 32/62] fix: allocateFront returned unaligned blocks of pools
 whose size is no multiple of the alignment

---
 MemoryPool.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MemoryPool.cpp b/MemoryPool.cpp
index 5c45180..3430230 100644
--- a/MemoryPool.cpp
+++ b/MemoryPool.cpp
@@ -152,7 +152,7 @@ void *MemoryPool::allocateFront(size_t sz, int align /*=64*/)
 
   if (tail_ >= head_) { // not wrapped around
     if (head_ < sz) { // wrap around
-      head_ = size_ - sz;
+      head_ = (size_ - sz)/align*align;
       assert(head_ > tail_); // check overflow
     }
     else {
-- 
2.43.0


From 323272021222d525613e4a755baa621f5da088fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:49 +0000
Subject: [PATCH 33/62] fix: loadMatrixMarket exited for a missing file, and
 CSR used what a failed load left

The loader is documented to return whether it succeeded.  The constructor
cannot, so it is what exits now, instead of allocating by uninitialized sizes.
---
 COO.cpp | 2 +-
 CSR.cpp | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/COO.cpp b/COO.cpp
index 70e3532..dc10fd0 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -188,7 +188,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   FILE *fp=fopen(file, "r");
   if (NULL == fp) {
     fprintf(stderr, "Failed to open file %s\n", file);
-    exit(-1);
+    return false;
   }
 
   // read banner
diff --git a/CSR.cpp b/CSR.cpp
index c5947fb..efeb94d 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -118,7 +118,9 @@ CSR::CSR(const char *fileName, int base /*=0*/, bool forceSymmetric /*=false*/,
   }
   else {
     COO Acoo;
-    loadMatrixMarket((char *)fileName, Acoo, forceSymmetric, pad);
+    if (!loadMatrixMarket((char *)fileName, Acoo, forceSymmetric, pad)) {
+      exit(-1);
+    }
 
     alloc(Acoo.m, Acoo.nnz);
 
-- 
2.43.0


From d97adb1528f038a9437ed5a5758ac416770a7d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:49 +0000
Subject: [PATCH 34/62] fix: complex, skew-symmetric and Hermitian files were
 loaded as if real and general

---
 COO.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/COO.cpp b/COO.cpp
index dc10fd0..b5a0e70 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -199,7 +199,8 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     return false;
   }
 
-  if (!mm_is_valid (matcode) || mm_is_array (matcode) || mm_is_dense (matcode) ) {
+  if (!mm_is_valid (matcode) || mm_is_array (matcode) || mm_is_dense (matcode) ||
+      mm_is_complex (matcode) || mm_is_skew (matcode) || mm_is_hermitian (matcode) ) {
     fprintf(stderr, "Error: only support sparse and real matrices.\n");
     fclose(fp);
     return false;
-- 
2.43.0


From 131516ba0955bf050319989354decdcb96132851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:49 +0000
Subject: [PATCH 35/62] fix: loading into a COO again kept it symmetric, and
 negative or non-square symmetric sizes were accepted

A general file loaded after a symmetric one was mirrored.  Mirroring a
non-square matrix indexes row counts past their end.
---
 COO.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/COO.cpp b/COO.cpp
index b5a0e70..c3f3042 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -215,6 +215,12 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     fclose(fp);
     return false;
   }
+  coo.isSymmetric = force_symmetric || mm_is_symmetric (matcode);
+  if (m < 0 || n < 0 || nnz < 0 || (coo.isSymmetric && m != n)) {
+    fprintf(stderr, "Error: invalid matrix size (%d %d %d).\n", m, n, nnz);
+    fclose(fp);
+    return false;
+  }
   if (transpose) {
     assert(!force_symmetric);
     swap(m, n);
@@ -225,8 +231,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   n = (n + pad - 1)/pad*pad;
 
   size_t count;
-  if (force_symmetric || mm_is_symmetric (matcode) == 1) {
-    coo.isSymmetric = true;
+  if (coo.isSymmetric) {
     count = 2L*nnz;
   }
   else {
-- 
2.43.0


From d1437c83d31fc917d15fbae25a189c3c6f3f9183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:49 +0000
Subject: [PATCH 36/62] fix: loading a file with more entries than its header
 says overflowed the arrays

---
 COO.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/COO.cpp b/COO.cpp
index c3f3042..50d2643 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -268,6 +268,10 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   double real, imag;
   int base = 1;
   while (mm_read_mtx_crd_entry (fp, &x, &y, &real, &imag, matcode) == 0) {
+    if (lines == nnz) {
+      ++lines; // more than specified: reported below
+      break;
+    }
     if (transpose) swap(x, y);
 
     if (x > origM || y > origN) {
-- 
2.43.0


From 2d8e0207c6fc96993d96cea71e951a3989c9bc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:49 +0000
Subject: [PATCH 37/62] fix: zero-based files with padding or symmetry were
 misread, and bad indices accepted

Padding entries were shifted together with the entries of the file and not
counted in the row counts used for mirroring; row 0 was counted twice.  An
index equal to the size in a zero-based file and negative indices passed.
---
 COO.cpp | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/COO.cpp b/COO.cpp
index 50d2643..766776c 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -251,7 +251,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
 
   int *colidx_temp, *rowcnt = NULL;
   if (coo.isSymmetric) {
-    colidx_temp = MALLOC(int, count);
+    colidx_temp = MALLOC(int, count + extraCount);
     rowcnt = MALLOC(int, m + 1);
     if (!colidx_temp || !rowcnt) {
       fprintf(stderr, "Failed to allocate memory\n");
@@ -274,7 +274,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     }
     if (transpose) swap(x, y);
 
-    if (x > origM || y > origN) {
+    if (x < 0 || y < 0 || x > origM || y > origN) {
       fprintf(stderr, "Error: (%d %d) coordinate is out of range.\n", x, y);
       fclose(fp);
       return false;
@@ -287,8 +287,17 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
 
     ++count;
     ++lines;
-    if (coo.isSymmetric) rowcnt[x]++;
-      // this is not a bug. we're intentionally indexing rowcnt[x] instead of rowcnt[x-1]
+  }
+  if (0 == base) {
+    for (size_t i = 0; i < count; ++i) {
+      if (rowidx[i] >= origM || colidx[i] >= origN) {
+        fprintf(stderr, "Error: (%d %d) coordinate is out of range.\n", rowidx[i], colidx[i]);
+        fclose(fp);
+        return false;
+      }
+      rowidx[i]++;
+      colidx[i]++;
+    }
   }
   // padding for vectorization
   for (int i = min(origM, origN); i < min(m, n); ++i) {
@@ -299,18 +308,6 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   }
   fclose(fp);
 
-  if (0 == base) {
-    for (size_t i = 0; i < count; ++i) {
-      rowidx[i]++;
-      colidx[i]++;
-    }
-    if (coo.isSymmetric) {
-      for (int i = m; i > 0; --i) {
-        rowcnt[i] = rowcnt[i - 1];
-      }
-    } 
-  }
-
   if (lines != nnz) {
     fprintf(stderr, "Error: nnz (%d) specified in the header doesn't match with # of lines (%d) in file %s\n",
             nnz, lines, file);
@@ -320,6 +317,10 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   if (coo.isSymmetric) {
     // add transposed elements only if it doesn't exist
     size_t real_count = count;
+    for (size_t i = 0; i < count; ++i) {
+      rowcnt[rowidx[i]]++;
+      // this is not a bug. we're intentionally indexing rowcnt[x] instead of rowcnt[x-1]
+    }
     // preix-sum
     for (int i = 0; i < m; ++i) {
       rowcnt[i + 1] += rowcnt[i];
-- 
2.43.0


From 8f01d7fe41bad023b55d3461b9b83b85b500ccf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 38/62] fix: long words in the banner of a Matrix Market file
 overflowed the stack

---
 mm_io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index 7aac638..79985d8 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -83,7 +83,7 @@ int mm_read_banner ( FILE *f, MM_typecode *matcode )
     if (fgets(line, MM_MAX_LINE_LENGTH, f) == NULL) 
         return MM_PREMATURE_EOF;
 
-    if (sscanf(line, "%s %s %s %s %s", banner, mtx, crd, data_type, 
+    if (sscanf(line, "%63s %63s %63s %63s %63s", banner, mtx, crd, data_type, 
         storage_scheme) != 5)
         return MM_PREMATURE_EOF;
 
-- 
2.43.0


From 5f0d7199233aee9f7a18b7d9c35ea2b0adb7ef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 39/62] fix: a size line that is not one hung the reader or
 took entries for sizes

The loop looking for numbers never ended at a word, and continued over line
ends, so that a line with two numbers made the first entry the rest of it.
---
 mm_io.cpp | 79 +++++++++++++++++++++----------------------------------
 1 file changed, 30 insertions(+), 49 deletions(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index 79985d8..a84195e 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -158,6 +158,30 @@ int mm_read_banner ( FILE *f, MM_typecode *matcode )
 }
 /******************************************************************************/
 
+static int mm_read_size_line ( FILE *f, char *line )
+
+/******************************************************************************/
+/*
+  Purpose:
+
+    MM_READ_SIZE_LINE reads the first line that is neither a comment nor blank.
+*/
+{
+  int comment = 0, continued = 0;
+
+  while ( fgets ( line, MM_MAX_LINE_LENGTH, f ) != NULL )
+  {
+    if ( !continued ) comment = line[0] == '%';
+    continued = strchr ( line, '\n' ) == NULL;
+    if ( !comment && strspn ( line, " \t\r\n" ) != strlen ( line ) )
+    {
+      return 0;
+    }
+  }
+  return MM_PREMATURE_EOF;
+}
+/******************************************************************************/
+
 int mm_read_mtx_array_size ( FILE *f, int *M, int *N )
 
 /******************************************************************************/
@@ -183,7 +207,6 @@ int mm_read_mtx_array_size ( FILE *f, int *M, int *N )
 */
 {
   char line[MM_MAX_LINE_LENGTH];
-  int num_items_read;
 /* 
   set return null parameter values, in case we exit with errors 
 */
@@ -192,31 +215,10 @@ int mm_read_mtx_array_size ( FILE *f, int *M, int *N )
 /* 
   now continue scanning until you reach the end-of-comments 
 */
-  do 
-  {
-    if ( fgets ( line, MM_MAX_LINE_LENGTH, f ) == NULL ) 
-    {
-      return MM_PREMATURE_EOF;
-    }
-  } while ( line[0] == '%' );
-/* 
-  line[] is either blank or has M,N, nz 
-*/
-  if ( sscanf ( line, "%d %d", M, N ) == 2 )
+  if ( mm_read_size_line ( f, line ) != 0 || 
+    sscanf ( line, "%d %d", M, N ) != 2 )
   {
-    return 0;
-  }
-  else
-  {
-    do
-    { 
-      num_items_read = fscanf ( f, "%d %d", M, N ); 
-      if ( num_items_read == EOF ) 
-      {
-        return MM_PREMATURE_EOF;
-      }
-    }
-    while ( num_items_read != 2 );
+    return MM_PREMATURE_EOF;
   }
   return 0;
 }
@@ -428,7 +430,6 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
 */
 {
   char line[MM_MAX_LINE_LENGTH];
-  int num_items_read;
 
 /* 
   set return null parameter values, in case we exit with errors 
@@ -439,30 +440,10 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
 /* 
   now continue scanning until you reach the end-of-comments 
 */
-  do 
+  if (mm_read_size_line(f, line) != 0 ||
+    sscanf(line, "%d %d %d", M, N, nz) != 3)
   {
-    if (fgets(line,MM_MAX_LINE_LENGTH,f) == NULL) 
-    {
-      return MM_PREMATURE_EOF;
-    }
-  } while (line[0] == '%');
-/* 
-  line[] is either blank or has M,N, nz 
-*/
-  if (sscanf(line, "%d %d %d", M, N, nz) == 3)
-  {
-    return 0;
-  }
-  else
-  {
-    do
-    { 
-      num_items_read = fscanf(f, "%d %d %d", M, N, nz); 
-      if (num_items_read == EOF) 
-      {
-        return MM_PREMATURE_EOF;
-      }
-    } while (num_items_read != 3);
+    return MM_PREMATURE_EOF;
   }
   return 0;
 }
-- 
2.43.0


From cbb86f38d2ecfc482fa0cbac3c285623d1d6add0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 40/62] fix: mm_write_banner and mm_write_*_size reported
 failure after success

fprintf returns the number of characters, not of conversions.
---
 mm_io.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index a84195e..84b21e5 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -655,7 +655,7 @@ int mm_write_banner ( FILE *f, MM_typecode matcode )
 
     ret_code = fprintf(f, "%s %s\n", MatrixMarketBanner, str);
     free(str);
-    if (ret_code !=2 )
+    if (ret_code < 0)
         return MM_COULD_NOT_WRITE_FILE;
     else
         return 0;
@@ -675,7 +675,7 @@ int mm_write_mtx_array_size(FILE *f, int M, int N)
     31 October 2008
 */
 {
-    if (fprintf(f, "%d %d\n", M, N) != 2)
+    if (fprintf(f, "%d %d\n", M, N) < 0)
         return MM_COULD_NOT_WRITE_FILE;
     else 
         return 0;
@@ -760,7 +760,7 @@ int mm_write_mtx_crd_size ( FILE *f, int M, int N, int nz )
     Input, FILE *F, a pointer to the output file.
 */
 {
-  if ( fprintf ( f, "%d %d %d\n", M, N, nz ) != 3 )
+  if ( fprintf ( f, "%d %d %d\n", M, N, nz ) < 0 )
   {
     return MM_COULD_NOT_WRITE_FILE;
   }
-- 
2.43.0


From f1e50d247fa105967a3fe43512c7bf0457d22446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 41/62] fix: loading an array without columns or with negative
 sizes accessed memory out of bounds

---
 Vector.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Vector.cpp b/Vector.cpp
index ceefd7f..b1cc32f 100644
--- a/Vector.cpp
+++ b/Vector.cpp
@@ -40,7 +40,13 @@ bool loadVectorMatrixMarket(const char *fileName, double **v, int *m, int *n)
     return false;
   }
 
-  *v = MALLOC(double, (*m)*(*n));
+  if (*m < 0 || *n < 0) {
+    fprintf(stderr, "Error: invalid array size (%d %d).\n", *m, *n);
+    fclose(fp);
+    return false;
+  }
+
+  *v = MALLOC(double, (size_t)(*m)*(*n));
 
   for (int i = 0; i < *m; i++) {
     for (int j = 0; j < *n - 1; j++) {
@@ -51,7 +57,7 @@ bool loadVectorMatrixMarket(const char *fileName, double **v, int *m, int *n)
         return false;
       }
     }
-    if (fscanf(fp, "%lg\n", *v + i*(*n) + (*n) - 1) != 1) {
+    if (*n > 0 && fscanf(fp, "%lg\n", *v + i*(*n) + (*n) - 1) != 1) {
       fprintf(stderr, "Error: premature EOF.\n");
       FREE(*v);
       fclose(fp);
-- 
2.43.0


From afbb3c8e3bbca9d6fc903b8caaf5545560003eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 42/62] fix: arrays with more elements than their size, as
 complex ones have, were accepted

---
 Vector.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Vector.cpp b/Vector.cpp
index b1cc32f..309ff39 100644
--- a/Vector.cpp
+++ b/Vector.cpp
@@ -65,6 +65,14 @@ bool loadVectorMatrixMarket(const char *fileName, double **v, int *m, int *n)
     }
   }
 
+  double extra;
+  if (fscanf(fp, "%lg", &extra) == 1) {
+    fprintf(stderr, "Error: more elements than the size (%d %d) specifies.\n", *m, *n);
+    FREE(*v);
+    fclose(fp);
+    return false;
+  }
+
   fclose(fp);
   return true;
 }
-- 
2.43.0


From 2972c155cc02675bb78f3e95b5be5399304b980e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 43/62] fix: storeBin left a 1-based matrix 0-based when it
 could not open its file

---
 CSR.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index efeb94d..d4125dc 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -367,17 +367,17 @@ void CSR::loadBin(const char *file_name, int base /*=0*/)
 
 void CSR::storeBin(const char *fileName)
 {
-  bool was1Based = 1 == getBase();
-  if (was1Based) {
-    make0BasedIndexing();
-  }
-
   FILE *fp = fopen(fileName, "w");
   if (!fp) {
     fprintf(stderr, "Failed to open %s\n", fileName);
     return;
   }
 
+  bool was1Based = 1 == getBase();
+  if (was1Based) {
+    make0BasedIndexing();
+  }
+
   int id = MAT_FILE_CLASSID;
   fwrite(&id, sizeof(id), 1, fp);
 
-- 
2.43.0


From 97beae603c58dc066ed27192c6a0235a503de15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 44/62] fix: CSR::storeMatrixMarket wrote to a NULL stream when
 it could not open its file

---
 CSR.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CSR.cpp b/CSR.cpp
index d4125dc..ce46f71 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -285,7 +285,10 @@ void CSR::storeMatrixMarket(const char *fileName) const
   int base = getBase();
 
   FILE *fp = fopen(fileName, "w");
-  assert(fp);
+  if (!fp) {
+    fprintf(stderr, "Failed to open %s\n", fileName);
+    return;
+  }
 
   MM_typecode matcode;
   mm_initialize_typecode(&matcode);
-- 
2.43.0


From 2bb102aaab4e0b59a2fc4d91cde699113523f9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 45/62] fix: COO::storeMatrixMarket left its file open

mm_write_mtx_crd opens the file itself, and reports when it cannot.
---
 COO.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/COO.cpp b/COO.cpp
index 766776c..2f2f8c7 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -52,12 +52,6 @@ void COO::dealloc()
 
 void COO::storeMatrixMarket(const char *fileName) const
 {
-  FILE *fp = fopen(fileName, "w");
-  if (NULL == fp) {
-    fprintf(stderr, "Fail to open file %s\n", fileName);
-    return;
-  }
-
   MM_typecode matcode;
   mm_initialize_typecode(&matcode);
   mm_set_matrix(&matcode);
-- 
2.43.0


From 708d3171a5ab3ff1473738473668850fed9de7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:33 +0000
Subject: [PATCH 46/62] fix: loadBin went on after a wrong file ID and used
 whatever a short or inconsistent file left

---
 CSR.cpp | 44 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index ce46f71..121c4ba 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -325,27 +325,55 @@ void CSR::loadBin(const char *file_name, int base /*=0*/)
     return;
   }
 
-  int id;
+  int id = 0;
   fread(&id, sizeof(id), 1, fp);
   if (MAT_FILE_CLASSID != id) {
     fprintf(stderr, "Wrong file ID (%d)\n", id);
+    fclose(fp);
+    return;
   }
 
-  fread(&m, sizeof(m), 1, fp);
-  fread(&n, sizeof(n), 1, fp);
   int nnz;
-  fread(&nnz, sizeof(nnz), 1, fp);
+  if (fread(&m, sizeof(m), 1, fp) != 1 ||
+      fread(&n, sizeof(n), 1, fp) != 1 ||
+      fread(&nnz, sizeof(nnz), 1, fp) != 1 ||
+      m < 0 || n < 0 || nnz < 0) {
+    fprintf(stderr, "Failed to read sizes from %s\n", file_name);
+    fclose(fp);
+    return;
+  }
+
+  long begin = ftell(fp);
+  fseek(fp, 0, SEEK_END);
+  size_t remaining = ftell(fp) - begin;
+  fseek(fp, begin, SEEK_SET);
+  if (remaining < m*sizeof(int) + nnz*(sizeof(int) + sizeof(double))) {
+    fprintf(stderr, "%s is too short\n", file_name);
+    fclose(fp);
+    return;
+  }
 
   alloc(m, nnz);
 
-  fread(rowptr + 1, sizeof(rowptr[0]), m, fp);
+  bool valid = fread(rowptr + 1, sizeof(rowptr[0]), m, fp) == (size_t)m;
   rowptr[0] = 0;
-  for (int i = 1; i < m; ++i) {
+  for (int i = 0; i < m && valid; ++i) {
+    valid = rowptr[i + 1] >= 0 && rowptr[i + 1] <= nnz - rowptr[i];
     rowptr[i + 1] += rowptr[i];
   }
 
-  fread(colidx, sizeof(colidx[0]), nnz, fp);
-  fread(values, sizeof(values[0]), nnz, fp);
+  valid = valid && rowptr[m] == nnz &&
+    fread(colidx, sizeof(colidx[0]), nnz, fp) == (size_t)nnz &&
+    fread(values, sizeof(values[0]), nnz, fp) == (size_t)nnz;
+  for (int i = 0; i < nnz && valid; ++i) {
+    valid = colidx[i] >= 0 && colidx[i] < n;
+  }
+  if (!valid) {
+    fprintf(stderr, "Failed to read matrix from %s\n", file_name);
+    dealloc();
+    fclose(fp);
+    return;
+  }
 
 #pragma omp parallel for
   for (int i = 0; i < m; ++i) {
-- 
2.43.0


From 85448791268ec0be1111a7ffe58445c5e288af08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:36 +0000
Subject: [PATCH 47/62] fix: reserve room for the intra-thread edge of tasks
 without rows

With barriers a thread has one task per level, also when it has no rows in that
level.  Such a task got no slot in the inverse adjacency, so its intra-thread
edge overwrote the first edge of the next task and the transitive reduction
dropped dependencies.
---
 LevelSchedule.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 46d018c..f1d0066 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -982,11 +982,11 @@ void constructTaskGraph_(
   int origRowPtrCnt = 0, origInvRowPtrCnt = 0;
   for (int v1 = v1Begin; v1 < v1End; ++v1) {
     int size = 0;
-    int invSize = 0;
+    int invSize = 1; // additional 1 for intra-thread, also for a task without rows
     for (int i1Perm = taskBoundaries[v1]; i1Perm < taskBoundaries[v1 + 1]; ++i1Perm) {
       int i1 = threadContToOrigPerm[i1Perm];
       size += extptr[i1] - diagptr[i1] - 1;
-      invSize += diagptr[i1] - rowptr[i1] + 1; // additional 1 for intra-thread
+      invSize += diagptr[i1] - rowptr[i1];
     }
     taskAdjacency.rowptr[v1] = origRowPtrCnt;
     taskInvAdjacency.rowptr[v1] = origInvRowPtrCnt;
-- 
2.43.0


From dfde62a1f6ade97de7a82a559cec639fdc54c671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:42 +0000
Subject: [PATCH 48/62] fix: dealloc() forgets arrays it does not own

A matrix that does not own its arrays kept pointing to them after dealloc(), so
splitLU() into a matrix used before left it with the old boundary of the local
part.
---
 CSR.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 121c4ba..4607198 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -154,6 +154,12 @@ void CSR::dealloc()
       FREE(colidx);
       FREE(values);
     }
+    else {
+      rowptr = NULL;
+      extptr = NULL;
+      colidx = NULL;
+      values = NULL;
+    }
 
     FREE(idiag);
     FREE(diag);
-- 
2.43.0


From f9c4c93a3d9bd84bfe687e81368b585957764142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:23 +0000
Subject: [PATCH 49/62] fix: transposed, permuted and split matrices own their
 arrays

The default constructor marks a matrix as not owning its arrays;
transpose(), permuteRowptr() and splitLU() allocated arrays for such
matrices, which were never released when the matrix was destroyed.
---
 CSR.cpp     | 1 +
 CSR.hpp     | 2 ++
 Permute.cpp | 1 +
 SymGS.cpp   | 1 +
 4 files changed, 5 insertions(+)

diff --git a/CSR.cpp b/CSR.cpp
index 4607198..2b0c7b5 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -534,6 +534,7 @@ CSR *CSR::transpose() const
   int nnz = getNnz();
 
   CSR *AT = new CSR();
+  AT->ownData_ = true;
 
   AT->m = n;
   AT->n = m;
diff --git a/CSR.hpp b/CSR.hpp
index c9722cd..2dda3ad 100644
--- a/CSR.hpp
+++ b/CSR.hpp
@@ -189,6 +189,8 @@ public:
   }
 
 private:
+  friend void splitLU(CSR& A, CSR *L, CSR *U);
+
   bool ownData_;
 }; // CSR
 
diff --git a/Permute.cpp b/Permute.cpp
index edab486..ae41aac 100644
--- a/Permute.cpp
+++ b/Permute.cpp
@@ -81,6 +81,7 @@ void CSR::permuteRowptr(CSR *ret, const int *inversePerm) const
 CSR *CSR::permuteRowptr(const int *inversePerm) const
 {
   CSR *ret = new CSR();
+  ret->ownData_ = true;
 
   ret->m = m;
   ret->n = n;
diff --git a/SymGS.cpp b/SymGS.cpp
index 9d0df85..0fe36d7 100644
--- a/SymGS.cpp
+++ b/SymGS.cpp
@@ -16,6 +16,7 @@ void splitLU(CSR& A, CSR *L, CSR *U)
 
   L->dealloc();
   U->dealloc();
+  L->ownData_ = U->ownData_ = true;
 
   L->m = U->m = A.m;
   L->n = U->n = A.n;
-- 
2.43.0


From 67b16333dec700729533f09f4bb14ad172b13865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 50/62] fix: parMemset and parMemcpy lost track of buffers of 2
 GiB and more

---
 Utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Utils.cpp b/Utils.cpp
index 93c54b4..c41e64b 100644
--- a/Utils.cpp
+++ b/Utils.cpp
@@ -70,8 +70,8 @@ void parMemset(void *ptr, int c, size_t n)
     int nCacheLineBegin, nCacheLineEnd;
     getSimpleThreadPartition(&nCacheLineBegin, &nCacheLineEnd, nCacheLines);
 
-    int nBegin = nCacheLineBegin*64;
-    int nEnd = omp_get_thread_num() == omp_get_num_threads() - 1 ? n : nCacheLineEnd*64;
+    size_t nBegin = (size_t)nCacheLineBegin*64;
+    size_t nEnd = omp_get_thread_num() == omp_get_num_threads() - 1 ? n : (size_t)nCacheLineEnd*64;
 
     memset((char *)ptr + nBegin, c, nEnd - nBegin);
   }
@@ -85,8 +85,8 @@ void parMemcpy(void *dst, const void *src, size_t n)
     int nCacheLineBegin, nCacheLineEnd;
     getSimpleThreadPartition(&nCacheLineBegin, &nCacheLineEnd, nCacheLines);
 
-    int nBegin = nCacheLineBegin*64;
-    int nEnd = omp_get_thread_num() == omp_get_num_threads() - 1 ? n : nCacheLineEnd*64;
+    size_t nBegin = (size_t)nCacheLineBegin*64;
+    size_t nEnd = omp_get_thread_num() == omp_get_num_threads() - 1 ? n : (size_t)nCacheLineEnd*64;
 
     memcpy((char *)dst + nBegin, (char *)src + nBegin, nEnd - nBegin);
   }
-- 
2.43.0


From 1d0afc30d1cc828862698d055b806ad8fa01acc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 51/62] fix: a generated matrix owns its arrays

generate3D27PtLaplacian() allocated arrays for a matrix made by the default
constructor, which does not own its arrays, so they were never released.
---
 CSR.hpp       | 1 +
 Laplacian.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/CSR.hpp b/CSR.hpp
index 2dda3ad..ec4c19b 100644
--- a/CSR.hpp
+++ b/CSR.hpp
@@ -190,6 +190,7 @@ public:
 
 private:
   friend void splitLU(CSR& A, CSR *L, CSR *U);
+  friend void generate3D27PtLaplacian(CSR *A, int nx, int ny, int nz, int base);
 
   bool ownData_;
 }; // CSR
diff --git a/Laplacian.cpp b/Laplacian.cpp
index 25eca61..1e78ea1 100644
--- a/Laplacian.cpp
+++ b/Laplacian.cpp
@@ -29,6 +29,7 @@ namespace SpMP
 
 void generate3D27PtLaplacian(CSR *A, int nx, int ny, int nz, int base /*=0*/) {
   A->dealloc();
+  A->ownData_ = true;
 
   A->m = A->n = nx*ny*nz;
   A->rowptr = MALLOC(int, A->m + 1);
-- 
2.43.0


From 2b6b91eeaa8054eaf4558ff663d821f693fae528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 52/62] fix: reorderings leaked the component search's arrays

findConnectedComponents() never released its union-find forest, and the BFS
and RCM reorderings not the arrays it returns: several arrays as long as the
matrix has rows were lost in every call.
---
 reordering/ConnectedComponents.cpp |  1 +
 reordering/RCM.cpp                 | 10 ++++++++++
 2 files changed, 11 insertions(+)

diff --git a/reordering/ConnectedComponents.cpp b/reordering/ConnectedComponents.cpp
index 6ef79a8..cc1fab4 100644
--- a/reordering/ConnectedComponents.cpp
+++ b/reordering/ConnectedComponents.cpp
@@ -326,6 +326,7 @@ void findConnectedComponents_(
 
   //printf("num of connected components = %d\n", (*numOfComponents));
 
+  delete[] p;
   delete[] rootToComp;
   if (nodesToFind) delete[] nodesToFind;
 }
diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index 268c27b..c066d84 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -949,6 +949,11 @@ void CSR::getRCMPermutation(int *perm, int *inversePerm, bool pseudoDiameterSour
   delete[] write_offset;
   delete[] prefixSum_array;
 
+  delete[] compToRoot;
+  delete[] compSizes;
+  delete[] compSizePrefixSum;
+  delete[] nodesSortedByComp;
+
 #if 0
   printf("num of connected components = %d (singleton = %d, twin = %d, large (>=%d) = %d)\n", numOfComponents, singletonCnt, twinCnt, PAR_THR, largeCompCnt);
   printf("connectedComponentTime = %f\n", timeConnectedComponents);
@@ -1112,6 +1117,11 @@ void CSR::getBFSPermutation(int *perm, int *inversePerm)
 
   timeSecondPhase += omp_get_wtime();
 
+  delete[] compToRoot;
+  delete[] compSizes;
+  delete[] compSizePrefixSum;
+  delete[] nodesSortedByComp;
+
 #if 0
   printf("num of connected components = %d (singleton = %d, twin = %d, large (>=%d) = %d)\n", numOfComponents, singletonCnt, twinCnt, PAR_THR, largeCompCnt);
   printf("connectedComponentTime = %f\n", timeConnectedComponents);
-- 
2.43.0


From 081f415d6476c0382c352d8ecb864beaf6f60947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:14 +0000
Subject: [PATCH 53/62] fix: building an unreduced schedule leaked the task
 adjacency lists

---
 LevelSchedule.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index f1d0066..ea79b8d 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -1757,6 +1757,14 @@ void constructTaskGraph_(
         }
       }
 
+      if (!useMemoryPool) {
+        FREE(taskAdjacency.rowptr);
+        FREE(taskAdjacency.colidx);
+
+        FREE(taskInvAdjacency.rowptr);
+        FREE(taskInvAdjacency.colidx);
+      }
+
       taskAdjacency.~CSR();
       taskInvAdjacency.~CSR();
     } // omp single
-- 
2.43.0


From de83d871aaab2f56b9eed92c70e590c351f5ff64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 54/62] fix: rejected MatrixMarket files leaked the arrays read
 so far

---
 COO.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/COO.cpp b/COO.cpp
index 2f2f8c7..a822fe3 100644
--- a/COO.cpp
+++ b/COO.cpp
@@ -237,19 +237,28 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   double *values = MALLOC(double, count + extraCount);
   int *colidx = MALLOC(int, count + extraCount);
   int *rowidx = MALLOC(int, count + extraCount);
+  int *colidx_temp = NULL, *rowcnt = NULL;
+  auto freeArrays = [&]() {
+    FREE(values);
+    FREE(colidx);
+    FREE(rowidx);
+    FREE(colidx_temp);
+    FREE(rowcnt);
+  };
   if (!values || !colidx || !rowidx) {
     fprintf(stderr, "Failed to allocate memory\n");
     fclose(fp);
+    freeArrays();
     return false;
   }
 
-  int *colidx_temp, *rowcnt = NULL;
   if (coo.isSymmetric) {
     colidx_temp = MALLOC(int, count + extraCount);
     rowcnt = MALLOC(int, m + 1);
     if (!colidx_temp || !rowcnt) {
       fprintf(stderr, "Failed to allocate memory\n");
       fclose(fp);
+      freeArrays();
       return false;
     }
     memset(rowcnt, 0, sizeof(int)*(m + 1));
@@ -271,6 +280,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
     if (x < 0 || y < 0 || x > origM || y > origN) {
       fprintf(stderr, "Error: (%d %d) coordinate is out of range.\n", x, y);
       fclose(fp);
+      freeArrays();
       return false;
     }
 
@@ -287,6 +297,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
       if (rowidx[i] >= origM || colidx[i] >= origN) {
         fprintf(stderr, "Error: (%d %d) coordinate is out of range.\n", rowidx[i], colidx[i]);
         fclose(fp);
+        freeArrays();
         return false;
       }
       rowidx[i]++;
@@ -305,6 +316,7 @@ static bool loadMatrixMarket_(const char *file, COO &coo, bool force_symmetric,
   if (lines != nnz) {
     fprintf(stderr, "Error: nnz (%d) specified in the header doesn't match with # of lines (%d) in file %s\n",
             nnz, lines, file);
+    freeArrays();
     return false;
   }
     
-- 
2.43.0


From f5e166f063f0a3f9179e379b1d3d99ef68963ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:40 +0000
Subject: [PATCH 55/62] fix: deleting a LoadImba leaked its per-thread records

---
 synk/loadimba.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/synk/loadimba.cpp b/synk/loadimba.cpp
index be3e4d5..2a86832 100644
--- a/synk/loadimba.cpp
+++ b/synk/loadimba.cpp
@@ -274,6 +274,7 @@ LoadImba::~LoadImba()
         _mm_free(limba[i]->tot);
         _mm_free(limba[i]->cnt);
         _mm_free(limba[i]->bar);
+        _mm_free(limba[i]);
     }
     _mm_free(limba);
 }
-- 
2.43.0


From 612a81c9978da5f45e3443bb44c21c830c638bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:47 +0000
Subject: [PATCH 56/62] fix: MatrixMarket writers leaked the type name

---
 CSR.cpp   | 5 ++++-
 mm_io.cpp | 9 ++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/CSR.cpp b/CSR.cpp
index 2b0c7b5..a6fea1f 100644
--- a/CSR.cpp
+++ b/CSR.cpp
@@ -23,6 +23,7 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
 
 #include <cstdio>
+#include <cstdlib>
 #include <cstring>
 #include <climits>
 #include <algorithm>
@@ -303,8 +304,10 @@ void CSR::storeMatrixMarket(const char *fileName) const
   mm_set_real(&matcode);
 
   // print banner followed by typecode.
+  char *str = mm_typecode_to_str(matcode);
   fprintf(fp, "%s ", MatrixMarketBanner);
-  fprintf(fp, "%s\n", mm_typecode_to_str(matcode));
+  fprintf(fp, "%s\n", str);
+  free(str);
 
   // print matrix size and nonzeros.
   fprintf(fp, "%d %d %d\n", m, n, rowptr[m] - base);
diff --git a/mm_io.cpp b/mm_io.cpp
index 84b21e5..1b2df45 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -487,8 +487,9 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
             mm_is_sparse(matcode)))
     {
         fprintf(stderr, "Sorry, this application does not support ");
-        fprintf(stderr, "Market Market type: [%s]\n",
-                mm_typecode_to_str(matcode));
+        char *str = mm_typecode_to_str(matcode);
+        fprintf(stderr, "Market Market type: [%s]\n", str);
+        free(str);
         return -1;
     }
  
@@ -707,8 +708,10 @@ int mm_write_mtx_crd(char fname[], int M, int N, int nz, int I[], int J[],
 /*
   print banner followed by typecode.
 */
+    char *str = mm_typecode_to_str(matcode);
     fprintf(f, "%s ", MatrixMarketBanner);
-    fprintf(f, "%s\n", mm_typecode_to_str(matcode));
+    fprintf(f, "%s\n", str);
+    free(str);
 
 /*
   print matrix sizes and nonzeros.
-- 
2.43.0


From 822b2904c3d7dbcf7c92728410d242e42661042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:04 +0000
Subject: [PATCH 57/62] fix: MatrixMarket array readers kept a rejected file
 open

---
 mm_io.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index 1b2df45..98be260 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -262,14 +262,23 @@ int mm_read_mtx_crd(char *fname, int *M, int *N, int *nz, int **I, int **J,
 
 
     if ((ret_code = mm_read_banner(f, matcode)) != 0)
+    {
+        if (f != stdin) fclose(f);
         return ret_code;
+    }
 
     if (!(mm_is_valid(*matcode) && mm_is_sparse(*matcode) && 
             mm_is_matrix(*matcode)))
+    {
+        if (f != stdin) fclose(f);
         return MM_UNSUPPORTED_TYPE;
+    }
 
     if ((ret_code = mm_read_mtx_crd_size(f, M, N, nz)) != 0)
+    {
+        if (f != stdin) fclose(f);
         return ret_code;
+    }
 
 
     *I = (int *)  malloc(*nz * sizeof(int));
@@ -281,25 +290,22 @@ int mm_read_mtx_crd(char *fname, int *M, int *N, int *nz, int **I, int **J,
         *val = (double *) malloc(*nz * 2 * sizeof(double));
         ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val, 
                 *matcode);
-        if (ret_code != 0) return ret_code;
     }
     else if (mm_is_real(*matcode))
     {
         *val = (double *) malloc(*nz * sizeof(double));
         ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val, 
                 *matcode);
-        if (ret_code != 0) return ret_code;
     }
 
     else if (mm_is_pattern(*matcode))
     {
         ret_code = mm_read_mtx_crd_data(f, *M, *N, *nz, *I, *J, *val, 
                 *matcode);
-        if (ret_code != 0) return ret_code;
     }
 
     if (f != stdin) fclose(f);
-    return 0;
+    return ret_code;
 }
 /******************************************************************************/
 
@@ -478,6 +484,7 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
     {
         printf("mm_read_unsymetric: Could not process Matrix Market banner ");
         printf(" in file [%s]\n", fname);
+        fclose(f);
         return -1;
     }
  
@@ -490,6 +497,7 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
         char *str = mm_typecode_to_str(matcode);
         fprintf(stderr, "Market Market type: [%s]\n", str);
         free(str);
+        fclose(f);
         return -1;
     }
  
@@ -500,6 +508,7 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
     if (mm_read_mtx_crd_size(f, &M, &N, &nz) !=0)
     {
         fprintf(stderr, "read_unsymmetric_sparse(): could not parse matrix size.\n");
+        fclose(f);
         return -1;
     }
  
-- 
2.43.0


From c0ff45ffba7d8a1210ce65195a3ed5b111f96865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:15 +0000
Subject: [PATCH 58/62] fix: MatrixMarket array readers accepted truncated,
 integer-valued and negative-size files

---
 mm_io.cpp | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/mm_io.cpp b/mm_io.cpp
index 98be260..71bc9e9 100644
--- a/mm_io.cpp
+++ b/mm_io.cpp
@@ -304,6 +304,21 @@ int mm_read_mtx_crd(char *fname, int *M, int *N, int *nz, int **I, int **J,
                 *matcode);
     }
 
+    else
+    {
+        ret_code = MM_UNSUPPORTED_TYPE;
+    }
+
+    if (ret_code != 0)
+    {
+        free(*I);
+        free(*J);
+        free(*val);
+        *I = NULL;
+        *J = NULL;
+        *val = NULL;
+    }
+
     if (f != stdin) fclose(f);
     return ret_code;
 }
@@ -447,7 +462,8 @@ int mm_read_mtx_crd_size(FILE *f, int *M, int *N, int *nz )
   now continue scanning until you reach the end-of-comments 
 */
   if (mm_read_size_line(f, line) != 0 ||
-    sscanf(line, "%d %d %d", M, N, nz) != 3)
+    sscanf(line, "%d %d %d", M, N, nz) != 3 ||
+    *M < 0 || *N < 0 || *nz < 0)
   {
     return MM_PREMATURE_EOF;
   }
@@ -522,9 +538,6 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
     J = (int *) malloc(nz * sizeof(int));
     val = (double *) malloc(nz * sizeof(double));
  
-    *val_ = val;
-    *I_ = I;
-    *J_ = J;
 /* 
   NOTE: when reading in doubles, ANSI C requires the use of the "l"
   specifier as in "%lg", "%lf", "%le", otherwise errors will occur
@@ -533,7 +546,15 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
  
     for (i=0; i<nz; i++)
     {
-        fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]);
+        if (fscanf(f, "%d %d %lg\n", &I[i], &J[i], &val[i]) != 3)
+        {
+            fprintf(stderr, "read_unsymmetric_sparse(): premature end of file.\n");
+            fclose(f);
+            free(I);
+            free(J);
+            free(val);
+            return -1;
+        }
 /*
   Adjust from 1-based to 0-based.
 */
@@ -541,6 +562,10 @@ int mm_read_unsymmetric_sparse(const char *fname, int *M_, int *N_, int *nz_,
         J[i]--;
     }
     fclose(f);
+
+    *val_ = val;
+    *I_ = I;
+    *J_ = J;
  
     return 0;
 }
-- 
2.43.0


From 3e823dc18dd40f6b9f5c4bd48c475700bc1397ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 59/62] fix: a schedule from the memory pool leaked its fused
 schedule

---
 LevelSchedule.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index ea79b8d..381d467 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -112,9 +112,10 @@ LevelSchedule::~LevelSchedule() {
     FREE(threadContToOrigPerm);
     FREE(parentsBuf[0]);
     FREE(parentsBuf[1]);
-
-    if (fusedSchedule) delete fusedSchedule;
   }
+
+  // its arrays are not from the memory pool
+  if (fusedSchedule) delete fusedSchedule;
 }
 
 void LevelSchedule::init_()
-- 
2.43.0


From c6c76f9869a88c2b57f2206b87a8a549eb6fec2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:32 +0000
Subject: [PATCH 60/62] fix: barriers with more than 127 threads per core or
 128 cores index with narrow thread and core ids

---
 synk/barrier.cpp |  6 +++---
 synk/barrier.hpp |  4 ++--
 synk/reduce.hpp  | 10 +++++-----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/synk/barrier.cpp b/synk/barrier.cpp
index 52a07c8..ea9187c 100644
--- a/synk/barrier.cpp
+++ b/synk/barrier.cpp
@@ -117,8 +117,8 @@ Barrier::Barrier(int numCores_, int numThreadsPerCore_)
     threadCores = (CoreBarrier **)
         _mm_malloc(numThreads * sizeof (CoreBarrier *), 64);
     if (threadCores == NULL) throw bad_alloc();
-    coreTids = (int8_t *)
-        _mm_malloc(numThreads * sizeof (int8_t), 64);
+    coreTids = (int *)
+        _mm_malloc(numThreads * sizeof (int), 64);
     if (coreTids == NULL) throw bad_alloc();
 }
 
@@ -198,7 +198,7 @@ void Barrier::wait(int tid)
 
     /* find thread's core and core thread id */
     CoreBarrier *bar = threadCores[tid];
-    int8_t coreTid = coreTids[tid];
+    int coreTid = coreTids[tid];
 
     /* signal thread arrival in core */
     bar->threadSenses[coreTid] = !bar->threadSenses[coreTid];
diff --git a/synk/barrier.hpp b/synk/barrier.hpp
index 7511a0c..7542775 100644
--- a/synk/barrier.hpp
+++ b/synk/barrier.hpp
@@ -41,7 +41,7 @@ namespace synk
 
 /* dissemination barrier; one per core */
 struct CoreBarrier {
-    int8_t              coreId;
+    int                 coreId;
     volatile uint8_t    coreSense;
     volatile uint8_t    *threadSenses;
     volatile uint8_t    *myFlags[2];
@@ -74,7 +74,7 @@ protected:
 
     CoreBarrier **cores;
     CoreBarrier **threadCores;
-    int8_t      *coreTids;
+    int         *coreTids;
 };
 
 }
diff --git a/synk/reduce.hpp b/synk/reduce.hpp
index d260317..562e7e7 100644
--- a/synk/reduce.hpp
+++ b/synk/reduce.hpp
@@ -51,7 +51,7 @@ namespace synk
 /* pseudo-core for reducing barrier */
 template <typename T>
 struct PseudoCore {
-    int8_t              coreId;
+    int                 coreId;
     volatile uint8_t    *myFlags[2];
     uint8_t             **partnerFlags[2];
     uint8_t             parity;
@@ -65,7 +65,7 @@ struct PseudoCore {
 /* reducing dissemination barrier; one per core */
 template <typename T>
 struct ReduceCoreBarrier {
-    int8_t              coreId;
+    int                 coreId;
     volatile uint8_t    coreSense;
     volatile uint8_t    *threadSenses;
     volatile uint8_t    *myFlags[2];
@@ -95,7 +95,7 @@ public:
 protected:
     ReduceCoreBarrier<T> **cores;
     ReduceCoreBarrier<T> **threadCores;
-    int8_t               *coreTids;
+    int                  *coreTids;
 };
 
 
@@ -109,7 +109,7 @@ ReduceBarrier<T>::ReduceBarrier(int numCores_, int numThreadsPerCore_)
     if (cores == NULL) throw bad_alloc();
     threadCores = MALLOC(ReduceCoreBarrier<T> *, numThreads);
     if (threadCores == NULL) throw bad_alloc();
-    coreTids = MALLOC(int8_t, numThreads);
+    coreTids = MALLOC(int, numThreads);
     if (coreTids == NULL) throw bad_alloc();
 }
 
@@ -268,7 +268,7 @@ T ReduceBarrier<T>::wait(int tid, T zeroVal, T redVal, T (*redFunc)(T, T))
 
     /* find thread's core and core thread id */
     ReduceCoreBarrier<T> *bar = threadCores[tid];
-    int8_t coreTid = coreTids[tid];
+    int coreTid = coreTids[tid];
 
     /* set thread's reduction value and signal thread arrival in core */
     bar->threadRvals[coreTid] = redVal;
-- 
2.43.0


From 692e59e60d936cfa272dc89e18e5d5d72e1738ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:32 +0000
Subject: [PATCH 61/62] fix: counts of a task's parents and children overflow a
 short for tasks with many neighbours

---
 LevelSchedule.cpp | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/LevelSchedule.cpp b/LevelSchedule.cpp
index 381d467..d54f438 100644
--- a/LevelSchedule.cpp
+++ b/LevelSchedule.cpp
@@ -24,6 +24,7 @@ SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include <cstring>
 #include <cassert>
+#include <climits>
 #include <cmath>
 #include <algorithm>
 #include <omp.h>
@@ -846,6 +847,23 @@ void findLevels_(
   schedule->ntasks = threadBoundaries.back();
 }
 
+// A thread executes its tasks in order, so of the parents in one thread only the
+// one executed last is needed. Returns n, or when n doesn't fit in a short the number
+// of parents after leaving out the others.
+static short limitParents_(int *parents, int n, const vector<int>& threadBoundaries, bool forward)
+{
+  if (n <= SHRT_MAX) return n;
+
+  sort(parents, parents + n);
+  int cnt = 0;
+  for (size_t t = 0; t + 1 < threadBoundaries.size(); ++t) {
+    int *begin = lower_bound(parents + cnt, parents + n, threadBoundaries[t]);
+    int *end = lower_bound(begin, parents + n, threadBoundaries[t + 1]);
+    if (begin != end) parents[cnt++] = forward ? *(end - 1) : *begin;
+  }
+  return cnt;
+}
+
 template<int BASE = 0>
 static
 void constructTaskGraph_(
@@ -898,12 +916,10 @@ void constructTaskGraph_(
 
   schedule->nparentsForward = schedule->allocate<short>(ntasks);
   schedule->parentsForward = schedule->allocate<int *>(ntasks);
-  short *nparentsForward = schedule->nparentsForward;
   int **parentsForward = schedule->parentsForward;
 
   schedule->nparentsBackward = schedule->allocate<short>(ntasks);
   schedule->parentsBackward = schedule->allocate<int *>(ntasks);
-  short *nparentsBackward = schedule->nparentsBackward;
   int **parentsBackward = schedule->parentsBackward;
 
   schedule->taskFinished = schedule->allocate<int>(ntasks);
@@ -911,10 +927,7 @@ void constructTaskGraph_(
 
 #pragma omp parallel for
   for (int i = 0; i < ntasks; ++i) {
-    nparentsForward[i] = 0;
     parentsForward[i] = NULL;
-
-    nparentsBackward[i] = 0;
     parentsBackward[i] = NULL;
 
     taskFinished[i] = 0;
@@ -926,7 +939,7 @@ void constructTaskGraph_(
 #endif
 
   size_t childrenBufEnd = 0;
-  short *nparentsTemp;
+  int *nparentsTemp;
   vector<vector<int> > tempParents;
 
   //unsigned long long barrierTimes[NUM_MAX_THREADS] = { 0 };
@@ -935,6 +948,9 @@ void constructTaskGraph_(
   t = __rdtsc();
 #endif
 
+  // a task can have more parents than a short can count until they are stored
+  vector<int> nparentsForward(ntasks), nparentsBackward(ntasks);
+
   size_t adjacencyBegin = memoryPool->getTail();
   CSR taskAdjacency, taskInvAdjacency;
   taskAdjacency.rowptr = schedule->allocate<int>(ntasks + 1);
@@ -966,7 +982,7 @@ void constructTaskGraph_(
 #endif
   int *childrenBuf;
   int **children;
-  short *numOfChildren;
+  int *numOfChildren;
 
   int v1Boundaries[NUM_MAX_THREADS] = { 0 }, v1Boundaries2[NUM_MAX_THREADS] = { 0 };
 
@@ -1508,7 +1524,7 @@ void constructTaskGraph_(
 
       childrenBuf = schedule->allocateFront<int>(perThreadRowPtrSum[nthreads]);
       children = schedule->allocateFront<int *>(ntasks);
-      numOfChildren = schedule->allocateFront<short>(ntasks);
+      numOfChildren = schedule->allocateFront<int>(ntasks);
     }
 
 #ifdef _OPENMP
@@ -1671,7 +1687,7 @@ void constructTaskGraph_(
       }
 
       nparentsTempBegin = memoryPool->getTail();
-      nparentsTemp = schedule->allocate<short>(ntasks);
+      nparentsTemp = schedule->allocate<int>(ntasks);
     } // omp single
 #ifdef _OPENMP
 #pragma omp barrier
@@ -1773,6 +1789,14 @@ void constructTaskGraph_(
 #endif
   } // omp parallel
 
+#pragma omp parallel for
+  for (int i = 0; i < ntasks; ++i) {
+    schedule->nparentsForward[i] =
+      limitParents_(parentsForward[i], nparentsForward[i], threadBoundaries, true);
+    schedule->nparentsBackward[i] =
+      limitParents_(parentsBackward[i], nparentsBackward[i], threadBoundaries, false);
+  }
+
 #ifdef TRSOLVER_LOG
   double dt = (__rdtsc() - t)/get_cpu_freq();
   printf("transitive reduction takes %f (%f SpMVs) \n", dt, dt/spmvTime);
-- 
2.43.0


From 9b25f4799b18910b12be181527f388804ff09471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:21 +0000
Subject: [PATCH 62/62] fix: do not take a row that stores its diagonal entry
 twice for a pair of rows

getRCMPermutation and getBFSPermutation place components of one or two rows
directly.  A lone row with two stored diagonal entries was taken for its own
partner: it got two positions, the second one belonging to the next component
or lying outside the output arrays.
---
 reordering/RCM.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reordering/RCM.cpp b/reordering/RCM.cpp
index c066d84..239b5e1 100644
--- a/reordering/RCM.cpp
+++ b/reordering/RCM.cpp
@@ -759,7 +759,7 @@ void CSR::getRCMPermutation(int *perm, int *inversePerm, bool pseudoDiameterSour
       else if (colidx[rowptr[i] + 1] == i) {
         u = colidx[rowptr[i]];
       }
-      if (u != -1 &&
+      if (u != -1 && u != i &&
         rowptr[u + 1] == rowptr[u] + 2 &&
           ((colidx[rowptr[u]] == u && colidx[rowptr[u] + 1] == i) ||
             (colidx[rowptr[u] + 1] == u && colidx[rowptr[u]] == i))) {
@@ -1062,7 +1062,7 @@ void CSR::getBFSPermutation(int *perm, int *inversePerm)
       else if (colidx[rowptr[i] + 1 - base] - base == i) {
         u = colidx[rowptr[i] - base] - base;
       }
-      if (u != -1 &&
+      if (u != -1 && u != i &&
         rowptr[u + 1] == rowptr[u] + 2 &&
           ((colidx[rowptr[u] - base] - base == u && colidx[rowptr[u] + 1 - base] - base == i) ||
             (colidx[rowptr[u] + 1 - base] - base == u && colidx[rowptr[u] - base] - base == i))) {
-- 
2.43.0

