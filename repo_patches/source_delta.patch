From 60f0cd283bab34606d630e565f0a1cddfe5eb09f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:34:13 +0000
Subject: [PATCH 001/130] fix: do not run phantom work-groups for an empty
 NDRange in quick mode

---
 src/core/KernelInvocation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/KernelInvocation.cpp b/src/core/KernelInvocation.cpp
index b6a6ca5..ade7f4b 100644
--- a/src/core/KernelInvocation.cpp
+++ b/src/core/KernelInvocation.cpp
@@ -59,7 +59,8 @@ KernelInvocation::KernelInvocation(const Context* context, const Kernel* kernel,
     m_numWorkers = 1;
 
   // Check for quick-mode environment variable
-  if (checkEnv("OCLGRIND_QUICK"))
+  if (checkEnv("OCLGRIND_QUICK") && m_numGroups.x && m_numGroups.y &&
+      m_numGroups.z)
   {
     // Only run first and last work-groups in quick-mode
     Size3 firstGroup(0, 0, 0);
-- 
2.43.0


From 4f979d268610d1221d7c14e7263e9c6b28a391c2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 002/130] fix: compare accesses with the mapped region itself,
 not with the start of its buffer

---
 src/plugins/MemCheck.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/plugins/MemCheck.cpp b/src/plugins/MemCheck.cpp
index 7567f26..cc71eb3 100644
--- a/src/plugins/MemCheck.cpp
+++ b/src/plugins/MemCheck.cpp
@@ -176,8 +176,8 @@ void MemCheck::checkLoad(const Memory* memory, size_t address,
        region++)
   {
     if (region->type == MapRegion::WRITE &&
-        address < region->address + region->size &&
-        address + size >= region->address)
+        address < region->address + region->offset + region->size &&
+        address + size > region->address + region->offset)
     {
       m_context->logError("Invalid read from buffer mapped for writing");
     }
@@ -206,8 +206,8 @@ void MemCheck::checkStore(const Memory* memory, size_t address,
   for (auto region = m_mapRegions.begin(); region != m_mapRegions.end();
        region++)
   {
-    if (address < region->address + region->size &&
-        address + size >= region->address)
+    if (address < region->address + region->offset + region->size &&
+        address + size > region->address + region->offset)
     {
       m_context->logError("Invalid write to mapped buffer");
     }
-- 
2.43.0


From a0411a6eeb02cd4c780209ac4e15a9f77649effd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 003/130] fix: widen the scalar operands of integer max, min
 and clamp on vectors

---
 src/core/WorkItemBuiltins.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index d09483c..224da30 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -55,6 +55,8 @@ class WorkItemBuiltins
 #define SARG(i) SARGV(i, 0)
 #define FARG(i) FARGV(i, 0)
 #define PARG(i) PARGV(i, 0)
+// Index of component v of argument i, which may be a scalar that is widened
+#define VIDX(i, v) (ARG(i)->getType()->isVectorTy() ? (v) : 0)
 #define ARG_VLEN(i)                                                            \
   llvm::cast<llvm::FixedVectorType>(ARG(i)->getType())->getNumElements()
 
@@ -101,7 +103,7 @@ class WorkItemBuiltins
   {
     for (unsigned i = 0; i < result.num; i++)
     {
-      result.setUInt(func(UARGV(0, i), UARGV(1, i)), i);
+      result.setUInt(func(UARGV(0, i), UARGV(1, VIDX(1, i))), i);
     }
   }
   static void u3arg(WorkItem* workItem, const llvm::CallInst* callInst,
@@ -111,7 +113,9 @@ class WorkItemBuiltins
   {
     for (unsigned i = 0; i < result.num; i++)
     {
-      result.setUInt(func(UARGV(0, i), UARGV(1, i), UARGV(2, i)), i);
+      result.setUInt(func(UARGV(0, i), UARGV(1, VIDX(1, i)),
+                          UARGV(2, VIDX(2, i))),
+                     i);
     }
   }
   static void s1arg(WorkItem* workItem, const llvm::CallInst* callInst,
@@ -129,7 +133,7 @@ class WorkItemBuiltins
   {
     for (unsigned i = 0; i < result.num; i++)
     {
-      result.setSInt(func(SARGV(0, i), SARGV(1, i)), i);
+      result.setSInt(func(SARGV(0, i), SARGV(1, VIDX(1, i))), i);
     }
   }
   static void s3arg(WorkItem* workItem, const llvm::CallInst* callInst,
@@ -139,7 +143,9 @@ class WorkItemBuiltins
   {
     for (unsigned i = 0; i < result.num; i++)
     {
-      result.setSInt(func(SARGV(0, i), SARGV(1, i), SARGV(2, i)), i);
+      result.setSInt(func(SARGV(0, i), SARGV(1, VIDX(1, i)),
+                          SARGV(2, VIDX(2, i))),
+                     i);
     }
   }
   static void rel1arg(WorkItem* workItem, const llvm::CallInst* callInst,
-- 
2.43.0


From ef03e82d505229222283683341ef02d9bb3e8736 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 004/130] fix: compute abs_diff of long operands without signed
 overflow

---
 src/core/WorkItemBuiltins.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 224da30..dfda389 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -1862,7 +1862,7 @@ class WorkItemBuiltins
       {
         int64_t a = SARGV(0, i);
         int64_t b = SARGV(1, i);
-        result.setSInt(_max_(a, b) - _min_(a, b), i);
+        result.setUInt((uint64_t)_max_(a, b) - (uint64_t)_min_(a, b), i);
         break;
       }
       default:
-- 
2.43.0


From 149a413e3fa01314b04ac9e8185ea929df0edc7d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 005/130] fix: saturate add_sat, sub_sat and mad_sat correctly
 for long operands

---
 src/core/WorkItemBuiltins.cpp | 46 ++++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index dfda389..4492314 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -1877,7 +1877,8 @@ class WorkItemBuiltins
     for (unsigned i = 0; i < result.num; i++)
     {
       uint64_t uresult = UARGV(0, i) + UARGV(1, i);
-      int64_t sresult = SARGV(0, i) + SARGV(1, i);
+      int64_t sresult =
+        (int64_t)((uint64_t)SARGV(0, i) + (uint64_t)SARGV(1, i));
       switch (getOverloadArgType(overload))
       {
       case 'h':
@@ -1909,10 +1910,10 @@ class WorkItemBuiltins
         result.setSInt(sresult, i);
         break;
       case 'l':
-        if ((SARGV(0, i) > 0) == (SARGV(1, i) > 0) &&
-            (SARGV(0, i) > 0) != (sresult > 0))
+        if ((SARGV(0, i) < 0) == (SARGV(1, i) < 0) &&
+            (SARGV(0, i) < 0) != (sresult < 0))
         {
-          sresult = (SARGV(0, i) > 0) ? INT64_MAX : INT64_MIN;
+          sresult = (SARGV(0, i) < 0) ? INT64_MIN : INT64_MAX;
         }
         result.setSInt(sresult, i);
         break;
@@ -2072,7 +2073,8 @@ class WorkItemBuiltins
     for (unsigned i = 0; i < result.num; i++)
     {
       uint64_t uresult = UARGV(0, i) * UARGV(1, i) + UARGV(2, i);
-      int64_t sresult = SARGV(0, i) * SARGV(1, i) + SARGV(2, i);
+      int64_t sresult = (int64_t)((uint64_t)SARGV(0, i) * (uint64_t)SARGV(1, i) +
+                                  (uint64_t)SARGV(2, i));
       switch (getOverloadArgType(overload))
       {
       case 'h':
@@ -2110,23 +2112,22 @@ class WorkItemBuiltins
         result.setSInt(sresult, i);
         break;
       case 'l':
-        // Check for overflow in multiplication
-        if (_smul_hi_(SARGV(0, i), SARGV(1, i), 64))
-        {
-          sresult =
-            (SARGV(0, i) > 0) ^ (SARGV(1, i) > 0) ? INT64_MIN : INT64_MAX;
-        }
-        else
+      {
+        // Add the third operand to the full 128-bit product
+        uint64_t lo = (uint64_t)SARGV(0, i) * (uint64_t)SARGV(1, i);
+        int64_t hi = _smul_hi_(SARGV(0, i), SARGV(1, i), 64);
+        uint64_t sum = lo + (uint64_t)SARGV(2, i);
+        hi += (SARGV(2, i) < 0 ? -1 : 0) + (sum < lo ? 1 : 0);
+
+        // The result fits if the upper half is the sign of the lower half
+        sresult = (int64_t)sum;
+        if (hi != (sresult < 0 ? -1 : 0))
         {
-          // Check for overflow in addition
-          int64_t m = SARGV(0, i) * SARGV(1, i);
-          if ((m > 0) == (SARGV(2, i) > 0) && (m > 0) != (sresult > 0))
-          {
-            sresult = (m > 0) ? INT64_MAX : INT64_MIN;
-          }
+          sresult = hi < 0 ? INT64_MIN : INT64_MAX;
         }
         result.setSInt(sresult, i);
         break;
+      }
       default:
         FATAL_ERROR("Unsupported argument type: %c",
                     getOverloadArgType(overload));
@@ -2233,7 +2234,8 @@ class WorkItemBuiltins
     for (unsigned i = 0; i < result.num; i++)
     {
       uint64_t uresult = UARGV(0, i) - UARGV(1, i);
-      int64_t sresult = SARGV(0, i) - SARGV(1, i);
+      int64_t sresult =
+        (int64_t)((uint64_t)SARGV(0, i) - (uint64_t)SARGV(1, i));
       switch (getOverloadArgType(overload))
       {
       case 'h':
@@ -2265,10 +2267,10 @@ class WorkItemBuiltins
         result.setSInt(sresult, i);
         break;
       case 'l':
-        if ((SARGV(0, i) > 0) != (SARGV(1, i) > 0) &&
-            (SARGV(0, i) > 0) != (sresult > 0))
+        if ((SARGV(0, i) < 0) != (SARGV(1, i) < 0) &&
+            (SARGV(0, i) < 0) != (sresult < 0))
         {
-          sresult = (SARGV(0, i) > 0) ? INT64_MAX : INT64_MIN;
+          sresult = (SARGV(0, i) < 0) ? INT64_MIN : INT64_MAX;
         }
         result.setSInt(sresult, i);
         break;
-- 
2.43.0


From 3f984f7cdaeb35aeec33de2b4bcd69471779ddcb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 006/130] fix: apply bitselect to the bits of floating-point
 operands as they are

---
 src/core/WorkItemBuiltins.cpp | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 4492314..fd664b4 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2816,23 +2816,12 @@ class WorkItemBuiltins
     return ((a & ~c) | (b & c));
   }
 
-  static double _fbitselect_(double a, double b, double c)
-  {
-    uint64_t _a = *(uint64_t*)&a;
-    uint64_t _b = *(uint64_t*)&b;
-    uint64_t _c = *(uint64_t*)&c;
-    uint64_t _r = _ibitselect_(_a, _b, _c);
-    return *(double*)&_r;
-  }
-
   DEFINE_BUILTIN(bitselect)
   {
     switch (getOverloadArgType(overload))
     {
     case 'f':
     case 'd':
-      f3arg(workItem, callInst, fnName, overload, result, _fbitselect_);
-      break;
     case 'h':
     case 't':
     case 'j':
-- 
2.43.0


From 8ec1c8b47968473be32f47ea10d6df335ecc35f7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 007/130] fix: judge isnormal of a float by the range of float

---
 src/core/WorkItemBuiltins.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index fd664b4..8a61767 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2760,6 +2760,10 @@ class WorkItemBuiltins
   {
     return isnormal(x);
   }
+  static int64_t _isnormf_(double x)
+  {
+    return isnormal((float)x);
+  }
   static int64_t _isord_(double x, double y)
   {
     return !isunordered(x, y);
@@ -2773,6 +2777,12 @@ class WorkItemBuiltins
     return signbit(x);
   }
 
+  DEFINE_BUILTIN(isnormal_builtin)
+  {
+    rel1arg(workItem, callInst, fnName, overload, result,
+            getOverloadArgType(overload) == 'f' ? _isnormf_ : _isnorm_);
+  }
+
   DEFINE_BUILTIN(all)
   {
     unsigned num = 1;
@@ -3822,7 +3832,7 @@ BuiltinFunctionMap WorkItemBuiltins::initBuiltins()
   ADD_BUILTIN("isfinite", rel1arg, _isfin_);
   ADD_BUILTIN("isinf", rel1arg, _isinf_);
   ADD_BUILTIN("isnan", rel1arg, _isnan_);
-  ADD_BUILTIN("isnormal", rel1arg, _isnorm_);
+  ADD_BUILTIN("isnormal", isnormal_builtin, NULL);
   ADD_BUILTIN("isordered", rel2arg, _isord_);
   ADD_BUILTIN("isunordered", rel2arg, _isuord_);
   ADD_BUILTIN("select", select_builtin, NULL);
-- 
2.43.0


From 73877c9b68847c70305167ef95e2c9a3eca386ac Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 008/130] fix: reduce the arguments of sinpi, cospi and tanpi
 exactly

---
 src/core/WorkItemBuiltins.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 8a61767..cf5f98e 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2312,7 +2312,15 @@ class WorkItemBuiltins
   }
   static double _cospi_(double x)
   {
-    return (cos(x * M_PI));
+    // All of the argument reduction is exact
+    double r = fmod(fabs(x), 2.0);
+    if (r > 1.0)
+      r = 2.0 - r;
+    if (r <= 0.25)
+      return cos(r * M_PI);
+    if (r < 0.75)
+      return sin((0.5 - r) * M_PI);
+    return -cos((1.0 - r) * M_PI);
   }
   static double _exp10_(double x)
   {
@@ -2332,11 +2340,23 @@ class WorkItemBuiltins
   }
   static double _sinpi_(double x)
   {
-    return (sin(x * M_PI));
+    // All of the argument reduction is exact
+    double r = fmod(fabs(x), 2.0);
+    double sgn = copysign(1.0, x);
+    if (r == 0.0 || r == 1.0)
+      return copysign(0.0, x);
+    if (r > 1.0)
+    {
+      r -= 1.0;
+      sgn = -sgn;
+    }
+    if (r > 0.5)
+      r = 1.0 - r;
+    return sgn * (r <= 0.25 ? sin(r * M_PI) : cos((0.5 - r) * M_PI));
   }
   static double _tanpi_(double x)
   {
-    return (tan(x * M_PI));
+    return _sinpi_(x) / _cospi_(x);
   }
 
   DEFINE_BUILTIN(fma_builtin)
-- 
2.43.0


From 3dba22a00ff9749176e9138a7d68826b72ca624d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 009/130] fix: store the low seven bits of the quotient in
 remquo

---
 src/core/WorkItemBuiltins.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index cf5f98e..dd6e455 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2632,8 +2632,19 @@ class WorkItemBuiltins
       double x = FARGV(0, i);
       double y = FARGV(1, i);
 
-      int32_t quo;
-      double rem = remquo(x, y, &quo);
+      // The quotient must hold (at least) its seven lowest bits, whereas
+      // the host function might only return three of them
+      int32_t quo = 0;
+      double rem = remainder(x, y);
+      if (!std::isnan(rem))
+      {
+        long double ay = fabsl(y);
+        long double r = fmodl(fabsl(x), 128 * ay);
+        if (!std::isinf(y))
+          quo = (int32_t)rintl((r - remainderl(r, ay)) / ay) & 0x7F;
+        if (std::signbit(x) != std::signbit(y))
+          quo = -quo;
+      }
       memory->store((const unsigned char*)&quo, quop + i * 4, 4);
       result.setFloat(rem, i);
     }
-- 
2.43.0


From f6c575d2c51414c6c255992613f2abce5c49fca7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 010/130] fix: determine the sign of lgamma_r without computing
 tgamma

---
 src/core/WorkItemBuiltins.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index dd6e455..3da7af8 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2513,8 +2513,11 @@ class WorkItemBuiltins
     size_t signp = PARG(1);
     for (unsigned i = 0; i < result.num; i++)
     {
-      double r = lgamma(FARGV(0, i));
-      int32_t s = (tgamma(FARGV(0, i)) < 0 ? -1 : 1);
+      double x = FARGV(0, i);
+      double r = lgamma(x);
+      // Gamma is negative between -1 and 0, -3 and -2, and so on
+      double f = floor(x);
+      int32_t s = (x < 0 && x != f && fmod(f, 2.0) != 0 ? -1 : 1);
       memory->store((const unsigned char*)&s, signp + i * 4, 4);
       result.setFloat(r, i);
     }
-- 
2.43.0


From 0dc917a2d9460d112345b05134cdc2ff5c63755c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 011/130] fix: convert NaN to zero in saturated integer
 conversions

---
 src/core/WorkItemBuiltins.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 3da7af8..c20163d 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3309,7 +3309,11 @@ class WorkItemBuiltins
       }
       case 'f':
       case 'd':
-        if (sat)
+        if (sat && std::isnan(FARGV(0, i)))
+        {
+          r = 0;
+        }
+        else if (sat)
         {
           r = rint(_clamp_((long double)FARGV(0, i), 0.0L, (long double)max));
         }
@@ -3386,7 +3390,11 @@ class WorkItemBuiltins
         break;
       case 'f':
       case 'd':
-        if (sat)
+        if (sat && std::isnan(FARGV(0, i)))
+        {
+          r = 0;
+        }
+        else if (sat)
         {
           r = rint(_clamp_((long double)FARGV(0, i), (long double)min,
                            (long double)max));
-- 
2.43.0


From a093432127982ed4c9020ad0b084db04a7191403 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 012/130] fix: round only once when converting signed integers
 to float

---
 src/core/WorkItemBuiltins.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index c20163d..57f7b7d 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3192,7 +3192,10 @@ class WorkItemBuiltins
       case 's':
       case 'i':
       case 'l':
-        result.setFloat(SARGV(0, i), i);
+        if (result.size == 4)
+          result.setFloat((float)SARGV(0, i), i);
+        else
+          result.setFloat((double)SARGV(0, i), i);
         break;
       case 'f':
       case 'd':
-- 
2.43.0


From 4e60863c8c10af2acffb41a53a4378a1b33e425f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 013/130] fix: widen a scalar exponent passed to ldexp

---
 src/core/WorkItemBuiltins.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 57f7b7d..792b4b7 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2501,7 +2501,7 @@ class WorkItemBuiltins
   {
     for (unsigned i = 0; i < result.num; i++)
     {
-      result.setFloat(ldexp(FARGV(0, i), SARGV(1, i)), i);
+      result.setFloat(ldexp(FARGV(0, i), SARGV(1, VIDX(1, i))), i);
     }
   }
 
-- 
2.43.0


From d44081f9292d1a6c1d783aab4efd11ab776c9465 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 014/130] fix: keep the sign of zero in sign

---
 src/core/WorkItemBuiltins.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 792b4b7..876c120 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -429,10 +429,8 @@ class WorkItemBuiltins
       return 0.0;
     if (x > 0.0)
       return 1.0;
-    if (x == -0.0)
-      return -0.0;
     if (x == 0.0)
-      return 0.0;
+      return x;
     if (x < 0.0)
       return -1.0;
     return 0.0;
-- 
2.43.0


From f391eeb7c79dafc0702fe743d077e04e615eb5ff Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 015/130] fix: compute cbrt to within 2 ULP

---
 src/core/WorkItemBuiltins.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 876c120..91cd022 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2308,6 +2308,11 @@ class WorkItemBuiltins
   {
     return (atan2(x, y) / M_PI);
   }
+  static double _cbrt_(double x)
+  {
+    // The double precision host function is not accurate enough
+    return (double)cbrtl(x);
+  }
   static double _cospi_(double x)
   {
     // All of the argument reduction is exact
@@ -3769,7 +3774,7 @@ BuiltinFunctionMap WorkItemBuiltins::initBuiltins()
   ADD_BUILTIN("atanh", f1arg, F1ARG(atanh));
   ADD_BUILTIN("atanpi", f1arg, _atanpi_);
   ADD_BUILTIN("atan2pi", f2arg, _atan2pi_);
-  ADD_BUILTIN("cbrt", f1arg, F1ARG(cbrt));
+  ADD_BUILTIN("cbrt", f1arg, _cbrt_);
   ADD_BUILTIN("ceil", f1arg, F1ARG(ceil));
   ADD_BUILTIN("copysign", f2arg, F2ARG(copysign));
   ADD_BUILTIN("cos", f1arg, F1ARG(cos));
-- 
2.43.0


From e902d0b9168ac80a29a4dbbea4fab11c1b32318c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 016/130] fix: give every work-group of a multi-dimensional
 range its own index

---
 src/core/WorkGroup.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/WorkGroup.cpp b/src/core/WorkGroup.cpp
index da03897..20e0846 100644
--- a/src/core/WorkGroup.cpp
+++ b/src/core/WorkGroup.cpp
@@ -36,8 +36,8 @@ WorkGroup::WorkGroup(const KernelInvocation* kernelInvocation, Size3 wgid,
 
   m_groupIndex =
     (m_groupID.x +
-     (m_groupID.y + m_groupID.z * (kernelInvocation->getNumGroups().y) *
-                      kernelInvocation->getNumGroups().x));
+     (m_groupID.y + m_groupID.z * (kernelInvocation->getNumGroups().y)) *
+       kernelInvocation->getNumGroups().x);
 
   // Allocate local memory
   m_localMemory =
-- 
2.43.0


From b09eba3b5c9daee13a68a94754bd4db99cf5b266 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:34:48 +0000
Subject: [PATCH 017/130] fix: attribute race accesses to the right work-items
 and work-groups

---
 src/core/WorkItem.cpp        |  7 +++--
 src/plugins/RaceDetector.cpp | 54 ++++++++++++++++++------------------
 src/plugins/RaceDetector.h   |  1 +
 3 files changed, 33 insertions(+), 29 deletions(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 6261b58..51d781e 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -61,8 +61,11 @@ WorkItem::WorkItem(const KernelInvocation* kernelInvocation,
   m_globalID.z = lid.z + groupID.z * groupSize.z + globalOffset.z;
 
   Size3 globalSize = kernelInvocation->getGlobalSize();
-  m_globalIndex = (m_globalID.x +
-                   (m_globalID.y + m_globalID.z * globalSize.y) * globalSize.x);
+  m_globalIndex =
+    (m_globalID.x - globalOffset.x) +
+    ((m_globalID.y - globalOffset.y) +
+     (m_globalID.z - globalOffset.z) * globalSize.y) *
+      globalSize.x;
 
   const Kernel* kernel = kernelInvocation->getKernel();
 
diff --git a/src/plugins/RaceDetector.cpp b/src/plugins/RaceDetector.cpp
index 02598f6..d514099 100644
--- a/src/plugins/RaceDetector.cpp
+++ b/src/plugins/RaceDetector.cpp
@@ -239,7 +239,10 @@ size_t RaceDetector::getAccessWorkGroup(const MemoryAccess& access) const
   if (access.isWorkItem())
   {
     const Size3& wgsize = m_kernelInvocation->getLocalSize();
-    return access.getEntity() / (wgsize.x * wgsize.y * wgsize.z);
+    const Size3& groups = m_kernelInvocation->getNumGroups();
+    Size3 id(access.getEntity(), m_kernelInvocation->getGlobalSize());
+    return id.x / wgsize.x +
+           (id.y / wgsize.y + (id.z / wgsize.z) * groups.y) * groups.x;
   }
   else
     return access.getEntity();
@@ -290,6 +293,26 @@ void RaceDetector::insertRace(RaceList& races, const Race& race) const
   races.push_back(race);
 }
 
+void RaceDetector::logEntity(Context::Message& msg,
+                             const MemoryAccess& access) const
+{
+  if (access.isWorkItem())
+  {
+    Size3 wgsize = m_kernelInvocation->getLocalSize();
+    Size3 offset = m_kernelInvocation->getGlobalOffset();
+    Size3 id(access.getEntity(), m_kernelInvocation->getGlobalSize());
+    Size3 global(id.x + offset.x, id.y + offset.y, id.z + offset.z);
+    Size3 local(id.x % wgsize.x, id.y % wgsize.y, id.z % wgsize.z);
+    Size3 group(id.x / wgsize.x, id.y / wgsize.y, id.z / wgsize.z);
+    msg << "Global" << global << " Local" << local << " Group" << group;
+  }
+  else
+  {
+    msg << "Group"
+        << Size3(access.getEntity(), m_kernelInvocation->getNumGroups());
+  }
+}
+
 void RaceDetector::logRace(const Race& race) const
 {
   const char* raceType;
@@ -305,36 +328,13 @@ void RaceDetector::logRace(const Race& race) const
       << endl
       << "First entity:  ";
 
-  if (race.a.isWorkItem())
-  {
-    Size3 wgsize = m_kernelInvocation->getLocalSize();
-    Size3 global(race.a.getEntity(), m_kernelInvocation->getGlobalSize());
-    Size3 local(global.x % wgsize.x, global.y % wgsize.y, global.z % wgsize.z);
-    Size3 group(global.x / wgsize.x, global.y / wgsize.y, global.z / wgsize.z);
-    msg << "Global" << global << " Local" << local << " Group" << group;
-  }
-  else
-  {
-    msg << "Group"
-        << Size3(race.a.getEntity(), m_kernelInvocation->getLocalSize());
-  }
+  logEntity(msg, race.a);
 
   msg << endl << race.a.getInstruction() << endl << endl << "Second entity: ";
 
   // Show details of other entity involved in race
-  if (race.b.isWorkItem())
-  {
-    Size3 wgsize = m_kernelInvocation->getLocalSize();
-    Size3 global(race.b.getEntity(), m_kernelInvocation->getGlobalSize());
-    Size3 local(global.x % wgsize.x, global.y % wgsize.y, global.z % wgsize.z);
-    Size3 group(global.x / wgsize.x, global.y / wgsize.y, global.z / wgsize.z);
-    msg << "Global" << global << " Local" << local << " Group" << group;
-  }
-  else
-  {
-    msg << "Group"
-        << Size3(race.b.getEntity(), m_kernelInvocation->getLocalSize());
-  }
+  logEntity(msg, race.b);
+
   msg << endl << race.b.getInstruction() << endl;
   msg.send();
 }
diff --git a/src/plugins/RaceDetector.h b/src/plugins/RaceDetector.h
index e352c6c..be0cfd8 100644
--- a/src/plugins/RaceDetector.h
+++ b/src/plugins/RaceDetector.h
@@ -128,6 +128,7 @@ private:
   void insert(AccessRecord& record, const MemoryAccess& access) const;
   void insertKernelRace(const Race& race);
   void insertRace(RaceList& races, const Race& race) const;
+  void logEntity(Context::Message& msg, const MemoryAccess& access) const;
   void logRace(const Race& race) const;
   void registerAccess(const Memory* memory, const WorkGroup* workGroup,
                       const WorkItem* workItem, size_t address, size_t size,
-- 
2.43.0


From 0424e986a9423d2b3735356b6ca205183ccef5a7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:35:40 +0000
Subject: [PATCH 018/130] fix: detect races with any of the values a byte was
 overwritten with

---
 src/plugins/RaceDetector.cpp | 42 +++++++++++++++++++++++++++++++-----
 src/plugins/RaceDetector.h   |  6 ++++++
 2 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/src/plugins/RaceDetector.cpp b/src/plugins/RaceDetector.cpp
index d514099..018a10f 100644
--- a/src/plugins/RaceDetector.cpp
+++ b/src/plugins/RaceDetector.cpp
@@ -185,14 +185,17 @@ void RaceDetector::workGroupComplete(const WorkGroup* workGroup)
       insertKernelRace({AddrSpaceGlobal, address, a.load, b.store});
     if (check(a.store, b.load) && getAccessWorkGroup(b.load) != group)
       insertKernelRace({AddrSpaceGlobal, address, a.store, b.load});
-    if (check(a.store, b.store) && getAccessWorkGroup(b.store) != group)
-      insertKernelRace({AddrSpaceGlobal, address, a.store, b.store});
+    const MemoryAccess *x, *y;
+    if (checkStores(a, b, x, y) && getAccessWorkGroup(*y) != group)
+      insertKernelRace({AddrSpaceGlobal, address, *x, *y});
 
     // Insert accesses
     if (a.load.isSet())
       insert(b, a.load);
     if (a.store.isSet())
       insert(b, a.store);
+    if (a.otherStore.isSet())
+      insert(b, a.otherStore);
   }
   state.wgGlobal.clear();
 
@@ -234,6 +237,25 @@ bool RaceDetector::check(const MemoryAccess& a, const MemoryAccess& b) const
   return false;
 }
 
+bool RaceDetector::checkStores(const AccessRecord& a, const AccessRecord& b,
+                               const MemoryAccess*& x,
+                               const MemoryAccess*& y) const
+{
+  for (auto i : {&a.store, &a.otherStore})
+  {
+    for (auto j : {&b.store, &b.otherStore})
+    {
+      if (check(*i, *j))
+      {
+        x = i;
+        y = j;
+        return true;
+      }
+    }
+  }
+  return false;
+}
+
 size_t RaceDetector::getAccessWorkGroup(const MemoryAccess& access) const
 {
   if (access.isWorkItem())
@@ -260,6 +282,10 @@ void RaceDetector::insert(AccessRecord& record,
   {
     if (!record.store.isSet() || record.store.isAtomic())
       record.store = access;
+    else if (m_allowUniformWrites && !record.otherStore.isSet() &&
+             !access.isAtomic() &&
+             access.getStoreData() != record.store.getStoreData())
+      record.otherStore = access;
   }
 }
 
@@ -401,9 +427,9 @@ void RaceDetector::syncWorkItems(const Memory* memory, WorkGroupState& state,
       if (check(a.store, b.load))
         insertRace(races,
                    {memory->getAddressSpace(), address, a.store, b.load});
-      if (check(a.store, b.store))
-        insertRace(races,
-                   {memory->getAddressSpace(), address, a.store, b.store});
+      const MemoryAccess *x, *y;
+      if (checkStores(a, b, x, y))
+        insertRace(races, {memory->getAddressSpace(), address, *x, *y});
 
       if (a.load.isSet())
       {
@@ -417,6 +443,12 @@ void RaceDetector::syncWorkItems(const Memory* memory, WorkGroupState& state,
         if (memory->getAddressSpace() == AddrSpaceGlobal)
           insert(state.wgGlobal[address], a.store);
       }
+      if (a.otherStore.isSet())
+      {
+        insert(b, a.otherStore);
+        if (memory->getAddressSpace() == AddrSpaceGlobal)
+          insert(state.wgGlobal[address], a.otherStore);
+      }
     }
 
     accesses[i].clear();
diff --git a/src/plugins/RaceDetector.h b/src/plugins/RaceDetector.h
index be0cfd8..12ef61e 100644
--- a/src/plugins/RaceDetector.h
+++ b/src/plugins/RaceDetector.h
@@ -85,6 +85,10 @@ private:
   {
     MemoryAccess load;
     MemoryAccess store;
+
+    // A store of another value than that of the first one (only needed to
+    // tell uniform writes from others)
+    MemoryAccess otherStore;
   };
   typedef std::vector<MemoryAccess> AccessList;
   typedef std::unordered_map<
@@ -125,6 +129,8 @@ private:
   size_t getAccessWorkGroup(const MemoryAccess& access) const;
 
   bool check(const MemoryAccess& a, const MemoryAccess& b) const;
+  bool checkStores(const AccessRecord& a, const AccessRecord& b,
+                   const MemoryAccess*& x, const MemoryAccess*& y) const;
   void insert(AccessRecord& record, const MemoryAccess& access) const;
   void insertKernelRace(const Race& race);
   void insertRace(RaceList& races, const Race& race) const;
-- 
2.43.0


From 5129ad8341b4e3b81fd8427e3de90b0166c3503d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:47:48 +0000
Subject: [PATCH 019/130] fix: address vector elements by the vector's own type
 when scalarizing stores

---
 src/core/Program.cpp | 44 +++++---------------------------------------
 1 file changed, 5 insertions(+), 39 deletions(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index e307af3..3a1a472 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -979,45 +979,11 @@ llvm::GetElementPtrInst* createScalarGEP(llvm::Value* ptr, llvm::Value* index,
                                          llvm::IntegerType* indexType)
 {
   // Create GEP for scalar value
-  llvm::GetElementPtrInst* scalarPtr = NULL;
-  if (auto gep = llvm::dyn_cast<llvm::GetElementPtrInst>(ptr))
-  {
-    // Create GEP from existing GEP
-    std::vector<llvm::Value*> indices;
-    for (auto idx = gep->idx_begin(); idx != gep->idx_end(); idx++)
-    {
-      indices.push_back(*idx);
-    }
-
-    auto* gepResultType = gep->getResultElementType();
-    if (gepResultType->isIntegerTy(8))
-    {
-      auto byteOffset =
-        getTypeSize(store->getValueOperand()->getType()->getScalarType());
-      auto* mul = llvm::BinaryOperator::CreateMul(
-        index,
-        llvm::Constant::getIntegerValue(
-          index->getType(),
-          llvm::APInt(index->getType()->getIntegerBitWidth(), byteOffset)));
-      mul->insertBefore(store->getIterator());
-      indices.push_back(mul);
-    }
-    else
-    {
-      indices.push_back(index);
-    }
-    scalarPtr = llvm::GetElementPtrInst::Create(
-      gep->getSourceElementType(), gep->getPointerOperand(), indices);
-  }
-  else
-  {
-    // Create GEP from non-GEP pointer
-    std::vector<llvm::Value*> indices;
-    indices.push_back(llvm::ConstantInt::getSigned(indexType, 0));
-    indices.push_back(index);
-    scalarPtr = llvm::GetElementPtrInst::Create(
-      store->getValueOperand()->getType(), ptr, indices);
-  }
+  std::vector<llvm::Value*> indices;
+  indices.push_back(llvm::ConstantInt::getSigned(indexType, 0));
+  indices.push_back(index);
+  llvm::GetElementPtrInst* scalarPtr = llvm::GetElementPtrInst::Create(
+    store->getValueOperand()->getType(), ptr, indices);
   scalarPtr->setDebugLoc(store->getDebugLoc());
   scalarPtr->insertBefore(store->getIterator());
 
-- 
2.43.0


From bf0ae96d1162f2160bc3c1f81d2b07cdf1e452da Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:47:48 +0000
Subject: [PATCH 020/130] fix: do not drop a vector store when the vector
 changed since it was loaded

---
 src/core/Program.cpp | 54 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 42 insertions(+), 12 deletions(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index 3a1a472..404bc8f 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -15,6 +15,11 @@
 #include "clang/Frontend/CompilerInstance.h"
 #include "clang/Frontend/TextDiagnosticPrinter.h"
 #include "clang/Lex/PreprocessorOptions.h"
+#include "llvm/Analysis/AliasAnalysis.h"
+#include "llvm/Analysis/AssumptionCache.h"
+#include "llvm/Analysis/BasicAliasAnalysis.h"
+#include "llvm/Analysis/TargetLibraryInfo.h"
+#include "llvm/Analysis/TypeBasedAliasAnalysis.h"
 #include "llvm/Bitcode/BitcodeReader.h"
 #include "llvm/Bitcode/BitcodeWriter.h"
 #include "llvm/IR/AssemblyAnnotationWriter.h"
@@ -989,6 +994,36 @@ llvm::GetElementPtrInst* createScalarGEP(llvm::Value* ptr, llvm::Value* index,
 
   return scalarPtr;
 }
+
+// Check if value was loaded from the address that store writes to, with no
+// possible modification of that memory between the load and the store
+bool isStoreDestination(const llvm::Value* value, llvm::StoreInst* store)
+{
+  auto load = llvm::dyn_cast<llvm::LoadInst>(value);
+  if (!load || load->getPointerOperand() != store->getPointerOperand() ||
+      load->getType() != store->getValueOperand()->getType() ||
+      load->getParent() != store->getParent())
+    return false;
+
+  llvm::Function& function = *store->getFunction();
+  llvm::Module& module = *function.getParent();
+  llvm::TargetLibraryInfoImpl tlii{llvm::Triple(module.getTargetTriple())};
+  llvm::TargetLibraryInfo tli(tlii);
+  llvm::AssumptionCache ac(function);
+  llvm::BasicAAResult basic(module.getDataLayout(), function, tli, ac, nullptr);
+  llvm::TypeBasedAAResult tbaa(true);
+  llvm::AAResults aa(tli);
+  aa.addAAResult(basic);
+  aa.addAAResult(tbaa);
+
+  llvm::MemoryLocation location = llvm::MemoryLocation::get(load);
+  for (auto itr = std::next(load->getIterator()); &*itr != store; itr++)
+  {
+    if (llvm::isModSet(aa.getModRefInfo(&*itr, location)))
+      return false;
+  }
+  return true;
+}
 } // namespace
 
 void Program::scalarizeAggregateStore(llvm::StoreInst* store)
@@ -1007,6 +1042,10 @@ void Program::scalarizeAggregateStore(llvm::StoreInst* store)
     llvm::Value* value = insert->getOperand(1);
     llvm::Value* index = insert->getOperand(2);
 
+    // Check if the input to the insertelement instruction is a load from the
+    // same address as the store
+    bool vectorIsDest = isStoreDestination(vector, store);
+
     // Create GEP for scalar value
     llvm::GetElementPtrInst* scalarPtr =
       createScalarGEP(vectorPtr, index, store, gepIndexType);
@@ -1018,10 +1057,7 @@ void Program::scalarizeAggregateStore(llvm::StoreInst* store)
     scalarStore->setDebugLoc(store->getDebugLoc());
     scalarStore->insertAfter(scalarPtr);
 
-    // Check if the input to the insertelement instruction came from something
-    // other than a load to the same address as the store
-    llvm::LoadInst* load = llvm::dyn_cast<llvm::LoadInst>(vector);
-    if (!(load && load->getPointerOperand() == store->getPointerOperand()))
+    if (!vectorIsDest)
     {
       // Replace value in store with the input to the insertelement instruction
       llvm::StoreInst* _store =
@@ -1048,14 +1084,8 @@ void Program::scalarizeAggregateStore(llvm::StoreInst* store)
       llvm::cast<llvm::FixedVectorType>(v1->getType())->getNumElements();
 
     // Check if shuffle sources came from a load with same address as the store
-    llvm::LoadInst* load;
-    bool v1SourceIsDest = false, v2SourceIsDest = false;
-    if ((load = llvm::dyn_cast<llvm::LoadInst>(v1)) &&
-        load->getPointerOperand() == vectorPtr)
-      v1SourceIsDest = true;
-    if ((load = llvm::dyn_cast<llvm::LoadInst>(v2)) &&
-        load->getPointerOperand() == vectorPtr)
-      v2SourceIsDest = true;
+    bool v1SourceIsDest = isStoreDestination(v1, store);
+    bool v2SourceIsDest = isStoreDestination(v2, store);
 
     // Get mask indices that don't correspond to the destination vector
     stack<unsigned> indices;
-- 
2.43.0


From 801d2c6503f1c5257801a4644c187ba809debdc0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:52:29 +0000
Subject: [PATCH 021/130] fix: interpret integers of any width up to 64 bits
 and vectors of them

---
 src/core/WorkItem.cpp | 151 ++++++++++++++++++++++++++++++++----------
 src/core/common.cpp   |  32 +++++++++
 2 files changed, 149 insertions(+), 34 deletions(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 51d781e..3d18fe3 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -130,6 +130,65 @@ void WorkItem::clearBarrier()
   }
 }
 
+namespace
+{
+// Get the mask that is applied to shift amounts
+uint64_t getShiftMask(const TypedValue& result)
+{
+  size_t size = result.num > 1
+                  ? result.size
+                  : max((size_t)result.size, sizeof(uint32_t));
+  return llvm::PowerOf2Ceil(size * 8) - 1;
+}
+
+// Get a signed element of a value, which may not fill its bytes
+int64_t getSigned(const llvm::Value* value, const TypedValue& data, unsigned i)
+{
+  unsigned bits = value->getType()->getScalarSizeInBits();
+  if (!(bits & 7) || bits > 64)
+    return data.getSInt(i);
+  return (int64_t)(data.getUInt(i) << (64 - bits)) >> (64 - bits);
+}
+
+// Check for vectors whose elements are not a whole number of bytes, which are
+// stored without padding between the elements
+bool isBitPacked(const llvm::Type* type)
+{
+  return type->isVectorTy() && (type->getScalarSizeInBits() & 7);
+}
+
+void packBits(const llvm::Type* type, const TypedValue& value,
+              unsigned char* data)
+{
+  unsigned bits = type->getScalarSizeInBits();
+  memset(data, 0, (bits * value.num + 7) / 8);
+  for (unsigned i = 0; i < value.num; i++)
+  {
+    for (unsigned b = 0; b < bits; b++)
+    {
+      size_t pos = (size_t)i * bits + b;
+      data[pos / 8] |= ((value.getUInt(i) >> b) & 1) << (pos % 8);
+    }
+  }
+}
+
+void unpackBits(const llvm::Type* type, const unsigned char* data,
+                TypedValue& value)
+{
+  unsigned bits = type->getScalarSizeInBits();
+  for (unsigned i = 0; i < value.num; i++)
+  {
+    uint64_t element = 0;
+    for (unsigned b = 0; b < bits; b++)
+    {
+      size_t pos = (size_t)i * bits + b;
+      element |= (uint64_t)((data[pos / 8] >> (pos % 8)) & 1) << b;
+    }
+    value.setUInt(element, i);
+  }
+}
+} // namespace
+
 void WorkItem::dispatch(const llvm::Instruction* instruction,
                         TypedValue& result)
 {
@@ -290,6 +349,16 @@ void WorkItem::dispatch(const llvm::Instruction* instruction,
   default:
     FATAL_ERROR("Unsupported instruction: %s", instruction->getOpcodeName());
   }
+
+  // Integers that do not fill their bytes are kept zero-extended
+  unsigned bits = instruction->getType()->getScalarSizeInBits();
+  if ((bits & 7) && bits < 64)
+  {
+    for (unsigned i = 0; i < result.num; i++)
+    {
+      result.setUInt(result.getUInt(i) & ((1ULL << bits) - 1), i);
+    }
+  }
 }
 
 void WorkItem::execute(const llvm::Instruction* instruction)
@@ -810,21 +879,34 @@ INSTRUCTION(ashr)
 {
   TypedValue opA = getOperand(instruction->getOperand(0));
   TypedValue opB = getOperand(instruction->getOperand(1));
-  uint64_t shiftMask =
-    (result.num > 1 ? result.size
-                    : max((size_t)result.size, sizeof(uint32_t))) *
-      8 -
-    1;
+  uint64_t shiftMask = getShiftMask(result);
   for (unsigned i = 0; i < result.num; i++)
   {
-    result.setUInt(opA.getSInt(i) >> (opB.getUInt(i) & shiftMask), i);
+    result.setUInt(getSigned(instruction->getOperand(0), opA, i) >> (opB.getUInt(i) & shiftMask), i);
   }
 }
 
 INSTRUCTION(bitcast)
 {
   TypedValue operand = getOperand(instruction->getOperand(0));
-  memcpy(result.data, operand.data, result.size * result.num);
+  const llvm::Type* from = instruction->getOperand(0)->getType();
+  const llvm::Type* to = instruction->getType();
+  if (!isBitPacked(from) && !isBitPacked(to))
+  {
+    memcpy(result.data, operand.data, result.size * result.num);
+    return;
+  }
+
+  // Convert to and from the in-memory representation
+  vector<unsigned char> bits((to->getPrimitiveSizeInBits() + 7) / 8);
+  if (isBitPacked(from))
+    packBits(from, operand, bits.data());
+  else
+    memcpy(bits.data(), operand.data, bits.size());
+  if (isBitPacked(to))
+    unpackBits(to, bits.data(), result);
+  else
+    memcpy(result.data, bits.data(), bits.size());
 }
 
 INSTRUCTION(br)
@@ -991,7 +1073,6 @@ INSTRUCTION(fcmp)
   TypedValue opA = getOperand(instruction->getOperand(0));
   TypedValue opB = getOperand(instruction->getOperand(1));
 
-  uint64_t t = result.num > 1 ? -1 : 1;
   for (unsigned i = 0; i < result.num; i++)
   {
     double a = opA.getFloat(i);
@@ -1042,7 +1123,7 @@ INSTRUCTION(fcmp)
       r = !llvm::CmpInst::isOrdered(pred);
     }
 
-    result.setUInt(r ? t : 0, i);
+    result.setUInt(r, i);
   }
 }
 
@@ -1158,14 +1239,13 @@ INSTRUCTION(icmp)
   TypedValue opA = getOperand(instruction->getOperand(0));
   TypedValue opB = getOperand(instruction->getOperand(1));
 
-  uint64_t t = result.num > 1 ? -1 : 1;
   for (unsigned i = 0; i < result.num; i++)
   {
     // Load operands
     uint64_t ua = opA.getUInt(i);
     uint64_t ub = opB.getUInt(i);
-    int64_t sa = opA.getSInt(i);
-    int64_t sb = opB.getSInt(i);
+    int64_t sa = getSigned(instruction->getOperand(0), opA, i);
+    int64_t sb = getSigned(instruction->getOperand(1), opB, i);
 
     uint64_t r;
     switch (pred)
@@ -1204,7 +1284,7 @@ INSTRUCTION(icmp)
       FATAL_ERROR("Unsupported ICmp predicate: %d", pred);
     }
 
-    result.setUInt(r ? t : 0, i);
+    result.setUInt(r, i);
   }
 }
 
@@ -1291,6 +1371,14 @@ INSTRUCTION(load)
   }
 
   // Load data
+  const llvm::Type* type = loadInst->getType();
+  if (isBitPacked(type))
+  {
+    vector<unsigned char> bits((type->getPrimitiveSizeInBits() + 7) / 8);
+    getMemory(addressSpace)->load(bits.data(), address, bits.size());
+    unpackBits(type, bits.data(), result);
+    return;
+  }
   getMemory(addressSpace)->load(result.data, address, result.size * result.num);
 }
 
@@ -1298,11 +1386,7 @@ INSTRUCTION(lshr)
 {
   TypedValue opA = getOperand(instruction->getOperand(0));
   TypedValue opB = getOperand(instruction->getOperand(1));
-  uint64_t shiftMask =
-    (result.num > 1 ? result.size
-                    : max((size_t)result.size, sizeof(uint32_t))) *
-      8 -
-    1;
+  uint64_t shiftMask = getShiftMask(result);
   for (unsigned i = 0; i < result.num; i++)
   {
     result.setUInt(opA.getUInt(i) >> (opB.getUInt(i) & shiftMask), i);
@@ -1377,8 +1461,8 @@ INSTRUCTION(sdiv)
   TypedValue opB = getOperand(instruction->getOperand(1));
   for (unsigned i = 0; i < result.num; i++)
   {
-    int64_t a = opA.getSInt(i);
-    int64_t b = opB.getSInt(i);
+    int64_t a = getSigned(instruction->getOperand(0), opA, i);
+    int64_t b = getSigned(instruction->getOperand(1), opB, i);
     int64_t r = 0;
     if (b && !(a == INT64_MIN && b == -1))
     {
@@ -1410,12 +1494,7 @@ INSTRUCTION(sext)
   TypedValue value = getOperand(operand);
   for (unsigned i = 0; i < result.num; i++)
   {
-    int64_t val = value.getSInt(i);
-    if (operand->getType()->getPrimitiveSizeInBits() == 1)
-    {
-      val = val ? -1 : 0;
-    }
-    result.setSInt(val, i);
+    result.setSInt(getSigned(operand, value, i), i);
   }
 }
 
@@ -1423,11 +1502,7 @@ INSTRUCTION(shl)
 {
   TypedValue opA = getOperand(instruction->getOperand(0));
   TypedValue opB = getOperand(instruction->getOperand(1));
-  uint64_t shiftMask =
-    (result.num > 1 ? result.size
-                    : max((size_t)result.size, sizeof(uint32_t))) *
-      8 -
-    1;
+  uint64_t shiftMask = getShiftMask(result);
   for (unsigned i = 0; i < result.num; i++)
   {
     result.setUInt(opA.getUInt(i) << (opB.getUInt(i) & shiftMask), i);
@@ -1469,7 +1544,7 @@ INSTRUCTION(sitofp)
   TypedValue op = getOperand(instruction->getOperand(0));
   for (unsigned i = 0; i < result.num; i++)
   {
-    result.setFloat(op.getSInt(i), i);
+    result.setFloat(getSigned(instruction->getOperand(0), op, i), i);
   }
 }
 
@@ -1479,8 +1554,8 @@ INSTRUCTION(srem)
   TypedValue opB = getOperand(instruction->getOperand(1));
   for (unsigned i = 0; i < result.num; i++)
   {
-    int64_t a = opA.getSInt(i);
-    int64_t b = opB.getSInt(i);
+    int64_t a = getSigned(instruction->getOperand(0), opA, i);
+    int64_t b = getSigned(instruction->getOperand(1), opB, i);
     int64_t r = 0;
     if (b && !(a == INT64_MIN && b == -1))
     {
@@ -1509,6 +1584,14 @@ INSTRUCTION(store)
 
   // Store data
   TypedValue operand = getOperand(storeInst->getValueOperand());
+  const llvm::Type* type = storeInst->getValueOperand()->getType();
+  if (isBitPacked(type))
+  {
+    vector<unsigned char> bits((type->getPrimitiveSizeInBits() + 7) / 8);
+    packBits(type, operand, bits.data());
+    getMemory(addressSpace)->store(bits.data(), address, bits.size());
+    return;
+  }
   getMemory(addressSpace)
     ->store(operand.data, address, operand.size * operand.num);
 }
diff --git a/src/core/common.cpp b/src/core/common.cpp
index 8eba1e3..1e1705f 100644
--- a/src/core/common.cpp
+++ b/src/core/common.cpp
@@ -132,6 +132,11 @@ int64_t TypedValue::getSInt(unsigned index) const
     return ((int32_t*)data)[index];
   case 8:
     return ((int64_t*)data)[index];
+  case 3:
+  case 5:
+  case 6:
+  case 7:
+    return (int64_t)(getUInt(index) << (64 - size * 8)) >> (64 - size * 8);
   default:
     FATAL_ERROR("Unsupported signed int size: %u bytes", size);
   }
@@ -149,6 +154,15 @@ uint64_t TypedValue::getUInt(unsigned index) const
     return ((uint32_t*)data)[index];
   case 8:
     return ((uint64_t*)data)[index];
+  case 3:
+  case 5:
+  case 6:
+  case 7:
+  {
+    uint64_t value = 0;
+    memcpy(&value, data + index * size, size);
+    return value;
+  }
   default:
     FATAL_ERROR("Unsupported unsigned int size: %u bytes", size);
   }
@@ -194,6 +208,12 @@ void TypedValue::setSInt(int64_t value, unsigned index)
   case 8:
     ((int64_t*)data)[index] = value;
     break;
+  case 3:
+  case 5:
+  case 6:
+  case 7:
+    memcpy(data + index * size, &value, size);
+    break;
   default:
     FATAL_ERROR("Unsupported signed int size: %u bytes", size);
   }
@@ -215,6 +235,12 @@ void TypedValue::setUInt(uint64_t value, unsigned index)
   case 8:
     ((uint64_t*)data)[index] = value;
     break;
+  case 3:
+  case 5:
+  case 6:
+  case 7:
+    memcpy(data + index * size, &value, size);
+    break;
   default:
     FATAL_ERROR("Unsupported unsigned int size: %u bytes", size);
   }
@@ -354,6 +380,12 @@ void getConstantData(unsigned char* data, const llvm::Constant* constant)
     uint64_t ui = ((llvm::ConstantInt*)constant)->getZExtValue();
     switch (size)
     {
+    case 3:
+    case 5:
+    case 6:
+    case 7:
+      memcpy(data, &ui, size);
+      break;
     case 1:
       *((uint8_t*)data) = ui;
       break;
-- 
2.43.0


From 08d08a9b00d24e94b3227a2a83f00de81e84b0b1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:52:29 +0000
Subject: [PATCH 022/130] fix: round 64-bit integers once when converting them
 to float

---
 src/core/WorkItem.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 3d18fe3..2792015 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -1544,7 +1544,11 @@ INSTRUCTION(sitofp)
   TypedValue op = getOperand(instruction->getOperand(0));
   for (unsigned i = 0; i < result.num; i++)
   {
-    result.setFloat(getSigned(instruction->getOperand(0), op, i), i);
+    int64_t in = getSigned(instruction->getOperand(0), op, i);
+    if (result.size == 4)
+      result.setFloat((float)in, i);
+    else
+      result.setFloat((double)in, i);
   }
 }
 
-- 
2.43.0


From cad76d2c44793e935ded3ad5d243a6cb8d2bc1ea Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:54:28 +0000
Subject: [PATCH 023/130] fix: support the integer intrinsics that optimised
 kernels contain

---
 src/core/WorkItemBuiltins.cpp | 193 +++++++++++++++++++++++++++++++---
 1 file changed, 181 insertions(+), 12 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 91cd022..be46dd5 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3574,15 +3574,172 @@ class WorkItemBuiltins
     // No-op.
   }
 
-  DEFINE_BUILTIN(llvm_bswap)
+  // Integer intrinsics that are applied to each element
+  DEFINE_BUILTIN(llvm_integer)
   {
-    uint64_t r = 0;
-    uint64_t value = UARG(0);
-    for (unsigned i = 0; i < result.size; i++)
+    llvm::Intrinsic::ID id = callInst->getCalledFunction()->getIntrinsicID();
+    unsigned bits = ARG(0)->getType()->getScalarSizeInBits();
+    auto arg = [&](unsigned n, unsigned i)
+    { return llvm::APInt(64, UARGV(n, i)).trunc(bits); };
+
+    for (unsigned i = 0; i < result.num; i++)
     {
-      r |= ((value >> (i * 8)) & 0xFF) << ((result.size - i - 1) * 8);
+      llvm::APInt a = arg(0, i);
+      llvm::APInt r(bits, 0);
+      switch (id)
+      {
+      case llvm::Intrinsic::abs:
+        r = a.abs();
+        break;
+      case llvm::Intrinsic::bitreverse:
+        r = a.reverseBits();
+        break;
+      case llvm::Intrinsic::bswap:
+        r = a.byteSwap();
+        break;
+      case llvm::Intrinsic::ctlz:
+        result.setUInt(a.countl_zero(), i);
+        continue;
+      case llvm::Intrinsic::ctpop:
+        result.setUInt(a.popcount(), i);
+        continue;
+      case llvm::Intrinsic::cttz:
+        result.setUInt(a.countr_zero(), i);
+        continue;
+      case llvm::Intrinsic::fshl:
+      case llvm::Intrinsic::fshr:
+      {
+        unsigned n = UARGV(2, i) % bits;
+        if (id == llvm::Intrinsic::fshl)
+          r = n ? a.shl(n) | arg(1, i).lshr(bits - n) : a;
+        else
+          r = n ? a.shl(bits - n) | arg(1, i).lshr(n) : arg(1, i);
+        break;
+      }
+      case llvm::Intrinsic::sadd_sat:
+        r = a.sadd_sat(arg(1, i));
+        break;
+      case llvm::Intrinsic::smax:
+        r = a.sgt(arg(1, i)) ? a : arg(1, i);
+        break;
+      case llvm::Intrinsic::smin:
+        r = a.slt(arg(1, i)) ? a : arg(1, i);
+        break;
+      case llvm::Intrinsic::sshl_sat:
+        r = a.sshl_sat(arg(1, i));
+        break;
+      case llvm::Intrinsic::ssub_sat:
+        r = a.ssub_sat(arg(1, i));
+        break;
+      case llvm::Intrinsic::uadd_sat:
+        r = a.uadd_sat(arg(1, i));
+        break;
+      case llvm::Intrinsic::umax:
+        r = a.ugt(arg(1, i)) ? a : arg(1, i);
+        break;
+      case llvm::Intrinsic::umin:
+        r = a.ult(arg(1, i)) ? a : arg(1, i);
+        break;
+      case llvm::Intrinsic::ushl_sat:
+        r = a.ushl_sat(arg(1, i));
+        break;
+      case llvm::Intrinsic::usub_sat:
+        r = a.usub_sat(arg(1, i));
+        break;
+#if LLVM_VERSION >= 190
+      case llvm::Intrinsic::scmp:
+        result.setSInt(a.sgt(arg(1, i)) - a.slt(arg(1, i)), i);
+        continue;
+      case llvm::Intrinsic::ucmp:
+        result.setSInt(a.ugt(arg(1, i)) - a.ult(arg(1, i)), i);
+        continue;
+#endif
+      default:
+        FATAL_ERROR("Unsupported intrinsic: %s", fnName.c_str());
+      }
+      result.setUInt(r.getZExtValue(), i);
     }
-    result.setUInt(r);
+  }
+
+  // Integer intrinsics that return a result and an overflow flag
+  DEFINE_BUILTIN(llvm_overflow)
+  {
+    auto type = llvm::cast<llvm::StructType>(callInst->getType());
+    unsigned bits = ARG(0)->getType()->getScalarSizeInBits();
+    llvm::APInt a = llvm::APInt(64, UARG(0)).trunc(bits);
+    llvm::APInt b = llvm::APInt(64, UARG(1)).trunc(bits);
+    llvm::APInt r;
+    bool overflow;
+    switch (callInst->getCalledFunction()->getIntrinsicID())
+    {
+    case llvm::Intrinsic::sadd_with_overflow:
+      r = a.sadd_ov(b, overflow);
+      break;
+    case llvm::Intrinsic::smul_with_overflow:
+      r = a.smul_ov(b, overflow);
+      break;
+    case llvm::Intrinsic::ssub_with_overflow:
+      r = a.ssub_ov(b, overflow);
+      break;
+    case llvm::Intrinsic::uadd_with_overflow:
+      r = a.uadd_ov(b, overflow);
+      break;
+    case llvm::Intrinsic::umul_with_overflow:
+      r = a.umul_ov(b, overflow);
+      break;
+    case llvm::Intrinsic::usub_with_overflow:
+      r = a.usub_ov(b, overflow);
+      break;
+    default:
+      FATAL_ERROR("Unsupported intrinsic: %s", fnName.c_str());
+    }
+    uint64_t value = r.getZExtValue();
+    memcpy(result.data, &value, getTypeSize(type->getElementType(0)));
+    result.data[getStructMemberOffset(type, 1)] = overflow;
+  }
+
+  // Integer intrinsics that combine the elements of a vector
+  DEFINE_BUILTIN(llvm_vector_reduce)
+  {
+    unsigned bits = callInst->getType()->getScalarSizeInBits();
+    llvm::APInt r = llvm::APInt(64, UARG(0)).trunc(bits);
+    for (unsigned i = 1; i < ARG_VLEN(0); i++)
+    {
+      llvm::APInt a = llvm::APInt(64, UARGV(0, i)).trunc(bits);
+      switch (callInst->getCalledFunction()->getIntrinsicID())
+      {
+      case llvm::Intrinsic::vector_reduce_add:
+        r += a;
+        break;
+      case llvm::Intrinsic::vector_reduce_and:
+        r &= a;
+        break;
+      case llvm::Intrinsic::vector_reduce_mul:
+        r *= a;
+        break;
+      case llvm::Intrinsic::vector_reduce_or:
+        r |= a;
+        break;
+      case llvm::Intrinsic::vector_reduce_smax:
+        r = r.sgt(a) ? r : a;
+        break;
+      case llvm::Intrinsic::vector_reduce_smin:
+        r = r.slt(a) ? r : a;
+        break;
+      case llvm::Intrinsic::vector_reduce_umax:
+        r = r.ugt(a) ? r : a;
+        break;
+      case llvm::Intrinsic::vector_reduce_umin:
+        r = r.ult(a) ? r : a;
+        break;
+      case llvm::Intrinsic::vector_reduce_xor:
+        r ^= a;
+        break;
+      default:
+        FATAL_ERROR("Unsupported intrinsic: %s", fnName.c_str());
+      }
+    }
+    result.setUInt(r.getZExtValue());
   }
 
   DEFINE_BUILTIN(llvm_dbg_declare)
@@ -3925,10 +4082,10 @@ BuiltinFunctionMap WorkItemBuiltins::initBuiltins()
 
   // LLVM Intrinsics
   ADD_BUILTIN("llvm.assume", llvm_assume, NULL);
-  ADD_PREFIX_BUILTIN("llvm.bswap.", llvm_bswap, NULL);
   ADD_BUILTIN("llvm.dbg.declare", llvm_dbg_declare, NULL);
   ADD_BUILTIN("llvm.dbg.value", llvm_dbg_value, NULL);
-  ADD_PREFIX_BUILTIN("llvm.fabs.f", f1arg, F1ARG(fabs));
+  ADD_PREFIX_BUILTIN("llvm.copysign.", f2arg, F2ARG(copysign));
+  ADD_PREFIX_BUILTIN("llvm.fabs.", f1arg, F1ARG(fabs));
   ADD_PREFIX_BUILTIN("llvm.lifetime.start", llvm_lifetime_start, NULL);
   ADD_PREFIX_BUILTIN("llvm.lifetime.end", llvm_lifetime_end, NULL);
   ADD_PREFIX_BUILTIN("llvm.experimental.noalias.scope.decl",
@@ -3937,10 +4094,22 @@ BuiltinFunctionMap WorkItemBuiltins::initBuiltins()
   ADD_PREFIX_BUILTIN("llvm.memmove", llvm_memcpy, NULL);
   ADD_PREFIX_BUILTIN("llvm.memset", llvm_memset, NULL);
   ADD_PREFIX_BUILTIN("llvm.fmuladd", fma_builtin, NULL);
-  ADD_PREFIX_BUILTIN("llvm.smax", s2arg, _max_<int64_t>);
-  ADD_PREFIX_BUILTIN("llvm.smin", s2arg, _min_<int64_t>);
-  ADD_PREFIX_BUILTIN("llvm.umax", u2arg, _max_<uint64_t>);
-  ADD_PREFIX_BUILTIN("llvm.umin", u2arg, _min_<uint64_t>);
+  for (auto name :
+       {"llvm.abs.", "llvm.bitreverse.", "llvm.bswap.", "llvm.ctlz.",
+        "llvm.ctpop.", "llvm.cttz.", "llvm.fshl.", "llvm.fshr.",
+        "llvm.sadd.sat.", "llvm.scmp.", "llvm.smax.", "llvm.smin.",
+        "llvm.sshl.sat.", "llvm.ssub.sat.", "llvm.uadd.sat.", "llvm.ucmp.",
+        "llvm.umax.", "llvm.umin.", "llvm.ushl.sat.", "llvm.usub.sat."})
+  {
+    ADD_PREFIX_BUILTIN(name, llvm_integer, NULL);
+  }
+  for (auto name : {"llvm.sadd.with.overflow.", "llvm.smul.with.overflow.",
+                    "llvm.ssub.with.overflow.", "llvm.uadd.with.overflow.",
+                    "llvm.umul.with.overflow.", "llvm.usub.with.overflow."})
+  {
+    ADD_PREFIX_BUILTIN(name, llvm_overflow, NULL);
+  }
+  ADD_PREFIX_BUILTIN("llvm.vector.reduce.", llvm_vector_reduce, NULL);
   ADD_BUILTIN("llvm.trap", llvm_trap, NULL);
 
   return builtins;
-- 
2.43.0


From 1e21eb542ed7a0fa7fc3697635313a42c3fb4673 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:59:24 +0000
Subject: [PATCH 024/130] fix: interpret integers wider than 64 bits

---
 src/core/WorkItem.cpp | 110 ++++++++++++++++++++++++++++++++++++++++++
 src/core/WorkItem.h   |   1 +
 src/core/common.cpp   |  10 ++++
 3 files changed, 121 insertions(+)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 2792015..4be262b 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -11,6 +11,7 @@
 
 #include <math.h>
 
+#include "llvm/ADT/APInt.h"
 #include "llvm/BinaryFormat/Dwarf.h"
 #include "llvm/IR/DebugInfo.h"
 #include "llvm/IR/DebugProgramInstruction.h"
@@ -157,6 +158,21 @@ bool isBitPacked(const llvm::Type* type)
   return type->isVectorTy() && (type->getScalarSizeInBits() & 7);
 }
 
+// Check for integers that are too wide for the native integer types
+bool isWideInteger(const llvm::Type* type)
+{
+  return type->isIntOrIntVectorTy() && type->getScalarSizeInBits() > 64;
+}
+
+llvm::APInt getWideInteger(const llvm::Value* value, const TypedValue& data,
+                           unsigned i)
+{
+  llvm::APInt result(value->getType()->getScalarSizeInBits(), 0);
+  llvm::LoadIntFromMemory(result, data.data + i * data.size,
+                          min(data.size, (result.getBitWidth() + 7) / 8));
+  return result;
+}
+
 void packBits(const llvm::Type* type, const TypedValue& value,
               unsigned char* data)
 {
@@ -192,6 +208,14 @@ void unpackBits(const llvm::Type* type, const unsigned char* data,
 void WorkItem::dispatch(const llvm::Instruction* instruction,
                         TypedValue& result)
 {
+  if (isWideInteger(instruction->getType()) ||
+      (instruction->getNumOperands() &&
+       isWideInteger(instruction->getOperand(0)->getType())))
+  {
+    if (wideInteger(instruction, result))
+      return;
+  }
+
   switch (instruction->getOpcode())
   {
   case llvm::Instruction::Add:
@@ -361,6 +385,92 @@ void WorkItem::dispatch(const llvm::Instruction* instruction,
   }
 }
 
+bool WorkItem::wideInteger(const llvm::Instruction* instruction,
+                           TypedValue& result)
+{
+  unsigned opcode = instruction->getOpcode();
+  bool isBinary = llvm::isa<llvm::BinaryOperator>(instruction);
+  if (!isBinary && opcode != llvm::Instruction::ICmp &&
+      opcode != llvm::Instruction::Trunc && opcode != llvm::Instruction::ZExt &&
+      opcode != llvm::Instruction::SExt)
+    return false;
+
+  const llvm::Value* valueA = instruction->getOperand(0);
+  const llvm::Value* valueB =
+    instruction->getOperand(instruction->getNumOperands() - 1);
+  TypedValue opA = getOperand(valueA);
+  TypedValue opB = getOperand(valueB);
+  unsigned bits = instruction->getType()->getScalarSizeInBits();
+  for (unsigned i = 0; i < result.num; i++)
+  {
+    llvm::APInt a = getWideInteger(valueA, opA, i);
+    llvm::APInt b = getWideInteger(valueB, opB, i);
+    llvm::APInt r(bits, 0);
+    switch (opcode)
+    {
+    case llvm::Instruction::Add:
+      r = a + b;
+      break;
+    case llvm::Instruction::Sub:
+      r = a - b;
+      break;
+    case llvm::Instruction::Mul:
+      r = a * b;
+      break;
+    case llvm::Instruction::UDiv:
+      r = b.isZero() ? r : a.udiv(b);
+      break;
+    case llvm::Instruction::SDiv:
+      r = b.isZero() ? r : a.sdiv(b);
+      break;
+    case llvm::Instruction::URem:
+      r = b.isZero() ? r : a.urem(b);
+      break;
+    case llvm::Instruction::SRem:
+      r = b.isZero() ? r : a.srem(b);
+      break;
+    case llvm::Instruction::Shl:
+      r = a.shl(b);
+      break;
+    case llvm::Instruction::LShr:
+      r = a.lshr(b);
+      break;
+    case llvm::Instruction::AShr:
+      r = a.ashr(b);
+      break;
+    case llvm::Instruction::And:
+      r = a & b;
+      break;
+    case llvm::Instruction::Or:
+      r = a | b;
+      break;
+    case llvm::Instruction::Xor:
+      r = a ^ b;
+      break;
+    case llvm::Instruction::Trunc:
+      r = a.trunc(bits);
+      break;
+    case llvm::Instruction::ZExt:
+      r = a.zext(bits);
+      break;
+    case llvm::Instruction::SExt:
+      r = a.sext(bits);
+      break;
+    case llvm::Instruction::ICmp:
+      r = llvm::ICmpInst::compare(
+        a, b, ((const llvm::CmpInst*)instruction)->getPredicate());
+      break;
+    default:
+      return false;
+    }
+
+    uint8_t* data = result.data + i * result.size;
+    memset(data, 0, result.size);
+    llvm::StoreIntToMemory(r, data, min(result.size, (bits + 7) / 8));
+  }
+  return true;
+}
+
 void WorkItem::execute(const llvm::Instruction* instruction)
 {
   // Prepare private variable for instruction result
diff --git a/src/core/WorkItem.h b/src/core/WorkItem.h
index 42999fe..fcb7e4d 100644
--- a/src/core/WorkItem.h
+++ b/src/core/WorkItem.h
@@ -107,6 +107,7 @@ public:
 
   void clearBarrier();
   void dispatch(const llvm::Instruction* instruction, TypedValue& result);
+  bool wideInteger(const llvm::Instruction* instruction, TypedValue& result);
   void execute(const llvm::Instruction* instruction);
   const std::stack<const llvm::Instruction*>& getCallStack() const;
   const llvm::BasicBlock* getCurrentBlock() const;
diff --git a/src/core/common.cpp b/src/core/common.cpp
index 1e1705f..e795719 100644
--- a/src/core/common.cpp
+++ b/src/core/common.cpp
@@ -15,6 +15,7 @@
 #include <sys/time.h>
 #endif
 
+#include "llvm/ADT/APInt.h"
 #include "llvm/IR/Instructions.h"
 #include "llvm/IR/Metadata.h"
 #include "llvm/IR/Operator.h"
@@ -377,6 +378,15 @@ void getConstantData(unsigned char* data, const llvm::Constant* constant)
   {
   case llvm::Type::IntegerTyID:
   {
+    if (type->getIntegerBitWidth() > 64)
+    {
+      const llvm::APInt& value = ((llvm::ConstantInt*)constant)->getValue();
+      memset(data, 0, size);
+      llvm::StoreIntToMemory(value, data,
+                             min(size, (value.getBitWidth() + 7) / 8));
+      break;
+    }
+
     uint64_t ui = ((llvm::ConstantInt*)constant)->getZExtValue();
     switch (size)
     {
-- 
2.43.0


From 5142c042d2f59b59fbc3788d38bc0795569a02d3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 22:59:24 +0000
Subject: [PATCH 025/130] fix: evaluate constant expressions inside constant
 vectors and aggregates

---
 src/core/common.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/core/common.cpp b/src/core/common.cpp
index e795719..36fc51d 100644
--- a/src/core/common.cpp
+++ b/src/core/common.cpp
@@ -16,6 +16,8 @@
 #endif
 
 #include "llvm/ADT/APInt.h"
+#include "llvm/Analysis/ConstantFolding.h"
+#include "llvm/IR/DataLayout.h"
 #include "llvm/IR/Instructions.h"
 #include "llvm/IR/Metadata.h"
 #include "llvm/IR/Operator.h"
@@ -365,6 +367,18 @@ void getConstantData(unsigned char* data, const llvm::Constant* constant)
     return;
   }
 
+  if (llvm::isa<llvm::ConstantExpr>(constant))
+  {
+    // Expressions with a value that does not depend on any address
+    static const llvm::DataLayout layout(IS_BIG_ENDIAN ? "E" : "e");
+    constant = llvm::ConstantFoldConstant(constant, layout);
+    if (llvm::isa<llvm::ConstantExpr>(constant))
+    {
+      FATAL_ERROR("Unsupported constant expression: %s",
+                  llvm::cast<llvm::ConstantExpr>(constant)->getOpcodeName());
+    }
+  }
+
   const llvm::Type* type = constant->getType();
   unsigned size = getTypeSize(type);
 
-- 
2.43.0


From 20e82b986c6ae375bb138edc88e15d254e9db516 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:09:17 +0000
Subject: [PATCH 026/130] fix: fail commands when the commands they wait for
 fail while being executed

---
 src/core/Queue.cpp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/core/Queue.cpp b/src/core/Queue.cpp
index 1b603b6..2c88b13 100644
--- a/src/core/Queue.cpp
+++ b/src/core/Queue.cpp
@@ -191,6 +191,14 @@ void Queue::execute(Command* command, bool flush)
     Event* evt = command->waitList.front();
     command->waitList.pop_front();
 
+    // If it's not a user event, make sure the associated command has executed
+    if (evt->state > CL_COMPLETE && evt->command)
+    {
+      Command* dependency = evt->command;
+      evt->queue->execute(dependency, flush);
+      command->execBefore.push_front(dependency);
+    }
+
     if (evt->state < 0)
     {
       command->event->state = evt->state;
@@ -199,18 +207,9 @@ void Queue::execute(Command* command, bool flush)
     }
     else if (evt->state != CL_COMPLETE)
     {
-      if (evt->command)
-      {
-        // If it's not a user event, execute the associated command
-        evt->queue->execute(evt->command, flush);
-        command->execBefore.push_front(evt->command);
-      }
-      else
-      {
-        // If it's a user event then place it back at the of the wait list, and
-        // check it later
-        command->waitList.push_back(evt);
-      }
+      // If it's a user event then place it back at the of the wait list, and
+      // check it later
+      command->waitList.push_back(evt);
     }
   }
 
-- 
2.43.0


From 65200983d2cca47df35771f446c7421a3b91849b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:09:17 +0000
Subject: [PATCH 027/130] fix: execute every command of a queue in clFinish,
 oldest first

---
 src/core/Queue.cpp      | 29 ++++++++++++++---------------
 src/core/Queue.h        |  2 +-
 src/runtime/runtime.cpp |  8 +++++---
 3 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/core/Queue.cpp b/src/core/Queue.cpp
index 2c88b13..8fd26f9 100644
--- a/src/core/Queue.cpp
+++ b/src/core/Queue.cpp
@@ -171,19 +171,19 @@ bool Queue::isEmpty() const
   return m_queue.empty();
 }
 
-void Queue::execute(Command* command, bool flush)
+void Queue::execute(Command* command)
 {
-  // Find command in queue
-  auto it = std::find(m_queue.begin(), m_queue.end(), command);
-
-  // If there is a previous (older) command in the queue AND either the queue
-  // is not out of order OR needs to be flushed, then add event associated with
-  // previous (older) command as a dependency
-  if (it != m_queue.begin() && (!m_out_of_order || flush))
+  // Execute previous (older) commands first if the queue is not out of order
+  while (!m_out_of_order && m_queue.front() != command)
   {
-    command->waitList.push_back((*std::prev(it))->event);
+    Command* previous = m_queue.front();
+    execute(previous);
+    command->execBefore.push_back(previous);
   }
 
+  // Find command in queue
+  auto it = std::find(m_queue.begin(), m_queue.end(), command);
+
   // Make sure all events in the wait list are complete before executing
   // current command
   while (!command->waitList.empty())
@@ -195,8 +195,8 @@ void Queue::execute(Command* command, bool flush)
     if (evt->state > CL_COMPLETE && evt->command)
     {
       Command* dependency = evt->command;
-      evt->queue->execute(dependency, flush);
-      command->execBefore.push_front(dependency);
+      evt->queue->execute(dependency);
+      command->execBefore.push_back(dependency);
     }
 
     if (evt->state < 0)
@@ -275,10 +275,9 @@ Command* Queue::finish()
     return NULL;
   }
 
-  // Get most recent command in queue and execute it, triggering the execution
-  // of all previous commands even if it's an out-of-order queue
-  Command* cmd = m_queue.back();
-  execute(cmd, true);
+  // Execute oldest command in queue
+  Command* cmd = m_queue.front();
+  execute(cmd);
 
   return cmd;
 }
diff --git a/src/core/Queue.h b/src/core/Queue.h
index 16eedb7..ff5eaf4 100644
--- a/src/core/Queue.h
+++ b/src/core/Queue.h
@@ -206,7 +206,7 @@ public:
   virtual ~Queue();
 
   Event* enqueue(Command* command);
-  void execute(Command* command, bool flush);
+  void execute(Command* command);
 
   void executeCopyBuffer(CopyCommand* cmd);
   void executeCopyBufferRect(CopyRectCommand* cmd);
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index a645e71..ddca385 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3444,7 +3444,7 @@ CL_API_ENTRY cl_int CL_API_CALL clWaitForEvents(
       if (event_list[i]->queue)
       {
         oclgrind::Command* cmd = event_list[i]->event->command;
-        event_list[i]->event->queue->execute(cmd, false);
+        event_list[i]->event->queue->execute(cmd);
         releaseCommand(cmd);
 
         // If it's still not complete, update flag
@@ -3759,8 +3759,10 @@ CL_API_ENTRY cl_int CL_API_CALL clFinish(cl_command_queue command_queue)
   }
 
   // TODO: Move this finish to async thread?
-  oclgrind::Command* cmd = command_queue->queue->finish();
-  releaseCommand(cmd);
+  while (oclgrind::Command* cmd = command_queue->queue->finish())
+  {
+    releaseCommand(cmd);
+  }
 
   return CL_SUCCESS;
 }
-- 
2.43.0


From 3351023febe72971167722284caafdfd0e723784 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:09:17 +0000
Subject: [PATCH 028/130] fix: make markers and barriers order the commands of
 out-of-order queues

---
 src/core/Queue.cpp      | 36 +++++++++++++++++++++++++++++++-----
 src/core/Queue.h        |  8 ++++++++
 src/runtime/runtime.cpp |  4 ++++
 3 files changed, 43 insertions(+), 5 deletions(-)

diff --git a/src/core/Queue.cpp b/src/core/Queue.cpp
index 8fd26f9..e7f8c13 100644
--- a/src/core/Queue.cpp
+++ b/src/core/Queue.cpp
@@ -166,6 +166,29 @@ void Queue::executeWriteBufferRect(BufferRectCommand* cmd)
   }
 }
 
+list<Command*> Queue::getPredecessors(const Command* command) const
+{
+  list<Command*> predecessors;
+  for (Command* previous : m_queue)
+  {
+    if (previous == command)
+      break;
+
+    // All of them if the queue is not out of order, or if the command is a
+    // marker or barrier without a wait list
+    if (!m_out_of_order || command->waitForPrevious)
+    {
+      predecessors.push_back(previous);
+    }
+    // Otherwise just the most recent barrier, which is ordered after any others
+    else if (previous->blockFollowing)
+    {
+      predecessors.assign(1, previous);
+    }
+  }
+  return predecessors;
+}
+
 bool Queue::isEmpty() const
 {
   return m_queue.empty();
@@ -173,12 +196,15 @@ bool Queue::isEmpty() const
 
 void Queue::execute(Command* command)
 {
-  // Execute previous (older) commands first if the queue is not out of order
-  while (!m_out_of_order && m_queue.front() != command)
+  // Execute previous (older) commands that have to complete first
+  for (Command* previous : getPredecessors(command))
   {
-    Command* previous = m_queue.front();
-    execute(previous);
-    command->execBefore.push_back(previous);
+    // May have been executed already, if another one waits for it
+    if (std::find(m_queue.begin(), m_queue.end(), previous) != m_queue.end())
+    {
+      execute(previous);
+      command->execBefore.push_back(previous);
+    }
   }
 
   // Find command in queue
diff --git a/src/core/Queue.h b/src/core/Queue.h
index ff5eaf4..d8a264a 100644
--- a/src/core/Queue.h
+++ b/src/core/Queue.h
@@ -47,9 +47,15 @@ struct Command
   CommandType type;
   std::list<Event*> waitList;
   std::list<Command*> execBefore;
+
+  // Ordering of markers and barriers in out-of-order queues
+  bool waitForPrevious;
+  bool blockFollowing;
+
   Command()
   {
     type = EMPTY;
+    waitForPrevious = blockFollowing = false;
   }
   virtual ~Command() {}
 
@@ -228,5 +234,7 @@ private:
   const Context* m_context;
   const bool m_out_of_order;
   std::list<Command*> m_queue;
+
+  std::list<Command*> getPredecessors(const Command* command) const;
 };
 } // namespace oclgrind
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index ddca385..f43fd99 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5299,6 +5299,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueMarkerWithWaitList(
 
   // Enqueue command
   oclgrind::Command* cmd = new oclgrind::Command();
+  cmd->waitForPrevious = num_events_in_wait_list == 0;
   asyncEnqueue(command_queue, CL_COMMAND_MARKER, cmd, num_events_in_wait_list,
                event_wait_list, event);
 
@@ -5325,6 +5326,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueBarrierWithWaitList(
 
   // Enqueue command
   oclgrind::Command* cmd = new oclgrind::Command();
+  cmd->waitForPrevious = num_events_in_wait_list == 0;
+  cmd->blockFollowing = true;
   asyncEnqueue(command_queue, CL_COMMAND_BARRIER, cmd, num_events_in_wait_list,
                event_wait_list, event);
 
@@ -5362,6 +5365,7 @@ clEnqueueWaitForEvents(cl_command_queue command_queue, cl_uint num_events,
 
   // Enqueue command
   oclgrind::Command* cmd = new oclgrind::Command();
+  cmd->blockFollowing = true;
   asyncEnqueue(command_queue, CL_COMMAND_BARRIER, cmd, num_events, event_list,
                NULL);
 
-- 
2.43.0


From 4008aa594515eaafc554a9bdb13fd5ec7ceb786b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:09:29 +0000
Subject: [PATCH 029/130] fix: make blocking commands wait for themselves and
 report failed wait lists

---
 src/core/Queue.cpp      |  5 +++--
 src/core/Queue.h        |  2 +-
 src/runtime/runtime.cpp | 34 ++++++++++++++++++++++++----------
 3 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/src/core/Queue.cpp b/src/core/Queue.cpp
index e7f8c13..9630998 100644
--- a/src/core/Queue.cpp
+++ b/src/core/Queue.cpp
@@ -194,7 +194,7 @@ bool Queue::isEmpty() const
   return m_queue.empty();
 }
 
-void Queue::execute(Command* command)
+bool Queue::execute(Command* command)
 {
   // Execute previous (older) commands that have to complete first
   for (Command* previous : getPredecessors(command))
@@ -229,7 +229,7 @@ void Queue::execute(Command* command)
     {
       command->event->state = evt->state;
       m_queue.erase(it);
-      return;
+      return false;
     }
     else if (evt->state != CL_COMPLETE)
     {
@@ -292,6 +292,7 @@ void Queue::execute(Command* command)
 
   // Remove command from its queue
   m_queue.erase(it);
+  return true;
 }
 
 Command* Queue::finish()
diff --git a/src/core/Queue.h b/src/core/Queue.h
index d8a264a..691f5ea 100644
--- a/src/core/Queue.h
+++ b/src/core/Queue.h
@@ -212,7 +212,7 @@ public:
   virtual ~Queue();
 
   Event* enqueue(Command* command);
-  void execute(Command* command);
+  bool execute(Command* command);
 
   void executeCopyBuffer(CopyCommand* cmd);
   void executeCopyBufferRect(CopyRectCommand* cmd);
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index f43fd99..2496d93 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -252,6 +252,18 @@ cl_int checkEventWaitList(cl_context context, cl_uint num_events_in_wait_list,
   return CL_SUCCESS;
 }
 
+// Execute a blocking command that has just been enqueued
+cl_int waitForCommand(cl_command_queue queue, oclgrind::Command* command)
+{
+  bool success = queue->queue->execute(command);
+  releaseCommand(command);
+  if (!success)
+  {
+    ReturnError(queue->context, CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST);
+  }
+  return CL_SUCCESS;
+}
+
 static struct _cl_platform_id* m_platform = NULL;
 static struct _cl_device_id* m_device = NULL;
 
@@ -3818,7 +3830,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBuffer(
 
   if (blocking_read)
   {
-    return clFinish(command_queue);
+    return waitForCommand(command_queue, cmd);
   }
 
   return CL_SUCCESS;
@@ -3910,7 +3922,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBufferRect(
 
   if (blocking_read)
   {
-    return clFinish(command_queue);
+    return waitForCommand(command_queue, cmd);
   }
 
   return CL_SUCCESS;
@@ -3967,7 +3979,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBuffer(
 
   if (blocking_write)
   {
-    return clFinish(command_queue);
+    return waitForCommand(command_queue, cmd);
   }
 
   return CL_SUCCESS;
@@ -4059,7 +4071,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBufferRect(
 
   if (blocking_write)
   {
-    return clFinish(command_queue);
+    return waitForCommand(command_queue, cmd);
   }
 
   return CL_SUCCESS;
@@ -4831,13 +4843,14 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapBuffer(
   asyncEnqueue(command_queue, CL_COMMAND_MAP_BUFFER, cmd,
                num_events_in_wait_list, event_wait_list, event);
 
-  SetError(command_queue->context, CL_SUCCESS);
+  cl_int err = CL_SUCCESS;
   if (blocking_map)
   {
-    SetError(command_queue->context, clFinish(command_queue));
+    err = waitForCommand(command_queue, cmd);
   }
 
-  return ptr;
+  SetError(command_queue->context, err);
+  return err == CL_SUCCESS ? ptr : NULL;
 }
 
 CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
@@ -4964,13 +4977,14 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
   asyncEnqueue(command_queue, CL_COMMAND_MAP_IMAGE, cmd,
                num_events_in_wait_list, event_wait_list, event);
 
-  SetError(command_queue->context, CL_SUCCESS);
+  cl_int err = CL_SUCCESS;
   if (blocking_map)
   {
-    SetError(command_queue->context, clFinish(command_queue));
+    err = waitForCommand(command_queue, cmd);
   }
 
-  return ptr;
+  SetError(command_queue->context, err);
+  return err == CL_SUCCESS ? ptr : NULL;
 }
 
 CL_API_ENTRY cl_int CL_API_CALL clEnqueueUnmapMemObject(
-- 
2.43.0


From 6c58800374563d5e4ece9c2b9ed5f31e8b063f4c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:09:30 +0000
Subject: [PATCH 030/130] fix: do not block in clFlush on user events

---
 src/core/Queue.cpp      | 49 +++++++++++++++++++++++++++++++++++++++++
 src/core/Queue.h        |  2 ++
 src/runtime/runtime.cpp |  7 ++++--
 3 files changed, 56 insertions(+), 2 deletions(-)

diff --git a/src/core/Queue.cpp b/src/core/Queue.cpp
index 9630998..ac5762f 100644
--- a/src/core/Queue.cpp
+++ b/src/core/Queue.cpp
@@ -189,6 +189,30 @@ list<Command*> Queue::getPredecessors(const Command* command) const
   return predecessors;
 }
 
+// Check if a command waits for a user event that is not complete, directly or
+// indirectly. Commands that are known not to are remembered in ready.
+bool Queue::isBlocked(Command* command, set<Command*>& ready) const
+{
+  if (ready.count(command))
+    return false;
+
+  for (Event* evt : command->waitList)
+  {
+    if (evt->state > CL_COMPLETE &&
+        (!evt->command || evt->queue->isBlocked(evt->command, ready)))
+      return true;
+  }
+
+  for (Command* previous : getPredecessors(command))
+  {
+    if (isBlocked(previous, ready))
+      return true;
+  }
+
+  ready.insert(command);
+  return false;
+}
+
 bool Queue::isEmpty() const
 {
   return m_queue.empty();
@@ -295,6 +319,31 @@ bool Queue::execute(Command* command)
   return true;
 }
 
+list<Command*> Queue::flush()
+{
+  // Execute all commands that can be executed without blocking
+  list<Command*> executed;
+  list<Command*> commands = m_queue;
+  for (Command* command : commands)
+  {
+    // May have been executed already, if another one waits for it
+    if (std::find(m_queue.begin(), m_queue.end(), command) == m_queue.end())
+      continue;
+
+    set<Command*> ready;
+    if (!isBlocked(command, ready))
+    {
+      execute(command);
+      executed.push_back(command);
+    }
+    else
+    {
+      command->event->state = CL_SUBMITTED;
+    }
+  }
+  return executed;
+}
+
 Command* Queue::finish()
 {
   if (m_queue.empty())
diff --git a/src/core/Queue.h b/src/core/Queue.h
index 691f5ea..3af5698 100644
--- a/src/core/Queue.h
+++ b/src/core/Queue.h
@@ -229,6 +229,7 @@ public:
 
   bool isEmpty() const;
   Command* finish();
+  std::list<Command*> flush();
 
 private:
   const Context* m_context;
@@ -236,5 +237,6 @@ private:
   std::list<Command*> m_queue;
 
   std::list<Command*> getPredecessors(const Command* command) const;
+  bool isBlocked(Command* command, std::set<Command*>& ready) const;
 };
 } // namespace oclgrind
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 2496d93..3c26e20 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3753,8 +3753,11 @@ CL_API_ENTRY cl_int CL_API_CALL clFlush(cl_command_queue command_queue)
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
 
-  // TODO: Implement properly?
-  clFinish(command_queue);
+  // Execute the commands that do not wait for incomplete user events
+  for (oclgrind::Command* cmd : command_queue->queue->flush())
+  {
+    releaseCommand(cmd);
+  }
 
   return CL_SUCCESS;
 }
-- 
2.43.0


From 282a88fc0ccbdca5c7f61294413b935e9d11b5c7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:09:54 +0000
Subject: [PATCH 031/130] fix: call event callbacks that are set after the
 event reached the status

---
 src/runtime/runtime.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 3c26e20..270ad24 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3679,6 +3679,13 @@ clSetEventCallback(cl_event event, cl_int command_exec_callback_type,
                    command_exec_callback_type);
   }
 
+  // Call it straight away if the event has already reached the status
+  if (event->event->state <= command_exec_callback_type)
+  {
+    pfn_notify(event, event->event->state, user_data);
+    return CL_SUCCESS;
+  }
+
   event->callbacks.push_back(make_pair(pfn_notify, user_data));
 
   return CL_SUCCESS;
-- 
2.43.0


From a23042f64b34663c3c796e482524a76d41ee690f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:09:54 +0000
Subject: [PATCH 032/130] fix: let flushed commands complete once the user
 events they wait for have

---
 src/runtime/runtime.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 270ad24..2f209fe 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3527,6 +3527,11 @@ CL_API_ENTRY cl_int CL_API_CALL clGetEventInfo(
     result_data.type = event->type;
     break;
   case CL_EVENT_COMMAND_EXECUTION_STATUS:
+    if (event->queue && event->event->state == CL_SUBMITTED)
+    {
+      // Was waiting for a user event when it was flushed
+      clFlush(event->queue);
+    }
     result_size = sizeof(cl_int);
     result_data.clint = event->event->state;
     break;
-- 
2.43.0


From 9590a3e796aefdfce9f743987203fd77ce011849 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:13:51 +0000
Subject: [PATCH 033/130] fix: give the events of clEnqueueTask their own
 command type

---
 src/runtime/runtime.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 2f209fe..8e13052 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5215,9 +5215,14 @@ clEnqueueTask(cl_command_queue command_queue, cl_kernel kernel,
   REGISTER_API;
 
   size_t work = 1;
-  return clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &work, &work,
-                                num_events_in_wait_list, event_wait_list,
-                                event);
+  cl_int err = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &work,
+                                      &work, num_events_in_wait_list,
+                                      event_wait_list, event);
+  if (err == CL_SUCCESS && event)
+  {
+    (*event)->type = CL_COMMAND_TASK;
+  }
+  return err;
 }
 
 CL_API_ENTRY cl_int CL_API_CALL clEnqueueNativeKernel(
-- 
2.43.0


From 724d3113e816fc1e763117986fe9f257e47d3935 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:31:00 +0000
Subject: [PATCH 034/130] fix: validate and copy context properties as
 name-value pairs

---
 src/runtime/runtime.cpp | 62 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 59 insertions(+), 3 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 8e13052..4be0c27 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1012,6 +1012,42 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseDevice(cl_device_id device)
   return CL_SUCCESS;
 }
 
+namespace
+{
+cl_int checkContextProperties(const cl_context_properties* properties)
+{
+  bool havePlatform = false;
+  bool haveUserSync = false;
+  for (unsigned i = 0; properties && properties[i]; i += 2)
+  {
+    switch (properties[i])
+    {
+    case CL_CONTEXT_PLATFORM:
+      if (havePlatform)
+      {
+        ReturnErrorInfo(NULL, CL_INVALID_PROPERTY, "Property repeated");
+      }
+      if (!m_platform || (cl_platform_id)properties[i + 1] != m_platform)
+      {
+        ReturnErrorArg(NULL, CL_INVALID_PLATFORM, properties);
+      }
+      havePlatform = true;
+      break;
+    case CL_CONTEXT_INTEROP_USER_SYNC:
+      if (haveUserSync)
+      {
+        ReturnErrorInfo(NULL, CL_INVALID_PROPERTY, "Property repeated");
+      }
+      haveUserSync = true;
+      break;
+    default:
+      ReturnErrorArg(NULL, CL_INVALID_PROPERTY, properties);
+    }
+  }
+  return CL_SUCCESS;
+}
+} // namespace
+
 CL_API_ENTRY cl_context CL_API_CALL clCreateContext(
   const cl_context_properties* properties, cl_uint num_devices,
   const cl_device_id* devices,
@@ -1042,6 +1078,15 @@ CL_API_ENTRY cl_context CL_API_CALL clCreateContext(
                  "pfn_notify NULL but user_data non-NULL");
     return NULL;
   }
+  cl_int err = checkContextProperties(properties);
+  if (err != CL_SUCCESS)
+  {
+    if (errcode_ret)
+    {
+      *errcode_ret = err;
+    }
+    return NULL;
+  }
 
   // Create context object
   cl_context context = new _cl_context;
@@ -1055,10 +1100,11 @@ CL_API_ENTRY cl_context CL_API_CALL clCreateContext(
 
   if (properties)
   {
-    int num = 1;
+    // Properties are name-value pairs, terminated by a zero name
+    int num = 0;
     while (properties[num])
     {
-      num++;
+      num += 2;
     }
     size_t sz = (num + 1) * sizeof(cl_context_properties);
     context->szProperties = sz;
@@ -1089,6 +1135,15 @@ CL_API_ENTRY cl_context CL_API_CALL clCreateContextFromType(
     SetErrorArg(NULL, CL_DEVICE_NOT_FOUND, device_type);
     return NULL;
   }
+  cl_int err = checkContextProperties(properties);
+  if (err != CL_SUCCESS)
+  {
+    if (errcode_ret)
+    {
+      *errcode_ret = err;
+    }
+    return NULL;
+  }
 
   // Create context object
   cl_context context = new _cl_context;
@@ -1102,10 +1157,11 @@ CL_API_ENTRY cl_context CL_API_CALL clCreateContextFromType(
 
   if (properties)
   {
+    // Properties are name-value pairs, terminated by a zero name
     int num = 0;
     while (properties[num])
     {
-      num++;
+      num += 2;
     }
     size_t sz = (num + 1) * sizeof(cl_context_properties);
     context->szProperties = sz;
-- 
2.43.0


From dbc57be781a487486da8ab47861ac54e0ee3cacb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:31:00 +0000
Subject: [PATCH 035/130] fix: validate platform, device and output arguments
 of discovery calls

---
 src/runtime/runtime.cpp | 44 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 4be0c27..51fef7f 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -272,7 +272,7 @@ CL_API_ENTRY cl_int CL_API_CALL clIcdGetPlatformIDsKHR(
 {
   REGISTER_API;
 
-  if (platforms && num_entries < 1)
+  if ((platforms && num_entries < 1) || (!platforms && !num_platforms))
   {
     ReturnError(NULL, CL_INVALID_VALUE);
   }
@@ -353,6 +353,11 @@ CL_API_ENTRY cl_int CL_API_CALL clGetPlatformInfo(
   size_t result_size = 0;
   const void* data = NULL;
 
+  if (platform && platform != m_platform)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_PLATFORM, platform);
+  }
+
   static constexpr char extensions[] = "cl_khr_icd";
   static constexpr cl_version numeric_version = CL_MAKE_VERSION(3, 0, 0);
   static constexpr cl_name_version extension_versions[] = {
@@ -435,11 +440,22 @@ CL_API_ENTRY cl_int CL_API_CALL clGetDeviceIDs(
   REGISTER_API;
 
   // Check parameters
-  if (devices && num_entries < 1)
+  if (platform && platform != m_platform)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_PLATFORM, platform);
+  }
+  if ((devices && num_entries < 1) || (!devices && !num_devices))
   {
     ReturnError(NULL, CL_INVALID_VALUE);
   }
 
+  if (!m_device)
+  {
+    // Initialize the platform if the application did not query it first
+    cl_uint num_platforms;
+    clIcdGetPlatformIDsKHR(0, NULL, &num_platforms);
+  }
+
   if (!(device_type & DEVICE_TYPE))
   {
     ReturnError(NULL, CL_DEVICE_NOT_FOUND);
@@ -993,6 +1009,11 @@ CL_API_ENTRY cl_int CL_API_CALL clCreateSubDevices(
 {
   REGISTER_API;
 
+  if (!in_device || in_device != m_device)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_DEVICE, in_device);
+  }
+
   ReturnErrorInfo(NULL, CL_INVALID_VALUE, "Not yet implemented");
 }
 
@@ -1001,6 +1022,11 @@ CL_API_ENTRY cl_int CL_API_CALL clRetainDevice(cl_device_id device)
 {
   REGISTER_API;
 
+  if (!device || device != m_device)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_DEVICE, device);
+  }
+
   return CL_SUCCESS;
 }
 
@@ -1009,6 +1035,11 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseDevice(cl_device_id device)
 {
   REGISTER_API;
 
+  if (!device || device != m_device)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_DEVICE, device);
+  }
+
   return CL_SUCCESS;
 }
 
@@ -5780,6 +5811,15 @@ CL_API_ENTRY cl_command_queue CL_API_CALL clCreateCommandQueueWithProperties(
       {
         out_of_order = true;
       }
+      if (properties[i] &
+          ~(cl_queue_properties)(CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE |
+                                 CL_QUEUE_PROFILING_ENABLE |
+                                 CL_QUEUE_ON_DEVICE |
+                                 CL_QUEUE_ON_DEVICE_DEFAULT))
+      {
+        SetErrorArg(context, CL_INVALID_VALUE, properties);
+        return NULL;
+      }
       if (properties[i] & (CL_QUEUE_ON_DEVICE | CL_QUEUE_ON_DEVICE_DEFAULT))
       {
         SetErrorInfo(context, CL_INVALID_QUEUE_PROPERTIES,
-- 
2.43.0


From 1fdc9a819f857b5ebf5ed717310226bb4986131d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:33:41 +0000
Subject: [PATCH 036/130] fix: validate memory flags and properties when
 creating buffers and sub-buffers

---
 src/runtime/runtime.cpp | 80 +++++++++++++++++++++++++++++++++++++++--
 1 file changed, 78 insertions(+), 2 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 51fef7f..c805389 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1486,6 +1486,54 @@ CL_API_ENTRY cl_int CL_API_CALL clGetCommandQueueInfo(
 
 namespace
 {
+// Check that a combination of memory flags is valid
+bool checkMemFlags(cl_mem_flags flags)
+{
+  const cl_mem_flags access =
+    flags & (CL_MEM_READ_WRITE | CL_MEM_WRITE_ONLY | CL_MEM_READ_ONLY);
+  const cl_mem_flags hostAccess =
+    flags &
+    (CL_MEM_HOST_WRITE_ONLY | CL_MEM_HOST_READ_ONLY | CL_MEM_HOST_NO_ACCESS);
+  const cl_mem_flags hostPtr =
+    flags & (CL_MEM_USE_HOST_PTR | CL_MEM_ALLOC_HOST_PTR | CL_MEM_COPY_HOST_PTR);
+
+  // No unknown flags, and at most one flag from each access group
+  return !(flags & ~(access | hostAccess | hostPtr)) &&
+         !(access & (access - 1)) && !(hostAccess & (hostAccess - 1));
+}
+
+// Check that flags can be used for an object that uses the memory of another
+bool checkSubObjectFlags(cl_mem_flags parent, cl_mem_flags flags)
+{
+  if (!checkMemFlags(flags) ||
+      (flags &
+       (CL_MEM_USE_HOST_PTR | CL_MEM_ALLOC_HOST_PTR | CL_MEM_COPY_HOST_PTR)))
+  {
+    return false;
+  }
+  if ((parent & CL_MEM_WRITE_ONLY) &&
+      (flags & (CL_MEM_READ_WRITE | CL_MEM_READ_ONLY)))
+  {
+    return false;
+  }
+  if ((parent & CL_MEM_READ_ONLY) &&
+      (flags & (CL_MEM_READ_WRITE | CL_MEM_WRITE_ONLY)))
+  {
+    return false;
+  }
+  if ((parent & (CL_MEM_HOST_WRITE_ONLY | CL_MEM_HOST_NO_ACCESS)) &&
+      (flags & CL_MEM_HOST_READ_ONLY))
+  {
+    return false;
+  }
+  if ((parent & (CL_MEM_HOST_READ_ONLY | CL_MEM_HOST_NO_ACCESS)) &&
+      (flags & CL_MEM_HOST_WRITE_ONLY))
+  {
+    return false;
+  }
+  return true;
+}
+
 cl_mem createBuffer(cl_context context, cl_mem_flags flags, size_t size,
                     void* host_ptr, cl_int* errcode_ret)
 {
@@ -1500,6 +1548,11 @@ cl_mem createBuffer(cl_context context, cl_mem_flags flags, size_t size,
     SetErrorArg(context, CL_INVALID_BUFFER_SIZE, size);
     return NULL;
   }
+  if (!checkMemFlags(flags))
+  {
+    SetErrorArg(context, CL_INVALID_VALUE, flags);
+    return NULL;
+  }
   if ((host_ptr == NULL) ==
       ((flags & CL_MEM_COPY_HOST_PTR) || flags & CL_MEM_USE_HOST_PTR))
   {
@@ -1575,6 +1628,7 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateBufferWithProperties(
   if (properties && properties[0] != 0)
   {
     SetErrorInfo(context, CL_INVALID_PROPERTY, "Unsupported property");
+    return NULL;
   }
 
   cl_mem buffer = createBuffer(context, flags, size, host_ptr, errcode_ret);
@@ -1599,12 +1653,23 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateSubBuffer(
     SetErrorArg(NULL, CL_INVALID_MEM_OBJECT, buffer);
     return NULL;
   }
+  if (buffer->isImage)
+  {
+    SetErrorInfo(buffer->context, CL_INVALID_MEM_OBJECT,
+                 "Parent must be a buffer");
+    return NULL;
+  }
   if (buffer->parent)
   {
     SetErrorInfo(buffer->context, CL_INVALID_MEM_OBJECT,
                  "Parent buffer cannot be a sub-buffer");
     return NULL;
   }
+  if (!checkSubObjectFlags(buffer->flags, flags))
+  {
+    SetErrorArg(buffer->context, CL_INVALID_VALUE, flags);
+    return NULL;
+  }
   if (buffer_create_type != CL_BUFFER_CREATE_TYPE_REGION)
   {
     SetErrorArg(buffer->context, CL_INVALID_VALUE, buffer_create_type);
@@ -1617,7 +1682,8 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateSubBuffer(
   }
 
   _cl_buffer_region region = *(_cl_buffer_region*)buffer_create_info;
-  if (region.origin + region.size > buffer->size)
+  if (region.size > buffer->size ||
+      region.origin > buffer->size - region.size)
   {
     SetErrorInfo(buffer->context, CL_INVALID_VALUE,
                  "Region doesn't fit inside parent buffer");
@@ -1628,6 +1694,13 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateSubBuffer(
     SetErrorInfo(buffer->context, CL_INVALID_VALUE, "Region size cannot be 0");
     return NULL;
   }
+  if (region.origin % sizeof(cl_long16))
+  {
+    // CL_DEVICE_MEM_BASE_ADDR_ALIGN
+    SetErrorInfo(buffer->context, CL_MISALIGNED_SUB_BUFFER_OFFSET,
+                 "Region origin is not aligned");
+    return NULL;
+  }
 
   // Inherit flags from parent where appropriate
   cl_mem_flags memFlags = 0;
@@ -1664,7 +1737,9 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateSubBuffer(
   mem->offset = region.origin;
   mem->isImage = false;
   mem->flags = memFlags;
-  mem->hostPtr = (unsigned char*)buffer->hostPtr + region.origin;
+  mem->hostPtr = buffer->hostPtr
+                   ? (unsigned char*)buffer->hostPtr + region.origin
+                   : NULL;
   mem->refCount = 1;
   mem->address = buffer->address + region.origin;
   clRetainMemObject(buffer);
@@ -1893,6 +1968,7 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateImageWithProperties(
   if (properties && properties[0] != 0)
   {
     SetErrorInfo(context, CL_INVALID_PROPERTY, "Unsupported property");
+    return NULL;
   }
 
   cl_mem image = createImage(context, flags, image_format, image_desc, host_ptr,
-- 
2.43.0


From 45d6c2e57862f1e7c3a84ae39c4f602db0382b6d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:33:41 +0000
Subject: [PATCH 037/130] fix: report allocation failure when a buffer is too
 large for the host

---
 src/core/Memory.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/Memory.cpp b/src/core/Memory.cpp
index ef75e92..dbf48d8 100644
--- a/src/core/Memory.cpp
+++ b/src/core/Memory.cpp
@@ -54,6 +54,12 @@ size_t Memory::allocateBuffer(size_t size, cl_mem_flags flags,
     return 0;
   }
 
+  unique_ptr<unsigned char[]> data(new (nothrow) unsigned char[size]);
+  if (!data)
+  {
+    return 0;
+  }
+
   // Find first unallocated buffer slot
   unsigned b = getNextBuffer();
   if (b >= m_maxNumBuffers)
@@ -65,7 +71,7 @@ size_t Memory::allocateBuffer(size_t size, cl_mem_flags flags,
   Buffer* buffer = new Buffer;
   buffer->size = size;
   buffer->flags = flags;
-  buffer->data = new unsigned char[size];
+  buffer->data = data.release();
 
   if (b >= m_memory.size())
   {
-- 
2.43.0


From a515e2aceff975005a496cb6532144bd0a18533e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:33:41 +0000
Subject: [PATCH 038/130] fix: validate image formats, descriptors and flags
 when creating images

---
 src/runtime/runtime.cpp | 104 +++++++++++++++++++++++++++++++++++++++-
 1 file changed, 102 insertions(+), 2 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index c805389..81392a1 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1867,7 +1867,25 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
   size_t pixelSize = getPixelSize(image_format);
   if (!pixelSize)
   {
-    SetErrorArg(context, CL_INVALID_VALUE, image_format);
+    SetErrorArg(context, CL_INVALID_IMAGE_FORMAT_DESCRIPTOR, image_format);
+    return NULL;
+  }
+  switch (image_format->image_channel_data_type)
+  {
+  case CL_UNORM_SHORT_565:
+  case CL_UNORM_SHORT_555:
+  case CL_UNORM_INT_101010:
+    // TODO: Add support for packed image types
+    SetErrorArg(context, CL_IMAGE_FORMAT_NOT_SUPPORTED, image_format);
+    return NULL;
+  default:
+    break;
+  }
+
+  // Check flags and host pointer
+  if (!checkMemFlags(flags))
+  {
+    SetErrorArg(context, CL_INVALID_VALUE, flags);
     return NULL;
   }
 
@@ -1889,6 +1907,52 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
     arraySize = image_desc->image_array_size;
   }
 
+  // Check descriptor
+  if (dims == 0 || image_desc->num_mip_levels || image_desc->num_samples)
+  {
+    SetErrorArg(context, CL_INVALID_IMAGE_DESCRIPTOR, image_desc);
+    return NULL;
+  }
+  if (!width || !height || !depth || !arraySize)
+  {
+    SetErrorInfo(context, CL_INVALID_IMAGE_DESCRIPTOR,
+                 "Image dimensions cannot be 0");
+    return NULL;
+  }
+  size_t maxSize = dims > 2 ? 2048 : 8192;
+  size_t maxWidth = image_desc->image_type == CL_MEM_OBJECT_IMAGE1D_BUFFER
+                      ? 65536
+                      : maxSize;
+  if (width > maxWidth || height > maxSize || depth > maxSize ||
+      arraySize > 2048)
+  {
+    SetErrorInfo(context, CL_INVALID_IMAGE_SIZE,
+                 "Image dimensions exceed device limits");
+    return NULL;
+  }
+  size_t rowPitch = image_desc->image_row_pitch;
+  size_t slicePitch = image_desc->image_slice_pitch;
+  if (!host_ptr && (rowPitch || slicePitch))
+  {
+    SetErrorInfo(context, CL_INVALID_IMAGE_DESCRIPTOR,
+                 "Pitches must be 0 if host_ptr is NULL");
+    return NULL;
+  }
+  if (rowPitch && (rowPitch < width * pixelSize || rowPitch % pixelSize))
+  {
+    SetErrorInfo(context, CL_INVALID_IMAGE_DESCRIPTOR, "Invalid row pitch");
+    return NULL;
+  }
+  if (slicePitch && (dims > 2 || isImageArray(image_desc->image_type)))
+  {
+    size_t row = rowPitch ? rowPitch : width * pixelSize;
+    if (slicePitch < row * height || slicePitch % row)
+    {
+      SetErrorInfo(context, CL_INVALID_IMAGE_DESCRIPTOR, "Invalid slice pitch");
+      return NULL;
+    }
+  }
+
   // Calculate total size of image
   size_t size = width * height * depth * arraySize * pixelSize;
 
@@ -1899,11 +1963,34 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
     // Use existing buffer
     if (!image_desc->buffer)
     {
-      SetErrorInfo(context, CL_INVALID_VALUE,
+      SetErrorInfo(context, CL_INVALID_IMAGE_DESCRIPTOR,
                    "image_desc->buffer cannot be NULL "
                    "when using CL_MEM_OBJECT_IMAGE1D_BUFFER");
       return NULL;
     }
+    if (image_desc->buffer->isImage)
+    {
+      SetErrorInfo(context, CL_INVALID_IMAGE_DESCRIPTOR,
+                   "image_desc->buffer must be a buffer");
+      return NULL;
+    }
+    if (image_desc->buffer->context != context)
+    {
+      SetErrorInfo(context, CL_INVALID_CONTEXT,
+                   "image_desc->buffer belongs to a different context");
+      return NULL;
+    }
+    if (size > image_desc->buffer->size)
+    {
+      SetErrorInfo(context, CL_INVALID_IMAGE_DESCRIPTOR,
+                   "image_desc->buffer is too small");
+      return NULL;
+    }
+    if (!checkSubObjectFlags(image_desc->buffer->flags, flags))
+    {
+      SetErrorArg(context, CL_INVALID_VALUE, flags);
+      return NULL;
+    }
     mem = image_desc->buffer;
     clRetainMemObject(image_desc->buffer);
   }
@@ -1914,6 +2001,11 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
                  "Creating 2D images from buffers is not supported");
     return nullptr;
   }
+  else if (image_desc->mem_object)
+  {
+    SetErrorArg(context, CL_INVALID_IMAGE_DESCRIPTOR, image_desc);
+    return NULL;
+  }
   else
   {
     // Create buffer
@@ -2100,6 +2192,14 @@ CL_API_ENTRY cl_int CL_API_CALL clGetSupportedImageFormats(
     ReturnErrorInfo(context, CL_INVALID_VALUE,
                     "num_entries should be >0 if image_formats non-NULL");
   }
+  if (getNumDimensions(image_type) == 0)
+  {
+    ReturnErrorArg(context, CL_INVALID_VALUE, image_type);
+  }
+  if (!checkMemFlags(flags & ~(cl_mem_flags)CL_MEM_KERNEL_READ_AND_WRITE))
+  {
+    ReturnErrorArg(context, CL_INVALID_VALUE, flags);
+  }
 
   // TODO: Add support for packed image types
 
-- 
2.43.0


From b6e6ce23e13ba14b94de14c079c1eb2aa09d8afa Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:36:52 +0000
Subject: [PATCH 039/130] fix: check objects, contexts and ranges of buffer
 commands without overflowing

---
 src/runtime/runtime.cpp | 159 +++++++++++++++++++++++++++++++---------
 1 file changed, 123 insertions(+), 36 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 81392a1..fd4ab41 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -252,6 +252,99 @@ cl_int checkEventWaitList(cl_context context, cl_uint num_events_in_wait_list,
   return CL_SUCCESS;
 }
 
+// Check that a memory object can be used with a command-queue
+cl_int checkMemObject(cl_command_queue queue, cl_mem mem, const char* name)
+{
+  if (!mem)
+  {
+    ReturnErrorInfo(queue->context, CL_INVALID_MEM_OBJECT,
+                    "For argument '" << name << "'");
+  }
+  if (mem->context != queue->context)
+  {
+    ReturnErrorInfo(queue->context, CL_INVALID_CONTEXT,
+                    "Argument '" << name
+                                 << "' and queue have different contexts");
+  }
+  return CL_SUCCESS;
+}
+
+cl_int checkBuffer(cl_command_queue queue, cl_mem buffer, const char* name)
+{
+  cl_int err = checkMemObject(queue, buffer, name);
+  if (err == CL_SUCCESS && buffer->isImage)
+  {
+    ReturnErrorInfo(queue->context, CL_INVALID_MEM_OBJECT,
+                    "Argument '" << name << "' is not a buffer");
+  }
+  return err;
+}
+
+cl_int checkImage(cl_command_queue queue, cl_mem image, const char* name)
+{
+  cl_int err = checkMemObject(queue, image, name);
+  if (err == CL_SUCCESS && !image->isImage)
+  {
+    ReturnErrorInfo(queue->context, CL_INVALID_MEM_OBJECT,
+                    "Argument '" << name << "' is not an image");
+  }
+  return err;
+}
+
+// Check that a range lies within an object (without overflowing)
+bool isRangeValid(size_t offset, size_t size, size_t limit)
+{
+  return size <= limit && offset <= limit - size;
+}
+
+// Check that the region of a rectangular copy is valid
+bool isRegionValid(const size_t* region)
+{
+  return region && region[0] && region[1] && region[2];
+}
+
+// Compute default pitches and the range [offset, end) spanned by a
+// rectangular region. Returns false if the pitches are invalid, or if the range
+// does not fit into a size_t.
+bool computeRect(const size_t* origin, const size_t* region, size_t& row_pitch,
+                 size_t& slice_pitch, size_t& offset, size_t& end)
+{
+  bool valid = true;
+  auto mul = [&valid](size_t a, size_t b) {
+    valid &= (a == 0 || b <= SIZE_MAX / a);
+    return a * b;
+  };
+  auto add = [&valid](size_t a, size_t b) {
+    valid &= (b <= SIZE_MAX - a);
+    return a + b;
+  };
+
+  if (!origin)
+  {
+    return false;
+  }
+  if (row_pitch == 0)
+  {
+    row_pitch = region[0];
+  }
+  size_t slice_size = mul(region[1], row_pitch);
+  if (slice_pitch == 0)
+  {
+    slice_pitch = slice_size;
+  }
+  if (row_pitch < region[0] || slice_pitch < slice_size)
+  {
+    return false;
+  }
+
+  offset = add(add(mul(origin[2], slice_pitch), mul(origin[1], row_pitch)),
+               origin[0]);
+  end = add(add(add(offset, mul(region[2] - 1, slice_pitch)),
+                mul(region[1] - 1, row_pitch)),
+            region[0]);
+  return valid;
+}
+
 // Execute a blocking command that has just been enqueued
 cl_int waitForCommand(cl_command_queue queue, oclgrind::Command* command)
 {
@@ -4069,15 +4162,16 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBuffer(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
-  if (!buffer)
+  if (auto err = checkBuffer(command_queue, buffer, "buffer");
+      err != CL_SUCCESS)
   {
-    ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, memobj);
+    return err;
   }
   if (!ptr)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, ptr);
   }
-  if (offset + cb > buffer->size)
+  if (!isRangeValid(offset, cb, buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "offset + cb (" << offset << " + " << cb
@@ -4218,15 +4312,16 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBuffer(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
-  if (!buffer)
+  if (auto err = checkBuffer(command_queue, buffer, "buffer");
+      err != CL_SUCCESS)
   {
-    ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, memobj);
+    return err;
   }
   if (!ptr)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, ptr);
   }
-  if (offset + cb > buffer->size)
+  if (!isRangeValid(offset, cb, buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "offset + cb (" << offset << " + " << cb
@@ -4368,51 +4463,41 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBuffer(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
-  if (!src_buffer)
+  if (auto err = checkBuffer(command_queue, src_buffer, "src_buffer");
+      err != CL_SUCCESS)
   {
-    ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, src_buffer);
+    return err;
   }
-  if (!dst_buffer)
+  if (auto err = checkBuffer(command_queue, dst_buffer, "dst_buffer");
+      err != CL_SUCCESS)
   {
-    ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, dst_buffer);
+    return err;
   }
-  if (dst_offset + cb > dst_buffer->size)
+  if (!isRangeValid(dst_offset, cb, dst_buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "dst_offset + cb (" << dst_offset << " + " << cb
                                         << ") exceeds buffer size ("
                                         << dst_buffer->size << " bytes)");
   }
-  if (src_offset + cb > src_buffer->size)
+  if (!isRangeValid(src_offset, cb, src_buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "src_offset + cb (" << src_offset << " + " << cb
                                         << ") exceeds buffer size ("
                                         << src_buffer->size << " bytes)");
   }
-  // If src and dst buffers are the same and if src_offset comes before
-  // dst_offset and src buffer size goes beyond dst_offset then there is an
-  // overlap
-  if ((src_buffer == dst_buffer) && (src_offset <= dst_offset) &&
-      ((src_offset + cb) > dst_offset))
+  // Compare device addresses, as the buffers may be different sub-buffers of
+  // the same buffer
+  size_t src_address = src_buffer->address + src_offset;
+  size_t dst_address = dst_buffer->address + dst_offset;
+  if (src_address < dst_address + cb && dst_address < src_address + cb)
   {
     ReturnErrorInfo(command_queue->context, CL_MEM_COPY_OVERLAP,
-                    "src_buffer == dst_buffer and "
                     "src_offset + cb ("
-                      << src_offset << " + " << cb << ") overlaps dst_offset ("
-                      << dst_offset << ")");
-  }
-  // If src and dst buffers are the same and if dst_offset comes before
-  // src_offset and dst buffer size goes beyond src_offset then there is an
-  // overlap
-  if ((src_buffer == dst_buffer) && (dst_offset <= src_offset) &&
-      ((dst_offset + cb) > src_offset))
-  {
-    ReturnErrorInfo(command_queue->context, CL_MEM_COPY_OVERLAP,
-                    "src_buffer == dst_buffer and "
-                    "dst_offset + cb ("
-                      << dst_offset << " + " << cb << ") overlaps src_offset ("
-                      << src_offset << ")");
+                      << src_offset << " + " << cb
+                      << ") overlaps dst_offset + cb (" << dst_offset << " + "
+                      << cb << ")");
   }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
@@ -4541,11 +4626,12 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillBuffer(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
-  if (!buffer)
+  if (auto err = checkBuffer(command_queue, buffer, "buffer");
+      err != CL_SUCCESS)
   {
-    ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, buffer);
+    return err;
   }
-  if (offset + cb > buffer->size)
+  if (!isRangeValid(offset, cb, buffer->size))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
                     "offset + cb (" << offset << " + " << cb
@@ -4556,7 +4642,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillBuffer(
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, pattern);
   }
-  if (pattern_size == 0)
+  if (pattern_size == 0 || pattern_size > sizeof(cl_long16) ||
+      (pattern_size & (pattern_size - 1)))
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, pattern_size);
   }
-- 
2.43.0


From 8bcf52c5e84ca9eab25c6bf76a39357688a1a8ce Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:36:52 +0000
Subject: [PATCH 040/130] fix: check objects, regions, pitches and overlap of
 rectangular buffer commands

---
 src/runtime/runtime.cpp | 280 ++++++++++++++++++++++++----------------
 1 file changed, 171 insertions(+), 109 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index fd4ab41..62c252e 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -4208,28 +4208,23 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBuffer(
   return CL_SUCCESS;
 }
 
-CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBufferRect(
+// Read a rectangular region of a buffer or an image
+static cl_int enqueueReadBufferRect(
   cl_command_queue command_queue, cl_mem buffer, cl_bool blocking_read,
   const size_t* buffer_origin, const size_t* host_origin, const size_t* region,
   size_t buffer_row_pitch, size_t buffer_slice_pitch, size_t host_row_pitch,
   size_t host_slice_pitch, void* ptr, cl_uint num_events_in_wait_list,
-  const cl_event* event_wait_list, cl_event* event) CL_API_SUFFIX__VERSION_1_1
+  const cl_event* event_wait_list, cl_event* event)
 {
-  REGISTER_API;
-
   // Check parameters
-  if (!command_queue)
-  {
-    ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
-  }
-  if (!buffer)
-  {
-    ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, memobj);
-  }
   if (!ptr)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, ptr);
   }
+  if (!isRegionValid(region))
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, region);
+  }
   if (buffer->flags & (CL_MEM_HOST_NO_ACCESS | CL_MEM_HOST_WRITE_ONLY))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_OPERATION,
@@ -4242,33 +4237,23 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBufferRect(
     return err;
   }
 
-  // Compute pitches if neccessary
-  if (buffer_row_pitch == 0)
-  {
-    buffer_row_pitch = region[0];
-  }
-  if (buffer_slice_pitch == 0)
-  {
-    buffer_slice_pitch = region[1] * buffer_row_pitch;
-  }
-  if (host_row_pitch == 0)
+  // Compute pitches if necessary, and ranges that will be accessed
+  size_t buffer_offset, host_offset;
+  size_t end, host_end;
+  if (!computeRect(host_origin, region, host_row_pitch, host_slice_pitch,
+                   host_offset, host_end))
   {
-    host_row_pitch = region[0];
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Invalid host origin, region or pitches");
   }
-  if (host_slice_pitch == 0)
+  if (!computeRect(buffer_origin, region, buffer_row_pitch, buffer_slice_pitch,
+                   buffer_offset, end))
   {
-    host_slice_pitch = region[1] * host_row_pitch;
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Invalid buffer origin, region or pitches");
   }
 
-  // Compute origin offsets
-  size_t buffer_offset = buffer_origin[2] * buffer_slice_pitch +
-                         buffer_origin[1] * buffer_row_pitch + buffer_origin[0];
-  size_t host_offset = host_origin[2] * host_slice_pitch +
-                       host_origin[1] * host_row_pitch + host_origin[0];
-
   // Ensure buffer region valid
-  size_t end = buffer_offset + region[0] + (region[1] - 1) * buffer_row_pitch +
-               (region[2] - 1) * buffer_slice_pitch;
   if (end > buffer->size)
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
@@ -4300,6 +4285,32 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBufferRect(
   return CL_SUCCESS;
 }
 
+CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadBufferRect(
+  cl_command_queue command_queue, cl_mem buffer, cl_bool blocking_read,
+  const size_t* buffer_origin, const size_t* host_origin, const size_t* region,
+  size_t buffer_row_pitch, size_t buffer_slice_pitch, size_t host_row_pitch,
+  size_t host_slice_pitch, void* ptr, cl_uint num_events_in_wait_list,
+  const cl_event* event_wait_list, cl_event* event) CL_API_SUFFIX__VERSION_1_1
+{
+  REGISTER_API;
+
+  // Check parameters
+  if (!command_queue)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
+  }
+  if (auto err = checkBuffer(command_queue, buffer, "buffer");
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
+
+  return enqueueReadBufferRect(
+    command_queue, buffer, blocking_read, buffer_origin, host_origin, region,
+    buffer_row_pitch, buffer_slice_pitch, host_row_pitch, host_slice_pitch, ptr,
+    num_events_in_wait_list, event_wait_list, event);
+}
+
 CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBuffer(
   cl_command_queue command_queue, cl_mem buffer, cl_bool blocking_write,
   size_t offset, size_t cb, const void* ptr, cl_uint num_events_in_wait_list,
@@ -4358,28 +4369,23 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBuffer(
   return CL_SUCCESS;
 }
 
-CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBufferRect(
+// Write a rectangular region of a buffer or an image
+static cl_int enqueueWriteBufferRect(
   cl_command_queue command_queue, cl_mem buffer, cl_bool blocking_write,
   const size_t* buffer_origin, const size_t* host_origin, const size_t* region,
   size_t buffer_row_pitch, size_t buffer_slice_pitch, size_t host_row_pitch,
   size_t host_slice_pitch, const void* ptr, cl_uint num_events_in_wait_list,
-  const cl_event* event_wait_list, cl_event* event) CL_API_SUFFIX__VERSION_1_1
+  const cl_event* event_wait_list, cl_event* event)
 {
-  REGISTER_API;
-
   // Check parameters
-  if (!command_queue)
-  {
-    ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
-  }
-  if (!buffer)
-  {
-    ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, memobj);
-  }
   if (!ptr)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, ptr);
   }
+  if (!isRegionValid(region))
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, region);
+  }
   if (buffer->flags & (CL_MEM_HOST_NO_ACCESS | CL_MEM_HOST_READ_ONLY))
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_OPERATION,
@@ -4392,33 +4398,23 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBufferRect(
     return err;
   }
 
-  // Compute pitches if necessary
-  if (buffer_row_pitch == 0)
-  {
-    buffer_row_pitch = region[0];
-  }
-  if (buffer_slice_pitch == 0)
+  // Compute pitches if necessary, and ranges that will be accessed
+  size_t buffer_offset, host_offset;
+  size_t end, host_end;
+  if (!computeRect(host_origin, region, host_row_pitch, host_slice_pitch,
+                   host_offset, host_end))
   {
-    buffer_slice_pitch = region[1] * buffer_row_pitch;
-  }
-  if (host_row_pitch == 0)
-  {
-    host_row_pitch = region[0];
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Invalid host origin, region or pitches");
   }
-  if (host_slice_pitch == 0)
+  if (!computeRect(buffer_origin, region, buffer_row_pitch, buffer_slice_pitch,
+                   buffer_offset, end))
   {
-    host_slice_pitch = region[1] * host_row_pitch;
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Invalid buffer origin, region or pitches");
   }
 
-  // Compute origin offsets
-  size_t buffer_offset = buffer_origin[2] * buffer_slice_pitch +
-                         buffer_origin[1] * buffer_row_pitch + buffer_origin[0];
-  size_t host_offset = host_origin[2] * host_slice_pitch +
-                       host_origin[1] * host_row_pitch + host_origin[0];
-
   // Ensure buffer region valid
-  size_t end = buffer_offset + region[0] + (region[1] - 1) * buffer_row_pitch +
-               (region[2] - 1) * buffer_slice_pitch;
   if (end > buffer->size)
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
@@ -4450,6 +4446,32 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBufferRect(
   return CL_SUCCESS;
 }
 
+CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteBufferRect(
+  cl_command_queue command_queue, cl_mem buffer, cl_bool blocking_write,
+  const size_t* buffer_origin, const size_t* host_origin, const size_t* region,
+  size_t buffer_row_pitch, size_t buffer_slice_pitch, size_t host_row_pitch,
+  size_t host_slice_pitch, const void* ptr, cl_uint num_events_in_wait_list,
+  const cl_event* event_wait_list, cl_event* event) CL_API_SUFFIX__VERSION_1_1
+{
+  REGISTER_API;
+
+  // Check parameters
+  if (!command_queue)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
+  }
+  if (auto err = checkBuffer(command_queue, buffer, "buffer");
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
+
+  return enqueueWriteBufferRect(
+    command_queue, buffer, blocking_write, buffer_origin, host_origin, region,
+    buffer_row_pitch, buffer_slice_pitch, host_row_pitch, host_slice_pitch, ptr,
+    num_events_in_wait_list, event_wait_list, event);
+}
+
 CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBuffer(
   cl_command_queue command_queue, cl_mem src_buffer, cl_mem dst_buffer,
   size_t src_offset, size_t dst_offset, size_t cb,
@@ -4519,29 +4541,16 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBuffer(
   return CL_SUCCESS;
 }
 
-CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferRect(
+// Copy a rectangular region between buffers or images
+static cl_int enqueueCopyBufferRect(
   cl_command_queue command_queue, cl_mem src_buffer, cl_mem dst_buffer,
   const size_t* src_origin, const size_t* dst_origin, const size_t* region,
   size_t src_row_pitch, size_t src_slice_pitch, size_t dst_row_pitch,
   size_t dst_slice_pitch, cl_uint num_events_in_wait_list,
-  const cl_event* event_wait_list, cl_event* event) CL_API_SUFFIX__VERSION_1_1
+  const cl_event* event_wait_list, cl_event* event)
 {
-  REGISTER_API;
-
   // Check parameters
-  if (!command_queue)
-  {
-    ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
-  }
-  if (!src_buffer)
-  {
-    ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, src_buffer);
-  }
-  if (!dst_buffer)
-  {
-    ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, dst_buffer);
-  }
-  if (!region || region[0] == 0 || region[1] == 0 || region[2] == 0)
+  if (!isRegionValid(region))
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, region);
   }
@@ -4552,35 +4561,29 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferRect(
     return err;
   }
 
-  // Compute pitches if necessary
-  if (src_row_pitch == 0)
-  {
-    src_row_pitch = region[0];
-  }
-  if (src_slice_pitch == 0)
+  // Compute pitches if necessary, and ranges that will be accessed
+  size_t src_offset, src_end;
+  size_t dst_offset, dst_end;
+  if (!computeRect(src_origin, region, src_row_pitch, src_slice_pitch,
+                   src_offset, src_end))
   {
-    src_slice_pitch = region[1] * src_row_pitch;
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Invalid source origin, region or pitches");
   }
-  if (dst_row_pitch == 0)
+  if (!computeRect(dst_origin, region, dst_row_pitch, dst_slice_pitch,
+                   dst_offset, dst_end))
   {
-    dst_row_pitch = region[0];
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Invalid destination origin, region or pitches");
   }
-  if (dst_slice_pitch == 0)
+  if (src_buffer == dst_buffer && src_row_pitch != dst_row_pitch &&
+      src_slice_pitch != dst_slice_pitch)
   {
-    dst_slice_pitch = region[1] * dst_row_pitch;
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "Pitches differ when copying within a buffer");
   }
 
-  // Compute origin offsets
-  size_t src_offset = src_origin[2] * src_slice_pitch +
-                      src_origin[1] * src_row_pitch + src_origin[0];
-  size_t dst_offset = dst_origin[2] * dst_slice_pitch +
-                      dst_origin[1] * dst_row_pitch + dst_origin[0];
-
   // Ensure buffer region valid
-  size_t src_end = src_offset + region[0] + (region[1] - 1) * src_row_pitch +
-                   (region[2] - 1) * src_slice_pitch;
-  size_t dst_end = dst_offset + region[0] + (region[1] - 1) * dst_row_pitch +
-                   (region[2] - 1) * dst_slice_pitch;
   if (src_end > src_buffer->size)
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
@@ -4594,6 +4597,34 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferRect(
                       << dst_buffer->size << " bytes)");
   }
 
+  // Ensure source and destination do not overlap
+  size_t src_row = 0, dst_row = 0;
+  const size_t num_rows = region[1] * region[2];
+  while (src_buffer->address + src_end > dst_buffer->address + dst_offset &&
+         dst_buffer->address + dst_end > src_buffer->address + src_offset &&
+         src_row < num_rows && dst_row < num_rows)
+  {
+    size_t src_address = src_buffer->address + src_offset +
+                         (src_row / region[1]) * src_slice_pitch +
+                         (src_row % region[1]) * src_row_pitch;
+    size_t dst_address = dst_buffer->address + dst_offset +
+                         (dst_row / region[1]) * dst_slice_pitch +
+                         (dst_row % region[1]) * dst_row_pitch;
+    if (src_address + region[0] <= dst_address)
+    {
+      src_row++;
+    }
+    else if (dst_address + region[0] <= src_address)
+    {
+      dst_row++;
+    }
+    else
+    {
+      ReturnErrorInfo(command_queue->context, CL_MEM_COPY_OVERLAP,
+                      "Source and destination regions overlap");
+    }
+  }
+
   // Enqueue command
   oclgrind::CopyRectCommand* cmd = new oclgrind::CopyRectCommand();
   cmd->src = src_buffer->address;
@@ -4613,6 +4644,37 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferRect(
   return CL_SUCCESS;
 }
 
+CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferRect(
+  cl_command_queue command_queue, cl_mem src_buffer, cl_mem dst_buffer,
+  const size_t* src_origin, const size_t* dst_origin, const size_t* region,
+  size_t src_row_pitch, size_t src_slice_pitch, size_t dst_row_pitch,
+  size_t dst_slice_pitch, cl_uint num_events_in_wait_list,
+  const cl_event* event_wait_list, cl_event* event) CL_API_SUFFIX__VERSION_1_1
+{
+  REGISTER_API;
+
+  // Check parameters
+  if (!command_queue)
+  {
+    ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
+  }
+  if (auto err = checkBuffer(command_queue, src_buffer, "src_buffer");
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
+  if (auto err = checkBuffer(command_queue, dst_buffer, "dst_buffer");
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
+
+  return enqueueCopyBufferRect(
+    command_queue, src_buffer, dst_buffer, src_origin, dst_origin, region,
+    src_row_pitch, src_slice_pitch, dst_row_pitch, dst_slice_pitch,
+    num_events_in_wait_list, event_wait_list, event);
+}
+
 CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillBuffer(
   cl_command_queue command_queue, cl_mem buffer, const void* pattern,
   size_t pattern_size, size_t offset, size_t cb,
@@ -4901,7 +4963,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadImage(
   }
 
   // Enqueue read
-  cl_int ret = clEnqueueReadBufferRect(
+  cl_int ret = enqueueReadBufferRect(
     command_queue, image, blocking_read, buffer_origin, host_origin,
     pixel_region, img_row_pitch, img_slice_pitch, row_pitch, slice_pitch, ptr,
     num_events_in_wait_list, event_wait_list, event);
@@ -4955,7 +5017,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteImage(
   }
 
   // Enqueue write
-  cl_int ret = clEnqueueWriteBufferRect(
+  cl_int ret = enqueueWriteBufferRect(
     command_queue, image, blocking_write, buffer_origin, host_origin,
     pixel_region, img_row_pitch, img_slice_pitch, input_row_pitch,
     input_slice_pitch, ptr, num_events_in_wait_list, event_wait_list, event);
@@ -5024,7 +5086,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyImage(
   size_t dst_slice_pitch = dst->desc.image_height * dst_row_pitch;
 
   // Enqueue copy
-  cl_int ret = clEnqueueCopyBufferRect(
+  cl_int ret = enqueueCopyBufferRect(
     command_queue, src_image, dst_image, src_pixel_origin, dst_pixel_origin,
     pixel_region, src_row_pitch, src_slice_pitch, dst_row_pitch,
     dst_slice_pitch, num_events_in_wait_list, event_wait_list, event);
@@ -5074,7 +5136,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyImageToBuffer(
   size_t dst_origin[3] = {dst_offset, 0, 0};
 
   // Enqueue copy
-  cl_int ret = clEnqueueCopyBufferRect(
+  cl_int ret = enqueueCopyBufferRect(
     command_queue, src_image, dst_buffer, src_pixel_origin, dst_origin,
     pixel_region, src_row_pitch, src_slice_pitch, 0, 0, num_events_in_wait_list,
     event_wait_list, event);
@@ -5124,7 +5186,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferToImage(
   size_t src_origin[3] = {src_offset, 0, 0};
 
   // Enqueue copy
-  cl_int ret = clEnqueueCopyBufferRect(
+  cl_int ret = enqueueCopyBufferRect(
     command_queue, src_buffer, dst_image, src_origin, dst_pixel_origin,
     pixel_region, 0, 0, dst_row_pitch, dst_slice_pitch, num_events_in_wait_list,
     event_wait_list, event);
-- 
2.43.0


From b1c576fe7649ec8a558f95c3e7b779dd8cbaf2c5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:38:11 +0000
Subject: [PATCH 041/130] fix: check objects, contexts and regions of image
 commands

---
 src/runtime/runtime.cpp | 155 +++++++++++++++++++++++++++-------------
 1 file changed, 104 insertions(+), 51 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 62c252e..0ec0524 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1924,6 +1924,38 @@ size_t getPixelSize(const cl_image_format* format)
   }
 }
 
+// Check that a region is non-empty and lies within an image
+cl_int checkImageRegion(cl_command_queue queue, cl_mem image,
+                        const size_t* origin, const size_t* region)
+{
+  const cl_image_desc& desc = ((cl_image*)image)->desc;
+  size_t size[3] = {desc.image_width, desc.image_height, desc.image_depth};
+  if (desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
+    size[1] = desc.image_array_size;
+  if (desc.image_type == CL_MEM_OBJECT_IMAGE2D_ARRAY)
+    size[2] = desc.image_array_size;
+
+  if (!origin)
+  {
+    ReturnErrorArg(queue->context, CL_INVALID_VALUE, origin);
+  }
+  if (!isRegionValid(region))
+  {
+    ReturnErrorArg(queue->context, CL_INVALID_VALUE, region);
+  }
+  for (int i = 0; i < 3; i++)
+  {
+    if (!isRangeValid(origin[i], region[i], size[i]))
+    {
+      ReturnErrorInfo(queue->context, CL_INVALID_VALUE,
+                      "origin[" << i << "] + region[" << i << "] > " << size[i]
+                                << " (" << origin[i] << " + " << region[i]
+                                << ")");
+    }
+  }
+  return CL_SUCCESS;
+}
+
 bool isImageArray(cl_mem_object_type type)
 {
   if (type == CL_MEM_OBJECT_IMAGE1D_ARRAY ||
@@ -4754,18 +4786,19 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
-  if (!image)
+  if (auto err = checkImage(command_queue, image, "image");
+      err != CL_SUCCESS)
   {
-    ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, image);
+    return err;
   }
   if (!fill_color)
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, fill_color);
   }
-  if (!region[0] || !region[1] || !region[2])
+  if (auto err = checkImageRegion(command_queue, image, origin, region);
+      err != CL_SUCCESS)
   {
-    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                    "Values in region cannot be 0");
+    return err;
   }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
@@ -4778,40 +4811,10 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
   cl_image* img = (cl_image*)image;
   size_t width = img->desc.image_width;
   size_t height = img->desc.image_height;
-  size_t depth = img->desc.image_depth;
-  size_t arraySize = img->desc.image_array_size;
   size_t pixelSize = getPixelSize(&img->format);
   size_t row_pitch = width * pixelSize;
   size_t slice_pitch = height * row_pitch;
 
-  if (img->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
-    height = arraySize;
-  if (img->desc.image_type == CL_MEM_OBJECT_IMAGE2D_ARRAY)
-    depth = arraySize;
-
-  // Ensure region is within image bounds
-  if (origin[0] + region[0] > width)
-  {
-    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                    "origin[0] + region[0] > width ("
-                      << origin[0] << " + " << region[0] << " > " << width
-                      << " )");
-  }
-  if (origin[1] + region[1] > height)
-  {
-    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                    "origin[1] + region[1] > height ("
-                      << origin[1] << " + " << region[1] << " > " << height
-                      << " )");
-  }
-  if (origin[2] + region[2] > depth)
-  {
-    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                    "origin[2] + region[2] > depth ("
-                      << origin[2] << " + " << region[2] << " > " << depth
-                      << " )");
-  }
-
   // Generate color data with correct order and data type
   unsigned char* color = new unsigned char[pixelSize];
   for (unsigned output = 0; output < getNumChannels(&img->format); output++)
@@ -4933,9 +4936,15 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadImage(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
-  if (!image)
+  if (auto err = checkImage(command_queue, image, "image");
+      err != CL_SUCCESS)
   {
-    ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, image);
+    return err;
+  }
+  if (auto err = checkImageRegion(command_queue, image, origin, region);
+      err != CL_SUCCESS)
+  {
+    return err;
   }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
@@ -4951,6 +4960,12 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadImage(
   size_t pixel_region[3] = {region[0] * pixelSize, region[1], region[2]};
   size_t host_origin[3] = {0, 0, 0};
 
+  if (slice_pitch && img->desc.image_type != CL_MEM_OBJECT_IMAGE3D &&
+      !isImageArray(img->desc.image_type))
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, slice_pitch);
+  }
+
   size_t img_row_pitch = img->desc.image_width * pixelSize;
   size_t img_slice_pitch = img->desc.image_height * img_row_pitch;
   if (row_pitch == 0)
@@ -4987,9 +5002,15 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteImage(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
-  if (!image)
+  if (auto err = checkImage(command_queue, image, "image");
+      err != CL_SUCCESS)
   {
-    ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, image);
+    return err;
+  }
+  if (auto err = checkImageRegion(command_queue, image, origin, region);
+      err != CL_SUCCESS)
+  {
+    return err;
   }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
@@ -5005,6 +5026,12 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteImage(
   size_t pixel_region[3] = {region[0] * pixelSize, region[1], region[2]};
   size_t host_origin[3] = {0, 0, 0};
 
+  if (input_slice_pitch && img->desc.image_type != CL_MEM_OBJECT_IMAGE3D &&
+      !isImageArray(img->desc.image_type))
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, input_slice_pitch);
+  }
+
   size_t img_row_pitch = img->desc.image_width * pixelSize;
   size_t img_slice_pitch = img->desc.image_height * img_row_pitch;
   if (input_row_pitch == 0)
@@ -5041,13 +5068,15 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyImage(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
-  if (!src_image)
+  if (auto err = checkImage(command_queue, src_image, "src_image");
+      err != CL_SUCCESS)
   {
-    ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, src_image);
+    return err;
   }
-  if (!dst_image)
+  if (auto err = checkImage(command_queue, dst_image, "dst_image");
+      err != CL_SUCCESS)
   {
-    ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, dst_image);
+    return err;
   }
 
   cl_image* src = (cl_image*)src_image;
@@ -5064,6 +5093,16 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyImage(
                     "Channel data types do no match");
   }
 
+  if (auto err = checkImageRegion(command_queue, src_image, src_origin, region);
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
+  if (auto err = checkImageRegion(command_queue, dst_image, dst_origin, region);
+      err != CL_SUCCESS)
+  {
+    return err;
+  }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
       err != CL_SUCCESS)
@@ -5110,13 +5149,20 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyImageToBuffer(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
-  if (!src_image)
+  if (auto err = checkImage(command_queue, src_image, "src_image");
+      err != CL_SUCCESS)
   {
-    ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, src_image);
+    return err;
   }
-  if (!dst_buffer)
+  if (auto err = checkBuffer(command_queue, dst_buffer, "dst_buffer");
+      err != CL_SUCCESS)
   {
-    ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, dst_buffer);
+    return err;
+  }
+  if (auto err = checkImageRegion(command_queue, src_image, src_origin, region);
+      err != CL_SUCCESS)
+  {
+    return err;
   }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
@@ -5160,13 +5206,20 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferToImage(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
-  if (!src_buffer)
+  if (auto err = checkBuffer(command_queue, src_buffer, "src_buffer");
+      err != CL_SUCCESS)
   {
-    ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, src_buffer);
+    return err;
   }
-  if (!dst_image)
+  if (auto err = checkImage(command_queue, dst_image, "dst_image");
+      err != CL_SUCCESS)
   {
-    ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, dst_image);
+    return err;
+  }
+  if (auto err = checkImageRegion(command_queue, dst_image, dst_origin, region);
+      err != CL_SUCCESS)
+  {
+    return err;
   }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
-- 
2.43.0


From 66ce077b760ea5bf78255832f04f72cd982f4935 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:38:11 +0000
Subject: [PATCH 042/130] fix: check map flags and regions, and that unmapped
 pointers are mapped

---
 src/runtime/icd.h       |   1 +
 src/runtime/runtime.cpp | 130 ++++++++++++++++++++++++++--------------
 2 files changed, 87 insertions(+), 44 deletions(-)

diff --git a/src/runtime/icd.h b/src/runtime/icd.h
index b295360..6c0450d 100644
--- a/src/runtime/icd.h
+++ b/src/runtime/icd.h
@@ -198,6 +198,7 @@ struct _cl_mem
   bool isImage;
   void* hostPtr;
   std::stack<std::pair<void(CL_CALLBACK*)(cl_mem, void*), void*>> callbacks;
+  std::list<void*> mappings; // Pointers that have not yet been unmapped
   std::vector<cl_mem_properties> properties;
   unsigned int refCount;
 };
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 0ec0524..634d59c 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -291,6 +291,13 @@ cl_int checkImage(cl_command_queue queue, cl_mem image, const char* name)
   return err;
 }
 
+// Check that a combination of map flags is valid
+bool checkMapFlags(cl_map_flags flags)
+{
+  return flags == CL_MAP_WRITE_INVALIDATE_REGION ||
+         !(flags & ~(cl_map_flags)(CL_MAP_READ | CL_MAP_WRITE));
+}
+
 // Check that a range lies within an object (without overflowing)
 bool isRangeValid(size_t offset, size_t size, size_t limit)
 {
@@ -2145,6 +2152,9 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
   // Create image object wrapper
   cl_image* image = new cl_image;
   *(cl_mem)image = *mem;
+  image->callbacks = {};
+  image->mappings.clear();
+  image->properties.clear();
   image->isImage = true;
   image->format = *image_format;
   image->desc = *image_desc;
@@ -2459,7 +2469,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetMemObjectInfo(
     break;
   case CL_MEM_MAP_COUNT:
     result_size = sizeof(cl_uint);
-    result_data.cluint = 0;
+    result_data.cluint = memobj->mappings.size();
     break;
   case CL_MEM_REFERENCE_COUNT:
     result_size = sizeof(cl_uint);
@@ -5264,12 +5274,21 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapBuffer(
     SetErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
     return NULL;
   }
-  if (!buffer)
+  if (auto err = checkBuffer(command_queue, buffer, "buffer");
+      err != CL_SUCCESS)
+  {
+    if (errcode_ret)
+    {
+      *errcode_ret = err;
+    }
+    return NULL;
+  }
+  if (!checkMapFlags(map_flags))
   {
-    SetErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, buffer);
+    SetErrorArg(command_queue->context, CL_INVALID_VALUE, map_flags);
     return NULL;
   }
-  if (map_flags & CL_MAP_WRITE &&
+  if ((map_flags & (CL_MAP_WRITE | CL_MAP_WRITE_INVALIDATE_REGION)) &&
       buffer->flags & (CL_MEM_HOST_NO_ACCESS | CL_MEM_HOST_READ_ONLY))
   {
     SetErrorInfo(command_queue->context, CL_INVALID_OPERATION,
@@ -5295,7 +5314,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapBuffer(
   }
 
   // Check map region
-  if (offset + cb > buffer->size)
+  if (cb == 0 || !isRangeValid(offset, cb, buffer->size))
   {
     SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
                  "offset + cb (" << offset << " + " << cb
@@ -5328,6 +5347,10 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapBuffer(
   {
     err = waitForCommand(command_queue, cmd);
   }
+  if (err == CL_SUCCESS)
+  {
+    buffer->mappings.push_back(ptr);
+  }
 
   SetError(command_queue->context, err);
   return err == CL_SUCCESS ? ptr : NULL;
@@ -5348,9 +5371,18 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
     SetErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
     return NULL;
   }
-  if (!image)
+  if (auto err = checkImage(command_queue, image, "image");
+      err != CL_SUCCESS)
+  {
+    if (errcode_ret)
+    {
+      *errcode_ret = err;
+    }
+    return NULL;
+  }
+  if (!checkMapFlags(map_flags))
   {
-    SetErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, image);
+    SetErrorArg(command_queue->context, CL_INVALID_VALUE, map_flags);
     return NULL;
   }
   if (!image_row_pitch)
@@ -5358,7 +5390,7 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
     SetErrorArg(command_queue->context, CL_INVALID_VALUE, image_row_pitch);
     return NULL;
   }
-  if (map_flags & CL_MAP_WRITE &&
+  if ((map_flags & (CL_MAP_WRITE | CL_MAP_WRITE_INVALIDATE_REGION)) &&
       image->flags & (CL_MEM_HOST_NO_ACCESS | CL_MEM_HOST_READ_ONLY))
   {
     SetErrorInfo(command_queue->context, CL_INVALID_OPERATION,
@@ -5372,10 +5404,21 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
                  "Image flags specify host will not read data");
     return NULL;
   }
-  if (!region[0] || !region[1] || !region[2])
+  if (!image_slice_pitch &&
+      (((cl_image*)image)->desc.image_type == CL_MEM_OBJECT_IMAGE3D ||
+       isImageArray(((cl_image*)image)->desc.image_type)))
   {
-    SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                 "Values in region cannot be 0");
+    SetErrorArg(command_queue->context, CL_INVALID_VALUE, image_slice_pitch);
+    return NULL;
+  }
+  if (auto err = checkImageRegion(command_queue, image, origin, region);
+      err != CL_SUCCESS)
+  {
+    if (errcode_ret)
+    {
+      *errcode_ret = err;
+    }
+    return NULL;
   }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
@@ -5392,40 +5435,10 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
   cl_image* img = (cl_image*)image;
   size_t width = img->desc.image_width;
   size_t height = img->desc.image_height;
-  size_t depth = img->desc.image_depth;
-  size_t arraySize = img->desc.image_array_size;
   size_t pixelSize = getPixelSize(&img->format);
   size_t row_pitch = width * pixelSize;
   size_t slice_pitch = height * row_pitch;
 
-  if (img->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
-    height = arraySize;
-  if (img->desc.image_type == CL_MEM_OBJECT_IMAGE2D_ARRAY)
-    depth = arraySize;
-
-  // Ensure region is within image bounds
-  if (origin[0] + region[0] > width)
-  {
-    SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                 "origin[0] + region[0] > width ("
-                   << origin[0] << " + " << region[0] << " > " << width
-                   << " )");
-  }
-  if (origin[1] + region[1] > height)
-  {
-    SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                 "origin[1] + region[1] > height ("
-                   << origin[1] << " + " << region[1] << " > " << height
-                   << " )");
-  }
-  if (origin[2] + region[2] > depth)
-  {
-    SetErrorInfo(command_queue->context, CL_INVALID_VALUE,
-                 "origin[2] + region[2] > depth ("
-                   << origin[2] << " + " << region[2] << " > " << depth
-                   << " )");
-  }
-
   // Compute byte offset and size
   size_t offset =
     origin[0] * pixelSize + origin[1] * row_pitch + origin[2] * slice_pitch;
@@ -5462,6 +5475,10 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
   {
     err = waitForCommand(command_queue, cmd);
   }
+  if (err == CL_SUCCESS)
+  {
+    image->mappings.push_back(ptr);
+  }
 
   SetError(command_queue->context, err);
   return err == CL_SUCCESS ? ptr : NULL;
@@ -5479,11 +5496,14 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueUnmapMemObject(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
-  if (!memobj)
+  if (auto err = checkMemObject(command_queue, memobj, "memobj");
+      err != CL_SUCCESS)
   {
-    ReturnErrorArg(command_queue->context, CL_INVALID_MEM_OBJECT, memobj);
+    return err;
   }
-  if (!mapped_ptr)
+  auto mapping =
+    find(memobj->mappings.begin(), memobj->mappings.end(), mapped_ptr);
+  if (mapping == memobj->mappings.end())
   {
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, mapped_ptr);
   }
@@ -5498,6 +5518,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueUnmapMemObject(
   oclgrind::UnmapCommand* cmd = new oclgrind::UnmapCommand();
   cmd->address = memobj->address;
   cmd->ptr = mapped_ptr;
+  memobj->mappings.erase(mapping);
   asyncQueueRetain(cmd, memobj);
   asyncEnqueue(command_queue, CL_COMMAND_UNMAP_MEM_OBJECT, cmd,
                num_events_in_wait_list, event_wait_list, event);
@@ -5518,6 +5539,27 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueMigrateMemObjects(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
+  if (num_mem_objects == 0)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, num_mem_objects);
+  }
+  if (!mem_objects)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, mem_objects);
+  }
+  if (flags & ~(cl_mem_migration_flags)(CL_MIGRATE_MEM_OBJECT_HOST |
+                                        CL_MIGRATE_MEM_OBJECT_CONTENT_UNDEFINED))
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, flags);
+  }
+  for (cl_uint i = 0; i < num_mem_objects; i++)
+  {
+    if (auto err = checkMemObject(command_queue, mem_objects[i], "mem_objects");
+        err != CL_SUCCESS)
+    {
+      return err;
+    }
+  }
   if (auto err = checkEventWaitList(command_queue->context,
                                     num_events_in_wait_list, event_wait_list);
       err != CL_SUCCESS)
-- 
2.43.0


From 72957e12d81f0dbd338c6386a3b661dd53a8a81e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:42:02 +0000
Subject: [PATCH 043/130] fix: check the kernel, context, offset and work-group
 size of enqueued kernels

---
 src/runtime/runtime.cpp | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 634d59c..cfda785 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5588,6 +5588,15 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueNDRangeKernel(
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
+  if (!kernel)
+  {
+    ReturnErrorArg(command_queue->context, CL_INVALID_KERNEL, kernel);
+  }
+  if (kernel->program->context != command_queue->context)
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_CONTEXT,
+                    "kernel and command_queue have different contexts");
+  }
   if (work_dim < 1 || work_dim > 3)
   {
     ReturnErrorInfo(
@@ -5614,6 +5623,18 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueNDRangeKernel(
   kernel->kernel->getRequiredWorkGroupSize(reqdWorkGroupSize);
   for (unsigned i = 0; i < work_dim; i++)
   {
+    if (local_work_size && local_work_size[i] == 0)
+    {
+      ReturnErrorInfo(command_queue->context, CL_INVALID_WORK_GROUP_SIZE,
+                      "local_work_size[" << i << "] is zero");
+    }
+    if (global_work_offset &&
+        global_work_offset[i] + global_work_size[i] < global_work_offset[i])
+    {
+      ReturnErrorInfo(command_queue->context, CL_INVALID_GLOBAL_OFFSET,
+                      "global_work_offset[" << i << "]+global_work_size[" << i
+                                            << "] exceeds the range of size_t");
+    }
     if (kernel->kernel->requiresUniformWorkGroups() && local_work_size &&
         global_work_size[i] % local_work_size[i])
     {
@@ -5643,6 +5664,16 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueNDRangeKernel(
                         << "]=" << reqdWorkGroupSize[i])
     }
   }
+  for (unsigned i = work_dim; i < 3; i++)
+  {
+    if (local_work_size && reqdWorkGroupSize[i] > 1)
+    {
+      ReturnErrorInfo(command_queue->context, CL_INVALID_WORK_GROUP_SIZE,
+                      "work_dim=" << work_dim
+                                  << " does not match reqd_work_group_size["
+                                  << i << "]=" << reqdWorkGroupSize[i])
+    }
+  }
   if (totalWGSize > m_device->maxWGSize)
   {
     ReturnErrorInfo(command_queue->context, CL_INVALID_WORK_GROUP_SIZE,
-- 
2.43.0


From 693d8098c32ff94ebd712a1350d308dc512f2874 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:42:02 +0000
Subject: [PATCH 044/130] fix: leave the caller's arguments of native kernels
 as they are

---
 src/runtime/runtime.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index cfda785..b9ccdea 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5807,8 +5807,9 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueNativeKernel(
     return err;
   }
 
-  // Replace mem objects with real pointers
+  // Find the real pointers of mem objects
   oclgrind::Memory* memory = command_queue->context->context->getGlobalMemory();
+  std::vector<void*> pointers;
   for (unsigned i = 0; i < num_mem_objects; i++)
   {
     if (!mem_list[i])
@@ -5823,13 +5824,27 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueNativeKernel(
       ReturnErrorInfo(command_queue->context, CL_INVALID_MEM_OBJECT,
                       "Memory object " << i << " not valid");
     }
-    memcpy((void*)args_mem_loc[i], &addr, sizeof(void*));
+    size_t loc = (size_t)args_mem_loc[i] - (size_t)args;
+    if (args_mem_loc[i] < args || cb_args < sizeof(void*) ||
+        loc > cb_args - sizeof(void*))
+    {
+      ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                      "args_mem_loc[" << i << "] is not a location in args");
+    }
+    pointers.push_back(addr);
   }
 
   // Create command
   oclgrind::NativeKernelCommand* cmd =
     new oclgrind::NativeKernelCommand(user_func, args, cb_args);
 
+  // Replace mem objects in the copy of the arguments that was made
+  for (unsigned i = 0; i < num_mem_objects; i++)
+  {
+    size_t loc = (size_t)args_mem_loc[i] - (size_t)args;
+    memcpy((unsigned char*)cmd->args + loc, &pointers[i], sizeof(void*));
+  }
+
   // Retain memory objects
   for (unsigned i = 0; i < num_mem_objects; i++)
   {
-- 
2.43.0


From 680ae85191e5b08d4819958f7aa9eefd47304302 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:42:02 +0000
Subject: [PATCH 045/130] fix: check the events passed to clWaitForEvents and
 clEnqueueWaitForEvents

---
 src/runtime/runtime.cpp | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index b9ccdea..ec892ef 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3836,6 +3836,18 @@ CL_API_ENTRY cl_int CL_API_CALL clWaitForEvents(
   {
     ReturnErrorInfo(NULL, CL_INVALID_VALUE, "event_list cannot be NULL");
   }
+  for (unsigned i = 0; i < num_events; i++)
+  {
+    if (!event_list[i])
+    {
+      ReturnErrorInfo(NULL, CL_INVALID_EVENT, "Event " << i << " is NULL");
+    }
+    if (event_list[i]->context != event_list[0]->context)
+    {
+      ReturnErrorInfo(event_list[0]->context, CL_INVALID_CONTEXT,
+                      "Event " << i << " has a different context");
+    }
+  }
 
   // Loop until all events complete
   bool complete = false;
@@ -5949,6 +5961,24 @@ clEnqueueWaitForEvents(cl_command_queue command_queue, cl_uint num_events,
   {
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
+  if (num_events == 0 || !event_list)
+  {
+    ReturnErrorInfo(command_queue->context, CL_INVALID_VALUE,
+                    "num_events is 0 or event_list is NULL");
+  }
+  for (cl_uint i = 0; i < num_events; i++)
+  {
+    if (!event_list[i])
+    {
+      ReturnErrorInfo(command_queue->context, CL_INVALID_EVENT,
+                      "Event " << i << " is NULL");
+    }
+    if (event_list[i]->context != command_queue->context)
+    {
+      ReturnErrorInfo(command_queue->context, CL_INVALID_CONTEXT,
+                      "Event " << i << " has a different context");
+    }
+  }
 
   // Enqueue command
   oclgrind::Command* cmd = new oclgrind::Command();
-- 
2.43.0


From 54e0ce3832738e51b806139e4a3295c8a2a54d4c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:42:02 +0000
Subject: [PATCH 046/130] fix: reject repeated sampler properties and set the
 sampler's reference count

---
 src/runtime/runtime.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index ec892ef..57f986d 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -6474,6 +6474,16 @@ CL_API_ENTRY cl_sampler CL_API_CALL clCreateSamplerWithProperties(
   unsigned i = 0;
   while (sampler_properties && sampler_properties[i])
   {
+    // Each property may be specified only once
+    for (unsigned j = 0; j < i; j += 2)
+    {
+      if (sampler_properties[j] == sampler_properties[i])
+      {
+        SetErrorArg(context, CL_INVALID_VALUE, sampler_properties);
+        return NULL;
+      }
+    }
+
     switch (sampler_properties[i++])
     {
     case CL_SAMPLER_NORMALIZED_COORDS:
@@ -6543,6 +6553,7 @@ CL_API_ENTRY cl_sampler CL_API_CALL clCreateSamplerWithProperties(
   sampler->addressMode = addressing_mode;
   sampler->filterMode = filter_mode;
   sampler->sampler = bitfield;
+  sampler->refCount = 1;
   if (sampler_properties)
   {
     sampler->properties.assign(sampler_properties,
-- 
2.43.0


From 8d0fab72a8521907aff5c7958b2ed07e34321920 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:42:02 +0000
Subject: [PATCH 047/130] fix: check the programs, headers, devices and
 attached kernels of program calls

---
 src/core/Program.cpp    |   4 ++
 src/runtime/icd.h       |   1 +
 src/runtime/runtime.cpp | 117 ++++++++++++++++++++++++++++++++++------
 3 files changed, 106 insertions(+), 16 deletions(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index 404bc8f..313213e 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -291,6 +291,10 @@ bool Program::build(BuildType buildType, const char* options,
   if (m_source.empty() && m_module)
   {
     m_buildStatus = CL_BUILD_SUCCESS;
+    if (buildType == BUILD)
+    {
+      m_binaryType = CL_PROGRAM_BINARY_TYPE_EXECUTABLE;
+    }
 
     allocateProgramScopeVars();
 
diff --git a/src/runtime/icd.h b/src/runtime/icd.h
index 6c0450d..95a6867 100644
--- a/src/runtime/icd.h
+++ b/src/runtime/icd.h
@@ -214,6 +214,7 @@ struct _cl_program
   void* dispatch;
   oclgrind::Program* program;
   cl_context context;
+  unsigned int numKernels; // Kernel objects attached to this program
   unsigned int refCount;
 };
 
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 57f986d..3b12d32 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -291,6 +291,13 @@ cl_int checkImage(cl_command_queue queue, cl_mem image, const char* name)
   return err;
 }
 
+// Check that kernels can be created from a program
+bool isExecutable(cl_program program)
+{
+  return program->program->getBuildStatus() == CL_BUILD_SUCCESS &&
+         program->program->getBinaryType() == CL_PROGRAM_BINARY_TYPE_EXECUTABLE;
+}
+
 // Check that a combination of map flags is valid
 bool checkMapFlags(cl_map_flags flags)
 {
@@ -2833,11 +2840,19 @@ CL_API_ENTRY cl_program CL_API_CALL clCreateProgramWithSource(
     SetErrorArg(context, CL_INVALID_VALUE, count);
     return NULL;
   }
-  if (!strings || !strings[0])
+  if (!strings)
   {
     SetErrorArg(context, CL_INVALID_VALUE, strings);
     return NULL;
   }
+  for (unsigned i = 0; i < count; i++)
+  {
+    if (!strings[i])
+    {
+      SetErrorArg(context, CL_INVALID_VALUE, strings[i]);
+      return NULL;
+    }
+  }
 
   // Concatenate sources into a single string
   std::string source;
@@ -2848,7 +2863,7 @@ CL_API_ENTRY cl_program CL_API_CALL clCreateProgramWithSource(
   }
 
   // Create program object
-  cl_program prog = new _cl_program;
+  cl_program prog = new _cl_program();
   prog->dispatch = m_dispatchTable;
   prog->program = new oclgrind::Program(context->context, source);
   prog->context = context;
@@ -2899,9 +2914,18 @@ CL_API_ENTRY cl_program CL_API_CALL clCreateProgramWithBinary(
     SetErrorArg(context, CL_INVALID_DEVICE, device_list);
     return NULL;
   }
+  if (!lengths[0] || !binaries[0])
+  {
+    SetErrorInfo(context, CL_INVALID_VALUE, "binary is NULL or empty");
+    if (binary_status)
+    {
+      binary_status[0] = CL_INVALID_VALUE;
+    }
+    return NULL;
+  }
 
   // Create program object
-  cl_program prog = new _cl_program;
+  cl_program prog = new _cl_program();
   prog->dispatch = m_dispatchTable;
   prog->program = oclgrind::Program::createFromBitcode(context->context,
                                                        binaries[0], lengths[0]);
@@ -3005,9 +3029,14 @@ CL_API_ENTRY cl_int CL_API_CALL clBuildProgram(
     ReturnErrorInfo(program->context, CL_INVALID_VALUE,
                     "pfn_notify NULL but user_data non-NULL");
   }
-  if (device_list && !device_list[0])
+  if (num_devices > 1 || (device_list && device_list[0] != m_device))
+  {
+    ReturnErrorArg(program->context, CL_INVALID_DEVICE, device_list);
+  }
+  if (program->numKernels)
   {
-    ReturnErrorArg(program->context, CL_INVALID_DEVICE, device);
+    ReturnErrorInfo(program->context, CL_INVALID_OPERATION,
+                    "There are kernel objects attached to program");
   }
 
   // Build program
@@ -3064,9 +3093,32 @@ CL_API_ENTRY cl_int CL_API_CALL clCompileProgram(
     ReturnErrorInfo(program->context, CL_INVALID_VALUE,
                     "pfn_notify NULL but user_data non-NULL");
   }
-  if (device_list && !device_list[0])
+  if (num_devices > 1 || (device_list && device_list[0] != m_device))
   {
-    ReturnErrorArg(program->context, CL_INVALID_DEVICE, device);
+    ReturnErrorArg(program->context, CL_INVALID_DEVICE, device_list);
+  }
+  if (program->numKernels)
+  {
+    ReturnErrorInfo(program->context, CL_INVALID_OPERATION,
+                    "There are kernel objects attached to program");
+  }
+  if (num_input_headers ? !input_headers || !header_include_names
+                        : input_headers || header_include_names)
+  {
+    ReturnErrorInfo(program->context, CL_INVALID_VALUE,
+                    "num_input_headers does not match the lists of headers");
+  }
+  for (unsigned i = 0; i < num_input_headers; i++)
+  {
+    if (!header_include_names[i])
+    {
+      ReturnErrorArg(program->context, CL_INVALID_VALUE,
+                     header_include_names[i]);
+    }
+    if (!input_headers[i])
+    {
+      ReturnErrorArg(program->context, CL_INVALID_PROGRAM, input_headers[i]);
+    }
   }
 
   // Prepare headers
@@ -3078,10 +3130,8 @@ CL_API_ENTRY cl_int CL_API_CALL clCompileProgram(
   }
 
   // Build program
-  if (!program->program->build(oclgrind::Program::COMPILE, options, headers))
-  {
-    ReturnError(program->context, CL_BUILD_PROGRAM_FAILURE);
-  }
+  bool success =
+    program->program->build(oclgrind::Program::COMPILE, options, headers);
 
   // Fire callback
   if (pfn_notify)
@@ -3089,6 +3139,11 @@ CL_API_ENTRY cl_int CL_API_CALL clCompileProgram(
     pfn_notify(program, user_data);
   }
 
+  if (!success)
+  {
+    ReturnError(program->context, CL_COMPILE_PROGRAM_FAILURE);
+  }
+
   return CL_SUCCESS;
 }
 
@@ -3125,11 +3180,31 @@ clLinkProgram(cl_context context, cl_uint num_devices,
                  "pfn_notify NULL but user_data non-NULL");
     return NULL;
   }
-  if (device_list && !device_list[0])
+  if (num_devices > 1 || (device_list && device_list[0] != m_device))
   {
     SetErrorArg(context, CL_INVALID_DEVICE, device_list);
     return NULL;
   }
+  if (num_input_programs == 0 || !input_programs)
+  {
+    SetErrorInfo(context, CL_INVALID_VALUE,
+                 "num_input_programs is 0 or input_programs is NULL");
+    return NULL;
+  }
+  for (unsigned i = 0; i < num_input_programs; i++)
+  {
+    if (!input_programs[i])
+    {
+      SetErrorArg(context, CL_INVALID_PROGRAM, input_programs[i]);
+      return NULL;
+    }
+    if (input_programs[i]->program->getBuildStatus() != CL_BUILD_SUCCESS)
+    {
+      SetErrorInfo(context, CL_INVALID_OPERATION,
+                   "Program " << i << " has not been compiled");
+      return NULL;
+    }
+  }
 
   // Prepare programs
   list<const oclgrind::Program*> programs;
@@ -3139,7 +3214,7 @@ clLinkProgram(cl_context context, cl_uint num_devices,
   }
 
   // Create program object
-  cl_program prog = new _cl_program;
+  cl_program prog = new _cl_program();
   prog->dispatch = m_dispatchTable;
   prog->program =
     oclgrind::Program::createFromPrograms(context->context, programs, options);
@@ -3147,7 +3222,7 @@ clLinkProgram(cl_context context, cl_uint num_devices,
   prog->refCount = 1;
   if (!prog->program)
   {
-    SetError(context, CL_INVALID_BINARY);
+    SetError(context, CL_LINK_PROGRAM_FAILURE);
     delete prog;
     return NULL;
   }
@@ -3362,11 +3437,17 @@ clCreateKernel(cl_program program, const char* kernel_name,
   REGISTER_API;
 
   // Check parameters
-  if (program->dispatch != m_dispatchTable)
+  if (!program || program->dispatch != m_dispatchTable)
   {
     SetError(NULL, CL_INVALID_PROGRAM);
     return NULL;
   }
+  if (!isExecutable(program))
+  {
+    SetErrorInfo(program->context, CL_INVALID_PROGRAM_EXECUTABLE,
+                 "Program not built");
+    return NULL;
+  }
   if (!kernel_name)
   {
     SetErrorArg(program->context, CL_INVALID_VALUE, kernel_name);
@@ -3388,6 +3469,7 @@ clCreateKernel(cl_program program, const char* kernel_name,
   }
 
   clRetainProgram(program);
+  program->numKernels++;
 
   SetError(program->context, CL_SUCCESS);
   return kernel;
@@ -3404,7 +3486,7 @@ CL_API_ENTRY cl_int CL_API_CALL clCreateKernelsInProgram(
   {
     ReturnErrorArg(NULL, CL_INVALID_PROGRAM, program);
   }
-  if (program->program->getBuildStatus() != CL_BUILD_SUCCESS)
+  if (!isExecutable(program))
   {
     ReturnErrorInfo(program->context, CL_INVALID_PROGRAM_EXECUTABLE,
                     "Program not built");
@@ -3432,6 +3514,7 @@ CL_API_ENTRY cl_int CL_API_CALL clCreateKernelsInProgram(
       kernels[i++] = kernel;
 
       clRetainProgram(program);
+      program->numKernels++;
     }
   }
 
@@ -3478,6 +3561,7 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseKernel(cl_kernel kernel)
 
     delete kernel->kernel;
 
+    kernel->program->numKernels--;
     clReleaseProgram(kernel->program);
 
     delete kernel;
@@ -6612,6 +6696,7 @@ CL_API_ENTRY cl_kernel CL_API_CALL clCloneKernel(
   kernel->refCount = 1;
 
   clRetainProgram(kernel->program);
+  kernel->program->numKernels++;
 
   SetError(nullptr, CL_SUCCESS);
   return kernel;
-- 
2.43.0


From f153eb0f6c44492d9d74474d96f6daa1abccba1b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:42:02 +0000
Subject: [PATCH 048/130] fix: check the values of kernel arguments before
 setting them

---
 src/runtime/runtime.cpp | 53 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 44 insertions(+), 9 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 3b12d32..072c941 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3602,6 +3602,50 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
                                    << " bytes");
   }
 
+  bool isImage = kernel->kernel->getArgumentAccessQualifier(arg_index) !=
+                 CL_KERNEL_ARG_ACCESS_NONE;
+  if (addr == CL_KERNEL_ARG_ADDRESS_LOCAL)
+  {
+    if (arg_size == 0)
+    {
+      ReturnErrorInfo(kernel->program->context, CL_INVALID_ARG_SIZE,
+                      "arg_size is 0 for a local argument");
+    }
+    if (arg_value)
+    {
+      ReturnErrorInfo(kernel->program->context, CL_INVALID_ARG_VALUE,
+                      "arg_value is not NULL for a local argument");
+    }
+  }
+  else if (isSampler)
+  {
+    if (arg_size != sizeof(cl_sampler))
+    {
+      ReturnError(kernel->program->context, CL_INVALID_ARG_SIZE);
+    }
+    if (!arg_value || !*(cl_sampler*)arg_value)
+    {
+      ReturnError(kernel->program->context, CL_INVALID_SAMPLER);
+    }
+  }
+  else if (addr == CL_KERNEL_ARG_ADDRESS_PRIVATE)
+  {
+    if (!arg_value)
+    {
+      ReturnErrorArg(kernel->program->context, CL_INVALID_ARG_VALUE, arg_value);
+    }
+  }
+  else
+  {
+    cl_mem mem = arg_value ? *(cl_mem*)arg_value : NULL;
+    if (mem ? mem->isImage != isImage : isImage)
+    {
+      ReturnErrorInfo(kernel->program->context, CL_INVALID_MEM_OBJECT,
+                      "argument requires " << (isImage ? "an image"
+                                                       : "a buffer"));
+    }
+  }
+
   // Prepare argument value
   oclgrind::TypedValue value;
   value.data = new unsigned char[arg_size];
@@ -3612,15 +3656,6 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
   case CL_KERNEL_ARG_ADDRESS_PRIVATE:
     if (isSampler)
     {
-      if (!arg_value)
-      {
-        ReturnError(kernel->program->context, CL_INVALID_SAMPLER);
-        return CL_INVALID_SAMPLER;
-      }
-      if (arg_size != sizeof(cl_sampler))
-      {
-        ReturnError(kernel->program->context, CL_INVALID_ARG_SIZE);
-      }
       memcpy(value.data, &(*(cl_sampler*)arg_value)->sampler, 4);
     }
     else
-- 
2.43.0


From f5dc6166be5a3c2173aa266c18b9929ff8390e87 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:44:17 +0000
Subject: [PATCH 049/130] fix: transfer regions of several images of a 1D image
 array

---
 src/runtime/runtime.cpp | 43 +++++++++++++++++++++++++++++++++++------
 1 file changed, 37 insertions(+), 6 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 072c941..290a90d 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1938,6 +1938,15 @@ size_t getPixelSize(const cl_image_format* format)
   }
 }
 
+// Get the distance in bytes between the slices of an image
+size_t getSlicePitch(const cl_image* image, size_t rowPitch)
+{
+  // The rows of a slice of a 1D image array are its images
+  return image->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY
+           ? image->desc.image_array_size * rowPitch
+           : image->desc.image_height * rowPitch;
+}
+
 // Check that a region is non-empty and lies within an image
 cl_int checkImageRegion(cl_command_queue queue, cl_mem image,
                         const size_t* origin, const size_t* region)
@@ -5108,7 +5117,18 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadImage(
   }
 
   size_t img_row_pitch = img->desc.image_width * pixelSize;
-  size_t img_slice_pitch = img->desc.image_height * img_row_pitch;
+  size_t img_slice_pitch = getSlicePitch(img, img_row_pitch);
+  if (slice_pitch && img->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
+  {
+    // The slices are the rows of the rectangle that is transferred
+    if ((row_pitch && row_pitch < pixel_region[0]) ||
+        slice_pitch < row_pitch)
+    {
+      ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, slice_pitch);
+    }
+    row_pitch = slice_pitch;
+    slice_pitch = 0;
+  }
   if (row_pitch == 0)
   {
     row_pitch = pixel_region[0];
@@ -5174,7 +5194,18 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteImage(
   }
 
   size_t img_row_pitch = img->desc.image_width * pixelSize;
-  size_t img_slice_pitch = img->desc.image_height * img_row_pitch;
+  size_t img_slice_pitch = getSlicePitch(img, img_row_pitch);
+  if (input_slice_pitch && img->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
+  {
+    // The slices are the rows of the rectangle that is transferred
+    if ((input_row_pitch && input_row_pitch < pixel_region[0]) ||
+        input_slice_pitch < input_row_pitch)
+    {
+      ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, input_slice_pitch);
+    }
+    input_row_pitch = input_slice_pitch;
+    input_slice_pitch = 0;
+  }
   if (input_row_pitch == 0)
   {
     input_row_pitch = pixel_region[0];
@@ -5261,9 +5292,9 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyImage(
   size_t pixel_region[3] = {region[0] * srcPixelSize, region[1], region[2]};
 
   size_t src_row_pitch = src->desc.image_width * srcPixelSize;
-  size_t src_slice_pitch = src->desc.image_height * src_row_pitch;
+  size_t src_slice_pitch = getSlicePitch(src, src_row_pitch);
   size_t dst_row_pitch = dst->desc.image_width * dstPixelSize;
-  size_t dst_slice_pitch = dst->desc.image_height * dst_row_pitch;
+  size_t dst_slice_pitch = getSlicePitch(dst, dst_row_pitch);
 
   // Enqueue copy
   cl_int ret = enqueueCopyBufferRect(
@@ -5317,7 +5348,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyImageToBuffer(
   size_t src_pixel_origin[3] = {src_origin[0] * pixel_size, src_origin[1],
                                 src_origin[2]};
   size_t src_row_pitch = src->desc.image_width * pixel_size;
-  size_t src_slice_pitch = src->desc.image_height * src_row_pitch;
+  size_t src_slice_pitch = getSlicePitch(src, src_row_pitch);
 
   size_t pixel_region[3] = {region[0] * pixel_size, region[1], region[2]};
   size_t dst_origin[3] = {dst_offset, 0, 0};
@@ -5374,7 +5405,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferToImage(
   size_t dst_pixel_origin[3] = {dst_origin[0] * pixel_size, dst_origin[1],
                                 dst_origin[2]};
   size_t dst_row_pitch = dst->desc.image_width * pixel_size;
-  size_t dst_slice_pitch = dst->desc.image_height * dst_row_pitch;
+  size_t dst_slice_pitch = getSlicePitch(dst, dst_row_pitch);
 
   size_t pixel_region[3] = {region[0] * pixel_size, region[1], region[2]};
   size_t src_origin[3] = {src_offset, 0, 0};
-- 
2.43.0


From 0d05b05a4d6dfe9b75f7d1e21b61819095b5e604 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:53:28 +0000
Subject: [PATCH 050/130] fix: return kernel attributes and empty argument
 strings from valid memory

---
 src/runtime/runtime.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 290a90d..1b3e9d5 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3739,6 +3739,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelInfo(
     cl_program program;
   } result_data;
   const char* str = 0;
+  std::string attributes;
 
   switch (param_name)
   {
@@ -3763,8 +3764,9 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelInfo(
     result_data.program = kernel->program;
     break;
   case CL_KERNEL_ATTRIBUTES:
-    result_size = kernel->kernel->getAttributes().size() + 1;
-    str = kernel->kernel->getAttributes().c_str();
+    attributes = kernel->kernel->getAttributes();
+    result_size = attributes.size() + 1;
+    str = attributes.c_str();
     break;
   default:
     ReturnErrorArg(kernel->program->context, CL_INVALID_VALUE, param_name);
@@ -3819,6 +3821,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelArgInfo(
     cl_kernel_arg_type_qualifier typeQual;
   } result_data;
 
+  bool is_str = false;
   std::string str_data;
 
   switch (param_name)
@@ -3835,6 +3838,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelArgInfo(
     break;
   case CL_KERNEL_ARG_TYPE_NAME:
     str_data = kernel->kernel->getArgumentTypeName(arg_indx).str();
+    is_str = true;
     result_size = str_data.size() + 1;
     break;
   case CL_KERNEL_ARG_TYPE_QUALIFIER:
@@ -3843,6 +3847,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelArgInfo(
     break;
   case CL_KERNEL_ARG_NAME:
     str_data = kernel->kernel->getArgumentName(arg_indx).str();
+    is_str = true;
     result_size = str_data.size() + 1;
     break;
   default:
@@ -3858,7 +3863,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetKernelArgInfo(
                       ParamValueSizeTooSmall);
     }
 
-    if (str_data.size())
+    if (is_str)
       memcpy(param_value, str_data.c_str(), result_size);
     else
       memcpy(param_value, &result_data, result_size);
-- 
2.43.0


From 5aed8f6d1bfd7e25f54f91a62ed5c9766cffccde Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:53:37 +0000
Subject: [PATCH 051/130] fix: count only a kernel's own local variables in its
 local memory size

---
 src/core/Kernel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Kernel.cpp b/src/core/Kernel.cpp
index 84af079..9a76c74 100644
--- a/src/core/Kernel.cpp
+++ b/src/core/Kernel.cpp
@@ -51,7 +51,7 @@ Kernel::Kernel(const Program* program, const llvm::Function* function,
     case AddrSpaceLocal:
     {
       // Check that local memory variable belongs to this kernel
-      if (!itr->getName().starts_with(m_name))
+      if (!itr->getName().starts_with(m_name + "."))
         continue;
 
       // Get size of allocation
-- 
2.43.0


From 2abb9f46e920ea303799fa54359fa463bf9b876f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:53:37 +0000
Subject: [PATCH 052/130] fix: describe vec_type_hint with the OpenCL type name

---
 src/core/Kernel.cpp | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/core/Kernel.cpp b/src/core/Kernel.cpp
index 9a76c74..5499ce7 100644
--- a/src/core/Kernel.cpp
+++ b/src/core/Kernel.cpp
@@ -357,14 +357,44 @@ string Kernel::getAttributes() const
     }
 
     // Generate attribute string
-    attributes << "vec_type_hint(" << flush;
-    llvm::raw_os_ostream out(attributes);
-    type->print(out);
-    out.flush();
-    attributes << n << ") ";
+    attributes << "vec_type_hint(";
+    if (type->isIntegerTy())
+    {
+      if (getMDAsConstInt(node->getOperand(1))->isZero())
+        attributes << "u";
+      switch (type->getIntegerBitWidth())
+      {
+      case 8:
+        attributes << "char";
+        break;
+      case 16:
+        attributes << "short";
+        break;
+      case 32:
+        attributes << "int";
+        break;
+      default:
+        attributes << "long";
+        break;
+      }
+    }
+    else
+    {
+      attributes << flush;
+      llvm::raw_os_ostream out(attributes);
+      type->print(out);
+      out.flush();
+    }
+    if (n > 1)
+      attributes << n;
+    attributes << ") ";
   }
 
-  return attributes.str();
+  // Remove trailing separator
+  string result = attributes.str();
+  if (!result.empty())
+    result.pop_back();
+  return result;
 }
 
 const llvm::Function* Kernel::getFunction() const
-- 
2.43.0


From d5679b6e19dd1c7ab52ce86caab96400ecc79b09 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:53:37 +0000
Subject: [PATCH 053/130] fix: strip only access qualifiers from argument type
 names

---
 src/core/Kernel.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/Kernel.cpp b/src/core/Kernel.cpp
index 5499ce7..9563b6b 100644
--- a/src/core/Kernel.cpp
+++ b/src/core/Kernel.cpp
@@ -255,7 +255,9 @@ const llvm::StringRef Kernel::getArgumentTypeName(unsigned int index) const
 
   llvm::StringRef name = llvm::dyn_cast<llvm::MDString>(md)->getString();
   size_t imgStart = name.find(" image");
-  if (imgStart != llvm::StringRef::npos)
+  if (imgStart != llvm::StringRef::npos &&
+      (name.substr(0, imgStart).ends_with("_only") ||
+       name.substr(0, imgStart).ends_with("read_write")))
   {
     name = name.substr(imgStart + 1);
   }
-- 
2.43.0


From 48eee047994b0c6c4c5e99b9a10762a46c449294 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:53:37 +0000
Subject: [PATCH 054/130] fix: reject a build query of an unknown device

---
 src/runtime/runtime.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 1b3e9d5..fae4d66 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3382,6 +3382,10 @@ CL_API_ENTRY cl_int CL_API_CALL clGetProgramBuildInfo(
   {
     ReturnErrorArg(NULL, CL_INVALID_PROGRAM, program);
   }
+  if (!device || device != m_device)
+  {
+    ReturnErrorArg(program->context, CL_INVALID_DEVICE, device);
+  }
 
   size_t dummy;
   size_t& result_size = param_value_size_ret ? *param_value_size_ret : dummy;
-- 
2.43.0


From 7873d54dee337b7fe6e590573e3cdfac06fabeea Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:53:37 +0000
Subject: [PATCH 055/130] fix: restrict profiling information to completed
 commands of profiling queues

---
 src/runtime/runtime.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index fae4d66..6370d80 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -4254,7 +4254,9 @@ CL_API_ENTRY cl_int CL_API_CALL clGetEventProfilingInfo(
   {
     ReturnErrorArg(NULL, CL_INVALID_EVENT, event);
   }
-  if (!event->queue)
+  if (!event->queue ||
+      !(event->queue->properties & CL_QUEUE_PROFILING_ENABLE) ||
+      event->event->state != CL_COMPLETE)
   {
     ReturnError(event->context, CL_PROFILING_INFO_NOT_AVAILABLE);
   }
@@ -4278,6 +4280,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetEventProfilingInfo(
     result = event->event->startTime;
     break;
   case CL_PROFILING_COMMAND_END:
+  case CL_PROFILING_COMMAND_COMPLETE:
     result_size = sizeof(cl_ulong);
     result = event->event->endTime;
     break;
-- 
2.43.0


From fa614f8da60ff099bcc9f970ceafe179749154b6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:53:37 +0000
Subject: [PATCH 056/130] fix: report the minimum printf buffer size of the
 full profile

---
 src/runtime/runtime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 6370d80..2c1a46c 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -985,7 +985,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetDeviceInfo(
     break;
   case CL_DEVICE_PRINTF_BUFFER_SIZE:
     result_size = sizeof(size_t);
-    result_data.sizet = 1024;
+    result_data.sizet = 1024 * 1024;
     break;
   case CL_DEVICE_SVM_CAPABILITIES:
     result_size = sizeof(cl_device_svm_capabilities);
-- 
2.43.0


From 9c9d233ce5c85ce7aa693173e7276929e0f6a066 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:55:23 +0000
Subject: [PATCH 057/130] fix: lay out images with the pitches they were
 created with

---
 src/core/WorkItemBuiltins.cpp | 57 +++++++++++++-----------
 src/runtime/runtime.cpp       | 84 +++++++++++++++++++++--------------
 2 files changed, 81 insertions(+), 60 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index be46dd5..79a12c2 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -1072,11 +1072,9 @@ class WorkItemBuiltins
     size_t channelSize = getChannelSize(image->format);
     size_t numChannels = getNumChannels(image->format);
     size_t pixelSize = channelSize * numChannels;
-    size_t address = image->address +
-                     (i + (j + (k + layer * image->desc.image_depth) *
-                                 image->desc.image_height) *
-                            image->desc.image_width) *
-                       pixelSize +
+    size_t address = image->address + i * pixelSize +
+                     j * image->desc.image_row_pitch +
+                     (k + layer) * image->desc.image_slice_pitch +
                      channel * channelSize;
 
     // Load channel data
@@ -1144,11 +1142,9 @@ class WorkItemBuiltins
     size_t channelSize = getChannelSize(image->format);
     size_t numChannels = getNumChannels(image->format);
     size_t pixelSize = channelSize * numChannels;
-    size_t address = image->address +
-                     (i + (j + (k + layer * image->desc.image_depth) *
-                                 image->desc.image_height) *
-                            image->desc.image_width) *
-                       pixelSize +
+    size_t address = image->address + i * pixelSize +
+                     j * image->desc.image_row_pitch +
+                     (k + layer) * image->desc.image_slice_pitch +
                      channel * channelSize;
 
     // Load channel data
@@ -1208,11 +1204,9 @@ class WorkItemBuiltins
     size_t channelSize = getChannelSize(image->format);
     size_t numChannels = getNumChannels(image->format);
     size_t pixelSize = channelSize * numChannels;
-    size_t address = image->address +
-                     (i + (j + (k + layer * image->desc.image_depth) *
-                                 image->desc.image_height) *
-                            image->desc.image_width) *
-                       pixelSize +
+    size_t address = image->address + i * pixelSize +
+                     j * image->desc.image_row_pitch +
+                     (k + layer) * image->desc.image_slice_pitch +
                      channel * channelSize;
 
     // Load channel data
@@ -1587,10 +1581,13 @@ class WorkItemBuiltins
     size_t channelSize = getChannelSize(image->format);
     size_t numChannels = getNumChannels(image->format);
     size_t pixelSize = channelSize * numChannels;
-    size_t pixelAddress =
-      image->address +
-      (x + (y + z * image->desc.image_height) * image->desc.image_width) *
-        pixelSize;
+    if (image->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
+    {
+      swap(y, z);
+    }
+    size_t pixelAddress = image->address + x * pixelSize +
+                          y * image->desc.image_row_pitch +
+                          z * image->desc.image_slice_pitch;
 
     // Generate channel values
     Memory* memory = workItem->getMemory(AddrSpaceGlobal);
@@ -1687,10 +1684,13 @@ class WorkItemBuiltins
     size_t channelSize = getChannelSize(image->format);
     size_t numChannels = getNumChannels(image->format);
     size_t pixelSize = channelSize * numChannels;
-    size_t pixelAddress =
-      image->address +
-      (x + (y + z * image->desc.image_height) * image->desc.image_width) *
-        pixelSize;
+    if (image->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
+    {
+      swap(y, z);
+    }
+    size_t pixelAddress = image->address + x * pixelSize +
+                          y * image->desc.image_row_pitch +
+                          z * image->desc.image_slice_pitch;
 
     // Generate channel values
     Memory* memory = workItem->getMemory(AddrSpaceGlobal);
@@ -1777,10 +1777,13 @@ class WorkItemBuiltins
     size_t channelSize = getChannelSize(image->format);
     size_t numChannels = getNumChannels(image->format);
     size_t pixelSize = channelSize * numChannels;
-    size_t pixelAddress =
-      image->address +
-      (x + (y + z * image->desc.image_height) * image->desc.image_width) *
-        pixelSize;
+    if (image->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
+    {
+      swap(y, z);
+    }
+    size_t pixelAddress = image->address + x * pixelSize +
+                          y * image->desc.image_row_pitch +
+                          z * image->desc.image_slice_pitch;
 
     // Generate channel values
     Memory* memory = workItem->getMemory(AddrSpaceGlobal);
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 2c1a46c..7485b92 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1938,13 +1938,22 @@ size_t getPixelSize(const cl_image_format* format)
   }
 }
 
-// Get the distance in bytes between the slices of an image
-size_t getSlicePitch(const cl_image* image, size_t rowPitch)
+// Get the distances in bytes between the rows and slices of an image region
+void getRegionPitches(const cl_image* image, size_t& rowPitch,
+                      size_t& slicePitch)
 {
-  // The rows of a slice of a 1D image array are its images
-  return image->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY
-           ? image->desc.image_array_size * rowPitch
-           : image->desc.image_height * rowPitch;
+  rowPitch = image->desc.image_row_pitch;
+  slicePitch = image->desc.image_slice_pitch;
+  if (image->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
+  {
+    // The rows of a region of a 1D image array are its images
+    rowPitch = slicePitch;
+    slicePitch = rowPitch * image->desc.image_array_size;
+  }
+  else if (slicePitch == 0)
+  {
+    slicePitch = rowPitch * image->desc.image_height;
+  }
 }
 
 // Check that a region is non-empty and lies within an image
@@ -2091,18 +2100,30 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
     SetErrorInfo(context, CL_INVALID_IMAGE_DESCRIPTOR, "Invalid row pitch");
     return NULL;
   }
-  if (slicePitch && (dims > 2 || isImageArray(image_desc->image_type)))
+  if (rowPitch == 0)
+  {
+    rowPitch = width * pixelSize;
+  }
+  if (dims > 2 || isImageArray(image_desc->image_type))
   {
-    size_t row = rowPitch ? rowPitch : width * pixelSize;
-    if (slicePitch < row * height || slicePitch % row)
+    if (slicePitch == 0)
+    {
+      slicePitch = rowPitch * height;
+    }
+    if (slicePitch < rowPitch * height || slicePitch % rowPitch)
     {
       SetErrorInfo(context, CL_INVALID_IMAGE_DESCRIPTOR, "Invalid slice pitch");
       return NULL;
     }
   }
+  else
+  {
+    slicePitch = 0;
+  }
 
   // Calculate total size of image
-  size_t size = width * height * depth * arraySize * pixelSize;
+  size_t size =
+    slicePitch ? slicePitch * depth * arraySize : rowPitch * height;
 
   cl_mem mem;
 
@@ -2157,7 +2178,6 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
   else
   {
     // Create buffer
-    // TODO: Use pitches
     mem = createBuffer(context, flags, size, host_ptr, errcode_ret);
     if (!mem)
     {
@@ -2178,6 +2198,8 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
   image->desc.image_height = height;
   image->desc.image_depth = depth;
   image->desc.image_array_size = arraySize;
+  image->desc.image_row_pitch = rowPitch;
+  image->desc.image_slice_pitch = slicePitch;
   image->refCount = 1;
   if (image_desc->image_type != CL_MEM_OBJECT_IMAGE1D_BUFFER)
   {
@@ -4971,11 +4993,9 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
 
   // Get image dimensions
   cl_image* img = (cl_image*)image;
-  size_t width = img->desc.image_width;
-  size_t height = img->desc.image_height;
   size_t pixelSize = getPixelSize(&img->format);
-  size_t row_pitch = width * pixelSize;
-  size_t slice_pitch = height * row_pitch;
+  size_t row_pitch, slice_pitch;
+  getRegionPitches(img, row_pitch, slice_pitch);
 
   // Generate color data with correct order and data type
   unsigned char* color = new unsigned char[pixelSize];
@@ -5128,8 +5148,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueReadImage(
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, slice_pitch);
   }
 
-  size_t img_row_pitch = img->desc.image_width * pixelSize;
-  size_t img_slice_pitch = getSlicePitch(img, img_row_pitch);
+  size_t img_row_pitch, img_slice_pitch;
+  getRegionPitches(img, img_row_pitch, img_slice_pitch);
   if (slice_pitch && img->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
   {
     // The slices are the rows of the rectangle that is transferred
@@ -5205,8 +5225,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueWriteImage(
     ReturnErrorArg(command_queue->context, CL_INVALID_VALUE, input_slice_pitch);
   }
 
-  size_t img_row_pitch = img->desc.image_width * pixelSize;
-  size_t img_slice_pitch = getSlicePitch(img, img_row_pitch);
+  size_t img_row_pitch, img_slice_pitch;
+  getRegionPitches(img, img_row_pitch, img_slice_pitch);
   if (input_slice_pitch && img->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
   {
     // The slices are the rows of the rectangle that is transferred
@@ -5303,10 +5323,10 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyImage(
                                 dst_origin[2]};
   size_t pixel_region[3] = {region[0] * srcPixelSize, region[1], region[2]};
 
-  size_t src_row_pitch = src->desc.image_width * srcPixelSize;
-  size_t src_slice_pitch = getSlicePitch(src, src_row_pitch);
-  size_t dst_row_pitch = dst->desc.image_width * dstPixelSize;
-  size_t dst_slice_pitch = getSlicePitch(dst, dst_row_pitch);
+  size_t src_row_pitch, src_slice_pitch;
+  getRegionPitches(src, src_row_pitch, src_slice_pitch);
+  size_t dst_row_pitch, dst_slice_pitch;
+  getRegionPitches(dst, dst_row_pitch, dst_slice_pitch);
 
   // Enqueue copy
   cl_int ret = enqueueCopyBufferRect(
@@ -5359,8 +5379,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyImageToBuffer(
   size_t pixel_size = getPixelSize(&src->format);
   size_t src_pixel_origin[3] = {src_origin[0] * pixel_size, src_origin[1],
                                 src_origin[2]};
-  size_t src_row_pitch = src->desc.image_width * pixel_size;
-  size_t src_slice_pitch = getSlicePitch(src, src_row_pitch);
+  size_t src_row_pitch, src_slice_pitch;
+  getRegionPitches(src, src_row_pitch, src_slice_pitch);
 
   size_t pixel_region[3] = {region[0] * pixel_size, region[1], region[2]};
   size_t dst_origin[3] = {dst_offset, 0, 0};
@@ -5416,8 +5436,8 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueCopyBufferToImage(
   size_t pixel_size = getPixelSize(&dst->format);
   size_t dst_pixel_origin[3] = {dst_origin[0] * pixel_size, dst_origin[1],
                                 dst_origin[2]};
-  size_t dst_row_pitch = dst->desc.image_width * pixel_size;
-  size_t dst_slice_pitch = getSlicePitch(dst, dst_row_pitch);
+  size_t dst_row_pitch, dst_slice_pitch;
+  getRegionPitches(dst, dst_row_pitch, dst_slice_pitch);
 
   size_t pixel_region[3] = {region[0] * pixel_size, region[1], region[2]};
   size_t src_origin[3] = {src_offset, 0, 0};
@@ -5607,11 +5627,9 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
 
   // Get image dimensions
   cl_image* img = (cl_image*)image;
-  size_t width = img->desc.image_width;
-  size_t height = img->desc.image_height;
   size_t pixelSize = getPixelSize(&img->format);
-  size_t row_pitch = width * pixelSize;
-  size_t slice_pitch = height * row_pitch;
+  size_t row_pitch, slice_pitch;
+  getRegionPitches(img, row_pitch, slice_pitch);
 
   // Compute byte offset and size
   size_t offset =
@@ -5628,10 +5646,10 @@ CL_API_ENTRY void* CL_API_CALL clEnqueueMapImage(
     return NULL;
   }
 
-  *image_row_pitch = row_pitch;
+  *image_row_pitch = img->desc.image_row_pitch;
   if (image_slice_pitch)
   {
-    *image_slice_pitch = slice_pitch;
+    *image_slice_pitch = img->desc.image_slice_pitch;
   }
 
   // Enqueue command
-- 
2.43.0


From 2cbf892bac2b5bc6f9aa1b015517dbfab6f669dd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 23:55:23 +0000
Subject: [PATCH 058/130] fix: give 1D buffer images the flags they were
 created with

---
 src/runtime/runtime.cpp | 49 ++++++++++++++++++-----------------------
 1 file changed, 22 insertions(+), 27 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 7485b92..4380248 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1641,6 +1641,22 @@ bool checkSubObjectFlags(cl_mem_flags parent, cl_mem_flags flags)
   return true;
 }
 
+// Get the flags of an object that shares the memory of a parent object
+cl_mem_flags inheritMemFlags(cl_mem_flags parent, cl_mem_flags flags)
+{
+  cl_mem_flags memFlags = 0;
+  cl_mem_flags rwFlags =
+    CL_MEM_READ_ONLY | CL_MEM_READ_WRITE | CL_MEM_WRITE_ONLY;
+  cl_mem_flags hostAccess =
+    CL_MEM_HOST_NO_ACCESS | CL_MEM_HOST_READ_ONLY | CL_MEM_HOST_WRITE_ONLY;
+  cl_mem_flags hostPtr =
+    CL_MEM_USE_HOST_PTR | CL_MEM_ALLOC_HOST_PTR | CL_MEM_COPY_HOST_PTR;
+  memFlags |= ((flags & rwFlags) ? flags : parent) & rwFlags;
+  memFlags |= ((flags & hostAccess) ? flags : parent) & hostAccess;
+  memFlags |= parent & hostPtr;
+  return memFlags;
+}
+
 cl_mem createBuffer(cl_context context, cl_mem_flags flags, size_t size,
                     void* host_ptr, cl_int* errcode_ret)
 {
@@ -1809,32 +1825,6 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateSubBuffer(
     return NULL;
   }
 
-  // Inherit flags from parent where appropriate
-  cl_mem_flags memFlags = 0;
-  cl_mem_flags rwFlags =
-    CL_MEM_READ_ONLY | CL_MEM_READ_WRITE | CL_MEM_WRITE_ONLY;
-  cl_mem_flags hostAccess =
-    CL_MEM_HOST_NO_ACCESS | CL_MEM_HOST_READ_ONLY | CL_MEM_HOST_WRITE_ONLY;
-  cl_mem_flags hostPtr =
-    CL_MEM_USE_HOST_PTR | CL_MEM_ALLOC_HOST_PTR | CL_MEM_COPY_HOST_PTR;
-  if ((flags & rwFlags) == 0)
-  {
-    memFlags |= buffer->flags & rwFlags;
-  }
-  else
-  {
-    memFlags |= flags & rwFlags;
-  }
-  if ((flags & hostAccess) == 0)
-  {
-    memFlags |= buffer->flags & hostAccess;
-  }
-  else
-  {
-    memFlags |= flags & hostAccess;
-  }
-  memFlags |= buffer->flags & hostPtr;
-
   // Create memory object
   cl_mem mem = new _cl_mem;
   mem->dispatch = m_dispatchTable;
@@ -1843,7 +1833,7 @@ CL_API_ENTRY cl_mem CL_API_CALL clCreateSubBuffer(
   mem->size = region.size;
   mem->offset = region.origin;
   mem->isImage = false;
-  mem->flags = memFlags;
+  mem->flags = inheritMemFlags(buffer->flags, flags);
   mem->hostPtr = buffer->hostPtr
                    ? (unsigned char*)buffer->hostPtr + region.origin
                    : NULL;
@@ -2205,6 +2195,11 @@ cl_mem createImage(cl_context context, cl_mem_flags flags,
   {
     delete mem;
   }
+  else
+  {
+    image->flags = inheritMemFlags(mem->flags, flags);
+    image->offset = 0;
+  }
 
   SetError(context, CL_SUCCESS);
   return image;
-- 
2.43.0


From d3c60a8c702ace9c6cdf67be7756b1bd5ec86908 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:03:50 +0000
Subject: [PATCH 059/130] fix: reject image queries of memory objects that are
 not images

---
 src/runtime/runtime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 4380248..dcee266 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2566,7 +2566,7 @@ CL_API_ENTRY cl_int CL_API_CALL clGetImageInfo(
   REGISTER_API;
 
   // Check mem object is valid
-  if (!image)
+  if (!image || !image->isImage)
   {
     ReturnErrorArg(NULL, CL_INVALID_MEM_OBJECT, image);
   }
-- 
2.43.0


From b2272bc9a2282b72250aa6f837710785dfca5c1d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:03:50 +0000
Subject: [PATCH 060/130] fix: skip program binaries that are not asked for

---
 src/runtime/runtime.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index dcee266..35d3c73 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3373,7 +3373,10 @@ CL_API_ENTRY cl_int CL_API_CALL clGetProgramInfo(
     }
     else if (param_name == CL_PROGRAM_BINARIES)
     {
-      program->program->getBinary(((unsigned char**)param_value)[0]);
+      // A null pointer asks for the binary of this device to be skipped
+      unsigned char* binary = ((unsigned char**)param_value)[0];
+      if (binary)
+        program->program->getBinary(binary);
     }
     else
     {
-- 
2.43.0


From e3c4632d985699596ec3f7ae6c0fe0ede8464f49 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:04:33 +0000
Subject: [PATCH 061/130] fix: give programs that are not built no binary type

---
 src/core/Program.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index 313213e..aec771a 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -142,6 +142,7 @@ Program::Program(const Context* context, const string& source)
   m_buildLog = "";
   m_buildOptions = "";
   m_buildStatus = CL_BUILD_NONE;
+  m_binaryType = CL_PROGRAM_BINARY_TYPE_NONE;
   m_uid = 0;
   m_totalProgramScopeVarSize = 0;
 
-- 
2.43.0


From 29a3c107ec1eff53081c1cd5b95b0c2687d3485a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:04:33 +0000
Subject: [PATCH 062/130] fix: report the options a program was linked with

---
 src/core/Program.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index aec771a..c206651 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -742,7 +742,9 @@ Program* Program::createFromPrograms(const Context* context,
   }
   setBinaryType(*module, binaryType);
 
-  return new Program(context, module);
+  Program* program = new Program(context, module);
+  program->m_buildOptions = options ? options : "";
+  return program;
 }
 
 Kernel* Program::createKernel(const string name)
-- 
2.43.0


From 5eb1c671848bdc1814520b874f84b3c8bc0881a2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:12:26 +0000
Subject: [PATCH 063/130] fix: call the destructor callbacks of all memory
 objects before releasing them

---
 src/runtime/runtime.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 35d3c73..0df88f5 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2310,6 +2310,14 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseMemObject(cl_mem memobj)
 
   if (--memobj->refCount == 0)
   {
+    while (!memobj->callbacks.empty())
+    {
+      pair<void(CL_CALLBACK*)(cl_mem, void*), void*> callback =
+        memobj->callbacks.top();
+      callback.first(memobj, callback.second);
+      memobj->callbacks.pop();
+    }
+
     if (memobj->isImage &&
         ((cl_image*)memobj)->desc.image_type == CL_MEM_OBJECT_IMAGE1D_BUFFER)
     {
@@ -2327,17 +2335,12 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseMemObject(cl_mem memobj)
           memobj->address);
         clReleaseContext(memobj->context);
       }
-
-      while (!memobj->callbacks.empty())
-      {
-        pair<void(CL_CALLBACK*)(cl_mem, void*), void*> callback =
-          memobj->callbacks.top();
-        callback.first(memobj, callback.second);
-        memobj->callbacks.pop();
-      }
     }
 
-    delete memobj;
+    if (memobj->isImage)
+      delete (cl_image*)memobj;
+    else
+      delete memobj;
   }
 
   return CL_SUCCESS;
-- 
2.43.0


From 3cde1be2948919e8f4476aae280b2ee91046b2f6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:12:26 +0000
Subject: [PATCH 064/130] fix: free the properties of a context after calling
 its destructor callbacks

---
 src/runtime/runtime.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 0df88f5..609c179 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -1338,11 +1338,6 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseContext(cl_context context)
 
   if (--context->refCount == 0)
   {
-    if (context->properties)
-    {
-      free(context->properties);
-    }
-
     while (!context->callbacks.empty())
     {
       pair<void(CL_CALLBACK*)(cl_context, void*), void*> callback =
@@ -1351,6 +1346,10 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseContext(cl_context context)
       context->callbacks.pop();
     }
 
+    if (context->properties)
+    {
+      free(context->properties);
+    }
     delete context->context;
     delete context;
   }
-- 
2.43.0


From 3c67e66c23eec569c2d684ecafb34c978241baff Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:12:26 +0000
Subject: [PATCH 065/130] fix: keep the context of a sampler

---
 src/runtime/runtime.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 609c179..c822510 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -2740,6 +2740,8 @@ clCreateSampler(cl_context context, cl_bool normalized_coords,
   sampler->sampler = bitfield;
   sampler->refCount = 1;
 
+  clRetainContext(context);
+
   SetError(context, CL_SUCCESS);
   return sampler;
 }
@@ -2771,6 +2773,7 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseSampler(cl_sampler sampler)
 
   if (--sampler->refCount == 0)
   {
+    clReleaseContext(sampler->context);
     delete sampler;
   }
 
@@ -6740,6 +6743,8 @@ CL_API_ENTRY cl_sampler CL_API_CALL clCreateSamplerWithProperties(
                                sampler_properties + numProperties);
   }
 
+  clRetainContext(context);
+
   SetError(context, CL_SUCCESS);
   return sampler;
 }
-- 
2.43.0


From 01eb6c599cd05d80f54271be57f9b06178461c9e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:12:26 +0000
Subject: [PATCH 066/130] fix: keep the image arguments of a cloned kernel

---
 src/runtime/icd.h       |  3 ++-
 src/runtime/runtime.cpp | 19 +++----------------
 2 files changed, 5 insertions(+), 17 deletions(-)

diff --git a/src/runtime/icd.h b/src/runtime/icd.h
index 95a6867..ab0156c 100644
--- a/src/runtime/icd.h
+++ b/src/runtime/icd.h
@@ -117,6 +117,7 @@
 #include <cstdint>
 #include <list>
 #include <map>
+#include <memory>
 #include <stack>
 #include <vector>
 
@@ -224,7 +225,7 @@ struct _cl_kernel
   oclgrind::Kernel* kernel;
   cl_program program;
   std::map<cl_uint, cl_mem> memArgs;
-  std::vector<oclgrind::Image*> imageArgs;
+  std::vector<std::shared_ptr<oclgrind::Image>> imageArgs;
   unsigned int refCount;
 };
 
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index c822510..bda4df7 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3590,13 +3590,6 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseKernel(cl_kernel kernel)
 
   if (--kernel->refCount == 0)
   {
-
-    // Release memory allocated for image arguments
-    for (auto* img : kernel->imageArgs)
-    {
-      delete img;
-    }
-
     delete kernel->kernel;
 
     kernel->program->numKernels--;
@@ -3720,7 +3713,7 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
         image->desc = ((cl_image*)mem)->desc;
         *(oclgrind::Image**)value.data = image;
         // Keep a record of the image struct for releasing it later
-        kernel->imageArgs.push_back(image);
+        kernel->imageArgs.emplace_back(image);
       }
       else
       {
@@ -6786,14 +6779,8 @@ CL_API_ENTRY cl_kernel CL_API_CALL clCloneKernel(
   kernel->kernel = new oclgrind::Kernel(*source_kernel->kernel);
   kernel->program = source_kernel->program;
   kernel->memArgs = source_kernel->memArgs;
-  for (auto src_img : source_kernel->imageArgs)
-  {
-    oclgrind::Image* image = new oclgrind::Image;
-    image->address = src_img->address;
-    image->format = src_img->format;
-    image->desc = src_img->desc;
-    kernel->imageArgs.push_back(image);
-  }
+  // The argument values refer to the same image structs
+  kernel->imageArgs = source_kernel->imageArgs;
   kernel->refCount = 1;
 
   clRetainProgram(kernel->program);
-- 
2.43.0


From 356c53ccab484ed47bcf0553db6bf786762c910f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:12:48 +0000
Subject: [PATCH 067/130] fix: keep command-queues and contexts while commands
 and events refer to them

---
 src/runtime/async_queue.cpp |  1 +
 src/runtime/icd.h           |  2 ++
 src/runtime/runtime.cpp     | 64 +++++++++++++++++++++++++++++++++----
 3 files changed, 60 insertions(+), 7 deletions(-)

diff --git a/src/runtime/async_queue.cpp b/src/runtime/async_queue.cpp
index ada38bf..bd02aa2 100644
--- a/src/runtime/async_queue.cpp
+++ b/src/runtime/async_queue.cpp
@@ -48,6 +48,7 @@ void asyncEnqueue(cl_command_queue queue, cl_command_type type, Command* cmd,
   _event->type = type;
   _event->event = event;
   _event->refCount = 1;
+  queue->numEvents++;
 
   // Add event to map
   eventMap[cmd] = _event;
diff --git a/src/runtime/icd.h b/src/runtime/icd.h
index ab0156c..75af6f8 100644
--- a/src/runtime/icd.h
+++ b/src/runtime/icd.h
@@ -174,6 +174,7 @@ struct _cl_context
   cl_context_properties* properties;
   size_t szProperties;
   std::stack<std::pair<void(CL_CALLBACK*)(cl_context, void*), void*>> callbacks;
+  std::list<cl_command_queue> releasedQueues; // With commands still enqueued
   unsigned int refCount;
 };
 
@@ -184,6 +185,7 @@ struct _cl_command_queue
   cl_context context;
   std::vector<cl_queue_properties> properties_array;
   oclgrind::Queue* queue;
+  unsigned int numEvents; // Events associated with commands of this queue
   unsigned int refCount;
 };
 
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index bda4df7..a2c1c7b 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -157,6 +157,18 @@ void notifyAPIError(cl_context context, cl_int err, const char* function,
   }
 }
 
+// Delete a command-queue if neither the application nor any event refers to it
+void deleteUnusedQueue(cl_command_queue queue)
+{
+  if (queue->refCount == 0 && queue->numEvents == 0)
+  {
+    queue->context->releasedQueues.remove(queue);
+    delete queue->queue;
+    clReleaseContext(queue->context);
+    delete queue;
+  }
+}
+
 void releaseCommand(oclgrind::Command* command)
 {
   if (command)
@@ -1453,6 +1465,7 @@ clCreateCommandQueue(cl_context context, cl_device_id device,
   queue->dispatch = m_dispatchTable;
   queue->properties = properties;
   queue->context = context;
+  queue->numEvents = 0;
   queue->refCount = 1;
 
   clRetainContext(context);
@@ -1496,15 +1509,18 @@ clReleaseCommandQueue(cl_command_queue command_queue) CL_API_SUFFIX__VERSION_1_0
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
 
+  // Perform an implicit flush
+  clFlush(command_queue);
+
   if (--command_queue->refCount == 0)
   {
-    // TODO: Retain/release queue from async thread
-    // TODO: Spec states that this function performs an implicit flush,
-    // so maybe we are OK to delete queue here?
-    clFinish(command_queue);
-    delete command_queue->queue;
-    clReleaseContext(command_queue->context);
-    delete command_queue;
+    // The queue exists until all of its commands have finished
+    if (!command_queue->queue->isEmpty())
+    {
+      command_queue->context->releasedQueues.remove(command_queue);
+      command_queue->context->releasedQueues.push_back(command_queue);
+    }
+    deleteUnusedQueue(command_queue);
   }
 
   return CL_SUCCESS;
@@ -4148,6 +4164,8 @@ CL_API_ENTRY cl_event CL_API_CALL clCreateUserEvent(
   event->event->queue = NULL;
   event->refCount = 1;
 
+  clRetainContext(context);
+
   SetError(context, CL_SUCCESS);
   return event;
 }
@@ -4183,6 +4201,15 @@ CL_API_ENTRY cl_int CL_API_CALL clReleaseEvent(cl_event event)
     {
       delete event->event;
     }
+    if (event->queue)
+    {
+      event->queue->numEvents--;
+      deleteUnusedQueue(event->queue);
+    }
+    else
+    {
+      clReleaseContext(event->context);
+    }
     delete event;
   }
 
@@ -4215,6 +4242,9 @@ CL_API_ENTRY cl_int CL_API_CALL clSetUserEventStatus(
 
   event->event->state = execution_status;
 
+  // The callbacks may release the event
+  clRetainEvent(event);
+
   // Perform callbacks
   list<pair<void(CL_CALLBACK*)(cl_event, cl_int, void*), void*>>::iterator itr;
   for (itr = event->callbacks.begin(); itr != event->callbacks.end(); itr++)
@@ -4222,6 +4252,19 @@ CL_API_ENTRY cl_int CL_API_CALL clSetUserEventStatus(
     itr->first(event, execution_status, itr->second);
   }
 
+  // Execute the commands of released queues that were waiting for this event
+  list<cl_command_queue> queues = event->context->releasedQueues;
+  for (cl_command_queue queue : queues)
+  {
+    queue->refCount++;
+  }
+  for (cl_command_queue queue : queues)
+  {
+    clReleaseCommandQueue(queue);
+  }
+
+  clReleaseEvent(event);
+
   return CL_SUCCESS;
 }
 
@@ -4353,12 +4396,18 @@ CL_API_ENTRY cl_int CL_API_CALL clFinish(cl_command_queue command_queue)
     ReturnErrorArg(NULL, CL_INVALID_COMMAND_QUEUE, command_queue);
   }
 
+  // Callbacks may release the queue
+  command_queue->refCount++;
+
   // TODO: Move this finish to async thread?
   while (oclgrind::Command* cmd = command_queue->queue->finish())
   {
     releaseCommand(cmd);
   }
 
+  command_queue->refCount--;
+  deleteUnusedQueue(command_queue);
+
   return CL_SUCCESS;
 }
 
@@ -6518,6 +6567,7 @@ CL_API_ENTRY cl_command_queue CL_API_CALL clCreateCommandQueueWithProperties(
   queue->dispatch = m_dispatchTable;
   queue->properties = props;
   queue->context = context;
+  queue->numEvents = 0;
   queue->refCount = 1;
   if (properties)
   {
-- 
2.43.0


From 52d46b9dd299cf93dcd999c493f2963ff3fa2cf1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:17:57 +0000
Subject: [PATCH 068/130] fix: allocate the name of the PCH directory the way
 it is freed

---
 src/core/Program.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index c206651..5d3dfff 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -428,7 +428,8 @@ bool Program::build(BuildType buildType, const char* options,
     const char* pchdirOverride = getenv("OCLGRIND_PCH_DIR");
     if (pchdirOverride)
     {
-      pchdir = strdup(pchdirOverride);
+      pchdir = new char[strlen(pchdirOverride) + 1];
+      strcpy(pchdir, pchdirOverride);
     }
     else
     {
-- 
2.43.0


From b0f3417f3e4aba58c3cb27a8bb86f33cefeb121f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 069/130] fix: seed the random numbers with an integer

---
 src/core/Program.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index 5d3dfff..35f59ba 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -859,7 +859,7 @@ const Context* Program::getContext() const
 
 unsigned long Program::generateUID() const
 {
-  srand(now());
+  srand((unsigned)(uint64_t)now());
   return rand();
 }
 
-- 
2.43.0


From 218ed3aed4c1653e94f5b3c7aba036332f7bbdd1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:18:45 +0000
Subject: [PATCH 070/130] fix: retain the memory objects of a migration command

---
 src/runtime/runtime.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index a2c1c7b..9468e56 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -5806,6 +5806,10 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueMigrateMemObjects(
 
   // Enqueue command
   oclgrind::Command* cmd = new oclgrind::Command();
+  for (cl_uint i = 0; i < num_mem_objects; i++)
+  {
+    asyncQueueRetain(cmd, mem_objects[i]);
+  }
   asyncEnqueue(command_queue, CL_COMMAND_MIGRATE_MEM_OBJECTS, cmd,
                num_events_in_wait_list, event_wait_list, event);
 
-- 
2.43.0


From 11db8bbad54707845efd3438b46680890fa610d4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:32:27 +0000
Subject: [PATCH 071/130] fix: saturate the colour of image fills

---
 src/runtime/runtime.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 9468e56..6307f80 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -9,6 +9,7 @@
 #include "config.h"
 
 #include <cassert>
+#include <climits>
 #include <cmath>
 #include <cstring>
 #include <iostream>
@@ -5095,7 +5096,7 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
     {
     case CL_SNORM_INT8:
       ((int8_t*)color)[output] =
-        rint(min(max(((float*)fill_color)[input] * 127.f, -127.f), 128.f));
+        rint(min(max(((float*)fill_color)[input] * 127.f, -128.f), 127.f));
       break;
     case CL_UNORM_INT8:
       ((uint8_t*)color)[output] =
@@ -5117,19 +5118,23 @@ CL_API_ENTRY cl_int CL_API_CALL clEnqueueFillImage(
         cl_half_from_float(((float*)fill_color)[input], CL_HALF_RTE);
       break;
     case CL_SIGNED_INT8:
-      ((int8_t*)color)[output] = ((int32_t*)fill_color)[input];
+      ((int8_t*)color)[output] =
+        min(max(((int32_t*)fill_color)[input], SCHAR_MIN), SCHAR_MAX);
       break;
     case CL_SIGNED_INT16:
-      ((int16_t*)color)[output] = ((int32_t*)fill_color)[input];
+      ((int16_t*)color)[output] =
+        min(max(((int32_t*)fill_color)[input], SHRT_MIN), SHRT_MAX);
       break;
     case CL_SIGNED_INT32:
       ((int32_t*)color)[output] = ((int32_t*)fill_color)[input];
       break;
     case CL_UNSIGNED_INT8:
-      ((uint8_t*)color)[output] = ((uint32_t*)fill_color)[input];
+      ((uint8_t*)color)[output] =
+        min<uint32_t>(((uint32_t*)fill_color)[input], UCHAR_MAX);
       break;
     case CL_UNSIGNED_INT16:
-      ((uint16_t*)color)[output] = ((uint32_t*)fill_color)[input];
+      ((uint16_t*)color)[output] =
+        min<uint32_t>(((uint32_t*)fill_color)[input], USHRT_MAX);
       break;
     case CL_UNSIGNED_INT32:
       ((uint32_t*)color)[output] = ((uint32_t*)fill_color)[input];
-- 
2.43.0


From 1a8790961cf56f193bcfdaf3a54e6160ce075e12 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:42:58 +0000
Subject: [PATCH 072/130] fix: recognise sampler arguments declared through a
 typedef

---
 src/core/Kernel.cpp     | 15 ++++++++++++++-
 src/core/Kernel.h       |  1 +
 src/runtime/runtime.cpp |  3 +--
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/core/Kernel.cpp b/src/core/Kernel.cpp
index 9563b6b..3cdec80 100644
--- a/src/core/Kernel.cpp
+++ b/src/core/Kernel.cpp
@@ -264,6 +264,19 @@ const llvm::StringRef Kernel::getArgumentTypeName(unsigned int index) const
   return name;
 }
 
+bool Kernel::isSamplerArgument(unsigned int index) const
+{
+  assert(index < getNumArguments());
+
+  // The base type sees through typedefs
+  const llvm::Metadata* md = getArgumentMetadata("kernel_arg_base_type", index);
+  if (!md)
+  {
+    return getArgumentTypeName(index) == "sampler_t";
+  }
+  return llvm::dyn_cast<llvm::MDString>(md)->getString() == "sampler_t";
+}
+
 unsigned int Kernel::getArgumentTypeQualifier(unsigned int index) const
 {
   assert(index < getNumArguments());
@@ -461,7 +474,7 @@ void Kernel::setArgument(unsigned int index, TypedValue value)
     delete[] m_values[argument].data;
   }
 
-  if (getArgumentTypeName(index).str() == "sampler_t")
+  if (isSamplerArgument(index))
   {
     // Get an llvm::ConstantInt that represents the sampler value
     llvm::Type* i32 = llvm::Type::getInt32Ty(m_program->getLLVMContext());
diff --git a/src/core/Kernel.h b/src/core/Kernel.h
index 51e5479..766037e 100644
--- a/src/core/Kernel.h
+++ b/src/core/Kernel.h
@@ -42,6 +42,7 @@ public:
   const llvm::StringRef getArgumentName(unsigned int index) const;
   size_t getArgumentSize(unsigned int index) const;
   const llvm::StringRef getArgumentTypeName(unsigned int index) const;
+  bool isSamplerArgument(unsigned int index) const;
   unsigned int getArgumentTypeQualifier(unsigned int index) const;
   std::string getAttributes() const;
   const llvm::Function* getFunction() const;
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 6307f80..bed0393 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -3638,8 +3638,7 @@ clSetKernelArg(cl_kernel kernel, cl_uint arg_index, size_t arg_size,
   }
 
   unsigned int addr = kernel->kernel->getArgumentAddressQualifier(arg_index);
-  bool isSampler =
-    kernel->kernel->getArgumentTypeName(arg_index) == "sampler_t";
+  bool isSampler = kernel->kernel->isSamplerArgument(arg_index);
 
   if (kernel->kernel->getArgumentSize(arg_index) != arg_size && !isSampler &&
       addr != CL_KERNEL_ARG_ADDRESS_LOCAL)
-- 
2.43.0


From 78abedf4d084ecf1a6a240fda889bf1310587983 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:42:58 +0000
Subject: [PATCH 073/130] fix: clamp image coordinates that no int can hold

---
 src/core/WorkItemBuiltins.cpp | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 79a12c2..dd9022b 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -892,6 +892,12 @@ class WorkItemBuiltins
     }
   }
 
+  // Clamp before converting, as the coordinate may not be representable
+  static inline int clampCoordinate(float c, int min, int max)
+  {
+    return c >= max ? max : c > min ? (int)c : min;
+  }
+
   static inline int getNearestCoordinate(uint32_t sampler,
                                          float n, // Normalized
                                          float u, // Unormalized
@@ -902,9 +908,9 @@ class WorkItemBuiltins
     case CLK_ADDRESS_NONE:
       return floor(u);
     case CLK_ADDRESS_CLAMP_TO_EDGE:
-      return _clamp_<int>(floor(u), 0, size - 1);
+      return clampCoordinate(floorf(u), 0, size - 1);
     case CLK_ADDRESS_CLAMP:
-      return _clamp_<int>(floor(u), -1, size);
+      return clampCoordinate(floorf(u), -1, size);
     case CLK_ADDRESS_REPEAT:
       return (int)floorf((n - floorf(n)) * size) % size;
     case CLK_ADDRESS_MIRRORED_REPEAT:
@@ -928,12 +934,12 @@ class WorkItemBuiltins
       *c1 = floor(u) + 1;
       return u;
     case CLK_ADDRESS_CLAMP_TO_EDGE:
-      *c0 = _clamp_<int>(floorf(u - 0.5f), 0, size - 1);
-      *c1 = _clamp_<int>(floorf(u - 0.5f) + 1, 0, size - 1);
+      *c0 = clampCoordinate(floorf(u - 0.5f), 0, size - 1);
+      *c1 = clampCoordinate(floorf(u - 0.5f) + 1, 0, size - 1);
       return u;
     case CLK_ADDRESS_CLAMP:
-      *c0 = _clamp_<int>((floorf(u - 0.5f)), -1, size);
-      *c1 = _clamp_<int>((floorf(u - 0.5f)) + 1, -1, size);
+      *c0 = clampCoordinate(floorf(u - 0.5f), -1, size);
+      *c1 = clampCoordinate(floorf(u - 0.5f) + 1, -1, size);
       return u;
     case CLK_ADDRESS_REPEAT:
     {
@@ -1306,12 +1312,12 @@ class WorkItemBuiltins
     int layer = 0;
     if (image->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
     {
-      layer = _clamp_<int>(rintf(t), 0, image->desc.image_array_size - 1);
+      layer = clampCoordinate(rintf(t), 0, image->desc.image_array_size - 1);
       v = t = 0.f;
     }
     else if (image->desc.image_type == CL_MEM_OBJECT_IMAGE2D_ARRAY)
     {
-      layer = _clamp_<int>(rintf(r), 0, image->desc.image_array_size - 1);
+      layer = clampCoordinate(rintf(r), 0, image->desc.image_array_size - 1);
       w = r = 0.f;
     }
 
@@ -1423,12 +1429,12 @@ class WorkItemBuiltins
     int layer = 0;
     if (image->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
     {
-      layer = _clamp_<int>(rintf(t), 0, image->desc.image_array_size - 1);
+      layer = clampCoordinate(rintf(t), 0, image->desc.image_array_size - 1);
       v = t = 0.f;
     }
     else if (image->desc.image_type == CL_MEM_OBJECT_IMAGE2D_ARRAY)
     {
-      layer = _clamp_<int>(rintf(r), 0, image->desc.image_array_size - 1);
+      layer = clampCoordinate(rintf(r), 0, image->desc.image_array_size - 1);
       w = r = 0.f;
     }
 
@@ -1496,12 +1502,12 @@ class WorkItemBuiltins
     int layer = 0;
     if (image->desc.image_type == CL_MEM_OBJECT_IMAGE1D_ARRAY)
     {
-      layer = _clamp_<int>(rintf(t), 0, image->desc.image_array_size - 1);
+      layer = clampCoordinate(rintf(t), 0, image->desc.image_array_size - 1);
       v = t = 0.f;
     }
     else if (image->desc.image_type == CL_MEM_OBJECT_IMAGE2D_ARRAY)
     {
-      layer = _clamp_<int>(rintf(r), 0, image->desc.image_array_size - 1);
+      layer = clampCoordinate(rintf(r), 0, image->desc.image_array_size - 1);
       w = r = 0.f;
     }
 
-- 
2.43.0


From cbf5f5f83e031b55a1c3ff248f87b9da1d5274f4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:42:58 +0000
Subject: [PATCH 074/130] fix: use the pixels around the coordinate for
 unaddressed linear reads

---
 src/core/WorkItemBuiltins.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index dd9022b..5bda69c 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -930,8 +930,8 @@ class WorkItemBuiltins
     switch (sampler & CLK_ADDRESS_MASK)
     {
     case CLK_ADDRESS_NONE:
-      *c0 = floor(u);
-      *c1 = floor(u) + 1;
+      *c0 = floorf(u - 0.5f);
+      *c1 = *c0 + 1;
       return u;
     case CLK_ADDRESS_CLAMP_TO_EDGE:
       *c0 = clampCoordinate(floorf(u - 0.5f), 0, size - 1);
-- 
2.43.0


From 22b6e25f2280633c9c19523b2dc429c82cd99c68 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 00:55:48 +0000
Subject: [PATCH 075/130] fix: let only one host thread at a time run an API
 function

---
 src/core/Queue.cpp          | 12 ++++++++
 src/core/Queue.h            |  2 ++
 src/runtime/async_queue.cpp |  5 +++
 src/runtime/async_queue.h   |  1 +
 src/runtime/runtime.cpp     | 61 ++++++++++++++++++++++++++++++++-----
 5 files changed, 74 insertions(+), 7 deletions(-)

diff --git a/src/core/Queue.cpp b/src/core/Queue.cpp
index ac5762f..6ec477a 100644
--- a/src/core/Queue.cpp
+++ b/src/core/Queue.cpp
@@ -213,6 +213,18 @@ bool Queue::isBlocked(Command* command, set<Command*>& ready) const
   return false;
 }
 
+bool Queue::isBlocked(Command* command) const
+{
+  set<Command*> ready;
+  return isBlocked(command, ready);
+}
+
+// Check if the oldest command is blocked
+bool Queue::isBlocked() const
+{
+  return !m_queue.empty() && isBlocked(m_queue.front());
+}
+
 bool Queue::isEmpty() const
 {
   return m_queue.empty();
diff --git a/src/core/Queue.h b/src/core/Queue.h
index 3af5698..a0fea56 100644
--- a/src/core/Queue.h
+++ b/src/core/Queue.h
@@ -227,6 +227,8 @@ public:
   void executeWriteBuffer(BufferCommand* cmd);
   void executeWriteBufferRect(BufferRectCommand* cmd);
 
+  bool isBlocked() const;
+  bool isBlocked(Command* command) const;
   bool isEmpty() const;
   Command* finish();
   std::list<Command*> flush();
diff --git a/src/runtime/async_queue.cpp b/src/runtime/async_queue.cpp
index bd02aa2..c87b630 100644
--- a/src/runtime/async_queue.cpp
+++ b/src/runtime/async_queue.cpp
@@ -84,6 +84,11 @@ void asyncQueueRetain(Command* cmd, cl_kernel kernel)
   }
 }
 
+cl_event asyncQueueGetEvent(Command* cmd)
+{
+  return eventMap.at(cmd);
+}
+
 void asyncQueueRelease(Command* cmd)
 {
   // Release memory objects
diff --git a/src/runtime/async_queue.h b/src/runtime/async_queue.h
index 0ad3e8a..548d677 100644
--- a/src/runtime/async_queue.h
+++ b/src/runtime/async_queue.h
@@ -15,4 +15,5 @@ extern void asyncEnqueue(cl_command_queue queue, cl_command_type type,
                          const cl_event* waitList, cl_event* eventOut);
 extern void asyncQueueRetain(oclgrind::Command* cmd, cl_mem mem);
 extern void asyncQueueRetain(oclgrind::Command* cmd, cl_kernel);
+extern cl_event asyncQueueGetEvent(oclgrind::Command* cmd);
 extern void asyncQueueRelease(oclgrind::Command* cmd);
diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index bed0393..509e98e 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -9,11 +9,14 @@
 #include "config.h"
 
 #include <cassert>
+#include <chrono>
 #include <climits>
 #include <cmath>
 #include <cstring>
 #include <iostream>
+#include <mutex>
 #include <sstream>
+#include <thread>
 
 #include "async_queue.h"
 #include "icd.h"
@@ -194,19 +197,39 @@ namespace
 // Name of the API function currently being executed
 thread_local static std::vector<const char*> g_apiCallStack;
 
+// Protects everything the API functions of different host threads share
+static std::mutex g_apiMutex;
+
 class APICallEntry
 {
 public:
   APICallEntry(const char* name)
   {
+    if (g_apiCallStack.empty())
+    {
+      g_apiMutex.lock();
+    }
     g_apiCallStack.push_back(name);
   }
   ~APICallEntry()
   {
     g_apiCallStack.pop_back();
+    if (g_apiCallStack.empty())
+    {
+      g_apiMutex.unlock();
+    }
   }
 };
 
+// Let other host threads run API functions before looking again at something
+// that they may change
+void waitForOtherThreads()
+{
+  g_apiMutex.unlock();
+  std::this_thread::sleep_for(std::chrono::microseconds(50));
+  g_apiMutex.lock();
+}
+
 #define REGISTER_API APICallEntry apiCallEntry(__func__)
 } // namespace
 
@@ -375,8 +398,21 @@ bool computeRect(const size_t* origin, const size_t* region, size_t& row_pitch,
 // Execute a blocking command that has just been enqueued
 cl_int waitForCommand(cl_command_queue queue, oclgrind::Command* command)
 {
-  bool success = queue->queue->execute(command);
-  releaseCommand(command);
+  // Another thread may execute and release the command while this one waits
+  cl_event event = asyncQueueGetEvent(command);
+  clRetainEvent(event);
+  while (event->event->state > CL_COMPLETE)
+  {
+    if (queue->queue->isBlocked(command))
+    {
+      waitForOtherThreads();
+      continue;
+    }
+    queue->queue->execute(command);
+    releaseCommand(command);
+  }
+  bool success = event->event->state == CL_COMPLETE;
+  clReleaseEvent(event);
   if (!success)
   {
     ReturnError(queue->context, CL_EXEC_STATUS_ERROR_FOR_EVENTS_IN_WAIT_LIST);
@@ -4034,10 +4070,11 @@ CL_API_ENTRY cl_int CL_API_CALL clWaitForEvents(
       }
 
       // If it's not a user event, execute the associated command
-      if (event_list[i]->queue)
+      oclgrind::Event* event = event_list[i]->event;
+      if (event_list[i]->queue && !event->queue->isBlocked(event->command))
       {
-        oclgrind::Command* cmd = event_list[i]->event->command;
-        event_list[i]->event->queue->execute(cmd);
+        oclgrind::Command* cmd = event->command;
+        event->queue->execute(cmd);
         releaseCommand(cmd);
 
         // If it's still not complete, update flag
@@ -4051,6 +4088,11 @@ CL_API_ENTRY cl_int CL_API_CALL clWaitForEvents(
         complete = false;
       }
     }
+
+    if (!complete)
+    {
+      waitForOtherThreads();
+    }
   }
 
   // Check if any command terminated unsuccessfully
@@ -4400,9 +4442,14 @@ CL_API_ENTRY cl_int CL_API_CALL clFinish(cl_command_queue command_queue)
   command_queue->refCount++;
 
   // TODO: Move this finish to async thread?
-  while (oclgrind::Command* cmd = command_queue->queue->finish())
+  while (!command_queue->queue->isEmpty())
   {
-    releaseCommand(cmd);
+    if (command_queue->queue->isBlocked())
+    {
+      waitForOtherThreads();
+      continue;
+    }
+    releaseCommand(command_queue->queue->finish());
   }
 
   command_queue->refCount--;
-- 
2.43.0


From 4ed1ac618316534fe6de62fb210bd9ca466dd1e5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:01:51 +0000
Subject: [PATCH 076/130] fix: do not look at the predecessors of queued
 commands repeatedly

---
 src/core/Queue.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/core/Queue.cpp b/src/core/Queue.cpp
index 6ec477a..e5b9c19 100644
--- a/src/core/Queue.cpp
+++ b/src/core/Queue.cpp
@@ -193,21 +193,31 @@ list<Command*> Queue::getPredecessors(const Command* command) const
 // indirectly. Commands that are known not to are remembered in ready.
 bool Queue::isBlocked(Command* command, set<Command*>& ready) const
 {
-  if (ready.count(command))
+  auto isWaiting = [&ready](const Command* command) {
+    for (Event* evt : command->waitList)
+    {
+      if (evt->state > CL_COMPLETE &&
+          (!evt->command || evt->queue->isBlocked(evt->command, ready)))
+        return true;
+    }
     return false;
+  };
 
-  for (Event* evt : command->waitList)
-  {
-    if (evt->state > CL_COMPLETE &&
-        (!evt->command || evt->queue->isBlocked(evt->command, ready)))
-      return true;
-  }
+  if (ready.count(command))
+    return false;
 
+  // A command that comes after all others also comes after their predecessors
+  bool allPrevious = !m_out_of_order || command->waitForPrevious;
   for (Command* previous : getPredecessors(command))
   {
-    if (isBlocked(previous, ready))
+    if (ready.count(previous))
+      continue;
+    if (allPrevious ? isWaiting(previous) : isBlocked(previous, ready))
       return true;
+    ready.insert(previous);
   }
+  if (isWaiting(command))
+    return true;
 
   ready.insert(command);
   return false;
-- 
2.43.0


From 0f81ce8b45af3eb60ec81f64d149eeb5a7550898 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:04:22 +0000
Subject: [PATCH 077/130] fix: notify atomic stores when the new value is in
 memory

---
 src/core/Memory.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/Memory.cpp b/src/core/Memory.cpp
index dbf48d8..b22ac7a 100644
--- a/src/core/Memory.cpp
+++ b/src/core/Memory.cpp
@@ -105,11 +105,11 @@ template int32_t Memory::atomic(AtomicOp op, size_t address, int32_t value);
 template <typename T> T Memory::atomic(AtomicOp op, size_t address, T value)
 {
   m_context->notifyMemoryAtomicLoad(this, op, address, sizeof(T));
-  m_context->notifyMemoryAtomicStore(this, op, address, sizeof(T));
 
   // Bounds check
   if (!isAddressValid(address, sizeof(T)))
   {
+    m_context->notifyMemoryAtomicStore(this, op, address, sizeof(T));
     return 0;
   }
 
@@ -159,6 +159,8 @@ template <typename T> T Memory::atomic(AtomicOp op, size_t address, T value)
     break;
   }
 
+  m_context->notifyMemoryAtomicStore(this, op, address, sizeof(T));
+
   if (m_addressSpace == AddrSpaceGlobal)
     ATOMIC_MUTEX(offset).unlock();
 
-- 
2.43.0


From 542d3b215e2d83672153c3dc2e958530b9c8b6c9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:08:44 +0000
Subject: [PATCH 078/130] fix: recognise undefined shuffle indices in the
 uninitialized memory checks

---
 src/plugins/Uninitialized.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 39de5fc..891054d 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -1649,11 +1649,7 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     for (unsigned i = 0; i < newShadow.num; i++)
     {
       int index = shuffleInst->getMaskValue(i);
-#if LLVM_VERSION >= 210
-      if (index == llvm::PoisonMaskElem)
-#else
-      if (index == llvm::Value::UndefValueVal)
-#endif
+      if (index < 0)
       {
         // Undef value are poisoned
         memcpy(newShadow.data + i * newShadow.size, pv.data, newShadow.size);
-- 
2.43.0


From bb72f92fb16251de90e3406b07a34fdec956641d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:08:44 +0000
Subject: [PATCH 079/130] fix: do not let lgamma write the C library's global
 sign

---
 src/core/WorkItemBuiltins.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 5bda69c..d57d7bf 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -2346,6 +2346,16 @@ class WorkItemBuiltins
   {
     return 1.0 / x;
   }
+  static double _lgamma_(double x)
+  {
+#if defined(_WIN32) && !defined(__MINGW32__)
+    return ::lgamma(x);
+#else
+    // lgamma() writes the global variable signgam
+    int sign;
+    return ::lgamma_r(x, &sign);
+#endif
+  }
   static double _rsqrt_(double x)
   {
     return 1.0 / sqrt(x);
@@ -2526,7 +2536,7 @@ class WorkItemBuiltins
     for (unsigned i = 0; i < result.num; i++)
     {
       double x = FARGV(0, i);
-      double r = lgamma(x);
+      double r = _lgamma_(x);
       // Gamma is negative between -1 and 0, -3 and -2, and so on
       double f = floor(x);
       int32_t s = (x < 0 && x != f && fmod(f, 2.0) != 0 ? -1 : 1);
@@ -3964,7 +3974,7 @@ BuiltinFunctionMap WorkItemBuiltins::initBuiltins()
   ADD_BUILTIN("hypot", f2arg, F2ARG(hypot));
   ADD_BUILTIN("ilogb", ilogb_builtin, NULL);
   ADD_BUILTIN("ldexp", ldexp_builtin, NULL);
-  ADD_BUILTIN("lgamma", f1arg, F1ARG(lgamma));
+  ADD_BUILTIN("lgamma", f1arg, F1ARG(_lgamma_));
   ADD_BUILTIN("lgamma_r", lgamma_r, NULL);
   ADD_BUILTIN("log", f1arg, F1ARG(log));
   ADD_BUILTIN("log2", f1arg, F1ARG(log2));
-- 
2.43.0


From 6019ce7eefbc927d14d9edb8e45ea52035996fc9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:11:04 +0000
Subject: [PATCH 080/130] fix: make room for every function when merging
 instruction counts

---
 src/plugins/InstructionCounter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/plugins/InstructionCounter.cpp b/src/plugins/InstructionCounter.cpp
index df6157b..1e0b818 100644
--- a/src/plugins/InstructionCounter.cpp
+++ b/src/plugins/InstructionCounter.cpp
@@ -249,6 +249,8 @@ void InstructionCounter::workGroupComplete(const WorkGroup* workGroup)
       }
     }
 
+    if (opcode >= m_instructionCounts.size())
+      m_instructionCounts.resize(opcode + 1);
     m_instructionCounts[opcode] += m_state.instCounts->at(i);
   }
 
-- 
2.43.0


From caedab8ddff4418a45a3ee59ea9d8378b69860b8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:28:07 +0000
Subject: [PATCH 081/130] fix: keep the shadow of global memory in step with
 its buffers

---
 src/plugins/Uninitialized.cpp | 76 +++++++++++++++++++----------------
 src/plugins/Uninitialized.h   | 10 +++--
 2 files changed, 47 insertions(+), 39 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 891054d..1087a4d 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -27,14 +27,6 @@
 using namespace oclgrind;
 using namespace std;
 
-// void Uninitialized::memoryAllocated(const Memory *memory, size_t address,
-//                                 size_t size, cl_mem_flags flags,
-//                                 const uint8_t *initData)
-//{
-//    cout << "Memory: " << memory << ", address: " << hex << address << dec <<
-//    ", size: " << size << endl;
-//}
-
 // Multiple mutexes to mitigate risk of unnecessary synchronisation in atomics
 #define NUM_ATOMIC_MUTEXES 64 // Must be power of two
 static std::mutex atomicShadowMutex[NUM_ATOMIC_MUTEXES];
@@ -1013,8 +1005,7 @@ void Uninitialized::hostMemoryStore(const Memory* memory, size_t address,
 {
   if (memory->getAddressSpace() == AddrSpaceGlobal)
   {
-    TypedValue v = ShadowContext::getCleanValue(size);
-    allocAndStoreShadowMemory(AddrSpaceGlobal, address, v);
+    shadowContext.getGlobalMemory()->fill(address, size, true);
   }
 }
 
@@ -1820,18 +1811,6 @@ void Uninitialized::kernelBegin(const KernelInvocation* kernelInvocation)
         // Global pointer kernel arguments
         // value->second.data == ptr
         // value->second.size == ptr size
-        size_t address = value->second.getPointer();
-
-        if (m_context->getGlobalMemory()->isAddressValid(address) &&
-            !shadowContext.getGlobalMemory()->isAddressValid(address))
-        {
-          // Allocate poisoned global memory if there was no host store
-          size_t size = m_context->getGlobalMemory()->getBuffer(address)->size;
-          allocAndStoreShadowMemory(AddrSpaceGlobal, address,
-                                    ShadowContext::getPoisonedValue(size), NULL,
-                                    NULL, true);
-        }
-
         m_deferredInit.push_back(*value);
         break;
       }
@@ -1967,13 +1946,32 @@ void Uninitialized::logUninitializedWrite(unsigned int addrSpace,
   msg.send();
 }
 
+void Uninitialized::memoryAllocated(const Memory* memory, size_t address,
+                                    size_t size, cl_mem_flags flags,
+                                    const uint8_t* initData)
+{
+  if (memory->getAddressSpace() == AddrSpaceGlobal)
+  {
+    shadowContext.getGlobalMemory()->allocate(address, size);
+    shadowContext.getGlobalMemory()->fill(address, size, initData);
+  }
+}
+
+void Uninitialized::memoryDeallocated(const Memory* memory, size_t address)
+{
+  if (memory->getAddressSpace() == AddrSpaceGlobal)
+  {
+    shadowContext.getGlobalMemory()->deallocate(address);
+  }
+}
+
 void Uninitialized::memoryMap(const Memory* memory, size_t address,
                               size_t offset, size_t size, cl_map_flags flags)
 {
-  if (!(flags & CL_MAP_READ))
+  // The host might write to the whole region
+  if (memory->getAddressSpace() == AddrSpaceGlobal && flags != CL_MAP_READ)
   {
-    allocAndStoreShadowMemory(memory->getAddressSpace(), address + offset,
-                              ShadowContext::getCleanValue(size));
+    shadowContext.getGlobalMemory()->fill(address + offset, size, true);
   }
 }
 
@@ -2374,10 +2372,7 @@ void ShadowMemory::allocate(size_t address, size_t size)
 {
   size_t index = extractBuffer(address);
 
-  if (m_map.count(index))
-  {
-    deallocate(address);
-  }
+  deallocate(address);
 
   Buffer* buffer = new Buffer();
   buffer->size = size;
@@ -2399,13 +2394,15 @@ void ShadowMemory::clear()
 
 void ShadowMemory::deallocate(size_t address)
 {
-  size_t index = extractBuffer(address);
-
-  assert(m_map.count(index) && "Cannot deallocate non existing memory!");
+  MemoryMap::iterator mItr = m_map.find(extractBuffer(address));
+  if (mItr == m_map.end())
+  {
+    return;
+  }
 
-  delete[] m_map.at(index)->data;
-  delete m_map.at(index);
-  m_map.at(index) = NULL;
+  delete[] mItr->second->data;
+  delete mItr->second;
+  m_map.erase(mItr);
 }
 
 void ShadowMemory::dump() const
@@ -2440,6 +2437,15 @@ void ShadowMemory::dump() const
   cout << "=======================" << endl;
 }
 
+void ShadowMemory::fill(size_t address, size_t size, bool clean)
+{
+  if (isAddressValid(address, size))
+  {
+    memset(m_map.at(extractBuffer(address))->data + extractOffset(address),
+           clean ? 0 : -1, size);
+  }
+}
+
 size_t ShadowMemory::extractBuffer(size_t address) const
 {
   return (address >> m_numBitsAddress);
diff --git a/src/plugins/Uninitialized.h b/src/plugins/Uninitialized.h
index 07ccb47..12afe23 100644
--- a/src/plugins/Uninitialized.h
+++ b/src/plugins/Uninitialized.h
@@ -115,7 +115,9 @@ public:
   virtual ~ShadowMemory();
 
   void allocate(size_t address, size_t size);
+  void deallocate(size_t address);
   void dump() const;
+  void fill(size_t address, size_t size, bool clean);
   void* getPointer(size_t address) const;
   bool isAddressValid(size_t address, size_t size = 1) const;
   void load(unsigned char* dst, size_t address, size_t size = 1) const;
@@ -132,7 +134,6 @@ private:
   unsigned m_numBitsBuffer;
 
   void clear();
-  void deallocate(size_t address);
   size_t extractBuffer(size_t address) const;
   size_t extractOffset(size_t address) const;
 };
@@ -278,9 +279,10 @@ public:
   virtual void workItemComplete(const WorkItem* workItem) override;
   virtual void workGroupBegin(const WorkGroup* workGroup) override;
   virtual void workGroupComplete(const WorkGroup* workGroup) override;
-  // virtual void memoryAllocated(const Memory *memory, size_t address,
-  //                             size_t size, cl_mem_flags flags,
-  //                             const uint8_t *initData);
+  virtual void memoryAllocated(const Memory* memory, size_t address,
+                               size_t size, cl_mem_flags flags,
+                               const uint8_t* initData) override;
+  virtual void memoryDeallocated(const Memory* memory, size_t address) override;
 private:
   std::list<std::pair<const llvm::Value*, TypedValue>> m_deferredInit;
   std::list<std::pair<const llvm::Value*, TypedValue>> m_deferredInitGroup;
-- 
2.43.0


From e3295a877e7b0bcb2dac4e5edd6764bdb233048b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:29:04 +0000
Subject: [PATCH 082/130] fix: do not tie the shadow memory pool to the thread
 that created the context

---
 src/plugins/Uninitialized.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 1087a4d..bb9bc1a 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -39,13 +39,9 @@ THREAD_LOCAL ShadowContext::WorkSpace ShadowContext::m_workSpace = {NULL, NULL,
 Uninitialized::Uninitialized(const Context* context)
     : Plugin(context), shadowContext(sizeof(size_t) == 8 ? 32 : 16)
 {
-  shadowContext.createMemoryPool();
 }
 
-Uninitialized::~Uninitialized()
-{
-  shadowContext.destroyMemoryPool();
-}
+Uninitialized::~Uninitialized() {}
 
 void Uninitialized::allocAndStoreShadowMemory(unsigned addrSpace,
                                               size_t address, TypedValue SM,
@@ -1778,6 +1774,9 @@ void Uninitialized::kernelBegin(const KernelInvocation* kernelInvocation)
 {
   const Kernel* kernel = kernelInvocation->getKernel();
 
+  // The pool belongs to the calling thread
+  shadowContext.createMemoryPool();
+
   // Initialise kernel arguments and global variables
   for (auto value = kernel->values_begin(); value != kernel->values_end();
        value++)
@@ -1872,6 +1871,8 @@ void Uninitialized::kernelBegin(const KernelInvocation* kernelInvocation)
       m_deferredInit.push_back(*value);
     }
   }
+
+  shadowContext.destroyMemoryPool();
 }
 
 void Uninitialized::kernelEnd(const KernelInvocation* kernelInvocation)
-- 
2.43.0


From 4aadc13cdc0db94f39fb946568546c308dc5d983 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:29:04 +0000
Subject: [PATCH 083/130] fix: evaluate the shadow of async copies of any type
 and stride

---
 src/plugins/Uninitialized.cpp | 45 +++++++++++++++++++++++++++++------
 src/plugins/Uninitialized.h   |  5 ++--
 2 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index bb9bc1a..2ebcbcc 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -90,14 +90,14 @@ void Uninitialized::copyShadowMemory(unsigned dstAddrSpace, size_t dst,
                                      unsigned size, const WorkItem* workItem,
                                      const WorkGroup* workGroup, bool unchecked)
 {
-  copyShadowMemoryStrided(dstAddrSpace, dst, srcAddrSpace, src, 1, 1, size,
+  copyShadowMemoryStrided(dstAddrSpace, dst, 1, srcAddrSpace, src, 1, 1, size,
                           workItem, workGroup, unchecked);
 }
 
 void Uninitialized::copyShadowMemoryStrided(
-  unsigned dstAddrSpace, size_t dst, unsigned srcAddrSpace, size_t src,
-  size_t num, size_t stride, unsigned size, const WorkItem* workItem,
-  const WorkGroup* workGroup, bool unchecked)
+  unsigned dstAddrSpace, size_t dst, size_t dstStride, unsigned srcAddrSpace,
+  size_t src, size_t srcStride, size_t num, unsigned size,
+  const WorkItem* workItem, const WorkGroup* workGroup, bool unchecked)
 {
   TypedValue v = {size, 1, new unsigned char[size]};
 
@@ -105,8 +105,8 @@ void Uninitialized::copyShadowMemoryStrided(
   {
     loadShadowMemory(srcAddrSpace, src, v, workItem, workGroup);
     storeShadowMemory(dstAddrSpace, dst, v, workItem, workGroup, unchecked);
-    src += stride * size;
-    dst += stride * size;
+    src += srcStride * size;
+    dst += dstStride * size;
   }
 
   delete[] v.data;
@@ -189,16 +189,43 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
 
     // Get size of copy
     unsigned elemSize;
+    unsigned vecwidth = 1;
     char ptrtype = paramTypes[6];
+    if (ptrtype == 'D')
+    {
+      char* typestr;
+      vecwidth = strtol(paramTypes.c_str() + 8, &typestr, 10);
+      if (vecwidth == 3)
+      {
+        vecwidth = 4;
+      }
+      ptrtype = typestr[1];
+    }
     switch (ptrtype)
     {
+    case 'c':
+    case 'h':
+      elemSize = 1;
+      break;
+    case 's':
+    case 't':
+      elemSize = 2;
+      break;
+    case 'f':
     case 'i':
+    case 'j':
       elemSize = 4;
       break;
+    case 'd':
+    case 'l':
+    case 'm':
+      elemSize = 8;
+      break;
     default:
       FATAL_ERROR("Unsupported argument type: %c", ptrtype);
       break;
     }
+    elemSize *= vecwidth;
 
     const llvm::Value* numOp = CI->getArgOperand(arg++);
     uint64_t num = workItem->getOperand(numOp).getUInt();
@@ -240,7 +267,11 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
       dstAddrSpace = AddrSpaceGlobal;
     }
 
-    copyShadowMemoryStrided(dstAddrSpace, dst, srcAddrSpace, src, num, stride,
+    // The stride only applies to global memory
+    copyShadowMemoryStrided(dstAddrSpace, dst,
+                            dstAddrSpace == AddrSpaceGlobal ? stride : 1,
+                            srcAddrSpace, src,
+                            srcAddrSpace == AddrSpaceGlobal ? stride : 1, num,
                             elemSize, workItem);
     shadowValues->setValue(CI, eventShadow);
 
diff --git a/src/plugins/Uninitialized.h b/src/plugins/Uninitialized.h
index 12afe23..8a52245 100644
--- a/src/plugins/Uninitialized.h
+++ b/src/plugins/Uninitialized.h
@@ -301,8 +301,9 @@ private:
                         const WorkGroup* workGroup = NULL,
                         bool unchecked = false);
   void copyShadowMemoryStrided(unsigned dstAddrSpace, size_t dst,
-                               unsigned srcAddrSpace, size_t src, size_t num,
-                               size_t stride, unsigned size,
+                               size_t dstStride, unsigned srcAddrSpace,
+                               size_t src, size_t srcStride, size_t num,
+                               unsigned size,
                                const WorkItem* workItem = NULL,
                                const WorkGroup* workGroup = NULL,
                                bool unchecked = false);
-- 
2.43.0


From cb342fa1c68d889502173eb56de2ea380dd25c70 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:29:04 +0000
Subject: [PATCH 084/130] fix: propagate uninitialized values through every
 lane of pointer builtins

---
 src/plugins/Uninitialized.cpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 2ebcbcc..baaabdb 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -414,10 +414,10 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
         newElemShadow = ShadowContext::getCleanValue(result.size);
       }
 
-      memcpy(newShadow.data, newElemShadow.data, result.size);
+      memcpy(newShadow.data + i * result.size, newElemShadow.data, result.size);
     }
 
-    storeShadowMemory(addrSpace, iptr, newShadow);
+    storeShadowMemory(addrSpace, iptr, newShadow, workItem);
     shadowValues->setValue(CI, newShadow);
 
     // Check shadow of address
@@ -440,8 +440,9 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     TypedValue newElemShadow;
     TypedValue newElemIntShadow;
     TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
-    TypedValue newIntShadow = {newShadow.size, newShadow.num,
-                               shadowContext.getMemoryPool()->alloc(4)};
+    TypedValue newIntShadow = {
+      4, newShadow.num,
+      shadowContext.getMemoryPool()->alloc(4 * newShadow.num)};
 
     for (unsigned i = 0; i < result.num; ++i)
     {
@@ -456,11 +457,11 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
         newElemIntShadow = ShadowContext::getCleanValue(4);
       }
 
-      memcpy(newIntShadow.data, newElemIntShadow.data, 4);
-      memcpy(newShadow.data, newElemShadow.data, result.size);
+      memcpy(newIntShadow.data + i * 4, newElemIntShadow.data, 4);
+      memcpy(newShadow.data + i * result.size, newElemShadow.data, result.size);
     }
 
-    storeShadowMemory(addrSpace, iptr, newIntShadow);
+    storeShadowMemory(addrSpace, iptr, newIntShadow, workItem);
     shadowValues->setValue(CI, newShadow);
 
     // Check shadow of address
@@ -483,6 +484,7 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     TypedValue arg1Shadow =
       shadowContext.getValue(workItem, CI->getArgOperand(1));
     TypedValue newElemShadow;
+    TypedValue newElemIntShadow;
     TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
 
     for (unsigned i = 0; i < result.num; ++i)
@@ -491,14 +493,16 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
           !ShadowContext::isCleanValue(arg1Shadow, i))
       {
         newElemShadow = ShadowContext::getPoisonedValue(result.size);
+        newElemIntShadow = ShadowContext::getPoisonedValue(4);
       }
       else
       {
         newElemShadow = ShadowContext::getCleanValue(result.size);
+        newElemIntShadow = ShadowContext::getCleanValue(4);
       }
 
-      storeShadowMemory(addrSpace, iptr + i * 4, newElemShadow);
-      memcpy(newShadow.data, newElemShadow.data, result.size);
+      storeShadowMemory(addrSpace, iptr + i * 4, newElemIntShadow, workItem);
+      memcpy(newShadow.data + i * result.size, newElemShadow.data, result.size);
     }
 
     shadowValues->setValue(CI, newShadow);
-- 
2.43.0


From 6f9f94a35f6014c836c19c7ef3105aa7d1b1eb6a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:29:04 +0000
Subject: [PATCH 085/130] fix: select the lanes of shuffled shadows by the
 number of lanes

---
 src/plugins/Uninitialized.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index baaabdb..fa02d9b 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -534,7 +534,7 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
       }
       else
       {
-        size_t srcOffset = (mask.getUInt(i) % shadow.size) * shadow.size;
+        size_t srcOffset = (mask.getUInt(i) % shadow.num) * shadow.size;
         memcpy(newShadow.data + i * newShadow.size, shadow.data + srcOffset,
                newShadow.size);
       }
-- 
2.43.0


From d6a0809557891c3a30b50240b5339a2759c66a32 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:29:04 +0000
Subject: [PATCH 086/130] fix: let any() depend on lanes that are not
 initialized

---
 src/plugins/Uninitialized.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index fa02d9b..de55b9e 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -601,16 +601,26 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
       num = llvm::cast<llvm::FixedVectorType>(argType)->getNumElements();
     }
 
+    // The result is known if an initialized element has its top bit set
+    TypedValue arg = workItem->getOperand(argOp);
+    bool clean = true;
     for (unsigned i = 0; i < num; ++i)
     {
-      if (ShadowContext::isCleanValue(shadow, i))
+      if (!ShadowContext::isCleanValue(shadow, i))
       {
-        shadowValues->setValue(CI, ShadowContext::getCleanValue(result.size));
-        return true;
+        clean = false;
+      }
+      else if (arg.getSInt(i) < 0)
+      {
+        clean = true;
+        break;
       }
     }
 
-    shadowValues->setValue(CI, ShadowContext::getPoisonedValue(result.size));
+    shadowValues->setValue(CI,
+                           clean
+                             ? ShadowContext::getCleanValue(result.size)
+                             : ShadowContext::getPoisonedValue(result.size));
     return true;
   }
   else if (name == "select")
-- 
2.43.0


From 0fc037072e75fbbfe80656a8aeb0e86def9013d2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:29:53 +0000
Subject: [PATCH 087/130] fix: do not interpret the shadow of an image argument
 as an image

---
 src/plugins/Uninitialized.cpp | 87 +++--------------------------------
 src/plugins/Uninitialized.h   |  4 --
 2 files changed, 6 insertions(+), 85 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index de55b9e..6be7165 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -850,7 +850,7 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     // Has to be changed in combination with the write functions
     size_t address = image->address;
 
-    if (!ShadowContext::isCleanImage(shadowImage))
+    if (!ShadowContext::isCleanValue(shadowImage))
     {
       newShadow = ShadowContext::getPoisonedValue(result);
     }
@@ -862,7 +862,7 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     shadowValues->setValue(CI, newShadow);
 
     // Check image
-    if (!ShadowContext::isCleanImageAddress(shadowImage))
+    if (!ShadowContext::isCleanValue(shadowImage))
     {
       logUninitializedAddress(AddrSpaceGlobal, address, false);
     }
@@ -883,7 +883,7 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     size_t address = image->address;
 
     // Check image
-    if (!ShadowContext::isCleanImageAddress(shadowImage))
+    if (!ShadowContext::isCleanValue(shadowImage))
     {
       logUninitializedAddress(AddrSpaceGlobal, address);
     }
@@ -894,46 +894,9 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
   {
     TypedValue shadowImage =
       shadowContext.getValue(workItem, CI->getArgOperand(0));
-    TypedValue newShadow = {
-      result.size, result.num,
-      shadowContext.getMemoryPool()->alloc(result.size * result.num)};
-
-    if (name == "get_image_array_size")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_array_size);
-    }
-    else if (name == "get_image_dim")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_width, 0);
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_height, 1);
-
-      if (newShadow.num > 2)
-      {
-        newShadow.setUInt(((Image*)shadowImage.data)->desc.image_depth, 2);
-        newShadow.setUInt(0, 3);
-      }
-    }
-    else if (name == "get_image_depth")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_depth);
-    }
-    else if (name == "get_image_height")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_height);
-    }
-    else if (name == "get_image_width")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->desc.image_width);
-    }
-    else if (name == "get_image_channel_order")
-    {
-      newShadow.setUInt(((Image*)shadowImage.data)->format.image_channel_order);
-    }
-    else if (name == "get_image_channel_data_type")
-    {
-      newShadow.setUInt(
-        ((Image*)shadowImage.data)->format.image_channel_data_type);
-    }
+    TypedValue newShadow = ShadowContext::isCleanValue(shadowImage)
+                             ? ShadowContext::getCleanValue(result)
+                             : ShadowContext::getPoisonedValue(result);
 
     shadowValues->setValue(CI, newShadow);
     return true;
@@ -2807,44 +2770,6 @@ TypedValue ShadowContext::getValue(const WorkItem* workItem,
   }
 }
 
-bool ShadowContext::isCleanImage(const TypedValue shadowImage)
-{
-  return (isCleanImageAddress(shadowImage) &&
-          isCleanImageDescription(shadowImage) &&
-          isCleanImageFormat(shadowImage));
-}
-
-bool ShadowContext::isCleanImageAddress(const TypedValue shadowImage)
-{
-  Image* image = (Image*)shadowImage.data;
-
-  return ShadowContext::isCleanValue(image->address);
-}
-
-bool ShadowContext::isCleanImageDescription(const TypedValue shadowImage)
-{
-  Image* image = (Image*)shadowImage.data;
-
-  // TODO: image->desc.buffer is currently not checked
-  return (ShadowContext::isCleanValue(image->desc.image_type) &&
-          ShadowContext::isCleanValue(image->desc.image_width) &&
-          ShadowContext::isCleanValue(image->desc.image_height) &&
-          ShadowContext::isCleanValue(image->desc.image_depth) &&
-          ShadowContext::isCleanValue(image->desc.image_array_size) &&
-          ShadowContext::isCleanValue(image->desc.image_row_pitch) &&
-          ShadowContext::isCleanValue(image->desc.image_slice_pitch) &&
-          ShadowContext::isCleanValue(image->desc.num_mip_levels) &&
-          ShadowContext::isCleanValue(image->desc.num_samples));
-}
-
-bool ShadowContext::isCleanImageFormat(const TypedValue shadowImage)
-{
-  Image* image = (Image*)shadowImage.data;
-
-  return (ShadowContext::isCleanValue(image->format.image_channel_order) &&
-          ShadowContext::isCleanValue(image->format.image_channel_data_type));
-}
-
 bool ShadowContext::isCleanStruct(ShadowMemory* shadowMemory, size_t address,
                                   const llvm::StructType* structTy)
 {
diff --git a/src/plugins/Uninitialized.h b/src/plugins/Uninitialized.h
index 8a52245..39f4e3d 100644
--- a/src/plugins/Uninitialized.h
+++ b/src/plugins/Uninitialized.h
@@ -232,10 +232,6 @@ public:
     return llvm::isa<llvm::Constant>(V) || m_globalValues.count(V) ||
            m_workSpace.workItems->at(workItem)->getValues()->hasValue(V);
   }
-  static bool isCleanImage(const TypedValue shadowImage);
-  static bool isCleanImageAddress(const TypedValue shadowImage);
-  static bool isCleanImageDescription(const TypedValue shadowImage);
-  static bool isCleanImageFormat(const TypedValue shadowImage);
   static bool isCleanStruct(ShadowMemory* shadowMemory, size_t address,
                             const llvm::StructType* structTy);
   static bool isCleanValue(unsigned long v);
-- 
2.43.0


From d06a4399c132d4e376aaffd139afb08189565dab Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:29:53 +0000
Subject: [PATCH 088/130] fix: track the shadow of every atomic function and
 operand size

---
 src/plugins/Uninitialized.cpp | 27 +++++++++++++++------------
 src/plugins/Uninitialized.h   |  3 ++-
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 6be7165..13a50c2 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -336,20 +336,22 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
 
     return true;
   }
-  else if (name.compare(0, 6, "atomic") == 0)
+  else if (name.compare(0, 7, "atomic_") == 0 ||
+           name.compare(0, 5, "atom_") == 0)
   {
-    if (name.compare(6, string::npos, "cmpxchg") == 0)
+    string op = name.substr(name.find('_') + 1);
+    if (op == "cmpxchg")
     {
       const llvm::Value* Addr = CI->getArgOperand(0);
       unsigned addrSpace = Addr->getType()->getPointerAddressSpace();
       size_t address = workItem->getOperand(Addr).getPointer();
-      uint32_t cmp = workItem->getOperand(CI->getArgOperand(1)).getUInt();
-      uint32_t old = workItem->getOperand(CI).getUInt();
+      uint64_t cmp = workItem->getOperand(CI->getArgOperand(1)).getUInt();
+      uint64_t old = result.getUInt();
       TypedValue argShadow =
         shadowContext.getValue(workItem, CI->getArgOperand(2));
       TypedValue cmpShadow =
         shadowContext.getValue(workItem, CI->getArgOperand(1));
-      TypedValue oldShadow = {4, 1, shadowContext.getMemoryPool()->alloc(4)};
+      TypedValue oldShadow = shadowContext.getMemoryPool()->clone(result);
 
       // Check shadow of the condition
       if (!ShadowContext::isCleanValue(cmpShadow))
@@ -389,7 +391,7 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     }
     else
     {
-      SimpleOrAtomic(workItem, CI);
+      SimpleOrAtomic(workItem, CI, result, op == "xchg");
       return true;
     }
   }
@@ -2025,15 +2027,16 @@ void Uninitialized::SimpleOr(const WorkItem* workItem,
 }
 
 void Uninitialized::SimpleOrAtomic(const WorkItem* workItem,
-                                   const llvm::CallInst* CI)
+                                   const llvm::CallInst* CI,
+                                   const TypedValue& result, bool exchange)
 {
   const llvm::Value* Addr = CI->getArgOperand(0);
   unsigned addrSpace = Addr->getType()->getPointerAddressSpace();
   size_t address = workItem->getOperand(Addr).getPointer();
 
-  TypedValue oldShadow = {4, 1, shadowContext.getMemoryPool()->alloc(4)};
+  TypedValue oldShadow = shadowContext.getMemoryPool()->clone(result);
 
-  TypedValue newShadow = ShadowContext::getCleanValue(4);
+  TypedValue newShadow = ShadowContext::getCleanValue(result);
 
   if (addrSpace == AddrSpaceGlobal)
   {
@@ -2042,9 +2045,9 @@ void Uninitialized::SimpleOrAtomic(const WorkItem* workItem,
 
   loadShadowMemory(addrSpace, address, oldShadow, workItem);
 
-  if (!ShadowContext::isCleanValue(oldShadow))
+  if (!exchange && !ShadowContext::isCleanValue(oldShadow))
   {
-    newShadow = ShadowContext::getPoisonedValue(4);
+    newShadow = ShadowContext::getPoisonedValue(result);
   }
 
   if (CI->arg_size() > 1)
@@ -2053,7 +2056,7 @@ void Uninitialized::SimpleOrAtomic(const WorkItem* workItem,
       shadowContext.getValue(workItem, CI->getArgOperand(1));
     if (!ShadowContext::isCleanValue(argShadow))
     {
-      newShadow = ShadowContext::getPoisonedValue(4);
+      newShadow = ShadowContext::getPoisonedValue(result);
     }
   }
 
diff --git a/src/plugins/Uninitialized.h b/src/plugins/Uninitialized.h
index 39f4e3d..8c3da79 100644
--- a/src/plugins/Uninitialized.h
+++ b/src/plugins/Uninitialized.h
@@ -321,7 +321,8 @@ private:
   void logUninitializedIndex() const;
   void logUninitializedWrite(unsigned int addrSpace, size_t address) const;
   void SimpleOr(const WorkItem* workItem, const llvm::Instruction* I);
-  void SimpleOrAtomic(const WorkItem* workItem, const llvm::CallInst* CI);
+  void SimpleOrAtomic(const WorkItem* workItem, const llvm::CallInst* CI,
+                      const TypedValue& result, bool exchange);
   void storeShadowMemory(unsigned addrSpace, size_t address, TypedValue SM,
                          const WorkItem* workItem = NULL,
                          const WorkGroup* workGroup = NULL,
-- 
2.43.0


From 323ec0e27b1b2a1cfcab58666838763db6768f31 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:29:53 +0000
Subject: [PATCH 089/130] fix: support every intrinsic and instruction in the
 uninitialized memory checks

---
 src/plugins/Uninitialized.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 13a50c2..0faf0ba 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -922,8 +922,9 @@ void Uninitialized::handleIntrinsicInstruction(const WorkItem* workItem,
     break;
   }
   case llvm::Intrinsic::memcpy:
+  case llvm::Intrinsic::memmove:
   {
-    const llvm::MemCpyInst* memcpyInst = (const llvm::MemCpyInst*)I;
+    const llvm::MemTransferInst* memcpyInst = (const llvm::MemTransferInst*)I;
     const llvm::Value* dstOp = memcpyInst->getDest();
     const llvm::Value* srcOp = memcpyInst->getSource();
     size_t dst = workItem->getOperand(dstOp).getPointer();
@@ -1001,8 +1002,11 @@ void Uninitialized::handleIntrinsicInstruction(const WorkItem* workItem,
     // Do nothing
     break;
   default:
-    FATAL_ERROR("Unsupported intrinsic %s",
-                llvm::Intrinsic::getName(I->getIntrinsicID()).data());
+    if (I->getType()->isSized())
+    {
+      SimpleOr(workItem, I);
+    }
+    break;
   }
 }
 
@@ -1034,6 +1038,11 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     VectorOr(workItem, instruction);
     break;
   }
+  case llvm::Instruction::AddrSpaceCast:
+  {
+    SimpleOr(workItem, instruction);
+    break;
+  }
   case llvm::Instruction::Alloca:
   {
     const llvm::AllocaInst* allocaInst = ((const llvm::AllocaInst*)instruction);
-- 
2.43.0


From bfd99bd86d711fb81265377be3ec05e22be11bf8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:29:53 +0000
Subject: [PATCH 090/130] fix: do not access shadow vectors out of bounds

---
 src/plugins/Uninitialized.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 0faf0ba..cf15ec6 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -1235,8 +1235,11 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
 
     unsigned index =
       workItem->getOperand(extractInst->getIndexOperand()).getUInt();
-    memcpy(newShadow.data, vectorShadow.data + newShadow.size * index,
-           newShadow.size);
+    if (index < vectorShadow.num)
+      memcpy(newShadow.data, vectorShadow.data + newShadow.size * index,
+             newShadow.size);
+    else
+      newShadow = ShadowContext::getPoisonedValue(result);
 
     shadowValues->setValue(instruction, newShadow);
     break;
@@ -1369,8 +1372,11 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
 
     unsigned index = workItem->getOperand(instruction->getOperand(2)).getUInt();
     memcpy(newShadow.data, vectorShadow.data, newShadow.size * newShadow.num);
-    memcpy(newShadow.data + index * newShadow.size, elementShadow.data,
-           newShadow.size);
+    if (index < newShadow.num)
+      memcpy(newShadow.data + index * newShadow.size, elementShadow.data,
+             newShadow.size);
+    else
+      newShadow = ShadowContext::getPoisonedValue(result);
 
     shadowValues->setValue(instruction, newShadow);
     break;
-- 
2.43.0


From bbe0b20c99ab5033dc569a6e0118295dd201e071 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:30:30 +0000
Subject: [PATCH 091/130] fix: evaluate the shadows of PHI nodes at the same
 time

---
 src/plugins/Uninitialized.cpp | 17 ++++++++++++++++-
 src/plugins/Uninitialized.h   | 14 ++++++++++++++
 2 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index cf15ec6..926c5ed 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -1031,6 +1031,12 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
   ShadowWorkItem* shadowWorkItem = shadowContext.getShadowWorkItem(workItem);
   ShadowValues* shadowValues = shadowWorkItem->getValues();
 
+  // All PHI nodes of a block take their values at the same time
+  if (instruction->getOpcode() != llvm::Instruction::PHI)
+  {
+    shadowValues->setPhis();
+  }
+
   switch (instruction->getOpcode())
   {
   case llvm::Instruction::Add:
@@ -1511,7 +1517,7 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
       phiNode->getIncomingValueForBlock(workItem->getPreviousBlock());
     TypedValue shadowValue = shadowContext.getValue(workItem, value);
 
-    shadowValues->setValue(instruction, shadowValue);
+    shadowValues->setPhi(instruction, shadowValue);
     break;
   }
   case llvm::Instruction::PtrToInt:
@@ -2325,6 +2331,15 @@ TypedValue ShadowFrame::getValue(const llvm::Value* V) const
   }
 }
 
+void ShadowFrame::setPhis()
+{
+  for (auto& phi : m_phis)
+  {
+    setValue(phi.first, phi.second);
+  }
+  m_phis.clear();
+}
+
 void ShadowFrame::setValue(const llvm::Value* V, TypedValue SV)
 {
 #ifdef DUMP_SHADOW
diff --git a/src/plugins/Uninitialized.h b/src/plugins/Uninitialized.h
index 8c3da79..57a68f0 100644
--- a/src/plugins/Uninitialized.h
+++ b/src/plugins/Uninitialized.h
@@ -41,12 +41,18 @@ public:
   {
     m_call = CI;
   }
+  inline void setPhi(const llvm::Value* V, TypedValue SV)
+  {
+    m_phis.push_back({V, SV});
+  }
+  void setPhis();
   void setValue(const llvm::Value* V, TypedValue SV);
 
 private:
   typedef std::list<const llvm::Value*> ValuesList;
 
   const llvm::CallInst* m_call;
+  std::list<std::pair<const llvm::Value*, TypedValue>> m_phis;
   UnorderedTypedValueMap* m_values;
 #ifdef DUMP_SHADOW
   ValuesList* m_valuesList;
@@ -90,6 +96,14 @@ public:
   {
     m_stack->top()->setCall(CI);
   }
+  inline void setPhi(const llvm::Value* V, TypedValue SV)
+  {
+    m_stack->top()->setPhi(V, SV);
+  }
+  inline void setPhis()
+  {
+    m_stack->top()->setPhis();
+  }
   inline void setValue(const llvm::Value* V, TypedValue SV)
   {
     m_stack->top()->setValue(V, SV);
-- 
2.43.0


From b2d1428ffad0005a21cd5f3f00b71655355cd12b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:30:30 +0000
Subject: [PATCH 092/130] fix: check uninitialized constant buffers

---
 src/plugins/Uninitialized.cpp | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 926c5ed..7d5a73e 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -158,8 +158,7 @@ ShadowMemory* Uninitialized::getShadowMemory(unsigned addrSpace,
 
     return shadowContext.getShadowWorkGroup(workGroup)->getLocalMemory();
   }
-  // case AddrSpaceConstant:
-  //    break;
+  case AddrSpaceConstant:
   case AddrSpaceGlobal:
     return shadowContext.getGlobalMemory();
   default:
@@ -1917,12 +1916,6 @@ void Uninitialized::loadShadowMemory(unsigned addrSpace, size_t address,
                                      TypedValue& SM, const WorkItem* workItem,
                                      const WorkGroup* workGroup)
 {
-  if (addrSpace == AddrSpaceConstant)
-  {
-    // TODO: Eventually load value
-    memset(SM.data, 0, SM.size * SM.num);
-    return;
-  }
 
   ShadowMemory* memory = getShadowMemory(addrSpace, workItem, workGroup);
   memory->load(SM.data, address, SM.size * SM.num);
-- 
2.43.0


From f022d2b0101c9d84a5d536c28ba47501b2772f35 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:38:00 +0000
Subject: [PATCH 093/130] fix: do not treat the padding of three-element
 vectors as uninitialized

---
 src/plugins/Uninitialized.cpp | 45 +++++++++++++++++++++++++++++++++++
 1 file changed, 45 insertions(+)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 7d5a73e..9963130 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -36,6 +36,40 @@ static std::mutex atomicShadowMutex[NUM_ATOMIC_MUTEXES];
 THREAD_LOCAL ShadowContext::WorkSpace ShadowContext::m_workSpace = {NULL, NULL,
                                                                     NULL, 0};
 
+// Returns true if no instruction ever gives this lane of the vector a value
+static bool isUndefLane(const llvm::Value* value, unsigned lane)
+{
+  while (true)
+  {
+    if (auto* shuffle = llvm::dyn_cast<llvm::ShuffleVectorInst>(value))
+    {
+      int index = shuffle->getMaskValue(lane);
+      if (index < 0)
+        return true;
+      int num = llvm::cast<llvm::FixedVectorType>(
+                  shuffle->getOperand(0)->getType())
+                  ->getNumElements();
+      value = shuffle->getOperand(index < num ? 0 : 1);
+      lane = index % num;
+    }
+    else if (auto* insert = llvm::dyn_cast<llvm::InsertElementInst>(value))
+    {
+      auto* index = llvm::dyn_cast<llvm::ConstantInt>(insert->getOperand(2));
+      if (!index)
+        return false;
+      if (index->getZExtValue() == lane)
+        return llvm::isa<llvm::UndefValue>(insert->getOperand(1));
+      value = insert->getOperand(0);
+    }
+    else
+    {
+      auto* constant = llvm::dyn_cast<llvm::Constant>(value);
+      auto* element = constant ? constant->getAggregateElement(lane) : NULL;
+      return element && llvm::isa<llvm::UndefValue>(element);
+    }
+  }
+}
+
 Uninitialized::Uninitialized(const Context* context)
     : Plugin(context), shadowContext(sizeof(size_t) == 8 ? 32 : 16)
 {
@@ -1712,6 +1746,17 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     TypedValue shadowVal = storeInst->isAtomic()
                              ? ShadowContext::getCleanValue(Val)
                              : shadowContext.getValue(workItem, Val);
+
+    // Vectors of three elements are stored as four elements, of which the last
+    // one is padding that does not have a value
+    auto* vecType = llvm::dyn_cast<llvm::FixedVectorType>(Val->getType());
+    if (vecType && vecType->getNumElements() == 4 && isUndefLane(Val, 3) &&
+        !isUndefLane(Val, 2))
+    {
+      shadowVal = shadowContext.getMemoryPool()->clone(shadowVal);
+      memset(shadowVal.data + 3 * shadowVal.size, 0, shadowVal.size);
+    }
+
     storeShadowMemory(addrSpace, address, shadowVal, workItem);
 
     // Check shadow of address
-- 
2.43.0


From 86ff89c39a2cbe1003069cf2637cb9bf46821e16 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:40:27 +0000
Subject: [PATCH 094/130] fix: keep the shadows of vector lanes apart in
 shifts, selects and intrinsics

---
 src/plugins/Uninitialized.cpp | 109 +++++++++++++++++-----------------
 1 file changed, 54 insertions(+), 55 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 9963130..1b481e0 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -1108,26 +1108,20 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     TypedValue S1 =
       shadowContext.getValue(workItem, instruction->getOperand(1));
 
-    if (!ShadowContext::isCleanValue(S1))
-    {
-      shadowValues->setValue(instruction,
-                             ShadowContext::getPoisonedValue(instruction));
-    }
-    else
-    {
-      TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
-      TypedValue Shift = workItem->getOperand(instruction->getOperand(1));
-      uint64_t shiftMask =
-        (S0.num > 1 ? S0.size : max((size_t)S0.size, sizeof(uint32_t))) * 8 - 1;
+    TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
+    TypedValue Shift = workItem->getOperand(instruction->getOperand(1));
+    uint64_t shiftMask =
+      (S0.num > 1 ? S0.size : max((size_t)S0.size, sizeof(uint32_t))) * 8 - 1;
 
-      for (unsigned i = 0; i < S0.num; i++)
-      {
+    for (unsigned i = 0; i < S0.num; i++)
+    {
+      if (ShadowContext::isCleanValue(S1, i))
         newShadow.setUInt(S0.getSInt(i) >> (Shift.getUInt(i) & shiftMask), i);
-      }
-
-      shadowValues->setValue(instruction, newShadow);
+      else
+        newShadow.setSInt(-1, i);
     }
 
+    shadowValues->setValue(instruction, newShadow);
     break;
   }
   case llvm::Instruction::BitCast:
@@ -1511,26 +1505,20 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     TypedValue S1 =
       shadowContext.getValue(workItem, instruction->getOperand(1));
 
-    if (!ShadowContext::isCleanValue(S1))
-    {
-      shadowValues->setValue(instruction,
-                             ShadowContext::getPoisonedValue(instruction));
-    }
-    else
-    {
-      TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
-      TypedValue Shift = workItem->getOperand(instruction->getOperand(1));
-      uint64_t shiftMask =
-        (S0.num > 1 ? S0.size : max((size_t)S0.size, sizeof(uint32_t))) * 8 - 1;
+    TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
+    TypedValue Shift = workItem->getOperand(instruction->getOperand(1));
+    uint64_t shiftMask =
+      (S0.num > 1 ? S0.size : max((size_t)S0.size, sizeof(uint32_t))) * 8 - 1;
 
-      for (unsigned i = 0; i < S0.num; i++)
-      {
+    for (unsigned i = 0; i < S0.num; i++)
+    {
+      if (ShadowContext::isCleanValue(S1, i))
         newShadow.setUInt(S0.getUInt(i) >> (Shift.getUInt(i) & shiftMask), i);
-      }
-
-      shadowValues->setValue(instruction, newShadow);
+      else
+        newShadow.setSInt(-1, i);
     }
 
+    shadowValues->setValue(instruction, newShadow);
     break;
   }
   case llvm::Instruction::Mul:
@@ -1612,7 +1600,9 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
       shadowContext.getValue(workItem, selectInst->getCondition());
     TypedValue newShadow;
 
-    if (!ShadowContext::isCleanValue(conditionShadow))
+    const bool vectorCondition =
+      selectInst->getCondition()->getType()->isVectorTy();
+    if (!vectorCondition && !ShadowContext::isCleanValue(conditionShadow))
     {
       newShadow = ShadowContext::getPoisonedValue(instruction);
     }
@@ -1622,9 +1612,14 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
 
       for (unsigned i = 0; i < result.num; i++)
       {
-        const bool cond = selectInst->getCondition()->getType()->isVectorTy()
-                            ? opCondition.getUInt(i)
-                            : opCondition.getUInt();
+        if (vectorCondition && !ShadowContext::isCleanValue(conditionShadow, i))
+        {
+          memset(newShadow.data + i * newShadow.size, 0xff, newShadow.size);
+          continue;
+        }
+
+        const bool cond =
+          vectorCondition ? opCondition.getUInt(i) : opCondition.getUInt();
         const llvm::Value* op =
           cond ? selectInst->getTrueValue() : selectInst->getFalseValue();
 
@@ -1664,26 +1659,20 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     TypedValue S1 =
       shadowContext.getValue(workItem, instruction->getOperand(1));
 
-    if (!ShadowContext::isCleanValue(S1))
-    {
-      shadowValues->setValue(instruction,
-                             ShadowContext::getPoisonedValue(instruction));
-    }
-    else
-    {
-      TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
-      TypedValue Shift = workItem->getOperand(instruction->getOperand(1));
-      uint64_t shiftMask =
-        (S0.num > 1 ? S0.size : max((size_t)S0.size, sizeof(uint32_t))) * 8 - 1;
+    TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
+    TypedValue Shift = workItem->getOperand(instruction->getOperand(1));
+    uint64_t shiftMask =
+      (S0.num > 1 ? S0.size : max((size_t)S0.size, sizeof(uint32_t))) * 8 - 1;
 
-      for (unsigned i = 0; i < S0.num; i++)
-      {
+    for (unsigned i = 0; i < S0.num; i++)
+    {
+      if (ShadowContext::isCleanValue(S1, i))
         newShadow.setUInt(S0.getUInt(i) << (Shift.getUInt(i) & shiftMask), i);
-      }
-
-      shadowValues->setValue(instruction, newShadow);
+      else
+        newShadow.setSInt(-1, i);
     }
 
+    shadowValues->setValue(instruction, newShadow);
     break;
   }
   case llvm::Instruction::ShuffleVector:
@@ -2071,18 +2060,28 @@ void Uninitialized::SimpleOr(const WorkItem* workItem,
   ShadowValues* shadowValues =
     shadowContext.getShadowWorkItem(workItem)->getValues();
 
+  TypedValue newShadow = ShadowContext::getCleanValue(I);
+
   for (llvm::Instruction::const_op_iterator OI = I->op_begin();
        OI != I->op_end(); ++OI)
   {
-    if (!ShadowContext::isCleanValue(
-          shadowContext.getValue(workItem, OI->get())))
+    TypedValue shadow = shadowContext.getValue(workItem, OI->get());
+    if (ShadowContext::isCleanValue(shadow))
+      continue;
+
+    if (shadow.num == newShadow.num)
+    {
+      // The lanes of a vector do not depend on each other
+      ShadowContext::shadowOr(newShadow, shadow);
+    }
+    else
     {
       shadowValues->setValue(I, ShadowContext::getPoisonedValue(I));
       return;
     }
   }
 
-  shadowValues->setValue(I, ShadowContext::getCleanValue(I));
+  shadowValues->setValue(I, newShadow);
 }
 
 void Uninitialized::SimpleOrAtomic(const WorkItem* workItem,
-- 
2.43.0


From 9106eaac869bb66ac4cd44c05004ed12e162bae1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:41:47 +0000
Subject: [PATCH 095/130] fix: do not report vector lanes that the compiler
 left open

---
 src/plugins/Uninitialized.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 1b481e0..67090e3 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -1736,17 +1736,27 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
                              ? ShadowContext::getCleanValue(Val)
                              : shadowContext.getValue(workItem, Val);
 
-    // Vectors of three elements are stored as four elements, of which the last
-    // one is padding that does not have a value
-    auto* vecType = llvm::dyn_cast<llvm::FixedVectorType>(Val->getType());
-    if (vecType && vecType->getNumElements() == 4 && isUndefLane(Val, 3) &&
-        !isUndefLane(Val, 2))
+    bool unchecked = false;
+    if (llvm::isa<llvm::FixedVectorType>(Val->getType()))
     {
-      shadowVal = shadowContext.getMemoryPool()->clone(shadowVal);
-      memset(shadowVal.data + 3 * shadowVal.size, 0, shadowVal.size);
+      // Vectors of three elements are stored as four elements, of which the
+      // last one is padding that does not have a value
+      if (shadowVal.num == 4 && isUndefLane(Val, 3) && !isUndefLane(Val, 2))
+      {
+        shadowVal = shadowContext.getMemoryPool()->clone(shadowVal);
+        memset(shadowVal.data + 3 * shadowVal.size, 0, shadowVal.size);
+      }
+
+      // The compiler leaves lanes open that are going to be stored separately
+      unchecked = true;
+      for (unsigned i = 0; i < shadowVal.num; i++)
+      {
+        if (!ShadowContext::isCleanValue(shadowVal, i) && !isUndefLane(Val, i))
+          unchecked = false;
+      }
     }
 
-    storeShadowMemory(addrSpace, address, shadowVal, workItem);
+    storeShadowMemory(addrSpace, address, shadowVal, workItem, NULL, unchecked);
 
     // Check shadow of address
     TypedValue addrShadow = shadowContext.getValue(workItem, Addr);
-- 
2.43.0


From b9fe7fcd7b486403c3ea26830aaf98624ea9c022 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:42:42 +0000
Subject: [PATCH 096/130] fix: follow vector lanes without a value through
 arithmetic

---
 src/plugins/Uninitialized.cpp | 65 +++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 26 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 67090e3..1d7cc26 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -36,38 +36,51 @@ static std::mutex atomicShadowMutex[NUM_ATOMIC_MUTEXES];
 THREAD_LOCAL ShadowContext::WorkSpace ShadowContext::m_workSpace = {NULL, NULL,
                                                                     NULL, 0};
 
-// Returns true if no instruction ever gives this lane of the vector a value
-static bool isUndefLane(const llvm::Value* value, unsigned lane)
+// Returns true if the compiler did not give this lane of the vector a value
+static bool isUndefLane(const llvm::Value* value, unsigned lane,
+                        unsigned depth = 0)
 {
-  while (true)
+  // Limit the search, which also ends cycles of PHI nodes
+  if (depth > 16)
+    return false;
+  depth++;
+
+  if (auto* shuffle = llvm::dyn_cast<llvm::ShuffleVectorInst>(value))
   {
-    if (auto* shuffle = llvm::dyn_cast<llvm::ShuffleVectorInst>(value))
+    int index = shuffle->getMaskValue(lane);
+    if (index < 0)
+      return true;
+    int num =
+      llvm::cast<llvm::FixedVectorType>(shuffle->getOperand(0)->getType())
+        ->getNumElements();
+    return isUndefLane(shuffle->getOperand(index < num ? 0 : 1), index % num,
+                       depth);
+  }
+  else if (auto* insert = llvm::dyn_cast<llvm::InsertElementInst>(value))
+  {
+    auto* index = llvm::dyn_cast<llvm::ConstantInt>(insert->getOperand(2));
+    if (!index)
+      return false;
+    if (index->getZExtValue() == lane)
+      return llvm::isa<llvm::UndefValue>(insert->getOperand(1));
+    return isUndefLane(insert->getOperand(0), lane, depth);
+  }
+  else if (llvm::isa<llvm::BinaryOperator, llvm::UnaryOperator>(value))
+  {
+    for (const llvm::Value* op : llvm::cast<llvm::Instruction>(value)->operands())
     {
-      int index = shuffle->getMaskValue(lane);
-      if (index < 0)
+      if (isUndefLane(op, lane, depth))
         return true;
-      int num = llvm::cast<llvm::FixedVectorType>(
-                  shuffle->getOperand(0)->getType())
-                  ->getNumElements();
-      value = shuffle->getOperand(index < num ? 0 : 1);
-      lane = index % num;
-    }
-    else if (auto* insert = llvm::dyn_cast<llvm::InsertElementInst>(value))
-    {
-      auto* index = llvm::dyn_cast<llvm::ConstantInt>(insert->getOperand(2));
-      if (!index)
-        return false;
-      if (index->getZExtValue() == lane)
-        return llvm::isa<llvm::UndefValue>(insert->getOperand(1));
-      value = insert->getOperand(0);
-    }
-    else
-    {
-      auto* constant = llvm::dyn_cast<llvm::Constant>(value);
-      auto* element = constant ? constant->getAggregateElement(lane) : NULL;
-      return element && llvm::isa<llvm::UndefValue>(element);
     }
+    return false;
   }
+  else if (auto* constant = llvm::dyn_cast<llvm::Constant>(value))
+  {
+    auto* element = constant->getAggregateElement(lane);
+    return element && llvm::isa<llvm::UndefValue>(element);
+  }
+
+  return false;
 }
 
 Uninitialized::Uninitialized(const Context* context)
-- 
2.43.0


From a9ca4fa5b4a16e5c99768dbfbd5934b2a59c6492 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:44:45 +0000
Subject: [PATCH 097/130] fix: evaluate the shadows of packed vectors and wide
 integers

---
 src/core/WorkItem.cpp         | 37 -------------------
 src/core/common.cpp           | 36 +++++++++++++++++++
 src/core/common.h             | 12 +++++++
 src/plugins/Uninitialized.cpp | 67 +++++++++++++++++++++++++++++++++--
 4 files changed, 112 insertions(+), 40 deletions(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 4be262b..829cd8a 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -151,13 +151,6 @@ int64_t getSigned(const llvm::Value* value, const TypedValue& data, unsigned i)
   return (int64_t)(data.getUInt(i) << (64 - bits)) >> (64 - bits);
 }
 
-// Check for vectors whose elements are not a whole number of bytes, which are
-// stored without padding between the elements
-bool isBitPacked(const llvm::Type* type)
-{
-  return type->isVectorTy() && (type->getScalarSizeInBits() & 7);
-}
-
 // Check for integers that are too wide for the native integer types
 bool isWideInteger(const llvm::Type* type)
 {
@@ -173,36 +166,6 @@ llvm::APInt getWideInteger(const llvm::Value* value, const TypedValue& data,
   return result;
 }
 
-void packBits(const llvm::Type* type, const TypedValue& value,
-              unsigned char* data)
-{
-  unsigned bits = type->getScalarSizeInBits();
-  memset(data, 0, (bits * value.num + 7) / 8);
-  for (unsigned i = 0; i < value.num; i++)
-  {
-    for (unsigned b = 0; b < bits; b++)
-    {
-      size_t pos = (size_t)i * bits + b;
-      data[pos / 8] |= ((value.getUInt(i) >> b) & 1) << (pos % 8);
-    }
-  }
-}
-
-void unpackBits(const llvm::Type* type, const unsigned char* data,
-                TypedValue& value)
-{
-  unsigned bits = type->getScalarSizeInBits();
-  for (unsigned i = 0; i < value.num; i++)
-  {
-    uint64_t element = 0;
-    for (unsigned b = 0; b < bits; b++)
-    {
-      size_t pos = (size_t)i * bits + b;
-      element |= (uint64_t)((data[pos / 8] >> (pos % 8)) & 1) << b;
-    }
-    value.setUInt(element, i);
-  }
-}
 } // namespace
 
 void WorkItem::dispatch(const llvm::Instruction* instruction,
diff --git a/src/core/common.cpp b/src/core/common.cpp
index 36fc51d..9af6105 100644
--- a/src/core/common.cpp
+++ b/src/core/common.cpp
@@ -796,12 +796,48 @@ bool isConstantOperand(const llvm::Value* operand)
           id <= llvm::Value::ConstantLastVal);
 }
 
+bool isBitPacked(const llvm::Type* type)
+{
+  return type->isVectorTy() && (type->getScalarSizeInBits() & 7);
+}
+
 bool isVector3(const llvm::Value* value)
 {
   auto vecType = llvm::dyn_cast<llvm::FixedVectorType>(value->getType());
   return (vecType && vecType->getNumElements() == 3);
 }
 
+void packBits(const llvm::Type* type, const TypedValue& value,
+              unsigned char* data)
+{
+  unsigned bits = type->getScalarSizeInBits();
+  memset(data, 0, (bits * value.num + 7) / 8);
+  for (unsigned i = 0; i < value.num; i++)
+  {
+    for (unsigned b = 0; b < bits; b++)
+    {
+      size_t pos = (size_t)i * bits + b;
+      data[pos / 8] |= ((value.getUInt(i) >> b) & 1) << (pos % 8);
+    }
+  }
+}
+
+void unpackBits(const llvm::Type* type, const unsigned char* data,
+                TypedValue& value)
+{
+  unsigned bits = type->getScalarSizeInBits();
+  for (unsigned i = 0; i < value.num; i++)
+  {
+    uint64_t element = 0;
+    for (unsigned b = 0; b < bits; b++)
+    {
+      size_t pos = (size_t)i * bits + b;
+      element |= (uint64_t)((data[pos / 8] >> (pos % 8)) & 1) << b;
+    }
+    value.setUInt(element, i);
+  }
+}
+
 double now()
 {
 #if defined(_WIN32) && !defined(__MINGW32__)
diff --git a/src/core/common.h b/src/core/common.h
index 40de694..99142c8 100644
--- a/src/core/common.h
+++ b/src/core/common.h
@@ -192,9 +192,21 @@ std::pair<unsigned, unsigned> getValueSize(const llvm::Value* value);
 // Returns true if the operand is a constant value
 bool isConstantOperand(const llvm::Value* operand);
 
+// Returns true for vectors whose elements are not a whole number of bytes,
+// which are stored without padding between the elements
+bool isBitPacked(const llvm::Type* type);
+
 // Returns true if the value is a 3-element vector
 bool isVector3(const llvm::Value* value);
 
+// Convert the elements of a value to their packed representation in memory
+void packBits(const llvm::Type* type, const TypedValue& value,
+              unsigned char* data);
+
+// Convert the packed representation of a value to its elements
+void unpackBits(const llvm::Type* type, const unsigned char* data,
+                TypedValue& value);
+
 // Return the current time in nanoseconds since the epoch
 double now();
 
diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 1d7cc26..2afb9a7 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -74,6 +74,15 @@ static bool isUndefLane(const llvm::Value* value, unsigned lane,
     }
     return false;
   }
+  else if (auto* phi = llvm::dyn_cast<llvm::PHINode>(value))
+  {
+    for (const llvm::Value* op : phi->incoming_values())
+    {
+      if (op != phi && !isUndefLane(op, lane, depth))
+        return false;
+    }
+    return true;
+  }
   else if (auto* constant = llvm::dyn_cast<llvm::Constant>(value))
   {
     auto* element = constant->getAggregateElement(lane);
@@ -1083,6 +1092,20 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     shadowValues->setPhis();
   }
 
+  // Shift and extend integers that are not native as a whole
+  if (instruction->isShift() || llvm::isa<llvm::ZExtInst>(instruction) ||
+      llvm::isa<llvm::SExtInst>(instruction))
+  {
+    unsigned size =
+      max(instruction->getType()->getScalarSizeInBits(),
+          instruction->getOperand(0)->getType()->getScalarSizeInBits());
+    if (size > 64 || (size > 8 && !llvm::isPowerOf2_32(size)))
+    {
+      SimpleOr(workItem, instruction);
+      return;
+    }
+  }
+
   switch (instruction->getOpcode())
   {
   case llvm::Instruction::Add:
@@ -1143,7 +1166,25 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
       shadowContext.getValue(workItem, instruction->getOperand(0));
     TypedValue newShadow = shadowContext.getMemoryPool()->clone(result);
 
-    memcpy(newShadow.data, shadow.data, newShadow.size * newShadow.num);
+    const llvm::Type* from = instruction->getOperand(0)->getType();
+    const llvm::Type* to = instruction->getType();
+    if (isBitPacked(from) || isBitPacked(to))
+    {
+      vector<unsigned char> bits((to->getPrimitiveSizeInBits() + 7) / 8);
+      if (isBitPacked(from))
+        packBits(from, shadow, bits.data());
+      else
+        memcpy(bits.data(), shadow.data, bits.size());
+      if (isBitPacked(to))
+        unpackBits(to, bits.data(), newShadow);
+      else
+        memcpy(newShadow.data, bits.data(), bits.size());
+    }
+    else
+    {
+      memcpy(newShadow.data, shadow.data, newShadow.size * newShadow.num);
+    }
+
     shadowValues->setValue(instruction, newShadow);
     break;
   }
@@ -1495,7 +1536,18 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     unsigned addrSpace = loadInst->getPointerAddressSpace();
 
     TypedValue v = shadowContext.getMemoryPool()->clone(result);
-    loadShadowMemory(addrSpace, address, v, workItem);
+    const llvm::Type* type = loadInst->getType();
+    if (isBitPacked(type))
+    {
+      vector<unsigned char> bits((type->getPrimitiveSizeInBits() + 7) / 8);
+      TypedValue packed = {(unsigned)bits.size(), 1, bits.data()};
+      loadShadowMemory(addrSpace, address, packed, workItem);
+      unpackBits(type, bits.data(), v);
+    }
+    else
+    {
+      loadShadowMemory(addrSpace, address, v, workItem);
+    }
     shadowValues->setValue(instruction, v);
 
     // Check shadow of address
@@ -1750,7 +1802,8 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
                              : shadowContext.getValue(workItem, Val);
 
     bool unchecked = false;
-    if (llvm::isa<llvm::FixedVectorType>(Val->getType()))
+    if (llvm::isa<llvm::FixedVectorType>(Val->getType()) &&
+        !ShadowContext::isCleanValue(shadowVal))
     {
       // Vectors of three elements are stored as four elements, of which the
       // last one is padding that does not have a value
@@ -1769,6 +1822,14 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
       }
     }
 
+    vector<unsigned char> bits;
+    if (isBitPacked(Val->getType()))
+    {
+      bits.resize((Val->getType()->getPrimitiveSizeInBits() + 7) / 8);
+      packBits(Val->getType(), shadowVal, bits.data());
+      shadowVal = {(unsigned)bits.size(), 1, bits.data()};
+    }
+
     storeShadowMemory(addrSpace, address, shadowVal, workItem, NULL, unchecked);
 
     // Check shadow of address
-- 
2.43.0


From cf7f5a12136d00fc8e0f08358ebe5d7856d9d0c1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:46:10 +0000
Subject: [PATCH 098/130] fix: use the element size of the value in the shadow
 of vstore_half

---
 src/plugins/Uninitialized.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 2afb9a7..d265194 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -788,7 +788,7 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
 
     // Convert to halfs
     TypedValue shadow = shadowContext.getValue(workItem, value);
-    unsigned num = size / sizeof(float);
+    unsigned num = size / getTypeSize(value->getType()->getScalarType());
     size = num * sizeof(cl_half);
     TypedValue halfShadow = {sizeof(cl_half), num,
                              shadowContext.getMemoryPool()->alloc(2 * num)};
-- 
2.43.0


From 670f7faa6ee50b75cbb4290984b046de53ebb5e2 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:49:39 +0000
Subject: [PATCH 099/130] fix: follow the padding of three-element vectors
 through every instruction

---
 src/plugins/Uninitialized.cpp | 56 +++++++++++++++++------------------
 1 file changed, 28 insertions(+), 28 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index d265194..842f8ea 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -40,7 +40,7 @@ THREAD_LOCAL ShadowContext::WorkSpace ShadowContext::m_workSpace = {NULL, NULL,
 static bool isUndefLane(const llvm::Value* value, unsigned lane,
                         unsigned depth = 0)
 {
-  // Limit the search, which also ends cycles of PHI nodes
+  // Limit the search
   if (depth > 16)
     return false;
   depth++;
@@ -67,22 +67,14 @@ static bool isUndefLane(const llvm::Value* value, unsigned lane,
   }
   else if (llvm::isa<llvm::BinaryOperator, llvm::UnaryOperator>(value))
   {
-    for (const llvm::Value* op : llvm::cast<llvm::Instruction>(value)->operands())
+    for (const llvm::Value* op :
+         llvm::cast<llvm::Instruction>(value)->operands())
     {
       if (isUndefLane(op, lane, depth))
         return true;
     }
     return false;
   }
-  else if (auto* phi = llvm::dyn_cast<llvm::PHINode>(value))
-  {
-    for (const llvm::Value* op : phi->incoming_values())
-    {
-      if (op != phi && !isUndefLane(op, lane, depth))
-        return false;
-    }
-    return true;
-  }
   else if (auto* constant = llvm::dyn_cast<llvm::Constant>(value))
   {
     auto* element = constant->getAggregateElement(lane);
@@ -92,6 +84,15 @@ static bool isUndefLane(const llvm::Value* value, unsigned lane,
   return false;
 }
 
+// Vectors of three elements are loaded and stored as four elements, of which
+// the last one is padding that does not have a value
+static bool hasPadding(const llvm::Value* value)
+{
+  auto* type = llvm::dyn_cast<llvm::FixedVectorType>(value->getType());
+  return type && type->getNumElements() == 4 && isUndefLane(value, 3) &&
+         !isUndefLane(value, 2);
+}
+
 Uninitialized::Uninitialized(const Context* context)
     : Plugin(context), shadowContext(sizeof(size_t) == 8 ? 32 : 16)
 {
@@ -323,11 +324,10 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
     }
 
     // The stride only applies to global memory
-    copyShadowMemoryStrided(dstAddrSpace, dst,
-                            dstAddrSpace == AddrSpaceGlobal ? stride : 1,
-                            srcAddrSpace, src,
-                            srcAddrSpace == AddrSpaceGlobal ? stride : 1, num,
-                            elemSize, workItem);
+    copyShadowMemoryStrided(
+      dstAddrSpace, dst, dstAddrSpace == AddrSpaceGlobal ? stride : 1,
+      srcAddrSpace, src, srcAddrSpace == AddrSpaceGlobal ? stride : 1, num,
+      elemSize, workItem);
     shadowValues->setValue(CI, eventShadow);
 
     // Check shadow of src address
@@ -674,10 +674,9 @@ bool Uninitialized::handleBuiltinFunction(const WorkItem* workItem, string name,
       }
     }
 
-    shadowValues->setValue(CI,
-                           clean
-                             ? ShadowContext::getCleanValue(result.size)
-                             : ShadowContext::getPoisonedValue(result.size));
+    shadowValues->setValue(
+      CI, clean ? ShadowContext::getCleanValue(result.size)
+                : ShadowContext::getPoisonedValue(result.size));
     return true;
   }
   else if (name == "select")
@@ -1465,6 +1464,9 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     else
       newShadow = ShadowContext::getPoisonedValue(result);
 
+    if (hasPadding(instruction))
+      memset(newShadow.data + 3 * newShadow.size, 0, newShadow.size);
+
     shadowValues->setValue(instruction, newShadow);
     break;
   }
@@ -1774,6 +1776,9 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
              newShadow.size);
     }
 
+    if (hasPadding(instruction))
+      memset(newShadow.data + 3 * newShadow.size, 0, newShadow.size);
+
     shadowValues->setValue(instruction, newShadow);
     break;
   }
@@ -1805,14 +1810,6 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     if (llvm::isa<llvm::FixedVectorType>(Val->getType()) &&
         !ShadowContext::isCleanValue(shadowVal))
     {
-      // Vectors of three elements are stored as four elements, of which the
-      // last one is padding that does not have a value
-      if (shadowVal.num == 4 && isUndefLane(Val, 3) && !isUndefLane(Val, 2))
-      {
-        shadowVal = shadowContext.getMemoryPool()->clone(shadowVal);
-        memset(shadowVal.data + 3 * shadowVal.size, 0, shadowVal.size);
-      }
-
       // The compiler leaves lanes open that are going to be stored separately
       unchecked = true;
       for (unsigned i = 0; i < shadowVal.num; i++)
@@ -2443,6 +2440,9 @@ TypedValue ShadowFrame::getValue(const llvm::Value* V) const
       memcpy(vecShadow.data + offset, elemShadow.data, vecShadow.size);
     }
 
+    if (hasPadding(V))
+      memset(vecShadow.data + 3 * vecShadow.size, 0, vecShadow.size);
+
     return vecShadow;
   }
   else
-- 
2.43.0


From be02b8cf50805b7e2a60799c73f26c561465319f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:50:24 +0000
Subject: [PATCH 100/130] fix: do not report padding that copies of structures
 store

---
 src/plugins/Uninitialized.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 842f8ea..ddf5a04 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -1806,7 +1806,8 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
                              ? ShadowContext::getCleanValue(Val)
                              : shadowContext.getValue(workItem, Val);
 
-    bool unchecked = false;
+    // The compiler splits copies of structures, including their padding
+    bool unchecked = llvm::isa<llvm::UndefValue>(Val);
     if (llvm::isa<llvm::FixedVectorType>(Val->getType()) &&
         !ShadowContext::isCleanValue(shadowVal))
     {
-- 
2.43.0


From 574a8067e873e1d77bcd64a4ffe92cefdcedeccf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:55:10 +0000
Subject: [PATCH 101/130] fix: only accept open vector lanes that are stored
 separately

---
 src/plugins/Uninitialized.cpp | 47 +++++++++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index ddf5a04..97579dc 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -18,7 +18,9 @@
 
 #include "llvm/IR/Argument.h"
 #include "llvm/IR/Constants.h"
+#include "llvm/IR/DataLayout.h"
 #include "llvm/IR/Instructions.h"
+#include "llvm/IR/Module.h"
 #include "llvm/IR/Type.h"
 
 #include "Uninitialized.h"
@@ -84,6 +86,47 @@ static bool isUndefLane(const llvm::Value* value, unsigned lane,
   return false;
 }
 
+// Returns true if a part of the stored value is replaced by a store that
+// follows, which is how the compiler splits the insertion of vector elements
+static bool isOverwritten(const llvm::StoreInst* store, int64_t offset,
+                          int64_t size)
+{
+  const llvm::DataLayout& layout = store->getModule()->getDataLayout();
+  auto getBase = [&](const llvm::StoreInst* I, int64_t& position)
+  {
+    const llvm::Value* pointer = I->getPointerOperand();
+    llvm::APInt constant(layout.getIndexTypeSizeInBits(pointer->getType()), 0);
+    pointer =
+      pointer->stripAndAccumulateConstantOffsets(layout, constant, true);
+    position = constant.getSExtValue();
+    return pointer;
+  };
+
+  int64_t storePosition;
+  const llvm::Value* base = getBase(store, storePosition);
+  for (const llvm::Instruction* I = store->getNextNode(); I;
+       I = I->getNextNode())
+  {
+    auto* next = llvm::dyn_cast<llvm::StoreInst>(I);
+    if (!next)
+    {
+      if (I->mayReadOrWriteMemory() && !llvm::isa<llvm::LoadInst>(I))
+        return false;
+      continue;
+    }
+
+    int64_t position;
+    if (getBase(next, position) != base)
+      continue;
+    int64_t begin = storePosition + offset;
+    if (position <= begin &&
+        begin + size <=
+          position + (int64_t)getTypeSize(next->getValueOperand()->getType()))
+      return true;
+  }
+  return false;
+}
+
 // Vectors of three elements are loaded and stored as four elements, of which
 // the last one is padding that does not have a value
 static bool hasPadding(const llvm::Value* value)
@@ -1811,11 +1854,11 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     if (llvm::isa<llvm::FixedVectorType>(Val->getType()) &&
         !ShadowContext::isCleanValue(shadowVal))
     {
-      // The compiler leaves lanes open that are going to be stored separately
       unchecked = true;
       for (unsigned i = 0; i < shadowVal.num; i++)
       {
-        if (!ShadowContext::isCleanValue(shadowVal, i) && !isUndefLane(Val, i))
+        if (!ShadowContext::isCleanValue(shadowVal, i) &&
+            !isOverwritten(storeInst, i * shadowVal.size, shadowVal.size))
           unchecked = false;
       }
     }
-- 
2.43.0


From b14cdcabb216991595dc1417711c8415d0fa19eb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 01:59:19 +0000
Subject: [PATCH 102/130] fix: accept padding behind a vector element that is
 stored separately

---
 src/plugins/Uninitialized.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 97579dc..8bf3d1c 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -1854,6 +1854,14 @@ void Uninitialized::instructionExecuted(const WorkItem* workItem,
     if (llvm::isa<llvm::FixedVectorType>(Val->getType()) &&
         !ShadowContext::isCleanValue(shadowVal))
     {
+      if (shadowVal.num == 4 && isUndefLane(Val, 3) &&
+          isOverwritten(storeInst, 2 * shadowVal.size, shadowVal.size))
+      {
+        // The third element is stored separately, the last one is padding
+        shadowVal = shadowContext.getMemoryPool()->clone(shadowVal);
+        memset(shadowVal.data + 3 * shadowVal.size, 0, shadowVal.size);
+      }
+
       unchecked = true;
       for (unsigned i = 0; i < shadowVal.num; i++)
       {
-- 
2.43.0


From 3396b895dfaa1ec9b4a34886fda29b34ac30ef17 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 02:08:08 +0000
Subject: [PATCH 103/130] fix: do not create constants while looking for vector
 lanes without a value

---
 src/plugins/Uninitialized.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/plugins/Uninitialized.cpp b/src/plugins/Uninitialized.cpp
index 8bf3d1c..d790a61 100644
--- a/src/plugins/Uninitialized.cpp
+++ b/src/plugins/Uninitialized.cpp
@@ -77,13 +77,12 @@ static bool isUndefLane(const llvm::Value* value, unsigned lane,
     }
     return false;
   }
-  else if (auto* constant = llvm::dyn_cast<llvm::Constant>(value))
+  else if (auto* vector = llvm::dyn_cast<llvm::ConstantVector>(value))
   {
-    auto* element = constant->getAggregateElement(lane);
-    return element && llvm::isa<llvm::UndefValue>(element);
+    return llvm::isa<llvm::UndefValue>(vector->getOperand(lane));
   }
 
-  return false;
+  return llvm::isa<llvm::UndefValue>(value);
 }
 
 // Returns true if a part of the stored value is replaced by a store that
-- 
2.43.0


From 38d04fb9738b12b76c3713533f9a0f8c60231fa7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:13:31 +0000
Subject: [PATCH 104/130] fix: apply the h and hh length modifiers of printf

---
 src/core/WorkItemBuiltins.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index d57d7bf..8d5fad6 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3460,12 +3460,13 @@ class WorkItemBuiltins
       {
         unsigned vectorWidth = 1;
         string format = "%";
+        string length;
         while (true)
         {
           memory->load((unsigned char*)&c, formatPtr++);
           if (c == '\0')
           {
-            cout << format;
+            cout << format << length;
             break;
           }
 
@@ -3484,9 +3485,17 @@ class WorkItemBuiltins
             continue;
           }
 
-          // Ignore all 'h' specifiers
-          if (c == 'h')
+          // Load length modifier
+          if (c == 'h' || c == 'l')
+          {
+            length += c;
             continue;
+          }
+
+          // Length modifiers do not matter to the floating point
+          // conversions, and neither does the one for 4-byte vector elements
+          if (strchr("diouxX", c) && length != "hl")
+            format += length;
 
           format += c;
           bool done = false;
-- 
2.43.0


From ba59446efaa3881ca71dc2cbf2bb0c80feff40f5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:14:12 +0000
Subject: [PATCH 105/130] fix: return zero from printf

---
 src/core/WorkItemBuiltins.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 8d5fad6..b7813f8 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3591,6 +3591,8 @@ class WorkItemBuiltins
         cout << c;
       }
     }
+
+    result.setSInt(0);
   }
 
   /////////////////////
-- 
2.43.0


From 7a31911581fa5e22f0220d0893d391e2c8146abd Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:23:41 +0000
Subject: [PATCH 106/130] fix: find embedded headers that are included with
 angle brackets

---
 src/core/Program.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index 35f59ba..992f29d 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -557,7 +557,7 @@ bool Program::build(BuildType buildType, const char* options,
 
   // Remap include files
   std::unique_ptr<llvm::MemoryBuffer> buffer;
-  compiler.getHeaderSearchOpts().AddPath(REMAP_DIR, clang::frontend::Quoted,
+  compiler.getHeaderSearchOpts().AddPath(REMAP_DIR, clang::frontend::Angled,
                                          false, true);
   list<Header>::iterator itr;
   for (itr = headers.begin(); itr != headers.end(); itr++)
-- 
2.43.0


From f7f4def707da57ab498380922ad85c16796f0e15 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:23:41 +0000
Subject: [PATCH 107/130] fix: define __FAST_RELAXED_MATH__ with
 -cl-fast-relaxed-math

---
 src/core/Program.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index 992f29d..28e311e 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -364,6 +364,10 @@ bool Program::build(BuildType buildType, const char* options,
     if (!strlen(opt))
       break;
 
+    // Code can ask for this option even though its effect is ignored
+    if (strcmp(opt, "-cl-fast-relaxed-math") == 0)
+      args.push_back("-D__FAST_RELAXED_MATH__=1");
+
     // Ignore options that break PCH
     if (strcmp(opt, "-cl-fast-relaxed-math") != 0 &&
         strcmp(opt, "-cl-finite-math-only") != 0 &&
-- 
2.43.0


From 1046237f6795823d96e991e30e334e7cef9f569b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:24:08 +0000
Subject: [PATCH 108/130] fix: apply the warning options given to the compiler

---
 src/core/Program.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index 28e311e..e9fcce4 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -557,6 +557,15 @@ bool Program::build(BuildType buildType, const char* options,
   clang::CompilerInvocation::CreateFromArgs(*invocation, args,
                                             compiler.getDiagnostics());
   compiler.setInvocation(invocation);
+
+  // Diagnostics were created before the warning options were known
+  clang::ProcessWarningOptions(compiler.getDiagnostics(),
+                               compiler.getDiagnosticOpts()
+#if LLVM_VERSION >= 200
+                                 ,
+                               *llvm::vfs::getRealFileSystem()
+#endif
+  );
 #endif
 
   // Remap include files
-- 
2.43.0


From d348b1161a06683fe2c81a2c4efdc14b41f7e152 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:24:35 +0000
Subject: [PATCH 109/130] fix: return an error instead of exiting when linking
 programs fails

---
 src/core/Program.cpp | 43 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index e9fcce4..96146d2 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -25,6 +25,9 @@
 #include "llvm/IR/AssemblyAnnotationWriter.h"
 #include "llvm/IR/Constants.h"
 #include "llvm/IR/DerivedTypes.h"
+#include "llvm/IR/DiagnosticHandler.h"
+#include "llvm/IR/DiagnosticInfo.h"
+#include "llvm/IR/DiagnosticPrinter.h"
 #include "llvm/IR/InstIterator.h"
 #include "llvm/IR/InstrTypes.h"
 #include "llvm/IR/Instructions.h"
@@ -729,24 +732,56 @@ Program* Program::createFromBitcodeFile(const Context* context,
   return new Program(context, module.get().release());
 }
 
+namespace
+{
+// Reports problems found by the linker, but leaves it to the caller to handle
+// them (the default handler exits the process)
+class LinkDiagnosticHandler : public llvm::DiagnosticHandler
+{
+public:
+  bool handleDiagnostics(const llvm::DiagnosticInfo& info) override
+  {
+    llvm::DiagnosticPrinterRawOStream printer(llvm::errs());
+    llvm::errs() << llvm::LLVMContext::getDiagnosticMessagePrefix(
+                      info.getSeverity())
+                 << ": ";
+    info.print(printer);
+    llvm::errs() << "\n";
+    return true;
+  }
+};
+} // namespace
+
 Program* Program::createFromPrograms(const Context* context,
                                      list<const Program*> programs,
                                      const char* options)
 {
-  llvm::Module* module =
-    new llvm::Module("oclgrind_linked", *context->getLLVMContext());
+  llvm::LLVMContext& llvmContext = *context->getLLVMContext();
+  unique_ptr<llvm::Module> module(
+    new llvm::Module("oclgrind_linked", llvmContext));
   llvm::Linker linker(*module);
 
+  unique_ptr<llvm::DiagnosticHandler> previousHandler =
+    llvmContext.getDiagnosticHandler();
+  llvmContext.setDiagnosticHandler(make_unique<LinkDiagnosticHandler>());
+
   // Link modules
+  bool failed = false;
   list<const Program*>::iterator itr;
   for (itr = programs.begin(); itr != programs.end(); itr++)
   {
     unique_ptr<llvm::Module> m = llvm::CloneModule(*(*itr)->m_module);
     if (linker.linkInModule(std::move(m)))
     {
-      return NULL;
+      failed = true;
+      break;
     }
   }
+  llvmContext.setDiagnosticHandler(std::move(previousHandler));
+  if (failed)
+  {
+    return NULL;
+  }
 
   // Set program binary type
   cl_program_binary_type binaryType = CL_PROGRAM_BINARY_TYPE_EXECUTABLE;
@@ -756,7 +791,7 @@ Program* Program::createFromPrograms(const Context* context,
   }
   setBinaryType(*module, binaryType);
 
-  Program* program = new Program(context, module);
+  Program* program = new Program(context, module.release());
   program->m_buildOptions = options ? options : "";
   return program;
 }
-- 
2.43.0


From dfb153439a348b2bf8f4a3a21bec473e8f1099cb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:26:22 +0000
Subject: [PATCH 110/130] fix: honour -cl-single-precision-constant

---
 src/core/Program.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/Program.cpp b/src/core/Program.cpp
index 96146d2..85d5694 100644
--- a/src/core/Program.cpp
+++ b/src/core/Program.cpp
@@ -374,7 +374,6 @@ bool Program::build(BuildType buildType, const char* options,
     // Ignore options that break PCH
     if (strcmp(opt, "-cl-fast-relaxed-math") != 0 &&
         strcmp(opt, "-cl-finite-math-only") != 0 &&
-        strcmp(opt, "-cl-single-precision-constant") &&
         strcmp(opt, "-cl-unsafe-math-optimizations") != 0)
     {
       // Check for optimization flags
-- 
2.43.0


From c53c1a0a1d17f3866774123db163b165d176642d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:35:03 +0000
Subject: [PATCH 111/130] fix: read the last line of simulation files that end
 without a newline

---
 src/kernel/Simulation.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 1c462da..b7f6c4a 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -97,7 +97,10 @@ template <typename T> void Simulation::get(T& result)
 
     // Get next line
     string line;
-    getline(m_simfile, line);
+    if (!getline(m_simfile, line))
+    {
+      break;
+    }
     m_lineNumber++;
 
     // Remove comments
@@ -110,7 +113,7 @@ template <typename T> void Simulation::get(T& result)
     // Update line buffer
     m_lineBuffer.clear();
     m_lineBuffer.str(line);
-  } while (m_simfile.good());
+  } while (true);
 
   // Couldn't read data from file, throw exception
   throw m_simfile.eof() ? ifstream::eofbit : ifstream::failbit;
-- 
2.43.0


From 885f82cb441514a042679165b6d5c56d390ff46c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:35:03 +0000
Subject: [PATCH 112/130] fix: check the whole rest of a simulation file for
 unexpected input

---
 src/kernel/Simulation.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index b7f6c4a..6d2e982 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -221,12 +221,20 @@ bool Simulation::load(const char* filename)
 
     // Make sure there is no more input
     string next;
-    m_simfile >> next;
-    if (m_simfile.good() || !m_simfile.eof())
+    try
     {
-      cerr << "Unexpected token '" << next << "' (expected EOF)" << endl;
-      return false;
+      get(next);
+    }
+    catch (ifstream::iostate e)
+    {
+      if (e == ifstream::eofbit)
+      {
+        return true;
+      }
+      throw;
     }
+    cerr << "Unexpected token '" << next << "' (expected EOF)" << endl;
+    return false;
   }
   catch (const char* err)
   {
-- 
2.43.0


From 1d6e5d82c4a1ffcb61da9b2e26821e30f94623bf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:35:03 +0000
Subject: [PATCH 113/130] fix: do not throw a pointer into a destroyed string

---
 src/kernel/Simulation.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 6d2e982..589bb42 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -242,6 +242,12 @@ bool Simulation::load(const char* filename)
          << endl;
     return false;
   }
+  catch (const string& err)
+  {
+    cerr << "Line " << m_lineNumber << ": " << err << " (" << m_parsing << ")"
+         << endl;
+    return false;
+  }
   catch (ifstream::iostate e)
   {
     if (e == ifstream::eofbit)
@@ -441,7 +447,7 @@ void Simulation::parseArgument(size_t index)
       string err = "Unrecognised header token '";
       err += token;
       err += "'";
-      throw err.c_str();
+      throw err;
     }
   }
 
-- 
2.43.0


From 63768bfb96a71944d97a36b8bf5f6c6549192da6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:35:03 +0000
Subject: [PATCH 114/130] fix: check the size given for private kernel
 arguments

---
 src/kernel/Simulation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 589bb42..0302df1 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -500,6 +500,12 @@ void Simulation::parseArgument(size_t index)
     throw "Initialiser type must exactly divide argument size";
   }
 
+  // Ensure size of by-value arguments matches the kernel
+  if (addrSpace == CL_KERNEL_ARG_ADDRESS_PRIVATE && size != argSize)
+  {
+    throw "Incorrect size for by-value argument";
+  }
+
   // Ensure 'dump' only used with non-null buffers
   if (dump)
   {
-- 
2.43.0


From 197305d9db518501c0e18f9e2644242d3d5a486f Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:35:03 +0000
Subject: [PATCH 115/130] fix: do not sign-extend char values in hex dumps

---
 src/kernel/Simulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 0302df1..9e3d1a2 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -60,7 +60,7 @@ template <typename T> void Simulation::dumpArgument(DumpArg& arg)
     if (arg.hex)
       cout << "0x" << setfill('0') << setw(sizeof(T) * 2) << hex;
     if (sizeof(T) == 1)
-      cout << (int)data[i];
+      cout << (arg.hex ? (int)(uint8_t)data[i] : (int)data[i]);
     else
       cout << data[i];
     cout << dec;
-- 
2.43.0


From 496ee063c5638301e47f7c600be590c84a173acf Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:35:03 +0000
Subject: [PATCH 116/130] fix: reject zero or negative work-group sizes and
 NDRanges

---
 src/kernel/Simulation.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 9e3d1a2..52f51da 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -149,6 +149,17 @@ bool Simulation::load(const char* filename)
     get(m_wgsize.y);
     get(m_wgsize.z);
 
+    // Ensure sizes are valid (negative values wrap around when parsed)
+    for (unsigned i = 0; i < 3; i++)
+    {
+      if (m_wgsize[i] == 0 || m_wgsize[i] > PTRDIFF_MAX ||
+          m_ndrange[i] > PTRDIFF_MAX)
+      {
+        cerr << "Invalid NDRange or work-group size." << endl;
+        return false;
+      }
+    }
+
     // Open program file
     ifstream progFile;
     progFile.open(progFileName.c_str(), ios_base::in | ios_base::binary);
-- 
2.43.0


From 3fecb46c5719d81f9cac3aa1855f755aaefa4171 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:35:03 +0000
Subject: [PATCH 117/130] fix: report argument sizes that cannot be allocated

---
 src/kernel/Simulation.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 52f51da..0c894f9 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -557,7 +557,9 @@ void Simulation::parseArgument(size_t index)
   else
   {
     // Parse argument data
-    unsigned char* data = new unsigned char[size];
+    unsigned char* data = new (nothrow) unsigned char[size];
+    if (!data)
+      throw "Failed to allocate argument data";
     if (noinit)
     {
     }
-- 
2.43.0


From ffb5bc78e73475719f015d19b565cbacce689e90 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:35:03 +0000
Subject: [PATCH 118/130] fix: do not accept header tokens that merely start
 with 'dump'

---
 src/kernel/Simulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 0c894f9..963efaa 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -369,7 +369,7 @@ void Simulation::parseArgument(size_t index)
     MATCH_TYPE("ulong", TYPE_ULONG, 8)
     MATCH_TYPE("float", TYPE_FLOAT, 4)
     MATCH_TYPE("double", TYPE_DOUBLE, 8)
-    else if (token.compare(0, 4, "dump") == 0)
+    else if (token == "dump")
     {
       dump = true;
     }
-- 
2.43.0


From cdee445e74403a2e6d0cf7b6adbeb0b2f212605d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:35:03 +0000
Subject: [PATCH 119/130] fix: avoid integer overflow when checking ranges of
 arguments

---
 src/kernel/Simulation.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index 963efaa..a1a3177 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -738,7 +738,8 @@ void Simulation::parseRange(unsigned char* result, size_t size,
   }
 
   // Ensure range is value
-  double num = (values[2] - values[0] + values[1]) / (double)values[1];
+  long double num =
+    ((long double)values[2] - values[0] + values[1]) / values[1];
   if (ceil(num) != num || num * sizeof(T) != size)
   {
     throw "Range doesn't produce correct buffer size";
@@ -749,7 +750,8 @@ void Simulation::parseRange(unsigned char* result, size_t size,
   for (size_t i = 0; i < num; i++)
   {
     ((T*)result)[i] = value;
-    value += values[1];
+    if (i + 1 < num)
+      value += values[1];
   }
 }
 
-- 
2.43.0


From c9b740af4f273ab48c26b152d1416c24a5d70216 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 03:39:35 +0000
Subject: [PATCH 120/130] fix: reject image and sampler arguments in simulation
 files

---
 src/kernel/Simulation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/kernel/Simulation.cpp b/src/kernel/Simulation.cpp
index a1a3177..2a5de48 100644
--- a/src/kernel/Simulation.cpp
+++ b/src/kernel/Simulation.cpp
@@ -307,6 +307,12 @@ void Simulation::parseArgument(size_t index)
   unsigned int addrSpace = m_kernel->getArgumentAddressQualifier(index);
   const llvm::StringRef argType = m_kernel->getArgumentTypeName(index);
 
+  // Only plain data can be described in a simulation file
+  if (argType.starts_with("image") || m_kernel->isSamplerArgument(index))
+  {
+    throw "Image and sampler arguments not supported";
+  }
+
   // Ensure we have an argument header
   char c;
   get(c);
-- 
2.43.0


From 04a990a96791305286460fc0212e59f9ebd0fa1e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:10:00 +0000
Subject: [PATCH 121/130] fix: pass the user data of the context to its error
 callback

The user data pointer was passed as private_info, and NULL as user_data.
---
 src/runtime/runtime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/runtime/runtime.cpp b/src/runtime/runtime.cpp
index 509e98e..2474b22 100644
--- a/src/runtime/runtime.cpp
+++ b/src/runtime/runtime.cpp
@@ -157,7 +157,7 @@ void notifyAPIError(cl_context context, cl_int err, const char* function,
   // Fire context callback if set
   if (context && context->notify)
   {
-    context->notify(error.c_str(), context->data, 0, NULL);
+    context->notify(error.c_str(), NULL, 0, context->data);
   }
 }
 
-- 
2.43.0


From b95bb3788301a87bf2c87d035abbc18af78d4656 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:10:00 +0000
Subject: [PATCH 122/130] fix: keep messages of earlier contexts in the log
 file

Each context truncated the log file when creating its logger, which erased
messages already written by other contexts of the process.
---
 src/plugins/Logger.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/plugins/Logger.cpp b/src/plugins/Logger.cpp
index 3f33536..8b55754 100644
--- a/src/plugins/Logger.cpp
+++ b/src/plugins/Logger.cpp
@@ -10,6 +10,7 @@
 
 #include <fstream>
 #include <mutex>
+#include <set>
 
 #include "Logger.h"
 
@@ -29,7 +30,13 @@ Logger::Logger(const Context* context) : Plugin(context)
   const char* logfile = getenv("OCLGRIND_LOG");
   if (logfile)
   {
-    m_log = new ofstream(logfile);
+    // Only discard old contents the first time that the file is opened
+    lock_guard<mutex> lock(logMutex);
+    static set<string> opened;
+    ofstream create;
+    if (opened.insert(logfile).second)
+      create.open(logfile);
+    m_log = new ofstream(logfile, ios::app);
     if (!m_log->good())
     {
       cerr << "Oclgrind: Unable to open log file '" << logfile << "'" << endl;
-- 
2.43.0


From 84e3bd97c4cc8f577842b736242dc0243541e42d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:10:00 +0000
Subject: [PATCH 123/130] fix: do not truncate or wrap the values of numeric
 options

Values from the environment were reduced to 32 bits (an 8 GiB memory became
empty, an error limit of 2^32 became 0) and negative values wrapped around.
---
 src/core/common.cpp    | 5 +++--
 src/core/common.h      | 2 +-
 src/plugins/Logger.cpp | 2 +-
 src/plugins/Logger.h   | 4 ++--
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/core/common.cpp b/src/core/common.cpp
index 9af6105..e9844ab 100644
--- a/src/core/common.cpp
+++ b/src/core/common.cpp
@@ -320,7 +320,7 @@ bool checkEnv(const char* var)
   return (value && !strcmp(value, "1"));
 }
 
-unsigned getEnvInt(const char* var, int def, bool allowZero)
+size_t getEnvInt(const char* var, size_t def, bool allowZero)
 {
   const char* value = getenv(var);
   if (!value)
@@ -328,7 +328,8 @@ unsigned getEnvInt(const char* var, int def, bool allowZero)
 
   char* next;
   uint64_t result = strtoul(value, &next, 10);
-  if (strlen(next) || result == ULONG_MAX || (!allowZero && !result))
+  if (strlen(next) || strchr(value, '-') || result == ULONG_MAX ||
+      (!allowZero && !result))
   {
     cerr << endl << "Oclgrind: Invalid value for " << var << endl;
     abort();
diff --git a/src/core/common.h b/src/core/common.h
index 99142c8..23f2171 100644
--- a/src/core/common.h
+++ b/src/core/common.h
@@ -160,7 +160,7 @@ struct Image
 bool checkEnv(const char* var);
 
 // Get an environment variable as an integer
-unsigned getEnvInt(const char* var, int def = 0, bool allowZero = true);
+size_t getEnvInt(const char* var, size_t def = 0, bool allowZero = true);
 
 // Output an instruction in human-readable format
 void dumpInstruction(std::ostream& out, const llvm::Instruction* instruction);
diff --git a/src/plugins/Logger.cpp b/src/plugins/Logger.cpp
index 8b55754..908e67e 100644
--- a/src/plugins/Logger.cpp
+++ b/src/plugins/Logger.cpp
@@ -19,7 +19,7 @@ using namespace std;
 
 #define DEFAULT_MAX_ERRORS 1000
 
-unsigned Logger::m_numErrors = 0;
+size_t Logger::m_numErrors = 0;
 
 static mutex logMutex;
 
diff --git a/src/plugins/Logger.h b/src/plugins/Logger.h
index 5595cfe..2ca5c0e 100644
--- a/src/plugins/Logger.h
+++ b/src/plugins/Logger.h
@@ -21,7 +21,7 @@ public:
 private:
   std::ostream* m_log;
 
-  unsigned m_maxErrors;
-  static unsigned m_numErrors;
+  size_t m_maxErrors;
+  static size_t m_numErrors;
 };
 } // namespace oclgrind
-- 
2.43.0


From 8a6db15f4f01198a0503dab263c8b7dde2822ff5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:10:00 +0000
Subject: [PATCH 124/130] fix: terminate the path of the executable in the
 launcher

readlink does not append a null byte.
---
 src/runtime/oclgrind.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/runtime/oclgrind.cpp b/src/runtime/oclgrind.cpp
index 82204fe..71306ff 100644
--- a/src/runtime/oclgrind.cpp
+++ b/src/runtime/oclgrind.cpp
@@ -423,7 +423,10 @@ static string getLibDirPath()
   uint32_t sz = PATH_MAX;
   if (_NSGetExecutablePath(exepath, &sz))
 #else // not apple
-  if (readlink("/proc/self/exe", exepath, PATH_MAX) == -1)
+  ssize_t length = readlink("/proc/self/exe", exepath, PATH_MAX - 1);
+  if (length >= 0)
+    exepath[length] = '\0';
+  if (length == -1)
 #endif
   {
     cerr << "[Oclgrind] Unable to get path to Oclgrind installation" << endl;
-- 
2.43.0


From f096e48d5dcb9e98a9fc28b236b70fce0039a0c5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:29:31 +0000
Subject: [PATCH 125/130] fix: check the index of insertelement and
 extractelement

An index that a kernel computes may be outside of the vector (the result is
undefined then), but the simulator read and wrote its own memory at that index.
---
 src/core/WorkItem.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index 829cd8a..e7d05cd 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -1090,8 +1090,14 @@ INSTRUCTION(extractelem)
 {
   const llvm::ExtractElementInst* extract =
     (const llvm::ExtractElementInst*)instruction;
-  unsigned index = getOperand(extract->getIndexOperand()).getUInt();
+  uint64_t index = getOperand(extract->getIndexOperand()).getUInt();
   TypedValue operand = getOperand(extract->getVectorOperand());
+  if (index >= operand.num)
+  {
+    // The result is undefined
+    memset(result.data, 0, result.size);
+    return;
+  }
   memcpy(result.data, operand.data + result.size * index, result.size);
 }
 
@@ -1365,9 +1371,10 @@ INSTRUCTION(insertelem)
 {
   TypedValue vector = getOperand(instruction->getOperand(0));
   TypedValue element = getOperand(instruction->getOperand(1));
-  unsigned index = getOperand(instruction->getOperand(2)).getUInt();
+  uint64_t index = getOperand(instruction->getOperand(2)).getUInt();
   memcpy(result.data, vector.data, result.size * result.num);
-  memcpy(result.data + index * result.size, element.data, result.size);
+  if (index < result.num)
+    memcpy(result.data + index * result.size, element.data, result.size);
 }
 
 INSTRUCTION(insertval)
-- 
2.43.0


From c83952e09d89e94abc2c66e15e3c80c7d0c0abcc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:29:31 +0000
Subject: [PATCH 126/130] fix: avoid undefined behaviour when converting floats
 to integers

A kernel may convert values that the integer type cannot represent.
---
 src/core/WorkItem.cpp         |  4 ++--
 src/core/WorkItemBuiltins.cpp |  4 ++--
 src/core/common.cpp           | 15 +++++++++++++++
 src/core/common.h             |  4 ++++
 4 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/core/WorkItem.cpp b/src/core/WorkItem.cpp
index e7d05cd..dc73dda 100644
--- a/src/core/WorkItem.cpp
+++ b/src/core/WorkItem.cpp
@@ -1249,7 +1249,7 @@ INSTRUCTION(fptosi)
   TypedValue op = getOperand(instruction->getOperand(0));
   for (unsigned i = 0; i < result.num; i++)
   {
-    result.setSInt((int64_t)op.getFloat(i), i);
+    result.setSInt(floatToSInt(op.getFloat(i)), i);
   }
 }
 
@@ -1258,7 +1258,7 @@ INSTRUCTION(fptoui)
   TypedValue op = getOperand(instruction->getOperand(0));
   for (unsigned i = 0; i < result.num; i++)
   {
-    result.setUInt((uint64_t)op.getFloat(i), i);
+    result.setUInt(floatToUInt(op.getFloat(i)), i);
   }
 }
 
diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index b7813f8..3a5c0c5 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3344,7 +3344,7 @@ class WorkItemBuiltins
         }
         else
         {
-          r = rint(FARGV(0, i));
+          r = floatToUInt(rint(FARGV(0, i)));
         }
         break;
       default:
@@ -3426,7 +3426,7 @@ class WorkItemBuiltins
         }
         else
         {
-          r = rint(FARGV(0, i));
+          r = floatToSInt(rint(FARGV(0, i)));
         }
         break;
       default:
diff --git a/src/core/common.cpp b/src/core/common.cpp
index e9844ab..b67abdc 100644
--- a/src/core/common.cpp
+++ b/src/core/common.cpp
@@ -320,6 +320,21 @@ bool checkEnv(const char* var)
   return (value && !strcmp(value, "1"));
 }
 
+int64_t floatToSInt(double value)
+{
+  // Negated comparison to include NaN
+  if (!(value >= -0x1p63 && value < 0x1p63))
+    return INT64_MIN;
+  return (int64_t)value;
+}
+
+uint64_t floatToUInt(double value)
+{
+  if (value >= 0x1p63 && value < 0x1p64)
+    return (uint64_t)value;
+  return (uint64_t)floatToSInt(value);
+}
+
 size_t getEnvInt(const char* var, size_t def, bool allowZero)
 {
   const char* value = getenv(var);
diff --git a/src/core/common.h b/src/core/common.h
index 23f2171..320dc6c 100644
--- a/src/core/common.h
+++ b/src/core/common.h
@@ -160,6 +160,10 @@ struct Image
 bool checkEnv(const char* var);
 
 // Get an environment variable as an integer
+/// Convert to integers without undefined behavior for other values.
+int64_t floatToSInt(double value);
+uint64_t floatToUInt(double value);
+
 size_t getEnvInt(const char* var, size_t def = 0, bool allowZero = true);
 
 // Output an instruction in human-readable format
-- 
2.43.0


From 311f6a1478ecea7e3247e114ef0eaf8c0349cf2a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:29:31 +0000
Subject: [PATCH 127/130] fix: avoid undefined behaviour in integer builtins

abs of the most negative value, high multiplication of large values and
rotation by zero relied on signed overflow and an oversized shift.
---
 src/core/WorkItemBuiltins.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 3a5c0c5..ecdf77c 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -1837,7 +1837,8 @@ class WorkItemBuiltins
       case 's':
       case 'i':
       case 'l':
-        result.setSInt(abs(SARGV(0, i)), i);
+        result.setUInt(SARGV(0, i) < 0 ? -(uint64_t)SARGV(0, i) : SARGV(0, i),
+                       i);
         break;
       default:
         FATAL_ERROR("Unsupported argument type: %c",
@@ -2024,12 +2025,12 @@ class WorkItemBuiltins
       int64_t yl = y & UINT32_MAX;
       int64_t yh = y >> 32;
 
-      int64_t xlyl = xl * yl;
+      uint64_t xlyl = (uint64_t)xl * (uint64_t)yl;
       int64_t xlyh = xl * yh;
       int64_t xhyl = xh * yl;
       int64_t xhyh = xh * yh;
 
-      int64_t a = xhyl + ((xlyl >> 32) & UINT32_MAX);
+      int64_t a = xhyl + (int64_t)(xlyl >> 32);
       int64_t al = a & UINT32_MAX;
       int64_t ah = a >> 32;
       int64_t b = ((al + xlyh) >> 32) + ah;
@@ -2063,9 +2064,8 @@ class WorkItemBuiltins
       case 'i':
       case 'l':
       {
-        int64_t r =
-          _smul_hi_(SARGV(0, i), SARGV(1, i), result.size << 3) + SARGV(2, i);
-        result.setSInt(r, i);
+        uint64_t r = _smul_hi_(SARGV(0, i), SARGV(1, i), result.size << 3);
+        result.setUInt(r + UARGV(2, i), i);
         break;
       }
       default:
@@ -2231,7 +2231,7 @@ class WorkItemBuiltins
       uint64_t width = (result.size << 3);
       uint64_t v = UARGV(0, i);
       uint64_t ls = UARGV(1, i) % width;
-      uint64_t rs = width - ls;
+      uint64_t rs = (width - ls) % width;
       result.setUInt((v << ls) | (v >> rs), i);
     }
   }
-- 
2.43.0


From 48817d88d8d497aefde6096e6abdf8d82747bba9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:29:31 +0000
Subject: [PATCH 128/130] fix: diagnose misaligned atomic operations

These were performed through misaligned pointers without any message, unlike
misaligned loads and stores. The arithmetic is done on unsigned values, as it
wraps around.
---
 src/core/Memory.cpp | 48 +++++++++++++++++++++++++++++++--------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/core/Memory.cpp b/src/core/Memory.cpp
index b22ac7a..c6e6071 100644
--- a/src/core/Memory.cpp
+++ b/src/core/Memory.cpp
@@ -116,48 +116,58 @@ template <typename T> T Memory::atomic(AtomicOp op, size_t address, T value)
   // Get buffer
   size_t offset = extractOffset(address);
   Buffer* buffer = m_memory[extractBuffer(address)];
-  T* ptr = (T*)(buffer->data + offset);
+  unsigned char* ptr = buffer->data + offset;
+
+  // Check address is correctly aligned
+  if (address & (sizeof(T) - 1))
+  {
+    m_context->logError("Invalid memory atomic - pointer is "
+                        "not aligned to the pointed type");
+  }
 
   if (m_addressSpace == AddrSpaceGlobal)
     ATOMIC_MUTEX(offset).lock();
 
-  T old = *ptr;
+  T old;
+  memcpy(&old, ptr, sizeof(T));
+  T result = old;
   switch (op)
   {
   case AtomicAdd:
-    *ptr = old + value;
+    result = (uint64_t)old + (uint64_t)value;
     break;
   case AtomicAnd:
-    *ptr = old & value;
+    result = old & value;
     break;
   case AtomicCmpXchg:
     FATAL_ERROR("AtomicCmpXchg in generic atomic handler");
     break;
   case AtomicDec:
-    *ptr = old - 1;
+    result = (uint64_t)old - 1;
     break;
   case AtomicInc:
-    *ptr = old + 1;
+    result = (uint64_t)old + 1;
     break;
   case AtomicMax:
-    *ptr = old > value ? old : value;
+    result = old > value ? old : value;
     break;
   case AtomicMin:
-    *ptr = old < value ? old : value;
+    result = old < value ? old : value;
     break;
   case AtomicOr:
-    *ptr = old | value;
+    result = old | value;
     break;
   case AtomicSub:
-    *ptr = old - value;
+    result = (uint64_t)old - (uint64_t)value;
     break;
   case AtomicXchg:
-    *ptr = value;
+    result = value;
     break;
   case AtomicXor:
-    *ptr = old ^ value;
+    result = old ^ value;
     break;
   }
+  memcpy(ptr, &result, sizeof(T));
 
   m_context->notifyMemoryAtomicStore(this, op, address, sizeof(T));
 
@@ -185,16 +195,24 @@ template <typename T> T Memory::atomicCmpxchg(size_t address, T cmp, T value)
   // Get buffer
   size_t offset = extractOffset(address);
   Buffer* buffer = m_memory[extractBuffer(address)];
-  T* ptr = (T*)(buffer->data + offset);
+  unsigned char* ptr = buffer->data + offset;
+
+  // Check address is correctly aligned
+  if (address & (sizeof(T) - 1))
+  {
+    m_context->logError("Invalid memory atomic - pointer is "
+                        "not aligned to the pointed type");
+  }
 
   if (m_addressSpace == AddrSpaceGlobal)
     ATOMIC_MUTEX(offset).lock();
 
   // Perform cmpxchg
-  T old = *ptr;
+  T old;
+  memcpy(&old, ptr, sizeof(T));
   if (old == cmp)
   {
-    *ptr = value;
+    memcpy(ptr, &value, sizeof(T));
 
     m_context->notifyMemoryAtomicStore(this, AtomicCmpXchg, address, sizeof(T));
   }
-- 
2.43.0


From 0f35decb23d08090ab19f84b024ba789dede963c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:32:02 +0000
Subject: [PATCH 129/130] fix: reject invalid format strings in printf

Missing arguments and vectors shorter than the specifier made the simulator
read past its own data, and the n and * characters reached the printf of the
host without arguments for them.
---
 src/core/WorkItemBuiltins.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index ecdf77c..6a2f57e 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -3449,7 +3449,7 @@ class WorkItemBuiltins
     int arg = 1;
     while (true)
     {
-      char c;
+      char c = '\0';
       memory->load((unsigned char*)&c, formatPtr++);
       if (c == '\0')
       {
@@ -3463,6 +3463,7 @@ class WorkItemBuiltins
         string length;
         while (true)
         {
+          c = '\0';
           memory->load((unsigned char*)&c, formatPtr++);
           if (c == '\0')
           {
@@ -3499,6 +3500,21 @@ class WorkItemBuiltins
 
           format += c;
           bool done = false;
+
+          // Check that there is an argument for this conversion
+          if (strchr("cdiouxXpfFeEgGaAs", c))
+          {
+            if (arg >= (int)callInst->arg_size())
+            {
+              workItem->m_context->logError(
+                "Invalid printf - not enough arguments for the format string");
+              result.setSInt(-1);
+              return;
+            }
+            vectorWidth =
+              _min_(vectorWidth, workItem->getOperand(ARG(arg)).num);
+          }
+
           switch (c)
           {
           case 'c':
@@ -3575,6 +3591,14 @@ class WorkItemBuiltins
             printf("%%");
             done = true;
             break;
+          default:
+            if (!strchr("-+ #.0123456789", c))
+            {
+              // Not a conversion that OpenCL C supports
+              cout << format;
+              done = true;
+            }
+            break;
           }
           if (done)
           {
-- 
2.43.0


From 9b83a046423e0e8dcab594bed573e41ad67100ce Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Fri, 20 Nov 2026 04:33:39 +0000
Subject: [PATCH 130/130] fix: avoid undefined behaviour for non-finite image
 coordinates

These were converted to integers that cannot represent them.
---
 src/core/WorkItemBuiltins.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/core/WorkItemBuiltins.cpp b/src/core/WorkItemBuiltins.cpp
index 6a2f57e..e5bd29b 100644
--- a/src/core/WorkItemBuiltins.cpp
+++ b/src/core/WorkItemBuiltins.cpp
@@ -906,16 +906,16 @@ class WorkItemBuiltins
     switch (sampler & CLK_ADDRESS_MASK)
     {
     case CLK_ADDRESS_NONE:
-      return floor(u);
+      return clampCoordinate(floorf(u), INT_MIN / 2, INT_MAX / 2);
     case CLK_ADDRESS_CLAMP_TO_EDGE:
       return clampCoordinate(floorf(u), 0, size - 1);
     case CLK_ADDRESS_CLAMP:
       return clampCoordinate(floorf(u), -1, size);
     case CLK_ADDRESS_REPEAT:
-      return (int)floorf((n - floorf(n)) * size) % size;
+      return clampCoordinate(floorf((n - floorf(n)) * size), 0, size) % size;
     case CLK_ADDRESS_MIRRORED_REPEAT:
-      return _min_<int>((int)floorf(fabsf(n - 2.f * rintf(0.5f * n)) * size),
-                        size - 1);
+      return clampCoordinate(floorf(fabsf(n - 2.f * rintf(0.5f * n)) * size), 0,
+                             size - 1);
     default:
       FATAL_ERROR("Unsupported sampler addressing mode: %X",
                   sampler & CLK_ADDRESS_MASK);
@@ -930,7 +930,7 @@ class WorkItemBuiltins
     switch (sampler & CLK_ADDRESS_MASK)
     {
     case CLK_ADDRESS_NONE:
-      *c0 = floorf(u - 0.5f);
+      *c0 = clampCoordinate(floorf(u - 0.5f), INT_MIN / 2, INT_MAX / 2);
       *c1 = *c0 + 1;
       return u;
     case CLK_ADDRESS_CLAMP_TO_EDGE:
@@ -944,7 +944,7 @@ class WorkItemBuiltins
     case CLK_ADDRESS_REPEAT:
     {
       u = (n - floorf(n)) * size;
-      *c0 = (int)floorf(u - 0.5f);
+      *c0 = clampCoordinate(floorf(u - 0.5f), -1, size - 1);
       *c1 = *c0 + 1;
       if (*c0 < 0)
         *c0 += size;
@@ -955,7 +955,7 @@ class WorkItemBuiltins
     case CLK_ADDRESS_MIRRORED_REPEAT:
     {
       u = fabsf(n - 2.0f * rintf(0.5f * n)) * size;
-      *c0 = (int)floorf(u - 0.5f);
+      *c0 = clampCoordinate(floorf(u - 0.5f), -1, size - 1);
       *c1 = *c0 + 1;
       *c0 = _max_(*c0, 0);
       *c1 = _min_(*c1, (int)size - 1);
-- 
2.43.0

