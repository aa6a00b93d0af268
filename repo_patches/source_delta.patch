From 22bb91203b69652508010c1f94fc2fbd2412d886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:13 +0000
Subject: [PATCH 01/52] fix: mpECurve_cmp reported curves over different fields
 as equal

---
 src/ecurve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecurve.c b/src/ecurve.c
index 1404b4f..d009d77 100644
--- a/src/ecurve.c
+++ b/src/ecurve.c
@@ -1195,7 +1195,7 @@ int mpECurve_cmp(mpECurve_t op1, mpECurve_t op2) {
     //printf("not the same pointer\n");
     if (op1->type != op2->type) return -1;
     //printf("same type\n");
-    r = (op1->fp == op2->fp) ; if (r != 1) return r;
+    if (op1->fp != op2->fp) return -1;
     //printf("same field\n");
     switch (op1->type) {
         case EQTypeShortWeierstrass:
-- 
2.43.0


From c66452162125945bb06fb49ae6f7b343ecbec6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:44 +0000
Subject: [PATCH 02/52] fix: mpFp_sqrt looped forever or overflowed for primes
 p = 1 mod 2**32

---
 src/field.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/field.c b/src/field.c
index 189ee77..495a349 100644
--- a/src/field.c
+++ b/src/field.c
@@ -735,7 +735,9 @@ int mpFp_sqrt(mpFp_t rop, mpFp_t op) {
                 mpz_powm_ui(z, z, 2, op->fp->p);
                 //mpz_add_ui(i, i, 1); 
             }
-            mpz_powm_ui(b, c, 1 << (m - i - 1), op->fp->p);
+            mpz_set_ui(z, 0);
+            mpz_setbit(z, m - i - 1);
+            mpz_powm(b, c, z, op->fp->p);
             mpz_mul(r, r, b);
             mpz_mod(r, r, op->fp->p);
             mpz_powm_ui(c, b, 2, op->fp->p);
-- 
2.43.0


From aa89b3f7d58ed7c97bfbb6c8eed5cd4855988b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:44 +0000
Subject: [PATCH 03/52] fix: adding Edwards points overwrote the curve object
 of the destination

---
 src/ecpoint.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 01b6b6e..41decb0 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -1104,7 +1104,7 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 // Z3 = c*F*G
                 mpFp_mul(B, pt1->cvp->coeff.ed.c, G);
                 mpFp_mul(rpt->z, B, F);
-                mpECurve_set(rpt->cvp, pt1->cvp);
+                rpt->cvp = pt1->cvp;
                 rpt->is_neutral = 0;
 
 #ifndef _MPECP_MPFP_NOMALLOC
@@ -1183,7 +1183,7 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 mpFp_mul(rpt->y, B, A);
                 // Z3 = F*G
                 mpFp_mul(rpt->z, G, F);
-                mpECurve_set(rpt->cvp, pt1->cvp);
+                rpt->cvp = pt1->cvp;
                 rpt->is_neutral = 0;
 
 #ifndef _MPECP_MPFP_NOMALLOC
@@ -1286,7 +1286,7 @@ void mpECP_double(mpECP_t rpt, mpECP_t pt) {
                 mpFp_clear(YYYY);
                 mpFp_clear(YY);
                 mpFp_clear(XX);
-                mpECurve_set(rpt->cvp, pt->cvp);
+                rpt->cvp = pt->cvp;
                 rpt->is_neutral = 0;
                 return;
             }
-- 
2.43.0


From 7315eaf4718706cf6c2c033075d973509b0ba970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:44 +0000
Subject: [PATCH 04/52] fix: scalar multiplication dropped the top bit of
 scalars longer than the field

---
 src/ecpoint.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 41decb0..6983cde 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -55,8 +55,14 @@ typedef mp_limb_t __local_limb_t[_MPFP_MAX_LIMBS];
 
 static char *_hexlut = "0123456789ABCDEF";
 
+// scalars range over the group order, which may be longer than the field
+static inline int _scalar_bits(mpECurve_t cv) {
+    int nbits = mpz_sizeinbase(cv->n, 2);
+    return (nbits > cv->bits) ? nbits : cv->bits;
+}
+
 static inline int _mpECP_n_base_pt_levels(mpECP_t pt) {
-    return (pt->cvp->bits + pt->base_bits - 1) / pt->base_bits;
+    return (_scalar_bits(pt->cvp) + pt->base_bits - 1) / pt->base_bits;
 }
 
 static inline int _mpECP_n_base_pt_level_size(mpECP_t pt) {
@@ -1332,7 +1338,7 @@ void mpECP_scalar_mul(mpECP_t rpt, mpECP_t pt, mpFp_t sc) {
     mpECP_set(R1, pt);
     // scalar should be modulo the order of the curve
     assert(mpz_cmp(sc->fp->p, pt->cvp->n) == 0);
-    for (i = pt->cvp->bits - 1; i >= 0 ; i--) {
+    for (i = _scalar_bits(pt->cvp) - 1; i >= 0 ; i--) {
         int b;
 
         b = mpFp_tstbit(sc, i);
-- 
2.43.0


From e3b51f90e437624b264f937574e106e08101db3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:51 +0000
Subject: [PATCH 05/52] fix: point addition returned the neutral element when
 the operands differ by a point of order two

---
 src/ecpoint.c | 117 +++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 96 insertions(+), 21 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 6983cde..b15344c 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -747,6 +747,65 @@ void mpECP_cswap(mpECP_t pt2, mpECP_t pt1, int swap) {
     _mpECP_cswap_safe(pt2, pt1, swap);
 }
 
+#ifdef _MPECP_USE_RCB
+// projective chord formula for finite points which differ by a point of order two
+static void _mpECP_add_chord(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
+    mpFp_t u, v, v2, v3, r, zz, a, y1z2;
+    mpFp_init_fp(u, pt1->cvp->fp);
+    mpFp_init_fp(v, pt1->cvp->fp);
+    mpFp_init_fp(v2, pt1->cvp->fp);
+    mpFp_init_fp(v3, pt1->cvp->fp);
+    mpFp_init_fp(r, pt1->cvp->fp);
+    mpFp_init_fp(zz, pt1->cvp->fp);
+    mpFp_init_fp(a, pt1->cvp->fp);
+    mpFp_init_fp(y1z2, pt1->cvp->fp);
+    // u = Y2*Z1 - Y1*Z2
+    mpFp_mul(y1z2, pt1->y, pt2->z);
+    mpFp_mul(u, pt2->y, pt1->z);
+    mpFp_sub(u, u, y1z2);
+    // v = X2*Z1 - X1*Z2
+    mpFp_mul(r, pt1->x, pt2->z);
+    mpFp_mul(v, pt2->x, pt1->z);
+    mpFp_sub(v, v, r);
+    if (mpFp_cmp_ui(v, 0) == 0) {
+        // pt1 = -pt2, a point of order four
+        mpECP_set_neutral(rpt, pt1->cvp);
+        goto cleanup;
+    }
+    // zz = Z1*Z2, v2 = v**2, v3 = v**3, r = v**2*X1*Z2
+    mpFp_mul(zz, pt1->z, pt2->z);
+    mpFp_mul(v2, v, v);
+    mpFp_mul(v3, v2, v);
+    mpFp_mul(r, r, v2);
+    // a = u**2*zz - v**3 - 2*r
+    mpFp_mul(a, u, u);
+    mpFp_mul(a, a, zz);
+    mpFp_sub(a, a, v3);
+    mpFp_sub(a, a, r);
+    mpFp_sub(a, a, r);
+    // X3 = v*a
+    mpFp_mul(rpt->x, v, a);
+    // Y3 = u*(r - a) - v**3*Y1*Z2
+    mpFp_sub(r, r, a);
+    mpFp_mul(r, r, u);
+    mpFp_mul(y1z2, y1z2, v3);
+    mpFp_sub(rpt->y, r, y1z2);
+    // Z3 = v**3*zz
+    mpFp_mul(rpt->z, v3, zz);
+    rpt->cvp = pt1->cvp;
+    rpt->is_neutral = 0;
+cleanup:
+    mpFp_clear(y1z2);
+    mpFp_clear(a);
+    mpFp_clear(zz);
+    mpFp_clear(r);
+    mpFp_clear(v3);
+    mpFp_clear(v2);
+    mpFp_clear(v);
+    mpFp_clear(u);
+}
+#endif
+
 void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
 #ifdef _MPECP_USE_RCB
     mpFp_ptr aa, bb;
@@ -782,9 +841,11 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 //assert(0); // might want to implement something here ;)
                 // 2015 Renes-Costello-Batina "Algorithm 1"
                 // from https://eprint.iacr.org/2015/1060.pdf
-                mpFp_t t0, t1, t2, t3, t4, t5, b3;
+                // complete except where pt1 - pt2 is a point of order two,
+                // (only on curves of even order), which yields (0, 0, 0)
+                mpFp_t t0, t1, t2, t3, t4, t5, b3, X3, Y3, Z3;
 #ifdef _MPECP_MPFP_NOMALLOC
-                __local_limb_t lt0, lt1, lt2, lt3, lt4, lt5, lb3;
+                __local_limb_t lt0, lt1, lt2, lt3, lt4, lt5, lb3, lX3, lY3, lZ3;
                 t0->i->_mp_d = lt0; t0->i->_mp_size = 0; t0->i->_mp_alloc = _MPFP_MAX_LIMBS; t0->fp = pt1->cvp->fp;
                 t1->i->_mp_d = lt1; t1->i->_mp_size = 0; t1->i->_mp_alloc = _MPFP_MAX_LIMBS; t1->fp = pt1->cvp->fp;
                 t2->i->_mp_d = lt2; t2->i->_mp_size = 0; t2->i->_mp_alloc = _MPFP_MAX_LIMBS; t2->fp = pt1->cvp->fp;
@@ -792,6 +853,9 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 t4->i->_mp_d = lt4; t4->i->_mp_size = 0; t4->i->_mp_alloc = _MPFP_MAX_LIMBS; t4->fp = pt1->cvp->fp;
                 t5->i->_mp_d = lt5; t5->i->_mp_size = 0; t5->i->_mp_alloc = _MPFP_MAX_LIMBS; t5->fp = pt1->cvp->fp;
                 b3->i->_mp_d = lb3; b3->i->_mp_size = 0; b3->i->_mp_alloc = _MPFP_MAX_LIMBS; b3->fp = pt1->cvp->fp;
+                X3->i->_mp_d = lX3; X3->i->_mp_size = 0; X3->i->_mp_alloc = _MPFP_MAX_LIMBS; X3->fp = pt1->cvp->fp;
+                Y3->i->_mp_d = lY3; Y3->i->_mp_size = 0; Y3->i->_mp_alloc = _MPFP_MAX_LIMBS; Y3->fp = pt1->cvp->fp;
+                Z3->i->_mp_d = lZ3; Z3->i->_mp_size = 0; Z3->i->_mp_alloc = _MPFP_MAX_LIMBS; Z3->fp = pt1->cvp->fp;
 #else
                 mpFp_init_fp(t0, pt1->cvp->fp);
                 mpFp_init_fp(t1, pt1->cvp->fp);
@@ -800,6 +864,9 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 mpFp_init_fp(t4, pt1->cvp->fp);
                 mpFp_init_fp(t5, pt1->cvp->fp);
                 mpFp_init_fp(b3, pt1->cvp->fp);
+                mpFp_init_fp(X3, pt1->cvp->fp);
+                mpFp_init_fp(Y3, pt1->cvp->fp);
+                mpFp_init_fp(Z3, pt1->cvp->fp);
 #endif
                 // TODO: Precalculate b3 and store in coeff.ws.b3
                 mpFp_add(b3, bb, bb);
@@ -875,25 +942,25 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 //14. t5 <- Y1 + Z1
                 mpFp_add(t5, pt1->y, pt1->z);
                 //15. X3 <- Y2 + Z2
-                mpFp_add(rpt->x, pt2->y, pt2->z);
+                mpFp_add(X3, pt2->y, pt2->z);
                 //16. t5 <- t5 * X3
-                mpFp_mul(t5, t5, rpt->x);
+                mpFp_mul(t5, t5, X3);
                 //17. X3 <- t1 + t2
-                mpFp_add(rpt->x, t1, t2);
+                mpFp_add(X3, t1, t2);
                 //18. t5 <- t5 - X3
-                mpFp_sub(t5, t5, rpt->x);
+                mpFp_sub(t5, t5, X3);
                 //19. Z3 <-  a * t4
-                mpFp_mul(rpt->z, aa, t4);
+                mpFp_mul(Z3, aa, t4);
                 //20. X3 <- b3 * t2
-                mpFp_mul(rpt->x, b3, t2);
+                mpFp_mul(X3, b3, t2);
                 //21. Z3 <- X3 + Z3
-                mpFp_add(rpt->z, rpt->x, rpt->z);
+                mpFp_add(Z3, X3, Z3);
                 //22. X3 <- t1 - Z3
-                mpFp_sub(rpt->x, t1, rpt->z);
+                mpFp_sub(X3, t1, Z3);
                 //23. Z3 <- t1 + Z3
-                mpFp_add(rpt->z, t1, rpt->z);
+                mpFp_add(Z3, t1, Z3);
                 //24. Y3 <- X3 * Z3
-                mpFp_mul(rpt->y, rpt->x, rpt->z);
+                mpFp_mul(Y3, X3, Z3);
                 //25. t1 <- t0 + t0
                 mpFp_add(t1, t0, t0);
                 //26. t1 <- t1 + t0
@@ -913,29 +980,37 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 //33. t0 <- t1 * t4
                 mpFp_mul(t0, t1, t4);
                 //34. Y3 <- Y3 + t0
-                mpFp_add(rpt->y, rpt->y, t0);
+                mpFp_add(Y3, Y3, t0);
                 //35. t0 <- t5 * t4
                 mpFp_mul(t0, t5, t4);
                 //36. X3 <- t3 * X3
-                mpFp_mul(rpt->x, t3, rpt->x);
+                mpFp_mul(X3, t3, X3);
                 //37. X3 <- X3 - t0
-                mpFp_sub(rpt->x, rpt->x, t0);
+                mpFp_sub(X3, X3, t0);
                 //38. t0 <- t3 * t1
                 mpFp_mul(t0, t3, t1);
                 //39. Z3 <- t5 * Z3
-                mpFp_mul(rpt->z, t5, rpt->z);
+                mpFp_mul(Z3, t5, Z3);
                 //40. Z3 <- Z3 + t0
-                mpFp_add(rpt->z, rpt->z, t0);
-
-                rpt->cvp = pt1->cvp;
+                mpFp_add(Z3, Z3, t0);
 
-                if (mpFp_cmp_ui(rpt->z, 0) == 0) {
+                if (mpFp_cmp_ui(Z3, 0) != 0) {
+                    rpt->cvp = pt1->cvp;
+                    rpt->is_neutral = 0;
+                    mpFp_set(rpt->x, X3);
+                    mpFp_set(rpt->y, Y3);
+                    mpFp_set(rpt->z, Z3);
+                } else if (mpFp_cmp_ui(Y3, 0) != 0) {
                     mpECP_set_neutral(rpt, pt1->cvp);
                 } else {
-                    rpt->is_neutral = 0;
+                    // X3 = Y3 = Z3 = 0, pt1 - pt2 is a point of order two
+                    _mpECP_add_chord(rpt, pt1, pt2);
                 }
 
 #ifndef _MPECP_MPFP_NOMALLOC
+                mpFp_clear(Z3);
+                mpFp_clear(Y3);
+                mpFp_clear(X3);
                 mpFp_clear(b3);
                 mpFp_clear(t5);
                 mpFp_clear(t4);
-- 
2.43.0


From 9a4f61a0e3d20f6c3038f8b11b22a12273b6355b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:51 +0000
Subject: [PATCH 06/52] fix: compressed encoding of Montgomery points used the
 parity of the internal y coordinate

---
 src/ecpoint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index b15344c..320e124 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -547,7 +547,7 @@ void mpECP_out_bytes(unsigned char *s, mpECP_t pt, int compress) {
     if (compress != 0) {
         mpz_t odd;
         mpz_init(odd);
-        mpz_set_mpFp(odd, pt->y);
+        mpz_set_mpECP_affine_y(odd, pt);
         mpz_mod_ui(odd, odd, 2);
         if (mpz_cmp_ui(odd, 1) == 0) {
             s[0] = 3;
-- 
2.43.0


From 251fcc451cc84d0d7cd47b69f5bcbc569f01b2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:22 +0000
Subject: [PATCH 07/52] fix: mpECP_set_bytes accepted strings which encode no
 point of the curve

---
 src/ecpoint.c | 45 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 320e124..5ac5472 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -341,19 +341,30 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
     bytes = _bytelen(cv->bits);
     if (blen < (1 + bytes)) return -1;
     switch (b[0]) {
-        case 0:
-            mpECP_set_neutral(rpt, cv);
+        case 0: {
+                size_t i;
+                // neutral element, encoded as all zeros
+                if ((blen != (1 + bytes)) && (blen != (1 + (2 * bytes)))) return -1;
+                for (i = 1; i < blen; i++) {
+                    if (b[i] != 0) return -1;
+                }
+                mpECP_set_neutral(rpt, cv);
+            }
             return 0;
         case 4: {
+                int valid;
                 if (blen != (1 + (2 * bytes))) return -1;
                 mpz_t x, y;
                 mpz_init(x);
                 mpz_init(y);
                 mpz_import(x, bytes, 1, sizeof(unsigned char), 1, 0, &(b[1]));
                 mpz_import(y, bytes, 1, sizeof(unsigned char), 1, 0, &(b[1 + bytes]));
-                mpECP_set_mpz(rpt, x, y, cv);
+                valid = (mpz_cmp(x, cv->fp->p) < 0) && (mpz_cmp(y, cv->fp->p) < 0) &&
+                    mpECurve_point_check(cv, x, y);
+                if (valid) mpECP_set_mpz(rpt, x, y, cv);
                 mpz_clear(y);
                 mpz_clear(x);
+                if (!valid) return -1;
             }
             return 0;
         case 2:
@@ -363,10 +374,14 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
                 int error, odd;
                 if (blen != (1 + bytes)) return -1;
                 mpz_init(xz);
+                mpz_import(xz, bytes, 1, sizeof(unsigned char), 1, 0, &b[1]);
+                if (mpz_cmp(xz, cv->fp->p) >= 0) {
+                    mpz_clear(xz);
+                    return -1;
+                }
                 mpFp_init_fp(x, cv->fp);
                 mpFp_init_fp(y, cv->fp);
                 mpFp_init_fp(t, cv->fp);
-                mpz_import(xz, bytes, 1, sizeof(unsigned char), 1, 0, &b[1]);
                 mpFp_set_mpz_fp(x, xz, cv->fp);
                 switch (cv->type) {
                     case EQTypeShortWeierstrass: {
@@ -399,9 +414,11 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
                             mpFp_set_ui_fp(y, 1, cv->fp);
                             mpFp_sub(t, y, t);
                             mpFp_sub(y, c2, x2);
-                            mpFp_inv(t, t);
-                            mpFp_mul(t, t, y);
-                            error = mpFp_sqrt(y, t);
+                            error = mpFp_inv(t, t);
+                            if (error == 0) {
+                                mpFp_mul(t, t, y);
+                                error = mpFp_sqrt(y, t);
+                            }
                             mpFp_clear(x2);
                             mpFp_clear(c2);
                             if (error != 0) {
@@ -428,9 +445,11 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
                             mpFp_sub(t, y, t);
                             mpFp_mul(x2, x2, a);
                             mpFp_sub(y, y, x2);
-                            mpFp_inv(t, t);
-                            mpFp_mul(t, t, y);
-                            error = mpFp_sqrt(y, t);
+                            error = mpFp_inv(t, t);
+                            if (error == 0) {
+                                mpFp_mul(t, t, y);
+                                error = mpFp_sqrt(y, t);
+                            }
                             mpFp_clear(x2);
                             mpFp_clear(a);
                             if (error != 0) {
@@ -470,14 +489,18 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
                 }
                 odd = mpz_tstbit(y->i, 0);
                 // '3' implies odd, '2' even... negate if not matched
+                error = 0;
                 if ((b[0] & 0x01) != odd) {
                     mpFp_neg(y, y);
+                    // y = 0 has no odd counterpart
+                    if (mpFp_cmp_ui(y, 0) == 0) error = -1;
                 }
-                mpECP_set_mpFp(rpt, x, y, cv);
+                if (error == 0) mpECP_set_mpFp(rpt, x, y, cv);
                 mpFp_clear(t);
                 mpFp_clear(y);
                 mpFp_clear(x);
                 mpz_clear(xz);
+                if (error != 0) return -1;
             }
             return 0;
         default:
-- 
2.43.0


From a1b73e469eb16154f606e5dce638df97349c8e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:22 +0000
Subject: [PATCH 08/52] fix: mpECP_set_str decoded text which is not
 hexadecimal

---
 src/ecpoint.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 5ac5472..7448a1f 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -315,6 +315,7 @@ int mpECP_set_str(mpECP_t rpt, char *s, mpECurve_t cv) {
 
     slen = strlen(s);
     if ((slen & 0x01) != 0) return -1;
+    if (strspn(s, "0123456789abcdefABCDEF") != slen) return -1;
     blen = slen >> 1;
     buf = (unsigned char *)malloc(blen * sizeof(char));
     assert(buf != NULL);
-- 
2.43.0


From f184cf2e13a12257931374cd2e0ccfd17dd75c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 09/52] fix: ECDSA sign could produce a signature with r = 0

---
 src/ecdsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 95f9b96..32bdafa 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -117,9 +117,9 @@ new_random:
 
     mpECP_scalar_base_mul(R, sscheme->cv_G, k_n);
     mpz_set_mpECP_affine_x(r, R);
-    if (__GMP_UNLIKELY(mpz_cmp_ui(r, 0) == 0)) goto new_random;
-
     mpFp_set_mpz(r_n, r, sscheme->cvp->n);
+    if (__GMP_UNLIKELY(mpFp_cmp_ui(r_n, 0) == 0)) goto new_random;
+
     mpFp_mul(s_n, r_n, sK);
     mpFp_add(s_n, s_n, e_n);
     status = mpFp_inv(e_n, k_n);
-- 
2.43.0


From cf4686abe58ff26fd55878316f03b3a711516f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 10/52] fix: ECDSA used more bits of the digest than the order
 has

---
 src/ecdsa.c | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 32bdafa..f19088d 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -77,6 +77,16 @@ void mpECDSASignatureScheme_clear(mpECDSASignatureScheme_t sscheme) {
     return;
 }
 
+// convert hash to an integer, leftmost bits up to the bit length of the order
+static void _mpz_import_hash(mpz_t e, mpECDSASignatureScheme_t sscheme, unsigned char *hash) {
+    if (sscheme->nsz <= sscheme->H->hsz) {
+        mpz_import(e, sscheme->nsz, 1, 1, 1, 0, hash);
+        mpz_tdiv_q_2exp(e, e, (sscheme->nsz << 3) - mpz_sizeinbase(sscheme->cvp->n, 2));
+    } else {
+        mpz_import(e, sscheme->H->hsz, 1, 1, 1, 0, hash);
+    }
+}
+
 int mpECDSASignature_init_Sign(mpECDSASignature_t sig, mpECDSASignatureScheme_t sscheme, mpFp_t sK, unsigned char *msg, size_t sz) {
     unsigned char *hash;
     mpFp_t k_n;
@@ -104,11 +114,7 @@ int mpECDSASignature_init_Sign(mpECDSASignature_t sig, mpECDSASignatureScheme_t
     mpECP_init(R, sscheme->cvp);
 
     sscheme->H->dohash(hash, msg, sz);
-    if (sscheme->nsz <= sscheme->H->hsz) {
-        mpz_import(e, sscheme->nsz, 1, 1, 1, 0, hash);
-    } else {
-        mpz_import(e, sscheme->H->hsz, 1, 1, 1, 0, hash);
-    }
+    _mpz_import_hash(e, sscheme, hash);
     free(hash);
     mpFp_set_mpz(e_n, e, sscheme->cvp->n);
 new_random:
@@ -182,11 +188,7 @@ int mpECDSASignature_verify_cmp(mpECDSASignature_t sig, mpECP_t pK, unsigned cha
     mpECP_init(Pq, sig->sscheme->cvp);
 
     sig->sscheme->H->dohash(hash, msg, sz);
-    if (sig->sscheme->nsz <= sig->sscheme->H->hsz) {
-        mpz_import(e, sig->sscheme->nsz, 1, 1, 1, 0, hash);
-    } else {
-        mpz_import(e, sig->sscheme->H->hsz, 1, 1, 1, 0, hash);
-    }
+    _mpz_import_hash(e, sig->sscheme, hash);
     free(hash);
     mpFp_set_mpz(e_n, e, sig->sscheme->cvp->n);
     mpFp_inv(w, sig->s);
-- 
2.43.0


From 88878133e526fc009d700c055430ca932d4ff092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 11/52] fix: ECDSA verification compared r with the coordinate
 of the point at infinity

---
 src/ecdsa.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index f19088d..cd36927 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -201,6 +201,8 @@ int mpECDSASignature_verify_cmp(mpECDSASignature_t sig, mpECP_t pK, unsigned cha
     mpFp_set_mpz(p_n, e, sig->sscheme->cvp->n);
 
     status = mpFp_cmp(p_n, sig->r);
+    // the neutral element has no x coordinate
+    if (P->is_neutral != 0) status = -1;
 
     mpECP_clear(Pq);
     mpECP_clear(P);
-- 
2.43.0


From 12a0a8e577e55c1b5347c31fddcb45a5d9a3b453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 12/52] fix: ECDSA aborted on keys which belong to another
 curve

---
 src/ecdsa.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index cd36927..0573a85 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -102,6 +102,8 @@ int mpECDSASignature_init_Sign(mpECDSASignature_t sig, mpECDSASignatureScheme_t
 
     if ((msg == NULL) || (sz == 0)) return -1;
 
+    if (mpz_cmp(sK->fp->p, sscheme->cvp->n) != 0) return -1;
+
     hash = (unsigned char *)malloc(sscheme->H->hsz * sizeof(char));
     assert(hash != NULL);
 
@@ -166,6 +168,8 @@ int mpECDSASignature_verify_cmp(mpECDSASignature_t sig, mpECP_t pK, unsigned cha
 
     if (sig == NULL) return -1;
 
+    if (mpECurve_cmp(pK->cvp, sig->sscheme->cvp) != 0) return -1;
+
     // validate signature input, presume public key was validated at import
     if ((mpz_cmp(sig->r->fp->p, sig->sscheme->cvp->n) != 0) ||
         (mpz_cmp(sig->s->fp->p, sig->sscheme->cvp->n) != 0)) {
-- 
2.43.0


From e27ac4d62da5e3144b2d0712050121d3984964e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 13/52] fix: ECDSA signature import accepted text which is not
 hexadecimal

---
 src/ecdsa.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 0573a85..80bda1e 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -339,6 +339,7 @@ int mpECDSASignature_init_import_str(mpECDSASignature_t sig, mpECDSASignatureSch
     ssz = strlen(ssig);
     // odd length string cannot be hex!
     if ((ssz & 0x01) != 0x00) return -1;
+    if (strspn(ssig, "0123456789abcdefABCDEF") != ssz) return -1;
 
     bsz = ssz >> 1;
     bbytes = (unsigned char *)malloc(bsz * sizeof(char));
-- 
2.43.0


From 8907f2d7fbe8aa9ca5106241d132e29f78bcb9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:17 +0000
Subject: [PATCH 14/52] fix: ElGamal decryption aborted when the points refer
 to distinct objects of the same curve

---
 src/ecelgamal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecelgamal.c b/src/ecelgamal.c
index 30083fc..9a2d5b3 100644
--- a/src/ecelgamal.c
+++ b/src/ecelgamal.c
@@ -62,7 +62,9 @@ int mpECElgamal_init_encrypt(mpECElgamalCiphertext_t ctxt, mpECP_t pK, mpECP_t p
 }
 
 int mpECElgamal_init_decrypt(mpECP_t ptxt, mpFp_t sK, mpECElgamalCiphertext_t ctxt) {
-    assert(ctxt->C->cvp == ctxt->D->cvp);
+    if (mpECurve_cmp(ctxt->C->cvp, ctxt->D->cvp) != 0) {
+        return -1;
+    }
     if (mpz_cmp(sK->fp->p, ctxt->C->cvp->n) != 0) {
         return -1;
     }
-- 
2.43.0


From 1e9da22e2ee94d7109acd5450d3f1b96a704eb9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 15/52] fix: the compiler removed the cleaning of freed memory

---
 src/safememory.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/safememory.c b/src/safememory.c
index 0770740..9ee796e 100644
--- a/src/safememory.c
+++ b/src/safememory.c
@@ -34,6 +34,10 @@
 #include <string.h>
 #include <stdlib.h>
 
+// called through a volatile pointer, as compilers drop a memset of memory
+// which is about to be freed
+static void *(*const volatile _clean)(void *, int, size_t) = memset;
+
 void *_safe_clean_realloc(void *old, size_t oldsz, size_t newsz) {
     void *ret;
 
@@ -48,14 +52,14 @@ void *_safe_clean_realloc(void *old, size_t oldsz, size_t newsz) {
     }
 
     memcpy(ret, old, oldsz);
-    memset(old, 0, oldsz);
+    _clean(old, 0, oldsz);
     free(old);
 
     return ret;
 }
 
 void _safe_clean_free(void *old, size_t oldsz) {
-    memset(old, 0, oldsz);
+    _clean(old, 0, oldsz);
     free (old);
 }
 
-- 
2.43.0


From 2ef69e6db36d66bfdfa065729232556fdbd89493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 16/52] fix: blocks which had been shrunk were only partly
 cleaned

---
 src/safememory.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/safememory.c b/src/safememory.c
index 9ee796e..5c07609 100644
--- a/src/safememory.c
+++ b/src/safememory.c
@@ -42,6 +42,8 @@ void *_safe_clean_realloc(void *old, size_t oldsz, size_t newsz) {
     void *ret;
 
     if (__GMP_LIKELY(newsz <= oldsz)) {
+        // the block keeps its size, but will be freed with the smaller one
+        _clean((char *)old + newsz, 0, oldsz - newsz);
         return old;
     }
 
-- 
2.43.0


From 2bd01278e661b6cbaaaf5de884a37c4d9ccbd766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:59 +0000
Subject: [PATCH 17/52] fix: parent and child processes drew the same random
 numbers after a fork

---
 src/mpzurandom.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpzurandom.c b/src/mpzurandom.c
index 23eec45..212fff2 100644
--- a/src/mpzurandom.c
+++ b/src/mpzurandom.c
@@ -50,6 +50,8 @@ void mpz_urandom(mpz_t rop, mpz_t rand_max) {
     if (_f_urandom == NULL) {
         _f_urandom = fopen("/dev/urandom", "rb");
         assert(_f_urandom != NULL);
+        // no read-ahead, which a child process would share after a fork
+        setvbuf(_f_urandom, NULL, _IONBF, 0);
         atexit(_close_f_urandom);
     }
     // bytes intentionally long to ensure uniformity, will truncate with modulo
-- 
2.43.0


From 40a49a717ff3fafdff8c2c0a0f624c8d40b5e173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:04 +0000
Subject: [PATCH 18/52] fix: Montgomery points were mapped to the wrong
 internal point when B is not one

---
 src/ecpoint.c | 4 ++--
 src/ecurve.c  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 7448a1f..b2437e5 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -126,9 +126,9 @@ void mpECP_set(mpECP_t rpt, mpECP_t pt) {
 
 static inline void _transform_mo_to_ws(mpECP_t pt) {
     assert (pt->cvp->type == EQTypeMontgomery);
-    // u = x/B + A/3, v = y/B
-    mpFp_mul(pt->x, pt->x, pt->cvp->coeff.mo.Binv);
+    // u = (x + A/3)/B, v = y/B
     mpFp_add(pt->x, pt->x, pt->cvp->coeff.mo.Adiv3);
+    mpFp_mul(pt->x, pt->x, pt->cvp->coeff.mo.Binv);
     mpFp_mul(pt->y, pt->y, pt->cvp->coeff.mo.Binv);
 }
 
diff --git a/src/ecurve.c b/src/ecurve.c
index d009d77..17f97ef 100644
--- a/src/ecurve.c
+++ b/src/ecurve.c
@@ -1002,7 +1002,7 @@ mpz_t h, mpz_t Gx, mpz_t Gy, unsigned int bits){
     // resulting equation:
     // v^2 = u^3 + ws_a * u + ws_b
     // reverse transform:
-    // u = x/B + A/3, v = y/B
+    // u = (x + A/3)/B, v = y/B
     {
         mpFp_t a, b, s, t;
         mpFp_init_fp(a, cv->fp);
-- 
2.43.0


From 54cc21e8293672beb1e8b3ab09e2d6589fc83594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:38 +0000
Subject: [PATCH 19/52] fix: ECDSA sign used a wrong digest after drawing a
 nonce for which s = 0

---
 src/ecdsa.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 80bda1e..4d0b160 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -118,8 +118,9 @@ int mpECDSASignature_init_Sign(mpECDSASignature_t sig, mpECDSASignatureScheme_t
     sscheme->H->dohash(hash, msg, sz);
     _mpz_import_hash(e, sscheme, hash);
     free(hash);
-    mpFp_set_mpz(e_n, e, sscheme->cvp->n);
 new_random:
+    // (each time, e_n is also used for the inverse of k)
+    mpFp_set_mpz(e_n, e, sscheme->cvp->n);
     mpFp_urandom(k_n, sscheme->cvp->n);
     if (__GMP_UNLIKELY(mpFp_cmp_ui(k_n, 0) == 0)) goto new_random;
 
-- 
2.43.0


From 63f3dffbd73da41a1f44a20a5cc58e8282c3c435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 20/52] fix: random bytes from which secrets are derived stayed
 in freed memory

---
 src/mpzurandom.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/mpzurandom.c b/src/mpzurandom.c
index 212fff2..9051cf9 100644
--- a/src/mpzurandom.c
+++ b/src/mpzurandom.c
@@ -33,6 +33,13 @@
 #include <gmp.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
+
+#ifdef  SAFE_CLEAN
+// called through a volatile pointer, as compilers drop a memset of memory
+// which is about to be freed
+static void *(*const volatile _clean)(void *, int, size_t) = memset;
+#endif
 
 static FILE *_f_urandom = NULL;
 
@@ -61,6 +68,10 @@ void mpz_urandom(mpz_t rop, mpz_t rand_max) {
     assert(sz_read == bytes);
     mpz_import(rop, sz_read, 1, sizeof(char), 0, 0, buffer);
     mpz_mod(rop, rop, rand_max);
+#ifdef  SAFE_CLEAN
+    // the random bytes determine the result, which may be a secret
+    _clean(buffer, 0, bytes);
+#endif
     free(buffer);
     return;
 }
-- 
2.43.0


From 6fbcbf1f887b7163a6dec4bfdce2f030dfd0dfca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 21/52] fix: FieldElement repr converted an integer with
 leading zero limbs

---
 python/pyfield.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pyfield.c b/python/pyfield.c
index 4e0ad91..d90d0b1 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -492,7 +492,7 @@ static PyObject *FieldElement_repr(PyObject *a) {
 	PyObject *rep;
 	assert(PyObject_TypeCheck(a, &FieldElementType) != 0);
 	
-	i = _mpz_to_pylong(((FieldElement *)a)->fe->i);
+	i = _mpFp_to_pylong(((FieldElement *)a)->fe);
 	assert(i != NULL);
 	p = _mpz_to_pylong(((FieldElement *)a)->fe->fp->p);
 	assert(p != NULL);
-- 
2.43.0


From 6f33e46fde4a8f25e7663ded58b7f87b8e5d4023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:40 +0000
Subject: [PATCH 22/52] fix: Python integers of 2048 bits and more overflowed
 conversion buffers

---
 python/pygmplong.c | 103 ++++++++++++++++++---------------------------
 1 file changed, 42 insertions(+), 61 deletions(-)

diff --git a/python/pygmplong.c b/python/pygmplong.c
index b342e65..f6eb446 100644
--- a/python/pygmplong.c
+++ b/python/pygmplong.c
@@ -32,10 +32,10 @@
 #include <pygmplong.h>
 #include <Python.h>
 
-#define _MPFP_MAX_LIMBS   (32)
-
-int _pylong_to_mpz(PyLongObject *pobj, mpz_t pmpz) {
-	mp_limb_t pdata[_MPFP_MAX_LIMBS];
+// convert a python integer of any size - is_signed == 0 implies that negative
+// values are not acceptable
+static int _pylong_to_mpz_bytes(PyLongObject *pobj, mpz_t pmpz, int is_signed) {
+	unsigned char *pdata;
 	size_t psz;
 	int status;
 	int negative;
@@ -48,99 +48,80 @@ int _pylong_to_mpz(PyLongObject *pobj, mpz_t pmpz) {
 		return -1;
 	}
 
-	// calculate the byte length of p
-	psz = _PyLong_NumBits((PyObject*)pobj);
-	//printf("psz = %d\n", psz);
-	psz >>= 3;
+	// calculate the byte length of p, including space for the sign bit
+	psz = (_PyLong_NumBits((PyObject*)pobj) >> 3) + 1;
 
-	if (psz > sizeof(pdata)) {
+	pdata = (unsigned char *)malloc(psz * sizeof(unsigned char));
+	if (pdata == NULL) {
 		return -1;
 	}
-	
-	// convert to bytes, initial 1 implies little endian, final 1 implies signed
-	status = _PyLong_AsByteArray(pobj, (unsigned char *)pdata, psz+1, 1, 1);
-
-	//{
-	//	int i;
-	//	printf("p= 0x");
-	//	for (i = 0; i <= psz; i++) {
-	//		printf("%02X", ((unsigned char *)pdata)[i]);
-	//	}
-	//	printf("\n");
-	//}
+
+	// convert to bytes, 1 implies little endian
+	status = _PyLong_AsByteArray(pobj, pdata, psz, 1, is_signed);
 
 	if (status != 0) {
+		free(pdata);
 		return -1;
 	}
 
 	// mpz_import is inherently unsigned... detect sign
-	negative = (((unsigned char *)pdata)[psz] & 0x80) != 0;
+	negative = is_signed && ((pdata[psz-1] & 0x80) != 0);
 	
 	// take 1's complement if negative
 	if (negative) {
-		int i;
-		for (i = 0; i <= psz; i++) {
-			((unsigned char *)pdata)[i] ^= 0xFF;
+		size_t i;
+		for (i = 0; i < psz; i++) {
+			pdata[i] ^= 0xFF;
 		}
 	}
 
 	// convert bytes to mpz, -1 implies little endian (wordwise and bytewise), 0 implies no "nails"
-	mpz_import(pmpz, psz+1, -1, sizeof(unsigned char), -1, 0, (void *)pdata);
+	mpz_import(pmpz, psz, -1, sizeof(unsigned char), -1, 0, (void *)pdata);
 
 	// convert to 2's complement and negate 	
 	if (negative) {
 		mpz_add_ui(pmpz, pmpz, 1);
 		mpz_neg(pmpz, pmpz);
 	}
-	
+
+	free(pdata);
 	return 0;
 }
 
-int _pylong_to_mpz_unsigned(PyLongObject *pobj, mpz_t pmpz) {
-	mp_limb_t pdata[_MPFP_MAX_LIMBS];
-	size_t psz;
-	int status;
-
-	if (pobj == NULL) {
-    	return -1;
-	}
-
-	if (!PyLong_Check(pobj)) {
-		return -1;
-	}
-
-	// calculate the byte length of p
-	psz = _PyLong_NumBits((PyObject*)pobj);
-	psz >>= 3;
-
-	if (psz > sizeof(pdata)) {
-		return -1;
-	}
-
-	// convert to bytes, 1 implies little endian, 0 implies unsigned
-	status = _PyLong_AsByteArray(pobj, (unsigned char *)pdata, psz+1, 1, 0);
-
-	if (status != 0) {
-		return -1;
-	}
+int _pylong_to_mpz(PyLongObject *pobj, mpz_t pmpz) {
+	return _pylong_to_mpz_bytes(pobj, pmpz, 1);
+}
 
-	// convert bytes to mpz, -1 implies little endian (wordwise and bytewise), 0 implies no "nails"
-	mpz_import(pmpz, psz+1, -1, sizeof(unsigned char), -1, 0, (void *)pdata);
-	
-	return 0;
+int _pylong_to_mpz_unsigned(PyLongObject *pobj, mpz_t pmpz) {
+	return _pylong_to_mpz_bytes(pobj, pmpz, 0);
 }
 
 PyObject *_mpz_to_pylong(mpz_t pmpz) {
-	mp_limb_t pdata[_MPFP_MAX_LIMBS];
+	PyObject *mag, *rop;
+	unsigned char *pdata;
 	size_t countp;
 
-	countp = sizeof(pdata);
+	countp = (mpz_sizeinbase(pmpz, 2) + 7) >> 3;
+	pdata = (unsigned char *)malloc(countp * sizeof(unsigned char));
+	if (pdata == NULL) {
+		return PyErr_NoMemory();
+	}
 
 	mpz_export((void *)pdata, &countp, -1, sizeof(unsigned char), -1, 0, pmpz);
 
 	// convert from bytes, 1 implies little endian, 0 implies unsigned
 	// note, the mpz zero repr (no data written to pdata and countp=0 is correctly handled)
-	return _PyLong_FromByteArray((unsigned char*)pdata, countp, 1, (pmpz->_mp_size < 0));
+	mag = _PyLong_FromByteArray(pdata, countp, 1, 0);
+	free(pdata);
+
+	if ((mag == NULL) || (mpz_sgn(pmpz) >= 0)) {
+		return mag;
+	}
+
+	// mpz_export only exports the magnitude
+	rop = PyNumber_Negative(mag);
+	Py_DECREF(mag);
+	return rop;
 }
 
 PyObject *_mpFp_to_pylong(mpFp_t pFp) {
-- 
2.43.0


From cfed8c2afa69c175607ca606fdc900f09be1ce98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:06 +0000
Subject: [PATCH 23/52] fix: Python field elements with an impossible modulus
 terminated the interpreter

---
 python/pyfield.c   | 10 ++++++++++
 python/pygmplong.c |  5 +++++
 python/pygmplong.h |  1 +
 3 files changed, 16 insertions(+)

diff --git a/python/pyfield.c b/python/pyfield.c
index d90d0b1..9d0e9d5 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -86,6 +86,11 @@ static int FieldElement_init(FieldElement *self, PyObject *args, PyObject *kwarg
 		mpz_clear(pmpz);
 		return -1;
 	}
+	if (!_mpz_is_field_order(pmpz)) {
+		PyErr_SetString(PyExc_ValueError, "FieldElement_init modulus out of range");
+		mpz_clear(pmpz);
+		return -1;
+	}
 
 	mpz_init(impz);
     status = _pylong_to_mpz(i, impz);
@@ -381,6 +386,11 @@ static PyObject *FieldElement_urandom(PyObject *none, PyObject *plong) {
 		mpz_clear(pmpz);
 		return NULL;
 	}
+	if (!_mpz_is_field_order(pmpz)) {
+		PyErr_SetString(PyExc_ValueError, "FieldElement_urandom modulus out of range");
+		mpz_clear(pmpz);
+		return NULL;
+	}
 
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
     mpFp_urandom(rop->fe, pmpz);
diff --git a/python/pygmplong.c b/python/pygmplong.c
index f6eb446..d465d3b 100644
--- a/python/pygmplong.c
+++ b/python/pygmplong.c
@@ -124,6 +124,11 @@ PyObject *_mpz_to_pylong(mpz_t pmpz) {
 	return rop;
 }
 
+// the library handles fields with an order of up to 1024 bits
+int _mpz_is_field_order(mpz_t pmpz) {
+	return (mpz_cmp_ui(pmpz, 2) >= 0) && (mpz_sizeinbase(pmpz, 2) <= 1024);
+}
+
 PyObject *_mpFp_to_pylong(mpFp_t pFp) {
     mpz_t pmpz;
 	PyObject *p;
diff --git a/python/pygmplong.h b/python/pygmplong.h
index 9510410..e4dd6a5 100644
--- a/python/pygmplong.h
+++ b/python/pygmplong.h
@@ -43,6 +43,7 @@ int _pylong_to_mpz(PyLongObject *pobj, mpz_t pmpz);
 int _pylong_to_mpz_unsigned(PyLongObject *pobj, mpz_t pmpz);
 PyObject *_mpz_to_pylong(mpz_t pmpz);
 PyObject *_mpFp_to_pylong(mpFp_t pFp);
+int _mpz_is_field_order(mpz_t pmpz);
 
 #ifdef __cplusplus
 }
-- 
2.43.0


From ea9374f73d4852b88e86e6bff76ec20855f53242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:00 +0000
Subject: [PATCH 24/52] fix: Python curve definitions with unusable orders or
 sizes terminated the interpreter

---
 python/pycurve.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/python/pycurve.c b/python/pycurve.c
index 41deffc..1ac2040 100644
--- a/python/pycurve.c
+++ b/python/pycurve.c
@@ -123,6 +123,13 @@ static PyObject *ECurve_richcompare(PyObject *a, PyObject *b, int op) {
 	Py_RETURN_FALSE;
 }
 
+// the point and scalar operations rely on the orders being usable as field
+// orders and on the size covering the whole of the field
+static int ECurve_valid_orders(mpz_t p, mpz_t n, int bits) {
+	return _mpz_is_field_order(p) && _mpz_is_field_order(n) && (mpz_odd_p(p) != 0)
+		&& (bits >= 0) && (bits <= 1024) && ((size_t)bits >= mpz_sizeinbase(p, 2));
+}
+
 static PyObject *ECurve_check_point(PyObject *cv, PyObject *args) {
     PyObject *x, *y;
     mpz_t xmpz, ympz;
@@ -214,7 +221,7 @@ static PyObject *ECurve_create_ws(PyObject *none, PyObject *args) {
     
 	rop = (ECurve *)ECurve_new( &ECurveType, NULL, NULL);
 	mpECurve_init(rop->ec);
-    status = mpECurve_set_mpz_ws(rop->ec, pmpz, ampz, bmpz, nmpz, hmpz, gxmpz, gympz, bits);
+    status = ECurve_valid_orders(pmpz, nmpz, bits) ? mpECurve_set_mpz_ws(rop->ec, pmpz, ampz, bmpz, nmpz, hmpz, gxmpz, gympz, bits) : -1;
 	rop->ready = 1;
 
 	if (status != 0) {
@@ -299,7 +306,7 @@ static PyObject *ECurve_create_ed(PyObject *none, PyObject *args) {
     
 	rop = (ECurve *)ECurve_new( &ECurveType, NULL, NULL);
 	mpECurve_init(rop->ec);
-    status = mpECurve_set_mpz_ed(rop->ec, pmpz, cmpz, dmpz, nmpz, hmpz, gxmpz, gympz, bits);
+    status = ECurve_valid_orders(pmpz, nmpz, bits) ? mpECurve_set_mpz_ed(rop->ec, pmpz, cmpz, dmpz, nmpz, hmpz, gxmpz, gympz, bits) : -1;
 	rop->ready = 1;
 
 	if (status != 0) {
@@ -384,7 +391,7 @@ static PyObject *ECurve_create_mo(PyObject *none, PyObject *args) {
     
 	rop = (ECurve *)ECurve_new( &ECurveType, NULL, NULL);
 	mpECurve_init(rop->ec);
-    status = mpECurve_set_mpz_mo(rop->ec, pmpz, Bmpz, Ampz, nmpz, hmpz, gxmpz, gympz, bits);
+    status = ECurve_valid_orders(pmpz, nmpz, bits) ? mpECurve_set_mpz_mo(rop->ec, pmpz, Bmpz, Ampz, nmpz, hmpz, gxmpz, gympz, bits) : -1;
 	rop->ready = 1;
 
 	if (status != 0) {
@@ -469,7 +476,7 @@ static PyObject *ECurve_create_te(PyObject *none, PyObject *args) {
     
 	rop = (ECurve *)ECurve_new( &ECurveType, NULL, NULL);
 	mpECurve_init(rop->ec);
-    status = mpECurve_set_mpz_te(rop->ec, pmpz, ampz, dmpz, nmpz, hmpz, gxmpz, gympz, bits);
+    status = ECurve_valid_orders(pmpz, nmpz, bits) ? mpECurve_set_mpz_te(rop->ec, pmpz, ampz, dmpz, nmpz, hmpz, gxmpz, gympz, bits) : -1;
 	rop->ready = 1;
 
 	if (status != 0) {
-- 
2.43.0


From 145b39cf6c581431e2aad0ba3f60d3b2864dd7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:06 +0000
Subject: [PATCH 25/52] fix: Python curve names, attributes and failed
 constructors leaked

---
 python/pycurve.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/pycurve.c b/python/pycurve.c
index 1ac2040..f10d72f 100644
--- a/python/pycurve.c
+++ b/python/pycurve.c
@@ -72,6 +72,7 @@ static int ECurve_init(ECurve *self, PyObject *args, PyObject *kwargs) {
     status = mpECurve_set_named(self->ec, name);
     
     if (status != 0) {
+		mpECurve_clear(self->ec);
 		PyErr_SetString(PyExc_ValueError, "Unable to find curve matching name");
 		return -1;
     }
@@ -527,13 +528,17 @@ static PyObject *ECurve_list_curve_names(PyObject *type, PyObject *none) {
         assert(pstr != NULL);
         status = PyList_Append(clist, pstr);
         Py_DECREF(pstr);
+        free(list[i]);
         if (status != 0) {
+            while (list[++i] != NULL) free(list[i]);
+            free(list);
             Py_DECREF(clist);
             return NULL;
         }
 
         i++;
     }
+    free(list);
     return clist;
 }
 
@@ -634,10 +639,8 @@ static PyObject *ECurve_getattr(PyObject *o, char *attr_name) {
 
         status = PyTuple_SetItem(t, 0, gx);
         assert(status == 0);
-        Py_INCREF(gx);
         status = PyTuple_SetItem(t, 1, gy);
         assert(status == 0);
-        Py_INCREF(gy);
 
         return t;
     }
-- 
2.43.0


From ac3a937a7a655d7bfbbf1d01d005d59dfd8e554c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 26/52] fix: Python strings without an UTF-8 form terminated
 the interpreter

---
 python/pycurve.c     | 3 ++-
 python/pyecdsa.c     | 7 +++++--
 python/pyecelgamal.c | 3 ++-
 3 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/python/pycurve.c b/python/pycurve.c
index f10d72f..e399d05 100644
--- a/python/pycurve.c
+++ b/python/pycurve.c
@@ -716,7 +716,8 @@ static PyObject *ECurve_getattro(PyObject *o, PyObject *attr_name) {
     }
 
 	assert(PyUnicode_Check(attr_name) != 0);
-    attr_nm_c = PyUnicode_AsUTF8(attr_name);
+    attr_nm_c = (char *)PyUnicode_AsUTF8(attr_name);
+    if (attr_nm_c == NULL) return NULL;
 
     return ECurve_getattr(o, attr_nm_c);
 }
diff --git a/python/pyecdsa.c b/python/pyecdsa.c
index 00af979..56a6df4 100644
--- a/python/pyecdsa.c
+++ b/python/pyecdsa.c
@@ -151,15 +151,18 @@ static int ECDSASignature_init(ECDSASignature *self, PyObject *args, PyObject *k
         }
     } else {
         char *sstr;
+        Py_ssize_t ssz;
 
         if (!PyUnicode_Check(ssbytes)) {
             PyErr_SetString(PyExc_TypeError, "ECDSASignature_init: expected bytes or unicode type as argument 2");
             return -1;
         }
 
-        sstr = PyUnicode_AsUTF8(ssbytes);
+        sstr = (char *)PyUnicode_AsUTF8AndSize(ssbytes, &ssz);
+        if (sstr == NULL) return -1;
 
-        status =  mpECDSASignature_init_import_str(self->sig, ss->sscheme, sstr);
+        // text may contain NUL characters
+        status = (strlen(sstr) != (size_t)ssz) ? -1 : mpECDSASignature_init_import_str(self->sig, ss->sscheme, sstr);
         if (status != 0) {
             PyErr_SetString(PyExc_ValueError, "ECDSASignature_init: cannot initialize from string object");
             return -1;
diff --git a/python/pyecelgamal.c b/python/pyecelgamal.c
index 933e3a7..4ddcc32 100644
--- a/python/pyecelgamal.c
+++ b/python/pyecelgamal.c
@@ -299,7 +299,8 @@ static PyObject *ECElgamalCiphertext_getattro(PyObject *o, PyObject *attr_name)
     }
 
 	assert(PyUnicode_Check(attr_name) != 0);
-    attr_nm_c = PyUnicode_AsUTF8(attr_name);
+    attr_nm_c = (char *)PyUnicode_AsUTF8(attr_name);
+    if (attr_nm_c == NULL) return NULL;
 
     return ECElgamalCiphertext_getattr(o, attr_nm_c);
 }
-- 
2.43.0


From 980907f90d1678ad0a8c8bc8e6e1ff26c222333c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 27/52] fix: failed ECPoint constructors leaked, strings
 without an UTF-8 form crashed them

---
 python/pypoint.c | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/python/pypoint.c b/python/pypoint.c
index 4a9d2d8..9d1c076 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -93,7 +93,7 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
 
             if (PyTuple_Size(initial) != 2) {
         		PyErr_SetString(PyExc_TypeError, "initializer tuple size mismatch");
-        		return -1;
+        		goto Error;
             }
             
             ix = PyTuple_GetItem(initial, 0);
@@ -106,7 +106,7 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
 
                 if (!PyLong_Check(iy)) {
         		    PyErr_SetString(PyExc_TypeError, "initializer tuple type mismatch");
-        		    return -1;
+        		    goto Error;
                 }
                 
                 mpz_init(ixmpz);
@@ -122,13 +122,13 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
                 if ((!PyObject_TypeCheck(ix, &FieldElementType)) || 
                     (!PyObject_TypeCheck(iy, &FieldElementType))) {
         		    PyErr_SetString(PyExc_TypeError, "initializer tuple type mismatch");
-        		    return -1;
+        		    goto Error;
                 }
 
                 if ((((FieldElement *)ix)->fe->fp != ((ECurve *)curve)->ec->fp) || 
                     (((FieldElement *)iy)->fe->fp != ((ECurve *)curve)->ec->fp)) {
         		    PyErr_SetString(PyExc_ValueError, "initializer tuple field order mismatch");
-        		    return -1;
+        		    goto Error;
                 }
 
                 mpECP_set_mpFp(self->ecp, ((FieldElement *)ix)->fe,
@@ -137,12 +137,15 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
         } else {
             if (PyUnicode_Check(initial)) {
                 char *buffer;
+                Py_ssize_t bsize;
 
-                buffer = (char *)PyUnicode_AsUTF8(initial);
-                status = mpECP_set_str(self->ecp,buffer,((ECurve *)curve)->ec);
+                buffer = (char *)PyUnicode_AsUTF8AndSize(initial, &bsize);
+                if (buffer == NULL) goto Error;
+                // text may contain NUL characters
+                status = (strlen(buffer) != (size_t)bsize) ? -1 : mpECP_set_str(self->ecp,buffer,((ECurve *)curve)->ec);
                 if (status != 0) {
             		PyErr_SetString(PyExc_ValueError, "invalid curve point");
-            		return -1;
+            		goto Error;
                 }
             } else if (PyBytes_Check(initial)) { 
             	unsigned char *buffer;
@@ -151,16 +154,16 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
                 status = PyBytes_AsStringAndSize(initial, (char **)&buffer, &bsize);
                 if (status != 0) {
             		PyErr_SetString(PyExc_ValueError, "unable to convert bytes initializer");
-            		return -1;
+            		goto Error;
                 }
                 status = mpECP_set_bytes(self->ecp,buffer, (size_t)bsize, ((ECurve *)curve)->ec);
                 if (status != 0) {
             		PyErr_SetString(PyExc_ValueError, "invalid curve point");
-            		return -1;
+            		goto Error;
                 }
             } else {
         		PyErr_SetString(PyExc_TypeError, "initializer type mismatch, expected unicode string");
-        		return -1;
+        		goto Error;
                 //char *buffer;
                 //int len;
                 //if (!PyBytes_Check(initial) {
@@ -185,6 +188,11 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
 	self->ready = 1;
 	// all's clear
 	return 0;
+
+Error:
+	mpECP_clear(self->ecp);
+	Py_DECREF(curve);
+	return -1;
 }
 
 static PyObject *ECPoint_str(PyObject *self) {
-- 
2.43.0


From 48c7ed82d0f2d1e4000f5a7f4c4089228d9d4e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:48 +0000
Subject: [PATCH 28/52] fix: ECPoint accepted coordinates which are not on the
 curve

---
 python/pypoint.c | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/python/pypoint.c b/python/pypoint.c
index 9d1c076..20eef77 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -110,15 +110,24 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
                 }
                 
                 mpz_init(ixmpz);
-                _pylong_to_mpz((PyLongObject *)ix, ixmpz);
                 mpz_init(iympz);
-                _pylong_to_mpz((PyLongObject *)iy, iympz);
-
-                mpECP_set_mpz(self->ecp, ixmpz, iympz, ((ECurve *)curve)->ec);
+                status = (_pylong_to_mpz((PyLongObject *)ix, ixmpz) != 0) ||
+                    (_pylong_to_mpz((PyLongObject *)iy, iympz) != 0) ||
+                    (mpECurve_point_check(((ECurve *)curve)->ec, ixmpz, iympz) == 0);
+                if (status == 0) {
+                    mpECP_set_mpz(self->ecp, ixmpz, iympz, ((ECurve *)curve)->ec);
+                }
                 
                 mpz_clear(iympz);
                 mpz_clear(ixmpz);
+
+                if (status != 0) {
+            		PyErr_SetString(PyExc_ValueError, "invalid curve point");
+            		goto Error;
+                }
             } else {
+                mpz_t ixmpz, iympz;
+
                 if ((!PyObject_TypeCheck(ix, &FieldElementType)) || 
                     (!PyObject_TypeCheck(iy, &FieldElementType))) {
         		    PyErr_SetString(PyExc_TypeError, "initializer tuple type mismatch");
@@ -131,6 +140,19 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
         		    goto Error;
                 }
 
+                mpz_init(ixmpz);
+                mpz_init(iympz);
+                mpz_set_mpFp(ixmpz, ((FieldElement *)ix)->fe);
+                mpz_set_mpFp(iympz, ((FieldElement *)iy)->fe);
+                status = (mpECurve_point_check(((ECurve *)curve)->ec, ixmpz, iympz) == 0);
+                mpz_clear(iympz);
+                mpz_clear(ixmpz);
+
+                if (status != 0) {
+            		PyErr_SetString(PyExc_ValueError, "invalid curve point");
+            		goto Error;
+                }
+
                 mpECP_set_mpFp(self->ecp, ((FieldElement *)ix)->fe,
                     ((FieldElement *)iy)->fe, ((ECurve *)curve)->ec);
             }
-- 
2.43.0


From de4054f8923d62a91ae374ea72d7bcfad86d108c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:52 +0000
Subject: [PATCH 29/52] fix: Python points referred to curve objects they did
 not own

---
 python/pypoint.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/pypoint.c b/python/pypoint.c
index 20eef77..5df37d5 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -346,6 +346,8 @@ static PyObject *ECPoint_op_add(ECPoint *op1, ECPoint *op2) {
     rop->cv = op1->cv;
     Py_INCREF(rop->cv);
     mpECP_add(rop->ecp, op1->ecp, op2->ecp);
+    // the sum may refer to the curve object of either operand
+    rop->ecp->cvp = rop->cv->ec;
 	rop->ready = 1;
     return (PyObject *)rop;
 }
@@ -368,6 +370,8 @@ static PyObject *ECPoint_op_sub(ECPoint *op1, ECPoint *op2) {
     rop->cv = op1->cv;
     Py_INCREF(rop->cv);
     mpECP_sub(rop->ecp, op1->ecp, op2->ecp);
+    // the sum may refer to the curve object of either operand
+    rop->ecp->cvp = rop->cv->ec;
 	rop->ready = 1;
     return (PyObject *)rop;
 }
@@ -505,7 +509,7 @@ PyObject *PyECPoint_FromECP(mpECP_t pt) {
 	mpECP_init(rop->ecp, pt->cvp);
 	mpECP_set(rop->ecp, pt);
 	rop->cv = (ECurve *)PyECurve_FromECurve(pt->cvp);
-	Py_INCREF(rop->cv);
+	rop->ecp->cvp = rop->cv->ec;
 	rop->ready = 1;
 	return (PyObject *)rop;
 }
-- 
2.43.0


From e7981e69a6784ba7eb5c058ac27994f35f6458ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:57 +0000
Subject: [PATCH 30/52] fix: Python point repr, coordinates and unsupported
 products leaked

---
 python/pypoint.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/pypoint.c b/python/pypoint.c
index 5df37d5..b629d31 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -274,6 +274,7 @@ static PyObject *ECPoint_binary_full(PyObject *self) {
 static PyObject *ECPoint_repr(PyObject *self) {
     PyObject *pointstr;
     PyObject *cvstr;
+    PyObject *rep;
     ECPoint *ecself;
 
 	assert(PyObject_TypeCheck(self, &ECPointType) != 0);
@@ -283,7 +284,10 @@ static PyObject *ECPoint_repr(PyObject *self) {
 
     cvstr = Py_TYPE((PyObject *)(ecself->cv))->tp_repr((PyObject *)(ecself->cv));
 
-	return PyUnicode_FromFormat("ECC.ECPoint(%S, \'%S\')", cvstr, pointstr);
+	rep = PyUnicode_FromFormat("ECC.ECPoint(%S, \'%S\')", cvstr, pointstr);
+	Py_XDECREF(cvstr);
+	Py_XDECREF(pointstr);
+	return rep;
 }
 
 // deallocates the object when done
@@ -420,6 +424,7 @@ static PyObject *ECPoint_op_mul(PyObject *op1, PyObject *op2) {
 	} else if(PyObject_TypeCheck((PyObject *)op2, &FieldElementType)) {
 	    mpz_set_mpFp(scalar, ((FieldElement *)op2)->fe);
     } else {
+		mpz_clear(scalar);
 		Py_RETURN_NOTIMPLEMENTED;
 	}
 
@@ -486,10 +491,8 @@ static PyObject *ECPoint_affine(PyObject *p, PyObject *none) {
 
     status = PyTuple_SetItem(rt, 0, rx);
     assert(status == 0);
-    Py_INCREF(rx);
     status = PyTuple_SetItem(rt, 1, ry);
     assert(status == 0);
-    Py_INCREF(ry);
 
 	return (PyObject *)rt;
 }
-- 
2.43.0


From f62c6e9a983a17f6a02a1fed83b234d1251a807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 31/52] fix: ECPoint.urandom terminated the interpreter for
 arguments which are no curve

---
 python/pypoint.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/pypoint.c b/python/pypoint.c
index b629d31..6b43338 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -454,7 +454,10 @@ PyDoc_STRVAR(ECPoint_urandom__doc__,
 static PyObject *ECPoint_urandom(PyObject *none, ECurve *curve) {
 	ECPoint *rop;
 	
-	assert(PyObject_TypeCheck((PyObject *)curve, &ECurveType));
+	if (!PyObject_TypeCheck((PyObject *)curve, &ECurveType)) {
+		PyErr_SetString(PyExc_TypeError, "ECPoint_urandom: expected ECurve type as argument 1");
+		return NULL;
+	}
 
 	rop = (ECPoint *)ECPoint_new( &ECPointType, NULL, NULL);
     mpECP_urandom(rop->ecp, curve->ec);
-- 
2.43.0


From 82a6c831b6c7274aac1d73f82199ab15c811c97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:24 +0000
Subject: [PATCH 32/52] fix: subtracting a FieldElement from an unrelated
 object crashed

---
 python/pyfield.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pyfield.c b/python/pyfield.c
index 9d0e9d5..c4ee8b9 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -227,6 +227,9 @@ static PyObject *FieldElement_op_sub(FieldElement *op1, FieldElement *op2) {
 		if(PyObject_TypeCheck((PyObject *)op2, &FieldElementType)) {
 			PyObject *nop1;
 			PyObject *nop2;
+			if (!PyLong_Check((PyObject *)op1)) {
+				Py_RETURN_NOTIMPLEMENTED;
+			}
 			nop1 = (Py_TYPE(op1))->tp_as_number->nb_negative((PyObject *)op1);
 			nop2 = (Py_TYPE(op2))->tp_as_number->nb_negative((PyObject *)op2);
 			if ((nop1 == NULL) || (nop2 == NULL)) {
-- 
2.43.0


From 80731bb90ce221585feaa5cc159f7abbff013a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:29 +0000
Subject: [PATCH 33/52] fix: comparing elements of different fields terminated
 the interpreter

---
 python/pyfield.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/pyfield.c b/python/pyfield.c
index c4ee8b9..d26d265 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -441,6 +441,12 @@ static PyObject *FieldElement_richcompare(PyObject *a, PyObject *b, int op) {
 		if (!PyObject_TypeCheck((PyObject *)b, &FieldElementType)) {
 			Py_RETURN_NOTIMPLEMENTED;
 		}
+		if (((FieldElement *)a)->fe->fp != ((FieldElement *)b)->fe->fp) {
+			// elements of different fields are not comparable, hence unequal
+			if (op == Py_EQ) Py_RETURN_FALSE;
+			if (op == Py_NE) Py_RETURN_TRUE;
+			Py_RETURN_NOTIMPLEMENTED;
+		}
 		switch (op) {
 		case Py_EQ:
 			if (mpFp_cmp(((FieldElement *)a)->fe, ((FieldElement *)b)->fe) == 0) {
-- 
2.43.0


From 28c267d90d308ca059927cb4cda754156aa93457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:34 +0000
Subject: [PATCH 34/52] fix: FieldElement inverse, sqrt and comparisons leaked

---
 python/pyfield.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/pyfield.c b/python/pyfield.c
index d26d265..0dbd052 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -346,6 +346,7 @@ static PyObject *FieldElement_op_multiplicative_inverse(FieldElement *op1, PyObj
     status = mpFp_inv(rop->fe, op1->fe);
     if (__GMP_UNLIKELY(status != 0)) {
 		mpz_clear(rop->fe->i);
+		Py_DECREF(rop);
     	Py_RETURN_NONE;
     }
 	rop->ready = 1;
@@ -363,6 +364,7 @@ static PyObject *FieldElement_op_sqrt(FieldElement *op1, PyObject *none) {
     status = mpFp_sqrt(rop->fe, op1->fe);
     if (status != 0) {
 		mpz_clear(rop->fe->i);
+		Py_DECREF(rop);
     	Py_RETURN_NONE;
     }
 	rop->ready = 1;
@@ -434,6 +436,7 @@ static PyObject *FieldElement_richcompare(PyObject *a, PyObject *b, int op) {
 			}
 			break;
 		default:
+			mpz_clear(bmpz);
 			Py_RETURN_NOTIMPLEMENTED;
 		}
 		mpz_clear(bmpz);
-- 
2.43.0


From e600df14f263f76a03dc3517b767fc837a3ac26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:49 +0000
Subject: [PATCH 35/52] fix: Python ECDSA destroyed message bytes, leaked
 digests and crashed on hash errors and failed signatures

---
 python/pyecdsa.c | 186 +++++++++++++++++++----------------------------
 1 file changed, 73 insertions(+), 113 deletions(-)

diff --git a/python/pyecdsa.c b/python/pyecdsa.c
index 56a6df4..4391bd0 100644
--- a/python/pyecdsa.c
+++ b/python/pyecdsa.c
@@ -42,61 +42,52 @@
 #include <Python.h>
 #include <structmember.h>
 
-// since we want to call back into a python hash function to generate the
-// message digest we need to pass both a pointer to the message and the
-// python hash function module in place of msg pointer
-typedef struct {
-    PyObject *hashmodule;
-    PyObject *msg;
-} _hash_and_msg_t;
+// the message digest is produced by a python hash module. As the library calls
+// the hash function at a point where errors cannot be reported the digest is
+// computed in advance and passed in place of the message.
 
-// c routine to call the python hash function - note presumes that the
-// the msg has been replaced by _hash_and_msg_t to encode both the python
-// hash function and the message bytes (python bytes object)
-static void _python_hash_wrapper(unsigned char *hash, unsigned char *msg, size_t sz){
-    _hash_and_msg_t *ham;
-    PyObject *mdict;
+// call the python hash function - returns a new reference to a bytes object of
+// exactly hsz bytes, or NULL with an exception set
+static PyObject *_python_digest(PyObject *hashmodule, PyObject *msg, size_t hsz) {
     PyObject *hnew;
-    PyObject *tuple;
     PyObject *pyhash;
     PyObject *hbytes;
-    int status;
-    Py_ssize_t hsz;
-    unsigned char *digest;
-    
-    ham = (_hash_and_msg_t *)msg;
-    
-    // no way to error out here, calling function must ensure message is bytes
-    assert(PyBytes_Check(ham->msg));
 
     // call hash.new(msg) to initialize and process message
-    mdict = PyModule_GetDict(ham->hashmodule);
-    assert(PyDict_Check(mdict));
-    hnew = PyDict_GetItemString(mdict, "new");
-    assert(PyFunction_Check(hnew));
-    assert(PyCallable_Check(hnew));
-    Py_INCREF(hnew);
+    hnew = PyDict_GetItemString(PyModule_GetDict(hashmodule), "new");
+    if ((hnew == NULL) || !PyFunction_Check(hnew)) {
+        PyErr_SetString(PyExc_TypeError, "Hash module.new() is not a function");
+        return NULL;
+    }
 
-    tuple = PyTuple_New(1);
-    assert(tuple != NULL);
-    Py_INCREF(ham->msg);
-    status = PyTuple_SetItem(tuple, 0, ham->msg);
-    assert(status == 0);
-    pyhash = PyObject_CallObject(hnew, tuple);
-    assert(pyhash != NULL);
-    Py_DECREF(ham->msg);
+    Py_INCREF(hnew);
+    pyhash = PyObject_CallFunctionObjArgs(hnew, msg, NULL);
     Py_DECREF(hnew);
+    if (pyhash == NULL) return NULL;
 
-    Py_INCREF(pyhash);
     hbytes = PyObject_CallMethod(pyhash, "digest", NULL);
-    assert(PyBytes_Check(hbytes));
     Py_DECREF(pyhash);
+    if (hbytes == NULL) return NULL;
 
-    hsz = PyBytes_Size(hbytes);
-    status = PyBytes_AsStringAndSize(hbytes, (char **)&digest, &hsz);
-    assert(status == 0);
+    if (!PyBytes_Check(hbytes)) {
+        PyErr_SetString(PyExc_TypeError, "Hash object item digest() did not return bytes");
+        Py_DECREF(hbytes);
+        return NULL;
+    }
+    if ((size_t)PyBytes_Size(hbytes) != hsz) {
+        PyErr_SetString(PyExc_TypeError, "Hash bytes size mismatch !?");
+        Py_DECREF(hbytes);
+        return NULL;
+    }
+    return hbytes;
+}
 
-    memcpy(hash, digest, hsz);
+// c routine which delivers the digest - note presumes that the msg has been
+// replaced by the digest (python bytes object) of the message
+static void _python_hash_wrapper(unsigned char *hash, unsigned char *msg, size_t sz){
+    PyObject *digest = (PyObject *)msg;
+
+    memcpy(hash, PyBytes_AsString(digest), PyBytes_Size(digest));
     return;
 }
 
@@ -248,7 +239,8 @@ static PyObject *ECDSASignature_verify(PyObject *self, PyObject *args) {
     ECDSASignature *ssis;
     ECPoint *kpt;
     PyObject *bytes;
-    _hash_and_msg_t ham;
+    PyObject *digest;
+    Py_ssize_t bsz;
     int status;
     
     assert(PyObject_TypeCheck(self, &ECDSASignatureType) != 0);
@@ -267,21 +259,24 @@ static PyObject *ECDSASignature_verify(PyObject *self, PyObject *args) {
 
     if (PyBytes_Check(msg)) {
         bytes = msg;
+        Py_INCREF(bytes);
     } else {
         if (!PyUnicode_Check(msg)) {
     		PyErr_SetString(PyExc_TypeError, "ECDSASignature_verify: 2nd arg must be message of Bytes or Unicode type");
     		return NULL;
         }
         bytes = PyUnicode_AsUTF8String(msg);
-        Py_INCREF(bytes);
+        if (bytes == NULL) return NULL;
     }
-    
-    ham.hashmodule = ssis->ss->hashmodule;
-    ham.msg = bytes;
-
-    status = mpECDSASignature_verify_cmp(ssis->sig, kpt->ecp, (unsigned char *)&ham, PyBytes_Size(bytes));
 
+    bsz = PyBytes_Size(bytes);
+    digest = _python_digest(ssis->ss->hashmodule, bytes, ssis->sig->sscheme->H->hsz);
     Py_DECREF(bytes);
+    if (digest == NULL) return NULL;
+
+    status = mpECDSASignature_verify_cmp(ssis->sig, kpt->ecp, (unsigned char *)digest, bsz);
+
+    Py_DECREF(digest);
     if (status != 0) {
         Py_INCREF(Py_False);
         return Py_False;
@@ -397,12 +392,13 @@ static int ECDSASignatureScheme_init(ECDSASignatureScheme *self, PyObject *args,
 
     digest_size = PyDict_GetItemString(hashmodule_dict, "digest_size");
 
-    if (!PyLong_Check(digest_size)) {
+    if ((digest_size == NULL) || !PyLong_Check(digest_size)) {
         PyErr_SetString(PyExc_TypeError, "Hash module digest_size is not an Integer(PyLong) type");
         return -1;
     }
     
     hsz = PyLong_AsLong(digest_size);
+    if (PyErr_Occurred()) return -1;
     if (hsz <= 0) {
         PyErr_SetString(PyExc_ValueError, "Hash module returned negative or zero digest_size");
         return -1;
@@ -410,67 +406,15 @@ static int ECDSASignatureScheme_init(ECDSASignatureScheme *self, PyObject *args,
 
     // test hash module all the way through
     {
-        PyObject *hnew;
-        PyObject *tuple;
-        PyObject *pyhash;
         PyObject *mbytes;
         PyObject *hbytes;
-        Py_ssize_t bsz;
-
-        // call hash.new(msg) to initialize and process message
-        hnew = PyDict_GetItemString(hashmodule_dict, "new");
-        if (!PyFunction_Check(hnew)) {
-            PyErr_SetString(PyExc_TypeError, "Hash module.new() is not a function");
-            return -1;
-        }
-    
-        if (!PyCallable_Check(hnew)) {
-            PyErr_SetString(PyExc_TypeError, "Hash module.new() function is not callable");
-            return -1;
-        }
-        Py_INCREF(hnew);
-
-        tuple = PyTuple_New(1);
-        if (tuple == NULL) {
-            PyErr_SetString(PyExc_TypeError, "Create Tuple Failed !?");
-            return -1;
-        }
 
         mbytes = PyBytes_FromStringAndSize("test", 4);
-        if (mbytes == NULL) {
-            PyErr_SetString(PyExc_TypeError, "Create Bytes from String Failed !?");
-            return -1;
-        }
-        Py_INCREF(mbytes);
-
-        status = PyTuple_SetItem(tuple, 0, mbytes);
-        if (status != 0) {
-            PyErr_SetString(PyExc_TypeError, "Tuple SetItem Failed !?");
-            return -1;
-        }
-
-        pyhash = PyObject_CallObject(hnew, tuple);
-        if (pyhash == NULL) {
-            PyErr_SetString(PyExc_TypeError, "Call Hash returned NULL");
-            return -1;
-        }
-
+        if (mbytes == NULL) return -1;
+        hbytes = _python_digest(hashmodule, mbytes, hsz);
         Py_DECREF(mbytes);
-        Py_DECREF(hnew);
-        
-        Py_INCREF(pyhash);
-        hbytes = PyObject_CallMethod(pyhash, "digest", NULL);
-        if (!PyBytes_Check(hbytes)) {
-            PyErr_SetString(PyExc_TypeError, "Hash object item digest() did not return bytes");
-            return -1;
-        }
-        Py_DECREF(pyhash);
-        
-        bsz = PyBytes_Size(hbytes);
-        if (bsz != hsz) {
-            PyErr_SetString(PyExc_TypeError, "Hash bytes size mismatch !?");
-            return -1;
-        }
+        if (hbytes == NULL) return -1;
+        Py_DECREF(hbytes);
     }
 
     Py_INCREF(hashmodule);
@@ -485,6 +429,7 @@ static int ECDSASignatureScheme_init(ECDSASignatureScheme *self, PyObject *args,
     if (status != 0) {
         Py_DECREF(curve);
         Py_DECREF(hashmodule);
+        PyErr_SetString(PyExc_ValueError, "ECDSASignatureScheme_init: unable to initialize scheme");
         return -1;
     }
 
@@ -533,7 +478,8 @@ static PyObject *ECDSASignatureScheme_sign(PyObject *self, PyObject *args) {
     ECDSASignature *psig;
     FieldElement *kfe;
     PyObject *bytes;
-    _hash_and_msg_t ham;
+    PyObject *digest;
+    Py_ssize_t bsz;
     int status;
     
     assert(PyObject_TypeCheck(self, &ECDSASignatureSchemeType) != 0);
@@ -546,6 +492,7 @@ static PyObject *ECDSASignatureScheme_sign(PyObject *self, PyObject *args) {
 
     if(PyObject_TypeCheck(key, &FieldElementType)) {
         kfe = (FieldElement *)key;
+        Py_INCREF(kfe);
     } else if (PyLong_Check(key)) {
         mpz_t fe_i;
 
@@ -568,23 +515,36 @@ static PyObject *ECDSASignatureScheme_sign(PyObject *self, PyObject *args) {
 
     if (PyBytes_Check(msg)) {
         bytes = msg;
+        Py_INCREF(bytes);
     } else {
         if (!PyUnicode_Check(msg)) {
+            Py_DECREF(kfe);
     		PyErr_SetString(PyExc_TypeError, "ECDSASignatureScheme_sign: arg 2 must be message of Bytes or Unicode type");
     		return NULL;
         }
         bytes = PyUnicode_AsUTF8String(msg);
-        Py_INCREF(bytes);
+        if (bytes == NULL) {
+            Py_DECREF(kfe);
+            return NULL;
+        }
+    }
+
+    bsz = PyBytes_Size(bytes);
+    digest = _python_digest(ss->hashmodule, bytes, ss->sscheme->H->hsz);
+    Py_DECREF(bytes);
+    if (digest == NULL) {
+        Py_DECREF(kfe);
+        return NULL;
     }
 
     psig = (ECDSASignature *)ECDSASignature_new(&ECDSASignatureType, NULL, NULL);
-    
-    ham.hashmodule = ss->hashmodule;
-    ham.msg = bytes;
 
-    status = mpECDSASignature_init_Sign(psig->sig, ss->sscheme, kfe->fe, (unsigned char *)&ham, PyBytes_Size(bytes));
-    Py_DECREF(bytes);
+    status = mpECDSASignature_init_Sign(psig->sig, ss->sscheme, kfe->fe, (unsigned char *)digest, bsz);
+    Py_DECREF(digest);
+    Py_DECREF(kfe);
     if (status != 0) {
+        Py_DECREF(psig);
+        PyErr_SetString(PyExc_ValueError, "ECDSASignatureScheme_sign: unable to sign message with this key");
         return NULL;
     }
     psig->ss = ss;
-- 
2.43.0


From 3ad096b7d3450b8443053e1dc9d5cdbf8eaae4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:54 +0000
Subject: [PATCH 36/52] fix: repr of Python signatures, schemes and ciphertexts
 leaked

---
 python/pyecdsa.c     | 12 ++++++++++--
 python/pyecelgamal.c |  8 +++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/python/pyecdsa.c b/python/pyecdsa.c
index 4391bd0..a36176e 100644
--- a/python/pyecdsa.c
+++ b/python/pyecdsa.c
@@ -205,6 +205,7 @@ static PyObject *ECDSASignature_binary(PyObject *self) {
 static PyObject *ECDSASignature_repr(PyObject *self) {
     char *hashstr;
     PyObject *ssstr;
+    PyObject *rep;
     ECDSASignature *ssig;
 
     assert(PyObject_TypeCheck(self, &ECDSASignatureType) != 0);
@@ -213,7 +214,10 @@ static PyObject *ECDSASignature_repr(PyObject *self) {
     ssstr = Py_TYPE((PyObject *)(ssig->ss))->tp_repr((PyObject *)(ssig->ss));
     hashstr = mpECDSASignature_export_str(ssig->sig);
 
-    return PyUnicode_FromFormat("ECC.ECDSASignature(%S, \'%s\')", ssstr, hashstr);
+    rep = PyUnicode_FromFormat("ECC.ECDSASignature(%S, \'%s\')", ssstr, hashstr);
+    Py_XDECREF(ssstr);
+    free(hashstr);
+    return rep;
 }
 
 // deallocates the object when done
@@ -442,6 +446,7 @@ static int ECDSASignatureScheme_init(ECDSASignatureScheme *self, PyObject *args,
 static PyObject *ECDSASignatureScheme_repr(PyObject *self) {
     PyObject *hashstr;
     PyObject *cvstr;
+    PyObject *rep;
     ECDSASignatureScheme *ss;
 
     assert(PyObject_TypeCheck(self, &ECDSASignatureSchemeType) != 0);
@@ -450,7 +455,10 @@ static PyObject *ECDSASignatureScheme_repr(PyObject *self) {
     cvstr = Py_TYPE((PyObject *)(ss->cv))->tp_repr((PyObject *)(ss->cv));
     hashstr = Py_TYPE((PyObject *)(ss->hashmodule))->tp_repr((PyObject *)(ss->hashmodule));
 
-    return PyUnicode_FromFormat("ECC.ECDSASignatureScheme(%S, %S)", cvstr, hashstr);
+    rep = PyUnicode_FromFormat("ECC.ECDSASignatureScheme(%S, %S)", cvstr, hashstr);
+    Py_XDECREF(cvstr);
+    Py_XDECREF(hashstr);
+    return rep;
 }
 
 // deallocates the object when done
diff --git a/python/pyecelgamal.c b/python/pyecelgamal.c
index 4ddcc32..ebd063c 100644
--- a/python/pyecelgamal.c
+++ b/python/pyecelgamal.c
@@ -130,6 +130,7 @@ static PyObject *ECElgamalCiphertext_repr(PyObject *self) {
     ECPoint *Dpt;
     PyObject *Cstr;
     PyObject *Dstr;
+    PyObject *rep;
     ECElgamalCiphertext *egc;
 
     assert(PyObject_TypeCheck(self, &ECElgamalCiphertextType) != 0);
@@ -140,7 +141,12 @@ static PyObject *ECElgamalCiphertext_repr(PyObject *self) {
     Cstr = Py_TYPE((PyObject *)Cpt)->tp_repr((PyObject *)Cpt);
     Dstr = Py_TYPE((PyObject *)Dpt)->tp_repr((PyObject *)Dpt);
 
-    return PyUnicode_FromFormat("ECC.ECElgamalCiphertext(%S, %S)", Cstr, Dstr);
+    rep = PyUnicode_FromFormat("ECC.ECElgamalCiphertext(%S, %S)", Cstr, Dstr);
+    Py_XDECREF(Dstr);
+    Py_XDECREF(Cstr);
+    Py_DECREF(Dpt);
+    Py_DECREF(Cpt);
+    return rep;
 }
 
 // deallocates the object when done
-- 
2.43.0


From 29d3624fa3ad481c25dd98f70c5922301b9b386e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:09 +0000
Subject: [PATCH 37/52] fix: Python ciphertexts and decrypted points referred
 to curve objects they did not own, and leaked

---
 python/pyecelgamal.c | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/python/pyecelgamal.c b/python/pyecelgamal.c
index ebd063c..5d7abd4 100644
--- a/python/pyecelgamal.c
+++ b/python/pyecelgamal.c
@@ -94,6 +94,8 @@ static int ECElgamalCiphertext_init(ECElgamalCiphertext *self, PyObject *args, P
     mpECP_set(self->ctxt->C, C->ecp);
     mpECP_init(self->ctxt->D, D->ecp->cvp);
     mpECP_set(self->ctxt->D, D->ecp);
+    // the curve object of D is not referenced, that of C is
+    self->ctxt->D->cvp = self->ctxt->C->cvp;
 
     // you're ready!
     self->ready = 1;
@@ -197,12 +199,16 @@ static PyObject *ECElgamalCiphertext_encrypt(PyObject *none, PyObject *args, PyO
 
     status = mpECElgamal_init_encrypt(rop->ctxt, key->ecp, ptxt->ecp);
     if (status != 0) {
+        Py_DECREF(rop);
         PyErr_SetString(PyExc_RuntimeError, "ECElgamalCiphertext_init: unexpected error encrypting");
         return NULL;
     }
 
     Py_INCREF((PyObject *)key->cv);
     rop->cv = key->cv;
+    // the sum in D may refer to the curve object of the plaintext
+    rop->ctxt->C->cvp = rop->cv->ec;
+    rop->ctxt->D->cvp = rop->cv->ec;
     
     // you're ready!
     rop->ready = 1;
@@ -217,7 +223,8 @@ PyDoc_STRVAR(ECElgamalCiphertext_decrypt__doc__,
 // Usage options:
 // ECElgamalCiphertext_decrypt(sK=(FieldElement or PyLong))
 static PyObject *ECElgamalCiphertext_decrypt(PyObject *self, PyObject *sK) {
-    ECPoint *rop;
+    PyObject *rop = NULL;
+    mpECP_t ptxt;
     mpFp_ptr feK;
     int status;
     ECElgamalCiphertext *egc;
@@ -253,9 +260,11 @@ static PyObject *ECElgamalCiphertext_decrypt(PyObject *self, PyObject *sK) {
         return NULL;
     }
 
-	rop = (ECPoint *)PyECPoint_FromECP(egc->ctxt->C);
-
-    status = mpECElgamal_init_decrypt(rop->ecp, feK, egc->ctxt);
+    status = mpECElgamal_init_decrypt(ptxt, feK, egc->ctxt);
+    if (status == 0) {
+        rop = PyECPoint_FromECP(ptxt);
+        mpECP_clear(ptxt);
+    }
 
     if (PyLong_Check(sK)) {
         mpFp_clear(feK);
@@ -267,10 +276,7 @@ static PyObject *ECElgamalCiphertext_decrypt(PyObject *self, PyObject *sK) {
         return NULL;
     }
 
-    // you're ready!
-    rop->ready = 1;
-    // all's clear
-    return (PyObject *)rop;
+    return rop;
 }
 
 static PyObject *ECElgamalCiphertext_getattr(PyObject *o, char *attr_name) {
-- 
2.43.0


From ecea983e339e7e96a1bc0a3683c0e94712a45f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:14 +0000
Subject: [PATCH 38/52] fix: square root in the field of two elements aborted

---
 src/field.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/field.c b/src/field.c
index 495a349..a60f024 100644
--- a/src/field.c
+++ b/src/field.c
@@ -673,6 +673,11 @@ int mpFp_sqrt(mpFp_t rop, mpFp_t op) {
     int s;
     int leg_op;
     mpz_t t, q, opi;
+    if (mpz_cmp_ui(op->fp->p, 2) == 0) {
+        // every element of F_2 is its own square
+        mpFp_set(rop, op);
+        return 0;
+    }
     mpz_init(opi);
     mpz_set_mpFp(opi, op);
     // determine whether i is a quadratic residue (mod p)
-- 
2.43.0


From ff16bb1ed3f8b8963b87b228a5313539df73e29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 39/52] fix: Go: negative big integers given as arguments were
 negated

---
 ecgo/field.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/ecgo/field.go b/ecgo/field.go
index 036f366..e0fe9d6 100644
--- a/ecgo/field.go
+++ b/ecgo/field.go
@@ -107,13 +107,6 @@ func bigint_to_c_mpz_unsigned(m *C.__mpz_struct, a *big.Int) error {
 }
 
 func bigint_to_c_mpz_signed(m *C.__mpz_struct, a *big.Int) {
-	var negative bool
-
-	if a.Cmp(big.NewInt(0)) < 0 {
-		negative = true
-		a.Neg(a)
-	}
-
 	abytes := a.Bytes()
 
 	if len(abytes) == 0 {
@@ -122,7 +115,7 @@ func bigint_to_c_mpz_signed(m *C.__mpz_struct, a *big.Int) {
 		C.mpz_import(m, C.size_t(len(abytes)), 1, C.sizeof_char, 1, 0, unsafe.Pointer(&abytes[0]))
 	}
 
-	if negative {
+	if a.Sign() < 0 {
 		C.mpz_neg(m, m)
 	}
 }
-- 
2.43.0


From 777f1392066be0273aa601826b87cadfa6ea73d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 40/52] fix: Go: field orders the library cannot represent
 aborted the program

---
 ecgo/curve.go | 22 ++++++++++++++++++++++
 ecgo/field.go | 23 ++++++++++++++++++++---
 2 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/ecgo/curve.go b/ecgo/curve.go
index fb12abf..16de8ed 100644
--- a/ecgo/curve.go
+++ b/ecgo/curve.go
@@ -289,6 +289,12 @@ cleanup:
 	return r
 }
 
+// curves are defined over fields of odd order, with points of prime order n
+func valid_curve_orders(p, n *big.Int, bits uint) bool {
+	return valid_field_order(p) && p.Bit(0) == 1 && valid_field_order(n) &&
+		bits >= uint(p.BitLen()) && bits <= 1024
+}
+
 func ShortWeierstrassCurve(p, a, b, n, h, gx, gy *big.Int, bits uint) *Curve {
 	var pmpz, ampz, bmpz, nmpz, hmpz, gxmpz, gympz C.__mpz_struct
 	var err error
@@ -297,6 +303,10 @@ func ShortWeierstrassCurve(p, a, b, n, h, gx, gy *big.Int, bits uint) *Curve {
 
 	z = nil
 
+	if !valid_curve_orders(p, n, bits) {
+		return nil
+	}
+
 	C.mpz_init(&pmpz)
 	C.mpz_init(&ampz)
 	C.mpz_init(&bmpz)
@@ -363,6 +373,10 @@ func EdwardsCurve(p, c, d, n, h, gx, gy *big.Int, bits uint) *Curve {
 
 	z = nil
 
+	if !valid_curve_orders(p, n, bits) {
+		return nil
+	}
+
 	C.mpz_init(&pmpz)
 	C.mpz_init(&cmpz)
 	C.mpz_init(&dmpz)
@@ -429,6 +443,10 @@ func MontgomeryCurve(p, B, A, n, h, gx, gy *big.Int, bits uint) *Curve {
 
 	z = nil
 
+	if !valid_curve_orders(p, n, bits) {
+		return nil
+	}
+
 	C.mpz_init(&pmpz)
 	C.mpz_init(&Bmpz)
 	C.mpz_init(&Ampz)
@@ -495,6 +513,10 @@ func TwistedEdwardsCurve(p, a, d, n, h, gx, gy *big.Int, bits uint) *Curve {
 
 	z = nil
 
+	if !valid_curve_orders(p, n, bits) {
+		return nil
+	}
+
 	C.mpz_init(&pmpz)
 	C.mpz_init(&ampz)
 	C.mpz_init(&dmpz)
diff --git a/ecgo/field.go b/ecgo/field.go
index e0fe9d6..ba6ec33 100644
--- a/ecgo/field.go
+++ b/ecgo/field.go
@@ -87,6 +87,11 @@ func init() {
 	C._enable_gmp_safe_clean()
 }
 
+// orders of prime fields the library can represent
+func valid_field_order(p *big.Int) bool {
+	return p.Sign() > 0 && p.BitLen() > 1 && p.BitLen() <= 1024
+}
+
 type FieldElement struct {
 	fe *C._mpFp_struct
 }
@@ -143,15 +148,19 @@ func NewFieldElement(value, field *big.Int) (z *FieldElement) {
 	var vmpz, pmpz C.__mpz_struct
 	var err error
 
-	C.mpz_init(&vmpz)
-	C.mpz_init(&pmpz)
-
 	if field.Cmp(big.NewInt(0)) == 0 {
 		panic("cannot operate on field of order 0")
 	}
+	if !valid_field_order(field) {
+		return nil
+	}
+	C.mpz_init(&vmpz)
+	C.mpz_init(&pmpz)
 	bigint_to_c_mpz_signed(&vmpz, value)
 	err = bigint_to_c_mpz_unsigned(&pmpz, field)
 	if err != nil {
+		C.mpz_clear(&pmpz)
+		C.mpz_clear(&vmpz)
 		return nil
 	}
 
@@ -178,9 +187,13 @@ func NewFieldElementUI(value uint64, field *big.Int) (z *FieldElement) {
 	if field.Cmp(big.NewInt(0)) == 0 {
 		panic("cannot operate on field of order 0")
 	}
+	if !valid_field_order(field) {
+		return nil
+	}
 	C.mpz_init(&pmpz)
 	err = bigint_to_c_mpz_unsigned(&pmpz, field)
 	if err != nil {
+		C.mpz_clear(&pmpz)
 		return nil
 	}
 
@@ -204,9 +217,13 @@ func NewFieldElementURandom(field *big.Int) (z *FieldElement) {
 	if field.Cmp(big.NewInt(0)) == 0 {
 		panic("cannot operate on field of order 0")
 	}
+	if !valid_field_order(field) {
+		return nil
+	}
 	C.mpz_init(&pmpz)
 	err = bigint_to_c_mpz_unsigned(&pmpz, field)
 	if err != nil {
+		C.mpz_clear(&pmpz)
 		return nil
 	}
 
-- 
2.43.0


From 22d5da865e62caddd5ee02c9a535c7232eaa8efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 41/52] fix: Go: curves, signatures, multipliers and rejected
 encodings were never freed

---
 ecgo/curve.go | 8 ++++++++
 ecgo/ecdsa.go | 7 +++++++
 ecgo/point.go | 5 +++--
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/ecgo/curve.go b/ecgo/curve.go
index 16de8ed..4239723 100644
--- a/ecgo/curve.go
+++ b/ecgo/curve.go
@@ -353,6 +353,8 @@ func ShortWeierstrassCurve(p, a, b, n, h, gx, gy *big.Int, bits uint) *Curve {
 		C.mpECurve_clear(z.ec)
 		C.free_ECurve(z.ec)
 		z = nil
+	} else {
+		runtime.SetFinalizer(z, curve_clear)
 	}
 cleanup:
 	C.mpz_clear(&gympz)
@@ -423,6 +425,8 @@ func EdwardsCurve(p, c, d, n, h, gx, gy *big.Int, bits uint) *Curve {
 		C.mpECurve_clear(z.ec)
 		C.free_ECurve(z.ec)
 		z = nil
+	} else {
+		runtime.SetFinalizer(z, curve_clear)
 	}
 cleanup:
 	C.mpz_clear(&gympz)
@@ -493,6 +497,8 @@ func MontgomeryCurve(p, B, A, n, h, gx, gy *big.Int, bits uint) *Curve {
 		C.mpECurve_clear(z.ec)
 		C.free_ECurve(z.ec)
 		z = nil
+	} else {
+		runtime.SetFinalizer(z, curve_clear)
 	}
 cleanup:
 	C.mpz_clear(&gympz)
@@ -563,6 +569,8 @@ func TwistedEdwardsCurve(p, a, d, n, h, gx, gy *big.Int, bits uint) *Curve {
 		C.mpECurve_clear(z.ec)
 		C.free_ECurve(z.ec)
 		z = nil
+	} else {
+		runtime.SetFinalizer(z, curve_clear)
 	}
 cleanup:
 	C.mpz_clear(&gympz)
diff --git a/ecgo/ecdsa.go b/ecgo/ecdsa.go
index 53c8126..25be4d3 100644
--- a/ecgo/ecdsa.go
+++ b/ecgo/ecdsa.go
@@ -116,6 +116,11 @@ func signaturescheme_clear(ss *ECDSASignatureScheme) {
 	C.free_ECDSASignatureScheme(ss.css)
 }
 
+func signature_clear(sig *ECDSASignature) {
+	C.mpECDSASignature_clear(sig.csig)
+	C.free_ECDSASignature(sig.csig)
+}
+
 func (ss *ECDSASignatureScheme) Sign(sK *big.Int, message []byte) *ECDSASignature {
 	ss.h.Reset()
 	ss.h.Write(message)
@@ -133,6 +138,7 @@ func (ss *ECDSASignatureScheme) Sign(sK *big.Int, message []byte) *ECDSASignatur
 		return nil
 	}
 	sig.ss = ss
+	runtime.SetFinalizer(sig, signature_clear)
 	return sig
 }
 
@@ -171,5 +177,6 @@ func (ss *ECDSASignatureScheme) SignatureFromBytes(gobytes []byte) *ECDSASignatu
 		C.free_ECDSASignature(sig.csig)
 		return nil
 	}
+	runtime.SetFinalizer(sig, signature_clear)
 	return sig
 }
diff --git a/ecgo/point.go b/ecgo/point.go
index c8d7a4a..44c82ac 100644
--- a/ecgo/point.go
+++ b/ecgo/point.go
@@ -180,10 +180,10 @@ func NewPointFromString(gst string, c *Curve) (z *Point) {
 	runtime.SetFinalizer(z, point_clear)
 	cstr := C.CString(gst)
 	status := C.mpECP_set_str(z.ecp, cstr, c.ec)
+	C.free(unsafe.Pointer(cstr))
 	if status != C.int(0) {
 		return nil
 	}
-	C.free(unsafe.Pointer(cstr))
 
 	return z
 }
@@ -198,10 +198,10 @@ func NewPointFromBytes(gby []byte, c *Curve) (z *Point) {
 	cby := C.CBytes(gby)
 	l := len(gby)
 	status := C.mpECP_set_bytes(z.ecp, C._toUCP(cby), C.size_t(l), c.ec)
+	C.free(cby)
 	if status != C.int(0) {
 		return nil
 	}
-	C.free(cby)
 
 	return z
 }
@@ -308,6 +308,7 @@ func (z *Point) Mul(a *Point, b *big.Int) *Point {
 		C.mpECP_scalar_mul_mpz(z.ecp, a.ecp, &bmpz)
 	}
 	z.cv = a.cv
+	C.mpz_clear(&bmpz)
 
 	return z
 }
-- 
2.43.0


From 31170a452a56b66e6c172f00d75417dcc90c10c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 42/52] fix: Go: operations on elements of different fields or
 curves aborted the program

---
 ecgo/field.go | 3 +++
 ecgo/point.go | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/ecgo/field.go b/ecgo/field.go
index ba6ec33..51a0957 100644
--- a/ecgo/field.go
+++ b/ecgo/field.go
@@ -262,6 +262,9 @@ func (z *FieldElement) Order() (r *big.Int) {
 }
 
 func (z *FieldElement) Cmp(a *FieldElement) int {
+	if C._fp_of_fe(z.fe) != C._fp_of_fe(a.fe) {
+		panic("FE.Cmp: field mismatch")
+	}
 	return int(C.mpFp_cmp(z.fe, a.fe))
 }
 
diff --git a/ecgo/point.go b/ecgo/point.go
index 44c82ac..3802eda 100644
--- a/ecgo/point.go
+++ b/ecgo/point.go
@@ -273,12 +273,18 @@ func (z *Point) Cmp(a *Point) int {
 }
 
 func (z *Point) Add(a, b *Point) *Point {
+	if C.mpECurve_cmp(a.cv.ec, b.cv.ec) != 0 {
+		return nil
+	}
 	C.mpECP_add(z.ecp, a.ecp, b.ecp)
 	z.cv = a.cv
 	return z
 }
 
 func (z *Point) Sub(a, b *Point) *Point {
+	if C.mpECurve_cmp(a.cv.ec, b.cv.ec) != 0 {
+		return nil
+	}
 	C.mpECP_sub(z.ecp, a.ecp, b.ecp)
 	z.cv = a.cv
 	return z
-- 
2.43.0


From 93714090b5566b28121aaf8bc35e2989d1932599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 43/52] fix: Go: points and ciphertexts referred to curves they
 did not keep alive

---
 ecgo/ecelgamal.go | 19 +++++++++++++++++--
 ecgo/point.go     |  2 ++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/ecgo/ecelgamal.go b/ecgo/ecelgamal.go
index 08b4fa0..81e9df9 100644
--- a/ecgo/ecelgamal.go
+++ b/ecgo/ecelgamal.go
@@ -52,6 +52,10 @@ package ecgo
 //     return ctxt->D;
 // }
 //
+// extern mpECP_ptr malloc_ECPoint();
+//
+// extern void free_ECPoint(mpECP_ptr pt);
+//
 import "C"
 
 import (
@@ -87,10 +91,12 @@ func ECElgamalEncrypt(pK *Point, ptxt *Point) (ctxt *ECElgamalCiphertext) {
 	ctxt.egc = C.malloc_ECElgamalCiphertext()
 	ctxt.cv = pK.cv
 	status := C.mpECElgamal_init_encrypt(ctxt.egc, pK.ecp, ptxt.ecp)
-	runtime.SetFinalizer(ctxt, ecelgamalciphertext_clear)
 	if status != C.int(0) {
+		C.free_ECElgamalCiphertext(ctxt.egc)
 		return nil
 	}
+	C.D_of(ctxt.egc).cvp = ctxt.cv.ec
+	runtime.SetFinalizer(ctxt, ecelgamalciphertext_clear)
 	return ctxt
 }
 
@@ -101,11 +107,19 @@ func ecelgamalciphertext_clear(ctxt *ECElgamalCiphertext) {
 
 func (ctxt *ECElgamalCiphertext) Decrypt(sK *big.Int) (ptxt *Point) {
 	sKfe := NewFieldElement(sK, ctxt.cv.GetAttr("n"))
-	ptxt = NewPointNeutral(ctxt.cv)
+	if sKfe == nil {
+		return nil
+	}
+	ptxt = new(Point)
+	ptxt.ecp = C.malloc_ECPoint()
+	ptxt.cv = ctxt.cv
 	status := C.mpECElgamal_init_decrypt(ptxt.ecp, sKfe.fe, ctxt.egc)
 	if status != C.int(0) {
+		C.free_ECPoint(ptxt.ecp)
 		return nil
 	}
+	ptxt.ecp.cvp = ptxt.cv.ec
+	runtime.SetFinalizer(ptxt, point_clear)
 	return ptxt
 }
 
@@ -132,6 +146,7 @@ func NewECElgamalCiphertext(c, d *Point) (ctxt *ECElgamalCiphertext) {
 	C.mpECP_set(C.C_of(ctxt.egc), c.ecp)
 	C.mpECP_init(C.D_of(ctxt.egc), d.cv.ec)
 	C.mpECP_set(C.D_of(ctxt.egc), d.ecp)
+	C.D_of(ctxt.egc).cvp = ctxt.cv.ec
 	runtime.SetFinalizer(ctxt, ecelgamalciphertext_clear)
 	return ctxt
 }
diff --git a/ecgo/point.go b/ecgo/point.go
index 3802eda..e7525d6 100644
--- a/ecgo/point.go
+++ b/ecgo/point.go
@@ -278,6 +278,7 @@ func (z *Point) Add(a, b *Point) *Point {
 	}
 	C.mpECP_add(z.ecp, a.ecp, b.ecp)
 	z.cv = a.cv
+	z.ecp.cvp = z.cv.ec
 	return z
 }
 
@@ -287,6 +288,7 @@ func (z *Point) Sub(a, b *Point) *Point {
 	}
 	C.mpECP_sub(z.ecp, a.ecp, b.ecp)
 	z.cv = a.cv
+	z.ecp.cvp = z.cv.ec
 	return z
 }
 
-- 
2.43.0


From d0dd9217f8b396f64948c40f97ffdb315f634d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 44/52] fix: Go: NewPointXY accepted coordinates which are not
 on the curve

---
 ecgo/point.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ecgo/point.go b/ecgo/point.go
index e7525d6..aca30ec 100644
--- a/ecgo/point.go
+++ b/ecgo/point.go
@@ -123,12 +123,14 @@ func NewPointXY(x, y *big.Int, c *Curve) (z *Point) {
 	bigint_to_c_mpz_signed(&xmpz, x)
 	bigint_to_c_mpz_signed(&ympz, y)
 
-	z = new(Point)
-	z.ecp = C.malloc_ECPoint()
-	z.cv = c
-	C.mpECP_init(z.ecp, c.ec)
-	runtime.SetFinalizer(z, point_clear)
-	C.mpECP_set_mpz(z.ecp, &xmpz, &ympz, c.ec)
+	if C.mpECurve_point_check(c.ec, &xmpz, &ympz) != 0 {
+		z = new(Point)
+		z.ecp = C.malloc_ECPoint()
+		z.cv = c
+		C.mpECP_init(z.ecp, c.ec)
+		runtime.SetFinalizer(z, point_clear)
+		C.mpECP_set_mpz(z.ecp, &xmpz, &ympz, c.ec)
+	}
 
 	C.mpz_clear(&xmpz)
 	C.mpz_clear(&ympz)
-- 
2.43.0


From 5493836af2e05b0cd98aa9a0884dc9182337a196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 45/52] fix: Go: strings were cut at the first NUL

---
 ecgo/curve.go | 6 +++++-
 ecgo/point.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ecgo/curve.go b/ecgo/curve.go
index 4239723..d1e0336 100644
--- a/ecgo/curve.go
+++ b/ecgo/curve.go
@@ -132,7 +132,7 @@ import (
 	//"reflect"
 	"runtime"
 	//"strconv"
-	//"strings"
+	"strings"
 	//"time"
 	"unsafe"
 )
@@ -161,6 +161,10 @@ func CurveNames() []string {
 }
 
 func NamedCurve(name string) (z *Curve) {
+	// C strings end at the first NUL
+	if strings.IndexByte(name, 0) >= 0 {
+		return nil
+	}
 	z = new(Curve)
 	z.ec = C.malloc_ECurve()
 	C.mpECurve_init(z.ec)
diff --git a/ecgo/point.go b/ecgo/point.go
index aca30ec..e9e24bc 100644
--- a/ecgo/point.go
+++ b/ecgo/point.go
@@ -101,7 +101,7 @@ import (
 	//"reflect"
 	"runtime"
 	//"strconv"
-	//"strings"
+	"strings"
 	//"time"
 	"unsafe"
 )
@@ -175,6 +175,10 @@ func NewPointURandom(c *Curve) (z *Point) {
 
 func NewPointFromString(gst string, c *Curve) (z *Point) {
 
+	// C strings end at the first NUL
+	if strings.IndexByte(gst, 0) >= 0 {
+		return nil
+	}
 	z = new(Point)
 	z.ecp = C.malloc_ECPoint()
 	z.cv = c
-- 
2.43.0


From 755254b05e2041cd7d30d3b428db909124ae5dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 46/52] fix: Go: bit positions were reduced to 32 bits

---
 ecgo/field.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecgo/field.go b/ecgo/field.go
index 51a0957..2c9af42 100644
--- a/ecgo/field.go
+++ b/ecgo/field.go
@@ -319,5 +319,8 @@ func (z *FieldElement) Exp(a *FieldElement, e uint64) *FieldElement {
 }
 
 func (z *FieldElement) Bit(i int) uint {
+	if i < 0 || i >= _MPFP_Max_Bytes*8 {
+		return 0
+	}
 	return uint(C.mpFp_tstbit(z.fe, C.int(i)))
 }
-- 
2.43.0


From 6cefaf325d604d75334196cf63be54610d530f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 47/52] fix: Go: IsNeutral was false for the neutral element of
 Edwards curves

---
 ecgo/point.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ecgo/point.go b/ecgo/point.go
index e9e24bc..23d7e8e 100644
--- a/ecgo/point.go
+++ b/ecgo/point.go
@@ -236,12 +236,8 @@ func (z *Point) Affine() (x, y *big.Int) {
 }
 
 func (z *Point) IsNeutral() bool {
-	pt := z.ecp
-	isn := pt.is_neutral
-	if int(isn) == 0 {
-		return false
-	}
-	return true
+	// Edwards forms represent the neutral element as an affine point
+	return z.Cmp(NewPointNeutral(z.cv)) == 0
 }
 
 func (z *Point) StringCompressed() string {
-- 
2.43.0


From 05b0241326ef4d170a51cd7f29dd0e102d65fb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 48/52] fix: Go: objects could be collected while the library
 was using them

---
 ecgo/curve.go     |  5 +++++
 ecgo/ecdsa.go     |  7 +++++++
 ecgo/ecelgamal.go |  8 ++++++++
 ecgo/field.go     | 22 ++++++++++++++++++++++
 ecgo/point.go     | 27 +++++++++++++++++++++++++++
 5 files changed, 69 insertions(+)

diff --git a/ecgo/curve.go b/ecgo/curve.go
index d1e0336..3be60fb 100644
--- a/ecgo/curve.go
+++ b/ecgo/curve.go
@@ -195,14 +195,18 @@ func mpFp_to_bigint(fp *C._mpFp_struct) (r *big.Int) {
 }
 
 func (z *Curve) Type() (r int) {
+	defer runtime.KeepAlive(z)
 	return int(C._type_of_cv(z.ec))
 }
 
 func (z *Curve) Cmp(a *Curve) int {
+	defer runtime.KeepAlive(z)
+	defer runtime.KeepAlive(a)
 	return int(C.mpECurve_cmp(z.ec, a.ec))
 }
 
 func (z *Curve) GetAttr(attr string) (r *big.Int) {
+	defer runtime.KeepAlive(z)
 
 	ctype := int(C._type_of_cv(z.ec))
 	//r = big.NewInt(0)
@@ -268,6 +272,7 @@ func (z *Curve) GetAttr(attr string) (r *big.Int) {
 }
 
 func (z *Curve) PointCheck(gx, gy *big.Int) bool {
+	defer runtime.KeepAlive(z)
 	var gxmpz, gympz C.__mpz_struct
 	var err error
 	var r bool
diff --git a/ecgo/ecdsa.go b/ecgo/ecdsa.go
index 25be4d3..eaf297d 100644
--- a/ecgo/ecdsa.go
+++ b/ecgo/ecdsa.go
@@ -98,6 +98,7 @@ type ECDSASignature struct {
 }
 
 func NewECDSASignatureScheme(c *Curve, h hash.Hash) (ss *ECDSASignatureScheme) {
+	defer runtime.KeepAlive(c)
 	var hdesc C._mpECDSAHashfunc_t
 
 	ss = new(ECDSASignatureScheme)
@@ -122,6 +123,7 @@ func signature_clear(sig *ECDSASignature) {
 }
 
 func (ss *ECDSASignatureScheme) Sign(sK *big.Int, message []byte) *ECDSASignature {
+	defer runtime.KeepAlive(ss)
 	ss.h.Reset()
 	ss.h.Write(message)
 	mhash := C.CBytes(ss.h.Sum(nil))
@@ -132,6 +134,7 @@ func (ss *ECDSASignatureScheme) Sign(sK *big.Int, message []byte) *ECDSASignatur
 	sig.csig = C.malloc_ECDSASignature()
 	sKfe := NewFieldElement(sK, ss.cv.GetAttr("n"))
 	status := C.mpECDSASignature_init_Sign(sig.csig, ss.css, sKfe.fe, C._toUCP(mhash), hsz)
+	runtime.KeepAlive(sKfe)
 	C.free(mhash)
 	if status != C.int(0) {
 		C.free_ECDSASignature(sig.csig)
@@ -143,6 +146,8 @@ func (ss *ECDSASignatureScheme) Sign(sK *big.Int, message []byte) *ECDSASignatur
 }
 
 func (sig *ECDSASignature) Verify(pK *Point, message []byte) bool {
+	defer runtime.KeepAlive(sig)
+	defer runtime.KeepAlive(pK)
 	sig.ss.h.Reset()
 	sig.ss.h.Write(message)
 	mhash := C.CBytes(sig.ss.h.Sum(nil))
@@ -156,6 +161,7 @@ func (sig *ECDSASignature) Verify(pK *Point, message []byte) bool {
 }
 
 func (sig *ECDSASignature) AsBytes() []byte {
+	defer runtime.KeepAlive(sig)
 	var sz C.size_t
 	cbytes := unsafe.Pointer(C.mpECDSASignature_export_bytes(sig.csig, &sz))
 	gobytes := C.GoBytes(cbytes, C.int(sz))
@@ -165,6 +171,7 @@ func (sig *ECDSASignature) AsBytes() []byte {
 }
 
 func (ss *ECDSASignatureScheme) SignatureFromBytes(gobytes []byte) *ECDSASignature {
+	defer runtime.KeepAlive(ss)
 	sig := new(ECDSASignature)
 	sig.csig = C.malloc_ECDSASignature()
 	sig.ss = ss
diff --git a/ecgo/ecelgamal.go b/ecgo/ecelgamal.go
index 81e9df9..aa49930 100644
--- a/ecgo/ecelgamal.go
+++ b/ecgo/ecelgamal.go
@@ -84,6 +84,8 @@ type ECElgamalCiphertext struct {
 }
 
 func ECElgamalEncrypt(pK *Point, ptxt *Point) (ctxt *ECElgamalCiphertext) {
+	defer runtime.KeepAlive(pK)
+	defer runtime.KeepAlive(ptxt)
 	if C.mpECurve_cmp(pK.cv.ec, ptxt.cv.ec) != 0 {
 		return nil
 	}
@@ -106,6 +108,7 @@ func ecelgamalciphertext_clear(ctxt *ECElgamalCiphertext) {
 }
 
 func (ctxt *ECElgamalCiphertext) Decrypt(sK *big.Int) (ptxt *Point) {
+	defer runtime.KeepAlive(ctxt)
 	sKfe := NewFieldElement(sK, ctxt.cv.GetAttr("n"))
 	if sKfe == nil {
 		return nil
@@ -114,6 +117,7 @@ func (ctxt *ECElgamalCiphertext) Decrypt(sK *big.Int) (ptxt *Point) {
 	ptxt.ecp = C.malloc_ECPoint()
 	ptxt.cv = ctxt.cv
 	status := C.mpECElgamal_init_decrypt(ptxt.ecp, sKfe.fe, ctxt.egc)
+	runtime.KeepAlive(sKfe)
 	if status != C.int(0) {
 		C.free_ECPoint(ptxt.ecp)
 		return nil
@@ -124,18 +128,22 @@ func (ctxt *ECElgamalCiphertext) Decrypt(sK *big.Int) (ptxt *Point) {
 }
 
 func (ctxt *ECElgamalCiphertext) C() (c *Point) {
+	defer runtime.KeepAlive(ctxt)
 	c = NewPointNeutral(ctxt.cv)
 	C.mpECP_set(c.ecp, C.C_of(ctxt.egc))
 	return c
 }
 
 func (ctxt *ECElgamalCiphertext) D() (d *Point) {
+	defer runtime.KeepAlive(ctxt)
 	d = NewPointNeutral(ctxt.cv)
 	C.mpECP_set(d.ecp, C.D_of(ctxt.egc))
 	return d
 }
 
 func NewECElgamalCiphertext(c, d *Point) (ctxt *ECElgamalCiphertext) {
+	defer runtime.KeepAlive(c)
+	defer runtime.KeepAlive(d)
 	if C.mpECurve_cmp(c.cv.ec, d.cv.ec) != 0 {
 		return nil
 	}
diff --git a/ecgo/field.go b/ecgo/field.go
index 2c9af42..deecbdd 100644
--- a/ecgo/field.go
+++ b/ecgo/field.go
@@ -246,6 +246,7 @@ func fieldElement_clear(z *FieldElement) {
 }
 
 func (z *FieldElement) AsInt() (r *big.Int) {
+	defer runtime.KeepAlive(z)
 	var impz C.__mpz_struct
 
 	C.mpz_init(&impz)
@@ -256,12 +257,15 @@ func (z *FieldElement) AsInt() (r *big.Int) {
 }
 
 func (z *FieldElement) Order() (r *big.Int) {
+	defer runtime.KeepAlive(z)
 	impz := C._p_of_fe(z.fe)
 	r = c_mpz_to_bigint(impz)
 	return r
 }
 
 func (z *FieldElement) Cmp(a *FieldElement) int {
+	defer runtime.KeepAlive(z)
+	defer runtime.KeepAlive(a)
 	if C._fp_of_fe(z.fe) != C._fp_of_fe(a.fe) {
 		panic("FE.Cmp: field mismatch")
 	}
@@ -269,6 +273,9 @@ func (z *FieldElement) Cmp(a *FieldElement) int {
 }
 
 func (z *FieldElement) Add(a, b *FieldElement) *FieldElement {
+	defer runtime.KeepAlive(z)
+	defer runtime.KeepAlive(a)
+	defer runtime.KeepAlive(b)
 	if C._fp_of_fe(a.fe) != C._fp_of_fe(b.fe) {
 		panic("FE.Add: field mismatch")
 	}
@@ -277,6 +284,9 @@ func (z *FieldElement) Add(a, b *FieldElement) *FieldElement {
 }
 
 func (z *FieldElement) Sub(a, b *FieldElement) *FieldElement {
+	defer runtime.KeepAlive(z)
+	defer runtime.KeepAlive(a)
+	defer runtime.KeepAlive(b)
 	if C._fp_of_fe(a.fe) != C._fp_of_fe(b.fe) {
 		panic("FE.Add: field mismatch")
 	}
@@ -285,6 +295,9 @@ func (z *FieldElement) Sub(a, b *FieldElement) *FieldElement {
 }
 
 func (z *FieldElement) Mul(a, b *FieldElement) *FieldElement {
+	defer runtime.KeepAlive(z)
+	defer runtime.KeepAlive(a)
+	defer runtime.KeepAlive(b)
 	if C._fp_of_fe(a.fe) != C._fp_of_fe(b.fe) {
 		panic("FE.Add: field mismatch")
 	}
@@ -293,11 +306,15 @@ func (z *FieldElement) Mul(a, b *FieldElement) *FieldElement {
 }
 
 func (z *FieldElement) Neg(a *FieldElement) *FieldElement {
+	defer runtime.KeepAlive(z)
+	defer runtime.KeepAlive(a)
 	C.mpFp_neg(z.fe, a.fe)
 	return z
 }
 
 func (z *FieldElement) Inv(a *FieldElement) (fe *FieldElement, err error) {
+	defer runtime.KeepAlive(z)
+	defer runtime.KeepAlive(a)
 	status := C.mpFp_inv(z.fe, a.fe)
 	if int(status) != 0 {
 		return nil, errors.New("no inverse exists for element")
@@ -306,6 +323,8 @@ func (z *FieldElement) Inv(a *FieldElement) (fe *FieldElement, err error) {
 }
 
 func (z *FieldElement) Sqrt(a *FieldElement) (fe *FieldElement, err error) {
+	defer runtime.KeepAlive(z)
+	defer runtime.KeepAlive(a)
 	status := C.mpFp_sqrt(z.fe, a.fe)
 	if int(status) != 0 {
 		return nil, errors.New("element is not a quadratic residue")
@@ -314,11 +333,14 @@ func (z *FieldElement) Sqrt(a *FieldElement) (fe *FieldElement, err error) {
 }
 
 func (z *FieldElement) Exp(a *FieldElement, e uint64) *FieldElement {
+	defer runtime.KeepAlive(z)
+	defer runtime.KeepAlive(a)
 	C.mpFp_pow_ui(z.fe, a.fe, C.ulong(e))
 	return z
 }
 
 func (z *FieldElement) Bit(i int) uint {
+	defer runtime.KeepAlive(z)
 	if i < 0 || i >= _MPFP_Max_Bytes*8 {
 		return 0
 	}
diff --git a/ecgo/point.go b/ecgo/point.go
index 23d7e8e..0927c82 100644
--- a/ecgo/point.go
+++ b/ecgo/point.go
@@ -115,6 +115,7 @@ type Point struct {
 }
 
 func NewPointXY(x, y *big.Int, c *Curve) (z *Point) {
+	defer runtime.KeepAlive(c)
 	var xmpz, ympz C.__mpz_struct
 
 	C.mpz_init(&xmpz)
@@ -138,6 +139,7 @@ func NewPointXY(x, y *big.Int, c *Curve) (z *Point) {
 }
 
 func NewPointNeutral(c *Curve) (z *Point) {
+	defer runtime.KeepAlive(c)
 
 	z = new(Point)
 	z.ecp = C.malloc_ECPoint()
@@ -150,6 +152,7 @@ func NewPointNeutral(c *Curve) (z *Point) {
 }
 
 func NewPointGenerator(c *Curve) (z *Point) {
+	defer runtime.KeepAlive(c)
 
 	z = new(Point)
 	z.ecp = C.malloc_ECPoint()
@@ -162,6 +165,7 @@ func NewPointGenerator(c *Curve) (z *Point) {
 }
 
 func NewPointURandom(c *Curve) (z *Point) {
+	defer runtime.KeepAlive(c)
 
 	z = new(Point)
 	z.ecp = C.malloc_ECPoint()
@@ -174,6 +178,7 @@ func NewPointURandom(c *Curve) (z *Point) {
 }
 
 func NewPointFromString(gst string, c *Curve) (z *Point) {
+	defer runtime.KeepAlive(c)
 
 	// C strings end at the first NUL
 	if strings.IndexByte(gst, 0) >= 0 {
@@ -195,6 +200,7 @@ func NewPointFromString(gst string, c *Curve) (z *Point) {
 }
 
 func NewPointFromBytes(gby []byte, c *Curve) (z *Point) {
+	defer runtime.KeepAlive(c)
 
 	z = new(Point)
 	z.ecp = C.malloc_ECPoint()
@@ -218,6 +224,7 @@ func point_clear(z *Point) {
 }
 
 func (z *Point) Affine() (x, y *big.Int) {
+	defer runtime.KeepAlive(z)
 	var xmpz, ympz C.__mpz_struct
 
 	C.mpz_init(&xmpz)
@@ -236,11 +243,13 @@ func (z *Point) Affine() (x, y *big.Int) {
 }
 
 func (z *Point) IsNeutral() bool {
+	defer runtime.KeepAlive(z)
 	// Edwards forms represent the neutral element as an affine point
 	return z.Cmp(NewPointNeutral(z.cv)) == 0
 }
 
 func (z *Point) StringCompressed() string {
+	defer runtime.KeepAlive(z)
 	cstr := C.mpECP_alloc_out_str(z.ecp, C.int(1))
 	gstr := C.GoString(cstr)
 	C.free(unsafe.Pointer(cstr))
@@ -248,6 +257,7 @@ func (z *Point) StringCompressed() string {
 }
 
 func (z *Point) StringUncompressed() string {
+	defer runtime.KeepAlive(z)
 	cstr := C.mpECP_alloc_out_str(z.ecp, C.int(0))
 	gstr := C.GoString(cstr)
 	C.free(unsafe.Pointer(cstr))
@@ -255,6 +265,7 @@ func (z *Point) StringUncompressed() string {
 }
 
 func (z *Point) BytesCompressed() []byte {
+	defer runtime.KeepAlive(z)
 	blen := C.mpECP_out_bytelen(z.ecp, C.int(1))
 	cstr := C.mpECP_alloc_out_bytes(z.ecp, C.int(1))
 	gstr := C.GoBytes(unsafe.Pointer(cstr), blen)
@@ -263,6 +274,7 @@ func (z *Point) BytesCompressed() []byte {
 }
 
 func (z *Point) BytesUncompressed() []byte {
+	defer runtime.KeepAlive(z)
 	blen := C.mpECP_out_bytelen(z.ecp, C.int(0))
 	cstr := C.mpECP_alloc_out_bytes(z.ecp, C.int(0))
 	gstr := C.GoBytes(unsafe.Pointer(cstr), blen)
@@ -271,10 +283,15 @@ func (z *Point) BytesUncompressed() []byte {
 }
 
 func (z *Point) Cmp(a *Point) int {
+	defer runtime.KeepAlive(z)
+	defer runtime.KeepAlive(a)
 	return int(C.mpECP_cmp(z.ecp, a.ecp))
 }
 
 func (z *Point) Add(a, b *Point) *Point {
+	defer runtime.KeepAlive(z)
+	defer runtime.KeepAlive(a)
+	defer runtime.KeepAlive(b)
 	if C.mpECurve_cmp(a.cv.ec, b.cv.ec) != 0 {
 		return nil
 	}
@@ -285,6 +302,9 @@ func (z *Point) Add(a, b *Point) *Point {
 }
 
 func (z *Point) Sub(a, b *Point) *Point {
+	defer runtime.KeepAlive(z)
+	defer runtime.KeepAlive(a)
+	defer runtime.KeepAlive(b)
 	if C.mpECurve_cmp(a.cv.ec, b.cv.ec) != 0 {
 		return nil
 	}
@@ -295,18 +315,24 @@ func (z *Point) Sub(a, b *Point) *Point {
 }
 
 func (z *Point) Neg(a *Point) *Point {
+	defer runtime.KeepAlive(z)
+	defer runtime.KeepAlive(a)
 	C.mpECP_neg(z.ecp, a.ecp)
 	z.cv = a.cv
 	return z
 }
 
 func (z *Point) Set(a *Point) *Point {
+	defer runtime.KeepAlive(z)
+	defer runtime.KeepAlive(a)
 	C.mpECP_set(z.ecp, a.ecp)
 	z.cv = a.cv
 	return z
 }
 
 func (z *Point) Mul(a *Point, b *big.Int) *Point {
+	defer runtime.KeepAlive(z)
+	defer runtime.KeepAlive(a)
 	var bmpz C.__mpz_struct
 
 	C.mpz_init(&bmpz)
@@ -324,6 +350,7 @@ func (z *Point) Mul(a *Point, b *big.Int) *Point {
 }
 
 func (z *Point) SetupBaseMul() {
+	defer runtime.KeepAlive(z)
 	C.mpECP_scalar_base_mul_setup(z.ecp)
 	return
 }
-- 
2.43.0


From 4a948025675e47deaec2a6cd4e4c55731b688a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 49/52] fix: a failed inversion moved its destination to
 another field

---
 src/field.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/field.c b/src/field.c
index a60f024..6591ebf 100644
--- a/src/field.c
+++ b/src/field.c
@@ -406,10 +406,8 @@ int mpFp_inv(mpFp_t c, mpFp_t a) {
     mpFp_field_ptr fp;
     mp_limb_t tl[_MPFP_MAX_LIMBS*2];
     fp = a->fp;
-    c->fp = a->fp;
     PARANOID_ASSERT(a->i->_mp_size == fp->psize);
     PARANOID_ASSERT(fp->psize <= _MPFP_MAX_LIMBS);
-    mpFp_realloc(c);
     t->_mp_d = tl;
     t->_mp_size = fp->psize;
     t->_mp_alloc = fp->p2size;
@@ -426,6 +424,8 @@ int mpFp_inv(mpFp_t c, mpFp_t a) {
     }
 
     if (t->_mp_size == 0) return -1;
+    c->fp = a->fp;
+    mpFp_realloc(c);
 
     // mpz_invert returns 0 on failure... reverse status
     rstatus = mpz_invert(c->i, t, fp->p);
-- 
2.43.0


From 9ed12e193aea572ed5eddac122d38f5851943392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 50/52] fix: Go: CurveNames leaked the list of names

---
 ecgo/curve.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ecgo/curve.go b/ecgo/curve.go
index 3be60fb..de888fe 100644
--- a/ecgo/curve.go
+++ b/ecgo/curve.go
@@ -53,6 +53,14 @@ package ecgo
 //     return i;
 // }
 //
+// void free_clist(char **list) {
+//     char **l;
+//
+//     if (list == NULL) return;
+//     for (l = list; *l != NULL; l++) free(*l);
+//     free(list);
+// }
+//
 // __mpz_struct *_p_of_cv(mpECurve_t cv) {
 //     return cv->fp->p;
 // }
@@ -157,6 +165,7 @@ type Curve struct {
 func CurveNames() []string {
 	clist := C._mpECurve_list_standard_curves()
 	cllen := C.clist_len(clist)
+	defer C.free_clist(clist)
 	return goStrings(cllen, clist)
 }
 
-- 
2.43.0


From 5bc442d00415c02f1b57094abbcd39a8db351a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:00 +0000
Subject: [PATCH 51/52] fix: threads corrupted the list of fields

Fields are kept in a list which is extended when a modulus is first used.
A thread could follow a link to an entry which another thread had not
filled in yet, and two threads could create two fields for one modulus.
Access to the list is now serialised.
---
 src/field.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/field.c b/src/field.c
index 6591ebf..c2a5950 100644
--- a/src/field.c
+++ b/src/field.c
@@ -32,6 +32,7 @@
 #include <ecc/field.h>
 #include <ecc/mpzurandom.h>
 #include <gmp.h>
+#include <pthread.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -90,6 +91,9 @@ typedef struct __mpFp_field_list_t {
 
 static _mpFp_field_list_t *_static_field_list = NULL;
 
+// the list is shared by all threads of the program
+static pthread_mutex_t _field_list_lock = PTHREAD_MUTEX_INITIALIZER;
+
 static void _cleanup_field_list(void) {
     _mpFp_field_list_t *head;
     
@@ -116,6 +120,7 @@ mpFp_field_ptr _mpFp_field_lookup(mpz_t p) {
     // definition of contstant and recomile library
     assert ((psz * 2) <= _MPFP_MAX_LIMBS);
 
+    pthread_mutex_lock(&_field_list_lock);
     if (_static_field_list == NULL) {
         atexit(&_cleanup_field_list);
     }
@@ -124,6 +129,7 @@ mpFp_field_ptr _mpFp_field_lookup(mpz_t p) {
     while (*l != NULL) {
         l_this = *l;
         if (mpz_cmp(l_this->fp->p, p) == 0) {
+            pthread_mutex_unlock(&_field_list_lock);
             return l_this->fp;
         }
         l = &(l_this->next);
@@ -136,6 +142,7 @@ mpFp_field_ptr _mpFp_field_lookup(mpz_t p) {
     mpFp_field_init(l_this->fp);
     mpFp_field_set_mpz(l_this->fp, p);
     l_this->next = NULL;
+    pthread_mutex_unlock(&_field_list_lock);
     //gmp_printf("created field Fp: p = 0x%ZX\n", p);
     return l_this->fp;
 }
-- 
2.43.0


From 8c54194debae5a77079bd78f9f2a1e4e9df72216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:00 +0000
Subject: [PATCH 52/52] fix: threads could open the source of randomness twice

The second stream replaced the first one, which was never closed.
---
 src/mpzurandom.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mpzurandom.c b/src/mpzurandom.c
index 9051cf9..70691b8 100644
--- a/src/mpzurandom.c
+++ b/src/mpzurandom.c
@@ -31,6 +31,7 @@
 #include <assert.h>
 #include <ecc/mpzurandom.h>
 #include <gmp.h>
+#include <pthread.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -43,6 +44,9 @@ static void *(*const volatile _clean)(void *, int, size_t) = memset;
 
 static FILE *_f_urandom = NULL;
 
+// the stream is shared by all threads of the program
+static pthread_mutex_t _f_urandom_lock = PTHREAD_MUTEX_INITIALIZER;
+
 static void _close_f_urandom(void) {
     if (_f_urandom != NULL) {
         fclose(_f_urandom);
@@ -54,6 +58,7 @@ static void _close_f_urandom(void) {
 void mpz_urandom(mpz_t rop, mpz_t rand_max) {
     int bytes, sz_read;
     char *buffer;
+    pthread_mutex_lock(&_f_urandom_lock);
     if (_f_urandom == NULL) {
         _f_urandom = fopen("/dev/urandom", "rb");
         assert(_f_urandom != NULL);
@@ -61,6 +66,7 @@ void mpz_urandom(mpz_t rop, mpz_t rand_max) {
         setvbuf(_f_urandom, NULL, _IONBF, 0);
         atexit(_close_f_urandom);
     }
+    pthread_mutex_unlock(&_f_urandom_lock);
     // bytes intentionally long to ensure uniformity, will truncate with modulo
     bytes = ((mpz_sizeinbase(rand_max,2) + 7) >> 3) * 2;
     buffer = (char *)malloc((bytes) * sizeof(char));
-- 
2.43.0

