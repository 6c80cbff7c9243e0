From 9252b4d2cd60454e39767da1b4e985d5fbcf402c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 01/58] fix: mpFp_sqrt overflowed its exponent for p-1
 divisible by 2**32 or more

---
 src/field.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/field.c b/src/field.c
index 189ee77..3b55040 100644
--- a/src/field.c
+++ b/src/field.c
@@ -735,7 +735,10 @@ int mpFp_sqrt(mpFp_t rop, mpFp_t op) {
                 mpz_powm_ui(z, z, 2, op->fp->p);
                 //mpz_add_ui(i, i, 1); 
             }
-            mpz_powm_ui(b, c, 1 << (m - i - 1), op->fp->p);
+            // b = c**(2**(m-i-1)), the exponent can exceed any machine word
+            mpz_set_ui(b, 0);
+            mpz_setbit(b, m - i - 1);
+            mpz_powm(b, c, b, op->fp->p);
             mpz_mul(r, r, b);
             mpz_mod(r, r, op->fp->p);
             mpz_powm_ui(c, b, 2, op->fp->p);
-- 
2.43.0


From 845ea8cb5dda85008a58c7d037dc00251e0ebb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 02/58] fix: Montgomery to Weierstrass transform was wrong for
 B != 1

---
 src/ecpoint.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 01b6b6e..4ecfb3f 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -120,9 +120,9 @@ void mpECP_set(mpECP_t rpt, mpECP_t pt) {
 
 static inline void _transform_mo_to_ws(mpECP_t pt) {
     assert (pt->cvp->type == EQTypeMontgomery);
-    // u = x/B + A/3, v = y/B
-    mpFp_mul(pt->x, pt->x, pt->cvp->coeff.mo.Binv);
+    // u = (x + A/3)/B, v = y/B
     mpFp_add(pt->x, pt->x, pt->cvp->coeff.mo.Adiv3);
+    mpFp_mul(pt->x, pt->x, pt->cvp->coeff.mo.Binv);
     mpFp_mul(pt->y, pt->y, pt->cvp->coeff.mo.Binv);
 }
 
-- 
2.43.0


From 51b259f2e69f627a6444212d6cd408cb09c1706d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 03/58] fix: scalar multiplication dropped the top bit of
 orders longer than the field

---
 src/ecpoint.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 4ecfb3f..6f7e2b9 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -55,8 +55,14 @@ typedef mp_limb_t __local_limb_t[_MPFP_MAX_LIMBS];
 
 static char *_hexlut = "0123456789ABCDEF";
 
+// scalars are modulo the group order, which can be longer than the field
+static inline int _scalar_bits(mpECurve_ptr cv) {
+    int nbits = (int)mpz_sizeinbase(cv->n, 2);
+    return (nbits > (int)cv->bits) ? nbits : (int)cv->bits;
+}
+
 static inline int _mpECP_n_base_pt_levels(mpECP_t pt) {
-    return (pt->cvp->bits + pt->base_bits - 1) / pt->base_bits;
+    return (_scalar_bits(pt->cvp) + pt->base_bits - 1) / pt->base_bits;
 }
 
 static inline int _mpECP_n_base_pt_level_size(mpECP_t pt) {
@@ -1332,7 +1338,7 @@ void mpECP_scalar_mul(mpECP_t rpt, mpECP_t pt, mpFp_t sc) {
     mpECP_set(R1, pt);
     // scalar should be modulo the order of the curve
     assert(mpz_cmp(sc->fp->p, pt->cvp->n) == 0);
-    for (i = pt->cvp->bits - 1; i >= 0 ; i--) {
+    for (i = _scalar_bits(pt->cvp) - 1; i >= 0 ; i--) {
         int b;
 
         b = mpFp_tstbit(sc, i);
-- 
2.43.0


From b730821e50809a68c7ac61fb3fc39b2c281abf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 04/58] fix: Edwards addition overwrote the curve object of its
 destination

---
 src/ecpoint.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 6f7e2b9..ff72bf9 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -1110,7 +1110,7 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 // Z3 = c*F*G
                 mpFp_mul(B, pt1->cvp->coeff.ed.c, G);
                 mpFp_mul(rpt->z, B, F);
-                mpECurve_set(rpt->cvp, pt1->cvp);
+                rpt->cvp = pt1->cvp;
                 rpt->is_neutral = 0;
 
 #ifndef _MPECP_MPFP_NOMALLOC
@@ -1189,7 +1189,7 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 mpFp_mul(rpt->y, B, A);
                 // Z3 = F*G
                 mpFp_mul(rpt->z, G, F);
-                mpECurve_set(rpt->cvp, pt1->cvp);
+                rpt->cvp = pt1->cvp;
                 rpt->is_neutral = 0;
 
 #ifndef _MPECP_MPFP_NOMALLOC
@@ -1292,7 +1292,7 @@ void mpECP_double(mpECP_t rpt, mpECP_t pt) {
                 mpFp_clear(YYYY);
                 mpFp_clear(YY);
                 mpFp_clear(XX);
-                mpECurve_set(rpt->cvp, pt->cvp);
+                rpt->cvp = pt->cvp;
                 rpt->is_neutral = 0;
                 return;
             }
-- 
2.43.0


From 716a9d846906fee035517ed2b405368c95a7a9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:37 +0000
Subject: [PATCH 05/58] fix: Weierstrass addition returned neutral when the
 operands differ by a point of order two

---
 src/ecpoint.c | 112 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 91 insertions(+), 21 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index ff72bf9..1462a92 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -747,6 +747,62 @@ void mpECP_cswap(mpECP_t pt2, mpECP_t pt1, int swap) {
     _mpECP_cswap_safe(pt2, pt1, swap);
 }
 
+#ifdef _MPECP_USE_RCB
+// The RCB formula is complete for odd order groups only: it yields 0:0:0 when
+// pt1 - pt2 is a point of order two. As pt1 != pt2 in that case the sum is
+// either neutral or given by the chord formula.
+static void _mpECP_ws_add_exceptional(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
+    mpFp_t u, v, v2, v3, r, a;
+    mpFp_init_fp(u, pt1->cvp->fp);
+    mpFp_init_fp(v, pt1->cvp->fp);
+    mpFp_init_fp(v2, pt1->cvp->fp);
+    mpFp_init_fp(v3, pt1->cvp->fp);
+    mpFp_init_fp(r, pt1->cvp->fp);
+    mpFp_init_fp(a, pt1->cvp->fp);
+    // v = X2*Z1 - X1*Z2
+    mpFp_mul(r, pt1->x, pt2->z);
+    mpFp_mul(v, pt2->x, pt1->z);
+    mpFp_sub(v, v, r);
+    if (mpFp_cmp_ui(v, 0) == 0) {
+        mpECP_set_neutral(rpt, pt1->cvp);
+    } else {
+        // u = Y2*Z1 - Y1*Z2
+        mpFp_mul(a, pt1->y, pt2->z);
+        mpFp_mul(u, pt2->y, pt1->z);
+        mpFp_sub(u, u, a);
+        // r = v**2 * X1*Z2
+        mpFp_sqr(v2, v);
+        mpFp_mul(v3, v2, v);
+        mpFp_mul(r, r, v2);
+        // v2 = Y1*Z2 * v**3
+        mpFp_mul(v2, a, v3);
+        // rpt->z = Z1*Z2
+        mpFp_mul(rpt->z, pt1->z, pt2->z);
+        // a = u**2 * Z1*Z2 - v**3 - 2*r
+        mpFp_sqr(a, u);
+        mpFp_mul(a, a, rpt->z);
+        mpFp_sub(a, a, v3);
+        mpFp_sub(a, a, r);
+        mpFp_sub(a, a, r);
+        // X3 = v*a, Y3 = u*(r - a) - v**3 * Y1*Z2, Z3 = v**3 * Z1*Z2
+        mpFp_mul(rpt->x, v, a);
+        mpFp_sub(r, r, a);
+        mpFp_mul(r, r, u);
+        mpFp_sub(rpt->y, r, v2);
+        mpFp_mul(rpt->z, rpt->z, v3);
+        rpt->cvp = pt1->cvp;
+        rpt->is_neutral = 0;
+    }
+    mpFp_clear(a);
+    mpFp_clear(r);
+    mpFp_clear(v3);
+    mpFp_clear(v2);
+    mpFp_clear(v);
+    mpFp_clear(u);
+    return;
+}
+#endif
+
 void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
 #ifdef _MPECP_USE_RCB
     mpFp_ptr aa, bb;
@@ -782,9 +838,9 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 //assert(0); // might want to implement something here ;)
                 // 2015 Renes-Costello-Batina "Algorithm 1"
                 // from https://eprint.iacr.org/2015/1060.pdf
-                mpFp_t t0, t1, t2, t3, t4, t5, b3;
+                mpFp_t t0, t1, t2, t3, t4, t5, b3, x3, y3, z3;
 #ifdef _MPECP_MPFP_NOMALLOC
-                __local_limb_t lt0, lt1, lt2, lt3, lt4, lt5, lb3;
+                __local_limb_t lt0, lt1, lt2, lt3, lt4, lt5, lb3, lx3, ly3, lz3;
                 t0->i->_mp_d = lt0; t0->i->_mp_size = 0; t0->i->_mp_alloc = _MPFP_MAX_LIMBS; t0->fp = pt1->cvp->fp;
                 t1->i->_mp_d = lt1; t1->i->_mp_size = 0; t1->i->_mp_alloc = _MPFP_MAX_LIMBS; t1->fp = pt1->cvp->fp;
                 t2->i->_mp_d = lt2; t2->i->_mp_size = 0; t2->i->_mp_alloc = _MPFP_MAX_LIMBS; t2->fp = pt1->cvp->fp;
@@ -792,6 +848,9 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 t4->i->_mp_d = lt4; t4->i->_mp_size = 0; t4->i->_mp_alloc = _MPFP_MAX_LIMBS; t4->fp = pt1->cvp->fp;
                 t5->i->_mp_d = lt5; t5->i->_mp_size = 0; t5->i->_mp_alloc = _MPFP_MAX_LIMBS; t5->fp = pt1->cvp->fp;
                 b3->i->_mp_d = lb3; b3->i->_mp_size = 0; b3->i->_mp_alloc = _MPFP_MAX_LIMBS; b3->fp = pt1->cvp->fp;
+                x3->i->_mp_d = lx3; x3->i->_mp_size = 0; x3->i->_mp_alloc = _MPFP_MAX_LIMBS; x3->fp = pt1->cvp->fp;
+                y3->i->_mp_d = ly3; y3->i->_mp_size = 0; y3->i->_mp_alloc = _MPFP_MAX_LIMBS; y3->fp = pt1->cvp->fp;
+                z3->i->_mp_d = lz3; z3->i->_mp_size = 0; z3->i->_mp_alloc = _MPFP_MAX_LIMBS; z3->fp = pt1->cvp->fp;
 #else
                 mpFp_init_fp(t0, pt1->cvp->fp);
                 mpFp_init_fp(t1, pt1->cvp->fp);
@@ -800,6 +859,9 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 mpFp_init_fp(t4, pt1->cvp->fp);
                 mpFp_init_fp(t5, pt1->cvp->fp);
                 mpFp_init_fp(b3, pt1->cvp->fp);
+                mpFp_init_fp(x3, pt1->cvp->fp);
+                mpFp_init_fp(y3, pt1->cvp->fp);
+                mpFp_init_fp(z3, pt1->cvp->fp);
 #endif
                 // TODO: Precalculate b3 and store in coeff.ws.b3
                 mpFp_add(b3, bb, bb);
@@ -875,25 +937,25 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 //14. t5 <- Y1 + Z1
                 mpFp_add(t5, pt1->y, pt1->z);
                 //15. X3 <- Y2 + Z2
-                mpFp_add(rpt->x, pt2->y, pt2->z);
+                mpFp_add(x3, pt2->y, pt2->z);
                 //16. t5 <- t5 * X3
-                mpFp_mul(t5, t5, rpt->x);
+                mpFp_mul(t5, t5, x3);
                 //17. X3 <- t1 + t2
-                mpFp_add(rpt->x, t1, t2);
+                mpFp_add(x3, t1, t2);
                 //18. t5 <- t5 - X3
-                mpFp_sub(t5, t5, rpt->x);
+                mpFp_sub(t5, t5, x3);
                 //19. Z3 <-  a * t4
-                mpFp_mul(rpt->z, aa, t4);
+                mpFp_mul(z3, aa, t4);
                 //20. X3 <- b3 * t2
-                mpFp_mul(rpt->x, b3, t2);
+                mpFp_mul(x3, b3, t2);
                 //21. Z3 <- X3 + Z3
-                mpFp_add(rpt->z, rpt->x, rpt->z);
+                mpFp_add(z3, x3, z3);
                 //22. X3 <- t1 - Z3
-                mpFp_sub(rpt->x, t1, rpt->z);
+                mpFp_sub(x3, t1, z3);
                 //23. Z3 <- t1 + Z3
-                mpFp_add(rpt->z, t1, rpt->z);
+                mpFp_add(z3, t1, z3);
                 //24. Y3 <- X3 * Z3
-                mpFp_mul(rpt->y, rpt->x, rpt->z);
+                mpFp_mul(y3, x3, z3);
                 //25. t1 <- t0 + t0
                 mpFp_add(t1, t0, t0);
                 //26. t1 <- t1 + t0
@@ -913,29 +975,37 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
                 //33. t0 <- t1 * t4
                 mpFp_mul(t0, t1, t4);
                 //34. Y3 <- Y3 + t0
-                mpFp_add(rpt->y, rpt->y, t0);
+                mpFp_add(y3, y3, t0);
                 //35. t0 <- t5 * t4
                 mpFp_mul(t0, t5, t4);
                 //36. X3 <- t3 * X3
-                mpFp_mul(rpt->x, t3, rpt->x);
+                mpFp_mul(x3, t3, x3);
                 //37. X3 <- X3 - t0
-                mpFp_sub(rpt->x, rpt->x, t0);
+                mpFp_sub(x3, x3, t0);
                 //38. t0 <- t3 * t1
                 mpFp_mul(t0, t3, t1);
                 //39. Z3 <- t5 * Z3
-                mpFp_mul(rpt->z, t5, rpt->z);
+                mpFp_mul(z3, t5, z3);
                 //40. Z3 <- Z3 + t0
-                mpFp_add(rpt->z, rpt->z, t0);
-
-                rpt->cvp = pt1->cvp;
+                mpFp_add(z3, z3, t0);
 
-                if (mpFp_cmp_ui(rpt->z, 0) == 0) {
+                if (mpFp_cmp_ui(z3, 0) != 0) {
+                    mpFp_set(rpt->x, x3);
+                    mpFp_set(rpt->y, y3);
+                    mpFp_set(rpt->z, z3);
+                    rpt->cvp = pt1->cvp;
+                    rpt->is_neutral = 0;
+                } else if (mpFp_cmp_ui(y3, 0) != 0) {
                     mpECP_set_neutral(rpt, pt1->cvp);
                 } else {
-                    rpt->is_neutral = 0;
+                    // 0:0:0, the one exceptional case of the formula
+                    _mpECP_ws_add_exceptional(rpt, pt1, pt2);
                 }
 
 #ifndef _MPECP_MPFP_NOMALLOC
+                mpFp_clear(z3);
+                mpFp_clear(y3);
+                mpFp_clear(x3);
                 mpFp_clear(b3);
                 mpFp_clear(t5);
                 mpFp_clear(t4);
-- 
2.43.0


From 69ca1e8ec28713345d3cfa72f522a14a26fb1c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:31 +0000
Subject: [PATCH 06/58] fix: mpECurve_cmp reported curves over different fields
 as equal

---
 src/ecurve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecurve.c b/src/ecurve.c
index 1404b4f..d009d77 100644
--- a/src/ecurve.c
+++ b/src/ecurve.c
@@ -1195,7 +1195,7 @@ int mpECurve_cmp(mpECurve_t op1, mpECurve_t op2) {
     //printf("not the same pointer\n");
     if (op1->type != op2->type) return -1;
     //printf("same type\n");
-    r = (op1->fp == op2->fp) ; if (r != 1) return r;
+    if (op1->fp != op2->fp) return -1;
     //printf("same field\n");
     switch (op1->type) {
         case EQTypeShortWeierstrass:
-- 
2.43.0


From 190461b8f7fec4e68e13c713282bba2f77cc7b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:31 +0000
Subject: [PATCH 07/58] fix: adding to the neutral element moved the result to
 the second operand's curve object

---
 src/ecpoint.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 1462a92..967d2be 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -813,7 +813,10 @@ void mpECP_add(mpECP_t rpt, mpECP_t pt1, mpECP_t pt2) {
             mpECP_set_neutral(rpt, pt1->cvp);
             return;
         } else {
+            mpECurve_ptr cv = pt1->cvp;
             mpECP_set(rpt, pt2);
+            // the result belongs to the curve of the first operand
+            rpt->cvp = cv;
             return;
         }
     } else if (pt2->is_neutral != 0) {
-- 
2.43.0


From 52c849a72cd2004700dffe7a6dfa9ac14848a6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:55 +0000
Subject: [PATCH 08/58] fix: mpECP_set_str accepted characters that are not
 hexadecimal digits

---
 src/ecpoint.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 967d2be..5a3d250 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -29,6 +29,7 @@
 //OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include <assert.h>
+#include <ctype.h>
 #include <ecc/ecpoint.h>
 #include <ecc/ecurve.h>
 #include <ecc/field.h>
@@ -321,6 +322,10 @@ int mpECP_set_str(mpECP_t rpt, char *s, mpECurve_t cv) {
 
     for (i = 0; i < blen; i++) {
         unsigned int btmp;
+        if (!isxdigit((unsigned char)s[2 * i]) || !isxdigit((unsigned char)s[2 * i + 1])) {
+            free(buf);
+            return -1;
+        }
         sscanf(&s[2 * i], "%2X", &btmp);
         // btmp is unsigned, always >= 0
         //assert(btmp >= 0);
-- 
2.43.0


From cf8edc931d2ad379b7ec70f4a32dd6b6ba963bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:55 +0000
Subject: [PATCH 09/58] fix: mpECP_set_bytes accepted points off the curve,
 coordinates beyond p and malformed neutral encodings

---
 src/ecpoint.c | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 5a3d250..9bb98a0 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -346,8 +346,14 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
     bytes = _bytelen(cv->bits);
     if (blen < (1 + bytes)) return -1;
     switch (b[0]) {
-        case 0:
-            mpECP_set_neutral(rpt, cv);
+        case 0: {
+                size_t i;
+                if ((blen != (1 + bytes)) && (blen != (1 + (2 * bytes)))) return -1;
+                for (i = 1; i < blen; i++) {
+                    if (b[i] != 0) return -1;
+                }
+                mpECP_set_neutral(rpt, cv);
+            }
             return 0;
         case 4: {
                 if (blen != (1 + (2 * bytes))) return -1;
@@ -356,6 +362,12 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
                 mpz_init(y);
                 mpz_import(x, bytes, 1, sizeof(unsigned char), 1, 0, &(b[1]));
                 mpz_import(y, bytes, 1, sizeof(unsigned char), 1, 0, &(b[1 + bytes]));
+                if ((mpz_cmp(x, cv->fp->p) >= 0) || (mpz_cmp(y, cv->fp->p) >= 0) ||
+                    !mpECurve_point_check(cv, x, y)) {
+                    mpz_clear(y);
+                    mpz_clear(x);
+                    return -1;
+                }
                 mpECP_set_mpz(rpt, x, y, cv);
                 mpz_clear(y);
                 mpz_clear(x);
@@ -372,6 +384,13 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
                 mpFp_init_fp(y, cv->fp);
                 mpFp_init_fp(t, cv->fp);
                 mpz_import(xz, bytes, 1, sizeof(unsigned char), 1, 0, &b[1]);
+                if (mpz_cmp(xz, cv->fp->p) >= 0) {
+                    mpFp_clear(t);
+                    mpFp_clear(y);
+                    mpFp_clear(x);
+                    mpz_clear(xz);
+                    return -1;
+                }
                 mpFp_set_mpz_fp(x, xz, cv->fp);
                 switch (cv->type) {
                     case EQTypeShortWeierstrass: {
-- 
2.43.0


From 7d9fb1eb50579cad73e981126ebe955235445ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:55 +0000
Subject: [PATCH 10/58] fix: compressed Montgomery points carried the parity of
 the internal coordinate instead of y

---
 src/ecpoint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 9bb98a0..42d1d8e 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -571,7 +571,7 @@ void mpECP_out_bytes(unsigned char *s, mpECP_t pt, int compress) {
     if (compress != 0) {
         mpz_t odd;
         mpz_init(odd);
-        mpz_set_mpFp(odd, pt->y);
+        mpz_set_mpECP_affine_y(odd, pt);
         mpz_mod_ui(odd, odd, 2);
         if (mpz_cmp_ui(odd, 1) == 0) {
             s[0] = 3;
-- 
2.43.0


From 83f9179db7a38f73206808dcfe2bf2266574aa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:47 +0000
Subject: [PATCH 11/58] fix: Montgomery parameters with B = 0 were accepted and
 left a curve that aborts when copied or used

---
 src/ecurve.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecurve.c b/src/ecurve.c
index d009d77..a56ffae 100644
--- a/src/ecurve.c
+++ b/src/ecurve.c
@@ -1042,7 +1042,9 @@ mpz_t h, mpz_t Gx, mpz_t Gy, unsigned int bits){
     mpz_set(cv->G[0], Gx);
     mpz_set(cv->G[1], Gy);
     cv->bits = bits;
-    status = (mpECurve_point_check(cv, cv->G[0], cv->G[1]) == 0);
+    // B has no inverse when it is zero, which leaves no curve to compute on
+    status = (mpFp_cmp_ui(cv->coeff.mo.B, 0) == 0) ||
+        (mpECurve_point_check(cv, cv->G[0], cv->G[1]) == 0);
     return status;
 }
 
-- 
2.43.0


From 9507ca0c673efbd0caead8c4610ef660e5130e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:56 +0000
Subject: [PATCH 12/58] fix: ECDSA truncated the digest to whole octets instead
 of the bits of the order

---
 src/ecdsa.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 95f9b96..774abe6 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -77,6 +77,17 @@ void mpECDSASignatureScheme_clear(mpECDSASignatureScheme_t sscheme) {
     return;
 }
 
+// FIPS 186-4: the leftmost bits of the digest, as many as the order has
+static void _import_digest(mpz_t e, unsigned char *hash, mpECDSASignatureScheme_ptr sscheme) {
+    size_t nbits, hbits;
+
+    nbits = mpz_sizeinbase(sscheme->cvp->n, 2);
+    hbits = sscheme->H->hsz << 3;
+    mpz_import(e, sscheme->H->hsz, 1, 1, 1, 0, hash);
+    if (hbits > nbits) mpz_fdiv_q_2exp(e, e, hbits - nbits);
+    return;
+}
+
 int mpECDSASignature_init_Sign(mpECDSASignature_t sig, mpECDSASignatureScheme_t sscheme, mpFp_t sK, unsigned char *msg, size_t sz) {
     unsigned char *hash;
     mpFp_t k_n;
@@ -104,11 +115,7 @@ int mpECDSASignature_init_Sign(mpECDSASignature_t sig, mpECDSASignatureScheme_t
     mpECP_init(R, sscheme->cvp);
 
     sscheme->H->dohash(hash, msg, sz);
-    if (sscheme->nsz <= sscheme->H->hsz) {
-        mpz_import(e, sscheme->nsz, 1, 1, 1, 0, hash);
-    } else {
-        mpz_import(e, sscheme->H->hsz, 1, 1, 1, 0, hash);
-    }
+    _import_digest(e, hash, sscheme);
     free(hash);
     mpFp_set_mpz(e_n, e, sscheme->cvp->n);
 new_random:
@@ -182,11 +189,7 @@ int mpECDSASignature_verify_cmp(mpECDSASignature_t sig, mpECP_t pK, unsigned cha
     mpECP_init(Pq, sig->sscheme->cvp);
 
     sig->sscheme->H->dohash(hash, msg, sz);
-    if (sig->sscheme->nsz <= sig->sscheme->H->hsz) {
-        mpz_import(e, sig->sscheme->nsz, 1, 1, 1, 0, hash);
-    } else {
-        mpz_import(e, sig->sscheme->H->hsz, 1, 1, 1, 0, hash);
-    }
+    _import_digest(e, hash, sig->sscheme);
     free(hash);
     mpFp_set_mpz(e_n, e, sig->sscheme->cvp->n);
     mpFp_inv(w, sig->s);
-- 
2.43.0


From 93e417a51a230dc0d5e4a81f5d592ee591c01b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:56 +0000
Subject: [PATCH 13/58] fix: ECDSA signing could return r = 0 when the x
 coordinate is a multiple of the order

---
 src/ecdsa.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 774abe6..a3b09d0 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -124,9 +124,8 @@ new_random:
 
     mpECP_scalar_base_mul(R, sscheme->cv_G, k_n);
     mpz_set_mpECP_affine_x(r, R);
-    if (__GMP_UNLIKELY(mpz_cmp_ui(r, 0) == 0)) goto new_random;
-
     mpFp_set_mpz(r_n, r, sscheme->cvp->n);
+    if (__GMP_UNLIKELY(mpFp_cmp_ui(r_n, 0) == 0)) goto new_random;
     mpFp_mul(s_n, r_n, sK);
     mpFp_add(s_n, s_n, e_n);
     status = mpFp_inv(e_n, k_n);
-- 
2.43.0


From f661de8583c9b604c4be0c44be13bceccd7484c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:56 +0000
Subject: [PATCH 14/58] fix: ECDSA verification aborted when the public key
 belongs to another curve

---
 src/ecdsa.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index a3b09d0..ca5c787 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -175,6 +175,11 @@ int mpECDSASignature_verify_cmp(mpECDSASignature_t sig, mpECP_t pK, unsigned cha
     if ((mpFp_cmp_ui(sig->r, 0) == 0) || (mpFp_cmp_ui(sig->s, 0) == 0)) {
         return -1;
     }
+
+    // a key of another curve cannot have made the signature
+    if (mpECurve_cmp(pK->cvp, sig->sscheme->cvp) != 0) {
+        return -1;
+    }
     
     hash = (unsigned char *)malloc(sig->sscheme->H->hsz * sizeof(char));
 
-- 
2.43.0


From b6cfa3e8d09eae1f38b9e3f725a6bab51b595b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:56 +0000
Subject: [PATCH 15/58] fix: ECDSA verification could accept the point at
 infinity

---
 src/ecdsa.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index ca5c787..439775d 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -206,6 +206,8 @@ int mpECDSASignature_verify_cmp(mpECDSASignature_t sig, mpECP_t pK, unsigned cha
     mpFp_set_mpz(p_n, e, sig->sscheme->cvp->n);
 
     status = mpFp_cmp(p_n, sig->r);
+    // the point at infinity has no x coordinate, so it matches no signature
+    if (P->is_neutral) status = -1;
 
     mpECP_clear(Pq);
     mpECP_clear(P);
-- 
2.43.0


From 956236cc7989a56a92ad9e3c388ac8ec7e1e89aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 16/58] fix: ECDSA signing aborted when the private key is not
 a scalar of the curve

---
 src/ecdsa.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 439775d..7cc8dff 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -103,6 +103,9 @@ int mpECDSASignature_init_Sign(mpECDSASignature_t sig, mpECDSASignatureScheme_t
 
     if ((msg == NULL) || (sz == 0)) return -1;
 
+    // the private key is a scalar modulo the order
+    if (mpz_cmp(sK->fp->p, sscheme->cvp->n) != 0) return -1;
+
     hash = (unsigned char *)malloc(sscheme->H->hsz * sizeof(char));
     assert(hash != NULL);
 
-- 
2.43.0


From dd58288706dc175456816920e93d7a7a524a6f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 17/58] fix: ECDSA signature import accepted characters that
 are not hexadecimal digits

---
 src/ecdsa.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index 7cc8dff..d827584 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -29,6 +29,7 @@
 //OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 
 #include <assert.h>
+#include <ctype.h>
 #include <ecc/ecdsa.h>
 #include <ecc/ecpoint.h>
 #include <ecc/ecurve.h>
@@ -348,7 +349,10 @@ int mpECDSASignature_init_import_str(mpECDSASignature_t sig, mpECDSASignatureSch
     bbytes = (unsigned char *)malloc(bsz * sizeof(char));
     for (i = 0; i < bsz; i++) {
         int iread;
-        iread = sscanf(&ssig[i<<1], "%02hhX", &bbytes[i]);
+        iread = 0;
+        if (isxdigit((unsigned char)ssig[i<<1]) && isxdigit((unsigned char)ssig[(i<<1) + 1])) {
+            iread = sscanf(&ssig[i<<1], "%02hhX", &bbytes[i]);
+        }
         if (iread != 1) {
             memset(bbytes, 0, bsz);
             free(bbytes);
-- 
2.43.0


From 8dc3824965d6bf7a4337e579af7c44d80b0693b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:57 +0000
Subject: [PATCH 18/58] fix: Elgamal decryption aborted on ciphertexts whose
 points use different curve objects

---
 src/ecelgamal.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecelgamal.c b/src/ecelgamal.c
index 30083fc..9a2d5b3 100644
--- a/src/ecelgamal.c
+++ b/src/ecelgamal.c
@@ -62,7 +62,9 @@ int mpECElgamal_init_encrypt(mpECElgamalCiphertext_t ctxt, mpECP_t pK, mpECP_t p
 }
 
 int mpECElgamal_init_decrypt(mpECP_t ptxt, mpFp_t sK, mpECElgamalCiphertext_t ctxt) {
-    assert(ctxt->C->cvp == ctxt->D->cvp);
+    if (mpECurve_cmp(ctxt->C->cvp, ctxt->D->cvp) != 0) {
+        return -1;
+    }
     if (mpz_cmp(sK->fp->p, ctxt->C->cvp->n) != 0) {
         return -1;
     }
-- 
2.43.0


From 9f23050abe35fcfc4bf78b0a2fb88c2e630b13d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:08 +0000
Subject: [PATCH 19/58] fix: ECDSA signing lost the digest when it had to retry
 after s = 0

---
 src/ecdsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecdsa.c b/src/ecdsa.c
index d827584..ad7a4d3 100644
--- a/src/ecdsa.c
+++ b/src/ecdsa.c
@@ -132,9 +132,9 @@ new_random:
     if (__GMP_UNLIKELY(mpFp_cmp_ui(r_n, 0) == 0)) goto new_random;
     mpFp_mul(s_n, r_n, sK);
     mpFp_add(s_n, s_n, e_n);
-    status = mpFp_inv(e_n, k_n);
+    status = mpFp_inv(k_n, k_n);
     if (status != 0) goto new_random;
-    mpFp_mul(s_n, s_n, e_n);
+    mpFp_mul(s_n, s_n, k_n);
     if (__GMP_UNLIKELY(mpFp_cmp_ui(s_n, 0) == 0)) goto new_random;
 
     mpFp_init(sig->r, sscheme->cvp->n);
-- 
2.43.0


From 796a2a12381b4d357a7ae126cbafa39279970ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:13 +0000
Subject: [PATCH 20/58] fix: random numbers repeated in parent and child
 processes after a fork

---
 src/mpzurandom.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpzurandom.c b/src/mpzurandom.c
index 23eec45..2226653 100644
--- a/src/mpzurandom.c
+++ b/src/mpzurandom.c
@@ -50,6 +50,8 @@ void mpz_urandom(mpz_t rop, mpz_t rand_max) {
     if (_f_urandom == NULL) {
         _f_urandom = fopen("/dev/urandom", "rb");
         assert(_f_urandom != NULL);
+        // unbuffered, as buffered bytes would be handed out again after a fork
+        setvbuf(_f_urandom, NULL, _IONBF, 0);
         atexit(_close_f_urandom);
     }
     // bytes intentionally long to ensure uniformity, will truncate with modulo
-- 
2.43.0


From d48c9f24d70fa95228e80e1a6721fc3bdeb04c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:59 +0000
Subject: [PATCH 21/58] fix: reading coordinates or encoding a point modified
 it, which races when the point is shared between threads

---
 src/ecpoint.c | 63 +++++++++++++++++++++++++++------------------------
 1 file changed, 34 insertions(+), 29 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 42d1d8e..23a60d6 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -255,51 +255,53 @@ static inline void _transform_ws_to_mo_y(mpFp_t y, mpECP_t pt) {
     return;
 }
 
+// reading coordinates must not change pt, which may be shared between threads,
+// so the affine representation is calculated in a copy
+static void _mpECP_init_affine(mpECP_t apt, mpECP_t pt) {
+    mpECP_init(apt, pt->cvp);
+    mpECP_set(apt, pt);
+    _mpECP_to_affine(apt);
+}
+
 void mpFp_set_mpECP_affine_x(mpFp_t x, mpECP_t pt) {
-    _mpECP_to_affine(pt);
-    if (pt->cvp->type == EQTypeMontgomery) {
-        _transform_ws_to_mo_x(x, pt);
+    mpECP_t apt;
+    _mpECP_init_affine(apt, pt);
+    if (apt->cvp->type == EQTypeMontgomery) {
+        _transform_ws_to_mo_x(x, apt);
     } else {
-        mpFp_set(x, pt->x);
+        mpFp_set(x, apt->x);
     }
+    mpECP_clear(apt);
     return;
 }
 
 void mpFp_set_mpECP_affine_y(mpFp_t y, mpECP_t pt) {
-    _mpECP_to_affine(pt);
-    if (pt->cvp->type == EQTypeMontgomery) {
-        _transform_ws_to_mo_y(y, pt);
+    mpECP_t apt;
+    _mpECP_init_affine(apt, pt);
+    if (apt->cvp->type == EQTypeMontgomery) {
+        _transform_ws_to_mo_y(y, apt);
     } else {
-        mpFp_set(y, pt->y);
+        mpFp_set(y, apt->y);
     }
+    mpECP_clear(apt);
     return;
 }
 
 void mpz_set_mpECP_affine_x(mpz_t x, mpECP_t pt) {
-    _mpECP_to_affine(pt);
-    if (pt->cvp->type == EQTypeMontgomery) {
-        mpFp_t t;
-        mpFp_init_fp(t, pt->cvp->fp);
-        _transform_ws_to_mo_x(t, pt);
-        mpz_set_mpFp(x, t);
-        mpFp_clear(t);
-    } else {
-        mpz_set_mpFp(x, pt->x);
-    }
+    mpFp_t t;
+    mpFp_init_fp(t, pt->cvp->fp);
+    mpFp_set_mpECP_affine_x(t, pt);
+    mpz_set_mpFp(x, t);
+    mpFp_clear(t);
     return;
 }
 
 void mpz_set_mpECP_affine_y(mpz_t y, mpECP_t pt) {
-    _mpECP_to_affine(pt);
-    if (pt->cvp->type == EQTypeMontgomery) {
-        mpFp_t t;
-        mpFp_init_fp(t, pt->cvp->fp);
-        _transform_ws_to_mo_y(t, pt);
-        mpz_set_mpFp(y, t);
-        mpFp_clear(t);
-    } else {
-        mpz_set_mpFp(y, pt->y);
-    }
+    mpFp_t t;
+    mpFp_init_fp(t, pt->cvp->fp);
+    mpFp_set_mpECP_affine_y(t, pt);
+    mpz_set_mpFp(y, t);
+    mpFp_clear(t);
     return;
 }
 
@@ -556,8 +558,8 @@ void mpECP_out_str(char *s, mpECP_t pt, int compress) {
 void mpECP_out_bytes(unsigned char *s, mpECP_t pt, int compress) {
     int bytes;
     size_t blen;
+    mpECP_t apt;
 
-    _mpECP_to_affine(pt);
     bytes = _bytelen(pt->cvp->bits);
     if (pt->is_neutral) {
         int i;
@@ -568,6 +570,8 @@ void mpECP_out_bytes(unsigned char *s, mpECP_t pt, int compress) {
         }
         return;
     }
+    _mpECP_init_affine(apt, pt);
+    pt = apt;
     if (compress != 0) {
         mpz_t odd;
         mpz_init(odd);
@@ -638,6 +642,7 @@ void mpECP_out_bytes(unsigned char *s, mpECP_t pt, int compress) {
         mpz_clear(yz);
     }
     mpz_clear(xz);
+    mpECP_clear(apt);
     //printf("exported as %s\n", s);
     return;
 }
-- 
2.43.0


From d82def3b8eb518e29f02830128fccdbe869d4017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:01 +0000
Subject: [PATCH 22/58] fix: concurrent first use of a modulus raced on the
 list of known fields

---
 src/field.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/field.c b/src/field.c
index 3b55040..72ab1db 100644
--- a/src/field.c
+++ b/src/field.c
@@ -32,6 +32,7 @@
 #include <ecc/field.h>
 #include <ecc/mpzurandom.h>
 #include <gmp.h>
+#include <pthread.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -89,6 +90,7 @@ typedef struct __mpFp_field_list_t {
 } _mpFp_field_list_t;
 
 static _mpFp_field_list_t *_static_field_list = NULL;
+static pthread_mutex_t _static_field_list_lock = PTHREAD_MUTEX_INITIALIZER;
 
 static void _cleanup_field_list(void) {
     _mpFp_field_list_t *head;
@@ -116,6 +118,7 @@ mpFp_field_ptr _mpFp_field_lookup(mpz_t p) {
     // definition of contstant and recomile library
     assert ((psz * 2) <= _MPFP_MAX_LIMBS);
 
+    pthread_mutex_lock(&_static_field_list_lock);
     if (_static_field_list == NULL) {
         atexit(&_cleanup_field_list);
     }
@@ -124,6 +127,7 @@ mpFp_field_ptr _mpFp_field_lookup(mpz_t p) {
     while (*l != NULL) {
         l_this = *l;
         if (mpz_cmp(l_this->fp->p, p) == 0) {
+            pthread_mutex_unlock(&_static_field_list_lock);
             return l_this->fp;
         }
         l = &(l_this->next);
@@ -136,6 +140,7 @@ mpFp_field_ptr _mpFp_field_lookup(mpz_t p) {
     mpFp_field_init(l_this->fp);
     mpFp_field_set_mpz(l_this->fp, p);
     l_this->next = NULL;
+    pthread_mutex_unlock(&_static_field_list_lock);
     //gmp_printf("created field Fp: p = 0x%ZX\n", p);
     return l_this->fp;
 }
-- 
2.43.0


From bc5d581d85f936958f96782f9eac62644883a2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:01 +0000
Subject: [PATCH 23/58] fix: concurrent first use of the entropy source raced
 on opening it

---
 src/mpzurandom.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mpzurandom.c b/src/mpzurandom.c
index 2226653..7016e3f 100644
--- a/src/mpzurandom.c
+++ b/src/mpzurandom.c
@@ -31,10 +31,12 @@
 #include <assert.h>
 #include <ecc/mpzurandom.h>
 #include <gmp.h>
+#include <pthread.h>
 #include <stdio.h>
 #include <stdlib.h>
 
 static FILE *_f_urandom = NULL;
+static pthread_mutex_t _f_urandom_lock = PTHREAD_MUTEX_INITIALIZER;
 
 static void _close_f_urandom(void) {
     if (_f_urandom != NULL) {
@@ -47,6 +49,7 @@ static void _close_f_urandom(void) {
 void mpz_urandom(mpz_t rop, mpz_t rand_max) {
     int bytes, sz_read;
     char *buffer;
+    pthread_mutex_lock(&_f_urandom_lock);
     if (_f_urandom == NULL) {
         _f_urandom = fopen("/dev/urandom", "rb");
         assert(_f_urandom != NULL);
@@ -54,6 +57,7 @@ void mpz_urandom(mpz_t rop, mpz_t rand_max) {
         setvbuf(_f_urandom, NULL, _IONBF, 0);
         atexit(_close_f_urandom);
     }
+    pthread_mutex_unlock(&_f_urandom_lock);
     // bytes intentionally long to ensure uniformity, will truncate with modulo
     bytes = ((mpz_sizeinbase(rand_max,2) + 7) >> 3) * 2;
     buffer = (char *)malloc((bytes) * sizeof(char));
-- 
2.43.0


From 0022552d5f9b9d5564e9d989d512095957bb8d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:01 +0000
Subject: [PATCH 24/58] fix: concurrent base multiplication raced on preparing
 the table of a shared point

---
 src/ecpoint.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 23a60d6..3da824e 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -34,6 +34,7 @@
 #include <ecc/ecurve.h>
 #include <ecc/field.h>
 #include <gmp.h>
+#include <pthread.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -1508,14 +1509,17 @@ void mpECP_scalar_base_mul_setup(mpECP_t pt) {
     return;
 }
 
+// pt may be shared between threads
+static pthread_mutex_t _base_mul_setup_lock = PTHREAD_MUTEX_INITIALIZER;
+
 void mpECP_scalar_base_mul(mpECP_t rpt, mpECP_t pt, mpFp_t sc) {
     int j, nlevels, levelsz;
     mpz_t s, kmpz;
     mpECP_t a;
     assert (mpz_cmp(sc->fp->p, pt->cvp->n) == 0);
-    if (pt->base_bits == 0) {
-        mpECP_scalar_base_mul_setup(pt);
-    }
+    pthread_mutex_lock(&_base_mul_setup_lock);
+    mpECP_scalar_base_mul_setup(pt);
+    pthread_mutex_unlock(&_base_mul_setup_lock);
     mpz_init(s);
     mpz_init(kmpz);
     mpECP_init(a, pt->cvp);
-- 
2.43.0


From 5fcd7df289dc171e3b5679b44fed51701ba32e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:01 +0000
Subject: [PATCH 25/58] fix: shrinking a block with safe-clean left the
 given-up part uncleaned

---
 src/safememory.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/safememory.c b/src/safememory.c
index 0770740..0554176 100644
--- a/src/safememory.c
+++ b/src/safememory.c
@@ -38,6 +38,8 @@ void *_safe_clean_realloc(void *old, size_t oldsz, size_t newsz) {
     void *ret;
 
     if (__GMP_LIKELY(newsz <= oldsz)) {
+        // the caller will not know about the tail when it frees the block
+        memset((char *)old + newsz, 0, oldsz - newsz);
         return old;
     }
 
-- 
2.43.0


From afc6de644cd0af7aaeb26836175812e7e79a44c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:05 +0000
Subject: [PATCH 26/58] fix: the compiler dropped the cleaning of blocks freed
 with safe-clean enabled

---
 src/safememory.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/safememory.c b/src/safememory.c
index 0554176..3e1ea54 100644
--- a/src/safememory.c
+++ b/src/safememory.c
@@ -34,6 +34,10 @@
 #include <string.h>
 #include <stdlib.h>
 
+// called through a volatile pointer, as the compiler would otherwise be entitled
+// to drop a memset of memory which is freed right afterwards
+static void *(*const volatile _clean)(void *, int, size_t) = memset;
+
 void *_safe_clean_realloc(void *old, size_t oldsz, size_t newsz) {
     void *ret;
 
@@ -50,14 +54,14 @@ void *_safe_clean_realloc(void *old, size_t oldsz, size_t newsz) {
     }
 
     memcpy(ret, old, oldsz);
-    memset(old, 0, oldsz);
+    _clean(old, 0, oldsz);
     free(old);
 
     return ret;
 }
 
 void _safe_clean_free(void *old, size_t oldsz) {
-    memset(old, 0, oldsz);
+    _clean(old, 0, oldsz);
     free (old);
 }
 
-- 
2.43.0


From d01392b7b546971a1d6fbb63fd655d8c6add4186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:22 +0000
Subject: [PATCH 27/58] fix: released memory kept the random bytes that nonces
 and private keys were made of

---
 src/mpzurandom.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mpzurandom.c b/src/mpzurandom.c
index 7016e3f..e9d0bd2 100644
--- a/src/mpzurandom.c
+++ b/src/mpzurandom.c
@@ -30,6 +30,7 @@
 
 #include <assert.h>
 #include <ecc/mpzurandom.h>
+#include <ecc/safememory.h>
 #include <gmp.h>
 #include <pthread.h>
 #include <stdio.h>
@@ -65,6 +66,7 @@ void mpz_urandom(mpz_t rop, mpz_t rand_max) {
     assert(sz_read == bytes);
     mpz_import(rop, sz_read, 1, sizeof(char), 0, 0, buffer);
     mpz_mod(rop, rop, rand_max);
-    free(buffer);
+    // the random scalar could be recalculated from the bytes it was made of
+    _safe_clean_free(buffer, bytes);
     return;
 }
-- 
2.43.0


From 99d2d8072f57b33812b3b50d01c23a92989762b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:47 +0000
Subject: [PATCH 28/58] fix: mpFp_sqrt aborted for the modulus 2 and for moduli
 that are not prime

---
 src/field.c | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/field.c b/src/field.c
index 72ab1db..230681d 100644
--- a/src/field.c
+++ b/src/field.c
@@ -680,6 +680,12 @@ int mpFp_sqrt(mpFp_t rop, mpFp_t op) {
     mpz_t t, q, opi;
     mpz_init(opi);
     mpz_set_mpFp(opi, op);
+    // every element of GF(2) is its own square root
+    if (mpz_cmp_ui(op->fp->p, 2) <= 0) {
+        mpFp_set(rop, op);
+        mpz_clear(opi);
+        return 0;
+    }
     // determine whether i is a quadratic residue (mod p)
     leg_op = mpz_legendre(opi, op->fp->p);
     if (leg_op < 0) {
@@ -690,6 +696,11 @@ int mpFp_sqrt(mpFp_t rop, mpFp_t op) {
         mpz_clear(opi);
         return 0;
     }
+    // an even or square modulus is no prime, the search below might not end
+    if (mpz_even_p(op->fp->p) || mpz_perfect_square_p(op->fp->p)) {
+        mpz_clear(opi);
+        return -1;
+    }
     mpz_init(t);
     mpz_init(q);
 
@@ -740,6 +751,17 @@ int mpFp_sqrt(mpFp_t rop, mpFp_t op) {
                 mpz_powm_ui(z, z, 2, op->fp->p);
                 //mpz_add_ui(i, i, 1); 
             }
+            if (mpz_cmp_ui(z, 1) != 0) {
+                // cannot happen if the modulus is prime
+                mpz_clear(b);
+                mpz_clear(r);
+                mpz_clear(c);
+                mpz_clear(z);
+                mpz_clear(q);
+                mpz_clear(t);
+                mpz_clear(opi);
+                return -1;
+            }
             // b = c**(2**(m-i-1)), the exponent can exceed any machine word
             mpz_set_ui(b, 0);
             mpz_setbit(b, m - i - 1);
-- 
2.43.0


From 861b2c5e71f43737b6b74b0444adeec7335c2993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:13 +0000
Subject: [PATCH 29/58] fix: curves were accepted with a field or order the
 library cannot compute with

---
 src/ecurve.c | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/src/ecurve.c b/src/ecurve.c
index a56ffae..175ef74 100644
--- a/src/ecurve.c
+++ b/src/ecurve.c
@@ -815,6 +815,22 @@ void mpECurve_set(mpECurve_t rop, mpECurve_t op){
     return;
 }
 
+// field elements are limited to 1024 bits (see field.c)
+#define _MPECURVE_MAX_BITS  (1024)
+
+// p must be a prime which fits a field element, and bits must have room for it
+static int _field_usable(mpz_t p, unsigned int bits) {
+    if (mpz_cmp_ui(p, 3) <= 0) return 0;
+    if (mpz_sizeinbase(p, 2) > _MPECURVE_MAX_BITS) return 0;
+    if ((bits < mpz_sizeinbase(p, 2)) || (bits > _MPECURVE_MAX_BITS)) return 0;
+    return mpz_probab_prime_p(p, 2) != 0;
+}
+
+// scalars are field elements modulo n
+static int _order_usable(mpz_t n) {
+    return (mpz_cmp_ui(n, 1) > 0) && (mpz_sizeinbase(n, 2) <= _MPECURVE_MAX_BITS);
+}
+
 int mpECurve_set_str_ws(mpECurve_t cv, char *p, char *a, char *b, char *n,
 char *h, char *Gx, char *Gy, unsigned int bits){
     int status;
@@ -822,7 +838,16 @@ char *h, char *Gx, char *Gy, unsigned int bits){
     mpz_t t;
 
     mpz_init(t);
+    mpz_set_str(t, n, 0);
+    if (!_order_usable(t)) {
+        mpz_clear(t);
+        return -1;
+    }
     mpz_set_str(t, p, 0);
+    if (!_field_usable(t, bits)) {
+        mpz_clear(t);
+        return -1;
+    }
     fp = _mpFp_field_lookup(t);
     cv->fp = fp;
     assert(fp != NULL);
@@ -852,7 +877,16 @@ char *h, char *Gx, char *Gy, unsigned int bits){
     mpz_t t;
 
     mpz_init(t);
+    mpz_set_str(t, n, 0);
+    if (!_order_usable(t)) {
+        mpz_clear(t);
+        return -1;
+    }
     mpz_set_str(t, p, 0);
+    if (!_field_usable(t, bits)) {
+        mpz_clear(t);
+        return -1;
+    }
     fp = _mpFp_field_lookup(t);
     cv->fp = fp;
     if (cv->type != EQTypeEdwards) {
@@ -914,7 +948,16 @@ char *h, char *Gx, char *Gy, unsigned int bits){
     mpz_t t;
 
     mpz_init(t);
+    mpz_set_str(t, n, 0);
+    if (!_order_usable(t)) {
+        mpz_clear(t);
+        return -1;
+    }
     mpz_set_str(t, p, 0);
+    if (!_field_usable(t, bits)) {
+        mpz_clear(t);
+        return -1;
+    }
     fp = _mpFp_field_lookup(t);
     cv->fp = fp;
     if (cv->type != EQTypeTwistedEdwards) {
@@ -941,6 +984,7 @@ mpz_t h, mpz_t Gx, mpz_t Gy, unsigned int bits){
     int status;
     mpFp_field_ptr fp;
 
+    if (!_field_usable(p, bits) || !_order_usable(n)) return -1;
     fp = _mpFp_field_lookup(p);
     cv->fp = fp;
     if (cv->type != EQTypeShortWeierstrass) {
@@ -964,6 +1008,7 @@ mpz_t h, mpz_t Gx, mpz_t Gy, unsigned int bits){
     int status;
     mpFp_field_ptr fp;
 
+    if (!_field_usable(p, bits) || !_order_usable(n)) return -1;
     fp = _mpFp_field_lookup(p);
     cv->fp = fp;
     if (cv->type != EQTypeEdwards) {
@@ -987,6 +1032,7 @@ mpz_t h, mpz_t Gx, mpz_t Gy, unsigned int bits){
     int status;
     mpFp_field_ptr fp;
 
+    if (!_field_usable(p, bits) || !_order_usable(n)) return -1;
     fp = _mpFp_field_lookup(p);
     _mpECurve_clear_coeff(cv);
     cv->fp = fp;
@@ -1053,6 +1099,7 @@ mpz_t h, mpz_t Gx, mpz_t Gy, unsigned int bits){
     int status;
     mpFp_field_ptr fp;
 
+    if (!_field_usable(p, bits) || !_order_usable(n)) return -1;
     fp = _mpFp_field_lookup(p);
     cv->fp = fp;
     if (cv->type != EQTypeTwistedEdwards) {
-- 
2.43.0


From d8914126a23ba4580cc1cc541b996738bd941724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:36 +0000
Subject: [PATCH 30/58] fix: integers of 2048 bits and more overflowed a buffer
 of the Python binding or were refused

---
 python/pygmplong.c | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/python/pygmplong.c b/python/pygmplong.c
index b342e65..9fd8551 100644
--- a/python/pygmplong.c
+++ b/python/pygmplong.c
@@ -32,10 +32,8 @@
 #include <pygmplong.h>
 #include <Python.h>
 
-#define _MPFP_MAX_LIMBS   (32)
-
 int _pylong_to_mpz(PyLongObject *pobj, mpz_t pmpz) {
-	mp_limb_t pdata[_MPFP_MAX_LIMBS];
+	unsigned char *pdata;
 	size_t psz;
 	int status;
 	int negative;
@@ -53,7 +51,9 @@ int _pylong_to_mpz(PyLongObject *pobj, mpz_t pmpz) {
 	//printf("psz = %d\n", psz);
 	psz >>= 3;
 
-	if (psz > sizeof(pdata)) {
+	// one more byte for the sign
+	pdata = (unsigned char *)malloc(psz + 1);
+	if (pdata == NULL) {
 		return -1;
 	}
 	
@@ -70,6 +70,8 @@ int _pylong_to_mpz(PyLongObject *pobj, mpz_t pmpz) {
 	//}
 
 	if (status != 0) {
+		PyErr_Clear();
+		free(pdata);
 		return -1;
 	}
 
@@ -78,7 +80,7 @@ int _pylong_to_mpz(PyLongObject *pobj, mpz_t pmpz) {
 	
 	// take 1's complement if negative
 	if (negative) {
-		int i;
+		size_t i;
 		for (i = 0; i <= psz; i++) {
 			((unsigned char *)pdata)[i] ^= 0xFF;
 		}
@@ -86,6 +88,7 @@ int _pylong_to_mpz(PyLongObject *pobj, mpz_t pmpz) {
 
 	// convert bytes to mpz, -1 implies little endian (wordwise and bytewise), 0 implies no "nails"
 	mpz_import(pmpz, psz+1, -1, sizeof(unsigned char), -1, 0, (void *)pdata);
+	free(pdata);
 
 	// convert to 2's complement and negate 	
 	if (negative) {
@@ -97,7 +100,7 @@ int _pylong_to_mpz(PyLongObject *pobj, mpz_t pmpz) {
 }
 
 int _pylong_to_mpz_unsigned(PyLongObject *pobj, mpz_t pmpz) {
-	mp_limb_t pdata[_MPFP_MAX_LIMBS];
+	unsigned char *pdata;
 	size_t psz;
 	int status;
 
@@ -113,7 +116,9 @@ int _pylong_to_mpz_unsigned(PyLongObject *pobj, mpz_t pmpz) {
 	psz = _PyLong_NumBits((PyObject*)pobj);
 	psz >>= 3;
 
-	if (psz > sizeof(pdata)) {
+	// one more byte for the sign
+	pdata = (unsigned char *)malloc(psz + 1);
+	if (pdata == NULL) {
 		return -1;
 	}
 
@@ -121,26 +126,36 @@ int _pylong_to_mpz_unsigned(PyLongObject *pobj, mpz_t pmpz) {
 	status = _PyLong_AsByteArray(pobj, (unsigned char *)pdata, psz+1, 1, 0);
 
 	if (status != 0) {
+		PyErr_Clear();
+		free(pdata);
 		return -1;
 	}
 
 	// convert bytes to mpz, -1 implies little endian (wordwise and bytewise), 0 implies no "nails"
 	mpz_import(pmpz, psz+1, -1, sizeof(unsigned char), -1, 0, (void *)pdata);
+	free(pdata);
 	
 	return 0;
 }
 
 PyObject *_mpz_to_pylong(mpz_t pmpz) {
-	mp_limb_t pdata[_MPFP_MAX_LIMBS];
+	unsigned char *pdata;
 	size_t countp;
+	PyObject *p;
 
-	countp = sizeof(pdata);
+	countp = mpz_size(pmpz) * sizeof(mp_limb_t) + 1;
+	pdata = (unsigned char *)malloc(countp);
+	if (pdata == NULL) {
+		return PyErr_NoMemory();
+	}
 
 	mpz_export((void *)pdata, &countp, -1, sizeof(unsigned char), -1, 0, pmpz);
 
 	// convert from bytes, 1 implies little endian, 0 implies unsigned
 	// note, the mpz zero repr (no data written to pdata and countp=0 is correctly handled)
-	return _PyLong_FromByteArray((unsigned char*)pdata, countp, 1, (pmpz->_mp_size < 0));
+	p = _PyLong_FromByteArray(pdata, countp, 1, 0);
+	free(pdata);
+	return p;
 }
 
 PyObject *_mpFp_to_pylong(mpFp_t pFp) {
-- 
2.43.0


From 1ef70002637be7e287dc5a57c8e0ecc5da091054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:07 +0000
Subject: [PATCH 31/58] fix: comparing elements of different fields aborted the
 Python interpreter

---
 python/pyfield.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/pyfield.c b/python/pyfield.c
index 4e0ad91..7cab58c 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -430,12 +430,14 @@ static PyObject *FieldElement_richcompare(PyObject *a, PyObject *b, int op) {
 		}
 		switch (op) {
 		case Py_EQ:
-			if (mpFp_cmp(((FieldElement *)a)->fe, ((FieldElement *)b)->fe) == 0) {
+			if ((((FieldElement *)a)->fe->fp == ((FieldElement *)b)->fe->fp) &&
+				(mpFp_cmp(((FieldElement *)a)->fe, ((FieldElement *)b)->fe) == 0)) {
 				result = 1;
 			}
 			break;
 		case Py_NE:
-			if (mpFp_cmp(((FieldElement *)a)->fe, ((FieldElement *)b)->fe) != 0) {
+			if ((((FieldElement *)a)->fe->fp != ((FieldElement *)b)->fe->fp) ||
+				(mpFp_cmp(((FieldElement *)a)->fe, ((FieldElement *)b)->fe) != 0)) {
 				result = 1;
 			}
 			break;
-- 
2.43.0


From b86503b769c13b0d59b71448951224a232fd19bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:07 +0000
Subject: [PATCH 32/58] fix: repr of a Python field element read limbs the
 value does not have

---
 python/pyfield.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pyfield.c b/python/pyfield.c
index 7cab58c..9a5104f 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -494,7 +494,7 @@ static PyObject *FieldElement_repr(PyObject *a) {
 	PyObject *rep;
 	assert(PyObject_TypeCheck(a, &FieldElementType) != 0);
 	
-	i = _mpz_to_pylong(((FieldElement *)a)->fe->i);
+	i = _mpFp_to_pylong(((FieldElement *)a)->fe);
 	assert(i != NULL);
 	p = _mpz_to_pylong(((FieldElement *)a)->fe->fp->p);
 	assert(p != NULL);
-- 
2.43.0


From f5d77a3bad8ea8fb6cee92e170120a28445b4639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:07 +0000
Subject: [PATCH 33/58] fix: a modulus of zero or of more than 1024 bits killed
 the Python interpreter

---
 python/pyfield.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/python/pyfield.c b/python/pyfield.c
index 9a5104f..a6c2365 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -47,6 +47,12 @@ static inline void mpFp_realloc(mpFp_t c) {
     }
 }
 
+// the library aborts for a modulus which is zero or has more than half as
+// many bits as _MPFP_MAX_LIMBS
+static int _modulus_usable(mpz_t p) {
+	return (mpz_sgn(p) > 0) && (mpz_size(p) * 2 <= _MPFP_MAX_LIMBS);
+}
+
 PyDoc_STRVAR(FieldElement__doc__,
 "FieldElement implements a prime field element type.\n");
 
@@ -86,6 +92,11 @@ static int FieldElement_init(FieldElement *self, PyObject *args, PyObject *kwarg
 		mpz_clear(pmpz);
 		return -1;
 	}
+	if (!_modulus_usable(pmpz)) {
+		PyErr_SetString(PyExc_ValueError, "FieldElement_init modulus is zero or too large");
+		mpz_clear(pmpz);
+		return -1;
+	}
 
 	mpz_init(impz);
     status = _pylong_to_mpz(i, impz);
@@ -381,6 +392,11 @@ static PyObject *FieldElement_urandom(PyObject *none, PyObject *plong) {
 		mpz_clear(pmpz);
 		return NULL;
 	}
+	if (!_modulus_usable(pmpz)) {
+		PyErr_SetString(PyExc_ValueError, "urandom modulus is zero or too large");
+		mpz_clear(pmpz);
+		return NULL;
+	}
 
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
     mpFp_urandom(rop->fe, pmpz);
-- 
2.43.0


From 821fe73982a29a6394709933f24097a59204878e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:31 +0000
Subject: [PATCH 34/58] fix: subtracting a field element from something not a
 number crashed the Python interpreter

---
 python/pyfield.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/pyfield.c b/python/pyfield.c
index a6c2365..8e003dd 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -233,9 +233,14 @@ static PyObject *FieldElement_op_sub(FieldElement *op1, FieldElement *op2) {
 		if(PyObject_TypeCheck((PyObject *)op2, &FieldElementType)) {
 			PyObject *nop1;
 			PyObject *nop2;
+			if(!PyLong_Check((PyObject *)op1)) {
+				Py_RETURN_NOTIMPLEMENTED;
+			}
 			nop1 = (Py_TYPE(op1))->tp_as_number->nb_negative((PyObject *)op1);
 			nop2 = (Py_TYPE(op2))->tp_as_number->nb_negative((PyObject *)op2);
 			if ((nop1 == NULL) || (nop2 == NULL)) {
+				Py_XDECREF(nop1);
+				Py_XDECREF(nop2);
 				return NULL;
 			}
 			rop = (FieldElement *)FieldElement_op_sub((FieldElement *)nop2, (FieldElement *)nop1);
-- 
2.43.0


From 63e7bf63edebc6d35f6aa629812d0eb6341342cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:51 +0000
Subject: [PATCH 35/58] fix: the Python binding lost memory and reference
 counts in many of its calls

---
 python/pycurve.c | 9 ++++++---
 python/pyfield.c | 5 ++++-
 python/pypoint.c | 9 ++++++---
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/python/pycurve.c b/python/pycurve.c
index 41deffc..5613d5e 100644
--- a/python/pycurve.c
+++ b/python/pycurve.c
@@ -72,6 +72,7 @@ static int ECurve_init(ECurve *self, PyObject *args, PyObject *kwargs) {
     status = mpECurve_set_named(self->ec, name);
     
     if (status != 0) {
+		mpECurve_clear(self->ec);
 		PyErr_SetString(PyExc_ValueError, "Unable to find curve matching name");
 		return -1;
     }
@@ -504,6 +505,7 @@ static PyObject *ECurve_list_curve_names(PyObject *type, PyObject *none) {
     char **list;
     PyObject *clist;
     int i = 0;
+    int n = 0;
 
     assert(none == NULL);
     
@@ -522,11 +524,14 @@ static PyObject *ECurve_list_curve_names(PyObject *type, PyObject *none) {
         Py_DECREF(pstr);
         if (status != 0) {
             Py_DECREF(clist);
-            return NULL;
+            clist = NULL;
+            break;
         }
 
         i++;
     }
+    for (n = 0; list[n] != NULL; n++) free(list[n]);
+    free(list);
     return clist;
 }
 
@@ -627,10 +632,8 @@ static PyObject *ECurve_getattr(PyObject *o, char *attr_name) {
 
         status = PyTuple_SetItem(t, 0, gx);
         assert(status == 0);
-        Py_INCREF(gx);
         status = PyTuple_SetItem(t, 1, gy);
         assert(status == 0);
-        Py_INCREF(gy);
 
         return t;
     }
diff --git a/python/pyfield.c b/python/pyfield.c
index 8e003dd..78e06fc 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -354,6 +354,7 @@ static PyObject *FieldElement_op_multiplicative_inverse(FieldElement *op1, PyObj
     status = mpFp_inv(rop->fe, op1->fe);
     if (__GMP_UNLIKELY(status != 0)) {
 		mpz_clear(rop->fe->i);
+		Py_DECREF(rop);
     	Py_RETURN_NONE;
     }
 	rop->ready = 1;
@@ -371,6 +372,7 @@ static PyObject *FieldElement_op_sqrt(FieldElement *op1, PyObject *none) {
     status = mpFp_sqrt(rop->fe, op1->fe);
     if (status != 0) {
 		mpz_clear(rop->fe->i);
+		Py_DECREF(rop);
     	Py_RETURN_NONE;
     }
 	rop->ready = 1;
@@ -425,8 +427,8 @@ static PyObject *FieldElement_richcompare(PyObject *a, PyObject *b, int op) {
 		
 		mpz_init(bmpz);
 		status = _pylong_to_mpz((PyLongObject *)b, bmpz);
-		assert(status == 0);
 		if (status != 0) {
+			mpz_clear(bmpz);
 			PyErr_SetString(PyExc_TypeError, "Error converting integer to mpz_t");
 			return NULL;
 		}
@@ -442,6 +444,7 @@ static PyObject *FieldElement_richcompare(PyObject *a, PyObject *b, int op) {
 			}
 			break;
 		default:
+			mpz_clear(bmpz);
 			Py_RETURN_NOTIMPLEMENTED;
 		}
 		mpz_clear(bmpz);
diff --git a/python/pypoint.c b/python/pypoint.c
index 4a9d2d8..865ca7d 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -244,6 +244,7 @@ static PyObject *ECPoint_binary_full(PyObject *self) {
 static PyObject *ECPoint_repr(PyObject *self) {
     PyObject *pointstr;
     PyObject *cvstr;
+    PyObject *rep;
     ECPoint *ecself;
 
 	assert(PyObject_TypeCheck(self, &ECPointType) != 0);
@@ -253,7 +254,10 @@ static PyObject *ECPoint_repr(PyObject *self) {
 
     cvstr = Py_TYPE((PyObject *)(ecself->cv))->tp_repr((PyObject *)(ecself->cv));
 
-	return PyUnicode_FromFormat("ECC.ECPoint(%S, \'%S\')", cvstr, pointstr);
+	rep = PyUnicode_FromFormat("ECC.ECPoint(%S, \'%S\')", cvstr, pointstr);
+	Py_DECREF(cvstr);
+	Py_DECREF(pointstr);
+	return rep;
 }
 
 // deallocates the object when done
@@ -386,6 +390,7 @@ static PyObject *ECPoint_op_mul(PyObject *op1, PyObject *op2) {
 	} else if(PyObject_TypeCheck((PyObject *)op2, &FieldElementType)) {
 	    mpz_set_mpFp(scalar, ((FieldElement *)op2)->fe);
     } else {
+		mpz_clear(scalar);
 		Py_RETURN_NOTIMPLEMENTED;
 	}
 
@@ -452,10 +457,8 @@ static PyObject *ECPoint_affine(PyObject *p, PyObject *none) {
 
     status = PyTuple_SetItem(rt, 0, rx);
     assert(status == 0);
-    Py_INCREF(rx);
     status = PyTuple_SetItem(rt, 1, ry);
     assert(status == 0);
-    Py_INCREF(ry);
 
 	return (PyObject *)rt;
 }
-- 
2.43.0


From 67cc6e9f1b6fdffd16acac346ae344245f2c0a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:14 +0000
Subject: [PATCH 36/58] fix: refused initial values of Python points leaked,
 invalid strings crashed or were cut short

---
 python/pycurve.c     |  1 +
 python/pyecdsa.c     |  7 ++++++-
 python/pyecelgamal.c |  1 +
 python/pypoint.c     | 30 +++++++++++++++++++++---------
 4 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/python/pycurve.c b/python/pycurve.c
index 5613d5e..b889a1e 100644
--- a/python/pycurve.c
+++ b/python/pycurve.c
@@ -710,6 +710,7 @@ static PyObject *ECurve_getattro(PyObject *o, PyObject *attr_name) {
 
 	assert(PyUnicode_Check(attr_name) != 0);
     attr_nm_c = PyUnicode_AsUTF8(attr_name);
+    if (attr_nm_c == NULL) return NULL;
 
     return ECurve_getattr(o, attr_nm_c);
 }
diff --git a/python/pyecdsa.c b/python/pyecdsa.c
index 00af979..e4b351d 100644
--- a/python/pyecdsa.c
+++ b/python/pyecdsa.c
@@ -157,7 +157,12 @@ static int ECDSASignature_init(ECDSASignature *self, PyObject *args, PyObject *k
             return -1;
         }
 
-        sstr = PyUnicode_AsUTF8(ssbytes);
+        sstr = (char *)PyUnicode_AsUTF8AndSize(ssbytes, &bsz);
+        if (sstr == NULL) return -1;
+        if (strlen(sstr) != (size_t)bsz) {
+            PyErr_SetString(PyExc_ValueError, "ECDSASignature_init: cannot initialize from string object");
+            return -1;
+        }
 
         status =  mpECDSASignature_init_import_str(self->sig, ss->sscheme, sstr);
         if (status != 0) {
diff --git a/python/pyecelgamal.c b/python/pyecelgamal.c
index 933e3a7..5d3477d 100644
--- a/python/pyecelgamal.c
+++ b/python/pyecelgamal.c
@@ -300,6 +300,7 @@ static PyObject *ECElgamalCiphertext_getattro(PyObject *o, PyObject *attr_name)
 
 	assert(PyUnicode_Check(attr_name) != 0);
     attr_nm_c = PyUnicode_AsUTF8(attr_name);
+    if (attr_nm_c == NULL) return NULL;
 
     return ECElgamalCiphertext_getattr(o, attr_nm_c);
 }
diff --git a/python/pypoint.c b/python/pypoint.c
index 865ca7d..06dc11c 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -93,7 +93,7 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
 
             if (PyTuple_Size(initial) != 2) {
         		PyErr_SetString(PyExc_TypeError, "initializer tuple size mismatch");
-        		return -1;
+        		goto InitError;
             }
             
             ix = PyTuple_GetItem(initial, 0);
@@ -106,7 +106,7 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
 
                 if (!PyLong_Check(iy)) {
         		    PyErr_SetString(PyExc_TypeError, "initializer tuple type mismatch");
-        		    return -1;
+        		    goto InitError;
                 }
                 
                 mpz_init(ixmpz);
@@ -122,13 +122,13 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
                 if ((!PyObject_TypeCheck(ix, &FieldElementType)) || 
                     (!PyObject_TypeCheck(iy, &FieldElementType))) {
         		    PyErr_SetString(PyExc_TypeError, "initializer tuple type mismatch");
-        		    return -1;
+        		    goto InitError;
                 }
 
                 if ((((FieldElement *)ix)->fe->fp != ((ECurve *)curve)->ec->fp) || 
                     (((FieldElement *)iy)->fe->fp != ((ECurve *)curve)->ec->fp)) {
         		    PyErr_SetString(PyExc_ValueError, "initializer tuple field order mismatch");
-        		    return -1;
+        		    goto InitError;
                 }
 
                 mpECP_set_mpFp(self->ecp, ((FieldElement *)ix)->fe,
@@ -137,12 +137,18 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
         } else {
             if (PyUnicode_Check(initial)) {
                 char *buffer;
+                Py_ssize_t bsize;
 
-                buffer = (char *)PyUnicode_AsUTF8(initial);
+                buffer = (char *)PyUnicode_AsUTF8AndSize(initial, &bsize);
+                if (buffer == NULL) goto InitError;
+                if (strlen(buffer) != (size_t)bsize) {
+            		PyErr_SetString(PyExc_ValueError, "invalid curve point");
+            		goto InitError;
+                }
                 status = mpECP_set_str(self->ecp,buffer,((ECurve *)curve)->ec);
                 if (status != 0) {
             		PyErr_SetString(PyExc_ValueError, "invalid curve point");
-            		return -1;
+            		goto InitError;
                 }
             } else if (PyBytes_Check(initial)) { 
             	unsigned char *buffer;
@@ -151,16 +157,16 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
                 status = PyBytes_AsStringAndSize(initial, (char **)&buffer, &bsize);
                 if (status != 0) {
             		PyErr_SetString(PyExc_ValueError, "unable to convert bytes initializer");
-            		return -1;
+            		goto InitError;
                 }
                 status = mpECP_set_bytes(self->ecp,buffer, (size_t)bsize, ((ECurve *)curve)->ec);
                 if (status != 0) {
             		PyErr_SetString(PyExc_ValueError, "invalid curve point");
-            		return -1;
+            		goto InitError;
                 }
             } else {
         		PyErr_SetString(PyExc_TypeError, "initializer type mismatch, expected unicode string");
-        		return -1;
+        		goto InitError;
                 //char *buffer;
                 //int len;
                 //if (!PyBytes_Check(initial) {
@@ -185,6 +191,12 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
 	self->ready = 1;
 	// all's clear
 	return 0;
+
+InitError:
+	self->cv = NULL;
+	mpECP_clear(self->ecp);
+	Py_DECREF(curve);
+	return -1;
 }
 
 static PyObject *ECPoint_str(PyObject *self) {
-- 
2.43.0


From 694cac584b4c76f7db8b6ea3910c88a32d4df440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:04 +0000
Subject: [PATCH 37/58] fix: Python points could be made from coordinates that
 are not on the curve

---
 python/pypoint.c | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/python/pypoint.c b/python/pypoint.c
index 06dc11c..cdb9c45 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -103,6 +103,7 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
             
             if (PyLong_Check(ix)) {
                 mpz_t ixmpz, iympz;
+                int valid;
 
                 if (!PyLong_Check(iy)) {
         		    PyErr_SetString(PyExc_TypeError, "initializer tuple type mismatch");
@@ -114,11 +115,22 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
                 mpz_init(iympz);
                 _pylong_to_mpz((PyLongObject *)iy, iympz);
 
-                mpECP_set_mpz(self->ecp, ixmpz, iympz, ((ECurve *)curve)->ec);
+                valid = mpECurve_point_check(((ECurve *)curve)->ec, ixmpz, iympz);
+                if (valid != 0) {
+                    mpECP_set_mpz(self->ecp, ixmpz, iympz, ((ECurve *)curve)->ec);
+                }
                 
                 mpz_clear(iympz);
                 mpz_clear(ixmpz);
+
+                if (valid == 0) {
+            		PyErr_SetString(PyExc_ValueError, "invalid curve point");
+            		goto InitError;
+                }
             } else {
+                mpz_t ixmpz, iympz;
+                int valid;
+
                 if ((!PyObject_TypeCheck(ix, &FieldElementType)) || 
                     (!PyObject_TypeCheck(iy, &FieldElementType))) {
         		    PyErr_SetString(PyExc_TypeError, "initializer tuple type mismatch");
@@ -131,6 +143,21 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
         		    goto InitError;
                 }
 
+                mpz_init(ixmpz);
+                mpz_set_mpFp(ixmpz, ((FieldElement *)ix)->fe);
+                mpz_init(iympz);
+                mpz_set_mpFp(iympz, ((FieldElement *)iy)->fe);
+
+                valid = mpECurve_point_check(((ECurve *)curve)->ec, ixmpz, iympz);
+
+                mpz_clear(iympz);
+                mpz_clear(ixmpz);
+
+                if (valid == 0) {
+            		PyErr_SetString(PyExc_ValueError, "invalid curve point");
+            		goto InitError;
+                }
+
                 mpECP_set_mpFp(self->ecp, ((FieldElement *)ix)->fe,
                     ((FieldElement *)iy)->fe, ((ECurve *)curve)->ec);
             }
-- 
2.43.0


From 613d7c6fdb231cfa47987b4dcf5b1cbfc4b09660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:34 +0000
Subject: [PATCH 38/58] fix: Python objects whose __init__ never ran crashed
 the interpreter, a second __init__ changed live objects

---
 python/pycurve.c     |  9 +++++++++
 python/pyecdsa.c     | 22 ++++++++++++++++++++++
 python/pyecelgamal.c | 14 ++++++++++++++
 python/pyfield.c     | 23 +++++++++++++++++++++++
 python/pygmplong.h   |  5 +++++
 python/pypoint.c     | 24 ++++++++++++++++++++++++
 6 files changed, 97 insertions(+)

diff --git a/python/pycurve.c b/python/pycurve.c
index b889a1e..3dae3ac 100644
--- a/python/pycurve.c
+++ b/python/pycurve.c
@@ -63,6 +63,11 @@ static int ECurve_init(ECurve *self, PyObject *args, PyObject *kwargs) {
     char *name;
 	int status;
 
+	if (self->ready) {
+		PyErr_SetString(PyExc_ValueError, "ECurve object is already initialized");
+		return -1;
+	}
+
 	if (!PyArg_ParseTuple(args, "s", &name)) {
 		PyErr_SetString(PyExc_TypeError, "Error parsing ECurve_init arguments");
 		return -1;
@@ -98,6 +103,7 @@ static PyObject *ECurve_richcompare(PyObject *a, PyObject *b, int op) {
 	int result = 0;
 
 	assert(PyObject_TypeCheck(a, &ECurveType) != 0);
+	if (_UNREADY(a, ECurve) || _UNREADY(b, ECurve)) return NULL;
 
 	if (!PyObject_TypeCheck((PyObject *)b, &ECurveType)) {
 		Py_RETURN_NOTIMPLEMENTED;
@@ -131,6 +137,7 @@ static PyObject *ECurve_check_point(PyObject *cv, PyObject *args) {
     int status;
 
 	assert(PyObject_TypeCheck(cv, &ECurveType) != 0);
+	if (_UNREADY(cv, ECurve)) return NULL;
 
 	if (!PyArg_ParseTuple(args, "OO", &x, &y)) {
 		PyErr_SetString(PyExc_TypeError, "Error parsing ECurve_init arguments");
@@ -541,6 +548,7 @@ static PyObject *ECurve_repr(PyObject *a) {
 	unsigned int bits;
 	PyObject *rep;
 	assert(PyObject_TypeCheck(a, &ECurveType) != 0);
+	if (_UNREADY(a, ECurve)) return NULL;
 	
 	p = _mpz_to_pylong(((ECurve *)a)->ec->fp->p);
 	assert(p != NULL);
@@ -602,6 +610,7 @@ static PyObject *ECurve_getattr(PyObject *o, char *attr_name) {
     ECurve *cv;
     
 	assert(PyObject_TypeCheck(o, &ECurveType) != 0);
+	if (_UNREADY(o, ECurve)) return NULL;
 	cv = (ECurve *)o;
 
     if (strcmp(attr_name, "p") == 0) {
diff --git a/python/pyecdsa.c b/python/pyecdsa.c
index e4b351d..560f14a 100644
--- a/python/pyecdsa.c
+++ b/python/pyecdsa.c
@@ -127,6 +127,11 @@ static int ECDSASignature_init(ECDSASignature *self, PyObject *args, PyObject *k
     Py_ssize_t bsz;
     int status;
 
+	if (self->ready) {
+		PyErr_SetString(PyExc_ValueError, "ECDSASignature object is already initialized");
+		return -1;
+	}
+
     if (!PyArg_ParseTuple(args, "OO", (PyObject *)&ss, &ssbytes)) {
         PyErr_SetString(PyExc_TypeError, "Error parsing ECDSASignature_init arguments");
         return -1;
@@ -137,6 +142,8 @@ static int ECDSASignature_init(ECDSASignature *self, PyObject *args, PyObject *k
         return -1;
     }
 
+	if (_UNREADY(ss, ECDSASignatureScheme)) return -1;
+
     if (PyBytes_Check(ssbytes)) {
         status = PyBytes_AsStringAndSize(ssbytes, (char **)&bytes, &bsz);
         if (status != 0) {
@@ -186,6 +193,7 @@ static PyObject *ECDSASignature_str(PyObject *self) {
     PyObject *str;
     
     assert(PyObject_TypeCheck(self, &ECDSASignatureType) != 0);
+	if (_UNREADY(self, ECDSASignature)) return NULL;
     ssig = (ECDSASignature *)self;
 
     sstr = mpECDSASignature_export_str(ssig->sig);
@@ -203,6 +211,7 @@ static PyObject *ECDSASignature_binary(PyObject *self) {
     PyObject *bytes;
     
     assert(PyObject_TypeCheck(self, &ECDSASignatureType) != 0);
+	if (_UNREADY(self, ECDSASignature)) return NULL;
     ssig = (ECDSASignature *)self;
 
     sbytes = mpECDSASignature_export_bytes(ssig->sig, &bsz);
@@ -219,6 +228,7 @@ static PyObject *ECDSASignature_repr(PyObject *self) {
     ECDSASignature *ssig;
 
     assert(PyObject_TypeCheck(self, &ECDSASignatureType) != 0);
+	if (_UNREADY(self, ECDSASignature)) return NULL;
     ssig = (ECDSASignature *)self;
 
     ssstr = Py_TYPE((PyObject *)(ssig->ss))->tp_repr((PyObject *)(ssig->ss));
@@ -254,6 +264,7 @@ static PyObject *ECDSASignature_verify(PyObject *self, PyObject *args) {
     int status;
     
     assert(PyObject_TypeCheck(self, &ECDSASignatureType) != 0);
+	if (_UNREADY(self, ECDSASignature)) return NULL;
     ssis = (ECDSASignature *)self;
 
 	if (!PyArg_ParseTuple(args, "OO", &key, &msg)) {
@@ -265,6 +276,7 @@ static PyObject *ECDSASignature_verify(PyObject *self, PyObject *args) {
 		PyErr_SetString(PyExc_TypeError, "ECDSASignature_verify: 1st arg must be public key of ECPoint type");
 		return NULL;
     }
+	if (_UNREADY(key, ECPoint)) return NULL;
     kpt = (ECPoint *)key;
 
     if (PyBytes_Check(msg)) {
@@ -375,6 +387,11 @@ static int ECDSASignatureScheme_init(ECDSASignatureScheme *self, PyObject *args,
     long int hsz;
     int status;
 
+	if (self->ready) {
+		PyErr_SetString(PyExc_ValueError, "ECDSASignatureScheme object is already initialized");
+		return -1;
+	}
+
     if (!PyArg_ParseTuple(args, "OO", &curve, &hashmodule)) {
         PyErr_SetString(PyExc_TypeError, "Error parsing ECDSASignatureScheme_init arguments");
         return -1;
@@ -385,6 +402,8 @@ static int ECDSASignatureScheme_init(ECDSASignatureScheme *self, PyObject *args,
         return -1;
     }
 
+	if (_UNREADY(curve, ECurve)) return -1;
+
     if (!PyModule_Check(hashmodule)) {
         PyErr_SetString(PyExc_TypeError, "Hash module must be a module");
         return -1;
@@ -502,6 +521,7 @@ static PyObject *ECDSASignatureScheme_repr(PyObject *self) {
     ECDSASignatureScheme *ss;
 
     assert(PyObject_TypeCheck(self, &ECDSASignatureSchemeType) != 0);
+	if (_UNREADY(self, ECDSASignatureScheme)) return NULL;
     ss = (ECDSASignatureScheme *)self;
 
     cvstr = Py_TYPE((PyObject *)(ss->cv))->tp_repr((PyObject *)(ss->cv));
@@ -539,6 +559,7 @@ static PyObject *ECDSASignatureScheme_sign(PyObject *self, PyObject *args) {
     int status;
     
     assert(PyObject_TypeCheck(self, &ECDSASignatureSchemeType) != 0);
+	if (_UNREADY(self, ECDSASignatureScheme)) return NULL;
     ss = (ECDSASignatureScheme *)self;
 
 	if (!PyArg_ParseTuple(args, "OO", &key, &msg)) {
@@ -546,6 +567,7 @@ static PyObject *ECDSASignatureScheme_sign(PyObject *self, PyObject *args) {
 		return NULL;
 	}
 
+	if (_UNREADY(key, FieldElement)) return NULL;
     if(PyObject_TypeCheck(key, &FieldElementType)) {
         kfe = (FieldElement *)key;
     } else if (PyLong_Check(key)) {
diff --git a/python/pyecelgamal.c b/python/pyecelgamal.c
index 5d3477d..b2f1e95 100644
--- a/python/pyecelgamal.c
+++ b/python/pyecelgamal.c
@@ -67,6 +67,11 @@ static int ECElgamalCiphertext_init(ECElgamalCiphertext *self, PyObject *args, P
     ECPoint *C;
     ECPoint *D;
 
+	if (self->ready) {
+		PyErr_SetString(PyExc_ValueError, "ECElgamalCiphertext object is already initialized");
+		return -1;
+	}
+
     if (!PyArg_ParseTuple(args, "OO", (PyObject *)&C, &D)) {
         PyErr_SetString(PyExc_TypeError, "Error parsing ECElgamalCiphertext_init arguments");
         return -1;
@@ -82,6 +87,8 @@ static int ECElgamalCiphertext_init(ECElgamalCiphertext *self, PyObject *args, P
         return -1;
     }
     
+	if (_UNREADY(C, ECPoint) || _UNREADY(D, ECPoint)) return -1;
+
     if (mpECurve_cmp(C->ecp->cvp, D->ecp->cvp) != 0) {
         PyErr_SetString(PyExc_ValueError, "ECElgamalCiphertext_init: C and D are not on the same curve");
         return -1;
@@ -109,6 +116,7 @@ static PyObject *ECElgamalCiphertext_str(PyObject *self) {
     PyObject *str;
     
     assert(PyObject_TypeCheck(self, &ECElgamalCiphertextType) != 0);
+	if (_UNREADY(self, ECElgamalCiphertext)) return NULL;
     egc = (ECElgamalCiphertext *)self;
 
     sz = mpECP_out_strlen(egc->ctxt->C, 1);
@@ -133,6 +141,7 @@ static PyObject *ECElgamalCiphertext_repr(PyObject *self) {
     ECElgamalCiphertext *egc;
 
     assert(PyObject_TypeCheck(self, &ECElgamalCiphertextType) != 0);
+	if (_UNREADY(self, ECElgamalCiphertext)) return NULL;
     egc = (ECElgamalCiphertext *)self;
 
 	Cpt = (ECPoint *)PyECPoint_FromECP(egc->ctxt->C);
@@ -182,6 +191,8 @@ static PyObject *ECElgamalCiphertext_encrypt(PyObject *none, PyObject *args, PyO
         return NULL;
     }
     
+	if (_UNREADY(key, ECPoint) || _UNREADY(ptxt, ECPoint)) return NULL;
+
     if (mpECurve_cmp(key->ecp->cvp, ptxt->ecp->cvp) != 0) {
         PyErr_SetString(PyExc_ValueError, "ECElgamalCiphertext_init: public key and plaintext are not on the same curve");
         return NULL;
@@ -217,8 +228,10 @@ static PyObject *ECElgamalCiphertext_decrypt(PyObject *self, PyObject *sK) {
     ECElgamalCiphertext *egc;
 
     assert(PyObject_TypeCheck(self, &ECElgamalCiphertextType) != 0);
+	if (_UNREADY(self, ECElgamalCiphertext)) return NULL;
     egc = (ECElgamalCiphertext *)self;
 
+	if (_UNREADY(sK, FieldElement)) return NULL;
     if (PyObject_TypeCheck(sK, &FieldElementType)) {
         feK = ((FieldElement *)sK)->fe;
 
@@ -271,6 +284,7 @@ static PyObject *ECElgamalCiphertext_getattr(PyObject *o, char *attr_name) {
     ECElgamalCiphertext *egc;
 
     assert(PyObject_TypeCheck(o, &ECElgamalCiphertextType) != 0);
+	if (_UNREADY(o, ECElgamalCiphertext)) return NULL;
     egc = (ECElgamalCiphertext *)o;
 
     if (strcmp(attr_name, "C") == 0) {
diff --git a/python/pyfield.c b/python/pyfield.c
index 78e06fc..ab0d4ef 100644
--- a/python/pyfield.c
+++ b/python/pyfield.c
@@ -80,6 +80,11 @@ static int FieldElement_init(FieldElement *self, PyObject *args, PyObject *kwarg
 	mpz_t pmpz;
 	int status;
 
+	if (self->ready) {
+		PyErr_SetString(PyExc_ValueError, "FieldElement object is already initialized");
+		return -1;
+	}
+
 	if (!PyArg_ParseTuple(args, "OO", &i, &p)) {
 		PyErr_SetString(PyExc_TypeError, "Error parsing FieldElement_init arguments");
 		return -1;
@@ -134,6 +139,8 @@ static PyObject *FieldElement_op_int(FieldElement *self, PyObject *none) {
 	PyObject *rop;
 	mpz_t t;
 
+	if (_UNREADY(self, FieldElement)) return NULL;
+
 	mpz_init(t);
 
 	// convert mpz to bytes, -1 implies little endian (wordwise and bytewise), 0 implies no "nails"
@@ -172,6 +179,8 @@ static PyObject *FieldElement_op_add_pylong(FieldElement *op1, PyLongObject *op2
 static PyObject *FieldElement_op_add(FieldElement *op1, FieldElement *op2) {
 	FieldElement *rop;
 
+	if (_UNREADY(op1, FieldElement) || _UNREADY(op2, FieldElement)) return NULL;
+
 	if(!PyObject_TypeCheck((PyObject *)op1, &FieldElementType)) {
 		if(PyObject_TypeCheck((PyObject *)op2, &FieldElementType)) {
 			return FieldElement_op_add(op2, op1);
@@ -229,6 +238,8 @@ static PyObject *FieldElement_op_sub_pylong(FieldElement *op1, PyLongObject *op2
 static PyObject *FieldElement_op_sub(FieldElement *op1, FieldElement *op2) {
 	FieldElement *rop;
 
+	if (_UNREADY(op1, FieldElement) || _UNREADY(op2, FieldElement)) return NULL;
+
 	if(!PyObject_TypeCheck((PyObject *)op1, &FieldElementType)) {
 		if(PyObject_TypeCheck((PyObject *)op2, &FieldElementType)) {
 			PyObject *nop1;
@@ -301,6 +312,8 @@ static PyObject *FieldElement_op_mul_pylong(FieldElement *op1, PyLongObject *op2
 static PyObject *FieldElement_op_mul(FieldElement *op1, FieldElement *op2) {
 	FieldElement *rop;
 
+	if (_UNREADY(op1, FieldElement) || _UNREADY(op2, FieldElement)) return NULL;
+
 	if(!PyObject_TypeCheck((PyObject *)op1, &FieldElementType)) {
 		if(PyObject_TypeCheck((PyObject *)op2, &FieldElementType)) {
 			return FieldElement_op_mul(op2, op1);
@@ -333,6 +346,8 @@ static PyObject *FieldElement_op_mul(FieldElement *op1, FieldElement *op2) {
 
 static PyObject *FieldElement_op_neg(FieldElement *op1) {
 	FieldElement *rop;
+
+	if (_UNREADY(op1, FieldElement)) return NULL;
 	
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
 	mpz_init(rop->fe->i);
@@ -346,6 +361,8 @@ static PyObject *FieldElement_op_neg(FieldElement *op1) {
 static PyObject *FieldElement_op_multiplicative_inverse(FieldElement *op1, PyObject *none) {
 	FieldElement *rop;
 	int status;
+
+	if (_UNREADY(op1, FieldElement)) return NULL;
 	
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
 	mpz_init(rop->fe->i);
@@ -364,6 +381,8 @@ static PyObject *FieldElement_op_multiplicative_inverse(FieldElement *op1, PyObj
 static PyObject *FieldElement_op_sqrt(FieldElement *op1, PyObject *none) {
 	FieldElement *rop;
 	int status;
+
+	if (_UNREADY(op1, FieldElement)) return NULL;
 	
 	rop = (FieldElement *)FieldElement_new( &FieldElementType, NULL, NULL);
 	mpz_init(rop->fe->i);
@@ -420,6 +439,7 @@ static PyObject *FieldElement_richcompare(PyObject *a, PyObject *b, int op) {
 	int result = 0;
 
 	assert(PyObject_TypeCheck(a, &FieldElementType) != 0);
+	if (_UNREADY(a, FieldElement) || _UNREADY(b, FieldElement)) return NULL;
 
 	if (PyLong_Check(b)) {
 		mpz_t bmpz;
@@ -481,6 +501,8 @@ static PyObject *FieldElement_op_power(FieldElement *a, FieldElement *b, PyObjec
 	mpz_t bmpz;
 	unsigned long bui;
 	int status;
+
+	if (_UNREADY(a, FieldElement)) return NULL;
 	
 	if (c != Py_None) {
 		PyErr_SetString(PyExc_ValueError, "Optional 3rd argument to pow() not supported for Type");
@@ -517,6 +539,7 @@ static PyObject *FieldElement_repr(PyObject *a) {
 	PyObject *p;
 	PyObject *rep;
 	assert(PyObject_TypeCheck(a, &FieldElementType) != 0);
+	if (_UNREADY(a, FieldElement)) return NULL;
 	
 	i = _mpFp_to_pylong(((FieldElement *)a)->fe);
 	assert(i != NULL);
diff --git a/python/pygmplong.h b/python/pygmplong.h
index 9510410..8c16557 100644
--- a/python/pygmplong.h
+++ b/python/pygmplong.h
@@ -44,6 +44,11 @@ int _pylong_to_mpz_unsigned(PyLongObject *pobj, mpz_t pmpz);
 PyObject *_mpz_to_pylong(mpz_t pmpz);
 PyObject *_mpFp_to_pylong(mpFp_t pFp);
 
+// true, with an exception set, for an object whose __init__ has not succeeded
+#define _UNREADY(o, T) (PyObject_TypeCheck((PyObject *)(o), &T##Type) && \
+	(((T *)(o))->ready == 0) && \
+	(PyErr_SetString(PyExc_ValueError, #T " object is not initialized"), 1))
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/python/pypoint.c b/python/pypoint.c
index cdb9c45..a713eba 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -72,6 +72,11 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
     PyObject *initial = NULL;
 	int status;
 
+	if (self->ready) {
+		PyErr_SetString(PyExc_ValueError, "ECPoint object is already initialized");
+		return -1;
+	}
+
 	if (!PyArg_ParseTuple(args, "O|O", &curve, &initial)) {
 		PyErr_SetString(PyExc_TypeError, "Error parsing ECPoint_init arguments");
 		return -1;
@@ -82,6 +87,8 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
 		return -1;
 	}
 
+	if (_UNREADY(curve, ECurve)) return -1;
+
 	mpECP_init(self->ecp, ((ECurve *)curve)->ec);
 	self->cv = (ECurve *)curve;
 	Py_INCREF(curve);
@@ -137,6 +144,8 @@ static int ECPoint_init(ECPoint *self, PyObject *args, PyObject *kwargs) {
         		    goto InitError;
                 }
 
+                if (_UNREADY(ix, FieldElement) || _UNREADY(iy, FieldElement)) goto InitError;
+
                 if ((((FieldElement *)ix)->fe->fp != ((ECurve *)curve)->ec->fp) || 
                     (((FieldElement *)iy)->fe->fp != ((ECurve *)curve)->ec->fp)) {
         		    PyErr_SetString(PyExc_ValueError, "initializer tuple field order mismatch");
@@ -233,6 +242,7 @@ static PyObject *ECPoint_str(PyObject *self) {
     ECPoint *ecself;
 
 	assert(PyObject_TypeCheck(self, &ECPointType) != 0);
+	if (_UNREADY(self, ECPoint)) return NULL;
 	ecself = (ECPoint *)self;
 
 	bsize = mpECP_out_strlen(ecself->ecp, 1);
@@ -251,6 +261,7 @@ static PyObject *ECPoint_binary(PyObject *self) {
     ECPoint *ecself;
 
 	assert(PyObject_TypeCheck(self, &ECPointType) != 0);
+	if (_UNREADY(self, ECPoint)) return NULL;
 	ecself = (ECPoint *)self;
 
 	bsize = mpECP_out_bytelen(ecself->ecp, 1);
@@ -269,6 +280,7 @@ static PyObject *ECPoint_binary_full(PyObject *self) {
     ECPoint *ecself;
 
 	assert(PyObject_TypeCheck(self, &ECPointType) != 0);
+	if (_UNREADY(self, ECPoint)) return NULL;
 	ecself = (ECPoint *)self;
 
 	bsize = mpECP_out_bytelen(ecself->ecp, 0);
@@ -287,6 +299,7 @@ static PyObject *ECPoint_repr(PyObject *self) {
     ECPoint *ecself;
 
 	assert(PyObject_TypeCheck(self, &ECPointType) != 0);
+	if (_UNREADY(self, ECPoint)) return NULL;
 	ecself = (ECPoint *)self;
 
     pointstr = ECPoint_str(self);
@@ -315,6 +328,7 @@ static PyObject *ECPoint_richcompare(PyObject *a, PyObject *b, int op) {
 	int result = 0;
 
 	assert(PyObject_TypeCheck(a, &ECPointType) != 0);
+	if (_UNREADY(a, ECPoint) || _UNREADY(b, ECPoint)) return NULL;
 
 	if (!PyObject_TypeCheck((PyObject *)b, &ECPointType)) {
 		Py_RETURN_NOTIMPLEMENTED;
@@ -344,6 +358,8 @@ static PyObject *ECPoint_richcompare(PyObject *a, PyObject *b, int op) {
 static PyObject *ECPoint_op_add(ECPoint *op1, ECPoint *op2) {
 	ECPoint *rop;
 
+	if (_UNREADY(op1, ECPoint) || _UNREADY(op2, ECPoint)) return NULL;
+
 	if ((!PyObject_TypeCheck((PyObject *)op1, &ECPointType)) ||
 		(!PyObject_TypeCheck((PyObject *)op2, &ECPointType))) {
 		Py_RETURN_NOTIMPLEMENTED;
@@ -366,6 +382,8 @@ static PyObject *ECPoint_op_add(ECPoint *op1, ECPoint *op2) {
 static PyObject *ECPoint_op_sub(ECPoint *op1, ECPoint *op2) {
 	ECPoint *rop;
 
+	if (_UNREADY(op1, ECPoint) || _UNREADY(op2, ECPoint)) return NULL;
+
 	if ((!PyObject_TypeCheck((PyObject *)op1, &ECPointType)) ||
 		(!PyObject_TypeCheck((PyObject *)op2, &ECPointType))) {
 		Py_RETURN_NOTIMPLEMENTED;
@@ -393,6 +411,7 @@ static PyObject *ECPoint_op_neg(ECPoint *op1) {
 		return NULL;
 	}
 	
+	if (_UNREADY(op1, ECPoint)) return NULL;
 	rop = (ECPoint *)ECPoint_new(&ECPointType, NULL, NULL);
 	mpECP_init(rop->ecp, op1->ecp->cvp);
     rop->cv = op1->cv;
@@ -416,6 +435,8 @@ static PyObject *ECPoint_op_mul(PyObject *op1, PyObject *op2) {
 	}
 	p = (ECPoint *)op1;
 
+	if (_UNREADY(op1, ECPoint) || _UNREADY(op2, FieldElement)) return NULL;
+
 	mpz_init(scalar);
 	if(PyLong_Check(op2)) {
 	    int status;
@@ -460,6 +481,7 @@ static PyObject *ECPoint_urandom(PyObject *none, ECurve *curve) {
 	ECPoint *rop;
 	
 	assert(PyObject_TypeCheck((PyObject *)curve, &ECurveType));
+	if (_UNREADY(curve, ECurve)) return NULL;
 
 	rop = (ECPoint *)ECPoint_new( &ECPointType, NULL, NULL);
     mpECP_urandom(rop->ecp, curve->ec);
@@ -478,6 +500,7 @@ static PyObject *ECPoint_affine(PyObject *p, PyObject *none) {
     int status;
 	
 	assert(PyObject_TypeCheck((PyObject *)p, &ECPointType));
+	if (_UNREADY(p, ECPoint)) return NULL;
 	
 	mpz_init(zx);
 	mpz_init(zy);
@@ -504,6 +527,7 @@ static PyObject *ECPoint_affine(PyObject *p, PyObject *none) {
 
 static PyObject *ECPoint_set_basemult(PyObject *p, PyObject *none) {
 	assert(PyObject_TypeCheck((PyObject *)p, &ECPointType));
+	if (_UNREADY(p, ECPoint)) return NULL;
 
     mpECP_scalar_base_mul_setup(((ECPoint *)p)->ecp);
     
-- 
2.43.0


From 0c045f0c1a621d7ac657ba69a25dfefe495b5cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:34 +0000
Subject: [PATCH 39/58] fix: ECPoint.urandom aborted the Python interpreter for
 anything but a curve

---
 python/pypoint.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/pypoint.c b/python/pypoint.c
index a713eba..71dee00 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -442,7 +442,10 @@ static PyObject *ECPoint_op_mul(PyObject *op1, PyObject *op2) {
 	    int status;
 
 		status = _pylong_to_mpz((PyLongObject *)op2, scalar);
-		assert(status == 0);
+		if (status != 0) {
+			mpz_clear(scalar);
+			return PyErr_NoMemory();
+		}
 		if (mpz_cmp_ui(scalar, 0) < 0) {
 		    negative = 1;
 		    mpz_neg(scalar, scalar);
@@ -480,7 +483,10 @@ PyDoc_STRVAR(ECPoint_urandom__doc__,
 static PyObject *ECPoint_urandom(PyObject *none, ECurve *curve) {
 	ECPoint *rop;
 	
-	assert(PyObject_TypeCheck((PyObject *)curve, &ECurveType));
+	if (!PyObject_TypeCheck((PyObject *)curve, &ECurveType)) {
+		PyErr_SetString(PyExc_TypeError, "ECPoint_urandom: expected ECurve type as argument");
+		return NULL;
+	}
 	if (_UNREADY(curve, ECurve)) return NULL;
 
 	rop = (ECPoint *)ECPoint_new( &ECPointType, NULL, NULL);
-- 
2.43.0


From 70dc26f80ec2a329956f331db167b37840b9bc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:34 +0000
Subject: [PATCH 40/58] fix: Python signing and verifying released messages
 they did not own and leaked keys and signatures

---
 python/pyecdsa.c | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/python/pyecdsa.c b/python/pyecdsa.c
index 560f14a..e2ecb31 100644
--- a/python/pyecdsa.c
+++ b/python/pyecdsa.c
@@ -225,6 +225,7 @@ static PyObject *ECDSASignature_binary(PyObject *self) {
 static PyObject *ECDSASignature_repr(PyObject *self) {
     char *hashstr;
     PyObject *ssstr;
+    PyObject *rep;
     ECDSASignature *ssig;
 
     assert(PyObject_TypeCheck(self, &ECDSASignatureType) != 0);
@@ -234,7 +235,10 @@ static PyObject *ECDSASignature_repr(PyObject *self) {
     ssstr = Py_TYPE((PyObject *)(ssig->ss))->tp_repr((PyObject *)(ssig->ss));
     hashstr = mpECDSASignature_export_str(ssig->sig);
 
-    return PyUnicode_FromFormat("ECC.ECDSASignature(%S, \'%s\')", ssstr, hashstr);
+    rep = PyUnicode_FromFormat("ECC.ECDSASignature(%S, \'%s\')", ssstr, hashstr);
+    free(hashstr);
+    Py_DECREF(ssstr);
+    return rep;
 }
 
 // deallocates the object when done
@@ -281,13 +285,14 @@ static PyObject *ECDSASignature_verify(PyObject *self, PyObject *args) {
 
     if (PyBytes_Check(msg)) {
         bytes = msg;
+        Py_INCREF(bytes);
     } else {
         if (!PyUnicode_Check(msg)) {
     		PyErr_SetString(PyExc_TypeError, "ECDSASignature_verify: 2nd arg must be message of Bytes or Unicode type");
     		return NULL;
         }
         bytes = PyUnicode_AsUTF8String(msg);
-        Py_INCREF(bytes);
+        if (bytes == NULL) return NULL;
     }
     
     ham.hashmodule = ssis->ss->hashmodule;
@@ -518,6 +523,7 @@ static int ECDSASignatureScheme_init(ECDSASignatureScheme *self, PyObject *args,
 static PyObject *ECDSASignatureScheme_repr(PyObject *self) {
     PyObject *hashstr;
     PyObject *cvstr;
+    PyObject *rep;
     ECDSASignatureScheme *ss;
 
     assert(PyObject_TypeCheck(self, &ECDSASignatureSchemeType) != 0);
@@ -527,7 +533,10 @@ static PyObject *ECDSASignatureScheme_repr(PyObject *self) {
     cvstr = Py_TYPE((PyObject *)(ss->cv))->tp_repr((PyObject *)(ss->cv));
     hashstr = Py_TYPE((PyObject *)(ss->hashmodule))->tp_repr((PyObject *)(ss->hashmodule));
 
-    return PyUnicode_FromFormat("ECC.ECDSASignatureScheme(%S, %S)", cvstr, hashstr);
+    rep = PyUnicode_FromFormat("ECC.ECDSASignatureScheme(%S, %S)", cvstr, hashstr);
+    Py_XDECREF(hashstr);
+    Py_DECREF(cvstr);
+    return rep;
 }
 
 // deallocates the object when done
@@ -570,6 +579,7 @@ static PyObject *ECDSASignatureScheme_sign(PyObject *self, PyObject *args) {
 	if (_UNREADY(key, FieldElement)) return NULL;
     if(PyObject_TypeCheck(key, &FieldElementType)) {
         kfe = (FieldElement *)key;
+        Py_INCREF(kfe);
     } else if (PyLong_Check(key)) {
         mpz_t fe_i;
 
@@ -592,13 +602,18 @@ static PyObject *ECDSASignatureScheme_sign(PyObject *self, PyObject *args) {
 
     if (PyBytes_Check(msg)) {
         bytes = msg;
+        Py_INCREF(bytes);
     } else {
         if (!PyUnicode_Check(msg)) {
     		PyErr_SetString(PyExc_TypeError, "ECDSASignatureScheme_sign: arg 2 must be message of Bytes or Unicode type");
+            Py_DECREF(kfe);
     		return NULL;
         }
         bytes = PyUnicode_AsUTF8String(msg);
-        Py_INCREF(bytes);
+        if (bytes == NULL) {
+            Py_DECREF(kfe);
+            return NULL;
+        }
     }
 
     psig = (ECDSASignature *)ECDSASignature_new(&ECDSASignatureType, NULL, NULL);
@@ -608,7 +623,10 @@ static PyObject *ECDSASignatureScheme_sign(PyObject *self, PyObject *args) {
 
     status = mpECDSASignature_init_Sign(psig->sig, ss->sscheme, kfe->fe, (unsigned char *)&ham, PyBytes_Size(bytes));
     Py_DECREF(bytes);
+    Py_DECREF(kfe);
     if (status != 0) {
+        Py_DECREF(psig);
+        PyErr_SetString(PyExc_ValueError, "ECDSASignatureScheme_sign: cannot sign the message with this key");
         return NULL;
     }
     psig->ss = ss;
-- 
2.43.0


From 6f9dee431e44047c1ad6274e9dcd211a0f3f0176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:30 +0000
Subject: [PATCH 41/58] fix: a hash module that raises or lies about its digest
 crashed the Python interpreter

---
 python/pyecdsa.c | 145 ++++++++++++++++++++---------------------------
 1 file changed, 60 insertions(+), 85 deletions(-)

diff --git a/python/pyecdsa.c b/python/pyecdsa.c
index e2ecb31..e492ee2 100644
--- a/python/pyecdsa.c
+++ b/python/pyecdsa.c
@@ -48,55 +48,59 @@
 typedef struct {
     PyObject *hashmodule;
     PyObject *msg;
+    size_t hsz;
 } _hash_and_msg_t;
 
-// c routine to call the python hash function - note presumes that the
-// the msg has been replaced by _hash_and_msg_t to encode both the python
-// hash function and the message bytes (python bytes object)
-static void _python_hash_wrapper(unsigned char *hash, unsigned char *msg, size_t sz){
-    _hash_and_msg_t *ham;
+// call hash.new(msg).digest(), returns a bytes object (or NULL with an exception)
+static PyObject *_python_digest(PyObject *hashmodule, PyObject *msg) {
     PyObject *mdict;
     PyObject *hnew;
-    PyObject *tuple;
     PyObject *pyhash;
     PyObject *hbytes;
-    int status;
-    Py_ssize_t hsz;
-    unsigned char *digest;
-    
-    ham = (_hash_and_msg_t *)msg;
-    
-    // no way to error out here, calling function must ensure message is bytes
-    assert(PyBytes_Check(ham->msg));
 
-    // call hash.new(msg) to initialize and process message
-    mdict = PyModule_GetDict(ham->hashmodule);
-    assert(PyDict_Check(mdict));
+    mdict = PyModule_GetDict(hashmodule);
     hnew = PyDict_GetItemString(mdict, "new");
-    assert(PyFunction_Check(hnew));
-    assert(PyCallable_Check(hnew));
-    Py_INCREF(hnew);
+    if ((hnew == NULL) || !PyFunction_Check(hnew)) {
+        PyErr_SetString(PyExc_TypeError, "Hash module.new() is not a function");
+        return NULL;
+    }
 
-    tuple = PyTuple_New(1);
-    assert(tuple != NULL);
-    Py_INCREF(ham->msg);
-    status = PyTuple_SetItem(tuple, 0, ham->msg);
-    assert(status == 0);
-    pyhash = PyObject_CallObject(hnew, tuple);
-    assert(pyhash != NULL);
-    Py_DECREF(ham->msg);
+    Py_INCREF(hnew);
+    pyhash = PyObject_CallFunctionObjArgs(hnew, msg, NULL);
     Py_DECREF(hnew);
+    if (pyhash == NULL) return NULL;
 
-    Py_INCREF(pyhash);
     hbytes = PyObject_CallMethod(pyhash, "digest", NULL);
-    assert(PyBytes_Check(hbytes));
     Py_DECREF(pyhash);
+    if (hbytes == NULL) return NULL;
+    if (!PyBytes_Check(hbytes)) {
+        Py_DECREF(hbytes);
+        PyErr_SetString(PyExc_TypeError, "Hash object item digest() did not return bytes");
+        return NULL;
+    }
+    return hbytes;
+}
 
-    hsz = PyBytes_Size(hbytes);
-    status = PyBytes_AsStringAndSize(hbytes, (char **)&digest, &hsz);
-    assert(status == 0);
+// c routine to call the python hash function - note presumes that the
+// the msg has been replaced by _hash_and_msg_t to encode both the python
+// hash function and the message bytes (python bytes object)
+static void _python_hash_wrapper(unsigned char *hash, unsigned char *msg, size_t sz){
+    _hash_and_msg_t *ham;
+    PyObject *hbytes;
+    
+    ham = (_hash_and_msg_t *)msg;
 
-    memcpy(hash, digest, hsz);
+    // no way to error out here, calling function must look for an exception
+    memset(hash, 0, ham->hsz);
+    hbytes = _python_digest(ham->hashmodule, ham->msg);
+    if (hbytes == NULL) return;
+
+    if ((size_t)PyBytes_Size(hbytes) == ham->hsz) {
+        memcpy(hash, PyBytes_AsString(hbytes), ham->hsz);
+    } else {
+        PyErr_SetString(PyExc_ValueError, "Hash digest size changed");
+    }
+    Py_DECREF(hbytes);
     return;
 }
 
@@ -233,6 +237,7 @@ static PyObject *ECDSASignature_repr(PyObject *self) {
     ssig = (ECDSASignature *)self;
 
     ssstr = Py_TYPE((PyObject *)(ssig->ss))->tp_repr((PyObject *)(ssig->ss));
+    if (ssstr == NULL) return NULL;
     hashstr = mpECDSASignature_export_str(ssig->sig);
 
     rep = PyUnicode_FromFormat("ECC.ECDSASignature(%S, \'%s\')", ssstr, hashstr);
@@ -297,10 +302,12 @@ static PyObject *ECDSASignature_verify(PyObject *self, PyObject *args) {
     
     ham.hashmodule = ssis->ss->hashmodule;
     ham.msg = bytes;
+    ham.hsz = ssis->ss->sscheme->H->hsz;
 
     status = mpECDSASignature_verify_cmp(ssis->sig, kpt->ecp, (unsigned char *)&ham, PyBytes_Size(bytes));
 
     Py_DECREF(bytes);
+    if (PyErr_Occurred() != NULL) return NULL;
     if (status != 0) {
         Py_INCREF(Py_False);
         return Py_False;
@@ -423,12 +430,13 @@ static int ECDSASignatureScheme_init(ECDSASignatureScheme *self, PyObject *args,
 
     digest_size = PyDict_GetItemString(hashmodule_dict, "digest_size");
 
-    if (!PyLong_Check(digest_size)) {
+    if ((digest_size == NULL) || !PyLong_Check(digest_size)) {
         PyErr_SetString(PyExc_TypeError, "Hash module digest_size is not an Integer(PyLong) type");
         return -1;
     }
     
     hsz = PyLong_AsLong(digest_size);
+    if (PyErr_Occurred() != NULL) return -1;
     if (hsz <= 0) {
         PyErr_SetString(PyExc_ValueError, "Hash module returned negative or zero digest_size");
         return -1;
@@ -436,63 +444,19 @@ static int ECDSASignatureScheme_init(ECDSASignatureScheme *self, PyObject *args,
 
     // test hash module all the way through
     {
-        PyObject *hnew;
-        PyObject *tuple;
-        PyObject *pyhash;
         PyObject *mbytes;
         PyObject *hbytes;
         Py_ssize_t bsz;
 
-        // call hash.new(msg) to initialize and process message
-        hnew = PyDict_GetItemString(hashmodule_dict, "new");
-        if (!PyFunction_Check(hnew)) {
-            PyErr_SetString(PyExc_TypeError, "Hash module.new() is not a function");
-            return -1;
-        }
-    
-        if (!PyCallable_Check(hnew)) {
-            PyErr_SetString(PyExc_TypeError, "Hash module.new() function is not callable");
-            return -1;
-        }
-        Py_INCREF(hnew);
-
-        tuple = PyTuple_New(1);
-        if (tuple == NULL) {
-            PyErr_SetString(PyExc_TypeError, "Create Tuple Failed !?");
-            return -1;
-        }
-
         mbytes = PyBytes_FromStringAndSize("test", 4);
-        if (mbytes == NULL) {
-            PyErr_SetString(PyExc_TypeError, "Create Bytes from String Failed !?");
-            return -1;
-        }
-        Py_INCREF(mbytes);
-
-        status = PyTuple_SetItem(tuple, 0, mbytes);
-        if (status != 0) {
-            PyErr_SetString(PyExc_TypeError, "Tuple SetItem Failed !?");
-            return -1;
-        }
-
-        pyhash = PyObject_CallObject(hnew, tuple);
-        if (pyhash == NULL) {
-            PyErr_SetString(PyExc_TypeError, "Call Hash returned NULL");
-            return -1;
-        }
+        if (mbytes == NULL) return -1;
 
+        hbytes = _python_digest(hashmodule, mbytes);
         Py_DECREF(mbytes);
-        Py_DECREF(hnew);
-        
-        Py_INCREF(pyhash);
-        hbytes = PyObject_CallMethod(pyhash, "digest", NULL);
-        if (!PyBytes_Check(hbytes)) {
-            PyErr_SetString(PyExc_TypeError, "Hash object item digest() did not return bytes");
-            return -1;
-        }
-        Py_DECREF(pyhash);
-        
+        if (hbytes == NULL) return -1;
+
         bsz = PyBytes_Size(hbytes);
+        Py_DECREF(hbytes);
         if (bsz != hsz) {
             PyErr_SetString(PyExc_TypeError, "Hash bytes size mismatch !?");
             return -1;
@@ -511,6 +475,7 @@ static int ECDSASignatureScheme_init(ECDSASignatureScheme *self, PyObject *args,
     if (status != 0) {
         Py_DECREF(curve);
         Py_DECREF(hashmodule);
+        PyErr_SetString(PyExc_ValueError, "ECDSASignatureScheme_init: curve or hash not usable for signatures");
         return -1;
     }
 
@@ -532,9 +497,13 @@ static PyObject *ECDSASignatureScheme_repr(PyObject *self) {
 
     cvstr = Py_TYPE((PyObject *)(ss->cv))->tp_repr((PyObject *)(ss->cv));
     hashstr = Py_TYPE((PyObject *)(ss->hashmodule))->tp_repr((PyObject *)(ss->hashmodule));
+    if (hashstr == NULL) {
+        Py_DECREF(cvstr);
+        return NULL;
+    }
 
     rep = PyUnicode_FromFormat("ECC.ECDSASignatureScheme(%S, %S)", cvstr, hashstr);
-    Py_XDECREF(hashstr);
+    Py_DECREF(hashstr);
     Py_DECREF(cvstr);
     return rep;
 }
@@ -620,10 +589,16 @@ static PyObject *ECDSASignatureScheme_sign(PyObject *self, PyObject *args) {
     
     ham.hashmodule = ss->hashmodule;
     ham.msg = bytes;
+    ham.hsz = ss->sscheme->H->hsz;
 
     status = mpECDSASignature_init_Sign(psig->sig, ss->sscheme, kfe->fe, (unsigned char *)&ham, PyBytes_Size(bytes));
     Py_DECREF(bytes);
     Py_DECREF(kfe);
+    if ((status == 0) && (PyErr_Occurred() != NULL)) {
+        mpECDSASignature_clear(psig->sig);
+        Py_DECREF(psig);
+        return NULL;
+    }
     if (status != 0) {
         Py_DECREF(psig);
         PyErr_SetString(PyExc_ValueError, "ECDSASignatureScheme_sign: cannot sign the message with this key");
-- 
2.43.0


From 9e4545ce85d7b802853bb22376d9c39cb2bcc183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:41 +0000
Subject: [PATCH 42/58] fix: Python Elgamal results used curves that were
 already released

---
 python/pyecelgamal.c | 21 +++++++++++++++------
 python/pypoint.c     |  7 ++++---
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/python/pyecelgamal.c b/python/pyecelgamal.c
index b2f1e95..0bb0984 100644
--- a/python/pyecelgamal.c
+++ b/python/pyecelgamal.c
@@ -101,6 +101,8 @@ static int ECElgamalCiphertext_init(ECElgamalCiphertext *self, PyObject *args, P
     mpECP_set(self->ctxt->C, C->ecp);
     mpECP_init(self->ctxt->D, D->ecp->cvp);
     mpECP_set(self->ctxt->D, D->ecp);
+    // self refers to the curve of C only
+    self->ctxt->D->cvp = self->ctxt->C->cvp;
 
     // you're ready!
     self->ready = 1;
@@ -138,6 +140,7 @@ static PyObject *ECElgamalCiphertext_repr(PyObject *self) {
     ECPoint *Dpt;
     PyObject *Cstr;
     PyObject *Dstr;
+    PyObject *rep;
     ECElgamalCiphertext *egc;
 
     assert(PyObject_TypeCheck(self, &ECElgamalCiphertextType) != 0);
@@ -149,7 +152,12 @@ static PyObject *ECElgamalCiphertext_repr(PyObject *self) {
     Cstr = Py_TYPE((PyObject *)Cpt)->tp_repr((PyObject *)Cpt);
     Dstr = Py_TYPE((PyObject *)Dpt)->tp_repr((PyObject *)Dpt);
 
-    return PyUnicode_FromFormat("ECC.ECElgamalCiphertext(%S, %S)", Cstr, Dstr);
+    rep = PyUnicode_FromFormat("ECC.ECElgamalCiphertext(%S, %S)", Cstr, Dstr);
+    Py_DECREF(Dstr);
+    Py_DECREF(Cstr);
+    Py_DECREF(Dpt);
+    Py_DECREF(Cpt);
+    return rep;
 }
 
 // deallocates the object when done
@@ -202,6 +210,7 @@ static PyObject *ECElgamalCiphertext_encrypt(PyObject *none, PyObject *args, PyO
 
     status = mpECElgamal_init_encrypt(rop->ctxt, key->ecp, ptxt->ecp);
     if (status != 0) {
+        Py_DECREF(rop);
         PyErr_SetString(PyExc_RuntimeError, "ECElgamalCiphertext_init: unexpected error encrypting");
         return NULL;
     }
@@ -223,6 +232,7 @@ PyDoc_STRVAR(ECElgamalCiphertext_decrypt__doc__,
 // ECElgamalCiphertext_decrypt(sK=(FieldElement or PyLong))
 static PyObject *ECElgamalCiphertext_decrypt(PyObject *self, PyObject *sK) {
     ECPoint *rop;
+    mpECP_t ptxt;
     mpFp_ptr feK;
     int status;
     ECElgamalCiphertext *egc;
@@ -260,9 +270,7 @@ static PyObject *ECElgamalCiphertext_decrypt(PyObject *self, PyObject *sK) {
         return NULL;
     }
 
-	rop = (ECPoint *)PyECPoint_FromECP(egc->ctxt->C);
-
-    status = mpECElgamal_init_decrypt(rop->ecp, feK, egc->ctxt);
+    status = mpECElgamal_init_decrypt(ptxt, feK, egc->ctxt);
 
     if (PyLong_Check(sK)) {
         mpFp_clear(feK);
@@ -274,8 +282,9 @@ static PyObject *ECElgamalCiphertext_decrypt(PyObject *self, PyObject *sK) {
         return NULL;
     }
 
-    // you're ready!
-    rop->ready = 1;
+    rop = (ECPoint *)PyECPoint_FromECP(ptxt);
+    mpECP_clear(ptxt);
+
     // all's clear
     return (PyObject *)rop;
 }
diff --git a/python/pypoint.c b/python/pypoint.c
index 71dee00..2542139 100644
--- a/python/pypoint.c
+++ b/python/pypoint.c
@@ -544,10 +544,11 @@ PyObject *PyECPoint_FromECP(mpECP_t pt) {
 	ECPoint *rop;
 
 	rop = (ECPoint *)ECPoint_new( &ECPointType, NULL, NULL);
-	mpECP_init(rop->ecp, pt->cvp);
-	mpECP_set(rop->ecp, pt);
 	rop->cv = (ECurve *)PyECurve_FromECurve(pt->cvp);
-	Py_INCREF(rop->cv);
+	mpECP_init(rop->ecp, rop->cv->ec);
+	mpECP_set(rop->ecp, pt);
+	// the new point lives on with its own curve
+	rop->ecp->cvp = rop->cv->ec;
 	rop->ready = 1;
 	return (PyObject *)rop;
 }
-- 
2.43.0


From 4a3fde169dda463e95ab12493aa0bf37f16ab6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 43/58] fix: reject compressed Edwards points where the curve
 equation has no solution

---
 src/ecpoint.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ecpoint.c b/src/ecpoint.c
index 3da824e..6f3d047 100644
--- a/src/ecpoint.c
+++ b/src/ecpoint.c
@@ -426,9 +426,10 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
                             mpFp_set_ui_fp(y, 1, cv->fp);
                             mpFp_sub(t, y, t);
                             mpFp_sub(y, c2, x2);
-                            mpFp_inv(t, t);
+                            // no point where the denominator vanishes
+                            error = mpFp_inv(t, t);
                             mpFp_mul(t, t, y);
-                            error = mpFp_sqrt(y, t);
+                            if (error == 0) error = mpFp_sqrt(y, t);
                             mpFp_clear(x2);
                             mpFp_clear(c2);
                             if (error != 0) {
@@ -455,9 +456,10 @@ int mpECP_set_bytes(mpECP_t rpt, unsigned char *b, size_t blen, mpECurve_t cv) {
                             mpFp_sub(t, y, t);
                             mpFp_mul(x2, x2, a);
                             mpFp_sub(y, y, x2);
-                            mpFp_inv(t, t);
+                            // no point where the denominator vanishes
+                            error = mpFp_inv(t, t);
                             mpFp_mul(t, t, y);
-                            error = mpFp_sqrt(y, t);
+                            if (error == 0) error = mpFp_sqrt(y, t);
                             mpFp_clear(x2);
                             mpFp_clear(a);
                             if (error != 0) {
-- 
2.43.0


From 2e40723ca55396440fd1513dfd3a415f0d3459a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:48 +0000
Subject: [PATCH 44/58] fix: negative integers were negated in place by the Go
 binding

---
 ecgo/field.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/ecgo/field.go b/ecgo/field.go
index 036f366..75c871a 100644
--- a/ecgo/field.go
+++ b/ecgo/field.go
@@ -107,13 +107,9 @@ func bigint_to_c_mpz_unsigned(m *C.__mpz_struct, a *big.Int) error {
 }
 
 func bigint_to_c_mpz_signed(m *C.__mpz_struct, a *big.Int) {
-	var negative bool
-
-	if a.Cmp(big.NewInt(0)) < 0 {
-		negative = true
-		a.Neg(a)
-	}
+	negative := (a.Sign() < 0)
 
+	// Bytes is the magnitude
 	abytes := a.Bytes()
 
 	if len(abytes) == 0 {
-- 
2.43.0


From 74fca1e376f15f611efcfd19691cf42a3a6be4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:55 +0000
Subject: [PATCH 45/58] fix: Go objects could be finalized while C was still
 using them

---
 ecgo/curve.go     | 11 +++++++++--
 ecgo/ecdsa.go     |  7 +++++++
 ecgo/ecelgamal.go | 11 +++++++++++
 ecgo/field.go     | 28 ++++++++++++++++++++++++++--
 ecgo/point.go     | 30 +++++++++++++++++++++++++++++-
 5 files changed, 82 insertions(+), 5 deletions(-)

diff --git a/ecgo/curve.go b/ecgo/curve.go
index fb12abf..cfd3cf8 100644
--- a/ecgo/curve.go
+++ b/ecgo/curve.go
@@ -191,14 +191,20 @@ func mpFp_to_bigint(fp *C._mpFp_struct) (r *big.Int) {
 }
 
 func (z *Curve) Type() (r int) {
-	return int(C._type_of_cv(z.ec))
+	r = int(C._type_of_cv(z.ec))
+	runtime.KeepAlive(z)
+	return r
 }
 
 func (z *Curve) Cmp(a *Curve) int {
-	return int(C.mpECurve_cmp(z.ec, a.ec))
+	r := int(C.mpECurve_cmp(z.ec, a.ec))
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
+	return r
 }
 
 func (z *Curve) GetAttr(attr string) (r *big.Int) {
+	defer runtime.KeepAlive(z)
 
 	ctype := int(C._type_of_cv(z.ec))
 	//r = big.NewInt(0)
@@ -283,6 +289,7 @@ func (z *Curve) PointCheck(gx, gy *big.Int) bool {
 	}
 
 	r = (C.mpECurve_point_check(z.ec, &gxmpz, &gympz) != 0)
+	runtime.KeepAlive(z)
 cleanup:
 	C.mpz_clear(&gympz)
 	C.mpz_clear(&gxmpz)
diff --git a/ecgo/ecdsa.go b/ecgo/ecdsa.go
index 53c8126..30c6340 100644
--- a/ecgo/ecdsa.go
+++ b/ecgo/ecdsa.go
@@ -108,6 +108,7 @@ func NewECDSASignatureScheme(c *Curve, h hash.Hash) (ss *ECDSASignatureScheme) {
 	hdesc.hsz = C.size_t(h.Size())
 	C.mpECDSASignatureScheme_init(ss.css, c.ec, &hdesc)
 	runtime.SetFinalizer(ss, signaturescheme_clear)
+	runtime.KeepAlive(c)
 	return ss
 }
 
@@ -127,6 +128,8 @@ func (ss *ECDSASignatureScheme) Sign(sK *big.Int, message []byte) *ECDSASignatur
 	sig.csig = C.malloc_ECDSASignature()
 	sKfe := NewFieldElement(sK, ss.cv.GetAttr("n"))
 	status := C.mpECDSASignature_init_Sign(sig.csig, ss.css, sKfe.fe, C._toUCP(mhash), hsz)
+	runtime.KeepAlive(ss)
+	runtime.KeepAlive(sKfe)
 	C.free(mhash)
 	if status != C.int(0) {
 		C.free_ECDSASignature(sig.csig)
@@ -142,6 +145,8 @@ func (sig *ECDSASignature) Verify(pK *Point, message []byte) bool {
 	mhash := C.CBytes(sig.ss.h.Sum(nil))
 	hsz := C.size_t(sig.ss.h.Size())
 	status := C.mpECDSASignature_verify_cmp(sig.csig, pK.ecp, C._toUCP(mhash), hsz)
+	runtime.KeepAlive(sig)
+	runtime.KeepAlive(pK)
 	C.free(mhash)
 	if status == C.int(0) {
 		return true
@@ -152,6 +157,7 @@ func (sig *ECDSASignature) Verify(pK *Point, message []byte) bool {
 func (sig *ECDSASignature) AsBytes() []byte {
 	var sz C.size_t
 	cbytes := unsafe.Pointer(C.mpECDSASignature_export_bytes(sig.csig, &sz))
+	runtime.KeepAlive(sig)
 	gobytes := C.GoBytes(cbytes, C.int(sz))
 	C.memset(cbytes, 0, sz)
 	C.free(cbytes)
@@ -165,6 +171,7 @@ func (ss *ECDSASignatureScheme) SignatureFromBytes(gobytes []byte) *ECDSASignatu
 	cbytes := C.CBytes(gobytes)
 	sz := C.size_t(len(gobytes))
 	status := C.mpECDSASignature_init_import_bytes(sig.csig, ss.css, C._toUCP(cbytes), sz)
+	runtime.KeepAlive(ss)
 	C.memset(cbytes, 0, sz)
 	C.free(cbytes)
 	if status != 0 {
diff --git a/ecgo/ecelgamal.go b/ecgo/ecelgamal.go
index 08b4fa0..4a6f9fb 100644
--- a/ecgo/ecelgamal.go
+++ b/ecgo/ecelgamal.go
@@ -80,6 +80,8 @@ type ECElgamalCiphertext struct {
 }
 
 func ECElgamalEncrypt(pK *Point, ptxt *Point) (ctxt *ECElgamalCiphertext) {
+	defer runtime.KeepAlive(pK)
+	defer runtime.KeepAlive(ptxt)
 	if C.mpECurve_cmp(pK.cv.ec, ptxt.cv.ec) != 0 {
 		return nil
 	}
@@ -103,6 +105,9 @@ func (ctxt *ECElgamalCiphertext) Decrypt(sK *big.Int) (ptxt *Point) {
 	sKfe := NewFieldElement(sK, ctxt.cv.GetAttr("n"))
 	ptxt = NewPointNeutral(ctxt.cv)
 	status := C.mpECElgamal_init_decrypt(ptxt.ecp, sKfe.fe, ctxt.egc)
+	runtime.KeepAlive(ptxt)
+	runtime.KeepAlive(sKfe)
+	runtime.KeepAlive(ctxt)
 	if status != C.int(0) {
 		return nil
 	}
@@ -112,16 +117,22 @@ func (ctxt *ECElgamalCiphertext) Decrypt(sK *big.Int) (ptxt *Point) {
 func (ctxt *ECElgamalCiphertext) C() (c *Point) {
 	c = NewPointNeutral(ctxt.cv)
 	C.mpECP_set(c.ecp, C.C_of(ctxt.egc))
+	runtime.KeepAlive(c)
+	runtime.KeepAlive(ctxt)
 	return c
 }
 
 func (ctxt *ECElgamalCiphertext) D() (d *Point) {
 	d = NewPointNeutral(ctxt.cv)
 	C.mpECP_set(d.ecp, C.D_of(ctxt.egc))
+	runtime.KeepAlive(d)
+	runtime.KeepAlive(ctxt)
 	return d
 }
 
 func NewECElgamalCiphertext(c, d *Point) (ctxt *ECElgamalCiphertext) {
+	defer runtime.KeepAlive(c)
+	defer runtime.KeepAlive(d)
 	if C.mpECurve_cmp(c.cv.ec, d.cv.ec) != 0 {
 		return nil
 	}
diff --git a/ecgo/field.go b/ecgo/field.go
index 75c871a..a25316a 100644
--- a/ecgo/field.go
+++ b/ecgo/field.go
@@ -238,17 +238,22 @@ func (z *FieldElement) AsInt() (r *big.Int) {
 	C.mpz_set_mpFp(&impz, z.fe)
 	r = c_mpz_to_bigint(&impz)
 	C.mpz_clear(&impz)
+	runtime.KeepAlive(z)
 	return r
 }
 
 func (z *FieldElement) Order() (r *big.Int) {
 	impz := C._p_of_fe(z.fe)
 	r = c_mpz_to_bigint(impz)
+	runtime.KeepAlive(z)
 	return r
 }
 
 func (z *FieldElement) Cmp(a *FieldElement) int {
-	return int(C.mpFp_cmp(z.fe, a.fe))
+	r := int(C.mpFp_cmp(z.fe, a.fe))
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
+	return r
 }
 
 func (z *FieldElement) Add(a, b *FieldElement) *FieldElement {
@@ -256,6 +261,9 @@ func (z *FieldElement) Add(a, b *FieldElement) *FieldElement {
 		panic("FE.Add: field mismatch")
 	}
 	C.mpFp_add(z.fe, a.fe, b.fe)
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
+	runtime.KeepAlive(b)
 	return z
 }
 
@@ -264,6 +272,9 @@ func (z *FieldElement) Sub(a, b *FieldElement) *FieldElement {
 		panic("FE.Add: field mismatch")
 	}
 	C.mpFp_sub(z.fe, a.fe, b.fe)
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
+	runtime.KeepAlive(b)
 	return z
 }
 
@@ -272,16 +283,23 @@ func (z *FieldElement) Mul(a, b *FieldElement) *FieldElement {
 		panic("FE.Add: field mismatch")
 	}
 	C.mpFp_mul(z.fe, a.fe, b.fe)
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
+	runtime.KeepAlive(b)
 	return z
 }
 
 func (z *FieldElement) Neg(a *FieldElement) *FieldElement {
 	C.mpFp_neg(z.fe, a.fe)
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
 	return z
 }
 
 func (z *FieldElement) Inv(a *FieldElement) (fe *FieldElement, err error) {
 	status := C.mpFp_inv(z.fe, a.fe)
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
 	if int(status) != 0 {
 		return nil, errors.New("no inverse exists for element")
 	}
@@ -290,6 +308,8 @@ func (z *FieldElement) Inv(a *FieldElement) (fe *FieldElement, err error) {
 
 func (z *FieldElement) Sqrt(a *FieldElement) (fe *FieldElement, err error) {
 	status := C.mpFp_sqrt(z.fe, a.fe)
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
 	if int(status) != 0 {
 		return nil, errors.New("element is not a quadratic residue")
 	}
@@ -298,9 +318,13 @@ func (z *FieldElement) Sqrt(a *FieldElement) (fe *FieldElement, err error) {
 
 func (z *FieldElement) Exp(a *FieldElement, e uint64) *FieldElement {
 	C.mpFp_pow_ui(z.fe, a.fe, C.ulong(e))
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
 	return z
 }
 
 func (z *FieldElement) Bit(i int) uint {
-	return uint(C.mpFp_tstbit(z.fe, C.int(i)))
+	r := uint(C.mpFp_tstbit(z.fe, C.int(i)))
+	runtime.KeepAlive(z)
+	return r
 }
diff --git a/ecgo/point.go b/ecgo/point.go
index c8d7a4a..0c05896 100644
--- a/ecgo/point.go
+++ b/ecgo/point.go
@@ -129,6 +129,7 @@ func NewPointXY(x, y *big.Int, c *Curve) (z *Point) {
 	C.mpECP_init(z.ecp, c.ec)
 	runtime.SetFinalizer(z, point_clear)
 	C.mpECP_set_mpz(z.ecp, &xmpz, &ympz, c.ec)
+	runtime.KeepAlive(z)
 
 	C.mpz_clear(&xmpz)
 	C.mpz_clear(&ympz)
@@ -143,6 +144,7 @@ func NewPointNeutral(c *Curve) (z *Point) {
 	C.mpECP_init(z.ecp, c.ec)
 	runtime.SetFinalizer(z, point_clear)
 	C.mpECP_set_neutral(z.ecp, c.ec)
+	runtime.KeepAlive(z)
 
 	return z
 }
@@ -155,6 +157,7 @@ func NewPointGenerator(c *Curve) (z *Point) {
 	C.mpECP_init(z.ecp, c.ec)
 	runtime.SetFinalizer(z, point_clear)
 	C.mpECP_set_mpz(z.ecp, C._pgx_of_cv(c.ec), C._pgy_of_cv(c.ec), c.ec)
+	runtime.KeepAlive(z)
 
 	return z
 }
@@ -167,6 +170,7 @@ func NewPointURandom(c *Curve) (z *Point) {
 	C.mpECP_init(z.ecp, c.ec)
 	runtime.SetFinalizer(z, point_clear)
 	C.mpECP_urandom(z.ecp, c.ec)
+	runtime.KeepAlive(z)
 
 	return z
 }
@@ -180,6 +184,7 @@ func NewPointFromString(gst string, c *Curve) (z *Point) {
 	runtime.SetFinalizer(z, point_clear)
 	cstr := C.CString(gst)
 	status := C.mpECP_set_str(z.ecp, cstr, c.ec)
+	runtime.KeepAlive(z)
 	if status != C.int(0) {
 		return nil
 	}
@@ -198,6 +203,7 @@ func NewPointFromBytes(gby []byte, c *Curve) (z *Point) {
 	cby := C.CBytes(gby)
 	l := len(gby)
 	status := C.mpECP_set_bytes(z.ecp, C._toUCP(cby), C.size_t(l), c.ec)
+	runtime.KeepAlive(z)
 	if status != C.int(0) {
 		return nil
 	}
@@ -222,6 +228,7 @@ func (z *Point) Affine() (x, y *big.Int) {
 
 	x = c_mpz_to_bigint(&xmpz)
 	y = c_mpz_to_bigint(&ympz)
+	runtime.KeepAlive(z)
 
 	C.mpz_clear(&xmpz)
 	C.mpz_clear(&ympz)
@@ -232,6 +239,7 @@ func (z *Point) Affine() (x, y *big.Int) {
 func (z *Point) IsNeutral() bool {
 	pt := z.ecp
 	isn := pt.is_neutral
+	runtime.KeepAlive(z)
 	if int(isn) == 0 {
 		return false
 	}
@@ -240,6 +248,7 @@ func (z *Point) IsNeutral() bool {
 
 func (z *Point) StringCompressed() string {
 	cstr := C.mpECP_alloc_out_str(z.ecp, C.int(1))
+	runtime.KeepAlive(z)
 	gstr := C.GoString(cstr)
 	C.free(unsafe.Pointer(cstr))
 	return gstr
@@ -247,6 +256,7 @@ func (z *Point) StringCompressed() string {
 
 func (z *Point) StringUncompressed() string {
 	cstr := C.mpECP_alloc_out_str(z.ecp, C.int(0))
+	runtime.KeepAlive(z)
 	gstr := C.GoString(cstr)
 	C.free(unsafe.Pointer(cstr))
 	return gstr
@@ -255,6 +265,7 @@ func (z *Point) StringUncompressed() string {
 func (z *Point) BytesCompressed() []byte {
 	blen := C.mpECP_out_bytelen(z.ecp, C.int(1))
 	cstr := C.mpECP_alloc_out_bytes(z.ecp, C.int(1))
+	runtime.KeepAlive(z)
 	gstr := C.GoBytes(unsafe.Pointer(cstr), blen)
 	C.free(unsafe.Pointer(cstr))
 	return gstr
@@ -263,36 +274,50 @@ func (z *Point) BytesCompressed() []byte {
 func (z *Point) BytesUncompressed() []byte {
 	blen := C.mpECP_out_bytelen(z.ecp, C.int(0))
 	cstr := C.mpECP_alloc_out_bytes(z.ecp, C.int(0))
+	runtime.KeepAlive(z)
 	gstr := C.GoBytes(unsafe.Pointer(cstr), blen)
 	C.free(unsafe.Pointer(cstr))
 	return gstr
 }
 
 func (z *Point) Cmp(a *Point) int {
-	return int(C.mpECP_cmp(z.ecp, a.ecp))
+	r := int(C.mpECP_cmp(z.ecp, a.ecp))
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
+	return r
 }
 
 func (z *Point) Add(a, b *Point) *Point {
 	C.mpECP_add(z.ecp, a.ecp, b.ecp)
 	z.cv = a.cv
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
+	runtime.KeepAlive(b)
 	return z
 }
 
 func (z *Point) Sub(a, b *Point) *Point {
 	C.mpECP_sub(z.ecp, a.ecp, b.ecp)
 	z.cv = a.cv
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
+	runtime.KeepAlive(b)
 	return z
 }
 
 func (z *Point) Neg(a *Point) *Point {
 	C.mpECP_neg(z.ecp, a.ecp)
 	z.cv = a.cv
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
 	return z
 }
 
 func (z *Point) Set(a *Point) *Point {
 	C.mpECP_set(z.ecp, a.ecp)
 	z.cv = a.cv
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
 	return z
 }
 
@@ -308,11 +333,14 @@ func (z *Point) Mul(a *Point, b *big.Int) *Point {
 		C.mpECP_scalar_mul_mpz(z.ecp, a.ecp, &bmpz)
 	}
 	z.cv = a.cv
+	runtime.KeepAlive(z)
+	runtime.KeepAlive(a)
 
 	return z
 }
 
 func (z *Point) SetupBaseMul() {
 	C.mpECP_scalar_base_mul_setup(z.ecp)
+	runtime.KeepAlive(z)
 	return
 }
-- 
2.43.0


From b1f841d8e5067e29225d098c48380ced8fdf4886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:51 +0000
Subject: [PATCH 46/58] fix: Go Elgamal ciphertexts used the curve of D after
 its release

---
 ecgo/ecelgamal.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ecgo/ecelgamal.go b/ecgo/ecelgamal.go
index 4a6f9fb..6e57f2a 100644
--- a/ecgo/ecelgamal.go
+++ b/ecgo/ecelgamal.go
@@ -48,6 +48,10 @@ package ecgo
 //     return ctxt->C;
 // }
 //
+// void set_curve_of(mpECP_ptr pt, mpECurve_ptr cv) {
+//     pt->cvp = cv;
+// }
+//
 // mpECP_ptr D_of(mpECElgamalCiphertext_ptr ctxt) {
 //     return ctxt->D;
 // }
@@ -141,8 +145,10 @@ func NewECElgamalCiphertext(c, d *Point) (ctxt *ECElgamalCiphertext) {
 	ctxt.egc = C.malloc_ECElgamalCiphertext()
 	C.mpECP_init(C.C_of(ctxt.egc), c.cv.ec)
 	C.mpECP_set(C.C_of(ctxt.egc), c.ecp)
-	C.mpECP_init(C.D_of(ctxt.egc), d.cv.ec)
+	C.mpECP_init(C.D_of(ctxt.egc), c.cv.ec)
 	C.mpECP_set(C.D_of(ctxt.egc), d.ecp)
+	// only the curve of c is retained by the ciphertext
+	C.set_curve_of(C.D_of(ctxt.egc), c.cv.ec)
 	runtime.SetFinalizer(ctxt, ecelgamalciphertext_clear)
 	return ctxt
 }
-- 
2.43.0


From e03bc276f14b71d6c527800ed25585a813ea9891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:51 +0000
Subject: [PATCH 47/58] fix: Go curves, signatures, decrypted points and
 multipliers were never released

---
 ecgo/curve.go     |  8 ++++++++
 ecgo/ecdsa.go     |  7 +++++++
 ecgo/ecelgamal.go | 13 +++++++++++--
 ecgo/field.go     |  4 ++++
 ecgo/point.go     |  5 +++--
 5 files changed, 33 insertions(+), 4 deletions(-)

diff --git a/ecgo/curve.go b/ecgo/curve.go
index cfd3cf8..8537cd9 100644
--- a/ecgo/curve.go
+++ b/ecgo/curve.go
@@ -350,6 +350,8 @@ func ShortWeierstrassCurve(p, a, b, n, h, gx, gy *big.Int, bits uint) *Curve {
 		C.mpECurve_clear(z.ec)
 		C.free_ECurve(z.ec)
 		z = nil
+	} else {
+		runtime.SetFinalizer(z, curve_clear)
 	}
 cleanup:
 	C.mpz_clear(&gympz)
@@ -416,6 +418,8 @@ func EdwardsCurve(p, c, d, n, h, gx, gy *big.Int, bits uint) *Curve {
 		C.mpECurve_clear(z.ec)
 		C.free_ECurve(z.ec)
 		z = nil
+	} else {
+		runtime.SetFinalizer(z, curve_clear)
 	}
 cleanup:
 	C.mpz_clear(&gympz)
@@ -482,6 +486,8 @@ func MontgomeryCurve(p, B, A, n, h, gx, gy *big.Int, bits uint) *Curve {
 		C.mpECurve_clear(z.ec)
 		C.free_ECurve(z.ec)
 		z = nil
+	} else {
+		runtime.SetFinalizer(z, curve_clear)
 	}
 cleanup:
 	C.mpz_clear(&gympz)
@@ -548,6 +554,8 @@ func TwistedEdwardsCurve(p, a, d, n, h, gx, gy *big.Int, bits uint) *Curve {
 		C.mpECurve_clear(z.ec)
 		C.free_ECurve(z.ec)
 		z = nil
+	} else {
+		runtime.SetFinalizer(z, curve_clear)
 	}
 cleanup:
 	C.mpz_clear(&gympz)
diff --git a/ecgo/ecdsa.go b/ecgo/ecdsa.go
index 30c6340..13ca489 100644
--- a/ecgo/ecdsa.go
+++ b/ecgo/ecdsa.go
@@ -117,6 +117,11 @@ func signaturescheme_clear(ss *ECDSASignatureScheme) {
 	C.free_ECDSASignatureScheme(ss.css)
 }
 
+func signature_clear(sig *ECDSASignature) {
+	C.mpECDSASignature_clear(sig.csig)
+	C.free_ECDSASignature(sig.csig)
+}
+
 func (ss *ECDSASignatureScheme) Sign(sK *big.Int, message []byte) *ECDSASignature {
 	ss.h.Reset()
 	ss.h.Write(message)
@@ -136,6 +141,7 @@ func (ss *ECDSASignatureScheme) Sign(sK *big.Int, message []byte) *ECDSASignatur
 		return nil
 	}
 	sig.ss = ss
+	runtime.SetFinalizer(sig, signature_clear)
 	return sig
 }
 
@@ -178,5 +184,6 @@ func (ss *ECDSASignatureScheme) SignatureFromBytes(gobytes []byte) *ECDSASignatu
 		C.free_ECDSASignature(sig.csig)
 		return nil
 	}
+	runtime.SetFinalizer(sig, signature_clear)
 	return sig
 }
diff --git a/ecgo/ecelgamal.go b/ecgo/ecelgamal.go
index 6e57f2a..72ebbcd 100644
--- a/ecgo/ecelgamal.go
+++ b/ecgo/ecelgamal.go
@@ -32,6 +32,7 @@ package ecgo
 
 // #cgo LDFLAGS: -lecc -lgmp
 // #include <ecc/ecelgamal.h>
+// #include <ecc/ecpoint.h>
 // #include <ecc/ecurve.h>
 // #include <stdlib.h>
 // #include <string.h>
@@ -56,6 +57,11 @@ package ecgo
 //     return ctxt->D;
 // }
 //
+// typedef _mpECP_t *mpECP_ptr;
+//
+// extern mpECP_ptr malloc_ECPoint();
+// extern void free_ECPoint(mpECP_ptr pt);
+//
 import "C"
 
 import (
@@ -107,14 +113,17 @@ func ecelgamalciphertext_clear(ctxt *ECElgamalCiphertext) {
 
 func (ctxt *ECElgamalCiphertext) Decrypt(sK *big.Int) (ptxt *Point) {
 	sKfe := NewFieldElement(sK, ctxt.cv.GetAttr("n"))
-	ptxt = NewPointNeutral(ctxt.cv)
+	ptxt = new(Point)
+	ptxt.ecp = C.malloc_ECPoint()
+	ptxt.cv = ctxt.cv
 	status := C.mpECElgamal_init_decrypt(ptxt.ecp, sKfe.fe, ctxt.egc)
-	runtime.KeepAlive(ptxt)
 	runtime.KeepAlive(sKfe)
 	runtime.KeepAlive(ctxt)
 	if status != C.int(0) {
+		C.free_ECPoint(ptxt.ecp)
 		return nil
 	}
+	runtime.SetFinalizer(ptxt, point_clear)
 	return ptxt
 }
 
diff --git a/ecgo/field.go b/ecgo/field.go
index a25316a..1cffe34 100644
--- a/ecgo/field.go
+++ b/ecgo/field.go
@@ -155,6 +155,8 @@ func NewFieldElement(value, field *big.Int) (z *FieldElement) {
 	bigint_to_c_mpz_signed(&vmpz, value)
 	err = bigint_to_c_mpz_unsigned(&pmpz, field)
 	if err != nil {
+		C.mpz_clear(&pmpz)
+		C.mpz_clear(&vmpz)
 		return nil
 	}
 
@@ -184,6 +186,7 @@ func NewFieldElementUI(value uint64, field *big.Int) (z *FieldElement) {
 	C.mpz_init(&pmpz)
 	err = bigint_to_c_mpz_unsigned(&pmpz, field)
 	if err != nil {
+		C.mpz_clear(&pmpz)
 		return nil
 	}
 
@@ -210,6 +213,7 @@ func NewFieldElementURandom(field *big.Int) (z *FieldElement) {
 	C.mpz_init(&pmpz)
 	err = bigint_to_c_mpz_unsigned(&pmpz, field)
 	if err != nil {
+		C.mpz_clear(&pmpz)
 		return nil
 	}
 
diff --git a/ecgo/point.go b/ecgo/point.go
index 0c05896..2e127e4 100644
--- a/ecgo/point.go
+++ b/ecgo/point.go
@@ -185,10 +185,10 @@ func NewPointFromString(gst string, c *Curve) (z *Point) {
 	cstr := C.CString(gst)
 	status := C.mpECP_set_str(z.ecp, cstr, c.ec)
 	runtime.KeepAlive(z)
+	C.free(unsafe.Pointer(cstr))
 	if status != C.int(0) {
 		return nil
 	}
-	C.free(unsafe.Pointer(cstr))
 
 	return z
 }
@@ -204,10 +204,10 @@ func NewPointFromBytes(gby []byte, c *Curve) (z *Point) {
 	l := len(gby)
 	status := C.mpECP_set_bytes(z.ecp, C._toUCP(cby), C.size_t(l), c.ec)
 	runtime.KeepAlive(z)
+	C.free(cby)
 	if status != C.int(0) {
 		return nil
 	}
-	C.free(cby)
 
 	return z
 }
@@ -332,6 +332,7 @@ func (z *Point) Mul(a *Point, b *big.Int) *Point {
 	} else {
 		C.mpECP_scalar_mul_mpz(z.ecp, a.ecp, &bmpz)
 	}
+	C.mpz_clear(&bmpz)
 	z.cv = a.cv
 	runtime.KeepAlive(z)
 	runtime.KeepAlive(a)
-- 
2.43.0


From 98e0e86b1e4c50bfa11e0ce618bcbcfe5425a204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:51 +0000
Subject: [PATCH 48/58] fix: mismatched Go operands and oversized moduli killed
 the process

---
 ecgo/field.go | 14 +++++++++++---
 ecgo/point.go |  6 ++++++
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/ecgo/field.go b/ecgo/field.go
index 1cffe34..952633a 100644
--- a/ecgo/field.go
+++ b/ecgo/field.go
@@ -142,6 +142,11 @@ func c_mpz_to_bigint(m *C.__mpz_struct) (z *big.Int) {
 	return z
 }
 
+// the library aborts on moduli larger than the maximum
+func modulus_usable(field *big.Int) bool {
+	return field.BitLen() <= (_MPFP_Max_Bytes * 8 / 2)
+}
+
 func NewFieldElement(value, field *big.Int) (z *FieldElement) {
 	var vmpz, pmpz C.__mpz_struct
 	var err error
@@ -154,7 +159,7 @@ func NewFieldElement(value, field *big.Int) (z *FieldElement) {
 	}
 	bigint_to_c_mpz_signed(&vmpz, value)
 	err = bigint_to_c_mpz_unsigned(&pmpz, field)
-	if err != nil {
+	if (err != nil) || !modulus_usable(field) {
 		C.mpz_clear(&pmpz)
 		C.mpz_clear(&vmpz)
 		return nil
@@ -185,7 +190,7 @@ func NewFieldElementUI(value uint64, field *big.Int) (z *FieldElement) {
 	}
 	C.mpz_init(&pmpz)
 	err = bigint_to_c_mpz_unsigned(&pmpz, field)
-	if err != nil {
+	if (err != nil) || !modulus_usable(field) {
 		C.mpz_clear(&pmpz)
 		return nil
 	}
@@ -212,7 +217,7 @@ func NewFieldElementURandom(field *big.Int) (z *FieldElement) {
 	}
 	C.mpz_init(&pmpz)
 	err = bigint_to_c_mpz_unsigned(&pmpz, field)
-	if err != nil {
+	if (err != nil) || !modulus_usable(field) {
 		C.mpz_clear(&pmpz)
 		return nil
 	}
@@ -254,6 +259,9 @@ func (z *FieldElement) Order() (r *big.Int) {
 }
 
 func (z *FieldElement) Cmp(a *FieldElement) int {
+	if C._fp_of_fe(z.fe) != C._fp_of_fe(a.fe) {
+		return -1
+	}
 	r := int(C.mpFp_cmp(z.fe, a.fe))
 	runtime.KeepAlive(z)
 	runtime.KeepAlive(a)
diff --git a/ecgo/point.go b/ecgo/point.go
index 2e127e4..7455751 100644
--- a/ecgo/point.go
+++ b/ecgo/point.go
@@ -288,6 +288,9 @@ func (z *Point) Cmp(a *Point) int {
 }
 
 func (z *Point) Add(a, b *Point) *Point {
+	if a.cv.Cmp(b.cv) != 0 {
+		panic("Point.Add: curve mismatch")
+	}
 	C.mpECP_add(z.ecp, a.ecp, b.ecp)
 	z.cv = a.cv
 	runtime.KeepAlive(z)
@@ -297,6 +300,9 @@ func (z *Point) Add(a, b *Point) *Point {
 }
 
 func (z *Point) Sub(a, b *Point) *Point {
+	if a.cv.Cmp(b.cv) != 0 {
+		panic("Point.Sub: curve mismatch")
+	}
 	C.mpECP_sub(z.ecp, a.ecp, b.ecp)
 	z.cv = a.cv
 	runtime.KeepAlive(z)
-- 
2.43.0


From 482cef76ee4e0551c45de9dd51e40d52211d2943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:51 +0000
Subject: [PATCH 49/58] fix: Go strings were truncated at a NUL before they
 were parsed

---
 ecgo/curve.go | 6 +++++-
 ecgo/point.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ecgo/curve.go b/ecgo/curve.go
index 8537cd9..6b98fca 100644
--- a/ecgo/curve.go
+++ b/ecgo/curve.go
@@ -132,7 +132,7 @@ import (
 	//"reflect"
 	"runtime"
 	//"strconv"
-	//"strings"
+	"strings"
 	//"time"
 	"unsafe"
 )
@@ -161,6 +161,10 @@ func CurveNames() []string {
 }
 
 func NamedCurve(name string) (z *Curve) {
+	// C would take the part before a NUL
+	if strings.IndexByte(name, 0) >= 0 {
+		return nil
+	}
 	z = new(Curve)
 	z.ec = C.malloc_ECurve()
 	C.mpECurve_init(z.ec)
diff --git a/ecgo/point.go b/ecgo/point.go
index 7455751..a2a602f 100644
--- a/ecgo/point.go
+++ b/ecgo/point.go
@@ -101,7 +101,7 @@ import (
 	//"reflect"
 	"runtime"
 	//"strconv"
-	//"strings"
+	"strings"
 	//"time"
 	"unsafe"
 )
@@ -176,6 +176,10 @@ func NewPointURandom(c *Curve) (z *Point) {
 }
 
 func NewPointFromString(gst string, c *Curve) (z *Point) {
+	// C would take the part before a NUL
+	if strings.IndexByte(gst, 0) >= 0 {
+		return nil
+	}
 
 	z = new(Point)
 	z.ecp = C.malloc_ECPoint()
-- 
2.43.0


From bd49e89c265120595f482f8dbb29492c2f988bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:51 +0000
Subject: [PATCH 50/58] fix: goroutines sharing a Go signature scheme mixed up
 their digests

---
 ecgo/ecdsa.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/ecgo/ecdsa.go b/ecgo/ecdsa.go
index 13ca489..bc7e069 100644
--- a/ecgo/ecdsa.go
+++ b/ecgo/ecdsa.go
@@ -82,6 +82,7 @@ import (
 	"runtime"
 	//"strconv"
 	//"strings"
+	"sync"
 	//"time"
 	"unsafe"
 )
@@ -90,6 +91,7 @@ type ECDSASignatureScheme struct {
 	css *C._mpECDSASignatureScheme_t
 	cv  *Curve
 	h   hash.Hash
+	hmu sync.Mutex
 }
 
 type ECDSASignature struct {
@@ -117,15 +119,22 @@ func signaturescheme_clear(ss *ECDSASignatureScheme) {
 	C.free_ECDSASignatureScheme(ss.css)
 }
 
+// the scheme may be shared between goroutines
+func (ss *ECDSASignatureScheme) digest(message []byte) []byte {
+	ss.hmu.Lock()
+	defer ss.hmu.Unlock()
+	ss.h.Reset()
+	ss.h.Write(message)
+	return ss.h.Sum(nil)
+}
+
 func signature_clear(sig *ECDSASignature) {
 	C.mpECDSASignature_clear(sig.csig)
 	C.free_ECDSASignature(sig.csig)
 }
 
 func (ss *ECDSASignatureScheme) Sign(sK *big.Int, message []byte) *ECDSASignature {
-	ss.h.Reset()
-	ss.h.Write(message)
-	mhash := C.CBytes(ss.h.Sum(nil))
+	mhash := C.CBytes(ss.digest(message))
 	// ghash := ss.h.Sum(nil)
 	// fmt.Fprintf(os.Stderr, "hash = %s\n", hex.EncodeToString(ghash))
 	hsz := C.size_t(ss.h.Size())
@@ -146,9 +155,7 @@ func (ss *ECDSASignatureScheme) Sign(sK *big.Int, message []byte) *ECDSASignatur
 }
 
 func (sig *ECDSASignature) Verify(pK *Point, message []byte) bool {
-	sig.ss.h.Reset()
-	sig.ss.h.Write(message)
-	mhash := C.CBytes(sig.ss.h.Sum(nil))
+	mhash := C.CBytes(sig.ss.digest(message))
 	hsz := C.size_t(sig.ss.h.Size())
 	status := C.mpECDSASignature_verify_cmp(sig.csig, pK.ecp, C._toUCP(mhash), hsz)
 	runtime.KeepAlive(sig)
-- 
2.43.0


From 47858c4b6b6a37ef59f6fad147f9933a4e0b43f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:31 +0000
Subject: [PATCH 51/58] fix: the list of curve names was never released by the
 Go binding

---
 ecgo/curve.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/ecgo/curve.go b/ecgo/curve.go
index 6b98fca..cb8ff90 100644
--- a/ecgo/curve.go
+++ b/ecgo/curve.go
@@ -53,6 +53,13 @@ package ecgo
 //     return i;
 // }
 //
+// void free_clist(char **list) {
+//     char **l;
+//
+//     for (l = list; *l != NULL; l++) free(*l);
+//     free(list);
+// }
+//
 // __mpz_struct *_p_of_cv(mpECurve_t cv) {
 //     return cv->fp->p;
 // }
@@ -157,7 +164,9 @@ type Curve struct {
 func CurveNames() []string {
 	clist := C._mpECurve_list_standard_curves()
 	cllen := C.clist_len(clist)
-	return goStrings(cllen, clist)
+	names := goStrings(cllen, clist)
+	C.free_clist(clist)
+	return names
 }
 
 func NamedCurve(name string) (z *Curve) {
-- 
2.43.0


From d9674d7df265ed0ba17381931af885e0f739250d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 52/58] fix: writing very short messages as base64 overflowed
 the buffer

---
 examples/b64file.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/examples/b64file.c b/examples/b64file.c
index 5280e31..8796bc9 100644
--- a/examples/b64file.c
+++ b/examples/b64file.c
@@ -46,8 +46,9 @@ int write_b64wrapped_to_file(FILE *fPtr, char* bindata, int sz, char *wrap) {
     assert(fPtr != NULL);
     assert(sz > 0);
 
-    // allocate buffer big enough for b64 encoding > 4/3 * sz
-    enc = (char *)malloc((2 * sz) * sizeof(char));
+    // allocate buffer big enough for b64 encoding: four characters for each
+    // (started) group of three octets, line breaks and the terminating NUL
+    enc = (char *)malloc((((size_t)sz + 2) / 3 * 4 + (size_t)sz / 32 + 4) * sizeof(char));
     c = enc;
     base64_init_encodestate(&b64state);
     c += base64_encode_block(bindata, sz, c, &b64state);
-- 
2.43.0


From 454d18f33fafcd05e9139750d3f30123d9a8ec74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 53/58] fix: the example programs never ended when reading a
 file failed

---
 examples/b64file.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/examples/b64file.c b/examples/b64file.c
index 8796bc9..c5501d9 100644
--- a/examples/b64file.c
+++ b/examples/b64file.c
@@ -94,6 +94,7 @@ char *read_buffer_from_file(FILE *fPtr, size_t *sz) {
         read = fread(next->buffer, sizeof(char), _B64W_READ_CHUNK_SIZE, fPtr);
         len += read;
         next->sz = read;
+        if (ferror(fPtr)) goto error_cleanup;
         if (feof(fPtr)) {
             break;
         }
-- 
2.43.0


From af9226164791eb17c2c997f64b2a215939e92f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 54/58] fix: ecdsa_verify parsed a copy of the file that was
 not NUL terminated

---
 examples/ecdsa_verify.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/examples/ecdsa_verify.c b/examples/ecdsa_verify.c
index b66aa7c..f19e7e4 100644
--- a/examples/ecdsa_verify.c
+++ b/examples/ecdsa_verify.c
@@ -125,8 +125,9 @@ int main(int argc, char **argv) {
     }
     fclose(fPtr);
     
-    dercp = malloc(sz*sizeof(char));
-    memcpy(dercp, der, sz);
+    // include the terminating NUL which read_buffer_from_file appends
+    dercp = malloc((sz + 1)*sizeof(char));
+    memcpy(dercp, der, sz + 1);
 
     sigbytes = (unsigned char *)read_b64wrapped_from_buffer(der, "ECDSA SIGNATURE", &siglen);
     if (sigbytes == NULL) {
-- 
2.43.0


From 2ada4fb6ea588a23ad83fba7378744cc990e6c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 55/58] fix: ecdh_enc and ecdsa_sign used uninitialized memory
 for an empty message

---
 examples/ecdh_enc.c   | 4 ++++
 examples/ecdsa_sign.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/examples/ecdh_enc.c b/examples/ecdh_enc.c
index da9cf8d..a1b5569 100644
--- a/examples/ecdh_enc.c
+++ b/examples/ecdh_enc.c
@@ -113,6 +113,10 @@ int main(int argc, char **argv) {
     }
 
     msg = (unsigned char *)read_buffer_from_file(fPtr, &msglen);
+    if (msg == NULL) {
+        fprintf(stderr,"<Error>: unable to read input file\n");
+        exit(1);
+    }
     fclose(fPtr);
 
     // HERE IS WHERE THE ACTUAL EXAMPLE STARTS... everything before is
diff --git a/examples/ecdsa_sign.c b/examples/ecdsa_sign.c
index 6339a3f..72e728b 100644
--- a/examples/ecdsa_sign.c
+++ b/examples/ecdsa_sign.c
@@ -116,6 +116,10 @@ int main(int argc, char **argv) {
     }
 
     msg = (unsigned char *)read_buffer_from_file(fPtr, &msglen);
+    if (msg == NULL) {
+        fprintf(stderr,"<Error>: unable to read input file\n");
+        exit(1);
+    }
     fclose(fPtr);
 
     // HERE IS WHERE THE ACTUAL EXAMPLE STARTS... everything before is
-- 
2.43.0


From cc1b9078070197ff1a7d66875f01e5e763351501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 56/58] fix: ecdh_dec used short nonces and invalid ephemeral
 keys of the message

---
 examples/ecdh_dec.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/examples/ecdh_dec.c b/examples/ecdh_dec.c
index f837cbb..1493d5e 100644
--- a/examples/ecdh_dec.c
+++ b/examples/ecdh_dec.c
@@ -145,14 +145,22 @@ int main(int argc, char **argv) {
         exit(1);
     }
     free(der);
-    
+
+    if (nsz != (int)sizeof(nonce)) {
+        fprintf(stderr,"<Error>: Unable to import message, invalid nonce\n");
+        exit(1);
+    }
+
     // instantiate generator point for curve
     mpECP_init(Gpt, cv);
     mpECP_set_mpz(Gpt, cv->G[0], cv->G[1], cv);
 
     // public (ephemeral key point = private key scalar * G
     mpECP_init(Ppt, cv);
-    mpECP_set_bytes(Ppt, ptxt, psz, cv);
+    if (mpECP_set_bytes(Ppt, ptxt, psz, cv) != 0) {
+        fprintf(stderr,"<Error>: Unable to import message, public key not valid for curve\n");
+        exit(1);
+    }
     free(ptxt);
 
     // shared (ECDH) key using 
-- 
2.43.0


From 283a0ce8d45402138a284e9d8b08ffb1cda0cd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:59 +0000
Subject: [PATCH 57/58] fix: malformed keys, messages and ciphertexts crashed
 the importers or were accepted

---
 examples/ecdh_der.c    |  57 ++++++++++++++++-------
 examples/elgamal_der.c | 100 ++++++++++++++++++-----------------------
 2 files changed, 85 insertions(+), 72 deletions(-)

diff --git a/examples/ecdh_der.c b/examples/ecdh_der.c
index d131164..65dcd84 100644
--- a/examples/ecdh_der.c
+++ b/examples/ecdh_der.c
@@ -65,13 +65,15 @@ static int myasn1_read_octet_string_to_bytes(ASN1_TYPE root, const char *name, u
 
     len_test = 0;
     result = asn1_read_value(root, name, NULL, &len_test);
-    if (result != ASN1_MEM_ERROR) return -1;
-    assert(len_test > 0);
+    if ((result != ASN1_MEM_ERROR) || (len_test < 1)) return -1;
     buffer = (unsigned char *)malloc((len_test + 1)*sizeof(char));
 
     len_read = len_test + 1;
     result = asn1_read_value(root, name, buffer, &len_read);
-    assert(len_read == len_test);
+    if ((result != ASN1_SUCCESS) || (len_read != len_test)) {
+        free(buffer);
+        return -1;
+    }
 
     *sz = len_read;
     *buf = buffer;
@@ -83,7 +85,6 @@ static int myasn1_read_octet_string_to_mpz(ASN1_TYPE root, const char *name, mpz
     int sz;
 
     if (myasn1_read_octet_string_to_bytes(root, name, &buffer, &sz) != 0) {
-        free(buffer);
         return -1;
     }
     // read big endian word and byte (1, 1), 0 nails
@@ -102,12 +103,10 @@ static int myasn1_read_integer_to_int(asn1_node root, const char *name, int *val
     length = 0;
     result = asn1_read_value(root, name, NULL, &length);
     if (result != ASN1_MEM_ERROR) return -1;
-    assert(length > 0);
-    assert(length <= sizeof(int));
+    if ((length < 1) || (length > (int)sizeof(int))) return -1;
     lread = sizeof(int);
     result = asn1_read_value(root, name, &uvalue, &lread);
-    assert(result == ASN1_SUCCESS);
-    assert(lread == length);
+    if ((result != ASN1_SUCCESS) || (lread != length)) return -1;
     *value = (int)be32toh(uvalue);
     //printf("value = 0x%08X", *value);
     if (length < sizeof(int)) {
@@ -283,7 +282,10 @@ int _ecdh_der_import_privkey(mpz_t privkey, mpECurve_t cv, char *der, size_t sz)
 
     // read DER into ASN1 structure
     result = asn1_der_decoding(&privkey_asn1, der, sz, asnError);
-    if (result != ASN1_SUCCESS) return -1;
+    if (result != ASN1_SUCCESS) {
+        asn1_delete_structure(&ecdhe_asn1);
+        return -1;
+    }
 
     //printf("-----------------\n");
     //asn1_print_structure(stdout, privkey_asn1, "", ASN1_PRINT_ALL);
@@ -520,7 +522,7 @@ int _ecdh_der_init_import_pubkey(mpECP_t pubkey, mpECurve_t cv, char *der, size_
     mpz_t cv_p2;
     int cv_type;
     int cv_bits;
-    unsigned char *rawpubkey;
+    unsigned char *rawpubkey = NULL;
     int rawpubkeysz;
 
     // read ASN1 syntax
@@ -543,7 +545,10 @@ int _ecdh_der_init_import_pubkey(mpECP_t pubkey, mpECurve_t cv, char *der, size_
 
     // read DER into ASN1 structure
     result = asn1_der_decoding(&pubkey_asn1, der, sz, asnError);
-    if (result != ASN1_SUCCESS) return -1;
+    if (result != ASN1_SUCCESS) {
+        asn1_delete_structure(&ecdhe_asn1);
+        return -1;
+    }
 
     //printf("-----------------\n");
     //asn1_print_structure(stdout, privkey_asn1, "", ASN1_PRINT_ALL);
@@ -616,12 +621,14 @@ int _ecdh_der_init_import_pubkey(mpECP_t pubkey, mpECurve_t cv, char *der, size_
         result = -1;
     }
 
+    if (result != 0) {
+        mpECurve_clear(cv);
+        goto error_cleanup;
+    }
+
     mpECP_init(pubkey, cv);
+    result = mpECP_set_bytes(pubkey, rawpubkey, rawpubkeysz, cv);
     if (result == 0) {
-        result = mpECP_set_bytes(pubkey, rawpubkey, rawpubkeysz, cv);
-    }
-    free(rawpubkey);
-    {
         mpz_t px;
         mpz_t py;
 
@@ -633,8 +640,13 @@ int _ecdh_der_init_import_pubkey(mpECP_t pubkey, mpECurve_t cv, char *der, size_
         mpz_clear(py);
         mpz_clear(px);
     }
+    if (result != 0) {
+        mpECP_clear(pubkey);
+        mpECurve_clear(cv);
+    }
 
 error_cleanup:
+    free(rawpubkey);
     asn1_delete_structure(&pubkey_asn1);
     asn1_delete_structure(&ecdhe_asn1);
     mpz_clear(cv_p2);
@@ -725,6 +737,10 @@ int _ecdhe_der_init_import_message(unsigned char **ptxt, int *psz,
     char asnError[ASN1_MAX_ERROR_DESCRIPTION_SIZE];
     int result;
 
+    *ptxt = NULL;
+    *ntxt = NULL;
+    *ctxt = NULL;
+
     // read ASN1 syntax
     result = asn1_array2tree(ecdhe_asn1_tab, &ecdhe_asn1, asnError);
 
@@ -745,7 +761,10 @@ int _ecdhe_der_init_import_message(unsigned char **ptxt, int *psz,
 
     // read DER into ASN1 structure
     result = asn1_der_decoding(&pubkey_asn1, der, sz, asnError);
-    if (result != ASN1_SUCCESS) return -1;
+    if (result != ASN1_SUCCESS) {
+        asn1_delete_structure(&ecdhe_asn1);
+        return -1;
+    }
 
     //printf("-----------------\n");
     //asn1_print_structure(stdout, pubkey_asn1, "", ASN1_PRINT_ALL);
@@ -764,6 +783,12 @@ int _ecdhe_der_init_import_message(unsigned char **ptxt, int *psz,
     if (result != 0) goto error_cleanup;
 
 error_cleanup:
+    if (result != 0) {
+        free(*ptxt);
+        free(*ntxt);
+        *ptxt = NULL;
+        *ntxt = NULL;
+    }
     asn1_delete_structure(&pubkey_asn1);
     asn1_delete_structure(&ecdhe_asn1);
     return result;
diff --git a/examples/elgamal_der.c b/examples/elgamal_der.c
index 3be5759..555660d 100644
--- a/examples/elgamal_der.c
+++ b/examples/elgamal_der.c
@@ -46,13 +46,15 @@ static int myasn1_read_octet_string_to_bytes(ASN1_TYPE root, const char *name, u
 
     len_test = 0;
     result = asn1_read_value(root, name, NULL, &len_test);
-    if (result != ASN1_MEM_ERROR) return -1;
-    assert(len_test > 0);
+    if ((result != ASN1_MEM_ERROR) || (len_test < 1)) return -1;
     buffer = (unsigned char *)malloc((len_test + 1)*sizeof(char));
 
     len_read = len_test + 1;
     result = asn1_read_value(root, name, buffer, &len_read);
-    assert(len_read == len_test);
+    if ((result != ASN1_SUCCESS) || (len_read != len_test)) {
+        free(buffer);
+        return -1;
+    }
 
     *sz = len_read;
     *buf = buffer;
@@ -83,7 +85,6 @@ static int myasn1_read_octet_string_to_mpz(ASN1_TYPE root, const char *name, mpz
     int sz;
 
     if (myasn1_read_octet_string_to_bytes(root, name, &buffer, &sz) != 0) {
-        free(buffer);
         return -1;
     }
     // read big endian word and byte (1, 1), 0 nails
@@ -102,12 +103,10 @@ static int myasn1_read_integer_to_int(asn1_node root, const char *name, int *val
     length = 0;
     result = asn1_read_value(root, name, NULL, &length);
     if (result != ASN1_MEM_ERROR) return -1;
-    assert(length > 0);
-    assert(length <= sizeof(int));
+    if ((length < 1) || (length > (int)sizeof(int))) return -1;
     lread = sizeof(int);
     result = asn1_read_value(root, name, &uvalue, &lread);
-    assert(result == ASN1_SUCCESS);
-    assert(lread == length);
+    if ((result != ASN1_SUCCESS) || (lread != length)) return -1;
     *value = (int)be32toh(uvalue);
     //printf("value = 0x%08X", *value);
     if (length < sizeof(int)) {
@@ -117,6 +116,33 @@ static int myasn1_read_integer_to_int(asn1_node root, const char *name, int *val
     return 0;
 }
 
+static int myasn1_read_point(mpECP_t pt, ASN1_TYPE root, const char *name, mpECurve_t cv) {
+    unsigned char *raw;
+    int rawsz;
+    int result;
+
+    result = myasn1_read_octet_string_to_bytes(root, name, &raw, &rawsz);
+    if (result != 0) return result;
+
+    mpECP_init(pt, cv);
+    result = mpECP_set_bytes(pt, raw, rawsz, cv);
+    free(raw);
+    if (result == 0) {
+        mpz_t px;
+        mpz_t py;
+
+        mpz_init(px);
+        mpz_init(py);
+        mpz_set_mpECP_affine_x(px, pt);
+        mpz_set_mpECP_affine_y(py, pt);
+        if (!mpECurve_point_check(cv, px, py)) result = -1;
+        mpz_clear(py);
+        mpz_clear(px);
+    }
+    if (result != 0) mpECP_clear(pt);
+    return result;
+}
+
 char *_ecelgamal_der_export_ciphertxt(mpECElgamalCiphertext_t ctxt, size_t *sz) {
     ASN1_TYPE eceg_asn1 = ASN1_TYPE_EMPTY;
     ASN1_TYPE ct_asn1 = ASN1_TYPE_EMPTY;
@@ -307,7 +333,10 @@ int _ecelgamal_der_import_ciphertxt(mpECElgamalCiphertext_t ctxt, mpECurve_t cv,
 
     // read DER into ASN1 structure
     result = asn1_der_decoding(&ct_asn1, der, sz, asnError);
-    if (result != ASN1_SUCCESS) return -1;
+    if (result != ASN1_SUCCESS) {
+        asn1_delete_structure(&eceg_asn1);
+        return -1;
+    }
 
     //printf("-----------------\n");
     //asn1_print_structure(stdout, ct_asn1, "", ASN1_PRINT_ALL);
@@ -374,54 +403,13 @@ int _ecelgamal_der_import_ciphertxt(mpECElgamalCiphertext_t ctxt, mpECurve_t cv,
         result = -1;
     }
 
-    {
-        unsigned char *rawpubkey;
-        int rawpubkeysz;
-
-        // ciphertext points
-        result = myasn1_read_octet_string_to_bytes(ct_asn1, "c", &rawpubkey, &rawpubkeysz);
-        if (result != 0) goto error_cleanup;
-
-        mpECP_init(ctxt->C, cv);
-        if (result == 0) {
-            result = mpECP_set_bytes(ctxt->C, rawpubkey, rawpubkeysz, cv);
-        }
-        free(rawpubkey);
-        {
-            mpz_t px;
-            mpz_t py;
-    
-            mpz_init(px);
-            mpz_init(py);
-            mpz_set_mpECP_affine_x(px, ctxt->C);
-            mpz_set_mpECP_affine_y(py, ctxt->C);
-            if (!mpECurve_point_check(cv, px, py)) result = -1;
-            mpz_clear(py);
-            mpz_clear(px);
-        }
-
-        result = myasn1_read_octet_string_to_bytes(ct_asn1, "d", &rawpubkey, &rawpubkeysz);
-        if (result != 0) goto error_cleanup;
-
-        mpECP_init(ctxt->D, cv);
-        if (result == 0) {
-            result = mpECP_set_bytes(ctxt->D, rawpubkey, rawpubkeysz, cv);
-        }
-        free(rawpubkey);
-        {
-            mpz_t px;
-            mpz_t py;
-    
-            mpz_init(px);
-            mpz_init(py);
-            mpz_set_mpECP_affine_x(px, ctxt->D);
-            mpz_set_mpECP_affine_y(py, ctxt->D);
-            if (!mpECurve_point_check(cv, px, py)) result = -1;
-            mpz_clear(py);
-            mpz_clear(px);
-        }
+    if (result != 0) goto error_cleanup;
 
-    }
+    // ciphertext points
+    result = myasn1_read_point(ctxt->C, ct_asn1, "c", cv);
+    if (result != 0) goto error_cleanup;
+    result = myasn1_read_point(ctxt->D, ct_asn1, "d", cv);
+    if (result != 0) mpECP_clear(ctxt->C);
 
 error_cleanup:
     asn1_delete_structure(&ct_asn1);
-- 
2.43.0


From 63c420168ac45ab078286083fc001967c34ef803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:46 +0000
Subject: [PATCH 58/58] Undo the changes to examples/: the example programs
 count as test files here

Restores examples/ as in 47858c4; their defects are recorded in /verif/known_findings.txt.
---
 examples/b64file.c      |   6 +--
 examples/ecdh_dec.c     |  12 +----
 examples/ecdh_der.c     |  57 +++++++----------------
 examples/ecdh_enc.c     |   4 --
 examples/ecdsa_sign.c   |   4 --
 examples/ecdsa_verify.c |   5 +-
 examples/elgamal_der.c  | 100 ++++++++++++++++++++++------------------
 7 files changed, 78 insertions(+), 110 deletions(-)

diff --git a/examples/b64file.c b/examples/b64file.c
index c5501d9..5280e31 100644
--- a/examples/b64file.c
+++ b/examples/b64file.c
@@ -46,9 +46,8 @@ int write_b64wrapped_to_file(FILE *fPtr, char* bindata, int sz, char *wrap) {
     assert(fPtr != NULL);
     assert(sz > 0);
 
-    // allocate buffer big enough for b64 encoding: four characters for each
-    // (started) group of three octets, line breaks and the terminating NUL
-    enc = (char *)malloc((((size_t)sz + 2) / 3 * 4 + (size_t)sz / 32 + 4) * sizeof(char));
+    // allocate buffer big enough for b64 encoding > 4/3 * sz
+    enc = (char *)malloc((2 * sz) * sizeof(char));
     c = enc;
     base64_init_encodestate(&b64state);
     c += base64_encode_block(bindata, sz, c, &b64state);
@@ -94,7 +93,6 @@ char *read_buffer_from_file(FILE *fPtr, size_t *sz) {
         read = fread(next->buffer, sizeof(char), _B64W_READ_CHUNK_SIZE, fPtr);
         len += read;
         next->sz = read;
-        if (ferror(fPtr)) goto error_cleanup;
         if (feof(fPtr)) {
             break;
         }
diff --git a/examples/ecdh_dec.c b/examples/ecdh_dec.c
index 1493d5e..f837cbb 100644
--- a/examples/ecdh_dec.c
+++ b/examples/ecdh_dec.c
@@ -145,22 +145,14 @@ int main(int argc, char **argv) {
         exit(1);
     }
     free(der);
-
-    if (nsz != (int)sizeof(nonce)) {
-        fprintf(stderr,"<Error>: Unable to import message, invalid nonce\n");
-        exit(1);
-    }
-
+    
     // instantiate generator point for curve
     mpECP_init(Gpt, cv);
     mpECP_set_mpz(Gpt, cv->G[0], cv->G[1], cv);
 
     // public (ephemeral key point = private key scalar * G
     mpECP_init(Ppt, cv);
-    if (mpECP_set_bytes(Ppt, ptxt, psz, cv) != 0) {
-        fprintf(stderr,"<Error>: Unable to import message, public key not valid for curve\n");
-        exit(1);
-    }
+    mpECP_set_bytes(Ppt, ptxt, psz, cv);
     free(ptxt);
 
     // shared (ECDH) key using 
diff --git a/examples/ecdh_der.c b/examples/ecdh_der.c
index 65dcd84..d131164 100644
--- a/examples/ecdh_der.c
+++ b/examples/ecdh_der.c
@@ -65,15 +65,13 @@ static int myasn1_read_octet_string_to_bytes(ASN1_TYPE root, const char *name, u
 
     len_test = 0;
     result = asn1_read_value(root, name, NULL, &len_test);
-    if ((result != ASN1_MEM_ERROR) || (len_test < 1)) return -1;
+    if (result != ASN1_MEM_ERROR) return -1;
+    assert(len_test > 0);
     buffer = (unsigned char *)malloc((len_test + 1)*sizeof(char));
 
     len_read = len_test + 1;
     result = asn1_read_value(root, name, buffer, &len_read);
-    if ((result != ASN1_SUCCESS) || (len_read != len_test)) {
-        free(buffer);
-        return -1;
-    }
+    assert(len_read == len_test);
 
     *sz = len_read;
     *buf = buffer;
@@ -85,6 +83,7 @@ static int myasn1_read_octet_string_to_mpz(ASN1_TYPE root, const char *name, mpz
     int sz;
 
     if (myasn1_read_octet_string_to_bytes(root, name, &buffer, &sz) != 0) {
+        free(buffer);
         return -1;
     }
     // read big endian word and byte (1, 1), 0 nails
@@ -103,10 +102,12 @@ static int myasn1_read_integer_to_int(asn1_node root, const char *name, int *val
     length = 0;
     result = asn1_read_value(root, name, NULL, &length);
     if (result != ASN1_MEM_ERROR) return -1;
-    if ((length < 1) || (length > (int)sizeof(int))) return -1;
+    assert(length > 0);
+    assert(length <= sizeof(int));
     lread = sizeof(int);
     result = asn1_read_value(root, name, &uvalue, &lread);
-    if ((result != ASN1_SUCCESS) || (lread != length)) return -1;
+    assert(result == ASN1_SUCCESS);
+    assert(lread == length);
     *value = (int)be32toh(uvalue);
     //printf("value = 0x%08X", *value);
     if (length < sizeof(int)) {
@@ -282,10 +283,7 @@ int _ecdh_der_import_privkey(mpz_t privkey, mpECurve_t cv, char *der, size_t sz)
 
     // read DER into ASN1 structure
     result = asn1_der_decoding(&privkey_asn1, der, sz, asnError);
-    if (result != ASN1_SUCCESS) {
-        asn1_delete_structure(&ecdhe_asn1);
-        return -1;
-    }
+    if (result != ASN1_SUCCESS) return -1;
 
     //printf("-----------------\n");
     //asn1_print_structure(stdout, privkey_asn1, "", ASN1_PRINT_ALL);
@@ -522,7 +520,7 @@ int _ecdh_der_init_import_pubkey(mpECP_t pubkey, mpECurve_t cv, char *der, size_
     mpz_t cv_p2;
     int cv_type;
     int cv_bits;
-    unsigned char *rawpubkey = NULL;
+    unsigned char *rawpubkey;
     int rawpubkeysz;
 
     // read ASN1 syntax
@@ -545,10 +543,7 @@ int _ecdh_der_init_import_pubkey(mpECP_t pubkey, mpECurve_t cv, char *der, size_
 
     // read DER into ASN1 structure
     result = asn1_der_decoding(&pubkey_asn1, der, sz, asnError);
-    if (result != ASN1_SUCCESS) {
-        asn1_delete_structure(&ecdhe_asn1);
-        return -1;
-    }
+    if (result != ASN1_SUCCESS) return -1;
 
     //printf("-----------------\n");
     //asn1_print_structure(stdout, privkey_asn1, "", ASN1_PRINT_ALL);
@@ -621,14 +616,12 @@ int _ecdh_der_init_import_pubkey(mpECP_t pubkey, mpECurve_t cv, char *der, size_
         result = -1;
     }
 
-    if (result != 0) {
-        mpECurve_clear(cv);
-        goto error_cleanup;
-    }
-
     mpECP_init(pubkey, cv);
-    result = mpECP_set_bytes(pubkey, rawpubkey, rawpubkeysz, cv);
     if (result == 0) {
+        result = mpECP_set_bytes(pubkey, rawpubkey, rawpubkeysz, cv);
+    }
+    free(rawpubkey);
+    {
         mpz_t px;
         mpz_t py;
 
@@ -640,13 +633,8 @@ int _ecdh_der_init_import_pubkey(mpECP_t pubkey, mpECurve_t cv, char *der, size_
         mpz_clear(py);
         mpz_clear(px);
     }
-    if (result != 0) {
-        mpECP_clear(pubkey);
-        mpECurve_clear(cv);
-    }
 
 error_cleanup:
-    free(rawpubkey);
     asn1_delete_structure(&pubkey_asn1);
     asn1_delete_structure(&ecdhe_asn1);
     mpz_clear(cv_p2);
@@ -737,10 +725,6 @@ int _ecdhe_der_init_import_message(unsigned char **ptxt, int *psz,
     char asnError[ASN1_MAX_ERROR_DESCRIPTION_SIZE];
     int result;
 
-    *ptxt = NULL;
-    *ntxt = NULL;
-    *ctxt = NULL;
-
     // read ASN1 syntax
     result = asn1_array2tree(ecdhe_asn1_tab, &ecdhe_asn1, asnError);
 
@@ -761,10 +745,7 @@ int _ecdhe_der_init_import_message(unsigned char **ptxt, int *psz,
 
     // read DER into ASN1 structure
     result = asn1_der_decoding(&pubkey_asn1, der, sz, asnError);
-    if (result != ASN1_SUCCESS) {
-        asn1_delete_structure(&ecdhe_asn1);
-        return -1;
-    }
+    if (result != ASN1_SUCCESS) return -1;
 
     //printf("-----------------\n");
     //asn1_print_structure(stdout, pubkey_asn1, "", ASN1_PRINT_ALL);
@@ -783,12 +764,6 @@ int _ecdhe_der_init_import_message(unsigned char **ptxt, int *psz,
     if (result != 0) goto error_cleanup;
 
 error_cleanup:
-    if (result != 0) {
-        free(*ptxt);
-        free(*ntxt);
-        *ptxt = NULL;
-        *ntxt = NULL;
-    }
     asn1_delete_structure(&pubkey_asn1);
     asn1_delete_structure(&ecdhe_asn1);
     return result;
diff --git a/examples/ecdh_enc.c b/examples/ecdh_enc.c
index a1b5569..da9cf8d 100644
--- a/examples/ecdh_enc.c
+++ b/examples/ecdh_enc.c
@@ -113,10 +113,6 @@ int main(int argc, char **argv) {
     }
 
     msg = (unsigned char *)read_buffer_from_file(fPtr, &msglen);
-    if (msg == NULL) {
-        fprintf(stderr,"<Error>: unable to read input file\n");
-        exit(1);
-    }
     fclose(fPtr);
 
     // HERE IS WHERE THE ACTUAL EXAMPLE STARTS... everything before is
diff --git a/examples/ecdsa_sign.c b/examples/ecdsa_sign.c
index 72e728b..6339a3f 100644
--- a/examples/ecdsa_sign.c
+++ b/examples/ecdsa_sign.c
@@ -116,10 +116,6 @@ int main(int argc, char **argv) {
     }
 
     msg = (unsigned char *)read_buffer_from_file(fPtr, &msglen);
-    if (msg == NULL) {
-        fprintf(stderr,"<Error>: unable to read input file\n");
-        exit(1);
-    }
     fclose(fPtr);
 
     // HERE IS WHERE THE ACTUAL EXAMPLE STARTS... everything before is
diff --git a/examples/ecdsa_verify.c b/examples/ecdsa_verify.c
index f19e7e4..b66aa7c 100644
--- a/examples/ecdsa_verify.c
+++ b/examples/ecdsa_verify.c
@@ -125,9 +125,8 @@ int main(int argc, char **argv) {
     }
     fclose(fPtr);
     
-    // include the terminating NUL which read_buffer_from_file appends
-    dercp = malloc((sz + 1)*sizeof(char));
-    memcpy(dercp, der, sz + 1);
+    dercp = malloc(sz*sizeof(char));
+    memcpy(dercp, der, sz);
 
     sigbytes = (unsigned char *)read_b64wrapped_from_buffer(der, "ECDSA SIGNATURE", &siglen);
     if (sigbytes == NULL) {
diff --git a/examples/elgamal_der.c b/examples/elgamal_der.c
index 555660d..3be5759 100644
--- a/examples/elgamal_der.c
+++ b/examples/elgamal_der.c
@@ -46,15 +46,13 @@ static int myasn1_read_octet_string_to_bytes(ASN1_TYPE root, const char *name, u
 
     len_test = 0;
     result = asn1_read_value(root, name, NULL, &len_test);
-    if ((result != ASN1_MEM_ERROR) || (len_test < 1)) return -1;
+    if (result != ASN1_MEM_ERROR) return -1;
+    assert(len_test > 0);
     buffer = (unsigned char *)malloc((len_test + 1)*sizeof(char));
 
     len_read = len_test + 1;
     result = asn1_read_value(root, name, buffer, &len_read);
-    if ((result != ASN1_SUCCESS) || (len_read != len_test)) {
-        free(buffer);
-        return -1;
-    }
+    assert(len_read == len_test);
 
     *sz = len_read;
     *buf = buffer;
@@ -85,6 +83,7 @@ static int myasn1_read_octet_string_to_mpz(ASN1_TYPE root, const char *name, mpz
     int sz;
 
     if (myasn1_read_octet_string_to_bytes(root, name, &buffer, &sz) != 0) {
+        free(buffer);
         return -1;
     }
     // read big endian word and byte (1, 1), 0 nails
@@ -103,10 +102,12 @@ static int myasn1_read_integer_to_int(asn1_node root, const char *name, int *val
     length = 0;
     result = asn1_read_value(root, name, NULL, &length);
     if (result != ASN1_MEM_ERROR) return -1;
-    if ((length < 1) || (length > (int)sizeof(int))) return -1;
+    assert(length > 0);
+    assert(length <= sizeof(int));
     lread = sizeof(int);
     result = asn1_read_value(root, name, &uvalue, &lread);
-    if ((result != ASN1_SUCCESS) || (lread != length)) return -1;
+    assert(result == ASN1_SUCCESS);
+    assert(lread == length);
     *value = (int)be32toh(uvalue);
     //printf("value = 0x%08X", *value);
     if (length < sizeof(int)) {
@@ -116,33 +117,6 @@ static int myasn1_read_integer_to_int(asn1_node root, const char *name, int *val
     return 0;
 }
 
-static int myasn1_read_point(mpECP_t pt, ASN1_TYPE root, const char *name, mpECurve_t cv) {
-    unsigned char *raw;
-    int rawsz;
-    int result;
-
-    result = myasn1_read_octet_string_to_bytes(root, name, &raw, &rawsz);
-    if (result != 0) return result;
-
-    mpECP_init(pt, cv);
-    result = mpECP_set_bytes(pt, raw, rawsz, cv);
-    free(raw);
-    if (result == 0) {
-        mpz_t px;
-        mpz_t py;
-
-        mpz_init(px);
-        mpz_init(py);
-        mpz_set_mpECP_affine_x(px, pt);
-        mpz_set_mpECP_affine_y(py, pt);
-        if (!mpECurve_point_check(cv, px, py)) result = -1;
-        mpz_clear(py);
-        mpz_clear(px);
-    }
-    if (result != 0) mpECP_clear(pt);
-    return result;
-}
-
 char *_ecelgamal_der_export_ciphertxt(mpECElgamalCiphertext_t ctxt, size_t *sz) {
     ASN1_TYPE eceg_asn1 = ASN1_TYPE_EMPTY;
     ASN1_TYPE ct_asn1 = ASN1_TYPE_EMPTY;
@@ -333,10 +307,7 @@ int _ecelgamal_der_import_ciphertxt(mpECElgamalCiphertext_t ctxt, mpECurve_t cv,
 
     // read DER into ASN1 structure
     result = asn1_der_decoding(&ct_asn1, der, sz, asnError);
-    if (result != ASN1_SUCCESS) {
-        asn1_delete_structure(&eceg_asn1);
-        return -1;
-    }
+    if (result != ASN1_SUCCESS) return -1;
 
     //printf("-----------------\n");
     //asn1_print_structure(stdout, ct_asn1, "", ASN1_PRINT_ALL);
@@ -403,13 +374,54 @@ int _ecelgamal_der_import_ciphertxt(mpECElgamalCiphertext_t ctxt, mpECurve_t cv,
         result = -1;
     }
 
-    if (result != 0) goto error_cleanup;
+    {
+        unsigned char *rawpubkey;
+        int rawpubkeysz;
+
+        // ciphertext points
+        result = myasn1_read_octet_string_to_bytes(ct_asn1, "c", &rawpubkey, &rawpubkeysz);
+        if (result != 0) goto error_cleanup;
+
+        mpECP_init(ctxt->C, cv);
+        if (result == 0) {
+            result = mpECP_set_bytes(ctxt->C, rawpubkey, rawpubkeysz, cv);
+        }
+        free(rawpubkey);
+        {
+            mpz_t px;
+            mpz_t py;
+    
+            mpz_init(px);
+            mpz_init(py);
+            mpz_set_mpECP_affine_x(px, ctxt->C);
+            mpz_set_mpECP_affine_y(py, ctxt->C);
+            if (!mpECurve_point_check(cv, px, py)) result = -1;
+            mpz_clear(py);
+            mpz_clear(px);
+        }
+
+        result = myasn1_read_octet_string_to_bytes(ct_asn1, "d", &rawpubkey, &rawpubkeysz);
+        if (result != 0) goto error_cleanup;
+
+        mpECP_init(ctxt->D, cv);
+        if (result == 0) {
+            result = mpECP_set_bytes(ctxt->D, rawpubkey, rawpubkeysz, cv);
+        }
+        free(rawpubkey);
+        {
+            mpz_t px;
+            mpz_t py;
+    
+            mpz_init(px);
+            mpz_init(py);
+            mpz_set_mpECP_affine_x(px, ctxt->D);
+            mpz_set_mpECP_affine_y(py, ctxt->D);
+            if (!mpECurve_point_check(cv, px, py)) result = -1;
+            mpz_clear(py);
+            mpz_clear(px);
+        }
 
-    // ciphertext points
-    result = myasn1_read_point(ctxt->C, ct_asn1, "c", cv);
-    if (result != 0) goto error_cleanup;
-    result = myasn1_read_point(ctxt->D, ct_asn1, "d", cv);
-    if (result != 0) mpECP_clear(ctxt->C);
+    }
 
 error_cleanup:
     asn1_delete_structure(&ct_asn1);
-- 
2.43.0

