From d56ae3cb22211dafbcd8c60c046436a227aaf546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:00 +0000
Subject: [PATCH 01/58] fix: column-wise and Toom-3 products must not keep or
 carry an operand sign

The column-wise multiply/square wrote into the destination without resetting
its sign, so squaring into a previously negative number gave a negative square;
Toom-3 returned a signed product where all the other algorithms return the
product of the magnitudes.
---
 src/mpi/mpi_mul_comba.c | 1 +
 src/mpi/mpi_mul_toom3.c | 1 +
 src/mpi/mpi_sqr_comba.c | 3 ++-
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mpi/mpi_mul_comba.c b/src/mpi/mpi_mul_comba.c
index 11804c3..4848aa9 100644
--- a/src/mpi/mpi_mul_comba.c
+++ b/src/mpi/mpi_mul_comba.c
@@ -24,6 +24,7 @@ int cry_mpi_mul_comba(cry_mpi *r, const cry_mpi *a, const cry_mpi *b)
         dst = r;
     }
     cry_mpi_set_used(dst, pa);
+    dst->sign = 0;
 
     c1 = c2 = 0;
     for (ix = 0; ix < pa; ix++) {
diff --git a/src/mpi/mpi_mul_toom3.c b/src/mpi/mpi_mul_toom3.c
index b6ab707..4098763 100644
--- a/src/mpi/mpi_mul_toom3.c
+++ b/src/mpi/mpi_mul_toom3.c
@@ -212,6 +212,7 @@ int cry_mpi_mul_toom3(cry_mpi *r, const cry_mpi *a, const cry_mpi *b)
     CRY_CHK(res = cry_mpi_add(&t1, &w2, &w3), e);
     CRY_CHK(res = cry_mpi_add(&t1, &w4, &t1), e);
     CRY_CHK(res = cry_mpi_add(r, &t1, r), e);
+    r->sign = 0; /* magnitude product, as the other algorithms */
 
 e:  cry_mpi_clear_list(&w0, &w1, &w2, &w3, &w4,
                        &a0, &a1, &a2, &b0, &b1,
diff --git a/src/mpi/mpi_sqr_comba.c b/src/mpi/mpi_sqr_comba.c
index f0d1e95..cef35e9 100644
--- a/src/mpi/mpi_sqr_comba.c
+++ b/src/mpi/mpi_sqr_comba.c
@@ -24,7 +24,8 @@ int cry_mpi_sqr_comba(cry_mpi *r, const cry_mpi *a)
             return res;
         dst = r;
     }
-    cry_mpi_set_used(dst, pa);;
+    cry_mpi_set_used(dst, pa);
+    dst->sign = 0;
 
     c1 = c2 = 0;
     for (ix = 0; ix < pa; ix++) {
-- 
2.43.0


From 74837e732f8f5f059de999a73a137bae9adff17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:04 +0000
Subject: [PATCH 02/58] fix: right shift of a negative number to zero left a
 negative zero

---
 src/mpi/mpi_shr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mpi/mpi_shr.c b/src/mpi/mpi_shr.c
index 7e72a95..8f47692 100644
--- a/src/mpi/mpi_shr.c
+++ b/src/mpi/mpi_shr.c
@@ -70,5 +70,7 @@ int cry_mpi_shr(cry_mpi *c, const cry_mpi *a, size_t n)
         }
     }
     cry_mpi_adjust(c);
+    if (cry_mpi_is_zero(c))
+        c->sign = 0; /* there is no negative zero */
     return 0;
 }
-- 
2.43.0


From 824b0b6e64cdc8c4ccb11bf30fef7d9f2d017d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:10 +0000
Subject: [PATCH 03/58] fix: signed division with operands of opposite sign

Dividing without asking for the remainder dereferenced NULL, an exact division
lost the sign of the quotient, the remainder kept the dividend sign when
|a| < |b|, and a destination aliasing the divisor gave a wrong remainder.
---
 src/mpi/mpi_div.c     | 47 +++++++++++++++++++++++++++++--------------
 src/mpi/mpi_div_abs.c |  8 ++++----
 2 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/src/mpi/mpi_div.c b/src/mpi/mpi_div.c
index 8e77028..815497b 100644
--- a/src/mpi/mpi_div.c
+++ b/src/mpi/mpi_div.c
@@ -3,24 +3,41 @@
 int cry_mpi_div(cry_mpi *q, cry_mpi *r, const cry_mpi *a,
                 const cry_mpi *b)
 {
-    int res, sign = a->sign ^ b->sign;
+    int res;
+    cry_mpi rem, div, one;
+    cry_mpi_digit one_dig = 1;
 
-    if ((res = cry_mpi_div_abs(q, r, a, b)) != 0)
-        return res;
+    if (a->sign == b->sign)
+        return cry_mpi_div_abs(q, r, a, b);
 
-    if (sign != 0 && !cry_mpi_is_zero(r)) {
-        if (q != NULL) {
-            cry_mpi one;
-            cry_mpi_digit one_dig = 1;
+    /*
+     * The quotient is not positive and shall be rounded down.
+     * The remainder is required even if not requested by the caller and the
+     * divisor is required after that the results are written, i.e. it should
+     * survive if is one of the destinations.
+     */
+    if ((res = cry_mpi_init(&rem)) != 0)
+        return res;
+    if ((res = cry_mpi_init_copy(&div, b)) != 0)
+        goto e;
+    if ((res = cry_mpi_div_abs(q, &rem, a, b)) != 0)
+        goto e1;
 
-            one.sign = 0;
-            one.used = one.alloc = 1;
-            one.data = &one_dig;
-            q->sign = 1;
-            res = cry_mpi_sub(q, q, &one);
-        }
-        if (r != NULL)
-            res = cry_mpi_sub_abs(r, b, r);
+    if (!cry_mpi_is_zero(&rem)) {
+        one.sign = 0;
+        one.used = one.alloc = 1;
+        one.data = &one_dig;
+        if (q != NULL && (res = cry_mpi_add_abs(q, q, &one)) != 0)
+            goto e1;
+        if (r != NULL && (res = cry_mpi_sub_abs(&rem, &div, &rem)) != 0)
+            goto e1;
     }
+    if (q != NULL && !cry_mpi_is_zero(q))
+        q->sign = 1;
+    if (r != NULL)
+        cry_mpi_swap(r, &rem);
+
+e1: cry_mpi_clear(&div);
+e:  cry_mpi_clear(&rem);
     return res;
 }
diff --git a/src/mpi/mpi_div_abs.c b/src/mpi/mpi_div_abs.c
index d35150f..f3acec1 100644
--- a/src/mpi/mpi_div_abs.c
+++ b/src/mpi/mpi_div_abs.c
@@ -14,10 +14,10 @@ int cry_mpi_div_abs(cry_mpi *rq, cry_mpi *rr, const cry_mpi *a,
     if (cry_mpi_is_zero(b))
         return -1;
 
-    /* if a < b then q=0, r=a */
+    /* if |a| < |b| then q=0, r=|a| */
     if (cry_mpi_cmp_abs(a, b) < 0) {
         if (rr)
-            res = cry_mpi_copy(rr, a);
+            res = cry_mpi_abs(rr, a);
         else
             res = 0;
         if (rq)
@@ -85,10 +85,10 @@ int cry_mpi_div_abs(cry_mpi *rq, cry_mpi *rr, const cry_mpi *a,
     if (cry_mpi_is_zero(b))
         return -1;
 
-    /* if a < b then q=0, r = a */
+    /* if |a| < |b| then q=0, r=|a| */
     if (cry_mpi_cmp_abs(a, b) < 0) {
         if (rr != NULL)
-            res = cry_mpi_copy(rr, a);
+            res = cry_mpi_abs(rr, a);
         else
             res = 0;
         if (rq != NULL)
-- 
2.43.0


From 8aade434e123a0d84aeea048a2d235d238db018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:39 +0000
Subject: [PATCH 04/58] fix: gcd with a zero or negative operand and after an
 allocation failure

gcd(x, 0) returned zero (reading past the used digits), gcd of negative numbers
could be negative, and a failure within the loop was overwritten.
---
 src/mpi/mpi_gcd.c | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/mpi/mpi_gcd.c b/src/mpi/mpi_gcd.c
index de43d33..0baa0e4 100644
--- a/src/mpi/mpi_gcd.c
+++ b/src/mpi/mpi_gcd.c
@@ -30,10 +30,19 @@ int cry_mpi_gcd(cry_mpi *r, const cry_mpi *x, const cry_mpi *y)
     if ((res = cry_mpi_init_list(&tx, &ty, (cry_mpi *)NULL)) != 0)
         return res;
 
-    if ((res = cry_mpi_copy(&tx, x)) != 0 ||
-        (res = cry_mpi_copy(&ty, y)) != 0)
+    if ((res = cry_mpi_abs(&tx, x)) != 0 ||
+        (res = cry_mpi_abs(&ty, y)) != 0)
         goto e;
 
+    /* gcd(x, 0) = |x| and gcd(0, y) = |y| */
+    if (cry_mpi_is_zero(&tx) || cry_mpi_is_zero(&ty)) {
+        if (cry_mpi_is_zero(&tx))
+            cry_mpi_swap(r, &ty);
+        else
+            cry_mpi_swap(r, &tx);
+        goto e;
+    }
+
     lz  = cry_mpi_lsb(&tx);
     lzt = cry_mpi_lsb(&ty);
     if (lzt < lz)
@@ -46,20 +55,20 @@ int cry_mpi_gcd(cry_mpi *r, const cry_mpi *x, const cry_mpi *y)
     while (!cry_mpi_is_zero(&tx)) {
         if ((res = cry_mpi_shr(&tx, &tx, cry_mpi_lsb(&tx))) != 0 ||
             (res = cry_mpi_shr(&ty, &ty, cry_mpi_lsb(&ty))) != 0)
-            break;
+            goto e;
 
         if (cry_mpi_cmp_abs(&tx, &ty) >= 0) {
             if ((res = cry_mpi_sub_abs(&tx, &tx, &ty)) != 0 ||
                 (res = cry_mpi_shr(&tx, &tx, 1)) != 0)
-                break;
+                goto e;
         } else {
             if ((res = cry_mpi_sub_abs(&ty, &ty, &tx)) != 0 ||
                 (res = cry_mpi_shr(&ty, &ty, 1)) != 0)
-                break;
+                goto e;
         }
     }
-    res = cry_mpi_shl(&ty, &ty, lz);
-    cry_mpi_swap(r, &ty);
+    if ((res = cry_mpi_shl(&ty, &ty, lz)) == 0)
+        cry_mpi_swap(r, &ty);
 e:  cry_mpi_clear_list(&tx, &ty, (cry_mpi *)NULL);
     return res;
 }
-- 
2.43.0


From c69eb7c492dba729a76fe69bf95d81a0e5ca4b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:39 +0000
Subject: [PATCH 05/58] fix: modular exponentiation result not reduced for a
 zero exponent

b^0 mod 1 returned 1, b^0 mod 0 was not refused and the failure of the
temporary initialization was ignored.
---
 src/mpi/mpi_mod_exp.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mpi/mpi_mod_exp.c b/src/mpi/mpi_mod_exp.c
index ee15d00..4177c69 100644
--- a/src/mpi/mpi_mod_exp.c
+++ b/src/mpi/mpi_mod_exp.c
@@ -13,7 +13,11 @@ int cry_mpi_mod_exp(cry_mpi *r, const cry_mpi *b, const cry_mpi *e,
     if (cry_mpi_is_neg(e) || (m != NULL && cry_mpi_is_neg(m)))
         return -1;
 
-    res = cry_mpi_init_int(&exp, 1);
+    if ((res = cry_mpi_init_int(&exp, 1)) != 0)
+        return res;
+    /* Nothing but zero is less than one */
+    if (m != NULL && (res = cry_mpi_mod(&exp, &exp, m)) != 0)
+        goto e;
     bits = cry_mpi_count_bits(e);
     while (bits-- > 0) {
         if ((res = cry_mpi_sqr(&exp, &exp)) != 0 ||
-- 
2.43.0


From 0cad05e1de6ffdc0bed4df915911b6c6ce60f7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:05 +0000
Subject: [PATCH 06/58] fix: modular inverse into the modulus object and on
 allocation failure

A negative Bezout coefficient was reduced after the modulus had already been
overwritten by the result, and failures of the inner operations were ignored
(possibly looping forever).
---
 src/mpi/mpi_inv.c | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/mpi/mpi_inv.c b/src/mpi/mpi_inv.c
index ae0d6c5..db146cc 100644
--- a/src/mpi/mpi_inv.c
+++ b/src/mpi/mpi_inv.c
@@ -17,19 +17,19 @@ int cry_mpi_inv(cry_mpi *r, const cry_mpi *a, const cry_mpi *m)
                                  (cry_mpi *)NULL)) != 0)
         return ret;
 
-    cry_mpi_copy(&r0, a);
-    cry_mpi_copy(&r1, m);
-    cry_mpi_set_int(&s0, 1);
-    cry_mpi_set_int(&s1, 0);
+    CRY_CHK(ret = cry_mpi_copy(&r0, a), e);
+    CRY_CHK(ret = cry_mpi_copy(&r1, m), e);
+    CRY_CHK(ret = cry_mpi_set_int(&s0, 1), e);
+    CRY_CHK(ret = cry_mpi_set_int(&s1, 0), e);
 
     while (!cry_mpi_is_zero(&r1)) {
         /* r2 = r0 - q1*r1 */
-        cry_mpi_div(&q, &r0, &r0, &r1);
+        CRY_CHK(ret = cry_mpi_div(&q, &r0, &r0, &r1), e);
         cry_mpi_swap(&r0, &r1);
 
         /* s2 = s0 - q1*s1 */
-        cry_mpi_mul(&q, &q, &s1);
-        cry_mpi_sub(&s0, &s0, &q);
+        CRY_CHK(ret = cry_mpi_mul(&q, &q, &s1), e);
+        CRY_CHK(ret = cry_mpi_sub(&s0, &s0, &q), e);
         cry_mpi_swap(&s0, &s1);
 
         cry_mpi_zero(&q);
@@ -37,14 +37,13 @@ int cry_mpi_inv(cry_mpi *r, const cry_mpi *a, const cry_mpi *m)
 
     /* Check that the GCD is 1, necessary condition */
     if (r0.used == 1 && r0.sign == 0 && r0.data[0] == 1) {
+        if (s0.sign)
+            CRY_CHK(ret = cry_mpi_add(&s0, &s0, m), e);
         cry_mpi_swap(r, &s0);
-        if (r->sign)
-            cry_mpi_mod(r, r, m);
     } else {
-        cry_mpi_zero(&s0);
         ret = -1;
     }
-    cry_mpi_clear_list(&r0, &r1, &s0, &s1, &q, (cry_mpi *)NULL);
+e:  cry_mpi_clear_list(&r0, &r1, &s0, &s1, &q, (cry_mpi *)NULL);
     return ret;
 }
 
-- 
2.43.0


From 9b3ce3ab2acc572b38b433981dddecdaa7b7553f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:04 +0000
Subject: [PATCH 07/58] fix: loading bytes into a negative number kept its sign

---
 src/mpi/mpi_bin.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mpi/mpi_bin.c b/src/mpi/mpi_bin.c
index 4890ed8..3198110 100644
--- a/src/mpi/mpi_bin.c
+++ b/src/mpi/mpi_bin.c
@@ -27,6 +27,7 @@ int cry_mpi_load_bin(cry_mpi *x, const void *buf, size_t size)
             return res;
     }
     x->used = i;
+    x->sign = 0;
 
     d = 0;
     while (size--) {
-- 
2.43.0


From 0f859ea9a6cfc43e998e023c389ed4f69af54ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:10 +0000
Subject: [PATCH 08/58] fix: native integer fetch accepted negative values out
 of range

Any negative magnitude of 64 bits was accepted and returned as a wrong value;
also avoid the overflow when negating the minimum value.
---
 src/mpi/mpi_core.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/mpi/mpi_core.c b/src/mpi/mpi_core.c
index f7f2bbe..1dc632d 100644
--- a/src/mpi/mpi_core.c
+++ b/src/mpi/mpi_core.c
@@ -80,7 +80,7 @@ int cry_mpi_set_int(cry_mpi *a, long val)
 
     if (val < 0) {
         a->sign = 1;
-        uval = (unsigned long)-val;
+        uval = 0UL - (unsigned long)val;
     } else {
         a->sign = 0;
         uval = (unsigned long)val;
@@ -98,22 +98,28 @@ int cry_mpi_set_int(cry_mpi *a, long val)
 
 int cry_mpi_get_int(cry_mpi *a, long *val)
 {
-    size_t used;
     size_t i;
-    long rval = 0;
+    unsigned long uval = 0;
 
-    used = cry_mpi_count_bits(a);
-    /* consider the sign bit */
-    if (used > 8*sizeof(long) - ((a->sign == 0) ? 1 : 0))
+    if (cry_mpi_count_bits(a) > 8*sizeof(long))
         return -1;
     i = a->used;
     while (i-- > 0) {
 #if CRY_MPI_DIGIT_MAX != ULONG_MAX
-        rval <<= CRY_MPI_DIGIT_BITS;
+        uval <<= CRY_MPI_DIGIT_BITS;
 #endif
-        rval |= a->data[i];
+        uval |= a->data[i];
+    }
+    /* consider the sign bit */
+    if (a->sign == 0) {
+        if (uval > LONG_MAX)
+            return -1;
+        *val = (long)uval;
+    } else {
+        if (uval > (unsigned long)LONG_MAX + 1)
+            return -1;
+        *val = (long)(0UL - uval);
     }
-    *val = (a->sign == 0) ? rval : -rval;
     return 0;
 }
 
-- 
2.43.0


From f1808a19fb35a988d83932f59d7768ce3004d15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:38 +0000
Subject: [PATCH 09/58] fix: numerals with characters that are not digits of
 the radix were accepted

Any non alphanumeric character was taken as a zero and an hexadecimal string
was not checked at all.
---
 src/mpi/mpi_str.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mpi/mpi_str.c b/src/mpi/mpi_str.c
index b79df31..2832edd 100644
--- a/src/mpi/mpi_str.c
+++ b/src/mpi/mpi_str.c
@@ -5,17 +5,22 @@
 #define ASC_TO_RAW_CHAR(c) \
     (('0' <= (c) && (c) <= '9') ?  ((c) - '0') : \
      ('a' <= (c) && (c) <= 'z') ? (((c) - 'a') + 10) : \
-     ('A' <= (c) && (c) <= 'Z') ? (((c) - 'A') + 10) : 0)
+     ('A' <= (c) && (c) <= 'Z') ? (((c) - 'A') + 10) : 0xFF)
 
 static int load_str_hex(cry_mpi *a, const char *s)
 {
     int res;
-    size_t i = 0, j = 0;
+    size_t i, j = 0;
     unsigned char *bin;
     char first = 0;
     size_t siz, len;
 
     len = strlen(s);
+    for (i = 0; i < len; i++) {
+        if (ASC_TO_RAW_CHAR(s[i]) > 0x0F)
+            return -1; /* not an hex digit */
+    }
+    i = 0;
     siz = len >> 1;
     if ((len & 0x01) != 0) {
         len--;
-- 
2.43.0


From e9fc46933049cdd164c0515564a1c3952eb20a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:00 +0000
Subject: [PATCH 10/58] fix: printing a number in a radix less than 16 overran
 the buffer

---
 src/mpi/mpi_print.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/mpi_print.c b/src/mpi/mpi_print.c
index a00622b..a07971c 100644
--- a/src/mpi/mpi_print.c
+++ b/src/mpi/mpi_print.c
@@ -8,7 +8,7 @@ void cry_mpi_print(const cry_mpi *a, unsigned int radix)
     size_t len;
     int ret;
 
-    len = 2*cry_mpi_count_bytes(a) + 2; /* space for NULL and sign */
+    len = cry_mpi_count_bits(a) + 3; /* radix 2 digits, sign and NULL */
     if ((s = malloc(len)) == NULL) {
         fprintf(stderr, "cry_mpi_print: out of memory error\n");
         return;
-- 
2.43.0


From a3d2acfbb2a97cfce97a9e460e6ed4259444b401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:39 +0000
Subject: [PATCH 11/58] fix: random integers with a leading zero byte

When the leading random byte was zero and it was alone in its digit the most
significant bit was set past the used (possibly allocated) digits, giving a
shorter number than requested and an out of bounds write.
---
 src/mpi/mpi_rand.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/mpi/mpi_rand.c b/src/mpi/mpi_rand.c
index d1072d0..35988c9 100644
--- a/src/mpi/mpi_rand.c
+++ b/src/mpi/mpi_rand.c
@@ -8,7 +8,7 @@
 int cry_mpi_rand(cry_mpi *r, size_t bits)
 {
     int res;
-    size_t digs, msb, siz;
+    size_t msb, siz;
     unsigned char *bin;
 
     if (bits == 0) {
@@ -20,14 +20,10 @@ int cry_mpi_rand(cry_mpi *r, size_t bits)
         return -1;
     if ((res = cry_prng_aes_rand(bin, siz)) != 0)
         goto e;
-    if ((res = cry_mpi_load_bin(r, bin, siz)) != 0)
-        goto e;
-
-    digs = CRY_MPI_BITS_TO_DIGS(bits);
-    msb = bits - CRY_MPI_DIGIT_BITS * (digs - 1);
-    if (msb < CRY_MPI_DIGIT_BITS)
-        r->data[digs-1] &= ((cry_mpi_digit)1 << msb) - 1; /* Clear extra bits */
-    r->data[digs-1] |= ((cry_mpi_digit)1 << (msb - 1));   /* Set the msb */
+    msb = (bits - 1) & 0x07;
+    bin[0] &= (unsigned char)((2U << msb) - 1); /* Clear extra bits */
+    bin[0] |= (unsigned char)(1U << msb);       /* Set the msb */
+    res = cry_mpi_load_bin(r, bin, siz);
 
 e:  free(bin);
     return res;
-- 
2.43.0


From ccf96f44a7719daf09853137207ed1011fcf29ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:14 +0000
Subject: [PATCH 12/58] fix: primality test of small numbers, degenerate
 witness and last attempt

The test never ended for zero and one, could report two as composite and small
even numbers as primes, and reported a prime as composite when the random
witness was zero. A prime found with the last allowed attempt was discarded.
---
 src/mpi/mpi_prime.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/mpi/mpi_prime.c b/src/mpi/mpi_prime.c
index aa4785d..ab1a5b7 100644
--- a/src/mpi/mpi_prime.c
+++ b/src/mpi/mpi_prime.c
@@ -32,6 +32,7 @@
  */
 
 static const unsigned int small_primes[] = {
+      2,
       3,    5,    7,   11,   13,   17,   19,   23,
      29,   31,   37,   41,   43,   47,   53,   59,
      61,   67,   71,   73,   79,   83,   89,   97,
@@ -144,9 +145,11 @@ static int passes_miller_rabin(const cry_mpi *p)
         goto e;
     }
 
-    /* Initialize a as a random number less than p */
-    if ((res = cry_mpi_rand_range(&a, p)) < 0)
-        goto e;
+    /* Initialize a as a random non-zero number less than p */
+    do {
+        if ((res = cry_mpi_rand_range(&a, p)) < 0)
+            goto e;
+    } while (cry_mpi_is_zero(&a));
 
     /* z = a^m mod p */
     if ((res = cry_mpi_mod_exp(&z, &a, &m, p)) < 0)
@@ -195,6 +198,10 @@ int cry_mpi_is_prime(const cry_mpi *p)
 {
     int i, res;
 
+    /* There are no primes less than 2 */
+    if (cry_mpi_is_neg(p) || cry_mpi_count_bits(p) < 2)
+        return 0;
+
     res = is_obviously_not_prime(p);
     switch (res) {
     case 0:
@@ -259,9 +266,8 @@ int cry_mpi_prime(cry_mpi *p, size_t bits, unsigned int *iter)
             res = 0;
             break;
         }
+        res = -1; /* Not found, yet */
     }
-    if (i == itermax)
-        res = -1;
     if (iter)
         *iter = i;
     return res;
-- 
2.43.0


From 3450083288742e20170f63c915ed7bfb69776b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:38 +0000
Subject: [PATCH 13/58] fix: AES encryption after a decryption with the same
 context used a wrong key schedule

---
 src/crypt/aes.c | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/crypt/aes.c b/src/crypt/aes.c
index 5bb3d27..eea7c4d 100644
--- a/src/crypt/aes.c
+++ b/src/crypt/aes.c
@@ -346,17 +346,28 @@ static const uint32_t mtab[256] = {
      ((uint32_t)sbox[I3(w3)] << 24))
 
 
+/* Reverse the order of the round keys */
 static void key_invert(cry_aes_ctx *ctx)
 {
     unsigned int i, j, k, nr;
-    uint32_t key, newkey, tmp;
 
     nr = ctx->nr & ~DECRYPT_STATE;
     for (i = 0, j = nr * 4; i < j; i += 4, j -= 4) {
         for (k = 0; k < 4; k++)
             CRY_SWAP(ctx->keys[i+k], ctx->keys[j+k]);
     }
+}
+
+/*
+ * Apply inverse MixColumns to the inner round keys. The transform has
+ * order four, thus it is reverted by three further applications.
+ */
+static void key_mix(cry_aes_ctx *ctx)
+{
+    unsigned int i, nr;
+    uint32_t key, newkey, tmp;
 
+    nr = ctx->nr & ~DECRYPT_STATE;
     for (i = 4; i < 4 * nr; i++) {
         key = ctx->keys[i];
         newkey = mtab[key & 0xff];
@@ -417,6 +428,9 @@ void cry_aes_encrypt(struct cry_aes_ctx *ctx, unsigned char *dst,
 
     if ((ctx->nr & DECRYPT_STATE) != 0) {
         key_invert(ctx);
+        key_mix(ctx);
+        key_mix(ctx);
+        key_mix(ctx);
         ctx->nr &= ~DECRYPT_STATE;
     }
 
@@ -467,6 +481,7 @@ void cry_aes_decrypt(struct cry_aes_ctx *ctx, unsigned char *dst,
 
     if ((ctx->nr & DECRYPT_STATE) == 0) {
         key_invert(ctx);
+        key_mix(ctx);
         ctx->nr |= DECRYPT_STATE;
     }
 
-- 
2.43.0


From 48b61d523adeffa1806bbaf6167a0668f757db31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:27 +0000
Subject: [PATCH 14/58] fix: CBC decryption of an empty message accessed memory
 out of bounds

---
 src/crypt/cbc.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crypt/cbc.c b/src/crypt/cbc.c
index 96358de..4324d07 100644
--- a/src/crypt/cbc.c
+++ b/src/crypt/cbc.c
@@ -68,6 +68,8 @@ void cry_cbc_decrypt(struct cry_cbc_ctx *ctx, unsigned char *dst,
     cry_ciph_encrypt_f decrypt = ctx->ciph_itf->decrypt;
 
     size &= ~(ctx->ctrlen - 1);
+    if (size == 0)
+        return;
 
     if (src != dst) {
         decrypt(ciph, dst, src, size);
-- 
2.43.0


From 2d238f3eed955f3c2e97b82d0f5ef85f85ecfab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:51 +0000
Subject: [PATCH 15/58] fix: CFB decryption fed back the cleartext and a
 partial block was over-read

---
 include/cry/cfb.h |  5 +++--
 src/crypt/cfb.c   | 22 +++++++++++++++++++++-
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/include/cry/cfb.h b/include/cry/cfb.h
index a16f518..e3c1666 100644
--- a/include/cry/cfb.h
+++ b/include/cry/cfb.h
@@ -75,7 +75,7 @@ void cry_cfb_iv_set(struct cry_cfb_ctx *ctx, const unsigned char *iv,
                     size_t size);
 
 /**
- * Encrypt/Decrypt function.
+ * Encryption function.
  *
  * @param ctx   CFB context.
  * @param dst   Destination pointer.
@@ -103,7 +103,8 @@ void cry_cfb_crypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
  * @param src   Source pointer (ciphertext).
  * @param size  Size of ciphertext.
  */
-#define cry_cfb_decrypt cry_cfb_crypt
+void cry_cfb_decrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
+                     const unsigned char *src, size_t size);
 
 
 /**
diff --git a/src/crypt/cfb.c b/src/crypt/cfb.c
index 5b85405..912dfc8 100644
--- a/src/crypt/cfb.c
+++ b/src/crypt/cfb.c
@@ -55,7 +55,27 @@ void cry_cfb_crypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
     if (n != 0) {
         encrypt(ciph, ctx->v, ctx->v, ctx->vlen);
         cry_memxor2(dst, src, ctx->v, n);
-        memcpy(ctx->v, dst, ctx->vlen);
+        memcpy(ctx->v, dst, n);
+    }
+}
+
+void cry_cfb_decrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
+                     const unsigned char *src, size_t len)
+{
+    void *ciph = ctx->ciph_ctx;
+    cry_ciph_encrypt_f encrypt = ctx->ciph_itf->encrypt;
+    unsigned char buf[CRY_CFB_BLOCK_MAX];
+    size_t n;
+
+    while (len != 0) {
+        n = CRY_MIN(len, ctx->vlen);
+        encrypt(ciph, buf, ctx->v, ctx->vlen);
+        /* The feedback is the ciphertext (src may be the same as dst) */
+        memcpy(ctx->v, src, n);
+        cry_memxor2(dst, src, buf, n);
+        src += n;
+        dst += n;
+        len -= n;
     }
 }
 
-- 
2.43.0


From 31706780c971299fa6d1d76e338f21a0b5e62c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:51 +0000
Subject: [PATCH 16/58] fix: CFB-8 decryption could not be resumed by a further
 call

---
 src/crypt/cfb.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crypt/cfb.c b/src/crypt/cfb.c
index 912dfc8..c8de8dc 100644
--- a/src/crypt/cfb.c
+++ b/src/crypt/cfb.c
@@ -121,8 +121,8 @@ void cry_cfb8_decrypt(struct cry_cfb_ctx *ctx, unsigned char *dst,
         len -= i;
         src += i;
         dst += i;
-        memcpy(buf, buf + ctx->vlen, ctx->vlen);
+        memmove(buf, buf + i, ctx->vlen);
         memcpy(buf + ctx->vlen, src, len < ctx->vlen ? len : ctx->vlen);
     }
-    memcpy(ctx->v, buf + i, ctx->vlen);
+    memcpy(ctx->v, buf, ctx->vlen);
 }
-- 
2.43.0


From 9fa36db269581a28bef71fae15b716cee1585647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:51 +0000
Subject: [PATCH 17/58] fix: in-place CTR with blocks smaller than 16 bytes
 used stale keystream

---
 src/crypt/ctr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypt/ctr.c b/src/crypt/ctr.c
index 52f5cab..46fa5d1 100644
--- a/src/crypt/ctr.c
+++ b/src/crypt/ctr.c
@@ -68,7 +68,7 @@ void cry_ctr_encrypt(struct cry_ctr_ctx *ctx, unsigned char *dst,
     } else {
         while (len >= BUF_LEN) {
             p = buf;
-            for (n = 0; n < BUF_BLOCKS; n++) {
+            for (n = 0; n < BUF_LEN; n += ctx->ctrlen) {
                 memcpy(p, ctx->ctr, ctx->ctrlen);
                 CRY_INCREMENT_BE(ctx->ctr, ctx->ctrlen);
                 p += ctx->ctrlen;
-- 
2.43.0


From 715eef6e2fcece420cc3932482e3d183fb43e36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:00 +0000
Subject: [PATCH 18/58] fix: GCM tag of data of 512 MiB or more used a
 truncated bit length

---
 src/crypt/gcm.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/crypt/gcm.c b/src/crypt/gcm.c
index 0951e4f..81fa2f1 100644
--- a/src/crypt/gcm.c
+++ b/src/crypt/gcm.c
@@ -62,13 +62,13 @@ static void gcm_hash_sizes(unsigned char *hash, const unsigned char *key,
                            size_t auth_size, size_t ciph_size)
 {
     unsigned char buf[CRY_GCM_BLOCK_SIZE] = {0};
-    uint32_t bits;
+    uint64_t bits;
 
     /* Sizes in bits */
-    bits = (uint32_t)(auth_size << 3);
-    CRY_WRITE32_BE(bits, buf + 4);
-    bits = (uint32_t)(ciph_size << 3);
-    CRY_WRITE32_BE(bits, buf + 12);
+    bits = (uint64_t)auth_size << 3;
+    CRY_WRITE64_BE(bits, buf);
+    bits = (uint64_t)ciph_size << 3;
+    CRY_WRITE64_BE(bits, buf + 8);
     gcm_hash(hash, key, buf, CRY_GCM_BLOCK_SIZE);
 }
 
-- 
2.43.0


From 9c6ac399133d532a0467ee692f6a3e1bba38ab50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:00 +0000
Subject: [PATCH 19/58] fix: SHA-384/512 padding of messages of 112 to 127
 bytes modulo 128

---
 src/hash/sha512.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hash/sha512.c b/src/hash/sha512.c
index 0531bc9..234328a 100644
--- a/src/hash/sha512.c
+++ b/src/hash/sha512.c
@@ -210,7 +210,7 @@ void cry_sha512_digest(cry_sha512_ctx *ctx, unsigned char *out)
     CRY_WRITE64_BE(lo, msglen + 8);
 
     last = ctx->len[0] & 0x7F;
-    padlen = (last < 112) ? (112 - last) : (128 - last);
+    padlen = (last < 112) ? (112 - last) : (240 - last);
 
     pad[0] = 0x80;
     cry_sha512_update(ctx, pad, padlen);
-- 
2.43.0


From 7b154f2d0f729d0cc1ab38dc739a6a4a4b63455a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:00 +0000
Subject: [PATCH 20/58] fix: message length of hash updates of 4 GiB or more
 was truncated

---
 src/hash/md5.c    | 2 +-
 src/hash/sha1.c   | 1 +
 src/hash/sha512.c | 4 ++--
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/hash/md5.c b/src/hash/md5.c
index ef58777..c72ca55 100644
--- a/src/hash/md5.c
+++ b/src/hash/md5.c
@@ -173,7 +173,7 @@ void cry_md5_update(struct cry_md5_ctx *ctx, const unsigned char *data,
     if ((ctx->len[0] + ((uint32_t)size << 3)) < ctx->len[0])
         ctx->len[1]++; /* overflow */
     ctx->len[0] += ((uint32_t)size << 3);
-    ctx->len[1] += ((uint32_t)size >> 29); /* three carry bits */
+    ctx->len[1] += (uint32_t)(size >> 29); /* three carry bits */
 
     while (size--) {
         /* add new character to buffer, increment mdi */
diff --git a/src/hash/sha1.c b/src/hash/sha1.c
index 3242f42..97a1e36 100644
--- a/src/hash/sha1.c
+++ b/src/hash/sha1.c
@@ -183,6 +183,7 @@ void cry_sha1_update(cry_sha1_ctx *ctx, const unsigned char *data, size_t len)
     ctx->len[0] += (uint32_t)len;
     if (ctx->len[0] < (uint32_t)len)
         ctx->len[1]++;
+    ctx->len[1] += (uint32_t)((uint64_t)len >> 32);
 
     if (left && len >= fill) {
         memcpy(ctx->data + left, data, fill);
diff --git a/src/hash/sha512.c b/src/hash/sha512.c
index 234328a..a1bcb05 100644
--- a/src/hash/sha512.c
+++ b/src/hash/sha512.c
@@ -172,8 +172,8 @@ void cry_sha512_update(cry_sha512_ctx *ctx, const unsigned char *data,
     left = ctx->len[0] & 0x7F;
     fill = 128 - left;
 
-    ctx->len[0] += (uint32_t)len;
-    if (ctx->len[0] < (uint32_t)len)
+    ctx->len[0] += len;
+    if (ctx->len[0] < len)
         ctx->len[1]++;
 
     if (left && len >= fill) {
-- 
2.43.0


From 2d8df4a4fc0e9295de3802f0076d7d7ea7605ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:46 +0000
Subject: [PATCH 21/58] fix: RSA processing of an empty message returned an
 undefined result

---
 src/crypt/rsa.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index a0008ff..6052f2d 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -183,7 +183,7 @@ static int encrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
     mod_siz = cry_mpi_count_bytes(&ctx->n);
     block_siz = (ctx->padding != CRY_RSA_PADDING_NONE) ? mod_siz - 11 : mod_siz;
 
-    while (inlen) {
+    do {
         if (inlen < block_siz)
             block_siz = inlen;
 
@@ -201,7 +201,7 @@ static int encrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
         *outlen += mod_siz;
         inlen -= block_siz;
         in += block_siz;
-    }
+    } while (inlen != 0);
 
     if (res != 0) {
         if (*out != NULL) {
@@ -216,7 +216,7 @@ static int encrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
 static int decrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
                    const unsigned char *in, size_t inlen, int sign)
 {
-    int res;
+    int res = -1;   /* at least one block is expected */
     size_t mod_siz;
     void *newptr;
 
-- 
2.43.0


From 50cd1de2dd42cfdcb030a36907ad083c0a50723f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:58 +0000
Subject: [PATCH 22/58] fix: RSA decryption of several blocks overwrote the
 first one

---
 src/crypt/rsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index 6052f2d..2761690 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -238,7 +238,7 @@ static int decrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
         }
         *out = newptr;
 
-        res = decrypt_block(ctx, *out, in, mod_siz, sign);
+        res = decrypt_block(ctx, *out + *outlen, in, mod_siz, sign);
         if (res < 0)
             break;
         *outlen += res;
-- 
2.43.0


From c7343b6608f805d62fb50f925b2b92aa6ceaf82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:12 +0000
Subject: [PATCH 23/58] fix: RSA key generation left the private exponent unset
 and hid its failure

---
 src/crypt/rsa.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index 2761690..2dbe53e 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -348,6 +348,9 @@ int cry_rsa_keygen(cry_rsa_ctx *ctx, size_t bits, long e)
             break;
     } while (cry_mpi_cmp(&g, &one) != 0 && ++j < MAX_ITER);
 
+    if (res == 0)
+        res = (j < MAX_ITER) ? cry_mpi_inv(&ctx->d, &ctx->e, &phi) : -1;
+
     cry_mpi_clear_list(&p1, &q1, &g, &phi, (cry_mpi *)NULL);
     return res;
 }
-- 
2.43.0


From 22b04ce98f9fb34f078ebac34e10353262fd52de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:27 +0000
Subject: [PATCH 24/58] fix: RSA accepted ciphertexts and signatures not below
 the modulus

---
 src/crypt/rsa.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index 2dbe53e..0c6c4dc 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -153,6 +153,10 @@ static int decrypt_block(cry_rsa_ctx *ctx, unsigned char *out,
 
     if ((res = cry_mpi_load_bin(&c, in, mod_len)) != 0)
         goto e1;
+    if (cry_mpi_cmp_abs(&c, &ctx->n) >= 0) {
+        res = -1;   /* Representative out of range */
+        goto e1;
+    }
     if ((res = cry_mpi_mod_exp(&m, &c, key, &ctx->n)) != 0)
         goto e1;
     if ((res = cry_mpi_store_bin(&m, buf, mod_len, 1)) != 0)
-- 
2.43.0


From 2d4b254b84363c8c6246045fce05868b5c5114e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:16 +0000
Subject: [PATCH 25/58] fix: RSA accepted paddings of less than eight bytes

---
 src/crypt/rsa.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index 0c6c4dc..2a42650 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -80,8 +80,8 @@ static int padding_del(unsigned char *dst, size_t dlen,
         if (sign != 0 && src[i] != 0xFF)
             return -1;
     }
-    if (i == slen)
-        return -1;
+    if (i == slen || i < 10)
+        return -1; /* no data or less than eight padding bytes */
     i++; /* skip zero */
     if (slen - i < dlen)
         dlen = slen - i;
-- 
2.43.0


From 1bb0b4ed6decc5b32e8468fcac8e8f7754c14961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:16 +0000
Subject: [PATCH 26/58] fix: RSA padding with a modulus shorter than twelve
 bytes

---
 src/crypt/rsa.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index 2a42650..b01ca29 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -26,7 +26,7 @@ static int padding_add(unsigned char *dst, size_t dlen,
     unsigned char *p = dst;
     size_t j;
 
-    if (slen > (dlen - 11))
+    if (dlen < 11 || slen > (dlen - 11))
         return -1;
 
     *(p++) = 0;
@@ -186,6 +186,8 @@ static int encrypt(cry_rsa_ctx *ctx, unsigned char **out, size_t *outlen,
     *outlen = 0;
     mod_siz = cry_mpi_count_bytes(&ctx->n);
     block_siz = (ctx->padding != CRY_RSA_PADDING_NONE) ? mod_siz - 11 : mod_siz;
+    if (block_siz == 0 || block_siz > mod_siz)
+        return -1; /* modulus too small */
 
     do {
         if (inlen < block_siz)
-- 
2.43.0


From 68f183d3bfd55cfa7042a95f79af9e6a17a3fef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:34 +0000
Subject: [PATCH 27/58] fix: RSA verification without padding accepted any
 prefix of the message

---
 src/crypt/rsa.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crypt/rsa.c b/src/crypt/rsa.c
index b01ca29..b6618c3 100644
--- a/src/crypt/rsa.c
+++ b/src/crypt/rsa.c
@@ -297,6 +297,11 @@ int cry_rsa_verify(cry_rsa_ctx *ctx, const unsigned char *sig, size_t siglen,
             memcmp(out, in, inlen) != 0) {
             res = -1;
         }
+        /* Without padding a short message is followed by zeros only */
+        while (res == 0 && outlen > inlen) {
+            if (out[--outlen] != 0)
+                res = -1;
+        }
         free(out);
     }
     return res;
-- 
2.43.0


From 5445eb31b92a8921a4b42d171778f457a35bc2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:56 +0000
Subject: [PATCH 28/58] fix: DSA ignored the failures of the underlying
 operations

A failed step left the result code at zero: verification accepted any
signature whose s has no inverse (s = 0), signing and key generation
reported success.
---
 src/crypt/dsa.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index f29537d..c5d6572 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -2,7 +2,7 @@
 #include "../misc.h"
 
 
-#define CHK(exp) CRY_CHK(exp, e)
+#define CHK(exp) CRY_CHK(res = (exp), e)
 
 /*
  * Generate a non zero random secret k less than q.
@@ -148,11 +148,12 @@ void cry_dsa_clear(cry_dsa_ctx *ctx)
  */
 int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
 {
-    int res = -1;
+    int res;
     cry_mpi p1, q, r, one;
     unsigned int i, j;
 
-    cry_mpi_init_list(&p1, &q, &r, &one, NULL);
+    if ((res = cry_mpi_init_list(&p1, &q, &r, &one, NULL)) != 0)
+        return res;
     CHK(cry_mpi_set_int(&one, 1));
 
     for (i = 0; i < ITER_MAX_OUT; i++) {
@@ -165,7 +166,7 @@ int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
             CHK(cry_mpi_mod(&r, &ctx->p, &r));
             CHK(cry_mpi_sub(&ctx->p, &ctx->p, &r));
             CHK(cry_mpi_add(&ctx->p, &ctx->p, &one));
-            if (cry_mpi_is_prime(&ctx->p))
+            if (cry_mpi_is_prime(&ctx->p) == 1)
                 break;
         }
         if (j == ITER_MAX_IN)
@@ -185,11 +186,12 @@ int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
         if (j == ITER_MAX_IN)
             continue; /* Retry */
         /* Finally compute public and public keys */
-        cry_mpi_rand_range(&ctx->pvt, &q);
-        cry_mpi_mod_exp(&ctx->pub, &ctx->g, &ctx->pvt, &ctx->p);
-        res = 0;
+        CHK(cry_mpi_rand_range(&ctx->pvt, &q));
+        CHK(cry_mpi_mod_exp(&ctx->pub, &ctx->g, &ctx->pvt, &ctx->p));
         break;
     }
+    if (i == ITER_MAX_OUT)
+        res = -1;
 e:  cry_mpi_clear_list(&p1, &q, &r, &one, NULL);
     return res;
 }
-- 
2.43.0


From bfc4df988cb512d751e9a408d69831d1b9961a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:56 +0000
Subject: [PATCH 29/58] fix: DSA key generation drew the private key from a
 wrong range

The bound was (p-1)/q instead of q and zero was possible.
---
 src/crypt/dsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index c5d6572..33d3fca 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -186,7 +186,7 @@ int cry_dsa_keygen(cry_dsa_ctx *ctx, unsigned int l)
         if (j == ITER_MAX_IN)
             continue; /* Retry */
         /* Finally compute public and public keys */
-        CHK(cry_mpi_rand_range(&ctx->pvt, &q));
+        CHK(secret_gen(&ctx->pvt, &ctx->q));
         CHK(cry_mpi_mod_exp(&ctx->pub, &ctx->g, &ctx->pvt, &ctx->p));
         break;
     }
-- 
2.43.0


From 8693dc95776daaad48c23d1d6e6bc838240d3bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:56 +0000
Subject: [PATCH 30/58] fix: DSA digest truncation to the bits of q

The digest was truncated to whole big integer digits, thus the signatures
of digests longer than q were not interoperable.
---
 src/crypt/dsa.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index 33d3fca..60f9158 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -50,6 +50,23 @@ e:  cry_mpi_clear(&t);
     return res;
 }
 
+/*
+ * Load the leftmost bits of the digest, at most as many as the bits of q.
+ */
+static int digest_load(cry_mpi *z, const unsigned char *in, size_t len,
+                       const cry_mpi *q)
+{
+    int res;
+    size_t bits = cry_mpi_count_bits(q);
+
+    if (len > (bits + 7) / 8)
+        len = (bits + 7) / 8;
+    res = cry_mpi_load_bin(z, in, len);
+    if (res == 0 && len * 8 > bits)
+        res = cry_mpi_shr(z, z, len * 8 - bits);
+    return res;
+}
+
 int cry_dsa_sign(cry_dsa_ctx *ctx, cry_dsa_sig *sig,
                  const unsigned char *in, size_t len)
 {
@@ -60,9 +77,7 @@ int cry_dsa_sign(cry_dsa_ctx *ctx, cry_dsa_sig *sig,
         return res;
 
     /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->q.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->q.used * CRY_MPI_DIGIT_BYTES;
-    CHK(cry_mpi_load_bin(&z, in, len));
+    CHK(digest_load(&z, in, len, &ctx->q));
 
     /* k = c mod (q-1) + 1 */
     CHK(secret_gen(&k, &ctx->q));
@@ -92,9 +107,7 @@ int cry_dsa_verify(cry_dsa_ctx *ctx, const cry_dsa_sig *sig,
         return res;
 
     /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->q.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->q.used * CRY_MPI_DIGIT_BYTES;
-    CHK(cry_mpi_load_bin(&z, in, len));
+    CHK(digest_load(&z, in, len, &ctx->q));
 
     /* w = inv(s) mod q */
     CHK(cry_mpi_copy(&w, &sig->s));
-- 
2.43.0


From 2d13eb2590087300e61618de7dedf9d2630f00aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:56 +0000
Subject: [PATCH 31/58] fix: DSA verification accepted out of range signature
 components

---
 src/crypt/dsa.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index 60f9158..0118747 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -103,6 +103,13 @@ int cry_dsa_verify(cry_dsa_ctx *ctx, const cry_dsa_sig *sig,
     int res;
     cry_mpi z, w, u1, u2;
 
+    /* both components shall be in the range [1, q-1] */
+    if (sig->r.sign != 0 || cry_mpi_is_zero(&sig->r) ||
+        sig->s.sign != 0 || cry_mpi_is_zero(&sig->s) ||
+        cry_mpi_cmp_abs(&sig->r, &ctx->q) >= 0 ||
+        cry_mpi_cmp_abs(&sig->s, &ctx->q) >= 0)
+        return -1;
+
     if ((res = cry_mpi_init_list(&z, &w, &u1, &u2, (cry_mpi *)NULL)) != 0)
         return res;
 
-- 
2.43.0


From e56029d8754d081cc10eedadd7f85126fb10f6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:32 +0000
Subject: [PATCH 32/58] fix: DSA signing returned signatures with a zero
 component

---
 src/crypt/dsa.c | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index 0118747..37403b3 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -67,11 +67,14 @@ static int digest_load(cry_mpi *z, const unsigned char *in, size_t len,
     return res;
 }
 
+#define ITER_MAX_SIGN   128
+
 int cry_dsa_sign(cry_dsa_ctx *ctx, cry_dsa_sig *sig,
                  const unsigned char *in, size_t len)
 {
     int res;
     cry_mpi k, z;
+    unsigned int i;
 
     if ((res = cry_mpi_init_list(&k, &z, (cry_mpi *)NULL)) != 0)
         return res;
@@ -79,19 +82,26 @@ int cry_dsa_sign(cry_dsa_ctx *ctx, cry_dsa_sig *sig,
     /* z = input buffer is eventually truncated to the size of q */
     CHK(digest_load(&z, in, len, &ctx->q));
 
-    /* k = c mod (q-1) + 1 */
-    CHK(secret_gen(&k, &ctx->q));
+    for (i = 0; i < ITER_MAX_SIGN; i++) {
+        /* k = c mod (q-1) + 1 */
+        CHK(secret_gen(&k, &ctx->q));
+
+        /* r = (g^k mod p) mod q */
+        CHK(cry_mpi_mod_exp(&sig->r, &ctx->g, &k, &ctx->p));
+        CHK(cry_mpi_mod(&sig->r, &sig->r, &ctx->q));
 
-    /* r = (g^k mod p) mod q */
-    CHK(cry_mpi_mod_exp(&sig->r, &ctx->g, &k, &ctx->p));
-    CHK(cry_mpi_mod(&sig->r, &sig->r, &ctx->q));
+        /* s = (inv(k) * (z + d*r)) mod q */
+        CHK(cry_mpi_inv(&k, &k, &ctx->q));
+        CHK(cry_mpi_mul(&sig->s, &ctx->pvt, &sig->r));
+        CHK(cry_mpi_add(&sig->s, &sig->s, &z));
+        CHK(cry_mpi_mul(&sig->s, &sig->s, &k));
+        CHK(cry_mpi_mod(&sig->s, &sig->s, &ctx->q));
 
-    /* s = (inv(k) * (z + d*r)) mod q */
-    CHK(cry_mpi_inv(&k, &k, &ctx->q));
-    CHK(cry_mpi_mul(&sig->s, &ctx->pvt, &sig->r));
-    CHK(cry_mpi_add(&sig->s, &sig->s, &z));
-    CHK(cry_mpi_mul(&sig->s, &sig->s, &k));
-    CHK(cry_mpi_mod(&sig->s, &sig->s, &ctx->q));
+        /* a zero component is not valid, try another secret */
+        if (!cry_mpi_is_zero(&sig->r) && !cry_mpi_is_zero(&sig->s))
+            goto e;
+    }
+    res = -1;
 
 e:  cry_mpi_clear_list(&k, &z, (cry_mpi *)NULL);
     return res;
-- 
2.43.0


From 53d31a913055c345dd13e55978c5599a24844cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:15 +0000
Subject: [PATCH 33/58] fix: random integers below a bound missed up to half of
 the range

The reduced number always had the top bit of the bound set, e.g. with a
bound of 7 the values 1, 2 and 3 were never returned. The secrets of the
signature schemes are drawn with this function.
---
 src/mpi/mpi_rand.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mpi/mpi_rand.c b/src/mpi/mpi_rand.c
index 35988c9..4704696 100644
--- a/src/mpi/mpi_rand.c
+++ b/src/mpi/mpi_rand.c
@@ -34,7 +34,8 @@ int cry_mpi_rand_range(cry_mpi *a, const cry_mpi *max)
     int res;
     size_t n;
 
-    n = cry_mpi_count_bits(max);
+    /* The 64 extra bits make the bias of the reduction negligible */
+    n = cry_mpi_count_bits(max) + 64;
     if ((res = cry_mpi_rand(a, n)) == 0) {
         if (cry_mpi_cmp_abs(a, max) >= 0)
             res = cry_mpi_mod(a, a, max);
-- 
2.43.0


From 61eba74a819b77494558394059d3212749252131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:55:15 +0000
Subject: [PATCH 34/58] fix: DSA secrets were drawn from a part of their range
 only

The random number reduced modulo q-1 always had the top bit set.
---
 src/crypt/dsa.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/crypt/dsa.c b/src/crypt/dsa.c
index 37403b3..199af4c 100644
--- a/src/crypt/dsa.c
+++ b/src/crypt/dsa.c
@@ -43,8 +43,7 @@ static int secret_gen(cry_mpi *k, const cry_mpi *q)
 
     CHK(cry_mpi_copy(&t, q));
     CHK(cry_mpi_sub(&t, &t, &one));
-    CHK(cry_mpi_rand(k, cry_mpi_count_bits(q)));
-    CHK(cry_mpi_mod(k, k, &t));
+    CHK(cry_mpi_rand_range(k, &t));
     CHK(cry_mpi_add(k, k, &one));
 e:  cry_mpi_clear(&t);
     return res;
-- 
2.43.0


From 626e76d160ac228a79cd22b2cbd311e5e486b761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:47 +0000
Subject: [PATCH 35/58] fix: doubling a point of order two failed instead of
 giving infinity

---
 src/ecp/ecp_dbl.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ecp/ecp_dbl.c b/src/ecp/ecp_dbl.c
index 5b093b8..9cba3d0 100644
--- a/src/ecp/ecp_dbl.c
+++ b/src/ecp/ecp_dbl.c
@@ -12,6 +12,12 @@ int cry_ecp_dbl(cry_ecp *pr, const cry_ecp *p1, const cry_ecp_grp *grp)
     if (cry_ecp_is_zero(p1))
         return (pr != p1) ? cry_ecp_copy(pr, p1) : 0;
 
+    /* A point of order two, the tangent is vertical */
+    if (cry_mpi_is_zero(&p1->y)) {
+        cry_ecp_set_zero(pr);
+        return 0;
+    }
+
     if ((res = cry_mpi_init_list(&num, &den, &lam,
                                  &r.x, &r.y, &r.z, (cry_mpi *)NULL)) != 0) {
         return res;
-- 
2.43.0


From 67280a114f4c19f226b656fff8a4643aaaae4ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:47 +0000
Subject: [PATCH 36/58] fix: ECDSA signing reported success after a failure

---
 src/crypt/ecdsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index 251c595..487cf59 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -46,7 +46,7 @@ int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
 
 e1: cry_ecp_clear(&X);
 e0: cry_mpi_clear_list(&k, &z, (cry_mpi *)NULL);
-    return 0;
+    return res;
 }
 
 int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
-- 
2.43.0


From 6cec60964fdd8c5310d5b8b6703c9cfeabf28601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:48 +0000
Subject: [PATCH 37/58] fix: ECDSA verification cleared uninitialised points
 after an allocation failure

---
 src/crypt/ecdsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index 487cf59..38c62af 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -88,7 +88,7 @@ int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
     res = (cry_mpi_cmp_abs(&G.x, &sig->r) == 0) ? 0 : -1;
 
 e1: cry_ecp_clear_list(&G, &Q, (cry_ecp *)NULL);
-e0: cry_mpi_clear_list(&z, &w, &G.x, &G.y, &Q.x, &Q.y, (cry_mpi *)NULL);
+e0: cry_mpi_clear_list(&z, &w, (cry_mpi *)NULL);
     return res;
 }
 
-- 
2.43.0


From 3d0e6d8797ffe2979e75bdebfbc638df2aa3f245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:48 +0000
Subject: [PATCH 38/58] fix: ECDSA signatures with a zero or unreduced
 component

The first component was not reduced modulo n, a zero secret (or private
key) was possible and zero components were not discarded.
---
 src/crypt/ecdsa.c | 64 +++++++++++++++++++++++++++++------------------
 1 file changed, 40 insertions(+), 24 deletions(-)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index 38c62af..74e9a90 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -4,12 +4,32 @@
 #define CHK0(exp) CRY_CHK(res = (exp), e0)
 #define CHK1(exp) CRY_CHK(res = (exp), e1)
 
+#define ITER_MAX    128
+
+/*
+ * Generate a random secret between 1 and n-1
+ */
+static int secret_gen(cry_mpi *k, const cry_mpi *n)
+{
+    int res;
+    unsigned int i;
+
+    for (i = 0; i < ITER_MAX; i++) {
+        if ((res = cry_mpi_rand_range(k, n)) != 0)
+            return res;
+        if (!cry_mpi_is_zero(k))
+            return 0;
+    }
+    return -1;
+}
+
 int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
                    const unsigned char *in, size_t len)
 {
     int res;
     cry_mpi k, z;
     cry_ecp X;
+    unsigned int i;
 
     if ((res = cry_mpi_init_list(&k, &z, (cry_mpi *)NULL)) != 0)
         return res;
@@ -20,29 +40,25 @@ int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
         len = ctx->grp.n.used * CRY_MPI_DIGIT_BYTES;
     CHK1(cry_mpi_load_bin(&z, in, len));
 
-    /* This should be a random number between 0 and n-1 */
-#if 0
-    unsigned char K[] = {
-        0x9E, 0x56, 0xF5, 0x09, 0x19, 0x67, 0x84, 0xD9, 0x63, 0xD1, 0xC0,
-        0xA4, 0x01, 0x51, 0x0E, 0xE7, 0xAD, 0xA3, 0xDC, 0xC5, 0xDE, 0xE0,
-        0x4B, 0x15, 0x4B, 0xF6, 0x1A, 0xF1, 0xD5, 0xA6, 0xDE, 0xCE
-    };
-    CHK1(cry_mpi_load_bin(&k, K, sizeof(K)));
-#else
-    CHK1(cry_mpi_rand_range(&k, &ctx->grp.n));
-#endif
-
-    CHK1(cry_ecp_mul(&X, &ctx->grp.g, &k, &ctx->grp));
-
-    /* r = x mod n */
-    cry_mpi_swap(&sig->r, &X.x);
-
-    /* s = (inv(k) * (z + r*d)) mod n */
-    CHK1(cry_mpi_inv(&k, &k, &ctx->grp.n));
-    CHK1(cry_mpi_mul(&sig->s, &ctx->d, &sig->r));
-    CHK1(cry_mpi_add(&sig->s, &sig->s, &z));
-    CHK1(cry_mpi_mul(&sig->s, &sig->s, &k));
-    CHK1(cry_mpi_mod(&sig->s, &sig->s, &ctx->grp.n));
+    for (i = 0; i < ITER_MAX; i++) {
+        CHK1(secret_gen(&k, &ctx->grp.n));
+        CHK1(cry_ecp_mul(&X, &ctx->grp.g, &k, &ctx->grp));
+
+        /* r = x mod n */
+        CHK1(cry_mpi_mod(&sig->r, &X.x, &ctx->grp.n));
+
+        /* s = (inv(k) * (z + r*d)) mod n */
+        CHK1(cry_mpi_inv(&k, &k, &ctx->grp.n));
+        CHK1(cry_mpi_mul(&sig->s, &ctx->d, &sig->r));
+        CHK1(cry_mpi_add(&sig->s, &sig->s, &z));
+        CHK1(cry_mpi_mul(&sig->s, &sig->s, &k));
+        CHK1(cry_mpi_mod(&sig->s, &sig->s, &ctx->grp.n));
+
+        /* a zero component is not valid, try another secret */
+        if (!cry_mpi_is_zero(&sig->r) && !cry_mpi_is_zero(&sig->s))
+            goto e1;
+    }
+    res = -1;
 
 e1: cry_ecp_clear(&X);
 e0: cry_mpi_clear_list(&k, &z, (cry_mpi *)NULL);
@@ -123,7 +139,7 @@ int cry_ecdsa_keygen(cry_ecdsa_ctx *ctx)
 {
     int res;
 
-    if ((res = cry_mpi_rand_range(&ctx->d, &ctx->grp.n)) == 0)
+    if ((res = secret_gen(&ctx->d, &ctx->grp.n)) == 0)
         res = cry_ecp_mul(&ctx->q, &ctx->grp.g, &ctx->d, &ctx->grp);
     return res;
 }
-- 
2.43.0


From 8ea7f914e38bb3deb5b7bb10e253730166123b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:48 +0000
Subject: [PATCH 39/58] fix: ECDSA digest truncation to the bits of the group
 order

The digest was truncated to whole big integer digits, thus the signatures
of longer digests were not interoperable (e.g. SHA-256 on secp224r1).
---
 src/crypt/ecdsa.c | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index 74e9a90..ff7e893 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -23,6 +23,23 @@ static int secret_gen(cry_mpi *k, const cry_mpi *n)
     return -1;
 }
 
+/*
+ * Load the leftmost bits of the digest, at most as many as the bits of n.
+ */
+static int digest_load(cry_mpi *z, const unsigned char *in, size_t len,
+                       const cry_mpi *n)
+{
+    int res;
+    size_t bits = cry_mpi_count_bits(n);
+
+    if (len > (bits + 7) / 8)
+        len = (bits + 7) / 8;
+    res = cry_mpi_load_bin(z, in, len);
+    if (res == 0 && len * 8 > bits)
+        res = cry_mpi_shr(z, z, len * 8 - bits);
+    return res;
+}
+
 int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
                    const unsigned char *in, size_t len)
 {
@@ -35,10 +52,8 @@ int cry_ecdsa_sign(cry_ecdsa_ctx *ctx, cry_ecdsa_sig *sig,
         return res;
     CHK0(cry_ecp_init(&X));
 
-    /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->grp.n.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->grp.n.used * CRY_MPI_DIGIT_BYTES;
-    CHK1(cry_mpi_load_bin(&z, in, len));
+    /* z = input buffer is eventually truncated to the size of n */
+    CHK1(digest_load(&z, in, len, &ctx->grp.n));
 
     for (i = 0; i < ITER_MAX; i++) {
         CHK1(secret_gen(&k, &ctx->grp.n));
@@ -76,10 +91,8 @@ int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
         return res;
     CHK0(cry_ecp_init_list(&G, &Q, (cry_ecp *)NULL));
 
-    /* z = input buffer is eventually truncated to the size of q */
-    if (ctx->grp.n.used * CRY_MPI_DIGIT_BYTES < len)
-        len = ctx->grp.n.used * CRY_MPI_DIGIT_BYTES;
-    CHK1(cry_mpi_load_bin(&z, in, len));
+    /* z = input buffer is eventually truncated to the size of n */
+    CHK1(digest_load(&z, in, len, &ctx->grp.n));
 
     /* w = inv(s) mod n */
     CHK1(cry_mpi_copy(&w, &sig->s));
-- 
2.43.0


From 866733239507ba6a7a1b6a76d22743d122d37b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:48 +0000
Subject: [PATCH 40/58] fix: ECDSA verification accepted out of range
 components and the infinity

---
 src/crypt/ecdsa.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/crypt/ecdsa.c b/src/crypt/ecdsa.c
index ff7e893..227781a 100644
--- a/src/crypt/ecdsa.c
+++ b/src/crypt/ecdsa.c
@@ -87,6 +87,13 @@ int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
     cry_mpi z, w;
     cry_ecp G, Q;
 
+    /* both components shall be in the range [1, n-1] */
+    if (sig->r.sign != 0 || cry_mpi_is_zero(&sig->r) ||
+        sig->s.sign != 0 || cry_mpi_is_zero(&sig->s) ||
+        cry_mpi_cmp_abs(&sig->r, &ctx->grp.n) >= 0 ||
+        cry_mpi_cmp_abs(&sig->s, &ctx->grp.n) >= 0)
+        return -1;
+
     if ((res = cry_mpi_init_list(&z, &w, (cry_mpi *)NULL)) != 0)
         return res;
     CHK0(cry_ecp_init_list(&G, &Q, (cry_ecp *)NULL));
@@ -111,8 +118,13 @@ int cry_ecdsa_verify(cry_ecdsa_ctx *ctx, const cry_ecdsa_sig *sig,
     CHK1(cry_ecp_mul(&Q, &ctx->q, &w, &ctx->grp));
     CHK1(cry_ecp_add(&G, &G, &Q, &ctx->grp));
 
+    if (cry_ecp_is_zero(&G)) {
+        res = -1;
+        goto e1;
+    }
+
     /* r = x1 mod n */
-    CHK1(cry_mpi_mod(&G.x, &G.x, &ctx->grp.n)); // inutile
+    CHK1(cry_mpi_mod(&G.x, &G.x, &ctx->grp.n));
 
     res = (cry_mpi_cmp_abs(&G.x, &sig->r) == 0) ? 0 : -1;
 
-- 
2.43.0


From 71e148c3136b5101e7c7210e31cfdb228f19a3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:48 +0000
Subject: [PATCH 41/58] fix: ElGamal verification accepted out of range
 signature components

Without the check of r signatures of any message can be derived from a
known one (Bleichenbacher).
---
 src/crypt/elgamal.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/crypt/elgamal.c b/src/crypt/elgamal.c
index ecefd54..bd33f67 100644
--- a/src/crypt/elgamal.c
+++ b/src/crypt/elgamal.c
@@ -105,6 +105,17 @@ int cry_elgamal_verify2(cry_elgamal_ctx *ctx, const cry_elgamal_sig *sign,
     if ((res = cry_mpi_init_list(&r, &z, (cry_mpi *)NULL)) != 0)
         return res;
 
+    /* 0 < r < p and 0 < s < p-1 */
+    CHK(cry_mpi_set_int(&z, 1));
+    CHK(cry_mpi_sub(&z, &ctx->p, &z));
+    if (sign->r.sign != 0 || cry_mpi_is_zero(&sign->r) ||
+        sign->s.sign != 0 || cry_mpi_is_zero(&sign->s) ||
+        cry_mpi_cmp_abs(&sign->r, &ctx->p) >= 0 ||
+        cry_mpi_cmp_abs(&sign->s, &z) >= 0) {
+        res = -1;
+        goto e;
+    }
+
     CHK(cry_mpi_mod_exp(&r, &ctx->y, &sign->r, &ctx->p));
     CHK(cry_mpi_mod_exp(&z, &sign->r, &sign->s, &ctx->p));
     CHK(cry_mpi_mul(&r, &r, &z));
-- 
2.43.0


From c7c9ed119617b815c2ec0ed52a52cab3620268dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:01 +0000
Subject: [PATCH 42/58] fix: ElGamal signatures with a zero second component

---
 src/crypt/elgamal.c | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/crypt/elgamal.c b/src/crypt/elgamal.c
index bd33f67..4465e6a 100644
--- a/src/crypt/elgamal.c
+++ b/src/crypt/elgamal.c
@@ -59,6 +59,7 @@ int cry_elgamal_sign2(cry_elgamal_ctx *ctx, cry_elgamal_sig *sign,
     int res;
     cry_mpi one, k, z, t;
     cry_mpi_digit dig = 1;
+    size_t i;
 
     if (len > cry_mpi_count_bytes(&ctx->p))
         return -1;
@@ -74,20 +75,27 @@ int cry_elgamal_sign2(cry_elgamal_ctx *ctx, cry_elgamal_sig *sign,
     CHK(cry_mpi_copy(&t, &ctx->p));
     CHK(cry_mpi_sub(&t, &t, &one));
 
-    /* gcd(k, p-1) = 1 */
-    CHK(secret_gen(&k, &t, &one));
-
-    /* r */
-    CHK(cry_mpi_mod_exp(&sign->r, &ctx->g, &k, &ctx->p));
-
-    /* s */
-    CHK(cry_mpi_load_bin(&z, in, len));
-    CHK(cry_mpi_mul(&sign->s, &ctx->d, &sign->r));
-    CHK(cry_mpi_sub(&sign->s, &z, &sign->s));
-    CHK(cry_mpi_mod(&sign->s, &sign->s, &t));
-    CHK(cry_mpi_inv(&k, &k, &t));
-    CHK(cry_mpi_mul(&sign->s, &sign->s, &k));
-    CHK(cry_mpi_mod(&sign->s, &sign->s, &t));
+    for (i = 0; i < MAX_ITER; i++) {
+        /* gcd(k, p-1) = 1 */
+        CHK(secret_gen(&k, &t, &one));
+
+        /* r */
+        CHK(cry_mpi_mod_exp(&sign->r, &ctx->g, &k, &ctx->p));
+
+        /* s */
+        CHK(cry_mpi_load_bin(&z, in, len));
+        CHK(cry_mpi_mul(&sign->s, &ctx->d, &sign->r));
+        CHK(cry_mpi_sub(&sign->s, &z, &sign->s));
+        CHK(cry_mpi_mod(&sign->s, &sign->s, &t));
+        CHK(cry_mpi_inv(&k, &k, &t));
+        CHK(cry_mpi_mul(&sign->s, &sign->s, &k));
+        CHK(cry_mpi_mod(&sign->s, &sign->s, &t));
+
+        /* a zero s discloses the secret key, try another k */
+        if (!cry_mpi_is_zero(&sign->s))
+            goto e;
+    }
+    res = -1;
 
 e:  cry_mpi_clear_list(&k, &z, &t, (cry_mpi *)NULL);
     return res;
-- 
2.43.0


From 0b72d2b8ad0d74bf4917f426bc0305b20f3b607e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:45 +0000
Subject: [PATCH 43/58] fix: LFSR113 seeding cleared as many state bytes as the
 seed is long

---
 src/prng/prng_lfsr113.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prng/prng_lfsr113.c b/src/prng/prng_lfsr113.c
index 6d81dc2..1ce5682 100644
--- a/src/prng/prng_lfsr113.c
+++ b/src/prng/prng_lfsr113.c
@@ -37,7 +37,7 @@ int cry_prng_lfsr113_init(const unsigned char *seed, size_t seed_siz)
     unsigned char *p = (unsigned char *)z;
     size_t i;
 
-    memset(z, 0, seed_siz);
+    memset(z, 0, sizeof(z));
     for (i = 0; i < seed_siz; i++)
         p[i % sizeof(z)] ^= seed[i];
     if (z[0] < 1)
-- 
2.43.0


From 17ad528feadc83a52d8a1d4d3062e886d244b28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:15:45 +0000
Subject: [PATCH 44/58] fix: LFSR113 accepted state words equal to their
 excluded minima

---
 src/prng/prng_lfsr113.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/prng/prng_lfsr113.c b/src/prng/prng_lfsr113.c
index 1ce5682..1bd7d80 100644
--- a/src/prng/prng_lfsr113.c
+++ b/src/prng/prng_lfsr113.c
@@ -40,13 +40,13 @@ int cry_prng_lfsr113_init(const unsigned char *seed, size_t seed_siz)
     memset(z, 0, sizeof(z));
     for (i = 0; i < seed_siz; i++)
         p[i % sizeof(z)] ^= seed[i];
-    if (z[0] < 1)
+    if (z[0] <= 1)
         z[0] = DEFAULT_SEED;
-    if (z[1] < 7)
+    if (z[1] <= 7)
         z[1] = DEFAULT_SEED;
-    if (z[2] < 15)
+    if (z[2] <= 15)
         z[2] = DEFAULT_SEED;
-    if (z[3] < 127)
+    if (z[3] <= 127)
         z[3] = DEFAULT_SEED;
     init = 1;
     return 0;
-- 
2.43.0


From adf30667118c53bc4aec0d8d515a3f3f1e89d24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:54 +0000
Subject: [PATCH 45/58] fix: AES key wrap of more than 42 blocks used a
 truncated round counter

---
 src/utils/aes_wrap.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/utils/aes_wrap.c b/src/utils/aes_wrap.c
index 7819c4c..55ec33f 100644
--- a/src/utils/aes_wrap.c
+++ b/src/utils/aes_wrap.c
@@ -17,6 +17,15 @@
 
 #define INIT_VAL    0xA6
 
+/* XOR the 64 bit big-endian round counter */
+static void counter_xor(unsigned char *a, size_t t)
+{
+    size_t k;
+
+    for (k = 8; k > 0 && t != 0; t >>= 8)
+        a[--k] ^= (unsigned char)t;
+}
+
 int cry_aes_wrap(unsigned char *out, const unsigned char *in, size_t len,
                  const unsigned char *key, size_t keylen)
 {
@@ -41,7 +50,7 @@ int cry_aes_wrap(unsigned char *out, const unsigned char *in, size_t len,
             memcpy(b + 8, r, 8);
             cry_aes_encrypt(&aes, b, b, 16);
             memcpy(a, b, 8);
-            a[7] ^= blks * i + j;
+            counter_xor(a, blks * i + j);
             memcpy(r, b + 8, 8);
             r += 8;
         }
@@ -70,7 +79,7 @@ int cry_aes_unwrap(unsigned char *out, const unsigned char *in, size_t len,
         r = out + (blks - 1) * 8;
         for (j = blks; j >= 1; j--) {
             memcpy(b, a, 8);
-            b[7] ^= blks * i + j;
+            counter_xor(b, blks * i + j);
             memcpy(b + 8, r, 8);
             cry_aes_decrypt(&aes, b, b, 16);
             memcpy(a, b, 8);
-- 
2.43.0


From 947263a92856ed57f72bbc9fbbdb05666ba84c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:54 +0000
Subject: [PATCH 46/58] fix: base64 encoding and decoding of an empty string
 ran out of bounds

---
 src/crypt/base64.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/crypt/base64.c b/src/crypt/base64.c
index 3799107..0fb3e1a 100644
--- a/src/crypt/base64.c
+++ b/src/crypt/base64.c
@@ -7,7 +7,7 @@ size_t cry_base64_encode(char *out, const char *in, size_t len)
 {
     size_t i, outlen = 0;
 
-    do {
+    while (len != 0) {
         outlen += 4;
 
         i = (in[0] & 0xFC) >> 2;
@@ -36,7 +36,7 @@ size_t cry_base64_encode(char *out, const char *in, size_t len)
 
         in += 3;
         len -= 3;
-    } while (len != 0);
+    }
     return outlen;
 }
 
@@ -66,7 +66,7 @@ size_t cry_base64_decode(char *out, const char *in, size_t len)
     if (len & 0x03)
         return -1; /* should be a multiple of 4 */
 
-    do {
+    while (len != 0) {
         for (i = 0; i < 4; i++) {
             /* check for illegal base64 characters */
             if (in[i] < 0 || unbase64[(int)in[i]] == 255)
@@ -91,6 +91,6 @@ size_t cry_base64_decode(char *out, const char *in, size_t len)
 
         in += 4;
         len -= 4;
-    } while (len != 0);
+    }
     return outlen;
 }
-- 
2.43.0


From 0fede00ddaf0e6f54cb225596b39f4941bb1f9a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:54 +0000
Subject: [PATCH 47/58] fix: Hill cipher accepted an empty key and never
 terminated with it

---
 src/crypt/hill.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/crypt/hill.c b/src/crypt/hill.c
index e4d7939..656b9b2 100644
--- a/src/crypt/hill.c
+++ b/src/crypt/hill.c
@@ -192,6 +192,9 @@ int cry_hill_init(struct cry_hill_ctx *ctx, const unsigned char *key,
 
     memset(ctx, 0, sizeof(*ctx));
 
+    if (keylen == 0)
+        return -1;
+
     ctx->n = keylen_trim(&keylen);
 
     if (key != NULL)
-- 
2.43.0


From dbd116cd42ec84c71736700a903b532d3f48de0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:54 +0000
Subject: [PATCH 48/58] fix: affine cipher accepted an empty key and read out
 of bounds with it

---
 src/crypt/affine.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crypt/affine.c b/src/crypt/affine.c
index 29bf5bf..202b7ec 100644
--- a/src/crypt/affine.c
+++ b/src/crypt/affine.c
@@ -37,6 +37,8 @@ int cry_affine_init(struct cry_affine_ctx *ctx, const unsigned char *keya,
     int res = 0;
 
     memset(ctx, 0, sizeof(*ctx));
+    if (keylen == 0)
+        return -1;
     if (keylen > CRY_AFFINE_KEYMAX)
         keylen = CRY_AFFINE_KEYMAX;
     memcpy(ctx->keya, keya, keylen);
-- 
2.43.0


From 398f00878afc8f2e6f85515b3b8711ccca5666b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:54 +0000
Subject: [PATCH 49/58] fix: XOR into a destination overlapping both disjoint
 sources

---
 src/crypt/memxor.c | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/crypt/memxor.c b/src/crypt/memxor.c
index 3068d9f..9004b83 100644
--- a/src/crypt/memxor.c
+++ b/src/crypt/memxor.c
@@ -2,6 +2,18 @@
 #include <string.h>
 #include <stdlib.h>
 
+static void reverse(unsigned char *p, size_t n)
+{
+    unsigned char t;
+    size_t i;
+
+    for (i = 0; i < n/2; i++) {
+        t = p[i];
+        p[i] = p[n-1-i];
+        p[n-1-i] = t;
+    }
+}
+
 
 /* In the four cases below, we assume src1 <= src2.
  * The input pointers are eventually swapped internally.
@@ -53,7 +65,7 @@ void cry_memxor2(unsigned char *dst, const unsigned char *src1,
                  const unsigned char *src2, size_t size)
 {
     size_t i, j;
-    unsigned char *tmp, t;
+    unsigned char *tmp;
     size_t n = size;
 
     if (src2 < src1) {
@@ -80,15 +92,10 @@ void cry_memxor2(unsigned char *dst, const unsigned char *src1,
             if (j == n)
                 j = 0;
         }
-        /* Now shift the dst buffer */
-        j = (size_t)((src1 + n) - dst);
-        for (i = 0; i < n-1; i++) {
-            t = dst[j];
-            dst[j] = dst[i];
-            dst[i] = t;
-            if (j < n-1)
-                j++;
-        }
+        /* Now rotate the dst buffer */
+        reverse(dst, j);
+        reverse(dst + j, n - j);
+        reverse(dst, n);
     } else {
         /* Case 4 */
         tmp = malloc(n);
-- 
2.43.0


From fa9cbfd079f7906b49e61b5216cf073fb6472c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:08 +0000
Subject: [PATCH 50/58] fix: ECDH context initialisation ignored allocation
 failures

---
 src/crypt/ecdh.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/crypt/ecdh.c b/src/crypt/ecdh.c
index 0daed65..1cd614a 100644
--- a/src/crypt/ecdh.c
+++ b/src/crypt/ecdh.c
@@ -2,11 +2,22 @@
 
 int cry_ecdh_init(cry_ecdh_ctx *ctx)
 {
-    cry_ecp_grp_init(&ctx->ec);
-    cry_mpi_init(&ctx->d);
-    cry_ecp_init(&ctx->q);
-    cry_ecp_init(&ctx->z);
+    int res;
+
+    if ((res = cry_ecp_grp_init(&ctx->ec)) != 0)
+        return res;
+    if ((res = cry_mpi_init(&ctx->d)) != 0)
+        goto e0;
+    if ((res = cry_ecp_init(&ctx->q)) != 0)
+        goto e1;
+    if ((res = cry_ecp_init(&ctx->z)) != 0)
+        goto e2;
     return 0;
+
+e2: cry_ecp_clear(&ctx->q);
+e1: cry_mpi_clear(&ctx->d);
+e0: cry_ecp_grp_clear(&ctx->ec);
+    return res;
 }
 
 void cry_ecdh_clear(cry_ecdh_ctx *ctx)
-- 
2.43.0


From f904a25bd097af2f461912ca65d6b000b1da7813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:35:57 +0000
Subject: [PATCH 51/58] fix: point multiplication reported success when its
 window could not be allocated

---
 src/ecp/ecp_mul.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ecp/ecp_mul.c b/src/ecp/ecp_mul.c
index 6271369..30b573d 100644
--- a/src/ecp/ecp_mul.c
+++ b/src/ecp/ecp_mul.c
@@ -26,8 +26,10 @@ int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
      * BEGIN window generation
      */
     win = malloc(sizeof(cry_ecp) * WINPTS);
-    if (win == NULL)
+    if (win == NULL) {
+        res = -1;
         goto e0;
+    }
     for (i = 0; i < WINPTS; i++) {
         if ((res = cry_ecp_init(&win[i])) != 0) {
             while (i-- > 0) /* rollback */
@@ -131,8 +133,10 @@ int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
      * BEGIN window generation
      */
     win = malloc(sizeof(cry_ecp) * WINPTS);
-    if (win == NULL)
+    if (win == NULL) {
+        res = -1;
         goto e0;
+    }
     for (i = 0; i < WINPTS; i++) {
         if ((res = cry_ecp_init(&win[i])) != 0) {  // 0P
             while (i-- > 0) /* rollback */
-- 
2.43.0


From 8661eb408d6260adeaed5c002b82d419e4dac332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:59 +0000
Subject: [PATCH 52/58] fix: a point set to infinity could keep its old value
 when memory ran out

---
 include/cry/ecp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cry/ecp.h b/include/cry/ecp.h
index 48cb7cf..abe406e 100644
--- a/include/cry/ecp.h
+++ b/include/cry/ecp.h
@@ -80,7 +80,7 @@ void cry_ecp_clear_list(cry_ecp *p, ... /* (cry_ecp *)NULL */);
 #define cry_ecp_set_zero(p) do { \
     cry_mpi_set_int(&(p)->x, 1); \
     cry_mpi_set_int(&(p)->y, 1); \
-    cry_mpi_set_int(&(p)->z, 0); \
+    cry_mpi_zero(&(p)->z);      \
 } while (0)
 
 #define cry_ecp_swap(a, b) do {     \
-- 
2.43.0


From eb4c3bbe89912fa05fe34eacf13181f3a6ce98e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:36 +0000
Subject: [PATCH 53/58] fix: column-wise multiplication and squaring overflowed
 their accumulator with small digits

---
 src/mpi/mpi_mul_comba.c | 4 ++++
 src/mpi/mpi_sqr_comba.c | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/mpi/mpi_mul_comba.c b/src/mpi/mpi_mul_comba.c
index 4848aa9..e3108ee 100644
--- a/src/mpi/mpi_mul_comba.c
+++ b/src/mpi/mpi_mul_comba.c
@@ -13,6 +13,10 @@ int cry_mpi_mul_comba(cry_mpi *r, const cry_mpi *a, const cry_mpi *b)
         return 0;
     }
 
+    /* The three digits accumulator holds at most DIGIT_MAX products */
+    if (CRY_MIN(a->used, b->used) > CRY_MPI_DIGIT_MAX)
+        return cry_mpi_mul_baseline(r, a, b);
+
     pa = a->used + b->used;
     if (r == a || r == b) {
         if ((res = cry_mpi_init_size(&tmp, pa)) != 0)
diff --git a/src/mpi/mpi_sqr_comba.c b/src/mpi/mpi_sqr_comba.c
index cef35e9..4de766a 100644
--- a/src/mpi/mpi_sqr_comba.c
+++ b/src/mpi/mpi_sqr_comba.c
@@ -14,6 +14,10 @@ int cry_mpi_sqr_comba(cry_mpi *r, const cry_mpi *a)
         return 0;
     }
 
+    /* The three digits accumulator holds at most DIGIT_MAX products */
+    if (a->used > CRY_MPI_DIGIT_MAX)
+        return cry_mpi_sqr_baseline(r, a);
+
     pa = a->used + a->used;
     if (r == a) {
         if ((res = cry_mpi_init_size(&tmp, pa)) != 0)
-- 
2.43.0


From 4686885be41cd776867159f9558ac33f801a6b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:35 +0000
Subject: [PATCH 54/58] fix: binary modular inverse hung or returned a value
 for numbers that are not invertible

---
 src/mpi/mpi_inv.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/mpi/mpi_inv.c b/src/mpi/mpi_inv.c
index db146cc..d474bac 100644
--- a/src/mpi/mpi_inv.c
+++ b/src/mpi/mpi_inv.c
@@ -65,6 +65,13 @@ int cry_mpi_inv(cry_mpi *r, const cry_mpi *x, const cry_mpi *m)
 
     if ((res = cry_mpi_mod(&TA, x, m)) != 0)
         goto cleanup;
+
+    /* Zero and numbers sharing the factor two with m are not invertible */
+    if (cry_mpi_is_zero(&TA) || (cry_mpi_is_even(&TA) && cry_mpi_is_even(m))) {
+        res = -1;
+        goto cleanup;
+    }
+
     cry_mpi_copy(&TU, &TA);
     cry_mpi_copy(&TB, m);
     cry_mpi_copy(&TV, m);
@@ -104,6 +111,12 @@ int cry_mpi_inv(cry_mpi *r, const cry_mpi *x, const cry_mpi *m)
         }
     } while (TU.used != 0);
 
+    /* Check that the GCD is 1, necessary condition */
+    if (TV.used != 1 || TV.data[0] != 1) {
+        res = -1;
+        goto cleanup;
+    }
+
     while (V1.used && V1.sign)
         cry_mpi_add(&V1, &V1, m);
 
-- 
2.43.0


From ed68d4f838f893fd4a8acb607fda189fc51b30c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:13:35 +0000
Subject: [PATCH 55/58] fix: binary modular inverse ignored the failures of its
 operations

---
 src/mpi/mpi_inv.c | 60 +++++++++++++++++++++++------------------------
 1 file changed, 29 insertions(+), 31 deletions(-)

diff --git a/src/mpi/mpi_inv.c b/src/mpi/mpi_inv.c
index d474bac..6f1f998 100644
--- a/src/mpi/mpi_inv.c
+++ b/src/mpi/mpi_inv.c
@@ -63,69 +63,67 @@ int cry_mpi_inv(cry_mpi *r, const cry_mpi *x, const cry_mpi *m)
                                  &TB, &TV, &V1, &V2, (cry_mpi *)NULL)) != 0)
         return res;
 
-    if ((res = cry_mpi_mod(&TA, x, m)) != 0)
-        goto cleanup;
+    CRY_CHK(res = cry_mpi_mod(&TA, x, m), e);
 
     /* Zero and numbers sharing the factor two with m are not invertible */
     if (cry_mpi_is_zero(&TA) || (cry_mpi_is_even(&TA) && cry_mpi_is_even(m))) {
         res = -1;
-        goto cleanup;
+        goto e;
     }
 
-    cry_mpi_copy(&TU, &TA);
-    cry_mpi_copy(&TB, m);
-    cry_mpi_copy(&TV, m);
+    CRY_CHK(res = cry_mpi_copy(&TU, &TA), e);
+    CRY_CHK(res = cry_mpi_copy(&TB, m), e);
+    CRY_CHK(res = cry_mpi_copy(&TV, m), e);
 
-    cry_mpi_set_int(&U1, 1);
-    cry_mpi_set_int(&U2, 0);
-    cry_mpi_set_int(&V1, 0);
-    cry_mpi_set_int(&V2, 1);
+    CRY_CHK(res = cry_mpi_set_int(&U1, 1), e);
+    CRY_CHK(res = cry_mpi_set_int(&U2, 0), e);
+    CRY_CHK(res = cry_mpi_set_int(&V1, 0), e);
+    CRY_CHK(res = cry_mpi_set_int(&V2, 1), e);
 
     do {
         while (cry_mpi_is_even(&TU)) {
-            cry_mpi_shr(&TU, &TU, 1);
+            CRY_CHK(res = cry_mpi_shr(&TU, &TU, 1), e);
             if (cry_mpi_is_odd(&U1) || cry_mpi_is_odd(&U2)) {
-                cry_mpi_add(&U1, &U1, &TB);
-                cry_mpi_sub(&U2, &U2, &TA);
+                CRY_CHK(res = cry_mpi_add(&U1, &U1, &TB), e);
+                CRY_CHK(res = cry_mpi_sub(&U2, &U2, &TA), e);
             }
-            cry_mpi_shr(&U1, &U1, 1);
-            cry_mpi_shr(&U2, &U2, 1);
+            CRY_CHK(res = cry_mpi_shr(&U1, &U1, 1), e);
+            CRY_CHK(res = cry_mpi_shr(&U2, &U2, 1), e);
         }
         while (cry_mpi_is_even(&TV)) {
-            cry_mpi_shr(&TV, &TV, 1);
+            CRY_CHK(res = cry_mpi_shr(&TV, &TV, 1), e);
             if (cry_mpi_is_odd(&V1) || cry_mpi_is_odd(&V2)) {
-                cry_mpi_add(&V1, &V1, &TB);
-                cry_mpi_sub(&V2, &V2, &TA);
+                CRY_CHK(res = cry_mpi_add(&V1, &V1, &TB), e);
+                CRY_CHK(res = cry_mpi_sub(&V2, &V2, &TA), e);
             }
-            cry_mpi_shr(&V1, &V1, 1);
-            cry_mpi_shr(&V2, &V2, 1);
+            CRY_CHK(res = cry_mpi_shr(&V1, &V1, 1), e);
+            CRY_CHK(res = cry_mpi_shr(&V2, &V2, 1), e);
         }
         if (cry_mpi_cmp(&TU, &TV) >= 0) {
-            cry_mpi_sub(&TU, &TU, &TV);
-            cry_mpi_sub(&U1, &U1, &V1);
-            cry_mpi_sub(&U2, &U2, &V2);
+            CRY_CHK(res = cry_mpi_sub(&TU, &TU, &TV), e);
+            CRY_CHK(res = cry_mpi_sub(&U1, &U1, &V1), e);
+            CRY_CHK(res = cry_mpi_sub(&U2, &U2, &V2), e);
         } else {
-            cry_mpi_sub(&TV, &TV, &TU);
-            cry_mpi_sub(&V1, &V1, &U1);
-            cry_mpi_sub(&V2, &V2, &U2);
+            CRY_CHK(res = cry_mpi_sub(&TV, &TV, &TU), e);
+            CRY_CHK(res = cry_mpi_sub(&V1, &V1, &U1), e);
+            CRY_CHK(res = cry_mpi_sub(&V2, &V2, &U2), e);
         }
     } while (TU.used != 0);
 
     /* Check that the GCD is 1, necessary condition */
     if (TV.used != 1 || TV.data[0] != 1) {
         res = -1;
-        goto cleanup;
+        goto e;
     }
 
     while (V1.used && V1.sign)
-        cry_mpi_add(&V1, &V1, m);
+        CRY_CHK(res = cry_mpi_add(&V1, &V1, m), e);
 
     while (cry_mpi_cmp(&V1, m) >= 0)
-        cry_mpi_sub(&V1, &V1, m);
+        CRY_CHK(res = cry_mpi_sub(&V1, &V1, m), e);
 
     cry_mpi_swap(r, &V1);
-cleanup:
-    cry_mpi_clear_list(&TA, &TB, &TU, &TV, &U1, &U2, &V1, &V2,
+e:  cry_mpi_clear_list(&TA, &TB, &TU, &TV, &U1, &U2, &V1, &V2,
                        (cry_mpi *)NULL);
     return res;
 }
-- 
2.43.0


From 9438590c7e353899d8730e43e0ee50d6d646257c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:16:44 +0000
Subject: [PATCH 56/58] fix: the fixed window point multiplication did not
 compile

---
 src/ecp/ecp_mul.c | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/ecp/ecp_mul.c b/src/ecp/ecp_mul.c
index 30b573d..5fc399a 100644
--- a/src/ecp/ecp_mul.c
+++ b/src/ecp/ecp_mul.c
@@ -120,8 +120,6 @@ int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
     int res, i, j, w, paf = 1;
     struct cry_ecp r, *win = NULL;
     cry_mpi_digit msk;
-    cry_mpi *a = &grp->a;
-    cry_mpi *p = &grp->p;
 
     if (cry_ecp_is_zero(p1))
         return (pr != p1) ? cry_ecp_copy(pr, p1) : 0;
@@ -145,20 +143,20 @@ int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
         }
     }
     CHK(cry_ecp_copy(&win[1], p1));                     /* 1P */
-    CHK(cry_ecp_dbl(&win[2],  &win[1], a, p));          /* 2P */
-    CHK(cry_ecp_add(&win[3],  &win[2], &win[1], p));    /* 3P */
-    CHK(cry_ecp_dbl(&win[4],  &win[2], a, p));          /* 4P */
-    CHK(cry_ecp_add(&win[5],  &win[4], &win[1], p));    /* 5P */
-    CHK(cry_ecp_add(&win[6],  &win[5], &win[1], p));    /* 6P */
-    CHK(cry_ecp_add(&win[7],  &win[6], &win[1], p));    /* 7P */
-    CHK(cry_ecp_dbl(&win[8],  &win[4], a, p));          /* 8P */
-    CHK(cry_ecp_add(&win[9],  &win[8], &win[1], p));    /* 9P */
-    CHK(cry_ecp_add(&win[10], &win[9], &win[1], p));    /* 10P */
-    CHK(cry_ecp_add(&win[11], &win[10], &win[1], p));   /* 11P */
-    CHK(cry_ecp_add(&win[12], &win[11], &win[1], p));   /* 12P */
-    CHK(cry_ecp_add(&win[13], &win[12], &win[1], p));   /* 13P */
-    CHK(cry_ecp_add(&win[14], &win[13], &win[1], p));   /* 14P */
-    CHK(cry_ecp_add(&win[15], &win[14], &win[1], p));   /* 15P */
+    CHK(cry_ecp_dbl(&win[2],  &win[1], grp));          /* 2P */
+    CHK(cry_ecp_add(&win[3],  &win[2], &win[1], grp));    /* 3P */
+    CHK(cry_ecp_dbl(&win[4],  &win[2], grp));          /* 4P */
+    CHK(cry_ecp_add(&win[5],  &win[4], &win[1], grp));    /* 5P */
+    CHK(cry_ecp_add(&win[6],  &win[5], &win[1], grp));    /* 6P */
+    CHK(cry_ecp_add(&win[7],  &win[6], &win[1], grp));    /* 7P */
+    CHK(cry_ecp_dbl(&win[8],  &win[4], grp));          /* 8P */
+    CHK(cry_ecp_add(&win[9],  &win[8], &win[1], grp));    /* 9P */
+    CHK(cry_ecp_add(&win[10], &win[9], &win[1], grp));    /* 10P */
+    CHK(cry_ecp_add(&win[11], &win[10], &win[1], grp));   /* 11P */
+    CHK(cry_ecp_add(&win[12], &win[11], &win[1], grp));   /* 12P */
+    CHK(cry_ecp_add(&win[13], &win[12], &win[1], grp));   /* 13P */
+    CHK(cry_ecp_add(&win[14], &win[13], &win[1], grp));   /* 14P */
+    CHK(cry_ecp_add(&win[15], &win[14], &win[1], grp));   /* 15P */
     /*
      * END window generation
      */
@@ -172,14 +170,14 @@ int cry_ecp_mul(cry_ecp *pr, const cry_ecp *p1, const cry_mpi *k,
         while (j > 0) {
             if (!paf) {
                 for (w = 0; w < WINSIZ; w++)
-                    CHK(cry_ecp_dbl(&r, &r, a, p));
+                    CHK(cry_ecp_dbl(&r, &r, grp));
             }
 
             j -= WINSIZ;
             w = (k->data[i] & msk) >> j;
             if (w > 0) {
                 if (!paf) {
-                    CHK(cry_ecp_add(&r, &r, &win[w], p));
+                    CHK(cry_ecp_add(&r, &r, &win[w], grp));
                 } else {
                     paf = 0; /* First addition */
                     CHK(cry_ecp_copy(&r, &win[w]));
-- 
2.43.0


From 3db07196cd6ac5adc3d9f226cd6f2a9b532687ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:37 +0000
Subject: [PATCH 57/58] fix: small division ignored an allocation failure and
 returned a wrong quotient

---
 src/mpi/mpi_div_abs.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mpi/mpi_div_abs.c b/src/mpi/mpi_div_abs.c
index f3acec1..826eb0b 100644
--- a/src/mpi/mpi_div_abs.c
+++ b/src/mpi/mpi_div_abs.c
@@ -28,9 +28,9 @@ int cry_mpi_div_abs(cry_mpi *rq, cry_mpi *rr, const cry_mpi *a,
     if ((res = cry_mpi_init_list(&ta, &tb, &tq, &q, NULL)) != 0)
         return res;
 
-    cry_mpi_set_int(&tq, 1);
     n = cry_mpi_count_bits(a) - cry_mpi_count_bits(b);
-    if (((res = cry_mpi_abs(&ta, a)) != 0) ||
+    if (((res = cry_mpi_set_int(&tq, 1)) != 0) ||
+        ((res = cry_mpi_abs(&ta, a)) != 0) ||
         ((res = cry_mpi_abs(&tb, b)) != 0) ||
         ((res = cry_mpi_shl(&tb, &tb, n)) != 0) ||
         ((res = cry_mpi_shl(&tq, &tq, n)) != 0))
-- 
2.43.0


From 59c030b8c38fde506a04fb26aeb13af1470f4572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:17:29 +0000
Subject: [PATCH 58/58] fix: curve parameters padded with zero digits were
 taken as longer than they are

---
 src/ecp/ecp_curves.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecp/ecp_curves.c b/src/ecp/ecp_curves.c
index 4b754ac..d3e7298 100644
--- a/src/ecp/ecp_curves.c
+++ b/src/ecp/ecp_curves.c
@@ -611,6 +611,9 @@ static void ecp_mpi_load(cry_mpi *n, const cry_mpi_digit *d, size_t dlen)
     n->alloc = 0;
     n->used  = dlen / sizeof(cry_mpi_digit);
     n->sign  = 0;
+    /* The tables may be padded with zeros, these digits are not used */
+    while (n->used > 0 && n->data[n->used - 1] == 0)
+        n->used--;
 }
 
 static void ecp_grp_load(cry_ecp_grp *grp,
-- 
2.43.0

