From ea41b890de2b313c0aad1fcb57e61a987bbc4b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:41 +0000
Subject: [PATCH 01/67] fix: use the y-coordinate in the projective Miller
 loops of type D and G

pairing_option_set(pairing, "method", "miller") made every type D and G
pairing of the process compute a wrong value, because the running point's y
was aliased to its x.
---
 ecc/d_param.c | 2 +-
 ecc/g_param.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index f5070f8..24d09df 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -281,7 +281,7 @@ static void cc_miller_no_denom_proj(element_t res, mpz_t q, element_t P,
 
   element_set(Z, P);
   Zx = curve_x_coord(Z);
-  Zy = curve_x_coord(Z);
+  Zy = curve_y_coord(Z);
 
   element_set1(v);
   m = (mp_bitcnt_t)mpz_sizeinbase(q, 2);
diff --git a/ecc/g_param.c b/ecc/g_param.c
index 63842a2..be2c7d5 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -269,7 +269,7 @@ static void cc_miller_no_denom_proj(element_t res, mpz_t q, element_t P,
 
   element_set(Z, P);
   Zx = curve_x_coord(Z);
-  Zy = curve_x_coord(Z);
+  Zy = curve_y_coord(Z);
 
   element_set1(v);
   m = (mp_bitcnt_t)mpz_sizeinbase(q, 2);
-- 
2.43.0


From e7b01441bf472a119433834923b16e5344b31a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:11 +0000
Subject: [PATCH 02/67] fix: batched doubling and addition with identity, equal
 or opposite points

---
 ecc/curve.c | 48 ++++++++++++++++++++++++++++--------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index a1ed428..954c85b 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -206,6 +206,23 @@ static void curve_mul(element_ptr c, element_ptr a, element_ptr b) {
   }
 }
 
+// Denominator of the slope of the tangent at p. It is replaced by 1 if there
+// is no such slope, so that it never spoils a product of denominators.
+static void double_denominator(element_ptr e, point_ptr p) {
+  if (p->inf_flag || element_is0(p->y)) element_set1(e);
+  else element_double(e, p->y);
+}
+
+// Denominator of the slope of the line through p and q, or 1 if there is none.
+static void add_denominator(element_ptr e, point_ptr p, point_ptr q) {
+  if (p->inf_flag || q->inf_flag) {
+    element_set1(e);
+    return;
+  }
+  element_sub(e, q->x, p->x);
+  if (element_is0(e)) element_set1(e);
+}
+
 //compute c_i=a_i+a_i at one time.
 static void multi_double(element_ptr c[], element_ptr a[], int n) {
   int i;
@@ -219,38 +236,29 @@ static void multi_double(element_ptr c[], element_ptr a[], int n) {
   element_init(e1,q->y->field);
   element_init(e2,q->y->field);
 
-  for(i=0; i<n; i++){
-    q=a[i]->data; r=c[i]->data;
-    element_init(table[i],q->y->field);
-
-    if (q->inf_flag) {
-      r->inf_flag = 1;
-      continue;
-    }
-    if (element_is0(q->y)) {
-      r->inf_flag = 1;
-      continue;
-    }
-  }
   //to compute 1/2y multi. see Cohen's GTM139 Algorithm 10.3.4
   for(i=0; i<n; i++){
     q=a[i]->data;
-    element_double(table[i],q->y);
+    element_init(table[i],q->y->field);
+    double_denominator(table[i],q);
     if(i>0) element_mul(table[i],table[i],table[i-1]);
   }
   element_invert(e2,table[n-1]); //ONLY ONE inv is required now.
   for(i=n-1; i>0; i--){
     q=a[i]->data;
     element_mul(table[i],table[i-1],e2);
-    element_mul(e2,e2,q->y);
-    element_double(e2,e2); //e2=e2*2y_j
+    double_denominator(e1,q);
+    element_mul(e2,e2,e1); //e2=e2*2y_j
   }
   element_set(table[0],e2); //e2 no longer used.
 
   for(i=0; i<n; i++){
     q=a[i]->data;
     r=c[i]->data;
-    if(r->inf_flag) continue;
+    if (q->inf_flag || element_is0(q->y)) {
+      r->inf_flag = 1;
+      continue;
+    }
 
     //e2=lambda = (3x^2 + a) / 2y
     element_square(e2, q->x);
@@ -295,12 +303,12 @@ static void multi_add(element_ptr c[], element_ptr a[], element_ptr b[], int n){
   element_init(e2, p->x->field);
 
   element_init(table[0], p->x->field);
-  element_sub(table[0], q->x, p->x);
+  add_denominator(table[0], p, q);
   for(i=1; i<n; i++){
     p = a[i]->data;
     q = b[i]->data;
     element_init(table[i], p->x->field);
-    element_sub(table[i], q->x, p->x);
+    add_denominator(table[i], p, q);
     element_mul(table[i], table[i], table[i-1]);
   }
   element_invert(e2, table[n-1]);
@@ -308,7 +316,7 @@ static void multi_add(element_ptr c[], element_ptr a[], element_ptr b[], int n){
     p = a[i]->data;
     q = b[i]->data;
     element_mul(table[i], table[i-1], e2);
-    element_sub(e1, q->x, p->x);
+    add_denominator(e1, p, q);
     element_mul(e2,e2,e1); //e2=e2*(x2_j-x1_j)
   }
   element_set(table[0],e2); //e2 no longer used.
-- 
2.43.0


From 63fa33e0ec068ca24cdba68175f366beb2ad9a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:00 +0000
Subject: [PATCH 03/67] fix: encode the point at infinity so that it decodes to
 itself

---
 ecc/curve.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ecc/curve.c b/ecc/curve.c
index 954c85b..290835e 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -611,6 +611,19 @@ static int curve_length_in_bytes(element_ptr x) {
 static int curve_to_bytes(unsigned char *data, element_t e) {
   point_ptr P = e->data;
   int len;
+  if (P->inf_flag) {
+    // Write a pair that does not satisfy the curve equation:
+    // curve_from_bytes() reads any such pair as O.
+    curve_data_ptr cdp = e->field->data;
+    element_t t;
+    element_init(t, cdp->field);
+    element_set0(t);
+    len = element_to_bytes(data, t);
+    if (element_is0(cdp->b)) element_set1(t);
+    len += element_to_bytes(data + len, t);
+    element_clear(t);
+    return len;
+  }
   len = element_to_bytes(data, P->x);
   len += element_to_bytes(data + len, P->y);
   return len;
-- 
2.43.0


From 168c136a843e880a5fc2703a12253ef60221bed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:36 +0000
Subject: [PATCH 04/67] fix: print and parse elements in the fast and faster Fp
 backends

---
 arith/fasterfp.c | 21 +++++++++++++++++++++
 arith/fastfp.c   | 21 +++++++++++++++++++++
 2 files changed, 42 insertions(+)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 7dccb03..2cc1ce5 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -142,6 +142,25 @@ static size_t fp_out_str(FILE * stream, int base, element_ptr e) {
   return result;
 }
 
+static int fp_snprint(char *s, size_t n, element_ptr e) {
+  int result;
+  mpz_t z;
+  mpz_init(z);
+  fp_to_mpz(z, e);
+  result = gmp_snprintf(s, n, "%Zd", z);
+  mpz_clear(z);
+  return result;
+}
+
+static int fp_set_str(element_ptr e, const char *s, int base) {
+  mpz_t z;
+  mpz_init(z);
+  int result = pbc_mpz_set_str(z, s, base);
+  fp_set_mpz(e, z);
+  mpz_clear(z);
+  return result;
+}
+
 static void fp_set(element_ptr c, element_ptr a) {
   dataptr ad = a->data;
   dataptr cd = c->data;
@@ -514,6 +533,8 @@ void field_init_faster_fp(field_ptr f, mpz_t prime) {
   f->set_si = fp_set_si;
   f->set_mpz = fp_set_mpz;
   f->out_str = fp_out_str;
+  f->snprint = fp_snprint;
+  f->set_str = fp_set_str;
   f->add = fp_add;
   f->sub = fp_sub;
   f->set = fp_set;
diff --git a/arith/fastfp.c b/arith/fastfp.c
index 62a20ef..f4d1295 100644
--- a/arith/fastfp.c
+++ b/arith/fastfp.c
@@ -109,6 +109,25 @@ static size_t fp_out_str(FILE * stream, int base, element_ptr e) {
   return result;
 }
 
+static int fp_snprint(char *s, size_t n, element_ptr e) {
+  int result;
+  mpz_t z;
+  mpz_init(z);
+  fp_to_mpz(z, e);
+  result = gmp_snprintf(s, n, "%Zd", z);
+  mpz_clear(z);
+  return result;
+}
+
+static int fp_set_str(element_ptr e, const char *s, int base) {
+  mpz_t z;
+  mpz_init(z);
+  int result = pbc_mpz_set_str(z, s, base);
+  fp_set_mpz(e, z);
+  mpz_clear(z);
+  return result;
+}
+
 static void fp_add(element_ptr r, element_ptr a, element_ptr b) {
   fp_field_data_ptr p = r->field->data;
   const size_t t = p->limbs;
@@ -352,6 +371,8 @@ void field_init_fast_fp(field_ptr f, mpz_t prime) {
   f->set_si = fp_set_si;
   f->set_mpz = fp_set_mpz;
   f->out_str = fp_out_str;
+  f->snprint = fp_snprint;
+  f->set_str = fp_set_str;
   f->add = fp_add;
   f->sub = fp_sub;
   f->set = fp_set;
-- 
2.43.0


From 74a72ca6f842fdbe2af00aa19ac06f529ff9f39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:36 +0000
Subject: [PATCH 05/67] fix: reduce decoded values and flag zero in the faster
 and Montgomery Fp backends

---
 arith/fasterfp.c | 14 ++++++--------
 arith/montfp.c   | 10 +---------
 2 files changed, 7 insertions(+), 17 deletions(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 2cc1ce5..6f54618 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -69,9 +69,12 @@ static void fp_set_mpz(element_ptr e, mpz_ptr z) {
     mpz_t tmp;
     mpz_init(tmp);
     mpz_mod(tmp, z, e->field->order);
-    from_mpz(e, tmp);
+    if (!mpz_sgn(tmp)) dp->flag = 0;
+    else {
+      from_mpz(e, tmp);
+      dp->flag = 2;
+    }
     mpz_clear(tmp);
-    dp->flag = 2;
   }
 }
 
@@ -497,7 +500,6 @@ static int fp_to_bytes(unsigned char *data, element_t a) {
 }
 
 static int fp_from_bytes(element_t a, const unsigned char *data) {
-  dataptr ad = a->data;
   int n;
   mpz_t z;
 
@@ -505,11 +507,7 @@ static int fp_from_bytes(element_t a, const unsigned char *data) {
 
   n = a->field->fixed_length_in_bytes;
   mpz_import(z, n, 1, 1, 1, 0, data);
-  if (!mpz_sgn(z)) ad->flag = 0;
-  else {
-    ad->flag = 2;
-    from_mpz(a, z);
-  }
+  fp_set_mpz(a, z);
   mpz_clear(z);
   return n;
 }
diff --git a/arith/montfp.c b/arith/montfp.c
index bae03da..cb06d43 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -496,8 +496,6 @@ static int fp_to_bytes(unsigned char *data, element_t a) {
 }
 
 static int fp_from_bytes(element_t a, const unsigned char *data) {
-  fptr p = a->field->data;
-  eptr ad = a->data;
   int n;
   mpz_t z;
 
@@ -505,13 +503,7 @@ static int fp_from_bytes(element_t a, const unsigned char *data) {
 
   n = a->field->fixed_length_in_bytes;
   mpz_import(z, n, 1, 1, 1, 0, data);
-  if (!mpz_sgn(z)) ad->flag = 0;
-  else {
-    ad->flag = 2;
-    mpz_mul_2exp(z, z, p->bytes * 8);
-    mpz_mod(z, z, a->field->order);
-    set_limbs(ad->d, z, p->limbs);
-  }
+  fp_set_mpz(a, z);
   mpz_clear(z);
   return n;
 }
-- 
2.43.0


From ba68fb8fe00ac81bb37f9212c61965bd9c3ae6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:36 +0000
Subject: [PATCH 06/67] fix: halving an odd residue into a zero element

---
 arith/fasterfp.c | 1 +
 arith/montfp.c   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 6f54618..2e9945c 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -259,6 +259,7 @@ static void fp_halve(element_ptr c, element_ptr a) {
     mp_limb_t *climb = cd->d;
     if (alimb[0] & 1) {
       carry = mpn_add_n(climb, alimb, p->primelimbs, t);
+      cd->flag = 2;
     } else fp_set(c, a);
 
     mpn_rshift(climb, climb, t, 1);
diff --git a/arith/montfp.c b/arith/montfp.c
index cb06d43..ec4fa72 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -287,6 +287,7 @@ static void fp_halve(element_ptr c, element_ptr a) {
     mp_limb_t *climb = cd->d;
     if (alimb[0] & 1) {
       carry = mpn_add_n(climb, alimb, p->primelimbs, t);
+      cd->flag = 2;
     } else fp_set(c, a);
 
     mpn_rshift(climb, climb, t, 1);
-- 
2.43.0


From 7f1b5e42e12b732352cbcf24580d1674bb220275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:36 +0000
Subject: [PATCH 07/67] fix: compare a nonzero residue with zero by flag, not
 by stale limbs

---
 arith/fasterfp.c | 2 ++
 arith/montfp.c   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 2e9945c..ad944cf 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -443,6 +443,8 @@ static int fp_cmp(element_ptr a, element_ptr b) {
   dataptr ad = a->data, bd = b->data;
   if (!ad->flag) {
     return bd->flag;
+  } else if (!bd->flag) {
+    return ad->flag;
   } else {
     fp_field_data_ptr p = a->field->data;
     return mpn_cmp(ad->d, bd->d, p->limbs);
diff --git a/arith/montfp.c b/arith/montfp.c
index ec4fa72..5eb698f 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -451,6 +451,7 @@ static void fp_from_hash(element_ptr a, const void *data, int len) {
 static int fp_cmp(element_ptr a, element_ptr b) {
   eptr ad = a->data, bd = b->data;
   if (!ad->flag) return bd->flag;
+  else if (!bd->flag) return ad->flag;
   else {
     fptr p = a->field->data;
     return mpn_cmp(ad->d, bd->d, p->limbs);
-- 
2.43.0


From 04e42aaac7bdfab8ef2ef450cb0f515acdbb3169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:36 +0000
Subject: [PATCH 08/67] fix: zero to the power zero is one in every Fp backend

---
 arith/fasterfp.c | 3 ++-
 arith/montfp.c   | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index ad944cf..96e11b3 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -392,7 +392,8 @@ static void fp_mul_si(element_ptr c, element_ptr a, signed long int op) {
 static void fp_pow_mpz(element_ptr c, element_ptr a, mpz_ptr op) {
   dataptr ad = a->data;
   dataptr cd = c->data;
-  if (!ad->flag) cd->flag = 0;
+  if (!mpz_sgn(op)) fp_set1(c);
+  else if (!ad->flag) cd->flag = 0;
   else {
     mpz_t z;
     mpz_init(z);
diff --git a/arith/montfp.c b/arith/montfp.c
index 5eb698f..0a11dc9 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -382,7 +382,8 @@ static void fp_pow_mpz(element_ptr c, element_ptr a, mpz_ptr op) {
   fptr p = a->field->data;
   eptr ad = a->data;
   eptr cd = c->data;
-  if (!ad->flag) cd->flag = 0;
+  if (!mpz_sgn(op)) fp_set1(c);
+  else if (!ad->flag) cd->flag = 0;
   else {
     mpz_t z;
     mpz_init(z);
-- 
2.43.0


From c25101461edc50cc59c1de7e5430ab8cdf24c93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:36 +0000
Subject: [PATCH 09/67] fix: flag zero products modulo a composite in the
 Montgomery and faster backends

---
 arith/fasterfp.c | 6 ++++--
 arith/montfp.c   | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/arith/fasterfp.c b/arith/fasterfp.c
index 96e11b3..4d432f9 100644
--- a/arith/fasterfp.c
+++ b/arith/fasterfp.c
@@ -322,7 +322,8 @@ static void fp_mul(element_ptr c, element_ptr a, element_ptr b) {
     mpn_mul_n(tmp, ad->d, bd->d, t);
 
     mpn_tdiv_qr(qp, cd->d, 0, tmp, 2 * t, p->primelimbs, t);
-    cd->flag = 2;
+    // The modulus may be composite, e.g. in type A1 pairings.
+    cd->flag = mpn_zero_p(cd->d, t) ? 0 : 2;
 
     pbc_free(buf);
   }
@@ -383,7 +384,8 @@ static void fp_mul_si(element_ptr c, element_ptr a, signed long int op) {
     tmp[t] = mpn_mul_1(tmp, ad->d, t, labs(op));
     mpn_tdiv_qr(qp, cd->d, 0, tmp, t + 1, p->primelimbs, t);
     pbc_free(tmp);
-    if (op < 0) {               //TODO: don't need to check c != 0 this time
+    if (mpn_zero_p(cd->d, t)) cd->flag = 0;
+    if (op < 0) {
       fp_neg(c, c);
     }
   }
diff --git a/arith/montfp.c b/arith/montfp.c
index 0a11dc9..702365a 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -373,7 +373,8 @@ static void fp_mul(element_ptr c, element_ptr a, element_ptr b) {
   } else {
     fptr p = c->field->data;
     mont_mul(cd->d, ad->d, bd->d, p);
-    cd->flag = 2;
+    // The modulus may be composite, e.g. in type A1 pairings.
+    cd->flag = mpn_zero_p(cd->d, p->limbs) ? 0 : 2;
   }
 }
 
-- 
2.43.0


From 936fa0561c03d82a247473c612830f0e47d10781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:02 +0000
Subject: [PATCH 10/67] fix: reduce decoded and hashed values in the naive Fp
 backend

---
 arith/naivefp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/arith/naivefp.c b/arith/naivefp.c
index 1248641..1ad573f 100644
--- a/arith/naivefp.c
+++ b/arith/naivefp.c
@@ -177,6 +177,7 @@ static void zp_random(element_ptr n) {
 
 static void zp_from_hash(element_ptr n, const void *data, int len) {
   pbc_mpz_from_hash(n->data, n->field->order, data, len);
+  mpz_mod(n->data, n->data, n->field->order);
 }
 
 static int zp_is1(element_ptr n) {
@@ -215,6 +216,7 @@ static int zp_from_bytes(element_t e, const unsigned char *data) {
   int n;
   n = e->field->fixed_length_in_bytes;
   mpz_import(z, n, 1, 1, 1, 0, data);
+  mpz_mod(z, z, e->field->order);
   return n;
 }
 
-- 
2.43.0


From 86c88e0e5ab2a48f6101f2afb9a3698be723375d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:26 +0000
Subject: [PATCH 11/67] fix: an identity in one factor must not swallow a
 product of pairings

---
 include/pbc_pairing.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/pbc_pairing.h b/include/pbc_pairing.h
index 1f127fb..8de5a55 100644
--- a/include/pbc_pairing.h
+++ b/include/pbc_pairing.h
@@ -158,12 +158,16 @@ static inline void element_prod_pairing(
   for(i = 0; i < n; i++) {
     PBC_ASSERT(pairing->G1 == in1[i]->field, "pairing 1st input mismatch");
     PBC_ASSERT(pairing->G2 == in2[i]->field, "pairing 2nd input mismatch");
-    if (element_is0(in1[i])) {
-      element_set0(out);
-      return;
-    }
-    if (element_is0(in2[i])) {
+    if (element_is0(in1[i]) || element_is0(in2[i])) {
+      // prod_pairings() cannot handle the identity: take one pairing at a time.
+      element_t t;
+      element_init_same_as(t, out);
       element_set0(out);
+      for (i = 0; i < n; i++) {
+        pairing_apply(t, in1[i], in2[i], pairing);
+        element_mul(out, out, t);
+      }
+      element_clear(t);
       return;
     }
   }
-- 
2.43.0


From 39ba5726ebec1b06207a112f7ec40eea8070893a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:24 +0000
Subject: [PATCH 12/67] fix: never raise zero to the final power for random and
 hashed GT elements

---
 ecc/pairing.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecc/pairing.c b/ecc/pairing.c
index 5cb60a3..7f54453 100644
--- a/ecc/pairing.c
+++ b/ecc/pairing.c
@@ -118,12 +118,16 @@ static void gt_out_info(FILE *out, field_ptr f) {
 static void gt_from_hash(element_ptr e, const void *data, int len) {
   pairing_ptr pairing = e->field->pairing;
   element_from_hash(e->data, data, len);
+  // Zero is not in the multiplicative group.
+  if (element_is0(e->data)) element_set1(e->data);
   pairing->finalpow(e);
 }
 
 static void gt_random(element_ptr e) {
   pairing_ptr pairing = e->field->pairing;
-  element_random(e->data);
+  do {
+    element_random(e->data);
+  } while (element_is0(e->data));  // Zero is not in the multiplicative group.
   pairing->finalpow(e);
 }
 
-- 
2.43.0


From f438ecb620c338deb5dbff8e241925062864aa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:00 +0000
Subject: [PATCH 13/67] fix: final powering of one in type G pairings

---
 ecc/g_param.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecc/g_param.c b/ecc/g_param.c
index be2c7d5..f611411 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -411,6 +411,10 @@ static void cc_miller_no_denom_affine(element_t res, mpz_t q, element_t P,
 // Requires in != out.
 // Mangles in.
 static void lucas_even(element_ptr out, element_ptr in, mpz_t cofactor) {
+  if (element_is1(in)) {
+    element_set(out, in);
+    return;
+  }
   element_t temp;
   element_init_same_as(temp, out);
   element_ptr in0 = element_x(in);
-- 
2.43.0


From 49ba4063154910362740c76cd53b1b79b92f8446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:45 +0000
Subject: [PATCH 14/67] fix: type E elliptic net pairing of a point with
 itself, its negative or double

---
 ecc/e_param.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ecc/e_param.c b/ecc/e_param.c
index c85e692..599a4c5 100644
--- a/ecc/e_param.c
+++ b/ecc/e_param.c
@@ -494,6 +494,17 @@ static void e_pairing_ellnet(element_ptr out, element_ptr in1, element_ptr in2,
   element_ptr x2 = curve_x_coord(in2);
   element_ptr y2 = curve_y_coord(in2);
 
+  // The net is degenerate when in2 is in1, -in1 or 2 in1.
+  element_t in1doubled;
+  element_init_same_as(in1doubled, in1);
+  element_double(in1doubled, in1);
+  int degenerate = !element_cmp(x, x2) || !element_cmp(in1doubled, in2);
+  element_clear(in1doubled);
+  if (degenerate) {
+    e_pairing(out, in1, in2, pairing);
+    return;
+  }
+
   //notation: cmi means c_{k-i}, ci means c_{k+i}
   element_t cm3, cm2, cm1, c0, c1, c2, c3, c4;
   element_t dm1, d0, d1;
-- 
2.43.0


From 321e0f73da665971d3fa1b50ebb075e05e135e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:37:41 +0000
Subject: [PATCH 15/67] fix: byte encoding of integers: zero, advertised
 length, bytes consumed

---
 arith/z.c | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/arith/z.c b/arith/z.c
index 6cc6c52..0904ac7 100644
--- a/arith/z.c
+++ b/arith/z.c
@@ -5,6 +5,7 @@
 #include <stdio.h>
 #include <stdint.h> // for intptr_t
 #include <stdlib.h>
+#include <string.h>
 #include <gmp.h>
 #include "pbc_utils.h"
 #include "pbc_field.h"
@@ -146,6 +147,10 @@ static int z_to_bytes(unsigned char *data, element_t e) {
   size_t n = 4;
   size_t i;
 
+  if (!mpz_sgn(z)) {
+    memset(data, 0, 4);
+    return 4;
+  }
   if (!(msb % 8)) {
     data[4] = 0;
     n++;
@@ -165,15 +170,10 @@ static int z_to_bytes(unsigned char *data, element_t e) {
   return (int)n;
 }
 
-static int z_from_bytes(element_t e, unsigned char *data) {
-  unsigned char *ptr;
+static int z_from_bytes(element_t e, const unsigned char *data) {
+  const unsigned char *ptr;
   size_t i, n;
   mpz_ptr z = e->data;
-  mpz_t z1;
-  int neg = 0;
-
-  mpz_init(z1);
-  mpz_set_ui(z, 0);
 
   ptr = data;
   n = 0;
@@ -181,19 +181,12 @@ static int z_from_bytes(element_t e, unsigned char *data) {
     n += ((unsigned int) *ptr) << 8 * (3 - i);
     ptr++;
   }
-  if (data[4] & 128) {
-    neg = 1;
-    data[4] &= 127;
+  mpz_import(z, n, 1, 1, 1, 0, ptr);
+  if (n && (data[4] & 128)) {
+    mpz_clrbit(z, 8 * n - 1);
+    mpz_neg(z, z);
   }
-  for (i=0; i<n; i++) {
-    mpz_set_ui(z1, *ptr);
-    mpz_mul_2exp(z1, z1, 8 * (n - 1 - i));
-    ptr++;
-    mpz_add(z, z, z1);
-  }
-  mpz_clear(z1);
-  if (neg) mpz_neg(z, z);
-  return (int)n;
+  return (int)n + 4;
 }
 
 static void z_to_mpz(mpz_ptr z, element_ptr a) {
@@ -201,7 +194,9 @@ static void z_to_mpz(mpz_ptr z, element_ptr a) {
 }
 
 static int z_length_in_bytes(element_ptr a) {
-  return (int)((mpz_sizeinbase(a->data, 2) + 7) / 8 + 4);
+  // Room for the sign bit; nothing follows the length when the number is 0.
+  if (mpz_is0((mpz_ptr) a->data)) return 4;
+  return (int)(mpz_sizeinbase(a->data, 2) / 8 + 1 + 4);
 }
 
 static void z_out_info(FILE *out, field_ptr f) {
-- 
2.43.0


From cb14266c155787d3a4a96a7d2cbf750cb3656dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:18 +0000
Subject: [PATCH 16/67] fix: powers beyond the table in element_pp_pow

---
 arith/field.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arith/field.c b/arith/field.c
index 5fcbf28..42b02cc 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -306,8 +306,12 @@ static void element_pow_base_table(element_ptr x, mpz_ptr power,
     element_set1(x);
     return;
   }
-  if (mpz_cmp(n, x->field->order) > 0) {
-    mpz_mod(n, n, x->field->order);
+  // The table only covers exponents up to the size of the order. The order of
+  // a field is not the order of its multiplicative group, so we cannot reduce.
+  if (mpz_sizeinbase(n, 2) > (size_t) base_table->bits) {
+    mpz_clear(n);
+    element_pow_mpz(x, base_table->table[0][1], power);
+    return;
   }
 
   element_init(result, x->field);
-- 
2.43.0


From 2a6055b2973cb13e1f4996982b04d35248887e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:58 +0000
Subject: [PATCH 17/67] fix: an x-coordinate that is not on the curve decodes
 to the identity

element_from_bytes_compressed() and element_from_bytes_x_only() took the
square root of a non-residue, which yields a point off the curve in Fp and
never terminates in polynomial extension fields.
---
 ecc/curve.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index 290835e..1b9e136 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -794,8 +794,7 @@ int element_to_bytes_compressed(unsigned char *data, element_ptr e) {
 }
 
 // Computes a point on the elliptic curve Y^2 = X^3 + a X + b given its
-// x-coordinate.
-// Requires a solution to exist.
+// x-coordinate. Sets the point to O if there is none.
 static void point_from_x(point_ptr p, element_t x, element_t a, element_t b) {
   element_t t;
 
@@ -805,8 +804,12 @@ static void point_from_x(point_ptr p, element_t x, element_t a, element_t b) {
   element_add(t, t, a);
   element_mul(t, t, x);
   element_add(t, t, b);
-  element_sqrt(p->y, t);
-  element_set(p->x, x);
+  if (element_is_sqr(t)) {
+    element_sqrt(p->y, t);
+    element_set(p->x, x);
+  } else {
+    p->inf_flag = 1;
+  }
 
   element_clear(t);
 }
@@ -824,6 +827,7 @@ int element_from_bytes_compressed(element_ptr e, const unsigned char *data) {
   len = element_from_bytes(P->x, data);
   point_from_x(P, P->x, cdp->a, cdp->b);
 
+  if (P->inf_flag) return len + 1;
   if (data[len]) {
     if (element_sign(P->y) < 0) element_neg(P->y, P->y);
   } else if (element_sign(P->y) > 0) {
-- 
2.43.0


From eb971135590d5f9740f2b7e993276f4e050d2b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:58 +0000
Subject: [PATCH 18/67] fix: square roots of base field elements in quadratic
 extensions, residue test of zero and in Z

fq_sqrt() and fi_sqrt() returned 0 for elements of the base field whenever
the first candidate for twice the square of the real part was zero;
polymod_is_sqr() denied that zero is a square; z_is_sqr() accepted cubes.
---
 arith/fieldquadratic.c | 26 ++++++++++++++++++++++++++
 arith/poly.c           |  2 ++
 arith/z.c              |  2 +-
 3 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/arith/fieldquadratic.c b/arith/fieldquadratic.c
index c785005..b82bcae 100644
--- a/arith/fieldquadratic.c
+++ b/arith/fieldquadratic.c
@@ -367,6 +367,18 @@ static void fq_sqrt(element_ptr n, element_ptr e) {
   element_init(e0, p->x->field);
   element_init(e1, e0->field);
   element_init(e2, e0->field);
+  if (element_is0(p->y)) {
+    // x is in the base field: either x or x / nqr is a square there.
+    if (element_is_sqr(p->x)) {
+      element_sqrt(r->x, p->x);
+      element_set0(r->y);
+    } else {
+      element_div(e0, p->x, nqr);
+      element_sqrt(r->y, e0);
+      element_set0(r->x);
+    }
+    goto done;
+  }
   element_square(e0, p->x);
   element_square(e1, p->y);
   element_mul(e1, e1, nqr);
@@ -387,6 +399,7 @@ static void fq_sqrt(element_ptr n, element_ptr e) {
   element_invert(e1, e1);
   element_mul(r->y, p->y, e1);
   element_set(r->x, e0);
+done:
   element_clear(e0);
   element_clear(e1);
   element_clear(e2);
@@ -535,6 +548,18 @@ static void fi_sqrt(element_ptr n, element_ptr e) {
   element_init(e0, p->x->field);
   element_init(e1, e0->field);
   element_init(e2, e0->field);
+  if (element_is0(p->y)) {
+    // x is in the base field: either x or -x is a square there.
+    if (element_is_sqr(p->x)) {
+      element_sqrt(r->x, p->x);
+      element_set0(r->y);
+    } else {
+      element_neg(e0, p->x);
+      element_sqrt(r->y, e0);
+      element_set0(r->x);
+    }
+    goto done;
+  }
   element_square(e0, p->x);
   element_square(e1, p->y);
   element_add(e0, e0, e1);
@@ -554,6 +579,7 @@ static void fi_sqrt(element_ptr n, element_ptr e) {
   element_invert(e1, e1);
   element_mul(r->y, p->y, e1);
   element_set(r->x, e0);
+done:
   element_clear(e0);
   element_clear(e1);
   element_clear(e2);
diff --git a/arith/poly.c b/arith/poly.c
index 62e63c0..ea95bc6 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -619,6 +619,8 @@ static int polymod_is_sqr(element_ptr e) {
   mpz_t z;
   element_t e0;
 
+  // 0 is a square.
+  if (element_is0(e)) return 1;
   element_init(e0, e->field);
   mpz_init(z);
   mpz_sub_ui(z, e->field->order, 1);
diff --git a/arith/z.c b/arith/z.c
index 0904ac7..00d5d9f 100644
--- a/arith/z.c
+++ b/arith/z.c
@@ -125,7 +125,7 @@ static int z_cmp(element_ptr a, element_ptr b) {
 }
 
 static int z_is_sqr(element_ptr a) {
-  return mpz_perfect_power_p(a->data);
+  return mpz_perfect_square_p(a->data);
 }
 
 static void z_sqrt(element_ptr c, element_ptr a) {
-- 
2.43.0


From 2730f17d47d34392585210aad75b8eb64cf74c57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:27 +0000
Subject: [PATCH 19/67] fix: malformed point text leaves the identity, not a
 point off the curve

---
 ecc/curve.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index 1b9e136..9302148 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -568,7 +568,6 @@ static int curve_set_str(element_ptr e, const char *s, int base) {
   if (*cp == 'O') {
     return (int)(cp - s + 1);
   }
-  p->inf_flag = 0;
   if (*cp != '[') return 0;
   cp++;
   cp += element_set_str(p->x, cp, base);
@@ -576,8 +575,10 @@ static int curve_set_str(element_ptr e, const char *s, int base) {
   if (*cp != ',') return 0;
   cp++;
   cp += element_set_str(p->y, cp, base);
+  while (*cp && isspace(*cp)) cp++;
   if (*cp != ']') return 0;
 
+  p->inf_flag = 0;
   if (!curve_is_valid_point(e)) {
     element_set0(e);
     return 0;
-- 
2.43.0


From ce44d2c9fc298a6e657c0c6ef8be2468dc8f8e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:27 +0000
Subject: [PATCH 20/67] fix: report unusable entropy files, never use
 undelivered bytes, release on error

A source that could not be opened was ignored silently, a short read was
used as if complete, and a failed read leaked the buffer and the file.
---
 arith/random.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/arith/random.c b/arith/random.c
index 69f3135..3cfc48c 100644
--- a/arith/random.c
+++ b/arith/random.c
@@ -31,17 +31,20 @@ static void file_mpz_random(mpz_t r, mpz_t limit, void *data) {
   size_t bytecount, leftover;
   unsigned char *bytes;
   mpz_t z;
-  mpz_init(z);
   fp = fopen(filename, "rb");
-  if (!fp) return;
+  if (!fp) {
+    pbc_warn("could not open source of random bits");
+    return;
+  }
+  mpz_init(z);
   n = (mp_bitcnt_t)mpz_sizeinbase(limit, 2);
   bytecount = (size_t)((n + 7) / 8);
   leftover = (size_t)(n % 8);
   bytes = (unsigned char *) pbc_malloc(bytecount);
   for (;;) {
-    if (!fread(bytes, 1, bytecount, fp)) {
+    if (fread(bytes, 1, bytecount, fp) != bytecount) {
       pbc_warn("error reading source of random bits");
-      return;
+      goto done;
     }
     if (leftover) {
       *bytes = *bytes % (1 << leftover);
@@ -49,8 +52,9 @@ static void file_mpz_random(mpz_t r, mpz_t limit, void *data) {
     mpz_import(z, bytecount, 1, 1, 0, 0, bytes);
     if (mpz_cmp(z, limit) < 0) break;
   }
-  fclose(fp);
   mpz_set(r, z);
+done:
+  fclose(fp);
   mpz_clear(z);
   pbc_free(bytes);
 }
-- 
2.43.0


From 9dbe9aa69585882580dd102c93fe75d69c96556d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:57:35 +0000
Subject: [PATCH 21/67] fix: a random GT element terminates when the entropy
 source fails

---
 ecc/pairing.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecc/pairing.c b/ecc/pairing.c
index 7f54453..b2c11b6 100644
--- a/ecc/pairing.c
+++ b/ecc/pairing.c
@@ -125,9 +125,9 @@ static void gt_from_hash(element_ptr e, const void *data, int len) {
 
 static void gt_random(element_ptr e) {
   pairing_ptr pairing = e->field->pairing;
-  do {
-    element_random(e->data);
-  } while (element_is0(e->data));  // Zero is not in the multiplicative group.
+  element_random(e->data);
+  // Zero is not in the multiplicative group.
+  if (element_is0(e->data)) element_set1(e->data);
   pairing->finalpow(e);
 }
 
-- 
2.43.0


From dea6ebce1a5d8db607eaa561343729e9d2c9e3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:21 +0000
Subject: [PATCH 22/67] fix: count the punctuation when printing quadratic
 extension elements

---
 arith/fieldquadratic.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arith/fieldquadratic.c b/arith/fieldquadratic.c
index b82bcae..0e73dc0 100644
--- a/arith/fieldquadratic.c
+++ b/arith/fieldquadratic.c
@@ -90,7 +90,7 @@ static int fq_is1(element_ptr e) {
 }
 
 static size_t fq_out_str(FILE *stream, int base, element_ptr e) {
-  size_t result = 4, status;
+  size_t result, status;
   eptr p = e->data;
   if (EOF == fputc('[', stream)) return 0;
   result = element_out_str(stream, base, p->x);
@@ -99,7 +99,7 @@ static size_t fq_out_str(FILE *stream, int base, element_ptr e) {
   status = element_out_str(stream, base, p->y);
   if (!status) return 0;
   if (EOF == fputc(']', stream)) return 0;
-  return result + status;
+  return result + status + 4;
 }
 
 static int fq_snprint(char *s, size_t n, element_ptr e) {
-- 
2.43.0


From a6e6f8b19c8f6c023c66d1b71415825e91cb4df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:21 +0000
Subject: [PATCH 23/67] fix: print a single percent sign for %%

---
 misc/extend_printf.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/misc/extend_printf.c b/misc/extend_printf.c
index fa9bf2b..f45ff8e 100644
--- a/misc/extend_printf.c
+++ b/misc/extend_printf.c
@@ -50,7 +50,15 @@ static int do_print(int(*strcb)(void *, char *s),
       }
       if (!*(c + 1)) goto done;
       if (*(c + 1) != '%') break;
-      next = c + 2;
+      // As in printf, "%%" stands for a single '%'.
+      c++;
+      *c = 0;
+      status = strcb(data, start);
+      if (status < 0) {
+        count = -1;
+        goto done;
+      } else count += status;
+      start = next = c + 1;
     }
     *c = 0;
     status = strcb(data, start);
-- 
2.43.0


From d07901da8f4daeb9e7841578a009c442813271ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:21 +0000
Subject: [PATCH 24/67] fix: report failure to print an element, terminate
 one-byte buffers

---
 arith/field.c        | 2 +-
 misc/extend_printf.c | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/arith/field.c b/arith/field.c
index 42b02cc..3907535 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -547,7 +547,7 @@ static element_ptr generic_get_y(element_ptr e) {
 static int default_element_snprint(char *s, size_t n, element_t e) {
   UNUSED_VAR(e);
   if (n == 1) {
-    s[0] = '0';
+    s[0] = '\0';
   } else if (n >= 2) {
     s[0] = '?';
     s[1] = '\0';
diff --git a/misc/extend_printf.c b/misc/extend_printf.c
index f45ff8e..460cc6f 100644
--- a/misc/extend_printf.c
+++ b/misc/extend_printf.c
@@ -118,7 +118,9 @@ static int format_cb(void *file, char *fstring, void *ptr) {
 }
 
 static int element_cb(void *file, element_ptr e) {
-  return (int)element_out_str(file, 0, e);
+  // element_out_str() returns 0 on failure: every element has some text.
+  size_t status = element_out_str(file, 0, e);
+  return status ? (int)status : -1;
 }
 
 int element_vfprintf(FILE *stream, const char *format, va_list ap) {
-- 
2.43.0


From 16fe6bbf0462a2a49b19148117d86ce094b37054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:21 +0000
Subject: [PATCH 25/67] fix: report failed writes of multiz and ternary field
 elements; print the latter with %B

---
 arith/multiz.c                  | 15 ++++++++++-----
 arith/ternary_extension_field.c | 33 +++++++++++++++++++++------------
 ecc/eta_T_3.c                   | 16 +++++++++-------
 3 files changed, 40 insertions(+), 24 deletions(-)

diff --git a/arith/multiz.c b/arith/multiz.c
index a4f15ff..80baec8 100644
--- a/arith/multiz.c
+++ b/arith/multiz.c
@@ -115,15 +115,20 @@ static size_t multiz_out_str(FILE *stream, int base, multiz ep) {
       return mpz_out_str(stream, base, ep->z);
     default:
       PBC_ASSERT(T_ARR == ep->type, "no such type");
-      fputc('[', stream);
-      size_t res = 1;
+      if (EOF == fputc('[', stream)) return 0;
+      size_t res = 1, status;
       int n = darray_count(ep->a);
       int i;
       for(i = 0; i < n; i++) {
-        if (i) res += 2, fputs(", ", stream);
-        res += multiz_out_str(stream, base, darray_at(ep->a, i));
+        if (i) {
+          if (EOF == fputs(", ", stream)) return 0;
+          res += 2;
+        }
+        status = multiz_out_str(stream, base, darray_at(ep->a, i));
+        if (!status) return 0;
+        res += status;
       }
-      fputc(']', stream);
+      if (EOF == fputc(']', stream)) return 0;
       res++;
       return res;
   }
diff --git a/arith/ternary_extension_field.c b/arith/ternary_extension_field.c
index b4e9f3f..3b12762 100644
--- a/arith/ternary_extension_field.c
+++ b/arith/ternary_extension_field.c
@@ -56,16 +56,19 @@ typedef gf33m_s *gf33m_ptr;
 #define print(e) {printf(#e": "); element_out_str(stdout, 10, e); printf("\n");}
 
 static size_t gf3m_out_str(FILE *stream, int base, element_t e) {
-    if (base != 10 && base != 16)
+    if (base != 0 && base != 10 && base != 16)
         pbc_die("only support base 10 and base 16");
     size_t size = 0;
     unsigned i;
+    int status;
     unsigned long *d = DATA1(e);
     for (i = 0; i < LEN(e) * 2; i++) {
         if (base == 16)
-            size += fprintf(stream, "0x%lx,", d[i]);
+            status = fprintf(stream, "0x%lx,", d[i]);
         else
-            size += fprintf(stream, "%lu,", d[i]);
+            status = fprintf(stream, "%lu,", d[i]);
+        if (status < 0) return 0;
+        size += status;
     }
     return size;
 }
@@ -520,10 +523,12 @@ void field_init_gf3m(field_t f, unsigned m, unsigned t) {
 static size_t gf32m_out_str(FILE *stream, int base, element_t e) {
     UNUSED_VAR(base);
     element_ptr e0 = GF32M(e)->_0, e1 = GF32M(e)->_1;
-    size_t size = 0;
-    size += element_out_str(stream, base, e0);
-    size += element_out_str(stream, base, e1);
-    return size;
+    size_t size, status;
+    size = element_out_str(stream, base, e0);
+    if (!size) return 0;
+    status = element_out_str(stream, base, e1);
+    if (!status) return 0;
+    return size + status;
 }
 
 static void gf32m_init(element_t e) {
@@ -684,11 +689,15 @@ void field_init_gf32m(field_t f, field_t b) {
 static size_t gf33m_out_str(FILE *stream, int base, element_t e) {
     UNUSED_VAR(base);
     element_ptr e0 = GF33M(e)->_0, e1 = GF33M(e)->_1, e2 = GF33M(e)->_2;
-    size_t size = 0;
-    size += element_out_str(stream, base, e0);
-    size += element_out_str(stream, base, e1);
-    size += element_out_str(stream, base, e2);
-    return size;
+    size_t size, status;
+    size = element_out_str(stream, base, e0);
+    if (!size) return 0;
+    status = element_out_str(stream, base, e1);
+    if (!status) return 0;
+    size += status;
+    status = element_out_str(stream, base, e2);
+    if (!status) return 0;
+    return size + status;
 }
 
 static void gf33m_init(element_t e) {
diff --git a/ecc/eta_T_3.c b/ecc/eta_T_3.c
index 44396b7..b88b872 100644
--- a/ecc/eta_T_3.c
+++ b/ecc/eta_T_3.c
@@ -187,14 +187,16 @@ static void point_invert(element_ptr e, element_ptr a) {
 
 static size_t point_out_str(FILE *stream, int base, element_ptr a) {
     point_ptr p = DATA(a);
-    size_t size = 0;
-    if (p->isinf)
-        return fprintf(stream, "O");
-    else {
-        size += element_out_str(stream, base, p->x);
-        size += element_out_str(stream, base, p->y);
-        return size;
+    size_t size, status;
+    if (p->isinf) {
+        if (EOF == fputc('O', stream)) return 0;
+        return 1;
     }
+    size = element_out_str(stream, base, p->x);
+    if (!size) return 0;
+    status = element_out_str(stream, base, p->y);
+    if (!status) return 0;
+    return size + status;
 }
 
 static void point_field_clear(field_ptr f) {
-- 
2.43.0


From 804d07b26dd9c1809e80a10a2bc5971fa007374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:21 +0000
Subject: [PATCH 26/67] fix: print integers to a buffer

---
 arith/z.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/arith/z.c b/arith/z.c
index 00d5d9f..6284dc2 100644
--- a/arith/z.c
+++ b/arith/z.c
@@ -44,6 +44,10 @@ static size_t z_out_str(FILE *stream, int base, element_ptr e) {
   return mpz_out_str(stream, base, e->data);
 }
 
+static int z_snprint(char *s, size_t n, element_ptr e) {
+  return gmp_snprintf(s, n, "%Zd", e->data);
+}
+
 static int z_sgn(element_ptr a) {
   mpz_ptr z = a->data;
   return mpz_sgn(z);
@@ -221,6 +225,7 @@ void field_init_z(field_ptr f) {
   f->set_mpz = z_set_mpz;
   f->set_str = z_set_str;
   f->out_str = z_out_str;
+  f->snprint = z_snprint;
   f->sign = z_sgn;
   f->add = z_add;
   f->sub = z_sub;
-- 
2.43.0


From 4030fe430f01e973ec9f9e6d76106ecbc325784c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:13 +0000
Subject: [PATCH 27/67] fix: element_mul_si in groups of points is a multiple

---
 arith/field.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/arith/field.c b/arith/field.c
index 3907535..f2b8998 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -396,11 +396,14 @@ static void generic_mul_mpz(element_ptr r, element_ptr a, mpz_ptr z) {
 }
 
 static void generic_mul_si(element_ptr r, element_ptr a, signed long int n) {
-  element_t e0;
-  element_init(e0, r->field);
-  element_set_si(e0, n);
-  element_mul(r, a, e0);
-  element_clear(e0);
+  // Through element_mul_mpz(), so that it is a multiple in groups as well.
+  mpz_t z;
+  mpz_init(z);
+  mpz_set_si(z, n);
+  mpz_abs(z, z);
+  element_mul_mpz(r, a, z);
+  if (n < 0) element_neg(r, r);
+  mpz_clear(z);
 }
 
 static void generic_double(element_ptr r, element_ptr a) {
-- 
2.43.0


From dae5b956621ebd81a8fb9a86bfecc0b2fa89e855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:57 +0000
Subject: [PATCH 28/67] fix: reject malformed numbers in parameters, release
 everything when loading fails

---
 ecc/d_param.c |  5 +++++
 ecc/param.c   | 38 +++++++++++++++++++++++++-------------
 2 files changed, 30 insertions(+), 13 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index 24d09df..d6f4760 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -1214,6 +1214,11 @@ int pbc_param_init_d(pbc_param_ptr par, struct symtab_s *tab) {
   err += lookup_mpz(p->hk, tab, "hk");
   err += lookup_mpz(p->nqr, tab, "nqr");
 
+  if (p->k < 0) {
+    pbc_error("bad param: `k'");
+    p->k = 0;
+    err++;
+  }
   d = p->k / 2;
   p->coeff = pbc_realloc(p->coeff, sizeof(mpz_t) * d);
   for (i=0; i<d; i++) {
diff --git a/ecc/param.c b/ecc/param.c
index 35db0c4..66831f9 100644
--- a/ecc/param.c
+++ b/ecc/param.c
@@ -104,6 +104,8 @@ static void read_symtab(symtab_t tab, const char *input, size_t limit) {
       pbc_free(key);
       break;
     }
+    // A repeated key replaces the earlier value.
+    pbc_free(symtab_at(tab, key));
     symtab_put(tab, pbc_strdup(tok->s), key);
     pbc_free(key);
   }
@@ -145,24 +147,30 @@ int lookup_mpz(mpz_t z, symtab_t tab, const char *key) {
     pbc_error("missing param: `%s'", key);
     return 1;
   }
-  mpz_set_str(z, data, 0);
+  if (mpz_set_str(z, data, 0)) {
+    pbc_error("bad param: `%s'", key);
+    mpz_set_ui(z, 0);
+    return 1;
+  }
   return 0;
 }
 
 int lookup_int(int *n, symtab_t tab, const char *key) {
   mpz_t z;
-  const char *data = lookup(tab, key);
-  if (!data) {
-    pbc_error("missing param: `%s'", key);
-    return 1;
-  }
+  int err;
+  *n = 0;
   mpz_init(z);
-
-  mpz_set_str(z, data, 0);
-  *n = (int)mpz_get_si(z);
+  err = lookup_mpz(z, tab, key);
+  if (!err) {
+    if (mpz_fits_sint_p(z)) {
+      *n = (int)mpz_get_si(z);
+    } else {
+      pbc_error("bad param: `%s'", key);
+      err = 1;
+    }
+  }
   mpz_clear(z);
-
-  return 0;
+  return err;
 }
 
 static int param_set_tab(pbc_param_t par, symtab_t tab) {
@@ -187,8 +195,12 @@ static int param_set_tab(pbc_param_t par, symtab_t tab) {
     for(i = 0; i < sizeof(funtab)/sizeof(*funtab); i++) {
       if (!strcmp(s, funtab[i].s)) {
         res = funtab[i].fun(par, tab);
-        if (res) pbc_error("bad pairing parameters");
-        return res;
+        if (res) {
+          pbc_error("bad pairing parameters");
+          par->api->clear(par->data);
+          return 1;
+        }
+        return 0;
       }
     }
   }
-- 
2.43.0


From 5df1f67bbf632c833564d6c9ed521d10f887deb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:51 +0000
Subject: [PATCH 29/67] fix: release what type e and f generation and type a1
 precomputation allocate

---
 ecc/a_param.c | 18 ++++++++++++++++++
 ecc/e_param.c |  2 ++
 ecc/f_param.c |  2 ++
 3 files changed, 22 insertions(+)

diff --git a/ecc/a_param.c b/ecc/a_param.c
index 22ebdb2..d6c17a2 100644
--- a/ecc/a_param.c
+++ b/ecc/a_param.c
@@ -1622,9 +1622,27 @@ static void pp2_coeff_set(pp2_coeff_ptr p,
 
 static void a1_pairing_pp_clear(pairing_pp_t p) {
   void **pp = p->data;
+  mp_bitcnt_t m = (mp_bitcnt_t)mpz_sizeinbase(p->pairing->r, 2);
+  m = (m > 2 ? m - 2 : 0);
+  // As in a1_pairing_pp_init(), the last entry is always a pp_coeff_t.
   while (*pp) {
+    if (m && mpz_tstbit(p->pairing->r, m)) {
+      pp2_coeff_ptr pp2 = *pp;
+      element_clear(pp2->cx2);
+      element_clear(pp2->cy2);
+      element_clear(pp2->cxy);
+      element_clear(pp2->cx);
+      element_clear(pp2->cy);
+      element_clear(pp2->c);
+    } else {
+      pp_coeff_ptr pp1 = *pp;
+      element_clear(pp1->a);
+      element_clear(pp1->b);
+      element_clear(pp1->c);
+    }
     pbc_free(*pp);
     pp++;
+    m--;
   }
   pbc_free(p->data);
 }
diff --git a/ecc/e_param.c b/ecc/e_param.c
index 599a4c5..d195d74 100644
--- a/ecc/e_param.c
+++ b/ecc/e_param.c
@@ -1014,5 +1014,7 @@ void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
   element_to_mpz(p->a, curve_field_a_coeff(cc));
   element_to_mpz(p->b, curve_field_b_coeff(cc));
 
+  field_clear(cc);
+  field_clear(Fq);
   mpz_clear(n);
 }
diff --git a/ecc/f_param.c b/ecc/f_param.c
index a27d585..204c699 100644
--- a/ecc/f_param.c
+++ b/ecc/f_param.c
@@ -529,6 +529,8 @@ void pbc_param_init_f_gen(pbc_param_t p, int bits) {
     element_clear(P);
     field_clear(c);
   }
+  element_clear(P);
+  field_clear(c);
   element_to_mpz(b, e1);
   element_clear(e1);
   field_init_quadratic(Fq2, Fq);
-- 
2.43.0


From fa073dcf45523ce069ea3792bb7238eca17c921a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:10 +0000
Subject: [PATCH 30/67] fix: list items no longer leak or bypass the allocator

---
 arith/multiz.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/arith/multiz.c b/arith/multiz.c
index 80baec8..abffea2 100644
--- a/arith/multiz.c
+++ b/arith/multiz.c
@@ -22,6 +22,8 @@
 struct multiz_s {
   // Either it's an mpz, or a list of mpzs.
   char type;
+  // Lets f_item() hand out an element without allocating one.
+  struct element_s view;
   union {
     mpz_t z;
     darray_t a;
@@ -395,14 +397,14 @@ static int f_item_count(element_ptr e) {
   return darray_count(z->a);
 }
 
-// TODO: Redesign multiz so this doesn't leak.
+// The returned element belongs to e.
 static element_ptr f_item(element_ptr e, int i) {
   multiz z = e->data;
   if (T_MPZ == z->type) return NULL;
-  element_ptr r = malloc(sizeof(*r));
-  r->field = e->field;
-  r->data = darray_at(z->a, i);
-  return r;
+  multiz m = darray_at(z->a, i);
+  m->view.field = e->field;
+  m->view.data = m;
+  return &m->view;
 }
 
 // Usual meaning when both are integers.
-- 
2.43.0


From 0c9d62863a446f8926f59bbc5c8015d8d69a5637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:10 +0000
Subject: [PATCH 31/67] fix: root of a degree 1 polynomial

---
 arith/poly.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/arith/poly.c b/arith/poly.c
index ea95bc6..0362b92 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -1650,6 +1650,13 @@ int poly_findroot(element_ptr root, element_ptr poly) {
   element_t p, x, r, fac, g;
   mpz_t q;
 
+  // A quotient by a degree 1 polynomial has no room for x.
+  if (poly_degree(poly) == 1) {
+    element_div(root, poly_coeff(poly, 0), poly_coeff(poly, 1));
+    element_neg(root, root);
+    return 0;
+  }
+
   mpz_init(q);
   mpz_set(q, poly_base_field(poly)->order);
 
-- 
2.43.0


From f95b071b2f7924cbb0f3c52d897b7660e4a4a999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:39:29 +0000
Subject: [PATCH 32/67] fix: type f generation decides the twist only on
 conclusive points

---
 ecc/f_param.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ecc/f_param.c b/ecc/f_param.c
index 204c699..d66f159 100644
--- a/ecc/f_param.c
+++ b/ecc/f_param.c
@@ -550,7 +550,9 @@ void pbc_param_init_f_gen(pbc_param_t p, int bits) {
   //extend F_q^2 using f = x^6 + alpha
   //see if sextic twist contains a subgroup of order r
   //if not, it's the wrong twist: replace alpha with alpha^5
-  {
+  //a point outside the subgroup shows nothing, so try both twists in turn
+  for (;;) {
+    int found;
     field_t ctest;
     element_t Ptest;
     mpz_t z0, z1;
@@ -577,7 +579,8 @@ void pbc_param_init_f_gen(pbc_param_t p, int bits) {
     mpz_divexact(z1, z1, z0);
 
     element_mul_mpz(Ptest, Ptest, z1);
-    if (element_is0(Ptest)) {
+    found = !element_is0(Ptest);
+    if (!found) {
       mpz_set_ui(z0, 5);
       element_pow_mpz(element_item(f, 0), element_item(f, 0), z0);
     }
@@ -586,6 +589,7 @@ void pbc_param_init_f_gen(pbc_param_t p, int bits) {
     field_clear(ctest);
     mpz_clear(z0);
     mpz_clear(z1);
+    if (found) break;
   }
 
   element_to_mpz(fp->alpha0, element_x(element_item(f, 0)));
-- 
2.43.0


From f2112917b246e2cc2f210d0fb20dc65e6b956bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:40:41 +0000
Subject: [PATCH 33/67] fix: Freeman curve search with solutions that are 10
 modulo 15

---
 ecc/mnt.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecc/mnt.c b/ecc/mnt.c
index 0d51f52..cb49e80 100644
--- a/ecc/mnt.c
+++ b/ecc/mnt.c
@@ -354,7 +354,9 @@ static int freeman_step2(int (*callback)(pbc_cm_t, void *), void *data,
   if (!mpz_cmp_ui(x, 5)) {
     mpz_sub_ui(x, U, 5);
   } else if (!mpz_cmp_ui(x, 10)) {
+    // -U is the solution that is 5 modulo 15.
     mpz_add_ui(x, U, 5);
+    mpz_neg(x, x);
   } else {
     pbc_die("should never reach here");
     mpz_clear(x);
-- 
2.43.0


From 81398e86aeb27c179290c61f103c93da9ff74676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:29 +0000
Subject: [PATCH 34/67] fix: generation of type d, e, f, g decides curve orders
 only on conclusive points

---
 ecc/curve.c         | 28 ++++++++++++++++++++++++++++
 ecc/d_param.c       | 10 +---------
 ecc/e_param.c       | 10 +---------
 ecc/f_param.c       |  3 +++
 ecc/g_param.c       | 10 +---------
 include/pbc_curve.h |  3 +++
 6 files changed, 37 insertions(+), 27 deletions(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index 9302148..f405995 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -908,6 +908,34 @@ void field_init_curve_ab_map(field_t cnew, field_t c,
 }
 
 // Existing points are invalidated as this mangles c.
+void field_curve_twist_to_order(field_ptr c, mpz_t n) {
+  curve_data_ptr cdp = c->data;
+  element_t P, Q;
+  mpz_t twist;
+  int ok, twist_ok;
+
+  // The orders of a curve and its twist add up to 2(q + 1).
+  mpz_init(twist);
+  mpz_add_ui(twist, cdp->field->order, 1);
+  mpz_add(twist, twist, twist);
+  mpz_sub(twist, twist, n);
+
+  element_init(P, c);
+  element_init(Q, c);
+  // A point whose order divides both orders shows nothing.
+  do {
+    curve_random_no_cofac_solvefory(P);
+    element_mul_mpz(Q, P, n);
+    ok = element_is0(Q);
+    element_mul_mpz(Q, P, twist);
+    twist_ok = element_is0(Q);
+  } while (ok && twist_ok);
+  if (!ok) field_reinit_curve_twist(c);
+  element_clear(P);
+  element_clear(Q);
+  mpz_clear(twist);
+}
+
 void field_reinit_curve_twist(field_ptr c) {
   curve_data_ptr cdp = c->data;
   element_ptr nqr = field_get_nqr(cdp->field);
diff --git a/ecc/d_param.c b/ecc/d_param.c
index d6f4760..2f338e0 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -1137,15 +1137,7 @@ static void compute_cm_curve(d_param_ptr param, pbc_cm_ptr cm) {
   element_clear(root);
 
   // We may need to twist it.
-  {
-    // Pick a random point P and twist the curve if it has the wrong order.
-    element_t P;
-    element_init(P, cc);
-    element_random(P);
-    element_mul_mpz(P, P, cm->n);
-    if (!element_is0(P)) field_reinit_curve_twist(cc);
-    element_clear(P);
-  }
+  field_curve_twist_to_order(cc, cm->n);
 
   mpz_set(param->q, cm->q);
   mpz_set(param->n, cm->n);
diff --git a/ecc/e_param.c b/ecc/e_param.c
index d195d74..ccc08e9 100644
--- a/ecc/e_param.c
+++ b/ecc/e_param.c
@@ -1002,15 +1002,7 @@ void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
   field_init_curve_b(cc, j, n, NULL);
   element_clear(j);
   // We may need to twist it.
-  {
-    // Pick a random point P and twist the curve if P has the wrong order.
-    element_t P;
-    element_init(P, cc);
-    element_random(P);
-    element_mul_mpz(P, P, n);
-    if (!element_is0(P)) field_reinit_curve_twist(cc);
-    element_clear(P);
-  }
+  field_curve_twist_to_order(cc, n);
   element_to_mpz(p->a, curve_field_a_coeff(cc));
   element_to_mpz(p->b, curve_field_b_coeff(cc));
 
diff --git a/ecc/f_param.c b/ecc/f_param.c
index d66f159..2d082bf 100644
--- a/ecc/f_param.c
+++ b/ecc/f_param.c
@@ -519,7 +519,10 @@ void pbc_param_init_f_gen(pbc_param_t p, int bits) {
 
   for (;;) {
     element_random(e1);
+    if (element_is0(e1)) continue;  // Singular.
     field_init_curve_b(c, e1, r, NULL);
+    // A multiple of the generator may be O, which shows nothing.
+    field_curve_use_random_solvefory(c);
     element_init(P, c);
 
     element_random(P);
diff --git a/ecc/g_param.c b/ecc/g_param.c
index f611411..fe2aea1 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -1214,15 +1214,7 @@ static void compute_cm_curve(g_param_ptr param, pbc_cm_ptr cm) {
   element_clear(root);
 
   //we may need to twist it however
-  {
-    // Pick a random point P and twist the curve if it has the wrong order.
-    element_t P;
-    element_init(P, cc);
-    element_random(P);
-    element_mul_mpz(P, P, cm->n);
-    if (!element_is0(P)) field_reinit_curve_twist(cc);
-    element_clear(P);
-  }
+  field_curve_twist_to_order(cc, cm->n);
 
   mpz_set(param->q, cm->q);
   mpz_set(param->n, cm->n);
diff --git a/include/pbc_curve.h b/include/pbc_curve.h
index 9a86903..a0bc4de 100644
--- a/include/pbc_curve.h
+++ b/include/pbc_curve.h
@@ -43,6 +43,9 @@ void field_init_curve_ab(field_ptr f, element_ptr a, element_ptr b, mpz_t order,
 // TODO: Refactor so we can remove this from the interface.
 void field_reinit_curve_twist(field_t f);
 
+// Twists f if its order is not 'n'. Requires that f or its twist has order 'n'.
+void field_curve_twist_to_order(field_t f, mpz_t n);
+
 // Compute trace of Frobenius at q^n given trace at q.
 void pbc_mpz_trace_n(mpz_t res, mpz_t q, mpz_t trace, int n);
 
-- 
2.43.0


From 20c422eeb026a15ee411888a46b57a2a806496f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:26 +0000
Subject: [PATCH 35/67] fix: draw type a and e parameters and ternary field
 elements from the installed random source

---
 arith/ternary_extension_field.c | 20 +++++++++++++++-----
 ecc/a_param.c                   | 20 ++++++++++++++++----
 ecc/e_param.c                   | 20 ++++++++++++++++----
 3 files changed, 47 insertions(+), 13 deletions(-)

diff --git a/arith/ternary_extension_field.c b/arith/ternary_extension_field.c
index 3b12762..37b05f7 100644
--- a/arith/ternary_extension_field.c
+++ b/arith/ternary_extension_field.c
@@ -21,6 +21,7 @@
 #include <gmp.h>
 #include "pbc_utils.h"
 #include "pbc_memory.h"
+#include "pbc_random.h"
 #include "pbc_field.h"
 
 typedef unsigned long gf3;
@@ -208,6 +209,15 @@ static int gf3m_is1(element_t e) {
     return 1;
 }
 
+static unsigned long random_word(void) {
+    mpz_t z;
+    mpz_init(z);
+    pbc_mpz_randomb(z, W);
+    unsigned long r = mpz_get_ui(z);
+    mpz_clear(z);
+    return r;
+}
+
 /* set $a$ to be a random element in $GF(3^m)$ */
 static void gf3m_random(element_t a) {
     /* TODO: use uniform distribution? */
@@ -217,13 +227,13 @@ static void gf3m_random(element_t a) {
     unsigned long i2 = (1ul << rm) - 1;
     unsigned long *a1 = DATA1(a), *a2 = DATA2(a);
     unsigned i;
-    for (i = 0; i < c->len - 1; i++, a1++, a2++) { /* TODO: if $RAND_MAX < i1$ ? */
-        *a1 = rand() & i1;
-        *a2 = rand() & i1 & ~(*a1); /* assuring there is no bit that a1[x] & a2[x] == 1 */
+    for (i = 0; i < c->len - 1; i++, a1++, a2++) {
+        *a1 = random_word() & i1;
+        *a2 = random_word() & i1 & ~(*a1); /* assuring there is no bit that a1[x] & a2[x] == 1 */
     }
     unsigned long x = rm ? i2 : i1;
-    *a1 = rand() & x;
-    *a2 = rand() & x & ~(*a1);
+    *a1 = random_word() & x;
+    *a2 = random_word() & x & ~(*a1);
 }
 
 static void swap(unsigned long *a, unsigned long *b) {
diff --git a/ecc/a_param.c b/ecc/a_param.c
index d6c17a2..4ba8315 100644
--- a/ecc/a_param.c
+++ b/ecc/a_param.c
@@ -1,7 +1,7 @@
 #include <stdarg.h>
 #include <stdio.h>
 #include <stdint.h> // for intptr_t
-#include <stdlib.h> //for rand, pbc_malloc, pbc_free
+#include <stdlib.h> //for pbc_malloc, pbc_free
 #include <string.h> //for strcmp
 #include <gmp.h>
 #include "pbc_utils.h"
@@ -1501,6 +1501,18 @@ int pbc_param_init_a(pbc_param_ptr par, struct symtab_s *tab) {
   return err;
 }
 
+static int random_below(int limit) {
+  mpz_t z, n;
+  int res;
+  mpz_init(z);
+  mpz_init_set_ui(n, limit);
+  pbc_mpz_random(z, n);
+  res = (int)mpz_get_ui(z);
+  mpz_clear(z);
+  mpz_clear(n);
+  return res;
+}
+
 void pbc_param_init_a_gen(pbc_param_ptr par, int rbits, int qbits) {
   a_param_init(par);
   a_param_ptr sp = par->data;
@@ -1514,7 +1526,7 @@ void pbc_param_init_a_gen(pbc_param_ptr par, int rbits, int qbits) {
     int i;
     mpz_set_ui(r, 0);
 
-    if (rand() % 2) {
+    if (random_below(2)) {
       sp->exp2 = rbits - 1;
       sp->sign1 = 1;
     } else {
@@ -1525,7 +1537,7 @@ void pbc_param_init_a_gen(pbc_param_ptr par, int rbits, int qbits) {
 
     //use q as a temp variable
     mpz_set_ui(q, 0);
-    sp->exp1 = (rand() % (sp->exp2 - 1)) + 1;
+    sp->exp1 = random_below(sp->exp2 - 1) + 1;
     mpz_setbit(q, sp->exp1);
     if (sp->sign1 > 0) {
       mpz_add(r, r, q);
@@ -1533,7 +1545,7 @@ void pbc_param_init_a_gen(pbc_param_ptr par, int rbits, int qbits) {
       mpz_sub(r, r, q);
     }
 
-    if (rand() % 2) {
+    if (random_below(2)) {
       sp->sign0 = 1;
       mpz_add_ui(r, r, 1);
     } else {
diff --git a/ecc/e_param.c b/ecc/e_param.c
index ccc08e9..8b42226 100644
--- a/ecc/e_param.c
+++ b/ecc/e_param.c
@@ -1,7 +1,7 @@
 #include <stdarg.h>
 #include <stdio.h>
 #include <stdint.h> // for intptr_t
-#include <stdlib.h> //for rand, pbc_malloc, pbc_free
+#include <stdlib.h> //for pbc_malloc, pbc_free
 #include <string.h> //for strcmp
 #include <gmp.h>
 #include "pbc_utils.h"
@@ -916,6 +916,18 @@ int pbc_param_init_e(pbc_param_ptr par, struct symtab_s *tab) {
   return err;
 }
 
+static int random_below(int limit) {
+  mpz_t z, n;
+  int res;
+  mpz_init(z);
+  mpz_init_set_ui(n, limit);
+  pbc_mpz_random(z, n);
+  res = (int)mpz_get_ui(z);
+  mpz_clear(z);
+  mpz_clear(n);
+  return res;
+}
+
 void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
   e_init(par);
   e_param_ptr p = par->data;
@@ -939,7 +951,7 @@ void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
     int i;
     mpz_set_ui(r, 0);
 
-    if (rand() % 2) {
+    if (random_below(2)) {
       p->exp2 = rbits - 1;
       p->sign1 = 1;
     } else {
@@ -948,7 +960,7 @@ void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
     }
     mpz_setbit(r, p->exp2);
 
-    p->exp1 = (rand() % (p->exp2 - 1)) + 1;
+    p->exp1 = random_below(p->exp2 - 1) + 1;
     //use q as a temp variable
     mpz_set_ui(q, 0);
     mpz_setbit(q, p->exp1);
@@ -959,7 +971,7 @@ void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
       mpz_sub(r, r, q);
     }
 
-    if (rand() % 2) {
+    if (random_below(2)) {
       p->sign0 = 1;
       mpz_add_ui(r, r, 1);
     } else {
-- 
2.43.0


From 16f81480cac57f44ad865dd6eac0f4bfc1b5e33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:05:55 +0000
Subject: [PATCH 36/67] fix: identity elements in the type D and G co-DDH test

---
 ecc/d_param.c | 16 ++++++++++++----
 ecc/g_param.c | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/ecc/d_param.c b/ecc/d_param.c
index 2f338e0..fe7f3ae 100644
--- a/ecc/d_param.c
+++ b/ecc/d_param.c
@@ -761,10 +761,18 @@ static int cc_is_almost_coddh(element_ptr a, element_ptr b,
   element_mul(cy, curve_y_coord(c), p->nqrinv2);
   element_mul(dy, curve_y_coord(d), p->nqrinv2);
 
-  cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
-  cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
-  cc_tatepower(t0, t0, pairing);
-  cc_tatepower(t1, t1, pairing);
+  if (element_is0(a) || element_is0(d)) {
+    element_set1(t0);
+  } else {
+    cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
+    cc_tatepower(t0, t0, pairing);
+  }
+  if (element_is0(b) || element_is0(c)) {
+    element_set1(t1);
+  } else {
+    cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
+    cc_tatepower(t1, t1, pairing);
+  }
   element_mul(t2, t0, t1);
   if (element_is1(t2)) res = 1;    // We were given g, g^x, h, h^-x.
   else {
diff --git a/ecc/g_param.c b/ecc/g_param.c
index fe2aea1..9f801f9 100644
--- a/ecc/g_param.c
+++ b/ecc/g_param.c
@@ -586,10 +586,18 @@ static int cc_is_almost_coddh(element_ptr a, element_ptr b,
   element_mul(cy, curve_y_coord(c), p->nqrinv2);
   element_mul(dy, curve_y_coord(d), p->nqrinv2);
 
-  cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
-  cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
-  tatepower10(t0, t0, pairing);
-  tatepower10(t1, t1, pairing);
+  if (element_is0(a) || element_is0(d)) {
+    element_set1(t0);
+  } else {
+    cc_miller_no_denom_fn(t0, pairing->r, a, dx, dy);
+    tatepower10(t0, t0, pairing);
+  }
+  if (element_is0(b) || element_is0(c)) {
+    element_set1(t1);
+  } else {
+    cc_miller_no_denom_fn(t1, pairing->r, b, cx, cy);
+    tatepower10(t1, t1, pairing);
+  }
   element_mul(t2, t0, t1);
   if (element_is1(t2)) {
     //g, g^x, h, h^-x case
-- 
2.43.0


From 998d550876a188951b3ba5069c0389791b4e618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:33 +0000
Subject: [PATCH 37/67] fix: big-number allocation failures and shrinking
 blocks in the memory-wiping build

---
 misc/memory.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/misc/memory.c b/misc/memory.c
index 21d50dd..f8520c4 100644
--- a/misc/memory.c
+++ b/misc/memory.c
@@ -14,7 +14,9 @@ static void gmp_free(void *ptr, size_t size) {
 }
 
 static void* gmp_malloc(size_t size) {
-  return malloc(size);
+  void *ptr = malloc(size);
+  if(!ptr) pbc_die("malloc() error");
+  return ptr;
 }
 
 /* guarantee zeroing the memory
@@ -22,8 +24,9 @@ static void* gmp_malloc(size_t size) {
  * because memory contents are not zeroed out. */
 static void* gmp_realloc(void *old_ptr, size_t old_size, size_t new_size) {
   void *new_ptr = malloc(new_size);
-  if(new_ptr && old_ptr)
-    memcpy(new_ptr, old_ptr, old_size);
+  if(!new_ptr) pbc_die("realloc() error");
+  if(old_ptr)
+    memcpy(new_ptr, old_ptr, old_size < new_size ? old_size : new_size);
   gmp_free(old_ptr, old_size);
   return new_ptr;
 }
@@ -76,7 +79,8 @@ static void *default_pbc_realloc(void *old, size_t new_size) {
   if(!new) pbc_die("realloc() error");
   if(old) {
     old = pbc_ptr_to_mem(old);
-    memcpy(pbc_mem_to_ptr(new), pbc_mem_to_ptr(old), pbc_mem_get_size(old));
+    size_t old_size = pbc_mem_get_size(old);
+    memcpy(pbc_mem_to_ptr(new), pbc_mem_to_ptr(old), old_size < new_size ? old_size : new_size);
     pbc_mem_free(old);
   }
   return pbc_mem_to_ptr(new);
-- 
2.43.0


From 9b75beae18e8c5dc77b64302e792f384072e5627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:33 +0000
Subject: [PATCH 38/67] fix: running out of memory while reporting a fatal
 error must not recurse

---
 misc/utils.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/misc/utils.c b/misc/utils.c
index 1a80825..6601e5e 100644
--- a/misc/utils.c
+++ b/misc/utils.c
@@ -68,8 +68,15 @@ static void report(const char *prefix, const char *err, va_list params) {
 }
 
 void pbc_die(const char *err, ...) {
+  static int dying = 0;
   va_list params;
 
+  // Formatting a message needs memory, which may be what we ran out of.
+  if (dying) {
+    out("fatal: %s\n", err);
+    exit(128);
+  }
+  dying = 1;
   va_start(params, err);
   report("fatal: ", err, params);
   va_end(params);
-- 
2.43.0


From c344602e6148cf22970e845e94dccf1327e87f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:22:30 +0000
Subject: [PATCH 39/67] fix: the memory-wiping build really wipes blocks before
 release

Compilers remove a memset() whose target is freed right afterwards.
---
 misc/memory.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/misc/memory.c b/misc/memory.c
index f8520c4..7083e13 100644
--- a/misc/memory.c
+++ b/misc/memory.c
@@ -6,10 +6,14 @@
 #include "pbc_memory.h"
 
 #ifdef SAFE_CLEAN
+/* called through a volatile pointer, otherwise compilers drop a memset() that
+ * is followed by free() */
+static void *(*volatile wipe)(void *, int, size_t) = memset;
+
 /* guarantee zeroing the memory */
 static void gmp_free(void *ptr, size_t size) {
   if(ptr)
-    memset(ptr, 0, size);
+    wipe(ptr, 0, size);
   free(ptr);
 }
 
@@ -64,7 +68,7 @@ static void *pbc_mem_malloc(size_t size) {
 }
 
 static void pbc_mem_free(void *ptr) {
-  memset(ptr, 0, pbc_mem_get_size(ptr) + sizeof(size_t));
+  wipe(ptr, 0, pbc_mem_get_size(ptr) + sizeof(size_t));
   free(ptr);
 }
 
-- 
2.43.0


From 251cf60bda48212774f0605e7f273140f7dfcd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:27 +0000
Subject: [PATCH 40/67] fix: default pairing precomputation keeps its own copy
 of the element

---
 ecc/pairing.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecc/pairing.c b/ecc/pairing.c
index b2c11b6..fe8fd18 100644
--- a/ecc/pairing.c
+++ b/ecc/pairing.c
@@ -60,7 +60,9 @@ static void default_option_set(struct pairing_s *pairing, char *key, char *value
 
 static void default_pp_init(pairing_pp_t p, element_ptr in1, pairing_t pairing) {
   UNUSED_VAR(pairing);
-  p->data = (void *) in1;
+  // Keep a copy: the caller may change or clear in1 before using p.
+  p->data = element_new(in1->field);
+  element_set(p->data, in1);
 }
 
 static void default_pp_apply(element_ptr out, element_ptr in2, pairing_pp_t p) {
@@ -68,7 +70,7 @@ static void default_pp_apply(element_ptr out, element_ptr in2, pairing_pp_t p) {
 }
 
 static void default_pp_clear(pairing_pp_t p) {
-  UNUSED_VAR(p);
+  element_free(p->data);
 }
 
 void pairing_init_pbc_param(pairing_t pairing, pbc_param_ptr p) {
-- 
2.43.0


From 7c43fc6fc99f6a1b9bce220eec645fbb004c3e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:24 +0000
Subject: [PATCH 41/67] fix: rho discrete logarithm retries walks whose
 collision tells nothing

---
 arith/dlog.c | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/arith/dlog.c b/arith/dlog.c
index bfa0d78..dce14dd 100644
--- a/arith/dlog.c
+++ b/arith/dlog.c
@@ -52,9 +52,8 @@ void element_dlog_brute_force(element_t x, element_t g, element_t h) {
   element_clear(g0);
 }
 
-// x in Z_r, g, h in some group of order r
-// finds x such that g^x = h
-void element_dlog_pollard_rho(element_t x, element_t g, element_t h) {
+// One random walk. Returns nonzero if it found x such that g^x = h.
+static int pollard_rho_walk(element_t x, element_t g, element_t h) {
 // see Blake, Seroussi and Smart
 // only one snark for this implementation
   int i, s = 20;
@@ -68,7 +67,7 @@ void element_dlog_pollard_rho(element_t x, element_t g, element_t h) {
   darray_t hole;
   int interval = 5;
   mpz_t counter;
-  int found = 0;
+  int done = 0, found = 0;
 
   mpz_init(counter);
   element_init(g0, G);
@@ -117,6 +116,11 @@ void element_dlog_pollard_rho(element_t x, element_t g, element_t h) {
         element_sub(bsum, bsum, ss->b);
         element_sub(asum, ss->a, asum);
         //answer is x such that x * bsum = asum
+        //a collision with bsum = 0 tells nothing
+        if (element_is0(bsum)) {
+          done = 1;
+          break;
+        }
         //complications arise if gcd(bsum, r) > 1
         //which can happen if r is not prime
         if (!mpz_probab_prime_p(Zr->order, 10)) {
@@ -133,7 +137,7 @@ void element_dlog_pollard_rho(element_t x, element_t g, element_t h) {
           mpz_divexact(zm, Zr->order, zd);
           mpz_divexact(zb, zb, zd);
           //if zd does not divide za there is no solution
-          mpz_divexact(za, za, zd);
+          mpz_tdiv_q(za, za, zd);
           mpz_invert(zb, zb, zm);
           mpz_mul(zb, za, zb);
           mpz_mod(zb, zb, zm);
@@ -153,11 +157,13 @@ void element_dlog_pollard_rho(element_t x, element_t g, element_t h) {
         } else {
           element_div(x, asum, bsum);
         }
-        found = 1;
+        element_pow_zn(g0, g, x);
+        found = !element_cmp(g0, h);
+        done = 1;
         break;
       }
     }
-    if (found) break;
+    if (done) break;
 
     mpz_add_ui(counter, counter, 1);
     if (mpz_tstbit(counter, interval)) {
@@ -184,4 +190,12 @@ void element_dlog_pollard_rho(element_t x, element_t g, element_t h) {
   element_clear(asum);
   element_clear(bsum);
   mpz_clear(counter);
+  return found;
+}
+
+// x in Z_r, g, h in some group of order r
+// finds x such that g^x = h
+// will hang if no such x exists
+void element_dlog_pollard_rho(element_t x, element_t g, element_t h) {
+  while (!pollard_rho_walk(x, g, h));
 }
-- 
2.43.0


From 670e86b3adb25ca06b1621fd4974c5395ddfd345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:34 +0000
Subject: [PATCH 42/67] fix: roots of polynomials that are not monic

---
 arith/poly.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/arith/poly.c b/arith/poly.c
index 0362b92..dd09294 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -1660,7 +1660,11 @@ int poly_findroot(element_ptr root, element_ptr poly) {
   mpz_init(q);
   mpz_set(q, poly_base_field(poly)->order);
 
-  field_init_polymod(fpxmod, poly);
+  // Quotients need a monic polynomial.
+  element_init(fac, poly->field);
+  poly_make_monic(fac, poly);
+  field_init_polymod(fpxmod, fac);
+  element_clear(fac);
   element_init(p, fpxmod);
   element_init(x, fpxmod);
   element_init(g, poly->field);
-- 
2.43.0


From 70736a2b088e2204d73da89af5bbb0c735c137e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:30 +0000
Subject: [PATCH 43/67] fix: drawing a non-residue again releases the previous
 one

---
 arith/field.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arith/field.c b/arith/field.c
index f2b8998..339824d 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -372,8 +372,10 @@ void field_set_nqr(field_ptr f, element_t nqr) {
 }
 
 void field_gen_nqr(field_ptr f) {
-  f->nqr = pbc_malloc(sizeof(element_t));
-  element_init(f->nqr, f);
+  if (!f->nqr) {
+    f->nqr = pbc_malloc(sizeof(element_t));
+    element_init(f->nqr, f);
+  }
   do {
     element_random(f->nqr);
   } while (element_is_sqr(f->nqr));
-- 
2.43.0


From 57e9f375f4519f81189a3bda0d151d936bc2e243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:48:18 +0000
Subject: [PATCH 44/67] fix: type a and e generation never returns a group
 order one bit short

---
 ecc/a_param.c | 2 ++
 ecc/e_param.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ecc/a_param.c b/ecc/a_param.c
index 4ba8315..1963121 100644
--- a/ecc/a_param.c
+++ b/ecc/a_param.c
@@ -1552,6 +1552,8 @@ void pbc_param_init_a_gen(pbc_param_ptr par, int rbits, int qbits) {
       sp->sign0 = -1;
       mpz_sub_ui(r, r, 1);
     }
+    // 2^rbits - 2^(rbits - 1) - 1 is too short.
+    if (mpz_sizeinbase(r, 2) != (size_t) rbits) continue;
     if (!mpz_probab_prime_p(r, 10)) continue;
     for (i=0; i<10; i++) {
       int bit;
diff --git a/ecc/e_param.c b/ecc/e_param.c
index 8b42226..8a1e7c4 100644
--- a/ecc/e_param.c
+++ b/ecc/e_param.c
@@ -978,6 +978,8 @@ void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
       p->sign0 = -1;
       mpz_sub_ui(r, r, 1);
     }
+    // 2^rbits - 2^(rbits - 1) - 1 is too short.
+    if (mpz_sizeinbase(r, 2) != (size_t) rbits) continue;
     if (!mpz_probab_prime_p(r, 10)) continue;
     for (i=0; i<10; i++) {
       //use q as a temp variable
-- 
2.43.0


From d6780a58895490b22156b00085876aac53cbbe44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:12 +0000
Subject: [PATCH 45/67] fix: polynomial multiples and decoded polynomials drop
 leading zero coefficients

---
 arith/poly.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arith/poly.c b/arith/poly.c
index dd09294..0228c54 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -267,6 +267,7 @@ static void poly_double(element_ptr f, element_ptr g) {
   for (i=0; i<n; i++) {
     element_double(pf->coeff->item[i], pg->coeff->item[i]);
   }
+  poly_remove_leading_zeroes(f);
 }
 
 static void poly_mul_mpz(element_ptr f, element_ptr g, mpz_ptr z) {
@@ -279,6 +280,7 @@ static void poly_mul_mpz(element_ptr f, element_ptr g, mpz_ptr z) {
   for (i=0; i<n; i++) {
     element_mul_mpz(pf->coeff->item[i], pg->coeff->item[i], z);
   }
+  poly_remove_leading_zeroes(f);
 }
 
 static void poly_mul_si(element_ptr f, element_ptr g, signed long int z) {
@@ -291,6 +293,7 @@ static void poly_mul_si(element_ptr f, element_ptr g, signed long int z) {
   for (i=0; i<n; i++) {
     element_mul_si(pf->coeff->item[i], pg->coeff->item[i], z);
   }
+  poly_remove_leading_zeroes(f);
 }
 
 static void poly_mul(element_ptr r, element_ptr f, element_ptr g) {
@@ -583,6 +586,7 @@ static int poly_from_bytes(element_t p, const unsigned char *buf) {
   for (i=0; i<count; i++) {
     result += element_from_bytes(poly_coeff(p, i), &buf[result]);
   }
+  poly_remove_leading_zeroes(p);
   return result;
 }
 
-- 
2.43.0


From e36a372b5980b83e148eeec50d72602efe4b8124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:47 +0000
Subject: [PATCH 46/67] fix: generated cofactors of types a and e are never
 multiples of the group order

---
 ecc/a_param.c | 2 ++
 ecc/e_param.c | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ecc/a_param.c b/ecc/a_param.c
index 1963121..eb0d7f3 100644
--- a/ecc/a_param.c
+++ b/ecc/a_param.c
@@ -1564,6 +1564,8 @@ void pbc_param_init_a_gen(pbc_param_ptr par, int rbits, int qbits) {
       mpz_setbit(q, bit);
       pbc_mpz_random(h, q);
       mpz_mul_ui(h, h, 12);
+      // Multiplying by a cofactor that r divides gives the identity only.
+      if (mpz_divisible_p(h, r)) continue;
       //finally q takes the value it should
       mpz_mul(q, h, r);
       mpz_sub_ui(q, q, 1);
diff --git a/ecc/e_param.c b/ecc/e_param.c
index 8a1e7c4..4a178fb 100644
--- a/ecc/e_param.c
+++ b/ecc/e_param.c
@@ -988,6 +988,8 @@ void pbc_param_init_e_gen(pbc_param_t par, int rbits, int qbits) {
       pbc_mpz_random(h, q);
       mpz_mul(h, h, h);
       mpz_mul_ui(h, h, 3);
+      // Multiplying by a cofactor that r divides gives the identity only.
+      if (mpz_divisible_p(h, r)) continue;
       //finally q takes the value it should
       mpz_mul(n, r, r);
       mpz_mul(n, n, h);
-- 
2.43.0


From fece1791c4d957a02ae18d43d24af88a5218fb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:30:21 +0000
Subject: [PATCH 47/67] fix: the generator of a curve subgroup is never the
 identity

---
 ecc/curve.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/ecc/curve.c b/ecc/curve.c
index f405995..53f924e 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -445,6 +445,22 @@ static void curve_random_pointmul(element_ptr a) {
   mpz_clear(x);
 }
 
+// Picks the generators. A random point may vanish when multiplied by the
+// cofactor, and then every element of the subgroup drawn from it would be O.
+// Gives up after a while in case the parameters allow nothing else.
+static void curve_pick_generators(curve_data_ptr cdp) {
+  int i;
+  for (i = 0; i < 64; i++) {
+    curve_random_no_cofac_solvefory(cdp->gen_no_cofac);
+    if (cdp->cofac) {
+      element_mul_mpz(cdp->gen, cdp->gen_no_cofac, cdp->cofac);
+    } else {
+      element_set(cdp->gen, cdp->gen_no_cofac);
+    }
+    if (!element_is0(cdp->gen)) break;
+  }
+}
+
 void field_curve_use_random_solvefory(field_ptr f) {
   f->random = curve_random_solvefory;
 }
@@ -767,16 +783,14 @@ void field_init_curve_ab(field_ptr f, element_ptr a, element_ptr b, mpz_t order,
 
   element_init(cdp->gen_no_cofac, f);
   element_init(cdp->gen, f);
-  curve_random_no_cofac_solvefory(cdp->gen_no_cofac);
   if (cofac) {
     cdp->cofac = pbc_malloc(sizeof(mpz_t));
     mpz_init(cdp->cofac);
     mpz_set(cdp->cofac, cofac);
-    element_mul_mpz(cdp->gen, cdp->gen_no_cofac, cofac);
   } else{
     cdp->cofac = NULL;
-    element_set(cdp->gen, cdp->gen_no_cofac);
   }
+  curve_pick_generators(cdp);
   cdp->quotient_cmp = NULL;
 }
 
@@ -946,12 +960,7 @@ void field_reinit_curve_twist(field_ptr c) {
   element_mul(cdp->b, cdp->b, nqr);
 
   // Recompute generators.
-  curve_random_no_cofac_solvefory(cdp->gen_no_cofac);
-  if (cdp->cofac) {
-    element_mul_mpz(cdp->gen, cdp->gen_no_cofac, cdp->cofac);
-  } else{
-    element_set(cdp->gen, cdp->gen_no_cofac);
-  }
+  curve_pick_generators(cdp);
 }
 
 // I could generalize this for all fields, but is there any point?
-- 
2.43.0


From 81243334cc91560266b3d49fe2cde18c7e917f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:10 +0000
Subject: [PATCH 48/67] fix: difference of a multinomial and an integer

---
 arith/multiz.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/arith/multiz.c b/arith/multiz.c
index abffea2..4725214 100644
--- a/arith/multiz.c
+++ b/arith/multiz.c
@@ -262,8 +262,13 @@ static void f_add(element_ptr n, element_ptr a, element_ptr b) {
   multiz_free(delme);
 }
 
+static multiz multiz_new_neg(multiz z);
+
 static multiz multiz_new_sub(const multiz a, const multiz b) {
-  return multiz_new_bin(a, b, mpz_sub);
+  multiz negb = multiz_new_neg(b);
+  multiz res = multiz_new_add(a, negb);
+  multiz_free(negb);
+  return res;
 }
 static void f_sub(element_ptr n, element_ptr a, element_ptr b) {
   multiz delme = n->data;
-- 
2.43.0


From d9245aafe851e4772fe721a00a92eb463ce565d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:10 +0000
Subject: [PATCH 49/67] fix: calculator reads long lines whole and a last line
 without newline

---
 pbc/pbc_getline.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pbc/pbc_getline.c b/pbc/pbc_getline.c
index dc44cc4..a464b61 100644
--- a/pbc/pbc_getline.c
+++ b/pbc/pbc_getline.c
@@ -1,17 +1,30 @@
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 
+#include "pbc_utils.h"
 #include "pbc_memory.h"
 
 char *pbc_getline(const char *prompt) {
   char s[1024];
   if (prompt) fputs(prompt, stdout);
   if (!fgets(s, 1024, stdin)) return NULL;
-  if (feof(stdin)) return NULL;
-  /* use strdup rather than pbc_strdup. because
+  /* use malloc rather than pbc_malloc. because
    * 1. readline version of this function uses malloc.
-   * 2. pbc_malloc called by pbc_strdup may differ from malloc.
+   * 2. pbc_malloc may differ from malloc.
    * here we keep consistency.
    */
-  return strdup(s);
+  size_t n = 0;
+  char *line = NULL;
+  /* lines may be of any length, and the last one may lack a newline */
+  do {
+    size_t k = strlen(s);
+    line = realloc(line, n + k + 1);
+    if (!line) pbc_die("realloc() error");
+    memcpy(line + n, s, k + 1);
+    n += k;
+  } while (n && line[n - 1] != '\n' && fgets(s, 1024, stdin));
+  /* no newline at the end, like readline */
+  if (n && line[n - 1] == '\n') line[n - 1] = '\0';
+  return line;
 }
-- 
2.43.0


From 0449870f43353561efd9aa41371596a19b9e07d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:10 +0000
Subject: [PATCH 50/67] fix: calculator comment at the end of a file without
 newline

---
 pbc/parser.lex | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pbc/parser.lex b/pbc/parser.lex
index 1d0b9f2..9c9d764 100644
--- a/pbc/parser.lex
+++ b/pbc/parser.lex
@@ -22,7 +22,7 @@ extern int option_easy;
 <COMMENT>\*\/           BEGIN(0);        // Close C-style comment.
 <COMMENT>.              // Within a C-style comment.
 <COMMENT>\n             // Within a C-style comment.
-#.*$                    // Comment.
+#.*                     // Comment.
 [ \t\r]*                // Whitespace.
 
 define                  return DEFINE;
-- 
2.43.0


From 96e699c333828d50a5791417aef029a0c5fc4ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:11:52 +0000
Subject: [PATCH 51/67] fix: calculator skips the whole of a malformed
 statement, and only that

---
 pbc/pbc.c | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index a9c1385..78a251b 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -21,6 +21,9 @@
 
 // forward declaration to avoid C99 warnings
 int yyparse(void);
+int yylex(void);
+// Lookahead token of the parser.
+extern int yychar;
 
 int option_easy = 0;
 const char *option_prompt;
@@ -865,11 +868,16 @@ static void builtin(fun_ptr fun) {
 
 int end_of_input;
 
-int yywrap_return1(void) { return 1; }
+// Set while the rest of a malformed statement is being skipped.
+static int skipping;
+
+int yywrap_return1(void) { end_of_input = 1; return 1; }
 
 int yywrap_readline(void) {
   static char *currentline;
   static YY_BUFFER_STATE st;
+  // Never read another line just to skip it.
+  if (skipping) return 1;
   yy_delete_buffer(st);
   free(currentline);
   currentline = pbc_getline(option_prompt);
@@ -891,6 +899,25 @@ int yywrap(void) {
   return yywrapfun();
 }
 
+// Skips the rest of a malformed statement: up to and including its terminator
+// or, when reading lines, to the end of the line.
+static void skip_stmt(void) {
+  int token = yychar;
+  skipping = 1;
+  while (token > 0 && token != TERMINATOR) token = yylex();
+  skipping = 0;
+  if (token <= 0 && !end_of_input) yywrap();
+}
+
+// Parses and evaluates everything up to the end of input.
+static void parse_all(void) {
+  while (!end_of_input) {
+    int status = yyparse();
+    if (2 == status) pbc_die("parser out of memory");
+    if (status) skip_stmt();
+  }
+}
+
 int main(int argc, char **argv) {
   for (;;) {
     int c = getopt(argc, argv, "y");
@@ -941,14 +968,12 @@ int main(int argc, char **argv) {
     YY_BUFFER_STATE st = yy_create_buffer(fp, YY_BUF_SIZE);
     yy_switch_to_buffer(st);
     yywrapfun = yywrap_return1;
-    yyparse();
+    parse_all();
     yy_delete_buffer(st);
   } else {
     yywrapfun = yywrap_readline;
     yywrap();
-    while (!end_of_input) {
-      if (2 == yyparse()) pbc_die("parser out of memory");
-    }
+    parse_all();
     putchar('\n');
   }
 
-- 
2.43.0


From d683d0e9230bbd452fede42c50bdd7e97c9e617f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:34 +0000
Subject: [PATCH 52/67] fix: calculator values that are missing, erroneous or
 no functions

---
 pbc/pbc.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index 78a251b..e3965ff 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -111,6 +111,12 @@ static val_ptr tree_eval(tree_ptr t) {
   return t->eval(t);
 }
 
+// Same, where a value is needed. Calls of some functions have none.
+static val_ptr tree_value(tree_ptr t) {
+  val_ptr v = tree_eval(t);
+  return v ? v : val_new_error("value expected");
+}
+
 static void v_elem_out(FILE* stream, val_ptr v) {
   element_out_str(stream, 0, v->elem);
 }
@@ -142,8 +148,9 @@ static val_ptr v_builtin(val_ptr v, tree_ptr t) {
   val_ptr* arg = pbc_malloc(n * sizeof(val_ptr));
   int i;
   for(i = 0; i < n; i++) {
-    arg[i] = tree_eval(darray_at(t->child, i));
+    arg[i] = tree_value(darray_at(t->child, i));
     if (fun->sig[i] && arg[i]->type != fun->sig[i]) {
+      pbc_free(arg);
       return val_new_error("%s: argument %d type mismatch", fun->name, i + 1);
     }
   }
@@ -217,6 +224,12 @@ static void v_err_out(FILE* stream, val_ptr v) {
   fprintf(stream, "%s", v->msg);
 }
 
+static val_ptr v_elem_call(val_ptr v, tree_ptr t) {
+  UNUSED_VAR(v);
+  UNUSED_VAR(t);
+  return val_new_error("element is not a function");
+}
+
 static val_ptr v_errcall(val_ptr v, tree_ptr t) {
   UNUSED_VAR(t);
   return v;
@@ -224,7 +237,7 @@ static val_ptr v_errcall(val_ptr v, tree_ptr t) {
 
 static struct val_type_s
   // TODO: Replace NULL with get_coeff.
-  v_elem[1]  = {{  "element",    v_elem_out, v_elem_eval, NULL }},
+  v_elem[1]  = {{  "element",    v_elem_out, v_elem_eval, v_elem_call }},
   v_field[1] = {{    "field",   v_field_out,      v_self, v_field_cast }},
   v_fun[1]   = {{  "builtin", v_builtin_out,      v_self, v_builtin }},
   v_def[1]   = {{ "function",  v_define_out,      v_self, v_def_call }},
@@ -366,13 +379,12 @@ static val_ptr eval_list(tree_ptr t) {
   int n = darray_count(t->child);
   int i;
   for(i = 0; i < n; i++) {
-    val_ptr x = tree_eval(darray_at(t->child, i));
-    // TODO: Also check x is a multiz.
+    val_ptr x = tree_value(darray_at(t->child, i));
     if (v_error == x->type) {
       return x;
     }
-    if (v_elem != x->type) {
-      return val_new_error("element expected in list");
+    if (v_elem != x->type || x->elem->field != M) {
+      return val_new_error("integer or list expected in list");
     }
     if (!i) e = multiz_new_list(x->elem);
     else multiz_append(e, x->elem);
@@ -381,7 +393,7 @@ static val_ptr eval_list(tree_ptr t) {
 }
 
 static val_ptr eval_ternary(tree_ptr t) {
-  val_ptr x = tree_eval(darray_at(t->child, 0));
+  val_ptr x = tree_value(darray_at(t->child, 0));
   if (v_error == x->type) {
     return x;
   }
@@ -404,7 +416,7 @@ static val_ptr eval_id(tree_ptr t) {
 }
 
 static val_ptr eval_funcall(tree_ptr t) {
-  val_ptr x = tree_eval(darray_last(t->child));
+  val_ptr x = tree_value(darray_last(t->child));
   return x->type->funcall(x, t);
 }
 
-- 
2.43.0


From a353a5ca0d210346d8265af197643f095221bcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:34 +0000
Subject: [PATCH 53/67] fix: calculator statements that fail leave variables
 alone

---
 pbc/pbc.c | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index e3965ff..904ee6d 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -102,6 +102,8 @@ struct val_s {
   };
 };
 
+static struct val_type_s v_error[1];
+
 static val_ptr val_new_element(element_ptr e);
 static val_ptr val_new_field(field_ptr e);
 static val_ptr val_new_error(const char *msg, ...);
@@ -159,10 +161,6 @@ static val_ptr v_builtin(val_ptr v, tree_ptr t) {
   return out;
 }
 
-static void eval_stmt(void *ptr) {
-  tree_eval(ptr);
-}
-
 static val_ptr v_def_call(val_ptr v, tree_ptr t) {
   int i;
   const char* name = ((tree_ptr) darray_at(v->def->child, 0))->id;
@@ -171,15 +169,29 @@ static val_ptr v_def_call(val_ptr v, tree_ptr t) {
   if (1 + n != darray_count(t->child)) {
     return val_new_error("%s: wrong number of arguments", name);
   }
+  // Change no variable unless all arguments are good.
+  val_ptr *arg = pbc_malloc(n * sizeof(val_ptr));
+  for(i = 0; i < n; i++) {
+    arg[i] = tree_value(darray_at(t->child, i));
+    if (v_error == arg[i]->type) {
+      val_ptr err = arg[i];
+      pbc_free(arg);
+      return err;
+    }
+  }
   for(i = 0; i < n; i++) {
     const char *id = ((tree_ptr) darray_at(parm, i))->id;
-    val_ptr v1 = tree_eval(darray_at(t->child, i));
     // TODO: Stack frames for recursion.
-    symtab_put(tab, v1, id);
+    symtab_put(tab, arg[i], id);
   }
+  pbc_free(arg);
   // Evaluate function body.
   darray_ptr a = ((tree_ptr) darray_at(v->def->child, 2))->child;
-  darray_forall(a, eval_stmt);
+  n = darray_count(a);
+  for(i = 0; i < n; i++) {
+    val_ptr res = tree_eval(darray_at(a, i));
+    if (res && v_error == res->type) return res;
+  }
   return NULL;
 }
 
@@ -432,12 +444,16 @@ static fun_t fun_neg = {{ "neg", run_neg, 1, sig_elem }};
 
 static val_ptr eval_assign(tree_ptr t) {
   tree_ptr tid = darray_at(t->child, 0);
-  val_ptr v = tree_eval(darray_at(t->child, 1));
+  val_ptr v = tree_value(darray_at(t->child, 1));
+  if (v_error == v->type) {
+    return v;
+  }
   if (symtab_at(reserved, tid->id)) {
     return val_new_error("%s is reserved", tid->id);
   }
   symtab_put(tab, v, tid->id);
-  return v;
+  // The result may be modified, the variable must not.
+  return v->type->eval(v);
 }
 
 static void assign_field(field_ptr f, const char* s) {
@@ -478,10 +494,14 @@ tree_ptr tree_new_empty_parms() {
 }
 
 static val_ptr eval_define(tree_ptr t) {
+  const char *id = ((tree_ptr) darray_at(t->child, 0))->id;
+  if (symtab_at(reserved, id)) {
+    return val_new_error("%s is reserved", id);
+  }
   val_ptr v = pbc_malloc(sizeof(*v));
   v->type = v_def;
   v->def = t;
-  symtab_put(tab, v, ((tree_ptr) darray_at(t->child, 0))->id);
+  symtab_put(tab, v, id);
   return v;
 }
 
-- 
2.43.0


From 2e2270664994cc67b4abf88cbaca21dc72f717cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:34 +0000
Subject: [PATCH 54/67] fix: calculator checks the argument of a field

---
 pbc/pbc.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index 904ee6d..2aebafe 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -102,7 +102,7 @@ struct val_s {
   };
 };
 
-static struct val_type_s v_error[1];
+static struct val_type_s v_elem[1], v_error[1];
 
 static val_ptr val_new_element(element_ptr e);
 static val_ptr val_new_field(field_ptr e);
@@ -196,8 +196,14 @@ static val_ptr v_def_call(val_ptr v, tree_ptr t) {
 }
 
 static val_ptr v_field_cast(val_ptr v, tree_ptr t) {
-  // TODO: Check args, x is an element.
-  val_ptr x = tree_eval(darray_at(t->child, 0));
+  if (2 != darray_count(t->child)) {
+    return val_new_error("field: wrong number of arguments");
+  }
+  val_ptr x = tree_value(darray_at(t->child, 0));
+  if (v_error == x->type) return x;
+  if (v_elem != x->type) {
+    return val_new_error("field: argument 1 type mismatch");
+  }
   element_ptr e = x->elem;
   if (e->field == M) {
     if (v->field == M) return x;
-- 
2.43.0


From 4d53d22443fabb04323c22fb3725847104e971f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:54 +0000
Subject: [PATCH 55/67] fix: operations that a field lacks are null pointers

---
 arith/field.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arith/field.c b/arith/field.c
index 339824d..366ce13 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -577,7 +577,8 @@ void field_out_info(FILE* out, field_ptr f) {
 
 void field_init(field_ptr f) {
   // should be called by each field_init_*
-  f->nqr = NULL;
+  // operations a field lacks are null pointers
+  memset(f, 0, sizeof(*f));
   mpz_init(f->order);
 
   // this should later be set
-- 
2.43.0


From d86a5a38ec15ca0825ec26c28a1923b63d4a677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:54 +0000
Subject: [PATCH 56/67] fix: calculator arithmetic with unsuitable operands

---
 pbc/pbc.c | 54 ++++++++++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 50 insertions(+), 4 deletions(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index 2aebafe..fee5d91 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -306,15 +306,54 @@ static val_ptr val_new_fun(fun_ptr fun) {
 static val_ptr fun_bin(
     void (*binop)(element_ptr, element_ptr, element_ptr),
     val_ptr v[]) {
+  if (v[0]->elem->field != v[1]->elem->field) {
+    return val_new_error("elements of different fields");
+  }
   binop(v[0]->elem, v[0]->elem, v[1]->elem);
   return v[0];
 }
 
+// Whether e is zero, and not the identity of a group.
+static int no_inverse(element_ptr e) {
+  if (e->field == M) {
+    // Only the constant coefficient of a divisor counts.
+    mpz_t z;
+    mpz_init(z);
+    element_to_mpz(z, e);
+    int res = !mpz_sgn(z);
+    mpz_clear(z);
+    return res;
+  }
+  return element_is0(e) && !element_is1(e);
+}
+
 static val_ptr run_add(val_ptr v[]) { return fun_bin(element_add, v); }
 static val_ptr run_sub(val_ptr v[]) { return fun_bin(element_sub, v); }
 static val_ptr run_mul(val_ptr v[]) { return fun_bin(element_mul, v); }
-static val_ptr run_div(val_ptr v[]) { return fun_bin(element_div, v); }
-static val_ptr run_pow(val_ptr v[]) { return fun_bin(element_pow_zn, v); }
+static val_ptr run_div(val_ptr v[]) {
+  field_ptr f = v[1]->elem->field;
+  if (!f->invert && f != M) return val_new_error("div: not supported");
+  if (no_inverse(v[1]->elem)) return val_new_error("division by zero");
+  return fun_bin(element_div, v);
+}
+static val_ptr run_pow(val_ptr v[]) {
+  element_ptr e = v[0]->elem;
+  mpz_t z;
+  mpz_init(z);
+  element_to_mpz(z, v[1]->elem);
+  if (mpz_sgn(z) < 0) {
+    // Power of the inverse.
+    if (!e->field->invert || no_inverse(e)) {
+      mpz_clear(z);
+      return val_new_error("pow: not invertible");
+    }
+    element_invert(e, e);
+    mpz_neg(z, z);
+  }
+  element_pow_mpz(e, e, z);
+  mpz_clear(z);
+  return v[0];
+}
 
 static fun_t fun_add = {{ "add", run_add, 2, sig_elem_elem }};
 static fun_t fun_sub = {{ "sub", run_sub, 2, sig_elem_elem }};
@@ -323,6 +362,9 @@ static fun_t fun_div = {{ "div", run_div, 2, sig_elem_elem }};
 static fun_t fun_pow = {{ "pow", run_pow, 2, sig_elem_elem }};
 
 static val_ptr fun_cmp(val_ptr v[], int (*fun)(int)) {
+  if (v[0]->elem->field != v[1]->elem->field) {
+    return val_new_error("elements of different fields");
+  }
   int i = element_cmp(v[0]->elem, v[1]->elem);
   element_ptr e = pbc_malloc(sizeof(*e));
   element_init(e, M);
@@ -443,6 +485,7 @@ static val_ptr eval_fun(tree_ptr t) {
 }
 
 static val_ptr run_neg(val_ptr v[]) {
+  if (!v[0]->elem->field->neg) return val_new_error("neg: not supported");
   element_neg(v[0]->elem, v[0]->elem);
   return v[0];
 }
@@ -683,14 +726,17 @@ static fun_t fun_rnd = {{ "rnd", run_random, 1, sig_field }};
 static fun_t fun_random = {{ "random", run_random, 1, sig_field }};
 
 static val_ptr run_sqrt(val_ptr v[]) {
-  // TODO: Check v[0] is square.
+  field_ptr f = v[0]->elem->field;
+  if (!f->sqrt || !f->is_sqr) return val_new_error("sqrt: not supported");
+  if (!element_is_sqr(v[0]->elem)) return val_new_error("sqrt: not a square");
   element_sqrt(v[0]->elem, v[0]->elem);
   return v[0];
 }
 static fun_t fun_sqrt = {{ "sqrt", run_sqrt, 1, sig_elem }};
 
 static val_ptr run_invert(val_ptr v[]) {
-  // TODO: Check v[0] is invertible.
+  if (!v[0]->elem->field->invert) return val_new_error("inv: not supported");
+  if (no_inverse(v[0]->elem)) return val_new_error("inv: not invertible");
   element_invert(v[0]->elem, v[0]->elem);
   return v[0];
 }
-- 
2.43.0


From b3488a7fc5f15de9b906fb15842bfddbd15c0481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:54 +0000
Subject: [PATCH 57/67] fix: calculator checks the index of an item

---
 pbc/pbc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index fee5d91..ec1b3d3 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -661,6 +661,11 @@ static val_ptr run_item(val_ptr v[]) {
   mpz_t z;
   mpz_init(z);
   element_to_mpz(z, v[1]->elem);
+  int n = element_item_count(v[0]->elem);
+  if (mpz_sgn(z) < 0 || mpz_cmp_si(z, n) >= 0) {
+    mpz_clear(z);
+    return val_new_error("item: no such item");
+  }
   int i = (int)mpz_get_si(z);
   mpz_clear(z);
   element_ptr a = element_item(v[0]->elem, i);
-- 
2.43.0


From 47433911ec5dea9b411dad6b1e7473b8c47d39d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:54 +0000
Subject: [PATCH 58/67] fix: calculator checks the arguments of a pairing

---
 pbc/pbc.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index ec1b3d3..37bfae2 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -755,7 +755,11 @@ static fun_t fun_type = {{ "type", run_type, 1, sig_any }};
 
 static val_ptr run_pairing(val_ptr v[]) {
   element_ptr x = v[0]->elem;
-  element_ptr e = element_new(x->field->pairing->GT);
+  pairing_ptr p = x->field->pairing;
+  if (!p || x->field != p->G1 || v[1]->elem->field != p->G2) {
+    return val_new_error("pairing: elements of G1 and G2 expected");
+  }
+  element_ptr e = element_new(p->GT);
   element_pairing(e, x, v[1]->elem);
   return val_new_element(e);
 }
-- 
2.43.0


From 03fe5d01cf6942e0075baf3fbf9f5e9a2ce048c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:54 +0000
Subject: [PATCH 59/67] fix: calculator checks the arguments that make a field

---
 pbc/pbc.c | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index 37bfae2..9ea725c 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -39,6 +39,8 @@ static symtab_t tab;
 
 static field_t M;
 static field_t Z;
+// Polynomials over Z. Tells which fields are polynomial rings.
+static field_t ZX;
 static pairing_t pairing;
 
 struct val_s;
@@ -770,6 +772,10 @@ static val_ptr run_zmod(val_ptr v[]) {
   mpz_t z;
   mpz_init(z);
   element_to_mpz(z, e);
+  if (mpz_cmp_ui(z, 2) < 0) {
+    mpz_clear(z);
+    return val_new_error("zmod: modulus too small");
+  }
   field_ptr f = pbc_malloc(sizeof(*f));
   field_init_fp(f, z);
   mpz_clear(z);
@@ -785,7 +791,13 @@ static val_ptr run_poly(val_ptr v[]) {
 static fun_t fun_poly = {{ "poly", run_poly, 1, sig_field }};
 
 static val_ptr run_polymod(val_ptr v[]) {
-  // TODO: Check v[0] is a poly.
+  element_ptr e = v[0]->elem;
+  if (e->field->init != ZX->init) {
+    return val_new_error("polymod: polynomial expected");
+  }
+  if (poly_degree(e) < 1 || !element_is1(element_item(e, poly_degree(e)))) {
+    return val_new_error("polymod: monic polynomial expected");
+  }
   field_ptr f = pbc_malloc(sizeof(*f));
   field_init_polymod(f, v[0]->elem);
   return val_new_field(f);
@@ -793,17 +805,17 @@ static val_ptr run_polymod(val_ptr v[]) {
 static fun_t fun_polymod = {{ "polymod", run_polymod, 1, sig_elem }};
 
 static val_ptr run_extend(val_ptr v[]) {
-  // TODO: Check v[1] is multiz poly.
+  if (v[1]->elem->field != M) {
+    return val_new_error("extend: list expected");
+  }
   field_ptr fx = pbc_malloc(sizeof(*fx));
   field_init_poly(fx, v[0]->field);
   element_ptr poly = element_new(fx);
   element_set_multiz(poly, v[1]->elem->data);
-  field_ptr f = pbc_malloc(sizeof(*f));
-  field_init_polymod(f, poly);
-  element_free(poly);
-  return val_new_field(f);
+  val_ptr arg = val_new_element(poly);
+  return run_polymod(&arg);
 }
-static fun_t fun_extend = {{ "extend", run_extend, 1, sig_field_elem }};
+static fun_t fun_extend = {{ "extend", run_extend, 2, sig_field_elem }};
 
 static void init_pairing(const char *s) {
   pairing_init_set_str(pairing, s);
@@ -1027,6 +1039,7 @@ int main(int argc, char **argv) {
   }
 
   field_init_z(Z);
+  field_init_poly(ZX, Z);
   field_init_multiz(M);
   symtab_init(tab);
 
-- 
2.43.0


From 587097811af604c7efbabe0e84dc4764ccc7360b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:54 +0000
Subject: [PATCH 60/67] fix: calculator variables survive another pairing

---
 pbc/pbc.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index 9ea725c..14733e3 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -41,7 +41,6 @@ static field_t M;
 static field_t Z;
 // Polynomials over Z. Tells which fields are polynomial rings.
 static field_t ZX;
-static pairing_t pairing;
 
 struct val_s;
 typedef struct val_s *val_ptr;
@@ -818,6 +817,8 @@ static val_ptr run_extend(val_ptr v[]) {
 static fun_t fun_extend = {{ "extend", run_extend, 2, sig_field_elem }};
 
 static void init_pairing(const char *s) {
+  // Variables may still belong to the groups of an earlier pairing.
+  pairing_ptr pairing = pbc_malloc(sizeof(*pairing));
   pairing_init_set_str(pairing, s);
   assign_field(pairing->G1, "G1");
   assign_field(pairing->G2, "G2");
-- 
2.43.0


From f3d8671e06dfdfd6e065143d752ef0a01dc5bf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:54 +0000
Subject: [PATCH 61/67] fix: calculator stops endless recursion

---
 pbc/pbc.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pbc/pbc.c b/pbc/pbc.c
index 14733e3..211db7a 100644
--- a/pbc/pbc.c
+++ b/pbc/pbc.c
@@ -186,14 +186,21 @@ static val_ptr v_def_call(val_ptr v, tree_ptr t) {
     symtab_put(tab, arg[i], id);
   }
   pbc_free(arg);
+  // TODO: Calls nested this deep are endless recursion.
+  static int depth;
+  if (depth >= 1000) return val_new_error("%s: recursion too deep", name);
+  depth++;
   // Evaluate function body.
   darray_ptr a = ((tree_ptr) darray_at(v->def->child, 2))->child;
   n = darray_count(a);
+  val_ptr res = NULL;
   for(i = 0; i < n; i++) {
-    val_ptr res = tree_eval(darray_at(a, i));
-    if (res && v_error == res->type) return res;
+    res = tree_eval(darray_at(a, i));
+    if (res && v_error == res->type) break;
+    res = NULL;
   }
-  return NULL;
+  depth--;
+  return res;
 }
 
 static val_ptr v_field_cast(val_ptr v, tree_ptr t) {
-- 
2.43.0


From dc7e44f360e26f31015b2b3125ef9c99f87f691d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:05 +0000
Subject: [PATCH 62/67] fix: inverses in the target group of type i pairings

---
 arith/ternary_extension_field.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/arith/ternary_extension_field.c b/arith/ternary_extension_field.c
index 37b05f7..80f8c8d 100644
--- a/arith/ternary_extension_field.c
+++ b/arith/ternary_extension_field.c
@@ -668,6 +668,26 @@ static void gf32m_cubic(element_t e, element_t a) {
     element_clear(c1);
 }
 
+/* $e <- a^{-1}$, where $a^{-1} == (a_0 - a_1 x) / (a_0^2 + a_1^2)$ */
+static void gf32m_invert(element_t e, element_t a) {
+    element_ptr a0 = GF32M(a)->_0, a1 = GF32M(a)->_1, e0 = GF32M(e)->_0, e1 =
+            GF32M(e)->_1;
+    field_ptr base = BASE(a);
+    element_t t0, t1;
+    element_init(t0, base);
+    element_init(t1, base);
+    element_mul(t0, a0, a0);
+    element_mul(t1, a1, a1);
+    element_add(t0, t0, t1);
+    element_invert(t0, t0);
+    element_mul(e0, a0, t0);
+    element_mul(t1, a1, t0);
+    element_set0(t0);
+    element_sub(e1, t0, t1);
+    element_clear(t0);
+    element_clear(t1);
+}
+
 void field_clear_gf32m(field_t f) {
     UNUSED_VAR(f);
 }
@@ -689,6 +709,7 @@ void field_init_gf32m(field_t f, field_t b) {
     f->neg = gf32m_neg;
     f->mul = gf32m_mult;
     f->cubic = gf32m_cubic;
+    f->invert = gf32m_invert;
     f->item_count = gf32m_item_count;
     f->item = gf32m_item;
     f->out_str = gf32m_out_str;
-- 
2.43.0


From 49fde4e0a8bc88de5769992c347ca330ecb1de53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:31 +0000
Subject: [PATCH 63/67] fix: coordinates off the curve leave the identity

---
 ecc/curve.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecc/curve.c b/ecc/curve.c
index 53f924e..ff15f64 100644
--- a/ecc/curve.c
+++ b/ecc/curve.c
@@ -573,6 +573,10 @@ static void curve_set_multiz(element_ptr a, multiz m) {
     p->inf_flag = 0;
     element_set_multiz(p->x, multiz_at(m, 0));
     element_set_multiz(p->y, multiz_at(m, 1));
+    if (!curve_is_valid_point(a)) {
+      pbc_warn("not a point of the curve");
+      element_set0(a);
+    }
   }
 }
 
-- 
2.43.0


From 7cf12abfe7f399816fcde53267e5435bb10e9ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:13 +0000
Subject: [PATCH 64/67] fix: carries in Montgomery multiplication when the
 modulus fills its limbs

---
 arith/montfp.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/arith/montfp.c b/arith/montfp.c
index 702365a..41f64b2 100644
--- a/arith/montfp.c
+++ b/arith/montfp.c
@@ -344,9 +344,13 @@ static inline void mont_mul(mp_limb_t *c, mp_limb_t *a, mp_limb_t *b,
   z[t + 1] = z[t] < v;  // Handle overflow.
   for (i = 1; i < t; i++) {
     u = (z[i] + a[i] * b[0]) * p->negpinv;
-    v = z[t + i] += mpn_addmul_1(z + i, b, t, a[i]);
-    z[t + i] += mpn_addmul_1(z + i, p->primelimbs, t, u);
+    // Either addition may overflow.
+    v = mpn_addmul_1(z + i, b, t, a[i]);
+    z[t + i] += v;
     z[t + i + 1] = z[t + i] < v;
+    v = mpn_addmul_1(z + i, p->primelimbs, t, u);
+    z[t + i] += v;
+    z[t + i + 1] += z[t + i] < v;
   }
   if (z[t * 2] || mpn_cmp(z + t, p->primelimbs, t) >= 0) {
     mpn_sub_n(c, z + t, p->primelimbs, t);
-- 
2.43.0


From 70222832437a0403cd2ff35cb8226e1ea9c98020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:41 +0000
Subject: [PATCH 65/67] fix: type A1 pairings of points of smaller order

With a composite order the multiples of such a point may reach the
identity or the point again within Miller's loop, which made the pairing
zero.
---
 ecc/a_param.c | 116 +++++++++++++++++++++++++++++---------------------
 1 file changed, 68 insertions(+), 48 deletions(-)

diff --git a/ecc/a_param.c b/ecc/a_param.c
index eb0d7f3..b22f7e6 100644
--- a/ecc/a_param.c
+++ b/ecc/a_param.c
@@ -1663,10 +1663,31 @@ static void a1_pairing_pp_clear(pairing_pp_t p) {
   pbc_free(p->data);
 }
 
+// The order may be composite, so the multiples of a point of smaller order
+// may reach O or the point itself again within Miller's loop.
+static void a1_tangent(element_ptr a, element_ptr b, element_ptr c,
+    element_ptr V, element_ptr e0) {
+  if (element_is0(V)) {
+    element_set0(a);
+    element_set0(b);
+    element_set1(c);
+    return;
+  }
+  compute_abc_tangent(a, b, c, curve_x_coord(V), curve_y_coord(V), e0);
+}
+
+static void a1_line(element_ptr a, element_ptr b, element_ptr c,
+    element_ptr V, element_ptr P, element_ptr e0) {
+  if (element_is0(V) || !element_cmp(V, P)) {
+    a1_tangent(a, b, c, V, e0);
+    return;
+  }
+  compute_abc_line(a, b, c, curve_x_coord(V), curve_y_coord(V),
+      curve_x_coord(P), curve_y_coord(P), e0);
+}
+
 static void a1_pairing_pp_init(pairing_pp_t p, element_ptr in1, pairing_t pairing) {
   mp_bitcnt_t m;
-  element_ptr Px = curve_x_coord(in1);
-  element_ptr Py = curve_y_coord(in1);
   a1_pairing_data_ptr a1info = pairing->data;
   p->data = pbc_malloc(sizeof(void *) * mpz_sizeinbase(pairing->r, 2));
   void **pp = p->data;
@@ -1674,16 +1695,13 @@ static void a1_pairing_pp_init(pairing_pp_t p, element_ptr in1, pairing_t pairin
   element_t a, b, c;
   element_t a2, b2, c2;
   element_t e0, e1, e2;
-  element_ptr Vx, Vy;
 
-  #define do_tangent() compute_abc_tangent(a, b, c, Vx, Vy, e0);
+  #define do_tangent() a1_tangent(a, b, c, V, e0);
 
-  #define do_line()    compute_abc_line(a2, b2, c2, Vx, Vy, Px, Py, e0);
+  #define do_line()    a1_line(a2, b2, c2, V, in1, e0);
 
   element_init(V, a1info->Ep);
   element_set(V, in1);
-  Vx = curve_x_coord(V);
-  Vy = curve_y_coord(V);
 
   element_init(a, a1info->Fp);
   element_init(b, a1info->Fp);
@@ -1897,7 +1915,6 @@ static void a1_pairing_proj(element_ptr out, element_ptr in1, element_ptr in2,
     element_set1(z);         \
     element_set1(z2);
 
-  //TODO: do I need to check if V=-in1?
   //Where V=(Vx,Vy,z) and in1=(Px,Py,1), a mixed coordinates.
   #define proj_add() {                                            \
     /* H=X2*Z1^2-X1 */                                            \
@@ -1971,6 +1988,13 @@ static void a1_pairing_proj(element_ptr out, element_ptr in1, element_ptr in2,
     element_sub(Vy, e0, e2);          \
   }
 
+  #define is_in1()                          \
+    (element_mul(e0, Px, z2),               \
+     !element_cmp(e0, Vx) &&                \
+     (element_mul(e0, z, z2),               \
+      element_mul(e0, e0, Py),              \
+      !element_cmp(e0, Vy)))
+
   #define do_tangent() {                                  \
     compute_abc_tangent_proj(a, b, c, Vx, Vy, z, z2, e0); \
     a_miller_evalfn(f0, a, b, c, Qx, Qy);                 \
@@ -2010,8 +2034,17 @@ static void a1_pairing_proj(element_ptr out, element_ptr in1, element_ptr in2,
     proj_double(); //V=2V
     if (mpz_tstbit(pairing->r, m)) {
      // point_to_affine();
-      do_line();
-      proj_add(); //V=V+in1
+      if (element_is0(z)) { //V=O
+        element_set(V, in1);
+        element_set1(z);
+        element_set1(z2);
+      } else if (is_in1()) {
+        do_tangent();
+        proj_double();
+      } else {
+        do_line();
+        proj_add(); //V=V+in1
+      }
     }
 
     m--;
@@ -2042,6 +2075,7 @@ static void a1_pairing_proj(element_ptr out, element_ptr in1, element_ptr in2,
   element_clear(e0);
   #undef point_to_affine
   #undef proj_add
+  #undef is_in1
   #undef proj_double
   #undef do_tangent
   #undef do_line
@@ -2056,29 +2090,23 @@ static void a1_pairing(element_ptr out, element_ptr in1, element_ptr in2,
   element_t a, b, c;
   element_t e0;
   mp_bitcnt_t m;
-  element_ptr Px = curve_x_coord(in1);
-  element_ptr Py = curve_y_coord(in1);
   element_ptr Qx = curve_x_coord(in2);
   element_ptr Qy = curve_y_coord(in2);
-  element_ptr Vx;
-  element_ptr Vy;
 
-  #define do_tangent() {                      \
-    compute_abc_tangent(a, b, c, Vx, Vy, e0); \
-    a_miller_evalfn(f0, a, b, c, Qx, Qy);     \
-    element_mul(f, f, f0);                    \
+  #define do_tangent() {                  \
+    a1_tangent(a, b, c, V, e0);           \
+    a_miller_evalfn(f0, a, b, c, Qx, Qy); \
+    element_mul(f, f, f0);                \
   }
 
-  #define do_line() {                              \
-    compute_abc_line(a, b, c, Vx, Vy, Px, Py, e0); \
-    a_miller_evalfn(f0, a, b, c, Qx, Qy);          \
-    element_mul(f, f, f0);                         \
+  #define do_line() {                     \
+    a1_line(a, b, c, V, in1, e0);         \
+    a_miller_evalfn(f0, a, b, c, Qx, Qy); \
+    element_mul(f, f, f0);                \
   }
 
   element_init(V, p->Ep);
   element_set(V, in1);
-  Vx = curve_x_coord(V);
-  Vy = curve_y_coord(V);
 
   element_init(f, p->Fp2);
   element_init(f0, p->Fp2);
@@ -2140,34 +2168,26 @@ void a1_pairings_affine(element_ptr out, element_t in1[], element_t in2[],
   element_t e0;
   mp_bitcnt_t m;
   int i;
-  element_ptr Px, Py;
   element_ptr Qx, Qy;
-  element_ptr Vx, Vy;
 
-  #define do_tangents() {                     \
-    for(i=0; i<n_prod; i++){                  \
-    Vx = curve_x_coord(V[i]);                 \
-    Vy = curve_y_coord(V[i]);                 \
-    Qx = curve_x_coord(in2[i]);               \
-    Qy = curve_y_coord(in2[i]);               \
-    compute_abc_tangent(a, b, c, Vx, Vy, e0); \
-    a_miller_evalfn(f0, a, b, c, Qx, Qy);     \
-    element_mul(f, f, f0);                    \
-    }                                         \
+  #define do_tangents() {                 \
+    for(i=0; i<n_prod; i++){              \
+    Qx = curve_x_coord(in2[i]);           \
+    Qy = curve_y_coord(in2[i]);           \
+    a1_tangent(a, b, c, V[i], e0);        \
+    a_miller_evalfn(f0, a, b, c, Qx, Qy); \
+    element_mul(f, f, f0);                \
+    }                                     \
   }
 
-  #define do_lines() {                             \
-    for(i=0; i<n_prod; i++){                       \
-    Vx = curve_x_coord(V[i]);                      \
-    Vy = curve_y_coord(V[i]);                      \
-    Px = curve_x_coord(in1[i]);                    \
-    Py = curve_y_coord(in1[i]);                    \
-    Qx = curve_x_coord(in2[i]);                    \
-    Qy = curve_y_coord(in2[i]);                    \
-    compute_abc_line(a, b, c, Vx, Vy, Px, Py, e0); \
-    a_miller_evalfn(f0, a, b, c, Qx, Qy);          \
-    element_mul(f, f, f0);                         \
-    }                                              \
+  #define do_lines() {                    \
+    for(i=0; i<n_prod; i++){              \
+    Qx = curve_x_coord(in2[i]);           \
+    Qy = curve_y_coord(in2[i]);           \
+    a1_line(a, b, c, V[i], in1[i], e0);   \
+    a_miller_evalfn(f0, a, b, c, Qx, Qy); \
+    element_mul(f, f, f0);                \
+    }                                     \
   }
 
   for(i=0; i<n_prod; i++){
-- 
2.43.0


From e2ecc640861c1139cf7795b8677082a41c54de3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:42 +0000
Subject: [PATCH 66/67] fix: square roots in F_2 terminate

element_tonelli() looked for a quadratic nonresidue forever.
---
 arith/field.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/arith/field.c b/arith/field.c
index 366ce13..02e5569 100644
--- a/arith/field.c
+++ b/arith/field.c
@@ -686,6 +686,12 @@ void element_tonelli(element_ptr x, element_ptr a) {
   element_t ginv, e0;
   element_ptr nqr;
 
+  // In F_2 every element is its own square root, and there is no nonresidue.
+  if (!mpz_cmp_ui(a->field->order, 2)) {
+    element_set(x, a);
+    return;
+  }
+
   mpz_init(t);
   mpz_init(e);
   mpz_init(t0);
-- 
2.43.0


From 0a880f5a5a6e5c32ea5a24e9f14992895fc334b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:42 +0000
Subject: [PATCH 67/67] fix: square roots in extensions of F_2

polymod_is_sqr() and polymod_sqrt() halve q - 1, which is odd there: squares
were refused, and the root finder did not end.
---
 arith/poly.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/arith/poly.c b/arith/poly.c
index 0228c54..3c62a59 100644
--- a/arith/poly.c
+++ b/arith/poly.c
@@ -623,8 +623,8 @@ static int polymod_is_sqr(element_ptr e) {
   mpz_t z;
   element_t e0;
 
-  // 0 is a square.
-  if (element_is0(e)) return 1;
+  // 0 is a square, and so is everything in characteristic 2.
+  if (element_is0(e) || mpz_even_p(e->field->order)) return 1;
   element_init(e0, e->field);
   mpz_init(z);
   mpz_sub_ui(z, e->field->order, 1);
@@ -647,6 +647,14 @@ static void polymod_sqrt(element_ptr res, element_ptr a) {
   element_t e0;
   mpz_t z;
 
+  if (mpz_even_p(a->field->order)) {
+    // In characteristic 2, a = (a^{q/2})^2.
+    mpz_init(z);
+    mpz_divexact_ui(z, a->field->order, 2);
+    element_pow_mpz(res, a, z);
+    mpz_clear(z);
+    return;
+  }
   field_init_poly(kx, a->field);
   mpz_init(z);
   element_init(f, kx);
-- 
2.43.0

