From 55e48c404422d26be0e277a54749c0f5bb771de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:12 +0000
Subject: [PATCH 01/22] fix: floor and ceil of zero in number fields of degree
 at least 3

The zero element is a polynomial of length 0, so its constant coefficient
must not be read: it may hold a value left over from an earlier use of the
element.
---
 libeantic/src/renf_elem/rounding_template.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libeantic/src/renf_elem/rounding_template.h b/libeantic/src/renf_elem/rounding_template.h
index 2ea68a4..8585a63 100644
--- a/libeantic/src/renf_elem/rounding_template.h
+++ b/libeantic/src/renf_elem/rounding_template.h
@@ -52,6 +52,8 @@ RENF_ELEM_INT(fmpz_t a, renf_elem_t b, renf_t nf)
             FMPZ_DIV(a, LNF_ELEM_NUMREF(b->elem), LNF_ELEM_DENREF(b->elem));
         else if (nf->nf->flag & NF_QUADRATIC)
             FMPZ_DIV(a, QNF_ELEM_NUMREF(b->elem), QNF_ELEM_DENREF(b->elem));
+        else if (NF_ELEM(b->elem)->length == 0)
+            fmpz_zero(a);
         else
             FMPZ_DIV(a, NF_ELEM_NUMREF(b->elem), NF_ELEM_DENREF(b->elem));
         return;
-- 
2.43.0


From 1031bd63b08d62b230dbc531807ade6500277b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:12 +0000
Subject: [PATCH 02/22] fix: renf_elem_fmpq_div computed b * c instead of b / c

The inverse that was just stored in a was discarded unless a and c were the
same element.
---
 libeantic/src/renf_elem/fmpq_div.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/src/renf_elem/fmpq_div.c b/libeantic/src/renf_elem/fmpq_div.c
index d2e8eb3..9b6449e 100644
--- a/libeantic/src/renf_elem/fmpq_div.c
+++ b/libeantic/src/renf_elem/fmpq_div.c
@@ -17,5 +17,5 @@ void renf_elem_fmpq_div(renf_elem_t a, const fmpq_t b, const renf_elem_t c, cons
 {
     renf_elem_set(a, c, nf);
     renf_elem_inv(a, a, nf);
-    renf_elem_mul_fmpq(a, c, b, nf);
+    renf_elem_mul_fmpq(a, a, b, nf);
 }
-- 
2.43.0


From 56b2f9074621ac66c27af08c35b88102a43d4ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:12 +0000
Subject: [PATCH 03/22] fix: generator of a number field of degree 1

The root of c1 * x + c0 is -c0 / c1, not -c1 / c0.
---
 libeantic/src/renf_elem/gen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libeantic/src/renf_elem/gen.c b/libeantic/src/renf_elem/gen.c
index b0891e4..f16f0fb 100644
--- a/libeantic/src/renf_elem/gen.c
+++ b/libeantic/src/renf_elem/gen.c
@@ -17,8 +17,8 @@ void renf_elem_gen(renf_elem_t a, const renf_t nf)
 {
     if (nf->nf->flag & NF_LINEAR)
     {
-        fmpz_set(LNF_ELEM_NUMREF(a->elem), nf->nf->pol->coeffs + 1);
-        fmpz_set(LNF_ELEM_DENREF(a->elem), nf->nf->pol->coeffs);
+        fmpz_set(LNF_ELEM_NUMREF(a->elem), nf->nf->pol->coeffs);
+        fmpz_set(LNF_ELEM_DENREF(a->elem), nf->nf->pol->coeffs + 1);
 
         fmpz_neg(LNF_ELEM_NUMREF(a->elem), LNF_ELEM_NUMREF(a->elem));
 
-- 
2.43.0


From 5cae7bd50637c03cb14e6ea630d94a16a1f7dab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:12 +0000
Subject: [PATCH 04/22] fix: fmpz_poly_set_str_pretty kept old coefficients

Coefficients of p that do not appear in the string kept their previous
value.
---
 libeantic/src/fmpz_poly_extra/set_str_pretty.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libeantic/src/fmpz_poly_extra/set_str_pretty.c b/libeantic/src/fmpz_poly_extra/set_str_pretty.c
index 5567284..c7cce9b 100644
--- a/libeantic/src/fmpz_poly_extra/set_str_pretty.c
+++ b/libeantic/src/fmpz_poly_extra/set_str_pretty.c
@@ -33,6 +33,7 @@ int fmpz_poly_set_str_pretty(fmpz_poly_t p, const char * s, const char * var)
         return -1;
     }
 
+    fmpz_poly_zero(p);
     for (long i = fmpq_poly_length(q) - 1; i >= 0; i--)
     {
         fmpz_poly_set_coeff_fmpz(p, i, fmpq_poly_numref(q) + i);
-- 
2.43.0


From f51676bdc83d6beffda488b30c1186d9617cc711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:26 +0000
Subject: [PATCH 05/22] fix: memory leaks in fmpq_poly_check_unique_real_root

---
 libeantic/src/fmpq_poly_extra/check_unique_real_root.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libeantic/src/fmpq_poly_extra/check_unique_real_root.c b/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
index 0eaadac..b5c50a0 100644
--- a/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
+++ b/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
@@ -86,7 +86,12 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
             }
         }
         else
+        {
+            arf_clear(l);
+            arf_clear(r);
+            arb_clear(b);
             return 0;
+        }
         arb_clear(b);
 
         /* 2 - expensive testing                                        */
@@ -96,6 +101,8 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
         fmpq_init(qr);
         arf_get_fmpq(ql, l);
         arf_get_fmpq(qr, r);
+        arf_clear(l);
+        arf_clear(r);
 
         fmpz_poly_init(pol2);
         fmpz_poly_fit_length(pol2, pol->length);
-- 
2.43.0


From 32c649f95b55e03d65d135ba048ce36c01dcbcc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:26 +0000
Subject: [PATCH 06/22] fix: reject polynomial strings with a zero denominator

fmpq_set_str accepts "1/0" and the resulting coefficient is not a rational
number.
---
 libeantic/src/fmpq_poly_extra/set_str_pretty.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libeantic/src/fmpq_poly_extra/set_str_pretty.c b/libeantic/src/fmpq_poly_extra/set_str_pretty.c
index 4c45892..eda5484 100644
--- a/libeantic/src/fmpq_poly_extra/set_str_pretty.c
+++ b/libeantic/src/fmpq_poly_extra/set_str_pretty.c
@@ -60,6 +60,8 @@ static int _monomial_set_str(fmpq_t coeff, slong * pow, const char * var, char *
 
         if (ans)
             return ans;
+        if (fmpz_is_zero(fmpq_denref(coeff)))
+            return -1;
         x = y;
     }
     else
-- 
2.43.0


From ebe61cb2a9ff05e2ad61ee579112dfe88b659b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:33 +0000
Subject: [PATCH 07/22] fix: release the copied string when an element cannot
 be parsed

---
 libeantic/srcxx/renf_elem_class.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libeantic/srcxx/renf_elem_class.cpp b/libeantic/srcxx/renf_elem_class.cpp
index 0aae188..dfdd0fa 100644
--- a/libeantic/srcxx/renf_elem_class.cpp
+++ b/libeantic/srcxx/renf_elem_class.cpp
@@ -427,6 +427,7 @@ renf_elem_class::renf_elem_class(const renf_class& k, const std::string & str)
     if (err)
     {
         fmpq_poly_clear(p);
+        flint_free(t);
         throw std::invalid_argument("renf_elem_class fmpq_poly_set_str_pretty");
     }
     renf_elem_init(a, nf->renf_t());
-- 
2.43.0


From 4461052d4c2a9305ee790f9d69f2516b16ea7b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:33 +0000
Subject: [PATCH 08/22] fix: release the element when coercion between fields
 throws

---
 libeantic/srcxx/renf_elem_class.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libeantic/srcxx/renf_elem_class.cpp b/libeantic/srcxx/renf_elem_class.cpp
index dfdd0fa..2b17235 100644
--- a/libeantic/srcxx/renf_elem_class.cpp
+++ b/libeantic/srcxx/renf_elem_class.cpp
@@ -446,7 +446,10 @@ renf_elem_class::renf_elem_class(const renf_class& k, const renf_elem_class & va
     else if (value.is_rational())
         renf_elem_set_mpq(a, static_cast<mpq_class>(value).get_mpq_t(), nf->renf_t());
     else
+    {
+        renf_elem_clear(a, nf->renf_t());
         throw std::logic_error("not implemented: coercion between these number fields");
+    }
 }
 
 renf_elem_class::renf_elem_class(const renf_class& k, const std::vector<int> & coefficients)
-- 
2.43.0


From 8b3e9bacdca6f25dc7955e263385a1944465fa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:33 +0000
Subject: [PATCH 09/22] fix: floordiv of irrational elements in different
 fields corrupted memory

---
 libeantic/srcxx/renf_elem_class.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libeantic/srcxx/renf_elem_class.cpp b/libeantic/srcxx/renf_elem_class.cpp
index 2b17235..1eec4ca 100644
--- a/libeantic/srcxx/renf_elem_class.cpp
+++ b/libeantic/srcxx/renf_elem_class.cpp
@@ -952,6 +952,7 @@ mpz_class renf_elem_class::floordiv(const renf_elem_class& rhs) const
             return (*this / rhs).floor();
         if (this->is_rational())
             return renf_elem_class(rhs.parent(), static_cast<mpq_class>(*this)).floordiv(rhs);
+        throw std::logic_error("not implemented: floordiv of non-rational elements in different number fields");
     }
 
     mpz_class ret;
-- 
2.43.0


From 3fa6309ed2c81914ccab429db9a7a1c5b6772dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:33 +0000
Subject: [PATCH 10/22] fix: signed overflow in pow() with the smallest
 exponent

---
 libeantic/srcxx/renf_elem_class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_elem_class.cpp b/libeantic/srcxx/renf_elem_class.cpp
index 1eec4ca..ed7f5b4 100644
--- a/libeantic/srcxx/renf_elem_class.cpp
+++ b/libeantic/srcxx/renf_elem_class.cpp
@@ -975,7 +975,7 @@ renf_elem_class renf_elem_class::pow(int exp) const
     if (exp < 0)
     {
         renf_elem_inv(res.renf_elem_t(), renf_elem_t(), nf->renf_t());
-        renf_elem_pow(res.renf_elem_t(), res.renf_elem_t(), static_cast<ulong>(-exp), nf->renf_t());
+        renf_elem_pow(res.renf_elem_t(), res.renf_elem_t(), static_cast<ulong>(-static_cast<slong>(exp)), nf->renf_t());
     }
     else
     {
-- 
2.43.0


From f8706dbdf5942ace67d6cd9701bb232fe0fd53bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:33 +0000
Subject: [PATCH 11/22] fix: release the polynomial when the embedding callback
 throws

---
 libeantic/srcxx/renf_class.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 0d4bf83..77b195f 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -134,8 +134,19 @@ boost::intrusive_ptr<const renf_class> renf_class::make(const std::string & minp
             throw std::invalid_argument("renf_class: can not read polynomial from string");
         }
 
+        std::string ball;
+        try
+        {
+            ball = emb(prec);
+        }
+        catch (...)
+        {
+            fmpq_poly_clear(p);
+            throw;
+        }
+
         arb_init(e);
-        if (arb_set_str(e, emb(prec).c_str(), prec))
+        if (arb_set_str(e, ball.c_str(), prec))
         {
             fmpq_poly_clear(p);
             arb_clear(e);
-- 
2.43.0


From f9808be12865f4291657848927f7f5965ff41f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:33 +0000
Subject: [PATCH 12/22] fix: race between releasing the last reference to a
 field and recreating it

---
 libeantic/srcxx/renf_class.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 77b195f..9a0902a 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -297,7 +297,19 @@ void intrusive_ptr_add_ref(const renf_class* nf) {
 
 // Stop tracking a pointer to the field `nf`.
 void intrusive_ptr_release(const renf_class* nf) {
-    if (nf->refcount.fetch_sub(1, std::memory_order_release) == 4)
+    // Unless this might be the last external reference, we only need to
+    // decrease the reference count.
+    auto count = nf->refcount.load(std::memory_order_relaxed);
+    while (count != 4)
+        if (nf->refcount.compare_exchange_weak(count, count - 1, std::memory_order_release, std::memory_order_relaxed))
+            return;
+
+    // The decision to destroy this field must be made while holding the lock
+    // on the registry. Otherwise, another thread could obtain a new reference
+    // from the registry before this field has been removed from it.
+    std::lock_guard<std::mutex> lock(fields_mutex);
+
+    if (nf->refcount.fetch_sub(1, std::memory_order_acq_rel) == 4)
     {
         // All references to this field have been released, i.e., all
         // intrusive_ptr<const renf_class*> are gone except for the ones
@@ -305,8 +317,6 @@ void intrusive_ptr_release(const renf_class* nf) {
         // We remove this field from the registry of fields and then free the
         // memory it is occupying.
 
-        std::lock_guard<std::mutex> lock(fields_mutex);
-
         assert(fields.find(nf) != fields.end());
         fields.erase(nf);
         delete(nf);
-- 
2.43.0


From 0c0ddb0d8f2f1ff9712a6a817709fcb08b112989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:38 +0000
Subject: [PATCH 13/22] fix: serialization confused fields that lived at the
 same address one after the other

---
 libeantic/e-antic/cereal.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libeantic/e-antic/cereal.hpp b/libeantic/e-antic/cereal.hpp
index 4fb9e75..15626fb 100644
--- a/libeantic/e-antic/cereal.hpp
+++ b/libeantic/e-antic/cereal.hpp
@@ -30,7 +30,9 @@ template <class Archive>
 void save(Archive & archive, const boost::intrusive_ptr<const renf_class> & self)
 {
 #if CEREAL_VERSION >= 10301
-    uint32_t id = archive.registerSharedPointer(std::shared_ptr<const renf_class>(self.get(), [](auto) {}));
+    // The deleter keeps the field alive until the archive is done. Otherwise,
+    // another field could show up at the same address and be mistaken for it.
+    uint32_t id = archive.registerSharedPointer(std::shared_ptr<const renf_class>(self.get(), [self](auto) {}));
 #else
     uint32_t id = archive.registerSharedPointer(self.get());
 #endif
-- 
2.43.0


From eb53cb8488143ce1304296545ec725184c75f58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:26 +0000
Subject: [PATCH 14/22] fix: bound on the positive roots of a polynomial was
 too small

The bound compared negative coefficients also with coefficients that are zero
or negative themselves. So, roots beyond the bound were lost by the root
isolation, e.g., one of the two real roots of x^4 - x^3 - x^2 - 2*x - 1.
---
 libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c b/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c
index 71168f8..69c8de4 100644
--- a/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c
+++ b/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c
@@ -50,6 +50,9 @@ slong _fmpz_poly_positive_root_upper_bound_2exp_local_max(const fmpz * pol, slon
         bmin = WORD_MAX;
         for (j = i + 1; j < len; j++)
         {
+            /* only terms of the same sign as the leading one can compensate */
+            if (fmpz_sgn(pol + j) != sgn) continue;
+
             /* compare the current bound with the log (in base 2) of */
             /* (- 2^coeffs[j] * p_i / p_j) ^ (1 / (j - i))           */
             /* which equals                                          */
-- 
2.43.0


From 98b9bf9d2c1f200463b2e32bb3b1b2cb678d5e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:50 +0000
Subject: [PATCH 15/22] fix: Sturm root count was wrong when a polynomial of
 the sequence vanishes at 0

E.g., 2*x^3 + 1 was reported to have a root between 0 and 1.
---
 libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c b/libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c
index 5645eaf..c4654b6 100644
--- a/libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c
+++ b/libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c
@@ -40,16 +40,14 @@ slong fmpz_poly_num_real_roots_0_1_sturm(fmpz_poly_t pol)
     fmpz_poly_evaluate_at_one(c, pol->coeffs, pol->length);
     s0b = fmpz_sgn(c);
 
-    t = 0;
+    /* a root at 0 */
+    t = (s0a == 0);
     while (!fmpz_poly_is_zero(p1))
     {
         /* sign change at 0 */
         s = fmpz_sgn(p1->coeffs);
         if (s0a == 0)
-        {
-            t++;
             s0a = s;
-        }
         else if (s != s0a)
         {
             t++;
-- 
2.43.0


From a0c4df40967b289725fe897d801a6c417fcc68d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:21 +0000
Subject: [PATCH 16/22] fix: skip white space in front of an element when
 reading it from a stream

Reading from "1 2" gave 1 and then 0, over and over, since the second read
stopped at the space.
---
 libeantic/srcxx/renf_class.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 9a0902a..3c4131f 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -260,6 +260,8 @@ std::istream & operator>>(std::istream & is, renf_elem_class & a)
 
     if (is.eof()) throw std::invalid_argument("empty stream");
 
+    is >> std::ws;
+
     bool paren = is.peek() == std::char_traits<char>::to_int_type('(');
     if (paren)
     {
-- 
2.43.0


From 2201958881f6f24912e845aca673876ea25af4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:21 +0000
Subject: [PATCH 17/22] fix: accept white space in front of the closing
 parenthesis when reading an element from a stream

The formatted extraction skipped the white space and took the closing
parenthesis as part of the text.
---
 libeantic/srcxx/renf_class.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 3c4131f..76af405 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -268,9 +268,8 @@ std::istream & operator>>(std::istream & is, renf_elem_class & a)
         // read until ")"
         is.get();
         while (!is.eof() && is.peek() != std::char_traits<char>::to_int_type(')') && is.peek() != EOF) {
-            char c;
-            is >> c;
-            s += c;
+            const int c = is.get();
+            if (!isspace(c)) s += static_cast<char>(c);
         }
         if (is.eof()) throw std::invalid_argument("invalid stream");
         is.get(); // remove ) from the stream
-- 
2.43.0


From 06c50342bb898eeb1854ed6b1c752bef142132f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:21 +0000
Subject: [PATCH 18/22] fix: do not put a stream into a failed state by reading
 an element at its end

Peeking once more after the end of the stream had been seen set the failbit
although the element had been read.
---
 libeantic/srcxx/renf_class.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 76af405..3388976 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -278,11 +278,9 @@ std::istream & operator>>(std::istream & is, renf_elem_class & a)
     {
         if (paren) is.get();
         // read until space or EOF
-        while (!is.eof() && !isspace(is.peek()) && is.peek() != EOF) {
-            char c;
-            is >> c;
-            s += c;
-        }
+        // (peeking again at EOF would put the stream into a failed state)
+        for (int c = is.peek(); c != EOF && !isspace(c); c = is.peek())
+            s += static_cast<char>(is.get());
     }
 
     a = renf_elem_class(*nf, s);
-- 
2.43.0


From ab8e4791a26834befbbd57dafbb75a5480d48a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:08 +0000
Subject: [PATCH 19/22] fix: bisection does not round the ends of the ball so
 it keeps the root

The endpoints of the ball and of its halves were rounded outwards to the
working precision, so the signs could be taken on the wrong side of another
root close to the ball and the refined embedding ended at the wrong root.
Also, when the sign at the midpoint could not be decided, the unchanged ball
was reported as a success and the refinement did not terminate.
---
 .../src/fmpz_poly_extra/bisection_step_arb.c  | 28 ++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/libeantic/src/fmpz_poly_extra/bisection_step_arb.c b/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
index 40fbf9a..493f276 100644
--- a/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
+++ b/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
@@ -66,7 +66,9 @@ int _fmpz_poly_bisection_step_arb(arb_t res, fmpz * pol, slong len, arb_t a, slo
 
     /* set l, r as the left and right endpoint of the ball */
     /* compute the signs of pol(l) and pol(r)              */
-    arb_get_interval_arf(l, r, a, prec);
+    /* Note that we must not round the endpoints since     */
+    /* there might be other roots just outside of the ball */
+    arb_get_interval_arf(l, r, a, ARF_PREC_EXACT);
 
     arb_set_arf(b, l);
     _fmpz_poly_evaluate_arb(c, pol, len, b, prec);
@@ -94,9 +96,27 @@ int _fmpz_poly_bisection_step_arb(arb_t res, fmpz * pol, slong len, arb_t a, slo
     }
     sr = arf_sgn(arb_midref(c));
 
-    _fmpz_poly_bisection_step_arf(l, r, pol, len, sl, sr, prec);
-    arb_set_interval_arf(rres, l, r, prec);
-    arb_intersection(res, rres, a, prec);
+    /* the sign of pol at the midpoint tells in which half of the ball the */
+    /* root is; both halves are balls that can be represented exactly      */
+    arb_set_arf(b, arb_midref(a));
+    _fmpz_poly_evaluate_arb(c, pol, len, b, prec);
+    if (sl == sr || arb_contains_zero(c))
+    {
+        arf_clear(l);
+        arf_clear(r);
+        arb_clear(b);
+        arb_clear(c);
+        arb_clear(rres);
+        return 0;
+    }
+
+    mag_mul_2exp_si(arb_radref(rres), arb_radref(a), -1);
+    arf_set_mag(r, arb_radref(rres));
+    if (arf_sgn(arb_midref(c)) == sl)
+        arf_add(arb_midref(rres), arb_midref(a), r, ARF_PREC_EXACT, ARF_RND_DOWN);
+    else
+        arf_sub(arb_midref(rres), arb_midref(a), r, ARF_PREC_EXACT, ARF_RND_DOWN);
+    arb_swap(res, rres);
 
     arb_clear(b);
     arb_clear(c);
-- 
2.43.0


From c4f7947fa53deeafd8dac1dd0d1e5d6e2bc6be9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:22 +0000
Subject: [PATCH 20/22] fix: centre of isolating interval is not rounded when
 creating embeddings

When the isolating interval of a root needs more than prec bits, the rounding
error of its centre was dropped and the ball did not contain the root anymore.
---
 libeantic/src/renf/set_embeddings_fmpz_poly.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/src/renf/set_embeddings_fmpz_poly.c b/libeantic/src/renf/set_embeddings_fmpz_poly.c
index 72d068e..110872b 100644
--- a/libeantic/src/renf/set_embeddings_fmpz_poly.c
+++ b/libeantic/src/renf/set_embeddings_fmpz_poly.c
@@ -51,7 +51,7 @@ slong renf_set_embeddings_fmpz_poly(renf * nf, fmpz_poly_t pol, slong lim, slong
     {
         arb_set_fmpz(a, c + i);
         arb_mul_2exp_si(a, a, 1);
-        arb_add_si(a, a, 1, prec);
+        arb_add_si(a, a, 1, ARF_PREC_EXACT);
         mag_one(arb_radref(a));
         arb_mul_2exp_si(a, a, k[i] - 1);
 
-- 
2.43.0


From 1bb7aec3997bb126b928b0fdf0a291b5a89609c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:22 +0000
Subject: [PATCH 21/22] fix: unique root test does not round the ends of the
 ball

With endpoints that were rounded outwards to the given precision, roots just
outside of the ball were accepted. The signs at the exact endpoints are decided
exactly when the given precision does not suffice.
---
 .../fmpq_poly_extra/check_unique_real_root.c  | 48 +++++++++++++++----
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/libeantic/src/fmpq_poly_extra/check_unique_real_root.c b/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
index b5c50a0..081c18f 100644
--- a/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
+++ b/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
@@ -26,6 +26,40 @@ arb_sgn2(arb_t a)
     return 0;
 }
 
+/* the sign of pol at x, 0 if x is not finite */
+static int
+_fmpz_poly_sgn_arf(const fmpz * pol, slong len, const arf_t x, slong prec)
+{
+    arb_t b, c;
+    int s;
+
+    if (!arf_is_finite(x)) return 0;
+
+    arb_init(b);
+    arb_init(c);
+    arb_set_arf(b, x);
+    _fmpz_poly_evaluate_arb(c, pol, len, b, prec);
+    s = arb_sgn2(c);
+    arb_clear(b);
+    arb_clear(c);
+
+    if (s == 0)
+    {
+        /* not decided with this precision, evaluate exactly */
+        fmpq_t q, y;
+
+        fmpq_init(q);
+        fmpq_init(y);
+        arf_get_fmpq(q, x);
+        _fmpz_poly_evaluate_fmpq(fmpq_numref(y), fmpq_denref(y), pol, len, fmpq_numref(q), fmpq_denref(q));
+        s = fmpq_sgn(y);
+        fmpq_clear(q);
+        fmpq_clear(y);
+    }
+
+    return s;
+}
+
 int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong prec)
 {
     if (pol->length < 2)
@@ -57,19 +91,15 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
         /*   - sign(left) * sign(right) = -1  */
         /*   - no zero of the derivative      */
         arb_init(b);
-        arb_init(c);
         arf_init(l);
         arf_init(r);
-        arb_get_interval_arf(l, r, a, prec);
-        arb_set_arf(b, l);
-        _fmpz_poly_evaluate_arb(c, pol->coeffs, pol->length, b, 2*prec);
-        lsign = arb_sgn2(c);
 
-        arb_set_arf(b, r);
-        _fmpz_poly_evaluate_arb(c, pol->coeffs, pol->length, b, 2*prec);
-        rsign = arb_sgn2(c);
+        /* Note that we must not round the endpoints since the root might */
+        /* be just outside of the ball.                                   */
+        arb_get_interval_arf(l, r, a, ARF_PREC_EXACT);
+        lsign = _fmpz_poly_sgn_arf(pol->coeffs, pol->length, l, 2*prec);
+        rsign = _fmpz_poly_sgn_arf(pol->coeffs, pol->length, r, 2*prec);
 
-        arb_clear(c);
         if (lsign * rsign == -1)
         {
             der = _fmpz_vec_init(pol->length - 1);
-- 
2.43.0


From de1f1a02e01ba7227a36896e83b1ce37155f2eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:42 +0000
Subject: [PATCH 22/22] fix: fields can be made again from their construction
 when roots are close

Printing the embedding and reading it again rounded it, so that the ball could
contain more than one root. E.g. the fields given by the roots of
x^21 - 2(1000x - 1)^2 close to 1/1000 could be written to an archive but not be
read again.
---
 libeantic/srcxx/renf_class.cpp | 42 +++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 3388976..9d4cab5 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -57,6 +57,13 @@ static std::unordered_set<const renf_class*, fields_hasher, fields_equality> fie
 // A mutex to lock any access to the global field registry.
 static std::mutex fields_mutex;
 
+// Return the precision needed to read a ball from a string without losing any
+// of the digits of the string.
+slong exact_prec(const std::string& ball, slong prec)
+{
+    return prec + 4 * static_cast<slong>(ball.size());
+}
+
 }
 
 static_assert(!std::is_default_constructible<renf_class>::value, "renf_class should have implicitly deleted its default constructor; since there can only be one default renf_class() we must not allow for a default constructor.");
@@ -153,6 +160,10 @@ boost::intrusive_ptr<const renf_class> renf_class::make(const std::string & minp
             throw std::invalid_argument("renf_class: can not read ball from string");
         }
 
+        // Reading the ball might have rounded it to one that contains another root.
+        if (!fmpq_poly_check_unique_real_root(p, e, prec))
+            arb_set_str(e, ball.c_str(), exact_prec(ball, prec));
+
         if (!fmpq_poly_check_unique_real_root(p, e, prec))
         {
             fmpq_poly_clear(p);
@@ -200,13 +211,38 @@ const renf_elem_class& renf_class::gen() const
 }
 
 std::tuple<std::string, std::string, std::string, slong> renf_class::construction() const {
-  char * emb = arb_get_str(renf_t()->emb, arf_bits(arb_midref(renf_t()->emb)), 0);
   char * pol = fmpq_poly_get_str_pretty(renf_t()->nf->pol, gen_name().c_str());
 
-  const auto construction = std::make_tuple(std::string(pol), gen_name(), std::string(emb), renf_t()->prec);
+  // Printing the embedding rounds it. When there is another root close to it,
+  // we might need to refine (a copy of) it first so that what we print still
+  // determines the root.
+  std::string emb;
+
+  ::renf_t k;
+  renf_init_set(k, renf_t());
+
+  arb_t ball;
+  arb_init(ball);
+
+  for (slong prec = FLINT_MAX(renf_t()->prec, 64);; prec *= 2)
+  {
+    char * s = arb_get_str(k->emb, FLINT_MAX(arf_bits(arb_midref(k->emb)), prec), 0);
+    emb = s;
+    flint_free(s);
+
+    arb_set_str(ball, emb.c_str(), exact_prec(emb, renf_t()->prec));
+    if (fmpq_poly_check_unique_real_root(k->nf->pol, ball, prec))
+      break;
+
+    renf_refine_embedding(k, 2 * prec);
+  }
+
+  arb_clear(ball);
+  renf_clear(k);
+
+  const auto construction = std::make_tuple(std::string(pol), gen_name(), emb, renf_t()->prec);
 
   flint_free(pol);
-  flint_free(emb);
 
   return construction;
 }
-- 
2.43.0

