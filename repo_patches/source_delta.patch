From 47a394d9b36d70222146f70aef439eb4d5aa3c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:13 +0000
Subject: [PATCH 01/45] fix: keep the scale of an expression added to an
 exactly zero expression

---
 public/gal/expr.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index e655f06..ec2398e 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -386,16 +386,16 @@ constexpr detail::rpne<A, S1 + S2 + 3> operator+(detail::rpne<A, S1> lhs, detail
     rpne<A, S1 + S2 + 3> out;
 
     // Early out if either the lhs or the rhs is exactly zero
-    if (lhs.count == 0 || rhs.count == 0)
+    if (lhs.count == 0 || lhs.q.is_zero())
     {
-        if (lhs.count == 0)
-        {
-            out.append(rhs);
-        }
-        else
-        {
-            out.append(lhs);
-        }
+        out.append(rhs);
+        out.q = rhs.q;
+        return out;
+    }
+    else if (rhs.count == 0 || rhs.q.is_zero())
+    {
+        out.append(lhs);
+        out.q = lhs.q;
         return out;
     }
 
-- 
2.43.0


From 15b68cc231547709b1986926773fdacbee6a1fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:21 +0000
Subject: [PATCH 02/45] fix: scale the trailing summands of the left sum by the
 left scale

---
 public/gal/expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index ec2398e..1090638 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -443,7 +443,7 @@ constexpr detail::rpne<A, S1 + S2 + 3> operator+(detail::rpne<A, S1> lhs, detail
                 {
                     auto lhs_summand = lhs.nodes[lhs_index++];
                     ++summand_count;
-                    lhs_summand.q *= rhs.q;
+                    lhs_summand.q *= lhs.q;
                     out.nodes[out.count++] = lhs_summand;
                     for (width_t i = 0; i != lhs_summand.ex; ++i)
                     {
-- 
2.43.0


From 756f4dcdf4d8382d8c76d3d7163646317d7cb467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:27 +0000
Subject: [PATCH 03/45] fix: two sums that cancel each other are an exactly
 zero expression

---
 public/gal/expr.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 1090638..26f7a19 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -668,6 +668,12 @@ constexpr detail::rpne<A, S1 + S2 + 3> operator+(detail::rpne<A, S1> lhs, detail
         summand_count = 2;
     }
 
+    // All summands may have cancelled, in which case the sum is exactly zero
+    if (summand_count == 0)
+    {
+        return out;
+    }
+
     // Do a final pass to see if the sum has been collapsed to a single term
     if (summand_count == 1)
     {
-- 
2.43.0


From 1b5457f97b586b5e82219ac753da32aa4f48b326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:35 +0000
Subject: [PATCH 04/45] fix: the constant E evaluates to Euler's number instead
 of pi

---
 public/gal/expr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 26f7a19..dc6a405 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -368,7 +368,8 @@ namespace detail
         template <typename A>
         constexpr rpne<A, 1> convert() const noexcept
         {
-            return {{node{c_pi, c_pi}}, 1, q};
+            op const o = id == pi_ind ? c_pi : c_e;
+            return {{node{o, o}}, 1, q};
         }
     };
 } // namespace detail
-- 
2.43.0


From 0d6c55b4cfe36556221c2945238ecaa7434e44c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:42 +0000
Subject: [PATCH 05/45] fix: reversion and the dual keep the scale of their
 operand

---
 public/gal/expr.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index dc6a405..b6adec6 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -838,6 +838,7 @@ constexpr auto operator~(detail::rpne<A, S> const& in)
     }
 
     out.append(in);
+    out.q = in.q;
 
     if (in.back().o == detail::op_rev)
     {
@@ -860,6 +861,7 @@ constexpr auto operator!(detail::rpne<A, S> const& in)
     }
 
     out.append(in);
+    out.q = in.q;
     out.append(detail::op_pd);
     return out;
 }
-- 
2.43.0


From baaeb2173757c820ba31c5359ae64bd148491f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:48 +0000
Subject: [PATCH 06/45] fix: exterior products of three or more factors keep
 the scale of every factor

---
 public/gal/expr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index b6adec6..cf62410 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -1038,11 +1038,11 @@ constexpr auto operator^(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> con
         out.append(lhs);
         out.nodes[out.count++] = detail::node{detail::op_se, rhs_checksum, rhs.count, zero};
         out.append(rhs);
-        out.q = lhs.q * rhs.q;
     }
+    out.q = lhs.q * rhs.q;
 
     // Loop through all ep factors to compute the bloom filter
-    width_t i       = 1;
+    width_t i       = 0;
     detail::crc_t c = 0;
     while (i < out.count)
     {
-- 
2.43.0


From 0bb2fdc74fe792589e731f9635c917c447e3a457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:11 +0000
Subject: [PATCH 07/45] fix: subexpressions that differ only in a scale are not
 the same

---
 public/gal/expr.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index cf62410..ff2aea7 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -114,7 +114,8 @@ namespace detail
 
         constexpr bool operator==(node const& other) const
         {
-            return o == other.o && checksum == other.checksum && ex == other.ex;
+            return o == other.o && checksum == other.checksum && ex == other.ex
+                   && q.num == other.q.num && q.den == other.q.den;
         }
 
         constexpr bool operator!=(node const& other) const
-- 
2.43.0


From 3b491967a5fa517615c0c9d1944cd5408082ba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:19 +0000
Subject: [PATCH 08/45] fix: a product with an exactly zero factor is zero

---
 public/gal/expr.hpp | 32 ++++----------------------------
 1 file changed, 4 insertions(+), 28 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index ff2aea7..997863c 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -943,14 +943,8 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto operator*(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 1> out;
-    if (lhs.count == 0)
+    if (lhs.count == 0 || rhs.count == 0)
     {
-        out.append(rhs);
-        return out;
-    }
-    else if (rhs.count == 0)
-    {
-        out.append(lhs);
         return out;
     }
 
@@ -1070,14 +1064,8 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto operator>>(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 1> out;
-    if (lhs.count == 0)
+    if (lhs.count == 0 || rhs.count == 0)
     {
-        out.append(rhs);
-        return out;
-    }
-    else if (rhs.count == 0)
-    {
-        out.append(lhs);
         return out;
     }
 
@@ -1100,14 +1088,8 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto operator|(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 1> out;
-    if (lhs.count == 0)
+    if (lhs.count == 0 || rhs.count == 0)
     {
-        out.append(rhs);
-        return out;
-    }
-    else if (rhs.count == 0)
-    {
-        out.append(lhs);
         return out;
     }
 
@@ -1144,14 +1126,8 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto scalar_product(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 2> out;
-    if (lhs.count == 0)
+    if (lhs.count == 0 || rhs.count == 0)
     {
-        out.append(rhs);
-        return out;
-    }
-    else if (rhs.count == 0)
-    {
-        out.append(lhs);
         return out;
     }
 
-- 
2.43.0


From 493e06daa568c6d9e86f8506de5fd240167d2c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:25 +0000
Subject: [PATCH 09/45] fix: inner products keep the order of their operands

---
 public/gal/expr.hpp | 28 ++++++----------------------
 1 file changed, 6 insertions(+), 22 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 997863c..4ee7ab0 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -1100,19 +1100,11 @@ constexpr auto operator|(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> con
     }
 
     out.q = q;
-    if (lhs.back().checksum < rhs.back().checksum)
-    {
-        out.append(lhs);
-        out.append(rhs);
-    }
-    else
-    {
-        out.append(rhs);
-        out.append(lhs);
-    }
+    out.append(lhs);
+    out.append(rhs);
     out.append(detail::op_sip);
     out.nodes[out.count - 1].checksum
-        = detail::crc32(lhs.back().checksum + rhs.back().checksum + (detail::op_sip << 8));
+        = detail::crc32(lhs.back().checksum + ~rhs.back().checksum + (detail::op_sip << 8));
     return out;
 }
 
@@ -1138,22 +1130,14 @@ constexpr auto scalar_product(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2
     }
 
     out.q = q;
-    if (lhs.back().checksum < rhs.back().checksum)
-    {
-        out.append(lhs);
-        out.append(rhs);
-    }
-    else
-    {
-        out.append(rhs);
-        out.append(lhs);
-    }
+    out.append(lhs);
+    out.append(rhs);
 
     // Implement the scalar product as the scalar component of the symmetric inner product
 
     out.append(detail::op_sip);
     out.nodes[out.count - 1].checksum
-        = detail::crc32(lhs.back().checksum + rhs.back().checksum + (detail::op_sip << 8));
+        = detail::crc32(lhs.back().checksum + ~rhs.back().checksum + (detail::op_sip << 8));
 
     out.append(detail::op_comp);
     out.nodes[out.count - 1].ex       = 0;
-- 
2.43.0


From c22826eb83baf65a6953618c12bca11e3836f589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:03 +0000
Subject: [PATCH 10/45] fix: the scalar product of two scalars is their product

---
 public/gal/expr.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 4ee7ab0..a2bc134 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -1133,11 +1133,12 @@ constexpr auto scalar_product(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2
     out.append(lhs);
     out.append(rhs);
 
-    // Implement the scalar product as the scalar component of the symmetric inner product
+    // Implement the scalar product as the scalar component of the left contraction (which, unlike
+    // the symmetric inner product, doesn't vanish for scalars)
 
-    out.append(detail::op_sip);
+    out.append(detail::op_lc);
     out.nodes[out.count - 1].checksum
-        = detail::crc32(lhs.back().checksum + ~rhs.back().checksum + (detail::op_sip << 8));
+        = detail::crc32(lhs.back().checksum + ~rhs.back().checksum + (detail::op_lc << 8));
 
     out.append(detail::op_comp);
     out.nodes[out.count - 1].ex       = 0;
-- 
2.43.0


From 1092c2dd6f1471b6992ee909c80ea071175f931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:11 +0000
Subject: [PATCH 11/45] fix: keep the sign when dividing by a negative integer
 or scale

---
 public/gal/expr.hpp    | 4 ++--
 public/gal/numeric.hpp | 5 +++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index a2bc134..cbe7293 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -739,7 +739,7 @@ constexpr auto operator*(detail::rpne_constant c, int n) noexcept
 
 constexpr auto operator/(detail::rpne_constant c, int d) noexcept
 {
-    c.q *= rat{1, d};
+    c.q /= rat{d, 1};
     return c;
 }
 
@@ -764,7 +764,7 @@ constexpr auto operator/(detail::rpne<A, S> lhs, int d)
 {
     if (lhs.count > 0)
     {
-        lhs.q *= rat{1, d};
+        lhs.q /= rat{d, 1};
     }
     return lhs;
 }
diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index 525f700..49bc889 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -185,6 +185,11 @@ struct rat
 
     [[nodiscard]] constexpr rat reciprocal() const noexcept
     {
+        // The denominator is kept positive
+        if (num < 0)
+        {
+            return {-den, -num};
+        }
         return {den, num};
     }
 
-- 
2.43.0


From 31040dc0de90b1142aae16a4430121ecd569e46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:19 +0000
Subject: [PATCH 12/45] fix: an integer divided by an expression keeps the
 integer

---
 public/gal/expr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index cbe7293..93ba575 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -776,7 +776,7 @@ constexpr auto operator/(int lhs, detail::rpne<A, S> const& rhs)
     out.append(detail::rpne_from_constant<A>(lhs, 1));
     out.append(rhs);
     out.append(detail::op_div);
-    out.back().q = rhs.q.reciprocal();
+    out.back().q = rat{lhs, 1} / rhs.q;
     out.q        = one;
     return out;
 }
-- 
2.43.0


From d6f64d7c3dde9d866bf2519680895c06a216711e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:39 +0000
Subject: [PATCH 13/45] fix: division and scalar functions of an exactly zero
 expression are well formed

---
 public/gal/expr.hpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 93ba575..f1c3c79 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -785,6 +785,11 @@ template <typename A, width_t S1, width_t S2>
 constexpr auto operator/(detail::rpne<A, S1> const& lhs, detail::rpne<A, S2> const& rhs)
 {
     detail::rpne<A, S1 + S2 + 1> out;
+    if (lhs.count == 0 || lhs.q.is_zero())
+    {
+        return out;
+    }
+
     out.append(lhs);
     out.append(rhs);
     out.append(detail::op_div);
@@ -871,6 +876,11 @@ template <typename A, width_t S>
 constexpr auto sqrt(detail::rpne<A, S> const& in)
 {
     detail::rpne<A, S + 1> out;
+    if (in.count == 0 || in.q.is_zero())
+    {
+        return out;
+    }
+
     out.append(in);
     out.append(detail::op_sqrt);
     out.back().q = in.q;
@@ -882,6 +892,11 @@ template <typename A, width_t S>
 constexpr auto sin(detail::rpne<A, S> const& in)
 {
     detail::rpne<A, S + 1> out;
+    if (in.count == 0 || in.q.is_zero())
+    {
+        return out;
+    }
+
     out.append(in);
     out.append(detail::op_sin);
     out.back().q = in.q;
@@ -893,6 +908,13 @@ template <typename A, width_t S>
 constexpr auto cos(detail::rpne<A, S> const& in)
 {
     detail::rpne<A, S + 1> out;
+    if (in.count == 0 || in.q.is_zero())
+    {
+        // cos(0) = 1
+        out.append(detail::rpne_from_constant<A>(1, 1));
+        return out;
+    }
+
     out.append(in);
     out.append(detail::op_cos);
     out.back().q = in.q;
@@ -904,6 +926,11 @@ template <typename A, width_t S>
 constexpr auto tan(detail::rpne<A, S> const& in)
 {
     detail::rpne<A, S + 1> out;
+    if (in.count == 0 || in.q.is_zero())
+    {
+        return out;
+    }
+
     out.append(in);
     out.append(detail::op_tan);
     out.back().q = in.q;
-- 
2.43.0


From 2fbad05a847657e355ff8e19d8e3a749bf2edd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:02 +0000
Subject: [PATCH 14/45] fix: selecting from an exactly zero expression is zero

---
 public/gal/expr.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index f1c3c79..f4c39b0 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -143,6 +143,10 @@ namespace detail
         constexpr auto operator[](elem_t e) noexcept
         {
             rpne<A, S + 1> out;
+            if (count == 0)
+            {
+                return out;
+            }
             out.append(*this);
             // Using operator[] successfully is not expected behavior, so we don't bother computing
             // the checksum in a fancy manner.
@@ -154,6 +158,10 @@ namespace detail
         constexpr auto select_grade(elem_t g) noexcept
         {
             rpne<A, S + 1> out;
+            if (count == 0)
+            {
+                return out;
+            }
             out.append(*this);
             out.nodes[out.count++] = node{op_grd, back().checksum + ~g, g};
             out.q                  = q;
-- 
2.43.0


From 7dcd89879418c452f0c1f42646ee4251ddbc9640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:09 +0000
Subject: [PATCH 15/45] fix: an expression scaled by zero evaluates to zero

---
 public/gal/engine.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/engine.hpp b/public/gal/engine.hpp
index 1d4b46e..f732115 100644
--- a/public/gal/engine.hpp
+++ b/public/gal/engine.hpp
@@ -493,7 +493,7 @@ namespace detail
         // Evaluate temporaries which will be appended to the data array as value types
         detail::finalize_temps<A, V, temps>(data, std::integral_constant<size_t, 0>{});
 
-        if constexpr (decltype(processed.args)::size() == 0)
+        if constexpr (decltype(processed.args)::size() == 0 || scale_factor.is_zero())
         {
             return entity<A, V>{};
         }
-- 
2.43.0


From bcacb54a5bcbe226ad454009d47676ae27bf8f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:16 +0000
Subject: [PATCH 16/45] fix: plain floating point inputs are accepted in any
 position

---
 public/gal/engine.hpp | 13 +++++++++++++
 public/gal/expr.hpp   |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/public/gal/engine.hpp b/public/gal/engine.hpp
index f732115..de488b1 100644
--- a/public/gal/engine.hpp
+++ b/public/gal/engine.hpp
@@ -348,6 +348,19 @@ namespace detail
         using value_t = typename D::value_t;
     };
 
+    // A plain floating point input is its own field
+    template <typename... Ds>
+    struct infer_field<float, Ds...>
+    {
+        using value_t = float;
+    };
+
+    template <typename... Ds>
+    struct infer_field<double, Ds...>
+    {
+        using value_t = double;
+    };
+
     template <>
     struct infer_field<>
     {
diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index f4c39b0..af5fca9 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -291,7 +291,7 @@ namespace detail
 
         if constexpr (sizeof...(Ds) > 0)
         {
-            if (std::is_floating_point_v<D>)
+            if constexpr (std::is_floating_point_v<D>)
             {
                 return rpne_entities<A, S, Ds...>(out, current_id + 1, i + 1);
             }
-- 
2.43.0


From d0be428f4d3ae792f7e0011eddbf157fe17bd7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:46 +0000
Subject: [PATCH 17/45] fix: popping a stack returns its top element

---
 public/gal/expr.hpp  | 2 +-
 public/gal/stack.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index af5fca9..522c07b 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -190,7 +190,7 @@ namespace detail
 
         constexpr node pop() noexcept
         {
-            return nodes[count--];
+            return nodes[--count];
         }
 
         constexpr void pop(width_t n) noexcept
diff --git a/public/gal/stack.hpp b/public/gal/stack.hpp
index 6403d1c..72da829 100644
--- a/public/gal/stack.hpp
+++ b/public/gal/stack.hpp
@@ -41,7 +41,7 @@ namespace detail
 
         constexpr T pop() noexcept
         {
-            return data[count--];
+            return data[--count];
         }
 
         constexpr T pop(size_t n) noexcept
-- 
2.43.0


From 7d7e888cf23d389519af2d4cd66502cfb7f0d296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:51 +0000
Subject: [PATCH 18/45] fix: a compound divisor is always evaluated before
 dividing by it

---
 public/gal/dfa.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index d5abb9e..395ae5c 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -307,7 +307,7 @@ namespace detail
                     {
                         known.ses[known.count - 1].required = true;
                     }
-                    else if (last_offset < i - 2 && prev.o != op_cse && prev.checksum != i)
+                    else if (last_offset < i - 2 && !(prev.o == op_cse && prev.checksum == i))
                     {
                         known.ses[known.count - 1].required = true;
                     }
-- 
2.43.0


From e2d82847155b26af6d2ff49064eb148c360e0552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:14:57 +0000
Subject: [PATCH 19/45] fix: tuples may contain common subexpressions and
 exactly zero expressions

---
 public/gal/dfa.hpp  | 8 ++++++++
 public/gal/expr.hpp | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index 395ae5c..d056d8a 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -581,6 +581,14 @@ namespace detail
             }
         }
 
+        // The subexpressions that remain are the members of a tuple
+        for (width_t k = 0; k != se_stack.count; ++k)
+        {
+            auto [se, offset] = se_stack[k];
+            width_t end       = k + 1 != se_stack.count ? se_stack[k + 1].second - 1 : out.count;
+            se->ex            = end - offset;
+        }
+
         out.q = expr.q;
         return out;
     }
diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 522c07b..907dfe6 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -236,6 +236,13 @@ namespace detail
         template <width_t S1>
         constexpr void append_as_se(rpne<A, S1> const& src) noexcept
         {
+            if (src.count == 0 || src.q.is_zero())
+            {
+                nodes[count++] = node{op_se, 0, 1, one};
+                nodes[count++] = node{c_zero, c_zero};
+                return;
+            }
+
             nodes[count++] = node{op_se, 0, src.count, src.q};
             for (width_t i = 0; i != src.count; ++i)
             {
-- 
2.43.0


From b4d7c90e9d1a9c97b22c6fcdea76910ff2065aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:16 +0000
Subject: [PATCH 20/45] fix: constants of a null basis are converted to the
 natural basis

---
 public/gal/dfa.hpp | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index d056d8a..46ab004 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -842,13 +842,27 @@ namespace detail
             }
             else
             {
-                auto g = n.o - c_scalar;
-                mv<algebra_t, 0, 1, 1> c{
+                constexpr uint32_t g = n.o - c_scalar;
+                constexpr mv<algebra_t, 0, 1, 1> c{
                     mv_size{0, 1, 1}, {}, {mon{one, zero, 0, 0}}, {term{1, 0, g}}};
-                return rpn_state{State.inputs,
-                                 State.temps,
-                                 State.args.push(make_pair(n.checksum, c)),
-                                 State.id_count};
+                if constexpr (uses_null_basis<algebra_t>)
+                {
+                    constexpr auto nat = to_natural_basis(c);
+                    return rpn_state{
+                        State.inputs,
+                        State.temps,
+                        State.args.push(make_pair(
+                            n.checksum,
+                            nat.template resize<nat.size.ind, nat.size.mon, nat.size.term>())),
+                        State.id_count};
+                }
+                else
+                {
+                    return rpn_state{State.inputs,
+                                     State.temps,
+                                     State.args.push(make_pair(n.checksum, c)),
+                                     State.id_count};
+                }
             }
         }
 
-- 
2.43.0


From ba8f9a4e2099d3006e71fec88d60c2d94b41dcd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:22 +0000
Subject: [PATCH 21/45] fix: components of a null basis algebra are selected in
 the null basis

---
 public/gal/dfa.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index 46ab004..1cea35f 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -620,6 +620,20 @@ namespace detail
         // Unused except when evaluating subexpressions
         constexpr static rpn_state temp_state{State.inputs, State.temps, tuple<>{}, State.id_count};
 
+        // Components are named in the basis the user works with
+        template <typename T>
+        constexpr static auto select_component(T const& in) noexcept
+        {
+            if constexpr (uses_null_basis<algebra_t>)
+            {
+                return to_null_basis(in)[n.ex];
+            }
+            else
+            {
+                return in[n.ex];
+            }
+        }
+
         constexpr static auto compute_state() noexcept
         {
             if constexpr (n.o == op_id)
@@ -801,7 +815,7 @@ namespace detail
             else if constexpr (n.o == op_comp)
             {
                 constexpr auto pop  = State.args.pop();
-                constexpr auto comp = pop.first.second[n.ex];
+                constexpr auto comp = select_component(pop.first.second);
                 return rpn_state{
                     State.inputs,
                     State.temps,
-- 
2.43.0


From 1853093106b6aba93f9114e9bbf4af748b6d8351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:30 +0000
Subject: [PATCH 22/45] fix: common subexpressions of a null basis algebra stay
 in the natural basis

---
 public/gal/dfa.hpp    |  7 +++++--
 public/gal/engine.hpp | 12 ++----------
 2 files changed, 7 insertions(+), 12 deletions(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index 1cea35f..674f4de 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -638,14 +638,17 @@ namespace detail
         {
             if constexpr (n.o == op_id)
             {
-                auto pop = State.inputs.pop();
+                constexpr auto pop = State.inputs.pop();
 
                 if constexpr (uses_null_basis<algebra_t>)
                 {
+                    constexpr auto nat = to_natural_basis(pop.first);
                     return rpn_state{
                         pop.second,
                         State.temps,
-                        State.args.push(make_pair(n.checksum, to_natural_basis(pop.first))),
+                        State.args.push(make_pair(
+                            n.checksum,
+                            nat.template resize<nat.size.ind, nat.size.mon, nat.size.term>())),
                         State.id_count};
                 }
                 else
diff --git a/public/gal/engine.hpp b/public/gal/engine.hpp
index de488b1..b079e17 100644
--- a/public/gal/engine.hpp
+++ b/public/gal/engine.hpp
@@ -265,16 +265,8 @@ namespace detail
             constexpr static auto ie = temps.template get<I>().ie;
             constexpr static auto o  = temps.template get<I>().o;
             constexpr static auto id = temps.template get<I>().id;
-            if constexpr (detail::uses_null_basis<A>)
-            {
-                constexpr static auto null_conversion = detail::to_null_basis(ie);
-                compute_temp<null_conversion, o, V, A>(
-                    data, std::make_index_sequence<null_conversion.size.term>{}, id);
-            }
-            else
-            {
-                compute_temp<ie, o, V, A>(data, std::make_index_sequence<ie.size.term>(), id);
-            }
+            // Temporaries are referenced from expressions in the natural basis
+            compute_temp<ie, o, V, A>(data, std::make_index_sequence<ie.size.term>(), id);
 
             if constexpr (I + 1 != std::decay_t<decltype(temps)>::size())
             {
-- 
2.43.0


From f22053617b43f50aa8a0a5c4fbd89f9f288c658a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:35 +0000
Subject: [PATCH 23/45] fix: grade selection keeps every term of the grade

---
 public/gal/algebra.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/public/gal/algebra.hpp b/public/gal/algebra.hpp
index 9ef4bf6..3fd4edd 100644
--- a/public/gal/algebra.hpp
+++ b/public/gal/algebra.hpp
@@ -577,11 +577,8 @@ struct mv
         for (auto it = cbegin(); it != cend(); ++it)
         {
             auto g = pop_count(it->element);
-            if (g > grade)
-            {
-                break;
-            }
-            else if (g < grade)
+            // Terms are ordered by element and not by grade
+            if (g != grade)
             {
                 continue;
             }
-- 
2.43.0


From 3b3ca5a82e3eb035bf6808240b3d4b1a72a78579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:40 +0000
Subject: [PATCH 24/45] fix: dividing by an indeterminate lowers its degree in
 monomials that contain it

---
 public/gal/algebra.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/public/gal/algebra.hpp b/public/gal/algebra.hpp
index 3fd4edd..cbc38bb 100644
--- a/public/gal/algebra.hpp
+++ b/public/gal/algebra.hpp
@@ -1009,7 +1009,6 @@ namespace detail
                 for (auto mon_it = it.cbegin(); mon_it != it.cend(); ++mon_it)
                 {
                     width_t ind_offset = out_inds_it - out.inds.begin();
-                    bool canceled      = false;
                     bool written       = false;
                     for (auto ind_it = mon_it.cbegin(); ind_it != mon_it.cend(); ++ind_it)
                     {
@@ -1019,10 +1018,6 @@ namespace detail
                             {
                                 rat deg = d.degree + ind_it->degree;
                                 if (!deg.is_zero())
-                                {
-                                    canceled = true;
-                                }
-                                else
                                 {
                                     *out_inds_it++ = ind{d.id, deg};
                                 }
@@ -1050,8 +1045,9 @@ namespace detail
                         *out_inds_it++ = d;
                     }
 
-                    rat deg        = mon_it->degree - d.degree;
-                    width_t count  = canceled ? mon_it->count - 1 : mon_it->count + 1;
+                    // NOTE: the degree of d was negated above
+                    rat deg        = mon_it->degree + d.degree;
+                    width_t count  = (out_inds_it - out.inds.begin()) - ind_offset;
                     *out_mons_it++ = mon{mon_it->q / m.q, deg, count, ind_offset};
                 }
 
-- 
2.43.0


From 304420329253d85c3106e8b72978c666be7c191e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:39 +0000
Subject: [PATCH 25/45] fix: rational comparison does not depend on the
 fractions being reduced

---
 public/gal/numeric.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index 49bc889..ef0ee2c 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -379,18 +379,18 @@ namespace detail
 [[nodiscard]] constexpr bool operator==(rat lhs, rat rhs) noexcept
 {
     auto gcd1 = std::gcd(lhs.num, lhs.den);
-    auto gcd2 = std::gcd(rhs.den, rhs.den);
+    auto gcd2 = std::gcd(rhs.num, rhs.den);
     return lhs.num / gcd1 == rhs.num / gcd2 && lhs.den / gcd1 == rhs.den / gcd2;
 }
 
 [[nodiscard]] constexpr bool operator!=(rat lhs, int rhs) noexcept
 {
-    return lhs.den != 1 || lhs.num != rhs;
+    return lhs.num != rhs * lhs.den;
 }
 
 [[nodiscard]] constexpr bool operator!=(rat lhs, rat rhs) noexcept
 {
-    return lhs.num != rhs.num || lhs.den != rhs.den;
+    return !(lhs == rhs);
 }
 
 [[nodiscard]] constexpr bool operator<(rat lhs, rat rhs) noexcept
-- 
2.43.0


From 487f405034aeb551cc79d54a22eafe00a4e8b593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:46 +0000
Subject: [PATCH 26/45] fix: nudging a rational with an odd numerator stays
 within the intended error

---
 public/gal/numeric.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index ef0ee2c..f239d3d 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -336,11 +336,16 @@ namespace detail
                 {
                     // The rational is the mediant of two fractions with smaller denominators. Pick
                     // one of them based on the parity.
-                    if (in.num % 2 == 1)
+                    if (in.num == 1 || in.num == -1)
                     {
-                        // Perturb to the left-side of the mediant
-                        auto n2  = (in.num - 1) / 2;
-                        auto d2  = in.den / 2;
+                        // The numerator can't be halved
+                        return in;
+                    }
+                    else if (in.num % 2 != 0)
+                    {
+                        // Round the numerator towards zero and pick the nearest denominator
+                        auto n2  = in.num / 2;
+                        auto d2  = static_cast<den_t>(d_d * n2 / n_d + 0.5);
                         auto gcd = std::gcd(n2, d2);
                         if (gcd > 1)
                         {
-- 
2.43.0


From 4bac175f267cf17055dc4a3acf0ac09fce729a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:54 +0000
Subject: [PATCH 27/45] fix: the zeroth power is one

---
 public/gal/numeric.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/public/gal/numeric.hpp b/public/gal/numeric.hpp
index f239d3d..1e80a97 100644
--- a/public/gal/numeric.hpp
+++ b/public/gal/numeric.hpp
@@ -23,6 +23,10 @@ pow(T s, std::integral_constant<int, N>, std::integral_constant<int, D>) noexcep
     {
         return std::pow(s, T{N} / T{D});
     }
+    else if constexpr (N == 0)
+    {
+        return T{1};
+    }
     else if constexpr (N == 1)
     {
         return s;
-- 
2.43.0


From 5f720bd4ae9d530c909d4b79fb16daf8e6b59f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:13 +0000
Subject: [PATCH 28/45] fix: the bivector of a five dimensional algebra has
 bivector elements only

---
 public/gal/geometric_algebra.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/public/gal/geometric_algebra.hpp b/public/gal/geometric_algebra.hpp
index 6f9534b..3d9770d 100644
--- a/public/gal/geometric_algebra.hpp
+++ b/public/gal/geometric_algebra.hpp
@@ -126,7 +126,11 @@ struct algebra
             out.inds[i]  = ind{id++, one};
             out.mons[i]  = mon{one, one, 1, i};
             out.terms[i] = term{1, i, e};
-            e            = next_even(e);
+            // Skip over elements of grade 4 and above
+            do
+            {
+                e = next_even(e);
+            } while (pop_count(e) != 2);
         }
         return out;
     }
-- 
2.43.0


From 3c65c8a2621b52fe89e3f74fce7a8a889ca357f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:18:20 +0000
Subject: [PATCH 29/45] fix: splitting a tuple keeps the elements after the
 partition point

---
 public/gal/tuple.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/public/gal/tuple.hpp b/public/gal/tuple.hpp
index 5a05971..c3c16d7 100644
--- a/public/gal/tuple.hpp
+++ b/public/gal/tuple.hpp
@@ -128,8 +128,7 @@ struct tuple : public tuple_impl<std::make_index_sequence<sizeof...(T)>, T...>
     template <size_t I>
     constexpr auto split_drop() const
     {
-        return split_n(
-            std::make_index_sequence<I>{}, std::make_index_sequence<sizeof...(T) - I - 1>{});
+        return make_pair(split<I>().first, split<I + 1>().second);
     }
 
     // This is a somewhat specialized operation that splits the tuple on the first occurence of the
@@ -206,7 +205,7 @@ private:
     {
         if constexpr (sizeof...(I1) == 0)
         {
-            if constexpr (sizeof...(I1) == 0)
+            if constexpr (sizeof...(I2) == 0)
             {
                 return make_pair(tuple<>{}, tuple<>{});
             }
-- 
2.43.0


From 009540e465e1decec546551e5e29f33bd60210d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:39 +0000
Subject: [PATCH 30/45] fix: the multivector of a PGA rotor refers to its axis
 and angle

---
 public/gal/pga.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index fd96af8..55e6150 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -164,7 +164,7 @@ namespace pga
         // z := ID 4
         // A rotation t around a line is given by the expression cos(t/2) + sin(t/2)(l_x + l_y +
         // l_z)
-        GAL_NODISCARD constexpr static mv<pga_algebra, 8, 4, 4> ie(uint32_t id) noexcept
+        GAL_NODISCARD constexpr static mv<pga_algebra, 7, 4, 4> ie(uint32_t id) noexcept
         {
             return {mv_size{7, 4, 4},
                     {ind{id, one},     // cos(t/2)
@@ -175,9 +175,9 @@ namespace pga
                      ind{id + 1, one}, // x * sin(t/2)
                      ind{id + 2, one}},
                     {mon{one, one, 1, 0},
-                     mon{one, one, 1, 1},
-                     mon{minus_one, rat{2}, 2, 2},
-                     mon{one, rat{2}, 2, 3}},
+                     mon{one, rat{2}, 2, 1},
+                     mon{minus_one, rat{2}, 2, 3},
+                     mon{one, rat{2}, 2, 5}},
                     {term{1, 0, 0b0}, term{1, 1, 0b110}, term{1, 2, 0b1010}, term{1, 3, 0b1100}}};
         }
 
-- 
2.43.0


From ed7437a12d12d0d262235d876974306dd0d862e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:47 +0000
Subject: [PATCH 31/45] fix: the multivector of a PGA translator refers to its
 direction and distance

---
 public/gal/pga.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index 55e6150..d64d200 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -236,14 +236,14 @@ namespace pga
                     {ind{id, one}, // d * l_x
                      ind{id + 1, one},
                      ind{id, one}, // d * l_y
-                     ind{id + 1, one},
+                     ind{id + 2, one},
                      ind{id, one}, // d * l_z
-                     ind{id + 2, one}},
+                     ind{id + 3, one}},
                     {
                         mon{one, zero, 0, 0},              // 1
-                        mon{minus_one_half, rat{2}, 2, 1}, // -1/2 * l_x
+                        mon{minus_one_half, rat{2}, 2, 0}, // -1/2 * l_x
                         mon{minus_one_half, rat{2}, 2, 2}, // -1/2 * l_y
-                        mon{minus_one_half, rat{2}, 2, 3}  // -1/2 * l_z
+                        mon{minus_one_half, rat{2}, 2, 4}  // -1/2 * l_z
                     },
                     {term{1, 0, 0b0}, term{1, 1, 0b11}, term{1, 2, 0b101}, term{1, 3, 0b1001}}};
         }
-- 
2.43.0


From 0ccb179908516f2eeb4e4231e1a1296ace4058e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:53 +0000
Subject: [PATCH 32/45] fix: the multivector of a PGA vector has three terms

---
 public/gal/pga.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index d64d200..4aca09e 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -403,7 +403,7 @@ namespace pga
         // Like planes, points are represented dually as the intersection of three planes
         GAL_NODISCARD constexpr static mv<algebra_t, 3, 3, 3> ie(uint32_t id) noexcept
         {
-            return {mv_size{3, 4, 4},
+            return {mv_size{3, 3, 3},
                     {
                         ind{id + 2, one}, // -z
                         ind{id + 1, one}, // y
-- 
2.43.0


From 5b37de103a8bfc11d38886aeade6e4824233d5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:02 +0000
Subject: [PATCH 33/45] fix: the moment of a PGA line is orthogonal to its
 direction

---
 public/gal/pga.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index 4aca09e..231c9f6 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -487,7 +487,7 @@ namespace pga
                     },
                     {
                         mon{minus_one, one, 1, 0}, // mx
-                        mon{one, one, 1, 1},       // my
+                        mon{minus_one, one, 1, 1}, // my
                         mon{minus_one, one, 1, 2}, // dz
                         mon{minus_one, one, 1, 3}, // mz
                         mon{one, one, 1, 4},       // dy
@@ -522,6 +522,7 @@ namespace pga
             : data{in.template select<0b1100, 0b1010, 0b110, 0b11, 0b101, 0b1001>()}
         {
             mx = -mx;
+            my = -my;
             mz = -mz;
             dx = -dx;
             dz = -dz;
-- 
2.43.0


From 9f6380eb837a198ded0e83b61c7ba4a91ef1fb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:10 +0000
Subject: [PATCH 34/45] fix: the logarithm of a half turn is not zero

---
 public/gal/pga.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/pga.hpp b/public/gal/pga.hpp
index 231c9f6..9b556d0 100644
--- a/public/gal/pga.hpp
+++ b/public/gal/pga.hpp
@@ -559,7 +559,7 @@ namespace pga
         entity<pga_algebra, T, 0, 0b1111> inv_norm{T{1} / s2, p2 / l2.template select<0>()};
 
         bool s1_zero = std::abs(s1) < T{1e-6};
-        scalar<pga_algebra, T> u{s1_zero ? ::std::atan2(-p1, p2) : ::std::atan2(s2, s1)};
+        scalar<pga_algebra, T> u{::std::atan2(s2, s1)};
         scalar<pga_algebra, T> v{s1_zero ? -p1 / s2 : p2 / s1};
 
         return compute(
-- 
2.43.0


From 9c91137e02d865249a8348aa10306a6c68268c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:53 +0000
Subject: [PATCH 35/45] fix: the multivector of a 2D PGA point is the
 intersection of two lines

---
 public/gal/pga2.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/public/gal/pga2.hpp b/public/gal/pga2.hpp
index bdaada1..743eb3e 100644
--- a/public/gal/pga2.hpp
+++ b/public/gal/pga2.hpp
@@ -143,20 +143,20 @@ namespace pga2
             };
         };
 
-        // Like planes, points are represented dually as the intersection of three planes
+        // Like lines, points are represented dually as the intersection of two lines
         [[nodiscard]] constexpr static mv<algebra_t, 2, 3, 3> ie(uint32_t id) noexcept
         {
             return {mv_size{2, 3, 3},
                     {
-                        ind{id + 1, 1}, // -y
-                        ind{id, 1}      // x
+                        ind{id + 1, one}, // y
+                        ind{id, one}      // -x
                     },
-                    {mon{minus_one, one, 0, 1}, // -y
-                     mon{one, one, 1, 1},       // x
+                    {mon{one, one, 1, 0},       // y
+                     mon{minus_one, one, 1, 1}, // -x
                      mon{one, zero, 0, 0}},     // point at origin
                     {
-                        term{1, 0, 0b11},  // -y * e01
-                        term{1, 1, 0b101}, // x * e02
+                        term{1, 0, 0b11},  // y * e01
+                        term{1, 1, 0b101}, // -x * e02
                         term{1, 2, 0b110}  // e12
                     }};
         }
@@ -177,8 +177,8 @@ namespace pga2
             , y{in.template select<0b11>()}
         {
             auto w_inv = T{1} / in.template select<0b110>();
-            x          = w_inv;
-            y          = -w_inv;
+            x          = -x * w_inv;
+            y          = y * w_inv;
         }
 
         [[nodiscard]] constexpr T const& operator[](size_t index) const noexcept
-- 
2.43.0


From 2a832d926042878589fe00f599e8eb913233ef0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:53 +0000
Subject: [PATCH 36/45] fix: a 2D PGA vector has two coordinates and elements
 of the 2D algebra

---
 public/gal/pga2.hpp | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/public/gal/pga2.hpp b/public/gal/pga2.hpp
index 743eb3e..ae56333 100644
--- a/public/gal/pga2.hpp
+++ b/public/gal/pga2.hpp
@@ -199,51 +199,45 @@ namespace pga2
         using value_t                 = T;
         constexpr static bool is_dual = true;
 
-        std::array<T, 3> data;
+        std::array<T, 2> data;
         struct
         {
             T x;
             T y;
-            T z;
         };
 
-        // Like planes, points are represented dually as the intersection of three planes
-        [[nodiscard]] constexpr static mv<algebra_t, 3, 3, 3> ie(uint32_t id) noexcept
+        // A vector is a point on the ideal line
+        [[nodiscard]] constexpr static mv<algebra_t, 2, 2, 2> ie(uint32_t id) noexcept
         {
-            return {mv_size{3, 4, 4},
+            return {mv_size{2, 2, 2},
                     {
-                        ind{id + 2, 1}, // -z
-                        ind{id + 1, 1}, // y
-                        ind{id, 1}      // -x
+                        ind{id + 1, one}, // y
+                        ind{id, one}      // -x
                     },
                     {
-                        mon{minus_one, one, 0, 1}, // -z
-                        mon{one, one, 1, 1},       // y
-                        mon{minus_one, one, 2, 1}  // -x
+                        mon{one, one, 1, 0},      // y
+                        mon{minus_one, one, 1, 1} // -x
                     },
                     {
-                        term{1, 0, 0b111},  // -z * e012
-                        term{1, 1, 0b1011}, // y * e013
-                        term{1, 2, 0b1101}  // x * e023
+                        term{1, 0, 0b11}, // y * e01
+                        term{1, 1, 0b101} // -x * e02
                     }};
         }
 
         [[nodiscard]] constexpr static size_t size() noexcept
         {
-            return 3;
+            return 2;
         }
 
-        constexpr vector(T x, T y, T z) noexcept
+        constexpr vector(T x, T y) noexcept
             : x{x}
             , y{y}
-            , z{z}
         {}
 
         template <elem_t... E>
         constexpr vector(entity<pga2_algebra, T, E...> in) noexcept
-            : data{in.template select<0b1101, 0b1011, 0b111>()}
+            : data{in.template select<0b101, 0b11>()}
         {
-            z = -z;
             x = -x;
         }
 
-- 
2.43.0


From 82b51189dc48746c3253b9104d1a2103b15267d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:03 +0000
Subject: [PATCH 37/45] fix: computations may return std::make_tuple as
 documented

---
 public/gal/expr.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index 907dfe6..24b2976 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -14,6 +14,7 @@
 #include "null_algebra.hpp"
 #include "tuple.hpp"
 
+#include <tuple>
 #include <type_traits>
 
 #ifdef GAL_DEBUG
@@ -351,6 +352,12 @@ namespace detail
         return (std::decay_t<decltype(static_cast<T*>(nullptr)->template get<I>())>::capacity + ...);
     }
 
+    template <typename T>
+    constexpr inline bool is_std_tuple_v = false;
+
+    template <typename... T>
+    constexpr inline bool is_std_tuple_v<std::tuple<T...>> = true;
+
     // Concatenate a variadic number of expressions in the input tuple as subexpressions
     template <auto const& input>
     constexpr auto rpne_concat() noexcept
@@ -370,6 +377,19 @@ namespace detail
                 return out;
             });
         }
+        else if constexpr (is_std_tuple_v<type>)
+        {
+            using A                    = typename std::tuple_element_t<0, type>::algebra_t;
+            constexpr width_t capacity = std::apply(
+                [](auto const&... args) {
+                    return (std::decay_t<decltype(args)>::capacity + ... + sizeof...(args));
+                },
+                input);
+
+            rpne<A, capacity> out{};
+            std::apply([&out](auto const&... args) { (out.append_as_se(args), ...); }, input);
+            return out;
+        }
         else
         {
             return input;
-- 
2.43.0


From d517d8e50c01bd3463b808f3c4f205bbbe23a9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:15 +0000
Subject: [PATCH 38/45] fix: the 2D conformal model compiles and uses literals
 like the 3D one

---
 public/gal/cga2.hpp | 125 ++++++++++++++++----------------------------
 1 file changed, 44 insertions(+), 81 deletions(-)

diff --git a/public/gal/cga2.hpp b/public/gal/cga2.hpp
index f62a8e0..ff453e0 100644
--- a/public/gal/cga2.hpp
+++ b/public/gal/cga2.hpp
@@ -19,92 +19,55 @@ namespace cga2
     // The CRA is a graded algebra with 16 basis elements
     using cga2_algebra = gal::algebra<cga2_metric>;
 
-    // 0b1 => e+ extension
-    // 0b1000 => e- extension
-    namespace detail
+    constexpr detail::rpne<cga2_algebra, 1> operator"" _e1(unsigned long long n)
     {
-        // These tags are needed to provide unique specializations for the expressions for n_o and
-        // n_i
-        template <typename T>
-        struct n_o_tag
-        {};
-
-        template <typename T>
-        struct n_i_tag
-        {};
-
-        template <typename T>
-        struct pseudoscalar_tag
-        {};
-
-        template <typename T>
-        struct pseudoscalar_inv_tag
-        {};
-    } // namespace detail
+        uint32_t op = detail::c_scalar + 0b1;
+        return {{detail::node{op, op}}, 1, rat{static_cast<num_t>(n), 1}};
+    }
+
+    constexpr detail::rpne<cga2_algebra, 1> operator"" _e2(unsigned long long n)
+    {
+        uint32_t op = detail::c_scalar + 0b10;
+        return {{detail::node{op, op}}, 1, rat{static_cast<num_t>(n), 1}};
+    }
+
+    // Before change-of-basis:
+    // 0b100 => no
+    // 0b1000 => ni
+
+    constexpr detail::rpne<cga2_algebra, 1> operator"" _no(unsigned long long n)
+    {
+        uint32_t op = detail::c_scalar + 0b100;
+        return {{detail::node{op, op}}, 1, rat{static_cast<num_t>(n), 1}};
+    }
+
+    constexpr detail::rpne<cga2_algebra, 1> operator"" _ni(unsigned long long n)
+    {
+        uint32_t op = detail::c_scalar + 0b1000;
+        return {{detail::node{op, op}}, 1, rat{static_cast<num_t>(n), 1}};
+    }
+
+    constexpr detail::rpne<cga2_algebra, 1> operator"" _ps(unsigned long long n)
+    {
+        uint32_t op = detail::c_scalar + 0b1111;
+        return {{detail::node{op, op}}, 1, rat{static_cast<num_t>(n), 1}};
+    }
+
+    constexpr detail::rpne<cga2_algebra, 1> operator"" _ips(unsigned long long n)
+    {
+        uint32_t op = detail::c_scalar + 0b1111;
+        return {{detail::node{op, op}}, 1, rat{static_cast<num_t>(-n), 1}};
+    }
 } // namespace cga2
 
 namespace detail
 {
     template <>
-    constexpr inline bool uses_null_basis<::gal::cga::cga2_algebra> = true;
+    constexpr inline bool uses_null_basis<::gal::cga2::cga2_algebra> = true;
 }
 
-template <typename T>
-struct expr<expr_op::identity, mv<cga2::cga2_algebra, 0, 1, 1>, cga2::detail::n_o_tag<T>>
-{
-    using value_t               = T;
-    using algebra_t             = cga2::cga2_algebra;
-    constexpr static expr_op op = expr_op::identity;
-    constexpr static mv<cga2::cga2_algebra, 0, 1, 1> lhs{mv_size{0, 1, 1},
-                                                         {},
-                                                         {mon{one, zero, 0, 0}},
-                                                         {term{1, 0, 0b1000}}};
-};
-
-template <typename T>
-struct expr<expr_op::identity, mv<cga2::cga2_algebra, 0, 1, 1>, cga2::detail::n_i_tag<T>>
-{
-    using value_t               = T;
-    using algebra_t             = cga2::cga2_algebra;
-    constexpr static expr_op op = expr_op::identity;
-    constexpr static mv<cga2::cga2_algebra, 0, 1, 1> lhs{mv_size{0, 1, 1},
-                                                         {},
-                                                         {mon{one, zero, 0, 0}},
-                                                         {term{1, 1, 0b1000}}};
-};
-
-template <typename T>
-struct expr<expr_op::identity, mv<cga2::cga2_algebra, 0, 1, 1>, cga2::detail::pseudoscalar_tag<T>>
-{
-    using value_t               = T;
-    using algebra_t             = cga2::cga2_algebra;
-    constexpr static expr_op op = expr_op::identity;
-    constexpr static auto lhs   = cga2::cga2_algebra::pseudoscalar;
-};
-
-template <typename T>
-struct expr<expr_op::identity, mv<cga::cga2_algebra, 0, 1, 1>, cga2::detail::pseudoscalar_inv_tag<T>>
-{
-    using value_t               = T;
-    using algebra_t             = cga2::cga2_algebra;
-    constexpr static expr_op op = expr_op::identity;
-    constexpr static auto lhs   = cga2::cga2_algebra::pseudoscalar_inv;
-};
-
 namespace cga2
 {
-    template <typename T = float>
-    constexpr inline expr<expr_op::identity, mv<cga2_algebra, 0, 1, 1>, detail::n_o_tag<T>> n_o;
-
-    template <typename T = float>
-    constexpr inline expr<expr_op::identity, mv<cga2_algebra, 0, 1, 1>, detail::e_inf_tag<T>> n_i;
-
-    template <typename T = float>
-    constexpr inline expr<expr_op::identity, mv<cga2_algebra, 0, 1, 1>, detail::pseudoscalar_tag<T>> ps;
-
-    template <typename T = float>
-    constexpr inline expr<expr_op::identity, mv<cga2_algebra, 0, 1, 1>, detail::pseudoscalar_inv_tag<T>> ips;
-
     template <typename T = float>
     union point
     {
@@ -141,15 +104,15 @@ namespace cga2
         {
             return {mv_size{4, 5, 4},
                     {
-                        ind{0, one},    // ind0 = p_x
-                        ind{1, one},    // ind1 = p_y
-                        ind{0, rat{2}}  // ind3 = p_x^2
-                        ind{1, rat{2}}, // ind3 = p_y^2
+                        ind{id, one},        // ind0 = p_x
+                        ind{id + 1, one},    // ind1 = p_y
+                        ind{id, rat{2}},     // ind2 = p_x^2
+                        ind{id + 1, rat{2}}, // ind3 = p_y^2
                     },
                     {
                         mon{one, one, 1, 0},         // p_x
                         mon{one, one, 1, 1},         // p_y
-                        mon{one, zero, 0, 0, 0},     // n_o
+                        mon{one, zero, 0, 0},        // n_o
                         mon{one_half, rat{2}, 1, 2}, // 1/2 p_x^2
                         mon{one_half, rat{2}, 1, 3}  // 1/2 p_y^2
                     },
-- 
2.43.0


From bf7ecff649996e4b2ba2dcd840a77f421de5e4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:38 +0000
Subject: [PATCH 39/45] fix: the cosine of a multivector that cancels to zero
 is one

---
 public/gal/dfa.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index 674f4de..b4ec261 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -803,10 +803,24 @@ namespace detail
             }
             else if constexpr (n.o == op_cos)
             {
-                auto args                    = State.args;
-                args.template get<0>().first = n.checksum;
-                args.template get<0>().second.cos(n.q);
-                return rpn_state{State.inputs, State.temps, args, State.id_count};
+                if constexpr (State.args.template get<0>().second.size.term == 0)
+                {
+                    // cos(0) = 1
+                    constexpr auto pop = State.args.pop();
+                    mv<algebra_t, 0, 1, 1> c{
+                        mv_size{0, 1, 1}, {}, {mon{one, zero, 0, 0}}, {term{1, 0, 0}}};
+                    return rpn_state{State.inputs,
+                                     State.temps,
+                                     pop.second.push(make_pair(n.checksum, c)),
+                                     State.id_count};
+                }
+                else
+                {
+                    auto args                    = State.args;
+                    args.template get<0>().first = n.checksum;
+                    args.template get<0>().second.cos(n.q);
+                    return rpn_state{State.inputs, State.temps, args, State.id_count};
+                }
             }
             else if constexpr (n.o == op_tan)
             {
-- 
2.43.0


From db384164badcbeeb4dbeb375b27449c1090f0420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:06 +0000
Subject: [PATCH 40/45] fix: functions and quotients of nested component
 selections extract the selected argument

---
 public/gal/dfa.hpp | 64 ++++++++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/public/gal/dfa.hpp b/public/gal/dfa.hpp
index b4ec261..f5e0887 100644
--- a/public/gal/dfa.hpp
+++ b/public/gal/dfa.hpp
@@ -232,6 +232,38 @@ namespace detail
         return 0;
     }
 
+    // Extract the argument of a function or the divisor of a quotient (the nodes from offset up to
+    // end) as a temporary, unless it is an input, a constant or a temporary already.
+    template <typename A, width_t C>
+    constexpr void
+    require_arg(rpne<A, C>& exp, cses<C>& known, width_t offset, width_t end) noexcept
+    {
+        width_t core = end;
+        while (core != offset + 1 && is_read_op(exp.nodes[core - 1].o))
+        {
+            --core;
+        }
+
+        node& first = exp.nodes[offset];
+        if (core != end && uses_null_basis<A>)
+        {
+            // A component in the null basis may consist of several monomials, so the selection
+            // itself is extracted.
+            width_t se_i
+                = register_se(exp, known, exp.nodes[end - 1].checksum, offset, end - offset, true);
+            if (se_i > 0)
+            {
+                first.o        = op_cse;
+                first.checksum = end;
+                first.ex       = se_i - 1;
+            }
+        }
+        else if (core != offset + 1 && !(first.o == op_cse && first.checksum == core))
+        {
+            known.ses[known.count - 1].required = true;
+        }
+    }
+
     template <typename A, width_t C>
     constexpr static auto rpn_reshape(rpne<A, C> expr) noexcept
     {
@@ -295,23 +327,7 @@ namespace detail
             case op_div: {
                 // Division requires its second operand to be extracted.
 
-                // Mark the last known se as required IF
-                // 1. The prior se is not a constant AND
-                // 2. The prior se is not a cse
-
-                if (i > 2)
-                {
-                    width_t last_offset = offsets.peek();
-                    node const& prev    = expr.nodes[last_offset];
-                    if (last_offset == i - 2 && !is_read_op(expr.nodes[i - 1].o))
-                    {
-                        known.ses[known.count - 1].required = true;
-                    }
-                    else if (last_offset < i - 2 && !(prev.o == op_cse && prev.checksum == i))
-                    {
-                        known.ses[known.count - 1].required = true;
-                    }
-                }
+                require_arg(expr, known, offsets.peek(), i);
 
                 offsets.pop();
                 width_t offset = offsets.peek();
@@ -338,19 +354,7 @@ namespace detail
             case op_tan: {
                 width_t offset = offsets.peek();
 
-                // Check if the argument has been extracted. If not, mark it as required.
-                if (i > 2)
-                {
-                    node const& prev = expr.nodes[offset];
-                    if (offset == i - 2 && !is_read_op(expr.nodes[i - 1].o))
-                    {
-                        known.ses[known.count - 1].required = true;
-                    }
-                    else if (offset < i - 2 && !(prev.o == op_cse && prev.checksum == i))
-                    {
-                        known.ses[known.count - 1].required = true;
-                    }
-                }
+                require_arg(expr, known, offset, i);
 
                 width_t se_i = register_se(expr, known, n.checksum, offset, i - offset + 1, true);
                 if (se_i > 0)
-- 
2.43.0


From 629fc2fec071445dbbb4f3733516b58bda091bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:09 +0000
Subject: [PATCH 41/45] fix: the terms of an entity are ordered by element
 whatever order its elements are declared in

---
 public/gal/entity.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/public/gal/entity.hpp b/public/gal/entity.hpp
index f8a6015..dbddc4f 100644
--- a/public/gal/entity.hpp
+++ b/public/gal/entity.hpp
@@ -19,10 +19,18 @@ namespace detail
     {
         constexpr size_t count = sizeof...(E);
 
-        return mv<A, count, count, count>{mv_size{count, count, count},
-                                          {ind{id + N, one}...},
-                                          {mon{one, one, 1, N}...},
-                                          {term{1, N, E}...}};
+        mv<A, count, count, count> out{mv_size{count, count, count},
+                                       {ind{id + N, one}...},
+                                       {mon{one, one, 1, N}...},
+                                       {term{1, N, E}...}};
+        // The terms of a multivector are ordered by element, whatever order they are stored in
+        sort(out.terms.begin(), out.terms.end());
+        for (width_t i = 0; i != count; ++i)
+        {
+            out.inds[i].id          = id + out.terms[i].mon_offset;
+            out.terms[i].mon_offset = i;
+        }
+        return out;
     }
 
     template <elem_t E, int16_t I, elem_t E1, elem_t... Es>
-- 
2.43.0


From 33f9524988ffefb0a06d4113deaf6b35cf9cca0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:03 +0000
Subject: [PATCH 42/45] fix: selecting several components of a zero entity
 gives as many zeros

---
 public/gal/entity.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/public/gal/entity.hpp b/public/gal/entity.hpp
index dbddc4f..51e696f 100644
--- a/public/gal/entity.hpp
+++ b/public/gal/entity.hpp
@@ -156,9 +156,16 @@ struct entity<A, T>
     }
 
     template <elem_t... S>
-    GAL_NODISCARD constexpr T select() const noexcept
+    GAL_NODISCARD constexpr auto select() const noexcept
     {
-        return {0};
+        if constexpr (sizeof...(S) == 1)
+        {
+            return T{0};
+        }
+        else
+        {
+            return std::array<T, sizeof...(S)>{};
+        }
     }
 
     GAL_NODISCARD constexpr T select(elem_t e) const noexcept
-- 
2.43.0


From 0d19182570ea145048e76293e571eaf84444f30e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:08 +0000
Subject: [PATCH 43/45] fix: a zero entity can be iterated over

---
 public/gal/entity.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/public/gal/entity.hpp b/public/gal/entity.hpp
index 51e696f..cc4aa79 100644
--- a/public/gal/entity.hpp
+++ b/public/gal/entity.hpp
@@ -183,12 +183,12 @@ struct entity<A, T>
         return nullptr;
     }
 
-    GAL_NODISCARD constexpr auto begin() noexcept
+    GAL_NODISCARD constexpr T* begin() noexcept
     {
         return nullptr;
     }
 
-    GAL_NODISCARD constexpr auto end() noexcept
+    GAL_NODISCARD constexpr T* end() noexcept
     {
         return nullptr;
     }
-- 
2.43.0


From dcdbc9d0363125bdafabc6b2992bedc6ac1a23f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:55 +0000
Subject: [PATCH 44/45] Revert "fix: the terms of an entity are ordered by
 element whatever order its elements are declared in"

This reverts commit 629fc2fec071445dbbb4f3733516b58bda091bd4.
---
 public/gal/entity.hpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/public/gal/entity.hpp b/public/gal/entity.hpp
index cc4aa79..7df37c8 100644
--- a/public/gal/entity.hpp
+++ b/public/gal/entity.hpp
@@ -19,18 +19,10 @@ namespace detail
     {
         constexpr size_t count = sizeof...(E);
 
-        mv<A, count, count, count> out{mv_size{count, count, count},
-                                       {ind{id + N, one}...},
-                                       {mon{one, one, 1, N}...},
-                                       {term{1, N, E}...}};
-        // The terms of a multivector are ordered by element, whatever order they are stored in
-        sort(out.terms.begin(), out.terms.end());
-        for (width_t i = 0; i != count; ++i)
-        {
-            out.inds[i].id          = id + out.terms[i].mon_offset;
-            out.terms[i].mon_offset = i;
-        }
-        return out;
+        return mv<A, count, count, count>{mv_size{count, count, count},
+                                          {ind{id + N, one}...},
+                                          {mon{one, one, 1, N}...},
+                                          {term{1, N, E}...}};
     }
 
     template <elem_t E, int16_t I, elem_t E1, elem_t... Es>
-- 
2.43.0


From 819d3584db18b9e0c636d4679a0e5465d8e8eab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:14 +0000
Subject: [PATCH 45/45] fix: a zero entity that is not const can be indexed

---
 public/gal/entity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/public/gal/entity.hpp b/public/gal/entity.hpp
index 7df37c8..b9eed63 100644
--- a/public/gal/entity.hpp
+++ b/public/gal/entity.hpp
@@ -190,7 +190,7 @@ struct entity<A, T>
         return {0};
     }
 
-    GAL_NODISCARD constexpr T& operator[](size_t index) noexcept
+    GAL_NODISCARD constexpr T operator[](size_t index) noexcept
     {
         return {0};
     }
-- 
2.43.0

