From b4a526510c16e1ebe66d658d52a84a45d8890483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:02 +0000
Subject: [PATCH 01/23] fix: bitwise operators declare a result range that can
 hold the result

The declared range of | & ^ assumed non-negative operands, so results of
negative operands lay outside the range of their own type (and purely
negative ranges did not compile).
---
 .../safe_numerics/safe_base_operations.hpp    | 98 +++++++++++++------
 1 file changed, 70 insertions(+), 28 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 985de91..9cd31d2 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1577,6 +1577,15 @@ constexpr inline operator>>(
 /////////////////////////////////////////////////////////////////
 // bitwise operators
 
+// The range of the result of a bitwise operator can be bounded by the ranges of
+// the operands only if the bit patterns considered are those of non-negative
+// values. This function answers the question whether a value of a given type
+// can be negative.
+template<class T>
+constexpr inline bool negative_possible(){
+    return base_value(std::numeric_limits<T>::min()) < 0;
+}
+
 // operator |
 template<class T, class U>
 struct bitwise_or_result {
@@ -1593,19 +1602,29 @@ private:
     using r_type_interval_t = interval<r_type>;
     using exception_policy = typename common_exception_policy<T, U>::type;
 
+    // if either operand is negative, so can be the result
+    constexpr static bool full_range =
+        negative_possible<T>() || negative_possible<U>();
+
+    constexpr static r_type max_value(){
+        return std::max(
+            static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
+            static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
+        );
+    }
+
 public:
     // lazy_enable_if_c depends on this
     using type = safe_base<
         result_base_type,
-        //r_interval.l,
-        r_type(0),
-        //r_interval.u,
-        utility::round_out(
-            std::max(
-                static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
-                static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
-            )
-        ),
+        full_range ?
+            std::numeric_limits<result_base_type>::min()
+        :
+            result_base_type(0),
+        full_range ?
+            std::numeric_limits<result_base_type>::max()
+        :
+            static_cast<result_base_type>(utility::round_out(max_value())),
         promotion_policy,
         exception_policy
     >;
@@ -1657,23 +1676,36 @@ private:
     using r_type_interval_t = interval<r_type>;
     using exception_policy = typename common_exception_policy<T, U>::type;
 
+    // the result is negative only if both operands are negative
+    constexpr static bool full_range =
+        negative_possible<T>() && negative_possible<U>();
+
+    constexpr static r_type max_value(){
+        constexpr const r_type t_max =
+            static_cast<r_type>(base_value(std::numeric_limits<T>::max()));
+        constexpr const r_type u_max =
+            static_cast<r_type>(base_value(std::numeric_limits<U>::max()));
+        return negative_possible<T>() ? u_max
+            : negative_possible<U>() ? t_max
+            : std::min(t_max, u_max);
+    }
+
 public:
     // lazy_enable_if_c depends on this
     using type = safe_base<
         result_base_type,
-        //r_interval.l,
-        r_type(0),
-        //r_interval.u,
-        utility::round_out(
-            std::min(
-                static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
-                static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
-            )
-        ),
+        full_range ?
+            std::numeric_limits<result_base_type>::min()
+        :
+            result_base_type(0),
+        full_range ?
+            std::numeric_limits<result_base_type>::max()
+        :
+            static_cast<result_base_type>(utility::round_out(max_value())),
         promotion_policy,
         exception_policy
     >;
-    
+
     constexpr static type return_value(const T & t, const U & u){
         return type(
             static_cast<result_base_type>(base_value(t))
@@ -1720,19 +1752,29 @@ struct bitwise_xor_result {
     using r_type_interval_t = interval<r_type>;
     using exception_policy = typename common_exception_policy<T, U>::type;
 
+    // if either operand is negative, so can be the result
+    constexpr static bool full_range =
+        negative_possible<T>() || negative_possible<U>();
+
+    constexpr static r_type max_value(){
+        return std::max(
+            static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
+            static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
+        );
+    }
+
 public:
     // lazy_enable_if_c depends on this
     using type = safe_base<
         result_base_type,
-        //r_interval.l,
-        r_type(0),
-        //r_interval.u,
-        utility::round_out(
-            std::max(
-                static_cast<r_type>(base_value(std::numeric_limits<T>::max())),
-                static_cast<r_type>(base_value(std::numeric_limits<U>::max()))
-            )
-        ),
+        full_range ?
+            std::numeric_limits<result_base_type>::min()
+        :
+            result_base_type(0),
+        full_range ?
+            std::numeric_limits<result_base_type>::max()
+        :
+            static_cast<result_base_type>(utility::round_out(max_value())),
         promotion_policy,
         exception_policy
     >;
-- 
2.43.0


From 334f445043fcd7ee10ce4eaf232ecd3714bbd5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:02 +0000
Subject: [PATCH 02/23] fix: modulus of the minimum value by itself is zero

checked::modulus returned the dividend whenever the divisor was the minimum
value of a signed type, also when the dividend was that same value.
---
 include/boost/safe_numerics/checked_integer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index 2893ca7..ddf61bf 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -550,7 +550,8 @@ struct checked_operation<R, F,
                 return t % u;
             checked_result<R> ux = checked::minus(u);
             if(ux.exception())
-                return t;
+                // u is the minimum value, only that value is divisible by it
+                return t == u ? static_cast<R>(0) : t;
             return t % static_cast<R>(ux);
         }
     }; // modulus_impl_detail
-- 
2.43.0


From 3a1823f78ddea03012f840015182661d64206080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:55 +0000
Subject: [PATCH 03/23] fix: shifting an unsigned value by its full width is
 reported

A shift by a number of bits equal to the width of the type is undefined
behaviour. The check compared with the number of digits, which for unsigned
types equals the width, so safe<unsigned>(5) >> 32 silently gave 5.
---
 include/boost/safe_numerics/checked_integer.hpp      | 11 +++++++++--
 include/boost/safe_numerics/safe_base_operations.hpp |  5 ++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index ddf61bf..2e89958 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -575,6 +575,13 @@ struct checked_operation<R, F,
     ///////////////////////////////////
     // shift operations
 
+    // the largest number of bits a value can be shifted. For types which are
+    // not promoted, shifting by the full width is undefined behavior.
+    constexpr static int max_shift =
+        std::numeric_limits<R>::digits < utility::bits_type<decltype(+R())>::value
+        ? std::numeric_limits<R>::digits
+        : utility::bits_type<R>::value - 1;
+
     struct left_shift_integer_detail {
 
         #if 0
@@ -682,7 +689,7 @@ struct checked_operation<R, F,
                "shifting negative amount"
             );
         }
-        if(u > std::numeric_limits<R>::digits){
+        if(safe_compare::greater_than(u, static_cast<int>(max_shift))){
             // behavior is undefined
             return F::template invoke<safe_numerics_error::shift_too_large>(
                "shifting more bits than available"
@@ -741,7 +748,7 @@ struct checked_operation<R, F,
                "shifting negative amount"
             );
         }
-        if(u > std::numeric_limits<R>::digits){
+        if(safe_compare::greater_than(u, static_cast<int>(max_shift))){
             // behavior is undefined
             return F::template invoke<safe_numerics_error::shift_too_large>(
                "shifting more bits than available"
diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 9cd31d2..acc549e 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1494,7 +1494,10 @@ struct right_shift_result {
         return static_cast<bool>(
             // note undesirable coupling with checked::shift right here !
             ui.u > checked_result<result_base_type>(
-                std::numeric_limits<result_base_type>::digits
+                checked_operation<
+                    result_base_type,
+                    dispatch_and_return<exception_policy, result_base_type>
+                >::max_shift
             )
             || ti.l < checked_result<result_base_type>(0)
             || ui.l < checked_result<result_base_type>(0)
-- 
2.43.0


From 56ca14e0cd94216a8217d71c08bdb1a6899430de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:59 +0000
Subject: [PATCH 04/23] fix: modulus results declare a range that contains them

The range of a modulus was computed from the limits of the operands' ranges
only. That gives for example [0,0] for [0,1000] % [10,20], so that safe values
outside of their own range were produced and later checks left out.
---
 include/boost/safe_numerics/automatic.hpp     | 16 +--------
 include/boost/safe_numerics/interval.hpp      | 35 +++++++++++++------
 .../safe_numerics/safe_base_operations.hpp    | 25 ++++---------
 3 files changed, 33 insertions(+), 43 deletions(-)

diff --git a/include/boost/safe_numerics/automatic.hpp b/include/boost/safe_numerics/automatic.hpp
index 16cebc2..d8c8008 100644
--- a/include/boost/safe_numerics/automatic.hpp
+++ b/include/boost/safe_numerics/automatic.hpp
@@ -256,21 +256,7 @@ public:
         };
 
         constexpr static r_interval_type rx(){
-            if(u_interval.u < r_type(0)
-            || u_interval.l > r_type(0))
-                return t_interval / u_interval;
-            return utility::minmax(
-                std::initializer_list<r_type> {
-                    t_interval.l % u_interval.l,
-                    t_interval.l % r_type(-1),
-                    t_interval.l % r_type(1),
-                    t_interval.l % u_interval.u,
-                    t_interval.u % u_interval.l,
-                    t_interval.u % r_type(-1),
-                    t_interval.u % r_type(1),
-                    t_interval.u % u_interval.u,
-                }
-            );
+            return t_interval % u_interval;
         }
 
         constexpr static const r_interval_type r_interval = rx();
diff --git a/include/boost/safe_numerics/interval.hpp b/include/boost/safe_numerics/interval.hpp
index c8a147e..a5977e6 100644
--- a/include/boost/safe_numerics/interval.hpp
+++ b/include/boost/safe_numerics/interval.hpp
@@ -138,19 +138,34 @@ constexpr inline interval<T> operator/(const interval<T> & t, const interval<T>
     );
 }
 
+// largest magnitude of the modulus for a denominator in a given interval
+template<typename T>
+constexpr inline T modulus_limit(const interval<T> & u){
+    if(static_cast<bool>(u.l > T(0)))
+        return u.u - T(1);
+    // note: -(u.l + 1) does not overflow even if u.l is the minimum value
+    if(static_cast<bool>(u.u < T(0)))
+        return -(u.l + T(1));
+    return static_cast<bool>(u.u - T(1) < -(u.l + T(1)))
+        ? -(u.l + T(1))
+        : u.u - T(1);
+}
+
 // modulus of two intervals.  This will give a new range of for the modulus.
-// note: presumes 0 is not included in the range of the denominator
+// The modulus has the sign of the numerator. Its magnitude is not larger than
+// that of the numerator and smaller than that of the denominator. So the range
+// isn't determined by the modulus of the limits of the intervals.
+// note: elements of the denominator which are equal to 0 are ignored
 template<typename T>
 constexpr inline interval<T> operator%(const interval<T> & t, const interval<T> & u){
-    assert(static_cast<bool>(u.excludes(T(0))));
-    return utility::minmax<T>(
-        std::initializer_list<T> {
-            t.l % u.l,
-            t.l % u.u,
-            t.u % u.l,
-            t.u % u.u
-        }
-    );
+    return {
+        static_cast<bool>(t.l < T(0))
+            ? static_cast<bool>(t.l < -modulus_limit(u)) ? -modulus_limit(u) : t.l
+            : T(0),
+        static_cast<bool>(t.u > T(0))
+            ? static_cast<bool>(modulus_limit(u) < t.u) ? modulus_limit(u) : t.u
+            : T(0)
+    };
 }
 
 template<typename T>
diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index acc549e..44d8504 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -974,24 +974,7 @@ private:
     };
 
     constexpr static const r_type_interval_t get_r_type_interval(){
-        constexpr const r_type_interval_t t = t_interval();
-        constexpr const r_type_interval_t u = u_interval();
-
-        if(u.u < r_type(0)
-        || u.l > r_type(0))
-            return t % u;
-        return utility::minmax(
-            std::initializer_list<r_type> {
-                t.l % u.l,
-                t.l % r_type(-1),
-                t.l % r_type(1),
-                t.l % u.u,
-                t.u % u.l,
-                t.u % r_type(-1),
-                t.u % r_type(1),
-                t.u % u.u,
-            }
-        );
+        return t_interval() % u_interval();
     }
 
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
@@ -1007,9 +990,15 @@ private:
 
     constexpr static bool exception_possible(){
         constexpr const r_type_interval_t ri = get_r_type_interval();
+        constexpr const r_type_interval_t ti = t_interval();
         constexpr const r_type_interval_t ui = u_interval();
         return
             static_cast<bool>(ui.includes(r_type(0)))
+            // operands which the result type cannot hold
+            || ti.l.exception()
+            || ti.u.exception()
+            || ui.l.exception()
+            || ui.u.exception()
             || ri.l.exception()
             || ri.u.exception();
     }
-- 
2.43.0


From b1933a8d9eb142c919642fe0901175ba6e3e0d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:04 +0000
Subject: [PATCH 05/23] fix: division checks operands which do not fit into the
 result type

With the automatic policy the result type of a division can be too small for
the divisor. The check was left out when the range of the quotient could be
determined, and the divisor was silently truncated - possibly to zero.
---
 include/boost/safe_numerics/safe_base_operations.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 44d8504..3f74dde 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -847,9 +847,15 @@ private:
 
     constexpr static bool exception_possible(){
         constexpr const r_type_interval_t ri = get_r_type_interval();
+        constexpr const r_type_interval_t ti = t_interval();
         constexpr const r_type_interval_t ui = u_interval();
         return
             static_cast<bool>(ui.includes(r_type(0)))
+            // operands which the result type cannot hold
+            || ti.l.exception()
+            || ti.u.exception()
+            || ui.l.exception()
+            || ui.u.exception()
             || ri.l.exception()
             || ri.u.exception();
     }
-- 
2.43.0


From 24e65da5cffdfd12456a91e23c3bb28be4c454b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:53 +0000
Subject: [PATCH 06/23] fix: shifts by possibly negative amounts are checked
 and have a correct range

The check for a negative shift amount was left out when the range of the
result could be determined from the limits of the operands. If the amount
cannot be converted to the type of the result at all, as in
safe<unsigned> >> safe<signed char>, the declared range was [0,0].
---
 .../safe_numerics/safe_base_operations.hpp    | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 3f74dde..b8e92d2 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1320,6 +1320,10 @@ private:
         };
         return (t_interval << u_interval);
     }
+    // true if the operand u can be a negative value
+    constexpr static bool u_negative_possible(){
+        return base_value(std::numeric_limits<U>::min()) < 0;
+    }
 
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
 
@@ -1333,6 +1337,8 @@ private:
     };
 
     constexpr static bool exception_possible(){
+        if(u_negative_possible())
+            return true;
         if(r_type_interval.l.exception())
             return true;
         if(r_type_interval.u.exception())
@@ -1467,8 +1473,16 @@ struct right_shift_result {
             checked::cast<result_base_type>(base_value(std::numeric_limits<U>::max()))
         );
     }
-    constexpr static r_type_interval_t get_r_type_interval(){;
-        return (t_interval() >> u_interval());
+    // true if the operand u can be a negative value
+    constexpr static bool u_negative_possible(){
+        return base_value(std::numeric_limits<U>::min()) < 0;
+    }
+    constexpr static r_type_interval_t get_r_type_interval(){
+        // a shift by a negative amount has no result
+        return t_interval() >> r_type_interval_t(
+            u_negative_possible() ? r_type(0) : u_interval().l,
+            u_interval().u
+        );
     }
 
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
@@ -1495,7 +1509,7 @@ struct right_shift_result {
                 >::max_shift
             )
             || ti.l < checked_result<result_base_type>(0)
-            || ui.l < checked_result<result_base_type>(0)
+            || u_negative_possible()
             || ri.l.exception()
             || ri.u.exception()
         );
-- 
2.43.0


From 55e946a75978d2464fa0a7459437b20500a31fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:50 +0000
Subject: [PATCH 07/23] fix: automatic right shift does not reject
 representable results

The result type was chosen for the shifted value only, so the value to be
shifted often didn't fit and a positive overflow was reported.
---
 include/boost/safe_numerics/automatic.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/safe_numerics/automatic.hpp b/include/boost/safe_numerics/automatic.hpp
index d8c8008..0623162 100644
--- a/include/boost/safe_numerics/automatic.hpp
+++ b/include/boost/safe_numerics/automatic.hpp
@@ -423,13 +423,19 @@ public:
         constexpr static auto rl = r_interval.l;
         constexpr static auto ru = r_interval.u;
 
+        // the type is that of the result, but must be able to hold the
+        // left operand as well.
         using type = typename result_type<
             temp_base_type,
             rl.exception()
                 ? std::numeric_limits<temp_base_type>::min()
+            : static_cast<bool>(t_interval.l < rl)
+                ? static_cast<temp_base_type>(t_interval.l)
                 : static_cast<temp_base_type>(rl),
             ru.exception()
                 ? std::numeric_limits<temp_base_type>::max()
+            : static_cast<bool>(ru < t_interval.u)
+                ? static_cast<temp_base_type>(t_interval.u)
                 : static_cast<temp_base_type>(ru)
         >::type;
 
-- 
2.43.0


From 9e0542d0819578aae11d44f05116e7a6f779d8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:36 +0000
Subject: [PATCH 08/23] fix: ignored overflow of a subtraction does not yield a
 sum

---
 include/boost/safe_numerics/safe_base_operations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index b8e92d2..3bbcab6 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -530,7 +530,7 @@ private:
 
         return
             rx.exception()
-            ? r.first + r.second
+            ? r.first - r.second
             : rx.m_contents.m_r;
     }
     using r_type_interval_t = interval<r_type>;
-- 
2.43.0


From 133e5dc338fc0d10799e438e24f0b70ec42079d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:21 +0000
Subject: [PATCH 09/23] fix: ignored conversion errors yield the converted
 value

If the exception policy ignores an error, the result of a failed conversion
was made of the bytes of the address of the error message. In a binary
operation the conversion of the operand was done, and reported, twice.
---
 include/boost/safe_numerics/safe_base_operations.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 3bbcab6..255df81 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -115,7 +115,9 @@ struct validate_detail {
                 dispatch_and_return<E, R>
             >::cast(t);
 
-            return rx;
+            return rx.exception()
+                ? static_cast<R>(base_value(t))
+                : rx.m_contents.m_r;
         }
     };
     struct exception_not_possible {
@@ -340,7 +342,7 @@ constexpr inline static std::pair<R, R> casting_helper(const T & t, const U & u)
         dispatch_and_return<EP, R>
     >::cast(base_value(t));
     const R tr = tx.exception()
-        ? static_cast<R>(t)
+        ? static_cast<R>(base_value(t))
         : tx.m_contents.m_r;
 
     const r_type ux = heterogeneous_checked_operation<
@@ -351,7 +353,7 @@ constexpr inline static std::pair<R, R> casting_helper(const T & t, const U & u)
         dispatch_and_return<EP, R>
     >::cast(base_value(u));
     const R ur = ux.exception()
-        ? static_cast<R>(u)
+        ? static_cast<R>(base_value(u))
         : ux.m_contents.m_r;
     return std::pair<R, R>(tr, ur);
 }
-- 
2.43.0


From 88754ddb7b7782a853f5eac307c8b67c67bcbbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:44 +0000
Subject: [PATCH 10/23] fix: unsigned values below the range of the target are
 a negative overflow

---
 include/boost/safe_numerics/checked_integer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/checked_integer.hpp b/include/boost/safe_numerics/checked_integer.hpp
index 2e89958..401ec40 100644
--- a/include/boost/safe_numerics/checked_integer.hpp
+++ b/include/boost/safe_numerics/checked_integer.hpp
@@ -91,7 +91,7 @@ struct heterogeneous_checked_operation<
                 )
             :
             boost::safe_numerics::safe_compare::less_than(t, Min) ?
-                F::template invoke<safe_numerics_error::positive_overflow_error>(
+                F::template invoke<safe_numerics_error::negative_overflow_error>(
                     "converted unsigned value too small"
                 )
             :
@@ -113,7 +113,7 @@ struct heterogeneous_checked_operation<
                 )
             :
             boost::safe_numerics::safe_compare::less_than(t, Min) ?
-                F::template invoke<safe_numerics_error::positive_overflow_error>(
+                F::template invoke<safe_numerics_error::negative_overflow_error>(
                     "converted unsigned value too small"
                 )
             :
-- 
2.43.0


From 2f50c25ad25f8a09c9fdd569f7eccabea0f65845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:33 +0000
Subject: [PATCH 11/23] fix: precision_overflow_error belongs to the group of
 arithmetic errors

---
 include/boost/safe_numerics/exception.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/safe_numerics/exception.hpp b/include/boost/safe_numerics/exception.hpp
index 19cda01..82b03f1 100644
--- a/include/boost/safe_numerics/exception.hpp
+++ b/include/boost/safe_numerics/exception.hpp
@@ -172,6 +172,7 @@ public:
                 || code == safe_numerics_error::negative_overflow_error
                 || code == safe_numerics_error::underflow_error
                 || code == safe_numerics_error::range_error
+                || code == safe_numerics_error::precision_overflow_error
                 || code == safe_numerics_error::domain_error;
         case safe_numerics_actions::implementation_defined_behavior:
             return code == safe_numerics_error::negative_value_shift
-- 
2.43.0


From 2a5394bf8529ddf2584515b3d6cdad3bd8f3feb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:27 +0000
Subject: [PATCH 12/23] fix: error codes compare equal in different translation
 units

The error categories were objects defined in a header, one for each translation
unit. As std::error_code compares categories by address, an exception thrown in
one translation unit was not recognised in another one.
---
 include/boost/safe_numerics/exception.hpp | 27 +++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/include/boost/safe_numerics/exception.hpp b/include/boost/safe_numerics/exception.hpp
index 82b03f1..e15cb7d 100644
--- a/include/boost/safe_numerics/exception.hpp
+++ b/include/boost/safe_numerics/exception.hpp
@@ -81,8 +81,20 @@ namespace std {
 namespace boost {
 namespace safe_numerics {
 
-const class : public std::error_category {
+// Error codes are compared by the address of their category. So there must be
+// only one object of each category in a program. An object defined in a header
+// would be a different one for every translation unit. So make it a static
+// member of a template.
+template<class Category>
+struct error_category_instance {
+    static const Category value;
+};
+template<class Category>
+const Category error_category_instance<Category>::value{};
+
+class safe_numerics_error_category_type : public std::error_category {
 public:
+    constexpr safe_numerics_error_category_type() noexcept = default;
     virtual const char* name() const noexcept{
         return "safe numerics error";
     }
@@ -115,7 +127,10 @@ public:
         }
         return ""; // suppress bogus warning
     }
-} safe_numerics_error_category {};
+};
+
+static const std::error_category & safe_numerics_error_category =
+    error_category_instance<safe_numerics_error_category_type>::value;
 
 // constexpr - damn, can't use constexpr due to std::error_code
 inline std::error_code make_error_code(const safe_numerics_error & e){
@@ -146,8 +161,9 @@ namespace std {
 namespace boost {
 namespace safe_numerics {
 
-const class : public std::error_category {
+class safe_numerics_actions_category_type : public std::error_category {
 public:
+    constexpr safe_numerics_actions_category_type() noexcept = default;
     virtual const char* name() const noexcept {
         return "safe numerics error group";
     }
@@ -188,7 +204,10 @@ public:
         // suppress bogus warning
         return false; 
     }
-} safe_numerics_actions_category {};
+};
+
+static const std::error_category & safe_numerics_actions_category =
+    error_category_instance<safe_numerics_actions_category_type>::value;
 
 // the following function is used to "finish" implementation of conversion
 // of safe_numerics_error to std::error_condition.  At least for now, this
-- 
2.43.0


From 8da296851955706d7783834da3e261beea4ff58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:39 +0000
Subject: [PATCH 13/23] fix: failed input does not change the value

Input was stored before it was validated, so a safe value could be left outside
of its range after the error had been reported. Failures of the stream were
not even noticed for character types, an uninitialized value was stored.
---
 .../safe_numerics/safe_base_operations.hpp    | 63 +++++++++----------
 1 file changed, 31 insertions(+), 32 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 255df81..c329e5f 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1866,40 +1866,39 @@ template<
 inline void safe_base<T, Min, Max, P, E>::input(
     std::basic_istream<CharT, Traits> & is
 ){
-    if(std::is_same<T, signed char>::value
-    || std::is_same<T, unsigned char>::value
-    || std::is_same<T, wchar_t>::value
-    ){
-        int x;
-        is >> x;
-        m_t = validated_cast(x);
-    }
-    else{
-        if(std::is_unsigned<T>::value){
-            // reading a negative number into an unsigned variable cannot result in
-            // a correct result.  But, C++ reads the absolute value, multiplies
-            // it by -1 and stores the resulting value.  This is crazy - but there
-            // it is!  Oh, and it doesn't set the failbit. We fix this behavior here
-            is >> std::ws;
-            int x = is.peek();
-            // if the input string starts with a '-', we know its an error
-            if(x == '-'){
-                // set fail bit
-                is.setstate(std::ios_base::failbit);
-            }
-        }
-        is >> m_t;
-        if(is.fail()){
-            boost::safe_numerics::dispatch<
-                E,
-                boost::safe_numerics::safe_numerics_error::domain_error
-            >(
-                "error in file input"
-            );
+    // character types are read as numbers
+    constexpr const bool is_character =
+        std::is_same<T, signed char>::value
+        || std::is_same<T, unsigned char>::value
+        || std::is_same<T, wchar_t>::value;
+
+    if(! is_character && std::is_unsigned<T>::value){
+        // reading a negative number into an unsigned variable cannot result in
+        // a correct result.  But, C++ reads the absolute value, multiplies
+        // it by -1 and stores the resulting value.  This is crazy - but there
+        // it is!  Oh, and it doesn't set the failbit. We fix this behavior here
+        is >> std::ws;
+        int x = is.peek();
+        // if the input string starts with a '-', we know its an error
+        if(x == '-'){
+            // set fail bit
+            is.setstate(std::ios_base::failbit);
         }
-        else
-            validated_cast(m_t);
     }
+    // don't touch the current value until we know that we have got a valid one
+    typename std::conditional<is_character, int, T>::type x = m_t;
+    is >> x;
+    if(is.fail()){
+        boost::safe_numerics::dispatch<
+            E,
+            boost::safe_numerics::safe_numerics_error::domain_error
+        >(
+            "error in file input"
+        );
+        m_t = static_cast<T>(x);
+    }
+    else
+        m_t = validated_cast(x);
 }
 
 } // safe_numerics
-- 
2.43.0


From 2d0270e03cc218e64c3754d56864d423b6d7c9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:20 +0000
Subject: [PATCH 14/23] fix: safe<char> is read as a number

as it is written as a number already.
---
 include/boost/safe_numerics/safe_base_operations.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index c329e5f..e88fa87 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1868,7 +1868,8 @@ inline void safe_base<T, Min, Max, P, E>::input(
 ){
     // character types are read as numbers
     constexpr const bool is_character =
-        std::is_same<T, signed char>::value
+        std::is_same<T, char>::value
+        || std::is_same<T, signed char>::value
         || std::is_same<T, unsigned char>::value
         || std::is_same<T, wchar_t>::value;
 
-- 
2.43.0


From 023d81c6b80929daae97960824959fa330276700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:15 +0000
Subject: [PATCH 15/23] fix: unsigned input honors the skipws flag

White space in front of a number was skipped always, and the end of the file
was reported before the extraction took place.
---
 include/boost/safe_numerics/safe_base_operations.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index e88fa87..6b5a05e 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1878,10 +1878,10 @@ inline void safe_base<T, Min, Max, P, E>::input(
         // a correct result.  But, C++ reads the absolute value, multiplies
         // it by -1 and stores the resulting value.  This is crazy - but there
         // it is!  Oh, and it doesn't set the failbit. We fix this behavior here
-        is >> std::ws;
-        int x = is.peek();
+        // note that white space is skipped only if built-in input does it
+        const typename std::basic_istream<CharT, Traits>::sentry s(is);
         // if the input string starts with a '-', we know its an error
-        if(x == '-'){
+        if(s && is.peek() == '-'){
             // set fail bit
             is.setstate(std::ios_base::failbit);
         }
-- 
2.43.0


From af08645808ea52a167b6119f0b9a7b05d0cd0a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:22 +0000
Subject: [PATCH 16/23] fix: safe<short> is written like a short

Short types were promoted to int first. So negative values in base 8 or 16
and the sign of unsigned values looked different from what the built-in types
yield.
---
 .../safe_numerics/safe_base_operations.hpp    | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 6b5a05e..96abe27 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1841,15 +1841,20 @@ template<
 inline void safe_base<T, Min, Max, P, E>::output(
     std::basic_ostream<CharT, Traits> & os
 ) const {
-    os << (
-        (std::is_same<T, signed char>::value
-        || std::is_same<T, unsigned char>::value
-        || std::is_same<T, wchar_t>::value
-        ) ?
-            static_cast<int>(m_t)
-        :
-            m_t
-    );
+    // character types are written as numbers. Other types are not promoted
+    // as this would change the appearance of negative numbers.
+    os << static_cast<
+        typename std::conditional<
+            std::is_same<T, char>::value
+            || std::is_same<T, signed char>::value
+            || std::is_same<T, unsigned char>::value
+            || std::is_same<T, wchar_t>::value
+            || std::is_same<T, char16_t>::value
+            || std::is_same<T, char32_t>::value,
+            decltype(+m_t),
+            T
+        >::type
+    >(m_t);
 }
 
 template<
-- 
2.43.0


From dbeb855254f3d969fcc16041b459020f34ff87ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:21 +0000
Subject: [PATCH 17/23] fix: operator ~ of a checked result compiles

---
 include/boost/safe_numerics/checked_result_operations.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/checked_result_operations.hpp b/include/boost/safe_numerics/checked_result_operations.hpp
index f5b8f9a..ac60442 100644
--- a/include/boost/safe_numerics/checked_result_operations.hpp
+++ b/include/boost/safe_numerics/checked_result_operations.hpp
@@ -777,8 +777,10 @@ typename std::enable_if<
 constexpr inline operator~(
     const checked_result<T> & t
 ){
-//    assert(false);
-    return ~t.m_r;
+    return
+        t.exception()
+        ? checked_result<T>(safe_numerics_error::range_error)
+        : checked::bitwise_not<T>(static_cast<T>(t));
 }
 
 template<class T>
-- 
2.43.0


From 3c9da5f0f98a1e4171c0ee18b6ba8c413ef959d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:36 +0000
Subject: [PATCH 18/23] fix: shifting a negative checked result to the minimum
 value is no overflow

---
 include/boost/safe_numerics/checked_result_operations.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/safe_numerics/checked_result_operations.hpp b/include/boost/safe_numerics/checked_result_operations.hpp
index ac60442..a44cb23 100644
--- a/include/boost/safe_numerics/checked_result_operations.hpp
+++ b/include/boost/safe_numerics/checked_result_operations.hpp
@@ -894,12 +894,13 @@ constexpr inline operator<<(
         return t;
     }
     else
-    if(6 == i){ // - (-t << u)
+    if(6 == i){ // t * 2 << (u - 1)
         assert(static_cast<bool>(t < checked_result<T>(0)));
         assert(static_cast<bool>(u > checked_result<T>(0)));
         const checked_result<T> temp_t = t * checked_result<T>(2);
         const checked_result<T> temp_u = u - checked_result<T>(1);
-        return  - (-temp_t << temp_u);
+        // don't negate, the result may be the minimum value
+        return temp_t << temp_u;
     }
     else
     if(7 == i){  // t >> -u
-- 
2.43.0


From 2c51f69996b9d30c9be7e814861c13355cc8f332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:11 +0000
Subject: [PATCH 19/23] fix: error codes can be compared with groups of errors

---
 include/boost/safe_numerics/exception.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/boost/safe_numerics/exception.hpp b/include/boost/safe_numerics/exception.hpp
index e15cb7d..bec34f3 100644
--- a/include/boost/safe_numerics/exception.hpp
+++ b/include/boost/safe_numerics/exception.hpp
@@ -209,18 +209,14 @@ public:
 static const std::error_category & safe_numerics_actions_category =
     error_category_instance<safe_numerics_actions_category_type>::value;
 
-// the following function is used to "finish" implementation of conversion
-// of safe_numerics_error to std::error_condition.  At least for now, this
-// isn't being used and defining here it can lead duplicate symbol errors
-// depending on the compiler.  So suppress it until further notice
-#if 0
-std::error_condition make_error_condition(const safe_numerics_error & e) {
+// conversion of a group of errors to std::error_condition. This is found by
+// argument dependent lookup when an error code is compared with a group.
+inline std::error_condition make_error_condition(const safe_numerics_actions & a){
     return std::error_condition(
-        static_cast<int>(e),
-        safe_numerics_error_category
+        static_cast<int>(a),
+        safe_numerics_actions_category
     );
 }
-#endif
 
 } // safe_numerics
 } // boost
-- 
2.43.0


From 340b156a5992c20f95cc1c95c00859f13f823d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:51 +0000
Subject: [PATCH 20/23] fix: quotient of operands too large for its type is in
 the range of its type

---
 .../safe_numerics/safe_base_operations.hpp    | 56 +++++++++++--------
 1 file changed, 34 insertions(+), 22 deletions(-)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 96abe27..6980dce 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -754,14 +754,6 @@ private:
     using result_base_type =
         typename promotion_policy::template division_result<T, U>::type;
 
-    // if exception not possible
-    constexpr static result_base_type
-    return_value(const T & t, const U & u, std::false_type){
-        return
-            static_cast<result_base_type>(base_value(t))
-            / static_cast<result_base_type>(base_value(u));
-    }
-
     // if exception possible
     using exception_policy = typename common_exception_policy<T, U>::type;
 
@@ -774,15 +766,26 @@ private:
         }) + (std::numeric_limits<result_base_type>::is_signed ? 1 : 0)
     );
 
-    using r_type = checked_result<result_base_type>;
+    // the operands may not fit into the type of the result
+    using temp_base = typename std::conditional<
+        std::numeric_limits<result_base_type>::is_signed,
+        typename boost::int_t<bits>::least,
+        typename boost::uint_t<bits>::least
+    >::type;
+
+    // if exception not possible
+    constexpr static result_base_type
+    return_value(const T & t, const U & u, std::false_type){
+        return static_cast<result_base_type>(
+            static_cast<temp_base>(base_value(t))
+            / static_cast<temp_base>(base_value(u))
+        );
+    }
+
+    using r_type = checked_result<temp_base>;
 
     constexpr static result_base_type
     return_value(const T & t, const U & u, std::true_type){
-        using temp_base = typename std::conditional<
-            std::numeric_limits<result_base_type>::is_signed,
-            typename boost::int_t<bits>::least,
-            typename boost::uint_t<bits>::least
-        >::type;
         using t_type = checked_result<temp_base>;
 
         const std::pair<t_type, t_type> r = casting_helper<
@@ -804,15 +807,15 @@ private:
 
     constexpr static r_type_interval_t t_interval(){
         return r_type_interval_t{
-            checked::cast<result_base_type>(base_value(std::numeric_limits<T>::min())),
-            checked::cast<result_base_type>(base_value(std::numeric_limits<T>::max()))
+            checked::cast<temp_base>(base_value(std::numeric_limits<T>::min())),
+            checked::cast<temp_base>(base_value(std::numeric_limits<T>::max()))
         };
     };
 
     constexpr static r_type_interval_t u_interval(){
         return r_type_interval_t{
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::min())),
-            checked::cast<result_base_type>(base_value(std::numeric_limits<U>::max()))
+            checked::cast<temp_base>(base_value(std::numeric_limits<U>::min())),
+            checked::cast<temp_base>(base_value(std::numeric_limits<U>::max()))
         };
     };
 
@@ -838,13 +841,22 @@ private:
 
     constexpr static const r_type_interval_t r_type_interval = get_r_type_interval();
 
+    using result_type = checked_result<result_base_type>;
+
+    constexpr static result_type
+    limit(const r_type & r){
+        return r.exception()
+            ? result_type(safe_numerics_error::domain_error, "")
+            : checked::cast<result_base_type>(static_cast<temp_base>(r));
+    }
+
     constexpr static const interval<result_base_type> return_interval{
-        r_type_interval.l.exception()
+        limit(r_type_interval.l).exception()
             ? std::numeric_limits<result_base_type>::min()
-            : static_cast<result_base_type>(r_type_interval.l),
-        r_type_interval.u.exception()
+            : static_cast<result_base_type>(limit(r_type_interval.l)),
+        limit(r_type_interval.u).exception()
             ? std::numeric_limits<result_base_type>::max()
-            : static_cast<result_base_type>(r_type_interval.u)
+            : static_cast<result_base_type>(limit(r_type_interval.u))
     };
 
     constexpr static bool exception_possible(){
-- 
2.43.0


From bc24ac40f1a7614049cbe8f8990a26463dac10a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:33:22 +0000
Subject: [PATCH 21/23] fix: automatic policy: sums, differences and products
 have a type which can hold the operands

---
 include/boost/safe_numerics/automatic.hpp | 56 +++++++++++++++--------
 1 file changed, 38 insertions(+), 18 deletions(-)

diff --git a/include/boost/safe_numerics/automatic.hpp b/include/boost/safe_numerics/automatic.hpp
index 0623162..fd6f68a 100644
--- a/include/boost/safe_numerics/automatic.hpp
+++ b/include/boost/safe_numerics/automatic.hpp
@@ -11,6 +11,7 @@
 // to avoid overflows.
 
 #include <limits>
+#include <algorithm>   // min, max
 #include <cstdint>     // (u)intmax_t,
 #include <type_traits> // conditional
 #include <boost/integer.hpp>
@@ -49,6 +50,37 @@ private:
         >::type::template type<Min, Max>;
     };
 
+    // The operands are converted to the type of the result before the operation
+    // is carried out. So this type has to be able to hold the operands as well
+    // as the result.
+    template<typename R>
+    constexpr static R
+    lowest(
+        const checked_result<R> & r,
+        const checked_result<R> & t,
+        const checked_result<R> & u
+    ){
+        return r.exception() || t.exception() || u.exception()
+            ? std::numeric_limits<R>::min()
+            : std::min({
+                static_cast<R>(r), static_cast<R>(t), static_cast<R>(u)
+            });
+    }
+
+    template<typename R>
+    constexpr static R
+    highest(
+        const checked_result<R> & r,
+        const checked_result<R> & t,
+        const checked_result<R> & u
+    ){
+        return r.exception() || t.exception() || u.exception()
+            ? std::numeric_limits<R>::max()
+            : std::max({
+                static_cast<R>(r), static_cast<R>(t), static_cast<R>(u)
+            });
+    }
+
 public:
     ///////////////////////////////////////////////////////////////////////
     template<typename T, typename U>
@@ -83,12 +115,8 @@ public:
 
         using type = typename result_type<
             temp_base_type,
-            rl.exception()
-                ? std::numeric_limits<temp_base_type>::min()
-                : static_cast<temp_base_type>(rl),
-            ru.exception()
-                ? std::numeric_limits<temp_base_type>::max()
-                : static_cast<temp_base_type>(ru)
+            lowest<temp_base_type>(rl, t_interval.l, u_interval.l),
+            highest<temp_base_type>(ru, t_interval.u, u_interval.u)
         >::type;
     };
 
@@ -118,12 +146,8 @@ public:
 
         using type = typename result_type<
             temp_base_type,
-            rl.exception()
-                ? std::numeric_limits<temp_base_type>::min()
-                : static_cast<temp_base_type>(rl),
-            ru.exception()
-                ? std::numeric_limits<temp_base_type>::max()
-                : static_cast<temp_base_type>(ru)
+            lowest<temp_base_type>(rl, t_interval.l, u_interval.l),
+            highest<temp_base_type>(ru, t_interval.u, u_interval.u)
         >::type;
     };
 
@@ -160,12 +184,8 @@ public:
 
         using type = typename result_type<
             temp_base_type,
-            rl.exception()
-                ? std::numeric_limits<temp_base_type>::min()
-                : static_cast<temp_base_type>(rl),
-            ru.exception()
-                ? std::numeric_limits<temp_base_type>::max()
-                : static_cast<temp_base_type>(ru)
+            lowest<temp_base_type>(rl, t_interval.l, u_interval.l),
+            highest<temp_base_type>(ru, t_interval.u, u_interval.u)
         >::type;
     };
 
-- 
2.43.0


From 0dc362eeca30612f0eeb8ab5694adfbd39f56773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:34:53 +0000
Subject: [PATCH 22/23] fix: the remainder of the lowest value and -1 does not
 execute the undefined built-in operation

---
 include/boost/safe_numerics/safe_base_operations.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index 6980dce..b3cd903 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1014,6 +1014,15 @@ private:
         constexpr const r_type_interval_t ui = u_interval();
         return
             static_cast<bool>(ui.includes(r_type(0)))
+            // the remainder of the lowest value and -1 is zero, but the
+            // built-in operation is undefined behavior
+            || (std::numeric_limits<result_base_type>::is_signed
+                && static_cast<bool>(ti.includes(
+                    r_type(std::numeric_limits<result_base_type>::min())
+                ))
+                && static_cast<bool>(ui.includes(
+                    r_type(static_cast<result_base_type>(-1))
+                )))
             // operands which the result type cannot hold
             || ti.l.exception()
             || ti.u.exception()
-- 
2.43.0


From 97032e8f47b7906aea8f0743d813f1e80f5e5802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:35 +0000
Subject: [PATCH 23/23] fix: a left shift by more bits than there are is
 reported also if only zero can be shifted

---
 include/boost/safe_numerics/safe_base_operations.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/boost/safe_numerics/safe_base_operations.hpp b/include/boost/safe_numerics/safe_base_operations.hpp
index b3cd903..8fa2d3f 100644
--- a/include/boost/safe_numerics/safe_base_operations.hpp
+++ b/include/boost/safe_numerics/safe_base_operations.hpp
@@ -1362,6 +1362,12 @@ private:
     constexpr static bool exception_possible(){
         if(u_negative_possible())
             return true;
+        // zero can be shifted by an amount which is undefined behavior
+        if(safe_compare::greater_than(
+            base_value(std::numeric_limits<U>::max()),
+            static_cast<int>(checked_operation<result_base_type>::max_shift)
+        ))
+            return true;
         if(r_type_interval.l.exception())
             return true;
         if(r_type_interval.u.exception())
-- 
2.43.0

