From 1557a29ee606ad5b7fd83b1a750332a822026704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 1/3] fix: check for zero coefficients when symbol merging
 converts the coefficient type

---
 include/obake/series.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index 6c3a890..fbb19e3 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -569,7 +569,7 @@ inline void series_sym_extender(To &to, From &&from, const symbol_idx_map<symbol
     // coincide (i.e., no cf conversion takes place),
     // otherwise the conversion might generate zeroes.
     constexpr auto check_zero
-        = static_cast<sat_check_zero>(::std::is_same_v<series_cf_t<To>, series_cf_t<remove_cvref_t<From>>>);
+        = static_cast<sat_check_zero>(!::std::is_same_v<series_cf_t<To>, series_cf_t<remove_cvref_t<From>>>);
 
     // Merge the terms, distinguishing the segmented vs non-segmented case.
     if (from_log2_size) {
-- 
2.43.0


From 3779d3ef56ea24ca209ce3d63f60822a3a5a2f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:45 +0000
Subject: [PATCH 2/3] fix: truncate integrals of power series whose coefficient
 type changes

---
 include/obake/power_series/power_series.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/obake/power_series/power_series.hpp b/include/obake/power_series/power_series.hpp
index 2883568..08cf457 100644
--- a/include/obake/power_series/power_series.hpp
+++ b/include/obake/power_series/power_series.hpp
@@ -1418,21 +1418,23 @@ inline polynomials::detail::poly_diff_ret_t<T &&> diff(T &&x, const ::std::strin
 // Integrate.
 // NOTE: we will be using poly's implementation, which
 // is currently based on arithmetic operations and term insertions.
-// In the latter case, we need explicit truncation because integration
+// In both cases, we need explicit truncation because integration
 // may end up increasing the degree. Note that if integrate is not done
 // via term insertion, there may be corner cases in which the return
-// value is not truncated even if x is. If this becomes a problem,
-// we can enable this specialisation only for some values of integrate_algo.
+// value is not truncated even if x is (e.g., empty x).
+// If this becomes a problem, we can enable this specialisation only
+// for some values of integrate_algo.
 template <typename T>
     requires any_p_series<remove_cvref_t<T>> && (polynomials::detail::poly_integrate_algo<T &&> != 0)
 inline polynomials::detail::poly_integrate_ret_t<T &&> integrate(T &&x, const ::std::string &s)
 {
     auto ret = polynomials::detail::poly_integrate_impl(::std::forward<T>(x), s);
 
-    if constexpr (::std::is_same_v<decltype(ret), remove_cvref_t<T>>) {
-        // NOTE: if the return type matches the input type,
-        // then the result was calculated via repeated term insertions
-        // and we need to explicitly truncate.
+    if constexpr (any_p_series<decltype(ret)>) {
+        // NOTE: if the return type is a power series, we need
+        // to explicitly truncate: neither the repeated term insertions
+        // nor the accumulation of truncated series of equal
+        // truncation take care of it.
         ::obake::truncate(ret);
     }
 
-- 
2.43.0


From cfe678e5d67458016bb9143a97f50521705e4f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:23 +0000
Subject: [PATCH 3/3] fix: keep the brackets of the coefficient when a one-term
 series is printed as a coefficient

A series with a single term, whose key is unitary and whose coefficient is a
sum, was printed without brackets also when it is itself a coefficient: in
three nested polynomials, (a+b)*z was printed as a+b*z.
---
 include/obake/series.hpp | 14 ++++++++++----
 src/series.cpp           |  5 +++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/obake/series.hpp b/include/obake/series.hpp
index fbb19e3..0568583 100644
--- a/include/obake/series.hpp
+++ b/include/obake/series.hpp
@@ -1981,11 +1981,14 @@ namespace detail
 {
 
 // Implementation of the default streaming for a single term.
-OBAKE_DLL_PUBLIC void series_stream_single_term(::std::string &, ::std::string &, const ::std::string &, bool);
+OBAKE_DLL_PUBLIC void series_stream_single_term(::std::string &, ::std::string &, const ::std::string &, bool,
+                                                bool = true);
 
 // Implementation of the default streaming to os of a series' terms.
+// NOTE: strip_brackets indicates whether or not the brackets enclosing
+// the coefficient of a term with unitary key can be removed.
 template <bool TexMode, typename T>
-inline void series_stream_terms_impl(::std::ostream &os, const T &s)
+inline void series_stream_terms_impl(::std::ostream &os, const T &s, bool strip_brackets = true)
 {
     if (s.empty()) {
         // Special-case an empty series.
@@ -2026,7 +2029,7 @@ inline void series_stream_terms_impl(::std::ostream &os, const T &s)
         const auto str_key = oss.str();
 
         // Print the term.
-        detail::series_stream_single_term(ret, str_cf, str_key, TexMode);
+        detail::series_stream_single_term(ret, str_cf, str_key, TexMode, strip_brackets);
 
         // Increase the counters.
         ++count;
@@ -2088,7 +2091,10 @@ struct series_default_cf_stream_insert_impl {
             detail::series_stream_terms_impl<false>(os, x);
             os << ')';
         } else {
-            detail::series_stream_terms_impl<false>(os, x);
+            // NOTE: with a single term there are no enclosing brackets,
+            // thus keep those of the coefficient (e.g., in a series
+            // whose coefficients are series themselves).
+            detail::series_stream_terms_impl<false>(os, x, false);
         }
     }
 };
diff --git a/src/series.cpp b/src/series.cpp
index 4b053be..c73f110 100644
--- a/src/series.cpp
+++ b/src/series.cpp
@@ -19,7 +19,8 @@ namespace detail
 {
 
 // Implementation of the default streaming for a single term.
-void series_stream_single_term(::std::string &ret, ::std::string &str_cf, const ::std::string &str_key, bool tex_mode)
+void series_stream_single_term(::std::string &ret, ::std::string &str_cf, const ::std::string &str_key, bool tex_mode,
+                               bool strip_brackets)
 {
     // Detect unitary cf/key.
     const bool cf_is_one = (str_cf == "1"), cf_is_minus_one = (str_cf == "-1"), key_is_one = (str_key == "1");
@@ -32,7 +33,7 @@ void series_stream_single_term(::std::string &ret, ::std::string &str_cf, const
         // Turn the coefficient into a minus sign
         // if it is -1 and the key is not "1".
         str_cf = '-';
-    } else if (key_is_one && str_cf.size() > 2u && str_cf.front() == '(' && str_cf.back() == ')') {
+    } else if (strip_brackets && key_is_one && str_cf.size() > 2u && str_cf.front() == '(' && str_cf.back() == ')') {
         // If the key is unitary, and the coefficient
         // consists of something enclosed in round brackets,
         // then remove them.
-- 
2.43.0

