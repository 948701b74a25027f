From 32b3b4b5e308ddcd6c251b3f21a61ab4d25f48cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:42 +0000
Subject: [PATCH 01/11] fix: number capturing groups inside alternations
 consecutively

Every branch of an alternation was indexed from the same offset, so (a)|(b)
numbered both groups 1 (and did not compile when the groups had names).
---
 include/mregex/ast/indexing.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/mregex/ast/indexing.hpp b/include/mregex/ast/indexing.hpp
index 26b3b81..5bb595e 100644
--- a/include/mregex/ast/indexing.hpp
+++ b/include/mregex/ast/indexing.hpp
@@ -60,6 +60,15 @@ namespace meta::ast
                 }(inner_offsets{}));
             };
 
+            template<typename... Nodes>
+            struct index<alternation<Nodes ...>>
+            {
+                using inner_offsets = capture_index_offsets_t<Offset, capture_count<Nodes> ...>;
+                using type = decltype([]<std::size_t... Offsets>(std::index_sequence<Offsets ...>) {
+                    return alternation<typename capture_indexer<Offsets>::template index<Nodes>::type ...>{};
+                }(inner_offsets{}));
+            };
+
             template<typename Node>
             using index_t = typename index<Node>::type;
         };
-- 
2.43.0


From d1d1845c97d9626563970bf7d99aa5fdf2e038a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:52 +0000
Subject: [PATCH 02/11] fix: keep the last capture of a group when a later
 attempt fails

A failed attempt to match a group cleared what an earlier successful iteration
had captured, so (abc)+d reported an empty group 1.
---
 include/mregex/ast/nodes/capture.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/mregex/ast/nodes/capture.hpp b/include/mregex/ast/nodes/capture.hpp
index e1e55df..49f21f6 100644
--- a/include/mregex/ast/nodes/capture.hpp
+++ b/include/mregex/ast/nodes/capture.hpp
@@ -20,13 +20,15 @@ namespace meta::ast
         -> match_result<Iter>
         {
             auto continuation = [=, &ctx, &cont](Iter next) noexcept -> match_result<Iter> {
+                // If the rest of the regex fails, the previously captured content must be preserved
+                auto const previous_capture = std::get<ID>(ctx.captures);
                 capture_matched_range(current, next, ctx);
-                return cont(next);
+                if (auto rest_match = cont(next))
+                    return rest_match;
+                std::get<ID>(ctx.captures) = previous_capture;
+                return non_match(current);
             };
-            if (auto inner_match = Inner::match(begin, end, current, ctx, continuation))
-                return inner_match;
-            std::get<ID>(ctx.captures).clear();
-            return non_match(current);
+            return Inner::match(begin, end, current, ctx, continuation);
         }
 
     private:
-- 
2.43.0


From 786331ece0fc56889cc24a9e50638339c4fe0b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:59 +0000
Subject: [PATCH 03/11] fix: discard captures of abandoned atomic groups and
 lookarounds

When the rest of the regex failed after an atomic group, a possessive
quantifier or a lookaround had matched (or when a negative lookaround rejected
a match), what they captured stayed in the result: (?:(?>(a))b|ac) reported
group 1 = 'a' for the input 'ac'.
---
 include/mregex/ast/nodes/assertion.hpp             |  8 +++++++-
 .../ast/nodes/quantifiers/fixed_repetition.hpp     | 14 ++++++++++++--
 .../mregex/ast/nodes/quantifiers/repetition.hpp    | 10 +++++++++-
 3 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/include/mregex/ast/nodes/assertion.hpp b/include/mregex/ast/nodes/assertion.hpp
index 5d634d3..530d6d1 100644
--- a/include/mregex/ast/nodes/assertion.hpp
+++ b/include/mregex/ast/nodes/assertion.hpp
@@ -23,8 +23,14 @@ namespace meta::ast
         static constexpr auto match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            auto const previous_captures = ctx.captures;
             if (Predicate::is_match(begin, end, current, ctx))
-                return cont(current);
+            {
+                if (auto rest_match = cont(current))
+                    return rest_match;
+            }
+            // Discard anything captured while testing the predicate
+            ctx.captures = previous_captures;
             return non_match(current);
         }
     };
diff --git a/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp b/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp
index e45f774..74fea32 100644
--- a/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp
+++ b/include/mregex/ast/nodes/quantifiers/fixed_repetition.hpp
@@ -29,8 +29,13 @@ namespace meta::ast
         static constexpr auto possessive_match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            auto const previous_captures = ctx.captures;
             if (auto result = backtracking_match(begin, end, current, ctx, continuations<Iter>::success))
-                return cont(result.end);
+            {
+                if (auto rest_match = cont(result.end))
+                    return rest_match;
+            }
+            ctx.captures = previous_captures;
             return non_match(current);
         }
 
@@ -142,8 +147,13 @@ namespace meta::ast
         static constexpr auto match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            auto const previous_captures = ctx.captures;
             if (auto inner_match = Inner::match(begin, end, current, ctx, continuations<Iter>::success))
-                return cont(inner_match.end);
+            {
+                if (auto rest_match = cont(inner_match.end))
+                    return rest_match;
+            }
+            ctx.captures = previous_captures;
             return non_match(current);
         }
     };
diff --git a/include/mregex/ast/nodes/quantifiers/repetition.hpp b/include/mregex/ast/nodes/quantifiers/repetition.hpp
index ff5a6c8..e2335c6 100644
--- a/include/mregex/ast/nodes/quantifiers/repetition.hpp
+++ b/include/mregex/ast/nodes/quantifiers/repetition.hpp
@@ -51,14 +51,22 @@ namespace meta::ast
         static constexpr auto bounded_possessive_match(Iter begin, Iter end, Iter current, Context &ctx, Cont &&cont) noexcept
         -> match_result<Iter>
         {
+            auto const initial_captures = ctx.captures;
             for (std::size_t match_count = 0; !symbol::equals<Bound>(match_count); ++match_count)
             {
+                auto const previous_captures = ctx.captures;
                 auto inner_match = Inner::match(begin, end, current, ctx, continuations<Iter>::success);
                 if (!inner_match || will_loop_forever(current, inner_match.end))
+                {
+                    ctx.captures = previous_captures;
                     break;
+                }
                 current = inner_match.end;
             }
-            return cont(current);
+            if (auto rest_match = cont(current))
+                return rest_match;
+            ctx.captures = initial_captures;
+            return non_match(current);
         }
 
         template<symbol::quantifier Bound, std::forward_iterator Iter, typename Context, match_continuation<Iter> Cont>
-- 
2.43.0


From 18cd7fc8bd6db04be0be04c1e3d0753f7753b250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:03 +0000
Subject: [PATCH 04/11] fix: mirror anchors when matching lookbehinds backwards

---
 include/mregex/ast/inversion.hpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/mregex/ast/inversion.hpp b/include/mregex/ast/inversion.hpp
index 6e0c7e6..7f795b0 100644
--- a/include/mregex/ast/inversion.hpp
+++ b/include/mregex/ast/inversion.hpp
@@ -31,6 +31,30 @@ namespace meta::ast
         using type = decltype(detail::to_sequence(reverse_t<type_sequence<invert_t<Nodes> ...>>{}));
     };
 
+    template<>
+    struct invert<beginning_of_line>
+    {
+        using type = end_of_line;
+    };
+
+    template<>
+    struct invert<end_of_line>
+    {
+        using type = beginning_of_line;
+    };
+
+    template<>
+    struct invert<beginning_of_input>
+    {
+        using type = end_of_input;
+    };
+
+    template<>
+    struct invert<end_of_input>
+    {
+        using type = beginning_of_input;
+    };
+
     template<typename Inner>
     struct invert<positive_lookahead<Inner>>
     {
-- 
2.43.0


From cc7c579e6d7f5534a4ef7170e66595b6b9185dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:19 +0000
Subject: [PATCH 05/11] fix: match lookarounds nested in lookbehinds in the
 right direction

---
 .../ast/predicates/lookaround_predicate.hpp   | 37 ++++++++++++++-----
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/include/mregex/ast/predicates/lookaround_predicate.hpp b/include/mregex/ast/predicates/lookaround_predicate.hpp
index 637a452..992d3da 100644
--- a/include/mregex/ast/predicates/lookaround_predicate.hpp
+++ b/include/mregex/ast/predicates/lookaround_predicate.hpp
@@ -1,6 +1,8 @@
 #ifndef MREGEX_PREDICATES_LOOKAROUND_PREDICATE_HPP
 #define MREGEX_PREDICATES_LOOKAROUND_PREDICATE_HPP
 
+#include <iterator>
+#include <type_traits>
 #include <mregex/ast/inversion.hpp>
 #include <mregex/ast/traits.hpp>
 #include <mregex/utility/continuations.hpp>
@@ -13,7 +15,11 @@ namespace meta::ast::predicates
         template<std::forward_iterator Iter, typename Context>
         static constexpr bool is_match(Iter begin, Iter end, Iter current, Context &ctx) noexcept
         {
-            auto inner_match = Inner::match(begin, end, current, ctx, continuations<Iter>::success);
+            // Inside lookbehinds the input is traversed backwards, so the nested AST must also be inverted
+            constexpr bool is_reversed = !std::is_same_v<Iter, typename Context::iterator>;
+            using ast_type = typename std::conditional_t<is_reversed, invert<Inner>, std::type_identity<Inner>>::type;
+
+            auto inner_match = ast_type::match(begin, end, current, ctx, continuations<Iter>::success);
             return inner_match.matched;
         }
 
@@ -31,15 +37,26 @@ namespace meta::ast::predicates
         template<std::bidirectional_iterator Iter, typename Context>
         static constexpr bool is_match(Iter begin, Iter end, Iter current, Context &ctx) noexcept
         {
-            // For non-trivial nodes, the AST is inverted to match the regex backwards
-            using ast_type = invert_t<Inner>;
-            using iterator = std::reverse_iterator<Iter>;
-
-            auto rbegin = std::make_reverse_iterator(end); // Reversed end becomes new begin
-            auto rend = std::make_reverse_iterator(begin); // Reversed begin becomes new end
-            auto rcurrent = std::make_reverse_iterator(current);
-            auto result = ast_type::match(rbegin, rend, rcurrent, ctx, continuations<iterator>::success);
-            return result.matched;
+            if constexpr (!std::is_same_v<Iter, typename Context::iterator>)
+            {
+                // The input is already traversed backwards, looking behind means going forwards again
+                using iterator = typename Context::iterator;
+
+                auto result = Inner::match(end.base(), begin.base(), current.base(), ctx, continuations<iterator>::success);
+                return result.matched;
+            }
+            else
+            {
+                // For non-trivial nodes, the AST is inverted to match the regex backwards
+                using ast_type = invert_t<Inner>;
+                using iterator = std::reverse_iterator<Iter>;
+
+                auto rbegin = std::make_reverse_iterator(end); // Reversed end becomes new begin
+                auto rend = std::make_reverse_iterator(begin); // Reversed begin becomes new end
+                auto rcurrent = std::make_reverse_iterator(current);
+                auto result = ast_type::match(rbegin, rend, rcurrent, ctx, continuations<iterator>::success);
+                return result.matched;
+            }
         }
 
         template<std::bidirectional_iterator Iter, typename Context>
-- 
2.43.0


From 2f6e2fd6bfa20157b5450cfaffd90488f7467a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:58 +0000
Subject: [PATCH 06/11] fix: let an alternative end after an aborted quantifier

---
 include/mregex/grammar/quantifiers.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/mregex/grammar/quantifiers.hpp b/include/mregex/grammar/quantifiers.hpp
index 254146e..07076ba 100644
--- a/include/mregex/grammar/quantifiers.hpp
+++ b/include/mregex/grammar/quantifiers.hpp
@@ -22,9 +22,7 @@ namespace meta::grammar
                 <
                     symbol::push_literal<C>,
                     symbol::mod,
-                    symbol::make_sequence,
-                    symbol::seq,
-                    symbol::alt
+                    symbol::make_sequence
                 >;
     };
 
-- 
2.43.0


From 85971f685b5264b26d4e0d30800ea3b894512b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:08 +0000
Subject: [PATCH 07/11] fix: do not form ranges out of a line break class in a
 set

---
 include/mregex/ast/build.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/mregex/ast/build.hpp b/include/mregex/ast/build.hpp
index 7e0fc85..2db6b98 100644
--- a/include/mregex/ast/build.hpp
+++ b/include/mregex/ast/build.hpp
@@ -217,6 +217,13 @@ namespace meta::ast
         using type = type_sequence<set<First ..., Second ...>, Rest ...>;
     };
 
+    // Nest line breaks inside the set, their literals must never become the bounds of a range
+    template<typename Token, typename... Second, typename... Rest>
+    struct build<symbol::make_set_from_stack, Token, type_sequence<linebreak, set<Second ...>, Rest ...>>
+    {
+        using type = type_sequence<set<linebreak, Second ...>, Rest ...>;
+    };
+
     // Create a range inside the set
     template<char A, char B, typename... Second, typename... Rest>
     struct build<symbol::make_range, symbol::character<A>, type_sequence<set<literal<B>, Second ...>, Rest ...>>
-- 
2.43.0


From 7a442d2629dc36c20b3ab657ff9840a6afcde576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:32 +0000
Subject: [PATCH 08/11] fix: leave the implicit capture empty when nothing
 matched

---
 include/mregex/regex_methods.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/mregex/regex_methods.hpp b/include/mregex/regex_methods.hpp
index 7d80024..d54a38d 100644
--- a/include/mregex/regex_methods.hpp
+++ b/include/mregex/regex_methods.hpp
@@ -20,7 +20,8 @@ namespace meta
         static constexpr auto invoke(Iter begin, Iter end, Iter current, Context &ctx) noexcept -> ast::match_result<Iter>
         {
             auto result = ast_type::match(begin, end, current, ctx, continuations<Iter>::equals(end));
-            std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
+            if (result)
+                std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
             return result;
         }
     };
@@ -38,7 +39,8 @@ namespace meta
         static constexpr auto invoke(Iter begin, Iter end, Iter current, Context &ctx) noexcept -> ast::match_result<Iter>
         {
             auto result = ast_type::match(begin, end, current, ctx, continuations<Iter>::success);
-            std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
+            if (result)
+                std::get<0>(ctx.captures) = regex_capture_view<Iter>{current, result.end};
             return result;
         }
     };
-- 
2.43.0


From 1b4432d809f883180cd2c64b46d610c52a676ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:23 +0000
Subject: [PATCH 09/11] fix: do not measure the singular iterators of unset
 groups

---
 include/mregex/regex_capture.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/mregex/regex_capture.hpp b/include/mregex/regex_capture.hpp
index d5ed574..2ff96c4 100644
--- a/include/mregex/regex_capture.hpp
+++ b/include/mregex/regex_capture.hpp
@@ -66,7 +66,8 @@ namespace meta
 
         constexpr auto length() const noexcept -> std::size_t
         {
-            return std::distance(_begin, _end);
+            // An unset group holds singular iterators, which must not be measured
+            return is_empty() ? 0 : std::distance(_begin, _end);
         }
 
         constexpr auto begin() const noexcept
@@ -84,7 +85,7 @@ namespace meta
             if constexpr (is_contiguous_view)
                 return std::string_view{_begin, _end};
             else
-                return std::string{_begin, _end};
+                return is_empty() ? std::string{} : std::string{_begin, _end};
         }
 
         constexpr auto &operator[](std::size_t index) noexcept
@@ -127,7 +128,7 @@ namespace meta
 
         template<std::forward_iterator Iter>
         explicit regex_capture(regex_capture_view<Iter, Name> const &capture_view)
-            : _capture{capture_view.begin(), capture_view.end()}
+            : _capture{capture_view.content()}
         {}
 
         bool is_empty() const noexcept
-- 
2.43.0


From e815e4d5e378156fc1f39cf6c0ba169e34f0b922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:48 +0000
Subject: [PATCH 10/11] fix: report a syntax error when the pattern ends at the
 start of a group

An unfinished lookaround, atomic or named group at the end of the
pattern, such as (?! or (?<n>, ran the semantic action of the group on
an empty node stack and failed to compile inside the parser instead of
yielding a syntax error verdict.
---
 include/mregex/grammar/grammar.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mregex/grammar/grammar.hpp b/include/mregex/grammar/grammar.hpp
index fe73b06..0aaba67 100644
--- a/include/mregex/grammar/grammar.hpp
+++ b/include/mregex/grammar/grammar.hpp
@@ -574,7 +574,7 @@ namespace meta::grammar
     template<>
     struct rule<symbol::group_begin, symbol::empty>
     {
-        using type = ignore;
+        using type = reject;
     };
 
     template<>
-- 
2.43.0


From da221d6bc26fbb5ad27e2eb1283145b3432f1cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:28 +0000
Subject: [PATCH 11/11] fix: post-increment of a range iterator compiles

iterator{_target} named a constructor that does not exist, so it++ on the
iterators of tokenize() and find_all() was a compile error although
std::input_iterator held for them.
---
 include/mregex/utility/input_range_adapter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mregex/utility/input_range_adapter.hpp b/include/mregex/utility/input_range_adapter.hpp
index e85fbba..acdcf00 100644
--- a/include/mregex/utility/input_range_adapter.hpp
+++ b/include/mregex/utility/input_range_adapter.hpp
@@ -65,7 +65,7 @@ namespace meta
 
             constexpr iterator operator++(int) noexcept(is_nothrow_invocable)
             {
-                iterator old_iter{_target};
+                iterator old_iter{*_target};
                 this->operator++();
                 return old_iter;
             }
-- 
2.43.0

