From ea8d3d127e2df8698c90f42fceb8dfa0f942191e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 1/8] fix: quasi-quote expansion of maps and empty unquotes
 within lists

An entry of a literal list that is a map without a quasi-quote type is to
be expanded to that map as a single entry, and an unquote without argument
to a single null entry; both used to fail with a type error.
---
 src/buildtool/build_engine/expression/evaluator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/buildtool/build_engine/expression/evaluator.cpp b/src/buildtool/build_engine/expression/evaluator.cpp
index 0aa553e..e6c2272 100644
--- a/src/buildtool/build_engine/expression/evaluator.cpp
+++ b/src/buildtool/build_engine/expression/evaluator.cpp
@@ -573,7 +573,8 @@ auto ExpandQuasiQuoteListEntry(const SubExprEvaluator& eval,
                 if (token == ",") {
                     auto arg = expr->At("$1");
                     if (not arg) {
-                        return ExpressionPtr{Expression::kNone};
+                        return ExpressionPtr{
+                            Expression::list_t{Expression::kNone}};
                     }
                     auto result = eval(*arg, env);
                     return ExpressionPtr{Expression::list_t{result}};
@@ -601,7 +602,8 @@ auto ExpandQuasiQuoteListEntry(const SubExprEvaluator& eval,
             auto expanded = ExpandQuasiQuote(eval, el.second, env);
             result[el.first] = expanded;
         }
-        return ExpressionPtr{Expression::map_t{result}};
+        return ExpressionPtr{Expression::list_t{
+            ExpressionPtr{Expression::map_t{result}}}};
     }
     // not a container, spliced literally, i.e., return singleton list
     return ExpressionPtr{Expression::list_t{expr}};
-- 
2.43.0


From 7e91097888d32d9f51b0cdc53edac848f27ca70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:50 +0000
Subject: [PATCH 2/8] fix: from_subdir keeps exactly the entries of the subdir

Keys and subdir are paths; compare their normal forms, and drop keys that
cannot be expressed relative to the subdir instead of mapping them to '.'
or to themselves.
---
 src/buildtool/build_engine/expression/evaluator.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/buildtool/build_engine/expression/evaluator.cpp b/src/buildtool/build_engine/expression/evaluator.cpp
index e6c2272..78c9c58 100644
--- a/src/buildtool/build_engine/expression/evaluator.cpp
+++ b/src/buildtool/build_engine/expression/evaluator.cpp
@@ -971,12 +971,14 @@ auto FromSubdirExpr(SubExprEvaluator&& eval,
                     Configuration const& env) -> ExpressionPtr {
     auto d = eval(expr["$1"], env);
     auto s = eval(expr->Get("subdir", "."s), env);
-    std::filesystem::path subdir{s->String()};
+    auto const subdir = ToNormalPath(std::filesystem::path{s->String()});
     auto result = Expression::map_t::underlying_map_t{};
     for (auto const& el : d->Map()) {
-        auto new_path = ToNormalPath(
-            std::filesystem::path(el.first).lexically_relative(subdir));
-        if (PathIsNonUpwards(new_path)) {
+        auto const path = ToNormalPath(std::filesystem::path(el.first));
+        auto new_path = ToNormalPath(path.lexically_relative(subdir));
+        // keep only what is found at that relative path within the subdir
+        if (PathIsNonUpwards(new_path) and
+            ToNormalPath(subdir / new_path) == path) {
             auto new_key = new_path.string();
             if (auto const it = result.find(new_key);
                 it != result.end() &&
-- 
2.43.0


From 09c9d90b1930c1609e254c1cbdad3725be8db466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 3/8] fix: escape_chars considers whole characters

Prefixing the individual bytes of a multi-byte character yields strings
that are not valid UTF-8 and cannot be serialized or compared any more.
---
 .../build_engine/expression/evaluator.cpp     | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/buildtool/build_engine/expression/evaluator.cpp b/src/buildtool/build_engine/expression/evaluator.cpp
index 78c9c58..57b68ad 100644
--- a/src/buildtool/build_engine/expression/evaluator.cpp
+++ b/src/buildtool/build_engine/expression/evaluator.cpp
@@ -821,11 +821,21 @@ auto EscapeCharsExpr(SubExprEvaluator&& eval,
     auto chars = eval(expr->Get("chars", ""s), env);
     auto escape_prefix = eval(expr->Get("escape_prefix", "\\"s), env);
     std::stringstream ss{};
-    std::for_each(
-        string->String().begin(), string->String().end(), [&](auto const& c) {
-            auto do_escape = chars->String().find(c) != std::string::npos;
-            ss << (do_escape ? escape_prefix->String() : "") << c;
-        });
+    auto const& text = string->String();
+    std::size_t pos = 0;
+    while (pos < text.size()) {
+        // take a whole (UTF-8 encoded) character, i.e., also all the
+        // continuation bytes that follow
+        std::size_t end = pos + 1;
+        while (end < text.size() and
+               (static_cast<unsigned char>(text[end]) & 0xC0U) == 0x80U) {
+            ++end;
+        }
+        auto const c = text.substr(pos, end - pos);
+        auto do_escape = chars->String().find(c) != std::string::npos;
+        ss << (do_escape ? escape_prefix->String() : "") << c;
+        pos = end;
+    }
     return ExpressionPtr{ss.str()};
 }
 
-- 
2.43.0


From 195855dba465d0e13e9bdd2ffb92757d0b34ba57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:46 +0000
Subject: [PATCH 4/8] fix: a file name with a NUL byte is not valid

---
 src/utils/cpp/path.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/cpp/path.hpp b/src/utils/cpp/path.hpp
index ba3d125..62406ce 100644
--- a/src/utils/cpp/path.hpp
+++ b/src/utils/cpp/path.hpp
@@ -17,6 +17,7 @@
 
 #include <filesystem>
 #include <string>
+#include <string_view>
 
 [[nodiscard]] static inline auto ToNormalPath(
     std::filesystem::path const& p) noexcept -> std::filesystem::path {
@@ -61,7 +62,7 @@
 
 /// \brief Predicate if a given string is a valid filename.
 [[nodiscard]] static inline auto IsValidFileName(const std::string& s) -> bool {
-    if (s.find_first_of("/\0") != std::string::npos) {
+    if (s.find_first_of(std::string_view{"/\0", 2}) != std::string::npos) {
         return false;
     }
     if (s.empty() or s == "." or s == "..") {
-- 
2.43.0


From 647af97c51d52ee6106455ba1c6622f13301b49a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:57 +0000
Subject: [PATCH 5/8] fix: reject relative module names that denote the parent
 of the workspace

---
 src/buildtool/build_engine/base_maps/entity_name.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buildtool/build_engine/base_maps/entity_name.hpp b/src/buildtool/build_engine/base_maps/entity_name.hpp
index 16fcb3a..1d711e1 100644
--- a/src/buildtool/build_engine/base_maps/entity_name.hpp
+++ b/src/buildtool/build_engine/base_maps/entity_name.hpp
@@ -170,7 +170,7 @@ template <typename T>
 
             std::filesystem::path m{current.GetNamedTarget().module};
             auto const& module = (m / relmodule).lexically_normal().string();
-            if (module.compare(0, 3, "../") != 0) {
+            if (module != ".." and module.compare(0, 3, "../") != 0) {
                 return EntityName{
                     current.GetNamedTarget().repository, module, name};
             }
-- 
2.43.0


From 824bca8f011649ceebd445fa615c26d49e6cedb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:32 +0000
Subject: [PATCH 6/8] fix: FromHexString rejects strings with other than
 hexadecimal digits

---
 src/utils/cpp/hex_string.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utils/cpp/hex_string.hpp b/src/utils/cpp/hex_string.hpp
index 3edb46a..8b43b88 100644
--- a/src/utils/cpp/hex_string.hpp
+++ b/src/utils/cpp/hex_string.hpp
@@ -42,6 +42,9 @@
 
 [[nodiscard]] static inline auto FromHexString(std::string const& hexstring)
     -> std::optional<std::string> {
+    if (not IsHexString(hexstring)) {
+        return std::nullopt;
+    }
     try {
         static constexpr std::size_t kHexBase = 16;
         std::stringstream ss{};
-- 
2.43.0


From 66fc26e5d49b485930d029286773df0b920d1b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:33 +0000
Subject: [PATCH 7/8] fix: compare the target fields of abstract nodes

Abstract nodes were compared by comparing the target fields of the one
with the string fields of the other, so that a node did not even equal
itself.
---
 src/buildtool/build_engine/expression/target_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buildtool/build_engine/expression/target_node.hpp b/src/buildtool/build_engine/expression/target_node.hpp
index 955a6fb..c2a969a 100644
--- a/src/buildtool/build_engine/expression/target_node.hpp
+++ b/src/buildtool/build_engine/expression/target_node.hpp
@@ -74,7 +74,7 @@ class TargetNode {
             auto const& abs_r = other.GetAbstract();
             return abs_l.node_type == abs_r.node_type and
                    abs_l.string_fields == abs_r.string_fields and
-                   abs_l.target_fields == abs_r.string_fields;
+                   abs_l.target_fields == abs_r.target_fields;
         } catch (...) {
             // should never happen
             return false;
-- 
2.43.0


From 85d4f2edf1831e3aabc8fda55a7f58382c388605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:33 +0000
Subject: [PATCH 8/8] fix: hash results and nodes by the hashes of their
 components

The JSON representation that was hashed does not distinguish an artifact
from a map that looks like its JSON; hence different results and nodes
had the same hash, compared as equal, and were confused in the target
cache.
---
 .../build_engine/expression/expression.cpp    | 35 ++++++++++++++-----
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/buildtool/build_engine/expression/expression.cpp b/src/buildtool/build_engine/expression/expression.cpp
index 17e25fc..681481b 100644
--- a/src/buildtool/build_engine/expression/expression.cpp
+++ b/src/buildtool/build_engine/expression/expression.cpp
@@ -229,19 +229,13 @@ auto Expression::ComputeHash() const noexcept -> std::string {
     // identification and quick comparison of expressions. SHA256 is used.
     HashFunction const hash_function{HashFunction::Type::PlainSHA256};
     if (IsNone() or IsBool() or IsNumber() or IsString() or IsArtifact() or
-        IsResult() or IsNode() or IsName()) {
+        IsName()) {
         // just hash the JSON representation, but prepend "@" for artifact,
-        // "=" for result, "#" for node, and "$" for name.
+        // and "$" for name.
         std::string prefix;
         if (IsArtifact()) {
             prefix = "@";
         }
-        else if (IsResult()) {
-            prefix = "=";
-        }
-        else if (IsNode()) {
-            prefix = "#";
-        }
         else if (IsName()) {
             prefix = "$";
         }
@@ -264,6 +258,31 @@ auto Expression::ComputeHash() const noexcept -> std::string {
                 hasher.Update(el.second->ToHash());
             }
         }
+        else if (IsResult()) {
+            // the JSON representation does not distinguish artifacts (and other
+            // non-JSON values) from maps looking like them; use the hashes of
+            // the components instead.
+            auto const& result = Result();
+            hasher.Update("=");
+            hasher.Update(result.artifact_stage->ToHash());
+            hasher.Update(result.runfiles->ToHash());
+            hasher.Update(result.provides->ToHash());
+        }
+        else if (IsNode()) {
+            auto const& node = Node();
+            hasher.Update("#");
+            if (node.IsValue()) {
+                auto const& value = node.GetValue();
+                hasher.Update(value->ToHash());
+            }
+            else {
+                auto const& data = node.GetAbstract();
+                hasher.Update(
+                    hash_function.PlainHashData(data.node_type).Bytes());
+                hasher.Update(data.string_fields->ToHash());
+                hasher.Update(data.target_fields->ToHash());
+            }
+        }
         hash = std::move(hasher).Finalize().Bytes();
     }
     return hash;
-- 
2.43.0

