From 9ef1e1be7d7b071540d7b92708b14a46d02889a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:49 +0000
Subject: [PATCH 01/45] fix: publish AsyncMapNode readiness through an atomic
 flag

IsReady() inspected the optional value without holding the lock while
another thread could be assigning it (a data race); readers could
see the node as ready without synchronizing with the write of the value.
---
 src/buildtool/multithreading/async_map_node.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/buildtool/multithreading/async_map_node.hpp b/src/buildtool/multithreading/async_map_node.hpp
index f449d9c..8b14c93 100644
--- a/src/buildtool/multithreading/async_map_node.hpp
+++ b/src/buildtool/multithreading/async_map_node.hpp
@@ -47,6 +47,7 @@ class AsyncMapNode {
             return;
         }
         value_ = std::move(value);
+        ready_ = true;  // publish value for readers not holding the lock
         for (auto& task : awaiting_tasks_) {
             ts->QueueTask(std::move(task));
         }
@@ -166,12 +167,13 @@ class AsyncMapNode {
     [[nodiscard]] auto GetKey() && noexcept -> Key { return std::move(key_); }
 
     [[nodiscard]] auto IsReady() const noexcept -> bool {
-        return value_.has_value();
+        return ready_;
     }
 
   private:
     Key key_;
     std::optional<Value> value_;
+    std::atomic<bool> ready_{false};
     std::vector<Task> awaiting_tasks_;
     std::vector<Task> failure_tasks_;
     std::mutex m_;
-- 
2.43.0


From 373f16ba8d890efb03c1918cf121905de2fab330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 02/45] fix: quasi-quote of maps inside lists

Entries of a quasi-quoted list are expanded to the list of values to be
spliced in; for maps (and ","-expressions without argument) the value
itself was returned, leading to a type error.
---
 src/buildtool/build_engine/expression/evaluator.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/buildtool/build_engine/expression/evaluator.cpp b/src/buildtool/build_engine/expression/evaluator.cpp
index 0aa553e..e914701 100644
--- a/src/buildtool/build_engine/expression/evaluator.cpp
+++ b/src/buildtool/build_engine/expression/evaluator.cpp
@@ -573,7 +573,8 @@ auto ExpandQuasiQuoteListEntry(const SubExprEvaluator& eval,
                 if (token == ",") {
                     auto arg = expr->At("$1");
                     if (not arg) {
-                        return ExpressionPtr{Expression::kNone};
+                        return ExpressionPtr{
+                            Expression::list_t{Expression::kNone}};
                     }
                     auto result = eval(*arg, env);
                     return ExpressionPtr{Expression::list_t{result}};
@@ -601,7 +602,8 @@ auto ExpandQuasiQuoteListEntry(const SubExprEvaluator& eval,
             auto expanded = ExpandQuasiQuote(eval, el.second, env);
             result[el.first] = expanded;
         }
-        return ExpressionPtr{Expression::map_t{result}};
+        return ExpressionPtr{
+            Expression::list_t{ExpressionPtr{Expression::map_t{result}}}};
     }
     // not a container, spliced literally, i.e., return singleton list
     return ExpressionPtr{Expression::list_t{expr}};
-- 
2.43.0


From 6b8363c237221c2ebdc888b32539548ec85dcd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:44 +0000
Subject: [PATCH 03/45] fix: from_subdir for non-normal keys and subdirs

Keys and subdir are paths, but were compared without normalization; so
entries were lost for, e.g., subdir "./a", and conflicts between keys
normalizing to the same path were missed. Keys not related to the
subdir (e.g., absolute ones) were all mapped to ".".
---
 .../build_engine/expression/evaluator.cpp         | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/buildtool/build_engine/expression/evaluator.cpp b/src/buildtool/build_engine/expression/evaluator.cpp
index e914701..2ec7ae9 100644
--- a/src/buildtool/build_engine/expression/evaluator.cpp
+++ b/src/buildtool/build_engine/expression/evaluator.cpp
@@ -971,11 +971,20 @@ auto FromSubdirExpr(SubExprEvaluator&& eval,
                     Configuration const& env) -> ExpressionPtr {
     auto d = eval(expr["$1"], env);
     auto s = eval(expr->Get("subdir", "."s), env);
-    std::filesystem::path subdir{s->String()};
+    auto const subdir = ToNormalPath(std::filesystem::path{s->String()});
     auto result = Expression::map_t::underlying_map_t{};
     for (auto const& el : d->Map()) {
-        auto new_path = ToNormalPath(
-            std::filesystem::path(el.first).lexically_relative(subdir));
+        auto const path = ToNormalPath(std::filesystem::path{el.first});
+        if (path.is_absolute() != subdir.is_absolute()) {
+            continue;
+        }
+        // Note: if subdir is upwards, paths not below it might become
+        // non-upwards when taken relative to it
+        auto const relative = path.lexically_relative(subdir);
+        if (relative.empty() or ToNormalPath(subdir / relative) != path) {
+            continue;
+        }
+        auto new_path = ToNormalPath(relative);
         if (PathIsNonUpwards(new_path)) {
             auto new_key = new_path.string();
             if (auto const it = result.find(new_key);
-- 
2.43.0


From 4aae0eda554d8add513a161669ea821215612901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:29 +0000
Subject: [PATCH 04/45] fix: report failed writes of WriteFileImpl

The state of the output stream was never inspected, so running out of
disk space while writing a file was reported as success.
---
 src/buildtool/file_system/file_system_manager.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buildtool/file_system/file_system_manager.hpp b/src/buildtool/file_system/file_system_manager.hpp
index 146e6db..289686f 100644
--- a/src/buildtool/file_system/file_system_manager.hpp
+++ b/src/buildtool/file_system/file_system_manager.hpp
@@ -1104,6 +1104,11 @@ class FileSystemManager {
             }
             writer << content;
             writer.close();
+            if (not writer.good()) {
+                Logger::Log(
+                    LogLevel::Error, "writing to {} failed", file.string());
+                return false;
+            }
             return true;
         } catch (std::exception const& e) {
             Logger::Log(
-- 
2.43.0


From 0b673b5cbfff0b96fdbee1bd72c34c61f9b6ae20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:34 +0000
Subject: [PATCH 05/45] fix: do not take a killed copy or write helper for a
 successful one

WEXITSTATUS was evaluated without checking that the child had exited
normally, and a failing waitpid was ignored; so a helper killed in the
middle of the work left a truncated file reported as complete.
---
 .../file_system/file_system_manager.hpp       | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/buildtool/file_system/file_system_manager.hpp b/src/buildtool/file_system/file_system_manager.hpp
index 289686f..2d9a669 100644
--- a/src/buildtool/file_system/file_system_manager.hpp
+++ b/src/buildtool/file_system/file_system_manager.hpp
@@ -342,11 +342,7 @@ class FileSystemManager {
                     opt == std::filesystem::copy_options::skip_existing));
             }
 
-            int status{};
-            ::waitpid(pid, &status, 0);
-
-            // NOLINTNEXTLINE(hicpp-signed-bitwise)
-            int retval = WEXITSTATUS(status);
+            int retval = LowLevel::WaitForChild(pid);
 
             if (retval != 0) {
                 Logger::Log(LogLevel::Error,
@@ -919,11 +915,7 @@ class FileSystemManager {
                     LowLevel::WriteFile(content_cstr, content_size, file_cstr));
             }
 
-            int status{};
-            ::waitpid(pid, &status, 0);
-
-            // NOLINTNEXTLINE(hicpp-signed-bitwise)
-            int retval = WEXITSTATUS(status);
+            int retval = LowLevel::WaitForChild(pid);
 
             if (retval != 0) {
                 Logger::Log(LogLevel::Error,
@@ -1280,6 +1272,23 @@ class FileSystemManager {
             return 0;
         }
 
+        /// \brief Wait for a child process performing a low-level operation.
+        /// \returns Exit code of the child, non-zero also if the child was
+        /// terminated by a signal or could not be waited for.
+        [[nodiscard]] static auto WaitForChild(pid_t pid) noexcept -> int {
+            int status{};
+            while (::waitpid(pid, &status, 0) == -1) {
+                if (errno != EINTR) {
+                    return kSignalBit;
+                }
+            }
+            if (WIFEXITED(status)) {         // NOLINT(hicpp-signed-bitwise)
+                return WEXITSTATUS(status);  // NOLINT(hicpp-signed-bitwise)
+            }
+            // NOLINTNEXTLINE(hicpp-signed-bitwise)
+            return kSignalBit | WTERMSIG(status);
+        }
+
         static auto ErrorToString(int retval) -> std::string {
             if (retval == 0) {
                 return "no error";
-- 
2.43.0


From f7709f271e46a014f00322228b06954d5e76ca29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 06/45] fix: uplink captured stdout and stderr with an
 action-cache entry

An action-cache hit in an older generation promoted the outputs, but not
the blobs of the captured output streams, so the next garbage collection
removed them although they are still referenced.
---
 src/buildtool/storage/local_ac.tpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/buildtool/storage/local_ac.tpp b/src/buildtool/storage/local_ac.tpp
index 3aae7dd..3204c3b 100644
--- a/src/buildtool/storage/local_ac.tpp
+++ b/src/buildtool/storage/local_ac.tpp
@@ -118,6 +118,22 @@ auto LocalAC<kDoGlobalUplink>::LocalUplinkEntry(
         }
     }
 
+    // Uplink captured output streams
+    auto const uplink_stream = [this, &latest](auto const& bazel_digest) {
+        auto const digest = ArtifactDigestFactory::FromBazel(
+            cas_.GetHashFunction().GetType(), bazel_digest);
+        return digest and cas_.LocalUplinkBlob(
+                              latest.cas_, *digest, /*is_executable=*/false);
+    };
+    if (result->has_stdout_digest() and
+        not uplink_stream(result->stdout_digest())) {
+        return false;
+    }
+    if (result->has_stderr_digest() and
+        not uplink_stream(result->stderr_digest())) {
+        return false;
+    }
+
     // Uplink result (cache value)
     if (not cas_.LocalUplinkBlob(latest.cas_,
                                  *cas_key,
-- 
2.43.0


From aa5e40fbedb24b8045bcda0b895b434b7d8fca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 07/45] fix: report a transition that is not a map as
 evaluation error

Configuration requires its expression to be a map; without NDEBUG, the
contract check terminates the process.
---
 src/buildtool/build_engine/target_map/utils.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/buildtool/build_engine/target_map/utils.cpp b/src/buildtool/build_engine/target_map/utils.cpp
index 5bdeffe..2d22102 100644
--- a/src/buildtool/build_engine/target_map/utils.cpp
+++ b/src/buildtool/build_engine/target_map/utils.cpp
@@ -60,6 +60,11 @@ auto BuildMaps::Target::Utils::obtainTargetByName(
                         error)};
     }
     auto transition = eval(expr->Get("transition", empty_map_exp), env);
+    if (not transition->IsMap()) {
+        throw Evaluator::EvaluationError{
+            fmt::format("Transition has to be a map, but found {}",
+                        transition->ToString())};
+    }
     auto it = deps_by_transition.find(BuildMaps::Target::ConfiguredTarget{
         .target = *target, .config = Configuration{transition}});
     if (it == deps_by_transition.end()) {
@@ -85,6 +90,11 @@ auto BuildMaps::Target::Utils::obtainTarget(
             fmt::format("Not a target name: {}", reference->ToString())};
     }
     auto transition = eval(expr->Get("transition", empty_map_exp), env);
+    if (not transition->IsMap()) {
+        throw Evaluator::EvaluationError{
+            fmt::format("Transition has to be a map, but found {}",
+                        transition->ToString())};
+    }
     auto it = deps_by_transition.find(BuildMaps::Target::ConfiguredTarget{
         .target = reference->Name(), .config = Configuration{transition}});
     if (it == deps_by_transition.end()) {
-- 
2.43.0


From e5facd553957d8e0b171c0e1f8ae1aa3f6e96600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:24 +0000
Subject: [PATCH 08/45] fix: normalize cwd before adding its directory to the
 inputs

A working directory like "./w" or "w/.." produced an input path that is
not normalized, and missed conflicts with the other inputs.
---
 src/buildtool/build_engine/target_map/utils.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/buildtool/build_engine/target_map/utils.cpp b/src/buildtool/build_engine/target_map/utils.cpp
index 2d22102..052b990 100644
--- a/src/buildtool/build_engine/target_map/utils.cpp
+++ b/src/buildtool/build_engine/target_map/utils.cpp
@@ -175,10 +175,10 @@ auto BuildMaps::Target::Utils::add_dir_for(
     gsl::not_null<std::vector<Tree::Ptr>*> trees) -> ExpressionPtr {
     // if working top-level, there is nothing to add; this is also
     // the common case
-    if ((cwd.empty()) or (cwd == ".")) {
+    auto const cwd_path = ToNormalPath(std::filesystem::path{cwd});
+    if (cwd_path == ".") {
         return stage;
     }
-    auto cwd_path = std::filesystem::path{cwd};
     for (auto const& [path, artifact] : stage->Map()) {
         if ((path.empty()) or (path == ".")) {
             // top-level artifact (tree); cannot add tree for cwd
@@ -206,7 +206,8 @@ auto BuildMaps::Target::Utils::add_dir_for(
     trees->emplace_back(std::move(empty_tree));
     auto empty_tree_exp =
         ExpressionPtr{ArtifactDescription::CreateTree(empty_tree_id)};
-    auto cwd_tree = ExpressionPtr{Expression::map_t{cwd, empty_tree_exp}};
+    auto cwd_tree =
+        ExpressionPtr{Expression::map_t{cwd_path.string(), empty_tree_exp}};
     return ExpressionPtr{Expression::map_t{stage, cwd_tree}};
 }
 
-- 
2.43.0


From 9e48b8b32a06b384bb2af3ef7ee49326042e29a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 09/45] fix: detect staging conflicts independent of spelling
 and order

A conflict between a tree and an artifact inside was only found if the
outer path was enumerated first, and paths that are not in normal form
were not recognized as the same (or as top-level, or upwards).
---
 .../build_engine/target_map/utils.cpp         | 43 ++++++++-----------
 1 file changed, 18 insertions(+), 25 deletions(-)

diff --git a/src/buildtool/build_engine/target_map/utils.cpp b/src/buildtool/build_engine/target_map/utils.cpp
index 052b990..f424f00 100644
--- a/src/buildtool/build_engine/target_map/utils.cpp
+++ b/src/buildtool/build_engine/target_map/utils.cpp
@@ -20,7 +20,7 @@
 #include <functional>
 #include <map>
 #include <memory>
-#include <unordered_set>
+#include <string>
 #include <utility>  // std::move
 #include <vector>
 
@@ -133,34 +133,27 @@ auto BuildMaps::Target::Utils::artifacts_tree(const ExpressionPtr& map)
 
 auto BuildMaps::Target::Utils::tree_conflict(const ExpressionPtr& map)
     -> std::optional<std::string> {
-    // Work around the fact that std::hash<std::filesystem::path> is missing
-    // in some libraries
-    struct PathHash {
-        auto operator()(std::filesystem::path const& p) const noexcept
-            -> std::size_t {
-            return std::hash<std::filesystem::path>{}(p);
-        }
-    };
-    std::unordered_set<std::filesystem::path, PathHash> blocked{};
-    blocked.reserve(map->Map().size());
-
+    // Paths are compared in normal form and, as a path can conflict with one
+    // that is enumerated later, only once all of them are known.
+    std::map<std::string, ExpressionPtr> staged{};
     for (auto const& [path, artifact] : map->Map()) {
-        if (path == "." and map->Map().size() > 1) {
-            return ".";
-        }
-        auto p = std::filesystem::path{path};
-        if (p.is_absolute()) {
+        auto const p = ToNormalPath(std::filesystem::path{path});
+        if (p.is_absolute() or *p.begin() == "..") {
             return p.string();
         }
-        if (*p.begin() == "..") {
-            return p.string();
-        }
-        auto insert_result = blocked.insert(p);
-        if (not insert_result.second) {
-            return p.string();  // duplicate path
+        auto const [it, inserted] = staged.emplace(p.string(), artifact);
+        if (not inserted and not(it->second == artifact)) {
+            return p.string();  // different artifacts at the same path
         }
-        for (p = p.parent_path(); not p.empty(); p = p.parent_path()) {
-            if (blocked.contains(p)) {
+    }
+    if (staged.size() > 1 and staged.contains(".")) {
+        return ".";
+    }
+    for (auto const& [path, artifact] : staged) {
+        for (auto p = std::filesystem::path{path}.parent_path();
+             not p.empty();
+             p = p.parent_path()) {
+            if (staged.contains(p.string())) {
                 // Another artifact at a parent path position
                 return p.string();
             }
-- 
2.43.0


From 2dd183ed5d9a80ce6f795aaeb65310e0daf350be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 10/45] fix: let DEP_PROVIDES use the default for a provider
 that is null

As documented, the default applies if the key is not in the provides
map, or if the value at that key is null.
---
 src/buildtool/build_engine/target_map/target_map.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buildtool/build_engine/target_map/target_map.cpp b/src/buildtool/build_engine/target_map/target_map.cpp
index 5fa9f0e..c6a34f9 100644
--- a/src/buildtool/build_engine/target_map/target_map.cpp
+++ b/src/buildtool/build_engine/target_map/target_map.cpp
@@ -563,7 +563,8 @@ void withDependencies(
                                          ->Provides();
               auto provider = eval(expr["provider"], env);
               auto provided_value = provided->At(provider->String());
-              if (provided_value) {
+              if (provided_value and
+                  not provided_value->get()->IsNone()) {
                   return provided_value->get();
               }
               auto const& empty_list = Expression::kEmptyList;
-- 
2.43.0


From af35c4a3401cf95f629e496656da08aa2513ee55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 11/45] fix: stop analysis of a generic target if evaluating
 deps failed

---
 src/buildtool/build_engine/target_map/built_in_rules.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/buildtool/build_engine/target_map/built_in_rules.cpp b/src/buildtool/build_engine/target_map/built_in_rules.cpp
index abcd376..2fd83a7 100644
--- a/src/buildtool/build_engine/target_map/built_in_rules.cpp
+++ b/src/buildtool/build_engine/target_map/built_in_rules.cpp
@@ -1553,6 +1553,9 @@ void GenericRule(
         deps_exp.Evaluate(param_config, {}, [&logger](auto const& msg) {
             (*logger)(fmt::format("While evaluating deps:\n{}", msg), true);
         });
+    if (not deps_value) {
+        return;
+    }
     if (not deps_value->IsList()) {
         (*logger)(fmt::format("Expected deps to evaluate to a list of targets, "
                               "but found {}",
-- 
2.43.0


From 7dd4f33514e6f52c9e5ba883bdce4f501a6a8613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 12/45] fix: reject staging conflicts in file_gen, symlink, and
 tree rules

The name of a file_gen, symlink, tree, or tree_overlay target could be an
absolute or upwards path, and conflicting artifacts of a dependency of a
tree overlay were silently dropped.
---
 .../target_map/built_in_rules.cpp             | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/buildtool/build_engine/target_map/built_in_rules.cpp b/src/buildtool/build_engine/target_map/built_in_rules.cpp
index 2fd83a7..3ff49e7 100644
--- a/src/buildtool/build_engine/target_map/built_in_rules.cpp
+++ b/src/buildtool/build_engine/target_map/built_in_rules.cpp
@@ -294,6 +294,13 @@ void BlobGenRuleWithDeps(
                 context->storage->GetHashFunction(), data_val->String()),
             blob_type)}}};
 
+    if (auto conflict = BuildMaps::Target::Utils::tree_conflict(stage)) {
+        (*logger)(fmt::format("{} is not a path inside the artifact stage",
+                              *conflict),
+                  true);
+        return;
+    }
+
     auto analysis_result = std::make_shared<AnalysedTarget const>(
         TargetResult{.artifact_stage = stage,
                      .provides = ExpressionPtr{Expression::map_t{}},
@@ -505,6 +512,13 @@ void TreeRuleWithDeps(
     if (disjoint_overlay) {
         TreeOverlay::to_overlay_t dep_trees{};
         for (auto const& dep : dependency_values) {
+            if (auto conflict = BuildMaps::Target::Utils::tree_conflict(
+                    (*dep)->Artifacts())) {
+                (*logger)(
+                    fmt::format("TREE conflict on subtree {}", *conflict),
+                    true);
+                return;
+            }
             std::unordered_map<std::string, ArtifactDescription> tree_content;
             for (auto const& [input_path, artifact] :
                  (*dep)->Artifacts()->Map()) {
@@ -568,6 +582,13 @@ void TreeRuleWithDeps(
     }
     auto result = ExpressionPtr{Expression::map_t{result_stage}};
 
+    if (auto conflict = BuildMaps::Target::Utils::tree_conflict(result)) {
+        (*logger)(fmt::format("{} is not a path inside the artifact stage",
+                              *conflict),
+                  true);
+        return;
+    }
+
     auto analysis_result = std::make_shared<AnalysedTarget const>(
         TargetResult{.artifact_stage = result,
                      .provides = ExpressionPtr{Expression::map_t{}},
-- 
2.43.0


From b3d40b7075f899385dc42f2e4a52387b503bb995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 13/45] fix: stage source files at the normal form of their
 path

A source target "./foo" was staged at "./foo", distinct from the same
file referred to as "foo".
---
 src/buildtool/build_engine/base_maps/source_map.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/buildtool/build_engine/base_maps/source_map.cpp b/src/buildtool/build_engine/base_maps/source_map.cpp
index 7a057f1..402fec0 100644
--- a/src/buildtool/build_engine/base_maps/source_map.cpp
+++ b/src/buildtool/build_engine/base_maps/source_map.cpp
@@ -34,6 +34,7 @@
 #include "src/buildtool/common/tree.hpp"
 #include "src/buildtool/common/tree_overlay.hpp"
 #include "src/buildtool/multithreading/async_map_consumer.hpp"
+#include "src/utils/cpp/path.hpp"
 
 namespace BuildMaps::Base {
 
@@ -41,8 +42,9 @@ namespace {
 
 auto as_target(const BuildMaps::Base::EntityName& key,
                ExpressionPtr artifact) -> AnalysedTargetPtr {
-    auto stage = ExpressionPtr{
-        Expression::map_t{key.GetNamedTarget().name, std::move(artifact)}};
+    auto stage = ExpressionPtr{Expression::map_t{
+        ToNormalPath(std::filesystem::path{key.GetNamedTarget().name}).string(),
+        std::move(artifact)}};
     return std::make_shared<AnalysedTarget const>(
         TargetResult{.artifact_stage = stage,
                      .provides = Expression::kEmptyMap,
-- 
2.43.0


From e86dec11188399e1a40e07181e513275925f7602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 14/45] fix: compare target fields of abstract nodes with
 target fields

---
 src/buildtool/build_engine/expression/target_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buildtool/build_engine/expression/target_node.hpp b/src/buildtool/build_engine/expression/target_node.hpp
index 955a6fb..c2a969a 100644
--- a/src/buildtool/build_engine/expression/target_node.hpp
+++ b/src/buildtool/build_engine/expression/target_node.hpp
@@ -74,7 +74,7 @@ class TargetNode {
             auto const& abs_r = other.GetAbstract();
             return abs_l.node_type == abs_r.node_type and
                    abs_l.string_fields == abs_r.string_fields and
-                   abs_l.target_fields == abs_r.string_fields;
+                   abs_l.target_fields == abs_r.target_fields;
         } catch (...) {
             // should never happen
             return false;
-- 
2.43.0


From b505ad75a19b009b435476f9dc04bfcf144632c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 15/45] fix: declare the dependency of source_map on path
 utilities

---
 src/buildtool/build_engine/base_maps/TARGETS | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/buildtool/build_engine/base_maps/TARGETS b/src/buildtool/build_engine/base_maps/TARGETS
index 3600c26..47b3769 100644
--- a/src/buildtool/build_engine/base_maps/TARGETS
+++ b/src/buildtool/build_engine/base_maps/TARGETS
@@ -104,6 +104,7 @@
     , ["src/buildtool/common", "action_description"]
     , ["src/buildtool/common", "tree"]
     , ["src/buildtool/common", "tree_overlay"]
+    , ["src/utils/cpp", "path"]
     ]
   }
 , "field_reader":
-- 
2.43.0


From 76a588597f176fb535316408c00673f584dd965f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:27 +0000
Subject: [PATCH 16/45] fix: reject a relative module name that is exactly the
 parent of the root

Only names starting with "../" were rejected as outside of the workspace.
---
 src/buildtool/build_engine/base_maps/entity_name.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buildtool/build_engine/base_maps/entity_name.hpp b/src/buildtool/build_engine/base_maps/entity_name.hpp
index 16fcb3a..1d711e1 100644
--- a/src/buildtool/build_engine/base_maps/entity_name.hpp
+++ b/src/buildtool/build_engine/base_maps/entity_name.hpp
@@ -170,7 +170,7 @@ template <typename T>
 
             std::filesystem::path m{current.GetNamedTarget().module};
             auto const& module = (m / relmodule).lexically_normal().string();
-            if (module.compare(0, 3, "../") != 0) {
+            if (module != ".." and module.compare(0, 3, "../") != 0) {
                 return EntityName{
                     current.GetNamedTarget().repository, module, name};
             }
-- 
2.43.0


From a9e5051172544dc387f6824002e47ede2c48e168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:28 +0000
Subject: [PATCH 17/45] fix: compare cwd with the normal form of the input
 paths

---
 src/buildtool/build_engine/target_map/utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/buildtool/build_engine/target_map/utils.cpp b/src/buildtool/build_engine/target_map/utils.cpp
index f424f00..e689511 100644
--- a/src/buildtool/build_engine/target_map/utils.cpp
+++ b/src/buildtool/build_engine/target_map/utils.cpp
@@ -173,11 +173,11 @@ auto BuildMaps::Target::Utils::add_dir_for(
         return stage;
     }
     for (auto const& [path, artifact] : stage->Map()) {
-        if ((path.empty()) or (path == ".")) {
+        auto p = ToNormalPath(std::filesystem::path{path});
+        if (p == ".") {
             // top-level artifact (tree); cannot add tree for cwd
             return stage;
         }
-        auto p = std::filesystem::path{path};
         for (auto c = cwd_path; not c.empty(); c = c.parent_path()) {
             if (c == p) {
                 // adding cwd would add a tree conflict; so nothing to add
-- 
2.43.0


From 0896aef209986eceab4f3d69da8e7086d6af202a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 18/45] fix: look up nested paths of a git tree with its own
 special-entry rule

The recursion of LookupEntryPyPath dropped ignore_special, so entries at
depth three and more below a directory with an upwards link were not found
in roots that ignore special entries.
---
 src/buildtool/file_system/git_tree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buildtool/file_system/git_tree.cpp b/src/buildtool/file_system/git_tree.cpp
index 3b9f3a8..f3a7b8c 100644
--- a/src/buildtool/file_system/git_tree.cpp
+++ b/src/buildtool/file_system/git_tree.cpp
@@ -46,7 +46,7 @@ namespace {
         if (not subtree) {
             return nullptr;
         }
-        return LookupEntryPyPath(*subtree, it, end);
+        return LookupEntryPyPath(*subtree, it, end, ignore_special);
     }
     return entry;
 }
-- 
2.43.0


From 5cca65dd6e8f006cb6cafd7eb476e06f93b20ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:36 +0000
Subject: [PATCH 19/45] fix: report a root description whose scheme is not a
 string

ParseRoot passed it on to IsPrecomputedMarker, where the conversion to a
string throws, which nobody catches.
---
 src/buildtool/file_system/file_root.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buildtool/file_system/file_root.hpp b/src/buildtool/file_system/file_root.hpp
index cb4ce06..be322db 100644
--- a/src/buildtool/file_system/file_root.hpp
+++ b/src/buildtool/file_system/file_root.hpp
@@ -804,7 +804,8 @@ class FileRoot {
                     std::string> {
         using ResultType =
             std::pair<FileRoot, std::optional<std::filesystem::path>>;
-        if ((not root.is_array()) or root.empty()) {
+        if ((not root.is_array()) or root.empty() or
+            (not root[0].is_string())) {
             return unexpected{fmt::format(
                 "Expected {} for {} to be of the form [<scheme>, ...], but "
                 "found {}",
-- 
2.43.0


From 845ddefb2c5e523f81ab745b3709da64edba5686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 20/45] fix: serve actions from cache whose output directories
 are symlinks

A declared output that turned out to be a symlink to a directory was
never considered present in the action result; hence such an action was
never served from cache. In the same way, symlinks were not considered
when checking for the output paths.
---
 src/buildtool/execution_api/utils/outputscheck.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/buildtool/execution_api/utils/outputscheck.hpp b/src/buildtool/execution_api/utils/outputscheck.hpp
index 026fce3..b22f231 100644
--- a/src/buildtool/execution_api/utils/outputscheck.hpp
+++ b/src/buildtool/execution_api/utils/outputscheck.hpp
@@ -52,6 +52,9 @@
         for (auto const& dir : result.output_directories()) {
             actual_output_dirs.emplace(dir.path());
         }
+        for (auto const& dir : result.output_directory_symlinks()) {
+            actual_output_dirs.emplace(dir.path());
+        }
         return std::all_of(expected_dirs.begin(),
                            expected_dirs.end(),
                            [&actual_output_dirs](auto const& expected) {
@@ -77,6 +80,9 @@
         for (auto const& file : result.output_directory_symlinks()) {
             actual_output_paths.emplace(file.path());
         }
+        for (auto const& link : result.output_symlinks()) {
+            actual_output_paths.emplace(link.path());
+        }
         for (auto const& dir : result.output_directories()) {
             actual_output_paths.emplace(dir.path());
         }
-- 
2.43.0


From cb7fac84244b17ab5aff17cac0ba9d8227bd0b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 21/45] fix: tree overlay: take the type of each entry, not of
 the first one with that content

When reading a git tree, entries are grouped by hash; but files,
executables, and symlinks with the same content share the hash.
---
 .../tree_operations/tree_operations_utils.cpp              | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/buildtool/execution_engine/tree_operations/tree_operations_utils.cpp b/src/buildtool/execution_engine/tree_operations/tree_operations_utils.cpp
index fb7d3bf..19005ab 100644
--- a/src/buildtool/execution_engine/tree_operations/tree_operations_utils.cpp
+++ b/src/buildtool/execution_engine/tree_operations/tree_operations_utils.cpp
@@ -117,8 +117,9 @@ auto TreeOperationsUtils::ParseGitTree(std::string const& tree_data,
     tree_entries.reserve(git_entries->size());
     for (auto const& [git_hash, entries] : *git_entries) {
         // Pick the first entry for that git hash to calculate the
-        // object info once, since all follow-up entries will be the
-        // same object, just with a different name.
+        // digest once, since all follow-up entries refer to the same
+        // object, just with a different name and, possibly, with a
+        // different (non-tree) object type.
         auto const& first_entry = entries.front();
         auto digest =
             ArtifactDigestFactory::Create(hash_type,
@@ -134,7 +135,7 @@ auto TreeOperationsUtils::ParseGitTree(std::string const& tree_data,
             tree_entries.insert(
                 {entry.name,
                  TreeEntry{.info = Artifact::ObjectInfo{
-                               .digest = *digest, .type = first_entry.type}}});
+                               .digest = *digest, .type = entry.type}}});
         }
     }
     return tree_entries;
-- 
2.43.0


From c8cdeee11990d163e9d861c99ccd3bac27eea823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 22/45] fix: rehashing: respect the kind of the object when
 using known mappings

The mapping of digests only depends on the hash of the content. Hence
the type of a blob has to be taken from the object to be rehashed, and
a mapping for a directory must not be used for a blob, or vice versa
(in compatible mode, e.g., the empty file and the empty directory have
the same hash). Also, report failure to store a tree, instead of
terminating.
---
 .../bazel_msg/bazel_msg_factory.cpp             | 17 ++++++++++++++---
 .../execution_api/utils/rehash_utils.cpp        | 11 +++++++++--
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/buildtool/execution_api/bazel_msg/bazel_msg_factory.cpp b/src/buildtool/execution_api/bazel_msg/bazel_msg_factory.cpp
index 5e6e6a4..5a7fb19 100644
--- a/src/buildtool/execution_api/bazel_msg/bazel_msg_factory.cpp
+++ b/src/buildtool/execution_api/bazel_msg/bazel_msg_factory.cpp
@@ -577,7 +577,9 @@ auto BazelMsgFactory::CreateGitTreeDigestFromDirectory(
             if (not cached_obj) {
                 return unexpected{cached_obj.error()};
             }
-            if (cached_obj.value()) {
+            // ignore mappings of blobs with the same content
+            if (cached_obj.value() and
+                IsTreeObject(cached_obj.value()->type)) {
                 // no work to be done, just add to map
                 if (auto raw_id =
                         FromHexString(cached_obj.value()->digest.hash())) {
@@ -629,7 +631,9 @@ auto BazelMsgFactory::CreateGitTreeDigestFromDirectory(
             if (not cached_obj) {
                 return unexpected{cached_obj.error()};
             }
-            if (cached_obj.value()) {
+            // ignore mappings of directories with the same content
+            if (cached_obj.value() and
+                not IsTreeObject(cached_obj.value()->type)) {
                 // no work to be done, just add to map
                 if (auto raw_id =
                         FromHexString(cached_obj.value()->digest.hash())) {
@@ -683,7 +687,9 @@ auto BazelMsgFactory::CreateGitTreeDigestFromDirectory(
             if (not cached_obj) {
                 return unexpected{cached_obj.error()};
             }
-            if (cached_obj.value()) {
+            // ignore mappings of directories with the same content
+            if (cached_obj.value() and
+                not IsTreeObject(cached_obj.value()->type)) {
                 // no work to be done, just add to map
                 if (auto raw_id =
                         FromHexString(cached_obj.value()->digest.hash())) {
@@ -735,6 +741,11 @@ auto BazelMsgFactory::CreateGitTreeDigestFromDirectory(
                             digest.hash())};
         }
         auto const tree_digest = store_tree(git_tree->second);
+        if (not tree_digest) {
+            return unexpected{
+                fmt::format("failed storing Git tree for bazel Directory {}",
+                            digest.hash())};
+        }
         // cache digest mapping
         if (auto error_msg =
                 store_rehashed(digest, *tree_digest, ObjectType::Tree)) {
diff --git a/src/buildtool/execution_api/utils/rehash_utils.cpp b/src/buildtool/execution_api/utils/rehash_utils.cpp
index 66d3a57..892f7c9 100644
--- a/src/buildtool/execution_api/utils/rehash_utils.cpp
+++ b/src/buildtool/execution_api/utils/rehash_utils.cpp
@@ -187,9 +187,16 @@ template <std::invocable<ArtifactDigest const&, ObjectType> TReadCallback>
         if (not cached_obj) {
             return unexpected(std::move(cached_obj).error());
         }
-        if (*cached_obj) {
+        // the mapping only depends on the hash of the content; so it must not be
+        // used if it is about a different kind of content (like an empty file
+        // and an empty directory, in compatible mode), and the type of blobs
+        // is always taken from the source object
+        if (*cached_obj and IsTreeObject((*cached_obj)->type) ==
+                                IsTreeObject(source_object.type)) {
             // add object to the vector of compatible artifacts
-            compat_artifacts.emplace_back(std::move(cached_obj)->value());
+            compat_artifacts.emplace_back(
+                Artifact::ObjectInfo{.digest = (*cached_obj)->digest,
+                                     .type = source_object.type});
             continue;
         }
 
-- 
2.43.0


From 75abeec0f935dc276b0b6a75fbcdc00bc0ddf40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 23/45] fix: rehashing: create directory before linking an id
 file to the youngest generation

After a garbage collection, that directory does not exist, so using a
known mapping failed. Also, it is fine if someone else links the file
at the same time.
---
 src/buildtool/execution_api/utils/rehash_utils.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/buildtool/execution_api/utils/rehash_utils.cpp b/src/buildtool/execution_api/utils/rehash_utils.cpp
index 892f7c9..9de0b8c 100644
--- a/src/buildtool/execution_api/utils/rehash_utils.cpp
+++ b/src/buildtool/execution_api/utils/rehash_utils.cpp
@@ -73,9 +73,17 @@ auto ReadRehashedDigest(ArtifactDigest const& digest,
         if (generation != 0) {
             auto dest_id_file = StorageUtils::GetRehashIDFile(
                 source_config, compat_hash_type, digest.hash(), from_git);
-            auto ok = FileSystemManager::CreateFileHardlink(*rehash_id_file,
-                                                            dest_id_file);
-            if (not ok) {
+            // after a rotation of the generations the directory does not exist
+            if (not FileSystemManager::CreateDirectory(
+                    dest_id_file.parent_path())) {
+                return unexpected{
+                    fmt::format("failed to create directory for id file {}",
+                                dest_id_file.string())};
+            }
+            auto ok = FileSystemManager::CreateFileHardlink(
+                *rehash_id_file, dest_id_file, LogLevel::Debug);
+            // the file may have been created by someone else in the meantime
+            if (not ok and ok.error() != std::errc::file_exists) {
                 auto const& err = ok.error();
                 if (err != std::errc::too_many_links) {
                     return unexpected{
-- 
2.43.0


From b721043d13c9bddc1e729971e531ab1b516060b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 24/45] fix: rehashing: do not use mappings to objects that
 were garbage collected

Using a mapping keeps it alive, but not the object it refers to; so,
after some garbage collections, the mapping referred to an object that
is not there.
---
 .../execution_api/utils/rehash_utils.cpp      | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/buildtool/execution_api/utils/rehash_utils.cpp b/src/buildtool/execution_api/utils/rehash_utils.cpp
index 9de0b8c..4fb10ee 100644
--- a/src/buildtool/execution_api/utils/rehash_utils.cpp
+++ b/src/buildtool/execution_api/utils/rehash_utils.cpp
@@ -167,10 +167,26 @@ template <std::invocable<ArtifactDigest const&, ObjectType> TReadCallback>
             return cas.StoreBlob(content);
         };
     BazelMsgFactory::RehashedDigestReadFunc read_rehashed =
-        [&source_config, &target_config, from_git](ArtifactDigest const& digest)
+        [&source_config,
+         &target_config,
+         &cas = target_storage.CAS(),
+         from_git](ArtifactDigest const& digest)
         -> expected<std::optional<Artifact::ObjectInfo>, std::string> {
-        return RehashUtils::ReadRehashedDigest(
+        auto known = RehashUtils::ReadRehashedDigest(
             digest, source_config, target_config, from_git);
+        // The object might have been garbage collected, as using the mapping
+        // does not keep it alive; obtaining the path, however, does.
+        if (known and *known) {
+            auto const& info = **known;
+            auto const path =
+                IsTreeObject(info.type)
+                    ? cas.TreePath(info.digest)
+                    : cas.BlobPath(info.digest, IsExecutableObject(info.type));
+            if (not path) {
+                return std::optional<Artifact::ObjectInfo>{std::nullopt};
+            }
+        }
+        return known;
     };
     BazelMsgFactory::RehashedDigestStoreFunc store_rehashed =
         [&source_config, &target_config, from_git](
-- 
2.43.0


From 00352b1667e7df0cd2332a26713e0ae6dbe37f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:07 +0000
Subject: [PATCH 25/45] fix: hard-linking a symlink that leads nowhere fails
 instead of terminating

std::filesystem::is_regular_file, without an error code given, throws for
a chain of symlinks that does not end; CreateFileHardlink is noexcept.
---
 src/buildtool/file_system/file_system_manager.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buildtool/file_system/file_system_manager.hpp b/src/buildtool/file_system/file_system_manager.hpp
index 2d9a669..3c654bf 100644
--- a/src/buildtool/file_system/file_system_manager.hpp
+++ b/src/buildtool/file_system/file_system_manager.hpp
@@ -241,7 +241,7 @@ class FileSystemManager {
         std::error_code ec{};
         std::filesystem::create_hard_link(file_path, link_path, ec);
         if (not ec) {
-            if (std::filesystem::is_regular_file(link_path)) {
+            if (std::filesystem::is_regular_file(link_path, ec)) {
                 return std::monostate{};
             }
             return unexpected(std::error_code{});
-- 
2.43.0


From 64438f1b647554a1fb48acc9f860cccccb39ac22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:07 +0000
Subject: [PATCH 26/45] fix: resolving a cycle of symlinks fails instead of
 never ending

---
 src/buildtool/file_system/file_system_manager.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/buildtool/file_system/file_system_manager.hpp b/src/buildtool/file_system/file_system_manager.hpp
index 3c654bf..d222905 100644
--- a/src/buildtool/file_system/file_system_manager.hpp
+++ b/src/buildtool/file_system/file_system_manager.hpp
@@ -550,8 +550,17 @@ class FileSystemManager {
     /// \brief Follow a symlink chain without existence check on resulting path
     [[nodiscard]] static auto ResolveSymlinks(
         gsl::not_null<std::filesystem::path*> path) noexcept -> bool {
+        // as many links as commonly followed by operating systems
+        static constexpr int kMaxLinks = 40;
         try {
+            int links = 0;
             while (std::filesystem::is_symlink(*path)) {
+                if (++links > kMaxLinks) {
+                    Logger::Log(LogLevel::Error,
+                                "too many levels of symbolic links at {}",
+                                path->string());
+                    return false;
+                }
                 auto dest = std::filesystem::read_symlink(*path);
                 *path = dest.is_relative()
                             ? (std::filesystem::absolute(*path).parent_path() /
-- 
2.43.0


From 078602fc9952e2e937df20c7a9220e208740dfe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:33 +0000
Subject: [PATCH 27/45] fix: backend description: set hash also if
 default-constructed

... as it is dereferenced by the comparison with any other description.
---
 src/buildtool/storage/backend_description.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buildtool/storage/backend_description.cpp b/src/buildtool/storage/backend_description.cpp
index 0f1a340..a4c3cb8 100644
--- a/src/buildtool/storage/backend_description.cpp
+++ b/src/buildtool/storage/backend_description.cpp
@@ -26,9 +26,11 @@ BackendDescription::BackendDescription() noexcept {
     if (auto dummy = Describe(
             /*address=*/std::nullopt, /*properties=*/{}, /*dispatch=*/{})) {
         description_ = dummy->description_;
+        sha256_ = dummy->sha256_;
     }
     else {
         description_ = std::make_shared<std::string>();
+        sha256_ = std::make_shared<std::string>();
     }
 }
 
-- 
2.43.0


From a3349f47712f928e0b49423b1893b6c51e58b75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:48 +0000
Subject: [PATCH 28/45] fix: just-mr used the module as the target name of
 computed roots

---
 src/other_tools/utils/parse_precomputed_root.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/other_tools/utils/parse_precomputed_root.cpp b/src/other_tools/utils/parse_precomputed_root.cpp
index df52015..c0c6d70 100644
--- a/src/other_tools/utils/parse_precomputed_root.cpp
+++ b/src/other_tools/utils/parse_precomputed_root.cpp
@@ -89,7 +89,7 @@ namespace {
 
     return ComputedRoot{.repository = repo->String(),
                         .target_module = target_module->String(),
-                        .target_name = target_module->String(),
+                        .target_name = target_name->String(),
                         .config = config.IsNotNull() ? config->ToJson()
                                                      : nlohmann::json::object(),
                         .absent = *absent};
-- 
2.43.0


From b9e3c58d4838f8a825c5ecf9f3e5ed144d5d0326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:48 +0000
Subject: [PATCH 29/45] fix: uncaught exception for a tree structure root with
 "repo" not a string

---
 src/other_tools/utils/parse_precomputed_root.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/other_tools/utils/parse_precomputed_root.cpp b/src/other_tools/utils/parse_precomputed_root.cpp
index c0c6d70..8f388e0 100644
--- a/src/other_tools/utils/parse_precomputed_root.cpp
+++ b/src/other_tools/utils/parse_precomputed_root.cpp
@@ -101,6 +101,10 @@ namespace {
     if (not repo.IsNotNull()) {
         return unexpected<std::string>{"Mandatory key \"repo\" is missing"};
     }
+    if (not repo->IsString()) {
+        return unexpected{fmt::format("Unsupported value for key \"repo\":\n{}",
+                                      repo->ToString())};
+    }
 
     auto absent = ParseAbsent(repository);
     if (not absent.has_value()) {
-- 
2.43.0


From 4413387f35f8933107efceda19876ed459fc0d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:48 +0000
Subject: [PATCH 30/45] fix: roots with a file as "subdir" were set up with the
 file's blob as tree

---
 src/buildtool/file_system/git_repo.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/buildtool/file_system/git_repo.cpp b/src/buildtool/file_system/git_repo.cpp
index b5df417..a0e20fb 100644
--- a/src/buildtool/file_system/git_repo.cpp
+++ b/src/buildtool/file_system/git_repo.cpp
@@ -1042,6 +1042,16 @@ auto GitRepo::GetSubtreeFromCommit(std::string const& commit,
                 std::unique_ptr<git_tree_entry, decltype(&tree_entry_closer)>(
                     subtree_entry_ptr, tree_entry_closer);
 
+            if (git_tree_entry_type(subtree_entry.get()) != GIT_OBJECT_TREE) {
+                std::invoke(*logger,
+                            fmt::format("Entry at {} in git repository {} is "
+                                        "not a tree",
+                                        subdir,
+                                        git_cas_->GetPath().string()),
+                            true /*fatal*/);
+                return unexpected{GitLookupError::Fatal};
+            }
+
             std::string subtree_hash{
                 git_oid_tostr_s(git_tree_entry_id(subtree_entry.get()))};
             return subtree_hash;  // success
@@ -1124,6 +1134,16 @@ auto GitRepo::GetSubtreeFromTree(std::string const& tree_id,
                 std::unique_ptr<git_tree_entry, decltype(&tree_entry_closer)>(
                     subtree_entry_ptr, tree_entry_closer);
 
+            if (git_tree_entry_type(subtree_entry.get()) != GIT_OBJECT_TREE) {
+                std::invoke(*logger,
+                            fmt::format("Entry at {} in git repository {} is "
+                                        "not a tree",
+                                        subdir,
+                                        git_cas_->GetPath().string()),
+                            true /*fatal*/);
+                return std::nullopt;
+            }
+
             std::string subtree_hash{
                 git_oid_tostr_s(git_tree_entry_id(subtree_entry.get()))};
             return subtree_hash;
-- 
2.43.0


From dade4b725df440ad274238f06248a42736168e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:36 +0000
Subject: [PATCH 31/45] fix: hashing a directory or missing file must not
 terminate the program

---
 src/buildtool/crypto/hash_function.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/buildtool/crypto/hash_function.cpp b/src/buildtool/crypto/hash_function.cpp
index 985ef88..70d6f47 100644
--- a/src/buildtool/crypto/hash_function.cpp
+++ b/src/buildtool/crypto/hash_function.cpp
@@ -17,6 +17,7 @@
 #include <cstddef>
 #include <exception>
 #include <string_view>
+#include <system_error>
 
 #include "src/buildtool/logging/log_level.hpp"
 #include "src/buildtool/logging/logger.hpp"
@@ -71,7 +72,15 @@ auto HashFunction::HashTreeFile(std::filesystem::path const& path) const
 auto HashFunction::HashTaggedFile(std::filesystem::path const& path,
                                   TagCreator const& tag_creator) const noexcept
     -> std::optional<std::pair<Hasher::HashDigest, std::uintmax_t>> {
-    auto const size = std::filesystem::file_size(path);
+    std::error_code error{};
+    auto const size = std::filesystem::file_size(path, error);
+    if (error) {
+        Logger::Log(LogLevel::Debug,
+                    "Failed to get the size of {}: {}",
+                    path.string(),
+                    error.message());
+        return std::nullopt;
+    }
 
     static constexpr std::size_t kChunkSize{4048};
     auto hasher = MakeHasher();
-- 
2.43.0


From 78026a87b6b7a83112a9041a199b2f1ae160bbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:36 +0000
Subject: [PATCH 32/45] fix: just-mr must not loop forever on cyclic workspace
 roots

---
 src/other_tools/just_mr/setup_utils.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/other_tools/just_mr/setup_utils.cpp b/src/other_tools/just_mr/setup_utils.cpp
index 31b7436..fb6e69d 100644
--- a/src/other_tools/just_mr/setup_utils.cpp
+++ b/src/other_tools/just_mr/setup_utils.cpp
@@ -65,7 +65,11 @@ void WarnUnknownKeys(std::string const& name, ExpressionPtr const& repo_def) {
     // Resolve indirections while the root's workspace root is declared
     // implicitly:
     ExpressionPtr root{name};
+    std::unordered_set<std::string> seen{};
     while (root.IsNotNull() and root->IsString()) {
+        if (not seen.insert(root->String()).second) {
+            return std::nullopt;  // cyclic, reported when set up
+        }
         auto const repo = repos->Get(root->String(), Expression::none_t{});
         if (not repo.IsNotNull() or not repo->IsMap()) {
             return std::nullopt;
-- 
2.43.0


From 7da852f0a228e624767e350fea28c1e5b9bdaab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:36 +0000
Subject: [PATCH 33/45] fix: malformed repositories of a distdir must not crash
 just-mr

---
 src/other_tools/repo_map/repos_to_setup_map.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/other_tools/repo_map/repos_to_setup_map.cpp b/src/other_tools/repo_map/repos_to_setup_map.cpp
index e6f738d..2026644 100644
--- a/src/other_tools/repo_map/repos_to_setup_map.cpp
+++ b/src/other_tools/repo_map/repos_to_setup_map.cpp
@@ -467,6 +467,13 @@ void DistdirCheckout(ExpressionPtr const& repo_desc,
                       /*fatal=*/true);
             return;
         }
+        if (not repos_dist_repo_name->get()->IsMap()) {
+            (*logger)(fmt::format("DistdirCheckout: Config entry for "
+                                  "repository {} is not a map",
+                                  nlohmann::json(dist_repo_name).dump()),
+                      /*fatal=*/true);
+            return;
+        }
         auto repo_desc = repos_dist_repo_name->get()->At("repository");
         if (not repo_desc) {
             (*logger)(
@@ -486,6 +493,13 @@ void DistdirCheckout(ExpressionPtr const& repo_desc,
                 /*fatal=*/true);
             return;
         }
+        if (not resolved_repo_desc.value()->IsMap()) {
+            (*logger)(fmt::format("DistdirCheckout: Repository {} resolves to "
+                                  "a non-map description",
+                                  nlohmann::json(dist_repo_name).dump()),
+                      /*fatal=*/true);
+            return;
+        }
         auto repo_type = (*resolved_repo_desc)->At("type");
         if (not repo_type) {
             (*logger)(
-- 
2.43.0


From e0e704812405c785b875e3d4e941084940fea016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:36 +0000
Subject: [PATCH 34/45] fix: extracting an archive must not write outside of
 the destination

---
 src/utils/archive/archive_ops.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/utils/archive/archive_ops.cpp b/src/utils/archive/archive_ops.cpp
index 83090ea..01244de 100644
--- a/src/utils/archive/archive_ops.cpp
+++ b/src/utils/archive/archive_ops.cpp
@@ -365,6 +365,9 @@ auto ArchiveOps::ExtractArchive(ArchiveType type,
         uint flags = ARCHIVE_EXTRACT_TIME;
         flags |= static_cast<uint>(ARCHIVE_EXTRACT_PERM);
         flags |= static_cast<uint>(ARCHIVE_EXTRACT_FFLAGS);
+        // never write outside of the destination directory
+        flags |= static_cast<uint>(ARCHIVE_EXTRACT_SECURE_NODOTDOT);
+        flags |= static_cast<uint>(ARCHIVE_EXTRACT_SECURE_SYMLINKS);
         archive_write_disk_set_options(disk.get(), static_cast<int>(flags));
         archive_write_disk_set_standard_lookup(disk.get());
         // make sure destination directory exists
@@ -373,6 +376,8 @@ auto ArchiveOps::ExtractArchive(ArchiveType type,
                        "ArchiveOps: could not create destination directory ") +
                    destDir.string();
         }
+        // the destination itself may well be reached via symlinks
+        auto const root = std::filesystem::canonical(destDir);
         // extract the archive
         archive_entry* entry{nullptr};
         while (true) {
@@ -386,14 +391,16 @@ auto ArchiveOps::ExtractArchive(ArchiveType type,
             }
             // set correct destination path
             auto new_entry_path =
-                destDir / std::filesystem::path(archive_entry_pathname(entry));
+                root / std::filesystem::path(archive_entry_pathname(entry))
+                           .relative_path();
             archive_entry_set_pathname(entry, new_entry_path.c_str());
 
             // hardlinks must point to real files, make sure its relative file
             // path is properly "rebased" on the destDir.
             auto const* hardlink = archive_entry_hardlink(entry);
             if (hardlink != nullptr) {
-                auto new_hardlink = destDir / hardlink;
+                auto new_hardlink =
+                    root / std::filesystem::path(hardlink).relative_path();
                 archive_entry_set_hardlink(entry, new_hardlink.c_str());
             }
 
-- 
2.43.0


From ae9b96bac888797f3edb140cd07879caaa4fc777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:06 +0000
Subject: [PATCH 35/45] fix: tell artifacts from look-alike maps in identity of
 nodes and results

The hash of a result, and that of a node, was computed from its JSON
representation, in which an artifact coincides with the plain map of the
same form. Thus, different values were taken for the same one; in
particular, in serialized target results one got replaced by the other.
---
 .../build_engine/expression/expression.cpp    | 37 ++++++++++++++-----
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/src/buildtool/build_engine/expression/expression.cpp b/src/buildtool/build_engine/expression/expression.cpp
index 17e25fc..ba4ca28 100644
--- a/src/buildtool/build_engine/expression/expression.cpp
+++ b/src/buildtool/build_engine/expression/expression.cpp
@@ -229,19 +229,13 @@ auto Expression::ComputeHash() const noexcept -> std::string {
     // identification and quick comparison of expressions. SHA256 is used.
     HashFunction const hash_function{HashFunction::Type::PlainSHA256};
     if (IsNone() or IsBool() or IsNumber() or IsString() or IsArtifact() or
-        IsResult() or IsNode() or IsName()) {
-        // just hash the JSON representation, but prepend "@" for artifact,
-        // "=" for result, "#" for node, and "$" for name.
+        IsName()) {
+        // just hash the JSON representation, but prepend "@" for artifact and
+        // "$" for name.
         std::string prefix;
         if (IsArtifact()) {
             prefix = "@";
         }
-        else if (IsResult()) {
-            prefix = "=";
-        }
-        else if (IsNode()) {
-            prefix = "#";
-        }
         else if (IsName()) {
             prefix = "$";
         }
@@ -264,6 +258,31 @@ auto Expression::ComputeHash() const noexcept -> std::string {
                 hasher.Update(el.second->ToHash());
             }
         }
+        else if (IsResult()) {
+            // The JSON representation does not tell artifacts from maps that
+            // coincide with their JSON encoding; so combine the hashes.
+            auto const& result = Result();
+            hasher.Update("=");
+            hasher.Update(result.artifact_stage->ToHash());
+            hasher.Update(result.runfiles->ToHash());
+            hasher.Update(result.provides->ToHash());
+        }
+        else if (IsNode()) {
+            auto const& node = Node();
+            hasher.Update("#");
+            if (node.IsValue()) {
+                hasher.Update("=");
+                hasher.Update(node.GetValue()->ToHash());
+            }
+            else {
+                auto const& data = node.GetAbstract();
+                hasher.Update("@");
+                hasher.Update(
+                    hash_function.PlainHashData(data.node_type).Bytes());
+                hasher.Update(data.string_fields->ToHash());
+                hasher.Update(data.target_fields->ToHash());
+            }
+        }
         hash = std::move(hasher).Finalize().Bytes();
     }
     return hash;
-- 
2.43.0


From 5952d42b0d1ad63880637e1f821ab9b48b0b0871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:16 +0000
Subject: [PATCH 36/45] fix: malformed serialized target results must be
 rejected

Missing fields were accessed in undefined ways, and null pointers stored
in nodes.
---
 .../build_engine/expression/target_result.cpp | 40 +++++++++++--------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/buildtool/build_engine/expression/target_result.cpp b/src/buildtool/build_engine/expression/target_result.cpp
index bb5712b..738f930 100644
--- a/src/buildtool/build_engine/expression/target_result.cpp
+++ b/src/buildtool/build_engine/expression/target_result.cpp
@@ -213,11 +213,11 @@ auto SerializeTargetResultWithReplacement(
             return ExpressionPtr{nullptr};
         }
         if (provided_nodes.contains(id)) {
-            if (json["type"] == "ABSTRACT_NODE") {
-                auto node_type = json["node_type"].get<std::string>();
+            if (json.at("type") == "ABSTRACT_NODE") {
+                auto node_type = json.at("node_type").get<std::string>();
                 auto target_fields =
                     DeserializeExpression(hash_type,
-                                          json["target_fields"],
+                                          json.at("target_fields"),
                                           nodes,
                                           provided_artifacts,
                                           provided_nodes,
@@ -225,12 +225,15 @@ auto SerializeTargetResultWithReplacement(
                                           sofar);
                 auto string_fields =
                     DeserializeExpression(hash_type,
-                                          json["string_fields"],
+                                          json.at("string_fields"),
                                           nodes,
                                           provided_artifacts,
                                           provided_nodes,
                                           provided_results,
                                           sofar);
+                if (not target_fields or not string_fields) {
+                    return ExpressionPtr{nullptr};
+                }
                 auto result = ExpressionPtr{TargetNode{
                     TargetNode::Abstract{.node_type = node_type,
                                          .string_fields = string_fields,
@@ -238,14 +241,17 @@ auto SerializeTargetResultWithReplacement(
                 sofar->emplace(id, result);
                 return result;
             }
-            if (json["type"] == "VALUE_NODE") {
+            if (json.at("type") == "VALUE_NODE") {
                 auto value = DeserializeExpression(hash_type,
-                                                   json["result"],
+                                                   json.at("result"),
                                                    nodes,
                                                    provided_artifacts,
                                                    provided_nodes,
                                                    provided_results,
                                                    sofar);
+                if (not value) {
+                    return ExpressionPtr{nullptr};
+                }
                 auto result = ExpressionPtr{TargetNode{value}};
                 sofar->emplace(id, result);
                 return result;
@@ -254,21 +260,21 @@ auto SerializeTargetResultWithReplacement(
         }
         if (provided_results.contains(id)) {
             auto artifact_stage = DeserializeExpression(hash_type,
-                                                        json["artifact_stage"],
+                                                        json.at("artifact_stage"),
                                                         nodes,
                                                         provided_artifacts,
                                                         provided_nodes,
                                                         provided_results,
                                                         sofar);
             auto runfiles = DeserializeExpression(hash_type,
-                                                  json["runfiles"],
+                                                  json.at("runfiles"),
                                                   nodes,
                                                   provided_artifacts,
                                                   provided_nodes,
                                                   provided_results,
                                                   sofar);
             auto provides = DeserializeExpression(hash_type,
-                                                  json["provides"],
+                                                  json.at("provides"),
                                                   nodes,
                                                   provided_artifacts,
                                                   provided_nodes,
@@ -406,11 +412,11 @@ auto JsonSet(nlohmann::json const& j) -> std::unordered_set<std::string> {
     -> ExpressionPtr {
     std::unordered_map<std::string, ExpressionPtr> sofar{};
     return DeserializeExpression(hash_type,
-                                 json["entry"],
-                                 json["nodes"],
-                                 JsonSet(json["provided_artifacts"]),
-                                 JsonSet(json["provided_nodes"]),
-                                 JsonSet(json["provided_results"]),
+                                 json.at("entry"),
+                                 json.at("nodes"),
+                                 JsonSet(json.at("provided_artifacts")),
+                                 JsonSet(json.at("provided_nodes")),
+                                 JsonSet(json.at("provided_results")),
                                  &sofar);
 }
 
@@ -451,9 +457,9 @@ auto TargetResult::FromJson(HashFunction::Type hash_type,
                             nlohmann::json const& json) noexcept
     -> std::optional<TargetResult> {
     try {
-        auto artifacts = DeserializeArtifactMap(hash_type, json["artifacts"]);
-        auto runfiles = DeserializeArtifactMap(hash_type, json["runfiles"]);
-        auto provides = DeserializeProvidesMap(hash_type, json["provides"]);
+        auto artifacts = DeserializeArtifactMap(hash_type, json.at("artifacts"));
+        auto runfiles = DeserializeArtifactMap(hash_type, json.at("runfiles"));
+        auto provides = DeserializeProvidesMap(hash_type, json.at("provides"));
         if (artifacts and runfiles and provides) {
             return TargetResult{artifacts, provides, runfiles};
         }
-- 
2.43.0


From 22aeb85c3856bca5c823e0d9e49410753a6f16a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:32 +0000
Subject: [PATCH 37/45] fix: escape_chars must not split characters

Comparing bytes, it also escaped characters sharing a byte with one of
those to escape; inserting the prefix within a character yields invalid
UTF-8, on which serialization fails.
---
 .../build_engine/expression/evaluator.cpp     | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/buildtool/build_engine/expression/evaluator.cpp b/src/buildtool/build_engine/expression/evaluator.cpp
index 2ec7ae9..a133b80 100644
--- a/src/buildtool/build_engine/expression/evaluator.cpp
+++ b/src/buildtool/build_engine/expression/evaluator.cpp
@@ -17,6 +17,7 @@
 #include <algorithm>
 #include <cmath>
 #include <compare>
+#include <cstddef>
 #include <cstdint>
 #include <cstdlib>
 #include <exception>
@@ -821,11 +822,19 @@ auto EscapeCharsExpr(SubExprEvaluator&& eval,
     auto chars = eval(expr->Get("chars", ""s), env);
     auto escape_prefix = eval(expr->Get("escape_prefix", "\\"s), env);
     std::stringstream ss{};
-    std::for_each(
-        string->String().begin(), string->String().end(), [&](auto const& c) {
-            auto do_escape = chars->String().find(c) != std::string::npos;
-            ss << (do_escape ? escape_prefix->String() : "") << c;
-        });
+    auto const& text = string->String();
+    for (std::size_t pos = 0; pos < text.size();) {
+        // proceed by characters, i.e., never split an UTF-8 sequence
+        auto end = pos + 1;
+        while (end < text.size() and
+               (static_cast<unsigned char>(text[end]) & 0xC0U) == 0x80U) {
+            ++end;
+        }
+        auto const c = text.substr(pos, end - pos);
+        auto do_escape = chars->String().find(c) != std::string::npos;
+        ss << (do_escape ? escape_prefix->String() : "") << c;
+        pos = end;
+    }
     return ExpressionPtr{ss.str()};
 }
 
-- 
2.43.0


From 639d4aed766b9863f3695cb31cd248f3e7e90a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:41 +0000
Subject: [PATCH 38/45] fix: file names that are not UTF-8 must not terminate
 the process

Globs and explicit trees refer to all entries of a directory; names that
are not valid UTF-8 cannot be represented in JSON, and the exception when
trying to do so was not handled.
---
 .../build_engine/target_map/target_map.cpp    | 37 +++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/buildtool/build_engine/target_map/target_map.cpp b/src/buildtool/build_engine/target_map/target_map.cpp
index c6a34f9..b0af454 100644
--- a/src/buildtool/build_engine/target_map/target_map.cpp
+++ b/src/buildtool/build_engine/target_map/target_map.cpp
@@ -38,6 +38,7 @@
 #include <vector>
 
 #include "fmt/core.h"
+#include "nlohmann/json.hpp"
 #include "src/buildtool/build_engine/analysed_target/target_graph_information.hpp"
 #include "src/buildtool/build_engine/base_maps/entity_name.hpp"
 #include "src/buildtool/build_engine/base_maps/entity_name_data.hpp"
@@ -1710,6 +1711,22 @@ void withTargetNode(
     }
 }
 
+// Names end up in JSON, which can only represent UTF-8 strings; so files with
+// other names can be referenced neither explicitly nor implicitly.
+[[nodiscard]] auto IsUtf8(std::string const& name) noexcept -> bool {
+    try {
+        return not nlohmann::json(name).dump().empty();
+    } catch (...) {
+        return false;
+    }
+}
+
+void ReportNonUtf8Entry(
+    const BuildMaps::Target::TargetMap::LoggerPtr& logger) {
+    (*logger)("Directory contains an entry with a name that is not valid UTF-8",
+              /*fatal=*/true);
+}
+
 void TreeTarget(
     const gsl::not_null<AnalyseContext*>& context,
     const BuildMaps::Target::ConfiguredTarget& key,
@@ -1768,6 +1785,10 @@ void TreeTarget(
             std::vector<ConfiguredTarget> v;
 
             for (const auto& x : dir_entries.FilesIterator()) {
+                if (not IsUtf8(x)) {
+                    ReportNonUtf8Entry(logger);
+                    return;
+                }
                 v.emplace_back(ConfiguredTarget{
                     .target =
                         BuildMaps::Base::EntityName{
@@ -1779,6 +1800,10 @@ void TreeTarget(
             }
 
             for (const auto& x : dir_entries.SymlinksIterator()) {
+                if (not IsUtf8(x)) {
+                    ReportNonUtf8Entry(logger);
+                    return;
+                }
                 v.emplace_back(ConfiguredTarget{
                     .target =
                         BuildMaps::Base::EntityName{
@@ -1790,6 +1815,10 @@ void TreeTarget(
             }
 
             for (const auto& x : dir_entries.DirectoriesIterator()) {
+                if (not IsUtf8(x)) {
+                    ReportNonUtf8Entry(logger);
+                    return;
+                }
                 v.emplace_back(ConfiguredTarget{
                     .target =
                         BuildMaps::Base::EntityName{
@@ -1890,6 +1919,10 @@ void GlobTargetWithDirEntry(
     std::vector<BuildMaps::Base::EntityName> matches;
     for (auto const& x : dir.FilesIterator()) {
         if (fnmatch(pattern.c_str(), x.c_str(), 0) == 0) {
+            if (not IsUtf8(x)) {
+                ReportNonUtf8Entry(logger);
+                return;
+            }
             matches.emplace_back(target.repository,
                                  target.module,
                                  x,
@@ -1898,6 +1931,10 @@ void GlobTargetWithDirEntry(
     }
     for (auto const& x : dir.SymlinksIterator()) {
         if (fnmatch(pattern.c_str(), x.c_str(), 0) == 0) {
+            if (not IsUtf8(x)) {
+                ReportNonUtf8Entry(logger);
+                return;
+            }
             matches.emplace_back(target.repository,
                                  target.module,
                                  x,
-- 
2.43.0


From 1905a5f5fa4fcb6a824a8dedee11c20d55f03d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:01 +0000
Subject: [PATCH 39/45] fix: retrieved files must have the mode requested for
 each of them

Files were retrieved as hard links to one temporary file per digest, so
that a file and an executable with the same content shared one inode, and
hence one mode. Copy, as is done for local retrieval.
---
 src/buildtool/execution_api/remote/bazel/bazel_api.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/buildtool/execution_api/remote/bazel/bazel_api.cpp b/src/buildtool/execution_api/remote/bazel/bazel_api.cpp
index 11cb765..1463f1d 100644
--- a/src/buildtool/execution_api/remote/bazel/bazel_api.cpp
+++ b/src/buildtool/execution_api/remote/bazel/bazel_api.cpp
@@ -250,8 +250,9 @@ auto BazelApi::CreateAction(
                 written = IsSymlinkObject(type)
                               ? FileSystemManager::CopySymlinkAs<
                                     /*kSetEpochTime=*/true>(*path, dst)
-                              : FileSystemManager::CreateFileHardlinkAs<
-                                    /*kSetEpochTime=*/true>(*path, dst, type);
+                              : FileSystemManager::CopyFileAs<
+                                    /*kSetEpochTime=*/true,
+                                    /*kSetWritable=*/true>(*path, dst, type);
             }
         }
 
-- 
2.43.0


From 933a0eaff3c25d39778b5c1e59d6fd64115179cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:02 +0000
Subject: [PATCH 40/45] fix: blobs fetched in a batch must have the digest they
 are announced with

A blob with other data was added to the local CAS under the digest of that
data, and fetching reported as success, with the object requested absent.
---
 src/buildtool/execution_api/remote/bazel/bazel_cas_client.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/buildtool/execution_api/remote/bazel/bazel_cas_client.cpp b/src/buildtool/execution_api/remote/bazel/bazel_cas_client.cpp
index 5ce870a..881f066 100644
--- a/src/buildtool/execution_api/remote/bazel/bazel_cas_client.cpp
+++ b/src/buildtool/execution_api/remote/bazel/bazel_cas_client.cpp
@@ -181,7 +181,8 @@ auto BazelCasClient::BatchReadBlobs(
                                                           : ObjectType::File,
                                     temp_space_,
                                     r.data());
-                                if (not blob.has_value()) {
+                                if (not blob.has_value() or
+                                    blob->GetDigest() != *ref.value()) {
                                     return;
                                 }
                                 v->emplace_back(*std::move(blob));
-- 
2.43.0


From e1445555f27b968cc2553d756da03542b7960c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:02 +0000
Subject: [PATCH 41/45] fix: count uploaded blobs, not the distinct digests
 among them

Blobs with the same content, but of different type, have the same digest,
so uploading them was wrongly considered a failure.
---
 .../execution_api/remote/bazel/bazel_cas_client.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/buildtool/execution_api/remote/bazel/bazel_cas_client.cpp b/src/buildtool/execution_api/remote/bazel/bazel_cas_client.cpp
index 881f066..c1eabfb 100644
--- a/src/buildtool/execution_api/remote/bazel/bazel_cas_client.cpp
+++ b/src/buildtool/execution_api/remote/bazel/bazel_cas_client.cpp
@@ -529,7 +529,14 @@ auto BazelCasClient::BatchUpdateBlobs(std::string const& instance_name,
         return oss.str();
     });
 
-    auto const missing = blobs.size() - updated.size();
+    // Different blobs may share a digest (e.g., a file and an executable with
+    // the same content), so count blobs rather than digests.
+    auto const received = static_cast<std::size_t>(std::count_if(
+        blobs.begin(), blobs.end(), [&updated](ArtifactBlob const& blob) {
+            return updated.contains(
+                ArtifactDigestFactory::ToBazel(blob.GetDigest()));
+        }));
+    auto const missing = blobs.size() - received;
     if (not updated.empty() and missing != 0) {
         // The remote execution protocol is a bit unclear about how to deal with
         // blob updates for which we got no response. While some clients
@@ -546,7 +553,7 @@ auto BazelCasClient::BatchUpdateBlobs(std::string const& instance_name,
                 missing_blobs.emplace(blob);
             }
         }
-        return updated.size() + BatchUpdateBlobs(instance_name, missing_blobs);
+        return received + BatchUpdateBlobs(instance_name, missing_blobs);
     }
     if (updated.empty() and missing != 0) {
         // The batch upload did not make _any_ progress. So there is no value in
@@ -559,7 +566,7 @@ auto BazelCasClient::BatchUpdateBlobs(std::string const& instance_name,
                                  return UpdateSingleBlob(instance_name, blob);
                              });
     }
-    return updated.size();
+    return received;
 }
 
 auto BazelCasClient::GetMaxBatchTransferSize(
-- 
2.43.0


From c32697d4c147e0719d507b2f42b0bb531416d9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:03 +0000
Subject: [PATCH 42/45] fix: unreadable trees fail their uplinking instead of
 the process

---
 src/buildtool/storage/local_cas.tpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/buildtool/storage/local_cas.tpp b/src/buildtool/storage/local_cas.tpp
index 91edb1f..7b2dc10 100644
--- a/src/buildtool/storage/local_cas.tpp
+++ b/src/buildtool/storage/local_cas.tpp
@@ -120,6 +120,9 @@ auto LocalCAS<kDoGlobalUplink>::LocalUplinkGitTree(
 
     // Determine tree entries.
     auto content = FileSystemManager::ReadFile(*tree_path);
+    if (not content) {
+        return false;
+    }
     auto skip_symlinks = [](auto const& /*unused*/) { return true; };
     auto tree_entries = GitRepo::ReadTreeData(*content,
                                               digest.hash(),
@@ -202,7 +205,7 @@ auto LocalCAS<kDoGlobalUplink>::LocalUplinkBazelDirectory(
     // Determine bazel directory entries.
     auto content = FileSystemManager::ReadFile(*dir_path);
     bazel_re::Directory dir{};
-    if (not dir.ParseFromString(*content)) {
+    if (not content or not dir.ParseFromString(*content)) {
         return false;
     }
 
-- 
2.43.0


From f9b64e4ec6aa45bee0b07353f5d0c9f32a9021c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:03 +0000
Subject: [PATCH 43/45] fix: an object is not uplinked if its large entry could
 not be

---
 src/buildtool/storage/local_cas.tpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/buildtool/storage/local_cas.tpp b/src/buildtool/storage/local_cas.tpp
index 7b2dc10..83c9cfb 100644
--- a/src/buildtool/storage/local_cas.tpp
+++ b/src/buildtool/storage/local_cas.tpp
@@ -60,8 +60,11 @@ auto LocalCAS<kDoGlobalUplink>::LocalUplinkBlob(
         // to BlobPath might return different results: The first call splices
         // and uplinks the object, but fails at large entry uplinking. The
         // second call finds the tree in the youngest generation and returns.
-        std::ignore = LocalUplinkLargeObject<ObjectType::File>(latest, digest);
-        if (not splice_result) {
+        // If the large entry could not be uplinked, the object itself has to
+        // be stored.
+        bool const uplinked =
+            LocalUplinkLargeObject<ObjectType::File>(latest, digest);
+        if (uplinked and not splice_result) {
             return true;
         }
     }
@@ -166,8 +169,11 @@ auto LocalCAS<kDoGlobalUplink>::LocalUplinkGitTree(
         // to TreePath might return different results: The first call splices
         // and uplinks the object, but fails at large entry uplinking. The
         // second call finds the tree in the youngest generation and returns.
-        std::ignore = LocalUplinkLargeObject<ObjectType::Tree>(latest, digest);
-        if (not splice_result) {
+        // If the large entry could not be uplinked, the object itself has to
+        // be stored.
+        bool const uplinked =
+            LocalUplinkLargeObject<ObjectType::Tree>(latest, digest);
+        if (uplinked and not splice_result) {
             return true;
         }
     }
@@ -233,6 +239,7 @@ auto LocalCAS<kDoGlobalUplink>::LocalUplinkBazelDirectory(
 
     // Determine bazel directory path in latest generation.
     auto const dir_path_latest = latest.cas_tree_.BlobPath(digest);
+    bool uplinked = false;
     if (spliced != nullptr) {
         // Uplink the large entry afterwards:
         // The result of uplinking of a large object must not affect the
@@ -241,10 +248,12 @@ auto LocalCAS<kDoGlobalUplink>::LocalUplinkBazelDirectory(
         // splices and uplinks the object, but fails at large entry
         // uplinking. The second call finds the tree in the youngest
         // generation and returns.
-        std::ignore = LocalUplinkLargeObject<ObjectType::Tree>(latest, digest);
+        // If the large entry could not be uplinked, the object itself has to
+        // be stored.
+        uplinked = LocalUplinkLargeObject<ObjectType::Tree>(latest, digest);
     }
 
-    bool const skip_store = spliced != nullptr and not splice_result;
+    bool const skip_store = uplinked and not splice_result;
     // Uplink bazel directory from older generation to the latest
     // generation.
     if (skip_store or dir_path_latest.has_value() or
-- 
2.43.0


From ef369590f7e8730ecd1a0b481c7a55db34061eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:03 +0000
Subject: [PATCH 44/45] fix: splitting fails if the large entry cannot be
 stored

---
 src/buildtool/storage/large_object_cas.tpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/buildtool/storage/large_object_cas.tpp b/src/buildtool/storage/large_object_cas.tpp
index adc9570..7455c0f 100644
--- a/src/buildtool/storage/large_object_cas.tpp
+++ b/src/buildtool/storage/large_object_cas.tpp
@@ -177,7 +177,15 @@ auto LargeObjectCAS<kDoGlobalUplink, kType>::Split(ArtifactDigest const& digest)
                              fmt::format("could not split {}", digest.hash())}};
     }
 
-    std::ignore = WriteEntry(digest, parts);
+    // Objects split into a single part have no large entry. For all others,
+    // the large entry is needed to splice the object again, so callers may not
+    // rely on the parts if it is missing.
+    if (parts.size() > 1 and not WriteEntry(digest, parts)) {
+        return unexpected{LargeObjectError{
+            LargeObjectErrorCode::Internal,
+            fmt::format("could not store the large entry for {}",
+                        digest.hash())}};
+    }
     return parts;
 }
 
-- 
2.43.0


From 2bd542f83aa51646fa737a2519ea061b2044746d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:03 +0000
Subject: [PATCH 45/45] fix: a large entry that cannot be read is not reported
 as uplinked

---
 src/buildtool/storage/large_object_cas.tpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/buildtool/storage/large_object_cas.tpp b/src/buildtool/storage/large_object_cas.tpp
index 7455c0f..b645a43 100644
--- a/src/buildtool/storage/large_object_cas.tpp
+++ b/src/buildtool/storage/large_object_cas.tpp
@@ -268,8 +268,9 @@ auto LargeObjectCAS<kDoGlobalUplink, kType>::LocalUplink(
     // Check the large entry in the current generation:
     auto parts = ReadEntry(digest);
     if (not parts) {
-        // No large entry or the object is not large
-        return true;
+        // No large entry or the object is not large; an existing entry that
+        // cannot be read is not uplinked.
+        return not GetEntryPath(digest).has_value();
     }
 
     // Promoting the parts of the large entry:
-- 
2.43.0

