From 9a2e136fe9a9a77ab818bcb98c3675693eaf99f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:06 +0000
Subject: [PATCH 01/17] fix: break ties between contexts at the same source
 location deterministically

Implicit instantiations of one template share a source location, so their
order in the generated code depended on the addresses of the graph nodes.
---
 src/decl_context_graph_processing.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/decl_context_graph_processing.cpp b/src/decl_context_graph_processing.cpp
index fb48b58..5fa11be 100644
--- a/src/decl_context_graph_processing.cpp
+++ b/src/decl_context_graph_processing.cpp
@@ -472,12 +472,24 @@ genpybind::declContextsSortedByDependencies(
 
   IsBeforeInTranslationUnit is_before(source_manager);
 
+  // Several nodes can share one source location (e.g. implicit instantiations
+  // of the same template).  Fall back to the position in the graph, as the
+  // result would otherwise depend on the addresses of the nodes.
+  llvm::DenseMap<const DeclContextNode *, unsigned> graph_position(
+      graph.size());
+  for (const DeclContextNode *node : llvm::depth_first(&graph))
+    graph_position.try_emplace(node, graph_position.size());
+
   auto nodes = lexicographicalTopologicalSort(
       &graph, find_predecessors,
       [&](const DeclContextNode *lhs, const DeclContextNode *rhs) {
         // Note: Larger elements are sorted earlier, thus the arguments are
         // swapped here.
-        return is_before(rhs->getDecl(), lhs->getDecl());
+        if (is_before(rhs->getDecl(), lhs->getDecl()))
+          return true;
+        if (is_before(lhs->getDecl(), rhs->getDecl()))
+          return false;
+        return graph_position.lookup(rhs) < graph_position.lookup(lhs);
       });
 
   bool cycle_detected = nodes.size() != graph.size();
-- 
2.43.0


From 6a0ab51e6dd2d276752ac3d9ae0b06ef87cd1836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:23 +0000
Subject: [PATCH 02/17] fix: report unreachable contexts in a deterministic
 order

The contexts were collected in the iteration order of a hash set keyed by
address, which decided the order of warnings at the same source location.
---
 include/genpybind/decl_context_graph_processing.h | 5 +++--
 src/decl_context_graph_processing.cpp             | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/genpybind/decl_context_graph_processing.h b/include/genpybind/decl_context_graph_processing.h
index 2296bf1..e6a16ab 100644
--- a/include/genpybind/decl_context_graph_processing.h
+++ b/include/genpybind/decl_context_graph_processing.h
@@ -8,7 +8,7 @@
 #include "genpybind/decl_context_graph_builder.h"
 
 #include <llvm/ADT/DenseMap.h>
-#include <llvm/ADT/DenseSet.h>
+#include <llvm/ADT/SetVector.h>
 #include <llvm/ADT/SmallVector.h>
 #include <llvm/ADT/StringRef.h>
 
@@ -44,7 +44,8 @@ EffectiveVisibilityMap
 deriveEffectiveVisibility(const DeclContextGraph &graph,
                           const AnnotationStorage &annotations);
 
-using ConstDeclContextSet = llvm::DenseSet<const clang::DeclContext *>;
+/// Set of declaration contexts with a deterministic iteration order.
+using ConstDeclContextSet = llvm::SetVector<const clang::DeclContext *>;
 
 /// Returns the set of reachable declaration contexts, which is implicitly
 /// encoded in the domain of the effective visibility map.
diff --git a/src/decl_context_graph_processing.cpp b/src/decl_context_graph_processing.cpp
index 5fa11be..3395339 100644
--- a/src/decl_context_graph_processing.cpp
+++ b/src/decl_context_graph_processing.cpp
@@ -309,7 +309,7 @@ void genpybind::hideNamespacesBasedOnExposeInAnnotation(
       visited.setDominator(*it);
     }
     const clang::DeclContext *decl_context = it->getDeclContext();
-    contexts_with_visible_decls.erase(decl_context);
+    contexts_with_visible_decls.remove(decl_context);
     visibilities[decl_context] = false;
   }
 }
@@ -369,7 +369,8 @@ void genpybind::reportUnreachableVisibleDeclContexts(
     unreachable_decls.push_back(decl);
   }
 
-  llvm::sort(unreachable_decls, IsBeforeInTranslationUnit(source_manager));
+  llvm::stable_sort(unreachable_decls,
+                    IsBeforeInTranslationUnit(source_manager));
   for (const auto *decl : unreachable_decls)
     Diagnostics::report(decl, Diagnostics::Kind::UnreachableDeclContextWarning)
         << getNameForDisplay(decl);
-- 
2.43.0


From d57c71f10ad775784a42325e48496575d0b1c13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:23 +0000
Subject: [PATCH 03/17] fix: do not count an implicit argument for keep_alive
 on static methods

The nurse and patient of a static method were both off by one, so the wrong
objects (or none) were kept alive.
---
 src/annotated_decl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/annotated_decl.cpp b/src/annotated_decl.cpp
index 66583bd..06e7722 100644
--- a/src/annotated_decl.cpp
+++ b/src/annotated_decl.cpp
@@ -627,8 +627,11 @@ bool genpybind::processAnnotation(const clang::NamedDecl *decl,
     return dispatch
         .binary(LiteralValue::Kind::String,
                 [&](const LiteralValue &first, const LiteralValue &second) {
+                  const auto *method =
+                      llvm::dyn_cast<clang::CXXMethodDecl>(function_decl);
+                  // There is no implicit argument for static methods.
                   auto lookup = make_parameter_indices_lookup(
-                      true, llvm::isa<clang::CXXMethodDecl>(function_decl));
+                      true, method != nullptr && !method->isStatic());
                   auto first_idx = lookup(first.getString());
                   auto second_idx = lookup(second.getString());
                   if (!first_idx.has_value()) {
-- 
2.43.0


From ac36f948dfae1dffb4ededf8f6b9cac677f45e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:23 +0000
Subject: [PATCH 04/17] fix: propagate a warning about an unknown type that
 became an error

If the warning filter turns the warning into an exception, continuing with the
error indicator set left the interpreter in an inconsistent state.
---
 public/genpybind/binding-helpers.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/public/genpybind/binding-helpers.h b/public/genpybind/binding-helpers.h
index 07782a5..aff4211 100644
--- a/public/genpybind/binding-helpers.h
+++ b/public/genpybind/binding-helpers.h
@@ -24,8 +24,9 @@ template <typename T> auto getObjectForType() -> ::pybind11::object {
   if (!handle) {
     std::string name = type_info.name();
     ::pybind11::detail::clean_type_id(name);
-    PyErr_WarnFormat(PyExc_Warning, /*stack_level=*/7,
-                     "Reference to unknown type '%s'", name.c_str());
+    if (PyErr_WarnFormat(PyExc_Warning, /*stack_level=*/7,
+                         "Reference to unknown type '%s'", name.c_str()) < 0)
+      throw ::pybind11::error_already_set();
     return ::pybind11::none();
   }
   return ::pybind11::reinterpret_borrow<::pybind11::object>(handle);
-- 
2.43.0


From 160f7469ac8f007f9503d102bb64477b10aa6985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:28 +0000
Subject: [PATCH 05/17] fix: keep the order of declarations at the same source
 location

Implicit and inherited constructors share a source location.  An unstable sort
of input in hash order made the order of overloads depend on addresses.
---
 src/expose.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 022342f..e30d2d7 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -809,7 +809,8 @@ void TranslationUnitExposer::emitModule(
     std::vector<const clang::NamedDecl *> decls =
         collectVisibleDeclsFromDeclContext(sema, item.decl_context,
                                            item.exposer->inliningPolicy());
-    llvm::sort(decls, IsBeforeInTranslationUnit(sema.getSourceManager()));
+    llvm::stable_sort(decls,
+                      IsBeforeInTranslationUnit(sema.getSourceManager()));
 
     // Inject operators from a record's associated namespace (found via ADL),
     // as these need to be exposed as methods of the record.  Only user-defined
-- 
2.43.0


From 2a0d2e5ad5fb9a6e75f187b8024d071d7cda0b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:15:00 +0000
Subject: [PATCH 06/17] fix: do not crash if an annotated template cannot be
 instantiated

After a fatal error, or if the template is not defined, there is no definition
to work on.  The problem has already been reported at this point.
---
 src/instantiate_annotated_templates.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/instantiate_annotated_templates.cpp b/src/instantiate_annotated_templates.cpp
index 8acb0c2..1da8730 100644
--- a/src/instantiate_annotated_templates.cpp
+++ b/src/instantiate_annotated_templates.cpp
@@ -88,7 +88,11 @@ void InstantiateAnnotatedTemplatesASTConsumer::instantiateSpecialization(
 
   auto *definition = llvm::cast_or_null<clang::ClassTemplateSpecializationDecl>(
       specialization->getDefinition());
-  assert(definition != nullptr && definition == specialization);
+  // The template is not defined or could not be instantiated, e.g. due to an
+  // earlier fatal error.  This has already been diagnosed.
+  if (definition == nullptr)
+    return;
+  assert(definition == specialization);
 
   definition->setSpecializationKind(tsk);
   sema->runWithSufficientStackSpace(loc, [&] {
-- 
2.43.0


From d7d3401444e785f3817780c50f5af3c715765755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:41 +0000
Subject: [PATCH 07/17] fix: do not assert on invalid duplicate explicit
 instantiations

The duplicate is reported by the compiler.  Bindings are never generated in
this case, so there is no need to abort.
---
 src/instantiate_annotated_templates.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/instantiate_annotated_templates.cpp b/src/instantiate_annotated_templates.cpp
index 1da8730..512580c 100644
--- a/src/instantiate_annotated_templates.cpp
+++ b/src/instantiate_annotated_templates.cpp
@@ -43,7 +43,8 @@ void InstantiateAnnotatedTemplatesASTConsumer::instantiateSpecialization(
           llvm::cast_or_null<clang::ClassTemplateSpecializationDecl>(
               specialization->getDefinition())) {
     // TODO: Should this one be returned?
-    assert(definition == specialization);
+    // There can be several declarations after an invalid (and diagnosed)
+    // duplicate explicit instantiation.
     specialization = definition;
   }
 
-- 
2.43.0


From 9a5dc8110d9ef481db0416d1b7c4338df56f401b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:43 +0000
Subject: [PATCH 08/17] fix: remove temporary files if terminated by a broken
 pipe

---
 src/tool.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tool.cpp b/src/tool.cpp
index 9967562..a26e64b 100644
--- a/src/tool.cpp
+++ b/src/tool.cpp
@@ -46,6 +46,7 @@
 #include <llvm/Support/FileSystem.h>
 #include <llvm/Support/Path.h>
 #include <llvm/Support/Program.h>
+#include <llvm/Support/Signals.h>
 #include <llvm/Support/raw_ostream.h>
 
 #include <algorithm>
@@ -440,6 +441,11 @@ void printVersion(llvm::raw_ostream &os) {
 int main(int argc, const char **argv) {
   using namespace ::clang::tooling;
 
+  // Also remove temporary files, if the process is terminated due to a broken
+  // pipe.
+  llvm::sys::SetOneShotPipeSignalFunction(
+      llvm::sys::DefaultOneShotPipeSignalHandler);
+
   llvm::cl::extrahelp common_help(CommonOptionsParser::HelpMessage);
   llvm::cl::SetVersionPrinter(printVersion);
 
-- 
2.43.0


From ba9f45fce80eab0763fd092711d2adb85ab2c7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:36 +0000
Subject: [PATCH 09/17] fix: register bases of inlined bases before the derived
 class

A class that inlines a base class is exposed with the exposed bases of that
base class, but was not sorted after them: importing the module failed with
an unknown base type if the inlined base itself was not exposed.
---
 .../genpybind/decl_context_graph_processing.h |  4 ++-
 src/decl_context_graph_processing.cpp         | 32 +++++++++++++------
 src/expose.cpp                                |  2 +-
 3 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/include/genpybind/decl_context_graph_processing.h b/include/genpybind/decl_context_graph_processing.h
index e6a16ab..0710468 100644
--- a/include/genpybind/decl_context_graph_processing.h
+++ b/include/genpybind/decl_context_graph_processing.h
@@ -108,11 +108,13 @@ void reportUnreachableVisibleDeclContexts(
 /// before the declaration itself, nested declarations are sorted after their
 /// `parents`.  In addition, exposed base classes (i.e. those that are also
 /// represented in the `graph`) are exposed before derived classes, as required
-/// by pybind11.
+/// by pybind11.  This includes bases of base classes inlined according to the
+/// `annotations`.
 /// If the dependency graph contains a cycle, an empty sequence is returned and
 /// `cycle` is set to one declaration context on this cycle.
 llvm::SmallVector<const clang::DeclContext *, 0>
 declContextsSortedByDependencies(const DeclContextGraph &graph,
+                                 const AnnotationStorage &annotations,
                                  const EnclosingScopeMap &parents,
                                  const clang::SourceManager &source_manager,
                                  const clang::DeclContext **cycle);
diff --git a/src/decl_context_graph_processing.cpp b/src/decl_context_graph_processing.cpp
index 3395339..50df8eb 100644
--- a/src/decl_context_graph_processing.cpp
+++ b/src/decl_context_graph_processing.cpp
@@ -443,7 +443,8 @@ lexicographicalTopologicalSort(const GraphType &graph,
 
 llvm::SmallVector<const clang::DeclContext *, 0>
 genpybind::declContextsSortedByDependencies(
-    const DeclContextGraph &graph, const EnclosingScopeMap &parents,
+    const DeclContextGraph &graph, const AnnotationStorage &annotations,
+    const EnclosingScopeMap &parents,
     const clang::SourceManager &source_manager,
     const clang::DeclContext **cycle) {
   auto find_predecessors = [&](const DeclContextNode *node,
@@ -457,17 +458,28 @@ genpybind::declContextsSortedByDependencies(
       add_predecessor(parent_node);
     }
     // Add all exposed (i.e. part of graph) public bases as dependencies.
+    // This is called recursively, since bases of inlined bases are also bases
+    // of the exposed class.
     if (const auto *decl = llvm::dyn_cast<clang::CXXRecordDecl>(decl_context)) {
-      for (const clang::CXXBaseSpecifier &base : decl->bases()) {
-        if (base.getAccessSpecifier() != clang::AS_public)
-          continue;
-        const clang::TagDecl *base_decl = base.getType()->getAsTagDecl();
-        if (const DeclContextNode *base_node =
-                graph.getNode(base_decl->getDefinition())) {
-          assert(base_node != nullptr && "base should be in graph");
-          add_predecessor(base_node);
+      const auto inlining_policy =
+          RecordInliningPolicy::createFromAnnotations(annotations, decl);
+      auto add_bases = [&](const clang::CXXRecordDecl *decl,
+                           auto &&recurse) -> void {
+        for (const clang::CXXBaseSpecifier &base : decl->bases()) {
+          if (base.getAccessSpecifier() != clang::AS_public)
+            continue;
+          const clang::TagDecl *base_decl =
+              base.getType()->getAsTagDecl()->getDefinition();
+          if (const DeclContextNode *base_node = graph.getNode(base_decl))
+            add_predecessor(base_node);
+          if (!inlining_policy.shouldInline(base_decl) ||
+              inlining_policy.shouldHide(base_decl))
+            continue;
+          if (const auto *rd = llvm::dyn_cast<clang::CXXRecordDecl>(base_decl))
+            recurse(rd, recurse);
         }
-      }
+      };
+      add_bases(decl, add_bases);
     }
   };
 
diff --git a/src/expose.cpp b/src/expose.cpp
index e30d2d7..a3ad46c 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -650,7 +650,7 @@ void TranslationUnitExposer::emitModule(
 
   const clang::DeclContext *cycle = nullptr;
   const auto sorted_contexts = declContextsSortedByDependencies(
-      graph, parents, sema.getSourceManager(), &cycle);
+      graph, annotations, parents, sema.getSourceManager(), &cycle);
   if (cycle != nullptr) {
     // TODO: Report this before any other output, ideally pointing to the
     // typedef name decl for `expose_here` cycles.
-- 
2.43.0


From 1cb3aa961bc687a2f3ced83f19727f2e21caa352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:34:32 +0000
Subject: [PATCH 10/17] fix: do not lose the exit status of the tool if SIGCHLD
 is ignored

The launcher exited successfully whatever the outcome, if it was started with
SIGCHLD ignored: subprocess cannot wait for the child in that case and assumes
that it succeeded.
---
 python/genpybind/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/genpybind/__init__.py b/python/genpybind/__init__.py
index 88a17f7..c6c1cd0 100644
--- a/python/genpybind/__init__.py
+++ b/python/genpybind/__init__.py
@@ -2,6 +2,7 @@
 #
 # SPDX-License-Identifier: MIT
 
+import signal
 import subprocess
 import sys
 from pathlib import Path
@@ -9,4 +10,7 @@ from pathlib import Path
 
 def tool():
     path = Path(__file__).parent.parent / "bin/genpybind-tool"
+    # If SIGCHLD is ignored by the caller, the exit status of the tool is lost.
+    if hasattr(signal, "SIGCHLD"):
+        signal.signal(signal.SIGCHLD, signal.SIG_DFL)
     sys.exit(subprocess.call([path] + sys.argv[1:]))
-- 
2.43.0


From f40354d63618d9ede6a6760769cfe9288db7c54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:28 +0000
Subject: [PATCH 11/17] fix: terminate if two aliases refer to an undefined
 class template

---
 src/instantiate_annotated_templates.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/instantiate_annotated_templates.cpp b/src/instantiate_annotated_templates.cpp
index 512580c..8031bfe 100644
--- a/src/instantiate_annotated_templates.cpp
+++ b/src/instantiate_annotated_templates.cpp
@@ -29,7 +29,10 @@ void InstantiateAnnotatedTemplatesASTConsumer::HandleTranslationUnit(
     assert(specialization != nullptr);
     pending.pop();
 
-    done.insert(specialization);
+    // Several declarations can refer to the same specialization, which must only
+    // be added to its declaration context once.
+    if (!done.insert(specialization).second)
+      continue;
     instantiateSpecialization(specialization);
 
     TraverseDecl(specialization->getDefinition());
-- 
2.43.0


From d807ef297ec8a65161772aa80d59aa4329f33dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:33 +0000
Subject: [PATCH 12/17] fix: report invalid annotations on aliases of
 unsupported types

---
 src/annotated_decl.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/annotated_decl.cpp b/src/annotated_decl.cpp
index 06e7722..6c8249d 100644
--- a/src/annotated_decl.cpp
+++ b/src/annotated_decl.cpp
@@ -492,13 +492,6 @@ bool genpybind::processAnnotation(const clang::NamedDecl *decl,
 }
 
 bool TypedefNameDeclAttrs::supports(const clang::NamedDecl *decl) {
-  // TODO: Move to more appropriate place.
-  if (const auto *alias_decl = llvm::dyn_cast<clang::TypedefNameDecl>(decl)) {
-    const clang::TagDecl *target_decl = aliasTarget(alias_decl);
-    if (target_decl == nullptr && hasAnnotations(decl)) {
-      Diagnostics::report(decl, Diagnostics::Kind::UnsupportedAliasTargetError);
-    }
-  }
   return llvm::isa<clang::TypedefNameDecl>(decl);
 }
 
@@ -912,6 +905,13 @@ void AnnotationStorage::insert(const clang::NamedDecl *decl) {
       },
       attrs_by_decl);
 
+  if (const auto *alias_decl = llvm::dyn_cast<clang::TypedefNameDecl>(decl)) {
+    const clang::TagDecl *target_decl = aliasTarget(alias_decl);
+    if (target_decl == nullptr && hasAnnotations(decl)) {
+      Diagnostics::report(decl, Diagnostics::Kind::UnsupportedAliasTargetError);
+    }
+  }
+
   // Non-namespace named decls that have at least one annotation
   // are visible by default.  This can be overruled by an explicit
   // `visible(default)`, `visible(false)` or `hidden` annotation.
-- 
2.43.0


From 061ef10f992b124c47dce088ef8a53e3985f01f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:19 +0000
Subject: [PATCH 13/17] fix: ignore invalid operator declarations when emitting
 bindings

---
 src/expose.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index a3ad46c..1e66b38 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -1299,7 +1299,9 @@ void RecordExposer::handleDeclImpl(llvm::raw_ostream &os,
   if (OperatorDeclAttrs::supports(decl)) {
     const auto *function = llvm::cast<clang::FunctionDecl>(decl);
 
-    if (function->isDeleted())
+    // Invalid declarations (e.g. with a wrong number of parameters) have already
+    // been diagnosed.
+    if (function->isDeleted() || function->isInvalidDecl())
       return;
 
     switch (function->getOverloadedOperator()) {
-- 
2.43.0


From 506969f6063364be911dcd3d4a63d731735db52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:01 +0000
Subject: [PATCH 14/17] fix: accept the genpybind pragma in the form of a
 _Pragma operator

The handler looked the directive up in the buffer of the location where
the pragma was expanded, which is not a file if the _Pragma operator is
used (assertion failure in PragmaGenpybindHandler::HandlePragma).
---
 src/pragmas.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pragmas.cpp b/src/pragmas.cpp
index 4af78e2..f94399c 100644
--- a/src/pragmas.cpp
+++ b/src/pragmas.cpp
@@ -44,7 +44,8 @@ void PragmaGenpybindHandler::HandlePragma(clang::Preprocessor &preproc,
   // Now go back and try to figure out what the directive was.
   const clang::SourceManager &source_manager = preproc.getSourceManager();
   std::pair<clang::FileID, unsigned> begin_loc =
-      source_manager.getDecomposedLoc(handler_name_token.getLocation());
+      source_manager.getDecomposedSpellingLoc(
+          handler_name_token.getLocation());
   bool buffer_invalid = false;
   llvm::StringRef buffer =
       source_manager.getBufferData(begin_loc.first, &buffer_invalid);
-- 
2.43.0


From 10c0c22526c3977ccc91102fdcadf4c9157f1b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:11 +0000
Subject: [PATCH 15/17] fix: limit the depth of instantiations via annotated
 aliases

An annotated alias in a class template can refer to another specialization
of the same template, which led to an endless number of instantiations.
---
 .../instantiate_annotated_templates.h         |  9 +++++++-
 src/instantiate_annotated_templates.cpp       | 21 ++++++++++++++++---
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/genpybind/instantiate_annotated_templates.h b/include/genpybind/instantiate_annotated_templates.h
index 1d51a0f..9236681 100644
--- a/include/genpybind/instantiate_annotated_templates.h
+++ b/include/genpybind/instantiate_annotated_templates.h
@@ -31,9 +31,16 @@ class InstantiateAnnotatedTemplatesASTConsumer
       public clang::RecursiveASTVisitor<
           InstantiateAnnotatedTemplatesASTConsumer> {
   clang::Sema *sema = nullptr;
-  std::queue<clang::ClassTemplateSpecializationDecl *> pending;
+  struct PendingSpecialization {
+    clang::ClassTemplateSpecializationDecl *specialization;
+    unsigned depth;
+  };
+  std::queue<PendingSpecialization> pending;
   llvm::DenseSet<const clang::ClassTemplateSpecializationDecl *> done;
 
+  /// Number of specializations that led to the declarations currently visited.
+  unsigned depth = 0;
+
   void instantiateSpecialization(
       clang::ClassTemplateSpecializationDecl *specialization);
 
diff --git a/src/instantiate_annotated_templates.cpp b/src/instantiate_annotated_templates.cpp
index 8031bfe..1646258 100644
--- a/src/instantiate_annotated_templates.cpp
+++ b/src/instantiate_annotated_templates.cpp
@@ -11,6 +11,7 @@
 #include <clang/AST/DeclCXX.h>
 #include <clang/AST/DeclTemplate.h>
 #include <clang/AST/Type.h>
+#include <clang/Basic/DiagnosticSema.h>
 #include <clang/Basic/SourceLocation.h>
 #include <clang/Basic/Specifiers.h>
 #include <clang/Sema/Sema.h>
@@ -25,7 +26,9 @@ void InstantiateAnnotatedTemplatesASTConsumer::HandleTranslationUnit(
   TraverseDecl(context.getTranslationUnitDecl());
 
   while (!pending.empty()) {
-    clang::ClassTemplateSpecializationDecl *specialization = pending.front();
+    clang::ClassTemplateSpecializationDecl *specialization =
+        pending.front().specialization;
+    depth = pending.front().depth;
     assert(specialization != nullptr);
     pending.pop();
 
@@ -33,6 +36,18 @@ void InstantiateAnnotatedTemplatesASTConsumer::HandleTranslationUnit(
     // be added to its declaration context once.
     if (!done.insert(specialization).second)
       continue;
+
+    // Annotated aliases can refer to ever more specializations, if they are
+    // members of class templates.
+    if (const unsigned limit = sema->getLangOpts().InstantiationDepth;
+        depth > limit) {
+      clang::SourceLocation loc = specialization->getLocation();
+      sema->Diag(loc, clang::diag::err_template_recursion_depth_exceeded)
+          << limit;
+      sema->Diag(loc, clang::diag::note_template_recursion_depth) << limit;
+      break;
+    }
+
     instantiateSpecialization(specialization);
 
     TraverseDecl(specialization->getDefinition());
@@ -112,7 +127,7 @@ bool InstantiateAnnotatedTemplatesASTConsumer::VisitTypedefNameDecl(
             llvm::dyn_cast_or_null<clang::ClassTemplateSpecializationDecl>(
                 qual_type->getAsTagDecl()))
       if (done.count(specialization) == 0)
-        pending.push(specialization);
+        pending.push({specialization, depth + 1});
   }
   return true;
 }
@@ -121,6 +136,6 @@ bool InstantiateAnnotatedTemplatesASTConsumer::
     VisitClassTemplateSpecializationDecl(
         clang::ClassTemplateSpecializationDecl *decl) {
   if (done.count(decl) == 0 && hasAnnotations(decl))
-    pending.push(decl);
+    pending.push({decl, depth + 1});
   return true;
 }
-- 
2.43.0


From 6eaa4e6ca20dcf5cffb43be29d65d2d683b6776c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:24 +0000
Subject: [PATCH 16/17] fix: do not crash on shift operators with a parameter
 of unnamed class type

---
 src/expose.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index 1e66b38..ab1bb1e 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -619,7 +619,8 @@ static bool isOstreamOperator(const clang::FunctionDecl *function) {
   assert(function->getNumParams() >= 1);
   if (const clang::CXXRecordDecl *record =
           function->getParamDecl(0)->getType()->getPointeeCXXRecordDecl()) {
-    if (!record->getIdentifier()->isStr("basic_ostream"))
+    const clang::IdentifierInfo *identifier = record->getIdentifier();
+    if (identifier == nullptr || !identifier->isStr("basic_ostream"))
       return false;
     clang::ast_matchers::internal::HasNameMatcher matcher(
         {"::std::basic_ostream"});
-- 
2.43.0


From b1915515d31517f2667f000a3d39e9d8bf5d5ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:57 +0000
Subject: [PATCH 17/17] fix: support operators with an explicit object
 parameter

The implicit object parameter was added to the explicit one (assertion
failure in RecordExposer::emitOperatorDefinition).
---
 src/expose.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expose.cpp b/src/expose.cpp
index ab1bb1e..4252be6 100644
--- a/src/expose.cpp
+++ b/src/expose.cpp
@@ -1146,7 +1146,7 @@ void RecordExposer::emitOperator(llvm::raw_ostream &os,
 
   llvm::SmallVector<clang::QualType, 2> parameter_types;
   clang::QualType record_type = ast_context.getTypeDeclType(record_decl);
-  if (method != nullptr) {
+  if (method != nullptr && method->isImplicitObjectMemberFunction()) {
     // TODO: Consider ref qualifiers.
     if (method->isConst())
       record_type = record_type.withConst();
-- 
2.43.0

