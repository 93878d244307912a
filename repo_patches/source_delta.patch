From 6f9d807bd0948b082f0146f02ed902122be9d10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 01/56] fix: Release the optimized module before clearing null
 gates

Preprocessor::ProcessCommonNode held its module root alive in a local
variable while the PDAG removed pass-through and constant gates, so a
module that became constant tripped the consistency assertion in
Pdag::RemoveNullGates and aborted a valid analysis.
---
 src/preprocessor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index 9a03e14..bf893ca 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -1872,6 +1872,7 @@ void Preprocessor::ProcessCommonNode(
   }
   ClearStateMarks(root);
   node->opti_value(0);
+  root.reset();  // The root may become constant and must not be kept alive.
   graph_->RemoveNullGates();
 }
 
-- 
2.43.0


From bce83ddf8927176811d4305da9f353c5c04b3ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 02/56] fix: Clear null gates left by filtering of merge
 candidates

Preprocessor::MergeCommonArgs skipped the cleanup of pass-through and
constant gates when the filtering left fewer than two candidates,
and did the cleanup while the candidates were still alive.
Both abort the analysis of valid models on consistency assertions.
---
 src/preprocessor.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index bf893ca..7670c35 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -1123,6 +1123,9 @@ bool Preprocessor::MergeCommonArgs(Connective op) noexcept {
   LOG(DEBUG4) << "Working with " << modules.size() << " modules...";
   bool changed = false;
   for (const auto& module : modules) {
+    // Clean up after the previous module only when its gates are released.
+    if (graph_->HasNullGates())
+      graph_->RemoveNullGates();
     if (module.expired())
       continue;
     GatePtr root = module.lock();
@@ -1152,8 +1155,9 @@ bool Preprocessor::MergeCommonArgs(Connective op) noexcept {
         TransformCommonArgs(&member_group);
       }
     }
-    graph_->RemoveNullGates();
   }
+  if (graph_->HasNullGates())
+    graph_->RemoveNullGates();
   return changed;
 }
 
-- 
2.43.0


From fe4f96fc48ffd18aec36b66f183abcd5c0025548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 03/56] fix: Mark the gate pulled up to the PDAG root as a
 module

Pdag::IsTrivial replaced a pass-through root with its only argument
without the module flag that the merging of common arguments
and other preprocessing steps require of the root.
---
 src/pdag.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdag.cc b/src/pdag.cc
index 7c9e6a9..ba24f96 100644
--- a/src/pdag.cc
+++ b/src/pdag.cc
@@ -773,6 +773,8 @@ bool Pdag::IsTrivial() noexcept {
     root_ = root_->args<Gate>().begin()->second;  // Destroy the previous root.
     assert(root_->parents().empty() && !root_->constant() &&
            root_->type() != kNull);
+    if (!root_->module())
+      root_->module(true);  // The root is always a module.
     complement() ^= signed_index < 0;
     return false;
   }
-- 
2.43.0


From e41a9da942f3f2aaed9ea4d4c1fc521ca43a88c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 04/56] fix: Keep the duplicate argument of 2-out-of-3 gates

The gate @(2, [x, x, z]) reduces to x,
but the duplicate argument was erased and the gate reduced to z.
---
 src/pdag.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pdag.cc b/src/pdag.cc
index ba24f96..3a9be20 100644
--- a/src/pdag.cc
+++ b/src/pdag.cc
@@ -366,7 +366,7 @@ void Gate::ProcessAtleastGateDuplicateArg(int index) noexcept {
   assert(args_.size() >= min_number_);
   if (args_.size() == 2) {  // @(2, [x, x, z]) = x
     assert(min_number_ == 2);
-    this->EraseArg(index);
+    this->EraseArg(index == *args_.begin() ? *args_.rbegin() : *args_.begin());
     this->type(kNull);
     return;
   }
-- 
2.43.0


From 2a8c0b17358e9c22a3da47914d8a26dacc24c9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:51 +0000
Subject: [PATCH 05/56] fix: Keep products through Unity modules at the order
 limit

The conversion of BDD into ZBDD discarded the modules of non-coherent
graphs when the limit on the product order was used up,
although such modules may be Unity and take no place in cut sets.
Minimal cut sets within the limit went missing from the results.
---
 src/zbdd.cc | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/zbdd.cc b/src/zbdd.cc
index ee63ff6..7a55a5b 100644
--- a/src/zbdd.cc
+++ b/src/zbdd.cc
@@ -288,11 +288,8 @@ Zbdd::VertexPtr Zbdd::ConvertBdd(const ItePtr& ite, bool complement,
                                      ites);
   VertexPtr low = ConvertBdd(ite->low(), ite->complement_edge() ^ complement,
                              bdd_graph, limit_order, ites);
-  if (limit_order == 0) {  // Cut-off on the set order.
-    if (low->terminal())
-      return low;
-    return kEmpty_;
-  }
+  if (limit_order == 0)  // Cut-off on the set order.
+    return low;  // Either terminal or only modules that may be Unity.
   VertexPtr high =
       ConvertBdd(ite->high(), complement, bdd_graph, --limit_order, ites);
   return GetReducedVertex(ite, false, high, low);
@@ -304,16 +301,13 @@ Zbdd::VertexPtr Zbdd::ConvertBddPrimeImplicants(
   Bdd::Function common = Bdd::Consensus()(bdd_graph, ite, complement);
   VertexPtr consensus = ConvertBdd(common.vertex, common.complement, bdd_graph,
                                    limit_order, ites);
-  if (limit_order == 0) {  // Cut-off on the product order.
-    if (consensus->terminal())
-      return consensus;
-    return kEmpty_;
-  }
   int sublimit = limit_order - 1;  // Assumes non-Unity element.
   if (ite->module() && !kSettings_.prime_implicants()) {
     assert(!ite->coherent() && "Only non-coherent modules through PI.");
     sublimit += 1;  // Unity modules may happen with minimal cut sets.
   }
+  if (sublimit < 0)  // Cut-off on the product order.
+    return consensus;
   VertexPtr high =
       ConvertBdd(ite->high(), complement, bdd_graph, sublimit, ites);
   VertexPtr low = ConvertBdd(ite->low(), ite->complement_edge() ^ complement,
-- 
2.43.0


From 9f4dac56dab70bbf805418200dfe5c513e025ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:59 +0000
Subject: [PATCH 06/56] fix: Handle modules with constant BDD functions

A module gate whose function turns out to be constant only in the BDD
got a proxy vertex anyway and tripped the structure assertions.
---
 src/bdd.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bdd.cc b/src/bdd.cc
index acb4448..6559b78 100644
--- a/src/bdd.cc
+++ b/src/bdd.cc
@@ -155,7 +155,7 @@ Bdd::Function Bdd::ConvertGraph(
   }
   for (const Gate::ConstArg<Gate>& arg : gate.args<Gate>()) {
     Function res = ConvertGraph(arg.second, gates);
-    if (arg.second.module()) {
+    if (arg.second.module() && !res.vertex->terminal()) {
       args.push_back(
           {arg.first < 0, FindOrAddVertex(arg.second, kOne_, kOne_, true)});
     } else {
-- 
2.43.0


From 33811f538ac8fc1b33042ceb64b125ed640d8b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:53 +0000
Subject: [PATCH 07/56] fix: Remove a pass-through root wrapped by Boolean
 optimization

A root that becomes a pass-through gate is not registered for removal;
a later optimization step could put it under a new root
and leave the pass-through gate in the preprocessed graph.
---
 src/preprocessor.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index 7670c35..1bfd0f4 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -2084,6 +2084,8 @@ void Preprocessor::ProcessStateDestinations(
       ReplaceGate(target, new_gate);
     }
     new_gate->AddArg(target);  // Only after replacing target!
+    if (target->type() == kNull)
+      target->type(kNull);  // The former root is not registered for removal.
     new_gate->descendant(node->index());  // Preserve continuity.
   }
 }
-- 
2.43.0


From 290fba81164f0a1a17a45059b0b6576213e41f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:43 +0000
Subject: [PATCH 08/56] fix: Respect the complement of the BDD root in
 importance factors

The marginal importance factor was calculated for the root vertex
without its complement flag, so that the sign of the factor
(and CIF, DIF, RAW, RRW with it) was wrong for complemented functions.
---
 src/importance_analysis.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/importance_analysis.cc b/src/importance_analysis.cc
index 8e7bff9..4225438 100644
--- a/src/importance_analysis.cc
+++ b/src/importance_analysis.cc
@@ -80,6 +80,8 @@ double ImportanceAnalyzer<Bdd>::CalculateMif(int index) noexcept {
   int order = bdd_graph_->index_to_order().find(index)->second;
   double mif = CalculateMif(root, order, !original_mark);
   bdd_graph_->ClearMarks(original_mark);
+  if (bdd_graph_->root().complement)
+    mif = -mif;
   return mif;
 }
 
-- 
2.43.0


From e3d47328ca438c21b5370e56ac98442835f06dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:32 +0000
Subject: [PATCH 09/56] fix: Analyze with the mission time of the analysis
 settings

The mission time of the model was only set at its initialization,
so an analysis with other settings (e.g., changed in the GUI)
reported the new mission time, calculated with the old one,
and aborted on an assertion if it had a time step.
---
 src/risk_analysis.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/risk_analysis.cc b/src/risk_analysis.cc
index 114f29c..cbdbb41 100644
--- a/src/risk_analysis.cc
+++ b/src/risk_analysis.cc
@@ -40,6 +40,9 @@ void RiskAnalysis::Analyze() noexcept {
   if (Analysis::settings().seed() >= 0)
     mef::RandomDeviate::seed(Analysis::settings().seed());
 
+  // The settings may have changed since the model initialization.
+  model_->mission_time().value(Analysis::settings().mission_time());
+
   if (model_->alignments().empty()) {
     RunAnalysis();
   } else {
-- 
2.43.0


From 70a774afd6c17408718dff63b519529c641e2d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:45 +0000
Subject: [PATCH 10/56] fix: Report errors of flushing and closing the output

---
 src/reporter.cc      | 4 ++++
 src/serialization.cc | 4 ++++
 src/xml_stream.h     | 9 +++++++--
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/reporter.cc b/src/reporter.cc
index e442b8d..f2b9635 100644
--- a/src/reporter.cc
+++ b/src/reporter.cc
@@ -111,6 +111,10 @@ void Reporter::Report(const core::RiskAnalysis& risk_an,
           << boost::errinfo_errno(errno) << boost::errinfo_file_open_mode("w");
     }
     Report(risk_an, fp.get(), indent);
+    if (std::fclose(fp.release())) {
+      SCRAM_THROW(IOError("Cannot close the output file."))
+          << boost::errinfo_errno(errno) << boost::errinfo_file_open_mode("w");
+    }
   } catch (IOError& err) {
     err << boost::errinfo_file_name(file);
     throw;
diff --git a/src/serialization.cc b/src/serialization.cc
index 1992506..d1423e9 100644
--- a/src/serialization.cc
+++ b/src/serialization.cc
@@ -45,6 +45,10 @@ void Serialize(const Model& model, const std::string& file) {
           << boost::errinfo_errno(errno) << boost::errinfo_file_open_mode("w");
     }
     Serialize(model, fp.get());
+    if (std::fclose(fp.release())) {
+      SCRAM_THROW(IOError("Cannot close the output file."))
+          << boost::errinfo_errno(errno) << boost::errinfo_file_open_mode("w");
+    }
   } catch (IOError& err) {
     err << boost::errinfo_file_name(file);
     throw;
diff --git a/src/xml_stream.h b/src/xml_stream.h
index f41ed6b..addafb5 100644
--- a/src/xml_stream.h
+++ b/src/xml_stream.h
@@ -21,6 +21,7 @@
 #pragma once
 
 #include <cassert>
+#include <cerrno>
 #include <cstdio>
 
 #include <algorithm>
@@ -428,8 +429,12 @@ class Stream {
   ///
   /// @post The exception is thrown only if no other exception is on flight.
   ~Stream() noexcept(false) {
-    int err = std::ferror(out_.file());
-    if (err && (std::uncaught_exceptions() == uncaught_exceptions_))
+    errno = 0;
+    // The buffered data must have reached the destination.
+    bool failed = std::fflush(out_.file()) != 0;
+    int err = errno ? errno : EIO;
+    failed |= std::ferror(out_.file()) != 0;
+    if (failed && (std::uncaught_exceptions() == uncaught_exceptions_))
       SCRAM_THROW(IOError("FILE error on write")) << boost::errinfo_errno(err);
   }
 
-- 
2.43.0


From fd3a16023def23f743ddb73f7bcf1e9aaacf1e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:39 +0000
Subject: [PATCH 11/56] fix: Escape the closing bracket in written XML text

---
 src/xml_stream.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/xml_stream.h b/src/xml_stream.h
index addafb5..02a6f84 100644
--- a/src/xml_stream.h
+++ b/src/xml_stream.h
@@ -230,7 +230,7 @@ class StreamElement {
   ///
   /// @returns The reference to this element.
   ///
-  /// @post &, <, " chars are escaped in the value text.
+  /// @post &, <, >, " chars are escaped in the value text.
   ///
   /// @throws StreamError  Invalid setup for the attribute.
   template <typename T>
@@ -258,7 +258,7 @@ class StreamElement {
   ///
   /// @post No more elements or attributes can be added.
   /// @post More text can be added.
-  /// @post &, <, " chars are escaped in the text.
+  /// @post &, <, >, " chars are escaped in the text.
   ///
   /// @throws StreamError  Invalid setup or state for text addition.
   template <typename T>
@@ -360,6 +360,7 @@ class StreamElement {
             return false;
           case '&':
           case '<':
+          case '>':
           case '"':
             return true;
         }
@@ -379,6 +380,9 @@ class StreamElement {
           case '<':
             out_ << "&lt;";
             break;
+          case '>':
+            out_ << "&gt;";
+            break;
           case '"':
             out_ << "&quot;";
             break;
-- 
2.43.0


From 0a66ca7ca5116a54f8ef9c6e6e90a0ca4a1c252c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:12 +0000
Subject: [PATCH 12/56] fix: Report the event probabilities of the analyzed
 phase

---
 gui/importancetablemodel.cpp |  2 +-
 src/fault_tree_analysis.cc   | 15 +++++++++++----
 src/fault_tree_analysis.h    | 16 +++++++++++-----
 src/importance_analysis.cc   |  2 +-
 src/importance_analysis.h    |  1 +
 src/reporter.cc              |  4 ++--
 6 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/gui/importancetablemodel.cpp b/gui/importancetablemodel.cpp
index 79a0c47..5fbaddc 100644
--- a/gui/importancetablemodel.cpp
+++ b/gui/importancetablemodel.cpp
@@ -92,7 +92,7 @@ QVariant ImportanceTableModel::data(const QModelIndex &index, int role) const
     case 1:
         return record.factors.occurrence;
     case 2:
-        return record.event.p();
+        return record.p;
     case 3:
         return record.factors.mif;
     case 4:
diff --git a/src/fault_tree_analysis.cc b/src/fault_tree_analysis.cc
index 3af8499..a861c10 100644
--- a/src/fault_tree_analysis.cc
+++ b/src/fault_tree_analysis.cc
@@ -85,7 +85,10 @@ void Print(const ProductContainer& products) {
 
 ProductContainer::ProductContainer(const Zbdd& products,
                                    const Pdag& graph) noexcept
-    : products_(products), graph_(graph), size_(0) {
+    : products_(products),
+      graph_(graph),
+      size_(0),
+      p_vars_(graph_.basic_events().size()) {
   Pdag::IndexMap<bool> filter(graph_.basic_events().size());
   for (const std::vector<int>& product : products_) {
     int order_index = product.empty() ? 0 : product.size() - 1;
@@ -99,15 +102,19 @@ ProductContainer::ProductContainer(const Zbdd& products,
       if (filter[i])
         continue;
       filter[i] = true;
-      product_events_.insert(graph_.basic_events()[i]);
+      const mef::BasicEvent* event = graph_.basic_events()[i];
+      product_events_.insert(event);
+      if (event->HasExpression())
+        p_vars_[i] = event->p();
     }
   }
 }
 
 double Product::p() const {
   double p = 1;
-  for (const Literal& literal : *this) {
-    p *= literal.complement ? 1 - literal.event.p() : literal.event.p();
+  for (int index : data_) {
+    double p_var = p_vars_[std::abs(index)];
+    p *= index < 0 ? 1 - p_var : p_var;
   }
   return p;
 }
diff --git a/src/fault_tree_analysis.h b/src/fault_tree_analysis.h
index a561ef5..606188e 100644
--- a/src/fault_tree_analysis.h
+++ b/src/fault_tree_analysis.h
@@ -68,8 +68,10 @@ class Product {
   ///
   /// @param[in] data  The underlying set.
   /// @param[in] graph  The graph with indices to events map.
-  Product(const std::vector<int>& data, const Pdag& graph) noexcept
-      : data_(data), graph_(graph) {}
+  /// @param[in] p_vars  The event probabilities at the time of the analysis.
+  Product(const std::vector<int>& data, const Pdag& graph,
+          const Pdag::IndexMap<double>& p_vars) noexcept
+      : data_(data), graph_(graph), p_vars_(p_vars) {}
 
   /// @returns true for unity product with no literals.
   bool empty() const { return data_.empty(); }
@@ -102,6 +104,7 @@ class Product {
  private:
   const std::vector<int>& data_;  ///< The collection of event indices.
   const Pdag& graph_;  ///< The host graph.
+  const Pdag::IndexMap<double>& p_vars_;  ///< The event probabilities.
 };
 
 /// A container of analysis result products with Literals.
@@ -113,9 +116,10 @@ class ProductContainer {
     ///
     /// @returns The wrapped product of Literals.
     Product operator()(const std::vector<int>& product) const {
-      return Product(product, graph);
+      return Product(product, graph, p_vars);
     }
     const Pdag& graph;  ///< The host graph.
+    const Pdag::IndexMap<double>& p_vars;  ///< The event probabilities.
   };
 
  public:
@@ -134,11 +138,11 @@ class ProductContainer {
   /// @{
   auto begin() const {
     return boost::make_transform_iterator(products_.begin(),
-                                          ProductExtractor{graph_});
+                                          ProductExtractor{graph_, p_vars_});
   }
   auto end() const {
     return boost::make_transform_iterator(products_.end(),
-                                          ProductExtractor{graph_});
+                                          ProductExtractor{graph_, p_vars_});
   }
   /// @}
 
@@ -158,6 +162,8 @@ class ProductContainer {
   std::vector<int> distribution_;  ///< Product counts by order.
   /// The set of events in the resultant products.
   std::unordered_set<const mef::BasicEvent*> product_events_;
+  /// The probabilities of the events in the context of the analysis.
+  Pdag::IndexMap<double> p_vars_;
 };
 
 /// Prints a collection of products to the standard error.
diff --git a/src/importance_analysis.cc b/src/importance_analysis.cc
index 4225438..a6d071d 100644
--- a/src/importance_analysis.cc
+++ b/src/importance_analysis.cc
@@ -55,7 +55,7 @@ void ImportanceAnalysis::Analyze() noexcept {
       if (p_total != p_var * imp.mif)
         imp.rrw = p_total / (p_total - p_var * imp.mif);
     }
-    importance_.push_back({event, imp});
+    importance_.push_back({event, imp, p_var});
   }
   LOG(DEBUG3) << "Calculated importance factors in " << DUR(imp_time);
   Analysis::AddAnalysisTime(DUR(imp_time));
diff --git a/src/importance_analysis.h b/src/importance_analysis.h
index 86e9df2..20ad1df 100644
--- a/src/importance_analysis.h
+++ b/src/importance_analysis.h
@@ -47,6 +47,7 @@ struct ImportanceFactors {
 struct ImportanceRecord {
   const mef::BasicEvent& event;  ///< The event occurring in products.
   const ImportanceFactors factors;  ///< The importance factors of the event.
+  const double p;  ///< The event probability in the context of the analysis.
 };
 
 class Zbdd;  // The container of products to be queries for important events.
diff --git a/src/reporter.cc b/src/reporter.cc
index f2b9635..5942e15 100644
--- a/src/reporter.cc
+++ b/src/reporter.cc
@@ -483,9 +483,9 @@ void Reporter::ReportResults(
   for (const core::ImportanceRecord& entry : importance_analysis.importance()) {
     const core::ImportanceFactors& factors = entry.factors;
     const mef::BasicEvent& event = entry.event;
-    auto add_data = [&event, &factors](xml::StreamElement* element) {
+    auto add_data = [&entry, &factors](xml::StreamElement* element) {
       element->SetAttribute("occurrence", factors.occurrence)
-          .SetAttribute("probability", event.p())
+          .SetAttribute("probability", entry.p)
           .SetAttribute("MIF", factors.mif)
           .SetAttribute("CIF", factors.cif)
           .SetAttribute("DIF", factors.dif)
-- 
2.43.0


From 55654be31b820edc31f587d3c5d4603c04957a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 13/56] fix: Account for event-tree paths without collected
 formulas

---
 src/event_tree_analysis.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/event_tree_analysis.cc b/src/event_tree_analysis.cc
index 6bd06a6..5c0366b 100644
--- a/src/event_tree_analysis.cc
+++ b/src/event_tree_analysis.cc
@@ -113,7 +113,10 @@ void EventTreeAnalysis::Analyze() noexcept {
     auto gate = std::make_unique<mef::Gate>("__" + sequence.first->name());
     std::vector<mef::FormulaPtr> gate_formulas;
     std::vector<mef::Expression*> arg_expressions;
+    bool is_unconditional = false;  // A path without formulas or expressions.
     for (PathCollector& path_collector : sequence.second) {
+      is_unconditional |= path_collector.formulas.empty() &&
+                          path_collector.expressions.empty();
       if (path_collector.formulas.size() == 1) {
         gate_formulas.push_back(std::move(path_collector.formulas.front()));
       } else if (path_collector.formulas.size() > 1) {
@@ -133,6 +136,10 @@ void EventTreeAnalysis::Analyze() noexcept {
       }
     }
     assert(gate_formulas.empty() || arg_expressions.empty());
+    if (is_unconditional) {
+      gate_formulas.clear();
+      arg_expressions.clear();
+    }
     bool is_expression_only = !arg_expressions.empty();
     if (gate_formulas.size() == 1) {
       gate->formula(std::move(gate_formulas.front()));
-- 
2.43.0


From b48772c0806510483e544bd1ca8049d4a96c123b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:30 +0000
Subject: [PATCH 14/56] fix: Release multiply defined gates before clearing
 null gates

---
 src/preprocessor.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index 1bfd0f4..d5f6fa0 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -771,6 +771,7 @@ bool Preprocessor::ProcessMultipleDefinitions() noexcept {
       ReplaceGate(duplicate.lock(), def.first);
     }
   }
+  multi_def.clear();  // Release the originals detached from the graph.
   graph_->RemoveNullGates();
   return true;
 }
-- 
2.43.0


From dd11485d7e50c7aab82f81c077a0a904a1fb0ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:25 +0000
Subject: [PATCH 15/56] fix: Skip gates without timing as decomposition
 destinations

---
 src/preprocessor.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index d5f6fa0..2ec597d 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -2185,7 +2185,8 @@ bool Preprocessor::DecompositionProcessor::operator()(  // clang-format confuse?
     assert(!member.second.expired());
     GatePtr parent = member.second.lock();
     if (parent->descendant() == node_->index() &&
-        is_decomposition_type(parent->type())) {
+        is_decomposition_type(parent->type()) &&
+        parent->Visited()) {  // Gates of K/N reduction don't have timings.
       dest.push_back(parent);
     }
   }
-- 
2.43.0


From 3a7f77fd9ff10cc3b5cfa92457048a713704ba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:47 +0000
Subject: [PATCH 16/56] fix: Limit the total of expression-only sequence paths
 to 1

---
 src/event_tree_analysis.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/event_tree_analysis.cc b/src/event_tree_analysis.cc
index 5c0366b..c808a5a 100644
--- a/src/event_tree_analysis.cc
+++ b/src/event_tree_analysis.cc
@@ -19,6 +19,7 @@
 
 #include "event_tree_analysis.h"
 
+#include "expression/constant.h"
 #include "expression/numerical.h"
 #include "ext/find_iterator.h"
 #include "instruction.h"
@@ -158,6 +159,10 @@ void EventTreeAnalysis::Analyze() noexcept {
       } else if (arg_expressions.size() > 1) {
         expressions_.push_back(
             std::make_unique<mef::Add>(std::move(arg_expressions)));
+        // The round-off of complementary paths must not exceed the total of 1.
+        expressions_.push_back(
+            std::make_unique<mef::Min>(std::vector<mef::Expression*>{
+                expressions_.back().get(), &mef::ConstantExpression::kOne}));
         event->expression(expressions_.back().get());
       }
       gate->formula(std::make_unique<mef::Formula>(
-- 
2.43.0


From 1a0829c73d867a9f770dd51ab79c630bca561eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:52 +0000
Subject: [PATCH 17/56] fix: Order graph nodes and results by identity instead
 of addresses

---
 src/event_tree_analysis.h | 13 +++++++++++--
 src/fault_tree.cc         |  7 +++++++
 src/preprocessor.cc       |  7 ++++---
 src/preprocessor.h        | 14 ++++++++++++--
 4 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/src/event_tree_analysis.h b/src/event_tree_analysis.h
index d1206e9..8880239 100644
--- a/src/event_tree_analysis.h
+++ b/src/event_tree_analysis.h
@@ -19,6 +19,7 @@
 
 #pragma once
 
+#include <map>
 #include <memory>
 #include <string>
 #include <unordered_map>
@@ -76,12 +77,20 @@ class EventTreeAnalysis : public Analysis {
     std::unordered_map<std::string, bool> set_instructions;  ///< House events.
   };
 
+  /// Ordering of sequences that does not depend on their addresses.
+  struct SequenceLess {
+    /// @returns true if the lhs sequence has a smaller unique name.
+    bool operator()(const mef::Sequence* lhs, const mef::Sequence* rhs) const {
+      return lhs->name() < rhs->name();
+    }
+  };
+
   /// Walks the event tree paths and collects sequences.
   struct SequenceCollector {
     const mef::InitiatingEvent& initiating_event;  ///< The analysis initiator.
     mef::Context& context;  ///< The collection context.
-    /// Sequences with collected paths.
-    std::unordered_map<const mef::Sequence*, std::vector<PathCollector>>
+    /// Sequences with collected paths in the order of sequence names.
+    std::map<const mef::Sequence*, std::vector<PathCollector>, SequenceLess>
         sequences;
   };
 
diff --git a/src/fault_tree.cc b/src/fault_tree.cc
index 90e0614..9775eac 100644
--- a/src/fault_tree.cc
+++ b/src/fault_tree.cc
@@ -20,6 +20,8 @@
 
 #include "fault_tree.h"
 
+#include <algorithm>
+
 #include "error.h"
 
 namespace scram::mef {
@@ -75,6 +77,11 @@ void FaultTree::CollectTopEvents() {
       top_events_.push_back(gate);
     }
   }
+  // The order must not depend on the addresses of gates.
+  std::sort(top_events_.begin(), top_events_.end(),
+            [](const Gate* lhs, const Gate* rhs) {
+              return lhs->id() < rhs->id();
+            });
 }
 
 void FaultTree::MarkNonTopGates(Gate* gate,
diff --git a/src/preprocessor.cc b/src/preprocessor.cc
index 2ec597d..402046f 100644
--- a/src/preprocessor.cc
+++ b/src/preprocessor.cc
@@ -752,7 +752,7 @@ bool Preprocessor::ProcessMultipleDefinitions() noexcept {
 
   graph_->Clear<Pdag::kGateMark>();
   // The original gate and its multiple definitions.
-  std::unordered_map<GatePtr, std::vector<GateWeakPtr>> multi_def;
+  std::map<GatePtr, std::vector<GateWeakPtr>, GateIndexLess> multi_def;
   {
     GateSet unique_gates;
     DetectMultipleDefinitions(graph_->root(), &multi_def, &unique_gates);
@@ -778,7 +778,7 @@ bool Preprocessor::ProcessMultipleDefinitions() noexcept {
 
 void Preprocessor::DetectMultipleDefinitions(
     const GatePtr& gate,
-    std::unordered_map<GatePtr, std::vector<GateWeakPtr>>* multi_def,
+    std::map<GatePtr, std::vector<GateWeakPtr>, GateIndexLess>* multi_def,
     GateSet* unique_gates) noexcept {
   if (gate->mark())
     return;
@@ -1425,7 +1425,8 @@ void Preprocessor::FindOptionGroup(
       bool superset = boost::includes(candidate->first, group.back()->first);
       if (!superset)
         continue;  // Does not include all the arguments.
-      bool parents = boost::includes(group.back()->second, candidate->second);
+      bool parents = boost::includes(group.back()->second, candidate->second,
+                                     GateIndexLess());
       if (!parents)
         continue;  // Parents do not match.
       group.push_back(candidate);
diff --git a/src/preprocessor.h b/src/preprocessor.h
index efc3e52..58b3b31 100644
--- a/src/preprocessor.h
+++ b/src/preprocessor.h
@@ -21,6 +21,7 @@
 
 #pragma once
 
+#include <map>
 #include <memory>
 #include <set>
 #include <unordered_map>
@@ -111,6 +112,14 @@ class Preprocessor : private boost::noncopyable {
  protected:
   class GateSet;  ///< Container of unique gates by semantics.
 
+  /// Ordering of gates that does not depend on their addresses.
+  struct GateIndexLess {
+    /// @returns true if the lhs gate has a smaller index.
+    bool operator()(const GatePtr& lhs, const GatePtr& rhs) const noexcept {
+      return lhs->index() < rhs->index();
+    }
+  };
+
   /// Runs the default preprocessing
   /// that achieves the graph in a normal form.
   virtual void Run() noexcept = 0;
@@ -324,7 +333,7 @@ class Preprocessor : private boost::noncopyable {
   /// @warning Gate marks must be clear.
   void DetectMultipleDefinitions(
       const GatePtr& gate,
-      std::unordered_map<GatePtr, std::vector<GateWeakPtr>>* multi_def,
+      std::map<GatePtr, std::vector<GateWeakPtr>, GateIndexLess>* multi_def,
       GateSet* unique_gates) noexcept;
 
   /// Traverses the PDAG to detect modules.
@@ -475,7 +484,8 @@ class Preprocessor : private boost::noncopyable {
   /// common arguments of gates into new gates.
   struct MergeTable {
     using CommonArgs = std::vector<int>;  ///< Unique, sorted common arguments.
-    using CommonParents = std::set<GatePtr>;  ///< Unique common parent gates.
+    /// Unique common parent gates.
+    using CommonParents = std::set<GatePtr, GateIndexLess>;
     using Option = std::pair<CommonArgs, CommonParents>;  ///< One possibility.
     using OptionGroup = std::vector<Option*>;  ///< A set of best options.
     using MergeGroup = std::vector<Option>;  ///< Isolated group for processing.
-- 
2.43.0


From 7fb893e9ac19018511a60e7d659b41fac3b07ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:48 +0000
Subject: [PATCH 18/56] fix: Report the range of the beta distribution as [0,
 1]

---
 src/expression/random_deviate.cc | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/expression/random_deviate.cc b/src/expression/random_deviate.cc
index fb5e810..8d85dff 100644
--- a/src/expression/random_deviate.cc
+++ b/src/expression/random_deviate.cc
@@ -25,7 +25,6 @@
 #include <functional>
 
 #include <boost/iterator/transform_iterator.hpp>
-#include <boost/math/special_functions/beta.hpp>
 #include <boost/math/special_functions/erf.hpp>
 #include <boost/math/special_functions/gamma.hpp>
 #include <boost/random/beta_distribution.hpp>
@@ -159,11 +158,7 @@ void BetaDeviate::Validate() const {
   }
 }
 
-Interval BetaDeviate::interval() noexcept {
-  double high_estimate =
-      std::pow(boost::math::ibeta(alpha_.value(), beta_.value(), 0.99), -1);
-  return Interval::closed(0, high_estimate);
-}
+Interval BetaDeviate::interval() noexcept { return Interval::closed(0, 1); }
 
 double BetaDeviate::DoSample() noexcept {
   return boost::random::beta_distribution(alpha_.value(),
-- 
2.43.0


From 1b93795b2724e72ad24dec36c5fb4ab475b10f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:57 +0000
Subject: [PATCH 19/56] fix: Allow single-factor common-cause groups

---
 src/ccf_group.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ccf_group.cc b/src/ccf_group.cc
index f5cf57c..640aa5c 100644
--- a/src/ccf_group.cc
+++ b/src/ccf_group.cc
@@ -148,7 +148,7 @@ void CcfGroup::ApplyModel() {
   }
 
   ExpressionMap probabilities = this->CalculateProbabilities();
-  assert(probabilities.size() > 1);
+  assert(!probabilities.empty());
 
   // Generate CCF events.
   for (auto& [level, prob] : probabilities) {
@@ -176,8 +176,11 @@ void CcfGroup::ApplyModel() {
 
   // Assign formulas to the proxy gates.
   for (std::pair<Gate*, Formula::ArgSet>& gate : proxy_gates) {
-    assert(gate.second.size() >= 2);
-    gate.first->formula(std::make_unique<Formula>(kOr, std::move(gate.second)));
+    assert(!gate.second.empty());
+    // A single factor leaves only the independent failure of the member.
+    Connective connective = gate.second.size() == 1 ? kNull : kOr;
+    gate.first->formula(
+        std::make_unique<Formula>(connective, std::move(gate.second)));
   }
 }
 
-- 
2.43.0


From bc24319c2b48a924f6a7f8b3c38c3010cb3d96d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:18 +0000
Subject: [PATCH 20/56] fix: Count constant probabilities in one SIL bucket
 only

---
 src/probability_analysis.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/probability_analysis.cc b/src/probability_analysis.cc
index ecd3708..3e9eaa7 100644
--- a/src/probability_analysis.cc
+++ b/src/probability_analysis.cc
@@ -102,10 +102,12 @@ void PartitionY(const Points& points, T* y_fractions) {
       std::swap(p_1, p_0);
     }
     auto fraction = [&k, &p_1, &p_0, &t_1, &t_0](double b_0, double b_1) {
+      if (p_0 == p_1)  // Constant values belong to one half-open range.
+        return p_0 <= b_1 && (b_0 < p_0 || b_0 == 0) ? t_1 - t_0 : 0.0;
       if (p_0 <= b_0 && b_1 <= p_1)  // Sub-range.
         return (b_1 - b_0) / k;
       if (b_0 <= p_0 && p_1 <= b_1)  // Super-range.
-        return t_1 - t_0;  // Covers the case when k == 0.
+        return t_1 - t_0;
       // The cases of partially overlapping intervals.
       if (p_0 <= b_0 && b_0 <= p_1)  // b_1 is outside (>) of the range.
         return (p_1 - b_0) / k;
-- 
2.43.0


From d843dbee19977f2dbafcf719a26cef4939a117d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:21 +0000
Subject: [PATCH 21/56] fix: Restore house events set several times in one
 phase

---
 src/risk_analysis.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/risk_analysis.cc b/src/risk_analysis.cc
index cbdbb41..50e13a3 100644
--- a/src/risk_analysis.cc
+++ b/src/risk_analysis.cc
@@ -61,8 +61,9 @@ void RiskAnalysis::RunAnalysis(std::optional<Context> context) noexcept {
         model_->mission_time().value(init_time);
         Analysis::settings().mission_time(init_time);
 
-        for (const std::pair<mef::HouseEvent*, bool>& entry : house_events)
-          entry.first->state(entry.second);
+        // The first saved state of a house event is its original one.
+        for (auto it = house_events.rbegin(); it != house_events.rend(); ++it)
+          it->first->state(it->second);
       });
 
   if (context) {
-- 
2.43.0


From ed5cd70a2617f2a94bea19397818abe9db35dd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:58 +0000
Subject: [PATCH 22/56] fix: Reset sampled expressions at the end of
 uncertainty analysis

A parameter shared with events of another analysis target kept the last sampled value,
so the first trial of the next analysis reused that value,
and a repeated analysis with the same seed gave different results.
---
 src/uncertainty_analysis.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/uncertainty_analysis.h b/src/uncertainty_analysis.h
index b108c27..c49d88e 100644
--- a/src/uncertainty_analysis.h
+++ b/src/uncertainty_analysis.h
@@ -153,6 +153,10 @@ std::vector<double> UncertaintyAnalyzer<Calculator>::Sample() noexcept {
     samples.push_back(result);
   }
 
+  // Parameters shared with other targets must not keep the last samples.
+  for (const auto& expression : deviate_expressions)
+    expression.second.Reset();
+
   return samples;
 }
 
-- 
2.43.0


From 95ab7f68d0ed9ed7b89f787968ddec6584596169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:58 +0000
Subject: [PATCH 23/56] fix: Count the maximum samples in the last histogram
 bin

The density accumulator puts the largest samples into the overflow bin, which is not reported,
so the fractions of the histogram did not add up to 1.
---
 src/uncertainty_analysis.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/uncertainty_analysis.cc b/src/uncertainty_analysis.cc
index 27b542a..7a0b70d 100644
--- a/src/uncertainty_analysis.cc
+++ b/src/uncertainty_analysis.cc
@@ -109,6 +109,9 @@ void UncertaintyAnalysis::CalculateStatistics(
   for (int i = 1; i < hist.size(); i++) {
     distribution_.push_back(hist[i]);
   }
+  // The samples equal to the maximum are counted beyond the last bin.
+  distribution_[distribution_.size() - 2].second += distribution_.back().second;
+  distribution_.back().second = 0;
   mean_ = boost::accumulators::mean(acc);
   sigma_ = std::sqrt(num_trials * variance(acc) / (num_trials - 1));
   error_factor_ = std::exp(1.96 * sigma_);
-- 
2.43.0


From 4bbf4297c5443d45dd468e2fd3a04b39089ba21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:37 +0000
Subject: [PATCH 24/56] fix: Calculate quantiles of uncertainty analysis from
 the sorted samples

The P-square estimator needs many more samples than quantiles;
with fewer samples it reported zero and decreasing quantiles,
and with more samples the last quantile could differ from the largest sample.
---
 src/uncertainty_analysis.cc | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/uncertainty_analysis.cc b/src/uncertainty_analysis.cc
index 7a0b70d..ce4bcce 100644
--- a/src/uncertainty_analysis.cc
+++ b/src/uncertainty_analysis.cc
@@ -21,10 +21,12 @@
 #include "uncertainty_analysis.h"
 
 #include <cmath>
+#include <cstdint>
+
+#include <algorithm>
 
 #include <boost/accumulators/accumulators.hpp>
 #include <boost/accumulators/statistics/density.hpp>
-#include <boost/accumulators/statistics/extended_p_square_quantile.hpp>
 #include <boost/accumulators/statistics/mean.hpp>
 #include <boost/accumulators/statistics/stats.hpp>
 #include <boost/accumulators/statistics/variance.hpp>
@@ -91,17 +93,10 @@ void UncertaintyAnalysis::CalculateStatistics(
   using histogram_type =
       iterator_range<std::vector<std::pair<double, double>>::iterator>;
   quantiles_.clear();
-  int num_quantiles = Analysis::settings().num_quantiles();
-  double delta = 1.0 / num_quantiles;
-  for (int i = 0; i < num_quantiles; ++i) {
-    quantiles_.push_back(delta * (i + 1));
-  }
   int num_trials = Analysis::settings().num_trials();
-  accumulator_set<double, stats<tag::mean, tag::variance, tag::density,
-                                tag::extended_p_square_quantile>>
-      acc(tag::density::num_bins = Analysis::settings().num_bins(),
-          tag::density::cache_size = num_trials,
-          extended_p_square_probabilities = quantiles_);
+  accumulator_set<double, stats<tag::mean, tag::variance, tag::density>> acc(
+      tag::density::num_bins = Analysis::settings().num_bins(),
+      tag::density::cache_size = num_trials);
   for (double sample : samples) {
     acc(sample);
   }
@@ -118,8 +113,14 @@ void UncertaintyAnalysis::CalculateStatistics(
   confidence_interval_.first = mean_ - sigma_ * 1.96 / std::sqrt(num_trials);
   confidence_interval_.second = mean_ + sigma_ * 1.96 / std::sqrt(num_trials);
 
-  for (int i = 0; i < num_quantiles; ++i) {
-    quantiles_[i] = quantile(acc, quantile_probability = quantiles_[i]);
+  // The smallest samples with at least the given fraction of samples below.
+  std::vector<double> sorted_samples = samples;
+  std::sort(sorted_samples.begin(), sorted_samples.end());
+  std::int64_t num_quantiles = Analysis::settings().num_quantiles();
+  std::int64_t num_samples = sorted_samples.size();
+  for (std::int64_t i = 1; i <= num_quantiles; ++i) {
+    std::int64_t rank = (i * num_samples + num_quantiles - 1) / num_quantiles;
+    quantiles_.push_back(sorted_samples[rank - 1]);
   }
 }
 
-- 
2.43.0


From 6d946b09f415d896b4f740dde269ce6a5778f00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:56 +0000
Subject: [PATCH 25/56] fix: Keep the project's analysis flags unless the
 command line sets them

The absence of a command-line flag turned off prime implicants, probability, importance,
uncertainty, common-cause and SIL analyses requested by the project file.
---
 src/scram.cc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/scram.cc b/src/scram.cc
index 523d778..a0cc196 100644
--- a/src/scram.cc
+++ b/src/scram.cc
@@ -208,7 +208,9 @@ void ConstructSettings(const po::variables_map& vm,
   } else if (vm.count("mocus")) {
     settings->algorithm(scram::core::Algorithm::kMocus);
   }
-  settings->prime_implicants(vm.count("prime-implicants"));
+  // The absence of a flag does not override the project settings.
+  if (vm.count("prime-implicants"))
+    settings->prime_implicants(true);
   // Determine if the probability approximation is requested.
   if (vm.count("rare-event")) {
     assert(!vm.count("mcub"));
@@ -217,12 +219,17 @@ void ConstructSettings(const po::variables_map& vm,
     settings->approximation(scram::core::Approximation::kMcub);
   }
   SET("time-step", double, time_step);
-  settings->safety_integrity_levels(vm.count("sil"));
+  if (vm.count("sil"))
+    settings->safety_integrity_levels(true);
 
-  settings->probability_analysis(vm.count("probability"));
-  settings->importance_analysis(vm.count("importance"));
-  settings->uncertainty_analysis(vm.count("uncertainty"));
-  settings->ccf_analysis(vm.count("ccf"));
+  if (vm.count("probability"))
+    settings->probability_analysis(true);
+  if (vm.count("importance"))
+    settings->importance_analysis(true);
+  if (vm.count("uncertainty"))
+    settings->uncertainty_analysis(true);
+  if (vm.count("ccf"))
+    settings->ccf_analysis(true);
   SET("seed", int, seed);
   SET("limit-order", int, limit_order);
   SET("cut-off", double, cut_off);
-- 
2.43.0


From 5b6e9b57429e058ed1deef68af60bd76130448df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:28 +0000
Subject: [PATCH 26/56] fix: Make single-argument cardinality gates
 pass-through gates

A cardinality formula with one argument built an OR gate with one argument and failed an assertion.
---
 src/pdag.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pdag.cc b/src/pdag.cc
index 3a9be20..789b3bb 100644
--- a/src/pdag.cc
+++ b/src/pdag.cc
@@ -680,6 +680,8 @@ GatePtr Pdag::ConstructComplexGate(const mef::Formula& formula, bool ccf,
       auto well_form = [](Gate* atleast) {
         if (atleast->min_number() == 0) {
           atleast->MakeConstant(true);
+        } else if (atleast->args().size() == 1) {
+          atleast->type(kNull);
         } else if (atleast->min_number() == 1) {
           atleast->type(kOr);
         } else if (atleast->min_number() == atleast->args().size()) {
-- 
2.43.0


From 31de6b67f8dba1e396bd9b951a2a75dfe3d12f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 27/56] fix: Reject collected expressions that are not
 probabilities

---
 src/initializer.cc | 18 ++++++++++++++++--
 src/initializer.h  |  2 ++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/initializer.cc b/src/initializer.cc
index 8ec668b..a3d55f3 100644
--- a/src/initializer.cc
+++ b/src/initializer.cc
@@ -877,8 +877,10 @@ Instruction* Initializer::GetInstruction(const xml::Element& xml_element) {
   }
 
   if (node_name == "collect-expression") {
-    return register_instruction(std::make_unique<CollectExpression>(
-        GetExpression(*xml_element.child(), "")));
+    Expression* expression = GetExpression(*xml_element.child(), "");
+    collected_expressions_.emplace_back(expression, xml_element);
+    return register_instruction(
+        std::make_unique<CollectExpression>(expression));
   }
 
   if (node_name == "collect-formula") {
@@ -1810,6 +1812,18 @@ void Initializer::ValidateExpressions() {
     }
   }
 
+  // Check the values collected as probabilities on event-tree paths.
+  for (const std::pair<Expression*, xml::Element>& expression :
+       collected_expressions_) {
+    try {
+      EnsureProbability(expression.first, "collected expression");
+    } catch (ValidityError& err) {
+      err << boost::errinfo_file_name(expression.second.filename())
+          << boost::errinfo_at_line(expression.second.line());
+      throw;
+    }
+  }
+
   // Validate CCF groups.
   for (const CcfGroup& group : model_->ccf_groups())
     group.Validate();
diff --git a/src/initializer.h b/src/initializer.h
index bf32c52..3e27f2f 100644
--- a/src/initializer.h
+++ b/src/initializer.h
@@ -517,6 +517,8 @@ class Initializer : private boost::noncopyable {
 
   /// Container of defined expressions for later validation due to cycles.
   std::vector<std::pair<Expression*, xml::Element>> expressions_;
+  /// Expressions collected as probabilities by event-tree instructions.
+  std::vector<std::pair<Expression*, xml::Element>> collected_expressions_;
   /// Container for event tree links to check for cycles.
   std::vector<Link*> links_;
 
-- 
2.43.0


From e2cb58d09acc4c4fe2499580a321f5e24e7b240f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:00 +0000
Subject: [PATCH 28/56] fix: Report elements without text instead of asserting,
 and read CDATA text

---
 src/xml.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/xml.h b/src/xml.h
index 9f3b85c..b26f621 100644
--- a/src/xml.h
+++ b/src/xml.h
@@ -323,12 +323,17 @@ class Element {
 
   /// @returns The XML element's text.
   ///
-  /// @pre The Element has text.
+  /// @throws ValidityError  The Element does not have text.
   std::string_view text() const {
     const xmlNode* text_node = element_->children;
     while (text_node && text_node->type != XML_TEXT_NODE)
       text_node = text_node->next;
-    assert(text_node && "Element does not have text.");
+    if (!text_node) {
+      SCRAM_THROW(ValidityError("The element does not have text"))
+          << errinfo_element(std::string(name()))
+          << boost::errinfo_at_line(line())
+          << boost::errinfo_file_name(filename());
+    }
     assert(text_node->content && "Missing text in Element.");
     return detail::trim(detail::from_utf8(text_node->content));
   }
@@ -393,7 +398,8 @@ class Element {
 /// The parser options passed to the library parser.
 const int kParserOptions = XML_PARSE_XINCLUDE | XML_PARSE_NOBASEFIX |
                            XML_PARSE_NONET | XML_PARSE_NOXINCNODE |
-                           XML_PARSE_COMPACT | XML_PARSE_HUGE;
+                           XML_PARSE_NOCDATA | XML_PARSE_COMPACT |
+                           XML_PARSE_HUGE;
 
 class Validator;  // Forward declaration for validation upon DOM constructions.
 
-- 
2.43.0


From e6cef178d0be618182634e2cb9b2cf948baa77d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:39 +0000
Subject: [PATCH 29/56] fix: Handle blank XML text and empty attributes

---
 src/xml.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/xml.h b/src/xml.h
index b26f621..84b5d1a 100644
--- a/src/xml.h
+++ b/src/xml.h
@@ -64,7 +64,7 @@ namespace detail {  // Internal XML helper functions.
 ///
 /// @tparam T  Numeric type.
 ///
-/// @param[in] value  The non-empty value string.
+/// @param[in] value  The value string.
 ///
 /// @returns The interpreted value.
 ///
@@ -75,7 +75,8 @@ std::enable_if_t<std::is_arithmetic_v<T>, T> to(const std::string_view& value) {
     char* end_char = nullptr;
     std::int64_t ret = std::strtoll(value.data(), &end_char, 10);
     int len = end_char - value.data();
-    if (len != value.size() || ret > std::numeric_limits<int>::max() ||
+    if (value.empty() || len != value.size() ||
+        ret > std::numeric_limits<int>::max() ||
         ret < std::numeric_limits<int>::min()) {
       SCRAM_THROW(ValidityError("Failed to interpret value to int"))
           << errinfo_value(std::string(value));
@@ -86,7 +87,8 @@ std::enable_if_t<std::is_arithmetic_v<T>, T> to(const std::string_view& value) {
     char* end_char = nullptr;
     double ret = std::strtod(value.data(), &end_char);
     int len = end_char - value.data();
-    if (len != value.size() || ret == HUGE_VAL || ret == -HUGE_VAL) {
+    if (value.empty() || len != value.size() || ret == HUGE_VAL ||
+        ret == -HUGE_VAL) {
       SCRAM_THROW(ValidityError("Failed to interpret value to double"))
           << errinfo_value(std::string(value));
     }
@@ -136,7 +138,7 @@ inline const xmlChar* to_utf8(const char* c_string) noexcept {
 inline std::string_view trim(const std::string_view& text) noexcept {
   auto pos_first = text.find_first_not_of(' ');
   if (pos_first == std::string_view::npos)
-    return {};
+    return text.substr(0, 0);
 
   auto pos_last = text.find_last_not_of(' ');
   auto len = pos_last - pos_first + 1;
@@ -281,16 +283,16 @@ class Element {
   /// @param[in] name  The name of the requested attribute.
   ///
   /// @returns The attribute value or
-  ///          empty string if no attribute (optional attribute).
+  ///          empty string if no attribute (optional attribute)
+  ///          or the attribute is empty.
   ///
-  /// @pre XML attributes never contain empty strings.
   /// @pre XML attribute values are simple texts w/o DTD processing.
   std::string_view attribute(const char* name) const {
     const xmlAttr* property = xmlHasProp(to_node(), detail::to_utf8(name));
-    if (!property)
+    if (!property || !property->children)
       return {};
     const xmlNode* text_node = property->children;
-    assert(text_node && text_node->type == XML_TEXT_NODE);
+    assert(text_node->type == XML_TEXT_NODE);
     assert(text_node->content);
     return detail::trim(detail::from_utf8(text_node->content));
   }
@@ -344,8 +346,6 @@ class Element {
   ///
   /// @returns The value of type T interpreted from attribute value.
   ///
-  /// @pre The text is not empty.
-  ///
   /// @throws ValidityError  Casting is unsuccessful.
   template <typename T>
   std::enable_if_t<std::is_arithmetic_v<T>, T> text() const {
-- 
2.43.0


From df5dfa084a862d2f7d68bc94c89ef0e66a296850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:04 +0000
Subject: [PATCH 30/56] fix: Reject histograms without positive weight

---
 src/expression/random_deviate.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/expression/random_deviate.cc b/src/expression/random_deviate.cc
index 8d85dff..73541d9 100644
--- a/src/expression/random_deviate.cc
+++ b/src/expression/random_deviate.cc
@@ -187,6 +187,12 @@ void Histogram::Validate() const {
   if (ext::any_of(weights_, [](const auto& expr) { return expr->value() < 0; }))
     SCRAM_THROW(ValidityError("Histogram weights cannot be negative."));
 
+  if (!ext::any_of(weights_,
+                   [](const auto& expr) { return expr->value() > 0; })) {
+    SCRAM_THROW(
+        ValidityError("Histogram must have at least one positive weight."));
+  }
+
   if (!boost::is_sorted(boundaries_, [](const auto& lhs, const auto& rhs) {
         return lhs->value() <= rhs->value();
       })) {
-- 
2.43.0


From 169e9d2a1ff13606ae910211d335d76b812ee8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 31/56] fix: Compute modulo expressions without integer
 overflow or division by zero

---
 src/expression/numerical.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/expression/numerical.h b/src/expression/numerical.h
index 786cba7..8a4bee7 100644
--- a/src/expression/numerical.h
+++ b/src/expression/numerical.h
@@ -55,6 +55,15 @@ struct Bifunctor {  // Nasty abuse of terminology :(. Haskellers will hate this.
 template <double (*F)(double, double)>
 using BifunctorExpression = NaryExpression<Bifunctor<F>, 2>;
 
+/// Functor for the remainder of the division of numbers truncated to integers.
+struct Modulus {
+  /// @returns The remainder with the sign of the first argument.
+  ///          NaN for the (truncated) divisor 0.
+  double operator()(double arg_one, double arg_two) {
+    return std::fmod(std::trunc(arg_one), std::trunc(arg_two)) + 0.0;  // No -0.
+  }
+};
+
 using Neg = NaryExpression<std::negate<>, 1>;  ///< Negation.
 using Add = NaryExpression<std::plus<>, -1>;  ///< Sum operation.
 using Sub = NaryExpression<std::minus<>, -1>;  ///< Subtraction from the first.
@@ -73,7 +82,7 @@ using Tanh = FunctorExpression<&std::tanh>;  ///< Hyperbolic tangent.
 using Exp = FunctorExpression<&std::exp>;  ///< Exponential.
 using Log = FunctorExpression<&std::log>;  ///< Natural logarithm.
 using Log10 = FunctorExpression<&std::log10>;  ///< Decimal logarithm.
-using Mod = NaryExpression<std::modulus<int>, 2>;  ///< Modulo (%) operation.
+using Mod = NaryExpression<Modulus, 2>;  ///< Modulo (%) operation.
 using Pow = BifunctorExpression<&std::pow>;  ///< Base raised to a power.
 using Sqrt = FunctorExpression<&std::sqrt>;  ///< Square root.
 using Ceil = FunctorExpression<&std::ceil>;  ///< Nearest (>=) integer.
-- 
2.43.0


From 600650065d90f02177b399af3f04def1ffc3ab4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:50 +0000
Subject: [PATCH 32/56] fix: Validate expressions after their arguments and
 reject undefined values

---
 src/expression.cc  | 12 ++++++++++++
 src/expression.h   |  9 ++++++++-
 src/initializer.cc | 29 ++++++++++++++++++++++++-----
 3 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/src/expression.cc b/src/expression.cc
index c22f9ad..ece567b 100644
--- a/src/expression.cc
+++ b/src/expression.cc
@@ -20,6 +20,8 @@
 
 #include "expression.h"
 
+#include <cmath>
+
 #include <sstream>
 #include <string>
 
@@ -72,6 +74,16 @@ std::string ToString(const Interval& interval) {
 
 }  // namespace
 
+void EnsureDefined(Expression* expression) {
+  if (std::isnan(expression->value()))
+    SCRAM_THROW(DomainError("The expression value is undefined."));
+
+  Interval interval = expression->interval();
+  if (std::isnan(interval.lower()) || std::isnan(interval.upper()))
+    SCRAM_THROW(DomainError("The expression sample domain is undefined."))
+        << errinfo_value(ToString(interval));
+}
+
 void EnsureProbability(Expression* expression, const char* type) {
   double value = expression->value();
   if (value < 0 || value > 1)
diff --git a/src/expression.h b/src/expression.h
index b837952..eede691 100644
--- a/src/expression.h
+++ b/src/expression.h
@@ -262,7 +262,6 @@ class NaryExpression<T, -1> : public ExpressionFormula<NaryExpression<T, -1>> {
       std::tie(min_value, max_value) =
           std::minmax({max_max, max_min, min_max, min_min});
     }
-    assert(min_value <= max_value);
     return Interval::closed(min_value, max_value);
   }
 
@@ -278,6 +277,14 @@ class NaryExpression<T, -1> : public ExpressionFormula<NaryExpression<T, -1>> {
   }
 };
 
+/// Ensures that the value and the sample domain of an expression are defined,
+/// i.e., not the result of undefined arithmetic (NaN).
+///
+/// @param[in] expression  The expression to be validated.
+///
+/// @throws DomainError  The expression is not defined.
+void EnsureDefined(Expression* expression);
+
 /// Ensures that expression can be used for probability ([0, 1]).
 ///
 /// @param[in] expression  The expression to be validated.
diff --git a/src/initializer.cc b/src/initializer.cc
index a3d55f3..e535d6d 100644
--- a/src/initializer.cc
+++ b/src/initializer.cc
@@ -23,6 +23,7 @@
 #include <functional>  // std::mem_fn
 #include <sstream>
 #include <type_traits>
+#include <unordered_set>
 
 #include <boost/exception/errinfo_at_line.hpp>
 #include <boost/exception/errinfo_file_name.hpp>
@@ -1802,15 +1803,33 @@ void Initializer::ValidateExpressions() {
   cycle::CheckCycle<Parameter>(model_->table<Parameter>(), "parameter");
 
   // Validate expressions.
-  for (const std::pair<Expression*, xml::Element>& expression : expressions_) {
+  // The validation of an expression evaluates its arguments;
+  // therefore, the arguments must be validated before the expression.
+  std::unordered_map<Expression*, const xml::Element*> to_validate;
+  for (const std::pair<Expression*, xml::Element>& expression : expressions_)
+    to_validate.emplace(expression.first, &expression.second);
+
+  std::unordered_set<Expression*> visited;
+  std::function<void(Expression*)> validate = [&](Expression* expression) {
+    if (!visited.insert(expression).second)
+      return;
+    for (Expression* arg : expression->args())
+      validate(arg);
+
+    auto it = to_validate.find(expression);
+    if (it == to_validate.end())
+      return;
     try {
-      expression.first->Validate();
+      expression->Validate();
+      EnsureDefined(expression);
     } catch (ValidityError& err) {
-      err << boost::errinfo_file_name(expression.second.filename())
-          << boost::errinfo_at_line(expression.second.line());
+      err << boost::errinfo_file_name(it->second->filename())
+          << boost::errinfo_at_line(it->second->line());
       throw;
     }
-  }
+  };
+  for (const std::pair<Expression*, xml::Element>& expression : expressions_)
+    validate(expression.first);
 
   // Check the values collected as probabilities on event-tree paths.
   for (const std::pair<Expression*, xml::Element>& expression :
-- 
2.43.0


From 3b3052ff2837ce0b507cd3e097f302528e79ed07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:15 +0000
Subject: [PATCH 33/56] fix: Replace undefined samples in uncertainty analysis
 by point estimates

---
 src/uncertainty_analysis.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/uncertainty_analysis.cc b/src/uncertainty_analysis.cc
index ce4bcce..358ec2e 100644
--- a/src/uncertainty_analysis.cc
+++ b/src/uncertainty_analysis.cc
@@ -82,6 +82,11 @@ void UncertaintyAnalysis::SampleExpressions(
   // Sample all expressions with distributions.
   for (const auto& expression : deviate_expressions) {
     double prob = expression.second.Sample();
+    if (std::isnan(prob)) {  // Numerical failure with extreme parameters.
+      prob = expression.second.value();
+      if (Analysis::warnings().empty())
+        Analysis::AddWarning("Undefined samples replaced by point estimates.");
+    }
     (*p_vars)[expression.first] = prob > 1 ? 1 : prob < 0 ? 0 : prob;
   }
 }
-- 
2.43.0


From 052ddb29ab59c430949b7f934b57d017458e10c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:58 +0000
Subject: [PATCH 34/56] fix: Serialize the system mission time as an expression
 argument

---
 src/serialization.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/serialization.cc b/src/serialization.cc
index d1423e9..b8efa10 100644
--- a/src/serialization.cc
+++ b/src/serialization.cc
@@ -32,6 +32,7 @@
 #include "expression/exponential.h"
 #include "ext/variant.h"
 #include "fault_tree.h"
+#include "parameter.h"
 #include "xml_stream.h"
 
 namespace scram::mef {
@@ -158,6 +159,8 @@ void Serialize(const Expression& expression, xml::StreamElement* parent) {
     assert(exponential->args().size() == 2);
     for (const Expression* arg : exponential->args())
       Serialize(*arg, &xml);
+  } else if (dynamic_cast<const MissionTime*>(&expression)) {
+    parent->AddChild("system-mission-time");
   } else {
     assert(false && "Unsupported expression");
   }
-- 
2.43.0


From 84cf7b7424e25070021f019a7c9e00c88d0d9f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:18 +0000
Subject: [PATCH 35/56] fix: Keep white space characters in XML attribute
 values and text

---
 src/xml_stream.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/xml_stream.h b/src/xml_stream.h
index 02a6f84..2d1caa6 100644
--- a/src/xml_stream.h
+++ b/src/xml_stream.h
@@ -345,7 +345,8 @@ class StreamElement {
     out_ << indenter_(kIndent_) << "<" << kName_;
   }
 
-  /// Puts the value as text escaping the required XML special characters.
+  /// Puts the value as text escaping the required XML special characters
+  /// and white space that XML parsers would normalize to other characters.
   /// @{
   void PutValue(int value) { out_ << value; }
   void PutValue(double value) { out_ << value; }
@@ -353,7 +354,9 @@ class StreamElement {
   void PutValue(bool value) { out_ << (value ? "true" : "false"); }
   void PutValue(const std::string& value) { PutValue(value.c_str()); }
   void PutValue(const char* value) {
-    bool has_special_chars = [value]() mutable {  // 2x faster than strpbrk.
+    bool is_attribute = accept_attributes_;
+    bool has_special_chars = [value, is_attribute]() mutable {
+      // 2x faster than strpbrk.
       for (;; ++value) {
         switch (*value) {
           case '\0':
@@ -362,7 +365,12 @@ class StreamElement {
           case '<':
           case '>':
           case '"':
+          case '\r':
             return true;
+          case '\n':
+          case '\t':
+            if (is_attribute)
+              return true;
         }
       }
     }();
@@ -386,6 +394,16 @@ class StreamElement {
           case '"':
             out_ << "&quot;";
             break;
+          case '\r':
+            out_ << "&#13;";
+            break;
+          case '\n':
+          case '\t':
+            if (is_attribute) {
+              out_ << (*value == '\n' ? "&#10;" : "&#9;");
+              break;
+            }
+            [[fallthrough]];
           default:
             out_ << *value;
         }
-- 
2.43.0


From f44c07ce065fdab7ade14dd33a03a268e199e765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:57 +0000
Subject: [PATCH 36/56] fix: Serialize floating point numbers without loss

---
 src/serialization.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/serialization.cc b/src/serialization.cc
index b8efa10..4e92820 100644
--- a/src/serialization.cc
+++ b/src/serialization.cc
@@ -19,7 +19,11 @@
 
 #include "serialization.h"
 
+#include <cstdio>
+#include <cstdlib>
+
 #include <memory>
+#include <string>
 
 #include <boost/exception/errinfo_errno.hpp>
 #include <boost/exception/errinfo_file_name.hpp>
@@ -147,12 +151,23 @@ void Serialize(const FaultTree& fault_tree, xml::StreamElement* parent) {
     Serialize(gate, &ft_element);
 }
 
+/// @returns The shortest text that reads back as the same number.
+std::string ToText(double value) {
+  char text[32];
+  for (int precision = 6; precision <= 17; ++precision) {
+    std::snprintf(text, sizeof(text), "%.*g", precision, value);
+    if (std::strtod(text, nullptr) == value)
+      break;
+  }
+  return text;
+}
+
 void Serialize(const Expression& expression, xml::StreamElement* parent) {
   if (const auto* constant =
           dynamic_cast<const ConstantExpression*>(&expression)) {
     /// @todo Track the original value type of the constant expression.
     parent->AddChild("float").SetAttribute(
-        "value", const_cast<ConstantExpression*>(constant)->value());
+        "value", ToText(const_cast<ConstantExpression*>(constant)->value()));
   } else if (const auto* exponential =
                  dynamic_cast<const Exponential*>(&expression)) {
     xml::StreamElement xml = parent->AddChild("exponential");
-- 
2.43.0


From 4966fa26506733803e0b30cdd912c49fdf352564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:10 +0000
Subject: [PATCH 37/56] fix: Serialize Boolean constants in formulas

---
 src/serialization.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/serialization.cc b/src/serialization.cc
index 4e92820..8e06b4e 100644
--- a/src/serialization.cc
+++ b/src/serialization.cc
@@ -88,8 +88,14 @@ void SerializeElement(const Element& element, xml::StreamElement* xml_element) {
 void Serialize(const Formula& formula, xml::StreamElement* parent) {
   auto stream_event = [](const Formula::ArgEvent& event,
                          xml::StreamElement* xml) {
-    xml->AddChild("event").SetAttribute(
-        "name", ext::as<const mef::Event*>(event)->name());
+    const auto* arg_event = ext::as<const mef::Event*>(event);
+    if (arg_event == &HouseEvent::kTrue || arg_event == &HouseEvent::kFalse) {
+      xml->AddChild("constant")
+          .SetAttribute("value",
+                        arg_event == &HouseEvent::kTrue ? "true" : "false");
+      return;
+    }
+    xml->AddChild("event").SetAttribute("name", arg_event->name());
   };
   auto stream_arg = [&stream_event](const Formula::Arg& arg,
                                     xml::StreamElement* xml) {
-- 
2.43.0


From a27f9dc120fa7b15f2a71d03608db15a6b71b980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:34 +0000
Subject: [PATCH 38/56] fix: Serialize elements in an order that survives
 reloading

---
 src/serialization.cc | 34 ++++++++++++++++++++++++++--------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/serialization.cc b/src/serialization.cc
index 8e06b4e..089a8e2 100644
--- a/src/serialization.cc
+++ b/src/serialization.cc
@@ -22,8 +22,10 @@
 #include <cstdio>
 #include <cstdlib>
 
+#include <algorithm>
 #include <memory>
 #include <string>
+#include <vector>
 
 #include <boost/exception/errinfo_errno.hpp>
 #include <boost/exception/errinfo_file_name.hpp>
@@ -80,6 +82,22 @@ void SerializeLabelAndAttributes(const Element& element,
   }
 }
 
+/// Puts elements of hash tables into an order that survives reloading.
+///
+/// @param[in] table  The range of elements.
+///
+/// @returns The elements ordered by their names.
+template <class Range>
+auto SortByName(const Range& table) {
+  std::vector<decltype(&*table.begin())> elements;
+  for (const auto& element : table)
+    elements.push_back(&element);
+  std::sort(elements.begin(), elements.end(), [](auto* lhs, auto* rhs) {
+    return lhs->name() < rhs->name();
+  });
+  return elements;
+}
+
 void SerializeElement(const Element& element, xml::StreamElement* xml_element) {
   xml_element->SetAttribute("name", element.name());
   SerializeLabelAndAttributes(element, xml_element);
@@ -153,8 +171,8 @@ void Serialize(const FaultTree& fault_tree, xml::StreamElement* parent) {
   assert(fault_tree.role() == RoleSpecifier::kPublic);
   xml::StreamElement ft_element = parent->AddChild("define-fault-tree");
   SerializeElement(fault_tree, &ft_element);
-  for (const Gate& gate : fault_tree.gates())
-    Serialize(gate, &ft_element);
+  for (const Gate* gate : SortByName(fault_tree.gates()))
+    Serialize(*gate, &ft_element);
 }
 
 /// @returns The shortest text that reads back as the same number.
@@ -221,14 +239,14 @@ void Serialize(const Model& model, std::FILE* out) {
   assert(model.sequences().empty());
   assert(model.rules().empty());
 
-  for (const FaultTree& fault_tree : model.fault_trees())
-    Serialize(fault_tree, &root);
+  for (const FaultTree* fault_tree : SortByName(model.fault_trees()))
+    Serialize(*fault_tree, &root);
 
   xml::StreamElement model_data = root.AddChild("model-data");
-  for (const BasicEvent& basic_event : model.basic_events())
-    Serialize(basic_event, &model_data);
-  for (const HouseEvent& house_event : model.house_events())
-    Serialize(house_event, &model_data);
+  for (const BasicEvent* basic_event : SortByName(model.basic_events()))
+    Serialize(*basic_event, &model_data);
+  for (const HouseEvent* house_event : SortByName(model.house_events()))
+    Serialize(*house_event, &model_data);
 }
 
 }  // namespace scram::mef
-- 
2.43.0


From 7bffa433fad307f6af7af78bd2fc4f833c900b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:13 +0000
Subject: [PATCH 39/56] fix: Keep the order of generated fault trees
 independent of memory addresses

---
 scripts/fault_tree.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/scripts/fault_tree.py b/scripts/fault_tree.py
index 0e7dd3a..309a7e7 100644
--- a/scripts/fault_tree.py
+++ b/scripts/fault_tree.py
@@ -17,6 +17,18 @@
 from collections import deque
 
 
+class OrderedSet(dict):
+    """A set of nodes that is iterated in the order of insertion.
+
+    The order of built-in sets of objects depends on memory addresses,
+    which would make the output differ from run to run.
+    """
+
+    def add(self, item):
+        """Adds an item if it is not in the set yet."""
+        self[item] = None
+
+
 class Event:
     """Representation of a base class for an event in a fault tree.
 
@@ -34,7 +46,7 @@ class Event:
             name: Identifier for the node.
         """
         self.name = name
-        self.parents = set()
+        self.parents = OrderedSet()
 
     def is_common(self):
         """Indicates if this node appears in several places."""
@@ -139,10 +151,10 @@ class Gate(Event):  # pylint: disable=too-many-instance-attributes
         self.mark = None
         self.operator = operator
         self.k_num = k_num
-        self.g_arguments = set()
-        self.b_arguments = set()
-        self.h_arguments = set()
-        self.u_arguments = set()
+        self.g_arguments = OrderedSet()
+        self.b_arguments = OrderedSet()
+        self.h_arguments = OrderedSet()
+        self.u_arguments = OrderedSet()
 
     def num_arguments(self):
         """Returns the number of arguments."""
-- 
2.43.0


From 4eaeade9b69d9aa0664c66c9c5b2e0a9cdcfd1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:56 +0000
Subject: [PATCH 40/56] fix: Report write errors of the fault tree generator

---
 scripts/fault_tree_generator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index 08538db..32b44f1 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -979,15 +979,20 @@ def main(argv=None):
         write_info(fault_tree, printer, args.seed)
         write_summary(fault_tree, printer)
         fault_tree.to_xml(printer, args.nest)
+    printer.close()
 
 
 def get_printer(file_path=None):
-    """Returns printer to stream output."""
+    """Returns printer to stream output.
+
+    The printer must be closed to find out about errors of buffered writes.
+    """
     destination = open(file_path, 'w') if file_path else sys.stdout
 
     def _print(*args):
         print(*args, file=destination, sep='')
 
+    _print.close = destination.close if file_path else destination.flush
     return _print
 
 
-- 
2.43.0


From 48c47a02cd26545d8b5e9726f90e59c9c6c15d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:48 +0000
Subject: [PATCH 41/56] fix: Generate no more basic events than requested and
 place all common nodes

---
 scripts/fault_tree_generator.py | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index 32b44f1..8f04b41 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -520,16 +520,31 @@ def correct_for_exhaustion(gates_queue, common_gate, fault_tree):
     """
     if gates_queue:
         return
-    if len(fault_tree.basic_events) < fault_tree.factors.num_basic:
-        # Initialize one more gate
-        # by randomly choosing places in the fault tree.
+
+    def choose_parent():
+        """Randomly chooses an initialized gate that can take an argument."""
         random_gate = random.choice(fault_tree.gates)
         while (random_gate.operator == "not" or random_gate.operator == "xor" or
                random_gate in common_gate):
             random_gate = random.choice(fault_tree.gates)
+        return random_gate
+
+    orphans = [x for x in common_gate if x.is_orphan()]
+    if len(fault_tree.basic_events) < fault_tree.factors.num_basic:
+        # Initialize one more gate
+        # by randomly choosing places in the fault tree.
+        random_gate = choose_parent()
         new_gate = fault_tree.construct_gate()
         random_gate.add_argument(new_gate)
         gates_queue.append(new_gate)
+    elif orphans:
+        # All the common nodes must be in the fault tree.
+        choose_parent().add_argument(orphans[0])
+        gates_queue.append(orphans[0])
+    else:
+        for basic_event in fault_tree.basic_events:
+            if basic_event.is_orphan():
+                choose_parent().add_argument(basic_event)
 
 
 def choose_basic_event(s_common, common_basic, fault_tree):
@@ -543,8 +558,11 @@ def choose_basic_event(s_common, common_basic, fault_tree):
     Returns:
         Basic event argument for a gate.
     """
-    if s_common >= fault_tree.factors.common_b or not common_basic:
-        return fault_tree.construct_basic_event()
+    if len(fault_tree.basic_events) < fault_tree.factors.num_basic:
+        if s_common >= fault_tree.factors.common_b or not common_basic:
+            return fault_tree.construct_basic_event()
+    elif not common_basic:
+        return random.choice(fault_tree.basic_events)
 
     orphans = [x for x in common_basic if not x.parents]
     if orphans:
@@ -605,6 +623,10 @@ def init_gates(gates_queue, common_basic, common_gate, fault_tree):
                             gates_queue.append(random_gate)
                         gate.add_argument(random_gate)
                         break
+            elif (len(fault_tree.basic_events) == fault_tree.factors.num_basic
+                  and gate.num_arguments() < len(fault_tree.basic_events)):
+                # No more new nodes are needed
+                gate.add_argument(random.choice(fault_tree.basic_events))
             else:
                 new_gate = fault_tree.construct_gate()
                 gate.add_argument(new_gate)
-- 
2.43.0


From 227294991c2ffd74af95c41584c4058c8fde4501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:48 +0000
Subject: [PATCH 42/56] fix: Put house events under the top gate if there is no
 other place

---
 scripts/fault_tree_generator.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index 8f04b41..37575c9 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -644,12 +644,13 @@ def distribute_house_events(fault_tree):
     Args:
         fault_tree: The fault tree container of all events and constructs.
     """
+    target_gates = [
+        x for x in fault_tree.gates
+        if x is not fault_tree.top_gate and x.operator not in ("xor", "not")
+    ] or [fault_tree.top_gate]
     while len(fault_tree.house_events) < fault_tree.factors.num_house:
-        target_gate = random.choice(fault_tree.gates)
-        if (target_gate is not fault_tree.top_gate and
-                target_gate.operator != "xor" and
-                target_gate.operator != "not"):
-            target_gate.add_argument(fault_tree.construct_house_event())
+        target_gate = random.choice(target_gates)
+        target_gate.add_argument(fault_tree.construct_house_event())
 
 
 def generate_ccf_groups(fault_tree):
-- 
2.43.0


From 54a33188ab1ee09f24a66a0f313a0d1085439806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:48 +0000
Subject: [PATCH 43/56] fix: Generate as many CCF groups as requested

---
 scripts/fault_tree_generator.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/fault_tree_generator.py b/scripts/fault_tree_generator.py
index 37575c9..4ca6c11 100755
--- a/scripts/fault_tree_generator.py
+++ b/scripts/fault_tree_generator.py
@@ -666,10 +666,12 @@ def generate_ccf_groups(fault_tree):
         last_mem = 0
         while len(fault_tree.ccf_groups) < fault_tree.factors.num_ccf:
             max_args = int(2 * fault_tree.factors.num_args - 2)
+            # The other groups need at least two members each.
+            num_other = fault_tree.factors.num_ccf - len(
+                fault_tree.ccf_groups) - 1
+            max_args = min(max_args, len(members) - first_mem - 2 * num_other)
             group_size = random.randint(2, max_args)
             last_mem = first_mem + group_size
-            if last_mem > len(members):
-                break
             fault_tree.construct_ccf_group(members[first_mem:last_mem])
             first_mem = last_mem
         fault_tree.non_ccf_events = members[first_mem:]
-- 
2.43.0


From a3c5a73a3308b9bf99a860eb68db67344c1071e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:22 +0000
Subject: [PATCH 44/56] fix: Nest generated NOT gates without repeated
 arguments and unreferenced definitions

---
 scripts/fault_tree.py | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/scripts/fault_tree.py b/scripts/fault_tree.py
index 309a7e7..8557eea 100644
--- a/scripts/fault_tree.py
+++ b/scripts/fault_tree.py
@@ -201,6 +201,32 @@ class Gate(Event):  # pylint: disable=too-many-instance-attributes
                 parents.extend(parent.parents)
         return ancestors
 
+    def get_nested_gates(self):
+        """Collects NOT gates that can be nested in the formula of this gate.
+
+        A formula must not have the same argument twice.
+
+        Returns:
+            A set of NOT gate arguments.
+        """
+        nested = OrderedSet()
+        if self.operator == "not":
+            return nested
+        used = [*self.h_arguments, *self.b_arguments, *self.u_arguments]
+        used.extend(x for x in self.g_arguments if x.operator != "not")
+        for gate in self.g_arguments:
+            if gate.operator != "not":
+                continue
+            args = [
+                *gate.h_arguments, *gate.b_arguments, *gate.u_arguments,
+                *gate.g_arguments
+            ]
+            if any(x in used or x in self.g_arguments for x in args):
+                continue
+            used.extend(args)
+            nested.add(gate)
+        return nested
+
     def to_xml(self, printer, nest=False):
         """Produces the Open-PSA MEF XML definition of the gate.
 
@@ -229,9 +255,11 @@ class Gate(Event):  # pylint: disable=too-many-instance-attributes
             mef_xml += args_to_xml("basic-event", gate.b_arguments)
             mef_xml += args_to_xml("event", gate.u_arguments)
 
+            nested_gates = gate.get_nested_gates()
+
             def converter(arg_gate):
                 """Converter for single nesting NOT connective."""
-                if gate.operator != "not" and arg_gate.operator == "not":
+                if arg_gate in nested_gates:
                     return convert_formula(arg_gate)
                 return arg_to_xml("gate", arg_gate)
 
@@ -386,6 +414,9 @@ class FaultTree:  # pylint: disable=too-many-instance-attributes
         sorted_gates = toposort_gates(self.top_gates or [self.top_gate],
                                       self.gates)
         for gate in sorted_gates:
+            if nest and gate.parents and all(
+                    gate in x.get_nested_gates() for x in gate.parents):
+                continue  # only appears nested in the formulas of its parents
             gate.to_xml(printer, nest)
 
         for ccf_group in self.ccf_groups:
-- 
2.43.0


From 3e7648b62dfe65ca036072c5c6cb34c6e132ee18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:25 +0000
Subject: [PATCH 45/56] fix: Let the GUI read the mission time it saves

---
 share/gui.rng | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/share/gui.rng b/share/gui.rng
index 23f44b1..c1baade 100644
--- a/share/gui.rng
+++ b/share/gui.rng
@@ -315,6 +315,7 @@
   <define name="expression">
     <choice>
       <ref name="constant"/>
+      <ref name="system-mission-time"/>
       <ref name="built-in"/>
     </choice>
   </define>
@@ -359,6 +360,10 @@
       </element>
     </define>
 
+    <define name="system-mission-time">
+      <element name="system-mission-time"> <empty/> </element>
+    </define>
+
     <!-- *********************************************************** -->
     <!-- V.2.3. Numerical Expressions -->
     <!-- *********************************************************** -->
-- 
2.43.0


From a4dbc899bacd2cf265f2a2fb518a3eb86c82b79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:09 +0000
Subject: [PATCH 46/56] fix: Keep the min number of at-least gates edited in
 the GUI

---
 gui/mainwindow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gui/mainwindow.cpp b/gui/mainwindow.cpp
index de5286b..de3f208 100644
--- a/gui/mainwindow.cpp
+++ b/gui/mainwindow.cpp
@@ -1134,7 +1134,7 @@ std::unique_ptr<mef::Formula> MainWindow::extract(const EventDialog &dialog)
     mef::Connective connective = dialog.connective();
     auto minNumber = [&connective, &dialog]() -> std::optional<int> {
         if (connective == mef::kAtleast)
-            dialog.minNumber();
+            return dialog.minNumber();
         return {};
     }();
     return std::make_unique<mef::Formula>(connective, std::move(arg_set),
-- 
2.43.0


From 7ea6d2b41cd091e86cd10c8895adf93e88feeba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:16 +0000
Subject: [PATCH 47/56] fix: Do not crash on exit with a report and a history

---
 gui/mainwindow.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gui/mainwindow.cpp b/gui/mainwindow.cpp
index de3f208..e9c04f6 100644
--- a/gui/mainwindow.cpp
+++ b/gui/mainwindow.cpp
@@ -142,7 +142,11 @@ MainWindow::MainWindow(QWidget *parent)
     setupStartPage();
 }
 
-MainWindow::~MainWindow() = default;
+MainWindow::~MainWindow()
+{
+    // The child objects outlive the members that their signals are used on.
+    m_undoStack->disconnect();
+}
 
 namespace { // Error message dialog for SCRAM exceptions.
 
-- 
2.43.0


From 408b0c1ff6384ab2a24c8417b2b79a6173d8018c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:39 +0000
Subject: [PATCH 48/56] fix: Normalize the containers of events in models
 opened in the GUI

---
 gui/mainwindow.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/gui/mainwindow.cpp b/gui/mainwindow.cpp
index e9c04f6..e86f3ae 100644
--- a/gui/mainwindow.cpp
+++ b/gui/mainwindow.cpp
@@ -279,6 +279,24 @@ bool MainWindow::setProjectFile(const std::string &projectFilePath,
     return true;
 }
 
+namespace {
+
+/// Moves the definitions of all but gates out of fault trees.
+/// Only the model is the container of these events in the GUI.
+void normalize(mef::Model *model)
+{
+    auto removeAll = [](auto &&table, mef::FaultTree *faultTree) {
+        while (!table.empty())
+            faultTree->Remove(&*table.begin());
+    };
+    for (mef::FaultTree &faultTree : model->table<mef::FaultTree>()) {
+        removeAll(faultTree.table<mef::BasicEvent>(), &faultTree);
+        removeAll(faultTree.table<mef::HouseEvent>(), &faultTree);
+    }
+}
+
+} // namespace
+
 bool MainWindow::addInputFiles(const std::vector<std::string> &inputFiles)
 {
     static xml::Validator validator(env::install_dir()
@@ -309,6 +327,7 @@ bool MainWindow::addInputFiles(const std::vector<std::string> &inputFiles)
             }
         }
 
+        normalize(newModel.get());
         m_model = std::move(newModel);
         m_inputFiles = std::move(allInput);
     } catch (const scram::IOError &err) {
-- 
2.43.0


From 1af3538aa7d80eaf9f930a2cc7437b10fc2125de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:39 +0000
Subject: [PATCH 49/56] fix: Close the views of a model in the GUI before its
 destruction

---
 gui/mainwindow.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gui/mainwindow.cpp b/gui/mainwindow.cpp
index e86f3ae..011c0a4 100644
--- a/gui/mainwindow.cpp
+++ b/gui/mainwindow.cpp
@@ -307,10 +307,11 @@ bool MainWindow::addInputFiles(const std::vector<std::string> &inputFiles)
     if (isWindowModified() && !saveModel())
         return false;
 
+    std::unique_ptr<mef::Model> newModel;
     try {
         std::vector<std::string> allInput = m_inputFiles;
         allInput.insert(allInput.end(), inputFiles.begin(), inputFiles.end());
-        std::unique_ptr<mef::Model> newModel = [this, &allInput] {
+        newModel = [this, &allInput] {
             return mef::Initializer(allInput, m_settings,
                                     /*allow_extern=*/false, &validator)
                 .model();
@@ -328,7 +329,7 @@ bool MainWindow::addInputFiles(const std::vector<std::string> &inputFiles)
         }
 
         normalize(newModel.get());
-        m_model = std::move(newModel);
+        m_model.swap(newModel); // The old model outlives its views.
         m_inputFiles = std::move(allInput);
     } catch (const scram::IOError &err) {
         displayError(err, _("Input file error"), this);
@@ -643,6 +644,8 @@ void MainWindow::createNewModel()
     }
 
     m_inputFiles.clear();
+    // The old model outlives its views.
+    std::unique_ptr<mef::Model> oldModel = std::move(m_model);
     m_model = std::make_unique<mef::Model>();
 
     emit projectChanged();
-- 
2.43.0


From 3e0d6191742829a4472399f15b30ecff0fc77c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:03 +0000
Subject: [PATCH 50/56] fix: Keep the indices of elements in the GUI tables on
 removal

---
 gui/elementcontainermodel.cpp | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/gui/elementcontainermodel.cpp b/gui/elementcontainermodel.cpp
index c770167..d35c2ef 100644
--- a/gui/elementcontainermodel.cpp
+++ b/gui/elementcontainermodel.cpp
@@ -94,19 +94,13 @@ void ElementContainerModel::removeElement(Element *element)
 {
     GUI_ASSERT(m_elementToIndex.count(element), );
     int index = m_elementToIndex.find(element)->second;
-    int lastIndex = m_elements.size() - 1;
-    auto *lastElement = m_elements.back();
-    // The following is basically a swap with the last item.
-    beginRemoveRows({}, lastIndex, lastIndex);
+    // The indices of the following elements keep their element pointers.
+    beginRemoveRows({}, index, index);
     m_elementToIndex.erase(element);
-    m_elements.pop_back();
+    m_elements.erase(m_elements.begin() + index);
+    for (int i = index; i < m_elements.size(); ++i)
+        m_elementToIndex[m_elements[i]] = i;
     endRemoveRows();
-    if (index != lastIndex) {
-        m_elements[index] = lastElement;
-        m_elementToIndex[lastElement] = index;
-        emit dataChanged(createIndex(index, 0, lastElement),
-                         createIndex(index, columnCount() - 1, lastElement));
-    }
     disconnect(element, 0, this, 0);
 }
 
-- 
2.43.0


From c959f996dab3ad5cc042828c0c4e411a4d7be96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:54 +0000
Subject: [PATCH 51/56] fix: Keep the full precision of expressions in the
 GUI's event dialog

---
 gui/eventdialog.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gui/eventdialog.cpp b/gui/eventdialog.cpp
index 0897563..4432b99 100644
--- a/gui/eventdialog.cpp
+++ b/gui/eventdialog.cpp
@@ -21,6 +21,7 @@
 
 #include <QCompleter>
 #include <QListView>
+#include <QLocale>
 #include <QObject>
 #include <QPushButton>
 #include <QShortcut>
@@ -279,14 +280,16 @@ void EventDialog::setupData(const model::BasicEvent &element)
         if (auto *constExpr = dynamic_cast<mef::ConstantExpression *>(
                 &basicEvent.expression())) {
             expressionType->setCurrentIndex(0);
-            constantValue->setText(QString::number(constExpr->value()));
+            constantValue->setText(QString::number(
+                constExpr->value(), 'g', QLocale::FloatingPointShortest));
         } else {
             auto *exponentialExpr =
                 dynamic_cast<mef::Exponential *>(&basicEvent.expression());
             GUI_ASSERT(exponentialExpr, );
             expressionType->setCurrentIndex(1);
             exponentialRate->setText(
-                QString::number(exponentialExpr->args().front()->value()));
+                QString::number(exponentialExpr->args().front()->value(), 'g',
+                                QLocale::FloatingPointShortest));
         }
     } else {
         expressionBox->setChecked(false);
-- 
2.43.0


From dcf0632cdbbabf428fda4625857fa8d91ce8aad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:56 +0000
Subject: [PATCH 52/56] fix: Show the report in the GUI before the model can be
 changed again

---
 gui/mainwindow.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gui/mainwindow.cpp b/gui/mainwindow.cpp
index 011c0a4..5361103 100644
--- a/gui/mainwindow.cpp
+++ b/gui/mainwindow.cpp
@@ -809,12 +809,18 @@ void MainWindow::runAnalysis()
     auto analysis =
         std::make_unique<core::RiskAnalysis>(m_model.get(), m_settings);
     QFutureWatcher<void> futureWatcher;
-    connect(&futureWatcher, SIGNAL(finished()), &progress, SLOT(reset()));
+    // The report is up to date before the user can change the model again.
+    connect(&futureWatcher, &QFutureWatcher<void>::finished, &progress,
+            [this, &analysis, &progress] {
+                resetReportTree(std::move(analysis));
+                progress.reset();
+            });
     futureWatcher.setFuture(
         QtConcurrent::run([&analysis] { analysis->Analyze(); }));
     progress.exec();
     futureWatcher.waitForFinished();
-    resetReportTree(std::move(analysis));
+    if (analysis) // The dialog has been left before the end.
+        resetReportTree(std::move(analysis));
 }
 
 void MainWindow::exportReportAs()
-- 
2.43.0


From 8fb40893fb35eb7e4cb16edd549fb830195acaea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:04 +0000
Subject: [PATCH 53/56] fix: Tolerate rounding errors in the states of a
 periodically tested component

The availability is computed as a difference and can come out as -1e-17,
which failed the assertion and ended the run for a valid model.
---
 src/expression/exponential.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/expression/exponential.cc b/src/expression/exponential.cc
index bbe1d0a..d606c73 100644
--- a/src/expression/exponential.cc
+++ b/src/expression/exponential.cc
@@ -22,6 +22,8 @@
 
 #include <cmath>
 
+#include <algorithm>
+
 #include "src/error.h"
 
 namespace scram::mef {
@@ -228,6 +230,14 @@ double PeriodicTest::Complete::Compute(double lambda, double lambda_test,
   double p_repair = 0;
   double p_available = 1 - p_fail;
 
+  // Keeps the states within the bounds despite the rounding errors.
+  auto round_off = [&] {
+    for (double* p : {&p_fail, &p_repair, &p_available}) {
+      assert(*p > -1e-9 && *p < 1 + 1e-9);
+      *p = std::min(std::max(*p, 0.0), 1.0);
+    }
+  };
+
   // Failure after repair.
   auto p_mu_lambda = [&](double p_mu, double p_lambda, double t) {
     return p_mu * omega + (1 - omega) * p_exp(p_mu, p_lambda, mu, lambda, t);
@@ -243,9 +253,7 @@ double PeriodicTest::Complete::Compute(double lambda, double lambda_test,
     p_available =
         1 - p_fail - p_repair -
         (available ? 0 : p_available * (1 - gamma) * (1 - p_lambda_test));
-    assert(p_repair >= 0 && p_repair <= 1);
-    assert(p_fail >= 0 && p_fail <= 1);
-    assert(p_available >= 0);
+    round_off();
   };
   // Time after test.
   auto p_period = [&](double p_lambda, double p_mu, double t) {
@@ -253,9 +261,7 @@ double PeriodicTest::Complete::Compute(double lambda, double lambda_test,
              p_repair * p_mu_lambda(p_mu, p_lambda, t);
     p_repair = p_repair * (1 - p_mu);
     p_available = 1 - p_fail - p_repair;
-    assert(p_repair >= 0 && p_repair <= 1);
-    assert(p_fail >= 0 && p_fail <= 1);
-    assert(p_available >= 0);
+    round_off();
   };
 
   double delta = time - theta;
-- 
2.43.0


From 81423c7b455ee5212ba6971020f2944ca5eb8e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:04 +0000
Subject: [PATCH 54/56] fix: Apply non-declarative substitutions to trivial
 graphs with MOCUS

---
 src/mocus.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mocus.cc b/src/mocus.cc
index 9c43e8c..3b56130 100644
--- a/src/mocus.cc
+++ b/src/mocus.cc
@@ -40,6 +40,7 @@ void Mocus::Analyze(const Pdag*) noexcept {
   if (graph_->IsTrivial()) {
     LOG(DEBUG2) << "The PDAG is trivial!";
     zbdd_ = std::make_unique<Zbdd>(graph_, kSettings_);
+    zbdd_->Analyze(graph_);  // Application of non-declarative substitutions.
     return;
   }
 
-- 
2.43.0


From d4c31e6ac91a2ab099c320d6f8af10fb46b68a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:04 +0000
Subject: [PATCH 55/56] fix: Include the substitutions in the BDD for exact
 probabilities

The BDD built for the exact probability after ZBDD or MOCUS ignored the
declarative substitutions of the model, unlike the products and the
probability with the BDD algorithm.
---
 src/fault_tree_analysis.h   | 3 +++
 src/probability_analysis.cc | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/fault_tree_analysis.h b/src/fault_tree_analysis.h
index 606188e..536b80d 100644
--- a/src/fault_tree_analysis.h
+++ b/src/fault_tree_analysis.h
@@ -221,6 +221,9 @@ class FaultTreeAnalysis : public Analysis {
   /// @returns The top gate that is passed to the analysis.
   const mef::Gate& top_event() const { return top_event_; }
 
+  /// @returns The model with substitutions if it is provided for the analysis.
+  const mef::Model* model() const { return model_; }
+
   /// Analyzes the fault tree and performs computations.
   /// This function must be called
   /// only after initializing the fault tree
diff --git a/src/probability_analysis.cc b/src/probability_analysis.cc
index 3e9eaa7..1cf0718 100644
--- a/src/probability_analysis.cc
+++ b/src/probability_analysis.cc
@@ -250,7 +250,8 @@ void ProbabilityAnalyzer<Bdd>::CreateBdd(
   CLOCK(total_time);
 
   CLOCK(ft_creation);
-  Pdag graph(fta.top_event(), Analysis::settings().ccf_analysis());
+  Pdag graph(fta.top_event(), Analysis::settings().ccf_analysis(),
+             fta.model());
   LOG(DEBUG2) << "PDAG is created in " << DUR(ft_creation);
 
   CLOCK(prep_time);  // Overall preprocessing time.
-- 
2.43.0


From 92ee907e0bdb651d1dd4ef6247d5233085bea8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:04 +0000
Subject: [PATCH 56/56] fix: Honour the product order limit of 0 for single
 event targets

The single product of a trivial graph was kept regardless of the limit,
which failed the assertion in the analysis with ZBDD.
Sequences given by expressions only are no products of events,
so that their probability is not subject to the limit.
---
 src/risk_analysis.cc | 4 ++++
 src/zbdd.cc          | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/risk_analysis.cc b/src/risk_analysis.cc
index 50e13a3..d4caee5 100644
--- a/src/risk_analysis.cc
+++ b/src/risk_analysis.cc
@@ -99,7 +99,11 @@ void RiskAnalysis::RunAnalysis(std::optional<Context> context) noexcept {
             {{std::pair<const mef::InitiatingEvent&, const mef::Sequence&>{
                   initiating_event, sequence},
               context}});
+        const int limit_order = Analysis::settings().limit_order();
+        if (result.is_expression_only && limit_order < 1)
+          Analysis::settings().limit_order(1);  // Keep the only (proxy) event.
         RunAnalysis(*result.gate, &results_.back());
+        Analysis::settings().limit_order(limit_order);
         if (result.is_expression_only) {
           results_.back().fault_tree_analysis = nullptr;
           results_.back().importance_analysis = nullptr;
diff --git a/src/zbdd.cc b/src/zbdd.cc
index 7a55a5b..e0c11b2 100644
--- a/src/zbdd.cc
+++ b/src/zbdd.cc
@@ -76,7 +76,7 @@ Zbdd::Zbdd(const Pdag* graph, const Settings& settings) noexcept
       root_ = child < 0 ? kEmpty_ : kBase_;
     } else if (child < 0) {
       root_ = kBase_;
-    } else {
+    } else if (kSettings_.limit_order() > 0) {
       const Variable& var = top_gate.args<Variable>().begin()->second;
       root_ = FindOrAddVertex(var.index(), kBase_, kEmpty_, var.order());
     }
-- 
2.43.0

