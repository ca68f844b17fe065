From 301a51f6edde5dec18f589a31e3d6bfe170f9f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:15 +0000
Subject: [PATCH 01/78] fix: keep features that can only be the second split in
 the depth-two solver

A feature whose two halves are both smaller than twice the minimum leaf size
cannot be the first of two splits, but it can be the second one. Such a
feature was left out of both, so better trees were missed.
---
 src/solver/terminal_solver.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/solver/terminal_solver.cpp b/src/solver/terminal_solver.cpp
index e902f8a..a51a003 100644
--- a/src/solver/terminal_solver.cpp
+++ b/src/solver/terminal_solver.cpp
@@ -57,7 +57,6 @@ namespace STreeD {
 			runtime_assert(total0 == cost_calculator.GetCount00(f1, f1));
 			
 			if (total0 < solver_parameters->minimum_leaf_node_size || total1 < solver_parameters->minimum_leaf_node_size) continue;
-			if (total0 < 2 * solver_parameters->minimum_leaf_node_size && total1 < 2 * solver_parameters->minimum_leaf_node_size) continue;
 			features.push_back(f1);
 		}
 		const int _num_features = int(features.size());
-- 
2.43.0


From 336fa9bdc49e8d8d5661a6c9f6ca44f38aacc22a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:00:48 +0000
Subject: [PATCH 02/78] fix: do not stop the two-node search at a perfect
 three-node tree

The depth-two solver stopped as soon as it found a three-node tree without
cost. The best two-node tree was then incomplete, but it was still stored as
optimal and returned when the node limit allowed two nodes only.
---
 src/solver/terminal_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/terminal_solver.cpp b/src/solver/terminal_solver.cpp
index a51a003..a8553d3 100644
--- a/src/solver/terminal_solver.cpp
+++ b/src/solver/terminal_solver.cpp
@@ -66,7 +66,7 @@ namespace STreeD {
 
 		for (int _f1 = 0; _f1 < _num_features; _f1++) {
 			int f1 = features[_f1];
-			if (SolutionsEqual<OT>(zero_sol, results.three_nodes_solutions)) break;
+			if (SolutionsEqual<OT>(zero_sol, results.two_nodes_solutions)) break;
 
 			for (int _f2 = _f1 + 1; _f2 < _num_features; _f2++) {
 				int f2 = features[_f2];
-- 
2.43.0


From 5d7f5ed7bdb45b3fdee03eaf64f03c3e4ba394a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:01:46 +0000
Subject: [PATCH 03/78] fix: base the sparsity lower bound on what was searched
 for the subtree

The bound assumed that every subtree was already searched up to the depth the
root search had finished. Subtrees that were pruned, or not cached, were not.
The bound was then too high and better trees were missed.
---
 src/solver/solver.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 7bc78dc..0efcc17 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -659,7 +659,6 @@ namespace STreeD {
 						break;
 					}
 				}
-				max_depth_searched = std::max(max_depth_searched, max_depth_finished - current_depth);
 				int min_nodes_to_use = max_depth_searched + 1;
 				
 				if (solutions.solution <= min_nodes_to_use * branching_costs + custom_lb.solution) {
-- 
2.43.0


From 4bb1138a3cb4f79cdac422ea71a5ac2bd4fe642f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:54 +0000
Subject: [PATCH 04/78] fix: do not apply the similarity bound across a minimum
 leaf size

A tree that is feasible for the new data can have leaf nodes that are too
small in the old data when the old data lacks some of its instances. The
bound from the old data does not hold then.
---
 include/solver/similarity_lowerbound.h |  3 ++-
 src/solver/similarity_lowerbound.cpp   | 11 +++++++++--
 src/solver/solver.cpp                  |  3 ++-
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/solver/similarity_lowerbound.h b/include/solver/similarity_lowerbound.h
index 149e22a..3f5be66 100644
--- a/include/solver/similarity_lowerbound.h
+++ b/include/solver/similarity_lowerbound.h
@@ -35,7 +35,7 @@ namespace STreeD {
 		using SolContainer = typename std::conditional<OT::total_order, Node<OT>, std::shared_ptr<Container<OT>>>::type;
 
 	public:
-		SimilarityLowerBoundComputer(OT* optimization_task, int num_labels, int max_depth, int num_nodes, int num_instances);
+		SimilarityLowerBoundComputer(OT* optimization_task, int num_labels, int max_depth, int num_nodes, int num_instances, int minimum_leaf_node_size);
 
 		//computes the lower bound with respect to the data currently present in the data structure
 		//note that this does not add any information internally
@@ -67,6 +67,7 @@ namespace STreeD {
 
 		std::vector<std::vector<ArchiveEntry> > archive_;//archive_[depth][i]
 		bool disabled_;
+		int minimum_leaf_node_size_;
 
 		std::vector<SolType> _worst;
 		bool _best_zero;
diff --git a/src/solver/similarity_lowerbound.cpp b/src/solver/similarity_lowerbound.cpp
index 9ee706d..be27dd8 100644
--- a/src/solver/similarity_lowerbound.cpp
+++ b/src/solver/similarity_lowerbound.cpp
@@ -8,8 +8,8 @@ https://bitbucket.org/EmirD/murtree
 namespace STreeD {
 
 	template <class OT>
-	SimilarityLowerBoundComputer<OT>::SimilarityLowerBoundComputer(OT* optimization_task, int num_labels, int max_depth, int size, int num_instances) :
-		disabled_(false) {
+	SimilarityLowerBoundComputer<OT>::SimilarityLowerBoundComputer(OT* optimization_task, int num_labels, int max_depth, int size, int num_instances, int minimum_leaf_node_size) :
+		disabled_(false), minimum_leaf_node_size_(minimum_leaf_node_size) {
 		Initialise(optimization_task, num_labels, max_depth, size);
 	}
 
@@ -42,6 +42,13 @@ namespace STreeD {
 		for (auto& entry : archive_[depth]) {
 			if (entry.data.Size() > data.Size() * (1 + max_difference)) { continue; }
 
+			// With a minimum leaf node size, a tree that is feasible for the new data may be infeasible for the old data
+			// if the old data lacks some of the instances. In that case the old lower bound says nothing about the new data
+			if (minimum_leaf_node_size_ > 1) {
+				DifferenceMetrics difference = BinaryDataDifferenceComputer::ComputeDifferenceMetrics(entry.data, data);
+				if (difference.total_difference > difference.GetNumRemovals()) continue;
+			}
+
 			if constexpr (OT::custom_similarity_lb) {
 				auto metrics = task->ComputeSimilarityLowerBound(entry.data, data);
 
diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 0efcc17..984668a 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -267,7 +267,8 @@ namespace STreeD {
 		if constexpr (OT::element_additive) {
 			if (similarity_lower_bound_computer != nullptr) delete similarity_lower_bound_computer;
 			similarity_lower_bound_computer = new SimilarityLowerBoundComputer<OT>(task,
-				NumLabels(), MAX_DEPTH, int(parameters.GetIntegerParameter("max-num-nodes")), train_data.Size());
+				NumLabels(), MAX_DEPTH, int(parameters.GetIntegerParameter("max-num-nodes")), train_data.Size(),
+				solver_parameters.minimum_leaf_node_size);
 			if (!solver_parameters.similarity_lb) similarity_lower_bound_computer->Disable();
 		} else {
 			solver_parameters.similarity_lb = false;
-- 
2.43.0


From 4a93753cc5e21927aea506a9871b8b71e2ff8568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:09:45 +0000
Subject: [PATCH 05/78] fix: consider every label in instance-cost-sensitive
 classification

The labels a leaf could take were derived from the cheapest label of each
instance. A label that is never the cheapest for one instance, but is the
cheapest for a group of instances, was not considered.
---
 src/tasks/instance_cost_sensitive.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/tasks/instance_cost_sensitive.cpp b/src/tasks/instance_cost_sensitive.cpp
index 5cfcf6e..d798bb0 100644
--- a/src/tasks/instance_cost_sensitive.cpp
+++ b/src/tasks/instance_cost_sensitive.cpp
@@ -3,12 +3,23 @@
 
 namespace STreeD {
 
+    // Every label with a cost may be assigned, also if it is not the cheapest label of any instance
+    void ResizeToAllLabels(ADataView& data, int num_labels) {
+        for (int k = 0; k < data.NumLabels(); k++) {
+            if (data.NumInstancesForLabel(k) == 0) continue;
+            auto& et = GetInstanceExtraData<int, InstanceCostSensitiveData>(data.GetInstancesForLabel(k)[0]);
+            num_labels = std::max(num_labels, et.NumLabels());
+            break;
+        }
+        if (num_labels > data.NumLabels()) data.GetMutableInstances().resize(num_labels);
+    }
+
     void InstanceCostSensitive::PreprocessTrainData(ADataView& train_data) {
-        if(num_labels > train_data.NumLabels()) train_data.GetMutableInstances().resize(num_labels);
+        ResizeToAllLabels(train_data, num_labels);
     }
 
     void InstanceCostSensitive::PreprocessTestData(ADataView& test_data) {
-        if (num_labels > test_data.NumLabels()) test_data.GetMutableInstances().resize(num_labels);
+        ResizeToAllLabels(test_data, num_labels);
     }
 
     double InstanceCostSensitive::GetLeafCosts(const ADataView &data, const BranchContext &context, int label) const {
-- 
2.43.0


From e7f6901b79c8d93fbd8a3aceaf1c728921238c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:25:01 +0000
Subject: [PATCH 06/78] fix: only bound node budgets that the depth-two solver
 searched

---
 src/solver/solver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 984668a..ea392b2 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -564,7 +564,8 @@ namespace STreeD {
 				cache->UpdateLowerBound(data, branch, UB, 1, 1);
 			}
 		}
-		if (!cache->IsOptimalAssignmentCached(data, branch, 2, 2)) {
+		// With a budget of one node, the terminal solver does not search for trees of two or three nodes
+		if (num_nodes > 1 && !cache->IsOptimalAssignmentCached(data, branch, 2, 2)) {
 			auto& two_nodes_solutions = results.two_nodes_solutions;
 			if (!CheckEmptySol<OT>(two_nodes_solutions)) {
 				cache->StoreOptimalBranchAssignment(data, branch, two_nodes_solutions, 2, 2);
@@ -572,7 +573,7 @@ namespace STreeD {
 				cache->UpdateLowerBound(data, branch, UB, 2, 2);
 			}
 		}
-		if (!cache->IsOptimalAssignmentCached(data, branch, 2, 3)) {
+		if (num_nodes > 1 && !cache->IsOptimalAssignmentCached(data, branch, 2, 3)) {
 			auto& three_nodes_solutions = results.three_nodes_solutions;
 			if (!CheckEmptySol<OT>(three_nodes_solutions)) {
 				cache->StoreOptimalBranchAssignment(data, branch, three_nodes_solutions, 2, 3);
-- 
2.43.0


From f46b1c38f350d5729088faf9becffec0332bff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:33:42 +0000
Subject: [PATCH 07/78] fix: never test a forbidden feature when rebuilding a
 depth-two tree

---
 src/solver/terminal_solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/terminal_solver.cpp b/src/solver/terminal_solver.cpp
index a8553d3..b5f85ca 100644
--- a/src/solver/terminal_solver.cpp
+++ b/src/solver/terminal_solver.cpp
@@ -419,7 +419,7 @@ namespace STreeD {
 		Node<OT> temp_node;
 		if (node.num_nodes_left > 0 || node.num_nodes_right > 0) {
 			for (int f2 = 0; f2 < num_features; f2++) {
-				if (f2 == node.feature) continue;
+				if (f2 == node.feature || !task->MayBranchOnFeature(f2)) continue;
 
 				cost_calculator.GetCounts(counts, node.feature, f2);
 				
-- 
2.43.0


From 166a8e2f49128753e88b78cb611b86228dd004dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:35:02 +0000
Subject: [PATCH 08/78] fix: use extreme points outside the range of the
 fairness scores

---
 include/tasks/eq_opp.h         | 2 +-
 include/tasks/group_fairness.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tasks/eq_opp.h b/include/tasks/eq_opp.h
index 50d4db1..de60c3f 100644
--- a/include/tasks/eq_opp.h
+++ b/include/tasks/eq_opp.h
@@ -154,7 +154,7 @@ namespace STreeD {
 		}
 
 		inline static std::vector<EqOppSol> ExtremePoints() {
-			return { {INT32_MAX, 0, 0}, {0, 1, 0}, {0, 0, 1} };
+			return { {INT32_MAX, 0, 0}, {0, INT32_MAX, 0}, {0, 0, INT32_MAX} };
 		}
 
 		inline bool SatisfiesConstraint(const Node<EqOpp>& sol, const BranchContext& context) {
diff --git a/include/tasks/group_fairness.h b/include/tasks/group_fairness.h
index ab14eae..1e60d01 100644
--- a/include/tasks/group_fairness.h
+++ b/include/tasks/group_fairness.h
@@ -154,7 +154,7 @@ namespace STreeD {
 		}
 
 		inline static std::vector<GroupFairnessSol> ExtremePoints() {
-			return { {INT32_MAX, 0, 0}, {0, 1, 0}, {0, 0, 1} };
+			return { {INT32_MAX, 0, 0}, {0, INT32_MAX, 0}, {0, 0, INT32_MAX} };
 		}
 
 		inline bool SatisfiesConstraint(const Node<GroupFairness>& sol, const BranchContext& context) {
-- 
2.43.0


From 5fe8aeacbcbe3938e21a84e3b01fae6f591578d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:24 +0000
Subject: [PATCH 09/78] fix: prune a solution set only if every solution in it
 is dominated

---
 include/solver/optimization_utils.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/solver/optimization_utils.h b/include/solver/optimization_utils.h
index 2c9e7cf..7ebdcd9 100644
--- a/include/solver/optimization_utils.h
+++ b/include/solver/optimization_utils.h
@@ -257,15 +257,15 @@ namespace STreeD {
 	}
 
 	/*
-	* Return true iff for all left solutions there is at least one right solution that inverse strictly dominates it
+	* Return true iff for all right solutions there is at least one left solution that strictly dominates it
 	*/
 	template <class OT>
 	bool LeftStrictDominatesRight(const SolContainer<OT>& left, const SolContainer<OT>& right) {
 		if constexpr (OT::total_order) {
 			return LeftStrictDominatesRight<OT>(left.solution, right.solution);
 		} else {
-			for (const auto& assignment : left->GetSolutions()) {
-				if (!right->StrictDominatesInv(assignment)) { return false; }
+			for (const auto& assignment : right->GetSolutions()) {
+				if (!left->StrictDominates(assignment)) { return false; }
 			}
 			return true;
 		}
-- 
2.43.0


From b80ebf9100d8dfafbf9af9f8e52c226680106306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:22 +0000
Subject: [PATCH 10/78] fix: do not reuse depth-two results from another branch
 or upper bound

---
 src/solver/cost_combiner.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/solver/cost_combiner.cpp b/src/solver/cost_combiner.cpp
index b68025e..83c1be7 100644
--- a/src/solver/cost_combiner.cpp
+++ b/src/solver/cost_combiner.cpp
@@ -19,7 +19,9 @@ namespace STreeD {
 			data_add.ResetReserve(data);
 			data_remove.ResetReserve(data);
 			BinaryDataDifferenceComputer::ComputeDifference(this->data, data, data_add, data_remove);
-			if (data_add.Size() == 0 && data_remove.Size() == 0 && (num_nodes == this->num_nodes || !OT::terminal_filter)) return false;
+			// Previous results can only be reused if they do not depend on the UB (terminal filter) or the branch (branching costs)
+			constexpr bool results_depend_on_data_only = !OT::terminal_filter && (!OT::has_branching_costs || OT::constant_branching_costs);
+			if (results_depend_on_data_only && data_add.Size() == 0 && data_remove.Size() == 0) return false;
 		}
 		
 		this->data = data;
@@ -35,8 +37,8 @@ namespace STreeD {
 			
 			UpdateCosts(data, +1);
 		}
-		ResetBranchingCosts(); // TODO recompute even if no changes made, because context changes
-		UpdateBranchingCosts(data, context); // TODO recompute even if no changes made, because context changes
+		ResetBranchingCosts();
+		UpdateBranchingCosts(data, context);
 		return true;
 	}
 
-- 
2.43.0


From a6fb31ba54a0a5bb415a20ddd7d53e39cec0ca91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:09:26 +0000
Subject: [PATCH 11/78] fix: allow for rounding when comparing with the
 discrimination limit

---
 include/tasks/eq_opp.h         | 3 ++-
 include/tasks/group_fairness.h | 3 ++-
 src/tasks/eq_opp.cpp           | 4 ++--
 src/tasks/group_fairness.cpp   | 4 ++--
 4 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/tasks/eq_opp.h b/include/tasks/eq_opp.h
index de60c3f..f6462f9 100644
--- a/include/tasks/eq_opp.h
+++ b/include/tasks/eq_opp.h
@@ -5,6 +5,7 @@ namespace STreeD {
 
 	struct EqOppSol {
 		static constexpr double gf_epsilon = 1e-4;
+		static constexpr double rounding_epsilon = 1e-6; // The sum of the group scores depends on the order of summation
 		int misclassifications{ 0 };
 		double group0_score{ 0 };
 		double group1_score{ 0 };
@@ -159,7 +160,7 @@ namespace STreeD {
 
 		inline bool SatisfiesConstraint(const Node<EqOpp>& sol, const BranchContext& context) {
 			double disc = std::max(sol.solution.group0_score, sol.solution.group1_score) - 1;
-			return disc <= discrimination_limit;
+			return disc <= discrimination_limit + EqOppSol::rounding_epsilon;
 		}
 
 		void RelaxRootSolution(Node<EqOpp>& sol) const;
diff --git a/include/tasks/group_fairness.h b/include/tasks/group_fairness.h
index 1e60d01..7f95231 100644
--- a/include/tasks/group_fairness.h
+++ b/include/tasks/group_fairness.h
@@ -5,6 +5,7 @@ namespace STreeD {
 
 	struct GroupFairnessSol {
 		static constexpr double gf_epsilon = 1e-4;
+		static constexpr double rounding_epsilon = 1e-6; // The sum of the group scores depends on the order of summation
 		int misclassifications { 0 };
 		double group0_score { 0 };
 		double group1_score { 0 };
@@ -159,7 +160,7 @@ namespace STreeD {
 
 		inline bool SatisfiesConstraint(const Node<GroupFairness>& sol, const BranchContext& context) {
 			double disc = std::max(sol.solution.group0_score, sol.solution.group1_score) - 1;
-			return disc <= discrimination_limit;
+			return disc <= discrimination_limit + GroupFairnessSol::rounding_epsilon;
 		}
 
 		void RelaxRootSolution(Node<GroupFairness>& sol) const;
diff --git a/src/tasks/eq_opp.cpp b/src/tasks/eq_opp.cpp
index 4c9d978..e0ec37e 100644
--- a/src/tasks/eq_opp.cpp
+++ b/src/tasks/eq_opp.cpp
@@ -71,7 +71,7 @@ namespace STreeD {
 	double EqOpp::ComputeTrainScore(const EqOppSol& train_value) const {
 		runtime_assert(train_summary.instances_per_class.size() == 2);
 		double disc = std::max(train_value.group0_score, train_value.group1_score) - 1;
-		if (disc <= discrimination_limit)
+		if (disc <= discrimination_limit + EqOppSol::rounding_epsilon)
 			return ((double)(train_summary.size - train_value.misclassifications)) / ((double)train_summary.size);
 		else
 			return 0;
@@ -85,7 +85,7 @@ namespace STreeD {
 		runtime_assert(test_summary.instances_per_class.size() == 2);
 		
 		double disc = std::max(test_value.group0_score, test_value.group1_score) - 1;
-		if (disc <= discrimination_limit)
+		if (disc <= discrimination_limit + EqOppSol::rounding_epsilon)
 			return ((double)(test_summary.size - test_value.misclassifications)) / ((double)test_summary.size);
 		else
 			return 0;
diff --git a/src/tasks/group_fairness.cpp b/src/tasks/group_fairness.cpp
index dc3d0fe..58581a0 100644
--- a/src/tasks/group_fairness.cpp
+++ b/src/tasks/group_fairness.cpp
@@ -70,7 +70,7 @@ namespace STreeD {
 	double GroupFairness::ComputeTrainScore(const GroupFairnessSol& train_value) const {
 		runtime_assert(train_summary.instances_per_class.size() == 2);
 		double disc = std::max(train_value.group0_score, train_value.group1_score) - 1;
-		if (disc <= discrimination_limit)
+		if (disc <= discrimination_limit + GroupFairnessSol::rounding_epsilon)
 			return ((double)(train_summary.size - train_value.misclassifications)) / ((double)train_summary.size);
 		else
 			return 0;
@@ -84,7 +84,7 @@ namespace STreeD {
 		runtime_assert(test_summary.instances_per_class.size() == 2);
 		
 		double disc = std::max(test_value.group0_score, test_value.group1_score) - 1;
-		if (disc <= discrimination_limit)
+		if (disc <= discrimination_limit + GroupFairnessSol::rounding_epsilon)
 			return ((double)(test_summary.size - test_value.misclassifications)) / ((double)test_summary.size);
 		else
 			return 0;
-- 
2.43.0


From b0fb3f83a334bc94d9ab79ff96eae1a0cba82c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:24 +0000
Subject: [PATCH 12/78] fix: cache complete solution sets for tasks with
 several objectives

---
 src/solver/solver.cpp | 48 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index ea392b2..f4e85f1 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -326,6 +326,25 @@ namespace STreeD {
 			if (SolutionsEqual<OT>(lower_bound, leaf_solutions)) return leaf_solutions; 
 		}
 
+		if constexpr (!OT::total_order) {
+			// The solution set for this branch is cached and may later be reused with another UB. Therefore, the UB of
+			// this call should not discard solutions from it, except for the relaxed root solutions: no solution
+			// that is worse than those can be part of a better tree
+			if (branch.Depth() > 0) {
+				auto root_UB = InitializeSol<OT>();
+				AddSol<OT>(root_UB, OT::worst);
+				if constexpr (OT::has_constraint) {
+					for (auto& sol : UB_->GetSolutions()) {
+						auto relaxed_sol = sol;
+						task->RelaxRootSolution(relaxed_sol);
+						if (relaxed_sol == sol) AddSol<OT>(root_UB, sol);
+					}
+				}
+				UB_ = root_UB;
+				UB = CopySol<OT>(UB_);
+			}
+		}
+
 		// Use the specialised algorithm for small trees
 		if constexpr (OT::use_terminal) {
 			if (IsTerminalNode(max_depth, num_nodes)) {
@@ -1002,6 +1021,20 @@ namespace STreeD {
 			return Tree<OT>::CreateLabelNode(sol.label);
 		}
 
+		if constexpr (!OT::total_order) {
+			// If the solution was already found with a smaller depth budget, use that budget to find its subtrees
+			for (int lower_max_depth = int_log2(sol.NumNodes() + 1); lower_max_depth < max_depth; lower_max_depth++) {
+				int lower_num_nodes = std::min(num_nodes, (1 << lower_max_depth) - 1);
+				auto cached_sols = cache->RetrieveOptimalAssignment(data, context.GetBranch(), lower_max_depth, lower_num_nodes);
+				auto& sols = cached_sols->GetSolutions();
+				if (std::find(sols.begin(), sols.end(), sol) != sols.end()) {
+					max_depth = lower_max_depth;
+					num_nodes = lower_num_nodes;
+					break;
+				}
+			}
+		}
+
 		// Special D1 reconstruct
 		bool d1 = max_depth == 1 || num_nodes == 1 || sol.NumNodes() == 1;
 
@@ -1099,6 +1132,21 @@ namespace STreeD {
 			auto empty_final_sols = std::shared_ptr<Container<OT>>(nullptr);
 			Merge<true>(sol.feature, context, UB, left_sols, right_sols, branching_costs, empty_final_sols, &tree_node);
 
+			// If the solution was found with other node budgets for the left and right subtree, find out with which ones
+			const int max_size_subtree = std::min((1 << (max_depth - 1)) - 1, num_nodes - 1);
+			for (int l = left_subtree_size; use_cache && l <= max_size_subtree; l++) {
+				for (int r = right_subtree_size; r <= max_size_subtree && !tree_node.left_child.IsFeasible(); r++) {
+					left_size = l; right_size = r;
+					left_depth = std::min(max_depth - 1, l);
+					right_depth = std::min(max_depth - 1, r);
+					left_sols = l == 0 ? SolveLeafNode(left_data, left_context, UBleft)
+						: cache->RetrieveOptimalAssignment(left_data, left_context.GetBranch(), left_depth, l);
+					right_sols = r == 0 ? SolveLeafNode(right_data, right_context, UBright)
+						: cache->RetrieveOptimalAssignment(right_data, right_context.GetBranch(), right_depth, r);
+					Merge<true>(sol.feature, context, UB, left_sols, right_sols, branching_costs, empty_final_sols, &tree_node);
+				}
+			}
+
 			runtime_assert(tree_node.left_child.IsFeasible());
 			runtime_assert(tree_node.right_child.IsFeasible());
 
-- 
2.43.0


From 9e89bcdc7c5538c2adc042b1fceedaaa5b104015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:11:20 +0000
Subject: [PATCH 13/78] fix: only subtract upper bounds in ways that are valid
 in any dimension

---
 src/solver/solver.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index f4e85f1..7b00165 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -879,7 +879,22 @@ namespace STreeD {
 			}
 			updatedUB->AddInvOrInvMerge(*(sub_union.get()), MAX_SIZE);
 			//updatedUB->AddOrInvMerge(*(UB_ptr->get()), MAX_SIZE);
-			
+
+			// The staircase corners are only valid in two dimensions
+			// Keep those that, when combined with any of the sols, are dominated by the UB
+			auto validUB = InitializeSol<OT>();
+			for (auto& candidate : updatedUB->GetSolutions()) {
+				bool valid = true;
+				for (size_t j = 0; valid && j < (*sols_ptr)->Size(); j++) {
+					valid = false;
+					for (size_t i = 0; !valid && i < (*UB_ptr)->Size(); i++) {
+						OT::Subtract((*UB_ptr)->Get(i).solution, (*sols_ptr)->Get(j).solution, diffsol.solution);
+						valid = OT::Dominates(diffsol.solution, candidate.solution);
+					}
+				}
+				if (valid) validUB->Add(candidate);
+			}
+			updatedUB = validUB;
 		}
 		// In the root nod of the search, feasible solutions can be relaxed by removing information that is related
 		// to constraint satisfaction from the solution
-- 
2.43.0


From 7231833a3da93167525aaf14c1ab4c649df4d445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:16:04 +0000
Subject: [PATCH 14/78] fix: keep duplicate features when they may have
 different costs

Cost-sensitive classification gives every feature its own test cost. The
preprocessing turned off every feature that has the same values as an earlier
one, so a cheaper copy could never be used and the tree was not optimal.
---
 src/solver/solver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 7b00165..84a7195 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -1246,8 +1246,9 @@ namespace STreeD {
 					redundant_features[f] = true;
 				}
 			}
-			// Find duplicate features and turn them off
-			for (int f1 = 0; f1 < data.NumFeatures() - 1; f1++) {
+			// Find duplicate features and turn them off, except when the duplicates may have different branching costs
+			constexpr bool same_branching_costs = !OT::has_branching_costs || OT::constant_branching_costs;
+			for (int f1 = 0; same_branching_costs && f1 < data.NumFeatures() - 1; f1++) {
 				if (redundant_features[f1]) continue;
 				for (int f2 = f1 + 1; f2 < data.NumFeatures(); f2++) {
 					if (redundant_features[f2]) continue;
-- 
2.43.0


From 4cff4da379207cde6a66c5eaa959204f222a910c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:19:48 +0000
Subject: [PATCH 15/78] fix: do not count branching costs twice in the sparsity
 lower bound

The k-means bound of cost-complex regression already includes the branching
costs. The sparsity bound added them again, so it was too high and better
trees were missed. The flag that says whether the two bounds may be combined
existed but was never read.
---
 src/solver/solver.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 84a7195..b424421 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -681,14 +681,17 @@ namespace STreeD {
 					}
 				}
 				int min_nodes_to_use = max_depth_searched + 1;
+				auto min_split_costs = min_nodes_to_use * branching_costs;
+				// Only add the custom lower bound if it does not already include the branching costs
+				if constexpr (OT::combine_custom_lb_purification) min_split_costs += custom_lb.solution;
 				
-				if (solutions.solution <= min_nodes_to_use * branching_costs + custom_lb.solution) {
+				if (solutions.solution <= min_split_costs) {
 					// The previous solution is cheaper than splitting on at least min_nodes_to_use, so its a LB
 					AddSolsInv<OT>(lb, solutions);
 				} else {
 					// The previous solution is worse than splitting on at least min_nodes_to_use, so use the minimum
 					// number of nodes as the lower bound.
-					Node<OT> split_lb(0, min_nodes_to_use * branching_costs + custom_lb.solution, solutions.num_nodes_left, solutions.num_nodes_right);
+					Node<OT> split_lb(0, min_split_costs, solutions.num_nodes_left, solutions.num_nodes_right);
 					AddSolsInv<OT>(lb, split_lb);
 				}
 			}
-- 
2.43.0


From 1193375dd60ea00a7a5ebee5ff56121ecfca3830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:35:14 +0000
Subject: [PATCH 16/78] fix: include the leaf node when storing a lower bound
 for a pruned subtree

When no solution was better than the upper bound, the lowest bound over the
splits was stored as a lower bound. A single leaf node can be better than every
split but was left out. The stored bound was then too high, and the similarity
bound passed it on to other subtrees.
---
 src/solver/solver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index b424421..60f39ad 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -539,6 +539,9 @@ namespace STreeD {
 			if (SolutionsEqual<OT>(infeasible_lb, InitializeSol<OT>())) {
 				infeasible_lb = orgUB;
 			} else {
+				// The leaf node was also rejected because of the UB. It may be better than every split
+				auto empty_UB = InitializeSol<OT>();
+				AddSols<OT>(infeasible_lb, SolveLeafNode(data, context, empty_UB));
 				AddSolsInv<OT>(infeasible_lb, orgUB);
 			}
 			cache->UpdateLowerBound(data, branch, infeasible_lb, max_depth, num_nodes);
-- 
2.43.0


From faaab6091964790f2ef447078af23d649472851d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:45:17 +0000
Subject: [PATCH 17/78] fix: allow for the spread within a group in the
 similarity bound of regression

Instances with the same features are merged into one weighted instance. When
such an instance was missing from the new data, the similarity bound only
subtracted the error of the group mean and not the errors within the group. The
bound was then too high and better trees were missed.
---
 src/tasks/regression/cost_complex_regression.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/tasks/regression/cost_complex_regression.cpp b/src/tasks/regression/cost_complex_regression.cpp
index 9a2db07..a5c2514 100644
--- a/src/tasks/regression/cost_complex_regression.cpp
+++ b/src/tasks/regression/cost_complex_regression.cpp
@@ -7,6 +7,12 @@ namespace STreeD {
 		return static_cast<const Instance<double, RegExtraData>*>(instance)->GetExtraData().ysq;
 	}
 
+	// The sum of squared errors within the group of instances (with the same features) that this instance represents
+	double GetGroupSSE(const AInstance* instance) {
+		double y = GetInstanceLabel<double>(instance);
+		return std::max(0.0, GetYSQ(instance) - (y * y / instance->GetWeight()));
+	}
+
 	void CostComplexRegression::PreprocessData(AData& data, bool train) {
 		std::vector<AInstance*>& instances = data.GetInstances();
 		int n = int(instances.size());
@@ -368,7 +374,8 @@ namespace STreeD {
 				//the old data has something the new one does not
 				else if (id_new > id_old) {
 					total_diff += weight_old;
-					worst_diff += weight_old * GetWorstPerLabel(GetInstanceLabel<double>(old_instances[index_old]) / weight_old);
+					worst_diff += weight_old * GetWorstPerLabel(GetInstanceLabel<double>(old_instances[index_old]) / weight_old)
+						+ GetGroupSSE(old_instances[index_old]);
 					index_old++;
 				} else {//no difference
 					index_new ++;
@@ -384,7 +391,8 @@ namespace STreeD {
 			for (; index_old < size_old; index_old++) {
 				int weight_old = int(old_instances[index_old]->GetWeight());
 				total_diff += weight_old;
-				worst_diff += weight_old * GetWorstPerLabel(GetInstanceLabel<double>(old_instances[index_old]) / weight_old);
+				worst_diff += weight_old * GetWorstPerLabel(GetInstanceLabel<double>(old_instances[index_old]) / weight_old)
+					+ GetGroupSSE(old_instances[index_old]);
 			}
 		}
 		PairWorstCount<CostComplexRegression> result(worst_diff, total_diff);
-- 
2.43.0


From 48d820ea3c247f44f2bfb554c12cda4a96aafd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:53:42 +0000
Subject: [PATCH 18/78] fix: constant continuous feature gives NaN coefficients
 in piecewise linear regression

The training data leaves a feature with zero standard deviation as it is,
but the post-processing of the tree still divided its coefficient by that
standard deviation. The computed variance is also kept from becoming
negative by rounding.
---
 src/tasks/regression/piecewise_linear_regression.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tasks/regression/piecewise_linear_regression.cpp b/src/tasks/regression/piecewise_linear_regression.cpp
index 671d038..4868a01 100644
--- a/src/tasks/regression/piecewise_linear_regression.cpp
+++ b/src/tasks/regression/piecewise_linear_regression.cpp
@@ -33,7 +33,7 @@ namespace STreeD {
 	}
 
 	double GetStd(double v_sq_sum, double v_sum, size_t n) {
-		return std::sqrt(v_sq_sum / n - v_sum * v_sum / (n * n));
+		return std::sqrt(std::max(0.0, v_sq_sum / n - v_sum * v_sum / (double(n) * n)));
 	}
 
 	const LinearModel PieceWiseLinearRegression::worst_label = LinearModel();
@@ -135,10 +135,12 @@ namespace STreeD {
 			int CF = int(g_cf_mu.size());
 			std::vector<double> b(CF);
 			for (int j = 0; j < CF; j++) {
-				b[j] = model.b[j] / g_cf_std[j];
+				// Constant features are not normalized (see PreprocessTrainData)
+				b[j] = std::abs(g_cf_std[j]) < 1e-6 ? model.b[j] : model.b[j] / g_cf_std[j];
 			}
 			double b0 = model.b0;
 			for (int j = 0; j < CF; j++) {
+				if (std::abs(g_cf_std[j]) < 1e-6) continue;
 				b0 -= g_cf_mu[j] * b[j];
 			}
 			for (int j = 0; j < CF; j++) {
-- 
2.43.0


From 34bcff5610248eecd006fbceae65d096e7183a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:54:07 +0000
Subject: [PATCH 19/78] fix: leaf without a useful linear term is infeasible in
 piecewise linear regression

When the lasso penalty zeroes every coefficient, or the target is constant
in a leaf, the best model of the leaf is its mean. Such leaves were refused
instead, so that good trees were missed or no tree was found at all.
---
 src/tasks/regression/piecewise_linear_regression.cpp | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/tasks/regression/piecewise_linear_regression.cpp b/src/tasks/regression/piecewise_linear_regression.cpp
index 4868a01..7a2b665 100644
--- a/src/tasks/regression/piecewise_linear_regression.cpp
+++ b/src/tasks/regression/piecewise_linear_regression.cpp
@@ -331,17 +331,9 @@ namespace STreeD {
 			}
 		}
 
-		double lambda_max = 0;
-		for (int j = 0; j < CF; j++) {
-			lambda_max = std::max(lambda_max, std::abs(xy[j]));
-		}
 		double lambda = N * lasso_penalty;
 		double gamma = N * ridge_penalty;
 
-		if (lambda >= lambda_max) {
-			return std::make_pair(LinearModel(), DBL_MAX);
-		}
-		
 		b0 = 0; // Intercept should be zero after normalization
 
 		int iteration = 0;
-- 
2.43.0


From 3230172e71b16a0955af6ace30b2ab19fca35dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:56:35 +0000
Subject: [PATCH 20/78] fix: branching cost used as lower bound without
 considering the leaf node

For tasks with an expensive leaf, the hierarchical lower bound skips the
computation of the leaf node. It then assumed that at least one split is
needed, while a leaf can cost less than a split. Good splits were pruned.
---
 src/solver/solver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 60f39ad..8215e41 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -688,7 +688,9 @@ namespace STreeD {
 				// Only add the custom lower bound if it does not already include the branching costs
 				if constexpr (OT::combine_custom_lb_purification) min_split_costs += custom_lb.solution;
 				
-				if (solutions.solution <= min_split_costs) {
+				if (OT::expensive_leaf && max_depth_searched == 0) {
+					// The costs of the leaf node are unknown, and it may be cheaper than a split
+				} else if (solutions.solution <= min_split_costs) {
 					// The previous solution is cheaper than splitting on at least min_nodes_to_use, so its a LB
 					AddSolsInv<OT>(lb, solutions);
 				} else {
-- 
2.43.0


From b042f8274701db4c2eb354ba3722e54767cd62cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:58:22 +0000
Subject: [PATCH 21/78] fix: lasso never sets a coefficient back to zero in
 piecewise linear regression

Coordinate descent skipped the update of a coefficient when its gradient
fell below the penalty, so a coefficient that had become non-zero in an
earlier pass kept its old value instead of becoming zero.
---
 src/tasks/regression/piecewise_linear_regression.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tasks/regression/piecewise_linear_regression.cpp b/src/tasks/regression/piecewise_linear_regression.cpp
index 7a2b665..c9a4e77 100644
--- a/src/tasks/regression/piecewise_linear_regression.cpp
+++ b/src/tasks/regression/piecewise_linear_regression.cpp
@@ -354,7 +354,13 @@ namespace STreeD {
 				}
 				//bj += b[j] * zj;
 				
-				if (std::abs(bj) < lambda) continue;
+				if (std::abs(bj) <= lambda) {
+					if (b[j] != 0) {
+						b[j] = 0;
+						significant_change = true;
+					}
+					continue;
+				}
 				if (bj < 0) {
 					b[j] = (bj + lambda) / (zj + gamma);
 				} else {
-- 
2.43.0


From 8f532239d22dfd1589bfdcd471e5e55681fb57c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:59:58 +0000
Subject: [PATCH 22/78] fix: coordinate descent of piecewise linear regression
 stops too early

The sum of squares of the targets was counted once per continuous feature.
The relative improvement in the stopping criterion was therefore measured
against too large a value, and descent ended far from the best model.
---
 src/tasks/regression/piecewise_linear_regression.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tasks/regression/piecewise_linear_regression.cpp b/src/tasks/regression/piecewise_linear_regression.cpp
index c9a4e77..2aceab0 100644
--- a/src/tasks/regression/piecewise_linear_regression.cpp
+++ b/src/tasks/regression/piecewise_linear_regression.cpp
@@ -314,6 +314,11 @@ namespace STreeD {
 		//std::fill(xx.begin(), xx.end(), 0.0);
 		double ysq_sum = 0;
 		double y_sum = 0;
+		for (auto& inst : instances) {
+			label = GetInstanceLabel<double>(inst) - y_mu;
+			ysq_sum += label * label;
+			y_sum += label;
+		}
 		for (int j = 0; j < CF; j++) {
 			if (redundant_feature[j]) continue;
 			auto& _X = X[j];
@@ -322,8 +327,6 @@ namespace STreeD {
 			auto& _xx = x1x2[j][j];
 			for (size_t i = 0; i < N; i++) {
 				label = GetInstanceLabel<double>(instances[i]) - y_mu;
-				ysq_sum += label * label;
-				y_sum += label;
 				f = _X[i];
 				_xy += f * label;
 				_x += f;
-- 
2.43.0


From 69e38faca4d5bf624634472c16cb32e2c9bb615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:05 +0000
Subject: [PATCH 23/78] fix: score and predict data that does not contain every
 label

---
 src/solver/solver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 8215e41..d6be7d6 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -252,6 +252,8 @@ namespace STreeD {
 		// Update the data objects, and inform the task about the new data
 		org_test_data = _test_data;
 		PreprocessTestData(org_test_data, test_data);
+		// The test data does not need to contain every label
+		if (test_data.NumLabels() < train_data.NumLabels()) test_data.GetMutableInstances().resize(train_data.NumLabels());
 		test_summary = DataSummary(test_data);
 		task->InformTestData(test_data, test_summary);
 
-- 
2.43.0


From 83fb87cf368e2be565fc621296e0b362db889194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:13:41 +0000
Subject: [PATCH 24/78] fix: leave the ridge penalty out of the simple linear
 regression score

---
 .../piecewise_simple_linear_regression.cpp         | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/tasks/regression/piecewise_simple_linear_regression.cpp b/src/tasks/regression/piecewise_simple_linear_regression.cpp
index fa00d82..6e4b353 100644
--- a/src/tasks/regression/piecewise_simple_linear_regression.cpp
+++ b/src/tasks/regression/piecewise_simple_linear_regression.cpp
@@ -355,6 +355,15 @@ namespace STreeD {
 	}
 
 	double SimpleLinearRegression::GetLeafCosts(const ADataView& data, const BranchContext& context, const LinearModel& model) const {
+		double error = GetTestLeafCosts(data, context, model);
+		// At most one of the coefficients is nonzero
+		for (int f = 0; f < num_cont_features; f++) {
+			error += ridge_penalty * model.b[f] * model.b[f] * feature_variance[f];
+		}
+		return error;
+	}
+
+	double SimpleLinearRegression::GetTestLeafCosts(const ADataView& data, const BranchContext& context, const LinearModel& model) const {
 		double error = 0;
 		int cf = 0;
 		double max_coef = 0;
@@ -374,14 +383,9 @@ namespace STreeD {
 			error += ed.ysq - 2 * a * ed.yx[cf] - 2 * b * label
 				+ a * a * ed.xsq[cf] + 2 * a * b * ed.x[cf] + w * b * b;
 		}
-		error += ridge_penalty * a * a * feature_variance[cf];
 		return error;
 	}
 
-	double SimpleLinearRegression::GetTestLeafCosts(const ADataView& data, const BranchContext& context, const LinearModel& model) const {
-		return GetLeafCosts(data, context, model);
-	}
-
 	void SimpleLinearRegression::GetInstanceLeafD2Costs(const AInstance* i, int org_label, int label, D2SimpleLinRegSol& costs, int multiplier) const {
 		auto instance = static_cast<const Instance<double, SimpleLinRegExtraData>*>(i);
 		
-- 
2.43.0


From 793ea3d2e8d752ed52d23517eef3bf74de2ed069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:02 +0000
Subject: [PATCH 25/78] fix: judge the fairness of test data by the group sizes
 of the test data

---
 include/tasks/eq_opp.h         |  7 ++++---
 include/tasks/group_fairness.h |  7 ++++---
 src/tasks/eq_opp.cpp           | 28 ++++++++++++++++++++++++----
 src/tasks/group_fairness.cpp   | 30 ++++++++++++++++++++++++++----
 4 files changed, 58 insertions(+), 14 deletions(-)

diff --git a/include/tasks/eq_opp.h b/include/tasks/eq_opp.h
index f6462f9..00544b3 100644
--- a/include/tasks/eq_opp.h
+++ b/include/tasks/eq_opp.h
@@ -55,6 +55,8 @@ namespace STreeD {
 		int train_group1_size{ 0 };
 		int test_group0_size{ 0 };
 		int test_group1_size{ 0 };
+
+		double ComputeScore(const EqOppSol& value, int size, int group0_size, int group1_size) const;
 	public:
 		using SolType = EqOppSol;
 		using SolD2Type = EqOppSol;
@@ -78,9 +80,8 @@ namespace STreeD {
 		void InformTestData(const ADataView& test_data, const DataSummary& test_summary);
 
 		EqOppSol GetLeafCosts(const ADataView& data, const BranchContext& context, int label) const;
-		inline EqOppSol GetTestLeafCosts(const ADataView& data, const BranchContext& context, int label) const {
-			return GetLeafCosts(data, context, label);
-		}
+		// The group scores of the test costs are the number of positive instances per group that get the positive label
+		EqOppSol GetTestLeafCosts(const ADataView& data, const BranchContext& context, int label) const;
 		void GetInstanceLeafD2Costs(const AInstance* instance, int org_label, int label, EqOppSol& costs, int multiplier) const;
 
 		inline bool IsD2ZeroCost(const EqOppSol& d2costs) const { return false; }
diff --git a/include/tasks/group_fairness.h b/include/tasks/group_fairness.h
index 7f95231..aff4bf7 100644
--- a/include/tasks/group_fairness.h
+++ b/include/tasks/group_fairness.h
@@ -55,6 +55,8 @@ namespace STreeD {
 		int train_group1_size{ 0 };
 		int test_group0_size{ 0 };
 		int test_group1_size{ 0 };
+
+		double ComputeScore(const GroupFairnessSol& value, int size, int group0_size, int group1_size) const;
 	public:
 		using SolType = GroupFairnessSol;
 		using SolD2Type = GroupFairnessSol;
@@ -78,9 +80,8 @@ namespace STreeD {
 		void InformTestData(const ADataView& test_data, const DataSummary& test_summary);
 
 		GroupFairnessSol GetLeafCosts(const ADataView& data, const BranchContext& context, int label) const;
-		inline GroupFairnessSol GetTestLeafCosts(const ADataView& data, const BranchContext& context, int label) const {
-			return GetLeafCosts(data, context, label);
-		}
+		// The group scores of the test costs are the number of instances per group that get the positive label
+		GroupFairnessSol GetTestLeafCosts(const ADataView& data, const BranchContext& context, int label) const;
 		void GetInstanceLeafD2Costs(const AInstance* instance, int org_label, int label, GroupFairnessSol& costs, int multiplier) const;
 		
 		inline bool IsD2ZeroCost(const GroupFairnessSol& d2costs) const { return false; }
diff --git a/src/tasks/eq_opp.cpp b/src/tasks/eq_opp.cpp
index e0ec37e..34c1e08 100644
--- a/src/tasks/eq_opp.cpp
+++ b/src/tasks/eq_opp.cpp
@@ -49,6 +49,20 @@ namespace STreeD {
 				});
 	}
 
+	EqOppSol EqOpp::GetTestLeafCosts(const ADataView& data, const BranchContext& context, int label) const {
+		runtime_assert(data.NumLabels() == 2);
+		if (label == 0) return EqOppSol({ data.NumInstancesForLabel(1), 0, 0 });
+		int group0_size = 0;
+		int group1_size = 0;
+		for (auto& dp : data.GetInstancesForLabel(1)) {
+			if (dp->IsFeaturePresent(0))
+				group1_size++;
+			else
+				group0_size++;
+		}
+		return EqOppSol({ data.NumInstancesForLabel(0), double(group0_size), double(group1_size) });
+	}
+
 	void EqOpp::GetInstanceLeafD2Costs(const AInstance* instance, int org_label, int label, EqOppSol& costs, int multiplier) const {
 		int label1 = org_label == 1 ? 1 : 0;
 		int group0 = instance->IsFeaturePresent(0) ? 0 : 1;
@@ -78,15 +92,21 @@ namespace STreeD {
 	}
 
 	double EqOpp::ComputeTrainTestScore(const EqOppSol& train_value) const {
-		return ComputeTrainScore(train_value);
+		runtime_assert(train_summary.instances_per_class.size() == 2);
+		return ComputeScore(train_value, train_summary.size, train_group0_size, train_group1_size);
 	}
 
 	double EqOpp::ComputeTestTestScore(const EqOppSol& test_value) const {
 		runtime_assert(test_summary.instances_per_class.size() == 2);
-		
-		double disc = std::max(test_value.group0_score, test_value.group1_score) - 1;
+		return ComputeScore(test_value, test_summary.size, test_group0_size, test_group1_size);
+	}
+
+	double EqOpp::ComputeScore(const EqOppSol& value, int size, int group0_size, int group1_size) const {
+		// There is no discrimination between the groups if one of the groups is empty
+		double disc = group0_size == 0 || group1_size == 0 ? 0 :
+			std::abs(value.group0_score / group0_size - value.group1_score / group1_size);
 		if (disc <= discrimination_limit + EqOppSol::rounding_epsilon)
-			return ((double)(test_summary.size - test_value.misclassifications)) / ((double)test_summary.size);
+			return ((double)(size - value.misclassifications)) / ((double)size);
 		else
 			return 0;
 	}
diff --git a/src/tasks/group_fairness.cpp b/src/tasks/group_fairness.cpp
index 58581a0..22b8a2c 100644
--- a/src/tasks/group_fairness.cpp
+++ b/src/tasks/group_fairness.cpp
@@ -51,6 +51,22 @@ namespace STreeD {
 				});
 	}
 
+	GroupFairnessSol GroupFairness::GetTestLeafCosts(const ADataView& data, const BranchContext& context, int label) const {
+		runtime_assert(data.NumLabels() == 2);
+		if (label == 0) return GroupFairnessSol({ data.NumInstancesForLabel(1), 0, 0 });
+		int group0_size = 0;
+		int group1_size = 0;
+		for (int k = 0; k < data.NumLabels(); k++) {
+			for (auto& dp : data.GetInstancesForLabel(k)) {
+				if (dp->IsFeaturePresent(0))
+					group1_size++;
+				else
+					group0_size++;
+			}
+		}
+		return GroupFairnessSol({ data.NumInstancesForLabel(0), double(group0_size), double(group1_size) });
+	}
+
 	void GroupFairness::GetInstanceLeafD2Costs(const AInstance* instance, int org_label, int label, GroupFairnessSol& costs, int multiplier) const {
 		int group0 = instance->IsFeaturePresent(0) ? 0 : 1;
 		costs = label ?
@@ -77,15 +93,21 @@ namespace STreeD {
 	}
 
 	double GroupFairness::ComputeTrainTestScore(const GroupFairnessSol& train_value) const {
-		return ComputeTrainScore(train_value);
+		runtime_assert(train_summary.instances_per_class.size() == 2);
+		return ComputeScore(train_value, train_summary.size, train_group0_size, train_group1_size);
 	}
 
 	double GroupFairness::ComputeTestTestScore(const GroupFairnessSol& test_value) const {
 		runtime_assert(test_summary.instances_per_class.size() == 2);
-		
-		double disc = std::max(test_value.group0_score, test_value.group1_score) - 1;
+		return ComputeScore(test_value, test_summary.size, test_group0_size, test_group1_size);
+	}
+
+	double GroupFairness::ComputeScore(const GroupFairnessSol& value, int size, int group0_size, int group1_size) const {
+		// There is no discrimination between the groups if one of the groups is empty
+		double disc = group0_size == 0 || group1_size == 0 ? 0 :
+			std::abs(value.group0_score / group0_size - value.group1_score / group1_size);
 		if (disc <= discrimination_limit + GroupFairnessSol::rounding_epsilon)
-			return ((double)(test_summary.size - test_value.misclassifications)) / ((double)test_summary.size);
+			return ((double)(size - value.misclassifications)) / ((double)size);
 		else
 			return 0;
 	}
-- 
2.43.0


From a2575aac074b81c077dd4ece04aa78b5bb6643ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:15:46 +0000
Subject: [PATCH 26/78] fix: compute the question length for tasks with extra
 data or a sensitive feature

---
 pystreed/group_fair.py                        | 16 ++++++++++++++
 .../instance_cost_sensitive_classification.py | 16 ++++++++++++++
 pystreed/prescriptive_policy_generation.py    | 16 ++++++++++++++
 pystreed/regression.py                        |  5 +++++
 pystreed/survival_analysis.py                 | 21 +++++++++++++++++++
 5 files changed, 74 insertions(+)

diff --git a/pystreed/group_fair.py b/pystreed/group_fair.py
index 7550238..1586473 100644
--- a/pystreed/group_fair.py
+++ b/pystreed/group_fair.py
@@ -160,6 +160,22 @@ class STreeDGroupFairnessClassifier(BaseSTreeDSolver):
         X = self._move_sensitive_feature_first(X)
         return super().score(X, y_true)
         
+    def get_question_length(self, X, y_true):
+        """
+        Computes the average question length for the given input feature data
+
+        Args:
+            x : array-like, shape = (n_samples, n_features)
+            Data matrix
+            y_true : array-like, shape = (n_samples)
+            The true labels
+
+        Returns:
+            The question length
+        """
+        X = self._move_sensitive_feature_first(X)
+        return super().get_question_length(X, y_true)
+
     def _export_dot_leaf_node(self, fh, node, node_id, label_names, train_data):
         if not hasattr(self, "_colors"):
             self._colors = _color_brew(self.n_classes_)
diff --git a/pystreed/instance_cost_sensitive_classification.py b/pystreed/instance_cost_sensitive_classification.py
index a3f7b0b..4f18eca 100644
--- a/pystreed/instance_cost_sensitive_classification.py
+++ b/pystreed/instance_cost_sensitive_classification.py
@@ -167,6 +167,22 @@ class STreeDInstanceCostSensitiveClassifier(BaseSTreeDSolver):
         y_test, extra_data = self._check_data(y_test, reset=False)
         return super().score(X, y_test, extra_data)
 
+    def get_question_length(self, X, y_test):
+        """
+        Computes the average question length for the given input feature data
+
+        Args:
+            x : array-like, shape = (n_samples, n_features)
+            Data matrix
+            y_test : array-like with shape (n_samples, n_labels) 
+            Cost vector. For each instance specify the classification costs per label
+
+        Returns:
+            The question length
+        """
+        y_test, extra_data = self._check_data(y_test, reset=False)
+        return super().get_question_length(X, y_test, extra_data)
+
     def export_dot(self, filename, feature_names=None, label_names=None):
         """
         Export the tree as a .dot file (for plotting)
diff --git a/pystreed/prescriptive_policy_generation.py b/pystreed/prescriptive_policy_generation.py
index 08af0fa..c60d535 100644
--- a/pystreed/prescriptive_policy_generation.py
+++ b/pystreed/prescriptive_policy_generation.py
@@ -204,6 +204,22 @@ class STreeDPrescriptivePolicyGenerator(BaseSTreeDSolver):
         y_test, extra_data = self._check_data(y_test, reset=False)
         return super().score(X, y_test, extra_data)
 
+    def get_question_length(self, X, y_test):
+        """
+        Computes the average question length for the given input feature data
+
+        Args:
+            x : array-like, shape = (n_samples, n_features)
+            Data matrix
+            y_test : array-like with shape (n_samples, n_ppg_columns) 
+            Target vector, see `score`
+
+        Returns:
+            The question length
+        """
+        y_test, extra_data = self._check_data(y_test, reset=False)
+        return super().get_question_length(X, y_test, extra_data)
+
     def _export_dot_leaf_node(self, fh, node, node_id, label_names, train_data):
         if not hasattr(self, "_colors"):
             self._colors = _color_brew(self.n_classes_)
diff --git a/pystreed/regression.py b/pystreed/regression.py
index d0d970d..ae162f7 100644
--- a/pystreed/regression.py
+++ b/pystreed/regression.py
@@ -264,6 +264,11 @@ class STreeDPiecewiseLinearRegressor(BaseSTreeDSolver):
         check_is_fitted(self, "fit_result")
         extra_data = self._get_continuous_columns(X, continuous_columns)
         return super().score(X, y_true, extra_data)
+
+    def get_question_length(self, X, y_true, continuous_columns=None):
+        check_is_fitted(self, "fit_result")
+        extra_data = self._get_continuous_columns(X, continuous_columns)
+        return super().get_question_length(X, y_true, extra_data)
     
     def _export_dot_leaf_node(self, fh, node, node_id, label_names, train_data):
         try:
diff --git a/pystreed/survival_analysis.py b/pystreed/survival_analysis.py
index f8df2b9..31092c9 100644
--- a/pystreed/survival_analysis.py
+++ b/pystreed/survival_analysis.py
@@ -142,6 +142,27 @@ class STreeDSurvivalAnalysis(BaseSTreeDSolver):
         events, times = check_array_survival(X, y_true)
         return super().score(X, times, events)
 
+    def get_question_length(self, X, y_true):
+        """
+        Computes the average question length for the given input feature data
+
+        Args:
+            x : array-like, shape = (n_samples, n_features)
+            Data matrix
+            y : structured array, shape = (n_samples,)
+            A structured array containing the binary event indicator
+            as first field, and time of event or time of censoring as
+            second field.
+
+        Returns:
+            The question length
+        """
+        check_is_fitted(self, "fit_result")
+        if X.shape[0] != y_true.shape[0]:
+            raise ValueError('x and y have different number of rows')
+        events, times = check_array_survival(X, y_true)
+        return super().get_question_length(X, times, events)
+
     def predict(self, X, extra_data=None):
         """Predict risk score.
 
-- 
2.43.0


From c96a418d7ad62e786659fa60793482843a0e4b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:21 +0000
Subject: [PATCH 27/78] fix: allow binary tasks to be trained on data without
 positive labels

---
 include/tasks/eq_opp.h            | 4 ++++
 include/tasks/f1score.h           | 4 ++++
 include/tasks/group_fairness.h    | 4 ++++
 include/tasks/optimization_task.h | 6 ++++++
 src/tasks/f1score.cpp             | 2 ++
 5 files changed, 20 insertions(+)

diff --git a/include/tasks/eq_opp.h b/include/tasks/eq_opp.h
index 00544b3..51a66f0 100644
--- a/include/tasks/eq_opp.h
+++ b/include/tasks/eq_opp.h
@@ -68,6 +68,7 @@ namespace STreeD {
 		static const bool has_constraint = true;
 		static const bool terminal_filter = true;
 		static const bool terminal_compute_context = true;
+		static const bool preprocess_train_test_data = true; // The data always has two labels, also if all instances have the same label
 		static const bool terminal_zero_costs_true_label = false; // True iff the costs of assigning the true label in the terminal is zero
 		static constexpr EqOppSol worst = { INT32_MAX, INT32_MAX, INT32_MAX, false };
 		static constexpr EqOppSol best = { 0, 0, 0, true };
@@ -76,6 +77,9 @@ namespace STreeD {
 			discrimination_limit = parameters.GetFloatParameter("discrimination-limit");
 		}
 
+		inline void PreprocessTrainData(ADataView& train_data) const { ResizeToTwoLabels(train_data); }
+		inline void PreprocessTestData(ADataView& test_data) const { ResizeToTwoLabels(test_data); }
+
 		void InformTrainData(const ADataView& train_data, const DataSummary& train_summary);
 		void InformTestData(const ADataView& test_data, const DataSummary& test_summary);
 
diff --git a/include/tasks/f1score.h b/include/tasks/f1score.h
index 30df6f2..46a13a9 100644
--- a/include/tasks/f1score.h
+++ b/include/tasks/f1score.h
@@ -33,12 +33,16 @@ namespace STreeD {
 		static const bool total_order = false;
 		static const bool custom_leaf = false;
 		static const bool check_unique = false;
+		static const bool preprocess_train_test_data = true; // The data always has two labels, also if all instances have the same label
 		static const bool terminal_zero_costs_true_label = false; // True iff the costs of assigning the true label in the terminal is zero
 		static constexpr F1ScoreSol worst = { INT32_MAX, INT32_MAX };
 		static constexpr F1ScoreSol best = { 0, 0 };
 
 		F1Score(const ParameterHandler& parameters) : Classification(parameters) {}
 
+		inline void PreprocessTrainData(ADataView& train_data) const { ResizeToTwoLabels(train_data); }
+		inline void PreprocessTestData(ADataView& test_data) const { ResizeToTwoLabels(test_data); }
+
 		F1ScoreSol GetLeafCosts(const ADataView& data, const BranchContext& context, int label) const;
 		inline F1ScoreSol GetTestLeafCosts(const ADataView& data, const BranchContext& context, int label) const {
 			return GetLeafCosts(data, context, label);
diff --git a/include/tasks/group_fairness.h b/include/tasks/group_fairness.h
index aff4bf7..0748f0a 100644
--- a/include/tasks/group_fairness.h
+++ b/include/tasks/group_fairness.h
@@ -68,6 +68,7 @@ namespace STreeD {
 		static const bool has_constraint = true;
 		static const bool terminal_filter = true;
 		static const bool terminal_compute_context = true;
+		static const bool preprocess_train_test_data = true; // The data always has two labels, also if all instances have the same label
 		static const bool terminal_zero_costs_true_label = false; // True iff the costs of assigning the true label in the terminal is zero
 		static constexpr GroupFairnessSol worst = { INT32_MAX, INT32_MAX, INT32_MAX, false};
 		static constexpr GroupFairnessSol best = { 0, 0, 0, true };
@@ -76,6 +77,9 @@ namespace STreeD {
 			discrimination_limit = parameters.GetFloatParameter("discrimination-limit");
 		}
 
+		inline void PreprocessTrainData(ADataView& train_data) const { ResizeToTwoLabels(train_data); }
+		inline void PreprocessTestData(ADataView& test_data) const { ResizeToTwoLabels(test_data); }
+
 		void InformTrainData(const ADataView& train_data, const DataSummary& train_summary);
 		void InformTestData(const ADataView& test_data, const DataSummary& test_summary);
 
diff --git a/include/tasks/optimization_task.h b/include/tasks/optimization_task.h
index 329ab58..df8ec33 100644
--- a/include/tasks/optimization_task.h
+++ b/include/tasks/optimization_task.h
@@ -109,5 +109,11 @@ namespace STreeD {
 		Classification(const ParameterHandler& parameters) {}
 
 		int Classify(const AInstance*, int label) const { return label; }
+
+	protected:
+		// Binary classification tasks need both labels, also if all instances have label zero
+		inline static void ResizeToTwoLabels(ADataView& data) {
+			if (data.NumLabels() < 2) data.GetMutableInstances().resize(2);
+		}
 	};
 }
diff --git a/src/tasks/f1score.cpp b/src/tasks/f1score.cpp
index eb6743b..3a1079d 100644
--- a/src/tasks/f1score.cpp
+++ b/src/tasks/f1score.cpp
@@ -16,6 +16,7 @@ namespace STreeD {
 		int fp = train_value.false_positives;
 		int fn = train_value.false_negatives;
 		int tp = train_summary.instances_per_class[1] - fn;
+		if (tp + fp + fn == 0) return 0; // No positives and no positive predictions
 		double result = tp / (tp + 0.5 * (fp + fn));
 		runtime_assert(result >= -1e-6 && result <= 1 + 1e-6);
 		return result;
@@ -30,6 +31,7 @@ namespace STreeD {
 		int fp = test_value.false_positives;
 		int fn = test_value.false_negatives;
 		int tp = test_summary.instances_per_class[1] - fn;
+		if (tp + fp + fn == 0) return 0; // No positives and no positive predictions
 		double result = tp / (tp + 0.5 * (fp + fn));
 		runtime_assert(result >= -1e-6 && result <= 1 + 1e-6);
 		return result;
-- 
2.43.0


From 34cd1cb5734a229f69c9a49833375364df82c06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:18:29 +0000
Subject: [PATCH 28/78] fix: train fair trees on data with an empty sensitive
 group

---
 include/tasks/eq_opp.h         |  5 ++++-
 include/tasks/group_fairness.h |  7 +++++--
 src/tasks/eq_opp.cpp           | 16 ++++++++--------
 src/tasks/group_fairness.cpp   | 16 ++++++++--------
 4 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/include/tasks/eq_opp.h b/include/tasks/eq_opp.h
index 51a66f0..03608d7 100644
--- a/include/tasks/eq_opp.h
+++ b/include/tasks/eq_opp.h
@@ -56,6 +56,9 @@ namespace STreeD {
 		int test_group0_size{ 0 };
 		int test_group1_size{ 0 };
 
+		// The fraction of a group, or zero if the group is empty
+		inline static double GroupRate(int count, int group_size) { return group_size == 0 ? 0 : count / double(group_size); }
+
 		double ComputeScore(const EqOppSol& value, int size, int group0_size, int group1_size) const;
 	public:
 		using SolType = EqOppSol;
@@ -93,7 +96,7 @@ namespace STreeD {
 		void ComputeD2Costs(const EqOppSol& d2costs, int count, EqOppSol& costs) const { costs = d2costs; }
 		inline EqOppSol GetWorstPerLabel(int label) const {
 			return label ?
-				EqOppSol({ 1, 1.0 / train_group1_size, 1.0 / train_group0_size }) :
+				EqOppSol({ 1, GroupRate(1, train_group1_size), GroupRate(1, train_group0_size) }) :
 				EqOppSol({ 1, 0.0, 0.0 });
 		}
 
diff --git a/include/tasks/group_fairness.h b/include/tasks/group_fairness.h
index 0748f0a..ce278ad 100644
--- a/include/tasks/group_fairness.h
+++ b/include/tasks/group_fairness.h
@@ -56,6 +56,9 @@ namespace STreeD {
 		int test_group0_size{ 0 };
 		int test_group1_size{ 0 };
 
+		// The fraction of a group, or zero if the group is empty
+		inline static double GroupRate(int count, int group_size) { return group_size == 0 ? 0 : count / double(group_size); }
+
 		double ComputeScore(const GroupFairnessSol& value, int size, int group0_size, int group1_size) const;
 	public:
 		using SolType = GroupFairnessSol;
@@ -93,8 +96,8 @@ namespace STreeD {
 		void ComputeD2Costs(const GroupFairnessSol& d2costs, int count, GroupFairnessSol& costs) const { costs = d2costs; }
 		inline GroupFairnessSol GetWorstPerLabel(int label) const { 
 			return label ?
-				GroupFairnessSol({ 1, 1.0 / train_group1_size, 1.0 / train_group0_size }) :
-				GroupFairnessSol({ 1, 1.0 / train_group0_size, 1.0 / train_group1_size });
+				GroupFairnessSol({ 1, GroupRate(1, train_group1_size), GroupRate(1, train_group0_size) }) :
+				GroupFairnessSol({ 1, GroupRate(1, train_group0_size), GroupRate(1, train_group1_size) });
 		}
 		
 		double ComputeTrainScore(const GroupFairnessSol& train_value) const;
diff --git a/src/tasks/eq_opp.cpp b/src/tasks/eq_opp.cpp
index 34c1e08..82b685a 100644
--- a/src/tasks/eq_opp.cpp
+++ b/src/tasks/eq_opp.cpp
@@ -39,13 +39,13 @@ namespace STreeD {
 		return label ?
 			EqOppSol({
 				data.NumInstancesForLabel(0), // Binary misclassification score
-				group0_size / double(train_group0_size),
-				(data.NumInstancesForLabel(1) - group0_size) / double(train_group1_size)
+				GroupRate(group0_size, train_group0_size),
+				GroupRate(data.NumInstancesForLabel(1) - group0_size, train_group1_size)
 				}) :
 			EqOppSol({
 				data.NumInstancesForLabel(1), // Binary misclassification score
-				(data.NumInstancesForLabel(1) - group0_size) / double(train_group1_size),
-				group0_size / double(train_group0_size)
+				GroupRate(data.NumInstancesForLabel(1) - group0_size, train_group1_size),
+				GroupRate(group0_size, train_group0_size)
 				});
 	}
 
@@ -71,13 +71,13 @@ namespace STreeD {
 		costs = label ?
 			EqOppSol({
 				multiplier * (label - org_label), // Binary misclassification score
-				multiplier * (group0 / double(train_group0_size)),
-				multiplier * (group1 / double(train_group1_size))
+				multiplier * GroupRate(group0, train_group0_size),
+				multiplier * GroupRate(group1, train_group1_size)
 				}) :
 			EqOppSol({
 				multiplier * (org_label - label), // Binary misclassification score
-				multiplier * (group1 / double(train_group1_size)),
-				multiplier * (group0 / double(train_group0_size))
+				multiplier * GroupRate(group1, train_group1_size),
+				multiplier * GroupRate(group0, train_group0_size)
 				});
 	}
 
diff --git a/src/tasks/group_fairness.cpp b/src/tasks/group_fairness.cpp
index 22b8a2c..40e3684 100644
--- a/src/tasks/group_fairness.cpp
+++ b/src/tasks/group_fairness.cpp
@@ -41,13 +41,13 @@ namespace STreeD {
 		return label ?
 			GroupFairnessSol({
 				data.NumInstancesForLabel(0), // Binary misclassification score
-				group0_size / double(train_group0_size),
-				(data.Size() - group0_size) / double(train_group1_size)
+				GroupRate(group0_size, train_group0_size),
+				GroupRate(data.Size() - group0_size, train_group1_size)
 				}) :
 			GroupFairnessSol({
 				data.NumInstancesForLabel(1), // Binary misclassification score
-				(data.Size() - group0_size) / double(train_group1_size),
-				group0_size / double(train_group0_size)
+				GroupRate(data.Size() - group0_size, train_group1_size),
+				GroupRate(group0_size, train_group0_size)
 				});
 	}
 
@@ -72,13 +72,13 @@ namespace STreeD {
 		costs = label ?
 			GroupFairnessSol({
 				multiplier * (label - org_label), // Binary misclassification score
-				multiplier * (group0 / double(train_group0_size)),
-				multiplier * ((1 - group0) / double(train_group1_size))
+				multiplier * GroupRate(group0, train_group0_size),
+				multiplier * GroupRate(1 - group0, train_group1_size)
 				}) :
 			GroupFairnessSol({
 				multiplier * (org_label - label), // Binary misclassification score
-				multiplier * ((1 - group0) / double(train_group1_size)),
-				multiplier * (group0 / double(train_group0_size))
+				multiplier * GroupRate(1 - group0, train_group1_size),
+				multiplier * GroupRate(group0, train_group0_size)
 				});
 	}
 
-- 
2.43.0


From 012809864ab858bc1db0c6a5ffa70e2494a66d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:18:40 +0000
Subject: [PATCH 29/78] fix: keep the column order of the caller's data when
 moving the sensitive feature

---
 pystreed/group_fair.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystreed/group_fair.py b/pystreed/group_fair.py
index 1586473..37f436f 100644
--- a/pystreed/group_fair.py
+++ b/pystreed/group_fair.py
@@ -90,6 +90,7 @@ class STreeDGroupFairnessClassifier(BaseSTreeDSolver):
             if self.sensitive_feature == 0: return X
             if isinstance(X, pd.DataFrame):
                 sensitive_feature = X.columns[self.sensitive_feature]
+                X = X.copy()
                 sensitive_column = X.pop(sensitive_feature) 
                 X.insert(0, sensitive_feature, sensitive_column) 
                 return X
@@ -99,6 +100,7 @@ class STreeDGroupFairnessClassifier(BaseSTreeDSolver):
             # assume pandas dataframe
             if not self.sensitive_feature in X.columns:
                  raise ValueError(f"Column {self.sensitive_feature} is not part of the data.")
+            X = X.copy()
             sensitive_column = X.pop(self.sensitive_feature) 
             X.insert(0, self.sensitive_feature, sensitive_column)
             return X
-- 
2.43.0


From b944beecb5b8a21a0acf9b327907cbba2391e646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:18:51 +0000
Subject: [PATCH 30/78] fix: pass the categorical columns on as categorical
 columns

---
 pystreed/cost_sensitive_classification.py          | 2 +-
 pystreed/group_fair.py                             | 2 +-
 pystreed/instance_cost_sensitive_classification.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystreed/cost_sensitive_classification.py b/pystreed/cost_sensitive_classification.py
index af60201..19092a6 100644
--- a/pystreed/cost_sensitive_classification.py
+++ b/pystreed/cost_sensitive_classification.py
@@ -88,7 +88,7 @@ class STreeDCostSensitiveClassifier(BaseSTreeDSolver):
         """
         self.n_classes_ = len(np.unique(y))
         self.cost_specifier_ = cost_specifier
-        return super().fit(X, y, categorical)
+        return super().fit(X, y, categorical=categorical)
         
     def _export_dot_leaf_node(self, fh, node, node_id, label_names, train_data):
         if not hasattr(self, "_colors"):
diff --git a/pystreed/group_fair.py b/pystreed/group_fair.py
index 37f436f..da971fc 100644
--- a/pystreed/group_fair.py
+++ b/pystreed/group_fair.py
@@ -129,7 +129,7 @@ class STreeDGroupFairnessClassifier(BaseSTreeDSolver):
         """
         self.n_classes_ = len(np.unique(y))
         X = self._move_sensitive_feature_first(X)
-        return super().fit(X, y, categorical)
+        return super().fit(X, y, categorical=categorical)
     
     def predict(self, X):
         """
diff --git a/pystreed/instance_cost_sensitive_classification.py b/pystreed/instance_cost_sensitive_classification.py
index 4f18eca..4f655a9 100644
--- a/pystreed/instance_cost_sensitive_classification.py
+++ b/pystreed/instance_cost_sensitive_classification.py
@@ -130,7 +130,7 @@ class STreeDInstanceCostSensitiveClassifier(BaseSTreeDSolver):
             ValueError: If x or y is None or if they have different number of rows.
         """
         y, extra_data = self._check_data(y)
-        return super().fit(X, y, extra_data)
+        return super().fit(X, y, extra_data, categorical)
     
     def predict(self, X, extra_data=None):
         """
-- 
2.43.0


From 4cd84ce6d4b8fce059b39828be3725102c256655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:19:48 +0000
Subject: [PATCH 31/78] fix: do not compare new test data with test data that
 was already freed

---
 src/bindings.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bindings.cpp b/src/bindings.cpp
index aba3e8b..11ca5da 100644
--- a/src/bindings.cpp
+++ b/src/bindings.cpp
@@ -133,6 +133,7 @@ py::class_<Solver<OT>> DefineSolver(py::module& m, const std::string& name) {
         py::array_t<typename OT::LabelType, py::array::c_style> y;
         NumpyToSTreeDData<typename OT::LabelType, typename OT::ET>(X, y, extra_data, test_data, test_data_view);
         _solver.PreprocessData(test_data, false);
+        _solver.InitializeTest(test_data_view, true); // Do not compare with earlier test data: it no longer exists
         auto tree = result->trees[result->best_index];
         std::vector<typename OT::LabelType> predictions = _solver.Predict(tree, test_data_view);
         return py::array_t<typename OT::LabelType, py::array::c_style>(predictions.size(), predictions.data()); 
@@ -148,6 +149,7 @@ py::class_<Solver<OT>> DefineSolver(py::module& m, const std::string& name) {
         ADataView test_data_view;
         NumpyToSTreeDData<typename OT::LabelType, typename OT::ET>(X, y_true, extra_data, test_data, test_data_view);
         _solver.PreprocessData(test_data, false);
+        _solver.InitializeTest(test_data_view, true); // Do not compare with earlier test data: it no longer exists
         return _solver.TestPerformance(solver_result, test_data_view);
     });
 
-- 
2.43.0


From 373ae2838f1a0065787ad1f271c47ee63a4c098d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:08:01 +0000
Subject: [PATCH 32/78] fix: do not return trees that are worse than the given
 upper bound

With an upper bound below the optimal value, the search could return a
non-optimal tree that does not satisfy the bound. When upper bounds are
disabled, the given bound is now ignored.
---
 src/solver/solver.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index d6be7d6..2a49cfb 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -85,6 +85,7 @@ namespace STreeD {
 
 		// if no UB is given yet, compute the leaf solutions in the root node and use these as UB
 		auto result = InitializeSol<OT>();
+		auto initial_UB = InitializeSol<OT>();
 		if (CheckEmptySol<OT>(global_UB)) {
 			global_UB = InitializeSol<OT>();
 			// If an upper bound is provided, and the objective is numeric, add it to the UB
@@ -94,8 +95,9 @@ namespace STreeD {
 				if (std::abs(ub - INT32_MAX) < 1 && std::is_same<Solver<OT>::SolType, double>::value) {
 					ub = DBL_MAX;
 				}
-				AddSol<OT>(global_UB, Node<OT>(ub));
+				if (solver_parameters.use_upper_bounding) AddSol<OT>(global_UB, Node<OT>(ub));
 			}
+			initial_UB = CopySol<OT>(global_UB);
 			result = SolveLeafNode(train_data, root_context, global_UB);
 		}
 
@@ -169,6 +171,13 @@ namespace STreeD {
 			}
 		}
 		
+		// The search may return a solution that does not satisfy the provided upper bound
+		if constexpr (OT::total_order) {
+			if (result.IsFeasible() && initial_UB.IsFeasible() && LeftStrictDominatesRightSol<OT>(initial_UB, result)) {
+				result = InitializeSol<OT>();
+			}
+		}
+
 		// Evaluate the results
 		auto solver_result = std::make_shared<SolverTaskResult<OT>>();
 		solver_result->is_proven_optimal = stopwatch.IsWithinTimeLimit();
-- 
2.43.0


From 1c74ba077daf820ab1ff103ac976b4360171154f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:08:20 +0000
Subject: [PATCH 33/78] fix: raise NotFittedError when an unfitted model is
 used

The fit_result attribute existed before the first fit, so that the check for
a fitted model passed and an unrelated error was raised. Some tasks processed
the data before checking that the model is fitted.
---
 pystreed/base.py                                   | 1 -
 pystreed/group_fair.py                             | 4 ++++
 pystreed/instance_cost_sensitive_classification.py | 4 ++++
 pystreed/prescriptive_policy_generation.py         | 4 ++++
 4 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/pystreed/base.py b/pystreed/base.py
index 3ba8afc..5e584e0 100644
--- a/pystreed/base.py
+++ b/pystreed/base.py
@@ -105,7 +105,6 @@ class BaseSTreeDSolver(BaseEstimator):
         self.n_thresholds = n_thresholds
         self.n_categories = n_categories
         
-        self.fit_result = None
         self._solver = None
         self._label_type = np.int32
         self.binarizer_ = None
diff --git a/pystreed/group_fair.py b/pystreed/group_fair.py
index da971fc..6eea530 100644
--- a/pystreed/group_fair.py
+++ b/pystreed/group_fair.py
@@ -1,6 +1,7 @@
 from pystreed.base import BaseSTreeDSolver
 from typing import Optional, Union
 from sklearn.utils._param_validation import Interval
+from sklearn.utils.validation import check_is_fitted
 from pystreed.utils import _color_brew
 import numpy as np
 import pandas as pd
@@ -143,6 +144,7 @@ class STreeDGroupFairnessClassifier(BaseSTreeDSolver):
             numpy.ndarray: A 1D array that represents the predicted target variable of the test data.
                 The i-th element in this array corresponds to the predicted target variable for the i-th instance in `x`.
         """
+        check_is_fitted(self, "fit_result")
         X = self._move_sensitive_feature_first(X)
         return super().predict(X)
     
@@ -159,6 +161,7 @@ class STreeDGroupFairnessClassifier(BaseSTreeDSolver):
         Returns:
             The score
         """
+        check_is_fitted(self, "fit_result")
         X = self._move_sensitive_feature_first(X)
         return super().score(X, y_true)
         
@@ -175,6 +178,7 @@ class STreeDGroupFairnessClassifier(BaseSTreeDSolver):
         Returns:
             The question length
         """
+        check_is_fitted(self, "fit_result")
         X = self._move_sensitive_feature_first(X)
         return super().get_question_length(X, y_true)
 
diff --git a/pystreed/instance_cost_sensitive_classification.py b/pystreed/instance_cost_sensitive_classification.py
index 4f655a9..4630774 100644
--- a/pystreed/instance_cost_sensitive_classification.py
+++ b/pystreed/instance_cost_sensitive_classification.py
@@ -1,6 +1,7 @@
 from pystreed.data import CostVector
 from pystreed.base import BaseSTreeDSolver
 from sklearn.utils._param_validation import Interval, StrOptions
+from sklearn.utils.validation import check_is_fitted
 from typing import Optional
 from pystreed.utils import _color_brew, _dynamic_float_formatter
 import numpy as np
@@ -146,6 +147,7 @@ class STreeDInstanceCostSensitiveClassifier(BaseSTreeDSolver):
             numpy.ndarray: A 1D array that represents the predicted target variable of the test data.
                 The i-th element in this array corresponds to the predicted target variable for the i-th instance in `x`.
         """
+        check_is_fitted(self, "fit_result")
         if extra_data is None:
             extra_data = [CostVector(np.zeros(self.n_classes_)) for i in range(len(X))]
         _, extra_data = self._check_data(extra_data, reset=False)
@@ -164,6 +166,7 @@ class STreeDInstanceCostSensitiveClassifier(BaseSTreeDSolver):
         Returns:
             The score
         """
+        check_is_fitted(self, "fit_result")
         y_test, extra_data = self._check_data(y_test, reset=False)
         return super().score(X, y_test, extra_data)
 
@@ -180,6 +183,7 @@ class STreeDInstanceCostSensitiveClassifier(BaseSTreeDSolver):
         Returns:
             The question length
         """
+        check_is_fitted(self, "fit_result")
         y_test, extra_data = self._check_data(y_test, reset=False)
         return super().get_question_length(X, y_test, extra_data)
 
diff --git a/pystreed/prescriptive_policy_generation.py b/pystreed/prescriptive_policy_generation.py
index c60d535..0a75741 100644
--- a/pystreed/prescriptive_policy_generation.py
+++ b/pystreed/prescriptive_policy_generation.py
@@ -1,6 +1,7 @@
 from pystreed.data import PPGData
 from pystreed.base import BaseSTreeDSolver
 from sklearn.utils._param_validation import Interval, StrOptions
+from sklearn.utils.validation import check_is_fitted
 from typing import Optional
 from pystreed.utils import _color_brew
 import numpy as np
@@ -177,6 +178,7 @@ class STreeDPrescriptivePolicyGenerator(BaseSTreeDSolver):
             numpy.ndarray: A 1D array that represents the predicted target variable of the test data.
                 The i-th element in this array corresponds to the predicted target variable for the i-th instance in `x`.
         """
+        check_is_fitted(self, "fit_result")
         if extra_data is None:
             extra_data = [PPGData() for i in range(len(X))]
         _, extra_data = self._check_data(extra_data, reset=False)
@@ -201,6 +203,7 @@ class STreeDPrescriptivePolicyGenerator(BaseSTreeDSolver):
         Returns:
             The score
         """
+        check_is_fitted(self, "fit_result")
         y_test, extra_data = self._check_data(y_test, reset=False)
         return super().score(X, y_test, extra_data)
 
@@ -217,6 +220,7 @@ class STreeDPrescriptivePolicyGenerator(BaseSTreeDSolver):
         Returns:
             The question length
         """
+        check_is_fitted(self, "fit_result")
         y_test, extra_data = self._check_data(y_test, reset=False)
         return super().get_question_length(X, y_test, extra_data)
 
-- 
2.43.0


From a5001ef482575d0a7c23de8d19228b73ee0f86f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:08:20 +0000
Subject: [PATCH 34/78] fix: forget the previous tree when a new fit finds no
 feasible tree

---
 pystreed/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pystreed/base.py b/pystreed/base.py
index 5e584e0..430a051 100644
--- a/pystreed/base.py
+++ b/pystreed/base.py
@@ -280,6 +280,8 @@ class BaseSTreeDSolver(BaseEstimator):
         if not self.fit_result.is_feasible():
             warnings.warn("No feasible tree found.", stacklevel=2)
             delattr(self, "fit_result")
+            # Also remove the tree of a previous fit
+            if hasattr(self, "tree_"): delattr(self, "tree_")
         else:
             self.tree_ = self._solver._get_tree(self.fit_result)
 
-- 
2.43.0


From a70738f397f7eede21f4e34a61395d54033388cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:08:20 +0000
Subject: [PATCH 35/78] fix: detect the continuous columns again when refitting
 a linear regressor

A second fit without continuous columns used the columns of the previous fit.
---
 pystreed/regression.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystreed/regression.py b/pystreed/regression.py
index ae162f7..7c23c83 100644
--- a/pystreed/regression.py
+++ b/pystreed/regression.py
@@ -251,6 +251,7 @@ class STreeDPiecewiseLinearRegressor(BaseSTreeDSolver):
             ValueError: If x or y is None or if they have different number of rows.
         """
         self.categorical_columns_ = categorical_columns
+        self.continuous_columns_ = None # Do not reuse the columns of a previous fit
         extra_data = self._get_continuous_columns(X, continuous_columns)
         if isinstance(y, pd.Series): self.label_name_ = y.name
         return super().fit(X, y, extra_data, categorical_columns)
-- 
2.43.0


From 775bbaf7607657d6eb7d5fcb48525e012ce40974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:08:20 +0000
Subject: [PATCH 36/78] fix: refuse a different number of continuous columns
 than used for fitting

Predicting or scoring with fewer continuous columns read past the end of the
feature vector.
---
 pystreed/regression.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pystreed/regression.py b/pystreed/regression.py
index 7c23c83..0aae9d9 100644
--- a/pystreed/regression.py
+++ b/pystreed/regression.py
@@ -195,7 +195,7 @@ class STreeDPiecewiseLinearRegressor(BaseSTreeDSolver):
     def _process_extra_data(self, X, extra_data):
         return extra_data
 
-    def _get_continuous_columns(self, X, continuous_columns):
+    def _get_continuous_columns(self, X, continuous_columns, reset=False):
         if continuous_columns is None:
             continuous_columns = self.continuous_columns_
         if continuous_columns is None:
@@ -216,7 +216,10 @@ class STreeDPiecewiseLinearRegressor(BaseSTreeDSolver):
             cont_cols = continuous_columns.values
         else:
             raise ValueError(f"X should be a numpy array or a pandas data frame. X.type = {type(X)}")
-        self.n_continuous_columns_ = cont_cols.shape[1]
+        if reset:
+            self.n_continuous_columns_ = cont_cols.shape[1]
+        elif self.n_continuous_columns_ != cont_cols.shape[1]:
+            raise ValueError(f"Expected {self.n_continuous_columns_} continuous columns, but found {cont_cols.shape[1]}.")
         if self.simple:
             extra_data = [SimpleContinuousFeatureData(list(row)) for row in cont_cols]
         else:
@@ -252,7 +255,7 @@ class STreeDPiecewiseLinearRegressor(BaseSTreeDSolver):
         """
         self.categorical_columns_ = categorical_columns
         self.continuous_columns_ = None # Do not reuse the columns of a previous fit
-        extra_data = self._get_continuous_columns(X, continuous_columns)
+        extra_data = self._get_continuous_columns(X, continuous_columns, reset=True)
         if isinstance(y, pd.Series): self.label_name_ = y.name
         return super().fit(X, y, extra_data, categorical_columns)
 
-- 
2.43.0


From 6247c1a290d422466a3b5de09461e3aec6b50381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:08:53 +0000
Subject: [PATCH 37/78] fix: export trees after a refit with more classes or
 with unused class numbers

The colors of the classes were computed once, for the number of distinct
classes of the first exported fit, and indexed by class number.
---
 pystreed/base.py                                   |  7 ++++++-
 pystreed/classification.py                         |  5 +----
 pystreed/cost_sensitive_classification.py          |  5 +----
 pystreed/group_fair.py                             |  5 +----
 pystreed/instance_cost_sensitive_classification.py | 14 ++++----------
 pystreed/prescriptive_policy_generation.py         |  5 +----
 6 files changed, 14 insertions(+), 27 deletions(-)

diff --git a/pystreed/base.py b/pystreed/base.py
index 430a051..b7ded55 100644
--- a/pystreed/base.py
+++ b/pystreed/base.py
@@ -3,7 +3,7 @@ from sklearn.base import BaseEstimator
 from sklearn.utils.validation import check_array, check_is_fitted
 from .cstreed import initialize_streed_solver, ParameterHandler, RandomEngine
 from pystreed.binarizer import Binarizer
-from pystreed.utils import _dynamic_float_formatter
+from pystreed.utils import _color_brew, _dynamic_float_formatter
 from typing import Optional
 import numpy as np
 import warnings
@@ -384,6 +384,11 @@ class BaseSTreeDSolver(BaseEstimator):
     def _get_label_str(self, label, label_names=None):
         return str(label) if not isinstance(label, int) or label_names is None else label_names[label]
     
+    def _get_label_color(self, label):
+        # The training labels are not necessarily consecutive
+        n_colors = max(self.n_classes_, int(np.max(self.train_y_)) + 1)
+        return _color_brew(n_colors)[label]
+
     def _get_predicate_str(self, feature, feature_names=None):
         if feature_names is None:
             return f"Feature {feature}"
diff --git a/pystreed/classification.py b/pystreed/classification.py
index 52089f3..c044abe 100644
--- a/pystreed/classification.py
+++ b/pystreed/classification.py
@@ -2,7 +2,6 @@ from pystreed.base import BaseSTreeDSolver
 from typing import Optional
 from sklearn.utils._param_validation import Interval
 from sklearn.utils.validation import check_is_fitted
-from pystreed.utils import _color_brew
 import numpy as np
 import numbers
 import warnings
@@ -170,7 +169,5 @@ class STreeDClassifier(BaseSTreeDSolver):
             self._recursive_predict_proba(tree.right_child, probabilities, indices_right, X, train_data_right)
 
     def _export_dot_leaf_node(self, fh, node, node_id, label_names, train_data):
-        if not hasattr(self, "_colors"):
-            self._colors = _color_brew(self.n_classes_)
-        color = self._colors[node.label]
+        color = self._get_label_color(node.label)
         return super()._export_dot_leaf_node(fh, node, node_id, label_names, train_data, color=color)
\ No newline at end of file
diff --git a/pystreed/cost_sensitive_classification.py b/pystreed/cost_sensitive_classification.py
index 19092a6..1043865 100644
--- a/pystreed/cost_sensitive_classification.py
+++ b/pystreed/cost_sensitive_classification.py
@@ -1,6 +1,5 @@
 from pystreed.base import BaseSTreeDSolver
 from typing import Optional
-from pystreed.utils import _color_brew
 import numpy as np
 from pystreed.data import CostSpecifier
 
@@ -91,7 +90,5 @@ class STreeDCostSensitiveClassifier(BaseSTreeDSolver):
         return super().fit(X, y, categorical=categorical)
         
     def _export_dot_leaf_node(self, fh, node, node_id, label_names, train_data):
-        if not hasattr(self, "_colors"):
-            self._colors = _color_brew(self.n_classes_)
-        color = self._colors[node.label]
+        color = self._get_label_color(node.label)
         return super()._export_dot_leaf_node(fh, node, node_id, label_names, train_data, color=color)
\ No newline at end of file
diff --git a/pystreed/group_fair.py b/pystreed/group_fair.py
index 6eea530..cf9d376 100644
--- a/pystreed/group_fair.py
+++ b/pystreed/group_fair.py
@@ -2,7 +2,6 @@ from pystreed.base import BaseSTreeDSolver
 from typing import Optional, Union
 from sklearn.utils._param_validation import Interval
 from sklearn.utils.validation import check_is_fitted
-from pystreed.utils import _color_brew
 import numpy as np
 import pandas as pd
 import numbers
@@ -183,7 +182,5 @@ class STreeDGroupFairnessClassifier(BaseSTreeDSolver):
         return super().get_question_length(X, y_true)
 
     def _export_dot_leaf_node(self, fh, node, node_id, label_names, train_data):
-        if not hasattr(self, "_colors"):
-            self._colors = _color_brew(self.n_classes_)
-        color = self._colors[node.label]
+        color = self._get_label_color(node.label)
         return super()._export_dot_leaf_node(fh, node, node_id, label_names, train_data, color=color)
\ No newline at end of file
diff --git a/pystreed/instance_cost_sensitive_classification.py b/pystreed/instance_cost_sensitive_classification.py
index 4630774..9801ffd 100644
--- a/pystreed/instance_cost_sensitive_classification.py
+++ b/pystreed/instance_cost_sensitive_classification.py
@@ -3,7 +3,7 @@ from pystreed.base import BaseSTreeDSolver
 from sklearn.utils._param_validation import Interval, StrOptions
 from sklearn.utils.validation import check_is_fitted
 from typing import Optional
-from pystreed.utils import _color_brew, _dynamic_float_formatter
+from pystreed.utils import _dynamic_float_formatter
 import numpy as np
 import os
 from pathlib import Path
@@ -195,10 +195,8 @@ class STreeDInstanceCostSensitiveClassifier(BaseSTreeDSolver):
         return super().export_dot(filename, feature_names, label_names)
     
     def _get_branching_color(self, cost_sums):
-        if not hasattr(self, "colors"):
-            self.colors = _color_brew(self.n_classes_)
         best_ix = int(np.argmin(cost_sums))
-        color = list(self.colors[best_ix])
+        color = list(self._get_label_color(best_ix))
         total_costs = sum(cost_sums)
         if cost_sums[best_ix] < 0.01 * total_costs:
             alpha = 0.0
@@ -213,8 +211,6 @@ class STreeDInstanceCostSensitiveClassifier(BaseSTreeDSolver):
         return "#%2x%2x%2x" % tuple(color)
 
     def _export_bar_plot(self, fh, node_id, label_names, train_data, text_prefix=""):
-        if not hasattr(self, "_colors"):
-            self._colors = _color_brew(self.n_classes_)
         import matplotlib.pyplot as plt
         plt.rc('axes', labelsize=6)
         plt.rc('xtick', labelsize=6)
@@ -228,7 +224,7 @@ class STreeDInstanceCostSensitiveClassifier(BaseSTreeDSolver):
                 cost_sums[label] += row.costs[label]
         cost_sums /= n
         best_label = int(np.argmin(cost_sums))
-        color = self._colors[best_label]
+        color = self._get_label_color(best_label)
 
         colors = ['tab:gray' for label in range(self.n_classes_)]
         colors[best_label] = [c / 256 for c in color]
@@ -274,9 +270,7 @@ class STreeDInstanceCostSensitiveClassifier(BaseSTreeDSolver):
         try:
             self._export_bar_plot(fh, node_id, label_names, train_data)
         except:
-            if not hasattr(self, "_colors"):
-                self._colors = _color_brew(self.n_classes_)
-            color = self._colors[node.label]
+            color = self._get_label_color(node.label)
             label =  self._get_label_str(node.label, label_names)
             hex_color = "#{:02x}{:02x}{:02x}".format(*color)
             hex_line_color = "#{:02x}{:02x}{:02x}".format(*[int(0.4 * c) for c in color])
diff --git a/pystreed/prescriptive_policy_generation.py b/pystreed/prescriptive_policy_generation.py
index 0a75741..3f3f2dc 100644
--- a/pystreed/prescriptive_policy_generation.py
+++ b/pystreed/prescriptive_policy_generation.py
@@ -3,7 +3,6 @@ from pystreed.base import BaseSTreeDSolver
 from sklearn.utils._param_validation import Interval, StrOptions
 from sklearn.utils.validation import check_is_fitted
 from typing import Optional
-from pystreed.utils import _color_brew
 import numpy as np
 
 class STreeDPrescriptivePolicyGenerator(BaseSTreeDSolver):
@@ -225,7 +224,5 @@ class STreeDPrescriptivePolicyGenerator(BaseSTreeDSolver):
         return super().get_question_length(X, y_test, extra_data)
 
     def _export_dot_leaf_node(self, fh, node, node_id, label_names, train_data):
-        if not hasattr(self, "_colors"):
-            self._colors = _color_brew(self.n_classes_)
-        color = self._colors[node.label]
+        color = self._get_label_color(node.label)
         return super()._export_dot_leaf_node(fh, node, node_id, label_names, train_data, color=color)
\ No newline at end of file
-- 
2.43.0


From 7774fb57b5a129f85a1fa6527820fc76c003995a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:09:09 +0000
Subject: [PATCH 38/78] fix: compute class probabilities when class numbers are
 not consecutive

The columns follow the sorted classes of the training data.
---
 pystreed/classification.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pystreed/classification.py b/pystreed/classification.py
index c044abe..e48ec03 100644
--- a/pystreed/classification.py
+++ b/pystreed/classification.py
@@ -149,16 +149,18 @@ class STreeDClassifier(BaseSTreeDSolver):
     def _recursive_predict_proba(self, tree, probabilities, indices, X, train_data):
         train_X = train_data[0]
         train_y = train_data[1]
+        # The class labels are not necessarily consecutive
+        classes = np.unique(self.train_y_)
         if tree.is_leaf_node():
             n = len(train_y)
             assert(n > 0)
             all_counts = np.zeros(self.n_classes_)
             unique, counts = np.unique(train_y, return_counts=True)
             for label, count in zip(unique, counts):
-                all_counts[label] = count
+                all_counts[np.searchsorted(classes, label)] = count
             probs = all_counts / n
             probabilities[indices] = probs
-            assert(probs[tree.label] >= max(probs) - 1e-5)
+            assert(probs[np.searchsorted(classes, tree.label)] >= max(probs) - 1e-5)
         else:
             indices_left  = np.intersect1d(np.argwhere(~X[:, tree.feature]), indices)
             indices_right = np.intersect1d(np.argwhere( X[:, tree.feature]), indices)
-- 
2.43.0


From e01d292f13d83816e2a18293cf3c2c8a140741b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:09:09 +0000
Subject: [PATCH 39/78] fix: compute class probabilities of trees that optimise
 the F1-score

Their leaves do not need to predict the most frequent class.
---
 pystreed/classification.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pystreed/classification.py b/pystreed/classification.py
index e48ec03..d97564c 100644
--- a/pystreed/classification.py
+++ b/pystreed/classification.py
@@ -160,7 +160,6 @@ class STreeDClassifier(BaseSTreeDSolver):
                 all_counts[np.searchsorted(classes, label)] = count
             probs = all_counts / n
             probabilities[indices] = probs
-            assert(probs[np.searchsorted(classes, tree.label)] >= max(probs) - 1e-5)
         else:
             indices_left  = np.intersect1d(np.argwhere(~X[:, tree.feature]), indices)
             indices_right = np.intersect1d(np.argwhere( X[:, tree.feature]), indices)
-- 
2.43.0


From 0d0166dfbb2dd51003dd88c7fbc622395a57a919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:09:09 +0000
Subject: [PATCH 40/78] fix: refuse extra data with another number of rows than
 the feature data

Too few rows (for example of continuous columns) were read past the end.
---
 src/bindings.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bindings.cpp b/src/bindings.cpp
index 11ca5da..4175e3a 100644
--- a/src/bindings.cpp
+++ b/src/bindings.cpp
@@ -58,6 +58,10 @@ void NumpyToSTreeDData(const py::array_t<int, py::array::c_style>& _X,
     auto y = _y.template unchecked<1>();
     const int num_instances = int(X.shape(0));
     const int num_features = int(X.shape(1));
+    if (y.size() > 0 && int(y.shape(0)) != num_instances)
+        throw std::invalid_argument("The number of labels differs from the number of instances.");
+    if (extra_data.size() > 0 && int(extra_data.size()) != num_instances)
+        throw std::invalid_argument("The number of extra data items differs from the number of instances.");
     
     std::vector<std::vector<const AInstance*>> instances_per_label;
     if (regression) instances_per_label.resize(1);
-- 
2.43.0


From f443f397ee71a30327d002648fb9d9fabced9784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:09:09 +0000
Subject: [PATCH 41/78] fix: refuse negative class labels instead of writing
 out of bounds

---
 src/bindings.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bindings.cpp b/src/bindings.cpp
index 4175e3a..c50e928 100644
--- a/src/bindings.cpp
+++ b/src/bindings.cpp
@@ -81,6 +81,7 @@ void NumpyToSTreeDData(const py::array_t<int, py::array::c_style>& _X,
             instances_per_label[0].push_back(instance);
         } else {
             int i_label = static_cast<int>(label);
+            if (i_label < 0) throw std::invalid_argument("Class labels should not be negative.");
             if (instances_per_label.size() <= i_label) { instances_per_label.resize(i_label + 1); }
             instances_per_label[i_label].push_back(instance);
         } 
-- 
2.43.0


From b2affd38c957be85109c69dc42a9d56d6ee34ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:33 +0000
Subject: [PATCH 42/78] fix: keep the remaining time non-negative when
 hyper-tuning runs out of time

Setting a negative time limit for the final run ended the whole process.
---
 include/utils/stopwatch.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/stopwatch.h b/include/utils/stopwatch.h
index b036fa6..66310fa 100644
--- a/include/utils/stopwatch.h
+++ b/include/utils/stopwatch.h
@@ -22,7 +22,7 @@ namespace STreeD {
 		}
 
 		double TimeLeftInSeconds() const {
-			return time_limit_in_seconds - TimeElapsedInSeconds();
+			return std::max(0.0, time_limit_in_seconds - TimeElapsedInSeconds());
 		}
 
 
-- 
2.43.0


From 59e76f1b40953cdede64de0a3d41b0faee6ae83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:33 +0000
Subject: [PATCH 43/78] fix: measure the time limit with a steady clock instead
 of in whole seconds

A fit of a few milliseconds could exceed a time limit of half a second, and a
limit of ten milliseconds could take a full second.
---
 include/utils/stopwatch.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/utils/stopwatch.h b/include/utils/stopwatch.h
index 66310fa..a885ad8 100644
--- a/include/utils/stopwatch.h
+++ b/include/utils/stopwatch.h
@@ -4,21 +4,22 @@ https://bitbucket.org/EmirD/murtree
 */
 #pragma once
 #include <base.h>
+#include <chrono>
 
 namespace STreeD {
 
 	class Stopwatch {
 	public:
-		Stopwatch() :starting_time(0), time_limit_in_seconds(0) {}
+		Stopwatch() :starting_time(), time_limit_in_seconds(0) {}
 
 		void Initialise(double time_limit_in_seconds) {
-			starting_time = time(nullptr);
+			starting_time = std::chrono::steady_clock::now();
 			this->time_limit_in_seconds = time_limit_in_seconds;
 			this->enabled = true;
 		}
 
 		double TimeElapsedInSeconds() const {
-			return difftime(time(nullptr), starting_time);
+			return std::chrono::duration<double>(std::chrono::steady_clock::now() - starting_time).count();
 		}
 
 		double TimeLeftInSeconds() const {
@@ -34,7 +35,7 @@ namespace STreeD {
 		void Disable() { enabled = false; }
 
 	private:
-		time_t starting_time;
+		std::chrono::steady_clock::time_point starting_time;
 		double time_limit_in_seconds;
 		bool enabled{ true };
 	};
-- 
2.43.0


From 218a7f17c778c20341a96b15e52556552900cdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:11:34 +0000
Subject: [PATCH 44/78] fix: raise an exception for refused parameter values
 instead of ending the process

For example a time limit above 2^31 - 1, or both a node limit and a cost
complexity, ended the Python interpreter. The command line prints the message
and still exits with status 1.
---
 src/main.cpp                    |  9 +++++++--
 src/utils/parameter_handler.cpp | 35 ++++++++++++++++++---------------
 2 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/main.cpp b/src/main.cpp
index 73a5d01..9dc903d 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -13,7 +13,13 @@ int main(int argc, char* argv[]) {
 	STreeD::ParameterHandler parameters = STreeD::ParameterHandler::DefineParameters();
 
 	if (argc > 1) {
-		parameters.ParseCommandLineArguments(argc, argv);
+		try {
+			parameters.ParseCommandLineArguments(argc, argv);
+			parameters.CheckParameters();
+		} catch (const std::invalid_argument& error) {
+			cout << error.what() << endl;
+			exit(1);
+		}
 	} else {
 		cout << "No parameters specified." << endl << endl;
 		parameters.PrintHelpSummary();
@@ -29,7 +35,6 @@ int main(int argc, char* argv[]) {
 	}
 
 
-	parameters.CheckParameters();
 	bool verbose = parameters.GetBooleanParameter("verbose");
 	
 	STreeD::AData data(int(parameters.GetIntegerParameter("max-num-features")));
diff --git a/src/utils/parameter_handler.cpp b/src/utils/parameter_handler.cpp
index 4dd8551..a7ab7fc 100644
--- a/src/utils/parameter_handler.cpp
+++ b/src/utils/parameter_handler.cpp
@@ -294,22 +294,24 @@ namespace STreeD {
         bool optional = parameters_string_[parameter_name].optional;
         if (optional && value == "") return;
         if (!allowed_values.empty() && std::find(allowed_values.begin(), allowed_values.end(), value) == allowed_values.end()) {
-            std::cout << "The passed value " << value << " is not in the list of allowed values for string parameter " << value << "\n";
-            std::cout << "Allowed values: ";
+            std::ostringstream message;
+            message << "The passed value " << value << " is not in the list of allowed values for string parameter " << parameter_name << "\n";
+            message << "Allowed values: ";
             for (size_t i = 0; i < allowed_values.size() - 1; i++) {
-                std::cout << allowed_values[i] << ", ";
+                message << allowed_values[i] << ", ";
             }
-            std::cout << allowed_values.back() << "\n";
-            exit(1);
+            message << allowed_values.back();
+            throw std::invalid_argument(message.str());
         }
     }
 
     void ParameterHandler::CheckIntegerParameter(const std::string& parameter_name, int64_t value) {
         if (parameters_integer_.count(parameter_name) == 0) { std::cout << "Need to define integer parameter " << parameter_name << " before it can be set!\n"; exit(1); }
         if (parameters_integer_[parameter_name].min_value > value || value > parameters_integer_[parameter_name].max_value) {
-            std::cout << "The passed value " << value << " is not in the allowed range for integer parameter " << parameter_name << "\n";
-            std::cout << "The allowed range is [" << parameters_integer_[parameter_name].min_value << ", " << parameters_integer_[parameter_name].max_value << "]\n";
-            exit(1);
+            std::ostringstream message;
+            message << "The passed value " << value << " is not in the allowed range for integer parameter " << parameter_name << "\n";
+            message << "The allowed range is [" << parameters_integer_[parameter_name].min_value << ", " << parameters_integer_[parameter_name].max_value << "]";
+            throw std::invalid_argument(message.str());
         }
     }
 
@@ -320,9 +322,10 @@ namespace STreeD {
     void ParameterHandler::CheckFloatParameter(const std::string& parameter_name, double value) {
         if (parameters_float_.count(parameter_name) == 0) { std::cout << "Need to define float parameter " << parameter_name << " before it can be set!\n"; exit(1); }
         if (parameters_float_[parameter_name].min_value > value || value > parameters_float_[parameter_name].max_value) {
-            std::cout << "The passed value " << value << " is not in the allowed range for float parameter " << parameter_name << "\n";
-            std::cout << "The allowed range is [" << parameters_float_[parameter_name].min_value << ", " << parameters_float_[parameter_name].max_value << "]\n";
-            exit(1);
+            std::ostringstream message;
+            message << "The passed value " << value << " is not in the allowed range for float parameter " << parameter_name << "\n";
+            message << "The allowed range is [" << parameters_float_[parameter_name].min_value << ", " << parameters_float_[parameter_name].max_value << "]";
+            throw std::invalid_argument(message.str());
         }
     }
 
@@ -330,16 +333,16 @@ namespace STreeD {
         int max_num_nodes_by_depth = int(1L << GetIntegerParameter("max-depth")) - 1;
         if (GetIntegerParameter("max-num-nodes") > max_num_nodes_by_depth)
         {
-            std::cout << "Error: The number of nodes exceeds the limit imposed by the depth!" << std::endl;
-            exit(1);
+            throw std::invalid_argument("Error: The number of nodes exceeds the limit imposed by the depth!");
         }
 
         if (GetIntegerParameter("max-num-nodes") != max_num_nodes_by_depth && GetFloatParameter("cost-complexity") >= 1e-6) {
-            std::cout << "Error: Either set the number of nodes below the limited imposed by the maximum depth (" << max_num_nodes_by_depth
+            std::ostringstream message;
+            message << "Error: Either set the number of nodes below the limited imposed by the maximum depth (" << max_num_nodes_by_depth
                 << ") or set the cost-complexity to non-zero, but not both. Current setting has max-num-nodes = "
                 << GetIntegerParameter("max-num-nodes")
-                << " and cost-complexity = " << GetFloatParameter("cost-complexity") << "." << std::endl;
-            exit(1);
+                << " and cost-complexity = " << GetFloatParameter("cost-complexity") << ".";
+            throw std::invalid_argument(message.str());
         }
     }
 }
\ No newline at end of file
-- 
2.43.0


From f54dbbd70dbb2b0777f9fe3c4f10cd3e58dd1ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:12:01 +0000
Subject: [PATCH 45/78] fix: refuse labels and features without specified costs

Scoring (or fitting) with a label that is not in the cost matrix, or with a
feature without costs, read out of bounds and crashed the process.
---
 include/tasks/cost_sensitive.h |  3 +++
 src/tasks/cost_sensitive.cpp   | 20 +++++++++++++++++++-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/tasks/cost_sensitive.h b/include/tasks/cost_sensitive.h
index 96fb69c..66969d5 100644
--- a/include/tasks/cost_sensitive.h
+++ b/include/tasks/cost_sensitive.h
@@ -59,6 +59,7 @@ namespace STreeD {
 			UpdateCostSpecifier(static_cast<const CostSensitive*>(task)->cost_specifier);
 		}
 		void InformTrainData(const ADataView& train_data, const DataSummary& train_summary);
+		void InformTestData(const ADataView& test_data, const DataSummary& test_summary);
 		void UpdateCostSpecifier(const CostSpecifier& cost_specifier) { this->cost_specifier = cost_specifier; }
 
 		double GetLeafCosts(const ADataView& data, const BranchContext& context, int label) const;
@@ -83,6 +84,8 @@ namespace STreeD {
 		inline static bool CompareScore(double score1, double score2) { return score1 < score2; } // return true if score1 is better than score2
 
 	private:	
+		void CheckCostSpecifier(const ADataView& data) const; // Check that costs are specified for every label and every feature in the data
+
 		std::string cost_filename;
 		CostSpecifier cost_specifier;
 	};
diff --git a/src/tasks/cost_sensitive.cpp b/src/tasks/cost_sensitive.cpp
index 61e7ac7..5216693 100644
--- a/src/tasks/cost_sensitive.cpp
+++ b/src/tasks/cost_sensitive.cpp
@@ -69,7 +69,8 @@ namespace STreeD {
 		std::map<std::string, std::vector<int>> group_attribute_map;
 		for(auto& fcs: feature_cost_specifiers) {
 			if (!group_attribute_map.count(fcs.group_name)) group_attribute_map[fcs.group_name];
-			runtime_assert(fcs.binary_begin <= fcs.binary_end);
+			if (fcs.binary_begin < 0 || fcs.binary_begin > fcs.binary_end)
+				throw std::invalid_argument("The feature cost specifier has an invalid range of binary features: " + fcs.ToString());
 			for (int f = fcs.binary_begin; f <= fcs.binary_end; f++) {
 				if (f >= num_features) break;
 				feature_costs[f] = fcs.feature_cost;
@@ -131,6 +132,23 @@ namespace STreeD {
 		OptimizationTask::InformTrainData(train_data, train_summary);
 		runtime_assert(cost_filename != "" || cost_specifier.IsInitialized());
 		if(cost_filename != "") cost_specifier = CostSpecifier(cost_filename, train_data.NumLabels());
+		CheckCostSpecifier(train_data);
+	}
+
+	void CostSensitive::InformTestData(const ADataView& test_data, const DataSummary& test_summary) {
+		OptimizationTask::InformTestData(test_data, test_summary);
+		CheckCostSpecifier(test_data);
+	}
+
+	void CostSensitive::CheckCostSpecifier(const ADataView& data) const {
+		const size_t num_costs = cost_specifier.misclassification_costs.size();
+		if (size_t(data.NumLabels()) > num_costs)
+			throw std::invalid_argument("The cost matrix has fewer rows than there are labels in the data.");
+		for (auto& costs : cost_specifier.misclassification_costs) {
+			if (costs.size() != num_costs) throw std::invalid_argument("The cost matrix should be square.");
+		}
+		if (size_t(data.NumFeatures()) > cost_specifier.feature_costs.size())
+			throw std::invalid_argument("The feature costs are not specified for every feature in the data.");
 	}
 
 	void CostSensitive::GetInstanceLeafD2Costs(const AInstance* instance, int org_label, int label, double& costs, int multiplier) const {
-- 
2.43.0


From f51b4c8ed74c505cb80c9f68afae680fd81aeae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:19:01 +0000
Subject: [PATCH 46/78] fix: keep the given parameters when there is nothing to
 tune

Tuning the cost complexity with fewer than ten instances has no candidate
values and crashed.
---
 src/solver/solver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 2a49cfb..e2d13c9 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -1033,6 +1033,7 @@ namespace STreeD {
 				}
 			}
 
+			if (best_config == -1) continue; // No configurations to choose from: keep the current parameters
 			if (verbose) {
 				std::cout << std::endl << "Finished hyper parameter search (phase " << (tune_phase+1) << "/" << OT::num_tune_phases << "). Best config : " <<  tuning_config.descriptors[best_config] << std::endl << std::endl;
 			}
-- 
2.43.0


From 11c23d04300eadb6e95ada2ed809b3a927313f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:19:53 +0000
Subject: [PATCH 47/78] fix: do not ask for the tree size when a fold has no
 feasible tree

Tuning with a minimum leaf node size that a fold cannot satisfy crashed.
---
 src/solver/solver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index e2d13c9..80b4196 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -1015,7 +1015,7 @@ namespace STreeD {
 						performances[c][r] = test_result->scores[test_result->best_index];
 					}
 					if(verbose) std::cout << " \tScore: " << OT::ScoreToString(performances[c][r]->score) << std::endl;
-					if (tuning_config.skip_when_max_tree && result->GetBestNodeCount() == max_num_nodes && c + 1 < n_configs) {
+					if (tuning_config.skip_when_max_tree && result->NumSolutions() > 0 && result->GetBestNodeCount() == max_num_nodes && c + 1 < n_configs) {
 						if (verbose) std::cout << "Reached maximum tree. Skipping configuration " << (c + 2) << " to " << n_configs << std::endl;
 						for (c++; c < n_configs;c++) {
 							performances[c][r] = performances[c - 1][r];
-- 
2.43.0


From e18054dc0245683e3570e034bcfdc8f67eede3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:23:41 +0000
Subject: [PATCH 48/78] fix: do not tune with fewer instances than folds

Some folds had no instances at all, which crashed the regression tasks.
---
 src/solver/solver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 80b4196..66a8b82 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -973,6 +973,7 @@ namespace STreeD {
 			const int n_runs = tuning_config.GetNumberOfRuns();
 			const int n_configs = tuning_config.GetNumberOfConfigs();
 			const double validation_percentage = tuning_config.validation_percentage;
+			if (train_data.Size() < n_runs) break; // Not enough data to create the folds: keep the current parameters
 
 			std::vector<std::vector<ScoreType>> performances(n_configs, std::vector<ScoreType>(n_runs));
 
-- 
2.43.0


From f5c869977af359882d12ae72f2bade116c1bba17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:29:44 +0000
Subject: [PATCH 49/78] fix: use the tuned cost complexity in the final fit of
 piecewise linear regression trees

---
 include/tasks/regression/piecewise_linear_regression.h | 2 ++
 src/tasks/regression/piecewise_linear_regression.cpp   | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/tasks/regression/piecewise_linear_regression.h b/include/tasks/regression/piecewise_linear_regression.h
index 914e83a..28aa223 100644
--- a/include/tasks/regression/piecewise_linear_regression.h
+++ b/include/tasks/regression/piecewise_linear_regression.h
@@ -67,6 +67,7 @@ namespace STreeD {
 		}
 		inline void UpdateParameters(const ParameterHandler& parameters) {
 			cost_complexity_parameter = parameters.GetFloatParameter("cost-complexity");
+			branching_cost = cost_complexity_parameter * scaled_cost_complexity_norm_coef;
 			lasso_penalty = parameters.GetFloatParameter("lasso-penalty");
 			ridge_penalty = parameters.GetFloatParameter("ridge-penalty");
 			min_leaf_node_size = int(parameters.GetIntegerParameter("min-leaf-node-size"));
@@ -122,6 +123,7 @@ namespace STreeD {
 		double ridge_penalty{ 0 };
 
 		double cost_complexity_parameter{ 0.01 };
+		double scaled_cost_complexity_norm_coef{ 0 };
 		double branching_cost{ 0 };
 		
 		// Similarity bound values
diff --git a/src/tasks/regression/piecewise_linear_regression.cpp b/src/tasks/regression/piecewise_linear_regression.cpp
index 2aceab0..f38fb68 100644
--- a/src/tasks/regression/piecewise_linear_regression.cpp
+++ b/src/tasks/regression/piecewise_linear_regression.cpp
@@ -183,7 +183,7 @@ namespace STreeD {
 
 		// Scale cost complexity so it has approximately the same meaning for different datasets
 		cost_complexity_norm_coef = yys - (ys * ys / N);
-		double scaled_cost_complexity_norm_coef = yys_scaled - (ys_scaled * ys_scaled / N);
+		scaled_cost_complexity_norm_coef = yys_scaled - (ys_scaled * ys_scaled / N);
 		branching_cost = cost_complexity_parameter * scaled_cost_complexity_norm_coef;
 		runtime_assert(branching_cost >= 0);
 		
-- 
2.43.0


From e4096e50cb044b266cb1baf6ff5e7de85905e6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:30 +0000
Subject: [PATCH 50/78] fix: do not treat declared categorical columns with
 only 0 and 1 also as binary columns

---
 pystreed/binarizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pystreed/binarizer.py b/pystreed/binarizer.py
index 0794dda..8209934 100644
--- a/pystreed/binarizer.py
+++ b/pystreed/binarizer.py
@@ -18,11 +18,11 @@ def get_column_types(X, categorical_columns=None):
         categorical_columns = []
     binary_columns = []
     if isinstance(X, pd.DataFrame):
-        categorical_columns = categorical_columns + [col for col in X.columns if not col in categorical_columns and not is_numeric_dtype(X[col])]
-        binary_columns = [col for col in X.columns if not set(X[col].unique()) - set([0,1])] 
+        binary_columns = [col for col in X.columns if not col in categorical_columns and not set(X[col].unique()) - set([0,1])] 
+        categorical_columns = categorical_columns + [col for col in X.columns if not col in categorical_columns and not col in binary_columns and not is_numeric_dtype(X[col])]
         continuous_columns = [col for col in X.columns if not col in categorical_columns and not col in binary_columns]
     elif isinstance(X, np.ndarray):
-        binary_columns = [col for col in range(X.shape[1]) if not set(np.unique(X[:, col])) - set([0,1])]
+        binary_columns = [col for col in range(X.shape[1]) if not col in categorical_columns and not set(np.unique(X[:, col])) - set([0,1])]
         continuous_columns = [col for col in range(X.shape[1]) if not col in categorical_columns and not col in binary_columns]
     else:
         raise ValueError("X should be either a numpy array or a pandas data frame.")
-- 
2.43.0


From a6d16d26b65bb69641b608abdf22f0d72ba49e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:36:03 +0000
Subject: [PATCH 51/78] fix: keep the threshold -2 when binarising with the
 tree strategy

---
 pystreed/binarizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystreed/binarizer.py b/pystreed/binarizer.py
index 8209934..b577bd4 100644
--- a/pystreed/binarizer.py
+++ b/pystreed/binarizer.py
@@ -318,7 +318,7 @@ class KThresholdBinarizer(BaseEstimator, TransformerMixin):
                 #error_function = 'accuracy' if is_classification else "neg_mean_squared_error"
                 model = Ml_model(max_leaf_nodes=n_thresholds[jj] + 1)
                 model.fit(_X, y)
-                cutpoints = sorted([t for t in model.tree_.threshold if t != sklearn.tree._tree.TREE_UNDEFINED])
+                cutpoints = sorted([t for f, t in zip(model.tree_.feature, model.tree_.threshold) if f != sklearn.tree._tree.TREE_UNDEFINED])
             n_thresholds[jj] = len(cutpoints)
             thresholds.append(cutpoints)
             column_names.append([f"{column_name} <= {c}" for c in cutpoints])
-- 
2.43.0


From de16899cb80c1a56270cd7d9368e5888440ea2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:38:52 +0000
Subject: [PATCH 52/78] fix: keep the most common categories when binarising
 categorical columns

---
 pystreed/binarizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pystreed/binarizer.py b/pystreed/binarizer.py
index b577bd4..8c0b4c1 100644
--- a/pystreed/binarizer.py
+++ b/pystreed/binarizer.py
@@ -179,7 +179,8 @@ class CategoricalBinarizer(BaseEstimator, TransformerMixin):
                 column_names.append([])
                 continue
             elif n_categories[jj] == 2 or len(counter) == 2:
-                value = counter.most_common(2)[1][0] # get the key of the second most common value
+                # get the key of the second most common value, or of the most common value if all other values are combined
+                value = counter.most_common(2)[1 if len(counter) == 2 else 0][0]
                 n_categories[jj] = 1
                 categories.append([value])
                 escaped_value = _escape(value)
@@ -188,7 +189,7 @@ class CategoricalBinarizer(BaseEstimator, TransformerMixin):
                 else:
                     column_names.append([f"{column_name} == {value}"])
                 continue
-            values = list(counter.keys())
+            values = [value for value, _ in counter.most_common()]
             if len(values) > n_categories[jj]:
                 values = values[:n_categories[jj] - 1] + [values[n_categories[jj] - 1:]]
             n_categories[jj] = len(values)
-- 
2.43.0


From ac1c5818092c1a65192ec5c15a4b3550a5429789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:43:43 +0000
Subject: [PATCH 53/78] fix: stop with an error when a data or cost file cannot
 be read

The check was an assertion that is only active in debug builds, so the
program continued without data.
---
 src/tasks/cost_sensitive.cpp | 2 +-
 src/utils/file_reader.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tasks/cost_sensitive.cpp b/src/tasks/cost_sensitive.cpp
index 5216693..58fdf2d 100644
--- a/src/tasks/cost_sensitive.cpp
+++ b/src/tasks/cost_sensitive.cpp
@@ -13,7 +13,7 @@ namespace STreeD {
 
 	CostSpecifier::CostSpecifier(const std::string& cost_filename, int num_labels) {
 		std::ifstream file(cost_filename.c_str());
-		if (!file) { std::cout << "Error: File " << cost_filename << " does not exist!\n"; runtime_assert(file); }
+		if (!file) { std::cout << "Error: File " << cost_filename << " does not exist!\n"; exit(1); }
 		std::string line;
 		size_t line_no = -1;
 		
diff --git a/src/utils/file_reader.cpp b/src/utils/file_reader.cpp
index c6af07f..97959ef 100644
--- a/src/utils/file_reader.cpp
+++ b/src/utils/file_reader.cpp
@@ -82,7 +82,7 @@ namespace STreeD {
 		
 		std::ifstream file(filename.c_str());
 
-		if (!file) { std::cout << "Error: File " << filename << " does not exist!\n"; runtime_assert(file); }
+		if (!file) { std::cout << "Error: File " << filename << " does not exist!\n"; exit(1); }
 
 		std::string line;
 		int id = initial_id;
-- 
2.43.0


From 6f0b7c56646379ce00be91ff782a00dc115673e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:43:43 +0000
Subject: [PATCH 54/78] fix: skip blank lines in data files

A blank line was read as an instance with undefined feature values.
---
 src/utils/file_reader.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utils/file_reader.cpp b/src/utils/file_reader.cpp
index 97959ef..70d9a09 100644
--- a/src/utils/file_reader.cpp
+++ b/src/utils/file_reader.cpp
@@ -95,6 +95,7 @@ namespace STreeD {
 		if (!include_all) {
 			available_instances = 0;
 			while (std::getline(file, line)) {
+				if (line.find_first_not_of(" \t\r") == std::string::npos) continue; // skip blank lines
 				available_instances++;
 			}
 			file.clear();
@@ -112,10 +113,13 @@ namespace STreeD {
 
 		std::vector<const AInstance*> instances;
 		int line_no = -1;
+		int instance_no = -1;
 		int indices_no = 0;
 		while (std::getline(file, line)) {
-			line_no++;			
-			if (!include_all && line_no != indices[indices_no]) continue;
+			line_no++;
+			if (line.find_first_not_of(" \t\r") == std::string::npos) continue; // skip blank lines
+			instance_no++;
+			if (!include_all && instance_no != indices[indices_no]) continue;
 			indices_no++;
 
 			std::istringstream iss(line);
-- 
2.43.0


From 44c86ba30b860022525492c4a61f973beae4a118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:43:43 +0000
Subject: [PATCH 55/78] fix: read the features in data files by symbol and
 refuse lines that do not fit

The number of features was derived from the length of the first line, so
additional white space changed it, and lines with fewer features or an
unreadable label were read as undefined values.
---
 src/utils/file_reader.cpp | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/src/utils/file_reader.cpp b/src/utils/file_reader.cpp
index 70d9a09..67ce72c 100644
--- a/src/utils/file_reader.cpp
+++ b/src/utils/file_reader.cpp
@@ -131,22 +131,28 @@ namespace STreeD {
 			// Read extra instance data
 			auto extra_data = ET::ReadData(iss, num_extra_cols);
 
-			std::getline(iss, line);
-			runtime_assert(num_features == INT32_MAX || num_features == int((line.size()) / 2) || num_features == max_num_features);
-			if (num_features == INT32_MAX) { num_features = int((line.size()) / 2); }
-			num_features = std::min(num_features, max_num_features);
-			iss = std::istringstream(line);
-
-			std::vector<bool> v(num_features);
-			for (int i = 0; i < num_features; i++) {
-				uint32_t temp;
-				iss >> temp;
-				if (temp != 0 && temp != 1) {
-					std::cout << "Error: Encountered unexpected non-binary symbol '" << temp << "' at line " << line_no << " in " << filename << "." << std::endl;
+			if (iss.fail()) {
+				std::cout << "Error: Could not read the label or the extra columns at line " << line_no << " in " << filename << "." << std::endl;
+				exit(1);
+			}
+
+			std::vector<bool> v;
+			std::string symbol;
+			int num_columns = 0;
+			while (iss >> symbol) {
+				num_columns++;
+				if (num_columns > max_num_features) continue;
+				if (symbol != "0" && symbol != "1") {
+					std::cout << "Error: Encountered unexpected non-binary symbol '" << symbol << "' at line " << line_no << " in " << filename << "." << std::endl;
 					exit(1);
 				}
-				if (i >= data.NumFeatures()) continue;
-				v[i] = temp;
+				v.push_back(symbol == "1");
+			}
+			num_columns = std::min(num_columns, max_num_features);
+			if (num_features == INT32_MAX) { num_features = num_columns; }
+			if (num_features != num_columns) {
+				std::cout << "Error: Expected " << num_features << " features but found " << num_columns << " at line " << line_no << " in " << filename << "." << std::endl;
+				exit(1);
 			}
 
 			for (int i = 0; i < duplicate_instances_factor; i++) {
-- 
2.43.0


From 30f73ce9e5e1d749d4b4e52849f44d85ac1cfcad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:43:43 +0000
Subject: [PATCH 56/78] fix: refuse unreadable and missing parameter values on
 the command line

A value that is not a number was silently replaced by zero, and a
parameter without a value made the program crash.
---
 src/utils/parameter_handler.cpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/utils/parameter_handler.cpp b/src/utils/parameter_handler.cpp
index a7ab7fc..67687af 100644
--- a/src/utils/parameter_handler.cpp
+++ b/src/utils/parameter_handler.cpp
@@ -151,28 +151,34 @@ namespace STreeD {
         parameters_float_[parameter_name].current_value = new_value;
     }
 
+    template <typename V>
+    V ParseValue(const std::string& name, const std::string& text) {
+        V value;
+        std::stringstream stream(text);
+        if (!(stream >> value) || !(stream >> std::ws).eof()) {
+            std::cout << "Parsing error: '" << text << "' is not a valid value for the parameter " << name << std::endl;
+            exit(1);
+        }
+        return value;
+    }
+
     void ParameterHandler::ParseCommandLineArguments(int argc, char* argv[]) {
         for (int i = 1; i < argc; i += 2) {
             if (argv[i][0] != '-') { std::cout << "Parsing error: expected a parameter name with a '-' in the beggining, instead found this: " << argv[i][0] << std::endl; exit(1); }
             std::string name(argv[i] + 1); //skip the zero position character since it is expected to be a '-' character
+            if (i + 1 >= argc) { std::cout << "Parsing error: no value is given for the parameter " << name << std::endl; exit(1); }
 
             if (parameters_string_.count(name) == 1) {
                 std::string value = argv[i + 1];
                 SetStringParameter(name, value);
             } else if (parameters_integer_.count(name) == 1) {
-                //todo check if the string is actually an integer
-                int64_t value;
-                std::stringstream(argv[i + 1]) >> value;
+                int64_t value = ParseValue<int64_t>(name, argv[i + 1]);
                 SetIntegerParameter(name, value);
             } else if (parameters_boolean_.count(name) == 1) {
-                //todo check if the string is actually a Boolean
-                bool value;
-                std::stringstream(argv[i + 1]) >> value;
+                bool value = ParseValue<bool>(name, argv[i + 1]);
                 SetBooleanParameter(name, value);
             } else if (parameters_float_.count(name) == 1) {
-                //todo check if the string is actually a floating point number
-                double value;
-                std::stringstream(argv[i + 1]) >> value;
+                double value = ParseValue<double>(name, argv[i + 1]);
                 SetFloatParameter(name, value);
             } else {
                 std::cout << "Unknown parameter: " << name << std::endl; exit(1);
-- 
2.43.0


From 944248343804bf1d9624f3e072bc715b5a62c34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:44:10 +0000
Subject: [PATCH 57/78] fix: allow a stratified train-test split of fewer than
 ten regression instances

The size of the bins was zero, so that the program stopped with a division
by zero.
---
 src/model/data.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/model/data.cpp b/src/model/data.cpp
index a1a0988..60c93c6 100644
--- a/src/model/data.cpp
+++ b/src/model/data.cpp
@@ -78,7 +78,7 @@ namespace STreeD {
 					return GetInstanceLabel<double>(i1) > GetInstanceLabel<double>(i2);
 				});
 				int i = 0;
-				int bin_size = int(instances.size()) / _num_labels;
+				int bin_size = std::max(1, int(instances.size()) / _num_labels);
 				for (auto& instance : instances) {
 					all_label_indices[std::min(i++ / bin_size, _num_labels-1)].push_back(instance->GetID());
 				}
@@ -195,7 +195,7 @@ namespace STreeD {
 					return GetInstanceLabel<double>(i1) > GetInstanceLabel<double>(i2);
 				});
 				int i = 0;
-				int bin_size = int(instances.size()) / _num_labels;
+				int bin_size = std::max(1, int(instances.size()) / _num_labels);
 				for (auto& instance : instances) {
 					all_label_indices[std::min(i++ / bin_size, _num_labels - 1)].push_back(instance->GetID());
 				}
-- 
2.43.0


From 5ec9a56ea46335683d107589b5d6fe37a224ede4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:44:10 +0000
Subject: [PATCH 58/78] fix: refuse negative labels in data files instead of
 crashing

---
 src/utils/file_reader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/utils/file_reader.cpp b/src/utils/file_reader.cpp
index 67ce72c..435ade3 100644
--- a/src/utils/file_reader.cpp
+++ b/src/utils/file_reader.cpp
@@ -68,6 +68,10 @@ namespace STreeD {
 				instances_per_label[0].push_back(instance);
 			} else {
 				int i_label = GetInstanceLabel<int>(instance);
+				if (i_label < 0) {
+					std::cout << "Error: Encountered the negative label " << i_label << "." << std::endl;
+					exit(1);
+				}
 				if (instances_per_label.size() <= i_label) { instances_per_label.resize(i_label + 1); }
 				instances_per_label[i_label].push_back(instance);
 			}
-- 
2.43.0


From f836451b030eb423af14edd705df59b27ce3e9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:45:16 +0000
Subject: [PATCH 59/78] fix: do not reuse results across paths when the
 branching costs depend on the path

The costs of a subtree in cost-sensitive classification depend on the tests
before it. Dataset caching and the similarity lower bound ignore this, so
the command line program, which enables both by default, returned
non-optimal trees. The Python package always disables both for this task.
---
 src/solver/solver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 66a8b82..f90cb7a 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -274,13 +274,16 @@ namespace STreeD {
 		if (cache != nullptr) delete cache;
 		cache = new Cache<OT>(parameters, MAX_DEPTH, train_data.Size());
 		if (!solver_parameters.use_lower_bounding) cache->DisableLowerBoundCaching();
+		// Branching costs that depend on the path cannot be reused for the same data at another path
+		constexpr bool path_dependent_costs = OT::has_branching_costs && !OT::constant_branching_costs;
+		if (path_dependent_costs) cache->DisableDatasetCaching();
 		// Only use the similarity lower bound computer if the optimization task is element-wise additive
 		if constexpr (OT::element_additive) {
 			if (similarity_lower_bound_computer != nullptr) delete similarity_lower_bound_computer;
 			similarity_lower_bound_computer = new SimilarityLowerBoundComputer<OT>(task,
 				NumLabels(), MAX_DEPTH, int(parameters.GetIntegerParameter("max-num-nodes")), train_data.Size(),
 				solver_parameters.minimum_leaf_node_size);
-			if (!solver_parameters.similarity_lb) similarity_lower_bound_computer->Disable();
+			if (!solver_parameters.similarity_lb || path_dependent_costs) similarity_lower_bound_computer->Disable();
 		} else {
 			solver_parameters.similarity_lb = false;
 		}
-- 
2.43.0


From b9b3232e8493be106fba1bb01cfb2be4f391a5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:53:19 +0000
Subject: [PATCH 60/78] fix: give instances and solvers virtual destructors

Both are deleted through a pointer to their base class, which is undefined
and leaks the members of the derived classes.
---
 include/model/data.h    | 1 +
 include/solver/solver.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/model/data.h b/include/model/data.h
index bbbfd79..8e9a660 100644
--- a/include/model/data.h
+++ b/include/model/data.h
@@ -18,6 +18,7 @@ namespace STreeD {
 	public:
 		AInstance() = delete;
 		AInstance(int id, const std::vector<bool>& feature_vector) : id(id), features(feature_vector, id), weight(1.0) {}
+		virtual ~AInstance() = default;
 
 		// The unique identifier of this instance
 		inline const int GetID() const { return id; }
diff --git a/include/solver/solver.h b/include/solver/solver.h
index c080397..64e5d3e 100644
--- a/include/solver/solver.h
+++ b/include/solver/solver.h
@@ -59,6 +59,7 @@ namespace STreeD {
 	class AbstractSolver {
 	public:
 		AbstractSolver(ParameterHandler& parameters, std::default_random_engine* rng);
+		virtual ~AbstractSolver() = default;
 		void UpdateParameters(const ParameterHandler& parameters);
 		inline const ParameterHandler& GetParameters() const { return parameters; }
 		virtual std::shared_ptr<SolverResult> Solve(const ADataView& train_data) = 0;
-- 
2.43.0


From b12940f69654aa1a319bf2a8244de867dfbd5b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:57:28 +0000
Subject: [PATCH 61/78] fix: do not overflow when counting the nodes of a lower
 bound

The nodes of a lower bound are unknown and counted as INT32_MAX, so the sum
for both children did not fit in an int.
---
 include/model/node.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/model/node.h b/include/model/node.h
index 80ff0e7..2417b60 100644
--- a/include/model/node.h
+++ b/include/model/node.h
@@ -31,7 +31,7 @@ namespace STreeD {
 		}
 
 		// Return the number of branching nodes in the tree with this node as its root (including this node)
-		inline int NumNodes() const { return feature == INT32_MAX ? 0 : num_nodes_left + num_nodes_right + 1; }
+		inline int NumNodes() const { return feature == INT32_MAX ? 0 : int(int64_t(num_nodes_left) + num_nodes_right + 1); }
 		
 		// Return True if this node is infeasible (solution == OT::worst)
 		inline bool IsInfeasible() const { return !IsFeasible(); }
-- 
2.43.0


From d9fcfb1eea0d5135f8abf580faa6631678b2160b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:57:28 +0000
Subject: [PATCH 62/78] fix: do not overflow in the F1 score of an infeasible
 solution

The worst solution has INT32_MAX errors of both kinds. Their sum overflowed
to -2, which gave a fold without a feasible tree an almost perfect score.
---
 src/tasks/f1score.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tasks/f1score.cpp b/src/tasks/f1score.cpp
index 3a1079d..30a2166 100644
--- a/src/tasks/f1score.cpp
+++ b/src/tasks/f1score.cpp
@@ -13,9 +13,9 @@ namespace STreeD {
 
 	double F1Score::ComputeTrainScore(const F1ScoreSol& train_value) const {
 		runtime_assert(train_summary.instances_per_class.size() == 2);
-		int fp = train_value.false_positives;
-		int fn = train_value.false_negatives;
-		int tp = train_summary.instances_per_class[1] - fn;
+		double fp = train_value.false_positives;
+		double fn = train_value.false_negatives;
+		double tp = train_summary.instances_per_class[1] - fn;
 		if (tp + fp + fn == 0) return 0; // No positives and no positive predictions
 		double result = tp / (tp + 0.5 * (fp + fn));
 		runtime_assert(result >= -1e-6 && result <= 1 + 1e-6);
@@ -28,9 +28,9 @@ namespace STreeD {
 
 	double F1Score::ComputeTestTestScore(const F1ScoreSol& test_value) const {
 		runtime_assert(test_summary.instances_per_class.size() == 2);
-		int fp = test_value.false_positives;
-		int fn = test_value.false_negatives;
-		int tp = test_summary.instances_per_class[1] - fn;
+		double fp = test_value.false_positives;
+		double fn = test_value.false_negatives;
+		double tp = test_summary.instances_per_class[1] - fn;
 		if (tp + fp + fn == 0) return 0; // No positives and no positive predictions
 		double result = tp / (tp + 0.5 * (fp + fn));
 		runtime_assert(result >= -1e-6 && result <= 1 + 1e-6);
-- 
2.43.0


From 51177d31fb8ec7becd1550918d4482c6c518737f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:57:28 +0000
Subject: [PATCH 63/78] fix: do not overflow in the distance between fairness
 solutions

The squared difference with the worst solution does not fit in an int.
---
 include/tasks/eq_opp.h         | 2 +-
 include/tasks/group_fairness.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tasks/eq_opp.h b/include/tasks/eq_opp.h
index 03608d7..0b5eed2 100644
--- a/include/tasks/eq_opp.h
+++ b/include/tasks/eq_opp.h
@@ -143,7 +143,7 @@ namespace STreeD {
 		}
 
 		inline static double CalcDiff(const EqOppSol& s1, const EqOppSol& s2) {
-			return (s1.misclassifications - s2.misclassifications) * (s1.misclassifications - s2.misclassifications)
+			return double(s1.misclassifications - s2.misclassifications) * (s1.misclassifications - s2.misclassifications)
 				+ std::abs(s1.group0_score - s2.group0_score) * 100
 				+ std::abs(s1.group1_score - s2.group1_score) * 100;
 		}
diff --git a/include/tasks/group_fairness.h b/include/tasks/group_fairness.h
index ce278ad..b062396 100644
--- a/include/tasks/group_fairness.h
+++ b/include/tasks/group_fairness.h
@@ -143,7 +143,7 @@ namespace STreeD {
 		}
 
 		inline static double CalcDiff(const GroupFairnessSol& s1, const GroupFairnessSol& s2) {
-			return (s1.misclassifications - s2.misclassifications) * (s1.misclassifications - s2.misclassifications)
+			return double(s1.misclassifications - s2.misclassifications) * (s1.misclassifications - s2.misclassifications)
 				+ std::abs(s1.group0_score - s2.group0_score) * 100
 				+ std::abs(s1.group1_score - s2.group1_score) * 100;
 		}
-- 
2.43.0


From 7383c06a9372e2d5ac672450363fa3ff7558f632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:24:26 +0000
Subject: [PATCH 64/78] fix: forget the previous tree when a new fit fails

A fit that raised an exception after the solver was replaced left the tree
of the previous fit in place. Predicting with it and the new, unused solver
ended the process.
---
 pystreed/base.py       | 5 +++--
 pystreed/regression.py | 6 +++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/pystreed/base.py b/pystreed/base.py
index b7ded55..231e2f9 100644
--- a/pystreed/base.py
+++ b/pystreed/base.py
@@ -253,6 +253,9 @@ class BaseSTreeDSolver(BaseEstimator):
         Raises:
             ValueError: If x or y is None or if they have different number of rows.
         """
+        # Forget the tree of a previous fit: it cannot be used with the new solver and data
+        for attribute in ["fit_result", "tree_"]:
+            if hasattr(self, attribute): delattr(self, attribute)
         # Validate params and data
         self._validate_params()
         X = self._binarize_data(X, y, categorical)
@@ -280,8 +283,6 @@ class BaseSTreeDSolver(BaseEstimator):
         if not self.fit_result.is_feasible():
             warnings.warn("No feasible tree found.", stacklevel=2)
             delattr(self, "fit_result")
-            # Also remove the tree of a previous fit
-            if hasattr(self, "tree_"): delattr(self, "tree_")
         else:
             self.tree_ = self._solver._get_tree(self.fit_result)
 
diff --git a/pystreed/regression.py b/pystreed/regression.py
index 0aae9d9..25f7bb4 100644
--- a/pystreed/regression.py
+++ b/pystreed/regression.py
@@ -216,14 +216,14 @@ class STreeDPiecewiseLinearRegressor(BaseSTreeDSolver):
             cont_cols = continuous_columns.values
         else:
             raise ValueError(f"X should be a numpy array or a pandas data frame. X.type = {type(X)}")
-        if reset:
-            self.n_continuous_columns_ = cont_cols.shape[1]
-        elif self.n_continuous_columns_ != cont_cols.shape[1]:
+        if not reset and self.n_continuous_columns_ != cont_cols.shape[1]:
             raise ValueError(f"Expected {self.n_continuous_columns_} continuous columns, but found {cont_cols.shape[1]}.")
         if self.simple:
             extra_data = [SimpleContinuousFeatureData(list(row)) for row in cont_cols]
         else:
             extra_data = [ContinuousFeatureData(list(row)) for row in cont_cols]
+        if reset:
+            self.n_continuous_columns_ = cont_cols.shape[1]
         return extra_data
 
     def fit(self, X, y, continuous_columns=None, categorical_columns=None):
-- 
2.43.0


From 1c4d6edafc65c1aa576ab8457dddf2cd2323c6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:26:11 +0000
Subject: [PATCH 65/78] fix: refuse other labels than 0 and 1 for binary
 classification tasks

Other labels made the F1-score and fairness tasks read out of bounds. The
command line program now also reports refused data with a message instead of
ending with an uncaught exception.
---
 include/tasks/optimization_task.h |  1 +
 src/main.cpp                      | 14 ++++++--------
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/include/tasks/optimization_task.h b/include/tasks/optimization_task.h
index df8ec33..646e229 100644
--- a/include/tasks/optimization_task.h
+++ b/include/tasks/optimization_task.h
@@ -113,6 +113,7 @@ namespace STreeD {
 	protected:
 		// Binary classification tasks need both labels, also if all instances have label zero
 		inline static void ResizeToTwoLabels(ADataView& data) {
+			if (data.NumLabels() > 2) throw std::invalid_argument("The labels should be 0 or 1.");
 			if (data.NumLabels() < 2) data.GetMutableInstances().resize(2);
 		}
 	};
diff --git a/src/main.cpp b/src/main.cpp
index 9dc903d..7f95f81 100644
--- a/src/main.cpp
+++ b/src/main.cpp
@@ -9,17 +9,12 @@ https://bitbucket.org/EmirD/murtree
 
 using namespace std;
 
-int main(int argc, char* argv[]) {
+int main(int argc, char* argv[]) try {
 	STreeD::ParameterHandler parameters = STreeD::ParameterHandler::DefineParameters();
 
 	if (argc > 1) {
-		try {
-			parameters.ParseCommandLineArguments(argc, argv);
-			parameters.CheckParameters();
-		} catch (const std::invalid_argument& error) {
-			cout << error.what() << endl;
-			exit(1);
-		}
+		parameters.ParseCommandLineArguments(argc, argv);
+		parameters.CheckParameters();
 	} else {
 		cout << "No parameters specified." << endl << endl;
 		parameters.PrintHelpSummary();
@@ -135,5 +130,8 @@ int main(int argc, char* argv[]) {
 	delete solver;
 
 	cout << endl << "STreeD closed successfully!" << endl;
+} catch (const std::invalid_argument& error) {
+	cout << error.what() << endl;
+	return 1;
 }
 
-- 
2.43.0


From a44f097f5206c76890a598a7961f89704717aaf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:31:17 +0000
Subject: [PATCH 66/78] fix: do not overflow in the distance between F1-score
 solutions

The squared difference with the worst solution does not fit in an int.
---
 include/tasks/f1score.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/tasks/f1score.h b/include/tasks/f1score.h
index 46a13a9..09ebd1a 100644
--- a/include/tasks/f1score.h
+++ b/include/tasks/f1score.h
@@ -97,8 +97,8 @@ namespace STreeD {
 		}
 
 		inline static double CalcDiff(const F1ScoreSol& s1, const F1ScoreSol& s2) {
-			return (s1.false_negatives - s2.false_negatives) * (s1.false_negatives - s2.false_negatives)
-				+ (s1.false_positives - s2.false_positives) * (s1.false_positives - s2.false_positives);
+			return double(s1.false_negatives - s2.false_negatives) * (s1.false_negatives - s2.false_negatives)
+				+ double(s1.false_positives - s2.false_positives) * (s1.false_positives - s2.false_positives);
 		}
 
 		inline static void Merge(const F1ScoreSol& s1, const F1ScoreSol& s2, F1ScoreSol& out) {
-- 
2.43.0


From 4cf2ee1a0edff72a2b3d705bba46d04735758efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:45:39 +0000
Subject: [PATCH 67/78] fix: print and export trees with feature names that
 contain a comparison

Names such as "income <= 50k" or "0 <= age <= 30" raised an exception.
---
 pystreed/base.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pystreed/base.py b/pystreed/base.py
index 231e2f9..1be9ea3 100644
--- a/pystreed/base.py
+++ b/pystreed/base.py
@@ -395,9 +395,12 @@ class BaseSTreeDSolver(BaseEstimator):
             return f"Feature {feature}"
         feature_name = feature_names[feature]
         if " <= " in feature_name:
-            feature_name, threshold = feature_name.split(" <= ")
+            feature_name, threshold = feature_name.rsplit(" <= ", 1)
             if len(threshold) >= 3:
-                threshold = _dynamic_float_formatter(float(threshold))
+                try:
+                    threshold = _dynamic_float_formatter(float(threshold))
+                except ValueError: # Not a number, but part of a name
+                    pass
             return f"{feature_name} {self.__comparator} {threshold}"
         return feature_name
 
-- 
2.43.0


From e0071af0838ec33e308815425c68c7d419ab2990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:45:39 +0000
Subject: [PATCH 68/78] fix: write valid colours for exported
 instance-cost-sensitive trees

---
 pystreed/instance_cost_sensitive_classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystreed/instance_cost_sensitive_classification.py b/pystreed/instance_cost_sensitive_classification.py
index 9801ffd..b6f75c6 100644
--- a/pystreed/instance_cost_sensitive_classification.py
+++ b/pystreed/instance_cost_sensitive_classification.py
@@ -208,7 +208,7 @@ class STreeDInstanceCostSensitiveClassifier(BaseSTreeDSolver):
                 alpha = (sorted_costs[1] - sorted_costs[0]) / (sorted_costs[1])
         color = [int(round(alpha * c + (1 - alpha) * 255, 0)) for c in color]
         # Return html color code in #RRGGBB format
-        return "#%2x%2x%2x" % tuple(color)
+        return "#%02x%02x%02x" % tuple(color)
 
     def _export_bar_plot(self, fh, node_id, label_names, train_data, text_prefix=""):
         import matplotlib.pyplot as plt
-- 
2.43.0


From 3a141afec404c0deb384d7897872c1027b57d8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:45:39 +0000
Subject: [PATCH 69/78] fix: name the user's columns in printed and exported
 fair trees

The sensitive feature is moved to the front before training, so the printed
feature numbers and the user's feature names were off by one column.
---
 pystreed/group_fair.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pystreed/group_fair.py b/pystreed/group_fair.py
index cf9d376..846283a 100644
--- a/pystreed/group_fair.py
+++ b/pystreed/group_fair.py
@@ -128,6 +128,8 @@ class STreeDGroupFairnessClassifier(BaseSTreeDSolver):
             ValueError: If x or y is None or if they have different number of rows.
         """
         self.n_classes_ = len(np.unique(y))
+        self._sensitive_column = list(X.columns).index(self.sensitive_feature) if isinstance(self.sensitive_feature, str) \
+            and isinstance(X, pd.DataFrame) and self.sensitive_feature in X.columns else self.sensitive_feature
         X = self._move_sensitive_feature_first(X)
         return super().fit(X, y, categorical=categorical)
     
@@ -181,6 +183,14 @@ class STreeDGroupFairnessClassifier(BaseSTreeDSolver):
         X = self._move_sensitive_feature_first(X)
         return super().get_question_length(X, y_true)
 
+    def _get_predicate_str(self, feature, feature_names=None):
+        # The sensitive feature is moved to the front of the data, but the user's columns and names are in the original order
+        names_of_data = feature_names is not None and feature_names is getattr(self, "feature_names_in_", None)
+        if not names_of_data and len(self.binarizer_.binary_columns) == self.n_features_in_:
+            if feature == 0: feature = self._sensitive_column
+            elif feature <= self._sensitive_column: feature -= 1
+        return super()._get_predicate_str(feature, feature_names)
+
     def _export_dot_leaf_node(self, fh, node, node_id, label_names, train_data):
         color = self._get_label_color(node.label)
         return super()._export_dot_leaf_node(fh, node, node_id, label_names, train_data, color=color)
\ No newline at end of file
-- 
2.43.0


From 01bb27383b97a4c87a9ce455def86984526dbc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:54:12 +0000
Subject: [PATCH 70/78] fix: let set_params switch between linear and simple
 linear leaves

The task of the linear regressor was chosen in the constructor only. Setting
the parameter 'simple' later, as grid searches do, made fit fail with a
TypeError because data and solver no longer matched.
---
 pystreed/regression.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pystreed/regression.py b/pystreed/regression.py
index 25f7bb4..781287a 100644
--- a/pystreed/regression.py
+++ b/pystreed/regression.py
@@ -182,6 +182,7 @@ class STreeDPiecewiseLinearRegressor(BaseSTreeDSolver):
         self._reset_parameters.append("ridge_penalty")
 
     def _initialize_param_handler(self):
+        self.optimization_task = "simple-linear-regression" if self.simple else "piecewise-linear-regression"
         super()._initialize_param_handler()
         self._params.lasso_penalty = self.lasso_penalty
         self._params.ridge_penalty = self.ridge_penalty
-- 
2.43.0


From bf08ec9350dd034813c1ec95e8bad2477466d3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:43:51 +0000
Subject: [PATCH 71/78] fix: count the cost of correct labels in leaves outside
 the terminal solver

---
 src/tasks/cost_sensitive.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tasks/cost_sensitive.cpp b/src/tasks/cost_sensitive.cpp
index 58fdf2d..b3b5a4e 100644
--- a/src/tasks/cost_sensitive.cpp
+++ b/src/tasks/cost_sensitive.cpp
@@ -158,7 +158,6 @@ namespace STreeD {
 	double CostSensitive::GetLeafCosts(const ADataView& data, const BranchContext& context, int label) const { 
 		double error = 0;
 		for (int k = 0; k < data.NumLabels(); k++) {
-			if (k == label) continue;
 			error += data.NumInstancesForLabel(k) * cost_specifier.misclassification_costs[k][label];
 		}
 		return error;
-- 
2.43.0


From 9ea5ea378875c1dcef7b153876c3e8cd86977735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:44:11 +0000
Subject: [PATCH 72/78] fix: report missing and malformed cost files as errors

---
 src/tasks/cost_sensitive.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/tasks/cost_sensitive.cpp b/src/tasks/cost_sensitive.cpp
index b3b5a4e..183d385 100644
--- a/src/tasks/cost_sensitive.cpp
+++ b/src/tasks/cost_sensitive.cpp
@@ -13,13 +13,14 @@ namespace STreeD {
 
 	CostSpecifier::CostSpecifier(const std::string& cost_filename, int num_labels) {
 		std::ifstream file(cost_filename.c_str());
-		if (!file) { std::cout << "Error: File " << cost_filename << " does not exist!\n"; exit(1); }
+		if (!file) throw std::invalid_argument("Error: File " + cost_filename + " does not exist!");
 		std::string line;
 		size_t line_no = -1;
 		
 		misclassification_costs = std::vector<std::vector<double>>(num_labels, std::vector<double>(num_labels));
 		std::vector<FeatureCostSpecifier> feature_cost_specifiers;
 		while (std::getline(file, line)) {
+			if (line.find_first_not_of(" \t\r") == std::string::npos) continue; // skip blank lines
 			line_no++;
 			std::istringstream iss(line);
 			double temp;
@@ -44,9 +45,11 @@ namespace STreeD {
 				iss >> discount_group;
 				iss >> binarize_begin_ix;
 				iss >> binarize_end_ix;
-				feature_cost_specifiers.emplace_back(test_cost, discount_cost, discount_group, binarize_begin_ix, binarize_end_ix);
+				if (!iss.fail()) feature_cost_specifiers.emplace_back(test_cost, discount_cost, discount_group, binarize_begin_ix, binarize_end_ix);
 			}
+			if (iss.fail()) throw std::invalid_argument("Error: Could not read the costs at line " + std::to_string(line_no) + " in " + cost_filename + ".");
 		}
+		if (int(line_no) + 1 < num_labels) throw std::invalid_argument("Error: Expected " + std::to_string(num_labels) + " lines with misclassification costs in " + cost_filename + ".");
 		Initialize(feature_cost_specifiers);
 	}
 
-- 
2.43.0


From b1d7bd7b00621809b842abe81557ff500fad1e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:29:47 +0000
Subject: [PATCH 73/78] fix: do not let predict and score replace the
 continuous columns of the fit

---
 pystreed/regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pystreed/regression.py b/pystreed/regression.py
index 781287a..a6553f8 100644
--- a/pystreed/regression.py
+++ b/pystreed/regression.py
@@ -204,7 +204,7 @@ class STreeDPiecewiseLinearRegressor(BaseSTreeDSolver):
             if len(continuous_columns) == 0:
                 raise ValueError("Provide continuous columns.")
         if isinstance(continuous_columns, list): # column names
-            self.continuous_columns_ = continuous_columns
+            if reset: self.continuous_columns_ = continuous_columns
             if isinstance(X, np.ndarray):
                 cont_cols = X[:, continuous_columns]
             elif isinstance(X, pd.DataFrame):
-- 
2.43.0


From d76f73e4d5ab96a60f40ccc48a1a697a6c4763ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:35:34 +0000
Subject: [PATCH 74/78] fix: refuse instances without a cost or predicted
 outcome for every label

---
 src/tasks/instance_cost_sensitive.cpp | 6 ++++++
 src/tasks/prescriptive_policy.cpp     | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/src/tasks/instance_cost_sensitive.cpp b/src/tasks/instance_cost_sensitive.cpp
index d798bb0..b9040f3 100644
--- a/src/tasks/instance_cost_sensitive.cpp
+++ b/src/tasks/instance_cost_sensitive.cpp
@@ -12,6 +12,12 @@ namespace STreeD {
             break;
         }
         if (num_labels > data.NumLabels()) data.GetMutableInstances().resize(num_labels);
+        for (int k = 0; k < data.NumLabels(); k++) {
+            for (auto i : data.GetInstancesForLabel(k)) {
+                if (GetInstanceExtraData<int, InstanceCostSensitiveData>(i).NumLabels() < data.NumLabels())
+                    throw std::invalid_argument("Every instance should have a cost for each label.");
+            }
+        }
     }
 
     void InstanceCostSensitive::PreprocessTrainData(ADataView& train_data) {
diff --git a/src/tasks/prescriptive_policy.cpp b/src/tasks/prescriptive_policy.cpp
index 645acd4..19654d7 100644
--- a/src/tasks/prescriptive_policy.cpp
+++ b/src/tasks/prescriptive_policy.cpp
@@ -52,6 +52,8 @@ namespace STreeD {
 			for (auto& i : train_data.GetInstancesForLabel(k)) {
 				auto instance = static_cast<const Instance<double, PPGData>*>(i);
 				auto& ed = instance->GetExtraData();
+				if (int(ed.yhat.size()) < train_data.NumLabels())
+					throw std::invalid_argument("Every instance should have a predicted outcome for each treatment.");
 				for (int k2 = 0; k2 < train_data.NumLabels(); k2++) {
 					min_dm = std::min(ed.dm_scores[k2], min_dm);
 					min_ipw = std::min(ed.ipw_scores[k2], min_ipw);
-- 
2.43.0


From 3d6cf638b925dd2248270b4b8cced68f1167d8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:00:26 +0000
Subject: [PATCH 75/78] fix: do not use the solutions kept at the root as a
 bound for other branches

For partially ordered tasks, the root node keeps only the solutions that are
best for the final objective. The similarity bound used this reduced set as a
lower bound for subtrees with similar data, and so pruned optimal trees.
---
 src/solver/solver.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index f90cb7a..03a29b3 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -561,7 +561,9 @@ namespace STreeD {
 			cache->UpdateLowerBound(data, branch, infeasible_lb, max_depth, num_nodes);
 		}
 		if constexpr (OT::element_additive) {
-			similarity_lower_bound_computer->UpdateArchive(data, branch, max_depth);
+			// For a partially ordered task, the root only keeps the solutions that are best at the root. This set is
+			// not a lower bound for other branches
+			if (OT::total_order || branch.Depth() > 0) similarity_lower_bound_computer->UpdateArchive(data, branch, max_depth);
 		}
 
 		return solutions;
@@ -618,7 +620,9 @@ namespace STreeD {
 			}
 		}
 		if constexpr (OT::element_additive) {
-			similarity_lower_bound_computer->UpdateArchive(data, branch, max_depth);
+			// For a partially ordered task, the root only keeps the solutions that are best at the root. This set is
+			// not a lower bound for other branches
+			if (OT::total_order || branch.Depth() > 0) similarity_lower_bound_computer->UpdateArchive(data, branch, max_depth);
 		}
 
 		// Return solutions based on node budget
-- 
2.43.0


From dae48441caee8f812bcf0b83c048bbeef91bd04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:08:32 +0000
Subject: [PATCH 76/78] fix: keep lower bounds of partially ordered tasks
 intact when combining them

Two sets of lower bounds were combined by keeping the largest points of both.
A solution can be bounded by different points in each set. If both points were
removed, the solution was no longer bounded and could be pruned by mistake.
---
 include/solver/optimization_utils.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/solver/optimization_utils.h b/include/solver/optimization_utils.h
index 7ebdcd9..d410341 100644
--- a/include/solver/optimization_utils.h
+++ b/include/solver/optimization_utils.h
@@ -145,15 +145,22 @@ namespace STreeD {
 	}
 
 	/*
-	* Add set of solutions to the solution container
-	* Use the inverted dominance operator to determine dominance
+	* Keep the tightest of two lower bounds
+	* The points of two lower bound sets cannot be mixed: a solution may be bounded by a point of the one set that is
+	* dominated by another point of the other set. Therefore, only replace the set if the other set is tighter as a whole
 	*/
 	template <class OT>
 	inline void AddSolsInv(SolContainer<OT>& container, const SolContainer<OT>& sols) {
 		if constexpr (OT::total_order) {
 			if (sols.solution > container.solution) container = sols;
 		} else {
-			container->AddInv(*(sols.get()));
+			if (sols->Size() == 0) return;
+			if (container->Size() > 0) {
+				for (const auto& sol : sols->GetSolutions()) {
+					if (!container->Dominates(sol, false)) return;
+				}
+			}
+			container = CopySol<OT>(sols);
 		}
 	}
 
-- 
2.43.0


From 81af9045baf0302eacd7e1a0d263631f79356513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:14:03 +0000
Subject: [PATCH 77/78] fix: do not apply the similarity bound to tasks with
 constraints

The stored solutions exclude trees that violate the constraint or that cannot
improve the best known tree for the stored data. Those trees can be feasible and
better for similar data, so the stored solutions do not bound them. Fairness
tasks could return a tree that was not optimal.
---
 src/solver/solver.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/solver.cpp b/src/solver/solver.cpp
index 03a29b3..2f1cbd4 100644
--- a/src/solver/solver.cpp
+++ b/src/solver/solver.cpp
@@ -283,7 +283,9 @@ namespace STreeD {
 			similarity_lower_bound_computer = new SimilarityLowerBoundComputer<OT>(task,
 				NumLabels(), MAX_DEPTH, int(parameters.GetIntegerParameter("max-num-nodes")), train_data.Size(),
 				solver_parameters.minimum_leaf_node_size);
-			if (!solver_parameters.similarity_lb || path_dependent_costs) similarity_lower_bound_computer->Disable();
+			// With constraints, a tree that is feasible for the new data may be infeasible for the old data. In that case
+			// the old lower bound says nothing about the new data
+			if (!solver_parameters.similarity_lb || path_dependent_costs || OT::has_constraint) similarity_lower_bound_computer->Disable();
 		} else {
 			solver_parameters.similarity_lb = false;
 		}
-- 
2.43.0


From 2fe7bf0e0f86ede9476a531080366acf185b8b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:42:16 +0000
Subject: [PATCH 78/78] fix: report a train-test split that leaves no training
 instances

A stratified split rounds the size of the test part per stratum. With small
strata and a large test fraction all instances ended up in the test part, and
the program crashed on the empty training data.
---
 src/utils/file_reader.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/file_reader.cpp b/src/utils/file_reader.cpp
index 435ade3..0d6be27 100644
--- a/src/utils/file_reader.cpp
+++ b/src/utils/file_reader.cpp
@@ -50,6 +50,7 @@ namespace STreeD {
 			} else {
 				ADataView all_data = train_data;
 				ADataView::TrainTestSplitData<typename OT::LabelType>(all_data, train_data, test_data, rng, train_test_split, stratify);
+				if (train_data.Size() == 0) throw std::invalid_argument("Error: The train-test split leaves no training instances.");
 			}
 		}
 	}
-- 
2.43.0

