From f3b247957c8947e585a82cd027a85486c3003b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:23 +0000
Subject: [PATCH 01/17] fix: count the first cluster when sizing the
 hierarchical work area

iscc_hi_init_cl_stack ignored clusters[0] when finding the largest cluster, so
refining a clustering whose largest cluster has label 0 overflowed the heap.
---
 src/hierarchical_clustering.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index 910ba91..34f5dd6 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -335,7 +335,7 @@ static scc_ErrorCode iscc_hi_init_cl_stack(const scc_Clustering* const in_cl,
 		}
 	}
 
-	size_t size_largest_cluster = 0;
+	size_t size_largest_cluster = clusters[0].size;
 	clusters[0].members = out_cl_stack->pointindex_store + clusters[0].size;
 	for (size_t c = 1; c < in_cl->num_clusters; ++c) {
 		clusters[c].members = clusters[c - 1].members + clusters[c].size;
-- 
2.43.0


From c0a5f502b6730092b09d97015d63f14d8e4c3be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:23 +0000
Subject: [PATCH 02/17] fix: use two distinct centers when splitting identical
 points

With identical data points the maximum distance search may return the query
itself. Both centers were then the same point, it was moved twice, and some
points never got a valid label.
---
 src/hierarchical_clustering.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index 34f5dd6..35efe37 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -796,6 +796,11 @@ static scc_ErrorCode iscc_hi_find_centers(iscc_hi_ClusterItem* const cl,
 		return iscc_make_error(SCC_ER_DIST_SEARCH_ERROR);
 	}
 
+	if (*out_center1 == *out_center2) {
+		// All points are identical, so any other member is farthest away from the first center
+		*out_center2 = (cl->members[0] != *out_center1) ? cl->members[0] : cl->members[1];
+	}
+
 	return iscc_no_error();
 }
 
-- 
2.43.0


From 58ed441478670b75f846e81018ad1f0f304296da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:23 +0000
Subject: [PATCH 03/17] fix: handle allocation failures in
 iscc_findseeds_exclusion

The error from a failed index allocation was not returned (the freed marks and
the NULL array were then used), and the index array leaked when making the
exclusion graph failed.
---
 src/nng_findseeds.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nng_findseeds.c b/src/nng_findseeds.c
index 45acca3..10ff499 100644
--- a/src/nng_findseeds.c
+++ b/src/nng_findseeds.c
@@ -320,7 +320,7 @@ static scc_ErrorCode iscc_findseeds_exclusion(const iscc_Digraph* const nng,
 	scc_PointIndex* tmp_index_not_excluded = malloc(sizeof(scc_PointIndex[nng->vertices]));
 	if (tmp_index_not_excluded == NULL) {
 		free(not_excluded);
-		iscc_make_error(SCC_ER_NO_MEMORY);
+		return iscc_make_error(SCC_ER_NO_MEMORY);
 	}
 	assert(nng->vertices <= ISCC_POINTINDEX_MAX);
 	const scc_PointIndex vertices_pi = (scc_PointIndex) nng->vertices; // If `scc_PointIndex` is signed
@@ -344,6 +344,7 @@ static scc_ErrorCode iscc_findseeds_exclusion(const iscc_Digraph* const nng,
 	iscc_Digraph exclusion_graph;
 	if ((ec = iscc_fs_exclusion_graph(nng, tmp_num_not_excluded, tmp_index_not_excluded, &exclusion_graph)) != SCC_ER_OK) {
 		free(not_excluded);
+		free(tmp_index_not_excluded);
 		return ec;
 	}
 
-- 
2.43.0


From f0b860e5b8d2d8cd9cb6d67899b770f28647abca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:23 +0000
Subject: [PATCH 04/17] fix: report allocation failure in assignment by nng

iscc_assign_by_nng returned the error code as the number of assigned points, so
scc_sc_clustering succeeded with points left unassigned.
---
 src/nng_core.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/nng_core.c b/src/nng_core.c
index 358ce44..bff3830 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -482,7 +482,12 @@ scc_ErrorCode iscc_make_nng_clusters_from_seeds(scc_Clustering* const clustering
 	// (NNG already contains radius constraint.)
 	if ((unassigned_method == SCC_UM_ANY_NEIGHBOR) ||
 	        (nng_is_ordered && (unassigned_method == SCC_UM_CLOSEST_ASSIGNED))) {
-		total_assigned += iscc_assign_by_nng(clustering, nng);
+		const size_t num_assigned_by_nng = iscc_assign_by_nng(clustering, nng);
+		if (num_assigned_by_nng == SIZE_MAX) {
+			free(seed_or_neighbor);
+			return iscc_make_error(SCC_ER_NO_MEMORY);
+		}
+		total_assigned += num_assigned_by_nng;
 
 		// Ignore remaining points if SCC_UM_ANY_NEIGHBOR
 		if (unassigned_method == SCC_UM_ANY_NEIGHBOR) {
@@ -963,7 +968,7 @@ static size_t iscc_assign_by_nng(scc_Clustering* const clustering,
 	assert(!iscc_digraph_is_empty(nng));
 
 	bool* const scratch = malloc(sizeof(bool[clustering->num_data_points]));
-	if (scratch == NULL) return iscc_make_error(SCC_ER_NO_MEMORY);
+	if (scratch == NULL) return SIZE_MAX; // Cannot be a valid count
 	for (size_t i = 0; i < clustering->num_data_points; ++i) {
 		scratch[i] = (clustering->cluster_label[i] == SCC_CLABEL_NA);
 	}
-- 
2.43.0


From 5aec6c3dce591aaf1df3ae199ec3c09f2356ffeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:23 +0000
Subject: [PATCH 05/17] fix: check allocation in iscc_assign_by_nn_search

---
 src/nng_core.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nng_core.c b/src/nng_core.c
index bff3830..2432610 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -1015,6 +1015,7 @@ static scc_ErrorCode iscc_assign_by_nn_search(scc_Clustering* const clustering,
 		out_ok_query = to_assign;
 	}
 	scc_PointIndex* const out_nn_indices = malloc(sizeof(scc_PointIndex[num_to_assign]));
+	if (out_nn_indices == NULL) return iscc_make_error(SCC_ER_NO_MEMORY);
 
 	if (!iscc_nearest_neighbor_search(nn_search_object,
 	                                  num_to_assign,
-- 
2.43.0


From fd7b96564de945b464ff9607e018a1feb0fe7c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:23 +0000
Subject: [PATCH 06/17] fix: report errors from assignment of secondary points

iscc_make_nng_clusters_from_seeds discarded the error of the secondary
assignment and returned success with points left unassigned.
---
 src/nng_core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nng_core.c b/src/nng_core.c
index 2432610..e754066 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -635,7 +635,7 @@ scc_ErrorCode iscc_make_nng_clusters_from_seeds(scc_Clustering* const clustering
 		iscc_close_nn_search_object(&nn_seed_search_object);
 	}
 
-	return iscc_no_error();
+	return ec;
 }
 
 
-- 
2.43.0


From aca9bd87ead71f3bffc7eccad5628b8e5482adbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:23 +0000
Subject: [PATCH 07/17] fix: check allocation of primary point marks in batch
 clustering

---
 src/nng_batch_clustering.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/nng_batch_clustering.c b/src/nng_batch_clustering.c
index d4644f6..31fd76a 100644
--- a/src/nng_batch_clustering.c
+++ b/src/nng_batch_clustering.c
@@ -141,6 +141,13 @@ scc_ErrorCode scc_nng_clustering_batches(scc_Clustering* const clustering,
 	bool* tmp_primary_data_points = NULL;
 	if (primary_data_points != NULL) {
 		tmp_primary_data_points = calloc(clustering->num_data_points, sizeof(bool));
+		if (tmp_primary_data_points == NULL) {
+			free(batch_indices);
+			free(out_indices);
+			free(assigned);
+			iscc_close_nn_search_object(&nn_search_object);
+			return iscc_make_error(SCC_ER_NO_MEMORY);
+		}
 		for (size_t i = 0; i < len_primary_data_points; ++i) {
 			tmp_primary_data_points[primary_data_points[i]] = true;
 		}
-- 
2.43.0


From 38e22f41c739c4c9ffccbadd60a937715026f69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:23 +0000
Subject: [PATCH 08/17] fix: avoid 32-bit overflow when sizing the batch
 neighbor array

`size_constraint * batch_size` was computed as uint32_t, so large batches (the
default is all data points) could get a too small array.
---
 src/nng_batch_clustering.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nng_batch_clustering.c b/src/nng_batch_clustering.c
index 31fd76a..901f658 100644
--- a/src/nng_batch_clustering.c
+++ b/src/nng_batch_clustering.c
@@ -115,7 +115,7 @@ scc_ErrorCode scc_nng_clustering_batches(scc_Clustering* const clustering,
 	}
 
 	scc_PointIndex* const batch_indices = malloc(sizeof(scc_PointIndex[batch_size]));
-	scc_PointIndex* const out_indices = malloc(sizeof(scc_PointIndex[size_constraint * batch_size]));
+	scc_PointIndex* const out_indices = malloc(sizeof(scc_PointIndex[((size_t) size_constraint) * batch_size]));
 	bool* const assigned = calloc(clustering->num_data_points, sizeof(bool));
 	if ((batch_indices == NULL) || (out_indices == NULL) || (assigned == NULL)) {
 		free(batch_indices);
-- 
2.43.0


From 8db7831740a1cc64c443698dfc74db116f36e900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:23 +0000
Subject: [PATCH 09/17] fix: make ordinary nng when all type constraints are
 zero

With no positive type constraint iscc_get_nng_with_type_constraint made a union
of zero digraphs, which reads an uninitialised digraph.
---
 src/nng_core.c | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/nng_core.c b/src/nng_core.c
index e754066..3397778 100644
--- a/src/nng_core.c
+++ b/src/nng_core.c
@@ -206,6 +206,21 @@ scc_ErrorCode iscc_get_nng_with_type_constraint(void* const data_set,
 	assert(!radius_constraint || (radius > 0.0));
 	assert(out_nng != NULL);
 
+	bool any_type_constraint = false;
+	for (uint_fast16_t i = 0; i < num_types; ++i) {
+		any_type_constraint = any_type_constraint || (type_constraints[i] > 0);
+	}
+	if (!any_type_constraint) {
+		return iscc_get_nng_with_size_constraint(data_set,
+		                                         num_data_points,
+		                                         size_constraint,
+		                                         len_primary_data_points,
+		                                         primary_data_points,
+		                                         radius_constraint,
+		                                         radius,
+		                                         out_nng);
+	}
+
 	size_t num_queries;
 	if (primary_data_points == NULL) {
 		num_queries = num_data_points;
-- 
2.43.0


From fc0b6992fe26543fa7e552cc31587374dddaa096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:23 +0000
Subject: [PATCH 10/17] fix: respect primary radius tighter than seed radius

SCC_UM_CLOSEST_ASSIGNED without types used the nng as a shortcut even when its
arcs may be longer than the primary radius, so points were assigned to
clusters outside the radius.
---
 src/nng_clustering.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/nng_clustering.c b/src/nng_clustering.c
index 0dcabbf..8bed7b5 100644
--- a/src/nng_clustering.c
+++ b/src/nng_clustering.c
@@ -222,11 +222,18 @@ static scc_ErrorCode iscc_make_clustering_from_nng(scc_Clustering* const cluster
 		}
 	}
 
+	// The nng can be used to assign points to their closest neighbor only if
+	// it is ordered and all its arcs are within the primary radius.
+	const bool nng_for_closest = (options->num_types < 2) &&
+	        ((primary_radius == SCC_RM_NO_RADIUS) ||
+	         ((options->seed_radius == SCC_RM_USE_SUPPLIED) &&
+	          (options->seed_supplied_radius <= primary_supplied_radius)));
+
 	ec = iscc_make_nng_clusters_from_seeds(clustering,
 	                                       data_set,
 	                                       &seed_result,
 	                                       nng,
-	                                       (options->num_types < 2),
+	                                       nng_for_closest,
 	                                       options->primary_unassigned_method,
 	                                       (primary_radius == SCC_RM_USE_SUPPLIED),
 	                                       primary_supplied_radius,
-- 
2.43.0


From 9715c2ae11e646a6b213b0f65566e9e5df27813a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:23 +0000
Subject: [PATCH 11/17] fix: keep clustering empty when assignment of
 unassigned points fails

The number of clusters was set before points left after the seeding were
assigned, so a failed scc_sc_clustering left a non-empty clustering that could
not be clustered again.
---
 src/nng_clustering.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/nng_clustering.c b/src/nng_clustering.c
index 8bed7b5..a300495 100644
--- a/src/nng_clustering.c
+++ b/src/nng_clustering.c
@@ -244,5 +244,9 @@ static scc_ErrorCode iscc_make_clustering_from_nng(scc_Clustering* const cluster
 	                                       secondary_supplied_radius);
 
 	free(seed_result.seeds);
+
+	// Do not expose a partially made clustering
+	if (ec != SCC_ER_OK) clustering->num_clusters = 0;
+
 	return ec;
 }
-- 
2.43.0


From 6eddce26707d98efd98ff12356105ca035c6164d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:23 +0000
Subject: [PATCH 12/17] fix: restore labels when hierarchical refinement fails

Labels were overwritten during the run, so an error left a mix of old and new
labels in an existing clustering.
---
 src/hierarchical_clustering.c | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/hierarchical_clustering.c b/src/hierarchical_clustering.c
index 35efe37..4029674 100644
--- a/src/hierarchical_clustering.c
+++ b/src/hierarchical_clustering.c
@@ -26,6 +26,7 @@
 #include <stddef.h>
 #include <stdint.h>
 #include <stdlib.h>
+#include <string.h>
 #include "dist_search.h"
 #include "clustering_struct.h"
 #include "error.h"
@@ -223,6 +224,18 @@ scc_ErrorCode scc_hierarchical_clustering(void* const data_set,
 	assert(cl_stack.clusters != NULL);
 	assert(cl_stack.pointindex_store != NULL);
 
+	// Labels are overwritten during the run. Keep a copy of existing labels in case of errors.
+	scc_Clabel* label_backup = NULL;
+	if (out_clustering->num_clusters > 0) {
+		label_backup = malloc(sizeof(scc_Clabel[out_clustering->num_data_points]));
+		if (label_backup == NULL) {
+			free(cl_stack.clusters);
+			free(cl_stack.pointindex_store);
+			return iscc_make_error(SCC_ER_NO_MEMORY);
+		}
+		memcpy(label_backup, out_clustering->cluster_label, sizeof(scc_Clabel[out_clustering->num_data_points]));
+	}
+
 	const size_t size_pointindex_array = (size_constraint > ISCC_HI_NUM_TO_CHECK) ? size_constraint : ISCC_HI_NUM_TO_CHECK;
 	const size_t size_dist_array = ((2 * size_largest_cluster) > ISCC_HI_NUM_TO_CHECK) ? (2 * size_largest_cluster) : ISCC_HI_NUM_TO_CHECK;
 	iscc_hi_WorkArea work_area = {
@@ -249,6 +262,11 @@ scc_ErrorCode scc_hierarchical_clustering(void* const data_set,
 		                                         batch_assign);
 	}
 
+	if ((ec != SCC_ER_OK) && (label_backup != NULL)) {
+		memcpy(out_clustering->cluster_label, label_backup, sizeof(scc_Clabel[out_clustering->num_data_points]));
+	}
+
+	free(label_backup);
 	free(work_area.pointindex_array1);
 	free(work_area.pointindex_array2);
 	free(work_area.dist_array);
-- 
2.43.0


From 44a53a40f4bdc828f910734336465757dedf1d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:23 +0000
Subject: [PATCH 13/17] fix: reject NULL options

---
 src/utilities.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utilities.c b/src/utilities.c
index b9d2028..daa81e1 100644
--- a/src/utilities.c
+++ b/src/utilities.c
@@ -330,6 +330,9 @@ scc_ErrorCode scc_get_clustering_stats(void* const data_set,
 scc_ErrorCode iscc_check_cluster_options(const scc_ClusterOptions* const options,
                                          const size_t num_data_points)
 {
+	if (options == NULL) {
+		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid options.");
+	}
 	if (options->options_version != ISCC_OPTIONS_STRUCT_VERSION) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Incompatible scc_ClusterOptions version.");
 	}
-- 
2.43.0


From 035cbf9dcbb8407b9a4a60b85a12349f19fa3c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:23 +0000
Subject: [PATCH 14/17] fix: reject out-of-range primary data points and type
 labels

Both are used as array indices and led to out-of-bounds accesses.
---
 src/utilities.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/utilities.c b/src/utilities.c
index daa81e1..cf8fbd5 100644
--- a/src/utilities.c
+++ b/src/utilities.c
@@ -369,6 +369,12 @@ scc_ErrorCode iscc_check_cluster_options(const scc_ClusterOptions* const options
 		if (options->type_labels == NULL) {
 			return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid type labels.");
 		}
+		for (size_t i = 0; i < num_data_points; ++i) {
+			// Negative labels (if `scc_TypeLabel` is signed) become large values
+			if (((uintmax_t) options->type_labels[i]) >= options->num_types) {
+				return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid type labels.");
+			}
+		}
 	}
 
 	if ((options->seed_method != SCC_SM_LEXICAL) &&
@@ -383,6 +389,12 @@ scc_ErrorCode iscc_check_cluster_options(const scc_ClusterOptions* const options
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid primary data points.");
 	}
 	if (options->primary_data_points != NULL) {
+		for (size_t i = 0; i < options->len_primary_data_points; ++i) {
+			// Negative indices (if `scc_PointIndex` is signed) become large values
+			if (((uintmax_t) options->primary_data_points[i]) >= num_data_points) {
+				return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid primary data points.");
+			}
+		}
 		for (size_t i = 1; i < options->len_primary_data_points; ++i) {
 			if (options->primary_data_points[i - 1] >= options->primary_data_points[i]) {
 				return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "`primary_data_points` is not sorted.");
-- 
2.43.0


From c94f41585049f8d8593010325fb0fbe10d50734b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:23 +0000
Subject: [PATCH 15/17] fix: avoid overflow when checking length of data matrix

---
 src/data_set.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_set.c b/src/data_set.c
index 95d6191..6f87d0e 100644
--- a/src/data_set.c
+++ b/src/data_set.c
@@ -63,7 +63,7 @@ scc_ErrorCode scc_init_data_set(const uint64_t num_data_points,
 	if (num_dimensions > UINT16_MAX) {
 		return iscc_make_error_msg(SCC_ER_TOO_LARGE_PROBLEM, "Too many data dimensions.");
 	}
-	if (len_data_matrix < num_data_points * num_dimensions) {
+	if (len_data_matrix / num_dimensions < num_data_points) {
 		return iscc_make_error_msg(SCC_ER_INVALID_INPUT, "Invalid data matrix.");
 	}
 	if (data_matrix == NULL) {
-- 
2.43.0


From 6d94e4e41c014be3f8588f97eb347e5794ddeaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:01 +0000
Subject: [PATCH 16/17] fix: keep the previous error when a failed generous
 allocation is recovered from

The digraph operations reset the whole error state when the generous
allocation fails and the exact one succeeds. A call that succeeds this way
thereby erased the description of the latest failing call.
---
 src/digraph_operations.c |  4 ++--
 src/error.c              | 19 +++++++++++++++++++
 src/error.h              |  4 ++++
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/digraph_operations.c b/src/digraph_operations.c
index b19e27e..17bcad0 100644
--- a/src/digraph_operations.c
+++ b/src/digraph_operations.c
@@ -116,7 +116,7 @@ scc_ErrorCode iscc_digraph_union_and_delete(const uint_fast16_t num_in_dgs,
 		// Could not allocate digraph with `out_arcs_write' arcs.
 		// Do correct (but slow) memory count by doing
 		// union without writing.
-		iscc_reset_error();
+		iscc_undo_error();
 
 		out_arcs_write = iscc_do_union_and_delete(num_in_dgs, in_dgs,
 		                                          row_markers, len_tails_to_keep, tails_to_keep,
@@ -268,7 +268,7 @@ scc_ErrorCode iscc_adjacency_product(const iscc_Digraph* const in_dg_a,
 		// Could not allocate digraph with `out_arcs_write' arcs.
 		// Do correct (but slow) memory count by doing
 		// doing product without writing.
-		iscc_reset_error();
+		iscc_undo_error();
 
 		out_arcs_write = iscc_do_adjacency_product(in_dg_a, in_dg_b,
 		                                           row_markers, force_loops,
diff --git a/src/error.c b/src/error.c
index f75309a..de5e951 100644
--- a/src/error.c
+++ b/src/error.c
@@ -34,6 +34,11 @@ static const char* iscc_error_msg = NULL;
 static const char* iscc_error_file = "unknown file";
 static int iscc_error_line = -1;
 
+static scc_ErrorCode iscc_prev_error_code = SCC_ER_OK;
+static const char* iscc_prev_error_msg = NULL;
+static const char* iscc_prev_error_file = "unknown file";
+static int iscc_prev_error_line = -1;
+
 
 // =============================================================================
 // External function implementations
@@ -46,6 +51,11 @@ scc_ErrorCode iscc_make_error__(const scc_ErrorCode ec,
 {
 	assert((ec > SCC_ER_OK) && (ec <= SCC_ER_NOT_IMPLEMENTED));
 
+	iscc_prev_error_code = iscc_error_code;
+	iscc_prev_error_msg = iscc_error_msg;
+	iscc_prev_error_file = iscc_error_file;
+	iscc_prev_error_line = iscc_error_line;
+
 	iscc_error_code = ec;
 	iscc_error_msg = msg;
 	iscc_error_file = file;
@@ -64,6 +74,15 @@ void iscc_reset_error(void)
 }
 
 
+void iscc_undo_error(void)
+{
+	iscc_error_code = iscc_prev_error_code;
+	iscc_error_msg = iscc_prev_error_msg;
+	iscc_error_file = iscc_prev_error_file;
+	iscc_error_line = iscc_prev_error_line;
+}
+
+
 bool scc_get_latest_error(const size_t len_error_message_buffer,
                           char error_message_buffer[const])
 {
diff --git a/src/error.h b/src/error.h
index efc2317..69b93d1 100644
--- a/src/error.h
+++ b/src/error.h
@@ -48,4 +48,8 @@ scc_ErrorCode iscc_make_error__(scc_ErrorCode ec,
 void iscc_reset_error(void);
 
 
+// Forgets the latest error, so that the error before it (if any) is the latest one again.
+void iscc_undo_error(void);
+
+
 #endif // ifndef SCC_ERROR_HG
-- 
2.43.0


From 3efd333891c63e8f3fca5b6d50e34e2cd2e14bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:08 +0000
Subject: [PATCH 17/17] fix: do not use an index-ordered nng to find the
 closest assigned point

---
 src/nng_clustering.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/nng_clustering.c b/src/nng_clustering.c
index a300495..6782ad6 100644
--- a/src/nng_clustering.c
+++ b/src/nng_clustering.c
@@ -223,11 +223,15 @@ static scc_ErrorCode iscc_make_clustering_from_nng(scc_Clustering* const cluster
 	}
 
 	// The nng can be used to assign points to their closest neighbor only if
-	// it is ordered and all its arcs are within the primary radius.
+	// it is ordered by distance and all its arcs are within the primary radius.
+	#ifdef SCC_STABLE_NNG
+	const bool nng_for_closest = false;
+	#else
 	const bool nng_for_closest = (options->num_types < 2) &&
 	        ((primary_radius == SCC_RM_NO_RADIUS) ||
 	         ((options->seed_radius == SCC_RM_USE_SUPPLIED) &&
 	          (options->seed_supplied_radius <= primary_supplied_radius)));
+	#endif // ifdef SCC_STABLE_NNG
 
 	ec = iscc_make_nng_clusters_from_seeds(clustering,
 	                                       data_set,
-- 
2.43.0

