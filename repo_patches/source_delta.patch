From 3db2fbf213148d201fb94181b4326386d52755d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:25 +0000
Subject: [PATCH 01/14] fix: use the weight of the edge when building the
 coarse graph

The weights were indexed with the index of the neighbour instead of the
position of the edge.
---
 include/CoMMA/Util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index 0aa7ba6..02f55c9 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -495,7 +495,7 @@ void build_coarse_graph(
           const auto cc_neigh = f2c[*fc_neigh];
           // Add if not yet present
           cc_neighs.try_emplace(cc_neigh, 0.0);
-          cc_neighs.at(cc_neigh) += f_weights[*fc_neigh];
+          cc_neighs.at(cc_neigh) += f_weights[fc_neigh - f_adj.cbegin()];
         }
       }  // for fc_neigh
     }  // for fc
-- 
2.43.0


From ac8ee7e35c77fda2459fcce69f018f86ffb91415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:25 +0000
Subject: [PATCH 02/14] fix: coarse priority when all fine priorities are not
 positive

min() is the smallest positive value, hence the maximum of negative
priorities was lost.
---
 include/CoMMA/Util.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index 02f55c9..e33c4a4 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -482,7 +482,7 @@ void build_coarse_graph(
     for (auto xyz = decltype(dim){0}; xyz < dim; ++xyz)
       c_centers[cc][xyz] *= ov_n_fc;
     auto n_bnd = std::numeric_limits<IntT>::min();
-    auto priority = std::numeric_limits<RealT>::min();
+    auto priority = std::numeric_limits<RealT>::lowest();
     std::map<IndexT, RealT> cc_neighs;
     for (const auto fc : fcs) {
       if (f_n_bnd[fc] > n_bnd) n_bnd = f_n_bnd[fc];
-- 
2.43.0


From 48c20ff9d3b0b0d2e5a1137301a43fd7621b71fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:25 +0000
Subject: [PATCH 03/14] fix: center of coarse cells as volume-weighted average

The sum weighted by the volumes was divided by the number of cells.
---
 include/CoMMA/Util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index e33c4a4..c97c545 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -477,10 +477,10 @@ void build_coarse_graph(
   }  // for fc
   for (auto cc = decltype(n_cells){0}; cc < n_cells; ++cc) {
     const auto &fcs = c2f[cc];
-    const RealT ov_n_fc(RealT{1.} / fcs.size());
+    const RealT ov_volume(RealT{1.} / c_volumes[cc]);
     // Finishing center
     for (auto xyz = decltype(dim){0}; xyz < dim; ++xyz)
-      c_centers[cc][xyz] *= ov_n_fc;
+      c_centers[cc][xyz] *= ov_volume;
     auto n_bnd = std::numeric_limits<IntT>::min();
     auto priority = std::numeric_limits<RealT>::lowest();
     std::map<IndexT, RealT> cc_neighs;
-- 
2.43.0


From ef6fa0593a58208d60e75b9ee0ed2cdaf3af23bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:25 +0000
Subject: [PATCH 04/14] fix: one-point initialization of seeds with
 non-positive priorities

No cell compared better than the initial value, whose index is not valid.
---
 include/CoMMA/Seeds_Pool.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/CoMMA/Seeds_Pool.h b/include/CoMMA/Seeds_Pool.h
index 3d6cfd7..be7ef40 100644
--- a/include/CoMMA/Seeds_Pool.h
+++ b/include/CoMMA/Seeds_Pool.h
@@ -173,7 +173,7 @@ struct SPOnePointInitializator :
   ) override {
     CoMMAPairType cur_max{
       std::numeric_limits<CoMMAIndexType>::max(),
-      std::numeric_limits<CoMMAWeightType>::min()
+      std::numeric_limits<CoMMAWeightType>::lowest()
     };
     const CustomPairGreaterFunctor<CoMMAPairType> comp_op{};
     for (auto i_fc = decltype(n_bnd_faces.size()){0}; i_fc < n_bnd_faces.size();
-- 
2.43.0


From 6298184c9e80e1caf1d6cd0943ad3af8c8d042ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:25 +0000
Subject: [PATCH 05/14] fix: third cell at the end of a line

The third cell was taken even if the line had only two cells left (going
past its end) or if the maximum length had already been reached.
---
 include/CoMMA/Agglomerator.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/CoMMA/Agglomerator.h b/include/CoMMA/Agglomerator.h
index 3e5bf64..4f94815 100644
--- a/include/CoMMA/Agglomerator.h
+++ b/include/CoMMA/Agglomerator.h
@@ -356,12 +356,15 @@ public:
             this->_fc_graph->neighbours_cbegin(*std::next(line_it)),
             this->_fc_graph->neighbours_cend(*std::next(line_it))
           );
+          const auto n_left = std::distance(line_it, end);
           if (
-            std::distance(line_it, end) == 3
+            n_left == 3
             || (
-              this->_max_cells_in_line.has_value()
+              n_left > 3 && this->_max_cells_in_line.has_value()
               && n_cells + 1 == this->_max_cells_in_line.value())) {
-            if (this->_odd_line_length) {
+            if (this->_odd_line_length
+                && (!this->_max_cells_in_line.has_value()
+                    || n_cells + 1 <= this->_max_cells_in_line.value())) {
               // If only three cells left, agglomerate them
               s_fc.insert(*std::next(line_it, 2));
               n_cells++;
-- 
2.43.0


From a1bd7505cc30f6e0668d783742ded919a425668a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:57:25 +0000
Subject: [PATCH 06/14] fix: do not lose fine cells when correcting

When the cells of a singular coarse cell are treated one by one, those with
no suitable neighbour were left with the ID of a coarse cell that had been
removed. They now follow the neighbours that have been moved.
---
 include/CoMMA/Coarse_Cell_Container.h | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/include/CoMMA/Coarse_Cell_Container.h b/include/CoMMA/Coarse_Cell_Container.h
index d03e516..99297c7 100644
--- a/include/CoMMA/Coarse_Cell_Container.h
+++ b/include/CoMMA/Coarse_Cell_Container.h
@@ -202,7 +202,9 @@ Not used anymore but we leave it for example purposes
         if (!should_remove) {
           // If here, we could not agglomerate the whole cell, hence we look
           // fine cell by fine cell
+          std::deque<CoMMAIndexType> left{};
           for (const auto &[i_fc, neighs] : neighs_by_fc) {
+            bool moved = false;
             if (!neighs.empty()) {
               std::optional<CoMMAIntType> new_compactness = std::nullopt;
               const auto new_cc = select_best_cc_to_agglomerate(
@@ -212,12 +214,33 @@ Not used anymore but we leave it for example purposes
                 _fc_2_cc[i_fc] = new_cc.value();
                 _ccs[new_cc.value()]->insert_cell(i_fc, new_compactness);
                 should_remove = true;
+                moved = true;
               }
             }
+            if (!moved) left.push_back(i_fc);
             // If the cell has no neighbour (this could happen when the
             // partitioning does not give a connected partition), unfortunately,
             // there is nothing that we can do. We just skip it
           }
+          // Cells which had no suitable neighbour follow those just moved
+          // (the coarse cell being connected, they are all reached)
+          while (should_remove && !left.empty()) {
+            std::deque<CoMMAIndexType> still_left{};
+            for (const auto &i_fc : left) {
+              std::optional<CoMMAIntType> new_compactness = std::nullopt;
+              const auto new_cc = select_best_cc_to_agglomerate(
+                i_fc, get_neighs_cc(i_fc, old_cc), max_card, new_compactness
+              );
+              if (new_cc.has_value()) {
+                _fc_2_cc[i_fc] = new_cc.value();
+                _ccs[new_cc.value()]->insert_cell(i_fc, new_compactness);
+              } else {
+                still_left.push_back(i_fc);
+              }
+            }
+            should_remove = still_left.size() < left.size();
+            left = std::move(still_left);
+          }
         }
 
         if (should_remove) {
-- 
2.43.0


From 318d0d89ee18ba4552f2279d563ecac5a6a037dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:35 +0000
Subject: [PATCH 07/14] fix: keep the subgraph consistent when inserting a node

The new edge was stored in the row before that of the neighbour, weights
were not those of the neighbours in the subgraph, the end of the new row
counted neighbours outside of the subgraph and the sizes were not updated.
---
 include/CoMMA/Dual_Graph.h | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index 3aa4d1e..b3ef32a 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -404,6 +404,9 @@ public:
     // Use the mapping
     // local vector of neighbourhood
     ContainerIndexType v_l_neigh{};
+    // weights of the faces shared with the local neighbours
+    ContainerWeightType v_l_weight{};
+    auto w_it = weight.cbegin();
     // @todo this solution clearly help in the connection of the subnode BUT can
     // bring to instability and errors.
     for (const auto &elem : v_neigh) {
@@ -411,7 +414,9 @@ public:
         std::find(_mapping_l_to_g.begin(), _mapping_l_to_g.end(), elem);
       if (low1 != _mapping_l_to_g.end()) {
         v_l_neigh.push_back(low1 - _mapping_l_to_g.begin());
+        v_l_weight.push_back(*w_it);
       }
+      ++w_it;
     }
     // variable to add weight for each face
     CoMMAIntType iter_weight = 0;
@@ -431,11 +436,11 @@ public:
       );
       this->_m_CRS_Values.insert(
         this->_m_CRS_Values.begin() + this->_m_CRS_Row_Ptr[elem],
-        weight[iter_weight]
+        v_l_weight[iter_weight]
       );
       // We modify the row pointer as far it is related with what we have done
       // before
-      for (auto it = this->_m_CRS_Row_Ptr.begin() + elem;
+      for (auto it = this->_m_CRS_Row_Ptr.begin() + elem + 1;
            it != this->_m_CRS_Row_Ptr.end();
            ++it) {
         ++(*it);
@@ -443,14 +448,27 @@ public:
       // we do the same.
       this->_m_CRS_Col_Ind.insert(this->_m_CRS_Col_Ind.end(), elem);
       this->_m_CRS_Values.insert(
-        this->_m_CRS_Values.end(), weight[iter_weight]
+        this->_m_CRS_Values.end(), v_l_weight[iter_weight]
       );
       // We increment the weight flag iterator
       ++iter_weight;
     }
-    this->_m_CRS_Row_Ptr.push_back(*row_end + v_neigh.size());
+    this->_m_CRS_Row_Ptr.push_back(*row_end + v_l_neigh.size());
     this->_volumes.push_back(volume);
     _mapping_l_to_g.push_back(i_fc);
+    update_size();
+  }
+
+  /** @brief Update number of nodes, cardinality and compactness after a change
+   * of the nodes
+   */
+  void update_size() {
+    this->_number_of_cells = _mapping_l_to_g.size();
+    _cardinality = static_cast<CoMMAIntType>(this->_number_of_cells);
+    _compactness = _cardinality;
+    for (auto c = CoMMAIndexType{0}; c < this->_number_of_cells; ++c) {
+      _compactness = std::min(_compactness, this->get_nb_of_neighbours(c));
+    }
   }
 
   /** @brief Remove a node from the CRS representation and automatically adjust
-- 
2.43.0


From 6a310830ee3d81494f346f6de49b67ad7be000d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:35 +0000
Subject: [PATCH 08/14] fix: keep the subgraph consistent when removing a node

Edges were erased while iterating with invalidated iterators, so that some
edges of the removed node were kept and others were lost, and the sizes were
not updated.
---
 include/CoMMA/Dual_Graph.h | 61 +++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 31 deletions(-)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index b3ef32a..e928a06 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -483,43 +483,41 @@ public:
     // Getting neighbours, store them before erasing
     ContainerIndexType v_neigh = this->get_neighbours(i_fc);
 
-    // weight iterator for erasing in the weight vector
-    auto pos_col = this->_m_CRS_Col_Ind.begin();
-    auto pos_Values = this->_m_CRS_Values.begin();
+    // Erase the edges from the rows of the neighbours
     for (const auto &elem : v_neigh) {
-      CoMMAIndexType ind = this->_m_CRS_Row_Ptr[elem];
-      CoMMAIndexType ind_p_one = this->_m_CRS_Row_Ptr[elem + 1];
-      // Constant to keep track and erase the weight
-      for (auto it = pos_col + ind; it != pos_col + ind_p_one; ++it) {
-        if (*it == i_fc) {
-          this->_m_CRS_Col_Ind.erase(it);
-          // define the exact position of the element for the processing of the
-          // weight later.
-          this->_m_CRS_Values.erase(pos_Values + (it - pos_col));
-          // for each found i decrease the successive of 1 for the offset
-          for (auto it_bis = this->_m_CRS_Row_Ptr.begin() + elem + 1;
-               it_bis != this->_m_CRS_Row_Ptr.end();
-               ++it_bis) {
-            *it_bis = *it_bis - 1;
-          }
+      const auto row_begin =
+        this->_m_CRS_Col_Ind.begin() + this->_m_CRS_Row_Ptr[elem];
+      const auto row_end =
+        this->_m_CRS_Col_Ind.begin() + this->_m_CRS_Row_Ptr[elem + 1];
+      const auto it = std::find(row_begin, row_end, i_fc);
+      if (it != row_end) {
+        this->_m_CRS_Values.erase(
+          this->_m_CRS_Values.begin() + (it - this->_m_CRS_Col_Ind.begin())
+        );
+        this->_m_CRS_Col_Ind.erase(it);
+        // for each found i decrease the successive of 1 for the offset
+        for (auto it_bis = this->_m_CRS_Row_Ptr.begin() + elem + 1;
+             it_bis != this->_m_CRS_Row_Ptr.end();
+             ++it_bis) {
+          *it_bis = *it_bis - 1;
         }
       }
     }
     // reduce the row ptr value of the deleted value
     // do the same with i_fc
-    CoMMAIndexType ind = this->_m_CRS_Row_Ptr[i_fc];
-    CoMMAIndexType ind_p_one = this->_m_CRS_Row_Ptr[i_fc + 1];
-    for (auto it = pos_col + ind; it != pos_col + ind_p_one; ++it) {
-      this->_m_CRS_Col_Ind.erase(it);
-      // define the exact position of the element for the processing of the
-      // weight later.
-      this->_m_CRS_Values.erase(pos_Values + (it - pos_col));
-      // for each found i decrease the successive of 1 for the offset
-      for (auto it_bis = this->_m_CRS_Row_Ptr.begin() + i_fc + 1;
-           it_bis != this->_m_CRS_Row_Ptr.end();
-           ++it_bis) {
-        *it_bis = *it_bis - 1;
-      }
+    const CoMMAIndexType ind = this->_m_CRS_Row_Ptr[i_fc];
+    const CoMMAIndexType ind_p_one = this->_m_CRS_Row_Ptr[i_fc + 1];
+    this->_m_CRS_Col_Ind.erase(
+      this->_m_CRS_Col_Ind.begin() + ind,
+      this->_m_CRS_Col_Ind.begin() + ind_p_one
+    );
+    this->_m_CRS_Values.erase(
+      this->_m_CRS_Values.begin() + ind, this->_m_CRS_Values.begin() + ind_p_one
+    );
+    for (auto it_bis = this->_m_CRS_Row_Ptr.begin() + i_fc + 1;
+         it_bis != this->_m_CRS_Row_Ptr.end();
+         ++it_bis) {
+      *it_bis = *it_bis - (ind_p_one - ind);
     }
     // Get rid of the col element
     auto Col_pointer = this->_m_CRS_Row_Ptr.begin() + i_fc;
@@ -549,6 +547,7 @@ public:
       assert(internal_mapping[actual].has_value());
       actual = internal_mapping[actual].value();
     }
+    update_size();
   }
 };
 
-- 
2.43.0


From a4a8914a3943f75bdf96777d2259fd98ead09039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:58:35 +0000
Subject: [PATCH 09/14] fix: repeated connectivity checks

The cells visited by a previous check were still considered as such, and
graphs without edges were read out of bounds.
---
 include/CoMMA/Dual_Graph.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/CoMMA/Dual_Graph.h b/include/CoMMA/Dual_Graph.h
index e928a06..7aba307 100644
--- a/include/CoMMA/Dual_Graph.h
+++ b/include/CoMMA/Dual_Graph.h
@@ -236,13 +236,11 @@ public:
    * @return True if the graph is connected, false if it is not connected
    */
   bool check_connectivity() {
-    for (auto i = decltype(_number_of_cells){0}; i < _number_of_cells; ++i) {
-      _visited.push_back(false);
-    }
-    if (_number_of_cells == 1) {
+    _visited.assign(_number_of_cells, false);
+    if (_number_of_cells <= 1) {
       return (true);
     }
-    DFS(_m_CRS_Col_Ind[0]);
+    DFS(0);
     for (auto i = decltype(_number_of_cells){0}; i < _number_of_cells; ++i) {
       if (!_visited[i]) {
         return (false);
-- 
2.43.0


From 118087823d3ae7c50f3742287941322196c4dfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 00:59:11 +0000
Subject: [PATCH 10/14] fix: barycenter of a coarse cell as volume-weighted
 average

The sum of the centers weighted by the volumes was divided by the number of
cells instead of by the total volume.
---
 include/CoMMA/ARComputer.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/ARComputer.h b/include/CoMMA/ARComputer.h
index cb4048d..1801cf2 100644
--- a/include/CoMMA/ARComputer.h
+++ b/include/CoMMA/ARComputer.h
@@ -275,10 +275,13 @@ protected:
     new_feats._sum_centers = cc_feats._sum_centers;
     const auto &cur_c = this->_graph->_centers[i_fc];
     std::vector<RealT> bary(cur_c.size());
-    const RealT ov_N = 1. / (fc_of_cc.size() + 1);
+    RealT measure = this->_graph->_volumes[i_fc];
+    for (const auto &i_fc_cc : fc_of_cc)
+      measure += this->_graph->_volumes[i_fc_cc];
+    const RealT ov_measure = 1. / measure;
     for (auto i = decltype(cur_c.size()){0}; i < cur_c.size(); ++i) {
       new_feats._sum_centers[i] += this->_graph->_volumes[i_fc] * cur_c[i];
-      bary[i] = new_feats._sum_centers[i] * ov_N;
+      bary[i] = new_feats._sum_centers[i] * ov_measure;
     }
     return bary;
   }
-- 
2.43.0


From 3607fb8c25446150534d2fc6b3c3d8ef161418be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:10:32 +0000
Subject: [PATCH 11/14] fix: filter cells with the positive numbers of edges
 only

The accepted numbers that are not positive are discarded, but the filter still
used the unfiltered set.
---
 include/CoMMA/Util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/Util.h b/include/CoMMA/Util.h
index c97c545..f4f39e4 100644
--- a/include/CoMMA/Util.h
+++ b/include/CoMMA/Util.h
@@ -326,10 +326,10 @@ inline void filter_cells_by_n_edges(
     const auto n_cells = static_cast<IndexT>(n_bnd_faces.size());
     filtered.reserve(n_cells);
     for (auto c = decltype(n_cells){0}; c < n_cells; ++c) {
-      if (allowed.find(
+      if (target.find(
             static_cast<IntT>(indices[c + 1] - indices[c] + n_bnd_faces[c])
           )
-          != allowed.end())
+          != target.end())
         filtered.emplace_back(c);
     }
     filtered.shrink_to_fit();
-- 
2.43.0


From 379dc03727bc96ace97aef3281b08025137e3f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:57 +0000
Subject: [PATCH 12/14] fix: refuse an unknown aspect ratio before the
 anisotropic lines are overwritten

The isotropic agglomerator refuses an unknown aspect-ratio type when it is
built. It was built after the anisotropic phase, which already replaced the
line arrays given by the caller. Build it before.
---
 include/CoMMA/CoMMA.h | 54 ++++++++++++++++++++++---------------------
 1 file changed, 28 insertions(+), 26 deletions(-)

diff --git a/include/CoMMA/CoMMA.h b/include/CoMMA/CoMMA.h
index 0dec5e0..1479348 100644
--- a/include/CoMMA/CoMMA.h
+++ b/include/CoMMA/CoMMA.h
@@ -354,6 +354,34 @@ void agglomerate_one_level(
   std::shared_ptr<CCContainerType> cc_graph =
     std::make_shared<CCContainerType>(fc_graph, sing_thresh);
 
+  // We define here the type of (isotropic) Agglomerator, before any output is
+  // touched, since an unknown option is refused here
+  IsotropicPtr agg = nullptr;
+  // TODO: maybe pass to a switch when another agglomerator will be implemented
+  if (fc_choice_iter > 1) {
+    agg = std::make_unique<
+      Agglomerator_Iterative<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>(
+      fc_graph,
+      cc_graph,
+      seeds_pool,
+      dimension,
+      aspect_ratio,
+      neighbourhood_type,
+      fc_choice_iter
+    );
+  } else {
+    agg = std::make_unique<
+      Agglomerator_Biconnected<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>(
+      fc_graph,
+      cc_graph,
+      seeds_pool,
+      dimension,
+      aspect_ratio,
+      neighbourhood_type,
+      fc_choice_iter
+    );
+  }
+
   // AGGLOMERATION OF ANISOTROPIC CELLS
   //======================================
   // @todo maybe re-refactor the class agglomerator to allow the implicit upcast
@@ -401,32 +429,6 @@ void agglomerate_one_level(
 
   // AGGLOMERATION OF ISOTROPIC CELLS
   //======================================
-  // We define here the type of Agglomerator
-  IsotropicPtr agg = nullptr;
-  // TODO: maybe pass to a switch when another agglomerator will be implemented
-  if (fc_choice_iter > 1) {
-    agg = std::make_unique<
-      Agglomerator_Iterative<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>(
-      fc_graph,
-      cc_graph,
-      seeds_pool,
-      dimension,
-      aspect_ratio,
-      neighbourhood_type,
-      fc_choice_iter
-    );
-  } else {
-    agg = std::make_unique<
-      Agglomerator_Biconnected<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>(
-      fc_graph,
-      cc_graph,
-      seeds_pool,
-      dimension,
-      aspect_ratio,
-      neighbourhood_type,
-      fc_choice_iter
-    );
-  }
   // Agglomerate
   agg->agglomerate_one_level(
     goal_card, min_card, max_card, priority_weights, correction
-- 
2.43.0


From fb07ac596cbb79bfe9f1dbcbd7ac6ffe01f675b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:18:36 +0000
Subject: [PATCH 13/14] fix: accept integer types narrower than int

The limits of the neighbourhood order and of the look-ahead were deduced
from operands of different types when arithmetic promotes the integer type
(e.g. short), so that the library could not be instantiated.
---
 include/CoMMA/Agglomerator.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/Agglomerator.h b/include/CoMMA/Agglomerator.h
index 4f94815..b08c1f7 100644
--- a/include/CoMMA/Agglomerator.h
+++ b/include/CoMMA/Agglomerator.h
@@ -1245,7 +1245,9 @@ public:
     // set to 3 as default we set to this value the maximum order to which we
     // search to compose the coarse cell
     CoMMAIntType max_order_of_neighbourhood =
-      std::max(this->_min_neighbourhood, this->_max_card / this->_dimension);
+      std::max<CoMMAIntType>(
+        this->_min_neighbourhood, this->_max_card / this->_dimension
+      );
 
     // We fill the d_n_of_seeds considering the initial seed passed
     this->_fc_graph->compute_neighbourhood_of_cc(
@@ -1350,7 +1352,7 @@ public:
         // the fine cells that has been added until now.
         // min(max_ind - size_current_cc, this->_fc_iter)
         this->compute_best_fc_to_add(
-          std::min(max_ind - size_current_cc, this->_fc_iter),
+          std::min<CoMMAIntType>(max_ind - size_current_cc, this->_fc_iter),
           neighbourhood,
           d_n_of_seed,
           is_order_primary,
-- 
2.43.0


From 3183a123e96bef16d168397f2e7b217f03c63aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:39:03 +0000
Subject: [PATCH 14/14] fix: do not increment the iterator of an extracted
 coarse cell

The renumbering after the correction extracted a node from the map and then
incremented the iterator to that node. Extraction invalidates this iterator
(checked standard libraries abort here). Move on before extracting.
---
 include/CoMMA/Coarse_Cell_Container.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/CoMMA/Coarse_Cell_Container.h b/include/CoMMA/Coarse_Cell_Container.h
index 99297c7..9f041be 100644
--- a/include/CoMMA/Coarse_Cell_Container.h
+++ b/include/CoMMA/Coarse_Cell_Container.h
@@ -262,13 +262,13 @@ Not used anymore but we leave it for example purposes
         it_cc = _ccs.find(new_ID - 1);
         ++it_cc;
       }
-      for (; it_cc != _ccs.end(); ++it_cc, ++new_ID) {
+      for (; it_cc != _ccs.end(); ++new_ID) {
         // Update fine cells
         for (auto const &i_fc : it_cc->second->_s_fc) {
           _fc_2_cc[i_fc] = new_ID;
         }
         // Update coarse cell ID
-        auto node = _ccs.extract(it_cc);
+        auto node = _ccs.extract(it_cc++);
         if (!node.empty()) {
           node.key() = new_ID;
           _ccs.insert(std::move(node));
-- 
2.43.0

