CC, AG, SP, NB, DG, CO = ("Coarse_Cell_Container.h", "Agglomerator.h", "Seeds_Pool.h", "Neighbourhood.h", "Dual_Graph.h", "CoMMA.h")
TRIALS = [
    ("pool_by_value", "C23", SP, [("""  Seeds_Pool(
    const std::vector<CoMMAIntType> &n_bnd_faces,""", """  Seeds_Pool(
    const std::vector<CoMMAIntType> n_bnd_faces,""")]),
    ("pool_derived_by_value", "C23", SP, [("""  Seeds_Pool_Boundary_Priority(
    const std::vector<CoMMAIntType> &n_bnd_faces,""", """  Seeds_Pool_Boundary_Priority(
    const std::vector<CoMMAIntType> n_bnd_faces,""")]),
    ("graph_centers_by_value", "C23", DG, [("const std::vector<std::vector<CoMMAWeightType>> &centers,", "const std::vector<std::vector<CoMMAWeightType>> centers,")]),
    ("entry_fixed_inner", "C23", CO, [("""  std::vector<CoMMAIntType> fixed_n_bnd_faces(n_bnd_faces.size());
""", """  std::shared_ptr<SeedsPoolType> seeds_pool = nullptr;
  {
  std::vector<CoMMAIntType> fixed_n_bnd_faces(n_bnd_faces.size());
"""), ("""    expected_max_n_bnd
  );
  std::shared_ptr<SeedsPoolType> seeds_pool = nullptr;
""", """    expected_max_n_bnd
  );
"""), ("""      throw std::invalid_argument("CoMMA - Error: Seeds pool type unsupported");
  }
""", """      throw std::invalid_argument("CoMMA - Error: Seeds pool type unsupported");
  }
  }
"""), ("    fixed_n_bnd_faces,\n    dimension,", "    n_bnd_faces,\n    dimension,")]),
    ("entry_pool_helper", "C23", CO, [("""constexpr CoMMAIntT iter_agglo_max_iter = 4;
""", """constexpr CoMMAIntT iter_agglo_max_iter = 4;
template<typename I, typename W, typename N>
std::shared_ptr<Seeds_Pool<I, W, N>> make_pool(const std::vector<N> &n_bnd, const std::vector<W> &w, N mx) {
  std::vector<N> fixed(n_bnd.size());
  std::replace_copy_if(n_bnd.begin(), n_bnd.end(), fixed.begin(), [mx](auto n) { return n > mx; }, mx);
  return std::make_shared<Seeds_Pool_Boundary_Priority<I, W, N>>(fixed, w, false);
}
"""), ("""      seeds_pool = std::make_shared<Seeds_Pool_Boundary_Priority<
        CoMMAIndexType,
        CoMMAWeightType,
        CoMMAIntType>>(fixed_n_bnd_faces, priority_weights, false);""", """      seeds_pool = make_pool<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>(n_bnd_faces, priority_weights, expected_max_n_bnd);""")]),
    ("entry_pool_helper_ok", "same", CO, [("""constexpr CoMMAIntT iter_agglo_max_iter = 4;
""", """constexpr CoMMAIntT iter_agglo_max_iter = 4;
template<typename I, typename W, typename N>
std::shared_ptr<Seeds_Pool<I, W, N>> make_pool(const std::vector<N> &n_bnd, const std::vector<W> &w) {
  return std::make_shared<Seeds_Pool_Boundary_Priority<I, W, N>>(n_bnd, w, false);
}
"""), ("""      seeds_pool = std::make_shared<Seeds_Pool_Boundary_Priority<
        CoMMAIndexType,
        CoMMAWeightType,
        CoMMAIntType>>(fixed_n_bnd_faces, priority_weights, false);""", """      seeds_pool = make_pool<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>(fixed_n_bnd_faces, priority_weights);""")]),
    ("weights_ternary_copy", "C23", AG, [("""        s_neighbours_of_seed, priority_weights, this->_dimension
      );""", """        s_neighbours_of_seed, std::vector<CoMMAWeightType>(priority_weights), this->_dimension
      );""")]),
    ("seed_ref_front", "C23", SP, [("const auto seed = this->_l_of_seeds[cur_queue].front();", "const auto &seed = this->_l_of_seeds[cur_queue].front();", 0)]),
    ("spoil_ref_front", "C23", SP, [("      const auto seed = queue.front();\n", "      const auto &seed = queue.front();\n")]),
    ("correct_erase_first", "C23", CC, [("""        if (should_remove) {
          _ccs.erase(old_cc);
          removed_cc.emplace(old_cc);
        }""", """        if (should_remove) {
          _ccs.erase(old_cc);
          if (cur_cc != nullptr) removed_cc.emplace(old_cc);
        }""")]),
    ("correct_fcs_after_erase", "C23", CC, [("""              _ccs[new_cc.value()]->insert_cells(fcs, new_compactness);
              should_remove = true;""", """              _ccs.erase(old_cc);
              _ccs[new_cc.value()]->insert_cells(fcs, new_compactness);
              should_remove = true;""")]),
    ("correct_singular_erase", "C23", CC, [("""          _ccs.erase(old_cc);
          removed_cc.emplace(old_cc);""", """          _ccs.erase(old_cc);
          removed_cc.emplace(old_cc);
          _singular_cc.pop_back();""")]),
    ("aniso_erase", "C23", AG, [("""          it = this->_aniso_neighbours.erase(it);
        else
          ++it;""", """          this->_aniso_neighbours.erase(it);
        ++it;""")]),
    ("delayed_ref", "C23", CC, [("""      create_cc(s_fc, cpt);
    }""", """      create_cc(s_fc, cpt, false, true);
    }""")]),
    ("iter_same_neigh", "C23", AG, [("auto cur_neighbourhood = this->_neigh_crtor->clone(neighbourhood);", "auto cur_neighbourhood = neighbourhood;")]),
    ("neigh_tmp_iter", "C23", DG, [("""        if (!visited[*it]) {
          coda.push_pack(*it);""", """        if (!visited[*it]) {
          coda.push_pack(*it);"""), ("""    for (auto it = neighbours_cbegin(i_fc); it != neighbours_cend(i_fc); ++it) {
      if (!_visited[*it]) {""", """    for (auto it = get_neighbours(i_fc).cbegin(); it != get_neighbours(i_fc).cend(); ++it) {
      if (!_visited[*it]) {""")]),
    ("ret_ref_local", "C23", DG, [("""  ContainerIndexType get_neighbours(const CoMMAIndexType &i_c) const {""", """  const ContainerIndexType &get_neighbours(const CoMMAIndexType &i_c) const {""")]),
    ("no_virtual_dtor", "C23", SP, [("  virtual ~Seeds_Pool() = default;\n", ""), ("  ~Seeds_Pool_Boundary_Priority() override = default;\n", ""), ("  ~Seeds_Pool_Neighbourhood_Priority() override = default;\n", "")]),
    ("clone_static", "same", NB, [("""    return std::make_shared<NeighbourhoodDerivedType>(
      *std::dynamic_pointer_cast<NeighbourhoodDerivedType>(other)
    );""", """    return std::make_shared<NeighbourhoodDerivedType>(
      *std::static_pointer_cast<NeighbourhoodDerivedType>(other)
    );""", 0)]),
    ("clone_shares", "C23", NB, [("""    return std::make_shared<NeighbourhoodDerivedType>(
      *std::dynamic_pointer_cast<NeighbourhoodDerivedType>(other)
    );""", """    return other;""", 1)]),
    ("use_moved_feats", "C23", AG, [("""        cur_cc_feats = std::move(min_ar_cc_feats);
        d_n_of_seed.erase(next_cell);""", """        cur_cc_feats = std::move(min_ar_cc_feats);
        if (min_ar_cc_feats._measure > 0) d_n_of_seed.erase(next_cell);""")]),
    ("raw_get", "C23", AG, [("    _l_nb_of_cells.push_back(graph->_number_of_cells);\n  }", "    _l_nb_of_cells.push_back(graph->_number_of_cells);\n    _fc_graph = std::shared_ptr<Dual_Graph<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>(graph.get());\n  }")]),
    ("lambda_capture_ref", "C23", DG, [("""    _compute_AR = dimension == 2
      ? [](
          const CoMMAWeightType min_s, const CoMMAWeightType max_s
        ) -> CoMMAWeightType { return max_s / min_s; }
    : [](
        const CoMMAWeightType min_s, const CoMMAWeightType max_s
      ) -> CoMMAWeightType { return sqrt(max_s / min_s); };""", """    _compute_AR = [&](
          const CoMMAWeightType min_s, const CoMMAWeightType max_s
        ) -> CoMMAWeightType { return dimension == 2 ? max_s / min_s : sqrt(max_s / min_s); };""")]),
    ("lambda_capture_val", "same", DG, [("""    _compute_AR = dimension == 2
      ? [](
          const CoMMAWeightType min_s, const CoMMAWeightType max_s
        ) -> CoMMAWeightType { return max_s / min_s; }
    : [](
        const CoMMAWeightType min_s, const CoMMAWeightType max_s
      ) -> CoMMAWeightType { return sqrt(max_s / min_s); };""", """    _compute_AR = [dimension](
          const CoMMAWeightType min_s, const CoMMAWeightType max_s
        ) -> CoMMAWeightType { return dimension == 2 ? max_s / min_s : sqrt(max_s / min_s); };""")]),
    ("queue_ref_same", "same", SP, [("""        const auto seed = this->_l_of_seeds[cur_queue].front();
        this->_l_of_seeds[cur_queue].pop_front();
        return seed;""", """        auto &q = this->_l_of_seeds[cur_queue];
        const auto seed = q.front();
        q.pop_front();
        return seed;""", 0)]),
    ("cand_ref_same", "same", AG, [("const auto neighbours = neighbourhood->get_candidates();", "const auto &neighbours = neighbourhood->get_candidates();")]),
    ("refs_local_same", "same", CC, [("      auto &cur_cc = _ccs.at(old_cc);", "      const auto cur_cc = _ccs.at(old_cc);")]),
    ("tmp_dangling_range", "C23", AG, [("""      for (const auto &neigh : cc_neighs) {""", """      for (const auto &neigh : this->_neigh_crtor->create(cc_neighs, priority_weights, this->_dimension)->get_candidates()) {""")]),
    ("extract_bad", "C23", CC, [("for (; it_cc != _ccs.end(); ++new_ID) {", "for (; it_cc != _ccs.end(); ++it_cc, ++new_ID) {"), ("auto node = _ccs.extract(it_cc++);", "auto node = _ccs.extract(it_cc);")]),
]
