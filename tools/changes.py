A = "include/CoMMA/Agglomerator.h"
CCC = "include/CoMMA/Coarse_Cell_Container.h"
CC = "include/CoMMA/Coarse_Cell.h"
DG = "include/CoMMA/Dual_Graph.h"
NB = "include/CoMMA/Neighbourhood.h"
SP = "include/CoMMA/Seeds_Pool.h"
UT = "include/CoMMA/Util.h"
AR = "include/CoMMA/ARComputer.h"
CO = "include/CoMMA/CoMMA.h"
AG = "include/CoMMA/Args.h"
PY = "src/CoMMA.cpp"
CHANGES = [
    ("renumber_from_one", "C02", CCC, [("if (new_ID > 0) {", "if (new_ID > 1) {")]),
    ("limit_ge", "C10", A, [("n_cells + 2 > this->_max_cells_in_line.value()", "n_cells + 2 >= this->_max_cells_in_line.value()")]),
    ("line_tie", "C10", A, [("w_fr == w_bk && l_fr < l_bk", "w_fr == w_bk && l_fr > l_bk")]),
    ("line_no_mark_second", "C09", A, [("to_treat[seed] = false;\n              empty_line", "empty_line")]),
    ("drop_short_coarse_line", "C11", A, [("this->_v_lines[1].push_back(line_lvl_p_one);", "if (line_lvl_p_one->size() > 1) this->_v_lines[1].push_back(line_lvl_p_one);")]),
    ("select_card_gt", "C05", CCC, [("card[idx] < card[ret_cc]", "card[idx] > card[ret_cc]")]),
    ("highest_eq", "C15", SP, [("if (i_fc_bnd >= expected_max) {", "if (i_fc_bnd == expected_max) {")]),
    ("neigh_no_min", "C15", SP, [("? std::min(n_bnd, this->_cur_top_queue.value())", "? n_bnd")]),
    ("sq3d", "C18", AR, [("return _cb(sqx) / _sq(feats._measure);", "return _sq(sqx) / _sq(feats._measure);")]),
    ("insert_cells_card", "C19", CC, [("_cardinality += fcs.size();", "++_cardinality;", 0)]),
    ("insert_cells_overlap", "C19", CC, [("_s_fc.insert(fcs.begin(), fcs.end());", "_s_fc.insert(*fcs.begin());", 0)]),
    ("ar_dim", "C13", A, [("""            CoMMAIndexType,
            CoMMAWeightType,
            CoMMAIntType,
            3>>(graph);""", """            CoMMAIndexType,
            CoMMAWeightType,
            CoMMAIntType,
            2>>(graph);""", 0)]),
    ("iter_max_ge", "C06", CO, [("if (fc_choice_iter > iter_agglo_max_iter)", "if (fc_choice_iter >= iter_agglo_max_iter)")]),
    ("sing_lt0", "C06", CO, [("if (singular_card_thresh <= 0)", "if (singular_card_thresh < 0)")]),
    ("values_size", "C06", CO, [("static_cast<CoMMAIndexType>(adjMatrix_areaValues.size())", "static_cast<CoMMAIndexType>(adjMatrix_col_ind.size())")]),
    ("pf_lt", "C21", NB, [("while (cur_front <= cur_back)", "while (cur_front < cur_back)")]),
    ("pf_keep", "C21", NB, [("if (it != queue.end()) queue.erase(it);", "if (it != queue.end()) {\n        queue.erase(it);\n        break;\n      }")]),
    ("static_dim", "C08", A, [("const auto pts_dim = this->_fc_graph->_centers[0].size();", "static const auto pts_dim = this->_fc_graph->_centers[0].size();", 0)]),
    ("static_dim2", "C08", A, [("const auto pts_dim = this->_fc_graph->_centers[0].size();", "static const auto pts_dim = this->_fc_graph->_centers[0].size();", 1)]),
    ("static_default", "C08", A, [("std::unordered_map<CoMMAIndexType, CoMMAIntType> cur_compact_by_fc{};", "static std::unordered_map<CoMMAIndexType, CoMMAIntType> cur_compact_by_fc{};")]),
    ("no_clear", "C07", CO, [("  fc_to_cc.clear();\n", "")]),
    ("no_clear_lines", "C07", A, [("    aniso_lines_idx.clear();\n    aniso_lines.clear();\n    if (this->_should_agglomerate && !this->_v_lines[level].empty()) {", "    if (this->_should_agglomerate && !this->_v_lines[level].empty()) {\n      aniso_lines_idx.clear();\n      aniso_lines.clear();")]),
    ("neigh_create_by_value", "C23", NB, [("const std::vector<CoMMAWeightType> &weights,\n    CoMMAIntType dimension", "const std::vector<CoMMAWeightType> weights,\n    CoMMAIntType dimension")]),
    ("best_faces_gt", "C25", A, [("if (new_ar < min_ar and number_faces_in_common > 0) {", "if (new_ar <= min_ar and number_faces_in_common > 0) {")]),
    ("best_order", "C25", A, [("if (order <= d_n_of_seed.at(arg_max_faces_in_common)) {", "if (order >= d_n_of_seed.at(arg_max_faces_in_common)) {")]),
    ("iter_order", "C25", A, [("if (order <= d_n_of_seed.at(outer_argmax_faces)) {", "if (order >= d_n_of_seed.at(outer_argmax_faces)) {")]),
    ("iter_ref", "C25", A, [("ref_max_faces = inner_max_faces_in_common;", "ref_max_faces = ref_inner_faces;")]),
    ("py_swap_default", "C12", PY, [('"fc_choice_iter"_a = 1', '"fc_choice_iter"_a = 2')]),
    ("py_dir_default", "C12", PY, [('"force_line_direction"_a = true', '"force_line_direction"_a = false')]),
    ("py_enum", "C12", PY, [('      "BOUNDARY_POINT_INIT",\n      CoMMASeedsPoolT::BOUNDARY_PRIORITY_ONE_POINT_INIT,', '      "BOUNDARY_POINT_INIT",\n      CoMMASeedsPoolT::BOUNDARY_PRIORITY,')]),
    ("args_swap", "C12", CO, [("    agglo.singular_card_thresh,\n", "    agglo.fc_choice_iter,\n"), ("    agglo.fc_choice_iter,\n    agglo.neigh", "    agglo.singular_card_thresh,\n    agglo.neigh")]),
    ("args_dir", "C12", CO, [("    aniso.line_direction,\n", "    aniso.odd_line_length,\n")]),
    ("long_int", "C14", A, [("this->_max_card, static_cast<CoMMAIntType>(d_n_of_seed.size() + 1)", "this->_max_card, static_cast<int>(d_n_of_seed.size() + 1)")]),
    ("min_card_lt", "C04", A, [("if ((this->_min_card <= size_current_cc)", "if ((this->_min_card < size_current_cc)")]),
    ("goal_neq", "C04", A, [("arg_min_card != this->_goal_card)", "arg_min_card == this->_goal_card)")]),
    ("max_ind", "C04", A, [("this->_max_card, static_cast<CoMMAIntType>(d_n_of_seed.size() + 1)\n", "this->_max_card + 1, static_cast<CoMMAIntType>(d_n_of_seed.size() + 1)\n")]),
    ("compact_map", "C19", A, [("            ++cur_compact_by_fc[*neigh];\n", "            if (*neigh != seed) ++cur_compact_by_fc[*neigh];\n")]),
    ("wall_stack", "C20", UT, [("} else if (dist[*neigh] > cur_dist) {", "} else if (dist[*neigh] < cur_dist) {")]),
    ("neigh_cc_self", "C05", CCC, [("if (cc != i_cc) result.insert(cc);", "if (cc > i_cc) result.insert(cc);")]),
    ("dotdev", "C09", UT, [("return fabs(dot) < decltype", "return fabs(dot) <= decltype")]),
    ("coupling", "C09", A, [("return weight > 0.90 * ref_weight;", "return weight >= 0.90 * ref_weight;")]),
    ("tag_ar", "C09", DG, [("if (ar >= threshold_anisotropy) {", "if (ar > threshold_anisotropy) {")]),
    ("conv_thr", "C09", A, [("(threshold_anisotropy > 1 || threshold_anisotropy < 0)", "(threshold_anisotropy >= 1 || threshold_anisotropy < 0)")]),
    ("line_len", "C11", A, [("if (ln_sz > 1) {", "if (ln_sz > 2) {")]),
    ("nb_order", "C21", DG, [("while ((i_order < nb_of_order_of_neighbourhood + 1)\n           ||", "while ((i_order < nb_of_order_of_neighbourhood)\n           ||")]),
    ("restore", "C15", A, [("for (auto i_s = arg_min_card + 1; i_s < max_ind + 1; i_s++) {", "for (auto i_s = arg_min_card + 1; i_s < max_ind; i_s++) {")]),
    ("bnd_est", "C18", DG, [("return std::reduce(this->weights_cbegin(idx_c), this->weights_cend(idx_c))\n      + this->estimated_boundary_weight(idx_c);", "return std::reduce(this->weights_cbegin(idx_c), this->weights_cend(idx_c), CoMMAIntType{0})\n      + this->estimated_boundary_weight(idx_c);")]),
    ("reduce_int", "C18", DG, [("CoMMAWeightType{0.})", "CoMMAIntType{0})")]),
    ("sub_cc_weights", "C24", CC, [("this->_fc_graph->get_weights(i_fc)", "this->_fc_graph->_m_CRS_Values", 1)]),
    ("facet", "C18", AR, [("this->_graph->get_total_n_faces(i_fc) - n_shared_faces;", "this->_graph->get_nb_of_neighbours(i_fc) - n_shared_faces;")]),
    ("coarse_bnd", "C17", UT, [("if (fcs.find(*fc_neigh) == fcs.end()) {", "if (fcs.find(*fc_neigh) == fcs.end() && f2c[*fc_neigh] >= cc) {")]),
    ("spoil_if", "C01", SP, [("for (; !queue.empty() && is_fc_agglomerated[queue.front()];\n         queue.pop_front()) {}", "if (!queue.empty() && is_fc_agglomerated[queue.front()])\n      queue.pop_front();")]),
    ("build_queue_target", "C15", SP, [("_n_bnd_faces[i_fc] == target)", "_n_bnd_faces[i_fc] >= target)")]),
    ("get_shared", "C05", CCC, [("_fc_graph->neighbours_cbegin(i_fc), _fc_graph->neighbours_cend(i_fc), fc", "_fc_graph->neighbours_cbegin(fc), _fc_graph->neighbours_cend(fc), fc")]),
]
