A = "Agglomerator.h"
CCC = "Coarse_Cell_Container.h"
CC = "Coarse_Cell.h"
DG = "Dual_Graph.h"
NB = "Neighbourhood.h"
SP = "Seeds_Pool.h"
UT = "Util.h"
AR = "ARComputer.h"
CO = "CoMMA.h"
AG = "Args.h"
TRIALS = [
    ("c01 spoil no check", "C01", SP, [("!queue.empty() && is_fc_agglomerated[queue.front()]", "!queue.empty() && is_fc_agglomerated[queue.back()]")]),
    ("c01 neighbourhood ignores taken", "C01", DG, [("if ((d_n_of_seed.count(*i_fc_n) == 0)\n              && ((!is_fc_agglomerated_tmp[*i_fc_n]))) {", "if (d_n_of_seed.count(*i_fc_n) == 0) {")]),
    ("c01 neighbourhood tests seed", "C01", DG, [("&& ((!is_fc_agglomerated_tmp[*i_fc_n]))", "&& ((!is_fc_agglomerated_tmp[seed_tmp]))")]),
    ("c01 build queue taken", "C01", SP, [("if (!is_fc_agglomerated[i_fc] && _n_bnd_faces[i_fc] == target)", "if (_n_bnd_faces[i_fc] == target)")]),
    ("c01 cc neigh taken", "C01", DG, [("if (!is_fc_agglomerated_tmp[*n] && s_seeds.find(*n) == s_seeds.end())", "if (s_seeds.find(*n) == s_seeds.end())")]),
    ("c01 aniso not marked", "C01", CCC, [("      if (!_is_fc_agglomerated[i_fc]) {\n        _is_fc_agglomerated[i_fc] = true;", "      if (!_is_fc_agglomerated[i_fc]) {\n        _is_fc_agglomerated[i_fc] = !is_anisotropic;")]),
    ("c01 output shifted", "C01", CO, [("    cc_graph->_fc_2_cc.begin(),\n    cc_graph->_fc_2_cc.end(),\n    std::back_inserter(fc_to_cc),", "    cc_graph->_fc_2_cc.rbegin(),\n    cc_graph->_fc_2_cc.rend(),\n    std::back_inserter(fc_to_cc),")]),
    ("c01 stop one early", "C01", A, [("get_number_of_fc_agglomerated() < nb_of_fc)", "get_number_of_fc_agglomerated() < nb_of_fc - 1)")]),
    ("c02 counter only iso", "C02", CCC, [("      _cc_counter++;\n    } else {", "      if (!s_fc.empty()) _cc_counter += is_anisotropic ? 1 : static_cast<CoMMAIndexType>(s_fc.size() > 0) + (s_fc.size() > 50);\n    } else {")]),
    ("c02 renumber key", "C02", CCC, [("          node.key() = new_ID;", "          node.key() = new_ID + 1;")]),
    ("c02 last removed", "C02", CCC, [("auto new_ID = *(removed_cc.begin());", "auto new_ID = *(removed_cc.rbegin());")]),
    ("c02 renumber f2c skip", "C02", CCC, [("          _fc_2_cc[i_fc] = new_ID;\n        }\n        auto node", "          if (_fc_2_cc[i_fc].value() > new_ID + 1) _fc_2_cc[i_fc] = new_ID;\n        }\n        auto node")]),
    ("c02 removed only if more", "C02", CCC, [("if (!removed_cc.empty()) {", "if (removed_cc.size() > 1) {")]),
    ("c02 merge id old", "C02", CCC, [("                _fc_2_cc[i_fc] = new_cc.value();\n              }\n              _ccs[new_cc.value()]->insert_cells", "                _fc_2_cc[i_fc] = *glob_neighs.begin();\n              }\n              _ccs[new_cc.value()]->insert_cells")]),
    ("c02 left id", "C02", CCC, [("              if (new_cc.has_value()) {\n                _fc_2_cc[i_fc] = new_cc.value();\n                _ccs[new_cc.value()]->insert_cell(i_fc, new_compactness);\n              } else {", "              if (new_cc.has_value()) {\n                _ccs[new_cc.value()]->insert_cell(i_fc, new_compactness);\n              } else {")]),
    ("c03 restore any", "C03", NB, [("          && (this->_s_neighbours_of_seed.count(*it_fc) > 0)) {\n        neighs.emplace(*it_fc, this->_weights[*it_fc]);\n      }\n    }", "          && (this->_s_neighbours_of_seed.count(*it_fc) > 0)) {\n        neighs.emplace(*it_fc, this->_weights[*it_fc]);\n      }\n    }\n    if (neighs.empty())\n      for (const auto &c : this->_s_neighbours_of_seed)\n        if (this->_s_fc.count(c) == 0) neighs.emplace(c, this->_weights[c]);")]),
    ("c03 neighs of neighs", "C03", CCC, [("      if (cc != i_cc) result.insert(cc);", "      if (cc != i_cc) result.insert(cc);\n      for (auto e2 = _fc_graph->neighbours_cbegin(*elem); e2 != _fc_graph->neighbours_cend(*elem); ++e2) {\n        const auto cc2 = _fc_2_cc[*e2].value();\n        if (cc2 != i_cc) result.insert(cc2);\n      }")]),
    ("c03 best zero faces", "C03", A, [("if (new_ar < min_ar and number_faces_in_common > 0) {", "if (new_ar < min_ar) {")]),
    ("c03 any cc", "C03", CCC, [("if (!iso_neighs.empty()) return iso_neighs[0];", "if (!iso_neighs.empty()) return iso_neighs[0];\n    if (!_ccs.empty()) return _ccs.begin()->first;")]),
    ("c04 max ind", "C04", A, [("this->_max_card, static_cast<CoMMAIntType>(d_n_of_seed.size() + 1)", "this->_max_card + 1, static_cast<CoMMAIntType>(d_n_of_seed.size() + 1)")]),
    ("c04 min strict", "C04", A, [("if ((this->_min_card <= size_current_cc)", "if ((this->_min_card < size_current_cc)")]),
    ("c04 goal max", "C04", A, [("< this->_goal_card) {\n      for (auto &i_k_v", "< this->_max_card) {\n      for (auto &i_k_v")]),
    ("c04 small le", "C04", A, [("               < this->_goal_card) {\n      for (auto &i_k_v", "               <= this->_goal_card) {\n      for (auto &i_k_v")]),
    ("c04 compact ge", "C04", A, [("if (cur_compact > max_compact) {", "if (cur_compact >= max_compact) {")]),
    ("c04 faces le", "C04", A, [("(number_of_external_faces_current_cc < min_external_faces) ||", "(number_of_external_faces_current_cc <= min_external_faces) ||")]),
    ("c04 faces once", "C04", A, [("- 2 * max_faces_in_common;", "- max_faces_in_common;")]),
    ("c04 faces no bnd", "C04", A, [("          + this->_fc_graph->get_n_boundary_faces(next_cell) - 1\n", "          - 1\n")]),
    ("c04 params swapped", "C04", CO, [("  agg->agglomerate_one_level(\n    goal_card, min_card, max_card,", "  agg->agglomerate_one_level(\n    goal_card, min_card, goal_card,")]),
    ("c04 min default", "C04", A, [("    if (min_card == 0) {", "    if (min_card <= 2) {")]),
    ("c04 order nb", "C04", DG, [("             < max_card) {", "             < max_card - 1) {")]),
    ("c25 restored from", "C25", A, [("auto i_s = arg_min_card + 1; i_s", "auto i_s = arg_min_card + 2; i_s")]),
    ("c05 always", "C05", A, [("    if (correction_steps) {", "    if (correction_steps || this->_dimension == 3) {")]),
    ("c05 threshold", "C05", CCC, [("if (cur_cc->_cardinality <= _sing_card_thresh) {", "if (cur_cc->_cardinality < _sing_card_thresh) {")]),
    ("c05 no recheck", "C05", CCC, [("if (cur_cc->_cardinality <= _sing_card_thresh) {", "if (true) {")]),
    ("c05 into aniso", "C05", CCC, [("      if (n_cc->_is_isotropic) {\n        iso_neighs.push_back(cc_idx);", "      if (n_cc->_is_isotropic || neighs.size() == 1) {\n        iso_neighs.push_back(cc_idx);")]),
    ("c05 whole into aniso", "C05", CCC, [("      if (n_cc->_is_isotropic) {\n        if (true ) {\n          card[cc_idx] = n_cc->_cardinality;", "      if (n_cc->_is_isotropic || n_cc->_cardinality > 2) {\n        if (true ) {\n          card[cc_idx] = n_cc->_cardinality;")]),
    ("c05 left dropped", "C05", CCC, [("while (should_remove && !left.empty()) {", "if (should_remove && !left.empty()) {")]),
    ("c05 aniso singular", "C05", CCC, [("        if (!is_anisotropic\n            && static_cast", "        if (is_mutable\n            && static_cast"), ("      is_mutable = false;\n", "      is_mutable = s_fc.size() < 3;\n")]),
    ("c05 sing lt", "C05", CCC, [("              <= _sing_card_thresh)\n", "              < _sing_card_thresh)\n")]),
    ("c05 shared faces", "C05", CCC, [("if (cur_shf > cur_max) {", "if (cur_shf >= cur_max) {")]),
    ("c06 dim", "C06", CO, [("if (!(dimension == 2 || dimension == 3))", "if (dimension < 2)")]),
    ("c06 goal", "C06", CO, [("if (!(min_card <= goal_card && goal_card <= max_card))", "if (!(min_card <= goal_card && min_card <= max_card))")]),
    ("c06 after", "C06", CO, [("  if (is_anisotropic) {\n    if (build_anisotropic_lines) {", "  fc_to_cc.clear();\n  if (is_anisotropic) {\n    if (build_anisotropic_lines) {")]),
    ("c06 reject eq", "C06", CO, [("if (min_card <= 1 || goal_card <= 1 || max_card <= 1)", "if (min_card <= 2 || goal_card <= 1 || max_card <= 1)")]),
    ("c06 lines ge", "C06", CO, [("      } else if (agglomerationLines_Idx.back()\n                 != static", "      } else if (agglomerationLines_Idx.back()\n                 > static")]),
    ("c06 no ar throw", "C06", A, [("        throw std::invalid_argument(\"CoMMA - Error: Unknown aspect-ratio type\");", "        _ar_computer = std::make_shared<\n          ARExternalWeights<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>(\n          graph\n        );\n        break;")]),
    ("c07 filter", "C07", UT, [("  filtered.clear();\n  auto target", "  auto target")]),
    ("c07 dist", "C07", UT, [("  dist.resize(neigh_idxs.size() - 1);\n  std::fill(dist.begin(), dist.end(), DistT{-1});", "  dist.resize(neigh_idxs.size() - 1, DistT{-1});")]),
    ("c07 cnbnd", "C07", UT, [("  c_adj.clear();\n", "")]),
    ("c07 prio", "C07", UT, [("  c_volumes.clear();\n  c_volumes.resize(n_cells);\n  std::fill(c_volumes.begin(), c_volumes.end(), RealT{0});", "  c_volumes.resize(n_cells);")]),
    ("c07 centers", "C07", UT, [("  c_centers.clear();\n", "")]),
    ("c07 lines kept", "C07", A, [("    aniso_lines_idx.clear();\n    aniso_lines.clear();\n", "    aniso_lines.clear();\n")]),
    ("c08 static set", "C08", NB, [("    CoMMASetOfPairType neighs;", "    static thread_local CoMMASetOfPairType neighs;")]),
    ("c08 iso first", "C08", CCC, [("if (!iso_neighs.empty()) return iso_neighs[0];", "if (!card.empty()) return card.begin()->first;\n    if (!iso_neighs.empty()) return iso_neighs[0];")]),
    ("c08 order seeds", "C08", SP, [("    std::map<CoMMAIntType, CoMMASetOfPairType, std::greater<>> new_seeds_by_bnd;\n    for (const auto &seed : new_seeds) {\n      new_seeds_by_bnd[this->_n_bnd_faces[seed]].emplace(\n        seed, this->_priority_weights[seed]\n      );\n    }", "    std::map<CoMMAIntType, std::deque<CoMMAPairType>, std::greater<>> new_seeds_by_bnd;\n    for (const auto &seed : new_seeds) {\n      new_seeds_by_bnd[this->_n_bnd_faces[seed]].emplace_back(\n        seed, this->_priority_weights[seed]\n      );\n    }")]),
    ("c08 tie", "C08", UT, [("    if (left.second > right.second) return true;\n    if (left.second < right.second) return false;\n    return left.first < right.first;", "    return left.second > right.second;")]),
    ("c08 tag order", "C08", DG, [("    CoMMASetOfPairType aniso_w_weights{};", "    std::unordered_map<CoMMAIndexType, CoMMAWeightType> aniso_w_weights{};")]),
    ("c09 inverse", "C09", A, [("(threshold_anisotropy > 1 || threshold_anisotropy < 0)", "(threshold_anisotropy >= 0.5 || threshold_anisotropy < 0)")]),
    ("c09 gt", "C09", DG, [("if (ar >= threshold_anisotropy) {", "if (ar > threshold_anisotropy) {")]),
    ("c09 seed not removed", "C09", A, [("      cur_line->push_back(seed);\n      to_treat[seed] = false;\n      bool end", "      cur_line->push_back(seed);\n      bool end")]),
    ("c09 front", "C09", A, [("          if (!opposite_direction_check) {\n            cur_line->push_back(seed);\n          } else {\n            cur_line->push_front(seed);\n          }\n          to_treat", "          cur_line->push_back(seed);\n          to_treat")]),
    ("c09 single", "C09", A, [("      if (cur_line->size() > 1) {\n        this->_v_lines[0]", "      if (cur_line->size() > 0) {\n        this->_v_lines[0]")]),
    ("c09 opp dir", "C09", A, [("                  prev_dir[xyz] = -primal_dir.value()[xyz];", "                  prev_dir[xyz] = primal_dir.value()[xyz];")]),
    ("c09 opposite seed", "C09", A, [("                seed = primal_seed;\n                for", "                seed = cur_line->back();\n                for")]),
    ("c09 candidate untreated", "C09", A, [("if (to_treat[*n_it] && this->is_high_coupling(*w_it, max_weights[seed])) {", "if (to_treat[*n_it] && this->is_high_coupling(*w_it, max_weights[*n_it])) {")]),
    ("c09 all cells", "C09", DG, [("          for (const CoMMAIndexType i_fc : _s_anisotropic_compliant_cells) {\n            aniso_w_weights.emplace(i_fc, priority_weights[i_fc]);\n            max_weights[i_fc] = *(", "          for (CoMMAIndexType i_fc = 0; i_fc < this->_number_of_cells; ++i_fc) {\n            aniso_w_weights.emplace(i_fc, priority_weights[i_fc]);\n            max_weights[i_fc] = *(")]),
    ("c10 odd off", "C10", A, [("              s_fc.insert(*std::next(line_it, 2));\n              n_cells++;", "              s_fc.insert(*std::next(line_it, 2));")]),
    ("c10 left 3", "C10", A, [("            n_left == 3\n", "            n_left <= 3\n")]),
    ("c10 bnd", "C10", A, [("          bnd_fr > bnd_bk\n", "          bnd_fr >= bnd_bk\n")]),
    ("c10 back loop", "C10", A, [("          loop_line(line->crbegin(), line->crend());", "          loop_line(line->cbegin(), line->cend());")]),
    ("c10 limit third", "C10", A, [("n_cells + 1 <= this->_max_cells_in_line.value()", "n_cells + 1 < this->_max_cells_in_line.value()")]),
    ("c10 step", "C10", A, [("            line_it++;\n          }\n          const CoMMAIndexType i_cc", "            if (this->_odd_line_length) line_it++;\n          }\n          const CoMMAIndexType i_cc")]),
    ("c11 level", "C11", CO, [("      1, agglomerationLines_Idx, agglomerationLines\n", "      0, agglomerationLines_Idx, agglomerationLines\n")]),
    ("c11 idx", "C11", A, [("aniso_lines_idx.push_back(line_size + idx);", "aniso_lines_idx.push_back(line_size);")]),
    ("c11 front", "C11", A, [("          line_lvl_p_one->push_back(i_cc);", "          line_lvl_p_one->push_front(i_cc);")]),
    ("c11 rev", "C11", A, [("aniso_lines.end(), line_ptr->cbegin(), line_ptr->cend()", "aniso_lines.end(), line_ptr->crbegin(), line_ptr->crend()")]),
    ("c11 not cleared", "C11", A, [("    aniso_lines_idx.clear();\n    aniso_lines.clear();\n    if", "    if")]),
    ("c13 one point", "C13", CO, [("        CoMMAIntType>>(fixed_n_bnd_faces, priority_weights, true);\n      break;\n    default", "        CoMMAIntType>>(fixed_n_bnd_faces, priority_weights, false);\n      break;\n    default")]),
    ("c13 nbnd", "C13", CO, [("return n > expected_max_n_bnd; }", "return n >= 3; }")]),
    ("c13 iter", "C13", CO, [("if (fc_choice_iter > 1) {", "if (fc_choice_iter > 2) {")]),
    ("c13 coupling", "C13", A, [("this->_cell_coupling == CoMMACellCouplingT::MAX_WEIGHT\n      ? this", "this->_cell_coupling != CoMMACellCouplingT::MAX_WEIGHT\n      ? this")]),
    ("c13 direction", "C13", A, [("if (!this->_force_line_direction || empty_line) {", "if (this->_force_line_direction || empty_line) {")]),
    ("c15 init ge", "C15", SP, [("n_bnd_faces[i_fc] >= max_bnd && comp_op(cur_pair, cur_max)", "comp_op(cur_pair, cur_max)")]),
    ("c15 queue target", "C15", SP, [("_n_bnd_faces[i_fc] == target)", "_n_bnd_faces[i_fc] >= target)")]),
    ("c15 update top", "C15", SP, [("        if (n_bnd > max_bnd) max_bnd = n_bnd;\n", "        max_bnd = n_bnd;\n")]),
    ("c15 distance", "C15", SP, [("distance(queue, this->_l_of_seeds.rend()) - 1;", "distance(this->_l_of_seeds.rbegin(), queue);")]),
    ("c15 greater", "C15", UT, [("    if (left.second < right.second) return false;\n    return left.first < right.first;", "    if (left.second < right.second) return false;\n    return left.first > right.first;")]),
    ("c15 map order", "C15", SP, [("    std::map<CoMMAIntType, CoMMASetOfPairType, std::greater<>> new_seeds_by_bnd;\n    if (!new_seeds.empty()) {", "    std::map<CoMMAIntType, CoMMASetOfPairType> new_seeds_by_bnd;\n    if (!new_seeds.empty()) {")]),
    ("c15 aniso top", "C15", A, [("get_n_boundary_faces(this->_aniso_neighbours.front())", "get_n_boundary_faces(this->_aniso_neighbours.back())")]),
    ("c15 need init", "C15", SP, [("max_bnd.value() > this->_cur_top_queue.value()) {", "max_bnd.value() >= this->_cur_top_queue.value()) {")]),
    ("c16 weight pos", "C16", UT, [("f_weights[fc_neigh - f_adj.cbegin()]", "f_weights[fc_neigh - f_adj.cbegin() - f_adj_idx[fc]]")]),
    ("c16 row end", "C16", DG, [("    return std::next(_m_CRS_Col_Ind.cbegin(), _m_CRS_Row_Ptr[i_c + 1]);", "    return std::next(_m_CRS_Col_Ind.cbegin(), _m_CRS_Row_Ptr[i_c] + get_nb_of_neighbours(0));")]),
    ("c16 w offset", "C16", A, [("    auto w_it = std::next(weights.cbegin(), offset);\n    for", "    auto w_it = std::next(weights.cbegin(), seed);\n    for")]),
    ("c16 max weight seed", "C16", DG, [("max_element(this->weights_cbegin(i_fc), this->weights_cend(i_fc))", "max_element(this->weights_cbegin(i_fc), this->weights_cend(i_fc) - 1)")]),
    ("c16 weights wrong", "C16", DG, [("      _m_CRS_Values.begin() + ind, _m_CRS_Values.begin() + ind_p_one\n    );\n    return result;", "      _m_CRS_Values.begin() + ind, _m_CRS_Values.begin() + ind_p_one - 1\n    );\n    return result;")]),
    ("c16 w_it skip", "C16", DG, [("            for (; n_it != this->neighbours_cend(i_fc); ++n_it, ++w_it) {\n              const auto dist = 1.", "            for (; n_it != this->neighbours_cend(i_fc); ++n_it) {\n              const auto dist = 1.", 1)]),
    ("c17 self", "C17", UT, [("if (fcs.find(*fc_neigh) == fcs.end()) {", "if (*fc_neigh != fc) {")]),
    ("c17 weight", "C17", UT, [("cc_neighs.at(cc_neigh) += f_weights", "cc_neighs.at(cc_neigh) = f_weights")]),
    ("c17 prio", "C17", UT, [("auto priority = std::numeric_limits<RealT>::lowest();", "auto priority = std::numeric_limits<RealT>::min();")]),
    ("c17 bnd", "C17", UT, [("if (f_n_bnd[fc] > n_bnd) n_bnd = f_n_bnd[fc];", "n_bnd += f_n_bnd[fc];"), ("auto n_bnd = std::numeric_limits<IntT>::min();", "auto n_bnd = IntT{0};")]),
    ("c17 centers", "C17", UT, [("c_centers[cc][xyz] += f_volumes[fc] * f_centers[fc][xyz];", "c_centers[cc][xyz] += f_centers[fc][xyz];"), ("const RealT ov_volume(RealT{1.} / c_volumes[cc]);", "const RealT ov_volume(RealT{1.} / fcs.size());")]),
    ("c18 tot", "C18", DG, [("/ this->get_nb_of_neighbours(idx_c);\n#else", "/ this->get_total_n_faces(idx_c);\n#else")]),
    ("c18 total faces", "C18", DG, [("return this->_n_bnd_faces[idx_c] + this->get_nb_of_neighbours(idx_c);", "return this->get_nb_of_neighbours(idx_c);")]),
    ("c19 count", "C19", DG, [("return left.second < right.second;\n               }\n      )->second;", "return left.first < right.first;\n               }\n      )->second;")]),
    ("c19 nb agg", "C19", CCC, [("        _nb_of_agglomerated_fc++;\n      }", "      }\n      _nb_of_agglomerated_fc++;")]),
    ("c19 given compact", "C19", CC, [("    ++_cardinality;\n    _compactness = new_compactness.has_value()\n      ? new_compactness.value()", "    ++_cardinality;\n    _compactness = new_compactness.has_value()\n      ? std::max(_compactness, new_compactness.value())")]),
    ("c19 cur compact", "C19", A, [("cur_compact_by_fc[next_cell] = argmin_compact;", "cur_compact_by_fc[next_cell] = max_faces_in_common;")]),
    ("c19 small", "C19", A, [("      compactness =\n        this->_fc_graph->compute_min_fc_compactness_inside_a_cc(s_current_cc);", "      compactness = s_current_cc.size() > 2 ? 1 : 0;")]),
    ("c20 filter bnd", "C20", UT, [("indices[c + 1] - indices[c] + n_bnd_faces[c])", "indices[c + 1] - indices[c])")]),
    ("c20 stack", "C20", UT, [("        to_visit.emplace(*neigh);\n      } else if (dist[*neigh] > cur_dist) {\n        dist[*neigh] = cur_dist;\n      }", "        if (cur_dist < 100) to_visit.emplace(*neigh);\n      }")]),
    ("c20 neg", "C20", UT, [("[](const auto n) { return n > 0; }", "[](const auto n) { return n > 1; }")]),
    ("c20 unreached", "C20", UT, [("std::fill(dist.begin(), dist.end(), DistT{-1});", "std::fill(dist.begin(), dist.end(), DistT{-1});\n  if (wall.empty()) std::fill(dist.begin(), dist.end(), DistT{0});")]),
    ("c21 clone", "C21", A, [("auto cur_neighbourhood = this->_neigh_crtor->clone(neighbourhood);", "auto cur_neighbourhood = neighbourhood;")]),
    ("c21 dup", "C21", NB, [("      if ((std::find(this->_candidates.begin(), this->_candidates.end(), *it_fc)\n           == this->_candidates.end())\n          && (this->_s_fc.count(*it_fc) == 0)", "      if ((this->_s_fc.count(*it_fc) == 0)")]),
    ("c21 dim", "C21", NB, [("    if (this->_q_neighs_w_weights.size()\n        <= static", "    if (this->_q_neighs_w_weights.size()\n        < static")]),
    ("c21 front", "C21", NB, [("this->_q_neighs_w_weights.push_front(curr_set);", "if (!curr_set.empty()) this->_q_neighs_w_weights.push_front(curr_set);")]),
    ("c22 left", "C22", CCC, [("should_remove = still_left.size() < left.size();", "should_remove = still_left.size() <= left.size();")]),
    ("c22 spoil", "C22", SP, [("    for (; !queue.empty() && is_fc_agglomerated[queue.front()];\n         queue.pop_front()) {}", "    while (!queue.empty() && is_fc_agglomerated[queue.front()])\n      if (queue.size() > 1) queue.pop_front();")]),
    ("c22 wall", "C22", UT, [("      } else if (dist[*neigh] > cur_dist) {\n        dist[*neigh] = cur_dist;", "      } else if (dist[*neigh] >= cur_dist) {\n        dist[*neigh] = cur_dist;\n        to_visit.emplace(*neigh);")]),
    ("c22 line", "C22", A, [("                opposite_direction_check = true;\n              } else {\n                end = true;", "              } else {\n                end = true;")]),
    ("c22 order", "C22", DG, [("      if (d_n_of_order_o.empty()) {\n        break;\n      }", "      if (d_n_of_order_o.empty() && i_order > 1) {\n        break;\n      }")]),
    ("c22 iter", "C22", A, [("          fc_iter - 1,\n", "          fc_iter,\n")]),
    ("c22 dfs", "C22", DG, [("      if (!_visited[*it]) {\n        DFS(*it);", "      if (!_visited[*it] || *it < i_fc) {\n        DFS(*it);")]),
    ("c23 dtor", "C23", NB, [("  virtual ~Neighbourhood() = default;", "  ~Neighbourhood() = default;"), ("  ~Neighbourhood_Extended() override = default;", "  ~Neighbourhood_Extended() = default;"), ("  ~Neighbourhood_Pure_Front() override = default;", "  ~Neighbourhood_Pure_Front() = default;")]),
    ("c24 find", "C24", DG, [("this->_m_CRS_Col_Ind.begin() + this->_m_CRS_Row_Ptr[elem], local_index\n", "this->_m_CRS_Col_Ind.begin() + this->_m_CRS_Row_Ptr[elem + 1], local_index\n")]),
    ("c24 size", "C24", DG, [("*it_bis = *it_bis - (ind_p_one - ind);", "*it_bis = *it_bis - 1;")]),
    ("c24 visited", "C24", DG, [("    _visited.assign(_number_of_cells, false);\n", "")]),
    ("c24 vol", "C24", DG, [("    this->_volumes.erase(volumes_pointer);\n", "    this->_volumes.pop_back();\n")]),
    ("c24 comp", "C24", DG, [("_compactness = std::min(_compactness, this->get_nb_of_neighbours(c));", "_compactness = this->get_nb_of_neighbours(c);")]),
    ("c25 feats", "C25", A, [("              arg_max_faces_in_common = i_fc;\n              min_ar = new_ar;\n              argmin_ar = i_fc;\n              min_ar_cc_feats = std::move(new_min_ar_cc_feats);", "              arg_max_faces_in_common = i_fc;\n              min_ar = new_ar;\n              argmin_ar = i_fc;")]),
    ("c25 ar keep", "C25", A, [("          max_faces_in_common = number_faces_in_common;\n          arg_max_faces_in_common = i_fc;\n          min_ar = new_ar;", "          max_faces_in_common = number_faces_in_common;\n          arg_max_faces_in_common = i_fc;\n          min_ar = std::min(min_ar, new_ar);")]),
    ("c25 gt", "C25", A, [("if (number_faces_in_common >= max_faces_in_common\n", "if (number_faces_in_common > max_faces_in_common\n")]),
    ("c25 order prim", "C25", A, [("bool is_order_primary = false;", "bool is_order_primary = this->_dimension == 3;")]),
    ("c25 cur feats", "C25", A, [("        cur_cc_feats = std::move(min_ar_cc_feats);\n", "        if (size_current_cc < this->_goal_card) cur_cc_feats = std::move(min_ar_cc_feats);\n")]),
    ("c25 depth", "C25", A, [("std::min(max_ind - size_current_cc, this->_fc_iter),", "this->_fc_iter,")]),
    ("c25 inner feats", "C25", A, [("          inner_min_ar_cc_feats,\n          cur_fc,", "          cc_feats,\n          cur_fc,")]),
    ("c25 cur fc", "C25", A, [("      cur_fc.insert(i_fc);\n", "")]),
]
