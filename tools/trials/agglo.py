F = "Agglomerator.h"
GRAB = """          this->_aniso_neighbours.insert(
            this->_aniso_neighbours.end(),
            this->_fc_graph->neighbours_cbegin(*line_it),
            this->_fc_graph->neighbours_cend(*line_it)
          );
          this->_aniso_neighbours.insert(
            this->_aniso_neighbours.end(),
            this->_fc_graph->neighbours_cbegin(*std::next(line_it)),
            this->_fc_graph->neighbours_cend(*std::next(line_it))
          );
"""
EXTEND = """          const auto old_seed = seed;
          seed = candidates.begin()->first;
          if (!opposite_direction_check) {
            cur_line->push_back(seed);
          } else {
            cur_line->push_front(seed);
          }
          to_treat[seed] = false;
          empty_line = false;
          this->_fc_graph->get_center_direction(seed, old_seed, prev_dir);
          if (!primal_dir.has_value()) primal_dir = prev_dir;
"""
EXTEND2 = EXTEND.replace("\n          ", "\n              ").replace("          const auto old", "              const auto old", 1)
BACK = """              if (!opposite_direction_check && seed != primal_seed) {
                seed = primal_seed;
                for (auto xyz = decltype(prev_dir.size()){0};
                     xyz < prev_dir.size();
                     xyz++) {
                  prev_dir[xyz] = -primal_dir.value()[xyz];
                }
                opposite_direction_check = true;
              } else {
                end = true;
              }
"""
BACK2 = """            if (!opposite_direction_check && seed != primal_seed) {
              seed = primal_seed;
              for (auto xyz = decltype(prev_dir.size()){0};
                   xyz < prev_dir.size();
                   xyz++) {
                prev_dir[xyz] = -primal_dir.value()[xyz];
              }
              opposite_direction_check = true;
            } else {
              end = true;
            }
"""
UPD = """      for (auto it = this->_aniso_neighbours.begin();
           it != this->_aniso_neighbours.end();) {
        if (this->_cc_graph->_is_fc_agglomerated[*it])
          it = this->_aniso_neighbours.erase(it);
        else
          ++it;
      }
"""
RANK = """      if (number_faces_in_common >= max_faces_in_common
          or is_order_primary) {
        if (number_faces_in_common == max_faces_in_common or is_order_primary) {
          if (order <= d_n_of_seed.at(arg_max_faces_in_common)) {
            if (order == d_n_of_seed.at(arg_max_faces_in_common)) {
              if (new_ar < min_ar and number_faces_in_common > 0) {
                min_ar = new_ar;
                argmin_ar = i_fc;
                min_ar_cc_feats = std::move(new_min_ar_cc_feats);
                arg_max_faces_in_common = i_fc;
              }
            } else {
              arg_max_faces_in_common = i_fc;
              min_ar = new_ar;
              argmin_ar = i_fc;
              min_ar_cc_feats = std::move(new_min_ar_cc_feats);
            }
          }
        } else {
          max_faces_in_common = number_faces_in_common;
          arg_max_faces_in_common = i_fc;
          min_ar = new_ar;
          argmin_ar = i_fc;
          min_ar_cc_feats = std::move(new_min_ar_cc_feats);
        }
      }
"""
ISO = """  void set_agglomeration_parameter(
"""
SETP = """    std::unordered_map<CoMMAIntType, CoMMAIntType> d_default_min_card = {
      {2, 3}, {3, 6}
    };
    std::unordered_map<CoMMAIntType, CoMMAIntType> d_default_max_card = {
      {2, 5}, {3, 10}
    };
    std::unordered_map<CoMMAIntType, CoMMAIntType> d_default_goal_card = {
      {2, 4}, {3, 8}
    };
    std::unordered_map<CoMMAIntType, CoMMAIntType> d_default_threshold_card = {
      {2, 2}, {3, 3}
    };
    if (min_card == 0) {
      this->_min_card = d_default_min_card.at(this->_dimension);
    } else {
      this->_min_card = min_card;
    }
    if (max_card == 0) {
      this->_max_card = d_default_max_card.at(this->_dimension);
    } else {
      this->_max_card = max_card;
    }
    if (goal_card == 0) {
      this->_goal_card = d_default_goal_card.at(this->_dimension);
    } else {
      this->_goal_card = goal_card;
    }
    this->_threshold_card = d_default_threshold_card.at(this->_dimension);
"""
ARG = """          if (cur_compact > max_compact) {
            max_compact = cur_compact;
            min_external_faces = number_of_external_faces_current_cc;
            arg_min_card = size_current_cc;
          } else if (cur_compact == max_compact) {
            if (
              (number_of_external_faces_current_cc < min_external_faces) ||
              (number_of_external_faces_current_cc == min_external_faces &&
               arg_min_card != this->_goal_card)) {
              min_external_faces = number_of_external_faces_current_cc;
              arg_min_card = size_current_cc;
            }
          }
"""
STORE = """          std::unordered_map<CoMMAIndexType, CoMMAIntType> new_dict;
          new_dict[next_cell] = d_n_of_seed[next_cell];
          std::pair<
            std::unordered_set<CoMMAIndexType>,
            std::unordered_map<CoMMAIndexType, CoMMAIntType>>
            tmp_pair = std::make_pair(tmp_cc, new_dict);
          dict_cc_in_creation[size_current_cc] = tmp_pair;
"""
FEED = """      std::map<CoMMAIntType, std::unordered_set<CoMMAIndexType>>
        neighs_by_order{};
      std::unordered_set<CoMMAIndexType> neighs_not_found{};
      for (const auto &neigh : cc_neighs) {
        if (d_n_of_seed.find(neigh) != d_n_of_seed.end())
          neighs_by_order[d_n_of_seed.at(neigh)].insert(neigh);
        else
          neighs_not_found.insert(neigh);
      }
      for (const auto &[o, neighs] : neighs_by_order)
        if (!neighs.empty())
          this->_seeds_pool->order_new_seeds_and_update(neighs);
      if (!neighs_not_found.empty())
        this->_seeds_pool->order_new_seeds_and_update(neighs_not_found);
"""
CMP = """        CoMMAIntType argmin_compact{0};
        for (auto neigh = this->_fc_graph->neighbours_cbegin(next_cell);
             neigh != this->_fc_graph->neighbours_cend(next_cell);
             ++neigh) {
          if (tmp_cc.find(*neigh) != tmp_cc.end()) {
            ++argmin_compact;
            ++cur_compact_by_fc[*neigh];
          }
        }
        cur_compact_by_fc[next_cell] = argmin_compact;
        const CoMMAIntType cur_compact =
          min_element(
            cur_compact_by_fc.cbegin(), cur_compact_by_fc.cend(), second_less
          )
            ->second;
"""
MAXW = """    const auto offset = this->_fc_graph->_m_CRS_Row_Ptr[seed];
    auto n_it = std::next(this->_fc_graph->_m_CRS_Col_Ind.cbegin(), offset);
    auto w_it = std::next(weights.cbegin(), offset);
    for (; n_it != this->_fc_graph->neighbours_cend(seed); ++n_it, ++w_it) {
      if (to_treat[*n_it] && this->is_high_coupling(*w_it, max_weights[seed])) {
        candidates.emplace(*n_it, *w_it);
      }
    }
"""
FORWARD = """        const bool forward_line =
          bnd_fr > bnd_bk
          || (bnd_fr == bnd_bk &&
              (w_fr > w_bk
               || (w_fr == w_bk && l_fr < l_bk)
               ));
        if (forward_line)
"""
PROV = """      for (auto idx_ptr = agglomerationLines_Idx.cbegin() + 1;
           idx_ptr != agglomerationLines_Idx.cend();
           ++idx_ptr) {
        const auto ln_sz = *idx_ptr - (*(idx_ptr - 1));
        if (ln_sz > 1) {
          this->_v_lines[0].push_back(std::make_shared<AnisotropicLine>(
            agglomerationLines.cbegin() + (*(idx_ptr - 1)),
            agglomerationLines.cbegin() + (*idx_ptr)
          ));
          this->_nb_lines[0]++;
        }
      }
"""
EXPORT = """      for (const auto &line_ptr : this->_v_lines[level]) {
        const CoMMAIndexType line_size = line_ptr->size();
        aniso_lines_idx.push_back(line_size + idx);
        aniso_lines.insert(
          aniso_lines.end(), line_ptr->cbegin(), line_ptr->cend()
        );
        idx += line_size;
      }
"""
TRIALS = [
    ("base: ternary neighbourhood", "same", F, [("""    if (_dimension == 2) {
      _min_neighbourhood = 2;
    } else {
      _min_neighbourhood = 3;
    }
""", """    _min_neighbourhood = _dimension == 2 ? 2 : 3;
""")]),
    ("base: neighbourhood is the dimension", "same", F, [("""    if (_dimension == 2) {
      _min_neighbourhood = 2;
    } else {
      _min_neighbourhood = 3;
    }
""", """    _min_neighbourhood = _dimension;
""")]),
    ("base: negated guard", "same", F, [("if ((_dimension != 2) && (_dimension != 3)) {", "if (!(_dimension == 2 || _dimension == 3)) {")]),
    ("base: moved pointers", "same", F, [("""    _fc_graph(graph),
    _cc_graph(cc_graph),
    _seeds_pool(seeds_pool) {""", """    _fc_graph(graph),
    _cc_graph(std::move(cc_graph)),
    _seeds_pool(std::move(seeds_pool)) {""")]),
    ("provided: index loop", "same", F, [(PROV, """      for (std::size_t l = 1; l < agglomerationLines_Idx.size(); ++l) {
        const auto first = agglomerationLines_Idx[l - 1];
        const auto last = agglomerationLines_Idx[l];
        if (last - first > 1) {
          this->_v_lines[0].push_back(std::make_shared<AnisotropicLine>(
            agglomerationLines.cbegin() + first,
            agglomerationLines.cbegin() + last
          ));
          this->_nb_lines[0]++;
        }
      }
""")]),
    ("provided: count afterwards", "same", F, [(PROV, PROV.replace("          this->_nb_lines[0]++;\n", "")
                                               + "      this->_nb_lines[0] = this->_v_lines[0].size();\n")]),
    ("provided: prev iterator", "same", F, [(PROV, """      auto prev = agglomerationLines_Idx.cbegin();
      for (auto idx_ptr = std::next(prev);
           idx_ptr != agglomerationLines_Idx.cend();
           ++idx_ptr, ++prev) {
        if (*idx_ptr - *prev <= 1) continue;
        this->_v_lines[0].push_back(std::make_shared<AnisotropicLine>(
          agglomerationLines.cbegin() + *prev,
          agglomerationLines.cbegin() + *idx_ptr
        ));
        this->_nb_lines[0]++;
      }
""")]),
    ("ctor: helper for provided lines", "same", F, [
        ("""      this->_nb_lines[0] = 0;
""" + PROV, "      read_lines(agglomerationLines_Idx, agglomerationLines);\n"),
        ("  void update_seeds_pool() {\n", """  void read_lines(const std::vector<CoMMAIndexType> &idx, const std::vector<CoMMAIndexType> &cells) {
    this->_nb_lines[0] = 0;
    for (auto p = idx.cbegin() + 1; p != idx.cend(); ++p) {
      const auto b = *(p - 1);
      const auto e = *p;
      if (e - b > 1) {
        this->_v_lines[0].push_back(std::make_shared<AnisotropicLine>(cells.cbegin() + b, cells.cbegin() + e));
        this->_nb_lines[0]++;
      }
    }
  }
  void update_seeds_pool() {
""")]),
    ("aniso: lambda to a template method", "same", F, [
        ("      auto loop_line = [&](auto begin, auto end) {\n        AnisotropicLinePtr", "      auto loop_line = [&](auto begin, auto end) {\n        const auto limit = this->_max_cells_in_line;\n        AnisotropicLinePtr"),
        ("""          if (this->_max_cells_in_line.has_value()
              && n_cells + 2 > this->_max_cells_in_line.value()) {""", """          if (limit && n_cells + 2 > *limit) {""")]),
    ("aniso: neighbour grabbing helper", "same", F, [
        (GRAB, """          this->grab(*line_it);
          this->grab(*std::next(line_it));
"""),
        ("""              this->_aniso_neighbours.insert(
                this->_aniso_neighbours.end(),
                this->_fc_graph->neighbours_cbegin(*std::next(line_it, 2)),
                this->_fc_graph->neighbours_cend(*std::next(line_it, 2))
              );
""", """              this->grab(*std::next(line_it, 2));
"""),
        ("  void update_seeds_pool() {\n", """  void grab(const CoMMAIndexType c) {
    for (auto n = this->_fc_graph->neighbours_cbegin(c); n != this->_fc_graph->neighbours_cend(c); ++n)
      this->_aniso_neighbours.push_back(*n);
  }
  void update_seeds_pool() {
""")]),
    ("aniso: cells named", "same", F, [
        ("""          std::unordered_set<CoMMAIndexType> s_fc = {
            *line_it, *std::next(line_it)
          };
""", """          const CoMMAIndexType c0 = *line_it;
          const CoMMAIndexType c1 = *(line_it + 1);
          std::unordered_set<CoMMAIndexType> s_fc;
          s_fc.insert(c0);
          s_fc.insert(c1);
"""),
        (GRAB, GRAB.replace("*line_it", "c0").replace("*std::next(line_it)", "c1"))]),
    ("aniso: odd test split", "same", F, [
        ("""          if (
            n_left == 3
            || (
              n_left > 3 && this->_max_cells_in_line.has_value()
              && n_cells + 1 == this->_max_cells_in_line.value())) {
            if (""", """          const bool last_three = n_left == 3;
          const bool limit_next = this->_max_cells_in_line.has_value()
            && n_cells + 1 == this->_max_cells_in_line.value();
          if (last_three || (n_left > 3 && limit_next)) {
            if (""")]),
    ("aniso: direction as if chain", "same", F, [(FORWARD, """        bool forward_line;
        if (bnd_fr != bnd_bk)
          forward_line = bnd_fr > bnd_bk;
        else if (w_fr != w_bk)
          forward_line = w_fr > w_bk;
        else
          forward_line = l_fr < l_bk;
        if (forward_line)
""")]),
    ("aniso: direction negated", "same", F, [(FORWARD + """          loop_line(line->cbegin(), line->cend());
        else
          loop_line(line->crbegin(), line->crend());
""", """        const bool backward_line = bnd_fr < bnd_bk
          || (bnd_fr == bnd_bk && (w_fr < w_bk || (w_fr == w_bk && l_fr >= l_bk)));
        if (backward_line)
          loop_line(line->crbegin(), line->crend());
        else
          loop_line(line->cbegin(), line->cend());
""")]),
    ("aniso: range for over lines", "same", F, [("""      for (auto line_ptr = this->_v_lines[0].begin();
           line_ptr != this->_v_lines[0].end();
           line_ptr++) {
        auto line = *line_ptr;
        if (line->size() <= 1) {
          continue;
        }
""", """      for (const auto &line : this->_v_lines[0]) {
        if (line->size() < 2) continue;
""")]),
    ("aniso: early return", "same", F, [("""    if (this->_should_agglomerate) {
      constexpr bool is_anisotropic""", """    if (!this->_should_agglomerate) {
      this->_seeds_pool->initialize();
      return;
    }
    {
      constexpr bool is_anisotropic"""), ("""      this->update_seeds_pool();
    }
    else
      this->_seeds_pool->initialize();
""", """      this->update_seeds_pool();
    }
""")]),
    ("seeds: erase remove_if", "same", F, [(UPD, """      const auto &taken = this->_cc_graph->_is_fc_agglomerated;
      this->_aniso_neighbours.erase(
        std::remove_if(this->_aniso_neighbours.begin(), this->_aniso_neighbours.end(),
                       [&](const CoMMAIndexType c) { return taken[c]; }),
        this->_aniso_neighbours.end());
""")]),
    ("seeds: rebuilt list", "same", F, [(UPD, """      std::deque<CoMMAIndexType> kept;
      for (const auto c : this->_aniso_neighbours)
        if (!this->_cc_graph->_is_fc_agglomerated[c]) kept.push_back(c);
      this->_aniso_neighbours.swap(kept);
""")]),
    ("seeds: while loop", "same", F, [(UPD, """      auto it = this->_aniso_neighbours.begin();
      while (it != this->_aniso_neighbours.end()) {
        if (!this->_cc_graph->_is_fc_agglomerated[*it]) {
          ++it;
          continue;
        }
        it = this->_aniso_neighbours.erase(it);
      }
""")]),
    ("seeds: outer guard dropped", "same", F, [("""    if (!this->_aniso_neighbours.empty()) {
""" + UPD, "    {\n" + UPD)]),
    ("export: running end", "same", F, [(EXPORT, """      for (const auto &line_ptr : this->_v_lines[level]) {
        idx += line_ptr->size();
        aniso_lines_idx.push_back(idx);
        for (const auto cc : *line_ptr) aniso_lines.push_back(cc);
      }
""")]),
    ("export: back of the index", "same", F, [(EXPORT, """      for (std::size_t l = 0; l < this->_v_lines[level].size(); ++l) {
        const auto &line = *this->_v_lines[level][l];
        aniso_lines_idx.push_back(aniso_lines_idx.back() + line.size());
        std::copy(line.cbegin(), line.cend(), std::back_inserter(aniso_lines));
      }
""")]),
    ("export: size of the cells", "same", F, [(EXPORT, """      for (const auto &line_ptr : this->_v_lines[level]) {
        aniso_lines.insert(
          aniso_lines.end(), line_ptr->cbegin(), line_ptr->cend()
        );
        aniso_lines_idx.push_back(aniso_lines.size());
      }
""")]),
    ("export: early return", "same", F, [("""    if (this->_should_agglomerate && !this->_v_lines[level].empty()) {
      CoMMAIndexType idx = 0;""", """    if (!this->_should_agglomerate || this->_v_lines[level].empty()) return;
    {
      CoMMAIndexType idx = 0;""")]),
    ("lines: extension helper", "same", F, [
        (EXTEND, "          extend(seed, candidates, opposite_direction_check, *cur_line, to_treat, empty_line, prev_dir, primal_dir);\n"),
        (EXTEND2, "              extend(seed, candidates, opposite_direction_check, *cur_line, to_treat, empty_line, prev_dir, primal_dir);\n"),
        ("  inline bool is_high_coupling(\n", """  void extend(CoMMAIndexType &seed, const CoMMASetOfPairType &cand, const bool front, AnisotropicLine &line,
              std::vector<bool> &todo, bool &empty_line, std::vector<CoMMAWeightType> &dir,
              std::optional<std::vector<CoMMAWeightType>> &first_dir) const {
    const auto from = seed;
    seed = cand.begin()->first;
    if (front)
      line.push_front(seed);
    else
      line.push_back(seed);
    todo[seed] = false;
    empty_line = false;
    this->_fc_graph->get_center_direction(seed, from, dir);
    if (!first_dir) first_dir = dir;
  }
  inline bool is_high_coupling(
""")]),
    ("lines: extension lambda", "same", F, [
        (EXTEND, "          extend();\n"), (EXTEND2, "              extend();\n"),
        ("""        CoMMASetOfPairType candidates;
        if (!this->_force""", """        CoMMASetOfPairType candidates;
        const auto extend = [&]() {
""" + EXTEND + """        };
        if (!this->_force""")]),
    ("lines: reversal helper", "same", F, [
        (BACK, "              reverse_or_stop();\n"), (BACK2, "            reverse_or_stop();\n"),
        ("""        CoMMASetOfPairType candidates;
        if (!this->_force""", """        const auto reverse_or_stop = [&]() {
          if (opposite_direction_check || seed == primal_seed) {
            end = true;
            return;
          }
          seed = primal_seed;
          std::transform(primal_dir->cbegin(), primal_dir->cend(), prev_dir.begin(),
                         [](const CoMMAWeightType x) { return -x; });
          opposite_direction_check = true;
        };
        CoMMASetOfPairType candidates;
        if (!this->_force""")]),
    ("lines: merged second search", "same", F, [
        ("""        if (!candidates.empty()) {
""" + EXTEND + """        }
        else  {
          if (this->_force_line_direction && !empty_line) {""", """        if (candidates.empty() && this->_force_line_direction && !empty_line) {
          this->find_cell_candidates_for_line_direction(
            seed, to_treat, ref_weights, max_weights, prev_dir, false, candidates
          );
        }
        if (!candidates.empty()) {
""" + EXTEND + """        }
        else  {
          if (false) {""")]),
    ("lines: while true break", "same", F, [
        ("      while (!end) {", "      while (true) {"),
        ("      bool end = false;\n", ""),
        (BACK, BACK.replace("end = true;", "break;")), (BACK2, BACK2.replace("end = true;", "break;"))]),
    ("lines: seeds test folded", "same", F, [
        ("""      if (!to_treat[i_fc]) {
        continue;
      }
      const auto primal_seed = i_fc;""", """      const auto primal_seed = i_fc;
      if (!to_treat[primal_seed]) continue;""")]),
    ("lines: index loop over seeds", "same", F, [
        ("    for (auto &i_fc : aniso_seeds_pool) {", "    for (std::size_t s = 0; s < aniso_seeds_pool.size(); ++s) {\n      const auto i_fc = aniso_seeds_pool[s];")]),
    ("lines: counter local", "same", F, [
        ("    this->_nb_lines[0] = 0;\n    for (auto &i_fc", "    CoMMAIndexType n_lines = 0;\n    for (auto &i_fc"),
        ("        this->_nb_lines[0] += 1;", "        ++n_lines;"),
        ("    if (this->_nb_lines[0] == 0) {", "    this->_nb_lines[0] = n_lines;\n    if (n_lines == 0) {")]),
    ("lines: return condition", "same", F, [
        ("""                   "anisotropic cells). Skipping anisotropic agglomeration"
                << std::endl;
      return false;
    }
    return true;""", """                   "anisotropic cells). Skipping anisotropic agglomeration"
                << std::endl;
    }
    return this->_nb_lines[0] != 0;""")]),
    ("max weight: iterators of the graph", "same", F, [(MAXW, """    auto w_it = weights.cbegin() + this->_fc_graph->_m_CRS_Row_Ptr[seed];
    for (auto n_it = this->_fc_graph->neighbours_cbegin(seed);
         n_it != this->_fc_graph->neighbours_cend(seed);
         ++n_it, ++w_it) {
      if (!to_treat[*n_it]) continue;
      if (!this->is_high_coupling(*w_it, max_weights[seed])) continue;
      candidates.insert(std::make_pair(*n_it, *w_it));
    }
""")]),
    ("max weight: index loop", "same", F, [(MAXW, """    const auto &row = this->_fc_graph->_m_CRS_Row_Ptr;
    const auto &col = this->_fc_graph->_m_CRS_Col_Ind;
    const auto ref = max_weights[seed];
    for (auto k = row[seed]; k < row[seed + 1]; ++k) {
      const auto c = col[k];
      if (to_treat[c] && this->is_high_coupling(weights[k], ref)) candidates.emplace(c, weights[k]);
    }
""")]),
    ("max weight: for_each", "same", F, [(MAXW, """    auto w_it = weights.cbegin() + this->_fc_graph->_m_CRS_Row_Ptr[seed];
    std::for_each(this->_fc_graph->neighbours_cbegin(seed), this->_fc_graph->neighbours_cend(seed),
      [&](const CoMMAIndexType c) {
        const auto w = *w_it++;
        if (to_treat[c] && this->is_high_coupling(w, max_weights[seed])) candidates.emplace(c, w);
      });
""")]),
    ("direction: deviate first", "same", F, [("if (dot > 0 && !dot_deviate<CoMMAWeightType>(dot))", "if (!dot_deviate<CoMMAWeightType>(dot) && dot > 0)")]),
    ("direction: nested ifs", "same", F, [("""      if (to_treat[*n_it]
          && (!check_weight || this->is_high_coupling(*w_it, max_weights[seed]))) {
        std::vector""", """      if (!to_treat[*n_it]) continue;
      if (check_weight && !this->is_high_coupling(*w_it, max_weights[seed])) continue;
      {
        std::vector""")]),
    ("coupling: flipped", "same", F, [("return weight > 0.90 * ref_weight;", "return ref_weight * 0.9 < weight;")]),
    ("iso: parameters by ternaries", "same", F, [(SETP, """    const bool is_2d = this->_dimension == 2;
    this->_min_card = min_card != 0 ? min_card : (is_2d ? 3 : 6);
    this->_max_card = max_card != 0 ? max_card : (is_2d ? 5 : 10);
    this->_goal_card = goal_card != 0 ? goal_card : (is_2d ? 4 : 8);
    this->_threshold_card = is_2d ? 2 : 3;
""")]),
    ("iso: parameters by helper", "same", F, [(SETP, SETP.split("    if (min_card")[0] + """    const auto pick = [&](CoMMAIntType v, const auto &dflt) { return v == 0 ? dflt.at(this->_dimension) : v; };
    this->_min_card = pick(min_card, d_default_min_card);
    this->_max_card = pick(max_card, d_default_max_card);
    this->_goal_card = pick(goal_card, d_default_goal_card);
    this->_threshold_card = d_default_threshold_card.at(this->_dimension);
""")]),
    ("iso: const tables", "same", F, [("    std::unordered_map<CoMMAIntType, CoMMAIntType> d_default_min_card = {", "    const std::unordered_map<CoMMAIntType, CoMMAIntType> d_default_min_card = {"),
                                     ("    std::unordered_map<CoMMAIntType, CoMMAIntType> d_default_max_card = {", "    static const std::map<CoMMAIntType, CoMMAIntType> d_default_max_card = {")]),
    ("iso: main loop do", "same", F, [("    while (this->_cc_graph->get_number_of_fc_agglomerated() < nb_of_fc) {", "    while (true) {\n      if (this->_cc_graph->get_number_of_fc_agglomerated() >= nb_of_fc) break;")]),
    ("iso: not equal", "same", F, [("""    const CoMMAIndexType nb_of_fc = this->_l_nb_of_cells[0];
    while (this->_cc_graph->get_number_of_fc_agglomerated() < nb_of_fc) {""", """    while (this->_cc_graph->get_number_of_fc_agglomerated() < this->_l_nb_of_cells.front()) {""")]),
    ("iso: inline call arguments", "same", F, [("""      const std::unordered_set<CoMMAIndexType> set_current_cc =
        choose_optimal_cc_and_update_seeds_pool(
          seed.value(), priority_weights, compactness
        );
      constexpr bool is_creation_delayed = false;
      this->_cc_graph->create_cc(
        set_current_cc, compactness, is_anistropic, is_creation_delayed
      );""", """      const auto cells = this->choose_optimal_cc_and_update_seeds_pool(
        *seed, priority_weights, compactness
      );
      this->_cc_graph->create_cc(cells, compactness);""")]),
    ("iso: one round extracted", "same", F, [("""      const auto seed =
        this->_seeds_pool->choose_new_seed(this->_cc_graph->_is_fc_agglomerated
        );
      assert(seed.has_value());
      CoMMAIntType compactness = 0;
      const std::unordered_set<CoMMAIndexType> set_current_cc =
        choose_optimal_cc_and_update_seeds_pool(
          seed.value(), priority_weights, compactness
        );
      constexpr bool is_creation_delayed = false;
      this->_cc_graph->create_cc(
        set_current_cc, compactness, is_anistropic, is_creation_delayed
      );
""", "      one_round(priority_weights);\n"), ("    constexpr bool is_anistropic = false;\n", ""),
        ("  virtual std::unordered_set<CoMMAIndexType>\n  choose_optimal", """  void one_round(const std::vector<CoMMAWeightType> &priority_weights) {
      const auto seed =
        this->_seeds_pool->choose_new_seed(this->_cc_graph->_is_fc_agglomerated
        );
      CoMMAIntType compactness = 0;
      const std::unordered_set<CoMMAIndexType> set_current_cc =
        choose_optimal_cc_and_update_seeds_pool(
          seed.value(), priority_weights, compactness
        );
      this->_cc_graph->create_cc(set_current_cc, compactness, false, false);
  }
  virtual std::unordered_set<CoMMAIndexType>
  choose_optimal""")]),
    ("iso: creator by ternary", "same", F, [("""    if (neighbourhood_type == CoMMANeighbourhoodT::EXTENDED)
      _neigh_crtor = std::make_shared<NeighbourhoodCreatorExtType>();
    else
      _neigh_crtor = std::make_shared<NeighbourhoodCreatorPFType>();
""", """    switch (neighbourhood_type) {
      case CoMMANeighbourhoodT::EXTENDED:
        _neigh_crtor = std::make_shared<NeighbourhoodCreatorExtType>();
        break;
      default:
        _neigh_crtor = std::make_shared<NeighbourhoodCreatorPFType>();
    }
""")]),
    ("iso: computer by factory", "same", F, [
        ("      case DIAMETER: {\n        _ar_computer = std::make_shared<\n          ARDiameter<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>(graph);\n        break;\n      }\n", ""),
        ("      case DIAMETER_OVER_MIN_EDGE: {\n", """      case DIAMETER:
        _ar_computer = make_diameter(graph);
        break;
      case DIAMETER_OVER_MIN_EDGE: {
"""), (ISO, """  static std::shared_ptr<ARComputer<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>> make_diameter(
    std::shared_ptr<Dual_Graph<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>> g) {
    return std::make_shared<ARDiameter<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>(g);
  }
""" + ISO)]),
    ("bi: candidate insertion by keys", "same", F, [("""      for (auto &i_k_v : d_n_of_seed) {
        s_current_cc.insert(i_k_v.first);
      }
""", """      for (const auto &[cell, order] : d_n_of_seed) {
        CoMMAUnused(order);
        s_current_cc.insert(cell);
      }
""")]),
    ("bi: early returns", "same", F, [("""    if (d_n_of_seed.empty()) {
      compactness = 0;
    } else if (""", """    if (d_n_of_seed.empty()) {
      compactness = 0;
      return s_current_cc;
    }
    if (""")]),
    ("bi: size without cast", "same", F, [("""static_cast<CoMMAIntType>(
                 d_n_of_seed.size() + s_current_cc.size()
               )
               < this->_goal_card)""", """1 + static_cast<CoMMAIntType>(d_n_of_seed.size()) < this->_goal_card)""")]),
    ("bi: choice flattened", "same", F, [(ARG, """          const bool fewer = number_of_external_faces_current_cc < min_external_faces;
          const bool tie = number_of_external_faces_current_cc == min_external_faces;
          if (cur_compact > max_compact
              || (cur_compact == max_compact && (fewer || (tie && arg_min_card != this->_goal_card)))) {
            max_compact = cur_compact;
            min_external_faces = number_of_external_faces_current_cc;
            arg_min_card = size_current_cc;
          }
""")]),
    ("bi: stored in place", "same", F, [(STORE, """          dict_cc_in_creation[size_current_cc] = {tmp_cc, {{next_cell, d_n_of_seed[next_cell]}}};
""")]),
    ("bi: stored by emplace", "same", F, [(STORE, """          std::unordered_map<CoMMAIndexType, CoMMAIntType> new_dict;
          new_dict.emplace(next_cell, d_n_of_seed.at(next_cell));
          auto &slot = dict_cc_in_creation[size_current_cc];
          slot.first = tmp_cc;
          slot.second = new_dict;
""")]),
    ("bi: feeding through iterators", "same", F, [(FEED, FEED.replace("""        if (d_n_of_seed.find(neigh) != d_n_of_seed.end())
          neighs_by_order[d_n_of_seed.at(neigh)].insert(neigh);
""", """        const auto found = d_n_of_seed.find(neigh);
        if (found != d_n_of_seed.cend())
          neighs_by_order[found->second].insert(neigh);
"""))]),
    ("bi: feeding negated", "same", F, [(FEED, FEED.replace("""        if (d_n_of_seed.find(neigh) != d_n_of_seed.end())
          neighs_by_order[d_n_of_seed.at(neigh)].insert(neigh);
        else
          neighs_not_found.insert(neigh);
""", """        if (d_n_of_seed.count(neigh) == 0) {
          neighs_not_found.insert(neigh);
          continue;
        }
        neighs_by_order[d_n_of_seed.at(neigh)].insert(neigh);
"""))]),
    ("bi: feeding extracted", "same", F, [(FEED, "      this->feed(cc_neighs, d_n_of_seed);\n"),
        ("  virtual void compute_best_fc_to_add(\n", """  void feed(const std::unordered_set<CoMMAIndexType> &cc_neighs,
            const std::unordered_map<CoMMAIndexType, CoMMAIntType> &d_n_of_seed) {
""" + FEED + """  }
  virtual void compute_best_fc_to_add(
""")]),
    ("bi: compactness extracted", "same", F, [(CMP, "        const CoMMAIntType cur_compact = this->update_compact(next_cell, tmp_cc, cur_compact_by_fc);\n"),
        ("""      constexpr auto second_less = [](const auto &left, const auto &right) {
        return left.second < right.second;
      };
""", ""),
        ("  virtual void compute_best_fc_to_add(\n", """  CoMMAIntType update_compact(const CoMMAIndexType next_cell, const std::unordered_set<CoMMAIndexType> &tmp_cc,
            std::unordered_map<CoMMAIndexType, CoMMAIntType> &cur_compact_by_fc) const {
        CoMMAIntType argmin_compact{0};
        for (auto neigh = this->_fc_graph->neighbours_cbegin(next_cell);
             neigh != this->_fc_graph->neighbours_cend(next_cell);
             ++neigh) {
          if (tmp_cc.count(*neigh) > 0) {
            argmin_compact++;
            cur_compact_by_fc[*neigh] += 1;
          }
        }
        cur_compact_by_fc[next_cell] = argmin_compact;
        return std::min_element(cur_compact_by_fc.begin(), cur_compact_by_fc.end(),
                           [](const auto &l, const auto &r) { return l.second < r.second; })->second;
  }
  virtual void compute_best_fc_to_add(
""")]),
    ("bi: compactness by a loop", "same", F, [(CMP, CMP.split("        const CoMMAIntType cur")[0] + """        CoMMAIntType cur_compact = std::numeric_limits<CoMMAIntType>::max();
        for (const auto &kv : cur_compact_by_fc) cur_compact = std::min(cur_compact, kv.second);
"""), ("""      constexpr auto second_less = [](const auto &left, const auto &right) {
        return left.second < right.second;
      };
""", "")]),
    ("bi: size from the set", "same", F, [("        size_current_cc++;\n        tmp_cc.insert(next_cell);\n", "        tmp_cc.insert(next_cell);\n        ++size_current_cc;\n")]),
    ("bi: restore by range", "same", F, [("""      for (auto i_s = arg_min_card + 1; i_s < max_ind + 1; i_s++) {
        for (auto iKV : dict_cc_in_creation[i_s].second) {
          d_n_of_seed[iKV.first] = iKV.second;
        }
      }
""", """      for (CoMMAIntType i_s = arg_min_card + 1; i_s <= max_ind; ++i_s) {
        const auto &dropped = dict_cc_in_creation[i_s].second;
        for (const auto &[cell, order] : dropped) d_n_of_seed[cell] = order;
      }
""")]),
    ("bi: restore by insert", "same", F, [("""        for (auto iKV : dict_cc_in_creation[i_s].second) {
          d_n_of_seed[iKV.first] = iKV.second;
        }
""", """        const auto &dropped = dict_cc_in_creation[i_s].second;
        d_n_of_seed.insert(dropped.begin(), dropped.end());
""")]),
    ("bi: copy instead of move", "same", F, [("s_current_cc = std::move(dict_cc_in_creation[arg_min_card].first);", "s_current_cc = dict_cc_in_creation[arg_min_card].first;"),
                                           ("cur_cc_feats = std::move(min_ar_cc_feats);", "cur_cc_feats = min_ar_cc_feats;")]),
    ("bi: external faces in steps", "same", F, [("""        number_of_external_faces_current_cc +=
          this->_fc_graph->get_nb_of_neighbours(next_cell)
          + this->_fc_graph->get_n_boundary_faces(next_cell) - 1
          - 2 * max_faces_in_common;
""", """        const CoMMAIntType own_faces = this->_fc_graph->get_nb_of_neighbours(next_cell)
          + this->_fc_graph->get_n_boundary_faces(next_cell) - 1;
        number_of_external_faces_current_cc += own_faces;
        number_of_external_faces_current_cc -= 2 * max_faces_in_common;
""")]),
    ("bi: max order by ternary", "same", F, [("""      std::max(this->_min_neighbourhood, this->_max_card / this->_dimension);""", """      this->_max_card / this->_dimension > this->_min_neighbourhood
      ? this->_max_card / this->_dimension
      : this->_min_neighbourhood;""")]),
    ("bi: for loop growth", "same", F, [("      while (size_current_cc < max_ind) {", "      for (; size_current_cc < max_ind;) {")]),
    ("bi: keys set by loop", "same", F, [("""      const std::unordered_set<CoMMAIndexType> s_neighbours_of_seed =
        d_keys_to_set<CoMMAIndexType, CoMMAIntType>(d_n_of_seed);
""", """      std::unordered_set<CoMMAIndexType> s_neighbours_of_seed;
      for (const auto &kv : d_n_of_seed) s_neighbours_of_seed.insert(kv.first);
""")]),
    ("best: ranking flattened", "same", F, [(RANK, """      const CoMMAIntType best_order = d_n_of_seed.at(arg_max_faces_in_common);
      const bool more = !is_order_primary && number_faces_in_common > max_faces_in_common;
      const bool tie = is_order_primary || number_faces_in_common == max_faces_in_common;
      const bool better = more
        || (tie && (order < best_order
                    || (order == best_order && new_ar < min_ar && number_faces_in_common > 0)));
      if (better) {
        if (more) max_faces_in_common = number_faces_in_common;
        arg_max_faces_in_common = i_fc;
        min_ar = new_ar;
        argmin_ar = i_fc;
        min_ar_cc_feats = std::move(new_min_ar_cc_feats);
      }
""")]),
    ("best: without the primary flag", "same", F, [(RANK, RANK.replace("""          or is_order_primary) {
        if""", """          || is_order_primary) {
        if""").replace("== max_faces_in_common or is_order_primary", "== max_faces_in_common || is_order_primary"))]),
    ("best: update lambda", "same", F, [(RANK, """      const auto keep = [&]() {
        arg_max_faces_in_common = i_fc;
        min_ar = new_ar;
        argmin_ar = i_fc;
        min_ar_cc_feats = std::move(new_min_ar_cc_feats);
      };
      if (number_faces_in_common < max_faces_in_common && !is_order_primary) continue;
      if (number_faces_in_common != max_faces_in_common && !is_order_primary) {
        max_faces_in_common = number_faces_in_common;
        keep();
        continue;
      }
      const auto ref = d_n_of_seed.at(arg_max_faces_in_common);
      if (order < ref) keep();
      else if (order == ref && new_ar < min_ar && number_faces_in_common > 0) keep();
""")]),
    ("best: index loop", "same", F, [("    for (const auto &i_fc : neighbours) {", "    for (std::size_t k = 0; k < neighbours.size(); ++k) {\n      const CoMMAIndexType i_fc = neighbours[k];"),
                                   ("neighbours[0];", "neighbours.front();")]),
    ("iter: copied set", "same", F, [("""      std::unordered_set<CoMMAIndexType> cur_fc{
        s_of_fc_for_current_cc.begin(), s_of_fc_for_current_cc.end()
      };
""", """      std::unordered_set<CoMMAIndexType> cur_fc = s_of_fc_for_current_cc;
""")]),
    ("iter: update before features", "same", F, [("""      cur_neighbourhood->update_it(
        i_fc,
        this->_fc_graph->neighbours_cbegin(i_fc),
        this->_fc_graph->neighbours_cend(i_fc)
      );
""", ""), ("""      CoMMAWeightType inner_ar{-1.};
""", """      cur_neighbourhood->update_it(
        i_fc,
        this->_fc_graph->neighbours_cbegin(i_fc),
        this->_fc_graph->neighbours_cend(i_fc)
      );
      CoMMAWeightType inner_ar{-1.};
""")]),
    ("iter: look-ahead extracted", "same", F, [("""        CoMMAIndexType cur_argmin{0};
        CoMMAIntType cur_max_faces_in_common{0};
        CellFeatures<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>
          cur_min_ar_cc_feats{};
        CoMMAWeightType cur_min_ar{0.};
        this->compute_best_fc_to_add(
          fc_iter - 1,
          cur_neighbourhood,
          d_n_of_seed,
          is_order_primary,
          inner_min_ar_cc_feats,
          cur_fc,
          cur_argmin,
          cur_max_faces_in_common,
          cur_min_ar_cc_feats
        );
""", """        const CoMMAIntType cur_max_faces_in_common = look(
          fc_iter - 1, cur_neighbourhood, d_n_of_seed, is_order_primary, inner_min_ar_cc_feats, cur_fc);
        const CoMMAWeightType cur_min_ar{0.};
"""), ("""  ~Agglomerator_Iterative() override = default;
""", """  ~Agglomerator_Iterative() override = default;
  CoMMAIntType look(const CoMMAIntType depth,
    const std::shared_ptr<
      Neighbourhood<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>> n,
    const std::unordered_map<CoMMAIndexType, CoMMAIntType> &orders,
    const bool &primary,
    const CellFeatures<CoMMAIndexType, CoMMAWeightType, CoMMAIntType> &feats,
    const std::unordered_set<CoMMAIndexType> &cells) const {
    CoMMAIndexType arg{0};
    CoMMAIntType faces{0};
    CellFeatures<CoMMAIndexType, CoMMAWeightType, CoMMAIntType> out{};
    this->compute_best_fc_to_add(depth, n, orders, primary, feats, cells, arg, faces, out);
    return faces;
  }
""")]),
    ("iter: candidates kept", "same", F, [("    for (const auto &i_fc : neighbourhood->get_candidates()) {", "    const auto candidates = neighbourhood->get_candidates();\n    for (auto it = candidates.cbegin(); it != candidates.cend(); ++it) {\n      const auto i_fc = *it;")]),
    ("iter: depth guard flipped", "same", F, [("      if (fc_iter > 1) {", "      if (!(fc_iter <= 1)) {")]),
    # ---- mutants
    ("m: coupling ge", "C09", F, [("return weight > 0.90 * ref_weight;", "return weight >= 0.90 * ref_weight;")]),
    ("m: opposite dir not negated", "C09", F, [("prev_dir[xyz] = -primal_dir.value()[xyz];", "prev_dir[xyz] = primal_dir.value()[xyz];", 0)]),
    ("m: third cell not counted", "C10", F, [("              n_cells++;\n", "")]),
    ("m: line limit ge", "C10", F, [("n_cells + 2 > this->_max_cells_in_line.value()", "n_cells + 2 >= this->_max_cells_in_line.value()")]),
    ("m: max order min", "C04", F, [("std::max(this->_min_neighbourhood, this->_max_card", "std::min(this->_min_neighbourhood, this->_max_card")]),
    ("m: restore from arg", "C25", F, [("for (auto i_s = arg_min_card + 1;", "for (auto i_s = arg_min_card + 2;")]),
    ("m: no erase", "C25", F, [("        d_n_of_seed.erase(next_cell);\n", "")]),
]
