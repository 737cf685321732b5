F = "Coarse_Cell_Container.h"
C = "Coarse_Cell.h"
TRIALS = [
    ("neighs: range over copy", "same", F, [("""    for (auto elem = _fc_graph->neighbours_cbegin(i_fc);
         elem != _fc_graph->neighbours_cend(i_fc);
         ++elem) {
      const auto cc = _fc_2_cc[*elem].value();
      if (cc != i_cc) result.insert(cc);
    }
    return result;""", """    for (const auto &neigh : _fc_graph->get_neighbours(i_fc)) {
      const auto cc = *_fc_2_cc[neigh];
      if (cc == i_cc) continue;
      result.emplace(cc);
    }
    return result;""")]),
    ("neighs: all then erase", "same", F, [("""      const auto cc = _fc_2_cc[*elem].value();
      if (cc != i_cc) result.insert(cc);
    }
    return result;""", """      result.insert(_fc_2_cc[*elem].value());
    }
    result.erase(i_cc);
    return result;""")]),
    ("neighs: for_each", "same", F, [("""    for (auto elem = _fc_graph->neighbours_cbegin(i_fc);
         elem != _fc_graph->neighbours_cend(i_fc);
         ++elem) {
      const auto cc = _fc_2_cc[*elem].value();
      if (cc != i_cc) result.insert(cc);
    }
    return result;""", """    std::for_each(
      _fc_graph->neighbours_cbegin(i_fc),
      _fc_graph->neighbours_cend(i_fc),
      [&](const auto &neigh) {
        const auto cc = _fc_2_cc[neigh].value();
        if (cc != i_cc) result.insert(cc);
      }
    );
    return result;""")]),
    ("correct: guard continue", "same", F, [("""      auto &cur_cc = _ccs.at(old_cc);
      if (cur_cc->_cardinality <= _sing_card_thresh) {""", """      auto &cur_cc = _ccs.at(old_cc);
      const bool small = !(cur_cc->_cardinality > _sing_card_thresh);
      if (small) {""")]),
    ("correct: glob neighs in first loop", "same", F, [("""          neighs_by_fc.emplace(i_fc, get_neighs_cc(i_fc, old_cc));
        }""", """          neighs_by_fc[i_fc] = get_neighs_cc(i_fc, old_cc);
        }""")]),
    ("correct: assign helper", "same", F, [("""                _fc_2_cc[i_fc] = new_cc.value();
                _ccs[new_cc.value()]->insert_cell(i_fc, new_compactness);
                should_remove = true;
                moved = true;""", """                move_cell(i_fc, *new_cc, new_compactness);
                should_remove = true;
                moved = true;"""), ("""                _fc_2_cc[i_fc] = new_cc.value();
                _ccs[new_cc.value()]->insert_cell(i_fc, new_compactness);
              } else {""", """                move_cell(i_fc, *new_cc, new_compactness);
              } else {"""), ("""  void correct(const CoMMAIntType max_card) {
""", """  void move_cell(
    const CoMMAIndexType cell,
    const CoMMAIndexType target,
    const std::optional<CoMMAIntType> &compactness
  ) {
    _ccs.at(target)->insert_cell(cell, compactness);
    _fc_2_cc[cell] = target;
  }
  void correct(const CoMMAIntType max_card) {
""")]),
    ("correct: renumber helper", "same", F, [("""    if (!removed_cc.empty()) {
      auto new_ID""", """    if (!removed_cc.empty()) renumber_from(*removed_cc.begin());
  }
  void renumber_from(const CoMMAIndexType first) {
    {
      auto new_ID"""), ("new_ID = *(removed_cc.begin());", "new_ID = first;")]),
    ("correct: dissolve helper", "same", F, [("""        if (should_remove) {
          _ccs.erase(old_cc);
          removed_cc.emplace(old_cc);
        }""", """        if (should_remove) {
          removed_cc.insert(old_cc);
          _ccs.erase(_ccs.find(old_cc));
        }""")]),
    ("correct: first removed kept", "same", F, [("""    std::set<typename decltype(_singular_cc)::value_type> removed_cc{};
""", """    std::vector<CoMMAIndexType> removed_cc{};
"""), ("removed_cc.emplace(old_cc);", "removed_cc.push_back(old_cc);"), ("auto new_ID = *(removed_cc.begin());", "auto new_ID = *std::min_element(removed_cc.begin(), removed_cc.end());")]),
    ("correct: lower bound", "same", F, [("""      auto it_cc = _ccs.begin();
      if (new_ID > 0) {
        it_cc = _ccs.find(new_ID - 1);
        ++it_cc;
      }
""", """      auto it_cc = new_ID > 0 ? std::next(_ccs.find(new_ID - 1)) : _ccs.begin();
""")]),
    ("correct: no node check", "same", F, [("""        if (!node.empty()) {
          node.key() = new_ID;
          _ccs.insert(std::move(node));
        }""", """        node.key() = new_ID;
        _ccs.insert(std::move(node));""")]),
    ("correct: index loop singular", "same", F, [("    for (const auto &old_cc : _singular_cc) {\n      auto &cur_cc", "    for (std::size_t k = 0; k < _singular_cc.size(); ++k) {\n      const auto old_cc = _singular_cc[k];\n      auto &cur_cc")]),
    ("correct: left vector", "same", F, [("std::deque<CoMMAIndexType> left{};", "std::vector<CoMMAIndexType> left{};"), ("std::deque<CoMMAIndexType> still_left{};", "std::vector<CoMMAIndexType> still_left{};"), ("left = std::move(still_left);", "left.swap(still_left);")]),
    ("correct: no moved flag", "same", F, [("""                should_remove = true;
                moved = true;
              }
            }
            if (!moved) left.push_back(i_fc);""", """                should_remove = true;
              } else {
                left.push_back(i_fc);
              }
            } else {
              left.push_back(i_fc);
            }"""), ("            bool moved = false;\n", "")]),
    ("select whole: constant condition removed", "same", F, [("""        if (true ) {
          card[cc_idx] = n_cc->_cardinality;
          auto tmp_cc = n_cc->_s_fc;
          tmp_cc.insert(fcs.begin(), fcs.end());
          const auto new_cpt =
            _fc_graph->compute_min_fc_compactness_inside_a_cc(tmp_cc);
          compact[cc_idx] = new_cpt;
          if (new_cpt > n_cc->_compactness) {
            argtrue_compact.push_back(cc_idx);
          }
        }""", """        card.emplace(cc_idx, n_cc->_cardinality);
        auto tmp_cc = fcs;
        tmp_cc.insert(n_cc->_s_fc.begin(), n_cc->_s_fc.end());
        const auto new_cpt =
          _fc_graph->compute_min_fc_compactness_inside_a_cc(tmp_cc);
        compact.emplace(cc_idx, new_cpt);
        if (n_cc->_compactness < new_cpt) argtrue_compact.push_back(cc_idx);""")]),
    ("select whole: no sort", "same", F, [("""      sort(argtrue_compact.begin(), argtrue_compact.end());
      CoMMAIndexType ret_cc{argtrue_compact[0]};
      CoMMAIntType cur_min""", """      CoMMAIndexType ret_cc{argtrue_compact.front()};
      CoMMAIntType cur_min""")]),
    ("select whole: min_element", "same", F, [("""      CoMMAIntType cur_min{card[ret_cc]};
      for (const auto &idx : argtrue_compact) {
        const auto cur_card = card[idx];
        if (cur_card < cur_min) {
          cur_min = cur_card;
          ret_cc = idx;
        }
      }
""", """      ret_cc = *std::min_element(
        argtrue_compact.begin(),
        argtrue_compact.end(),
        [&card](const auto a, const auto b) { return card.at(a) < card.at(b); }
      );
""")]),
    ("select whole: card of the best", "same", F, [("""      CoMMAIntType cur_min{card[ret_cc]};
      for (const auto &idx : argtrue_compact) {
        const auto cur_card = card[idx];
        if (cur_card < cur_min) {
          cur_min = cur_card;
          ret_cc = idx;
        }
      }
""", """      for (const auto &idx : argtrue_compact) {
        if (card.at(idx) < card.at(ret_cc)) ret_cc = idx;
      }
""")]),
    ("select whole: last of equals", "C05", F, [("        if (cur_card < cur_min) {\n          cur_min = cur_card;", "        if (cur_card <= cur_min) {\n          cur_min = cur_card;")]),
    ("select whole: all of one", "same", F, [("""        if (true ) {
          card[cc_idx] = n_cc->_cardinality;
          auto tmp_cc = n_cc->_s_fc;
          tmp_cc.insert(fcs.begin(), fcs.end());
""", """        {
          card[cc_idx] = n_cc->_cardinality;
          auto tmp_cc = fcs;
          tmp_cc.insert(n_cc->_s_fc.begin(), n_cc->_s_fc.end());
""")]),
    ("select whole: emplaced", "same", F, [("          card[cc_idx] = n_cc->_cardinality;\n          auto tmp_cc = n_cc->_s_fc;\n          tmp_cc.insert(fcs", "          card.emplace(cc_idx, n_cc->_cardinality);\n          auto tmp_cc = n_cc->_s_fc;\n          tmp_cc.insert(fcs")]),
    ("select: nullopt first", "same", F, [("""    if (!iso_neighs.empty()) return iso_neighs[0];
    return std::nullopt;""", """    if (iso_neighs.empty()) return std::nullopt;
    return iso_neighs.front();""")]),
    ("select: compactness helper", "same", F, [("""          auto tmp_cc = n_cc->_s_fc;
          tmp_cc.insert(fc);
          const auto new_cpt =
            _fc_graph->compute_min_fc_compactness_inside_a_cc(tmp_cc);
""", """          const auto new_cpt = compactness_with(n_cc, fc);
"""), ("""  inline CoMMAIntType get_shared_faces(
""", """  CoMMAIntType compactness_with(
    const CoarseCellPtr &cell, const CoMMAIndexType added
  ) const {
    std::unordered_set<CoMMAIndexType> cells(cell->_s_fc);
    cells.emplace(added);
    return _fc_graph->compute_min_fc_compactness_inside_a_cc(cells);
  }
  inline CoMMAIntType get_shared_faces(
""")]),
    ("select: tracking lambda", "same", F, [("""          if (cur_card < min_card) {
            min_card = cur_card;
            argmin_card.clear();
            argmin_card.push_back(cc_idx);
          } else if (cur_card == min_card) {
            argmin_card.push_back(cc_idx);
          }""", """          if (cur_card <= min_card) {
            if (cur_card < min_card) {
              argmin_card.clear();
              min_card = cur_card;
            }
            argmin_card.push_back(cc_idx);
          }""")]),
    ("create: merged branches", "same", F, [("""    bool is_mutable = true;
    if (is_anisotropic) {
      _ccs[_cc_counter] = std::make_shared<CoarseCellType>(
        _fc_graph, _cc_counter, s_fc, compactness, !is_anisotropic
      );
      is_mutable = false;
    }
    if (!is_creation_delayed) {
      if (is_mutable) {""", """    if (is_anisotropic) {
      _ccs[_cc_counter] = std::make_shared<CoarseCellType>(
        _fc_graph, _cc_counter, s_fc, compactness, false
      );
    }
    if (!is_creation_delayed) {
      if (!is_anisotropic) {"""), ("""        if (!is_anisotropic
            && static_cast<decltype(_sing_card_thresh)>(s_fc.size())
              <= _sing_card_thresh)
""", """        if (static_cast<CoMMAIntType>(s_fc.size()) <= _sing_card_thresh)
""")]),
    ("create: delayed early return", "same", F, [("""    if (!is_creation_delayed) {
      if (is_mutable) {""", """    if (is_creation_delayed) {
      _delayed_cc.emplace_back(s_fc, compactness);
      return _cc_counter - 1;
    }
    {
      if (is_mutable) {"""), ("""    } else {
      _delayed_cc.emplace_back(s_fc, compactness);
    }
    return (_cc_counter - 1);""", """    }
    return (_cc_counter - 1);""")]),
    ("create: counter first", "same", F, [("""        _fc_2_cc[i_fc] = _cc_counter;
      }
      _cc_counter++;""", """        _fc_2_cc[i_fc].emplace(_cc_counter);
      }
      _cc_counter += 1;""")]),
    ("delayed: index loop", "same", F, [("""    for (const auto &[s_fc, cpt] : _delayed_cc) {
      create_cc(s_fc, cpt);
    }""", """    for (auto it = _delayed_cc.cbegin(); it != _delayed_cc.cend(); ++it) {
      create_cc(it->first, it->second, false, false);
    }""")]),
    ("delayed: taken out", "same", F, [("""    for (const auto &[s_fc, cpt] : _delayed_cc) {
      create_cc(s_fc, cpt);
    }
    _delayed_cc.clear();""", """    const auto delayed = std::move(_delayed_cc);
    _delayed_cc.clear();
    for (const auto &cc : delayed) create_cc(cc.first, cc.second);""")]),
    ("cell: if else", "same", C, [("""    _s_fc.insert(i_fc);
    ++_cardinality;
    _compactness = new_compactness.has_value()
      ? new_compactness.value()
      : _fc_graph->compute_min_fc_compactness_inside_a_cc(_s_fc);""", """    ++_cardinality;
    _s_fc.emplace(i_fc);
    update_compactness(new_compactness);"""), ("""    _s_fc.insert(fcs.begin(), fcs.end());
    _cardinality += fcs.size();
    _compactness = new_compactness.has_value()
      ? new_compactness.value()
      : _fc_graph->compute_min_fc_compactness_inside_a_cc(_s_fc);
  }
};""", """    for (const auto &fc : fcs) _s_fc.insert(fc);
    _cardinality += static_cast<CoMMAIntType>(fcs.size());
    update_compactness(new_compactness);
  }
protected:
  void update_compactness(const std::optional<CoMMAIntType> &given) {
    if (given) {
      _compactness = *given;
    } else {
      _compactness = _fc_graph->compute_min_fc_compactness_inside_a_cc(_s_fc);
    }
  }
};""")]),
    ("subcell: count and value_or", "same", C, [("""        if (std::find(this->_s_fc.begin(), this->_s_fc.end(), *n_it)
            != this->_s_fc.end()) {""", """        if (this->_s_fc.count(*n_it) > 0) {""")]),
    ("subcell: transform", "same", C, [("""    for (auto it = col_ind.begin(); it != col_ind.end(); ++it) {
      auto indx = std::find(mapping.begin(), mapping.end(), *it);
      CSR_col.push_back(indx - mapping.begin());
    }""", """    CSR_col.reserve(col_ind.size());
    for (const auto &glob : col_ind) {
      CSR_col.push_back(std::distance(
        mapping.begin(), std::find(mapping.begin(), mapping.end(), glob)
      ));
    }""")]),
    ("m: cell card", "C19", C, [("_cardinality += fcs.size();\n    _compactness", "_cardinality = fcs.size();\n    _compactness")]),
    ("m: correct erase after", "C02", F, [("          removed_cc.emplace(old_cc);\n", "          if (should_remove && cur_cc != nullptr && old_cc > 0) removed_cc.emplace(old_cc);\n")]),
]
