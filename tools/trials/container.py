F = "Coarse_Cell_Container.h"
TRIALS = [
    ("create_cc: helper for marking", "same", F, [
        ("""    for (const auto &i_fc : s_fc) {
      assert(!_fc_2_cc[i_fc].has_value());
      if (!_is_fc_agglomerated[i_fc]) {
        _is_fc_agglomerated[i_fc] = true;
        _nb_of_agglomerated_fc++;
      }
    }
    bool is_mutable = true;""", """    mark_all(s_fc);
    bool is_mutable = true;"""),
        ("""  CoMMAIndexType create_cc(
""", """  void mark_all(const std::unordered_set<CoMMAIndexType> &cells) {
    for (auto it = cells.begin(); it != cells.end(); ++it) {
      const auto c = *it;
      if (_is_fc_agglomerated[c]) continue;
      _is_fc_agglomerated[c] = true;
      ++_nb_of_agglomerated_fc;
    }
  }
  CoMMAIndexType create_cc(
"""),
    ]),
    ("create_cc: flags merged", "same", F, [
        ("""    bool is_mutable = true;
    if (is_anisotropic) {
      _ccs[_cc_counter] = std::make_shared<CoarseCellType>(
        _fc_graph, _cc_counter, s_fc, compactness, !is_anisotropic
      );
      is_mutable = false;
    }
    if (!is_creation_delayed) {
      if (is_mutable) {
        _ccs[_cc_counter] = std::make_shared<CoarseCellType>(
          _fc_graph, _cc_counter, s_fc, compactness
        );
        if (!is_anisotropic
            && static_cast<decltype(_sing_card_thresh)>(s_fc.size())
              <= _sing_card_thresh)
          _singular_cc.emplace_back(_cc_counter);
      }""", """    if (is_anisotropic) {
      _ccs[_cc_counter] = std::make_shared<CoarseCellType>(
        _fc_graph, _cc_counter, s_fc, compactness, false
      );
    }
    if (!is_creation_delayed) {
      if (!is_anisotropic) {
        _ccs[_cc_counter] = std::make_shared<CoarseCellType>(
          _fc_graph, _cc_counter, s_fc, compactness
        );
        const auto n = static_cast<CoMMAIntType>(s_fc.size());
        if (!(n > _sing_card_thresh)) _singular_cc.push_back(_cc_counter);
      }"""),
    ]),
    ("create_cc: id kept in a local", "same", F, [
        ("""      for (const auto &i_fc : s_fc) {
        assert(!_fc_2_cc[i_fc].has_value());
        _fc_2_cc[i_fc] = _cc_counter;
      }
      _cc_counter++;
    } else {
      _delayed_cc.emplace_back(s_fc, compactness);
    }
    return (_cc_counter - 1);""", """      const CoMMAIndexType id = _cc_counter;
      _cc_counter = id + 1;
      for (const auto &i_fc : s_fc) {
        _fc_2_cc[i_fc] = id;
      }
      return id;
    }
    _delayed_cc.push_back(std::make_pair(s_fc, compactness));
    return _cc_counter - 1;"""),
    ]),
    ("shared_faces: plain loops", "same", F, [
        ("""      shared_faces += count(
        _fc_graph->neighbours_cbegin(i_fc), _fc_graph->neighbours_cend(i_fc), fc
      );""", """      for (auto it = _fc_graph->neighbours_cbegin(i_fc);
           it != _fc_graph->neighbours_cend(i_fc); ++it) {
        if (*it == fc) ++shared_faces;
      }"""),
    ]),
    ("select whole: iterator loop and early return", "same", F, [
        ("""    if (!argtrue_compact.empty()) {
      sort(argtrue_compact.begin(), argtrue_compact.end());
      CoMMAIndexType ret_cc{argtrue_compact[0]};
      CoMMAIntType cur_min{card[ret_cc]};
      for (const auto &idx : argtrue_compact) {
        const auto cur_card = card[idx];
        if (cur_card < cur_min) {
          cur_min = cur_card;
          ret_cc = idx;
        }
      }
      new_compactness = compact.at(ret_cc);
      return ret_cc;
    }
    return std::nullopt;
  }
  std::optional<CoMMAIndexType> select_best_cc_to_agglomerate(
""", """    if (argtrue_compact.empty()) return std::nullopt;
    std::sort(argtrue_compact.begin(), argtrue_compact.end());
    CoMMAIndexType ret_cc = argtrue_compact.front();
    CoMMAIntType cur_min = card.at(ret_cc);
    for (auto it = argtrue_compact.begin(); it != argtrue_compact.end(); ++it) {
      if (card.at(*it) < cur_min) {
        ret_cc = *it;
        cur_min = card.at(*it);
      }
    }
    new_compactness = compact[ret_cc];
    return ret_cc;
  }
  std::optional<CoMMAIndexType> select_best_cc_to_agglomerate(
"""),
    ]),
    ("select whole: continue for anisotropic", "same", F, [
        ("""      const auto n_cc = _ccs.at(cc_idx);
      if (n_cc->_is_isotropic) {
        if (true ) {
          card[cc_idx] = n_cc->_cardinality;
          auto tmp_cc = n_cc->_s_fc;
          tmp_cc.insert(fcs.begin(), fcs.end());
          const auto new_cpt =
            _fc_graph->compute_min_fc_compactness_inside_a_cc(tmp_cc);
          compact[cc_idx] = new_cpt;
          if (new_cpt > n_cc->_compactness) {
            argtrue_compact.push_back(cc_idx);
          }
        }
      }
""", """      const auto &n_cc = _ccs.at(cc_idx);
      if (!n_cc->_is_isotropic) continue;
      auto merged = n_cc->_s_fc;
      for (const auto &c : fcs) merged.insert(c);
      const auto cpt = _fc_graph->compute_min_fc_compactness_inside_a_cc(merged);
      compact.emplace(cc_idx, cpt);
      card.emplace(cc_idx, n_cc->_cardinality);
      if (n_cc->_compactness < cpt) argtrue_compact.emplace_back(cc_idx);
"""),
    ]),
    ("select: helper picks candidate by card", "same", F, [
        ("""    if (!argmax_shared_f.empty()) {
      sort(argmax_shared_f.begin(), argmax_shared_f.end());
      CoMMAIndexType ret_cc{argmax_shared_f[0]};
      CoMMAIntType cur_min{card[ret_cc]};
      for (const auto &idx : argmax_shared_f) {
        if (card[idx] < cur_min) {
          ret_cc = idx;
          cur_min = card[ret_cc];
        }
      }
      new_compactness = compact.at(ret_cc);
      return ret_cc;
    }""", """    if (!argmax_shared_f.empty()) {
      const auto ret_cc = smallest_of(argmax_shared_f, card);
      new_compactness = compact.at(ret_cc);
      return ret_cc;
    }"""),
        ("""  std::optional<CoMMAIndexType> select_best_cc_to_agglomerate(
    const CoMMAIndexType fc,""", """  static CoMMAIndexType smallest_of(
    std::deque<CoMMAIndexType> cands,
    const std::unordered_map<CoMMAIndexType, CoMMAIntType> &card
  ) {
    std::sort(cands.begin(), cands.end());
    CoMMAIndexType best = cands.front();
    CoMMAIntType best_card = card.at(best);
    for (const auto &c : cands) {
      const auto cc = card.at(c);
      if (cc < best_card) {
        best = c;
        best_card = cc;
      }
    }
    return best;
  }
  std::optional<CoMMAIndexType> select_best_cc_to_agglomerate(
    const CoMMAIndexType fc,"""),
    ]),
    ("select: blocks reordered", "same", F, [
        ("""          const auto cur_card = n_cc->_cardinality;
          card[cc_idx] = cur_card;
          if (cur_card < min_card) {
            min_card = cur_card;
            argmin_card.clear();
            argmin_card.push_back(cc_idx);
          } else if (cur_card == min_card) {
            argmin_card.push_back(cc_idx);
          }
          const auto cur_sf = get_shared_faces(fc, n_cc);
          shared_faces[cc_idx] = cur_sf;
          if (cur_sf > max_shared_f) {
            max_shared_f = cur_sf;
            argmax_shared_f.clear();
            argmax_shared_f.push_back(cc_idx);
          } else if (cur_sf == max_shared_f) {
            argmax_shared_f.push_back(cc_idx);
          }
""", """          const auto cur_sf = get_shared_faces(fc, n_cc);
          shared_faces[cc_idx] = cur_sf;
          if (cur_sf >= max_shared_f) {
            if (cur_sf > max_shared_f) {
              max_shared_f = cur_sf;
              argmax_shared_f.clear();
            }
            argmax_shared_f.push_back(cc_idx);
          }
          const auto cur_card = n_cc->_cardinality;
          card[cc_idx] = cur_card;
          if (cur_card == min_card) {
            argmin_card.push_back(cc_idx);
          } else if (cur_card < min_card) {
            argmin_card.clear();
            argmin_card.push_back(cc_idx);
            min_card = cur_card;
          }
"""),
    ]),
    ("correct: helper for moving one cell", "same", F, [
        ("""              if (new_cc.has_value()) {
                _fc_2_cc[i_fc] = new_cc.value();
                _ccs[new_cc.value()]->insert_cell(i_fc, new_compactness);
                should_remove = true;
                moved = true;
              }""", """              if (new_cc.has_value()) {
                move_to(i_fc, *new_cc, new_compactness);
                should_remove = true;
                moved = true;
              }"""),
        ("""  void correct(const CoMMAIntType max_card) {""", """  void move_to(
    const CoMMAIndexType cell, const CoMMAIndexType target,
    const std::optional<CoMMAIntType> &cpt
  ) {
    _ccs.at(target)->insert_cell(cell, cpt);
    _fc_2_cc[cell] = target;
  }
  void correct(const CoMMAIntType max_card) {"""),
    ]),
    ("correct: early continue", "same", F, [
        ("""      auto &cur_cc = _ccs.at(old_cc);
      if (cur_cc->_cardinality <= _sing_card_thresh) {
""", """      auto &cur_cc = _ccs.at(old_cc);
      if (cur_cc->_cardinality > _sing_card_thresh) {
        continue;
      }
      {
"""),
    ]),
    ("correct: renumbering with while", "same", F, [
        ("""      for (; it_cc != _ccs.end(); ++new_ID) {
        for (auto const &i_fc : it_cc->second->_s_fc) {
          _fc_2_cc[i_fc] = new_ID;
        }
        auto node = _ccs.extract(it_cc++);
        if (!node.empty()) {
          node.key() = new_ID;
          _ccs.insert(std::move(node));
        }
      }""", """      while (it_cc != _ccs.end()) {
        for (auto const &i_fc : it_cc->second->_s_fc) {
          _fc_2_cc[i_fc] = new_ID;
        }
        const auto cur = it_cc++;
        auto node = _ccs.extract(cur);
        if (!node.empty()) {
          node.key() = new_ID;
          _ccs.insert(std::move(node));
        }
        ++new_ID;
      }"""),
    ]),
    # ------------------------------------------------------------ defects
    ("create_cc: singular strict", "C05", F, [
        ("""              <= _sing_card_thresh)
          _singular""", """              < _sing_card_thresh)
          _singular""")]),
    ("correct: threshold not rechecked", "C05", F, [
        ("if (cur_cc->_cardinality <= _sing_card_thresh) {", "if (cur_cc->_cardinality >= 1) {")]),
    ("correct: whole compactness not passed", "C19", F, [
        ("_ccs[new_cc.value()]->insert_cells(fcs, new_compactness);", "_ccs[new_cc.value()]->insert_cells(fcs, cur_cc->_compactness);")]),
    ("correct: renumber from last", "C02", F, [
        ("auto new_ID = *(removed_cc.begin());", "auto new_ID = *(removed_cc.rbegin());")]),
    ("select: tie on card dropped", "C05", F, [
        ("} else if (cur_shf == cur_max && card[idx] < card[ret_cc]) {", "} else if (cur_shf == cur_max && card[idx] <= card[ret_cc]) {")]),
    ("create_cc: flag not counted", "C19", F, [
        ("""        _is_fc_agglomerated[i_fc] = true;
        _nb_of_agglomerated_fc++;
      }""", """        _is_fc_agglomerated[i_fc] = true;
      }
      _nb_of_agglomerated_fc++;""")]),
]
