"""Seeds_Pool.h and Neighbourhood.h"""
S = "Seeds_Pool.h"
N = "Neighbourhood.h"

FULL = """    CoMMASetOfPairType tmp_set{};
    for (auto i_fc = decltype(n_bnd_faces.size()){0}; i_fc < n_bnd_faces.size();
         ++i_fc) {
      if (n_bnd_faces[i_fc] >= max_bnd)
        tmp_set.emplace(i_fc, priority_weights[i_fc]);
    }
    for (const auto &idx : tmp_set)
      queue.push_back(idx.first);
"""
ONE = """      const CoMMAPairType cur_pair{i_fc, priority_weights[i_fc]};
      if (n_bnd_faces[i_fc] >= max_bnd && comp_op(cur_pair, cur_max))
        cur_max = std::move(cur_pair);
"""
SPOIL = """    for (; !queue.empty() && is_fc_agglomerated[queue.front()];
         queue.pop_front()) {}
    if (!queue.empty()) {
      const auto seed = queue.front();
      queue.pop_front();
      return seed;
    }
    return std::nullopt;
"""
BUILD = """    for (auto i_fc = decltype(_n_bnd_faces.size()){0};
         i_fc < _n_bnd_faces.size();
         ++i_fc) {
      if (!is_fc_agglomerated[i_fc] && _n_bnd_faces[i_fc] == target)
        tmp_set.emplace(i_fc, _priority_weights[i_fc]);
    }
    for (const auto &idx : tmp_set)
      _l_of_seeds[target].push_back(idx.first);
"""
HIGH = """      if (!is_fc_agglomerated[i_fc]) {
        const auto i_fc_bnd = _n_bnd_faces[i_fc];
        if (!max_bnd.has_value()) max_bnd = i_fc_bnd;
        if (i_fc_bnd >= expected_max) {
          return i_fc_bnd;
        }
        if (i_fc_bnd > max_bnd) {
          max_bnd = i_fc_bnd;
        }
      }
"""
EMPTY = """    if (!_l_of_seeds.empty()) {
      switch (i_level) {
        case CoMMACellT::INTERIOR:
          return _l_of_seeds[CoMMACellT::INTERIOR].empty();
        case CoMMACellT::VALLEY:
          return _l_of_seeds[CoMMACellT::VALLEY].empty();
        case CoMMACellT::RIDGE:
          return _l_of_seeds[CoMMACellT::RIDGE].empty();
        case CoMMACellT::CORNER:
          return _l_of_seeds[CoMMACellT::CORNER].empty();
        case CoMMACellT::N_CELL_TYPES:
        default:
          return _l_of_seeds[CoMMACellT::INTERIOR].empty()
            && _l_of_seeds[CoMMACellT::VALLEY].empty()
            && _l_of_seeds[CoMMACellT::RIDGE].empty()
            && _l_of_seeds[CoMMACellT::CORNER].empty();
      }
    }
    return true;
"""
BCHOOSE = """    if (this->_cur_top_queue.has_value()) {
      auto opt_seed = this->spoil_queue(
        is_agglomerated, this->_l_of_seeds[this->_cur_top_queue.value()]
      );
      if (opt_seed.has_value()) return opt_seed.value();
      auto opt_top = this->get_highest_n_bnd_yet_to_agglomerate(
        is_agglomerated, this->_cur_top_queue.value()
      );
      if (opt_top.has_value()) {
        const auto cur_queue = opt_top.value();
        this->_cur_top_queue = cur_queue;
        opt_seed =
          this->spoil_queue(is_agglomerated, this->_l_of_seeds[cur_queue]);
        if (opt_seed.has_value()) return opt_seed.value();
        this->build_queue(is_agglomerated, cur_queue);
        const auto seed = this->_l_of_seeds[cur_queue].front();
        this->_l_of_seeds[cur_queue].pop_front();
        return seed;
      }
      this->_cur_top_queue = std::nullopt;
    }
    return std::nullopt;
"""
NCHOOSE = """      for (auto queue = this->_l_of_seeds.rbegin()
             + (this->_l_of_seeds.size() - (this->_cur_top_queue.value() + 1));
           queue != this->_l_of_seeds.rend();
           ++queue) {
        const auto opt_seed = this->spoil_queue(is_agglomerated, *queue);
        if (opt_seed.has_value()) {
          this->_cur_top_queue = distance(queue, this->_l_of_seeds.rend()) - 1;
          return opt_seed.value();
        }
      }
"""
BUPD = """    if (!new_seeds.empty()) {
      CoMMAIntType max_bnd{0};
      for (const auto &seed : new_seeds) {
        const auto n_bnd = this->_n_bnd_faces[seed];
        if (n_bnd > max_bnd) max_bnd = n_bnd;
        this->_l_of_seeds[n_bnd].push_back(seed);
      }
      if (!this->_cur_top_queue.has_value()
          || max_bnd > this->_cur_top_queue.value())
        this->_cur_top_queue = max_bnd;
    }
"""
BORD = """    std::map<CoMMAIntType, CoMMASetOfPairType, std::greater<>> new_seeds_by_bnd;
    if (!new_seeds.empty()) {
      for (const auto seed : new_seeds) {
        new_seeds_by_bnd[this->_n_bnd_faces[seed]].emplace(
          seed, this->_priority_weights[seed]
        );
      }
"""
BTOP = """      if (!this->_cur_top_queue.has_value()
          || max_bnd > this->_cur_top_queue.value())
        this->_cur_top_queue = max_bnd;
"""
BTR = """        std::transform(
          seeds.cbegin(),
          seeds.cend(),
          std::back_inserter(this->_l_of_seeds[n_bnd]),
          [](const auto &pr) { return pr.first; }
        );
"""
NUPD = """    for (const auto &seed : new_seeds) {
      const auto q_lvl = this->_cur_top_queue.has_value()
        ? std::min(this->_n_bnd_faces[seed], this->_cur_top_queue.value())
        : this->_n_bnd_faces[seed];
      this->_l_of_seeds[q_lvl].push_back(seed);
    }
"""
NTR = """      const auto q_lvl = this->_cur_top_queue.has_value()
        ? std::min(n_bnd, this->_cur_top_queue.value())
        : n_bnd;
      std::transform(
        seeds.cbegin(),
        seeds.cend(),
        std::back_inserter(this->_l_of_seeds[q_lvl]),
        [](const auto &pr) { return pr.first; }
      );
"""
BNEED = """    if (this->is_empty() || (!this->_cur_top_queue.has_value())) return true;
    const auto max_bnd =
      this->get_highest_n_bnd_yet_to_agglomerate(is_agglomerated);
    if (max_bnd.has_value() && max_bnd.value() > this->_cur_top_queue.value()) {
      this->_cur_top_queue = max_bnd.value();
      return true;
    }
    return false;
"""
INIT = """    if (!_cur_top_queue.has_value())
      _cur_top_queue = *(max_element(_n_bnd_faces.begin(), _n_bnd_faces.end()));
    (*this->_initializator)("""
EXT = """    auto new_fc_ptr =
      std::find(this->_candidates.begin(), this->_candidates.end(), new_fc);
    if (new_fc_ptr != this->_candidates.end())
      this->_candidates.erase(new_fc_ptr);
"""
EXTN = """    for (auto it_fc = neighs_begin; it_fc != neighs_end; ++it_fc) {
      if ((std::find(this->_candidates.begin(), this->_candidates.end(), *it_fc)
           == this->_candidates.end())
          && (this->_s_fc.count(*it_fc) == 0)
          && (this->_s_neighbours_of_seed.count(*it_fc) > 0)) {
        neighs.emplace(*it_fc, this->_weights[*it_fc]);
      }
    }
"""
PFQ = """    for (auto &queue : this->_q_neighs_w_weights) {
      auto it = std::find_if(
        queue.begin(), queue.end(), CoMMAPairFindFirstBasedType(new_fc)
      );
      if (it != queue.end()) queue.erase(it);
    }
"""
PFN = """    CoMMASetOfPairType curr_set = CoMMASetOfPairType();
    for (auto it_fc = neighs_begin; it_fc != neighs_end; ++it_fc) {
      if ((this->_s_fc.count(*it_fc) == 0)
          && (this->_s_neighbours_of_seed.count(*it_fc) > 0)) {
        curr_set.emplace(*it_fc, this->_weights[*it_fc]);
      }
    }
    this->_q_neighs_w_weights.push_front(curr_set);
"""
PFI = """    if (this->_q_neighs_w_weights.size()
        <= static_cast<decltype(this->_q_neighs_w_weights.size())>(
          this->_dimension
        )) {
      for (auto prev_q = this->_q_neighs_w_weights.begin() + 1;
           prev_q != this->_q_neighs_w_weights.end();
           ++prev_q)
        curr_set.insert(prev_q->begin(), prev_q->end());
      this->extract_and_update_candidates(curr_set);
    } else {
"""
PFW = """      auto cur_front = decltype(this->_q_neighs_w_weights.size()){0};
      auto cur_back = decltype(this->_q_neighs_w_weights.size()
      ){this->_q_neighs_w_weights.size() - 1};
      while (cur_front <= cur_back) {
        auto it = this->_q_neighs_w_weights.begin() + (cur_front++);
        if (!it->empty()) {
          this->extract_and_update_candidates(*it);
          break;
        }
        it = this->_q_neighs_w_weights.begin() + (cur_back--);
        if (!it->empty()) {
          this->extract_and_update_candidates(*it);
          break;
        }
      }
"""
EXTR = """    for (const auto &[idx, w] : candidates_w_weights)
      this->_candidates.push_back(idx);
"""

TRIALS = [
    ("full: continue", "same", S, [(FULL, """    CoMMASetOfPairType ranked;
    for (CoMMAIndexType i = 0; i < n_bnd_faces.size(); i++) {
      if (n_bnd_faces[i] < max_bnd) continue;
      ranked.insert(std::make_pair(i, priority_weights[i]));
    }
    for (auto it = ranked.begin(); it != ranked.end(); ++it) queue.emplace_back(it->first);
""")]),
    ("full: transform", "same", S, [("""    for (const auto &idx : tmp_set)
      queue.push_back(idx.first);
""", """    std::transform(tmp_set.cbegin(), tmp_set.cend(), std::back_inserter(queue), [](const auto &p) { return p.first; });
""")]),
    ("full: structured binding", "same", S, [("""    for (const auto &idx : tmp_set)
      queue.push_back(idx.first);
""", """    for (const auto &[cell, weight] : tmp_set) {
      CoMMAUnused(weight);
      queue.push_back(cell);
    }
""")]),
    ("full: helper", "same", S, [(FULL, "    this->rank(n_bnd_faces.size(), priority_weights, queue, [&](const auto c) { return n_bnd_faces[c] >= max_bnd; });\n"),
                                 ("""  SPInitializator() = default;
""", """  SPInitializator() = default;
  template<typename Pred>
  static void rank(const std::size_t n, const std::vector<CoMMAWeightType> &prio, CoMMAQueueType &out, Pred keep) {
    CoMMASetOfPairType ranked;
    for (std::size_t c = 0; c < n; ++c)
      if (keep(c)) ranked.emplace(c, prio[c]);
    for (const auto &pr : ranked) out.push_back(pr.first);
  }
""")]),
    ("one: nested ifs", "same", S, [(ONE, """      if (n_bnd_faces[i_fc] >= max_bnd) {
        const CoMMAPairType cand(i_fc, priority_weights[i_fc]);
        if (comp_op(cand, cur_max)) cur_max = cand;
      }
""")]),
    ("one: continue", "same", S, [(ONE, """      if (n_bnd_faces[i_fc] < max_bnd) continue;
      const CoMMAPairType cand{i_fc, priority_weights[i_fc]};
      if (!comp_op(cand, cur_max)) continue;
      cur_max = cand;
""")]),
    ("one: two variables", "same", S, [("""    CoMMAPairType cur_max{
      std::numeric_limits<CoMMAIndexType>::max(),
      std::numeric_limits<CoMMAWeightType>::lowest()
    };
""", """    CoMMAPairType cur_max;
    cur_max.first = std::numeric_limits<CoMMAIndexType>::max();
    cur_max.second = std::numeric_limits<CoMMAWeightType>::lowest();
""")]),
    ("spoil: while", "same", S, [(SPOIL, """    while (!queue.empty()) {
      const CoMMAIndexType seed = queue.front();
      queue.pop_front();
      if (!is_fc_agglomerated[seed]) return seed;
    }
    return std::nullopt;
""")]),
    ("spoil: while two tests", "same", S, [(SPOIL, """    while (!queue.empty() && is_fc_agglomerated[queue.front()]) queue.pop_front();
    if (queue.empty()) return std::nullopt;
    const std::optional<CoMMAIndexType> seed = queue.front();
    queue.pop_front();
    return seed;
""")]),
    ("build: skip", "same", S, [(BUILD, """    const auto n = _n_bnd_faces.size();
    for (std::size_t c = 0; c != n; ++c) {
      if (is_fc_agglomerated[c]) continue;
      if (_n_bnd_faces[c] != target) continue;
      tmp_set.insert({c, _priority_weights[c]});
    }
    auto &queue = _l_of_seeds[target];
    for (const auto &pr : tmp_set) queue.push_back(pr.first);
""")]),
    ("high: reordered", "same", S, [(HIGH, """      if (is_fc_agglomerated[i_fc]) continue;
      const CoMMAIntType bnd = _n_bnd_faces[i_fc];
      if (bnd >= expected_max) return bnd;
      if (!max_bnd.has_value() || bnd > max_bnd.value()) max_bnd = bnd;
""")]),
    ("high: max", "same", S, [(HIGH, """      if (is_fc_agglomerated[i_fc]) continue;
      const CoMMAIntType bnd = _n_bnd_faces[i_fc];
      if (bnd >= expected_max) return bnd;
      max_bnd = max_bnd.has_value() ? std::max(*max_bnd, bnd) : bnd;
""")]),
    ("empty: any", "same", S, [(EMPTY, """    if (_l_of_seeds.empty()) return true;
    if (i_level >= CoMMACellT::INTERIOR && i_level < CoMMACellT::N_CELL_TYPES)
      return _l_of_seeds[i_level].empty();
    for (CoMMAIntType l = 0; l < CoMMACellT::N_CELL_TYPES; ++l)
      if (!_l_of_seeds[l].empty()) return false;
    return true;
""")]),
    ("empty: all of", "same", S, [("""          return _l_of_seeds[CoMMACellT::INTERIOR].empty()
            && _l_of_seeds[CoMMACellT::VALLEY].empty()
            && _l_of_seeds[CoMMACellT::RIDGE].empty()
            && _l_of_seeds[CoMMACellT::CORNER].empty();
""", """          return is_empty(CoMMACellT::INTERIOR) && is_empty(CoMMACellT::VALLEY) && is_empty(CoMMACellT::RIDGE)
            && is_empty(CoMMACellT::CORNER);
""")]),
    ("init: ternary", "same", S, [(INIT, """    if (_cur_top_queue == std::nullopt) {
      const auto top = std::max_element(_n_bnd_faces.cbegin(), _n_bnd_faces.cend());
      _cur_top_queue = *top;
    }
    (*this->_initializator)(""")]),
    ("init: local level", "same", S, [("""    (*this->_initializator)(
      this->_priority_weights,
      this->_n_bnd_faces,
      this->_cur_top_queue.value(),
      this->_l_of_seeds[this->_cur_top_queue.value()]
    );
""", """    const CoMMAIntType lvl = *_cur_top_queue;
    auto &seeds = _l_of_seeds[lvl];
    _initializator->operator()(_priority_weights, _n_bnd_faces, lvl, seeds);
""")]),
    ("ctor: in the list", "same", S, [("""    _priority_weights(priority_weights),
    _cur_top_queue(std::nullopt),
    _n_bnd_faces(n_bnd_faces) {
    _l_of_seeds = std::vector<CoMMAQueueType>(CoMMACellT::N_CELL_TYPES);
    _initializator = nullptr;
""", """    _l_of_seeds(CoMMACellT::N_CELL_TYPES),
    _priority_weights(priority_weights),
    _cur_top_queue(),
    _initializator(),
    _n_bnd_faces(n_bnd_faces) {
""")]),
    ("boundary: early returns", "same", S, [(BCHOOSE, """    if (!this->_cur_top_queue.has_value()) return std::nullopt;
    const auto first = this->spoil_queue(is_agglomerated, this->_l_of_seeds[*this->_cur_top_queue]);
    if (first) return first;
    const auto top = this->get_highest_n_bnd_yet_to_agglomerate(is_agglomerated, *this->_cur_top_queue);
    this->_cur_top_queue = top;
    if (!top) return std::nullopt;
    auto &queue = this->_l_of_seeds[*top];
    const auto second = this->spoil_queue(is_agglomerated, queue);
    if (second) return second;
    this->build_queue(is_agglomerated, *top);
    const CoMMAIndexType seed = queue.front();
    queue.pop_front();
    return seed;
""")]),
    ("both: shared tail", "same", S, [(BCHOOSE, """    if (this->_cur_top_queue.has_value()) {
      const auto opt_seed = this->spoil_queue(
        is_agglomerated, this->_l_of_seeds[this->_cur_top_queue.value()]
      );
      if (opt_seed.has_value()) return opt_seed.value();
      return this->seed_from_new_top(is_agglomerated);
    }
    return std::nullopt;
"""), ("""      const auto opt_top = this->get_highest_n_bnd_yet_to_agglomerate(
        is_agglomerated, this->_cur_top_queue.value()
      );
      if (opt_top.has_value()) {
        const auto cur_queue = opt_top.value();
        this->_cur_top_queue = cur_queue;
        const auto opt_seed =
          this->spoil_queue(is_agglomerated, this->_l_of_seeds[cur_queue]);
        if (opt_seed.has_value()) return opt_seed.value();
        this->build_queue(is_agglomerated, cur_queue);
        const auto seed = this->_l_of_seeds[cur_queue].front();
        this->_l_of_seeds[cur_queue].pop_front();
        return seed;
      }
      this->_cur_top_queue = std::nullopt;
    }
    return std::nullopt;
""", """      return this->seed_from_new_top(is_agglomerated);
    }
    return std::nullopt;
"""), ("""  bool is_empty(CoMMAIntType i_level""", """  std::optional<CoMMAIndexType> seed_from_new_top(const std::vector<bool> &is_agglomerated) {
    const auto opt_top = get_highest_n_bnd_yet_to_agglomerate(is_agglomerated, _cur_top_queue.value());
    if (!opt_top.has_value()) {
      _cur_top_queue.reset();
      return std::nullopt;
    }
    const auto lvl = opt_top.value();
    _cur_top_queue = lvl;
    auto opt_seed = spoil_queue(is_agglomerated, _l_of_seeds[lvl]);
    if (!opt_seed.has_value()) {
      build_queue(is_agglomerated, lvl);
      opt_seed = _l_of_seeds[lvl].front();
      _l_of_seeds[lvl].pop_front();
    }
    return opt_seed;
  }
  bool is_empty(CoMMAIntType i_level""")]),
    ("neighbourhood: index loop", "same", S, [(NCHOOSE, """      for (CoMMAIntType lvl = this->_cur_top_queue.value(); lvl >= 0; --lvl) {
        const auto opt_seed = this->spoil_queue(is_agglomerated, this->_l_of_seeds[lvl]);
        if (opt_seed.has_value()) {
          this->_cur_top_queue = lvl;
          return opt_seed;
        }
      }
""")]),
    ("bupdate: early return", "same", S, [(BUPD, """    if (new_seeds.empty()) return;
    CoMMAIntType top = 0;
    for (const CoMMAIndexType seed : new_seeds) {
      const CoMMAIntType lvl = this->_n_bnd_faces[seed];
      this->_l_of_seeds[lvl].push_back(seed);
      top = std::max(top, lvl);
    }
    if (!this->_cur_top_queue || top > *this->_cur_top_queue) this->_cur_top_queue = top;
""")]),
    ("bupdate: helper", "same", S, [(BUPD, """    if (!new_seeds.empty()) {
      CoMMAIntType max_bnd{0};
      for (const auto &seed : new_seeds) {
        const auto n_bnd = this->_n_bnd_faces[seed];
        if (n_bnd > max_bnd) max_bnd = n_bnd;
        this->_l_of_seeds[n_bnd].push_back(seed);
      }
      raise_top(max_bnd);
    }
"""), (BTOP, "      raise_top(max_bnd);\n", 0), ("""  ~Seeds_Pool_Boundary_Priority() override = default;
""", """  ~Seeds_Pool_Boundary_Priority() override = default;
  void raise_top(const CoMMAIntType lvl) {
    if (this->_cur_top_queue.has_value() && lvl <= this->_cur_top_queue.value()) return;
    this->_cur_top_queue = lvl;
  }
""")]),
    ("bupdate: two passes", "same", S, [(BUPD, """    if (!new_seeds.empty()) {
      CoMMAIntType max_bnd{0};
      for (const auto &seed : new_seeds) max_bnd = std::max(max_bnd, this->_n_bnd_faces[seed]);
      for (const auto &seed : new_seeds) this->_l_of_seeds[this->_n_bnd_faces[seed]].push_back(seed);
      if (!this->_cur_top_queue.has_value()
          || max_bnd > this->_cur_top_queue.value())
        this->_cur_top_queue = max_bnd;
    }
""")]),
    ("border: try_emplace", "same", S, [(BORD, """    if (!new_seeds.empty()) {
      std::map<CoMMAIntType, CoMMASetOfPairType, std::greater<CoMMAIntType>> new_seeds_by_bnd{};
      for (auto it = new_seeds.begin(); it != new_seeds.end(); ++it) {
        auto &level = new_seeds_by_bnd[this->_n_bnd_faces[*it]];
        level.insert(CoMMAPairType(*it, this->_priority_weights[*it]));
      }
""")]),
    ("border: loops", "same", S, [(BTR, """        for (const auto &[cell, weight] : seeds) this->_l_of_seeds[n_bnd].push_back(cell);
""")]),
    ("border: iterators", "same", S, [("""      for (const auto &[n_bnd, seeds] : new_seeds_by_bnd) {
""" + BTR + "      }\n", """      for (auto it = new_seeds_by_bnd.begin(); it != new_seeds_by_bnd.end(); ++it) {
        auto &queue = this->_l_of_seeds[it->first];
        for (const auto &pr : it->second) queue.push_back(pr.first);
      }
""")]),
    ("nupdate: if else", "same", S, [(NUPD, """    for (const auto seed : new_seeds) {
      CoMMAIntType lvl = this->_n_bnd_faces[seed];
      if (this->_cur_top_queue.has_value() && lvl > *this->_cur_top_queue) lvl = *this->_cur_top_queue;
      this->_l_of_seeds[lvl].push_back(seed);
    }
""")]),
    ("nupdate: helper", "same", S, [(NUPD, """    for (const auto seed : new_seeds) this->_l_of_seeds[level(this->_n_bnd_faces[seed])].push_back(seed);
"""), (NTR, """      auto &queue = this->_l_of_seeds[level(n_bnd)];
      for (const auto &pr : seeds) queue.push_back(pr.first);
"""), ("""  ~Seeds_Pool_Neighbourhood_Priority() override = default;
""", """  ~Seeds_Pool_Neighbourhood_Priority() override = default;
  inline CoMMAIntType level(const CoMMAIntType n_bnd) const {
    return this->_cur_top_queue.has_value() ? std::min(n_bnd, this->_cur_top_queue.value()) : n_bnd;
  }
""")]),
    ("nupdate: value_or", "same", S, [(NUPD, """    for (const auto &seed : new_seeds) {
      const auto n_bnd = this->_n_bnd_faces[seed];
      this->_l_of_seeds[std::min(n_bnd, this->_cur_top_queue.value_or(n_bnd))].push_back(seed);
    }
""")]),
    ("bneed: nested", "same", S, [(BNEED, """    if (!this->_cur_top_queue.has_value() || this->is_empty()) return true;
    const std::optional<CoMMAIntType> top = this->get_highest_n_bnd_yet_to_agglomerate(is_agglomerated);
    const bool higher = top.has_value() && *top > *this->_cur_top_queue;
    if (higher) this->set_top_queue(*top);
    return higher;
""")]),
    # ---- neighbourhoods
    ("base: ctor body", "same", N, [("""    _s_neighbours_of_seed(std::move(s_neighbours_of_seed)),
    _weights(weights),
    _s_fc(),
    _candidates() {}
""", """    _s_neighbours_of_seed(s_neighbours_of_seed), _weights(weights) {}
""")]),
    ("base: transform", "same", N, [(EXTR, """    std::transform(candidates_w_weights.begin(), candidates_w_weights.end(), std::back_inserter(this->_candidates),
                   [](const CoMMAPairType &p) { return p.first; });
""")]),
    ("base: iterators", "same", N, [(EXTR, """    for (auto it = candidates_w_weights.cbegin(); it != candidates_w_weights.cend(); ++it)
      this->_candidates.emplace_back(it->first);
""")]),
    ("ext: erase remove", "same", N, [(EXT, """    const auto pos = std::find(this->_candidates.cbegin(), this->_candidates.cend(), new_fc);
    const bool present = pos != this->_candidates.cend();
    if (present) this->_candidates.erase(pos);
""")]),
    ("ext: reordered", "same", N, [("    this->_s_fc.insert(new_fc);\n" + EXT, EXT + "    this->_s_fc.insert(new_fc);\n")]),
    ("ext: continue", "same", N, [(EXTN, """    for (; neighs_begin != neighs_end; ++neighs_begin) {
      const CoMMAIndexType neigh = *neighs_begin;
      if (this->_s_fc.find(neigh) != this->_s_fc.end()) continue;
      if (this->_s_neighbours_of_seed.find(neigh) == this->_s_neighbours_of_seed.end()) continue;
      if (std::find(this->_candidates.begin(), this->_candidates.end(), neigh) != this->_candidates.end()) continue;
      neighs.emplace(neigh, this->_weights[neigh]);
    }
""")]),
    ("ext: lambda", "same", N, [(EXTN, """    const auto eligible = [this](const CoMMAIndexType c) {
      return this->_s_neighbours_of_seed.count(c) != 0 && this->_s_fc.count(c) == 0
        && std::none_of(this->_candidates.begin(), this->_candidates.end(), [c](const auto o) { return o == c; });
    };
    std::for_each(neighs_begin, neighs_end, [&](const auto c) {
      if (eligible(c)) neighs.insert(std::make_pair(c, this->_weights[c]));
    });
""")]),
    ("both: shared test", "same", N, [(EXTN, """    for (auto it_fc = neighs_begin; it_fc != neighs_end; ++it_fc) {
      if (this->is_free(*it_fc)
          && std::find(this->_candidates.begin(), this->_candidates.end(), *it_fc) == this->_candidates.end())
        neighs.emplace(*it_fc, this->_weights[*it_fc]);
    }
"""), ("""      if ((this->_s_fc.count(*it_fc) == 0)
          && (this->_s_neighbours_of_seed.count(*it_fc) > 0)) {
        curr_set""", """      if (this->is_free(*it_fc)) {
        curr_set"""), ("""  inline void extract_and_update_candidates(""", """  bool is_free(const CoMMAIndexType c) const {
    return _s_fc.find(c) == _s_fc.end() && _s_neighbours_of_seed.find(c) != _s_neighbours_of_seed.end();
  }
  inline void extract_and_update_candidates(""", 0)]),
    ("pf: index loop", "same", N, [(PFQ, """    for (std::size_t l = 0; l < this->_q_neighs_w_weights.size(); ++l) {
      CoMMASetOfPairType &queue = this->_q_neighs_w_weights[l];
      const auto it = std::find_if(queue.begin(), queue.end(), [new_fc](const auto &p) { return p.first == new_fc; });
      if (it == queue.end()) continue;
      queue.erase(it);
    }
""")]),
    ("pf: erase by key", "same", N, [(PFQ, """    for (auto &queue : this->_q_neighs_w_weights) {
      for (auto it = queue.begin(); it != queue.end(); ++it) {
        if (it->first == new_fc) {
          queue.erase(it);
          break;
        }
      }
    }
""")]),
    ("pf: emplace front", "same", N, [(PFN, """    CoMMASetOfPairType curr_set{};
    std::for_each(neighs_begin, neighs_end, [&](const auto &c) {
      const bool taken = this->_s_fc.count(c) > 0;
      if (!taken && this->_s_neighbours_of_seed.count(c)) curr_set.insert({c, this->_weights[c]});
    });
    this->_q_neighs_w_weights.emplace_front(curr_set);
""")]),
    ("pf: index union", "same", N, [("""      for (auto prev_q = this->_q_neighs_w_weights.begin() + 1;
           prev_q != this->_q_neighs_w_weights.end();
           ++prev_q)
        curr_set.insert(prev_q->begin(), prev_q->end());
""", """      for (std::size_t l = 1; l < this->_q_neighs_w_weights.size(); ++l)
        for (const auto &pr : this->_q_neighs_w_weights[l]) curr_set.insert(pr);
""")]),
    ("pf: union of all", "same", N, [("""      for (auto prev_q = this->_q_neighs_w_weights.begin() + 1;
           prev_q != this->_q_neighs_w_weights.end();
           ++prev_q)
        curr_set.insert(prev_q->begin(), prev_q->end());
""", """      for (const auto &q : this->_q_neighs_w_weights) curr_set.insert(q.begin(), q.end());
""")]),
    ("pf: for loop", "same", N, [(PFW, """      auto back = this->_q_neighs_w_weights.size() - 1;
      for (std::size_t front = 0; front <= back; ++front, --back) {
        const auto &recent = this->_q_neighs_w_weights[front];
        if (!recent.empty()) {
          this->extract_and_update_candidates(recent);
          return;
        }
        const auto &old = this->_q_neighs_w_weights[back];
        if (!old.empty()) {
          this->extract_and_update_candidates(old);
          return;
        }
      }
""")]),
    ("pf: pick then extract", "same", N, [(PFW, """      std::size_t front = 0, back = this->_q_neighs_w_weights.size() - 1;
      bool found = false;
      while (!found && front <= back) {
        if (!this->_q_neighs_w_weights[front].empty()) {
          this->extract_and_update_candidates(this->_q_neighs_w_weights[front]);
          found = true;
        } else if (!this->_q_neighs_w_weights[back].empty()) {
          this->extract_and_update_candidates(this->_q_neighs_w_weights[back]);
          found = true;
        }
        ++front;
        --back;
      }
""")]),
    ("pf: flipped branches", "same", N, [("""    if (this->_q_neighs_w_weights.size()
        <= static_cast<decltype(this->_q_neighs_w_weights.size())>(
          this->_dimension
        )) {
""", """    const auto n_fronts = static_cast<CoMMAIntType>(this->_q_neighs_w_weights.size());
    if (!(n_fronts > this->_dimension)) {
""")]),
    ("creator: new ptr", "same", N, [("""    return std::make_shared<NeighbourhoodDerivedType>(
      s_neighbours_of_seed, priority_weights, dimension
    );
""", """    auto neigh = std::make_shared<NeighbourhoodDerivedType>(s_neighbours_of_seed, priority_weights, dimension);
    return neigh;
""")]),
    ("creator: clone in steps", "same", N, [("""    return std::make_shared<NeighbourhoodDerivedType>(
      *std::dynamic_pointer_cast<NeighbourhoodDerivedType>(other)
    );
""", """    const auto ptr = std::dynamic_pointer_cast<NeighbourhoodDerivedType>(other);
    return std::make_shared<NeighbourhoodDerivedType>(*ptr);
""", 0)]),
    # ---- mutants
    ("m: full gt", "C15", S, [("n_bnd_faces[i_fc] >= max_bnd)\n        tmp_set", "n_bnd_faces[i_fc] > max_bnd)\n        tmp_set")]),
    ("m: full eq", "C15", S, [("n_bnd_faces[i_fc] >= max_bnd)\n        tmp_set", "n_bnd_faces[i_fc] == max_bnd)\n        tmp_set")]),
    ("m: full queue front", "C15", S, [("      queue.push_back(idx.first);", "      queue.push_front(idx.first);")]),
    ("m: spoil no pop", "C15", S, [("      const auto seed = queue.front();\n      queue.pop_front();\n      return seed;", "      const auto seed = queue.front();\n      return seed;")]),
    ("m: spoil back", "C15", S, [("      const auto seed = queue.front();\n      queue.pop_front();\n      return seed;", "      const auto seed = queue.back();\n      queue.pop_back();\n      return seed;")]),
    ("m: build agglomerated too", "C01", S, [("if (!is_fc_agglomerated[i_fc] && _n_bnd_faces[i_fc] == target)", "if (_n_bnd_faces[i_fc] == target)")]),
    ("m: high first", "C15", S, [("        if (i_fc_bnd > max_bnd) {", "        if (i_fc_bnd < max_bnd) {")]),
    ("m: bupdate top replaced", "C15", S, [("          || max_bnd > this->_cur_top_queue.value())", "          || max_bnd < this->_cur_top_queue.value())", 0)]),
    ("m: border less", "C15", S, [("std::map<CoMMAIntType, CoMMASetOfPairType, std::greater<>> new_seeds_by_bnd;", "std::map<CoMMAIntType, CoMMASetOfPairType> new_seeds_by_bnd;", 0)]),
    ("m: norder max", "C15", S, [("std::min(n_bnd, this->_cur_top_queue.value())", "std::max(n_bnd, this->_cur_top_queue.value())")]),
    ("m: nchoose off by one", "C15", S, [("(this->_cur_top_queue.value() + 1));", "this->_cur_top_queue.value());")]),
    ("m: nchoose top kept", "C15", S, [("          this->_cur_top_queue = distance(queue, this->_l_of_seeds.rend()) - 1;\n", "")]),
    ("m: bneed ge", "C15", S, [("max_bnd.value() > this->_cur_top_queue.value()) {", "max_bnd.value() >= this->_cur_top_queue.value()) {")]),
    ("m: initialise reset", "C15", S, [("    if (!_cur_top_queue.has_value())\n      _cur_top_queue = *(max", "    _cur_top_queue = *(max")]),
    ("m: ext keeps new cell", "C21", N, [("      this->_candidates.erase(new_fc_ptr);", "      CoMMAUnused(new_fc_ptr);")]),
    ("m: ext no candidates test", "C21", N, [("""(std::find(this->_candidates.begin(), this->_candidates.end(), *it_fc)
           == this->_candidates.end())
          && """, "")]),
    ("m: ext outside allowed", "C21", N, [("(this->_s_neighbours_of_seed.count(*it_fc) > 0)", "(this->_s_neighbours_of_seed.count(*it_fc) >= 0)", 0)]),
    ("m: ext weight of new", "C21", N, [("neighs.emplace(*it_fc, this->_weights[*it_fc]);", "neighs.emplace(*it_fc, this->_weights[new_fc]);")]),
    ("m: pf back", "C21", N, [("this->_q_neighs_w_weights.push_front(curr_set);", "this->_q_neighs_w_weights.push_back(curr_set);")]),
    ("m: pf lt dim", "C21", N, [("        <= static_cast<decltype(this->_q_neighs_w_weights.size())>(", "        < static_cast<decltype(this->_q_neighs_w_weights.size())>(")]),
    ("m: pf skip two", "C21", N, [("this->_q_neighs_w_weights.begin() + 1;", "this->_q_neighs_w_weights.begin() + 2;")]),
    ("m: pf no clear", "C21", N, [("    this->_candidates.clear();\n", "")]),
    ("m: clone shares", "C21", N, [("""    return std::make_shared<NeighbourhoodDerivedType>(
      *std::dynamic_pointer_cast<NeighbourhoodDerivedType>(other)
    );
""", "    return other;\n", 0)]),
]
