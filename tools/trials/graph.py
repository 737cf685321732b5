"""Edits of Dual_Graph.h and Coarse_Cell.h."""
D = "Dual_Graph.h"
C = "Coarse_Cell.h"

DFS = """    for (auto it = neighbours_cbegin(i_fc); it != neighbours_cend(i_fc); ++it) {
      if (!_visited[*it]) {
        DFS(*it);
      }
    }
"""
CONN = """    _visited.assign(_number_of_cells, false);
    if (_number_of_cells <= 1) {
      return (true);
    }
    DFS(0);
    for (auto i = decltype(_number_of_cells){0}; i < _number_of_cells; ++i) {
      if (!_visited[i]) {
        return (false);
      }
    }
    return (true);
"""
MINC = """    if (s_fc.size() > 1) {
      std::unordered_map<CoMMAIndexType, CoMMAIntType> dict_fc_compactness =
        compute_fc_compactness_inside_a_cc(s_fc);
      if (dict_fc_compactness.empty()) {
        return 0;
      }
      return min_element(
               dict_fc_compactness.begin(),
               dict_fc_compactness.end(),
               [](const auto &left, const auto &right) {
                 return left.second < right.second;
               }
      )->second;
    }
    return 0;
"""
FCC = """    std::unordered_map<CoMMAIndexType, CoMMAIntType> dict_fc_compactness;
    if (!s_fc.empty()) {
      if (s_fc.size() == 1) {
        dict_fc_compactness[*s_fc.begin()] = 0;
      } else {
        for (const CoMMAIndexType &i_fc : s_fc) {
          dict_fc_compactness[i_fc] = count_if(
            this->_m_CRS_Col_Ind.cbegin() + this->_m_CRS_Row_Ptr[i_fc],
            this->_m_CRS_Col_Ind.cbegin() + this->_m_CRS_Row_Ptr[i_fc + 1],
            [&](const auto &neigh) { return s_fc.count(neigh) > 0; }
          );
        }
      }
    }
    return dict_fc_compactness;
"""
CTOR = """    _compactness = static_cast<CoMMAIntType>(nb_c);
    for (auto c = decltype(nb_c){0}; c < nb_c; ++c) {
      const auto n_neighs =
        static_cast<CoMMAIntType>(m_crs_row_ptr[c + 1] - m_crs_row_ptr[c]);
      if (n_neighs < _compactness) {
        _compactness = n_neighs;
      }
    }
"""
INS1 = """    ContainerIndexType v_l_neigh{};
    ContainerWeightType v_l_weight{};
    auto w_it = weight.cbegin();
    for (const auto &elem : v_neigh) {
      const auto low1 =
        std::find(_mapping_l_to_g.begin(), _mapping_l_to_g.end(), elem);
      if (low1 != _mapping_l_to_g.end()) {
        v_l_neigh.push_back(low1 - _mapping_l_to_g.begin());
        v_l_weight.push_back(*w_it);
      }
      ++w_it;
    }
"""
INS2 = """    CoMMAIntType iter_weight = 0;
    CoMMAIndexType local_index = this->_m_CRS_Row_Ptr.size() - 1;
    auto row_end = this->_m_CRS_Row_Ptr.end() - 1;
    for (const auto &elem : v_l_neigh) {
      this->_m_CRS_Col_Ind.insert(
        this->_m_CRS_Col_Ind.begin() + this->_m_CRS_Row_Ptr[elem], local_index
      );
      this->_m_CRS_Values.insert(
        this->_m_CRS_Values.begin() + this->_m_CRS_Row_Ptr[elem],
        v_l_weight[iter_weight]
      );
      for (auto it = this->_m_CRS_Row_Ptr.begin() + elem + 1;
           it != this->_m_CRS_Row_Ptr.end();
           ++it) {
        ++(*it);
      }
      this->_m_CRS_Col_Ind.insert(this->_m_CRS_Col_Ind.end(), elem);
      this->_m_CRS_Values.insert(
        this->_m_CRS_Values.end(), v_l_weight[iter_weight]
      );
      ++iter_weight;
    }
    this->_m_CRS_Row_Ptr.push_back(*row_end + v_l_neigh.size());
"""
UPD = """    this->_number_of_cells = _mapping_l_to_g.size();
    _cardinality = static_cast<CoMMAIntType>(this->_number_of_cells);
    _compactness = _cardinality;
    for (auto c = CoMMAIndexType{0}; c < this->_number_of_cells; ++c) {
      _compactness = std::min(_compactness, this->get_nb_of_neighbours(c));
    }
"""
REM1 = """    for (const auto &elem : v_neigh) {
      const auto row_begin =
        this->_m_CRS_Col_Ind.begin() + this->_m_CRS_Row_Ptr[elem];
      const auto row_end =
        this->_m_CRS_Col_Ind.begin() + this->_m_CRS_Row_Ptr[elem + 1];
      const auto it = std::find(row_begin, row_end, i_fc);
      if (it != row_end) {
        this->_m_CRS_Values.erase(
          this->_m_CRS_Values.begin() + (it - this->_m_CRS_Col_Ind.begin())
        );
        this->_m_CRS_Col_Ind.erase(it);
        for (auto it_bis = this->_m_CRS_Row_Ptr.begin() + elem + 1;
             it_bis != this->_m_CRS_Row_Ptr.end();
             ++it_bis) {
          *it_bis = *it_bis - 1;
        }
      }
    }
"""
REM2 = """    for (auto it_bis = this->_m_CRS_Row_Ptr.begin() + i_fc + 1;
         it_bis != this->_m_CRS_Row_Ptr.end();
         ++it_bis) {
      *it_bis = *it_bis - (ind_p_one - ind);
    }
"""
REM3 = """    std::vector<std::optional<CoMMAIndexType>> internal_mapping;
    internal_mapping.reserve(this->_m_CRS_Row_Ptr.size() + 1);
    CoMMAIndexType indice = 0;
    for (auto ix = decltype(this->_m_CRS_Row_Ptr.size()){0};
         ix < this->_m_CRS_Row_Ptr.size() + 1;
         ++ix) {
      if (static_cast<decltype(i_fc)>(ix) != i_fc) {
        internal_mapping.push_back(indice);
        indice++;
      } else {
        internal_mapping.push_back(std::nullopt);
      }
    }
"""
REM4 = """    for (auto &actual : this->_m_CRS_Col_Ind) {
      assert(internal_mapping[actual].has_value());
      actual = internal_mapping[actual].value();
    }
"""
MAXW = """          for (const CoMMAIndexType i_fc : _s_anisotropic_compliant_cells) {
            aniso_w_weights.emplace(i_fc, priority_weights[i_fc]);
            max_weights[i_fc] = *(
              max_element(this->weights_cbegin(i_fc), this->weights_cend(i_fc))
            );
          }
"""
DIST = """            CoMMAWeightType max_ov_dist = 0.0;
            const auto offset = this->_m_CRS_Row_Ptr[i_fc];
            auto n_it = std::next(this->_m_CRS_Col_Ind.cbegin(), offset);
            auto w_it = std::next(alt_weights.begin(), offset);
            for (; n_it != this->neighbours_cend(i_fc); ++n_it, ++w_it) {
              const auto dist = 1.
                / squared_euclidean_distance<CoMMAWeightType>(
                                  this->_centers[i_fc], this->_centers[*n_it]
                );
              *w_it = dist;
              if (dist > max_ov_dist) max_ov_dist = dist;
            }
            max_weights[i_fc] = max_ov_dist;
"""
DIST2 = """            const auto offset = this->_m_CRS_Row_Ptr[i_fc];
            auto n_it = std::next(this->_m_CRS_Col_Ind.cbegin(), offset);
            auto w_it = std::next(alt_weights.begin(), offset);
            CoMMAWeightType max_ov_dist = 0.0;
            for (; n_it != this->neighbours_cend(i_fc); ++n_it, ++w_it) {
              const auto dist = 1.
                / squared_euclidean_distance<CoMMAWeightType>(
                                  this->_centers[i_fc], this->_centers[*n_it]
                );
              *w_it = dist;
              if (dist > max_ov_dist) max_ov_dist = dist;
            }
            max_weights[i_fc] = max_ov_dist;
"""
MINMAX = """        auto n_it = this->neighbours_cbegin(i_fc);
        auto w_it = this->weights_cbegin(i_fc);
        auto nb_neighbours = this->get_nb_of_neighbours(i_fc);
        for (; n_it != this->neighbours_cend(i_fc)
             && w_it != this->weights_cend(i_fc);
             ++n_it, ++w_it) {
          if (*n_it != i_fc) {
            if (max_weight < *w_it) {
              max_weight = *w_it;
            }
            if (min_weight > *w_it) {
              min_weight = *w_it;
            }
          } else {
            nb_neighbours--;
          }
        }
"""
TAGSW = """        if (ar >= threshold_anisotropy) {
          switch (preserving) {
            case 2:
              if ((is_on_boundary(i_fc) > 0 && nb_neighbours == 3)
                  || nb_neighbours == 4)
                aniso_w_weights.emplace(i_fc, priority_weights[i_fc]);
              break;
            case 3:
              if ((is_on_boundary(i_fc) > 0 && nb_neighbours == 5)
                  || nb_neighbours == 6)
                aniso_w_weights.emplace(i_fc, priority_weights[i_fc]);
            case 0:
            default:
              aniso_w_weights.emplace(i_fc, priority_weights[i_fc]);
              break;
          }
        }
"""
TAGEND = """    for (const auto &[i_fc, w] : aniso_w_weights) {
      is_anisotropic[i_fc] = true;
      aniso_seeds_pool.emplace_back(i_fc);
    }
"""
NOCC = """    std::unordered_set<CoMMAIndexType> cc_neighs{};
    for (const auto fc : s_seeds)
      for (auto n = this->neighbours_cbegin(fc); n != this->neighbours_cend(fc);
           ++n)
        if (!is_fc_agglomerated_tmp[*n] && s_seeds.find(*n) == s_seeds.end())
          cc_neighs.insert(*n);
    return cc_neighs;
"""
CNB_WHILE = """    while ((i_order < nb_of_order_of_neighbourhood + 1)
           || static_cast<CoMMAIntType>(
                d_n_of_seed.size() + d_n_of_order_o_m_one.size()
              )
             < max_card) {
"""
CNB_IN = """          if ((d_n_of_seed.count(*i_fc_n) == 0)
              && ((!is_fc_agglomerated_tmp[*i_fc_n]))) {
            if (d_n_of_order_o.count(*i_fc_n) == 0) {
              if (d_n_of_order_o_m_one.count(*i_fc_n)) {
                if (i_order < d_n_of_order_o_m_one[*i_fc_n]) {
                  d_n_of_order_o[*i_fc_n] = i_order;
                }
              } else {
                d_n_of_order_o[*i_fc_n] = i_order;
              }
            }
          }
"""
CNB_COPY = """      d_n_of_order_o_m_one.clear();
      for (auto id : d_n_of_order_o) {
        d_n_of_order_o_m_one[id.first] = id.second;
      }
      i_order++;
"""
CNB_END = """    for (auto id_M_one : d_n_of_order_o_m_one) {
      d_n_of_seed[id_M_one.first] = id_M_one.second;
    }
    for (const CoMMAIndexType &i_fc : s_seeds) {
      d_n_of_seed.erase(i_fc);
    }
    nb_of_order_of_neighbourhood = i_order;
"""
SUBC = """    for (const CoMMAIndexType &i_fc : this->_s_fc) {
      mapping.push_back(i_fc);
      auto n_it = this->_fc_graph->neighbours_cbegin(i_fc);
      auto w_it = this->_fc_graph->weights_cbegin(i_fc);
      for (; n_it != this->_fc_graph->neighbours_cend(i_fc)
           && w_it != this->_fc_graph->weights_cend(i_fc);
           ++n_it, ++w_it) {
        if (std::find(this->_s_fc.begin(), this->_s_fc.end(), *n_it)
            != this->_s_fc.end()) {
          ++position;
          col_ind.push_back(*n_it);
          CSR_vals.push_back(*w_it);
        }
      }
      CSR_row.push_back(position);
      volumes.push_back(this->_fc_graph->_volumes[i_fc]);
    }
"""
SUBD = """    for (auto it = col_ind.begin(); it != col_ind.end(); ++it) {
      auto indx = std::find(mapping.begin(), mapping.end(), *it);
      CSR_col.push_back(indx - mapping.begin());
    }
"""
INSN = """    _cc_graph->insert_node(
      this->_fc_graph->get_neighbours(i_fc),
      i_fc,
      this->_fc_graph->_volumes[i_fc],
      this->_fc_graph->get_weights(i_fc)
    );
"""
COMPV = """    _compactness = new_compactness.has_value()
      ? new_compactness.value()
      : _fc_graph->compute_min_fc_compactness_inside_a_cc(_s_fc);
"""

TRIALS = [
    ("dfs: index loop", "same", D, [(DFS, """    for (auto k = _m_CRS_Row_Ptr[i_fc]; k < _m_CRS_Row_Ptr[i_fc + 1]; ++k) {
      const auto n = _m_CRS_Col_Ind[k];
      if (_visited[n]) continue;
      DFS(n);
    }
""")]),
    ("dfs: for_each", "same", D, [(DFS, """    std::for_each(neighbours_cbegin(i_fc), neighbours_cend(i_fc), [this](const auto n) {
      if (!this->_visited[n]) this->DFS(n);
    });
""")]),
    ("dfs: visited inside", "same", D, [("""    _visited[i_fc] = true;
""" + DFS, """    if (_visited[i_fc]) {
    }
    _visited[i_fc] = true;
    const auto end = neighbours_cend(i_fc);
    for (auto it = neighbours_cbegin(i_fc); it != end; ++it)
      if (!_visited[*it]) DFS(*it);
""")]),
    ("connected: all_of", "same", D, [(CONN, """    std::fill(_visited.begin(), _visited.end(), false);
    _visited.resize(_number_of_cells);
    _visited.assign(_number_of_cells, false);
    if (_number_of_cells > 1) {
      DFS(0);
      return std::all_of(_visited.begin(), _visited.end(), [](const bool v) { return v; });
    }
    return true;
""")]),
    ("connected: find", "same", D, [(CONN, """    _visited.assign(_number_of_cells, false);
    if (_number_of_cells <= 1) return true;
    DFS(0);
    return std::find(_visited.cbegin(), _visited.cend(), false) == _visited.cend();
""")]),
    ("connected: flag", "same", D, [(CONN, """    _visited.assign(_number_of_cells, false);
    bool all = true;
    if (_number_of_cells > 1) {
      DFS(0);
      for (CoMMAIndexType i = 0; all && i < _number_of_cells; ++i) all = _visited[i];
    }
    return all;
""")]),
    ("connected: count", "same", D, [(CONN, """    _visited.assign(_number_of_cells, false);
    if (_number_of_cells <= 1) return true;
    DFS(0);
    return std::count(_visited.begin(), _visited.end(), false) == 0;
""")]),
    ("minc: running", "same", D, [(MINC, """    if (s_fc.size() <= 1) return 0;
    const auto compactness = compute_fc_compactness_inside_a_cc(s_fc);
    auto best = compactness.cbegin();
    if (best == compactness.cend()) return 0;
    for (auto it = std::next(compactness.cbegin()); it != compactness.cend(); ++it)
      if (it->second < best->second) best = it;
    return best->second;
""")]),
    ("minc: running value", "same", D, [(MINC, """    if (s_fc.size() <= 1) return 0;
    const auto compactness = compute_fc_compactness_inside_a_cc(s_fc);
    if (compactness.empty()) return 0;
    CoMMAIntType res = std::numeric_limits<CoMMAIntType>::max();
    for (const auto &[fc, n] : compactness) res = std::min(res, n);
    return res;
""")]),
    ("minc: functor", "same", D, [(MINC, """    if (s_fc.size() < 2) return 0;
    const auto comp = compute_fc_compactness_inside_a_cc(s_fc);
    using PairT = typename std::unordered_map<CoMMAIndexType, CoMMAIntType>::value_type;
    return comp.empty() ? 0 : std::min_element(comp.begin(), comp.end(), PairSecondBasedLessFunctor<PairT>())->second;
""")]),
    ("minc: no empty test", "same", D, [("""      if (dict_fc_compactness.empty()) {
        return 0;
      }
""", "")]),
    ("fcc: loop", "same", D, [(FCC, """    std::unordered_map<CoMMAIndexType, CoMMAIntType> res;
    if (s_fc.empty()) return res;
    if (s_fc.size() == 1) {
      res.emplace(*s_fc.cbegin(), 0);
      return res;
    }
    for (const auto fc : s_fc) {
      CoMMAIntType n = 0;
      for (auto it = neighbours_cbegin(fc); it != neighbours_cend(fc); ++it)
        if (s_fc.find(*it) != s_fc.end()) ++n;
      res[fc] = n;
    }
    return res;
""")]),
    ("fcc: helper", "same", D, [(FCC, """    std::unordered_map<CoMMAIndexType, CoMMAIntType> res;
    if (s_fc.size() == 1) {
      res[*s_fc.begin()] = 0;
    } else {
      for (const auto &fc : s_fc) res[fc] = n_inside(fc, s_fc);
    }
    return res;
  }
  inline CoMMAIntType n_inside(const CoMMAIndexType fc, const std::unordered_set<CoMMAIndexType> &s_fc) const {
    return std::count_if(this->neighbours_cbegin(fc), this->neighbours_cend(fc), [&s_fc](const CoMMAIndexType n) {
      return s_fc.count(n) != 0;
    });
""")]),
    ("sub: ctor std::min", "same", D, [(CTOR, """    CoMMAIntType compactness = static_cast<CoMMAIntType>(nb_c);
    for (CoMMAIndexType c = 0; c < nb_c; ++c)
      compactness = std::min(compactness, this->get_nb_of_neighbours(c));
    _compactness = compactness;
""")]),
    ("insert: index loop", "same", D, [(INS1, """    ContainerIndexType v_l_neigh;
    ContainerWeightType v_l_weight;
    for (std::size_t k = 0; k < v_neigh.size(); ++k) {
      const auto pos = std::find(_mapping_l_to_g.cbegin(), _mapping_l_to_g.cend(), v_neigh[k]);
      if (pos == _mapping_l_to_g.cend()) continue;
      v_l_neigh.emplace_back(std::distance(_mapping_l_to_g.cbegin(), pos));
      v_l_weight.emplace_back(weight[k]);
    }
""")]),
    ("insert: reserve", "same", D, [("""    ContainerWeightType v_l_weight{};
""", """    ContainerWeightType v_l_weight{};
    v_l_neigh.reserve(v_neigh.size());
    v_l_weight.reserve(v_neigh.size());
""")]),
    ("insert: push_back", "same", D, [(INS2, """    const CoMMAIndexType local_index = this->_m_CRS_Row_Ptr.size() - 1;
    for (std::size_t k = 0; k < v_l_neigh.size(); ++k) {
      const auto elem = v_l_neigh[k];
      const auto pos = this->_m_CRS_Row_Ptr[elem];
      this->_m_CRS_Col_Ind.insert(this->_m_CRS_Col_Ind.begin() + pos, local_index);
      this->_m_CRS_Values.insert(this->_m_CRS_Values.begin() + pos, v_l_weight[k]);
      for (std::size_t r = elem + 1; r < this->_m_CRS_Row_Ptr.size(); ++r) this->_m_CRS_Row_Ptr[r] += 1;
      this->_m_CRS_Col_Ind.push_back(elem);
      this->_m_CRS_Values.push_back(v_l_weight[k]);
    }
    this->_m_CRS_Row_Ptr.push_back(this->_m_CRS_Row_Ptr.back() + v_l_neigh.size());
""")]),
    ("insert: tail reordered", "same", D, [("""    this->_volumes.push_back(volume);
    _mapping_l_to_g.push_back(i_fc);
    update_size();
""", """    _mapping_l_to_g.push_back(i_fc);
    this->_volumes.push_back(volume);
    update_size();
""")]),
    ("insert: row helper", "same", D, [("""      for (auto it = this->_m_CRS_Row_Ptr.begin() + elem + 1;
           it != this->_m_CRS_Row_Ptr.end();
           ++it) {
        ++(*it);
      }
""", """      shift_rows(elem + 1);
"""), ("""  void update_size() {
""", """  void shift_rows(const CoMMAIndexType from) {
    std::for_each(this->_m_CRS_Row_Ptr.begin() + from, this->_m_CRS_Row_Ptr.end(), [](auto &r) { ++r; });
  }
  void update_size() {
""")]),
    ("update: if", "same", D, [(UPD, """    this->_number_of_cells = _mapping_l_to_g.size();
    _cardinality = static_cast<CoMMAIntType>(_mapping_l_to_g.size());
    auto compactness = _cardinality;
    for (CoMMAIndexType c = 0; c != this->_number_of_cells; ++c) {
      const auto n = this->get_nb_of_neighbours(c);
      if (n < compactness) compactness = n;
    }
    _compactness = compactness;
""")]),
    ("remove: index", "same", D, [(REM1, """    for (std::size_t k = 0; k < v_neigh.size(); ++k) {
      const auto elem = v_neigh[k];
      const auto begin = this->_m_CRS_Row_Ptr[elem], end = this->_m_CRS_Row_Ptr[elem + 1];
      const auto it = std::find(this->_m_CRS_Col_Ind.begin() + begin, this->_m_CRS_Col_Ind.begin() + end, i_fc);
      if (it == this->_m_CRS_Col_Ind.begin() + end) continue;
      const auto pos = it - this->_m_CRS_Col_Ind.begin();
      this->_m_CRS_Col_Ind.erase(this->_m_CRS_Col_Ind.begin() + pos);
      this->_m_CRS_Values.erase(this->_m_CRS_Values.begin() + pos);
      for (std::size_t r = elem + 1; r < this->_m_CRS_Row_Ptr.size(); ++r) --this->_m_CRS_Row_Ptr[r];
    }
""")]),
    ("remove: shift", "same", D, [(REM2, """    const auto n_removed = ind_p_one - ind;
    for (auto r = i_fc + 1; r < this->_m_CRS_Row_Ptr.size(); ++r) this->_m_CRS_Row_Ptr[r] -= n_removed;
""")]),
    ("remove: erase order", "same", D, [("""    this->_volumes.erase(volumes_pointer);
    this->_m_CRS_Row_Ptr.erase(Col_pointer);
    _mapping_l_to_g.erase(mapping_pointer);
""", """    _mapping_l_to_g.erase(mapping_pointer);
    this->_m_CRS_Row_Ptr.erase(Col_pointer);
    this->_volumes.erase(volumes_pointer);
""")]),
    ("remove: renumber directly", "same", D, [(REM3, ""), (REM4, """    for (auto &actual : this->_m_CRS_Col_Ind) {
      if (actual > i_fc) --actual;
    }
""")]),
    ("remove: conditional push", "same", D, [(REM3, """    const auto n_old = this->_m_CRS_Row_Ptr.size() + 1;
    std::vector<std::optional<CoMMAIndexType>> internal_mapping(n_old, std::nullopt);
    CoMMAIndexType indice = 0;
    for (std::size_t ix = 0; ix < n_old; ++ix)
      if (ix != i_fc) internal_mapping[ix] = indice++;
""")]),
    ("total faces: getter", "same", D, [("""    return this->_n_bnd_faces[idx_c] + this->get_nb_of_neighbours(idx_c);
""", """    const auto n_neighs = this->get_nb_of_neighbours(idx_c);
    return n_neighs + this->get_n_boundary_faces(idx_c);
""")]),
    ("bnd weight: if", "same", D, [("""    return this->_n_bnd_faces[idx_c] == 0 ? 0.
                                          : this->_n_bnd_faces[idx_c]
#if 1
        * std::reduce(this->weights_cbegin(idx_c),
                      this->weights_cend(idx_c),
                      CoMMAWeightType{0.})
        / this->get_nb_of_neighbours(idx_c);
""", """    if (!is_on_boundary(idx_c)) {
      if (this->_n_bnd_faces[idx_c] == 0) return 0.;
    }
    const auto n_faces = this->_n_bnd_faces[idx_c];
    const auto sum = std::reduce(this->weights_cbegin(idx_c), this->weights_cend(idx_c), CoMMAWeightType{0.});
    return n_faces
#if 1
        * sum / this->get_nb_of_neighbours(idx_c);
""")]),
    ("tag: resize value", "same", D, [("""      alt_weights.resize(this->_m_CRS_Values.size());
      std::fill(alt_weights.begin(), alt_weights.end(), 0.0);
""", """      alt_weights.assign(this->_m_CRS_Values.size(), CoMMAWeightType{0.0});
""")]),
    ("tag: max loop", "same", D, [(MAXW, """          for (const auto i_fc : _s_anisotropic_compliant_cells) {
            const auto max_it = std::max_element(this->weights_cbegin(i_fc), this->weights_cend(i_fc));
            max_weights[i_fc] = *max_it;
            aniso_w_weights.emplace(std::make_pair(i_fc, priority_weights[i_fc]));
          }
""")]),
    ("tag: distances helper", "same", D, [(DIST, """            max_weights[i_fc] = inverse_distances(i_fc, alt_weights);
"""), (DIST2, """            max_weights[i_fc] = inverse_distances(i_fc, alt_weights);
"""), ("""  inline CoMMAIndexType get_nb_cells() const {""", """  CoMMAWeightType inverse_distances(const CoMMAIndexType i_fc, std::vector<CoMMAWeightType> &alt_weights) const {
    CoMMAWeightType res = 0.0;
    for (auto k = this->_m_CRS_Row_Ptr[i_fc]; k < this->_m_CRS_Row_Ptr[i_fc + 1]; ++k) {
      const auto neigh = this->_m_CRS_Col_Ind[k];
      alt_weights[k] = 1. / squared_euclidean_distance<CoMMAWeightType>(this->_centers[i_fc], this->_centers[neigh]);
      res = std::max(res, alt_weights[k]);
    }
    return res;
  }
  inline CoMMAIndexType get_nb_cells() const {""")]),
    ("tag: if else", "same", D, [("""      switch (cell_coupling) {
        case CoMMACellCouplingT::MAX_WEIGHT: {
""" + MAXW + """          break;
        }
        case CoMMACellCouplingT::MIN_DISTANCE: {
          for (const CoMMAIndexType i_fc : _s_anisotropic_compliant_cells) {
            aniso_w_weights.emplace(i_fc, priority_weights[i_fc]);
""" + DIST + """          }
          break;
        }
        default:
          break;
      }
""", """      if (cell_coupling == CoMMACellCouplingT::MAX_WEIGHT) {
""" + MAXW + """      } else if (cell_coupling == CoMMACellCouplingT::MIN_DISTANCE) {
          for (const CoMMAIndexType i_fc : _s_anisotropic_compliant_cells) {
            aniso_w_weights.emplace(i_fc, priority_weights[i_fc]);
""" + DIST + """          }
      }
""")]),
    ("tag: index loop", "same", D, [(MINMAX, """        CoMMAIntType nb_neighbours = this->get_nb_of_neighbours(i_fc);
        for (auto k = this->_m_CRS_Row_Ptr[i_fc]; k < this->_m_CRS_Row_Ptr[i_fc + 1]; ++k) {
          if (this->_m_CRS_Col_Ind[k] == i_fc) {
            --nb_neighbours;
            continue;
          }
          const auto weight = this->_m_CRS_Values[k];
          max_weight = std::max(max_weight, weight);
          min_weight = std::min(min_weight, weight);
        }
""")]),
    ("tag: count self", "same", D, [("""        auto nb_neighbours = this->get_nb_of_neighbours(i_fc);
""", """        CoMMAIntType nb_neighbours = 0;
"""), ("""          if (*n_it != i_fc) {
            if (max_weight < *w_it) {
              max_weight = *w_it;
            }
            if (min_weight > *w_it) {
              min_weight = *w_it;
            }
          } else {
            nb_neighbours--;
          }
""", """          if (*n_it != i_fc) {
            ++nb_neighbours;
            if (max_weight < *w_it) max_weight = *w_it;
            if (min_weight > *w_it) min_weight = *w_it;
          }
""")]),
    ("tag: switch to if", "same", D, [(TAGSW, """        if (ar >= threshold_anisotropy) {
          const bool quad = (is_on_boundary(i_fc) && nb_neighbours == 3) || nb_neighbours == 4;
          if (preserving != 2 || quad) aniso_w_weights.emplace(i_fc, priority_weights[i_fc]);
        }
""")]),
    ("tag: end loop", "same", D, [(TAGEND, """    for (auto it = aniso_w_weights.cbegin(); it != aniso_w_weights.cend(); ++it) {
      aniso_seeds_pool.push_back(it->first);
      is_anisotropic[it->first] = true;
    }
""")]),
    ("tag: end split", "same", D, [(TAGEND, """    for (const auto &pr : aniso_w_weights) is_anisotropic[pr.first] = true;
    for (const auto &pr : aniso_w_weights) aniso_seeds_pool.emplace_back(pr.first);
""")]),
    ("nocc: for_each", "same", D, [(NOCC, """    std::unordered_set<CoMMAIndexType> res{};
    for (const auto &seed : s_seeds) {
      const auto neighs = this->get_neighbours(seed);
      for (const auto n : neighs) {
        if (is_fc_agglomerated_tmp[n]) continue;
        if (s_seeds.count(n) == 0) res.emplace(n);
      }
    }
    return res;
""")]),
    ("nocc: copy_if", "same", D, [(NOCC, """    std::unordered_set<CoMMAIndexType> cc_neighs{};
    for (const auto fc : s_seeds)
      std::copy_if(this->neighbours_cbegin(fc), this->neighbours_cend(fc),
        std::inserter(cc_neighs, cc_neighs.begin()),
        [&](const auto n) { return !is_fc_agglomerated_tmp[n] && s_seeds.count(n) == 0; });
    return cc_neighs;
""")]),
    ("cnb: while split", "same", D, [(CNB_WHILE, """    const auto max_order = nb_of_order_of_neighbourhood;
    while (true) {
      const auto n_found = static_cast<CoMMAIntType>(d_n_of_seed.size() + d_n_of_order_o_m_one.size());
      if (i_order > max_order && n_found >= max_card) break;
""")]),
    ("cnb: nested flattened", "same", D, [(CNB_IN, """          const auto neigh = *i_fc_n;
          if (d_n_of_seed.count(neigh) > 0 || is_fc_agglomerated_tmp[neigh]) continue;
          if (d_n_of_order_o.count(neigh) > 0) continue;
          const auto prev = d_n_of_order_o_m_one.find(neigh);
          if (prev == d_n_of_order_o_m_one.end() || i_order < prev->second) d_n_of_order_o[neigh] = i_order;
""")]),
    ("cnb: assign", "same", D, [(CNB_COPY, """      d_n_of_order_o_m_one = d_n_of_order_o;
      ++i_order;
""")]),
    ("cnb: swap", "same", D, [(CNB_COPY, """      std::swap(d_n_of_order_o_m_one, d_n_of_order_o);
      ++i_order;
""")]),
    ("cnb: move", "same", D, [(CNB_COPY, """      d_n_of_order_o_m_one = std::move(d_n_of_order_o);
      ++i_order;
""")]),
    ("cnb: structured", "same", D, [(CNB_END, """    for (const auto &[cell, order] : d_n_of_order_o_m_one) d_n_of_seed[cell] = order;
    for (const auto seed : s_seeds) d_n_of_seed.erase(seed);
    nb_of_order_of_neighbourhood = i_order;
""")]),
    ("cc: sub count", "same", C, [(SUBC, """    for (const auto fc : this->_s_fc) {
      mapping.emplace_back(fc);
      volumes.emplace_back(this->_fc_graph->_volumes[fc]);
      auto w_it = this->_fc_graph->weights_cbegin(fc);
      for (auto n_it = this->_fc_graph->neighbours_cbegin(fc);
           n_it != this->_fc_graph->neighbours_cend(fc); ++n_it, ++w_it) {
        if (this->_s_fc.count(*n_it) == 0) continue;
        col_ind.push_back(*n_it);
        CSR_vals.push_back(*w_it);
        ++position;
      }
      CSR_row.push_back(position);
    }
""")]),
    ("cc: sub row size", "same", C, [("""          ++position;
""", ""), ("""      CSR_row.push_back(position);
""", """      CSR_row.push_back(col_ind.size());
"""), ("""    CoMMAIndexType position = 0;
""", "")]),
    ("cc: sub transform", "same", C, [(SUBD, """    std::transform(col_ind.cbegin(), col_ind.cend(), std::back_inserter(CSR_col), [&mapping](const auto c) {
      return std::distance(mapping.cbegin(), std::find(mapping.cbegin(), mapping.cend(), c));
    });
""")]),
    ("cc: insert helper", "same", C, [(INSN, """    add_node(i_fc);
"""), ("""      _cc_graph->insert_node(
        this->_fc_graph->get_neighbours(i_fc),
        i_fc,
        this->_fc_graph->_volumes[i_fc],
        this->_fc_graph->get_weights(i_fc)
      );
""", """      add_node(i_fc);
"""), ("""  inline void update_connectivity() {
""", """  void add_node(const CoMMAIndexType cell) {
    const auto neighs = this->_fc_graph->get_neighbours(cell);
    const auto weights = this->_fc_graph->get_weights(cell);
    _cc_graph->insert_node(neighs, cell, this->_fc_graph->_volumes[cell], weights);
  }
  inline void update_connectivity() {
""")]),
    ("cc: base insert", "same", C, [("""    this->_s_fc.insert(i_fc);
    ++this->_cardinality;
    this->_compactness = new_compactness.has_value()
      ? new_compactness.value()
      : this->_fc_graph->compute_min_fc_compactness_inside_a_cc(this->_s_fc);
""", """    BaseClass::insert_cell(i_fc, new_compactness);
""")]),
    ("cc: compactness if", "same", C, [(COMPV, """    if (new_compactness) {
      _compactness = *new_compactness;
    } else {
      _compactness = _fc_graph->compute_min_fc_compactness_inside_a_cc(_s_fc);
    }
""", 0)]),
    ("cc: cardinality first", "same", C, [("""    _s_fc.insert(i_fc);
    ++_cardinality;
""", """    _cardinality++;
    _s_fc.emplace(i_fc);
""")]),
    ("cc: insert loop", "same", C, [("""    _s_fc.insert(fcs.begin(), fcs.end());
    _cardinality += fcs.size();
""", """    for (const auto fc : fcs) _s_fc.insert(fc);
    _cardinality = _cardinality + static_cast<CoMMAIntType>(fcs.size());
""", 0)]),
    # ------------------------------------------------------------- mutations
    ("m: dfs all", "C24", D, [("      if (!_visited[*it]) {\n        DFS(*it);\n      }\n", "      DFS(*it);\n")]),
    ("m: connected from last", "C24", D, [("    DFS(0);\n", "    DFS(_number_of_cells - 1);\n")]),
    ("m: connected skips last", "C24", D, [("i < _number_of_cells; ++i) {\n      if (!_visited[i])", "i + 1 < _number_of_cells; ++i) {\n      if (!_visited[i])")]),
    ("m: minc max", "C19", D, [("return left.second < right.second;", "return left.second > right.second;")]),
    ("m: minc one", "C19", D, [("    if (s_fc.size() > 1) {\n      std::unordered_map", "    if (s_fc.size() > 2) {\n      std::unordered_map")]),
    ("m: fcc outside", "C19", D, [("return s_fc.count(neigh) > 0;", "return s_fc.count(neigh) == 0;")]),
    ("m: insert weight", "C24", D, [("        this->_m_CRS_Values.end(), v_l_weight[iter_weight]\n", "        this->_m_CRS_Values.end(), weight[iter_weight]\n")]),
    ("m: insert row", "C24", D, [("_m_CRS_Row_Ptr.begin() + elem + 1;\n           it !=", "_m_CRS_Row_Ptr.begin() + elem;\n           it !=")]),
    ("m: remove row", "C24", D, [("*it_bis = *it_bis - (ind_p_one - ind);", "*it_bis = *it_bis - ind;")]),
    ("m: bnd weight", "C18", D, [("        / this->get_nb_of_neighbours(idx_c);", "        / this->get_total_n_faces(idx_c);")]),
    ("m: tag gt", "C09", D, [("if (ar >= threshold_anisotropy)", "if (ar > threshold_anisotropy)")]),
    ("m: tag all weights", "C09", D, [("          if (*n_it != i_fc) {\n            if (max", "          if (true) {\n            if (max")]),
    ("m: tag 3d ratio", "C09", D, [("return sqrt(max_s / min_s);", "return max_s / min_s;")]),
    ("m: tag priority", "C09", D, [("            aniso_w_weights.emplace(i_fc, priority_weights[i_fc]);\n            max_weights", "            aniso_w_weights.emplace(i_fc, 1.);\n            max_weights")]),
    ("m: tag no max", "C09", D, [("if (dist > max_ov_dist) max_ov_dist = dist;", "max_ov_dist = dist;", 0)]),
    ("m: nocc taken", "C25", D, [("if (!is_fc_agglomerated_tmp[*n] && s_seeds.find", "if (s_seeds.find")]),
    ("m: cnb taken", "C04", D, [("              && ((!is_fc_agglomerated_tmp[*i_fc_n]))", "")]),
    ("m: cnb order", "C04", D, [("(i_order < nb_of_order_of_neighbourhood + 1)", "(i_order < nb_of_order_of_neighbourhood)")]),
    ("m: cnb card", "C04", D, [("             < max_card) {", "             <= max_card) {")]),
    ("m: cnb seeds kept", "C04", D, [("    for (const CoMMAIndexType &i_fc : s_seeds) {\n      d_n_of_seed.erase(i_fc);\n    }\n", "")]),
    ("m: cc compactness", "C19", C, [(COMPV, """    if (new_compactness.has_value()) _compactness = new_compactness.value();
""", 0)]),
    ("m: cc sub weight", "C24", C, [("          CSR_vals.push_back(*w_it);\n", "          CSR_vals.push_back(CSR_vals.empty() ? *w_it : CSR_vals.back());\n")]),
    ("m: cc volume", "C24", C, [("      volumes.push_back(this->_fc_graph->_volumes[i_fc]);\n", "      volumes.push_back(this->_fc_graph->_volumes[position]);\n")]),
]
