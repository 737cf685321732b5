#ifndef COMMA_PROJECT_DUAL_GRAPH_H
#define COMMA_PROJECT_DUAL_GRAPH_H
#include <algorithm>
#include <cassert>
#include <climits>
#include <deque>
#include <functional>
#include <limits>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "CoMMA/CoMMADefs.h"
#include "CoMMA/Seeds_Pool.h"
#include "CoMMA/Util.h"
namespace comma {
template<
  typename CoMMAIndexType,
  typename CoMMAWeightType,
  typename CoMMAIntType>
class Graph {
public:
  using ContainerIndexType = std::vector<CoMMAIndexType>;
  using ContainerWeightType = std::vector<CoMMAWeightType>;
  using ContainerIndexConstIt = typename ContainerIndexType::const_iterator;
  using ContainerWeightConstIt = typename ContainerWeightType::const_iterator;
  Graph(
    const CoMMAIndexType &nb_c,
    const ContainerIndexType &m_crs_row_ptr,
    const ContainerIndexType &m_crs_col_ind,
    const ContainerWeightType &m_crs_values,
    const ContainerWeightType &volumes
  ) :
    _number_of_cells(nb_c),
    _m_CRS_Row_Ptr(m_crs_row_ptr),
    _m_CRS_Col_Ind(m_crs_col_ind),
    _m_CRS_Values(m_crs_values),
    _volumes(volumes) {
    _visited.resize(_number_of_cells);
    fill(_visited.begin(), _visited.end(), false);
  }
  virtual ~Graph() = default;
  CoMMAIndexType _number_of_cells;
  std::vector<bool> _visited;
  ContainerIndexType _m_CRS_Row_Ptr;
  ContainerIndexType _m_CRS_Col_Ind;
  ContainerWeightType _m_CRS_Values;
  ContainerWeightType _volumes;
  void DFS(const CoMMAIndexType &i_fc) {
    _visited[i_fc] = true;
    for (auto it = neighbours_cbegin(i_fc); it != neighbours_cend(i_fc); ++it) {
      if (!_visited[*it]) {
        DFS(*it);
      }
    }
  }
  void BFS(const CoMMAIndexType &root) {
    std::deque<CoMMAIndexType> coda;
    ContainerIndexType path;
    coda.push_back(root);
    std::vector<bool> visited(_number_of_cells, false);
    visited[root] = true;
    std::vector<std::optional<CoMMAIndexType>> prev(
      _number_of_cells, std::nullopt
    );
    while (!coda.empty()) {
      CoMMAIndexType node = coda.front();
      coda.pop_front();
      for (auto it = neighbours_cbegin(node); it != neighbours_cend(node);
           ++it) {
        if (!visited[*it]) {
          coda.push_pack(*it);
          visited[*it] = true;
          prev[it] = node;
        }
      }
    }
    CoMMAIndexType retro = prev[_number_of_cells - 1];
    while (retro.has_value()) {
      path.push_back(retro);
      retro = prev[retro];
    }
    reverse(path.begin(), path.end());
  }
  inline CoMMAIntType get_nb_of_neighbours(const CoMMAIndexType i_c) const {
    return _m_CRS_Row_Ptr[i_c + 1] - _m_CRS_Row_Ptr[i_c];
  }
  ContainerIndexType get_neighbours(const CoMMAIndexType &i_c) const {
    CoMMAIndexType ind = _m_CRS_Row_Ptr[i_c];
    CoMMAIndexType ind_p_one = _m_CRS_Row_Ptr[i_c + 1];
    ContainerIndexType result(
      _m_CRS_Col_Ind.begin() + ind, _m_CRS_Col_Ind.begin() + ind_p_one
    );
    return result;
  }
  inline ContainerIndexConstIt neighbours_cbegin(const CoMMAIndexType &i_c
  ) const {
    return std::next(_m_CRS_Col_Ind.cbegin(), _m_CRS_Row_Ptr[i_c]);
  }
  inline ContainerIndexConstIt neighbours_cend(const CoMMAIndexType &i_c
  ) const {
    return std::next(_m_CRS_Col_Ind.cbegin(), _m_CRS_Row_Ptr[i_c + 1]);
  }
  inline ContainerWeightType get_weights(const CoMMAIndexType &i_c) const {
    CoMMAIndexType ind = _m_CRS_Row_Ptr[i_c];
    CoMMAIndexType ind_p_one = _m_CRS_Row_Ptr[i_c + 1];
    ContainerWeightType result(
      _m_CRS_Values.begin() + ind, _m_CRS_Values.begin() + ind_p_one
    );
    return result;
  }
  inline ContainerWeightConstIt weights_cbegin(const CoMMAIndexType &i_c
  ) const {
    return std::next(_m_CRS_Values.cbegin(), _m_CRS_Row_Ptr[i_c]);
  }
  inline ContainerWeightConstIt weights_cend(const CoMMAIndexType &i_c) const {
    return std::next(_m_CRS_Values.cbegin(), _m_CRS_Row_Ptr[i_c + 1]);
  }
  bool check_connectivity() {
    _visited.assign(_number_of_cells, false);
    if (_number_of_cells <= 1) {
      return (true);
    }
    DFS(0);
    for (auto i = decltype(_number_of_cells){0}; i < _number_of_cells; ++i) {
      if (!_visited[i]) {
        return (false);
      }
    }
    return (true);
  }
  CoMMAIntType compute_min_fc_compactness_inside_a_cc(
    const std::unordered_set<CoMMAIndexType> &s_fc
  ) const {
    if (s_fc.size() > 1) {
      std::unordered_map<CoMMAIndexType, CoMMAIntType> dict_fc_compactness =
        compute_fc_compactness_inside_a_cc(s_fc);
      if (dict_fc_compactness.empty()) {
        return 0;
      }
      return min_element(
               dict_fc_compactness.begin(),
               dict_fc_compactness.end(),
               [](const auto &left, const auto &right) {
                 return left.second < right.second;
               }
      )->second;
    }
    return 0;
  }
  std::unordered_map<CoMMAIndexType, CoMMAIntType>
  compute_fc_compactness_inside_a_cc(
    const std::unordered_set<CoMMAIndexType> &s_fc
  ) const {
    std::unordered_map<CoMMAIndexType, CoMMAIntType> dict_fc_compactness;
    if (!s_fc.empty()) {
      if (s_fc.size() == 1) {
        dict_fc_compactness[*s_fc.begin()] = 0;
      } else {
        for (const CoMMAIndexType &i_fc : s_fc) {
          dict_fc_compactness[i_fc] = count_if(
            this->_m_CRS_Col_Ind.cbegin() + this->_m_CRS_Row_Ptr[i_fc],
            this->_m_CRS_Col_Ind.cbegin() + this->_m_CRS_Row_Ptr[i_fc + 1],
            [&](const auto &neigh) { return s_fc.count(neigh) > 0; }
          );
        }
      }
    }
    return dict_fc_compactness;
  }
};
template<
  typename CoMMAIndexType,
  typename CoMMAWeightType,
  typename CoMMAIntType>
class Subgraph : public Graph<CoMMAIndexType, CoMMAWeightType, CoMMAIntType> {
public:
  using BaseClass = Graph<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>;
  using typename BaseClass::ContainerIndexType;
  using typename BaseClass::ContainerWeightType;
  Subgraph(
    const CoMMAIndexType &nb_c,
    const ContainerIndexType &m_crs_row_ptr,
    const ContainerIndexType &m_crs_col_ind,
    const ContainerWeightType &m_crs_values,
    const ContainerWeightType &volumes,
    const ContainerIndexType &mapping_l_to_g,
    const bool &is_isotropic
  ) :
    Graph<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>(
      nb_c, m_crs_row_ptr, m_crs_col_ind, m_crs_values, volumes
    ),
    _is_isotropic(is_isotropic),
    _cardinality(static_cast<CoMMAIntType>(nb_c)),
    _mapping_l_to_g(mapping_l_to_g) {
    _compactness = static_cast<CoMMAIntType>(nb_c);
    for (auto c = decltype(nb_c){0}; c < nb_c; ++c) {
      const auto n_neighs =
        static_cast<CoMMAIntType>(m_crs_row_ptr[c + 1] - m_crs_row_ptr[c]);
      if (n_neighs < _compactness) {
        _compactness = n_neighs;
      }
    }
  }
  ~Subgraph() override = default;
  bool _is_isotropic;
  CoMMAIntType _cardinality;
  CoMMAIntType _compactness;
  ContainerIndexType _mapping_l_to_g;
  void insert_node(
    const ContainerIndexType &v_neigh,
    const CoMMAIndexType &i_fc,
    const CoMMAWeightType &volume,
    const ContainerWeightType &weight
  ) {
    ContainerIndexType v_l_neigh{};
    ContainerWeightType v_l_weight{};
    auto w_it = weight.cbegin();
    for (const auto &elem : v_neigh) {
      const auto low1 =
        std::find(_mapping_l_to_g.begin(), _mapping_l_to_g.end(), elem);
      if (low1 != _mapping_l_to_g.end()) {
        v_l_neigh.push_back(low1 - _mapping_l_to_g.begin());
        v_l_weight.push_back(*w_it);
      }
      ++w_it;
    }
    CoMMAIntType iter_weight = 0;
    CoMMAIndexType local_index = this->_m_CRS_Row_Ptr.size() - 1;
    auto row_end = this->_m_CRS_Row_Ptr.end() - 1;
    for (const auto &elem : v_l_neigh) {
      this->_m_CRS_Col_Ind.insert(
        this->_m_CRS_Col_Ind.begin() + this->_m_CRS_Row_Ptr[elem], local_index
      );
      this->_m_CRS_Values.insert(
        this->_m_CRS_Values.begin() + this->_m_CRS_Row_Ptr[elem],
        v_l_weight[iter_weight]
      );
      for (auto it = this->_m_CRS_Row_Ptr.begin() + elem + 1;
           it != this->_m_CRS_Row_Ptr.end();
           ++it) {
        ++(*it);
      }
      this->_m_CRS_Col_Ind.insert(this->_m_CRS_Col_Ind.end(), elem);
      this->_m_CRS_Values.insert(
        this->_m_CRS_Values.end(), v_l_weight[iter_weight]
      );
      ++iter_weight;
    }
    this->_m_CRS_Row_Ptr.push_back(*row_end + v_l_neigh.size());
    this->_volumes.push_back(volume);
    _mapping_l_to_g.push_back(i_fc);
    update_size();
  }
  void update_size() {
    this->_number_of_cells = _mapping_l_to_g.size();
    _cardinality = static_cast<CoMMAIntType>(this->_number_of_cells);
    _compactness = _cardinality;
    for (auto c = CoMMAIndexType{0}; c < this->_number_of_cells; ++c) {
      _compactness = std::min(_compactness, this->get_nb_of_neighbours(c));
    }
  }
  void remove_node(const CoMMAIndexType &elemento) {
    auto low =
      std::find(_mapping_l_to_g.begin(), _mapping_l_to_g.end(), elemento);
    const CoMMAIndexType i_fc = low - _mapping_l_to_g.begin();
    ContainerIndexType v_neigh = this->get_neighbours(i_fc);
    for (const auto &elem : v_neigh) {
      const auto row_begin =
        this->_m_CRS_Col_Ind.begin() + this->_m_CRS_Row_Ptr[elem];
      const auto row_end =
        this->_m_CRS_Col_Ind.begin() + this->_m_CRS_Row_Ptr[elem + 1];
      const auto it = std::find(row_begin, row_end, i_fc);
      if (it != row_end) {
        this->_m_CRS_Values.erase(
          this->_m_CRS_Values.begin() + (it - this->_m_CRS_Col_Ind.begin())
        );
        this->_m_CRS_Col_Ind.erase(it);
        for (auto it_bis = this->_m_CRS_Row_Ptr.begin() + elem + 1;
             it_bis != this->_m_CRS_Row_Ptr.end();
             ++it_bis) {
          *it_bis = *it_bis - 1;
        }
      }
    }
    const CoMMAIndexType ind = this->_m_CRS_Row_Ptr[i_fc];
    const CoMMAIndexType ind_p_one = this->_m_CRS_Row_Ptr[i_fc + 1];
    this->_m_CRS_Col_Ind.erase(
      this->_m_CRS_Col_Ind.begin() + ind,
      this->_m_CRS_Col_Ind.begin() + ind_p_one
    );
    this->_m_CRS_Values.erase(
      this->_m_CRS_Values.begin() + ind, this->_m_CRS_Values.begin() + ind_p_one
    );
    for (auto it_bis = this->_m_CRS_Row_Ptr.begin() + i_fc + 1;
         it_bis != this->_m_CRS_Row_Ptr.end();
         ++it_bis) {
      *it_bis = *it_bis - (ind_p_one - ind);
    }
    auto Col_pointer = this->_m_CRS_Row_Ptr.begin() + i_fc;
    auto mapping_pointer = _mapping_l_to_g.begin() + i_fc;
    auto volumes_pointer = this->_volumes.begin() + i_fc;
    this->_volumes.erase(volumes_pointer);
    this->_m_CRS_Row_Ptr.erase(Col_pointer);
    _mapping_l_to_g.erase(mapping_pointer);
    std::vector<std::optional<CoMMAIndexType>> internal_mapping;
    internal_mapping.reserve(this->_m_CRS_Row_Ptr.size() + 1);
    CoMMAIndexType indice = 0;
    for (auto ix = decltype(this->_m_CRS_Row_Ptr.size()){0};
         ix < this->_m_CRS_Row_Ptr.size() + 1;
         ++ix) {
      if (static_cast<decltype(i_fc)>(ix) != i_fc) {
        internal_mapping.push_back(indice);
        indice++;
      } else {
        internal_mapping.push_back(std::nullopt);
      }
    }
    for (auto &actual : this->_m_CRS_Col_Ind) {
      assert(internal_mapping[actual].has_value());
      actual = internal_mapping[actual].value();
    }
    update_size();
  }
};
template<
  typename CoMMAIndexType,
  typename CoMMAWeightType,
  typename CoMMAIntType>
class Dual_Graph : public Graph<CoMMAIndexType, CoMMAWeightType, CoMMAIntType> {
public:
  using BaseClass = Graph<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>;
  using typename BaseClass::ContainerIndexType;
  using typename BaseClass::ContainerWeightType;
  using CoMMAPairType = std::pair<CoMMAIndexType, CoMMAWeightType>;
  using CoMMASetOfPairType =
    std::set<CoMMAPairType, CustomPairGreaterFunctor<CoMMAPairType>>;
  Dual_Graph(
    const CoMMAIndexType &nb_c,
    const ContainerIndexType &m_crs_row_ptr,
    const ContainerIndexType &m_crs_col_ind,
    const ContainerWeightType &m_crs_values,
    const ContainerWeightType &volumes,
    const std::vector<std::vector<CoMMAWeightType>> &centers,
    const std::vector<CoMMAIntType> &n_bnd_faces,
    const CoMMAIntType dimension,
    const ContainerIndexType &anisotropic_compliant_fc
  ) :
    Graph<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>(
      nb_c, m_crs_row_ptr, m_crs_col_ind, m_crs_values, volumes
    ),
    _n_bnd_faces(n_bnd_faces),
    _s_anisotropic_compliant_cells(
      anisotropic_compliant_fc.begin(), anisotropic_compliant_fc.end()
    ),
    _centers(centers) {
    _compute_AR = dimension == 2
      ? [](
          const CoMMAWeightType min_s, const CoMMAWeightType max_s
        ) -> CoMMAWeightType { return max_s / min_s; }
    : [](
        const CoMMAWeightType min_s, const CoMMAWeightType max_s
      ) -> CoMMAWeightType { return sqrt(max_s / min_s); };
  }
  ~Dual_Graph() override = default;
  const std::vector<CoMMAIntType> &_n_bnd_faces;
  const std::unordered_set<CoMMAIndexType> _s_anisotropic_compliant_cells;
  const std::vector<std::vector<CoMMAWeightType>> &_centers;
  std::function<CoMMAWeightType(const CoMMAWeightType, const CoMMAWeightType)>
    _compute_AR;
  inline CoMMAIntType get_n_boundary_faces(const CoMMAIndexType idx_c) const {
    return _n_bnd_faces[idx_c];
  }
  inline CoMMAIntType get_total_n_faces(const CoMMAIndexType idx_c) const {
    return this->_n_bnd_faces[idx_c] + this->get_nb_of_neighbours(idx_c);
  }
  inline bool is_on_boundary(const CoMMAIndexType idx_c) const {
    return _n_bnd_faces[idx_c] > 0;
  }
  inline CoMMAWeightType estimated_boundary_weight(const CoMMAIndexType idx_c
  ) const {
    return this->_n_bnd_faces[idx_c] == 0 ? 0.
                                          : this->_n_bnd_faces[idx_c]
#if 1
        * std::reduce(this->weights_cbegin(idx_c),
                      this->weights_cend(idx_c),
                      CoMMAWeightType{0.})
        / this->get_nb_of_neighbours(idx_c);
#else
        * pow(std::accumulate(
                this->weights_cbegin(idx_c),
                this->weights_cend(idx_c),
                CoMMAWeightType{1.},
                std::multiplies<>()
              ),
              CoMMAWeightType{1.} / this->get_nb_of_neighbours(idx_c));
#endif
  }
  inline CoMMAWeightType estimated_total_weight(const CoMMAIndexType idx_c
  ) const {
    return std::reduce(this->weights_cbegin(idx_c), this->weights_cend(idx_c))
      + this->estimated_boundary_weight(idx_c);
  }
  inline CoMMAWeightType get_center_direction(
    const CoMMAIndexType &a,
    const CoMMAIndexType &b,
    std::vector<CoMMAWeightType> &dir
  ) {
    return get_direction<CoMMAWeightType>(
      this->_centers[a], this->_centers[b], dir
    );
  }
  void tag_anisotropic_cells(
    std::vector<CoMMAWeightType> &alt_weights,
    ContainerWeightType &max_weights,
    std::vector<bool> &is_anisotropic,
    std::deque<CoMMAIndexType> &aniso_seeds_pool,
    const CoMMAWeightType threshold_anisotropy,
    const ContainerWeightType &priority_weights,
    const CoMMACellCouplingT cell_coupling,
    const CoMMAIndexType preserving
  ) {
    if (cell_coupling == CoMMACellCouplingT::MIN_DISTANCE) {
      alt_weights.resize(this->_m_CRS_Values.size());
      std::fill(alt_weights.begin(), alt_weights.end(), 0.0);
    }
    CoMMASetOfPairType aniso_w_weights{};
    if (threshold_anisotropy < 0) {
      switch (cell_coupling) {
        case CoMMACellCouplingT::MAX_WEIGHT: {
          for (const CoMMAIndexType i_fc : _s_anisotropic_compliant_cells) {
            aniso_w_weights.emplace(i_fc, priority_weights[i_fc]);
            max_weights[i_fc] = *(
              max_element(this->weights_cbegin(i_fc), this->weights_cend(i_fc))
            );
          }
          break;
        }
        case CoMMACellCouplingT::MIN_DISTANCE: {
          for (const CoMMAIndexType i_fc : _s_anisotropic_compliant_cells) {
            aniso_w_weights.emplace(i_fc, priority_weights[i_fc]);
            CoMMAWeightType max_ov_dist = 0.0;
            const auto offset = this->_m_CRS_Row_Ptr[i_fc];
            auto n_it = std::next(this->_m_CRS_Col_Ind.cbegin(), offset);
            auto w_it = std::next(alt_weights.begin(), offset);
            for (; n_it != this->neighbours_cend(i_fc); ++n_it, ++w_it) {
              const auto dist = 1.
                / squared_euclidean_distance<CoMMAWeightType>(
                                  this->_centers[i_fc], this->_centers[*n_it]
                );
              *w_it = dist;
              if (dist > max_ov_dist) max_ov_dist = dist;
            }
            max_weights[i_fc] = max_ov_dist;
          }
          break;
        }
        default:
          break;
      }
    } else {
      for (const CoMMAIndexType i_fc : _s_anisotropic_compliant_cells) {
        CoMMAWeightType max_weight = 0.0;
        CoMMAWeightType min_weight =
          std::numeric_limits<CoMMAWeightType>::max();
        auto n_it = this->neighbours_cbegin(i_fc);
        auto w_it = this->weights_cbegin(i_fc);
        auto nb_neighbours = this->get_nb_of_neighbours(i_fc);
        for (; n_it != this->neighbours_cend(i_fc)
             && w_it != this->weights_cend(i_fc);
             ++n_it, ++w_it) {
          if (*n_it != i_fc) {
            if (max_weight < *w_it) {
              max_weight = *w_it;
            }
            if (min_weight > *w_it) {
              min_weight = *w_it;
            }
          } else {
            nb_neighbours--;
          }
        }
        const auto ar = _compute_AR(min_weight, max_weight);
        if (ar >= threshold_anisotropy) {
          switch (preserving) {
            case 2:
              if ((is_on_boundary(i_fc) > 0 && nb_neighbours == 3)
                  || nb_neighbours == 4)
                aniso_w_weights.emplace(i_fc, priority_weights[i_fc]);
              break;
            case 3:
              if ((is_on_boundary(i_fc) > 0 && nb_neighbours == 5)
                  || nb_neighbours == 6)
                aniso_w_weights.emplace(i_fc, priority_weights[i_fc]);
            case 0:
            default:
              aniso_w_weights.emplace(i_fc, priority_weights[i_fc]);
              break;
          }
        }
        switch (cell_coupling) {
          case CoMMACellCouplingT::MAX_WEIGHT: {
            max_weights[i_fc] = max_weight;
            break;
          }
          case CoMMACellCouplingT::MIN_DISTANCE: {
            const auto offset = this->_m_CRS_Row_Ptr[i_fc];
            auto n_it = std::next(this->_m_CRS_Col_Ind.cbegin(), offset);
            auto w_it = std::next(alt_weights.begin(), offset);
            CoMMAWeightType max_ov_dist = 0.0;
            for (; n_it != this->neighbours_cend(i_fc); ++n_it, ++w_it) {
              const auto dist = 1.
                / squared_euclidean_distance<CoMMAWeightType>(
                                  this->_centers[i_fc], this->_centers[*n_it]
                );
              *w_it = dist;
              if (dist > max_ov_dist) max_ov_dist = dist;
            }
            max_weights[i_fc] = max_ov_dist;
            break;
          }
          default:
            break;
        }
      }
    }
    for (const auto &[i_fc, w] : aniso_w_weights) {
      is_anisotropic[i_fc] = true;
      aniso_seeds_pool.emplace_back(i_fc);
    }
  }
  inline CoMMAIndexType get_nb_cells() const { return this->_number_of_cells; }
  inline std::unordered_set<CoMMAIndexType> get_neighbourhood_of_cc(
    const std::unordered_set<CoMMAIndexType> &s_seeds,
    const std::vector<bool> &is_fc_agglomerated_tmp
  ) const {
    std::unordered_set<CoMMAIndexType> cc_neighs{};
    for (const auto fc : s_seeds)
      for (auto n = this->neighbours_cbegin(fc); n != this->neighbours_cend(fc);
           ++n)
        if (!is_fc_agglomerated_tmp[*n] && s_seeds.find(*n) == s_seeds.end())
          cc_neighs.insert(*n);
    return cc_neighs;
  }
  void compute_neighbourhood_of_cc(
    const std::unordered_set<CoMMAIndexType> &s_seeds,
    CoMMAIntType &nb_of_order_of_neighbourhood,
    std::unordered_map<CoMMAIndexType, CoMMAIntType> &d_n_of_seed,
    const CoMMAIntType max_card,
    const std::vector<bool> &is_fc_agglomerated_tmp
  ) const {
    assert(max_card > 1);
    std::unordered_map<CoMMAIndexType, CoMMAIntType> d_n_of_order_o_m_one;
    for (const CoMMAIndexType &i_fc : s_seeds) {
      d_n_of_order_o_m_one[i_fc] = 0;
    }
    CoMMAIntType i_order = 1;
    while ((i_order < nb_of_order_of_neighbourhood + 1)
           || static_cast<CoMMAIntType>(
                d_n_of_seed.size() + d_n_of_order_o_m_one.size()
              )
             < max_card) {
      std::unordered_map<CoMMAIndexType, CoMMAIntType> d_n_of_order_o;
      for (auto id_M_one : d_n_of_order_o_m_one) {
        d_n_of_seed[id_M_one.first] = id_M_one.second;
      }
      for (const auto &i_k_v : d_n_of_order_o_m_one) {
        CoMMAIndexType seed_tmp = i_k_v.first;
        for (auto i_fc_n = this->neighbours_cbegin(seed_tmp);
             i_fc_n != this->neighbours_cend(seed_tmp);
             ++i_fc_n) {
          if ((d_n_of_seed.count(*i_fc_n) == 0)
              && ((!is_fc_agglomerated_tmp[*i_fc_n]))) {
            if (d_n_of_order_o.count(*i_fc_n) == 0) {
              if (d_n_of_order_o_m_one.count(*i_fc_n)) {
                if (i_order < d_n_of_order_o_m_one[*i_fc_n]) {
                  d_n_of_order_o[*i_fc_n] = i_order;
                }
              } else {
                d_n_of_order_o[*i_fc_n] = i_order;
              }
            }
          }
        }
      }
      if (d_n_of_order_o.empty()) {
        break;
      }
      d_n_of_order_o_m_one.clear();
      for (auto id : d_n_of_order_o) {
        d_n_of_order_o_m_one[id.first] = id.second;
      }
      i_order++;
    }
    for (auto id_M_one : d_n_of_order_o_m_one) {
      d_n_of_seed[id_M_one.first] = id_M_one.second;
    }
    for (const CoMMAIndexType &i_fc : s_seeds) {
      d_n_of_seed.erase(i_fc);
    }
    nb_of_order_of_neighbourhood = i_order;
  }
};
}
#endif
