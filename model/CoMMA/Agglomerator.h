#ifndef COMMA_PROJECT_AGGLOMERATOR_H
#define COMMA_PROJECT_AGGLOMERATOR_H
#include <cmath>
#include <deque>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <memory>
#include <numeric>
#include <optional>
#include <set>
#include <stdexcept>
#include <vector>
#include "CoMMA/ARComputer.h"
#include "CoMMA/CoMMADefs.h"
#include "CoMMA/Coarse_Cell_Container.h"
#include "CoMMA/Dual_Graph.h"
#include "CoMMA/Neighbourhood.h"
#include "CoMMA/Util.h"
namespace comma {
template<
  typename CoMMAIndexType,
  typename CoMMAWeightType,
  typename CoMMAIntType>
class Agglomerator {
public:
  Agglomerator(
    std::shared_ptr<Dual_Graph<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>
      graph,
    std::shared_ptr<
      Coarse_Cell_Container<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>
      cc_graph,
    std::shared_ptr<Seeds_Pool<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>
      seeds_pool,
    CoMMAIntType dimension
  ) :
    _dimension(dimension),
    _fc_graph(graph),
    _cc_graph(cc_graph),
    _seeds_pool(seeds_pool) {
    if ((_dimension != 2) && (_dimension != 3)) {
      throw std::range_error("dimension can only be 2 or 3");
    }
    if (_dimension == 2) {
      _min_neighbourhood = 2;
    } else {
      _min_neighbourhood = 3;
    }
    _l_nb_of_cells.push_back(graph->_number_of_cells);
  }
  virtual ~Agglomerator() = default;
  inline std::vector<CoMMAIndexType> get_fc_2_cc() const {
    return _cc_graph->_fc_2_cc;
  }
  virtual void agglomerate_one_level(
    const CoMMAIntType goal_card,
    const CoMMAIntType min_card,
    const CoMMAIntType max_card,
    const std::vector<CoMMAWeightType> &priority_weights,
    bool correction_steps
  ) = 0;
protected:
  CoMMAIntType _dimension;
  CoMMAIntType _min_neighbourhood = 3;
  CoMMAIntType _min_card = 0;
  CoMMAIntType _max_card = 0;
  CoMMAIntType _goal_card = 0;
  CoMMAIntType _threshold_card = 0;
  std::vector<CoMMAIndexType> _l_nb_of_cells;
  std::shared_ptr<Dual_Graph<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>
    _fc_graph;
  std::shared_ptr<
    Coarse_Cell_Container<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>
    _cc_graph;
  std::shared_ptr<Seeds_Pool<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>
    _seeds_pool;
};
template<
  typename CoMMAIndexType,
  typename CoMMAWeightType,
  typename CoMMAIntType>
class Agglomerator_Anisotropic :
  public Agglomerator<CoMMAIndexType, CoMMAWeightType, CoMMAIntType> {
public:
  using AnisotropicLine = std::deque<CoMMAIndexType>;
  using AnisotropicLinePtr = std::shared_ptr<AnisotropicLine>;
  using CoMMAPairType = std::pair<CoMMAIndexType, CoMMAWeightType>;
  using CoMMASetOfPairType =
    std::set<CoMMAPairType, CustomPairGreaterFunctor<CoMMAPairType>>;
  Agglomerator_Anisotropic(
    std::shared_ptr<Dual_Graph<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>
      graph,
    std::shared_ptr<
      Coarse_Cell_Container<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>
      cc_graph,
    std::shared_ptr<Seeds_Pool<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>
      seeds_pool,
    CoMMAIntType dimension,
    const CoMMAWeightType threshold_anisotropy,
    const std::vector<CoMMAIndexType> &agglomerationLines_Idx,
    const std::vector<CoMMAIndexType> &agglomerationLines,
    const std::vector<CoMMAWeightType> &priority_weights,
    const bool build_lines,
    const bool odd_line_length,
    const std::optional<CoMMAIndexType> max_cells_in_line,
    CoMMACellCouplingT cell_coupling = CoMMACellCouplingT::MAX_WEIGHT,
    const bool force_line_direction = true
  ) :
    Agglomerator<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>(
      graph, cc_graph, seeds_pool, dimension
    ),
    _should_agglomerate(true),
    _aniso_neighbours(),
    _odd_line_length(odd_line_length),
    _max_cells_in_line(max_cells_in_line),
    _cell_coupling(cell_coupling),
    _force_line_direction(force_line_direction) {
    this->_l_nb_of_cells.push_back(graph->_number_of_cells);
    this->_nb_lines = std::vector<CoMMAIndexType>(2);
    this->_v_lines = std::vector<std::vector<AnisotropicLinePtr>>(2);
    if (build_lines) {
      const CoMMAWeightType thr =
        (threshold_anisotropy > 1 || threshold_anisotropy < 0)
        ? threshold_anisotropy
        : static_cast<CoMMAWeightType>(1. / threshold_anisotropy);
      this->_should_agglomerate =
        this->build_anisotropic_lines(priority_weights, thr);
    } else {
      this->_nb_lines[0] = 0;
      for (auto idx_ptr = agglomerationLines_Idx.cbegin() + 1;
           idx_ptr != agglomerationLines_Idx.cend();
           ++idx_ptr) {
        const auto ln_sz = *idx_ptr - (*(idx_ptr - 1));
        if (ln_sz > 1) {
          this->_v_lines[0].push_back(std::make_shared<AnisotropicLine>(
            agglomerationLines.cbegin() + (*(idx_ptr - 1)),
            agglomerationLines.cbegin() + (*idx_ptr)
          ));
          this->_nb_lines[0]++;
        }
      }
      this->_should_agglomerate = this->_nb_lines[0] > 0;
      if (!this->_should_agglomerate)
        std::cout
          << "CoMMA - No anisotropic line was built (e.g., only one-cell "
             "lines). Skipping anisotropic agglomeration"
          << std::endl;
    }
  }
  ~Agglomerator_Anisotropic() override = default;
  void agglomerate_one_level(
    const CoMMAIntType goal_card,
    const CoMMAIntType min_card,
    const CoMMAIntType max_card,
    const std::vector<CoMMAWeightType> &priority_weights,
    bool correction_steps
  ) override {
    CoMMAUnused(goal_card);
    CoMMAUnused(min_card);
    CoMMAUnused(max_card);
    CoMMAUnused(correction_steps);
    if (this->_should_agglomerate) {
      constexpr bool is_anisotropic = true;
      constexpr CoMMAIntType compactness = 1;
      auto loop_line = [&](auto begin, auto end) {
        AnisotropicLinePtr line_lvl_p_one = std::make_shared<AnisotropicLine>();
        typename decltype(this->_max_cells_in_line)::value_type n_cells{0};
        for (auto line_it = begin; line_it != end; line_it += 2) {
          if (this->_max_cells_in_line.has_value()
              && n_cells + 2 > this->_max_cells_in_line.value()) {
            break;
          }
          std::unordered_set<CoMMAIndexType> s_fc = {
            *line_it, *std::next(line_it)
          };
          n_cells += 2;
          this->_aniso_neighbours.insert(
            this->_aniso_neighbours.end(),
            this->_fc_graph->neighbours_cbegin(*line_it),
            this->_fc_graph->neighbours_cend(*line_it)
          );
          this->_aniso_neighbours.insert(
            this->_aniso_neighbours.end(),
            this->_fc_graph->neighbours_cbegin(*std::next(line_it)),
            this->_fc_graph->neighbours_cend(*std::next(line_it))
          );
          const auto n_left = std::distance(line_it, end);
          if (
            n_left == 3
            || (
              n_left > 3 && this->_max_cells_in_line.has_value()
              && n_cells + 1 == this->_max_cells_in_line.value())) {
            if (this->_odd_line_length
                && (!this->_max_cells_in_line.has_value()
                    || n_cells + 1 <= this->_max_cells_in_line.value())) {
              s_fc.insert(*std::next(line_it, 2));
              n_cells++;
              this->_aniso_neighbours.insert(
                this->_aniso_neighbours.end(),
                this->_fc_graph->neighbours_cbegin(*std::next(line_it, 2)),
                this->_fc_graph->neighbours_cend(*std::next(line_it, 2))
              );
            }
            line_it++;
          }
          const CoMMAIndexType i_cc =
            this->_cc_graph->create_cc(s_fc, compactness, is_anisotropic);
          line_lvl_p_one->push_back(i_cc);
        }
        this->_v_lines[1].push_back(line_lvl_p_one);
      };
      for (auto line_ptr = this->_v_lines[0].begin();
           line_ptr != this->_v_lines[0].end();
           line_ptr++) {
        auto line = *line_ptr;
        if (line->size() <= 1) {
          continue;
        }
        const auto l_fr = line->front(), l_bk = line->back();
        const auto bnd_fr = this->_fc_graph->get_n_boundary_faces(l_fr),
                   bnd_bk = this->_fc_graph->get_n_boundary_faces(l_bk);
        const auto w_fr = priority_weights[l_fr], w_bk = priority_weights[l_bk];
        const bool forward_line =
          bnd_fr > bnd_bk
          || (bnd_fr == bnd_bk &&
              (w_fr > w_bk
               || (w_fr == w_bk && l_fr < l_bk)
               ));
        if (forward_line)
          loop_line(line->cbegin(), line->cend());
        else
          loop_line(line->crbegin(), line->crend());
      }
      this->update_seeds_pool();
    }
    else
      this->_seeds_pool->initialize();
  }
  void update_seeds_pool() {
    if (!this->_aniso_neighbours.empty()) {
      for (auto it = this->_aniso_neighbours.begin();
           it != this->_aniso_neighbours.end();) {
        if (this->_cc_graph->_is_fc_agglomerated[*it])
          it = this->_aniso_neighbours.erase(it);
        else
          ++it;
      }
      if (!this->_aniso_neighbours.empty()) {
        this->_seeds_pool->set_top_queue(
          this->_fc_graph->get_n_boundary_faces(this->_aniso_neighbours.front())
        );
        this->_seeds_pool->update(this->_aniso_neighbours);
      }
    }
    if (this->_seeds_pool->need_initialization(
          this->_cc_graph->_is_fc_agglomerated
        ))
      this->_seeds_pool->initialize();
  }
  void export_anisotropic_lines(
    CoMMAIntType level,
    std::vector<CoMMAIndexType> &aniso_lines_idx,
    std::vector<CoMMAIndexType> &aniso_lines
  ) const {
    aniso_lines_idx.clear();
    aniso_lines.clear();
    if (this->_should_agglomerate && !this->_v_lines[level].empty()) {
      CoMMAIndexType idx = 0;
      aniso_lines_idx.reserve(this->_v_lines[level].size() + 1);
      aniso_lines_idx.push_back(idx);
      aniso_lines.reserve(
        this->_cc_graph->_cc_counter > 0 ? this->_cc_graph->_cc_counter
                                         : this->_fc_graph->_number_of_cells
      );
      for (const auto &line_ptr : this->_v_lines[level]) {
        const CoMMAIndexType line_size = line_ptr->size();
        aniso_lines_idx.push_back(line_size + idx);
        aniso_lines.insert(
          aniso_lines.end(), line_ptr->cbegin(), line_ptr->cend()
        );
        idx += line_size;
      }
      aniso_lines_idx.shrink_to_fit();
      aniso_lines.shrink_to_fit();
    }
  }
  std::vector<CoMMAIndexType> _nb_lines;
  std::vector<std::vector<AnisotropicLinePtr>> _v_lines;
  bool _should_agglomerate;
protected:
  bool build_anisotropic_lines(
    const std::vector<CoMMAWeightType> &priority_weights,
    const CoMMAWeightType threshold_anisotropy
  ) {
    std::deque<CoMMAIndexType> aniso_seeds_pool;
    std::vector<CoMMAWeightType> max_weights(
      this->_fc_graph->_number_of_cells, 0.0
    );
    std::vector<CoMMAWeightType> alt_weights{};
    std::vector<bool> to_treat(this->_fc_graph->_number_of_cells, false);
    this->_fc_graph->tag_anisotropic_cells(
      alt_weights,
      max_weights,
      to_treat,
      aniso_seeds_pool,
      threshold_anisotropy,
      priority_weights,
      this->_cell_coupling,
      0
    );
    std::vector<CoMMAWeightType> &ref_weights =
      this->_cell_coupling == CoMMACellCouplingT::MAX_WEIGHT
      ? this->_fc_graph->_m_CRS_Values
      : alt_weights;
    if (aniso_seeds_pool.empty()) {
      std::cout << "CoMMA - No anisotropic cell found. Skipping anisotropic "
                   "agglomeration"
                << std::endl;
      return false;
    }
    const auto pts_dim = this->_fc_graph->_centers[0].size();
    this->_nb_lines[0] = 0;
    for (auto &i_fc : aniso_seeds_pool) {
      if (!to_treat[i_fc]) {
        continue;
      }
      const auto primal_seed = i_fc;
      std::optional<std::vector<CoMMAWeightType>> primal_dir = std::nullopt;
      CoMMAIndexType seed = primal_seed;
      AnisotropicLinePtr cur_line = std::make_shared<AnisotropicLine>();
      cur_line->push_back(seed);
      to_treat[seed] = false;
      bool end = false;
      bool opposite_direction_check = false;
      std::vector<CoMMAWeightType> prev_dir(pts_dim);
      bool empty_line = true;
      while (!end) {
        CoMMASetOfPairType candidates;
        if (!this->_force_line_direction || empty_line) {
          this->find_cell_candidates_for_line_max_weight(
            seed, to_treat, ref_weights, max_weights, candidates
          );
        } else {
          this->find_cell_candidates_for_line_direction(
            seed, to_treat, ref_weights, max_weights, prev_dir, true, candidates
          );
        }
        if (!candidates.empty()) {
          const auto old_seed = seed;
          seed = candidates.begin()->first;
          if (!opposite_direction_check) {
            cur_line->push_back(seed);
          } else {
            cur_line->push_front(seed);
          }
          to_treat[seed] = false;
          empty_line = false;
          this->_fc_graph->get_center_direction(seed, old_seed, prev_dir);
          if (!primal_dir.has_value()) primal_dir = prev_dir;
        }
        else  {
          if (this->_force_line_direction && !empty_line) {
            this->find_cell_candidates_for_line_direction(
              seed,
              to_treat,
              ref_weights,
              max_weights,
              prev_dir,
              false,
              candidates
            );
            if (!candidates.empty()) {
              const auto old_seed = seed;
              seed = candidates.begin()->first;
              if (!opposite_direction_check) {
                cur_line->push_back(seed);
              } else {
                cur_line->push_front(seed);
              }
              to_treat[seed] = false;
              empty_line = false;
              this->_fc_graph->get_center_direction(seed, old_seed, prev_dir);
              if (!primal_dir.has_value()) primal_dir = prev_dir;
            } else {
              if (!opposite_direction_check && seed != primal_seed) {
                seed = primal_seed;
                for (auto xyz = decltype(prev_dir.size()){0};
                     xyz < prev_dir.size();
                     xyz++) {
                  prev_dir[xyz] = -primal_dir.value()[xyz];
                }
                opposite_direction_check = true;
              } else {
                end = true;
              }
            }
          }
          else {
            if (!opposite_direction_check && seed != primal_seed) {
              seed = primal_seed;
              for (auto xyz = decltype(prev_dir.size()){0};
                   xyz < prev_dir.size();
                   xyz++) {
                prev_dir[xyz] = -primal_dir.value()[xyz];
              }
              opposite_direction_check = true;
            } else {
              end = true;
            }
          }
        }
      }
      if (cur_line->size() > 1) {
        this->_v_lines[0].push_back(cur_line);
        this->_nb_lines[0] += 1;
      }
    }
    if (this->_nb_lines[0] == 0) {
      std::cout << "CoMMA - No anisotropic line was built (e.g., only isolated "
                   "anisotropic cells). Skipping anisotropic agglomeration"
                << std::endl;
      return false;
    }
    return true;
  }
  inline bool is_high_coupling(
    const CoMMAWeightType weight, const CoMMAWeightType ref_weight
  ) {
    return weight > 0.90 * ref_weight;
  }
  inline void find_cell_candidates_for_line_max_weight(
    const CoMMAIndexType seed,
    const std::vector<bool> &to_treat,
    const std::vector<CoMMAWeightType> &weights,
    const std::vector<CoMMAWeightType> &max_weights,
    CoMMASetOfPairType &candidates
  ) {
    const auto offset = this->_fc_graph->_m_CRS_Row_Ptr[seed];
    auto n_it = std::next(this->_fc_graph->_m_CRS_Col_Ind.cbegin(), offset);
    auto w_it = std::next(weights.cbegin(), offset);
    for (; n_it != this->_fc_graph->neighbours_cend(seed); ++n_it, ++w_it) {
      if (to_treat[*n_it] && this->is_high_coupling(*w_it, max_weights[seed])) {
        candidates.emplace(*n_it, *w_it);
      }
    }
  }
  inline void find_cell_candidates_for_line_direction(
    const CoMMAIndexType seed,
    const std::vector<bool> &to_treat,
    const std::vector<CoMMAWeightType> &weights,
    const std::vector<CoMMAWeightType> &max_weights,
    const std::vector<CoMMAWeightType> &prev_dir,
    const bool check_weight,
    CoMMASetOfPairType &candidates
  ) {
    const auto offset = this->_fc_graph->_m_CRS_Row_Ptr[seed];
    auto n_it = std::next(this->_fc_graph->_m_CRS_Col_Ind.cbegin(), offset);
    auto w_it = std::next(weights.cbegin(), offset);
    const auto pts_dim = this->_fc_graph->_centers[0].size();
    for (; n_it != this->_fc_graph->neighbours_cend(seed); ++n_it, ++w_it) {
      if (to_treat[*n_it]
          && (!check_weight || this->is_high_coupling(*w_it, max_weights[seed]))) {
        std::vector<CoMMAWeightType> cur_dir(pts_dim);
        this->_fc_graph->get_center_direction(*n_it, seed, cur_dir);
        const auto dot = dot_product<CoMMAWeightType>(prev_dir, cur_dir);
        if (dot > 0 && !dot_deviate<CoMMAWeightType>(dot))
          candidates.emplace(*n_it, dot);
      }
    }
  }
  std::deque<CoMMAIndexType> _aniso_neighbours;
  bool _odd_line_length;
  std::optional<CoMMAIndexType> _max_cells_in_line;
  CoMMACellCouplingT _cell_coupling;
  bool _force_line_direction;
};
template<
  typename CoMMAIndexType,
  typename CoMMAWeightType,
  typename CoMMAIntType>
class Agglomerator_Isotropic :
  public Agglomerator<CoMMAIndexType, CoMMAWeightType, CoMMAIntType> {
public:
  using NeighbourhoodCreatorBaseType =
    NeighbourhoodCreator<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>;
  using NeighbourhoodCreatorExtType =
    NeighbourhoodExtendedCreator<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>;
  using NeighbourhoodCreatorPFType = NeighbourhoodPureFrontCreator<
    CoMMAIndexType,
    CoMMAWeightType,
    CoMMAIntType>;
  CoMMAIntType _fc_iter;
  std::shared_ptr<NeighbourhoodCreatorBaseType> _neigh_crtor;
  std::shared_ptr<ARComputer<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>
    _ar_computer;
  Agglomerator_Isotropic(
    std::shared_ptr<Dual_Graph<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>
      graph,
    std::shared_ptr<
      Coarse_Cell_Container<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>
      cc_graph,
    std::shared_ptr<Seeds_Pool<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>
      seeds_pool,
    CoMMAIntType dimension,
    CoMMAAspectRatioT aspect_ratio,
    CoMMANeighbourhoodT neighbourhood_type,
    CoMMAIntType fc_iter
  ) :
    Agglomerator<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>(
      graph, cc_graph, seeds_pool, dimension
    ),
    _fc_iter(fc_iter) {
    if (neighbourhood_type == CoMMANeighbourhoodT::EXTENDED)
      _neigh_crtor = std::make_shared<NeighbourhoodCreatorExtType>();
    else
      _neigh_crtor = std::make_shared<NeighbourhoodCreatorPFType>();
    switch (aspect_ratio) {
      case DIAMETER_OVER_RADIUS: {
        if (dimension == 2) {
          _ar_computer = std::make_shared<
            ARDiamOverRadius<CoMMAIndexType, CoMMAWeightType, CoMMAIntType, 2>>(
            graph
          );
        } else {
          _ar_computer = std::make_shared<
            ARDiamOverRadius<CoMMAIndexType, CoMMAWeightType, CoMMAIntType, 3>>(
            graph
          );
        }
        break;
      }
      case DIAMETER_OVER_MIN_EDGE: {
        _ar_computer = std::make_shared<
          ARDiamOverMinEdge<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>(
          graph
        );
        break;
      }
      case DIAMETER: {
        _ar_computer = std::make_shared<
          ARDiameter<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>(graph);
        break;
      }
      case ONE_OVER_MEASURE: {
        _ar_computer = std::make_shared<
          AROverMeasure<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>(graph);
        break;
      }
      case ONE_OVER_INTERNAL_WEIGHTS: {
        _ar_computer = std::make_shared<
          AROverInternalWeights<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>(
          graph
        );
        break;
      }
      case PERIMETER_OVER_RADIUS: {
        if (dimension == 2) {
          _ar_computer = std::make_shared<ARExternalWeightOverRadius<
            CoMMAIndexType,
            CoMMAWeightType,
            CoMMAIntType,
            2>>(graph);
        } else {
          _ar_computer = std::make_shared<ARExternalWeightOverRadius<
            CoMMAIndexType,
            CoMMAWeightType,
            CoMMAIntType,
            3>>(graph);
        }
        break;
      }
      case EXTERNAL_WEIGHTS: {
        _ar_computer = std::make_shared<
          ARExternalWeights<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>(
          graph
        );
        break;
      }
      case MAX_BARY_DIST_OVER_RADIUS: {
        if (dimension == 2) {
          _ar_computer = std::make_shared<ARMaxBaryDistanceOverRadius<
            CoMMAIndexType,
            CoMMAWeightType,
            CoMMAIntType,
            2>>(graph);
        } else {
          _ar_computer = std::make_shared<ARMaxBaryDistanceOverRadius<
            CoMMAIndexType,
            CoMMAWeightType,
            CoMMAIntType,
            3>>(graph);
        }
        break;
      }
      case MAX_OVER_MIN_BARY_DIST: {
        _ar_computer = std::make_shared<ARMaxOverMinBaryDistance<
          CoMMAIndexType,
          CoMMAWeightType,
          CoMMAIntType>>(graph, 1e-12);
        break;
      }
      case ALGEBRAIC_PERIMETER_OVER_MEASURE: {
        _ar_computer = std::make_shared<ARExternalWeightOverRadius<
          CoMMAIndexType,
          CoMMAWeightType,
          CoMMAIntType,
          1>>(graph);
        break;
      }
      default:
        throw std::invalid_argument("CoMMA - Error: Unknown aspect-ratio type");
    }
  }
  ~Agglomerator_Isotropic() override = default;
  void set_agglomeration_parameter(
    CoMMAIntType goal_card = 0,
    CoMMAIntType min_card = 0,
    CoMMAIntType max_card = 0
  ) {
    std::unordered_map<CoMMAIntType, CoMMAIntType> d_default_min_card = {
      {2, 3}, {3, 6}
    };
    std::unordered_map<CoMMAIntType, CoMMAIntType> d_default_max_card = {
      {2, 5}, {3, 10}
    };
    std::unordered_map<CoMMAIntType, CoMMAIntType> d_default_goal_card = {
      {2, 4}, {3, 8}
    };
    std::unordered_map<CoMMAIntType, CoMMAIntType> d_default_threshold_card = {
      {2, 2}, {3, 3}
    };
    if (min_card == 0) {
      this->_min_card = d_default_min_card.at(this->_dimension);
    } else {
      this->_min_card = min_card;
    }
    if (max_card == 0) {
      this->_max_card = d_default_max_card.at(this->_dimension);
    } else {
      this->_max_card = max_card;
    }
    if (goal_card == 0) {
      this->_goal_card = d_default_goal_card.at(this->_dimension);
    } else {
      this->_goal_card = goal_card;
    }
    this->_threshold_card = d_default_threshold_card.at(this->_dimension);
  }
  void agglomerate_one_level(
    const CoMMAIntType goal_card,
    const CoMMAIntType min_card,
    const CoMMAIntType max_card,
    const std::vector<CoMMAWeightType> &priority_weights,
    bool correction_steps
  ) override {
    set_agglomeration_parameter(goal_card, min_card, max_card);
    constexpr bool is_anistropic = false;
    const CoMMAIndexType nb_of_fc = this->_l_nb_of_cells[0];
    while (this->_cc_graph->get_number_of_fc_agglomerated() < nb_of_fc) {
      const auto seed =
        this->_seeds_pool->choose_new_seed(this->_cc_graph->_is_fc_agglomerated
        );
      assert(seed.has_value());
      CoMMAIntType compactness = 0;
      const std::unordered_set<CoMMAIndexType> set_current_cc =
        choose_optimal_cc_and_update_seeds_pool(
          seed.value(), priority_weights, compactness
        );
      constexpr bool is_creation_delayed = false;
      this->_cc_graph->create_cc(
        set_current_cc, compactness, is_anistropic, is_creation_delayed
      );
    }
    this->_cc_graph->cc_create_all_delayed_cc();
    if (correction_steps) {
      this->_cc_graph->correct(this->_max_card);
    }
    this->_l_nb_of_cells.push_back(this->_cc_graph->_cc_counter);
  }
  virtual std::unordered_set<CoMMAIndexType>
  choose_optimal_cc_and_update_seeds_pool(
    const CoMMAIndexType seed,
    const std::vector<CoMMAWeightType> &priority_weights,
    CoMMAIntType &compactness
  ) = 0;
};
template<
  typename CoMMAIndexType,
  typename CoMMAWeightType,
  typename CoMMAIntType>
class Agglomerator_Biconnected :
  public Agglomerator_Isotropic<CoMMAIndexType, CoMMAWeightType, CoMMAIntType> {
public:
  Agglomerator_Biconnected(
    std::shared_ptr<Dual_Graph<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>
      graph,
    std::shared_ptr<
      Coarse_Cell_Container<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>
      cc_graph,
    std::shared_ptr<Seeds_Pool<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>
      seeds_pool,
    CoMMAIntType dimension,
    CoMMAAspectRatioT aspect_ratio,
    CoMMANeighbourhoodT neighbourhood_type,
    CoMMAIntType fc_iter
  ) :
    Agglomerator_Isotropic<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>(
      graph,
      cc_graph,
      seeds_pool,
      dimension,
      aspect_ratio,
      neighbourhood_type,
      fc_iter
    ) {
  }
  ~Agglomerator_Biconnected() override = default;
  std::unordered_set<CoMMAIndexType> choose_optimal_cc_and_update_seeds_pool(
    const CoMMAIndexType seed,
    const std::vector<CoMMAWeightType> &priority_weights,
    CoMMAIntType &compactness
  ) override {
    bool is_order_primary = false;
    assert(this->_goal_card > 1);
    std::unordered_set<CoMMAIndexType> s_current_cc = {seed};
    std::unordered_map<CoMMAIndexType, CoMMAIntType> d_n_of_seed;
    CoMMAIntType size_current_cc = 1;
    CoMMAIntType max_order_of_neighbourhood =
      std::max(this->_min_neighbourhood, this->_max_card / this->_dimension);
    this->_fc_graph->compute_neighbourhood_of_cc(
      s_current_cc,
      max_order_of_neighbourhood,
      d_n_of_seed,
      this->_max_card,
      this->_cc_graph->_is_fc_agglomerated
    );
    if (d_n_of_seed.empty()) {
      compactness = 0;
    } else if (static_cast<CoMMAIntType>(
                 d_n_of_seed.size() + s_current_cc.size()
               )
               < this->_goal_card) {
      for (auto &i_k_v : d_n_of_seed) {
        s_current_cc.insert(i_k_v.first);
      }
      compactness =
        this->_fc_graph->compute_min_fc_compactness_inside_a_cc(s_current_cc);
    } else {
      decltype(s_current_cc) tmp_cc = {seed};
      CellFeatures<CoMMAIndexType, CoMMAWeightType, CoMMAIntType> cur_cc_feats(
        seed, this->_fc_graph
      );
      std::unordered_map<
        CoMMAIntType,
        std::pair<
          std::unordered_set<CoMMAIndexType>,
          std::unordered_map<CoMMAIndexType, CoMMAIntType>>>
        dict_cc_in_creation;
      CoMMAIntType min_external_faces =
        std::numeric_limits<CoMMAIntType>::max();
      CoMMAIntType max_compact = 0;
      CoMMAIntType arg_min_card = this->_min_card;
      const CoMMAIntType max_ind = std::min(
        this->_max_card, static_cast<CoMMAIntType>(d_n_of_seed.size() + 1)
      );
      CoMMAIntType number_of_external_faces_current_cc =
        this->_fc_graph->get_nb_of_neighbours(seed)
        + this->_fc_graph->get_n_boundary_faces(seed) - 1;
      const std::unordered_set<CoMMAIndexType> s_neighbours_of_seed =
        d_keys_to_set<CoMMAIndexType, CoMMAIntType>(d_n_of_seed);
      auto neighbourhood = this->_neigh_crtor->create(
        s_neighbours_of_seed, priority_weights, this->_dimension
      );
      std::unordered_map<CoMMAIndexType, CoMMAIntType> cur_compact_by_fc{};
      cur_compact_by_fc.reserve(max_ind);
      cur_compact_by_fc[seed] = 0;
      constexpr auto second_less = [](const auto &left, const auto &right) {
        return left.second < right.second;
      };
      CoMMAIndexType next_cell = seed;
      while (size_current_cc < max_ind) {
        neighbourhood->update_it(
          next_cell,
          this->_fc_graph->neighbours_cbegin(next_cell),
          this->_fc_graph->neighbours_cend(next_cell)
        );
        next_cell = 0;
        CellFeatures<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>
          min_ar_cc_feats{};
        CoMMAIntType max_faces_in_common = 0;
        this->compute_best_fc_to_add(
          std::min(max_ind - size_current_cc, this->_fc_iter),
          neighbourhood,
          d_n_of_seed,
          is_order_primary,
          cur_cc_feats,
          tmp_cc,
          next_cell,
          max_faces_in_common,
          min_ar_cc_feats
        );
        number_of_external_faces_current_cc +=
          this->_fc_graph->get_nb_of_neighbours(next_cell)
          + this->_fc_graph->get_n_boundary_faces(next_cell) - 1
          - 2 * max_faces_in_common;
        size_current_cc++;
        tmp_cc.insert(next_cell);
        CoMMAIntType argmin_compact{0};
        for (auto neigh = this->_fc_graph->neighbours_cbegin(next_cell);
             neigh != this->_fc_graph->neighbours_cend(next_cell);
             ++neigh) {
          if (tmp_cc.find(*neigh) != tmp_cc.end()) {
            ++argmin_compact;
            ++cur_compact_by_fc[*neigh];
          }
        }
        cur_compact_by_fc[next_cell] = argmin_compact;
        const CoMMAIntType cur_compact =
          min_element(
            cur_compact_by_fc.cbegin(), cur_compact_by_fc.cend(), second_less
          )
            ->second;
        if ((this->_min_card <= size_current_cc)
            || size_current_cc == max_ind) {
          if (cur_compact > max_compact) {
            max_compact = cur_compact;
            min_external_faces = number_of_external_faces_current_cc;
            arg_min_card = size_current_cc;
          } else if (cur_compact == max_compact) {
            if (
              (number_of_external_faces_current_cc < min_external_faces) ||
              (number_of_external_faces_current_cc == min_external_faces &&
               arg_min_card != this->_goal_card)) {
              min_external_faces = number_of_external_faces_current_cc;
              arg_min_card = size_current_cc;
            }
          }
          std::unordered_map<CoMMAIndexType, CoMMAIntType> new_dict;
          new_dict[next_cell] = d_n_of_seed[next_cell];
          std::pair<
            std::unordered_set<CoMMAIndexType>,
            std::unordered_map<CoMMAIndexType, CoMMAIntType>>
            tmp_pair = std::make_pair(tmp_cc, new_dict);
          dict_cc_in_creation[size_current_cc] = tmp_pair;
        }
        cur_cc_feats = std::move(min_ar_cc_feats);
        d_n_of_seed.erase(next_cell);
      }
      s_current_cc = std::move(dict_cc_in_creation[arg_min_card].first);
      for (auto i_s = arg_min_card + 1; i_s < max_ind + 1; i_s++) {
        for (auto iKV : dict_cc_in_creation[i_s].second) {
          d_n_of_seed[iKV.first] = iKV.second;
        }
      }
      const auto cc_neighs = this->_fc_graph->get_neighbourhood_of_cc(
        s_current_cc, this->_cc_graph->_is_fc_agglomerated
      );
      std::map<CoMMAIntType, std::unordered_set<CoMMAIndexType>>
        neighs_by_order{};
      std::unordered_set<CoMMAIndexType> neighs_not_found{};
      for (const auto &neigh : cc_neighs) {
        if (d_n_of_seed.find(neigh) != d_n_of_seed.end())
          neighs_by_order[d_n_of_seed.at(neigh)].insert(neigh);
        else
          neighs_not_found.insert(neigh);
      }
      for (const auto &[o, neighs] : neighs_by_order)
        if (!neighs.empty())
          this->_seeds_pool->order_new_seeds_and_update(neighs);
      if (!neighs_not_found.empty())
        this->_seeds_pool->order_new_seeds_and_update(neighs_not_found);
      assert(arg_min_card == static_cast<CoMMAIntType>(s_current_cc.size()));
      compactness = max_compact;
    }
    return s_current_cc;
  }
  virtual void compute_best_fc_to_add(
    const CoMMAIntType fc_iter,
    const std::shared_ptr<
      Neighbourhood<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>
      neighbourhood,
    const std::unordered_map<CoMMAIndexType, CoMMAIntType> &d_n_of_seed,
    const bool &is_order_primary,
    const CellFeatures<CoMMAIndexType, CoMMAWeightType, CoMMAIntType> &cc_feats,
    const std::unordered_set<CoMMAIndexType> &s_of_fc_for_current_cc,
    CoMMAIndexType &argmin_ar,
    CoMMAIntType &max_faces_in_common,
    CellFeatures<CoMMAIndexType, CoMMAWeightType, CoMMAIntType> &min_ar_cc_feats
  ) const {
    CoMMAUnused(fc_iter);
    CoMMAWeightType min_ar = std::numeric_limits<CoMMAWeightType>::max();
    const auto neighbours = neighbourhood->get_candidates();
    CoMMAIndexType arg_max_faces_in_common = neighbours[0];
    for (const auto &i_fc : neighbours) {
      CoMMAIntType number_faces_in_common = 0;
      CoMMAWeightType new_ar = std::numeric_limits<CoMMAWeightType>::min();
      CellFeatures<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>
        new_min_ar_cc_feats{};
      this->_ar_computer->compute_and_update_features(
        i_fc,
        cc_feats,
        s_of_fc_for_current_cc,
        number_faces_in_common,
        new_ar,
        new_min_ar_cc_feats
      );
      const CoMMAIntType &order = d_n_of_seed.at(i_fc);
      if (number_faces_in_common >= max_faces_in_common
          or is_order_primary) {
        if (number_faces_in_common == max_faces_in_common or is_order_primary) {
          if (order <= d_n_of_seed.at(arg_max_faces_in_common)) {
            if (order == d_n_of_seed.at(arg_max_faces_in_common)) {
              if (new_ar < min_ar and number_faces_in_common > 0) {
                min_ar = new_ar;
                argmin_ar = i_fc;
                min_ar_cc_feats = std::move(new_min_ar_cc_feats);
                arg_max_faces_in_common = i_fc;
              }
            } else {
              arg_max_faces_in_common = i_fc;
              min_ar = new_ar;
              argmin_ar = i_fc;
              min_ar_cc_feats = std::move(new_min_ar_cc_feats);
            }
          }
        } else {
          max_faces_in_common = number_faces_in_common;
          arg_max_faces_in_common = i_fc;
          min_ar = new_ar;
          argmin_ar = i_fc;
          min_ar_cc_feats = std::move(new_min_ar_cc_feats);
        }
      }
    }
  }
};
template<
  typename CoMMAIndexType,
  typename CoMMAWeightType,
  typename CoMMAIntType>
class Agglomerator_Iterative :
  public Agglomerator_Biconnected<
    CoMMAIndexType,
    CoMMAWeightType,
    CoMMAIntType> {
public:
  Agglomerator_Iterative(
    std::shared_ptr<Dual_Graph<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>
      graph,
    std::shared_ptr<
      Coarse_Cell_Container<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>
      cc_graph,
    std::shared_ptr<Seeds_Pool<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>
      seeds_pool,
    CoMMAIntType dimension,
    CoMMAAspectRatioT aspect_ratio,
    CoMMANeighbourhoodT neighbourhood_type,
    CoMMAIntType fc_iter
  ) :
    Agglomerator_Biconnected<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>(
      graph,
      cc_graph,
      seeds_pool,
      dimension,
      aspect_ratio,
      neighbourhood_type,
      fc_iter
    ) {
  }
  ~Agglomerator_Iterative() override = default;
  void compute_best_fc_to_add(
    const CoMMAIntType fc_iter,
    const std::shared_ptr<
      Neighbourhood<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>
      neighbourhood,
    const std::unordered_map<CoMMAIndexType, CoMMAIntType> &d_n_of_seed,
    const bool &is_order_primary,
    const CellFeatures<CoMMAIndexType, CoMMAWeightType, CoMMAIntType> &cc_feats,
    const std::unordered_set<CoMMAIndexType> &s_of_fc_for_current_cc,
    CoMMAIndexType &argmin_ar,
    CoMMAIntType &max_faces_in_common,
    CellFeatures<CoMMAIndexType, CoMMAWeightType, CoMMAIntType> &min_ar_cc_feats
  ) const override {
    CoMMAIndexType outer_argmax_faces{0};
    CoMMAIntType ref_max_faces = max_faces_in_common;
    CoMMAWeightType outer_ar = std::numeric_limits<CoMMAWeightType>::max();
    for (const auto &i_fc : neighbourhood->get_candidates()) {
      auto cur_neighbourhood = this->_neigh_crtor->clone(neighbourhood);
      CoMMAWeightType inner_ar{-1.};
      CoMMAIntType inner_max_faces_in_common{0};
      CellFeatures<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>
        inner_min_ar_cc_feats{};
      this->_ar_computer->compute_and_update_features(
        i_fc,
        cc_feats,
        s_of_fc_for_current_cc,
        inner_max_faces_in_common,
        inner_ar,
        inner_min_ar_cc_feats
      );
      cur_neighbourhood->update_it(
        i_fc,
        this->_fc_graph->neighbours_cbegin(i_fc),
        this->_fc_graph->neighbours_cend(i_fc)
      );
      std::unordered_set<CoMMAIndexType> cur_fc{
        s_of_fc_for_current_cc.begin(), s_of_fc_for_current_cc.end()
      };
      cur_fc.insert(i_fc);
      const CoMMAIntType ref_inner_faces = inner_max_faces_in_common;
      if (fc_iter > 1) {
        CoMMAIndexType cur_argmin{0};
        CoMMAIntType cur_max_faces_in_common{0};
        CellFeatures<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>
          cur_min_ar_cc_feats{};
        CoMMAWeightType cur_min_ar{0.};
        this->compute_best_fc_to_add(
          fc_iter - 1,
          cur_neighbourhood,
          d_n_of_seed,
          is_order_primary,
          inner_min_ar_cc_feats,
          cur_fc,
          cur_argmin,
          cur_max_faces_in_common,
          cur_min_ar_cc_feats
        );
        if (cur_max_faces_in_common > inner_max_faces_in_common) {
          inner_max_faces_in_common = cur_max_faces_in_common;
        } else if (cur_max_faces_in_common == inner_max_faces_in_common
                   && cur_min_ar < inner_ar) {
          inner_ar = cur_min_ar;
        }
      }
      const CoMMAIntType &order = d_n_of_seed.at(i_fc);
      if (inner_max_faces_in_common >= ref_max_faces
          or is_order_primary) {
        if (inner_max_faces_in_common == ref_max_faces or is_order_primary) {
          if (order <= d_n_of_seed.at(outer_argmax_faces)) {
            if (order == d_n_of_seed.at(outer_argmax_faces)) {
              if (inner_ar < outer_ar and inner_max_faces_in_common > 0) {
                argmin_ar = i_fc;
                outer_ar = inner_ar;
                min_ar_cc_feats = std::move(inner_min_ar_cc_feats);
                max_faces_in_common = ref_inner_faces;
                outer_argmax_faces = i_fc;
              }
            } else {
              outer_argmax_faces = i_fc;
              argmin_ar = i_fc;
              outer_ar = inner_ar;
              min_ar_cc_feats = std::move(inner_min_ar_cc_feats);
              max_faces_in_common = ref_inner_faces;
            }
          }
        } else {
          ref_max_faces = inner_max_faces_in_common;
          outer_argmax_faces = i_fc;
          argmin_ar = i_fc;
          outer_ar = inner_ar;
          min_ar_cc_feats = std::move(inner_min_ar_cc_feats);
          max_faces_in_common = ref_inner_faces;
        }
      }
    }
  }
};
}
#endif
