#ifndef COMMA_PROJECT_PARAMS_H
#define COMMA_PROJECT_PARAMS_H
#include <optional>
#include <vector>
#include "CoMMA/CoMMADefs.h"
namespace comma {
template<
  typename CoMMAIndexType,
  typename CoMMAWeightType,
  typename CoMMAIntType>
class GraphArgs {
public:
  const std::vector<CoMMAIndexType> &connectivity_indices;
  const std::vector<CoMMAIndexType> &connectivity;
  const std::vector<CoMMAWeightType> &connectivity_weights;
  const std::vector<CoMMAWeightType> &volumes;
  const std::vector<std::vector<CoMMAWeightType>> &centers;
  const std::vector<CoMMAWeightType> &priority_weights;
  const std::vector<CoMMAIntType> &n_bnd_faces;
  CoMMAIntType dimension;
  GraphArgs() = default;
  GraphArgs(
    const std::vector<CoMMAIndexType> &connectivity_indices,
    const std::vector<CoMMAIndexType> &connectivity,
    const std::vector<CoMMAWeightType> &connectivity_weights,
    const std::vector<CoMMAWeightType> &volumes,
    const std::vector<std::vector<CoMMAWeightType>> &centers,
    const std::vector<CoMMAWeightType> &priority_weights,
    const std::vector<CoMMAIntType> &n_bnd_faces,
    CoMMAIntType dimension
  ) :
    connectivity_indices(connectivity_indices),
    connectivity(connectivity),
    connectivity_weights(connectivity_weights),
    volumes(volumes),
    centers(centers),
    priority_weights(priority_weights),
    n_bnd_faces(n_bnd_faces),
    dimension(dimension) {}
};
template<
  typename CoMMAIndexType,
  typename CoMMAWeightType,
  typename CoMMAIntType>
class AgglomerationArgs {
public:
  CoMMAIntType goal_card;
  CoMMAIntType min_card;
  CoMMAIntType max_card;
  bool correction{};
  CoMMASeedsPoolT seed_ordering_type{};
  CoMMAAspectRatioT aspect_ratio{};
  CoMMAIntType singular_card_thresh;
  CoMMAIntType fc_choice_iter;
  CoMMANeighbourhoodT neighbourhood_type{};
  AgglomerationArgs() = default;
  AgglomerationArgs(
    CoMMAIntType goal_card,
    CoMMAIntType min_card,
    CoMMAIntType max_card,
    bool correction,
    CoMMASeedsPoolT seed_ordering_type,
    CoMMAAspectRatioT aspect_ratio = CoMMAAspectRatioT::DIAMETER_OVER_RADIUS,
    CoMMAIntType singular_card_thresh = 1,
    CoMMAIntType fc_choice_iter = 1,
    CoMMANeighbourhoodT neighbourhood_type = CoMMANeighbourhoodT::EXTENDED
  ) :
    goal_card(goal_card),
    min_card(min_card),
    max_card(max_card),
    correction(correction),
    seed_ordering_type(seed_ordering_type),
    aspect_ratio(aspect_ratio),
    singular_card_thresh(singular_card_thresh),
    fc_choice_iter(fc_choice_iter),
    neighbourhood_type(neighbourhood_type) {}
};
template<
  typename CoMMAIndexType,
  typename CoMMAWeightType,
  typename CoMMAIntType>
class AnisotropicArgs {
public:
  bool is_anisotropic;
  const std::vector<CoMMAIndexType> &anisotropicCompliantCells;
  bool build_lines;
  bool odd_line_length;
  CoMMAWeightType threshold_anisotropy;
  std::optional<CoMMAIndexType> max_cells_in_line = std::nullopt;
  CoMMACellCouplingT cell_coupling;
  bool line_direction;
  AnisotropicArgs(
    bool is_anisotropic,
    const std::vector<CoMMAIndexType> &anisotropicCompliantCells,
    bool build_lines = true,
    bool odd_line_length = true,
    CoMMAWeightType threshold_anisotropy = 4.,
    std::optional<CoMMAIndexType> max_cells_in_line = std::nullopt,
    CoMMACellCouplingT cell_coupling = CoMMACellCouplingT::MAX_WEIGHT,
    bool line_direction = true
  ) :
    is_anisotropic(is_anisotropic),
    anisotropicCompliantCells(anisotropicCompliantCells),
    build_lines(build_lines),
    odd_line_length(odd_line_length),
    threshold_anisotropy(threshold_anisotropy),
    max_cells_in_line(max_cells_in_line),
    cell_coupling(cell_coupling),
    line_direction(line_direction) {}
};
}
#endif
