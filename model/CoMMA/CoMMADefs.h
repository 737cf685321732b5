#ifndef COMMA_PROJECT_COMMA_TYPES_H
#define COMMA_PROJECT_COMMA_TYPES_H
#include "CoMMA/CoMMAConfig.h"
namespace comma {
enum CoMMACellT : CoMMAIntT {
  INTERIOR = 0,
  VALLEY = 1,
  RIDGE = 2,
  CORNER = 3,
  EXTREME = 4,
  N_CELL_TYPES = 4
};
enum CoMMANeighbourhoodT : CoMMAIntT {
  EXTENDED = 0,
  PURE_FRONT = 1
};
enum CoMMASeedsPoolT : CoMMAIntT {
  BOUNDARY_PRIORITY = 0,
  NEIGHBOURHOOD_PRIORITY = 1,
  BOUNDARY_PRIORITY_ONE_POINT_INIT = 10,
  NEIGHBOURHOOD_PRIORITY_ONE_POINT_INIT = 11
};
enum CoMMAAspectRatioT : CoMMAIntT {
  DIAMETER_OVER_RADIUS = 0,
  DIAMETER_OVER_MIN_EDGE,
  DIAMETER,
  ONE_OVER_MEASURE,
  ONE_OVER_INTERNAL_WEIGHTS,
  PERIMETER_OVER_RADIUS,
  EXTERNAL_WEIGHTS,
  MAX_BARY_DIST_OVER_RADIUS,
  MAX_OVER_MIN_BARY_DIST,
  ALGEBRAIC_PERIMETER_OVER_MEASURE,
};
enum CoMMACellCouplingT : CoMMAIntT {
  MAX_WEIGHT = 0,
  MIN_DISTANCE = 1
};
}
#endif
