// Instantiates the public functions for given types (never executed):
//   -DVI=<index> -DVR=<weight> -DVN=<integer> [-DVD=<distance>] [-DV_UTIL | -DV_ENTRY]
#include "CoMMA/CoMMA.h"
#include "CoMMA/Args.h"
#include "CoMMA/Util.h"

#include <type_traits>
#include <unordered_set>
#include <vector>

#ifndef VD
#define VD std::make_signed_t<VI>
#endif

namespace vtypes {
using namespace comma;
template<typename T> using V = std::vector<T>;

#ifndef V_UTIL
template<typename I, typename R, typename N>
void entry(
  const V<I> &r, const V<R> &w, const V<V<R>> &cen, const V<N> &nb, V<I> &f2c, V<I> &idx, V<I> &lines
) {
  agglomerate_one_level<I, R, N>(
    r, r, w, w, cen, w, r, nb, true, true, true, R(4), CoMMASeedsPoolT::BOUNDARY_PRIORITY, f2c, idx, lines, true,
    N(2), N(4), N(4), N(4)
  );
  GraphArgs<I, R, N> ga(r, r, w, w, cen, w, nb, N(2));
  AgglomerationArgs<I, R, N> aa(N(4), N(4), N(4), true, CoMMASeedsPoolT::BOUNDARY_PRIORITY);
  AnisotropicArgs<I, R, N> na(true, r, true);
  agglomerate_one_level<I, R, N>(ga, aa, na, f2c, idx, lines);
}
template void entry<VI, VR, VN>(
  const V<VI> &, const V<VR> &, const V<V<VR>> &, const V<VN> &, V<VI> &, V<VI> &, V<VI> &
);
#endif

#ifndef V_ENTRY
template<typename I, typename R, typename N, typename D>
void utils(const V<I> &r, const V<R> &w, const V<V<R>> &cen, const V<N> &nb) {
  V<I> ci, cj;
  V<R> cw, cv, cp;
  V<V<R>> cc;
  V<N> cn;
  build_coarse_graph<I, R, N>(r, r, r, w, w, cen, w, nb, ci, cj, cw, cv, cc, cp, cn);
  std::unordered_set<N> allowed;
  filter_cells_by_n_edges(r, nb, allowed, ci);
  V<D> dist;
  compute_neighbourhood_based_wall_distance<I, D>(r, r, r, dist);
}
template void utils<VI, VR, VN, VD>(const V<VI> &, const V<VR> &, const V<V<VR>> &, const V<VN> &);
#endif
}  // namespace vtypes
