// Instantiates the library through its public interface (never executed).
#include "CoMMA/CoMMA.h"
#include "CoMMA/Agglomerator.h"
#include "CoMMA/Args.h"
#include "CoMMA/ARComputer.h"
#include "CoMMA/CoMMADefs.h"
#include "CoMMA/Coarse_Cell.h"
#include "CoMMA/Coarse_Cell_Container.h"
#include "CoMMA/Dual_Graph.h"
#include "CoMMA/Neighbourhood.h"
#include "CoMMA/Seeds_Pool.h"
#include "CoMMA/Util.h"

// should an input have become modifiable, the analysis goes on with arguments that are
#ifdef VD_NONCONST
#define VC
#else
#define VC const
#endif

namespace vdriver {
using namespace comma;
using I = CoMMAIndexT;
using R = CoMMAWeightT;
using N = CoMMAIntT;
using VI = std::vector<I>;
using VR = std::vector<R>;
using VN = std::vector<N>;
using P = std::pair<I, R>;

void positional(
  VC VI &r, VC VI &c, VC VR &w, VC VR &v, VC std::vector<VR> &cen, VC VR &pri, VC VI &comp,
  VC VN &nb, VI &f2c, VI &idx, VI &lines
) {
  agglomerate_one_level<I, R, N>(
    r, c, w, v, cen, pri, comp, nb, true, true, true, R(4), CoMMASeedsPoolT::BOUNDARY_PRIORITY, f2c, idx, lines, true,
    2, 4, 4, 4
  );
}

void args(
  VC VI &r, VC VI &c, VC VR &w, VC VR &v, VC std::vector<VR> &cen, VC VR &pri, VC VI &comp,
  VC VN &nb, VI &f2c, VI &idx, VI &lines
) {
  GraphArgs<I, R, N> ga(r, c, w, v, cen, pri, nb, 2);
  AgglomerationArgs<I, R, N> aa(4, 4, 4, true, CoMMASeedsPoolT::BOUNDARY_PRIORITY);
  AnisotropicArgs<I, R, N> na(true, comp, true);
  AnisotropicArgs<I, R, N> nd(true, comp);
  (void)nd;
  agglomerate_one_level<I, R, N>(ga, aa, na, f2c, idx, lines);
}

#ifndef VD_MINIMAL
void utils(VC VI &r, VC VI &c, VC VR &w, VC VR &v, VC std::vector<VR> &cen, VC VR &pri, VC VN &nb) {
  VI ci, cj;
  VR cw, cv, cp;
  std::vector<VR> cc;
  VN cn;
  build_coarse_graph<I, R, N>(c, r, c, w, v, cen, pri, nb, ci, cj, cw, cv, cc, cp, cn);
  std::vector<long> dist;
  compute_neighbourhood_based_wall_distance<I, long>(r, c, c, dist);
  std::unordered_set<N> allowed;
  VI filtered;
  filter_cells_by_n_edges(r, nb, allowed, filtered);
  P a, b;
  CustomPairLessFunctor<P> less;
  CustomPairGreaterFunctor<P> greater;
  PairSecondBasedLessFunctor<P> second;
  PairFindFirstBasedFunctor<P> find(a.first);
  (void)(less(a, b) || greater(a, b) || second(a, b) || find(a));
  std::set<P, CustomPairGreaterFunctor<P>> s;
  (void)vector_of_first_elements(s);
  std::unordered_map<I, N> m;
  (void)d_keys_to_set(m);
  (void)_sq(1.0);
  (void)_cb(1.0);
}

void graphs(VC VI &r, VC VI &c, VC VR &w, VC VR &v, VC std::vector<VR> &cen, VC VN &nb) {
  auto g = std::make_shared<Dual_Graph<I, R, N>>(I(4), r, c, w, v, cen, nb, N(2), c);
  Subgraph<I, R, N> sub(I(4), r, c, w, v, c, true);
  sub.insert_node(c, I(1), R(1), w);
  sub.remove_node(I(1));
  (void)sub.check_connectivity();
  std::unordered_set<I> set;
  Coarse_Cell_Subgraph<I, R, N> cs(g, I(0), set, N(1), true);
  cs.insert_cell(I(0), std::nullopt);
  cs.insert_cells(set, std::nullopt);
  cs.update_connectivity();
  Coarse_Cell<I, R, N> cc(g, I(0), set, N(1), true);
  cc.insert_cell(I(0), std::nullopt);
  (void)cc.is_connected();
  (void)g->get_total_n_faces(I(0));
  (void)g->is_on_boundary(I(0));
  (void)g->get_nb_of_neighbours(I(0));
  (void)g->get_neighbours(I(0));
  (void)g->get_weights(I(0));
  (void)g->weights_cbegin(I(0));
  (void)g->weights_cend(I(0));
  Coarse_Cell_Container<I, R, N> ccc(g, N(1));
  (void)ccc.get_number_of_fc_agglomerated();
  (void)ccc.get_nb_of_cc();
  ccc.correct(N(4));
  CellFeatures<I, R, N> feats;
  (void)feats;
}
#endif
}  // namespace vdriver
