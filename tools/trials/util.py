"""Edits of Util.h, ARComputer.h and CoMMA.h: rewritings that keep the behaviour and changes that do not."""
U, A, M = "Util.h", "ARComputer.h", "CoMMA.h"

DOT = """  T dot{0.};
  for (auto i = decltype(a.size()){0}; i < a.size(); ++i)
    dot += a[i] * b[i];
  return dot;
"""
DIR = """  T norm{0.};
  for (auto i = decltype(a.size()){0}; i < a.size(); ++i) {
    const T di = b[i] - a[i];
    dir[i] = di;
    norm += di * di;
  }
  norm = sqrt(norm);
  const T ov_norm = T{1.} / norm;
  for (auto &di : dir)
    di *= ov_norm;
  return norm;
"""
SQD = """  T dist{0.};
  for (auto i = decltype(a.size()){0}; i < a.size(); ++i) {
    const auto diff = a[i] - b[i];
    dist += diff * diff;
  }
  return dist;
"""
FILT = """  auto target = decltype(allowed){};
  std::copy_if(
    allowed.begin(),
    allowed.end(),
    std::inserter(target, target.begin()),
    [](const auto n) { return n > 0; }
  );
"""
FILT2 = """    for (auto c = decltype(n_cells){0}; c < n_cells; ++c) {
      if (target.find(
            static_cast<IntT>(indices[c + 1] - indices[c] + n_bnd_faces[c])
          )
          != target.end())
        filtered.emplace_back(c);
    }
"""
WALL_INIT = """  dist.resize(neigh_idxs.size() - 1);
  std::fill(dist.begin(), dist.end(), DistT{-1});
"""
WALL_IN = """    for (auto neigh = neighs.cbegin() + neigh_idxs[cur];
         neigh < neighs.cbegin() + neigh_idxs[cur + 1];
         ++neigh) {
      if (dist[*neigh] < DistT{0}) {
        dist[*neigh] = cur_dist;
        to_visit.emplace(*neigh);
      } else if (dist[*neigh] > cur_dist) {
        dist[*neigh] = cur_dist;
      }
    }
"""
CG_INIT = """  c_volumes.clear();
  c_volumes.resize(n_cells);
  std::fill(c_volumes.begin(), c_volumes.end(), RealT{0});
  c_n_bnd.clear();
  c_n_bnd.resize(n_cells);
  c_priority.clear();
  c_priority.resize(n_cells);
  std::fill(c_n_bnd.begin(), c_n_bnd.end(), IntT{0});
"""
CG_CEN = """  c_centers.clear();
  c_centers.reserve(n_cells);
  for (auto cc = decltype(n_cells){0}; cc < n_cells; ++cc) {
    auto tmp = std::vector<RealT>(dim, RealT{0});
    c_centers.emplace_back(std::move(tmp));
  }
"""
CG_SUM = """    const auto cc = f2c[fc];
    c2f[cc].emplace(fc);
    c_volumes[cc] += f_volumes[fc];
    for (auto xyz = decltype(dim){0}; xyz < dim; ++xyz)
      c_centers[cc][xyz] += f_volumes[fc] * f_centers[fc][xyz];
"""
CG_MAX = """      if (f_n_bnd[fc] > n_bnd) n_bnd = f_n_bnd[fc];
      if (f_priority[fc] > priority) priority = f_priority[fc];
"""
CG_NEI = """      for (auto fc_neigh = f_adj.cbegin() + f_adj_idx[fc];
           fc_neigh != f_adj.cbegin() + f_adj_idx[fc + 1];
           ++fc_neigh) {
        if (fcs.find(*fc_neigh) == fcs.end()) {
          const auto cc_neigh = f2c[*fc_neigh];
          cc_neighs.try_emplace(cc_neigh, 0.0);
          cc_neighs.at(cc_neigh) += f_weights[fc_neigh - f_adj.cbegin()];
        }
      }
"""
CG_END = """    c_n_bnd[cc] = n_bnd;
    c_priority[cc] = priority;
    c_adj_idx.emplace_back(c_adj_idx.back() + cc_neighs.size());
    for (const auto &[neigh, weight] : cc_neighs) {
      c_adj.emplace_back(neigh);
      c_weights.emplace_back(weight);
    }
"""
SHARED = """    for (; n_it != this->_graph->neighbours_cend(i_fc); ++n_it, ++w_it) {
      if (*n_it != i_fc && (fc_of_cc.count(*n_it) != 0)) {
        shared_faces.insert(*n_it);
        shared_weights += *w_it;
      }
    }
"""
GEOM = """    for (const auto i_fc_cc : fc_of_cc) {
      const auto dist = squared_euclidean_distance<RealT>(
        cen_fc, this->_graph->_centers[i_fc_cc]
      );
      if (dist > max_diam) max_diam = dist;
      if (dist < min_edge) min_edge = dist;
    }
    new_feats._sq_diam = max_diam;
    new_feats._sq_min_edge = min_edge;
"""
BARY = """    RealT measure = this->_graph->_volumes[i_fc];
    for (const auto &i_fc_cc : fc_of_cc)
      measure += this->_graph->_volumes[i_fc_cc];
    const RealT ov_measure = 1. / measure;
    for (auto i = decltype(cur_c.size()){0}; i < cur_c.size(); ++i) {
      new_feats._sum_centers[i] += this->_graph->_volumes[i_fc] * cur_c[i];
      bary[i] = new_feats._sum_centers[i] * ov_measure;
    }
    return bary;
"""
FACETS = """      new_feats._external_facets = cc_feats._external_facets;
      for (const auto &face : shared_faces) {
        new_feats._external_facets.at(face)--;
      }
      new_feats._external_facets[i_fc] =
        this->_graph->get_total_n_faces(i_fc) - n_shared_faces;
"""
MAXB = """    const auto dist_fc =
      squared_euclidean_distance<RealT>(bary, this->_graph->_centers[i_fc]);
    RealT max_dist = dist_fc;
    for (const auto i_fc_cc : fc_of_cc) {
      const auto dist = squared_euclidean_distance<RealT>(
        bary, this->_graph->_centers[i_fc_cc]
      );
      if (dist > max_dist) max_dist = dist;
    }
"""
MINB = """    for (const auto i_fc_cc : fc_of_cc) {
      if (new_feats._external_facets[i_fc_cc] > 0) {
        const auto dist = sqrt(squared_euclidean_distance<RealT>(
          bary, this->_graph->_centers[i_fc_cc]
        ));
        if (dist > this->_tolerance) {
          if (dist > max_dist) max_dist = dist;
          if (dist < min_dist) min_dist = dist;
        }
      }
    }
"""
FEAT = """    _sum_centers = graph->_centers[index];
    for (auto &xyz : _sum_centers) {
      xyz *= graph->_volumes[index];
    }
"""
VAL = """  if (!(dimension == 2 || dimension == 3))
    throw std::invalid_argument("CoMMA - Error: dimension must be 2 or 3");
  if (min_card <= 1 || goal_card <= 1 || max_card <= 1)
    throw std::invalid_argument(
      "CoMMA - Error: Cardinalities must be greater than 1"
    );
  if (!(min_card <= goal_card && goal_card <= max_card))
    throw std::invalid_argument(
      "CoMMA - Error: Cardinalities must be in order (min <= goal <= max)"
    );
"""
CRS = """  if (adjMatrix_row_ptr.empty()
      || adjMatrix_row_ptr.back()
        != static_cast<CoMMAIndexType>(adjMatrix_col_ind.size())
      || adjMatrix_row_ptr.back()
        != static_cast<CoMMAIndexType>(adjMatrix_areaValues.size()))
    throw std::invalid_argument(
      "CoMMA - Error: bad CRS graph (sizes do not match)"
    );
"""
LIM = """      if (max_cells_in_line.has_value() && max_cells_in_line.value() <= 0) {
        std::cout << "CoMMA - Requested a negative or null maximum number of "
                     "cells in line. Dropping the limit."
                  << std::endl;
        max_cells_in_line = std::nullopt;
      }
"""
COUP = """      switch (aniso_cell_coupling) {
        case CoMMACellCouplingT::MAX_WEIGHT:
        case CoMMACellCouplingT::MIN_DISTANCE:
          break;
        default:
          std::cout << "CoMMA - Warning: Unknown anisotropic cell coupling."
                       " Switching it to: max weight."
                    << std::endl;
          aniso_cell_coupling = CoMMACellCouplingT::MAX_WEIGHT;
      }
"""
SING = """  auto sing_thresh = singular_card_thresh;
  if (singular_card_thresh <= 0) {
    throw std::invalid_argument(
      "CoMMA - Error: Threshold cardinality for singular cells should be "
      "greater than zero"
    );
  }
  if (singular_card_thresh >= min_card) {
    std::cout
      << "CoMMA - Warning: Threshold cardinality is equal or larger than "
         "minimum cardinality. Changing it to this latter value."
      << std::endl;
    sing_thresh = min_card - 1;
  }
"""
BND = """  std::vector<CoMMAIntType> fixed_n_bnd_faces(n_bnd_faces.size());
  std::replace_copy_if(
    n_bnd_faces.begin(),
    n_bnd_faces.end(),
    fixed_n_bnd_faces.begin(),
    [expected_max_n_bnd](auto n) { return n > expected_max_n_bnd; },
    expected_max_n_bnd
  );
"""
POOL = """  std::shared_ptr<SeedsPoolType> seeds_pool = nullptr;
  switch (seed_ordering_type) {
    case CoMMASeedsPoolT::BOUNDARY_PRIORITY:
      seeds_pool = std::make_shared<Seeds_Pool_Boundary_Priority<
        CoMMAIndexType,
        CoMMAWeightType,
        CoMMAIntType>>(fixed_n_bnd_faces, priority_weights, false);
      break;
    case CoMMASeedsPoolT::NEIGHBOURHOOD_PRIORITY:
      seeds_pool = std::make_shared<Seeds_Pool_Neighbourhood_Priority<
        CoMMAIndexType,
        CoMMAWeightType,
        CoMMAIntType>>(fixed_n_bnd_faces, priority_weights, false);
      break;
    case CoMMASeedsPoolT::BOUNDARY_PRIORITY_ONE_POINT_INIT:
      seeds_pool = std::make_shared<Seeds_Pool_Boundary_Priority<
        CoMMAIndexType,
        CoMMAWeightType,
        CoMMAIntType>>(fixed_n_bnd_faces, priority_weights, true);
      break;
    case CoMMASeedsPoolT::NEIGHBOURHOOD_PRIORITY_ONE_POINT_INIT:
      seeds_pool = std::make_shared<Seeds_Pool_Neighbourhood_Priority<
        CoMMAIndexType,
        CoMMAWeightType,
        CoMMAIntType>>(fixed_n_bnd_faces, priority_weights, true);
      break;
    default:
      throw std::invalid_argument("CoMMA - Error: Seeds pool type unsupported");
  }
"""
AGG = """  IsotropicPtr agg = nullptr;
  if (fc_choice_iter > 1) {
    agg = std::make_unique<
      Agglomerator_Iterative<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>(
      fc_graph,
      cc_graph,
      seeds_pool,
      dimension,
      aspect_ratio,
      neighbourhood_type,
      fc_choice_iter
    );
  } else {
    agg = std::make_unique<
      Agglomerator_Biconnected<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>(
      fc_graph,
      cc_graph,
      seeds_pool,
      dimension,
      aspect_ratio,
      neighbourhood_type,
      fc_choice_iter
    );
  }
"""
AGG2 = """  IsotropicPtr agg = fc_choice_iter <= 1
    ? IsotropicPtr(std::make_unique<
      Agglomerator_Biconnected<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>(
      fc_graph, cc_graph, seeds_pool, dimension, aspect_ratio, neighbourhood_type, fc_choice_iter))
    : IsotropicPtr(std::make_unique<
      Agglomerator_Iterative<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>(
      fc_graph, cc_graph, seeds_pool, dimension, aspect_ratio, neighbourhood_type, fc_choice_iter));
"""
OUT = """  fc_to_cc.clear();
  fc_to_cc.reserve(cc_graph->_fc_2_cc.size());
  std::transform(
    cc_graph->_fc_2_cc.begin(),
    cc_graph->_fc_2_cc.end(),
    std::back_inserter(fc_to_cc),
    [](const auto &f2c) { return f2c.value(); }
  );
"""
GRAPH = """  std::shared_ptr<DualGraphType> fc_graph = std::make_shared<DualGraphType>(
    nb_fc,
    adjMatrix_row_ptr,
    adjMatrix_col_ind,
    adjMatrix_areaValues,
    volumes,
    centers,
    fixed_n_bnd_faces,
    dimension,
    anisotropicCompliantCells
  );
"""
FREE = """template<
  typename CoMMAIndexType,
  typename CoMMAWeightType,
  typename CoMMAIntType>
void agglomerate_one_level(
"""
POOLFN = POOL.replace("  std::shared_ptr<SeedsPoolType> seeds_pool = nullptr;\n", "").replace(
    "seeds_pool = ", "return ").replace("      break;\n", "")
USING = """  using SeedsPoolType =
    Seeds_Pool<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>;
"""

TRIALS = [
    ("dot: inner_product", "same", U, [(DOT, "  return std::inner_product(a.begin(), a.end(), b.begin(), T{0.});\n")]),
    ("dot: transform_reduce", "same", U, [(DOT, "  return std::transform_reduce(a.begin(), a.end(), b.begin(), T{0.});\n")]),
    ("dot: iterators", "same", U, [(DOT, """  T dot{0.};
  auto it_b = b.cbegin();
  for (auto it_a = a.cbegin(); it_a != a.cend(); ++it_a, ++it_b) dot += (*it_a) * (*it_b);
  return dot;
""")]),
    ("dot: range", "same", U, [(DOT, """  T dot{0.};
  std::size_t i = 0;
  for (const auto &ai : a) dot += ai * b[i++];
  return dot;
""")]),
    ("dot: while", "same", U, [(DOT, """  T dot{0.};
  std::size_t i = 0;
  const auto n = a.size();
  while (i != n) {
    dot = dot + b[i] * a[i];
    ++i;
  }
  return dot;
""")]),
    ("dir: transform", "same", U, [(DIR, """  std::transform(a.cbegin(), a.cend(), b.cbegin(), dir.begin(), [](const T x, const T y) { return y - x; });
  T norm{0.};
  for (std::size_t i = 0; i < a.size(); ++i) norm += dir[i] * dir[i];
  norm = std::sqrt(norm);
  for (auto &di : dir) di *= T{1.} / norm;
  return norm;
""")]),
    ("dir: dot helper", "same", U, [(DIR, """  for (std::size_t i = 0; i < a.size(); ++i) dir[i] = b[i] - a[i];
  T sq{0.};
  for (std::size_t i = 0; i < a.size(); ++i) sq += dir[i] * dir[i];
  const T norm = sqrt(sq);
  const T ov_norm = T{1.} / norm;
  std::for_each(dir.begin(), dir.end(), [ov_norm](auto &x) { x *= ov_norm; });
  return norm;
""")]),
    ("dir: index scale", "same", U, [("""  for (auto &di : dir)
    di *= ov_norm;
""", """  for (std::size_t i = 0; i < dir.size(); ++i) dir[i] = dir[i] * ov_norm;
""")]),
    ("sqd: square helper", "same", U, [(SQD, """  T dist{0.};
  for (auto i = decltype(a.size()){0}; i < a.size(); ++i) dist += _sq(a[i] - b[i]);
  return dist;
""")]),
    ("sqd: other sign", "same", U, [("    const auto diff = a[i] - b[i];\n", "    const auto diff = b[i] - a[i];\n")]),
    ("sqd: transform_reduce", "same", U, [(SQD, """  return std::transform_reduce(a.cbegin(), a.cend(), b.cbegin(), T{0.}, std::plus<T>(),
    [](const auto x, const auto y) { return (x - y) * (x - y); });
""")]),
    ("sqd: lambda", "same", U, [(SQD, """  const auto term = [&](const std::size_t i) {
    const T d = a[i] - b[i];
    return d * d;
  };
  T dist{0.};
  for (std::size_t i = 0; i < a.size(); ++i) dist += term(i);
  return dist;
""")]),
    ("less: single expression", "same", U, [("""    if (left.second < right.second) return true;
    if (left.second > right.second) return false;
    return left.first > right.first;
""", """    return left.second < right.second
      || (!(right.second < left.second) && right.first < left.first);
""")]),
    ("less: not equal", "same", U, [("""    if (left.second < right.second) return true;
    if (left.second > right.second) return false;
    return left.first > right.first;
""", """    if (left.second != right.second) return left.second < right.second;
    return left.first > right.first;
""")]),
    ("greater: not equal", "same", U, [("""    if (left.second > right.second) return true;
    if (left.second < right.second) return false;
    return left.first < right.first;
""", """    if (left.second == right.second) return left.first < right.first;
    return right.second < left.second;
""")]),
    ("greater: other order", "same", U, [("""    if (left.second > right.second) return true;
    if (left.second < right.second) return false;
    return left.first < right.first;
""", """    if (left.second < right.second) return false;
    if (left.second > right.second) return true;
    return left.first < right.first;
""")]),
    ("greater: tie", "same", U, [("""    if (left.second > right.second) return true;
    if (left.second < right.second) return false;
    return left.first < right.first;
""", """    return std::tie(right.second, left.first) < std::tie(left.second, right.first);
""")]),
    ("firsts: transform", "same", U, [("""  for (const auto &pr : cont)
    fe.emplace_back(pr.first);
""", """  std::transform(cont.begin(), cont.end(), std::back_inserter(fe), [](const auto &pr) { return pr.first; });
""")]),
    ("firsts: structured", "same", U, [("""  for (const auto &pr : cont)
    fe.emplace_back(pr.first);
""", """  for (auto it = cont.cbegin(); it != cont.cend(); ++it) fe.push_back(it->first);
""")]),
    ("keys: structured", "same", U, [("""  for (const auto &i_k_v : dict) {
    s_neighbours_of_seed.insert(i_k_v.first);
  }
""", """  s_neighbours_of_seed.reserve(dict.size());
  for (const auto &[key, value] : dict) {
    CoMMAUnused(value);
    s_neighbours_of_seed.emplace(key);
  }
""")]),
    ("keys: iterator", "same", U, [("""  for (const auto &i_k_v : dict) {
    s_neighbours_of_seed.insert(i_k_v.first);
  }
""", """  for (auto it = dict.begin(); it != dict.end(); ++it) s_neighbours_of_seed.insert(it->first);
""")]),
    ("filter: loop", "same", U, [(FILT, """  std::unordered_set<IntT> target{};
  for (const auto n : allowed)
    if (n > 0) target.insert(n);
""")]),
    ("filter: count", "same", U, [(FILT2, """    for (IndexT c = 0; c < n_cells; ++c) {
      const auto n_faces = static_cast<IntT>(indices[c + 1] - indices[c] + n_bnd_faces[c]);
      if (target.count(n_faces) > 0) filtered.push_back(c);
    }
""")]),
    ("filter: early return", "same", U, [("  if (!target.empty()) {\n", "  if (target.empty()) return;\n  {\n")]),
    ("filter: no reserve", "same", U, [("    filtered.reserve(n_cells);\n", ""), ("    filtered.shrink_to_fit();\n", "")]),
    ("filter: continue", "same", U, [(FILT2, """    for (auto c = decltype(n_cells){0}; c < n_cells; ++c) {
      const auto n_adj = indices[c + 1] - indices[c];
      const auto it = target.find(static_cast<IntT>(n_adj + n_bnd_faces[c]));
      if (it == target.end()) continue;
      filtered.emplace_back(c);
    }
""")]),
    ("wall: assign", "same", U, [(WALL_INIT, "  dist.assign(neigh_idxs.size() - 1, DistT{-1});\n")]),
    ("wall: clear resize", "same", U, [(WALL_INIT, "  dist.clear();\n  dist.resize(neigh_idxs.size() - 1, DistT{-1});\n")]),
    ("wall: index loop", "same", U, [(WALL_IN, """    for (auto k = neigh_idxs[cur]; k < neigh_idxs[cur + 1]; ++k) {
      const auto neigh = neighs[k];
      if (dist[neigh] < DistT{0}) {
        dist[neigh] = cur_dist;
        to_visit.push(neigh);
      } else if (dist[neigh] > cur_dist) {
        dist[neigh] = cur_dist;
      }
    }
""")]),
    ("wall: unvisited first", "same", U, [(WALL_IN, """    for (auto neigh = neighs.cbegin() + neigh_idxs[cur];
         neigh != neighs.cbegin() + neigh_idxs[cur + 1];
         ++neigh) {
      const bool unseen = dist[*neigh] < DistT{0};
      if (unseen || dist[*neigh] > cur_dist) dist[*neigh] = cur_dist;
      if (unseen) to_visit.emplace(*neigh);
    }
""")]),
    ("wall: reference", "same", U, [(WALL_IN, """    for (auto neigh = neighs.cbegin() + neigh_idxs[cur];
         neigh < neighs.cbegin() + neigh_idxs[cur + 1];
         ++neigh) {
      auto &d = dist[*neigh];
      if (d < DistT{0}) {
        d = cur_dist;
        to_visit.emplace(*neigh);
      } else if (d > cur_dist) {
        d = cur_dist;
      }
    }
""")]),
    ("wall: two loops", "same", U, [("""  for (const auto &cell : wall) {
    dist[cell] = DistT{0};
    to_visit.emplace(cell);
  }
""", """  for (const auto &cell : wall) dist[cell] = DistT{0};
  for (const auto &cell : wall) to_visit.push(cell);
""")]),
    ("cg: assign", "same", U, [(CG_INIT, """  c_volumes.assign(n_cells, RealT{0});
  c_n_bnd.assign(n_cells, IntT{0});
  c_priority.assign(n_cells, RealT{0});
""")]),
    ("cg: centers assign", "same", U, [(CG_CEN, "  c_centers.assign(n_cells, std::vector<RealT>(dim, RealT{0}));\n")]),
    ("cg: centers emplace", "same", U, [(CG_CEN, """  c_centers.clear();
  c_centers.reserve(n_cells);
  for (auto cc = decltype(n_cells){0}; cc < n_cells; ++cc)
    c_centers.emplace_back(dim, RealT{0});
""")]),
    ("cg: sums reference", "same", U, [(CG_SUM, """    const auto cc = f2c[fc];
    const auto vol = f_volumes[fc];
    auto &center = c_centers[cc];
    for (auto xyz = decltype(dim){0}; xyz < dim; ++xyz)
      center[xyz] += vol * f_centers[fc][xyz];
    c_volumes[cc] += vol;
    c2f[cc].insert(fc);
""")]),
    ("cg: max", "same", U, [(CG_MAX, """      n_bnd = std::max(n_bnd, f_n_bnd[fc]);
      priority = std::max(priority, f_priority[fc]);
""")]),
    ("cg: neigh index", "same", U, [(CG_NEI, """      for (auto k = f_adj_idx[fc]; k < f_adj_idx[fc + 1]; ++k) {
        const auto neigh = f_adj[k];
        if (fcs.count(neigh) > 0) continue;
        cc_neighs[f2c[neigh]] += f_weights[k];
      }
""")]),
    ("cg: neigh bracket", "same", U, [("""          cc_neighs.try_emplace(cc_neigh, 0.0);
          cc_neighs.at(cc_neigh) += f_weights[fc_neigh - f_adj.cbegin()];
""", """          cc_neighs[cc_neigh] += f_weights[fc_neigh - f_adj.cbegin()];
""")]),
    ("cg: neigh find", "same", U, [("""          cc_neighs.try_emplace(cc_neigh, 0.0);
          cc_neighs.at(cc_neigh) += f_weights[fc_neigh - f_adj.cbegin()];
""", """          const auto weight = f_weights[fc_neigh - f_adj.cbegin()];
          const auto it = cc_neighs.find(cc_neigh);
          if (it == cc_neighs.end())
            cc_neighs.emplace(cc_neigh, weight);
          else
            it->second += weight;
""")]),
    ("cg: end pairs", "same", U, [(CG_END, """    c_adj_idx.push_back(c_adj_idx.back() + cc_neighs.size());
    for (const auto &pr : cc_neighs) {
      c_weights.push_back(pr.second);
      c_adj.push_back(pr.first);
    }
    c_n_bnd[cc] = n_bnd;
    c_priority[cc] = priority;
""")]),
    ("cg: end after", "same", U, [(CG_END, """    for (const auto &[neigh, weight] : cc_neighs) {
      c_adj.emplace_back(neigh);
      c_weights.emplace_back(weight);
    }
    c_adj_idx.emplace_back(static_cast<IndexT>(c_adj.size()));
    c_n_bnd[cc] = n_bnd;
    c_priority[cc] = priority;
""")]),
    ("cg: scale division", "same", U, [("""    const auto &fcs = c2f[cc];
    const RealT ov_volume(RealT{1.} / c_volumes[cc]);
    for (auto xyz = decltype(dim){0}; xyz < dim; ++xyz)
      c_centers[cc][xyz] *= ov_volume;
""", """    const auto &fcs = c2f[cc];
    const RealT ov_volume(RealT{1.} / c_volumes[cc]);
    for (auto &x : c_centers[cc]) x *= ov_volume;
""")]),
    ("shared: find", "same", A, [(SHARED, """    const auto n_end = this->_graph->neighbours_cend(i_fc);
    while (n_it != n_end) {
      if (*n_it != i_fc && fc_of_cc.find(*n_it) != fc_of_cc.end()) {
        shared_faces.emplace(*n_it);
        shared_weights += *w_it;
      }
      ++n_it;
      ++w_it;
    }
""")]),
    ("shared: continue", "same", A, [(SHARED, """    for (; n_it != this->_graph->neighbours_cend(i_fc); ++n_it, ++w_it) {
      const auto neigh = *n_it;
      if (neigh == i_fc) continue;
      if (fc_of_cc.count(neigh) == 0) continue;
      shared_weights += *w_it;
      shared_faces.insert(neigh);
    }
""")]),
    ("shared: local sum", "same", A, [("    shared_weights = 0.;\n", "    RealT sum{0.};\n"),
                                      ("        shared_weights += *w_it;\n      }\n    }\n",
                                       "        sum += *w_it;\n      }\n    }\n    shared_weights = sum;\n")]),
    ("geom: max", "same", A, [(GEOM, """    for (const auto &other : fc_of_cc) {
      const RealT dist = squared_euclidean_distance<RealT>(cen_fc, this->_graph->_centers[other]);
      max_diam = std::max(max_diam, dist);
      min_edge = std::min(min_edge, dist);
    }
    new_feats._sq_min_edge = min_edge;
    new_feats._sq_diam = max_diam;
""")]),
    ("geom: in place", "same", A, [("    RealT max_diam = cc_feats._sq_diam, min_edge = cc_feats._sq_min_edge;\n", """    auto max_diam = cc_feats._sq_diam;
    auto min_edge = cc_feats._sq_min_edge;
""")]),
    ("bary: accumulate", "same", A, [(BARY, """    const RealT measure = std::accumulate(fc_of_cc.begin(), fc_of_cc.end(), this->_graph->_volumes[i_fc],
      [&](const RealT sum, const IndexT fc) { return sum + this->_graph->_volumes[fc]; });
    const RealT ov_measure = 1. / measure;
    const auto vol = this->_graph->_volumes[i_fc];
    for (std::size_t i = 0; i < cur_c.size(); ++i) {
      new_feats._sum_centers[i] += vol * cur_c[i];
      bary[i] = new_feats._sum_centers[i] * ov_measure;
    }
    return bary;
""")]),
    ("bary: split loops", "same", A, [("""      new_feats._sum_centers[i] += this->_graph->_volumes[i_fc] * cur_c[i];
      bary[i] = new_feats._sum_centers[i] * ov_measure;
    }
""", """      new_feats._sum_centers[i] += this->_graph->_volumes[i_fc] * cur_c[i];
    }
    for (auto i = decltype(cur_c.size()){0}; i < cur_c.size(); ++i)
      bary[i] = new_feats._sum_centers[i] * ov_measure;
""")]),
    ("bary: push_back", "same", A, [("    std::vector<RealT> bary(cur_c.size());\n", "    std::vector<RealT> bary;\n    bary.reserve(cur_c.size());\n"),
                                    ("      bary[i] = new_feats._sum_centers[i] * ov_measure;\n",
                                     "      bary.push_back(new_feats._sum_centers[i] * ov_measure);\n")]),
    ("facets: reference", "same", A, [(FACETS, """      auto &facets = new_feats._external_facets;
      facets = cc_feats._external_facets;
      for (const auto face : shared_faces) facets.at(face) -= 1;
      const auto n_faces = this->_graph->get_total_n_faces(i_fc);
      facets[i_fc] = n_faces - n_shared_faces;
""")]),
    ("basic: measure last", "same", A, [("    new_feats._measure = cc_feats._measure + this->_graph->_volumes[i_fc];\n    RealT shared_weights{};\n", "    RealT shared_weights{};\n"),
                                        ("    new_feats._n_internal_faces = cc_feats._n_internal_faces + n_shared_faces;\n",
                                         "    new_feats._measure = this->_graph->_volumes[i_fc] + cc_feats._measure;\n    new_feats._n_internal_faces = cc_feats._n_internal_faces + n_shared_faces;\n")]),
    ("maxb: max", "same", A, [(MAXB, """    const auto sq_dist = [&](const IndexT fc) {
      return squared_euclidean_distance<RealT>(bary, this->_graph->_centers[fc]);
    };
    RealT max_dist = sq_dist(i_fc);
    for (const auto fc : fc_of_cc) max_dist = std::max(max_dist, sq_dist(fc));
""")]),
    ("minb: continue", "same", A, [(MINB, """    for (const auto i_fc_cc : fc_of_cc) {
      if (new_feats._external_facets[i_fc_cc] <= 0) continue;
      const auto dist = sqrt(squared_euclidean_distance<RealT>(bary, this->_graph->_centers[i_fc_cc]));
      if (dist <= this->_tolerance) continue;
      max_dist = std::max(max_dist, dist);
      min_dist = std::min(min_dist, dist);
    }
""")]),
    ("minb: helper", "same", A, [(MINB, """    const auto consider = [&](const IndexT fc) {
      if (new_feats._external_facets[fc] <= 0) return;
      const auto dist = sqrt(squared_euclidean_distance<RealT>(bary, this->_graph->_centers[fc]));
      if (dist > this->_tolerance) {
        if (dist > max_dist) max_dist = dist;
        if (dist < min_dist) min_dist = dist;
      }
    };
    for (const auto fc : fc_of_cc) consider(fc);
""")]),
    ("feat: transform", "same", A, [(FEAT, """    const auto vol = graph->_volumes[index];
    const auto &center = graph->_centers[index];
    _sum_centers.reserve(center.size());
    for (const auto x : center) _sum_centers.push_back(x * vol);
""")]),
    ("feat: index", "same", A, [("""    for (auto &xyz : _sum_centers) {
      xyz *= graph->_volumes[index];
    }
""", """    for (std::size_t d = 0; d < _sum_centers.size(); ++d) _sum_centers[d] *= graph->_volumes[index];
""")]),
    ("minedge: if", "same", A, [("""    aspect_ratio = fc_of_cc.size() == 1
      ? new_feats._sq_diam
      : new_feats._sq_diam / new_feats._sq_min_edge;
""", """    aspect_ratio = new_feats._sq_diam;
    if (fc_of_cc.size() != 1) aspect_ratio /= new_feats._sq_min_edge;
""")]),
    ("radius: product", "same", A, [("      return _cb(sqx) / _sq(feats._measure);\n", "      return sqx * sqx * sqx / (feats._measure * feats._measure);\n")]),
    ("valid: de morgan", "same", M, [(VAL, """  if (dimension != 2 && dimension != 3)
    throw std::invalid_argument("CoMMA - Error: dimension must be 2 or 3");
  if (min_card < 2 || goal_card < 2 || max_card < 2)
    throw std::invalid_argument("CoMMA - Error: Cardinalities must be greater than 1");
  if (min_card > goal_card || goal_card > max_card)
    throw std::invalid_argument("CoMMA - Error: Cardinalities must be in order (min <= goal <= max)");
""")]),
    ("valid: merged", "same", M, [(VAL, """  if (!(dimension == 2 || dimension == 3) || min_card <= 1 || goal_card <= 1 || max_card <= 1
      || min_card > goal_card || goal_card > max_card)
    throw std::invalid_argument("CoMMA - Error: invalid dimension or cardinalities");
""")]),
    ("valid: min only", "same", M, [("  if (min_card <= 1 || goal_card <= 1 || max_card <= 1)\n", "  if (std::min({min_card, goal_card, max_card}) <= 1)\n")]),
    ("valid: helper", "same", M, [(FREE, """template<typename CoMMAIntType>
inline void check_cardinalities(const CoMMAIntType min_card, const CoMMAIntType goal_card, const CoMMAIntType max_card) {
  if (min_card <= 1 || goal_card <= 1 || max_card <= 1)
    throw std::invalid_argument("CoMMA - Error: Cardinalities must be greater than 1");
  if (!(min_card <= goal_card && goal_card <= max_card))
    throw std::invalid_argument("CoMMA - Error: Cardinalities must be in order (min <= goal <= max)");
}
""" + FREE), (VAL, """  if (!(dimension == 2 || dimension == 3))
    throw std::invalid_argument("CoMMA - Error: dimension must be 2 or 3");
  check_cardinalities(min_card, goal_card, max_card);
""")]),
    ("valid: switch dimension", "same", M, [("""  if (!(dimension == 2 || dimension == 3))
    throw std::invalid_argument("CoMMA - Error: dimension must be 2 or 3");
""", """  switch (dimension) {
    case 2:
    case 3:
      break;
    default:
      throw std::invalid_argument("CoMMA - Error: dimension must be 2 or 3");
  }
""")]),
    ("crs: named", "same", M, [(CRS, """  if (adjMatrix_row_ptr.empty())
    throw std::invalid_argument("CoMMA - Error: bad CRS graph (sizes do not match)");
  const auto n_edges = adjMatrix_row_ptr.back();
  if (n_edges != static_cast<CoMMAIndexType>(adjMatrix_col_ind.size())
      || n_edges != static_cast<CoMMAIndexType>(adjMatrix_areaValues.size()))
    throw std::invalid_argument("CoMMA - Error: bad CRS graph (sizes do not match)");
""")]),
    ("crs: index back", "same", M, [(CRS, """  const bool ok = !adjMatrix_row_ptr.empty()
    && adjMatrix_row_ptr[adjMatrix_row_ptr.size() - 1] == static_cast<CoMMAIndexType>(adjMatrix_col_ind.size())
    && *adjMatrix_row_ptr.crbegin() == static_cast<CoMMAIndexType>(adjMatrix_areaValues.size());
  if (!ok) throw std::invalid_argument("CoMMA - Error: bad CRS graph (sizes do not match)");
""")]),
    ("limit: deref", "same", M, [(LIM, """      if (max_cells_in_line && *max_cells_in_line <= 0) {
        std::cout << "CoMMA - Dropping the limit." << std::endl;
        max_cells_in_line.reset();
      }
""")]),
    ("coupling: if", "same", M, [(COUP, """      if (aniso_cell_coupling != CoMMACellCouplingT::MAX_WEIGHT
          && aniso_cell_coupling != CoMMACellCouplingT::MIN_DISTANCE) {
        std::cout << "CoMMA - Warning: Unknown anisotropic cell coupling." << std::endl;
        aniso_cell_coupling = CoMMACellCouplingT::MAX_WEIGHT;
      }
""")]),
    ("singular: min", "same", M, [(SING, """  if (singular_card_thresh <= 0) {
    throw std::invalid_argument("CoMMA - Error: Threshold cardinality for singular cells should be greater than zero");
  }
  const auto sing_thresh = std::min(singular_card_thresh, static_cast<CoMMAIntType>(min_card - 1));
""")]),
    ("singular: ternary", "same", M, [(SING, """  if (singular_card_thresh < 1) {
    throw std::invalid_argument("CoMMA - Error: Threshold cardinality for singular cells should be greater than zero");
  }
  const auto sing_thresh = singular_card_thresh < min_card ? singular_card_thresh : min_card - 1;
""")]),
    ("bnd: transform", "same", M, [(BND, """  std::vector<CoMMAIntType> fixed_n_bnd_faces;
  fixed_n_bnd_faces.reserve(n_bnd_faces.size());
  std::transform(n_bnd_faces.begin(), n_bnd_faces.end(), std::back_inserter(fixed_n_bnd_faces),
    [&](const auto n) { return std::min(n, expected_max_n_bnd); });
""")]),
    ("bnd: copy loop", "same", M, [(BND, """  std::vector<CoMMAIntType> fixed_n_bnd_faces = n_bnd_faces;
  for (auto &n : fixed_n_bnd_faces) {
    if (n > dimension) n = dimension;
  }
""")]),
    ("bnd: index loop", "same", M, [(BND, """  std::vector<CoMMAIntType> fixed_n_bnd_faces(n_bnd_faces.size());
  for (std::size_t i = 0; i < n_bnd_faces.size(); ++i)
    fixed_n_bnd_faces[i] = std::min<CoMMAIntType>(n_bnd_faces[i], expected_max_n_bnd);
""")]),
    ("bnd: replace_if", "same", M, [(BND, """  std::vector<CoMMAIntType> fixed_n_bnd_faces(n_bnd_faces.begin(), n_bnd_faces.end());
  std::replace_if(fixed_n_bnd_faces.begin(), fixed_n_bnd_faces.end(),
    [expected_max_n_bnd](auto n) { return n > expected_max_n_bnd; }, expected_max_n_bnd);
""")]),
    ("pool: helper", "same", M, [(FREE, """template<typename CoMMAIndexType, typename CoMMAWeightType, typename CoMMAIntType>
inline std::shared_ptr<Seeds_Pool<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>> make_seeds_pool(
  const CoMMASeedsPoolT seed_ordering_type,
  const std::vector<CoMMAIntType> &fixed_n_bnd_faces,
  const std::vector<CoMMAWeightType> &priority_weights
) {
""" + POOLFN + "}\n" + FREE), (POOL, """  std::shared_ptr<SeedsPoolType> seeds_pool = make_seeds_pool<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>(
    seed_ordering_type, fixed_n_bnd_faces, priority_weights);
""")]),
    ("pool: if chain", "same", M, [(POOL, """  using BoundaryPool = Seeds_Pool_Boundary_Priority<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>;
  using NeighPool = Seeds_Pool_Neighbourhood_Priority<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>;
  const bool one_point = seed_ordering_type == CoMMASeedsPoolT::BOUNDARY_PRIORITY_ONE_POINT_INIT
    || seed_ordering_type == CoMMASeedsPoolT::NEIGHBOURHOOD_PRIORITY_ONE_POINT_INIT;
  std::shared_ptr<SeedsPoolType> seeds_pool = nullptr;
  if (seed_ordering_type == CoMMASeedsPoolT::BOUNDARY_PRIORITY
      || seed_ordering_type == CoMMASeedsPoolT::BOUNDARY_PRIORITY_ONE_POINT_INIT) {
    seeds_pool = std::make_shared<BoundaryPool>(fixed_n_bnd_faces, priority_weights, one_point);
  } else if (seed_ordering_type == CoMMASeedsPoolT::NEIGHBOURHOOD_PRIORITY || one_point) {
    seeds_pool = std::make_shared<NeighPool>(fixed_n_bnd_faces, priority_weights, one_point);
  } else {
    throw std::invalid_argument("CoMMA - Error: Seeds pool type unsupported");
  }
""")]),
    ("agg: ternary", "same", M, [(AGG, AGG2)]),
    ("agg: lambda", "same", M, [(AGG, """  const auto make_agg = [&]() -> IsotropicPtr {
    if (fc_choice_iter > 1)
      return std::make_unique<
        Agglomerator_Iterative<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>(
        fc_graph, cc_graph, seeds_pool, dimension, aspect_ratio, neighbourhood_type, fc_choice_iter);
    return std::make_unique<
      Agglomerator_Biconnected<CoMMAIndexType, CoMMAWeightType, CoMMAIntType>>(
      fc_graph, cc_graph, seeds_pool, dimension, aspect_ratio, neighbourhood_type, fc_choice_iter);
  };
  IsotropicPtr agg = make_agg();
""")]),
    ("out: loop", "same", M, [(OUT, """  fc_to_cc.clear();
  fc_to_cc.reserve(cc_graph->_fc_2_cc.size());
  for (const auto &f2c : cc_graph->_fc_2_cc) fc_to_cc.emplace_back(f2c.value());
""")]),
    ("out: resize", "same", M, [(OUT, """  const auto &f2c = cc_graph->_fc_2_cc;
  fc_to_cc.resize(f2c.size());
  for (std::size_t i = 0; i < f2c.size(); ++i) fc_to_cc[i] = f2c[i].value();
""")]),
    ("out: local", "same", M, [(OUT, """  std::vector<CoMMAIndexType> res;
  for (const auto &f2c : cc_graph->_fc_2_cc) res.push_back(f2c.value());
  fc_to_cc = std::move(res);
""")]),
    ("out: swap", "same", M, [(OUT, """  std::vector<CoMMAIndexType> res;
  res.reserve(cc_graph->_fc_2_cc.size());
  for (const auto &f2c : cc_graph->_fc_2_cc) res.push_back(f2c.value());
  fc_to_cc.swap(res);
""")]),
    ("graph: auto", "same", M, [(GRAPH, GRAPH.replace("std::shared_ptr<DualGraphType> fc_graph", "auto fc_graph"))]),
    ("reorder: pool after graph", "same", M, [(POOL, ""), (GRAPH, GRAPH + POOL)]),
    # ---- changes
    ("m: dot short", "C16", U, [("  for (auto i = decltype(a.size()){0}; i < a.size(); ++i)\n    dot += a[i] * b[i];\n",
                                 "  for (auto i = decltype(a.size()){1}; i < a.size(); ++i)\n    dot += a[i] * b[i];\n")]),
    ("m: sqd product", "C18", U, [("    dist += diff * diff;\n", "    dist += fabs(diff);\n")]),
    ("m: deviate", "C09", U, [("  return fabs(dot) < decltype(fabs(dot)){deviate_thresh};\n", "  return dot < decltype(fabs(dot)){deviate_thresh};\n")]),
    ("m: threshold", "C09", U, [("0.9396926207859084", "0.9397926207859084")]),
    ("m: less tie", "C15", U, [("    return left.first > right.first;\n", "    return left.first < right.first;\n")]),
    ("m: filter zero", "C20", U, [("[](const auto n) { return n > 0; }", "[](const auto n) { return n >= 0; }")]),
    ("m: filter no bnd", "C20", U, [("indices[c + 1] - indices[c] + n_bnd_faces[c]", "indices[c + 1] - indices[c]")]),
    ("m: wall visited", "C20", U, [("      if (dist[*neigh] < DistT{0}) {\n", "      if (dist[*neigh] <= DistT{0}) {\n")]),
    ("m: wall relax", "C20", U, [("        dist[*neigh] = cur_dist;\n        to_visit.emplace(*neigh);\n", "        dist[*neigh] = cur_dist + DistT{1};\n        to_visit.emplace(*neigh);\n")]),
    ("m: cg weight", "C17", U, [("          cc_neighs.at(cc_neigh) += f_weights[fc_neigh - f_adj.cbegin()];\n", "          cc_neighs.at(cc_neigh) = f_weights[fc_neigh - f_adj.cbegin()];\n")]),
    ("m: cg bnd sum", "C17", U, [("      if (f_n_bnd[fc] > n_bnd) n_bnd = f_n_bnd[fc];\n", "      if (f_n_bnd[fc] > n_bnd) n_bnd += f_n_bnd[fc];\n")]),
    ("m: cg priority min", "C17", U, [("      if (f_priority[fc] > priority)", "      if (f_priority[fc] < priority)")]),
    ("m: cg self", "C17", U, [("        if (fcs.find(*fc_neigh) == fcs.end()) {", "        if (fc != *fc_neigh) {")]),
    ("m: shared self", "C18", A, [("      if (*n_it != i_fc && (fc_of_cc.count(*n_it) != 0)) {", "      if (*n_it != i_fc) {")]),
    ("m: weights once", "C18", A, [(" - 2 * shared_weights;", " - shared_weights;")]),
    ("m: bary measure", "C18", A, [("    RealT measure = this->_graph->_volumes[i_fc];\n", "    RealT measure = 0.;\n")]),
    ("m: facets count", "C18", A, [("        this->_graph->get_total_n_faces(i_fc) - n_shared_faces;\n", "        this->_graph->get_nb_of_neighbours(i_fc) - n_shared_faces;\n")]),
    ("m: min edge", "C18", A, [("      if (dist < min_edge) min_edge = dist;\n", "      if (dist < min_edge) min_edge = max_diam;\n")]),
    ("m: tolerance", "C18", A, [("        if (dist > this->_tolerance) {\n          if (dist > max_dist)", "        if (dist > 0.) {\n          if (dist > max_dist)")]),
    ("valid: implied by the order", "same", M, [("  if (min_card <= 1 || goal_card <= 1 || max_card <= 1)", "  if (min_card <= 1 || max_card <= 1)\n    throw std::invalid_argument(\"\");\n  if (goal_card <= 0)")]),
    ("m: valid order", "C06", M, [("  if (!(min_card <= goal_card && goal_card <= max_card))", "  if (!(min_card <= max_card && goal_card <= max_card))")]),
    ("m: values size", "C06", M, [("        != static_cast<CoMMAIndexType>(adjMatrix_areaValues.size()))", "        > static_cast<CoMMAIndexType>(adjMatrix_areaValues.size()))")]),
    ("m: sing thresh", "C05", M, [("    sing_thresh = min_card - 1;", "    sing_thresh = min_card;")]),
    ("m: bnd fixed", "C15", M, [("[expected_max_n_bnd](auto n) { return n > expected_max_n_bnd; }", "[expected_max_n_bnd](auto n) { return n >= expected_max_n_bnd; }"),
                               ("    expected_max_n_bnd\n  );", "    expected_max_n_bnd - 1\n  );")]),
    ("m: pool kind", "C15", M, [("        CoMMAIntType>>(fixed_n_bnd_faces, priority_weights, true);\n      break;\n    case CoMMASeedsPoolT::NEIGHBOURHOOD_PRIORITY_ONE", "        CoMMAIntType>>(fixed_n_bnd_faces, priority_weights, false);\n      break;\n    case CoMMASeedsPoolT::NEIGHBOURHOOD_PRIORITY_ONE")]),
    ("m: export coarse", "C11", M, [("      1, agglomerationLines_Idx, agglomerationLines\n", "      0, agglomerationLines_Idx, agglomerationLines\n")]),
    ("m: correction in aniso", "C05", M, [("      goal_card, min_card, max_card, priority_weights, false\n", "      goal_card, min_card, max_card, priority_weights, correction\n")]),
    ("m: iterative used", "C13", M, [("  if (fc_choice_iter > 1) {\n    agg", "  if (fc_choice_iter > 2) {\n    agg")]),
    ("m: append out", "C07", M, [("  fc_to_cc.clear();\n", "")]),
]
