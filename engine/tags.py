"""Which properties depend on which observable of which function.

An entry is (function pattern, observable pattern, properties).  All matching
entries apply.  Patterns are full matches on the qualified name without the
namespace and on the observable (ret, p<i>, this, throw:<type>, Class._field).
"""
import re

TABLE = [
    # ---- argument structures
    (r"(Graph|Agglomeration|Anisotropic)Args::.*", r".*", "C12"),
    # ---- utilities
    (r"_sq|_cb|squared_euclidean_distance", r"ret", "C18"),
    (r"dot_product|dot_deviate|get_direction", r".*", "C09"),
    (r"CustomPair(Less|Greater)Functor::.*", r"ret", "C08 C15"),
    (r"PairSecondBasedLessFunctor::.*", r"ret", "C08"),
    (r"vector_of_first_elements|PairFindFirstBasedFunctor::.*", r".*", "C21"),
    (r"d_keys_to_set", r"ret", "C21 C25"),
    (r"filter_cells_by_n_edges", r"p3", "C20"),
    (r"compute_neighbourhood_based_wall_distance", r"p3", "C20"),
    (r"build_coarse_graph", r"p\d+", "C17"),
    # ---- seeds pool
    (r"SP\w+Initializator::.*", r".*", "C15"),
    (r"SPOnePointInitializator::.*", r".*", "C13"),
    (r"Seeds_Pool\w*::.*", r".*", "C15"),
    (r"Seeds_Pool\w*::(choose_new_seed|spoil_queue|get_highest_n_bnd_yet_to_agglomerate)", r"ret", "C01 C22"),
    (r"Seeds_Pool\w*::(spoil_queue|choose_new_seed)", r"p1|Seeds_Pool\..*", "C01 C22"),
    (r"Seeds_Pool\w*::(build_queue|initialize|need_initialization|is_empty|set_top_queue)", r".*", "C01 C22"),
    (r"Seeds_Pool\w*::(order_new_seeds_and_update|update)", r".*", "C25"),
    (r"Seeds_Pool_(Boundary|Neighbourhood)_Priority::(update|order_new_seeds_and_update|choose_new_seed)", r".*", "C13"),
    # ---- graph
    (r"Graph::(Graph|get_nb_of_neighbours|get_neighbours|neighbours_c\w+|get_weights|weights_c\w+)", r".*", "C16"),
    (r"Graph::(get_nb_of_neighbours|get_neighbours|neighbours_c\w+)", r".*", "C03 C19"),
    (r"Graph::(DFS|check_connectivity)", r".*", "C24 C22"),
    (r"Graph::compute_\w*compactness\w*", r"ret", "C19"),
    (r"Subgraph::.*", r".*", "C24"),
    (r"Dual_Graph::Dual_Graph", r".*", "C16"),
    (r"Dual_Graph::Dual_Graph", r"Dual_Graph\._s_anisotropic_compliant_cells", "C09"),
    (r"Dual_Graph::Dual_Graph", r"Dual_Graph\._compute_AR", "C09 C18"),
    (r"Dual_Graph::Dual_Graph", r"Dual_Graph\._n_bnd_faces", "C15"),
    (r"Dual_Graph::(get_n_boundary_faces|is_on_boundary)", r"ret", "C16 C15"),
    (r"Dual_Graph::get_total_n_faces", r"ret", "C16 C18"),
    (r"Dual_Graph::estimated_\w+", r"ret", "C18"),
    (r"Dual_Graph::get_center_direction", r".*", "C09"),
    (r"Dual_Graph::tag_anisotropic_cells", r".*", "C09"),
    (r"Dual_Graph::get_neighbourhood_of_cc", r"ret", "C03 C25"),
    (r"Dual_Graph::compute_neighbourhood_of_cc", r".*", "C03 C21"),
    # ---- aspect ratios
    (r"CellFeatures::.*", r".*", "C18"),
    (r"AR\w*::.*", r".*", "C18"),
    # ---- coarse cells
    (r"Coarse_Cell(_Subgraph)?::.*", r"Coarse_Cell\._(cardinality|compactness)", "C19"),
    (r"Coarse_Cell(_Subgraph)?::.*", r"Coarse_Cell\._s_fc", "C02 C19"),
    (r"Coarse_Cell(_Subgraph)?::insert_cells?", r"Coarse_Cell\._s_fc", "C05 C01"),
    (r"Coarse_Cell(_Subgraph)?::Coarse_Cell\w*", r"Coarse_Cell\._s_fc", "C01"),
    (r"Coarse_Cell(_Subgraph)?::.*", r"Coarse_Cell\._idx", "C02"),
    (r"Coarse_Cell(_Subgraph)?::.*", r"Coarse_Cell\._is_isotropic", "C05"),
    (r"Coarse_Cell(_Subgraph)?::.*", r"Coarse_Cell\._fc_graph", "C19"),
    (r"Coarse_Cell(_Subgraph)?::is_connected|Coarse_Cell_Subgraph::update_connectivity", r".*", "C24 C03"),
    (r"Coarse_Cell_Subgraph::.*", r"(Subg|G)raph\..*|Coarse_Cell_Subgraph\..*", "C24"),
    # ---- container of coarse cells
    (r"Coarse_Cell_Container::.*", r"Coarse_Cell_Container\._fc_2_cc", "C01 C02"),
    (r"Coarse_Cell_Container::.*", r"Coarse_Cell_Container\._is_fc_agglomerated", "C01 C19"),
    (r"Coarse_Cell_Container::.*", r"Coarse_Cell_Container\._nb_of_agglomerated_fc", "C01 C19 C22"),
    (r"Coarse_Cell_Container::.*", r"Coarse_Cell_Container\._ccs", "C02 C19"),
    (r"Coarse_Cell_Container::create_cc", r"Coarse_Cell_Container\._ccs", "C05 C24"),
    (r"Coarse_Cell_Container::.*", r"Coarse_Cell_Container\._cc_counter", "C02"),
    (r"Coarse_Cell_Container::.*", r"Coarse_Cell_Container\._(singular_cc|sing_card_thresh)", "C05"),
    (r"Coarse_Cell_Container::.*", r"Coarse_Cell_Container\._delayed_cc", "C01 C02"),
    (r"Coarse_Cell_Container::get_number_of_fc_agglomerated", r"ret", "C19 C22"),
    (r"Coarse_Cell_Container::get_nb_of_cc", r"ret", "C02"),
    (r"Coarse_Cell_Container::create_cc", r"ret", "C02 C11"),
    (r"Coarse_Cell_Container::get_neighs_cc", r"ret", "C05 C03"),
    (r"Coarse_Cell_Container::correct", r"Coarse_Cell_Container\..*", "C05 C01 C02"),
    (r"Coarse_Cell_Container::correct", r"Coarse_Cell\..*", "C05 C01 C02 C19"),
    (r"Coarse_Cell_Container::correct", r"(Subg|G)raph\..*", "C24"),
    (r"Coarse_Cell_Container::(select_best_cc\w*|get_shared_faces)", r".*", "C05"),
    (r"Coarse_Cell_Container::select_best_cc\w*", r".*", "C03"),
    # ---- neighbourhoods
    (r"Neighbourhood\w*::.*", r".*", "C21"),
    (r"Neighbourhood\w*::(update_it|extract_and_update_candidates|Neighbourhood\w*)", r"Neighbourhood.*", "C03 C01"),
    (r"Neighbourhood(Extended|PureFront)Creator::create", r".*", "C13"),
    # ---- agglomerators
    (r"Agglomerator::Agglomerator", r"Agglomerator\._(min|max|goal|threshold)_card", "C04"),
    (r"Agglomerator::Agglomerator", r"Agglomerator\._dimension", "C06 C13"),
    (r"Agglomerator::Agglomerator", r"throw:.*", "C06"),
    (r"Agglomerator::Agglomerator", r"Agglomerator\._(fc_graph|cc_graph|seeds_pool|l_nb_of_cells|min_neighbourhood)",
     "C01 C04 C21 C22"),
    (r"Agglomerator_Anisotropic::Agglomerator_Anisotropic", r".*_v_lines|H:\*.*|.*_nb_lines", "C10 C09"),
    (r"Agglomerator_Anisotropic::Agglomerator_Anisotropic", r".*_should_agglomerate", "C10 C09 C11"),
    (r"Agglomerator_Anisotropic::Agglomerator_Anisotropic", r".*_(max_cells_in_line|odd_line_length)", "C10 C13"),
    (r"Agglomerator_Anisotropic::Agglomerator_Anisotropic", r".*(coupling|direction|threshold|weights|aniso).*", "C09 C13"),
    (r"Agglomerator_Anisotropic::agglomerate_one_level", r".*", "C10 C03 C01"),
    (r"Agglomerator_Anisotropic::agglomerate_one_level", r"Coarse_Cell_Container\..*", "C02"),
    (r"Agglomerator_Anisotropic::agglomerate_one_level", r"H:\*.*|.*_v_lines", "C11"),
    (r"Agglomerator_Anisotropic::agglomerate_one_level", r".*", "C13"),
    (r"Agglomerator_Anisotropic::update_seeds_pool", r".*", "C10 C15"),
    (r"Agglomerator_Anisotropic::export_anisotropic_lines", r".*", "C11"),
    (r"Agglomerator_Anisotropic::build_anisotropic_lines", r".*", "C09 C03"),
    (r"Agglomerator_Anisotropic::(is_high_coupling|find_cell_candidates_\w+)", r".*", "C09 C13 C03"),
    (r"Agglomerator_Isotropic::Agglomerator_Isotropic", r".*_ar_computer", "C13 C18"),
    (r"Agglomerator_Isotropic::Agglomerator_Isotropic", r".*_fc_iter", "C13"),
    (r"Agglomerator_Isotropic::Agglomerator_Isotropic", r".*_neigh\w*", "C13 C21"),
    (r"Agglomerator_Isotropic::Agglomerator_Isotropic", r"throw:.*|tc", "C06 C13"),
    (r"Agglomerator_(Biconnected|Iterative)::Agglomerator_\w+", r".*", "C13"),
    (r"Agglomerator_(Isotropic|Anisotropic|Biconnected|Iterative)::Agglomerator_\w+", r".*_(min|max|goal|threshold)_card",
     "C04"),
    (r"Agglomerator_(Isotropic|Anisotropic|Biconnected|Iterative)::Agglomerator_\w+", r"throw:.*|tc", "C06"),
    (r"Agglomerator_Isotropic::set_agglomeration_parameter", r".*", "C04"),
    (r"Agglomerator_Isotropic::agglomerate_one_level", r".*", "C01 C04 C05 C22"),
    (r"Agglomerator_Isotropic::agglomerate_one_level", r"Coarse_Cell_Container\..*", "C02"),
    (r"Agglomerator_Isotropic::agglomerate_one_level", r"Seeds_Pool\..*", "C15"),
    (r"Agglomerator_Biconnected::choose_optimal_cc\w*", r"ret", "C04 C03 C01 C25 C21"),
    (r"Agglomerator_Biconnected::choose_optimal_cc\w*", r"p2", "C04 C19 C05"),
    (r"Agglomerator_Biconnected::choose_optimal_cc\w*", r"Seeds_Pool\..*", "C25 C15"),
    (r"Agglomerator_Biconnected::choose_optimal_cc\w*", r"Neighbourhood.*", "C21 C25"),
    (r"Agglomerator_(Biconnected|Iterative)::compute_best_fc_to_add", r".*", "C25"),
    (r"Agglomerator_(Biconnected|Iterative)::compute_best_fc_to_add", r"Neighbourhood.*", "C21"),
    (r"Agglomerator_Iterative::compute_best_fc_to_add", r".*", "C13 C21"),
    (r"Agglomerator_\w+::Agglomerator_\w+", r"Agglomerator\._(dimension|fc_graph|cc_graph|seeds_pool|l_nb_of_cells|"
     r"min_neighbourhood)", "C13"),
    (r"Coarse_Cell_Container::Coarse_Cell_Container", r".*_fc_graph", "C05 C03"),
    # ---- wider consequences
    (r"Neighbourhood\w*Creator::clone", r".*", "C23"),
    (r"squared_euclidean_distance", r"ret", "C09"),
    (r"d_keys_to_set", r"ret", "C01"),
    (r"Seeds_Pool::Seeds_Pool", r".*", "C13"),
    (r"Graph::(Graph|get_nb_of_neighbours|get_neighbours|neighbours_c\w+|get_weights|weights_c\w+)", r".*", "C09 C03 C24"),
    (r"Graph::compute_\w*compactness\w*", r"ret", "C05 C04"),
    (r"Dual_Graph::(get_n_boundary_faces|is_on_boundary)", r"ret", "C04 C10"),
    (r"Dual_Graph::tag_anisotropic_cells", r".*", "C13"),
    (r"Dual_Graph::(compute|get)_neighbourhood_of_cc", r".*", "C01 C04"),
    (r"AR\w*::compute_and_update_features|AR\w*::update_features", r"p\d+", "C25"),
    (r"Coarse_Cell_Container::correct", r".*", "C03 C11"),
    (r"Coarse_Cell_Container::select_best_cc\w*", r"p3", "C19"),
    (r"Neighbourhood\w*::(update_it|extract_and_update_candidates)", r".*", "C04 C13"),
    (r"Agglomerator_Anisotropic::agglomerate_one_level", r"Coarse_Cell_Container\..*", "C05 C19"),
    (r"Agglomerator_Anisotropic::build_anisotropic_lines", r".*", "C13"),
    (r"Agglomerator_Isotropic::agglomerate_one_level", r"Coarse_Cell_Container\..*", "C19"),
    (r"Agglomerator_Biconnected::choose_optimal_cc\w*", r"ret", "C13"),
    (r"Agglomerator_(Biconnected|Iterative)::compute_best_fc_to_add", r"p6", "C03 C01"),
    (r"Agglomerator_(Biconnected|Iterative)::compute_best_fc_to_add", r"p7", "C04"),
    (r"Agglomerator_(Biconnected|Iterative)::compute_best_fc_to_add", r"p8", "C18"),
    # ---- entry points: see ENTRY below
    (r"agglomerate_one_level", r"throw:.*|tc|tstate:.*", "C06"),
]

# what else a difference concerns: positions accessed, ends of loops
KINDS = {"access": ["C16"], "loop": ["C22"], "order": ["C08"]}

# arguments of the calls made by the entry point (position among the parameters of the callee)
ENTRY_ARGS = [
    (r"Dual_Graph", r"6", "C13 C06 C12"),
    (r"Dual_Graph", r"8", "C09 C12"),
    (r"Dual_Graph", r"[0-57]", "C12 C16"),
    (r"Coarse_Cell_Container", r"1", "C05 C06"),
    (r"Seeds_Pool\w*", r"\d+", "C15 C13"),
    (r"Agglomerator_Anisotropic", r"3", "C12 C13"),
    (r"Agglomerator_Anisotropic", r"4|8", "C09 C12"),
    (r"Agglomerator_Anisotropic", r"[56]", "C09 C11"),
    (r"Agglomerator_Anisotropic", r"7", "C10 C15"),
    (r"Agglomerator_Anisotropic", r"9", "C10 C13"),
    (r"Agglomerator_Anisotropic", r"10", "C10 C06"),
    (r"Agglomerator_Anisotropic", r"11|12", "C13 C09 C06"),
    (r"Agglomerator_(Biconnected|Iterative)", r"[3456]", "C13 C12"),
    (r"V:agglomerate_one_level", r"[123]", "C04 C12"),
    (r"V:agglomerate_one_level", r"4", "C15 C12"),
    (r"V:agglomerate_one_level", r"5", "C05 C12"),
    (r"Agglomerator_Anisotropic::agglomerate_one_level", r"\d+", "C10 C04 C05"),
    (r"Agglomerator_Anisotropic::export_anisotropic_lines", r"\d+", "C11 C02"),
    (r"Agglomerator_Anisotropic::update_seeds_pool", r"\d+", "C15 C10"),
]

# everything an entry point decides itself
ENTRY = "C01 C02 C04 C05 C06 C09 C10 C11 C12 C13 C15"

FILES = {
    "Args.h": "C12", "Util.h": "C17 C20", "Seeds_Pool.h": "C15", "Dual_Graph.h": "C16 C24", "ARComputer.h": "C18",
    "Coarse_Cell.h": "C19 C02", "Coarse_Cell_Container.h": "C02 C05", "Neighbourhood.h": "C21",
    "Agglomerator.h": "C04 C09 C25", "CoMMA.h": "C06 C12",
}

_compiled = [(re.compile(a), re.compile(b), p.split()) for a, b, p in TABLE]


_args = [(re.compile(a), re.compile(b), p.split()) for a, b, p in ENTRY_ARGS]


def arg_tags(ctx):
    """properties that depend on arguments of calls made by the entry point; None if not known for all"""
    out = []
    for callee, i in ctx:
        c = callee.replace("comma::", "").split("<")[0].split("@")[0].split("(")[0]
        got = [p for a, b, p in _args if a.fullmatch(c) and b.fullmatch(str(i))]
        if not got:
            return None
        for p in got:
            out += [x for x in p if x not in out]
    return out


def tags(q, obs, path="", ctx=None):
    """properties that depend on the observable"""
    q = q.replace("comma::", "")
    o = obs.replace("comma::", "")
    if o.startswith("H:") and not o.startswith("H:*"):
        o = o[2:]
    out = []
    for a, b, p in _compiled:
        if a.fullmatch(q) and b.fullmatch(o):
            out += [x for x in p if x not in out]
    if q == "agglomerate_one_level" and re.fullmatch(r"p\d+", o):
        t = arg_tags(ctx) if ctx else None
        out += [x for x in (t if t else ENTRY.split()) if x not in out]
    if not out:
        out = FILES.get(path.split("/")[-1], "").split()
    return out
