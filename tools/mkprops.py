#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
A = 'include/CoMMA/Agglomerator.h'; CCC = 'include/CoMMA/Coarse_Cell_Container.h'
CC = 'include/CoMMA/Coarse_Cell.h'; DG = 'include/CoMMA/Dual_Graph.h'; NB = 'include/CoMMA/Neighbourhood.h'
SP = 'include/CoMMA/Seeds_Pool.h'; UT = 'include/CoMMA/Util.h'; AR = 'include/CoMMA/ARComputer.h'
CO = 'include/CoMMA/CoMMA.h'; ARGS = 'include/CoMMA/Args.h'; DEFS = 'include/CoMMA/CoMMADefs.h'; PY = 'src/CoMMA.cpp'

def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    return d

props = [
P('C01', 'Every fine cell ends up in exactly one coarse cell',
  'When one level of agglomeration returns, the fine-to-coarse vector has one valid entry per fine cell, in fine-cell order, and every fine cell belongs to exactly one coarse cell. A cell that has been given to a coarse cell is never offered again as a seed, as a candidate for growing another coarse cell or as a cell of an anisotropic line pair, and no cell is left out when the process stops.',
  ['inputs', 'configurations'], 'for every graph, weights, anisotropic lines and option combination accepted by the entry point',
  'The tests compare a few hand-made meshes against stored results; that no cell is lost or claimed twice depends on every path that creates, grows, delays or corrects a coarse cell, for arbitrary graphs.',
  [CCC, A, DG, SP, CO],
  [('creation marks every member as agglomerated, counts it once and records its coarse cell', CCC+': create_cc'),
   ('main loop runs until the number of agglomerated cells equals the number of cells, delayed cells are then created', A+': Agglomerator_Isotropic::agglomerate_one_level'),
   ('seeds and candidates are filtered with the agglomerated flags', SP+': spoil_queue, build_queue; '+DG+': compute_neighbourhood_of_cc, get_neighbourhood_of_cc'),
   ('output copied entry by entry', CO+': agglomerate_one_level')],
  [('_fc_2_cc', 'coarse cell of every fine cell', CCC), ('_is_fc_agglomerated', 'flag per fine cell', CCC), ('_nb_of_agglomerated_fc', 'number of flagged cells', CCC)],
  ['fc_to_cc returned to the caller']),
P('C02', 'Coarse IDs are dense and always agree with coarse-cell membership',
  'The IDs in the fine-to-coarse vector are exactly 0..n-1 for n coarse cells, without gaps or duplicates, both after creation and after the correction step renumbers. At every stage the ID recorded for a fine cell is the ID under which the coarse cell that contains it is stored.',
  ['inputs', 'histories'], 'for every sequence of creations, merges and removals of coarse cells',
  'Tests look at the final vector on a few meshes; correction with several removed coarse cells, cells moved one by one and thresholds above one are hardly reached.',
  [CCC, A], [('one counter gives the key of the map, the index of the coarse cell and the recorded ID, and is incremented once per creation', CCC+': create_cc'),
             ('renumbering rewrites the key of each following coarse cell and the record of each of its fine cells', CCC+': correct')],
  [('_cc_counter', 'next free ID', CCC), ('_ccs', 'map from ID to coarse cell', CCC)], ['fc_to_cc']),
P('C03', 'Coarse cells are connected: they grow only through shared faces',
  'A coarse cell starts from one seed and only ever gains fine cells that share a face with a cell already in it: candidates come from the adjacency of cells already taken, look-up of more distant cells proceeds neighbour by neighbour, and the correction merges a coarse cell only into one adjacent to it. Cells paired along an anisotropic line are consecutive on that line, and consecutive cells of a built line share a face.',
  ['inputs', 'configurations'], 'for every graph and every choice of neighbourhood, search depth and correction',
  'Connectivity is never asserted by the tests; it must hold for all graphs, including those where free cells are scarce because of earlier coarse cells.',
  [A, NB, DG, CCC], [('candidates are the graph neighbours of the cell just added', NB+': update_it'), ('breadth-first expansion from the seed', DG+': compute_neighbourhood_of_cc'),
     ('next cell is one of the candidates', A+': compute_best_fc_to_add'), ('merge targets come from the adjacency', CCC+': get_neighs_cc, correct')],
  None, ['fc_to_cc together with the input graph']),
P('C04', 'Cardinality limits are respected when coarse cells grow',
  'Before correction, an isotropic coarse cell never has more fine cells than the requested maximum, and it has fewer than the requested minimum only when not enough free cells can be reached from its seed. Among the admissible sizes the one kept is the one with the highest compactness, then the fewest external faces.',
  ['inputs', 'configurations'], 'for every graph and every min <= goal <= max',
  'Only a handful of cardinality triples are tested, each on one mesh; the boundary cases (exactly goal-1 free cells, fewer free cells than max) are not enumerated.',
  [A], [('growth loop bounded by the minimum of max cardinality and available cells', A+': choose_optimal_cc_and_update_seeds_pool'),
        ('only sizes of at least min (or the last one) are recorded as eligible', A+': choose_optimal_cc_and_update_seeds_pool')],
  None, ['number of occurrences of each ID in fc_to_cc']),
P('C05', 'Correction dissolves only singular isotropic cells, completely',
  'The correction step runs only when requested; it dissolves a coarse cell only if its current size is not above the singular threshold, and moves all of its fine cells into neighbouring isotropic coarse cells (or leaves it untouched when there is none). Anisotropic coarse cells are never dissolved and never receive or lose a cell; the merge target is chosen by gain in compactness, then shared faces, then smaller size, then lowest ID.',
  ['inputs', 'configurations', 'histories'], 'for every mix of singular, ordinary and anisotropic coarse cells and every threshold',
  'Two or three tests exercise the correction, none with a threshold of two or more and a partly enclosed coarse cell, none with anisotropic neighbours only.',
  [CCC, A, CO], [('only coarse cells registered as small are visited, and re-checked', CCC+': correct'), ('candidates filtered on the isotropic flag', CCC+': select_best_cc_to_agglomerate, select_best_cc_to_agglomerate_whole'),
     ('guarded by the correction argument', A+': Agglomerator_Isotropic::agglomerate_one_level')],
  [('_singular_cc', 'IDs of the small isotropic coarse cells', CCC)], ['fc_to_cc with and without correction']),
P('C06', 'Bad requests are rejected before anything is touched, good ones accepted',
  'A call with a dimension other than 2 or 3, a cardinality of at most 1, cardinalities not in the order min <= goal <= max, a look-ahead depth outside 1..4, a non-positive singular threshold, an inconsistent compressed graph, inconsistent provided lines, or an unknown seed order or aspect-ratio type throws an invalid-argument error before any output argument is modified. Every request within those limits is accepted, and the tolerated slips (non-positive line limit, unknown coupling, too large singular threshold, empty provided lines) are repaired as documented.',
  ['inputs'], 'for all argument values, including each boundary value',
  'Tests probe one or two bad values per argument; an off-by-one at a boundary or a check moved behind the first write to an output is invisible to them.',
  [CO, A], [('sanity checks at the top of the entry point', CO+': agglomerate_one_level'), ('default branches of the option switches', CO+', '+A)],
  None, ['exceptions thrown by agglomerate_one_level', 'contents of the output vectors after an exception']),
P('C07', 'Inputs are left untouched and outputs do not depend on their old content',
  'No public function modifies an input container, and each public function completely replaces the content of its output containers, so that what was stored in them before the call has no influence on the result.',
  ['inputs', 'histories'], 'for every call history in which output containers are reused',
  'Tests almost always pass fresh containers; reuse of non-empty ones (the normal case in a multigrid hierarchy) is not covered.',
  [CO, UT, A, PY], [('outputs cleared or assigned before being filled', CO+', '+UT+', '+A+': export_anisotropic_lines'), ('inputs taken by const reference, graph works on copies', DG)],
  None, ['argument containers after a call']),
P('C08', 'Results are deterministic and calls are independent of each other',
  'The result of a call depends only on its arguments: no mutable global or static state, random numbers, clocks, environment, addresses or threads are involved, so concurrent calls on distinct data cannot interfere and repeating a call gives the same result. Where cells are ranked, ties are settled by index or by the order in which the cells were found, never by an address or an incomplete comparison.',
  ['inputs', 'schedules', 'histories'], 'for all repeated and concurrent calls',
  'A test run sees one process, one call order and one library build.',
  ['include/CoMMA', PY], [('no namespace-scope or static-storage mutable variables', 'include/CoMMA'), ('total orders used for sets of (index, weight)', UT)],
  None, ['results of repeated or concurrent calls']),
P('C09', 'Anisotropic lines hold only eligible cells, each at most once, in a chain',
  'A built line contains only cells that the caller declared compliant and whose face-weight ratio reaches the threshold (all compliant cells when the threshold is negative, its inverse when between 0 and 1); every cell is on at most one line, a line has at least two cells, and each cell shares a face with the next one. A line is extended only through strongly coupled faces or along the kept direction, at both ends of its starting cell.',
  ['inputs', 'configurations'], 'for every graph, compliant set, threshold, coupling and direction option',
  'Tests cover a few boundary-layer meshes; the flags protecting a cell from being used twice matter only on meshes where lines compete for cells.',
  [A, DG], [('to-treat flags set for eligible cells only and cleared when a cell joins a line', A+': build_anisotropic_lines'), ('candidates restricted to flagged graph neighbours', A+': find_cell_candidates_for_line_*'), ('eligibility', DG+': tag_anisotropic_cells')],
  [('to_treat', 'eligible and not yet on a line', A)], ['exported lines', 'lines on the fine level']),
P('C10', 'Lines are agglomerated pairwise from the right end, within the length limit',
  'Along each line consecutive cells are put together two by two (three at the end of an odd line when odd lengths are allowed), each cell at most once and never past the end of the line; the number of cells used of one line never exceeds the requested limit and the remaining cells are left to the isotropic phase. The walk starts at the end with more boundary faces, then higher priority, then lower index.',
  ['inputs', 'configurations'], 'for every line length, length limit and parity option',
  'Tests use three or four (length, limit, parity) combinations; odd limits on short lines are not among them.',
  [A], [('two-step walk with a three-cell exception', A+': Agglomerator_Anisotropic::agglomerate_one_level (loop_line)')],
  None, ['fc_to_cc on line cells', 'exported lines']),
P('C11', 'Exported lines form a valid compressed list of coarse cells',
  'After a call with anisotropy the index vector starts at 0, has one entry more than there are lines, each entry is the previous one plus the length of that line, its last entry is the length of the cell vector, and the cell vector lists the coarse cells of each line in walking order. When no line was agglomerated both vectors are empty, and the exported IDs are the final ones.',
  ['inputs', 'histories'], 'for every set of lines, including none, and every previous content of the vectors',
  'The format is checked on one or two cases; consistency of the two vectors for arbitrary numbers and lengths of lines, and with a later correction, is not.',
  [A, CO], [('single pass writing both vectors', A+': export_anisotropic_lines'), ('anisotropic coarse cells are created first and never removed', CO+', '+CCC)],
  None, ['agglomerationLines_Idx, agglomerationLines']),
P('C12', 'The C++ and Python entry points are the same function',
  'The positional entry point, the one taking argument structures and the Python one forward every argument to the slot of the same meaning, with identical defaults, and return all results unchanged. The same holds for the helper functions exposed to Python and for the values of the exposed enumerations.',
  ['inputs', 'configurations'], 'for every argument, alone or combined',
  'Swapped or dropped arguments of the same type compile and pass as long as the tests give both the same or a default value.',
  [CO, ARGS, PY], [('wrapper forwarding field by field', CO), ('constructors of the argument structures', ARGS), ('binding lambdas and keyword lists', PY)],
  None, ['the three interfaces']),
P('C13', 'Every option value selects its documented algorithm',
  'Each seed order, neighbourhood type, aspect-ratio type (per dimension), coupling, look-ahead depth and parity or direction switch selects exactly the algorithm documented for it, the numeric values of the enumerations are stable, and boundary-face counts above the dimension are treated as equal to the dimension.',
  ['configurations'], 'for every option value and both dimensions',
  'Most option values are tested in one dimension only or not at all through the entry point; mixing up two variants often gives the same result on regular meshes.',
  [CO, A, DEFS, SP], [('switches from option to class', CO+', '+A), ('selection of the initialiser', SP)], None, ['results per option value']),
P('C14', 'Any integral index and floating weight types compile; headers stand alone',
  'The library instantiates for every combination of integral index and integer types and floating weight type and rejects non-integral index types, and unsigned distance types, at compile time; no index, count or weight is cut down to a type narrower than the chosen one. Every public header can be included first and alone, in several translation units of one program.',
  ['programs', 'configurations'], 'for every instantiation and inclusion order',
  'The test program is one set of types and, per file, one inclusion order.',
  ['include/CoMMA'], [('static assertions on the template arguments', CO+', '+UT), ('includes, include guards, inline or template definitions', 'include/CoMMA')], None, ['compilation of user programs']),
P('C15', 'Seeds are taken by boundary count, then priority, then index',
  'The orders used to rank cells are strict total orders (higher weight first, lower index on ties). Queues of seeds are ranked by number of boundary faces and filled in that order, a requested level contains exactly the free cells with that many boundary faces, the one-point initialisation yields the single best cell whatever the sign of the priorities, and a seed is always found while free cells exist.',
  ['inputs', 'histories'], 'for every priority vector, boundary-count vector and state of the pool',
  'Tests use positive, mostly distinct priorities; ties, zeros, negatives and exhausted queues are rarely reached.',
  [SP, UT], [('comparison functors', UT), ('queue construction, initialisers and refill', SP)],
  [('_l_of_seeds', 'one queue per boundary count', SP), ('_cur_top_queue', 'level being consumed', SP)], ['order of coarse IDs in fc_to_cc']),
P('C16', 'Adjacency is read consistently: each index is used in its own domain',
  'Wherever the compressed graph is read, a neighbour is paired with the weight of the same edge, rows are delimited by two consecutive row pointers of the same cell, cell data are indexed by cell numbers, edge data by edge positions and coarse data by coarse numbers, and every position read or written exists.',
  ['inputs'], 'for every graph, including irregular ones, isolated cells and single cells',
  'On the uniform test meshes weights and volumes are mostly equal and every index happens to be in range, so mixing up domains goes unnoticed.',
  [DG, A, AR, CC, UT, NB], [('row/neighbour/weight iterators advanced together', DG+', '+A+', '+AR)], None, ['results on graphs with non-uniform weights']),
P('C17', 'The coarse graph is the quotient of the fine graph',
  'The coarse graph built from an agglomeration has an edge between two coarse cells exactly when some of their fine cells are adjacent, with weight the sum of the weights of the fine faces between them; volumes are summed, centres are volume-weighted averages, priorities and boundary counts are maxima over the fine cells; rows are complete, sorted and delimited by matching indices.',
  ['inputs'], 'for every fine graph and every agglomeration of it',
  'The only test uses a mesh with equal weights, unit volumes and positive priorities.',
  [UT], [('accumulation over fine cells and their edges', UT+': build_coarse_graph')], None, ['outputs of build_coarse_graph']),
P('C18', 'Aspect-ratio features are updated by their documented formulas',
  'Adding a fine cell updates measure, internal and external weights, facets, diameter, minimum edge and centre sum of a coarse cell by the exact contribution of that cell and of the faces it shares, and each aspect-ratio type returns its documented formula (lower is better) of those updated features; the features of the coarse cell passed in are not modified.',
  ['inputs', 'histories'], 'for every graph and every order in which cells are added',
  'A few hand-computed cells on unit-volume meshes are checked.',
  [AR, UT], [('update functions of the features', AR), ('one formula per type and dimension', AR)], None, ['cells chosen during growth']),
P('C19', 'Stored size and compactness of a coarse cell match its members',
  'The compactness computed for a set of cells is the minimum, over its cells, of the number of neighbours inside the set (0 for a single cell), and the size and compactness stored with a coarse cell are those of the set of fine cells it holds, at creation and after each insertion. The number of agglomerated cells equals the number of flagged cells.',
  ['inputs', 'histories'], 'for every set of cells and every sequence of insertions',
  'Only a few sets are checked; the stored values steer the correction, where an error shows only as a worse merge.',
  [CC, DG, A, CCC], [('insertion updates size and compactness with the members', CC), ('neighbour counting', DG), ('incremental compactness during growth', A)], None, ['coarse cells selected by the correction']),
P('C20', 'Wall distance and cell filtering are exact and replace their output',
  'The wall distance of a cell is the smallest number of faces to cross from a wall cell, 0 on the wall and negative if unreachable. The filter returns, in increasing order, exactly the cells whose number of neighbours plus boundary faces is among the accepted (positive) numbers.',
  ['inputs'], 'for every graph, wall and set of accepted numbers',
  'One structured mesh each.',
  [UT], [('breadth-first visit with one fixed distance per cell', UT+': compute_neighbourhood_based_wall_distance'), ('scan over all cells', UT+': filter_cells_by_n_edges')], None, ['outputs of the utilities']),
P('C21', 'Growth candidates are exact and look-ahead leaves no trace',
  'After a cell is added, the candidates are free cells within the allowed neighbourhood that are adjacent to the coarse cell and not in it, without duplicates, new ones in priority order after the older ones (extended) or taken from the most recent or oldest non-empty front (pure front). Trying out cells in look-ahead works on independent copies and changes neither the neighbourhood nor the coarse cell being grown.',
  ['inputs', 'histories'], 'for every sequence of added cells',
  'Tests follow one or two sequences on a regular mesh.',
  [NB, A], [('update of the candidate list', NB), ('cloning before look-ahead', A+': Agglomerator_Iterative::compute_best_fc_to_add')],
  [('_candidates', 'cells that may be added next', NB)], ['order in which cells are added']),
P('C22', 'Agglomeration always terminates',
  'Every call with valid arguments returns: each round of the main loop agglomerates at least the new seed, line building uses up an eligible cell or closes an end of the line at each step, and every other loop or recursion consumes a finite worklist, range or depth.',
  ['inputs', 'configurations'], 'for every graph and option combination',
  'A hang shows only on the input that triggers it.',
  [A, DG, SP, UT, NB], [('loop conditions and what each round consumes', A+', '+DG+', '+SP+', '+UT)], None, ['return of the call']),
P('C23', 'No dangling references, leaks or slicing in the object network',
  'Objects that keep a reference or pointer to caller data or to each other never outlive what they refer to; classes used through a base have virtual destructors, are shared only through owning pointers without cycles, and are copied, where copying is needed, by their dynamic type.',
  ['programs', 'inputs'], 'for every construction and destruction order of the public classes inside an agglomeration call',
  'Dangling references usually still read plausible values in a test.',
  [CO, SP, DG, NB, A], [('declaration order in the entry point', CO), ('owning pointers', A+', '+NB)], None, ['memory safety of the call']),
P('C24', 'Subgraphs stay consistent when nodes are inserted or removed',
  'Inserting or removing a node of a subgraph keeps its compressed representation valid and symmetric: row pointers, column indices, edge weights, volumes, local-to-global mapping and node count all describe the same graph, weights stay attached to their edges, and connectivity queries give the same answer whenever they are repeated.',
  ['inputs', 'histories'], 'for every sequence of insertions, removals and queries',
  'The single test removes one node without looking at the result and inserts one whose neighbours are all present with equal weights.',
  [DG, CC], [('parallel updates of the arrays', DG+': Subgraph::insert_node, remove_node'), ('depth-first search', DG+': check_connectivity')], None, ['fields of the subgraph']),
P('C25', 'Each growth step adds the best candidate by the documented ranking',
  'The cell added at each step is one of the current candidates with the most faces in common with the coarse cell, among these of the lowest neighbourhood order, and among these the first with the lowest aspect ratio; the features handed back are those of the coarse cell with that very cell added. Cells of the final coarse cell that were tried but not kept become available again and the neighbours of the kept ones are offered as next seeds.',
  ['inputs', 'configurations'], 'for every candidate list and every relation of their face counts, orders and aspect ratios',
  'Tests see only the relations occurring on a few meshes.',
  [A], [('nested comparisons and updates', A+': compute_best_fc_to_add'), ('book-keeping at the end of the growth', A+': choose_optimal_cc_and_update_seeds_pool')], None, ['sequence of added cells']),
P('C26', 'Degenerate geometry never produces meaningless aspect ratios',
  'Coincident centres, zero volumes or zero weights never lead to not-a-number or infinite aspect ratios that decide the choice of a cell.',
  ['inputs'], 'for all floating-point inputs',
  'Needs the numeric values.', [AR, UT], [('tolerances and initial values', AR)], None, ['aspect ratios']),
]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in props: f.write(json.dumps(p) + '\n')
print(len(props))
