"""The properties, what decides each of them, and the texts of properties.jsonl and MANIFEST.json."""
import sys, os
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'vcgen'))

BUDGET = {'quick': 60, 'thorough': 300}
RULE_GRAPH = ('bounded part: seeded random small (di)graphs (up to 7 vertices and about 9 edges; random, connected, complete, grid and cycle shapes; several kinds of vertex labels; every traversal) with random arguments, '
              'each result compared with a brute-force enumeration of all subgraphs against the definition; non-trivial: some and not all subgraphs qualify')
RULE = ('bounded part: enumerated small families (all families over 1 and 2 elements, all single families and sampled pairs over 3) followed by seeded random ones over up to 12 elements, '
        'each compared with a brute-force definition; non-trivial: the operands are not empty families')
TRUSTED = [
    'node table of bddc.cc: nodes, once made by getnode, stay (reference counts, garbage collection and table enlargement are not followed); getnode finds or makes the one node of its arguments (assumed contract); the set-up of the tables by bddinit and bddnewvaroflev(1)',
    'the step from ids to families: an id of the node table stands for one family and, by the lemma canon (the induction step is proved, the induction on the height is not mechanised), equal families have equal ids',
    'the family theory: definitions checked against a finite model by vcgen/selfcheck.py (thorough tier), lemmas proved from the definitions on every run',
    'the extraction (tools/astdump.cc over clang 18, vcgen/sym.py): C++ subset semantics, exceptions and memory exhaustion dropped, DEBUG/assert macros as compiled with -DNDEBUG',
    'z3 4.8.12, z3-new, cvc5 1.1.2: an unsat answer of one of them is believed',
]
ASSUME = [
    'no memory exhaustion: the node table never fills, so identifiers in static memo tables stay valid',
    'the recursion limit of the diagram package (BDD_RecurLimit) is not reached',
    'the number of elements stays within the 65535 variables of the package',
    'the bounded part is exploration with the stated bounds and is not counted as proved',
]


def K(*subs, **kw):
    """keys of contracts by prefix (lazily, the contract table needs z3)"""
    def f():
        import contracts
        out = []
        for s in subs:
            m = [k for k in contracts.CON if k.startswith(s)]
            if not m: raise KeyError(s)
            out += [k for k in m if not getattr(contracts.CON[k], 'assumed', None)]
        return list(dict.fromkeys(out))
    return f


SS = 'graphillion::setset::'
PROPS = []
BYID = {}


def prop(id, title, statement, over, text, why, files, mech, roots, bounded, level='proof', note='', **kw):
    p = dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, roots=roots, bounded=bounded, level=level, note=note, **kw)
    PROPS.append(p); BYID[id] = p


ZB = 'src/SAPPOROBDD/ZBDD.cc'; SSC = 'src/graphillion/setset.cc'; ZD = 'src/graphillion/zdd.cc'; PG = 'src/pygraphillion.cc'; SB = 'graphillion/setset_base.py'; GS = 'graphillion/graphset.py'
NONE = lambda: []

prop('P01', 'Set algebra and comparisons are exact',
     'For any two families of sets over one universe, union, intersection, difference and symmetric difference contain exactly the sets their definitions name, and equality, inclusion, disjointness and membership of a set answer exactly as for the mathematical families. The operands are left unchanged and the operators and the named methods agree, for any number of operands.',
     ['inputs'], 'all pairs (and tuples) of families of subsets of any universe, including the empty family and families that contain the empty set',
     'tests try a handful of families; the recursion over shared diagrams has cases that depend on the relative top elements, on terminals and on cached results',
     [ZB, SSC, PG, SB], [('setset operators and comparisons', SSC + ' setset::operator|,&,-,^,<=,<,>=,>,==,!=, is_disjoint, is_subset, is_superset, count, find'), ('diagram operators', 'src/SAPPOROBDD/ZBDD.h operator+,&,-'), ('Python binding', PG + ' DO_FOR_MULTI')],
     K(SS + 'operator|(', SS + 'operator&(', SS + 'operator-(', SS + 'operator^(', SS + 'operator<', SS + 'operator>', SS + 'operator==', SS + 'operator!=', SS + 'is_', SS + 'find(', SS + 'count(', SS + 'empty', SS + 'setset('),
     [('fam', 1), ('pyapi', 1)])
prop('P02', 'Join, meet, quotient and remainder follow their definitions',
     'For any two families f and g, the join is the family of all unions of a set of f with a set of g, and the meet the family of all such intersections. For non-empty g the quotient is the family of sets disjoint from every set of g whose union with each of them lies in f, and the remainder is f without the join of g and the quotient.',
     ['inputs'], 'all pairs of families over any universe (non-empty divisor)',
     'the recursions split on the higher top element and merge several partial results; wrong cases only show for particular overlaps of the two diagrams',
     [ZB, SSC], [('join', ZB + ' operator*(const ZBDD&, const ZBDD&)'), ('quotient', ZB + ' operator/'), ('meet', ZB + ' ZBDD_Meet'), ('remainder', 'src/SAPPOROBDD/ZBDD.h operator%')],
     K(SS + 'join(', SS + 'meet(', SS + 'operator/(', SS + 'operator%(', 'operator*(', 'operator/(', 'operator%(', 'ZBDD_Meet(', 'graphillion::join(', 'graphillion::meet('),
     [('fam', 1), ('pyapi', 1)])
prop('P03', 'Minimal and maximal sets are exactly the extremal members',
     'For every family, minimal() returns exactly the members that have no proper subset in the family, and maximal() exactly those that have no proper superset in it.',
     ['inputs', 'histories'], 'all families, in any order of calls (results are memoised across calls)',
     'the recursion compares the two branches of every node; a wrong comparison needs a particular nesting of members to show, and a memo table survives between calls',
     [ZD, SSC], [('minimal', ZD + ' graphillion::minimal'), ('maximal', ZD + ' graphillion::maximal'), ('subset filter', ZD + ' non_subsets, non_supersets')],
     K(SS + 'minimal', SS + 'maximal', 'graphillion::minimal', 'graphillion::maximal'), [('fam', 1), ('pyapi', 1)])
prop('P04', 'Subset and superset filters select exactly the right members',
     'For any families f and g, f.subsets(g), f.supersets(g), f.non_subsets(g) and f.non_supersets(g) are exactly the members of f that are (are not) a subset (superset) of some member of g. For an element e, supersets(e) and non_supersets(e) are the members of f that contain and do not contain e.',
     ['inputs', 'histories'], 'all pairs of families and all elements, in any order of calls',
     'the empty set, the empty family and shared sub-diagrams take separate branches of the recursions; tests cover few of their combinations',
     [ZB, ZD, SSC], [('Restrict and Permit', ZB + ' ZBDD::Restrict, ZBDD::Permit'), ('complements', ZD + ' non_subsets, non_supersets'), ('element forms', SSC + ' setset::supersets(elem_t), setset::non_supersets(elem_t)')],
     K(SS + 'subsets(', SS + 'supersets(', SS + 'non_subsets(', SS + 'non_supersets(', 'ZBDD::Restrict', 'ZBDD::Permit(', 'graphillion::non_subsets', 'graphillion::non_supersets'), [('fam', 1), ('pyapi', 1)])
prop('P05', 'Size filters keep exactly the members of the asked size',
     'For every family and every non-negative integer k, smaller(k), larger(k), set_size(k) and len(k) return exactly the members with fewer than, more than, and exactly k elements.',
     ['inputs'], 'all families, all k from 0 beyond the largest member size',
     'boundary sizes (0, the largest size, beyond it) combine with families that contain the empty set; tests try single values',
     [ZB, SSC, PG], [('size recursion', ZB + ' ZBDD::PermitSym'), ('filters', SSC + ' setset::smaller, larger, set_size')],
     K(SS + 'smaller', SS + 'larger', SS + 'set_size', 'ZBDD::PermitSym'), [('fam', 1), ('pyapi', 1)])
prop('P06', 'Complement, constraint construction, flips and hitting sets are exact',
     'complement() is the family of all subsets of the universe that are not members; constructing from include and exclude lists gives all subsets of the universe that contain every included and no excluded element; flip(e) and flip_all() toggle the element (all elements) in every member. hitting() is the family of all subsets of the universe that intersect every member.',
     ['inputs', 'configurations'], 'all families and constraint lists over universes of any size, including the empty universe constraint lists and the empty family',
     'the constructions iterate over the whole universe, so that an off-by-one shows only for elements outside the support of the family or at the ends of the universe',
     [SSC, ZD, PG], [('complement', ZD + ' graphillion::complement'), ('include/exclude', SSC + ' setset::setset(const map<string, vector<elem_t>>&, int)'), ('flips', SSC + ' setset::flip, flip_all'), ('hitting', ZD + ' graphillion::hitting')],
     K(SS + 'complement', 'graphillion::complement', SS + 'setset(const std::map', SS + 'flip', SS + 'hitting', 'graphillion::hitting', 'graphillion::sort_zdd'), [('fam', 1), ('pyapi', 1)])
prop('P07', 'Cost filter keeps exactly the members within the bound',
     'For integer costs in the 32-bit range on the elements and a 32-bit bound, cost_le returns exactly the members whose total cost is at most the bound, whatever the signs and sizes of the costs.',
     ['inputs'], 'all families, all 32-bit cost vectors including negative and zero costs, all 32-bit bounds',
     'intermediate results are cached by intervals of bounds; a wrong interval shows only when two paths reach one node with bounds in the gap',
     ['src/SAPPOROBDD/BDDCT.cc', SSC, PG, SB], [('cost recursion', 'src/SAPPOROBDD/BDDCT.cc CLE'), ('interval cache', 'src/SAPPOROBDD/BDDCT.cc BDDCT::CacheRef, CacheEnt')],
     K(SS + 'cost_le', 'CLE(', 'BDDCT::'), [('fam', 1), ('pyapi', 1)])
prop('P08', 'In-place updates change the target only, to the defined family',
     'Every in-place update (update, intersection_update, difference_update, symmetric_difference_update, add, remove, discard, pop, clear, flip and the augmented operators) leaves the target equal to its defining family, and leaves every other object unchanged: arguments, copies, objects built from the target and iterators taken before. Removing something that is not there raises KeyError and changes nothing.',
     ['inputs', 'histories'], 'all families and elements and all sequences of updates on objects that were copied from each other',
     'objects share diagrams and handles; aliasing between a copy and its source shows only in particular sequences',
     [SSC, PG, SB], [('assignment operators', SSC + ' setset::operator|=,&=,-=,^=,/=,%='), ('element and set updates', SSC + ' setset::insert, erase, clear, swap'), ('Python binding', PG + ' UPDATE_FOR_MULTI, setset_add, setset_remove, setset_discard, setset_pop')],
     K(SS + 'operator|=', SS + 'operator&=', SS + 'operator-=', SS + 'operator^=', SS + 'operator/=', SS + 'operator%=', SS + 'operator=(', SS + 'insert', SS + 'erase', SS + 'clear', SS + 'swap', SS + 'flip', 'ZBDD::operator'), [('fam', 1), ('pyapi', 1)])
prop('P09', 'Iteration yields every member exactly once, in the promised order',
     'Plain and weighted iteration, and random iteration of fewer than 10^17 members, each yield every member of the family exactly once and nothing else; min_iter and max_iter yield them in non-decreasing and non-increasing order of total weight for any weights. An iterator keeps going over the family it was taken from when the object is updated meanwhile.',
     ['inputs', 'histories'], 'all families, all weight vectors (negative, zero, equal, fractional), interleaved iterators',
     'the weighted iterator removes members one by one from a diagram using cached optima per node; wrong ties or stale values need particular weights',
     [SSC, ZD, PG, SB], [('iterators', SSC + ' setset::iterator::next, random_iterator::next, weighted_iterator::next'), ('optimum search', ZD + ' algo_b, algo_c, choose, choose_random, choose_best')],
     K(SS + 'iterator::', SS + 'random_iterator::', SS + 'weighted_iterator::', SS + 'begin', 'graphillion::choose', 'graphillion::algo_', 'graphillion::rand_xor128', 'graphillion::sort_zdd'), [('fam', 1), ('pyapi', 1)],
     note='each step is proved: it yields a member, takes it out of the rest (or goes to the next one in order), and the best of the rest for weighted iteration; weights and counts are taken as real numbers; that n steps yield n members follows by induction over the steps, which is not a machine-checked obligation; the uniform distribution of random iteration is not claimed; the Python iterator objects are bounded')
prop('P10', 'The number of sets is exact at any magnitude',
     'len() of a family is exactly its number of members, however large the number is; the built-in len() agrees wherever it fits.',
     ['inputs'], 'families from empty to more than 2^64 members',
     'counts beyond the machine word take another path through the code than the ones the tests compare',
     [SSC, 'src/subsetting/dd/PathCounter.hpp', 'src/subsetting/util/BigNumber.hpp', 'src/subsetting/spec/SapporoZdd.hpp', PG], [('counting', SSC + ' setset::size; src/subsetting/dd/PathCounter.hpp countFast'), ('big counts', 'src/subsetting/util/BigNumber.hpp')],
     NONE, [('fam', 1), ('pyapi', 1)], level='exploration', words=True, note='the numbers of any size (BigNumber: size, store, add, ==, !=, divide, decimal output) are under contract and every obligation is discharged; the count over the diagram (PathCounter::countFast) that uses them is bounded')
prop('P11', 'Probability is the total weight of the members',
     'For independent element probabilities, probability() equals the sum over the members of the product of p over the elements inside and 1-p over the elements outside, up to rounding.',
     ['inputs'], 'all families, all probability vectors over the universe including 0 and 1',
     'elements that a diagram skips contribute a factor; a wrong skipped range shows only for families whose members leave out particular elements',
     [ZD, SSC, SB, GS], [('recursion', ZD + ' graphillion::probability'), ('terminals', SSC + ' setset::probability')],
     K('graphillion::probability', 'graphillion::skip_probability', SS + 'probability'), [('fam', 1), ('pyapi', 1)], note='the contracts take doubles as real numbers; the agreement up to rounding is bounded')
prop('P12', 'Dump and load round trip',
     'Loading what dump or dumps wrote gives an equal family, through strings and through files, in the same process after any other operations; dump and dumps write the same text.',
     ['inputs', 'histories'], 'all families including the two terminals, with shared nodes',
     'node identifiers, terminals and ordering of the text are only exercised on one or two diagrams by the tests',
     [ZD, SSC, PG, 'graphillion/setset.py'], [('dump', ZD + ' graphillion::dump'), ('load', ZD + ' graphillion::load')],
     NONE, [('fam', 1), ('pyapi', 1)], level='exploration')
prop('P13', 'Reconfiguration operations produce exactly the neighbouring sets',
     'remove_some_element() is the family of all sets obtained by deleting one element from a member, add_some_element() by adding one absent element of the universe, and remove_add_some_elements() by exchanging one element for an absent one (or the same), also when the universe grows between calls.',
     ['inputs', 'histories', 'configurations'], 'all families over all universes, in histories in which elements are added to the universe between calls',
     'results are kept in a cache shared by all operations and keyed by levels that move when the universe grows',
     ['src/graphillion/reconf.cc', SSC, PG], [('neighbourhoods', 'src/graphillion/reconf.cc removeSomeElement, addSomeElement, removeAddSomeElements')],
     K('reconf::', SS + 'remove_some_element'), [('fam', 1), ('pyapi', 1)])
prop('P14', 'Results never depend on what was computed before',
     'Any operation gives the same family whatever operations were done before it on whatever objects, and equal families are always recognised as equal however they were built: cached results of one operation are never taken for another operation, other arguments or another universe.',
     ['histories'], 'all sequences of operations over shared objects, with universe growth between them',
     'all operations share one result cache and some keep static memo tables, so that a clash needs a particular earlier operation',
     [ZB, ZD, 'src/graphillion/reconf.cc', 'src/SAPPOROBDD/bddc.cc'], [('shared operation cache', ZB + ' BC_ZBDD_*; src/graphillion/reconf.cc BC_*'), ('memo tables', ZD + ' static map cache in minimal, maximal, non_subsets, non_supersets')],
     K('ZBDD::Restrict', 'ZBDD::Permit', 'operator*(', 'operator/(', 'ZBDD_Meet', 'reconf::', 'graphillion::minimal', 'graphillion::maximal', 'graphillion::non_s', 'apply(', 'bddrcache(', 'bddwcache('), [('fam', 1), ('pyapi', 1)])

prop('P15', 'Graph search returns exactly the subgraphs that satisfy the constraints',
     'GraphSet.graphs(vertex_groups, degree_constraints, num_edges, num_comps, no_loop, graphset, linear_constraints) is exactly the family of subgraphs of the universe (members of graphset when given) that satisfy all given constraints, for any combination of constraints, any universe and any traversal order.',
     ['inputs', 'configurations'], 'all graphs, vertex labels, traversals and combinations of constraints',
     'constraints interact in one frontier state per vertex; tests use one grid and single constraints, and wrong states show only for particular orders of edges and combinations',
     [GS, 'src/graphillion/graphset.cc', 'src/subsetting/spec/FrontierBasedSearch.hpp', 'src/subsetting/spec/DegreeConstraint.hpp', 'src/subsetting/spec/SizeConstraint.hpp', 'src/subsetting/spec/LinearConstraints.hpp'], [('search', 'src/graphillion/graphset.cc SearchGraphs'), ('argument translation', GS + ' GraphSet.graphs')],
     NONE, [('graphs', 3), ('big', 2), ('within', 2), ('long', 2)], level='exploration')
prop('P16', 'Each named graph class is exactly its definition',
     'trees, forests, cycles, paths, connected components, cliques, bicliques, matchings, k-matchings, b-matchings, k-factors, f-factors, regular graphs, bipartite graphs, steiner subgraphs, degree-distribution graphs, letter classes and the others each return exactly the subgraphs (members of graphset when given) that satisfy the documented definition.',
     ['inputs', 'configurations'], 'all graphs, arguments and initial graphsets',
     'degenerate arguments (absent, repeated or single vertices, degree zero) and disconnected universes are not sampled by the tests',
     [GS, 'src/subsetting/spec', 'src/graphillion/regular', 'src/graphillion/degree_distribution', 'src/graphillion/odd_edges_subgraphs'], [('named constructors', GS + ' GraphSet.trees ... letter_P_graphs')],
     NONE, [('graphs', 3), ('big', 2), ('within', 2), ('long', 2)], level='exploration')
prop('P17', 'Partitions, induced and forbidden-subgraph classes are exact',
     'partitions and balanced_partitions return exactly the (spanning) subgraphs induced by a partition that meets the bounds on the number and the weights of the components and on the cut; induced_graphs and weighted_induced_graphs exactly the connected induced subgraphs (in the weight range); the forbidden (induced) subgraph filters and the classes built on them (chordal, odd-hole-free, gridline, ...) exactly the graphs of the definition.',
     ['inputs', 'configurations'], 'all graphs, vertex weights, bounds and forbidden families',
     'the frontier state tracks components that may not be joined later; wrong merges need particular orders in which vertices leave the frontier',
     [GS, 'graphillion/graphclass.py', 'src/graphillion/partition', 'src/graphillion/induced_graphs', 'src/graphillion/forbidden_induced', 'src/graphillion/chordal'], [('partitions', 'src/graphillion/partition'), ('induced', 'src/graphillion/induced_graphs'), ('forbidden', 'src/graphillion/forbidden_induced')],
     NONE, [('graphs2', 3), ('big', 2), ('long', 1)], level='exploration')
prop('P18', 'Directed graph searches are exact',
     'directed_cycles, directed_hamiltonian_cycles, directed_st_path, rooted_forests, rooted_trees and DiGraphSet.graphs with in- and out-degree constraints return exactly the directed subgraphs (members of graphset when given) that satisfy their definitions, for any digraph with antiparallel arcs and any traversal.',
     ['inputs', 'configurations'], 'all digraphs, roots, terminals, degree constraints and traversals',
     'the tests use one or two digraphs; the frontier state depends on which arc of an antiparallel pair comes first and when a vertex leaves',
     ['graphillion/digraphset.py', 'src/graphillion/digraphs', 'src/graphillion/graphset.cc'], [('specifications', 'src/graphillion/digraphs'), ('argument translation', 'graphillion/digraphset.py')],
     NONE, [('digraphs', 3), ('big', 2), ('within', 2), ('long', 2)], level='exploration')
prop('P19', 'Conversions between edge sets and vertex sets are exact',
     'to_vertexsetset() is exactly the family of vertex sets covered by the member graphs; to_edgevertexsetset() pairs every member with its vertices; vertex-set families (independent sets, vertex covers, dominating sets, cliques) are exactly their definitions for any vertex universe.',
     ['inputs', 'configurations'], 'all graphs, families, traversals and vertex universes',
     'two numberings of elements (edges and vertices) meet in one diagram; an off-by-one or a wrong order shows only where they differ',
     ['graphillion/vertex_setset.py', GS, 'src/graphillion/variable_converter', 'src/pygraphillion.cc'], [('converter', 'src/graphillion/variable_converter'), ('vertex families', 'graphillion/vertex_setset.py')],
     NONE, [('graphs2', 2), ('within', 1)], level='exploration')
prop('P20', 'Network reliability is the probability that the terminals are connected',
     'reliability(probabilities, terminals) equals, up to rounding, the sum over all subgraphs that connect the terminals of the product of edge probabilities inside and complements outside, for any edge direction given and any traversal.',
     ['inputs', 'configurations'], 'all graphs, probabilities and terminal sets',
     'the sum is built top down over frontier states; merged states that should differ need particular graphs to show',
     [GS, 'src/graphillion/reliability'], [('reliability', 'src/graphillion/reliability')],
     NONE, [('graphs2', 3), ('big', 2), ('long', 1)], level='exploration')

prop('P21', 'Universe registration is exact and atomic',
     'After set_universe(edges, traversal, source) the universe consists of exactly the given edges (and, for undirected graphs, either direction of an edge names it), with the weights given there and 1 for the others; with traversal as-is in the given order, otherwise in an order in which every edge but the first of a component touches an earlier one and a given source is touched first; the vertices are exactly their endpoints. Weights order the iteration of later objects and are not changed by weights passed to an iteration. The universes of GraphSet, DiGraphSet, VertexSetSet and setset do not disturb one another, and a call that is rejected (a duplicate or malformed edge, an unknown traversal or source) leaves the previous universe in force, so that existing objects keep their meaning.',
     ['inputs', 'histories'], 'all edge lists, weights, traversals, sources and sequences of registrations',
     'the order and the weights are global state set by one call and read by all later ones; a few examples do not show what a rejected call leaves behind',
     ['graphillion/universe.py', GS, 'graphillion/digraphset.py'], [('set_universe', 'graphillion/universe.py'), ('set_universe', 'graphillion/digraphset.py')],
     NONE, [('univ', 1)], level='exploration')

TECH = {'proof': 'contract-based deductive verification: obligations generated from the C++ source by a clang-based VC generator, discharged by z3/cvc5',
        'exploration': 'bounded stand-in of the contracts (labelled bounded, not proved)'}
NA = []


def write():
    import json
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
    checks = []
    for p in PROPS:
        checks.append({'property': p['id'], 'quick_cmd': 'python3-vt /verif/check.py %s --tier quick' % p['id'], 'thorough_cmd': 'python3-vt /verif/check.py %s --tier thorough' % p['id'],
                       'technique': p.get('technique', TECH[p['level']]), 'level': p['level'],
                       'level_note': p['note'] or ('every obligation of the functions listed in the evidence is discharged without bounds; creation of nodes in the diagram package is assumed; bounded differential runs cover the rest of the stack' if p['level'] == 'proof' else 'bounded')})
    m = {'version': 1, 'setup_cmd': 'python3-vt /verif/setup.py', 'checks': checks, 'not_applicable': NA, 'notes': 'See DESIGN.md.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')


if __name__ == '__main__': write()
