"""Partitions, induced subgraphs, graph classes, vertex families, reliability."""
import itertools, random
from core import Mismatch, check, eq, Skip
from gcore import G, gspec
from graphs import setup, flipped, compare
from graphillion import GraphSet, Universe, VertexSetSet, EdgeVertexSetSet, GraphClass


def comps(g, m):
    """components over all vertices: list of vertex lists"""
    c = g.info(m)[1]; d = {}
    for v in range(g.k): d.setdefault(c[v], []).append(v)
    return list(d.values())


def induced(g, vs):
    """the mask of the subgraph induced by the vertex numbers vs"""
    s = set(vs); m = 0
    for i, (a, b) in enumerate(g.pairs):
        if a in s and b in s: m |= 1 << i
    return m


def closed(g, m):
    """every edge inside a component is present"""
    c = g.info(m)[1]
    return all(m >> i & 1 or c[a] != c[b] for i, (a, b) in enumerate(g.pairs))


def run_partition(c):
    g, r = setup(c); op = r.choice(('p', 'b', 'b', 'r', 'r'))
    if op == 'p':
        a = r.randint(1, 4); b = a + r.randint(0, 3)
        kw = r.choice(({}, {'num_comp_lb': a}, {'num_comp_ub': b}, {'num_comp_lb': a, 'num_comp_ub': b}))
        lo, hi = kw.get('num_comp_lb', 1), kw.get('num_comp_ub', 32767)
        res = GraphSet.partitions(**kw)
        want = frozenset(m for m in g.masks() if closed(g, m) and lo <= len(comps(g, m)) <= hi)
        compare(g, res, want, 'partitions(%r)' % kw); return len(want) > 0
    kw = {}; w = [1] * g.k
    if r.random() < .8:
        wl = {}
        big = r.random() < .1; huge = r.random() < .1
        for v in g.vs:
            if r.random() < .8: wl[v] = r.randint(0 if r.random() < .2 else 1, 5) * (1000003 if big else 1)
            if v in wl and huge and r.random() < .5: wl[v] = r.choice((2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 30, 2 ** 31 + 5, r.randrange(2 ** 32)))
        for v, x in wl.items(): w[g.vi[v]] = x
        kw['weight_list'] = wl
    if r.random() < .5: kw['num_comps'] = r.randint(1, 4)
    tot = sum(w)
    if r.random() < .6: kw['lower'] = r.randint(0, max(1, tot // 2))
    if r.random() < .6: kw['upper'] = kw.get('lower', 0) + r.randint(0, tot)
    for k in ('lower', 'upper'):
        if k in kw: kw[k] = min(kw[k], 2 ** 32 - 1)
    if 'lower' in kw: kw['lower'] = min(kw['lower'], kw.get('upper', 2 ** 30 - 1))
    if op == 'r': kw['ratio'] = r.choice((1.0, 1.0, 1.5, 2.0, 2.5, 3.0, 5.0, 1.1))
    lo, hi = kw.get('lower', 0), kw.get('upper', 4294967295 // 4)
    def ok(m):
        if not closed(g, m): return False
        cs = comps(g, m)
        if 'num_comps' in kw and len(cs) != kw['num_comps']: return False
        ws = [sum(w[v] for v in x) for x in cs]
        if not all(lo <= x <= hi for x in ws): return False
        return op != 'r' or float(max(ws)) <= float(min(ws)) * kw['ratio']
    want = frozenset(m for m in g.masks() if ok(m))
    compare(g, GraphSet.balanced_partitions(**kw), want, 'balanced_partitions(%r)' % kw)
    return len(want) > 0


def run_induced(c):
    g, r = setup(c); kw = {}; w = [1] * g.k
    if r.random() < .4:
        want = frozenset(m for n in range(2, g.k + 1) for vs in itertools.combinations(range(g.k), n) for m in [induced(g, vs)] if all(g.info(m)[0][v] for v in vs) and len(g.info(m)[2]) == 1)
        compare(g, GraphSet.induced_graphs(), want, 'induced_graphs()'); return True
    if r.random() < .8:
        wl = {v: r.randint(0, 5) for v in g.vs if r.random() < .8}; huge = r.random() < .12
        for v in wl:
            if huge and r.random() < .5: wl[v] = r.choice((2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 30, 2 ** 31 + 5, r.randrange(2 ** 32)))
        for v, x in wl.items(): w[g.vi[v]] = x
        kw['weight_list'] = wl
    if r.random() < .7: kw['lower'] = r.randint(0, sum(w) // 2 + 1)
    if r.random() < .7: kw['upper'] = kw.get('lower', 0) + r.randint(0, sum(w) + 1)
    for k in ('lower', 'upper'):
        if k in kw: kw[k] = min(kw[k], 2 ** 32 - 1)
    if 'lower' in kw: kw['lower'] = min(kw['lower'], kw.get('upper', 2 ** 30 - 1))
    lo, hi = kw.get('lower', 0), kw.get('upper', 4294967295 // 2)
    want = frozenset(m for n in range(2, g.k + 1) for vs in itertools.combinations(range(g.k), n) for m in [induced(g, vs)] if all(g.info(m)[0][v] for v in vs) and len(g.info(m)[2]) == 1 and lo <= sum(w[v] for v in vs) <= hi)
    compare(g, GraphSet.weighted_induced_graphs(**kw), want, 'weighted_induced_graphs(%r)' % kw)
    return len(want) > 0


def inds(g, m):
    """edge sets of the induced subgraphs of the subgraph m"""
    deg = g.info(m)[0]; vs = [v for v in range(g.k) if deg[v]]
    return {m & induced(g, s) for n in range(len(vs) + 1) for s in itertools.combinations(vs, n)}


def run_forbidden(c):
    g, r = setup(c); p = r.choice((.03, .1, .3))
    ms = frozenset(m for m in g.masks() if r.random() < p)
    gs = GraphSet([[flipped(r, e) for e in g.edges(m)] for m in ms])
    want = frozenset(m for m in g.masks() if not (inds(g, m) & ms))
    compare(g, GraphSet.forbidden_induced_subgraphs(gs), want, 'forbidden_induced_subgraphs(%s)' % [g.edges(m) for m in ms])
    compare(g, gs, ms, 'the argument of forbidden_induced_subgraphs')
    return 0 < len(want)


def shape(g, m, ds):
    return sorted(d for d in g.info(m)[0] if d) == sorted(ds)


def cyc(g, m, ns):
    d = [x for x in g.info(m)[0] if x]
    return len(g.info(m)[2]) == 1 and all(x == 2 for x in d) and len(d) in ns


CLS = {
    'claw': lambda g, m: shape(g, m, (1, 1, 1, 3)), 'diamond': lambda g, m: shape(g, m, (2, 2, 3, 3)), 'gem': lambda g, m: shape(g, m, (2, 2, 3, 3, 4)),
    'odd_hole': lambda g, m: cyc(g, m, range(5, 99, 2)), 'p4': lambda g, m: shape(g, m, (1, 1, 2, 2)), '2k2': lambda g, m: shape(g, m, (1, 1, 1, 1)), 'w4': lambda g, m: shape(g, m, (3, 3, 3, 3, 4)),
    'c4': lambda g, m: cyc(g, m, (4,)), 'c5': lambda g, m: cyc(g, m, (5,)), 'hole': lambda g, m: cyc(g, m, range(4, 99)), 'hole6': lambda g, m: cyc(g, m, range(6, 99)),
}
FREE = {'claw_free_graphs': ['claw'], 'diamond_free_graphs': ['diamond'], 'gem_free_graphs': ['gem'], 'odd_hole_free_graphs': ['odd_hole'], 'chordal_graphs': ['hole'], 'cographs': ['p4'], 'chordal_bipartite_graphs': ['hole6', 'bip'],
        'split_graphs': ['2k2', 'c4', 'c5'], 'block_graphs': ['hole', 'diamond'], 'ptolemaic_graphs': ['hole', 'gem'], 'threshold_graphs': ['2k2', 'c4', 'p4'], 'gridline_graphs': ['claw', 'diamond', 'odd_hole'],
        'domino_graphs': ['w4', 'claw', 'gem'], 'linear_domino_graphs': ['claw', 'diamond']}
ARE = {'claw_graphs': 'claw', 'diamond_graphs': 'diamond', 'gem_graphs': 'gem', 'odd_hole_graphs': 'odd_hole'}


def run_class(c):
    g, r = setup(c); op = c['op']
    res = getattr(GraphClass, op)()
    if op in ARE: want = frozenset(m for m in g.masks() if CLS[ARE[op]](g, m))
    else:
        fs = FREE[op]
        def ok(m):
            if 'bip' in fs and not g.bip(m): return False
            return not any(CLS[f](g, x) for x in inds(g, m) for f in fs if f != 'bip')
        want = frozenset(m for m in g.masks() if ok(m))
    compare(g, res, want, op)
    return len(want) < 1 << g.m


def vmask(g, vs): return frozenset(g.vi[v] for v in vs)


def run_vsets(c):
    """independent sets, dominating sets, vertex covers and cliques of a graph on the vertices of the universe"""
    g, r = setup(c); op = r.choice(('independent_sets', 'dominating_sets', 'vertex_covers', 'cliques'))
    allp = list(itertools.combinations(g.vs, 2)); es = [flipped(r, e) for e in (g.es if r.random() < .5 else r.sample(allp, r.randint(0, len(allp))))]
    eq(set(VertexSetSet.universe()), set(g.vs), 'vertex universe')
    dist = 1; a = [es]
    if op in ('independent_sets', 'dominating_sets') and r.random() < .6: dist = r.randint(1, 4); a.append(dist)
    D = [[0 if i == j else 99 for j in range(g.k)] for i in range(g.k)]
    for x, y in es: D[g.vi[x]][g.vi[y]] = D[g.vi[y]][g.vi[x]] = 1
    for k in range(g.k):
        for i in range(g.k):
            for j in range(g.k): D[i][j] = min(D[i][j], D[i][k] + D[k][j])
    def ok(s):
        if op == 'independent_sets': return all(D[i][j] > dist for i in s for j in s if i != j)
        if op == 'dominating_sets': return all(any(D[i][j] <= dist for j in s) for i in range(g.k))
        if op == 'vertex_covers': return all(D[i][j] != 1 or i in s or j in s for i in range(g.k) for j in range(g.k))
        return all(D[i][j] == 1 for i in s for j in s if i != j)
    want = {frozenset(s) for n in range(g.k + 1) for s in itertools.combinations(range(g.k), n) if ok(s)}
    res = getattr(VertexSetSet, op)(*a)
    l = [vmask(g, x) for x in res]
    eq(set(l), want, '%s(%s)' % (op, ', '.join(map(repr, a)))); eq(len(l), len(want), 'number of vertex sets'); eq(res.len(), len(want), 'len of ' + op)
    return len(want) > 1


def run_conv(c):
    """graph sets to vertex sets and to edge-vertex sets"""
    g, r = setup(c); p = r.choice((0, .1, .4, 1))
    ms = [m for m in g.masks() if r.random() < p]
    if r.random() < .15: ms = [0]
    gs = GraphSet([[flipped(r, e) for e in g.edges(m)] for m in ms])
    touched = lambda m: [g.vs[v] for v in range(g.k) if g.info(m)[0][v]]
    vs = gs.to_vertexsetset()
    check(isinstance(vs, VertexSetSet), 'type', VertexSetSet, type(vs))
    want = {vmask(g, touched(m)) for m in ms}
    l = [vmask(g, x) for x in vs]
    eq(set(l), want, 'to_vertexsetset of %s' % [g.edges(m) for m in ms]); eq(len(l), len(want), 'number of vertex sets')
    check(vs == VertexSetSet([[g.vs[i] for i in s] for s in want]), 'equal to the same family built directly')
    ev = gs.to_edgevertexsetset()
    check(isinstance(ev, EdgeVertexSetSet), 'type', EdgeVertexSetSet, type(ev))
    def key(x):
        e = [y for y in x if isinstance(y, tuple) and y in Universe.edge_vertex_kind and Universe.edge_vertex_kind[y]]
        return g.mask(e), vmask(g, [y for y in x if y not in e])
    want = {(m, vmask(g, touched(m))) for m in ms}
    l = [key(x) for x in ev]
    eq(set(l), want, 'to_edgevertexsetset of %s' % [g.edges(m) for m in ms]); eq(len(l), len(want), 'number of edge-vertex sets')
    back = EdgeVertexSetSet([[flipped(r, e) for e in g.edges(m)] + touched(m) for m in ms])
    check(ev == back, 'equal to the same family built directly')
    compare(g, gs, frozenset(ms), 'the converted graph set')
    return len(ms) > 0


def run_reliab(c):
    g, r = setup(c)
    ps = [1.0] * g.m; d = {}
    for i, e in enumerate(g.es):
        if r.random() < .85: ps[i] = r.choice((0., .25, .5, .75, .9, 1., r.random())); d[flipped(r, e)] = ps[i]
    ts = r.sample(g.vs, r.randint(1, len(g.vs))); ti = [g.vi[v] for v in ts]
    want = 0.
    for m in g.masks():
        c_ = g.info(m)[1]
        if len({c_[t] for t in ti}) == 1:
            q = 1.
            for i in range(g.m): q *= ps[i] if m >> i & 1 else 1 - ps[i]
            want += q
    got = GraphSet.reliability(d, ts)
    if not abs(got - want) < 1e-9: raise Mismatch('reliability(%r, %r) in %s: expected %r, got %r' % (d, ts, g.es, want, got))
    return 0 < want < 1


KINDS = {'P17': ['partition', 'partition', 'induced', 'forbidden', 'class'], 'P19': ['vsets', 'conv'], 'P20': ['reliab']}


def run(c): return globals()['run_' + c['k']](c)


def cases(prop, rng, tier, idx, nw):
    ks = KINDS[prop]
    while True:
        k = rng.choice(ks); c = {'k': k, 'g': gspec(rng, maxm=9 if k == 'class' else 8, big=.06 if k in ('partition', 'induced', 'reliab') else 0), 'r': rng.randrange(1 << 30)}
        if k == 'class': c['op'] = rng.choice(sorted(FREE) + sorted(ARE))
        yield c
