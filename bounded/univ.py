"""Registration of universes: what set_universe() promises, against the list that was given."""
import itertools, random
from core import Mismatch, check, eq, Skip
from gcore import G, gspec
from digraphs import D
from graphillion import GraphSet, DiGraphSet, Universe, VertexSetSet, setset
from graphillion.edgevertex_setset import EdgeVertexSetSet

TRAV = ('greedy', 'bfs', 'dfs', 'as-is')


def fails(f, what, *exc):
    try: f()
    except exc or Exception: return
    except BaseException as e: raise Mismatch('%s: raised %s: %s' % (what, type(e).__name__, e))
    raise Mismatch('%s: no exception' % what)


def spec(r, es, p):
    """the edges, some of them with a weight"""
    return [e + (r.choice((2, -3, 5, 1, 0, 4, -1)),) if r.random() < p else e for e in es]


def srt(l): return sorted(l, key=repr)


def esum(w, es): return sum(w.get(e, 1) for e in es)


def iteration(r, cls, edges, w, what, fam=None):
    """the weights of the universe (1 where there is none) order the iteration"""
    n = len(edges); F = {frozenset(r.sample(range(n), r.randint(0, min(n, 4)))) for _ in range(r.randint(1, 6))}
    mem = [[edges[i] for i in sorted(s)] for s in F]; gs = cls(mem); srts = sorted(esum(w, m) for m in mem)
    for it, want in ((gs.min_iter, srts), (gs.max_iter, srts[::-1])):
        got = [list(x) for x in it()]
        eq([esum(w, m) for m in got], want, '%s: weights along %s of %r' % (what, it.__name__, mem))
        eq({frozenset(m) for m in got}, {frozenset(m) for m in mem}, '%s: members along %s' % (what, it.__name__))
    eq({frozenset(x) for x in gs}, {frozenset(m) for m in mem}, what + ': members')
    eq(len(gs), len(F), what + ': len')
    return gs, {frozenset(m) for m in mem}


def state_u():
    return (Universe.edge_universe(), Universe.vertex_universe(), Universe.edge_vertex_universe(), set(Universe.vertices), dict(Universe.weights), VertexSetSet.universe(), GraphSet.universe())


def state_d(): return (DiGraphSet.universe(),)


def set_u(r, g, wv=True):
    """registers the universe of g, checks it and returns (edges, edge weights, vertex weights)"""
    es = spec(r, g.es, r.choice((0, .4, 1))); w = {e[:2]: e[2] for e in es if len(e) > 2}; vw = {}
    trav = 'as-is' if g.trav == 'as-is' else r.choice(TRAV); kw = {'traversal': trav}; src = None
    if trav != 'as-is' and r.random() < .5: src = kw['source'] = r.choice(g.vs)
    if r.random() < .4:
        W = {}
        if r.random() < .7: W.update({v: r.choice((2, -1, 3, 0, 1)) for v in g.vs if r.random() < .6})
        if r.random() < .7 and not any(isinstance(v, tuple) for v in g.vs): W.update({e[:2]: r.choice((7, -2, 2)) for e in es if r.random() < .5})
        for e in es:
            if len(e) == 2 and e in W: w[e] = W[e]
        vw = {v: x for v, x in W.items() if v in g.vs}; kw['weights'] = W
    what = 'set_universe(%r, %r)' % (es, kw)
    if len(kw) == 1 and trav == 'greedy' and r.random() < .5: GraphSet.set_universe(es)
    elif 'weights' in kw: Universe.set_universe(es, **kw)
    else: r.choice((GraphSet, Universe)).set_universe(es, **kw)
    want = [e + (w[e],) if e in w else e for e in g.es]
    for nm, got in (('edge_universe', Universe.edge_universe()), ('GraphSet.universe', GraphSet.universe())):
        if trav == 'as-is': eq(got, want, '%s: %s()' % (what, nm))
        else: eq(srt(got), srt(want), '%s: %s() (sorted)' % (what, nm))
    first = GraphSet.universe()[0]
    if trav != 'as-is': check((src if src is not None else min(g.vs)) in first[:2], what + ': the traversal starts at the source', src, first)
    for nm, got in (('vertex_universe', Universe.vertex_universe()), ('VertexSetSet.universe', VertexSetSet.universe())):
        eq(srt(got), srt((v, vw[v]) if vw.get(v, 1) != 1 else v for v in g.vs), '%s: %s()' % (what, nm))
    ev = Universe.edge_vertex_universe()
    if not any(isinstance(v, tuple) for v in g.vs): eq(srt(ev), srt(g.es + g.vs), what + ': edge_vertex_universe()')
    return what, w, vw


def u_reg(r, c):
    g = G(c['g']); what, w, vw = set_u(r, g)
    iteration(r, GraphSet, g.es, w, what)
    if len(g.vs) and not any(isinstance(v, tuple) for v in g.vs): iteration(r, VertexSetSet, g.vs, vw, what + ' (vertices)')
    # an edge is accepted in either direction, with or without a weight, a foreign one is not
    for a, b in g.es:
        x = GraphSet([[(a, b)]])
        for y in ([(b, a)], [(a, b, 9)], [(b, a, 9)]): check(GraphSet([y]) == x, '%s: GraphSet([%r]) is the same as in the direction of the universe' % (what, y))
        check((b, a) in x and (a, b) in x, what + ': an edge is found in either direction')
    allv = g.vs; bad = [p for p in itertools.permutations(allv, 2) if p not in g.ei]
    n0 = GraphSet.universe(); s0 = state_u()
    for p in bad[:2]:
        fails(lambda: GraphSet([[p]]), '%s: GraphSet([[%r]])' % (what, p), KeyError)
        fails(lambda: GraphSet({'include': [p]}), '%s: GraphSet(include %r)' % (what, p), KeyError)
    eq(state_u(), s0, what + ': universe after a rejected edge')
    W = {e: r.randint(-3, 3) for e in g.es}; gs = GraphSet([[e] for e in g.es])
    eq([sum(W[e] for e in x) for x in gs.min_iter(W)], sorted(W.values()), what + ': min_iter(weights)')
    eq(state_u(), s0, what + ': the weights given to an iteration do not overwrite those of the universe')


def bad_u(r, g):
    es = list(g.es)
    def reject(f, what, *exc):
        s = state_u(); fails(f, what, *exc); eq(state_u(), s, 'universe after the rejected ' + what)
    e = r.choice(es); o = r.randrange(4)
    if o == 0: reject(lambda: Universe.set_universe(es + [e], traversal=r.choice(TRAV)), 'set_universe with %r twice' % (e,), KeyError)
    elif o == 1: reject(lambda: Universe.set_universe([e + (3,)] + es[:0] + [(e[1], e[0])], traversal=r.choice(TRAV)), 'set_universe with %r in both directions' % (e,), KeyError)
    elif o == 2: reject(lambda: Universe.set_universe(es, traversal='nosuch'), 'set_universe(traversal=nosuch)', ValueError)
    else: reject(lambda: Universe.set_universe([]), 'set_universe([])', ValueError)


def bad_d(r, g):
    es = list(g.es); e = r.choice(es); s = state_d()
    def reject(f, what, *exc): fails(f, what, *exc); eq(state_d(), s, 'directed universe after the rejected ' + what)
    if r.random() < .5: reject(lambda: DiGraphSet.set_universe(es + [e], traversal=r.choice(TRAV)), 'DiGraphSet.set_universe with %r twice' % (e,), KeyError)
    else: reject(lambda: DiGraphSet.set_universe(es, traversal='nosuch'), 'DiGraphSet.set_universe(traversal=nosuch)', ValueError)


def u_reject(r, c):
    g = G(c['g']); h = G(c['h']); what, w, vw = set_u(r, g)
    gs, mem = iteration(r, GraphSet, g.es, w, what)
    for _ in range(r.randint(1, 3)): bad_u(r, h)
    eq({frozenset(x) for x in gs}, mem, what + ': members after a rejected registration')
    iteration(r, GraphSet, g.es, w, what + ', after a rejected registration')
    k = len(Universe.vertices); t = GraphSet.trees(is_spanning=True)
    for x in itertools.islice(iter(t), 20): eq({v for e in x for v in e}, set(g.vs), what + ': spanning trees after a rejected registration')


def u_digraph(r, c):
    d = D(c['d']); es = spec(r, d.es, r.choice((0, .4, 1))); w = {e[:2]: e[2] for e in es if len(e) > 2}; trav = r.choice(TRAV); kw = {'traversal': trav}; src = None
    if trav != 'as-is' and r.random() < .5: src = kw['source'] = r.choice(d.vs)
    what = 'DiGraphSet.set_universe(%r, %r)' % (es, kw)
    DiGraphSet.set_universe(es, **kw); got = DiGraphSet.universe()
    if trav == 'as-is': eq(got, es, what + ': universe()')
    else: eq(srt(got), srt(es), what + ': universe() (sorted)'); check((src if src is not None else min(d.vs)) in got[0][:2], what + ': starts at the source', src, got[0])
    gs, mem = iteration(r, DiGraphSet, d.es, w, what)
    for a, b in d.es:
        x = DiGraphSet([[(a, b)]])
        eq([list(y) for y in x], [[(a, b)]], '%s: DiGraphSet([[%r]])' % (what, (a, b)))
        if (b, a) in d.ei: check(DiGraphSet([[(b, a)]]) != x, what + ': antiparallel arcs are different', (a, b))
    bad_d(r, d); eq({frozenset(x) for x in gs}, mem, what + ': members after a rejected registration')
    iteration(r, DiGraphSet, d.es, w, what + ', after a rejected registration')


def u_switch(r, c):
    """the universes of the classes are independent; each one answers for its own after the others change"""
    g, h, d = G(c['g']), G(c['h']), D(c['d'])
    what, w, vw = set_u(r, g); elems = r.sample(['p', 'q', 'r', 's', 7, 8, (1, 2), 'v'], r.randint(2, 6))
    gs, mem = iteration(r, GraphSet, g.es, w, what); s = state_u()
    DiGraphSet.set_universe(d.es, traversal=r.choice(TRAV)); sd = state_d()
    ds, dmem = iteration(r, DiGraphSet, d.es, {}, 'DiGraphSet after ' + what)
    setset.set_universe(elems); eq(setset.universe(), elems, 'setset.universe()'); ss, smem = iteration(r, setset, elems, {}, 'setset')
    eq(state_u(), s, 'Universe after DiGraphSet.set_universe and setset.set_universe'); eq(state_d(), sd, 'DiGraphSet.universe() after setset.set_universe')
    eq({frozenset(x) for x in gs}, mem, 'a GraphSet after DiGraphSet.set_universe and setset.set_universe')
    eq({frozenset(x) for x in ds}, dmem, 'a DiGraphSet after setset.set_universe')
    what2, w2, vw2 = set_u(r, h); iteration(r, GraphSet, h.es, w2, what2 + ' after ' + what)
    eq(state_d(), sd, 'DiGraphSet.universe() after set_universe'); eq(setset.universe(), elems, 'setset.universe() after set_universe')
    eq({frozenset(x) for x in ds}, dmem, 'a DiGraphSet after set_universe'); eq({frozenset(x) for x in ss}, smem, 'a setset after set_universe')
    fails(lambda: setset.set_universe(elems + elems[:1]), 'setset.set_universe with an element twice', ValueError); eq(setset.universe(), elems, 'setset.universe() after a rejected registration')


def u_vertex(r, c):
    g = G(c['g']); what, w, vw = set_u(r, g)
    if any(isinstance(v, tuple) for v in g.vs): raise Skip()
    vs = g.vs[:]; r.shuffle(vs); vs = vs[:max(1, r.randint(len(vs) - 1, len(vs)))]; es = state_u()[0]
    arg = []; want = {}
    for v in vs:
        x = r.random()
        if x < .3: wt = r.choice((2, -1, 0, 1)); arg.append((v, wt)); want[v] = wt
        elif x < .6: arg.append((v,)); want[v] = 1
        else: arg.append(v); want[v] = 1
    W = None
    if r.random() < .3:
        W = {v: r.choice((2, 3, -2)) for v in vs if r.random() < .5}
        for a in arg:
            if not isinstance(a, tuple) and a in W: want[a] = W[a]
            elif isinstance(a, tuple) and len(a) == 1 and a[0] in W: want[a[0]] = W[a[0]]
    what = 'set_vertex_universe(%r, %r)' % (arg, W)
    if W is None: r.choice((VertexSetSet.set_universe, Universe.set_vertex_universe))(arg)
    else: Universe.set_vertex_universe(arg, W)
    eq(Universe.vertex_universe(), [(v, want[v]) if want[v] != 1 else v for v in vs], what + ': vertex_universe()')
    eq(Universe.edge_universe(), es, what + ': the edges stay')
    iteration(r, VertexSetSet, vs, want, what); s = state_u()
    fails(lambda: Universe.set_vertex_universe(arg + [arg[0]]), what + ' with an element twice', ValueError); eq(state_u(), s, 'universe after the rejected registration of vertices')
    fails(lambda: Universe.set_vertex_universe(arg[1:] + [('x', 5), ('y', 1, 2)]), what + ' with a malformed vertex', TypeError); eq(state_u(), s, 'universe after the rejected registration of vertices')
    iteration(r, VertexSetSet, vs, want, what + ', after a rejected registration')


OPS = ['reg', 'reg', 'reject', 'digraph', 'switch', 'vertex']


def run(c):
    r = random.Random(c['r']); globals()['u_' + c['k']](r, c); return True


def cases(prop, rng, tier, idx, nw):
    dsp = lambda: {'seed': rng.randrange(1 << 30), 'k': rng.randint(2, 6), 'm': rng.randint(1, 10), 'shape': rng.randint(0, 3)}
    while True:
        yield {'k': rng.choice(OPS), 'g': gspec(rng, 10, 8), 'h': gspec(rng, 10, 8), 'd': dsp(), 'r': rng.randrange(1 << 30)}
