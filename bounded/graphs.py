"""Graph searches against enumeration of all subgraphs."""
import itertools, random
from core import Mismatch, check, eq, Skip
from gcore import G, gspec
from graphillion import GraphSet, Universe


def setup(c):
    g = G(c['g'])
    Universe.set_universe(g.es, traversal=g.trav)
    r = random.Random(c['r'])
    return g, r


def flipped(r, e): return (e[1], e[0]) if r.random() < .4 else e


def space(g, r, c):
    """a search space: None or a family of subgraphs"""
    if c.get('sp', 0) == 0: return None, None
    p = r.choice((.3, .7, 1))
    ms = frozenset(m for m in g.masks() if r.random() < p)
    return GraphSet([[flipped(r, e) for e in g.edges(m)] for m in ms]), ms


def compare(g, got, want, what):
    check(isinstance(got, GraphSet), what + ' gives a GraphSet', GraphSet, type(got))
    l = [g.mask(x) for x in got]
    s = frozenset(l)
    if len(s) != len(l): raise Mismatch('%s: iteration repeats a graph' % what)
    if s != want:
        a = sorted(want - s)[:3]; b = sorted(s - want)[:3]
        raise Mismatch('%s in the graph %s (%s): missing %s, too many %s (%d expected, %d found)' % (what, g.es, g.trav, [g.edges(m) for m in a], [g.edges(m) for m in b], len(want), len(s)))
    eq(got.len(), len(want), 'number of graphs: ' + what)
    if Universe.e_objtable.num_elems() != g.m: raise Mismatch('%s changes the universe' % what)


BIG = (2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 1, 2 ** 32 + 2, 2 ** 62)


def rngc(r, hi):
    """a constraint: (argument, accepted values)"""
    k = r.randrange(5)
    if r.random() < .06:   # numbers that do not fit in the C types
        big = r.choice((2 ** 15, 2 ** 16, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 62)) + r.randint(-1, 3)
        if k == 0: return big, {big}
        if k == 1: return range(big, big + r.randint(1, 9)), ()
        a = r.randint(0, hi); st = r.choice((1, 1, 2, 2 ** 32, big)); R = range(a, max(a + 1, big), st)
        return R, set(R[:40])
    if k == 0: x = r.randint(0, hi); return x, {x}
    if k == 1: x = r.randint(0, hi); return [x], {x}
    a = r.randint(0, hi); st = r.randint(1, 3); b = a + st * r.randint(1, 3)
    if k == 2 and r.random() < .5: a = 0
    R = range(a, b, st)
    if len(R) == 0: R = range(a, a + 1)
    return R, set(R)


def run_search(c):
    """GraphSet.graphs with any combination of constraints"""
    g, r = setup(c)
    kw = {}; tests = []; what = []
    parts = c['parts']
    if 'vg' in parts:
        vs = g.vs[:]; r.shuffle(vs)
        groups = []
        for _ in range(r.randint(0, 3)):
            n = r.randint(1, 3); gr, vs = vs[:n], vs[n:]
            if gr: groups.append(gr)
        nc = r.choice((0, 0, 1, 1, 2))
        vg = groups + [[] for _ in range(nc)]; r.shuffle(vg)
        kw['vertex_groups'] = vg
        gi = [[g.vi[v] for v in gr] for gr in groups]
        def tv(m):
            deg, comp, ec, acy = g.info(m)
            roots = []
            for gr in gi:
                cs = {comp[v] for v in gr}
                if len(cs) != 1: return False
                roots.append(cs.pop())
            if len(set(roots)) != len(roots): return False
            free = [x for x in ec if x not in roots]
            return len(free) == nc if (groups or nc) else True
        tests.append(tv)
    if 'dc' in parts:
        dc = {}; acc = {}
        for v in g.vs:
            if r.random() < (.5 if len(g.vs) > 4 else .8): dc[v], acc[g.vi[v]] = rngc(r, 3)
        kw['degree_constraints'] = dc
        tests.append(lambda m: all(g.info(m)[0][v] in a for v, a in acc.items()))
    if 'ne' in parts:
        ne, acce = rngc(r, g.m); kw['num_edges'] = ne
        tests.append(lambda m: bin(m).count('1') in acce)
    if 'nl' in parts:
        kw['no_loop'] = True
        tests.append(lambda m: g.info(m)[3])
    if 'lc' in parts:
        lcs = []; acc2 = []
        for _ in range(r.choice((1, 1, 2, 2, 3, 4))):
            ws = {}
            ex = []
            miss = r.choice((0, .25, .5, .8)); a = b = None
            if r.random() < .3: a, b = sorted((r.randint(0, g.m), r.randint(0, g.m)))      # a constraint over some consecutive edges
            for i, e in enumerate(g.es):
                x = r.random()
                if x < miss or (a is not None and not a <= i < b): continue
                if r.random() < .33: ws[i] = 1; ex.append(flipped(r, e))
                else: w = r.choice((-3, -2, -1, 0, 1, 2, 3, .5)); ws[i] = w; ex.append(flipped(r, e) + (w,))
            if not ex: continue
            r.shuffle(ex)
            lo = r.randint(-4, 5); hi = lo + r.choice((0, 1, 2, 5))
            lcs.append((ex, (lo, hi))); acc2.append((ws, lo, hi))
        kw['linear_constraints'] = lcs
        tests.append(lambda m: all(lo <= sum(w for i, w in ws.items() if m >> i & 1) <= hi for ws, lo, hi in acc2))
    gs, ms = space(g, r, c)
    if gs is not None:
        tests.append(lambda m: m in ms)
        if r.random() < .5: res = gs.graphs(**kw)
        else: res = GraphSet.graphs(graphset=gs, **kw)
    else: res = GraphSet.graphs(**kw)
    want = frozenset(m for m in g.masks() if all(t(m) for t in tests))
    compare(g, res, want, 'graphs(%s)' % ', '.join('%s=%r' % kv for kv in kw.items()))
    if gs is not None: compare(g, gs, ms, 'search space after graphs()')
    return len(want) > 0


def conn(g, m): return len(g.info(m)[2]) == 1


def degs(g, m): return g.info(m)[0]


def T(c): return c


def run_named(c):
    """the named classes"""
    g, r = setup(c); op = c['op']
    gs, ms = space(g, r, c)
    sp = (lambda m: True) if ms is None else (lambda m: m in ms)
    call = lambda *a, **k: (getattr(gs, op)(*a, **k) if r.random() < .5 else getattr(GraphSet, op)(*a, graphset=gs, **k)) if gs is not None else getattr(GraphSet, op)(*a, **k)
    tree = lambda m: conn(g, m) and g.info(m)[3]
    touches = lambda m, vs: all(degs(g, m)[g.vi[v]] > 0 for v in vs)
    span = lambda m: all(d > 0 for d in degs(g, m))
    pick = lambda n: r.sample(g.vs, min(n, len(g.vs)))
    desc = op
    together = lambda m, vs: len({g.info(m)[1][g.vi[v]] for v in vs}) == 1
    if op == 'connected_components' or op == 'steiner_subgraphs':
        vs = pick(r.randint(1, 4)); desc = '%s(%r)' % (op, vs); res = call(vs)
        def t(m): return together(m, vs) and all(x == g.info(m)[1][g.vi[vs[0]]] for x in g.info(m)[2])
    elif op == 'cliques':
        k = r.randint(2, 5); desc = 'cliques(%d)' % k; res = call(k)
        def t(m): d = degs(g, m); return bin(m).count('1') == k * (k - 1) // 2 and sum(1 for x in d if x) == k and all(x in (0, k - 1) for x in d)
    elif op == 'bicliques':
        a = r.randint(1, 3); desc = 'bicliques(%d, %d)' % (a, a); res = call(a, a)
        def t(m): d = degs(g, m); return bin(m).count('1') == a * a and sum(1 for x in d if x) == 2 * a and all(x in (0, a) for x in d) and g.bip(m) and conn(g, m)
    elif op == 'trees':
        root = r.choice([None] + g.vs); s = r.random() < .5; desc = 'trees(%r, %r)' % (root, s); res = call(root, s)
        def t(m):
            if s and not span(m): return False
            if root is None: return tree(m)
            return g.info(m)[3] and (m == 0 or (conn(g, m) and degs(g, m)[g.vi[root]] > 0))
    elif op == 'forests':
        roots = pick(r.randint(1, 3)); s = r.random() < .5; desc = 'forests(%r, %r)' % (roots, s); res = call(roots, s)
        def t(m):
            deg, comp, ec, acy = g.info(m)
            rc = [comp[g.vi[v]] for v in roots]
            return acy and len(set(rc)) == len(rc) and all(x in rc for x in ec) and (not s or all(deg[g.vi[v]] > 0 or v in roots for v in g.vs))
    elif op == 'cycles':
        h = r.random() < .4; desc = 'cycles(%r)' % h; res = call(h)
        def t(m): return conn(g, m) and all(d in ((2,) if h else (0, 2)) for d in degs(g, m))
    elif op == 'paths':
        h = r.random() < .4; n = r.choice((0, 1, 2, 2)); ts = pick(n)
        if len(ts) == 2 or n < 2: pass
        desc = 'paths(%r, is_hamilton=%r)' % (ts, h); res = call(*ts, is_hamilton=h)
        def t(m):
            d = degs(g, m); ends = [v for v in range(g.k) if d[v] == 1]
            return tree(m) and all(x <= 2 for x in d) and len(ends) == 2 and all(g.vi[v] in ends for v in ts) and (not h or span(m))
    elif op == 'matchings':
        res = call()
        def t(m): return all(d <= 1 for d in degs(g, m))
    elif op == 'perfect_matchings':
        res = call()
        def t(m): return all(d == 1 for d in degs(g, m))
    elif op == 'k_matchings':
        k = r.randint(0, 3) if r.random() < .9 else r.choice(BIG); desc = 'k_matchings(%d)' % k; res = call(k)
        def t(m): return all(d <= k for d in degs(g, m))
    elif op == 'k_factors':
        k = r.randint(0, 3) if r.random() < .9 else r.choice(BIG); desc = 'k_factors(%d)' % k; res = call(k)
        def t(m): return all(d == k for d in degs(g, m))
    elif op == 'b_matchings':
        b = {v: r.randint(0, 3) for v in g.vs if r.random() < .8}; desc = 'b_matchings(%r)' % b; res = call(b)
        def t(m): return all(d <= b.get(v, 0) for v, d in zip(g.vs, degs(g, m)))
    elif op == 'f_factors':
        b = {v: r.randint(0, 2) for v in g.vs if r.random() < .8}; desc = 'f_factors(%r)' % b; res = call(b)
        def t(m): return all(d == b.get(v, 0) for v, d in zip(g.vs, degs(g, m)))
    elif op in ('regular_graphs', 'regular_bipartite_graphs'):
        k = r.randrange(3); deg = None if k == 0 else r.randint(1, 3) if k == 1 else (lambda a: (a, a + r.randint(0, 2)))(r.randint(1, 2)); con = r.random() < .5
        if isinstance(deg, tuple) and r.random() < .1: deg = (deg[0], deg[1] + r.choice(BIG))
        lo, hi = (1, g.k) if deg is None else (deg, deg) if isinstance(deg, int) else deg
        desc = '%s(%r, %r)' % (op, deg, con); res = call(deg, con)
        def t(m):
            d = {x for x in degs(g, m) if x}
            return m != 0 and len(d) == 1 and lo <= min(d) <= hi and (not con or conn(g, m)) and (op == 'regular_graphs' or g.bip(m))
    elif op == 'bipartite_graphs':
        con = r.random() < .5; desc = 'bipartite_graphs(%r)' % con; res = call(con)
        def t(m): return g.bip(m) and (not con or m == 0 or conn(g, m))
    elif op in ('steiner_trees', 'steiner_cycles', 'steiner_paths'):
        vs = pick(r.randint(2, 4)); desc = '%s(%r)' % (op, vs); res = call(vs)
        def t(m):
            d = degs(g, m)
            if not (conn(g, m) and touches(m, vs)): return False
            if op == 'steiner_trees': return g.info(m)[3]
            if op == 'steiner_cycles': return all(x in (0, 2) for x in d)
            return g.info(m)[3] and all(x <= 2 for x in d)
    elif op == 'degree_distribution_graphs':
        dd = {}
        for d in range(0, 5):
            x = r.random()
            if x < .4: dd[d] = -1
            elif x < .75: dd[d] = r.randint(1, 3) if r.random() < .8 else 0
        if 0 not in dd and r.random() < .6: dd[0] = -1
        if not dd: dd = {0: -1, 1: 2}
        if r.random() < .03: dd[r.randint(0, 3)] = r.choice(BIG)
        con = r.random() < .5; desc = 'degree_distribution_graphs(%r, %r)' % (dd, con); res = call(dd, con)
        def t(m):
            d = degs(g, m)
            if any(x not in dd for x in d): return False
            if any(n >= 0 and d.count(x) != n for x, n in dd.items()): return False
            return not con or conn(g, m)
    elif op == 'letter_P_graphs':
        res = call()
        def t(m): d = degs(g, m); return conn(g, m) and d.count(1) == 1 and d.count(3) == 1 and all(x <= 3 for x in d)
    want = frozenset(m for m in g.masks() if sp(m) and t(m))
    compare(g, res, want, desc + ('' if gs is None else ' within %d graphs' % len(ms)))
    if gs is not None: compare(g, gs, ms, 'search space after ' + op)
    return len(want) > 0


NAMED = ['connected_components', 'steiner_subgraphs', 'cliques', 'bicliques', 'trees', 'forests', 'cycles', 'paths', 'paths', 'matchings', 'perfect_matchings', 'k_matchings', 'k_factors', 'b_matchings', 'f_factors', 'regular_graphs',
         'regular_bipartite_graphs', 'bipartite_graphs', 'steiner_trees', 'steiner_cycles', 'steiner_paths', 'degree_distribution_graphs', 'letter_P_graphs']


def run(c): return globals()['run_' + c['k']](c)


KINDS = {'P15': ['search'], 'P16': ['named']}


def cases(prop, rng, tier, idx, nw):
    ks = KINDS[prop]
    while True:
        k = rng.choice(ks); c = {'k': k, 'g': gspec(rng, big=.05), 'r': rng.randrange(1 << 30), 'sp': int(rng.random() < .3)}
        if k == 'search':
            ps = [p for p in ('vg', 'dc', 'ne', 'nl', 'lc') if rng.random() < .45]
            yield dict(c, parts=ps)
        elif k == 'named': yield dict(c, op=rng.choice(NAMED))
        else: yield c
