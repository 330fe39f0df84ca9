"""Larger graphs (up to some 40 edges): counts by independent dynamic programs or
closed forms, and members by sampling, for the searches whose results are far
too large to enumerate.  The frontiers, node tables and counters of the searches
are exercised at a size the enumeration in graphs.py does not reach."""
import itertools, math, random
from core import Mismatch, check, eq, Skip
from graphillion import GraphSet, DiGraphSet, Universe, VertexSetSet


class B:
    def __init__(self, c):
        r = random.Random(c['s']); self.r = r; k = c['n']; sh = c['sh']
        vs = list(range(1, k + 1)) if r.random() < .6 else ['v%d' % i for i in range(k)] if r.random() < .5 else [(i // 4, i % 4) for i in range(k)]
        r.shuffle(vs)
        allp = list(itertools.combinations(range(k), 2)); r.shuffle(allp)
        if sh == 'K': es = allp
        elif sh == 'hub': es = [(h, v) for h in (0, 1) for v in range(2, k)]
        elif sh == 'hub3': es = [(h, v) for h in (0, 1, 2) for v in range(3, k)]
        elif sh == 'grid':
            w = c.get('w', 4); es = [(i, i + 1) for i in range(k - 1) if (i + 1) % w] + [(i, i + w) for i in range(k - w)]
        else:
            es = [(r.randrange(i), i) for i in range(1, k)]
            for p in allp:
                if len(es) >= c['m']: break
                if p not in es: es.append(p)
        self.k = k; self.pairs = es; self.m = len(es)
        self.trav = 'as-is' if sh.startswith('hub') or (k <= 9 and r.random() < .3) else r.choice(('greedy', 'bfs', 'dfs'))
        if not sh.startswith('hub'): r.shuffle(self.pairs)
        self.vs = vs; self.vi = {v: i for i, v in enumerate(vs)}
        self.es = [(vs[a], vs[b]) if r.random() < .6 else (vs[b], vs[a]) for a, b in self.pairs]
        self.adj = [0] * k
        for a, b in self.pairs: self.adj[a] |= 1 << b; self.adj[b] |= 1 << a
        self.V = (1 << k) - 1; self._e = {0: 0}; self._c = {}; self._t = {}; self._f = {0: 1}
        Universe.set_universe(self.es, traversal=self.trav)

    def e(self, S):
        """edges inside S"""
        x = self._e.get(S)
        if x is None:
            l = S & -S; x = self._e[S] = self.e(S ^ l) + bin(self.adj[l.bit_length() - 1] & S).count('1')
        return x

    def sub(self, S):
        """subsets of S that contain its lowest element, S itself last"""
        l = S & -S; R = S ^ l; T = 0
        while True:
            yield T | l
            if T == R: return
            T = (T - R) & R

    def conn(self, S):
        """connected spanning subgraphs of the graph induced by S"""
        x = self._c.get(S)
        if x is None:
            x = 1 << self.e(S)
            for T in self.sub(S):
                if T != S: x -= self.conn(T) << self.e(S ^ T)
            self._c[S] = x
        return x

    def tau(self, S):
        """spanning trees of the graph induced by S"""
        x = self._t.get(S)
        if x is None:
            vs = [v for v in range(self.k) if S >> v & 1]
            M = [[(bin(self.adj[a] & S).count('1') if a == b else -(self.adj[a] >> b & 1)) for b in vs[1:]] for a in vs[1:]]
            x = self._t[S] = det(M)
        return x

    def forests(self, S):
        x = self._f.get(S)
        if x is None: x = self._f[S] = sum(self.tau(T) * self.forests(S ^ T) for T in self.sub(S))
        return x

    def connected(self, S):
        """the induced subgraph is connected"""
        if not S: return False
        R = S & -S
        while True:
            N = R
            for v in range(self.k):
                if R >> v & 1: N |= self.adj[v] & S
            if N == R: return R == S
            R = N

    def subsets(self): return range(1, self.V + 1)

    def degcount(self, ok, cap=99):
        """edge sets whose degree at v is accepted by ok(v, d), by elimination; also by number of edges"""
        last = [-1] * self.k
        for i, (a, b) in enumerate(self.pairs): last[a] = last[b] = i
        st = {((0,) * self.k): 1}
        for i, (a, b) in enumerate(self.pairs):
            n = {}
            for d, x in st.items():
                for t in (0, 1):
                    e = d
                    if t: e = list(d); e[a] += 1; e[b] += 1
                    else: e = list(d)
                    if e[a] > cap or e[b] > cap: continue
                    good = True
                    for v in (a, b):
                        if last[v] == i:
                            if not ok(v, e[v]): good = False; break
                            e[v] = 0
                    if good: e = tuple(e); n[e] = n.get(e, 0) + x
            st = n
            if len(st) > 60000: raise Skip()
        return sum(x for d, x in st.items())


def det(M):
    """integer determinant (Bareiss)"""
    M = [r[:] for r in M]; n = len(M); p = 1; s = 1
    for i in range(n):
        if M[i][i] == 0:
            for j in range(i + 1, n):
                if M[j][i]: M[i], M[j] = M[j], M[i]; s = -s; break
            else: return 0
        for j in range(i + 1, n):
            for k in range(i + 1, n): M[j][k] = (M[j][k] * M[i][i] - M[j][i] * M[i][k]) // p
        p = M[i][i]
    return s * p if n else 1


def sample(g, gs, test, what, n=12):
    """some members at random"""
    it = gs.rand_iter()
    for _ in range(n):
        try: x = next(it)
        except StopIteration: return
        idx = []
        for e in x:
            a, b = g.vi[e[0]], g.vi[e[1]]
            if not (g.adj[a] >> b & 1): raise Mismatch('%s in %s: %s is not an edge' % (what, g.es, e))
            idx.append((a, b))
        if len(set(frozenset(p) for p in idx)) != len(idx): raise Mismatch('%s in %s: an edge occurs twice in %s' % (what, g.es, x))
        if not test(idx): raise Mismatch('%s in the graph %s (%s): %s does not qualify' % (what, g.es, g.trav, x))


def info(g, es):
    deg = [0] * g.k; par = list(range(g.k)); acy = True
    def find(x):
        while par[x] != x: par[x] = par[par[x]]; x = par[x]
        return x
    for a, b in es:
        deg[a] += 1; deg[b] += 1
        x, y = find(a), find(b)
        if x == y: acy = False
        else: par[x] = y
    comp = [find(v) for v in range(g.k)]
    return deg, comp, sorted({comp[v] for v in range(g.k) if deg[v]}), acy


def number(g, gs, want, what):
    got = gs.len()
    if got != want: raise Mismatch('%s in the graph %s (%s): %d subgraphs expected, %d found' % (what, g.es, g.trav, want, got))


# ---- P15: graphs() with constraints
def c_forests(g):
    gs = GraphSet.graphs(no_loop=True); number(g, gs, g.forests(g.V), 'graphs(no_loop=True)')
    sample(g, gs, lambda es: info(g, es)[3], 'graphs(no_loop=True)')


def c_numedges(g):
    a = g.r.randint(0, g.m); b = g.r.randint(a, g.m)
    number(g, GraphSet.graphs(num_edges=range(a, b + 1)), sum(math.comb(g.m, i) for i in range(a, b + 1)), 'graphs(num_edges=range(%d, %d))' % (a, b + 1))
    st = g.r.randint(1, 3)
    number(g, GraphSet.graphs(num_edges=range(a, b + 1, st)), sum(math.comb(g.m, i) for i in range(a, b + 1, st)), 'graphs(num_edges=range(%d, %d, %d))' % (a, b + 1, st))


def c_degrees(g):
    dc = {}; acc = {}
    for v in range(g.k):
        lo = g.r.randint(0, 2); hi = lo + g.r.randint(0, 2); acc[v] = set(range(lo, hi + 1)); dc[g.vs[v]] = range(lo, hi + 1)
    want = g.degcount(lambda v, d: d in acc[v], 4)
    gs = GraphSet.graphs(degree_constraints=dc); number(g, gs, want, 'graphs(degree_constraints=%r)' % dc)
    sample(g, gs, lambda es: all(d in acc[v] for v, d in enumerate(info(g, es)[0])), 'graphs(degree_constraints=%r)' % dc)


def c_group(g):
    vs = g.r.sample(range(g.k), g.r.randint(2, 4)); M = sum(1 << v for v in vs)
    want = sum(g.conn(S) for S in g.subsets() if S & M == M)
    d = [g.vs[v] for v in vs]
    gs = GraphSet.graphs(vertex_groups=[d]); number(g, gs, want, 'graphs(vertex_groups=[%r])' % d)
    sample(g, gs, lambda es: (lambda i: len({i[1][v] for v in vs}) == 1 and all(x == i[1][vs[0]] for x in i[2]))(info(g, es)), 'graphs(vertex_groups=[%r])' % d)


def c_twogroups(g):
    vs = g.r.sample(range(g.k), 4); A = 1 << vs[0] | 1 << vs[1]; C = 1 << vs[2] | 1 << vs[3]; want = 0
    for S in g.subsets():
        if S & A != A or S & C: continue
        R = g.V & ~S & ~C; T = R
        while True:
            want += g.conn(S) * g.conn(T | C)
            if not T: break
            T = (T - 1) & R
    d = [[g.vs[vs[0]], g.vs[vs[1]]], [g.vs[vs[2]], g.vs[vs[3]]]]
    number(g, GraphSet.graphs(vertex_groups=d), want, 'graphs(vertex_groups=%r)' % d)


def c_linear(g):
    ws = [g.r.choice((1, 1, 1, 2, 3, -1, -2, 5)) for _ in range(g.m)]; st = {0: 1}
    for w in ws:
        n = dict(st)
        for s, x in st.items(): n[s + w] = n.get(s + w, 0) + x
        st = n
    lo = g.r.randint(-5, max(-5, sum(ws))); hi = lo + g.r.randint(0, 20)
    number(g, GraphSet.graphs(linear_constraints=[([e + (w,) for e, w in zip(g.es, ws)], (lo, hi))]), sum(x for s, x in st.items() if lo <= s <= hi), 'graphs(linear_constraints) with weights %s within (%d, %d)' % (ws, lo, hi))


# ---- P16
def c_trees(g):
    gs = GraphSet.trees(is_spanning=True); number(g, gs, g.tau(g.V), 'trees(is_spanning=True)')
    sample(g, gs, lambda es: len(es) == g.k - 1 and info(g, es)[3], 'trees(is_spanning=True)')
    number(g, GraphSet.trees(), sum(g.tau(S) for S in g.subsets() if S & (S - 1)), 'trees()')
    r = g.r.randrange(g.k); number(g, GraphSet.trees(g.vs[r]), 1 + sum(g.tau(S) for S in g.subsets() if S & (S - 1) and S >> r & 1), 'trees(%r)' % (g.vs[r],))


def c_rforests(g):
    a, b = g.r.sample(range(g.k), 2); want = span = 0
    for S in g.subsets():
        if not S >> a & 1 or S >> b & 1: continue
        R = g.V & ~S & ~(1 << b); T = R; t = g.tau(S)
        if not t: continue
        span += t * g.tau(R | 1 << b)
        while True:
            want += t * g.tau(T | 1 << b)
            if not T: break
            T = (T - 1) & R
    rt = [g.vs[a], g.vs[b]]
    number(g, GraphSet.forests(rt), want, 'forests(%r)' % rt); number(g, GraphSet.forests(rt, is_spanning=True), span, 'forests(%r, is_spanning=True)' % rt)


def walk(g, s, cb, lim=60000):
    n = [0]
    def go(v, used, path):
        n[0] += 1
        if n[0] > lim: raise Skip()
        cb(v, used, path)
        for w in range(g.k):
            if g.adj[v] >> w & 1 and not used >> w & 1: go(w, used | 1 << w, path + [w])
    go(s, 1 << s, [s])


def c_paths(g):
    s, t = g.r.sample(range(g.k), 2); c = [0, 0]
    def cb(v, used, p):
        if v == t: c[0] += 1; c[1] += used == g.V
    walk(g, s, lambda v, used, p: cb(v, used, p))
    # a path ends at t: those that pass t are not s-t paths
    a, b = g.vs[s], g.vs[t]
    gs = GraphSet.paths(a, b); number(g, gs, c[0], 'paths(%r, %r)' % (a, b)); number(g, GraphSet.paths(a, b, is_hamilton=True), c[1], 'paths(%r, %r, is_hamilton=True)' % (a, b))
    sample(g, gs, lambda es: (lambda i: i[3] and len(i[2]) == 1 and i[0][s] == 1 == i[0][t] and max(i[0]) <= 2 and i[0].count(1) == 2)(info(g, es)), 'paths(%r, %r)' % (a, b))


def c_cycles(g):
    n = ham = 0; lim = [0]
    def go(s, v, used, l):
        nonlocal n, ham
        lim[0] += 1
        if lim[0] > 150000: raise Skip()
        for w in range(s, g.k):
            if g.adj[v] >> w & 1:
                if w == s and l > 2: n += 1; ham += used == g.V
                elif not used >> w & 1: go(s, w, used | 1 << w, l + 1)
    for s in range(g.k): go(s, s, 1 << s, 1)
    gs = GraphSet.cycles(); number(g, gs, n // 2, 'cycles()'); number(g, GraphSet.cycles(is_hamilton=True), ham // 2, 'cycles(is_hamilton=True)')
    sample(g, gs, lambda es: (lambda i: len(i[2]) == 1 and all(d in (0, 2) for d in i[0]))(info(g, es)), 'cycles()')


def c_match(g):
    st = {}
    def f(S):
        if not S: return 1, 1
        if S in st: return st[S]
        l = S & -S; v = l.bit_length() - 1; a, p = f(S ^ l)[0], 0
        for w in range(g.k):
            if g.adj[v] >> w & 1 and S >> w & 1: x = f(S ^ l ^ 1 << w); a += x[0]; p += x[1]
        st[S] = a, p; return a, p
    a, p = f(g.V)
    number(g, GraphSet.matchings(), a, 'matchings()'); number(g, GraphSet.perfect_matchings(), p, 'perfect_matchings()')


def c_kmatch(g):
    k = g.r.randint(1, 3); number(g, GraphSet.k_matchings(k), g.degcount(lambda v, d: d <= k, k), 'k_matchings(%d)' % k)
    number(g, GraphSet.k_factors(k), g.degcount(lambda v, d: d == k, k), 'k_factors(%d)' % k)
    gs = GraphSet.regular_graphs(k, False); number(g, gs, g.degcount(lambda v, d: d in (0, k), k) - 1, 'regular_graphs(%d, False)' % k)
    sample(g, gs, lambda es: all(d in (0, k) for d in info(g, es)[0]), 'regular_graphs(%d, False)' % k)


def c_comp(g):
    vs = g.r.sample(range(g.k), g.r.randint(1, 5)); M = sum(1 << v for v in vs); d = [g.vs[v] for v in vs]
    number(g, GraphSet.connected_components(d), sum(g.conn(S) for S in g.subsets() if S & M == M), 'connected_components(%r)' % d)
    if len(d) > 1: number(g, GraphSet.steiner_trees(d), sum(g.tau(S) for S in g.subsets() if S & M == M), 'steiner_trees(%r)' % d)


def c_bip(g):
    K = {}; C = {}; P = {0: 1}; cn = 0
    def cut(S):
        x = K.get(S)
        if x is None:
            x = 0; T = S
            while True:
                x += 1 << (g.e(S) - g.e(T) - g.e(S ^ T))
                if not T: break
                T = (T - 1) & S
            K[S] = x
        return x
    def cc(S):
        x = C.get(S)
        if x is None: x = C[S] = cut(S) - sum(cc(T) * cut(S ^ T) for T in g.sub(S) if T != S)
        return x
    def p(S):
        x = P.get(S)
        if x is None: x = P[S] = sum(cc(T) // 2 * p(S ^ T) for T in g.sub(S))
        return x
    number(g, GraphSet.bipartite_graphs(False), p(g.V), 'bipartite_graphs(False)')
    number(g, GraphSet.bipartite_graphs(True), 1 + sum(cc(S) // 2 for S in g.subsets() if S & (S - 1)), 'bipartite_graphs(True)')


def c_cliques(g):
    n = g.r.randint(3, 5); gs = GraphSet.cliques(n)
    number(g, gs, sum(all(g.adj[a] >> b & 1 for a, b in itertools.combinations(vs, 2)) for vs in itertools.combinations(range(g.k), n)), 'cliques(%d)' % n)


def c_degdist(g):
    n = g.r.randint(0, 4); tot = 0
    for ones in itertools.combinations(range(g.k), 2):
        tot += g.degcount(lambda v, d: d == 1 if v in ones else d in (0, 2), 2)
    number(g, GraphSet.degree_distribution_graphs({0: -1, 1: 2, 2: -1}, False), tot, 'degree_distribution_graphs({0: -1, 1: 2, 2: -1}, False)')


# ---- P17
def c_parts(g):
    lo = g.r.randint(1, 4); hi = lo + g.r.randint(0, 4); st = {0: {0: 1}}
    w = {v: g.r.randint(1, 9) for v in range(g.k)}; tot = sum(w.values()); wl, wh = g.r.randint(0, tot // 3), g.r.randint(tot // 3, tot); weigh = g.r.random() < .5
    W = lambda S: sum(w[v] for v in range(g.k) if S >> v & 1)
    good = {S for S in g.subsets() if g.connected(S) and (not weigh or wl <= W(S) <= wh)}
    def p(S):
        if S in st: return st[S]
        x = {}
        for T in g.sub(S):
            if T in good:
                for n, y in p(S ^ T).items(): x[n + 1] = x.get(n + 1, 0) + y
        st[S] = x; return x
    x = p(g.V)
    if not weigh: number(g, GraphSet.partitions(num_comp_lb=lo, num_comp_ub=hi), sum(y for n, y in x.items() if lo <= n <= hi), 'partitions(num_comp_lb=%d, num_comp_ub=%d)' % (lo, hi))
    else:
        kw = dict(weight_list={g.vs[v]: w[v] for v in w}, lower=wl, upper=wh); n = g.r.choice((None, 2, 3, 4))
        if n: kw['num_comps'] = n
        number(g, GraphSet.balanced_partitions(**kw), x.get(n, 0) if n else sum(x.values()), 'balanced_partitions(%r)' % kw)


def c_induced(g):
    w = {v: g.r.randint(0, 9) for v in range(g.k)}; lo = g.r.randint(0, 20); hi = lo + g.r.randint(0, 40)
    good = [S for S in g.subsets() if S & (S - 1) and g.connected(S)]
    gs = GraphSet.induced_graphs(); number(g, gs, len(good), 'induced_graphs()')
    def t(es):
        S = 0
        for a, b in es: S |= 1 << a | 1 << b
        return len(es) == g.e(S) and g.connected(S)
    sample(g, gs, t, 'induced_graphs()')
    W = lambda S: sum(w[v] for v in range(g.k) if S >> v & 1)
    wl = {g.vs[v]: x for v, x in w.items()}
    number(g, GraphSet.weighted_induced_graphs(wl, lo, hi), sum(lo <= W(S) <= hi for S in good), 'weighted_induced_graphs(%r, %d, %d)' % (wl, lo, hi))


# ---- P20
def c_rel(g):
    ps = [g.r.choice((.5, .9, .1, .75, 1., .3)) for _ in g.es]; R = {}; cutp = {}
    q = [[1.] * g.k for _ in range(g.k)]
    for (a, b), p in zip(g.pairs, ps): q[a][b] = q[b][a] = 1 - p
    def out(S, T):
        x = 1.
        for a in range(g.k):
            if S >> a & 1:
                for b in range(g.k):
                    if T >> b & 1: x *= q[a][b]
        return x
    def rel(S):
        x = R.get(S)
        if x is None: x = R[S] = 1. - sum(rel(T) * out(T, S ^ T) for T in g.sub(S) if T != S)
        return x
    vs = g.r.sample(range(g.k), g.r.randint(2, 4)); M = sum(1 << v for v in vs)
    want = sum(rel(S) * out(S, g.V ^ S) for S in g.subsets() if S & M == M)
    d = {e: p for e, p in zip(g.es, ps)}; ts = [g.vs[v] for v in vs]; got = GraphSet.reliability(d, ts)
    if not abs(got - want) < 1e-7: raise Mismatch('reliability(%r, %r) in %s: expected %r, got %r' % (d, ts, g.es, want, got))


# ---- P18: directed graphs
class DB:
    def __init__(self, c):
        r = random.Random(c['s']); self.r = r; k = self.k = c['n']
        vs = list(range(1, k + 1)) if r.random() < .6 else ['v%d' % i for i in range(k)]; r.shuffle(vs); self.vs = vs
        if c['sh'] == 'hub': arcs = [(h, v) if r.random() < .7 else (v, h) for h in (0, 1) for v in range(2, k)] + [(v, 1) for v in range(2, k) if r.random() < .3]
        else: arcs = r.sample(list(itertools.permutations(range(k), 2)), min(c['m'], k * (k - 1)))
        arcs = list(dict.fromkeys(arcs)); self.arcs = arcs; self.k = k
        self.es = [(vs[a], vs[b]) for a, b in arcs]; used = {v for a in arcs for v in a}; self.used = sorted(used); self.m = len(arcs)
        self.trav = 'as-is' if c['sh'] == 'hub' or r.random() < .3 else r.choice(('greedy', 'bfs', 'dfs'))
        self.out = [[b for a, b in arcs if a == v] for v in range(k)]
        DiGraphSet.set_universe(self.es, traversal=self.trav)


def d_trees(g):
    r = g.r.choice(g.used); U = [v for v in g.used if v != r]; S = set(g.arcs)
    M = [[(sum((a, v) in S for a in g.used) if v == w else -((w, v) in S)) for w in U] for v in U]
    number(g, DiGraphSet.rooted_trees(g.vs[r], True), det(M), 'rooted_trees(%r, True)' % (g.vs[r],))


def d_forests(g):
    S = set(g.arcs); U = g.used
    M = [[(1 + sum((a, v) in S for a in U) if v == w else -((w, v) in S)) for w in U] for v in U]
    number(g, DiGraphSet.rooted_forests(None, False), det(M), 'rooted_forests(None, False)')


def d_paths(g):
    s, t = g.r.sample(g.used, 2); c = [0, 0]; n = [0]; full = sum(1 << v for v in g.used)
    def go(v, used):
        n[0] += 1
        if n[0] > 60000: raise Skip()
        if v == t: c[0] += 1; c[1] += used == full; return
        for w in g.out[v]:
            if not used >> w & 1: go(w, used | 1 << w)
    go(s, 1 << s); a, b = g.vs[s], g.vs[t]
    number(g, DiGraphSet.directed_st_paths(a, b, False), c[0], 'directed_st_paths(%r, %r, False)' % (a, b)); number(g, DiGraphSet.directed_st_paths(a, b, True), c[1], 'directed_st_paths(%r, %r, True)' % (a, b))


def d_cycles(g):
    n = ham = 0; lim = [0]; full = sum(1 << v for v in g.used)
    def go(s, v, used):
        nonlocal n, ham
        lim[0] += 1
        if lim[0] > 100000: raise Skip()
        for w in g.out[v]:
            if w == s: n += 1; ham += used == full
            elif w > s and not used >> w & 1: go(s, w, used | 1 << w)
    for s in range(g.k): go(s, s, 1 << s)
    number(g, DiGraphSet.directed_cycles(), n, 'directed_cycles()'); number(g, DiGraphSet.directed_hamiltonian_cycles(), ham, 'directed_hamiltonian_cycles()')


def d_degrees(g):
    ic = {v: g.r.randint(0, 2) for v in g.used if g.r.random() < .8}; oc = {v: g.r.randint(0, 2) for v in g.used if g.r.random() < .8}
    A = {v: set(range(x, x + 1 + g.r.randint(0, 1))) for v, x in ic.items()}; C = {v: set(range(x, x + 1 + g.r.randint(0, 1))) for v, x in oc.items()}
    last = {}
    for i, (a, b) in enumerate(g.arcs): last[a] = last[b] = i
    st = {((0,) * g.k, (0,) * g.k): 1}
    for i, (a, b) in enumerate(g.arcs):
        n = {}
        for (x, y), z in st.items():
            for t in (0, 1):
                p, q = list(x), list(y)
                if t: p[b] += 1; q[a] += 1
                good = True
                for v in (a, b):
                    if v in A and p[v] > max(A[v]) or v in C and q[v] > max(C[v]): good = False
                    if last[v] == i:
                        if v in A and p[v] not in A[v] or v in C and q[v] not in C[v]: good = False
                        p[v] = q[v] = 0
                    if v not in A: p[v] = 0
                    if v not in C: q[v] = 0
                if good: n[tuple(p), tuple(q)] = n.get((tuple(p), tuple(q)), 0) + z
        st = n
        if len(st) > 40000: raise Skip()
    kw = dict(in_degree_constraints={g.vs[v]: range(min(x), max(x) + 1) for v, x in A.items()}, out_degree_constraints={g.vs[v]: range(min(x), max(x) + 1) for v, x in C.items()})
    number(g, DiGraphSet.graphs(**kw), sum(st.values()), 'graphs(%r)' % kw)


OPS = {'P15': ['forests', 'numedges', 'degrees', 'group', 'twogroups', 'linear'], 'P16': ['trees', 'rforests', 'paths', 'cycles', 'match', 'kmatch', 'comp', 'bip', 'cliques', 'degdist'], 'P17': ['parts', 'induced'], 'P20': ['rel'],
       'P18': ['trees', 'forests', 'paths', 'cycles', 'degrees']}
SUBSETDP = {'forests', 'group', 'twogroups', 'trees', 'rforests', 'comp', 'bip', 'parts', 'induced', 'rel'}


def run(c):
    if c['u'] == 'd': globals()['d_' + c['op']](DB(c))
    else: globals()['c_' + c['op']](B(c))
    return True


def cases(prop, rng, tier, idx, nw):
    while True:
        op = rng.choice(OPS[prop]); c = {'u': 'd' if prop == 'P18' else 'u', 'k': 'big ' + op, 'op': op, 's': rng.randrange(1 << 30)}
        if prop == 'P18': c.update(sh=rng.choice(('r', 'r', 'hub')), n=rng.randint(5, 8), m=rng.randint(12, 28))
        else:
            sh = rng.choice(('K', 'r', 'r', 'r', 'hub', 'hub3', 'grid'))
            hi = 9 if op in SUBSETDP else 12
            k = {'K': rng.randint(5, 7), 'r': rng.randint(6, hi), 'hub': rng.randint(8, 10 if op in SUBSETDP else 12), 'hub3': rng.randint(7, 9), 'grid': rng.randint(8, 10 if op in SUBSETDP else 16)}[sh]
            c.update(sh=sh, n=k, m=rng.randint(k + 2, 24), w=rng.choice((3, 4)))
        yield c
