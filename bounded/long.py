"""Long thin graphs (100 to 350 vertices, frontier of at most four): vertex numbers,
component numbers and degrees beyond a byte.  The expected counts come from one
generic frontier program over (component, degree, colour) states, which shares
nothing with the searches."""
import itertools, random
from core import Mismatch, Skip
from graphillion import GraphSet, DiGraphSet


class L:
    def __init__(self, c):
        r = self.r = random.Random(c['s']); n = c['n']; sh = c['sh']
        if sh == 'path': es = [(i, i + 1) for i in range(n - 1)]
        elif sh == 'cycle': es = [(0, 1), (0, n - 1)] + [(i, i + 1) for i in range(1, n - 1)]
        elif sh == 'ladder': es = [(0, 1)] + [e for i in range(2, n - n % 2, 2) for e in ((i - 2, i), (i - 1, i + 1), (i, i + 1))]
        elif sh == 'square': es = [(0, 1)] + [e for i in range(2, n) for e in ((i - 2, i), (i - 1, i))]
        elif sh == 'star': es = [(0, i) for i in range(1, n)]
        elif sh == 'comb': es = [e for i in range(0, n - 3, 2) for e in ((i, i + 1), (i, i + 2))]
        elif sh == 'hub2': es = [(h, i) for i in range(2, n) for h in (0, 1)]
        elif sh == 'wheel': es = [(0, 1)] + [e for i in range(2, n) for e in ((0, i), (i - 1, i))] + [(1, n - 1)]
        elif sh == 'pairs': es = [(i, i + 1) for i in range(0, n - 1, 2)]
        elif sh == 'tris': es = [e for i in range(0, n - 2, 3) for e in ((i, i + 1), (i + 1, i + 2), (i, i + 2))]
        if r.random() < .3 and sh != 'pairs':   # leave a few edges out
            es = [e for e in es if r.random() < .985]
        if r.random() < .3: es = es[::-1]
        if c['u'] == 'd':
            x = r.random()
            es = [e if x < .3 or r.random() < .7 else e[::-1] for e in es]
            if r.random() < .5: es = [f for e in es for f in ([e, e[::-1]] if r.random() < .5 else [e])]
        # numbered in order of appearance
        num = {}
        for e in es:
            for v in e: num.setdefault(v, len(num))
        self.pairs = [(num[a], num[b]) for a, b in es]; self.k = len(num); self.m = len(es)
        ids = list(range(1, self.k + 1)); x = r.random()
        if x < .6: r.shuffle(ids)
        self.vs = ids if x < .8 else ['v%d' % i for i in ids]; self.vi = {v: i for i, v in enumerate(self.vs)}
        self.es = [(self.vs[a], self.vs[b]) for a, b in self.pairs]
        if c['u'] != 'd': self.es = [e if r.random() < .6 else e[::-1] for e in self.es]
        self.what = '%s of %d vertices (%s)' % (sh, self.k, c)
        S = DiGraphSet if c['u'] == 'd' else GraphSet
        if sh in ('path', 'comb', 'ladder', 'pairs', 'tris') and r.random() < .4: S.set_universe(self.es, traversal=r.choice(('bfs', 'dfs', 'greedy')) if sh in ('path', 'pairs', 'tris') else 'bfs', source=self.vs[0])
        else: S.set_universe(self.es, traversal='as-is')
        self.first = {}; self.last = {}
        for i, e in enumerate(self.pairs):
            for v in e: self.first.setdefault(v, i); self.last[v] = i

    def far(self, n):
        """n vertices, most of them late ones"""
        l = list(range(self.k)); s = set()
        while len(s) < min(n, self.k): s.add(self.r.choice(l) if self.r.random() < .4 else l[-1 - min(self.k - 1, self.r.randrange(1 + self.k // 8))])
        return self.r.sample(sorted(s), len(s))

    def count(self, deg=None, leave=None, conn=True, cyc=True, marks=None, col=False, close=None, final=None, prob=None, glob=0, lim=2500):
        """number (or, given prob, weight) of the edge sets where
        deg(d, role) is the degree after an edge (role 0/1 for its ends), None to refuse;
        leave(v, d, glob) and close((marks, edges?, cycle?, odd?), glob) give the next glob or None to refuse"""
        deg = deg or (lambda d, r: 1); marks = marks or {}
        st = {((), (), glob): 1}; pos = {}; front = []; live = 0
        for i, (a, b) in enumerate(self.pairs):
            for v in (a, b):
                if self.first[v] == i:
                    pos[v] = len(front); front.append(v)
                    st = {(vv + ((len(cs) if conn else 0, 0, 0),), cs + ((marks.get(v, 0), 0, 0, 0),) if conn else cs, g): x for (vv, cs, g), x in st.items()}
            pa, pb = front.index(a), front.index(b); n = {}
            p = None if prob is None else prob[i]
            out = [v for v in (a, b) if self.last[v] == i]; keep = [j for j, v in enumerate(front) if v not in out]
            for (vv, cs, g), x in st.items():
                for take in (0, 1):
                    w = x if p is None else x * (p if take else 1 - p)
                    l = list(vv); c = list(cs); h = g
                    if take:
                        (ca, da, ka), (cb, db, kb) = l[pa], l[pb]
                        da, db = deg(da, 0), deg(db, 1)
                        if da is None or db is None: continue
                        l[pa] = (ca, da, ka); l[pb] = (cb, db, kb)
                        if conn:
                            A, C = c[ca], c[cb]
                            if ca == cb:
                                if not cyc: continue
                                c[ca] = (A[0], 1, 1 if cyc == 1 else 0, A[3] | (col and ka == kb))
                            else:
                                if col and ka == kb: l = [(y[0], y[1], 1 - y[2]) if y[0] == cb else y for y in l]
                                l = [(ca, y[1], y[2]) if y[0] == cb else y for y in l]
                                c[ca] = (A[0] | C[0], 1, A[2] | C[2], A[3] | C[3])
                    ok = True
                    for v in out:
                        j = pa if v == a else pb
                        if leave:
                            h = leave(v, l[j][1], h)
                            if h is None: ok = False; break
                    if not ok: continue
                    l2 = [l[j] for j in keep]
                    if conn:
                        used = {y[0] for y in l2}
                        for j in {l[pa][0], l[pb][0]} - used:
                            if close:
                                h = close(c[j], h)
                                if h is None: ok = False; break
                        if not ok: continue
                        ren = {}; nc = []; l3 = []; fl = {}
                        for y in l2:
                            if y[0] not in ren: ren[y[0]] = len(nc); nc.append(c[y[0]]); fl[y[0]] = y[2] if col else 0
                            l3.append((ren[y[0]], y[1], y[2] ^ fl[y[0]]))
                        key = (tuple(l3), tuple(nc), h)
                    else: key = (tuple(l2), (), h)
                    n[key] = n.get(key, 0) + w
            st = n; front = [front[j] for j in keep]
            if len(st) > lim: raise Skip()
        return sum(x for (vv, cs, g), x in st.items() if final is None or final(g))


def number(g, gs, want, what):
    got = gs.len()
    if got != want: raise Mismatch('%s in the %s: %d graphs expected, %d found' % (what, g.what, want, got))


def cap(n): return lambda d, r: d + 1 if d < n else None


def only1(c, g):
    """at most one component with edges"""
    return g if not c[1] else g + 1 if g < 1 else None


def some(g, gs, what, test):
    it = gs.rand_iter() if g.r.random() < .5 else iter(gs)
    for _ in range(2):
        try: x = next(it)
        except StopIteration: return
        E = {frozenset(p) for p in g.pairs}; idx = []
        for e in x:
            p = (g.vi[e[0]], g.vi[e[1]])
            if frozenset(p) not in E: raise Mismatch('%s in the %s: %s is not an edge' % (what, g.what, e))
            idx.append(p)
        if not test(idx): raise Mismatch('%s in the %s: %s does not qualify' % (what, g.what, x))


def shape(g, es):
    d = [0] * g.k; par = list(range(g.k)); acy = True
    def find(x):
        while par[x] != x: par[x] = par[par[x]]; x = par[x]
        return x
    for a, b in es:
        d[a] += 1; d[b] += 1; x, y = find(a), find(b)
        if x == y: acy = False
        else: par[x] = y
    return d, acy, len({find(v) for v in range(g.k) if d[v]})


# ---- P15
def u_forests(g):
    gs = GraphSet.graphs(no_loop=True); number(g, gs, g.count(cyc=False), 'graphs(no_loop=True)')
    some(g, gs, 'graphs(no_loop=True)', lambda es: shape(g, es)[1])


def u_numedges(g):
    a = g.r.choice((0, g.m // 2, g.m - 2, min(g.m, 130), min(g.m, 260))); b = min(g.m, a + g.r.randint(0, 3)); st = g.r.randint(1, 2); R = range(a, b + 1, st)
    f = lambda v, d, h: h
    want = [1]
    for _ in range(g.m): want = [1] + [want[i] + want[i + 1] for i in range(len(want) - 1)] + [1]
    number(g, GraphSet.graphs(num_edges=R), sum(want[i] for i in R), 'graphs(num_edges=%s)' % R)


def u_degrees(g):
    top = g.r.randint(0, 3); acc = {v: set(range(lo, lo + 1 + g.r.randint(0, 2))) for v in range(g.k) if g.r.random() < .9 for lo in [g.r.choice((0, 0, 0, 1, 1, 2))]}
    hub = [v for v in range(g.k) if sum(v in p for p in g.pairs) > 60]
    for v in hub:
        lo = g.r.choice((100, 127, 128, 129, 200, 255, 256, 257, 60)); acc[v] = set(range(lo, lo + 1 + g.r.randint(0, 2)))
    mx = max([max(s) for s in acc.values()] + [0])
    want = g.count(deg=lambda d, r: d + 1, conn=False, leave=lambda v, d, h: h if v not in acc or d in acc[v] else None, lim=6000) if not hub else g.count(deg=lambda d, r: d + 1, conn=False, leave=lambda v, d, h: h if v not in acc or d in acc[v] else None, lim=6000)
    dc = {g.vs[v]: range(min(s), max(s) + 1) for v, s in acc.items()}
    gs = GraphSet.graphs(degree_constraints=dc); number(g, gs, want, 'graphs(degree_constraints=...) with %s at the hubs' % {v: acc[v] for v in hub})
    some(g, gs, 'degree constraints', lambda es: all(d in acc[v] for v, d in enumerate(shape(g, es)[0]) if v in acc))


def u_group(g):
    vs = g.far(g.r.randint(1, 4)); mk = {v: 1 for v in vs}
    full = len(vs)
    # every marked vertex in one component: count components with marks
    def close(c, h):
        if c[0]: return 1 if h == 0 else None
        return None if c[1] else h
    want = g.count(marks=mk, cyc=2, close=close)
    kw = {'vertex_groups': [[g.vs[v] for v in vs]]}
    number(g, GraphSet.graphs(**kw), want, 'graphs(%r)' % kw)
    number(g, GraphSet.graphs(no_loop=True, **kw), g.count(marks=mk, cyc=False, close=close), 'graphs(no_loop=True, %r)' % kw)


def u_linear(g):
    ws = [g.r.choice((1, 1, 2, -1)) for _ in range(g.m)]; cur = {0: 1}
    for w in ws:
        n = dict(cur)
        for s, x in cur.items(): n[s + w] = n.get(s + w, 0) + x
        cur = n
    top = sum(w for w in ws if w > 0); lo = g.r.choice((top - 2, top - 1, top)); hi = lo + g.r.randint(0, 3)
    number(g, GraphSet.graphs(linear_constraints=[([e + (w,) for e, w in zip(g.es, ws)], (lo, hi))]), sum(x for s, x in cur.items() if lo <= s <= hi), 'graphs(linear_constraints) with weights %s within (%d, %d)' % (ws, lo, hi))


# ---- P16
def u_trees(g):
    number(g, GraphSet.trees(), g.count(cyc=False, close=only1, final=lambda h: h == 1), 'trees()')
    number(g, GraphSet.trees(is_spanning=True), g.count(cyc=False, close=lambda c, h: 1 if h == 0 else None), 'trees(is_spanning=True)')
    v = g.far(1)[0]; number(g, GraphSet.trees(g.vs[v]), g.count(cyc=False, marks={v: 1}, close=lambda c, h: h if not c[1] or c[0] else None), 'trees(%r)' % g.vs[v])


def u_rforests(g):
    vs = g.far(g.r.randint(2, 4)); mk = {v: 1 << i for i, v in enumerate(vs)}; rt = [g.vs[v] for v in vs]
    one = lambda c: c[0] and not c[0] & c[0] - 1
    number(g, GraphSet.forests(rt), g.count(cyc=False, marks=mk, close=lambda c, h: h if one(c) or not c[0] and not c[1] else None), 'forests(%r)' % rt)
    number(g, GraphSet.forests(rt, is_spanning=True), g.count(cyc=False, marks=mk, close=lambda c, h: h if one(c) else None), 'forests(%r, is_spanning=True)' % rt)


def u_paths(g):
    s, t = g.far(2); mk = {s: 1, t: 1}
    want = lambda ham: g.count(deg=cap(2), cyc=False, marks=mk, leave=lambda v, d, h: h if (d == 1 if v in (s, t) else d == 2 or d == 0 and not ham) else None, close=lambda c, h: h if c[0] or not c[1] else None)
    a, b = g.vs[s], g.vs[t]
    gs = GraphSet.paths(a, b); number(g, gs, want(False), 'paths(%r, %r)' % (a, b)); number(g, GraphSet.paths(a, b, is_hamilton=True), want(True), 'paths(%r, %r, is_hamilton=True)' % (a, b))
    some(g, gs, 'paths(%r, %r)' % (a, b), lambda es: (lambda i: i[1] and i[2] == 1 and i[0][s] == i[0][t] == 1 and i[0].count(1) == 2 and max(i[0]) <= 2)(shape(g, es)))


def u_cycles(g):
    w = lambda ham: g.count(deg=cap(2), leave=lambda v, d, h: h if d == 2 or d == 0 and not ham else None, close=only1, final=lambda h: h == 1)
    number(g, GraphSet.cycles(), w(False), 'cycles()'); number(g, GraphSet.cycles(is_hamilton=True), w(True), 'cycles(is_hamilton=True)')


def u_match(g):
    number(g, GraphSet.matchings(), g.count(deg=cap(1), conn=False), 'matchings()')
    number(g, GraphSet.perfect_matchings(), g.count(deg=cap(1), conn=False, leave=lambda v, d, h: h if d == 1 else None), 'perfect_matchings()')


def u_kmatch(g):
    k = g.r.choice((1, 2, 3, 2, 127, 128, 200)); number(g, GraphSet.k_matchings(k), g.count(deg=cap(k), conn=False), 'k_matchings(%d)' % k)
    k = g.r.randint(1, 3); number(g, GraphSet.k_factors(k), g.count(deg=cap(k), conn=False, leave=lambda v, d, h: h if d == k else None), 'k_factors(%d)' % k)
    number(g, GraphSet.regular_graphs(k, False), g.count(deg=cap(k), conn=False, leave=lambda v, d, h: (1 if d else h) if d in (0, k) else None, final=lambda h: h == 1), 'regular_graphs(%d, False)' % k)
    number(g, GraphSet.regular_graphs(k, True), g.count(deg=cap(k), cyc=2, leave=lambda v, d, h: h if d in (0, k) else None, close=only1, final=lambda h: h == 1), 'regular_graphs(%d, True)' % k)


def u_ffactor(g):
    # of a graph that exists, so that some factors do
    sub = [p for p in g.pairs if g.r.random() < .6]; f = [0] * g.k
    for a, b in sub: f[a] += 1; f[b] += 1
    w = lambda le: g.count(deg=lambda d, r: d + 1, conn=False, leave=lambda v, d, h: h if d == f[v] or le and d < f[v] else None, lim=6000)
    d = {g.vs[v]: x for v, x in enumerate(f)}
    number(g, GraphSet.f_factors(d), w(False), 'f_factors(%r)' % d); number(g, GraphSet.b_matchings(d), w(True), 'b_matchings(%r)' % d)


def u_comp(g):
    vs = g.far(g.r.randint(2, 4)); mk = {v: 1 for v in vs}; d = [g.vs[v] for v in vs]
    def close(c, h):
        if c[0]: return 1 if h == 0 else None
        return None if c[1] else h
    number(g, GraphSet.connected_components(d), g.count(marks=mk, cyc=2, close=close), 'connected_components(%r)' % d)
    number(g, GraphSet.steiner_trees(d), g.count(marks=mk, cyc=False, close=close), 'steiner_trees(%r)' % d)


def u_bip(g):
    number(g, GraphSet.bipartite_graphs(False), g.count(cyc=2, col=True, close=lambda c, h: None if c[3] else h), 'bipartite_graphs(False)')
    number(g, GraphSet.bipartite_graphs(True), 1 + g.count(cyc=2, col=True, close=lambda c, h: None if c[3] else only1(c, h), final=lambda h: h == 1), 'bipartite_graphs(True)')


def u_degdist(g):
    n = g.r.choice((100, 126, 127, 128, 200, 254, 255, 256)); n = min(n, g.k)
    dd = {0: -1, 1: 2, 2: n} if g.r.random() < .5 else {0: -1, 1: 2, 2: -1}; lim = dd[2]
    def leave(v, d, h):
        if d == 0: return h
        o, t = h
        if d == 1: return (o + 1, t) if o < 2 else None
        return h if lim < 0 else (o, t + 1) if t < lim else None
    number(g, GraphSet.degree_distribution_graphs(dd, True), g.count(deg=cap(2), cyc=2, glob=(0, 0), leave=lambda v, d, h: None if (x := leave(v, d, h[:2])) is None else x + h[2:],
           close=lambda c, h: h if not c[1] else h + (1,) if len(h) < 3 else None, final=lambda h: h[0] == 2 and len(h) == 3 and (lim < 0 or h[1] == lim), lim=6000), 'degree_distribution_graphs(%r, True)' % dd)


# ---- P17
def u_parts(g):
    # spanning subgraphs induced by a partition: as many as partitions into connected parts
    n = g.r.choice((1, 2, 3)); kinds = [[(min(a, b), max(a, b)) for a, b in g.pairs]]
    # a partition corresponds to the edge set closed under "ends in one part": every edge left out joins different components; checked at the end of the frontier by marking forbidden pairs
    want = parts(g, n, 9)
    number(g, GraphSet.partitions(num_comp_lb=n, num_comp_ub=n), want, 'partitions(num_comp_lb=%d, num_comp_ub=%d)' % (n, n))


def parts(g, n, lim):
    """partitions into n connected parts: frontier of part numbers with pairs that may not meet"""
    st = {((), frozenset(), 0): 1}; front = []
    for i, (a, b) in enumerate(g.pairs):
        for v in (a, b):
            if g.first[v] == i:
                front.append(v); st = {(vv + (len(set(vv)),), no, h): x for (vv, no, h), x in st.items()}
        pa, pb = front.index(a), front.index(b); keep = [j for j, v in enumerate(front) if g.last[v] != i]; nx = {}
        for (vv, no, h), x in st.items():
            for take in (0, 1):
                ca, cb = vv[pa], vv[pb]; l = vv; f = no; hh = h
                pr = frozenset((ca, cb))
                if take:
                    if ca != cb:
                        if pr in no: continue
                        l = tuple(ca if y == cb else y for y in vv)
                        f = frozenset(frozenset(ca if y == cb else y for y in q) for q in no)
                        if any(len(q) < 2 for q in f): continue
                else:
                    if ca == cb: continue
                    f = no | {pr}
                l2 = [l[j] for j in keep]; ren = {}
                for y in l2: ren.setdefault(y, len(ren))
                hh += len({l[pa], l[pb]} - set(ren))
                if hh > n: continue
                f = frozenset(frozenset(ren[y] for y in q) for q in f if all(y in ren for y in q))
                key = (tuple(ren[y] for y in l2), f, hh); nx[key] = nx.get(key, 0) + x
        st = nx; front = [front[j] for j in keep]
        if len(st) > 4000: raise Skip()
    return sum(x for (vv, no, h), x in st.items() if h == n)


# ---- P20
def u_rel(g):
    ps = [g.r.choice((.99, .999, .9, 1., .5) if g.r.random() < .3 else (.999, .99, 1.)) for _ in range(g.m)]; vs = g.far(g.r.randint(2, 4)); mk = {v: 1 << i for i, v in enumerate(vs)}; full = (1 << len(vs)) - 1
    want = g.count(marks=mk, cyc=2, prob=ps, close=lambda c, h: h if not c[0] or c[0] == full else None)
    d = dict(zip(g.es, ps)); ts = [g.vs[v] for v in vs]; got = GraphSet.reliability(d, ts)
    if not abs(got - want) < 1e-7: raise Mismatch('reliability(%r, %r) in the %s: expected %r, got %r' % (d, ts, g.what, want, got))


# ---- P18
def io(di, do):
    def f(d, r):
        i, o = d or (0, 0)
        if r: i += 1
        else: o += 1
        return (i, o) if i <= di and o <= do else None
    return f


def d_trees(g):
    for sp in (False, True):
        v = g.far(1)[0]
        number(g, DiGraphSet.rooted_trees(g.vs[v], sp), g.count(deg=io(1, 999), cyc=False, marks={v: 1}, leave=lambda w, d, h: None if w == v and d and d[0] else (h if w == v or not d or d[0] else 'bad') and h,
               close=lambda c, h: h if c[0] or (not c[1] and not sp) else None, lim=6000), 'rooted_trees(%r, %r)' % (g.vs[v], sp))


def d_forests(g):
    number(g, DiGraphSet.rooted_forests(None, False), g.count(deg=lambda d, r: (d or 0) + r if (d or 0) + r <= 1 else None, cyc=False), 'rooted_forests(None, False)')
    vs = g.far(g.r.randint(1, 3)); rt = [g.vs[v] for v in vs]
    for sp in (False, True):
        want = g.count(deg=io(1, 1) if False else (lambda d, r: (lambda i, o: (i + r, 1 if not r else o) if i + r <= 1 else None)(*(d or (0, 0)))), cyc=False,
                       leave=lambda v, d, h: (lambda i, o: None if (v in vs) != (i == 0 and o > 0) or sp and not (i or o) else h)(*(d or (0, 0))))
        number(g, DiGraphSet.rooted_forests(rt, sp), want, 'rooted_forests(%r, %r)' % (rt, sp))


def d_paths(g):
    s, t = g.far(2)
    for ham in (False, True):
        want = g.count(deg=io(1, 1), cyc=False, marks={s: 1, t: 1}, close=lambda c, h: h if c[0] or not c[1] else None,
                       leave=lambda v, d, h: h if (d == (0, 1) if v == s else d == (1, 0) if v == t else d == (1, 1) or not d and not ham) else None)
        number(g, DiGraphSet.directed_st_paths(g.vs[s], g.vs[t], ham), want, 'directed_st_paths(%r, %r, %r)' % (g.vs[s], g.vs[t], ham))


def d_cycles(g):
    w = lambda ham: g.count(deg=io(1, 1), leave=lambda v, d, h: h if d == (1, 1) or not d and not ham else None, close=only1, final=lambda h: h == 1)
    number(g, DiGraphSet.directed_cycles(), w(False), 'directed_cycles()'); number(g, DiGraphSet.directed_hamiltonian_cycles(), w(True), 'directed_hamiltonian_cycles()')


def d_degrees(g):
    sub = [p for p in g.pairs if g.r.random() < .6]; i = [0] * g.k; o = [0] * g.k
    for a, b in sub: o[a] += 1; i[b] += 1
    I = {v: set(range(i[v], i[v] + 1 + g.r.randint(0, 1))) for v in range(g.k) if g.r.random() < .9}; O = {v: set(range(o[v], o[v] + 1 + g.r.randint(0, 1))) for v in range(g.k) if g.r.random() < .9}
    def deg(d, r): x, y = d or (0, 0); return (x + 1, y) if r else (x, y + 1)
    def leave(v, d, h): x, y = d or (0, 0); return h if (v not in I or x in I[v]) and (v not in O or y in O[v]) else None
    want = g.count(deg=deg, conn=False, leave=leave, lim=6000)
    kw = {'in_degree_constraints': {g.vs[v]: range(min(s), max(s) + 1) for v, s in I.items()}, 'out_degree_constraints': {g.vs[v]: range(min(s), max(s) + 1) for v, s in O.items()}}
    number(g, DiGraphSet.graphs(**kw), want, 'graphs(%r)' % kw)


OPS = {'P15': ['forests', 'numedges', 'degrees', 'group', 'linear'], 'P16': ['trees', 'rforests', 'paths', 'cycles', 'match', 'kmatch', 'ffactor', 'comp', 'bip', 'degdist'], 'P17': ['parts'], 'P20': ['rel'],
       'P18': ['trees', 'forests', 'paths', 'cycles', 'degrees']}
SH = ['path', 'cycle', 'ladder', 'square', 'star', 'comb', 'hub2', 'wheel', 'pairs', 'tris']


def run(c):
    g = L(c); globals()[('d_' if c['u'] == 'd' else 'u_') + c['op']](g)
    return True


# these have too many states by nature
HEAVY = {('d', op, 'hub2') for op in OPS['P18']} | {('d', 'forests', 'wheel'), ('d', 'trees', 'wheel'), ('u', 'ffactor', 'hub2'), ('u', 'ffactor', 'wheel'), ('u', 'kmatch', 'hub2'), ('u', 'kmatch', 'wheel'), ('u', 'degdist', 'square'), ('u', 'rforests', 'hub2'), ('u', 'trees', 'hub2')}


def cases(prop, rng, tier, idx, nw):
    u = 'd' if prop == 'P18' else 'u'
    while True:
        op = rng.choice(OPS[prop]); n = rng.choice((rng.randint(258, 275), rng.randint(128, 140), rng.randint(60, 200))); sh = rng.choice(SH)
        if (u, op, sh) in HEAVY: continue
        yield {'u': u, 'k': 'long ' + op, 'op': op, 'sh': sh, 'n': n, 's': rng.randrange(1 << 30)}
