"""Searches within a few large subgraphs (universes of up to some 700 edges and
vertices, any edge order, frontiers of hundreds of vertices): the members that
qualify are found by looking at each.  Also the conversions of such families."""
import random
from core import Mismatch, check, eq, Skip
import gcore, graphs, graphs2, digraphs
from graphillion import GraphSet, DiGraphSet, Universe, VertexSetSet, EdgeVertexSetSet


BIAS = {'graphs': (6, 6, 2, 0), 'paths': (4,), 'steiner_paths': (4,), 'directed_st_paths': (4,), 'cycles': (0,), 'steiner_cycles': (0,), 'directed_cycles': (0,), 'directed_hamiltonian_cycles': (0,), 'perfect_matchings': (5,), 'matchings': (5,),
        'trees': (2, 3), 'rooted_trees': (2, 3, 6), 'k_factors': (0, 1, 8), 'regular_graphs': (1, 1, 1, 8, 0, 5, 7), 'steiner_trees': (2, 3)}


class W(gcore.G):
    def __init__(self, c):
        r = random.Random(c['s']); n = c['n']; d = self.d = c['u'] == 'd'
        vs = r.choice(gcore.LABELS[:3] + gcore.LABELS[4:7:2])(n) if n < 40 else r.choice((lambda k: list(range(1, k + 1)), lambda k: ['v%d' % i for i in range(k)]))(n)
        r.shuffle(vs); objs = []
        def cyc(l): return [(l[i], l[(i + 1) % len(l)]) for i in range(len(l))]
        def path(l): return list(zip(l, l[1:]))
        def sub(lo=3):
            k = r.randint(lo, n) if r.random() < .5 else r.randint(max(lo, n - 9), n) if r.random() < .5 else n; return r.sample(range(n), k)
        bias = BIAS.get(c.get('op'))
        for _ in range(r.randint(2, 4)):
            x = r.choice(bias) if bias and r.random() < .7 else r.randrange(9)
            if x == 0: objs.append(cyc(sub()))
            elif x == 1: l = sub(6); k = r.randint(3, len(l) - 3); objs += [cyc(l[:k]), cyc(l[k:])]
            elif x == 2: l = sub(); objs.append([(l[r.randrange(i)], l[i]) for i in range(1, len(l))])
            elif x == 3: l = sub(); objs.append([(l[max(0, i - r.randint(1, 3))], l[i]) for i in range(1, len(l))])
            elif x == 4: objs.append(path(sub()))
            elif x == 5: l = sub(4); objs.append([(l[i], l[i + 1]) for i in range(0, len(l) - 1, 2)])
            elif x == 6: l = sub(); objs.append([(l[0], v) for v in l[1:]])
            elif x == 7: l = r.sample(range(n), r.randint(3, 6)); objs.append([(a, b) for i, a in enumerate(l) for b in l[i + 1:]])
            else: l = sub(6); objs.append([e for k in range(0, len(l) - 2, 3) for e in cyc(l[k:k + 3])])
        if d: objs = [o if r.random() < .4 else [e if r.random() < .9 else e[::-1] for e in o] if r.random() < .5 else [e[::-1] for e in o] for o in objs]
        key = (lambda e: e) if d else frozenset; es = []; ei = {}
        for o in objs:
            for e in o:
                if key(e) not in ei: ei[key(e)] = len(es); es.append(e)
        order = list(range(len(es)))
        x = r.random()
        if x < .6: r.shuffle(order)
        elif x < .75: order = order[::2] + order[1::2]
        self.m = len(es); inv = {o: i for i, o in enumerate(order)}
        self.es = [tuple(vs[v] for v in es[o]) for o in order]
        if not d: self.es = [e if r.random() < .6 else e[::-1] for e in self.es]
        M = [sum({1 << inv[ei[key(e)]] for e in o}) for o in objs]
        self.vs = []; seen = set()
        for e in self.es:
            for v in e:
                if v not in seen: seen.add(v); self.vs.append(v)
        self.k = len(self.vs); self.vi = {v: i for i, v in enumerate(self.vs)}; self.ei = {}
        for i, (a, b) in enumerate(self.es):
            self.ei[a, b] = i
            if not d: self.ei[b, a] = i
        self.pairs = self.arcs = [(self.vi[a], self.vi[b]) for a, b in self.es]
        self._info = {}; self._i = {}
        ms = set(M)
        for m in M:
            for _ in range(2): ms.add(m ^ 1 << r.randrange(self.m))
            l = [i for i in range(self.m) if m >> i & 1]; ms.add(m ^ 1 << r.choice(l)); ms.add(sum(1 << i for i in l if r.random() < .9))
            a, b = l[0], l[-1]; ms.add(m & ~(1 << a)); ms.add(m & ~(1 << b))
            # a connected part of it
            st = [self.pairs[r.choice(l)][0]]; inn = set(st); part = 0; k = r.randint(1, max(1, len(l) // 2))
            adj = {}
            for i in l:
                p, q = self.pairs[i]; adj.setdefault(p, []).append((q, i)); adj.setdefault(q, []).append((p, i))
            while st and bin(part).count('1') < k:
                v = st.pop()
                for w, i in adj.get(v, ()):
                    if w not in inn: inn.add(w); part |= 1 << i; st.append(w)
            ms.add(part)
        for _ in range(3): ms.add(r.choice(M) | r.choice(M)); ms.add(r.choice(M) ^ r.choice(M))
        if r.random() < .5: ms.add(0)
        self._ms = frozenset(r.sample(sorted(ms), min(len(ms), r.choice((3, 12, 40))))) | {r.choice(M)}; self._M = M
        self.trav = 'as-is' if r.random() < .75 else r.choice(('bfs', 'dfs'))
        self.r = r

    def masks(self): return self._ms


def setup(c):
    g = W(c); S = DiGraphSet if g.d else GraphSet
    S.set_universe(g.es, traversal=g.trav)
    mk = (lambda e: e) if g.d else (lambda e: graphs.flipped(g.r, e))
    return g, g.r, S([[mk(e) for e in g.edges(m)] for m in g._ms])


def cmp(g, got, want, what):
    S = DiGraphSet if g.d else GraphSet
    check(isinstance(got, S), what + ' gives a ' + S.__name__, S, type(got))
    l = [g.mask(x) for x in got]; s = frozenset(l)
    if len(l) != len(s): raise Mismatch('%s: iteration repeats a graph' % what)
    if s != want:
        sh = lambda x: [g.edges(m) if bin(m).count('1') < 12 else '%d edges' % bin(m).count('1') for m in sorted(x)[:3]]
        raise Mismatch('%s within %d graphs of a universe of %d vertices and %d edges (%s): missing %s, too many %s (%d expected, %d found)' % (what[:300], len(g._ms), g.k, g.m, g.trav, sh(want - s), sh(s - want), len(want), len(s)))
    eq(got.len(), len(want), 'number of graphs: ' + what)


def member(g): return g.r.choice(g._M) if g.r.random() < .6 else g.r.choice(sorted(g._ms))


def around(r, x, hi):
    """a constraint that contains x, mostly"""
    k = r.randrange(5)
    if k == 0: return x, {x}
    if k == 1: return [x], {x}
    a = max(0, x - r.randint(0, 2)); b = x + r.randint(1, 3); st = r.choice((1, 1, 2))
    if k == 2: a = 0; b = hi + 1
    R = range(a, b, st)
    return R, set(R)


def run_search(c):
    g, r, gs = setup(c); kw = {}; tests = []; parts = c['parts']; m0 = member(g); deg, comp, ec, acy = g.info(m0)
    if 'vg' in parts:
        groups = []; used = set()
        for _ in range(r.randint(1, 3)):
            v = r.choice(g.vs); cand = [w for w in g.vs if comp[g.vi[w]] == comp[g.vi[v]] and w not in used] if r.random() < .8 else [w for w in g.vs if w not in used]
            if not cand: continue
            gr = r.sample(cand, min(len(cand), r.randint(1, 4))); used |= {w for w in g.vs if comp[g.vi[w]] == comp[g.vi[v]]} if r.random() < .8 else set(); used |= set(gr); groups.append(gr)
        if not groups: groups = [[r.choice(g.vs)]]
        gi = [[g.vi[v] for v in gr] for gr in groups]
        nc = r.choice((0, 0, 1, 2)) if r.random() < .5 else max(0, len([x for x in ec if x not in {comp[gr[0]] for gr in gi}]))
        if nc > 6 and r.random() < .5: nc = 0
        vg = groups + [[] for _ in range(nc)]; r.shuffle(vg); kw['vertex_groups'] = vg
        def tv(m):
            deg, comp, ec, acy = g.info(m); roots = []
            for gr in gi:
                cs = {comp[v] for v in gr}
                if len(cs) != 1: return False
                roots.append(cs.pop())
            if len(set(roots)) != len(roots): return False
            return len([x for x in ec if x not in roots]) == nc
        tests.append(tv)
    if 'dc' in parts:
        dc = {}; acc = {}; p = r.choice((.1, .9, 1))
        for v in g.vs:
            if r.random() < p: dc[v], acc[g.vi[v]] = around(r, deg[g.vi[v]], max(deg))
        kw['degree_constraints'] = dc
        tests.append(lambda m: all(g.info(m)[0][v] in a for v, a in acc.items()))
    if 'ne' in parts:
        kw['num_edges'], acce = around(r, bin(m0).count('1'), g.m)
        tests.append(lambda m: bin(m).count('1') in acce)
    if 'nl' in parts:
        kw['no_loop'] = True; tests.append(lambda m: g.info(m)[3])
    if 'lc' in parts:
        ws = [r.choice((-3, -1, 0, 1, 1, 2, 100)) for _ in range(g.m)]; s = sum(w for i, w in enumerate(ws) if m0 >> i & 1); lo = s - r.choice((0, 1, 5, 100)); hi = s + r.choice((0, 1, 5, 100))
        kw['linear_constraints'] = [([graphs.flipped(r, e) + (w,) for e, w in zip(g.es, ws)], (lo, hi))]
        tests.append(lambda m: lo <= sum(w for i, w in enumerate(ws) if m >> i & 1) <= hi)
    res = gs.graphs(**kw) if r.random() < .5 else GraphSet.graphs(graphset=gs, **kw)
    want = frozenset(m for m in g._ms if all(t(m) for t in tests))
    cmp(g, res, want, 'graphs(%s)' % ', '.join('%s=%.200r' % kv for kv in kw.items())); cmp(g, gs, g._ms, 'the search space after graphs()')
    return 0 < len(want) < len(g._ms)


def run_named(c):
    g, r, gs = setup(c); op = c['op']; m0 = member(g); deg0, comp0, ec0, acy0 = g.info(m0)
    call = lambda *a, **k: getattr(gs, op)(*a, **k) if r.random() < .5 else getattr(GraphSet, op)(*a, graphset=gs, **k)
    degs = lambda m: g.info(m)[0]; conn = lambda m: len(g.info(m)[2]) == 1; tree = lambda m: conn(m) and g.info(m)[3]
    span = lambda m: all(degs(m)); touched = [v for v in g.vs if deg0[g.vi[v]]] or g.vs
    root = lambda x: x[g.vi[root_]]
    def pick(n):
        if ec0 and r.random() < .8:
            k = r.choice(ec0); l = [v for v in g.vs if comp0[g.vi[v]] == k]
            return r.sample(l, min(n, len(l)))
        return r.sample(g.vs, min(n, len(g.vs)))
    together = lambda m, vs: len({g.info(m)[1][g.vi[v]] for v in vs}) == 1
    desc = op
    if op in ('connected_components', 'steiner_subgraphs'):
        vs = pick(r.randint(2, 5)); desc = '%s(%r)' % (op, vs); res = call(vs)
        def t(m): return together(m, vs) and all(x == g.info(m)[1][g.vi[vs[0]]] for x in g.info(m)[2])
    elif op == 'trees':
        ro = None if r.random() < .4 else r.choice(touched); s = r.random() < .4; desc = 'trees(%r, %r)' % (ro, s); res = call(ro, s)
        def t(m):
            if s and not span(m): return False
            return tree(m) if ro is None else g.info(m)[3] and (m == 0 or conn(m) and degs(m)[g.vi[ro]] > 0)
    elif op == 'forests':
        roots = []
        for k in r.sample(ec0, min(len(ec0), r.randint(1, 4))): roots.append(r.choice([v for v in g.vs if comp0[g.vi[v]] == k]))
        roots = roots or [g.vs[0]]; s = r.random() < .4; desc = 'forests(%r, %r)' % (roots, s); res = call(roots, s)
        def t(m):
            deg, comp, ec, acy = g.info(m); rc = [comp[g.vi[v]] for v in roots]
            return acy and len(set(rc)) == len(rc) and all(x in rc for x in ec) and (not s or all(deg[g.vi[v]] > 0 or v in roots for v in g.vs))
    elif op == 'cycles':
        h = r.random() < .3; desc = 'cycles(%r)' % h; res = call(h)
        def t(m): return conn(m) and all(d in ((2,) if h else (0, 2)) for d in degs(m))
    elif op == 'paths':
        h = r.random() < .3; ends0 = [v for v in g.vs if deg0[g.vi[v]] == 1]; n = r.choice((0, 1, 2, 2)); ts = r.sample(ends0, n) if len(ends0) >= 2 and r.random() < .8 else r.sample(g.vs, n)
        desc = 'paths(%r, is_hamilton=%r)' % (ts, h); res = call(*ts, is_hamilton=h)
        def t(m):
            d = degs(m); ends = [v for v in range(g.k) if d[v] == 1]
            return tree(m) and all(x <= 2 for x in d) and len(ends) == 2 and all(g.vi[v] in ends for v in ts) and (not h or span(m))
    elif op == 'matchings':
        res = call()
        def t(m): return all(d <= 1 for d in degs(m))
    elif op == 'perfect_matchings':
        res = call()
        def t(m): return all(d == 1 for d in degs(m))
    elif op == 'k_matchings':
        k = r.choice((0, 1, 2, 3, max(deg0), max(deg0), max(0, max(deg0) - 1))); desc = 'k_matchings(%d)' % k; res = call(k)
        def t(m): return all(d <= k for d in degs(m))
    elif op == 'k_factors':
        k = r.randint(0, 3); desc = 'k_factors(%d)' % k; res = call(k)
        def t(m): return all(d == k for d in degs(m))
    elif op in ('b_matchings', 'f_factors'):
        b = {v: deg0[g.vi[v]] for v in g.vs if deg0[g.vi[v]] or r.random() < .5}; desc = '%s(%.100r)' % (op, b); res = call(b)
        le = op == 'b_matchings'
        def t(m): return all(d == b.get(v, 0) or le and d < b.get(v, 0) for v, d in zip(g.vs, degs(m)))
    elif op == 'regular_graphs':
        k = r.randrange(3); deg = None if k == 0 else r.randint(1, 3) if k == 1 else (lambda a: (a, a + r.randint(0, 3)))(r.randint(1, 2)); con = r.random() < .6
        lo, hi = (1, g.k) if deg is None else (deg, deg) if isinstance(deg, int) else deg
        desc = '%s(%r, %r)' % (op, deg, con); res = call(deg, con)
        def t(m):
            d = {x for x in degs(m) if x}
            return m != 0 and len(d) == 1 and lo <= min(d) <= hi and (not con or conn(m))
    elif op in ('steiner_trees', 'steiner_cycles', 'steiner_paths'):
        vs = pick(r.randint(2, 4)); desc = '%s(%r)' % (op, vs)
        if len(vs) < 2: raise Skip()
        res = call(vs)
        def t(m):
            d = degs(m)
            if not (conn(m) and all(d[g.vi[v]] for v in vs)): return False
            if op == 'steiner_trees': return g.info(m)[3]
            if op == 'steiner_cycles': return all(x in (0, 2) for x in d)
            return g.info(m)[3] and all(x <= 2 for x in d)
    elif op == 'degree_distribution_graphs':
        cnt = {}
        for d in deg0: cnt[d] = cnt.get(d, 0) + 1
        dd = {d: n if r.random() < .6 else -1 for d, n in cnt.items()}
        for d in (0, 1, 2, 3):
            if r.random() < .4: dd[d] = -1
        con = r.random() < .5; desc = 'degree_distribution_graphs(%r, %r)' % (dd, con); res = call(dd, con)
        def t(m):
            d = degs(m)
            if any(x not in dd for x in d): return False
            if any(n >= 0 and d.count(x) != n for x, n in dd.items()): return False
            return not con or conn(m)
    elif op == 'letter_P_graphs':
        res = call()
        def t(m): d = degs(m); return conn(m) and d.count(1) == 1 and d.count(3) == 1 and all(x <= 3 for x in d)
    want = frozenset(m for m in g._ms if t(m))
    cmp(g, res, want, desc); cmp(g, gs, g._ms, 'the search space after ' + op)
    return len(want) > 0


def run_conv(c):
    g, r, gs = setup(c); ms = g._ms
    touched = lambda m: [g.vs[v] for v in range(g.k) if g.info(m)[0][v]]
    vs = gs.to_vertexsetset(); check(isinstance(vs, VertexSetSet), 'type', VertexSetSet, type(vs))
    want = {frozenset(touched(m)) for m in ms}; l = [frozenset(x) for x in vs]
    if set(l) != want or len(l) != len(want): raise Mismatch('to_vertexsetset of %d graphs in a universe of %d vertices and %d edges (%s): sizes %s expected, %s found' % (len(ms), g.k, g.m, g.trav, sorted(map(len, want)), sorted(map(len, l))))
    check(vs == VertexSetSet([sorted(x, key=str) for x in want]), 'equal to the same family built directly')
    ev = gs.to_edgevertexsetset(); kind = Universe.edge_vertex_kind
    def key(x):
        e = [y for y in x if isinstance(y, tuple) and kind.get(y)]; e_ = set(e)
        return g.mask(e), frozenset(y for y in x if y not in e_)
    want = {(m, frozenset(touched(m))) for m in ms}; l = [key(x) for x in ev]
    if set(l) != want or len(l) != len(want): raise Mismatch('to_edgevertexsetset of %d graphs in a universe of %d vertices and %d edges (%s): %d members expected, %d found' % (len(ms), g.k, g.m, g.trav, len(want), len(l)))
    check(ev == EdgeVertexSetSet([g.edges(m) + touched(m) for m in ms]), 'equal to the same family built directly')
    cmp(g, gs, ms, 'the converted graph set')
    return True


def run_di(c):
    g, r, gs = setup(c); op = c['op']; m0 = member(g); info = lambda m: digraphs.D.info(g, m); i0, o0, a0, c0 = info(m0)
    call = lambda *a, **k: getattr(gs, op)(*a, **k) if r.random() < .5 else getattr(DiGraphSet, op)(*a, graphset=gs, **k)
    one = lambda m: (lambda i: len({x for v, x in enumerate(i[3]) if i[0][v] + i[1][v]}) == 1)(info(m))
    iso = lambda m: [v for v in range(g.k) if not info(m)[0][v] + info(m)[1][v]]
    desc = op
    if op in ('directed_cycles', 'directed_hamiltonian_cycles'):
        res = call(); ok = (1,) if 'ham' in op else (0, 1)
        def t(m): i, o, a, c_ = info(m); return one(m) and all(x == y and x in ok for x, y in zip(i, o))
    elif op == 'directed_st_paths':
        S0 = [v for v in range(g.k) if not i0[v] and o0[v]]; T0 = [v for v in range(g.k) if i0[v] and not o0[v]]
        s, t_ = (r.choice(S0), r.choice(T0)) if S0 and T0 and r.random() < .8 else r.sample(range(g.k), 2); h = r.random() < .3
        desc = '%s(%r, %r, %r)' % (op, g.vs[s], g.vs[t_], h); res = call(g.vs[s], g.vs[t_], h)
        def t(m):
            i, o, a, c_ = info(m)
            return one(m) and (i[s], o[s], i[t_], o[t_]) == (0, 1, 1, 0) and all(i[v] == o[v] <= 1 for v in range(g.k) if v not in (s, t_)) and a and not (h and iso(m))
    elif op == 'rooted_forests':
        R0 = [v for v in range(g.k) if not i0[v] and o0[v]]; R = None if r.random() < .4 else set(R0) if R0 and r.random() < .8 else set(r.sample(range(g.k), 2)); sp = r.random() < .3
        desc = '%s(%r, %r)' % (op, R and [g.vs[v] for v in R], sp); res = call(None if R is None else [g.vs[v] for v in R], sp)
        def t(m):
            i, o, a, c_ = info(m)
            if not a or max(i) > 1 or sp and iso(m): return False
            return R is None or R == {v for v in range(g.k) if i[v] == 0 and o[v] > 0}
    elif op == 'rooted_trees':
        R0 = [v for v in range(g.k) if not i0[v] and o0[v]]; R = r.choice(R0) if R0 and r.random() < .8 else r.randrange(g.k); sp = r.random() < .3
        desc = '%s(%r, %r)' % (op, g.vs[R], sp); res = call(g.vs[R], sp)
        def t(m):
            i, o, a, c_ = info(m)
            if sp and iso(m): return False
            return m == 0 or a and one(m) and i[R] == 0 and o[R] > 0 and all(i[v] == 1 for v in range(g.k) if v != R and i[v] + o[v])
    else:
        kw = {}; acc = []
        for x, n, d0 in ((0, 'in_degree_constraints', i0), (1, 'out_degree_constraints', o0)):
            p = r.choice((0, .2, 1)); kw[n] = {}
            for v in range(g.k):
                if r.random() < p: kw[n][g.vs[v]], s = around(r, d0[v], max(d0)); acc.append((x, v, s))
            if not kw[n]: del kw[n]
        desc = 'graphs(%.200r)' % kw; res = call(**kw)
        def t(m): return all(info(m)[x][v] in s for x, v, s in acc)
    want = frozenset(m for m in g._ms if t(m))
    cmp(g, res, want, desc); cmp(g, gs, g._ms, 'the search space after ' + op)
    return len(want) > 0


NAMED = ['connected_components', 'steiner_subgraphs', 'trees', 'forests', 'cycles', 'paths', 'matchings', 'perfect_matchings', 'k_matchings', 'k_factors', 'b_matchings', 'f_factors', 'regular_graphs', 'regular_graphs', 'steiner_trees',
         'steiner_cycles', 'steiner_paths', 'degree_distribution_graphs', 'degree_distribution_graphs', 'letter_P_graphs']
KIND = {'P15': 'search', 'P16': 'named', 'P18': 'di', 'P19': 'conv'}


def run(c): return globals()['run_' + c['f']](c)


def cases(prop, rng, tier, idx, nw):
    f = KIND[prop]
    while True:
        n = rng.choice((rng.randint(6, 40), rng.randint(100, 200), rng.randint(250, 340)) if f == 'conv' else (rng.randint(6, 40), rng.randint(60, 200), rng.randint(250, 300), rng.randint(500, 600)))
        op = rng.choice(NAMED)
        if f == 'named' and op == 'regular_graphs' and rng.random() < .6: n = rng.randint(520, 640)
        c = {'u': 'd' if f == 'di' else 'u', 'k': 'within', 'f': f, 'n': n, 's': rng.randrange(1 << 30)}
        if f == 'search': c['parts'] = [p for p in ('vg', 'dc', 'ne', 'nl', 'lc') if rng.random() < .45]
        elif f == 'named': c['op'] = op
        elif f == 'di': c['op'] = rng.choice(digraphs.OPS)
        if c.get('op'): c['k'] = 'within ' + c['op']
        yield c
