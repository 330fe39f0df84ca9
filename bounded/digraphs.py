"""Directed graph searches against enumeration of all sub-digraphs."""
import itertools, random
from core import Mismatch, check, eq, Skip
from gcore import LABELS
from graphs import rngc
from graphillion import DiGraphSet


class D:
    def __init__(self, spec):
        rng = random.Random(spec['seed']); k, m = spec['k'], spec['m']
        vs = rng.choice(LABELS)(k); rng.shuffle(vs)
        allp = list(itertools.permutations(vs, 2)); m = min(m, len(allp))
        sh = spec['shape']
        if sh == 1:   # antiparallel pairs
            es = []
            for a, b in rng.sample(list(itertools.combinations(vs, 2)), max(1, m // 2)) if k > 1 and len(allp) // 2 >= max(1, m // 2) else itertools.combinations(vs, 2): es += [(a, b), (b, a)]
        elif sh == 2:  # a cycle and more
            es = [(vs[i], vs[(i + 1) % k]) for i in range(k)]
            rest = [p for p in allp if p not in es]; rng.shuffle(rest); es += rest[:max(0, m - len(es))]
        elif sh == 3:  # a tree from the first vertex and more
            es = [(vs[rng.randrange(i)], vs[i]) for i in range(1, k)]
            rest = [p for p in allp if p not in es]; rng.shuffle(rest); es += rest[:max(0, m - len(es))]
        else: es = rng.sample(allp, m)
        rng.shuffle(es); self.es = es; self.m = len(es); self.vs = []
        for e in es:
            for v in e:
                if v not in self.vs: self.vs.append(v)
        self.k = len(self.vs); self.vi = {v: i for i, v in enumerate(self.vs)}; self.ei = {e: i for i, e in enumerate(es)}
        self.arcs = [(self.vi[a], self.vi[b]) for a, b in es]
        self.trav = rng.choice(('greedy', 'bfs', 'dfs', 'as-is')); self._i = {}

    def info(self, m):
        """(in-degrees, out-degrees, acyclic as an undirected graph, component numbers)"""
        r = self._i.get(m)
        if r is None:
            ind = [0] * self.k; out = [0] * self.k; par = list(range(self.k)); acy = True
            def find(x):
                while par[x] != x: x = par[x]
                return x
            for i, (a, b) in enumerate(self.arcs):
                if m >> i & 1:
                    out[a] += 1; ind[b] += 1
                    x, y = find(a), find(b)
                    if x == y: acy = False
                    else: par[x] = y
            r = self._i[m] = (ind, out, acy, [find(v) for v in range(self.k)])
        return r

    def edges(self, m): return [self.es[i] for i in range(self.m) if m >> i & 1]

    def mask(self, es):
        m = 0
        for e in es: m |= 1 << self.ei[e]
        return m


def run(c):
    g = D(c['g']); r = random.Random(c['r']); op = c['op']
    DiGraphSet.set_universe(g.es, traversal=g.trav)
    gs = ms = None
    if c['sp']:
        p = r.choice((.3, .7, 1)); ms = frozenset(m for m in range(1 << g.m) if r.random() < p); gs = DiGraphSet([g.edges(m) for m in ms])
    call = (lambda *a, **k: getattr(gs, op)(*a, **k) if r.random() < .5 else getattr(DiGraphSet, op)(*a, graphset=gs, **k)) if gs is not None else (lambda *a, **k: getattr(DiGraphSet, op)(*a, **k))
    one = lambda m: len({x for v, x in enumerate(g.info(m)[3]) if g.info(m)[0][v] + g.info(m)[1][v]}) == 1
    iso = lambda m, v: g.info(m)[0][v] + g.info(m)[1][v] == 0
    d = op
    if op == 'directed_cycles':
        res = call()
        def t(m): i, o, a, c_ = g.info(m); return one(m) and all(i[v] == o[v] <= 1 for v in range(g.k))
    elif op == 'directed_hamiltonian_cycles':
        res = call()
        def t(m): i, o, a, c_ = g.info(m); return one(m) and all(i[v] == o[v] == 1 for v in range(g.k))
    elif op == 'directed_st_paths':
        s, t_ = r.sample(g.vs, 2); h = r.random() < .4; d = '%s(%r, %r, %r)' % (op, s, t_, h); res = call(s, t_, h)
        S, T = g.vi[s], g.vi[t_]
        def t(m):
            i, o, a, c_ = g.info(m)
            return one(m) and i[S] == 0 and o[S] == 1 and i[T] == 1 and o[T] == 0 and all(i[v] == o[v] <= 1 for v in range(g.k) if v not in (S, T)) and a and not (h and any(iso(m, v) for v in range(g.k)))
    elif op == 'rooted_forests':
        roots = None if r.random() < .4 else r.sample(g.vs, r.randint(1, min(3, g.k))); sp = r.random() < .4; d = '%s(%r, %r)' % (op, roots, sp); res = call(roots, sp)
        R = None if roots is None else {g.vi[v] for v in roots}
        def t(m):
            i, o, a, c_ = g.info(m)
            if not a or any(x > 1 for x in i) or (sp and any(iso(m, v) for v in range(g.k))): return False
            return R is None or R == {v for v in range(g.k) if i[v] == 0 and o[v] > 0}
    elif op == 'rooted_trees':
        root = r.choice(g.vs); sp = r.random() < .4; d = '%s(%r, %r)' % (op, root, sp); res = call(root, sp); R = g.vi[root]
        def t(m):
            i, o, a, c_ = g.info(m)
            if sp and any(iso(m, v) for v in range(g.k)): return False
            return m == 0 or (a and one(m) and i[R] == 0 and o[R] > 0 and all(i[v] == 1 for v in range(g.k) if v != R and not iso(m, v)))
    else:
        kw = {}; acc = []
        for x, n in enumerate(('in_degree_constraints', 'out_degree_constraints')):
            if r.random() < .7:
                kw[n] = {}
                for v in g.vs:
                    if r.random() < .6: kw[n][v], s = rngc(r, 2); acc.append((x, g.vi[v], s))
        d = 'graphs(%r)' % kw; res = call(**kw)
        def t(m): return all(g.info(m)[x][v] in s for x, v, s in acc)
    want = frozenset(m for m in range(1 << g.m) if (ms is None or m in ms) and t(m))
    l = [g.mask(x) for x in res]; s = frozenset(l)
    check(isinstance(res, DiGraphSet), 'type', DiGraphSet, type(res))
    if s != want: raise Mismatch('%s in the digraph %s (%s)%s: missing %s, too many %s' % (d, g.es, g.trav, '' if ms is None else ' within %d graphs' % len(ms), [g.edges(m) for m in sorted(want - s)[:3]], [g.edges(m) for m in sorted(s - want)[:3]]))
    eq(len(l), len(s), 'iteration repeats a graph'); eq(res.len(), len(want), 'number of graphs: ' + d)
    if ms is not None: eq(frozenset(g.mask(x) for x in gs), ms, 'search space after ' + d)
    return len(want) > 0


OPS = ['directed_cycles', 'directed_hamiltonian_cycles', 'directed_st_paths', 'directed_st_paths', 'rooted_forests', 'rooted_trees', 'graphs']


def cases(prop, rng, tier, idx, nw):
    while True:
        sh = rng.choice((0, 1, 2, 2, 3)); k = rng.randint(2, 6)
        if sh == 2: k = rng.randint(2, 5)
        yield {'k': 'digraph', 'op': rng.choice(OPS), 'g': {'seed': rng.randrange(1 << 30), 'k': k, 'm': rng.randint(k, 9), 'shape': sh}, 'r': rng.randrange(1 << 30), 'sp': int(rng.random() < .3)}
