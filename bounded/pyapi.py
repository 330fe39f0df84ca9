"""The Python classes (setset, GraphSet, VertexSetSet, EdgeVertexSetSet,
DiGraphSet) over universes of arbitrary objects: the same definitions as in
fam.py, through the public methods, with elements and sets given in every form
the documentation allows."""
import itertools, random, os, tempfile
from core import Mismatch, check, eq, Skip
import fam
from fam import subsets, rfam, lst, fam_of, o_join, o_meet, o_quo, o_rem, o_min, o_max, o_sub, o_sup, o_nsub, o_nsup, o_hit, o_rs, o_as, o_ras
from graphillion import setset, GraphSet, VertexSetSet, EdgeVertexSetSet, DiGraphSet, Universe

LABELS = [
    lambda k: list(range(1, k + 1)),
    lambda k: [10 * i + 3 for i in range(k)],
    lambda k: ['v%d' % i for i in range(k)],
    lambda k: [chr(97 + i) for i in range(k)],
    lambda k: list(range(-2, k - 2)),
    lambda k: [str(i) for i in range(1, k + 1)],
]


class Ad:
    """one class over one universe; elements are the numbers 1..n here"""

    def __init__(self, spec):
        self.spec = spec; self.cls = spec['cls']; rng = random.Random(spec['useed']); n = spec['n']
        self.has = lambda m: hasattr(self.C, m)
        getattr(self, 'init_' + self.cls)(rng, n)
        self.n = len(self.els)
        self.idx = {self.key(e): i + 1 for i, e in enumerate(self.els)}
        if len(self.idx) != self.n: raise AssertionError('generator: repeated elements')

    def labels(self, rng, k):
        l = rng.choice(LABELS)(k); rng.shuffle(l); return l

    def init_setset(self, rng, n):
        self.C = setset
        kind = rng.randrange(4)
        if kind == 0: self.els = ['e%d' % i for i in range(n)]
        elif kind == 1: self.els = [7 * i - 5 for i in range(n)]
        elif kind == 2: self.els = [(i, 'x' * (i % 3)) for i in range(n)]
        else: self.els = [(i, i + 1) if i % 2 else 't%d' % i for i in range(n)]
        rng.shuffle(self.els)
        setset.set_universe(self.els)
        eq(list(setset.universe()), self.els, 'universe of setset')
        self.w = {}

    def graph(self, rng, m, directed=False):
        """m distinct edges, any orientation"""
        k = 2
        while k * (k - 1) // 2 < m: k += 1
        k += rng.randrange(3)
        vs = self.labels(rng, k)
        allp = list(itertools.combinations(vs, 2))
        es = rng.sample(allp, m)
        if rng.random() < .5:      # connected more often than not
            es.sort(key=lambda e: max(vs.index(e[0]), vs.index(e[1]))); rng.shuffle(es)
        if directed:
            allp = [(a, b) for a in vs for b in vs if a != b]; es = rng.sample(allp, m)
            return es
        return [(b, a) if rng.random() < .5 else (a, b) for a, b in es]

    def init_GraphSet(self, rng, n):
        self.C = GraphSet
        self.els = self.graph(rng, n)
        self.setg(rng)

    def setg(self, rng):
        self.w = {}
        given = []
        for e in self.els:
            if rng.random() < .4:
                w = rng.choice((-3, -1, 0, .5, 2, 10)); self.w[e] = w; given.append(e + (w,))
            else: given.append(e)
        self.trav = rng.choice(('greedy', 'bfs', 'dfs', 'as-is'))
        Universe.set_universe(given, traversal=self.trav)
        eq(frozenset(frozenset(e[:2]) for e in GraphSet.universe()), frozenset(frozenset(e) for e in self.els), 'universe of GraphSet')
        eq(sorted(map(repr, GraphSet.universe())), sorted(map(repr, given)), 'edges and weights of the universe')
        if self.trav == 'as-is': eq(list(GraphSet.universe()), given, 'universe taken as is')

    def init_VertexSetSet(self, rng, n):
        self.C = VertexSetSet
        vs = self.labels(rng, n)
        rng.shuffle(vs)
        es = [(vs[i], vs[i + 1]) for i in range(n - 1)]
        if n == 1: es = [(vs[0], 'zz' if isinstance(vs[0], str) else 99)]; vs = [vs[0], es[0][1]]
        extra = [p for p in itertools.combinations(vs, 2) if p not in es and p[::-1] not in es]
        es += rng.sample(extra, min(len(extra), rng.randrange(3)))
        rng.shuffle(es)
        ws = {v: rng.choice((-2, 0, 1, 1, 3, 2.5)) for v in vs if rng.random() < .5}
        Universe.set_universe(es, traversal=rng.choice(('greedy', 'bfs', 'dfs', 'as-is')), weights=ws)
        self.els = vs; self.w = ws
        eq(sorted(map(repr, VertexSetSet.universe())), sorted(repr(v) if ws.get(v, 1) == 1 else repr((v, ws[v])) for v in vs), 'universe of VertexSetSet')

    def init_EdgeVertexSetSet(self, rng, n):
        self.C = EdgeVertexSetSet
        m = max(1, n // 2)
        es = self.graph(rng, m)
        self.els = es; self.setg(rng)
        vs = []
        for e in es:
            for v in e:
                if v not in vs: vs.append(v)
        self.es = es; self.els = es + vs
        eq(frozenset(map(self.key, Universe.edge_vertex_universe())), frozenset(map(self.key, self.els)), 'universe of EdgeVertexSetSet')

    def init_DiGraphSet(self, rng, n):
        self.C = DiGraphSet
        self.els = self.graph(rng, n, True)
        self.w = {}
        given = []
        for e in self.els:
            if rng.random() < .4:
                w = rng.choice((-3, -1, 0, .5, 2, 10)); self.w[e] = w; given.append(e + (w,))
            else: given.append(e)
        tr = rng.choice(('greedy', 'bfs', 'dfs', 'as-is'))
        DiGraphSet.set_universe(given, traversal=tr)
        eq(sorted(map(repr, DiGraphSet.universe())), sorted(map(repr, given)), 'edges and weights of the directed universe')

    def key(self, e):
        """what identifies an element"""
        if self.cls in ('GraphSet', 'EdgeVertexSetSet') and isinstance(e, tuple): return frozenset(e[:2])
        return e

    def el(self, i, r):
        e = self.els[i - 1]
        if self.cls in ('GraphSet', 'EdgeVertexSetSet') and isinstance(e, tuple) and r.random() < .4: return (e[1], e[0])
        return e

    def st(self, s, r):
        l = [self.el(i, r) for i in sorted(s)]; r.shuffle(l)
        k = r.randrange(3)
        return set(l) if k == 0 or self.cls == 'setset' else frozenset(l) if k == 1 else l

    def close(self, f):
        """the families that can be given to EdgeVertexSetSet: endpoints belong to the sets"""
        if self.cls != 'EdgeVertexSetSet': return f
        out = set()
        for s in f:
            s = set(s)
            for i in list(s):
                e = self.els[i - 1]
                if i <= len(self.es):
                    for v in e: s.add(self.idx[v])
            out.add(frozenset(s))
        return frozenset(out)

    def mk(self, f, r):
        l = [self.st(s, r) for s in sorted(f, key=sorted)]; r.shuffle(l)
        return self.C(l)

    def can(self, g):
        out = []
        for e in g:
            k = self.key(e)
            if k not in self.idx: raise Mismatch('element %r is not in the universe %r' % (e, self.els))
            out.append(self.idx[k])
        if len(out) != len(set(out)): raise Mismatch('set %r repeats an element' % (g,))
        return frozenset(out)

    def out(self, o):
        l = [self.can(g) for g in o]
        r = frozenset(l)
        if len(r) != len(l): raise Mismatch('iteration repeats a set: %r' % (l,))
        return r

    def same(self, got, want, what):
        check(isinstance(got, self.C), what + ' is a ' + self.cls, self.C, type(got))
        eq(self.out(got), want, '%s [%s over %r]' % (what, self.cls, self.els))
        eq(got.len(), len(want), 'len() after ' + what)

    def wd(self, ws, r):
        """dict of a value per element"""
        l = [(self.el(i, r), w) for i, w in ws.items()]; r.shuffle(l); return dict(l)


def B(*names): return names


# name -> (property, method names by class or common, definition)
BIN = {
    'union': ('P01', lambda a, b: a.union(b), lambda f, g, n: f | g), '|': ('P01', lambda a, b: a | b, lambda f, g, n: f | g),
    'intersection': ('P01', lambda a, b: a.intersection(b), lambda f, g, n: f & g), '&': ('P01', lambda a, b: a & b, lambda f, g, n: f & g),
    'difference': ('P01', lambda a, b: a.difference(b), lambda f, g, n: f - g), '-': ('P01', lambda a, b: a - b, lambda f, g, n: f - g),
    'symmetric_difference': ('P01', lambda a, b: a.symmetric_difference(b), lambda f, g, n: f ^ g), '^': ('P01', lambda a, b: a ^ b, lambda f, g, n: f ^ g),
    'join': ('P02', lambda a, b: a.join(b), o_join), 'meet': ('P02', lambda a, b: a.meet(b), o_meet),
    'quotient': ('P02', lambda a, b: a.quotient(b), o_quo), '/': ('P02', lambda a, b: a / b, o_quo),
    'remainder': ('P02', lambda a, b: a.remainder(b), o_rem), '%': ('P02', lambda a, b: a % b, o_rem),
    'subsets': ('P04', lambda a, b: a.subsets(b), o_sub), 'supersets': ('P04', lambda a, b: a.supersets(b), o_sup),
    'non_subsets': ('P04', lambda a, b: a.non_subsets(b), o_nsub), 'non_supersets': ('P04', lambda a, b: a.non_supersets(b), o_nsup),
    'subgraphs': ('P04', lambda a, b: a.subgraphs(b), o_sub), 'supergraphs': ('P04', lambda a, b: a.supergraphs(b), o_sup),
    'non_subgraphs': ('P04', lambda a, b: a.non_subgraphs(b), o_nsub), 'non_supergraphs': ('P04', lambda a, b: a.non_supergraphs(b), o_nsup),
    'including': ('P04', lambda a, b: a.including(b), o_sup), 'excluding': ('P04', lambda a, b: a.excluding(b), o_nsup), 'included': ('P04', lambda a, b: a.included(b), o_sub),
}
OPM = {'|': '__or__', '&': '__and__', '-': '__sub__', '^': '__xor__', '/': '__truediv__', '%': '__mod__', '~': '__invert__', '|=': '__ior__', '&=': '__iand__', '-=': '__isub__', '^=': '__ixor__', '/=': '__itruediv__', '%=': '__imod__'}
UN = {
    'minimal': ('P03', lambda a: a.minimal(), o_min), 'maximal': ('P03', lambda a: a.maximal(), o_max),
    '~': ('P06', lambda a: ~a, lambda f, n: frozenset(subsets(n)) - f),
    'hitting': ('P06', lambda a: a.hitting(), o_hit), 'blocking': ('P06', lambda a: a.blocking(), o_hit),
    'complement': ('P06', lambda a: a.complement(), lambda f, n: frozenset(frozenset(range(1, n + 1)) - s for s in f)),
    'copy': ('P08', lambda a: a.copy(), lambda f, n: f),
    'remove_some_element': ('P13', lambda a: a.remove_some_element(), o_rs), 'add_some_element': ('P13', lambda a: a.add_some_element(), o_as), 'remove_add_some_elements': ('P13', lambda a: a.remove_add_some_elements(), o_ras),
    'remove_some_edge': ('P13', lambda a: a.remove_some_edge(), o_rs), 'add_some_edge': ('P13', lambda a: a.add_some_edge(), o_as), 'remove_add_some_edges': ('P13', lambda a: a.remove_add_some_edges(), o_ras),
    'remove_some_vertex': ('P13', lambda a: a.remove_some_vertex(), o_rs), 'add_some_vertex': ('P13', lambda a: a.add_some_vertex(), o_as), 'remove_add_some_vertices': ('P13', lambda a: a.remove_add_some_vertices(), o_ras),
}
SIZE = {'smaller': lambda f, k: frozenset(s for s in f if len(s) < k), 'larger': lambda f, k: frozenset(s for s in f if len(s) > k),
        'set_size': lambda f, k: frozenset(s for s in f if len(s) == k), 'graph_size': lambda f, k: frozenset(s for s in f if len(s) == k), 'len': lambda f, k: frozenset(s for s in f if len(s) == k)}
INPL = {
    'update': (lambda a, b: a.update(b), lambda f, g, n: f | g), 'intersection_update': (lambda a, b: a.intersection_update(b), lambda f, g, n: f & g),
    'difference_update': (lambda a, b: a.difference_update(b), lambda f, g, n: f - g), 'symmetric_difference_update': (lambda a, b: a.symmetric_difference_update(b), lambda f, g, n: f ^ g),
    'quotient_update': (lambda a, b: a.quotient_update(b), o_quo), 'remainder_update': (lambda a, b: a.remainder_update(b), o_rem),
}


def avail(C, op):
    if op == 'complement' and C is setset: return False     # the raw method
    return hasattr(C, OPM.get(op, op))


def base(c):
    ad = Ad(c['u']); r = random.Random(c.get('r', 0))
    fit = lambda x: ad.close(frozenset(frozenset(e for e in s if e <= ad.n) for s in fam_of(x)))
    f = fit(c['f']) if 'f' in c else None
    g = fit(c['g']) if 'g' in c else None
    return ad, r, f, g


def run(c): return globals()['run_' + c['k']](c)


def pres(f): return lst(f)


def run_bin(c):
    ad, r, f, g = base(c)
    for op in c['op']:
        if not avail(ad.C, op): continue
        p, real, spec = BIN[op]
        try: want = spec(f, g, ad.n)
        except Skip: continue
        a, b = ad.mk(f, r), ad.mk(g, r)
        ad.same(real(a, b), want, '%s of %s and %s' % (op, pres(f), pres(g)))
        ad.same(a, f, 'left operand after ' + op); ad.same(b, g, 'right operand after ' + op)
    return bool(f) and bool(g)


def run_cmp(c):
    ad, r, f, g = base(c)
    a, b = ad.mk(f, r), ad.mk(g, r)
    for op, (real, spec) in fam.CMP.items():
        eq(bool(real(a, b)), spec(f, g), '%s %s %s [%s]' % (pres(f), op, pres(g), ad.cls))
    eq(bool(a), bool(f), 'truth value of %s [%s]' % (pres(f), ad.cls))
    eq(len(a), len(f), 'len of %s [%s]' % (pres(f), ad.cls))
    return bool(f) and bool(g)


def vertices(ad): return sorted({v for e in ad.els for v in e}, key=repr) if ad.cls in ('GraphSet', 'DiGraphSet') else []


def inc(ad, v): return frozenset(i + 1 for i, e in enumerate(ad.els) if v in e)


def run_member(c):
    ad, r, f, _ = base(c)
    a = ad.mk(f, r)
    subs = subsets(ad.n) if ad.n <= 5 else [frozenset(e for e in range(1, ad.n + 1) if r.random() < .5) for _ in range(20)] + list(f)
    for s in subs: eq(ad.st(s, r) in a, s in f, '%s in %s [%s over %r]' % (sorted(s), pres(f), ad.cls, ad.els))
    for e in range(1, ad.n + 1):
        x = ad.el(e, r)
        eq(x in a, any(e in s for s in f), 'element %r occurs in %s [%s over %r]' % (x, pres(f), ad.cls, ad.els))
    for v in vertices(ad): eq(v in a, any(s & inc(ad, v) for s in f), 'vertex %r occurs in %s [%s over %r]' % (v, pres(f), ad.cls, ad.els))
    return bool(f)


def run_multi(c):
    ad, r, _, _ = base(c)
    fs = [ad.close(frozenset(frozenset(e for e in s if e <= ad.n) for s in fam_of(x))) for x in c['fs']]
    for name, comb in (('union', lambda x, y: x | y), ('intersection', lambda x, y: x & y), ('difference', lambda x, y: x - y), ('symmetric_difference', lambda x, y: x ^ y)):
        want = fs[0]
        for g in fs[1:]: want = comb(want, g)
        objs = [ad.mk(f, r) for f in fs]
        res = getattr(objs[0], name)(*objs[1:])
        ad.same(res, want, '%s of %s' % (name, [pres(f) for f in fs]))
        for o, f in zip(objs, fs): ad.same(o, f, 'operand after ' + name)
        a = objs[0].copy(); getattr(a, {'union': 'update'}.get(name, name + '_update'))(*objs[1:])
        ad.same(a, want, '%s in place of %s' % (name, [pres(f) for f in fs]))
        for o, f in zip(objs, fs): ad.same(o, f, 'argument after in-place ' + name)


def run_un(c):
    ad, r, f, _ = base(c)
    for op in c['op']:
        if not avail(ad.C, op): continue
        p, real, spec = UN[op]
        a = ad.mk(f, r)
        ad.same(real(a), spec(f, ad.n), '%s of %s' % (op, pres(f)))
        ad.same(a, f, 'operand after ' + op)
    return bool(f)


def run_elt(c):
    ad, r, f, _ = base(c); C = ad.C
    a = ad.mk(f, r)
    for e in range(1, ad.n + 1):
        w1, w0 = frozenset(s for s in f if e in s), frozenset(s for s in f if e not in s)
        names = (('supersets', w1), ('non_supersets', w0)) if C is setset else (('including', w1), ('excluding', w0))
        for m, w in names:
            x = ad.el(e, r); ad.same(getattr(a, m)(x), w, '%s(%r) of %s' % (m, x, pres(f)))
    if C is not setset:
        for s in list(f)[:3] + subsets(min(ad.n, 3)):
            s = next(iter(ad.close(frozenset([s]))))
            x = ad.st(s, r); ad.same(a.including(x), frozenset(t for t in f if t >= s), 'including(%r) of %s' % (x, pres(f)))
            x = ad.st(s, r); ad.same(a.excluding(x), frozenset(t for t in f if not t >= s), 'excluding(%r) of %s' % (x, pres(f)))
            x = ad.st(s, r); ad.same(a.included(x), frozenset(t for t in f if t <= s), 'included(%r) of %s' % (x, pres(f)))
    for v in vertices(ad):
        i = inc(ad, v)
        ad.same(a.including(v), frozenset(s for s in f if s & i), 'including vertex %r of %s' % (v, pres(f)))
        ad.same(a.excluding(v), frozenset(s for s in f if not s & i), 'excluding vertex %r of %s' % (v, pres(f)))
    ad.same(a, f, 'operand after the filters')
    return bool(f)


def run_size(c):
    ad, r, f, _ = base(c)
    a = ad.mk(f, r)
    for m, spec in SIZE.items():
        if not ad.has(m): continue
        for k in range(ad.n + 2): ad.same(getattr(a, m)(k), spec(f, k), '%s(%d) of %s' % (m, k, pres(f)))
    ad.same(a, f, 'operand after the size filters')
    return bool(f)


def run_constr(c):
    ad, r, _, _ = base(c)
    if ad.C is EdgeVertexSetSet: return False
    i_, e_ = [x for x in c['inc'] if x <= ad.n], [x for x in c['exc'] if x <= ad.n]
    want = frozenset(s for s in subsets(ad.n) if all(e in s for e in i_) and not any(e in s for e in e_))
    d = {}
    if i_ or r.random() < .5: d['include'] = [ad.el(e, r) for e in i_]
    if e_ or r.random() < .5: d['exclude'] = [ad.el(e, r) for e in e_]
    ad.same(ad.C(d), want, 'sets with %s and without %s' % (i_, e_))


def run_flip(c):
    ad, r, f, _ = base(c)
    if not ad.has('flip'): return False
    for e in range(1, ad.n + 1):
        a = ad.mk(f, r); b = a.copy(); x = ad.el(e, r)
        a.flip(x)
        ad.same(a, frozenset(s ^ {e} for s in f), 'flip(%r) of %s' % (x, pres(f))); ad.same(b, f, 'copy made before the flip')
    if ad.C is setset:
        a = ad.mk(f, r); a.flip(); ad.same(a, frozenset(s ^ frozenset(range(1, ad.n + 1)) for s in f), 'flip() of %s' % pres(f))
    return bool(f)


def run_inpl(c):
    ad, r, f, g = base(c)
    for op, (real, spec) in INPL.items():
        if not ad.has(op): continue
        try: want = spec(f, g, ad.n)
        except Skip: continue
        a, b = ad.mk(f, r), ad.mk(g, r); cp = a.copy(); cons = ad.C(a); it = iter(a)
        first = [ad.can(next(it))] if f and r.random() < .5 else []
        real(a, b)
        ad.same(a, want, '%s of %s with %s' % (op, pres(f), pres(g)))
        ad.same(b, g, 'argument after ' + op); ad.same(cp, f, 'copy made before ' + op); ad.same(cons, f, 'object constructed from the target before ' + op)
        if first: eq(frozenset(first + [ad.can(s) for s in it]), f, 'iterator taken before ' + op)
    for op, name in (('|=', 'update'), ('&=', 'intersection_update'), ('-=', 'difference_update'), ('^=', 'symmetric_difference_update'), ('/=', 'quotient_update'), ('%=', 'remainder_update')):
        if not ad.has(name) or (op in ('/=', '%=') and not g): continue
        a, b = ad.mk(f, r), ad.mk(g, r); cp = a.copy(); alias = a
        if op == '|=': a |= b
        elif op == '&=': a &= b
        elif op == '-=': a -= b
        elif op == '^=': a ^= b
        elif op == '/=': a /= b
        else: a %= b
        ad.same(a, INPL[name][1](f, g, ad.n), '%s %s %s' % (pres(f), op, pres(g)))
        check(a is alias, op + ' updates the object in place'); ad.same(cp, f, 'copy made before ' + op); ad.same(b, g, 'right operand after ' + op)
    return bool(f)


def run_upd(c):
    ad, r, f, _ = base(c); C = ad.C
    subs = list(f)[:4] + [next(iter(ad.close(frozenset([frozenset(e for e in range(1, ad.n + 1) if r.random() < .5)])))) for _ in range(6)]
    for s in subs:
        a = ad.mk(f, r); cp = a.copy(); x = ad.st(s, r); a.add(x); ad.same(a, f | {s}, 'add %r to %s' % (x, pres(f))); ad.same(cp, f, 'copy made before add')
        a = ad.mk(f, r); cp = a.copy(); x = ad.st(s, r); a.discard(x); ad.same(a, f - {s}, 'discard %r from %s' % (x, pres(f))); ad.same(cp, f, 'copy made before discard')
        a = ad.mk(f, r); cp = a.copy(); x = ad.st(s, r)
        try: a.remove(x); ok = True
        except KeyError: ok = False
        eq(ok, s in f, 'remove %r from %s succeeds [%s]' % (x, pres(f), ad.cls))
        ad.same(a, f - {s}, 'remove %r from %s' % (x, pres(f))); ad.same(cp, f, 'copy made before remove')
    if C is not EdgeVertexSetSet:
        for e in range(1, ad.n + 1):
            x = ad.el(e, r); a = ad.mk(f, r); cp = a.copy(); a.add(x); ad.same(a, frozenset(s | {e} for s in f), 'add element %r to %s' % (x, pres(f))); ad.same(cp, f, 'copy made before add')
            want = frozenset(s - {e} for s in f)
            x = ad.el(e, r); a = ad.mk(f, r); cp = a.copy(); a.discard(x); ad.same(a, want, 'discard element %r from %s' % (x, pres(f))); ad.same(cp, f, 'copy made before discard')
            x = ad.el(e, r); a = ad.mk(f, r)
            try: a.remove(x); ok = True
            except KeyError: ok = False
            eq(ok, any(e in s for s in f), 'remove element %r from %s succeeds [%s]' % (x, pres(f), ad.cls))
            ad.same(a, want, 'remove element %r from %s' % (x, pres(f)))
    else:
        for i in range(len(ad.es) + 1, ad.n + 1):
            x = ad.els[i - 1]; a = ad.mk(f, r); cp = a.copy(); a.add_vertex(x); ad.same(a, frozenset(s | {i} for s in f), 'add_vertex %r to %s' % (x, pres(f))); ad.same(cp, f, 'copy made before add_vertex')
    for v in vertices(ad):
        a = ad.mk(f, r); cp = a.copy(); a.discard(v); i = inc(ad, v)
        ad.same(a, frozenset(s - i for s in f), 'discard vertex %r from %s' % (v, pres(f))); ad.same(cp, f, 'copy made before discard')
        a = ad.mk(f, r); cp = a.copy()
        try: a.remove(v); ok = True
        except KeyError: ok = False
        eq(ok, any(s & i for s in f), 'remove vertex %r from %s succeeds [%s over %r]' % (v, pres(f), ad.cls, ad.els))
        ad.same(a, frozenset(s - i for s in f), 'remove vertex %r from %s' % (v, pres(f))); ad.same(cp, f, 'copy made before remove')
    a = ad.mk(f, r); cp = a.copy()
    try:
        s = ad.can(a.pop()); check(s in f, 'pop returns a member', lst(f), sorted(s)); ad.same(a, f - {s}, 'family after pop of %s' % sorted(s)); ok = True
    except KeyError: ok = False
    eq(ok, bool(f), 'pop succeeds'); ad.same(cp, f, 'copy made before pop')
    try: s = ad.can(cp.choice()); check(s in f, 'choice returns a member', lst(f), sorted(s)); ok = True
    except KeyError: ok = False
    eq(ok, bool(f), 'choice succeeds'); ad.same(cp, f, 'family after choice')
    a = ad.mk(f, r); cp = a.copy(); a.clear(); ad.same(a, frozenset(), 'family after clear'); ad.same(cp, f, 'copy made before clear')
    # what is not in the universe
    if C is not setset:
        for call in ('add', 'remove', 'discard'):
            a = ad.mk(f, r)
            try: getattr(a, call)(('no such', 'edge') if C is not VertexSetSet else 'no such vertex'); raise Mismatch('%s of an element outside the universe raises KeyError' % call)
            except (KeyError, TypeError): pass
            ad.same(a, f, 'family after a failed ' + call)
    return bool(f)


def run_iterate(c):
    ad, r, f, _ = base(c)
    a = ad.mk(f, r)
    l = [ad.can(s) for s in a]; eq(len(l), len(f), 'iteration over %s' % pres(f)); eq(frozenset(l), f, 'iteration over %s' % pres(f))
    l = [ad.can(s) for s in a.rand_iter()]; eq(len(l), len(f), 'random iteration over %s' % pres(f)); eq(frozenset(l), f, 'random iteration over %s' % pres(f))
    ws = {i: c['w'][i % len(c['w'])] for i in range(1, ad.n + 1)}
    part = {i: w for i, w in ws.items() if r.random() < .7}
    modes = [(ws, ad.wd(ws, r)), ({**{i: 1 for i in range(1, ad.n + 1)}, **part}, ad.wd(part, r))]
    if ad.C is not setset: modes.append(({i: ad.w.get(ad.els[i - 1], 1) for i in range(1, ad.n + 1)}, None))
    for W, arg in modes:
        if arg == {} and ad.C is not setset: continue
        for nm, sg in (('min_iter', 1), ('max_iter', -1)):
            o = [ad.can(s) for s in (getattr(a, nm)(arg) if arg is not None else getattr(a, nm)())]
            eq(frozenset(o), f, '%s over %s with weights %r [%s]' % (nm, pres(f), arg, ad.cls)); eq(len(o), len(f), nm + ' count')
            t = [sg * sum(W[e] for e in s) for s in o]
            check(all(x <= y + 1e-9 for x, y in zip(t, t[1:])), '%s over %s with weights %r is ordered [%s over %r, universe weights %r]' % (nm, pres(f), arg, ad.cls, ad.els, ad.w), sorted(t), t)
    i, j = iter(a), iter(a); x = []
    for _ in range(len(f)): x.append(ad.can(next(i))); next(j)
    eq(frozenset(x), f, 'two interleaved iterators')
    if f:
        for nm in ('__iter__', 'rand_iter', 'min_iter', 'max_iter'):
            a = ad.mk(f, r); i = getattr(a, nm)(); got = [ad.can(next(i))]
            a.clear(); got += [ad.can(s) for s in i]
            eq(sorted(map(sorted, got)), lst(f), '%s over a family that is cleared during the iteration' % nm)
    return bool(f)


def run_prob(c):
    ad, r, f, _ = base(c)
    a = ad.mk(f, r); p = {i: c['p'][i % len(c['p'])] for i in range(1, ad.n + 1)}
    want = 0.0
    for s in f:
        x = 1.0
        for e in range(1, ad.n + 1): x *= p[e] if e in s else 1 - p[e]
        want += x
    d = ad.wd(p, r)
    got = a.probability(d)
    check(abs(got - want) < 1e-9, 'probability of %s with %r [%s]' % (pres(f), d, ad.cls), want, got)
    ad.same(a, f, 'family after probability')
    return bool(f)


def run_cost(c):
    ad, r, f, _ = base(c)
    a = ad.mk(f, r); w = {i: c['w'][i % len(c['w'])] for i in range(1, ad.n + 1)}
    tot = lambda s: sum(w[e] for e in s)
    tots = sorted({tot(s) for s in f}) or [0]
    for b in sorted({r.choice(tots) + r.choice((-1, 0, 0, 1)) for _ in range(4)}):
        b = max(-2**31 + 1, min(2**31 - 1, b))
        for m, ok in (('cost_le', lambda x: x <= b), ('cost_ge', lambda x: x >= b), ('cost_eq', lambda x: x == b)):
            if not ad.has(m): continue
            d = ad.wd(w, r)
            ad.same(getattr(a, m)(d, b), frozenset(s for s in f if ok(tot(s))), '%s(%r, %d) of %s' % (m, d, b, pres(f)))
    ad.same(a, f, 'operand after the cost filters')
    return bool(f)


def run_dump(c):
    ad, r, f, _ = base(c)
    a = ad.mk(f, r); s = a.dumps()
    ad.same(ad.C.loads(s), f, 'loads(dumps) of %s' % pres(f)); ad.same(a, f, 'family after dumps')
    d = tempfile.mkdtemp(prefix='gdump'); p = os.path.join(d, 'x')
    try:
        with open(p, 'w') as fp: a.dump(fp)
        with open(p) as fp: b = ad.C.load(fp)
        ad.same(b, f, 'load(dump) of %s' % pres(f))
        with open(p) as fp: eq(fp.read(), s, 'dump and dumps write the same text')
    finally:
        try: os.unlink(p)
        finally: os.rmdir(d)
    return bool(f)


CLS = ['setset', 'GraphSet', 'VertexSetSet', 'EdgeVertexSetSet', 'DiGraphSet']


def run_hist(c):
    """a history over several classes and universes, with operations of all kinds"""
    rng = random.Random(c['seed'])
    for seg in range(c['segs']):
        ad = Ad({'cls': rng.choice(CLS), 'useed': rng.randrange(1 << 30), 'n': rng.randint(2, 6)})
        objs = []
        for _ in range(3):
            f = ad.close(rfam(rng, ad.n, 6)); objs.append([ad.mk(f, rng), f])
        log = []
        for step in range(c['steps']):
            i, j = rng.randrange(len(objs)), rng.randrange(len(objs)); a, f = objs[i]; b, g = objs[j]; x = rng.random()
            try:
                if x < .05 and ad.cls == 'setset' and ad.n < 8:
                    e = 'new%d' % ad.n; ad.els.append(e); ad.n += 1; ad.idx[e] = ad.n
                    a.add(set([e])); log.append('add new %s to %d' % (e, i)); got = a; want = f | {frozenset([ad.n])}; objs[i][1] = want
                elif x < .5:
                    op = rng.choice([o for o in BIN if avail(ad.C, o)]); want = BIN[op][2](f, g, ad.n); log.append('%s %d %d' % (op, i, j)); got = BIN[op][1](a, b)
                elif x < .75:
                    op = rng.choice([o for o in UN if avail(ad.C, o)]); want = UN[op][2](f, ad.n); log.append('%s %d' % (op, i)); got = UN[op][1](a)
                elif x < .9:
                    op = rng.choice([o for o in INPL if ad.has(o)]); want = INPL[op][1](f, g, ad.n); log.append('%s %d %d' % (op, i, j)); INPL[op][0](a, b); objs[i][1] = want; got = a
                else:
                    op = rng.choice([o for o in SIZE if ad.has(o)]); k = rng.randint(0, ad.n); want = SIZE[op](f, k); log.append('%s(%d) %d' % (op, k, i)); got = getattr(a, op)(k)
            except Skip: continue
            ad.same(got, want, 'step %d of part %d of a history (%s)' % (step, seg, '; '.join(log[-6:])))
            if got is not a and len(want) < 40: objs[rng.randrange(len(objs))] = [got, want]
        for a, f in objs: ad.same(a, f, 'object at the end of part %d of a history (%s)' % (seg, '; '.join(log[-6:])))


KINDS = {
    'P01': ['bin', 'cmp', 'member', 'multi'], 'P02': ['bin'], 'P03': ['un'], 'P04': ['bin', 'elt'], 'P05': ['size'],
    'P06': ['un', 'constr', 'flip'], 'P07': ['cost'], 'P08': ['inpl', 'upd', 'un', 'flip', 'multi'],
    'P09': ['iterate'], 'P10': ['cmp', 'size'], 'P11': ['prob'], 'P12': ['dump'], 'P13': ['un'], 'P14': ['hist'],
}


def cases(prop, rng, tier, idx, nw):
    ks = KINDS[prop]
    bops = [o for o in BIN if BIN[o][0] == prop]; uops = [o for o in UN if UN[o][0] == prop]
    while True:
        k = rng.choice(ks)
        n = rng.choice((1, 2, 3, 3, 4, 4, 5, 6, 7))
        cls = rng.choice(CLS)
        u = {'cls': cls, 'useed': rng.randrange(1 << 30), 'n': n}
        N = n + (4 if cls == 'EdgeVertexSetSet' else 1)
        f = lst(rfam(rng, N, 9)); g = lst(rfam(rng, N, 9)); rs = rng.randrange(1 << 30)
        c = {'k': k, 'u': u, 'r': rs}
        if k == 'bin':
            if prop == 'P02' and rng.random() < .6: g = g[:2] or [[]]; f = lst(o_join(fam_of(f[:5]), fam_of(g), N) | fam_of(f[:3]))
            yield dict(c, op=bops, f=f, g=g)
        elif k == 'un': yield dict(c, op=uops, f=f)
        elif k in ('cmp', 'inpl'):
            x = rng.random()
            if x < .3: g = lst(fam_of(f) | fam_of(g[:2]))
            elif x < .4: g = f
            if rng.random() < .5: f, g = g, f
            yield dict(c, f=f, g=g)
        elif k == 'multi': yield dict(c, fs=[lst(rfam(rng, N, 6)) for _ in range(rng.randint(1, 4))])
        elif k == 'constr':
            st = [rng.randrange(3) for _ in range(N)]
            yield dict(c, inc=[e for e in range(1, N + 1) if st[e - 1] == 1], exc=[e for e in range(1, N + 1) if st[e - 1] == 2])
        elif k == 'iterate':
            wk = rng.random()
            w = [rng.choice((-2, -1, 0, 1, 1, 2)) for _ in range(N)] if wk < .4 else [round(rng.uniform(-10, 10), 3) for _ in range(N)]
            yield dict(c, f=f, w=w)
        elif k == 'prob': yield dict(c, f=f, p=[rng.choice((0, 1, .5, round(rng.random(), 3))) for _ in range(N)])
        elif k == 'cost': yield dict(c, f=f, w=[rng.choice((-3, -1, 0, 1, 2, 5, 100000)) for _ in range(N)])
        elif k == 'hist': yield {'k': 'hist', 'seed': rng.randrange(1 << 30), 'segs': rng.randint(2, 4), 'steps': rng.randint(5, 25)}
        else: yield dict(c, f=f)
