"""Small graphs and everything about their subgraphs by brute force."""
import itertools, random
LABELS = [
    lambda k: list(range(1, k + 1)),
    lambda k: [10 * i + 3 for i in range(k)],
    lambda k: ['v%d' % i for i in range(k)],
    lambda k: [chr(97 + i) for i in range(k)],
    lambda k: list(range(-2, k - 2)),
    lambda k: [str(i) for i in range(1, k + 1)],
    lambda k: ['a' * (i + 1) for i in range(k)],
    lambda k: [1, 10, 100, 11, 110, 101, 2, 20, 12, 21, 121, 212][:k],
    lambda k: ['v1', 'v10', 'v11', 'v', 'v100', 'v2', 'v20', 'v12', 'v01', 'v001', 'v21', 'v02'][:k],
    lambda k: [(i // 3, i % 3) for i in range(k)],
]


class G:
    """edges are numbered 0..m-1, subgraphs are bit masks"""

    def __init__(self, spec):
        rng = random.Random(spec['seed']); k, m = spec['k'], spec['m']
        vs = rng.choice(LABELS)(k); rng.shuffle(vs)
        allp = list(itertools.combinations(vs, 2)); m = min(m, len(allp))
        shape = spec.get('shape', 0)
        if shape == 1:      # connected
            es = [(vs[rng.randrange(i)], vs[i]) for i in range(1, k)]
            rest = [p for p in allp if p not in es and p[::-1] not in es]; rng.shuffle(rest); es += rest[:max(0, m - len(es))]
        elif shape == 2:    # complete
            es = allp
        elif shape == 3:    # grid-like
            w = 2 if k < 9 else 3
            es = [(vs[i], vs[i + 1]) for i in range(k - 1) if (i + 1) % w] + [(vs[i], vs[i + w]) for i in range(k - w)]
        elif shape == 4:    # cycle with chords
            es = [(vs[i], vs[(i + 1) % k]) for i in range(k)] if k > 2 else [(vs[0], vs[1])]
            rest = [p for p in allp if p not in es and p[::-1] not in es]; rng.shuffle(rest); es += rest[:max(0, m - len(es))]
        elif shape == 5:    # two hubs, one after the other: the frontier holds all the others
            es = [(vs[h], v) for h in (0, 1) for v in vs[2:]]
        elif shape == 6:    # grid
            w = 3; es = [(vs[i], vs[i + 1]) for i in range(k - 1) if (i + 1) % w] + [(vs[i], vs[i + w]) for i in range(k - w)]
        elif shape == 7:    # wheel
            es = [(vs[i], vs[i % (k - 1) + 1]) for i in range(1, k)] + [(vs[0], v) for v in vs[1:]]
        elif shape == 8:    # two stars joined by a matching
            h = (k - 2) // 2; A, B = vs[2:2 + h], vs[2 + h:2 + 2 * h]
            es = [(vs[0], v) for v in A] + [(vs[1], v) for v in B] + list(zip(A, B))
        else: es = rng.sample(allp, m)
        es = [(b, a) if rng.random() < .4 else (a, b) for a, b in es]
        if shape not in (5, 8): rng.shuffle(es)
        self.es = es; self.m = len(es)
        self.vs = []
        for e in es:
            for v in e:
                if v not in self.vs: self.vs.append(v)
        self.k = len(self.vs); self.vi = {v: i for i, v in enumerate(self.vs)}
        self.ei = {}
        for i, (a, b) in enumerate(es): self.ei[a, b] = i; self.ei[b, a] = i
        self.pairs = [(self.vi[a], self.vi[b]) for a, b in es]
        self.trav = rng.choice(('greedy', 'greedy', 'bfs', 'dfs', 'as-is')) if shape not in (5, 8) else 'as-is'
        self._info = {}

    def info(self, mask):
        """(degrees, component number of each vertex, list of component masks of vertices that have edges, acyclic)"""
        r = self._info.get(mask)
        if r is None:
            deg = [0] * self.k; par = list(range(self.k)); acy = True
            def find(x):
                while par[x] != x: par[x] = par[par[x]]; x = par[x]
                return x
            for i, (a, b) in enumerate(self.pairs):
                if mask >> i & 1:
                    deg[a] += 1; deg[b] += 1
                    x, y = find(a), find(b)
                    if x == y: acy = False
                    else: par[x] = y
            comp = [find(i) for i in range(self.k)]
            ec = sorted({comp[i] for i in range(self.k) if deg[i]})
            r = self._info[mask] = (deg, comp, ec, acy)
        return r

    def masks(self): return range(1 << self.m)

    def edges(self, mask): return [self.es[i] for i in range(self.m) if mask >> i & 1]

    def mask(self, graph):
        m = 0
        for e in graph:
            b = 1 << self.ei[e[0], e[1]]
            if m & b: raise ValueError('edge twice')
            m |= b
        return m

    def bip(self, mask):
        col = {}
        adj = {}
        for i, (a, b) in enumerate(self.pairs):
            if mask >> i & 1: adj.setdefault(a, []).append(b); adj.setdefault(b, []).append(a)
        for s in adj:
            if s in col: continue
            col[s] = 0; st = [s]
            while st:
                x = st.pop()
                for y in adj[x]:
                    if y not in col: col[y] = 1 - col[x]; st.append(y)
                    elif col[y] == col[x]: return False
        return True


def gspec(rng, maxm=8, maxk=7, big=0):
    if rng.random() < big:
        shape = rng.choice((0, 1, 4, 5, 5, 6, 7, 8))
        k = {0: rng.randint(5, 10), 1: rng.randint(6, 12), 4: rng.randint(5, 9), 5: rng.randint(6, 10), 6: rng.choice((8, 9, 10)), 7: rng.randint(5, 8), 8: rng.choice((6, 8, 10))}[shape]
        return {'seed': rng.randrange(1 << 30), 'k': k, 'm': rng.randint(11, 14), 'shape': shape}
    k = rng.randint(2, maxk)
    shape = rng.choice((0, 1, 1, 2, 3, 4))
    if shape == 2: k = rng.randint(2, 4)
    if shape == 3: k = rng.choice((4, 4, 6, 6, 5))
    if shape == 4: k = rng.randint(3, min(maxk, 6))
    m = rng.randint(1, maxm)
    if shape in (1, 4): m = rng.randint(k, maxm) if k <= maxm else maxm
    return {'seed': rng.randrange(1 << 30), 'k': k, 'm': m, 'shape': shape}
