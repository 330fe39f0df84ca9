"""Families of sets of ints through the extension module: every operation of the
algebra against its definition."""
import itertools, math, random
import _graphillion
from core import Mismatch, check, eq, Skip

SS = _graphillion.setset
_cache = {}


def subsets(n):
    if n not in _cache:
        _cache[n] = [frozenset(e for e in range(1, n + 1) if m >> (e - 1) & 1) for m in range(1 << n)]
    return _cache[n]


def mk(fam): return SS([set(s) for s in fam])


def lst(fam): return sorted(sorted(s) for s in fam)


def fam_of(l): return frozenset(frozenset(s) for s in l)


def sets(ss, limit=100000):
    """the members, by iteration; each must come once"""
    out = []
    for s in ss.iter():
        out.append(frozenset(s))
        if len(out) > limit: raise Mismatch('iteration does not end')
    r = frozenset(out)
    if len(r) != len(out): raise Mismatch('iteration repeats a set: %r' % sorted(map(sorted, out)))
    return r


def U(*xs): return frozenset(xs)


# ---- definitions
def o_join(f, g, n): return frozenset(a | b for a in f for b in g)
def o_meet(f, g, n): return frozenset(a & b for a in f for b in g)


def o_quo(f, g, n):
    if not g: raise Skip()
    it = iter(g); b0 = next(it)
    cand = {a - b0 for a in f if b0 <= a}
    for b in it: cand = {c for c in cand if not (c & b) and c | b in f}
    return frozenset(c for c in cand if not (c & b0))


def o_rem(f, g, n): return f - o_join(o_quo(f, g, n), g, n)
def o_min(f, n): return frozenset(a for a in f if not any(b < a for b in f))
def o_max(f, n): return frozenset(a for a in f if not any(b > a for b in f))
def o_sub(f, g, n): return frozenset(a for a in f if any(a <= b for b in g))
def o_sup(f, g, n): return frozenset(a for a in f if any(a >= b for b in g))
def o_nsub(f, g, n): return frozenset(a for a in f if not any(a <= b for b in g))
def o_nsup(f, g, n): return frozenset(a for a in f if not any(a >= b for b in g))
def o_hit(f, n): return frozenset(s for s in subsets(n) if all(s & a for a in f))
def o_rs(f, n): return frozenset(a - {e} for a in f for e in a)
def o_as(f, n): return frozenset(a | {e} for a in f for e in range(1, n + 1) if e not in a)
def o_ras(f, n): return frozenset((a - {e}) | {x} for a in f for e in a for x in range(1, n + 1) if x not in a)


BIN = {
    'union': (lambda a, b: a.union(b), lambda f, g, n: f | g, 'P01'),
    '|': (lambda a, b: a | b, lambda f, g, n: f | g, 'P01'),
    'intersection': (lambda a, b: a.intersection(b), lambda f, g, n: f & g, 'P01'),
    '&': (lambda a, b: a & b, lambda f, g, n: f & g, 'P01'),
    'difference': (lambda a, b: a.difference(b), lambda f, g, n: f - g, 'P01'),
    '-': (lambda a, b: a - b, lambda f, g, n: f - g, 'P01'),
    'symmetric_difference': (lambda a, b: a.symmetric_difference(b), lambda f, g, n: f ^ g, 'P01'),
    '^': (lambda a, b: a ^ b, lambda f, g, n: f ^ g, 'P01'),
    'join': (lambda a, b: a.join(b), o_join, 'P02'),
    'meet': (lambda a, b: a.meet(b), o_meet, 'P02'),
    'quotient': (lambda a, b: a.quotient(b), o_quo, 'P02'),
    '/': (lambda a, b: a / b, o_quo, 'P02'),
    'remainder': (lambda a, b: a.remainder(b), o_rem, 'P02'),
    '%': (lambda a, b: a % b, o_rem, 'P02'),
    'subsets': (lambda a, b: a.subsets(b), o_sub, 'P04'),
    'supersets': (lambda a, b: a.supersets(b), o_sup, 'P04'),
    'non_subsets': (lambda a, b: a.non_subsets(b), o_nsub, 'P04'),
    'non_supersets': (lambda a, b: a.non_supersets(b), o_nsup, 'P04'),
}
CMP = {
    '==': (lambda a, b: a == b, lambda f, g: f == g), '!=': (lambda a, b: a != b, lambda f, g: f != g),
    '<=': (lambda a, b: a <= b, lambda f, g: f <= g), '<': (lambda a, b: a < b, lambda f, g: f < g),
    '>=': (lambda a, b: a >= b, lambda f, g: f >= g), '>': (lambda a, b: a > b, lambda f, g: f > g),
    'isdisjoint': (lambda a, b: a.isdisjoint(b), lambda f, g: not (f & g)),
    'issubset': (lambda a, b: a.issubset(b), lambda f, g: f <= g), 'issuperset': (lambda a, b: a.issuperset(b), lambda f, g: f >= g),
}
UN = {
    'minimal': (lambda a, n: a.minimal(), o_min, 'P03'),
    'maximal': (lambda a, n: a.maximal(), o_max, 'P03'),
    'complement': (lambda a, n: a.complement(n), lambda f, n: frozenset(subsets(n)) - f, 'P06'),
    'hitting': (lambda a, n: a.hitting(n), o_hit, 'P06'),
    'remove_some_element': (lambda a, n: a.remove_some_element(), o_rs, 'P13'),
    'add_some_element': (lambda a, n: a.add_some_element(n), o_as, 'P13'),
    'remove_add_some_elements': (lambda a, n: a.remove_add_some_elements(n), o_ras, 'P13'),
    'copy': (lambda a, n: a.copy(), lambda f, n: f, 'P08'),
}
ELT = {
    'supersets(e)': (lambda a, e: a.supersets(e), lambda f, e: frozenset(s for s in f if e in s), 'P04'),
    'non_supersets(e)': (lambda a, e: a.non_supersets(e), lambda f, e: frozenset(s for s in f if e not in s), 'P04'),
}
SIZE = {
    'smaller': (lambda a, k: a.smaller(k), lambda f, k: frozenset(s for s in f if len(s) < k), 'P05'),
    'larger': (lambda a, k: a.larger(k), lambda f, k: frozenset(s for s in f if len(s) > k), 'P05'),
    'set_size': (lambda a, k: a.set_size(k), lambda f, k: frozenset(s for s in f if len(s) == k), 'P05'),
    'len(k)': (lambda a, k: a.len(k), lambda f, k: frozenset(s for s in f if len(s) == k), 'P05'),
}
# in-place operations: (apply, definition)
INPL = {
    'update': (lambda a, b: a.update(b), lambda f, g, n: f | g, 'P08'),
    'intersection_update': (lambda a, b: a.intersection_update(b), lambda f, g, n: f & g, 'P08'),
    'difference_update': (lambda a, b: a.difference_update(b), lambda f, g, n: f - g, 'P08'),
    'symmetric_difference_update': (lambda a, b: a.symmetric_difference_update(b), lambda f, g, n: f ^ g, 'P08'),
    'quotient_update': (lambda a, b: a.quotient_update(b), o_quo, 'P08'),
    'remainder_update': (lambda a, b: a.remainder_update(b), o_rem, 'P08'),
}


def same(got, want, what):
    """compare twice: canonically and by iteration"""
    w = mk(want)
    if not (got == w):
        raise Mismatch('%s: expected %s, got %s' % (what, lst(want), lst(sets(got))))
    if (got != w): raise Mismatch('%s: == and != agree' % what)
    if len(want) <= 40:
        g = sets(got)
        if g != want: raise Mismatch('%s: expected %s, got %s by iteration' % (what, lst(want), lst(g)))


def run(c):
    k = c['k']
    if c.get('n'): SS([set([c['n']])])      # the universe comes first, as in the Python layer
    return globals()['run_' + k](c)


def run_bin(c):
    f, g, n, op = fam_of(c['f']), fam_of(c['g']), c['n'], c['op']
    real, spec, _ = BIN[op]
    want = spec(f, g, n)
    a, b = mk(f), mk(g)
    same(real(a, b), want, '%s of %s and %s' % (op, lst(f), lst(g)))
    same(a, f, 'left operand after ' + op); same(b, g, 'right operand after ' + op)
    return len(f) > 0 and len(g) > 0


def run_cmp(c):
    f, g = fam_of(c['f']), fam_of(c['g'])
    a, b = mk(f), mk(g)
    for op, (real, spec) in CMP.items():
        eq(bool(real(a, b)), spec(f, g), '%s %s %s' % (lst(f), op, lst(g)))
    return len(f) > 0 and len(g) > 0


def run_member(c):
    f, n = fam_of(c['f']), c['n']
    a = mk(f)
    for s in subsets(n): eq(set(s) in a, s in f, '%s in %s' % (sorted(s), lst(f)))
    for e in range(1, n + 1): eq(e in a, any(e in s for s in f), 'element %d occurs in %s' % (e, lst(f)))
    eq(bool(a), bool(f), 'truth value of %s' % lst(f))
    same(a, f, 'family after membership tests')
    return len(f) > 0


def run_un(c):
    f, n, op = fam_of(c['f']), c['n'], c['op']
    real, spec, _ = UN[op]
    a = mk(f)
    same(real(a, n), spec(f, n), '%s of %s with %d elements' % (op, lst(f), n))
    same(a, f, 'operand after ' + op)
    return len(f) > 0


def run_elt(c):
    f, op, e = fam_of(c['f']), c['op'], c['e']
    real, spec, _ = ELT[op]
    a = mk(f)
    same(real(a, e), spec(f, e), '%s of %s, element %d' % (op, lst(f), e))
    same(a, f, 'operand after ' + op)
    return len(f) > 0


def run_size(c):
    f, op, e = fam_of(c['f']), c['op'], c['e']
    real, spec, _ = SIZE[op]
    a = mk(f)
    same(real(a, e), spec(f, e), '%s(%d) of %s' % (op, e, lst(f)))
    same(a, f, 'operand after ' + op)
    return len(f) > 0


def run_constr(c):
    """include/exclude constraints"""
    n, inc, exc = c['n'], c['inc'], c['exc']
    want = frozenset(s for s in subsets(n) if all(e in s for e in inc) and not any(e in s for e in exc))
    d = {}
    if c.get('inckey', True): d['include'] = list(inc)
    if c.get('exckey', True): d['exclude'] = list(exc)
    same(SS(d, n), want if (c.get('inckey', True) or not inc) and (c.get('exckey', True) or not exc) else None, 'sets with %s and without %s among %d elements' % (inc, exc, n))


def run_flip(c):
    f, n = fam_of(c['f']), c['n']
    a = mk(f); b = a.copy()
    if c['e'] == 0:
        a.flip_all(n); all_ = frozenset(range(1, n + 1))
        want = frozenset(s ^ all_ for s in f)
    else:
        a.flip(c['e']); want = frozenset(s ^ {c['e']} for s in f)
    same(a, want, 'flip %s of %s with %d elements' % (c['e'] or 'all', lst(f), n))
    same(b, f, 'copy made before the flip')
    return len(f) > 0


def run_inpl(c):
    f, g, n, op = fam_of(c['f']), fam_of(c['g']), c['n'], c['op']
    real, spec, _ = INPL[op]
    want = spec(f, g, n)
    a, b = mk(f), mk(g); cp = a.copy(); cons = SS(a)
    it = a.iter()
    real(a, b)
    same(a, want, '%s of %s with %s' % (op, lst(f), lst(g)))
    same(b, g, 'argument after ' + op); same(cp, f, 'copy made before ' + op); same(cons, f, 'object constructed from the target before ' + op)
    eq(frozenset(frozenset(s) for s in it), f, 'iterator taken before ' + op)
    return len(f) > 0


def run_iop(c):
    """augmented assignment operators"""
    f, g, n = fam_of(c['f']), fam_of(c['g']), c['n']
    for op, name in (('|=', 'update'), ('&=', 'intersection_update'), ('-=', 'difference_update'), ('^=', 'symmetric_difference_update'), ('/=', 'quotient_update'), ('%=', 'remainder_update')):
        if op in ('/=', '%=') and not g: continue
        a, b = mk(f), mk(g); cp = a.copy(); alias = a
        if op == '|=': a |= b
        elif op == '&=': a &= b
        elif op == '-=': a -= b
        elif op == '^=': a ^= b
        elif op == '/=': a /= b
        else: a %= b
        same(a, INPL[name][1](f, g, n), '%s %s %s' % (lst(f), op, lst(g)))
        check(a is alias, op + ' updates the object in place')
        same(cp, f, 'copy made before ' + op); same(b, g, 'right operand after ' + op)
    return len(f) > 0


def run_self(c):
    """operations of a family with itself"""
    f, n = fam_of(c['f']), c['n']
    for op, (real, spec, _) in list(BIN.items()):
        try: want = spec(f, f, n)
        except Skip: continue
        a = mk(f); same(real(a, a), want, '%s of %s with itself' % (op, lst(f)))
    for op, (real, spec, _) in INPL.items():
        try: want = spec(f, f, n)
        except Skip: continue
        a = mk(f); real(a, a); same(a, want, '%s of %s with itself' % (op, lst(f)))
    return len(f) > 0


def run_upd(c):
    """add/remove/discard of a set or an element, pop, clear"""
    f, n = fam_of(c['f']), c['n']
    for s in subsets(n):
        a = mk(f); cp = a.copy(); a.add(set(s)); same(a, f | {s}, 'add %s to %s' % (sorted(s), lst(f))); same(cp, f, 'copy made before add')
        a = mk(f); cp = a.copy(); a.discard(set(s)); same(a, f - {s}, 'discard %s from %s' % (sorted(s), lst(f))); same(cp, f, 'copy made before discard')
        a = mk(f); cp = a.copy()
        try:
            a.remove(set(s)); ok = True
        except KeyError: ok = False
        eq(ok, s in f, 'remove %s from %s succeeds' % (sorted(s), lst(f)))
        same(a, f - {s}, 'remove %s from %s' % (sorted(s), lst(f))); same(cp, f, 'copy made before remove')
    for e in range(1, n + 1):
        a = mk(f); cp = a.copy(); a.add(e); same(a, frozenset(s | {e} for s in f), 'add element %d to %s' % (e, lst(f))); same(cp, f, 'copy made before add')
        want = frozenset(s - {e} for s in f)
        a = mk(f); cp = a.copy(); a.discard(e); same(a, want, 'discard element %d from %s' % (e, lst(f))); same(cp, f, 'copy made before discard')
        a = mk(f)
        try:
            a.remove(e); ok = True
        except KeyError: ok = False
        eq(ok, any(e in s for s in f), 'remove element %d from %s succeeds' % (e, lst(f)))
        same(a, want, 'remove element %d from %s' % (e, lst(f)))
    a = mk(f); cp = a.copy()
    try:
        s = frozenset(a.pop()); check(s in f, 'pop returns a member', lst(f), sorted(s)); same(a, f - {s}, 'family after pop of %s' % sorted(s)); ok = True
    except KeyError: ok = False
    eq(ok, bool(f), 'pop succeeds'); same(cp, f, 'copy made before pop')
    a = mk(f); cp = a.copy(); a.clear(); same(a, frozenset(), 'family after clear'); same(cp, f, 'copy made before clear')
    return len(f) > 0


def run_multi(c):
    fs = [fam_of(x) for x in c['fs']]; n = c['n']
    for name, comb in (('union', lambda x, y: x | y), ('intersection', lambda x, y: x & y), ('difference', lambda x, y: x - y), ('symmetric_difference', lambda x, y: x ^ y)):
        want = fs[0]
        for g in fs[1:]: want = comb(want, g)
        objs = [mk(f) for f in fs]
        r = getattr(objs[0], name)(*objs[1:])
        same(r, want, '%s of %s' % (name, [lst(f) for f in fs]))
        for o, f in zip(objs, fs): same(o, f, 'operand after ' + name)
        check(r is not objs[0], name + ' returns a new object')
        r.add(set([n]))
        for o, f in zip(objs, fs): same(o, f, 'operand after updating the result of ' + name)
        a = mk(fs[0]); r = getattr(a, {'union': 'update'}.get(name, name + '_update'))(*objs[1:])
        same(a, want, '%s in place of %s' % (name, [lst(f) for f in fs]))
        for o, f in zip(objs[1:], fs[1:]): same(o, f, 'argument after in-place ' + name)


def run_iterate(c):
    f = fam_of(c['f']); n = c['n']
    a = mk(f)
    eq(sets(a), f, 'iteration over %s' % lst(f))
    r = [frozenset(s) for s in a.rand_iter()]
    eq(len(r), len(set(r)), 'random iteration over %s repeats a set' % lst(f)); eq(frozenset(r), f, 'random iteration over %s' % lst(f))
    w = c['w']
    tot = lambda s: sum(w[e] for e in s)
    for nm, sg in (('min_iter', 1), ('max_iter', -1)):
        r = [frozenset(s) for s in getattr(a, nm)(list(w))]
        eq(frozenset(r), f, '%s over %s with weights %s' % (nm, lst(f), w)); eq(len(r), len(f), nm + ' count')
        t = [sg * tot(s) for s in r]
        check(all(x <= y + 1e-9 for x, y in zip(t, t[1:])), '%s over %s with weights %s is ordered' % (nm, lst(f), w), sorted(t), t)
    if f:
        s = frozenset(a.choice()); check(s in f, 'choice', lst(f), sorted(s))
    # two iterators at the same time, and one over a family that is updated meanwhile
    i, j = a.iter(), a.iter(); x = []
    for _ in range(len(f)): x.append(frozenset(next(i))); frozenset(next(j))
    eq(frozenset(x), f, 'two interleaved iterators')
    i = a.iter(); got = []
    if f:
        got.append(frozenset(next(i))); a.clear()
        got += [frozenset(s) for s in i]
        eq(sorted(map(sorted, got)), lst(f), 'iterator over a family that is cleared during the iteration')
    return len(f) > 0


def run_count(c):
    f = fam_of(c['f']); a = mk(f)
    eq(len(a), len(f), 'len of %s' % lst(f)); eq(a.len(), len(f), 'len() of %s' % lst(f))
    return len(f) > 0


def run_itermany(c):
    """thousands of members: each is met exactly once, in the promised order"""
    rng = random.Random(c['seed']); n = c['n']; p = c['p']
    if c['small']: f = {s for s in subsets(n) if rng.random() < p}; a = mk(f)
    else:
        a = SS({}, n); f = set(subsets(n))
        for s in rng.sample(sorted(f, key=sorted), rng.randint(0, 30)): a.discard(set(s)); f.discard(s)
    what = 'a family of %d sets of %d elements (seed %d)' % (len(f), n, c['seed'])
    def all_of(it, nm):
        got = set(); i = -1
        for i, s in enumerate(it):
            s = frozenset(s)
            check(s not in got, '%s over %s meets a set once only' % (nm, what), 'once', sorted(s))
            check(s in f, '%s over %s meets members only' % (nm, what), 'a member', sorted(s))
            got.add(s)
        eq(len(got), len(f), 'number of sets met by %s over %s' % (nm, what))
    all_of(a.rand_iter(), 'rand_iter')
    all_of(a.iter(), 'iter')
    w = [1] + [rng.choice((-2, -1, 0, 1, 2.5, 3)) for _ in range(n)]
    tot = lambda s: sum(w[e] for e in s)
    for nm, rev in (('min_iter', False), ('max_iter', True)):
        want = sorted(map(tot, f), reverse=rev)[:60]; seen = set(); t = []
        for s in itertools.islice(getattr(a, nm)(list(w)), 60):
            s = frozenset(s); check(s in f and s not in seen, '%s over %s meets members once' % (nm, what), 'a new member', sorted(s)); seen.add(s); t.append(tot(s))
        check(len(t) == len(want) and all(abs(x - y) < 1e-9 for x, y in zip(t, want)), 'weights of the first sets of %s over %s, weights %s' % (nm, what, w), want, t)
    same(a, frozenset(f), 'family after the iterations')


def run_bigcount(c):
    """power-set like families whose size is known"""
    n, inc, exc, extra = c['n'], c['inc'], c['exc'], c['extra']
    a = SS({'include': inc, 'exclude': exc}, n)
    want = 1 << (n - len(inc) - len(exc))
    for s in extra:
        s = frozenset(s)
        m = all(e in s for e in inc) and not any(e in s for e in exc) and all(e <= n for e in s)
        if c['del']:
            if set(s) in a: want -= 1
            a.discard(set(s))
        else:
            if set(s) not in a: want += 1
            a.add(set(s))
    eq(a.len(), want, 'number of sets with %s and without %s among %d elements' % (inc, exc, n))
    if want < (1 << 63) - 1: eq(len(a), want, 'len')
    else:
        try: r = len(a)
        except OverflowError: r = None
        check(r is None or r == want, 'len of a family with %d sets' % want, 'OverflowError', r)


def run_blocks(c):
    """disjoint unions of joins of families over separate blocks of elements: sums of products"""
    rng = random.Random(c['seed']); n = c['n']; total = None; want = 0; lits = 0
    def power(a, b): return SS({'exclude': [e for e in range(1, n + 1) if not a <= e <= b]}, n)
    marks = sorted(rng.sample(range(1, n + 1), rng.randint(0, 3)))
    free = [e for e in range(1, n + 1) if e not in marks]
    for t in range(1 << len(marks)):
        if rng.random() < .3: continue
        x = SS([set(m for i, m in enumerate(marks) if t >> i & 1)]); cnt = 1; e = 1
        while e <= n:
            b = min(n, e + rng.choice((0, 1, 5, 20, 61, 62, 63, 64, 65, 100, 126, 127))); els = [q for q in range(e, b + 1) if q not in marks]; k = len(els); r = rng.random()
            if not els: pass
            elif r < .35:
                y = SS({'exclude': [q for q in range(1, n + 1) if q not in els]}, n); cnt <<= k; x = x.join(y)
            elif r < .5:
                j = rng.randint(0, min(k, 4)); y = SS({'exclude': [q for q in range(1, n + 1) if q not in els]}, n).set_size(j); cnt *= math.comb(k, j); x = x.join(y)
            elif r < .6:
                y = SS({'exclude': [q for q in range(1, n + 1) if q not in els]}, n); z = set(rng.sample(els, rng.randint(0, k))); y.discard(z); cnt *= (1 << k) - 1; x = x.join(y)
            elif r < .75:
                y = SS([set(els)]); x = x.join(y)
            elif r < .85:
                y = SS([{q} for q in els] + [set()]); cnt *= k + 1; x = x.join(y)
            e = b + 1
        want += cnt
        total = x if total is None else total | x
    if total is None: raise Skip()
    eq(total.len(), want, 'number of sets of the family of blocks %s' % c)
    return want > 1 << 63


def run_prob(c):
    f = fam_of(c['f']); n = c['n']; p = c['p']
    a = mk(f)
    want = 0.0
    for s in f:
        x = 1.0
        for e in range(1, n + 1): x *= p[e] if e in s else 1 - p[e]
        want += x
    got = a.probability(n, p)
    check(abs(got - want) < 1e-9, 'probability of %s with %s' % (lst(f), p), want, got)
    return len(f) > 0


def run_cost(c):
    f = fam_of(c['f']); n = c['n']; w = c['w']
    a = mk(f)
    for b in c['b']:
        want = frozenset(s for s in f if sum(w[e - 1] for e in s) <= b)
        same(a.cost_le(costs=list(w), cost_bound=b), want, 'sets of %s with cost at most %d, costs %s' % (lst(f), b, w))
    same(a, f, 'operand after cost_le')
    return len(f) > 0


def run_dump(c):
    import tempfile, os
    f = fam_of(c['f']); a = mk(f)
    s = a.dumps()
    same(_graphillion.loads(s), f, 'loads(dumps) of %s' % lst(f))
    same(a, f, 'family after dumps')
    d = tempfile.mkdtemp(prefix='gdump')
    p = os.path.join(d, 'x')
    try:
        with open(p, 'w') as fp: a.dump(fp)
        with open(p) as fp: b = _graphillion.load(fp)
        same(b, f, 'load(dump) of %s' % lst(f))
        eq(open(p).read(), s, 'dump and dumps write the same text')
    finally:
        try: os.unlink(p)
        finally: os.rmdir(d)
    return len(f) > 0


# ---- histories: long random programs over shared objects and a growing universe
def run_hist(c):
    rng = random.Random(c['seed']); n = c['n']; N = c['N']
    objs = []
    for _ in range(4):
        f = rfam(rng, n); objs.append([mk(f), f])
    log = []
    ops2 = [k for k in BIN]
    ops1 = [k for k in UN]
    for step in range(c['steps']):
        r = rng.random()
        if r < .05 and n < N:
            n += 1
            SS([set([n])])      # what ObjectTable.add_elem does
            f = rfam(rng, n); objs.append([mk(f), f]); log.append('universe of %d' % n)
            continue
        i, j = rng.randrange(len(objs)), rng.randrange(len(objs))
        a, f = objs[i]; b, g = objs[j]
        try:
            if r < .45:
                op = rng.choice(ops2); log.append('%s %d %d' % (op, i, j))
                want = BIN[op][1](f, g, n); got = BIN[op][0](a, b)
            elif r < .65:
                op = rng.choice(ops1); log.append('%s %d' % (op, i))
                want = UN[op][1](f, n); got = UN[op][0](a, n)
            elif r < .72:
                op = rng.choice(list(ELT)); e = rng.randint(1, n); log.append('%s %d %d' % (op, i, e)); want = ELT[op][1](f, e); got = ELT[op][0](a, e)
            elif r < .8:
                op = rng.choice(list(SIZE)); e = rng.randint(0, n + 1); log.append('%s %d %d' % (op, i, e)); want = SIZE[op][1](f, e); got = SIZE[op][0](a, e)
            elif r < .9:
                op = rng.choice(list(INPL)); log.append('%s %d %d' % (op, i, j)); want = INPL[op][1](f, g, n); INPL[op][0](a, b); objs[i][1] = want; got = a
            elif r < .95:
                e = rng.randint(0, n); log.append('flip %d %d' % (i, e))
                if e: a.flip(e); want = frozenset(s ^ {e} for s in f)
                else: a.flip_all(n); want = frozenset(s ^ frozenset(range(1, n + 1)) for s in f)
                objs[i][1] = want; got = a
            else:
                objs[i] = [mk(rfam(rng, n)), None]; objs[i][1] = sets(objs[i][0]); continue
        except Skip:
            continue
        same(got, want, 'step %d of a history (%s)' % (step, '; '.join(log[-6:])))
        if got is not a and len(want) < 60: objs[rng.randrange(len(objs))] = [got, want]
        if len(objs) > 8: objs.pop(0)
    for a, f in objs: same(a, f, 'object at the end of a history (%s)' % '; '.join(log[-6:]))


def rfam(rng, n, maxn=14):
    k = rng.random()
    if k < .05: return frozenset()
    if k < .1: return frozenset([frozenset()])
    if k < .25 and n <= 7: p = rng.choice((.5, .8, .95, .2)); return frozenset(s for s in subsets(n) if rng.random() < p)
    m = rng.randint(1, maxn)
    p = rng.choice((.15, .3, .5, .7, .9))
    f = set(frozenset(e for e in range(1, n + 1) if rng.random() < p) for _ in range(m))
    if k < .35: f.add(frozenset())
    if k > .9: f.add(frozenset(range(1, n + 1)))
    if .5 < k < .6: f |= {s - {max(s)} for s in list(f) if s}
    return frozenset(f)


def bfam(rng, n, m):
    """larger families: the diagrams share nodes, the caches are hit"""
    k = rng.randrange(6)
    if k == 0: es = rng.sample(range(1, n + 1), min(n, 8)); j = rng.randint(1, 4); f = set(map(frozenset, itertools.combinations(es, j)))
    elif k == 1: f = {frozenset(range(i, j)) for i in range(1, n + 1) for j in range(i, n + 2)}
    elif k == 2:
        A = [frozenset(e for e in range(1, n // 2 + 1) if rng.random() < .5) for _ in range(10)]; B = [frozenset(e for e in range(n // 2 + 1, n + 1) if rng.random() < .5) for _ in range(10)]
        f = {a | b for a in A for b in B}
    elif k == 3: f = {frozenset(e for e in range(1, n + 1) if (e - 1) % 3 == x[(e - 1) // 3]) for x in itertools.product(range(3), repeat=min(4, n // 3)) for x in [x + (0,) * (n // 3 + 1)]}
    else:
        p = rng.choice((.1, .3, .5, .8)); f = {frozenset(e for e in range(1, n + 1) if rng.random() < p) for _ in range(m)}
    f = sorted(f, key=sorted); rng.shuffle(f)
    return frozenset(f[:m])


KINDS = {}      # property -> list of (kind, weight)
for p_, ks in {
    'P01': ['bin', 'cmp', 'member', 'multi'], 'P02': ['bin'], 'P03': ['un'], 'P04': ['bin', 'elt'], 'P05': ['size'],
    'P06': ['un', 'constr', 'flip'], 'P07': ['cost'], 'P08': ['inpl', 'iop', 'upd', 'un', 'flip', 'self', 'multi'],
    'P09': ['iterate'] * 60 + ['itermany'], 'P10': ['count', 'bigcount', 'blocks'], 'P11': ['prob'], 'P12': ['dump'], 'P13': ['un', 'hist13'], 'P14': ['hist', 'histmix'],
}.items(): KINDS[p_] = ks


def exh(n):
    """all families over n elements, as bit masks over the subsets"""
    subs = subsets(n)
    return [frozenset(s for i, s in enumerate(subs) if m >> i & 1) for m in range(1 << len(subs))]


def cases(prop, rng, tier, idx, nw):
    yield from exhaustive(prop, rng, tier, idx, nw)
    yield from rand(prop, rng, tier, idx)


def exhaustive(prop, rng, tier, idx, nw):
    ks = KINDS[prop]
    no = 0
    def mine():
        nonlocal no
        no += 1
        return no % nw == idx
    for n in (1, 2, 3):
        fams = exh(n)
        full = n <= 2
        pairs = [(a, b) for a in range(len(fams)) for b in range(len(fams))] if full else None
        for k in ks:
            if k in ('bin', 'inpl'):
                tab = BIN if k == 'bin' else INPL
                ops = [o for o in tab if tab[o][2] == prop]
                if prop == 'P01': ops = ['union', '&', '-', '^'] if not full else ops
                if prop == 'P02' and not full: ops = ['join', 'meet', '/', '%']
                if full: it = pairs
                elif tier == 'thorough': it = ((a, b) for a in range(256) for b in range(256))
                else: it = ((a, b) for a in range(256) for b in random.Random('%d' % a).sample(range(256), 24))
                for a, b in it:
                    if not mine(): continue
                    for o in ops:
                        yield {'k': k, 'op': o, 'n': n, 'f': lst(fams[a]), 'g': lst(fams[b])}
            elif k in ('cmp', 'iop'):
                it = pairs if full else ((a, b) for a in range(256) for b in random.Random('c%d' % a).sample(range(256), 6))
                for a, b in it:
                    if mine(): yield {'k': k, 'n': n, 'f': lst(fams[a]), 'g': lst(fams[b])}
            elif k in ('un', 'elt', 'size'):
                tab = {'un': UN, 'elt': ELT, 'size': SIZE}[k]
                for o in tab:
                    if tab[o][2] != prop: continue
                    for f in fams:
                        for e in ([0] if k == 'un' else range(1, n + 1) if k == 'elt' else range(0, n + 2)):
                            if mine(): yield {'k': k, 'op': o, 'n': n, 'f': lst(f), 'e': e}
            elif k in ('member', 'upd', 'count', 'dump', 'iterate', 'self'):
                for f in fams:
                    if mine(): yield dict({'k': k, 'n': n, 'f': lst(f)}, **({'w': [1] + [rng.choice((-2, -1, 0, 1, 1.5, 3)) for _ in range(n)]} if k == 'iterate' else {}))
            elif k == 'flip':
                for f in fams:
                    for e in range(0, n + 1):
                        if mine(): yield {'k': k, 'n': n, 'f': lst(f), 'e': e}
            elif k == 'prob':
                for f in fams:
                    if mine(): yield {'k': k, 'n': n, 'f': lst(f), 'p': [0] + [rng.choice((0, 1, .5, .25, .9, .1)) for _ in range(n)]}
            elif k == 'cost':
                for f in fams:
                    if mine(): yield {'k': k, 'n': n, 'f': lst(f), 'w': [rng.choice((-3, -1, 0, 1, 2, 5)) for _ in range(n)], 'b': sorted(rng.sample(range(-5, 10), 4))}
            elif k == 'constr':
                for st in itertools.product((0, 1, 2), repeat=n):
                    inc = [e for e in range(1, n + 1) if st[e - 1] == 1]; exc = [e for e in range(1, n + 1) if st[e - 1] == 2]
                    if mine(): yield {'k': k, 'n': n, 'inc': inc, 'exc': exc}
                    if not inc and mine(): yield {'k': k, 'n': n, 'inc': inc, 'exc': exc, 'inckey': False}
                    if not exc and mine(): yield {'k': k, 'n': n, 'inc': inc, 'exc': exc, 'exckey': False}


BIGS = (1, -1, 0, 2, -7, 1000, -1000, 2**20, -2**20, 2**30, -2**30)


WIDE = ('bin', 'cmp', 'iop', 'inpl', 'elt', 'size', 'count', 'dump', 'iterate', 'multi', 'prob', 'cost', 'flip')
EDGES = (1, 2, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513)


def wide(c, rng):
    """the same case with its elements spread over a large universe"""
    n = c['n']; N = rng.choice((66, 130, 258, 300, 520, 700))
    if c['k'] not in WIDE and not (c['k'] == 'un' and c['op'] in ('minimal', 'maximal', 'remove_some_element', 'copy')) or n > 12: return c
    if c['k'] == 'flip' and not c['e']: return c
    pool = [e for e in EDGES if e <= N] + [N]
    lab = sorted(set(rng.choice(pool) if rng.random() < .6 else rng.randint(1, N) for _ in range(n)))
    while len(lab) < n: lab = sorted(set(lab) | {rng.randint(1, N)})
    if rng.random() < .3: rng.shuffle(lab)
    m = dict(zip(range(1, n + 1), lab)); d = dict(c); d['n'] = N
    tr = lambda f: lst([[m[e] for e in s] for s in f])
    for k in ('f', 'g'):
        if k in c: d[k] = tr(c[k])
    if 'fs' in c: d['fs'] = [tr(f) for f in c['fs']]
    if c['k'] in ('elt', 'flip'): d['e'] = m[c['e']]
    inv = {v: k for k, v in m.items()}
    if c['k'] == 'iterate': d['w'] = [c['w'][0]] + [c['w'][inv[i]] if i in inv else rng.choice((0, 1, -3)) for i in range(1, N + 1)]
    if c['k'] == 'prob': d['p'] = [c['p'][0]] + [c['p'][inv[i]] if i in inv else 0 for i in range(1, N + 1)]
    if c['k'] == 'cost': d['w'] = [c['w'][inv[i] - 1] if i in inv else rng.choice((0, 1, -3, 99)) for i in range(1, N + 1)]
    return d


def rand(prop, rng, tier, idx):
    for c in rand0(prop, rng, tier, idx):
        # in some of the processes only: the universe of a process never shrinks
        yield wide(c, rng) if idx % 4 == 3 and ('f' in c or 'fs' in c) and rng.random() < .25 else c


def rand0(prop, rng, tier, idx):
    ks = KINDS[prop]
    while True:
        k = rng.choice(ks)
        n = rng.choice((3, 4, 4, 5, 5, 6, 7, 9, 12))
        f = lst(rfam(rng, n)); g = lst(rfam(rng, n))
        big = rng.random() < .05 and k in ('bin', 'inpl', 'cmp', 'iop', 'un', 'elt', 'size', 'count', 'dump', 'iterate', 'prob', 'cost', 'multi')
        if big:
            n = rng.choice((9, 12, 15, 20, 30)); f = lst(bfam(rng, n, rng.choice((40, 100, 200)))); g = lst(bfam(rng, n, rng.choice((20, 40, 80))))
        if k in ('bin', 'inpl'):
            if prop == 'P14' or rng.random() < .1:
                pass
            tab = BIN if k == 'bin' else INPL
            o = rng.choice([o for o in tab if tab[o][2] == prop])
            if rng.random() < .15: g = lst(o_join(fam_of(g), fam_of(f), n))[:60]
            if o in ('quotient', '/', 'remainder', '%', 'quotient_update', 'remainder_update') and rng.random() < .7:
                g = g[:2] or [[]]; f = lst(o_join(fam_of(f), fam_of(g), n) | fam_of(f[:3]))
            yield {'k': k, 'op': o, 'n': n, 'f': f, 'g': g}
        elif k in ('cmp', 'iop'):
            r = rng.random()
            if r < .3: g = lst(fam_of(f) | fam_of(g[:2]))
            elif r < .4: g = f
            if rng.random() < .5: f, g = g, f
            yield {'k': k, 'n': n, 'f': f, 'g': g}
        elif k in ('un', 'elt', 'size'):
            if n > 9 and not big: n = 9; f = lst(rfam(rng, n))
            tab = {'un': UN, 'elt': ELT, 'size': SIZE}[k]
            o = rng.choice([o for o in tab if tab[o][2] == prop])
            if big and o in ('complement', 'hitting', 'add_some_element', 'remove_add_some_elements'):
                n = 9; f = lst(bfam(rng, n, 60))
            yield {'k': k, 'op': o, 'n': n, 'f': f, 'e': rng.randint(1, n) if k == 'elt' else rng.randint(0, n + 1) if rng.random() < .95 else rng.choice((2 ** 15, 2 ** 16, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 64)) + rng.randint(-1, 3)}
        elif k in ('member', 'upd', 'self'):
            n = rng.choice((4, 5)); yield {'k': k, 'n': n, 'f': lst(rfam(rng, n))}
        elif k in ('count', 'dump'):
            yield {'k': k, 'n': n, 'f': f}
        elif k == 'blocks': yield {'k': k, 'n': rng.choice((40, 70, 130, 200, 300)), 'seed': rng.randrange(1 << 30)}
        elif k == 'itermany':
            small = rng.random() < .5; yield {'k': k, 'n': rng.choice((10, 11, 12)) if small or rng.random() < .8 else 14, 'seed': rng.randrange(1 << 30), 'small': small, 'p': rng.choice((.3, .6, .9, 1))}
        elif k == 'bigcount':
            n = rng.randint(3, 200) if rng.random() < .9 else rng.randint(200, 600); es = list(range(1, n + 1)); rng.shuffle(es)
            a, b = sorted((rng.randint(0, min(n, 6)), rng.randint(0, min(n, 6))))
            yield {'k': k, 'n': n, 'inc': es[:a], 'exc': es[a:b], 'del': rng.random() < .5, 'extra': [sorted(rng.sample(range(1, n + 1), rng.randint(0, min(n, 8)))) for _ in range(rng.randint(0, 4))]}
        elif k == 'iterate':
            if n > 7 and not big: n = 7; f = lst(rfam(rng, n))
            wk = rng.random()
            w = [1] + ([rng.choice((-2, -1, 0, 1, 1, 2)) for _ in range(n)] if wk < .4 else [round(rng.uniform(-10, 10), 3) for _ in range(n)] if wk < .8 else [rng.choice((10**6, -10**6, .001, 7)) for _ in range(n)])
            yield {'k': k, 'n': n, 'f': f, 'w': w}
        elif k == 'flip': yield {'k': k, 'n': n, 'f': f, 'e': rng.randint(0, n)}
        elif k == 'prob': yield {'k': k, 'n': n, 'f': f, 'p': [0] + [rng.choice((0, 1, .5, round(rng.random(), 3))) for _ in range(n)]}
        elif k == 'cost':
            big = rng.random() < .3
            w = [rng.choice(BIGS) if big else rng.randint(-6, 9) for _ in range(n)]
            tots = [sum(w[e - 1] for e in s) for s in f] or [0]
            lim = lambda b: max(-2**31, min(2**31 - 1, b))
            bs = {lim(rng.choice(tots) + d) for d in (-1, 0, 1)} | {lim(rng.randint(-20, 40))}
            bs = list(bs); rng.shuffle(bs)
            yield {'k': k, 'n': n, 'f': f, 'w': w, 'b': bs}
        elif k == 'constr':
            n = rng.choice((4, 5, 6, 8)); st = [rng.randrange(3) for _ in range(n)]
            inc = [e for e in range(1, n + 1) if st[e - 1] == 1]; exc = [e for e in range(1, n + 1) if st[e - 1] == 2]
            rng.shuffle(inc); rng.shuffle(exc)
            if inc and rng.random() < .3: inc.append(inc[0])
            yield {'k': k, 'n': n, 'inc': inc, 'exc': exc}
        elif k == 'multi':
            yield {'k': k, 'n': n, 'fs': [lst(bfam(rng, n, 60) if big else rfam(rng, n)) for _ in range(rng.randint(1, 4))]}
        elif k in ('hist', 'histmix', 'hist13'):
            yield {'k': k, 'seed': rng.randrange(1 << 30), 'n': rng.randint(2, 5), 'N': rng.randint(5, 7), 'steps': rng.randint(20, 80)}


def run_histmix(c):
    """the same argument word in every binary operation one after the other: an
    operation that looks up another one's cached result shows"""
    rng = random.Random(c['seed']); n = c['n']
    fs = [rfam(rng, n, 8) for _ in range(5)]
    objs = [mk(f) for f in fs]
    for _ in range(3):
        i, j = rng.randrange(5), rng.randrange(5)
        ops = list(BIN) + list(UN); rng.shuffle(ops)
        for o in ops:
            try:
                if o in BIN:
                    want = BIN[o][1](fs[i], fs[j], n)
                    same(BIN[o][0](objs[i], objs[j]), want, '%s of %s and %s after %s' % (o, lst(fs[i]), lst(fs[j]), ops[:ops.index(o)]))
                else: same(UN[o][0](objs[i], n), UN[o][1](fs[i], n), '%s of %s, n=%d, after %s' % (o, lst(fs[i]), n, ops[:ops.index(o)]))
            except Skip: pass
        for k in range(n + 2):
            for o in SIZE: same(SIZE[o][0](objs[i], k), SIZE[o][1](fs[i], k), '%s(%d) of %s' % (o, k, lst(fs[i])))


def run_hist13(c):
    """reconfiguration operations while the universe grows"""
    rng = random.Random(c['seed']); n = c['n']
    fs = [rfam(rng, n) for _ in range(4)]; objs = [mk(f) for f in fs]
    for step in range(12):
        if rng.random() < .2: n += 1; SS([set([n])])
        i = rng.randrange(4); m = n if rng.random() < .6 else rng.randint(max([e for s in fs[i] for e in s] or [1]), n)
        o = rng.choice(('remove_some_element', 'add_some_element', 'remove_add_some_elements'))
        same(UN[o][0](objs[i], m), UN[o][1](fs[i], m), '%s of %s with %d elements' % (o, lst(fs[i]), m))
