"""Validation of the axioms of theory.py against the standard model: S = finite
sets of integers, F = families over 1..N plus the null diagram (N small).  Every
axiom must be true for every instance drawn from the sample; a wrong axiom (or
an inconsistent set of axioms) cannot pass, because the standard model satisfies
all of them at once."""
import itertools, random, sys
from fractions import Fraction
import z3, theory as T, theory3 as T3, theory4 as T4
import contracts        # all axioms
from functools import lru_cache


class Arr:
    """an array: finitely many entries and a default"""

    def __init__(self, default, d=()):
        self.default, self.d = default, {k: v for k, v in dict(d).items() if v != default}
        self._h = hash((repr(default), frozenset((k, hash(v)) for k, v in self.d.items())))

    def get(self, i): return self.d.get(i, self.default)
    def set(self, i, v): return Arr(self.default, {**self.d, i: v})
    def __eq__(self, o): return isinstance(o, Arr) and self.default == o.default and self.d == o.d
    def __hash__(self): return self._h


class Model:
    def __init__(self, n, rnd):
        self.n, self.rnd = n, rnd
        self.universe = range(1, n + 1)
        self.small = [frozenset(c) for k in range(n + 1) for c in itertools.combinations(self.universe, k)]
        self.null = 'null'
        self.extra = self.small + [x | {n + 1} for x in self.small[:4]] + [frozenset([0, 1])]
        self.fams = None
        self.table_of_nodes()

    # ---- the node table: one node per family without the empty set, the lowest ones first
    def table_of_nodes(self):
        C = T4.CSTB
        self.nodes, self.idof, self.famofid = [], {frozenset(): C, frozenset([frozenset()]): C + 1}, {C: frozenset(), C + 1: frozenset([frozenset()])}
        top = lambda f: min(e for s in f for e in s)
        es = frozenset()
        for f in sorted((frozenset(c) for k in range(1, len(self.small)) for c in itertools.combinations(self.small[1:], k)), key=lambda f: (-top(f), len(f), sorted(map(sorted, f)))):
            v = top(f)
            f1 = frozenset(s - {v} for s in f if v in s)
            f0 = frozenset(s for s in f if v not in s) | {es}
            k = len(self.nodes)
            self.nodes.append((v, self.idof[f0], self.idof[f1]))
            self.idof[f], self.idof[f | {es}] = 2 * k, 2 * k + 1
            self.famofid[2 * k], self.famofid[2 * k + 1] = f, f | {es}

    def named(self, name):
        """the values of the variables that stand for ids and nodes"""
        if name in ('id_x', 'id_y'):
            ids = sorted(self.famofid)
            return ids + [T4.CSTB - 1, 2 * len(self.nodes), -1, (1 << 40) + 1, 5 << 32] + [self.rnd.randrange(1 << 41) for _ in range(3)]
        if name == 'nd_k': return list(range(-1, len(self.nodes) + 2))

    def o_neg(self, x): return x & 1
    def o_nt(self, x): return x ^ 1
    def o_ab(self, x): return x & ~1
    def o_cst(self, x): return x & T4.CSTB
    def o_ndx(self, x): return x >> 1
    def o_lo32(self, x): return x & 0xffffffff
    def o_shr32(self, x): return x >> 32
    def o_shl32(self, x): return x << 32
    def o_hi8(self, x): return x >> 32 & 255
    def o_join40(self, x, y): return x | y << 32
    def o_alloc(self, k): return 0 <= k < len(self.nodes)
    def o_nvar(self, k): return self.nodes[k][0] if self.o_alloc(k) else 0
    def o_nf0(self, k): return self.nodes[k][1] if self.o_alloc(k) else 0
    def o_nf1(self, k): return self.nodes[k][2] if self.o_alloc(k) else 0
    def o_NodeSpc(self): return len(self.nodes)
    def o_valid(self, x): return x in self.famofid
    def o_vtop(self, x): return 0 if x not in self.famofid else self.n + 1 if x >= T4.CSTB else self.nodes[x >> 1][0]
    def o_fam(self, x): return self.famofid.get(x, frozenset())
    def o_uniq(self, x, y): return True

    def m(self, f): return frozenset() if f == 'null' else f

    def sets(self): return self.extra

    def ints(self): return list(range(-1, self.n + 3))

    def fam(self):
        if self.n <= 2 :
            if self.fams is None:
                self.fams = [frozenset(c) for k in range(len(self.small) + 1) for c in itertools.combinations(self.small, k)] + ['null']
            return self.fams
        return [frozenset(x for x in self.small if self.rnd.random() < p) for p in (0, .2, .5, .8, 1) for _ in range(3)] + ['null', frozenset([frozenset()])]

    def reals(self): return [Fraction(x, 4) for x in (-3, 0, 1, 2, 4, 7)]

    def dom(self, so):
        if so == T.S: return self.sets()
        if so == T.F: return self.fam()
        if so == T.I: return self.ints()
        if so == z3.BoolSort(): return [False, True]
        if so == z3.RealSort(): return self.reals()
        if isinstance(so, z3.ArraySortRef) and so.domain() == T.I:
            vals = self.dom(so.range()); r = self.rnd
            out = [Arr(r.choice(vals), {i: r.choice(vals) for i in range(-1, self.n + 3)}) for _ in range(14)] + [Arr(r.choice(vals), {})]
            if so.range() == T.I: out += [Arr(r.choice((-1, 1)) << 31, {i: r.choice((-1 << 31, 1 << 31, 0, 1)) for i in range(-1, self.n + 3)}) for _ in range(2)]
            if so.range() == T.I: out += [Arr(0, {i: x for i, x in enumerate(sorted(t))}) for t in self.small]
            if so.range() == z3.RealSort(): out = [x for a in out[:8] for x in (a, Arr(-a.default, {i: -a.get(i) for i in range(-1, self.n + 3)}))]
            if so.range() == z3.BoolSort(): out += [Arr(False, {})]
            return out
        return None

    def wellformed(self, so, v):
        """families are over the universe"""
        return so != T.F or v == 'null' or all(1 <= e <= self.n for s in v for e in s)

    # ---- operations
    def call(self, nm, a):
        n = self.n
        f = getattr(self, 'o_' + nm, None)
        if f: return f(*a)
        raise KeyError(nm)

    def o_has(self, s, e): return e in s
    def o_add(self, s, e): return s | {e}
    def o_rem(self, s, e): return s - {e}
    def o_uni(self, s, t): return s | t
    def o_cap(self, s, t): return s & t
    def o_dif(self, s, t): return s - t
    def o_sub(self, s, t): return s <= t
    def o_subw(self, s, t): return min(s - t, default=0)
    def o_card(self, s): return len(s)
    def o_nth(self, s, i): return sorted(s)[i] if 0 <= i < len(s) else 0
    def o_idx(self, s, e): return sorted(s).index(e) if e in s else 0
    def o_pre(self, s, i): return frozenset(sorted(s)[:max(i, 0)])
    def o_mem(self, s, f): return s in self.m(f)
    _ids = {}
    def o_fid(self, f): self._ids[hash(f)] = f; return hash(f)
    def o_famof(self, i): return self._ids.get(i)
    def o_topv(self, f): return min([e for s in self.m(f) for e in s], default=0)
    def o_topw(self, f): return min([s for s in self.m(f) if self.o_topv(f) in s], key=sorted, default=frozenset())
    def o_dw(self, f, g): return min(self.m(f) ^ self.m(g), key=sorted, default=frozenset())
    def o_funion(self, f, g): return self.m(f) | self.m(g)
    def o_fint(self, f, g): return self.m(f) & self.m(g)
    def o_fdiff(self, f, g): return self.m(f) - self.m(g)
    def o_onset(self, f, v): return frozenset(s for s in self.m(f) if v in s)
    def o_onset0(self, f, v): return frozenset(s - {v} for s in self.m(f) if v in s)
    def o_offset(self, f, v): return frozenset(s for s in self.m(f) if v not in s)
    def o_change(self, f, v): return frozenset(s ^ {v} for s in self.m(f)) if 1 <= v <= self.n else frozenset()
    def o_exsub(self, s, g): return any(t <= s for t in self.m(g))
    def o_exsubw(self, s, g): return min([t for t in self.m(g) if t <= s], key=sorted, default=frozenset())
    def o_exsup(self, s, g): return any(s <= t for t in self.m(g))
    def o_exsupw(self, s, g): return min([t for t in self.m(g) if s <= t], key=sorted, default=frozenset())
    def o_restrict(self, f, g): return frozenset(s for s in self.m(f) if self.o_exsub(s, g))
    def o_permit(self, f, g): return frozenset(s for s in self.m(f) if self.o_exsup(s, g))
    def o_nonsub(self, f, g): return frozenset(s for s in self.m(f) if not self.o_exsup(s, g))
    def o_nonsup(self, f, g): return frozenset(s for s in self.m(f) if not self.o_exsub(s, g))
    def o_permitsym(self, f, n): return frozenset(s for s in self.m(f) if len(s) <= n)
    def o_join(self, f, g): return frozenset(s | t for s in self.m(f) for t in self.m(g))
    def o_meet(self, f, g): return frozenset(s & t for s in self.m(f) for t in self.m(g))
    def _pair(self, s, f, g, op):
        for a in sorted(self.m(f), key=sorted):
            for b in sorted(self.m(g), key=sorted):
                if op(a, b) == s: return a, b
        return frozenset(), frozenset()
    def o_ja(self, s, f, g): return self._pair(s, f, g, lambda a, b: a | b)[0]
    def o_jb(self, s, f, g): return self._pair(s, f, g, lambda a, b: a | b)[1]
    def o_ma(self, s, f, g): return self._pair(s, f, g, lambda a, b: a & b)[0]
    def o_mb(self, s, f, g): return self._pair(s, f, g, lambda a, b: a & b)[1]
    def o_anyw(self, f): return min(self.m(f), key=sorted, default=frozenset())
    def o_bigw(self, f): return max(self.m(f), key=len, default=frozenset())
    def o_dj(self, s, t): return not (s & t)
    def o_djw(self, s, t): return min(s & t, default=0)
    def o_lev(self, v): return 0 if v == 0 else self.n + 1 - v
    def isquo(self, s, f, g): return all(not (s & t) and (s | t) in self.m(f) for t in self.m(g))
    def o_quo(self, f, g): return frozenset(s for s in self.small if self.isquo(s, f, g))
    def o_quow(self, s, f, g): return min([t for t in self.m(g) if (s & t) or (s | t) not in self.m(f)], key=sorted, default=frozenset())
    def o_minimal(self, f): return frozenset(s for s in self.m(f) if not any(t < s for t in self.m(f)))
    def o_maximal(self, f): return frozenset(s for s in self.m(f) if not any(t > s for t in self.m(f)))
    def o_minw(self, s, f): return min([t for t in self.m(f) if t < s], key=sorted, default=frozenset())
    def o_maxw(self, s, f): return min([t for t in self.m(f) if t > s], key=sorted, default=frozenset())
    def o_mind(self, s, f): return min([t for t in self.o_minimal(f) if t <= s], key=sorted, default=frozenset())
    def o_maxd(self, s, f): return min([t for t in self.o_maximal(f) if t >= s], key=sorted, default=frozenset())
    def o_rsome(self, f): return frozenset(s - {e} for s in self.m(f) for e in s)
    def o_rsw(self, s, f): return min([e for e in range(0, self.n + 2) if e not in s and (s | {e}) in self.m(f)], default=0)
    def inr(self, e, n, m): return 1 <= e <= self.n and m <= self.o_lev(e) <= n
    def o_asome(self, f, n, m): return frozenset(s | {e} for s in self.m(f) for e in self.universe if e not in s and self.inr(e, n, m))
    def o_asw(self, s, f, n, m): return min([e for e in s if (s - {e}) in self.m(f) and self.inr(e, n, m)], default=0)
    def o_ssome(self, f, n, m): return frozenset((s - {r}) | {e} for s in self.m(f) for r in s for e in self.universe if e not in s and self.inr(e, n, m))
    def _ss(self, s, f, n, m):
        for e in sorted(s):
            if not self.inr(e, n, m): continue
            for r in self.universe:
                if r not in s and ((s - {e}) | {r}) in self.m(f): return e, r
        return 0, 0
    def o_ssa(self, s, f, n, m): return self._ss(s, f, n, m)[0]
    def o_ssr(self, s, f, n, m): return self._ss(s, f, n, m)[1]
    def o_vfree(self, f, v): return not any(v in s for s in self.m(f))
    def o_vfw(self, f, v): return min([s for s in self.m(f) if v in s], key=sorted, default=frozenset())
    def o_fone(self, s): return frozenset([s]) if self.ok(s) else frozenset()
    def o_addall(self, f, v): return frozenset(s | {v} for s in self.m(f)) if 1 <= v <= self.n else frozenset()
    def o_remall(self, f, v): return frozenset(s - {v} for s in self.m(f))
    def o_xint(self, s, n): return s ^ frozenset(range(1, n + 1))
    def o_flipall(self, f, n): return frozenset(self.o_xint(s, n) for s in self.m(f)) if n <= self.n else frozenset()
    def o_fsub(self, f, g): return self.m(f) <= self.m(g)
    def o_fsubw(self, f, g): return min(self.m(f) - self.m(g), key=sorted, default=frozenset())
    def o_fdis(self, f, g): return not (self.m(f) & self.m(g))
    def o_fdisw(self, f, g): return min(self.m(f) & self.m(g), key=sorted, default=frozenset())
    def o_fxor(self, f, g): return self.m(f) ^ self.m(g)
    def o_frem(self, f, g): return self.m(f) - self.o_join(self.o_quo(f, g), g)
    def o_fsize(self, f, a, b): return frozenset(s for s in self.m(f) if a <= len(s) <= b)
    def ieb(self, s, t, u, a, b, e): return (e in s and not a <= e <= b) or (a <= e <= b and ((e in t and e not in s) or (e in u and e not in t and e in s)))
    def o_ie(self, t, u, a, b): return frozenset(s for s in self.small if not any(self.ieb(s, t, u, a, b, e) for e in range(-1, self.n + 3)))
    def o_iew(self, s, t, u, a, b): return min([e for e in range(-1, self.n + 3) if self.ieb(s, t, u, a, b, e)], default=0)
    def o_pw(self, a, b): return frozenset(s for s in self.small if all(a <= e <= b for e in s))
    def o_pww(self, s, a, b): return min([e for e in s if not a <= e <= b], default=0)
    def o_hit(self, f, n): return frozenset(s for s in self.o_pw(1, n) if all(s & t for t in self.m(f)))
    def o_hitw(self, s, f, n): return min([t for t in self.m(f) if not (s & t)], key=sorted, default=frozenset())
    def ok(self, s): return all(1 <= e <= self.n for e in s)
    def o_uok(self, s): return self.ok(s)
    def o_uokw(self, s): return min([e for e in s if not 1 <= e <= self.n], default=0)
    def o_setofvec(self, A, a, b): return frozenset(A.get(i) for i in range(a, b))
    def o_setofveci(self, A, a, b, e): return min([i for i in range(a, b) if A.get(i) == e], default=0)
    def o_fvec(self, A, n): return frozenset(A.get(i) for i in range(0, n) if self.ok(A.get(i)))
    def o_fveci(self, s, A, n): return min([i for i in range(0, n) if A.get(i) == s], default=0)
    def o_skp(self, A, a, b):
        r = Fraction(1)
        for i in range(a, b): r *= 1 - A.get(i)
        return r
    @lru_cache(100000)
    def o_prv(self, f, A, a, n):
        if a > n: return Fraction(int(frozenset() in self.m(f)))
        if a < 1 or n > self.n or f == 'null': return Fraction(0)
        return A.get(a) * self.o_prv(self.o_onset0(f, a), A, a + 1, n) + (1 - A.get(a)) * self.o_prv(self.o_offset(f, a), A, a + 1, n)
    def o_negto(self, A, A2, n): return all(A.get(i) == -A2.get(i) for i in range(0, n))
    def o_negw(self, A, A2, n): return min([i for i in range(0, n) if A.get(i) != -A2.get(i)], default=0)
    def o_top_le(self, f, n): return all(e <= n for s in self.m(f) for e in s)
    def o_tlw(self, f, n): return min([s for s in self.m(f) if any(e > n for e in s)], key=sorted, default=frozenset())
    def o_tle(self, f, n): return max(self.o_tlw(f, n), default=0)
    def o_cnt(self, f): return Fraction(len(self.m(f)))
    def o_dmin(self, s, t): return min(s ^ t, default=0)
    def o_lt(self, s, t): return s != t and self.o_dmin(s, t) in s
    def o_below(self, s, v): return frozenset(e for e in s if e < v)
    def o_above(self, s, v): return frozenset(e for e in s if e >= v)
    def o_gap(self, s, v, w): return not any(v < e < w for e in s)
    def o_gapw(self, s, v, w): return min([e for e in s if v < e < w], default=0)
    def o_wt(self, s, A): return sum((A.get(e) for e in s), Fraction(0))
    def o_bsw(self, f, A): return max(sorted(self.m(f), key=sorted), key=lambda s: self.o_wt(s, A), default=frozenset())
    def o_bst(self, f, A): return self.o_wt(self.o_bsw(f, A), A)
    def o_vset(self, A, n): return frozenset(i for i in range(0, n) if A.get(i))
    def o_vin(self, A, n, x): return any(A.get(i) == x for i in range(0, n))
    def o_vii(self, A, n, x): return min([i for i in range(0, n) if A.get(i) == x], default=0)
    def _srt(self, A, n):
        for b in range(0, n):
            if not b + 1 <= A.get(b) <= self.n: return b, b
            for a in range(0, b):
                if A.get(a) >= A.get(b): return a, b
        return None
    def o_srt(self, A, n): return self._srt(A, n) is None
    def o_srw(self, A, n): return (self._srt(A, n) or (0, 0))[0]
    def o_srx(self, A, n): return (self._srt(A, n) or (0, 0))[1]
    def o_hr(self, f, a, n): return frozenset(s for s in self.o_pw(a, n) if all(s & t for t in self.m(f)))
    def o_hrw(self, s, f, a, n): return min([t for t in self.m(f) if not (s & t)], key=sorted, default=frozenset())
    def o_cwt(self, s, A): return sum(A.get(e - 1) for e in s)
    def o_cle(self, f, A, b): return frozenset(s for s in self.m(f) if self.o_cwt(s, A) <= b)
    def _aw(self, f, A, b): return max((s for s in self.m(f) if self.o_cwt(s, A) <= b), key=lambda s: (self.o_cwt(s, A), sorted(s)), default=None)
    def _rb(self, f, A, b): return min((s for s in self.m(f) if self.o_cwt(s, A) > b), key=lambda s: (self.o_cwt(s, A), sorted(s)), default=None)
    def o_haw(self, f, A, b): return self._aw(f, A, b) is not None
    def o_aww(self, f, A, b): return self._aw(f, A, b) or frozenset()
    def o_awv(self, f, A, b): return self.o_cwt(self.o_aww(f, A, b), A)
    def o_hrb(self, f, A, b): return self._rb(f, A, b) is not None
    def o_rbw(self, f, A, b): return self._rb(f, A, b) or frozenset()
    def o_rbv(self, f, A, b): return self.o_cwt(self.o_rbw(f, A, b), A)
    def o_ach(self, f, A, c): return any(self.o_cwt(s, A) == c for s in self.m(f))
    def o_acw(self, f, A, c): return min([s for s in self.m(f) if self.o_cwt(s, A) == c], key=sorted, default=frozenset())
    def o_abnd(self, A, n, k): return all(-k <= A.get(i) <= k for i in range(0, n))
    def o_abw(self, A, n, k): return min([i for i in range(0, n) if not -k <= A.get(i) <= k], default=0)
    def o_agr(self, A, A2, n): return all(A.get(i) == A2.get(i) for i in range(0, n))
    def o_agw(self, A, A2, n): return min([i for i in range(0, n) if A.get(i) != A2.get(i)], default=0)
    def zkey(self, f, A, dm, vl, k):
        if k != T3.NUL.as_long() and not self.o_ach(f, A, -k): return False
        return vl.get(k) == 'null' or vl.get(k) == self.o_cle(f, A, -k) and (not self.o_hrb(f, A, -k) or dm.get(-self.o_rbv(f, A, -k)))
    def _zk(self, f, A, dm, vl):
        if dm.default: return next(k for k in range(10 ** 6, 10 ** 7) if dm.get(k))       # no member costs that much
        return next((k for k in dm.d if not self.zkey(f, A, dm, vl, k)), None)
    def o_zok(self, f, A, dm, vl): return self._zk(f, A, dm, vl) is None
    def o_zkw(self, f, A, dm, vl): return self._zk(f, A, dm, vl) or 0
    def table(self, f, A):
        """a table of results"""
        r = self.rnd
        cs = [c for c in {self.o_cwt(s, A) for s in self.m(f)} if r.random() < .8]
        dm = {-c: True for c in cs}
        if r.random() < .5: dm[T3.NUL.as_long()] = True
        vl = {k: self.o_cle(f, A, -k) if r.random() < .7 else 'null' for k in dm}
        return Arr(False, dm), Arr('null', vl)
    def o_ne(self, dm): return dm.default or bool(dm.d)
    def o_nek(self, dm): return next(k for k in range(10 ** 6, 10 ** 7) if dm.get(k)) if dm.default else next(iter(dm.d), 0)
    def o_es(self): return frozenset()
    def o_bot(self): return frozenset()
    def o_top(self): return frozenset([frozenset()])
    def o_null(self): return 'null'
    def o_N_universe(self): return self.n


K = z3


def compile_expr(e, M, depth=0):
    """z3 term -> python closure over an environment (list of bound values)"""
    if z3.is_var(e):
        i = z3.get_var_index(e)
        return lambda env: env[-1 - i]
    if z3.is_int_value(e):
        v = e.as_long(); return lambda env: v
    k = e.decl().kind()
    ch = [compile_expr(c, M) for c in e.children()]
    if k == z3.Z3_OP_TRUE: return lambda env: True
    if k == z3.Z3_OP_FALSE: return lambda env: False
    if k == z3.Z3_OP_AND: return lambda env: all(c(env) for c in ch)
    if k == z3.Z3_OP_OR: return lambda env: any(c(env) for c in ch)
    if k == z3.Z3_OP_NOT: return lambda env: not ch[0](env)
    if k == z3.Z3_OP_IMPLIES: return lambda env: (not ch[0](env)) or ch[1](env)
    if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF): return lambda env: ch[0](env) == ch[1](env)
    if k == z3.Z3_OP_DISTINCT: return lambda env: ch[0](env) != ch[1](env)
    if k == z3.Z3_OP_ITE: return lambda env: ch[1](env) if ch[0](env) else ch[2](env)
    if k == z3.Z3_OP_ADD: return lambda env: sum(c(env) for c in ch)
    if k == z3.Z3_OP_SUB: return lambda env: ch[0](env) - sum(c(env) for c in ch[1:])
    if k == z3.Z3_OP_UMINUS: return lambda env: -ch[0](env)
    if k == z3.Z3_OP_MUL: return lambda env: ch[0](env) * ch[1](env)
    if k == z3.Z3_OP_LE: return lambda env: ch[0](env) <= ch[1](env)
    if k == z3.Z3_OP_LT: return lambda env: ch[0](env) < ch[1](env)
    if k == z3.Z3_OP_GE: return lambda env: ch[0](env) >= ch[1](env)
    if k == z3.Z3_OP_GT: return lambda env: ch[0](env) > ch[1](env)
    if z3.is_rational_value(e):
        v = Fraction(e.numerator_as_long(), e.denominator_as_long()); return lambda env: v
    if k == z3.Z3_OP_TO_REAL: return lambda env: Fraction(ch[0](env))
    if k == z3.Z3_OP_SELECT: return lambda env: ch[0](env).get(ch[1](env))
    if k == z3.Z3_OP_STORE: return lambda env: ch[0](env).set(ch[1](env), ch[2](env))
    if k == z3.Z3_OP_CONST_ARRAY: return lambda env: Arr(ch[0](env))
    if k == z3.Z3_OP_UNINTERPRETED:
        nm, so = e.decl().name(), e.decl().range()
        if so == T.F:
            def call(env):
                v = M.call(nm, [c(env) for c in ch])
                if not M.wellformed(so, v): raise ValueError('%s leaves the universe' % nm)
                return v
            return call
        return lambda env: M.call(nm, [c(env) for c in ch])
    raise KeyError('op ' + str(e.decl()))


def check(budget=20000, seed=1, verbose=False):
    """returns (number of axioms checked, instances, failures, unmodelled)"""
    rnd = random.Random(seed)
    tot, fails, un = 0, [], []
    ok = 0
    for name, kind, expr, _ in T.AX:
        try:
            for n in (2, 3):
                M = Model(n, rnd)
                if not z3.is_quantifier(expr):
                    fn = compile_expr(expr, M); tot += 1
                    if not fn([]): fails.append((name, n, None))
                    continue
                fn = compile_expr(expr.body(), M)
                doms = []
                for i in range(expr.num_vars()):
                    doms.append(M.named(expr.var_name(i)) or M.dom(expr.var_sort(i)))
                if any(d is None for d in doms): raise KeyError('sort')
                size = 1
                for d in doms: size *= len(d)
                gen = itertools.product(*doms) if size <= budget else (tuple(rnd.choice(d) for d in doms) for _ in range(budget))
                two = [i for i in range(expr.num_vars()) if expr.var_sort(i) == z3.ArraySort(T.I, z3.RealSort())]
                srt = [expr.var_sort(i) for i in range(expr.num_vars())]
                tab = [srt.index(q) for q in (T.F, z3.ArraySort(T.I, T.I), z3.ArraySort(T.I, z3.BoolSort()), z3.ArraySort(T.I, T.F)) if q in srt]
                for env in gen:
                    if len(tab) == 4 and rnd.random() < .7:     # a table of results of the family
                        env = list(env); env[tab[2]], env[tab[3]] = M.table(env[tab[0]], env[tab[1]])
                        env = tuple(env)
                    if len(two) == 2 and rnd.random() < .7:     # pairs of an array and its negation
                        env = list(env); a_ = env[two[0]]; env[two[1]] = Arr(-a_.default, {i: -a_.get(i) for i in range(-1, n + 3)})
                        env = tuple(env)
                    if srt.count(z3.ArraySort(T.I, T.I)) == 2 and rnd.random() < .7:      # arrays that agree on their first entries
                        i, j = [i for i, q in enumerate(srt) if q == z3.ArraySort(T.I, T.I)]
                        env = list(env); env[j] = env[i].set(rnd.randint(0, n + 1), rnd.randint(-2, 2))
                        env = tuple(env)
                    tot += 1
                    try: good = fn(env)
                    except ValueError as err: good = False; name = '%s: %s' % (name, err)
                    if not good:
                        fails.append((name, n, tuple(str(x) for x in env))); break
            ok += 1
        except KeyError as err:
            un.append((name, str(err)))
    return ok, tot, fails, un


if __name__ == '__main__':
    r = check(verbose=True)
    print(r[0], r[1], 'unmodelled', r[3])
    for x in r[2]: print('FAIL', x)
