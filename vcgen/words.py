"""Contracts for numbers of any size (subsetting/util/BigNumber.hpp): a small symbolic
executor for code that walks over arrays of 64-bit words through pointers.

A pointer is an address counted in words (0 is null) and the memory is one array of
unsigned 64-bit words, so that overlap, aliasing and the words that a function leaves
alone are all statements about that array.  A number of n words at address A is
well-formed when every word but the last has the continuation bit (bit 63) and the
last has not; its value is sum(M, A, n), the sum over i < n of the low 63 bits of
M[A+i] times pw(i), with pw(i) = 2^(63 i).  Words are taken modulo 2^64 as the code
computes them."""
import itertools, os, re, time
import z3
from z3 import And, Or, Not, If, Implies, IntVal, BoolVal, Select, Store, ForAll
import front, prove

X = 1 << 63
W = 1 << 64
I = z3.IntSort()
MEM = z3.ArraySort(I, I)
STREAM = z3.DeclareSort('Out')
S_ = z3.Function('sum', MEM, I, I, I)
pw_ = z3.Function('pw', I, I)
def S(M, A, n): return S_(M, z3.simplify(A), z3.simplify(n))
def pw(n): return pw_(z3.simplify(n))
app = z3.Function('app', STREAM, I, STREAM)        # a numeral is written to a stream
mul = z3.Function('mul', I, I, I)                   # a word times a power
put = z3.Function('put', STREAM, I, STREAM)        # the decimal digits of a number are written
EMPTY = z3.Const('empty', STREAM)
BN = 'tdzdd::BigNumber'
TU = ['graphillion/setset.cc']
_n = itertools.count()


class Unsupported(Exception): pass


def fr(name, sort=I): return z3.Const('%s!%d' % (name, next(_n)), sort)


def low(v): return z3.simplify(v) % X


def add_(l): return IntVal(0) if not l else l[0] if len(l) == 1 else z3.Sum(l)


def times(a, t):
    """a * t; kept as a symbol, whose laws are given where they are needed"""
    return add_([x * t * c if z3.is_int_value(x) else mul(x, t) * c for c, x in lin(z3.simplify(a))])


# ---------------------------------------------------------------- definitions and lemmas
M_, N_ = z3.Consts('M N', MEM)
a_, n_, k_, v_, j_ = z3.Ints('a n k v j')
O_ = z3.Const('o', STREAM)


def wf(M, A, n):
    k = z3.Int('k')
    return And(A >= 1, n >= 1, Select(M, A + n - 1) < X, Or(n == 1, Select(M, A + n - 1) > 0), ForAll([k], Implies(And(A <= k, k < A + n - 1), Select(M, k) >= X), patterns=[Select(M, k)]))


def words(M):
    k = z3.Int('k')
    return ForAll([k], And(0 <= Select(M, k), Select(M, k) < W), patterns=[Select(M, k)])


def same(M, N, lo, hi):
    """M and N agree outside lo..hi-1"""
    k = z3.Int('k')
    return ForAll([k], Implies(Or(k < lo, k >= hi), Select(M, k) == Select(N, k)), patterns=[Select(M, k)])


def D_sum(M, A, n): return [Implies(n == 0, S(M, A, n) == 0), Implies(n >= 1, S(M, A, n) == S(M, A, n - 1) + times(low(Select(M, A + n - 1)), pw(n - 1)))]


def D_pw(n): return [Implies(n == 0, pw(n) == 1), Implies(n >= 1, pw(n) == X * pw(n - 1))]


def D_put(o, v): return [put(o, v) == If(v < 10, app(o, v), app(put(o, v / 10), v % 10))]


def L_store(M, B, v, A, n, T=None, r=None):
    """storing a word"""
    T = Store(M, B, v) if T is None else T
    return Implies(n >= 0, S(T, A, n) == If(And(A <= B, B < A + n), S(M, A, n) + times(low(v) if r is None else r, pw(B - A)) - times(low(Select(M, B)), pw(B - A)), S(M, A, n)))


def L_zero(M, A, j, n):
    """words without low bits add nothing"""
    k = z3.Int('k')
    return Implies(And(0 <= j, j <= n, ForAll([k], Implies(And(A + j <= k, k < A + n), low(Select(M, k)) == 0), patterns=[Select(M, k)])), S(M, A, n) == S(M, A, j))


def L_frame(M, N, A, n):
    """equal words, equal sums"""
    k = z3.Int('k')
    return Implies(And(n >= 0, ForAll([k], Implies(And(A <= k, k < A + n), Select(M, k) == Select(N, k)), patterns=[Select(M, k)])), S(M, A, n) == S(N, A, n))


def P_pw(n): return And(Implies(n >= 0, pw(n) >= 1), Implies(n >= 1, pw(n) >= X), Implies(n >= 2, pw(n) >= X * X))


def L_pos(M, A, n): return And(P_pw(n), Implies(n >= 0, And(S(M, A, n) >= 0, pw(n) >= 1)), Implies(And(n >= 1, low(Select(M, A + n - 1)) >= 1), S(M, A, n) >= pw(n - 1)))


def mul_laws(a, t):
    """laws of multiplication by a power (positive)"""
    return [Implies(t == 1, mul(a, t) == a), Implies(a == 0, mul(a, t) == 0), Implies(a == 1, mul(a, t) == t), Implies(And(a >= 0, t >= 0), mul(a, t) >= 0), Implies(And(a >= 1, t >= 0), mul(a, t) >= t)]


def lemmas():
    """each by induction over n: (name, assumptions, goal)"""
    B = z3.Int('B')
    out = []
    for nm, f in (('store', lambda n: L_store(M_, B, v_, a_, n)), ('zero', lambda n: L_zero(M_, a_, j_, n)), ('frame', lambda n: L_frame(M_, N_, a_, n)), ('pos', lambda n: L_pos(M_, a_, n))):
        T = Store(M_, B, v_)
        defs = [d for m in (M_, N_, T) for d in D_sum(m, a_, n_)] + D_pw(n_)
        k = z3.Int('k')
        defs += [words(M_), words(N_)]
        for m in (M_, N_, T):
            for x in (low(Select(m, a_ + n_ - 1)), low(v_)): defs += mul_laws(x, pw(n_ - 1))
        out.append((nm + ' base', defs + [n_ == 0], f(n_)))
        out.append((nm + ' step', defs + [n_ >= 1, f(n_ - 1)], f(n_)))
    return out


# ---------------------------------------------------------------- states
class St:
    __slots__ = ('loc', 'M', 'pc', 'os', 'len', 'bufs')

    def __init__(self): self.loc, self.M, self.pc, self.os, self.len, self.bufs = {}, None, [], {}, [], []

    def copy(self):
        s = St(); s.loc, s.M, s.pc, s.os, s.len, s.bufs = dict(self.loc), self.M, list(self.pc), dict(self.os), list(self.len), list(self.bufs)
        return s

    def setlen(self, A, n): self.len = [(a, b) for a, b in self.len if not z3.eq(a, z3.simplify(A))] + [(z3.simplify(A), n)]

    def getlen(self, A):
        A = z3.simplify(A)
        for a, b in self.len:
            if z3.eq(a, A): return b
        raise Unsupported('a number of unknown size')


class Obj:
    """a BigNumber: the address of its words"""
    def __init__(self, A): self.A = A


class Rec:
    def __init__(self, f): self.f = f


class Out:
    def __init__(self, key): self.key = key


class Con:
    def __init__(self, key, n=0, m=0, pre=None, post=None, loops=(), newlen=None, hints=None):
        self.key, self.n, self.m, self.pre, self.post, self.loops, self.newlen, self.hints = key, n, m, pre, post, list(loops), newlen, hints


INT = {'int': (32, 1), 'unsigned int': (32, 0), 'long': (64, 1), 'unsigned long': (64, 0), 'long long': (64, 1), 'unsigned long long': (64, 0), 'bool': (1, 0), 'char': (8, 1), 'unsigned char': (8, 0)}


def cty(t):
    t = t.strip()
    while 1:
        u = re.sub(r'^const ', '', t)
        u = re.sub(r'\s*(&&|&)$', '', u)
        if u.endswith('*const'): u = u[:-5]
        if not u.endswith('*'): u = re.sub(r' const$', '', u)
        if u == t: return t
        t = u


def isint(t): return cty(t) in INT


def wrap(v, t):
    b, sg = INT[cty(t)]
    v = z3.simplify(v) if z3.is_int_value(v) else v
    if sg: return If(And(-(1 << b - 1) <= v, v < 1 << b - 1), v, (v + (1 << b - 1)) % (1 << b) - (1 << b - 1))
    return If(And(0 <= v, v < 1 << b), v, v % (1 << b))


def cval(v):
    v = z3.simplify(v)
    return v.as_long() if z3.is_int_value(v) else None


def tobool(v): return v if z3.is_bool(v) else v != 0


def toint(v): return If(v, IntVal(1), IntVal(0)) if z3.is_bool(v) else v


def lin(v):
    """a sum of multiples of terms"""
    if z3.is_int_value(v): return [(v.as_long(), IntVal(1))]
    if z3.is_app(v):
        k = v.decl().kind()
        if k == z3.Z3_OP_ADD: return [x for c in v.children() for x in lin(c)]
        if k == z3.Z3_OP_SUB: return lin(v.arg(0)) + [(-c, x) for y in v.children()[1:] for c, x in lin(y)]
        if k == z3.Z3_OP_UMINUS: return [(-c, x) for c, x in lin(v.arg(0))]
        if k == z3.Z3_OP_MUL and len(v.children()) == 2 and z3.is_int_value(v.arg(0)): return [(v.arg(0).as_long() * c, x) for c, x in lin(v.arg(1))]
        if k == z3.Z3_OP_MUL and len(v.children()) == 2 and z3.is_int_value(v.arg(1)): return [(v.arg(1).as_long() * c, x) for c, x in lin(v.arg(0))]
    return [(1, v)]


class Exec:
    def __init__(self, ix, con):
        self.ix, self.con, self.obls, self.facts, self.callees, self.vac, self.lin, self.dm, self.keep, self.bits, self.alias, self.hq, self.cur = ix, con, [], [], set(), [], [], {}, [], {}, {}, {}, None
        self.fn = ix.fns[con.key]
        self.nloop = self.depth = 0
        self.inlined = set()

    def oblige(self, st, name, goal, line, kind='safety'): self.obls.append((name, kind, line, list(st.pc), goal))

    # ---- expressions: lists of (state, value)
    def ev(self, st, e):
        self.cur = st
        f = getattr(self, 'e_' + e['k'], None)
        if f is None: raise Unsupported('expression %s' % e['k'])
        self.line = e.get('l', getattr(self, 'line', 0))
        return f(st, e)

    def ev2(self, st, a, b):
        return [(s2, x, y) for s1, x in self.ev(st, a) for s2, y in self.ev(s1, b)]

    def e_int(self, st, e): return [(st, IntVal(int(e['v'])))]
    def e_bool(self, st, e): return [(st, BoolVal(bool(e['v'])))]
    def e_this(self, st, e): return [(st, st.loc['this'])]

    def e_ref(self, st, e):
        if e['id'] not in st.loc: raise Unsupported('variable %s' % e['name'])
        return [(st, st.loc[e['id']])]

    def e_member(self, st, e):
        out = []
        for s, b in self.ev(st, e['base']):
            if isinstance(b, Obj) and e['name'] == 'array': out.append((s, b.A))
            elif isinstance(b, Rec) and e['name'] in b.f: out.append((s, b.f[e['name']]))
            else: raise Unsupported('member %s' % e['name'])
        return out

    def load(self, st, a):
        self.oblige(st, 'the word that is read belongs to one of the numbers', self.readable(st, a), self.line)
        k = (st.M.get_id(), z3.simplify(a).get_id())
        if k in self.dm: v = self.dm[k]; st.pc.append(And(0 <= v, v < W)); return v
        self.keep += [st.M, z3.simplify(a)]
        v = self.dm[k] = fr('word')
        self.facts += [v == Select(st.M, a)]
        self.lin.append((None, [(1, v), (-1, Select(st.M, a))]))
        self.divmod(v, X)
        st.pc.append(And(0 <= v, v < W))
        return v

    def divmod(self, a, c):
        """a = c d + r"""
        if z3.is_int_value(a): return IntVal(a.as_long() // c), IntVal(a.as_long() % c)
        k = (a.get_id(), c)
        if k not in self.dm and c < X and X % c == 0 and (a.get_id(), X) in self.dm:
            d, r = self.dm[a.get_id(), X]
            d2, r2 = self.divmod(r, c)
            return d * (X // c) + d2, r2
        if k not in self.dm:
            d, r = fr('d'), fr('r')
            self.keep.append(a)
            self.facts += [a == c * d + r, 0 <= r, r < c] + ([r == a % c] if c == X else [])
            self.lin.append((None, [(1, a), (-c, d), (-1, r)]))
            self.dm[k] = (d, r)
        return self.dm[k]

    def sure(self, g):
        """whether the numbers computed so far make it true"""
        if self.cur is None: return False
        s = z3.Solver(); s.set('timeout', 300)
        for x in self.cur.pc + self.facts:
            if not self.hasq(x): s.add(x)
        s.add(Not(g))
        return s.check() == z3.unsat

    def hasq(self, x):
        k = x.get_id()
        if k not in self.hq:
            def q(e): return z3.is_quantifier(e) or any(q(c) for c in e.children())
            self.hq[k] = q(x); self.keep.append(x)
        return self.hq[k]

    def low(self, v):
        """the low 63 bits of a word"""
        for lo, hi, r in ((0, X, v), (X, W, v - X)):
            if self.sure(And(lo <= v, v < hi)):
                self.facts.append(Implies(And(lo <= v, v < hi), low(v) == r))
                return r
        return self.divmod(v, X)[1]

    def name(self, v, t):
        """the value v of a computation of type t, under a name"""
        if z3.is_int_value(z3.simplify(v)): return wrap(z3.simplify(v), t) if not INT[cty(t)][1] else z3.simplify(v)
        b, sg = INT[cty(t)]
        if self.sure(And(-(1 << b - 1) <= v, v < 1 << b - 1) if sg else And(0 <= v, v < 1 << b)): return z3.simplify(v)
        w = fr('w')
        lo, hi = (-(1 << b - 1), 1 << b - 1) if sg else (0, 1 << b)
        self.facts += [lo <= w, w < hi, Implies(And(lo <= v, v < hi), w == v), Implies(And(hi <= v, v < 2 * hi), w == v - (hi - lo))]
        self.lin.append((And(lo <= v, v < hi), [(1, w)] + [(-c, x) for c, x in lin(v)]))
        return w

    def readable(self, st, a): return Or([And(lo <= a, a < hi) for lo, hi in self.regions + st.bufs])

    def writable(self, st, a): return Or([And(lo <= a, a < hi) for lo, hi in self.wregions + st.bufs])

    def e_index(self, st, e):
        return [(s, self.load(s, a + toint(i))) for s, a, i in self.ev2(st, e['a'], e['i'])]

    def e_un(self, st, e):
        op = e['op']
        if op == '*':
            out = []
            for s, a in self.ev(st, e['e']):
                out.append((s, a if isinstance(a, Obj) else self.load(s, a)))
            return out
        if op in ('++', '--'):
            out = []
            for s, lv in self.lv(st, e['e']):
                v = self.getl(s, lv)
                t = e['e']['t']
                w = v + (1 if op == '++' else -1)
                if isint(t): w = self.name(v + (1 if op == '++' else -1), t)
                s = self.setl(s, lv, w)
                out.append((s, v if e['post'] else w))
            return out
        out = []
        for s, v in self.ev(st, e['e']):
            if op == '!': out.append((s, Not(tobool(v))))
            elif op == '-': out.append((s, wrap(-toint(v), e['t'])))
            elif op == '+': out.append((s, v))
            elif op == '~' and not INT[cty(e['t'])][1]: out.append((s, (1 << INT[cty(e['t'])][0]) - 1 - toint(v)))
            else: raise Unsupported('unary ' + op)
        return out

    # ---- places
    def lv(self, st, e):
        if e['k'] == 'ref': return [(st, ('v', e['id']))]
        if e['k'] == 'un' and e['op'] == '*': return [(s, ('m', a)) for s, a in self.ev(st, e['e'])]
        if e['k'] == 'index': return [(s, ('m', a + toint(i))) for s, a, i in self.ev2(st, e['a'], e['i'])]
        if e['k'] == 'cast': return self.lv(st, e['e'])
        raise Unsupported('assignment to %s' % e['k'])

    def getl(self, st, lv):
        if lv[0] == 'v': return st.loc[lv[1]]
        return self.load(st, lv[1])

    def setl(self, st, lv, v):
        st = st.copy()
        if lv[0] == 'v': st.loc[lv[1]] = v
        else:
            self.oblige(st, 'the word that is written belongs to the result', self.writable(st, lv[1]), self.line)
            N = fr('mem', MEM)
            self.cur = st
            self.defs[N.decl().name()] = (st.M, lv[1], v, self.low(v))
            st.pc.append(N == Store(st.M, lv[1], v))
            st.M = N
        return st

    def e_assign(self, st, e):
        out = []
        for s, v in self.ev(st, e['b']):
            for s2, lv in self.lv(s, e['a']):
                if not isinstance(v, (Obj, Rec)): v = tobool(v) if cty(e['a']['t']) == 'bool' else toint(v) if isint(e['a']['t']) else v
                out.append((self.setl(s2, lv, v), v))
        return out

    def e_cassign(self, st, e):
        out = []
        for s, v in self.ev(st, e['b']):
            for s2, lv in self.lv(s, e['a']):
                t = e['a']['t']
                if not isint(t):
                    if e['op'] not in '+-': raise Unsupported('pointer ' + e['op'])
                    w = self.getl(s2, lv) + (v if e['op'] == '+' else -v)
                else: w = self.bin(s2, e['op'], self.getl(s2, lv), v, e.get('ct', t)); w = self.recast(w, e.get('ct', t), t)
                out.append((self.setl(s2, lv, w), w))
        return out

    def bin(self, st, op, a, b, t):
        if op in ('<', '<=', '>', '>=', '==', '!='):
            if z3.is_bool(a) and z3.is_bool(b): a, b = toint(a), toint(b)
            a, b = toint(a), toint(b)
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
        a, b = toint(a), toint(b)
        if not isint(t): raise Unsupported('type %s' % t)
        bits, sg = INT[cty(t)]
        if op == '+': return self.name(a + b, t)
        if op == '-': return wrap(a - b, t)
        if op == '*' and (cval(a) is not None or cval(b) is not None): return self.name(a * b, t)
        ca, cb = cval(a), cval(b)
        if op in ('/', '%') and cb and cb > 0 and not sg: return self.divmod(a, cb)[0 if op == '/' else 1]
        if op == '&':
            if ca is not None: a, b, cb = b, a, ca
            if cb is None: raise Unsupported('& of two variables')
            if sg and cb < 0: raise Unsupported('& with a negative number')
            if cb == X: return If(a >= X, IntVal(X), IntVal(0))
            if cb & (cb + 1) == 0: return self.divmod(a, cb + 1)[1]
            if (cb & -cb) and (W - cb) == (cb & -cb): return a - a % (cb & -cb)         # ~(2^k - 1)
            raise Unsupported('& with %x' % cb)
        if op == '|':
            if ca is not None: a, b, cb = b, a, ca
            if cb == X:
                self.cur = st
                if self.sure(And(X <= a, a < W)): return a
                if self.sure(And(0 <= a, a < X)): return a + X
                w = fr('w')
                d, r = self.divmod(a, X)
                self.facts += [w == r + X, w % X == r]
                self.lin.append((None, [(1, w), (-1, r), (-X, IntVal(1))]))
                return w
            # numbers without a common bit: one below 2^k, the other a multiple of it
            self.cur = st
            for x, y in ((a, b), (b, a)):
                k = self.bits.get(x.get_id(), 0)
                if k and cval(y) is None and self.sure(And(0 <= y, y < 1 << k)): return self.name(x + y, t)
            w = fr('or')
            for x, y in ((a, b), (b, a)):
                for k in (31, 32, 63):
                    if cval(y) is None and self.bits.get(x.get_id(), 0) >= k:
                        self.facts.append(Implies(And(0 <= y, y < 1 << k), w == x + y))
                        self.lin.append((And(0 <= y, y < 1 << k), [(1, w), (-1, x), (-1, y)]))
            self.facts.append(And(Implies(a == 0, w == b), Implies(b == 0, w == a)))
            self.facts += [-(1 << bits - 1) <= w, w < 1 << bits - 1] if sg else [0 <= w, w < 1 << bits]
            return w
        if op in ('<<', '>>') and cb is not None and 0 <= cb < bits:
            if op == '>>' and not sg: return self.divmod(a, 1 << cb)[0]
            if op == '<<':
                # the low bits are zero whatever is shifted out
                w = self.name(a * (1 << cb), t)
                self.bits[w.get_id()] = cb; self.keep.append(w)
                return w
        raise Unsupported('operator %s' % op)

    def e_bin(self, st, e):
        op = e['op']
        if op in ('&&', '||'):
            out = []
            for s, a in self.ev(st, e['a']):
                a = tobool(a)
                s1 = s.copy(); s1.pc.append(a if op == '&&' else Not(a))
                for s2, b in self.ev(s1, e['b']): out.append((s2, tobool(b)))
                s0 = s.copy(); s0.pc.append(Not(a) if op == '&&' else a)
                out.append((s0, BoolVal(op == '||')))
            return out
        if op == ',': return [(s, b) for s, a, b in self.ev2(st, e['a'], e['b'])]
        out = []
        for s, a, b in self.ev2(st, e['a'], e['b']):
            pa, pb = cty(e['a']['t']).endswith('*'), cty(e['b']['t']).endswith('*')
            if pa and pb and op == '-': out.append((s, a - b))
            elif (pa or pb) and op in '+-': out.append((s, a + b if op == '+' else a - b))
            else: out.append((s, self.bin(s, op, a, b, e['a']['t'] if op in ('<', '<=', '>', '>=', '==', '!=') else e['t'])))
        return out

    def e_cast(self, st, e):
        ck, out = e['ck'], []
        for s, v in self.ev(st, e['e']):
            if ck in ('IntegralToBoolean', 'PointerToBoolean'): out.append((s, tobool(v)))
            elif ck == 'NullToPointer': out.append((s, IntVal(0)))
            elif ck == 'IntegralCast': out.append((s, self.recast(toint(v), e['ft'], e['t'])))
            elif ck in ('BitCast', 'NoOp', 'ToVoid'): out.append((s, v))
            else: raise Unsupported('cast ' + ck)
        return out

    def recast(self, v, a, b):
        if cty(b) == 'bool' or z3.is_int_value(v): return wrap(v, b)
        (x, sx), (y, sy) = INT.get(cty(a), (64, 1)), INT[cty(b)]
        if x == y and sx == sy or x < y and (not sx or sy): return v
        w = self.name(v, b) if not z3.is_const(v) else self.name(v + 0, b)
        if z3.is_const(w) and not z3.eq(w, v): self.alias[w.decl().name()] = v
        if v.get_id() in self.bits: self.bits[w.get_id()] = self.bits[v.get_id()]; self.keep.append(w)
        return w

    def e_cond(self, st, e):
        out = []
        for s, c in self.ev(st, e['c']):
            c = tobool(c)
            for cond, x in ((c, e['a']), (Not(c), e['b'])):
                s1 = s.copy(); s1.pc.append(cond)
                out += self.ev(s1, x)
        return out

    # ---- calls
    def e_call(self, st, e):
        fn = e['fn']
        if fn['name'] in ('lldiv', 'ldiv', 'div') or fn['key'].startswith('lldiv('):
            out = []
            for s, a, b in self.ev2(st, e['args'][0], e['args'][1]):
                q, r = fr('quot'), fr('rem')
                self.oblige(s, 'the division is defined', And(b > 0, a >= 0), self.line)
                s = s.copy(); s.pc += [a == q * b + r, 0 <= r, r < b, 0 <= q]
                if cval(b) is not None: self.lin.append((None, lin(a) + [(-cval(b), q), (-1, r)]))
                out.append((s, Rec({'quot': q, 'rem': r})))
            return out
        if fn['short'] == 'operator<<' and len(e.get('args', [])) == 2 and BN in fn['ptypes'][1]:
            return self.callcon(st, e, fn['key'], None, e['args'])
        if fn['key'] in self.ix.fns: return self.inline(st, fn['key'], None, e['args'])
        raise Unsupported('call of %s' % fn['name'])

    def inline(self, st, key, obj, args):
        """a function without contract: its body"""
        f = self.ix.fns[key]
        if self.depth > 4: raise Unsupported('recursion of %s' % key)
        for p in f['params']:
            if '&' in p['t'] and not p['t'].strip().startswith('const ') and cty(p['t']) != BN and 'basic_ostream' not in p['t']: raise Unsupported('reference parameter of %s' % key)
        out = [(st, [])]
        for a in ([obj] if obj is not None else []) + list(args): out = [(s2, vs + [v]) for s, vs in out for s2, v in self.ev(s, a)]
        res = []
        self.depth += 1
        for s, vs in out:
            s = s.copy(); this = s.loc.get('this')
            if obj is not None: s.loc['this'] = vs.pop(0)
            for p, v in zip(f['params'], vs): s.loc[p['id']] = v
            for s2, how, v in self.run(s, f['body']):
                if how not in 'nr': raise Unsupported('exception in %s' % key)
                s2 = s2.copy()
                if this is not None: s2.loc['this'] = this
                res.append((s2, v if v is not None else IntVal(0)))
        self.depth -= 1
        self.inlined.add(key)
        return res

    def e_mcall(self, st, e):
        fn = e['fn']
        if fn.get('implicit') and fn['short'] == 'operator=':
            return [(self.setl(s2, lv, v), v) for s, v in self.ev(st, e['args'][0]) for s2, lv in self.lv(s, e['obj'])]
        if fn['short'] == 'operator<<' and fn['cls'].startswith('std::basic_ostream'):
            out = []
            for s, o in self.ev(st, e['obj']):
                for s2, v in self.ev(s, e['args'][0]):
                    if not isinstance(o, Out) or not isint(fn['ptypes'][0]): raise Unsupported('output')
                    s2 = s2.copy(); s2.os[o.key] = app(s2.os[o.key], toint(v)); out.append((s2, o))
            return out
        if fn['short'] == 'str' and 'stringstream' in fn['cls']: return [(s, s.os[o.key]) for s, o in self.ev(st, e['obj'])]
        if fn['cls'] != BN: raise Unsupported('call of %s' % fn['name'])
        if fn['short'] == 'setArray':
            raise Unsupported('setArray')
        if fn['key'] not in CON and fn['key'] in self.ix.fns: return self.inline(st, fn['key'], e['obj'], e['args'])
        return self.callcon(st, e, fn['key'], e['obj'], e['args'])

    def callcon(self, st, e, key, obj, args):
        if key not in CON: raise Unsupported('call of %s, which has no contract' % key)
        con = CON[key]
        self.callees.add(key)
        out = []
        def go(s, vals, rest):
            if not rest: out.append((s, vals)); return
            for s2, v in self.ev(s, rest[0]): go(s2, vals + [v], rest[1:])
        go(st, [], ([obj] if obj else []) + list(args))
        res = []
        for s, vals in out:
            env = {}
            this = vals[0] if obj else None
            rest = vals[1:] if obj else vals
            if this is not None: env['A'] = this.A
            for v in rest:
                if isinstance(v, Obj): env['O'] = v.A
                elif isinstance(v, Out): env['os'] = v.key
                else: env['v'] = toint(v)
            if con.n: env['n'] = s.getlen(env['A'])
            if con.m: env['m'] = s.getlen(env['O'])
            s = s.copy()
            env['cap'] = self.cap(s, env['A'], not key.endswith('const')) if 'A' in env else None
            env['M0'] = s.M
            if 'os' in env: env['os0'] = s.os[env['os']]
            for nm, g in con.pre(env): self.oblige(s, 'precondition of %s: %s' % (key.split('::')[-1], nm), g, self.line, 'pre')
            if key == self.con.key: self.oblige(s, 'the recursion ends', And(S(env['M0'], env['A'], env['n']) >= 0, S(env['M0'], env['A'], env['n']) < S(self.env0['M0'], self.env0['A'], self.env0['n'])), self.line, 'term')
            ret, M1 = fr('ret', z3.BoolSort() if '::operator==' in key or '::operator!=' in key else I), fr('mem', MEM)
            pure = con.key.endswith('const')
            env['M1'] = s.M if pure or con.key == OSTR else M1
            env['ret'] = ret
            if 'os' in env: env['os1'] = fr('out', STREAM); s.os[env['os']] = env['os1']
            env['n1'] = fr('len')
            post = con.post(env)
            if not pure: s.pc.append(words(M1)) if con.key != OSTR else None
            s.pc += [g for _, g in post]
            if con.newlen: s.setlen(env['A'], con.newlen(env))
            s.M = env['M1']
            # the sums of the numbers the call does not touch
            res.append((s, Out(env['os']) if con.key == OSTR else ret))
        return res

    def cap(self, s, A, write):
        for lo, hi in self.wregions + s.bufs + ([] if write else self.regions):
            if z3.eq(z3.simplify(lo), z3.simplify(A)): return hi - lo
        raise Unsupported('storage of unknown size')

    def e_ctor(self, st, e):
        fn = e['fn']
        if fn['cls'] == BN and len(e['args']) == 1 and fn['ptypes'][0].endswith('*'): return [(s, Obj(a)) for s, a in self.ev(st, e['args'][0])]
        if fn['cls'] == BN and len(e['args']) == 1: return self.ev(st, e['args'][0])
        if 'stringstream' in fn['cls'] and not e['args']:
            st = st.copy(); k = 'ss%d' % next(_n); st.os[k] = EMPTY
            return [(st, Out(k))]
        if len(e['args']) == 1 and 'basic_string' in fn['cls']: return self.ev(st, e['args'][0])
        raise Unsupported('constructor of %s' % fn['cls'])

    def e_new(self, st, e):
        out = []
        for s, n in self.ev(st, e['n'] if 'n' in e else e['size']):
            A = fr('buf')
            s = s.copy()
            # storage that nothing else uses
            s.pc += [A >= 1] + [Or(A + n <= lo, hi <= A) for lo, hi in self.regions + s.bufs]
            self.oblige(s, 'room for at least one word', n >= 1, self.line)
            s.bufs.append((A, A + n))
            out.append((s, A))
        return out

    def e_delete(self, st, e): return [(s, v) for s, v in self.ev(st, e['e'])]

    # ---- statements: lists of (state, how, value)
    def run(self, st, b):
        k = b['k']
        f = getattr(self, 's_' + k, None)
        if f is None: raise Unsupported('statement %s' % k)
        return f(st, b)

    def s_nop(self, st, b): return [(st, 'n', None)]

    def s_block(self, st, b):
        cur, out = [(st, 'n', None)], []
        for x in b['b']:
            nxt = []
            for s, h, v in cur: nxt += self.run(s, x)
            cur = [t for t in nxt if t[1] == 'n']
            out += [t for t in nxt if t[1] != 'n']
        return out + cur

    def s_expr(self, st, b):
        if b['e']['k'] == 'throw': return [(st, 't', None)]
        return [(s, 'n', None) for s, v in self.ev(st, b['e'])]

    def s_decl(self, st, b):
        cur = [st]
        for x in b['vars']:
            nxt = []
            for s in cur:
                if x.get('init') is None: s = s.copy(); s.loc[x['id']] = fr(x['name'], z3.BoolSort() if cty(x['t']) == 'bool' else I); nxt.append(s); continue
                for s2, v in self.ev(s, x['init']):
                    s2 = s2.copy(); s2.loc[x['id']] = v if isinstance(v, (Obj, Rec, Out)) or not isint(x['t']) else tobool(v) if cty(x['t']) == 'bool' else toint(v)
                    self.names[x['name']] = x['id']
                    nxt.append(s2)
            cur = nxt
        return [(s, 'n', None) for s in cur]

    def s_if(self, st, b):
        out = []
        for s, c in self.ev(st, b['c']):
            c = tobool(c)
            for cond, x in ((c, b['a']), (Not(c), b['b'])):
                s1 = s.copy(); s1.pc.append(cond)
                if z3.is_false(z3.simplify(cond)): continue
                out += self.run(s1, x) if x else [(s1, 'n', None)]
        return out

    def s_return(self, st, b):
        if b.get('e') is None: return [(st, 'r', None)]
        return [(s, 'r', v) for s, v in self.ev(st, b['e'])]

    def s_break(self, st, b): return [(st, 'b', None)]
    def s_continue(self, st, b): return [(st, 'c', None)]
    def s_delete(self, st, b): return [(s, 'n', None) for s, v in self.ev(st, b['e'])]

    def s_while(self, st, b): return self.loop(st, b['c'], b['b'], None, True)
    def s_do(self, st, b): return self.loop(st, b['c'], b['b'], None, False)

    def s_for(self, st, b):
        out = []
        for s, h, v in (self.run(st, b['i']) if b.get('i') else [(st, 'n', None)]):
            out += self.loop(s, b.get('c') or {'k': 'bool', 'v': True}, b['b'], b.get('inc') or b.get('s'), True)
        return out

    def modified(self, *bs):
        ids, mem = set(), [False]
        def w(x):
            if isinstance(x, dict):
                if x.get('k') in ('assign', 'cassign'):
                    a = x['a']
                    if a['k'] == 'ref': ids.add(a['id'])
                    else: mem[0] = True
                if x.get('k') == 'un' and x['op'] in ('++', '--'):
                    a = x['e']
                    if a['k'] == 'ref': ids.add(a['id'])
                    else: mem[0] = True
                if x.get('k') == 'mcall':
                    if x['obj'].get('k') == 'ref' and x['fn']['short'] == 'operator=': ids.add(x['obj']['id'])
                    elif x['fn'].get('cls') == BN and not x['fn']['key'].endswith('const'): mem[0] = True
                if x.get('k') in ('call', 'mcall') and x['fn']['key'] not in CON and x['fn']['key'] in self.ix.fns and x['fn']['key'] not in seen:
                    seen.add(x['fn']['key']); w(self.ix.fns[x['fn']['key']]['body'])
                for y in x.values(): w(y)
            elif isinstance(x, list):
                for y in x: w(y)
        seen = set()
        for b in bs: w(b)
        return ids, mem[0]

    def loop(self, st, cond, body, inc, pre):
        key = id(body)
        if key not in self.loopno: self.loopno[key] = len(self.loopno)
        no = self.loopno[key]
        if no >= len(self.con.loops): raise Unsupported('a loop without invariant')
        spec = self.con.loops[no]
        def inv(s, gh, tag):
            E = dict(self.env0); E['M'] = s.M
            for nm, i in self.names.items():
                if i in s.loc: E.setdefault('_' + nm, s.loc[i])
            try: return spec['exit' if tag == 'exit' and 'exit' in spec else 'inv'](E, gh)
            except KeyError as err: raise Unsupported('the invariant of loop %d speaks about %s' % (no, err))
        def env(s):
            E = dict(self.env0); E['M'] = s.M
            for nm, i in self.names.items():
                if i in s.loc: E['_' + nm] = s.loc[i]
            return E
        ln = cond.get('l', body.get('l', self.line)) if cond else self.line
        gh0 = spec['ghost0'](env(st)) if 'ghost0' in spec else None
        for nm, g in inv(st, gh0, 'init'): self.oblige(st, 'loop %d holds at the start: %s' % (no, nm), g, ln, 'inv')
        ids, mem = self.modified(cond, body, inc)
        def havoc(st):
            h = st.copy()
            for i in ids:
                if i in h.loc:
                    v = h.loc[i]
                    if isinstance(v, (Obj, Rec, Out)): raise Unsupported('a loop changes an object')
                    h.loc[i] = fr('lv', v.sort())
                    t = self.vty.get(i)
                    if t and isint(t) and cty(t) != 'bool':
                        bits, sg = INT[cty(t)]
                        h.pc += [-(1 << bits - 1) <= h.loc[i], h.loc[i] < 1 << bits - 1] if sg else [0 <= h.loc[i], h.loc[i] < 1 << bits]
            if mem: h.M = fr('mem', MEM); h.pc.append(words(h.M))
            return h
        npc = len(st.pc)
        h = havoc(st)
        gh = fr('gh') if 'ghost0' in spec else None
        h.pc += [g for _, g in inv(h, gh, 'head')]
        out = []
        def back(s):
            g2 = spec['ghost1'](env(h), env(s), gh) if 'ghost0' in spec else None
            for nm, g in inv(s, g2, 'back'): self.oblige(s, 'loop %d is kept: %s' % (no, nm), g, ln, 'inv')
            if 'dec' in spec:
                d0, d1 = spec['dec'](env(h)), spec['dec'](env(s))
                self.oblige(s, 'loop %d ends' % no, And(d0 >= 0, d1 < d0), ln, 'term')
        def cnd(s):
            for s2, c in self.ev(s, cond):
                c = tobool(c)
                if not z3.is_false(z3.simplify(c)): t = s2.copy(); t.pc.append(c); yield t, True
                if not z3.is_true(z3.simplify(c)): t = s2.copy(); t.pc.append(Not(c)); yield t, False
        def bodyrun(s):
            for s2, how, v in self.run(s, body):
                if how in 'nc':
                    if inc is not None:
                        for s3, _ in self.ev(s2, inc['e'] if inc['k'] == 'expr' else inc): yield s3
                    else: yield s2
                elif how == 'b': out.append((self.fin(s2, gh, spec), 'n', None))
                else: out.append((s2, how, v))
        if pre:
            for s, t in list(cnd(h)):
                if not t: out.append((self.fin(s, gh, spec), 'n', None)); continue
                for s2 in bodyrun(s): back(s2)
        else:
            cut = []
            for s2 in bodyrun(h):
                for s, t in list(cnd(s2)):
                    if t: back(s)
                    else:
                        s = s.copy()
                        if 'ghost0' in spec: self.lastgh = spec['ghost1'](env(h), env(s), gh); s.loc['gh%d' % no] = self.lastgh
                        # what the last round establishes holds after the loop too
                        for nm, g in inv(s, s.loc.get('gh%d' % no), 'exit'): self.oblige(s, 'loop %d at its end: %s' % (no, nm), g, ln, 'inv')
                        # and nothing but that is used behind it
                        if cut: continue
                        cut.append(1)
                        x = havoc(h)
                        if 'ghost0' in spec: x.loc['gh%d' % no] = fr('gh')
                        x.pc = h.pc[:npc] + x.pc[len(h.pc):] + [g for _, g in inv(x, x.loc.get('gh%d' % no), 'exit')]
                        out.append((x, 'n', None))
        return out

    def fin(self, s, gh, spec): return s

    # ---- one function
    def verify(self):
        con, f = self.con, self.fn
        st = St()
        st.M = z3.Const('M0', MEM)
        A, O, n, m, cap = z3.Ints('A O n m cap')
        env = {'M0': st.M, 'A': A, 'n': n, 'O': O, 'm': m, 'cap': cap, 'ret': None}
        self.names, self.vty, self.loopno, self.defs = {}, {}, {}, {}
        def vt(x):
            if isinstance(x, dict):
                if x.get('k') == 'decl':
                    for y in x['vars']: self.vty[y['id']] = y['t']
                for y in x.values(): vt(y)
            elif isinstance(x, list):
                for y in x: vt(y)
        vt(f['body'])
        if f.get('cls') == BN: st.loc['this'] = Obj(A)
        for p in f['params']:
            t = cty(p['t'])
            self.names[p['name']] = p['id']; self.vty[p['id']] = p['t']
            if t == BN: st.loc[p['id']] = Obj(O)
            elif 'basic_ostream' in t: st.loc[p['id']] = Out('os'); st.os['os'] = z3.Const('os0', STREAM); env['os0'] = st.os['os']
            elif isint(t):
                v = z3.Int('v'); st.loc[p['id']] = v; env['v'] = v
                b, sg = INT[t]; st.pc += [-(1 << b - 1) <= v, v < 1 << b - 1] if sg else [0 <= v, v < 1 << b]
            else: raise Unsupported('parameter of type %s' % t)
        self.regions = ([(A, A + cap)] if f.get('cls') == BN else []) + ([(O, O + m)] if con.m else [])
        self.wregions = [(A, A + cap)] if f.get('cls') == BN and not con.key.endswith('const') else []
        if con.n: st.setlen(A, n)
        if con.m: st.setlen(O, m)
        st.pc += [words(st.M), cap >= 0, cap < 1 << 60, m < 1 << 60]
        for nm, g in con.pre(env): st.pc.append(g)
        self.env0 = env
        for s, how, v in self.run(st, f['body']):
            if how == 't': self.oblige(s, 'no exception', BoolVal(False), self.line, 'post'); continue
            e2 = dict(env); e2['M1'] = s.M; e2['n1'] = None
            for x, y in s.loc.items():
                if isinstance(x, str) and x.startswith('gh'): e2[x] = y
            if v is not None: e2['ret'] = v if z3.is_bool(v) or not z3.is_int(v) else toint(v)
            if v is not None and z3.is_const(v) and v.decl().name() in self.alias:
                # a cast that keeps the value
                e2['ret'] = self.alias[v.decl().name()]
                self.oblige(s, 'the result fits its type', v == e2['ret'], f['endline'], 'post')
            if 'os' in s.os: e2['os1'] = s.os['os']
            if con.newlen: e2['n1'] = con.wit(e2) if hasattr(con, 'wit') else con.newlen(e2)
            self.vac.append(list(s.pc))
            for nm, g in con.post(e2): self.oblige(s, 'postcondition: ' + nm, g, f['endline'], 'post')
        return self.obls


# ---------------------------------------------------------------- contracts
def mx(a, b): return If(a >= b, a, b)


def apart(e): return ('the storage of the two numbers is apart', Or(e['A'] + e['cap'] <= e['O'], e['O'] + e['m'] <= e['A']))


def nump(M, A, n, what): return [('%s is a number' % what, wf(M, A, n))]


def keeps(e): return ('nothing else is written', same(e['M1'], e['M0'], e['A'], e['A'] + e['cap']))


def val(e, M, A, n): return S(e[M], e[A], e[n])


CON = {}


def con(name, **k):
    c = Con(BN + '::' + name if not name.startswith('std') and 'operator<<' not in name else name, **k)
    CON[c.key] = c
    return c


def scan(e, gh):
    i = e['_p'] - e['A']
    return [('the pointer stays in the number', And(0 <= i, i <= e['n'] - 1))]


def scan_end(e): return e['n'] - (e['_p'] - e['A'])


con('size()const', n=1, pre=lambda e: nump(e['M0'], e['A'], e['n'], 'it') + [('fits', e['n'] < 1 << 31), ('storage', e['n'] <= e['cap'])],
    post=lambda e: [('the number of words', e['ret'] == e['n'])], loops=[{'inv': scan, 'dec': scan_end}])


def store_inv(e, gh, end=False):
    i = e['_p'] - e['A']
    k = z3.Int('k')
    return [('both pointers are at the same word', And(e['_q'] - e['O'] == i, 0 <= i, i == e['m'] if end else i < e['m'])), ('only the words before are written', same(e['M'], e['M0'], e['A'], e['A'] + i)),
            ('the words before are copied', ForAll([k], Implies(And(e['A'] <= k, k < e['A'] + i), Select(e['M'], k) == Select(e['M0'], k - e['A'] + e['O'])), patterns=[Select(e['M'], k)])),
            ('the sum of the words before', S(e['M'], e['A'], i) == S(e['M0'], e['O'], i))]


con('store(const tdzdd::BigNumber &)', m=1, pre=lambda e: nump(e['M0'], e['O'], e['m'], 'the other') + [('not null', e['A'] >= 1), ('room', e['cap'] >= e['m']), apart(e)],
    post=lambda e: [('its words', e['ret'] == e['m']), ('a number', wf(e['M1'], e['A'], e['m'])), ('the same value', S(e['M1'], e['A'], e['m']) == S(e['M0'], e['O'], e['m'])), ('nothing else is written', same(e['M1'], e['M0'], e['A'], e['A'] + e['m']))],
    newlen=lambda e: e['m'], loops=[{'inv': store_inv, 'exit': lambda e, gh: store_inv(e, gh, True), 'dec': lambda e: e['m'] - (e['_q'] - e['O']) + 1}])

con('store(unsigned long)', pre=lambda e: [('not null', e['A'] >= 1), ('room', e['cap'] >= If(e['v'] >= X, IntVal(2), IntVal(1)))],
    post=lambda e: [('its words', e['ret'] == If(e['v'] >= X, IntVal(2), IntVal(1))), ('a number', wf(e['M1'], e['A'], e['ret'])), ('its value', S(e['M1'], e['A'], e['ret']) == e['v']), ('nothing else is written', same(e['M1'], e['M0'], e['A'], e['A'] + e['ret']))],
    newlen=lambda e: e['ret'])

con('operator==(unsigned long)const', n=1, pre=lambda e: nump(e['M0'], e['A'], e['n'], 'it') + [('storage', e['n'] <= e['cap'])],
    post=lambda e: [('whether the value is that', e['ret'] == (S(e['M0'], e['A'], e['n']) == e['v']))])
con('operator!=(const unsigned long &)const', n=1, pre=lambda e: nump(e['M0'], e['A'], e['n'], 'it') + [('storage', e['n'] <= e['cap'])],
    post=lambda e: [('whether the value is not that', e['ret'] == (S(e['M0'], e['A'], e['n']) != e['v']))])


def eq_inv(e, gh):
    i = e['_p'] - e['A']
    k = z3.Int('k')
    return [('both pointers are at the same word', And(e['_q'] - e['O'] == i, 0 <= i, i < e['m'])), ('the words before are equal', ForAll([k], Implies(And(e['O'] <= k, k < e['O'] + i), Select(e['M0'], k) == Select(e['M0'], k - e['O'] + e['A'])), patterns=[Select(e['M0'], k)]))]


def prefix(e, i):
    """the words before i have the continuation bit, and only they are written"""
    k = z3.Int('k')
    return [('only the words before are written', same(e['M'], e['M0'], e['A'], e['A'] + i)),
            ('the words before go on', ForAll([k], Implies(And(e['A'] <= k, k < e['A'] + i), Select(e['M'], k) >= X), patterns=[Select(e['M'], k)]))]


def add0(e, gh):
    i = e['_p'] - e['A']
    return [('both pointers are at the same word', And(e['_q'] - e['O'] == i, 0 <= i, i < e['n'], i < e['m'])), ('carry', e['_x'] <= 1)] + prefix(e, i) + \
        [('the sum so far', S(e['M'], e['A'], i) + times(e['_x'], pw(i)) == S(e['M0'], e['A'], i) + S(e['M0'], e['O'], i))]


def add1(e, gh):
    i = e['_p'] - e['A']
    return [('both pointers are at the same word', And(e['_q'] - e['O'] == i, e['n'] - 1 <= i, i < e['m'])), ('the word is in the carry', e['_x'] >= low(Select(e['M0'], e['O'] + i)))] + prefix(e, i) + \
        [('the sum so far', S(e['M'], e['A'], i) + times(e['_x'], pw(i)) == S(e['M0'], e['A'], e['n']) + S(e['M0'], e['O'], i + 1))]


def add2(e, gh):
    i = e['_p'] - e['A']
    return [('the pointer is in the number', And(e['m'] - 1 <= i, i < e['n'])), ('the word is in the carry', e['_x'] >= low(Select(e['M0'], e['A'] + i)))] + prefix(e, i) + \
        [('the sum so far', S(e['M'], e['A'], i) + times(e['_x'], pw(i)) == S(e['M0'], e['A'], i + 1) + S(e['M0'], e['O'], e['m']))]


con('add(const tdzdd::BigNumber &)', n=1, m=1,
    pre=lambda e: nump(e['M0'], e['A'], e['n'], 'it') + nump(e['M0'], e['O'], e['m'], 'the other') + [('room for the sum', e['cap'] >= mx(e['n'], e['m']) + 1), apart(e)],
    post=lambda e: [('its words', Or(e['ret'] == mx(e['n'], e['m']), e['ret'] == mx(e['n'], e['m']) + 1)), ('a number', wf(e['M1'], e['A'], e['ret'])),
                    ('the sum', S(e['M1'], e['A'], e['ret']) == S(e['M0'], e['A'], e['n']) + S(e['M0'], e['O'], e['m'])), ('nothing else is written', same(e['M1'], e['M0'], e['A'], e['A'] + e['ret']))],
    newlen=lambda e: e['ret'], loops=[{'inv': add0, 'dec': lambda e: e['n'] - (e['_p'] - e['A'])}, {'inv': add1, 'dec': lambda e: e['m'] - (e['_q'] - e['O'])}, {'inv': add2, 'dec': lambda e: e['n'] - (e['_p'] - e['A'])}])


def div_inv(e, gh, end=False):
    j = e['_p'] - e['A']
    A, M, n = e['A'], e['M'], e['n']
    k = z3.Int('k')
    return [('the pointer is in the number', j == 0 if end else And(1 <= j, j <= n)), ('remainder', e['_r'] < 10), ('only the words behind are written', same(M, e['M0'], A + j, A + n)),
            ('the quotient so far', 10 * (S(M, A, n) - S(M, A, j)) + times(e['_r'], pw(j)) == S(e['M0'], A, n) - S(e['M0'], A, j)),
            ('no digit yet, all words are zero', Implies(Not(e['_cont']), ForAll([k], Implies(And(A + j <= k, k < A + n), Select(M, k) == 0), patterns=[Select(M, k)]))),
            ('no digit yet, no leading word', Implies(Not(e['_cont']), gh == j)),
            ('the leading word', Implies(e['_cont'], And(j <= gh, gh < n, 0 < Select(M, A + gh), Select(M, A + gh) < X))),
            ('the words above it are zero', Implies(e['_cont'], ForAll([k], Implies(And(A + gh < k, k < A + n), Select(M, k) == 0), patterns=[Select(M, k)]))),
            ('the words below it go on', Implies(e['_cont'], ForAll([k], Implies(And(A + j <= k, k < A + gh), Select(M, k) >= X), patterns=[Select(M, k)])))]


c = con('divide(unsigned int)', n=1, hints=('zero',), pre=lambda e: nump(e['M0'], e['A'], e['n'], 'it') + [('storage', e['n'] <= e['cap']), ('by ten', e['v'] == 10)],
    post=lambda e: [('remainder', And(0 <= e['ret'], e['ret'] < 10)), ('its words', And(1 <= e['n1'], e['n1'] <= e['n'])), ('a number', wf(e['M1'], e['A'], e['n1'])),
                    ('quotient and remainder', 10 * S(e['M1'], e['A'], e['n1']) + e['ret'] == S(e['M0'], e['A'], e['n'])), ('nothing else is written', same(e['M1'], e['M0'], e['A'], e['A'] + e['n']))],
    newlen=lambda e: e['n1'], loops=[{'inv': scan, 'dec': scan_end},
        {'inv': div_inv, 'exit': lambda e, gh: div_inv(e, gh, True), 'ghost0': lambda e: e['_p'] - e['A'], 'ghost1': lambda h, s, gh: If(h['_cont'], gh, s['_p'] - s['A']), 'dec': lambda e: e['_p'] - e['A']}])
c.wit = lambda e: If(Select(e['M1'], e['A'] + e['gh1']) > 0, e['gh1'] + 1, IntVal(1)) if 'gh1' in e else IntVal(1)

con('printHelper(std::basic_ostream<char, std::char_traits<char>> &)', n=1, pre=lambda e: nump(e['M0'], e['A'], e['n'], 'it') + [('storage', e['n'] <= e['cap'])],
    post=lambda e: [('its decimal digits are written', e['os1'] == put(e['os0'], S(e['M0'], e['A'], e['n']))), ('nothing else is written', same(e['M1'], e['M0'], e['A'], e['A'] + e['n']))])

OSTR = 'tdzdd::operator<<(std::basic_ostream<char, std::char_traits<char>> &,const tdzdd::BigNumber &)'
con(OSTR, m=1, pre=lambda e: nump(e['M0'], e['O'], e['m'], 'it') + [('fits', e['m'] < 1 << 31)],
    post=lambda e: [('its decimal digits are written', e['os1'] == put(e['os0'], S(e['M0'], e['O'], e['m'])))])
con('operator basic_string()const', n=1, pre=lambda e: nump(e['M0'], e['A'], e['n'], 'it') + [('fits', e['n'] < 1 << 31), ('storage', e['n'] <= e['cap'])],
    post=lambda e: [('its decimal digits', e['ret'] == put(EMPTY, S(e['M0'], e['A'], e['n'])))])


# ---------------------------------------------------------------- obligations
def terms(es):
    seen, out = set(), {'S': [], 'pw': [], 'put': [], 'mul': []}
    todo = list(es)
    while todo:
        e = todo.pop()
        if e.get_id() in seen: continue
        seen.add(e.get_id())
        if z3.is_quantifier(e): continue
        if z3.is_app(e):
            d = e.decl()
            if z3.eq(d, S_): out['S'].append(e)
            elif z3.eq(d, pw_): out['pw'].append(e)
            elif z3.eq(d, put): out['put'].append(e)
            elif z3.eq(d, mul): out['mul'].append(e)
            todo += e.children()
    return out


def consts(e, memo={}):
    k = e.get_id()
    if k not in memo:
        out, todo, seen = set(), [e], set()
        while todo:
            x = todo.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_quantifier(x): todo.append(x.body()); continue
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            todo += x.children()
        memo[k] = (e, out)
    return memo[k][1]


def relevant(ex, pc, goal):
    """the facts about the computations that the obligation speaks about: each fact is
    about the newest constant in it"""
    use = set().union(*[consts(x) for x in list(pc) + [goal]])
    for k, (M, B, v, r) in ex.defs.items():
        if k in use: use |= consts(v) | consts(r)
    num = lambda c: int(c.rsplit('!', 1)[1]) if '!' in c else -1
    fs = [(max(consts(f), key=num, default=''), consts(f), f, None) for f in ex.facts]
    fs += [(max(set().union(*[consts(x) for _, x in l]), key=num, default=''), set().union(*[consts(x) for _, x in l]), None, (c, l)) for c, l in ex.lin]
    while 1:
        n = len(use)
        for o, cs, f, l in fs:
            # quotients and remainders of a used number too
            if o in use or (o[:2] in ('d!', 'r!') and len(cs - use) <= 2 and any(num(c) >= 0 and c in use for c in cs)): use |= cs
        if len(use) == n: break
    return [f for o, cs, f, l in fs if f is not None and cs <= use], [l for o, cs, f, l in fs if l is not None and cs <= use]


def instances(pc, goal, ex, lins):
    if not any(terms([goal]).values()): return []
    defs = ex.defs
    """the definitions and lemmas at the terms of an obligation"""
    cur = list(pc) + [goal]
    facts, done = [], set()
    def add(key, f):
        if key not in done: done.add(key); facts.extend(f if isinstance(f, list) else [f])
    has = lambda M: z3.is_const(M) and M.decl().name() in defs
    for rnd in range(5):
        t = terms(cur + facts)
        cell = {}
        for e in t['S']:
            M, A, n = e.children()
            cell.setdefault(A.get_id(), []).append(e)
            add(('p', e.get_id()), L_pos(M, A, n))
            add(('d0', e.get_id()), Implies(n == 0, e == 0))
            if has(M):
                N, B, v, r = defs[M.decl().name()]
                c = cval(B - A - n)
                if c is not None and c >= 0: add(('s', e.get_id()), Implies(n >= 0, e == S(N, A, n)))
                elif c is not None and c == -1: add(('s', e.get_id()), Implies(n >= 1, e == S(N, A, n - 1) + times(r, pw(n - 1))))
                else: add(('s', e.get_id()), L_store(N, B, v, A, n, M, r))
            elif rnd < 2: add(('d', e.get_id()), D_sum(M, A, n))
        for e in t['pw']:
            add(('w1', e.get_id()), P_pw(e.arg(0)))
            add(('w', e.get_id()), D_pw(e.arg(0))[:2 if rnd < 3 else 1])
        for e in t['mul']:
            a, w = e.children()
            add(('m', e.get_id()), mul_laws(a, w))
            n = w.arg(0)
            if rnd < 2: add(('mw', e.get_id()), Implies(n >= 1, e == X * mul(a, pw(n - 1))))
        if rnd == 2:
            for i, (c, l) in enumerate(lins):
                for w in t['pw']:
                    f = add_([times(x, w) * k for k, x in l]) == 0
                    add(('l', i, w.get_id()), Implies(c, f) if c is not None else f)
        if rnd == 0:
            for e in t['put']: add(('o', e.get_id()), D_put(*e.children()))
            for es in cell.values():
                for a in es:
                    for b in es:
                        if a is b: continue
                        if z3.eq(a.arg(0), b.arg(0)):
                            if ex.con.hints and 'zero' in ex.con.hints: add(('z', a.get_id(), b.get_id()), L_zero(a.arg(0), a.arg(1), b.arg(2), a.arg(2)))
                        elif z3.eq(a.arg(2), b.arg(2)) and ex.callees: add(('f', a.get_id(), b.get_id()), L_frame(a.arg(0), b.arg(0), a.arg(1), a.arg(2)))
    return facts


def text(asm, goal):
    s = z3.Solver()
    for x in asm: s.add(x)
    s.add(Not(goal))
    return s.to_smt2()


PLAN = [('z3', .3, 0), ('z3-ematch', .5, 0), ('cvc5', .5, 0), ('z3', 1, 1)]


def gen(ix):
    items = [('lemma ' + nm, 'lemma', 0, None, text(a, g)) for nm, a, g in lemmas()]
    fns, und = [], []
    for key in CON:
        if key not in ix.fns: und.append((key, 'missing: no function of this name and type')); fns.append((key, 'missing', [])); continue
        ex = Exec(ix, CON[key])
        try:
            obls = ex.verify()
            k0 = len(items)
            for nm, kind, line, pc, goal in obls:
                fs, ls = relevant(ex, pc, goal)
                asm = pc + fs
                items.append((nm, kind, line, key, text(asm + instances(asm, goal, ex, ls), goal)))
            vac = [text(pc + ex.facts, BoolVal(False)) for pc in ex.vac]
            fns.append((key, 'ok', vac))
        except (Unsupported, KeyError, z3.Z3Exception, TypeError, AttributeError) as err:
            und.append((key, 'unsupported: %s %s' % (type(err).__name__, str(err)[:300]))); fns.append((key, 'unsupported', []))
    return items, fns, und


ASSUMED = {'std::ostream::operator<<(unsigned int)': 'appends the decimal numeral of the number (default format)', 'std::ostringstream::str()const': 'returns what was written',
           'lldiv(long long,long long)': 'quotient and remainder of non-negative numbers', 'operator new[]': 'returns storage that nothing else uses'}


def run(timeout=20, jobs=None):
    """like deduct.run"""
    from concurrent.futures import ThreadPoolExecutor
    t0 = time.time()
    out = {'functions': [], 'failed': [], 'undecided': [], 'obligations': 0, 'discharged': 0, 'solvers': {}, 'solver_s': 0.0, 'assumed_contracts': dict(ASSUMED), 'lemmas': {}, 'lemmas_used': [], 'vacuous': []}
    try: items, fns, und = gen(front.Index(TU))
    except Exception as err:
        out['undecided'].append({'function': BN, 'why': 'the source cannot be read: %s' % str(err)[:500]})
        out['wall_s'] = time.time() - t0
        return out
    out['undecided'] = [{'function': k, 'why': w} for k, w in und]
    vacs = [(k, v) for k, _, vs in fns for v in vs]
    with ThreadPoolExecutor(jobs or os.cpu_count() or 4) as ex:
        rs = list(ex.map(lambda x: prove.run_one(x[4], timeout, PLAN), items))
        vr = list(ex.map(lambda x: prove.run_one(x[1], 2, [('z3-ematch', 1, 0)]), vacs))
    st, dead = {}, {}
    for x, r in zip(items, rs):
        nm, kind, line, key, txt = x
        out['obligations'] += 1; out['solver_s'] += r[2]
        ok = r[0] == 'unsat'
        out['discharged'] += ok
        if ok: out['solvers'][r[1]] = out['solvers'].get(r[1], 0) + 1
        if kind == 'lemma':
            out['lemmas'][nm] = ok
            if not ok: out['undecided'].append({'function': nm, 'why': 'not proved'})
            continue
        s = st.setdefault(key, [0, 0, 0.0]); s[0] += 1; s[1] += ok; s[2] += r[2]
        if not ok: out['failed'].append({'function': key, 'obligation': nm, 'kind': kind, 'line': line, 'verdict': r[0], 'solvers': [list(y) for y in r[3]], 'smt2': txt})
    for (k, _), r in zip(vacs, vr): dead.setdefault(k, []).append(r[0])
    for k, status, vs in fns:
        a = st.get(k, [0, 0, 0.0])
        if status == 'ok' and all(x == 'unsat' for x in dead.get(k, ['unsat'])):
            status = 'vacuous'; out['vacuous'].append(k); out['undecided'].append({'function': k, 'why': 'no return path is reachable under the precondition'})
        out['functions'].append({'function': k, 'status': status, 'obligations': a[0], 'discharged': a[1], 'solver_s': round(a[2], 2), 'inlined': [], 'return_paths': len(vs)})
    out['wall_s'] = time.time() - t0
    return out


if __name__ == '__main__':
    import sys
    ix = front.Index(TU)
    t0 = time.time()
    items, fns, und = gen(ix)
    print('%.1f s' % (time.time() - t0), len(items), und)
    sel = [x for x in items if len(sys.argv) < 2 or any(a in (x[3] or x[0]) for a in sys.argv[1:])]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(int(os.environ.get('J', '3'))) as ex:
        for x, r in zip(sel, ex.map(lambda x: prove.run_one(x[4], int(os.environ.get('T', '10')), PLAN), sel)):
            if r[0] != 'unsat': print('OPEN', x[3], x[2], x[0], r[3])
            if os.environ.get('SAVE') and r[0] != 'unsat': open('/tmp/w/%s.smt2' % re.sub(r'\W+', '_', (x[3] or '') + x[0])[-80:], 'w').write(x[4])
    print('%.1f s' % (time.time() - t0), len(sel))
    for k, st, vac in fns:
        if len(sys.argv) < 2 or any(a in k for a in sys.argv[1:]): print(k[:60], st, [prove.run_one(v, 2, [('z3-ematch', 1, 0)])[0] for v in vac][:8])
