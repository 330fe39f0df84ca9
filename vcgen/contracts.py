"""Contracts on the functions of /repo (C++ part)."""
import z3
from z3 import And, Or, Not, If, Implies, IntVal, BoolVal
import theory as T
from sym import *
from sym import _fresh as fresh_
from builtins_ import sov

CON = {}


def con(key, **kw):
    c = Contract(key, **kw)
    CON[key] = c
    return c


def ht(f): return T.lev(T.topv(f))


def mx(a, b): return If(a >= b, a, b)


def fgoal(v, got, want, nm):
    """loop invariant got == want: assumed as equality of families, proved pointwise"""
    if v.assuming: return [(nm, got == want)]
    return famgoals(got, want, nm)


def nn(c, *fs): return [('argument is a valid diagram', f != T.null) for f in fs]


def fam2(key, op, group, cache=None, measure=True, method=True, extra=None, **kw):
    """family x family -> family"""
    def two(c): return (c.selffam(), c.fam(0)) if method else (c.fam(0), c.fam(1))
    return con(key, group=group,
               requires=lambda c: nn(c, *two(c)) + (extra(c, *two(c)) if extra else []),
               result=lambda c: c.ex.zbdd(op(*two(c))),
               measure=measure if callable(measure) else (lambda c: mx(ht(two(c)[0]), ht(two(c)[1]))) if measure else None,
               cache=cache or (lambda ex, a, k: (BoolVal(True), op(a, ex.asfam(k)))), **kw)


def fam1(key, op, group, cache=None, measure=True, method=True, **kw):
    def one(c): return c.selffam() if method else c.fam(0)
    return con(key, group=group, requires=lambda c: nn(c, one(c)),
               result=lambda c: c.ex.zbdd(op(one(c))),
               measure=(lambda c: ht(one(c))) if measure else None,
               cache=cache or (lambda ex, a, k: (BoolVal(True), op(a))), **kw)


# ---------------------------------------------------------------- ZBDD.cc
fam2('ZBDD::Restrict(const ZBDD &)const', T.restrict_, 'restrict')
fam2('ZBDD::Permit(const ZBDD &)const', T.permit_, 'permit')
con('ZBDD::PermitSym(int)const', group='permitsym',
    requires=lambda c: nn(c, c.selffam()),
    result=lambda c: c.ex.zbdd(T.permitsym_(c.selffam(), c.v(0))),
    measure=lambda c: ht(c.selffam()),
    cache=lambda ex, a, k: (BoolVal(True), T.permitsym_(a, ex.convint(ex.toint(k), ty('unsigned long long'), ty('int')))))
fam2('operator*(const ZBDD &,const ZBDD &)', T.join_, 'join', method=False,
     cache=lambda ex, a, k: (BoolVal(True), T.join_(a, ex.asfam(k))))
fam2('ZBDD_Meet(const ZBDD &,const ZBDD &)', T.meet_, 'meet', method=False,
     cache=lambda ex, a, k: (And(ex.asfam(k) != T.bot, a != T.bot), T.meet_(a, ex.asfam(k))))
fam2('operator/(const ZBDD &,const ZBDD &)', T.quo_, 'quo', method=False, measure=lambda c: ht(c.fam(1)),
     extra=lambda c, f, g: [('the divisor is not empty', g != T.bot)])
SELFASSIGN = dict(ret_this=True, measure=None)
ZREF = 'const ZBDD &'
for o_, op_ in (('=', lambda f, g: g), ('&=', T.fint), ('+=', T.funion), ('-=', T.fdiff), ('*=', T.join_), ('/=', T.quo_), ('%=', T.frem_)):
    con('ZBDD::operator%s(%s)' % (o_, ZREF), ret_this=True, post_this=lambda c, op_=op_: c.ex.zbdd(op_(c.selffam(), c.fam(0))),
        requires=(lambda c, o_=o_: nn(c, c.selffam(), c.fam(0)) if o_ not in ('/=', '%=', '=') else [] if o_ == '=' else nn(c, c.selffam(), c.fam(0)) + ([('the divisor is not empty', c.fam(0) != T.bot)] if o_ in ('/=', '%=') else [])))
for o_, op_ in (('+', T.funion), ('&', T.fint), ('-', T.fdiff)):
    con('operator%s(%s,%s)' % (o_, ZREF, ZREF), requires=lambda c: nn(c, c.fam(0), c.fam(1)), result=lambda c, op_=op_: c.ex.zbdd(op_(c.fam(0), c.fam(1))))
con('operator%%(%s,%s)' % (ZREF, ZREF), requires=lambda c: nn(c, c.fam(0), c.fam(1)) + [('the divisor is not empty', c.fam(1) != T.bot)],
    result=lambda c: c.ex.zbdd(T.frem_(c.fam(0), c.fam(1))))

# ---------------------------------------------------------------- reconf.cc
fam1('reconf::removeSomeElement(const ZBDD &)', T.rsome_, 'rsome', method=False,
     cache=lambda ex, a, k: (ex.asfam(k) == T.bot, T.rsome_(a)))


def levels_ok(c):
    f, n, lo = c.fam(0), c.v(1), c.v(2)
    s, e = z3.Const('s', T.S), z3.Int('e')
    return nn(c, f) + [('level bounds', And(0 <= n, n <= T.N, 1 <= lo, lo <= T.N)),
                       ('no element above level n', ht(f) <= n),
                       ('no element below level lower', z3.ForAll([s, e], Implies(And(T.mem(s, f), T.has(s, e)), T.lev(e) >= lo), patterns=[z3.MultiPattern(T.mem(s, f), T.has(s, e))]))]


def lvkey(op):
    """the key names the variables of the two levels: independent of how levels shift when the universe grows"""
    def f(ex, a, k):
        k = ex.toint(k)
        v, l = k / 65536, k % 65536
        return (And(1 <= v, v <= T.N, 1 <= l, l <= T.N), op(a, T.N + 1 - v, T.N + 1 - l))
    return f


for nm, op in (('addSomeElement', T.asome_), ('removeAddSomeElements', T.ssome_)):
    con('reconf::%s(const ZBDD &,int,int)' % nm, group='reconf', requires=levels_ok,
        result=lambda c, op=op: c.ex.zbdd(op(c.fam(0), c.v(1), c.v(2))),
        measure=lambda c: c.v(1), cache=lvkey(op))

# ---------------------------------------------------------------- zdd.cc
con('graphillion::new_elems(int)', requires=lambda c: [('element number within the variables of the library', And(c.v(0) >= 0, c.v(0) <= T.N))],
    assumed='levels: bddnewvaroflev(1) makes the new element the lowest one')


class Memo:
    """invariant of a memo table: every entry holds the result for its key"""

    def __init__(self, op, n, keyok=None): self.op, self.n, self.keyok = op, n, keyok

    def key(self, xs): return xs[0] if self.n == 1 else pairsort().mkpair(*xs)

    def assume(self, ex, m):
        xs = [z3.Const('kf%d' % i, T.F) for i in range(self.n)]
        k = self.key(xs)
        return [('every entry is the result for its key', z3.ForAll(xs, Implies(z3.Select(m.dom, k), z3.Select(m.val[0], k) == self.op(*xs)), patterns=[z3.Select(m.val[0], k), z3.Select(m.dom, k)]))]

    def goal(self, ex, m):
        xs = [z3.Const('sk!k%d' % next(fresh_), T.F) for i in range(self.n)]
        k = self.key(xs)
        return [(nm, Implies(z3.Select(m.dom, k), g)) for nm, g in famgoals(z3.Select(m.val[0], k), self.op(*xs), 'every entry is the result for its key')]


def memo1(op): return Memo(op, 1)
def memo2(op): return Memo(op, 2)


G = 'graphillion::'
fam1(G + 'minimal(ZBDD)', T.minimal_, 'minimal', method=False, statics={'cache': memo1(T.minimal_)})
fam1(G + 'maximal(ZBDD)', T.maximal_, 'maximal', method=False, statics={'cache': memo1(T.maximal_)})
fam2(G + 'non_subsets(ZBDD,ZBDD)', T.nonsub_, 'nonsub', method=False, statics={'cache': memo2(T.nonsub_)})
fam2(G + 'non_supersets(ZBDD,ZBDD)', T.nonsup_, 'nonsup', method=False, statics={'cache': memo2(T.nonsup_)})


def inU(e): return ('the element belongs to the universe', And(1 <= e, e <= T.N))


con(G + 'single(int)', requires=lambda c: [inU(c.v(0))], result=lambda c: c.ex.zbdd(T.change(T.top, c.v(0))))
con(G + 'zuniq(int,ZBDD,ZBDD)', requires=lambda c: [inU(c.v(0))] + nn(c, c.fam(1), c.fam(2)),
    result=lambda c: c.ex.zbdd(T.funion(c.fam(1), T.join_(T.change(T.top, c.v(0)), c.fam(2)))))

SST = ty('graphillion::setset')
ITT = ty('graphillion::setset::iterator')


def ss(c, f): return Rec(SST, {'zdd_': c.ex.zbdd(f)})


SS = G + 'setset'
SREF = 'const %s &' % SS
ISET = 'std::set<int, std::less<int>, std::allocator<int>>'
nz = lambda g: ('the divisor is not empty', g != T.bot)
for o_, op_ in (('|', T.funion), ('&', T.fint), ('-', T.fdiff), ('^', T.fxor_), ('/', T.quo_), ('%', T.frem_)):
    pre = lambda c, o_=o_: nn(c, c.selffam(), c.fam(0)) + ([nz(c.fam(0))] if o_ in '/%' else [])
    con('%s::operator%s(%s)const' % (SS, o_, SREF), requires=pre, result=lambda c, op_=op_: ss(c, op_(c.selffam(), c.fam(0))))
    con('%s::operator%s=(%s)' % (SS, o_, SREF), requires=pre, post_this=lambda c, op_=op_: ss(c, op_(c.selffam(), c.fam(0))))
con('%s::operator=(%s)' % (SS, SREF), post_this=lambda c: ss(c, c.fam(0)))
for o_, op_ in (('<=', lambda f, g: T.fsub_(f, g)), ('<', lambda f, g: And(T.fsub_(f, g), f != g)), ('>=', lambda f, g: T.fsub_(g, f)), ('>', lambda f, g: And(T.fsub_(g, f), f != g)),
                ('==', lambda f, g: f == g), ('!=', lambda f, g: f != g)):
    con('%s::operator%s(%s)%s' % (SS, o_, SREF, '' if o_ in ('==', '!=') else 'const'), requires=lambda c: nn(c, c.selffam(), c.fam(0)), result=lambda c, op_=op_: op_(c.selffam(), c.fam(0)))
for n_, op_ in (('is_disjoint', lambda f, g: T.fdis_(f, g)), ('is_subset', lambda f, g: T.fsub_(f, g)), ('is_superset', lambda f, g: T.fsub_(g, f))):
    con('%s::%s(%s)const' % (SS, n_, SREF), requires=lambda c: nn(c, c.selffam(), c.fam(0)), result=lambda c, op_=op_: op_(c.selffam(), c.fam(0)))
for n_, op_ in (('join', T.join_), ('meet', T.meet_), ('subsets', T.permit_), ('supersets', T.restrict_), ('non_subsets', T.nonsub_), ('non_supersets', T.nonsup_)):
    con('%s::%s(%s)const' % (SS, n_, SREF), requires=lambda c: nn(c, c.selffam(), c.fam(0)), result=lambda c, op_=op_: ss(c, op_(c.selffam(), c.fam(0))))
    if n_ in ('join', 'meet'):
        con(G + n_ + '(ZBDD,ZBDD)', requires=lambda c: nn(c, c.fam(0), c.fam(1)), result=lambda c, op_=op_: c.ex.zbdd(op_(c.fam(0), c.fam(1))))
for n_, op_ in (('minimal', T.minimal_), ('maximal', T.maximal_), ('remove_some_element', T.rsome_)):
    con('%s::%s()const' % (SS, n_), requires=lambda c: nn(c, c.selffam()), result=lambda c, op_=op_: ss(c, op_(c.selffam())))
con(SS + '::empty()const', requires=lambda c: nn(c, c.selffam()), result=lambda c: c.selffam() == T.bot)
con(SS + '::clear()', post_this=lambda c: ss(c, T.bot))
con(SS + '::swap(%s::setset &)' % G[:-2], requires=lambda c: nn(c, c.selffam(), c.fam(0)), post_this=lambda c: ss(c, c.fam(0)), args_post={0: lambda c: ss(c, c.selffam())})
con(SS + '::flip(int)', requires=lambda c: nn(c, c.selffam()) + [inU(c.v(0))], post_this=lambda c: ss(c, T.change(c.selffam(), c.v(0))))
con(SS + '::insert(int)', requires=lambda c: nn(c, c.selffam()) + [inU(c.v(0))], post_this=lambda c: ss(c, T.addall_(c.selffam(), c.v(0))))
con(SS + '::erase(int)', requires=lambda c: nn(c, c.selffam()) + [inU(c.v(0))], post_this=lambda c: ss(c, T.remall_(c.selffam(), c.v(0))))
con(SS + '::supersets(int)const', requires=lambda c: nn(c, c.selffam()) + [inU(c.v(0))], result=lambda c: ss(c, T.onset(c.selffam(), c.v(0))))
con(SS + '::non_supersets(int)const', requires=lambda c: nn(c, c.selffam()) + [inU(c.v(0))], result=lambda c: ss(c, T.offset(c.selffam(), c.v(0))))
szok = lambda c: nn(c, c.selffam()) + [('size within the range of int', c.v(0) < (1 << 31))]
con(SS + '::smaller(unsigned long)const', requires=szok, result=lambda c: ss(c, T.fsize_(c.selffam(), 0, c.v(0) - 1)))
con(SS + '::larger(unsigned long)const', requires=szok, result=lambda c: ss(c, T.fsize_(c.selffam(), c.v(0) + 1, T.VMAX)))
con(SS + '::set_size(unsigned long)const', requires=szok, result=lambda c: ss(c, T.fsize_(c.selffam(), c.v(0), c.v(0))))


def univ(c, i): return [('size of the universe', And(c.v(i) >= 1, c.v(i) <= T.N))]


con(SS + '::flip_all(int)', requires=lambda c: nn(c, c.selffam()) + univ(c, 0), post_this=lambda c: ss(c, T.flipall_(c.selffam(), c.v(0))),
    loops=[dict(name='for each element', inv=lambda v: [('element counter', And(1 <= v['e'], v['e'] <= v['num_elems_a'] + 1)), ('object stays valid', v.thisfam() != T.null)] +
                fgoal(v, v.thisfam(), T.flipall_(v.thisfam0(), v['e'] - 1), 'elements handled so far are flipped'))])
con(G + 'complement(ZBDD,int)', requires=lambda c: nn(c, c.fam(0)) + univ(c, 1), result=lambda c: c.ex.zbdd(T.fdiff(T.pw_(1, c.v(1)), c.fam(0))),
    loops=[dict(name='for each element', inv=lambda v: [('element counter', And(0 <= v['v'], v['v'] <= v['num_elems_a'])), ('table size', v['n'].len == v['num_elems_a'] + 2)] +
                fgoal(v, z3.Select(v['n'].el[0], v['num_elems_a'] - v['v'] + 1), T.pw_(v['v'] + 1, v['num_elems_a']), 'power set of the elements handled so far'))])
con(SS + '::complement(int)const', requires=lambda c: nn(c, c.selffam()) + univ(c, 0), result=lambda c: ss(c, T.fdiff(T.pw_(1, c.v(0)), c.selffam())))


def inrange(c, s): 
    e = z3.Int('e')
    return [('elements belong to the universe', z3.ForAll([e], Implies(T.has(s, e), And(1 <= e, e <= T.N)), patterns=[T.has(s, e)]))]


con(SS + '::setset(const %s &)' % ISET, requires=lambda c: inrange(c, c.v(0)), post_this=lambda c: ss(c, T.fone_(c.v(0))),
    loops=[dict(name='for each element', inv=lambda v: [('position', And(0 <= v['e'].pos, v['e'].pos <= T.card(v['s'])))] +
                fgoal(v, v.thisfam(), T.fone_(T.pre(v['s'], v['e'].pos)), 'elements handled so far'))])


def it_at(c, f, s): return Rec(ITT, {'zdd_': c.ex.zbdd(f), 's_': s})


def found(c): return T.mem(c.v(0), c.selffam())


def find_post(c):
    r = c.ret
    return [('found', Implies(found(c.oldctx), And(c.ex.famval(r.f['zdd_']) == c.oldctx.selffam(), r.f['s_'] == c.oldctx.v(0)))),
            ('not found', Implies(Not(found(c.oldctx)), c.ex.famval(r.f['zdd_']) == T.null))]


mset = lambda c: nn(c, c.selffam()) + inrange(c, c.v(0))
con(SS + '::find(const %s &)const' % ISET, requires=mset, retty=ITT, ensures=find_post)
con(SS + '::count(const %s &)const' % ISET, requires=mset, result=lambda c: If(found(c), IntVal(1), IntVal(0)))
con(SS + '::insert(const %s &)' % ISET, requires=mset, post_this=lambda c: ss(c, T.funion(c.selffam(), T.fone_(c.v(0)))),
    retty=ty('std::pair<%s, bool>' % ITT.text), ensures=lambda c: [('reports whether the set is new', c.ret.b == Not(found(c.oldctx))), ('iterator at the set', c.ret.a.f['s_'] == c.oldctx.v(0))])
con(SS + '::erase(const %s &)' % ISET, requires=mset, post_this=lambda c: ss(c, T.fdiff(c.selffam(), T.fone_(c.v(0)))), result=lambda c: If(found(c), IntVal(1), IntVal(0)))
VSET = 'std::vector<%s, std::allocator<%s>>' % (ISET, ISET)
con(SS + '::setset(const %s &)' % VSET, requires=lambda c: vecrange(c, c.v(0)), post_this=lambda c: ss(c, fvec(c.v(0), c.v(0).len)),
    loops=[dict(name='for each set', inv=lambda v: [('position', And(0 <= v['s'].pos, v['s'].pos <= v['v'].len)), ('object stays valid', v.thisfam() != T.null)] +
                fgoal(v, v.thisfam(), fvec(v['v'], v['s'].pos), 'sets handled so far'))])
AS = z3.ArraySort(z3.IntSort(), T.S)
fvec_ = z3.Function('fvec', AS, z3.IntSort(), T.F)
fvi = z3.Function('fveci', T.S, AS, z3.IntSort(), z3.IntSort())
_A, _n, _i = z3.Const('A_', AS), z3.Int('n_'), z3.Int('i_')
T.ax('fvec1', 'DEF', [T.s, _A, _n], Implies(T.mem(T.s, fvec_(_A, _n)), And(0 <= fvi(T.s, _A, _n), fvi(T.s, _A, _n) < _n, z3.Select(_A, fvi(T.s, _A, _n)) == T.s)), T.mem(T.s, fvec_(_A, _n)))
T.ax('fvec2', 'DEF', [_A, _n, _i], Implies(And(0 <= _i, _i < _n, T.uok(z3.Select(_A, _i))), T.mem(z3.Select(_A, _i), fvec_(_A, _n))), (fvec_(_A, _n), z3.Select(_A, _i)))
T.ax('fvec3', 'DEF', [_A, _n], fvec_(_A, _n) != T.null, fvec_(_A, _n))
T.OPNAMES.add('fvec')


def fvec(v, n): return fvec_(v.el[0], n)


def vecrange(c, v):
    i, e = z3.Ints('i e')
    return [('elements belong to the universe', z3.ForAll([i, e], Implies(And(0 <= i, i < v.len, T.has(z3.Select(v.el[0], i), e)), And(1 <= e, e <= T.N)), patterns=[T.has(z3.Select(v.el[0], i), e)]))]


VINT = 'std::vector<int, std::allocator<int>>'
STRT = 'std::basic_string<char, std::char_traits<char>, std::allocator<char>>'
MSV = 'std::map<%s, %s, std::less<%s>, std::allocator<std::pair<const %s, %s>>>' % (STRT, VINT, STRT, STRT, VINT)


def inex(ex, m, name):
    """the set of elements listed under a key of the include/exclude map"""
    v = ex.proj(m, 'k', IntVal(strcode(name)))
    return If(z3.Select(m.dom, IntVal(strcode(name))), sov(v.el[0], 0, v.len), T.es)


con(SS + '::setset(const %s &,int)' % MSV, requires=lambda c: univ(c, 1) + mapvecs(c), post_this=lambda c: ss(c, T.ie_(inex(c.ex, c.v(0), 'include'), inex(c.ex, c.v(0), 'exclude'), 1, c.v(1))),
    loops=[dict(name='keys', inv=lambda v: []),
           dict(name='included elements', inv=lambda v: [('position', And(0 <= v['e'].pos, v['e'].pos <= v['in_v'].len))]),
           dict(name='excluded elements', inv=lambda v: [('position', And(0 <= v['e'].pos, v['e'].pos <= v['ex_v'].len))]),
           dict(name='for each element', inv=lambda v: [('element counter', And(0 <= v['v'], v['v'] <= v['num_elems_a'])), ('table size', v['n'].len == v['num_elems_a'] + 2), ('first entry', z3.Select(v['n'].el[0], 0) == T.bot)] +
                fgoal(v, z3.Select(v['n'].el[0], v['num_elems_a'] - v['v'] + 1), T.ie_(inex(v.ex, v['m'], 'include'), inex(v.ex, v['m'], 'exclude'), v['v'] + 1, v['num_elems_a']), 'choices for the elements handled so far'))])


def mapvecs(c):
    m = c.v(0); out = []
    i = z3.Int('i')
    for nm in ('include', 'exclude'):
        v = c.ex.proj(m, 'k', IntVal(strcode(nm)))
        out.append(('elements to %s belong to the universe' % nm, Implies(z3.Select(m.dom, IntVal(strcode(nm))), And(v.len >= 0, z3.ForAll([i], Implies(And(0 <= i, i < v.len), And(1 <= z3.Select(v.el[0], i), z3.Select(v.el[0], i) <= T.N)), patterns=[z3.Select(v.el[0], i)])))))
    return out


import builtins_
from builtins_ import NUM
import contracts2
import contracts3
import contracts4
