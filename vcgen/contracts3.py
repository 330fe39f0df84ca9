"""Contracts: the cost table (BDDCT)."""
from contracts2 import *
import theory3 as T3

CTR = ('CT object',)
CT_ = 'BDDCT::'


def ct(c): return c.ex.rv(c.st, ctloc(c))


def ctsetup(ex, st):
    st.store[CTR] = ex.th.fresh(ty('BDDCT'), 'ct')
    st.pc.extend(ex.th.typefacts(ty('BDDCT'), st.store[CTR]))
    st.store[('global', 'CT', 'BDDCT *')] = Ptr(Loc(CTR))


def ctloc(c):
    p = c.ex.rv(c.st, Loc(('global', 'CT', 'BDDCT *')))
    return p.loc


def slots(v): return v.f['_ca'].el      # ids, non-null, keys, results


def slotok(v, C, el, ln, goal, nm='every slot holds results of its family', upto=None):
    """the tables of the slots (from position upto on)"""
    ids, nn_, dm, vl = el
    lo = IntVal(0) if upto is None else upto
    def ok(i): return Implies(And(lo <= i, i < ln, z3.Select(nn_, i)), And(T3.ne(z3.Select(dm, i)), T3.zok(z3.Select(ids, i), C, z3.Select(dm, i), z3.Select(vl, i))))
    if goal:
        i = z3.Int('sk!i%d' % next(fresh_))
        return [(nm, ok(i))]
    i = z3.Int('i_')
    return [(nm, allq([i], ok(i), z3.Select(nn_, i), z3.Select(dm, i), z3.Select(ids, i)))]


def cinv(v, goal, A=None):
    """the invariant of a cost table"""
    C = v.f['_cost'].el[0] if A is None else A
    ids, nn_, dm, vl = slots(v)
    i = z3.Int('sk!j%d' % next(fresh_)) if goal else z3.Int('i_')
    empty = Implies(And(v.f['_caent'] == 0, 0 <= i, i < v.f['_casize']), Not(z3.Select(nn_, i)))
    return [('table of costs', And(v.f['_n'] >= 0, v.f['_n'] == v.f['_cost'].len)), ('slots', And(v.f['_casize'] >= 2, v.f['_ca'].len == v.f['_casize'])), ('count', And(v.f['_caent'] >= 0, v.f['_caent'] <= v.f['_casize'])),
            ('other slots', And(v.f['_ca0size'] >= 1, v.f['_ca0'].len == v.f['_ca0size'])),
            ('no entry is left when the count is zero', empty if goal else allq([i], empty, z3.Select(nn_, i)))] + slotok(v, C, slots(v), v.f['_casize'], goal)


def fields_same(v, w, but):
    """the fields of v not in but are those of w"""
    out = []
    for n in v.f:
        if n in but: continue
        a, b = v.f[n], w.f[n]
        if isinstance(a, Opaque): continue
        fa, fb = (x.el + [x.len] if isinstance(x, Vec) else [x] for x in (a, b))
        out += [('%s stays' % n, x == y) for x, y in zip(fa, fb)]
    return out


CACHE = ('_ca', '_casize', '_caent')
goal_ = lambda c: not getattr(c, 'assuming', False)
INT_ = ty('int')
this_ = lambda c: c.self_()
pre_ = lambda c: [(n, b) for n, b in cinv(c.self_(), True)]
con(CT_ + 'Cost(const int)const', requires=lambda c: [('table of costs', And(this_(c).f['_n'] >= 0, this_(c).f['_n'] == this_(c).f['_cost'].len))], ovf=True,
    result=lambda c: If(c.v(0) >= this_(c).f['_n'], T3.NUL, If(c.v(0) < 0, IntVal(1), z3.Select(this_(c).f['_cost'].el[0], c.v(0)))))
con(CT_ + 'CacheClear()', modthis=True, retty=INT_, ensures=lambda c: [('succeeds', c.ret == 0), ('slots', And(this_(c).f['_casize'] >= 2, this_(c).f['_ca'].len == this_(c).f['_casize'], this_(c).f['_caent'] == 0))] + slots_empty(c) + fields_same(this_(c), c.oldctx.self_(), CACHE))
con(CT_ + 'Cache0Clear()', modthis=True, retty=INT_, ensures=lambda c: [('succeeds', c.ret == 0), ('slots', And(this_(c).f['_ca0size'] >= 1, this_(c).f['_ca0'].len == this_(c).f['_ca0size'], this_(c).f['_ca0ent'] == 0))] + fields_same(this_(c), c.oldctx.self_(), ('_ca0', '_ca0size', '_ca0ent')))


def slots_empty(c):
    v = this_(c)
    i = z3.Int('sk!i%d' % next(fresh_)) if goal_(c) else z3.Int('i_')
    b = Implies(And(0 <= i, i < v.f['_casize']), Not(z3.Select(slots(v)[1], i)))
    return [('no slot is used', b if goal_(c) else allq([i], b, z3.Select(slots(v)[1], i)))]


con(CT_ + 'CacheEnlarge()', modthis=True, retty=INT_, requires=lambda c: cinv(c.self_(), goal_(c)) + [('there are entries', this_(c).f['_caent'] > 0)],
    ensures=lambda c: [('succeeds', c.ret == 0), ('count', And(this_(c).f['_caent'] == c.oldctx.self_().f['_caent'], this_(c).f['_caent'] < this_(c).f['_casize']))] + cinv(this_(c), goal_(c)) + fields_same(this_(c), c.oldctx.self_(), CACHE),
    loops=[dict(name='for each slot', inv=lambda v: enl_inv(v) + [('position', And(0 <= v['i'], v['i'] <= v.this().f['_casize']))] + slotok(None, v.this().f['_cost'].el[0], slots(v.this()), v.this().f['_casize'], not v.assuming, 'slots to come', v['i'])),
           dict(name='probing', inv=lambda v: [('position', And(0 <= v['k'], v['k'] < v['newsize']))])])


def enl_inv(v):
    t, e = v.this(), v.ex.read(v.entry, v.fr['this'])
    w = v['newca']
    return fields_same(t, e, ('_ca',)) + [('array of slots', And(t.f['_ca'].len == e.f['_ca'].len, w.len == v['newsize']))] + slotok(None, t.f['_cost'].el[0], w.el, w.len, not v.assuming, 'new slots')


crit = lambda c: If(c.v(2) == T3.NUL, -T3.NUL, c.v(2))
costs_ = lambda v: v.f['_cost'].el[0]


def bnd(c, v):
    """costs are C ints, one for each element"""
    return [('a cost for each element', v.f['_n'] == T.N), ('costs are C ints', T3.abnd(costs_(v), T.N, T3.KC))]


def cle_range(b, f):
    """the bound leaves room for the costs of the elements still to come"""
    return And(b >= -(1 << 62) + T3.KC * ht(f), b <= (1 << 62) - T3.KC * ht(f))


con(CT_ + 'CacheRef(const ZBDD &,const long long,long long &,long long &)', ovf=True, mods=(2, 3), retty=ty('ZBDD'),
    requires=lambda c: nn(c, c.fam(0)) + cinv(c.self_(), goal_(c)) + bnd(c, this_(c)) + [('bound', And(c.v(1) > -(1 << 62) - 1, c.v(1) < (1 << 62) + 1))],
    ensures=lambda c: ref_post(c, this_(c)),
    loops=[dict(name='probing', inv=lambda v: [('position', And(0 <= v['k'], v['k'] < v.this().f['_casize']))])])


def ref_post(c, v):
    r, C = c.ex.famval(c.ret), costs_(v)
    f, b = c.oldctx.fam(0), c.oldctx.v(1)
    hit = r != T.null
    return cond_fam(c, hit, r, T3.cle(f, C, b), 'a result found') + [('greatest cost within the bound', Implies(hit, c.v(2) == T3.awx(f, C, b))), ('least cost beyond', Implies(hit, c.v(3) == T3.rbx(f, C, b)))]


def ent_req(c):
    v, C = this_(c), costs_(this_(c))
    f, h, aw, rb, k = c.fam(0), c.fam(1), c.v(2), c.v(3), crit(c)
    return nn(c, f, h) + cinv(v, goal_(c)) + bnd(c, v) + [('the cost is that of a member', Implies(aw != T3.NUL, T3.ach(f, C, aw)))] + (
        [('the result', h == T3.cle(f, C, k))] if getattr(c, 'assuming', False) else famgoals(h, T3.cle(f, C, k), 'the result')) + [('the next cost', rb == T3.rbx(f, C, k)), ('range', And(Or(aw == T3.NUL, T3.within(aw)), Or(rb == T3.NUL, T3.within(rb)))), ('not empty', f != T.bot)]


con(CT_ + 'CacheEnt(const ZBDD &,const ZBDD &,const long long,const long long)', ovf=True, modthis=True, retty=INT_, requires=ent_req,
    ensures=lambda c: [('succeeds', c.ret == 0)] + cinv(this_(c), goal_(c)) + fields_same(this_(c), c.oldctx.self_(), CACHE),
    loops=[dict(name='probing', inv=lambda v: fields_same(v.this(), v.ex.read(v.entry, v.fr['this']), ()) + [('position', And(0 <= v['k'], v['k'] < v.this().f['_casize']))])])
con(CT_ + 'SetCost(const int,const long long)', modthis=True, retty=INT_, requires=lambda c: [(n, b) for n, b in cinv(c.self_(), goal_(c))] + [('index', And(c.v(0) >= 0, c.v(0) < this_(c).f['_n']))],
    ensures=lambda c: [('succeeds', c.ret == 0), ('the cost is set', And(costs_(this_(c)) == z3.Store(costs_(c.oldctx.self_()), c.v(0), c.v(1)), this_(c).f['_n'] == c.oldctx.self_().f['_n']))] + cinv(this_(c), goal_(c)))
trivial = dict(name='labels', inv=lambda v: fields_same(v.this(), v.ex.read(v.entry, v.fr['this']), ()))


def filled(v):
    t = v.this(); i = z3.Int('sk!i%d' % next(fresh_)) if not v.assuming else z3.Int('i_')
    b = Implies(And(0 <= i, i < v['i']), z3.Select(costs_(t), i) == v['cost'])
    return fields_same(t, v.ex.read(v.entry, v.fr['this']), ('_cost',)) + [('position', And(0 <= v['i'], v['i'] <= t.f['_n'], t.f['_cost'].len == t.f['_n'])), ('costs so far', b if not v.assuming else allq([i], b, z3.Select(costs_(t), i)))]


def alloc_post(c):
    t = this_(c); i = z3.Int('sk!i%d' % next(fresh_)) if goal_(c) else z3.Int('i_')
    b = Implies(And(0 <= i, i < c.v(0)), z3.Select(costs_(t), i) == c.v(1))
    return [('succeeds', c.ret == 0), ('size', t.f['_n'] == mx(c.v(0), IntVal(0))), ('every cost is the default', b if goal_(c) else allq([i], b, z3.Select(costs_(t), i)))] + cinv(t, goal_(c))


con(CT_ + 'Alloc(const int,const long long)', modthis=True, retty=INT_, requires=lambda c: [('size', this_(c).f['_n'] >= 0)], ensures=alloc_post,
    loops=[trivial, dict(name='costs', inv=filled), dict(name='labels', inv=lambda v: trivial['inv'](v) + [('position', v['i'] >= 0)])])


# ---------------------------------------------------------------- the recursion
def cle_req(c):
    v = ct(c)
    return nn(c, c.fam(0)) + cinv(v, goal_(c)) + bnd(c, v) + [('bound', cle_range(c.v(1), c.fam(0)))]


def cle_post(v0, f, b, i):
    """the members within the bound, and the neighbouring costs"""
    def g(c):
        C = costs_(v0(c))
        return [('greatest cost within the bound', c.v(i) == T3.awx(f(c), C, b(c))), ('least cost beyond', c.v(i + 1) == T3.rbx(f(c), C, b(c)))]
    return g


con('CLE(const ZBDD &,const long long,long long &,long long &)', ovf=True, group='CLE', mods=(2, 3), setup=ctsetup, requires=cle_req, havoc=lambda c: [ctloc(c)], measure=lambda c: ht(c.fam(0)),
    result=lambda c: c.ex.zbdd(T3.cle(c.fam(0), costs_(ct(c)), c.v(1))),
    ensures=lambda c: cle_post(lambda c: ct(c.oldctx), lambda c: c.oldctx.fam(0), lambda c: c.oldctx.v(1), 2)(c) + cinv(ct(c), goal_(c)) + fields_same(ct(c), ct(c.oldctx), CACHE + ('_call',)))


con(CT_ + 'ZBDD_CostLE(const ZBDD &,const long long,long long &,long long &)', ovf=True, modthis=True, mods=(2, 3),
    requires=lambda c: nn(c, c.fam(0)) + cinv(this_(c), goal_(c)) + bnd(c, this_(c)) + [('bound', cle_range(c.v(1), c.fam(0)))],
    result=lambda c: c.ex.zbdd(T3.cle(c.fam(0), costs_(this_(c)), c.v(1))),
    ensures=lambda c: cle_post(lambda c: c.oldctx.self_(), lambda c: c.oldctx.fam(0), lambda c: c.oldctx.v(1), 2)(c) + cinv(this_(c), goal_(c)) + fields_same(this_(c), c.oldctx.self_(), CACHE + ('_call',)))
con(CT_ + 'ZBDD_CostLE(const ZBDD &,const long long)', ovf=True, modthis=True, requires=lambda c: nn(c, c.fam(0)) + cinv(this_(c), goal_(c)) + bnd(c, this_(c)) + [('bound', cle_range(c.v(1), c.fam(0)))],
    result=lambda c: c.ex.zbdd(T3.cle(c.fam(0), costs_(this_(c)), c.v(1))), ensures=lambda c: cinv(this_(c), goal_(c)))


def costset(v):
    t, i, j = v['bddct'], v['i'], z3.Int('sk!i%d' % next(fresh_)) if not v.assuming else z3.Int('i_')
    A, B = costs_(t), v['costs'].el[0]
    b2 = Implies(And(i <= j, j < T.N), z3.Select(A, j) == 1)
    f = (lambda b: b) if not v.assuming else (lambda b: allq([j], b, z3.Select(A, j)))
    return cinv(t, not v.assuming) + [('position', And(0 <= i, i <= v['costs'].len, t.f['_n'] == T.N)), ('costs given so far', T3.agr(A, B, i)), ('other costs', f(b2))]


VBC = 'std::vector<long long, std::allocator<long long>>'
con(SS + '::cost_le(const %s &,const long long)const' % VBC, ovf=True,
    requires=lambda c: nn(c, c.selffam()) + [('one cost for each element', c.v(0).len == NUM), ('universe', And(NUM >= 0, NUM <= T.N, T.N >= 1, T.N <= T.VMAX)), ('elements of the universe only', T2.top_le(c.selffam(), NUM)),
                                             ('costs are C ints', T3.abnd(c.v(0).el[0], NUM, T3.KC)), ('the bound is a C int', And(c.v(1) >= -T3.KC, c.v(1) < T3.KC))],
    result=lambda c: ss(c, T3.cle(c.selffam(), c.v(0).el[0], c.v(1))), loops=[dict(name='for each element', inv=costset)])
