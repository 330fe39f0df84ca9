"""Contracts: probability, counting, iteration, hitting sets."""
from contracts import *
import theory2 as T2

VDBL = 'std::vector<double, std::allocator<double>>'
MWD = 'std::map<unsigned long long, double, std::less<unsigned long long>, std::allocator<std::pair<const unsigned long long, double>>>'
VMX = lambda c, i, n: [('one entry for each element', c.v(i).len >= n + 1)]
root_ = lambda f, n: If(T.topv(f) == 0, n + 1, T.topv(f))


def simple(x):
    return all(simple(y) for y in x.children()) if x.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED) else False


def allq(vs, body, *pats):
    """universal fact, with the patterns that the solver accepts"""
    ps = [p for p in pats if all(simple(q) for q in (p if isinstance(p, tuple) else (p,)))]
    return z3.ForAll(vs, body, patterns=[z3.MultiPattern(*p) if isinstance(p, tuple) else p for p in ps]) if ps else z3.ForAll(vs, body)


class MemoR(Memo):
    """memo table of numbers"""

    def goal(self, ex, m):
        k = z3.Const('sk!k%d' % next(fresh_), T.F)
        return [('every entry is the result for its key', Implies(z3.Select(m.dom, k), z3.Select(m.val[0], k) == self.op(k)))]


con(G + 'algo_c(ZBDD)', group='algo_c', requires=lambda c: nn(c, c.fam(0)), result=lambda c: T2.cnt(c.fam(0)), measure=lambda c: ht(c.fam(0)), statics={'counts': MemoR(T2.cnt, 1)})

con(G + 'skip_probability(int,ZBDD,const %s &,int)' % VDBL,
    requires=lambda c: nn(c, c.fam(1)) + [('universe', And(0 <= c.v(3), c.v(3) <= T.N)), ('first element', c.v(0) >= 1), ('elements of the universe only', T2.top_le(c.fam(1), c.v(3)))] + VMX(c, 2, c.v(3)),
    result=lambda c: T2.skp(c.v(2).el[0], c.v(0), root_(c.fam(1), c.v(3))),
    loops=[dict(name='for each skipped element', inv=lambda v: [('position', v['i'] >= v['e']), ('within', Or(v['i'] == v['e'], v['i'] <= root_(v.fam('f'), v['num_elems_a']))),
                                                                ('product so far', v['p'] == T2.skp(v['probabilities'].el[0], v['e'], v['i']))])])


def pcache(c, i):
    """entries of the table of probabilities"""
    m, P, n = c.v(3), c.v(2).el[0], c.v(4)
    k = z3.Const('k_', T.F)
    return [('table of probabilities: terminals', And(z3.Select(m.dom, T.bot), z3.Select(m.dom, T.top))),
            ('table of probabilities: entries', allq([k], Implies(z3.Select(m.dom, k), z3.Select(m.val[0], k) == T2.prv(k, P, root_(k, n), n)), z3.Select(m.dom, k), z3.Select(m.val[0], k)))]


con(G + 'probability(int,ZBDD,const %s &,%s &,int)' % (VDBL, MWD), group='prob',
    requires=lambda c: nn(c, c.fam(1)) + [('not a terminal', T.topv(c.fam(1)) > 0), ('first element', And(1 <= c.v(0), c.v(0) <= T.topv(c.fam(1)))), ('universe', And(0 <= c.v(4), c.v(4) <= T.N)), ('elements of the universe only', T2.top_le(c.fam(1), c.v(4)))] + VMX(c, 2, c.v(4)) + pcache(c, 3),
    result=lambda c: T2.prv(c.fam(1), c.v(2).el[0], c.v(0), c.v(4)), mods=(3,), measure=lambda c: ht(c.fam(1)),
    ensures=lambda c: pcache(c, 3) + [('entries are only added', allq([T.f], Implies(z3.Select(c.oldctx.v(3).dom, T.f), z3.Select(c.v(3).dom, T.f)), z3.Select(c.v(3).dom, T.f)))])
con(SS + '::probability(const %s &,int)const' % VDBL,
    requires=lambda c: nn(c, c.selffam()) + univ(c, 1) + [('elements of the universe only', T2.top_le(c.selffam(), c.v(1))), ('one entry for each element', And(c.v(0).len >= c.v(1) + 1, c.v(0).len == NUM + 1))],
    result=lambda c: T2.prv(c.selffam(), c.v(0).el[0], IntVal(1), c.v(1)),
    loops=[dict(name='for each element', inv=lambda v: [('position', And(1 <= v['e'], v['e'] <= v['num_elems_a'] + 1)), ('product so far', v['p'] == T2.skp(v['probabilities'].el[0], 1, v['e']))])])

# ---------------------------------------------------------------- iteration
def seteq(c, got, want, nm):
    """equality of sets: assumed as such, proved element by element"""
    if getattr(c, 'assuming', False): return [(nm, got == want)]
    return eqgoals(c.ex, got, want, nm)


stk = lambda v: sov(v.el[0], 0, v.len)
part_ = lambda v, f: T2.above(stk(v), root_(f, T.N))


def ch_post(c):
    f, v0, v1 = c.oldctx.fam(0), c.oldctx.v(1), c.v(1)
    R0, R1 = part_(v0, f), part_(v1, f)
    r, w = c.ret, root_(f, T.N)
    t = T.t
    every = lambda b: allq([t], Implies(T.mem(t, f), b), T.mem(t, f))
    return [('the stack stays sorted', T2.srt(v1.el[0], v1.len)), ('stack size', And(v1.len >= 0, v1.len <= T.N))] + seteq(c, T2.below(stk(v1), w), T2.below(stk(v0), w), 'the elements above the diagram stay') + [
        ('a set is chosen whenever there is one', Implies(R0 == T.es, r == (f != T.bot))),
        ('the chosen set is a member', Implies(r, T.mem(R1, f))),
        ('nothing is left on the stack otherwise', Implies(Not(r), R1 == T.es)),
        ('the first member is chosen first', Implies(And(r, R0 == T.es), every(Or(t == R1, T2.lt(R1, t))))),
        ('the chosen set comes later', Implies(And(r, R0 != T.es), T2.lt(R0, R1))),
        ('no member is skipped', Implies(And(r, R0 != T.es), every(Or(Not(T2.lt(R0, t)), t == R1, T2.lt(R1, t))))),
        ('the last member is the last', Implies(And(Not(r), R0 != T.es), every(Not(T2.lt(R0, t)))))]


con(G + 'choose(ZBDD,%s *)' % VINT, group='choose',
    requires=lambda c: nn(c, c.fam(0)) + [('the stack is sorted', T2.srt(c.v(1).el[0], c.v(1).len)), ('stack size', And(c.v(1).len >= 0, c.v(1).len <= T.N)),
                                          ('the stack holds a member or nothing', Or(part_(c.v(1), c.fam(0)) == T.es, T.mem(part_(c.v(1), c.fam(0)), c.fam(0))))],
    retty=ty('bool'), mods=(1,), ensures=ch_post, measure=lambda c: ht(c.fam(0)))
itfam = lambda v: v.f['zdd_'].f['_zbdd']
ITN = SS + '::iterator'


def it_inv(c, v, name='the iterator'):
    """where a plain iterator is: before the first member (no set), at a member, at the last member (empty family) or at the end (null)"""
    f, s = c.ex.asfam(itfam(v)), v.f['s_']
    return [('%s stands at a member' % name, Or(f == T.null, f == T.bot, s == T.es, T.mem(s, f)))]


def next_post(c, fresh=None):
    f0, s0 = (c.ex.asfam(itfam(c.oldctx.self_())), c.oldctx.self_().f['s_']) if fresh is None else (fresh(c), T.es)
    v1 = c.self_(); f1, s1 = c.ex.asfam(itfam(v1)), v1.f['s_']
    t = T.t
    every = lambda b: allq([t], Implies(T.mem(t, f0), b), T.mem(t, f0))
    live = And(f0 != T.null, f0 != T.bot)
    step = lambda b: [('the next member is a member', Implies(b, T.mem(s1, f0))), ('the rest of the family stays', Implies(b, f1 == If(s1 == T.es, T.bot, f0)))]
    return [('nothing follows the last member', Implies(Not(live), f1 == T.null))] + step(And(live, s0 == T.es)) + step(And(live, s0 != T.es, f1 != T.null)) + [
        ('starts with the first member', Implies(And(live, s0 == T.es), every(Or(t == s1, T2.lt(s1, t))))),
        ('goes forward', Implies(And(live, s0 != T.es, f1 != T.null), T2.lt(s0, s1))),
        ('no member is skipped', Implies(And(live, s0 != T.es, f1 != T.null), every(Or(Not(T2.lt(s0, t)), t == s1, T2.lt(s1, t))))),
        ('ends after the last member', Implies(And(live, s0 != T.es, f1 == T.null), every(Not(T2.lt(s0, t)))))] + it_inv(c, v1)


con(ITN + '::next()', requires=lambda c: it_inv(c, c.self_()), modthis=True, ensures=next_post)
con(ITN + '::operator++()', requires=lambda c: it_inv(c, c.self_()), modthis=True, ensures=next_post, ret_this=True)
con(ITN + '::iterator(%s)' % SREF, requires=lambda c: nn(c, c.fam(0)), modthis=True, ensures=lambda c: next_post(c, lambda c: c.oldctx.fam(0)))
con(SS + '::begin()const', requires=lambda c: nn(c, c.selffam()), retty=ITT, ensures=lambda c: begin_post(c))


def begin_post(c):
    """the iterator stands at the first member, or at the end if there is none"""
    f, s = c.ex.asfam(itfam(c.ret)), c.ret.f['s_']; g = c.oldctx.selffam(); t = T.t
    return [('empty family', Implies(g == T.bot, f == T.null)), ('first member', Implies(g != T.bot, And(T.mem(s, g), allq([t], Implies(T.mem(t, g), Or(t == s, T2.lt(s, t))), T.mem(t, g))))),
            ('the rest of the family stays', Implies(g != T.bot, f == If(s == T.es, T.bot, g)))]

# ---------------------------------------------------------------- nodes of a diagram, level by level
VZ = 'std::vector<ZBDD, std::allocator<ZBDD>>'
VVZ = 'std::vector<%s, std::allocator<%s>>' % (VZ, VZ)
PS = 'std::set<unsigned long long, std::less<unsigned long long>, std::allocator<unsigned long long>>'
vis = lambda m, g: z3.Select(m.dom, g)
occurs = lambda st, u, g: T2.vin(z3.Select(st.el[1], u), z3.Select(st.el[0], u), g)     # g occurs in list number u
_g, _u = z3.Const('g_', T.F), z3.Int('u_')
lo_ = lambda g: T.offset(g, T.topv(g)); hi_ = lambda g: T.onset0(g, T.topv(g))


def sz_inv(st, vs, mx):
    lst = z3.Select(st.el[1], _u)
    return [('lists', And(st.len >= 0, st.len <= T.N + 1, mx >= 0, mx <= T.N)), ('a list for each level', Or(mx == 0, st.len >= mx + 1)),
            ('list sizes', allq([_u], Implies(And(0 <= _u, _u < st.len), z3.Select(st.el[0], _u) >= 0), z3.Select(st.el[0], _u))),
            ('every visited node is listed at its level', allq([_g], Implies(vis(vs, _g), And(_g != T.null, T.topv(_g) > 0, T.topv(_g) <= mx, occurs(st, T.topv(_g), _g))), vis(vs, _g))),
            ('every listed node has been visited', allq([_u, _g], Implies(And(0 <= _u, _u < st.len, occurs(st, _u, _g)), And(vis(vs, _g), T.topv(_g) == _u)), occurs(st, _u, _g)))]


def sz_post(c):
    f = c.fam(0); v0, v1 = c.oldctx.v(2), c.v(2); n = z3.Int('n_')
    new = lambda g: And(vis(v1, g), Not(vis(v0, g)))
    ok = lambda g: Or(T.topv(g) == 0, vis(v1, g))
    return sz_inv(c.v(1), v1, c.v(3)) + [
        ('the root is visited', ok(f)), ('what was visited stays so', allq([_g], Implies(vis(v0, _g), vis(v1, _g)), vis(v0, _g), vis(v1, _g))),
        ('with every node its successors are visited', allq([_g], Implies(new(_g), And(ok(lo_(_g)), ok(hi_(_g)))), vis(v1, _g))),
        ('new nodes have no larger elements', allq([_g, n], Implies(And(new(_g), T2.top_le(f, n)), T2.top_le(_g, n)), (vis(v1, _g), T2.top_le(_g, n)))),
        ('largest element', allq([n], Implies(And(T2.top_le(f, n), c.oldctx.v(3) <= n), c.v(3) <= n), T2.top_le(f, n))),
        ('levels are not taken away', And(c.v(1).len >= c.oldctx.v(1).len, c.v(3) >= c.oldctx.v(3), c.v(3) >= T.topv(f))),
        ('levels are added as needed', c.v(1).len <= mx(c.oldctx.v(1).len, c.v(3) + 1))]


con(G + 'sort_zdd(ZBDD,%s *,%s *,int *)' % (VVZ, PS), group='sort', mods=(1, 2, 3), measure=lambda c: ht(c.fam(0)),
    requires=lambda c: nn(c, c.fam(0)) + sz_inv(c.v(1), c.v(2), c.v(3)), ensures=sz_post)

# ---------------------------------------------------------------- hitting sets


def memoized(v, m, cond, op, nm):
    """every node that satisfies cond has an entry with its result"""
    if v.assuming: return [(nm, allq([_g], Implies(cond(_g), And(z3.Select(m.dom, _g), z3.Select(m.val[0], _g) == op(_g))), vis(v['visited'], _g)))]
    k = z3.Const('sk!n%d' % next(fresh_), T.F)
    return [(nm + ': present', Implies(cond(k), z3.Select(m.dom, k)))] + [(x, Implies(cond(k), y)) for x, y in famgoals(z3.Select(m.val[0], k), op(k), nm)]


def lists(v, upto, shift=0):
    """the lists of nodes up to a level are as sort_zdd left them"""
    st, vs = v['stacks'], v['visited']
    return [('lists of the levels to come', allq([_g], Implies(And(vis(vs, _g), T.topv(_g) <= upto), occurs(st, T.topv(_g), _g)), vis(vs, _g))),
            listed(v)[0],
            ('list sizes', allq([_u], Implies(And(0 <= _u, _u < st.len), z3.Select(st.el[0], _u) >= 0), z3.Select(st.el[0], _u)))] + nodes(v)


def listed(v):
    st, vs = v['stacks'], v['visited']
    if v.assuming: return [('listed nodes have been visited', allq([_u, _g], Implies(And(0 <= _u, _u < st.len, occurs(st, _u, _g)), And(vis(vs, _g), T.topv(_g) == _u)), occurs(st, _u, _g)))]
    k, u = z3.Const('sk!l%d' % next(fresh_), T.F), z3.Int('sk!u%d' % next(fresh_))
    return [('listed nodes have been visited', Implies(And(0 <= u, u < st.len, occurs(st, u, k)), And(vis(vs, k), T.topv(k) == u)))]


def nodes(v):
    """what is known of every node of the diagram"""
    vs, n = v['visited'], v['num_elems_a']
    ok = lambda g: Or(g == T.bot, g == T.top, vis(vs, g))
    k = z3.Const('sk!m%d' % next(fresh_), T.F)
    facts = [('nodes are not terminals', lambda g: And(g != T.null, T.topv(g) > 0)), ('levels of nodes', lambda g: And(T2.top_le(g, n), T.topv(g) <= n)),
             ('successors of nodes are nodes', lambda g: And(ok(lo_(g)), ok(hi_(g))))]
    if v.assuming: return [(x, allq([_g], Implies(vis(vs, _g), y(_g)), vis(vs, _g))) for x, y in facts]
    return [(x, Implies(vis(vs, k), y(k))) for x, y in facts]


hop = lambda n: lambda g: T2.hr(g, T.topv(g), n)
hbase = lambda v: [('first entries', And(z3.Select(v['cache'].dom, T.bot), z3.Select(v['cache'].dom, T.top), z3.Select(v['cache'].val[0], T.bot) == T.bot, z3.Select(v['cache'].val[0], T.top) == T.bot))]
hlen = lambda v: [('a list for each level', v['stacks'].len == v.at_entry('stacks').len)]


def hext(name, child):
    """the partial results for the successors are extended by the elements in between"""
    def inv(v):
        c = child(v); n, j = v['num_elems_a'], v['j']
        return [('position', And(v['v'] <= j, j <= n, Or(T.topv(c) == 0, j < T.topv(c))))] + fgoal(v, v.fam(name), T2.hr(c, j + 1, n), 'elements handled so far')
    return inv


con(G + 'hitting(ZBDD,int)', group='hitting', requires=lambda c: nn(c, c.fam(0)) + univ(c, 1) + [('elements of the universe only', T2.top_le(c.fam(0), c.v(1)))],
    result=lambda c: c.ex.zbdd(T2.hr(c.fam(0), 1, c.v(1))),
    loops=[dict(name='for each level', inv=lambda v: [('level', And(0 <= v['v'], v['v'] <= v['num_elems_a']))] + hlen(v) + lists(v, v['v']) + hbase(v) + memoized(v, v['cache'], lambda g: And(vis(v['visited'], g), T.topv(g) > v['v']), hop(v['num_elems_a']), 'results of the levels done')),
           dict(name='for each node', inv=lambda v: hlen(v) + lists(v, v['v'] - 1) + hbase(v) + memoized(v, v['cache'], lambda g: And(vis(v['visited'], g), Or(T.topv(g) > v['v'], And(T.topv(g) == v['v'], Not(occurs(v['stacks'], v['v'], g))))), hop(v['num_elems_a']), 'results of the nodes done')),
           dict(name='skipped elements, without', inv=hext('l', lambda v: lo_(v.fam('n')))),
           dict(name='skipped elements, with', inv=hext('h', lambda v: hi_(v.fam('n')))),
           dict(name='free elements', inv=lambda v: [('position', And(v['v'] <= v['j'], v['j'] <= v['num_elems_a']))] + fgoal(v, v.fam('g'), T.pw_(v['j'] + 1, v['num_elems_a']), 'elements handled so far')),
           dict(name='elements before the first', inv=lambda v: [('position', And(0 <= v['j'], v['j'] <= v['num_elems_a'], Or(T.topv(v.fam('f')) == 0, v['j'] < T.topv(v.fam('f')))))] + fgoal(v, v.fam('g'), T2.hr(v.fam('f'), v['j'] + 1, v['num_elems_a']), 'elements handled so far'))])
con(SS + '::hitting(int)const', requires=lambda c: nn(c, c.selffam()) + univ(c, 0) + [('elements of the universe only', T2.top_le(c.selffam(), c.v(0)))], result=lambda c: ss(c, T2.hr(c.selffam(), 1, c.v(0))))

# ---------------------------------------------------------------- best member (Knuth, algorithm B)
VBOOL = 'std::vector<bool, std::allocator<bool>>'
bset = lambda x: T2.vset(x.el[0], x.len)


def wok(c, i, f):
    w = c.v(i)
    return [('weights', And(w.len >= 1, w.len <= T.N + 1)), ('a weight for each element', T2.top_le(f, w.len - 1))]


def ab_post(c):
    f, w, x0, x1 = c.oldctx.fam(0), c.oldctx.v(1).el[0], c.oldctx.v(2), c.v(2)
    X = bset(x1)
    return [('nothing to choose', Implies(f == T.top, And(x1.len == x0.len, x1.el[0] == x0.el[0]))),
            ('the chosen set is a member', Implies(f != T.top, T.mem(X, f))), ('no member has a larger weight', Implies(f != T.top, T2.wt(X, w) == T2.bst(f, w))),
            ('one bit for each element', Implies(f != T.top, And(1 <= x1.len, x1.len <= T.N + 1)))]


def ab_res(v, cond):
    """what is known of the nodes for which cond holds"""
    ms, t, w, vs = v['ms'], v['t'], v['w'].el[0], v['visited']
    tt = lambda g: And(z3.Select(t.dom, g), z3.Select(t.val[0], g))
    body = lambda g: And(z3.Select(ms.dom, g), z3.Select(ms.val[0], g) == T2.bst(g, w), If(tt(g), T2.bst(g, w) == z3.Select(w, T.topv(g)) + T2.bst(hi_(g), w), And(lo_(g) != T.bot, T2.bst(g, w) == T2.bst(lo_(g), w))))
    k = z3.Const('sk!b%d' % next(fresh_), T.F)
    nm = 'best weights of the nodes done'
    if v.assuming: return [(nm, allq([_g], Implies(And(vis(vs, _g), cond(_g)), body(_g)), vis(vs, _g)))]
    return [(nm, Implies(And(vis(vs, k), cond(k)), body(k)))]


def ab_clean(v):
    """a recorded choice takes the element"""
    t, w = v['t'], v['w'].el[0]; k = z3.Const('sk!c%d' % next(fresh_), T.F)
    body = lambda g: And(z3.Select(t.val[0], g), T2.bst(g, w) == z3.Select(w, T.topv(g)) + T2.bst(hi_(g), w))
    if v.assuming: return [('recorded choices', allq([_g], Implies(z3.Select(t.dom, _g), body(_g)), z3.Select(t.dom, _g)))]
    return [('recorded choices', Implies(z3.Select(t.dom, k), body(k)))]


def ab_nodes(v):
    vs, n = v['visited'], v['max_elem']
    ok = lambda g: Or(g == T.bot, g == T.top, vis(vs, g))
    k = z3.Const('sk!m%d' % next(fresh_), T.F)
    facts = [('nodes are not terminals', lambda g: And(g != T.null, T.topv(g) > 0, T.topv(g) <= n)), ('successors of nodes are nodes', lambda g: And(ok(lo_(g)), ok(hi_(g))))]
    if v.assuming: return [(x, allq([_g], Implies(vis(vs, _g), y(_g)), vis(vs, _g))) for x, y in facts]
    return [(x, Implies(vis(vs, k), y(k))) for x, y in facts]


def lists_(v, upto):
    st, vs = v['stacks'], v['visited']
    return [('lists of the levels to come', allq([_g], Implies(And(vis(vs, _g), T.topv(_g) <= upto), occurs(st, T.topv(_g), _g)), vis(vs, _g)))] + listed(v) + [
        ('list sizes', allq([_u], Implies(And(0 <= _u, _u < st.len), z3.Select(st.el[0], _u) >= 0), z3.Select(st.el[0], _u))), ('a list for each level', st.len >= v['max_elem'] + 1)]


def ab_trace(v):
    f0, f, w, X = v.ex.famval(v.at_entry('f')), v.fam('f'), v['w'].el[0], bset(v['x'])
    tt = z3.Const('t_', T.S); e = z3.Int('e_')
    return [('at a node', And(f != T.null, f != T.bot, Or(f == T.top, vis(v['visited'], f)))), ('one bit for each element', v['x'].len == v['max_elem'] + 1),
            ('elements chosen so far lie above', allq([e], Implies(T.has(X, e), And(1 <= e, Or(f == T.top, e < T.topv(f)))), T.has(X, e))),
            ('any completion is a member', allq([tt], Implies(T.mem(tt, f), T.mem(T.uni(X, tt), f0)), T.mem(tt, f))),
            ('best completion', T2.wt(X, w) + T2.bst(f, w) == T2.bst(f0, w))]


ab_base = lambda v: [('first entries', And(z3.Select(v['ms'].dom, T.bot), z3.Select(v['ms'].dom, T.top), z3.Select(v['ms'].val[0], T.top) == 0))]
con(G + 'algo_b(ZBDD,const %s &,%s *)' % (VDBL, VBOOL), group='algo_b', mods=(2,),
    requires=lambda c: nn(c, c.fam(0)) + [('not empty', c.fam(0) != T.bot)] + wok(c, 1, c.fam(0)), ensures=ab_post,
    loops=[dict(name='for each level', inv=lambda v: [('level', And(0 <= v['v'], v['v'] <= v['max_elem']))] + lists_(v, v['v']) + ab_nodes(v) + ab_base(v) + ab_res(v, lambda g: T.topv(g) > v['v']) + ab_clean(v)),
           dict(name='for each node', inv=lambda v: lists_(v, v['v'] - 1) + ab_nodes(v) + ab_base(v) + ab_res(v, ab_done(v)) + ab_clean(v)),
           dict(name='trace', inv=lambda v: ab_nodes(v) + ab_res(v, lambda g: z3.BoolVal(True)) + ab_trace(v))])


def ab_done(v): return lambda g: Or(T.topv(g) > v['v'], And(T.topv(g) == v['v'], Not(occurs(v['stacks'], v['v'], g))))


def cb_post(c):
    f, w, s0, s1 = c.oldctx.fam(0), c.oldctx.v(1).el[0], c.oldctx.v(2), c.v(2)
    return [('nothing to choose', Implies(f == T.bot, s1 == s0)), ('the chosen set is a member', Implies(f != T.bot, T.mem(s1, f))), ('no member has a larger weight', Implies(f != T.bot, T2.wt(s1, w) == T2.bst(f, w)))] + rfam(c, If(f == T.bot, T.bot, T.fone_(s1)), 'the family of the chosen set')


def rfam(c, want, nm):
    """what a result that is described by ensures contains"""
    got = c.ex.famval(c.ret)
    return [(nm, got == want)] if getattr(c, 'assuming', False) else famgoals(got, want, nm)


def cb_inv(v):
    x, f, w = v['x'], v.fam('f'), v['weights'].el[0]; X = bset(x)
    full = T2.vset(x.el[0], v['j'])
    return [('position', Or(And(1 <= v['j'], v['j'] <= x.len), And(x.len == 0, v['j'] == 1))),
            ('the chosen bits', If(x.len == 0, f == T.top, And(x.len <= T.N + 1, T.mem(X, f), T2.wt(X, w) == T2.bst(f, w))))] + seteq(v, v['s'], If(x.len == 0, T.es, full), 'elements chosen so far') + [
            ('elements chosen so far belong to the universe', T.uok(v['s']))] + fgoal(v, v.fam('g'), T.fone_(v['s']), 'the set so far')


con(G + 'choose_best(ZBDD,const %s &,%s *)' % (VDBL, ISET.replace('const ', '')), group='choose_best', mods=(2,), retty=ty('ZBDD'),
    requires=lambda c: nn(c, c.fam(0)) + wok(c, 1, c.fam(0)), ensures=cb_post,
    loops=[dict(name='for each element', inv=cb_inv)])

# ---------------------------------------------------------------- random choice, the other iterators
con(G + 'rand_xor128()', group='choose_random', retty=ty('double'), ensures=lambda c: [('a number from 0 to 1', And(0 <= c.ret, c.ret <= 1))])


def cr_post(c):
    f, v0, v1 = c.oldctx.fam(0), c.oldctx.v(1), c.v(1)
    w = root_(f, T.N); R = part_(v1, f)
    return [('the stack stays sorted', T2.srt(v1.el[0], v1.len)), ('stack size', And(v1.len >= 0, v1.len <= T.N))] + seteq(c, T2.below(stk(v1), w), T2.below(stk(v0), w), 'the elements above the diagram stay') + [
        ('the chosen set is a member', T.mem(R, f))] + rfam(c, T.fone_(stk(v1)), 'the family of the chosen set')


con(G + 'choose_random(ZBDD,%s *)' % VINT, group='choose_random', mods=(1,), retty=ty('ZBDD'),
    requires=lambda c: nn(c, c.fam(0)) + [('not empty', c.fam(0) != T.bot), ('the stack is sorted', T2.srt(c.v(1).el[0], c.v(1).len)), ('stack size', And(c.v(1).len >= 0, c.v(1).len <= T.N)),
                                          ('the stack holds elements above the diagram', part_(c.v(1), c.fam(0)) == T.es)],
    ensures=cr_post, measure=lambda c: ht(c.fam(0)),
    loops=[dict(name='for each element of the stack', inv=lambda v: [('position', And(0 <= v['i'], v['i'] <= v['stack'].len)), ('the stack stays', And(v['stack'].len == v.at_entry('stack').len, v['stack'].el[0] == v.at_entry('stack').el[0]))] + fgoal(v, v.fam('g'), T.fone_(sov(v['stack'].el[0], 0, v['i'])), 'the set so far'))])


RIT, WIT = SS + '::random_iterator', SS + '::weighted_iterator'
VDT = ty(VDBL)


def cond_fam(c, cond, got, want, nm):
    if getattr(c, 'assuming', False): return [(nm, Implies(cond, got == want))]
    return [(x, Implies(cond, y)) for x, y in famgoals(got, want, nm)]


def rit_post(c, v1=None, fresh=None):
    """one step: a member is chosen, and taken out of the rest"""
    f0 = c.ex.asfam(itfam(c.oldctx.self_())) if fresh is None else fresh
    v1 = v1 or c.self_(); f1, s1, n = c.ex.asfam(itfam(v1)), v1.f['s_'], v1.f['size_']
    live = And(f0 != T.null, f0 != T.bot)
    return [('nothing follows the last member', Implies(Not(live), f1 == T.null)), ('the chosen set is a member', Implies(live, T.mem(s1, f0))),
            ('the count is kept', n == (c.oldctx.self_().f['size_'] if fresh is None else T2.cnt(fresh)))] + cond_fam(
            c, And(live, n < z3.RealVal(10 ** 17)), f1, T.fdiff(f0, T.fone_(s1)), 'a chosen set is not chosen again') + cond_fam(c, And(live, n >= z3.RealVal(10 ** 17)), f1, f0, 'a huge family stays')


con(RIT + '::next()', requires=lambda c: [], modthis=True, ensures=rit_post)
con(RIT + '::random_iterator(%s)' % SREF, requires=lambda c: nn(c, c.fam(0)), modthis=True, ensures=lambda c: rit_post(c, fresh=c.oldctx.fam(0)))
con(SS + '::begin_randomly()const', requires=lambda c: nn(c, c.selffam()), retty=ty(RIT), ensures=lambda c: rit_post(c, c.ret, c.oldctx.selffam()))


def wf(c, v, f):
    """a weight for each element of the family"""
    w = v.f['weights_']
    return [('weights', Implies(And(f != T.null, f != T.bot), And(w.len >= 1, w.len <= T.N + 1, T2.top_le(f, w.len - 1))))]


def wit_post(c, v1=None, fresh=None, w0=None, sign=None):
    """one step: the best of the members left is chosen, and taken out"""
    f0 = c.ex.asfam(itfam(c.oldctx.self_())) if fresh is None else fresh
    w0 = w0 or c.oldctx.self_().f['weights_']
    v1 = v1 or c.self_(); f1, s1, w1 = c.ex.asfam(itfam(v1)), v1.f['s_'], v1.f['weights_']
    live = And(f0 != T.null, f0 != T.bot); t = T.t
    best = T2.wt(s1, w0.el[0]) == T2.bst(f0, w0.el[0]) if sign is None else allq([t], Implies(T.mem(t, f0), T2.wt(s1, w0.el[0]) * sign >= T2.wt(t, w0.el[0]) * sign), T.mem(t, f0))
    return [('nothing follows the last member', Implies(Not(live), f1 == T.null)), ('the chosen set is a member', Implies(live, T.mem(s1, f0))), ('no member has a better weight', Implies(live, best))] + (
            [('the weights stay', And(w1.len == w0.len, w1.el[0] == w0.el[0]))] if sign is None else []) + cond_fam(
            c, live, f1, T.fdiff(f0, T.fone_(s1)), 'a chosen set is not chosen again') + wf(c, v1, f1)


con(WIT + '::next()', requires=lambda c: wf(c, c.self_(), c.ex.asfam(itfam(c.self_()))), modthis=True, ensures=wit_post)
con(WIT + '::weighted_iterator(%s,%s)' % (SREF, VDBL), requires=lambda c: nn(c, c.fam(0)) + wok(c, 1, c.fam(0)), modthis=True, ensures=lambda c: wit_post(c, fresh=c.oldctx.fam(0), w0=c.oldctx.v(1)))
con(SS + '::begin_from_max(const %s &)const' % VDBL, requires=lambda c: nn(c, c.selffam()) + wok(c, 0, c.selffam()), retty=ty(WIT), ensures=lambda c: wit_post(c, c.ret, c.oldctx.selffam(), c.oldctx.v(0), 1))
con(SS + '::begin_from_min(const %s &)const' % VDBL, requires=lambda c: nn(c, c.selffam()) + wok(c, 0, c.selffam()), retty=ty(WIT), ensures=lambda c: wit_post(c, c.ret, c.oldctx.selffam(), c.oldctx.v(0), -1),
    loops=[dict(name='for each weight', inv=lambda v: [('position', And(0 <= v['i'].pos, v['i'].pos <= v['weights'].len, v['inverted_weights'].len == v['i'].pos)),
                                                       ('negated so far', T2.negto(v['inverted_weights'].el[0], v['weights'].el[0], v['i'].pos))])])
