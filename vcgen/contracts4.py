"""Contracts: the diagram primitives of bddc.cc, on ids (see theory4.py, sym4.py)."""
from contracts3 import *
import theory4 as T4
from theory4 import fam, valid, vtop, FALSE_, TRUE_, NULL_, nvar, nf0, nf1, ndx, neg, alloc, uinv, join40
from sym4 import CACHE, M40
from sym import BUF
from builtins_ import BI
import builtins_

W_ = 'unsigned long long'
AP = 'apply(%s,%s,unsigned char,unsigned char)' % (W_, W_)
BIN = {10: ('BC_INTERSEC', T.fint), 11: ('BC_UNION', T.funion), 12: ('BC_SUBTRACT', T.fdiff)}
UN = {13: ('BC_OFFSET', T.offset), 14: ('BC_ONSET', T.onset0), 15: ('BC_CHANGE', T.change)}


def mn(a, b): return If(a < b, a, b)


def spec4(op, f, g, h, goal, full=True):
    """h is the result of the operation: a valid id of the family that the operation
    defines, with nothing above its operands"""
    want = (BIN[op][1](fam(f), fam(g)) if op in BIN else UN[op][1](fam(f), g))
    bound = mn(vtop(f), vtop(g)) if op in BIN else mn(vtop(f), g) if op == 15 else vtop(f)
    if goal:
        q = z3.Const('sk!s%d' % next(fresh_), T.S)
        eq = [('only sets that belong to it', Implies(T.mem(q, fam(h)), T.mem(q, want))), ('every set that belongs to it', Implies(T.mem(q, want), T.mem(q, fam(h))))]
    else: eq = [('family', fam(h) == want)]
    return [('a valid diagram', valid(h)), ('not null', h != NULL_), ('the top variable is not above the operands', vtop(h) >= bound)] + eq


def pre4(op, f, g):
    return And(valid(f), valid(g)) if op in BIN else And(valid(f), 1 <= g, g <= T.N)


def entry4(op, f, g, h, goal):
    out = []
    for o in list(BIN) + list(UN):
        nm = (BIN.get(o) or UN.get(o))[0]
        out.append(('%s entry is the result of the operation' % nm, Implies(And(op == o, pre4(o, f, g)), And([b for _, b in spec4(o, f, g, h, goal)]))))
    out.append(('entry of another module', Implies(op >= 20, uinv(op, f, g, h))))
    return out


def cacheinv(c):
    v = c.st.store[CACHE]
    names = [n for n, _ in c.ex.fields(v.ty.elem)]
    col = dict(zip(names, v.el))
    goal = not getattr(c, 'assuming', False)
    i = z3.Int('sk!i%d' % next(fresh_)) if goal else z3.Int('nd_ci')
    sel = lambda n: z3.Select(col[n], i)
    two = lambda n: join40(sel(n + '_32'), sel(n + '_h8'))
    ents = entry4(sel('op'), two('f'), two('g'), two('h'), goal)
    rng = And(0 <= i, i < v.len)
    pre = []
    if goal:
        if getattr(c, 'old', None) is not None: pre.append(('the operation cache keeps its size', v.len == c.old.store[CACHE].len))
        if getattr(c, 'old', None) is not None and v is c.old.store.get(CACHE): return []
        return pre + [('operation cache: ' + n_, Implies(rng, b)) for n_, b in ents]
    if getattr(c, 'old', None) is not None: pre.append(('the operation cache keeps its size', v.len == c.old.store[CACHE].len))
    return pre + [('operation cache', z3.ForAll([i], Implies(rng, And([b for _, b in ents])), patterns=[sel('op')]))]


def setup4(op=None, skip=None):
    def f(ex, st):
        v = ex.th.fresh(BUF('B_CacheTable'), 'Cache')
        st.store[CACHE] = v
        st.pc += [v.len >= 1]
        for root in list(st.store):
            if root[0] == 'arg' and root[1] == 'op' and op is not None: st.store[root] = IntVal(op)
    return f


def id_con(key, fn=None, **kw):
    req, ens, op, pure = kw.pop('requires', None), kw.pop('ensures', None), kw.pop('op', None), kw.pop('pure', False)
    c = con(key, layer='id', setup=setup4(op), **kw)
    c.fn = fn or key
    c.requires = lambda c: (req(c) if req else []) + ([] if pure else cacheinv(c))
    c.ensures = lambda c: (ens(c) if ens else []) + ([] if pure else cacheinv(c))
    if not pure: c.havoc = lambda c: [Loc(CACHE)]
    return c


U64I = Ty('int', 'unsigned long long', bits=64, signed=False, word=False)


def _goal(c): return not getattr(c, 'assuming', False)


def hgt(x): return T.N + 1 - vtop(x)


for o in list(BIN) + list(UN):
    def mk(o):
        nm, sp = BIN.get(o) or UN.get(o)
        def req(c):
            f, g, op, skip = c.v(0), c.v(1), c.v(2), c.v(3)
            r = [('operands are diagrams' if o in BIN else 'a diagram and a variable', pre4(o, f, g)), ('operation code', op == o)]
            if o in BIN: r.append(('skip', skip == 0))
            else: r.append(('the terminal cases are skipped only above the variable, for an edge without negation', Implies(skip != 0, And(neg(f) == 0, f < T4.CSTB, vtop(f) < c.v(1)))))
            return r
        id_con('%s#%d' % (AP, o), fn=AP, op=o, group='apply', retty=U64I, requires=req,
               ensures=lambda c: spec4(o, c.v(0), c.v(1), c.ret, _goal(c)),
               measure=lambda c: 2 * (hgt(c.v(0)) + (hgt(c.v(1)) if o in BIN else 0)) + neg(c.v(0)))
    mk(o)


def pure_id(key, **kw): return id_con(key, pure=True, **kw)


# the unique table: the one node with this variable and these edges (getnode itself, the
# enlargement of tables and the collection of dead nodes are not verified)
GN = 'getnode(unsigned int,%s,%s)' % (W_, W_)
GZ = 'getzbddp(unsigned int,%s,%s)' % (W_, W_)
varok = lambda v: And(1 <= v, v <= T.N)
pure_id(GN, retty=U64I, assumed='the unique table: getnode returns the positive id of the one node with this variable and these edges, and memory suffices',
        requires=lambda c: [('variable', varok(c.v(0))), ('edges', And(valid(c.v(1)), valid(c.v(2)))), ('the edges lead below the variable', And(vtop(c.v(1)) > c.v(0), vtop(c.v(2)) > c.v(0))),
                            ('the 0-edge carries the mark of set families', neg(c.v(1)) == 1), ('no node with an empty 1-edge', c.v(2) != FALSE_)],
        ensures=lambda c: [('node', And(0 <= c.ret, c.ret < T4.CSTB - 1, neg(c.ret) == 0, alloc(ndx(c.ret)), valid(c.ret), nvar(ndx(c.ret)) == c.v(0), nf0(ndx(c.ret)) == c.v(1), nf1(ndx(c.ret)) == c.v(2)))])


def isnode4(c, v, f0, f1, ret):
    if _goal(c):
        q = z3.Const('sk!s%d' % next(fresh_), T.S)
        eq = T.mem(q, fam(ret)) == If(T.has(q, v), T.mem(T.rem(q, v), fam(f1)), T.mem(q, fam(f0)))
    else:
        q = z3.Const('gz_s', T.S)
        eq = z3.ForAll([q], T.mem(q, fam(ret)) == If(T.has(q, v), T.mem(T.rem(q, v), fam(f1)), T.mem(q, fam(f0))), patterns=[T.mem(q, fam(ret))])
    return [('a valid diagram', valid(ret)), ('not null', ret != NULL_), ('nothing above the variable', vtop(ret) >= v), ('sets with the variable from the 1-edge, the others from the 0-edge', eq)]


pure_id(GZ, retty=U64I,
        requires=lambda c: [('variable', varok(c.v(0))), ('edges', And(valid(c.v(1)), valid(c.v(2)))), ('the edges lead below the variable', And(vtop(c.v(1)) > c.v(0), vtop(c.v(2)) > c.v(0)))],
        ensures=lambda c: isnode4(c, c.v(0), c.v(1), c.v(2), c.ret))

ids = lambda c, *i: [('a diagram of this library, not null', And([valid(c.v(k)) for k in i]))]
fameq = lambda c, want: [('a valid diagram', valid(c.ret)), ('not null', c.ret != NULL_)] + ([('result: ' + n_, b) for n_, b in famgoals(fam(c.ret), want, 'result') if 'null' not in n_] if _goal(c) else [('family', fam(c.ret) == want)])
for nm, op in (('bddunion', T.funion), ('bddintersec', T.fint), ('bddsubtract', T.fdiff)):
    def mk(nm, op):
        id_con('%s(%s,%s)' % (nm, W_, W_), retty=U64I, requires=lambda c: ids(c, 0, 1), ensures=lambda c: fameq(c, op(fam(c.v(0)), fam(c.v(1)))))
    mk(nm, op)
for nm, op in (('bddoffset', T.offset), ('bddonset', T.onset), ('bddonset0', T.onset0), ('bddchange', T.change)):
    def mk(nm, op):
        id_con('%s(%s,unsigned int)' % (nm, W_), retty=U64I, requires=lambda c: ids(c, 0) + [('variable', varok(c.v(1)))], ensures=lambda c: fameq(c, op(fam(c.v(0)), c.v(1))))
    mk(nm, op)
orn = lambda c, i: [('null, or a diagram of this library', Or(c.v(i) == NULL_, valid(c.v(i))))]
pure_id('bddcopy(%s)' % W_, retty=U64I, requires=lambda c: orn(c, 0), ensures=lambda c: [('the same diagram', c.ret == c.v(0))])
pure_id('bddfree(%s)' % W_, requires=lambda c: orn(c, 0))
pure_id('bddtop(%s)' % W_, retty=U64I, requires=lambda c: orn(c, 0), ensures=lambda c: [('top variable', c.ret == If(c.v(0) == NULL_, IntVal(0), T.topv(fam(c.v(0)))))])
pure_id('bddlevofvar(unsigned int)', retty=U64I, requires=lambda c: [('variable', And(c.v(0) >= 0, c.v(0) <= T.N))], ensures=lambda c: [('level', c.ret == T.lev(c.v(0)))])
pure_id('bddvaroflev(unsigned int)', retty=U64I, requires=lambda c: [('level', And(c.v(0) >= 1, c.v(0) <= T.N))], ensures=lambda c: [('variable', c.ret == T.N + 1 - c.v(0))])
pure_id('bddvarused()', retty=U64I, ensures=lambda c: [('number of variables', c.ret == T.N)])
# the operation cache as other modules use it
w40 = lambda v: And(0 <= v, v < M40)
id_con('bddrcache(unsigned char,%s,%s)' % (W_, W_), retty=U64I, requires=lambda c: [('operation code of another module', c.v(0) >= 20)],
       ensures=lambda c: [('nothing, or what was stored for the same code and operands', Or(c.ret == NULL_, uinv(c.v(0), c.v(1), c.v(2), c.ret)))])
id_con('bddwcache(unsigned char,%s,%s,%s)' % (W_, W_, W_), requires=lambda c: [('operation code of another module', c.v(0) >= 20), ('numbers of 40 bits', And(w40(c.v(1)), w40(c.v(2)), w40(c.v(3)))), ('entry', uinv(c.v(0), c.v(1), c.v(2), c.v(3)))])

BI4 = {k: h for k, h in BI.items() if not k.startswith(('name:bdd', 'bdd')) and k not in ('name:BDDerr',)}
for nm, tag in (('Node', 'NodeBase'), ('Cache', 'CacheBase'), ('Var', 'VarBase'), ('VarID', 'VarIDBase')):
    BI4['global:' + nm] = (lambda tag: lambda ex, st, e: Opaque(tag))(tag)
BI4['global:NodeSpc'] = lambda ex, st, e: T4.NSPC
BI4['global:VarUsed'] = lambda ex, st, e: T.N
BI4['global:CacheSpc'] = lambda ex, st, e: st.store[CACHE].len if CACHE in st.store else Loc(('global', e['q'], e['dt']))


def _err(ex, st, fn, this, args, e):
    m = ex.rv(st, args[0])
    # reference counts are not followed: an underflow is assumed not to happen
    if isinstance(m, Str) and m.v and 'rfc under flow' in m.v: return []
    ex.oblige(st, 'the fatal error is not reached', BoolVal(False), 'safety', e.get('l'))
    return []


def _rfc(ex, st, fn, this, args, e): return [(st, z3.Int('rfc!%d' % next(fresh_)))]


BI4['name:err'] = _err
BI4['name:rfc_inc_ovf'] = BI4['name:rfc_dec_ovf'] = _rfc
