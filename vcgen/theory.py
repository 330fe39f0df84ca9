"""Mathematical vocabulary of the contracts: finite sets of elements (sort S),
families of such sets (sort F), and the axioms that define every operation.

Axioms marked DEF are definitions of specification symbols (conservative);
axioms marked THEORY are elementary facts of finite sets / canonical diagrams."""
import z3
from z3 import (DeclareSort, Function, IntSort, BoolSort, RealSort, Const, Consts, ForAll,
                Implies, And, Or, Not, If, Int, Ints, MultiPattern, IntVal, BoolVal)

S = DeclareSort('S')
F = DeclareSort('F')
I, B, R = IntSort(), BoolSort(), RealSort()
N = Int('N_universe')

has = Function('has', S, I, B)
es = Const('es', S)
add = Function('add', S, I, S)
rem = Function('rem', S, I, S)
uni = Function('uni', S, S, S)
cap = Function('cap', S, S, S)
dif = Function('dif', S, S, S)
sub = Function('sub', S, S, B)
subw = Function('subw', S, S, I)
card = Function('card', S, I)
nth = Function('nth', S, I, I)
idx = Function('idx', S, I, I)
pre = Function('pre', S, I, S)

mem = Function('mem', S, F, B)
bot, top, null = Consts('bot top null', F)
fid = Function('fid', F, I)
famof = Function('famof', I, F)
topv = Function('topv', F, I)
topw = Function('topw', F, S)
dw = Function('dw', F, F, S)
funion = Function('funion', F, F, F)
fint = Function('fint', F, F, F)
fdiff = Function('fdiff', F, F, F)
onset = Function('onset', F, I, F)
onset0 = Function('onset0', F, I, F)
offset = Function('offset', F, I, F)
change = Function('change', F, I, F)
fpow = Function('fpow', I, I, F)        # all subsets of {a..b}

s, t, u = Consts('s t u', S)
a_, b_ = Consts('a_ b_', S)
f, g, h = Consts('f g h', F)
e, v, w, n, m = Ints('e v w n m')

AX = []     # (name, kind, expr, keysymbols)


def ax(name, kind, vars, body, *pats, keys=None):
    ps = [MultiPattern(*p) if isinstance(p, tuple) else p for p in pats]
    if keys is None:
        keys = []
        if pats:
            keys = [[d for d in decls(MultiPattern(*p) if isinstance(p, tuple) else p)] for p in pats]
        else:
            keys = [list(decls(body))]
    else:
        keys = [[k.decl().name() if not isinstance(k, z3.FuncDeclRef) else k.name() for k in ks] for ks in keys]
    expr = ForAll(vars, body, patterns=ps) if vars else body
    AX.append((name, kind, expr, keys))


_skip = None


def decls(x, seen=None):
    """names of uninterpreted symbols in x (excluding bound variables)"""
    out = set()
    todo = [x]
    done = set()
    while todo:
        y = todo.pop()
        if y.get_id() in done:
            continue
        done.add(y.get_id())
        if z3.is_quantifier(y):
            todo.append(y.body())
            for i in range(y.num_patterns()):
                todo.append(y.pattern(i))
            continue
        if z3.is_var(y):
            continue
        if z3.is_app(y):
            d = y.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and y.num_args() > 0:
                out.add(d.name())
            elif d.kind() == z3.Z3_OP_UNINTERPRETED and d.name() in ('bot', 'top', 'null', 'es'):
                out.add(d.name())
            todo.extend(y.children())
        elif hasattr(y, 'children'):
            todo.extend(y.children())
    return out


T, D = 'THEORY', 'DEF'
lev = Function('lev', I, I)
ax('lev', D, [v], lev(v) == If(v == 0, IntVal(0), N + 1 - v), lev(v))
VMAX = 65535        # bddvarmax of the library
# ---- sets
ax('es', D, [e], Not(has(es, e)), has(es, e))
ax('add', D, [s, v, e], has(add(s, v), e) == Or(e == v, has(s, e)), has(add(s, v), e), (add(s, v), has(s, e)))
ax('rem', D, [s, v, e], has(rem(s, v), e) == And(e != v, has(s, e)), has(rem(s, v), e), (rem(s, v), has(s, e)))
ax('addself', T, [s, v], has(add(s, v), v), add(s, v))
ax('uni', D, [s, t, e], has(uni(s, t), e) == Or(has(s, e), has(t, e)), has(uni(s, t), e), (uni(s, t), has(s, e)), (uni(s, t), has(t, e)))
ax('cap', D, [s, t, e], has(cap(s, t), e) == And(has(s, e), has(t, e)), has(cap(s, t), e), (cap(s, t), has(s, e)), (cap(s, t), has(t, e)))
ax('dif', D, [s, t, e], has(dif(s, t), e) == And(has(s, e), Not(has(t, e))), has(dif(s, t), e), (dif(s, t), has(s, e)))
ax('sub1', D, [s, t, e], Implies(And(sub(s, t), has(s, e)), has(t, e)), (sub(s, t), has(s, e)), (sub(s, t), has(t, e)))
ax('sub2', D, [s, t], Or(sub(s, t), And(has(s, subw(s, t)), Not(has(t, subw(s, t))))), sub(s, t))
ax('subeq', T, [s, t], Implies(And(sub(s, t), sub(t, s)), s == t), (sub(s, t), sub(t, s)))
ax('addrem', T, [s, v], If(has(s, v), add(rem(s, v), v) == s, rem(s, v) == s), rem(s, v))
ax('remadd', T, [s, v], If(has(s, v), add(s, v) == s, rem(add(s, v), v) == s), add(s, v))
dj = Function('dj', S, S, B)
dj_ = dj
ax('unicomm', T, [s, t], uni(s, t) == uni(t, s), uni(s, t))
ax('capcomm', T, [s, t], cap(s, t) == cap(t, s), cap(s, t))
ax('unies', T, [s], uni(s, es) == s, uni(s, es))
ax('capes', T, [s], cap(s, es) == es, cap(s, es))
ax('nonempty', T, [s], Or(s == es, has(s, nth(s, 0))), (card(s)), nth(s, 0))
# order / enumeration of a finite set
ax('card0', T, [s], And(card(s) >= 0, (card(s) == 0) == (s == es)), card(s))
ax('cardle', T, [s, f], Implies(mem(s, f), card(s) <= N), (card(s), mem(s, f)))
ax('nth', D, [s, n], Implies(And(0 <= n, n < card(s)), And(has(s, nth(s, n)), idx(s, nth(s, n)) == n)), nth(s, n))
ax('idx', D, [s, e], Implies(has(s, e), And(0 <= idx(s, e), idx(s, e) < card(s), nth(s, idx(s, e)) == e)), idx(s, e), (card(s), has(s, e)))
ax('nthmono', D, [s, n, m], Implies(And(0 <= n, n < m, m < card(s)), nth(s, n) < nth(s, m)), (nth(s, n), nth(s, m)))
ax('pre', D, [s, n, e], has(pre(s, n), e) == And(has(s, e), idx(s, e) < n), has(pre(s, n), e))
ax('pre0', T, [s], pre(s, 0) == es, pre(s, 0))
ax('pren', T, [s, n], Implies(n >= card(s), pre(s, n) == s), pre(s, n))
ax('pres', T, [s, n], Implies(And(0 <= n, n < card(s)), And(pre(s, n + 1) == add(pre(s, n), nth(s, n)), Not(has(pre(s, n), nth(s, n))))), pre(s, n + 1), (pre(s, n), nth(s, n)))
ax('cardadd', T, [s, v], card(add(s, v)) == If(has(s, v), card(s), card(s) + 1), card(add(s, v)), (card(s), add(s, v)))
ax('cardrem', T, [s, v], card(rem(s, v)) == If(has(s, v), card(s) - 1, card(s)), card(rem(s, v)), (card(s), rem(s, v)))
# ---- families
ax('bot', D, [s], Not(mem(s, bot)), mem(s, bot))
ax('top', D, [s], mem(s, top) == (s == es), mem(s, top))
ax('topin', T, [], mem(es, top), keys=[[top]])
ax('distinct', T, [], And(bot != top, bot != null, top != null), keys=[[bot], [top], [null]])
ax('N', T, [], And(N >= 1, N <= VMAX), keys=[[]])
for nm, op, fn in (('union', funion, lambda x, y: Or(x, y)), ('int', fint, lambda x, y: And(x, y)), ('diff', fdiff, lambda x, y: And(x, Not(y)))):
    ax('f' + nm, D, [s, f, g], mem(s, op(f, g)) == fn(mem(s, f), mem(s, g)), mem(s, op(f, g)), (op(f, g), mem(s, f)), (op(f, g), mem(s, g)))
ax('offset', D, [s, f, v], mem(s, offset(f, v)) == And(mem(s, f), Not(has(s, v))), mem(s, offset(f, v)), (offset(f, v), mem(s, f)))
ax('onset', D, [s, f, v], mem(s, onset(f, v)) == And(mem(s, f), has(s, v)), mem(s, onset(f, v)), (onset(f, v), mem(s, f)))
ax('onset0', D, [s, f, v], mem(s, onset0(f, v)) == And(Not(has(s, v)), mem(add(s, v), f)), mem(s, onset0(f, v)))
ax('onset0u', T, [s, f, v], Implies(has(s, v), mem(rem(s, v), onset0(f, v)) == mem(s, f)), (onset0(f, v), mem(s, f)))
tog = lambda s, v: If(has(s, v), rem(s, v), add(s, v))
ax('change', D, [s, f, v], Implies(And(1 <= v, v <= N), mem(s, change(f, v)) == If(has(s, v), mem(rem(s, v), f), mem(add(s, v), f))), mem(s, change(f, v)))
ax('changeu', T, [s, f, v], Implies(And(1 <= v, v <= N), If(has(s, v), mem(rem(s, v), change(f, v)), mem(add(s, v), change(f, v))) == mem(s, f)), (change(f, v), mem(s, f)))
# canonical diagrams: levels, roots, identifiers
ax('elemrange', T, [s, f, e], Implies(And(mem(s, f), has(s, e)), And(1 <= e, e <= N, e >= topv(f), topv(f) > 0)), (mem(s, f), has(s, e)))
ax('topv', T, [f], And(topv(f) >= 0, topv(f) <= N, (topv(f) == 0) == Or(f == bot, f == top, f == null),
   Implies(topv(f) > 0, And(mem(topw(f), f), has(topw(f), topv(f))))), topv(f))
ax('fid', T, [f], famof(fid(f)) == f, fid(f))
NONNULL_OPS = []

anyw = Function('anyw', F, S)
bigw = Function('bigw', F, S)
ax('bigw', T, [f, s], Implies(mem(s, f), And(mem(bigw(f), f), card(s) <= card(bigw(f)))), (mem(s, f), bigw(f)))
ax('cardsub', T, [s, t], Implies(And(dj_(s, t)), card(uni(s, t)) == card(s) + card(t)), card(uni(s, t)))
# ---- specification symbols (what each operation must compute).  RAW axioms
# define them; code obligations use the LEMMAs, which are proved from RAW.
LEM = {}        # name -> (vars, body, hints)


def raw(name, vars, body, *pats): ax(name, 'RAW', vars, body, *pats)


ONLY = set()


def lemma(name, vars, body, *pats, hints=(), ext=(), using=(), only=False):
    """a fact proved (once per run) from the axioms; usable in code obligations"""
    if only: ONLY.add(name)
    ax(name, 'LEMMA', vars, body, *pats)
    LEM[name] = (vars, body, list(hints), list(ext), list(using))


def feq(a, b): return dw(a, b)


topin = mem(es, top)
# cofactors of a diagram that does not depend on v
lemma('absent', [f, v], Implies(And(f != null, 1 <= v, v <= N, Or(topv(f) == 0, v < topv(f))), And(offset(f, v) == f, onset0(f, v) == bot, onset(f, v) == bot)),
      offset(f, v), onset0(f, v), ext=[(offset(f, v), f), (onset0(f, v), bot), (onset(f, v), bot)])
lemma('topvoff', [f, v], Implies(And(f != null, v == topv(f)), Or(topv(offset(f, v)) == 0, topv(offset(f, v)) > v)), offset(f, v))
lemma('topvon0', [f, v], Implies(And(f != null, v == topv(f)), And(Or(topv(onset0(f, v)) == 0, topv(onset0(f, v)) > v), Implies(v > 0, onset0(f, v) != bot))), onset0(f, v),
      hints=[mem(rem(topw(f), v), onset0(f, v))])
ax('botempty', T, [f], Or(f == bot, f == null, mem(anyw(f), f)), mem(anyw(f), f))


# some member of g is a subset (superset) of s
exsub = Function('exsub', S, F, B)
exsubw = Function('exsubw', S, F, S)
exsup = Function('exsup', S, F, B)
exsupw = Function('exsupw', S, F, S)
raw('exsub1', [s, g], Implies(exsub(s, g), And(mem(exsubw(s, g), g), sub(exsubw(s, g), s))), exsub(s, g))
raw('exsub2', [s, t, g], Implies(And(mem(t, g), sub(t, s)), exsub(s, g)), (exsub(s, g), mem(t, g)))
raw('exsup1', [s, g], Implies(exsup(s, g), And(mem(exsupw(s, g), g), sub(s, exsupw(s, g)))), exsup(s, g))
raw('exsup2', [s, t, g], Implies(And(mem(t, g), sub(s, t)), exsup(s, g)), (exsup(s, g), mem(t, g)))
wsub = lambda x, y: exsubw(x, y)
lemma('exsub_0', [s, g, v], Implies(Not(has(s, v)), exsub(s, g) == exsub(s, offset(g, v))), (exsub(s, g), offset(g, v)))
lemma('exsub_1', [s, g, v], Implies(has(s, v), exsub(s, g) == Or(exsub(rem(s, v), offset(g, v)), exsub(rem(s, v), onset0(g, v)))), (exsub(s, g), offset(g, v)), (exsub(s, g), onset0(g, v)),
      hints=[mem(rem(exsubw(s, g), v), onset0(g, v)), mem(rem(exsubw(s, g), v), offset(g, v)), mem(add(exsubw(rem(s, v), onset0(g, v)), v), g), mem(exsubw(rem(s, v), offset(g, v)), g)])
lemma('exsub_f', [s, g, v], Implies(And(1 <= v, v <= N, Or(topv(g) == 0, lev(v) > lev(topv(g)))), exsub(rem(s, v), g) == exsub(s, g)), exsub(rem(s, v), g),
      hints=[has(exsubw(s, g), v), lev(v), mem(exsubw(s, g), g), sub(exsubw(s, g), rem(s, v)), subw(exsubw(s, g), rem(s, v))])
lemma('exsub_u', [s, f, g], exsub(s, funion(f, g)) == Or(exsub(s, f), exsub(s, g)), exsub(s, funion(f, g)), hints=[mem(exsubw(s, f), funion(f, g)), mem(exsubw(s, g), funion(f, g))])
lemma('exsub_c', [s, g], And(Not(exsub(s, bot)), exsub(s, top), Implies(mem(es, g), exsub(s, g)), Implies(mem(s, g), exsub(s, g)), exsub(es, g) == mem(es, g)), exsub(s, g), hints=[mem(es, top), exsub(es, g), sub(exsubw(es, g), es), sub(es, exsubw(es, g))])
lemma('exsup_1', [s, g, v], Implies(has(s, v), exsup(s, g) == exsup(rem(s, v), onset0(g, v))), (exsup(s, g), onset0(g, v)),
      hints=[mem(rem(exsupw(s, g), v), onset0(g, v)), mem(add(exsupw(rem(s, v), onset0(g, v)), v), g)])
lemma('exsup_0', [s, g, v], Implies(Not(has(s, v)), exsup(s, g) == Or(exsup(s, offset(g, v)), exsup(s, onset0(g, v)))), (exsup(s, g), offset(g, v)), (exsup(s, g), onset0(g, v)),
      hints=[mem(rem(exsupw(s, g), v), onset0(g, v)), mem(exsupw(s, g), offset(g, v)), mem(add(exsupw(s, onset0(g, v)), v), g), mem(exsupw(s, offset(g, v)), g)])
lemma('exsup_u', [s, f, g], exsup(s, funion(f, g)) == Or(exsup(s, f), exsup(s, g)), exsup(s, funion(f, g)), hints=[mem(exsupw(s, f), funion(f, g)), mem(exsupw(s, g), funion(f, g))])
lemma('exsup_c', [s, g], And(Not(exsup(s, bot)), exsup(s, top) == (s == es), Implies(mem(s, g), exsup(s, g))), exsup(s, g), hints=[mem(es, top), has(s, nth(s, 0)), sub(es, es)])
lemma('exsup_e', [g], Implies(And(g != bot, g != null), exsup(es, g)), exsup(es, g), hints=[mem(anyw(g), g)], using=['botempty'])

SPEC = {}


def spec2(name, body):
    fn = Function(name, F, F, F)
    ax(name, D, [s, f, g], mem(s, fn(f, g)) == body(s, f, g), mem(s, fn(f, g)), (fn(f, g), mem(s, f)))
    SPEC[name] = fn
    return fn


restrict_ = spec2('restrict', lambda s, f, g: And(mem(s, f), exsub(s, g)))
permit_ = spec2('permit', lambda s, f, g: And(mem(s, f), exsup(s, g)))
nonsub_ = spec2('nonsub', lambda s, f, g: And(mem(s, f), Not(exsup(s, g))))
nonsup_ = spec2('nonsup', lambda s, f, g: And(mem(s, f), Not(exsub(s, g))))

permitsym_ = Function('permitsym', F, I, F)
ax('permitsym', D, [s, f, n], mem(s, permitsym_(f, n)) == And(mem(s, f), card(s) <= n), mem(s, permitsym_(f, n)), (permitsym_(f, n), mem(s, f)))

# join / meet
raw('uniadd', [s, t, v], And(uni(add(s, v), t) == add(uni(s, t), v), uni(t, add(s, v)) == add(uni(s, t), v)), uni(add(s, v), t), uni(t, add(s, v)))
raw('unirem', [s, t, v], rem(uni(s, t), v) == uni(rem(s, v), rem(t, v)), rem(uni(s, t), v), uni(rem(s, v), rem(t, v)))
raw('capadd', [s, t, v], cap(add(s, v), add(t, v)) == add(cap(s, t), v), cap(add(s, v), add(t, v)))
raw('capadd1', [s, t, v], Implies(Not(has(t, v)), And(cap(add(s, v), t) == cap(s, t), cap(t, add(s, v)) == cap(s, t))), cap(add(s, v), t), cap(t, add(s, v)))
raw('caprem', [s, t, v], rem(cap(s, t), v) == cap(rem(s, v), rem(t, v)), rem(cap(s, t), v), cap(rem(s, v), rem(t, v)))
raw('caprem1', [s, t, v], Implies(Not(has(cap(s, t), v)), cap(s, t) == cap(rem(s, v), rem(t, v))), cap(rem(s, v), rem(t, v)))
join_ = Function('join', F, F, F)
ja, jb = Function('ja', S, F, F, S), Function('jb', S, F, F, S)
raw('join1', [s, f, g], Implies(mem(s, join_(f, g)), And(mem(ja(s, f, g), f), mem(jb(s, f, g), g), s == uni(ja(s, f, g), jb(s, f, g)))), mem(s, join_(f, g)))
raw('join2', [s, t, f, g], Implies(And(mem(s, f), mem(t, g)), mem(uni(s, t), join_(f, g))), mem(uni(s, t), join_(f, g)))
meet_ = Function('meet', F, F, F)
ma, mb = Function('ma', S, F, F, S), Function('mb', S, F, F, S)
raw('meet1', [s, f, g], Implies(mem(s, meet_(f, g)), And(mem(ma(s, f, g), f), mem(mb(s, f, g), g), s == cap(ma(s, f, g), mb(s, f, g)))), mem(s, meet_(f, g)))
raw('meet2', [s, t, f, g], Implies(And(mem(s, f), mem(t, g)), mem(cap(s, t), meet_(f, g))), mem(cap(s, t), meet_(f, g)))


def cofs(f, v): return onset0(f, v), offset(f, v)


def cof2(op, name, on, off, wa, wb, comb, **kw):
    """cofactor lemma of a binary operation, with the hint terms of its proof"""
    f1, f0 = cofs(f, v); g1, g0 = cofs(g, v)
    P = [(f1, g1), (f1, g0), (f0, g1), (f0, g0)]
    pats = [(mem(s, op(f, g)), x) for x in (f1, f0, g1, g0)]
    A, Bw = wa(s, f, g), wb(s, f, g)
    rs = rem(s, v)
    # down: the witnesses' cofactors; up: the witnesses of the cofactor problems
    down = [mem(comb(x, y), op(p, q)) for (p, q), (x, y) in zip(P, [(rem(A, v), rem(Bw, v)), (rem(A, v), Bw), (A, rem(Bw, v)), (A, Bw)])]
    for k, cond in enumerate((has(s, v), Not(has(s, v)))):
        pairs = (on if k == 0 else off)(P)
        tgt = rs if k == 0 else s
        rhs = Or([mem(tgt, op(p, q)) for p, q in pairs])
        for q_, (p, q) in enumerate(pairs):
            x, y = wa(tgt, p, q), wb(tgt, p, q)
            X = add(x, v) if p.eq(f1) else x
            Y = add(y, v) if q.eq(g1) else y
            lemma('%s_%d_up%d' % (name, k, q_), [s, f, g, v], Implies(And(f != null, g != null, cond, mem(tgt, op(p, q))), mem(s, op(f, g))), *pats, hints=[mem(comb(X, Y), op(f, g)), comb(x, y) == tgt, add(rs, v)])
        lemma('%s_%d_down' % (name, k), [s, f, g, v], Implies(And(f != null, g != null, cond, mem(s, op(f, g))), rhs), *pats, hints=down + [mem(rem(A, v), f1), mem(rem(Bw, v), g1), mem(A, f0), mem(Bw, g0), rem(s, v), rem(comb(A, Bw), v)])


cof2(join_, 'join', lambda P: P[:3], lambda P: P[3:], ja, jb, uni)
cof2(meet_, 'meet', lambda P: P[:1], lambda P: P[1:], ma, mb, cap)
lemma('join_b', [f], And(join_(f, bot) == bot, join_(bot, f) == bot), join_(f, bot), join_(bot, f), ext=[(join_(f, bot), bot), (join_(bot, f), bot)])
lemma('join_t', [f], Implies(f != null, And(join_(f, top) == f, join_(top, f) == f)), join_(f, top), join_(top, f), ext=[(join_(f, top), f), (join_(top, f), f)],
      hints=[mem(uni(dw(join_(f, top), f), es), join_(f, top)), mem(uni(es, dw(join_(top, f), f)), join_(top, f))])
lemma('join_c', [f, g], join_(f, g) == join_(g, f), join_(f, g), ext=[(join_(f, g), join_(g, f))],
      hints=[mem(uni(jb(dw(join_(f, g), join_(g, f)), f, g), ja(dw(join_(f, g), join_(g, f)), f, g)), join_(g, f)), mem(uni(jb(dw(join_(f, g), join_(g, f)), g, f), ja(dw(join_(f, g), join_(g, f)), g, f)), join_(f, g))])
lemma('meet_b', [f], And(meet_(f, bot) == bot, meet_(bot, f) == bot), meet_(f, bot), meet_(bot, f), ext=[(meet_(f, bot), bot), (meet_(bot, f), bot)])
lemma('meet_t', [f], Implies(And(f != null, f != bot), And(meet_(f, top) == top, meet_(top, f) == top)), meet_(f, top), meet_(top, f), ext=[(meet_(f, top), top), (meet_(top, f), top)],
      hints=[mem(cap(anyw(f), es), meet_(f, top)), mem(cap(es, anyw(f)), meet_(top, f)), mem(anyw(f), f)], using=['botempty'])
lemma('meet_c', [f, g], meet_(f, g) == meet_(g, f), meet_(f, g), ext=[(meet_(f, g), meet_(g, f))],
      hints=[mem(cap(mb(dw(meet_(f, g), meet_(g, f)), f, g), ma(dw(meet_(f, g), meet_(g, f)), f, g)), meet_(g, f)), mem(cap(mb(dw(meet_(f, g), meet_(g, f)), g, f), ma(dw(meet_(f, g), meet_(g, f)), g, f)), meet_(f, g))])

# weak division
djw = Function('djw', S, S, I)
raw('dj1', [s, t, e], Implies(And(dj(s, t), has(s, e)), Not(has(t, e))), (dj(s, t), has(s, e)), (dj(s, t), has(t, e)))
raw('dj2', [s, t], Or(dj(s, t), And(has(s, djw(s, t)), has(t, djw(s, t)))), dj(s, t))
quo_ = Function('quo', F, F, F)
quow = Function('quow', S, F, F, S)
raw('quo1', [s, t, f, g], Implies(And(mem(s, quo_(f, g)), mem(t, g)), And(dj(s, t), mem(uni(s, t), f))), (mem(s, quo_(f, g)), mem(t, g)))
raw('quo2', [s, f, g], Or(g == bot, g == null, mem(s, quo_(f, g)), And(mem(quow(s, f, g), g), Or(Not(dj(s, quow(s, f, g))), Not(mem(uni(s, quow(s, f, g)), f))))), mem(s, quo_(f, g)))
_f1, _f0 = cofs(f, v); _g1, _g0 = cofs(g, v)
_qp = [(mem(s, quo_(f, g)), x) for x in (_f1, _f0, _g1, _g0)]
_q1 = quow(s, _f1, _g1); _q0 = quow(s, _f0, _g0); _q = quow(s, f, g); _qr = quow(rem(s, v), _f1, _g0)
_vr = And(1 <= v, v <= N, f != null, g != null, g != bot)
lemma('quo_in', [s, f, g, v], Implies(And(_vr, mem(s, quo_(f, g)), _g1 != bot), And(Not(has(s, v)), mem(s, quo_(_f1, _g1)))), *_qp, using=['botempty'],
      hints=[mem(anyw(_g1), _g1), mem(add(anyw(_g1), v), g), mem(add(_q1, v), g), mem(uni(s, _q1), _f1), add(uni(s, _q1), v), uni(s, add(_q1, v))])
lemma('quo_in0', [s, f, g, v], Implies(And(_vr, mem(s, quo_(f, g)), Not(has(s, v)), _g0 != bot), mem(s, quo_(_f0, _g0))), *_qp, using=['botempty'],
      hints=[mem(_q0, g), mem(uni(s, _q0), _f0)])
lemma('quo_inr', [s, f, g, v], Implies(And(_vr, mem(s, quo_(f, g)), has(s, v), _g1 == bot), mem(rem(s, v), quo_(_f1, _g0))), *_qp, using=['botempty'],
      hints=[mem(_qr, g), mem(_qr, _g0), mem(uni(s, _qr), f), mem(rem(uni(s, _qr), v), _f1), mem(uni(rem(s, v), _qr), _f1), rem(_qr, v)])
lemma('quo_out', [s, f, g, v], Implies(And(_vr, Or(_g1 == bot, mem(s, quo_(_f1, _g1))), Or(_g0 == bot, mem(s, quo_(_f0, _g0))), Not(has(s, v))), mem(s, quo_(f, g))), *_qp, using=['botempty'],
      hints=[mem(rem(_q, v), _g1), mem(_q, _g0), mem(uni(s, rem(_q, v)), _f1), mem(uni(s, _q), _f0), add(uni(s, rem(_q, v)), v), mem(uni(s, _q), f), uni(s, add(rem(_q, v), v))])
lemma('quo_outr', [s, f, g, v], Implies(And(_vr, _g1 == bot, has(s, v), mem(rem(s, v), quo_(_f1, _g0))), mem(s, quo_(f, g))), *_qp, using=['botempty'],
      hints=[mem(rem(_q, v), _g1), mem(_q, _g0), mem(uni(rem(s, v), _q), _f1), mem(add(uni(rem(s, v), _q), v), f), uni(s, _q), uni(add(rem(s, v), v), _q), mem(uni(s, _q), f)])
lemma('quo_t', [f], Implies(f != null, quo_(f, top) == f), quo_(f, top), ext=[(quo_(f, top), f)], hints=[mem(es, top), mem(uni(dw(quo_(f, top), f), es), f), dj(dw(quo_(f, top), f), es)])
lemma('quo_s', [f], Implies(And(f != null, f != bot), mem(es, quo_(f, f))), quo_(f, f), hints=[mem(uni(es, quow(es, f, f)), f), uni(quow(es, f, f), es), mem(es, quo_(f, f))])
lemma('quo_s2', [s, f], Implies(And(f != null, f != bot, mem(s, quo_(f, f))), s == es), mem(s, quo_(f, f)), using=['botempty'],
      hints=[mem(bigw(f), f), mem(uni(s, bigw(f)), f), card(uni(s, bigw(f)))])
lemma('quo_b', [g], Implies(And(g != null, g != bot), quo_(bot, g) == bot), quo_(bot, g), using=['botempty'], ext=[(quo_(bot, g), bot)], hints=[mem(anyw(g), g)])

# minimal / maximal members
minimal_ = Function('minimal', F, F)
minw = Function('minw', S, F, S)
mind = Function('mind', S, F, S)
raw('min1', [s, t, f], Implies(And(mem(s, minimal_(f)), mem(t, f), sub(t, s)), t == s), (mem(s, minimal_(f)), mem(t, f)))
raw('min2', [s, f], Implies(mem(s, minimal_(f)), mem(s, f)), mem(s, minimal_(f)))
raw('min3', [s, f], Or(mem(s, minimal_(f)), Not(mem(s, f)), And(mem(minw(s, f), f), sub(minw(s, f), s), minw(s, f) != s)), mem(s, minimal_(f)), (minimal_(f), mem(s, f)))
raw('mindom', [s, f], Implies(mem(s, f), And(mem(mind(s, f), minimal_(f)), sub(mind(s, f), s))), (mem(s, f), minimal_(f)))
maximal_ = Function('maximal', F, F)
maxw = Function('maxw', S, F, S)
maxd = Function('maxd', S, F, S)
raw('max1', [s, t, f], Implies(And(mem(s, maximal_(f)), mem(t, f), sub(s, t)), t == s), (mem(s, maximal_(f)), mem(t, f)))
raw('max2', [s, f], Implies(mem(s, maximal_(f)), mem(s, f)), mem(s, maximal_(f)))
raw('max3', [s, f], Or(mem(s, maximal_(f)), Not(mem(s, f)), And(mem(maxw(s, f), f), sub(s, maxw(s, f)), maxw(s, f) != s)), mem(s, maximal_(f)), (maximal_(f), mem(s, f)))
raw('maxdom', [s, f], Implies(mem(s, f), And(mem(maxd(s, f), maximal_(f)), sub(s, maxd(s, f)))), (mem(s, f), maximal_(f)))
lemma('exsub_m', [s, f], exsub(s, minimal_(f)) == exsub(s, f), exsub(s, minimal_(f)), (exsub(s, f), minimal_(f)), hints=[mem(exsubw(s, f), f), mem(mind(exsubw(s, f), f), minimal_(f)), sub(mind(exsubw(s, f), f), s), mem(exsubw(s, minimal_(f)), f)])
lemma('exsup_m', [s, f], exsup(s, maximal_(f)) == exsup(s, f), exsup(s, maximal_(f)), (exsup(s, f), maximal_(f)), hints=[mem(exsupw(s, f), f), mem(maxd(exsupw(s, f), f), maximal_(f)), sub(s, maxd(exsupw(s, f), f)), mem(exsupw(s, maximal_(f)), f)])
_mp = [(mem(s, minimal_(f)), x) for x in (_f1, _f0)]
_rs = rem(s, v)
_wE = exsubw(_rs, _f0); _wM = minw(_rs, _f1)
lemma('min_1', [s, f, v], Implies(And(f != null, has(s, v)), mem(s, minimal_(f)) == And(mem(_rs, minimal_(_f1)), Not(exsub(_rs, _f0)))), *_mp,
      hints=[mem(_wE, f), sub(_wE, s), mem(add(_wM, v), f), sub(add(_wM, v), s), mem(_rs, _f1), mem(rem(minw(s, f), v), _f1), mem(minw(s, f), _f0), sub(rem(minw(s, f), v), _rs), sub(minw(s, f), _rs), rem(add(_wM, v), v), exsub(_rs, _f0)])
lemma('min_0', [s, f, v], Implies(And(f != null, Not(has(s, v))), mem(s, minimal_(f)) == mem(s, minimal_(_f0))), *_mp,
      hints=[mem(minw(s, f), _f0), mem(minw(s, _f0), f), mem(s, _f0)])
_xp = [(mem(s, maximal_(f)), x) for x in (_f1, _f0)]
_xM = maxw(_rs, _f1); _xE = exsupw(s, _f1)
lemma('max_1', [s, f, v], Implies(And(f != null, has(s, v)), mem(s, maximal_(f)) == mem(_rs, maximal_(_f1))), *_xp,
      hints=[mem(add(_xM, v), f), sub(s, add(_xM, v)), mem(rem(maxw(s, f), v), _f1), sub(_rs, rem(maxw(s, f), v)), mem(_rs, _f1), rem(add(_xM, v), v)])
lemma('max_0', [s, f, v], Implies(And(f != null, Not(has(s, v))), mem(s, maximal_(f)) == And(mem(s, maximal_(_f0)), Not(exsup(s, _f1)))), *_xp,
      hints=[mem(add(_xE, v), f), sub(s, add(_xE, v)), mem(rem(maxw(s, f), v), _f1), mem(maxw(s, f), _f0), sub(s, rem(maxw(s, f), v)), mem(s, _f0), mem(maxw(s, _f0), f), exsup(s, _f1)])
lemma('min_c', [s], And(mem(s, minimal_(bot)) == BoolVal(False), mem(s, minimal_(top)) == (s == es)), mem(s, minimal_(bot)), mem(s, minimal_(top)), hints=[mem(es, top)])
lemma('max_c', [s], And(mem(s, maximal_(bot)) == BoolVal(False), mem(s, maximal_(top)) == (s == es)), mem(s, maximal_(bot)), mem(s, maximal_(top)), hints=[mem(es, top)])

# reconfiguration steps
rsome_ = Function('rsome', F, F)
rsw = Function('rsw', S, F, I)
raw('rsome1', [s, f], Implies(mem(s, rsome_(f)), And(Not(has(s, rsw(s, f))), mem(add(s, rsw(s, f)), f))), mem(s, rsome_(f)))
raw('rsome2', [s, f, e], Implies(And(mem(s, f), has(s, e)), mem(rem(s, e), rsome_(f))), (rsome_(f), mem(s, f), has(s, e)), mem(rem(s, e), rsome_(f)))
# add (resp. exchange for) an element whose level lies in lower..n
inr = lambda e, n, m: And(1 <= e, e <= N, lev(e) >= m, lev(e) <= n)
asome_ = Function('asome', F, I, I, F)
asw = Function('asw', S, F, I, I, I)
raw('asome1', [s, f, n, m], Implies(mem(s, asome_(f, n, m)), And(has(s, asw(s, f, n, m)), inr(asw(s, f, n, m), n, m), mem(rem(s, asw(s, f, n, m)), f))), mem(s, asome_(f, n, m)))
raw('asome2', [s, f, n, m, e], Implies(And(has(s, e), mem(rem(s, e), f), inr(e, n, m)), mem(s, asome_(f, n, m))), (mem(s, asome_(f, n, m)), mem(rem(s, e), f)))
ssome_ = Function('ssome', F, I, I, F)
ssa, ssr = Function('ssa', S, F, I, I, I), Function('ssr', S, F, I, I, I)   # added, removed
_r = Int('r')
raw('ssome1', [s, f, n, m], Implies(mem(s, ssome_(f, n, m)), And(has(s, ssa(s, f, n, m)), inr(ssa(s, f, n, m), n, m), Not(has(s, ssr(s, f, n, m))),
   mem(add(rem(s, ssa(s, f, n, m)), ssr(s, f, n, m)), f))), mem(s, ssome_(f, n, m)))
raw('ssome2', [s, f, n, m, e, _r], Implies(And(has(s, e), inr(e, n, m), Not(has(s, _r)), mem(add(rem(s, e), _r), f)), mem(s, ssome_(f, n, m))), (mem(s, ssome_(f, n, m)), mem(add(rem(s, e), _r), f)))
raw('addremc', [s, v, e], And(Implies(v != e, rem(add(s, v), e) == add(rem(s, e), v)), rem(rem(s, v), e) == rem(rem(s, e), v)), rem(add(s, v), e), rem(rem(s, v), e))
raw('addaddc', [s, v, e], add(add(s, v), e) == add(add(s, e), v), add(add(s, v), e))
_rw = rsw(s, f)
_rp = [(mem(s, rsome_(f)), x) for x in (_f1, _f0)]
lemma('rs_1', [s, f, v], Implies(And(f != null, has(s, v)), mem(s, rsome_(f)) == mem(_rs, rsome_(_f1))), *_rp,
      hints=[rem(add(s, _rw), v), mem(rem(add(s, _rw), v), _f1), mem(rem(add(_rs, _rw), _rw), rsome_(_f1)), mem(add(add(_rs, rsw(_rs, _f1)), v), f), add(add(_rs, v), rsw(_rs, _f1)), mem(rem(add(s, rsw(_rs, _f1)), rsw(_rs, _f1)), rsome_(f)), mem(add(s, rsw(_rs, _f1)), f), mem(add(_rs, _rw), _f1)])
lemma('rs_0', [s, f, v], Implies(And(f != null, Not(has(s, v))), mem(s, rsome_(f)) == Or(mem(s, rsome_(_f0)), mem(s, _f1))), *_rp,
      hints=[mem(add(s, _rw), _f0), mem(rem(add(s, _rw), _rw), rsome_(_f0)), mem(add(s, v), f), mem(rem(add(s, v), v), rsome_(f)), mem(s, _f1), mem(add(s, rsw(s, _f0)), f), mem(rem(add(s, rsw(s, _f0)), rsw(s, _f0)), rsome_(f))])
lemma('rs_c', [s], And(Not(mem(s, rsome_(bot))), Not(mem(s, rsome_(top)))), mem(s, rsome_(bot)), mem(s, rsome_(top)))
_ap = [(mem(s, asome_(f, n, m)), x) for x in (_f1, _f0)] + [(mem(s, asome_(f, n, m)), has(s, v))]
_aw = asw(s, f, n, m); _aw1 = asw(_rs, _f1, n - 1, m); _aw0 = asw(s, _f0, n - 1, m)
_lv = And(f != null, 1 <= v, v <= N, lev(v) == n, n >= m)
lemma('as_1', [s, f, v, n, m], Implies(And(_lv, has(s, v)), mem(s, asome_(f, n, m)) == Or(mem(_rs, _f0), mem(_rs, asome_(_f1, n - 1, m)))), *_ap,
      hints=[mem(rem(s, v), f), mem(rem(rem(s, _aw), v), _f1), mem(rem(rem(s, v), _aw), _f1), mem(rem(_rs, _aw1), _f1), mem(add(rem(_rs, _aw1), v), f), mem(rem(s, _aw1), f), rem(add(_rs, v), _aw1), lev(_aw), lev(_aw1)])
lemma('as_0', [s, f, v, n, m], Implies(And(_lv, Not(has(s, v))), mem(s, asome_(f, n, m)) == mem(s, asome_(_f0, n - 1, m))), *_ap,
      hints=[mem(rem(s, _aw), _f0), mem(rem(s, _aw0), f), lev(_aw), lev(_aw0)])
lemma('as_e', [s, f, n, m], And(Implies(Or(n < m, n <= 0), Not(mem(s, asome_(f, n, m)))), Not(mem(s, asome_(bot, n, m)))), mem(s, asome_(f, n, m)), hints=[lev(_aw)])
_sp = [(mem(s, ssome_(f, n, m)), x) for x in (_f1, _f0)] + [(mem(s, ssome_(f, n, m)), has(s, v))]
_sa, _sr = ssa(s, f, n, m), ssr(s, f, n, m)
_sa1, _sr1 = ssa(_rs, _f1, n - 1, m), ssr(_rs, _f1, n - 1, m)
_sa0, _sr0 = ssa(s, _f0, n - 1, m), ssr(s, _f0, n - 1, m)
_rr0 = rsw(_rs, _f0); _awf1 = asw(s, _f1, n - 1, m)
lemma('ss_1', [s, f, v, n, m], Implies(And(_lv, has(s, v)), mem(s, ssome_(f, n, m)) == Or(mem(_rs, rsome_(_f0)), mem(_rs, ssome_(_f1, n - 1, m)))), *_sp,
      hints=[lev(_sa), lev(_sa1), mem(add(rem(s, _sa), _sr), f), mem(add(_rs, _sr), _f0), mem(rem(add(_rs, _sr), _sr), rsome_(_f0)),
             mem(rem(add(rem(s, _sa), _sr), v), _f1), mem(add(rem(_rs, _sa), _sr), _f1), add(rem(rem(s, _sa), v), _sr), rem(rem(s, v), _sa),
             mem(add(add(rem(_rs, _sa1), _sr1), v), f), mem(add(rem(s, _sa1), _sr1), f), add(add(rem(_rs, _sa1), v), _sr1), rem(add(_rs, v), _sa1),
             mem(add(rem(s, v), _rr0), f), mem(add(_rs, _rr0), _f0)])
lemma('ss_0', [s, f, v, n, m], Implies(And(_lv, Not(has(s, v))), mem(s, ssome_(f, n, m)) == Or(mem(s, ssome_(_f0, n - 1, m)), mem(s, asome_(_f1, n - 1, m)))), *_sp,
      hints=[lev(_sa), lev(_sa0), lev(_awf1), mem(add(rem(s, _sa), _sr), _f0), mem(rem(add(rem(s, _sa), _sr), v), _f1), mem(rem(s, _sa), _f1), mem(add(rem(s, _sa0), _sr0), f), mem(add(rem(s, _awf1), v), f), mem(rem(s, _awf1), _f1), rem(add(rem(s, _sa), v), v)])
lemma('ss_e', [s, f, n, m], And(Implies(Or(n < m, n <= 0), Not(mem(s, ssome_(f, n, m)))), Not(mem(s, ssome_(bot, n, m))), Not(mem(s, ssome_(top, n, m)))), mem(s, ssome_(f, n, m)), hints=[lev(_sa)])

# which elements can occur in a result
vfree = Function('vfree', F, I, B)      # no member of f contains v
vfw = Function('vfw', F, I, S)
ax('vfree1', D, [f, v], Or(vfree(f, v), And(mem(vfw(f, v), f), has(vfw(f, v), v))), vfree(f, v))
ax('vfree2', D, [f, v, s], Implies(And(vfree(f, v), mem(s, f)), Not(has(s, v))), (vfree(f, v), mem(s, f)))
lemma('min_sub', [s, f], Implies(mem(s, minimal_(f)), mem(s, f)), mem(s, minimal_(f)))
lemma('max_sub', [s, f], Implies(mem(s, maximal_(f)), mem(s, f)), mem(s, maximal_(f)))
lemma('sup_join', [s, f, g, v], Implies(And(vfree(f, v), vfree(g, v), mem(s, join_(f, g))), Not(has(s, v))), (mem(s, join_(f, g)), has(s, v)))
lemma('sup_meet', [s, f, g, v], Implies(And(Or(vfree(f, v), vfree(g, v)), mem(s, meet_(f, g))), Not(has(s, v))), (mem(s, meet_(f, g)), has(s, v)))
lemma('sup_quo', [s, f, g, v], Implies(And(vfree(f, v), g != bot, g != null, mem(s, quo_(f, g))), Not(has(s, v))), (mem(s, quo_(f, g)), has(s, v)), using=['botempty'], hints=[mem(anyw(g), g), has(uni(s, anyw(g)), v)])
lemma('sup_rs', [s, f, v], Implies(And(vfree(f, v), mem(s, rsome_(f))), Not(has(s, v))), (mem(s, rsome_(f)), has(s, v)), hints=[has(add(s, rsw(s, f)), v)])
lemma('sup_as', [s, f, v, n, m], Implies(And(vfree(f, v), lev(v) > n, mem(s, asome_(f, n, m))), Not(has(s, v))), (mem(s, asome_(f, n, m)), has(s, v)), hints=[has(rem(s, asw(s, f, n, m)), v)])
lemma('sup_ss', [s, f, v, n, m], Implies(And(vfree(f, v), lev(v) > n, mem(s, ssome_(f, n, m))), Not(has(s, v))), (mem(s, ssome_(f, n, m)), has(s, v)), hints=[has(add(rem(s, ssa(s, f, n, m)), ssr(s, f, n, m)), v)])
# families built from elements and sets
fone_ = Function('fone', S, F)          # {s}
uok = Function('uok', S, B); uokw = Function('uokw', S, I)      # all elements belong to the universe
ax('uok1', D, [s, e], Implies(And(uok(s), has(s, e)), And(1 <= e, e <= N)), (uok(s), has(s, e)))
ax('uok2', D, [s], Or(uok(s), And(has(s, uokw(s)), Not(And(1 <= uokw(s), uokw(s) <= N)))), uok(s))
ax('fone', D, [s, t], mem(t, fone_(s)) == And(t == s, uok(s)), mem(t, fone_(s)))
ax('foneself', T, [s], Implies(uok(s), mem(s, fone_(s))), fone_(s))
_sg = change(top, v)
ax('singl', T, [s, v], Implies(And(1 <= v, v <= N), mem(s, change(top, v)) == (s == add(es, v))), mem(s, change(top, v)))
ax('uniadd1', T, [s, v], And(uni(s, add(es, v)) == add(s, v), uni(add(es, v), s) == add(s, v)), uni(s, add(es, v)), uni(add(es, v), s))
ax('remself', T, [s, v], Implies(Not(has(s, v)), rem(s, v) == s), rem(s, v))
lemma('fone_sg', [v], Implies(And(1 <= v, v <= N), fone_(add(es, v)) == _sg), fone_(add(es, v)), ext=[(fone_(add(es, v)), _sg)])
addall_ = Function('addall', F, I, F)   # put v into every member
ax('addall', D, [s, f, v], mem(s, addall_(f, v)) == And(1 <= v, v <= N, has(s, v), Or(mem(rem(s, v), f), mem(s, f))), mem(s, addall_(f, v)))
remall_ = Function('remall', F, I, F)   # take v out of every member
ax('remall', D, [s, f, v], mem(s, remall_(f, v)) == And(Not(has(s, v)), Or(mem(add(s, v), f), mem(s, f))), mem(s, remall_(f, v)))
lemma('join_s1', [s, f, v], Implies(And(1 <= v, v <= N, mem(s, join_(_sg, f))), And(has(s, v), Or(mem(rem(s, v), f), mem(s, f)))), mem(s, join_(_sg, f)),
      hints=[rem(add(jb(s, _sg, f), v), v), has(jb(s, _sg, f), v), uni(add(es, v), jb(s, _sg, f)), add(jb(s, _sg, f), v)])
lemma('join_s2', [s, f, v], Implies(And(1 <= v, v <= N, has(s, v), Or(mem(rem(s, v), f), mem(s, f))), mem(s, join_(_sg, f))), mem(s, join_(_sg, f)),
      hints=[mem(add(es, v), _sg), mem(uni(add(es, v), rem(s, v)), join_(_sg, f)), mem(uni(add(es, v), s), join_(_sg, f)), add(s, v)])
lemma('quo_s1_', [s, f, v], Implies(And(1 <= v, v <= N, f != null), mem(s, quo_(f, _sg)) == And(Not(has(s, v)), mem(add(s, v), f))), mem(s, quo_(f, _sg)),
      hints=[mem(add(es, v), _sg), dj(s, add(es, v)), uni(s, add(es, v)), quow(s, f, _sg), mem(uni(s, add(es, v)), f), has(add(es, v), v), djw(s, add(es, v)), mem(quow(s, f, _sg), _sg)])
lemma('join_s3', [s, f, v], Implies(And(1 <= v, v <= N), mem(s, join_(f, _sg)) == And(has(s, v), Or(mem(rem(s, v), f), mem(s, f)))), mem(s, join_(f, _sg)),
      hints=[mem(add(es, v), _sg), mem(uni(rem(s, v), add(es, v)), join_(f, _sg)), mem(uni(s, add(es, v)), join_(f, _sg)), add(s, v), rem(add(ja(s, f, _sg), v), v), has(ja(s, f, _sg), v), uni(ja(s, f, _sg), add(es, v)), add(ja(s, f, _sg), v)])
lemma('sing_ne', [v], Implies(And(1 <= v, v <= N), And(_sg != bot, _sg != null, _sg != top)), _sg, hints=[mem(add(es, v), _sg), mem(es, top), mem(es, _sg), has(add(es, v), v)])
xint = Function('xint', S, I, S)        # symmetric difference with {1..n}
ax('xint', D, [s, n, e], has(xint(s, n), e) == If(And(1 <= e, e <= n), Not(has(s, e)), has(s, e)), has(xint(s, n), e), (xint(s, n), has(s, e)))
ax('xint0', T, [s, n], Implies(n <= 0, xint(s, n) == s), xint(s, n))
ax('xintn', T, [s, n], Implies(n >= 1, xint(s, n) == xint(If(has(s, n), rem(s, n), add(s, n)), n - 1)), xint(s, n))
flipall_ = Function('flipall', F, I, F)
ax('flipall', D, [s, f, n], Implies(n <= N, mem(s, flipall_(f, n)) == mem(xint(s, n), f)), mem(s, flipall_(f, n)))
fsub_ = Function('fsub', F, F, B)       # every member of f is a member of g
fsubw = Function('fsubw', F, F, S)
ax('fsub1', D, [s, f, g], Implies(And(fsub_(f, g), mem(s, f)), mem(s, g)), (fsub_(f, g), mem(s, f)), (fsub_(f, g), mem(s, g)))
ax('fsub2', D, [f, g], Or(fsub_(f, g), And(mem(fsubw(f, g), f), Not(mem(fsubw(f, g), g)))), fsub_(f, g))
fdis_ = Function('fdis', F, F, B)       # no common member
fdisw = Function('fdisw', F, F, S)
ax('fdis1', D, [s, f, g], Implies(And(fdis_(f, g), mem(s, f)), Not(mem(s, g))), (fdis_(f, g), mem(s, f)), (fdis_(f, g), mem(s, g)))
ax('fdis2', D, [f, g], Or(fdis_(f, g), And(mem(fdisw(f, g), f), mem(fdisw(f, g), g))), fdis_(f, g))
fxor_ = Function('fxor', F, F, F)
ax('fxor', D, [s, f, g], mem(s, fxor_(f, g)) == (mem(s, f) != mem(s, g)), mem(s, fxor_(f, g)))
frem_ = Function('frem', F, F, F)       # remainder of the weak division
ax('frem', D, [s, f, g], mem(s, frem_(f, g)) == And(mem(s, f), Not(mem(s, join_(quo_(f, g), g)))), mem(s, frem_(f, g)))
fsize_ = Function('fsize', F, I, I, F)  # members with n..m elements
ax('fsize', D, [s, f, n, m], mem(s, fsize_(f, n, m)) == And(mem(s, f), n <= card(s), card(s) <= m), mem(s, fsize_(f, n, m)))
# sets that contain IN and avoid EX within a..b
ie_ = Function('ie', S, S, I, I, F)
iew = Function('iew', S, S, S, I, I, I)
iebad = lambda s, t, u, n, m, e: Or(And(has(s, e), Or(e < n, e > m)), And(n <= e, e <= m, has(t, e), Not(has(s, e))), And(n <= e, e <= m, has(u, e), Not(has(t, e)), has(s, e)))
raw('ie1', [s, t, u, n, m, e], Implies(mem(s, ie_(t, u, n, m)), Not(iebad(s, t, u, n, m, e))), (mem(s, ie_(t, u, n, m)), has(s, e)), (mem(s, ie_(t, u, n, m)), has(t, e)), (mem(s, ie_(t, u, n, m)), has(u, e)))
raw('ie2', [s, t, u, n, m], Or(n < 1, m > N, mem(s, ie_(t, u, n, m)), iebad(s, t, u, n, m, iew(s, t, u, n, m))), mem(s, ie_(t, u, n, m)))
lemma('ie_rng', [s, t, u, n, m, e], Implies(And(mem(s, ie_(t, u, n, m)), has(s, e)), And(n <= e, e <= m)), (mem(s, ie_(t, u, n, m)), has(s, e)))
lemma('ie_e', [s, t, u, n, m], Implies(And(n > m, n >= 1, m <= N), mem(s, ie_(t, u, n, m)) == (s == es)), mem(s, ie_(t, u, n, m)), hints=[has(s, nth(s, 0)), has(es, iew(es, t, u, n, m))])
_iwa = iew(s, t, u, n, m); _iwb = iew(rem(s, n), t, u, n + 1, m)
lemma('ie_lo', [s, t, u, n, m], Implies(And(1 <= n, n <= m, m <= N), mem(s, ie_(t, u, n, m)) == And(Implies(has(t, n), has(s, n)), Implies(And(has(u, n), Not(has(t, n))), Not(has(s, n))), mem(rem(s, n), ie_(t, u, n + 1, m)))), mem(s, ie_(t, u, n, m)),
      hints=[has(s, _iwa), has(rem(s, n), _iwa), has(s, _iwb), has(rem(s, n), _iwb), has(t, _iwa), has(t, _iwb), has(u, _iwa), has(u, _iwb), has(t, n), has(u, n), has(s, n)])
# power sets and hitting sets
pw_ = Function('pw', I, I, F)       # all subsets of {a..b}
pww = Function('pww', S, I, I, I)
raw('pw1', [s, n, m, e], Implies(And(mem(s, pw_(n, m)), has(s, e)), And(n <= e, e <= m)), (mem(s, pw_(n, m)), has(s, e)))
raw('pw2', [s, n, m], Or(n < 1, m > N, mem(s, pw_(n, m)), And(has(s, pww(s, n, m)), Or(pww(s, n, m) < n, pww(s, n, m) > m))), mem(s, pw_(n, m)))
lemma('pw_rng', [s, n, m, e], Implies(And(mem(s, pw_(n, m)), has(s, e)), And(n <= e, e <= m)), (mem(s, pw_(n, m)), has(s, e)))
lemma('pw_e', [s, n, m], Implies(And(n > m, n >= 1, m <= N), mem(s, pw_(n, m)) == (s == es)), mem(s, pw_(n, m)), hints=[has(s, nth(s, 0)), has(es, pww(es, n, m))])
lemma('pw_lo', [s, n, m], Implies(And(1 <= n, n <= m, m <= N), mem(s, pw_(n, m)) == mem(rem(s, n), pw_(n + 1, m))), mem(s, pw_(n, m)), hints=[has(s, pww(s, n, m)), has(rem(s, n), pww(rem(s, n), n + 1, m)), has(rem(s, n), pww(s, n, m)), has(s, pww(rem(s, n), n + 1, m))])
lemma('pw_hi', [s, n, m], Implies(And(1 <= n, n <= m, m <= N), mem(s, pw_(n, m)) == mem(rem(s, m), pw_(n, m - 1))), mem(s, pw_(n, m)), hints=[has(s, pww(s, n, m)), has(rem(s, m), pww(rem(s, m), n, m - 1)), has(rem(s, m), pww(s, n, m)), has(s, pww(rem(s, m), n, m - 1))])
lemma('pw_all', [s, f], Implies(mem(s, f), mem(s, pw_(1, N))), (mem(s, f), pw_(1, N)), hints=[has(s, pww(s, 1, N))])
hit_ = Function('hit', F, I, F)
hitw = Function('hitw', S, F, I, S)
raw('hit1', [s, t, f, n], Implies(And(mem(s, hit_(f, n)), mem(t, f)), Not(dj(s, t))), (mem(s, hit_(f, n)), mem(t, f)))
raw('hit2', [s, f, n], Implies(mem(s, hit_(f, n)), mem(s, pw_(1, n))), mem(s, hit_(f, n)))
raw('hit3', [s, f, n], Or(n > N, mem(s, hit_(f, n)), Not(mem(s, pw_(1, n))), And(mem(hitw(s, f, n), f), dj(s, hitw(s, f, n)))), mem(s, hit_(f, n)))

OPS_F = [funion, fint, fdiff, onset, onset0, offset, change, restrict_, permit_, nonsub_, nonsup_, permitsym_, join_, meet_, quo_,
         minimal_, maximal_, rsome_, asome_, ssome_, pw_, hit_, fone_, addall_, remall_, flipall_, fxor_, frem_, fsize_, ie_]
OPNAMES = {o.name() for o in OPS_F}


def nonnull(x):
    """a term built by an operation of the algebra is never the null diagram"""
    return z3.is_app(x) and (x.decl().name() in OPNAMES or x.decl().name() in ('bot', 'top'))


for o in OPS_F:
    vs = [z3.Const('x%d' % i, o.domain(i)) for i in range(o.arity())]
    ax(o.name() + '_nn', T, vs, o(*vs) != null, o(*vs))


RANGES = {}     # ranges of program variables, by constant name
FNRANGE = {}    # ranges of functions


def rng(x, depth=0):
    """interval that provably contains the integer term x (None: unbounded)"""
    if z3.is_int_value(x):
        n_ = x.as_long(); return (n_, n_)
    if not z3.is_app(x) or depth > 12: return None
    d = x.decl(); k = d.kind(); nm = d.name()
    if k == z3.Z3_OP_UNINTERPRETED:
        if x.num_args() == 0: return (1, VMAX) if nm == 'N_universe' else RANGES.get(nm)
        if nm in FNRANGE: return FNRANGE[nm]
        if nm in ('topv', 'card'): return (0, VMAX)
        if nm == 'lev':
            r_ = rng(x.arg(0), depth + 1)
            return (0, VMAX + 1) if r_ and r_[0] >= 0 and r_[1] <= VMAX else None
        return None
    ch = [rng(c, depth + 1) for c in x.children() if c.sort() == I]
    if any(c is None for c in ch): return None
    if k == z3.Z3_OP_ADD: return (sum(c[0] for c in ch), sum(c[1] for c in ch))
    if k == z3.Z3_OP_SUB: return (ch[0][0] - sum(c[1] for c in ch[1:]), ch[0][1] - sum(c[0] for c in ch[1:]))
    if k == z3.Z3_OP_UMINUS: return (-ch[0][1], -ch[0][0])
    if k == z3.Z3_OP_ITE: return (min(ch[0][0], ch[1][0]), max(ch[0][1], ch[1][1]))
    if k == z3.Z3_OP_MUL and len(ch) == 2:
        ps = [p_ * q_ for p_ in ch[0] for q_ in ch[1]]; return (min(ps), max(ps))
    return None


_dcache = {}


def decls_(x):
    k_ = x.get_id()
    r_ = _dcache.get(k_)
    if r_ is None or not r_[0].eq(x): r_ = _dcache[k_] = (x, frozenset(decls(x)))
    return r_[1]


def select(exprs, kinds=('DEF', 'THEORY', 'LEMMA'), names=None):
    """axioms relevant to the given formulas (closure over symbols)"""
    syms = set()
    for x in exprs:
        syms |= decls_(x)
    chosen, todo = [], [a for a in AX if a[1] in kinds or (names and a[0] in names)]
    changed = True
    while changed:
        changed = False
        rest = []
        for axm in todo:
            if any(syms.issuperset(ks) for ks in axm[3]):
                chosen.append(axm)
                new = decls_(axm[2])
                if not new <= syms:
                    syms |= new
                changed = True
            else:
                rest.append(axm)
        todo = rest
    return chosen


def extinst(a, b): return Or(a == b, a == null, b == null, mem(dw(a, b), a) != mem(dw(a, b), b))


def lemma_goal(name):
    """proof obligation of a lemma: (assumptions, goal)"""
    vars, body, hints, ext, using = LEM[name]
    sub_ = [(v_, z3.Const('c_' + str(v_), v_.sort())) for v_ in vars]
    g_ = z3.substitute(body, *sub_)
    asm = [z3.substitute(extinst(a, b), *sub_) for a, b in ext]
    for i_, h_ in enumerate(hints):
        h2 = z3.substitute(h_, *sub_)
        # a hint only introduces a term (a tautology that mentions it)
        if h2.sort() == B: asm.append(Function('seen_B', B, B)(h2))
        else: asm.append(Function('seen_' + h2.sort().name(), h2.sort(), B)(h2))
    return asm, g_


def lemma_axioms(name):
    """what a lemma may use: definitions, elementary facts, and earlier lemmas it names"""
    asm, g_ = lemma_goal(name)
    using = LEM[name][4]
    if name in ONLY: return [x for x in AX if x[0] in using]
    return select(asm + [g_], kinds=('DEF', 'THEORY', 'RAW'), names=using)
