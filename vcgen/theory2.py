"""Vocabulary for numbers attached to families (counts, weights, probabilities),
for the order of iteration, and for containers of nodes."""
import z3
from z3 import *
import theory as T
from theory import (ax, raw, lemma, S, F, I, B, R, N, has, mem, es, add, rem, uni, card, nth, bot, top, null, topv, onset0, offset, onset, change, funion, D, s, t, f, g, v, w, e, n, m, LEM, VMAX)
THEO = T.T
AR = ArraySort(I, R)
A = Const('A_', AR)
a, b, c = Ints('a_i b_i c_i')
isnode = lambda x: topv(x) > 0
# ---------------------------------------------------------------- probability
skp = Function('skp', AR, I, I, R)          # product of 1 - A[i] for a <= i < b
ax('skp0', D, [A, a, b], Implies(b <= a, skp(A, a, b) == 1), skp(A, a, b))
ax('skp1', D, [A, a, b, c], Implies(And(c == b + 1, a <= b), skp(A, a, c) == skp(A, a, b) * (1 - Select(A, b))), (skp(A, a, b), skp(A, a, c)))
raw('skpl', [A, a, b], Implies(a < b, skp(A, a, b) == (1 - Select(A, a)) * skp(A, a + 1, b)), skp(A, a, b))
# total weight of the members of f, seen as subsets of {a..n}; defined for families without elements outside
prv = Function('prv', F, AR, I, I, R)
raw('prv_e', [f, A, a, n], Implies(a > n, prv(f, A, a, n) == If(mem(es, f), RealVal(1), RealVal(0))), prv(f, A, a, n))
ax('prv_s', D, [f, A, v, n], Implies(And(f != null, 1 <= v, v <= n, n <= N), prv(f, A, v, n) == Select(A, v) * prv(onset0(f, v), A, v + 1, n) + (1 - Select(A, v)) * prv(offset(f, v), A, v + 1, n)),
   (prv(f, A, v, n), onset0(f, v)))


def induct(name, vars, body, k, lo, up, *pats, hints=(), using=()):
    """a lemma for all k with lo <= k (up: upwards) or k <= lo (downwards), proved by induction on k"""
    ax(name, 'LEMMA', vars, Implies(lo <= k if up else k <= lo, body), *pats)
    d = k + 1 if up else k - 1
    goal = And(substitute(body, (k, lo)), Implies(And(lo <= k if up else k <= lo, body), substitute(body, (k, d))))
    LEM[name] = (vars, goal, list(hints), [], list(using))


induct('prv_bot', [A, a, n], Implies(And(1 <= a, n <= N), prv(bot, A, a, n) == 0), a, n + 1, False, prv(bot, A, a, n),
       hints=[prv(bot, A, a - 1, n), onset0(bot, a - 1), offset(bot, a - 1), prv(bot, A, a, n), prv(bot, A, n + 1, n)], using=['prv_e', 'absent'])
induct('prv_top', [A, a, n], Implies(And(1 <= a, n <= N), prv(top, A, a, n) == skp(A, a, n + 1)), a, n + 1, False, prv(top, A, a, n),
       hints=[prv(top, A, a - 1, n), onset0(top, a - 1), offset(top, a - 1), mem(es, top), skp(A, a - 1, n + 1), prv(bot, A, a, n)], using=['prv_e', 'absent', 'prv_bot', 'skpl'])
# elements below the root of a diagram occur in no member
induct('prv_skip', [f, A, a, b, n], Implies(And(f != null, 1 <= a, b <= n + 1, n <= N, Or(topv(f) == 0, b <= topv(f))), prv(f, A, a, n) == skp(A, a, b) * prv(f, A, b, n)), a, b, False, (prv(f, A, a, n), prv(f, A, b, n)),
       hints=[prv(f, A, a - 1, n), onset0(f, a - 1), offset(f, a - 1), skp(A, a - 1, b), prv(bot, A, a, n), prv(f, A, a, n)], using=['absent', 'prv_bot', 'skpl'])
_o1, _o0 = onset0(f, v), offset(f, v)
_rt = lambda x: If(topv(x) == 0, n + 1, topv(x))
_nv = And(f != null, v == topv(f), v > 0, n <= N, v <= n, Or(topv(_o1) == 0, topv(_o1) <= n), Or(topv(_o0) == 0, topv(_o0) <= n))
_nd = (1 - Select(A, v)) * skp(A, v + 1, _rt(_o0)) * prv(_o0, A, _rt(_o0), n) + Select(A, v) * skp(A, v + 1, _rt(_o1)) * prv(_o1, A, _rt(_o1), n)
lemma('prv_node1', [f, A, v, n], Implies(_nv, And(prv(_o0, A, v + 1, n) == skp(A, v + 1, _rt(_o0)) * prv(_o0, A, _rt(_o0), n), prv(_o1, A, v + 1, n) == skp(A, v + 1, _rt(_o1)) * prv(_o1, A, _rt(_o1), n))), (prv(f, A, v, n), _o1), (prv(f, A, v, n), _o0),
      using=['prv_skip', 'topvoff', 'topvon0', 'onset0_nn', 'offset_nn'], only=True)
lemma('prv_node2', [f, A, v, n], Implies(_nv, prv(f, A, v, n) == _nd), (prv(f, A, v, n), _o1), (prv(f, A, v, n), _o0), using=['prv_s', 'prv_node1'], only=True)
lemma('prv_node', [f, A, a, v, n], Implies(And(_nv, 1 <= a, a <= v), prv(f, A, a, n) == skp(A, a, v) * _nd), (prv(f, A, a, n), _o1), (prv(f, A, a, n), _o0),
      hints=[prv(f, A, v, n)], using=['prv_skip', 'prv_node2'], only=True)
top_le = Function('top_le', F, I, B)        # no member contains an element above n
tlw = Function('tlw', F, I, S); tle = Function('tle', F, I, I)
ax('top_le1', D, [f, n, s, e], Implies(And(top_le(f, n), mem(s, f), has(s, e)), e <= n), (top_le(f, n), mem(s, f), has(s, e)))
ax('top_le2', D, [f, n], Or(top_le(f, n), And(mem(tlw(f, n), f), has(tlw(f, n), tle(f, n)), tle(f, n) > n)), top_le(f, n))
# ---------------------------------------------------------------- number of members
cnt = Function('cnt', F, R)
ax('cnt_t', D, [], And(cnt(bot) == 0, cnt(top) == 1), keys=[[cnt]])
ax('cnt_s', THEO, [f, v], Implies(And(f != null, 1 <= v, v <= N), cnt(f) == cnt(onset0(f, v)) + cnt(offset(f, v))), (cnt(f), onset0(f, v)), (cnt(f), offset(f, v)))
ax('cnt_p', THEO, [f], And(cnt(f) >= 0, Implies(f != null, (cnt(f) == 0) == (f == bot))), cnt(f))
# ---------------------------------------------------------------- order of iteration: the set with the smaller element first
dmin = Function('dmin', S, S, I)            # least element in which two sets differ
ax('dmin1', D, [s, t], Or(s == t, has(s, dmin(s, t)) != has(t, dmin(s, t))), dmin(s, t))
ax('dmin2', D, [s, t, e], Implies(e < dmin(s, t), Or(s == t, has(s, e) == has(t, e))), (dmin(s, t), has(s, e)), (dmin(s, t), has(t, e)))
lt = Function('lt', S, S, B)
ax('lt', D, [s, t], lt(s, t) == And(s != t, has(s, dmin(s, t))), lt(s, t))
lemma('lt_r', [s, t, v], Implies(And(has(s, v), has(t, v)), lt(s, t) == lt(rem(s, v), rem(t, v))), (lt(s, t), rem(s, v), rem(t, v)), (lt(rem(s, v), rem(t, v))),
      hints=[has(rem(s, v), dmin(s, t)), has(rem(t, v), dmin(s, t)), has(s, dmin(rem(s, v), rem(t, v))), has(t, dmin(rem(s, v), rem(t, v))), has(rem(s, v), dmin(rem(s, v), rem(t, v))), has(s, dmin(s, t)), has(t, dmin(s, t)), has(rem(t, v), dmin(rem(s, v), rem(t, v))), add(rem(s, v), v)])
lemma('lt_v', [s, t, f, v], Implies(And(mem(s, f), mem(t, f), v == topv(f), v > 0, has(s, v), Not(has(t, v))), And(lt(s, t), Not(lt(t, s)))), (lt(s, t), mem(s, f), mem(t, f), has(s, v)), (lt(t, s), mem(s, f), mem(t, f), has(s, v)),
      hints=[has(s, dmin(s, t)), has(t, dmin(s, t)), has(s, dmin(t, s)), has(t, dmin(t, s)), dmin(s, t), dmin(t, s), has(s, v), has(t, v)])
ax('lt_i', THEO, [s], Not(lt(s, s)), lt(s, s))
below = Function('below', S, I, S); above = Function('above', S, I, S)
ax('below', D, [s, v, e], has(below(s, v), e) == And(has(s, e), e < v), has(below(s, v), e), (below(s, v), has(s, e)))
ax('above', D, [s, v, e], has(above(s, v), e) == And(has(s, e), e >= v), has(above(s, v), e), (above(s, v), has(s, e)))
# elements strictly between v and w
gap = Function('gap', S, I, I, B); gapw = Function('gapw', S, I, I, I)
ax('gap1', D, [s, v, w, e], Implies(And(gap(s, v, w), v < e, e < w), Not(has(s, e))), (gap(s, v, w), has(s, e)))
ax('gap2', D, [s, v, w], Or(gap(s, v, w), And(v < gapw(s, v, w), gapw(s, v, w) < w, has(s, gapw(s, v, w)))), gap(s, v, w))
# ---------------------------------------------------------------- weights
wt = Function('wt', S, AR, R)
ax('wt0', D, [A], wt(es, A) == 0, wt(es, A))
ax('wta', THEO, [s, v, A], wt(add(s, v), A) == wt(s, A) + If(has(s, v), RealVal(0), Select(A, v)), wt(add(s, v), A), (wt(s, A), add(s, v)))
ax('wtr', THEO, [s, v, A], wt(rem(s, v), A) == wt(s, A) - If(has(s, v), Select(A, v), RealVal(0)), wt(rem(s, v), A), (wt(s, A), rem(s, v)))
bst = Function('bst', F, AR, R); bsw = Function('bsw', F, AR, S)   # largest weight of a member
ax('bst1', D, [f, A, s], Implies(mem(s, f), wt(s, A) <= bst(f, A)), (bst(f, A), mem(s, f)))
ax('bst2', D, [f, A], Implies(And(f != bot, f != null), And(mem(bsw(f, A), f), wt(bsw(f, A), A) == bst(f, A))), bst(f, A))
lemma('bst_t', [A], bst(top, A) == 0, bst(top, A), hints=[mem(es, top), wt(es, A), mem(bsw(top, A), top), bsw(top, A) == es])
_f1, _f0 = onset0(f, v), offset(f, v)
lemma('bst_s', [f, A, v], Implies(And(f != null, v == topv(f), v > 0), And(_f1 != bot, bst(f, A) == If(_f0 == bot, Select(A, v) + bst(_f1, A), If(bst(_f0, A) >= Select(A, v) + bst(_f1, A), bst(_f0, A), Select(A, v) + bst(_f1, A))))),
      (bst(f, A), _f1), (bst(f, A), _f0),
      hints=[mem(rem(bsw(f, A), v), _f1), mem(bsw(f, A), _f0), mem(add(bsw(_f1, A), v), f), mem(bsw(_f0, A), f), mem(rem(T.topw(f), v), _f1), wt(add(bsw(_f1, A), v), A), wt(rem(bsw(f, A), v), A), bst(_f1, A), bst(_f0, A), wt(bsw(f, A), A), mem(bsw(_f1, A), _f1)], using=['topvon0'])
# sets given by bit vectors
AB = ArraySort(I, B)
bv = Const('bv_', AB)
vset = Function('vset', AB, I, S)
ax('vset', D, [bv, n, e], has(vset(bv, n), e) == And(0 <= e, e < n, Select(bv, e)), has(vset(bv, n), e))
bb = Const('b_b', B)
ax('vset_s', THEO, [bv, n, v, bb], Implies(And(0 <= v, v < n), vset(Store(bv, v, bb), n) == If(bb, add(vset(bv, n), v), rem(vset(bv, n), v))), vset(Store(bv, v, bb), n))
lemma('uniadd', [s, t, v], uni(add(s, v), t) == uni(s, add(t, v)), uni(add(s, v), t), hints=[T.sub(uni(add(s, v), t), uni(s, add(t, v))), T.sub(uni(s, add(t, v)), uni(add(s, v), t))])
ax('vset_n', THEO, [bv, n, m], Implies(And(m == n + 1, n >= 0), vset(bv, m) == If(Select(bv, n), add(vset(bv, n), n), vset(bv, n))), (vset(bv, n), vset(bv, m)))
ax('vset_0', THEO, [bv, n], Implies(Or(n <= 0, bv == K(I, False)), vset(bv, n) == es), vset(bv, n))
# x occurs among the first n entries
AF = ArraySort(I, F)
p = Const('p_', AF)
x, y = Consts('x_f y_f', F)
vin = Function('vin', AF, I, F, B); vii = Function('vii', AF, I, F, I)
ax('vin1', D, [p, n, x], Implies(vin(p, n, x), And(0 <= vii(p, n, x), vii(p, n, x) < n, Select(p, vii(p, n, x)) == x)), vin(p, n, x))
ax('vin2', D, [p, n, a], Implies(And(0 <= a, a < n), vin(p, n, Select(p, a))), (vin(p, n, x), Select(p, a))) if False else None
ax('vin_p', THEO, [p, n, x, y], Implies(n >= 0, vin(Store(p, n, y), n + 1, x) == Or(x == y, vin(p, n, x))), vin(Store(p, n, y), n + 1, x))
ax('vin_m', THEO, [p, n, m, x], Implies(And(m == n - 1, n >= 1), vin(p, n, x) == Or(vin(p, m, x), Select(p, m) == x)), (vin(p, n, x), vin(p, m, x)))
ax('vin_l', THEO, [p, n], Implies(n >= 1, vin(p, n, Select(p, n - 1))), vin(p, n, Select(p, n - 1)))
ax('vin_0', D, [p, n, x], Implies(n <= 0, Not(vin(p, n, x))), vin(p, n, x))
# ---------------------------------------------------------------- sorted vectors of elements
from builtins_ import sov
AI = ArraySort(I, I)
q = Const('q_', AI)
seq = lambda a, b: [T.sub(a, b), T.sub(b, a)]       # hints for equality of sets
srt = Function('srt', AI, I, B)             # the first n entries are elements of the universe in increasing order
srw, srx = Function('srw', AI, I, I), Function('srx', AI, I, I)
ax('srt1', D, [q, n, a, b], Implies(And(srt(q, n), 0 <= a, a < b, b < n), Select(q, a) < Select(q, b)), (srt(q, n), Select(q, a), Select(q, b)))
ax('srt2', D, [q, n, a], Implies(And(srt(q, n), 0 <= a, a < n), And(Select(q, a) >= a + 1, Select(q, a) <= N)), (srt(q, n), Select(q, a)))
ax('srt3', D, [q, n], Or(srt(q, n), And(0 <= srw(q, n), srw(q, n) < srx(q, n), srx(q, n) < n, Select(q, srw(q, n)) >= Select(q, srx(q, n))),
                         And(0 <= srw(q, n), srw(q, n) < n, Or(Select(q, srw(q, n)) < srw(q, n) + 1, Select(q, srw(q, n)) > N))), srt(q, n))
_st = Store(q, n, e)
lemma('sov_p', [q, n, m, e], Implies(And(n >= 0, m == n + 1), sov(_st, 0, m) == add(sov(q, 0, n), e)), sov(_st, 0, m), hints=seq(sov(_st, 0, m), add(sov(q, 0, n), e)) + [Select(_st, n)])
lemma('sov_o', [q, n, m], Implies(And(n >= 1, m == n - 1, srt(q, n)), sov(q, 0, m) == rem(sov(q, 0, n), Select(q, m))), (sov(q, 0, m), sov(q, 0, n)), hints=seq(sov(q, 0, m), rem(sov(q, 0, n), Select(q, m))))
lemma('sov_0', [q, n], Implies(n <= 0, sov(q, 0, n) == es), sov(q, 0, n), hints=seq(sov(q, 0, n), es))
lemma('sov_l', [q, n, m], Implies(And(n >= 1, m == n - 1), has(sov(q, 0, n), Select(q, m))), (sov(q, 0, n), Select(q, m)))
lemma('sov_m', [q, n, e], Implies(And(srt(q, n), has(sov(q, 0, n), e)), And(e <= Select(q, n - 1), n >= 1, 1 <= e, e <= N)), (srt(q, n), has(sov(q, 0, n), e)), hints=[Select(q, n - 1)])
lemma('srt_p', [q, n, m, e], Implies(And(n >= 0, m == n + 1, srt(q, n), e <= N, e >= 1, Or(n == 0, Select(q, n - 1) < e)), srt(_st, m)), srt(_st, m),
      hints=[Select(q, n - 1), Select(q, srw(_st, m)), Select(q, srx(_st, m)), Select(_st, srw(_st, m)), Select(_st, srx(_st, m))])
lemma('srt_o', [q, n, m], Implies(And(m <= n, srt(q, n)), srt(q, m)), (srt(q, m), srt(q, n)))
# order of iteration
lemma('lt_tot', [s, t], Or(s == t, lt(s, t), lt(t, s)), lt(s, t), hints=[has(s, dmin(s, t)), has(t, dmin(s, t)), has(s, dmin(t, s)), has(t, dmin(t, s))])
lemma('lt_as', [s, t], Not(And(lt(s, t), lt(t, s))), (lt(s, t), lt(t, s)), hints=[has(s, dmin(s, t)), has(t, dmin(s, t)), has(s, dmin(t, s)), has(t, dmin(t, s))])
lemma('lt_es', [s], And(Implies(s != es, lt(s, es)), Not(lt(es, s))), lt(s, es), lt(es, s), hints=[has(es, dmin(s, es)), has(es, dmin(es, s)), has(s, nth(s, 0))])
lemma('abv_r', [s, v, w], Implies(And(gap(s, v, w), v < w), rem(above(s, v), v) == above(s, w)), (above(s, v), above(s, w)), hints=seq(rem(above(s, v), v), above(s, w)))
lemma('abv_1', [s, v, e], Implies(e < v, above(add(s, e), v) == above(s, v)), above(add(s, e), v), hints=seq(above(add(s, e), v), above(s, v)))
lemma('abv_2', [s, f], Implies(And(mem(s, f), T.topv(f) > 0), above(s, topv(f)) == s), (mem(s, f), above(s, topv(f))), hints=seq(above(s, topv(f)), s) + [topv(f)])
lemma('abv_e', [s, v], Or(above(s, v) == es, has(above(s, v), nth(above(s, v), 0))), above(s, v), hints=[nth(above(s, v), 0)])
ax('nthlow', THEO, [s, f, n], Implies(And(mem(s, f), 0 <= n, n < card(s)), And(nth(s, n) >= n + 1, nth(s, n) <= N)), (mem(s, f), nth(s, n)))
lemma('abv_b', [s, v], Implies(below(s, v) == es, above(s, v) == s), (below(s, v), above(s, v)), hints=seq(above(s, v), s) + [has(below(s, v), T.subw(s, above(s, v)))])
lemma('blw_0', [s, f, v], Implies(And(mem(s, f), f != null, Or(topv(f) == 0, v <= topv(f))), below(s, v) == es), (mem(s, f), below(s, v)), hints=seq(below(s, v), es))
lemma('blw_es', [v], below(es, v) == es, below(es, v), hints=seq(below(es, v), es))
lemma('tle_c', [f, v, n], Implies(And(f != null, v == topv(f), v > 0, top_le(f, n)), And(top_le(onset0(f, v), n), top_le(offset(f, v), n), v <= n)), (top_le(f, n), onset0(f, v)), (top_le(f, n), offset(f, v)),
      hints=[mem(add(tlw(onset0(f, v), n), v), f), has(add(tlw(onset0(f, v), n), v), tle(onset0(f, v), n)), mem(tlw(offset(f, v), n), f), mem(T.topw(f), f), has(T.topw(f), v)])
lemma('tle_v', [f, n], Implies(And(top_le(f, n), topv(f) > 0), topv(f) <= n), (top_le(f, n), topv(f)), hints=[mem(T.topw(f), f), has(T.topw(f), topv(f))])
lemma('tle_N', [f], top_le(f, N), top_le(f, N), hints=[has(tlw(f, N), tle(f, N))])
# ---------------------------------------------------------------- hitting sets within {a..n}
hr = Function('hr', F, I, I, F); hrw = Function('hrw', S, F, I, I, S)
dj, pw_ = T.dj, T.pw_
raw('hr1', [s, t, f, a, n], Implies(And(mem(s, hr(f, a, n)), mem(t, f)), Not(dj(s, t))), (mem(s, hr(f, a, n)), mem(t, f)))
raw('hr2', [s, f, a, n], Implies(mem(s, hr(f, a, n)), mem(s, pw_(a, n))), mem(s, hr(f, a, n)))
raw('hr3', [s, f, a, n], Or(a < 1, n > N, mem(s, hr(f, a, n)), Not(mem(s, pw_(a, n))), And(mem(hrw(s, f, a, n), f), dj(s, hrw(s, f, a, n)))), mem(s, hr(f, a, n)))
ax('hr_nn', D, [f, a, n], hr(f, a, n) != null, hr(f, a, n))
_hr = ['hr1', 'hr2', 'hr3']
lemma('hr_pw', [s, f, a, n], Implies(mem(s, hr(f, a, n)), mem(s, pw_(a, n))), mem(s, hr(f, a, n)), using=['hr2'])
lemma('hr_bot', [s, a, n], Implies(And(1 <= a, n <= N), mem(s, hr(bot, a, n)) == mem(s, pw_(a, n))), mem(s, hr(bot, a, n)), using=_hr)
lemma('hr_top', [s, a, n], Not(mem(s, hr(top, a, n))), mem(s, hr(top, a, n)), using=_hr + ['dj2'], hints=[mem(es, top), dj(s, es)])
_w1, _w2 = hrw(s, f, a, n), hrw(rem(s, a), f, b, n)
lemma('hr_skip', [s, f, a, b, n], Implies(And(f != null, 1 <= a, b == a + 1, a <= n, n <= N, Or(topv(f) == 0, a < topv(f))), mem(s, hr(f, a, n)) == mem(rem(s, a), hr(f, b, n))), (mem(s, hr(f, a, n)), hr(f, b, n)),
      using=_hr + ['dj1', 'dj2'], hints=[mem(rem(s, a), hr(f, b, n)), mem(s, pw_(a, n)), mem(rem(s, a), pw_(b, n)), mem(_w1, f), mem(_w2, f), dj(s, _w1), dj(rem(s, a), _w1), dj(s, _w2), dj(rem(s, a), _w2), has(_w1, a), has(_w2, a), has(_w1, topv(f)), has(_w2, topv(f))])
_l, _h = offset(f, v), onset0(f, v)
_ws, _wl, _wh, _wr = hrw(s, f, v, n), hrw(s, _l, b, n), hrw(s, _h, b, n), hrw(rem(s, v), _l, b, n)
_x = rem(s, v)
lemma('hr_node', [s, f, v, b, n], Implies(And(f != null, v == topv(f), v > 0, b == v + 1, v <= n, n <= N),
      mem(s, hr(f, v, n)) == If(has(s, v), mem(_x, hr(_l, b, n)), And(mem(s, hr(_h, b, n)), mem(s, hr(_l, b, n))))), (mem(s, hr(f, v, n)), hr(_h, b, n)), (mem(s, hr(f, v, n)), hr(_l, b, n)),
      using=_hr + ['dj1', 'dj2'], hints=[mem(s, pw_(v, n)), mem(s, pw_(b, n)), mem(_x, pw_(b, n)), mem(_x, hr(_l, b, n)), mem(s, hr(_h, b, n)), mem(s, hr(_l, b, n)), mem(_ws, f), mem(_ws, _l), mem(rem(_ws, v), _h), mem(add(_wh, v), f), mem(_wl, f), mem(_wr, f),
             dj(s, _ws), dj(_x, _ws), dj(s, rem(_ws, v)), dj(s, _wl), dj(s, add(_wh, v)), dj(s, _wh), dj(_x, _wr), dj(s, _wr), has(_ws, v), has(_wl, v), has(_wr, v), has(_wh, v)])
# ---------------------------------------------------------------- negated weights
negto = Function('negto', AR, AR, I, B); negw = Function('negw', AR, AR, I, I)      # the first n entries of A are those of A2, negated
A2 = Const('A2_', AR)
ax('neg1', D, [A, A2, n, e], Implies(And(negto(A, A2, n), 0 <= e, e < n), Select(A, e) == -Select(A2, e)), (negto(A, A2, n), Select(A, e)), (negto(A, A2, n), Select(A2, e)))
ax('neg2', D, [A, A2, n], Or(negto(A, A2, n), And(0 <= negw(A, A2, n), negw(A, A2, n) < n, Select(A, negw(A, A2, n)) != -Select(A2, negw(A, A2, n)))), negto(A, A2, n))
ax('wtn', THEO, [A, A2, n, f, s], Implies(And(negto(A, A2, n), top_le(f, n - 1), mem(s, f)), wt(s, A) == -wt(s, A2)), (negto(A, A2, n), mem(s, f), wt(s, A)), (negto(A, A2, n), mem(s, f), wt(s, A2)))
