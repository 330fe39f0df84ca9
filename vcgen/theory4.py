"""Vocabulary for the node table of SAPPOROBDD (bddc.cc): 40-bit ids of diagrams with
a negation bit, the nodes they point to, and the family an id stands for.  Nodes
are never changed once they are made (only getnode makes them), so the table is
a set of functions of the node index."""
from theory3 import *
import theory as T
import theory3 as T3
from theory import RANGES, dw

CSTB = 1 << 39
FALSE_, TRUE_, NULL_ = IntVal(CSTB), IntVal(CSTB + 1), IntVal(CSTB - 1)
x, y = Ints('id_x id_y')
k_ = Int('nd_k')
neg, nt, ab, cst, ndx = [Function(q, I, I) for q in ('neg', 'nt', 'ab', 'cst', 'ndx')]
lo32, shr32, hi8, shl32 = [Function(q, I, I) for q in ('lo32', 'shr32', 'hi8', 'shl32')]
join40 = Function('join40', I, I, I)
alloc = Function('alloc', I, B)
nvar, nf0, nf1 = [Function(q, I, I) for q in ('nvar', 'nf0', 'nf1')]
NSPC = Int('NodeSpc')
valid = Function('valid', I, B)
vtop = Function('vtop', I, I)
fam = Function('fam', I, F)
uinv = Function('uinv', I, I, I, I, B)      # what the functions using an operation code put in the cache
for q, r in (('neg', (0, 1)), ('lo32', (0, (1 << 32) - 1)), ('hi8', (0, 255)), ('nf0', (0, (1 << 40) - 1)), ('nf1', (0, (1 << 40) - 1)), ('cst', (0, CSTB)), ('vtop', (0, T.VMAX + 1))): T.FNRANGE[q] = r
# ---- words
ax('id_neg', D, [x], And(0 <= neg(x), neg(x) <= 1, x == 2 * ndx(x) + neg(x)), neg(x), ndx(x))
ax('id_nt', D, [x], And(nt(x) == x + 1 - 2 * neg(x), neg(nt(x)) == 1 - neg(x), ndx(nt(x)) == ndx(x), cst(nt(x)) == cst(x)), nt(x))
ax('id_ab', D, [x], And(ab(x) == x - neg(x), Or(And(neg(x) == 0, ab(x) == x), And(neg(x) == 1, ab(x) == nt(x)))), ab(x))
ax('id_cst', D, [x], Implies(And(0 <= x, x < 2 * CSTB), cst(x) == If(x >= CSTB, IntVal(CSTB), IntVal(0))), cst(x))
ax('id_join', THEO, [x], Implies(And(0 <= x, x < 2 * CSTB), join40(lo32(x), hi8(x)) == x), join40(lo32(x), hi8(x)))
ax('id_joinv', THEO, [x, y], Implies(And(0 <= x, x < (1 << 32)), join40(x, y) == x + (1 << 32) * y), join40(x, y))
ax('id_lo', THEO, [x], neg(lo32(x)) == neg(x), neg(lo32(x)))
# ---- the table
ax('nd_var', THEO, [k_], Implies(alloc(k_), And(0 <= k_, k_ < NSPC, NSPC <= (1 << 38) - 1, 1 <= nvar(k_), nvar(k_) <= N)), (alloc(k_), nvar(k_)), alloc(k_))
ax('nd_f0', THEO, [k_], Implies(alloc(k_), And(valid(nf0(k_)), neg(nf0(k_)) == 1, vtop(nf0(k_)) > nvar(k_))), nf0(k_))
ax('nd_f1', THEO, [k_], Implies(alloc(k_), And(valid(nf1(k_)), nf1(k_) != FALSE_, vtop(nf1(k_)) > nvar(k_))), nf1(k_))
ax('id_valid', D, [x], valid(x) == Or(x == FALSE_, x == TRUE_, And(0 <= x, x < CSTB, alloc(ndx(x)))), valid(x))
ax('id_validnt', THEO, [x], valid(nt(x)) == valid(x), valid(nt(x)))
ax('id_vtop', D, [x], Implies(valid(x), And(vtop(x) == If(x >= CSTB, N + 1, nvar(ndx(x))), vtop(x) >= 1, vtop(x) <= N + 1)), (vtop(x)))
ax('id_vtopnt', THEO, [x], Implies(valid(x), vtop(nt(x)) == vtop(x)), vtop(nt(x)))
# ---- families
ax('fam_c', D, [], And(fam(FALSE_) == bot, fam(TRUE_) == top), keys=[[fam]])
ax('fam_nn', D, [x], fam(x) != null, fam(x))
ax('fam_nt', D, [x, s], Implies(valid(x), mem(s, fam(nt(x))) == (mem(s, fam(x)) != (s == es))), mem(s, fam(nt(x))), (nt(x), mem(s, fam(x))))
ax('fam_es', THEO, [x], Implies(valid(x), mem(es, fam(x)) == (neg(x) == 1)), (fam(x), neg(x)), mem(es, fam(x)))
_k = ndx(x)
ax('fam_nd', D, [x, s], Implies(And(valid(x), x < CSTB), mem(s, fam(x)) == If(has(s, nvar(_k)), mem(rem(s, nvar(_k)), fam(nf1(_k))), If(neg(x) == 1, mem(s, fam(nf0(_k))), mem(s, fam(nt(nf0(_k))))))),
   (mem(s, fam(x)), nf1(_k)), (mem(s, fam(x)), nf0(_k)))
ax('fam_ord', THEO, [x, s, e], Implies(And(valid(x), mem(s, fam(x)), has(s, e)), And(vtop(x) <= e, e <= N)), (mem(s, fam(x)), has(s, e)))
ax('fam_top', THEO, [x], Implies(valid(x), topv(fam(x)) == If(x >= CSTB, IntVal(0), nvar(ndx(x)))), topv(fam(x)))
# canonicity, the step of the induction on the height: two ids that stand for the same family
# are equal when their cofactors that stand for the same family are equal, because the table
# has one node per (variable, 0-edge, 1-edge)
uniq = Function('uniq', I, I, B)
ax('nd_uniq', THEO, [x, y], Implies(And(alloc(ndx(x)), alloc(ndx(y)), nvar(ndx(x)) == nvar(ndx(y)), nf0(ndx(x)) == nf0(ndx(y)), nf1(ndx(x)) == nf1(ndx(y))), ndx(x) == ndx(y)), uniq(x, y))
_c0 = lambda z: If(neg(z) == 1, nf0(ndx(z)), nt(nf0(ndx(z))))
_c1 = lambda z: nf1(ndx(z))
_ih = lambda p, q: Implies(fam(p) == fam(q), p == q)
_nc = And(x < CSTB, y < CSTB)
lemma('canon', [x, y], Implies(And(valid(x), valid(y), fam(x) == fam(y), Implies(_nc, And(_ih(_c0(x), _c0(y)), _ih(_c1(x), _c1(y))))), x == y), uniq(x, y),
      hints=[uniq(x, y), topv(fam(x)), topv(fam(y)), neg(x), neg(y), neg(_c0(x)), neg(_c0(y)), mem(es, top), nt(nf0(ndx(x))), nt(nf0(ndx(y))), vtop(nf0(ndx(x))), vtop(nf1(ndx(x))), vtop(nf0(ndx(y))), vtop(nf1(ndx(y)))] +
      [q(w_) for w_ in (dw(fam(_c0(x)), fam(_c0(y))),) for q in (lambda w_: mem(w_, fam(x)), lambda w_: mem(w_, fam(y)), lambda w_: has(w_, nvar(ndx(x))))] +
      [q(w_) for w_ in (add(dw(fam(_c1(x)), fam(_c1(y))), nvar(ndx(x))),) for q in (lambda w_: mem(w_, fam(x)), lambda w_: mem(w_, fam(y)), lambda w_: has(w_, nvar(ndx(x))))] +
      [has(dw(fam(_c1(x)), fam(_c1(y))), nvar(ndx(x)))],
      ext=[(fam(_c0(x)), fam(_c0(y))), (fam(_c1(x)), fam(_c1(y)))])
ax('id_ra', THEO, [s, v, w], Implies(v != w, rem(add(s, w), v) == add(rem(s, v), w)), rem(add(s, w), v), add(rem(s, v), w), keys=[[fam, rem, add]])
ax('id_rr', THEO, [s, v, w], rem(rem(s, w), v) == rem(rem(s, v), w), rem(rem(s, w), v), keys=[[fam, rem]])
