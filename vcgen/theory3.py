"""Vocabulary for costs: integer weights of sets, the members within a bound, the
neighbouring costs that occur in a family, and tables of results by cost."""
from theory2 import *
import theory as T

AIN = ArraySort(I, I)
C = Const('C_', AIN)
C2 = Const('C2_', AIN)
NUL = IntVal((1 << 63) - 1)         # bddcost_null: "no such cost"
cwt = Function('cwt', S, AIN, I)      # total cost of a set; entry i of the array is the cost of element i+1
ax('cwt0', D, [C], cwt(es, C) == 0, cwt(es, C))
ax('cwta', THEO, [s, v, C], cwt(add(s, v), C) == cwt(s, C) + If(has(s, v), IntVal(0), Select(C, v - 1)), cwt(add(s, v), C), (cwt(s, C), add(s, v)))
ax('cwtr', THEO, [s, v, C], cwt(rem(s, v), C) == cwt(s, C) - If(has(s, v), Select(C, v - 1), IntVal(0)), cwt(rem(s, v), C), (cwt(s, C), rem(s, v)))
cle = Function('cle', F, AIN, I, F)   # the members that cost at most b
ax('cle', D, [s, f, C, b], mem(s, cle(f, C, b)) == And(mem(s, f), cwt(s, C) <= b), mem(s, cle(f, C, b)), (cle(f, C, b), mem(s, f)))
ax('cle_nn', D, [f, C, b], cle(f, C, b) != null, cle(f, C, b))
# the greatest cost at most b, the least cost above b
haw, awv, aww = Function('haw', F, AIN, I, B), Function('awv', F, AIN, I, I), Function('aww', F, AIN, I, S)
hrb, rbv, rbw = Function('hrb', F, AIN, I, B), Function('rbv', F, AIN, I, I), Function('rbw', F, AIN, I, S)
ax('aw1', D, [s, f, C, b], Implies(And(mem(s, f), cwt(s, C) <= b), And(haw(f, C, b), cwt(s, C) <= awv(f, C, b))), (haw(f, C, b), mem(s, f)), (awv(f, C, b), mem(s, f)))
ax('aw2', D, [f, C, b], Implies(haw(f, C, b), And(mem(aww(f, C, b), f), cwt(aww(f, C, b), C) == awv(f, C, b), awv(f, C, b) <= b)), haw(f, C, b), awv(f, C, b))
ax('rb1', D, [s, f, C, b], Implies(And(mem(s, f), cwt(s, C) > b), And(hrb(f, C, b), cwt(s, C) >= rbv(f, C, b))), (hrb(f, C, b), mem(s, f)), (rbv(f, C, b), mem(s, f)))
ax('rb2', D, [f, C, b], Implies(hrb(f, C, b), And(mem(rbw(f, C, b), f), cwt(rbw(f, C, b), C) == rbv(f, C, b), rbv(f, C, b) > b)), hrb(f, C, b), rbv(f, C, b))
ach, acw = Function('ach', F, AIN, I, B), Function('acw', F, AIN, I, S)      # some member costs exactly c
ax('ach1', D, [f, C, c], Implies(ach(f, C, c), And(mem(acw(f, C, c), f), cwt(acw(f, C, c), C) == c)), ach(f, C, c))
ax('ach2', D, [s, f, C, c], Implies(And(mem(s, f), cwt(s, C) == c), ach(f, C, c)), (ach(f, C, c), mem(s, f)))
awx = lambda f, C, b: If(haw(f, C, b), awv(f, C, b), NUL)
rbx = lambda f, C, b: If(hrb(f, C, b), rbv(f, C, b), NUL)
# node steps
_f1, _f0 = onset0(f, v), offset(f, v)
_c = Select(C, v - 1)
_b1 = b - _c
_nz = And(f != null, v == topv(f), v > 0)
_wa, _wr = aww(f, C, b), rbw(f, C, b)
lemma('cle_t', [C, b, s], And(mem(s, cle(top, C, b)) == And(s == es, b >= 0), haw(top, C, b) == (b >= 0), hrb(top, C, b) == (b < 0), Implies(b >= 0, awv(top, C, b) == 0), Implies(b < 0, rbv(top, C, b) == 0)), (cle(top, C, b), mem(s, top)), (haw(top, C, b), mem(s, top)), (hrb(top, C, b), mem(s, top)),
      hints=[mem(es, top), cwt(es, C), mem(aww(top, C, b), top), mem(rbw(top, C, b), top), mem(s, cle(top, C, b)), aww(top, C, b) == es, rbw(top, C, b) == es])
lemma('aw_s', [f, C, b, v], Implies(_nz, And(haw(f, C, b) == Or(haw(_f0, C, b), haw(_f1, C, _b1)),
      awx(f, C, b) == If(haw(_f1, C, _b1), If(And(haw(_f0, C, b), awv(_f0, C, b) > awv(_f1, C, _b1) + _c), awv(_f0, C, b), awv(_f1, C, _b1) + _c), awx(_f0, C, b)))),
      (haw(f, C, b), _f1, _f0), (awv(f, C, b), _f1, _f0),
      hints=[mem(rem(_wa, v), _f1), mem(_wa, _f0), mem(add(aww(_f1, C, _b1), v), f), mem(aww(_f0, C, b), f), cwt(add(aww(_f1, C, _b1), v), C), cwt(rem(_wa, v), C), awv(f, C, b), awv(_f0, C, b), awv(_f1, C, _b1)])
lemma('rb_s', [f, C, b, v], Implies(_nz, And(hrb(f, C, b) == Or(hrb(_f0, C, b), hrb(_f1, C, _b1)),
      rbx(f, C, b) == If(hrb(_f1, C, _b1), If(And(hrb(_f0, C, b), rbv(_f0, C, b) < rbv(_f1, C, _b1) + _c), rbv(_f0, C, b), rbv(_f1, C, _b1) + _c), rbx(_f0, C, b)))),
      (hrb(f, C, b), _f1, _f0), (rbv(f, C, b), _f1, _f0),
      hints=[mem(rem(_wr, v), _f1), mem(_wr, _f0), mem(add(rbw(_f1, C, _b1), v), f), mem(rbw(_f0, C, b), f), cwt(add(rbw(_f1, C, _b1), v), C), cwt(rem(_wr, v), C), rbv(f, C, b), rbv(_f0, C, b), rbv(_f1, C, _b1)])
# costs lie within K per element
K_ = Int('K_')
abnd, abw = Function('abnd', AIN, I, I, B), Function('abw', AIN, I, I, I)      # the first n entries are within [-k, k]
ax('abnd1', D, [C, n, K_, e], Implies(And(abnd(C, n, K_), 0 <= e, e < n), And(-K_ <= Select(C, e), Select(C, e) <= K_)), (abnd(C, n, K_), Select(C, e)))
ax('abnd2', D, [C, n, K_], Or(abnd(C, n, K_), And(0 <= abw(C, n, K_), abw(C, n, K_) < n, Or(Select(C, abw(C, n, K_)) < -K_, Select(C, abw(C, n, K_)) > K_))), abnd(C, n, K_))
KC = 1 << 31                # costs are C ints
BC = KC * T.VMAX            # no set costs more
def within(x): return And(-BC <= x, x <= BC)
ax('cwt_b', THEO, [s, f, C], Implies(And(abnd(C, N, KC), N <= T.VMAX, mem(s, f), f != null), within(cwt(s, C))), (cwt(s, C), mem(s, f), abnd(C, N, KC)))
# the cost of a member depends only on the entries of its elements
agr, agw = Function('agr', AIN, AIN, I, B), Function('agw', AIN, AIN, I, I)
ax('agr1', D, [C, C2, n, e], Implies(And(agr(C, C2, n), 0 <= e, e < n), Select(C, e) == Select(C2, e)), (agr(C, C2, n), Select(C, e)), (agr(C, C2, n), Select(C2, e)))
ax('agr2', D, [C, C2, n], Or(agr(C, C2, n), And(0 <= agw(C, C2, n), agw(C, C2, n) < n, Select(C, agw(C, C2, n)) != Select(C2, agw(C, C2, n)))), agr(C, C2, n))
ax('cwt_g', THEO, [C, C2, n, f, s], Implies(And(agr(C, C2, n), top_le(f, n), mem(s, f)), cwt(s, C) == cwt(s, C2)), (agr(C, C2, n), mem(s, f), cwt(s, C)), (agr(C, C2, n), mem(s, f), cwt(s, C2)))
# a table of results for a family, by negated cost: every finite key is the cost of
# a member; a result that is there (not null) is that of its cost, and the next cost is a key too
AZ, AB_ = ArraySort(I, F), ArraySort(I, B)
dm, vl = Const('dm_', AB_), Const('vl_', AZ)
zok, zkw = Function('zok', F, AIN, AB_, AZ, B), Function('zkw', F, AIN, AB_, AZ, I)


def zkey(f, C, dm, vl, k):
    """what has to hold of key k"""
    return And(Implies(k != NUL, ach(f, C, -k)), Implies(Select(vl, k) != null, And(Select(vl, k) == cle(f, C, -k), Implies(hrb(f, C, -k), Select(dm, -rbv(f, C, -k))))))


ax('zok1', D, [f, C, dm, vl, e], Implies(And(zok(f, C, dm, vl), Select(dm, e)), zkey(f, C, dm, vl, e)), (zok(f, C, dm, vl), Select(dm, e)))
ax('zok2', D, [f, C, dm, vl], Or(zok(f, C, dm, vl), And(Select(dm, zkw(f, C, dm, vl)), Not(zkey(f, C, dm, vl, zkw(f, C, dm, vl))))), zok(f, C, dm, vl))
ne, nek = Function('ne', AB_, B), Function('nek', AB_, I)
ax('ne1', D, [dm], Implies(ne(dm), Select(dm, nek(dm))), ne(dm))
ax('ne2', D, [dm, e], Implies(Select(dm, e), ne(dm)), (ne(dm), Select(dm, e)))
