"""Symbolic execution of bddc.cc on the level of ids and tables: diagrams are 40-bit
numbers, Node, Var, VarID and Cache are tables.  See theory4.py."""
from sym import *
from sym import _fresh
import theory as T
import theory4 as T4

M40 = 1 << 40
CACHE = ('bcache',)


class IdTheory(Theory):
    def sorts(self, t, word_fam=True):
        return [z3.IntSort()] if t.kind == 'int' else super().sorts(t, word_fam)

    def flat(self, t, v): return [v] if t.kind == 'int' else super().flat(t, v)


def isname(v, n): return z3.is_app(v) and v.decl().name() == n


def num(v):
    v = z3.simplify(v)
    return v.as_long() if z3.is_int_value(v) else None


class BddExec(Exec):
    """executor for contracts of layer 'id'"""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.th = IdTheory(self)

    def asfam(self, v): return v if v.sort() == T.F else T4.fam(v)

    # ---- tables
    def read(self, st, loc):
        if loc.root[0] == 'ndtab': return self.nodefield(*loc.path[0][1])
        if loc.root[0] == 'vartab':
            (_, i), (_, f) = loc.path
            if f != 'lev': raise Unsupported('field %s of the variable table' % f)
            return T.lev(i)
        if loc.root[0] == 'varidtab': return T.N + 1 - loc.path[0][1]
        return super().read(st, loc)

    def nodefield(self, k, f):
        for nm, q in (('f0', T4.nf0), ('f1', T4.nf1)):
            if f == nm + '_32': return T4.lo32(q(k))
            if f == nm + '_h8': return T4.hi8(q(k))
        if f == 'varrfc':
            # the reference counts are not followed: any count, the variable of the node
            w = z3.Int('varrfc!%d' % next(_fresh))
            T.RANGES[w.decl().name()] = (0, (1 << 32) - 1)
            self.extfacts += [0 <= w, w < (1 << 32), Implies(T4.alloc(k), w % 65536 == T4.nvar(k))]
            return w
        raise Unsupported('field %s of a node' % f)

    def write(self, st, loc, val):
        if loc.root[0] == 'ndtab':
            k, f = loc.path[0][1]
            if f != 'varrfc': raise Unsupported('write to field %s of a node' % f)
            self.oblige(st, 'the variable of a node is not changed', val % 65536 == T4.nvar(k), 'safety')
            return
        if loc.root[0] in ('vartab', 'varidtab'): raise Unsupported('write to the variable table')
        super().write(st, loc, val)

    def e_index(self, st, e):
        out = []
        for s, a in self.ev(st, e['a']):
            v = self.rv(s, a)
            if not (isinstance(v, Opaque) and v.tag in ('VarBase', 'VarIDBase')): return super().e_index(st, e)
            for s2, i in self.evv(s, e['i']):
                i = self.toint(i)
                self.oblige(s2, 'variable table index within bounds', And(i >= 0, i <= T.N), 'safety', e.get('l'))
                out.append((s2, Loc(('vartab',) if v.tag == 'VarBase' else ('varidtab',), (('i', i),))))
        return out

    def e_member(self, st, e):
        if e.get('arrow'):
            out = []
            for s, b in self.ev(st, e['base']):
                p = self.rv(s, b)
                if not (isinstance(p, Opaque) and p.tag == 'node'): return super().e_member(st, e)
                self.oblige(s, 'the node read is in the table', T4.alloc(p.data), 'safety', e.get('l'))
                out.append((s, Loc(('ndtab',), (('nd', (p.data, e['name'])),))))
            return out
        return super().e_member(st, e)

    # ---- words
    def fresh_bits(self, st, t, ub=()):
        w = z3.Int('bits!%d' % next(_fresh))
        M = 1 << t.bits
        T.RANGES[w.decl().name()] = (0, M - 1)
        self.extfacts += [0 <= w, w < M] + [w <= u for u in ub]
        return w

    def binop(self, st, op, a, b, e):
        if isinstance(a, Opaque) and a.tag in ('NodeBase', 'CacheBase') and op == '+':
            b = self.toint(b)
            if a.tag == 'NodeBase': return Opaque('node', b)
            self.oblige(st, 'operation cache index within bounds', And(b >= 0, b < st.store[CACHE].len), 'safety', e.get('l'))
            return Ptr(Loc(CACHE, (('i', b),)))
        if isinstance(a, Opaque) and a.tag == 'node':
            if isinstance(b, Opaque) and b.tag == 'NodeBase' and op == '-': return a.data
            if isinstance(b, Opaque) and b.tag == 'node' and op in ('<', '<=', '>', '>=', '==', '!='):
                x, y = a.data, b.data
                return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[op]
        if isinstance(a, (Ptr, Opaque)) or isinstance(b, (Ptr, Opaque)) or op not in ('&', '|', '^', '<<', '>>'): return super().binop(st, op, a, b, e)
        t = ty(e['ct'] if 'ct' in e else e['t'])
        a, b = self.toint(a), self.toint(b)
        if num(a) is not None and num(b) is not None:
            x, y = num(a), num(b)
            r = {'&': x & y, '|': x | y, '^': x ^ y, '<<': x << y if y < 64 else 0, '>>': x >> y}[op]
            return IntVal(r % (1 << t.bits)) if not t.signed else IntVal(r)
        if num(a) is not None and op in ('&', '|', '^'): a, b = b, a
        c = num(b)
        if op == '&' and c == 1:
            # the 0-edge of a node (its presence in the table is an obligation of the read) carries the mark
            w = a.arg(0) if isname(a, 'lo32') else a
            return IntVal(1) if isname(w, 'nf0') else T4.neg(a)
        if op == '^' and c == 1: return T4.nt(a)
        if op == '&' and c == (1 << 64) - 2: return T4.ab(a)
        if op == '&' and c == T4.CSTB: return T4.cst(a)
        if op == '&' and c == (1 << 32) - 1: return T4.lo32(a)
        if op == '&' and c is not None and (c + 1) & c == 0: return a % (c + 1)
        if op == '>>' and c == 1: return T4.ndx(a.arg(0)) if isname(a, 'ab') else T4.ndx(a)
        if op == '>>' and c == 32: return T4.shr32(a)
        if op == '<<' and c == 32: return T4.shl32(a)
        if op == '>>' and c is not None: return a / (1 << c)
        if op == '<<' and c is not None: return self.wrapu(a * (1 << c), t, True)
        if op == '|':
            if isname(a, 'shl32'): a, b = b, a
            if isname(b, 'shl32'):
                b = b.arg(0)
                if isname(a, 'lo32') and isname(b, 'hi8') and a.arg(0).eq(b.arg(0)) and a.arg(0).decl().name() in ('nf0', 'nf1'): return a.arg(0)
                return T4.join40(a, b)
        if op == '^' and self.isbit(a) and self.isbit(b): return If(a == b, IntVal(0), IntVal(1))
        if t.signed: raise Unsupported('bit operation on signed numbers')
        return self.fresh_bits(st, t, [v for v in (a, b) if op == '&'])

    def isbit(self, v):
        r = T.rng(v)
        return r is not None and 0 <= r[0] and r[1] <= 1

    def cast(self, v, ft, tt):
        b = ty(tt)
        if b.kind == 'int' and z3.is_expr(v) and isname(v, 'shr32') and b.bits == 8 and not b.signed: return T4.hi8(v.arg(0))
        return super().cast(v, ft, tt)

    def convint(self, v, a, b):
        if isname(v, 'ab') or isname(v, 'nt') or isname(v, 'neg') or isname(v, 'cst'):       # of numbers of 64 bits
            if a.kind == 'int' and not a.signed and b.bits >= a.bits: return v
        return super().convint(v, a, b)

    # ---- statements: two branches that only assign numbers are one state
    def s_if(self, st, x):
        out = super().s_if(st, x)
        if len(out) != 2 or any(s.flow for s in out) or x.get('init'): return out
        a, b = out
        n = len(st.pc)
        if len(a.pc) != n + 1 or len(b.pc) != n + 1 or not all(p is q for p, q in zip(a.pc[:n], st.pc)): return out
        c = a.pc[n]
        if not z3.simplify(Not(c)).eq(z3.simplify(b.pc[n])): return out
        m = st.clone()
        for r in set(a.store) | set(b.store):
            u, v = a.store.get(r), b.store.get(r)
            if u is v: m.store[r] = u; continue
            if u is None or v is None:
                if r in st.store: return out
                continue
            if not (z3.is_expr(u) and z3.is_expr(v) and u.sort() == v.sort()): return out
            m.store[r] = u if u.eq(v) else If(c, u, v)
        return [m]

    # ---- calls: one contract per operation code
    def apply(self, st, fn, this, args, e):
        if fn['name'] == 'apply' and len(args) == 4:
            op = num(self.toint(self.rv(st, args[2])))
            con = self.con.get('%s#%s' % (fn['key'], op))
            if con is None: raise Unsupported('apply with operation code %s' % op)
            return self.apply_contract(st, con, fn, this, args, e)
        return super().apply(st, fn, this, args, e)
