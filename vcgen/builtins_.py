"""Assumed contracts: the C++ standard library and the node-level primitives of
SAPPOROBDD (bddc.h).  Everything here is in the trusted base of the proofs."""
import z3
from z3 import And, Or, Not, If, IntVal, BoolVal, RealVal, Implies
import theory as T
from sym import *
from sym import _fresh

BI = {}


def reg(*names):
    def d(f):
        for n in names: BI[n] = f
        return f
    return d


# ------------------------------------------------------------- node primitives
def _nn(ex, st, f, what, e):
    if not T.nonnull(f): ex.oblige(st, 'argument of %s is not null' % what, f != T.null, 'call-pre', e.get('l'))


def _fam(ex, st, a):
    v = ex.rv(st, a)
    return ex.asfam(v)


def binop(key, op):
    @reg(key)
    def f(ex, st, fn, this, args, e):
        a, b = _fam(ex, st, args[0]), _fam(ex, st, args[1])
        _nn(ex, st, a, fn['short'], e); _nn(ex, st, b, fn['short'], e)
        return [(st, op(a, b))]


W = 'unsigned long long'
binop('bddunion(%s,%s)' % (W, W), T.funion)
binop('bddintersec(%s,%s)' % (W, W), T.fint)
binop('bddsubtract(%s,%s)' % (W, W), T.fdiff)


def varop(name, op):
    @reg('name:' + name)
    def f(ex, st, fn, this, args, e):
        a = _fam(ex, st, args[0]); v = ex.toint(ex.rv(st, args[1]))
        _nn(ex, st, a, fn['short'], e)
        ex.oblige(st, 'variable given to %s exists' % name, And(v >= 1, v <= T.N), 'call-pre', e.get('l'))
        return [(st, op(a, v))]


varop('bddoffset', T.offset); varop('bddonset', T.onset); varop('bddonset0', T.onset0); varop('bddchange', T.change)


@reg('name:bddcopy')
def _copy(ex, st, fn, this, args, e): return [(st, ex.rv(st, args[0]))]


@reg('name:bddfree')
def _free(ex, st, fn, this, args, e): return [(st, None)]


@reg('name:bddtop')
def _top(ex, st, fn, this, args, e): return [(st, T.topv(_fam(ex, st, args[0])))]


@reg('name:bddlevofvar')
def _lev(ex, st, fn, this, args, e):
    v = ex.toint(ex.rv(st, args[0]))
    ex.oblige(st, 'variable given to bddlevofvar exists', And(v >= 0, v <= T.N), 'call-pre', e.get('l'))
    return [(st, T.lev(v))]


@reg('name:bddvaroflev')
def _vol(ex, st, fn, this, args, e):
    n = ex.toint(ex.rv(st, args[0]))
    ex.oblige(st, 'level given to bddvaroflev exists', And(n >= 1, n <= T.N), 'call-pre', e.get('l'))
    return [(st, T.N + 1 - n)]


@reg('name:bddvarused', 'name:BDD_VarUsed')
def _vu(ex, st, fn, this, args, e): return [(st, T.N)]


@reg('name:BDDerr')
def _err(ex, st, fn, this, args, e):
    # the library terminates the process: the path ends here
    ex.oblige(st, 'the fatal error is not reached', BoolVal(False), 'safety', e.get('l'))
    return []


@reg('name:bddrcache')
def _rc(ex, st, fn, this, args, e):
    op = z3.simplify(ex.toint(ex.rv(st, args[0])))
    a = _fam(ex, st, args[1]); k = ex.rv(st, args[2])
    r = z3.Const('cached!%d' % next(_fresh), T.F)
    s = st.clone()
    cl = [Implies(d, r == sp) for _, d, sp in ex.opcache(op, a, k)]
    s.pc.append(Or(r == T.null, And(cl) if cl else BoolVal(True)))
    ex.cacheuse.add(str(op))
    return [(s, r)]


@reg('name:bddwcache')
def _wc(ex, st, fn, this, args, e):
    op = z3.simplify(ex.toint(ex.rv(st, args[0])))
    a = _fam(ex, st, args[1]); k = ex.rv(st, args[2]); r = _fam(ex, st, args[3])
    ex.oblige(st, 'operation code reserved for user operations', And(op >= 20, op <= 255), 'call-pre', e.get('l'))
    if z3.is_int(k): ex.oblige(st, 'number stored in the operation cache has 40 bits', And(k >= 0, k < 1 << 40), 'call-pre', e.get('l'))
    for nm, d, sp in ex.opcache(op, a, k):
        if sp is None:
            ex.oblige(st, 'operation cache code %s: %s' % (op, nm), BoolVal(False), 'cache', e.get('l')); continue
        for nm2, g in famgoals(r, sp, nm):
            ex.oblige(st, 'entry stored in the operation cache (%s): %s' % (op, nm2), Implies(d, g), 'cache', e.get('l'))
    return [(st, None)]


# recursion counters of the library (BDD_RECUR_INC/DEC): only guard the stack
@reg('global:BDD_RecurCount')
def _rcnt(ex, st, e):
    root = ('recur',)
    if root not in st.store:
        st.store[root] = IntVal(0)
    return Loc(root)


@reg('global:BDD_RecurLimit')
def _rlim(ex, st, e): return IntVal(8192)


# ------------------------------------------------------------- std::vector
def isalloc(t): return 'allocator_type' in t or t.replace('const ', '').strip().startswith('std::allocator<')


def vloc(ex, st, this):
    return ex.rv(st, this)


@reg('ctor:vec')
def _vctor(ex, st, t, fn, args, e):
    p = fn['ptypes']
    if not args or (len(args) == 1 and isalloc(p[0])): return [(st, ex.th.default(t))]
    a0 = ex.rv(st, args[0])
    if isinstance(a0, Vec): return [(st, a0)]
    if isinstance(a0, It) and len(args) >= 2:
        a1 = ex.rv(st, args[1])
        src = ex.read(st, a0.loc)
        if a0.kind == 'set':
            s0 = src
            r = ex.th.fresh(t, 'vecofset')
            s = st.clone()
            i = z3.Int('i!%d' % next(_fresh))
            s.pc += [r.len == T.card(s0), sov(r.el[0], 0, r.len) == s0, z3.ForAll([i], Implies(And(0 <= i, i < r.len), z3.Select(r.el[0], i) == T.nth(s0, i)), patterns=[z3.Select(r.el[0], i)])]
            ex.oblige(st, 'whole range copied', And(a0.pos == 0, a1.pos == T.card(s0)), 'safety', e.get('l'))
            return [(s, r)]
        raise Unsupported('vector from iterators')
    if isinstance(a0, Opaque) and a0.tag == 'initlist':
        v = ex.th.default(t)
        for i, x in enumerate(a0.data):
            v = Vec(t, IntVal(i + 1), [z3.Store(c, i, n) for c, n in zip(v.el, ex.th.flat(t.elem, x))])
        return [(st, v)]
    if len(args) >= 1 and z3.is_expr(a0):
        d = ex.rv(st, args[1]) if len(args) >= 2 and not isalloc(p[1]) else ex.th.default(t.elem)
        cs = ex.th.flat(t.elem, d)
        return [(st, Vec(t, a0, [z3.K(z3.IntSort(), c) for c in cs]))]
    raise Unsupported('vector constructor ' + fn['key'])


def vidx(ex, st, this, i, e, what='index within bounds'):
    v = ex.rv(st, this)
    ex.oblige(st, 'vector ' + what, And(i >= 0, i < v.len), 'safety', e.get('l'))


@reg('m:vec:operator[]', 'm:vec:at')
def _vi(ex, st, fn, this, args, e):
    i = ex.toint(ex.rv(st, args[0]))
    i = strip_wrap(i)
    vidx(ex, st, this, i, e)
    if isinstance(this, Loc): return [(st, this.sub(('i', i)))]
    return [(st, ex.proj(ex.rv(st, this), 'i', i))]


def strip_wrap(i):
    """x converted to an unsigned index: the bounds obligation rules the wrapped case out"""
    if z3.is_app(i) and i.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = i.children()
        return i
    return i


@reg('m:vec:size', 'm:vec:length')
def _vs(ex, st, fn, this, args, e): return [(st, ex.rv(st, this).len)]


@reg('m:vec:empty')
def _ve(ex, st, fn, this, args, e): return [(st, ex.rv(st, this).len == 0)]


@reg('m:vec:push_back', 'm:vec:emplace_back')
def _vp(ex, st, fn, this, args, e):
    v = ex.rv(st, this); x = ex.rv(st, args[0])
    s = st.clone()
    cs = ex.th.flat(v.ty.elem, ex.coerce(x, v.ty.elem))
    ex.write(s, this, Vec(v.ty, v.len + 1, [z3.Store(c, v.len, n) for c, n in zip(v.el, cs)]))
    return [(s, None)]


@reg('m:vec:pop_back')
def _vpop(ex, st, fn, this, args, e):
    v = ex.rv(st, this)
    ex.oblige(st, 'pop_back of a non-empty vector', v.len > 0, 'safety', e.get('l'))
    s = st.clone(); ex.write(s, this, Vec(v.ty, v.len - 1, v.el))
    if len(v.el) == 1 and v.el[0].range() == T.F:
        import theory2
        x = z3.Const('x!p', T.F); b = theory2.vin(v.el[0], v.len - 1, x)
        s.pc.append(z3.ForAll([x], Implies(And(b, v.len > 0), theory2.vin(v.el[0], v.len, x))))
    return [(s, None)]


@reg('m:vec:back')
def _vb(ex, st, fn, this, args, e):
    v = ex.rv(st, this)
    ex.oblige(st, 'back of a non-empty vector', v.len > 0, 'safety', e.get('l'))
    if v.ty.elem.kind == 'F' or len(v.el) == 1 and v.el[0].range() == T.F:
        import theory2
        st = st.clone(); m = v.len - 1
        st.pc.append(Implies(v.len > 0, theory2.vin(v.el[0], v.len, z3.Select(v.el[0], m))))
    return [(st, this.sub(('i', v.len - 1)))]


@reg('m:vec:clear')
def _vcl(ex, st, fn, this, args, e):
    v = ex.rv(st, this); s = st.clone(); ex.write(s, this, Vec(v.ty, IntVal(0), v.el)); return [(s, None)]


@reg('m:vec:resize')
def _vr(ex, st, fn, this, args, e):
    v = ex.rv(st, this); n = ex.toint(ex.rv(st, args[0]))
    d = ex.rv(st, args[1]) if len(args) > 1 else ex.th.default(v.ty.elem)
    s = st.clone()
    i = z3.Int('i!r')
    cs = ex.th.flat(v.ty.elem, d)
    if v_is0(v): el = [z3.K(z3.IntSort(), c2) for c2 in cs]
    else:
        el = []
        for c, c2 in zip(v.el, cs):
            r = z3.Const('resized!%d' % next(_fresh), c.sort()); el.append(r)
            s.pc.append(z3.ForAll([i], z3.Select(r, i) == If(And(i >= v.len), c2, z3.Select(c, i)), patterns=[z3.Select(r, i)]))
    ex.write(s, this, Vec(v.ty, n, el))
    return [(s, None)]


def v_is0(v):
    x = z3.simplify(v.len)
    return z3.is_int_value(x) and x.as_long() == 0


@reg('m:vec:begin', 'm:vec:cbegin')
def _vbeg(ex, st, fn, this, args, e): return [(st, It('vec', aloc(ex, st, this), IntVal(0)))]


@reg('m:vec:end', 'm:vec:cend')
def _vend(ex, st, fn, this, args, e):
    this = aloc(ex, st, this)
    return [(st, It('vec', this, ex.rv(st, this).len))]


def aloc(ex, st, this):
    if isinstance(this, Loc): return this
    root = ('tmp', next(_fresh)); st.store[root] = this
    return Loc(root)


# ------------------------------------------------------------- std::set<elem>
@reg('ctor:set')
def _sctor(ex, st, t, fn, args, e):
    if not args: return [(st, T.es)]
    a0 = ex.rv(st, args[0])
    if z3.is_expr(a0) and a0.sort() == T.S: return [(st, a0)]
    if isinstance(a0, It) and a0.kind == 'vec':
        v = ex.read(st, a0.loc); a1 = ex.rv(st, args[1])
        return [(st, setofvec(ex, st, v, a0.pos, a1.pos))]
    raise Unsupported('set constructor')


sov = z3.Function('setofvec', z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.IntSort(), z3.IntSort(), T.S)
sovi = z3.Function('setofveci', z3.ArraySort(z3.IntSort(), z3.IntSort()), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
_A = z3.Const('A_', z3.ArraySort(z3.IntSort(), z3.IntSort()))
_x, _y, _z = z3.Ints('x_ y_ z_')
T.ax('sov1', 'DEF', [_A, _x, _y, _z], Implies(T.has(sov(_A, _x, _y), _z), And(_x <= sovi(_A, _x, _y, _z), sovi(_A, _x, _y, _z) < _y, z3.Select(_A, sovi(_A, _x, _y, _z)) == _z)), T.has(sov(_A, _x, _y), _z))
_i = z3.Int('i_')
T.ax('sov2', 'DEF', [_A, _x, _y, _i], Implies(And(_x <= _i, _i < _y), T.has(sov(_A, _x, _y), z3.Select(_A, _i))), (sov(_A, _x, _y), z3.Select(_A, _i)))


def setofvec(ex, st, v, lo, hi): return sov(v.el[0], lo, hi)


@reg('m:set:insert')
def _sins(ex, st, fn, this, args, e):
    v = ex.rv(st, this); x = ex.toint(ex.rv(st, args[0])); s = st.clone()
    ex.write(s, this, T.add(v, x))
    return [(s, Opaque('setinsert'))]


@reg('m:set:erase')
def _sera(ex, st, fn, this, args, e):
    v = ex.rv(st, this); x = ex.toint(ex.rv(st, args[0])); s = st.clone()
    ex.write(s, this, T.rem(v, x))
    return [(s, If(T.has(v, x), IntVal(1), IntVal(0)))]


@reg('m:set:clear')
def _sclr(ex, st, fn, this, args, e): s = st.clone(); ex.write(s, this, T.es); return [(s, None)]


@reg('m:set:count')
def _scnt(ex, st, fn, this, args, e): return [(st, If(T.has(ex.rv(st, this), ex.toint(ex.rv(st, args[0]))), IntVal(1), IntVal(0)))]


@reg('m:set:size')
def _ssz(ex, st, fn, this, args, e): return [(st, T.card(ex.rv(st, this)))]


@reg('m:set:empty')
def _semp(ex, st, fn, this, args, e): return [(st, ex.rv(st, this) == T.es)]


@reg('m:set:begin')
def _sbeg(ex, st, fn, this, args, e): return [(st, It('set', aloc(ex, st, this), IntVal(0)))]


@reg('m:set:end')
def _send(ex, st, fn, this, args, e):
    this = aloc(ex, st, this); return [(st, It('set', this, T.card(ex.rv(st, this))))]


@reg('m:set:operator=', 'm:vec:operator=', 'm:map:operator=', 'm:pair:operator=', 'm:iter:operator=', 'm:pset:operator=')
def _asg(ex, st, fn, this, args, e):
    s = st.clone(); ex.write(s, this, ex.rv(st, args[0])); return [(s, this)]


# ------------------------------------------------------------- std::map / set<word>
@reg('ctor:map', 'ctor:pset')
def _mctor(ex, st, t, fn, args, e):
    if not args: return [(st, ex.th.default(t))]
    a0 = ex.rv(st, args[0])
    if isinstance(a0, Map): return [(st, a0)]
    raise Unsupported('map constructor')


def mkey(ex, st, this, a):
    m = ex.rv(st, this)
    kt = m.ty.key if m.ty.kind == 'map' else m.ty.elem
    return m, ex.keyval(kt, ex.rv(st, a))


@reg('m:map:find', 'm:pset:find')
def _mfind(ex, st, fn, this, args, e):
    m, k = mkey(ex, st, this, args[0])
    return [(st, It('map', aloc(ex, st, this), k))]


@reg('m:map:end', 'm:pset:end')
def _mend(ex, st, fn, this, args, e): return [(st, It('mapend', aloc(ex, st, this), None))]


def ordered(m): return m.ty.kind == 'map' and any(m.ty.text.startswith('std::map<%s, ' % k) and ' std::less<%s>,' % k in m.ty.text for k in ('long long', 'long', 'int'))


@reg('m:map:lower_bound', 'm:map:upper_bound')
def _mlb(ex, st, fn, this, args, e):
    m, x = mkey(ex, st, this, args[0])
    if not ordered(m): return NotImplemented
    end, k, j = z3.Bool('end!%d' % next(_fresh)), z3.Int('key!%d' % next(_fresh)), z3.Int('j!')
    ok = lambda y: And(z3.Select(m.dom, y), y >= x if fn['short'] == 'lower_bound' else y > x)
    all_ = lambda b: z3.ForAll([j], b, patterns=[z3.Select(m.dom, j)])
    s = st.clone()
    s.pc += [Implies(Not(end), And(ok(k), all_(Implies(ok(j), k <= j)))), Implies(end, all_(Not(ok(j))))]
    return [(s, It('omap', aloc(ex, s, this), (end, k)))]


@reg('m:map:begin')
def _mbegin(ex, st, fn, this, args, e):
    m = ex.rv(st, this)
    if ordered(m):
        end, k, j = z3.Bool('end!%d' % next(_fresh)), z3.Int('key!%d' % next(_fresh)), z3.Int('j!')
        all_ = lambda b: z3.ForAll([j], b, patterns=[z3.Select(m.dom, j)])
        s = st.clone()
        s.pc += [Implies(Not(end), And(z3.Select(m.dom, k), all_(Implies(z3.Select(m.dom, j), k <= j)))), Implies(end, all_(Not(z3.Select(m.dom, j))))]
        return [(s, It('omap', aloc(ex, s, this), (end, k)))]
    return [(st, It('mapit', aloc(ex, st, this), IntVal(0)))]


@reg('m:map:count', 'm:pset:count')
def _mcnt(ex, st, fn, this, args, e):
    m, k = mkey(ex, st, this, args[0])
    return [(st, If(z3.Select(m.dom, k), IntVal(1), IntVal(0)))]


@reg('m:map:operator[]')
def _msub(ex, st, fn, this, args, e):
    m, k = mkey(ex, st, this, args[0])
    d = ex.th.flat(m.ty.val, ex.th.default(m.ty.val))
    s = st.clone()
    ex.write(s, this, Map(m.ty, z3.Store(m.dom, k, True), [z3.Store(c, k, If(z3.Select(m.dom, k), z3.Select(c, k), x)) for c, x in zip(m.val, d)]))
    return [(s, this.sub(('k', k)))]


@reg('m:map:at')
def _mat(ex, st, fn, this, args, e):
    m, k = mkey(ex, st, this, args[0])
    ex.oblige(st, 'map::at finds its key', z3.Select(m.dom, k), 'safety', e.get('l'))
    s = st.clone(); s.pc.append(z3.Select(m.dom, k))
    return [(s, this.sub(('k', k)))]


@reg('m:pset:insert')
def _psins(ex, st, fn, this, args, e):
    m, k = mkey(ex, st, this, args[0]); s = st.clone()
    ex.write(s, this, Map(m.ty, z3.Store(m.dom, k, True), [])); return [(s, Opaque('ins'))]


def itcmp(neg):
    def f(ex, st, fn, this, args, e):
        a, b = (ex.rv(st, x) for x in args[:2])
        if not (isinstance(a, It) and isinstance(b, It)): return NotImplemented
        r = ex.iter_eq(st, a, b)
        return [(st, Not(r) if neg else r)]
    return f


BI['name:std::operator=='] = BI['name:__gnu_cxx::operator=='] = itcmp(False)
BI['name:std::operator!='] = BI['name:__gnu_cxx::operator!='] = itcmp(True)


def itmcmp(neg):
    def f(ex, st, fn, this, args, e):
        a, b = ex.rv(st, this), ex.rv(st, args[0])
        r = ex.iter_eq(st, a, b)
        return [(st, Not(r) if neg else r)]
    return f


BI['m:iter:operator=='] = itmcmp(False)
BI['m:iter:operator!='] = itmcmp(True)


@reg('m:iter:operator->')
def _itarrow(ex, st, fn, this, args, e): return [(st, ex.rv(st, this))]


@reg('m:iter:operator*')
def _itstar(ex, st, fn, this, args, e): return [(st, ex.deref_iter(st, ex.rv(st, this), e, None))]


@reg('m:iter:operator++', 'm:iter:operator--')
def _itpp(ex, st, fn, this, args, e):
    v = ex.rv(st, this); s = st.clone()
    nv = ex.iter_step(s, v, 1 if '++' in fn['short'] else -1)
    ex.write(s, this, nv)
    return [(s, v if args else this)]


@reg('ctor:iter')
def _itctor(ex, st, t, fn, args, e):
    return [(st, ex.rv(st, args[0]))]


@reg('ctor:pair')
def _pctor(ex, st, t, fn, args, e):
    if len(args) == 1:
        v = ex.rv(st, args[0]); return [(st, v)]
    if len(args) == 2: return [(st, Pair(ex.rv(st, args[0]), ex.rv(st, args[1])))]
    return [(st, ex.th.default(t))]


@reg('name:std::make_pair')
def _mp(ex, st, fn, this, args, e): return [(st, Pair(ex.rv(st, args[0]), ex.rv(st, args[1])))]


@reg('ctor:str')
def _strctor(ex, st, t, fn, args, e):
    v = ex.rv(st, args[0]) if args else Str('')
    return [(st, v if isinstance(v, Str) else Str(None))]


@reg('name:std::find')
def _find(ex, st, fn, this, args, e):
    a, b, x = (ex.rv(st, q) for q in args)
    if not (isinstance(a, It) and a.kind == 'vec'): return NotImplemented
    v = ex.read(st, a.loc)
    x = ex.toint(x)
    p = z3.Int('find!%d' % next(_fresh)); i = z3.Int('i!%d' % next(_fresh))
    s = st.clone()
    s.pc += [a.pos <= p, p <= b.pos, Implies(p < b.pos, z3.Select(v.el[0], p) == x),
             z3.ForAll([i], Implies(And(a.pos <= i, i < p), z3.Select(v.el[0], i) != x), patterns=[z3.Select(v.el[0], i)])]
    return [(s, It('vec', a.loc, p))]


@reg('name:std::binary_search')
def _bs(ex, st, fn, this, args, e):
    a, b, x = (ex.rv(st, q) for q in args)
    if not (isinstance(a, It) and a.kind == 'vec'): return NotImplemented
    v = ex.read(st, a.loc)
    i, j = z3.Ints('i!%d j!%d' % (next(_fresh), next(_fresh)))
    ex.oblige(st, 'binary_search over a sorted range', z3.ForAll([i, j], Implies(And(a.pos <= i, i < j, j < b.pos), z3.Select(v.el[0], i) <= z3.Select(v.el[0], j))), 'call-pre', e.get('l'))
    return [(st, T.has(sov(v.el[0], a.pos, b.pos), ex.toint(x)))]


@reg('name:std::sort')
def _sort(ex, st, fn, this, args, e):
    a, b = (ex.rv(st, q) for q in args[:2])
    if not (isinstance(a, It) and a.kind == 'vec'): return NotImplemented
    v = ex.read(st, a.loc)
    # a strictly increasing range is left alone; otherwise some permutation
    nv = z3.Const('sorted!%d' % next(_fresh), v.el[0].sort())
    i, j = z3.Ints('i!%d j!%d' % (next(_fresh), next(_fresh)))
    s = st.clone()
    s.pc += [z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < v.len), z3.Select(nv, i) <= z3.Select(nv, j)), patterns=[z3.MultiPattern(z3.Select(nv, i), z3.Select(nv, j))]),
             sov(nv, 0, v.len) == sov(v.el[0], 0, v.len)]
    import theory2
    s.pc.append(Implies(theory2.srt(v.el[0], v.len), nv == v.el[0]))
    s.pc.append(Or(nv == v.el[0], Not(z3.ForAll([i, j], Implies(And(0 <= i, i < j, j < v.len), z3.Select(v.el[0], i) < z3.Select(v.el[0], j))))))
    ex.write(s, a.loc, Vec(v.ty, v.len, [nv]))
    return [(s, None)]


@reg('name:std::max', 'name:std::min')
def _mx(ex, st, fn, this, args, e):
    a, b = (ex.rv(st, q) for q in args[:2])
    if not z3.is_expr(a): return NotImplemented
    return [(st, If(a >= b, a, b) if fn['short'] == 'max' else If(a <= b, a, b))]


@reg('name:__assert_fail')
def _af(ex, st, fn, this, args, e):
    ex.oblige(st, 'assertion holds', BoolVal(False), 'safety', e.get('l'))
    return []


@reg('m:pair:operator=')
def _pasg(ex, st, fn, this, args, e):
    s = st.clone(); ex.write(s, this, ex.rv(st, args[0])); return [(s, this)]


@reg('name:fprintf', 'name:printf', 'name:fflush')
def _fpf(ex, st, fn, this, args, e): return [(st, IntVal(0))]


@reg('name:exit', 'name:abort', 'name:std::exit', 'name:std::abort')
def _exit(ex, st, fn, this, args, e):
    ex.oblige(st, 'the process is not terminated', BoolVal(False), 'safety', e.get('l'))
    return []


NUM = z3.Int('num_elems_')
T.RANGES['num_elems_'] = (0, T.VMAX)


@reg('graphillion::num_elems()')
def _numel(ex, st, fn, this, args, e): return [(st, NUM)]


@reg('name:std::_Bit_reference::operator=')
def _bra(ex, st, fn, this, args, e):
    if not isinstance(this, Loc): raise Unsupported('bit reference')
    s = st.clone(); ex.write(s, this, ex.tobool(ex.rv(st, args[0]))); return [(s, this)]


@reg('name:std::_Bit_reference::operator bool')
def _brb(ex, st, fn, this, args, e): return [(st, ex.rv(st, this))]
