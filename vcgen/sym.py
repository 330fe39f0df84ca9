"""Symbolic executor over the dumped AST: turns one function of /repo plus its
contract into verification conditions.  Calls are replaced by the callee's
contract; a callee without a contract (an accessor, a helper extracted by a
refactoring) is inlined, so that the proof follows what the code does, not how
it is cut into functions.  Loops are cut by invariants."""
import re, itertools
import z3
from z3 import And, Or, Not, If, Implies, IntVal, BoolVal, RealVal
import theory as T


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ types
def split_targs(s):
    out, depth, cur = [], 0, ''
    for c in s:
        if c == '<': depth += 1
        if c == '>': depth -= 1
        if c == ',' and depth == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += c
    if cur.strip(): out.append(cur.strip())
    return out


INTS = {'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False),
        'long long': (64, True), 'unsigned long long': (64, False), 'short': (16, True), 'unsigned short': (16, False),
        'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False)}


class Ty:
    """parsed type: kind in int,bool,real,fam,struct,vec,map,set,pair,ref,ptr,iter,str,stream,void,opaque"""
    cache = {}

    def __init__(self, kind, text, **kw):
        self.kind, self.text = kind, text
        self.__dict__.update(kw)

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.text)


# Pointer members that own what they point to (nothing else points there), given
# the value semantics of their target: an array allocated by new[] is a vector
# whose length is 0 when the pointer is null; an object allocated by new is an
# optional value.  Members that hold numbers and not diagrams have type bddword.
BUF = lambda e: Ty('vec', 'new[] ' + e, elem=ty(e), buf=True)
U64 = Ty('int', 'unsigned long long', bits=64, signed=False, word=False)
OWNED = {('BDDCT', '_cost'): lambda t: BUF(t.to.text), ('BDDCT', '_ca'): lambda t: BUF(t.to.text), ('BDDCT', '_ca0'): lambda t: BUF(t.to.text),
         ('BDDCT', '_label'): lambda t: Ty('any', 'any'), ('BDDCT::CacheEntry', '_zmap'): lambda t: Ty('own', 'own ' + t.to.text, to=t.to),
         **{('BDDCT', x): lambda t: U64 for x in ('_casize', '_caent', '_ca0size', '_ca0ent', '_call')}}


CST = 1 << 39                # B_CST_MASK and B_VAL_MASK of bddc.cc with B_64 (checked in front.py)
WORDS = {CST: T.bot, CST | 1: T.top, CST - 1: T.null}


def ty(text):
    text = text.strip()
    if text in Ty.cache: return Ty.cache[text]
    r = _ty(text)
    Ty.cache[text] = r
    return r


def _ty(text):
    t = text
    if t.endswith('&&'): return Ty('ref', text, to=ty(t[:-2]), const=t.startswith('const '))
    if t.endswith('&'): return Ty('ref', text, to=ty(t[:-1]), const=t.strip().startswith('const '))
    if t.endswith('*') or t.endswith('*const'):
        b = t[:-1] if t.endswith('*') else t[:-6].rstrip()[:-1]
        return Ty('ptr', text, to=ty(b), const=t.strip().startswith('const '))
    m = re.match(r'^(.*)\[(\d*)\]$', t)
    if m: return Ty('arr', text, elem=ty(m.group(1)))
    if t.startswith('const '): return ty(t[6:])
    if t.endswith(' const'): return ty(t[:-6])
    if t == 'void': return Ty('void', t)
    if t == 'bool' or t == 'std::_Bit_reference': return Ty('bool', t)
    if t in ('double', 'float'): return Ty('real', t)
    if t in INTS:
        b, sg = INTS[t]
        return Ty('int', t, bits=b, signed=sg, word=(t == 'unsigned long long'))
    m = re.match(r'^([\w:]+)<(.*)>$', t, re.S)
    if m:
        n, a = m.group(1), split_targs(m.group(2))
        if n == 'std::vector': return Ty('vec', t, elem=ty(a[0]))
        if n == 'std::set': return Ty('set' if a[0] in ('int',) else 'pset', t, elem=ty(a[0]))
        if n in ('std::map', 'std::unordered_map'): return Ty('map', t, key=ty(a[0]), val=ty(a[1]))
        if n == 'std::pair': return Ty('pair', t, a=ty(a[0]), b=ty(a[1]))
        if n in ('__gnu_cxx::__normal_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator'):
            return Ty('iter', t)
        if n == 'std::basic_string': return Ty('str', t)
        if n.startswith('std::basic_'): return Ty('stream', t)
    return Ty('struct', t)


ANYINT = Ty('int', 'integer', bits=128, signed=True, word=False)      # of unknown width


def plainint(t):
    """the type of a number that is not the identity of a diagram"""
    return Ty('int', t.text, bits=t.bits, signed=t.signed, word=False) if t.word else t


class Rec:
    """struct value"""
    __slots__ = ('ty', 'f')

    def __init__(self, ty_, f): self.ty, self.f = ty_, f


class Ptr:
    __slots__ = ('loc',)

    def __init__(self, loc): self.loc = loc


class It:
    __slots__ = ('kind', 'loc', 'pos')

    def __init__(self, kind, loc, pos): self.kind, self.loc, self.pos = kind, loc, pos


class Str:
    __slots__ = ('v',)

    def __init__(self, v): self.v = v


class Opaque:
    __slots__ = ('tag', 'data')

    def __init__(self, tag, data=None): self.tag, self.data = tag, data


class Vec:
    __slots__ = ('ty', 'len', 'el')

    def __init__(self, ty_, ln, el): self.ty, self.len, self.el = ty_, ln, el


class Map:
    __slots__ = ('ty', 'dom', 'val')

    def __init__(self, ty_, dom, val): self.ty, self.dom, self.val = ty_, dom, val


class Own:
    """owning pointer: null, or the object it points to"""
    __slots__ = ('ty', 'nn', 'o')

    def __init__(self, ty_, nn, o): self.ty, self.nn, self.o = ty_, nn, o


class Pair:
    __slots__ = ('a', 'b')

    def __init__(self, a, b): self.a, self.b = a, b


# a location is (root, path); path entries ('f',name) ('i',idx) ('k',key) ('p',0|1)
class Loc:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()): self.root, self.path = root, path

    def sub(self, *p): return Loc(self.root, self.path + tuple(p))

    def key(self): return (self.root, tuple((k, x if isinstance(x, (str, int)) else x.get_id() if hasattr(x, 'get_id') else repr(x)) for k, x in self.path))


_fresh = itertools.count()
PAIRKEY = None
STRS = []


def strcode(x):
    if x not in STRS: STRS.append(x)
    return STRS.index(x)


def pairsort():
    global PAIRKEY
    if PAIRKEY is None:
        d = z3.Datatype('PairF'); d.declare('mkpair', ('pfst', T.F), ('psnd', T.F)); PAIRKEY = d.create()
    return PAIRKEY


class Theory:
    """value construction by type"""

    def __init__(self, ex): self.ex = ex

    def sorts(self, t, word_fam=True):
        """flat list of z3 sorts of the components of a value of type t"""
        k = t.kind
        if k == 'int': return [T.F if (t.word and word_fam) else z3.IntSort()]
        if k == 'bool': return [z3.BoolSort()]
        if k == 'real': return [z3.RealSort()]
        if k == 'set': return [T.S]
        if k == 'struct': return [s for _, ft in self.ex.fields(t) for s in self.sorts(ft)]
        if k == 'vec': return [z3.IntSort()] + [z3.ArraySort(z3.IntSort(), s) for s in self.sorts(t.elem)]
        if k == 'pset': return [z3.ArraySort(self.keysort(t.elem), z3.BoolSort())]
        if k == 'map':
            ks = self.keysort(t.key)
            return [z3.ArraySort(ks, z3.BoolSort())] + [z3.ArraySort(ks, s) for s in self.sorts(t.val)]
        if k == 'pair': return self.sorts(t.a) + self.sorts(t.b)
        if k == 'own': return [z3.BoolSort()] + self.sorts(t.to)
        if k == 'any': return []
        raise Unsupported('no symbolic value for type ' + t.text)

    def keysort(self, t):
        if t.kind == 'int': return T.F if t.word else z3.IntSort()
        if t.kind == 'pair': return pairsort()
        if t.kind == 'str': return z3.IntSort()
        raise Unsupported('map key type ' + t.text)

    def flat(self, t, v):
        k = t.kind
        if k in ('int', 'bool', 'real', 'set'):
            if k == 'int' and t.word and v.sort() == z3.IntSort(): return [self.ex.tofam(v)]
            return [v]
        if k == 'struct': return [c for n, ft in self.ex.fields(t) for c in self.flat(ft, v.f[n])]
        if k == 'vec': return [v.len] + list(v.el)
        if k == 'pset': return [v.dom]
        if k == 'map': return [v.dom] + list(v.val)
        if k == 'pair': return self.flat(t.a, v.a) + self.flat(t.b, v.b)
        if k == 'own': return [v.nn] + self.flat(t.to, v.o)
        if k == 'any': return []
        raise Unsupported('flat ' + t.text)

    def unflat(self, t, cs):
        k = t.kind
        if k in ('int', 'bool', 'real', 'set'): return cs[0]
        if k == 'struct':
            f, i = {}, 0
            for n, ft in self.ex.fields(t):
                ln = len(self.sorts(ft)); f[n] = self.unflat(ft, cs[i:i + ln]); i += ln
            return Rec(t, f)
        if k == 'vec': return Vec(t, cs[0], list(cs[1:]))
        if k == 'pset': return Map(t, cs[0], [])
        if k == 'map': return Map(t, cs[0], list(cs[1:]))
        if k == 'pair':
            n = len(self.sorts(t.a)); return Pair(self.unflat(t.a, cs[:n]), self.unflat(t.b, cs[n:]))
        if k == 'own': return Own(t, cs[0], self.unflat(t.to, cs[1:]))
        if k == 'any': return Opaque('any')
        raise Unsupported('unflat ' + t.text)

    def fresh(self, t, name='x'):
        k = t.kind
        if k == 'str': return Str(None)
        if k == 'stream': return Opaque('stream')
        if k == 'ptr': return Opaque('ptr')
        return self.unflat(t, [z3.Const('%s!%d' % (name, next(_fresh)), s) for s in self.sorts(t)])

    def typefacts(self, t, v):
        """range facts of a well-formed value"""
        k = t.kind
        out = []
        if k == 'int' and v.sort() == z3.IntSort():
            lo, hi = (-(1 << t.bits - 1), (1 << t.bits - 1) - 1) if t.signed else (0, (1 << t.bits) - 1)
            if z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED: T.RANGES.setdefault(v.decl().name(), (lo, hi))
            out += [v >= lo, v <= hi]
        elif k == 'struct':
            for n, ft in self.ex.fields(t): out += self.typefacts(ft, v.f[n])
        elif k == 'vec': out += [v.len >= 0, v.len < (1 << 40)]
        elif k == 'pair': out += self.typefacts(t.a, v.a) + self.typefacts(t.b, v.b)
        return out

    def default(self, t):
        k = t.kind
        if k == 'int': return T.bot if False else IntVal(0)
        if k == 'bool': return BoolVal(False)
        if k == 'real': return RealVal(0)
        if k == 'set': return T.es
        if k == 'struct': return self.ex.default_struct(t)
        if k == 'vec':
            return Vec(t, IntVal(0), [z3.Const('undef!%d' % next(_fresh), z3.ArraySort(z3.IntSort(), s)) for s in self.sorts(t.elem)])
        if k in ('map', 'pset'):
            ss = self.sorts(t)
            return Map(t, z3.K(ss[0].domain(), BoolVal(False)), [z3.Const('undef!%d' % next(_fresh), s) for s in ss[1:]])
        if k == 'pair': return Pair(self.default(t.a), self.default(t.b))
        if k == 'str': return Str('')
        if k == 'ptr': return Opaque('nullptr')
        if k == 'stream': return Opaque('stream')
        if k == 'own': return Own(t, BoolVal(False), self.default(t.to))
        if k == 'any': return Opaque('any')
        raise Unsupported('default ' + t.text)


_ground = {}


def ground(p):
    """a small fact without quantifiers"""
    k = p.get_id()
    if k not in _ground or not _ground[k][1].eq(p):
        todo, n, ok = [p], 0, True
        while todo and ok:
            x = todo.pop(); n += 1
            ok = not z3.is_quantifier(x) and n < 200
            todo += x.children()
        _ground[k] = (ok, p)
    return _ground[k][0]


def has_ite(x):
    todo = [x]
    while todo:
        y = todo.pop()
        if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_ITE: return True
        todo += y.children()
    return False


class State:
    __slots__ = ('store', 'pc', 'ret', 'flow', 'ghost', 'notes')

    def __init__(self):
        self.store, self.pc, self.flow, self.ret, self.ghost = {}, [], None, None, {}

    def clone(self):
        s = State()
        s.store, s.pc, s.flow, s.ret, s.ghost = dict(self.store), list(self.pc), self.flow, self.ret, dict(self.ghost)
        return s


class Obl:
    def __init__(self, name, pc, goal, kind, line, fn):
        self.name, self.pc, self.goal, self.kind, self.line, self.fn = name, list(pc), goal, kind, line, fn


class Contract:
    """requires(c)->[(name,bool)], result(c)->the value the function must return,
    ensures(c)->[(name,bool)], measure(c)->int.  c (Ctx) gives access to the
    arguments, the result and the pre/post states.  The postcondition to prove is
    result (pointwise, for families) plus ensures."""
    requires = ensures = result = measure = modifies = params = assume_extra = None
    inline = False
    group = None
    loops = ()
    loops_any = False
    memory = ()
    pure_result = False
    scope = ''
    post_this = None      # value of *this afterwards
    ret_this = False      # returns a reference to *this
    args_post = None      # {index: value} of reference arguments afterwards
    props = ()
    mods = ()             # indices of reference (pointer) arguments that may change
    fn = None             # the function, when it has several contracts (one per operation code)
    layer = None          # 'id': on the tables of bddc.cc
    modthis = False       # *this may change in the way ensures says
    ovf = False           # signed arithmetic must not overflow
    havoc = None          # (ctx) -> further locations that may change
    setup = None          # (ex, state): initial values of globals
    retty = None          # type of a result described by ensures only

    def __init__(self, key, **kw):
        self.key = key
        self.statics = {}
        self.__dict__.update(kw)

    def post(self, c):
        out = []
        if self.result:
            want = self.result(c.oldctx)
            out += eqgoals(c.ex, c.ret, want, 'result')
        if self.post_this: out += eqgoals(c.ex, c.ex.read(c.st, c.this), self.post_this(c.oldctx), 'the object afterwards')
        if self.args_post:
            for i, f in self.args_post.items(): out += eqgoals(c.ex, c.ex.rv(c.st, argloc(c.args[i])), f(c.oldctx), 'argument %d afterwards' % i)
        if self.ensures: out += self.ensures(c)
        return out


def argloc(a): return a.loc if isinstance(a, Ptr) else a


def eqgoals(ex, got, want, nm):
    """goals stating got == want, pointwise on families"""
    if isinstance(want, Rec) and want.ty.text == 'ZBDD':
        return famgoals(ex.famval(got), want.f['_zbdd'], nm)
    if isinstance(want, Rec):
        out = []
        for n in want.f: out += eqgoals(ex, got.f[n], want.f[n], nm + '.' + n)
        return out
    if isinstance(want, Pair): return eqgoals(ex, got.a, want.a, nm + '.first') + eqgoals(ex, got.b, want.b, nm + '.second')
    if isinstance(want, (Opaque, Str)) or want is None: return []
    if want.sort() == T.F: return famgoals(ex.asfam(got), want, nm)
    if want.sort() == z3.BoolSort(): return [(nm, ex.tobool(got) == want)]
    if want.sort() == T.S:
        sk = z3.Const('sk!e%d' % next(_fresh), z3.IntSort())
        return [(nm, T.has(got, sk) == T.has(want, sk))]
    if want.sort() == z3.RealSort(): return [(nm, ex.toreal(got) == want)]
    return [(nm, ex.toint(got) == want)]


def famgoals(got, want, nm):
    if got.eq(want): return []
    if want.eq(T.null): return [(nm + ' is the null diagram', got == T.null)]
    sk = z3.Const('sk!s%d' % next(_fresh), T.S)
    out = [(nm + ': only sets that belong to it', Implies(T.mem(sk, got), T.mem(sk, want))),
           (nm + ': every set that belongs to it', Implies(T.mem(sk, want), T.mem(sk, got)))]
    if not T.nonnull(got):
        out.append((nm + ' is not null', got != T.null) if T.nonnull(want) else (nm + ' is null exactly when it has to be', (got == T.null) == (want == T.null)))
    return out


class Ctx:
    pass


class Exec:
    MAXPATHS = 4000

    def __init__(self, index, contracts, builtins, opts=None):
        self.ix = index
        self.con = contracts
        self.bi = builtins
        self.th = Theory(self)
        self.obls = []
        self.assumed = set()
        self.inlined = set()
        self.callees = set()
        self.depth = 0
        self.cur = None
        self.loopn = 0
        self.frames = []
        self.opts = opts or {}
        self.feas_cache = {}
        self.statics_used = {}
        self.decl = {}        # declared types of variables
        self.bufs = {ty(x['t']).to.text for r in self.ix.records.values() for x in r['fields'] if (r['t'], x['name']) in OWNED and ty(x['t']).kind == 'ptr'}

    # ---- helpers
    def fields(self, t):
        if t.text.startswith('std::allocator<'): return []
        r = self.ix.records.get(t.text)
        if r is None: raise Unsupported('record ' + t.text)
        out = []
        for b in r['bases']:
            out += self.fields(ty(b))
        out += [(x['name'], OWNED[t.text, x['name']](ty(x['t'])) if (t.text, x['name']) in OWNED else ty(x['t'])) for x in r['fields']]
        return out

    def default_struct(self, t):
        if t.text == 'ZBDD': return Rec(t, {'_zbdd': T.bot})
        return Rec(t, {n: self.th.default(ft) if ft.kind != 'struct' or ft.text in self.ix.records else None for n, ft in self.fields(t)})

    def tofam(self, v):
        if z3.is_app(v) and v.decl().name() == 'fid': return v.arg(0)
        w = z3.simplify(v)
        if z3.is_int_value(w) and w.as_long() in WORDS: return WORDS[w.as_long()]
        return T.famof(v)

    def toint(self, v):
        if isinstance(v, (Ptr, Opaque, It)): raise Unsupported('pointer arithmetic')
        if isinstance(v, Rec) or isinstance(v, Str): raise Unsupported('int of struct')
        if v.sort() == T.F: return T.fid(v)
        if v.sort() == z3.BoolSort(): return If(v, IntVal(1), IntVal(0))
        return v

    def toreal(self, v):
        if v.sort() == z3.IntSort(): return z3.ToReal(v)
        if v.sort() == z3.BoolSort(): return If(v, RealVal(1), RealVal(0))
        return v

    def tobool(self, v):
        if isinstance(v, It): raise Unsupported('iterator as bool')
        if isinstance(v, Ptr): return BoolVal(True)
        if isinstance(v, Opaque) and v.tag == 'nullptr': return BoolVal(False)
        if isinstance(v, Opaque) and v.tag == 'any': return BoolVal(True) if v.data == 'new' else z3.Bool('any!%d' % next(_fresh))
        if isinstance(v, Own): return v.nn
        if isinstance(v, Vec): return v.len > 0
        if isinstance(v, Opaque): raise Unsupported('opaque as bool')
        if v.sort() == z3.BoolSort(): return v
        if v.sort() == T.F: return T.fid(v) != 0
        return v != 0

    def oblige(self, st, name, goal, kind, line=None):
        goal = z3.simplify(goal) if z3.is_bool(goal) else goal
        if z3.is_true(goal): return
        if self.frames and self.frames[0].get('guard'):
            pass
        self.obls.append(Obl(name, st.pc, goal, kind, line, self.cur.key if self.cur else ''))

    def infeasible(self, st):
        """cheap pruning: is the path condition propositionally/arithmetically unsat"""
        if not st.pc: return False
        if any(z3.is_false(x) for x in st.pc): return True
        key = tuple(x.get_id() for x in st.pc)
        if key in self.feas_cache: return self.feas_cache[key][0]
        s = z3.Solver()
        s.set('timeout', 300); s.set('smt.mbqi', False); s.set('auto_config', False)
        for x in st.pc:
            if not z3.is_quantifier(x) and not has_quant(x): s.add(x)
        s.add(T.bot != T.top, T.bot != T.null, T.top != T.null)
        r = s.check() == z3.unsat
        self.feas_cache[key] = (r, list(st.pc))
        return r

    # ---- store
    def read(self, st, loc):
        v = st.store.get(loc.root)
        if v is None:
            v = self.init_root(st, loc.root)
        for k, x in loc.path:
            if isinstance(v, Opaque) and v.tag == 'any': return Opaque('any')
            v = self.proj(v, k, x)
        return v

    def init_root(self, st, root):
        if root[0] in ('static', 'global'):
            name, t = root[1], root[2]
            con = self.static_inv(name)
            v = self.th.fresh(ty(t), name)
            st.store[root] = v
            st.pc.extend(self.th.typefacts(ty(t), v))
            if con:
                for _, b in con.assume(self, v): st.pc.append(b)
            return v
        raise Unsupported('uninitialised ' + str(root))

    def static_inv(self, name):
        if self.cur and name in self.cur.statics: return self.cur.statics[name]
        if self.cur and len(self.cur.statics) == 1: return list(self.cur.statics.values())[0]     # a renamed table
        return self.opts.get('static_inv', {}).get(name)

    def proj(self, v, k, x):
        if k == 'f':
            if not isinstance(v, Rec): raise Unsupported('field of non-struct')
            return v.f[x]
        if k == 'p': return v.b if x else v.a
        if k == 'o': return v.o
        if k == 'i':
            return self.th.unflat(v.ty.elem, [z3.Select(c, x) for c in v.el])
        if k == 'k':
            return self.th.unflat(v.ty.val, [z3.Select(c, x) for c in v.val])
        raise Unsupported('proj')

    def write(self, st, loc, val):
        root = loc.root
        if not loc.path:
            st.store[root] = val
            return
        base = self.read(st, Loc(root))
        st.store[root] = self.upd(base, loc.path, val)

    def upd(self, base, path, val):
        if isinstance(base, Opaque) and base.tag == 'any': return Opaque('any')
        k, x = path[0]
        rest = path[1:]
        if rest: val = self.upd(self.proj(base, k, x), rest, val)
        if k == 'f':
            f = dict(base.f); f[x] = val
            return Rec(base.ty, f)
        if k == 'p': return Pair(base.a, val) if x else Pair(val, base.b)
        if k == 'o': return Own(base.ty, base.nn, val)
        if k == 'i':
            cs = self.th.flat(base.ty.elem, val)
            return Vec(base.ty, base.len, [z3.Store(c, x, n) for c, n in zip(base.el, cs)])
        if k == 'k':
            cs = self.th.flat(base.ty.val, val)
            return Map(base.ty, z3.Store(base.dom, x, True), [z3.Store(c, x, n) for c, n in zip(base.val, cs)])
        raise Unsupported('upd')

    def keyval(self, t, v):
        if t.kind == 'pair':
            P = pairsort()
            return P.mkpair(self.asfam(v.a), self.asfam(v.b))
        if t.kind == 'int' and t.word: return self.asfam(v)
        if t.kind == 'str':
            if isinstance(v, Str) and v.v is not None: return IntVal(strcode(v.v))
            raise Unsupported('string key')
        return self.toint(v)

    def asfam(self, v):
        return v if v.sort() == T.F else self.tofam(v)

    # ---- values out of expressions
    def rv(self, st, x):
        """rvalue of an evaluation result: Loc -> its value"""
        return self.read(st, x) if isinstance(x, Loc) else x

    def cast(self, v, ft, tt):
        a, b = ty(ft), ty(tt)
        if b.kind == 'bool': return self.tobool(v)
        if b.kind == 'real': return self.toreal(self.toint(v) if z3.is_expr(v) and v.sort() == T.F else v)
        if b.kind == 'int':
            if not z3.is_expr(v): raise Unsupported('cast')
            if v.sort() == T.F:
                if b.bits >= 64: return v
                v = T.fid(v)
            if v.sort() == z3.BoolSort(): return If(v, IntVal(1), IntVal(0))
            if v.sort() == z3.RealSort():
                return z3.ToInt(v)
            return self.convint(v, a, b)
        return v

    def unwrap(self, st, v):
        """If(x >= 0, x, x wrapped) is x where the path condition says that x >= 0"""
        if not (z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and v.sort() == z3.IntSort() and z3.is_ge(v.arg(0)) and v.arg(0).arg(0).eq(v.arg(1)) and not has_ite(v.arg(1))): return v
        s = z3.Solver(); s.set('timeout', 200)
        for p in st.pc:
            if ground(p): s.add(p)
        s.add(Not(v.arg(0)))
        return v.arg(1) if s.check() == z3.unsat else v

    def convint(self, v, a, b):
        v = z3.simplify(v)
        rg = T.rng(v)
        if rg:
            lo, hi = (-(1 << b.bits - 1), (1 << b.bits - 1) - 1) if b.signed else (0, (1 << b.bits) - 1)
            if lo <= rg[0] and rg[1] <= hi: return v
        if z3.is_int_value(v):
            x = v.as_long() % (1 << b.bits)
            if b.signed and x >= (1 << b.bits - 1): x -= (1 << b.bits)
            return IntVal(x)
        if a.kind == 'int' and ((a.bits < b.bits and (b.signed or not a.signed)) or (a.bits == b.bits and a.signed == b.signed)): return v
        if not b.signed:
            if a.kind == 'int' and a.bits <= b.bits: return If(v >= 0, v, v + (1 << b.bits))
            return If(And(v >= 0, v < (1 << b.bits)), v, v % (1 << b.bits))
        half = 1 << (b.bits - 1)
        if a.kind == 'int' and not a.signed and a.bits == b.bits: return If(v < half, v, v - (1 << b.bits))
        big = (1 << a.bits) if a.kind == 'int' else (1 << 64)
        r = v % (1 << b.bits)
        return If(And(v >= -half, v < half), v, If(v >= big - half, v - big, If(r >= half, r - (1 << b.bits), r)))

    # ---- expression evaluation: returns list of (state, result)   (result may be Loc for lvalues)
    def ev(self, st, e):
        m = getattr(self, 'e_' + e['k'].replace(':', '_'), None)
        if m is None: raise Unsupported('expression %s at line %s' % (e['k'], e.get('l')))
        return m(st, e)

    def evv(self, st, e):
        return [(s, self.rv(s, v)) for s, v in self.ev(st, e)]

    def evs(self, st, es):
        """evaluate a list of expressions left to right"""
        outs = [(st, [])]
        for e in es:
            outs = [(s2, vs + [v]) for s, vs in outs for s2, v in self.ev(s, e)]
        return outs

    def e_int(self, st, e): return [(st, IntVal(int(e['v'])))]
    def e_bool(self, st, e): return [(st, BoolVal(bool(e['v'])))]
    def e_float(self, st, e): return [(st, RealVal(repr(float(e['v']))))]
    def e_str(self, st, e): return [(st, Str(e['v']))]
    def e_null(self, st, e): return [(st, Opaque('nullptr'))]
    def e_this(self, st, e): return [(st, Ptr(self.frames[-1]['this']))]

    def e_zero(self, st, e): return [(st, self.th.default(ty(e['t'])))]

    GLOBAL_CONST = {'bddempty': 'bot', 'bddsingle': 'top', 'bddnull': 'null'}

    def e_ref(self, st, e):
        fr = self.frames[-1]
        dk = e['dk']
        if dk in ('param', 'local'):
            if e['id'] in fr['vars']: return [(st, fr['vars'][e['id']])]
            raise Unsupported('unbound variable ' + e['name'])
        if e['name'] in self.GLOBAL_CONST:
            return [(st, getattr(T, self.GLOBAL_CONST[e['name']]))]
        if dk == 'static':
            return [(st, Loc(('static', e['name'], e['dt'])))]
        if dk == 'global':
            hook = self.bi.get('global:' + e['q'])
            if hook: return [(st, hook(self, st, e))]
            g = self.ix.globals.get(e['q'])
            if g and g['t'].startswith('const ') and 'init' in g:
                return self.ev(st, g['init'])
            return [(st, Loc(('global', e['q'], e['dt'])))]
        if dk == 'func': return [(st, Opaque('func', e['fn']))]
        raise Unsupported('reference to ' + e['name'])

    def e_member(self, st, e):
        if 'sv' in e:   # static data member
            return [(st, Loc(('global', e['sv'], e['t'])))]
        out = []
        for s, b in self.ev(st, e['base']):
            if e['arrow']:
                p = self.rv(s, b)
                if isinstance(p, It):
                    out.append((s, self.deref_iter(s, p, e, e['name'])))
                    continue
                if not isinstance(p, Ptr): raise Unsupported('-> on non-pointer')
                b = p.loc
            if e['name'] in ('first', 'second') and ty(e['bt']).kind in ('pair', 'ptr'):
                if isinstance(b, Loc): out.append((s, b.sub(('p', 0 if e['name'] == 'first' else 1))))
                else:
                    bv = b if isinstance(b, Pair) else self.rv(s, b)
                    out.append((s, bv.a if e['name'] == 'first' else bv.b))
                continue
            if isinstance(b, Loc): out.append((s, b.sub(('f', e['name']))))
            elif isinstance(b, Rec): out.append((s, b.f[e['name']]))
            else: raise Unsupported('member ' + e['name'])
        return out

    def e_un(self, st, e):
        op = e['op']
        out = []
        if op == '&':
            for s, v in self.ev(st, e['e']):
                if isinstance(v, Opaque) and v.tag == 'func': out.append((s, v))
                elif isinstance(v, Loc): out.append((s, Ptr(v)))
                else: raise Unsupported('address of rvalue')
            return out
        if op == '*':
            for s, v in self.evv(st, e['e']):
                if isinstance(v, Ptr): out.append((s, v.loc))
                elif isinstance(v, It): out.append((s, self.deref_iter(s, v, e, None)))
                else: raise Unsupported('deref')
            return out
        if op in ('++', '--'):
            for s, l in self.ev(st, e['e']):
                if not isinstance(l, Loc): raise Unsupported('++ on rvalue')
                v = self.read(s, l)
                if isinstance(v, It): nv = self.iter_step(s, v, 1 if op == '++' else -1)
                elif isinstance(v, Ptr): raise Unsupported('pointer arithmetic')
                else:
                    v = self.toint(v) if v.sort() != z3.RealSort() else v
                    nv = v + 1 if op == '++' else v - 1
                s = s.clone()
                nv = self.wrapu(nv, ty(e['e']['t'])) if z3.is_expr(nv) and nv.sort() == z3.IntSort() else nv
                self.write(s, l, nv)
                out.append((s, v if e['post'] else l))
            return out
        for s, v in self.evv(st, e['e']):
            if op == '!': r = Not(self.tobool(v))
            elif op == '-':
                r = -v if v.sort() == z3.RealSort() else self.wrapu(-self.toint(v), ty(e['t']))
                t = ty(e['t'])
                if self.cur and self.cur.ovf and t.kind == 'int' and t.signed: self.oblige(s, 'no overflow', And(r >= -(1 << t.bits - 1), r < 1 << t.bits - 1), 'safety', e.get('l'))
            elif op == '+': r = v
            elif op == '~': r = self.wrapu(-self.toint(v) - 1, ty(e['t']))
            else: raise Unsupported('unary ' + op)
            out.append((s, r))
        return out

    def wrapu(self, v, t, anyof=False):
        if t.kind == 'int' and not t.signed:
            v = z3.simplify(v)
            M = 1 << t.bits
            if z3.is_int_value(v): return IntVal(v.as_long() % M)
            rg = T.rng(v)
            if rg and rg[0] >= 0 and rg[1] < M: return v
            return If(And(v >= 0, v < M), v, v % M) if anyof else If(v < 0, v + M, If(v >= M, v - M, v))
        return v

    def e_bin(self, st, e):
        op = e['op']
        if op == ',':
            out = []
            for s, _ in self.ev(st, e['a']): out += self.ev(s, e['b'])
            return out
        if op in ('&&', '||'):
            out = []
            for s, a in self.evv(st, e['a']):
                a = self.tobool(a)
                sa = z3.simplify(a)
                short = z3.is_false(sa) if op == '&&' else z3.is_true(sa)
                if short:
                    out.append((s, BoolVal(op == '||'))); continue
                g = a if op == '&&' else Not(a)
                s2 = s.clone(); s2.pc.append(g)
                n0 = len(s2.pc)
                outs = self.evv(s2, e['b'])
                if len(outs) == 1 and len(outs[0][0].pc) == n0 and same_store(outs[0][0].store, s.store):
                    b = self.tobool(outs[0][1])
                    ns = s.clone(); ns.store = outs[0][0].store
                    out.append((ns, And(a, b) if op == '&&' else Or(a, b)))
                else:
                    for s3, b in outs: out.append((s3, self.tobool(b)))
                    s4 = s.clone(); s4.pc.append(Not(g))
                    if not self.infeasible(s4): out.append((s4, BoolVal(op == '||')))
            return out
        out = []
        for s, a in self.evv(st, e['a']):
            for s2, b in self.evv(s, e['b']):
                out.append((s2, self.binop(s2, op, a, b, e)))
        return out

    def binop(self, st, op, a, b, e):
        if isinstance(a, (Ptr, Opaque)) or isinstance(b, (Ptr, Opaque)):
            if op in ('==', '!='):
                na = isinstance(a, Opaque) and a.tag == 'nullptr'
                nb = isinstance(b, Opaque) and b.tag == 'nullptr'
                if (na and isinstance(b, Ptr)) or (nb and isinstance(a, Ptr)): return BoolVal(op == '!=')
                if na and nb: return BoolVal(op == '==')
            hook = self.bi.get('ptrcmp')
            if hook: return hook(self, st, op, a, b, e)
            raise Unsupported('pointer comparison')
        if not (z3.is_expr(a) and z3.is_expr(b)): raise Unsupported('binary %s on composite' % op)
        if op in ('==', '!='):
            if a.sort() == T.F or b.sort() == T.F:
                x, y = self.asfam(a), self.asfam(b)
                self.ext_instance(st, x, y)
                r = x == y
            elif a.sort() == z3.RealSort() or b.sort() == z3.RealSort(): r = self.toreal(a) == self.toreal(b)
            elif a.sort() == z3.BoolSort() and b.sort() == z3.BoolSort(): r = a == b
            else: r = self.toint(a) == self.toint(b)
            return r if op == '==' else Not(r)
        if a.sort() == z3.RealSort() or b.sort() == z3.RealSort():
            a, b = self.toreal(a), self.toreal(b)
            if op == '/': return a / b
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b}[op]()
        a, b = self.toint(a), self.toint(b)
        if op in ('<', '<=', '>', '>='):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
        t = ty(e['ct'] if 'ct' in e else e['t'])
        hook = self.bi.get('arith')
        if op == '+': r = a + b
        elif op == '-': r = a - b
        elif op == '*': r = a * b
        elif op == '/': r = If(And(a >= 0, b > 0), a / b, If(And(a < 0, b > 0), -((-a) / b), z3.Int('divundef!%d' % next(_fresh))))
        elif op == '%': r = If(And(a >= 0, b > 0), a % b, If(And(a < 0, b > 0), -((-a) % b), z3.Int('modundef!%d' % next(_fresh))))
        elif op == '<<' and z3.is_int_value(z3.simplify(b)): r = a * (1 << z3.simplify(b).as_long())
        elif op == '>>' and z3.is_int_value(z3.simplify(b)): r = a / (1 << z3.simplify(b).as_long())
        elif op == '&' and z3.is_int_value(z3.simplify(b)) and (z3.simplify(b).as_long() + 1) & z3.simplify(b).as_long() == 0: r = a % (z3.simplify(b).as_long() + 1)
        elif op in ('&', '|', '^'):
            f_ = z3.Function('bit' + {'&': 'and', '|': 'or', '^': 'xor'}[op], z3.IntSort(), z3.IntSort(), z3.IntSort())
            r = f_(a, b)
            if op == '&': self.extfacts += [Implies(b >= 0, And(0 <= r, r <= b)), Implies(a >= 0, And(0 <= r, r <= a))]
            if t.kind == 'int' and not t.signed: r = r % (1 << t.bits)      # on operands in range the result is in range
        else: raise Unsupported('binary ' + op)
        if self.cur and self.cur.ovf and t.kind == 'int' and t.signed and op in ('+', '-', '*'):
            self.oblige(st, 'no overflow', And(r >= -(1 << t.bits - 1), r < 1 << t.bits - 1), 'safety', e.get('l'))
        return self.wrapu(r, t, op in ('*', '<<'))

    def ext_instance(self, st, x, y):
        """canonicity: distinct (non-null) diagrams denote distinct families"""
        if x.eq(y): return
        for a, b in ((x, y),):
            w = T.dw(a, b)
            # extensionality instance is a theory fact, not a path assumption
            inst = Or(a == b, a == T.null, b == T.null, T.mem(w, a) != T.mem(w, b))
            self.extfacts.append(inst)

    def e_cassign(self, st, e):
        out = []
        for s, b in self.evv(st, e['b']):
            for s2, l in self.ev(s, e['a']):
                if not isinstance(l, Loc): raise Unsupported('compound assign')
                a = self.read(s2, l)
                if isinstance(a, It):
                    raise Unsupported('iterator arithmetic')
                r = self.binop(s2, e['op'], a, b, e)
                r = self.cast(r, e['ct'], e['t'])
                s3 = s2.clone(); self.write(s3, l, r)
                out.append((s3, l))
        return out

    def e_assign(self, st, e):
        out = []
        for s, b in self.evv(st, e['b']):
            for s2, l in self.ev(s, e['a']):
                if isinstance(l, Opaque) and l.tag == 'any': out.append((s2, b)); continue      # the value given
                if not isinstance(l, Loc): raise Unsupported('assign to rvalue')
                s3 = s2.clone(); self.write(s3, l, self.intoslot(s3, l, b))
                if isinstance(b, Vec) and getattr(b.ty, 'buf', None):      # the array has one owner
                    for r in [r for r, x in s3.store.items() if x is b and r != l.root]: s3.store[r] = Opaque('moved')
                out.append((s3, l))
        return out

    def intoslot(self, st, l, b):
        """the value of a pointer, stored where the pointer owns its target"""
        if not (isinstance(b, Opaque) and b.tag == 'nullptr'): return b
        old = self.rv(st, l)
        if isinstance(old, Own) or isinstance(old, Vec) and getattr(old.ty, 'buf', None): return self.th.default(old.ty)
        return b

    def e_cond(self, st, e):
        out = []
        for s, c in self.evv(st, e['c']):
            c = z3.simplify(self.tobool(c))
            for g, br in ((c, e['a']), (Not(c), e['b'])):
                g = z3.simplify(g)
                if z3.is_false(g): continue
                s2 = s.clone()
                if not z3.is_true(g): s2.pc.append(g)
                if self.infeasible(s2): continue
                out += self.ev(s2, br)
        # merge pure scalar results
        if len(out) == 2 and all(not isinstance(v, Loc) and z3.is_expr(v) for _, v in out):
            (s1, v1), (s2, v2) = out
            if same_store(s1.store, st.store) and same_store(s2.store, st.store) and len(s1.pc) == len(st.pc) + 1 and len(s2.pc) == len(st.pc) + 1 and v1.sort() == v2.sort():
                return [(st, If(s1.pc[-1], v1, v2))]
        return out

    def e_cast(self, st, e):
        if e['ck'] in ('ToVoid',): return self.ev(st, e['e'])
        if e['ck'] in ('NullToPointer',): return [(st, Opaque('nullptr'))]
        out = []
        for s, v in self.evv(st, e['e']):
            if e['ck'] in ('IntegralCast', 'IntegralToBoolean', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'BooleanToSignedIntegral'):
                out.append((s, self.unwrap(s, self.cast(v, e['ft'], e['t']))))
            elif e['ck'] in ('PointerToBoolean',):
                out.append((s, self.tobool(v)))
            elif e['ck'] in ('BitCast', 'NoOp', 'DerivedToBase'): out.append((s, v))
            elif e['ck'] == 'ArrayToPointerDecay' and isinstance(v, (Opaque, Vec)): out.append((s, v))
            else: raise Unsupported('cast ' + e['ck'])
        return out

    def e_index(self, st, e):
        out = []
        for s, a in self.ev(st, e['a']):
            for s2, i in self.evv(s, e['i']):
                v = self.rv(s2, a)
                if isinstance(v, Opaque) and v.tag == 'any': out.append((s2, Opaque('any'))); continue
                if not (isinstance(v, Vec) and isinstance(a, Loc)): raise Unsupported('array index')
                i = self.toint(i)
                self.oblige(s2, 'array index within bounds', And(i >= 0, i < v.len), 'safety', e.get('l'))
                out.append((s2, a.sub(('i', i))))
        return out

    MEMORY = 1 << 40      # an array with more entries cannot be allocated

    def e_new(self, st, e):
        if not e.get('array'):
            out = []
            for s, v in self.ev(st, e['init']) if e.get('init') else [(st, self.th.default(ty(e['at'])))]:
                t = ty(e['at'])
                out.append((s, Own(Ty('own', 'own ' + t.text, to=t), BoolVal(True), self.rv(s, v))))
            return out
        out = []
        for s, n in self.evv(st, e['n']):
            n = self.toint(n)
            t = ty(e['at'])
            self.oblige(s, 'an array of at least one entry is allocated', n > 0, 'safety', e.get('l'))
            s = s.clone(); s.pc += [n > 0, n < self.MEMORY]
            if t.kind in ('ptr',) or t.kind == 'int' and t.bits == 8: out.append((s, Opaque('any', 'new'))); continue
            inits = self.construct(s, t, e['init']['fn'], [], e) if e.get('init') and e['init']['k'] == 'ctor' and t.kind == 'struct' and not e['init']['args'] else [(s, self.th.fresh(t, 'raw') if not e.get('init') else None)]
            if len(inits) != 1 or inits[0][1] is None: raise Unsupported('new[] initialiser')
            s, v = inits[0]
            b = BUF(t.text)
            v = self.rv(s, v)
            cs = self.th.flat(t, v)
            el = [z3.K(z3.IntSort(), c) for c in cs] if e.get('init') else [z3.Const('raw!%d' % next(_fresh), z3.ArraySort(z3.IntSort(), c.sort())) for c in cs]
            out.append((s, Vec(b, n, el)))
        return out

    def e_delete(self, st, e):
        out = []
        for s, l in self.ev(st, e['e']):
            v = self.rv(s, l)
            if isinstance(l, Loc) and isinstance(v, Vec):
                s = s.clone(); self.write(s, l, self.th.default(v.ty))
            elif isinstance(l, Loc) and isinstance(v, Own):
                s = s.clone(); self.write(s, l, self.th.default(v.ty))
            out.append((s, None))
        return out

    def e_throw(self, st, e):
        s = st.clone(); s.flow = 'throw'
        return []
    def e_lambda(self, st, e): return [(st, Opaque('lambda', (e, self.frames[-1])))]

    def e_init(self, st, e):
        t = ty(e['t'])
        out = []
        for s, vs in self.evs(st, e['args']):
            vs = [self.rv(s, v) for v in vs]
            if t.kind == 'pair': out.append((s, Pair(vs[0], vs[1])))
            elif t.kind == 'struct': out.append((s, Rec(t, {n: v for (n, _), v in zip(self.fields(t), vs)})))
            else: out.append((s, Opaque('initlist', vs)))
        return out

    # ---- iterators
    def deref_iter(self, st, it, e, field):
        if it.kind == 'map':
            key = it.pos
            if field == 'second': return it.loc.sub(('k', key))
            if field == 'first': return key
            v = self.read(st, it.loc)
            return Pair(key, self.proj(v, 'k', key))
        if it.kind == 'vec':
            v = self.read(st, it.loc)
            self.oblige(st, 'iterator in range', And(it.pos >= 0, it.pos < v.len), 'safety', e.get('l'))
            l = it.loc.sub(('i', it.pos))
            if field: return l.sub(('p', 0 if field == 'first' else 1))
            return l
        if it.kind == 'set':
            v = self.read(st, it.loc)
            self.oblige(st, 'iterator in range', And(it.pos >= 0, it.pos < T.card(v)), 'safety', e.get('l'))
            return T.nth(v, it.pos)
        if it.kind == 'omap':
            end, key = it.pos
            self.oblige(st, 'iterator is not at the end', Not(end), 'safety', e.get('l'))
            if field == 'second': return it.loc.sub(('k', key))
            if field == 'first': return key
            return Pair(key, self.proj(self.read(st, it.loc), 'k', key))
        raise Unsupported('iterator deref ' + it.kind)

    def iter_step(self, st, it, d):
        if it.kind in ('vec', 'set'): return It(it.kind, it.loc, it.pos + d)
        if it.kind == 'mapit': return it
        if it.kind == 'omap':
            end, key = it.pos
            dom = self.read(st, it.loc).dom
            j, k = z3.Int('j!'), z3.Int('key!%d' % next(_fresh))
            before = lambda x: And(z3.Select(dom, x), Or(end, x < key) if d < 0 else x > key)
            all_ = lambda b: z3.ForAll([j], b, patterns=[z3.Select(dom, j)])
            if d < 0:
                self.oblige(st, 'there is an entry before the iterator', Not(all_(Not(before(j)))), 'safety')
                st.pc += [before(k), all_(Implies(before(j), j <= k))]
                return It('omap', it.loc, (BoolVal(False), k))
            self.oblige(st, 'the iterator is not at the end', Not(end), 'safety')
            e2 = z3.Bool('end!%d' % next(_fresh))
            st.pc += [Implies(Not(e2), And(before(k), all_(Implies(before(j), k <= j)))), Implies(e2, all_(Not(before(j))))]
            return It('omap', it.loc, (e2, k))
        raise Unsupported('iterator ++ ' + it.kind)

    def iter_eq(self, st, a, b):
        if 'omap' in (a.kind, b.kind):
            if a.kind != 'omap': a, b = b, a
            if b.kind == 'mapend': return a.pos[0]
            if b.kind == 'omap': return Or(And(a.pos[0], b.pos[0]), And(Not(a.pos[0]), Not(b.pos[0]), a.pos[1] == b.pos[1]))
            raise Unsupported('iterator comparison')
        if 'mapend' in (a.kind, b.kind) and 'mapit' not in (a.kind, b.kind):
            x = b if a.kind == 'mapend' else a
            if x.kind == 'mapend': return BoolVal(True)
            m = self.read(st, x.loc)
            return Not(z3.Select(m.dom, x.pos))
        if 'mapit' in (a.kind, b.kind): return z3.Bool('mapit!%d' % next(_fresh))
        if a.kind == b.kind and a.kind in ('vec', 'set'): return a.pos == b.pos
        raise Unsupported('iterator comparison')

    # ---- calls
    def e_call(self, st, e):
        fn = e.get('fn')
        if fn is None:
            out = []
            for s, c in self.evv(st, e['callee']):
                if isinstance(c, Opaque) and c.tag == 'lambda':
                    for s2, args in self.evs(s, e['args']):
                        out += self.call_lambda(s2, c, args)
                else: raise Unsupported('indirect call')
            return out
        out = []
        for s, args in self.evs(st, e['args']):
            out += self.apply(s, fn, None, args, e)
        return out

    def e_mcall(self, st, e):
        out = []
        fn = e.get('fn')
        if fn is None: raise Unsupported('member call without callee')
        # assignment operators: C++17 evaluates the right operand first
        if fn['short'] in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator&=', 'operator|=', 'operator/=', 'operator%=') and len(e['args']) == 1:
            pairs = [(s2, o, [a]) for s, a in self.ev(st, e['args'][0]) for s2, o in self.ev(s, e['obj'])]
        else:
            pairs = [(s2, o, args) for s, o in self.ev(st, e['obj']) for s2, args in self.evs(s, e['args'])]
        for s, o, args in pairs:
            if e.get('arrow'):
                p = self.rv(s, o)
                if isinstance(p, Ptr): o = p.loc
                elif isinstance(p, Opaque): o = p
                elif isinstance(p, It): o = self.deref_iter(s, p, e, None)
                else: raise Unsupported('-> call')
            out += self.apply(s, fn, o, args, e)
        return out

    def e_ctor(self, st, e):
        t = ty(e['t'])
        fn = e['fn']
        out = []
        for s, args in self.evs(st, e['args']):
            h = self.bi.get('ctor:' + t.kind)
            if t.kind != 'struct' and h:
                out += h(self, s, t, fn, args, e)
                continue
            h = self.bi.get('ctor:' + t.text)
            if h:
                out += h(self, s, t, fn, args, e); continue
            out += self.construct(s, t, fn, args, e)
        return out

    def construct(self, st, t, fn, args, e):
        if fn.get('copy') and fn['key'] not in self.ix.fns:
            return [(st, self.rv(st, args[0]))]
        con = self.con.get(fn['key'])
        body = self.ix.fns.get(fn['key'])
        s = st.clone()
        root = ('obj', next(_fresh))
        s.store[root] = self.default_struct(t)
        loc = Loc(root)
        if con and not con.inline:
            outs = self.apply(s, fn, loc, args, e)
        elif body is None:
            if not args: return [(s, s.store[root])]
            raise Unsupported('constructor ' + fn['key'])
        else:
            outs = self.inline(s, body, loc, args, e)
        return [(s2, self.read(s2, loc)) for s2, _ in outs]

    def apply(self, st, fn, this, args, e):
        key = fn['key']
        h = self.bi.get(key) or self.bi.get('name:' + fn['name'])
        if h is None and fn.get('clsT'):
            k = ty(fn['clsT']).kind
            h = self.bi.get('m:%s:%s' % (k, fn['short']))
        if h:
            r = h(self, st, fn, this, args, e)
            if r is not NotImplemented:
                # a primitive of bddc.cc: its contract on ids is an obligation of its own
                if key in self.con and self.con[key].layer == 'id': self.callees.add(key)
                return r
        con = self.con.get(key)
        if con and not con.inline: return self.apply_contract(st, con, fn, this, args, e)
        body = self.ix.fns.get(key)
        if body is not None and body['tu'] == 'SAPPOROBDD/bddc.cc' and type(self) is Exec: raise Unsupported('call of %s of the diagram package' % key)
        if body is None:
            if fn.get('implicit') and fn['short'] == 'operator=':
                s = st.clone(); self.write(s, this, self.rv(s, args[0])); return [(s, this)]
            if fn.get('virt') is not None and fn.get('ctor') and not args: return [(st, None)]
            raise Unsupported('call of %s (no contract, no body) in %s' % (key, ' < '.join(f['key'] for f in reversed(self.frames))))
        return self.inline(st, body, this, args, e)

    def bind(self, st, body, args):
        vars = {}
        for p, a in zip(body['params'], args):
            t = ty(p['t'])
            if t.kind == 'ref':
                if isinstance(a, Loc): vars[p['id']] = a
                else:
                    root = ('tmp', next(_fresh)); st.store[root] = a; vars[p['id']] = Loc(root)
            else:
                root = ('var', p['name'], next(_fresh))
                st.store[root] = self.rv(st, a); self.decl[root] = t
                vars[p['id']] = Loc(root)
        return vars

    def inline(self, st, body, this, args, e):
        if len(self.frames) > 14: raise Unsupported('inline depth at ' + body['key'])
        if any(f['key'] == body['key'] for f in self.frames): raise Unsupported('recursion without contract: ' + body['key'])
        self.inlined.add(body['key'])
        s = st.clone()
        if this is not None and not isinstance(this, (Loc, Opaque)):
            root = ('tmp', next(_fresh)); s.store[root] = this; this = Loc(root)
        fr = {'key': body['key'], 'vars': self.bind(s, body, args), 'this': this, 'body': body, 'loopno': itertools.count()}
        if isinstance(this, Loc) and False: pass
        self.frames.append(fr)
        try:
            outs = self.run_body(s, body, fr)
        finally:
            self.frames.pop()
        return outs

    def run_body(self, s, body, fr):
        states = [s]
        for i in body.get('inits', []):
            ns = []
            for s in states:
                if 'field' in i:
                    for s2, v in self.evv(s, i['e']):
                        s3 = s2.clone()
                        self.write(s3, fr['this'].sub(('f', i['field'])), v)
                        ns.append(s3)
                elif 'base' in i:
                    # base constructor on the same object (fields are flattened)
                    ce = i['e']
                    if ce['k'] != 'ctor': raise Unsupported('base initialiser')
                    for s2, args in self.evs(s, ce['args']):
                        b = self.ix.fns.get(ce['fn']['key'])
                        if b is None:
                            if ce['fn'].get('copy'):
                                src = self.rv(s2, args[0]); s3 = s2.clone()
                                for n, _ in self.fields(ty(i['base'])): self.write(s3, fr['this'].sub(('f', n)), src.f[n])
                                ns.append(s3); continue
                            ns.append(s2); continue
                        for s3, _ in self.inline(s2, b, fr['this'], args, ce): ns.append(s3)
                else: raise Unsupported('delegating constructor')
            states = ns
        outs = []
        rt = ty(body['ret'])
        for s in states:
            for s2 in self.ex(s, body['body']):
                if s2.flow == 'return':
                    s2.flow = None
                    r = s2.ret; s2.ret = None
                    outs.append((s2, r))
                elif s2.flow is None:
                    outs.append((s2, None))
                elif s2.flow == 'throw': pass
                else: raise Unsupported('flow ' + str(s2.flow))
        return outs

    def call_lambda(self, st, c, args):
        e, fr = c.data
        s = st.clone()
        vars = dict(fr['vars'])
        for p, a in zip(e['params'], args):
            t = ty(p['t'])
            if t.kind == 'ref' and isinstance(a, Loc): vars[p['id']] = a
            else:
                root = ('var', p['name'], next(_fresh)); s.store[root] = self.rv(s, a); vars[p['id']] = Loc(root)
        self.frames.append({'key': 'lambda', 'vars': vars, 'this': fr['this'], 'body': {'ret': e['ret']}, 'loopno': itertools.count()})
        try:
            return self.run_body(s, {'body': e['body'], 'ret': e['ret']}, self.frames[-1])
        finally:
            self.frames.pop()

    # ---- contracts at call sites
    def mkctx(self, st, con, this, args, ret=None, old=None):
        c = Ctx()
        c.ex, c.st, c.this, c.args, c.ret, c.old = self, st, this, args, ret, old
        def val(i):
            x = self.rv(st, args[i])
            return self.rv(st, x.loc) if isinstance(x, Ptr) else x
        c.v = val
        c.fam = lambda i: self.famval(val(i))
        c.self_ = lambda: self.rv(st, this)
        c.selffam = lambda: self.famval(self.rv(st, this))
        return c

    def famval(self, v):
        if isinstance(v, Rec):
            if v.ty.text == 'ZBDD': return self.asfam(v.f['_zbdd'])
            if 'zdd_' in v.f: return self.asfam(v.f['zdd_'].f['_zbdd'])
        if z3.is_expr(v): return self.asfam(v)
        raise Unsupported('not a family')

    def zbdd(self, f): return Rec(ty('ZBDD'), {'_zbdd': f})

    def apply_contract(self, st, con, fn, this, args, e):
        self.callees.add(con.key)
        if this is not None and not isinstance(this, (Loc, Opaque)):
            root = ('tmp', next(_fresh)); st = st.clone(); st.store[root] = this; this = Loc(root)
        c = self.mkctx(st, con, this, args)
        if con.requires:
            for nm, b in con.requires(c):
                self.oblige(st, 'precondition of %s: %s' % (short(con.key), nm), b, 'call-pre', e.get('l'))
        top = self.topcon
        if con.measure and top is not None and top.measure and con.group == top.group and not self.loop_free_of_measure:
            mcall = con.measure(c)
            self.oblige(st, 'termination: recursive call of %s decreases the measure' % short(con.key), And(mcall >= 0, lexlt(mcall, self.topmeasure)), 'termination', e.get('l'))
        s = st.clone()
        # memo tables shared with the callee may have grown
        if con.group == (top.group if top else None) or con.memory:
            self.havoc_statics(s, con)
        for i in con.mods:
            l = self.argplace(s, args[i]); v = self.rv(s, l); t = self.typeof(v)
            if t is ANYINT:
                p = ty(fn['ptypes'][i])
                if p.kind in ('ref', 'ptr') and p.to.kind == 'int': t = plainint(p.to)
            nv = self.th.fresh(t, 'out'); self.write(s, l, nv); s.pc.extend(self.th.typefacts(t, nv))
        for l in con.havoc(c) if con.havoc else []:
            v = self.rv(s, l); nv = self.th.fresh(v.ty, 'obj'); self.write(s, l, nv); s.pc.extend(self.th.typefacts(v.ty, nv))
        if con.modthis:
            v = self.rv(s, this); nv = self.th.fresh(v.ty, 'this'); self.write(s, this, nv); s.pc.extend(self.th.typefacts(v.ty, nv))
        pre = self.mkctx(st, con, this, args)
        if con.post_this: self.write(s, this, con.post_this(pre))
        if con.args_post:
            for i, f in con.args_post.items(): self.write(s, argloc(args[i]), f(pre))
        ret = None
        if con.ret_this: ret = this
        if con.result:
            ret = con.result(pre)
        if con.retty is not None: ret = self.th.fresh(con.retty, 'ret')
        c2 = self.mkctx(s, con, this, args, ret=ret, old=st)
        c2.oldctx = pre; c2.assuming = True
        if con.ensures and not con.pure_result:
            for nm, b in con.ensures(c2): s.pc.append(b)
        return [(s, ret)]

    def argplace(self, st, a):
        if isinstance(a, Ptr): return a.loc
        x = self.rv(st, a) if isinstance(a, Loc) else None
        return x.loc if isinstance(x, Ptr) else a

    def framegoals(self, con, body, st, args, this, old):
        """what the contract does not name stays as it was"""
        out = []
        for i, p in enumerate(body['params']):
            t = ty(p['t'])
            if t.kind not in ('ref', 'ptr') or p['t'].startswith('const ') or i in con.mods or (con.args_post and i in con.args_post): continue
            if not isinstance(args[i], (Loc, Ptr)): continue
            l = self.argplace(old, args[i])
            a, b = self.rv(old, l), self.rv(st, l)
            if a is b: continue
            out += self.samegoals(b, a, 'argument %d is left alone' % i)
        if this is not None and not body.get('ctor') and not con.modthis and not con.post_this:
            a, b = self.rv(old, this), self.rv(st, this)
            if a is not b: out += self.samegoals(b, a, 'the object is left alone')
        return out

    def samegoals(self, x, y, nm):
        if isinstance(x, Rec): return [g for n in x.f for g in self.samegoals(x.f[n], y.f[n], nm + '.' + n)]
        t = self.typeof(x)
        xs, ys = self.th.flat(t, x), self.th.flat(t, y)
        return [(nm, a == b) for a, b in zip(xs, ys) if not a.eq(b)]

    def havoc_statics(self, s, con):
        for root in list(s.store):
            if root[0] == 'static':
                name, t = root[1], root[2]
                inv = self.static_inv(name)
                v = s.store[root]
                # the invariant must hold when control leaves this function
                if inv:
                    for nm, b in inv.goal(self, v):
                        self.oblige(s, 'memo table %s keeps its invariant: %s' % (name, nm), b, 'invariant')
                del s.store[root]

    # ---- statements: returns list of states
    def ex(self, st, x):
        if x is None: return [st]
        if st.flow: return [st]
        k = x['k']
        m = getattr(self, 's_' + k, None)
        if m is None: raise Unsupported('statement %s at line %s' % (k, x.get('l')))
        r = m(st, x)
        if len(r) > self.MAXPATHS: raise Unsupported('too many paths')
        return r

    def s_block(self, st, x):
        states = [st]
        for i, c in enumerate(x['b']):
            ns = []
            for s in states:
                ns += [s] if s.flow else self.ex(s, c)
            states = ns
            # forward goto: jump to a label later in this block
            for s in states:
                if s.flow and s.flow.startswith('goto:'):
                    lab = s.flow[5:]
                    for j in range(i + 1, len(x['b'])):
                        if x['b'][j]['k'] == 'label' and x['b'][j]['label'] == lab:
                            s.ghost['skip'] = j
            outs = []
            for s in states:
                if s.flow and s.flow.startswith('goto:') and 'skip' in s.ghost:
                    j = s.ghost.pop('skip'); s.flow = None
                    rest = {'k': 'block', 'b': x['b'][j:]}
                    for r in self.s_block(s, rest):
                        if r.flow is None: r.flow = 'blockdone:%d' % id(x)
                        outs.append(r)
                else: outs.append(s)
            states = outs
        for s in states:
            if s.flow == 'blockdone:%d' % id(x): s.flow = None
        return states

    def s_nop(self, st, x): return [st]
    def s_expr(self, st, x): return [s for s, _ in self.ev(st, x['e'])]
    def s_label(self, st, x): return self.ex(st, x['b'])

    def s_goto(self, st, x):
        s = st.clone(); s.flow = 'goto:' + x['label']; return [s]

    def s_try(self, st, x): return self.ex(st, x['b'])

    def s_decl(self, st, x):
        states = [st]
        for v in x['vars']:
            ns = []
            for s in states: ns += self.declare(s, v)
            states = ns
        return states

    def declare(self, st, v):
        t = ty(v['t'])
        fr = self.frames[-1]
        if v['static']:
            fr['vars'][v['id']] = Loc(('static', v['name'], v['t']))
            return [st]
        if t.kind == 'ref':
            out = []
            for s, r in self.ev(st, v['init']):
                if not isinstance(r, Loc):
                    root = ('tmp', v['name'], v['id'], len(self.frames)); s = s.clone(); s.store[root] = r; r = Loc(root)
                if out and fr['vars'][v['id']].key() != r.key(): raise Unsupported('reference binding forks')
                fr['vars'][v['id']] = r
                out.append(s)
            return out
        root = ('var', v['name'], v['id'], len(self.frames))
        fr['vars'][v['id']] = Loc(root)
        self.decl[root] = t
        out = []
        if 'init' in v:
            for s, r in self.ev(st, v['init']):
                w = self.rv(s, r)
                if isinstance(w, Own) and isinstance(r, Loc):      # another name for the object that is owned
                    self.oblige(s, 'the pointer is not null', w.nn, 'safety', v.get('l'))
                    w = Ptr(r.sub(('o', 0)))
                if isinstance(w, Vec) and getattr(w.ty, 'buf', None) and isinstance(r, Loc): raise Unsupported('second pointer to an array')
                if t.kind == 'ptr' and isinstance(w, Opaque) and w.tag == 'nullptr' and t.to.kind in ('struct', 'int') and t.to.text in self.bufs: w = self.th.default(BUF(t.to.text))
                s = s.clone(); s.store[root] = self.coerce(w, t); out.append(s)
        else:
            s = st.clone()
            s.store[root] = self.th.fresh(t, v['name']) if t.kind in ('int', 'bool', 'real') else self.th.default(t) if t.kind != 'arr' else Opaque('arr')
            out.append(s)
        return out

    def coerce(self, r, t):
        if t.kind == 'real' and z3.is_expr(r): return self.toreal(r)
        return r

    def branch(self, st, c):
        c = z3.simplify(self.tobool(c))
        out = []
        for g, tag in ((c, True), (z3.simplify(Not(c)), False)):
            if z3.is_false(g): continue
            s = st.clone()
            if not z3.is_true(g): s.pc.append(g)
            if self.infeasible(s): continue
            out.append((s, tag))
        return out

    def s_if(self, st, x):
        states = [st]
        if x.get('init'): states = self.ex(st, x['init'])
        out = []
        for s0 in states:
            if x.get('cv'): raise Unsupported('condition variable')
            for s, c in self.evv(s0, x['c']):
                for s2, tag in self.branch(s, c):
                    out += self.ex(s2, x['a'] if tag else x['b'])
        return out

    def s_return(self, st, x):
        if 'e' not in x:
            s = st.clone(); s.flow = 'return'; s.ret = None; return [s]
        out = []
        rt = ty(self.frames[-1]['body']['ret'])
        for s, v in self.ev(st, x['e']):
            s = s.clone(); s.flow = 'return'
            s.ret = v if rt.kind == 'ref' else self.coerce(self.rv(s, v), rt)
            out.append(s)
        return out

    def s_break(self, st, x): s = st.clone(); s.flow = 'break'; return [s]
    def s_continue(self, st, x): s = st.clone(); s.flow = 'continue'; return [s]

    def s_switch(self, st, x):
        body = x['b']['b']
        out = []
        for s, c in self.evv(st, x['c']):
            c = self.toint(c)
            labels = []
            flat = []
            for item in body:
                labs = []
                while item is not None and item['k'] in ('case', 'default'):
                    labs.append(int(item['v']) if item['k'] == 'case' else None)
                    item = item['b']
                if labs: labels.append((len(flat), labs))
                flat.append(item)
            allv = [l for _, ls in labels for l in ls if l is not None]
            for pos, ls in labels + [(len(flat), ['end'])]:
                conds = []
                for l in ls:
                    if l == 'end':
                        if any(None in q for _, q in labels): continue
                        conds.append(And([c != z for z in allv]))
                    elif l is None: conds.append(And([c != z for z in allv]))
                    else: conds.append(c == l)
                if not conds: continue
                s2 = s.clone(); s2.pc.append(z3.simplify(Or(conds)))
                if self.infeasible(s2): continue
                for r in self.s_block(s2, {'k': 'block', 'b': [f for f in flat[pos:] if f is not None]}):
                    if r.flow == 'break': r.flow = None
                    out.append(r)
        return out

    # ---- loops
    def s_while(self, st, x): return self.loop(st, x, None, x['c'], None, x['b'], False)
    def s_do(self, st, x): return self.loop(st, x, None, x['c'], None, x['b'], True)
    def s_for(self, st, x):
        out = []
        for s in self.ex(st, x['init']) if x.get('init') else [st]:
            out += self.loop(s, x, None, x.get('c'), x.get('inc'), x['b'], False)
        return out

    def s_frange(self, st, x):
        out = []
        fr = self.frames[-1]
        for s, r in self.ev(st, x['range']):
            if not isinstance(r, Loc):
                root = ('tmp', next(_fresh)); s = s.clone(); s.store[root] = r; r = Loc(root)
            v = self.read(s, r)
            kind = 'vec' if isinstance(v, Vec) else 'set' if z3.is_expr(v) and v.sort() == T.S else None
            if kind is None: raise Unsupported('range-for over ' + x['range']['t'])
            root = ('var', '__it', id(x))
            s = s.clone(); s.store[root] = It(kind, r, IntVal(0))
            out += self.loop(s, x, (Loc(root), r, kind, x['var']), None, None, x['b'], False)
        return out

    def loop(self, st, x, rng, cond, inc, body, dofirst):
        fr = self.frames[-1]
        spec = self.loopspec(x)
        if spec is None:
            r = self.try_unroll(st, x, rng, cond, inc, body, dofirst)
            if r is not None: return r
            raise Unsupported('loop without invariant at line %s of %s' % (x.get('l'), fr['key']))
        lname = spec.get('name', 'loop')

        def inv_at(s, assuming=False):
            env = LoopEnv(self, s, fr, entry, scope)
            env.assuming = assuming
            return spec['inv'](env)
        entry = st
        scope = {i: l for i, l in fr['vars'].items() if l.root in st.store or l.root[0] not in ('var', 'tmp')}      # the variables an invariant can name
        own = declared(x.get('init'))
        scope = {**{i: l for i, l in scope.items() if i not in own}, **{i: l for i, l in scope.items() if i in own}}     # those of this loop's own header come last: they hide earlier ones
        out = []
        if dofirst:
            raise Unsupported('do-while with invariant')
        for nm, b in inv_at(st):
            self.oblige(st, '%s: invariant holds on entry: %s' % (lname, nm), b, 'invariant', x.get('l'))
        # havoc
        s = st.clone()
        for root in self.modified_roots(s, fr, x, rng):
            t = self.roottype(s, root)
            if t is None: raise Unsupported('havoc of ' + str(root))
            if isinstance(t, It):
                s.store[root] = It(t.kind, t.loc, z3.Int('it!%d' % next(_fresh)))
                continue
            nv = self.th.fresh(t, root[1] if len(root) > 1 and isinstance(root[1], str) else 'h')
            s.store[root] = nv
            s.pc.extend(self.th.typefacts(t, nv))
        self.havoc_loop_statics(s)
        for nm, b in inv_at(s, True): s.pc.append(b)
        # condition
        def evcond(s):
            if rng:
                it = self.read(s, rng[0]); v = self.read(s, rng[1])
                ln = v.len if rng[2] == 'vec' else T.card(v)
                return [(s, it.pos < ln)]
            if cond is None: return [(s, BoolVal(True))]
            return self.evv(s, cond)
        head_measure = spec['measure'](LoopEnv(self, s, fr, entry, scope)) if 'measure' in spec else None
        for s1, c in evcond(s):
            for s2, tag in self.branch(s1, c):
                if not tag:
                    out.append(s2); continue
                if rng:
                    it = self.read(s2, rng[0])
                    s2 = s2.clone()
                    el = self.deref_iter(s2, it, x, None)
                    vt = ty(rng[3]['t'])
                    if vt.kind == 'ref' and isinstance(el, Loc): fr['vars'][rng[3]['id']] = el
                    else:
                        root = ('var', rng[3]['name'], rng[3]['id'], len(self.frames))
                        s2.store[root] = self.rv(s2, el); fr['vars'][rng[3]['id']] = Loc(root)
                for s3 in self.ex(s2, body):
                    if s3.flow == 'break':
                        s3.flow = None; out.append(s3); continue
                    if s3.flow in (None, 'continue'):
                        s3.flow = None
                        ends = [s3]
                        if rng:
                            s3 = s3.clone(); self.write(s3, rng[0], self.iter_step(s3, self.read(s3, rng[0]), 1)); ends = [s3]
                        elif inc: ends = [q for q, _ in self.ev(s3, inc)]
                        for s4 in ends:
                            for nm, b in inv_at(s4):
                                self.oblige(s4, '%s: invariant is preserved: %s' % (lname, nm), b, 'invariant', x.get('l'))
                            if head_measure is not None:
                                m1 = spec['measure'](LoopEnv(self, s4, fr, entry, scope))
                                self.oblige(s4, '%s: loop measure decreases' % lname, And(head_measure >= 0, m1 < head_measure), 'termination', x.get('l'))
                            self.check_loop_statics(s4)
                        continue
                    out.append(s3)
        return out

    def try_unroll(self, st, x, rng, cond, inc, body, dofirst, limit=66):
        """complete unrolling of loops whose trip count is decided by constants"""
        if rng: return None
        fr = self.frames[-1]
        states, out = [(st, dofirst)], []
        for _ in range(limit):
            ns = []
            for s, skipcond in states:
                conds = [(s, BoolVal(True))] if skipcond or cond is None else self.evv(s, cond)
                for s1, c in conds:
                    c = z3.simplify(self.tobool(c))
                    if z3.is_false(c): out.append(s1); continue
                    if not z3.is_true(c): return None
                    for s2 in self.ex(s1, body):
                        if s2.flow == 'break': s2.flow = None; out.append(s2); continue
                        if s2.flow not in (None, 'continue'): out.append(s2); continue
                        s2.flow = None
                        ns += [(q, False) for q, _ in (self.ev(s2, inc) if inc else [(s2, None)])]
            if not ns: return out
            states = ns
        return None

    def loopspec(self, x):
        fr = self.frames[-1]
        con = self.con.get(fr['key'])
        specs = con.loops if con else self.opts.get('loops', {}).get(fr['key'])
        if con is None and specs is None: return None
        if not specs: return None
        # loops are numbered in textual order of the function body
        order = fr['body'].setdefault('_loops', None)
        if order is None:
            order = []
            def w(y):
                if isinstance(y, dict):
                    if y.get('k') in ('for', 'while', 'do', 'frange') and 'b' in y: order.append((id(y)))
                    for k_, z in y.items():
                        if k_ != '_loops': w(z)
                elif isinstance(y, list):
                    for z in y: w(z)
            # textual order: init/cond before body
            w(fr['body'].get('body'))
            fr['body']['_loops'] = order
        i = order.index(id(x))
        if len(specs) != len(order) and not (con and con.loops_any): raise Unsupported('%s has %d loops, contract annotates %d' % (fr['key'], len(order), len(specs)))
        return specs[i] if i < len(specs) else None

    def roottype(self, s, root):
        if root[0] in ('static', 'global'): return ty(root[2])
        v = s.store.get(root)
        t = self.decl.get(root)
        if t is not None and t.kind == 'int' and z3.is_expr(v) and v.sort() == z3.IntSort(): return plainint(t)
        return self.typeof(v)

    def typeof(self, v):
        if isinstance(v, It): return v
        if isinstance(v, (Rec, Vec, Map, Own)): return v.ty
        if z3.is_expr(v):
            so = v.sort()
            if so == z3.IntSort(): return ANYINT
            if so == z3.BoolSort(): return ty('bool')
            if so == z3.RealSort(): return ty('double')
            if so == T.S: return ty('std::set<int>')
            if so == T.F: return ty('unsigned long long')
        return None

    def modified_roots(self, s, fr, x, rng):
        roots = {}
        def base(y):
            while isinstance(y, dict):
                if y['k'] == 'ref':
                    if y['dk'] in ('param', 'local'):
                        l = fr['vars'].get(y['id'])
                        if l is not None:
                            v = s.store.get(l.root)
                            if isinstance(v, Ptr): roots[v.loc.root] = 1
                            elif isinstance(v, It): roots[l.root] = 1
                            else: roots[l.root] = 1
                    elif y['dk'] == 'static': roots[('static', y['name'], y['dt'])] = 1
                    elif y['dk'] == 'global' and y['name'] not in self.GLOBAL_CONST:
                        roots[('global', y['q'], y['dt'])] = 1
                    return
                if y['k'] == 'this':
                    roots[fr['this'].root] = 1; return
                if y['k'] == 'member': y = y['base']
                elif y['k'] == 'mcall': y = y['obj']
                elif y['k'] == 'un': y = y['e']
                elif y['k'] == 'index': y = y['a']
                elif y['k'] == 'cast': y = y['e']
                else: return
        def w(y):
            if isinstance(y, dict):
                k = y.get('k')
                if k in ('assign', 'cassign'): base(y['a'])
                elif k == 'un' and y['op'] in ('++', '--', '&'): base(y['e'])
                elif k == 'mcall':
                    if not y['fn']['key'].endswith('const'): base(y['obj'])
                if k in ('call', 'mcall', 'ctor') and 'fn' in y:
                    for pt, a in zip(y['fn']['ptypes'], y['args']):
                        if (pt.endswith(('&', '*')) and not pt.startswith('const ')): base(a)
                for z in y.values(): w(z)
            elif isinstance(y, list):
                for z in y: w(z)
        w(x['b'])
        for kk in ('inc', 'c'):
            if x.get(kk): w(x[kk])
        if rng: roots[rng[0].root] = 1
        out = []
        for r in roots:
            if r in s.store or r[0] in ('static', 'global'): out.append(r)
        # keep iterators over unmodified containers positioned relative to their loc
        return [r for r in out if r[0] != 'static']

    def havoc_loop_statics(self, s):
        for root in list(s.store):
            if root[0] == 'static':
                inv = self.static_inv(root[1])
                if inv:
                    for nm, b in inv.goal(self, s.store[root]): self.oblige(s, 'memo table %s keeps its invariant: %s' % (root[1], nm), b, 'invariant')
                del s.store[root]

    def check_loop_statics(self, s):
        for root in list(s.store):
            if root[0] == 'static':
                inv = self.static_inv(root[1])
                if inv:
                    for nm, b in inv.goal(self, s.store[root]): self.oblige(s, 'memo table %s keeps its invariant: %s' % (root[1], nm), b, 'invariant')

    # ---- verify one function against its contract
    def verify(self, con):
        body = self.ix.fns.get(con.fn or con.key)
        if body is None: raise Unsupported('function %s not found' % con.key)
        self.cur = self.topcon = con
        self.obls, self.extfacts = [], []
        self.feas_cache = {}
        self.loop_free_of_measure = False
        self.topmeasure = None
        body.pop('_loops', None)
        st = State()
        args = []
        for p in body['params']:
            t = ty(p['t'])
            tt = t.to if t.kind in ('ref', 'ptr') else t
            if tt.kind in ('stream', 'void') or (t.kind == 'ptr' and tt.kind == 'struct' and tt.text == '_IO_FILE'):
                args.append(Opaque('stream')); continue
            pre = con.params.get(p['name']) if con.params else None
            v = self.th.fresh(tt, p['name'])
            st.pc.extend(self.th.typefacts(tt, v))
            root = ('arg', p['name'], next(_fresh)); st.store[root] = v; self.decl[root] = tt
            args.append(Loc(root) if t.kind != 'ptr' else Ptr(Loc(root)))
        this = None
        if body.get('cls') and not body.get('static'):
            t = ty(body['clsT'])
            root = ('this',)
            st.store[root] = self.default_struct(t) if body.get('ctor') else self.th.fresh(t, 'this')
            this = Loc(root)
            if not body.get('ctor'): st.pc.extend(self.th.typefacts(t, st.store[root]))
        if con.setup: con.setup(self, st)
        c = self.mkctx(st, con, this, args)
        c.assuming = True
        if con.assume_extra: st.pc.extend(con.assume_extra(c))
        if con.requires:
            for nm, b in con.requires(c): st.pc.append(b)
        if con.measure: self.topmeasure = con.measure(c)
        old = st.clone()
        s = st.clone()
        fr = {'key': body['key'], 'vars': self.bind(s, body, args), 'this': this, 'body': body, 'loopno': itertools.count()}
        self.frames = [fr]
        self.entry_state = old
        outs = self.run_body(s, body, fr)
        self.frames = []
        self.paths = 0
        self.finals = []
        for s2, r in outs:
            if self.infeasible(s2): continue
            self.paths += 1
            c2 = self.mkctx(s2, con, this, args, ret=self.rv(s2, r) if r is not None else None, old=old)
            c2.oldctx = self.mkctx(old, con, this, args)
            for nm, b in con.post(c2) + self.framegoals(con, body, s2, args, this, old): self.oblige(s2, 'postcondition: ' + nm, b, 'post', body['line'])
            for root, v in list(s2.store.items()):
                if root[0] == 'static':
                    inv = self.static_inv(root[1])
                    if inv:
                        for nm, b in inv.goal(self, v): self.oblige(s2, 'memo table %s keeps its invariant: %s' % (root[1], nm), b, 'invariant', body['line'])
            if ('recur',) in s2.store:
                self.oblige(s2, 'the recursion counter is restored', s2.store[('recur',)] == 0, 'post', body['line'])
            self.finals.append(list(s2.pc))
        return self.obls


class LoopEnv:
    def __init__(self, ex, st, fr, entry, scope=None):
        self.ex, self.st, self.fr, self.entry = ex, st, fr, entry
        self.vars = fr['vars'] if scope is None else scope

    def names(self):
        out = {}
        for vid, l in self.vars.items():
            if l.root[0] in ('var', 'tmp', 'arg') and len(l.root) > 1 and isinstance(l.root[1], str):
                out[l.root[1]] = l
        for p in self.fr['body'].get('params', []):
            out.setdefault(p['name'], self.vars[p['id']])
        return out

    def __getitem__(self, n):
        ns = self.names()
        if n not in ns: raise Unsupported('loop invariant refers to %s, not found' % n)
        v = self.ex.read(self.st, ns[n])
        if isinstance(v, Ptr): v = self.ex.read(self.st, v.loc)
        return v

    def at_entry(self, n):
        v = self.ex.read(self.entry, self.names()[n])
        return self.ex.read(self.entry, v.loc) if isinstance(v, Ptr) else v

    def fam(self, n): return self.ex.famval(self[n])

    def this(self): return self.ex.read(self.st, self.fr['this'])

    def thisfam(self): return self.ex.famval(self.this())

    def thisfam0(self): return self.ex.famval(self.ex.read(self.ex.entry_state, self.fr['this']))


def declared(x):
    """ids of the variables declared in a statement"""
    out = set()
    def w(y):
        if isinstance(y, dict):
            if y.get('k') == 'decl' or 'id' in y and 'init' in y: out.add(y.get('id'))
            for z in y.values(): w(z)
        elif isinstance(y, list):
            for z in y: w(z)
    w(x)
    return out


def lexlt(a, b):
    return a < b


def same_store(a, b):
    if a is b: return True
    for k, v in b.items():
        w = a.get(k)
        if w is v: continue
        if z3.is_expr(w) and z3.is_expr(v) and w.eq(v): continue
        return False
    return True


def has_quant(x):
    todo, seen = [x], set()
    while todo:
        y = todo.pop()
        if y.get_id() in seen: continue
        seen.add(y.get_id())
        if z3.is_quantifier(y): return True
        todo.extend(y.children())
    return False


def short(key):
    return key.split('(')[0]
