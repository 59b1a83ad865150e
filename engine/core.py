"""Values, symbolic state and memory model of the verifier."""
import z3, itertools
from ll import Unsupported

class Broken(Exception):
    """internal inconsistency of the verifier itself"""

_cnt = itertools.count(1)
def fresh_name(b): return '%s!%d' % (b, next(_cnt))
def fresh_int(b='v'): return z3.Int(fresh_name(b))
def fresh_bool(b='b'): return z3.Bool(fresh_name(b))

# ------------------------------------------------------------------ linear forms
class Lin:
    """c + sum coef*atom; atoms are z3 Int terms, identified by ast id"""
    __slots__ = ('c', 't')
    def __init__(s, c=0, t=None): s.c = c; s.t = t or {}
    @staticmethod
    def of(x):
        if isinstance(x, Lin): return x
        if isinstance(x, bool): return Lin(int(x))
        if isinstance(x, int): return Lin(x)
        if z3.is_int_value(x): return Lin(x.as_long())
        return Lin(0, {x.get_id(): (1, x)})
    def add(s, o, k=1):
        o = Lin.of(o)
        t = dict(s.t)
        for i, (c, a) in o.t.items():
            if i in t:
                n = t[i][0]+k*c
                if n == 0: del t[i]
                else: t[i] = (n, a)
            else: t[i] = (k*c, a)
        return Lin(s.c+k*o.c, t)
    def mulc(s, k):
        if k == 0: return Lin(0)
        return Lin(s.c*k, {i: (c*k, a) for i, (c, a) in s.t.items()})
    def isconst(s): return not s.t
    def divisible(s, k): return s.c % k == 0 and all(c % k == 0 for c, _ in s.t.values())
    def divc(s, k): return Lin(s.c//k, {i: (c//k, a) for i, (c, a) in s.t.items()})
    def z(s):
        ts = [a if c == 1 else c*a for c, a in s.t.values()]
        if not ts: return z3.IntVal(s.c)
        r = ts[0]
        for x in ts[1:]: r = r + x
        if s.c: r = r + s.c
        return r
    def same(s, o):
        d = s.add(o, -1)
        return d.isconst() and d.c == 0
    def __repr__(s): return 'L(%s)' % z3.simplify(s.z())

def mkint(x):
    """python int if constant"""
    if isinstance(x, Lin) and x.isconst(): return x.c
    return x
def zi(x):
    if isinstance(x, (int,)): return z3.IntVal(int(x))
    if isinstance(x, Lin): return x.z()
    return x
def add(a, b): return mkint(Lin.of(a).add(b))
def sub(a, b): return mkint(Lin.of(a).add(b, -1))
def scale(a, k): return mkint(Lin.of(a).mulc(k))
def same(a, b): return Lin.of(a).same(Lin.of(b))

# ------------------------------------------------------------------ regions, pointers
class Region:
    n = itertools.count(1)
    def __init__(s, kind, name, size=None, stride=None, leaves=None, opaque=False):
        s.id = next(Region.n); s.kind = kind; s.name = name; s.size = size; s.stride = stride
        s.leaves = leaves; s.opaque = opaque
        s.base = z3.Int('addr_%s_%d' % (name, s.id))
        s.loader = None      # custom loader for families
        s.heap = False
        s.zero_default = False
    def __repr__(s): return '%s#%d' % (s.name, s.id)
    def __hash__(s): return s.id       # deterministic iteration order
NULLR = Region('null', 'null'); NULLR.id = 0

class P:
    __slots__ = ('reg', 'off', 'key')
    def __init__(s, reg, off=0, key=()): s.reg = reg; s.off = mkint(off); s.key = key
    def plus(s, d): return P(s.reg, add(s.off, d), s.key)
    def __repr__(s): return 'P(%r,%r%s)' % (s.reg, s.off, ',%r' % (s.key,) if s.key else '')
NULL = P(NULLR, 0)

class SP:
    """pointer with symbolic region id and byte offset"""
    __slots__ = ('rid', 'off', 'add')
    def __init__(s, rid, off): s.rid = rid; s.off = off
    def __repr__(s): return 'SP(%r,%r)' % (s.rid, s.off)

class Undef:
    def __repr__(s): return 'undef'
UNDEF = Undef()

class Opaque:
    """value we do not interpret (e.g. floating point)"""
    def __repr__(s): return 'opaque'

def is_ptr(v): return isinstance(v, (P, SP))

# functional arrays: python closures k -> z3 term (or (rid,off) pair)
class Fun:
    """contents of a buffer/family for one leaf"""
    def __init__(s, get, ptr=False, tag=None): s.get = get; s.ptr = ptr; s.tag = tag
    @staticmethod
    def fresh(name, ptr=False, nkeys=1):
        S = [z3.IntSort()]*nkeys
        if ptr:
            r = z3.Function(fresh_name(name+'_rid'), *(S+[z3.IntSort()]))
            o = z3.Function(fresh_name(name+'_off'), *(S+[z3.IntSort()]))
            f = Fun(lambda *k: (r(*k), o(*k)), True); f.decl = (r, o)
            return f
        g = z3.Function(fresh_name(name), *(S+[z3.IntSort()]))
        f = Fun(lambda *k: g(*k)); f.decl = g
        return f
    def upd(s, k0, v):
        """point update; v is a z3 term or pair"""
        k0 = k0 if isinstance(k0, tuple) else (k0,)
        k0 = tuple(zi(k) for k in k0)
        def get(*k):
            c = z3.And(*[a == b for a, b in zip(k, k0)]) if len(k0) > 1 else k[0] == k0[0]
            o = s.get(*k)
            if s.ptr: return (z3.If(c, v[0], o[0]), z3.If(c, v[1], o[1]))
            return z3.If(c, v, o)
        return Fun(get, s.ptr)
    def piecewise(s, f):
        return Fun(f, s.ptr)

class RS:
    """per-state contents of a region"""
    __slots__ = ('alive', 'cells', 'len', 'zero', 'extra')
    def __init__(s): s.alive = True; s.cells = {}; s.len = None; s.zero = []; s.extra = {}
    def copy(s):
        r = RS(); r.alive = s.alive; r.cells = dict(s.cells); r.len = s.len; r.zero = list(s.zero); r.extra = dict(s.extra)
        return r

class State:
    __slots__ = ('pc', 'mem', 'exc', 'trace', 'ghost', 'owned', 'caught', 'models')
    def __init__(s): s.models = []; s.pc = []; s.mem = {}; s.exc = None; s.trace = []; s.ghost = {}; s.owned = set(); s.caught = []
    def copy(s):
        r = State(); r.pc = list(s.pc); r.mem = dict(s.mem); r.exc = s.exc; r.trace = list(s.trace)
        r.ghost = dict(s.ghost); r.owned = set(s.owned); r.caught = list(s.caught); r.models = list(s.models)
        return r
    def assume(s, f):
        if f is True: return s
        if f is False: f = z3.BoolVal(False)
        s.pc.append(f); return s
    def rs(s, reg):
        r = s.mem.get(reg)
        if r is None:
            r = RS(); s.mem[reg] = r
        return r
    def w(s, reg):
        r = s.rs(reg).copy(); s.mem[reg] = r; return r

def _get_id(s):
    d = s.__dict__; i = d.get('_gid')
    if i is None: i = d['_gid'] = z3.Z3_get_ast_id(s.ctx.ref(), s.ast)
    return i
z3.AstRef.get_id = _get_id; z3.ExprRef.get_id = _get_id
BOUNDS = {}            # size atoms: see symex.size_var
_info = {}
def ast_info(f):
    """(term, does it contain a quantifier, {id: bounded size atom}); computed once per node"""
    i = f.get_id(); c = _info.get(i)
    if c is not None: return c
    st = [f]
    while st:
        x = st[-1]; i = x.get_id()
        if i in _info: st.pop(); continue
        q = z3.is_quantifier(x); ch = [x.body()] if q else x.children()
        todo = [y for y in ch if y.get_id() not in _info]
        if todo: st.extend(todo); continue
        st.pop(); at = {}; big = None
        for y in ch:
            b = _info[y.get_id()]; q = q or b[1]
            if b[2]:
                if not at: at = b[2]; big = True
                elif b[2] is not at:
                    if big: at = dict(at); big = False
                    at.update(b[2])
        if i in BOUNDS: at = dict(at); at[i] = x
        _info[i] = (x, q, at)
    return _info[f.get_id()]
def has_quant(f): return ast_info(f)[1]
