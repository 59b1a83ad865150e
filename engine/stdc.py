"""Assumed contracts of the C++ standard library and runtime (trusted base)."""
import re, z3
from ll import Unsupported
from core import *
from symex import Engine, size_var, BOUNDS, SZMAX

class C:
    """a named contract"""
    def __init__(s, name, fn): s.cname = name; s.fn = fn
    def __call__(s, *a): return s.fn(*a)

def split_vector(dem):
    """(T, alloc, method, params) of a std::vector member, or None"""
    i = 0; d = 0; n = len(dem)
    while i < n:
        if d == 0 and dem.startswith('std::vector<', i):
            j = i+len('std::vector<'); dd = 1; args = []; last = j
            while dd:
                ch = dem[j]
                if ch in '<([{': dd += 1
                elif ch in '>)]}':
                    if not (ch == '>' and dem[j-1] == '-'): dd -= 1
                elif ch == ',' and dd == 1:
                    args.append(dem[last:j].strip()); last = j+1
                j += 1
            args.append(dem[last:j-1].strip())
            rest = dem[j:]
            if rest.startswith('::') and not rest.startswith('::_') :
                return args[0], args[1] if len(args) > 1 else '', rest[2:]
            return None
        ch = dem[i]
        if ch in '<([{': d += 1
        elif ch in '>)]}': d -= 1
        i += 1
    return None

def params_of(rest):
    """parameter type list of 'name<...>(a, b) const'"""
    d = 0; i = 0
    while i < len(rest):
        if rest[i] == '<': d += 1
        elif rest[i] == '>' : d -= 1
        elif rest[i] == '(' and d == 0: break
        i += 1
    j = i+1; d = 1; out = []; last = j
    while j < len(rest) and d:
        if rest[j] in '<([{': d += 1
        elif rest[j] in '>)]}': d -= 1
        elif rest[j] == ',' and d == 1: out.append(rest[last:j].strip()); last = j+1
        j += 1
    x = rest[last:j-1].strip()
    if x: out.append(x)
    return out

class Elem:
    def __init__(s, S, opaque, leaves): s.S = S; s.opaque = opaque; s.leaves = leaves

OPAQUE = re.compile(r'^boost::poly_collection::detail::value_holder<|^(::)?C[0-9]*$')

def elem_info(E, T):
    c = E.__dict__.setdefault('_elem', {})
    if T in c: return c[T]
    S = None
    pat = 'std::vector<%s, ' % T
    for nm, dem in E.mod.dem.items():
        if dem.startswith(pat) and dem.endswith('::size() const') and nm in E.mod.funcs:
            f = E.mod.func(nm)
            for b in f.blocks.values():
                for i in b.insts:
                    if i.op == 'sdiv' and i.a[2][0] == 'const': S = i.a[2][1]
            if S is None: S = 1
            break
    if S is None: raise Unsupported('element size of ' + T[:80])
    if OPAQUE.search(T): r = Elem(S, True, None)
    else:
        base = T.split('<')[0]
        ty = None
        for pre in ('class.', 'struct.'):
            if pre+base in E.mod.types: ty = ('named', pre+base)
        if ty is None: raise Unsupported('element type ' + T[:80])
        r = Elem(S, False, E.mod.leaves(ty))
    c[T] = r
    return r

# -------------------------------------------------------------- vectors
class Vec:
    """decoded vector: region (or NULLR), n, cap"""
    pass

def get_vec(E, st, p, el):
    if isinstance(p, SP): raise Unsupported('vector at symbolic address')
    if not E.check_alive(st, p, 'vector'): return None
    def ld(o):
        l = E.load(st, p.plus(o), ('ptr',))
        if len(l) != 1: raise Unsupported('vector split')
        return l[0][1]
    b, e, c = ld(0), ld(8), ld(16)
    if b is UNDEF: raise Unsupported('vector not initialised')
    v = Vec()
    v.p = p; v.b = b
    if b.reg is NULLR:
        v.reg = NULLR; v.n = 0; v.cap = 0; return v
    if e.reg is not b.reg or c.reg is not b.reg: raise Unsupported('vector representation')
    v.reg = b.reg
    dn = Lin.of(e.off).add(b.off, -1); dc = Lin.of(c.off).add(b.off, -1)
    if not dn.divisible(el.S) or not dc.divisible(el.S): raise Unsupported('vector representation (stride)')
    v.n = mkint(dn.divc(el.S)); v.cap = mkint(dc.divc(el.S))
    return v

def put_vec(E, st, p, reg, n, cap, el):
    rs = st.w(p.reg)
    if reg is NULLR: b = e = c = NULL
    else: b, e, c = P(reg, 0), P(reg, scale(n, el.S)), P(reg, scale(cap, el.S))
    for o, v in ((0, b), (8, e), (16, c)):
        E.kill(rs, p.off+o, 8)
        rs.cells[p.off+o] = (8, v)
    if reg is not NULLR:
        r = st.w(reg); r.len = n; r.extra['cap'] = cap

def new_buf(E, st, el, name='buf'):
    r = E.new_region('buf', name, stride=el.S, leaves=el.leaves, opaque=el.opaque)
    r.heap = True
    st.mem[r] = RS()
    st.owned.add(r)
    return r

def fresh_contents(E, el, name='c'):
    if el.opaque: return {'val': Fun.fresh(name)}
    return {o: Fun.fresh(name, t[0] == 'ptr') for o, t in el.leaves}

def contents(st, v):
    return dict(st.rs(v.reg).cells) if v.reg is not NULLR else None

def release(E, st, reg):
    if reg is NULLR: return
    rs = st.w(reg)
    if rs.alive is not True: E.oblige(st, rs.alive, 'released-once')
    rs.alive = False

def realloc(E, st, v, cap, el, n=None):
    """move contents to a new buffer; returns region"""
    c = contents(st, v)
    r = new_buf(E, st, el, v.reg.name if v.reg is not NULLR else 'buf')
    st.rs(r).cells = c if c is not None else fresh_contents(E, el)
    release(E, st, v.reg)
    put_vec(E, st, v.p, r, v.n if n is None else n, cap, el)
    return r

def newcap(E, lo, st, el=None):
    c = size_var('cap'); st.assume(c >= zi(lo))
    if el is not None: st.assume(c <= zi(maxsz(E, el)))
    return Lin.of(c)

def val_of(E, st, p):
    """[(st, term)] ghost value designated by pointer p (an opaque element)"""
    out = []
    for st, p in E.resolve(st, p):
        if not E.check_alive(st, p, 'element-read'): continue
        rs = st.rs(p.reg)
        if p.reg.kind == 'buf' and p.reg.opaque:
            idx, inner = E.split_off(st, p.reg, p.off)
            if inner != 0: raise Unsupported('interior of opaque element')
            E.oblige(st, z3.And(zi(idx) >= 0, zi(idx) < zi(rs.len)), 'access-in-range:element-read')
            out.append((st, rs.cells['val'].get(*([zi(k) for k in p.key]+[zi(idx)]))))
        elif p.reg.kind == 'obj' and ('val', p.off) in rs.cells:
            out.append((st, rs.cells[('val', p.off)]))
        elif p.reg.kind == 'obj':
            l = rs.cells.get(p.off)
            if l is not None and isinstance(l[1], (int, Lin)):
                out.append((st, CT(zi(l[1]))))
            else: out.append((st, fresh_int('arg')))
        else: raise Unsupported('value of %r' % p)
    return out
CT = z3.Function('constructed_from', z3.IntSort(), z3.IntSort())

def set_val(E, st, p, term):
    for st1, p in E.resolve(st, p):
        rs = st1.w(p.reg)
        if p.reg.kind == 'buf':
            idx, inner = E.split_off(st1, p.reg, p.off)
            rs.cells['val'] = rs.cells['val'].upd(tuple(p.key)+(idx,), term)
        else: rs.cells[('val', p.off)] = term
        return st1

def elem_value(E, st, el, args, types):
    """[(st, value)] of the element constructed from args"""
    if el.opaque:
        args2 = [(a, t) for a, t in zip(args, types) if 'value_holder_emplacing_ctor' not in t]
        if len(args2) == 1:
            a, t = args2[0]
            out = []
            for st1, v in val_of(E, st, a):
                if t.endswith('&&') and not t.startswith('const'):
                    st1 = set_val(E, st1, a, fresh_int('moved'))
                out.append((st1, v))
            return out
        for a, t in args2: val_of(E, st, a)
        return [(st, fresh_int('made'))]
    # copy of a leaf structure
    src = args[0]
    acc = [(st, {})]
    for o, t in el.leaves:
        acc = [(st2, dict(d, **{o: v})) if False else (st2, {**d, o: v}) for st1, d in acc for st2, v in E.load(st1, src.plus(o), t)]
    return acc

def put_elem(E, cells, el, k, v):
    c = dict(cells)
    if el.opaque: c['val'] = c['val'].upd(k, v)
    else:
        for o, t in el.leaves:
            x = v[o]
            c[o] = c[o].upd(k, E.pair(x) if t[0] == 'ptr' else zi(x))
    return c

def shift_insert(E, cells, el, pos, m, newf):
    """cells with m elements given by newf(leaf)(k) inserted at pos"""
    pos = zi(pos); m = zi(m); out = {}
    for key, f in cells.items():
        def mk(f=f, key=key):
            nf = newf(key)
            def get(k):
                a = f.get(k); b = nf(k - pos); c = f.get(k - m)
                if f.ptr: return tuple(z3.If(k < pos, x, z3.If(k < pos+m, y, z)) for x, y, z in zip(a, b, c))
                return z3.If(k < pos, a, z3.If(k < pos+m, b, c))
            return Fun(get, f.ptr)
        out[key] = mk()
    return out

def shift_erase(cells, pos, m):
    pos = zi(pos); m = zi(m); out = {}
    for key, f in cells.items():
        def mk(f=f):
            def get(k):
                a = f.get(k); b = f.get(k+m)
                if f.ptr: return tuple(z3.If(k < pos, x, y) for x, y in zip(a, b))
                return z3.If(k < pos, a, b)
            return Fun(get, f.ptr)
        out[key] = mk()
    return out

def throw(st, why, E=None):
    st.exc = P(EXC, 0); st.trace.append('throw:'+why)
    if EXC not in st.mem: st.mem[EXC] = RS()
    return (st, 'throw', None)
EXC = Region('obj', 'exception')
Engine.allregs.append(EXC)

def maxsz(E, el):
    d = E.__dict__.setdefault('_maxsz', {})
    if el.S not in d:
        d[el.S] = size_var('max_size_%d' % el.S, 1, (2**63-1)//el.S)
    return d[el.S]

def it_idx(E, st, v, p, el, what, hi_incl=True):
    """index designated by iterator value p in vector v"""
    l = E.resolve(st, p)
    if len(l) != 1: raise Unsupported('iterator split')
    st, p = l[0]
    if v.reg is NULLR and p.reg is NULLR: return 0
    if p.reg is not v.reg:
        E.oblige(st, False, 'valid-iterator:'+what); return None
    d = Lin.of(p.off).add(v.b.off, -1)
    if not d.divisible(el.S):
        idx, inner = E.split_off(st, v.reg, p.off)
        if inner: E.oblige(st, False, 'valid-iterator:'+what); return None
    else: idx = mkint(d.divc(el.S))
    E.oblige(st, z3.And(zi(idx) >= 0, zi(idx) <= zi(v.n) if hi_incl else zi(idx) < zi(v.n)), 'valid-iterator:'+what)
    return idx

def wguard(E, st, v):
    E.write_guard(st, v.p)
    if v.reg is not NULLR: E.write_guard(st, P(v.reg, 0))

def vector_call(E, st, args, info):
    T, A, rest = info['vec']
    meth = re.match(r'(operator==|operator=|~?[a-z_A-Z0-9]+)', rest).group(1)
    types = params_of(rest)
    el = elem_info(E, T)
    sret = None
    p = args[0]
    if isinstance(p, SP): raise Unsupported('vector at symbolic address')
    outs = []
    if meth == 'vector':
        return vector_ctor(E, st, args, types, el)
    v = get_vec(E, st, p, el)
    if v is None: return []
    if meth == '~vector':
        if v.reg is not NULLR: release(E, st, v.reg)
        return [(st, 'ret', None)]
    if meth == 'max_size': return [(st, 'ret', Lin.of(maxsz(E, el)))]
    if meth == 'reserve':
        wguard(E, st, v)
        n = E.norm_u(st, args[1], 64)
        for s1, b in E.branch(st, zi(n) > zi(v.cap)):
            if not b: outs.append((s1, 'ret', None)); continue
            outs.append(throw(s1.copy(), 'vector::reserve'))
            s1.assume(zi(n) <= zi(maxsz(E, el)))
            realloc(E, s1, v, n, el)     # libstdc++ allocates exactly n
            outs.append((s1, 'ret', None))
        return outs
    if meth in ('push_back', 'emplace_back'):
        wguard(E, st, v)
        for st, x in elem_value(E, st, el, args[1:], types):
            v = get_vec(E, st, p, el)
            for s1, full in E.branch(st, zi(v.n) >= zi(v.cap)):
                if full or el.opaque: outs.append(throw(s1.copy(), 'vector::'+meth))
                if full: reg = realloc(E, s1, v, newcap(E, add(v.n, 1), s1, el), el)
                else: reg = v.reg
                cap = s1.rs(reg).extra.get('cap', v.cap)
                rs = s1.w(reg); rs.cells = put_elem(E, rs.cells, el, v.n, x)
                put_vec(E, s1, p, reg, add(v.n, 1), cap, el)
                outs.append((s1, 'ret', P(reg, scale(v.n, el.S))))
        return outs
    if meth == 'pop_back':
        wguard(E, st, v)
        E.oblige(st, zi(v.n) > 0, 'vector-nonempty:pop_back')
        put_vec(E, st, p, v.reg, sub(v.n, 1), v.cap, el)
        return [(st, 'ret', None)]
    if meth == 'clear':
        wguard(E, st, v)
        put_vec(E, st, p, v.reg, 0, v.cap, el)
        return [(st, 'ret', None)]
    if meth in ('front', 'back'):
        E.oblige(st, zi(v.n) > 0, 'vector-nonempty:'+meth)
        return [(st, 'ret', P(v.reg, 0 if meth == 'front' else scale(sub(v.n, 1), el.S)))]
    if meth in ('emplace',) or (meth == 'insert' and len(args) == 3):
        wguard(E, st, v)
        for st, x in elem_value(E, st, el, args[2:], types[1:]):
            v = get_vec(E, st, p, el)
            pos = it_idx(E, st, v, args[1], el, 'vector::'+meth)
            if pos is None: continue
            for s1, full in E.branch(st, zi(v.n) >= zi(v.cap)):
                ts = s1.copy()
                if full: outs.append(throw(ts, 'vector::emplace'))
                elif el.opaque:
                    # basic guarantee: elements unspecified, none removed
                    n2 = size_var('n'); ts.assume(z3.And(n2 >= zi(v.n), n2 <= zi(v.n)+1, n2 <= zi(v.cap)))
                    r = ts.w(v.reg); r.cells = fresh_contents(E, el)
                    put_vec(E, ts, p, v.reg, Lin.of(n2), v.cap, el)
                    outs.append(throw(ts, 'vector::emplace'))
                if full: reg = realloc(E, s1, v, newcap(E, add(v.n, 1), s1, el), el)
                else: reg = v.reg
                cap = s1.rs(reg).extra.get('cap', v.cap)
                rs = s1.w(reg)
                def newf(key, x=x):
                    if el.opaque: return lambda k: x
                    t = dict(el.leaves)[key]
                    return (lambda k: E.pair(x[key])) if t[0] == 'ptr' else (lambda k: zi(x[key]))
                rs.cells = shift_insert(E, rs.cells, el, pos, 1, newf)
                put_vec(E, s1, p, reg, add(v.n, 1), cap, el)
                outs.append((s1, 'ret', P(reg, scale(pos, el.S))))
        return outs
    if meth == 'insert' and len(args) == 4:
        wguard(E, st, v)
        first, last = args[2], args[3]
        if not (isinstance(first, P) and isinstance(last, P) and first.reg is last.reg): raise Unsupported('range insert')
        pos = it_idx(E, st, v, args[1], el, 'vector::insert')
        if pos is None: return []
        src = first.reg
        fi, _ = E.split_off(st, src, first.off); li, _ = E.split_off(st, src, last.off)
        m = sub(li, fi)
        E.oblige(st, zi(m) >= 0, 'valid-range:vector::insert')
        E.oblige(st, z3.BoolVal(src is not v.reg), 'range-not-in-container:vector::insert')
        if not E.check_alive(st, first, 'insert-range'): return []
        sf = st.rs(src).cells['val']
        for s1, full in E.branch(st, zi(v.n)+zi(m) > zi(v.cap)):
            ts = s1.copy()
            if full: outs.append(throw(ts, 'vector::insert'))
            else:
                n2 = size_var('n'); ts.assume(z3.And(n2 >= zi(v.n), n2 <= zi(v.n)+zi(m), n2 <= zi(v.cap)))
                r = ts.w(v.reg); r.cells = fresh_contents(E, el)
                put_vec(E, ts, p, v.reg, Lin.of(n2), v.cap, el)
                outs.append(throw(ts, 'vector::insert'))
            if full: reg = realloc(E, s1, v, newcap(E, add(v.n, m), s1, el), el)
            else: reg = v.reg
            cap = s1.rs(reg).extra.get('cap', v.cap)
            rs = s1.w(reg)
            def newf(key): return lambda k: sf.get(k+zi(fi))
            rs.cells = shift_insert(E, rs.cells, el, pos, m, newf)
            put_vec(E, s1, p, reg, add(v.n, m), cap, el)
            outs.append((s1, 'ret', P(reg, scale(pos, el.S))))
        return outs
    if meth == 'erase':
        wguard(E, st, v)
        a = it_idx(E, st, v, args[1], el, 'vector::erase', len(args) == 3)
        b = add(a, 1) if len(args) == 2 else it_idx(E, st, v, args[2], el, 'vector::erase')
        if a is None or b is None: return []
        m = sub(b, a)
        E.oblige(st, zi(m) >= 0, 'valid-range:vector::erase')
        if el.opaque:
            ts = st.copy()
            if v.reg is not NULLR:
                r = ts.w(v.reg); r.cells = fresh_contents(E, el)
            outs.append(throw(ts, 'vector::erase'))
        if v.reg is not NULLR:
            rs = st.w(v.reg); rs.cells = shift_erase(rs.cells, a, m)
            put_vec(E, st, p, v.reg, sub(v.n, m), v.cap, el)
        outs.append((st, 'ret', P(v.reg, scale(a, el.S))))
        return outs
    if meth == 'shrink_to_fit':
        wguard(E, st, v)
        keep = st.copy(); outs.append((keep, 'ret', None))
        if v.reg is NULLR: return outs
        for s1, z in E.branch(st, zi(v.n) == 0):
            if z:
                release(E, s1, v.reg); put_vec(E, s1, p, NULLR, 0, 0, el)
            else:
                realloc(E, s1, v, v.n, el)   # libstdc++ allocates exactly size()
            outs.append((s1, 'ret', None))
        return outs
    if meth == 'swap':
        q = args[1]; u = get_vec(E, st, q, el)
        wguard(E, st, v); wguard(E, st, u)
        put_vec(E, st, p, u.reg, u.n, u.cap, el); put_vec(E, st, q, v.reg, v.n, v.cap, el)
        return [(st, 'ret', None)]
    if meth == 'operator=':
        q = args[1]; u = get_vec(E, st, q, el)
        wguard(E, st, v)
        if types and types[0].endswith('&&'):
            if v.reg is not NULLR: release(E, st, v.reg)
            put_vec(E, st, p, u.reg, u.n, u.cap, el); put_vec(E, st, q, NULLR, 0, 0, el)
            return [(st, 'ret', p)]
        raise Unsupported('vector copy assignment')
    raise Unsupported('vector method ' + rest[:80])

def vector_ctor(E, st, args, types, el):
    p = args[0]
    if len(args) == 1 or (len(args) == 2 and ('allocator' in types[0].split('<')[0])):
        put_vec(E, st, p, NULLR, 0, 0, el); return [(st, 'ret', None)]
    if types[0].startswith('std::initializer_list'):
        # {} passed by value: data pointer and length
        n = args[2]
        if n != 0: raise Unsupported('initializer_list')
        put_vec(E, st, p, NULLR, 0, 0, el); return [(st, 'ret', None)]
    if types[0].startswith('std::vector') and types[0].endswith('&&'):
        q = args[1]; u = get_vec(E, st, q, el)
        put_vec(E, st, p, u.reg, u.n, u.cap, el); put_vec(E, st, q, NULLR, 0, 0, el)
        return [(st, 'ret', None)]
    if types[0].startswith('std::vector') and 'const' in types[0]:
        q = args[1]; u = get_vec(E, st, q, el)
        outs = []
        if u.reg is NULLR:
            put_vec(E, st, p, NULLR, 0, 0, el); return [(st, 'ret', None)]
        outs.append(throw(st.copy(), 'vector copy'))
        for s1, z in E.branch(st, zi(u.n) == 0):
            if z: put_vec(E, s1, p, NULLR, 0, 0, el)
            else:
                r = new_buf(E, s1, el); s1.rs(r).cells = contents(s1, u)
                put_vec(E, s1, p, r, u.n, u.n, el)
            outs.append((s1, 'ret', None))
        return outs
    if types[0] == 'unsigned long':
        if args[1] == 0: put_vec(E, st, p, NULLR, 0, 0, el); return [(st, 'ret', None)]
    raise Unsupported('vector ctor ' + str(types))

INLINE_VEC = {'size', 'capacity', 'empty', 'data', 'begin', 'end', 'cbegin', 'cend', 'operator', 'get_allocator', 'rbegin', 'rend'}
def is_vector_call(name, dem):
    r = split_vector(dem)
    if r is None: return False
    m = re.match(r'(~?[a-z_A-Z0-9]+)', r[2])
    if not m: return False
    meth = m.group(1)
    if meth in INLINE_VEC and not r[2].startswith('operator='): return False
    if r[2].startswith('operator=='): return False
    return True
def vec_handler(E, st, args, info):
    info['vec'] = split_vector(info['dem'])
    # returns of class iterator types come back as coerced pointers
    return vector_call(E, st, args, info)

# -------------------------------------------------------------- heap & runtime
def op_new(E, st, args, info):
    n = args[0]
    if not isinstance(n, int): raise Unsupported('operator new of symbolic size')
    t = throw(st.copy(), 'operator new')
    r = E.new_region('obj', 'heap', n); r.heap = True; st.mem[r] = RS(); st.owned.add(r)
    return [(st, 'ret', P(r, 0)), t]
def op_delete(E, st, args, info):
    for st, p in E.resolve(st, args[0]):
        if p.reg is NULLR: return [(st, 'ret', None)]
        rs = st.w(p.reg)
        E.oblige(st, z3.BoolVal(rs.alive is True and p.reg.heap and p.off == 0), 'released-once:delete')
        if len(args) > 1 and isinstance(args[1], int) and p.reg.size is not None:
            E.oblige(st, z3.BoolVal(args[1] == p.reg.size), 'released-with-allocated-size')
        rs.alive = False
        return [(st, 'ret', None)]

def nop(E, st, args, info): return [(st, 'ret', None)]
def ret_arg0(E, st, args, info): return [(st, 'ret', args[0])]
def terminate(E, st, args, info):
    E.oblige(st, False, 'no-termination:exception escapes a noexcept function'); return []
def begin_catch(E, st, args, info):
    st.caught.append(args[0]); return [(st, 'ret', args[0])]
def end_catch(E, st, args, info):
    if st.caught: st.caught.pop()
    return [(st, 'ret', None)]
def rethrow(E, st, args, info):
    if st.caught: st.exc = st.caught[-1]
    return [(st, 'throw', None)]
def alloc_exc(E, st, args, info):
    r = E.new_region('obj', 'excobj', args[0] if isinstance(args[0], int) else None); st.mem[r] = RS()
    return [(st, 'ret', P(r, 0))]
def cxa_throw(E, st, args, info):
    st.exc = args[0]; st.trace.append('throw:%s' % (args[1].reg.name if isinstance(args[1], P) else '?'))
    st.ghost['exc_type'] = args[1].reg.name if isinstance(args[1], P) else '?'
    return [(st, 'throw', None)]
def std_throw(E, st, args, info): return [throw(st, info['dem'])]
def logic_error(E, st, args, info): return [throw(st.copy(), 'exception construction'), (st, 'ret', None)]

# opaque concrete type C (declared, never defined): its own operations
def c_special(E, st, args, info):
    dem = info['dem']
    m = re.match(r'(C[0-9]*)::(~?)(C[0-9]*|operator=|operator==)\((.*)\)', dem)
    kind, til, nm, ps = m.groups()
    if til: return [(st, 'ret', None)]
    outs = []
    if nm == 'operator==':
        return [throw(st.copy(), 'element comparison'), (st, 'ret', fresh_bool('eq'))]
    p = args[0]
    if not ps:
        return [throw(st.copy(), 'element ctor'), (set_val(E, st, p, fresh_int('made')), 'ret', None)]
    for st1, v in val_of(E, st, args[1]) if ('C' in ps) else [(st, CT(zi(args[1])) if isinstance(args[1], (int, Lin)) else fresh_int('made'))]:
        outs.append(throw(st1.copy(), 'element '+nm))
        if ps.endswith('&&'): st1 = set_val(E, st1, args[1], fresh_int('moved'))
        st1 = set_val(E, st1, p, v)
        outs.append((st1, 'ret', p if nm == 'operator=' else None))
    return outs

def std_contracts():
    R = re.compile
    L = [
     (is_vector_call, C('std::vector members', vec_handler)),
     (R(r'^operator new(\[\])?\(unsigned long\)$'), C('operator new', op_new)),
     (R(r'^operator delete(\[\])?\(void\*'), C('operator delete', op_delete)),
     (R(r'^__cxa_begin_catch$'), C('__cxa_begin_catch', begin_catch)),
     (R(r'^__cxa_end_catch$'), C('__cxa_end_catch', end_catch)),
     (R(r'^__cxa_rethrow$'), C('__cxa_rethrow', rethrow)),
     (R(r'^__cxa_allocate_exception$'), C('__cxa_allocate_exception', alloc_exc)),
     (R(r'^__cxa_free_exception$'), C('__cxa_free_exception', nop)),
     (R(r'^__cxa_throw$'), C('__cxa_throw', cxa_throw)),
     (R(r'^(__clang_call_terminate|std::terminate\(\))$'), C('std::terminate', terminate)),
     (R(r'^std::__throw_'), C('std::__throw_*', std_throw)),
     (R(r'^std::(logic_error|runtime_error|length_error)::'), C('std exceptions', logic_error)),
     (R(r'^std::(exception|bad_alloc)::~'), C('std exceptions', nop)),
     (R(r'^C[0-9]*::(~?C[0-9]*|operator==?)\('), C('element type operations', c_special)),
    ]
    return L

# -------------------------------------------------------------- comparison of vectors, type_info
EQ = z3.Function('elements_equal', z3.IntSort(), z3.IntSort(), z3.BoolSort())
def vec_eq(E, st, args, info):
    m = re.match(r'bool std::operator==<(.*)', info['dem'])
    i = info['dem'].index('(std::vector<')
    T = split_vector(info['dem'][i+1:].split(' const&')[0] + '::x')[0] if False else first_targ(info['dem'][i+1:])
    el = elem_info(E, T)
    v = get_vec(E, st, args[0], el); u = get_vec(E, st, args[1], el)
    if v is None or u is None: return []
    b = fresh_bool('veq')
    outs = []
    if el.opaque: outs.append(throw(st.copy(), 'element comparison'))
    if v.reg is NULLR or u.reg is NULLR:
        st.assume(b == (zi(v.n) == zi(u.n))); return outs+[(st, 'ret', b)]
    f = st.rs(v.reg).cells['val']; g = st.rs(u.reg).cells['val']
    k = z3.Int(fresh_name('k'))
    st.assume(z3.Implies(b, z3.And(zi(v.n) == zi(u.n), z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(v.n)), EQ(f.get(k), g.get(k)))))))
    w = fresh_int('w')
    st.assume(z3.Implies(z3.Not(b), z3.Or(zi(v.n) != zi(u.n), z3.And(w >= 0, w < zi(v.n), z3.Not(EQ(f.get(w), g.get(w)))))))
    return outs+[(st, 'ret', b)]

def first_targ(s):
    j = s.index('<')+1; d = 0; k = j
    while True:
        ch = s[k]
        if ch in '<([{': d += 1
        elif ch in '>)]}':
            if d == 0: break
            d -= 1
        elif ch == ',' and d == 0: break
        k += 1
    return s[j:k].strip()

def ti_eq(E, st, args, info):
    l = E.resolve(st, args[0]); r = E.resolve(st, args[1])
    if len(l) != 1 or len(r) != 1: raise Unsupported('type_info split')
    a, b = l[0][1], r[0][1]
    if a.reg is NULLR or b.reg is NULLR: E.oblige(st, False, 'no-null-dereference:type_info'); return []
    res = E.type_equal(st, a, b) if hasattr(E, 'type_equal') else E.ptr_eq(st, a, b)
    if info['dem'].startswith('std::type_info::operator!='):
        res = (not res) if isinstance(res, bool) else z3.Not(res)
    return [(st, 'ret', res)]

def cmp_contracts():
    R = re.compile
    return [
     (R(r'^bool std::operator==<.*\(std::vector<'), C('std::vector operator==', vec_eq)),
     (R(r'^std::type_info::operator[=!]='), C('std::type_info operator==', ti_eq)),
    ]
