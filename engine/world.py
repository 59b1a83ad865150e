"""Collections seen through the contracts of their parts.  A segment map is a
sequence of nodes with keys -N..-1 (traversal order; key 0 is the end; a new
node takes key -N-1: the order of distinct segments carries no meaning), node k
holding a type descriptor and a segment.  A segment is a sequence of size(k)
values val(k,0..size(k)-1) with capacity cap(k); epoch(k) changes when its
elements are relocated.  A position of a segment is (k, epoch, i).
The contracts below are the ones proved on the real code of segment
(specs_seg), type_info_map (specs_map), stride_iterator (specs_stride)."""
import re, z3
from ll import Unsupported
from core import *
from symex import size_var
import stdc
from stdc import C as Contract, throw, params_of, CT, EQ
from umap import TYP, ti_region, desc
FIRST = 8; SECOND = 16
SEG = 'boost::poly_collection::detail::segment<'
TIM = 'boost::poly_collection::detail::type_info_map<'
NULLKEY = 1

def split_cls(dem, key):
    """member text when dem is a member of the class template key"""
    i = 0; d = 0; n = len(dem)
    while i < n:
        if d == 0 and dem.startswith(key, i) and (i == 0 or dem[i-1] == ' '):
            j = i+len(key); dd = 1
            while dd:
                if dem[j] in '<([{': dd += 1
                elif dem[j] in '>)]}' and not (dem[j] == '>' and dem[j-1] == '-'): dd -= 1
                j += 1
            if dem.startswith('::', j): return dem[j+2:]
            i = j; continue
        if dem.startswith('operator', i) and d == 0: return None
        if dem[i] in '<([{': d += 1
        elif dem[i] in '>)]}': d -= 1
        i += 1
    return None
def targs_of(rest):
    """template argument list of 'name<a, b>(...)'"""
    m = re.match(r'operator[=!]?=|~?[A-Za-z_]+', rest)
    j = m.end()
    if j >= len(rest) or rest[j] != '<': return []
    return params_of('f('+matching(rest, j)+')')
def matching(s, j):
    d = 0; k = j
    while True:
        if s[k] in '<([{': d += 1
        elif s[k] in '>)]}':
            d -= 1
            if d == 0: return s[j+1:k]
        k += 1

def F2(f, nk):
    f.nk = nk; return f

class World:
    """what the collection translation unit at hand is made of"""
    def __init__(w, E):
        w.E = E; E.W = w
        w.packed = any('base_model' in E.mod.demangle(n) for n in list(E.mod.funcs)[:400] if 'segment' in n)
        sz = E.mod.size(('named', 'struct.C'))
        w.tsize = sz
        w.S = sz if w.packed else 16
        w.colls = []
        w.stride = z3.Function('stride_of_type', z3.IntSort(), z3.IntSort())
    def sizes(w, st):
        """strides of the types at hand"""
        if not w.packed: return
        for T in ('C',):
            d = tdesc(w.E, st, T)
            if d is not None: st.assume(w.stride(TYP(w.E.pair(d))) == w.E.mod.size(('named', 'struct.'+T)))
    def vdesc(w, E, st):
        """descriptor of the value type"""
        return tdesc(E, st, 'B' if w.packed else 'boost::poly_collection::detail::callable_wrapper<int (int)>')
    # ---- regions
    def nodes(w, name):
        E = w.E
        n = E.new_region('fam', name+'_nodes'); n.nkeys = 1; n.heap = True
        p = E.new_region('buf', name+'_pos', stride=w.S); p.nkeys = 2; p.nullkey = NULLKEY
        t = p
        if not w.packed:
            t = E.new_region('buf', name+'_tpos', stride=w.tsize); t.nkeys = 2; t.nullkey = NULLKEY
        n.pos = p; n.tpos = t; p.nodes = n; t.nodes = n; n.isnodes = True
        n.loader = node_loader
        return n
    def put_nodes(w, st, n, N, cells):
        st.mem[n] = RS(); st.rs(n).cells = dict(cells)
        for r in (n.pos, n.tpos):
            if r not in st.mem: st.mem[r] = RS()
        st.ghost[('N', n.id)] = N
    def fresh_nodes(w, st, name, N=None):
        """arbitrary valid contents"""
        E = w.E
        n = w.nodes(name)
        if N is None: N = size_var(name+'_N', 0, 2**40)
        ti = ti_region(E); desc(E, st, 0)
        T = z3.Function(name+'_key', z3.IntSort(), z3.IntSort())
        cells = {FIRST: Fun(lambda k: (z3.IntVal(ti.id), T(k)), True), 'size': Fun.fresh(name+'_size'), 'cap': Fun.fresh(name+'_cap'), 'epoch': Fun.fresh(name+'_epoch'), 'val': F2(Fun.fresh(name+'_val', False, 2), 2)}
        w.put_nodes(st, n, Lin.of(N), cells)
        w.assume_valid(st, n)
        return n
    def assume_valid(w, st, n):
        c = st.rs(n).cells
        N = zi(st.ghost[('N', n.id)])
        i, j = z3.Int(fresh_name('i')), z3.Int(fresh_name('j'))
        f = c[FIRST]
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(-N <= i, i < j, j < 0), TYP(f.get(i)) != TYP(f.get(j)))))
        k = z3.Int(fresh_name('k'))
        sz, cp = c['size'].get(k), c['cap'].get(k)
        st.assume(z3.ForAll([k], z3.And(sz >= 0, sz <= 2**40, cp >= sz, cp <= 2**40), patterns=[sz]))
        return st
    # ---- iterators
    def it_args(w, st, p):
        """IR value(s) of a base iterator at position p"""
        if not w.packed: return p
        return [p, Lin.of(w.stride(TYP(st.rs(p.reg.nodes).cells[FIRST].get(zi(p.key[0])))))]
    def posn(w, st, n, k, i):
        return P(n.pos, scale(i, w.S), (k, Lin.of(st.rs(n).cells['epoch'].get(zi(k)))))
    def tposn(w, st, n, k, i):
        return P(n.tpos, scale(i, n.tpos.stride), (k, Lin.of(st.rs(n).cells['epoch'].get(zi(k)))))

def node_loader(E, st, p, ty):
    N = zi(st.ghost[('N', p.reg.id)]); k = zi(p.key[0])
    E.oblige(st, z3.And(k >= -N, k < 0), 'valid-segment-iterator:dereference')
    return None

# ------------------------------------------------------------------ segments
def seg_at(E, st, p):
    """(nodes, k) of the segment object at p"""
    l = E.resolve(st, p)
    if len(l) != 1: raise Unsupported('segment split')
    p = l[0][1]
    if p.reg is NULLR: E.oblige(st, False, 'no-null-dereference:segment'); return None
    if not getattr(p.reg, 'isnodes', False) or p.off != SECOND: raise Unsupported('segment at %r' % p)
    if not E.check_alive(st, p, 'segment'): return None
    N = zi(st.ghost[('N', p.reg.id)]); k = zi(p.key[0])
    E.oblige(st, z3.And(k >= -N, k < 0), 'valid-segment-iterator:segment-access')
    return p.reg, p.key[0]

def upd(st, n, k, **ch):
    """change fields of segment k"""
    rs = st.w(n); kz = zi(k)
    rs.cells = dict(rs.cells)
    for nm, v in ch.items():
        f = rs.cells[nm]
        if nm == 'val':
            def get(j, i, f=f, v=v): return z3.If(j == kz, v(i), f.get(j, i))
            rs.cells[nm] = F2(Fun(get), 2)
        else: rs.cells[nm] = f.upd(kz, zi(v))
def fld(st, n, nm, *k): return st.rs(n).cells[nm].get(*[zi(x) for x in k])

def position(E, st, n, k, p, what, deref=False):
    """index of position p, which must be a valid one of segment k"""
    l = E.resolve(st, p)
    if len(l) != 1: raise Unsupported('position split')
    p = l[0][1]
    ok = isinstance(p, P) and p.reg in (n.pos, n.tpos)
    E.oblige(st, z3.BoolVal(ok), 'valid-position:'+what)
    if not ok: return None
    L = Lin.of(p.off)
    if not L.divisible(p.reg.stride): raise Unsupported('misaligned position')
    i = mkint(L.divc(p.reg.stride)); sz = fld(st, n, 'size', k)
    E.oblige(st, z3.And(zi(p.key[0]) == zi(k), zi(p.key[1]) == fld(st, n, 'epoch', k), zi(i) >= 0, zi(i) < sz if deref else zi(i) <= sz), 'valid-position:'+what)
    return i

def value(E, st, p):
    """[(st, value, type)] of the element or object at p"""
    out = []
    for st, p in E.resolve(st, p):
        if not E.check_alive(st, p, 'element-read'): continue
        n = getattr(p.reg, 'nodes', None)
        if n is not None:
            i = position(E, st, n, p.key[0], p, 'element-read', True)
            if i is None: continue
            out.append((st, fld(st, n, 'val', p.key[0], i), TYP(st.rs(n).cells[FIRST].get(zi(p.key[0])))))
        elif p.reg.kind == 'buf' and 'val' in st.rs(p.reg).cells:
            idx, inner = E.split_off(st, p.reg, p.off)
            rs = st.rs(p.reg)
            if inner: raise Unsupported('interior of element')
            E.oblige(st, z3.And(zi(idx) >= 0, zi(idx) < zi(rs.len)), 'access-in-range:element-read')
            if getattr(p.reg, 'fact', None): p.reg.fact(st, idx)
            out.append((st, rs.cells['val'].get(zi(idx)), TYP(rs.cells['ty'].get(zi(idx)))))
        elif p.reg.kind == 'obj' and ('val', p.off) in st.rs(p.reg).cells:
            rs = st.rs(p.reg)
            out.append((st, rs.cells[('val', p.off)], TYP(E.pair(rs.cells[('ty', p.off)]))))
        elif p.reg.kind == 'obj':
            c = st.rs(p.reg).cells.get(p.off)
            if c is None or not isinstance(c[1], (int, Lin)): raise Unsupported('value of %r' % p)
            out.append((st, CT(zi(c[1])), None))
        else: raise Unsupported('value of %r' % p)
    return out

def reloc(E, st, n, k, m):
    """capacity and epoch after growing by m; no relocation within the capacity"""
    sz, cp, ep = fld(st, n, 'size', k), fld(st, n, 'cap', k), fld(st, n, 'epoch', k)
    c2 = fresh_int('cap'); e2 = fresh_int('epoch')
    st.assume(z3.And(c2 >= sz+zi(m), c2 <= 2**40, sz+zi(m) <= 2**40, z3.Implies(sz+zi(m) <= cp, z3.And(c2 == cp, e2 == ep))))
    return c2, e2
def do_insert(E, st, n, k, i, m, newf):
    E.write_guard(st, P(n, 0, (0,)))
    sz = fld(st, n, 'size', k); f = st.rs(n).cells['val']; kz = zi(k)
    c2, e2 = reloc(E, st, n, k, m); i, m = zi(i), zi(m)
    upd(st, n, k, val=lambda q: z3.If(q < i, f.get(kz, q), z3.If(q < i+m, newf(q-i), f.get(kz, q-m))), size=sz+m, cap=c2, epoch=e2)
    return e2
def do_erase(E, st, n, k, i, m):
    E.write_guard(st, P(n, 0, (0,)))
    sz = fld(st, n, 'size', k); f = st.rs(n).cells['val']; kz = zi(k); i, m = zi(i), zi(m)
    upd(st, n, k, val=lambda q: z3.If(q < i, f.get(kz, q), f.get(kz, q+m)), size=sz-m)
def broken(E, st, n, k):
    """segment k after a failed operation: valid, contents unspecified"""
    E.write_guard(st, P(n, 0, (0,)))
    g = Fun.fresh('after_exc'); s2 = fresh_int('size'); c2 = fresh_int('cap'); e2 = fresh_int('epoch')
    st.assume(z3.And(s2 >= 0, c2 >= s2, c2 <= 2**40))
    upd(st, n, k, val=lambda q: g.get(q), size=s2, cap=c2, epoch=e2)
    return throw(st, 'segment operation')

def typed(E, st, n, k, T, what):
    """segment k must be the one of static type T"""
    d = tdesc(E, st, T)
    if d is None: raise Unsupported('type '+T)
    E.oblige(st, TYP(st.rs(n).cells[FIRST].get(zi(k))) == TYP(E.pair(d)), 'segment-of-the-static-type:'+what, ('C01', 'C03', 'C05'))
def tdesc(E, st, T):
    """descriptor pointer of a type named T"""
    T = re.sub(r'\b(const|volatile)\b|&', '', T).strip()
    c = E.__dict__.setdefault('_tdesc', {})
    if T not in c:
        c[T] = None
        for g in E.mod.globals_text:
            if g.startswith('_ZTI') and E.mod.demangle(g) == 'typeinfo for '+T: c[T] = g
    return E.glob(st, c[T]) if c[T] else None

ISPOS = re.compile(r'^boost::poly_collection::detail::(callable_wrapper_iterator|stride_iterator)<')
def seg_handler(E, st, args, info):
    rest = split_cls(info['dem'], SEG); w = E.W
    meth = re.match(r'operator=|~?[A-Za-z_]+', rest).group(0)
    targs = targs_of(rest); types = params_of(rest)
    f = E.mod.func(info['name'])
    slot = None
    if f is not None and f.sret is not None: slot, args = args[0], args[1:]
    if meth == 'make':
        return make_seg(E, st, slot, lambda s: tdesc(E, s, targs[0]))
    if meth == 'make_from_prototype':
        sg = seg_at(E, st, args[0])
        if sg is None: return []
        v = st.rs(sg[0]).cells[FIRST].get(zi(sg[1]))
        return make_seg(E, st, slot, lambda s: SP(v[0], Lin.of(v[1])))
    if meth == '~segment':
        p = args[0]
        if p.reg.kind != 'obj' or ('seg', p.off) not in st.rs(p.reg).cells: raise Unsupported('destruction of a segment')
        rs = st.w(p.reg); del rs.cells[('seg', p.off)]
        return [(st, 'ret', None)]
    sg = seg_at(E, st, args[0])
    if sg is None: return []
    n, k = sg
    args = args[1:]
    vals = []
    for t in types:
        if ISPOS.match(t):
            if w.packed:
                vals.append(('pos', args[0])); args = args[2:]
            else: vals.append(('pos', args[0])); args = args[1:]
        elif re.match(r'^\w+( const)?\*$', t): vals.append(('pos', args[0])); args = args[1:]
        else: vals.append((t, args[0])); args = args[1:]
    RET = lambda s, i: (s, 'ret', w.it_args(s, w.posn(s, n, k, i)))
    sz = fld(st, n, 'size', k)
    if getattr(E, 'A', None): E.A.segment_facts(st, zi(k))
    if meth in ('begin', 'end', 'empty', 'size', 'capacity', 'max_size', 'reserve', 'shrink_to_fit', 'clear') and targs: typed(E, st, n, k, targs[0], meth)
    if meth == 'begin': return [RET(st, 0)]
    if meth == 'end': return [RET(st, Lin.of(sz))]
    if meth == 'sentinel': return [(st, 'ret', w.posn(st, n, k, Lin.of(sz)))]
    if meth == 'empty': return [(st, 'ret', sz == 0)]
    if meth == 'size': return [(st, 'ret', Lin.of(sz))]
    if meth == 'capacity': return [(st, 'ret', Lin.of(fld(st, n, 'cap', k)))]
    if meth == 'max_size': return [(st, 'ret', Lin.of(MAXS(TYP(st.rs(n).cells[FIRST].get(zi(k))))))]
    if meth == 'reserve':
        E.write_guard(st, P(n, 0, (0,)))
        m = zi(E.norm_u(st, vals[0][1], 64)); cp = fld(st, n, 'cap', k); outs = [throw(st.copy(), 'reserve')]
        c2 = fresh_int('cap'); e2 = fresh_int('epoch')
        st.assume(z3.And(c2 >= m, c2 >= cp, c2 <= 2**40, z3.Implies(m <= cp, z3.And(c2 == cp, e2 == fld(st, n, 'epoch', k)))))
        upd(st, n, k, cap=c2, epoch=e2)
        return outs+[(st, 'ret', None)]
    if meth == 'shrink_to_fit':
        E.write_guard(st, P(n, 0, (0,)))
        outs = [throw(st.copy(), 'shrink_to_fit')]
        c2 = fresh_int('cap'); e2 = fresh_int('epoch')
        st.assume(z3.And(c2 >= sz, c2 <= fld(st, n, 'cap', k)))
        upd(st, n, k, cap=c2, epoch=e2)
        return outs+[(st, 'ret', None)]
    if meth == 'clear':
        do_erase(E, st, n, k, 0, sz); return [(st, 'ret', None)]
    if meth in ('erase', 'erase_till_end', 'erase_from_begin'):
        if targs and meth == 'erase': typed(E, st, n, k, targs[0], meth)
        ps = [position(E, st, n, k, x, meth) for t, x in vals]
        if None in ps: return []
        if meth == 'erase' and len(ps) == 1:
            E.oblige(st, zi(ps[0]) < sz, 'valid-position:erase'); a, b = ps[0], add(ps[0], 1)
        elif meth == 'erase': a, b = ps
        elif meth == 'erase_till_end': a, b = ps[0], Lin.of(sz)
        else: a, b = 0, ps[0]
        E.oblige(st, zi(a) <= zi(b), 'valid-range:erase')
        outs = [broken(E, st.copy(), n, k)]
        do_erase(E, st, n, k, a, sub(b, a))
        return outs+[RET(st, a)]
    # ---- insertions
    rng = [i for i, (t, x) in enumerate(vals) if t == 'TIt']
    outs = []
    if meth == 'insert' and rng:
        typed(E, st, n, k, 'C', 'insert(range)')
        i = Lin.of(sz)
        if vals[0][0] == 'pos':
            i = position(E, st, n, k, vals[0][1], 'insert')
            if i is None: return []
        a, b = vals[rng[0]][1], vals[rng[1]][1]
        if not (isinstance(a, P) and isinstance(b, P) and a.reg is b.reg and a.reg.kind == 'buf'): raise Unsupported('range')
        ia, ib = E.split_off(st, a.reg, a.off)[0], E.split_off(st, b.reg, b.off)[0]
        rs = st.rs(a.reg)
        E.oblige(st, z3.And(zi(ia) >= 0, zi(ia) <= zi(ib), zi(ib) <= zi(rs.len)), 'valid-range:insert')
        f = rs.cells['val']
        outs.append(broken(E, st.copy(), n, k))
        do_insert(E, st, n, k, i, sub(ib, ia), lambda q: f.get(q+zi(ia)))
        return outs+[RET(st, i)]
    i = Lin.of(sz); off = 0
    if vals and vals[0][0] == 'pos':
        i = position(E, st, n, k, vals[0][1], meth); off = 1
        if i is None: return []
    if meth in ('emplace', 'emplace_back', 'push_back_terminal') or meth == 'insert' and len([t for t in targs if not t.startswith('(')]) == 2: typed(E, st, n, k, targs[0], meth)
    if len(vals) != off+1: raise Unsupported('segment::'+rest[:80])
    t, x = vals[off]
    for s1, v, ty in value(E, st, x):
        if meth in ('push_back', 'insert') and ty is not None:
            E.oblige(s1, ty == TYP(s1.rs(n).cells[FIRST].get(zi(k))), 'element-goes-to-the-segment-of-its-type', ('C03', 'C05', 'C01'))
        mv = t.endswith('&&')
        outs.append(broken(E, s1.copy(), n, k))
        do_insert(E, s1, n, k, i, 1, lambda q, v=v: v)
        if mv:
            l = E.resolve(s1, x)
            if l[0][1].reg.kind == 'obj': s1.w(l[0][1].reg).cells[('val', l[0][1].off)] = fresh_int('moved')
        outs.append(RET(s1, i))
    return outs
MAXS = z3.Function('max_size_of_type', z3.IntSort(), z3.IntSort())

def make_seg(E, st, slot, d):
    outs = [throw(st.copy(), 'segment::make')]
    p = d(st)
    if p is None: raise Unsupported('make of unknown type')
    st.w(slot.reg).cells[('seg', slot.off)] = p
    return outs+[(st, 'ret', None)]

def seg_eq(E, st, args, info):
    """operator== / != of segments"""
    x = seg_at(E, st, args[0]); y = seg_at(E, st, args[1])
    if x is None or y is None: return []
    (n, k), (m, j) = x, y
    b = fresh_bool('segeq'); q = z3.Int(fresh_name('q')); w = fresh_int('w')
    same_t = TYP(st.rs(n).cells[FIRST].get(zi(k))) == TYP(st.rs(m).cells[FIRST].get(zi(j)))
    sx, sy = fld(st, n, 'size', k), fld(st, m, 'size', j)
    outs = [throw(st.copy(), 'comparison of segments')]
    st.assume(z3.Implies(b, z3.And(same_t, sx == sy, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < sx), EQ(fld(st, n, 'val', k, q), fld(st, m, 'val', j, q)))))))
    st.assume(z3.Implies(z3.Not(b), z3.Or(z3.Not(same_t), sx != sy, z3.And(w >= 0, w < sx, z3.Not(EQ(fld(st, n, 'val', k, w), fld(st, m, 'val', j, w)))))))
    for h in getattr(E, 'on_seg_eq', []): h(E, st, (n, k), (m, j), b)
    return outs+[(st, 'ret', z3.Not(b) if info['dem'].split('(')[0].endswith('!=') else b)]

# ------------------------------------------------------------------ the segment map
def tm(E, st, p):
    if isinstance(p, SP): raise Unsupported('map at symbolic address')
    if not E.check_alive(st, p, 'segment map'): return None
    c = st.rs(p.reg).cells
    if ('tm', p.off) not in c: raise Unsupported('no segment map at %r' % p)
    return c[('tm', p.off)]
def find_type(E, st, n, t):
    """[(state, key or None)]"""
    N = zi(st.ghost[('N', n.id)]); f = st.rs(n).cells[FIRST]
    i = fresh_int('seg'); q = z3.Int(fresh_name('q'))
    s1 = st.copy().assume(z3.And(i >= -N, i < 0, TYP(f.get(i)) == t))
    s2 = st.copy().assume(z3.ForAll([q], z3.Implies(z3.And(q >= -N, q < 0), TYP(f.get(q)) != t)))
    out = []
    if E.feasible(s1): out.append((s1, Lin.of(i)))
    if E.prove(s2, z3.BoolVal(False), timeout=1500) is not True: out.append((s2, None))
    return out
def tim_handler(E, st, args, info):
    rest = split_cls(info['dem'], TIM); w = E.W
    meth = re.match(r'operator=|~?[A-Za-z_]+', rest).group(0); types = params_of(rest)
    f = E.mod.func(info['name'])
    slot = None
    if f is not None and f.sret is not None: slot, args = args[0], args[1:]
    p = args[0]
    put = lambda s, q, n, al: s.w(q.reg).cells.update({('tm', q.off): n, ('al', q.off): al})
    al_of = lambda s, q: s.rs(q.reg).cells[('al', q.off)]
    if meth == 'type_info_map':
        ts = [t for t in types]
        if not ts: put(st, p, empty_nodes(E, st), Lin.of(0)); return [(st, 'ret', None)]
        if ts[0].startswith(TIM):
            src = args[1]; n = tm(E, st, src)
            if n is None: return []
            al = al_of(st, src)
            outs = []
            if len(ts) > 1: al = alloc_id(E, st, args[2])
            if ts[0].endswith('&&'):
                E.write_guard(st, src)
                if len(ts) > 1: outs.append(lost(E, st.copy(), src, n))
                put(st, p, n, al); put(st, src, empty_nodes(E, st), al_of(st, src))
                return outs+[(st, 'ret', None)]
            outs.append(throw(st.copy(), 'copy of the segments'))
            put(st, p, copy_nodes(E, st, n), al)
            return outs+[(st, 'ret', None)]
        put(st, p, empty_nodes(E, st), alloc_id(E, st, args[1])); return [(st, 'ret', None)]
    n = tm(E, st, p)
    if n is None: return []
    N = st.ghost[('N', n.id)]
    if meth in ('begin', 'cbegin'): return [(st, 'ret', P(n, 0, (mkint(scale(N, -1)),)))]
    if meth in ('end', 'cend'): return [(st, 'ret', P(n, 0, (0,)))]
    if meth == 'get_allocator':
        if slot is not None: st.w(slot.reg)
        return [(st, 'ret', None)]
    if meth == 'find':
        outs = [] if rest.endswith('const') else [throw(st.copy(), 'look-up cache')]
        for s1, k in find_type(E, st, n, TYP(E.pair(args[1]))):
            outs.append((s1, 'ret', P(n, 0, (0 if k is None else k,))))
        return outs
    if meth == 'insert':
        E.write_guard(st, P(n, 0, (0,)))
        x = args[2]
        if x.reg.kind != 'obj' or ('seg', x.off) not in st.rs(x.reg).cells: raise Unsupported('insertion of a segment that is not new')
        E.oblige(st, TYP(E.pair(st.rs(x.reg).cells[('seg', x.off)])) == TYP(E.pair(args[1])), 'segment-registered-under-its-type', ('C05', 'C13'))
        outs = [throw(st.copy(), 'segment registration')]
        for s1, k in find_type(E, st, n, TYP(E.pair(args[1]))):
            if k is not None: outs.append((s1, 'ret', [P(n, 0, (k,)), False])); continue
            new = mkint(Lin.of(N).mulc(-1).add(-1)); kz = zi(new)
            rs = s1.w(n); rs.cells = dict(rs.cells)
            rs.cells[FIRST] = rs.cells[FIRST].upd(kz, E.pair(args[1]))
            c = fresh_int('cap'); s1.assume(z3.And(c >= 0, c <= 2**40))
            rs.cells['size'] = rs.cells['size'].upd(kz, z3.IntVal(0)); rs.cells['cap'] = rs.cells['cap'].upd(kz, c); rs.cells['epoch'] = rs.cells['epoch'].upd(kz, fresh_int('epoch'))
            s1.ghost[('N', n.id)] = mkint(Lin.of(N).add(1))
            outs.append(throw(s1.copy(), 'look-up cache'))
            outs.append((s1, 'ret', [P(n, 0, (new,)), True]))
        return outs
    if meth == 'swap':
        q = args[1]; m = tm(E, st, q); E.write_guard(st, p); E.write_guard(st, q)
        a, b = al_of(st, p), al_of(st, q)
        put(st, p, m, b); put(st, q, n, a)
        return [(st, 'ret', None)]
    if meth == 'operator=':
        q = args[1]; m = tm(E, st, q); E.write_guard(st, p)
        if q.reg is p.reg and q.off == p.off: return [(st, 'ret', p)]
        if types[0].endswith('&&'):
            E.write_guard(st, q)
            s2 = st.copy()
            outs = [lost(E, s2, q, m)]; release(E, s2, n); put(s2, p, empty_nodes(E, s2), al_of(s2, p))
            release(E, st, n); put(st, p, m, fresh_int('al')); put(st, q, empty_nodes(E, st), al_of(st, q))
            return outs+[(st, 'ret', p)]
        s2 = st.copy(); release(E, s2, n); put(s2, p, empty_nodes(E, s2), al_of(s2, p))
        outs = [throw(s2, 'copy of the segments')]
        release(E, st, n); put(st, p, copy_nodes(E, st, m), fresh_int('al'))
        return outs+[(st, 'ret', p)]
    if meth == '~type_info_map':
        release(E, st, n); rs = st.w(p.reg); del rs.cells[('tm', p.off)]
        return [(st, 'ret', None)]
    raise Unsupported('type_info_map::'+rest[:60])
def release(E, st, n):
    E.oblige(st, z3.BoolVal(st.rs(n).alive is True), 'released-once:segments', ('C10',))
    st.w(n).alive = False
def lost(E, st, src, n):
    """failed element-wise move: the source is left valid and empty"""
    release(E, st, n); st.w(src.reg).cells[('tm', src.off)] = empty_nodes(E, st)
    return throw(st, 'move of the segments')
def alloc_id(E, st, p): return fresh_int('al')
def empty_nodes(E, st):
    return E.W.fresh_nodes(st, 'none', 0)
def copy_nodes(E, st, n):
    w = E.W; m = w.nodes('copy'); c = dict(st.rs(n).cells)
    c['epoch'] = Fun.fresh('epoch'); c['cap'] = Fun.fresh('cap')
    w.put_nodes(st, m, st.ghost[('N', n.id)], c)
    k = z3.Int(fresh_name('k')); f, g = c['size'], c['cap']
    st.assume(z3.ForAll([k], z3.And(g.get(k) >= f.get(k), g.get(k) <= 2**40), patterns=[g.get(k)]))
    return m

def node_inc(E, st, args, info):
    p = args[0]
    l = E.load(st, p, ('ptr',))
    if len(l) != 1 or not isinstance(l[0][1], P) or not getattr(l[0][1].reg, 'isnodes', False): raise Unsupported('++ on %r' % (l,))
    q = l[0][1]
    if not E.check_alive(st, q, 'segment iterator'): return []
    N = zi(st.ghost[('N', q.reg.id)]); k = zi(q.key[0])
    E.oblige(st, z3.And(k >= -N, k < 0), 'valid-segment-iterator:++')
    r = P(q.reg, q.off, (add(q.key[0], 1),))
    post = info['dem'].endswith('operator++(int)')
    return [(s1, 'ret', q if post else p) for s1 in E.store(st, p, r, ('ptr',))]

# ------------------------------------------------------------------ models
def sub_typeid(E, st, args, info):
    """type of an element of unknown dynamic type"""
    out = []
    for st, p in E.resolve(st, args[0]):
        if not E.check_alive(st, p, 'typeid'): continue
        n = getattr(p.reg, 'nodes', None)
        if n is not None:
            i = position(E, st, n, p.key[0], p, 'typeid', True)
            if i is None: continue
            v = st.rs(n).cells[FIRST].get(zi(p.key[0]))
            out += [(s1, 'ret', q) for s1, q in E.resolve_soft(st, SP(v[0], Lin.of(v[1])))]
        elif p.reg.kind == 'buf':
            idx, inner = E.split_off(st, p.reg, p.off); rs = st.rs(p.reg)
            E.oblige(st, z3.And(zi(idx) >= 0, zi(idx) < zi(rs.len)), 'access-in-range:typeid')
            if getattr(p.reg, 'fact', None): p.reg.fact(st, idx)
            v = rs.cells['ty'].get(zi(idx))
            out += [(s1, 'ret', q) for s1, q in E.resolve_soft(st, SP(v[0], Lin.of(v[1])))]
        elif ('ty', p.off) in st.rs(p.reg).cells: out.append((st, 'ret', st.rs(p.reg).cells[('ty', p.off)]))
        else: raise Unsupported('type of %r' % p)
    return out
def wrapper_data(E, st, args, info):
    """callable_wrapper::data: address of the wrapped element"""
    out = []
    for st, p in E.resolve(st, args[0]):
        if not E.check_alive(st, p, 'wrapper'): continue
        n = getattr(p.reg, 'nodes', None)
        if n is None: out.append((st, 'ret', p)); continue
        i = position(E, st, n, p.key[0], p, 'conversion')
        if i is None: continue
        out.append((st, 'ret', P(n.tpos, scale(i, n.tpos.stride), p.key)))
    return out
def same_address(E, st, args, info): return [(st, 'ret', args[0])]

# stride_iterator (base_collection): one step is one element
def stride_op(E, st, args, info):
    m = re.search(r'::(\w+)(<[^()]*>)?\(', info['dem'][info['dem'].index('stride_iterator<'):]).group(1)
    def get(x):
        p = E.load(st, x, ('ptr',))[0][1]
        if not isinstance(p, P): raise Unsupported('stride_iterator %r' % (p,))
        return p
    p = get(args[0])
    n = getattr(p.reg, 'nodes', None)
    if n is None:
        if m in ('increment', 'decrement', 'advance', 'distance_to'): E.oblige(st, False, 'valid-position:'+m); return []
    else:
        s = E.load(st, args[0].plus(8), ('int', 64))[0][1]
        if m in ('increment', 'decrement', 'advance', 'distance_to'):
            E.oblige(st, z3.BoolVal(not isinstance(s, Undef)), 'stride-set')
            if not isinstance(s, Undef): E.oblige(st, zi(s) == E.W.stride(TYP(st.rs(n).cells[FIRST].get(zi(p.key[0])))), 'stride-of-the-segment', ('C12', 'C02', 'C01'))
    S = E.W.S
    if m in ('increment', 'decrement', 'advance'):
        d = 1 if m == 'increment' else -1 if m == 'decrement' else E.norm_s(st, args[1], 64)
        return [(s1, 'ret', None) for s1 in E.store(st, args[0], P(p.reg, add(p.off, scale(d, S)), p.key), ('ptr',))]
    if m == 'distance_to':
        q = get(args[1])
        E.oblige(st, z3.And(z3.BoolVal(q.reg is p.reg), *[zi(a) == zi(b) for a, b in zip(p.key, q.key)]), 'positions-of-the-same-segment')
        return [(st, 'ret', mkint(Lin.of(q.off).add(p.off, -1).divc(S)))]
    raise Unsupported('stride_iterator::'+m)

def contracts():
    R = re.compile
    isseg = lambda name, dem: bool(split_cls(dem, SEG)) and not split_cls(dem, SEG).startswith('impl')
    istim = lambda name, dem: bool(split_cls(dem, TIM))
    return [(isseg, Contract('segment members (proved: specs_seg)', seg_handler)),
            (istim, Contract('type_info_map members (proved: specs_map)', tim_handler)),
            (R(r'^boost::poly_collection::detail::operator[!=]=\(boost::poly_collection::detail::segment<'), Contract('segment comparison (proved: specs_seg)', seg_eq)),
            (R(r'^std::__detail::_Node_(const_)?iterator<.*>::operator\+\+\((int)?\)$'), Contract('std::unordered_map iterator ++', node_inc)),
            (R(r'^boost::poly_collection::detail::callable_wrapper<.*>::target_type\(\) const$'), Contract('callable_wrapper::target_type', sub_typeid)),
            (R(r'^boost::poly_collection::detail::callable_wrapper<.*>::data\(\)( const)?$'), Contract('callable_wrapper::data (proved: specs_seg)', wrapper_data)),
            (R(r'^std::type_info const& boost::poly_collection::detail::base_model<.*>::subtypeid<'), Contract('base_model::subtypeid', sub_typeid)),
            (R(r'boost::poly_collection::detail::stride_iterator<.*>::(increment|decrement|advance<.*>|distance_to)\('), Contract('stride_iterator arithmetic (proved: specs_stride)', stride_op)),
            ]
