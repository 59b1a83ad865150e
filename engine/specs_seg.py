"""Contracts of the segment backends (split_segment: function_collection and
any_collection; packed_segment: base_collection) and of the segment handle.
The abstract view of a segment is the sequence V(0..n-1) of its elements; every
postcondition is stated over the whole view."""
import re, z3
from ll import Unsupported
from core import *
from symex import Engine, size_var
import stdc
from stdc import get_vec, put_vec, elem_info, new_buf, Elem

class Layout: pass
def call(E, st, fn, args): return E.do_call(st, fn, args, {'ret': None, 'args': []})
def cap(el): return (2**63-1)//el.S
def zb(r): return r if z3.is_bool(r) else z3.BoolVal(bool(r))

def call_agg(E, st, fn, args):
    """call returning an aggregate, directly or through an sret slot: list of leaves"""
    f = E.mod.func(fn)
    if f is None: raise Unsupported('no driver '+fn)
    if f.sret is None:
        outs = call(E, st, fn, args)
        return [(s, k, r if isinstance(r, (list, tuple)) else [r]) for s, k, r in outs]
    slot = E.new_region('obj', 'ret', 64); st.mem[slot] = RS()
    outs = call(E, st, fn, [P(slot, 0)]+args)
    res = []
    for s, k, r in outs:
        if k != 'ret': res.append((s, k, None)); continue
        c = s.rs(slot).cells
        res.append((s, k, [c[o][1] for o in sorted(o for o in c if isinstance(o, int))]))
    return res

def vec_types(E):
    store = index = None
    for nm, dem in E.mod.dem.items():
        if nm not in E.mod.funcs and nm not in E.mod.decls: continue
        r = stdc.split_vector(dem)
        if not r: continue
        if r[0].startswith('boost::poly_collection::detail::value_holder<C>'): store = r[0]
        elif r[0].startswith('boost::poly_collection::detail::callable_wrapper<'): index = r[0]
    return store, index

# ------------------------------------------------------------------ backends
class Seg:
    """a backend object in an arbitrary well-formed state"""
    def polymorphic(s, E, st, reg): "make the object a reference to it can be downcast"
    def base_it(s, k): "list of IR arguments of a base iterator to position k"
    def local_it(s, k): return P(s.store, scale(k, s.L.sel.S)) if s.store is not NULLR else NULL

    @classmethod
    def common_layout(cls, E, L):
        """unique_ptr representation and the representation of the object make builds"""
        st = State()
        al = E.new_region('obj', 'al', 1); up = E.new_region('obj', 'up', 16)
        st.mem[al] = RS(); st.mem[up] = RS()
        outs = call(E, st, 'd_make', [P(up, 0), P(al, 0)])
        rets = [o for o in outs if o[1] == 'ret']
        if not rets: raise Unsupported('make never returns')
        st = rets[0][0]
        L.poff = L.deloff = None
        for o, c in st.rs(up).cells.items():
            if isinstance(c[1], P) and c[1].reg.kind == 'fn': L.deloff = o; L.delfn = c[1]
            elif isinstance(c[1], P) and c[1].reg.heap: L.poff = o; p = c[1]
        if L.poff is None or L.deloff is None: raise Unsupported('unique_ptr representation')
        L.size = p.reg.size
        return st, p.reg

    def finish_init(s, E, st):
        for o, c in s.L.extra.items():
            if isinstance(c[1], P) and c[1].reg not in st.mem: st.mem[c[1].reg] = RS()
            st.rs(s.obj).cells[o] = c
        s.p = P(s.obj, 0)

    def regions(s): return {r for r in (s.obj, s.store, getattr(s, 'idx', NULLR)) if r is not NULLR}

    def check_contents(s, E, st, v, n, f, tag, props):
        E.oblige(st, zi(v.n) == zi(n), tag+':size', props)
        if v.reg is NULLR: return
        k = fresh_int('k')
        s2 = st.copy().assume(z3.And(k >= 0, k < zi(n)))
        E.oblige(s2, st.rs(v.reg).cells['val'].get(k) == f(k), tag+':contents', props)

class Split(Seg):
    variants = ('',)
    @classmethod
    def layout(cls, E):
        L = getattr(E, '_lay', None)
        if L: return L
        L = Layout()
        st_t, ix_t = vec_types(E)
        if not st_t or not ix_t: raise Unsupported('split_segment: cannot identify store/index vectors')
        L.sel = elem_info(E, st_t); L.iel = elem_info(E, ix_t)
        E.mute += 1
        try:
            st = State()
            out = E.new_region('obj', 'out', 16); x = E.new_region('obj', 'x', L.sel.S)
            st.mem[out] = RS(); st.mem[x] = RS()
            r = [o for o in call(E, st, 'd_make_value', [P(out, 0), P(x, 0)]) if o[1] == 'ret']
            cells = r[0][0].rs(out).cells
            px = [o for o, c in cells.items() if isinstance(c[1], P) and c[1].reg is x]
            L.other = {o: c[1] for o, c in cells.items() if o not in px}
            if len(px) != 1 or len(r) != 1: raise Unsupported('value_type layout')
            L.px = px[0]
            st, seg = cls.common_layout(E, L)
            L.so = L.io = None; L.extra = {}
            cells = st.rs(seg).cells
            for o, c in cells.items():
                if isinstance(c[1], P) and c[1].reg.kind == 'buf' and o+8 in cells and o+16 in cells and isinstance(cells[o+8][1], P) and cells[o+8][1].reg is c[1].reg and isinstance(cells[o+16][1], P) and cells[o+16][1].reg is c[1].reg:
                    if c[1].reg.opaque: L.so = o
                    else: L.io = o
            if L.so is None or L.io is None: raise Unsupported('split_segment representation')
            for o, c in cells.items():
                if not (L.so <= o < L.so+24 or L.io <= o < L.io+24): L.extra[o] = c
        finally: E.mute -= 1
        E._lay = L
        return L

    def __init__(s, E, st, name='seg', heap=False, variant=''):
        L = s.L = s.layout(E); s.E = E; s.name = name
        s.obj = E.new_region('obj', name, L.size); s.obj.heap = heap
        st.mem[s.obj] = RS()
        if heap: st.owned.add(s.obj)
        s.n = size_var(name+'_n', 0, cap(L.sel)); s.c = size_var(name+'_c', 0, cap(L.sel)); s.ic = size_var(name+'_ic', 0, cap(L.iel))
        st.assume(z3.And(s.n >= 0, s.n <= s.c, s.c >= 1, s.ic >= s.c+1))
        st.assume(s.c <= zi(stdc.maxsz(E, L.sel)))   # nothing can hold more than max_size elements
        st.assume(s.ic <= zi(stdc.maxsz(E, L.iel)))
        s.store = new_buf(E, st, L.sel, name+'_store'); s.idx = new_buf(E, st, L.iel, name+'_index')
        s.V = Fun.fresh(name+'_V')
        st.rs(s.store).cells = {'val': s.V}
        st.rs(s.idx).cells = s.index_cells()
        put_vec(E, st, P(s.obj, L.so), s.store, Lin.of(s.n), Lin.of(s.c), L.sel)
        put_vec(E, st, P(s.obj, L.io), s.idx, Lin.of(add(s.n, 1)), Lin.of(s.ic), L.iel)
        s.finish_init(E, st)

    def index_cells(s):
        E = s.E; L = s.L; cells = {}; store = s.store
        for o, t in L.iel.leaves:
            if o == L.px: cells[o] = Fun(lambda k: (z3.IntVal(store.id), L.sel.S*k), True)
            else:
                v = L.other[o]
                if t[0] == 'ptr': cells[o] = Fun(lambda k, v=v: E.pair(v), True)
                else: cells[o] = Fun(lambda k, v=v: zi(v))
        return cells

    def base_it(s, k): return [P(s.idx, scale(k, s.L.iel.S))]
    def vecs(s, E, st, obj):
        L = s.L; p = obj if isinstance(obj, P) else P(obj, 0)
        v = get_vec(E, st, p.plus(L.so), L.sel)
        if v is None: return None
        v.w = get_vec(E, st, p.plus(L.io), L.iel)
        return v if v.w is not None else None
    def entry_ok(s, E, st, v, k):
        """index entry k designates store slot k with the type's table"""
        L = s.L; c = st.rs(v.w.reg).cells; fs = []
        for o, t in L.iel.leaves:
            x = c[o].get(k)
            if o == L.px: fs += [x[0] == v.reg.id, x[1] == L.sel.S*k]
            elif t[0] == 'ptr':
                y = E.pair(L.other[o]); fs += [x[0] == y[0], x[1] == y[1]]
            else: fs.append(x == zi(L.other[o]))
        return z3.And(*fs)
    def check_inv(s, E, st, obj, tag, props):
        """oblige the representation invariant; returns the decoded vectors"""
        v = s.vecs(E, st, obj)
        if v is None: return None
        w = v.w
        ok = v.reg is not NULLR and w.reg is not NULLR
        E.oblige(st, z3.BoolVal(ok), tag+':store-and-index-allocated', props)
        if not ok: return None
        for r in (v.reg, w.reg):
            a = st.rs(r).alive
            E.oblige(st, a if a is not True else True, tag+':store-and-index-live', props)
        E.oblige(st, z3.And(zi(v.n) >= 0, zi(v.n) <= zi(v.cap)), tag+':size-within-capacity', props)
        E.oblige(st, zi(w.n) == zi(v.n)+1, tag+':index-in-step-with-store', props)
        E.oblige(st, zi(w.cap) >= zi(v.cap)+1, tag+':index-has-room-for-store-capacity', props)
        k = fresh_int('k')
        s2 = st.copy().assume(z3.And(k >= 0, k <= zi(v.n)))
        E.oblige(s2, s.entry_ok(E, s2, v, k), tag+':index-entries-designate-their-elements', props)
        return v
    def it_eq(s, E, st, r, v, pos): return E.ptr_eq(st, r[0], P(v.w.reg, scale(pos, s.L.iel.S)))
    def end_eq(s, E, st, r, v): return E.ptr_eq(st, r, P(v.w.reg, scale(v.n, s.L.iel.S)))
    def end_val(s): return P(s.idx, scale(Lin.of(s.n), s.L.iel.S))
    def moved(s, v): return v.reg is not s.store or v.w.reg is not s.idx

    def index_template(s, E, st, loop):
        """invariant template: entries built so far designate their elements"""
        out = []; L = s.L
        for obj, rs in list(st.mem.items()):
            if obj.kind != 'obj' or obj.size != L.size or rs.alive is not True: continue
            c = rs.cells
            if not all(o in c and isinstance(c[o][1], P) and c[o][1].reg.kind == 'buf' for o in (L.so, L.io)): continue
            try: v = s.vecs(E, st, obj)
            except (KeyError, AttributeError, Unsupported): continue
            if v is None or v.reg is NULLR or v.w.reg is NULLR: continue
            k = z3.Int('k!t')
            out.append(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(v.w.n)), s.entry_ok(E, st, v, k))))
        return z3.And(*out) if out else True
    def sizes_template(s, E, st, loop):
        m = E.ctx[4]
        v = s.vecs(E, st, s.obj); w = v.w
        if v.reg is NULLR or w.reg is NULLR: return True
        return z3.And(zi(w.n) == zi(v.n)+1, zi(v.n) <= zi(v.cap), zi(w.cap) >= zi(v.cap)+1, zi(v.n) >= s.n, zi(v.n) <= s.n+m, zi(v.cap) <= zi(stdc.maxsz(E, s.L.sel)), zi(w.cap) <= zi(stdc.maxsz(E, s.L.iel)))
    def templates(s, ranged=False):
        t = [('index', s.index_template)]
        if ranged: t += [('sizes', s.sizes_template), ('inserted', inserted_template)]
        return t

class Packed(Seg):
    variants = ('', ' with no storage')
    @classmethod
    def layout(cls, E):
        L = getattr(E, '_lay', None)
        if L: return L
        L = Layout()
        st_t, _ = vec_types(E)
        if not st_t: raise Unsupported('packed_segment: cannot identify the store vector')
        L.sel = elem_info(E, st_t)
        E.mute += 1
        try:
            st = State(); x = E.new_region('obj', 'x', L.sel.S); st.mem[x] = RS()
            r = call(E, st, 'd_upcast', [P(x, 0)])
            L.boff = r[0][2].off
            st, seg = cls.common_layout(E, L)
            cells = st.rs(seg).cells
            # the store is the only vector: three null pointers in a row
            nul = sorted(o for o, c in cells.items() if isinstance(c[1], P) and c[1].reg is NULLR)
            cand = [o for o in nul if o+8 in nul and o+16 in nul]
            if len(cand) != 1: raise Unsupported('packed_segment representation')
            L.so = cand[0]
            L.extra = {o: c for o, c in cells.items() if not L.so <= o < L.so+24}
        finally: E.mute -= 1
        E._lay = L
        return L
    def __init__(s, E, st, name='seg', heap=False, variant=''):
        L = s.L = s.layout(E); s.E = E; s.name = name
        s.obj = E.new_region('obj', name, L.size); s.obj.heap = heap
        st.mem[s.obj] = RS()
        if heap: st.owned.add(s.obj)
        s.V = Fun.fresh(name+'_V')
        if variant:
            s.n = z3.IntVal(0); s.c = z3.IntVal(0); s.store = NULLR
            put_vec(E, st, P(s.obj, L.so), NULLR, 0, 0, L.sel)
        else:
            s.n = size_var(name+'_n', 0, cap(L.sel)); s.c = size_var(name+'_c', 0, cap(L.sel))
            st.assume(z3.And(s.n >= 0, s.n <= s.c, s.c >= 1, s.c <= zi(stdc.maxsz(E, L.sel))))
            s.store = new_buf(E, st, L.sel, name+'_store')
            st.rs(s.store).cells = {'val': s.V}
            put_vec(E, st, P(s.obj, L.so), s.store, Lin.of(s.n), Lin.of(s.c), L.sel)
        s.finish_init(E, st)
    def polymorphic(s, E, st, reg):
        """Itanium ABI: the vtable of the base subobject records the distance to
        the complete object, so that dynamic_cast<void*> finds it"""
        for o in {0, s.L.boff}:
            vt = E.new_region('obj', 'vtable', 64); st.mem[vt] = RS()
            st.rs(vt).cells[0] = (8, -o)
            st.rs(reg).cells[o] = (8, P(vt, 16))
    def addr(s, reg, k): return P(reg, Lin.of(scale(k, s.L.sel.S)).add(s.L.boff)) if reg is not NULLR else NULL
    def base_it(s, k): return [s.addr(s.store, k), s.L.sel.S]
    def vecs(s, E, st, obj):
        p = obj if isinstance(obj, P) else P(obj, 0)
        return get_vec(E, st, p.plus(s.L.so), s.L.sel)
    def check_inv(s, E, st, obj, tag, props):
        v = s.vecs(E, st, obj)
        if v is None: return None
        if v.reg is NULLR: return v
        a = st.rs(v.reg).alive
        E.oblige(st, a if a is not True else True, tag+':store-live', props)
        E.oblige(st, z3.And(zi(v.n) >= 0, zi(v.n) <= zi(v.cap)), tag+':size-within-capacity', props)
        return v
    def it_eq(s, E, st, r, v, pos): return z3.And(zb(E.ptr_eq(st, r[0], s.addr(v.reg, pos))), zi(r[1]) == s.L.sel.S)
    def end_eq(s, E, st, r, v): return E.ptr_eq(st, r, s.addr(v.reg, v.n))
    def end_val(s): return s.addr(s.store, Lin.of(s.n))
    def moved(s, v): return v.reg is not s.store
    def templates(s, ranged=False): return []

# ------------------------------------------------------------------ the handle
class Handle:
    """a segment<Model,Allocator> object owning backend seg, in a valid state:
    either its cached end is right or it is marked not to be trusted"""
    def __init__(h, E, st, seg, name='sg', variant=''):
        H = h.hlayout(E, type(seg))
        h.obj = E.new_region('obj', name, H.size); st.mem[h.obj] = RS(); h.seg = seg
        for o, (w, kind, v) in H.cells.items():
            if kind == 'pimpl': x = seg.p
            elif kind == 'end':
                if variant == ' with stale cached end':
                    g = E.new_region('obj', 'stale', 8); st.mem[g] = RS(); st.rs(g).alive = False; x = P(g, 0)
                else: x = seg.end_val()
            elif kind == 'flag': x = 0 if variant == ' with stale cached end' else v
            else:
                x = v
                if isinstance(v, P) and v.reg not in st.mem: st.mem[v.reg] = RS()
            st.rs(h.obj).cells[o] = (w, x)
        h.p = P(h.obj, 0); h.H = H
    @staticmethod
    def hlayout(E, B):
        H = getattr(E, '_hlay', None)
        if H: return H
        L = B.layout(E)
        E.mute += 1
        try:
            H = Layout()
            st = State(); al = E.new_region('obj', 'al', 1); st.mem[al] = RS()
            r = call(E, st, 'd_sizeof_SG', []); H.size = r[0][2]
            sg = E.new_region('obj', 'sg', H.size); st.mem[sg] = RS()
            rets = [o for o in call(E, st, 'g_make', [P(sg, 0), P(al, 0)]) if o[1] == 'ret']
            st = rets[0][0]
            H.cells = {}; pim = None; flag = False; end = False
            for o, (w, x) in st.rs(sg).cells.items():
                if not isinstance(o, int): continue
                if isinstance(x, P) and x.reg.kind == 'obj' and x.reg.heap and x.reg.size == L.size and pim is None: H.cells[o] = (w, 'pimpl', x); pim = x.reg
            if pim is None: raise Unsupported('segment representation')
            for o, (w, x) in st.rs(sg).cells.items():
                if not isinstance(o, int) or o in H.cells: continue
                if isinstance(x, P) and x.reg.kind in ('fn', 'global'): H.cells[o] = (w, 'const', x)
                elif isinstance(x, P):
                    if end: raise Unsupported('segment representation')
                    H.cells[o] = (w, 'end', x); end = True
                elif w == 1 and x == 1 and not flag: H.cells[o] = (w, 'flag', x); flag = True
                else: raise Unsupported('segment representation')
            H.variants = ('', ' with stale cached end') if flag and end else ('',)
            H.poff = [o for o, c in H.cells.items() if c[1] == 'pimpl'][0]
        finally: E.mute -= 1
        E._hlay = H
        return H
    def backend(h, st):
        c = st.rs(h.obj).cells.get(h.H.poff)
        return c[1] if c else None
    @staticmethod
    def check_end(E, st, obj, seg, v, tag, props):
        """sentinel() is the end of the backend"""
        E.mute += 1
        try: outs = call_agg(E, st.copy(), 'g_sentinel', [P(obj, 0)])
        finally: E.mute -= 1
        for s2, k, r in outs:
            E.oblige(s2, seg.end_eq(E, s2, r[-1], v) if k == 'ret' else z3.BoolVal(False), tag+':sentinel-is-the-end', props)

# ------------------------------------------------------------------ helpers
def leaks(E, st, roots, tag, props=('C10',)):
    """every owned allocation still alive is reachable from roots"""
    reach = set(); work = list(roots)
    while work:
        r = work.pop()
        if r in reach: continue
        reach.add(r)
        if r.kind == 'obj' and r in st.mem:
            for o, c in st.rs(r).cells.items():
                if isinstance(o, int) and isinstance(c[1], P): work.append(c[1].reg)
    bad = [r for r in st.owned if st.rs(r).alive is True and r not in reach]
    E.oblige(st, z3.BoolVal(not bad), tag+':nothing-leaked', props)

def obj_with_value(E, st, name, X, size=40):
    r = E.new_region('obj', name, size); st.mem[r] = RS(); st.rs(r).cells[('val', 0)] = X
    return P(r, 0)

def insert_at(seg, pos, m, newf):
    pos = zi(pos); m = zi(m); V = seg.V.get
    return lambda k: z3.If(k < pos, V(k), z3.If(k < pos+m, newf(k-pos), V(k-m)))
def erase_at(seg, pos, m):
    pos = zi(pos); m = zi(m); V = seg.V.get
    return lambda k: z3.If(k < pos, V(k), V(k+m))

def no_reloc(E, st, seg, v, needed, props):
    """within the former capacity nothing is relocated"""
    E.oblige(st, zi(needed) > seg.c if seg.moved(v) else True, 'no-relocation-within-capacity', props)

def inserted_template(E, st, loop):
    """part of the source range is already in place"""
    seg, pos, f, s0, m = E.ctx
    v = seg.vecs(E, st, seg.obj)
    if v.reg is NULLR: return True
    c = st.rs(v.reg).cells['val']
    d = zi(v.n)-seg.n
    k = z3.Int('k!t2')
    want = insert_at(seg, pos, d, lambda k: f.get(k+zi(s0)))(k)
    return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(v.n)), c.get(k) == want))

# ------------------------------------------------------------------ job families
class Family:
    """all contracts of one backend, for the backend itself (d_*) and for the
    handle on top of it (g_*)"""
    def __init__(F, prefix, B):
        F.pre = prefix; F.B = B; F.JOBS = {}
        F.build()

    def job(F, name, props, handle=False):
        """runs fn(E, st, seg, handle) for every shape of initial state"""
        def deco(fn):
            def run(E):
                dp = E.default_props; px = E.prefix
                for va in F.B.variants:
                    for hv in (Handle.hlayout(E, F.B).variants if handle else ('',)):
                        E.default_props = dp; E.frozen = None
                        E.prefix = px+((va+hv).strip()+'/' if va or hv else '')
                        st = State(); seg = F.B(E, st, 'seg', handle, va); E.segs = [seg]
                        E.inv_templates = seg.templates()
                        h = Handle(E, st, seg, 'sg', hv) if handle else None
                        fn(E, st, seg, h)
                E.prefix = px
            F.JOBS[F.pre+('segment.' if handle else '.')+name] = (run, props)
            return fn
        return deco

    # every exit of a mutating operation
    def after(F, E, st, seg, h, tag, props):
        v = seg.check_inv(E, st, seg.obj, tag, props)
        if v is not None and h:
            b = h.backend(st)
            E.oblige(st, z3.BoolVal(isinstance(b, P) and b.reg is seg.obj and b.off == 0), tag+':keeps-its-backend', props)
            h.check_end(E, st, h.obj, seg, v, tag, tuple(props)+('C02', 'C08') if 'C08' in props else tuple(props))
        return v
    def roots(F, seg, h): return [h.obj] if h else [seg.obj]

    def check_result(F, E, st, r, seg, h, v, pos, props):
        """returned position, and end for the backends' ranges"""
        if h: E.oblige(st, seg.it_eq(E, st, r, v, pos), 'after:returned-position', props)
        else:
            E.oblige(st, seg.it_eq(E, st, r[:-1], v, pos), 'after:returned-position', props)
            E.oblige(st, seg.end_eq(E, st, r[-1], v), 'after:returned-end', props)

    def finish_insert(F, E, outs, seg, h, pos, m, newf, reloc=True):
        for st, k, r in outs:
            if k == 'ret':
                v = F.after(E, st, seg, h, 'after', ('C01', 'C02', 'C03'))
                if v is None: continue
                seg.check_contents(E, st, v, seg.n+zi(m), insert_at(seg, pos, m, newf), 'after', ('C03',))
                F.check_result(E, st, r, seg, h, v, pos, ('C02', 'C03'))
                if reloc: no_reloc(E, st, seg, v, seg.n+zi(m), ('C09',))
                E.oblige(st, zi(v.cap) >= seg.c, 'capacity-not-reduced', ('C09',))
            else:
                v = F.after(E, st, seg, h, 'after-exception', ('C01', 'C08'))
                if v is None: continue
                E.oblige(st, zi(v.n) >= seg.n, 'after-exception:no-element-lost', ('C08', 'C03'))
            leaks(E, st, F.roots(seg, h), 'allocations')

    def mk_insert(F, name, driver, posk, alias, argk='copy', handle=False):
        @F.job(name, ('C01', 'C02', 'C03', 'C08', 'C09', 'C10'), handle)
        def run(E, st, seg, h):
            E.default_props = ('C01', 'C03', 'C08', 'C10')
            S = seg.L.sel.S
            if alias:
                if seg.store is NULLR: return
                j = size_var('j', 0, cap(seg.L.sel)); st.assume(j < seg.n)
                X = seg.V.get(j); x = seg.local_it(Lin.of(j))
            elif argk == 'int':
                r = E.new_region('obj', 'x', 4); st.mem[r] = RS(); iv = fresh_int('iv'); st.rs(r).cells[0] = (4, Lin.of(iv))
                X = stdc.CT(iv); x = P(r, 0)
            else:
                X = fresh_int('X'); x = obj_with_value(E, st, 'x', X, S)
                seg.polymorphic(E, st, x.reg)
                if argk in ('ref', 'refmove'): x = F.as_value(E, st, x)
            args = [h.p if h else seg.p]
            if posk == 'end': pos = seg.n
            else:
                pos = size_var('pos', 0, cap(seg.L.sel)); st.assume(pos <= seg.n)
                if seg.store is NULLR: st.assume(pos == 0)
                args += seg.base_it(Lin.of(pos)) if posk == 'base' else [seg.local_it(Lin.of(pos))]
            args.append(x)
            F.finish_insert(E, call_agg(E, st, driver, args), seg, h, pos, 1, lambda k: X)

    def as_value(F, E, st, x):
        """reference of the collection's value type to the element at x"""
        if F.B is Split:
            out = E.new_region('obj', 'ref', 16); st.mem[out] = RS()
            E.mute += 1
            try: r = call(E, st, 'd_make_value', [P(out, 0), x])
            finally: E.mute -= 1
            if len(r) != 1 or r[0][0] is not st: raise Unsupported('value_type')
            return P(out, 0)
        return x.plus(F.B.layout(E).boff)

    def mk_insert_range(F, name, driver, posk, handle=False):
        props = ('C01', 'C02', 'C03', 'C08', 'C09', 'C10')
        @F.job(name, props, handle)
        def run(E, st, seg, h):
            E.default_props = ('C01', 'C03', 'C08', 'C10')
            S = seg.L.sel.S
            r = E.new_region('buf', 'src', stride=S, opaque=True)
            st.mem[r] = RS(); f = Fun.fresh('src'); st.rs(r).cells = {'val': f}
            tot = size_var('tot', 0, cap(seg.L.sel)); s0 = size_var('s0', 0, cap(seg.L.sel)); m = size_var('m', 0, cap(seg.L.sel))
            st.assume(s0+m <= tot); st.rs(r).len = Lin.of(tot)
            args = [h.p if h else seg.p]
            if posk == 'end': pos = seg.n
            else:
                pos = size_var('pos', 0, cap(seg.L.sel)); st.assume(pos <= seg.n)
                if seg.store is NULLR: st.assume(pos == 0)
                args += seg.base_it(Lin.of(pos)) if posk == 'base' else [seg.local_it(Lin.of(pos))]
            args += [P(r, scale(Lin.of(s0), S)), P(r, scale(Lin.of(add(s0, m)), S))]
            E.ctx = (seg, pos, f, s0, m)
            E.inv_templates = seg.templates(True)
            outs = call_agg(E, st, driver, args)
            E.oblige(st, z3.BoolVal(bool(outs)), 'terminates-some-way', props)
            F.finish_insert(E, outs, seg, h, pos, m, lambda k: f.get(k+zi(s0)), 'input' not in name)

    def mk_erase(F, name, driver, kind, it, handle=False):
        @F.job(name, ('C01', 'C02', 'C04', 'C08', 'C10'), handle)
        def run(E, st, seg, h):
            E.default_props = ('C01', 'C04', 'C08', 'C10')
            mk = seg.base_it if it == 'base' else (lambda k: [seg.local_it(k)])
            args = [h.p if h else seg.p]
            c = cap(seg.L.sel)
            if kind == 'one':
                if seg.store is NULLR: return
                pos = size_var('pos', 0, c); st.assume(pos < seg.n); m = 1; args += mk(Lin.of(pos))
            elif kind == 'range':
                pos = size_var('pos', 0, c); m = size_var('m', 0, c); st.assume(pos+m <= seg.n)
                args += mk(Lin.of(pos))+mk(Lin.of(add(pos, m)))
            elif kind == 'tail':
                pos = size_var('pos', 0, c); st.assume(pos <= seg.n); m = seg.n-pos; args += mk(Lin.of(pos))
            else:
                m = size_var('m', 0, c); st.assume(m <= seg.n); pos = 0; args += mk(Lin.of(m))
            for st, k, r in call_agg(E, st, driver, args):
                if k == 'ret':
                    v = F.after(E, st, seg, h, 'after', ('C01', 'C02', 'C04'))
                    if v is None: continue
                    seg.check_contents(E, st, v, seg.n-zi(m), erase_at(seg, pos, m), 'after', ('C04',))
                    F.check_result(E, st, r, seg, h, v, pos, ('C02', 'C04'))
                    E.oblige(st, zi(v.cap) == seg.c, 'after:capacity-kept', ('C09', 'C04'))
                else:
                    F.after(E, st, seg, h, 'after-exception', ('C01', 'C08'))
                leaks(E, st, F.roots(seg, h), 'allocations')

    def mk_sentinel_op(F, name, driver, kind, handle=False):
        P_ = {'clear': ('C04',), 'reserve': ('C09',), 'shrink': ('C09',)}[kind]
        @F.job(name, ('C01', 'C02', 'C08', 'C10')+P_, handle)
        def run(E, st, seg, h):
            E.default_props = ('C01', 'C08', 'C10')+P_
            args = [h.p if h else seg.p]
            if kind == 'reserve':
                req = size_var('req', 0, 2**64-1); args.append(Lin.of(req))
            for st, k, r in call_agg(E, st, driver, args):
                if k == 'throw':
                    E.oblige(st, z3.BoolVal(kind != 'clear'), 'clear-does-not-throw', ('C08', 'C04'))
                    v = F.after(E, st, seg, h, 'after-exception', ('C01', 'C08'))
                    if v is None: continue
                    seg.check_contents(E, st, v, seg.n, seg.V.get, 'after-exception', ('C08', 'C09'))
                else:
                    v = F.after(E, st, seg, h, 'after', ('C01', 'C02')+P_)
                    if v is None: continue
                    n = 0 if kind == 'clear' else seg.n
                    seg.check_contents(E, st, v, n, seg.V.get, 'after', P_)
                    if not h: E.oblige(st, seg.end_eq(E, st, r[-1], v), 'after:returned-end', ('C02',)+P_)
                    if kind == 'reserve':
                        E.oblige(st, z3.And(zi(v.cap) >= req, zi(v.cap) >= seg.c), 'after:capacity', P_)
                        no_reloc(E, st, seg, v, req, P_)
                    if kind == 'clear': E.oblige(st, zi(v.cap) == seg.c, 'after:capacity-kept', ('C09', 'C04'))
                leaks(E, st, F.roots(seg, h), 'allocations')

    def mk_obs(F, name, driver, expect, props, handle=False):
        @F.job(name, props+('C16',), handle)
        def run(E, st, seg, h):
            E.default_props = props+('C16',)
            E.frozen = seg.regions() | ({h.obj} if h else set())
            for st, k, r in call_agg(E, st, driver, [h.p if h else seg.p]):
                E.oblige(st, z3.BoolVal(k == 'ret'), 'does-not-throw', props+('C16',))
                if k != 'ret': continue
                v = seg.vecs(E, st, seg.obj)
                E.oblige(st, expect(E, st, seg, v, r), 'result', props)
                leaks(E, st, F.roots(seg, h), 'allocations', ('C10', 'C16'))

    def mk_factory(F, name, driver, kind, handle=False):
        props = ('C06', 'C01', 'C08', 'C10')
        @F.job(name, props + (('C16',) if 'copy' in kind else ()) + (('C05',) if kind in ('make', 'empty_copy') else ()), handle)
        def run(E, st, seg, h):
            E.default_props = ('C01', 'C06', 'C08', 'C10')
            L = seg.L
            src = {h.obj} if h else set()
            if kind in ('copy', 'copy_al', 'empty_copy'): E.frozen = seg.regions() | src
            al = E.new_region('obj', 'al', 1); st.mem[al] = RS()
            size = h.H.size if h else 16
            up = E.new_region('obj', 'up', size); st.mem[up] = RS()
            poff = h.H.poff if h else L.poff
            args = [P(up, 0)]
            if kind != 'make': args.append(h.p if h else seg.p)
            if kind not in ('copy', 'steal'): args.append(P(al, 0))
            if kind == 'make':
                for r in (seg.obj, seg.store, getattr(seg, 'idx', None)): st.owned.discard(r)
            for st, k, r in call(E, st, driver, args):
                if k == 'throw':
                    E.oblige(st, z3.BoolVal(kind != 'steal'), 'moving-does-not-throw', ('C06', 'C08'))
                    if kind not in ('move', 'make'):
                        v = F.after(E, st, seg, h, 'source-after-exception', ('C08',))
                        if v is not None: seg.check_contents(E, st, v, seg.n, seg.V.get, 'source-after-exception', ('C08', 'C06'))
                    leaks(E, st, F.roots(seg, h), 'allocations'); continue
                c = st.rs(up).cells.get(poff); p = c[1] if c else None
                if kind == 'steal':
                    ok = isinstance(p, P) and p.reg is seg.obj
                    E.oblige(st, z3.BoolVal(ok), 'result-takes-over-the-backend', props)
                    o = st.rs(h.obj).cells.get(poff)
                    E.oblige(st, z3.BoolVal(o is not None and isinstance(o[1], P) and o[1].reg is NULLR), 'source-gives-up-the-backend', ('C10', 'C06'))
                else:
                    ok = isinstance(p, P) and p.reg.heap and p.reg is not seg.obj
                    E.oblige(st, z3.BoolVal(ok), 'result-is-a-new-object', props)
                dl = [c for o, c in st.rs(up).cells.items() if isinstance(c[1], P) and c[1].reg.kind == 'fn']
                E.oblige(st, z3.BoolVal(len(dl) == 1 and dl[0][1].reg is L.delfn.reg), 'result-has-the-deleter-of-its-type', ('C10',))
                if not ok: continue
                for o, c in L.extra.items():
                    x = st.rs(p.reg).cells.get(o)
                    E.oblige(st, z3.BoolVal(x is not None and isinstance(x[1], P) and isinstance(c[1], P) and x[1].reg is c[1].reg and same(x[1].off, c[1].off)), 'result-has-the-type-of-the-source', props)
                nv = seg.check_inv(E, st, p.reg, 'result', ('C06', 'C01', 'C02'))
                n = seg.n if kind in ('copy', 'copy_al', 'move', 'steal') else 0
                if nv is None: continue
                if h: h.check_end(E, st, up, seg, nv, 'result', ('C06', 'C02'))
                seg.check_contents(E, st, nv, n, seg.V.get, 'result', ('C06', 'C05') if kind in ('make', 'empty_copy') else ('C06',))
                if kind in ('copy', 'copy_al', 'empty_copy'):
                    v = F.after(E, st, seg, h, 'source', ('C06', 'C16'))
                    if v is not None:
                        seg.check_contents(E, st, v, seg.n, seg.V.get, 'source', ('C06', 'C16'))
                        if nv.reg is not NULLR: E.oblige(st, z3.BoolVal(nv.reg is not v.reg), 'result-is-independent-of-source', ('C06',))
                leaks(E, st, [up] if kind == 'steal' else F.roots(seg, h)+[up], 'allocations')

    def build(F):
        j = F.mk_insert
        for nm, drv, pk, ak in [
            ('push_back(const&)', 'd_push_back_copy', 'end', 'copy'), ('push_back(&&)', 'd_push_back_move', 'end', 'move'),
            ('virtual push_back', 'd_vpush_back', 'end', 'copy'), ('virtual push_back_move', 'd_vpush_back_move', 'end', 'move'),
            ('emplace_back(const&)', 'd_emplace_back_copy', 'end', 'copy'), ('emplace_back(int)', 'd_emplace_back_int', 'end', 'int'),
            ('emplace(base,const&)', 'd_emplace_base', 'base', 'copy'), ('emplace(local,const&)', 'd_emplace_local', 'local', 'copy'),
            ('emplace(base,int)', 'd_emplace_base_int', 'base', 'int'),
            ('insert(local,const&)', 'd_insert_copy', 'local', 'copy'), ('insert(local,&&)', 'd_insert_move', 'local', 'move'),
            ('virtual insert', 'd_vinsert_copy', 'base', 'copy'), ('virtual insert_move', 'd_vinsert_move', 'base', 'move')]:
            j(nm, drv, pk, False, ak)
            if ak == 'copy': j(nm+' of own element', drv, pk, True, ak)
        for nm, drv, pk, ak in [
            ('emplace_back', 'g_emplace_back', 'end', 'copy'), ('emplace(base)', 'g_emplace_base', 'base', 'copy'), ('emplace(local)', 'g_emplace_local', 'local', 'copy'),
            ('push_back(T const&)', 'g_push_back_ref', 'end', 'ref'), ('push_back(T&&)', 'g_push_back_refm', 'end', 'refmove'),
            ('push_back_terminal(const&)', 'g_push_back_terminal', 'end', 'copy'), ('push_back_terminal(&&)', 'g_push_back_terminal_move', 'end', 'move'),
            ('insert(base,const&)', 'g_insert_base', 'base', 'copy'), ('insert(base,&&)', 'g_insert_base_move', 'base', 'move'),
            ('insert(local,const&)', 'g_insert_local', 'local', 'copy'), ('insert(local,&&)', 'g_insert_local_move', 'local', 'move')]:
            j(nm, drv, pk, False, ak, True)
        for nm, drv, pk in [('insert(range) at end', 'd_insert_range_end', 'end'), ('insert(local,range)', 'd_insert_range', 'local'),
            ('insert(input range) at end', 'd_insert_input_end', 'end'), ('insert(local,input range)', 'd_insert_input', 'local')]:
            F.mk_insert_range(nm, drv, pk)
        for nm, drv, pk in [('insert(range)', 'g_insert_range', 'end'), ('insert(base,range)', 'g_insert_base_range', 'base'), ('insert(local,range)', 'g_insert_local_range', 'local')]:
            F.mk_insert_range(nm, drv, pk, True)
        for a in [('erase(local)', 'd_erase', 'one', 'local'), ('virtual erase', 'd_verase', 'one', 'base'),
                  ('erase(local range)', 'd_erase_range', 'range', 'local'), ('virtual erase(range)', 'd_verase_range', 'range', 'base'),
                  ('virtual erase_till_end', 'd_verase_till_end', 'tail', 'base'), ('virtual erase_from_begin', 'd_verase_from_begin', 'head', 'base')]:
            F.mk_erase(*a)
        for a in [('erase(base)', 'g_erase', 'one', 'base'), ('erase(local)', 'g_erase_local', 'one', 'local'),
                  ('erase(base range)', 'g_erase_range', 'range', 'base'), ('erase(local range)', 'g_erase_range_local', 'range', 'local'),
                  ('erase_till_end', 'g_erase_till_end', 'tail', 'base'), ('erase_from_begin', 'g_erase_from_begin', 'head', 'base')]:
            F.mk_erase(*a, handle=True)
        for nm, k in (('clear', 'clear'), ('reserve', 'reserve'), ('shrink', 'shrink')):
            t = nm.replace('shrink', 'shrink_to_fit')
            F.mk_sentinel_op(t, 'd_'+nm, k); F.mk_sentinel_op('virtual '+t, 'd_v'+nm, k)
            F.mk_sentinel_op(t, 'g_'+nm, k, True); F.mk_sentinel_op(t+'<T>', 'g_'+nm+'_T', k, True)
        exp = {
            'begin': (lambda E, st, s, v, r: s.it_eq(E, st, r, v, 0), ('C02', 'C01')),
            'end': (lambda E, st, s, v, r: s.it_eq(E, st, r, v, v.n), ('C02', 'C01')),
            'size': (lambda E, st, s, v, r: zi(r[0]) == s.n, ('C02',)),
            'empty': (lambda E, st, s, v, r: zb(r[0]) == (s.n == 0), ('C02',)),
            'capacity': (lambda E, st, s, v, r: zi(r[0]) == s.c, ('C09',))}
        for nm, (f, ps) in exp.items():
            F.mk_obs(nm, 'd_'+nm, f, ps); F.mk_obs('virtual '+nm, 'd_v'+nm, f, ps)
            F.mk_obs(nm, 'g_'+nm, f, ps, True); F.mk_obs(nm+'<T>', 'g_'+nm+'_T', f, ps, True)
        F.mk_obs('sentinel', 'g_sentinel', lambda E, st, s, v, r: s.end_eq(E, st, r[-1], v), ('C02', 'C01'), True)
        for a in [('make', 'd_make', 'make'), ('copy', 'd_copy', 'copy'), ('copy(al)', 'd_copy_al', 'copy_al'),
                  ('empty_copy(al)', 'd_empty_copy', 'empty_copy'), ('move(al)', 'd_move_al', 'move')]:
            F.mk_factory(*a)
        for a in [('make', 'g_make', 'make'), ('copy', 'g_copy', 'copy'), ('copy(al)', 'g_copy_al', 'copy_al'), ('move', 'g_move', 'steal'),
                  ('make_from_prototype', 'g_make_proto', 'empty_copy'), ('move(al)', 'g_move_al', 'move')]:
            F.mk_factory(*a, handle=True)

        @F.job('delete', ('C10', 'C08'))
        def run_delete(E, st0, seg0, h):
            st = State(); seg = F.B(E, st, 'seg', True, ' x' if seg0.store is NULLR else ''); L = seg.L
            E.default_props = ('C10', 'C08')
            up = E.new_region('obj', 'up', 16); st.mem[up] = RS()
            st.rs(up).cells[L.poff] = (8, seg.p); st.rs(up).cells[L.deloff] = (8, L.delfn)
            if L.delfn.reg not in st.mem: st.mem[L.delfn.reg] = RS()
            F.released(E, call(E, st, 'd_delete', [P(up, 0)]), seg)
        @F.job('destructor', ('C10', 'C08'), True)
        def run_hdelete(E, st, seg, h):
            E.default_props = ('C10', 'C08')
            F.released(E, call(E, st, 'g_delete', [h.p]), seg)

        def eq_job(name, drv, handle, neg=False):
            @F.job(name, ('C07', 'C16', 'C08'), handle)
            def run(E, st, seg, h):
                E.default_props = ('C07', 'C08', 'C16')
                for va in F.B.variants:
                    s1 = st.copy(); t = F.B(E, s1, 'seg2', handle, va); E.segs.append(t)
                    E.frozen = seg.regions() | t.regions()
                    if h:
                        h2 = Handle(E, s1, t, 'sg2'); E.frozen |= {h.obj, h2.obj}
                        args = [h.p, h2.p]
                    else: args = [seg.p, t.p]
                    for s2, k, r in call(E, s1, drv, args):
                        if k == 'throw': continue
                        rb = zb(r)
                        F.check_equal(E, s2, z3.Not(rb) if neg else rb, seg, t)
        eq_job('virtual equal', 'd_vequal', False)
        eq_job('operator==', 'g_eq', True)
        eq_job('operator!=', 'g_ne', True, True)

        def asg(name, drv, kind):
            @F.job(name, ('C06', 'C08', 'C10', 'C01', 'C02'), True)
            def run(E, st, seg, h):
                E.default_props = ('C06', 'C08', 'C10')
                for va in F.B.variants:
                    s1 = st.copy(); t = F.B(E, s1, 'seg2', True, va); E.segs.append(t)
                    h2 = Handle(E, s1, t, 'sg2')
                    if kind == 'copy': E.frozen = t.regions() | {h2.obj}
                    for s2, k, r in call(E, s1, drv, [h.p, h2.p]):
                        c = s2.rs(h.obj).cells.get(h.H.poff); p = c[1] if c else None
                        if k == 'throw':
                            E.oblige(s2, z3.BoolVal(isinstance(p, P) and p.reg is seg.obj), 'after-exception:target-keeps-its-backend', ('C08',))
                            v = F.after(E, s2, seg, h, 'after-exception', ('C08', 'C01'))
                            if v is not None: seg.check_contents(E, s2, v, seg.n, seg.V.get, 'after-exception', ('C08',))
                            leaks(E, s2, [h.obj, h2.obj], 'allocations'); continue
                        ok = isinstance(p, P) and p.reg.heap and p.reg is not seg.obj and p.reg is not t.obj
                        E.oblige(s2, z3.BoolVal(ok), 'result-is-a-new-object', ('C06',))
                        if not ok: continue
                        E.oblige(s2, z3.BoolVal(s2.rs(seg.obj).alive is False), 'former-contents-released', ('C10',))
                        nv = seg.check_inv(E, s2, p.reg, 'result', ('C06', 'C01', 'C02'))
                        if nv is None: continue
                        h.check_end(E, s2, h.obj, seg, nv, 'result', ('C06', 'C02'))
                        seg.check_contents(E, s2, nv, t.n, t.V.get, 'result', ('C06',))
                        if kind == 'copy': # a moved-from backend need only be destructible: type_info_map discards it
                            v = F.after(E, s2, t, h2, 'source', ('C06', 'C08'))
                            if v is not None: t.check_contents(E, s2, v, t.n, t.V.get, 'source', ('C06',))
                        leaks(E, s2, [h.obj, h2.obj], 'allocations')
        asg('operator=(const&)', 'g_assign', 'copy'); asg('operator=(&&)', 'g_move_assign', 'move')

    def released(F, E, outs, seg):
        for st, k, r in outs:
            E.oblige(st, z3.BoolVal(k == 'ret'), 'does-not-throw')
            for nm, rg in (('object', seg.obj), ('store', seg.store), ('index', getattr(seg, 'idx', NULLR))):
                if rg is not NULLR: E.oblige(st, z3.BoolVal(st.rs(rg).alive is False), 'released:'+nm)
            leaks(E, st, [], 'allocations')

    def check_equal(F, E, st, rb, a, b):
        k = fresh_int('k')
        s2 = st.copy().assume(z3.And(rb, k >= 0, k < a.n))
        E.oblige(s2, z3.And(a.n == b.n, stdc.EQ(a.V.get(k), b.V.get(k))), 'equal-only-if-contents-match', ('C07',))
        s2 = st.copy().assume(rb)
        E.oblige(s2, a.n == b.n, 'equal-only-if-sizes-match', ('C07',))
        j = z3.Int(fresh_name('j'))
        s3 = st.copy().assume(z3.And(a.n == b.n, z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < a.n), stdc.EQ(a.V.get(j), b.V.get(j))))))
        E.oblige(s3, rb, 'equal-if-contents-match', ('C07',))
