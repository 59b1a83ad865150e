"""Contracts of type_info_map: for every descriptor, look-up yields the node of
the type it denotes exactly when there is one; the cache is never wrong and uses
the allocator of the map."""
import re, z3
from ll import Unsupported
from core import *
from symex import size_var
import umap, stdc
from umap import *
JOBS = {}

def call(E, st, fn, args):
    if E.mod.func(fn) is None: raise Unsupported('no driver '+fn)
    return E.do_call(st, fn, args, {'ret': None, 'args': []})

class TM:
    """a type_info_map in an arbitrary valid state"""
    def __init__(s, E, st, X, name, fill=True):
        s.E = E; s.name = name
        s.size = call(E, st, X+'_size', [])[0][2]
        s.reg = E.new_region('obj', name, s.size); st.mem[s.reg] = RS(); s.p = P(s.reg, 0)
        s.mo, s.co = layout(E, X)
        if not fill: return
        ti = ti_region(E); desc(E, st, 0)
        n = size_var(name+'_n'); cn = size_var(name+'_cn')
        s.n = n; s.cn = cn
        T = z3.Function(name+'_nodekey', z3.IntSort(), z3.IntSort()); D = z3.Function(name+'_cachekey', z3.IntSort(), z3.IntSort()); J = z3.Function(name+'_cachenode', z3.IntSort(), z3.IntSort())
        s.V = Fun.fresh(name+'_V')
        m = new_content(E, st, 'map', name+'_map', Lin.of(n), {FIRST: Fun(lambda k: (z3.IntVal(ti.id), T(k)), True), 'val': s.V})
        c = new_content(E, st, 'cache', name+'_cache', Lin.of(cn), {FIRST: Fun(lambda k: (z3.IntVal(ti.id), D(k)), True), SECOND: Fun(lambda k: (z3.IntVal(m.id), SN*J(k)), True)})
        s.m0 = m; s.c0 = c; s.al = size_var(name+'_al')
        put(st, s.p.plus(s.mo), m, s.al); put(st, s.p.plus(s.co), c, s.al)
        uniq(E, st, m)
        k = z3.Int(fresh_name('k'))
        st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < cn), z3.And(J(k) >= 0, J(k) < n, TYP((z3.IntVal(ti.id), T(J(k)))) == TYP((z3.IntVal(ti.id), D(k))))), patterns=[D(k)]))
        s.keys = st.rs(m).cells[FIRST]
    def map(s, st): return st.rs(s.reg).cells.get(('um', s.mo))
    def cache(s, st): return st.rs(s.reg).cells.get(('um', s.co))
    def allocs(s, st): return st.rs(s.reg).cells.get(('al', s.mo)), st.rs(s.reg).cells.get(('al', s.co))
    def check_inv(s, E, st, tag, props=('C13', 'C06')):
        m, c = s.map(st), s.cache(st)
        E.oblige(st, z3.BoolVal(m is not None and c is not None), tag+':is-a-map', props)
        if m is None or c is None: return
        E.oblige(st, z3.BoolVal(st.rs(m).alive is True and st.rs(c).alive is True and m is not c), tag+':owns-its-contents', props)
        a, b = s.allocs(st)
        E.oblige(st, a == b, tag+':cache-uses-the-allocator-of-the-map', ('C10', 'C06'))
        k = fresh_int('k')
        s2 = st.copy().assume(z3.And(k >= 0, k < zi(st.rs(c).len)))
        E.oblige(s2, entry_ok(E, s2, m, c, k), tag+':cache-entries-designate-the-node-of-their-type', props)
        if m is not getattr(s, 'm0', None):
            i, j = fresh_int('i'), fresh_int('j')
            f = st.rs(m).cells[FIRST]
            s2 = st.copy().assume(z3.And(0 <= i, i < j, j < zi(st.rs(m).len)))
            E.oblige(s2, TYP(f.get(i)) != TYP(f.get(j)), tag+':one-node-per-type', ('C05', 'C13'))
    def check_contents(s, E, st, tag, n, keys, V, props):
        m = s.map(st)
        if m is None: return
        E.oblige(st, zi(st.rs(m).len) == zi(n), tag+':number-of-segments', props)
        k = fresh_int('k'); s2 = st.copy().assume(z3.And(k >= 0, k < zi(n)))
        x = st.rs(m).cells[FIRST].get(k); y = keys.get(k)
        E.oblige(s2, z3.And(TYP(x) == TYP(y), st.rs(m).cells['val'].get(k) == V.get(k)), tag+':segments', props)
def entry_ok(E, st, m, c, k):
    rs = st.rs(m); f = st.rs(c).cells[FIRST].get(k); x = st.rs(c).cells[SECOND].get(k)
    j = fresh_int('j')
    # x designates node j of m
    idx = x[1]/SN
    return z3.And(x[0] == m.id, x[1] == SN*idx, idx >= 0, idx < zi(rs.len), TYP(rs.cells[FIRST].get(idx)) == TYP(f))

def layout(E, X):
    """offsets of map and cache: what a construction with an allocator builds"""
    d = E.__dict__.setdefault('_tml', {})
    if X in d: return d[X]
    E.mute += 1
    try:
        st = State(); o = E.new_region('obj', 'o', 4096); a = E.new_region('obj', 'a', 8)
        st.mem[o] = RS(); st.mem[a] = RS(); st.rs(a).cells[0] = (8, Lin.of(z3.Int('a0')))
        r = [x for x in call(E, st, X+'_ctor_al', [P(o, 0), P(a, 0)]) if x[1] == 'ret']
        c = r[0][0].rs(o).cells
        mo = [k[1] for k, v in c.items() if k[0] == 'um' and v.umkind == 'map'] if True else 0
        co = [k[1] for k, v in c.items() if k[0] == 'um' and v.umkind == 'cache']
        if len(mo) != 1 or len(co) != 1: raise Unsupported('type_info_map representation')
        d[X] = mo[0], co[0]
    finally: E.mute -= 1
    return d[X]

def cache_template(n):
    """every entry made so far in the n-th map designates the node of its type"""
    def t(E, st, loop):
        ow = []
        for r, rs in st.mem.items():
            if r.kind != 'obj' or rs.alive is not True: continue
            ms = [v for k, v in rs.cells.items() if isinstance(k, tuple) and k[0] == 'um']
            m = [v for v in ms if v.umkind == 'map']; c = [v for v in ms if v.umkind == 'cache']
            if len(m) == 1 and len(c) == 1: ow.append((r.id, m[0], c[0]))
        ow.sort(key=lambda x: x[0])
        if n >= len(ow): return True
        _, m, c = ow[n]; k = z3.Int('k!c')
        f = st.rs(c).cells[FIRST]
        pat = [f.get(k)[1]] if hasattr(f, 'decl') else []
        return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(st.rs(c).len)), entry_ok(E, st, m, c, k)), patterns=pat)
    return t

def job(name, props, X):
    def deco(fn):
        def run(E):
            E.contracts = umap.contracts()+E.contracts
            E.type_equal = lambda st, a, b: TYP(E.pair(a)) == TYP(E.pair(b))
            E.default_props = props
            E.inv_templates = [('cache%d' % i, cache_template(i)) for i in range(3)]
            fn(E)
        JOBS['type_info_map<%s>.%s' % ({'np': 'non-propagating', 'pr': 'propagating'}[X], name)] = (run, props); return fn
    return deco

def slot(E, st, n=16):
    r = E.new_region('obj', 'out', n); st.mem[r] = RS(); return P(r, 0)
def dkey(E, st, nm='d'): return desc(E, st, size_var(nm))
def alloc(E, st, nm='al'):
    r = E.new_region('obj', nm, 8); st.mem[r] = RS(); a = size_var(nm+'_id'); st.rs(r).cells[0] = (8, Lin.of(a)); return P(r, 0), a

def check_found(E, st, tm, key, p, n, props):
    """p is the node of key's type if there is one among the n, the end otherwise"""
    m = tm.map(st); f = st.rs(m).cells[FIRST]; t = TYP(E.pair(key))
    if isinstance(p, SP):
        l = E.resolve(st, p)
    else: l = [(st, p)]
    for st, p in l:
        ok = isinstance(p, P) and p.reg is m
        E.oblige(st, z3.BoolVal(ok), 'result:iterator-into-this-map', props)
        if not ok: continue
        k = zi(p.off)/SN
        i = fresh_int('i')
        end = zi(p.off) == SN*zi(n)
        E.oblige(st, z3.Or(end, z3.And(zi(p.off) == SN*k, k >= 0, k < zi(n), TYP(f.get(k)) == t)), 'result:of-the-type-looked-up-or-end', props)
        s2 = st.copy().assume(z3.And(i >= 0, i < zi(n), TYP(f.get(i)) == t))
        E.oblige(s2, z3.Not(end), 'result:found-if-there-is-one', props)

def build():
    for X in ('np', 'pr'):
        def mk(X=X):
            for nm, drv in (('find', 'find'), ('find const', 'cfind')):
                @job(nm, ('C13', 'C05', 'C08')+(('C16',) if nm.endswith('const') else ()), X)
                def _(E, nm=nm, drv=drv):
                    st = State(); tm = TM(E, st, X, 'tm'); k = dkey(E, st); o = slot(E, st)
                    if nm.endswith('const'): E.frozen = {tm.reg, tm.m0, tm.c0}
                    for st, kk, r in call(E, st, X+'_'+drv, [o, tm.p, k]):
                        tm.check_inv(E, st, 'after'); tm.check_contents(E, st, 'after', tm.n, tm.keys, tm.V, ('C13', 'C05'))
                        if kk == 'throw': continue
                        check_found(E, st, tm, k, E.load(st, o, ('ptr',))[0][1], tm.n, ('C13', 'C05'))
            for drv in ('insert', 'insert_copy'):
                @job(drv, ('C13', 'C05', 'C08', 'C03'), X)
                def _(E, drv=drv):
                    st = State(); tm = TM(E, st, X, 'tm'); k = dkey(E, st); o = slot(E, st)
                    x = E.new_region('obj', 'x', 16); st.mem[x] = RS(); v = z3.Int('v'); st.rs(x).cells[('val', 0)] = v
                    for st, kk, r in call(E, st, X+'_'+drv, [o, tm.p, k, P(x, 0)]):
                        tm.check_inv(E, st, 'after' if kk == 'ret' else 'after-exception')
                        m = tm.map(st); rs = st.rs(m); f = rs.cells[FIRST]; t = TYP(E.pair(k))
                        i = fresh_int('i'); s2 = st.copy().assume(z3.And(i >= 0, i < tm.n))
                        E.oblige(st, z3.And(zi(rs.len) >= tm.n, zi(rs.len) <= tm.n+1), 'at-most-one-more', ('C05',))
                        E.oblige(s2, z3.And(TYP(f.get(i)) == TYP(tm.keys.get(i)), rs.cells['val'].get(i) == tm.V.get(i)), 'existing-segments-untouched', ('C05',))
                        if kk == 'throw': continue
                        s2 = st.copy().assume(z3.And(i >= 0, i < tm.n, TYP(tm.keys.get(i)) == t))
                        E.oblige(s2, zi(rs.len) == tm.n, 'no-second-segment-for-a-type', ('C05',))
                        p = E.load(st, o, ('ptr',))[0][1]
                        check_found(E, st, tm, k, p, rs.len, ('C13', 'C05'))
                        E.oblige(st, zi(p.off) < SN*zi(rs.len), 'result:designates-a-segment', ('C05',))
                        ins = E.load(st, o.plus(8), ('int', 8))[0][1]
                        E.oblige(st, (zi(ins) != 0) == (zi(rs.len) == tm.n+1), 'result:tells-whether-inserted', ('C05',))
                        s2 = st.copy().assume(zi(rs.len) == tm.n+1)
                        E.oblige(s2, rs.cells['val'].get(tm.n) == v, 'new-segment-is-the-given-one', ('C05', 'C03'))
            for nm in ('begin', 'end', 'cbegin', 'cend', 'ccbegin', 'ccend'):
                @job(nm, ('C02', 'C16'), X)
                def _(E, nm=nm):
                    st = State(); tm = TM(E, st, X, 'tm'); o = slot(E, st); E.frozen = {tm.reg, tm.m0, tm.c0}
                    for st, kk, r in call(E, st, X+'_'+nm, [o, tm.p]):
                        E.oblige(st, z3.BoolVal(kk == 'ret'), 'does-not-throw')
                        p = E.load(st, o, ('ptr',))[0][1]
                        E.oblige(st, E.ptr_eq(st, p, P(tm.m0, 0 if 'begin' in nm else scale(Lin.of(tm.n), SN))), 'result', ('C02',))
            def factory(nm, drv, k):
                @job(nm, ('C06', 'C13', 'C10', 'C08')+(('C16',) if k == 'copy' else ()), X)
                def _(E):
                    st = State(); tm = TM(E, st, X, 'x'); y = TM(E, st, X, 'y', False)
                    al = None; args = [y.p]
                    if nm != 'ctor(al)': args.append(tm.p)
                    if 'al)' in nm: q, al = alloc(E, st); args.append(q)
                    if k == 'copy': E.frozen = {tm.reg, tm.m0, tm.c0}
                    for st, kk, r in call(E, st, X+'_'+drv, args):
                        if kk == 'throw':
                            tm.check_inv(E, st, 'source-after-exception')
                            if k == 'copy': tm.check_contents(E, st, 'source-after-exception', tm.n, tm.keys, tm.V, ('C06', 'C08'))
                            leftovers(E, st, [tm, y], False); continue
                        y.check_inv(E, st, 'result')
                        E.oblige(st, y.allocs(st)[0] == (al if al is not None else tm.al), 'result:allocator', ('C06', 'C10'))
                        if k == 'new':
                            E.oblige(st, zi(st.rs(y.map(st)).len) == 0, 'result:empty', ('C06', 'C05')); continue
                        y.check_contents(E, st, 'result', tm.n, tm.keys, tm.V, ('C06',))
                        tm.check_inv(E, st, 'source')
                        if k == 'copy':
                            tm.check_contents(E, st, 'source', tm.n, tm.keys, tm.V, ('C06', 'C16'))
                            E.oblige(st, z3.BoolVal(y.map(st) is not tm.m0 and y.cache(st) is not tm.c0), 'result:independent-of-source', ('C06',))
                        else: E.oblige(st, zi(st.rs(tm.map(st)).len) == 0, 'source:empty', ('C06',))
                        leftovers(E, st, [tm, y])
            factory('ctor(al)', 'ctor_al', 'new'); factory('copy', 'copy', 'copy'); factory('copy(al)', 'copy_al', 'copy')
            factory('move', 'move', 'move'); factory('move(al)', 'move_al', 'move')
            def asg(nm, drv, k, selfa=False):
                @job(nm, ('C06', 'C13', 'C10', 'C08'), X)
                def _(E):
                    st = State(); y = TM(E, st, X, 'y'); tm = y if selfa else TM(E, st, X, 'x')
                    if k == 'copy' and not selfa: E.frozen = {tm.reg, tm.m0, tm.c0}
                    for st, kk, r in call(E, st, X+'_'+drv, [y.p, tm.p]):
                        tag = 'after' if kk == 'ret' else 'after-exception'
                        y.check_inv(E, st, tag+':target')
                        if not selfa: tm.check_inv(E, st, tag+':source')
                        if k == 'copy' and not selfa: tm.check_contents(E, st, tag+':source', tm.n, tm.keys, tm.V, ('C06', 'C08'))
                        leftovers(E, st, [tm, y])
                        if kk == 'throw': continue
                        y.check_contents(E, st, 'target', tm.n, tm.keys, tm.V, ('C06',))
                        E.oblige(st, y.allocs(st)[0] == (tm.al if X == 'pr' else y.al), 'target:allocator', ('C06', 'C10'))
                        if k == 'copy' and not selfa:
                            E.oblige(st, z3.BoolVal(y.map(st) is not tm.m0 and y.cache(st) is not tm.c0), 'target:independent-of-source', ('C06',))
                        if k == 'move' and not selfa: E.oblige(st, zi(st.rs(tm.map(st)).len) == 0, 'source:empty', ('C06',))
            asg('operator=(const&)', 'assign', 'copy'); asg('operator=(&&)', 'move_assign', 'move')
            asg('operator=(const&) of itself', 'assign', 'copy', True); asg('operator=(&&) of itself', 'move_assign', 'move', True)
            for nm, drv in (('swap', 'swap'), ('free swap', 'fswap')):
                @job(nm, ('C06', 'C13', 'C10'), X)
                def _(E, drv=drv):
                    st = State(); x = TM(E, st, X, 'x'); y = TM(E, st, X, 'y')
                    if X == 'np': st.assume(x.al == y.al)
                    for st, kk, r in call(E, st, X+'_'+drv, [x.p, y.p]):
                        E.oblige(st, z3.BoolVal(kk == 'ret'), 'does-not-throw')
                        for a, b in ((x, y), (y, x)):
                            a.check_inv(E, st, 'after'); a.check_contents(E, st, 'after', b.n, b.keys, b.V, ('C06',))
                            E.oblige(st, a.allocs(st)[0] == b.al, 'after:allocator', ('C06', 'C10'))
                        leftovers(E, st, [x, y])
            @job('get_allocator', ('C06', 'C16'), X)
            def _(E):
                st = State(); x = TM(E, st, X, 'x'); o = slot(E, st, 8); E.frozen = {x.reg, x.m0, x.c0}
                for st, kk, r in call(E, st, X+'_get_al', [o, x.p]):
                    E.oblige(st, z3.BoolVal(kk == 'ret'), 'does-not-throw')
                    E.oblige(st, zi(E.load(st, o, ('int', 64))[0][1]) == x.al, 'result')
            @job('destructor', ('C10',), X)
            def _(E):
                st = State(); x = TM(E, st, X, 'x')
                for st, kk, r in call(E, st, X+'_dtor', [x.p]):
                    E.oblige(st, z3.BoolVal(kk == 'ret'), 'does-not-throw')
                    E.oblige(st, z3.BoolVal(st.rs(x.m0).alive is False and st.rs(x.c0).alive is False), 'contents-released')
        mk()
    def fjob(name, props, fn):
        def run(E):
            E.contracts = umap.contracts()+E.contracts
            E.type_equal = lambda st, a, b: TYP(E.pair(a)) == TYP(E.pair(b))
            E.default_props = props; fn(E)
        JOBS[name] = (run, props)
    def f_hash(E):
        st = State(); h = slot(E, st, 1); k = dkey(E, st, 'd'); q = dkey(E, st, 'e')
        for s1, kk, r in call(E, st, 'h_hash', [h, k]):
            for s2, kk2, r2 in call(E, s1, 'h_hash', [h, q]):
                s3 = s2.copy().assume(TYP(E.pair(k)) == TYP(E.pair(q)))
                E.oblige(s3, zi(r) == zi(r2), 'descriptors-of-a-type-hash-alike')
    def f_eq(E):
        st = State(); h = slot(E, st, 1); k = dkey(E, st, 'd'); q = dkey(E, st, 'e')
        for st, kk, r in call(E, st, 'h_equal', [h, k, q]):
            E.oblige(st, (r if z3.is_bool(r) else z3.BoolVal(bool(r))) == (TYP(E.pair(k)) == TYP(E.pair(q))), 'equal-exactly-if-same-type')
    fjob('type_info_ptr_hash', ('C13', 'C05'), f_hash); fjob('type_info_ptr_equal_to', ('C13', 'C05'), f_eq)

def leftovers(E, st, tms, ok=True):
    """no content is owned twice or lost"""
    own = []
    for t in tms:
        for x in (t.map(st), t.cache(st)):
            if x is not None and not (x in own and False): own.append(x)
    own = own if len(tms) < 2 or tms[0] is not tms[1] else own[:2]
    E.oblige(st, z3.BoolVal(len(set(id(x) for x in own)) == len(own)), 'contents-owned-once', ('C10', 'C06'))
build()
