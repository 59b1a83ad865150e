"""Contracts of the public operations of a collection, over the contracts of its
segments and of its segment map."""
import re, z3
from ll import Unsupported
from core import *
from symex import size_var
import stdc, world
from world import *
JOBS = {}
def zb(r): return r if z3.is_bool(r) else z3.BoolVal(bool(r))
def call(E, st, fn, args):
    if E.mod.func(fn) is None: raise Unsupported('no driver '+fn)
    return E.do_call(st, fn, args, {'ret': None, 'args': []})
def obj(E, st, name, n):
    r = E.new_region('obj', name, n); st.mem[r] = RS(); return P(r, 0)

# ------------------------------------------------------------------ representation
class Lay: pass
def layout(E):
    """where a collection keeps its segment map and an iterator its parts: read off
    what the constructors of the real code build"""
    L = getattr(E, '_clay', None)
    if L: return L
    L = Lay(); w = E.W
    E.mute += 1
    try:
        st = State(); L.size = call(E, st, 'd_sizeof_K', [])[0][2]
        o = obj(E, st, 'o', L.size)
        st = [x for x in call(E, st, 'd_ctor', [o]) if x[1] == 'ret'][0][0]
        ms = [k[1] for k in st.rs(o.reg).cells if isinstance(k, tuple) and k[0] == 'tm']
        if len(ms) != 1: raise Unsupported('representation of the collection')
        L.mo = ms[0]
        st = State(); c = Coll(E, st, 'x', L, N=1); st.assume(fld(st, c.n, 'size', -1) == 5)
        for nm, drv in (('it', 'd_begin'), ('lb', 'd_lbegin'), ('lt', 'd_lbegin_T'), ('trav', 'd_trav_begin')):
            o = obj(E, st, 'o', 64); s0 = st.copy(); args = [o, c.p]
            if nm == 'lb': args.append(desc(E, s0, 7))
            rs = [x for x in call(E, s0, drv, args) if x[1] == 'ret']
            parts = {}
            for o_, cl in rs[0][0].rs(o.reg).cells.items():
                v = cl[1]
                if isinstance(v, P) and v.reg is c.n: parts['end' if same(v.key[0], 0) else 'map'] = o_
                elif isinstance(v, P) and v.reg in (c.n.pos, c.n.tpos): parts['pos'] = o_
                else: parts['stride'] = o_
            setattr(L, nm, parts)
        if set(L.it) - {'stride'} != {'map', 'end', 'pos'}: raise Unsupported('representation of iterators')
        for x in (L.lb, L.lt):
            if set(x) - {'stride'} != {'map', 'pos'}: raise Unsupported('representation of local iterators')
        if set(L.trav) != {'map'}: raise Unsupported('representation of segment iterators')
    finally: E.mute -= 1
    E._clay = L
    return L

class Coll:
    """a collection in an arbitrary valid state"""
    def __init__(s, E, st, name='c', L=None, N=None, fill=True):
        s.L = L or layout(E); s.E = E; s.name = name
        s.p = obj(E, st, name, s.L.size); s.reg = s.p.reg
        if not fill: return
        E.W.sizes(st); s.n = E.W.fresh_nodes(st, name, N); s.al = z3.Int(name+'_al')
        st.rs(s.reg).cells[('tm', s.L.mo)] = s.n; st.rs(s.reg).cells[('al', s.L.mo)] = s.al
        s.pre = snap(st, s.n)
    def nodes(s, st): return st.rs(s.reg).cells.get(('tm', s.L.mo))
    def frozen(s): return {s.reg, s.n, s.n.pos, s.n.tpos}

class Snap: pass
def snap(st, n):
    r = Snap(); r.N = st.ghost[('N', n.id)]; r.c = dict(st.rs(n).cells); r.n = n
    r.size = lambda k: r.c['size'].get(zi(k)); r.cap = lambda k: r.c['cap'].get(zi(k)); r.epoch = lambda k: r.c['epoch'].get(zi(k))
    r.val = lambda k, i: r.c['val'].get(zi(k), zi(i)); r.typ = lambda k: TYP(r.c[FIRST].get(zi(k)))
    r.has = lambda k: z3.And(zi(k) >= -zi(r.N), zi(k) < 0)
    return r

# ------------------------------------------------------------------ iterators
def mk_it(E, st, c, k, i, L=None, name='it'):
    """iterator at element i of segment k"""
    L = L or c.L.it; o = obj(E, st, name, 64); rs = st.rs(o.reg); w = E.W
    typed_ = L is c.L.lt
    p = (w.tposn if typed_ and not w.packed else w.posn)(st, c.n, k, i)
    rs.cells[L['map']] = (8, P(c.n, 0, (k,)))
    if 'end' in L: rs.cells[L['end']] = (8, P(c.n, 0, (0,)))
    rs.cells[L['pos']] = (8, p)
    if 'stride' in L: rs.cells[L['stride']] = (8, w.it_args(st, p)[1])
    return o
def mk_end(E, st, c, name='it'):
    L = c.L.it; o = obj(E, st, name, 64); rs = st.rs(o.reg)
    rs.cells[L['map']] = (8, P(c.n, 0, (0,))); rs.cells[L['end']] = (8, P(c.n, 0, (0,))); rs.cells[L['pos']] = (8, NULL)
    if 'stride' in L: rs.cells[L['stride']] = (8, 0)
    return o
class Pos:
    """an arbitrary element position: key, index"""
    def __init__(s, E, st, c, nm='p', end=False):
        s.k = Lin.of(size_var(nm+'_k', -2**41, -1)); s.i = Lin.of(size_var(nm+'_i'))
        st.assume(z3.And(zi(s.k) >= -zi(c.pre.N), zi(s.i) <= c.pre.size(s.k) if end else zi(s.i) < c.pre.size(s.k)))
def cell(st, p, o):
    c = st.rs(p.reg).cells.get(p.off+o)
    if c is None or c[1] is UNDEF:
        for a, b in st.rs(p.reg).zero:
            if a <= p.off+o and p.off+o+8 <= b: return NULL
        return None
    return c[1]
def check_it(E, st, o, c, tag, props, stride=True):
    """the iterator at o is a valid one of c: [(state, isnull, k, i)]"""
    L = c.L.it; n = c.nodes(st)
    m, e, p = cell(st, o, L['map']), cell(st, o, L['end']), cell(st, o, L['pos'])
    for v, x in ((m, 'segment'), (e, 'end')):
        ok = isinstance(v, P) and v.reg is n and v.off == 0
        E.oblige(st, z3.BoolVal(ok), tag+':%s-of-this-collection' % x, props)
        if not ok: return None
    E.oblige(st, zi(e.key[0]) == 0, tag+':end-mark', props)
    N = zi(st.ghost[('N', n.id)])
    if isinstance(p, P) and p.reg is NULLR:
        E.oblige(st, zi(m.key[0]) == 0, tag+':at-end-only-past-the-last-segment', props)
        return True, None, None
    ok = isinstance(p, P) and p.reg is n.pos and Lin.of(p.off).divisible(p.reg.stride)
    E.oblige(st, z3.BoolVal(ok), tag+':position-of-this-collection', props)
    if not ok: return None
    i = mkint(Lin.of(p.off).divc(p.reg.stride)); k = p.key[0]
    null = zi(k) == NULLKEY
    E.oblige(st, z3.Or(z3.And(null, zi(m.key[0]) == 0), z3.And(zi(k) == zi(m.key[0]), zi(k) >= -N, zi(k) < 0, zi(p.key[1]) == fld(st, n, 'epoch', k), zi(i) >= 0, zi(i) < fld(st, n, 'size', k))), tag+':designates-an-element-or-the-end', props)
    if 'stride' in L:
        s = cell(st, o, L['stride'])
        E.oblige(st, z3.BoolVal(s is not None), tag+':stride-set', props)
        if s is not None: E.oblige(st, z3.Or(null, zi(s) == zi(E.W.it_args(st, P(n.pos, 0, (k, 0)))[1])), tag+':stride-of-the-segment', props)
    return null, k, i
def check_local(E, st, o, c, L, tag, props, k, i):
    """local iterator at o designates position i of segment k"""
    n = c.nodes(st); m, p = cell(st, o, L['map']), cell(st, o, L['pos'])
    ok = isinstance(m, P) and m.reg is n and m.off == 0
    E.oblige(st, z3.BoolVal(ok), tag+':segment-of-this-collection', props)
    want = n.tpos if L is c.L.lt else n.pos
    ok2 = isinstance(p, P) and p.reg is want and Lin.of(p.off).divisible(want.stride)
    E.oblige(st, z3.BoolVal(ok2), tag+':position-of-this-collection', props)
    if not ok or not ok2: return
    E.oblige(st, zi(m.key[0]) == zi(k), tag+':segment', props)
    E.oblige(st, z3.And(zi(p.key[0]) == zi(k), zi(p.key[1]) == fld(st, n, 'epoch', k), zi(Lin.of(p.off).divc(want.stride)) == zi(i)), tag+':position', props)
    if 'stride' in L:
        s = cell(st, o, L['stride'])
        E.oblige(st, z3.BoolVal(s is not None) if s is None else zi(s) == zi(E.W.it_args(st, P(n.pos, 0, (k, 0)))[1]), tag+':stride-of-the-segment', props)

def empty_between(E, st, c, tag, props, a, b):
    """segments in [a,b) are empty"""
    q = fresh_int('q'); n = c.nodes(st); N = zi(st.ghost[('N', n.id)])
    s2 = st.copy().assume(z3.And(q >= zi(a), q < zi(b), q >= -N, q < 0))
    E.oblige(s2, fld(s2, n, 'size', q) == 0, tag, props)
def check_first_from(E, st, o, c, k0, tag, props):
    """iterator at the first element of the segments from k0 on, or the end"""
    r = check_it(E, st, o, c, tag, props)
    if r is None: return
    null, k, i = r
    if null is True: empty_between(E, st, c, tag+':no-element-skipped', props, k0, 0); return
    s1 = st.copy().assume(null)
    if E.feasible(s1): empty_between(E, s1, c, tag+':no-element-skipped', props, k0, 0)
    s1 = st.copy().assume(z3.Not(null))
    if E.feasible(s1):
        E.oblige(s1, z3.And(zi(k) >= zi(k0), zi(i) == 0), tag+':first-of-its-segment', props)
        empty_between(E, s1, c, tag+':no-element-skipped', props, k0, k)
def check_at(E, st, o, c, k, i, tag, props):
    r = check_it(E, st, o, c, tag, props)
    if r is None: return
    null, k2, i2 = r
    if null is True: E.oblige(st, False, tag+':designates-the-element', props); return
    E.oblige(st, z3.And(z3.Not(null), zi(k2) == zi(k), zi(i2) == zi(i)), tag+':designates-the-element', props)

# ------------------------------------------------------------------ effects
def unchanged(E, st, c, tag, props, but=None, N=None, caps=True, pre=None):
    """segments other than `but` are as before"""
    pre = pre or c.pre; n = c.nodes(st)
    ok = n is pre.n
    E.oblige(st, z3.BoolVal(ok and st.rs(n).alive is True), tag+':same-segments', props)
    if not ok: return
    if N is not None: E.oblige(st, zi(st.ghost[('N', n.id)]) == zi(N), tag+':number-of-segments', props)
    cl = st.rs(n).cells
    if all(cl[x] is pre.c[x] for x in cl): return
    q, i = fresh_int('q'), fresh_int('i')
    s2 = st.copy().assume(pre.has(q))
    if but is not None: s2.assume(q != zi(but))
    if not E.feasible(s2): return
    post = snap(st, n)
    for x in (['size']+(['cap', 'epoch'] if caps else [])):
        if cl[x] is not pre.c[x]: E.oblige(s2, cl[x].get(q) == pre.c[x].get(q), tag+':other-segments:'+x, props)
    E.oblige(s2, post.typ(q) == pre.typ(q), tag+':other-segments:type', props)
    if cl['val'] is not pre.c['val']:
        s3 = s2.copy().assume(z3.And(i >= 0, i < pre.size(q)))
        E.oblige(s3, post.val(q, i) == pre.val(q, i), tag+':other-segments:elements', props)
def valid(E, st, c, tag, props=('C08', 'C05')):
    """one segment per type, sizes within capacities"""
    n = c.nodes(st)
    E.oblige(st, z3.BoolVal(n is not None and st.rs(n).alive is True), tag+':is-a-collection', props)
    if n is None: return
    N = zi(st.ghost[('N', n.id)]); i, j = fresh_int('i'), fresh_int('j'); s = snap(st, n)
    if st.rs(n).cells[FIRST] is not getattr(c, 'pre', s).c[FIRST] or True:
        s2 = st.copy().assume(z3.And(-N <= i, i < j, j < 0))
        E.oblige(s2, s.typ(i) != s.typ(j), tag+':one-segment-per-type', ('C05', 'C08'))
    s2 = st.copy().assume(z3.And(-N <= i, i < 0))
    E.oblige(s2, z3.And(s.size(i) >= 0, s.cap(i) >= s.size(i)), tag+':sizes', props)
def nothrow(E, st, kk):
    E.oblige(st, z3.BoolVal(kk == 'ret'), 'does-not-throw'); return kk == 'ret'
def unregistered(E, st, c, t, tag='unregistered'):
    """unregistered_type{t} is on its way, nothing was changed"""
    P_ = ('C05',)
    nm = st.ghost.get('exc_type', '')
    if st.exc is not None and st.exc.reg is stdc.EXC: unchanged(E, st, c, tag, P_, N=c.pre.N); return
    ok = 'unregistered_type' in str(nm)
    E.oblige(st, z3.BoolVal(ok), tag+':throws-unregistered_type', P_)
    unchanged(E, st, c, tag, P_, N=c.pre.N)
    if not ok: return
    ps = [x[1] for o, x in st.rs(st.exc.reg).cells.items() if isinstance(o, int) and is_ptr(x[1]) and not (isinstance(x[1], P) and x[1].reg.kind in ('glob', 'fn') and not x[1].reg.name.startswith('_ZTI'))]
    ps = [x for x in ps if not (isinstance(x, P) and x.reg is NULLR)]
    E.oblige(st, z3.Or(*[TYP(E.pair(x)) == t for x in ps]) if ps else z3.BoolVal(False), tag+':names-the-type', P_)

# ------------------------------------------------------------------ loop invariants
def node_locs(loop):
    out = []
    for l in loop.locs():
        v = loop.entry_val(l)
        if isinstance(v, P) and getattr(v.reg, 'isnodes', False) and len(v.key) == 1: out.append((l, v))
    return out
def tmpl_empty(j):
    def t(E, st, loop):
        ls = node_locs(loop)
        if j >= len(ls): return True
        l, e = ls[j]; cur = loop.get(l, st, loop.cur_env); n = e.reg
        q = z3.Int('q!e'); f = st.rs(n).cells['size']
        return z3.ForAll([q], z3.Implies(z3.And(q >= zi(e.key[0]), q < zi(cur.key[0])), f.get(q) == 0), patterns=pats(f, q))
    return t
def pats(f, *q):
    return [f.get(*q)] if hasattr(f, 'decl') else []


def tmpl_field(j, x, d, inside):
    """field x of the segments in (inside) or out of [entry+d,cur+d) is as at entry"""
    def t(E, st, loop):
        ls = node_locs(loop)
        if j >= len(ls): return True
        l, e = ls[j]; cur = loop.get(l, st, loop.cur_env); n = e.reg
        f = st.rs(n).cells[x]; g = loop.st0.rs(n).cells[x]
        if f is g: return True
        q, i = z3.Int('q!f'), z3.Int('i!f')
        rng = z3.And(q >= zi(e.key[0])+d, q < zi(cur.key[0])+d)
        ks = (q, i) if x == 'val' else (q,)
        if x == 'val' and inside: rng = z3.And(rng, i >= 0, i < loop.st0.rs(n).cells['size'].get(q))
        return z3.ForAll(list(ks), z3.Implies(rng if inside else z3.Not(rng), f.get(*ks) == g.get(*ks)), patterns=pats(f, *ks))
    return t
def tmpl_same(x):
    """field x of all segments is as at entry (the number of segments of any map modified)"""
    def t(E, st, loop):
        out = []
        for n in sorted((r for r in loop.st0.mem if getattr(r, 'isnodes', False)), key=lambda r: r.id):
            f = st.rs(n).cells[x]; g = loop.st0.rs(n).cells[x]
            if f is g: continue
            q, i = z3.Int('q!s'), z3.Int('i!s'); ks = (q, i) if x == 'val' else (q,)
            out.append(z3.ForAll(list(ks), f.get(*ks) == g.get(*ks), patterns=pats(f, *ks)))
        return z3.And(*out) if out else True
    return t
def tmpl_empty_d(j, d):
    def t(E, st, loop):
        ls = node_locs(loop)
        if j >= len(ls): return True
        l, e = ls[j]; cur = loop.get(l, st, loop.cur_env); n = e.reg
        q = z3.Int('q!e'); f = st.rs(n).cells['size']
        return z3.ForAll([q], z3.Implies(z3.And(q >= zi(e.key[0])+d, q < zi(cur.key[0])+d), f.get(q) == 0), patterns=pats(f, q))
    return t
def tmpl_valid(E, st, loop):
    """sizes within capacities everywhere"""
    out = []
    for n in sorted((r for r in loop.st0.mem if getattr(r, 'isnodes', False)), key=lambda r: r.id):
        c = st.rs(n).cells; c0 = loop.st0.rs(n).cells
        if c['size'] is c0['size'] and c['cap'] is c0['cap']: continue
        q = z3.Int('q!v')
        out.append(z3.ForAll([q], z3.And(c['size'].get(q) >= 0, c['size'].get(q) <= c['cap'].get(q), c['cap'].get(q) <= 2**40), patterns=pats(c['cap'], q) or pats(c['size'], q)))
    return z3.And(*out) if out else True
def tmpl_cap(j, d, vs):
    """capacity of visited segments at least the given amount / not less than before"""
    def t(E, st, loop):
        ls = node_locs(loop)
        if j >= len(ls): return True
        l, e = ls[j]; cur = loop.get(l, st, loop.cur_env); n = e.reg
        f = st.rs(n).cells['cap']; g = loop.st0.rs(n).cells['cap']
        if f is g: return True
        q = z3.Int('q!c'); v = g.get(q) if vs is None else zi(vs)
        return z3.ForAll([q], z3.Implies(z3.And(q >= zi(e.key[0])+d, q < zi(cur.key[0])+d), f.get(q) >= v), patterns=pats(f, q))
    return t
def int_locs(loop):
    return [l for l in loop.locs() if isinstance(loop.entry_val(l), (int, Lin)) and not isinstance(loop.entry_val(l), bool)]
def tmpl_sum(PS, n, j, m, d):
    """an accumulator holds the sum of the sizes of the segments visited"""
    def t(E, st, loop):
        ls = [x for x in node_locs(loop) if x[1].reg is n]; il = int_locs(loop)
        if j >= len(ls) or m >= len(il): return True
        l, e = ls[j]; cur = loop.get(l, st, loop.cur_env)
        return zi(loop.get(il[m], st, loop.cur_env)) == PS(zi(cur.key[0])+d)
    return t
def sums(E, st, c, name='PS'):
    """PS(k): number of elements of the segments before k (assumption: fits the address space)"""
    PS = z3.Function(name+'_'+c.name, z3.IntSort(), z3.IntSort()); k = z3.Int('k!ps'); N = zi(c.pre.N)
    st.assume(PS(-N) == 0)
    st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= -N, k < 0), PS(k+1) == PS(k)+c.pre.size(k)), patterns=[c.pre.size(k)]))
    st.assume(z3.ForAll([k], z3.Implies(z3.And(k >= -N, k <= 0), z3.And(PS(k) >= 0, PS(k) <= 2**60)), patterns=[PS(k)]))
    E.inv_templates += [('sum%d%d%d' % (j, m, d), tmpl_sum(PS, c.n, j, m, d)) for j in range(2) for m in range(2) for d in (0, 1)]
    return PS
def extra_templates(E, vs=None):
    T = []
    for d in (0, 1):
        T.append(('empty+%d' % d, tmpl_empty_d(0, d)))
        for x in ('size', 'cap', 'epoch', 'val'):
            T.append(('out %s+%d' % (x, d), tmpl_field(0, x, d, False))); T.append(('in %s+%d' % (x, d), tmpl_field(0, x, d, True)))
        T.append(('cap>=entry+%d' % d, tmpl_cap(0, d, None)))
        if vs is not None: T.append(('cap>=arg+%d' % d, tmpl_cap(0, d, vs)))
    T += [('same %s' % x, tmpl_same(x)) for x in ('size', 'val')]+[('valid', tmpl_valid)]
    E.inv_templates += T

def job(name, props):
    def deco(fn):
        def run(E):
            E.contracts = world.contracts()+E.contracts
            E.type_equal = lambda st, a, b: TYP(E.pair(a)) == TYP(E.pair(b))
            E.default_props = props
            E.inv_templates = [('empty%d' % i, tmpl_empty(i)) for i in range(2)]
            World(E)
            fn(E)
        JOBS[PREFIX+name] = (run, props); return fn
    return deco
PREFIX = 'collection.'

def build():
    for nm, drv in (('begin', 'd_begin'), ('begin const', 'd_begin_c'), ('cbegin', 'd_cbegin')):
        @job(nm, ('C02', 'C16', 'C01'))
        def _(E, drv=drv):
            st = State(); c = Coll(E, st); o = obj(E, st, 'o', 64); E.frozen = c.frozen()
            for st, kk, r in call(E, st, drv, [o, c.p]):
                if nothrow(E, st, kk): check_first_from(E, st, o, c, scale(c.pre.N, -1), 'result', ('C02',))
    for nm, drv in (('end', 'd_end'), ('end const', 'd_end_c'), ('cend', 'd_cend')):
        @job(nm, ('C02', 'C16'))
        def _(E, drv=drv):
            st = State(); c = Coll(E, st); o = obj(E, st, 'o', 64); E.frozen = c.frozen()
            for st, kk, r in call(E, st, drv, [o, c.p]):
                if nothrow(E, st, kk): check_first_from(E, st, o, c, 0, 'result', ('C02',))
    for nm, drv in (('iterator ++', 'd_inc'), ('const_iterator ++', 'd_cinc'), ('iterator ++(int)', 'd_postinc')):
        @job(nm, ('C02', 'C16'))
        def _(E, drv=drv):
            st = State(); c = Coll(E, st); E.frozen = c.frozen()
            p = Pos(E, st, c); x = mk_it(E, st, c, p.k, p.i)
            args = [x]
            if drv == 'd_postinc': o = obj(E, st, 'o', 64); args = [o, x]
            for st, kk, r in call(E, st, drv, args):
                if not nothrow(E, st, kk): continue
                if drv == 'd_postinc': check_at(E, st, o, c, p.k, p.i, 'result', ('C02',))
                s1 = st.copy().assume(zi(p.i)+1 < c.pre.size(p.k))
                if E.feasible(s1): check_at(E, s1, x, c, p.k, add(p.i, 1), 'next-of-the-segment', ('C02',))
                s1 = st.copy().assume(zi(p.i)+1 == c.pre.size(p.k))
                if E.feasible(s1): check_first_from(E, s1, x, c, add(p.k, 1), 'next-segment', ('C02',))
    for nm, drv in (('iterator *', 'd_deref'), ('const_iterator *', 'd_cderef')):
        @job(nm, ('C01', 'C02', 'C16'))
        def _(E, drv=drv):
            st = State(); c = Coll(E, st); E.frozen = c.frozen(); p = Pos(E, st, c); x = mk_it(E, st, c, p.k, p.i)
            for st, kk, r in call(E, st, drv, [x]):
                if nothrow(E, st, kk): E.oblige(st, zb(E.ptr_eq(st, r, E.W.posn(st, c.n, p.k, p.i))), 'result:the-element-at-the-position')
    for nm, drv in (('iterator ==', 'd_eq'), ('iterator !=', 'd_ne'), ('const_iterator ==', 'd_ceq'), ('iterator == const_iterator', 'd_mixeq'), ('const_iterator != iterator', 'd_mixne')):
        @job(nm, ('C02', 'C12', 'C16'))
        def _(E, drv=drv):
            for a in 'pe':
                for b in 'pe':
                    st = State(); c = Coll(E, st); E.frozen = c.frozen(); p = Pos(E, st, c); q = Pos(E, st, c, 'q')
                    x = mk_it(E, st, c, p.k, p.i) if a == 'p' else mk_end(E, st, c)
                    y = mk_it(E, st, c, q.k, q.i) if b == 'p' else mk_end(E, st, c)
                    want = z3.And(zi(p.k) == zi(q.k), zi(p.i) == zi(q.i)) if a == b == 'p' else z3.BoolVal(a == b)
                    if 'ne' in drv: want = z3.Not(want)
                    for st, kk, r in call(E, st, drv, [x, y]):
                        if nothrow(E, st, kk): E.oblige(st, zb(r) == want, 'result')
    for nm, drv in (('const_iterator(iterator)', 'd_toconst'), ('const_iterator=iterator', 'd_assign_const')):
        @job(nm, ('C12',))
        def _(E, drv=drv):
            for a in 'pe':
                st = State(); c = Coll(E, st); E.frozen = c.frozen(); p = Pos(E, st, c)
                x = mk_it(E, st, c, p.k, p.i) if a == 'p' else mk_end(E, st, c)
                o = obj(E, st, 'o', 64) if drv == 'd_toconst' else mk_end(E, st, c)
                for st, kk, r in call(E, st, drv, [o, x]):
                    if not nothrow(E, st, kk): continue
                    if a == 'p': check_at(E, st, o, c, p.k, p.i, 'result', ('C12',))
                    else: check_first_from(E, st, o, c, 0, 'result', ('C12',))
    queries(); locals_(); conversions(); capacity(); registration(); insertion(); ranges(); erasure(); whole()

def cases(E, st, c, t):
    """registered at k / not registered"""
    k = Lin.of(size_var('k', -2**41, -1))
    s1 = st.copy().assume(z3.And(c.pre.has(k), c.pre.typ(k) == t)); q = z3.Int(fresh_name('q'))
    s2 = st.copy().assume(z3.ForAll([q], z3.Implies(c.pre.has(q), c.pre.typ(q) != t), patterns=[c.pre.c[FIRST].get(q)[1]]))
    return [(s1, k), (s2, None)]
def typ_arg(E, st, drv, nm='t'):
    """(arguments, type) of a query by descriptor or by static type"""
    if drv.endswith('_T') or drv.endswith('_T_c') or drv.endswith('register'): return [], TYP(E.pair(tdesc(E, st, 'C')))
    d = desc(E, st, size_var(nm)); return [d], TYP(E.pair(d))
def distinct(E, st):
    """different class types have different descriptors"""
    a, b = tdesc(E, st, 'C'), tdesc(E, st, 'D')
    if a is not None and b is not None: st.assume(TYP(E.pair(a)) != TYP(E.pair(b)))

def queries():
    def q1(nm, drv, want, props):
        @job(nm, props+('C05', 'C16'))
        def _(E):
            st = State(); c = Coll(E, st); E.frozen = c.frozen(); a, t = typ_arg(E, st, drv)
            for s0, k in cases(E, st, c, t):
                for st1, kk, r in call(E, s0, drv, [c.p]+a):
                    if k is None:
                        E.oblige(st1, z3.BoolVal(kk == 'throw'), 'unregistered:throws', ('C05',))
                        if kk == 'throw': unregistered(E, st1, c, t)
                    elif nothrow(E, st1, kk): E.oblige(st1, want(E, st1, c, k, r), 'result', props)
    B = lambda c, k, r: zb(r)
    for s in ('info', 'T'):
        q1('empty(%s)' % s, 'd_empty_'+s, lambda E, st, c, k, r: zb(r) == (c.pre.size(k) == 0), ('C02',))
        q1('size(%s)' % s, 'd_size_'+s, lambda E, st, c, k, r: zi(r) == c.pre.size(k), ('C02',))
        q1('max_size(%s)' % s, 'd_max_size_'+s, lambda E, st, c, k, r: zi(r) == MAXS(c.pre.typ(k)), ('C09',))
        q1('capacity(%s)' % s, 'd_capacity_'+s, lambda E, st, c, k, r: zi(r) == c.pre.cap(k), ('C09',))
    @job('size()', ('C02', 'C16'))
    def _(E):
        st = State(); c = Coll(E, st); E.frozen = c.frozen(); PS = sums(E, st, c)
        for st, kk, r in call(E, st, 'd_size', [c.p]):
            if nothrow(E, st, kk): E.oblige(st, zi(r) == PS(0), 'result:sum-over-the-segments', ('C02',))
    @job('empty()', ('C02', 'C16'))
    def _(E):
        st = State(); c = Coll(E, st); E.frozen = c.frozen()
        for st, kk, r in call(E, st, 'd_empty', [c.p]):
            if not nothrow(E, st, kk): continue
            q = fresh_int('q'); s2 = st.copy().assume(z3.And(zb(r), c.pre.has(q)))
            E.oblige(s2, c.pre.size(q) == 0, 'result:no-element-if-empty', ('C02',))
            qq = z3.Int(fresh_name('q'))
            s2 = st.copy().assume(z3.ForAll([qq], z3.Implies(c.pre.has(qq), c.pre.size(qq) == 0), patterns=[c.pre.size(qq)]))
            E.oblige(s2, zb(r), 'result:empty-if-no-element', ('C02',))
    for s in ('info', 'T'):
        @job('is_registered(%s)' % s, ('C05', 'C16'))
        def _(E, s=s):
            st = State(); c = Coll(E, st); E.frozen = c.frozen(); a, t = typ_arg(E, st, 'd_isreg_'+s)
            for s0, k in cases(E, st, c, t):
                for st1, kk, r in call(E, s0, 'd_isreg_'+s, [c.p]+a):
                    if nothrow(E, st1, kk): E.oblige(st1, zb(r) == z3.BoolVal(k is not None), 'result', ('C05',))

def locals_():
    """local iterators and segment information"""
    def l1(nm, drv, at, cst):
        @job(nm, ('C02', 'C05', 'C12', 'C01')+(('C16',) if cst else ()))
        def _(E):
            st = State(); c = Coll(E, st); E.frozen = c.frozen(); a, t = typ_arg(E, st, '_T' if '_T' in drv and '_segi_' not in drv else drv[:9])
            if '_segi_' in drv: a, t = typ_arg(E, st, 'x'); st.assume(t == TYP(E.pair(tdesc(E, st, 'C'))))
            o = obj(E, st, 'o', 64); L = c.L.lt if '_T' in drv else c.L.lb
            for s0, k in cases(E, st, c, t):
                for st1, kk, r in call(E, s0, drv, [o, c.p]+a):
                    if k is None:
                        E.oblige(st1, z3.BoolVal(kk == 'throw'), 'unregistered:throws', ('C05',))
                        if kk == 'throw': unregistered(E, st1, c, t)
                    elif nothrow(E, st1, kk): check_local(E, st1, o, c, L, 'result', ('C02', 'C12'), k, 0 if at == 'begin' else Lin.of(c.pre.size(k)))
    for at in ('begin', 'end'):
        for drv, nm, cst in (('d_l%s', '%s(info)', 0), ('d_l%s_c', '%s(info) const', 1), ('d_lc%s', 'c%s(info)', 1), ('d_l%s_T', '%s<T>()', 0), ('d_l%s_T_c', '%s<T>() const', 1), ('d_lc%s_T', 'c%s<T>()', 1),
                             ('d_seg_%s', 'segment(info).%s', 0), ('d_seg_%s_c', 'segment(info).%s const', 1), ('d_seg_c%s', 'segment(info).c%s', 1), ('d_seg_%s_T', 'segment<T>().%s', 0), ('d_seg_%s_T_c', 'segment<T>().%s const', 1),
                             ('d_segi_%s_T', 'segment(info).%s<T>', 0), ('d_segi_%s_T_c', 'segment(info).%s<T> const', 1)):
            l1(nm % at, drv % at, at, cst)
    @job('segment(info).type_info', ('C05', 'C16'))
    def _(E):
        st = State(); c = Coll(E, st); E.frozen = c.frozen(); a, t = typ_arg(E, st, 'x')
        for s0, k in cases(E, st, c, t):
            for st1, kk, r in call(E, s0, 'd_seg_type', [c.p]+a):
                if k is None:
                    E.oblige(st1, z3.BoolVal(kk == 'throw'), 'unregistered:throws', ('C05',))
                    if kk == 'throw': unregistered(E, st1, c, t)
                elif nothrow(E, st1, kk): E.oblige(st1, TYP(E.pair(r)) == t, 'result', ('C05',))
    for nm, drv, at in (('segment_traversal().begin', 'd_trav_begin', 0), ('segment_traversal().begin const', 'd_trav_begin_c', 0), ('segment_traversal().end', 'd_trav_end', 1), ('segment_traversal().end const', 'd_trav_end_c', 1)):
        @job(nm, ('C02', 'C16'))
        def _(E, drv=drv, at=at):
            st = State(); c = Coll(E, st); E.frozen = c.frozen(); o = obj(E, st, 'o', 64)
            for st, kk, r in call(E, st, drv, [o, c.p]):
                if not nothrow(E, st, kk): continue
                m = cell(st, o, c.L.trav['map'])
                E.oblige(st, zb(E.ptr_eq(st, m, P(c.n, 0, (0 if at else mkint(scale(c.pre.N, -1)),)))) if isinstance(m, P) else z3.BoolVal(False), 'result', ('C02',))
    for nm, drv in (('segment iterator ++', 'd_trav_inc'), ('segment iterator ->type_info', 'd_trav_type'), ('segment iterator ->begin', 'd_trav_sbegin'), ('segment iterator ->end', 'd_trav_send')):
        @job(nm, ('C02', 'C16'))
        def _(E, drv=drv):
            st = State(); c = Coll(E, st); E.frozen = c.frozen(); k = Lin.of(size_var('k', -2**41, -1)); st.assume(c.pre.has(k))
            x = obj(E, st, 'x', 64); st.rs(x.reg).cells[c.L.trav['map']] = (8, P(c.n, 0, (k,))); o = obj(E, st, 'o', 64)
            for st, kk, r in call(E, st, drv, [o, x] if 'send' in drv or 'sbegin' in drv else [x]):
                if not nothrow(E, st, kk): continue
                m = cell(st, x, c.L.trav['map'])
                E.oblige(st, zb(E.ptr_eq(st, m, P(c.n, 0, (add(k, 1) if 'inc' in drv else k,)))), 'segment', ('C02',))
                if 'type' in drv: E.oblige(st, TYP(E.pair(r)) == c.pre.typ(k), 'result', ('C02', 'C05'))
                if 'sbegin' in drv: check_local(E, st, o, c, c.L.lb, 'result', ('C02',), k, 0)
                if 'send' in drv: check_local(E, st, o, c, c.L.lb, 'result', ('C02',), k, Lin.of(c.pre.size(k)))

def conversions():
    def loc(E, st, c, which, nm='p', end=True, k=None):
        p = Pos(E, st, c, nm, end)
        if which == 'lt': st.assume(c.pre.typ(p.k) == TYP(E.pair(tdesc(E, st, 'C'))))
        if k is not None: st.assume(zi(k) == zi(p.k))
        return p, mk_it(E, st, c, p.k, p.i, getattr(c.L, which))
    for nm, drv, a, b in (('const local_base_iterator from non-const', 'd_lb_const', 'lb', 'lb'), ('const local_iterator from non-const', 'd_lt_const', 'lt', 'lt'), ('local_iterator(local_base_iterator)', 'd_lb_lt', 'lb', 'lt'),
                          ('const_local_iterator(local_base_iterator)', 'd_lb_clt', 'lb', 'lt'), ('const_local_iterator(const_local_base_iterator)', 'd_clb_clt', 'lb', 'lt'), ('local_base_iterator(local_iterator)', 'd_lt_lb', 'lt', 'lb'),
                          ('const_local_base_iterator(local_iterator)', 'd_lt_clb', 'lt', 'lb'), ('const_local_base_iterator(const_local_iterator)', 'd_clt_clb', 'lt', 'lb')):
        @job(nm, ('C12', 'C01'))
        def _(E, drv=drv, a=a, b=b):
            st = State(); c = Coll(E, st); E.frozen = c.frozen(); p, x = loc(E, st, c, a); o = obj(E, st, 'o', 64)
            if b == 'lt': st.assume(c.pre.typ(p.k) == TYP(E.pair(tdesc(E, st, 'C'))))
            for st, kk, r in call(E, st, drv, [o, x]):
                if nothrow(E, st, kk): check_local(E, st, o, c, getattr(c.L, b), 'result', ('C12',), p.k, p.i)
    for nm, drv, w, inp in (('local_base_iterator ++', 'd_lb_inc', 'lb', 1), ('local_base_iterator --', 'd_lb_dec', 'lb', 1), ('local_base_iterator +=', 'd_lb_add', 'lb', 1), ('local_base_iterator +', 'd_lb_plus', 'lb', 0), ('local_base_iterator -', 'd_lb_minus', 'lb', 0), ('local_iterator +=', 'd_lt_add', 'lt', 1)):
        @job(nm, ('C12',))
        def _(E, drv=drv, w=w, inp=inp):
            st = State(); c = Coll(E, st); E.frozen = c.frozen(); p, x = loc(E, st, c, w); d = Lin.of(size_var('n', -2**40, 2**40)); args = [d]
            sg = -1 if 'minus' in drv else 1
            if drv.endswith('inc'): d = 1; args = []
            if drv.endswith('dec'): d = -1; args = []
            to = add(p.i, scale(d, sg)); st.assume(z3.And(zi(to) >= 0, zi(to) <= c.pre.size(p.k)))
            o = x if inp else obj(E, st, 'o', 64)
            for st, kk, r in call(E, st, drv, ([] if inp else [o])+[x]+args):
                if nothrow(E, st, kk):
                    check_local(E, st, o, c, getattr(c.L, w), 'result', ('C12',), p.k, to)
                    if not inp: check_local(E, st, x, c, getattr(c.L, w), 'operand', ('C12',), p.k, p.i)
    for nm, drv, w in (('local_base_iterator distance', 'd_lb_dist', 'lb'), ('local_iterator distance', 'd_lt_dist', 'lt'), ('local_base_iterator ==', 'd_lb_eq', 'lb'), ('local_base_iterator <', 'd_lb_lt_', 'lb'), ('local_base_iterator >=', 'd_lb_ge', 'lb')):
        @job(nm, ('C12',))
        def _(E, drv=drv, w=w):
            st = State(); c = Coll(E, st); E.frozen = c.frozen(); p, x = loc(E, st, c, w); q = Pos(E, st, c, 'q', True); q.k = p.k
            st.assume(zi(q.i) <= c.pre.size(p.k)); y = mk_it(E, st, c, p.k, q.i, getattr(c.L, w))
            for st, kk, r in call(E, st, drv, [x, y]):
                if not nothrow(E, st, kk): continue
                a, b = zi(p.i), zi(q.i)
                want = {'dist': lambda: zi(r) == b-a, 'eq': lambda: zb(r) == (a == b), 'lt_': lambda: zb(r) == (a < b), 'ge': lambda: zb(r) == (a >= b)}
                E.oblige(st, want[re.sub('^d_l[bt]_', '', drv)](), 'result', ('C12',))
    for nm, drv, w in (('local_base_iterator *', 'd_lb_deref', 'lb'), ('local_base_iterator []', 'd_lb_sub', 'lb'), ('local_iterator []', 'd_lt_sub', 'lt')):
        @job(nm, ('C12', 'C01'))
        def _(E, drv=drv, w=w):
            st = State(); c = Coll(E, st); E.frozen = c.frozen(); p, x = loc(E, st, c, w); d = Lin.of(size_var('n', -2**40, 2**40)); args = [d]
            if drv.endswith('deref'): d = 0; args = []
            to = add(p.i, d); st.assume(z3.And(zi(to) >= 0, zi(to) < c.pre.size(p.k)))
            for st, kk, r in call(E, st, drv, [x]+args):
                if nothrow(E, st, kk): E.oblige(st, zb(E.ptr_eq(st, r, (E.W.tposn if w == 'lt' else E.W.posn)(st, c.n, p.k, to))), 'result:the-element-at-the-position', ('C12', 'C01'))

def same_elements(E, st, c, tag, props):
    """every segment holds what it held"""
    n = c.nodes(st); pre = c.pre; post = snap(st, n); q, i = fresh_int('q'), fresh_int('i')
    E.oblige(st, z3.BoolVal(n is pre.n), tag+':same-segments', props)
    E.oblige(st, zi(post.N) == zi(pre.N), tag+':number-of-segments', props)
    s2 = st.copy().assume(pre.has(q))
    E.oblige(s2, z3.And(post.size(q) == pre.size(q), post.typ(q) == pre.typ(q)), tag+':sizes', props)
    s3 = s2.copy().assume(z3.And(i >= 0, i < pre.size(q)))
    E.oblige(s3, post.val(q, i) == pre.val(q, i), tag+':elements', props)

def capacity():
    @job('reserve(n)', ('C09', 'C08', 'C02'))
    def _(E):
        st = State(); c = Coll(E, st); m = Lin.of(size_var('m')); extra_templates(E, m)
        for st, kk, r in call(E, st, 'd_reserve', [c.p, m]):
            same_elements(E, st, c, 'contents', ('C09', 'C08')); valid(E, st, c, 'after')
            q = fresh_int('q'); s2 = st.copy().assume(c.pre.has(q)); post = snap(st, c.nodes(st))
            E.oblige(s2, post.cap(q) >= c.pre.cap(q), 'never-shrinks', ('C09',))
            if kk == 'ret': E.oblige(s2, post.cap(q) >= zi(m), 'every-capacity-at-least-n', ('C09',))
    @job('shrink_to_fit()', ('C09', 'C08'))
    def _(E):
        st = State(); c = Coll(E, st); extra_templates(E)
        for st, kk, r in call(E, st, 'd_shrink', [c.p]):
            same_elements(E, st, c, 'contents', ('C09', 'C08')); valid(E, st, c, 'after')
    for s in ('info', 'T'):
        @job('reserve(%s,n)' % s, ('C09', 'C08', 'C05'))
        def _(E, s=s):
            st = State(); c = Coll(E, st); m = Lin.of(size_var('m')); a, t = typ_arg(E, st, 'd_reserve_'+s)
            for s0, k in cases(E, st, c, t):
                for st1, kk, r in call(E, s0, 'd_reserve_'+s, [c.p]+a+[m]):
                    valid(E, st1, c, 'after')
                    if k is None and s == 'info':
                        E.oblige(st1, z3.BoolVal(kk == 'throw'), 'unregistered:throws', ('C05',))
                        if kk == 'throw': unregistered(E, st1, c, t)
                        continue
                    unchanged(E, st1, c, 'after', ('C09', 'C08', 'C05'), but=k)
                    post = snap(st1, c.nodes(st1))
                    if k is None:
                        new_segment(E, st1, c, t, kk, 'after')
                        if kk == 'ret': E.oblige(st1, post.cap(-zi(c.pre.N)-1) >= zi(m), 'capacity-at-least-n', ('C09',))
                        continue
                    E.oblige(st1, zi(post.N) == zi(c.pre.N), 'no-new-segment', ('C05',))
                    seg_same(E, st1, c, k, 'contents', ('C09', 'C08'))
                    E.oblige(st1, z3.And(post.cap(k) >= c.pre.cap(k), z3.Implies(zi(m) <= c.pre.cap(k), post.epoch(k) == c.pre.epoch(k))), 'never-shrinks', ('C09',))
                    if kk == 'ret': E.oblige(st1, post.cap(k) >= zi(m), 'capacity-at-least-n', ('C09',))
        for nm, drv in (('shrink_to_fit', 'd_shrink_'), ('clear', 'd_clear_')):
            @job('%s(%s)' % (nm, s), ('C09', 'C08', 'C05') if nm[0] == 's' else ('C04', 'C05', 'C08'))
            def _(E, s=s, drv=drv):
                st = State(); c = Coll(E, st); a, t = typ_arg(E, st, drv+s)
                for s0, k in cases(E, st, c, t):
                    for st1, kk, r in call(E, s0, drv+s, [c.p]+a):
                        valid(E, st1, c, 'after')
                        if k is None:
                            E.oblige(st1, z3.BoolVal(kk == 'throw'), 'unregistered:throws', ('C05',))
                            if kk == 'throw': unregistered(E, st1, c, t)
                            continue
                        unchanged(E, st1, c, 'after', ('C09', 'C04', 'C08'), but=k, N=c.pre.N)
                        if 'shrink' in drv: seg_same(E, st1, c, k, 'contents', ('C09', 'C08'))
                        elif nothrow(E, st1, kk): E.oblige(st1, snap(st1, c.n).size(k) == 0, 'cleared', ('C04',))
    @job('clear()', ('C04', 'C08', 'C05'))
    def _(E):
        st = State(); c = Coll(E, st); extra_templates(E)
        for st, kk, r in call(E, st, 'd_clear', [c.p]):
            if not nothrow(E, st, kk): continue
            valid(E, st, c, 'after'); post = snap(st, c.nodes(st))
            E.oblige(st, zi(post.N) == zi(c.pre.N), 'segments-stay-registered', ('C04', 'C05'))
            q = fresh_int('q'); s2 = st.copy().assume(c.pre.has(q))
            E.oblige(s2, z3.And(post.size(q) == 0, post.typ(q) == c.pre.typ(q)), 'every-segment-cleared', ('C04',))
def seg_same(E, st, c, k, tag, props):
    post = snap(st, c.nodes(st)); i = fresh_int('i')
    E.oblige(st, z3.And(post.size(k) == c.pre.size(k), post.typ(k) == c.pre.typ(k)), tag+':size', props)
    s2 = st.copy().assume(z3.And(i >= 0, i < c.pre.size(k)))
    E.oblige(s2, post.val(k, i) == c.pre.val(k, i), tag+':elements', props)
def new_segment(E, st, c, t, kk, tag, size=0):
    """at most one new segment, of type t; exactly one if no exception"""
    post = snap(st, c.nodes(st)); N = zi(c.pre.N); k = -N-1
    E.oblige(st, zi(post.N) == N+1 if kk == 'ret' else z3.And(zi(post.N) >= N, zi(post.N) <= N+1), tag+':one-segment-for-the-type', ('C05',))
    s2 = st.copy().assume(zi(post.N) == N+1)
    if E.feasible(s2): E.oblige(s2, z3.And(post.typ(k) == t, post.size(k) == size if kk == 'ret' else post.size(k) >= 0), tag+':new-segment', ('C05', 'C03'))

def registration():
    @job('register_types<T>', ('C05', 'C08'))
    def _(E):
        st = State(); c = Coll(E, st); a, t = typ_arg(E, st, 'd_register')
        for s0, k in cases(E, st, c, t):
            for st1, kk, r in call(E, s0, 'd_register', [c.p]):
                valid(E, st1, c, 'after'); unchanged(E, st1, c, 'after', ('C05', 'C08'))
                if k is None: new_segment(E, st1, c, t, kk, 'after')
                else: E.oblige(st1, zi(snap(st1, c.n).N) == zi(c.pre.N), 'no-second-segment', ('C05',))
    @job('register_types<T,U>', ('C05', 'C08'))
    def _(E):
        st = State(); c = Coll(E, st); t, u = TYP(E.pair(tdesc(E, st, 'C'))), TYP(E.pair(tdesc(E, st, 'D'))); distinct(E, st)
        for s0, k in cases(E, st, c, t):
            for s1, l in cases(E, s0, c, u):
                for st1, kk, r in call(E, s1, 'd_register2', [c.p]):
                    valid(E, st1, c, 'after'); unchanged(E, st1, c, 'after', ('C05', 'C08')); post = snap(st1, c.nodes(st1))
                    x = (k is None)+(l is None); N = zi(c.pre.N)
                    if kk == 'throw': E.oblige(st1, z3.And(zi(post.N) >= N, zi(post.N) <= N+x), 'at-most-one-segment-per-new-type', ('C05',)); continue
                    E.oblige(st1, zi(post.N) == N+x, 'one-segment-per-new-type', ('C05',))
                    for y in ([t] if k is None else [])+([u] if l is None else []):
                        E.oblige(st1, z3.Or(*[z3.And(post.typ(-N-1-j) == y, post.size(-N-1-j) == 0) for j in range(x)]), 'new-segment', ('C05',))

class Arg:
    """an element to insert: IR argument, value, type"""
    def __init__(s, E, st, c, what, own):
        w = E.W; tC = TYP(E.pair(tdesc(E, st, 'C')))
        if what == 'int':
            a = size_var('a', -2**31, 2**31-1); p = obj(E, st, 'arg', 4); st.rs(p.reg).cells[0] = (4, Lin.of(a))
            s.p, s.v, s.t = p, CT(a), tC; return
        if own:
            q = Pos(E, st, c, 'own'); s.k = q.k; s.v = c.pre.val(q.k, q.i); s.t = c.pre.typ(q.k)
            if what[0] == 'T': st.assume(s.t == tC); s.p = w.tposn(st, c.n, q.k, q.i); s.t = tC
            else: s.p = w.posn(st, c.n, q.k, q.i)
            return
        s.v = z3.Int('argval'); d = tdesc(E, st, 'C') if what[0] == 'T' else desc(E, st, size_var('argty'))
        s.p = obj(E, st, 'arg', 64); st.rs(s.p.reg).cells[('val', 0)] = s.v; st.rs(s.p.reg).cells[('ty', 0)] = d; s.t = TYP(E.pair(d))

def check_insert(E, st, c, k, i0, m, src, kk, t, tag, out=None, hintk=None):
    """m elements src(0..m-1) were inserted at position i0 of segment k (k None: of the new segment)"""
    valid(E, st, c, tag)
    P3 = ('C03',)
    unchanged(E, st, c, tag, ('C03', 'C05', 'C08'), but=k)
    if c.nodes(st) is not c.n: return None
    post = snap(st, c.n); N = zi(c.pre.N)
    if k is None:
        new_segment(E, st, c, t, kk, tag, zi(m)); k = mkint(Lin.of(c.pre.N).mulc(-1).add(-1)); size0 = z3.IntVal(0); i0 = 0
    else:
        E.oblige(st, zi(post.N) == N, tag+':no-new-segment', ('C05', 'C03')); size0 = c.pre.size(k)
        E.oblige(st, post.typ(k) == c.pre.typ(k), tag+':same-type', ('C05',))
    if kk == 'throw': return None
    E.oblige(st, post.size(k) == size0+zi(m), tag+':size', P3)
    q = fresh_int('q')
    s2 = st.copy().assume(z3.And(q >= 0, q < size0+zi(m)))
    E.oblige(s2, post.val(k, q) == z3.If(q < zi(i0), c.pre.val(k, q), z3.If(q < zi(i0)+zi(m), src(q-zi(i0)), c.pre.val(k, q-zi(m)))), tag+':elements', P3)
    s2 = st.copy().assume(z3.And(size0+zi(m) <= c.pre.cap(k), z3.BoolVal(not same(k, mkint(Lin.of(c.pre.N).mulc(-1).add(-1))))))
    if E.feasible(s2): E.oblige(s2, post.epoch(k) == c.pre.epoch(k), tag+':no-relocation-within-capacity', ('C09',))
    return k, i0

def insertion():
    def ins(nm, drv, what, where):
        """where: '' at the end; 'hint'; 'lb'/'lt' local position"""
        props = ('C03', 'C05', 'C08', 'C01', 'C09')
        owns = [False] if what in ('int', 'Tm', 'Vm') else [False, True]
        for own in owns:
            for h in (('p', 'e') if where == 'hint' else ('',)):
                suffix = (' of own element' if own else '')+(', hint at end' if h == 'e' else '')
                @job(nm+suffix, props)
                def _(E, own=own, h=h):
                    st = State(); c = Coll(E, st); a = Arg(E, st, c, what, own); o = obj(E, st, 'o', 64); args = [o, c.p]
                    hp = None
                    if where == 'hint':
                        if h == 'p': hp = Pos(E, st, c, 'hint'); args.append(mk_it(E, st, c, hp.k, hp.i, name='hint'))
                        else: args.append(mk_end(E, st, c, 'hint'))
                    elif where:
                        hp = Pos(E, st, c, 'pos', True); L = getattr(c.L, where)
                        st.assume(c.pre.typ(hp.k) == a.t)
                        if where == 'lt': st.assume(a.t == TYP(E.pair(tdesc(E, st, 'C'))))
                        args.append(mk_it(E, st, c, hp.k, hp.i, L, 'pos'))
                    if where in ('lb', 'lt'): cs = [(st, hp.k)]
                    else: cs = cases(E, st, c, a.t)
                    for s0, k in cs:
                        if own and k is None: continue
                        for st1, kk, r in call(E, s0, drv, args+[a.p]):
                            if k is None and what[0] == 'V':
                                s2 = st1.copy().assume(a.t != TYP(E.pair(E.W.vdesc(E, st1))))
                                if not E.feasible(s2): pass
                                else: st1 = s2
                            if k is None and what[0] == 'V' and st1 is s2:
                                E.oblige(st1, z3.BoolVal(kk == 'throw'), 'unregistered:throws', ('C05',))
                                if kk == 'throw': unregistered(E, st1, c, a.t)
                                continue
                            i0 = None if k is None else Lin.of(c.pre.size(k))
                            if where in ('lb', 'lt'): i0 = hp.i
                            if where == 'hint' and h == 'p' and k is not None: i0 = Lin.of(z3.If(zi(hp.k) == zi(k), zi(hp.i), c.pre.size(k)))
                            x = check_insert(E, st1, c, k, i0, 1, lambda q: a.v, kk, a.t, 'after')
                            if x is None: continue
                            if where in ('lb', 'lt'): check_local(E, st1, o, c, getattr(c.L, where), 'result', ('C03',), x[0], x[1])
                            else: check_at(E, st1, o, c, x[0], x[1], 'result', ('C03',))
    ins('emplace', 'd_emplace', 'int', ''); ins('emplace(const T&)', 'd_emplace_copy', 'T', '')
    ins('emplace_hint', 'd_emplace_hint', 'int', 'hint')
    for w, d in (('lb', 'local_base_iterator'), ('lt', 'local_iterator')):
        ins('emplace_pos(%s)' % d, 'd_emplace_'+w, 'int', w); ins('emplace_pos(const_%s)' % d, 'd_emplace_c'+w, 'int', w)
    ins('insert(const T&)', 'd_insert_T', 'T', ''); ins('insert(T&&)', 'd_insert_Tm', 'Tm', '')
    ins('insert(const V&)', 'd_insert_V', 'V', ''); ins('insert(V&&)', 'd_insert_Vm', 'Vm', '')
    ins('insert(hint,const T&)', 'd_insert_hint_T', 'T', 'hint'); ins('insert(hint,T&&)', 'd_insert_hint_Tm', 'Tm', 'hint')
    ins('insert(hint,const V&)', 'd_insert_hint_V', 'V', 'hint'); ins('insert(hint,V&&)', 'd_insert_hint_Vm', 'Vm', 'hint')
    ins('insert(local_base_iterator,const T&)', 'd_insert_lb_T', 'T', 'lb'); ins('insert(const_local_base_iterator,T&&)', 'd_insert_clb_Tm', 'Tm', 'lb')
    ins('insert(const_local_base_iterator,const V&)', 'd_insert_clb_V', 'V', 'lb'); ins('insert(local_iterator,const T&)', 'd_insert_lt_T', 'T', 'lt')
    ins('insert(const_local_iterator,T&&)', 'd_insert_clt_Tm', 'Tm', 'lt'); ins('insert(const_local_iterator,const V&)', 'd_insert_clt_V', 'V', 'lt')

# ------------------------------------------------------------------ ranges
class Rng:
    """a source range [a,b) of element objects with values src(j) and types ty(j)"""
    def __init__(s, E, st, what):
        s.reg = r = E.new_region('buf', 'rng', stride=E.W.tsize if what == 'T' else call(E, State(), 'd_sizeof_V', [])[0][2])
        st.mem[r] = rs = RS(); ti = ti_region(E); desc(E, st, 0)
        s.n = size_var('rng_len', 0, 2**38); s.a = size_var('first', 0, 2**38); s.b = size_var('last', 0, 2**38)
        st.assume(z3.And(s.a <= s.b, s.b <= s.n))
        rs.len = Lin.of(s.n); T = z3.Function('rng_ty', z3.IntSort(), z3.IntSort()); f = Fun.fresh('rng_val')
        if what == 'T':
            d = E.pair(tdesc(E, st, 'C')); g = Fun(lambda j: d, True)
        else: g = Fun(lambda j: (z3.IntVal(ti.id), T(j)), True)
        rs.cells = {'val': f, 'ty': g}
        s.src = lambda j: f.get(zi(j)); s.ty = lambda j: TYP(g.get(zi(j)))
        s.pa = P(r, scale(Lin.of(s.a), r.stride)); s.pb = P(r, scale(Lin.of(s.b), r.stride))
        s.M = s.b-s.a
    def cursor(s, v):
        """index of a source iterator"""
        if isinstance(v, P) and v.reg is s.reg: return zi(Lin.of(v.off).divc(s.reg.stride))
class LRng:
    """a source range [a,b) of positions of segment k of collection x"""
    def __init__(s, E, st, x, L):
        s.x = x; p = Pos(E, st, x, 'f', True); q = Pos(E, st, x, 'l', True)
        st.assume(z3.And(zi(q.k) == zi(p.k), zi(p.i) <= zi(q.i)))
        if L is x.L.lt: st.assume(x.pre.typ(p.k) == TYP(E.pair(tdesc(E, st, 'C'))))
        s.k = p.k; s.a = zi(p.i); s.b = zi(q.i); s.M = s.b-s.a
        s.pa = mk_it(E, st, x, p.k, p.i, L, 'first'); s.pb = mk_it(E, st, x, p.k, q.i, L, 'last')
        s.src = lambda j: x.pre.val(p.k, j); s.ty = lambda j: x.pre.typ(p.k)
    def cursor(s, v):
        if isinstance(v, P) and v.reg in (s.x.n.pos, s.x.n.tpos): return zi(Lin.of(v.off).divc(v.reg.stride))
class Plan:
    """what inserting the first j source elements means: m(k,j) go into segment k, from
    index i0(k) on; the r-th of them is source element sel(k,r)"""
    def __init__(s, c, R, m, sel, i0, ks): s.c = c; s.R = R; s.m = m; s.sel = sel; s.i0 = i0; s.ks = ks; s.srcv = lambda k, r: R.src(sel(k, r))
    def val(s, f0, k, i, j):
        i0, m = s.i0(k), s.m(k, j)
        return z3.If(i < i0, f0(k, i), z3.If(i < i0+m, s.srcv(k, i-i0), f0(k, i-m)))
def plan_templates(E, pl):
    n = pl.c.n
    def prog(loop, st):
        """number of source elements consumed since the loop was entered"""
        for l in loop.locs():
            e = loop.entry_val(l)
            if pl.R.cursor(e) is not None:
                v = loop.get(l, st, loop.cur_env)
                return pl.R.cursor(v)-pl.R.cursor(e)
    def t_size(E, st, loop):
        j = prog(loop, st)
        if j is None: return True
        f, g = st.rs(n).cells['size'], loop.st0.rs(n).cells['size']; k = z3.Int('k!t'); N = zi(loop.st0.ghost[('N', n.id)])
        return z3.ForAll([k], z3.Implies(z3.And(k >= -N, k < 0), f.get(k) == g.get(k)+pl.m(k, j)), patterns=pats(f, k))
    def t_val(E, st, loop):
        j = prog(loop, st)
        if j is None: return True
        f, g = st.rs(n).cells['val'], loop.st0.rs(n).cells['val']; h = loop.st0.rs(n).cells['size']; k, i = z3.Ints('k!t i!t'); N = zi(loop.st0.ghost[('N', n.id)])
        return z3.ForAll([k, i], z3.Implies(z3.And(k >= -N, k < 0, i >= 0, i < h.get(k)+pl.m(k, j)), f.get(k, i) == pl.val(lambda a, b: g.get(a, b), k, i, j)), patterns=pats(f, k, i))
    def t_same(x):
        def t(E, st, loop):
            f, g = st.rs(n).cells[x], loop.st0.rs(n).cells[x]; k = z3.Int('k!t')
            if f is g: return True
            return z3.ForAll([k], z3.Implies(z3.And(*[k != zi(q) for q in pl.ks]), f.get(k) == g.get(k)), patterns=pats(f, k))
        return t
    def t_epoch(E, st, loop):
        """no relocation within the capacity"""
        c, c0 = st.rs(n).cells, loop.st0.rs(n).cells; k = z3.Int('k!t'); N = zi(loop.st0.ghost[('N', n.id)])
        if c['epoch'] is c0['epoch']: return True
        return z3.ForAll([k], z3.Implies(z3.And(k >= -N, k < 0, c['size'].get(k) <= c0['cap'].get(k)), z3.And(c['epoch'].get(k) == c0['epoch'].get(k), c['cap'].get(k) == c0['cap'].get(k))), patterns=pats(c['epoch'], k)+pats(c['cap'], k))
    def t_le(a):
        def t(E, st, loop):
            j = prog(loop, st)
            return True if j is None else j <= a
        return t
    def t_int(d):
        def t(E, st, loop):
            j = prog(loop, st); il = int_locs(loop)
            if j is None or d >= len(il): return True
            return zi(loop.get(il[d], st, loop.cur_env)) == zi(loop.entry_val(il[d]))+j
        return t
    def t_pos(d, q):
        def t(E, st, loop):
            j = prog(loop, st); ls = [l for l in loop.locs() if isinstance(loop.entry_val(l), P) and loop.entry_val(l).reg in (n.pos, n.tpos)]
            if j is None or d >= len(ls): return True
            v = loop.get(ls[d], st, loop.cur_env); kz = zi(q)
            return z3.And(zi(v.key[0]) == kz, zi(v.key[1]) == st.rs(n).cells['epoch'].get(kz), zi(Lin.of(v.off).divc(v.reg.stride)) == pl.i0(kz)+pl.m(kz, j))
        return t
    def t_cur(d):
        """cursors are at the progress made"""
        def t(E, st, loop):
            j = prog(loop, st); ls = [l for l in loop.locs() if pl.R.cursor(loop.entry_val(l)) is not None]
            if j is None or d >= len(ls): return True
            return z3.And(j >= 0, j <= pl.R.M, pl.R.cursor(loop.get(ls[d], st, loop.cur_env)) == pl.R.cursor(loop.entry_val(ls[d]))+j)
        return t
    E.inv_templates += [('range size', t_size), ('range val', t_val), ('range epoch', t_epoch), ('valid', tmpl_valid)]+[('range same '+x, t_same(x)) for x in ('size', 'cap', 'epoch')]
    E.inv_templates += [('range int%d' % d, t_int(d)) for d in range(2)]+[('range cur%d' % d, t_cur(d)) for d in range(2)]
    E.inv_templates += [('range pos%d%s' % (d, i), t_pos(d, q)) for d in range(2) for i, q in enumerate(pl.ks)]
    for a in [pl.R.M-1]+getattr(pl, 'upto', []): E.inv_templates.append(('range upto', t_le(a)))

def tpat(S, k):
    v = S.c[FIRST].get(k)[1]
    return [v] if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED else []
def type_templates(E, c, newt):
    """segments keep their types, one per type; new ones are of type newt"""
    k, i = z3.Ints('k!y i!y'); n = c.n
    def t_typ(E, st, loop):
        S = snap(st, n)
        return True if S.c[FIRST] is c.pre.c[FIRST] else z3.ForAll([k], z3.Implies(c.pre.has(k), S.typ(k) == c.pre.typ(k)), patterns=tpat(S, k))
    def t_one(E, st, loop):
        S = snap(st, n)
        return True if S.c[FIRST] is c.pre.c[FIRST] else z3.ForAll([k, i], z3.Implies(z3.And(S.has(k), k < i, i < 0), S.typ(k) != S.typ(i)), patterns=[z3.MultiPattern(tpat(S, k)[0], tpat(S, i)[0])] if tpat(S, k) else [])
    def t_new(E, st, loop):
        S = snap(st, n)
        return True if S.c[FIRST] is c.pre.c[FIRST] else z3.ForAll([k], z3.Implies(z3.And(S.has(k), k < -zi(c.pre.N)), S.typ(k) == newt), patterns=tpat(S, k))
    E.inv_templates += [('typ', t_typ), ('one per type', t_one), ('new typ', t_new), ('N', lambda E, st, loop: zi(st.ghost[('N', n.id)]) >= zi(c.pre.N))]
def ranges():
    PR = ('C03', 'C05', 'C08', 'C09', 'C01')
    def one(nm, drv, kind, where, own=False):
        """all elements go into one segment"""
        for h in (('same', 'other', 'end') if where == 'hint' else ('',)):
            for reg_ in ((True, False) if where in ('', 'hint') and h != 'same' else (True,)):
                @job(nm+{'same': ', hint in segment', 'other': ', hint elsewhere', 'end': ', hint at end'}.get(h, '')+('' if reg_ else ', new segment'), PR)
                def _(E, h=h, reg_=reg_):
                    st = State(); c = Coll(E, st); o = obj(E, st, 'o', 64)
                    if kind in 'TV':
                        R = Rng(E, st, kind)
                        if kind == 'V':
                            tv = z3.Int('range_type'); j = z3.Int('j!ty'); st.assume(z3.ForAll([j], R.ty(j) == tv, patterns=[st.rs(R.reg).cells['ty'].get(j)[1]]))
                            R.reg.fact = lambda s, idx: s.assume(R.ty(idx) == tv)
                    else:
                        x = Coll(E, st, 'x'); R = LRng(E, st, x, getattr(c.L, kind))
                    t = R.ty(R.a); hp = None; args = [c.p]
                    if kind == 'V': t = tv
                    if where == 'hint':
                        if h == 'end': args.append(mk_end(E, st, c, 'hint'))
                        else: hp = Pos(E, st, c, 'hint'); args.append(mk_it(E, st, c, hp.k, hp.i, name='hint'))
                    elif where:
                        hp = Pos(E, st, c, 'pos', True); args = [o]+args+[mk_it(E, st, c, hp.k, hp.i, getattr(c.L, where), 'pos')]
                    cs = cases(E, st, c, t); k = None
                    if hp is not None and h != 'other': k = hp.k; st.assume(c.pre.typ(k) == t)
                    else: st, k = cs[0 if reg_ else 1]
                    if hp is not None and h == 'other' and reg_: st.assume(zi(hp.k) != zi(k))
                    kz = zi(k) if k is not None else -zi(c.pre.N)-1
                    i0 = zi(hp.i) if hp is not None and h != 'other' else (c.pre.size(k) if k is not None else z3.IntVal(0))
                    pl = Plan(c, R, lambda q, j: z3.If(q == kz, j, 0), lambda q, r: R.a+r, lambda q: i0, [kz])
                    plan_templates(E, pl)
                    for st1, kk, r in call(E, st, drv, args+[R.pa, R.pb]):
                        if k is None:
                            s2 = st1.copy().assume(R.M == 0)
                            if E.feasible(s2): unchanged(E, s2, c, 'empty-range', ('C03', 'C05'), N=c.pre.N)
                            st1.assume(R.M > 0)
                            if not E.feasible(st1): continue
                        y = check_insert(E, st1, c, k, Lin.of(i0), R.M, lambda q: R.src(R.a+q), kk, t, 'after')
                        if y is None or not where or where == 'hint': continue
                        check_local(E, st1, o, c, getattr(c.L, where), 'result', ('C03',), y[0], y[1])
    one('insert(range of T)', 'd_range_T', 'T', ''); one('insert(hint,range of T)', 'd_hrange_T', 'T', 'hint')
    one('insert(const_local_base_iterator,range of T)', 'd_prange_clb_T', 'T', 'lb'); one('insert(const_local_base_iterator,range of V)', 'd_prange_clb_V', 'V', 'lb')
    one('insert(local_iterator,range of T)', 'd_prange_lt_T', 'T', 'lt'); one('insert(const_local_iterator,range of T)', 'd_prange_clt_T', 'T', 'lt')
    one('insert(range of const_local_base_iterator)', 'd_range_clb', 'lb', ''); one('insert(range of const_local_iterator)', 'd_range_clt', 'lt', '')
    one('insert(hint,range of const_local_base_iterator)', 'd_hrange_clb', 'lb', 'hint')

    def many(nm, drv, hint):
        """elements of several types, each to the segment of its type"""
        for reg_ in (True, False):
            @job(nm+(', types registered' if reg_ else ', a type not registered'), PR)
            def _(E, reg_=reg_):
                st = State(); c = Coll(E, st); R = Rng(E, st, 'V'); args = [c.p]; hp = None; I = z3.IntSort(); A = st.assume
                if hint == 'p': hp = Pos(E, st, c, 'hint'); args.append(mk_it(E, st, c, hp.k, hp.i, name='hint'))
                elif hint: args.append(mk_end(E, st, c, 'hint'))
                # CNT(t,j): how many of the first j elements are of type t; SEL(t,r): the r-th of them (from 0)
                CNT = z3.Function('count_of_type', I, I, I); SEL = z3.Function('nth_of_type', I, I, I); j, t, r = z3.Ints('j!c t!c r!c')
                A(z3.ForAll([t], CNT(t, 0) == 0, patterns=[CNT(t, 0)]))
                A(z3.ForAll([t, j], z3.Implies(j >= 0, z3.And(CNT(t, j) >= 0, CNT(t, j) <= j)), patterns=[CNT(t, j)]))
                ty = st.rs(R.reg).cells['ty']; tv = E.W.vdesc(E, st)
                def fact(s, idx):
                    q = zi(idx)-R.a
                    s.assume(z3.ForAll([t], z3.Implies(z3.And(q >= 0, q < R.M), CNT(t, q+1) == CNT(t, q)+z3.If(t == R.ty(idx), 1, 0)), patterns=[CNT(t, q), CNT(t, q+1)]))
                    s.assume(z3.Implies(z3.And(q >= 0, q < R.M), SEL(R.ty(idx), CNT(R.ty(idx), q)) == q))
                    if tv is not None and not E.W.packed: s.assume(R.ty(idx) != TYP(E.pair(tv)))
                    if reg_: s.assume(z3.Implies(z3.And(q >= 0, q < R.M), z3.And(c.pre.has(rg(zi(idx))), c.pre.typ(rg(zi(idx))) == R.ty(idx))))
                rg = z3.Function('segment_of', I, I); R.reg.fact = fact
                m = lambda k, j: CNT(c.pre.typ(k), j)
                pl = Plan(c, R, m, lambda k, r: R.a+SEL(c.pre.typ(k), r), lambda k: z3.If(k == zi(hp.k), zi(hp.i), c.pre.size(k)) if hp is not None else c.pre.size(k), [hp.k] if hp is not None else [])
                if not reg_:
                    w = size_var('w', 0, 2**38); q = z3.Int('q!w'); A(w < R.M)
                    A(z3.ForAll([q], z3.Implies(c.pre.has(q), c.pre.typ(q) != R.ty(R.a+w)), patterns=[c.pre.c[FIRST].get(q)[1]]))
                    if tv is not None: A(R.ty(R.a+w) != TYP(E.pair(tv)))
                    pl.upto = [w]
                plan_templates(E, pl)
                if E.W.packed: type_templates(E, c, TYP(E.pair(tv)))
                for st1, kk, r_ in call(E, st, drv, args+[R.pa, R.pb]):
                    valid(E, st1, c, 'after')
                    E.oblige(st1, z3.BoolVal(c.nodes(st1) is c.n), 'same-segments', PR)
                    if not reg_:
                        E.oblige(st1, z3.BoolVal(kk == 'throw'), 'unregistered:throws', ('C05',)); continue
                    if kk == 'throw': continue
                    post = snap(st1, c.n); k, i = fresh_int('k'), fresh_int('i')
                    E.oblige(st1, zi(post.N) == zi(c.pre.N), 'no-new-segment', ('C05',))
                    s2 = st1.copy().assume(c.pre.has(k))
                    E.oblige(s2, z3.And(post.size(k) == c.pre.size(k)+m(k, R.M), post.typ(k) == c.pre.typ(k)), 'after:size', ('C03', 'C05'))
                    s2.assume(z3.And(i >= 0, i < post.size(k)))
                    E.oblige(s2, post.val(k, i) == pl.val(lambda a, b: c.pre.val(a, b), k, i, R.M), 'after:elements', ('C03', 'C01'))
                    s2 = st1.copy().assume(z3.And(c.pre.has(k), post.size(k) <= c.pre.cap(k)))
                    E.oblige(s2, post.epoch(k) == c.pre.epoch(k), 'no-relocation-within-capacity', ('C09',))
    many('insert(range of V)', 'd_range_V', ''); many('insert(hint,range of V)', 'd_hrange_V', 'p'); many('insert(hint at end,range of V)', 'd_hrange_V', 'e')

    for hint in ('', 'p', 'e'):
        @job('insert(%srange of const_iterator)' % {'': '', 'p': 'hint,', 'e': 'hint at end,'}[hint], PR)
        def _(E, hint=hint):
            st = State(); c = Coll(E, st); x = Coll(E, st, 'x'); args = [c.p]; hp = None; I = z3.IntSort(); A = st.assume; inc_contract(E)
            if hint == 'p': hp = Pos(E, st, c, 'hint'); args.append(mk_it(E, st, c, hp.k, hp.i, name='hint'))
            elif hint: args.append(mk_end(E, st, c, 'hint'))
            for end in (False, True):
                st1 = st.copy(); E.inv_templates = E.inv_templates[:2]; st1.pc = list(st.pc)
                R = CRng(E, st1, c, x, end); pl = CPlan(E, st1, c, x, R, hp); cursor_templates(E, pl)
                N0 = zi(c.pre.N); tag = 'to the end' if end else 'to a position'
                for s1, kk, r in call(E, st1, 'd_hrange_it' if hint else 'd_range_it', args+[R.pa, R.pb]):
                    valid(E, s1, c, 'after')
                    ok = c.nodes(s1) is c.n; E.oblige(s1, z3.BoolVal(ok), 'same-segments', PR)
                    if not ok: continue
                    post = snap(s1, c.n); k, i = fresh_int('k'), fresh_int('i')
                    E.oblige(s1, zi(post.N) >= N0, 'segments-kept', ('C05', 'C08'))
                    s2 = s1.copy().assume(c.pre.has(k)); E.oblige(s2, post.typ(k) == c.pre.typ(k), 'segments-keep-their-types', ('C05', 'C08'))
                    if kk == 'throw': continue
                    s2 = s1.copy().assume(post.has(k))
                    E.oblige(s2, post.size(k) == pl.base(k)+pl.m(post, k, R.last), 'after:size', ('C03', 'C05'))
                    s2.assume(z3.And(i >= 0, i < post.size(k)))
                    E.oblige(s2, post.val(k, i) == pl.val(post, k, i, R.last), 'after:elements', ('C03', 'C01'))
                    s2 = s1.copy().assume(z3.And(c.pre.has(k), post.size(k) <= c.pre.cap(k)))
                    E.oblige(s2, post.epoch(k) == c.pre.epoch(k), 'no-relocation-within-capacity', ('C09',))
                    s2 = s1.copy().assume(z3.ForAll([pl.q], z3.Implies(post.has(pl.q), post.typ(pl.q) != x.pre.typ(R.s0))))
                    E.oblige(s2, z3.BoolVal(False), 'a-segment-for-every-type', ('C05', 'C03'))
def inc_contract(E):
    """++ of an iterator of a collection, as proved by the jobs 'iterator ++'"""
    L = layout(E).it
    def h(E, st, args, info):
        o = args[0]; m, p = cell(st, o, L['map']), cell(st, o, L['pos'])
        if not (isinstance(m, P) and getattr(m.reg, 'isnodes', False) and isinstance(p, P) and p.reg is m.reg.pos): raise Unsupported('++ of %r' % (m,))
        n = m.reg; k = zi(m.key[0])
        i = position(E, st, n, m.key[0], p, '++', True)
        if i is None: return []
        E.write_guard(st, o)
        k2, i2 = fresh_int('next_k'), fresh_int('next_i'); q = z3.Int(fresh_name('q')); sz = fld(st, n, 'size', k); f = st.rs(n).cells['size']
        N = zi(st.ghost[('N', n.id)])
        st.assume(z3.If(zi(i)+1 < sz, z3.And(k2 == k, i2 == zi(i)+1), z3.And(k2 > k, k2 <= 0, i2 == 0, z3.Or(k2 == 0, f.get(k2) > 0))))
        st.assume(z3.Implies(zi(i)+1 >= sz, z3.ForAll([q], z3.Implies(z3.And(q > k, q < k2), f.get(q) == 0), patterns=pats(f, q))))
        rs = st.w(o.reg)
        rs.cells[o.off+L['map']] = (8, P(n, 0, (Lin.of(k2),)))
        rs.cells[o.off+L['pos']] = (8, P(n.pos, scale(Lin.of(i2), n.pos.stride), (Lin.of(z3.If(k2 == 0, NULLKEY, k2)), Lin.of(z3.If(k2 == 0, 0, fld(st, n, 'epoch', k2))))))
        if 'stride' in L: rs.cells[o.off+L['stride']] = (8, Lin.of(E.W.stride(TYP(st.rs(n).cells[FIRST].get(k2)))))
        return [(st, 'ret', None)]
    E.contracts = [(re.compile(r'^void boost::iterators::iterator_core_access::increment<boost::poly_collection::detail::iterator_impl<'), Contract('iterator ++ (proved: collection.iterator ++)', h))]+E.contracts

class CRng:
    """range of iterators of collection x: from element i of segment k to another position or the end"""
    def __init__(s, E, st, c, x, end):
        s.x = x; p = Pos(E, st, x, 'f'); s.fk, s.fi = zi(p.k), zi(p.i); s.pa = mk_it(E, st, x, p.k, p.i, name='first')
        if end: s.pb = mk_end(E, st, x, 'last'); s.last = (z3.IntVal(0), z3.IntVal(0))
        else:
            q = Pos(E, st, x, 'l'); s.pb = mk_it(E, st, x, q.k, q.i, name='last'); s.last = (zi(q.k), zi(q.i))
            st.assume(z3.Or(s.fk < s.last[0], z3.And(s.fk == s.last[0], s.fi <= s.last[1])))
        # an arbitrary segment of x with elements in the range
        s.s0 = size_var('s0', -2**41, -1); st.assume(z3.And(x.pre.has(s.s0), s.s0 >= s.fk, s.s0 <= s.last[0], x.pre.size(s.s0) > z3.If(s.s0 == s.fk, s.fi, 0)))
        st.assume(z3.Implies(s.s0 == s.last[0], s.last[1] > z3.If(s.s0 == s.fk, s.fi, 0)))
class CPlan:
    def __init__(s, E, st, c, x, R, hp):
        s.c = c; s.x = x; s.R = R; s.hp = hp; I = z3.IntSort(); s.q = z3.Int('q!cp')
        s.cp = cp = z3.Function('segment_of_type', I, I); t, l = z3.Ints('t!cp l!cp'); X = x.pre
        st.assume(z3.ForAll([t], z3.Or(cp(t) == 1, z3.And(X.has(cp(t)), X.typ(cp(t)) == t)), patterns=[cp(t)]))
        st.assume(z3.ForAll([l], z3.Implies(X.has(l), cp(X.typ(l)) == l), patterns=[X.c[FIRST].get(l)[1]]))
    def base(s, k, N=None, f=None):
        N = zi(s.c.pre.N) if N is None else N; f = f or s.c.pre.size
        return z3.If(k >= -N, f(k), 0)
    def m(s, S, k, j):
        ck, ci = j; q = s.cp(S.typ(k)); b = z3.If(q == s.R.fk, s.R.fi, 0); X = s.x.pre
        return z3.If(z3.Or(q == 1, q < s.R.fk), 0, z3.If(q < ck, X.size(q)-b, z3.If(q == ck, ci-b, 0)))
    def i0(s, k): return z3.If(k == zi(s.hp.k), zi(s.hp.i), s.base(k)) if s.hp is not None else s.base(k)
    def val(s, S, k, i, j):
        i0, m = s.i0(k), s.m(S, k, j); q = s.cp(S.typ(k)); v = s.c.pre.val
        return z3.If(i < i0, v(k, i), z3.If(i < i0+m, s.x.pre.val(q, i-i0+z3.If(q == s.R.fk, s.R.fi, 0)), v(k, i-m)))
def cursor_templates(E, pl):
    n, X = pl.c.n, pl.x; ks = z3.Ints('k!u i!u')
    def prog(loop, st):
        a = b = None
        for l in loop.locs():
            e = loop.entry_val(l)
            if not isinstance(e, P): continue
            v = loop.get(l, st, loop.cur_env)
            if e.reg is X.n and len(e.key) == 1 and a is None: a = zi(v.key[0])
            if e.reg is X.n.pos and b is None: b = z3.If(a == 0, 0, zi(Lin.of(v.off).divc(v.reg.stride))) if a is not None else None
        return None if a is None or b is None else (a, b)
    def wrap(f):
        def t(E, st, loop):
            j = prog(loop, st)
            return True if j is None else f(st, loop, j)
        return t
    def tp(S, k):
        v = S.c[FIRST].get(k)[1]
        return [v] if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED else []
    def t_size(st, loop, j):
        S = snap(st, n); k = ks[0]
        return z3.ForAll([k], z3.Implies(S.has(k), S.size(k) == pl.base(k)+pl.m(S, k, j)), patterns=pats(S.c['size'], k))
    def t_val(st, loop, j):
        S = snap(st, n); k, i = ks
        return z3.ForAll([k, i], z3.Implies(z3.And(S.has(k), i >= 0, i < pl.base(k)+pl.m(S, k, j)), S.val(k, i) == pl.val(S, k, i, j)), patterns=pats(S.c['val'], k, i))
    def t_epoch(st, loop, j):
        S = snap(st, n); c0 = pl.c.pre; k = ks[0]
        if S.c['epoch'] is c0.c['epoch']: return True
        return z3.ForAll([k], z3.Implies(z3.And(c0.has(k), S.size(k) <= c0.cap(k)), z3.And(S.epoch(k) == c0.epoch(k), S.cap(k) == c0.cap(k))), patterns=pats(S.c['epoch'], k)+pats(S.c['cap'], k))
    def t_typ(st, loop, j):
        S = snap(st, n); k = ks[0]
        if S.c[FIRST] is pl.c.pre.c[FIRST]: return True
        return z3.ForAll([k], z3.Implies(pl.c.pre.has(k), S.typ(k) == pl.c.pre.typ(k)), patterns=tp(S, k))
    def t_one(st, loop, j):
        S = snap(st, n); k, i = ks
        if S.c[FIRST] is pl.c.pre.c[FIRST]: return True
        return z3.ForAll([k, i], z3.Implies(z3.And(S.has(k), k < i, i < 0), S.typ(k) != S.typ(i)), patterns=[z3.MultiPattern(tp(S, k)[0], tp(S, i)[0])] if tp(S, k) else [])
    def t_N(st, loop, j): return zi(st.ghost[('N', n.id)]) >= zi(pl.c.pre.N)
    def t_cur(st, loop, j):
        ck, ci = j; R = pl.R; lk, li = R.last
        return z3.And(z3.Or(ck == 0, z3.And(X.pre.has(ck), ci >= 0, ci < X.pre.size(ck))), z3.Or(ck > R.fk, z3.And(ck == R.fk, ci >= R.fi)), z3.Or(ck < lk, z3.And(ck == lk, ci <= li)))
    def t_seg(st, loop, j):
        S = snap(st, n); ck, ci = j; R = pl.R; k = ks[0]
        return z3.Or(ck < R.s0, z3.And(ck == R.s0, ci == z3.If(ck == R.fk, R.fi, 0)), z3.Exists([k], z3.And(S.has(k), S.typ(k) == X.pre.typ(R.s0))))
    def t_curseg(st, loop, j):
        S = snap(st, n); ck, ci = j; R = pl.R; k = ks[0]
        return z3.Or(ck == 0, ci == z3.If(ck == R.fk, R.fi, 0), z3.Exists([k], z3.And(S.has(k), S.typ(k) == X.pre.typ(ck))))
    def t_map(d):
        """parts of the source iterator agree"""
        def t(st, loop, j):
            ls = [l for l in loop.locs() if isinstance(loop.entry_val(l), P) and loop.entry_val(l).reg is X.n.pos]
            if d >= len(ls): return True
            v = loop.get(ls[d], st, loop.cur_env)
            return z3.If(j[0] == 0, zi(v.key[0]) == NULLKEY, z3.And(zi(v.key[0]) == j[0], zi(v.key[1]) == X.pre.epoch(j[0])))
        return t
    def t_pos(d):
        def t(st, loop, j):
            if pl.hp is None: return True
            ls = [l for l in loop.locs() if isinstance(loop.entry_val(l), P) and loop.entry_val(l).reg is n.pos]
            if d >= len(ls): return True
            S = snap(st, n); v = loop.get(ls[d], st, loop.cur_env); kz = zi(pl.hp.k)
            return z3.And(zi(v.key[0]) == kz, zi(v.key[1]) == S.epoch(kz), zi(Lin.of(v.off).divc(v.reg.stride)) == zi(pl.hp.i)+pl.m(S, kz, j))
        return t
    E.inv_templates += [(nm, wrap(f)) for nm, f in (('cur range', t_cur), ('cur N', t_N), ('cur typ', t_typ), ('cur one', t_one), ('cur size', t_size), ('cur val', t_val), ('cur epoch', t_epoch), ('cur seg', t_seg), ('cur curseg', t_curseg), ('cur map0', t_map(0)), ('cur map1', t_map(1)), ('cur pos0', t_pos(0)), ('cur pos1', t_pos(1)))]+[('valid', tmpl_valid)]

def check_erased(E, st, c, k, i, m, kk, tag, props=('C04',)):
    """m elements from i on were removed from segment k, nothing else"""
    valid(E, st, c, tag); unchanged(E, st, c, tag, ('C04', 'C08'), but=k, N=c.pre.N)
    if kk == 'throw': return
    post = snap(st, c.n); q = fresh_int('q')
    E.oblige(st, z3.And(post.size(k) == c.pre.size(k)-zi(m), post.typ(k) == c.pre.typ(k)), tag+':size', props)
    s2 = st.copy().assume(z3.And(q >= 0, q < c.pre.size(k)-zi(m)))
    E.oblige(s2, post.val(k, q) == z3.If(q < zi(i), c.pre.val(k, q), c.pre.val(k, q+zi(m))), tag+':elements', props)
def erasure():
    @job('erase(pos)', ('C04', 'C08', 'C01'))
    def _(E):
        st = State(); c = Coll(E, st); p = Pos(E, st, c); x = mk_it(E, st, c, p.k, p.i); o = obj(E, st, 'o', 64)
        for st, kk, r in call(E, st, 'd_erase', [o, c.p, x]):
            check_erased(E, st, c, p.k, p.i, 1, kk, 'after')
            if kk == 'throw': continue
            s1 = st.copy().assume(zi(p.i)+1 < c.pre.size(p.k))
            if E.feasible(s1): check_at(E, s1, o, c, p.k, p.i, 'result', ('C04',))
            s1 = st.copy().assume(zi(p.i)+1 == c.pre.size(p.k))
            if E.feasible(s1): check_first_from(E, s1, o, c, add(p.k, 1), 'result', ('C04',))
    for w, d in (('lb', 'local_base_iterator'), ('lt', 'local_iterator')):
        for cst in ('', 'c'):
            @job('erase(%s%s)' % ('const_' if cst else '', d), ('C04', 'C08'))
            def _(E, w=w, cst=cst):
                st = State(); c = Coll(E, st); p = Pos(E, st, c); L = getattr(c.L, w); o = obj(E, st, 'o', 64)
                if w == 'lt': st.assume(c.pre.typ(p.k) == TYP(E.pair(tdesc(E, st, 'C'))))
                x = mk_it(E, st, c, p.k, p.i, L)
                for st, kk, r in call(E, st, 'd_erase_'+cst+w, [o, c.p, x]):
                    check_erased(E, st, c, p.k, p.i, 1, kk, 'after')
                    if kk == 'ret': check_local(E, st, o, c, L, 'result', ('C04',), p.k, p.i)
            @job('erase(%s%s range)' % ('const_' if cst else '', d), ('C04', 'C08'))
            def _(E, w=w, cst=cst):
                st = State(); c = Coll(E, st); p = Pos(E, st, c, 'p', True); q = Pos(E, st, c, 'q', True); L = getattr(c.L, w); o = obj(E, st, 'o', 64)
                st.assume(z3.And(zi(q.k) == zi(p.k), zi(p.i) <= zi(q.i)))
                if w == 'lt': st.assume(c.pre.typ(p.k) == TYP(E.pair(tdesc(E, st, 'C'))))
                x = mk_it(E, st, c, p.k, p.i, L); y = mk_it(E, st, c, p.k, q.i, L)
                for st, kk, r in call(E, st, 'd_erase_range_'+cst+w, [o, c.p, x, y]):
                    check_erased(E, st, c, p.k, p.i, sub(q.i, p.i), kk, 'after')
                    if kk == 'ret': check_local(E, st, o, c, L, 'result', ('C04',), p.k, p.i)
    for nm in ('one segment', 'several segments', 'up to the end', 'at the end'):
        @job('erase(range), '+nm, ('C04', 'C08', 'C05'))
        def _(E, nm=nm):
            st = State(); c = Coll(E, st); extra_templates(E); o = obj(E, st, 'o', 64); p = Pos(E, st, c); q = Pos(E, st, c, 'q')
            x = mk_it(E, st, c, p.k, p.i); y = mk_it(E, st, c, q.k, q.i)
            if nm == 'one segment': st.assume(z3.And(zi(p.k) == zi(q.k), zi(p.i) <= zi(q.i)))
            elif nm == 'several segments': st.assume(zi(p.k) < zi(q.k))
            else: y = mk_end(E, st, c)
            if nm == 'at the end': x = mk_end(E, st, c)
            for st, kk, r in call(E, st, 'd_erase_range', [o, c.p, x, y]):
                if nm == 'at the end':
                    nothrow(E, st, kk); unchanged(E, st, c, 'after', ('C04',), N=c.pre.N); check_first_from(E, st, o, c, 0, 'result', ('C04',)); continue
                if nm == 'one segment':
                    check_erased(E, st, c, p.k, p.i, sub(q.i, p.i), kk, 'after')
                    if kk == 'ret': check_at(E, st, o, c, p.k, p.i, 'result', ('C04',))
                    continue
                valid(E, st, c, 'after'); post = snap(st, c.n); g, i = fresh_int('g'), fresh_int('i')
                E.oblige(st, zi(post.N) == zi(c.pre.N), 'segments-stay-registered', ('C04', 'C05'))
                last = zi(q.k) if nm == 'several segments' else z3.IntVal(0)
                s2 = st.copy().assume(z3.And(c.pre.has(g), z3.Or(g < zi(p.k), g > last)))
                E.oblige(s2, z3.And(post.size(g) == c.pre.size(g), post.typ(g) == c.pre.typ(g), post.epoch(g) == c.pre.epoch(g)), 'other-segments', ('C04', 'C08'))
                s2.assume(z3.And(i >= 0, i < c.pre.size(g))); E.oblige(s2, post.val(g, i) == c.pre.val(g, i), 'other-segments:elements', ('C04', 'C08'))
                if kk == 'throw': continue
                E.oblige(st, post.size(p.k) == zi(p.i), 'first-segment:size', ('C04',))
                s2 = st.copy().assume(z3.And(i >= 0, i < zi(p.i))); E.oblige(s2, post.val(p.k, i) == c.pre.val(p.k, i), 'first-segment:elements', ('C04',))
                s2 = st.copy().assume(z3.And(g > zi(p.k), g < last)); E.oblige(s2, z3.And(post.size(g) == 0, post.typ(g) == c.pre.typ(g)), 'segments-in-between-cleared', ('C04',))
                if nm == 'several segments':
                    E.oblige(st, post.size(q.k) == c.pre.size(q.k)-zi(q.i), 'last-segment:size', ('C04',))
                    s2 = st.copy().assume(z3.And(i >= 0, i < c.pre.size(q.k)-zi(q.i))); E.oblige(s2, post.val(q.k, i) == c.pre.val(q.k, i+zi(q.i)), 'last-segment:elements', ('C04',))
                    check_at(E, st, o, c, q.k, 0, 'result', ('C04',))
                else: check_first_from(E, st, o, c, 0, 'result', ('C04',))

def other(E, st, x, name='y'):
    return Coll(E, st, name)
def contents(E, st, c, pre, tag, props):
    """c holds the segments and elements of pre"""
    n = c.nodes(st)
    E.oblige(st, z3.BoolVal(n is not None and st.rs(n).alive is True), tag+':is-a-collection', props)
    if n is None: return
    post = snap(st, n); q, i = fresh_int('q'), fresh_int('i')
    E.oblige(st, zi(post.N) == zi(pre.N), tag+':number-of-segments', props)
    s2 = st.copy().assume(pre.has(q)); E.oblige(s2, z3.And(post.typ(q) == pre.typ(q), post.size(q) == pre.size(q), post.cap(q) >= post.size(q)), tag+':segments', props)
    s2.assume(z3.And(i >= 0, i < pre.size(q))); E.oblige(s2, post.val(q, i) == pre.val(q, i), tag+':elements', props)
def own_once(E, st, cs, tag='after'):
    ns = [c.nodes(st) for c in cs]; ns = [n for n in ns if n is not None]
    E.oblige(st, z3.BoolVal(len(set(map(id, ns))) == len(ns) and all(st.rs(n).alive is True for n in ns)), tag+':segments-owned-once', ('C10', 'C06'))
    live = [r for r in st.mem if getattr(r, 'isnodes', False) and st.rs(r).alive is True and r not in ns]
    E.oblige(st, z3.BoolVal(not live), tag+':no-segment-lost', ('C10',))
def al_of(st, c): return st.rs(c.reg).cells.get(('al', c.L.mo))
def whole():
    PR = ('C06', 'C08', 'C10')
    for nm, drv in (('constructor', 'd_ctor'), ('constructor(al)', 'd_ctor_al')):
        @job(nm, ('C06', 'C05'))
        def _(E, drv=drv):
            layout(E); st = State(); c = Coll(E, st, fill=False); args = [c.p]
            if drv.endswith('al'): args.append(obj(E, st, 'al', 8))
            for st, kk, r in call(E, st, drv, args):
                if kk != 'ret': own_once(E, st, [c]); continue
                n = c.nodes(st); E.oblige(st, z3.BoolVal(n is not None), 'is-a-collection', ('C06',))
                if n is not None: E.oblige(st, zi(st.ghost[('N', n.id)]) == 0, 'empty', ('C06', 'C05'))
    def ctor(nm, drv, move):
        @job(nm, PR+(() if move else ('C16',)))
        def _(E):
            layout(E); st = State(); x = Coll(E, st, 'x'); c = Coll(E, st, 'c', fill=False); args = [c.p, x.p]
            if drv.endswith('al'): args.append(obj(E, st, 'al', 8))
            if not move: E.frozen = x.frozen()
            for st, kk, r in call(E, st, drv, args):
                if kk == 'throw':
                    valid(E, st, x, 'source-after-exception'); own_once(E, st, [x, c], 'after-exception')
                    if not move: contents(E, st, x, x.pre, 'source-after-exception', PR)
                    continue
                contents(E, st, c, x.pre, 'result', ('C06',)); valid(E, st, c, 'result'); valid(E, st, x, 'source'); own_once(E, st, [x, c])
                if move: E.oblige(st, zi(st.ghost[('N', x.nodes(st).id)]) == 0 if x.nodes(st) is not None else z3.BoolVal(False), 'source:empty', ('C06',))
                else: contents(E, st, x, x.pre, 'source', ('C06', 'C16'))
    ctor('copy', 'd_copy', False); ctor('copy(al)', 'd_copy_al', False); ctor('move', 'd_move', True); ctor('move(al)', 'd_move_al', True)
    def asg(nm, drv, move, self_):
        @job(nm, PR)
        def _(E):
            layout(E); st = State(); c = Coll(E, st, 'c'); x = c if self_ else Coll(E, st, 'x')
            if not move and not self_: E.frozen = x.frozen()
            for st, kk, r in call(E, st, drv, [c.p, x.p]):
                cs = [c] if self_ else [c, x]
                own_once(E, st, cs); valid(E, st, c, 'target')
                if not self_:
                    valid(E, st, x, 'source')
                    if not move: contents(E, st, x, x.pre, 'source', PR)
                if kk == 'throw': continue
                contents(E, st, c, x.pre, 'target', ('C06',))
                if move and not self_: E.oblige(st, zi(st.ghost[('N', x.nodes(st).id)]) == 0, 'source:empty', ('C06',))
    asg('operator=(const&)', 'd_assign', False, False); asg('operator=(&&)', 'd_move_assign', True, False)
    asg('operator=(const&) of itself', 'd_assign', False, True); asg('operator=(&&) of itself', 'd_move_assign', True, True)
    for nm, drv in (('swap', 'd_swap'), ('free swap', 'd_fswap')):
        @job(nm, PR)
        def _(E, drv=drv):
            layout(E); st = State(); c = Coll(E, st, 'c'); x = Coll(E, st, 'x')
            for st, kk, r in call(E, st, drv, [c.p, x.p]):
                if not nothrow(E, st, kk): continue
                own_once(E, st, [c, x]); contents(E, st, c, x.pre, 'first', ('C06',)); contents(E, st, x, c.pre, 'second', ('C06',))
    @job('destructor', ('C10',))
    def _(E):
        layout(E); st = State(); c = Coll(E, st, 'c')
        for st, kk, r in call(E, st, 'd_dtor', [c.p]):
            if nothrow(E, st, kk): E.oblige(st, z3.BoolVal(st.rs(c.n).alive is False), 'segments-released', ('C10',))
    equality()

def equality():
    for nm, drv in (('operator==', 'd_equal'), ('operator!=', 'd_notequal')):
        @job(nm, ('C07', 'C16'))
        def _(E, drv=drv):
            layout(E); st = State(); x = Coll(E, st, 'x'); y = Coll(E, st, 'y'); E.frozen = x.frozen() | y.frozen()
            X, Y = x.pre, y.pre
            PX = sums(E, st, x); PY = sums(E, st, y)
            I = z3.IntSort(); R = z3.Function('rest', I, I); cp = z3.Function('counterpart', I, I); cq = z3.Function('counterpart_back', I, I); rm = z3.Function('rest_member', I, I)
            k, l, q = z3.Ints('k!q l!q q!q'); A = st.assume; ty = lambda S, k: S.c[FIRST].get(k)[1]
            # cp(k): the segment of y of the type of segment k of x, or 1 (there is at most one); cq: back
            for S, T, f, nm in ((X, Y, cp, 'x'), (Y, X, cq, 'y')):
                A(z3.ForAll([k], z3.Implies(S.has(k), z3.Or(f(k) == 1, z3.And(T.has(f(k)), S.typ(k) == T.typ(f(k)), z3.BoolVal(True)))), patterns=[f(k)]))
                A(z3.ForAll([k, l], z3.Implies(z3.And(S.has(k), T.has(l), S.typ(k) == T.typ(l)), f(k) == l), patterns=[z3.MultiPattern(f(k), ty(T, l))]))
            A(z3.ForAll([k], z3.Implies(z3.And(X.has(k), cp(k) != 1), cq(cp(k)) == k), patterns=[cp(k)]))
            A(z3.ForAll([k], z3.Implies(z3.And(Y.has(k), cq(k) != 1), cp(cq(k)) == k), patterns=[cq(k)]))
            # rest(k): number of elements of y in segments without a counterpart among the segments of x before k
            A(R(-zi(X.N)) == PY(0))
            A(z3.ForAll([k], z3.Implies(X.has(k), R(k+1) == R(k)-z3.If(cp(k) == 1, 0, Y.size(cp(k)))), patterns=[X.size(k)]))
            A(z3.ForAll([k, l], z3.Implies(z3.And(Y.has(l), k >= -zi(X.N), k <= 0, z3.Not(cq(l) < k)), R(k) >= Y.size(l)), patterns=[z3.MultiPattern(R(k), Y.size(l))]))
            A(z3.ForAll([k], z3.Implies(z3.And(k >= -zi(X.N), k <= 0), z3.And(R(k) >= 0, z3.Implies(R(k) > 0, z3.And(Y.has(rm(k)), Y.size(rm(k)) > 0, cq(rm(k)) >= k)))), patterns=[R(k)]))
            ok_size = lambda k: z3.If(cp(k) == 1, X.size(k) == 0, X.size(k) == Y.size(cp(k)))
            ok_val = lambda k, q: z3.Implies(z3.And(cp(k) != 1, q >= 0, q < X.size(k)), EQ(X.val(k, q), Y.val(cp(k), q)))
            def xl(loop):
                ls = [v for v in node_locs(loop) if v[1].reg is x.n]
                return ls[0] if ls else None
            def t_size(d):
                def t(E, st, loop):
                    v = xl(loop)
                    if v is None: return True
                    cur = zi(loop.get(v[0], st, loop.cur_env).key[0])+d
                    return z3.ForAll([k], z3.Implies(z3.And(X.has(k), k < cur), ok_size(k)), patterns=[X.size(k)])
                return t
            def t_val(d):
                def t(E, st, loop):
                    v = xl(loop)
                    if v is None: return True
                    cur = zi(loop.get(v[0], st, loop.cur_env).key[0])+d
                    return z3.ForAll([k, q], z3.Implies(z3.And(X.has(k), k < cur), ok_val(k, q)), patterns=[X.val(k, q)])
                return t
            def t_rest(m, d):
                def t(E, st, loop):
                    v = xl(loop); il = int_locs(loop)
                    if v is None or m >= len(il): return True
                    cur = zi(loop.get(v[0], st, loop.cur_env).key[0])+d
                    return zi(loop.get(il[m], st, loop.cur_env))+R(cur) == PY(0)
                return t
            for d in (0, 1): E.inv_templates += [('sizes%d' % d, t_size(d)), ('values%d' % d, t_val(d))]+[('rest%d%d' % (m, d), t_rest(m, d)) for m in range(3)]
            for st, kk, r in call(E, st, drv, [x.p, y.p]):
                if kk != 'ret': continue
                r = zb(r)
                if drv == 'd_notequal': r = z3.Not(r)
                a, b, c = z3.Int(fresh_name('a')), z3.Int(fresh_name('b')), z3.Int(fresh_name('c'))
                sT = st.copy().assume(r); sT.assume(z3.And(X.size(a) >= 0, Y.size(b) >= 0, R(0) >= 0, PX(0) >= 0, PY(0) >= 0))
                if E.feasible(sT):
                    s2 = sT.copy().assume(z3.And(X.has(a), Y.has(b), X.typ(a) == Y.typ(b), cp(a) == cp(a), X.val(a, c) == X.val(a, c)))
                    E.oblige(s2, z3.And(ok_size(a), X.size(a) == Y.size(b)), 'equal-only-if:sizes-match', ('C07',))
                    s2.assume(z3.And(c >= 0, c < X.size(a), X.val(a, c) == X.val(a, c), cp(a) == b)); E.oblige(s2, EQ(X.val(a, c), Y.val(b, c)), 'equal-only-if:elements-match', ('C07',))
                    s2 = sT.copy().assume(z3.And(X.has(a), cp(a) == 1)); E.oblige(s2, X.size(a) == 0, 'equal-only-if:nothing-missing-in-the-second', ('C07',))
                    s2 = sT.copy().assume(z3.And(Y.has(b), cq(b) == 1)); E.oblige(s2, Y.size(b) == 0, 'equal-only-if:nothing-missing-in-the-first', ('C07',))
                sF = st.copy().assume(z3.Not(r))
                if E.feasible(sF):
                    sF.assume(z3.ForAll([k, q], z3.Implies(X.has(k), ok_val(k, q)), patterns=[X.val(k, q)]))
                    sF.assume(z3.ForAll([k], z3.Implies(X.has(k), ok_size(k)), patterns=[X.size(k)]))
                    sF.assume(z3.ForAll([l], z3.Implies(z3.And(Y.has(l), cq(l) == 1), Y.size(l) == 0), patterns=[Y.size(l)]))
                    sF.assume(z3.And(R(0) >= 0, PY(0) >= 0))
                    E.oblige(sF, False, 'equal-if-all-segments-match', ('C07',))
build()
