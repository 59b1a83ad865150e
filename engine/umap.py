"""Assumed contract of std::unordered_map (libstdc++).  The content of a map is a
sequence of nodes k=0..N-1 (the order carries no meaning: insertion appends
without loss of generality), each with a key, which denotes type TY(key), and a
mapped value; nodes never move.  Two nodes of the segment map never denote the
same type, two of the cache never have the same key pointer."""
import re, z3
from ll import Unsupported
from core import *
from symex import size_var
from stdc import C as Contract, throw, params_of

TY = z3.Function('type_of_descriptor', z3.IntSort(), z3.IntSort())
SN = 64; FIRST = 8; SECOND = 16; SD = 16

def split_um(dem):
    """(template arguments text, member text) when dem is an unordered_map member"""
    i = 0; d = 0; n = len(dem); key = 'std::unordered_map<'
    while i < n:
        if d == 0 and dem.startswith(key, i) and (i == 0 or dem[i-1] == ' '):
            j = i+len(key); dd = 1
            while dd:
                if dem[j] in '<([{': dd += 1
                elif dem[j] in '>)]}' and not (dem[j] == '>' and dem[j-1] == '-'): dd -= 1
                j += 1
            if dem.startswith('::', j): return dem[i+len(key):j-1], dem[j+2:]
            return None
        if dem[i] in '<([{': d += 1
        elif dem[i] in '>)]}': d -= 1
        i += 1
    return None
def is_um(name, dem):
    r = split_um(dem)
    return r is not None and re.match(r'~?[a-z_]+[ <(=]|operator=', r[1]) is not None

def kind(targs): return 'cache' if re.match(r'std::type_info const\*, std::__detail::_Node_', targs) else 'map'
def propagates(targs): return re.search(r'Al<.*, true> ?> ?$', targs.strip()) is not None

# ---- descriptors
def ti_region(E):
    r = E.__dict__.get('_ti')
    if r is None: r = E._ti = E.new_region('buf', 'descriptors', stride=SD); r.opaque = True
    return r
def desc(E, st, d):
    r = ti_region(E)
    if r not in st.mem: st.mem[r] = RS(); st.rs(r).cells = {}
    return P(r, scale(Lin.of(d), SD))
def desc_id(E, p):
    """integer identity of a descriptor pointer"""
    if isinstance(p, SP): return ('sp', p)
    if p.reg is ti_region(E): return Lin.of(p.off).divc(SD).z()
    if p.reg.kind == 'glob': return z3.IntVal(1000000+p.reg.id)
    raise Unsupported('descriptor %r' % p)
def type_equal(E, st, a, b): return TY(desc_id(E, a)) == TY(desc_id(E, b))

# ---- contents
def new_content(E, st, kind_, name, n=0, cells=None):
    r = E.new_region('buf', name, stride=SN, leaves=[(FIRST, ('ptr',))]+([(SECOND, ('ptr',))] if kind_ == 'cache' else [])); r.umkind = kind_
    st.mem[r] = RS(); rs = st.rs(r); rs.len = n; rs.extra['cap'] = None
    if cells is None:
        cells = {FIRST: Fun.fresh(name+'_key', True)}
        if kind_ == 'cache': cells[SECOND] = Fun.fresh(name+'_second', True)
        else: cells['val'] = Fun.fresh(name+'_val')
    rs.cells = cells
    return r
def keyfun(E, D):
    """key leaf holding descriptors D(k)"""
    r = ti_region(E)
    f = Fun(lambda k: (z3.IntVal(r.id), SD*D(k)), True); return f
def key_at(E, st, reg, k):
    """descriptor id of node k (integer term)"""
    x = st.rs(reg).cells[FIRST].get(zi(k))
    return x
def key_id(E, st, reg, k):
    """(rid, off) -> descriptor number; all keys lie in the descriptor region"""
    x = st.rs(reg).cells[FIRST].get(zi(k))
    return DN(x[0], x[1])
# number of the descriptor at (region, offset)
DNF = z3.Function('descriptor_number', z3.IntSort(), z3.IntSort(), z3.IntSort())
def DN(rid, off):
    return DNF(rid, off)

def obj(E, st, p):
    if isinstance(p, SP): raise Unsupported('map at symbolic address')
    if not E.check_alive(st, p, 'map'): return None
    c = st.rs(p.reg).cells
    if ('um', p.off) not in c: raise Unsupported('not a map object')
    return c[('um', p.off)], c[('al', p.off)]
def put(st, p, content, al):
    rs = st.w(p.reg); rs.cells[('um', p.off)] = content; rs.cells[('al', p.off)] = al

def al_id(E, st, p):
    l = E.load(st, p, ('int', 64))
    return zi(l[0][1])

def guard(E, st, p, content=None):
    E.write_guard(st, p)
    if content is not None: E.write_guard(st, P(content, 0))

def same_key(E, st, kd, p):
    """predicate on (rid,off) pairs: equal key to pointer p"""
    if kd == 'cache':
        a = E.pair(p); return lambda x: z3.And(x[0] == a[0], x[1] == a[1])
    a = TYP(E.pair(p)); return lambda x: TYP(x) == a
def TYP(x): return TYF(x[0], x[1])
TYF = z3.Function('type_denoted', z3.IntSort(), z3.IntSort(), z3.IntSort())

def lookup(E, st, c, p):
    """[(state, node index or None)]"""
    rs = st.rs(c); kd = c.umkind; f = rs.cells[FIRST]
    pred = same_key(E, st, kd, p)
    i = size_var('node')
    s1 = st.copy().assume(z3.And(i >= 0, i < zi(rs.len), pred(f.get(i))))
    k = z3.Int(fresh_name('k'))
    s2 = st.copy().assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < zi(rs.len)), z3.Not(pred(f.get(k))))))
    out = []
    if E.feasible(s1): out.append((s1, Lin.of(i)))
    # the quantified branch: refuted only by proof
    if E.prove(s2, z3.BoolVal(False), timeout=1500) is not True: out.append((s2, None))
    return out

def append(E, st, c, keyp, second=None, val=None):
    rs = st.w(c); n = rs.len
    rs.cells = dict(rs.cells)
    rs.cells[FIRST] = rs.cells[FIRST].upd(n, E.pair(keyp))
    if second is not None: rs.cells[SECOND] = rs.cells[SECOND].upd(n, E.pair(second))
    if val is not None: rs.cells['val'] = rs.cells['val'].upd(n, val)
    rs.len = add(n, 1)
    return n

def loadp(E, st, p):
    l = E.load(st, p, ('ptr',))
    if len(l) != 1: raise Unsupported('key split')
    return l[0][1]

def copy_content(E, st, c, name):
    rs = st.rs(c)
    r = new_content(E, st, c.umkind, name, rs.len, dict(rs.cells))
    return r
def havoc_content(E, st, kd, name):
    n = size_var(name+'_n')
    r = new_content(E, st, kd, name, Lin.of(n))
    if kd == 'map': uniq(E, st, r)
    return r
def uniq(E, st, r):
    rs = st.rs(r); f = rs.cells[FIRST]
    i, j = z3.Int(fresh_name('i')), z3.Int(fresh_name('j'))
    eq = (lambda i, j: TYP(f.get(i)) == TYP(f.get(j)))
    st.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < zi(rs.len)), z3.Not(eq(i, j)))))

def um_call(E, st, args, info):
    targs, rest = split_um(info['dem'])
    kd = kind(targs); prop = propagates(targs)
    meth = re.match(r'(operator=|~?[a-z_]+)', rest).group(1)
    types = params_of(rest)
    f = E.mod.func(info['name'])
    sret = f is not None and f.sret is not None
    slot = None
    if sret: slot, args = args[0], args[1:]
    p = args[0]
    outs = []
    if meth == 'unordered_map':
        ts = [t for t in types]
        if not ts: raise Unsupported('default constructed map')
        if ts[0].startswith('std::unordered_map'):
            src = args[1]; so = obj(E, st, src)
            if so is None: return []
            c, al = so
            al2 = al_id(E, st, args[2]) if len(args) > 2 else al
            if ts[0].endswith('&&'):
                guard(E, st, src, c)
                for s1, eq in E.branch(st, True if len(args) == 2 else al2 == al):
                    if eq:
                        put(s1, p, c, al2); put(s1, src, new_content(E, s1, kd, 'emptied'), al)
                        outs.append((s1, 'ret', None))
                    else:
                        outs.append(throw(moved_out(E, s1.copy(), src, kd, al), 'unordered_map element move'))
                        put(s1, p, copy_content(E, s1, c, 'moved'), al2)
                        put(s1, src, new_content(E, s1, kd, 'emptied'), al)
                        outs.append((s1, 'ret', None))
                return outs
            outs.append(throw(st.copy(), 'unordered_map copy'))
            put(st, p, copy_content(E, st, c, 'copied'), al2)
            return outs+[(st, 'ret', None)]
        put(st, p, new_content(E, st, kd, 'fresh'), al_id(E, st, args[1]))
        return [(st, 'ret', None)]
    o = obj(E, st, p)
    if o is None: return []
    c, al = o
    rs = st.rs(c)
    if meth == '~unordered_map':
        w = st.w(p.reg); del w.cells[('um', p.off)]; del w.cells[('al', p.off)]
        x = st.w(c)
        E.oblige(st, z3.BoolVal(x.alive is True), 'released-once:map-content'); x.alive = False
        return [(st, 'ret', None)]
    if meth in ('begin', 'cbegin'): return [(st, 'ret', P(c, 0))]
    if meth in ('end', 'cend'): return [(st, 'ret', P(c, scale(rs.len, SN)))]
    if meth == 'size': return [(st, 'ret', rs.len)]
    if meth == 'empty': return [(st, 'ret', zi(rs.len) == 0)]
    if meth == 'bucket_count': return [(st, 'ret', Lin.of(size_var('buckets')))]
    if meth == 'get_allocator':
        if slot is not None: return [(x, 'ret', None) for x in E.store(st, slot, Lin.of(al), ('int', 64))]
        return [(st, 'ret', Lin.of(al))]
    if meth == 'clear':
        guard(E, st, p, c)
        w = st.w(c); w.len = 0
        return [(st, 'ret', None)]
    if meth == 'find':
        k = loadp(E, st, args[1])
        for s1, i in lookup(E, st, c, k):
            outs.append((s1, 'ret', P(c, scale(rs.len if i is None else i, SN))))
        return outs
    if meth == 'insert' and kd == 'cache':
        guard(E, st, p, c)
        k = loadp(E, st, args[1]); v = loadp(E, st, args[1].plus(8))
        outs.append(throw(st.copy(), 'unordered_map::insert'))
        for s1, i in lookup(E, st, c, k):
            if i is None: i = append(E, s1, c, k, v); ins = True
            else: ins = False
            outs.append((s1, 'ret', [P(c, scale(i, SN)), ins]))
        return outs
    if meth in ('emplace', 'try_emplace') and kd == 'map':
        guard(E, st, p, c)
        k = loadp(E, st, args[1])
        outs.append(throw(st.copy(), 'unordered_map::emplace'))
        for s1, i in lookup(E, st, c, k):
            if i is None:
                import stdc
                for s2, x in stdc.val_of(E, s1, args[2]):
                    if types[1].endswith('&&'): s2 = stdc.set_val(E, s2, args[2], fresh_int('moved'))
                    n = append(E, s2, c, k, None, x)
                    outs.append((s2, 'ret', [P(c, scale(n, SN)), True]))
            else: outs.append((s1, 'ret', [P(c, scale(i, SN)), False]))
        return outs
    if meth == 'swap':
        q = args[1]; o2 = obj(E, st, q); guard(E, st, p); guard(E, st, q)
        c2, al2 = o2
        if not prop: E.oblige(st, al == al2, 'swap-needs-equal-allocators')
        put(st, p, c2, al2 if prop else al); put(st, q, c, al if prop else al2)
        return [(st, 'ret', None)]
    if meth == 'operator=':
        src = args[1]; o2 = obj(E, st, src)
        if o2 is None: return []
        c2, al2 = o2
        guard(E, st, p, c)
        if src.reg is p.reg and src.off == p.off: return [(st, 'ret', p)]
        if types[0].endswith('&&'):
            guard(E, st, src, c2)
            for s1, tr in E.branch(st, True if prop else al == al2):
                if tr:
                    s1.w(c).alive = False
                    put(s1, p, c2, al2 if prop else al); put(s1, src, new_content(E, s1, kd, 'emptied'), al2)
                    outs.append((s1, 'ret', p))
                else:
                    ts = moved_out(E, s1.copy(), src, kd, al2); ts.w(c).alive = False
                    put(ts, p, new_content(E, ts, kd, 'cleared'), al)    # libstdc++ clears it
                    outs.append(throw(ts, 'unordered_map move assignment'))
                    s1.w(c).alive = False
                    put(s1, p, copy_content(E, s1, c2, 'moved'), al)
                    put(s1, src, new_content(E, s1, kd, 'emptied'), al2)
                    outs.append((s1, 'ret', p))
            return outs
        ts = st.copy(); ts.w(c).alive = False
        put(ts, p, new_content(E, ts, kd, 'cleared'), al2 if prop else al)    # libstdc++: cleared, with the new allocator
        outs.append(throw(ts, 'unordered_map copy assignment'))
        st.w(c).alive = False
        put(st, p, copy_content(E, st, c2, 'copied'), al2 if prop else al)
        return outs+[(st, 'ret', p)]
    raise Unsupported('unordered_map::'+rest[:60])

def moved_out(E, st, src, kd, al):
    """a failed element-wise move leaves the source valid, its contents unspecified"""
    c = st.rs(src.reg).cells[('um', src.off)]
    w = st.w(c)
    if 'val' in w.cells: w.cells = {**w.cells, 'val': Fun.fresh('mv')}
    return st

def node_inc(E, st, args, info):
    """++ on a node iterator: args[0] points to the iterator object"""
    p = args[0]
    l = E.load(st, p, ('ptr',))
    if len(l) != 1: raise Unsupported('iterator split')
    q = l[0][1]
    if not isinstance(q, P) or getattr(q.reg, 'umkind', None) is None: raise Unsupported('++ on %r' % (q,))
    k = Lin.of(q.off)
    if not E.check_alive(st, q, 'iterator'): return []
    E.oblige(st, z3.And(zi(q.off) >= 0, zi(q.off) < zi(scale(st.rs(q.reg).len, SN))), 'valid-iterator:++ before the end')
    outs = []
    for s1 in E.store(st, p, q.plus(SN), ('ptr',)):
        post = info['dem'].endswith('operator++(int)')
        outs.append((s1, 'ret', q if post else p))
    return outs

def contracts():
    return [(is_um, Contract('std::unordered_map members', um_call)),
            (re.compile(r'^std::__detail::_Node_(const_)?iterator<.*>::operator\+\+\((int)?\)$'), Contract('std::unordered_map iterator ++', node_inc)),
            (re.compile(r'^std::type_info::hash_code\(\) const$'), Contract('std::type_info::hash_code', hash_code))]
HC = z3.Function('hash_of_type', z3.IntSort(), z3.IntSort())
def hash_code(E, st, args, info):
    v = HC(TYP(E.pair(args[0]))); st.assume(z3.And(v >= 0, v < 2**64))
    return [(st, 'ret', Lin.of(v))]
