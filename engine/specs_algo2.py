"""Algorithms defined through other algorithms, checked against the contracts of the
latter (proved by the jobs of specs_algo), and the ones that keep state from one segment
to the next."""
import re, z3
import specs_algo as A_
from specs_algo import *
from specs_algo import job as _job

# ------------------------------------------------------------------ iterators as numbers
def put(E, st, o, g):
    """the object at o becomes the iterator with number g"""
    a = E.A; L = a.c.L.it; n = a.n; pre = a.c.pre
    E.write_guard(st, o)
    k, i = fresh_int('at_k'), fresh_int('at_i')
    st.assume(z3.Or(z3.And(k == 0, i == 0, g == a.PS(0)), z3.And(pre.has(k), i >= 0, i < pre.size(k), g == a.num(k, i))))
    a.segment_facts(st, k)
    # the numbering is strictly increasing
    for k2 in list(a.keys)+[a.fk, a.lk]: st.assume(order_facts(a, k, k2))
    a.keys.append(k)
    rs = st.w(o.reg)
    rs.cells[o.off+L['map']] = (8, P(n, 0, (Lin.of(k),))); rs.cells[o.off+L['end']] = (8, P(n, 0, (0,)))
    rs.cells[o.off+L['pos']] = (8, P(n.pos, scale(Lin.of(i), n.pos.stride), (Lin.of(z3.If(k == 0, NULLKEY, k)), Lin.of(z3.If(k == 0, 0, pre.epoch(k))))))
    if 'stride' in L: rs.cells[o.off+L['stride']] = (8, Lin.of(E.W.stride(TYP(st.rs(n).cells[FIRST].get(k)))))
    return k, i
def order_facts(a, k, k2):
    PS = a.PS; N = zi(a.c.pre.N)
    return z3.Implies(z3.And(k >= -N, k2 >= -N, k <= 0, k2 <= 0), z3.And(z3.Implies(k < k2, PS(k)+a.c.pre.size(k) <= PS(k2)), z3.Implies(k2 < k, PS(k2)+a.c.pre.size(k2) <= PS(k))))
def it_size(E): return max(E.A.c.L.it.values())+8
def position_at(E, st, o, tag):
    """[(state, number)] of the iterator at o"""
    return position_of(E, st, o, tag)
def two(E, st, p, q):
    """[(state, number at p, number at q)]: a range within the collection"""
    out = []
    for s1, x in position_at(E, st, p, 'first'):
        for s2, y in position_at(E, s1, q, 'last'):
            E.oblige(s2, x <= y, 'range-in-order'); out.append((s2, x, y))
    return out
def restitutes(E, st, info, name):
    r = re.search(r'algorithm::%s<(D, C, )?' % name, info['dem']).group(1)
    E.oblige(st, z3.BoolVal(bool(r) == bool(E.A.rest)), 'types-to-restitute-are-passed-on')
def x_end(E, st, p, at0):
    """p is the beginning (end) of the other sequence"""
    a = E.A; ok = isinstance(p, P) and p.reg is a.xr
    E.oblige(st, z3.BoolVal(ok), 'other-sequence')
    if not ok: return None
    i, inner = E.split_off(st, p.reg, p.off)
    E.oblige(st, zi(i) == (0 if at0 else a.m), 'other-sequence:'+('begin' if at0 else 'end'))
    return True
def C3(name, h): return (re.compile(r'^[^(]*?\bboost::poly_collection::detail::algorithm::%s<' % name), stdc.C('algorithm %s (proved: algorithm.%s)' % (name, name), h))
def alg(name, h):
    """contract of a call of algorithm::name"""
    def f(E, st, args, info):
        restitutes(E, st, info, name); return h(E, st, args, info)
    class M:
        def match(s, d): 
            i = d.find('boost::poly_collection::detail::algorithm::%s<' % name)
            return True if i >= 0 and balanced(d[:i]) else None
        search = match
    return (M(), stdc.C('algorithm %s (proved by its own job)' % name, f))
def balanced(s):
    d = 0
    for c in s:
        if c in '<({[': d += 1
        elif c in '>)}]': d -= 1
    return d == 0
def inc_number(E):
    """++ of an iterator, in numbers: the number of the next element is one more (consequence of 'collection.iterator ++')"""
    L = layout(E).it
    def h(E, st, args, info):
        out = []
        for s1, g in position_at(E, st, args[0], '++'):
            E.oblige(s1, g < E.A.PS(0), '++:not-at-the-end'); put(E, s1, args[0], g+1); out.append((s1, 'ret', None))
        return out
    return (re.compile(r'^void boost::iterators::iterator_core_access::increment<boost::poly_collection::detail::iterator_impl<'), stdc.C('iterator ++ (proved: collection.iterator ++)', h))

def iterators(E, loop, st):
    """[(number, valid)] of the iterator objects the loop modifies"""
    a = E.A; L = a.c.L.it; out = []
    for l in pos_locs(loop, a):
        if l[0] != 'cell': continue
        r, b = l[1], l[2]-L['pos']; p = loop.get(l, st, loop.cur_env)
        c = st.rs(r).cells.get(b+L['map']); m = c and c[1]
        if not (isinstance(m, P) and m.reg is a.n and isinstance(p, P)): continue
        k, pk, i, pre = zi(m.key[0]), zi(p.key[0]), zi(Lin.of(p.off).divc(p.reg.stride)), a.c.pre
        out.append((z3.If(k == 0, a.PS(0), a.num(k, i)), z3.Or(z3.And(k == 0, pk == NULLKEY, i == 0), z3.And(pre.has(k), pk == k, zi(p.key[1]) == pre.epoch(k), i >= 0, i < pre.size(k)))))
    return out
def it_templates(extra):
    """extra: [(name, arity, f(a, st, numbers...))]"""
    def more(E, a):
        T = []
        def t(js, f, valid=False):
            def g(E, st, loop):
                its = iterators(E, loop, st)
                if max(js) >= len(its): return True
                return its[js[0]][1] if valid else f(a, st, *[its[j][0] for j in js])
            return g
        for j in range(3):
            T.append(('it%d valid' % j, t((j,), None, True)))
            T.append(('it%d range' % j, t((j,), lambda a, st, x: z3.And(x >= a.g0, x <= a.g1))))
        for nm, n, f in extra:
            for js in ([(j,) for j in range(3)] if n == 1 else [(i, j) for i in range(3) for j in range(3) if i != j]):
                T.append((nm+str(js), t(js, f)))
        return T
    return more
def job(name, props, cons=lambda E: [], **kw):
    """cons: contracts in place of the bodies of other algorithms"""
    def deco(fn):
        def g(E, a):
            a.keys = []; old = E.contracts; E.contracts = cons(E)+old
            E.cc = {}
            try: fn(E, a)
            finally: E.contracts = old; E.cc = {}
        return _job(name, props, **kw)(g)
    return deco

# ------------------------------------------------------------------
def build():
    Q14, Q15 = ('C14',), ('C15',)
    # rotate_copy
    def h_copy(E, st, args, info):
        a = E.A; out = []
        for s1, x, y in two(E, st, args[0], args[1]):
            j = s1.ghost['calls']; want = [(a.gm, a.g1), (a.g0, a.gm)]
            E.oblige(s1, z3.BoolVal(j < 2), 'two-parts')
            if j >= 2: continue
            O = zi(s1.ghost['O0'])
            E.oblige(s1, z3.And(x == want[j][0], y == want[j][1]), 'parts-in-order'); E.oblige(s1, zi(args[2]) == a.o[0]+O, 'output-position')
            out.append(stdc.throw(s1.copy(), 'output'))
            s1.ghost['calls'] = j+1; s1.ghost['O0'] = Lin.of(z3.simplify(O+y-x)); out.append((s1, 'ret', Lin.of(a.o[0]+O+y-x)))
        return out
    @job('rotate_copy', Q15, lambda E: [alg('copy', h_copy)])
    def _(E, a):
        st = a.st; o = obj(E, st, 'o', 8); m = obj(E, st, 'm', 64); a.gm = fresh_int('gm'); st.assume(z3.And(a.gm >= a.g0, a.gm <= a.g1))
        put(E, st, m, a.gm); st.ghost['calls'] = 0
        for s1, r in rets(E, st, 'd_rotate_copy', [o, a.f, m, a.l, a.out()]):
            E.oblige(s1, z3.BoolVal(s1.ghost['calls'] == 2), 'both-parts'); finish(E, s1, a, o, a.g1-a.g0)
    # is_partitioned
    def h_find_if_not(E, st, args, info):
        a = E.A; out = []
        for s1, x, y in two(E, st, args[1], args[2]):
            E.oblige(s1, z3.And(x == a.g0, y == a.g1), 'looks-at-the-whole-range'); out.append(stdc.throw(s1.copy(), 'predicate'))
            r = fresh_int('found'); q = z3.Int(fresh_name('q'))
            s1.assume(z3.And(r >= x, r <= y, z3.Implies(r < y, z3.Not(PR(r))))); s1.assume(z3.ForAll([q], z3.Implies(z3.And(q >= x, q < r), PR(q)), patterns=[PR(q)]))
            s1.ghost['r'] = Lin.of(r); put(E, s1, args[0], r); out.append((s1, 'ret', None))
        return out
    def h_none_of(E, st, args, info):
        a = E.A; out = []
        for s1, x, y in two(E, st, args[0], args[1]):
            out.append(stdc.throw(s1.copy(), 'predicate'))
            b = fresh_bool('none'); q = z3.Int(fresh_name('q')); w = fresh_int('w')
            s1.assume(z3.If(b, z3.ForAll([q], z3.Implies(z3.And(q >= x, q < y), z3.Not(PR(q))), patterns=[PR(q)]), z3.And(w >= x, w < y, PR(w))))
            out.append((s1, 'ret', b))
        return out
    @job('is_partitioned', Q14, lambda E: [alg('find_if_not', h_find_if_not), alg('none_of', h_none_of), inc_number(E)])
    def _(E, a):
        for st, r in rets(E, a.st, 'd_is_partitioned', [a.f, a.l]):
            p, q = fresh_int('p'), fresh_int('q')
            s1 = st.copy().assume(zb(r))
            if E.feasible(s1): E.oblige(s1.assume(z3.And(p >= a.g0, p < q, q < a.g1, PR(q))), PR(p), 'true:only-if-partitioned')
            s1 = st.copy().assume(z3.Not(zb(r)))
            if E.feasible(s1):
                p, q = z3.Ints(fresh_name('p')+' '+fresh_name('q'))
                E.oblige(s1.assume(z3.ForAll([p, q], z3.Implies(z3.And(p >= a.g0, p < q, q < a.g1, PR(q)), PR(p)), patterns=[z3.MultiPattern(PR(p), PR(q))])), False, 'false:only-if-not-partitioned')
    # search: PR(g) stands for "the other sequence occurs at g (within the range)"
    def h_mismatch(E, st, args, info):
        """second == last2 iff the other sequence occurs at first (consequence of mismatch's contract)"""
        a = E.A; out = []
        for s1, x, y in two(E, st, args[1], args[2]):
            if x_end(E, s1, args[3], True) is None or x_end(E, s1, args[4], False) is None: continue
            E.oblige(s1, y == a.g1, 'looks-to-the-end-of-the-range'); out.append(stdc.throw(s1.copy(), 'predicate'))
            visit(E, s1, x); i = fresh_int('i')
            s1.assume(z3.And(i >= 0, i <= a.m, x+i <= y, (i == a.m) == PR(x)))
            put(E, s1, args[0], x+i)
            rs = s1.w(args[0].reg); rs.cells[args[0].off+it_size(E)] = (8, P(a.xr, scale(Lin.of(i), 16))); out.append((s1, 'ret', None))
        return out
    @job('search', Q14, lambda E: [alg('mismatch', h_mismatch)])
    def _(E, a):
        x, y = a.other(); o = obj(E, a.st, 'o', 64)
        for st, r in rets(E, a.st, 'd_search', [o, a.f, a.l, x, y]):
            for s1, p in position_of(E, st, o):
                E.oblige(s1, z3.And(p >= a.g0, p <= a.g1), 'result:in-the-range')
                oblige_all(E, s1, a.g0, p, lambda q: z3.Not(PR(q)), 'result:nothing-before')
                s2 = s1.copy().assume(p < a.g1)
                if E.feasible(s2): E.oblige(s2, PR(p), 'result:found')
    # find_end
    def h_search(E, st, args, info):
        a = E.A; out = []
        for s1, x, y in two(E, st, args[1], args[2]):
            if x_end(E, s1, args[3], True) is None or x_end(E, s1, args[4], False) is None: continue
            E.oblige(s1, y == a.g1, 'looks-to-the-end-of-the-range'); out.append(stdc.throw(s1.copy(), 'predicate'))
            r = fresh_int('found'); q = z3.Int(fresh_name('q'))
            s1.assume(z3.And(r >= x, r <= y, z3.Implies(r < y, PR(r)))); s1.assume(z3.ForAll([q], z3.Implies(z3.And(q >= x, q < r), z3.Not(PR(q))), patterns=[PR(q)]))
            put(E, s1, args[0], r); out.append((s1, 'ret', None))
        return out
    @job('find_end', Q14, lambda E: [alg('search', h_search), inc_number(E)])
    def _(E, a):
        x, y = a.other(); o = obj(E, a.st, 'o', 64); q = z3.Int('q!fe')
        a.more = it_templates([('found or end', 1, lambda a, st, x: z3.Or(x == a.g1, PR(x))),
            ('nothing between', 2, lambda a, st, x, y: z3.ForAll([q], z3.Implies(z3.And(z3.If(x == a.g1, q >= a.g0, q > x), q < y), z3.Not(PR(q))), patterns=[PR(q)]))])
        for st, r in rets(E, a.st, 'd_find_end', [o, a.f, a.l, x, y]):
            for s1, p in position_of(E, st, o):
                E.oblige(s1, z3.And(p >= a.g0, p <= a.g1), 'result:in-the-range')
                E.oblige(s1.copy().assume(a.m == 0), p == a.g1, 'empty:the-end')
                s2 = s1.copy().assume(z3.And(a.m > 0, p < a.g1))
                if E.feasible(s2): E.oblige(s2, PR(p), 'result:found')
                q = fresh_int('q'); s2 = s1.copy().assume(z3.And(a.m > 0, z3.If(p == a.g1, q >= a.g0, q > p), q < a.g1)); E.oblige(s2, z3.Not(PR(q)), 'result:nothing-after')
