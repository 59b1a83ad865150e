"""Contracts of the algorithms over a collection.  The elements of a collection are
numbered in traversal order: element i of segment k has number PS(k)+i, PS(k) being
the number of elements of the segments before k.  The range has numbers g0..g1-1.
Functors, comparisons and output iterators are opaque; their contracts oblige the
algorithm to pass them the right element (of the restituted type, if any) at the right
time, a ghost counter G holding the number of the next element to visit and O0, O1 the
number of elements written so far."""
import re, z3
from ll import Unsupported
from core import *
from symex import size_var
import stdc, world
from world import *
import specs_coll
from specs_coll import call, obj, zb, Coll, Pos, mk_it, mk_end, cell, check_it, layout, nothrow, node_locs, int_locs, pats, inc_contract
JOBS = {}
PREFIX = ''
I = z3.IntSort(); B = z3.BoolSort()
PR = z3.Function('pred', I, B)                 # unary predicate, by number
PR2 = z3.Function('pred2', I, I, B)            # binary predicate
OPV = z3.Function('op', I, I); OPV2 = z3.Function('op2', I, I, I)
CNT = z3.Function('count_before', I, I)        # CNT(b)-CNT(a): elements of [a,b) with PR

class A:
    """collection, range and ghost counters of one run"""
    def __init__(s, E, case, rest, props):
        E.A = s; s.E = E; s.rest = rest; s.st = st = State(); s.c = c = Coll(E, st); s.n = c.n; s.props = props
        E.inv_templates = []; E.loop_coefs = (4,)
        if rest: st.assume(TYP(E.pair(tdesc(E, st, 'C'))) != TYP(E.pair(tdesc(E, st, 'D'))))
        s.tC = s.tD = None
        if E.W.packed:
            for T in ('C', 'D'): st.assume(E.W.stride(TYP(E.pair(tdesc(E, st, T)))) == E.W.S)
        # facts about individual segments are stated where the segment is used (segment_facts)
        st.pc = [f for f in st.pc if not has_quant(f)]; E.ground_specs = True
        s.PS = PS = z3.Function('numbers_before', I, I); N = zi(c.pre.N)
        st.assume(z3.And(PS(-N) == 0, PS(0) >= 0, PS(0) <= 2**50))
        s.case = case
        s.nm = 0
        s.fk = s.lk = z3.IntVal(0)
        s.f, s.fk, s.fi = s.point('f', case[0] == 'e')
        s.g0 = s.num(s.fk, s.fi); s.lk = z3.IntVal(0)
        if len(case) > 1:
            s.l, s.lk, s.li = s.point('l', case[1] == 'e')
            s.g1 = s.num(s.lk, s.li)
            st.assume(z3.Or(s.fk < s.lk, z3.And(s.fk == s.lk, s.fi <= s.li)))
        else: s.lk, s.li, s.g1 = z3.IntVal(0), z3.IntVal(0), PS(0)
        g0 = fresh_int('g0'); g1 = fresh_int('g1'); st.assume(z3.And(g0 == s.g0, g1 == s.g1, 0 <= g0, g0 <= g1, g1 <= PS(0)))
        s.g0, s.g1 = g0, g1
        st.ghost['G'] = Lin.of(g0); st.ghost['O0'] = Lin.of(0); st.ghost['O1'] = Lin.of(0)
        for k in (s.fk, s.lk):
            if not z3.is_int_value(k): s.segment_facts(st, k)
        s.o = [fresh_int('o0'), fresh_int('o1')]
        for x in s.o: st.assume(z3.And(x >= 0, x <= 2**50))
        E.frozen = c.frozen()
        E.fixed_terms = lambda st: [s.fk, s.lk]
    def segment_facts(s, st, k):
        """definition of the numbering, and its consequences by induction, for segment k"""
        PS, N = s.PS, zi(s.c.pre.N); sz = s.c.pre.size(k)
        def leq(a, b): return z3.Implies(a <= b, PS(a) <= PS(b))
        st.assume(z3.Implies(z3.And(k >= -N, k < 0), z3.And(sz >= 0, sz <= 2**40, s.c.pre.cap(k) >= sz, PS(k+1) == PS(k)+sz, PS(k) >= 0, PS(k+1) <= PS(0), leq(k+1, s.lk), leq(s.lk, k), leq(s.fk+1, k), leq(k+1, s.fk))))
    def point(s, nm, end):
        E, st, c = s.E, s.st, s.c
        if end: return mk_end(E, st, c, nm), z3.IntVal(0), z3.IntVal(0)
        p = Pos(E, st, c, nm); return mk_it(E, st, c, p.k, p.i, name=nm), zi(p.k), zi(p.i)
    def num(s, k, i): return s.PS(k)+i
    def G(s, st): return zi(st.ghost['G'])
    def V(s, st):
        """number of the next element to visit"""
        if not s.pairs: return s.G(st)
        return z3.If(zi(st.ghost['H']) == s.m, s.G(st)+1, s.G(st))
    pairs = dist = False
    more = staticmethod(lambda E, a: [])
    def node_num(s, k):
        """number of the first element of the range in segment k"""
        return z3.If(k <= s.fk, s.g0, z3.If(k > s.lk, s.g1, s.PS(k)))
    def other(s, nm='m', buf=True):
        """another sequence, of m elements: (first, last)"""
        E, st = s.E, s.st
        r = E.new_region('buf', nm, stride=16); st.mem[r] = RS(); s.m = size_var(nm); st.rs(r).len = Lin.of(s.m); s.xr = r
        st.assume(s.m <= 2**50)
        a, b = obj(E, st, 'f2', 8), obj(E, st, 'l2', 8)
        st.rs(a.reg).cells[0] = (8, P(r, 0)); st.rs(b.reg).cells[0] = (8, P(r, scale(Lin.of(s.m), 16)))
        return a, b
    def out(s, j=0):
        o = obj(s.E, s.st, 'out', 8); s.st.rs(o.reg).cells[0] = (8, Lin.of(s.o[j])); return o
    def x(s):
        o = obj(s.E, s.st, 'x', 16); return o

def elem(E, st, p, T):
    """[(state, number)] of the element passed as a T"""
    a = E.A; out = []
    for st, p in E.resolve(st, p):
        if not E.check_alive(st, p, 'element'): continue
        n = a.n
        ok = isinstance(p, P) and p.reg in (n.pos, n.tpos)
        E.oblige(st, z3.BoolVal(ok), 'passes-an-element-of-the-collection')
        if not ok: continue
        i = position(E, st, n, p.key[0], p, 'element', True)
        if i is None: continue
        t = TYP(st.rs(n).cells[FIRST].get(zi(p.key[0])))
        if T in ('C', 'D'): E.oblige(st, t == TYP(E.pair(tdesc(E, st, T))), 'restituted-type-is-the-concrete-type')
        elif a.rest: E.oblige(st, z3.And(*[t != TYP(E.pair(tdesc(E, st, x))) for x in ('C', 'D')]), 'type-is-restituted')
        out.append((st, z3.simplify(zi(a.num(zi(p.key[0]), zi(i))))))
    return out
def visit(E, st, g):
    """the next element of the range is visited"""
    a = E.A; G = a.G(st)
    E.oblige(st, g == G, 'elements-in-traversal-order-once')
    E.oblige(st, G < a.g1, 'only-elements-of-the-range')
    st.ghost['G'] = Lin.of(G).add(1)
    st.assume(CNT(G+1) == CNT(G)+z3.If(PR(G), 1, 0))
    # consequence by induction
    st.assume(z3.And(CNT(G) >= CNT(a.g0), CNT(G)-CNT(a.g0) <= G-a.g0))
    return G
def args_of(info):
    t = targs(info['dem']); return t
def targs(dem):
    m = re.search(r'operator(\(\)|==|=)<', dem); j = m.end()-1
    return [re.sub(r'\b(const)\b|&', '', x).strip() for x in stdc.params_of('f('+matching(dem, j)+')')]
def x_index(E, st, p):
    """index of an element of the other sequence"""
    a = E.A
    ok = isinstance(p, P) and p.reg is getattr(a, 'xr', None)
    E.oblige(st, z3.BoolVal(ok), 'passes-an-element-of-the-other-sequence')
    if not ok: return None
    i, inner = E.split_off(st, p.reg, p.off)
    E.oblige(st, z3.And(z3.BoolVal(inner == 0), zi(i) >= 0, zi(i) < zi(st.rs(p.reg).len)), 'within-the-other-sequence')
    return zi(i)
def h_pred(E, st, args, info):
    outs = []
    for s1, g in elem(E, st, args[-1], targs(info['dem'])[0]):
        outs.append(stdc.throw(s1.copy(), 'predicate'))
        if not getattr(E.A, 'order', True): outs.append((s1, 'ret', PR(g))); continue
        g = visit(E, s1, g); outs.append((s1, 'ret', PR(g)))
    return outs
def h_eq(E, st, args, info):
    """*it == x"""
    outs = []
    for s1, g in elem(E, st, args[0], targs(info['dem'])[0]):
        outs.append(stdc.throw(s1.copy(), 'comparison'))
        if getattr(E.A, 'cmp2', None): outs += E.A.cmp2(E, s1, g, args[1]); continue
        ok = isinstance(args[1], P) and args[1].reg is E.A.xobj.reg
        E.oblige(s1, z3.BoolVal(ok), 'compares-with-the-given-value')
        g = visit(E, s1, g); outs.append((s1, 'ret', PR(g)))
    return outs
def h_fn(E, st, args, info):
    """the functor counts its calls: every call must see the state the previous one left"""
    outs = []
    for s1, g in elem(E, st, args[1], targs(info['dem'])[0]):
        outs.append(stdc.throw(s1.copy(), 'function'))
        visit(E, s1, g)
        for s2, v in E.load(s1, args[0], ('int', 64)):
            E.oblige(s2, zi(v) == a_calls(E, s2)-1, 'one-functor-object-sees-all-the-calls')
            outs += [(s3, 'ret', None) for s3 in E.store(s2, args[0], Lin.of(a_calls(E, s2)), ('int', 64))]
    return outs
def a_calls(E, st): return z3.simplify(E.A.G(st)-E.A.g0)
def h_pred2(E, st, args, info):
    outs = []; t = targs(info['dem'])
    for s1, g in elem(E, st, args[-2], t[0]):
        outs.append(stdc.throw(s1.copy(), 'predicate'))
        outs += E.A.cmp2(E, s1, g, args[-1]) if t[1] == 'X' else E.A.cmpe(E, s1, g, args[-1], t[1])
    return outs
def zip2(E, st, g, x):
    """pairs are compared in step"""
    a = E.A; i = x_index(E, st, x)
    if i is None: return []
    G = visit(E, st, g)
    E.oblige(st, i == G-a.g0, 'sequences-in-step')
    return [(st, 'ret', PR2(G, G-a.g0))]
def h_op(E, st, args, info):
    outs = []
    for s1, g in elem(E, st, args[-1], targs(info['dem'])[0]):
        outs.append(stdc.throw(s1.copy(), 'operation'))
        g = visit(E, s1, g); outs.append((s1, 'ret', Lin.of(OPV(g))))
    return outs
def h_op2(E, st, args, info):
    outs = []; a = E.A
    for s1, g in elem(E, st, args[-2], targs(info['dem'])[0]):
        outs.append(stdc.throw(s1.copy(), 'operation'))
        i = x_index(E, s1, args[-1])
        if i is None: continue
        g = visit(E, s1, g); E.oblige(s1, i == g-a.g0, 'sequences-in-step')
        outs.append((s1, 'ret', Lin.of(OPV2(g, g-a.g0))))
    return outs
def h_out(E, st, args, info):
    """*res = value"""
    a = E.A; j = int(re.search(r'Out<(\d)>', info['dem']).group(1)); T = targs(info['dem'])[0]; outs = []
    for s1, v in E.load(st, args[0], ('int', 64)):
        O = zi(s1.ghost['O%d' % j])
        E.oblige(s1, zi(v) == a.o[j]+O, 'output-position')
        outs.append(stdc.throw(s1.copy(), 'output'))
        for s2 in a.write(E, s1, j, T, args[1], O, info):
            s2.ghost['O%d' % j] = Lin.of(O).add(1)
            outs.append((s2, 'ret', None))
    return outs
def contracts():
    R = re.compile
    return [(R(r'^bool Pred::operator\(\)<'), stdc.C('predicate (opaque)', h_pred)), (R(r'^bool Pred2::operator\(\)<'), stdc.C('binary predicate (opaque)', h_pred2)),
            (R(r'^bool operator==<.*, X const&\)$'), stdc.C('comparison with a value (opaque)', h_eq)), (R(r'^void Fn::operator\(\)<'), stdc.C('function (opaque)', h_fn)),
            (R(r'^R Op::operator\(\)<'), stdc.C('operation (opaque)', h_op)), (R(r'^R Op2::operator\(\)<'), stdc.C('binary operation (opaque)', h_op2)),
            (R(r'^void Out<\d>::ref::operator=<'), stdc.C('output (opaque)', h_out))]

# ------------------------------------------------------------------ loop invariants
def pos_locs(loop, a):
    out = []
    for l in loop.locs():
        v = loop.entry_val(l)
        if isinstance(v, P) and v.reg in (a.n.pos, a.n.tpos): out.append(l)
    return out
def templates(E, a):
    T = []
    def pos(j, f):
        def t(E, st, loop):
            ls = pos_locs(loop, a)
            if j >= len(ls): return True
            v = loop.get(ls[j], st, loop.cur_env)
            return f(st, loop, zi(v.key[0]), zi(v.key[1]), zi(Lin.of(v.off).divc(v.reg.stride)))
        return t
    def node(j, f):
        def t(E, st, loop):
            ls = [x for x in node_locs(loop) if x[1].reg is a.n]
            if j >= len(ls): return True
            return f(st, loop, zi(loop.get(ls[j][0], st, loop.cur_env).key[0]))
        return t
    pre = a.c.pre
    for j in range(3):
        T += [('pos%d epoch' % j, pos(j, lambda st, lp, k, e, i: e == pre.epoch(k))),
              ('pos%d segment' % j, pos(j, lambda st, lp, k, e, i: pre.has(k))),
              ('pos%d range' % j, pos(j, lambda st, lp, k, e, i: z3.And(k >= a.fk, k <= a.lk))),
              ('pos%d size' % j, pos(j, lambda st, lp, k, e, i: z3.And(i >= 0, i <= pre.size(k), pre.size(k) <= 2**40))),
              ('pos%d last' % j, pos(j, lambda st, lp, k, e, i: z3.Implies(k == a.lk, i <= a.li))),
              ('pos%d num' % j, pos(j, lambda st, lp, k, e, i: a.V(st) == a.num(k, i))),
              ('pos%d num-1' % j, pos(j, lambda st, lp, k, e, i: a.V(st) == a.num(k, i)+1))]
    for j in range(2):
        for d in (0, 1):
            T.append(('node%d+%d num' % (j, d), node(j, lambda st, lp, k, d=d: a.V(st) == a.node_num(k+d))))
        T.append(('node%d range' % j, node(j, lambda st, lp, k: z3.And(k >= a.fk, z3.Or(k <= a.lk, k == a.lk+1)))))
        for m in range(3):
            def same(E, st, loop, j=j, m=m):
                ls = [x for x in node_locs(loop) if x[1].reg is a.n]; ps = pos_locs(loop, a)
                if j >= len(ls) or m >= len(ps): return True
                return zi(loop.get(ls[j][0], st, loop.cur_env).key[0]) == zi(loop.get(ps[m], st, loop.cur_env).key[0])
            T.append(('node%d of pos%d' % (j, m), same))
    for j in range(2):
        def emp(E, st, loop, j=j):
            ls = [x for x in node_locs(loop) if x[1].reg is a.n]
            if j >= len(ls): return True
            return a.PS(zi(loop.get(ls[j][0], st, loop.cur_env).key[0])) == a.PS(zi(ls[j][1].key[0]))
        T.append(('node%d same number' % j, emp))
    q = z3.Int('q!pr')
    for nm, v in (('true', True), ('false', False)):
        T.append(('all %s' % nm, lambda E, st, loop, v=v: z3.ForAll([q], z3.Implies(z3.And(q >= a.g0, q < a.V(st)), PR(q) == v), patterns=[PR(q)])))
    T.append(('all pairs', lambda E, st, loop: z3.ForAll([q], z3.Implies(z3.And(q >= a.g0, q < a.V(st)), PR2(q, q-a.g0)), patterns=[PR2(q, q-a.g0)])))
    def gent(loop): return a.V(loop.st0)
    for m in range(4):
        for sg in (1, -1):
            def acc(E, st, loop, m=m, sg=sg):
                il = int_locs(loop)
                if m >= len(il): return True
                d = zi(loop.get(il[m], st, loop.cur_env))-zi(loop.entry_val(il[m])); k = CNT(a.V(st))-CNT(gent(loop))
                return d == k if sg > 0 else d == a.V(st)-gent(loop)-k
            T.append(('int%d counts %d' % (m, sg), acc))
    for o in ('O0', 'O1'):
        for sg in (1, -1):
            T.append(('%s counts %d' % (o, sg), lambda E, st, loop, o=o, sg=sg: zi(st.ghost[o]) == (CNT(a.V(st))-CNT(a.g0) if sg > 0 else a.V(st)-a.g0-CNT(a.V(st))+CNT(a.g0))))
        T.append(('%s all' % o, lambda E, st, loop, o=o: zi(st.ghost[o]) == a.V(st)-a.g0))
        def oi(E, st, loop, o=o, m=0): pass
    for m in range(4):
        for j, o in ((0, 'O0'), (1, 'O1')):
            def outi(E, st, loop, m=m, o=o, j=j):
                il = int_locs(loop)
                if m >= len(il): return True
                return zi(loop.get(il[m], st, loop.cur_env)) == a.o[j]+zi(st.ghost[o])
            T.append(('int%d output %s' % (m, o), outi))
    for m in range(4):
        for j in range(2):
            for dd in (0, 1):
                def dist(E, st, loop, m=m, j=j, dd=dd):
                    il = int_locs(loop); ls = [x for x in node_locs(loop) if x[1].reg is a.n]
                    if m >= len(il) or j >= len(ls): return True
                    return zi(loop.get(il[m], st, loop.cur_env)) == a.node_num(zi(loop.get(ls[j][0], st, loop.cur_env).key[0])+dd)-a.g0
                if a.dist: T.append(('int%d node%d+%d' % (m, j, dd), dist))
    if E.W.packed:
        for m in range(4):
            for j in range(3):
                def strd(E, st, loop, m=m, j=j):
                    il = int_locs(loop); ps = pos_locs(loop, a)
                    if m >= len(il) or j >= len(ps): return True
                    k = zi(loop.get(ps[j], st, loop.cur_env).key[0])
                    return z3.Or(k == NULLKEY, zi(loop.get(il[m], st, loop.cur_env)) == E.W.stride(TYP(st.rs(a.n).cells[FIRST].get(k))))
                T.append(('int%d stride of pos%d' % (m, j), strd))
    if a.pairs:
        q2 = z3.Int('q2!pr'); H = lambda st: zi(st.ghost['H'])
        T.append(('no pair before', lambda E, st, loop: z3.ForAll([q, q2], z3.Implies(z3.And(q >= a.g0, q < a.V(st), q2 >= 0, q2 < a.m), z3.Not(PR2(q, q2))), patterns=[PR2(q, q2)])))
        T.append(('no pair yet', lambda E, st, loop: z3.ForAll([q2], z3.Implies(z3.And(q2 >= 0, q2 < H(st)), z3.Or(H(st) == a.m, z3.Not(PR2(a.G(st), q2)))), patterns=[PR2(a.G(st), q2)])))
        T.append(('no pair yet2', lambda E, st, loop: z3.ForAll([q2], z3.Implies(z3.And(a.G(st) >= a.g0, q2 >= 0, q2 < H(st)), z3.Not(PR2(a.G(st), q2))), patterns=[PR2(a.G(st), q2)])))
        T.append(('H full', lambda E, st, loop: H(st) == a.m))
        for m in range(2):
            def inner(E, st, loop, m=m):
                xs = [l for l in loop.locs() if isinstance(loop.entry_val(l), P) and loop.entry_val(l).reg is a.xr]
                if m >= len(xs): return True
                v = loop.get(xs[m], st, loop.cur_env); i = zi(Lin.of(v.off).divc(16)); g = a.G(loop.st0)
                return z3.And(i >= 0, i <= a.m, z3.If(i == 0, z3.And(a.G(st) == g, H(st) == a.m), z3.And(a.G(st) == g+1, H(st) == i)))
            T.append(('inner %d' % m, inner))
    T += a.more(E, a)
    T.append(('G range', lambda E, st, loop: z3.And(a.V(st) >= a.g0, a.V(st) <= a.g1)))
    E.inv_templates = T

# ------------------------------------------------------------------ results
def position_of(E, st, o, tag='result'):
    """[(state, number, is it the end)] of the iterator at o"""
    a = E.A; r = check_it(E, st, o, a.c, tag, a.props)
    if r is None: return []
    null, k, i = r
    if null is True: return [(st, a.PS(0))]
    out = []
    for s1, g in ((st.copy().assume(null), a.PS(0)), (st.copy().assume(z3.Not(null)), None)):
        if E.feasible(s1): out.append((s1, a.num(zi(k), zi(i)) if g is None else g))
    return out
def exists_at(E, st, q, f): pass
def all_q(a, lo, hi, f):
    q = z3.Int(fresh_name('q')); t = f(q)
    return z3.ForAll([q], z3.Implies(z3.And(q >= lo, q < hi), t))
def oblige_all(E, st, lo, hi, f, tag):
    q = fresh_int('q'); s2 = st.copy().assume(z3.And(q >= lo, q < hi)); E.oblige(s2, f(q), tag)
def job(name, props, cases=('pp', 'pe', 'ee'), rests=('', '_T'), split=False):
    def deco(fn):
        for rest, cs in [(r, c) for r in rests for c in ([(x,) for x in cases] if split and r else [cases])]:
            def run(E, rest=rest, cases=cs):
                E.contracts = contracts()+world.contracts()+E.contracts
                E.type_equal = lambda st, a, b: TYP(E.pair(a)) == TYP(E.pair(b))
                E.default_props = props
                World(E)
                for case in cases:
                    E.inv_templates = [('empty%d' % i, specs_coll.tmpl_empty(i)) for i in range(2)]
                    layout(E)
                    fn(E, A(E, case, rest, props))
            nm = name.replace('(', '<D,C>(', 1) if rest and '(' in name else name+('<D,C>' if rest else '')
            JOBS[PREFIX+nm+(', '+cs[0] if split and rest else '')] = (run, props)
        return fn
    return deco
def rets(E, st, drv, args):
    templates(E, E.A)
    return [(s, r) for s, kk, r in call(E, st, drv+E.A.rest, args) if kk == 'ret']

def build():
    Q = ('C14',)
    @job('all_of', Q+('C16',))
    def _(E, a):
        for st, r in rets(E, a.st, 'd_all_of', [a.f, a.l]):
            s1 = st.copy().assume(zb(r))
            if E.feasible(s1): oblige_all(E, s1, a.g0, a.g1, PR, 'true:only-if-all')
            s1 = st.copy().assume(z3.Not(zb(r)))
            if E.feasible(s1): E.oblige(s1.assume(all_q(a, a.g0, a.g1, PR)), False, 'false:only-if-not-all')
    @job('any_of', Q)
    def _(E, a):
        for st, r in rets(E, a.st, 'd_any_of', [a.f, a.l]):
            s1 = st.copy().assume(z3.Not(zb(r)))
            if E.feasible(s1): oblige_all(E, s1, a.g0, a.g1, lambda q: z3.Not(PR(q)), 'false:only-if-none')
            s1 = st.copy().assume(zb(r))
            if E.feasible(s1): E.oblige(s1.assume(all_q(a, a.g0, a.g1, lambda q: z3.Not(PR(q)))), False, 'true:only-if-any')
    @job('none_of', Q)
    def _(E, a):
        for st, r in rets(E, a.st, 'd_none_of', [a.f, a.l]):
            s1 = st.copy().assume(zb(r))
            if E.feasible(s1): oblige_all(E, s1, a.g0, a.g1, lambda q: z3.Not(PR(q)), 'true:only-if-none')
            s1 = st.copy().assume(z3.Not(zb(r)))
            if E.feasible(s1): E.oblige(s1.assume(all_q(a, a.g0, a.g1, lambda q: z3.Not(PR(q)))), False, 'false:only-if-any')
    def fn_obj(E, a, nm='fn'):
        o = obj(E, a.st, nm, 8); a.st.rs(o.reg).cells[0] = (8, 0); return o
    @job('for_each', Q)
    def _(E, a):
        o = obj(E, a.st, 'o', 8); g = fn_obj(E, a)
        for st, r in rets(E, a.st, 'd_for_each', [o, a.f, a.l, g]):
            E.oblige(st, a.G(st) == a.g1, 'every-element-is-visited')
            for s1, v in E.load(st, o, ('int', 64)): E.oblige(s1, zi(v) == a.g1-a.g0, 'result:the-functor-after-all-the-calls')
    @job('for_each_n', Q, cases=('p',))
    def _(E, a):
        o = obj(E, a.st, 'o', 64); g = fn_obj(E, a); n = size_var('n', -2**50, 2**50); a.st.assume(n <= a.PS(0)-a.g0)
        m = fresh_int('m'); a.st.assume(m == z3.If(n > 0, n, 0)); a.g1 = a.g0+m
        for st, r in rets(E, a.st, 'd_for_each_n', [o, a.f, Lin.of(n), g]):
            E.oblige(st, a.G(st) == a.g0+m, 'n-elements-are-visited')
            for s1, p in position_of(E, st, o): E.oblige(s1, p == a.g0+m, 'result:after-the-last-element-visited')
    def finds(nm, drv, P_, mk=None):
        @job(nm, Q)
        def _(E, a):
            o = obj(E, a.st, 'o', 64); args = [o, a.f, a.l]
            if mk: a.xobj = a.x(); args.append(a.xobj)
            for st, r in rets(E, a.st, drv, args):
                for s1, p in position_of(E, st, o):
                    E.oblige(s1, z3.And(p >= a.g0, p <= a.g1), 'result:in-the-range')
                    oblige_all(E, s1, a.g0, p, lambda q: z3.Not(P_(q)), 'result:nothing-before')
                    s2 = s1.copy().assume(p < a.g1)
                    if E.feasible(s2): E.oblige(s2, P_(p), 'result:found')
    finds('find_if', 'd_find_if', PR); finds('find_if_not', 'd_find_if_not', lambda q: z3.Not(PR(q))); finds('find', 'd_find', PR, True)
    def counts(nm, drv, mk=None):
        @job(nm, Q)
        def _(E, a):
            args = [a.f, a.l]
            if mk: a.xobj = a.x(); args.append(a.xobj)
            for st, r in rets(E, a.st, drv, args):
                E.oblige(st, a.G(st) == a.g1, 'every-element-is-examined')
                E.oblige(st, zi(r) == CNT(a.g1)-CNT(a.g0), 'result:number-of-matches')
    counts('count_if', 'd_count_if'); counts('count', 'd_count', True)
    def firsts(nm, drv, props=Q):
        for e in ('', ', empty'):
            @job(nm+e, props, split=not e)
            def _(E, a, e=e):
                x, y = a.other(); o = obj(E, a.st, 'o', 64)
                a.st.assume(a.m == 0 if e else a.m > 0)
                if not e:
                    a.pairs = True; a.st.ghost['G'] = Lin.of(a.g0).add(-1); a.st.ghost['H'] = Lin.of(a.m)
                def cmp2(E, st, g, p):
                    j = x_index(E, st, p)
                    if j is None: return []
                    if e: E.oblige(st, False, 'no-pair-to-compare'); return []
                    G, H = a.G(st), zi(st.ghost['H'])
                    E.oblige(st, z3.Or(z3.And(g == G, j == H), z3.And(H == a.m, g == G+1, j == 0)), 'pairs-in-order')
                    E.oblige(st, g < a.g1, 'only-elements-of-the-range')
                    st.ghost['G'] = Lin.of(g); st.ghost['H'] = Lin.of(j).add(1)
                    return [(st, 'ret', PR2(g, j))]
                a.cmp2 = cmp2
                for st, r in rets(E, a.st, drv, [o, a.f, a.l, x, y]):
                    for s1, p in position_of(E, st, o):
                        E.oblige(s1, z3.And(p >= a.g0, p <= a.g1), 'result:in-the-range')
                        q, j = fresh_int('q'), fresh_int('j'); s2 = s1.copy().assume(z3.And(q >= a.g0, q < p, j >= 0, j < a.m)); E.oblige(s2, z3.Not(PR2(q, j)), 'result:nothing-before')
                        s2 = s1.copy().assume(p < a.g1)
                        if E.feasible(s2):
                            qq = z3.Int(fresh_name('q')); s2.assume(z3.ForAll([qq], z3.Implies(z3.And(qq >= 0, qq < a.m), z3.Not(PR2(p, qq)))))
                            E.oblige(s2, False, 'result:found')
    firsts('find_first_of(pred)', 'd_find_first_of_p'); firsts('find_first_of', 'd_find_first_of')
    def mism(nm, drv, four):
        @job(nm, Q)
        def _(E, a):
            a.cmp2 = zip2; x, y = a.other(); o = obj(E, a.st, 'o', 64); o2 = obj(E, a.st, 'o2', 8)
            if not four: a.st.assume(a.m >= a.g1-a.g0)
            for st, r in rets(E, a.st, drv, [o, o2, a.f, a.l, x]+([y] if four else [])):
                v = cell(st, o2, 0); ok = isinstance(v, P) and v.reg is a.xr
                E.oblige(st, z3.BoolVal(ok), 'result:position-in-the-other-sequence')
                if not ok: continue
                i = zi(E.split_off(st, v.reg, v.off)[0])
                for s1, p in position_of(E, st, o):
                    E.oblige(s1, z3.And(p >= a.g0, p <= a.g1, i == p-a.g0, i <= a.m), 'result:in-the-ranges')
                    oblige_all(E, s1, a.g0, p, lambda q: PR2(q, q-a.g0), 'result:equal-before')
                    s2 = s1.copy().assume(z3.And(p < a.g1, i < a.m))
                    if E.feasible(s2): E.oblige(s2, z3.Not(PR2(p, p-a.g0)), 'result:differ')
    mism('mismatch(first2,pred)', 'd_mismatch3', False); mism('mismatch(first2,last2,pred)', 'd_mismatch4', True); mism('mismatch(first2,last2)', 'd_mismatch_eq', True)
    def equ(nm, drv, four):
        @job(nm, Q)
        def _(E, a):
            a.cmp2 = zip2; x, y = a.other()
            if not four: a.st.assume(a.m >= a.g1-a.g0)
            for st, r in rets(E, a.st, drv, [a.f, a.l, x]+([y] if four else [])):
                s1 = st.copy().assume(zb(r))
                if E.feasible(s1):
                    if four: E.oblige(s1, a.m == a.g1-a.g0, 'true:only-if-same-length')
                    oblige_all(E, s1, a.g0, a.g1, lambda q: PR2(q, q-a.g0), 'true:only-if-all-equal')
                s1 = st.copy().assume(z3.Not(zb(r)))
                if four: s1.assume(a.m == a.g1-a.g0)
                if E.feasible(s1):
                    qq = z3.Int(fresh_name('q')); s1.assume(z3.ForAll([qq], z3.Implies(z3.And(qq >= a.g0, qq < a.g1), PR2(qq, qq-a.g0)), patterns=[PR2(qq, qq-a.g0)]))
                    E.oblige(s1, False, 'false:only-if-different')
    equ('equal(first2,pred)', 'd_equal3', False); equ('equal(first2,last2,pred)', 'd_equal4', True); equ('equal(first2,last2)', 'd_equal_eq', True)
    @job('fast_distance', ('C14', 'C15'), rests=('',))
    def _(E, a):
        a.dist = True
        for st, r in rets(E, a.st, 'd_fast_distance', [a.f, a.l]): E.oblige(st, zi(r) == a.g1-a.g0, 'result:number-of-elements')

# ------------------------------------------------------------------ copying
def finish(E, st, a, o, count, j=0):
    E.oblige(st, zi(st.ghost['O%d' % j]) == count, 'all-elements-written')
    for s1, v in E.load(st, o, ('int', 64)): E.oblige(s1, zi(v) == a.o[j]+count, 'result:end-of-the-output')
def w_visit(rv=False):
    """the next element is written"""
    def w(E, st, j, T, p, O, info):
        out = []
        if rv: E.oblige(st, z3.BoolVal(info['dem'].split(' const')[0].endswith('&&)')), 'moves-the-elements')
        for s1, g in elem(E, st, p, T): visit(E, s1, g); out.append(s1)
        return out
    return w
def w_kept(cond):
    """the element just examined is written where cond holds"""
    def w(E, st, j, T, p, O, info):
        out = []; a = E.A
        for s1, g in elem(E, st, p, T):
            E.oblige(s1, z3.And(a.G(s1) > a.g0, g == a.G(s1)-1), 'writes-the-element-examined')
            E.oblige(s1, cond(j, g), 'writes-the-right-elements'); out.append(s1)
        return out
    return w
def w_repl(E, st, j, T, p, O, info):
    a = E.A; g = a.G(st)-1
    if T == 'X':
        E.oblige(st, z3.BoolVal(isinstance(p, P) and p.reg is a.yobj.reg), 'writes-the-new-value')
        E.oblige(st, PR(g), 'replaces-only-the-matching-elements'); return [st]
    return w_kept(lambda j, g: z3.Not(PR(g)))(E, st, j, T, p, O, info)
def w_res(f):
    def w(E, st, j, T, p, O, info):
        a = E.A; out = []; g = a.G(st)-1
        E.oblige(st, z3.BoolVal(T == 'R'), 'writes-the-result-of-the-operation')
        if T != 'R': return []
        for s1, v in E.load(st, p, ('int', 64)): E.oblige(s1, zi(v) == f(a, g), 'writes-the-result-of-the-operation'); out.append(s1)
        return out
    return w
def build2():
    Q = ('C15',)
    def cp(nm, drv, w, count, extra=()):
        @job(nm, Q)
        def _(E, a):
            a.write = w; o = obj(E, a.st, 'o', 8); args = [o, a.f, a.l]
            if 'other' in extra: x, y = a.other(); a.st.assume(a.m >= a.g1-a.g0); args.append(x)
            args.append(a.out())
            if 'x' in extra: a.xobj = a.x(); args.append(a.xobj)
            if 'y' in extra: a.yobj = a.x(); args.append(a.yobj)
            for st, r in rets(E, a.st, drv, args):
                E.oblige(st, a.G(st) == a.g1, 'every-element-is-treated'); finish(E, st, a, o, count(a))
    ALL = lambda a: a.g1-a.g0; SEL = lambda a: CNT(a.g1)-CNT(a.g0); REST = lambda a: a.g1-a.g0-CNT(a.g1)+CNT(a.g0)
    cp('copy', 'd_copy', w_visit(), ALL); cp('move', 'd_move', w_visit(True), ALL)
    cp('copy_if', 'd_copy_if', w_kept(lambda j, g: PR(g)), SEL); cp('remove_copy_if', 'd_remove_copy_if', w_kept(lambda j, g: z3.Not(PR(g))), REST)
    cp('remove_copy', 'd_remove_copy', w_kept(lambda j, g: z3.Not(PR(g))), REST, ('x',))
    cp('replace_copy', 'd_replace_copy', w_repl, ALL, ('x', 'y')); cp('replace_copy_if', 'd_replace_copy_if', w_repl, ALL, ('y',))
    cp('transform', 'd_transform', w_res(lambda a, g: OPV(g)), ALL); cp('transform(first2)', 'd_transform2', w_res(lambda a, g: OPV2(g, g-a.g0)), ALL, ('other',))
    @job('copy_n', Q, cases=('p',))
    def _(E, a):
        a.write = w_visit(); o = obj(E, a.st, 'o', 8); n = size_var('n', -2**50, 2**50); a.st.assume(n <= a.PS(0)-a.g0)
        m = fresh_int('m'); a.st.assume(m == z3.If(n > 0, n, 0)); a.g1 = a.g0+m
        for st, r in rets(E, a.st, 'd_copy_n', [o, a.f, Lin.of(n), a.out()]):
            E.oblige(st, a.G(st) == a.g0+m, 'n-elements-are-treated'); finish(E, st, a, o, m)
    @job('partition_copy', Q)
    def _(E, a):
        a.write = w_kept(lambda j, g: PR(g) == z3.BoolVal(j == 0)); o, p = obj(E, a.st, 'o', 8), obj(E, a.st, 'p', 8)
        for st, r in rets(E, a.st, 'd_partition_copy', [o, p, a.f, a.l, a.out(0), a.out(1)]):
            E.oblige(st, a.G(st) == a.g1, 'every-element-is-treated'); finish(E, st, a, o, SEL(a)); finish(E, st, a, p, REST(a), 1)
def build_all():
    build(); build2()
