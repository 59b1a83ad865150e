"""Contracts of stride_iterator, for every stride: position k of a segment of
elements of size D is the byte offset k*D from its start."""
import z3
from ll import Unsupported
from core import *
JOBS = {}
BIG = 2**60

def call(E, st, fn, args):
    if E.mod.func(fn) is None: raise Unsupported('no driver '+fn)
    return E.do_call(st, fn, args, {'ret': None, 'args': []})
def zb(r): return r if z3.is_bool(r) else z3.BoolVal(bool(r))

class Ctx:
    """an arbitrary array of elements of arbitrary size D"""
    def __init__(c, E):
        c.E = E; c.st = st = State()
        c.D = z3.Int('D'); st.assume(z3.And(c.D >= 1, c.D <= 2**40))
        c.arr = E.new_region('obj', 'array'); st.mem[c.arr] = RS()
        E.default_props = ('C12',)
    def pos(c, nm, lo=None):
        k = z3.Int(nm); c.st.assume(z3.And(k*c.D >= -BIG, k*c.D <= BIG, k >= -BIG, k <= BIG)); return k
    def at(c, k): return P(c.arr, Lin.of(z3.simplify(zi(k)*c.D)))
    def it(c, k, nm='it', st=None):
        r = c.E.new_region('obj', nm, 16); (st or c.st).mem[r] = RS()
        if k is not None:
            (st or c.st).rs(r).cells = {0: (8, c.at(k)), 8: (8, Lin.of(c.D))}
        return P(r, 0)
    def check(c, st, it, k, tag):
        """it denotes position k with the same stride"""
        E = c.E
        x, s = E.load(st, it, ('ptr',))[0][1], E.load(st, it.plus(8), ('int', 64))[0][1]
        if not isinstance(x, P): E.oblige(st, False, tag+':designates-a-position'); return
        E.oblige(st, z3.BoolVal(x.reg is c.arr), tag+':same-segment')
        E.oblige(st, zi(x.off) == zi(k)*c.D, tag+':position')
        E.oblige(st, z3.BoolVal(not isinstance(s, Undef)), tag+':stride-set')
        if not isinstance(s, Undef): E.oblige(st, zi(s) == c.D, tag+':stride')
    def outs(c, fn, args):
        for st, k, r in call(c.E, c.st, fn, args):
            c.E.oblige(st, z3.BoolVal(k == 'ret'), 'does-not-throw')
            if k == 'ret': yield st, r

def job(name, props=('C12',)):
    def deco(fn): JOBS['stride_iterator.'+name] = (lambda E: fn(Ctx(E)), props); return fn
    return deco

def build():
    for X, nm in (('m', ''), ('c', ' const')):
        def mk(X=X, nm=nm):
            @job('construct'+nm)
            def _(c):
                k = c.pos('k'); o = c.it(None)
                for st, r in c.outs(X+'_make', [o, c.at(k), Lin.of(c.D)]): c.check(st, o, k, 'result')
            for op, d in (('inc', 1), ('dec', -1)):
                @job(op+nm)
                def _(c, op=op, d=d):
                    k = c.pos('k'); i = c.it(k)
                    for st, r in c.outs(X+'_'+op, [i]): c.check(st, i, k+d, 'after')
                @job('post_'+op+nm)
                def _(c, op=op, d=d):
                    k = c.pos('k'); i = c.it(k); o = c.it(None, 'o')
                    for st, r in c.outs(X+'_post_'+op, [o, i]):
                        c.check(st, i, k+d, 'after'); c.check(st, o, k, 'result')
            for op, d in (('adv', 1), ('ret', -1)):
                @job({'adv': '+=', 'ret': '-='}[op]+nm)
                def _(c, op=op, d=d):
                    k = c.pos('k'); n = c.pos('n'); i = c.it(k)
                    for st, r in c.outs(X+'_'+op, [i, Lin.of(n)]): c.check(st, i, k+d*n, 'after')
            for op, d in (('plus', 1), ('rplus', 1), ('minus', -1)):
                @job({'plus': '+', 'rplus': 'n+', 'minus': '-'}[op]+nm)
                def _(c, op=op, d=d):
                    k = c.pos('k'); n = c.pos('n'); i = c.it(k); o = c.it(None, 'o'); c.E.frozen = {i.reg}
                    for st, r in c.outs(X+'_'+op, [o, i, Lin.of(n)]): c.check(st, o, k+d*n, 'result')
            @job('[]'+nm)
            def _(c):
                k = c.pos('k'); n = c.pos('n'); i = c.it(k); c.E.frozen = {i.reg}
                for st, r in c.outs(X+'_index', [i, Lin.of(n)]):
                    c.E.oblige(st, z3.BoolVal(isinstance(r, P) and r.reg is c.arr), 'result:same-segment')
                    if isinstance(r, P): c.E.oblige(st, zi(r.off) == (k+n)*c.D, 'result:designates-k+n')
            for op in ('deref', 'arrow', 'ptr'):
                @job(op+nm)
                def _(c, op=op):
                    k = c.pos('k'); i = c.it(k); c.E.frozen = {i.reg}
                    for st, r in c.outs(X+'_'+op, [i]): c.E.oblige(st, zb(c.E.ptr_eq(st, r, c.at(k))), 'result:designates-k')
            @job('stride'+nm)
            def _(c):
                i = c.it(c.pos('k')); c.E.frozen = {i.reg}
                for st, r in c.outs(X+'_stride', [i]): c.E.oblige(st, zi(r) == c.D, 'result')
            @job('copy'+nm)
            def _(c):
                k = c.pos('k'); i = c.it(k); o = c.it(None, 'o'); c.E.frozen = {i.reg}
                for st, r in c.outs(X+'_copy', [o, i]): c.check(st, o, k, 'result')
            @job('assign'+nm)
            def _(c):
                k = c.pos('k'); j = c.pos('j'); i = c.it(k); o = c.it(j, 'o'); c.E.frozen = {i.reg}
                for st, r in c.outs(X+'_assign', [o, i]): c.check(st, o, k, 'result')
            @job('assign pointer'+nm)
            def _(c):
                k = c.pos('k'); j = c.pos('j'); o = c.it(j, 'o')
                for st, r in c.outs(X+'_assign_ptr', [o, c.at(k)]): c.check(st, o, k, 'result')
        mk()
    for X, nm in (('mm', ''), ('cc', ' const')):
        def mk2(X=X, nm=nm):
            ops = {'diff': None, 'eq': lambda i, j: i == j, 'ne': lambda i, j: i != j, 'lt': lambda i, j: i < j, 'le': lambda i, j: i <= j,
                   'gt': lambda i, j: i > j, 'ge': lambda i, j: i >= j}
            for op, f in ops.items():
                @job({'diff': 'distance'}.get(op, op)+nm)
                def _(c, op=op, f=f):
                    k = c.pos('k'); j = c.pos('j'); a = c.it(k, 'a'); b = c.it(j, 'b'); c.E.frozen = {a.reg, b.reg}
                    for st, r in c.outs(X+'_'+op, [a, b]):
                        if f is None: c.E.oblige(st, zi(r) == j-k, 'result:number-of-steps')
                        else: c.E.oblige(st, zb(r) == f(k, j), 'result:order-of-positions')
        mk2()
    @job('to const')
    def _(c):
        k = c.pos('k'); i = c.it(k); o = c.it(None, 'o'); c.E.frozen = {i.reg}
        for st, r in c.outs('to_const', [o, i]): c.check(st, o, k, 'result')
    @job('assign to const')
    def _(c):
        k = c.pos('k'); i = c.it(k); o = c.it(c.pos('j'), 'o'); c.E.frozen = {i.reg}
        for st, r in c.outs('assign_const', [o, i]): c.check(st, o, k, 'result')
    def derived(c):
        E = c.E; d = E.new_region('obj', 'derived'); c.st.mem[d] = RS()
        off = call(E, c.st, 'upcast', [P(d, 8)])
        sz = call(E, c.st, 'size_derived', [])[0][2]
        b = [r for s, k, r in off if isinstance(r, P) and r.reg is d][0]
        return d, b.off-8, sz
    for fn in ('from_derived', 'cfrom_derived', 'cfrom_cderived'):
        @job(fn.replace('_', ' '))
        def _(c, fn=fn):
            d, off, sz = derived(c); k = c.pos('k'); p = P(d, Lin.of(z3.Int('at'))); c.st.assume(z3.And(z3.Int('at') > 0, z3.Int('at') < BIG, d.base > 0)); o = c.it(None, 'o')
            for st, r in c.outs(fn, [o, p]):
                E = c.E; x, s = E.load(st, o, ('ptr',))[0][1], E.load(st, o.plus(8), ('int', 64))[0][1]
                E.oblige(st, z3.BoolVal(isinstance(x, P) and x.reg is d and same(x.off, add(p.off, off))), 'result:designates-the-base-of-the-same-object')
                E.oblige(st, z3.BoolVal(s == sz), 'result:stride-is-the-size-of-the-derived-type')
    for fn in ('to_derived', 'cto_cderived', 'to_cderived'):
        @job(fn.replace('_', ' '))
        def _(c, fn=fn):
            d, off, sz = derived(c); i = c.it(None); at = Lin.of(z3.Int('at'))
            c.st.rs(i.reg).cells = {0: (8, P(d, at.add(off))), 8: (8, sz)}
            for st, r in c.outs(fn, [i]):
                c.E.oblige(st, z3.BoolVal(isinstance(r, P) and r.reg is d and same(r.off, at)), 'result:designates-the-same-object')
build()
