"""Contracts of value_holder<T>: the wrapper every stored element lives in.  The
ghost state of a piece of storage is whether an object lives in it and its value;
every special member of T is a contract over that state, with construction over a
live object, destruction of a dead one and use of a dead one being obligations."""
import re, z3
from ll import Unsupported
from core import *
from symex import Engine
import stdc
from stdc import C as Contract, throw, CT, EQ

TYPES = {'C': dict(copy=True, eq=True, assign=True, nothrow=False), 'C1': dict(copy=False, eq=False, assign=False, nothrow=True),
         'C2': dict(copy=True, eq=True, assign=False, nothrow=True), 'C3': dict(copy=False, eq=False, assign=True, nothrow=False)}
JOBS = {}

def live(st, p): return ('live', p.off) in st.rs(p.reg).cells
def one(E, st, p):
    l = E.resolve(st, p)
    if len(l) != 1: raise Unsupported('ambiguous element')
    return l[0][1]
def setlive(st, p, v):
    rs = st.w(p.reg)
    if v is None: rs.cells.pop(('live', p.off), None); rs.cells.pop(('val', p.off), None)
    else: rs.cells[('live', p.off)] = True; rs.cells[('val', p.off)] = v
def valof(st, p): return st.rs(p.reg).cells[('val', p.off)]

def special(E, st, args, info):
    m = re.match(r'(C[0-9]*)::(~?)(C[0-9]*|operator=|operator==)\((.*)\)( const)?$', info['dem'])
    T, til, nm, ps = m.group(1, 2, 3, 4); tr = TYPES[T]
    p = one(E, st, args[0])
    if p.reg.kind != 'obj': raise Unsupported('element storage')
    def need(q, what):
        E.oblige(st, z3.BoolVal(live(st, q)), 'live-object:'+what)
        if not live(st, q): setlive(st, q, fresh_int('bogus'))
    if til:
        need(p, 'destroyed'); setlive(st, p, None)
        st.ghost['destroyed'] = st.ghost.get('destroyed', 0)+1
        return [(st, 'ret', None)]
    if nm == 'operator==':
        q = one(E, st, args[1]); need(p, 'compared'); need(q, 'compared')
        st.ghost['compared'] = st.ghost.get('compared', 0)+1
        return [throw(st.copy(), 'element comparison'), (st, 'ret', EQ(valof(st, p), valof(st, q)))]
    mv = ps.endswith('&&')
    outs = []
    if nm == 'operator=':
        q = one(E, st, args[1]); need(p, 'assigned to'); need(q, 'assigned from')
        ts = st.copy(); setlive(ts, p, fresh_int('half'))
        if mv: setlive(ts, q, fresh_int('half'))
        outs.append(throw(ts, 'element assignment'))
        v = valof(st, q)
        if p.reg is not q.reg or not same(p.off, q.off):
            if mv: setlive(st, q, fresh_int('moved'))
            setlive(st, p, v)
        st.ghost['assigned'] = st.ghost.get('assigned', 0)+1
        return outs+[(st, 'ret', args[0])]
    E.oblige(st, z3.BoolVal(not live(st, p)), 'storage-free:constructed')
    if 'C' in ps:
        q = one(E, st, args[1]); need(q, 'copied' if not mv else 'moved from'); v = valof(st, q)
    else:
        q = None; v = CT(zi(args[1]))
    if not (mv and tr['nothrow']): outs.append(throw(st.copy(), 'element construction'))
    if mv: setlive(st, q, fresh_int('moved'))
    setlive(st, p, v)
    st.ghost['constructed'] = st.ghost.get('constructed', 0)+1
    return outs+[(st, 'ret', None)]

def job(name, props):
    def deco(fn):
        def run(E):
            E.contracts = [(re.compile(r'^C[0-9]*::(~?C[0-9]*|operator==?)\('), Contract('element type operations with life cycle', special))]+E.contracts
            E.default_props = props
            fn(E)
        JOBS[name] = (run, props); return fn
    return deco

def storage(E, st, name, v=None):
    r = E.new_region('obj', name, 40); st.mem[r] = RS(); p = P(r, 0)
    if v is not None: setlive(st, p, v)
    return p
def call(E, st, fn, args):
    if E.mod.func(fn) is None: raise Unsupported('no driver '+fn)
    return E.do_call(st, fn, args, {'ret': None, 'args': []})
def intact(E, st, p, v, tag, props=None):
    E.oblige(st, z3.BoolVal(live(st, p)), tag+':still-lives', props)
    if live(st, p): E.oblige(st, valof(st, p) == v, tag+':value-unchanged', props)
def reported(E, st, T, exc):
    """the exception in flight is exc carrying typeid(T), or one raised while making it"""
    if any('exception construction' in t for t in st.trace): return
    nm = st.ghost.get('exc_type', '')
    E.oblige(st, z3.BoolVal(exc in nm), 'throws-%s' % exc)
    c = [v for o, (w, v) in st.rs(st.exc.reg).cells.items() if isinstance(v, P) and v.reg.name == '_ZTI%d%s' % (len(T), T)]
    E.oblige(st, z3.BoolVal(len(c) == 1), 'exception-names-the-type')

def build():
    for T, tr in TYPES.items():
        K = '%d%s' % (len(T), T)
        def ctor(suffix, kind, T=T, tr=tr):
            @job('value_holder<%s>.%s' % (T, suffix), ('C11', 'C10', 'C08') + (('C06',) if kind == 'copy' else ('C03',)))
            def run(E):
                st = State(); v = z3.Int('v0')
                dst = storage(E, st, 'dst'); src = storage(E, st, 'src', v)
                al = E.new_region('obj', 'al', 1); st.mem[al] = RS()
                if kind == 'copy': E.frozen = {src.reg}
                x = Lin.of(fresh_int('x')) if kind == 'emplace' else None
                args = [dst, x if kind == 'emplace' else src]+([P(al, 0)] if suffix.endswith('_al') or suffix.startswith('construct') else [])
                n = 0
                for st, k, r in call(E, st, '%s_%s' % (T, suffix), args):
                    n += 1
                    if k == 'throw':
                        E.oblige(st, z3.BoolVal(not live(st, dst)), 'no-half-constructed-object')
                        if kind == 'copy' and not tr['copy']: reported(E, st, T, 'not_copy_constructible')
                        E.oblige(st, z3.BoolVal(not (kind == 'move' and tr['nothrow'])), 'moving-does-not-throw')
                        E.oblige(st, z3.BoolVal(st.ghost.get('destroyed', 0) == 0 and st.ghost.get('constructed', 0) == 0), 'failed-without-effect')
                        intact(E, st, src, v, 'source')
                        continue
                    E.oblige(st, z3.BoolVal(kind != 'copy' or tr['copy']), 'missing-copy-is-reported')
                    E.oblige(st, z3.BoolVal(live(st, dst)), 'object-constructed')
                    if live(st, dst): E.oblige(st, valof(st, dst) == (CT(zi(x)) if kind == 'emplace' else v), 'object-has-the-given-value')
                    E.oblige(st, z3.BoolVal(st.ghost.get('constructed', 0) == 1 and st.ghost.get('destroyed', 0) == 0), 'exactly-one-object-constructed')
                    if kind == 'copy': intact(E, st, src, v, 'source')
                    else: E.oblige(st, z3.BoolVal(live(st, src)), 'source-still-destructible')
                E.oblige(st, z3.BoolVal(n > 0), 'reaches-an-exit')
        for s in ('copy', 'copy_al', 'copyT', 'copyT_al', 'construct_copy'): ctor(s, 'copy')
        for s in ('move', 'move_al', 'moveT', 'moveT_al', 'construct_move'): ctor(s, 'move')
        for s in ('emplace', 'emplace_al', 'construct_emplace'): ctor(s, 'emplace')

        def asg(selfm, T=T, tr=tr):
            @job('value_holder<%s>.%s' % (T, 'self move assignment' if selfm else 'move assignment'), ('C11', 'C10', 'C08', 'C04'))
            def run(E):
                st = State(); v = z3.Int('v0'); w = z3.Int('w0')
                x = storage(E, st, 'x', v); y = x if selfm else storage(E, st, 'y', w)
                for st, k, r in call(E, st, T+'_assign', [x, y]):
                    if k == 'throw': E.oblige(st, z3.BoolVal(tr['assign']), 'emulated-assignment-does-not-throw')
                    for q, nm in ((x, 'target'), (y, 'source')): E.oblige(st, z3.BoolVal(live(st, q)), nm+'-lives')
                    c, d = st.ghost.get('constructed', 0), st.ghost.get('destroyed', 0)
                    E.oblige(st, z3.BoolVal(c == d), 'as-many-constructed-as-destroyed')
                    if k == 'throw' or not live(st, x): continue
                    E.oblige(st, valof(st, x) == (v if selfm else w), 'target-has-the-value-of-the-source')
        asg(False); asg(True)
        @job('value_holder<%s>.destructor' % T, ('C10', 'C11'))
        def run_d(E, T=T):
            for drv in ('_dtor', '_destroy'):
                st = State(); x = storage(E, st, 'x', z3.Int('v0')); al = E.new_region('obj', 'al', 1); st.mem[al] = RS()
                for st, k, r in call(E, st, T+drv, [x]+([P(al, 0)] if drv == '_destroy' else [])):
                    E.oblige(st, z3.BoolVal(k == 'ret'), 'does-not-throw')
                    E.oblige(st, z3.BoolVal(not live(st, x) and st.ghost.get('destroyed') == 1), 'destroyed-exactly-once')
        @job('value_holder<%s>.operator==' % T, ('C11', 'C07', 'C16'))
        def run_e(E, T=T, tr=tr):
            st = State(); v = z3.Int('v0'); w = z3.Int('w0')
            x = storage(E, st, 'x', v); y = storage(E, st, 'y', w)
            E.frozen = {x.reg, y.reg}
            for st, k, r in call(E, st, T+'_eq', [x, y]):
                for q, u in ((x, v), (y, w)): intact(E, st, q, u, 'operand')
                if k == 'throw':
                    if not tr['eq']: reported(E, st, T, 'not_equality_comparable')
                    continue
                E.oblige(st, z3.BoolVal(tr['eq']), 'missing-comparison-is-reported')
                if tr['eq']: E.oblige(st, (r if z3.is_bool(r) else z3.BoolVal(bool(r))) == EQ(v, w), 'result-is-the-comparison-of-the-elements')
build()
