"""Loop cutting: the loop-modified state is havocked and an inductive invariant
is computed Houdini-style from candidate templates (linear relations between the
loop-modified integers/positions and the values at entry, plus the data-structure
relations supplied by the specification).  Every surviving candidate has been
proved to hold at entry and to be preserved by every path through the body."""
import z3, itertools, re
from ll import Unsupported
from core import *

def sameval(a, b):
    if a is b: return True
    if isinstance(a, bool) and isinstance(b, bool): return a == b
    if isinstance(a, (int, Lin)) and isinstance(b, (int, Lin)) and not isinstance(a, bool) and not isinstance(b, bool): return same(a, b)
    if isinstance(a, P) and isinstance(b, P):
        return a.reg is b.reg and same(a.off, b.off) and len(a.key) == len(b.key) and all(same(x, y) for x, y in zip(a.key, b.key))
    if isinstance(a, SP) and isinstance(b, SP): return a.rid.eq(b.rid) and same(a.off, b.off)
    if isinstance(a, list) and isinstance(b, list): return len(a) == len(b) and all(sameval(x, y) for x, y in zip(a, b))
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef): return a.eq(b)
    return False

def vec_shape(st, r, o):
    """buffer of the {begin,end,cap} triple stored at (r,o), if it is one"""
    c = st.rs(r).cells
    x = c.get(o)
    if not (x and isinstance(x[1], P) and x[1].reg.kind == 'buf' and same(x[1].off, 0)) or x[1].key: return None
    b = x[1].reg; rb = st.mem.get(b)
    if rb is None or rb.alive is not True or rb.len is None or rb.extra.get('cap') is None: return None
    y = c.get(o+8); z = c.get(o+16)
    if not (y and z and isinstance(y[1], P) and isinstance(z[1], P) and y[1].reg is b and z[1].reg is b): return None
    if not same(y[1].off, scale(rb.len, b.stride)) or not same(z[1].off, scale(rb.extra['cap'], b.stride)): return None
    return b

def nullconv(p, reg):
    if p.reg is NULLR and getattr(reg, 'nullkey', None) is not None:
        return P(reg, 0, tuple([reg.nullkey]+[0]*(reg.nkeys-1)))
    return None

class Loop:
    def __init__(s, E, f, h, env, st, active):
        s.E = E; s.f = f; s.h = h; s.env0 = env; s.st0 = st; s.active = active
        s.body = f.loops[h]; s.phis = [p.res for p in f.blocks[h].phis]
        s.mod = set()      # ('cell',reg,off) | ('buf',reg) | ('ghost',k) | ('fam',reg,off)
        s.rh = {}          # r0 -> RH
        s.famconv = {}     # loc -> fam region for NULL entries
        s.used = None; s.inner_prev = {}; s.inner_cur = {}

        s.novec = set(); s.groups = {}      # (obj region, offset) of a {begin,end,cap} triple -> buffer
        for r, rs in st.mem.items():
            if r.kind != 'obj' or rs.alive is not True: continue
            for o, c in rs.cells.items():
                if isinstance(o, int) and vec_shape(st, r, o) is not None: s.groups[(r, o)] = vec_shape(st, r, o)

    def group_of(s, loc):
        if loc[0] != 'cell' or isinstance(loc[2], tuple): return None
        for d in (0, 8, 16):
            g = (loc[1], loc[2]-d)
            if g in s.groups and g not in s.novec: return g
        return None

    # locations ------------------------------------------------------
    def entry_val(s, loc):
        if loc[0] == 'phi': v = s.env0[loc[1]]
        elif loc[0] == 'cell':
            c = s.st0.rs(loc[1]).cells.get(loc[2]); v = c[1] if c else UNDEF
        elif loc[0] == 'ghost': v = s.st0.ghost.get(loc[1], UNDEF)
        if loc in s.famconv and isinstance(v, P):
            c = nullconv(v, s.famconv[loc])
            if c is not None: return c
        return v
    def get(s, loc, st, env):
        if loc[0] == 'phi': v = env[loc[1]]
        elif loc[0] == 'cell':
            c = st.rs(loc[1]).cells.get(loc[2]); v = c[1] if c else UNDEF
        elif loc[0] == 'ghost': v = st.ghost.get(loc[1], UNDEF)
        if loc in s.famconv and isinstance(v, P):
            c = nullconv(v, s.famconv[loc])
            if c is not None: return c
        return v
    def locs(s):
        return [('phi', p) for p in sorted(s.phis)] + [m for m in s.mods() if m[0] in ('cell', 'ghost')]
    def mods(s):
        """in an order that does not depend on the run"""
        return sorted(s.mod, key=lambda m: (m[0], '', 0, m[1]) if m[0] == 'ghost' else (m[0], '', m[1].id, str(m[2:])))

    def havoc_val(s, v, nm, loc):
        if v is UNDEF: return UNDEF
        if isinstance(v, bool) or z3.is_bool(v): return fresh_bool(nm)
        if isinstance(v, (int, Lin)): return Lin.of(fresh_int(nm))
        if isinstance(v, P):
            reg = s.rh.get(v.reg, v.reg)
            if loc not in s.rloc and v.reg in s.rh: reg = v.reg
            if reg is NULLR: return v
            if reg.kind in ('buf',) or (reg.kind == 'fam' and reg.stride):
                S = reg.stride
                inner = Lin.of(v.off).c % S if S else 0
                off = Lin.of(fresh_int(nm+'_i')).mulc(S).add(inner)
                key = tuple(Lin.of(fresh_int(nm+'_k')) for _ in v.key)
                return P(reg, off, key)
            if reg.kind == 'fam':
                key = tuple(Lin.of(fresh_int(nm+'_k')) for _ in v.key)
                return P(reg, v.off, key)
            return P(reg, v.off, v.key)
        if isinstance(v, list): return [s.havoc_val(x, nm, loc) for x in v]
        if isinstance(v, Opaque): return v
        if isinstance(v, z3.ArithRef): return fresh_int(nm)
        if isinstance(v, (SP,)): return SP(fresh_int(nm), Lin.of(fresh_int(nm)))
        raise Unsupported('havoc of %r' % (v,))

    def mkstate(s):
        st = s.st0.copy(); env = dict(s.env0)
        for r0, rh in s.rh.items():
            rs0 = s.st0.rs(r0)
            rs = RS(); rs.cells = {k: Fun.fresh('h', f.ptr) for k, f in rs0.cells.items()}
            from symex import size_var
            rs.len = Lin.of(size_var('hlen')); rs.extra['cap'] = Lin.of(size_var('hcap'))
            st.mem[rh] = rs
            x = st.w(r0); x.alive = False
            if r0 in st.owned: st.owned.add(rh)
        for m in s.mods():
            if m[0] == 'buf' and m[1] not in s.rh:
                rs = st.w(m[1])
                rs.cells = {k: Fun.fresh('h', f.ptr) for k, f in rs.cells.items()}
                if rs.len is not None:
                    from symex import size_var
                    rs.len = Lin.of(size_var('hlen'))
            elif m[0] == 'fam':
                rs = st.w(m[1]); f = rs.cells[m[2]]
                nk = getattr(f, 'nk', m[1].nkeys)
                rs.cells[m[2]] = Fun.fresh('h', f.ptr, nk); rs.cells[m[2]].nk = nk
            elif m[0] == 'cell':
                rs = st.w(m[1]); c = rs.cells.get(m[2])
                if c is None: continue
                if isinstance(m[2], tuple): rs.cells[m[2]] = fresh_int('hv')
                else:
                    v = s.havoc_val(s.entry_val(m), 'c%d' % m[2], m)
                    if v is UNDEF: rs.cells.pop(m[2])
                    else: rs.cells[m[2]] = (c[0], v)
            elif m[0] == 'ghost':
                v = st.ghost.get(m[1])
                st.ghost[m[1]] = Fun.fresh('g', v.ptr, getattr(v, 'nkeys', 1)) if isinstance(v, Fun) else s.havoc_val(v, 'g', m)
        for p in s.phis:
            env[p] = s.havoc_val(s.entry_val(('phi', p)), 'phi', ('phi', p))
        for g, r0 in s.groups.items():
            if g in s.novec or g[0] not in st.mem: continue
            r = s.rh.get(r0, r0)
            if r is r0 and ('buf', r0) not in s.mod and not any(('cell', g[0], g[1]+d) in s.mod for d in (0, 8, 16)): continue
            rb = st.rs(r); S = r.stride
            w = st.w(g[0])
            for d, v in ((0, 0), (8, rb.len), (16, rb.extra.get('cap'))):
                w.cells[g[1]+d] = (8, P(r, scale(v, S)))
        return st, env

    # vocabulary -----------------------------------------------------
    def components(s, loc):
        """list of (name, accessor(st,env)->Lin) for an integer/pointer location"""
        v = s.entry_val(loc)
        out = []
        if s.group_of(loc): return out
        if isinstance(v, (bool,)) or z3.is_bool(v): return out
        if isinstance(v, (int, Lin)):
            out.append((str(loc), lambda st, env: s.get(loc, st, env)))
        elif isinstance(v, z3.ArithRef):
            out.append((str(loc), lambda st, env: s.get(loc, st, env)))
        elif isinstance(v, P) and v.reg is not NULLR:
            for i in range(len(v.key)):
                out.append(('%s.k%d' % (loc, i), lambda st, env, i=i: s.get(loc, st, env).key[i]))
            S = v.reg.stride
            if S: out.append(('%s.i' % (loc,), lambda st, env: s.idx(s.get(loc, st, env), S)))
        elif isinstance(v, list):
            pass
        return out
    @staticmethod
    def idx(p, S):
        L = Lin.of(p.off)
        L = L.add(-(L.c % S))
        if L.divisible(S): return mkint(L.divc(S))
        raise KeyError
    def vocab(s):
        var = []
        for l in s.locs(): var += s.components(l)
        for m in s.mods():
            if m[0] == 'buf' and m[1] not in s.rh:
                r = m[1]
                var.append(('len(%r)' % r, lambda st, env, r=r: st.rs(s.rm(r)).len))
        for r0, rh in s.rh.items():
            if True:
                var.append(('len(%r)' % rh, lambda st, env, r=rh: st.rs(s.rm(r)).len))
            var.append(('cap(%r)' % rh, lambda st, env, r=rh: st.rs(s.rm(r)).extra.get('cap')))
        return var
    def rm(s, r): return s.rmap.get(r, r)

    def fixed(s):
        """integer values that the loop body may mention and does not change"""
        out = {}
        def put(v):
            if isinstance(v, Lin) and not v.isconst(): out[str(sorted((i, c) for i, (c, a) in v.t.items()))+str(v.c)] = v
        names = set()
        for b in s.body:
            for i in s.f.blocks[b].insts + s.f.blocks[b].phis:
                collect(i.a, names)
        for n in names:
            if n in s.env0 and n not in s.phis:
                v = s.env0[n]
                if isinstance(v, Lin): put(v)
                if isinstance(v, P) and v.reg.stride:
                    try: put(s.idx(v, v.reg.stride))
                    except KeyError: pass
                if isinstance(v, P):
                    for k in v.key: put(k)
        for r, rs in s.st0.mem.items():
            if r.kind == 'buf' and rs.alive is True:
                if isinstance(rs.len, Lin): put(rs.len)
                if isinstance(rs.extra.get('cap'), Lin): put(rs.extra['cap'])
            if getattr(r, 'nullkey', None) is not None: put(r.nullkey)
        for v in s.E.fixed_terms(s.st0) if hasattr(s.E, 'fixed_terms') else []: put(Lin.of(v))
        for r, rs in s.st0.mem.items():
            if r.kind != 'obj' or rs.alive is not True: continue
            for o, c in rs.cells.items():
                if isinstance(o, int) and isinstance(c[1], P) and getattr(c[1].reg, 'isnodes', False): put(Lin.of(c[1].key[0]))
        for l in s.locs():
            for nm, acc in s.components(l):
                try: put(Lin.of(acc(s.st0, s.env0)))
                except (KeyError, AttributeError, IndexError): pass
        return list(out.values())[:14]

    def candidates(s):
        var = s.vocab(); fx = s.fixed()
        s.rmap = {rh: r0 for r0, rh in s.rh.items()}
        ent = []
        good = []
        for nm, acc in var:
            try:
                e = acc(s.st0, s.env0)
                if e is None or e is UNDEF: continue
                ent.append(Lin.of(e)); good.append((nm, acc))
            except (KeyError, AttributeError, IndexError, TypeError): pass
        var = good
        C = []
        def Z(acc): return lambda st, env: zi(acc(st, env))
        for i, (n, a) in enumerate(var):
            e0 = zi(ent[i])
            C.append(('%s==entry' % n, lambda st, env, a=a, e0=e0: zi(a(st, env)) == e0))
            C.append(('%s>=entry' % n, lambda st, env, a=a, e0=e0: zi(a(st, env)) >= e0))
            C.append(('%s<=entry' % n, lambda st, env, a=a, e0=e0: zi(a(st, env)) <= e0))
            C.append(('%s>=0' % n, lambda st, env, a=a: zi(a(st, env)) >= 0))
            C.append(('%s<=64' % n, lambda st, env, a=a: zi(a(st, env)) <= 2**60))
            for kc in (-1, 0, 1):
                C.append(('%s<=%d' % (n, kc), lambda st, env, a=a, kc=kc: zi(a(st, env)) <= kc))
            for fv in fx:
                z = fv.z()
                for d in (0, 1, -1):
                    C.append(('%s<=%s+%d' % (n, fv, d), lambda st, env, a=a, z=z, d=d: zi(a(st, env)) <= z+d))
                    C.append(('%s>=%s+%d' % (n, fv, d), lambda st, env, a=a, z=z, d=d: zi(a(st, env)) >= z+d))
            for j in range(i+1, len(var)):
                m, b = var[j]; f0 = zi(ent[j])
                C.append(('%s-%s const' % (n, m), lambda st, env, a=a, b=b, e0=e0, f0=f0: zi(a(st, env))-zi(b(st, env)) == e0-f0))
                C.append(('%s+%s const' % (n, m), lambda st, env, a=a, b=b, e0=e0, f0=f0: zi(a(st, env))+zi(b(st, env)) == e0+f0))
                C.append(('%s<=%s' % (n, m), lambda st, env, a=a, b=b: zi(a(st, env)) <= zi(b(st, env))))
                C.append(('%s>=%s' % (n, m), lambda st, env, a=a, b=b: zi(a(st, env)) >= zi(b(st, env))))
                C.append(('%s<=%s+1' % (n, m), lambda st, env, a=a, b=b: zi(a(st, env)) <= zi(b(st, env))+1))
                C.append(('%s>=%s+1' % (n, m), lambda st, env, a=a, b=b: zi(a(st, env)) >= zi(b(st, env))+1))
                C.append(('%s+1<=%s' % (n, m), lambda st, env, a=a, b=b: zi(a(st, env))+1 <= zi(b(st, env))))
                for cf in getattr(s.E, 'loop_coefs', ()):
                    C.append(('%s+%d*%s const' % (n, cf, m), lambda st, env, a=a, b=b, e0=e0, f0=f0, cf=cf: zi(a(st, env))+cf*zi(b(st, env)) == e0+cf*f0))
                    C.append(('%d*%s+%s const' % (cf, n, m), lambda st, env, a=a, b=b, e0=e0, f0=f0, cf=cf: cf*zi(a(st, env))+zi(b(st, env)) == cf*e0+f0))
                for k in range(j+1, len(var)):
                    o, c = var[k]; g0 = zi(ent[k])
                    if len(var) <= 6:
                        C.append(('%s=%s+%s' % (n, m, o), lambda st, env, a=a, b=b, c=c, e0=e0, f0=f0, g0=g0: (zi(a(st, env))-e0) == (zi(b(st, env))-f0)+(zi(c(st, env))-g0)))
        # booleans
        for l in s.locs():
            v = s.entry_val(l)
            if isinstance(v, bool):
                C.append(('%s==%s' % (l, v), lambda st, env, l=l, v=v: bz(s.get(l, st, env)) == z3.BoolVal(v)))
        for nm, fn in s.E.inv_templates:
            def wrap(st, env, fn=fn):
                s.cur_env = env
                return fn(s.E, st, s)
            C.append(('spec:'+nm, wrap))
        return C

    def ev(s, c, st, env):
        try:
            r = c[1](st, env)
            return z3.BoolVal(True) if r is True else r
        except (KeyError, AttributeError, IndexError, TypeError, Unsupported): return None

    # main -----------------------------------------------------------
    def solve(s):
        E = s.E
        E.mute += 1
        try:
            for outer in range(12):
                s.rloc = {l for l in s.locs() if isinstance(s.entry_val(l), P) and s.entry_val(l).reg in s.rh and l in s.renamed} if s.rh else set()
                s.rmap_default = set(s.rh.values())
                cands = s.candidates()
                par = E.loop_stack[-1] if E.loop_stack else None
                prev = par.inner_prev.get(s.ckey()) if par else None
                if prev is not None: cands = [c for c in cands if canon(c[0]) in prev]
                s.rmap = {rh: r0 for r0, rh in s.rh.items()}
                live = s.filter(cands, s.st0, s.env0)
                res = s.houdini(live)
                if res is not None: return res
            raise Unsupported('loop: modified set does not stabilise')
        finally: E.mute -= 1

    renamed = set()

    def filter(s, cands, st, env):
        """subset of cands proved in st"""
        E = s.E
        fs = []
        out = []
        for c in cands:
            f = s.ev(c, st, env)
            if f is None: continue
            if z3.is_true(f): out.append(c); continue
            fs.append((c, f))
        base = list(st.pc)
        # quick mass filter by models over quantifier-free part
        isq = lambda x: has_quant(x[1]) or x[0][0].startswith('spec:') and not E.ground_specs
        qf = [x for x in fs if not isq(x)]; qq = [x for x in fs if isq(x)]
        qpc = [p for p in base if not has_quant(p)]
        bnd = E.bounds_of(qpc+[x[1] for x in qf])
        while qf:
            r, m = E._check(qpc+bnd+[z3.Not(z3.And(*[x[1] for x in qf]))], 4000, True)
            if r == z3.unsat: break
            if r == z3.sat:
                keep = [x for x in qf if not z3.is_false(m.eval(x[1], model_completion=True))]
                if len(keep) == len(qf):
                    keep = [x for x in qf if E.quick(st, x[1])]; qf = keep; break
                drop = [x for x in qf if x not in keep]
                # a dropped one may still hold thanks to quantified facts
                if len(qpc) != len(base) and len(drop) < 6:
                    pass
                qf = keep
            else:
                qf = [x for x in qf if E.quick(st, x[1])]; break
        out += [x[0] for x in qf]
        for c, f in qq:
            if E.prove(st, f, timeout=1500) is True: out.append(c)
        return out

    def houdini(s, live):
        E = s.E
        s.inner_prev = {}
        for it in range(40):
            st, env = s.mkstate()
            s.rmap = {rh: rh for rh in s.rh.values()}
            for c in live:
                f = s.ev(c, st, env)
                if f is not None and not z3.is_true(f): st.assume(f)
            stH = st.copy()
            a2 = dict(s.active); a2[s.h] = 'discover'
            s.inner_cur = {}
            E.loop_stack.append(s)
            try: outs = E.run(s.f, s.h, None, dict(env), st.copy(), s.body, a2, True)
            finally: E.loop_stack.pop()
            s.inner_prev = s.inner_cur
            backs = [o for o in outs if o[1] == 'back' and o[2][0] == s.h]
            grew = False
            for o in backs:
                if s.diff(stH, env, o[0], o[2][1]): grew = True
            if grew: return None
            bad = set()
            for o in backs:
                s.rmap = s.match(stH, env, o[0], o[2][1])
                ok = s.filter([c for c in live if id(c) not in bad], o[0], o[2][1])
                okids = {id(c) for c in ok}
                for c in live:
                    if id(c) not in okids: bad.add(id(c))
            if not bad:
                if E.loop_stack: E.loop_stack[-1].inner_cur.setdefault(s.ckey(), set()).update(canon(c[0]) for c in live)
                if len(live) > 25:
                    s.rmap = {rh: rh for rh in s.rh.values()}
                    live = s.prune(live)
                    stH, env = s.mkstate()
                    for c in live:
                        f = s.ev(c, stH, env)
                        if f is not None and not z3.is_true(f): stH.assume(f)
                E.loops_cut[(s.f.name, s.h)] = [c[0] for c in live]
                # fresh state for the final pass
                s.rmap = {rh: rh for rh in s.rh.values()}
                return [(stH, env)]
            live = [c for c in live if id(c) not in bad]
        raise Unsupported('houdini iterations')

    def ckey(s): return (s.f.name, s.h, len(s.E.fstack), tuple(sorted(str(l[0]) for l in s.mod)))

    def prune(s, live):
        """drop candidates implied by the remaining ones"""
        st, env = s.mkstate()
        fs = [(c, s.ev(c, st, env)) for c in live]
        fs = [(c, f) for c, f in fs if f is not None and not z3.is_true(f)]
        seen = set(); u = []
        for c, f in fs:
            if f.get_id() not in seen: seen.add(f.get_id()); u.append((c, f))
        q = [x for x in u if has_quant(x[1])]; u = [x for x in u if not has_quant(x[1])]
        base = [p for p in st.pc if not has_quant(p)]
        base += s.E.bounds_of(base+[f for c, f in u])
        # equalities first: they imply most of the rest
        u.sort(key=lambda x: 0 if z3.is_eq(x[1]) else 1)
        sol = z3.Solver(); sol.set('rlimit', 2500000)
        for b in base: sol.add(b)
        keep = []
        for c, f in u:
            sol.push(); sol.add(z3.Not(f)); r = sol.check(); sol.pop()
            s.E.nq += 1
            if r == z3.unsat: continue
            keep.append((c, f)); sol.add(f)
        # second pass, backwards
        i = len(keep)-1
        while i >= 0 and len(keep) > 6:
            rest = [f for j, (c, f) in enumerate(keep) if j != i]
            r, _ = s.E._check(base+rest+[z3.Not(keep[i][1])], 1000)
            if r == z3.unsat: del keep[i]
            i -= 1
        return [c for c, f in keep+q]

    def match(s, stH, envH, stB, envB):
        m = {}
        for l in s.locs():
            a = s.get(l, stH, envH); b = s.get(l, stB, envB)
            if isinstance(a, P) and a.reg in s.rmap_default and isinstance(b, P):
                if m.setdefault(a.reg, b.reg) is not b.reg: raise Unsupported('loop: inconsistent buffers')
        for rh in s.rh.values(): m.setdefault(rh, rh)
        return m

    def shape(s, loc, a, b):
        """reconcile pointer shapes; True if something had to be generalised"""
        if isinstance(a, P) and isinstance(b, P) and a.reg is not b.reg:
            if a.reg in s.rmap_default and b.reg.kind == 'buf': return False
            if b.reg is NULLR and nullconv(b, a.reg) is not None:
                if loc in s.famconv: return False
                s.famconv[loc] = a.reg; return True
            if a.reg is NULLR and nullconv(a, b.reg) is not None:
                if loc in s.famconv: return False
                s.famconv[loc] = b.reg; return True
            if a.reg.kind == 'buf' and b.reg.kind == 'buf' and a.reg not in s.rh.values():
                r0 = s.entry_val(loc).reg
                if r0 not in s.rh:
                    rh = s.E.new_region('buf', r0.name, stride=r0.stride, leaves=r0.leaves, opaque=r0.opaque)
                    rh.heap = True
                    s.rh = dict(s.rh); s.rh[r0] = rh
                s.renamed = set(s.renamed) | {loc}
                return True
            if a.reg.kind == 'buf' and b.reg.kind == 'buf': return False
            raise Unsupported('loop: pointer %s changes target %r -> %r' % (loc, a, b))
        if (a is UNDEF) != (b is UNDEF): return False
        return False

    def diff(s, stH, envH, stB, envB):
        grew = False
        for g in s.groups:
            if g not in s.novec and g[0] in stB.mem and vec_shape(stB, *g) is None:
                s.novec.add(g); grew = True
        for p in s.phis:
            if s.shape(('phi', p), envH[p], envB[p]): grew = True
        for r, rs in stH.mem.items():
            rb = stB.mem.get(r)
            if rb is rs or rb is None: continue
            if rb.alive is not rs.alive and r not in s.rh and r not in s.rmap_default:
                if r.kind == 'buf':
                    pass  # released inside the loop: pointers to it are renamed via shape()
                else: raise Unsupported('loop releases %r' % r)
            if r.kind == 'obj':
                for o in set(rs.cells) | set(rb.cells):
                    a = rs.cells.get(o); b = rb.cells.get(o)
                    if a is b: continue
                    loc = ('cell', r, o)
                    if isinstance(o, tuple):
                        if a is not None and (b is None or not sameval(a, b)) and loc not in s.mod: s.mod.add(loc); grew = True
                        continue
                    va = a[1] if a else UNDEF; vb = b[1] if b else UNDEF
                    if a and b and a[0] == b[0] and sameval(va, vb): continue
                    if va is UNDEF: continue     # not live at the header
                    if loc not in s.mod: s.mod.add(loc); grew = True
                    if s.shape(loc, s.get(loc, stH, envH), s.get(loc, stB, envB)): grew = True
                    if a and b and a[0] != b[0]: raise Unsupported('loop: cell size changes')
                if rs.zero != rb.zero: raise Unsupported('loop: memset region')
            elif r.kind == 'buf':
                if r in s.rmap_default: continue
                ch = rs.len is not rb.len and not (rs.len is not None and rb.len is not None and same(rs.len, rb.len))
                ch = ch or any(rs.cells.get(k) is not rb.cells.get(k) for k in rs.cells)
                if ch and ('buf', r) not in s.mod and rb.alive is True: s.mod.add(('buf', r)); grew = True
            elif r.kind == 'fam':
                for o in rs.cells:
                    if rs.cells[o] is not rb.cells[o] and ('fam', r, o) not in s.mod: s.mod.add(('fam', r, o)); grew = True
        for k in set(stH.ghost) | set(stB.ghost):
            a = stH.ghost.get(k); b = stB.ghost.get(k)
            if a is b or (a is not None and b is not None and sameval(a, b)): continue
            if a is None: continue
            if ('ghost', k) not in s.mod: s.mod.add(('ghost', k)); grew = True
        return grew

def bz(v): return z3.BoolVal(v) if isinstance(v, bool) else v

def collect(x, out):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == 'loc': out.add(x[1]); return
        for y in x: collect(y, out)
    elif isinstance(x, list):
        for y in x: collect(y, out)
    elif isinstance(x, dict):
        for y in x.values(): collect(y, out)

def cut(E, f, h, env, st, active):
    L = Loop(E, f, h, env, st, active)
    return L.solve()

_cn = re.compile(r'[!#][0-9]+')
def canon(n): return _cn.sub('', n)
