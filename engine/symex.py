"""Symbolic executor / verification condition generator over LLVM IR."""
import z3, re, time, sys
from ll import Unsupported, parse_type, Toks, tokenize
from core import *

sys.setrecursionlimit(20000)
# BOUNDS: ast id -> (lo,hi,term,fact)
SZMAX = 2**58

def size_var(name, lo=0, hi=SZMAX):
    v = fresh_int(name); BOUNDS[v.get_id()] = (lo, hi, v, z3.And(v >= lo, v <= hi)); return v

def interval(x):
    x = Lin.of(x); lo = hi = x.c
    for i, (c, a) in x.t.items():
        b = BOUNDS.get(i)
        if b is None: return None
        if c > 0: lo += c*b[0]; hi += c*b[1]
        else: lo += c*b[1]; hi += c*b[0]
    return lo, hi

class PathLimit(Unsupported): pass

class Obl:
    __slots__ = ('name', 'status', 'where', 'time', 'model', 'props', 'backend', 'detail')
    def __init__(s, name, status, where, t, model=None, props=(), backend='z3', detail=''):
        s.name = name; s.status = status; s.where = where; s.time = t; s.model = model; s.props = props; s.backend = backend; s.detail = detail

class Engine:
    ground_specs = False
    def __init__(s, mod, contracts, timeout=8000):
        s.mod = mod; s.contracts = contracts; s.obls = []; s.mute = 0
        s.timeout = timeout
        s.cc = {}; s.used_contracts = {}; s.inlined = set(); s.nq = 0; s.qt = 0.0; s.mhits = 0; s.inc = None
        s.paths = 0; s.depth = 0; s.default_props = (); s.prefix = ''
        s.gl = {}; s.inv_templates = []; s.loops_cut = {}; s.fstack = []
        s.deadline = None
        s.frozen = None; s.unsat_cache = {}
        s.extra_axioms = []; s.loop_stack = []

    # ------------------------------------------------------------ solver
    def _check(s, fs, timeout, want_model=False):
        s.nq += 1
        if s.deadline and time.time() > s.deadline: raise Unsupported('time budget exhausted')
        t = time.time()
        sol = z3.Solver()
        # the resource limit decides (independent of the machine's load); the clock is a backstop
        sol.set('rlimit', timeout*2500); sol.set('timeout', timeout*8)
        ctx = sol.ctx.ref(); so = sol.solver
        for f in fs: z3.Z3_solver_assert(ctx, so, f.ast)
        r = sol.check()
        s.qt += time.time()-t
        return r, (sol.model() if want_model and r == z3.sat else None)

    def bounds_of(s, fs):
        """range facts for the size atoms occurring in fs"""
        got = {}
        for f in fs: got.update(ast_info(f)[2])
        return [BOUNDS[i][3] for i in got]

    def feasible(s, st, extra=()):
        if any(e is False for e in extra): return False
        fs = [f for f in st.pc if not has_quant(f)] + [e for e in extra if e is not True]
        key = frozenset(f.get_id() for f in fs)
        c = s.unsat_cache.get(key)
        if c is not None: return c[0]
        # a model found for a prefix of the path may satisfy the rest
        for k, (m, ok) in enumerate(st.models):
            todo = [f for f in fs if f.get_id() not in ok]
            if all(z3.is_true(m.eval(f, model_completion=True)) for f in todo+[BOUNDS[a][3] for f in todo for a in ast_info(f)[2]]):
                if k: st.models = [st.models[k]]+st.models[:k]+st.models[k+1:]
                st.models[0] = (m, key); s.unsat_cache[key] = (True, fs); s.mhits += 1
                return True
        r, m = s.path_check(fs)
        if m is not None: st.models = [(m, key)]+st.models[:3]
        res = r != z3.unsat
        s.unsat_cache[key] = (res, fs)
        return res

    def path_check(s, fs):
        """satisfiability of a path condition, on a solver that keeps the common prefix of the last one"""
        s.nq += 1
        if s.deadline and time.time() > s.deadline: raise Unsupported('time budget exhausted')
        t = time.time()
        if s.inc is None or s.inc_n > 3000:
            s.inc = z3.SimpleSolver(); s.inc.set('rlimit', 7500000); s.inc.set('timeout', 24000); s.inc_st = []; s.inc_n = 0
        sol = s.inc; st = s.inc_st; ctx = sol.ctx.ref(); so = sol.solver; n = 0
        while n < len(st) and n < len(fs) and st[n].get_id() == fs[n].get_id(): n += 1
        if n < len(st): sol.pop(len(st)-n); del st[n:]
        for f in fs[n:]:
            sol.push(); st.append(f); s.inc_n += 1; z3.Z3_solver_assert(ctx, so, f.ast)
            for a in ast_info(f)[2]: z3.Z3_solver_assert(ctx, so, BOUNDS[a][3].ast)
        r = sol.check()
        s.qt += time.time()-t
        return r, (sol.model() if r == z3.sat else None)

    def prove(s, st, goal, timeout=None, model=False):
        """True/False/None; model returned when sat"""
        if goal is True: return (True, None) if model else True
        if goal is False: goal = z3.BoolVal(False)
        fs = list(st.pc) + s.extra_axioms + [z3.Not(goal)]
        fs += s.bounds_of(fs)
        qf = [f for f in fs if not has_quant(f)]
        r = None
        if len(qf) != len(fs) and not has_quant(goal):
            r, _ = s.path_check(qf)
            if r == z3.unsat: return (True, None) if model else True
        elif len(qf) == len(fs):
            r, m = s.path_check(qf)
            if r == z3.unsat: return (True, None) if model else True
            if r == z3.sat: return (False, m) if model else False
        r, m = s._check(fs, timeout or s.timeout, True)
        if r == z3.unsat: res = True
        elif r == z3.sat: res = False
        else:
            res = None
        return (res, m) if model else res

    def quick(s, st, goal):
        """cheap proof attempt with quantifier free facts"""
        if goal is True: return True
        if goal is False: goal = z3.BoolVal(False)
        r, _ = s.path_check([f for f in st.pc if not has_quant(f)] + [z3.Not(goal)])
        return r == z3.unsat

    def where(s): return s.fstack[-1] if s.fstack else ''

    def oblige(s, st, goal, name, props=None, where=None):
        """record an obligation; continue assuming it"""
        if s.mute:
            if goal is not True: st.assume(goal)
            return True
        if props and getattr(s, 'A', None): props = tuple(sorted(set(props) | set(s.default_props)))
        t = time.time()
        if goal is True: res, m = True, None
        else: res, m = s.prove(st, goal, model=True)
        backend = 'z3'
        if res is None:
            r2 = s.second_opinion(st, goal)
            if r2 is not None: res = r2; backend = 'cvc5'
        d = ''
        if res is not True and m is not None:
            d = ', '.join('%s=%s' % (x, m[x]) for x in list(m.decls())[:0])
            items = []
            for x in m.decls():
                if x.arity() == 0 and not x.name().startswith('addr_'): items.append('%s=%s' % (x.name(), m[x]))
            d = '; '.join(sorted(items)[:60])
        s.obls.append(Obl(s.prefix+name, {True: 'proved', False: 'failed', None: 'unknown'}[res], where or s.where(),
                          time.time()-t, m, props or s.default_props, backend, d))
        if goal is not True: st.assume(goal)
        return res is True

    def second_opinion(s, st, goal):
        try:
            import cvc5_run
            return cvc5_run.prove(list(st.pc)+s.extra_axioms, goal, s.bounds_of(list(st.pc)+[goal]))
        except Exception:
            return None

    def fail(s, st, name, props=None):
        s.oblige(st, False, name, props)

    # ------------------------------------------------------------ ints
    def inrange(s, st, x, lo, hi):
        x = Lin.of(x)
        if x.isconst(): return lo <= x.c < hi
        iv = interval(x)
        if iv and iv[0] >= lo and iv[1] < hi: return True
        return s.quick(st, z3.And(x.z() >= lo, x.z() < hi))

    def norm_u(s, st, x, w):
        x = mkint(x)
        if isinstance(x, int): return x % (1 << w)
        if s.inrange(st, x, 0, 1 << w): return x
        r = fresh_int('nu'); k = fresh_int('k')
        st.assume(z3.And(r == zi(x) + k*(1 << w), r >= 0, r < (1 << w)))
        return Lin.of(r)
    def norm_s(s, st, x, w):
        x = mkint(x)
        if isinstance(x, int):
            x %= (1 << w)
            return x - (1 << w) if x >= (1 << (w-1)) else x
        if s.inrange(st, x, -(1 << (w-1)), 1 << (w-1)): return x
        r = fresh_int('ns'); k = fresh_int('k')
        st.assume(z3.And(r == zi(x) + k*(1 << w), r >= -(1 << (w-1)), r < (1 << (w-1))))
        return Lin.of(r)

    def eq_int(s, st, a, b, w):
        d = Lin.of(a).add(b, -1)
        if d.isconst(): return d.c % (1 << w) == 0
        if s.inrange(st, d, -(1 << w)+1, 1 << w): return zi(a) == zi(b)
        return zi(s.norm_u(st, a, w)) == zi(s.norm_u(st, b, w))

    # ------------------------------------------------------------ pointers
    def rid(s, p):
        if isinstance(p, SP): return p.rid
        return z3.IntVal(p.reg.id)
    def pair(s, p):
        """(rid, off) encoding; families are not encodable"""
        if isinstance(p, SP): return (p.rid, zi(p.off))
        if p.key: raise Unsupported('family pointer stored in array')
        return (z3.IntVal(p.reg.id), zi(p.off))

    def ptr_eq(s, st, a, b):
        if a is UNDEF or b is UNDEF: raise Unsupported('comparison of undefined pointer')
        if isinstance(a, P) and isinstance(b, P):
            if a.reg is not b.reg:
                for x, y in ((a, b), (b, a)):
                    if x.reg is NULLR and getattr(y.reg, 'nullkey', None) is not None and same(x.off, 0): return zi(y.key[0]) == y.reg.nullkey
                return False
            c = []
            for x, y in zip(a.key, b.key):
                if not same(x, y): c.append(zi(x) == zi(y))
            d = Lin.of(a.off).add(b.off, -1)
            if d.isconst():
                if d.c != 0: return False
            else: c.append(zi(a.off) == zi(b.off))
            if not c: return True
            r = z3.And(*c) if len(c) > 1 else c[0]
            if getattr(a.reg, 'nullkey', None) is not None:
                nk = a.reg.nullkey
                r = z3.Or(r, z3.And(zi(a.key[0]) == nk, zi(b.key[0]) == nk))
            return r
        ra, oa = s.pair(a); rb, ob = s.pair(b)
        return z3.And(ra == rb, oa == ob)

    def resolve(s, st, p):
        """list of (state, P) for a possibly symbolic pointer"""
        if not isinstance(p, SP): return [(st, p)]
        rid = z3.simplify(p.rid)
        if z3.is_int_value(rid):
            reg = s.reg_by_id(st, rid.as_long())
            return [(st, P(reg, p.off))]
        out = []
        left = st
        tried = []
        for _ in range(6):
            fs = list(st.pc) + [rid != t for t in tried]
            r, m = s._check(fs + s.bounds_of(fs), 4000, True)
            if r == z3.unsat:
                return out
            if r != z3.sat:
                # try candidates by proof
                cand = None
                for reg in list(st.mem):
                    if s.prove(st, rid == reg.id) is True: cand = reg; break
                if cand is None: raise Unsupported('cannot resolve pointer target')
                return out + [(st, P(cand, p.off))]
            v = m.eval(rid, model_completion=True).as_long()
            reg = s.reg_by_id(st, v)
            if reg is None:
                # is it forced?  pointer with unknown target
                raise Unsupported('pointer target unknown')
            st2 = st.copy().assume(rid == v)
            out.append((st2, P(reg, p.off))); tried.append(v)
        raise Unsupported('pointer with too many targets')

    def reg_by_id(s, st, i):
        if i == 0: return NULLR
        for r in st.mem:
            if r.id == i: return r
        return None

    def split_off(s, st, reg, off):
        """byte offset -> (idx, inner)"""
        S = reg.stride
        L = Lin.of(off)
        idx = Lin(0); rest = {}
        for i, (c, a) in L.t.items():
            if c % S == 0: idx = idx.add(Lin(0, {i: (c//S, a)}))
            else: rest[i] = (c, a)
        if rest:
            R = Lin(0, rest)
            e = fresh_int('e')
            # rest is a multiple of S?
            if s.prove(st, R.z() % S == 0) is not True: raise Unsupported('misaligned access')
            st.assume(R.z() == S*e)
            idx = idx.add(e)
        q, inner = divmod(L.c, S)
        return mkint(idx.add(q)), inner

    def check_alive(s, st, p, what):
        if p.reg is NULLR:
            s.oblige(st, False, 'no-null-dereference:'+what); return False
        rs = st.rs(p.reg)
        if rs.alive is True: return True
        if rs.alive is False:
            s.oblige(st, False, 'no-use-after-release:'+what); return False
        s.oblige(st, rs.alive, 'no-use-after-release:'+what)
        return True

    # ------------------------------------------------------------ loads/stores
    def load(s, st, p, ty):
        ty = s.mod.rtype(ty)
        out = []
        for st, p in s.resolve(st, p):
            out += s._load(st, p, ty)
        return out

    def _load(s, st, p, ty):
        if ty[0] in ('struct', 'array'):
            n = len(ty[1]) if ty[0] == 'struct' else ty[1]
            acc = [(st, [])]
            for i in range(n):
                o, t = s.mod.field(ty, i)
                nacc = []
                for st1, l in acc:
                    for st2, v in s.load(st1, p.plus(o), t): nacc.append((st2, l+[v]))
                acc = nacc
            return acc
        if not s.check_alive(st, p, 'load'): return []
        if p.reg.loader:
            r = p.reg.loader(s, st, p, ty)
            if r is not None: return r
        sz = s.mod.size(ty)
        rs = st.rs(p.reg)
        if p.reg.kind == 'buf':
            idx, inner = s.split_off(st, p.reg, p.off)
            if rs.len is not None:
                s.oblige(st, z3.And(zi(idx) >= 0, zi(idx) < zi(rs.len)), 'access-in-range:load')
            f = rs.cells.get(inner)
            if f is None: raise Unsupported('load of unmodelled leaf %d of %r' % (inner, p.reg))
            v = f.get(*([zi(k) for k in p.key]+[zi(idx)]))
            if f.ptr:
                if ty[0] != 'ptr': raise Unsupported('pointer leaf loaded as int')
                return s.resolve_soft(st, SP(v[0], Lin.of(v[1])))
            return [(st, Lin.of(v))]
        if p.reg.kind == 'glob':
            return [(st, s.load_global(st, p, ty))]
        if p.reg.kind == 'fam':
            if not isinstance(p.off, int): raise Unsupported('symbolic offset into family')
            f = rs.cells.get(p.off)
            if f is None: raise Unsupported('load of unmodelled field %d of %r' % (p.off, p.reg))
            v = f.get(*[zi(k) for k in p.key])
            if f.ptr: return s.resolve_soft(st, SP(v[0], Lin.of(v[1])))
            return [(st, Lin.of(v))]
        if p.reg.kind != 'obj': raise Unsupported('load from %r' % p.reg)
        off = p.off
        if not isinstance(off, int): raise Unsupported('symbolic offset into object %r' % p.reg)
        if p.reg.size is not None and not (0 <= off and off+sz <= p.reg.size):
            s.oblige(st, False, 'access-in-range:object'); return []
        c = rs.cells.get(off)
        if c is not None and c[0] == sz:
            v = c[1]
            if ty[0] == 'int' and is_ptr(v):
                v = s.ptrtoint(v)
            elif ty[0] == 'ptr' and isinstance(v, (int, Lin)):
                v = s.inttoptr(v)
            elif ty[0] == 'int' and ty[1] == 1 and isinstance(v, (int, Lin)):
                v = s.tobool(st, v)
            return [(st, v)]
        if c is not None and c[0] > sz and isinstance(c[1], int):
            return [(st, c[1] % (1 << (8*sz)))]
        for a, b in rs.zero:
            if a <= off and off+sz <= b:
                if not any(o < off+sz and o+x[0] > off for o, x in rs.cells.items()):
                    return [(st, NULL if ty[0] == 'ptr' else 0)]
        return [(st, UNDEF)]

    def resolve_soft(s, st, sp):
        rid = z3.simplify(sp.rid)
        if z3.is_int_value(rid):
            reg = s.reg_by_id(st, rid.as_long())
            if reg is not None: return [(st, P(reg, sp.off))]
        return [(st, SP(sp.rid, sp.off))]

    def store(s, st, p, v, ty):
        """returns list of states"""
        ty = s.mod.rtype(ty)
        outs = []
        for st, p in s.resolve(st, p):
            if ty[0] in ('struct', 'array') and isinstance(v, list):
                sts = [st]
                for i, x in enumerate(v):
                    o, t = s.mod.field(ty, i)
                    sts = [b for a in sts for b in s.store(a, p.plus(o), x, t)]
                outs += sts
                continue
            if not s.check_alive(st, p, 'store'): continue
            s.write_guard(st, p)
            sz = s.mod.size(ty)
            if p.reg.kind == 'obj':
                off = p.off
                if not isinstance(off, int): raise Unsupported('symbolic offset store')
                if p.reg.size is not None and not (0 <= off and off+sz <= p.reg.size):
                    s.oblige(st, False, 'access-in-range:object-store'); continue
                rs = st.w(p.reg)
                s.kill(rs, off, sz)
                if isinstance(v, bool) or z3.is_bool(v): v = s.frombool(v)
                rs.cells[off] = (sz, v)
                outs.append(st)
            elif p.reg.kind == 'buf':
                idx, inner = s.split_off(st, p.reg, p.off)
                rs = st.w(p.reg)
                if rs.len is not None:
                    s.oblige(st, z3.And(zi(idx) >= 0, zi(idx) < zi(rs.len)), 'access-in-range:store')
                f = rs.cells.get(inner)
                if f is None: raise Unsupported('store to unmodelled leaf')
                rs.cells[inner] = f.upd(tuple(p.key)+(idx,), s.pair(v) if f.ptr else zi(v))
                outs.append(st)
            elif p.reg.kind == 'fam':
                if not isinstance(p.off, int): raise Unsupported('symbolic offset family store')
                rs = st.w(p.reg)
                f = rs.cells.get(p.off)
                if f is None: raise Unsupported('store to unmodelled field %d of %r' % (p.off, p.reg))
                rs.cells[p.off] = f.upd(tuple(p.key), s.pair(v) if f.ptr else zi(v))
                outs.append(st)
            else: raise Unsupported('store to %r' % p.reg)
        return outs

    def write_guard(s, st, p):
        if s.frozen and p.reg in s.frozen and not s.mute:
            s.oblige(st, False, 'frame:no-write-to-%s' % p.reg.name)

    @staticmethod
    def kill(rs, off, sz):
        for o in [o for o, c in rs.cells.items() if isinstance(o, int) and o < off+sz and o+c[0] > off]:
            c = rs.cells[o]
            if o >= off and o+c[0] <= off+sz: del rs.cells[o]
            else:
                del rs.cells[o]
                if isinstance(c[1], int):
                    # split constant
                    for j in range(c[0]):
                        if not (off <= o+j < off+sz): rs.cells[o+j] = (1, (c[1] >> (8*j)) & 255)
        nz = []
        for a, b in rs.zero:
            if b <= off or a >= off+sz: nz.append((a, b))
            else:
                if a < off: nz.append((a, off))
                if off+sz < b: nz.append((off+sz, b))
        rs.zero = nz

    def memcpy(s, st, d, sr, n):
        if isinstance(n, Lin): raise Unsupported('memcpy of symbolic length')
        if n == 0: return [st]
        outs = []
        for st, d in s.resolve(st, d):
            for st1, sr1 in s.resolve(st, sr):
                if not s.check_alive(st1, d, 'memcpy') or not s.check_alive(st1, sr1, 'memcpy'): continue
                s.write_guard(st1, d)
                if d.reg.kind == 'obj' and sr1.reg.kind == 'obj' and isinstance(d.off, int) and isinstance(sr1.off, int):
                    for q in (d, sr1):
                        if q.reg.size is not None and not (0 <= q.off and q.off+n <= q.reg.size):
                            s.oblige(st1, False, 'access-in-range:memcpy')
                    srs = st1.rs(sr1.reg)
                    items = [(o-sr1.off, c) for o, c in srs.cells.items() if isinstance(o, int) and sr1.off <= o and o+c[0] <= sr1.off+n]
                    zz = [(max(a, sr1.off)-sr1.off, min(b, sr1.off+n)-sr1.off) for a, b in srs.zero if a < sr1.off+n and b > sr1.off]
                    val = srs.cells.get(('val', sr1.off))
                    rs = st1.w(d.reg)
                    s.kill(rs, d.off, n)
                    for o, c in items: rs.cells[d.off+o] = c
                    for a, b in zz: rs.zero.append((a+d.off, b+d.off))
                    if val is not None: rs.cells[('val', d.off)] = val
                    outs.append(st1)
                else:
                    # leafwise
                    reg = sr1.reg if sr1.reg.kind in ('buf', 'fam') else d.reg
                    if not reg.leaves: raise Unsupported('memcpy %r -> %r' % (sr1.reg, d.reg))
                    sts = [st1]
                    inner = 0
                    if reg.kind == 'buf': inner = s.split_off(st1, reg, (sr1 if reg is sr1.reg else d).off)[1]
                    for o, t in reg.leaves:
                        o -= inner
                        if o < 0 or o >= n: continue
                        sts = [c for a in sts for b, v in s.load(a, sr1.plus(o), t) for c in s.store(b, d.plus(o), v, t)]
                    outs += sts
        return outs

    # ------------------------------------------------------------ conversions
    def tobool(s, st, v):
        if isinstance(v, bool) or z3.is_bool(v): return v
        if isinstance(v, int): return bool(v & 1)
        if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1:
            (c, a), = v.t.values()
            if c == 1 and z3.is_app_of(a, z3.Z3_OP_ITE) and z3.is_int_value(a.arg(1)) and a.arg(1).as_long() == 1 and z3.is_int_value(a.arg(2)) and a.arg(2).as_long() == 0:
                return a.arg(0)
        if v is UNDEF: return v
        return zi(v) % 2 == 1
    def frombool(s, v):
        if isinstance(v, bool): return int(v)
        return Lin.of(z3.If(v, z3.IntVal(1), z3.IntVal(0)))

    def ptrtoint(s, p):
        if isinstance(p, SP): raise Unsupported('ptrtoint of symbolic pointer')
        if p.reg is NULLR: return p.off
        if p.key: 
            return Lin.of(s.fam_base(p)).add(p.off)
        return Lin.of(p.reg.base).add(p.off)
    def fam_base(s, p):
        f = p.reg.__dict__.setdefault('basefn', z3.Function('addrf_%d' % p.reg.id, *([z3.IntSort()]*(len(p.key)+1))))
        t = f(*[zi(k) for k in p.key])
        s.fam_terms = getattr(s, 'fam_terms', {})
        s.fam_terms[t.get_id()] = (t, p.reg, p.key)
        return t
    def inttoptr(s, v, st=None):
        v = Lin.of(v)
        if v.isconst(): return P(NULLR, v.c)
        for i, (c, a) in v.t.items():
            if c == 1 and a.decl().name().startswith('addr_') and a.num_args() == 0:
                for r in s.allregs:
                    if r.base.get_id() == i:
                        return P(r, v.add(Lin(0, {i: (1, a)}), -1))
            ft = getattr(s, 'fam_terms', {}).get(i)
            if c == 1 and ft: return P(ft[1], v.add(Lin(0, {i: (1, a)}), -1), ft[2])
        raise Unsupported('inttoptr %r' % v)
    allregs = []

    def new_region(s, *a, **k):
        r = Region(*a, **k); Engine.allregs.append(r); return r

    # ------------------------------------------------------------ operands
    def glob(s, st, nm):
        if nm in s.gl: r = s.gl[nm]
        else:
            if nm in s.mod.funcs or nm in s.mod.decls: r = s.new_region('fn', nm)
            else: r = s.new_region('glob', nm)
            s.gl[nm] = r
        if r not in st.mem: st.mem[r] = RS()
        return P(r, 0)

    def load_global(s, st, p, ty):
        g = s.mod.global_init(p.reg.name)
        if g is None or g[1] is None: return s.external_global(st, p, ty)
        t, v = g
        off = p.off
        if not isinstance(off, int): raise Unsupported('symbolic offset global')
        while True:
            t = s.mod.rtype(t)
            if v == ('zero',): return NULL if ty[0] == 'ptr' else 0
            if t[0] in ('struct', 'array'):
                n = len(t[1]) if t[0] == 'struct' else t[1]
                if v[0] != 'agg': raise Unsupported('global init')
                for i in range(n):
                    o, tt = s.mod.field(t, i)
                    if o <= off < o+max(1, s.mod.size(tt)):
                        off -= o; t = tt; v = v[1][i][1]; break
                else: raise Unsupported('global offset')
                continue
            return s.val(st, {}, t, v)
    def external_global(s, st, p, ty): raise Unsupported('external global ' + p.reg.name)

    def val(s, st, env, ty, v):
        k = v[0]
        if k == 'loc':
            try: return env[v[1]]
            except KeyError: raise Unsupported('undefined local ' + v[1])
        if k == 'const':
            if ty == ('int', 1): return bool(v[1] & 1)
            return v[1]
        if k == 'null': return NULL
        if k == 'undef':
            t = s.mod.rtype(ty)
            if t[0] == 'struct': return [s.val(st, env, x, v) for x in t[1]]
            return UNDEF
        if k == 'zero':
            t = s.mod.rtype(ty)
            if t[0] == 'struct': return [s.val(st, env, x, v) for x in t[1]]
            if t[0] == 'ptr': return NULL
            return 0
        if k == 'glob': return s.glob(st, v[1])
        if k == 'gep':
            return s.gep(st, env, v[1], v[2])
        if k == 'cast':
            x = s.val(st, env, v[2], v[3])
            if v[1] == 'inttoptr': return s.inttoptr(x)
            if v[1] == 'ptrtoint': return s.ptrtoint(x)
            return x
        if k == 'fconst': return Opaque()
        if k == 'agg': return [s.val(st, env, t, x) for t, x in v[1]]
        raise Unsupported('operand ' + str(v))

    def gep(s, st, env, bt, ops):
        p = s.val(st, env, ops[0][0], ops[0][1])
        off = Lin(0)
        t = bt
        for j, (ity, iv) in enumerate(ops[1:]):
            i = s.val(st, env, ity, iv)
            if i is UNDEF: raise Unsupported('gep with undefined index')
            if j == 0:
                off = off.add(Lin.of(s.signed(st, i, ity[1])).mulc(s.mod.size(t)))
            else:
                tt = s.mod.rtype(t)
                if tt[0] == 'struct':
                    o, t = s.mod.field(tt, i); off = off.add(o)
                else:
                    off = off.add(Lin.of(i).mulc(s.mod.size(tt[2]))); t = tt[2]
        if p is UNDEF: raise Unsupported('gep on undefined pointer')
        if isinstance(p, SP): return SP(p.rid, Lin.of(p.off).add(off))
        return p.plus(off)
    def signed(s, st, i, w):
        if isinstance(i, int):
            i %= (1 << w)
            return i - (1 << w) if i >= 1 << (w-1) else i
        return i

    # ------------------------------------------------------------ execution
    def call_name(s, st, fnv):
        if isinstance(fnv, SP):
            raise Unsupported('symbolic function pointer')
        if fnv.reg.kind != 'fn': raise Unsupported('call through %r' % fnv)
        return fnv.reg.name

    def do_call(s, st, name, args, info):
        dem = s.mod.demangle(name)
        h = s.lookup(name, dem)
        if h is not None:
            s.used_contracts[h.cname] = s.used_contracts.get(h.cname, 0)+1
            s.fstack.append(dem[:200])
            try: return h(s, st, args, dict(info, name=name, dem=dem))
            finally: s.fstack.pop()
        f = s.mod.func(name)
        if f is None: raise Unsupported('no contract or body for ' + dem[:160])
        s.inlined.add(dem)
        return s.exec_fn(st, f, args)

    def lookup(s, name, dem):
        if name in s.cc: return s.cc[name]
        r = None
        for pat, h in s.contracts:
            if pat.search(dem) if not callable(pat) else pat(name, dem):
                r = h; break
        s.cc[name] = r
        return r

    def exec_fn(s, st, f, args):
        s.depth += 1
        if s.depth > 80: raise Unsupported('call depth')
        s.fstack.append(s.mod.demangle(f.name)[:200])
        env = {}
        if len(args) < len(f.params): raise Unsupported('argument count for '+f.name)
        for (n, t, rec), a in zip(f.params, args):
            if 'byval' in rec:
                r = s.new_region('obj', 'byval', s.mod.size(rec['byval'])); st.mem[r] = RS()
                q = P(r, 0)
                l = s.memcpy(st, q, a, s.mod.size(rec['byval']))
                if len(l) != 1: raise Unsupported('byval split')
                st = l[0]; a = q
            env[n] = a
        try: outs = s.run(f, f.entry, None, env, st, None, {})
        finally:
            s.depth -= 1; s.fstack.pop()
        return [o for o in outs if o[1] in ('ret', 'throw')]

    def run(s, f, block, pred, env, st, within, active, skiploop=False):
        outs = []
        work = [(block, pred, env, st, 0, skiploop)]
        while work:
            b, pr, env, st, i, skip = work.pop()
            if i == 0:
                if within is not None and b not in within:
                    outs.append((st, 'exit', b)); continue
                blk = f.blocks[b]
                if not skip:
                    if blk.phis:
                        env = dict(env)
                        vals = []
                        for ph in blk.phis:
                            for v, l in ph.a[1]:
                                if l == pr or (pr == f.entry and l == f.entry_alias):
                                    vals.append((ph.res, s.val(st, env, ph.a[0], v))); break
                            else: raise Unsupported('phi without edge')
                        for n, v in vals: env[n] = v
                    if b in f.loops:
                        if pr in f.loops[b]:
                            m = active.get(b)
                            if m == 'discover': outs.append((st, 'back', (b, env))); continue
                            if m == 'final': s.paths += 1; continue
                        # entering the loop anew
                        for st2, env2 in s.cut_loop(f, b, env, st, active):
                            a2 = dict(active); a2[b] = 'final'
                            outs += s.run(f, b, None, env2, st2, within, a2, True)
                        continue
            blk = f.blocks[b]
            n = len(blk.insts)
            dead = False
            while i < n:
                ins = blk.insts[i]
                r = s.step(f, ins, st, env, b)
                i += 1
                if r is None: continue
                kind = r[0]
                if kind == 'set':
                    env = r[1]; continue   # env copied on fork only; simple set
                if kind == 'goto':
                    # list of (state, env, target)
                    for st2, env2, tgt in r[1]: work.append((tgt, b, env2, st2, 0, False))
                    dead = True; break
                if kind == 'fork':
                    l = r[1]
                    if len(l) == 1:
                        st, env = l[0]; continue
                    for st2, env2 in l[1:]: work.append((b, pr, env2, st2, i, True))
                    if not l: dead = True; break
                    st, env = l[0]; continue
                if kind == 'mixed':
                    # normal continuations + terminal outcomes
                    outs += r[2]
                    l = r[1]
                    if not l: dead = True; break
                    for st2, env2 in l[1:]: work.append((b, pr, env2, st2, i, True))
                    st, env = l[0]; continue
                if kind == 'out':
                    outs += r[1]; dead = True; break
            if len(outs) + len(work) > 3000: raise PathLimit('path limit in ' + f.name)
        return outs

    def bind(s, env, res, v):
        if res is None: return env
        e = dict(env); e[res] = v; return e

    def branch(s, st, c):
        """list of (state, bool)"""
        if isinstance(c, bool): return [(st, c)]
        if c is UNDEF: raise Unsupported('branch on undefined value')
        c = z3.simplify(c)
        if z3.is_true(c): return [(st, True)]
        if z3.is_false(c): return [(st, False)]
        t = s.feasible(st, [c]); e = s.feasible(st, [z3.Not(c)])
        out = []
        if t: out.append((st.copy().assume(c) if e else st.assume(c) if False else st.copy().assume(c), True))
        if e: out.append((st.copy().assume(z3.Not(c)), False))
        return out

    def step(s, f, ins, st, env, blk):
        op = ins.op; a = ins.a
        V = lambda t, v: s.val(st, env, t, v)
        if op == 'alloca':
            t, n = a
            sz = s.mod.size(t)
            if n is not None:
                k = V(('int', 64), n)
                if not isinstance(k, int): raise Unsupported('dynamic alloca')
                sz *= k
            r = s.new_region('obj', 'local', sz); st.mem[r] = RS()
            env[ins.res] = P(r, 0); return None
        if op == 'load':
            t, p = a
            l = s.load(st, V(('ptr',), p), t)
            if len(l) == 1 and l[0][0] is st:
                env[ins.res] = l[0][1]; return None
            return ('fork', [(x, s.bind(env, ins.res, v)) for x, v in l])
        if op == 'store':
            t, v, p = a
            l = s.store(st, V(('ptr',), p), V(t, v), t)
            return ('fork', [(x, env if i == 0 else dict(env)) for i, x in enumerate(l)])
        if op == 'getelementptr':
            env[ins.res] = s.gep(st, env, a[0], a[1]); return None
        if op in ('call', 'invoke'):
            return s.step_call(f, ins, st, env)
        if op == 'br':
            if len(a) == 1: return ('goto', [(st, env, a[0])])
            c = V(('int', 1), a[0])
            return ('goto', [(x, dict(env), a[1] if v else a[2]) for x, v in s.branch(st, c)])
        if op == 'switch':
            t, c, d, cs = a
            c = V(t, c)
            res = []
            cur = st
            for v, l in cs:
                e = s.eq_int(cur, c, v[1], t[1])
                br = s.branch(cur, e)
                nxt = None
                for x, y in br:
                    if y: res.append((x, dict(env), l))
                    else: nxt = x
                if nxt is None: cur = None; break
                cur = nxt
            if cur is not None: res.append((cur, dict(env), d))
            return ('goto', res)
        if op == 'ret':
            v = None if a[1] is None else V(a[0], a[1])
            return ('out', [(st, 'ret', v)])
        if op == 'unreachable':
            s.paths += 1
            return ('out', [])
        if op == 'resume':
            return ('out', [(st, 'throw', None)])
        if op == 'icmp':
            p, t, x, y = a
            env[ins.res] = s.icmp(st, p, t, V(t, x), V(t, y)); return None
        if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            t = a[0]
            env[ins.res] = s.arith(st, op, t, V(t, a[1]), V(t, a[2]), a[3]); return None
        if op in ('zext', 'sext', 'trunc'):
            t, v, t2 = a
            x = V(t, v)
            if x is UNDEF: env[ins.res] = x; return None
            if t == ('int', 1):
                x = s.frombool(x)
                if op == 'sext': x = scale(x, -1)
            elif t2 == ('int', 1): x = s.tobool(st, x)
            elif op == 'zext': x = s.norm_u(st, x, t[1])
            elif op == 'sext': x = s.norm_s(st, x, t[1])
            env[ins.res] = x; return None
        if op == 'ptrtoint':
            x = V(a[0], a[1])
            l = s.resolve(st, x)
            if len(l) == 1:
                st2, x = l[0]
                env[ins.res] = s.ptrtoint(x)
                return None if st2 is st else ('fork', [(st2, env)])
            return ('fork', [(q, s.bind(env, ins.res, s.ptrtoint(x))) for q, x in l])
        if op == 'inttoptr':
            env[ins.res] = s.inttoptr(V(a[0], a[1])); return None
        if op in ('bitcast', 'freeze'):
            env[ins.res] = V(a[0], a[1]); return None
        if op == 'select':
            c, t, x, y = a
            c = V(('int', 1), c); x = V(t, x); y = V(t, y)
            if isinstance(c, bool): env[ins.res] = x if c else y; return None
            if t[0] == 'int' and x is not UNDEF and y is not UNDEF:
                if t[1] == 1:
                    bx = z3.BoolVal(x) if isinstance(x, bool) else x; by = z3.BoolVal(y) if isinstance(y, bool) else y
                    env[ins.res] = z3.If(c, bx, by)
                else: env[ins.res] = Lin.of(z3.If(c, zi(x), zi(y)))
                return None
            return ('fork', [(q, s.bind(env, ins.res, x if b else y)) for q, b in s.branch(st, c)])
        if op == 'extractvalue':
            v = V(a[0], a[1])
            for i in a[2]: v = v[i]
            env[ins.res] = v; return None
        if op == 'insertvalue':
            t, v, t2, w, idx = a
            v = V(t, v); w = V(t2, w)
            def ins_(v, idx):
                v = list(v)
                if len(idx) == 1: v[idx[0]] = w
                else: v[idx[0]] = ins_(v[idx[0]], idx[1:])
                return v
            env[ins.res] = ins_(v, idx); return None
        if op == 'landingpad':
            sel = s.selector(st, a[1])
            env[ins.res] = [st.exc if st.exc is not None else NULL, sel]; return None
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'sitofp', 'uitofp', 'fpext', 'fptrunc'):
            env[ins.res] = Opaque(); return None
        if op in ('fptosi', 'fptoui'):
            env[ins.res] = Lin.of(fresh_int('fp')); return None
        if op == 'fcmp':
            env[ins.res] = fresh_bool('fc'); return None
        raise Unsupported('op ' + op)

    def selector(s, st, clauses):
        return Lin.of(fresh_int('sel'))

    def icmp(s, st, p, t, x, y):
        if x is UNDEF or y is UNDEF: return UNDEF
        if t[0] == 'ptr':
            if p == 'eq': return s.ptr_eq(st, x, y)
            if p == 'ne':
                e = s.ptr_eq(st, x, y)
                return (not e) if isinstance(e, bool) else z3.Not(e)
            if isinstance(x, P) and isinstance(y, P) and x.reg is y.reg:
                a, b = x.off, y.off
                if x.key or y.key: s.oblige(st, z3.And(*[zi(k) == zi(l) for k, l in zip(x.key, y.key)]), 'pointers-of-same-object:compare')
            else: raise Unsupported('ordering of unrelated pointers')
        elif t[1] == 1:
            bx = z3.BoolVal(x) if isinstance(x, bool) else x; by = z3.BoolVal(y) if isinstance(y, bool) else y
            r = bx == by
            r = z3.simplify(r if p == 'eq' else z3.Not(r))
            return True if z3.is_true(r) else False if z3.is_false(r) else r
        elif p in ('eq', 'ne'):
            e = s.eq_int(st, x, y, t[1])
            if p == 'eq': return e
            return (not e) if isinstance(e, bool) else z3.Not(e)
        elif p[0] == 'u': a, b = s.norm_u(st, x, t[1]), s.norm_u(st, y, t[1])
        else: a, b = s.norm_s(st, x, t[1]), s.norm_s(st, y, t[1])
        d = Lin.of(a).add(b, -1)
        q = p[1:]
        if d.isconst():
            return {'lt': d.c < 0, 'le': d.c <= 0, 'gt': d.c > 0, 'ge': d.c >= 0}[q]
        za, zb = zi(a), zi(b)
        return {'lt': za < zb, 'le': za <= zb, 'gt': za > zb, 'ge': za >= zb}[q]

    def arith(s, st, op, t, x, y, fl):
        if x is UNDEF or y is UNDEF: return UNDEF
        if isinstance(x, Opaque) or isinstance(y, Opaque): return Lin.of(fresh_int('op'))
        w = t[1]
        if w == 1:
            bx = z3.BoolVal(x) if isinstance(x, bool) else x; by = z3.BoolVal(y) if isinstance(y, bool) else y
            r = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](bx, by)
            r = z3.simplify(r)
            return True if z3.is_true(r) else False if z3.is_false(r) else r
        if isinstance(x, int) and isinstance(y, int):
            m = (1 << w)-1; ux, uy = x & m, y & m
            sx = ux - (1 << w) if ux >> (w-1) else ux; sy = uy - (1 << w) if uy >> (w-1) else uy
            if op == 'add': return x+y
            if op == 'sub': return x-y
            if op == 'mul': return x*y
            if op == 'and': return ux & uy
            if op == 'or': return ux | uy
            if op == 'xor': return ux ^ uy
            if op == 'shl': return (ux << uy) & m
            if op == 'lshr': return ux >> uy
            if op == 'ashr': return sx >> uy
            if op == 'udiv' and uy: return ux//uy
            if op == 'urem' and uy: return ux % uy
            if op == 'sdiv' and sy: return int(abs(sx)//abs(sy)) * (1 if (sx < 0) == (sy < 0) else -1)
            if op == 'srem' and sy: return sx - sy*(int(abs(sx)//abs(sy)) * (1 if (sx < 0) == (sy < 0) else -1))
        if op == 'add': return add(x, y)
        if op == 'sub': return sub(x, y)
        if op == 'mul':
            if isinstance(y, int): return scale(x, s.signed(st, y, w))
            if isinstance(x, int): return scale(y, s.signed(st, x, w))
            return Lin.of(zi(x)*zi(y))
        if op == 'shl' and isinstance(y, int): return scale(x, 1 << y)
        if op in ('sdiv', 'udiv', 'lshr', 'ashr') and isinstance(y, int):
            k = y if op in ('sdiv', 'udiv') else 1 << y
            L = Lin.of(x)
            if k > 0 and L.divisible(k) and ('exact' in fl or op != 'udiv' or True):
                if 'exact' in fl or op in ('sdiv',): return mkint(L.divc(k))
            x = s.norm_u(st, x, w) if op in ('udiv', 'lshr') else s.norm_s(st, x, w)
            L = Lin.of(x)
            if L.divisible(k): return mkint(L.divc(k))
            q = fresh_int('q')
            if op == 'sdiv':
                st.assume(z3.If(zi(x) >= 0, z3.And(k*q <= zi(x), zi(x) < k*q+k), z3.And(k*q >= zi(x), zi(x) > k*q-k)))
            else: st.assume(z3.And(k*q <= zi(x), zi(x) < k*q+k))
            return Lin.of(q)
        if op in ('urem', 'srem') and isinstance(y, int) and y > 0:
            x = s.norm_u(st, x, w) if op == 'urem' else s.norm_s(st, x, w)
            if op == 'srem' and not s.inrange(st, x, 0, 1 << w): raise Unsupported('srem of negative')
            q = fresh_int('q'); r = fresh_int('r')
            st.assume(z3.And(zi(x) == y*q+r, r >= 0, r < y)); return Lin.of(r)
        if op == 'and' and isinstance(y, int):
            if (y & (y+1)) == 0 and y >= 0:
                x = s.norm_u(st, x, w); q = fresh_int('q'); r = fresh_int('r')
                st.assume(z3.And(zi(x) == (y+1)*q+r, r >= 0, r <= y)); return Lin.of(r)
        if op == 'xor' and isinstance(y, int) and s.signed(st, y, w) == -1: return sub(-1, x)
        if op in ('and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'urem', 'sdiv', 'srem'):
            if op in ('udiv', 'sdiv'):
                # symbolic divisor
                ux = s.norm_u(st, x, w) if op == 'udiv' else s.norm_s(st, x, w); uy = s.norm_u(st, y, w) if op == 'udiv' else s.norm_s(st, y, w)
                q = fresh_int('q')
                # stride quotient: x == uy*q' syntactically handled by the solver
                X, Y = zi(ux), zi(uy)
                st.assume(z3.Implies(Y > 0, z3.If(X >= 0, z3.And(Y*q <= X, X < Y*q + Y), z3.And(Y*q >= X, X > Y*q - Y))))
                return Lin.of(q)
            r = size_var('bits', 0, (1 << w)-1)
            return Lin.of(r)
        raise Unsupported('arith ' + op)

    # ------------------------------------------------------------ calls
    def step_call(s, f, ins, st, env):
        d = ins.a
        fn = d['fn']
        args = [s.val(st, env, t, v) for t, v, rec in d['args']]
        if fn[0] == 'glob': name = fn[1]
        else:
            fv = s.val(st, env, ('ptr',), fn)
            l = s.resolve(st, fv)
            if len(l) != 1: raise Unsupported('ambiguous indirect call')
            st, fv = l[0]
            name = s.call_name(st, fv)
        outs = s.call_named(st, name, args, d)
        if outs is None:
            return None
        if ins.op == 'call':
            cont = []; term = []
            for o in outs:
                if o[1] == 'ret': cont.append((o[0], s.bind(env, ins.res, o[2])))
                else: term.append(o)
            return ('mixed', cont, term)
        res = []
        for o in outs:
            if o[1] == 'ret': res.append((o[0], s.bind(env, ins.res, o[2]), d['to']))
            else: res.append((o[0], dict(env), d['unwind']))
        return ('goto', res)

    def call_named(s, st, name, args, d):
        if name.startswith('llvm.'):
            return s.intrinsic(st, name, args, d)
        return s.do_call(st, name, args, {'ret': d['ret'], 'args': d['args']})

    def intrinsic(s, st, name, args, d):
        if name.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.invariant')): return [(st, 'ret', None)]
        if name.startswith('llvm.assume'): return [(st, 'ret', None)]
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            return [(x, 'ret', None) for x in s.memcpy(st, args[0], args[1], args[2])]
        if name.startswith('llvm.memset'):
            n = args[2]; v = args[1]
            if not isinstance(n, int): raise Unsupported('memset symbolic')
            outs = []
            for st, p in s.resolve(st, args[0]):
                if not s.check_alive(st, p, 'memset'): continue
                s.write_guard(st, p)
                if p.reg.kind != 'obj' or not isinstance(p.off, int): raise Unsupported('memset target')
                rs = st.w(p.reg); s.kill(rs, p.off, n)
                if v == 0: rs.zero.append((p.off, p.off+n))
                outs.append((st, 'ret', None))
            return outs
        if name.startswith('llvm.umul.with.overflow'):
            a, b = s.norm_u(st, args[0], 64), s.norm_u(st, args[1], 64)
            r = s.arith(st, 'mul', ('int', 64), a, b, [])
            ov = zi(r) >= (1 << 64)
            if s.inrange(st, r, 0, 1 << 64): ov = False
            return [(st, 'ret', [r, ov])]
        if name.startswith('llvm.uadd.with.overflow'):
            a, b = s.norm_u(st, args[0], 64), s.norm_u(st, args[1], 64)
            r = add(a, b); ov = zi(r) >= (1 << 64)
            if s.inrange(st, r, 0, 1 << 64): ov = False
            return [(st, 'ret', [r, ov])]
        if name.startswith('llvm.eh.typeid.for'): return [(st, 'ret', Lin.of(fresh_int('tid')))]
        if name.startswith('llvm.expect'): return [(st, 'ret', args[0])]
        if name.startswith(('llvm.umax', 'llvm.umin')):
            a, b = s.norm_u(st, args[0], 64), s.norm_u(st, args[1], 64)
            c = zi(a) >= zi(b) if 'umax' in name else zi(a) <= zi(b)
            return [(st, 'ret', Lin.of(z3.If(c, zi(a), zi(b))))]
        if name.startswith('llvm.is.constant'): return [(st, 'ret', False)]
        if name.startswith(('llvm.launder', 'llvm.strip', 'llvm.ptr.annotation')): return [(st, 'ret', args[0])]
        if name.startswith('llvm.trap'):
            s.oblige(st, False, 'no-trap'); return []
        raise Unsupported(name)

    # ------------------------------------------------------------ loops
    def cut_loop(self, f, h, env, st, active):
        import loops
        return loops.cut(self, f, h, env, st, active)
