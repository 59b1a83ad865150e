"""Parser for the subset of LLVM 18 textual IR that clang emits for /repo's
headers (after `opt -passes=sroa`).  Function bodies are parsed lazily."""
import re, subprocess

class Unsupported(Exception):
    pass

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<glob>@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)
 |(?P<loc>%"(?:[^"\\]|\\.)*"|%[-a-zA-Z$._0-9]+)
 |(?P<meta>!"[^"]*"|![-a-zA-Z$._0-9]*)
 |(?P<attr>\#[0-9]+)
 |(?P<comdat>\$"(?:[^"\\]|\\.)*"|\$[-a-zA-Z$._0-9]+)
 |(?P<float>-?[0-9]+\.[0-9]+(?:e[+-]?[0-9]+)?|0x[0-9A-Fa-f]+)
 |(?P<num>-?[0-9]+)
 |(?P<dots>\.\.\.)
 |(?P<word>[a-zA-Z_][-a-zA-Z0-9_.]*)
 |(?P<p>[()\[\]{}<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        if s[i] == ';':
            j = s.find('\n', i)
            i = n if j < 0 else j
            continue
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '': break
            if s[i:].lstrip().startswith(';'):
                i += len(s[i:]) - len(s[i:].lstrip()); continue
            raise Unsupported('token: ' + s[i:i+60])
        out.append((m.lastgroup, m.group(m.lastgroup)))
        i = m.end()
    return out

# ---- types: ('int',w) ('ptr',) ('void',) ('float',) ('double',)
#             ('struct',[t],packed) ('array',n,t) ('named',n) ('fn',)
class Toks:
    def __init__(s, toks): s.t = toks; s.i = 0
    def peek(s, k=0): return s.t[s.i+k] if s.i+k < len(s.t) else ('eof', '')
    def next(s):
        x = s.peek(); s.i += 1; return x
    def accept(s, v):
        if s.peek()[1] == v and s.peek()[0] in ('p', 'word'):
            s.i += 1; return True
        return False
    def expect(s, v):
        if not s.accept(v): raise Unsupported('expected %s got %s in %s' % (v, s.peek(), s.t))

PATTR = {'noundef','nonnull','noalias','nocapture','readonly','readnone','writeonly','returned',
 'signext','zeroext','inreg','immarg','nofree','nest','swiftself','allocalign','allocptr','noinline',
 'writable','dead_on_unwind'}
PATTRP = {'align','dereferenceable','dereferenceable_or_null','sret','byval','elementtype','byref','range','memory','nofpclass','preallocated','inalloca'}

def parse_type(T):
    k, v = T.next()
    if k == 'word':
        if v[0] == 'i' and v[1:].isdigit(): t = ('int', int(v[1:]))
        elif v == 'ptr': t = ('ptr',)
        elif v in ('void', 'float', 'double', 'label', 'metadata', 'token', 'x86_fp80', 'half'): t = (v,)
        else: raise Unsupported('type ' + v)
    elif k == 'loc': t = ('named', v[1:].strip('"'))
    elif v == '{':
        l = []
        if not T.accept('}'):
            while True:
                l.append(parse_type(T))
                if T.accept('}'): break
                T.expect(',')
        t = ('struct', l, False)
    elif v == '<':
        if T.accept('{'):
            l = []
            if not T.accept('}'):
                while True:
                    l.append(parse_type(T))
                    if T.accept('}'): break
                    T.expect(',')
            T.expect('>')
            t = ('struct', l, True)
        else:
            n = int(T.next()[1]); T.expect('x'); e = parse_type(T); T.expect('>')
            t = ('vec', n, e)
    elif v == '[':
        n = int(T.next()[1]); T.expect('x'); e = parse_type(T); T.expect(']')
        t = ('array', n, e)
    else:
        raise Unsupported('type %s' % v)
    # function type  T (args)
    if T.peek()[1] == '(' and T.peek()[0] == 'p' and t[0] in ('void', 'int', 'ptr', 'struct', 'named', 'float', 'double'):
        # lookahead: function type only used in call; treat as fn type
        d = 0
        save = T.i
        while True:
            x = T.next()
            if x[1] == '(' and x[0] == 'p': d += 1
            if x[1] == ')' and x[0] == 'p':
                d -= 1
                if d == 0: break
            if x[0] == 'eof': T.i = save; return t
        t = ('fn', t)
    return t

def skip_attrs(T, rec=None):
    while True:
        k, v = T.peek()
        if k == 'word' and v in PATTR: T.next()
        elif k == 'word' and v in PATTRP:
            T.next()
            if T.peek()[1] == '(':
                d = 0; toks = []
                while True:
                    x = T.next(); toks.append(x)
                    if x == ('p', '('): d += 1
                    if x == ('p', ')'):
                        d -= 1
                        if d == 0: break
                if rec is not None and v in ('sret', 'byval'):
                    rec[v] = parse_type(Toks(toks[1:-1]))
            elif T.peek()[0] == 'num': T.next()
        elif k == 'attr' or k == 'str': T.next()
        else: return

# operands: ('loc',name) ('glob',name) ('const',int) ('null',) ('undef',) ('zero',)
#           ('gep',ty,[ops..]) ('agg',[ (ty,op) ]) ('cast',op,ty,val,ty2) ('bin',op,..)
def parse_val(T, ty):
    k, v = T.next()
    if k == 'loc': return ('loc', v[1:].strip('"'))
    if k == 'glob': return ('glob', v[1:].strip('"'))
    if k == 'num': return ('const', int(v))
    if k == 'float': return ('fconst', v)
    if k == 'str': return ('cstr', v)
    if k == 'word':
        if v == 'true': return ('const', 1)
        if v == 'false': return ('const', 0)
        if v == 'null': return ('null',)
        if v in ('undef', 'poison'): return ('undef',)
        if v == 'none': return ('null',)
        if v == 'zeroinitializer': return ('zero',)
        if v == 'getelementptr':
            while T.peek()[1] in ('inbounds', 'inrange', 'nuw', 'nusw'): T.next()
            T.expect('(')
            bt = parse_type(T); T.expect(',')
            ops = []
            while True:
                T.accept('inrange')
                t = parse_type(T)
                ops.append((t, parse_val(T, t)))
                if T.accept(')'): break
                T.expect(',')
            return ('gep', bt, ops)
        if v in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext', 'sext', 'addrspacecast'):
            T.expect('('); t = parse_type(T); x = parse_val(T, t); T.expect('to'); t2 = parse_type(T); T.expect(')')
            return ('cast', v, t, x, t2)
        if v in ('add', 'sub', 'mul', 'shl', 'and', 'or', 'xor'):
            while T.peek()[1] in ('nuw', 'nsw'): T.next()
            T.expect('(')
            t = parse_type(T); a = parse_val(T, t); T.expect(','); t2 = parse_type(T); b = parse_val(T, t2); T.expect(')')
            return ('bin', v, t, a, b)
    if v in ('{', '[', '<'):
        close = {'{': '}', '[': ']', '<': '>'}[v]
        if v == '<' and T.accept('{'):
            close = '}'
        l = []
        if not T.accept(close):
            while True:
                t = parse_type(T); l.append((t, parse_val(T, t)))
                if T.accept(close): break
                T.expect(',')
        if v == '<' and close == '}': T.expect('>')
        return ('agg', l)
    raise Unsupported('value %s %s' % (k, v))

class Inst:
    __slots__ = ('op', 'res', 'a', 'text')
    def __init__(s, op, res, a, text): s.op = op; s.res = res; s.a = a; s.text = text
    def __repr__(s): return s.text

class Block:
    def __init__(s, name): s.name = name; s.insts = []; s.phis = []; s.succ = []

class Function:
    def __init__(s, mod, name, header, body):
        s.mod = mod; s.name = name; s.header = header; s.body = body; s.parsed = False
        s.demangled = name
        T = Toks(tokenize(header))
        # skip until the global name
        pre = []
        while T.peek()[0] != 'glob': pre.append(T.next())
        # return type is at end of pre: parse backwards by trying
        s.ret = None
        for j in range(len(pre)):
            try:
                TT = Toks(pre[j:]); skip_attrs(TT)
                t = parse_type(TT)
                if TT.i >= len(pre[j:]): s.ret = t; break
            except Exception: pass
        T.next(); T.expect('(')
        s.params = []
        s.vararg = False
        n = 0
        if not T.accept(')'):
            while True:
                if T.peek()[0] == 'dots': T.next(); s.vararg = True
                else:
                    rec = {}
                    t = parse_type(T); skip_attrs(T, rec)
                    nm = None
                    if T.peek()[0] == 'loc': nm = T.next()[1][1:].strip('"')
                    else: nm = str(n)
                    s.params.append((nm, t, rec)); n += 1
                if T.accept(')'): break
                T.expect(',')
        s.sret = next((rec['sret'] for _, _, rec in s.params if 'sret' in rec), None)

    def parse(s):
        if s.parsed: return
        s.parsed = True
        s.blocks = {}; s.order = []
        cur = None
        lines = s.body.split('\n')
        # join multi-line instructions (landingpad clauses, invoke .. to .., switch)
        joined = []
        i = 0
        while i < len(lines):
            l = lines[i]
            st = l.strip()
            if st == '' or st.startswith(';'): i += 1; continue
            if re.match(r'^[-a-zA-Z$._0-9"]+:', l):
                joined.append(('label', l.split(':')[0].strip('"'))); i += 1; continue
            if 'invoke ' in st.split('"')[0] :
                i += 1
                while i < len(lines) and lines[i].strip().startswith('to label'):
                    st += ' ' + lines[i].strip(); i += 1
            elif re.search(r'= landingpad ', st):
                i += 1
                while i < len(lines) and re.match(r'\s+(cleanup|catch|filter)\b', lines[i]):
                    st += ' ' + lines[i].strip(); i += 1
            elif st.startswith('switch ') and st.endswith('['):
                i += 1
                while not lines[i].strip().startswith(']'):
                    st += ' ' + lines[i].strip(); i += 1
                st += ' ]'; i += 1
            else: i += 1
            joined.append(('inst', st))
        entry = None
        for k, v in joined:
            if k == 'label':
                cur = Block(v); s.blocks[v] = cur; s.order.append(v)
                continue
            if cur is None:
                nm = '__entry'
                cur = Block(nm); s.blocks[nm] = cur; s.order.append(nm)
                entry = nm
            ins = parse_inst(v)
            if ins.op == 'phi': cur.phis.append(ins)
            else: cur.insts.append(ins)
        # implicit entry label number = number of params for unnamed
        s.entry = s.order[0]
        s.entry_alias = str(len(s.params))
        for b in s.blocks.values():
            t = b.insts[-1]
            if t.op == 'br': b.succ = [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
            elif t.op == 'switch': b.succ = [t.a[2]] + [x[1] for x in t.a[3]]
            elif t.op == 'invoke': b.succ = [t.a['to'], t.a['unwind']]
            else: b.succ = []
        s._loops()

    def _loops(s):
        # dominators (simple iterative) and natural loop headers
        preds = {b: [] for b in s.blocks}
        for b in s.blocks.values():
            for x in b.succ: preds[x].append(b.name)
        order = []; seen = set()
        stack = [(s.entry, iter(s.blocks[s.entry].succ))]; seen.add(s.entry)
        while stack:
            n, it = stack[-1]
            for x in it:
                if x not in seen:
                    seen.add(x); stack.append((x, iter(s.blocks[x].succ))); break
            else:
                order.append(n); stack.pop()
        order.reverse()
        dom = {s.entry: {s.entry}}
        allb = set(order)
        for b in order:
            if b != s.entry: dom[b] = set(allb)
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == s.entry: continue
                ps = [dom[p] for p in preds[b] if p in dom]
                nd = set.intersection(*ps) | {b} if ps else {b}
                if nd != dom[b]: dom[b] = nd; ch = True
        s.loops = {}  # header -> set of body blocks
        for b in order:
            for x in s.blocks[b].succ:
                if x in dom.get(b, ()):  # back edge b->x
                    body = s.loops.setdefault(x, {x})
                    st = [b]
                    while st:
                        y = st.pop()
                        if y in body: continue
                        body.add(y)
                        st.extend(p for p in preds[y] if p in allb)

def parse_call(T):
    # after 'call'/'invoke' keyword
    while T.peek()[0] == 'word' and T.peek()[1] in ('fastcc', 'ccc', 'coldcc', 'nsz', 'nnan', 'ninf', 'fast', 'contract', 'reassoc', 'arcp', 'afn'): T.next()
    skip_attrs(T)
    rt = parse_type(T)
    if rt[0] == 'fn': rt = rt[1]
    fn = parse_val(T, ('ptr',))
    T.expect('(')
    args = []
    if not T.accept(')'):
        while True:
            t = parse_type(T)
            rec = {}
            skip_attrs(T, rec)
            if t[0] == 'metadata':
                # skip metadata arg
                while T.peek() not in (('p', ','), ('p', ')')): T.next()
                args.append((t, ('undef',), rec))
            else:
                args.append((t, parse_val(T, t), rec))
            if T.accept(')'): break
            T.expect(',')
    attrs = []
    while T.peek()[0] in ('attr',): attrs.append(T.next()[1])
    return {'ret': rt, 'fn': fn, 'args': args, 'attrs': attrs}

def parse_inst(text):
    # strip trailing metadata
    T = Toks(tokenize(text))
    res = None
    if T.peek()[0] == 'loc' and T.peek(1) == ('p', '='):
        res = T.next()[1][1:].strip('"'); T.next()
    k, op = T.next()
    if op in ('tail', 'musttail', 'notail'):
        k, op = T.next()
    if op == 'alloca':
        T.accept('inalloca')
        t = parse_type(T)
        n = None
        if T.accept(',') and T.peek()[1] != 'align':
            tt = parse_type(T); n = parse_val(T, tt)
        return Inst(op, res, (t, n), text)
    if op == 'load':
        while T.peek()[1] in ('volatile', 'atomic'): T.next()
        t = parse_type(T); T.expect(','); pt = parse_type(T); p = parse_val(T, pt)
        return Inst(op, res, (t, p), text)
    if op == 'store':
        while T.peek()[1] in ('volatile', 'atomic'): T.next()
        t = parse_type(T); v = parse_val(T, t); T.expect(','); pt = parse_type(T); p = parse_val(T, pt)
        return Inst(op, res, (t, v, p), text)
    if op == 'getelementptr':
        while T.peek()[1] in ('inbounds', 'nuw', 'nusw'): T.next()
        bt = parse_type(T); T.expect(',')
        ops = []
        while True:
            t = parse_type(T); ops.append((t, parse_val(T, t)))
            if not T.accept(','): break
            if T.peek()[0] == 'meta': break
        return Inst(op, res, (bt, ops), text)
    if op == 'call':
        return Inst(op, res, parse_call(T), text)
    if op == 'invoke':
        d = parse_call(T)
        T.expect('to'); T.expect('label'); d['to'] = T.next()[1][1:].strip('"')
        T.expect('unwind'); T.expect('label'); d['unwind'] = T.next()[1][1:].strip('"')
        return Inst(op, res, d, text)
    if op == 'landingpad':
        t = parse_type(T)
        clauses = []
        while True:
            k, v = T.next()
            if v == 'cleanup': clauses.append(('cleanup',))
            elif v in ('catch', 'filter'):
                tt = parse_type(T); clauses.append((v, parse_val(T, tt)))
            else: break
        return Inst(op, res, (t, clauses), text)
    if op == 'resume':
        t = parse_type(T); return Inst(op, res, (t, parse_val(T, t)), text)
    if op == 'br':
        if T.accept('label'): return Inst(op, res, (T.next()[1][1:].strip('"'),), text)
        t = parse_type(T); c = parse_val(T, t); T.expect(','); T.expect('label'); a = T.next()[1][1:].strip('"')
        T.expect(','); T.expect('label'); b = T.next()[1][1:].strip('"')
        return Inst(op, res, (c, a, b), text)
    if op == 'switch':
        t = parse_type(T); c = parse_val(T, t); T.expect(','); T.expect('label'); d = T.next()[1][1:].strip('"')
        T.expect('[')
        cs = []
        while not T.accept(']'):
            tt = parse_type(T); v = parse_val(T, tt); T.expect(','); T.expect('label'); cs.append((v, T.next()[1][1:].strip('"')))
        return Inst(op, res, (t, c, d, cs), text)
    if op == 'ret':
        t = parse_type(T)
        if t == ('void',): return Inst(op, res, (t, None), text)
        return Inst(op, res, (t, parse_val(T, t)), text)
    if op == 'unreachable': return Inst(op, res, (), text)
    if op == 'icmp' or op == 'fcmp':
        p = T.next()[1]
        t = parse_type(T); a = parse_val(T, t); T.expect(','); b = parse_val(T, t)
        return Inst(op, res, (p, t, a, b), text)
    if op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
              'fadd', 'fsub', 'fmul', 'fdiv'):
        fl = []
        while T.peek()[1] in ('nuw', 'nsw', 'exact', 'disjoint', 'fast'): fl.append(T.next()[1])
        t = parse_type(T); a = parse_val(T, t); T.expect(','); b = parse_val(T, t)
        return Inst(op, res, (t, a, b, fl), text)
    if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fptosi', 'sitofp', 'uitofp', 'fptoui', 'fpext', 'fptrunc', 'addrspacecast'):
        while T.peek()[1] in ('nneg', 'nuw', 'nsw'): T.next()
        t = parse_type(T); v = parse_val(T, t); T.expect('to'); t2 = parse_type(T)
        return Inst(op, res, (t, v, t2), text)
    if op == 'select':
        t = parse_type(T); c = parse_val(T, t); T.expect(','); t1 = parse_type(T); a = parse_val(T, t1); T.expect(',')
        t2 = parse_type(T); b = parse_val(T, t2)
        return Inst(op, res, (c, t1, a, b), text)
    if op == 'phi':
        t = parse_type(T)
        inc = []
        while True:
            T.expect('['); v = parse_val(T, t); T.expect(','); l = T.next()[1][1:].strip('"'); T.expect(']')
            inc.append((v, l))
            if not T.accept(','): break
            if T.peek()[0] == 'meta': break
        return Inst(op, res, (t, inc), text)
    if op == 'extractvalue':
        t = parse_type(T); v = parse_val(T, t)
        idx = []
        while T.accept(',') and T.peek()[0] == 'num': idx.append(int(T.next()[1]))
        return Inst(op, res, (t, v, idx), text)
    if op == 'insertvalue':
        t = parse_type(T); v = parse_val(T, t); T.expect(','); t2 = parse_type(T); w = parse_val(T, t2)
        idx = []
        while T.accept(',') and T.peek()[0] == 'num': idx.append(int(T.next()[1]))
        return Inst(op, res, (t, v, t2, w, idx), text)
    if op == 'freeze':
        t = parse_type(T); return Inst(op, res, (t, parse_val(T, t)), text)
    raise Unsupported('instruction ' + op)

class Module:
    def __init__(s, text):
        s.types = {}; s.funcs = {}; s.decls = {}; s.globals_text = {}; s._g = {}
        s.text = text
        for m in re.finditer(r'^%("[^"\n]*"|[-a-zA-Z$._0-9]+) = type (.*)$', text, re.M):
            s.types[m.group(1).strip('"')] = m.group(2)
        s._tcache = {}
        for m in re.finditer(r'^@("[^"\n]*"|[-a-zA-Z$._0-9]+) = (.*)$', text, re.M):
            s.globals_text[m.group(1).strip('"')] = m.group(2)
        for m in re.finditer(r'^declare (.*)$', text, re.M):
            f = Function(s, None, m.group(1), None)
            nm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', m.group(1)).group(1).strip('"')
            f.name = nm; s.decls[nm] = f
        for m in re.finditer(r'^define (.*?) \{\n(.*?)^\}', text, re.M | re.S):
            nm = re.search(r'@("[^"]*"|[-a-zA-Z$._0-9]+)\(', m.group(1)).group(1).strip('"')
            s.funcs[nm] = LazyF(s, nm, m.group(1), m.group(2))
        names = list(s.funcs) + list(s.decls) + [g for g in s.globals_text if g.startswith('_ZTI')]
        out = subprocess.run(['llvm-cxxfilt'], input='\n'.join(names), text=True, capture_output=True).stdout.split('\n')
        s.dem = dict(zip(names, out))
        s.bydem = {}
        for k, v in s.dem.items(): s.bydem.setdefault(v, []).append(k)

    def demangle(s, nm): return s.dem.get(nm, nm)

    def func(s, nm):
        f = s.funcs.get(nm)
        if f is None: return None
        if isinstance(f, LazyF):
            f = f.get(); s.funcs[nm] = f
        f.parse()
        return f

    def rtype(s, t):
        while t[0] == 'named':
            n = t[1]
            if n not in s._tcache:
                txt = s.types.get(n)
                if txt is None or txt == 'opaque': raise Unsupported('opaque type ' + n)
                s._tcache[n] = parse_type(Toks(tokenize(txt)))
            t = s._tcache[n]
        return t

    def align(s, t):
        t = s.rtype(t)
        k = t[0]
        if k == 'int': return min(16, max(1, 1 << ((t[1]+7)//8 - 1).bit_length()))
        if k == 'ptr' or k == 'double': return 8
        if k == 'float': return 4
        if k == 'struct': return 1 if t[2] else max([1] + [s.align(x) for x in t[1]])
        if k == 'array': return s.align(t[2])
        if k == 'x86_fp80': return 16
        raise Unsupported('align %s' % (t,))

    def size(s, t):
        t = s.rtype(t)
        k = t[0]
        if k == 'int':
            n = (t[1]+7)//8
            return 1 << (n-1).bit_length() if n > 1 else 1
        if k == 'ptr' or k == 'double': return 8
        if k == 'float': return 4
        if k == 'x86_fp80': return 16
        if k == 'array': return t[1]*s.size(t[2])
        if k == 'struct':
            o = 0
            for x in t[1]:
                if not t[2]:
                    a = s.align(x); o = (o+a-1)//a*a
                o += s.size(x)
            if not t[2]:
                a = s.align(t); o = (o+a-1)//a*a
            return o
        raise Unsupported('size %s' % (t,))

    def field(s, t, i):
        t = s.rtype(t)
        if t[0] == 'array': return i*s.size(t[2]), t[2]
        o = 0
        for j, x in enumerate(t[1]):
            if not t[2]:
                a = s.align(x); o = (o+a-1)//a*a
            if j == i: return o, x
            o += s.size(x)
        raise Unsupported('field')

    def leaves(s, t, base=0):
        t = s.rtype(t)
        if t[0] in ('struct', 'array'):
            n = len(t[1]) if t[0] == 'struct' else t[1]
            out = []
            for i in range(n):
                o, x = s.field(t, i)
                out += s.leaves(x, base+o)
            return out
        return [(base, t)]

    def global_init(s, nm):
        if nm not in s._g:
            txt = s.globals_text.get(nm)
            if txt is None: s._g[nm] = None
            else:
                T = Toks(tokenize(txt))
                ext = False
                while T.peek()[1] not in ('constant', 'global', 'alias'):
                    x = T.next()
                    if x[1] in ('external',): ext = True
                    if x[0] == 'eof': s._g[nm] = None; return None
                T.next()
                t = parse_type(T)
                s._g[nm] = (t, None if ext else parse_val(T, t))
        return s._g[nm]

class LazyF:
    def __init__(s, m, n, h, b): s.x = (m, n, h, b)
    def get(s): return Function(*s.x)
