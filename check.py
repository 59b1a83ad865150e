#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]
Decides one property on the current working tree of /repo:
 1. compiles the contract drivers in tu/ against /repo's headers to LLVM IR and
    runs the deductive verifier (engine/) on every function the property
    depends on, one job per function under contract;
 2. builds and runs the native harness (native/) from the same headers, which is
    the bounded stand-in for what is not under contract and the search for a
    failing input when an obligation fails.
Exit 0: held.  Exit 1 and a VIOLATION line otherwise."""
import sys, os, json, time, subprocess, tempfile, shutil, threading, re, signal
from concurrent.futures import ThreadPoolExecutor, as_completed
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'engine'))
import plan
PY = 'python3-vt'
CXX = ['clang++', '-std=c++17', '-w']
EXTRACT = ['-O1', '-Xclang', '-disable-llvm-passes', '-fclang-abi-compat=17', '-fno-strict-aliasing', '-S', '-emit-llvm']
SAN = ['-O0', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']
ENV = dict(os.environ, PYTHONHASHSEED='0', ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=0', TSAN_OPTIONS='halt_on_error=1:exitcode=66')

procs = set(); plock = threading.Lock()
def sh(cmd, timeout, cwd=None, env=None):
    """(rc, output); rc None on timeout"""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', cwd=cwd, env=env or ENV, start_new_session=True)
    with plock: procs.add(p)
    try:
        out, _ = p.communicate(timeout=max(timeout, 1)); return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL); out, _ = p.communicate(); return None, out
    finally:
        with plock: procs.discard(p)

# ------------------------------------------------------------------ extraction
def extract(tu, W, left):
    """IR of a driver file; drivers that no longer compile are dropped (and named)"""
    src = open(os.path.join(HERE, 'tu', tu+'.cpp')).read()
    src = re.sub(r'^#include "(\w+\.hpp)"', lambda m: open(os.path.join(HERE, 'tu', m.group(1))).read(), src, flags=re.M).split('\n')
    f = os.path.join(W, tu+'.cpp'); a = os.path.join(W, tu+'.a.ll'); b = os.path.join(W, tu+'.ll')
    dropped = []
    for _ in range(6):
        open(f, 'w').write('\n'.join(src))
        rc, out = sh(CXX+EXTRACT+['-ferror-limit=0', '-I'+REPO+'/include', '-I'+os.path.join(HERE, 'tu'), f, '-o', a], min(120, left()))
        if rc == 0: break
        if rc is None: return None, 'extraction timed out', dropped
        bad = set()
        for m in re.finditer(re.escape(f)+r':(\d+):\d+: (?:error|note)', out): bad.add(int(m.group(1))-1)
        bad = {i for i in bad if re.match(r'\w.*\b[a-z]\w*_\w+\(.*\}\s*$', src[i])}
        if not bad: return None, out[-3000:], dropped
        for i in bad: dropped.append(src[i]); src[i] = ''
    else: return None, 'extraction failed', dropped
    rc, out = sh(['opt', '-S', '-passes=sroa', a, '-o', b], min(120, left()))
    if rc != 0: return None, 'opt: '+out[-2000:], dropped
    return b, '', dropped

def prove(spec, job, ir, left, tier):
    budget = min(plan.BUDGET[tier], left()-15)
    if budget < 5: return {'job': job, 'spec': spec, 'status': 'timeout', 'why': 'no time left', 'obls': []}
    rc, out = sh([PY, os.path.join(HERE, 'engine', 'runjob.py'), spec, job, ir, 'json', str(int(budget))], budget+20)
    for l in reversed(out.split('\n')):
        if l.startswith('{"job"'):
            try: return json.loads(l)
            except ValueError: break
    return {'job': job, 'spec': spec, 'status': 'timeout' if rc is None else 'error', 'why': out[-500:], 'obls': []}

# ------------------------------------------------------------------ native
def build(b, W, left):
    src, defs, mode = b
    exe = os.path.join(W, 'n_'+re.sub(r'\W+', '_', src+'_'+'_'.join(defs)+'_'+mode))
    fl = {'san': SAN, 'plain': ['-O0'], 'tsan': ['-O0', '-fsanitize=thread']}[mode]
    cmd = CXX+fl+['-D'+d for d in defs]+['-I'+REPO+'/include', os.path.join(HERE, 'native', src+'.cpp'), '-o', exe]
    rc, out = sh(cmd, min(300, left()))
    if rc != 0 and rc is not None:
        if 'error:' not in out: rc, out = sh(cmd, min(300, left()))
    return exe if rc == 0 else None, ' '.join(cmd), rc, out

def native(pid, exe, args, idx, left):
    """run one range of histories, resuming after a death that concerns other
    properties.  args: list; idx = position of the FROM argument or None"""
    res = {'cases': 0, 'fail': None, 'note': None}
    args = list(args); t = 0
    for _ in range(12):
        rc, out = sh([exe, pid]+[str(a) for a in args], left())
        at = [int(x) for x in re.findall(r'^AT (\d+)', out, re.M)]
        last = at[-1] if at else None
        m = re.search(r'^OK histories=(\d+)', out, re.M)
        if rc == 0 and m: res['cases'] += int(m.group(1)); return res
        if rc is None: res['note'] = 'stopped by the time limit'; res['cases'] += len(at); return res
        m = re.search(r'^(FAIL|DEATH) props=(\S*) .*', out, re.M)
        props = m.group(2).split(',') if m else []
        if m and pid in props or not m:
            keep = [l for l in out.split('\n') if not l.startswith('AT ')]
            res['fail'] = ' '.join([exe, pid]+[str(a) for a in args])+'\n'+'\n'.join(keep)[-12000:]
            return res
        res['note'] = 'histories cut short by a failure that concerns %s' % ','.join(p for p in props if p)
        res['cases'] += len(at)
        if idx is None or last is None: return res
        args[idx] = last+1
        if args[idx] >= args[idx+1]: return res
    return res

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier')+1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time(); limit = plan.LIMIT[tier]
    left = lambda: limit-(time.time()-t0)
    ev = os.path.join(HERE, 'evidence'); os.makedirs(ev, exist_ok=True)
    W = tempfile.mkdtemp(prefix='vchk_%s_' % pid)
    try: rc = work(pid, tier, seed, t0, left, ev, W)
    finally:
        for p in list(procs):
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
        shutil.rmtree(W, ignore_errors=True)
    sys.exit(rc)

def work(pid, tier, seed, t0, left, ev, W):
    jobs = plan.jobs(pid, tier)                     # [(tu, spec, job)]
    nat = plan.native(pid, tier, seed)              # [(build, args, idx)]
    tus = sorted({j[0] for j in jobs})
    pool = ThreadPoolExecutor(8)
    fx = {tu: pool.submit(extract, tu, W, left) for tu in tus}
    fb = {}
    for b, a, i in nat:
        if b not in fb: fb[b] = pool.submit(build, b, W, left)
    irs = {tu: f.result() for tu, f in fx.items()}
    fj = []
    for tu, spec, job in jobs:
        if irs[tu][0]: fj.append(pool.submit(prove, spec, job, irs[tu][0], left, tier))
    builds = {}
    fn = []
    for b, a, i in nat:
        builds[b] = fb[b].result()
        if builds[b][0]: fn.append((b, pool.submit(native, pid, builds[b][0], a, i, left)))
    res = [f.result() for f in fj]
    # the clock cuts a solver off only on a loaded machine: a job that did not go through is run again on the quiet one
    again = [i for i, r in enumerate(res) if r['status'] == 'timeout' or 'time budget' in str(r.get('why', '')) or any(o['status'] != 'proved' for o in r['obls'])]
    if again and len(again) <= 8 and left() > 120:
        byjob = {(j[1], j[2]): irs[j[0]][0] for j in jobs}
        fa = {i: pool.submit(prove, res[i]['spec'], res[i]['job'], byjob[(res[i]['spec'], res[i]['job'])], left, tier) for i in again}
        rank = lambda r: (r['status'] != 'done', len([o for o in r['obls'] if o['status'] != 'proved']))
        for i, f in fa.items():
            r = f.result()
            if rank(r) < rank(res[i]): res[i] = r
    nres = [(b, f.result()) for b, f in fn]

    # ---- verdict
    mine = [(r, o) for r in res for o in r['obls'] if pid in o['props']]
    failed = [(r, o) for r, o in mine if o['status'] == 'failed']
    unknown = [(r, o) for r, o in mine if o['status'] == 'unknown']
    proved = [(r, o) for r, o in mine if o['status'] == 'proved']
    brokenjobs = [r for r in res if r['status'] != 'done']
    nfail = [(b, r) for b, r in nres if r['fail']]
    cfail = [(b, x) for b, x in builds.items() if x[0] is None and x[2] is not None]
    vacuous = plan.vacuous(res)
    viol = []
    def replay(n, text):
        p = os.path.join(ev, 'replay-%s-%d.txt' % (pid, n))
        open(p, 'w').write(text); return p
    otext = '\n'.join('FAILED OBLIGATION %s\n  job: %s\n  at: %s\n  back end: %s\n  counterexample (verifier): %s' % (o['name'], r['job'], o['where'], o['backend'], o['detail'] or '-') for r, o in failed[:20])
    if nfail:
        b, r = nfail[0]
        viol.append(replay(0, 'property %s\n%s\n\nfailing run of the real code\nbuild: %s\nrun: %s\n' % (pid, otext or '(no obligation of the verifier failed)', builds[b][1], r['fail'])))
        print('VIOLATION property=%s replay=%s' % (pid, viol[-1]))
        m = re.search(r'^(FAIL|DEATH).*', r['fail'], re.M)
        print('  native:', m.group(0)[:300] if m else r['fail'][-300:])
    elif cfail:
        b, x = cfail[0]
        viol.append(replay(0, 'property %s\n%s\n\na program using the documented interface no longer compiles\n%s\n%s' % (pid, otext, x[1], x[3][-6000:])))
        print('VIOLATION property=%s replay=%s' % (pid, viol[-1]))
    elif failed:
        viol.append(replay(0, 'property %s\n%s\n\nno failing input found by the native harness (%d cases)\n' % (pid, otext, sum(r['cases'] for _, r in nres))))
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, viol[-1]))
    for r, o in failed[:6]: print('  failed obligation: %s [%s]' % (o['name'], o['where'][-80:]))
    for l in plan.known(pid): print('KNOWN-FINDING: '+l)

    und = sorted({r['job']+': '+r['status']+' '+str(r.get('why', ''))[:200] for r in brokenjobs} | {'%s: %s not decided' % (r['job'], o['name']) for r, o in unknown})
    for tu, x in irs.items():
        if not x[0]: und.append('tu/%s.cpp: not extracted: %s' % (tu, x[1][-300:]))
        for d in x[2]: und.append('tu/%s.cpp: driver dropped, no longer compiles: %s' % (tu, d[:160]))
    if vacuous: und.append('vacuity guard: '+vacuous)
    fns = sorted({f for r in res for f in r.get('inlined', [])})
    cons = {}
    for r in res:
        for k, v in (r.get('contracts') or {}).items(): cons[k] = cons.get(k, 0)+v
    byback = {}
    for r, o in proved: byback[o['backend']] = byback.get(o['backend'], 0)+1
    cases = sum(r['cases'] for _, r in nres)
    cov = {
        'obligations': len(mine), 'discharged': len(proved), 'failed': len(failed), 'undecided': len(unknown),
        'checker_cmd': 'python3 check.py %s --tier %s' % (pid, tier),
        'trusted_base': plan.TRUSTED,
        'jobs': len(jobs), 'jobs_completed': len([r for r in res if r['status'] == 'done']),
        'functions_under_contract': [r['job'] for r in res if r['status'] == 'done' and any(pid in o['props'] for o in r['obls'])],
        'functions_of_repo_analysed': [f for f in fns if 'boost::poly_collection' in f][:400],
        'assumed_contracts_used': cons,
        'discharged_by': byback,
        'solver_s': round(sum(r.get('solver_s', 0) for r in res), 1), 'solver_queries': sum(r.get('queries', 0) for r in res),
        'loops_cut': {k: v for r in res for k, v in (r.get('loops') or {}).items()},
        'undecided_parts_left_to_bounded_check': und,
        'bounded_native': {'label': 'bounded, not counted as proved', 'cases': cases,
            'runs': sorted({'%s[%s]' % (b[0], ' '.join(b[1])) for b, _ in nres}), 'bound': plan.bound(pid, tier),
            'notes': sorted({r['note'] for _, r in nres if r['note']})},
    }
    if not mine:
        cov['evaluations'] = cases
    level = plan.LEVEL.get(pid, 'proof')
    if level != 'proof':
        cov['evaluations'] = cases; cov['distinct_nontrivial'] = cases
        cov['rule'] = plan.bound(pid, tier); cov['samples'] = ['%s %s' % (b[0], a) for b, a, i in nat[:3]]
    json.dump({'property': pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
               'assumptions': plan.ASSUMPTIONS, 'violations': len(viol), 'wall_s': round(time.time()-t0, 1)},
              open(os.path.join(ev, pid+'.json'), 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d failed, %d undecided; %d jobs (%d complete); native cases %d; %.0f s' % (
        pid, len(mine), len(proved), len(failed), len(unknown), len(jobs), cov['jobs_completed'], cases, time.time()-t0))
    for u in und[:10]: print('  bounded only:', u[:200])
    return 1 if viol else 0

if __name__ == '__main__': main()
