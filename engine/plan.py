"""What each check runs."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
LIMIT = {'quick': 600, 'thorough': 3000}
BUDGET = {'quick': 200, 'thorough': 900}
SPECS = [('split', 'specs_split'), ('packed', 'specs_packed'), ('values', 'specs_value'), ('stride', 'specs_stride'), ('map', 'specs_map'), ('collf', 'specs_collf'), ('collb', 'specs_collb'), ('algof', 'specs_algof'), ('algob', 'specs_algob')]
LEVEL = {}
# jobs of minutes: in the quick tier only for these properties
SLOW = {'split.insert(input range) at end': ('C03',), 'split.insert(local,input range)': ('C08',)}
SLOW.update({m+'_collection.insert(%srange of const_iterator)' % h: ('C03',) for m in ('function', 'base') for h in ('', 'hint,', 'hint at end,')})
SLOW.update({m+'_collection.operator%s' % o: ('C07',) for m in ('function', 'base') for o in ('==', '!=')})
SLOW.update({m+'_collection.insert(%srange of V), %s' % (h, t): ('C03', 'C05') for m in ('function', 'base') for h in ('', 'hint,', 'hint at end,') for t in ('types registered', 'a type not registered')})

def jobs(pid, tier):
    out = []
    for tu, spec in SPECS:
        m = __import__(spec)
        for name, (fn, props) in m.JOBS.items():
            if pid not in props: continue
            if tier == 'quick' and name in SLOW and pid not in SLOW[name]: continue
            if tier == 'quick' and spec in ('specs_algof', 'specs_algob') and ('<D,C>' in name) == (spec == 'specs_algof') and not name.endswith('fast_distance'): continue
            out.append((tu, spec, name))
    out.sort(key=lambda j: j[2] not in SLOW)
    return out

def vacuous(res):
    """every completed job must have produced obligations and reached an exit"""
    bad = [r['job'] for r in res if r['status'] == 'done' and not r['obls']]
    return ('no obligations from '+', '.join(bad)) if bad else ''

KINDS = {0: 'base', 1: 'function', 2: 'any'}
PROPS = {'C06': [(0, 0), (1, 1), (2, 2), (0, 15), (1, 4), (2, 10), (0, 3), (1, 6)],
         'C10': [(0, 0), (1, 15), (2, 0), (0, 6), (1, 1), (2, 2)],
         'C13': [(0, 0), (1, 7), (2, 14)], 'C05': [(0, 0), (1, 7), (2, 14)]}
def native(pid, tier, seed):
    q = tier == 'quick'
    out = []
    def hist(kp, total, parts, ln, sweep=0):
        for k, p in kp:
            step = max(total//parts, 1)
            for i in range(parts):
                a = [seed, i*step, (i+1)*step, ln]+([sweep] if sweep else [])
                out.append((('hist', ('KIND=%d' % k, 'PROP=%d' % p), 'san'), a, 1))
    n = int(pid[1:])
    if n <= 11:
        kp = PROPS.get(pid, [(0, 0), (1, 15), (2, 6)])
        m = 3/len(kp)
        hist(kp, int((600 if q else 12000)*m), 3, 25)
        if pid in ('C08', 'C10', 'C01', 'C03', 'C04', 'C06'):
            hist(kp, int((24 if q else 400)*m), 2, 14, 6)
    if n in (13, 5):
        for k, p in PROPS['C13']:
            for i in range(3):
                s = 25 if q else 400
                out.append((('lookup', ('KIND=%d' % k, 'PROP=%d' % p), 'san'), [seed, i*s, (i+1)*s], 1))
    if n == 12:
        for k in (0, 1, 2): out.append((('iter', ('KIND=%d' % k,), 'san'), [7 if q else 14], None))
        hist([(0, 0), (1, 15), (2, 6)], 60 if q else 1200, 1, 25)
    if n in (14, 15):
        for k in (0, 1, 2):
            s = 400 if q else 6000
            for i in range(3):
                out.append((('algo', ('KIND=%d' % k, 'PART=%d' % n), 'san'), [seed, i*s//3, (i+1)*s//3], 1))
    if n == 16:
        for k in (0, 1, 2):
            out.append((('obs', ('KIND=%d' % k,), 'plain'), [seed, 2000 if q else 50000], None))
            out.append((('obs', ('KIND=%d' % k, 'THREADS'), 'tsan'), [seed, 400 if q else 8000], None))
    return out

def bound(pid, tier):
    n = int(pid[1:])
    return ('randomised operation histories of length 25 (14 with an exception injected at each of up to 6 points of each operation) over '
            'base, function and any collections of up to 5 element types; sizes up to a few dozen elements' if n <= 11 else
            'descriptor histories over 40 types' if n == 13 else 'all positions and offsets of segments of up to %d elements' % (7 if tier == 'quick' else 14) if n == 12 else
            'random collections and subranges' if n in (14, 15) else 'read-only memory pages and thread sanitizer over random collections')

def known(pid):
    f = os.path.join(HERE, '..', 'known-findings.txt')
    if not os.path.exists(f): return []
    return [l[len('finding: '):].strip() for l in open(f) if l.startswith('finding: property=%s ' % pid)]

TRUSTED = ['clang 18 front end (C++ to LLVM IR) and opt -passes=sroa', 'engine/ (symbolic executor and obligation generator of this repository)', 'z3',
           'assumed contracts of the standard library in engine/stdc.py']
ASSUMPTIONS = ['standard library functions behave as their contracts in engine/stdc.py and engine/umap.py say',
               'element operations are opaque: they may throw, read their arguments and have no other effect on the collection']
