"""run one verification job in this process; prints json"""
import sys, json, time, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ll, symex, stdc, z3
from ll import Unsupported
from core import Broken
def engine(path, timeout=8000):
    m = ll.Module(open(path).read())
    E = symex.Engine(m, stdc.cmp_contracts()+stdc.std_contracts(), timeout)
    E.segs = []
    return E
def run(specmod, name, path, budget=240):
    t = time.time()
    mod = __import__(specmod)
    res = {'job': name, 'spec': specmod}
    E = None
    try:
        E = engine(path)
        E.deadline = time.time()+budget
        fn, props = mod.JOBS[name]
        E.default_props = props
        E.prefix = name+'/'
        fn(E)
        res['status'] = 'done'
    except Unsupported as e: res['status'] = 'unsupported'; res['why'] = str(e)[:300]
    except Exception as e: res['status'] = 'error'; res['why'] = traceback.format_exc()[-1500:]
    res['obls'] = [dict(name=o.name, status=o.status, props=list(o.props), where=o.where[-120:], t=round(o.time, 3), detail=o.detail[:600], backend=o.backend) for o in E.obls] if E else []
    res['inlined'] = sorted(E.inlined) if E else []
    res['contracts'] = E.used_contracts if E else {}
    res['loops'] = {'%s@%s' % k: len(v) for k, v in E.loops_cut.items()} if E else {}
    res['queries'] = E.nq if E else 0; res['solver_s'] = round(E.qt, 2) if E else 0; res['wall'] = round(time.time()-t, 2)
    return res
if __name__ == '__main__':
    r = run(sys.argv[1], sys.argv[2], sys.argv[3], int(sys.argv[5]) if len(sys.argv) > 5 else 240)
    if len(sys.argv) > 4: print(json.dumps(r)); sys.exit()
    from collections import Counter
    print(r['job'], r['status'], r.get('why', ''), Counter(o['status'] for o in r['obls']), r['wall'], r['queries'], r['solver_s'])
    for o in r['obls']:
        if o['status'] != 'proved': print('   ', o['status'], o['name'], o['where'], o['detail'][:300])
