#!/usr/bin/env python3
"""Run families and group what the judges say: fam.py '{"rand-mem":100}' [seed] [budget].  H.test of another tree: BUILD=folder."""
import collections, json, os, re, shutil, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import driver
if os.environ.get('BUILD'):
    driver.BUILD = os.environ['BUILD']
fams = json.loads(sys.argv[1])
seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
budget = int(sys.argv[3]) if len(sys.argv) > 3 else 60
work = driver.scratch()
try:
    os.makedirs(work + '/j')
    only = os.environ.get('ONLY', '').split()
    outs, st, crashes = driver.run_jobs(fams, seed, budget, work + '/j', only=only)
    mism, n, a, b = driver.judge(outs, work)
    c, ex = collections.Counter(), {}
    for m in mism:
        e = m['ev']
        k = (re.sub('#.*', '', m['trace']), e['op'], e.get('res', e.get('what', '')), e.get('info', ''), tuple(sorted(map(str, m['expect']))))
        c[k] += 1
        if k not in ex or ex[k]['n'] > m['n']:
            ex[k] = m
    for k, v in c.most_common(40):
        m = ex[k]
        print(v, k, m['blame'], m['trace'], m['n'], str({q: w for q, w in m['ev'].items() if q not in ('op', 'res', 'info', 'p')})[:300])
        if os.environ.get('SHOW'):
            t = driver.find_trace(m)
            print('  ', t['cfg'])
            for i, x in enumerate(t['ev'][:m['n']]):
                print('  ', i + 1, json.dumps(x)[:int(os.environ['SHOW'])])
    for x in crashes[:5]:
        print('CRASH', x.trace, driver.crash_frames(x.text)[:4], x.text[:1500])
    print(n, 'traces', len(mism), 'mismatches', dict(st), a, 'states', b, 'transitions')
finally:
    shutil.rmtree(work, ignore_errors=True)
