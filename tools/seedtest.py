#!/usr/bin/env python3
"""Try planted bugs: apply to /repo, build, stable tests, demo, check; always undo.
usage: seedtest.py [--notest] ID..."""
import json, os, subprocess as sp, sys, time
V = '/verif'
def sh(cmd, **k): return sp.run(cmd, shell=True, stdout=sp.PIPE, stderr=sp.STDOUT, text=True, **k)
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
args = sys.argv[1:]
notest = '--notest' in args
args = [a for a in args if a[0] != '-'] or sorted(os.listdir(V + '/seeded'))
assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
man = {c['property_id'] if 'property_id' in c else c['property']: c for c in json.load(open(V + '/MANIFEST.json'))['checks']}
for i in args:
    d = f'{V}/seeded/{i}'
    prop = json.load(open(d + '/meta.json'))['property']
    r = [i, prop]
    try:
        if not notest:
            sh('bash /opt/vp/build.sh'); r.append('demo-clean=%d' % sh(f'bash {d}/demo.sh', cwd='/repo').returncode)
        a = sh(f'git -C /repo apply {d}/patch.diff')
        if a.returncode: print(i, 'PATCH FAILED', a.stdout); continue
        if not notest:
            b = sh('bash /opt/vp/build.sh')
            if b.returncode: print(i, 'BUILD FAILED', b.stdout[-1500:]); continue
            x = sh(f'bash {d}/demo.sh', cwd='/repo'); r.append('demo-bug=%d' % x.returncode)
            sh('bash /opt/vp/test.sh /tmp/seed_out.json')
            bad = stable - set(json.load(open('/tmp/seed_out.json'))['passed'])
            r.append('tests=' + ('ok' if not bad else 'FAIL:' + ','.join(sorted(bad))))
        t = time.time()
        e = dict(os.environ, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick')
        c = sh(f'python3 {V}/run.py {prop} --tier quick' if not man else man[prop]['quick_cmd'] if 'quick_cmd' in man[prop] else man[prop]['quick'], env=e, cwd=V)
        v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
        r.append('check=%d %s (%.0fs)' % (c.returncode, 'CAUGHT' if c.returncode == 1 and v else 'MISSED', time.time() - t))
        if v: r.append(v[0])
        elif c.returncode: r.append(c.stdout[-600:])
    finally:
        sh('git -C /repo checkout -- .')
        print(' | '.join(r), flush=True)
sh('bash /opt/vp/build.sh')
