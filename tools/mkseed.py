#!/usr/bin/env python3
"""python3 tools/mkseed.py <spec.py>...: each spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python text using mc) or FILES={name: text} with demo.sh.
Plants the change in /repo, builds, runs stable tests and the demo, then undoes it; keeps /verif/seeded/ID when all is confirmed."""
import sys, os, json, subprocess, shutil, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); R = '/repo'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
for spec in sys.argv[1:]:
    s = runpy.run_path(spec); d = '/tmp/seed_' + s['ID']; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    assert sh('git -C /repo status --porcelain').stdout == '', 'dirty /repo'
    files = dict(s.get('FILES', {}))
    if 'DEMO' in s: files['demo.py'] = 'import sys, os; sys.dont_write_bytecode = True; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nimport mc\n' + s['DEMO']; files['mc.py'] = open(V + '/tools/seedlib/mc.py').read()
    if 'demo.sh' not in files: files['demo.sh'] = '#!/bin/bash\nexec timeout 250 python3 "$(dirname "$0")/demo.py"\n'
    for n, t in files.items(): open(d + '/' + n, 'w').write(t)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'], 'what_it_breaks': s['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    ok = True
    sh('bash /opt/vp/build.sh')
    r0 = sh('bash %s/demo.sh' % d, cwd=R)
    if r0.returncode: print(s['ID'], 'REJECT demo fails on clean tree:', r0.stdout[-500:]); ok = False
    try:
        if ok:
            for f, old, new in s['EDITS']:
                t = open(R + '/' + f).read(); assert t.count(old) == 1, (s['ID'], f, t.count(old), old)
                open(R + '/' + f, 'w').write(t.replace(old, new))
            open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', R, 'diff'], stdout=subprocess.PIPE, text=True).stdout)
            b = sh('bash /opt/vp/build.sh')
            if b.returncode: print(s['ID'], 'REJECT build', b.stdout[-800:]); ok = False
        if ok:
            r1 = sh('bash %s/demo.sh' % d, cwd=R)
            if r1.returncode == 0: print(s['ID'], 'REJECT demo passes with the change'); ok = False
            else: print(s['ID'], 'demo:', r1.stdout[-300:].strip())
        if ok and '--notest' not in sys.argv:
            for a in range(2):
                sh('bash /opt/vp/test.sh /tmp/seed_o.json'); miss = base - set(json.load(open('/tmp/seed_o.json'))['passed'])
                if not miss: break
            if miss: print(s['ID'], 'REJECT tests fail:', sorted(miss)[:5]); ok = False
    finally:
        sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh')
    if ok:
        dst = V + '/seeded/' + s['ID']; shutil.rmtree(dst, ignore_errors=True); shutil.copytree(d, dst); print(s['ID'], 'KEPT')
    shutil.rmtree(d)
