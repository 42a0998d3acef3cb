#!/usr/bin/env python3
"""Apply each planted bug to /repo, build, run the tests, its demonstration
and the quick check of its property; undo it. `seedcheck.py [--all-checks] ID..`
"""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if a[0] != '-']
notest = '--no-test' in sys.argv
ids = args or sorted(os.listdir(f'{ROOT}/seeded'))
base = json.load(open('/opt/vp/BASELINE.json'))


def run(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, **kw)


def stable():
    b = base['stable']
    return set(b if isinstance(b, list) else b.keys())


if run(['git', '-C', '/repo', 'status', '--porcelain', '-uno']).stdout:
    sys.exit('/repo is not clean')
for i in ids:
    d = f'{ROOT}/seeded/{i}'
    meta = json.load(open(f'{d}/meta.json'))
    res = [i, meta['property']]
    try:
        if run(['git', '-C', '/repo', 'apply', f'{d}/patch.diff']).returncode:
            print(*res, 'DOES NOT APPLY', flush=True)
            continue
        if not notest:
            b = run(['bash', '/opt/vp/build.sh'])
            run(['bash', '/opt/vp/test.sh', '/tmp/seedtest.json'])
            t = json.load(open('/tmp/seedtest.json'))
            ok = t.get('passed', t)
            ok = set(ok if isinstance(ok, list) else
                     [k for k, v in ok.items() if v])
            missing = sorted(stable() - ok)
            res += [f'build={b.returncode}',
                    f'tests={"ok" if not missing else missing[:3]}']
            m = run(['bash', f'{d}/demo.sh'], cwd='/repo')
            res += [f'demo={m.returncode}']
        c = run(['python3', 'run.py', meta['property']], cwd=ROOT)
        v = [s for s in c.stdout.splitlines() if s.startswith('VIOLATION')]
        res += ['CAUGHT' if c.returncode == 1 and v else
                f'MISSED rc={c.returncode}', (v or [''])[0][:160]]
    finally:
        run(['git', '-C', '/repo', 'checkout', '--', '.'])
    print(*res, flush=True)
