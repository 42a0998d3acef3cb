#!/usr/bin/env python3
"""run.py ID [quick|thorough]       decide a property
   run.py --replay FILE             run again what a violation file describes
   run.py --setup                   build the common parts"""

import json
import os
import sys
import tempfile
import subprocess

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build as B, runner, checks     # noqa: E402


def main():
    if sys.argv[1] == '--setup':
        B.ref()
        B.lib('prod')
        return 0

    if sys.argv[1] == '--replay':
        r = json.load(open(sys.argv[2]))
        print(r['what'])
        cmd = r['replay'].get('command')
        if not cmd:
            print(json.dumps(r['replay'], indent=1))
            return 0
        with tempfile.TemporaryDirectory() as d:
            cmd = [os.path.join(B.VERIF, cmd[0]), d] + cmd[1:]
            env = dict(B.ENV)
            env.update(r['replay'].get('env', {}))
            rc = subprocess.run(cmd, env=env).returncode
            print(open(d + '/out.0').read())
        return rc

    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else \
        os.environ.get('VERIF_TIER', 'quick')
    c = runner.Check(prop, tier, int(os.environ.get('VERIF_SEED', '1')))
    checks.CHECKS[prop](c)
    return c.finish()


if __name__ == '__main__':
    sys.exit(main())
