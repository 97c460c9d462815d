"""(Re)creates /verif/seeded/<id>/ from the specifications in seeds_spec.py:
each change is applied to /repo, must build, pass the stable tests, make its
demo fail (and the demo must pass without it), and is undone straight after.

    python3 tools/mkseeds.py [id ...]
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from seeds_spec import SEEDS  # noqa

DEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''
PRE = '''import numpy as np
from kernelmethods.base import *
from kernelmethods.base import KernelMatrixPrecomputed, ConstantKernelMatrix
from kernelmethods.numeric_kernels import *
from kernelmethods.categorical import MatchCountKernel
from kernelmethods.operations import *
from kernelmethods.sampling import *
from kernelmethods.ranking import *
from kernelmethods.algorithms import *
from kernelmethods.config import *
import warnings
warnings.simplefilter('ignore')


def raises(exc, func, *args, **kwargs):
    try:
        func(*args, **kwargs)
    except exc:
        return True
    except Exception:
        return False
    return False


rs = np.random.RandomState(3)
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def main():
    want = sys.argv[1:]
    assert not sh('git -C /repo status --porcelain -uno').stdout.strip()
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) or [])
    for s in SEEDS:
        if want and s['id'] not in want:
            continue
        d = os.path.join(ROOT, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        with open(d + '/demo.py', 'w') as f:
            f.write(PRE + s['demo'].strip('\n') + '\n')
        with open(d + '/demo.sh', 'w') as f:
            f.write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'],
                   'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        if r.returncode:
            print(s['id'], 'DEMO FAILS ON CLEAN TREE', r.stdout[-600:])
            continue
        try:
            for fn, old, new in s['edits']:
                p = '/repo/kernelmethods/' + fn
                t = open(p).read()
                if t.count(old) != 1:
                    print(s['id'], 'EDIT MATCHES', t.count(old), repr(old[:60]))
                    raise SystemExit
                open(p, 'w').write(t.replace(old, new))
            diff = sh('git -C /repo diff').stdout
            open(d + '/patch.diff', 'w').write(diff)
            b = sh('bash /opt/vp/build.sh')
            demo = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
            t = sh('bash /opt/vp/test.sh /tmp/seedout.json')
            res = json.load(open('/tmp/seedout.json'))
            failed = [k for k in res.get('failed', [])] if isinstance(res.get('failed'), list) else res.get('failed')
            print(s['id'], s['prop'], 'build', b.returncode, 'demo', demo.returncode,
                  demo.stdout.strip().splitlines()[-1:] , 'passed', len(res.get('passed', [])), 'failed', failed, flush=True)
        finally:
            sh('git -C /repo checkout -- .')
    print(sh('git -C /repo status --short -uno').stdout)


main()
