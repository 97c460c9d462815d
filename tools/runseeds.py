"""Applies each planted change to /repo, runs the quick check of its property
(and optionally others), undoes it:  python3 tools/runseeds.py [id ...] [--budget S]"""
import json
import os
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
env = dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick')
if '--budget' in args:
    i = args.index('--budget')
    env['VERIF_BUDGET'] = args[i + 1]
    del args[i:i + 2]
assert not subprocess.run('git -C /repo status --porcelain -uno', shell=True,
                          capture_output=True, text=True).stdout.strip()
for sid in sorted(os.listdir(ROOT + '/seeded')):
    if args and sid not in args:
        continue
    d = ROOT + '/seeded/' + sid
    prop = json.load(open(d + '/meta.json'))['property']
    try:
        subprocess.check_call(['git', '-C', '/repo', 'apply', d + '/patch.diff'])
        t = time.time()
        r = subprocess.run(['python3-vt', 'check.py', prop], cwd=ROOT, env=env,
                           capture_output=True, text=True)
        out = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        ev = json.load(open(ROOT + '/evidence/%s.json' % prop))
        print('%-24s %s exit %d %5.1fs %s' % (sid, prop, r.returncode, time.time() - t, out),
              flush=True)
    finally:
        subprocess.call(['git', '-C', '/repo', 'checkout', '--', '.'])
