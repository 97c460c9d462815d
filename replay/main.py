"""python main.py search PROP BUDGET [--seed N] [--hints FILE] [--big] | replay FILE | constants"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
from replay import rt


def load():
    import kernelmethods
    src = os.path.realpath(os.path.dirname(kernelmethods.__file__))
    assert src == os.path.realpath(os.path.join(rt.REPO, 'kernelmethods')), src
    from replay import scen_km, scen_sets   # noqa


def main():
    cmd = sys.argv[1]
    if cmd == 'constants':
        json.dump(rt.mine(), open(rt.BASEFILE, 'w'), indent=1)
        return 0
    if cmd == 'replay':
        rec = json.load(open(sys.argv[2]))
        load()
        inp = rec.get('input')
        if not inp:
            print('no failing input in this file:', rec.get('obligation'))
            return 3
        f = {n: f for p in rt.SCEN.values() for n, f, w in p}[inp['scenario']]
        r = rt.R(0, None, script=inp['draws'])
        err = rt.run_one(f, r, inp['property'] == 'C18')
        print('FAILS: ' + err if err else 'holds on this input')
        return 1 if err else 0
    prop, budget = sys.argv[2], float(sys.argv[3])
    opt = sys.argv[4:]
    seed = int(opt[opt.index('--seed') + 1]) if '--seed' in opt else 1
    hint = rt.hints()
    if '--hints' in opt:
        h = json.load(open(opt[opt.index('--hints') + 1]))
        for k in ('ints', 'floats'):
            hint[k] = list(hint[k]) + list(h.get(k, []))
    load()
    props = [prop] if prop != 'all' else sorted(rt.SCEN)
    out = {}
    for p in props:
        fails, stats, errors = rt.search(p, budget, seed, hint, big='--big' in opt)
        out[p] = dict(fails=fails, stats=stats, errors=errors)
    json.dump(out, sys.stdout, default=str)
    print()
    return 0


if __name__ == '__main__':
    sys.exit(main())
