"""python3-vt -m contracts.run Cxx [--out FILE] [--deadline S] [--unit NAME] [--thorough]: generate and discharge the obligations"""
import json
import multiprocessing as mp
import os
import sys
import time


def load():
    import importlib
    from . import lib
    d = os.path.dirname(os.path.abspath(__file__))
    for f in sorted(os.listdir(d)):
        if f.startswith('c_') and f.endswith('.py'):
            importlib.import_module('contracts.' + f[:-3])
    return lib


def work(arg):
    i, budget, thorough = arg
    from . import lib
    try:
        return lib.run_unit(lib.UNITS[i], budget, thorough)
    except BaseException as e:     # noqa
        return dict(unit=lib.UNITS[i].name, functions=lib.UNITS[i].funcs, obligations=[], assumptions=[], source_used=[], solver_s=0, paths=0, wall=0,
                    unsupported=[dict(function=','.join(lib.UNITS[i].funcs), unit=lib.UNITS[i].name, reason='engine: %s: %s' % (type(e).__name__, e))])


def main():
    a = sys.argv[1:]
    prop = a[0]
    opt = lambda k, d=None: a[a.index(k) + 1] if k in a else d
    out, deadline, only = opt('--out'), float(opt('--deadline', 600)), opt('--unit')
    thorough = '--thorough' in a
    t0 = time.time()
    lib = load()
    todo = [i for i, u in enumerate(lib.UNITS) if (prop in u.props or prop == 'all') and (only is None or u.name.startswith(only))]
    per = deadline * 0.65
    res = []
    nproc = int(opt('--jobs', 6))
    ctx = mp.get_context('fork')
    with ctx.Pool(min(nproc, max(1, len(todo))), maxtasksperchild=1) as pool:
        pend = [(i, pool.apply_async(work, ((i, per, thorough),))) for i in todo]
        for i, r in pend:
            try:
                res.append(r.get(timeout=max(1, deadline - (time.time() - t0))))
            except mp.TimeoutError:
                u = lib.UNITS[i]
                res.append(dict(unit=u.name, functions=u.funcs, obligations=[], assumptions=[], source_used=[], solver_s=0, paths=0, wall=0,
                                unsupported=[dict(function=','.join(u.funcs), unit=u.name, reason='time limit')]))
        pool.terminate()
    by, back = {}, {}
    obls = []
    for r in res:
        for o in r['obligations']:
            obls.append(o)
            k = o['function']
            b = by.setdefault(k, [0, 0])
            b[0] += 1
            b[1] += o['status'] == 'proved'
            if o['status'] == 'proved':
                back[o['back_end']] = back.get(o['back_end'], 0) + 1
    d = dict(property=prop, obligations=obls, functions=sorted({f for r in res for f in r['functions']}),
             interpreted=sorted({f for r in res for f in r.get('source_used', [])}),
             unsupported=[x for r in res for x in r['unsupported']],
             assumptions=sorted({x for r in res for x in r['assumptions']} | {lib.ARITH}),
             trusted=['pyvc: the symbolic semantics of Python and the loop rule', 'pyvc.npmodel/extmodel: assumed contracts of numpy, scipy, scikit-learn and builtins', 'z3 4.x (python z3-solver)', 'cvc5 1.1.2'],
             solver_s=round(sum(r['solver_s'] for r in res), 2), back_ends=back, by_function={k: '%d/%d' % (v[1], v[0]) for k, v in by.items()},
             units=[dict(unit=r['unit'], paths=r['paths'], wall=r['wall'], obligations=len(r['obligations'])) for r in res],
             source=lib.source_hash(), wall=round(time.time() - t0, 2))
    if out:
        json.dump(d, open(out, 'w'), indent=1, default=str)
    else:
        for r in res:
            st = {}
            for o in r['obligations']:
                st[o['status']] = st.get(o['status'], 0) + 1
            if '-v' in a or len(st) != 1 or 'proved' not in st or r['unsupported']:
              print('%-60s %s paths=%d %.1fs' % (r['unit'], st, r['paths'], r['wall']))
            for x in r['unsupported']:
                print('    UNSUPPORTED', x['reason'], x.get('where'))
            for o in r['obligations']:
                if o['status'] != 'proved':
                    print('    %s %s | %s' % (o['status'], o['name'], o.get('detail', '')[:int(opt('--w', 300))].replace('\n', ' ')))
        print('%d units, %d obligations, %d proved, %.1f s' % (len(res), len(obls), sum(o['status'] == 'proved' for o in obls), time.time() - t0), back)
    return 0


if __name__ == '__main__':
    sys.exit(main())
