#!/usr/bin/env python3
"""check.py Cxx [--thorough]: decide one property on /repo's current tree.

1. contracts/run.py extracts the functions the property depends on from /repo's
   source, generates the obligations of their contracts and discharges them.
2. replay/main.py evaluates the same contracts on the real code, executed: it
   looks for a failing input (with the constants of the source and of the
   verifier's counterexamples), and stands in, as a bounded check, for functions out of
   the verifier's reach.
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
VT = '/opt/veriftools/pyvenv/bin/python'
if not os.path.exists(VT):
    VT = 'python3-vt'
RUN = '/opt/venv/bin/python'
KNOWN = os.path.join(HERE, 'known-findings.txt')


def searches(prop, budget, seeds, hints=None, big=False):
    env = dict(os.environ, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1')
    ps = []
    for i, s in enumerate(seeds):
        cmd = [RUN, '-W', 'ignore', os.path.join(HERE, 'replay', 'main.py'), 'search', prop, str(budget), '--seed', str(s)]
        if hints:
            cmd += ['--hints', hints]
        if big or i % 4 == 3:
            cmd += ['--big']
        ps.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd=HERE))
    return ps


def collect(ps, prop, timeout):
    fails, stats, errors = [], [], []
    end = time.time() + timeout
    for p in ps:
        try:
            o, e = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            o, e = p.communicate()
            errors.append('the search did not end in time')
            continue
        try:
            d = json.loads(o.strip().split('\n')[-1])[prop]
        except Exception:
            errors.append('the search ended with %s: %s' % (p.returncode, e[-2000:]))
            continue
        fails += [f for f in d['fails'] if f['reproduced']] + [f for f in d['fails'] if not f['reproduced']]
        stats.append(d['stats'])
        errors += ['%s seed %s: %s' % tuple(x) for x in d['errors']]
    return fails, stats, errors


def main():
    prop = sys.argv[1]
    thorough = '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
    budget = float(os.environ.get('VERIF_BUDGET', 240 if thorough else 18))
    nproc = 6 if thorough else 4
    vcout = os.path.join(ev, prop + '.vc.json')
    if os.path.exists(vcout):
        os.unlink(vcout)
    ps = searches(prop, budget, [seed * 100 + i for i in range(nproc)])
    limit = 1500 if thorough else 420
    vc = subprocess.Popen([VT, '-m', 'contracts.run', prop, '--out', vcout, '--deadline', str(limit)] + (['--thorough'] if thorough else []),
                          cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                          env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', KM_SRC=os.path.join(REPO, 'kernelmethods')))
    fails, stats, errors = collect(ps, prop, budget + 200)
    try:
        _, vcerr = vc.communicate(timeout=max(5, limit + 60 - (time.time() - t0)))
    except subprocess.TimeoutExpired:
        vc.kill()
        _, vcerr = vc.communicate()
        vcerr = 'time limit\n' + vcerr
    try:
        V = json.load(open(vcout))
    except Exception:
        V = dict(obligations=[], functions=[], unsupported=[dict(function='(verifier)', reason=vcerr[-1500:])], assumptions=[], trusted=[], solver_s=0)
    obl = V['obligations']
    proved = [o for o in obl if o['status'] == 'proved']
    refuted = [o for o in obl if o['status'] == 'refuted']
    unknown = [o for o in obl if o['status'] not in ('proved', 'refuted')]
    # deeper search where an obligation failed: the solver's counterexamples guide it
    if refuted and not fails:
        hf = os.path.join(ev, prop + '.hints.json')
        json.dump(dict(ints=sorted({x for o in refuted for x in o.get('ints', [])}), floats=sorted({x for o in refuted for x in o.get('floats', [])})), open(hf, 'w'))
        ps = searches(prop, budget * 2, [seed * 100 + 50 + i for i in range(7)], hf)
        f2, s2, e2 = collect(ps, prop, budget * 2 + 200)
        fails += f2
        stats += s2
        errors += e2
    n_eval = sum(s['evaluations'] for s in stats)
    full = bool(obl) and not refuted and not unknown and not V['unsupported']
    man = [c for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks'] if c['property'] == prop]
    level = man[0]['level'] if man else 'other'
    if level == 'proof' and not full:
        level = 'exploration'
    scen = {}
    for s in stats:
        for k, v in s['scenarios'].items():
            scen[k] = scen.get(k, 0) + v
    cov = dict(
        obligations=len(obl), discharged=len(proved), checker_cmd='python3-vt -m contracts.run %s' % prop,
        trusted_base=V.get('trusted', []),
        functions_under_contract=V['functions'], back_ends=V.get('back_ends', {}), solver_seconds=V.get('solver_s', 0),
        obligations_by_function=V.get('by_function', {}),
        failed_obligations=[dict(name=o['name'], function=o.get('function'), status=o['status'], detail=str(o.get('detail', ''))[:400]) for o in refuted + unknown][:40],
        out_of_reach=V['unsupported'], bounded_only=V.get('bounded', []),
        source_sha256=V.get('source', {}),
        evaluations=n_eval, distinct_nontrivial=sum(s['distinct'] for s in stats),
        rule='contract replay on the real code: a case is a random scenario (data, parameters, sequence of operations) of the kinds listed in "scenarios"; two are distinct when their recorded draws differ; cases whose expected values are not representable are not counted as non-trivial failures but skipped',
        scenarios=scen, samples=[dict(scenario=k, runs=v) for k, v in sorted(scen.items())],
        explanation='level proof: every obligation generated from the current source was discharged. Otherwise the listed functions are only checked within the bound of the replayed cases (bounded, not proved).')
    viol = []
    if fails:
        f = fails[0]
        path = os.path.join(ev, 'replay', prop + '.json')
        json.dump(dict(property=prop, input=dict(property=prop, scenario=f['scenario'], draws=f['draws'], seed=f['seed']), observed=f['observed'],
                       how_to_replay='%s -W ignore %s/replay/main.py replay %s' % (RUN, HERE, path),
                       failed_obligations=[o for o in refuted + unknown][:20]), open(path, 'w'), indent=1, default=str)
        print('failing input: scenario %s: %s' % (f['scenario'], f['observed']))
        for o in refuted[:5]:
            print('failed obligation: %s in %s' % (o['name'], o.get('function')))
        viol.append('VIOLATION property=%s replay=%s' % (prop, path))
    elif refuted:
        path = os.path.join(ev, 'replay', prop + '.json')
        json.dump(dict(property=prop, input=None, obligation=refuted[0]['name'], failed_obligations=refuted, searched_cases=n_eval), open(path, 'w'), indent=1, default=str)
        for o in refuted[:5]:
            print('failed obligation: %s in %s: %s' % (o['name'], o.get('function'), str(o.get('detail', ''))[:600]))
        viol.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    json.dump(dict(property=prop, tier='thorough' if thorough else 'quick', seed=seed, level=level, coverage=cov,
                   assumptions=V.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=len(viol), search_errors=errors[:5]),
              open(os.path.join(ev, prop + '.json'), 'w'), indent=1, default=str)
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith('known: property=%s ' % prop):
                print('KNOWN-FINDING: ' + line[len('known: '):].strip())
    for v in viol:
        print(v)
    if viol:
        return 1
    print('%s: %d/%d obligations discharged, %d functions under contract, %d cases replayed, %d out of reach' % (
        prop, len(proved), len(obl), len(V['functions']), n_eval, len(V['unsupported'])))
    if n_eval == 0 and not full:
        print('check error: nothing was decided', errors[:2], file=sys.stderr)
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
