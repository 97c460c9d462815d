"""Run-time side of the contracts: scenarios draw inputs from a recorder, call the real code of /repo and
compare with an independent oracle.  A failing scenario is re-run from its recorded draws."""
import json
import os
import sys
import time
import traceback
import warnings
import ast
import glob

import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')


class Fail(Exception):
    """the property does not hold on this input"""


class Skip(Exception):
    """the drawn input is outside the property's domain"""


def jsonable(v):
    if isinstance(v, np.ndarray):
        return {'__nd__': v.tolist(), 'dtype': str(v.dtype), 'order': 'F' if (v.flags.f_contiguous and not v.flags.c_contiguous) else 'C'}
    if isinstance(v, (np.integer,)):
        return int(v)
    if isinstance(v, (np.floating,)):
        return float(v)
    if isinstance(v, (np.bool_,)):
        return bool(v)
    return v


def unjson(v):
    if isinstance(v, dict) and '__nd__' in v:
        return np.array(v['__nd__'], dtype=v['dtype'], order=v.get('order', 'C'))
    return v


class R:
    """draws, recorded or replayed"""

    def __init__(self, seed, hints=None, script=None, big=False):
        self.g = np.random.default_rng(seed)
        self.h = hints or {}
        self.script = list(script) if script is not None else None
        self.rec = []
        self.tracked = []
        self.big = big

    def _draw(self, f):
        if self.script is not None:
            v = unjson(self.script.pop(0))
        else:
            v = f()
        self.rec.append(jsonable(v))
        return v

    # ---- primitives
    def int(self, lo, hi):
        def f():
            hs = [x for x in self.h.get('ints', []) if lo <= x <= hi]
            if hs and self.g.random() < (0.35 if self.h.get('novel') else 0.1):
                return int(self.g.choice(hs))
            return int(self.g.integers(lo, hi + 1))
        return self._draw(f)

    def size(self, lo=1, hi=8):
        """a length: usually small, sometimes one suggested by the source or larger"""
        def f():
            p = self.g.random()
            cap = 220 if self.big else 70
            hs = sorted(set(x + d for x in self.h.get('ints', []) for d in (-1, 0, 1) if lo <= x + d <= cap))
            if hs and p < (0.3 if self.h.get('novel') else 0.08):
                return int(self.g.choice(hs))
            if self.big and p > 0.93:
                return int(self.g.integers(hi, 71))
            if p > 0.9:
                return int(self.g.integers(lo, 3 * hi + 1))
            return int(self.g.integers(lo, hi + 1))
        return self._draw(f)

    def choice(self, xs):
        xs = list(xs)
        return xs[self._draw(lambda: int(self.g.integers(0, len(xs))))]

    def bool(self, p=0.5):
        return self._draw(lambda: bool(self.g.random() < p))

    def real(self, lo, hi):
        def f():
            hs = [x for x in self.h.get('floats', []) if lo <= x <= hi]
            if hs and self.g.random() < (0.3 if self.h.get('novel') else 0.05):
                return float(self.g.choice(hs))
            return float(self.g.uniform(lo, hi))
        return self._draw(f)

    def sample(self, n, k, replace=False):
        return [int(x) for x in self._draw(lambda: [int(x) for x in self.g.choice(n, size=k, replace=replace)])]

    def perm(self, n):
        return self._draw(lambda: [int(x) for x in self.g.permutation(n)])

    # ---- arrays
    def arr(self, f, track=True):
        a = self._draw(f)
        if track:
            self.track(a)
        return a

    def track(self, a):
        if isinstance(a, np.ndarray):
            self.tracked.append((a, a.copy()))
        elif isinstance(a, list):
            self.tracked.append((a, list(a)))
        return a

    def vec(self, n, kind=None, nonneg=False):
        def f():
            k = kind or self.g.choice(['normal', 'normal', 'int', 'zeros', 'sparse', 'mixed', 'tiny', 'large'])
            if k == 'normal':
                v = self.g.normal(size=n)
            elif k == 'int':
                v = self.g.integers(-5, 6, size=n).astype(float)
            elif k == 'zeros':
                v = np.zeros(n)
            elif k == 'sparse':
                v = self.g.normal(size=n) * (self.g.random(n) < 0.4)
            elif k == 'mixed':
                v = self.g.normal(size=n) * 10.0 ** self.g.integers(-3, 3, size=n)
            elif k == 'tiny':
                v = self.g.normal(size=n) * 1e-4
            else:
                v = self.g.normal(size=n) * 100
            return np.abs(v) if nonneg else v
        return self.arr(f)

    def data(self, n, d, nonneg=False, kinds=('normal', 'normal', 'int', 'scaled', 'dup', 'F', 'zero')):
        def f():
            k = self.g.choice(list(kinds))
            X = self.g.normal(size=(n, d))
            if k == 'int':
                X = self.g.integers(-4, 5, size=(n, d))
                if self.g.random() < 0.5:
                    X = X.astype(float)
            elif k == 'scaled':
                X = X * 10.0 ** self.g.integers(-2, 3)
            elif k == 'dup' and n > 1:
                X[self.g.integers(n)] = X[self.g.integers(n)]
            elif k == 'F':
                X = np.asfortranarray(X)
            elif k == 'zero':
                X[self.g.integers(n)] = 0
            if nonneg:
                X = np.abs(X)
            return X
        return self.arr(f)


# ---------------------------------------------------------------- hints mined from the source
def mine(repo=REPO):
    ints, floats, strs = set(), set(), set()
    for fn in glob.glob(os.path.join(repo, 'kernelmethods', '*.py')):
        if fn.endswith('_version.py'):
            continue
        try:
            t = ast.parse(open(fn).read())
        except SyntaxError:
            continue
        for n in ast.walk(t):
            if isinstance(n, ast.Constant):
                if isinstance(n.value, bool):
                    continue
                if isinstance(n.value, int):
                    ints.add(n.value)
                elif isinstance(n.value, float):
                    floats.add(n.value)
                elif isinstance(n.value, str) and len(n.value) < 30:
                    strs.add(n.value)
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and isinstance(n.operand, ast.Constant):
                if isinstance(n.operand.value, float):
                    floats.add(-n.operand.value)
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Pow) and isinstance(n.left, ast.Constant) and isinstance(n.right, ast.Constant):
                try:
                    v = n.left.value ** n.right.value
                    (ints if isinstance(v, int) else floats).add(v)
                except Exception:
                    pass
    return dict(ints=sorted(ints), floats=sorted(floats), strs=sorted(strs))


BASEFILE = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'base_constants.json')


def hints():
    """constants of the current source; those the pinned tree does not have come first (they only steer
    the choice of inputs)"""
    cur = mine()
    try:
        base = json.load(open(BASEFILE))
    except OSError:
        base = dict(ints=[], floats=[], strs=[])
    new = {k: [x for x in cur[k] if x not in base[k]] for k in cur}
    if any(new.values()):
        ints = sorted(set(y for x in new['ints'] if abs(x) < 10 ** 6 for y in (x - 1, x, x + 1)))
        floats = sorted(set(y for x in new['floats'] + new['ints'] for y in (x, x * 0.5, x * 2.0, x * (1 + 1e-3), x * (1 - 1e-3))))
        ints += [int(x) for x in new['floats'] if x == int(x) and abs(x) < 1e6]
        return dict(ints=ints, floats=floats, strs=new['strs'], novel=True)
    return dict(ints=[x for x in cur['ints'] if abs(x) < 10 ** 6], floats=cur['floats'], strs=[], novel=False)


# ---------------------------------------------------------------- comparing
def close(a, b, rtol=1e-8, scale=None, what=''):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        raise Fail('%s: shape %s, expected %s' % (what, a.shape, b.shape))
    try:
        a = a.astype(float)
        b = b.astype(float)
    except (TypeError, ValueError):
        raise Fail('%s: not numeric: %r' % (what, a))
    fa, fb = np.isfinite(a), np.isfinite(b)
    if not np.array_equal(fa, fb) or not np.array_equal(np.isnan(a), np.isnan(b)):
        raise Fail('%s: got %s, expected %s' % (what, brief(a), brief(b)))
    s = np.max(np.abs(b[fb]), initial=0.0) if scale is None else scale
    with np.errstate(all='ignore'):
        bad = fb & (np.abs(a - b) > rtol * (np.abs(b) + s) + 1e-300)
    if bad.any():
        ix = tuple(int(x) for x in np.argwhere(bad)[0])
        raise Fail('%s: entry %s is %r, expected %r' % (what, ix, float(a[ix]), float(b[ix])))


def brief(v):
    s = repr(v)
    return s if len(s) < 300 else s[:300] + '...'


def check(cond, msg):
    if not cond:
        raise Fail(msg)


def raises(excs, f, *a, what='', **k):
    """f must raise one of excs (a class or tuple)"""
    try:
        v = f(*a, **k)
    except excs as e:
        return e
    except Fail:
        raise
    except Exception as e:
        raise Fail('%s: raised %s(%s), expected %s' % (what, type(e).__name__, brief(str(e)), excs))
    raise Fail('%s: returned %s, expected %s' % (what, brief(v), excs))


def quiet():
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')


SCEN = {}


def scenario(prop, weight=1):
    def d(f):
        SCEN.setdefault(prop, []).append((f.__name__, f, weight))
        return f
    return d


def from_lib(e):
    tb = e.__traceback__
    while tb is not None:
        if os.sep + 'kernelmethods' + os.sep in tb.tb_frame.f_code.co_filename and '/verif/' not in tb.tb_frame.f_code.co_filename:
            return True
        tb = tb.tb_next
    return False


def run_one(f, r, mutation=False):
    """-> None, or a description of the failure"""
    err = None
    with warnings.catch_warnings():
        quiet()
        try:
            f(r)
        except Skip:
            return None
        except Fail as e:
            err = str(e)
        except Exception as e:
            if not from_lib(e):
                raise
            err = 'raised %s: %s' % (type(e).__name__, brief(str(e)))
            err += ' at ' + '; '.join('%s:%d %s' % (os.path.basename(x.filename), x.lineno, x.name) for x in traceback.extract_tb(e.__traceback__)[-3:])
    if mutation:
        for a, c in r.tracked:
            if isinstance(a, list):
                same = len(a) == len(c) and all(x is y or x == y for x, y in zip(a, c))
            else:
                same = a.shape == c.shape and a.dtype == c.dtype and (np.array_equal(a, c, equal_nan=True) if a.dtype.kind in 'fc' else np.array_equal(a, c))
            if not same:
                return 'an argument was modified: it is now %s, it was %s' % (brief(a), brief(c))
        return err if f.__name__.startswith('frame_') else None
    return err


def search(prop, budget, seed=1, hint=None, big=False, only=None, stop=True):
    """-> (failures, statistics)"""
    hint = hints() if hint is None else hint
    mutation = prop == 'C18'
    if mutation:
        scens = [x for p, l in SCEN.items() for x in l if not x[0].startswith('slow_')] + [x for x in SCEN.get('C18', []) for _ in range(3)]
    else:
        scens = SCEN.get(prop, [])
    seq = [x for x in scens for _ in range(x[2])]
    t0 = time.time()
    stats = dict(evaluations=0, scenarios={}, distinct=set())
    fails = []
    errors = []
    n = 0
    slow_t = 0.0
    slow_n = {x[0]: 0 for x in seq if x[0].startswith('slow_')}
    while time.time() - t0 < budget:
        name, f, w = seq[n % len(seq)]
        s = seed * 1000003 + n
        n += 1
        if name.startswith('slow_') and (slow_t > 0.35 * (time.time() - t0) or
                                         slow_n[name] > min(slow_n.values())):
            continue
        if name in slow_n:
            slow_n[name] += 1
        r = R(s, hint, big=big)
        t1 = time.time()
        try:
            err = run_one(f, r, mutation)
            if name.startswith('slow_'):
                slow_t += time.time() - t1
        except Exception:
            errors.append((name, s, traceback.format_exc()))
            if len(errors) > 5:
                break
            continue
        stats['evaluations'] += 1
        stats['scenarios'][name] = stats['scenarios'].get(name, 0) + 1
        stats['distinct'].add(hash(json.dumps(r.rec, default=str)))
        if err:
            r2 = R(s, hint, script=json.loads(json.dumps(r.rec, default=str)))
            try:
                err2 = run_one(f, r2, mutation)
            except Exception:
                err2 = None
            fails.append(dict(property=prop, scenario=name, seed=s, draws=r.rec, observed=err, reproduced=bool(err2)))
            if stop:
                break
    stats['distinct'] = len(stats['distinct'])
    stats['seconds'] = round(time.time() - t0, 2)
    return fails, stats, errors
