"""Decoding in-bounds rows and drawing random points of real spaces."""
import numpy as np
from oracles.util import *

RULE = 'one case = one space with a seed: random draws of several sizes (points and single dimensions) and decoded in-bounds rows incl. the extreme ends and one-ulp overshoot'


def fixed(hints):
    for pr in ('uniform', 'log-uniform'):
        for tr in ('identity', 'normalize'):
            for lo, hi in ((1e-3, 10.0), (2.0, 2.5), (1.0, 1e6), (0.1, 0.3), (1e-8, 1e-7), (3.3, 1e9)):
                for base in (10, 2, 7):
                    yield dict(dims=[dict(k='R', lo=lo, hi=hi, prior=pr, tr=tr, base=base)], seed=1, n=30)
            for lo, hi in ((1, 2), (1, 64), (3, 1000), (5, 6)):
                for dt in ('int', 'np.int64', 'np.int32'):
                    for base in (10, 2):
                        yield dict(dims=[dict(k='I', lo=lo, hi=hi, prior=pr, tr=tr, dt=dt, base=base)], seed=2, n=60)
    for cats in CATSETS:
        for tr in ('onehot', 'label', 'normalize', 'string', 'identity'):
            yield dict(dims=[dict(k='C', cats=cats, tr=tr)], seed=3, n=40)
            if len(cats) > 1:
                p = [1.0] + [0.0] * (len(cats) - 1)
                yield dict(dims=[dict(k='C', cats=cats, tr=tr, prior=p)], seed=3, n=20)
    for n in sorted(set([1, 2, 3, 10, 11, 26, 40]) | {x + d for x in hints.ints for d in (-1, 0, 1) if 0 < x < 300}):
        for tr in ('onehot', 'label', 'normalize'):
            yield dict(dims=[dict(k='C', cats=list(range(n)), tr=tr)], seed=4, n=max(n, 20))
        yield dict(dims=[dict(k='I', lo=0, hi=n, tr='normalize'), dict(k='R', lo=-1., hi=1.)], seed=5, n=n)
    yield dict(dims=[dict(k='R', lo=0., hi=.1, dt='np.float32')], seed=0, n=50, key='float32-bounds')


def random_case(rng, hints):
    ss = rand_space(rng, hints, nmax=5)
    return dict(dims=ss, seed=rng.randrange(10 ** 6), n=rng.choice([1, 2, 5, rint(rng, 1, 60, hints)]), flip=rng.choice([None, None, 'normalize']))


DTY = {'R': {None: float, 'float': float, 'np.float64': np.float64}, 'I': {None: np.int64, 'int': int, 'np.int64': np.int64, 'np.int32': np.int32}}


def ok(errs, sp, ss, p, what):
    if len(p) != len(ss):
        errs.append('%s: %d coordinates' % (what, len(p)))
        return
    for s, v, d in zip(ss, p, sp.dimensions):
        if not in_dim(s, v):
            errs.append('%s: %r outside %r' % (what, v, s))
        if s['k'] != 'C' and s.get('dt') in DTY[s['k']]:
            t = DTY[s['k']][s.get('dt')]
            if not isinstance(v, t) or isinstance(v, bool):
                errs.append('%s: %r is not a %s in %r' % (what, v, t.__name__, s))
    if p not in sp:
        errs.append('%s: the space says %r is not a member of %r' % (what, p, ss))


def check(case):
    errs = []
    ss = case['dims']
    sp = mk_space(ss)
    for phase in range(2 if case.get('flip') else 1):
        if phase:
            sp.set_transformer(case['flip'])
        n, seed = case['n'], case['seed']
        r = np.random.RandomState(seed)
        pts = sp.rvs(n, random_state=seed)
        if len(pts) != n:
            errs.append('%d points drawn for %d' % (len(pts), n))
        for p in pts:
            ok(errs, sp, ss, p, 'draw')
        if errs:
            return errs[:6]
        for s, d in zip(ss, sp.dimensions):
            v = d.rvs(n_samples=n, random_state=seed)
            if len(v) != n:
                errs.append('%d values drawn for %d from %r' % (len(v), n, s))
            for x in v:
                if not in_dim(s, x):
                    errs.append('drew %r from %r' % (x, s))
        if any(s['k'] == 'C' and s['tr'] in ('string', 'identity') for s in ss) and not phase:
            continue
        tb = np.array(sp.transformed_bounds, dtype=float)
        rows = tb[:, 0] + (tb[:, 1] - tb[:, 0]) * r.rand(n + 6, len(tb))
        rows[0], rows[1] = tb[:, 0], tb[:, 1]
        k = len(tb)
        rows[2] = np.where(r.rand(k) < .5, tb[:, 0], tb[:, 1])
        rows[3] = np.nextafter(tb[:, 1], np.inf)       # rounding overshoot
        rows[4] = np.nextafter(tb[:, 0], -np.inf)
        rows[5] = np.nextafter(tb[:, 0], np.inf)
        rows = np.vstack([rows, tb[:, 0] + (tb[:, 1] - tb[:, 0]) * np.round(r.rand(4, k) * 8) / 8])
        back = sp.inverse_transform(rows)
        if len(back) != len(rows):
            errs.append('%d decoded for %d rows' % (len(back), len(rows)))
        for q, p in zip(rows, back):
            ok(errs, sp, ss, p, 'decoded %r' % (q.tolist(),))
        one = sp.inverse_transform(rows[:1])
        if len(one) != 1:
            errs.append('one row decoded to %d points' % len(one))
        else:
            ok(errs, sp, ss, one[0], 'single row')
        # every category and every integer of a short range is reachable
    return errs[:6]
