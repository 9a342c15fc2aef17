"""Stopping rules on made-up histories (C13)."""
import numpy as np
from oracles.util import *

RULE = 'one case = one stopping rule and one history of points, values and (faked) clock readings; its answer compared with its documented criterion'

KINDS = ['dx', 'dy', 'hollow', 'deadline', 'threshold', 'timer']


def fixed(hints):
    for k in KINDS:
        for n in list(range(0, 9)) + [c for c in hints.ints if 0 < c < 200]:
            for p in (1, 2, 5):
                yield dict(kind=k, n=n, m=p, seed=n * 7 + p, x=0.5, ties=n % 2)
        for m in hints.ints:
            if 0 < m < 200:
                for d in (-1, 0, 1):
                    yield dict(kind=k, n=m + d, m=m, seed=m, x=0.5, ties=1)


def random_case(rng, hints):
    return dict(kind=rng.choice(KINDS), n=rint(rng, 0, 14, hints), m=rng.choice([None, 0, 1, 2, 3, rint(rng, 0, 14, hints)]), seed=rng.randrange(10 ** 6),
                x=rng.choice([0.0, 0.1, 1.0, -1.0, 5.0, rfloat(rng, hints), 'tie', 'tie']), ties=rng.random() < .5)


def check(case):
    import skopt.callbacks as C
    from scipy.optimize import OptimizeResult
    rng = random.Random(case['seed'])
    n, k = case['n'], case['kind']
    ss = rand_space(rng, None, nmax=2)
    for s in ss:
        if s['k'] == 'C':
            s['tr'] = 'onehot'
    sp = mk_space(ss)
    X = [[cval(v) for v in rand_point(rng, ss)] for _ in range(n)]
    if n >= 2 and rng.random() < .3:
        X[-1] = list(X[-2])
    grid = [-2.0, -1.0, 0.0, 0.5, 1.0, 3.0]
    off = rng.choice([0, 0, 0, 1e6, -1e6, 30])
    V = [(rng.choice(grid) if case['ties'] else rng.uniform(-3, 3)) + off for _ in range(n)]
    if rng.random() < .2:
        V = sorted(V, reverse=True)
    y = np.array(V)
    if rng.random() < .2:
        y = y.astype(int) if case['ties'] else y
        V = [float(v) for v in y]
    res = OptimizeResult(x_iters=X, func_vals=y, space=sp, x=X[0] if X else None, fun=min(V) if V else None)
    x = case['x']
    m = case['m']

    def thr(cands):
        if x == 'tie':
            return rng.choice(cands) if cands else 1.0
        return x
    if k == 'dx':
        d = sp.distance(X[-2], X[-1]) if n >= 2 else None
        if d is not None and n < 2:
            raise Skip()
        t = thr([d] if d is not None else [])
        want = None if n < 2 else sum(dim.distance(a, b) for dim, a, b in zip(sp.dimensions, X[-2], X[-1])) < t
        rule = C.DeltaXStopper(t)
    elif k == 'dy':
        nb = 5 if m is None else max(m, 1)
        s = sorted(V)
        d = s[nb - 1] - s[0] if n >= nb else None
        t = thr([d] if d is not None else [])
        want = None if n < nb else d < t
        rule = C.DeltaYStopper(t) if m is None else C.DeltaYStopper(t, n_best=nb)
    elif k == 'hollow':
        m = m or 0
        d = min(V[:n - m]) - min(V) if n > m else None
        t = thr([d] if d is not None else [])
        want = None if n <= m else d <= abs(t)
        rule = C.HollowIterationsStopper(m, threshold=t) if t else C.HollowIterationsStopper(m)
    elif k == 'threshold':
        t = thr(V) if x == 'tie' else x + off
        want = any(v <= t for v in V)
        rule = C.ThresholdStopper(t)
    else:
        now = [100.0]
        step = [0.0]

        def clock():
            now[0] += step[0]
            return now[0]
        old = C.time
        C.time = clock
        try:
            total = 20.0 if x in ('tie', 0.0) else abs(x) * 10
            rule = C.DeadlineStopper(total) if k == 'deadline' else C.TimerCallback()
            durs = []
            t0 = now[0]
            for i in range(max(n, 1)):
                d = rng.choice([0.0, 1.0, 2.0, 5.0, round(rng.uniform(0, 4), 2)])
                now[0] = t0 + d
                d = now[0] - t0
                t0 = now[0]
                durs.append(d)
                r = OptimizeResult(x_iters=X[:i + 1], func_vals=y[:i + 1], space=sp)
                got = rule(r)
                if list(map(float, rule.iter_time)) != durs:
                    return ['durations %r recorded, %r passed' % (rule.iter_time, durs)]
                if k == 'timer':
                    if got:
                        return ['a timer asks to stop']
                    continue
                if not r.x_iters:
                    if got:
                        return ['stops without any evaluation']
                    continue
                left = total - sum(durs)
                want = left <= max(durs)
                if abs(left - max(durs)) < 1e-9 * max(1, abs(total)) and not all(float(v).is_integer() for v in durs + [total]):
                    continue
                if got is None or bool(got) != want:
                    return ['deadline %r after durations %r: answer %r, expected %r' % (total, durs, got, want)]
        finally:
            C.time = old
        return []
    got = rule(res)
    if want is None:
        return ['%s with %d values: answered %r without enough history' % (k, n, got)] if got else []
    if got is None or bool(got) != bool(want):
        return ['%s(%r, %r) on values %r: answered %r, expected %r' % (k, t, m, V[:12], got, want)]
    return []
