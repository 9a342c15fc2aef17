"""Whole minimizer runs against the documented budget and callback rules; errors are tagged C11 or C12."""
import io
import contextlib
import numpy as np
from oracles.util import *
from oracles.optsim import Rec

MINS = ['base', 'base', 'base', 'dummy', 'dummy', 'forest', 'gbrt', 'gp', 'run']


def rand_case(rng, hints):
    ss = rand_space(rng, hints, nmax=3)
    for s in ss:
        if s['k'] == 'C' and s['tr'] in ('string', 'identity'):
            s['tr'] = 'onehot'
    m = rng.choice(MINS)
    n0 = rng.choice([0, 1, 2, 3, rint(rng, -1, 8, hints)])
    K = rng.choice([0, 0, 1, 2, 3, rint(rng, 1, 9, hints)])
    form = rng.choice(['list', 'list', 'tuples', 'single']) if K else 'none'
    if form == 'single':
        K = 1
    vals = rng.choice(['none', 'none', 'list', 'tuple', 'array', 'scalar', 'wrong', 'empty']) if K else 'none'
    if rng.random() < .06 and K:
        form += '-short'
    n = rng.choice([rint(rng, 1, 14, hints), max(n0, 0) + K, max(n0, 0) + K + 1, max(n0, 0) + K - 1, max(n0, 0), rint(rng, 1, 40, hints)])
    ncb = rng.choice([0, 1, 1, 2, 3])
    cbs = []
    for _ in range(ncb):
        at = rng.choice([None, None, 0, 1, 2, rint(rng, 0, 9, hints)])
        cbs.append(dict(at=at, yes=rng.choice(['True', 'np', 'one']), no=rng.choice(['None', 'False', 'np', 'zero'])))
    return dict(dims=ss, min=m, n=n, n0=n0, nrs=rng.random() < .15, K=K, form=form, vals=vals, seed=rng.randrange(10 ** 6), cbs=cbs,
                cbform=rng.choice(['list', 'list', 'single']) if ncb == 1 else rng.choice(['list'] * 8 + ['badlist', 'bad']) if ncb else 'none',
                verbose=rng.random() < .15, limit=rng.choice([None, None, 1, 2]))


def fixed_cases(hints):
    ss = [dict(k='R', lo=-1., hi=2.), dict(k='C', cats=['a', 'b', 'c'], tr='onehot')]
    one = [dict(k='I', lo=1, hi=9)]
    base = dict(dims=ss, min='base', n=6, n0=2, nrs=False, K=0, form='none', vals='none', seed=3, cbs=[], cbform='none', verbose=False, limit=None)
    k = 0
    for m in ('base', 'dummy', 'forest', 'gbrt', 'gp', 'run'):
        for K, form, vals in ((0, 'none', 'none'), (2, 'list', 'none'), (2, 'list', 'list'), (1, 'single', 'none'), (1, 'single', 'scalar'), (3, 'tuples', 'array')):
            k += 1
            yield dict(base, min=m, K=K, form=form, vals=vals, seed=k)
            yield dict(base, min=m, K=K, form=form, vals=vals, seed=k, dims=one, cbform='list', cbs=[dict(at=0, yes='np', no='None'), dict(at=None, yes='True', no='None')])
            yield dict(base, min=m, K=K, form=form, vals=vals, seed=k, cbform='list', verbose=True,
                       cbs=[dict(at=3, yes='True', no='False'), dict(at=None, yes='True', no='None'), dict(at=2, yes='one', no='zero')])
    for K in (1, 2, 3):
        for n in range(1, 7):
            for n0 in (-2, 0, 1, 3):
                yield dict(base, K=K, form='list', vals='none', n=n, n0=n0)
                yield dict(base, K=K, form='list', vals='list', n=n, n0=n0, min='base')
    for c in hints.ints:
        if 0 < c <= 60:
            yield dict(base, n=c, min='dummy')
            yield dict(base, n=c + 2, n0=c, min='base')
            yield dict(base, n=c + 3, n0=1, K=c, form='list', vals='none')
            yield dict(base, n=c + 3, n0=1, K=c, form='list', vals='list')


ANS = dict(true=dict(True_=True), none=None)


def answer(c, t):
    if c['at'] is not None and t == c['at']:
        return dict(np=np.bool_(True), one=1).get(c['yes'], True)
    return dict(np=np.bool_(False), zero=0, **{'False': False}).get(c['no'])


class Stop(Exception):
    pass


def simulate(case, want):
    import skopt
    from skopt.optimizer import base_minimize
    from skopt import Optimizer
    errs = []

    def err(p, m):
        if p == want:
            errs.append(m)
    rng = random.Random(case['seed'])
    ss = case['dims']
    dims = [mk_dim(s) for s in ss]
    K, form, vals = case['K'], case['form'], case['vals']
    pts = [[cval(v) for v in rand_point(rng, ss)] for _ in range(K)]
    short = form.endswith('-short')
    if short:
        pts[-1] = pts[-1] + [pts[-1][0]]
    form = form.split('-')[0]
    x0 = None if form == 'none' else list(pts[0]) if form == 'single' else [list(p) for p in pts] if form == 'list' else [tuple(p) for p in pts]
    if form == 'single' and isinstance(pts[0][0], (list, tuple)):
        raise Skip()
    yv = [round(rng.uniform(-5, 5), 6) for _ in range(K + 1)]
    y0 = dict(none=None, list=yv[:K], tuple=tuple(yv[:K]), array=np.array(yv[:K]), scalar=yv[0], wrong=yv[:K + 1] if rng.random() < .5 else yv[:K - 1], empty=[])[vals] if K else None
    ny = None if y0 is None else 1 if vals == 'scalar' else len(y0)
    calls, log = [], []

    def value(x):
        return math.sin(sum((i + 1) * (v if isinstance(v, (int, float)) else len(str(v)) + hash(str(v)) % 1) for i, v in enumerate(map(float_, x)))) * 3

    def float_(v):
        return float(v) if not isinstance(v, str) else float(sum(map(ord, v)))

    def func(x):
        calls.append((list(x), len(log)))
        return value(x)
    rounds = [0]

    def mk(j, c):
        def cb(res):
            log.append((j, len(res.x_iters), len(res.func_vals), len(calls), float(res.fun), [list(x) for x in res.x_iters], list(map(float, res.func_vals))))
            t = sum(1 for e in log if e[0] == j) - 1
            return answer(c, t)
        return cb
    cbs = [mk(j, c) for j, c in enumerate(case['cbs'])]
    given = dict(none=None, list=cbs, single=cbs[0] if cbs else None, badlist=cbs + [3], bad='callback')[case['cbform']]
    m, n, n0 = case['min'], case['n'], case['n0']
    if m == 'run':
        # Optimizer.run
        n0 = max(n0, 0) if K and not short else max(n0, 1)
        n = max(n, 1)
        o = Optimizer(dims, base_estimator=Rec(), n_initial_points=n0, random_state=case['seed'], acq_optimizer='sampling', acq_optimizer_kwargs=dict(n_points=20))
        if K and not short:
            o.tell(pts, yv[:K])
        res = o.run(func, n_iter=n)
        if len(calls) != n:
            err('C11', 'run(n_iter=%d) evaluated %d times' % (n, len(calls)))
        w = ([list(p) for p in pts] if K and not short else []) + [c[0] for c in calls]
        if [list(x) for x in res.x_iters] != w or list(res.func_vals) != (yv[:K] if K and not short else []) + [value(c[0]) for c in calls]:
            err('C11', 'run: records differ from the evaluations made')
        return errs
    kw = dict(n_calls=n, x0=x0, y0=y0, random_state=case['seed'], callback=given, verbose=case['verbose'], model_queue_size=case['limit'])
    if m == 'dummy':
        n0 = n - (K if y0 is None else 0)
        f = skopt.dummy_minimize
    else:
        kw['n_points'] = 20
        if case['nrs']:
            kw['n_random_starts'] = n0
            kw['n_initial_points'] = n0 + 3
        else:
            kw['n_initial_points'] = n0
        kw['base_estimator'] = Rec()
        if m in ('base', 'gp'):
            kw['acq_optimizer'] = 'sampling'
            kw['n_restarts_optimizer'] = 1
        if m == 'gp':
            kw['acq_func'] = 'gp_hedge'
        f = dict(base=lambda func, dims, **k: base_minimize(func, dims, k.pop('base_estimator'), **k), forest=skopt.forest_minimize, gbrt=skopt.gbrt_minimize, gp=skopt.gp_minimize)[m]
    need = max(n0, 0) + (K if not ny else 0)
    bad = n0 + K < 0 or n < need or (n0 <= 0 and K == 0) or short or (ny is not None and ny != K)
    badcb = case['cbform'] in ('badlist', 'bad')
    exc = res = None
    before = list(given) if isinstance(given, list) else None
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            res = f(func, dims, **kw)
        except (ValueError, RuntimeError, AssertionError, TypeError) as e:
            exc = e
    tag = 'C12' if badcb and not bad else 'C11'
    if bad or badcb:
        if exc is None:
            err(tag, 'accepted (n_calls=%d, n_initial_points=%d, %d starting points%s, values %s, callbacks %s)' % (n, n0, K, ' of wrong length' if short else '', vals, case['cbform']))
        if calls:
            err(tag, 'refused only after %d evaluations' % len(calls))
        return errs
    if exc is not None:
        err('C11', 'refused: %s: %s' % (type(exc).__name__, exc))
        return errs
    if before is not None and not (len(given) == len(before) and all(a is b for a, b in zip(given, before))):
        err('C12', 'the list of callbacks passed in was changed')
    # expected schedule
    free = K if K and y0 is None else 0
    total = n
    stops = [c['at'] for c in case['cbs'] if c['at'] is not None]
    first = min(stops) if stops else None           # round (0-based) in which some callback first asks to stop
    nr = (1 if K else 0) + (n - free)               # rounds without a stop
    if first is not None and first < nr:
        nr = first + 1
    evals = free + nr - (1 if K else 0)
    if len(calls) != evals:
        err('C12' if len(calls) > evals and first is not None else 'C11', '%d evaluations, expected %d' % (len(calls), evals))
    if free and [c[0] for c in calls[:free]] != [list(p) for p in pts]:
        err('C11', 'starting points evaluated as %r, given %r' % ([c[0] for c in calls[:free]][:4], pts[:4]))
    w = ([list(p) for p in pts] if K and not free else []) + [c[0] for c in calls]
    wy = (list(yv[:K]) if K and not free else []) + [value(c[0]) for c in calls]
    if res is None:
        if evals or K:
            err('C11', 'no result returned')
        return errs
    if [list(x) for x in res.x_iters] != w:
        err('C11', 'recorded points differ from the starting points and evaluations, in order')
    if list(map(float, res.func_vals)) != wy:
        err('C11', 'recorded values %r, expected %r' % (list(res.func_vals)[:6], wy[:6]))
    m_ = len(cbs)
    if [e[0] for e in log] != [j for _ in range(nr) for j in range(m_)]:
        err('C12', 'callbacks invoked in order %r, expected every one of %d once in each of %d rounds' % ([e[0] for e in log][:20], m_, nr))
    else:
        for i, e in enumerate(log):
            t = i // m_
            cnt = (K if K else 1) + t
            if e[1] != cnt or e[2] != cnt:
                err('C12', 'callback %d in round %d saw %d points and %d values, %d recorded' % (e[0], t, e[1], e[2], cnt))
                break
            if e[3] != (free + t if K else t + 1):
                err('C12', 'callback %d in round %d ran after %d evaluations, expected %d' % (e[0], t, e[3], free + t if K else t + 1))
                break
            if e[5] != w[:cnt] or e[6] != wy[:cnt] or e[4] != min(wy[:cnt]):
                err('C12', 'callback %d in round %d saw other data than was recorded so far' % (e[0], t))
                break
    return errs
