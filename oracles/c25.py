"""Two runs with the same seed are the same run."""
import json
import os
import random
import subprocess
import sys
import time
import warnings
import numpy as np
from oracles.util import *

RULE = ('one case = one scenario (a minimizer, an ask/tell session with batches, a sampler, space draws, a fitted surrogate, expected minimum, a search with cross-validation) with a seed, run twice: '
        'with other global random states, another clock, and for some cases in two processes with different hash seeds; all points, values and predictions bit for bit')
SPACES = [[dict(k='R', lo=-2., hi=2., tr='identity'), dict(k='R', lo=1e-3, hi=1., prior='log-uniform', tr='identity')],
          [dict(k='I', lo=0, hi=9, tr='identity'), dict(k='R', lo=0., hi=1., tr='identity'), dict(k='C', cats=['a', 'b', 'c'], tr='onehot')],
          [dict(k='C', cats=['x', 'y', 'zz'], tr='onehot'), dict(k='C', cats=[1, 2, 3, 4], tr='onehot')]]
GENS = ['random', 'lhs', 'sobol', 'halton', 'hammersly', 'grid']
ESTS = ['GP', 'RF', 'ET', 'GBRT', 'dummy']


def scenarios():
    for fn in ('gp', 'forest', 'gbrt', 'dummy'):
        for sp in range(3):
            yield dict(t='min', fn=fn, sp=sp, n=7, n0=4, gen='random')
    for est in ESTS:
        for acq in ('EI', 'LCB', 'PI', 'gp_hedge'):
            yield dict(t='opt', est=est, acq=acq, sp=1, n=7, n0=4, gen='lhs', batch=0)
        yield dict(t='opt', est=est, acq='EI', sp=0, n=3, n0=3, gen='random', batch=3)
    for acq in ('EIps', 'PIps'):
        yield dict(t='opt', est='ET', acq=acq, sp=0, n=6, n0=4, gen='random', batch=0)
    for gen in GENS:
        yield dict(t='opt', est='RF', acq='EI', sp=1, n=6, n0=5, gen=gen, batch=0)
        yield dict(t='gen', gen=gen, sp=1, n=6)
    yield dict(t='rvs', sp=1, n=10)
    yield dict(t='rvs', sp=0, n=10)
    for est in ESTS[:4]:
        yield dict(t='fit', est=est)
    yield dict(t='emin', sp=0, n=8, n0=4)
    yield dict(t='emin', sp=1, n=8, n0=4)
    yield dict(t='cv')


def fixed(hints):
    for s in scenarios():
        yield dict(s, seed=3, obj=False)
    yield dict(t='hash', seed=1, what=[dict(t='opt', est='ET', acq='EI', sp=2, n=5, n0=3, gen='lhs', batch=0, seed=2, obj=False),
                                        dict(t='min', fn='gp', sp=1, n=6, n0=4, gen='random', seed=1, obj=False), dict(t='gen', gen='grid', sp=1, n=6, seed=1, obj=False),
                                        dict(t='opt', est='GBRT', acq='gp_hedge', sp=1, n=5, n0=3, gen='sobol', batch=2, seed=2, obj=False), dict(t='cv', seed=4, obj=False)])
    for s in scenarios():
        yield dict(s, seed=5, obj=True)


def random_case(rng, hints):
    s = dict(rng.choice(list(scenarios())))
    if s['t'] == 'opt':
        s.update(est=rng.choice(ESTS if not s['acq'].endswith('ps') else ESTS[:4]), gen=rng.choice(GENS), sp=rng.randrange(3), batch=rng.choice([0, 0, 2, 3]))
        if not s['acq'].endswith('ps'):
            s['acq'] = rng.choice(['EI', 'LCB', 'PI', 'gp_hedge'])
        s['n0'] = rint(rng, 1, 6, hints)
        s['opt'] = rng.choice(['auto', 'sampling'])
    if s['t'] == 'min':
        s.update(gen=rng.choice(GENS), sp=rng.randrange(3))
        s['x0'] = rng.random() < .3
    return dict(s, seed=rng.randrange(10 ** 5), obj=rng.random() < .3)


def value(x):
    t = 0.0
    for i, v in enumerate(x):
        t += (i + 1) * (len(v) if isinstance(v, str) else float(v)) ** 2 * .3 - (.5 if v in ('b', 2) else 0)
    return float(t)


def seed_of(case):
    return np.random.RandomState(case['seed']) if case.get('obj') else case['seed']


def flat(x):
    if isinstance(x, (list, tuple)):
        return [flat(v) for v in x]
    if isinstance(x, np.ndarray):
        return [flat(v) for v in x.tolist()]
    if isinstance(x, (float, np.floating)):
        return float(x).hex()
    if isinstance(x, np.integer):
        return int(x)
    return x


def play(case, errs=None):
    import skopt
    from skopt import Optimizer
    from skopt.utils import cook_estimator, expected_minimum, expected_minimum_random_sampling
    seed = seed_of(case)
    t = case['t']
    if t in ('min', 'opt', 'gen', 'rvs', 'emin'):
        sp = mk_space(SPACES[case['sp']])
        dims = sp.dimensions
    drawn = seed.get_state()[1].copy() if case.get('obj') else None
    pos = seed.get_state()[2] if case.get('obj') else None
    out = None
    if t == 'min':
        fn = dict(gp=skopt.gp_minimize, forest=skopt.forest_minimize, gbrt=skopt.gbrt_minimize, dummy=skopt.dummy_minimize)[case['fn']]
        kw = dict(n_calls=case['n'], random_state=seed)
        if case['fn'] != 'dummy':
            kw.update(n_initial_points=case['n0'], initial_point_generator=case['gen'])
        if case.get('x0'):
            kw['x0'] = [sp.rvs(1, random_state=1)[0]]
        r = fn(value, dims, **kw)
        out = [r.x_iters, r.func_vals, r.x, r.fun]
        if case.get('obj') and r.random_state is not seed and case['fn'] != 'gbrt' and errs is not None:
            errs.append('the generator given is not the one the run drew from')
    elif t == 'opt':
        o = Optimizer(dims, base_estimator=case['est'], acq_func=case['acq'], n_initial_points=case['n0'], initial_point_generator=case['gen'], random_state=seed,
                      acq_optimizer=case.get('opt', 'auto'))
        if case.get('obj') and o.rng is not seed and errs is not None:
            errs.append('the optimizer does not draw from the generator given')
        f = (lambda x: (value(x), 1.0 + abs(value(x)))) if case['acq'].endswith('ps') else value
        out = []
        for i in range(case['n']):
            if case['batch']:
                X = o.ask(n_points=case['batch'], strategy=['cl_min', 'cl_mean', 'cl_max'][i % 3])
                out.append(X)
                o.tell(X, [f(x) for x in X])
            else:
                x = o.ask()
                out.append(x)
                o.tell(x, f(x))
        out.append(o.ask())
        c = o.copy(random_state=case['seed'])
        out.append(c.ask(2) if case['est'] != 'dummy' else c.ask())
    elif t == 'gen':
        from skopt.utils import cook_initial_point_generator
        g = cook_initial_point_generator(case['gen'])
        out = g.generate(dims, case['n'], random_state=seed) if g is not None else sp.rvs(case['n'], random_state=seed)
    elif t == 'rvs':
        out = [sp.rvs(case['n'], random_state=seed)] + [d.rvs(n_samples=case['n'], random_state=seed) for d in dims]
        out = [[[v for v in p] if isinstance(p, list) else p for p in o] for o in out]
    elif t == 'fit':
        r = np.random.RandomState(0)
        X, y = r.rand(25, 2), r.rand(25)
        from skopt.space import Real
        e = cook_estimator(case['est'], space=[Real(0., 1.), Real(0., 1.)], random_state=case['seed'])
        e.fit(X, y)
        out = list(e.predict(r.rand(9, 2), return_std=True))
    elif t == 'emin':
        r = skopt.gp_minimize(value, dims, n_calls=case['n'], n_initial_points=case['n0'], random_state=case['seed'])
        out = [list(expected_minimum(r, n_random_starts=3, random_state=seed)) if case['sp'] == 0 else None, list(expected_minimum_random_sampling(r, n_random_starts=50, random_state=seed))]
    elif t == 'cv':
        from sklearn.datasets import load_iris
        from sklearn.tree import DecisionTreeClassifier
        X, y = load_iris(return_X_y=True)
        s = skopt.BayesSearchCV(DecisionTreeClassifier(random_state=0), {'max_depth': (1, 9), 'min_samples_split': (0.01, 0.5), 'criterion': ['gini', 'entropy']}, n_iter=5, cv=2, random_state=seed,
                                optimizer_kwargs=dict(base_estimator='ET', n_initial_points=3))
        s.fit(X, y)
        out = [[sorted((k, flat(v)) for k, v in p.items()) for p in s.cv_results_['params']], list(s.cv_results_['mean_test_score'])]
    if case.get('obj') and errs is not None and t not in ('fit', 'emin') and not (t == 'gen' and case['gen'] in ('halton', 'hammersly')):
        st = seed.get_state()
        if np.array_equal(st[1], drawn) and st[2] == pos:
            errs.append('nothing was drawn from the generator given')
    return flat(out)


def disturbed(case, k, errs=None):
    np.random.seed(1000 + k)
    random.seed(2000 + k)
    real = time.time
    off = [k * 1e5]

    def clock():
        off[0] += 7.25 * k + .001
        return real() + off[0]
    g0 = np.random.get_state()[1].copy()
    try:
        time.time = clock
        r = play(case, errs)
    finally:
        time.time = real
    if errs is not None and (not np.array_equal(g0, np.random.get_state()[1]) or np.random.get_state()[2] != 624):
        errs.append('the global random state was drawn from or reseeded')
    return r


def check(case):
    errs = []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if case['t'] == 'hash':
            outs = []
            for hs in ('1', '2', '77'):
                env = dict(os.environ, PYTHONHASHSEED=hs, PYTHONPATH=os.pathsep.join(p for p in sys.path if p))
                r = subprocess.run([sys.executable, '-W', 'ignore', '-c', 'import json,sys\nfrom oracles.c25 import play\nprint("OUT" + json.dumps([play(c) for c in json.loads(sys.argv[1])]))', json.dumps(case['what'])],
                                   capture_output=True, text=True, env=env, timeout=200)
                got = [x for x in r.stdout.splitlines() if x.startswith('OUT')]
                outs.append(got[0] if got else r.stderr[-200:])
            if len(set(outs)) != 1:
                a, b = [json.loads(x[3:]) if x.startswith('OUT') else x for x in (outs[0], [o for o in outs if o != outs[0]][0])]
                for s, x, y in zip(case['what'], a, b):
                    if x != y:
                        errs.append('another hash seed changes %r: %r %r' % (s, x, y))
            return [e[:600] for e in errs[:3]]
        a = disturbed(case, 0, errs)
        b = disturbed(case, 3, errs)
        if a != b:
            d = [(x, y) for x, y in zip(a, b) if x != y] if isinstance(a, list) else [(a, b)]
            errs.append('two runs differ: %r' % (d[:1],))
    return [e[:600] for e in errs[:4]]
