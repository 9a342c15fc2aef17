"""Forests and boosted quantiles against the formulas their members define (C18)."""
import warnings
import numpy as np
from oracles.util import *

RULE = ('one case = one ensemble (kind, number of trees or quantiles, leaf size, variance floor, bootstrap) fitted on random data with repeats, asked at random points, '
        'compared with the average / law of total variance over its own trees, or with its own quantile models')


def random_case(rng, hints):
    d = rng.choice([1, 2, 3])
    n = rng.choice([3, 6, 12, 25, rint(rng, 3, 40, hints)])
    X = [[round(rng.gauss(0, 1), 3) for _ in range(d)] for _ in range(n)]
    if rng.random() < .3:
        X = [[float(round(v)) for v in x] for x in X]
    sc = rng.choice([1.0, 1.0, 1e-3, 1e3])
    off = rng.choice([0, 0, 5.0, -3.0]) * sc
    y = [round((rng.gauss(0, 1) + x[0]), 4) * sc + off for x in X]
    if rng.random() < .1:
        y = [y[0]] * n
    q = [[round(rng.gauss(0, 1), 3) for _ in range(d)] for _ in range(rng.choice([1, 1, 2, 5]))] + ([X[0]] if rng.random() < .5 else [])
    c = dict(kind=rng.choice(['RF', 'ET', 'RF', 'ET', 'GB']), X=X, y=y, q=q, seed=rng.randint(0, 99), sc=sc, n_jobs=rng.choice([1, 1, 1, 2]))
    if c['kind'] == 'GB':
        base = [.16, .5, .84]
        r = rng.random()
        qs = base if r < .4 else rng.sample(base, 3) if r < .6 else rng.sample(base + [.1, .9, .25, .75], rng.randint(1, 6))
        c.update(qs=qs, own=rng.random() < .5, ne=rng.choice([3, 8, 15]))
    else:
        c.update(ne=rng.choice([1, 2, 3, 10, rint(rng, 1, 30, hints)]), leaf=rng.choice([1, 1, 2, 3, 5]), boot=rng.random() < .5, crit=rng.choice(['squared_error'] * 5 + ['absolute_error', 'friedman_mse', 'poisson']),
                 minv=rng.choice([0.0, 0.0, 0.01, .1, 1.0, 10.0, rfloat(rng, hints) if rng.random() < .5 else 0.0]) * sc * sc, depth=rng.choice([None, None, 1, 2, 3]))
        c['minv'] = abs(c['minv'])
    return c


def fixed(hints):
    rng = random.Random(5)
    done = 0
    for kind in ('RF', 'ET', 'GB'):
        for leaf in (1, 3, 8):
            for minv in (0.0, .05, 5.0) if kind != 'GB' else (0,):
                c = random_case(rng, hints)
                while c['kind'] != kind or len(c['X']) < 6 or c['sc'] != 1:
                    c = random_case(rng, hints)
                if kind != 'GB':
                    c.update(leaf=leaf, minv=minv, crit='squared_error')
                yield c
    for f in hints.floats:
        if 0 < f < 1e6:
            c = random_case(rng, hints)
            while c['kind'] == 'GB':
                c = random_case(rng, hints)
            c.update(minv=f, crit='squared_error', leaf=2)
            yield c


def check(c):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return boosted(c) if c['kind'] == 'GB' else forest(c)


def near(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def forest(c):
    from skopt.learning import RandomForestRegressor, ExtraTreesRegressor
    cls = RandomForestRegressor if c['kind'] == 'RF' else ExtraTreesRegressor
    X, y, q = (np.array(c[k], float) for k in 'Xyq')
    if c['crit'] == 'poisson' and not (y > 0).all():
        raise Skip()
    m = cls(n_estimators=c['ne'], min_samples_leaf=c['leaf'], bootstrap=c['boot'], min_variance=c['minv'], random_state=c['seed'], max_depth=c['depth'],
            criterion=c['crit'], n_jobs=c['n_jobs']).fit(X, y)
    if len(m.estimators_) != c['ne']:
        return ['%d trees asked, %d grown' % (c['ne'], len(m.estimators_))]
    P = np.array([t.predict(q) for t in m.estimators_])
    lab = '%s trees=%d leaf=%d min_variance=%g X=%r y=%r q=%r: ' % (c['kind'], c['ne'], c['leaf'], c['minv'], c['X'], c['y'], c['q'])
    plain = m.predict(q)
    big = 1 + np.abs(P).max()
    errs = []
    if not near(plain, P.mean(0), 1e-9 * np.abs(P).max()):
        errs.append(lab + 'mean %r, the average of the trees is %r' % (plain.tolist(), P.mean(0).tolist()))
    if c['crit'] != 'squared_error':
        try:
            m.predict(q, return_std=True)
            errs.append('%s: a deviation although the leaves hold no variances' % c['crit'])
        except ValueError:
            pass
        return errs
    mean, std = m.predict(q, return_std=True)
    if not near(mean, plain, 1e-12 * np.abs(P).max()):
        errs.append(lab + 'mean %r when a deviation is asked, %r otherwise' % (mean.tolist(), plain.tolist()))
    # the variances in the leaves from the training data themselves when every point was used
    V = []
    for t in m.estimators_:
        leaf = t.apply(q)
        v = t.tree_.impurity[leaf].copy()
        if not c['boot']:
            where = t.apply(X)
            mine = np.array([np.var(y[where == l]) for l in leaf])
            if not near(v, mine, 1e-7 * np.abs(y).max() ** 2 + 1e-12):
                raise Skip()
        V.append(np.maximum(v, c['minv']))
    want = np.mean(V, 0) + ((P - P.mean(0)) ** 2).mean(0)
    if std.shape != want.shape or not np.all(std >= 0) or not near(std ** 2, want, 1e-9 * np.abs(P).max() ** 2 + 1e-9 * want):
        errs.append(lab + 'deviation %r, the law of total variance gives %r' % (std.tolist(), np.sqrt(want).tolist()))
    again = m.predict(q, return_std=True)
    if not (near(again[1] ** 2, std ** 2, 1e-9 * np.abs(P).max() ** 2 + 1e-9 * want) and near(again[0], mean, 1e-12 * np.abs(P).max())):
        errs.append(lab + 'asking again changes the answer')
    return errs


def boosted(c):
    from sklearn.base import clone
    from sklearn.ensemble import GradientBoostingRegressor
    from skopt.learning import GradientBoostingQuantileRegressor
    X, y, q = (np.array(c[k], float) for k in 'Xyq')
    own = GradientBoostingRegressor(loss='quantile', n_estimators=c['ne'], subsample=.8) if c['own'] else None
    g = GradientBoostingQuantileRegressor(quantiles=list(c['qs']), base_estimator=own, random_state=c['seed'], n_jobs=c['n_jobs'])
    if g.fit(X, y) is not g:
        return ['fit does not return the estimator']
    lab = 'GB quantiles=%r X=%r y=%r q=%r: ' % (c['qs'], c['X'], c['y'], c['q'])
    errs = []
    if len(g.regressors_) != len(c['qs']):
        return [lab + '%d regressors' % len(g.regressors_)]
    want = []
    base = GradientBoostingRegressor(loss='quantile', **(dict(n_estimators=c['ne'], subsample=.8) if c['own'] else {}))
    for t, r in zip(c['qs'], g.regressors_):
        f = clone(base).set_params(alpha=t, random_state=np.random.RandomState(c['seed'])).fit(X, y)
        want.append(f.predict(q))
        if r.alpha != t:
            errs.append(lab + 'regressor of quantile %r in the place of %r' % (r.alpha, t))
    want = np.array(want)
    tab = g.predict(q, return_quantiles=True)
    tol = 1e-9 * (1e-300 + np.abs(y).max())
    if not near(tab, want.T, tol):
        errs.append(lab + 'quantiles %r, models of these quantiles from the same seed give %r' % (np.asarray(tab).tolist(), want.T.tolist()))
    w = {t: v for t, v in zip(c['qs'], want)}
    if .5 in w and not near(g.predict(q), w[.5], tol):
        errs.append(lab + 'mean %r, the median model gives %r' % (g.predict(q).tolist(), w[.5].tolist()))
    if {.16, .5, .84} <= set(w):
        m, s = g.predict(q, return_std=True)
        if not near(m, w[.5], tol) or not near(s, (w[.84] - w[.16]) / 2, tol):
            errs.append(lab + 'mean %r deviation %r, the quantiles give %r %r' % (m.tolist(), s.tolist(), w[.5].tolist(), ((w[.84] - w[.16]) / 2).tolist()))
    else:
        try:
            g.predict(q, return_std=True)
            errs.append(lab + 'a deviation without the quantiles it needs')
        except ValueError:
            pass
    for bad in (GradientBoostingRegressor(), __import__('sklearn.linear_model').linear_model.LinearRegression()):
        try:
            GradientBoostingQuantileRegressor(base_estimator=bad).fit(X, y)
            errs.append('%r accepted as quantile regressor' % bad)
        except ValueError:
            pass
    return errs
