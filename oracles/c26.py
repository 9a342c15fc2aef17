"""Expected minima and partial dependence against direct evaluation of made-up models (C26)."""
import numpy as np
from oracles.util import *

RULE = ('one case = a space, a made-up row-by-row model behind two decoy models, and either an expected minimum (0-4 random starts; member of the space, prediction recomputed, '
        'not worse than at the best observed point; sampled variant: the best of the redrawn samples) or a 1-D or 2-D partial dependence compared with means recomputed from the samples')


class Model:
    """row-by-row, uneven in every column, with several local minima"""

    def __init__(self, seed, flat=False):
        self.seed, self.flat = seed, flat

    def predict(self, X):
        X = np.array(X, dtype=float)
        r = np.random.RandomState(self.seed)
        out = np.zeros(len(X))
        prev = 0.
        for c in range(X.shape[1]):
            w, ph, q, s = r.uniform(.3, 2), r.uniform(0, 6), r.uniform(-1, 1), 10 ** r.uniform(-2, .5)
            z = np.arctan(X[:, c] * s)
            out = out + w * np.sin(3 * z * w + ph) + q * z * prev + .1 * z
            prev = z
        if self.flat:
            out = np.round(out, 1)
        return out


class Decoy:
    def predict(self, X):
        return 7. - np.arange(len(X))


def dims(rng, hints, cats):
    n = rng.choice([1, 1, 2, 2, 3, 4])
    ss = []
    for _ in range(n):
        s = rand_dim(rng, hints, numeric=not cats)
        s['dt'] = None
        if s['k'] == 'C':
            s['tr'] = rng.choice(['onehot', 'onehot', 'label', 'normalize'])
        else:
            w = max(abs(s['lo']), abs(s['hi']))
            if w > 1e6:
                s['lo'], s['hi'], s['prior'] = (1, 9, s['prior']) if s['k'] == 'I' else (1., 9., s['prior'])
        ss.append(s)
    if cats == 'ints':
        ss = [dict(k='I', lo=0, hi=rng.choice([1, 3, 10]), prior='uniform', tr='identity') for _ in ss]
    return ss


def random_case(rng, hints):
    u = rng.random()
    kind = 'min' if u < .3 else 'sampled' if u < .4 else 'catmin' if u < .41 else '1d' if u < .7 else '2d'
    cats = {'min': False, 'sampled': True, 'catmin': True}.get(kind, rng.choice([True, True, False, 'ints']))
    ss = dims(rng, hints, cats)
    if kind == 'catmin':
        ss = ss[:2] + [dict(k='C', cats=['a', 'b', 'c'], tr='onehot')]
    if kind == '2d' and len(ss) < 2:
        ss = ss + dims(rng, hints, cats)
    c = dict(kind=kind, ss=ss, seed=rng.randrange(10 ** 6), m=rng.randrange(10 ** 6), flat=rng.random() < .15)
    if kind in ('min', 'sampled', 'catmin'):
        c['n'] = rng.choice([0, 0, 1, 2, 4]) if kind == 'min' else rint(rng, 1, 60, hints)
    else:
        c['i'] = rng.randrange(len(ss))
        if kind == '2d':
            c['j'] = rng.choice([x for x in range(len(ss)) if x != c['i']])
        c['p'] = rng.choice([1, 2, 3, 5, 7, rint(rng, 1, 40, hints)])
        c['s'] = rng.choice([1, 2, 5, rint(rng, 1, 40, hints)])
        c['src'] = rng.choice(['given', 'given', 'eval', 'random', 'direct'])
    return c


def fixed(hints):
    I = lambda lo, hi, prior='uniform', tr='identity': dict(k='I', lo=lo, hi=hi, prior=prior, tr=tr)
    out = [dict(kind='min', ss=[I(1, 100, 'log-uniform', t)], seed=s, m=s, flat=False, n=n) for s in range(4) for n in (0, 3) for t in ('identity', 'normalize')]
    out += [dict(kind='1d', ss=[I(0, 1), I(0, 3)], seed=1, m=2, flat=False, i=0, p=5, s=3, src='given'),
            dict(kind='2d', ss=[I(0, 1), I(0, 3)], seed=1, m=2, flat=False, i=1, j=0, p=4, s=3, src='given')]
    return out


def close(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


def check(c):
    from scipy.optimize import OptimizeResult
    from skopt.utils import expected_minimum, expected_minimum_random_sampling
    sp = mk_space(c['ss'])
    model = Model(c['m'], c.get('flat'))
    pred = lambda x: float(model.predict(sp.transform([x]))[0])
    if c['kind'] in ('min', 'sampled', 'catmin'):
        x0 = sp.rvs(1, random_state=c['seed'])[0]
        res = OptimizeResult(x=list(x0), fun=0., space=sp, models=[Decoy(), Decoy(), model])
        if c['kind'] == 'min':
            x, f = expected_minimum(res, n_random_starts=c['n'], random_state=c['seed'])
        elif c['kind'] == 'sampled':
            x, f = expected_minimum_random_sampling(res, n_random_starts=c['n'], random_state=c['seed'])
        else:
            x, f = expected_minimum(res, n_random_starts=c['n'], random_state=c['seed'])
        x = list(x)
        if res.x != list(x0):
            return 'the best observed point changed: %r' % res.x
        if len(x) != len(c['ss']):
            return 'point of %d coordinates' % len(x)
        if x not in sp:
            return 'expected minimum %r outside the space' % (x,)
        for v, s in zip(x, c['ss']):
            if s['k'] == 'I' and float(v) != round(float(v)):
                return 'fractional value %r for an integer dimension' % v
        if not close(float(f), pred(x)):
            return 'reported %r, the model predicts %r at %r' % (float(f), pred(x), x)
        if c['kind'] == 'min' and f > pred(x0) + 1e-9 * max(1, abs(f)):
            return 'expected minimum %r worse than %r at the best observed point' % (float(f), pred(x0))
        if c['kind'] != 'min':
            n = c['n'] if c['kind'] == 'sampled' else 100000
            S = sp.rvs(n, random_state=c['seed'])
            P = model.predict(sp.transform(S))
            if f > P.min() + 1e-12:
                return 'sampled minimum %r, best sample %r' % (float(f), P.min())
            if x not in [list(s) for s in S]:
                return 'not one of the samples: %r' % x
        return
    import matplotlib
    matplotlib.use('Agg')
    from skopt.plots import partial_dependence, partial_dependence_1D, partial_dependence_2D
    i, j, p = c['i'], c.get('j'), c['p']
    rs = np.random.RandomState(c['seed'])
    pts = sp.rvs(c['s'], random_state=rs)
    T = sp.transform(pts)
    before = np.array(T, copy=True)
    if c['src'] == 'given':
        r = partial_dependence(sp, model, i, j, sample_points=T, n_points=p)
    elif c['src'] == 'direct':
        r = partial_dependence_1D(sp, model, i, T, p) if j is None else partial_dependence_2D(sp, model, i, j, T, p)
    elif c['src'] == 'eval':
        x = pts[0]
        r = partial_dependence(sp, model, i, j, n_points=p, x_eval=x)
        before = T = sp.transform([x])
    else:
        drawn = []
        own = sp.rvs

        def rvs(*a, **k):
            d = own(*a, **k)
            drawn.append(d)
            return d
        sp.rvs = rvs
        r = partial_dependence(sp, model, i, j, n_samples=c['s'], n_points=p)
        del sp.rvs
        if len(drawn) != 1 or len(drawn[0]) != c['s']:
            return 'drew %r samples instead of %d' % ([len(d) for d in drawn], c['s'])
        before = T = sp.transform(drawn[0])
    if not np.array_equal(before, T):
        return 'the samples were changed'
    sizes = [len(np.ravel(d.transform([d.categories[0] if hasattr(d, 'categories') else d.low]))) for d in sp.dimensions]
    st = [sum(sizes[:k]) for k in range(len(sizes) + 1)]

    def axis(k, v):
        d = sp.dimensions[k]
        v = np.array(v)
        if hasattr(d, 'categories'):
            K = len(d.categories)
            if len(v) != min(K, p):
                return None, '%d positions of %d categories for %d points' % (len(v), K, p)
            if list(v) != sorted(set(v)) or v[0] != 0 or v[-1] >= K or (p >= K and list(v) != list(range(K))) or (len(v) > 1 and v[-1] != K - 1):
                return None, 'positions %r of %d categories' % (list(v), K)
            vals = [d.categories[int(q)] for q in v]
        else:
            lo, hi = d.low, d.high
            want = [lo] if p == 1 else [lo + (hi - lo) * q / (p - 1) for q in range(p)]
            if len(v) != p or not np.allclose(v, want, rtol=1e-9, atol=1e-9 * abs(hi - lo)):
                return None, 'plotted values %r, expected %r' % (list(v), want)
            vals = [float(q) for q in v]
        return [np.ravel(d.transform(np.array([q], dtype=object) if hasattr(d, 'categories') else np.array([q]))) for q in vals], None

    def value(fix):
        M = np.array(before, dtype=float)
        for k, row in fix:
            M[:, st[k]:st[k + 1]] = row
        return float(np.mean(model.predict(M)))
    if j is None:
        xi, yi = r
        a, e = axis(i, xi)
        if e:
            return e
        if len(yi) != len(a):
            return '%d values for %d plotted values' % (len(yi), len(a))
        for q, row in enumerate(a):
            if not close(float(yi[q]), value([(i, row)])):
                return 'value %d is %r, the mean of the model is %r' % (q, float(yi[q]), value([(i, row)]))
        return
    xi, yi, zi = r
    a, e = axis(j, xi)
    b, e2 = axis(i, yi)
    if e or e2:
        return e or e2
    zi = np.array(zi)
    if zi.shape != (len(b), len(a)):
        return 'table of shape %r for %d by %d plotted values' % (zi.shape, len(b), len(a))
    for u, rb in enumerate(b):
        for v, ra in enumerate(a):
            w = value([(j, ra), (i, rb)])
            if not close(float(zi[u][v]), w):
                return 'entry (%d, %d) is %r, the mean of the model is %r' % (u, v, float(zi[u][v]), w)
