"""Acquisition values on given predictions (C14)."""
import numpy as np
from scipy.special import ndtr
from oracles.util import *

RULE = 'one case = one acquisition function on given predicted means and deviations, incumbent and settings, compared with the closed form candidate by candidate'
NAMES = ['LCB', 'EI', 'PI', 'EIps', 'PIps']


class Given:
    def __init__(self, mu, sd, X, grads=None):
        self.mu, self.sd, self.X, self.grads = np.array(mu, float), np.array(sd, float), X, grads
        self.seen = None

    def predict(self, X, return_std=False, return_cov=False, return_mean_grad=False, return_std_grad=False):
        if not np.array_equal(X, self.X):
            raise AssertionError('other candidates predicted')
        if not return_std and not return_mean_grad:
            return self.mu.copy()
        out = [self.mu.copy(), self.sd.copy()]
        if return_mean_grad:
            out.append(np.array(self.grads[0], float))
        if return_std_grad:
            out.append(np.array(self.grads[1], float))
        return tuple(out)


def nums(rng, n, hints):
    sc = 10 ** rng.uniform(-3, 3)
    mu = [rng.gauss(0, 1) * sc + rng.choice([0, 0, 5]) for _ in range(n)]
    sd = [0.0 if rng.random() < .2 else abs(rng.gauss(0, 1)) * sc * 10 ** rng.uniform(-3, .5) for _ in range(n)]
    return mu, sd


def random_case(rng, hints):
    n = rng.choice([1, 1, 2, 3, 5, rint(rng, 1, 60, hints)])
    mu, sd = nums(rng, n, hints)
    tmu, tsd = [rng.gauss(0, 1.5) for _ in range(n)], [0.0 if rng.random() < .2 else abs(rng.gauss(0, .7)) for _ in range(n)]
    y = rng.choice([min(mu), mu[0] + sd[0], rng.choice(mu) + .1, rfloat(rng, hints)])
    return dict(name=rng.choice(NAMES), mu=mu, sd=sd, tmu=tmu, tsd=tsd, y=y, xi=rng.choice([None, 0.0, .01, .5, -.3, rfloat(rng, hints)]),
                kappa=rng.choice([None, 1.96, 0.0, 'inf', 10.0, -1.0, rfloat(rng, hints)]), via=rng.choice(['wrap', 'direct']), d=rng.randint(1, 3))


def fixed(hints):
    rng = random.Random(1)
    for n in [1, 2, 3, 7] + [c for c in hints.ints if 0 < c <= 300]:
        for name in NAMES:
            for k in range(4):
                c = random_case(rng, hints)
                mu, sd = nums(rng, n, hints)
                c.update(name=name, mu=mu, sd=sd if k else [0.0] * n, tmu=[rng.gauss(0, 1) for _ in range(n)], tsd=[abs(rng.gauss(0, 1)) for _ in range(n)], via='wrap' if k % 2 else 'direct')
                yield c
    for f in hints.floats:
        for name in NAMES:
            c = random_case(rng, hints)
            c.update(name=name, mu=[f, f + .1, 0.0], sd=[.5, abs(f), 0.0], tmu=[0.0, f if abs(f) < 20 else 1.0, 1.0], tsd=[1.0, .1, 0.0], y=f)
            yield c


def closed(c, i, xi, kappa):
    mu, sd = c['mu'][i], c['sd'][i]
    if c['name'] == 'LCB':
        return -sd if kappa == 'inf' else mu - kappa * sd, abs(mu) + abs(0 if kappa == 'inf' else kappa) * sd
    u = c['y'] - xi - mu
    mag = abs(c['y']) + abs(xi) + abs(mu)
    if sd > 0:
        t = u / sd
        pdf = math.exp(-t * t / 2) / math.sqrt(2 * math.pi) if abs(t) < 1e6 else 0.0
        cdf = float(ndtr(t))
        terr = (mag * 1e-15 / sd) * pdf            # what rounding of the improvement may do to the distribution function
        if c['name'].startswith('EI'):
            v, m = u * cdf + sd * pdf, abs(u * cdf) + sd * pdf + mag * cdf * 1e-5 + terr * abs(u) * 1e9 + sd * terr * 1e9 * (1 + abs(t))
        else:
            v, m = cdf, cdf + terr * 1e10
    else:
        v, m = 0.0, 0.0
    if c['name'].endswith('ps'):
        w = math.exp(-c['tmu'][i] + .5 * c['tsd'][i] ** 2)
        v, m = v * w, m * w
    return v, m


def check(c):
    import skopt.acquisition as A
    n = len(c['mu'])
    rng = np.random.RandomState(n)
    X = rng.rand(n, c['d'])
    model = Given(c['mu'], c['sd'], X)
    name = c['name']
    if name.endswith('ps'):
        class P:
            estimators_ = [model, Given(c['tmu'], c['tsd'], X)]
        m = P()
    else:
        m = model
    kw = {}
    if c['xi'] is not None:
        kw['xi'] = c['xi']
    if c['kappa'] is not None:
        kw['kappa'] = c['kappa']
    xi, kappa = kw.get('xi', .01), kw.get('kappa', 1.96)
    if kappa != 'inf' and c['name'] == 'LCB' and not math.isfinite(kappa):
        raise Skip()
    sign = 1
    if c['via'] == 'direct' and not name.endswith('ps'):
        f = dict(LCB=A.gaussian_lcb, EI=A.gaussian_ei, PI=A.gaussian_pi)[name]
        v = f(X, m, **({k: q for k, q in kw.items() if k == 'kappa'} if name == 'LCB' else dict(y_opt=c['y'], **({'xi': kw['xi']} if 'xi' in kw else {}))))
    else:
        v = A._gaussian_acquisition(X, m, y_opt=c['y'], acq_func=name, acq_func_kwargs=kw or None)
        sign = 1 if name == 'LCB' else -1
    v = np.asarray(v)
    if v.shape != (n,):
        return ['%s: shape %r for %d candidates' % (name, v.shape, n)]
    for i in range(n):
        w, mag = closed(c, i, xi, kappa)
        g = sign * float(v[i])
        if not abs(g - w) <= 1e-9 * max(mag, abs(w)) + 1e-300:
            return ['%s: value %r at candidate %d, closed form %r (mu=%r sd=%r y=%r xi=%r kappa=%r)' % (name, g, i, w, c['mu'][i], c['sd'][i], c['y'], xi, kappa)]
        if name != 'LCB' and g < -1e-12 * (mag + 1e-300):
            return ['%s: negative value %r' % (name, g)]
        if c['sd'][i] == 0 and name != 'LCB' and g != 0:
            return ['%s: value %r at a candidate without deviation' % (name, g)]
    if not (np.array_equal(model.mu, np.array(c['mu'])) and np.array_equal(model.sd, np.array(c['sd']))):
        return ['predictions changed']
    return []
