"""Acquisition gradients on given predictions and model gradients (C15)."""
import numpy as np
from scipy.special import ndtr
from oracles.util import *
from oracles.c14 import Given, NAMES

RULE = 'one case = one acquisition function with given mean, deviation and their gradients at one point; the returned gradient compared with the chain rule, the value with the one returned without a gradient'


def random_case(rng, hints):
    d = rng.choice([1, 2, 3, rint(rng, 1, 12, hints)])
    sc = 10 ** rng.uniform(-2, 2)
    g = lambda: [rng.gauss(0, 1) * sc for _ in range(d)]
    u = lambda: [rng.gauss(0, 1) for _ in range(d)]
    sd = 0.0 if rng.random() < .12 else abs(rng.gauss(0, 1)) * sc + 1e-6
    mu = rng.gauss(0, 1) * sc
    return dict(name=rng.choice(NAMES), mu=mu, sd=sd, tmu=rng.gauss(0, 1), tsd=0.0 if rng.random() < .15 else abs(rng.gauss(0, .7)), g=g(), s=g() if rng.random() < .9 else [0.0] * d, tg=u(), ts=u(),
                y=mu + sc * rng.gauss(0, 1), xi=rng.choice([None, 0.0, .3, -.2, rfloat(rng, hints)]), kappa=rng.choice([None, 0.0, 'inf', 5.0, rfloat(rng, hints)]),
                via=rng.choice(['wrap', 'direct', '1d']))


def fixed(hints):
    rng = random.Random(2)
    for name in NAMES:
        for via in ('wrap', 'direct', '1d'):
            for k in range(12):
                c = random_case(rng, hints)
                c.update(name=name, via=via)
                if k == 0:
                    c['sd'] = 0.0
                yield c
    for f in hints.floats:
        for name in NAMES:
            c = random_case(rng, hints)
            c.update(name=name, mu=f, y=f + .3, sd=abs(f) or .5)
            yield c


def check(c):
    import skopt.acquisition as A
    d = len(c['g'])
    X = np.random.RandomState(d).rand(1, d)
    name = c['name']
    model = Given([c['mu']], [c['sd']], X, (c['g'], c['s']))
    tm = Given([c['tmu']], [c['tsd']], X, (c['tg'], c['ts']))

    class P:
        estimators_ = [model, tm]
    ps = name.endswith('ps')
    m = P() if ps else model
    kw = {k: c[k] for k in ('xi', 'kappa') if c[k] is not None}
    xi, kappa = kw.get('xi', .01), kw.get('kappa', 1.96)
    sign = 1
    if c['via'] == 'direct' and not ps:
        f = dict(LCB=A.gaussian_lcb, EI=A.gaussian_ei, PI=A.gaussian_pi)[name]
        k2 = {k: q for k, q in kw.items() if k == 'kappa'} if name == 'LCB' else dict(y_opt=c['y'], **({'xi': kw['xi']} if 'xi' in kw else {}))
        v, G = f(X, m, return_grad=True, **k2)
        v0 = f(X, m, **k2)
    else:
        sign = 1 if name == 'LCB' else -1
        if c['via'] == '1d':
            v, G = A.gaussian_acquisition_1D(X[0], m, c['y'], name, kw)
        else:
            v, G = A._gaussian_acquisition(X, m, y_opt=c['y'], acq_func=name, return_grad=True, acq_func_kwargs=kw)
        v0 = A._gaussian_acquisition(X, m, y_opt=c['y'], acq_func=name, acq_func_kwargs=kw)
    v, G, v0 = np.asarray(v), np.asarray(G), np.asarray(v0)
    if v.shape != (1,) or G.shape != (d,):
        return ['%s: shapes %r %r in dimension %d' % (name, v.shape, G.shape, d)]
    if not np.allclose(v, v0, rtol=1e-12, atol=1e-300):
        return ['%s: value %r with, %r without a gradient' % (name, v, v0)]
    g, s = np.array(c['g']), np.array(c['s'])
    if name == 'LCB':
        w = -s if kappa == 'inf' else g - kappa * s
        mag = np.abs(g) + np.abs(s) * (1 if kappa == 'inf' else abs(kappa))
    elif c['sd'] == 0:
        w, mag = np.zeros(d), np.zeros(d)
        if ps:
            w = np.zeros(d)
    else:
        u = c['y'] - xi - c['mu']
        t = u / c['sd']
        pdf = math.exp(-t * t / 2) / math.sqrt(2 * math.pi)
        cdf = float(ndtr(t))
        dt = -g / c['sd'] - u / c['sd'] ** 2 * s
        adt = np.abs(g) / c['sd'] + abs(u) / c['sd'] ** 2 * np.abs(s)
        if name.startswith('EI'):
            w = -g * cdf + s * pdf
            mag = np.abs(g) * cdf + np.abs(s) * pdf + abs(u) * adt * pdf
            val = u * cdf + c['sd'] * pdf
        else:
            w, mag, val = pdf * dt, pdf * adt, cdf
        mag = mag * (1 + abs(t) * (1 + abs(t)))
        if ps:
            r = math.exp(-c['tmu'] + .5 * c['tsd'] ** 2)
            q = -np.array(c['tg']) + c['tsd'] * np.array(c['ts'])
            w = w * r + val * r * q
            mag = mag * r + abs(val) * r * (np.abs(c['tg']) + c['tsd'] * np.abs(c['ts'])) * (1 + abs(t))
    bad = np.abs(sign * G - w) > 1e-8 * mag + 1e-300
    if bad.any():
        return ['%s: gradient %r, derivative %r (%r)' % (name, (sign * G).tolist(), w.tolist(), {k: c[k] for k in ('mu', 'sd', 'y', 'xi', 'kappa')})]
    return []
