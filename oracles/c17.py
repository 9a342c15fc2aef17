"""GP predictions against the posterior computed directly from the kernel and the data (C17)."""
import warnings
import numpy as np
from oracles.util import *
from oracles.c16 import build, tree, leaf, has, fractional

RULE = ('one case = one model (kernel expression, noise, jitter, normalisation) fitted on a small data set and asked for every combination of outputs at several queries; compared with the posterior '
        'solved directly, gradients with five-point differences of the returned mean and deviation')


def random_case(rng, hints, k=None):
    d = rng.choice([1, 1, 2, 3])
    n = rng.choice([1, 2, 3, 5, 8, rint(rng, 1, 14, hints)])
    g = lambda: [round(rng.uniform(0, 3), 4) for _ in range(d)]
    X = [g() for _ in range(n)]
    off = rng.choice([0, 0, 10, -100, 1e4])
    sc = rng.choice([1, 1, 10, .01, 1000])
    y = [off + sc * round(rng.gauss(0, 1), 4) for _ in range(n)]
    if rng.random() < .1:
        y = [y[0]] * n
    q = [g() for _ in range(rng.choice([1, 1, 2, 4]))]
    if rng.random() < .3:
        q[0] = list(rng.choice(X))
    noise = rng.choice([None, None, 0, .1, .5, 2.0, 'gaussian', 1, .01])
    if k is None:
        k = rng.choice([['RBF', 1.0], ['*', ['Const', 2.0, 1.0], ['Matern2.5', 1.0]], None, ['+', ['RBF', .7], ['White', .05, 1.0]], ['+', ['White', .1, 1.0], ['Matern1.5', 1.0]],
                        ['*', ['Dot', 1.0, 1.0], ['RBF', 1.0]], tree(rng, d, hints, 2), leaf(rng, d, hints)])
    return dict(k=k, X=X, y=y, q=q, noise=noise, alpha=rng.choice([1e-3, 1e-2, .1, 1e-6]), norm=rng.random() < .6, opt=rng.random() < .25, refit=rng.random() < .25)


def fixed(hints):
    rng = random.Random(7)
    for noise in (None, .1, 'gaussian', 2.0):
        for k in (None, ['RBF', 1.0], ['White', .1, 1.0], ['+', ['RBF', .7], ['White', .05, 1.0]], ['+', ['White', .05, 1.0], ['RBF', .7]], ['*', ['RBF', .7], ['White', .05, 1.0]],
                  ['+', ['+', ['RBF', .7], ['White', .05, 1.0]], ['Dot', 1.0, 1.0]], ['*', ['Dot', 1.0, 1.0], ['Matern1.5', 1.0]], ['**', ['Dot', 1.0, 1.0], 2]):
            for rep in range(3):
                c = random_case(rng, hints, k=k)
                c['k'] = k
                c.update(noise=noise, opt=False, alpha=1e-3, norm=rep > 0)
                yield c
    for nu in ('Matern.5', 'Matern1.5', 'Matern2.5', 'RQ', 'ESS', 'RBF'):
        for ls in (1.0, .5):
            c = random_case(rng, hints, k=[nu, ls, 1.0])
            c.update(opt=False, alpha=1e-3, k=[nu, ls, 1.0], q=c['q'][:1])
            yield c
    for v in hints.floats:
        if 1e-3 < abs(v) < 1e3:
            c = random_case(rng, hints)
            c.update(noise=abs(v), opt=False)
            yield c
    yield dict(k=['*', ['Dot', 1.0, 1.0], ['Matern.5', 1.0]], X=[[.2], [1.0], [2.0]], y=[0.0, 1.0, .5], q=[[.6]], noise=None, alpha=1e-3, norm=False, opt=False, refit=False, key='matern-half-product')
    yield dict(k=['*', ['Dot', 1.0, 1.0], ['White', 1.0, 1.0]], X=[[.2], [1.0], [2.0]], y=[0.0, 1.0, .5], q=[[.6]], noise=None, alpha=1e-3, norm=False, opt=False, refit=False, key='white-product')


def close(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))


def check(c):
    from skopt.learning import GaussianProcessRegressor as G
    if c['k'] is not None:
        if not isinstance(c['k'], list) or all(not isinstance(u, list) for u in c['k'][1:]) and c['k'][0] in ('+', '*'):
            raise Skip()
        if fractional(c['k']):
            raise Skip()
    k = build(c['k'])
    X, y, q = np.array(c['X']), np.array(c['y']), np.array(c['q'])
    n, d = X.shape
    if has(c['k'], 'Dot') and (has(c['k'], 'Matern.5') or has(c['k'], 'White')) and c.get('key') is None:
        half = True
    else:
        half = False
    mk = lambda: G(kernel=build(c['k']), noise=c['noise'], alpha=c['alpha'], normalize_y=c['norm'], optimizer='fmin_l_bfgs_b' if c['opt'] else None, random_state=0)
    m = mk()
    errs = []
    if k is not None:
        pm, ps = m.predict(q, return_std=True)
        pm2, pc = m.predict(q, return_cov=True)
        if np.any(m.predict(q) != 0) or np.any(pm != 0) or np.any(pm2 != 0) or not np.allclose(ps ** 2, k.diag(q)) or not np.allclose(pc, k(q)):
            errs.append('before a fit: prior of %s is mean %r deviation %r covariance %r' % (k, pm.tolist(), ps.tolist(), pc.tolist()))
    par = repr(m.kernel)
    try:
        m.fit(X, y)
    except np.linalg.LinAlgError:
        raise Skip()          # not a covariance on these data
    if c['refit']:
        m.fit(X, y)
    if k is not None and repr(m.kernel) != par:
        errs.append('fit changed the kernel parameter from %s to %s' % (par, m.kernel))
    if c['noise']:
        from skopt.learning.gaussian_process.kernels import WhiteKernel
        pk = m.kernel_
        base, nl = pk.k1, m.noise_
        if not (isinstance(pk.k2, WhiteKernel) and pk.k2.noise_level == 0):
            errs.append('the added noise is still part of the prediction kernel %s' % pk)
        if c['noise'] != 'gaussian' and nl != c['noise']:
            errs.append('noise_ is %r, given %r' % (nl, c['noise']))
        if not c['opt'] and c['k'] is not None and not (type(base) is type(m.kernel) and np.allclose(base.theta, m.kernel.theta, rtol=1e-9, atol=1e-9)):
            errs.append('prediction kernel %s, given %s' % (base, par))
    else:
        base, nl = m.kernel_, 0.0
        if m.noise_ is not None:
            errs.append('noise_ is %r without noise' % (m.noise_,))
    if errs:
        return errs
    mu0, sd0 = (y.mean(), y.std() or 1.0) if c['norm'] else (0.0, 1.0)
    if c['norm'] and 0 < y.std() < 1e-9 * np.abs(y).max():
        raise Skip()          # rounding decides the scale of constant targets
    Ky = base(X) + (nl + c['alpha']) * np.eye(n)
    cond = np.linalg.cond(Ky)
    if not cond < 1e8:
        raise Skip()
    yn = (y - mu0) / sd0
    Kt = base(q, X)
    al = np.linalg.solve(Ky, yn)
    mean = mu0 + sd0 * (Kt @ al)
    V = np.linalg.solve(Ky, Kt.T)
    cov = (base(q) - Kt @ V)
    var = base.diag(q) - np.einsum('ij,ji->i', Kt, V)
    s1 = max(1.0, np.abs(base.diag(q)).max())
    tv = 1e-13 * cond * s1 * n + 1e-12
    tm = sd0 * (1e-13 * cond * (np.abs(yn).max() + 1) * (np.abs(Kt).max() + 1) * n + 1e-12) + 1e-12 * abs(mu0)
    std = sd0 * np.sqrt(np.maximum(var, 0))
    outs = {}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        outs[()] = [m.predict(q)]
        outs['std'] = list(m.predict(q, return_std=True))
        outs['cov'] = list(m.predict(q, return_cov=True))
        one = q[:1]
        outs['mg'] = list(m.predict(one, return_mean_grad=True))
        outs['smg'] = list(m.predict(one, return_std=True, return_mean_grad=True))
        outs['ssg'] = list(m.predict(one, return_std=True, return_mean_grad=True, return_std_grad=True))
    lab = '%s noise=%r alpha=%g normalize=%r X=%r y=%r q=%r: ' % (c['k'] and base, c['noise'], c['alpha'], c['norm'], c['X'], c['y'], c['q'])
    for nm, o in outs.items():
        w = mean[:1] if 'g' in nm else mean
        if not close(o[0], w, tm):
            errs.append(lab + 'mean %r (asked with %r), the posterior mean is %r' % (np.asarray(o[0]).tolist(), nm, w.tolist()))
    for nm in ('std', 'smg', 'ssg'):
        w = std[:1] if 'g' in nm else std
        v = np.asarray(outs[nm][1], float)
        if v.shape != w.shape or not np.all(v >= 0) or not close((v / sd0) ** 2, (w / sd0) ** 2, tv):
            errs.append(lab + 'deviation %r, the posterior deviation is %r' % (v.tolist(), w.tolist()))
    if not close(outs['cov'][1] / sd0 ** 2, cov, tv):
        errs.append(lab + 'covariance %r, the posterior covariance is %r' % (outs['cov'][1].tolist(), (cov * sd0 ** 2).tolist()))
    if not errs:
        errs += gradients(c, m, outs, X, q[0], sd0, cond, s1, lab, half)
    for fl, ex in ((dict(return_std=True, return_cov=True), RuntimeError), (dict(return_mean_grad=True, return_std_grad=True), ValueError)):
        try:
            m.predict(q[:1], **fl)
            errs.append('%r not refused' % (fl,))
        except ex:
            pass
    if len(q) > 1:
        try:
            m.predict(q, return_mean_grad=True)
            errs.append('gradients of several points not refused')
        except ValueError:
            pass
    return errs


def gradients(c, m, outs, X, x, sd0, cond, s1, lab, half):
    errs = []
    d = len(x)
    gm, gm2, gm3, gs = [np.asarray(v, float) for v in (outs['mg'][1], outs['smg'][2], outs['ssg'][2], outs['ssg'][3])]
    if not (gm.shape == gs.shape == (d,) and np.array_equal(gm, gm2) and np.array_equal(gm, gm3)):
        return [lab + 'gradients %r %r %r %r' % (gm.tolist(), gm2.tolist(), gm3.tolist(), gs.tolist())]
    r = min(np.abs(X - x).max(axis=1))
    if r < 1e-3:
        return []
    ls = [v for k_, v in m.kernel_.get_params().items() if k_.endswith(('length_scale', 'periodicity', 'alpha'))]
    ls = min([1.0] + [float(np.min(v)) for v in ls])
    if has(c['k'], 'ESS'):
        ls = ls * ls
    if ls < 1e-2:
        return []
    h = min(1e-3 * ls, r / 20)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        sdev = outs['ssg'][1][0]
        for j in range(d):
            e = np.zeros(d)
            e[j] = h
            P, F = ([m.predict((x + t * e / w)[None, :], return_std=True) for t in (-2, -1, 1, 2)] for w in (1, 2))
            num, fine = ([(p[0][i][0] - 8 * p[1][i][0] + 8 * p[2][i][0] - p[3][i][0]) / (12 * h / w) for i in (0, 1)] for w, p in ((1, P), (2, F)))
            slack = [4 * abs(a - b) for a, b in zip(num, fine)]
            noise = 1e-15 * cond * s1 * len(X) * sd0 * (1 + np.abs(m.alpha_).max()) / h
            sc = [max(abs(num[i]), abs(P[0][i][0] - P[3][i][0]) / h, sd0 * 1e-3) for i in (0, 1)]
            if not abs(gm[j] - num[0]) <= 1e-4 * sc[0] + slack[0] + noise + 1e-12 * abs(P[0][0][0]) / h:
                errs.append(lab + 'mean gradient %r, the mean changes at the rate %r' % (gm.tolist(), num[0]))
            if sdev > 1e-2 * sd0 * s1 ** .5 and sdev > 1e-6 and not half and not abs(gs[j] - num[1]) <= 1e-3 * sc[1] + slack[1] + noise * sd0 / sdev:
                errs.append(lab + 'deviation gradient %r, the deviation changes at the rate %r (coordinate %d)' % (gs.tolist(), num[1], j))
    return errs[:2]
