"""Kernel gradients against five-point differences of the kernel itself; the category kernel against its formula (C16)."""
import math
import numpy as np
from oracles.util import *

RULE = ('one case = one kernel expression (single, sums, products, powers, numbers combined by operators), one point and a set of training points, some coinciding with it; '
        'gradient_x compared with five-point differences of the kernel; HammingKernel values and log-length-scale gradients compared with their formula')
LEAVES = ['RBF', 'Matern.5', 'Matern1.5', 'Matern2.5', 'RQ', 'ESS', 'Const', 'White', 'Dot']


def leaf(rng, d, hints, names=LEAVES):
    n = rng.choice(names)
    s = lambda: rng.choice([1.0, .5, 2.0, round(10 ** rng.uniform(-.7, .7), 4)])
    if n in ('RBF', 'Matern.5', 'Matern1.5', 'Matern2.5'):
        return [n, [s() for _ in range(d)] if rng.random() < .5 and d > 1 else s()]
    return [n, s(), s()]


def tree(rng, d, hints, depth):
    if depth == 0 or rng.random() < .25:
        return leaf(rng, d, hints)
    op = rng.choice(['+', '*', '*', '**', '+'])
    if op == '**':
        return [op, tree(rng, d, hints, depth - 1), rng.choice([1, 2, 3, 2.0, .5, 1.5, -1, -.5])]
    a, b = tree(rng, d, hints, depth - 1), tree(rng, d, hints, depth - 1)
    if rng.random() < .2:
        num = rng.choice([1.0, 2.0, .3, 4])
        a, b = (num, b) if rng.random() < .5 else (a, num)
    return [op, a, b]


def random_case(rng, hints):
    if rng.random() < .2:
        d = rng.choice([1, 2, 3, 4])
        return dict(kind='hamming', ls=[round(10 ** rng.uniform(-1, 1), 3) for _ in range(d)] if d > 1 and rng.random() < .5 else rng.choice([1.0, .5, [2.0], 3]),
                    X=[[rng.randint(0, 2) for _ in range(d)] for _ in range(rng.randint(1, 5))],
                    Y=[[rng.randint(0, 2) for _ in range(d)] for _ in range(rng.randint(1, 5))], text=rng.random() < .5)
    d = rng.choice([1, 2, 3, rint(rng, 1, 6, hints)])
    n = rng.choice([1, 2, 3, 6])
    g = lambda: [round(rng.gauss(0, 1), 5) for _ in range(d)]
    x = g()
    T = [list(x) if rng.random() < .15 else [a if rng.random() < .1 else b for a, b in zip(x, g())] for _ in range(n)]
    return dict(kind='grad', k=tree(rng, d, hints, rng.choice([0, 0, 1, 2, 3])), x=x, T=T, lists=rng.random() < .3)


def fixed(hints):
    rng = random.Random(4)
    for d in (1, 2, 3):
        for nm in LEAVES:
            for rep in range(3):
                c = random_case(rng, hints)
                while c['kind'] != 'grad' or len(c['x']) != d:
                    c = random_case(rng, hints)
                c['k'] = leaf(rng, d, hints, [nm])
                yield dict(c)
                c['k'] = ['*', ['Const', 2.0, 1.0], ['*', leaf(rng, d, hints, [nm]), leaf(rng, d, hints)]]
                yield dict(c)
                c['k'] = ['+', ['**', leaf(rng, d, hints, [nm]), 2], .5]
                yield dict(c)
    for f in hints.floats:
        if 1e-3 < abs(f) < 1e3:
            for nm in LEAVES:
                x, t = [abs(f), .25], [0.0, .25]
                yield dict(kind='grad', k=[nm, 1.0, 1.0], x=x, T=[t, [.5, 1.0]], lists=False)
                yield dict(kind='grad', k=[nm, abs(f), abs(f)], x=[.3, .2], T=[t, [.5, 1.0]], lists=False)


def build(t):
    import skopt.learning.gaussian_process.kernels as K
    if not isinstance(t, list):
        return t
    n = t[0]
    if n == '+':
        return build(t[1]) + build(t[2])
    if n == '*':
        return build(t[1]) * build(t[2])
    if n == '**':
        return build(t[1]) ** t[2]
    if n == 'RBF':
        return K.RBF(length_scale=t[1])
    if n.startswith('Matern'):
        return K.Matern(length_scale=t[1], nu=float(n[6:]))
    if n == 'RQ':
        return K.RationalQuadratic(length_scale=t[1], alpha=t[2])
    if n == 'ESS':
        return K.ExpSineSquared(length_scale=t[1], periodicity=t[2])
    if n == 'Const':
        return K.ConstantKernel(t[1])
    if n == 'White':
        return K.WhiteKernel(t[1])
    return K.DotProduct(sigma_0=t[1])


def has(t, name):
    return isinstance(t, list) and (t[0] == name or any(has(u, name) for u in t[1:]))


def fractional(t):
    return isinstance(t, list) and (t[0] == '**' and t[2] not in (1, 2, 3) or any(fractional(u) for u in t[1:]))


def check(c):
    if c['kind'] == 'hamming':
        return hamming(c)
    t = c['k']
    if not isinstance(t, list) or all(not isinstance(u, list) for u in t[1:]) and t[0] in '+*':
        raise Skip()
    k = build(t)
    x, T = np.array(c['x'], float), np.array(c['T'], float)
    d = len(x)
    for u in T:
        r = np.abs(u - x).max()
        if 0 < r < 1e-3:
            raise Skip()
    if fractional(t) and (has(t, 'Dot') or has(t, 'White')):
        raise Skip()          # powers of possibly negative or vanishing covariances
    x0, T0 = x.copy(), T.copy()
    g = k.gradient_x(c['x'] if c['lists'] else x, c['T'] if c['lists'] else T)
    g = np.asarray(g)
    if g.shape != (len(T), d):
        return '%s: gradient of shape %r for %d training points in %d dimensions' % (k, g.shape, len(T), d)
    if not (np.array_equal(x, x0) and np.array_equal(T, T0)):
        return '%s: gradient_x changed the data it was given' % k
    f = lambda z: np.asarray(k(np.asarray(z)[None, :], T))[0]
    base = f(x)
    hs = 1e-3 * smallest(t)
    for j in range(d):
        for i in range(len(T)):
            same = np.array_equal(T[i], x)
            if same and has(t, 'Matern.5'):
                continue
            dist = np.linalg.norm(T[i] - x)
            h = min(hs, dist / 20) if dist else hs
            e = np.zeros(d)
            e[j] = h
            half = [f(x + m * e / 2)[i] for m in (-2, -1, 1, 2)]
            v = [f(x + m * e)[i] for m in (-2, -1, 1, 2)]
            num = (v[0] - 8 * v[1] + 8 * v[2] - v[3]) / (12 * h)
            fine = (half[0] - 8 * half[1] + 8 * half[2] - half[3]) / (6 * h)
            scale = max(abs(base[i]), abs(num), abs(v[0] - base[i]) / h)
            tol = (2e-3 if same else 2e-5) * scale + 1e-12 / h * max(1.0, abs(base[i])) + 4 * abs(num - fine)
            if not np.isfinite(num) or scale > 1e60:
                continue
            if not abs(g[i, j] - num) <= tol:
                return '%s at x=%r, training point %r: gradient_x[%d, %d]=%r, the kernel changes at the rate %r' % (k, c['x'], c['T'][i], i, j, float(g[i, j]), float(num))
    return None


def smallest(t):
    if not isinstance(t, list):
        return 1.0
    r = 1.0
    for u in t[1:]:
        if isinstance(u, list) and u and isinstance(u[0], str):
            r = min(r, smallest(u))
        elif isinstance(u, list):
            r = min([r] + u)
        elif t[0] not in ('+', '*', '**'):
            r = min(r, u)
    return r


def hamming(c):
    from skopt.learning.gaussian_process.kernels import HammingKernel
    ls = c['ls']
    d = len(c['X'][0])
    X, Y = np.array(c['X']), np.array(c['Y'])
    if X.shape[1] != Y.shape[1]:
        raise Skip()
    if isinstance(ls, list) and len(ls) > 1 and len(ls) != d:
        raise Skip()
    if c['text']:
        X, Y = np.array([['abc'[v] for v in r] for r in X]), np.array([['abc'[v] for v in r] for r in Y])
    vec = np.array(ls if isinstance(ls, list) and len(ls) > 1 else [ls[0] if isinstance(ls, list) else ls] * d, float)
    mk = lambda l: HammingKernel(length_scale=l)
    k = mk(ls)
    K = np.asarray(k(X, Y))
    want = np.array([[math.exp(-sum(l for l, p, q in zip(vec, a, b) if p != q)) for b in Y] for a in X])
    if K.shape != want.shape or not np.allclose(K, want, rtol=1e-9, atol=1e-300):
        return 'HammingKernel(%r): k(%r, %r) = %r, should be %r' % (ls, c['X'], c['Y'], K.tolist(), want.tolist())
    if not np.array_equal(np.asarray(k(Y, X)).T, K):
        return 'HammingKernel(%r) is not symmetric on %r, %r' % (ls, c['X'], c['Y'])
    for i, a in enumerate(X):
        for j, b in enumerate(Y):
            if (K[i, j] == 1) != bool(np.array_equal(a, b)) and want[i, j] < 1 - 1e-12:
                return 'HammingKernel(%r): %r and %r have similarity %r' % (ls, list(a), list(b), K[i, j])
    V, G = k(X, eval_gradient=True)
    V, G = np.asarray(V), np.asarray(G)
    S = np.array([[math.exp(-sum(l for l, p, q in zip(vec, a, b) if p != q)) for b in X] for a in X])
    if not np.allclose(V, S, rtol=1e-9) or not np.allclose(k(X), S, rtol=1e-9):
        return 'HammingKernel(%r): k(X) = %r, should be %r' % (ls, V.tolist(), S.tolist())
    if not np.array_equal(k.diag(X), np.ones(len(X))):
        return 'HammingKernel diagonal'
    ind = (X[:, None, :] != X[None, :, :]).astype(float)
    W = -S[:, :, None] * ind * vec
    if not (isinstance(ls, list) and len(ls) > 1):
        W = W.sum(axis=2, keepdims=True)
    if G.shape != W.shape or not np.allclose(G, W, rtol=1e-6, atol=1e-12):
        return 'HammingKernel(%r): gradient %r with respect to log length scales on %r, should be %r' % (ls, G.tolist(), c['X'], W.tolist())
    try:
        k(X, Y, eval_gradient=True)
        return 'HammingKernel evaluates a gradient between different sets'
    except ValueError:
        pass
    if isinstance(ls, list) and len(ls) > 1:
        try:
            k(np.zeros((2, len(ls) + 1)))
            return 'HammingKernel with %d length scales accepts %d dimensions' % (len(ls), len(ls) + 1)
        except ValueError:
            pass
    return None
