"""The structure of low-discrepancy designs on the unit cube."""
import itertools
import math
import warnings
from fractions import Fraction
import numpy as np
from oracles.util import *
from oracles.c19 import options, make

RULE = ('one case = one generator with its options on a unit cube: strata of Latin hypercubes; radical inverses (exact fractions) and bases of Halton and Hammersly points; '
        'dyadic strata of every complete aligned block of Sobol points; lattices of grids; or the primes up to a threshold against trial division; or radical inverses of given numbers')


def fixed(hints):
    for t in range(0, 400):
        yield dict(g='primes', t=t)
    for t in sorted(set([961, 1000, 1369, 2209, 3000, 3481, 10000, 10201]) | {x + d for x in hints.ints for d in (-1, 0, 1, x)}):
        yield dict(g='primes', t=t)
    for b in (2, 3, 5, 7, 10, 31, 541):
        yield dict(g='vdc', b=b, idx=list(range(0, 30)) + [b ** 3 - 1, b ** 3, b ** 4 + 7, 10 ** 6, 2 ** 31 + 3] + hints.ints[:20])
    for o in options():
        for D in (1, 2, 3):
            for n in (1, 2, 3, 4, 9, 10, 16, 25):
                yield dict(o, D=D, n=n, seed=1)
        if o['g'] in ('halton', 'sobol', 'hammersly'):
            for D, n in ((1, 64), (5, 33), (12, 40), (20, 10), (40, 64)):
                yield dict(o, D=D, n=n, seed=2)
    for kw in (dict(skip=0, randomize=False), dict(skip=1024, randomize=False)):
        yield dict(g='sobol', kw=kw, D=40, n=1024, seed=0)
    yield dict(g='sobol', kw=dict(skip=0, randomize=False), D=3, n=4096, seed=0)


def random_case(rng, hints):
    u = rng.random()
    if u < .05:
        return dict(g='primes', t=rint(rng, 400, 40000, hints))
    if u < .1:
        b = rng.choice([2, 3, 5, 7, 11, 13, 97, 1009, rint(rng, 2, 200, hints)])
        return dict(g='vdc', b=b, idx=[rng.randrange(10 ** rng.randint(1, 12)) for _ in range(30)])
    o = rng.choice(list(options()))
    kw = o['kw']
    if kw is not None and 'min_skip' in kw:
        lo = rng.choice([-1, 0, 3, rint(rng, 0, 300, hints)])
        hi = rng.choice([-1, lo, lo + 1, lo + rint(rng, 1, 40, hints)])
        if lo >= 0 and 0 <= hi < lo:
            hi = lo
        kw = dict(min_skip=lo, max_skip=hi)
    n = rint(rng, 1, 70, hints)
    D = rng.randint(1, 3 if o['g'] == 'grid' else rng.choice([4, 25]))
    if kw and kw.get('skip'):
        n = min(n, kw['skip'])
    return dict(g=o['g'], kw=kw, D=D, n=n, seed=rng.randrange(1000))


def prime_list(t):
    s = bytearray([1]) * (t + 1)
    s[:2] = b'\0' * min(2, t + 1)
    for p in range(2, int(t ** .5) + 1):
        if s[p]:
            for q in range(p * p, t + 1, p):
                s[q] = 0
    return [i for i in range(t + 1) if s[i]]


def radical(i, b):
    r, f = Fraction(0), Fraction(1, b)
    while i:
        r += (i % b) * f
        i //= b
        f /= b
    return r


def close(a, b):
    return abs(a - float(b)) <= 1e-9


def halton_ok(P, D, lo, hi, bases):
    """is there a skip of the documented kind for which these are the radical inverses?"""
    n = len(P)
    if lo == hi:
        sk = [lo]
    elif lo < 0 and hi < 0:
        sk = [max(bases)]
    elif lo < 0 or hi < 0:
        sk = [max(lo, hi)]
    else:
        sk = range(lo, hi)
    for s in sk:
        if s < 0:
            raise Skip()
        if all(close(P[i][d], radical(s + i, bases[d])) for i in range(n) for d in range(D)):
            return True
    return False


def on_lattice(P, kind, o):
    """which rows lie on the lattice of that kind and order"""
    x = P * (o + 1) - 1 if kind == 'exclude' else P * (o - 1)
    near = (np.abs(x - np.round(x)) < 1e-6) & (np.round(x) >= 0) & (np.round(x) <= o - 1)
    if kind == 'only' and P.shape[1] > 1:
        e = (np.abs(P[:, :-1]) < 1e-9) | (np.abs(P[:, :-1] - 1) < 1e-9)
        near = np.hstack([e, near[:, -1:]])
    return near.all(axis=1)


def rows_of(kind, o, D):
    return 2 ** (D - 1) * o if kind == 'only' else o ** D


def grid_errs(P, kw, D, n):
    kind, app, full = kw['border'], kw['append_border'], kw['use_full_layout']
    key = [tuple(np.round(r, 9)) for r in P]
    for o in range(1 if kind == 'exclude' else 2, n + 3):
        a = on_lattice(P, kind, o)
        size = rows_of(kind, o, D)
        if a.all() and size >= n:
            if len(set(key)) == n:
                return []
        elif size < n:
            if len({k for k, x in zip(key, a) if x}) < size:
                continue            # the smaller lattice is complete
            for o2 in range(1 if app == 'exclude' else 2, n + 3):
                b = on_lattice(P, app, o2)
                # the rest comes from the other lattice, which may share points with the first
                cnt = {k: key.count(k) for k in key}
                left = [k for k in cnt if cnt[k] > 1 or not a[key.index(k)]]
                if all(b[key.index(k)] for k in left) and all(cnt[k] <= 2 for k in cnt) and n - size <= rows_of(app, o2, D):
                    return []
    return ['no lattices of border %r (rest %r) hold these %d rows: %r' % (kind, app, n, P[:6].tolist())]


def check(case):
    errs = []
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if case['g'] == 'primes':
            from skopt.sampler.halton import _create_primes
            got = list(_create_primes(case['t']))
            if got != prime_list(max(case['t'], 1)):
                errs.append('the primes up to %d: %r' % (case['t'], got[:40]))
            return errs
        if case['g'] == 'vdc':
            from skopt.sampler.halton import _van_der_corput_samples
            got = _van_der_corput_samples(case['idx'], number_base=case['b'])
            for i, x in zip(case['idx'], got):
                if not close(x, radical(i, case['b'])):
                    errs.append('radical inverse of %d in base %d is not %r' % (i, case['b'], x))
            return errs[:3]
        kw = case['kw'] or {}
        D, n = case['D'], case['n']
        if 0 < kw.get('skip', 0) < n:
            raise Skip()
        from skopt.space import Real
        P = np.array(make(case).generate([Real(0., 1.) for _ in range(D)], n, random_state=case['seed']), dtype=float)
        if P.shape != (n, D):
            return ['shape %r' % (P.shape,)]
        if case['g'] == 'lhs':
            for d in range(D):
                c = np.sort(P[:, d]) * n
                k = np.arange(n)
                if (c < k - 1e-9).any() or (c > k + 1 + 1e-9).any():
                    errs.append('coordinate %d: not one point per stratum: %r' % (d, (c / n).tolist()[:8]))
                if kw.get('lhs_type') == 'centered' and np.abs(c - k - .5).max() > 1e-9:
                    errs.append('coordinate %d: not at the centres' % d)
        elif case['g'] in ('halton', 'hammersly'):
            H = P if case['g'] == 'halton' or D == 1 else P[:, :-1]
            bases = prime_list(600)[:H.shape[1]]
            if not halton_ok(H, H.shape[1], kw.get('min_skip', 0), kw.get('max_skip', 0), bases):
                errs.append('not the radical inverses of consecutive numbers in the first primes: %r' % H[:4].tolist())
            if case['g'] == 'hammersly' and D > 1 and np.abs(P[:, -1] - np.arange(n) / n).max() > 1e-9:
                errs.append('last coordinate %r' % P[:, -1].tolist()[:6])
        elif case['g'] == 'sobol':
            if kw.get('randomize', True):
                # a rotation of the plain sequence
                plain = np.array(make(dict(case, kw=dict(skip=kw.get('skip', 0), randomize=False))).generate([Real(0., 1.) for _ in range(D)], n, random_state=0), dtype=float)
                dlt = ((P - plain) - (P[0] - plain[0]) + .5) % 1 - .5
                if np.abs(dlt).max() > 1e-9:
                    errs.append('not a rotation of the plain points')
                if (P < 0).any() or (P > 1).any():
                    errs.append('outside the cube')
                P = plain
            Q = P * 2 ** 30
            if (Q != np.round(Q)).any() or (P < 0).any() or (P >= 1).any():
                errs.append('not dyadic fractions of [0,1)')
            first = kw.get('skip', 0)
            for k in range(1, 13):
                w = 2 ** k
                a = -(-first // w) * w
                while a + w <= first + n:
                    B = np.floor(P[a - first:a - first + w] * w).astype(int)
                    for d in range(D):
                        if len(set(B[:, d])) != w:
                            errs.append('coordinate %d: points %d..%d do not hit every stratum of 2**-%d once' % (d, a, a + w - 1, k))
                    a += w
            if n == 4096 and D <= 40:
                for d, e in itertools.combinations(range(D), 2):
                    if (P[:, d] == P[:, e]).all():
                        errs.append('coordinates %d and %d coincide' % (d, e))
        elif case['g'] == 'grid':
            kw = dict(dict(border='exclude', use_full_layout=True, append_border='only'), **kw)
            errs += grid_errs(P, kw, D, n)
    return errs[:4]
