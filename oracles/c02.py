"""Declared warped bounds and widths against what warping real points produces."""
import numpy as np
from oracles.util import *
from oracles import c01

RULE = 'one case = one space with numeric warped form and a batch of its points: widths, in-bounds entries, ends mapping to the declared bounds, also after switching transforms'


def fixed(hints):
    for c in c01.fixed(hints):
        if 'key' in c or any(s['k'] == 'C' and s['tr'] in ('string', 'identity') for s in c['dims']):
            continue
        yield c


def random_case(rng, hints):
    ss = rand_space(rng, hints, nmax=5)
    for s in ss:
        if s['k'] == 'C' and s['tr'] in ('string', 'identity'):
            s['tr'] = 'label'
    n = rng.choice([1, 2, 3, 7, rint(rng, 1, 40, hints)])
    seq = [rng.choice(['normalize', 'identity', 'back']) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    return dict(dims=ss, pts=[rand_point(rng, ss) for _ in range(n)], seq=seq)


def tol(b):
    return 1e-9 * max(1.0, abs(b[0]), abs(b[1]))


def check(case):
    errs = []
    ss = case['dims']
    sp = mk_space(ss)
    num = [s['k'] != 'C' for s in ss]
    orig = [s['tr'] for s in ss]
    cur = list(orig)
    states = [None] + list(case.get('seq', []))
    for st in states:
        if st == 'back':
            sp.set_transformer(orig)
            cur = list(orig)
        elif st is not None:
            for d, nm, j in zip(sp.dimensions, num, range(len(ss))):
                if nm or st == 'normalize':
                    d.set_transformer(st)
                    cur[j] = st
        pts = [[cval(v) for v in p] for p in case['pts']]
        w = np.asarray(sp.transform(pts))
        tb = sp.transformed_bounds
        if w.shape[0] != len(pts) or w.shape[1] != sp.transformed_n_dims or len(tb) != w.shape[1]:
            errs.append('shape %r, declared width %r, %r bounds for %r' % (w.shape, sp.transformed_n_dims, len(tb), ss))
            continue
        for c in range(w.shape[1]):
            t = tol(tb[c])
            if w[:, c].min() < tb[c][0] - t or w[:, c].max() > tb[c][1] + t:
                errs.append('column %d in [%r, %r] outside declared %r of %r (%r)' % (c, w[:, c].min(), w[:, c].max(), tb[c], ss, cur))
        start = 0
        for s, d, tr, nm in zip(ss, sp.dimensions, cur, num):
            k = d.transformed_size
            b = [d.transformed_bounds] if k == 1 else list(d.transformed_bounds)
            if list(map(tuple, b)) != list(map(tuple, tb[start:start + k])):
                errs.append('bounds of dimension %r are %r but the space says %r' % (s, b, tb[start:start + k]))
            if s['k'] == 'C':
                want = (len(s['cats']) if len(s['cats']) != 2 else 1) if tr == 'onehot' else 1
                if k != want:
                    errs.append('width %d of %r' % (k, s))
            elif k != 1:
                errs.append('width %d of %r' % (k, s))
            if nm:
                e = np.asarray(d.transform([s['lo'], s['hi']]), dtype=float)
                t = tol(b[0])
                if abs(e[0] - b[0][0]) > t or abs(e[1] - b[0][1]) > t:
                    errs.append('ends of %r (%s) warp to %r, declared %r' % (s, tr, e.tolist(), b[0]))
                if tr == 'identity':
                    f = [s['lo'], s['hi']] if s.get('prior', 'uniform') == 'uniform' else [math.log(v) / math.log(s.get('base', 10)) for v in (s['lo'], s['hi'])]
                else:
                    f = [0.0, 1.0]
                if abs(b[0][0] - f[0]) > t or abs(b[0][1] - f[1]) > t:
                    errs.append('declared bounds %r of %r (%s) are not %r' % (b[0], s, tr, f))
                if e[1] < e[0]:
                    errs.append('order reversed in %r' % (s,))
            start += k
    return errs[:6]
