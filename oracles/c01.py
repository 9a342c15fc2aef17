"""Round trip of real spaces: scalar methods on each dimension, and whole batches through Space."""
import numpy as np
from oracles.util import *

RULE = 'one case = one space (dimension kinds, bounds, priors, transforms) with a batch of its points, warped and unwarped'


def fixed(hints):
    for pr in ('uniform', 'log-uniform'):
        for tr in ('identity', 'normalize'):
            for dt in ('float', 'np.float64'):
                for lo, hi in ((1e-3, 10.0), (2.0, 2.5), (1.0, 1e6)):
                    yield dict(dims=[dict(k='R', lo=lo, hi=hi, prior=pr, tr=tr, dt=dt)], pts=[[lo], [hi], [(lo + hi) / 2], [lo + .1 * (hi - lo)]])
            for dt in ('int', 'np.int64', 'np.int32'):
                for lo, hi in ((1, 2), (1, 64), (3, 1000)):
                    yield dict(dims=[dict(k='I', lo=lo, hi=hi, prior=pr, tr=tr, dt=dt)], pts=[[v] for v in range(lo, min(hi, lo + 90) + 1)] + [[hi]])
            for base in (2, 3, 7, 10, 16):
                if pr == 'log-uniform':
                    yield dict(dims=[dict(k='I', lo=1, hi=600, prior=pr, tr=tr, base=base)], pts=[[v] for v in range(1, 601)])
                    yield dict(dims=[dict(k='R', lo=1e-7, hi=600., prior=pr, tr=tr, base=base)], pts=[[10.0 ** e] for e in range(-7, 3)])
    for cats in CATSETS:
        for tr in ('onehot', 'label', 'normalize', 'string', 'identity'):
            yield dict(dims=[dict(k='C', cats=cats, tr=tr)], pts=[[c] for c in cats])
    for n in sorted(set([2, 3, 5, 9, 10, 11, 13, 20, 26, 40]) | {x + d for x in hints.ints for d in (-1, 0, 1) if 1 < x < 300}):
        for tr in ('onehot', 'label', 'normalize', 'string', 'identity'):
            yield dict(dims=[dict(k='C', cats=list(range(n)), tr=tr)], pts=[[c] for c in range(n)])
            yield dict(dims=[dict(k='C', cats=['k%d' % i for i in range(n)], tr=tr)], pts=[['k%d' % c] for c in range(n)])
        yield dict(dims=[dict(k='I', lo=-n, hi=n, tr='normalize')], pts=[[v] for v in range(-n, n + 1)])
    yield dict(dims=[dict(k='C', cats=[1, 'a'], tr='onehot')], pts=[[1], ['a']], key='mixed-categories')


def random_case(rng, hints):
    ss = rand_space(rng, hints, nmax=5)
    n = rng.choice([1, 2, 3, 7, rint(rng, 1, 40, hints)])
    return dict(dims=ss, pts=[rand_point(rng, ss) for _ in range(n)], nrm=rng.random() < .2)


def check(case):
    errs = []
    ss = case['dims']
    sp = mk_space(ss)
    if case.get('nrm'):
        sp.set_transformer('normalize')
    pts = [[cval(v) for v in p] for p in case['pts']]
    before = [list(p) for p in pts]
    w = sp.transform(pts)
    if pts != before:
        errs.append('transform modified its argument')
    back = sp.inverse_transform(w)
    if len(back) != len(pts):
        errs.append('%d points came back for %d' % (len(back), len(pts)))
    for p, q in zip(pts, back):
        if len(p) != len(q):
            errs.append('width %r -> %r' % (p, q))
            continue
        for s, a, b in zip(ss, p, q):
            if not same_val(s, a, b):
                errs.append('%r: %r came back as %r' % (s, a, b))
                break
    # one dimension at a time
    for j, (s, d) in enumerate(zip(ss, sp.dimensions)):
        col = [p[j] for p in pts]
        r = d.inverse_transform(d.transform(col))
        if len(r) != len(col) or not all(same_val(s, a, b) for a, b in zip(col, r)):
            errs.append('dimension %r: %r came back as %r' % (s, col, list(r)))
        v = d.inverse_transform(d.transform([col[0]]))
        if len(v) != 1 or not same_val(s, col[0], v[0]):
            errs.append('single value %r came back as %r in %r' % (col[0], v, s))
    return errs[:6]
