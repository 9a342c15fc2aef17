"""Initial-point generators on mixed spaces."""
import warnings
import numpy as np
from oracles.util import *

RULE = ('one case = one generator with its options, one space (its dimensions in any transform) and a seed: n points, each a member, the transforms found put back, the same seed twice '
        '(with a fresh generator and with the same one), different numbers of points, the named generators')


def options():
    for t in ('classic', 'centered'):
        for c in (None, 'maximin', 'correlation', 'ratio'):
            yield dict(g='lhs', kw=dict(lhs_type=t, criterion=c, iterations=5))
    for sk in ((0, 0), (3, 3), (0, 10), (-1, -1), (-1, 5), (4, -1), (-2, -7)):
        yield dict(g='halton', kw=dict(min_skip=sk[0], max_skip=sk[1]))
        yield dict(g='hammersly', kw=dict(min_skip=sk[0], max_skip=sk[1]))
    for rz in (True, False):
        for sk in (0, 16, 64):
            yield dict(g='sobol', kw=dict(skip=sk, randomize=rz))
    for bo in ('include', 'exclude', 'only'):
        for fu in (True, False):
            for ap in ('include', 'exclude', 'only'):
                yield dict(g='grid', kw=dict(border=bo, use_full_layout=fu, append_border=ap))
    for g in ('lhs', 'halton', 'hammersly', 'sobol', 'grid'):
        yield dict(g=g, kw=None)


SPACES = [[dict(k='R', lo=-1., hi=2., tr='identity')],
          [dict(k='I', lo=0, hi=3, tr='normalize'), dict(k='C', cats=['a', 'b', 'c'], tr='onehot'), dict(k='R', lo=1e-3, hi=10., prior='log-uniform', tr='identity')],
          [dict(k='C', cats=['x', 'y'], tr='label'), dict(k='R', lo=0., hi=1., tr='normalize')],
          [dict(k='I', lo=1, hi=64, prior='log-uniform', base=2, tr='identity')] * 2 + [dict(k='C', cats=[5], tr='onehot'), dict(k='I', lo=-3, hi=-1)]]


def fixed(hints):
    for o in options():
        ns = [1, 2, 3, 4, 7, 10, 16] + sorted(x + d for x in hints.ints for d in (-1, 0, 1) if 1 <= x + d <= 70)
        for n in ns:
            yield dict(o, dims=SPACES[1], n=n, seed=1)
        for ss in SPACES:
            yield dict(o, dims=ss, n=5, seed=3)
            yield dict(o, dims=ss, n=1, seed=0)


def random_case(rng, hints):
    o = rng.choice(list(options()))
    ss = rand_space(rng, hints, nmax=5 if o['g'] != 'grid' else 3)
    kw = o['kw']
    if kw is not None and 'min_skip' in kw and rng.random() < .5:
        kw = dict(min_skip=rint(rng, -3, 50, hints), max_skip=rint(rng, 51, 90, hints))
    n = rint(rng, 1, 40, hints)
    if kw and kw.get('skip'):
        n = min(n, kw['skip'])
    return dict(g=o['g'], kw=kw, dims=ss, n=n, seed=rng.randrange(1000), rs=rng.random() < .3)


def make(case):
    from skopt.sampler import Lhs, Halton, Hammersly, Sobol, Grid
    from skopt.utils import cook_initial_point_generator
    cls = dict(lhs=Lhs, halton=Halton, hammersly=Hammersly, sobol=Sobol, grid=Grid)[case['g']]
    if case['kw'] is None:
        g = cook_initial_point_generator(case['g'].upper() if case['seed'] % 2 else case['g'])
        if type(g) is not cls:
            raise AssertionError('the name %r stands for a %s' % (case['g'], type(g).__name__))
        if case['g'] == 'lhs':
            g.set_params(iterations=5)
        return g
    return cls(**case['kw'])


def bits(p):
    return [x.hex() if isinstance(x, float) else repr(x) for x in p]


def check(case):
    errs = []
    ss, n = case['dims'], case['n']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if case['kw'] and 0 < case['kw'].get('skip', 0) < n:
            raise Skip()
        sp = mk_space(ss)
        dims = sp.dimensions
        tr = sp.get_transformer()
        r = np.random.RandomState(7)
        probe = sp.rvs(3, random_state=1)
        before = sp.transform(probe) if not any(s.get('tr') in ('string', 'identity') and s['k'] == 'C' for s in ss) else None
        g = make(case)
        glob = np.random.get_state()[1].copy()
        seed = case['seed']
        mkseed = lambda: np.random.RandomState(seed) if case.get('rs') else seed
        pts = g.generate(dims, n, random_state=mkseed())
        if not np.array_equal(glob, np.random.get_state()[1]):
            errs.append('the global random state was drawn from')
        if len(pts) != n:
            errs.append('%d points instead of %d' % (len(pts), n))
        for p in pts:
            if len(p) != len(ss):
                errs.append('%r has %d coordinates' % (p, len(p)))
                break
            for s, v in zip(ss, p):
                if not in_dim(s, v):
                    errs.append('%r is outside %r' % (v, s))
            if not errs and list(p) not in sp:
                errs.append('%r is not a member' % (p,))
            if errs:
                return errs[:5]
        if sp.get_transformer() != tr:
            errs.append('transforms %r left as %r' % (tr, sp.get_transformer()))
        elif before is not None and not np.array_equal(np.asarray(before), np.asarray(sp.transform(probe))):
            errs.append('the space encodes points differently afterwards')
        want = [bits(p) for p in pts]
        if [bits(p) for p in make(case).generate(dims, n, random_state=mkseed())] != want:
            errs.append('the same seed gave other points')
        if case['g'] != 'sobol' and [bits(p) for p in g.generate(dims, n, random_state=mkseed())] != want:
            errs.append('the same seed and generator gave other points the second time')
        m = n + 1 + seed % 3
        if not (case['kw'] or {}).get('skip'):
            if len(make(case).generate(dims, m, random_state=mkseed())) != m:
                errs.append('not %d points' % m)
    return errs[:5]
