"""Membership and refused observations on real spaces and optimizers."""
import copy
import numpy as np
from oracles.util import *

RULE = 'one case = one space, points inside and points with one offending coordinate (each position), and a history followed by refused tells compared state by state'


def cases_for(ss, rng, hints):
    return dict(dims=ss, seed=rng.randrange(10 ** 6), told=rng.choice([0, 1, 3, 5]), m=rng.choice([1, 2, 3, rint(rng, 1, 12, hints)]),
                acq=rng.choice(['EI', 'gp_hedge', 'EIps', 'LCB', 'PIps']), est=rng.choice(['dummy', 'dummy', 'ET']), n0=rng.choice([1, 2, 50]))


def fixed(hints):
    rng = random.Random(0)
    for s in ([dict(k='R', lo=1., hi=2.)], [dict(k='I', lo=1, hi=5)], [dict(k='C', cats=['a', 'b', 'c'])],
              [dict(k='R', lo=1., hi=2., prior='log-uniform'), dict(k='I', lo=1, hi=5, prior='log-uniform'), dict(k='C', cats=[1, 2, 3], tr='label')]):
        for acq in ('EI', 'EIps', 'gp_hedge'):
            for told in (0, 3):
                for est in ('dummy', 'ET'):
                    yield dict(dims=s, seed=1, told=told, m=3, acq=acq, est=est, n0=2)
    for n in hints.ints:
        if 0 < n < 200:
            yield dict(dims=[dict(k='I', lo=0, hi=n), dict(k='R', lo=0., hi=float(n))], seed=1, told=min(n, 30), m=min(n + 1, 60), acq='EI', est='dummy', n0=50)


def random_case(rng, hints):
    return cases_for(rand_space(rng, hints, nmax=5), rng, hints)


def state(o):
    return dict(Xi=copy.deepcopy(o.Xi), yi=copy.deepcopy([list(v) if isinstance(v, (list, tuple)) else v for v in o.yi]), n=o._n_initial_points,
                models=list(map(id, o.models)), cache=copy.deepcopy(o.cache_), gains=list(getattr(o, 'gains_', [])), nx=copy.deepcopy(getattr(o, '_next_x', None)),
                ids=(id(o.Xi), id(o.yi)), nxs=len(getattr(o, 'next_xs_', [])))


def check(case):
    errs = []
    ss = case['dims']
    rng = random.Random(case['seed'])
    sp = mk_space(ss)
    n = len(ss)
    good = [[cval(v) for v in rand_point(rng, ss)] for _ in range(case['m'])]
    for p in good:
        if p not in sp:
            errs.append('%r reported outside %r' % (p, ss))
        for v, d, s in zip(p, sp.dimensions, ss):
            if v not in d:
                errs.append('%r reported outside %r' % (v, s))
            if s['k'] != 'C' and isinstance(v, (int, float)):
                if np.float64(v) not in d or (s['k'] == 'I' and np.int64(v) not in d):
                    errs.append('numpy value %r reported outside %r' % (v, s))
    bad = []
    for j in range(n):
        p = list(rng.choice(good))
        p[j] = cval(outside_val(rng, ss[j]))
        bad.append(p)
        if p in sp:
            errs.append('%r reported inside %r (coordinate %d is not)' % (p, ss, j))
        if p[j] in sp.dimensions[j]:
            errs.append('%r reported inside %r' % (p[j], ss[j]))
    lo = [s['lo'] if s['k'] != 'C' else cval(s['cats'][0]) for s in ss]
    hi = [s['hi'] if s['k'] != 'C' else cval(s['cats'][-1]) for s in ss]
    for p in (lo, hi):
        if p not in sp:
            errs.append('end point %r reported outside %r' % (p, ss))
    if errs:
        return errs[:6]
    ps = 'ps' in case['acq']
    kw = dict(acq_func=case['acq'], n_initial_points=case['n0'], random_state=case['seed'], est=case['est'], acq_optimizer='sampling')
    if case['est'] == 'dummy' and ps:
        kw['n_initial_points'] = 500
    if any(s['k'] == 'C' and s.get('tr') in ('string', 'identity') for s in ss):
        kw['est'] = 'dummy'
        kw['n_initial_points'] = 500
    o = mk_opt(ss, **kw)
    val = (lambda: (rng.random(), rng.random() + .1)) if ps else (lambda: rng.random())
    for _ in range(case['told']):
        o.tell([cval(v) for v in rand_point(rng, ss)], val())
    if case['told'] and rng.random() < .5:
        o.ask(n_points=2)
    good = [[cval(v) for v in rand_point(rng, ss)] for _ in range(case['m'])]
    tries = []
    for p in bad:
        tries.append(('point outside', list(p), val()))
        for pos in sorted({0, len(good) // 2, len(good)}):
            b = good[:pos] + [list(p)] + good[pos:]
            tries.append(('batch with point %d outside' % pos, b, [val() for _ in b]))
    tries.append(('point too long', good[0] + [good[0][-1]], val()))
    if n > 1:
        tries.append(('point too short', good[0][:-1], val()))
        tries.append(('batch with a short point', good + [good[0][:-1]], [val() for _ in range(len(good) + 1)]))
    tries.append(('batch with a long point', good + [good[0] + [good[0][0]]], [val() for _ in range(len(good) + 1)]))
    tries.append(('more values than points', good, [val() for _ in range(len(good) + 1)]))
    if len(good) > 1:
        tries.append(('fewer values than points', good, [val() for _ in range(len(good) - 1)]))
        tries.append(('fewer values than points', good, [val() for _ in range(1)]))
    if not ps:
        tries.append(('several values for a point', good[0], [rng.random() for _ in range(3)]))
        tries.append(('one value for a batch', good, rng.random()))
        tries.append(('a value that is no number', good, [rng.random() for _ in good[1:]] + [None]))
        tries.append(('a value that is no number', good[0], 'x'))
    for fit in (True, False):
        for what, x, y in tries:
            before = state(o)
            try:
                o.tell(x, y, fit=fit)
            except (ValueError, TypeError):
                pass
            else:
                errs.append('%s accepted: tell(%r, %r)' % (what, x, y))
            after = state(o)
            if before != after:
                errs.append('%s left a trace: %r -> %r' % (what, {k: before[k] for k in before if before[k] != after[k]}, {k: after[k] for k in before if before[k] != after[k]}))
            if errs:
                return errs[:4]
    k = len(o.Xi)
    o.tell(good, [val() for _ in good], fit=False)
    if len(o.Xi) != k + len(good):
        errs.append('a valid batch was not recorded')
    return errs[:6]
