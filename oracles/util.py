"""Shared by the concrete searches: JSON descriptions of dimensions and spaces."""
import math
import random
import numpy as np


class Skip(Exception):
    """the case turned out not to apply"""


class Hints:
    def __init__(self, consts=(), models=()):
        self.consts = list(consts)
        self.models = list(models)
        self.ints = sorted({int(c) for c in self.consts if float(c).is_integer() and abs(c) < 2000})
        self.floats = sorted({float(c) for c in self.consts})


DT = {'float': float, 'np.float64': np.float64, 'np.float32': np.float32, 'np.float16': np.float16, 'int': int, 'np.int64': np.int64,
      'np.int32': np.int32, 'np.int16': np.int16, 'np.uint8': np.uint8, 'np.int8': np.int8, 'str': None}


def mk_dim(s):
    from skopt.space import Real, Integer, Categorical
    kw = {}
    if s.get('name') is not None:
        kw['name'] = s['name']
    if s['k'] == 'R':
        if s.get('dt') and s['dt'] != 'float':
            kw['dtype'] = DT.get(s['dt']) or s['dt']
        if s.get('base'):
            kw['base'] = s['base']
        return Real(s['lo'], s['hi'], prior=s.get('prior', 'uniform'), transform=s.get('tr', 'identity'), **kw)
    if s['k'] == 'I':
        if s.get('dt') and s['dt'] != 'np.int64':
            kw['dtype'] = DT.get(s['dt']) or s['dt']
        if s.get('base'):
            kw['base'] = s['base']
        return Integer(s['lo'], s['hi'], prior=s.get('prior', 'uniform'), transform=s.get('tr', 'identity'), **kw)
    cats = [tuple(c) if isinstance(c, list) else c for c in s['cats']]
    return Categorical(cats, prior=s.get('prior'), transform=s.get('tr', 'onehot'), **kw)


def mk_space(ss):
    from skopt.space import Space
    return Space([mk_dim(s) for s in ss])


def pick(rng, base, extra=(), p=0.5):
    """a value of base, or (with probability p, when there are any) near a mined constant"""
    extra = list(extra)
    if extra and rng.random() < p:
        return rng.choice(extra) + rng.choice([-1, 0, 0, 0, 1])
    return rng.choice(base)


def rint(rng, lo, hi, hints=None, p=0.3):
    """an int of lo..hi, preferring mined constants"""
    if hints is not None and hints.ints and rng.random() < p:
        c = [x + d for x in hints.ints for d in (-1, 0, 1) if lo <= x + d <= hi]
        if c:
            return rng.choice(c)
    return rng.randint(lo, hi)


def rfloat(rng, hints=None):
    u = rng.random()
    if hints is not None and hints.floats and u < 0.25:
        return rng.choice(hints.floats) + rng.choice([0, 0, 0.5, -0.5, 1e-3])
    if u < 0.5:
        return round(rng.uniform(-10, 10), 2)
    if u < 0.75:
        return rng.choice([0.0, 1.0, -1.0, 0.5, 2.0, 10.0, 100.0, 1e-3])
    return rng.choice([-1, 1]) * 10 ** rng.uniform(-6, 6)


BASES = [10, 10, 2, 3, 7, 5]
CATSETS = [['a', 'b'], ['a', 'b', 'c'], ['a'], [0, 1], [1, 2, 3, 4], [10, 3, 7], [True, False], [0.5, 1.5, 2.5], [3.0, 1.0],
           ['x', 'yy', 'zzz', 'w', 'v', 'u', 't'], ['1', '2', '10'], [5], list(range(12)), [-1.5, 0.0, 2.0, 1e-3], ['b', 'a', 'c', 'd', 'e'],
           [100, 200, 300], [False, True], [2, 1], ['é', 'z', ' ', '']]


def rand_real(rng, hints=None, prior=None, tr=None):
    prior = prior or rng.choice(['uniform', 'log-uniform'])
    tr = tr or rng.choice(['identity', 'normalize'])
    s = dict(k='R', prior=prior, tr=tr)
    if prior == 'log-uniform':
        lo = 10 ** rng.uniform(-8, 4) if rng.random() < .7 else rng.choice([1e-6, 1e-3, 1.0, 0.1, 10.0, 2.0])
        hi = lo * (10 ** rng.uniform(0.01, 8) if rng.random() < .7 else rng.choice([10, 100, 2, 1e6]))
        if rng.random() < .5:
            s['base'] = rng.choice(BASES)
        elif hints is not None and hints.ints and rng.random() < .5:
            s['base'] = max(2, rng.choice(hints.ints))
    else:
        lo = rfloat(rng, hints)
        hi = lo + abs(rfloat(rng, hints)) + rng.choice([0.0, 1e-3, 1.0]) + 1e-9 * max(1, abs(lo))
    if not hi > lo:
        hi = lo + 1.0
    s.update(lo=lo, hi=hi)
    if rng.random() < .2:
        s['dt'] = rng.choice(['float', 'np.float64'])
    return s


def rand_int(rng, hints=None, prior=None, tr=None):
    prior = prior or rng.choice(['uniform', 'uniform', 'log-uniform'])
    tr = tr or rng.choice(['identity', 'normalize'])
    s = dict(k='I', prior=prior, tr=tr)
    if prior == 'log-uniform':
        lo = rint(rng, 1, 60, hints)
        hi = lo + rng.choice([1, 2, 5, 31, 1000, rint(rng, 1, 5000, hints)])
        if rng.random() < .5:
            s['base'] = rng.choice(BASES)
    else:
        lo = rint(rng, -50, 50, hints)
        hi = lo + rng.choice([1, 2, 3, 10, 100, rint(rng, 1, 2000, hints)])
    s.update(lo=lo, hi=hi)
    if rng.random() < .3:
        s['dt'] = rng.choice(['int', 'np.int64', 'np.int32'])
    return s


def rand_cat(rng, hints=None, tr=None):
    cats = rng.choice(CATSETS)
    if rng.random() < .2:
        cats = list(range(rint(rng, 1, 25, hints)))
        if rng.random() < .5:
            cats = ['c%d' % c for c in cats]
    tr = tr or rng.choice(['onehot', 'onehot', 'label', 'normalize', 'string', 'identity'])
    s = dict(k='C', cats=list(cats), tr=tr)
    if rng.random() < .3 and len(cats) > 1:
        w = [rng.random() + .05 for _ in cats]
        t = sum(w)
        s['prior'] = [x / t for x in w]
    return s


def rand_dim(rng, hints=None, numeric=False, tr=None):
    u = rng.random()
    if u < .4:
        return rand_real(rng, hints, tr=tr)
    if u < .75 or numeric:
        return rand_int(rng, hints, tr=tr)
    return rand_cat(rng, hints, tr=tr if tr == 'normalize' else None)


def cval(c):
    return tuple(c) if isinstance(c, list) else c


def rand_val(rng, s, edge=.3):
    if s['k'] == 'C':
        return rng.choice(s['cats'])
    if rng.random() < edge:
        return rng.choice([s['lo'], s['hi']])
    if s['k'] == 'I':
        return rng.randint(s['lo'], s['hi'])
    lo, hi = s['lo'], s['hi']
    if s.get('prior') == 'log-uniform':
        v = math.exp(rng.uniform(math.log(lo), math.log(hi)))
    else:
        v = rng.uniform(lo, hi)
    return min(max(v, lo), hi)


def rand_space(rng, hints=None, nmax=4, numeric=False, tr=None):
    ss = [rand_dim(rng, hints, numeric, tr) for _ in range(rng.randint(1, nmax))]
    for s in ss:
        # text-producing (or untyped) transforms only make sense in spaces holding nothing else
        if len(ss) > 1 and s['k'] == 'C' and s['tr'] in ('string', 'identity'):
            s['tr'] = 'onehot'
    return ss


def rand_point(rng, ss):
    return [rand_val(rng, s) for s in ss]


def same_val(s, a, b, rtol=1e-9):
    """is b the point coordinate a again (up to the documented floating-point tolerance)?"""
    if s['k'] == 'C':
        a = cval(a)
        return type(a) == type(b) and a == b or (isinstance(a, (int, float)) and not isinstance(a, bool) and not isinstance(b, (bool, np.bool_))
                                                 and isinstance(b, (int, float, np.number)) and a == b) \
            or (isinstance(a, bool) and isinstance(b, (bool, np.bool_)) and a == b) or (isinstance(a, str) and isinstance(b, str) and a == b)
    if s['k'] == 'I':
        return a == b and isinstance(b, (int, np.integer)) and not isinstance(b, bool)
    if s.get('prior') == 'log-uniform':
        return abs(a - b) <= max(rtol, 1e-9) * abs(a) * 10
    return abs(a - b) <= rtol * max(1e-300, abs(s['lo']), abs(s['hi']), abs(s['hi'] - s['lo']))


def in_dim(s, v):
    if s['k'] == 'C':
        return any(same_val(s, c, v) for c in s['cats'])
    if s['k'] == 'I':
        return isinstance(v, (int, np.integer)) and s['lo'] <= v <= s['hi']
    return isinstance(v, (float, np.floating, int)) and s['lo'] <= v <= s['hi']


def mk_opt(ss, **kw):
    """an optimizer over the described space; model fits stay cheap"""
    from skopt import Optimizer
    from sklearn.ensemble import ExtraTreesRegressor
    kw = dict(kw)
    est = kw.pop('est', 'dummy')
    if est == 'ET':
        from skopt.learning import ExtraTreesRegressor as ETR
        est = ETR(n_estimators=3, min_variance=1e-6, random_state=1)
    kw.setdefault('acq_optimizer_kwargs', dict(n_points=kw.pop('n_points', 60), n_restarts_optimizer=1))
    kw.pop('n_points', None)
    return Optimizer([mk_dim(s) for s in ss], base_estimator=est, **kw)


def outside_val(rng, s):
    """a value outside dimension s of the kind a caller could pass"""
    if s['k'] == 'C':
        c = s['cats'][0]
        if isinstance(c, bool):
            return 'maybe'
        if isinstance(c, str):
            return rng.choice(['not-a-category', c + '!', c.upper() + '_'])
        return max(s['cats']) + rng.choice([1, 0.5, 1e-6, 1000])
    lo, hi = s['lo'], s['hi']
    if s['k'] == 'I':
        return rng.choice([lo - 1, hi + 1, lo - 10 ** 6, hi + 7])
    return rng.choice([math.nextafter(lo, -math.inf), math.nextafter(hi, math.inf), hi + abs(hi) * .01 + .1, lo - abs(lo) * .01 - .1, float('inf'), float('-inf')])
