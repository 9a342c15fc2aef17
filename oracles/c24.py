"""Distances and equality on random spaces, points and edited copies (C24)."""
import copy
import numpy as np
from oracles.util import *

RULE = ('one case = a space, three points (native or drawn in the dtype of the dimension), one value outside, and an edited copy of the space; distances against sums of '
        'absolute differences with the metric laws, refusals, and equality of dimensions and spaces against a comparison of their descriptions')


def edit(rng, ss):
    try:
        return edited(rng, ss)
    except Skip:
        return copy.deepcopy(ss)


def edited(rng, ss):
    ss = copy.deepcopy(ss)
    what = rng.choice(['none', 'none', 'low', 'high', 'prior', 'kind', 'cats', 'drop', 'add', 'swap', 'name', 'weights'])
    j = rng.randrange(len(ss))
    s = ss[j]
    if what in ('low', 'high') and s['k'] != 'C':
        w = s['hi'] - s['lo']
        k = 'lo' if what == 'low' else 'hi'
        s[k] = s[k] + rng.choice([-1, 1]) if s['k'] == 'I' else s[k] + rng.choice([.5, .25, 1e-2]) * w * rng.choice([1, -1])
        if not s['lo'] < s['hi'] or (s.get('prior') == 'log-uniform' and s['lo'] <= 0) or s['k'] == 'I' and s.get('dt') not in (None, 'int', 'np.int64'):
            raise Skip()
    elif what == 'prior' and s['k'] != 'C' and s['lo'] > 0:
        s['prior'] = 'uniform' if s.get('prior') == 'log-uniform' else 'log-uniform'
    elif what == 'kind' and s['k'] != 'C':
        s['k'] = 'R' if s['k'] == 'I' else 'I'
        s['dt'] = None
        if s['k'] == 'I':
            s['lo'], s['hi'] = int(s['lo']), int(s['hi']) + 1
            if s.get('prior') == 'log-uniform' and s['lo'] <= 0:
                raise Skip()
    elif what == 'cats' and s['k'] == 'C':
        r = rng.randrange(3)
        if r == 0 and len(s['cats']) > 1:
            s['cats'] = s['cats'][1:] + s['cats'][:1]
        elif r == 1:
            s['cats'] = s['cats'] + ['another one' if isinstance(s['cats'][0], str) else 987654]
        elif len(s['cats']) > 1:
            s['cats'] = s['cats'][:-1]
        s['prior'] = None
    elif what == 'weights' and s['k'] == 'C' and len(s['cats']) > 1:
        n = len(s['cats'])
        s['prior'] = [2. / (n + 1)] + [1. / (n + 1)] * (n - 1)
    elif what == 'drop':
        ss.pop(rng.choice([0, -1]))
    elif what == 'add':
        ss.insert(rng.choice([0, len(ss)]), dict(k='R', lo=0., hi=1., prior='uniform', tr='identity'))
    elif what == 'swap':
        ss.reverse()
    elif what == 'name':
        s['name'] = 'another'
    return ss


def random_case(rng, hints):
    ss = rand_space(rng, hints, nmax=5)
    return dict(dims=ss, other=edit(rng, ss), pts=[rand_point(rng, ss) for _ in range(3)], eq=rng.random() < .3, j=rng.randrange(len(ss)), seed=rng.randint(0, 99),
                native=rng.random() < .5, out=rng.choice(['low', 'high']), d=rng.choice([1, .5, 1e-3, 100]))


def fixed(hints):
    I = dict(k='I', lo=0, hi=200, dt='np.uint8', prior='uniform', tr='identity')
    for nat in (True, False):
        yield dict(dims=[I], other=[I], pts=[[3], [5], [190]], eq=False, j=0, seed=0, native=nat, out='high', d=1)
        yield dict(dims=[dict(I, lo=-100, hi=100, dt='np.int8')], other=[I], pts=[[-100], [100], [0]], eq=False, j=0, seed=0, native=nat, out='low', d=1)
    R = dict(k='R', lo=0., hi=1., prior='uniform', tr='identity')
    yield dict(dims=[R, R], other=[R], pts=[[0., 1.], [.5, .5], [1., 0.]], eq=False, j=0, seed=0, native=True, out='low', d=1)
    yield dict(dims=[R], other=[R, R], pts=[[0.], [.5], [1.]], eq=True, j=0, seed=0, native=True, out='low', d=1)


def same(a, b):
    """are the descriptions of two dimensions the same (None: not decided by the rules)?"""
    if a['k'] != b['k']:
        return False
    if a['k'] == 'C':
        if len(a['cats']) != len(b['cats']) or any(cval(x) != cval(y) for x, y in zip(a['cats'], b['cats'])):
            return False
        n = len(a['cats'])
        p, q = [np.array(s.get('prior') or [1. / n] * n) for s in (a, b)]
        return True if np.array_equal(p, q) else False if np.abs(p - q).max() > 1e-3 else None
    if (a.get('prior') or 'uniform') != (b.get('prior') or 'uniform'):
        return False
    res = True
    for k in ('lo', 'hi'):
        x, y = a[k], b[k]
        if x == y:
            continue
        if a['k'] == 'I' or abs(x - y) > 1e-7 + 1e-4 * max(abs(x), abs(y)):
            return False
        res = None
    if res and (a.get('tr') or 'identity') != (b.get('tr') or 'identity'):
        return None
    return res


def check(c):
    ss = c['dims']
    space = mk_space(ss)
    errs = []
    pts = [list(p) for p in c['pts']]
    if c['eq']:
        pts[1] = list(pts[0])
    if not c['native']:
        drawn = space.rvs(3, random_state=c['seed'])
        pts = [list(p) for p in drawn]
        if c['eq']:
            pts[1] = list(pts[0])
        if len(set(map(repr, c['pts']))) == 3:
            # the same points in the number type of the dimension
            for p, q in zip(pts, c['pts']):
                for j, s in enumerate(ss):
                    if s['k'] == 'I' and s.get('dt') not in (None, 'int') and not c['eq']:
                        p[j] = np.dtype(DT[s['dt']]).type(q[j])
    pts = [[cval(v) for v in p] for p in pts]
    for p in pts:
        if p not in space:
            raise Skip()        # membership is another property
    a, b, e = pts

    def ref(p, q):
        t = 0.
        for s, x, y in zip(ss, p, q):
            t += float(x != y) if s['k'] == 'C' else abs(float(x) - float(y))
        return t
    dist = lambda p, q: space.distance(p, q)
    tol = 1e-9 * max(1., ref(a, b), ref(b, e), ref(a, e))
    for nm, p, q in (('ab', a, b), ('ba', b, a), ('bc', b, e), ('ac', a, e), ('aa', a, a)):
        d = dist(p, q)
        if not abs(d - ref(p, q)) <= tol:
            errs.append('distance(%r, %r) = %r, the sum over dimensions is %r' % (p, q, d, ref(p, q)))
    if dist(a, b) != dist(b, a) or dist(a, a) != 0 or (dist(a, b) == 0) != all(x == y for x, y in zip(a, b)) or dist(a, e) > dist(a, b) + dist(b, e) + tol:
        errs.append('not a metric on %r: ab=%r ba=%r bc=%r ac=%r' % (pts, dist(a, b), dist(b, a), dist(b, e), dist(a, e)))
    for j, (s, d) in enumerate(zip(ss, space.dimensions)):
        x, y = a[j], b[j]
        r = float(x != y) if s['k'] == 'C' else abs(float(x) - float(y))
        if not abs(d.distance(x, y) - r) <= tol:
            errs.append('%r: distance(%r, %r) = %r' % (d, x, y, d.distance(x, y)))
    # refused outside
    j, s = c['j'], ss[c['j']]
    if s['k'] == 'C':
        out = 'no such category' if all(isinstance(v, str) for v in s['cats']) else 123456.5
    else:
        out = s['lo'] - c['d'] * (s['hi'] - s['lo']) if c['out'] == 'low' else s['hi'] + c['d'] * (s['hi'] - s['lo'])
    bad = list(a)
    bad[j] = out
    for p, q in ((a, bad), (bad, a), (bad, bad)):
        for f in (lambda: space.distance(p, q), lambda: space.dimensions[j].distance(p[j], q[j])):
            try:
                d = f()
                errs.append('a value outside %r is accepted: distance(%r, %r) = %r' % (space.dimensions[j], p, q, d))
            except RuntimeError:
                pass
    # equality
    os_ = c['other']
    try:
        other, again = mk_space(os_) if os_ else None, mk_space(ss)
    except ValueError:
        raise Skip()
    if not (space == again) or space != again:
        errs.append('%r does not equal its like' % space)
    if other is None:
        from skopt.space import Space
        other = Space([])
    want = len(ss) == len(os_)
    for u, v in zip(ss, os_):
        w = same(u, v)
        x, y = mk_dim(u), mk_dim(v)
        if w is not None and ((x == y) != w or (y == x) != w):
            errs.append('%r == %r is %r' % (x, y, x == y))
        want = False if w is False or want is False else None if w is None or want is None else True
    if want is not None and ((space == other) != want or (other == space) != want):
        errs.append('%r == %r is %r' % (space, other, space == other))
    return errs
