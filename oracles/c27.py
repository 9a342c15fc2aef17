"""Dimension descriptions of every length and element type against an independent statement of the documented rules (C27)."""
from fractions import Fraction
import os
import tempfile
import numpy as np
from oracles.util import *

RULE = ('one case = a description (list, tuple or array of 0-7 elements of mixed types, a dimension object or something else) read by check_dimension, by Space and, '
        'where it can be written there, from a YAML file; or a set of constructor options; kind, bounds, categories, prior, base, transform and refusals compared with the rules')
STR = ['uniform', 'log-uniform', 'normal', 'a', 'b', 'Uniform', '', '1', 'loguniform']
MK = {'int': int, 'float': float, 'str': str, 'bool': bool, 'none': lambda v: None, 'np.int64': np.int64, 'np.int32': np.int32, 'np.uint8': np.uint8,
      'np.float64': np.float64, 'np.float32': np.float32, 'np.bool_': np.bool_, 'np.str_': np.str_, 'frac': lambda v: Fraction(v[0], v[1]), 'tuple': tuple, 'list': list}
INTS = ('int', 'np.int64', 'np.int32', 'np.uint8')
NUMS = INTS + ('float', 'np.float64', 'np.float32', 'frac')


def el(rng, hints, kinds=None):
    k = rng.choice(kinds or ['int', 'int', 'float', 'float', 'str', 'bool', 'none', 'np.int64', 'np.float64', 'np.float32', 'np.bool_', 'np.str_', 'np.int32', 'np.uint8', 'tuple'])
    if k in INTS:
        v = rng.randint(0, 9) if k == 'np.uint8' else rint(rng, -5, 40, hints)
    elif k in ('float', 'np.float64', 'np.float32'):
        v = rng.choice([0.0, 1.0, .5, 2.5, -1.25, 10.0, 1e-6, 1e3, 7.0])
    elif k in ('str', 'np.str_'):
        v = rng.choice(STR)
    elif k in ('bool', 'np.bool_'):
        v = rng.random() < .5
    elif k == 'frac':
        v = [rng.randint(-3, 9), rng.choice([1, 2, 3])]
    elif k == 'tuple':
        v = [1, 2]
    else:
        v = None
    return [k, v]


def random_case(rng, hints):
    r = rng.random()
    if r < .55:
        n = rng.choice([0, 1, 2, 2, 2, 3, 3, 3, 4, 4, 4, 5, 6, rint(rng, 0, 12, hints)])
        els = [el(rng, hints) for _ in range(n)]
        if n in (2, 3, 4) and rng.random() < .75:
            els[:2] = [el(rng, hints, ['int', 'float', 'np.int64', 'np.float64', 'np.float32', 'bool']) for _ in (0, 1)]
            if rng.random() < .8 and els[0][0] not in ('frac',) and els[1][0] not in ('frac',) and els[0][1] > els[1][1]:
                els[:2] = els[1::-1]
            if n > 2:
                els[2] = ['str', rng.choice(['uniform', 'log-uniform', 'log-uniform', 'normal'])]
            if n > 3:
                els[3] = rng.choice([['int', 2], ['int', 10], ['int', 3], ['np.int64', 7], ['float', 2.0], ['float', 2.5], ['bool', True], ['str', '10']])
        return dict(m='desc', els=els, box=rng.choice(['list', 'tuple', 'tuple', 'array']), tr=rng.choice([None, None, 'identity', 'normalize']))
    if r < .62:
        return dict(m='object', dim=rand_dim(rng, hints), tr=rng.choice([None, 'identity', 'normalize']))
    if r < .68:
        return dict(m='other', what=rng.choice(['str', 'int', 'float', 'none', 'dict', 'set', 'object', 'generator', 'range']))
    if r < .78:
        return dict(m='yaml', dims=[rand_dim(rng, hints) for _ in range(rng.randint(1, 4))], case=rng.choice(['lower', 'title', 'upper']), top=rng.choice(['list', 'dict', 'dict2']))
    k = rng.choice(['Real', 'Integer', 'Categorical'])
    lo, hi = rng.choice([(0, 1), (1, 0), (2, 2), (-3, 4), (1, 100), (0, 5), (-5, -1), (1e-3, 1.), (0., 0.), (5, rint(rng, 5, 50, hints))])
    if k == 'Integer':
        lo, hi = int(lo), int(hi)
    return dict(m='ctor', k=k, lo=lo, hi=hi, prior=rng.choice(['uniform', 'log-uniform', 'uniform', 'log-uniform', 'normal', 'uniform ', 'Uniform']), base=rng.choice([2, 10, 3]),
                tr=rng.choice([None, 'identity', 'normalize', 'onehot', 'label', 'string', 'bogus']), name=rng.choice([None, 'x', '', 3, ['x']]),
                dt=rng.choice([None, None, 'float', 'int', 'np.float32', 'np.int32', 'np.uint8', 'np.float16', 's:float32', 's:int16', 's:bogus', 'np.str_']),
                cats=rng.choice([['a', 'b'], [1, 2, 3], ['x'], [True, False], [1.5, 2.5, 3.5, 4.5], ['a', 1, None]]), w=rng.random() < .4)


def fixed(hints):
    for els in ([['int', 1], ['int', 5]], [['int', 1], ['float', 5.5]], [['float', 1.], ['int', 5]], [['float', 1.], ['float', 5.]], [['bool', False], ['bool', True]],
                [['int', 0], ['bool', True]], [['str', 'a'], ['int', 1]], [['int', 1]], [['float', 2.5]], [['str', 'x']], [],
                [['int', 1], ['int', 9], ['str', 'uniform']], [['int', 1], ['int', 9], ['str', 'log-uniform']], [['float', 1.], ['int', 9], ['str', 'log-uniform']],
                [['int', 1], ['float', 9.], ['str', 'uniform']], [['int', 1], ['int', 9], ['str', 'log-uniform'], ['int', 2]], [['float', 1.], ['int', 9], ['str', 'log-uniform'], ['int', 2]],
                [['int', 1], ['float', 9.], ['str', 'log-uniform'], ['int', 2]], [['int', 1], ['int', 2], ['int', 3]], [['int', 1], ['int', 2], ['int', 3], ['int', 4]],
                [['int', 1], ['int', 2], ['int', 3], ['int', 4], ['int', 5]], [['bool', False], ['bool', True], ['str', 'uniform']], [['none', None], ['int', 3]], [['none', None], ['none', None]],
                [['int', 1], ['int', 9], ['str', 'uniform'], ['int', 2]], [['int', 5], ['int', 1]], [['float', 0.], ['float', 1.], ['str', 'log-uniform']]):
        for box in ('list', 'tuple', 'array'):
            for tr in (None, 'normalize'):
                yield dict(m='desc', els=els, box=box, tr=tr)
    for w in ['str', 'int', 'float', 'none', 'dict', 'set', 'object', 'generator', 'range']:
        yield dict(m='other', what=w)


def kind_of(x):
    """whole, number, or something else"""
    if isinstance(x, (bool, np.bool_)):
        return 'bool'
    if isinstance(x, (int, np.integer)) or (isinstance(x, Fraction) and False):
        return 'whole'
    if isinstance(x, (float, np.floating, Fraction)):
        return 'number'
    if isinstance(x, str):
        return 'str'
    return 'other'


def expected(xs):
    """('Integer'|'Real', low, high, prior, base) / ('Categorical', values) / 'refused'"""
    n = len(xs)
    k = [kind_of(x) for x in xs]
    if n == 0:
        return 'refused'
    if n == 1:
        return ('Categorical', list(xs))
    two = 'Integer' if k[:2] == ['whole', 'whole'] else 'Real' if all(a in ('whole', 'number') for a in k[:2]) else None
    if n == 2:
        if 'str' in k or 'bool' in k:
            return ('Categorical', list(xs))
        if two is None:
            return 'refused'
        r = (two, xs[0], xs[1], 'uniform', 10)
    elif n == 3 and two and k[2] == 'str' and xs[2] in ('uniform', 'log-uniform'):
        r = (two, xs[0], xs[1], str(xs[2]), 10)
    elif n == 4 and two and k[2] == 'str' and xs[2] == 'log-uniform' and k[3] == 'whole':
        r = (two, xs[0], xs[1], 'log-uniform', xs[3])
    else:
        return ('Categorical', list(xs))
    if not r[1] < r[2] or (r[3] == 'log-uniform' and not r[1] > 0):
        return 'refused'
    return r


def compare(d, want, tr, what):
    errs = []
    if type(d).__name__ != want[0]:
        return ['%s: a %s, the rules say %s' % (what, type(d).__name__, want[0])]
    if want[0] == 'Categorical':
        got = d.categories
        if len(got) != len(want[1]) or any(a is not b and not (type(a) is type(b) and a == b) for a, b in zip(got, want[1])):
            errs.append('%s: categories %r' % (what, got))
        if d.prior is not None or not np.allclose(d.prior_, 1. / len(got)) or len(d.prior_) != len(got):
            errs.append('%s: prior %r %r' % (what, d.prior, d.prior_))
    else:
        if d.low != want[1] or d.high != want[2] or tuple(d.bounds) != (want[1], want[2]):
            errs.append('%s: bounds %r' % (what, d.bounds))
        if d.prior != want[3] or d.base != want[4]:
            errs.append('%s: prior %r base %r' % (what, d.prior, d.base))
    t = tr or ('onehot' if want[0] == 'Categorical' else 'identity')
    if d.transform_ != t:
        errs.append('%s: transform %r instead of %r' % (what, d.transform_, t))
    if d.name is not None:
        errs.append('%s: name %r' % (what, d.name))
    return errs


def attempt(f):
    try:
        return f(), None
    except (ValueError, TypeError) as e:
        return None, e


def check(c):
    from skopt.space import Space, Real, Integer, Categorical
    from skopt.space.space import check_dimension
    errs = []
    if c['m'] == 'desc':
        xs = [MK[k](v) for k, v in c['els']]
        if c['box'] == 'array':
            if any(k in ('tuple', 'none', 'frac') for k, _ in c['els']):
                raise Skip()
            desc = np.array(xs)
            if desc.ndim != 1:
                raise Skip()
            xs = list(desc)
        else:
            desc = tuple(xs) if c['box'] == 'tuple' else list(xs)
        want = expected(xs)
        what = 'check_dimension(%r, transform=%r)' % (desc, c['tr'])
        for nm, f, tr in ((what, lambda: check_dimension(desc, transform=c['tr']), c['tr']), ('Space([%r])' % (desc,), lambda: Space([desc]).dimensions[0], None)):
            if want != 'refused' and want[0] == 'Categorical' and any(k == 'tuple' for k, _ in c['els']):
                raise Skip()
            if want != 'refused' and want[0] == 'Categorical' and len(set(xs)) != len(xs):
                raise Skip()
            d, e = attempt(f)
            if want == 'refused':
                if e is None:
                    errs.append('%s gives %r instead of being refused' % (nm, d))
            elif e is not None:
                errs.append('%s refused (%s), the rules say %r' % (nm, e, want))
            else:
                errs += compare(d, want, tr, nm)
        return errs
    if c['m'] == 'object':
        d = mk_dim(c['dim'])
        before = {k: v for k, v in vars(d).items()}
        if check_dimension(d, transform=c['tr']) is not d or Space([d]).dimensions[0] is not d:
            errs.append('%r does not pass through' % d)
        if any(vars(d)[k] is not v for k, v in before.items()) or set(vars(d)) != set(before):
            errs.append('%r changed by passing through' % d)
        return errs
    if c['m'] == 'other':
        v = dict(str='abc', int=3, float=2.5, none=None, dict={1: 2}, set={1, 2}, object=object(), generator=(i for i in (1, 2)), range=range(2))[c['what']]
        for nm, f in (('check_dimension', lambda: check_dimension(v)), ('Space', lambda: Space([v]))):
            d, e = attempt(f)
            if e is None:
                errs.append('%s of %r gives %r instead of being refused' % (nm, v, d))
        return errs
    if c['m'] == 'yaml':
        import yaml
        case = getattr(str, c['case'])
        opts, want = [], []
        for s in c['dims']:
            s = dict(s, dt=None)
            d = mk_dim(s)
            if s['k'] == 'C':
                if any(not isinstance(v, (str, int, float, bool)) for v in s['cats']):
                    raise Skip()
                o = dict(categories=list(s['cats']), transform=s.get('tr') or 'onehot')
                if s.get('prior') is not None:
                    o['prior'] = [float(p) for p in s['prior']]
            else:
                o = dict(low=s['lo'], high=s['hi'], prior=s.get('prior') or 'uniform', transform=s.get('tr') or 'identity')
                if s.get('base'):
                    o['base'] = s['base']
            if s.get('name') is not None:
                o['name'] = s['name']
            opts.append({case({'R': 'real', 'I': 'integer', 'C': 'categorical'}[s['k']]): {case(k): v for k, v in o.items()}})
            want.append(d)
        doc = opts if c['top'] == 'list' else {'Space': opts} if c['top'] == 'dict' else {'Other': [{'Integer': {'low': 0, 'high': 1}}], 'mine': opts}
        fd, p = tempfile.mkstemp(suffix='.yaml')
        try:
            with os.fdopen(fd, 'w') as f:
                yaml.safe_dump(doc, f, sort_keys=False)
            sp = Space.from_yaml(p, **(dict(namespace='mine') if c['top'] == 'dict2' else {}))
        finally:
            os.unlink(p)
        if len(sp.dimensions) != len(want):
            return ['%d dimensions read from YAML, %d written' % (len(sp.dimensions), len(want))]
        for a, b in zip(sp.dimensions, want):
            for k in ('low', 'high', 'prior', 'base', 'categories', 'transform_', 'name'):
                x, y = getattr(a, k, None), getattr(b, k, None)
                if x is not y and type(x) is list and type(y) is list and list(x) == list(y):
                    continue
                if type(a) is not type(b) or x != y:
                    errs.append('%r read from YAML, %r written (%s: %r and %r)' % (a, b, k, x, y))
        return errs
    # constructors
    kw, ok, how = {}, True, None
    if c['k'] == 'Categorical':
        cats = c['cats']
        kw = dict(transform=c['tr'], name=c['name'])
        ok = c['tr'] in (None, 'identity', 'normalize', 'onehot', 'label', 'string')
        if c['w']:
            kw['prior'] = list(np.arange(1., len(cats) + 1) / sum(range(1, len(cats) + 1)))
        f = lambda: Categorical(cats, **kw)
        if cats == ['a', 1, None] and c['tr'] == 'string':
            raise Skip()
    else:
        cls = Real if c['k'] == 'Real' else Integer
        kw = dict(prior=c['prior'], base=c['base'], transform=c['tr'], name=c['name'])
        if c['dt'] is not None:
            kw['dtype'] = c['dt'][2:] if c['dt'].startswith('s:') else np.str_ if c['dt'] == 'np.str_' else DT[c['dt']]
            fl = c['dt'] in ('float', 'np.float32', 'np.float16', 's:float32')
            it = c['dt'] in ('int', 'np.int32', 'np.uint8', 's:int16')
            ok = fl if c['k'] == 'Real' else it
        ok = ok and c['lo'] < c['hi'] and c['prior'] in ('uniform', 'log-uniform') and c['tr'] in (None, 'identity', 'normalize')
        ok = ok and not (c['prior'] == 'log-uniform' and c['lo'] <= 0)
        f = lambda: cls(c['lo'], c['hi'], **kw)
    ok = ok and (c['name'] is None or isinstance(c['name'], str))
    d, e = attempt(f)
    what = '%s(%s, %s)' % (c['k'], c['cats'] if c['k'] == 'Categorical' else (c['lo'], c['hi']), kw)
    if not ok:
        return [] if e is not None else ['%s gives %r instead of being refused' % (what, d)]
    if e is not None:
        return ['%s refused: %s' % (what, e)]
    if d.name != c['name'] or d.transform_ != (c['tr'] or ('onehot' if c['k'] == 'Categorical' else 'identity')):
        errs.append('%s: name %r transform %r' % (what, d.name, d.transform_))
    if c['k'] == 'Categorical':
        if list(d.categories) != list(c['cats']) or (c['w'] and (list(d.prior) != kw['prior'] or list(d.prior_) != kw['prior'])):
            errs.append('%s: categories %r prior %r' % (what, d.categories, d.prior))
    elif (d.low, d.high, d.prior, d.base) != (c['lo'], c['hi'], c['prior'], c['base']) or (c['dt'] is not None and d.dtype != kw['dtype']):
        errs.append('%s: bounds %r prior %r base %r dtype %r' % (what, d.bounds, d.prior, d.base, d.dtype))
    return errs
