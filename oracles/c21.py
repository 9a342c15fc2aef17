"""Named arguments and dictionary forms on random names, orders and values (C21)."""
from collections import OrderedDict
import numpy as np
from oracles.util import *

RULE = ('one case = a set of distinct names in some order with dimensions and a point; both conversions, both round trips, dictionaries in other orders, with further names or lacking one, '
        'and the named-argument wrapper with good and bad dimensions and lengths')
WORDS = ['a', 'b', 'B', 'x', 'x1', 'x2', 'x10', 'x9', '', '_', 'alpha', 'Alpha', 'max_depth', 'é', 'ß', '0', '10', '9', 'a b', 'self', 'x', 'func', 'args', 'kwargs', 'dimensions', 'name', 'value', '-1', 'svc__C', 'zz']


def random_case(rng, hints):
    n = rng.choice([1, 1, 2, 3, 3, 5, 12, rint(rng, 1, 25, hints)])
    ns = set()
    while len(ns) < n:
        ns.add(rng.choice(WORDS) if rng.random() < .7 else ''.join(rng.choice('abcXYZ019_é') for _ in range(rng.randint(1, 6))))
    ns = list(ns)
    rng.shuffle(ns)
    dims = [rand_dim(rng, hints) for _ in ns]
    p = [rand_val(rng, s) for s in dims]
    if rng.random() < .2:
        p = [rng.choice([None, 0, False, '', [], 'v', 1.5, (1, 2)]) for _ in ns]
    return dict(names=ns, dims=dims, p=p, perm=rng.sample(range(n), n), extra=rng.random() < .3, seed=rng.randint(0, 9), form=rng.choice(['list', 'tuple', 'array']))


def fixed(hints):
    rng = random.Random(6)
    for n in (1, 2, 3):
        c = random_case(rng, hints)
        yield c


def check(c):
    from skopt.utils import point_asdict, point_aslist, dimensions_aslist, use_named_args
    from skopt.space import Real
    ns, n = c['names'], len(c['names'])
    objs = [mk_dim(dict(s, name=nm)) for s, nm in zip(c['dims'], ns)]
    space = {nm: o for nm, o in zip(ns, objs)}
    errs = []
    lst = dimensions_aslist(space)
    if len(lst) != n or sorted(map(id, lst)) != sorted(map(id, objs)):
        return ['dimensions_aslist of %r: not the dimensions given' % ns]
    if any(o is not space[k] for o, k in zip(lst, sorted(ns))):
        errs.append('dimensions_aslist of %r is not ordered by name: %r' % (ns, [o.name for o in lst]))
    val = {o.name: v for o, v in zip(objs, c['p'])}
    x = [val[d.name] for d in lst]
    x0 = list(x)
    d = point_asdict(space, x)
    if set(d) != set(ns) or any(d[k] is not val[k] for k in ns):
        errs.append('point_asdict(%r, %r) = %r' % (ns, x, dict(d)))
    back = point_aslist(space, d)
    if len(back) != n or any(a is not b for a, b in zip(back, x)):
        errs.append('list -> dictionary -> list of %r over %r gives %r' % (x0, ns, back))
    other = OrderedDict((ns[i], val[ns[i]]) for i in c['perm'])
    if c['extra']:
        other['another name'] = 7
        other.move_to_end('another name', last=c['seed'] % 2 == 0)
    o0 = dict(other)
    y = point_aslist(space, other)
    if len(y) != n or any(a is not b for a, b in zip(y, x)):
        errs.append('point_aslist(%r, %r) = %r' % (ns, dict(other), y))
    again = point_asdict(space, y)
    if set(again) != set(ns) or any(again[k] is not val[k] for k in ns):
        errs.append('dictionary -> list -> dictionary of %r gives %r' % (o0, dict(again)))
    if dict(other) != o0 or list(space) != ns or x != x0 or any(space[k] is not o for k, o in zip(ns, objs)):
        errs.append('conversion changed what it was given')
    for i, nm in enumerate(ns):
        if i > 3:
            break
        e = dict(other)
        del e[nm]
        try:
            point_aslist(space, e)
            errs.append('dictionary lacking %r accepted' % nm)
        except (KeyError, ValueError):
            pass
    # wrapper
    got = []

    def f(*a, **k):
        got.append((a, k))
        return len(got) * 1.5
    order = [objs[i] for i in c['perm']]
    pt = [val[o.name] for o in order]
    w = use_named_args(order)(f)
    arg = tuple(pt) if c['form'] == 'tuple' else list(pt)
    if w(arg) != 1.5 or len(got) != 1 or got[0][0] != () or set(got[0][1]) != set(ns) or any(got[0][1][k] is not val[k] for k in ns):
        errs.append('use_named_args(%r) called with %r hands on %r' % ([o.name for o in order], pt, got))
    if n == 1 or w(list(pt)) != 3.0 or w(list(pt)) != 4.5:
        if n > 1:
            errs.append('later calls of the wrapped objective differ')
    for bad in ([pt[:-1]] if n > 0 else []) + [pt + [0], pt + pt, []]:
        k = len(got)
        try:
            w(list(bad))
            errs.append('%d coordinates accepted for %d dimensions' % (len(bad), n))
        except ValueError:
            if len(got) != k:
                errs.append('objective called in spite of the wrong number of coordinates')
    j = c['seed'] % n
    for bad in (Real(0, 1), (0.0, 1.0), 'x', None):
        l = list(order)
        l[j] = bad
        try:
            use_named_args(l)(f)
            errs.append('%r accepted as a named dimension' % (bad,))
        except ValueError:
            pass
    return errs
