"""Hyperparameter searches with a recording estimator against a plain account of what was evaluated (C23)."""
import json
import warnings
import numpy as np
from oracles.util import *

RULE = ('one case = a search over 1-3 subspaces (plain, or with their own iteration counts 0-7; names in any order; all dimension kinds), 1-5 points per round, scores from a '
        'drawn table, callbacks that stop at drawn rounds, repeated fits; what the estimator saw, cv_results_, optimizer_results_, best_* and total_iterations are compared '
        'with the account; or a malformed description, which is to be refused')
LOG = []
NAMES = ['a', 'b', 'c', 'd', 'e', 'B', 'z1', 'z10', 'z2', 'name_']
_E = {}


def est_class():
    if 'c' in _E:
        return _E['c']
    from sklearn.base import BaseEstimator

    class Rec(BaseEstimator):
        def __init__(self, a=None, b=None, c=None, d=None, e=None, B=None, z1=None, z10=None, z2=None, name_=None, table=(0.,)):
            self.a, self.b, self.c, self.d, self.e, self.B, self.z1, self.z10, self.z2, self.name_ = a, b, c, d, e, B, z1, z10, z2, name_
            self.table = table

        def given(self):
            return {n: getattr(self, n) for n in NAMES if getattr(self, n) is not None}

        def fit(self, X, y=None):
            LOG.append(dict(self.given()))
            self.n_ = len(LOG)
            return self

        def score(self, X, y=None):
            s = repr(sorted((k, str(v)) for k, v in self.given().items()))
            h = sum((i + 1) * ord(ch) for i, ch in enumerate(s))
            return float(self.table[h % len(self.table)]) + .25 * (len(X) % 2)
    _E['c'] = Rec
    return Rec


MAL = ['empty list', 'empty dict', 'none', 'string', 'number', 'tuple', 'tuple of one', 'tuple of three', 'count text', 'count negative', 'count fraction', 'element text',
       'element number', 'element list', 'element dimension', 'bad dimension', 'bad bounds', 'bad in second', 'bad in tuple', 'count none']


def small_dim(rng, hints):
    s = rand_dim(rng, hints)
    if s['k'] == 'C' and s.get('tr') not in ('onehot', 'label'):
        s['tr'] = 'onehot'
    return s


def random_case(rng, hints):
    if rng.random() < .15:
        return dict(kind='malformed', which=rng.choice(MAL), first=rng.random() < .5)
    subs = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        names = rng.sample(NAMES, rng.choice([1, 1, 2, 2, 3, 4]))
        subs.append(dict(dims=[[n, small_dim(rng, hints)] for n in names], n=rng.choice([None, None, 0, 1, 2, 3, 4, 5, 7])))
    single = len(subs) == 1 and subs[0]['n'] is None and rng.random() < .6
    npts = rng.choice([1, 1, 2, 3, 4, 5, rint(rng, 1, 6, hints)])
    c = dict(kind='search', subs=subs, single=single, n_iter=rng.choice([1, 2, 3, 4, 5, 6, 7, rint(rng, 1, 9, hints)]), n_points=npts,
             table=[round(rng.uniform(-5, 5), 2) if rng.random() < .8 else rng.choice([0., 1., -1.]) for _ in range(rng.choice([1, 2, 7, 31, 97]))],
             seed=rng.randrange(10 ** 6), refit=rng.random() < .7, train=rng.random() < .2, again=rng.random() < .15, folds=rng.choice([2, 2, 3]),
             opt=dict(base_estimator=rng.choice(['RF', 'ET']), n_initial_points=rng.choice([2, 3]), acq_func=rng.choice(['LCB', 'EI', 'gp_hedge'])) if rng.random() < .08 else
             rng.choice([dict(base_estimator='dummy'), dict(n_initial_points=20), dict(base_estimator='dummy', n_initial_points=1), None, dict(base_estimator='dummy', acq_func='EI')]))
    if rng.random() < .35:
        c['stops'] = sorted(rng.sample(range(1, 12), rng.choice([1, 2, 3])))
    elif rng.random() < .3:
        c['stops'] = []
    if rng.random() < .2:
        c['raw'] = True      # plain descriptions in place of dimension objects
    return c


def fixed(hints):
    for w in MAL:
        for f in (True, False):
            yield dict(kind='malformed', which=w, first=f)
    u = lambda n: dict(k='R', prior='uniform', tr='identity', lo=0., hi=float(n))
    i = lambda n: dict(k='I', prior='uniform', tr='identity', lo=1, hi=n)
    base = dict(kind='search', single=False, n_iter=5, n_points=2, table=[.1, 2., -3., .7, 5.], seed=3, refit=True, train=False, again=False, folds=2, opt=dict(base_estimator='dummy'))
    for npts in (1, 2, 3, 5, 8):
        for n in (0, 1, 4, 5, 6, None):
            yield dict(base, n_points=npts, subs=[dict(dims=[['z2', u(1)], ['a', i(9)]], n=n), dict(dims=[['b', i(5)], ['B', u(3)]], n=3)])
    yield dict(base, subs=[dict(dims=[['z10', u(1)], ['z2', i(9)], ['B', u(2)]], n=None)], single=True, stops=[2])
    yield dict(base, subs=[dict(dims=[['a', u(1)]], n=4), dict(dims=[['a', i(3)]], n=4)], stops=[1], n_points=1)


def mal(which, first):
    from skopt.space import Integer, Real
    ok = {'a': Integer(1, 5)}
    m = {'empty list': [], 'empty dict': {}, 'none': None, 'string': 'abc', 'number': 5, 'tuple': (ok, 3), 'tuple of one': [(ok,)], 'tuple of three': [(ok, 1, 2)],
         'count text': [(ok, '3')], 'count negative': [(ok, -1)], 'count fraction': [(ok, 2.5)], 'count none': [(ok, None)], 'element text': ['a'], 'element number': [7],
         'element list': [[1, 2]], 'element dimension': [Real(0., 1.)], 'bad dimension': {'a': 'x'} if first else [{'a': 3}], 'bad bounds': [{'a': (3, 1)}],
         'bad in second': [{'a': Integer(1, 2), 'b': None}], 'bad in tuple': [({'a': (5, 5)}, 3)]}[which]
    if not first and isinstance(m, list) and m:
        m = [ok, (ok, 2)] + m
    return m


def bad(m):
    """tuple counts of the search are whole numbers of at least zero"""
    return m


def raw(s, d):
    from skopt.space import Real, Integer, Categorical
    if s['k'] == 'R' and s.get('prior') == 'uniform' and not s.get('dt'):
        return (float(s['lo']), float(s['hi'])) if float(s['lo']) % 1 or float(s['hi']) % 1 else d
    if s['k'] == 'I' and s.get('prior') == 'uniform' and not s.get('dt'):
        return (int(s['lo']), int(s['hi']))
    return d


def inside(s, v):
    if s['k'] == 'R':
        return isinstance(v, float) and s['lo'] - 1e-6 * abs(s['lo']) <= v <= s['hi'] + 1e-6 * abs(s['hi'])
    if s['k'] == 'I':
        return isinstance(v, (int, np.integer)) and not isinstance(v, bool) and s['lo'] <= v <= s['hi']
    return any(isinstance(v, (bool, np.bool_)) == isinstance(c, bool) and v == c for c in s['cats'])


def check(case):
    warnings.simplefilter('ignore')
    import io, contextlib
    with np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
        return malformed(case) if case['kind'] == 'malformed' else search(case)


def malformed(case):
    from skopt import BayesSearchCV
    m = mal(case['which'], case['first'])
    try:
        BayesSearchCV(est_class()(), m, n_iter=3)
    except (TypeError, ValueError):
        return None
    return 'the search-space description %r is accepted' % (m,)


def search(case):
    from skopt import BayesSearchCV
    from sklearn.model_selection import KFold
    subs = case['subs']
    spaces, budgets = [], []
    if sum(case['n_iter'] if s['n'] is None else s['n'] for s in subs) == 0:
        raise Skip
    for s in subs:
        d = {}
        for n, spec in s['dims']:
            if spec['k'] == 'C' and (len(set(map(type, spec['cats']))) > 1 or any(isinstance(c, (list, tuple)) for c in spec['cats']) or '' in spec['cats'] or None in spec['cats']):
                raise Skip
            if spec.get('dt') in ('np.float32', 'np.float16'):
                raise Skip          # known finding of C03: half-way rounding of narrow types at the bounds
            d[n] = mk_dim(spec)
            if case.get('raw'):
                d[n] = raw(spec, d[n])
        spaces.append(d if s['n'] is None else (d, s['n']))
        budgets.append(case['n_iter'] if s['n'] is None else s['n'])
    kw = dict(case['opt']) if case['opt'] is not None else None
    desc = spaces[0] if case['single'] else spaces
    X = np.arange(2 * case['folds'] + 1, dtype=float).reshape(-1, 1)
    bs = BayesSearchCV(est_class()(table=tuple(case['table'])), desc, optimizer_kwargs=kw, n_iter=case['n_iter'], n_points=case['n_points'],
                       cv=KFold(case['folds']), random_state=case['seed'], refit=case['refit'], return_train_score=case['train'])
    if bs.total_iterations != sum(budgets):
        return 'total_iterations is %r for the budgets %r' % (bs.total_iterations, budgets)
    cb = None
    rounds = []
    if 'stops' in case:
        stops = set(case['stops'])

        def cb(res):
            rounds.append((len(res.x_iters), float(res.fun)))
            return len(rounds) in stops
    for again in range(2 if case['again'] else 1):
        LOG.clear()
        del rounds[:]
        bs.fit(X, callback=cb)
        r = account(case, bs, budgets, rounds, desc)
        if kw is not None and kw != case['opt']:
            return 'the settings passed in became %r' % sorted(kw)
        if r:
            return ('second fit: ' if again else '') + r
    return None


def account(case, bs, budgets, rounds, desc):
    subs, npts = case['subs'], case['n_points']
    # what is to be evaluated
    sizes, nr = [], 0
    per = []
    for b in budgets:
        left, done = b, 0
        while left > 0:
            m = min(left, npts)
            sizes.append(m)
            left -= m
            done += m
            nr += 1
            if 'stops' in case and nr in case['stops']:
                break
        per.append(done)
    total = sum(per)
    cv = bs.cv_results_
    P = cv['params']
    if len(P) != total:
        return '%d parameter settings evaluated, budgets %r (stops %r) give %d' % (len(P), budgets, case.get('stops'), total)
    if 'stops' in case and len(rounds) != nr:
        return '%d callbacks for %d rounds' % (len(rounds), nr)
    seen = LOG[:-1] if case['refit'] else LOG[:]
    if len(seen) != total * case['folds']:
        return 'the estimator was fitted %d times for %d settings of %d folds' % (len(seen), total, case['folds'])
    o = 0
    sc = np.asarray(cv['mean_test_score'], dtype=float)
    for si, s in enumerate(subs):
        dims = dict(map(tuple, s['dims']))
        order = sorted(dims)
        res = bs.optimizer_results_[si]
        if per[si] == 0:
            if res is not None and len(res.x_iters):
                return 'a result for subspace %d, in which nothing was evaluated' % si
            continue
        if len(res.x_iters) != per[si] or len(res.func_vals) != per[si]:
            return 'subspace %d: %d settings told for %d evaluated' % (si, len(res.x_iters), per[si])
        for j in range(per[si]):
            p = P[o + j]
            if sorted(p) != order:
                return 'setting %d names %r, the subspace %r' % (o + j, sorted(p), order)
            for n in order:
                if not inside(dims[n], p[n]):
                    return 'setting %d: %s = %r (%s) does not belong to its dimension %r' % (o + j, n, p[n], type(p[n]).__name__, dims[n])
                col = cv['param_' + n][o + j]
                if col != p[n]:
                    return 'column of %s says %r, the setting %r' % (n, col, p[n])
            for f in range(case['folds']):
                g = seen[(o + j) * case['folds'] + f]
                if g != dict(p):
                    return 'the estimator was given %r, the setting is %r' % (g, dict(p))
            if list(res.x_iters[j]) != [p[n] for n in order]:
                return 'the optimizer was told %r, the setting is %r' % (list(res.x_iters[j]), [p[n] for n in order])
            if res.func_vals[j] != -sc[o + j]:
                return 'setting %d has score %r, the optimizer was told %r' % (o + j, sc[o + j], res.func_vals[j])
        b = sc[o:o + per[si]].max()
        if res.fun != -b or not any(list(res.x) == [P[o + j][n] for n in order] and sc[o + j] == b for j in range(per[si])):
            return 'best of subspace %d: %r at %r, the scores give %r' % (si, res.fun, res.x, -b)
        sp = bs.optimizers_[si].space
        if sp.n_dims != len(order):
            return 'optimizer of subspace %d has %d dimensions' % (si, sp.n_dims)
        for n, d in zip(order, sp.dimensions):
            q = dims[n]
            if d.name != n:
                return 'the dimension searched for %s is called %r' % (n, d.name)
            if q['k'] != 'C' and (float(d.low) != float(q['lo']) or float(d.high) != float(q['hi'])):
                return 'the dimension searched for %s is %r' % (n, d)
        o += per[si]
    if case['refit']:
        if bs.best_score_ != sc.max() or sc[bs.best_index_] != sc.max() or dict(bs.best_params_) != dict(P[bs.best_index_]):
            return 'best score %r at %r, the largest is %r' % (bs.best_score_, bs.best_params_, sc.max())
        if LOG[-1] != dict(bs.best_params_):
            return 'refitted with %r, best is %r' % (LOG[-1], dict(bs.best_params_))
    if case['train'] and 'rank_train_score' in cv:
        t = np.asarray(cv['mean_train_score'])
        if [int(v) for v in cv['rank_train_score']] != [1 + int((t > x).sum()) for x in t]:
            return 'ranks of the training scores'
    sp = bs.search_spaces
    if sp is not desc:
        return 'the description was replaced'
    return None
