"""C18: ensemble predictions combine their members by the documented formulas."""
from .opt import *
from .c07 import exc_is
from .sums import Normal
from pvc import solve

NOTE = ('forest mean and variance proved for every number of trees and queries and every leaf assignment (the loop over trees summarised by its exact sum), equal to the law of total variance; '
        'gradient-boosted quantile fit and predict proved for every quantile list; the trees and boosted models themselves are members by contract')
ASSUME = ['sklearn forests predict the average of their trees; a tree predicts a number per row, apply gives the leaf of each row and tree_.impurity[leaf] its variance',
          'exact arithmetic']
FQ = 'skopt.learning.forest:'
BQ = 'skopt.learning.gbrt:'


class Tree(NatObj):
    def __init__(self, s, t):
        NatObj.__init__(self)
        self.s, self.t = s, t

    def py_subst(self, E, sub):
        return Tree(self.s, z3.substitute(zint(self.t), *sub))

    def py_getattr(self, E, name):
        s, t = self.s, zint(self.t)

        def rows(E, a):
            E.require('a tree sees the data', E.force(a[0]) is s.Xa)
        if name == 'predict':
            def predict(E, a, k):
                rows(E, a)
                return E.arr((s.n,), lambda i: s.MT(t, zint(i)), 'f')
            return Native('predict', predict)
        if name == 'apply':
            def apply(E, a, k):
                rows(E, a)
                return E.arr((s.n,), lambda i: s.LEAF(t, zint(i)), 'i')
            return Native('apply', apply)
        if name == 'tree_':
            return TreeData(s, t)
        raise Unsupported('tree.' + name)


class TreeData(NatObj):
    def __init__(self, s, t):
        NatObj.__init__(self)
        self.s, self.t = s, t

    def py_subst(self, E, sub):
        return TreeData(self.s, z3.substitute(zint(self.t), *sub))

    def py_getattr(self, E, name):
        s, t = self.s, zint(self.t)
        if name == 'impurity':
            return E.arr((s.LEAVES(t),), lambda i: s.IMP(t, zint(i)), 'f')
        raise Unsupported('tree_.' + name)


def scene(E, cls, std=True, criterion='squared_error'):
    s = O()
    s.n, s.k, s.d = E.Int('n'), E.Int('trees'), E.Int('d')
    for q in (s.n, s.k, s.d):
        E.assume(q >= 1)
    F = lambda n, *a: z3.Function(n, *a)
    s.MT, s.LEAF, s.IMP, s.LEAVES = F('MT', I, I, R), F('LEAF', I, I, I), F('IMP', I, I, R), F('LEAVES', I, I)
    E.rule_for(s.LEAVES, lambda t: s.LEAVES(t) >= 1)
    E.rule_for(s.LEAF, lambda t, i: z3.And(s.LEAF(t, i) >= 0, s.LEAF(t, i) < s.LEAVES(t)))
    E.rule_for(s.IMP, lambda t, l: s.IMP(t, l) >= 0)
    s.X = F('X', I, I, R)
    s.Xa = E.arr((s.n, s.d), lambda i, j: s.X(zint(i), zint(j)), 'f')
    s.minv = E.Real('min_variance')
    E.assume(s.minv >= 0)
    s.m = Inst(E.resolve(FQ + cls))
    trees = PList(Seq(n=s.k, get=lambda t: Tree(s, t)))
    s.m.f.update(criterion=criterion, min_variance=s.minv, estimators_=trees, n_estimators=s.k)

    def mean(E, a, k):
        E.require('the data reach the forest', E.force(a[1]) is s.Xa)
        s.means.append(E.arr((s.n,), lambda i: mu(E, s, zint(i)), 'f'))
        return s.means[-1]
    s.means = []
    E.ext_methods[('sklearn.ensemble.' + cls, 'predict')] = Native('predict', mean)
    s.N = Normal(E)
    return s


def mu(E, s, i):
    t = E.index_const()
    return E.sum_term(s.k, t, s.MT(t, i)) / z3.ToReal(s.k)


def forest(cls, crit):
    def c(E):
        s = scene(E, cls, criterion=crit)
        r = E.force(E.call(E.getattr(s.m, 'predict'), [s.Xa], {'return_std': True}))
        E.require('mean and deviation', isinstance(r, tuple) and len(r) == 2)
        M, S = E.to_arr(r[0]).v, E.to_arr(r[1]).v
        E.require('vectors', len(M.shape) == 1 and len(S.shape) == 1)
        E.prove('one each per query', z3.And(zint(M.shape[0]) == s.n, zint(S.shape[0]) == s.n))
        i = E.Int('i')
        E.assume(z3.And(i >= 0, i < s.n))
        E.prove('the mean is the average of the trees', s.N.normal(zreal(M.at(i))) == s.N.normal(mu(E, s, i)))
        sd = zreal(S.at(i))
        E.prove('never negative', sd >= 0)
        t = E.index_const()
        leaf = s.IMP(t, s.LEAF(t, i))
        within = E.sum_term(s.k, t, z3.If(leaf < s.minv, s.minv, leaf)) / z3.ToReal(s.k)
        m = z3.Real('mean_i')
        E.fact(m == s.N.normal(mu(E, s, i)))
        t2 = E.index_const()
        dev = s.MT(t2, i) - mu(E, s, i)
        between = E.sum_term(s.k, t2, dev * dev) / z3.ToReal(s.k)
        q = E.index_const()
        # both parts are averages of numbers that are not negative
        E.prove('within-leaf variances are not negative', z3.Implies(z3.And(t >= 0, t < s.k), z3.If(leaf < s.minv, s.minv, leaf) >= 0))
        E.prove('squares are not negative', dev * dev >= 0)
        w, b = s.N.normal(within), s.N.normal(between)
        E.fact(z3.And(w >= 0, b >= 0))
        E.assumptions.add('a finite sum of non-negative terms is not negative')
        for u in solve.subterms([sd]):
            # whatever the code took for the variance: equal by algebra to the sum of the two parts
            if u.sort() == R and not z3.is_var(u) and z3.is_app(u) and solve.alg_equal(s.N.normal(u), w + b):
                E.fact(u == w + b)
        E.prove('average within-leaf variance plus variance of the tree means', sd * sd == w + b)
    return c


def forest_plain(cls, crit):
    def c(E):
        s = scene(E, cls, criterion=crit)
        r = E.call(E.getattr(s.m, 'predict'), [s.Xa], {})
        M = E.to_arr(r).v
        i = E.Int('i')
        E.assume(z3.And(i >= 0, i < s.n))
        E.prove('one each per query', zint(M.shape[0]) == s.n)
        E.prove('the mean is the average of the trees', s.N.normal(zreal(M.at(i))) == s.N.normal(mu(E, s, i)))
    return c


def forest_refuse(cls):
    def c(E):
        s = scene(E, cls, criterion='absolute_error')
        kind, e = outcome(E, lambda: E.call(E.getattr(s.m, 'predict'), [s.Xa], {'return_std': True}))
        E.require('a deviation needs variances in the leaves', kind == 'raise' and exc_is(e, 'ValueError'))
    return c


ARGS = ['n_estimators', 'criterion', 'max_depth', 'min_samples_split', 'min_samples_leaf', 'min_weight_fraction_leaf', 'max_features', 'max_leaf_nodes', 'min_impurity_decrease',
        'bootstrap', 'oob_score', 'n_jobs', 'random_state', 'verbose', 'warm_start']


def construct(cls):
    def c(E):
        seen = []

        def init(E, a, k):
            E.require('by name', len(a) == 1)
            seen.append(dict(k))
            return None
        E.ext_methods[('sklearn.ensemble.' + cls, '__init__')] = Native('__init__', init)
        vals = {n: OpaqueObj(n) for n in ARGS + ['min_variance']}
        m = E.call(E.resolve(FQ + cls), [], dict(vals))
        E.require('every forest parameter reaches the forest under its own name', len(seen) == 1 and set(seen[0]) == set(ARGS) and all(seen[0][n] is vals[n] for n in ARGS))
        E.require('the variance floor is kept', E.getattr(m, 'min_variance') is vals['min_variance'])
    return c


CONTRACTS = []
for cls in ('RandomForestRegressor', 'ExtraTreesRegressor'):
    CONTRACTS += [('%s mean and deviation' % cls, forest(cls, 'squared_error')), ('%s mean and deviation, older name of the criterion' % cls, forest(cls, 'mse')),
                  ('%s mean' % cls, forest_plain(cls, 'squared_error')), ('%s mean with another criterion' % cls, forest_plain(cls, 'absolute_error')),
                  ('%s refuses deviations' % cls, forest_refuse(cls)), ('%s construction' % cls, construct(cls))]


# ------------------------------------------------------------ gradient boosted quantiles
Q = z3.Function('QUANT', I, R)
GBR = 'sklearn.ensemble.GradientBoostingRegressor'


class Boost(NatObj):
    """a boosted regressor: parameters, and what it was fitted on; a fitted one predicts a number per row that depends on its quantile"""
    bases = (GBR,)
    tyname = 'GradientBoostingRegressor'

    def __init__(self, s, origin, **f):
        NatObj.__init__(self)
        self.s, self.origin = s, origin
        self.f.update(alpha=None, random_state=None, fit=None, loss='quantile')
        self.f.update(f)

    def py_subst(self, E, sub):
        b = Boost(self.s, self.origin)
        b.f.update({k: z3.substitute(v, *sub) if is_z3(v) else v for k, v in self.f.items()})
        return b

    def py_getattr(self, E, name):
        s = self.s
        if name == 'loss':
            return self.f['loss']
        if name == 'set_params':
            def set_params(E, a, k):
                for n, v in k.items():
                    if n not in ('random_state', 'alpha'):
                        raise Unsupported('set_params(%s)' % n)
                    E.setf(self, n, v)
                return self
            return Native('set_params', set_params)
        if name == 'fit':
            def fit(E, a, k):
                E.setf(self, 'fit', (E.force(a[0]), E.force(a[1])))
                return self
            return Native('fit', fit)
        if name == 'predict':
            def predict(E, a, k):
                E.require('the data reach the regressor', E.force(a[0]) is s.Xa)
                al = zreal(self.f['alpha'])
                return E.arr((s.m,), lambda i: s.P(al, zint(i)), 'f')
            return Native('predict', predict)
        raise Unsupported('boosted regressor.' + name)


def bscene(E, qs, base=None, seed=7):
    s = O()
    s.m = E.Int('rows')
    E.assume(s.m >= 1)
    s.P = z3.Function('BP', R, I, R)
    s.d = E.Int('d')
    E.assume(s.d >= 1)
    s.XF, s.YF = z3.Function('XF', I, I, R), z3.Function('YF', I, R)
    s.Xa = E.arr((s.m, s.d), lambda i, j: s.XF(zint(i), zint(j)), 'f')
    s.y = E.arr((s.m,), lambda i: s.YF(zint(i)), 'f')
    s.new = []

    def ctor(E, a, k):
        E.require('quantile loss', not a and dict(k) == {'loss': 'quantile'})
        s.new.append(Boost(s, 'default'))
        return s.new[-1]
    E.natives[GBR] = ctor
    E.clone_hook = lambda E, v: Boost(s, v, **dict(v.f, fit=None, random_state=('copy', v.f['random_state']) if isinstance(v.f['random_state'], RngObj) else v.f['random_state']))
    s.g = Inst(E.resolve(BQ + 'GradientBoostingQuantileRegressor'))
    s.g.f.update(quantiles=qs, random_state=RngObj('given') if seed is None else seed, base_estimator=base, n_jobs=E.Int('n_jobs'))
    return s


def gfit(own, seed):
    def c(E):
        n = E.Int('n')
        E.assume(n >= 0)
        s = bscene(E, PList(Seq(n=n, get=lambda i: Q(zint(i)))), seed=seed)
        base = None
        if own:
            base = s.g.f['base_estimator'] = Boost(s, 'user')
        r = E.call(E.getattr(s.g, 'fit'), [s.Xa, s.y], {})
        E.require('the estimator itself is returned', E.force(r) is s.g)
        if not own:
            E.require('one default regressor to start from', len(s.new) == 1)
            base = s.new[0]
        rs = E.to_seq(E.getattr(s.g, 'regressors_'))
        E.prove('one regressor per quantile', zint(rs.n) == n)
        i = E.Int('i')
        E.assume(z3.And(i >= 0, i < n))
        b = E.force(E.seq_at(rs, i))
        E.require('a regressor', isinstance(b, Boost))
        E.prove('of its own quantile, in the given order', zreal(b.f['alpha']) == Q(i))
        E.require('made from the regressor given', b.origin is base and b is not base)
        rng = b.f['random_state']
        E.require('every regressor starts from the same state of the generator', isinstance(rng, tuple) and rng[0] == 'copy' and isinstance(rng[1], RngObj))
        want = 'given' if seed is None else ('seed', seed)
        E.require('the one asked for', rng[1].src == want)
        E.require('fitted', b.f['fit'] is not None)
        X, y = E.to_arr(b.f['fit'][0]).v, E.to_arr(b.f['fit'][1]).v
        p, q = E.Int('p'), E.Int('q')
        E.prove('on the data', z3.And(zreal(X.at(p, q)) == s.XF(p, q), zreal(y.at(p)) == s.YF(p), zint(X.shape[0]) == s.m, zint(y.shape[0]) == s.m, zint(X.shape[1]) == s.d))
        E.require('no ambient randomness', not E.ghost.get('ambient'))
    return c


def grefuse(what):
    def c(E):
        s = bscene(E, PList(Seq((0.5,))))
        s.g.f['base_estimator'] = Boost(s, 'user', loss='squared_error') if what == 'loss' else Est('other')
        kind, e = outcome(E, lambda: E.call(E.getattr(s.g, 'fit'), [s.Xa, s.y], {}))
        E.require('refused', kind == 'raise' and exc_is(e, 'ValueError'))
        E.require('and nothing is kept', 'regressors_' not in s.g.f)
    return c


def members(s, qs):
    s.g.f['regressors_'] = PList(Seq(tuple(Boost(s, 'fit', alpha=q, fit=1) for q in qs)))


def gpredict(qs):
    def c(E):
        s = bscene(E, PList(Seq(qs)))
        members(s, qs)
        i = E.Int('i')
        E.assume(z3.And(i >= 0, i < s.m))
        p = lambda q: s.P(zreal(q), i)
        full = {0.16, 0.5, 0.84} <= set(qs)
        if 0.5 in qs:
            M = E.to_arr(E.call(E.getattr(s.g, 'predict'), [s.Xa], {})).v
            E.require('a number per row', len(M.shape) == 1)
            E.prove('one per row', zint(M.shape[0]) == s.m)
            E.prove('the mean is the median model', zreal(M.at(i)) == p(0.5))
        kind, r = outcome(E, lambda: E.call(E.getattr(s.g, 'predict'), [s.Xa], {'return_std': True}))
        if full:
            r = E.force(r)
            E.require('mean and deviation', kind == 'ok' and isinstance(r, tuple) and len(r) == 2)
            M, S = E.to_arr(r[0]).v, E.to_arr(r[1]).v
            E.prove('both one per row', z3.And(zint(M.shape[0]) == s.m, zint(S.shape[0]) == s.m))
            E.prove('the mean is the same with a deviation', zreal(M.at(i)) == p(0.5))
            E.prove('half the distance of the outer quantiles', zreal(S.at(i)) == (p(0.84) - p(0.16)) / 2)
        else:
            E.require('no deviation without its quantiles', kind == 'raise' and exc_is(r, 'ValueError'))
        T = E.to_arr(E.call(E.getattr(s.g, 'predict'), [s.Xa], {'return_quantiles': True})).v
        E.require('a table', len(T.shape) == 2)
        E.prove('a row per query and a column per quantile', z3.And(zint(T.shape[0]) == s.m, zint(T.shape[1]) == len(qs)))
        for j, q in enumerate(qs):
            E.prove('column %d' % j, zreal(T.at(i, j)) == p(q))
    return c


def gtable(E):
    """any list of quantiles"""
    n = E.Int('n')
    E.assume(n >= 1)
    s = bscene(E, PList(Seq(n=n, get=lambda i: Q(zint(i)))))
    s.g.f['regressors_'] = PList(Seq(n=n, get=lambda i: Boost(s, 'fit', alpha=Q(zint(i)), fit=1)))
    T = E.to_arr(E.call(E.getattr(s.g, 'predict'), [s.Xa], {'return_quantiles': True})).v
    i, j = E.Int('i'), E.Int('j')
    E.assume(z3.And(i >= 0, i < s.m, j >= 0, j < n))
    E.require('a table', len(T.shape) == 2)
    E.prove('a row per query and a column per quantile', z3.And(zint(T.shape[0]) == s.m, zint(T.shape[1]) == n))
    E.prove('each column from its own regressor', zreal(T.at(i, j)) == s.P(Q(j), i))


def gany(E):
    """any list of quantiles that contains the three: mean and deviation from the right ones"""
    n = E.Int('n')
    E.assume(n >= 1)
    s = bscene(E, PList(Seq(n=n, get=lambda i: Q(zint(i)))))
    s.g.f['regressors_'] = PList(Seq(n=n, get=lambda i: Boost(s, 'fit', alpha=Q(zint(i)), fit=1)))
    i = E.Int('i')
    E.assume(z3.And(i >= 0, i < s.m))
    where = {}
    for v in (0.16, 0.5, 0.84):
        w = where[v] = E.Int('pos')
        E.assume(z3.And(w >= 0, w < n, Q(w) == zreal(v)))
    r = E.force(E.call(E.getattr(s.g, 'predict'), [s.Xa], {'return_std': True}))
    E.require('mean and deviation', isinstance(r, tuple) and len(r) == 2)
    M, S = E.to_arr(r[0]).v, E.to_arr(r[1]).v
    p = lambda q: s.P(zreal(q), i)
    E.prove('the mean is the median model', zreal(M.at(i)) == p(0.5))
    E.prove('half the distance of the outer quantiles', zreal(S.at(i)) == (p(0.84) - p(0.16)) / 2)
    M0 = E.to_arr(E.call(E.getattr(s.g, 'predict'), [s.Xa], {})).v
    E.prove('the mean does not depend on asking for a deviation', zreal(M.at(i)) == zreal(M0.at(i)))


QSETS = [(0.16, 0.5, 0.84), (0.84, 0.5, 0.16), (0.5,), (0.1, 0.16, 0.5, 0.84, 0.9), (0.16, 0.84), (0.5, 0.84), (0.16, 0.5)]
CONTRACTS += [('quantile fit (%s, %s)' % ('own regressor' if own else 'default regressor', 'generator' if seed is None else 'seed'), gfit(own, seed)) for own in (0, 1) for seed in (None, 7)]
CONTRACTS += [('quantile fit refuses another ' + w, grefuse(w)) for w in ('loss', 'type')]
CONTRACTS += [('quantile prediction %s' % (qs,), gpredict(qs)) for qs in QSETS]
CONTRACTS += [('quantile table', gtable), ('quantile prediction from any list', gany)]
