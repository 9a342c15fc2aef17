"""C09: a batch request yields exactly n points and leaves no side effects."""
from .opt import *
from .c07 import state, snap, exc_is

NOTE = ('ask(n, strategy) proved for every n and state: exactly the n points asked from a copy, each lie the minimum/mean/maximum of what the copy has seen, the optimizer untouched; '
        'copies proved to repeat history, counters and settings; reports proved to discard the cached batch')
ASSUME = ['the copy returns points of the space when asked (C03, C07)', 'points are lists of scalars']


class Copy(NatObj):
    """the copy ask works on: after c lies it has seen the history and those lies (its own contract: copy)"""
    tyname = 'skopt.optimizer.optimizer.Optimizer'

    def __init__(self, o, strategy):
        NatObj.__init__(self)
        self.o, self.strategy = o, strategy
        self.f['told'] = 0      # number of lies so far
        self.NP = z3.Function('ASKED', I, U)
        self.LY, self.LT = z3.Function('SEENY', I, I, R), z3.Function('SEENT', I, I, R)

    def py_getattr(self, E, name):
        o = self.o
        t = self.f['told']
        if isinstance(t, Poison):
            raise PoisonRead(t)
        if name == 'ask':
            def ask(E, a, k):
                E.require('single points are asked for', not a and not k)
                return self.NP(zint(self.f['told']))
            return Native('ask', ask)
        if name in ('yi', 'Xi'):
            n = o.n + zint(t)
            if name == 'Xi':
                return PList(Seq(n=n, get=lambda i: E.fresh('seen', U)))
            tt = zint(t)
            if o.ps:
                return PList(Seq(n=n, get=lambda i: (self.LY(tt, zint(i)), self.LT(tt, zint(i)))))
            return PList(Seq(n=n, get=lambda i: self.LY(tt, zint(i))))
        if name in ('tell', '_tell'):
            def tell(E, a, k):
                self.lie(E, name, a[0], a[1])
                E.setf(self, 'told', E.binop('+', self.f['told'], 1))
                return None
            return Native(name, tell)
        raise Unsupported('copy.' + name)

    def py_subst(self, E, sub):
        return self

    def lie(self, E, how, x, y):
        o, s = self.o, self.strategy
        t = self.f['told']
        E.prove('the point just asked is reported', E.eq(x, self.NP(zint(t))))
        n = o.n + zint(t)
        if o.ps:
            p = pair(E.force(y))
            E.require('value and duration', len(p) == 2)
            self.check(E, 'value', s, n, p[0], lambda i: self.LY(zint(t), i), 0.0)
            # durations are already logarithms: a report through tell() would take the logarithm again
            E.require('durations are not transformed again', how == '_tell')
            self.check(E, 'duration', s, n, p[1], lambda i: self.LT(zint(t), i), None)
        else:
            self.check(E, 'value', s, n, y, lambda i: self.LY(zint(t), i), 0.0)

    def check(self, E, what, s, n, y, v, empty):
        y = zreal(E.to_float(y)) if not is_z3(y) else zreal(y)
        if not E.decide(n > 0):
            if empty is not None:
                E.prove('%s without observations' % what, y == zreal(empty))
            return
        if s == 'cl_mean':
            tot = E.np_mean(PList(Seq(n=n, get=lambda i: v(zint(i)))))
            E.prove('%s is the mean of what was seen' % what, y == zreal(tot))
            return
        q = z3.Int('q!%d' % E.uid())
        rng = z3.And(q >= 0, q < n)
        E.prove('%s bounds what was seen' % what, z3.ForAll([q], z3.Implies(rng, y <= v(q) if s == 'cl_min' else y >= v(q))))
        E.prove('%s was seen' % what, z3.Exists([q], z3.And(rng, y == v(q))))


def ask(acq, strategy, cached):
    def c(E):
        o = full_optimizer(E, acq, queue='none')
        f = o.inst.f
        n = E.Int('n_points')
        old = PList([E.fresh('cachedpoint', U)])
        if cached == 'same':
            f['cache_'] = cache_of(E, n, strategy, old)
        elif cached == 'other':
            f['cache_'] = cache_of(E, n + 1, strategy, old)
        made = []

        def copy(E, a, k):
            E.require('the optimizer itself is copied', a[0] is o.inst)
            made.append(Copy(o, strategy))
            return made[-1]
        E.overrides[OPT + 'Optimizer.copy'] = copy
        before = state(o)
        kind, v = outcome(E, lambda: E.call(E.getattr(o.inst, 'ask'), [n, strategy], {}))
        if kind == 'raise':
            E.require('refused by ValueError', exc_is(v, 'ValueError'))
            E.prove('only counts below one are refused', n < 1)
            untouched(E, o, before, ())
            return
        E.prove('counts below one are refused', n >= 1)
        if cached == 'same':
            E.require('the same batch again', v is old)
            untouched(E, o, before, ())
            return
        E.require('one copy', len(made) == 1)
        E.require('a list', isinstance(v, PList))
        E.prove('exactly n points', zint(E.length(v)) == n)
        E.prove_forall('the points asked from the copy in order', n, lambda i: E.eq(at(E, v, i), made[0].NP(zint(i))))
        untouched(E, o, before, ('cache_',))
        seq = v.f['seq']
        made2 = len(made)
        k2, v2 = outcome(E, lambda: E.call(E.getattr(o.inst, 'ask'), [n, strategy], {}))
        E.require('asking again is answered from the cache', k2 == 'ok' and v2 is v and v.f['seq'] is seq and len(made) == made2)
        other = {'cl_min': 'cl_max', 'cl_max': 'cl_mean', 'cl_mean': 'cl_min'}[strategy]
        E.require('only this batch is cached', E.truth(E.contains(f['cache_'], (n, other))) is False)
    return c


def cache_of(E, n, s, X):
    d = PDict()
    E.setitem(d, (n, s), X)
    return d


def untouched(E, o, before, but):
    f2 = o.inst.f
    E.require('same fields', set(f2) == set(before))
    for k in f2:
        if k in but:
            continue
        b = before[k]
        if isinstance(f2[k], (PList, PDict, ArrObj)):
            E.require('%s is untouched' % k, f2[k] is b[0] and snap(f2[k]) == b[1])
        else:
            E.require('%s is untouched' % k, f2[k] is b or (is_z3(b) and is_z3(f2[k]) and b.eq(f2[k])) or (not is_z3(b) and f2[k] == b))


def bad_strategy(E):
    o = full_optimizer(E, 'EI', queue='none')
    n = E.Int('n_points')
    before = state(o)
    kind, v = outcome(E, lambda: E.call(E.getattr(o.inst, 'ask'), [n, 'cl_other'], {}))
    E.require('unknown strategies are refused', kind == 'raise' and exc_is(v, 'ValueError'))
    untouched(E, o, before, ())


def bad_count(E):
    o = full_optimizer(E, 'EI', queue='none')
    for n in (2.5, '3', PList([1])):
        before = state(o)
        kind, v = outcome(E, lambda: E.call(E.getattr(o.inst, 'ask'), [n, 'cl_min'], {}))
        E.require('counts that are no integers are refused', kind == 'raise' and exc_is(v, 'ValueError'))
        untouched(E, o, before, ())


def discard(acq, shape):
    def c(E):
        o = full_optimizer(E, acq, queue='none')
        x, y, k, px, py = told(E, o, shape)
        f = o.inst.f
        f['cache_'] = cache_of(E, E.Int('n_points'), 'cl_min', PList([E.fresh('p', U)]))
        fit = E.Bool('fit')
        E.call(E.getattr(o.inst, '_tell'), [x, y, fit], {})
        d = f['cache_']
        E.require('the cached batch is discarded', isinstance(d, PDict) and not d.f['d'] and d.f['sym'] is None)
    return c


def copy(acq, design, queue, hist):
    """a copy repeats history, counters, design, limit and settings"""
    def c(E):
        o = full_optimizer(E, acq, queue=queue)
        f = o.inst.f
        N = f['n_initial_points_']
        E.assume(N >= 0)
        E.assume(o.n0 == N - o.n)
        if hist:
            E.assume(o.n >= 1)
        else:
            E.assume(o.n == 0)
        if design:
            DES = z3.Function('DESIGN', I, U)
            f['_initial_samples'] = PList(Seq(n=N, get=lambda i: DES(zint(i))))
            f['_initial_point_generator'] = OpaqueObj('generator')
        f['acq_func_kwargs'] = PDict({'xi': E.Real('xi'), 'eta': o.eta})
        E.overrides['skopt.utils:normalize_dimensions'] = lambda E, a, k: a[0]
        spaces = []

        def Sp(E, a, k):
            E.require('same dimensions', a[0] is o.sp.f['dimensions'] or a[0] is o.sp)
            return o.sp
        E.overrides[SPACE + 'Space'] = Sp
        E.overrides['skopt.utils:has_gradients'] = lambda E, a, k: False
        E.natives['sklearn.base.is_regressor'] = lambda E, a, k: True
        if o.ps:
            o.base.tyname = 'sklearn.multioutput.MultiOutputRegressor'
        calls = []

        def _tell(E, a, k):
            calls.append((a, k))
            return None
        E.overrides[OPT + 'Optimizer._tell'] = _tell
        before = state(o)
        rs = E.Int('seed')
        cp = E.call(E.getattr(o.inst, 'copy'), [], dict(random_state=rs))
        untouched(E, o, before, ())
        g = cp.f
        E.require('another optimizer', cp is not o.inst and cp.cls is o.inst.cls)
        for k in ('Xi', 'yi', 'models', 'cache_'):
            E.require('%s is not shared' % k, g[k] is not f[k])
        E.require('same space', g['space'] is o.sp)
        E.require('same acquisition function', g['acq_func'] == acq)
        E.require('same estimator', g['base_estimator_'] is f['base_estimator_'] or getattr(g['base_estimator_'], 'src', None) is f['base_estimator_'])
        E.require('same acquisition settings', g['acq_func_kwargs'] is f['acq_func_kwargs'] and g['acq_optimizer'] == f['acq_optimizer']
                  and g['acq_optimizer_kwargs'] is f['acq_optimizer_kwargs'])
        E.prove('same number of initial points requested', zint(g['n_initial_points_']) == N)
        E.prove('same model limit', zint(g['max_model_queue_size']) == o.limit) if queue == 'limit' else E.require('same model limit', g['max_model_queue_size'] is None)
        E.prove('same portfolio rate', zreal(g['eta']) == o.eta)
        E.require('same design', g['_initial_samples'] is f['_initial_samples'])
        E.require('own generator', isinstance(g['rng'], RngObj) and g['rng'] is not f['rng'] and g['rng'].src == ('seed', rs))
        if acq == 'gp_hedge':
            G = E.to_arr(g['gains_'])
            E.require('credits are copied, not shared', G is not f['gains_'])
            for i in range(3):
                E.prove('credit %d' % i, zreal(G.v.at(i)) == o.G[i])
        if hist:
            E.require('the record is reported to the copy once', len(calls) == 1)
            a, k = calls[0]
            E.require('to the copy', a[0] is cp)
            E.require('all of it, fitted', a[1] is f['Xi'] and a[2] is f['yi'] and len(a) == 3 and not k)
            E.prove('nothing was observed by the copy before', zint(g['_n_initial_points']) == N)
        else:
            E.require('nothing to report', not calls)
    return c


CONTRACTS = []
for acq in ('EI', 'EIps'):
    for s in ('cl_min', 'cl_mean', 'cl_max'):
        for c_ in ('none', 'same', 'other'):
            CONTRACTS.append(('ask %s %s, cache: %s' % (acq, s, c_), ask(acq, s, c_)))
CONTRACTS += [('unknown strategy', bad_strategy), ('counts that are no integers', bad_count)]
for acq in ('EI', 'gp_hedge', 'EIps'):
    for shape in ('point', 'batch'):
        CONTRACTS.append(('report discards the batch: %s %s' % (acq, shape), discard(acq, shape)))
    for design in (False, True):
        for hist in (False, True):
            CONTRACTS.append(('copy %s%s%s' % (acq, ', design' if design else '', ', history' if hist else ''), copy(acq, design, 'limit' if hist else 'none', hist)))
