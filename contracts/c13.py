"""C13: the early-stopping rules decide by their documented criteria."""
from .opt import *
from .c07 import exc_is

NOTE = 'every rule proved against its criterion for every history length, all values and every parameter; durations recorded by the timers proved to be the elapsed clock times'
ASSUME = ['objective values are real numbers (no NaN)', 'the clock does not run backwards', 'numpy.sort arranges its input in ascending order; the distance is that of Space.distance (C24)']
CB = 'skopt.callbacks:'


def history(E):
    h = O()
    h.n = E.Int('n')
    E.assume(h.n >= 0)
    h.XI, h.V = z3.Function('XI', I, U), z3.Function('VAL', I, R)
    h.DIST = z3.Function('DIST', U, U, R)
    point_hooks(E)
    h.sp = Inst(E.resolve(SPACE + 'Space'))
    E.overrides[SPACE + 'Space.distance'] = lambda E, a, k: h.DIST(E.force(a[1]), E.force(a[2]))
    r = Inst(E.resolve('scipy.optimize.OptimizeResult')) if False else OpaqueObj('result')
    r.f.update(x_iters=PList(Seq(n=h.n, get=lambda i: h.XI(zint(i)))), func_vals=E.arr((h.n,), lambda i: h.V(zint(i)), 'f'), space=h.sp)
    h.res = r
    return h


def make(E, name, *a, **k):
    return E.call(E.resolve(CB + name), list(a), k)


def decide(E, rule, h):
    r = E.force(E.call(rule, [h.res], {}))
    if r is None:
        return None
    return E.truth(r)


def verdict(E, d, want, enough):
    """d: the decision; want: criterion; enough: there is enough history"""
    if d is None:
        E.prove('no opinion only without enough history', z3.Not(enough))
        return
    if d:
        E.prove('fires only on its criterion, with enough history', z3.And(enough, want))
    else:
        E.prove('stays quiet only off its criterion', z3.Implies(enough, z3.Not(want)))


def deltax(E):
    h = history(E)
    d = E.Real('delta')
    rule = make(E, 'DeltaXStopper', d)
    got = decide(E, rule, h)
    verdict(E, got, h.DIST(h.XI(h.n - 2), h.XI(h.n - 1)) < d, h.n >= 2)


def deltay(default):
    def c(E):
        h = history(E)
        d = E.Real('delta')
        if default:
            nb = z3.IntVal(5)
            rule = make(E, 'DeltaYStopper', d)
        else:
            nb = E.Int('n_best')
            E.assume(nb >= 1)
            rule = make(E, 'DeltaYStopper', d, n_best=nb)
        v = E.to_arr(h.res.f['func_vals']).v
        s = E.np_sort(h.res.f['func_vals']).v
        got = decide(E, rule, h)
        verdict(E, got, zreal(s.at(nb - 1)) - zreal(s.at(0)) < d, h.n >= nb)
    return c


def hollow(E):
    h = history(E)
    m, thr = E.Int('n_iterations'), E.Real('threshold')
    E.assume(m >= 0)
    rule = make(E, 'HollowIterationsStopper', m, threshold=thr)
    old, new, a, b = E.Real('best_before'), E.Real('best_now'), E.Int('a'), E.Int('b')
    if E.decide(h.n > m):
        q = z3.Int('q')
        E.assume(z3.And(a >= 0, a < h.n - m, old == h.V(a)))
        E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < h.n - m), h.V(q) >= old)))
        E.assume(z3.And(b >= 0, b < h.n, new == h.V(b)))
        E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < h.n), h.V(q) >= new)))
    got = decide(E, rule, h)
    verdict(E, got, old - new <= z3.If(thr >= 0, thr, -thr), h.n > m)


def threshold(E):
    h = history(E)
    thr = E.Real('threshold')
    rule = make(E, 'ThresholdStopper', thr)
    got = decide(E, rule, h)
    E.require('always has an opinion', got is not None)
    if got:
        q = z3.Int('q')
        E.prove('fires only when some value reached the threshold', z3.Exists([q], z3.And(q >= 0, q < h.n, h.V(q) <= thr)))
    else:
        E.prove_forall('stays quiet only above the threshold', h.n, lambda i: h.V(zint(i)) > thr)


def timed(E, name, *a):
    rule = make(E, name, *a)
    l = E.force(E.getattr(rule, 'iter_time'))
    E.require('no durations at first', isinstance(l, PList) and E.length(l) == 0)
    E.prove('the clock starts at construction', zreal(E.getattr(rule, '_time')) == zreal(E.ghost['lasttime']))
    m = E.Int('m')
    E.assume(m >= 0)
    IT = z3.Function('DURATION', I, R)
    rule.f['iter_time'] = PList(Seq(n=m, get=lambda i: IT(zint(i))))
    return rule, m, IT


def recorded(E, rule, m, IT, t0):
    l = E.getattr(rule, 'iter_time')
    E.prove('one more duration', zint(E.length(l)) == m + 1)
    E.prove_forall('earlier durations stay', m, lambda i: zreal(at(E, l, i)) == IT(zint(i)))
    d = zreal(at(E, l, m))
    E.prove('a duration is not negative', d >= 0)
    t1 = zreal(E.getattr(rule, '_time'))
    E.prove('the clock is restarted', z3.And(t1 >= t0 + d, t1 <= zreal(E.ghost['lasttime'])))
    if E.ghost.get('time') == 3:
        E.prove('the duration is the time since the last round', d == E.ghost['clocks'][1] - t0)
    return d


def deadline(E):
    h = history(E)
    total = E.Real('total_time')
    rule, m, IT = timed(E, 'DeadlineStopper', total)
    t0 = zreal(E.getattr(rule, '_time'))
    got = decide(E, rule, h)
    recorded(E, rule, m, IT, t0)
    l = E.getattr(rule, 'iter_time')
    used = zreal(E.np_sum(l))
    w = E.Int('longest')
    q = z3.Int('q')
    E.assume(z3.And(w >= 0, w <= m))
    E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q <= m), zreal(at(E, l, w)) >= zreal(at(E, l, q)))))
    verdict(E, got, total - used <= zreal(at(E, l, w)), h.n >= 1)


def timer(E):
    h = history(E)
    rule, m, IT = timed(E, 'TimerCallback')
    t0 = zreal(E.getattr(rule, '_time'))
    r = E.force(E.call(rule, [h.res], {}))
    E.require('a timer never asks to stop', r is None or r is False)
    recorded(E, rule, m, IT, t0)


def base_rule(E):
    h = history(E)
    rule = make(E, 'EarlyStopper')
    kind, v = outcome(E, lambda: E.call(rule, [h.res], {}))
    E.require('a rule without a criterion is refused', kind == 'raise' and exc_is(v, 'NotImplementedError'))


CONTRACTS = [('DeltaXStopper', deltax), ('DeltaYStopper', deltay(False)), ('DeltaYStopper, default number of best values', deltay(True)), ('HollowIterationsStopper', hollow),
             ('ThresholdStopper', threshold), ('DeadlineStopper', deadline), ('TimerCallback', timer), ('EarlyStopper', base_rule)]
