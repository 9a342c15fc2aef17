"""C11: minimizers spend exactly the evaluation budget they were given (C12 shares the harness)."""
from .opt import *
from .c07 import exc_is

NOTE = ('base_minimize proved for every budget, every set of starting points and values and every callback behaviour: calls counted exactly, order and pairing of '
        'reports, refusals before the first call; every minimizer proved to hand the budget and starting data through')
ASSUME = ['the optimizer records what it is told (C05) and suggests points (C03, C07)', 'points are lists of scalars']
BASE = 'skopt.optimizer.base:base_minimize'


class OptStub(NatObj):
    """the optimizer of a run: after t reports, ask gives ASKED(t); reports are checked where they are made"""
    tyname = 'skopt.optimizer.optimizer.Optimizer'

    def __init__(self, h, a, k):
        NatObj.__init__(self)
        self.h = h
        self.f['told'] = 0          # reports of single points
        self.f['space'] = h.space
        self.args = (a, k)

    def py_subst(self, E, sub):
        return self

    def cnt(self, nm):
        v = self.f[nm]
        if isinstance(v, Poison):
            raise PoisonRead(v)
        return v

    def py_getattr(self, E, name):
        h = self.h
        if name in self.f:
            return self.cnt(name)
        if name == 'ask':
            return Native('ask', lambda E, a, k: h.ASKED(zint(self.cnt('told'))))
        if name == 'tell':
            return Native('tell', lambda E, a, k: self.tell(E, *a, **k))
        raise Unsupported('optimizer.' + name)

    def tell(self, E, x, y, fit=True):
        h = self.h
        E.require('every report is fitted', fit is True)
        if isinstance(x, PList):
            # the starting data
            E.require('starting data are reported once and first', 'start' not in self.f and self.cnt('told') == 0)
            E.setf(self, 'start', True)
            E.prove('all starting points', zint(E.length(x)) == zint(h.K))
            E.prove('all starting values', zint(E.length(y)) == zint(h.K))
            E.prove_forall('starting points in order', h.K, lambda i: E.eq(at(E, x, i), h.P0(i)))
            E.prove_forall('each with its value', h.K, lambda i: E.eq(at(E, y, i), h.V0(i)))
            return h.result(E, 0, start=True)
        t = self.cnt('told')
        E.prove('the suggested point is reported', E.eq(x, h.ASKED(zint(t))))
        E.prove('with the value the objective gave', E.eq(y, h.FUN(x)))
        E.setf(self, 'told', E.binop('+', t, 1))
        return h.result(E, E.binop('+', t, 1))


class Result(NatObj):
    tyname = 'OptimizeResult'

    def __init__(self, t, start=False):
        NatObj.__init__(self)
        self.t, self.start = t, start

    def py_subst(self, E, sub):
        r = Result(z3.substitute(zint(self.t), *sub) if is_z3(self.t) else self.t, self.start)
        r.f.update(self.f)
        return r

    def py_setattr(self, E, name, v):
        if name != 'specs':
            E.require('results are handed on as reported', False, name)

    def py_getattr(self, E, name):
        raise Unsupported('result.' + name)


class Counter(NatObj):
    tyname = 'function'
    is_callable = True

    def __init__(self, h):
        NatObj.__init__(self)
        self.h = h
        self.f['n'] = 0

    def py_subst(self, E, sub):
        return self

    def py_call(self, E, a, k):
        E.require('the objective gets one point', len(a) == 1 and not k)
        n = self.f['n']
        if isinstance(n, Poison):
            raise PoisonRead(n)
        E.setf(self, 'n', E.binop('+', n, 1))
        return self.h.FUN(a[0])


class H:
    pass


def harness(E, start, values, stop=True):
    """start: none | single | list ; values: none | given | scalar"""
    h = H()
    D = E.Int('D')
    E.assume(D >= 1)
    h.space = Inst(E.resolve(SPACE + 'Space'))
    E.overrides[SPQ + 'n_dims'] = lambda E, a, k: D
    h.D = D
    point_hooks(E)
    h.ASKED = z3.Function('ASKED', I, U)
    h.FUN = z3.Function('FUN', U, R)
    h.STOP = z3.Function('STOP', I, B)
    h.stop0 = E.Bool('stop_after_start')
    h.results = []
    X0, Y0 = z3.Function('X0', I, U), z3.Function('Y0', I, R)

    def result(E, t, start=False):
        r = Result(t, start)
        return r
    h.result = result
    h.opts = []

    def make(E, a, k):
        h.opts.append(OptStub(h, a, k))
        return h.opts[-1]
    E.overrides[OPT + 'Optimizer'] = make
    h.f = Counter(h)
    h.cb1, h.vcb, h.verbose = OpaqueObj('callback'), OpaqueObj('VerboseCallback'), False
    E.overrides['skopt.callbacks:VerboseCallback'] = lambda E, a, k: h.vcb
    h.cbs = PList([h.cb1])
    E.overrides['skopt.callbacks:check_callback'] = lambda E, a, k: h.cbs if a[0] is h.cb else E.require('the given callbacks', False)
    h.cb = OpaqueObj('callback')
    h.cbcalls = Counter(h)

    def cbs(E, a, k):
        l = E.force(a[0])
        E.require('the callbacks given, all of them', isinstance(l, PList) and E.length(l) == (2 if h.verbose else 1) and at(E, l, 0) is h.cb1
                  and (not h.verbose or at(E, l, 1) is h.vcb))
        r = E.force(a[1])
        E.require('with the result so far', isinstance(r, Result))
        n = h.cbcalls.f['n']
        if isinstance(n, Poison):
            raise PoisonRead(n)
        E.setf(h.cbcalls, 'n', E.binop('+', n, 1))
        o = h.opts[-1]
        if r.start:
            E.require('after the starting data', o.cnt('told') == 0)
            return h.stop0 if stop else False
        E.prove('the result of the latest report', zint(r.t) == zint(o.cnt('told')))
        return h.STOP(zint(r.t)) if stop else False
    E.overrides['skopt.utils:eval_callbacks'] = cbs
    h.ncalls, h.ninit = E.Int('n_calls'), E.Int('n_initial_points')
    h.x0, h.y0 = None, None
    h.K = 0
    h.evaluated = 0
    if start == 'list':
        h.K = E.Int('K')
        E.assume(h.K >= 1)
        h.P0 = lambda i: X0(zint(i))
        h.x0 = PList(Seq(n=h.K, get=lambda i: X0(zint(i))))
    elif start == 'single':
        h.K = 1
        p = E.fresh('x0', U)
        E.assume(LEN(p) >= 1)
        h.P0 = lambda i: p
        h.x0 = p
    elif start == 'empty':
        h.x0 = PList()
    h.ky = h.K
    if h.x0 is not None and start != 'empty':
        if values == 'given':
            h.ky = E.Int('KY')
            E.assume(h.ky >= 0)
            h.y0 = PList(Seq(n=h.ky, get=lambda i: Y0(zint(i))))
            h.V0 = lambda i: Y0(zint(i))
        elif values == 'scalar':
            h.ky = 1
            h.y0 = E.Real('y0')
            h.V0 = lambda i: h.y0
        else:
            h.V0 = lambda i: h.FUN(h.P0(i))
    return h


def run(start, values, verbose=False):
    def c(E):
        h = harness(E, start, values)
        h.verbose = verbose
        kind, v = outcome(E, lambda: E.call(E.resolve(BASE), [h.f, OpaqueObj('dimensions'), OpaqueObj('estimator')],
                                            dict(n_calls=h.ncalls, n_initial_points=h.ninit, x0=h.x0, y0=h.y0, callback=h.cb, verbose=verbose, acq_func='EI', acq_optimizer='sampling')))
        E.require('the list of callbacks passed in stays as it was', E.length(h.cbs) == 1 and at(E, h.cbs, 0) is h.cb1)
        K, ky = zint(h.K), zint(h.ky)
        q = z3.Int('dq!%d' % E.uid())
        need = z3.If(h.ninit > 0, h.ninit, z3.IntVal(0)) + (K if h.y0 is None else z3.If(ky == 0, K, z3.IntVal(0)))
        lens = z3.BoolVal(True) if start in ('none', 'empty') else z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < K), LEN(h.P0(q)) == h.D))
        good = z3.And(h.ncalls >= need, z3.Or(h.ninit > 0, K >= 1), lens, K == ky if h.y0 is not None else z3.BoolVal(True))
        if kind == 'raise':
            E.require('refused by an error', exc_is(v, 'ValueError', 'RuntimeError', 'AssertionError'))
            E.prove('only unusable budgets and starting data are refused', z3.Not(good))
            E.require('refused before the objective is called', h.f.f['n'] == 0)
            return
        E.prove('unusable budgets and starting data are refused', good)
        # evaluations before the loop: the starting points without values
        o = h.opts[-1]
        free = K if h.y0 is None else z3.IntVal(0)
        t = zint(o.f['told'])
        E.prove('one evaluation per report, and the starting points without values', zint(h.f.f['n']) == t + free)
        left = h.ncalls - free
        started = start in ('list', 'single')
        E.require('starting data are reported', ('start' in o.f) == started)
        # where the loop ends
        E.prove('never more than the budget', t <= z3.If(left >= 0, left, z3.IntVal(0)))
        if started and E.decide(h.stop0):
            E.prove('a stop after the starting data ends the run', t == 0)
        else:
            E.prove('the whole budget unless a callback stops', z3.Implies(t < left, z3.And(t >= 1, h.STOP(t))))
            E.prove_forall('no evaluation after a stop request', t - 1, lambda i: z3.Not(h.STOP(zint(i) + 1)))
        E.prove('callbacks invoked once after each report', zint(h.cbcalls.f['n']) == t + (1 if started else 0))
        if not E.feasible(z3.Or(t >= 1, z3.BoolVal(started))):
            return
        if not (started or E.decide(t >= 1)):
            return
        r = E.force(v)
        E.require('the result is returned', isinstance(r, Result))
        if r.start:
            E.prove('the latest result', t == 0)
        else:
            E.prove('the latest result', zint(r.t) == t)
    return c


CONTRACTS = [('base_minimize, starting points: %s, values: %s' % sv, run(*sv)) for sv in
             (('none', 'none'), ('list', 'none'), ('list', 'given'), ('list', 'scalar'), ('single', 'none'), ('single', 'scalar'), ('single', 'given'))]


class Result2(NatObj):
    tyname = 'OptimizeResult'


def recorder(E):
    """base_minimize replaced by a recorder of what it is handed"""
    import ast
    f = E.resolve(BASE)
    calls = []
    out = OpaqueObj('result')

    def fake(E, a, k):
        names = [x.arg for x in f.node.args.args]
        kw = dict(zip(names, a))
        kw.update(k)
        calls.append(kw)
        return out
    E.overrides[BASE] = fake
    return calls, out


PASS = ['n_calls', 'x0', 'y0', 'callback', 'n_initial_points', 'n_random_starts', 'model_queue_size', 'initial_point_generator', 'verbose', 'n_points', 'xi', 'kappa', 'acq_func', 'n_jobs']


def wrapper(qual, given_est, skip=()):
    def c(E):
        calls, out = recorder(E)
        point_hooks(E)
        rng = OpaqueObj('generator')
        E.natives['sklearn.utils.check_random_state'] = lambda E, a, k: RngObj('given')
        E.overrides['skopt.utils:cook_estimator'] = lambda E, a, k: OpaqueObj('estimator')
        sp = OpaqueObj('space')
        E.overrides['skopt.utils:normalize_dimensions'] = lambda E, a, k: sp
        func, dims = OpaqueObj('func'), OpaqueObj('dims')
        kw = {n: OpaqueObj(n) for n in PASS if n not in skip}
        kw['n_calls'] = E.Int('n_calls')
        kw['n_jobs'] = E.Int('n_jobs')
        kw['random_state'] = E.Int('seed')
        if 'skip_jobs' in skip:
            del kw['n_jobs']
        if given_est:
            kw['base_estimator'] = OpaqueObj('given estimator')
        r = E.call(E.resolve(qual), [func, dims], kw)
        E.require('one search is run', len(calls) == 1)
        c = calls[0]
        E.require('its result is returned', E.force(r) is out)
        E.require('on the objective given', E.force(c.get('func')) is func)
        E.require('on the dimensions given', c.get('dimensions') is dims or c.get('dimensions') is sp)
        for n in kw:
            if n in ('random_state', 'n_jobs'):
                continue
            if n == 'base_estimator':
                E.require('with the estimator given', c.get(n) is kw[n])
            elif is_z3(kw[n]):
                E.prove('%s is handed on' % n, zint(c.get(n)) == kw[n])
            else:
                E.require('%s is handed on' % n, c.get(n) is kw[n])
    return c


def dummy(start, values):
    def c(E):
        calls, out = recorder(E)
        h = harness(E, start, values, stop=False)
        func, dims, cb = OpaqueObj('func'), OpaqueObj('dims'), OpaqueObj('cb')
        n = h.ncalls
        r = E.call(E.resolve('skopt.optimizer.dummy:dummy_minimize'), [func, dims], dict(n_calls=n, x0=h.x0, y0=h.y0, callback=cb))
        E.require('one search is run', len(calls) == 1)
        c = calls[0]
        E.require('its result is returned', E.force(r) is out)
        E.require('objective, dimensions and callbacks', c['func'] is func and c['dimensions'] is dims and c['callback'] is cb)
        E.require('starting data', c.get('x0') is h.x0 and c.get('y0') is h.y0)
        E.prove('the budget', zint(c['n_calls']) == n)
        K = zint(h.K)
        free = K if h.x0 is not None and h.y0 is None else z3.IntVal(0)
        E.prove('only random points remain after the starting points', zint(c['n_initial_points']) == n - free)
    return c


def run_many(E):
    """Optimizer.run(func, n): exactly n rounds, each suggestion evaluated once and reported with its value"""
    h = harness(E, 'none', 'none')
    n = E.Int('n')
    o = Inst(E.resolve(OPT + 'Optimizer'))
    st = OptStub(h, [], {})
    h.opts.append(st)
    E.overrides[OPT + 'Optimizer.ask'] = lambda E, a, k: st.py_getattr(E, 'ask').fn(E, a[1:], k) if len(a) == 1 and not k else E.require('plain ask', False)
    E.overrides[OPT + 'Optimizer.tell'] = lambda E, a, k: st.tell(E, *a[1:], **k)
    res = Result2()
    E.overrides['skopt.utils:create_result'] = lambda E, a, k: res
    for nm in ('Xi', 'yi', 'space', 'rng', 'models', 'specs'):
        o.f[nm] = OpaqueObj(nm)
    r = E.call(E.resolve(OPT + 'Optimizer.run'), [o, h.f], dict(n_iter=n))
    cnt = z3.If(n > 0, n, z3.IntVal(0))
    E.prove('exactly the rounds asked for', zint(st.f['told']) == cnt)
    E.prove('one evaluation per round', zint(h.f.f['n']) == cnt)
    E.require('a result is returned', E.force(r) is res)


CONTRACTS += [('gp_minimize hands its settings on', wrapper('skopt.optimizer.gp:gp_minimize', False)),
              ('gp_minimize with an estimator', wrapper('skopt.optimizer.gp:gp_minimize', True)),
              ('forest_minimize hands its settings on', wrapper('skopt.optimizer.forest:forest_minimize', True)),
              ('gbrt_minimize hands its settings on', wrapper('skopt.optimizer.gbrt:gbrt_minimize', False)),
              ('gbrt_minimize with an estimator', wrapper('skopt.optimizer.gbrt:gbrt_minimize', True))] + \
             [('dummy_minimize, starting points: %s, values: %s' % sv, dummy(*sv)) for sv in
              (('none', 'none'), ('list', 'none'), ('list', 'given'), ('list', 'scalar'), ('single', 'none'), ('single', 'scalar'), ('single', 'given'))] + \
             [('Optimizer.run', run_many)]
