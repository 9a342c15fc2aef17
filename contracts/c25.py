"""C25: a fixed seed makes an optimization fully reproducible."""
from .opt import *
from pvc.lib import RngObj, OpaqueObj
from .c07 import exc_is
from .c16 import SOURCES                                                  # noqa: E402,F401  (kernel classes from scikit-learn's source)

NOTE = ('effect contracts: the functions of the optimizer, the samplers, the spaces, the surrogates and the minimizers are run symbolically (for all spaces, histories, settings: the scenes of their own contracts) '
        'while every use of something outside their arguments is recorded: global random state, unseeded generators, the clock, the order of a set. None is found on any path, and every random draw is made '
        'from the generator given or from one seeded by a number computed from it; with all else being functions of the arguments, equal seeds give equal results. Every surrogate made from a name is seeded '
        'from the given generator, which is kept (the same object), not reseeded')
ASSUME = ['scikit-learn estimators, scipy and numpy compute functions of their arguments once their random_state is set', 'the objective and user-supplied estimators, callbacks and generators are deterministic',
          'a language construct outside the interpreted subset fails the check rather than passing it']
ORACLE_S = 30

UNSEEDED = ('global', 'os entropy')


def settled(E, clock=False):
    """nothing but the arguments was used"""
    a = E.ghost.get('ambient', [])
    E.require('nothing ambient is used', not a, '; '.join(map(str, a)))
    if not clock:
        E.require('no clock is read', not E.ghost.get('time'))
    for src, what in E.ghost.get('draws', []):
        E.require('every draw is from the given generator or one seeded from it', src not in UNSEEDED and src is not None, '%s from %r' % (what, src))


def effects(fn, clock=False):
    """the scenes of another property's contract, judged by what they use"""
    def c(E):
        E.muted = True
        try:
            fn(E)
        finally:
            E.muted = False
        settled(E, clock)
    return c


def reuse(mod, want):
    import importlib
    m = importlib.import_module('contracts.' + mod)
    return [('%s: %s' % (mod.upper(), n), effects(f)) for n, f in m.CONTRACTS if want(n)]


# ---------------------------------------------------------------- seeding
class Model(NatObj):
    """a surrogate being configured"""
    tyname = 'sklearn.base.BaseEstimator'

    def __init__(self, kind, kw):
        NatObj.__init__(self)
        self.f['kind'], self.f['p'] = kind, dict(kw)

    def py_subst(self, E, sub):
        return self

    def py_getattr(self, E, name):
        if name == 'set_params':
            def f(E, a, k):
                self.f['p'] = dict(self.f['p'], **k)
                return self
            return Native('set_params', f)
        if name == 'get_params':
            return Native('get_params', lambda E, a, k: E.kwdict(self.f['p']))
        if name == 'n_jobs':
            if self.f['kind'] == 'GP':
                E.raise_('AttributeError', 'n_jobs')
            return self.f['p'].get('n_jobs', 1)
        raise Unsupported('estimator.' + name)


MADE = {'GP': 'skopt.learning.gaussian_process.gpr:GaussianProcessRegressor', 'RF': 'skopt.learning.forest:RandomForestRegressor', 'ET': 'skopt.learning.forest:ExtraTreesRegressor',
        'GBRT': 'skopt.learning.gbrt:GradientBoostingQuantileRegressor'}


def cook(kind, jobs):
    def c(E):
        for k, q in MADE.items():
            E.overrides[q] = lambda E, a, kw, k=k: Model(k, kw)
        E.natives['sklearn.ensemble.GradientBoostingRegressor'] = lambda E, a, k: Model('inner', k)
        E.natives['sklearn.base.is_regressor'] = lambda E, a, k: True
        sp = space_stub(E)
        seed = E.Int('seed')
        kw = dict(space=sp, random_state=seed)
        if jobs:
            kw['n_jobs'] = E.Int('n_jobs')
        name = kind
        kindr, r = outcome(E, lambda: E.call(E.resolve('skopt.utils:cook_estimator'), [name], kw))
        E.require('made', kindr == 'ok')
        if kind == 'DUMMY':
            E.require('no surrogate', r is None)
        else:
            r = E.force(r)
            E.require('the surrogate asked for', isinstance(r, Model) and r.f['kind'] == kind.upper())
            E.require('seeded as asked', r.f['p'].get('random_state') is seed)
        settled(E)
    return c


def space_stub(E):
    sp = OpaqueObj('space')
    D = E.Int('D')
    E.assume(D >= 1)
    sp.f['dimensions'] = OpaqueObj('dimensions')
    sp.f['transformed_n_dims'] = 3
    sp.f['is_categorical'] = E.Bool('only categories')
    E.overrides['skopt.space.space:Space'] = lambda E, a, k: sp
    E.overrides['skopt.utils:normalize_dimensions'] = lambda E, a, k: sp
    for k in ('ConstantKernel', 'HammingKernel', 'Matern'):
        E.overrides['skopt.learning.gaussian_process.kernels:' + k] = lambda E, a, kw: KObj()
    return sp


class KObj(NatObj):
    tyname = 'Kernel'

    def py_subst(self, E, sub):
        return self

    def py_binop(self, E, op, a, b):
        return KObj()


def optimizer_seed(kind, gen):
    """Optimizer(...): keeps the generator it is given, seeds the surrogate made from a name and the initial design from it"""
    def c(E):
        D = E.Int('D')
        E.assume(D >= 1)
        sp, MEM = mem_space(E, D)
        N = E.Int('N')
        E.assume(N >= 0)
        rng = RngObj('given')
        cooked, made = [], []

        def cook_(E, a, k):
            cooked.append((a, k))
            return None if kind == 'dummy' else Est('made')
        E.overrides['skopt.utils:cook_estimator'] = cook_
        G = None
        if gen:
            G = OpaqueObj('generator')

            def generate(E, a, k):
                made.append(k.get('random_state', a[2] if len(a) > 2 else None))
                return PList(Seq(n=a[1], get=lambda i: z3.Function('DESIGN', I, U)(zint(i))))
            G.f['generate'] = Native('generate', generate)
        E.overrides['skopt.utils:cook_initial_point_generator'] = lambda E, a, k: G
        E.overrides['skopt.utils:normalize_dimensions'] = lambda E, a, k: sp
        E.overrides[SPACE + 'Space'] = lambda E, a, k: sp
        E.overrides[SPQ + 'get_transformer'] = lambda E, a, k: PList()
        E.overrides[SPQ + 'set_transformer'] = lambda E, a, k: None
        E.overrides['skopt.utils:has_gradients'] = lambda E, a, k: False
        E.natives['sklearn.base.is_regressor'] = lambda E, a, k: True
        kd, o = outcome(E, lambda: E.call(E.resolve(OPT + 'Optimizer'), [sp], dict(base_estimator=kind, n_initial_points=N, acq_func='EI', acq_optimizer='sampling',
                                                                                  initial_point_generator='x', random_state=rng)))
        E.require('an optimizer', kd == 'ok')
        E.require('the generator given is kept, not reseeded', o.f['rng'] is rng)
        E.require('the surrogate is made once', len(cooked) == 1)
        seed = cooked[0][1].get('random_state')
        seeds = [seed] + made
        E.require('the surrogate and the design are seeded', all(x is not None for x in seeds) and (len(made) == 1 if gen else not made))
        E.require('by draws from the given generator', len([d for d in E.ghost.get('draws', []) if d[0] == 'given']) >= len([x for x in seeds if x is not rng]))
        E.require('that are different draws', all(x is rng or not any(x is y for y in seeds[:i]) for i, x in enumerate(seeds)))
        settled(E)
    return c


def minimizer_seed(qual, given):
    def c(E):
        from .c11 import recorder, point_hooks
        calls, out = recorder(E)
        point_hooks(E)
        cooked = []

        def cook_(E, a, k):
            cooked.append(k)
            return OpaqueObj('estimator')
        E.overrides['skopt.utils:cook_estimator'] = cook_
        E.overrides['skopt.utils:normalize_dimensions'] = lambda E, a, k: OpaqueObj('space')
        seed = RngObj('given') if given else E.Int('seed')
        kw = dict(n_calls=E.Int('n_calls'), random_state=seed)
        E.assume(kw['n_calls'] >= 1)
        E.call(E.resolve(qual), [OpaqueObj('func'), OpaqueObj('dims')], kw)
        E.require('one search is run', len(calls) == 1)
        r = E.force(calls[0].get('random_state'))
        E.require('with the seed or generator given', r is seed or isinstance(r, RngObj) and r.src == ('seed', seed))
        for k in cooked:
            x = E.force(k.get('random_state'))
            E.require('the surrogate made here is seeded', x is not None and (not isinstance(x, RngObj) or x is seed or x.src == ('seed', seed)))
        settled(E)
    return c


def base_seed(given):
    """base_minimize gives its seed or generator to the optimizer"""
    def c(E):
        from . import c11
        seen = []
        old = c11.OptStub
        E.muted = True
        h = c11.harness(E, 'none', 'none')
        mk = E.overrides[OPT + 'Optimizer']

        def rec(E, a, k):
            seen.append(k.get('random_state'))
            return mk(E, a, k)
        E.overrides[OPT + 'Optimizer'] = rec
        seed = RngObj('given') if given else E.Int('seed')
        E.assume(z3.And(h.ninit >= 1, h.ncalls >= h.ninit))
        outcome(E, lambda: E.call(E.resolve(c11.BASE), [h.f, OpaqueObj('dims')], dict(base_estimator=OpaqueObj('estimator'), n_calls=h.ncalls, n_initial_points=h.ninit, callback=h.cb, random_state=seed)))
        E.muted = False
        E.require('one optimizer', len(seen) == 1)
        E.require('with the seed or generator given', seen[0] is seed)
        settled(E)
    return c




CONTRACTS = [('cook_estimator %s%s' % (k, ', jobs' if j else ''), cook(k, j)) for k in ('GP', 'gp', 'RF', 'ET', 'GBRT', 'DUMMY') for j in (False, True)]
CONTRACTS += [('Optimizer, surrogate %s%s' % (k, ', design' if g else ''), optimizer_seed(k, g)) for k in ('GP', 'ET', 'RF', 'GBRT', 'dummy') for g in (False, True)]
CONTRACTS += [('%s with a %s' % (q.split(':')[1], 'generator' if g else 'seed'), minimizer_seed(q, g)) for g in (True, False) for q in
              ('skopt.optimizer.gp:gp_minimize', 'skopt.optimizer.forest:forest_minimize', 'skopt.optimizer.gbrt:gbrt_minimize', 'skopt.optimizer.dummy:dummy_minimize')]
CONTRACTS += [('base_minimize with a %s' % ('generator' if g else 'seed'), base_seed(g)) for g in (True, False)]
for _m in ('c01', 'c02', 'c14', 'c15', 'c16'):
    CONTRACTS += reuse(_m, lambda n: 'refus' not in n)
CONTRACTS += reuse('c03', lambda n: n.startswith('draw') or n.startswith('Space.'))
CONTRACTS += reuse('c07', lambda n: True)
CONTRACTS += reuse('c09', lambda n: True)
CONTRACTS += reuse('c10', lambda n: True)
CONTRACTS += reuse('c11', lambda n: n.startswith('base') or n == 'Optimizer.run')
CONTRACTS += reuse('c17', lambda n: n.startswith('fit') or n.startswith('mean'))
CONTRACTS += reuse('c18', lambda n: 'refuses' not in n)
CONTRACTS += reuse('c19', lambda n: True)
CONTRACTS += reuse('c26', lambda n: n.startswith('expected'))
