"""C07: the initial design is served completely before any model suggestion."""
from .opt import *

NOTE = ('counter invariant (owed = requested - observed) established by the constructor, kept by every report; every ask proved to serve the design point '
        'with that number, a random point, or the stored suggestion, and to write nothing')
ASSUME = ['the generated design has as many points as requested (C19)', 'points are lists of scalars']


def snap(v):
    if isinstance(v, PList):
        return id(v.f['seq'])
    if isinstance(v, PDict):
        return (tuple(v.f['d'].items()), v.f['sym'])
    return id(v.f['val'])


def state(o):
    return {k: ((v, snap(v)) if isinstance(v, (PList, PDict, ArrObj)) else v) for k, v in o.inst.f.items()}


def ask(design, est):
    """ask from an arbitrary reachable state"""
    def c(E):
        o = full_optimizer(E, 'EI', queue='none', est=est)
        f = o.inst.f
        N = f['n_initial_points_']
        E.assume(N >= 0)
        # the invariant: what is owed is what was requested minus what was observed
        E.assume(o.n0 == N - o.n)
        DES = z3.Function('DESIGN', I, U)
        if design:
            f['_initial_samples'] = PList(Seq(n=N, get=lambda i: DES(zint(i))))
        has = E.choose('a suggestion is stored')
        nx = E.fresh('next', U)
        if has:
            f['_next_x'] = nx
            E.assume(o.m >= 1)
            E.assume(LEN(nx) == o.D)
        else:
            E.assume(o.m == 0)
        E.assume(z3.Implies(o.m >= 1, o.n >= 1))
        before = state(o)
        kind, v = outcome(E, lambda: E.call(E.getattr(o.inst, 'ask'), [], {}))
        initial = E.decide(o.n < N)
        if initial or not est:
            E.require('initial points are always available', kind == 'ok')
            if design and initial:
                E.prove('the design point with the number of observations so far', E.eq(v, DES(o.n)))
            else:
                dr = E.ghost.get('drawn', [])
                E.require('one random point is drawn with the own generator', len(dr) == 1 and dr[0][0] is f['rng'])
                E.prove('the point drawn', E.eq(v, dr[0][2](0)))
        elif not has:
            E.require('no model, no suggestion', kind == 'raise' and exc_is(v, 'RuntimeError'))
        else:
            E.require('a suggestion is made', kind == 'ok')
            E.prove('the stored suggestion', E.eq(v, nx))
            E.require('no random draw in the model phase', not E.ghost.get('drawn') and not E.ghost.get('draws'))
            k2, v2 = outcome(E, lambda: E.call(E.getattr(o.inst, 'ask'), [], {}))
            E.require('asking again works', k2 == 'ok')
            E.prove('asking again gives the same', E.eq(v2, v))
        f2 = o.inst.f
        E.require('same fields', set(f2) == set(before))
        for k in f2:
            b = before[k]
            if isinstance(f2[k], (PList, PDict, ArrObj)):
                E.require('%s is untouched' % k, f2[k] is b[0] and snap(f2[k]) == b[1])
            else:
                E.require('%s is untouched' % k, f2[k] is b or (is_z3(b) and is_z3(f2[k]) and b.eq(f2[k])) or (not is_z3(b) and f2[k] == b))
    return c


def exc_is(e, *names):
    c = getattr(e, 'cls', None)
    n = getattr(c, 'path', getattr(c, 'name', ''))
    return any(n.endswith(x) for x in names)


def tell(acq, shape, est=True):
    """a report counts one per observation and fits exactly when nothing is owed any more"""
    def c(E):
        o = full_optimizer(E, acq, queue='none', est=est)
        f = o.inst.f
        x, y, k, px, py = told(E, o, shape)
        fit = E.Bool('fit')
        E.call(E.getattr(o.inst, '_tell'), [x, y, fit], {})
        owed = f['_n_initial_points']
        E.prove('one less owed per observation', zint(owed) == o.n0 - zint(k))
        nowfit = E.decide(z3.And(fit, o.n0 - zint(k) <= 0))
        if nowfit and est:
            E.require('the model is fitted at once', len(o.clones) == 1 and o.clones[0][1].f['fit'] is not None)
            E.require('and a suggestion is stored', '_next_x' in f)
        else:
            E.require('no model is fitted', not o.clones)
            E.require('no suggestion is stored', '_next_x' not in f)
    return c


def init(gen):
    def c(E):
        D = E.Int('D')
        E.assume(D >= 1)
        sp, MEM = mem_space(E, D)
        N = E.Int('N')
        made = []
        G = None
        if gen:
            G = OpaqueObj('generator')
            DES = z3.Function('DESIGN', I, U)

            def generate(E, a, k):
                made.append((a, k))
                return PList(Seq(n=a[1], get=lambda i: DES(zint(i))))
            G.f['generate'] = Native('generate', generate)
        seen = []
        E.overrides['skopt.utils:cook_initial_point_generator'] = lambda E, a, k: G
        E.overrides['skopt.utils:normalize_dimensions'] = lambda E, a, k: sp
        E.overrides[SPACE + 'Space'] = lambda E, a, k: sp
        E.overrides[SPQ + 'get_transformer'] = lambda E, a, k: PList()
        E.overrides[SPQ + 'set_transformer'] = lambda E, a, k: None
        E.overrides['skopt.utils:has_gradients'] = lambda E, a, k: False
        est = Est('given')
        E.natives['sklearn.base.is_regressor'] = lambda E, a, k: True
        kind, o = outcome(E, lambda: E.call(E.resolve(OPT + 'Optimizer'), [sp], dict(base_estimator=est, n_initial_points=N, acq_func='EI', acq_optimizer='sampling',
                                                                                   initial_point_generator='x', random_state=RngObj('own'))))
        if kind == 'raise':
            E.require('refused by ValueError', exc_is(o, 'ValueError'))
            E.prove('only negative numbers of initial points are refused', N < 0)
            return
        E.prove('negative numbers are refused', N >= 0)
        f = o.f
        E.prove('owed: all requested points', zint(f['_n_initial_points']) == N)
        E.prove('requested number is remembered', zint(f['n_initial_points_']) == N)
        E.prove('no points recorded', zint(E.length(f['Xi'])) == 0)
        E.prove('no values recorded', zint(E.length(f['yi'])) == 0)
        E.prove('no models', zint(E.length(f['models'])) == 0)
        if gen:
            E.require('the design is generated once', len(made) == 1)
            E.prove('with the requested number of points', zint(made[0][0][1]) == N)
            E.prove('and kept in order', zint(E.length(f['_initial_samples'])) == N)
            E.prove_forall('point by point', N, lambda i: E.eq(at(E, f['_initial_samples'], i), DES(zint(i))))
        else:
            E.require('no design is kept', f['_initial_samples'] is None)
        E.require('no suggestion yet', '_next_x' not in f)
    return c


CONTRACTS = [('ask %s%s' % ('generated design' if d else 'random design', '' if e else ', random search'), ask(d, e)) for d in (False, True) for e in (False, True)]
CONTRACTS += [('Optimizer() %s' % g, init(g)) for g in (True, False)]
for acq in ('EI', 'gp_hedge', 'EIps'):
    for shape in ('point', 'batch'):
        CONTRACTS.append(('_tell %s %s' % (acq, shape), tell(acq, shape)))
CONTRACTS.append(('_tell random search', tell('EI', 'batch', False)))
