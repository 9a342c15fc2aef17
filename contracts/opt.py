"""A symbolic optimizer in the middle of an arbitrary history, over an abstract space and estimator.

Points are opaque values (sort U); COORD(x, j) is coordinate j of x, LEN(x) their number."""
import pvc.engine  # noqa: F401
from pvc.lib import RngObj, OpaqueObj
from pvc.ops import *
from .common import *

COORD = z3.Function('COORD', U, I, U)
LEN = z3.Function('LEN', U, I)
OPT = 'skopt.optimizer.optimizer:'


def is_coord(v):
    return is_z3(v) and z3.is_app(v) and v.decl().name() == 'COORD'


def point_hooks(E):
    """points are lists of scalar coordinates"""
    E.rule_for(LEN, lambda x: LEN(x) >= 0)

    def isinst(E, v, t):
        n = t.path if isinstance(t, ExtV) else ''
        if n in ('builtins.list', 'collections.Iterable', 'collections.abc.Iterable'):
            return not is_coord(v)
        if n in ('builtins.tuple', 'builtins.dict', 'numpy.ndarray', 'numbers.Number', 'builtins.str'):
            return False
        raise Unsupported('isinstance(point, %s)' % n)
    E.u_isinstance = isinst
    E.u_seq = lambda E, v: Seq(n=LEN(v), get=lambda j: COORD(v, zint(j)))
    E.u_len = lambda E, v: LEN(v)
    E.u_getitem = lambda E, v, i: COORD(v, zint(i))
    E.u_truth = lambda E, v: LEN(v) > 0
    E.u_isnone = lambda E, v: False


class MemDim(NatObj):
    """dimension j of an arbitrary space: membership MEM(j, v)"""
    tyname = 'skopt.space.space.Dimension'

    def __init__(self, MEM, j):
        NatObj.__init__(self)
        self.MEM, self.j = MEM, j

    def py_subst(self, E, sub):
        return MemDim(self.MEM, z3.substitute(zint(self.j), *sub))

    def py_contains(self, E, v):
        return self.MEM(zint(self.j), v)

    def py_getattr(self, E, name):
        if name == 'bounds':
            return OpaqueStr()
        if name == 'size':
            return 1        # only used for the text of an error message
        raise Unsupported('dimension.' + name)


def mem_space(E, D):
    MEM = z3.Function('MEM', I, U, B)
    sp = Inst(E.resolve(SPACE + 'Space'))
    sp.f['dimensions'] = PList(Seq(n=D, get=lambda j: MemDim(MEM, j)))
    return sp, MEM


def outcome(E, fn):
    """('ok', value) or ('raise', exception)"""
    try:
        return 'ok', fn()
    except PyRaise as e:
        return 'raise', e.exc


def member_f(E, MEM, D, x):
    """x has one coordinate per dimension and each is inside (a quantified formula)"""
    q = z3.Int('mq!%d' % E.uid())
    return z3.And(LEN(x) == D, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < D), MEM(q, COORD(x, q)))))


class O:
    """record of a symbolic optimizer"""


def bare_optimizer(E, acq='EI', sp=None):
    """an Optimizer instance with an arbitrary recorded history and counters"""
    o = O()
    o.n, o.n0, o.m = E.Int('n_told'), E.Int('n_owed'), E.Int('n_models')
    E.assume(o.n >= 0)
    E.assume(o.m >= 0)
    o.XI = z3.Function('XI', I, U)
    o.YI, o.TI = z3.Function('YI', I, R), z3.Function('TI', I, R)
    o.ps = 'ps' in acq
    o.acq = acq
    inst = Inst(E.resolve(OPT + 'Optimizer'))
    f = inst.f
    f['acq_func'] = acq
    f['space'] = sp
    f['Xi'] = PList(Seq(n=o.n, get=lambda i: o.XI(zint(i))))
    f['yi'] = PList(Seq(n=o.n, get=(lambda i: (o.YI(zint(i)), o.TI(zint(i)))) if o.ps else (lambda i: o.YI(zint(i)))))
    f['_n_initial_points'] = o.n0
    f['models'] = PList(Seq(n=o.m, get=lambda i: z3.Function('MODEL', I, U)(zint(i))))
    f['cache_'] = PDict()
    f['specs'] = PDict()
    o.inst = inst
    return o


# ------------------------------------------------------------ the complete optimizer
SPQ = SPACE + 'Space.'
UTRUE = lambda *a: True


class Est(NatObj):
    """a regressor: clone() gives an unfitted one, fit records what it was given, predictions are arbitrary"""
    tyname = 'regressor'

    def __init__(self, name, ghost=None):
        NatObj.__init__(self)
        self.name = name
        self.f['fit'] = None

    def py_getattr(self, E, name):
        if name == 'fit':
            def fit(E, a, k):
                E.setf(self, 'fit', (E.to_arr(a[0]), snapshot(E, a[1]) if isinstance(a[1], PList) else a[1]))
                return self
            return Native('fit', fit)
        if name == 'predict':
            def predict(E, a, k):
                X = E.to_arr(a[0])
                if self.f['fit'] is None:
                    E.raise_('ValueError', 'not fitted')
                F = z3.Function('PRED!%d' % E.uid(), I, R)
                E.ghost.setdefault('pred', []).append((self, X, F))
                return E.arr((X.v.shape[0],), lambda i: F(zint(i)), 'f')
            return Native('predict', predict)
        raise Unsupported('estimator.' + name)

    def py_subst(self, E, sub):
        return self


def abs_methods(E, o, D, MEM):
    """summaries of Space's methods (their contracts are C01-C03 and C24)"""
    T = E.Int('T')
    E.assume(T >= 1)
    o.T = T
    o.LO, o.HI = z3.Function('LO', I, R), z3.Function('HI', I, R)
    E.rule_for(o.HI, lambda j: o.LO(j) <= o.HI(j))
    o.W = z3.Function('WARP', U, I, R)
    g = E.ghost

    def transform(E, a, k):
        s = E.to_seq(a[1])
        if not E.decide(zint(s.n) >= 1):
            E.raise_('ValueError', 'empty')
        g.setdefault('warped', []).append(a[1])
        return E.arr((s.n, T), lambda i, j: o.W(E.seq_at(s, i), zint(j)), 'f')

    def inverse(E, a, k):
        X = E.to_arr(a[1])
        f = z3.Function('UNWARP!%d' % E.uid(), I, U)
        g.setdefault('unwarped', []).append((X, f))
        return PList(Seq(n=X.v.shape[0], get=lambda i: f(zint(i))))

    def rvs(E, a, k):
        n = a[1] if len(a) > 1 else k.get('n_samples', 1)
        rng = a[2] if len(a) > 2 else k.get('random_state')
        rng = E.check_rng(rng)
        f = z3.Function('DRAWN!%d' % E.uid(), I, U)
        g.setdefault('drawn', []).append((rng, n, f))
        g.setdefault('draws', []).append((rng.src, 'rvs'))
        q = z3.Int('dq!%d' % E.uid())
        return PList(Seq(n=E.to_int(n), get=lambda i: f(zint(i))))

    def bounds(E, a, k):
        return PList(Seq(n=T, get=lambda j: (o.LO(zint(j)), o.HI(zint(j)))))

    def dist(E, a, k):
        DIST = z3.Function('DIST', U, U, R)
        return DIST(a[1], a[2])
    o.allcat = E.Bool('all_categorical')
    E.overrides.update({SPQ + 'transform': transform, SPQ + 'inverse_transform': inverse, SPQ + 'rvs': rvs, SPQ + 'transformed_bounds': bounds,
                        SPQ + 'distance': dist, SPQ + 'is_categorical': lambda E, a, k: o.allcat,
                        SPQ + 'transformed_n_dims': lambda E, a, k: T, SPQ + 'n_dims': lambda E, a, k: D})


def full_optimizer(E, acq='EI', acq_opt='sampling', queue='limit', est=True, asked=True):
    """an optimizer in an arbitrary state reachable from its constructor"""
    D = E.Int('D')
    E.assume(D >= 1)
    sp, MEM = mem_space(E, D)
    point_hooks(E)
    o = bare_optimizer(E, acq, sp)
    o.D, o.MEM, o.sp = D, MEM, sp
    abs_methods(E, o, D, MEM)
    f = o.inst.f
    f['rng'] = RngObj('own')
    o.base = f['base_estimator_'] = Est('base') if est else None
    o.clones = []

    def cl(E, v):
        e = Est('clone')
        o.clones.append((v, e))
        return e
    E.clone_hook = cl
    f['acq_optimizer'] = acq_opt
    o.np, o.nr = E.Int('n_points'), E.Int('n_restarts')
    E.assume(o.np >= 1)
    E.assume(o.nr >= 1)
    f['n_points'], f['n_restarts_optimizer'], f['n_jobs'] = o.np, o.nr, E.Int('n_jobs')
    o.limit = None
    if queue == 'limit':
        o.limit = E.Int('limit')
        E.assume(o.limit >= 1)
        E.assume(o.m <= o.limit)
    f['max_model_queue_size'] = o.limit
    o.eta = E.Real('eta')
    E.assume(o.eta > 0)
    f['eta'] = o.eta
    o.kwargs = f['acq_func_kwargs'] = OpaqueObj('acq_func_kwargs')
    f['acq_optimizer_kwargs'] = PDict()
    o.specs = f['specs'] = OpaqueObj('specs')
    f['_initial_samples'] = None
    f['_initial_point_generator'] = None
    f['n_initial_points_'] = E.Int('n_initial_points')
    f['cand_acq_funcs_'] = PList(['EI', 'LCB', 'PI'] if acq == 'gp_hedge' else [acq])
    if acq == 'gp_hedge':
        o.G = [E.Real('gain%d' % i) for i in range(3)]
        f['gains_'] = E.to_arr(PList(o.G))
        if asked:
            NX = z3.Function('NOMINEE', I, I, R)
            o.NX = NX
            f['next_xs_'] = PList([E.arr((o.T,), (lambda i: lambda j: NX(i, zint(j)))(i), 'f') for i in range(3)])
    # the acquisition function: arbitrary values per candidate row (its own contract is C14)
    o.acqs = []

    def acquisition(E, a, k):
        names = ['X', 'model', 'y_opt', 'acq_func', 'return_grad', 'acq_func_kwargs']
        v = dict(zip(names, a))
        v.update(k)
        X = E.to_arr(v['X'])
        F = z3.Function('ACQ!%d' % E.uid(), I, R)
        o.acqs.append((v, X, F))
        return E.arr((X.v.shape[0],), lambda i: F(zint(i)), 'f')
    E.overrides['skopt.acquisition:_gaussian_acquisition'] = acquisition
    return o


def told(E, o, shape):
    """what is told: a point or a batch of valid points with values"""
    if shape == 'point':
        x = E.fresh('x', U)
        E.assume(LEN(x) == o.D)
        y = (E.Real('val'), E.Real('dur')) if o.ps else E.Real('val')
        return x, y, 1, lambda i: x, lambda i: y
    k = E.Int('k')
    E.assume(k >= 1)
    PT, VAL, DUR = z3.Function('PT', I, U), z3.Function('VAL', I, R), z3.Function('DUR', I, R)
    E.rule_for(PT, lambda i: LEN(PT(i)) == o.D)
    x = PList(Seq(n=k, get=lambda i: PT(zint(i))))
    y = PList(Seq(n=k, get=(lambda i: (VAL(zint(i)), DUR(zint(i)))) if o.ps else (lambda i: VAL(zint(i)))))
    return x, y, k, lambda i: PT(zint(i)), (lambda i: (VAL(zint(i)), DUR(zint(i)))) if o.ps else (lambda i: VAL(zint(i)))


def snapshot(E, v):
    if isinstance(v, PList):
        return v.f['seq']
    return (dict(v.f['d']), v.f['sym'])


def pair(v):
    """(value, duration) of an entry that may be a tuple or a list"""
    if isinstance(v, PList):
        return tuple(v.f['seq'].items)
    return v


def history_grows(E, o, f, k, px, py, log=False):
    """Xi and yi are what they were followed by what was told"""
    Xi, yi = f['Xi'], f['yi']
    E.require('points kept in a list', isinstance(Xi, PList))
    E.require('values kept in a list', isinstance(yi, PList))
    nx, ny = E.length(Xi), E.length(yi)
    E.prove('one point more per observation', zint(nx) == o.n + zint(k))
    E.prove('one value more per observation', zint(ny) == o.n + zint(k))

    def same_y(a, b):
        if not o.ps:
            return E.eq(a, b)
        a, b = pair(E.force(a)), pair(b)
        return E.and_(E.eq(a[0], b[0]), E.eq(a[1], f_log(b[1]) if log else b[1]))
    E.prove_forall('earlier points stay', o.n, lambda i: E.eq(at(E, Xi, i), o.XI(zint(i))))
    E.prove_forall('earlier values stay', o.n, lambda i: E.and_(E.eq(at(E, yi, i), o.YI(zint(i)))) if not o.ps else
                   (lambda a: E.and_(E.eq(a[0], o.YI(zint(i))), E.eq(a[1], o.TI(zint(i)))))(pair(E.force(at(E, yi, i)))))
    E.prove_forall('new points in order', k, lambda i: E.eq(at(E, Xi, o.n + zint(i)), px(i)))
    E.prove_forall('new values with their points', k, lambda i: same_y(at(E, yi, o.n + zint(i)), py(i)))
