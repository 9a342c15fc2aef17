"""C26: expected minimum and partial dependence report the model itself."""
from .opt import *
from pvc.lib import OptRes
from pvc.vals import Native

NOTE = ('expected minimum: for spaces of any number of dimensions, any model and any outcome of the local searches, the point is within the bounds, whole where the dimension is, reported with '
        "the last model's own prediction there, no worse than at the best observed point; sampled variant: the best of its samples; partial dependence: each value is the mean over the samples with "
        'the chosen columns replaced and all others untouched (any number of dimensions, columns, samples and plotted values)')
ASSUME = ['a local search returns a point within the bounds it was given (scipy.optimize.minimize)', 'the model predicts one number for each row, depending on the row only',
          'transforming points is row by row (C02, C03)']
UQ = 'skopt.utils:'
PQ = 'skopt.plots:'
PREDR = z3.Function('PREDROW', U, R)     # what the last model predicts for the transform of a point
XC = z3.Function('XCOORD', U, I, R)
W = z3.Function('WARPED', U, I, R)


class NDim(NatObj):
    """dimension j: real or integer according to ISINT(j)"""
    tyname = 'skopt.space.space.Dimension'

    def __init__(self, s, j):
        NatObj.__init__(self)
        self.s, self.j = s, j

    def py_subst(self, E, sub):
        return NDim(self.s, z3.substitute(zint(self.j), *sub))

    def py_isinstance(self, E, cls):
        if isinstance(cls, ClassV):
            if cls.name == 'Integer':
                return self.s.ISINT(zint(self.j))
            if cls.name == 'Real':
                return z3.Not(self.s.ISINT(zint(self.j)))
            if cls.name == 'Categorical':
                return False
            return cls.name == 'Dimension'
        return False

    def py_getattr(self, E, name):
        if name == 'bounds':
            return (self.s.LO(zint(self.j)), self.s.HI(zint(self.j)))
        if name in ('low', 'high'):
            return (self.s.LO if name == 'low' else self.s.HI)(zint(self.j))
        if name == 'name':
            return OpaqueStr()
        raise Unsupported('dimension.' + name)


class LastModel(NatObj):
    """the last model: its prediction for a row is PREDROW(point the row is the transform of)"""
    tyname = 'regressor'

    def __init__(self, s, last):
        NatObj.__init__(self)
        self.s, self.last = s, last

    def py_subst(self, E, sub):
        return self

    def py_getattr(self, E, name):
        if name == 'predict':
            def predict(E, a, k):
                X = E.to_arr(a[0]).v
                E.require('the last model is asked', self.last)
                E.require('rows of transformed points', len(X.shape) == 2)
                i, j = E.Int('row'), E.Int('col')
                E.assume(z3.And(i >= 0, i < zint(X.shape[0]), j >= 0, j < self.s.T))
                E.prove('all transformed columns', zint(X.shape[1]) == self.s.T)
                p = lambda i: point_of(E, X.at(zint(i), 0))
                E.prove('the row of one point', zreal(X.at(i, j)) == W(p(i), j))
                return E.arr((X.shape[0],), lambda i: PREDR(p(i)), 'f')
            return Native('predict', predict)
        raise Unsupported('model.' + name)


def point_of(E, t):
    t = z3.simplify(zreal(t))
    if z3.is_app(t) and t.decl().name() == 'WARPED':
        return t.arg(0)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        return z3.If(t.arg(0), point_of(E, t.arg(1)), point_of(E, t.arg(2)))
    raise Unsupported('a row that is not the transform of a point')


def coords(E, p, D, get):
    """p is the point with coordinates get(j)"""
    j = z3.Int('cj!%d' % E.uid())
    v = zreal(E.force_num(get(j)))
    ctx = list(E.ctx)
    nm = p.decl().name()

    def rule(q, i):
        if q.decl().name() != nm:
            return []
        return [z3.Implies(z3.And(i >= 0, i < D), XC(q, i) == z3.substitute(v, (j, i), *list(zip(ctx, q.children()))))]
    E.rule_for(XC, rule)
    return p


def scene(E, categorical=False):
    s = O()
    s.D, s.T = E.Int('D'), E.Int('T')
    E.assume(s.D >= 1)
    E.assume(s.T >= 1)
    s.ISINT = z3.Function('ISINT', I, B)
    s.LO, s.HI = z3.Function('LO', I, R), z3.Function('HI', I, R)
    ILO, IHI = z3.Function('ILO', I, I), z3.Function('IHI', I, I)
    whole = lambda f: (lambda j: z3.And(s.LO(j) <= s.HI(j), z3.Implies(s.ISINT(j), z3.And(s.LO(j) == z3.ToReal(ILO(j)), s.HI(j) == z3.ToReal(IHI(j))))))
    E.rule_for(s.LO, whole(s.LO))
    E.rule_for(s.HI, whole(s.HI))
    sp = Inst(E.resolve(SPACE + 'Space'))
    sp.f['dimensions'] = PList(Seq(n=s.D, get=lambda j: NDim(s, zint(j))))
    s.rows = []

    def transform(E, a, k):
        X = E.force(a[1])
        if isinstance(X, ArrObj):
            A = X.v
            E.require('rows of points', len(A.shape) == 2)
            n, width, get = A.shape[0], A.shape[1], lambda i, j: A.at(i, j)
            one = isinstance(n, int) and n == 1
            if not one:
                raise Unsupported('a matrix of several points')
            E.prove('one value per dimension', zint(width) == s.D)
            p = E.fresh('point', U)
            coords(E, p, s.D, lambda j: get(0, j))
            s.rows.append(p)
            return E.arr((1, s.T), lambda i, j: W(p, zint(j)), 'f')
        q = E.to_seq(X)
        return E.arr((q.n, s.T), lambda i, j: W(u_point(E, E.seq_at(q, i)), zint(j)), 'f')

    def u_point(E, v):
        v = E.force(v)
        if is_u(v):
            return v
        raise Unsupported('transform of %r' % (v,))

    def rvs(E, a, k):
        n = a[1] if len(a) > 1 else k.get('n_samples', 1)
        s.drawn = z3.Function('SAMPLE!%d' % E.uid(), I, U)
        s.ndrawn = E.to_int(n)
        s.rng = (a[2] if len(a) > 2 else k.get('random_state'))
        return PList(Seq(n=s.ndrawn, get=lambda i: s.drawn(zint(i))))
    # sampled points are members (C01); integer coordinates are whole
    E.rule_for(XC, lambda p, j: z3.Implies(z3.And(z3.BoolVal(p.decl().name().startswith('SAMPLE')), j >= 0, j < s.D), inside(s, j, XC(p, j))))
    E.u_seq = lambda E, v: Seq(n=s.D, get=lambda j: XC(v, zint(j)))
    E.u_len = lambda E, v: s.D
    E.u_getitem = lambda E, v, i: XC(v, zint(i))
    E.u_isinstance = lambda E, v, t: getattr(t, 'path', '') == 'builtins.list'
    E.overrides.update({SPQ + 'transform': transform, SPQ + 'rvs': rvs, SPQ + 'n_dims': lambda E, a, k: s.D,
                        SPQ + 'is_partly_categorical': lambda E, a, k: categorical, SPQ + 'is_categorical': lambda E, a, k: False,
                        SPQ + 'bounds': lambda E, a, k: PList(Seq(n=s.D, get=lambda j: (s.LO(zint(j)), s.HI(zint(j)))))})
    s.X0 = z3.Function('BESTX', I, R)
    E.rule_for(s.X0, lambda j: z3.Implies(z3.And(j >= 0, j < s.D), inside(s, j, s.X0(j))))
    m = E.Int('n_models')
    E.assume(m >= 1)
    last = LastModel(s, True)

    def model(i):
        c = z3.simplify(zint(i) == m - 1)
        return last if z3.is_true(c) or E.implied(c) else LastModel(s, False)
    s.x0 = PList(Seq(n=s.D, get=lambda j: s.X0(zint(j))))
    s.res = OptRes()
    s.res.f['d'] = {'x': s.x0, 'space': sp, 'models': PList(Seq(n=m, get=model)), 'fun': E.Real('fun')}
    s.sp = sp
    return s


def inside(s, j, v):
    return z3.And(s.LO(j) <= v, v <= s.HI(j), z3.Implies(s.ISINT(j), z3.IsInt(v)))


def extensional(E, s, p):
    """two points with the same coordinates are the same point: p against every point transformed"""
    DIFF = z3.Function('DIFF!%d' % E.uid(), U, I)

    def ext(q):
        d = DIFF(q)
        return z3.Or(p == q, z3.And(d >= 0, d < s.D, XC(p, d) != XC(q, d)))
    for r in s.rows:
        if z3.is_const(r):
            E.assume(ext(r))
        else:
            E.rule_for(r.decl(), lambda *ks, f=r.decl(): ext(f(*ks)))


def minimum(nstart):
    def c(E):
        s = scene(E)
        MX = z3.Function('LOCAL', I, I, R)
        E.rule_for(MX, lambda k, j: z3.Implies(z3.And(j >= 0, j < s.D), z3.And(s.LO(j) <= MX(k, j), MX(k, j) <= s.HI(j))))
        s.searches = 0

        def minimize(E, a, k):
            v = dict(zip(['fun', 'x0', 'args', 'jac'], a))
            v.update(k)
            s.searches += 1
            E.require('searches are bounded', v.get('bounds') is not None)
            bd = v['bounds']
            E.prove('one bound per dimension', zint(E.length(bd)) == s.D)
            E.prove_forall('the bounds of the space', s.D,
                           lambda j: (lambda b: E.and_(E.eq(b[0], s.LO(zint(j))), E.eq(b[1], s.HI(zint(j)))))(pair(E.force(at(E, bd, j)))))
            kk = E.ctx[-1] if E.ctx else z3.IntVal(0)
            r = OptRes()
            x = E.arr((s.D,), lambda j: MX(kk, zint(j)), 'f')
            f = E.call(v['fun'], [x], {})
            r.f['d'] = {'x': x, 'fun': f, 'success': E.Bool('converged')}
            return r
        E.natives['scipy.optimize.minimize'] = minimize
        n = {'none': 0, 'some': E.Int('n_random_starts')}[nstart]
        if nstart == 'some':
            E.assume(n >= 1)
        x, fun = pair(E.force(E.call(E.resolve(UQ + 'expected_minimum'), [s.res], dict(n_random_starts=n, random_state=E.Int('seed')))))
        xs = E.to_seq(E.force(x))
        E.prove('one coordinate per dimension', zint(xs.n) == s.D)
        j = E.Int('j')
        E.assume(z3.And(j >= 0, j < s.D))
        v = zreal(E.force_num((E.seq_at(xs, j))))
        v = z3.simplify(z3.substitute(v, (s.ISINT(j), z3.BoolVal(E.decide(s.ISINT(j))))))
        E.prove('not below the bounds', s.LO(j) <= v)
        E.prove('not above the bounds', v <= s.HI(j))
        E.prove('whole where the dimension is', z3.Implies(s.ISINT(j), z3.IsInt(v)))
        p = coords(E, E.fresh('returned', U), s.D, lambda j: E.seq_at(xs, j))
        p0 = coords(E, E.fresh('observed', U), s.D, lambda j: s.X0(j))
        extensional(E, s, p)
        extensional(E, s, p0)
        fun = zreal(E.force_num((fun)))
        E.prove("the model's own prediction there", fun == PREDR(p))
        E.prove('no worse than at the best observed point', fun <= PREDR(p0))
        E.prove('the best observed point is left alone', s.res.f['d']['x'] is s.x0 and zint(E.length(s.x0)) == s.D)
    return c


def categories(E):
    s = scene(E, categorical=True)
    seen = []

    def sampled(E, a, k):
        v = dict(zip(['res', 'n_random_starts', 'random_state'], a))
        v.update(k)
        seen.append(v)
        return ('x', 'y')
    E.overrides[UQ + 'expected_minimum_random_sampling'] = sampled
    seed = E.Int('seed')
    r = E.force(E.call(E.resolve(UQ + 'expected_minimum'), [s.res], dict(n_random_starts=E.Int('n'), random_state=seed)))
    E.require('the sampled variant decides', len(seen) == 1 and r == ('x', 'y'))
    E.require('on this result', seen[0]['res'] is s.res)
    E.prove('with 100000 samples', E.eq(seen[0].get('n_random_starts', 100000), 100000))
    E.require('and the same seed', seen[0].get('random_state') is seed)


def sampling(E):
    s = scene(E, categorical=True)
    n, seed = E.Int('n'), E.Int('seed')
    E.assume(n >= 1)
    x, fun = pair(E.force(E.call(E.resolve(UQ + 'expected_minimum_random_sampling'), [s.res], dict(n_random_starts=n, random_state=seed))))
    E.prove('as many samples as asked for', zint(s.ndrawn) == n)
    E.require('drawn with the given seed', s.rng is seed)
    x = E.force(x)
    E.require('a sample', is_u(x))
    fun = zreal(E.force_num((fun)))
    E.prove("the model's own prediction there", fun == PREDR(x))
    E.prove_forall('no sample is predicted lower', n, lambda i: fun <= PREDR(s.drawn(zint(i))))
    w = z3.Int('which')
    E.prove('one of the samples', z3.Exists([w], z3.And(w >= 0, w < n, x == s.drawn(w))))


# ------------------------------------------------------------ partial dependence
class PDim(NatObj):
    tyname = 'skopt.space.space.Dimension'

    def __init__(self, s, j):
        NatObj.__init__(self)
        self.s, self.j = s, j

    def py_subst(self, E, sub):
        return PDim(self.s, z3.substitute(zint(self.j), *sub))

    def py_getattr(self, E, name):
        if name == 'transformed_size':
            return self.s.TS(zint(self.j))
        raise Unsupported('dimension.' + name)


def pd_scene(E, wide, ints, two):
    """wide: which of the two dimensions takes several columns; ints: the samples are whole numbers"""
    s = O()
    s.D, s.S, s.P = E.Int('D'), E.Int('n_samples'), E.Int('n_points')
    E.assume(z3.And(s.D >= 1, s.S >= 1))
    s.TS = z3.Function('TSIZE', I, I)
    E.rule_for(s.TS, lambda j: s.TS(j) >= 1)
    s.sp = Inst(E.resolve(SPACE + 'Space'))
    s.sp.f['dimensions'] = PList(Seq(n=s.D, get=lambda j: PDim(s, zint(j))))
    s.i, s.j = E.Int('i'), E.Int('j')
    E.assume(z3.And(s.i >= 0, s.i < s.D))
    if two:
        E.assume(z3.And(s.j >= 0, s.j < s.D, s.i != s.j))
    k = z3.Int('ts')
    off, _ = E.offsets(k, s.TS(k), s.D)     # column at which the block of a dimension starts
    s.START = lambda q: off(q)
    s.M = off(s.D)
    s.SMP = z3.Function('SAMPLES', I, I, I if ints else R)
    s.samples = E.arr((s.S, s.M), lambda a, b: s.SMP(zint(a), zint(b)), 'i' if ints else 'f')
    s.wide = wide
    s.N, s.XI, s.XT = {}, {}, {}
    s.asked = []

    def sample(E, a, kw):
        d, npt = (list(a) + [kw.get('n_points')])[:2]
        t = 'i' if (not two or E.implied(zint(d.j) == s.i)) else 'j'
        E.prove('a plotted dimension', zint(d.j) == (s.i if t == 'i' else s.j))
        E.prove('with the given number of points', zint(npt) == s.P)
        s.N[t] = n = E.Int('n_' + t)
        E.assume(n >= 1)
        s.XI[t], s.XT[t] = z3.Function('XI_' + t, I, R), z3.Function('XT_' + t, I, I, R)
        if t in s.wide:
            xt = E.arr((n, s.TS(s.i if t == 'i' else s.j)), lambda p, c: s.XT[t](zint(p), zint(c)), 'f')
        else:
            E.assume(s.TS(s.i if t == 'i' else s.j) == 1)
            xt = E.arr((n,), lambda p: s.XT[t](zint(p), z3.IntVal(0)), 'f')
        xi = E.arr((n,), lambda p: s.XI[t](zint(p)), 'f')
        s.asked.append((t, xi))
        return (xi, xt)
    E.overrides[PQ + '_evenly_sample'] = sample
    s.OUT = z3.Function('MODEL', I, I, I, R)     # row sample, plotted value(s)
    s.calls = 0

    def predict(E, a, kw):
        X = E.to_arr(a[0]).v
        s.calls += 1
        E.require('a matrix', len(X.shape) == 2)
        E.prove('one row per sample', zint(X.shape[0]) == s.S)
        E.prove('all columns', zint(X.shape[1]) == s.M)
        ctx = list(E.ctx)
        E.require('once for every plotted value', len(ctx) == (2 if two else 1))
        # outer loop: rows of the table (dimension i), inner: columns (dimension j)
        at_ = {'i': ctx[0], 'j': ctx[-1]}
        r, c = E.Int('row'), E.Int('col')
        E.assume(z3.And(r >= 0, r < s.S, c >= 0, c < s.M))
        got = zreal(X.at(r, c))
        blocks = []
        for t, dim in (('i', s.i), ('j', s.j))[:2 if two else 1]:
            lo = s.START(dim)
            hi = lo + s.TS(dim)
            blocks.append(z3.And(lo <= c, c < hi))
            off = c - lo if t in s.wide else z3.IntVal(0)
            E.prove('columns of the %s plotted dimension hold the plotted value' % ('first', 'second')[t == 'j'], z3.Implies(blocks[-1], got == s.XT[t](at_[t], off)))
        E.prove('all other columns are the sample', z3.Implies(z3.Not(z3.Or(blocks)), got == zreal(s.SMP(r, c))))
        u, v = at_['i'], at_['j'] if two else z3.IntVal(0)
        return E.arr((s.S,), lambda r: s.OUT(zint(r), u, v), 'f')
    m = NatObj()
    m.tyname = 'regressor'
    m.py_getattr = lambda E, name: Native('predict', predict)
    m.py_subst = lambda E, sub: m
    s.model = m
    return s


def one_d(wide, ints):
    def c(E):
        s = pd_scene(E, wide, ints, False)
        r = pair(E.force(E.call(E.resolve(PQ + 'partial_dependence_1D'), [s.sp, s.model, s.i, s.samples, s.P], {})))
        xi, yi = r
        E.require('the plotted values are reported', xi is s.asked[0][1])
        E.prove('one value per plotted value', zint(E.length(yi)) == s.N['i'])
        q = z3.Int('sr')
        E.prove_forall('mean over the samples', s.N['i'], lambda p: zreal(at(E, yi, p)) * zreal(s.S) == E.sum_term(s.S, q, s.OUT(q, zint(p), z3.IntVal(0))))
        unchanged(E, s)
    return c


def unchanged(E, s):
    a, b = E.Int('a'), E.Int('b')
    E.prove('the samples are left alone', z3.Implies(z3.And(a >= 0, a < s.S, b >= 0, b < s.M), zreal(s.samples.v.at(a, b)) == zreal(s.SMP(a, b))))
    E.require('the model is asked', s.calls >= 1)


def two_d(wide, ints):
    def c(E):
        s = pd_scene(E, wide, ints, True)
        xi, yi, zi = E.items_of(E.force(E.call(E.resolve(PQ + 'partial_dependence_2D'), [s.sp, s.model, s.i, s.j, s.samples, s.P], {})))
        ax = dict((t, x) for t, x in s.asked)
        E.require('the horizontal axis is dimension j', xi is ax['j'])
        E.require('the vertical axis is dimension i', yi is ax['i'])
        Z = E.to_arr(zi).v
        E.require('a table', len(Z.shape) == 2)
        E.prove('one row per vertical value', zint(Z.shape[0]) == s.N['i'])
        E.prove('one column per horizontal value', zint(Z.shape[1]) == s.N['j'])
        q = z3.Int('sr')
        u = E.Int('u')
        E.assume(z3.And(u >= 0, u < s.N['i']))
        E.prove_forall('mean over the samples', s.N['j'], lambda v: zreal(Z.at(u, v)) * zreal(s.S) == E.sum_term(s.S, q, s.OUT(q, u, zint(v))))
        unchanged(E, s)
    return c


def dispatch(src, two):
    """partial_dependence: which samples are averaged over"""
    def c(E):
        sp = Inst(E.resolve(SPACE + 'Space'))
        log = []

        def rec(nm):
            def f(E, a, k):
                log.append((nm, a, k))
                return nm
            return f
        pts = [E.Int('x') for _ in range(2)]
        xe = PList(list(pts))
        drawn = PList([PList([1, 2])])
        smp = NatObj()
        E.overrides.update({SPQ + 'rvs': lambda E, a, k: (log.append(('rvs', a, k)), drawn)[1],
                            SPQ + 'transform': lambda E, a, k: (log.append(('transform', a, k)), 'T')[1],
                            PQ + 'partial_dependence_1D': rec('1D'), PQ + 'partial_dependence_2D': rec('2D')})
        i, j, n, p = 0, 1, E.Int('n_samples'), E.Int('n_points')
        kw = dict(n_samples=n, n_points=p)
        if src in ('given', 'both'):
            kw['sample_points'] = smp
        if src in ('eval', 'both'):
            kw['x_eval'] = xe
        r = E.force(E.call(E.resolve(PQ + 'partial_dependence'), [sp, 'model', i] + ([j] if two else []), kw))
        nm, a, k = log[-1]
        E.require('the right variant', nm == r == ('2D' if two else '1D') and not k)
        want = [sp, 'model', i] + ([j] if two else []) + [smp if src in ('given', 'both') else 'T', p]
        E.require('its arguments', len(a) == len(want) and all(x is y or x == y for x, y in zip(a, want)))
        if src == 'random':
            E.require('random points, transformed', [l[0] for l in log[:-1]] == ['rvs', 'transform'] and log[1][1][1] is drawn)
            ns = log[0][2].get('n_samples', log[0][1][1] if len(log[0][1]) > 1 else 1)
            E.prove('as many as asked for', E.eq(ns, n))
        elif src == 'eval':
            E.require('the given point, transformed', [l[0] for l in log[:-1]] == ['transform'])
            b = E.items_of(log[0][1][1])
            E.require('one point', len(b) == 1 and E.force(b[0]) is xe)
        else:
            E.require('nothing else is sampled', len(log) == 1)
    return c


def evenly(kind, prior, transform, one=False):
    def c(E):
        P = 1 if one else E.Int('n_points')
        E.assume(P >= 2 if not one else True)
        if kind == 'Categorical':
            from .c01 import cats
            K, C = cats(E, I)
            d = E.call(E.resolve(SPACE + 'Categorical'), [PList(Seq(n=K, get=lambda i: C(zint(i))))], dict(transform=transform))
            E.assume(P <= 400)
        else:
            mk = real_dim if kind == 'Real' else int_dim
            d, lo, hi, _ = mk(E, prior, transform)
        seen = []

        def tr(E, a, k):
            seen.append(E.to_arr(a[1]))
            return 'T'
        cls = E.resolve(SPACE + kind)
        for c_ in cls.mro:
            if isinstance(c_, ClassV):
                E.overrides['%s:%s.transform' % (c_.mod.name if hasattr(c_, 'mod') else 'skopt.space.space', c_.name)] = tr
        xi, xt = pair(E.force(E.call(E.resolve(PQ + '_evenly_sample'), [d, P], {})))
        E.require('transformed by the dimension', xt == 'T' and len(seen) == 1)
        X, V = E.to_arr(xi).v, seen[0].v
        if kind == 'Categorical':
            n = z3.If(K <= P, K, zint(P))
            E.prove('as many as fit', zint(X.shape[0]) == n)
            E.prove_forall('positions of categories', n, lambda q: z3.And(zint(X.at(q)) >= 0, zint(X.at(q)) < K))
            E.prove('one value per position', zint(V.shape[0]) == n)
            E.prove_forall('the categories at these positions', n, lambda q: E.eq(V.at(q), C(zint(X.at(q)))))
            E.prove_forall('all categories in order when they fit', n, lambda q: z3.Implies(K <= P, zint(X.at(q)) == q))
            q = E.Int('q')
            E.prove('in order without repetition', z3.Implies(z3.And(q >= 0, q + 1 < n), zint(X.at(q)) < zint(X.at(q + 1))))
            return
        E.prove('the asked for number of values', zint(X.shape[0]) == zint(P))
        E.prove('the first is the lower bound', zreal(X.at(0)) == zreal(lo))
        if not one:
            E.prove('the last is the upper bound', zreal(X.at(P - 1)) == zreal(hi))
            E.prove_forall('evenly spaced', P, lambda q: zreal(X.at(q)) * (zreal(P) - 1) == zreal(lo) * (zreal(P) - 1) + zreal(q) * (zreal(hi) - zreal(lo)))
        E.prove('the same values are transformed', zint(V.shape[0]) == zint(P))
        E.prove_forall('the same values are transformed', P, lambda q: zreal(V.at(q)) == zreal(X.at(q)))
    return c


CONTRACTS = [('expected minimum, %s random starts' % s, minimum(s)) for s in ('none', 'some')]
CONTRACTS += [('expected minimum with categories', categories), ('expected minimum by sampling', sampling)]
CONTRACTS += [('partial dependence 1-D%s%s' % (', several columns' if w else '', ', whole-number samples' if z else ''), one_d(w, z)) for w in ('', 'i') for z in (False, True)]
CONTRACTS += [('partial dependence 2-D, wide: %s%s' % (w or 'none', ', whole-number samples' if z else ''), two_d(w, z)) for w in ('', 'i', 'j', 'ij') for z in (False, True)]
CONTRACTS += [('partial dependence %s, samples: %s' % ('2-D' if t else '1-D', s), dispatch(s, t)) for t in (False, True) for s in ('random', 'given', 'eval', 'both')]
CONTRACTS += [('plotted values of %s %s' % (k, p), evenly(k, p, 'identity')) for k in ('Real', 'Integer') for p in ('uniform', 'log-uniform')]
CONTRACTS += [('plotted values of Categorical', evenly('Categorical', None, 'onehot')), ('a single plotted value', evenly('Real', 'uniform', 'identity', True))]
