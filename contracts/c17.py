"""C17: Gaussian-process predictions are the posterior they claim to be."""
from .opt import *
from .c07 import exc_is
from .c15 import derive as _derive
from .sums import Normal
from pvc.solve import SQRT
from pvc import solve

NOTE = ('predict proved, for every number of queries, training points and dimensions and every combination of outputs, to return the posterior formulas built from the kernel, the training data '
        'and the inverse training covariance, and input gradients equal to the derivatives (by the rules of differentiation) of what it returns; fit proved to hand the noisy kernel to the '
        'underlying fit, to take the added noise out of the prediction kernel, and to store the inverse of the training covariance; the underlying scikit-learn fit and LAPACK routines by stated contract')
ASSUME = ['sklearn GaussianProcessRegressor.fit stores the training inputs, the lower Cholesky factor L_ of the noisy training covariance, alpha_ = its inverse applied to the normalised targets, '
          'the mean and scale of the targets, and a fitted copy of the kernel', 'cho_solve and solve_triangular solve the systems they are documented to solve',
          'the inverse of a covariance matrix is symmetric', 'kernel gradients are the derivatives of the kernel (C16); the prior variance of a stationary kernel is constant',
          'deviation gradients where the deviation exceeds 1e-8 (numpy.allclose to zero); exact arithmetic']
GQ = 'skopt.learning.gaussian_process.gpr:GaussianProcessRegressor'


class Kern(NatObj):
    """any kernel: covariances with the training points, between queries, the prior variances and input gradients"""
    def __init__(self, s):
        NatObj.__init__(self)
        self.s = s

    def py_subst(self, E, sub):
        return self

    def query(self, E, X, flat=False):
        s = self.s
        v = E.to_arr(X).v
        q, r = E.Int('q'), E.Int('r')
        E.require('the queries reach the kernel', len(v.shape) == (1 if flat else 2))
        E.prove('the kernel sees the queries', z3.And(zint(v.shape[-1]) == s.d, True if flat else zint(v.shape[0]) == s.m,
                                                       z3.Implies(z3.And(q >= 0, q < s.d, r >= 0, r < zint(s.m)), zreal(v.at(q) if flat else v.at(r, q)) == s.X(z3.IntVal(0) if flat else r, q))))

    def which(self, E, T):
        v = E.to_arr(T).v
        s = self.s
        q, r = E.Int('q'), E.Int('r')
        E.require('a matrix of points', len(v.shape) == 2)
        el = zreal(v.at(r, q))
        if E.implied(z3.Implies(z3.And(q >= 0, q < s.d, r >= 0, r < s.n), el == s.T(r, q))) and E.implied(zint(v.shape[0]) == s.n):
            return 'train'
        self.query(E, T)
        return 'query'

    def py_call(self, E, a, k):
        v = dict(zip(['X', 'Y'], a))
        v.update(k)
        s = self.s
        self.query(E, v['X'])
        if v.get('Y') is None or self.which(E, v['Y']) == 'query':
            return E.arr((s.m, s.m), lambda i, j: s.KXX(zint(i), zint(j)), 'f')
        return E.arr((s.m, s.n), lambda i, j: s.KT(zint(i), zint(j)), 'f')

    def py_getattr(self, E, name):
        s = self.s
        if name == 'diag':
            def dg(E, a, k):
                self.query(E, a[0])
                return E.arr((s.m,), lambda i: s.KD(zint(i)), 'f')
            return Native('diag', dg)
        if name == 'gradient_x':
            def g(E, a, k):
                v = dict(zip(['x', 'X_train'], a))
                v.update(k)
                self.query(E, v['x'], True)
                if self.which(E, v['X_train']) == 'train':
                    return E.arr((s.n, s.d), lambda i, j: s.G(zint(i), zint(j)), 'f')
                return E.arr((s.m, s.d), lambda i, j: s.G1(zint(j)), 'f')
            return Native('gradient_x', g)
        if name == 'is_stationary':
            return Native('is_stationary', lambda E, a, k: s.stationary)
        raise Unsupported('kernel.' + name)


def scene(E, one=False, fitted=True):
    s = O()
    s.d, s.n = E.Int('d'), E.Int('n')
    E.assume(z3.And(s.d >= 1, s.n >= 1))
    s.m = 1 if one else E.Int('m')
    if not one:
        E.assume(s.m >= 1)
    fn = lambda nm, *sorts: z3.Function(nm, *sorts)
    s.X, s.T = fn('X', I, I, R), fn('T', I, I, R)
    s.KT, s.KXX, s.KD = fn('KT', I, I, R), fn('KXX', I, I, R), fn('KD', I, R)
    s.G, s.G1 = fn('G', I, I, R), fn('G1', I, R)
    s.A, s.KI = fn('ALPHA', I, R), fn('KINV', I, I, R)
    s.stationary = E.Bool('stationary')
    s.S, s.M = E.Real('y_std'), E.Real('y_mean')
    E.assume(s.S > 0)
    s.kern = Kern(s)
    s.g = Inst(E.resolve(GQ))
    s.L = E.arr((s.n, s.n), lambda i, j: z3.Function('LCHOL', I, I, R)(zint(i), zint(j)), 'f')
    s.g.f.update(kernel=s.kern, alpha=1e-10, optimizer=None, noise=None, normalize_y=True, random_state=None, copy_X_train=True, n_restarts_optimizer=0)
    if fitted:
        s.g.f.update(X_train_=E.arr((s.n, s.d), lambda i, j: s.T(zint(i), zint(j)), 'f'), kernel_=s.kern,
                     alpha_=E.arr((s.n,), lambda i: s.A(zint(i)), 'f'), L_=s.L, K_inv_=E.arr((s.n, s.n), lambda i, j: s.KI(zint(i), zint(j)), 'f'),
                     y_train_std_=s.S, y_train_mean_=s.M, _y_train_std=s.S, _y_train_mean=s.M, noise_=None)
    s.Xa = E.arr((s.m, s.d), lambda i, j: s.X(zint(i), zint(j)), 'f')
    s.N = Normal(E, ['KINV'])

    def cho_solve(E, a, k):
        f, B = a[0], E.to_arr(a[1]).v
        E.require('the Cholesky factor and that it is lower', isinstance(E.force(f), tuple) and E.force(f)[0] is s.L and E.force(f)[1] is True)
        E.prove('the right-hand side has one row per training point', zint(B.shape[0]) == s.n)

        def cell(*i):
            q = E.index_const()
            return E.sum_term(s.n, q, s.KI(zint(i[0]), q) * zreal(B.at(q, *i[1:])))
        return E.arr((s.n,) + tuple(B.shape[1:]), cell, 'f')
    E.natives['scipy.linalg.cho_solve'] = cho_solve
    return s


def predict(E, s, **flags):
    return E.call(E.getattr(s.g, 'predict'), [s.Xa], flags)


def mean_of(E, s, i):
    k = E.index_const()
    return s.S * E.sum_term(s.n, k, s.KT(i, k) * s.A(k)) + s.M


def quad(E, s, i, j):
    k, l = E.index_const(), E.index_const()
    return E.sum_term(s.n, k, s.KT(i, k) * E.sum_term(s.n, l, s.KI(k, l) * s.KT(j, l)))


def same(E, s, name, a, b):
    E.prove(name, s.N.normal(a) == s.N.normal(b))


def row(E, s, nm='i'):
    if isinstance(s.m, int):
        return z3.IntVal(0)
    i = E.Int(nm)
    E.assume(z3.And(i >= 0, i < zint(s.m)))
    return i


def check_mean(E, s, v):
    V = E.to_arr(v).v
    E.require('a vector of means', len(V.shape) == 1)
    E.prove('one mean per query', zint(V.shape[0]) == zint(s.m))
    i = row(E, s)
    same(E, s, 'the posterior mean in the original units', zreal(V.at(i)), mean_of(E, s, i))


def check_std(E, s, v):
    V = E.to_arr(v).v
    E.require('a vector of deviations', len(V.shape) == 1)
    E.prove('one deviation per query', zint(V.shape[0]) == zint(s.m))
    i = row(E, s)
    sd = zreal(V.at(i))
    E.prove('never negative', sd >= 0)
    var = s.KD(i) - quad(E, s, i, i)
    want = s.N.normal(var)
    s.N.bridge(sd)
    x = s.N.normal(sd * sd)
    E.prove('the posterior variance in the original units', z3.If(want >= 0, x == s.S * s.S * want, x == 0))


def parts(E, r, n):
    if n == 1:
        return [r]
    r = E.force(r)
    E.require('%d outputs' % n, isinstance(r, tuple) and len(r) == n)
    return list(r)


def plain(E):
    s = scene(E)
    check_mean(E, s, parts(E, predict(E, s), 1)[0])


def with_std(E):
    s = scene(E)
    mu, sd = parts(E, predict(E, s, return_std=True), 2)
    check_mean(E, s, mu)
    check_std(E, s, sd)


def with_cov(E):
    s = scene(E)
    mu, cov = parts(E, predict(E, s, return_cov=True), 2)
    check_mean(E, s, mu)
    V = E.to_arr(cov).v
    E.require('a matrix', len(V.shape) == 2)
    E.prove('one covariance per pair of queries', z3.And(zint(V.shape[0]) == s.m, zint(V.shape[1]) == s.m))
    i, j = row(E, s), row(E, s, 'j')
    same(E, s, 'the posterior covariance in the original units', zreal(V.at(i, j)), s.S * s.S * (s.KXX(i, j) - quad(E, s, i, j)))


def D(E, s, t, j):
    """derivative of t with respect to coordinate j of the query"""
    def D1(t):
        nm, ch = t.decl().name(), t.children()
        if nm == 'KT':
            E.require('derivative at the only query', z3.simplify(ch[0]).eq(z3.IntVal(0)))
            return s.G(ch[1], j)
        if nm == 'KD':
            return z3.RealVal(0) if E.implied(s.stationary) else 2 * s.G1(j)
        if nm.startswith('SUM!') and ch:
            q = E.index_const()
            return E.sum_term(t.arg(0), q, D1(E.sum_body(t, q)))
        if nm == 'SQRT':
            return D1(ch[0]) / (2 * t)
        if z3.is_rational_value(t) or z3.is_int_value(t) or (t.decl().kind() == z3.Z3_OP_UNINTERPRETED and (not ch or all(c.sort() == I for c in ch))):
            return z3.RealVal(0)
        return _derive(t, [(c, D1(c)) for c in ch if c.sort() == R and t.decl().kind() != z3.Z3_OP_ITE], E) if t.decl().kind() != z3.Z3_OP_ITE else \
            (D1(ch[1]) if E.implied(ch[0]) else D1(ch[2]) if E.implied(z3.Not(ch[0])) else _amb())
    return D1(t)


def _amb():
    raise Unsupported('derivative across a case distinction')


def check_grad(E, s, g, of, name):
    V = E.to_arr(g).v
    E.require('a vector of derivatives', len(V.shape) == 1)
    E.prove('one derivative per coordinate', zint(V.shape[0]) == s.d)
    j = E.Int('j')
    E.assume(z3.And(j >= 0, j < s.d))
    same(E, s, name, zreal(V.at(j)), D(E, s, of, j))


def mean_grad(E):
    s = scene(E, one=True)
    mu, g = parts(E, predict(E, s, return_mean_grad=True), 2)
    check_mean(E, s, mu)
    check_grad(E, s, g, zreal(E.to_arr(mu).v.at(0)), 'the derivative of the mean')


def mean_grad_std(E):
    s = scene(E, one=True)
    mu, sd, g = parts(E, predict(E, s, return_std=True, return_mean_grad=True), 3)
    check_mean(E, s, mu)
    check_std(E, s, sd)
    check_grad(E, s, g, zreal(E.to_arr(mu).v.at(0)), 'the derivative of the mean')


def std_grad(E):
    s = scene(E, one=True)
    mu, sd, g, gs = parts(E, predict(E, s, return_std=True, return_mean_grad=True, return_std_grad=True), 4)
    check_mean(E, s, mu)
    check_std(E, s, sd)
    check_grad(E, s, g, zreal(E.to_arr(mu).v.at(0)), 'the derivative of the mean')
    sdv = zreal(E.to_arr(sd).v.at(0))
    if E.decide(sdv > z3.RealVal('1/100000000')):
        E.decide(s.stationary)
        want = s.N.normal(s.KD(z3.IntVal(0)) - quad(E, s, z3.IntVal(0), z3.IntVal(0)))
        V = E.to_arr(gs).v
        E.require('a vector of derivatives', len(V.shape) == 1)
        E.prove('one derivative per coordinate', zint(V.shape[0]) == s.d)
        j = E.Int('j')
        E.assume(z3.And(j >= 0, j < s.d))
        k, l = E.index_const(), E.index_const()
        # 2 std std' = var'
        s.N.bridge(sdv)
        dvar = s.S * s.S * D(E, s, s.KD(z3.IntVal(0)) - quad(E, s, z3.IntVal(0), z3.IntVal(0)), j)
        g_ = zreal(V.at(j))
        E.prove('the derivative of the deviation', s.N.normal(g_) == s.N.normal(dvar / (2 * sdv)))
    else:
        V = E.to_arr(gs).v
        E.prove('one derivative per coordinate', zint(V.shape[0]) == s.d)
        E.prove_forall('zero where the deviation vanishes', s.d, lambda j: zreal(V.at(j)) == 0)


def refusals(E):
    s = scene(E)
    for fl, cls in ((dict(return_std=True, return_cov=True), 'RuntimeError'), (dict(return_mean_grad=True, return_std_grad=True), 'ValueError')):
        kind, e = outcome(E, lambda: predict(E, s, **fl))
        E.require('refused: %s' % sorted(fl), kind == 'raise' and exc_is(e, cls))
    if E.decide(s.m > 1):
        for fl in (dict(return_mean_grad=True), dict(return_std=True, return_mean_grad=True, return_std_grad=True)):
            kind, e = outcome(E, lambda: predict(E, s, **fl))
            E.require('gradients of several points refused', kind == 'raise' and exc_is(e, 'ValueError'))


def prior(E):
    s = scene(E, fitted=False)
    mu = E.to_arr(predict(E, s)).v
    mu2, sd = parts(E, predict(E, s, return_std=True), 2)
    mu3, cov = parts(E, predict(E, s, return_cov=True), 2)
    i, j = row(E, s), row(E, s, 'j')
    for v in (mu, E.to_arr(mu2).v, E.to_arr(mu3).v):
        E.prove('zero prior mean', z3.And(zint(v.shape[0]) == s.m, zreal(v.at(i)) == 0))
    sv, cv = E.to_arr(sd).v, E.to_arr(cov).v
    E.assume(s.KD(i) >= 0)
    E.prove('prior deviation', z3.And(zint(sv.shape[0]) == s.m, zreal(sv.at(i)) == SQRT(s.KD(i))))
    E.prove('prior covariance', z3.And(zint(cv.shape[0]) == s.m, zint(cv.shape[1]) == s.m, zreal(cv.at(i, j)) == s.KXX(i, j)))


CONTRACTS = [('mean', plain), ('mean and deviation', with_std), ('mean and covariance', with_cov), ('mean gradient', mean_grad),
             ('mean gradient and deviation', mean_grad_std), ('deviation gradient', std_grad), ('refusals', refusals), ('before any fit', prior)]


# ---------------------------------------------------------------- fitting
from .c16 import SOURCES                                                  # noqa: E402  (kernel classes from scikit-learn's source)
KQ = 'skopt.learning.gaussian_process.kernels:'
INV = {'L': 'L-', 'Lt': 'Lt-', 'L-': 'L', 'Lt-': 'Lt'}
TR = {'L': 'Lt', 'Lt': 'L', 'L-': 'Lt-', 'Lt-': 'L-'}


class Mat(NatObj):
    """a square matrix: a product of the Cholesky factor L, its transpose and their inverses"""
    def __init__(self, n, word):
        NatObj.__init__(self)
        self.n = n
        w = []
        for x in word:
            if w and INV[w[-1]] == x:
                w.pop()
            else:
                w.append(x)
        self.word = tuple(w)

    def py_subst(self, E, sub):
        return self

    def py_getattr(self, E, name):
        if name == 'T':
            return Mat(self.n, [TR[x] for x in reversed(self.word)])
        if name == 'shape':
            return (self.n, self.n)
        if name == 'dot':
            return Native('dot', lambda E, a, k: self.times(E, a[0]))
        raise Unsupported('matrix.' + name)

    def times(self, E, o):
        o = E.force(o)
        if isinstance(o, Mat):
            return Mat(self.n, self.word + o.word)
        if eye(E, o, self.n):
            return self
        raise Unsupported('product with another kind of matrix')

    def py_binop(self, E, op, a, b):
        if op == '@' and a is self:
            return self.times(E, b)
        raise Unsupported('matrix operation ' + op)


def eye(E, o, n):
    o = E.force(o)
    if not isinstance(o, ArrObj) or len(o.v.shape) != 2:
        return False
    i, j = E.Int('i'), E.Int('j')
    return E.implied(z3.And(zint(o.v.shape[0]) == n, zint(o.v.shape[1]) == n)) and \
        E.implied(z3.Implies(z3.And(i >= 0, i < n, j >= 0, j < n), zreal(o.v.at(i, j)) == z3.If(i == j, z3.RealVal(1), z3.RealVal(0))))


def fit_scene(E, s):
    n = s.n

    def tri(E, a, k):
        names = ['a', 'b', 'trans', 'lower']
        v = dict(zip(names, a))
        v.update(k)
        A = E.force(v['a'])
        E.require('a triangular solve with the Cholesky factor', isinstance(A, Mat) and A.word in (('L',), ('Lt',)))
        tr, low = v.get('trans', 0), v.get('lower', False)
        E.require('the triangle that holds the matrix', low is (A.word == ('L',)))
        w = A.word if tr in (0, 'N') else (TR[A.word[0]],)
        B = E.force(v['b'])
        right = B.word if isinstance(B, Mat) else ()
        E.require('solved for the identity or another factor', isinstance(B, Mat) or eye(E, B, n))
        return Mat(n, (INV[w[0]],) + tuple(right))

    def cho(E, a, k):
        f = E.force(a[0])
        E.require('the lower Cholesky factor', isinstance(f, tuple) and isinstance(f[0], Mat) and f[0].word == ('L',) and f[1] is True)
        B = E.force(a[1])
        E.require('solved for the identity', isinstance(B, Mat) or eye(E, B, n))
        return Mat(n, ('Lt-', 'L-') + (B.word if isinstance(B, Mat) else ()))
    E.natives['scipy.linalg.solve_triangular'] = tri
    E.natives['scipy.linalg.cho_solve'] = cho
    E.natives['numpy.dot'] = lambda E, a, k: a[0].times(E, a[1]) if isinstance(E.force(a[0]), Mat) else E.np_dot(a[0], a[1])
    E.ext_const['sklearn.__version__'] = '1.3.2'

    def get_params(E, a, k):
        d = PDict()
        d.f['d'].update(a[0].f)
        return d
    E.overrides['sklearn.gaussian_process.kernels:Kernel.get_params'] = get_params
    s.seen = []

    def clone(k):
        c = Inst(k.cls)
        for nm, v in k.f.items():
            v = E.force(v)
            if isinstance(v, Inst):
                v = clone(v)
            elif nm in ('length_scale', 'noise_level', 'constant_value') and k.f.get(nm + '_bounds') != 'fixed':
                v = E.Real('fitted')
                E.assume(v > 0)
            c.f[nm] = v
        return c

    def fit(E, a, k):
        me = a[0]
        E.require('the data reach the underlying fit', a[1] is s.Xd and a[2] is s.yd)
        K = E.force(E.getattr(me, 'kernel'))
        s.seen.append((K, shape_of(K)))
        me.f['kernel_'] = clone(K)
        s.fitted = (me.f['kernel_'], shape_of(me.f['kernel_']))
        me.f['X_train_'] = s.Xd
        me.f['L_'] = Mat(n, ('L',))
        me.f['alpha_'] = OpaqueObj('alpha')
        me.f['_y_train_std'], me.f['_y_train_mean'] = s.S, s.M
        return me
    E.ext_methods[('sklearn.gaussian_process.GaussianProcessRegressor', 'fit')] = Native('fit', fit)
    s.Xd, s.yd = OpaqueObj('X'), OpaqueObj('y')


def shape_of(k):
    """class names and hyperparameters of a kernel expression"""
    if not isinstance(k, Inst):
        return k
    return (k.cls.name,) + tuple((n, shape_of(v)) for n, v in sorted(k.f.items()))


def kernels(E, which):
    K = lambda n, **kw: mk(E, n, kw)
    if which == 'rbf':
        return K('RBF', length_scale=E.Real('l'), length_scale_bounds=(1e-5, 1e5))
    if which == 'white':
        return K('WhiteKernel', noise_level=E.Real('w'), noise_level_bounds=(1e-5, 1e5))
    if which == 'rbf+white':
        return K('Sum', k1=kernels(E, 'rbf'), k2=kernels(E, 'white'))
    if which == 'white+rbf':
        return K('Sum', k1=kernels(E, 'white'), k2=kernels(E, 'rbf'))
    return None


def mk(E, n, kw):
    k = Inst(E.resolve(KQ + n))
    k.f.update(kw)
    return k


def eqshape(E, a, b):
    """equality of kernel descriptions, hyperparameters as a formula"""
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return z3.BoolVal(False)
        return z3.And([eqshape(E, x, y) for x, y in zip(a, b)] or [z3.BoolVal(True)])
    num = lambda x: isinstance(x, (int, float)) and not isinstance(x, bool) or z3.is_expr(x)
    if num(a) and num(b):
        return zreal(a) == zreal(b)
    return z3.BoolVal(bool(a == b))


def fits(which, noise, twice=False):
    def c(E):
        s = scene(E, fitted=False)
        fit_scene(E, s)
        user = kernels(E, which)
        before = shape_of(user)
        nz = noise
        if noise == 'number':
            nz = E.Real('noise')
            E.assume(nz > 0)
        s.g.f.update(kernel=user, noise=nz)
        for rnd in range(2 if twice else 1):
            r = E.call(E.getattr(s.g, 'fit'), [s.Xd, s.yd], {})
            E.require('fit returns the model', r is s.g)
        E.require('one underlying fit per fit', len(s.seen) == (2 if twice else 1))
        K, seen = s.seen[-1]
        after = E.force(E.getattr(s.g, 'kernel'))
        if user is not None:
            E.require('the kernel parameter is left alone', after is user)
            E.prove('and so are its hyperparameters', eqshape(E, shape_of(user), before))
            base = before
        else:
            E.require('the default kernel is a fixed constant times a fixed RBF', isinstance(after, Inst) and after.cls.name == 'Product')
            base = shape_of(after)
            E.prove('the default kernel', eqshape(E, base, ('Product', ('k1', ('ConstantKernel', ('constant_value', 1.0), ('constant_value_bounds', 'fixed'))),
                                                            ('k2', ('RBF', ('length_scale', 1.0), ('length_scale_bounds', 'fixed'))))))
        pk = E.force(E.getattr(s.g, 'kernel_'))
        nl = E.getattr(s.g, 'noise_')
        if noise in (None, 0):
            E.prove('the kernel itself is fitted', eqshape(E, seen, base))
            E.require('and predicts', pk is s.fitted[0])
            E.prove('as it was fitted', eqshape(E, shape_of(pk), s.fitted[1]))
            E.require('no added noise', nl is None)
        else:
            E.require('fitted with a noise term added', isinstance(K, Inst) and K.cls.name == 'Sum')
            E.prove('to the kernel', eqshape(E, dict(seen[1:])['k1'], base))
            w = dict(dict(seen[1:])['k2'][1:])
            E.require('a white noise term', dict(seen[1:])['k2'][0] == 'WhiteKernel')
            if noise == 'number':
                E.require('the given level is kept', w['noise_level_bounds'] == 'fixed')
                E.prove('the given level', zreal(w['noise_level']) == nz)
            else:
                E.require('a level to be fitted', w['noise_level_bounds'] != 'fixed')
            fit_ = dict(s.fitted[1][1:])
            got = dict(shape_of(pk)[1:])
            E.require('the prediction kernel', pk.cls.name == 'Sum')
            E.prove('keeps the fitted kernel', eqshape(E, got['k1'], fit_['k1']))
            E.require('with the noise term', got['k2'][0] == 'WhiteKernel')
            E.prove('switched off', zreal(dict(got['k2'][1:])['noise_level']) == 0)
            E.prove('and reports the fitted noise', zreal(nl) == zreal(dict(fit_['k2'][1:])['noise_level']))
        Ki = E.force(E.getattr(s.g, 'K_inv_'))
        E.require('the stored inverse is (L L^T)^-1', isinstance(Ki, Mat) and Ki.word == ('Lt-', 'L-'))
        E.prove('target scale and mean', z3.And(zreal(E.getattr(s.g, 'y_train_std_')) == s.S, zreal(E.getattr(s.g, 'y_train_mean_')) == s.M))
    return c


def bad_noise(E):
    s = scene(E, fitted=False)
    fit_scene(E, s)
    user = kernels(E, 'rbf')
    s.g.f.update(kernel=user, noise='laplace')
    kind, e = outcome(E, lambda: E.call(E.getattr(s.g, 'fit'), [s.Xd, s.yd], {}))
    E.require('unknown noise models are refused', kind == 'raise' and exc_is(e, 'ValueError') and not s.seen and E.getattr(s.g, 'kernel') is user)


for which in ('rbf', 'white', 'rbf+white', 'white+rbf', None):
    for noise in (None, 0, 'gaussian', 'number'):
        CONTRACTS.append(('fit, kernel %s, noise %s' % (which, noise), fits(which, noise)))
CONTRACTS += [('fit again', fits('rbf+white', 'gaussian', True)), ('fit again, fixed noise', fits('rbf', 'number', True)), ('fit again, default kernel', fits(None, 'gaussian', True)),
              ('fit refuses other noise models', bad_noise)]
