"""C16: kernel derivatives are the derivatives of the kernels; the category kernel is what it claims."""
from .opt import *
from .c07 import exc_is
from .c15 import derive as _derive
from pvc.solve import EXP, SIN, COS, SQRT, POW, alg_equal
from pvc import solve

NOTE = ('the gradient each kernel computes is proved equal to the derivative, by the rules of differentiation, of the covariance that scikit-learn\'s own kernel code computes '
        '(interpreted from its installed source), for every number of training points and dimensions, every hyperparameter, isotropic and anisotropic; compositions for arbitrary '
        'differentiable members; the category kernel proved from its own code')
ASSUME = ['the differentiation rules (sum over coordinates, product, quotient, exp, sqrt, sin, power)', 'scipy cdist computes squared and plain Euclidean distances',
          'at coinciding points a differentiable stationary kernel has derivative zero (it is symmetric around the point)',
          'smoothness of Matern kernels is one of the supported 0.5, 1.5, 2.5; data are arrays of real numbers']
KQ = 'skopt.learning.gaussian_process.kernels:'
SOURCES = {'sklearn.gaussian_process.kernels': '/opt/venv/lib/python3.12/site-packages/sklearn/gaussian_process/kernels.py'}


def cdist(E, a, k):
    names = ['XA', 'XB', 'metric']
    v = dict(zip(names, a))
    v.update(k)
    A, Bm = E.to_arr(v['XA']).v, E.to_arr(v['XB']).v
    E.prove('points of one dimension', zint(A.shape[1]) == zint(Bm.shape[1]))

    def cell(i, j):
        kk = E.index_const()
        d = zreal(A.at(i, kk)) - zreal(Bm.at(j, kk))
        s = E.sum_term(A.shape[1], kk, d * d)
        if v['metric'] == 'sqeuclidean':
            return s
        return SQRT(s)
    E.require('a known metric', v['metric'] in ('sqeuclidean', 'euclidean'))
    return E.arr((A.shape[0], Bm.shape[0]), cell, 'f')


class Scene:
    pass


def scene(E, natural=False):
    s = Scene()
    s.n, s.d = E.Int('n'), E.Int('d')
    E.assume(s.n >= 1)
    E.assume(s.d >= 1)
    s.x, s.T = z3.Function('x', I, R), z3.Function('T', I, I, R)
    s.xa = E.arr((s.d,), lambda j: s.x(zint(j)), 'f')
    s.Ta = E.arr((s.n, s.d), lambda i, j: s.T(zint(i), zint(j)), 'f')
    E.natives['scipy.spatial.distance.cdist'] = cdist
    E.natives['sklearn.utils.validation._num_samples'] = lambda E, a, k: E.to_arr(a[0]).v.shape[0]
    E.pow_symbol = True
    return s


def derive(E, t, j, s, extra):
    """derivative of t with respect to x[j]"""
    def D(t):
        for a, g in extra:
            if a.eq(t):
                return g
        nm = t.decl().name()
        if nm == 'x' and t.num_args() == 1:
            return z3.RealVal(1) if t.arg(0).eq(j) else None
        if nm.startswith('SUM!') and t.num_args():
            # only the term of coordinate j mentions x[j]
            q = z3.Int('coordinate')
            b = E.sum_body(t, q)
            for u in solve.subterms([b]):
                if u.decl().name() == 'x' and u.num_args() == 1 and not u.arg(0).eq(q):
                    raise Unsupported('a sum term mentions another coordinate')
            return D1(z3.substitute(b, (q, j)))
        if nm == 'SQRT':
            return D1(t.arg(0)) / (2 * t)
        if nm == 'SIN':
            return COS(t.arg(0)) * D1(t.arg(0))
        if nm == 'COS':
            return -SIN(t.arg(0)) * D1(t.arg(0))
        if nm == 'POW':
            return t.arg(1) * POW(t.arg(0), t.arg(1) - 1) * D1(t.arg(0))
        return None

    class Pairs(list):
        pass

    def D1(t):
        r = D(t)
        if r is not None:
            return r
        return walk(t)

    def walk(t):
        kind = t.decl().kind()
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return z3.RealVal(0)
        ch = t.children()
        if kind == z3.Z3_OP_UNINTERPRETED and (not ch or all(c.sort() == I for c in ch)):
            return z3.RealVal(0)
        sub = [(c, D1(c)) for c in ch if c.sort() == R]
        return _derive(t, sub, E)
    return D1(t)


def unify(E, terms, s):
    """rewrites sums and trigonometric terms that are proportional / double angles to common ones"""
    import sympy
    terms = [E.counts_as_sums(t) for t in terms]
    apps = {}
    for t in solve.subterms(terms):
        if z3.is_app(t) and t.decl().name().startswith('SUM!') and t.num_args():
            apps[t.get_id()] = t
    apps = list(apps.values())
    sub = []
    for n, a in enumerate(apps):
        for b in apps[:n]:
            if a.arg(0).eq(b.arg(0)):
                q = z3.Int('coordinate')
                al = solve.Alg()
                ba, bb = al.conv(E.sum_body(a, q)), al.conv(E.sum_body(b, q))
                r = sympy.cancel(sympy.together(ba / bb))
                if not any(E.has_term(al.back[y], q) for y in r.free_symbols):
                    ru = solve._unconv(r, al.back)
                    dens = solve.denominators(ru)
                    sub.append((a, ru * b))
                    break
    out = [z3.substitute(t, *sub) for t in terms] if sub else terms
    # powers of one base whose exponents differ by a whole number
    pw = {}
    for t in solve.subterms(out):
        if z3.is_app(t) and t.decl().name() == 'POW':
            pw[t.get_id()] = t
    pw = list(pw.values())
    sub = []
    for n, t in enumerate(pw):
        for u in pw[:n]:
            if alg_equal(t.arg(0), u.arg(0)):
                m = [c for c in range(-3, 4) if alg_equal(t.arg(1), u.arg(1) + c)]
                if m:
                    E.prove('a power of a positive number', t.arg(0) > 0)
                    sub.append((t, u * t.arg(0) ** m[0] if m[0] >= 0 else u / t.arg(0) ** -m[0]))
                    break
    if sub:
        out = [z3.substitute(t, *sub) for t in out]
    # double angles
    tr = {}
    for t in solve.subterms(out):
        if z3.is_app(t) and t.decl().name() in ('SIN', 'COS'):
            tr[t.get_id()] = t
    sub = []
    for t in tr.values():
        if t.decl().name() == 'SIN':
            for u in tr.values():
                if u.decl().name() == 'COS' and alg_equal(t.arg(0), 2 * u.arg(0)):
                    sub.append((t, 2 * SIN(u.arg(0)) * u))
                    break
    return [z3.substitute(t, *sub) for t in out] if sub else out


def covariance(E, s, k):
    r = E.call(k, [E.arr((1, s.d), lambda i, j: s.x(zint(j)), 'f'), s.Ta], {})
    v = E.to_arr(r).v
    E.require('one row of covariances', len(v.shape) == 2)
    E.prove('one covariance per training point', z3.And(zint(v.shape[0]) == 1, zint(v.shape[1]) == s.n))
    return v


def check(E, s, k, zero_at_same=True, extra=lambda i, j: []):
    g = E.to_arr(E.call(E.getattr(k, 'gradient_x'), [s.xa, s.Ta], {})).v
    K = covariance(E, s, k)
    E.require('a row per training point', len(g.shape) == 2)
    E.prove('a row per training point, a column per coordinate', z3.And(zint(g.shape[0]) == s.n, zint(g.shape[1]) == s.d))
    i, j = E.Int('i'), E.Int('j')
    E.assume(z3.And(i >= 0, i < s.n))
    E.assume(z3.And(j >= 0, j < s.d))
    return g, K, i, j


def stationary(cls, fields, sqrt=False, same=True):
    """fields(E, s): hyperparameters"""
    def c(E):
        s = scene(E)
        k = Inst(E.resolve(KQ + cls))
        k.f.update(fields(E, s))
        g, K, i, j = check(E, s, k)
        q = z3.Int('same')
        if sqrt:
            # coinciding points are treated apart
            differ = E.Bool('points_differ')
            w = E.Int('w')
            if E.decide(differ):
                E.assume(z3.And(w >= 0, w < s.d, s.x(w) != s.T(i, w)))
                positive_sums(E, s, [zreal(g.at(i, j)), zreal(K.at(0, i))], i, w)
            else:
                E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < s.d), s.x(q) == s.T(i, q))))
                E.assume(s.x(j) == s.T(i, j))
                zero_sums(E, s, [zreal(g.at(i, j)), zreal(K.at(0, i))], i)
                if same:
                    E.prove('zero where the points coincide', zreal(g.at(i, j)) == 0)
                return
        want = derive(E, E.simpz(zreal(K.at(0, i))) if hasattr(E, 'simpz') else zreal(K.at(0, i)), j, s, [])
        a, b = unify(E, [zreal(g.at(i, j)), want], s)
        E.prove('the gradient is the derivative of the covariance', a == b)
    return c


def sums_in(E, terms):
    out = {}
    for t in solve.subterms(terms):
        if z3.is_app(t) and t.decl().name().startswith('SUM!') and t.num_args():
            out[t.get_id()] = t
    return list(out.values())


def positive_sums(E, s, terms, i, w):
    """a sum of squares with a positive term is positive (checked term by term)"""
    q = E.Int('anycoord')
    for t in sums_in(E, terms):
        b = lambda k_: E.sum_body(t, k_)
        E.prove('terms of the squared distance are not negative', z3.Implies(z3.And(q >= 0, q < s.d), b(q) >= 0))
        E.prove('and one is positive', b(w) > 0)
        E.fact(t > 0)
    E.assumptions.add('a finite sum of non-negative terms with a positive one is positive')


def zero_sums(E, s, terms, i):
    for t in sums_in(E, terms):
        E.prove_forall('terms of the squared distance vanish', s.d, lambda q: E.sum_body(t, zint(q)) == 0)
        E.fact(t == 0)


def iso(E, s):
    l = E.Real('length_scale')
    E.assume(l > 0)
    return dict(length_scale=l, length_scale_bounds=OpaqueObj('bounds'))


def aniso(E, s):
    L = z3.Function('LS', I, R)
    E.rule_for(L, lambda i: L(i) > 0)
    return dict(length_scale=E.arr((s.d,), lambda i: L(zint(i)), 'f'), length_scale_bounds=OpaqueObj('bounds'))


def plus(f, **kw):
    def g(E, s):
        r = f(E, s)
        for n, v in kw.items():
            if v == 'pos':
                v = E.Real(n)
                E.assume(v > 0)
            r[n] = v
        return r
    return g


CONTRACTS = []
for nm, f in (('isotropic', iso), ('anisotropic', aniso)):
    CONTRACTS.append(('RBF, %s' % nm, stationary('RBF', f)))
    for nu in (0.5, 1.5, 2.5):
        CONTRACTS.append(('Matern %s, %s' % (nu, nm), stationary('Matern', plus(f, nu=nu), sqrt=True, same=nu != 0.5)))
CONTRACTS += [('RationalQuadratic', stationary('RationalQuadratic', plus(iso, alpha='pos', alpha_bounds=None))),
              ('ExpSineSquared', stationary('ExpSineSquared', plus(iso, periodicity='pos'), sqrt=True))]


# ---------------------------------------------------------------- kernels without a distance
def plain(cls, fields):
    def c(E):
        s = scene(E)
        k = Inst(E.resolve(KQ + cls))
        k.f.update(fields(E, s))
        g, K, i, j = check(E, s, k)
        want = derive(E, zreal(K.at(0, i)), j, s, [])
        E.prove('the gradient is the derivative of the covariance', zreal(g.at(i, j)) == want)
    return c


def hyper(**kw):
    def f(E, s):
        out = {}
        for n in kw:
            v = E.Real(n)
            E.assume(v > 0)
            out[n] = v
        return out
    return f


CONTRACTS += [('ConstantKernel', plain('ConstantKernel', hyper(constant_value=1))),
              ('WhiteKernel', plain('WhiteKernel', hyper(noise_level=1))),
              ('DotProduct', plain('DotProduct', hyper(sigma_0=1)))]


# ---------------------------------------------------------------- compositions of arbitrary differentiable members
class Member(NatObj):
    """any kernel that meets its own contract: covariances KM(i) at x with derivatives GM(i, j)"""
    def __init__(self, E, s, nm, positive=False):
        self.s, self.E = s, E
        self.KM = z3.Function('K_' + nm, I, R)
        self.GM = z3.Function('G_' + nm, I, I, R)
        if positive:
            E.rule_for(self.KM, lambda i: self.KM(i) > 0)

    def same(self, E, X, T, flat):
        s = self.s
        xv, tv = E.to_arr(X).v, E.to_arr(T).v
        q, r = E.Int('q'), E.Int('r')
        E.require('dimensions handed to a member', len(xv.shape) == (1 if flat else 2) and len(tv.shape) == 2)
        inr = z3.And(q >= 0, q < s.d, r >= 0, r < s.n)
        E.prove('a member sees the point', z3.And(zint(xv.shape[-1]) == s.d, True if flat else zint(xv.shape[0]) == 1,
                                                  z3.Implies(inr, zreal(xv.at(q) if flat else xv.at(0, q)) == s.x(q))))
        E.prove('a member sees the training points', z3.And(zint(tv.shape[0]) == s.n, zint(tv.shape[1]) == s.d,
                                                            z3.Implies(inr, zreal(tv.at(r, q)) == s.T(r, q))))

    def py_call(self, E, a, k):
        v = dict(zip(['X', 'Y', 'eval_gradient'], a))
        v.update(k)
        E.require('no hyperparameter gradient asked', v.get('eval_gradient', False) is False)
        self.same(E, v['X'], v['Y'], False)
        return E.arr((1, self.s.n), lambda i, j: self.KM(zint(j)), 'f')

    def py_getattr(self, E, name):
        if name == 'gradient_x':
            def g(E, a, k):
                v = dict(zip(['x', 'X_train'], a))
                v.update(k)
                self.same(E, v['x'], v['X_train'], True)
                return E.arr((self.s.n, self.s.d), lambda i, j: self.GM(zint(i), zint(j)), 'f')
            return Native('gradient_x', g)
        raise Unsupported('member kernel attribute ' + name)


def composed(cls, names, exponent=None):
    def c(E):
        s = scene(E)
        k = Inst(E.resolve(KQ + cls))
        ms = [Member(E, s, nm, exponent == 'any') for nm in names]
        for nm, m in zip(names, ms):
            k.f[nm] = m
        if exponent:
            k.f['exponent'] = E.Real('exponent') if exponent == 'any' else exponent
        g, K, i, j = check(E, s, k)
        want = derive(E, zreal(K.at(0, i)), j, s, [(m.KM(i), m.GM(i, j)) for m in ms])
        a, b = unify(E, [zreal(g.at(i, j)), want], s)
        E.prove('the gradient is the derivative of the covariance', a == b)
    return c


CONTRACTS += [('Sum of any two', composed('Sum', ['k1', 'k2'])), ('Product of any two', composed('Product', ['k1', 'k2'])),
              ('Exponentiation, any exponent of a positive kernel', composed('Exponentiation', ['kernel'], 'any')),
              ('Exponentiation, square', composed('Exponentiation', ['kernel'], 2)),
              ('Exponentiation, cube', composed('Exponentiation', ['kernel'], 3.0))]


def operators(E):
    """combining kernels with +, * and **, with each other and with numbers, gives the kernels above"""
    K = E.resolve(KQ + 'RBF')
    a, b = Inst(K), Inst(K)
    r = E.Real('number')
    cls = lambda n: E.resolve(KQ + n)
    for op, name in (('+', 'Sum'), ('*', 'Product')):
        for left, right in ((a, b), (a, r), (r, a)):
            v = E.binop(op, left, right)
            E.require('a kernel of this package: ' + name, isinstance(v, Inst) and v.cls is cls(name))
            for side, want in (('k1', left), ('k2', right)):
                m = E.getattr(v, side)
                if isinstance(want, Inst):
                    E.require('its member', m is want)
                else:
                    E.require('a number becomes a constant kernel', isinstance(m, Inst) and m.cls is cls('ConstantKernel'))
                    E.prove('of that value', zreal(E.getattr(m, 'constant_value')) == r)
    v = E.binop('**', a, r)
    E.require('a power', isinstance(v, Inst) and v.cls is cls('Exponentiation') and E.getattr(v, 'kernel') is a)
    E.prove('its exponent', zreal(E.getattr(v, 'exponent')) == r)


CONTRACTS.append(('operators', operators))


# ---------------------------------------------------------------- the category kernel
def hamming(E, how, values='num'):
    s = Scene()
    s.n, s.m, s.d = E.Int('n'), E.Int('m'), E.Int('d')
    for q in (s.n, s.m, s.d):
        E.assume(q >= 1)
    sort = R if values == 'num' else U
    s.X, s.Y = z3.Function('X', I, I, sort), z3.Function('Y', I, I, sort)
    dt = 'f' if values == 'num' else 'O'
    s.Xa = E.arr((s.n, s.d), lambda i, j: s.X(zint(i), zint(j)), dt)
    s.Ya = E.arr((s.m, s.d), lambda i, j: s.Y(zint(i), zint(j)), dt)
    if how == 'aniso':
        L = z3.Function('LS', I, R)
        E.rule_for(L, lambda i: L(i) > 0)
        E.assume(s.d >= 2)
        s.ls = lambda q: L(zint(q))
        ls = E.arr((s.d,), lambda i: L(zint(i)), 'f')
    else:
        l = E.Real('length_scale')
        E.assume(l > 0)
        s.ls = lambda q: l
        s.l = l
        ls = l if how == 'iso' else PList([l])
    s.k = Inst(E.resolve(KQ + 'HammingKernel'))
    s.k.f.update(length_scale=ls, length_scale_bounds=OpaqueObj('bounds'))
    return s


def hval(how, values='num'):
    def c(E):
        s = hamming(E, how, values)
        V = E.to_arr(E.call(s.k, [s.Xa, s.Ya], {})).v
        E.require('a matrix', len(V.shape) == 2)
        E.prove('one value per pair', z3.And(zint(V.shape[0]) == s.n, zint(V.shape[1]) == s.m))
        i, j, q = E.Int('i'), E.Int('j'), E.index_const()
        E.assume(z3.And(i >= 0, i < s.n, j >= 0, j < s.m))
        tot = E.sum_term(s.d, q, s.ls(q) * z3.If(s.X(i, q) != s.Y(j, q), z3.RealVal(1), z3.RealVal(0)))
        v = zreal(V.at(i, j))
        E.prove('exp of minus the summed length scales of the differing coordinates', v == EXP(-tot))
        # one exactly for identical points
        w = E.Int('w')
        if E.decide(E.Bool('points_differ')):
            E.assume(z3.And(w >= 0, w < s.d, s.X(i, w) != s.Y(j, w)))
            sums = sums_in(E, [v])
            positive_sums(E, s, [v], i, w)
            for t in solve.subterms([v]):
                if t.decl().name() == 'EXP':
                    E.prove('a negative exponent', t.arg(0) < 0)
                    E.fact(t < 1)
            E.prove('less than one for differing points, and positive', z3.And(v < 1, v > 0) if sums else z3.BoolVal(False))
        else:
            qq = z3.Int('same')
            E.assume(z3.ForAll([qq], z3.Implies(z3.And(qq >= 0, qq < s.d), s.X(i, qq) == s.Y(j, qq))))
            zero_sums(E, s, [v], i)
            E.fact(EXP(z3.RealVal(0)) == 1)
            E.prove('one for identical points', v == 1)
    return c


def hsym(how):
    def c(E):
        s = hamming(E, how)
        a = E.to_arr(E.call(s.k, [s.Xa, s.Ya], {})).v
        b = E.to_arr(E.call(s.k, [s.Ya, s.Xa], {})).v
        i, j, q = E.Int('i'), E.Int('j'), z3.Int('coordinate')
        E.assume(z3.And(i >= 0, i < s.n, j >= 0, j < s.m))
        va, vb = zreal(a.at(i, j)), zreal(b.at(j, i))
        ta, tb = sums_in(E, [va]), sums_in(E, [vb])
        E.require('one sum each', len(ta) == 1 and len(tb) == 1)
        E.prove_forall('the summed terms agree', s.d, lambda k_: E.sum_body(ta[0], zint(k_)) == E.sum_body(tb[0], zint(k_)))
        E.fact(ta[0] == tb[0])
        E.prove('symmetric', va == vb)
    return c


def hself(how):
    """k(X) is k(X, X)"""
    def c(E):
        s = hamming(E, how)
        a = E.to_arr(E.call(s.k, [s.Xa], {})).v
        b = E.to_arr(E.call(s.k, [s.Xa, s.Xa], {})).v
        i, j = E.Int('i'), E.Int('j')
        E.assume(z3.And(i >= 0, i < s.n, j >= 0, j < s.n))
        E.prove('shape', z3.And(zint(a.shape[0]) == s.n, zint(a.shape[1]) == s.n))
        E.prove('the same matrix', zreal(a.at(i, j)) == zreal(b.at(i, j)))
        dg = E.to_arr(E.call(E.getattr(s.k, 'diag'), [s.Xa], {})).v
        E.prove('its diagonal', z3.And(zint(dg.shape[0]) == s.n, zreal(dg.at(i)) == 1))
    return c


def hgrad(how):
    def c(E):
        s = hamming(E, how)
        r = E.call(s.k, [s.Xa], {'eval_gradient': True})
        E.require('values and gradients', isinstance(r, tuple) and len(r) == 2)
        V, G = E.to_arr(r[0]).v, E.to_arr(r[1]).v
        plainv = E.to_arr(E.call(s.k, [s.Xa], {})).v
        E.require('three axes', len(G.shape) == 3)
        i, j, p = E.Int('i'), E.Int('j'), E.Int('p')
        E.assume(z3.And(i >= 0, i < s.n, j >= 0, j < s.n))
        np_ = s.d if how == 'aniso' else z3.IntVal(1)
        E.prove('one derivative per length scale', z3.And(zint(G.shape[0]) == s.n, zint(G.shape[1]) == s.n, zint(G.shape[2]) == np_))
        E.assume(z3.And(p >= 0, p < np_))
        v = zreal(V.at(i, j))
        E.prove('the value is the same', v == zreal(plainv.at(i, j)))

        def D(t):
            nm = t.decl().name()
            if nm.startswith('SUM!') and t.num_args():
                q = E.index_const()
                b = E.sum_body(t, q)
                if how == 'aniso':
                    for u in solve.subterms([b]):
                        if u.decl().name() == 'LS' and not u.arg(0).eq(q):
                            raise Unsupported('a sum term mentions another length scale')
                    return D1(z3.substitute(b, (q, p)))
                return E.sum_term(s.d, q, D1(b))
            if nm == 'LS':
                return z3.RealVal(1) if t.arg(0).eq(p) else None
            if how != 'aniso' and t.eq(s.l):
                return z3.RealVal(1)
            return None

        def D1(t):
            r_ = D(t)
            if r_ is not None:
                return r_
            ch = t.children()
            if z3.is_rational_value(t) or z3.is_int_value(t) or (t.decl().kind() == z3.Z3_OP_UNINTERPRETED and (not ch or all(c.sort() != R for c in ch))):
                return z3.RealVal(0)
            if t.decl().kind() == z3.Z3_OP_ITE and not any(u.decl().name() == 'LS' or (how != 'aniso' and u.eq(s.l)) for u in solve.subterms([t.arg(0)])):
                return z3.If(t.arg(0), D1(t.arg(1)), D1(t.arg(2)))
            return _derive(t, [(c_, D1(c_)) for c_ in ch if c_.sort() == R], E)
        want = s.ls(p) * D1(v)
        a, b = unify(E, [zreal(G.at(i, j, p)), want], s)
        E.prove('the derivative with respect to the logarithm of the length scale', a == b)
    return c


def hrefuse(E):
    s = hamming(E, 'aniso')
    kind, e = outcome(E, lambda: E.call(s.k, [s.Xa, s.Ya], {'eval_gradient': True}))
    E.require('a gradient between different sets of points is refused', kind == 'raise' and exc_is(e, 'ValueError'))
    d2 = E.Int('d2')
    E.assume(z3.And(d2 >= 1, d2 != s.d))
    Z = E.arr((s.n, d2), lambda i, j: s.X(zint(i), zint(j)), 'f')
    kind, e = outcome(E, lambda: E.call(s.k, [Z], {}))
    E.require('data of another number of dimensions are refused', kind == 'raise' and exc_is(e, 'ValueError'))


for how in ('iso', 'one', 'aniso'):
    CONTRACTS += [('HammingKernel values, ' + how, hval(how)), ('HammingKernel symmetric, ' + how, hsym(how)),
                  ('HammingKernel k(X) and diagonal, ' + how, hself(how)), ('HammingKernel gradient, ' + how, hgrad(how))]
CONTRACTS += [('HammingKernel values of opaque categories', hval('aniso', 'obj')), ('HammingKernel refusals', hrefuse)]
