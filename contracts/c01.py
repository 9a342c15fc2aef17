"""C01: warping a point and unwarping it returns the same point."""
from .common import *

ASSUME = ['floats are mathematical reals (rounding is covered by the bounded search only)']


NOTE = ('every obligation of the transformers, dimension transform/inverse_transform and Space packing discharged for all bounds, bases, '
        'batch sizes and numbers of dimensions over the reals; float rounding and mixed dtypes only by the bounded search beside it')


def col(kind, prior, transform, dt):
    def c(E):
        dtype = E.ext(dt)
        mk = real_dim if kind == 'Real' else int_dim
        d, lo, hi, b = mk(E, prior, transform, dtype)
        n = E.Int('n')
        E.assume(n >= 1)
        X = batch(E, R if kind == 'Real' else I, n, lambda v: z3.And(v >= lo, v <= hi))
        x = rows(E, n, lambda i: X(i))
        w = meth(E, d, 'transform', x)
        y = meth(E, d, 'inverse_transform', w)
        E.require('length', E.eq(length(E, y), n))
        E.prove_forall('round trip', n, lambda i: at(E, y, i) == X(i))
    return c


CONTRACTS = []
for kind, dts in (('Real', ('builtins.float', 'numpy.float64')), ('Integer', ('builtins.int', 'numpy.int64'))):
    for prior in ('uniform', 'log-uniform'):
        for tr in ('identity', 'normalize'):
            for dt in dts:
                CONTRACTS.append(('%s %s %s %s' % (kind, prior, tr, dt.split('.')[-1]), col(kind, prior, tr, dt)))


# ---------------------------------------------------------------- whole spaces
class AbsDim(NatObj):
    """an arbitrary dimension j: transform is elementwise into S(j) columns, and undoing it on
    a block that holds exactly those columns gives the points back (what `col` and `cat`
    prove for every dimension class)"""
    tyname = 'skopt.space.space.Dimension'

    def __init__(self, w, j):
        NatObj.__init__(self)
        self.w, self.j = w, j

    def py_subst(self, E, sub):
        return AbsDim(self.w, z3.substitute(zint(self.j), *sub))

    def py_getattr(self, E, name):
        w, j = self.w, zint(self.j)
        if name == 'transformed_size':
            E.fact(w.S(j) >= 1)
            return w.S(j)
        if name == 'transform':
            def tr(E, a, k):
                s = E.to_seq(a[0])
                if E.decide(w.S(j) == 1):
                    return E.arr((s.n,), lambda i: w.T(j, s.get(i), z3.IntVal(0)), 'f')
                return E.arr((s.n, w.S(j)), lambda i, c: w.T(j, s.get(i), zint(c)), 'f')
            return Native('transform', tr)
        if name == 'inverse_transform':
            def inv(E, a, k):
                v = E.to_arr(a[0]).v
                i, c = z3.Int('i!%d' % E.uid()), z3.Int('c!%d' % E.uid())
                one = E.decide(w.S(j) == 1)
                E.prove('dimension is handed its own number of rows', zint(v.shape[0]) == zint(w.n))
                if one:
                    E.require('dimension of one column is handed a column', v.ndim == 1)
                    E.prove_forall('dimension is handed back its own column', w.n, lambda i: zreal(v.at(i)) == w.T(j, w.X(i, j), z3.IntVal(0)))
                else:
                    E.require('dimension of several columns is handed a block', v.ndim == 2)
                    E.prove('block width', zint(v.shape[1]) == w.S(j))
                    E.prove_forall('dimension is handed back its own block', w.n,
                                   lambda i: z3.Implies(z3.And(c >= 0, c < w.S(j)), zreal(v.at(i, c)) == w.T(j, w.X(i, j), c)))
                return PList(Seq(n=w.n, get=lambda i: w.X(zint(i), j)))
            return Native('inverse_transform', inv)
        raise Unsupported('dimension.' + name)


class W:
    pass


def abs_space(E):
    w = W()
    w.D, w.n = E.Int('D'), E.Int('n')
    E.assume(w.D >= 1)
    E.assume(w.n >= 1)
    w.S = z3.Function('S', I, I)
    w.T = z3.Function('T', I, U, I, R)
    w.X = z3.Function('X', I, I, U)
    E.rule_for(w.S, lambda j: w.S(j) >= 1)
    sp = Inst(E.resolve(SPACE + 'Space'))
    sp.f['dimensions'] = PList(Seq(n=w.D, get=lambda j: AbsDim(w, j)))
    w.sp = sp
    w.rows = PList(Seq(n=w.n, get=lambda i: PList(Seq(n=w.D, get=lambda j: w.X(zint(i), zint(j))))))
    return w


def space_round(E):
    w = abs_space(E)
    Xt = meth(E, w.sp, 'transform', w.rows)
    v = Xt.v
    E.require('warped rows', E.eq(v.shape[0], w.n))
    Y = meth(E, w.sp, 'inverse_transform', Xt)
    E.require('as many points', E.eq(length(E, Y), w.n))

    def row(i):
        r = at(E, Y, i)
        E.require('coordinates per point', E.eq(length(E, r), w.D))
        q = E.Int('q')
        E.assume(z3.And(q >= 0, q < w.D))
        return at(E, r, q) == w.X(i, q)
    E.prove_forall('coordinates', w.n, row)


CONTRACTS.append(('Space', space_round))


# ---------------------------------------------------------------- categories
def cats(E, sort):
    """K distinct categories C(0..K-1) of one sort"""
    K = E.Int('K')
    E.assume(K >= 1)
    C = z3.Function('C', I, sort)
    IDX = z3.Function('IDX', sort, I)
    E.rule_for(C, lambda i: z3.Implies(z3.And(i >= 0, i < K), IDX(C(i)) == i))
    return K, C


def cat(tr, sort):
    def c(E):
        K, C = cats(E, sort)
        n = E.Int('n')
        E.assume(n >= 1)
        p = batch(E, I, n, lambda v: z3.And(v >= 0, v < K))
        if tr == 'string':
            STR, IST = z3.Function('str', sort, U), z3.Function('unstr', U, sort)
            # distinct categories have distinct texts (assumed)
            E.rule_for(STR, lambda x: IST(STR(x)) == x)
            E.u_str = lambda E, v: STR(v)
            E.u_type = lambda E, v: ExtV('builtins.object')
        d = E.call(E.resolve(SPACE + 'Categorical'), [PList(Seq(n=K, get=lambda i: C(zint(i))))], dict(transform=tr))
        x = rows(E, n, lambda i: C(p(i)))
        w = meth(E, d, 'transform', x)
        # the space hands each dimension a float block of its columns
        if tr in ('onehot', 'label', 'normalize'):
            w = E.astype(E.to_arr(w), 'f')
        y = meth(E, d, 'inverse_transform', w)
        E.require('length', E.eq(length(E, y), n))
        E.prove_forall('round trip', n, lambda i: E.eq(at(E, y, i), C(p(i))))
    return c


for tr in ('identity', 'onehot', 'label', 'normalize'):
    for nm, sort in (('object', U), ('int', I), ('float', R)):
        CONTRACTS.append(('Categorical %s %s' % (tr, nm), cat(tr, sort)))
CONTRACTS.append(('Categorical string object', cat('string', U)))
