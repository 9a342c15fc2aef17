"""C02: declared warped bounds and widths are what warping produces."""
from .common import *
from .c01 import AbsDim, abs_space, cats

ASSUME = ['floats are mathematical reals (rounding is covered by the bounded search only)']
NOTE = ('declared bounds, widths, ends and in-bounds obligations discharged for every bound, base, batch size and number of dimensions '
        'over the reals; rounding overshoot only by the bounded search')


def num(kind, prior, transform, dt):
    def c(E):
        mk = real_dim if kind == 'Real' else int_dim
        d, lo, hi, b = mk(E, prior, transform, E.ext(dt))
        n = E.Int('n')
        E.assume(n >= 1)
        X = batch(E, R if kind == 'Real' else I, n, lambda v: z3.And(v >= lo, v <= hi))
        w = meth(E, d, 'transform', rows(E, n, lambda i: X(i)))
        E.require('one column', E.eq(E.getattr(d, 'transformed_size'), 1))
        tb = E.getattr(d, 'transformed_bounds')
        E.require('two bounds', E.eq(E.length(tb), 2))
        b0, b1 = zreal(at(E, tb, 0)), zreal(at(E, tb, 1))
        E.require('rows', E.eq(length(E, w), n))
        if isinstance(w, ArrObj):
            E.require('column is one-dimensional', w.v.ndim == 1)
        E.prove_forall('not below the lower warped bound', n, lambda i: zreal(at(E, w, i)) >= b0)
        E.prove_forall('not above the upper warped bound', n, lambda i: zreal(at(E, w, i)) <= b1)
        ends = meth(E, d, 'transform', PList([lo, hi]))
        E.prove('lower end', zreal(at(E, ends, 0)) == b0)
        E.prove('upper end', zreal(at(E, ends, 1)) == b1)
        # the same after switching the transform back and forth
        for other in ('normalize', 'identity', transform):
            meth(E, d, 'set_transformer', other)
            tb = E.getattr(d, 'transformed_bounds')
            e2 = meth(E, d, 'transform', PList([lo, hi]))
            E.prove('lower end after switching to ' + other, zreal(at(E, e2, 0)) == zreal(at(E, tb, 0)))
            E.prove('upper end after switching to ' + other, zreal(at(E, e2, 1)) == zreal(at(E, tb, 1)))
    return c


def cat(tr, sort):
    def c(E):
        K, C = cats(E, sort)
        n = E.Int('n')
        E.assume(n >= 1)
        p = batch(E, I, n, lambda v: z3.And(v >= 0, v < K))
        d = E.call(E.resolve(SPACE + 'Categorical'), [PList(Seq(n=K, get=lambda i: C(zint(i))))], dict(transform=tr))
        w = meth(E, d, 'transform', rows(E, n, lambda i: C(p(i))))
        w = E.astype(E.to_arr(w), 'f')
        size = E.getattr(d, 'transformed_size')
        tb = E.getattr(d, 'transformed_bounds')
        if tr == 'onehot':
            E.prove('declared width', z3.If(K == 2, 1, K) == zint(size))
        else:
            E.require('declared width', E.eq(size, 1))
        v = w.v
        E.require('rows', E.eq(v.shape[0], n))
        if E.decide(zint(size) == 1):
            E.require('one column', v.ndim == 1 or E.eq(v.shape[1], 1))
            el = (lambda i: zreal(v.at(i))) if v.ndim == 1 else (lambda i: zreal(v.at(i, 0)))
            b0, b1 = zreal(at(E, tb, 0)), zreal(at(E, tb, 1))
            E.require('a single pair', E.eq(E.length(tb), 2))
            E.prove_forall('not below', n, lambda i: el(i) >= b0)
            E.prove_forall('not above', n, lambda i: el(i) <= b1)
        else:
            E.require('block', v.ndim == 2)
            E.prove('block width', zint(v.shape[1]) == zint(size))
            E.require('one pair per column', E.eq(E.length(tb), size))
            q = E.Int('q')
            E.assume(z3.And(q >= 0, q < zint(size)))
            pr = at(E, tb, q)
            E.prove_forall('not below', n, lambda i: zreal(v.at(i, q)) >= zreal(at(E, pr, 0)))
            E.prove_forall('not above', n, lambda i: zreal(v.at(i, q)) <= zreal(at(E, pr, 1)))
    return c


class BDim(AbsDim):
    def py_getattr(self, E, name):
        w, j = self.w, zint(self.j)
        if name == 'transformed_bounds':
            if E.decide(w.S(j) == 1):
                return (w.LO(j, z3.IntVal(0)), w.HI(j, z3.IntVal(0)))
            return PList(Seq(n=w.S(j), get=lambda c: (w.LO(j, zint(c)), w.HI(j, zint(c)))))
        return AbsDim.py_getattr(self, E, name)

    def py_subst(self, E, sub):
        return BDim(self.w, z3.substitute(zint(self.j), *sub))


def space(E):
    """the space concatenates: width = sum of widths, and column c of dimension j sits at the
    same offset in the warped rows and in the declared bounds"""
    w = abs_space(E)
    w.LO, w.HI = z3.Function('LO', I, I, R), z3.Function('HI', I, I, R)
    E.rule_for(w.T, lambda j, x, c: z3.And(w.LO(j, c) <= w.T(j, x, c), w.T(j, x, c) <= w.HI(j, c)))
    w.sp.f['dimensions'] = PList(Seq(n=w.D, get=lambda j: BDim(w, j)))
    Xt = meth(E, w.sp, 'transform', w.rows)
    tn = E.getattr(w.sp, 'transformed_n_dims')
    tb = E.getattr(w.sp, 'transformed_bounds')
    E.require('rows', E.eq(Xt.v.shape[0], w.n))
    E.prove('warped rows have the declared width', zint(Xt.v.shape[1]) == zint(tn))
    E.prove('as many bound pairs as columns', zint(E.length(tb)) == zint(tn))
    q = E.Int('col')
    E.assume(z3.And(q >= 0, q < zint(tn)))
    pr = at(E, tb, q)
    E.prove_forall('entry not below its bound', w.n, lambda i: zreal(Xt.v.at(i, q)) >= zreal(at(E, pr, 0)))
    E.prove_forall('entry not above its bound', w.n, lambda i: zreal(Xt.v.at(i, q)) <= zreal(at(E, pr, 1)))


CONTRACTS = []
for kind, dts in (('Real', ('builtins.float', 'numpy.float64')), ('Integer', ('builtins.int', 'numpy.int64'))):
    for prior in ('uniform', 'log-uniform'):
        for tr in ('identity', 'normalize'):
            for dt in dts[:1] if tr == 'identity' else dts:
                CONTRACTS.append(('%s %s %s %s' % (kind, prior, tr, dt.split('.')[-1]), num(kind, prior, tr, dt)))
for tr in ('onehot', 'label', 'normalize'):
    for nm, sort in (('object', U), ('int', I), ('float', R)):
        CONTRACTS.append(('Categorical %s %s' % (tr, nm), cat(tr, sort)))
CONTRACTS.append(('Space', space))
