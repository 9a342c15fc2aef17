"""C03: every decoded or sampled point lies inside the search space."""
from .common import *
import pvc.engine  # noqa: F401
from pvc.lib import RngObj
from .c01 import AbsDim, abs_space, cats

ASSUME = ['floats are mathematical reals (float32/float16 dtypes only by the bounded search)',
          'fewer than 10**9 categories under normalize',
          'scipy uniform/randint/rv_discrete draw inside their documented support (contract on the dependency)']
NOTE = ('decoding of every (even out-of-bounds) warped row and every random draw proved to be in the dimension for all bounds, bases, '
        'sizes and numbers of dimensions over the reals; the draw support of scipy distributions is assumed')


def member(E, d, v):
    r = E.contains(d, v)
    return zbool(r) if not isinstance(r, bool) else z3.BoolVal(r)


def typed(E, kind, dt, w):
    """container of the declared type"""
    if isinstance(w, ArrObj):
        E.require('array of the declared dtype', w.v.dtype == ('f' if kind == 'Real' else 'i'))


def num(kind, prior, transform, dt, src):
    def c(E):
        mk = real_dim if kind == 'Real' else int_dim
        d, lo, hi, b = mk(E, prior, transform, E.ext(dt))
        n = E.Int('n')
        E.assume(n >= 1)
        if src == 'decode':
            T = z3.Function('T', I, R)
            if transform == 'normalize':
                # rows inside the bounds, give or take rounding
                E.rule_for(T, lambda i: z3.And(T(i) >= -z3.Q(1, 10**9), T(i) <= 1 + z3.Q(1, 10**9)))
            w = meth(E, d, 'inverse_transform', E.arr((n,), lambda i: T(zint(i)), 'f'))
            E.require('as many values', E.eq(length(E, w), n))
            lst = meth(E, d, 'inverse_transform', rows(E, n, lambda i: T(i)))
            E.require('as many values from a list', E.eq(length(E, lst), n))
            E.prove_forall('list row decodes inside', n, lambda i: z3.And(znum(at(E, lst, i)) >= lo, znum(at(E, lst, i)) <= hi))
        else:
            w = meth(E, d, 'rvs', n_samples=n, random_state=RngObj('rng'))
            E.require('as many values', E.eq(length(E, w), n))
        typed(E, kind, dt, w)
        e0 = at(E, w, E.index_const('t'))
        E.require('value type', is_real(e0) if kind == 'Real' else is_int(e0))
        E.prove_forall('not below', n, lambda i: znum(at(E, w, i)) >= lo)
        E.prove_forall('not above', n, lambda i: znum(at(E, w, i)) <= hi)
        E.prove_forall('reported as a member', n, lambda i: member(E, d, at(E, w, i)))
    return c


def znum(x):
    return zint(x) if is_int(x) else zreal(x)


def cat(tr, sort, src):
    def c(E):
        K, C = cats(E, sort)
        n = E.Int('n')
        E.assume(n >= 1)
        if tr == 'normalize':
            E.assume(K <= 10 ** 9)      # the draw reaches one ulp above 1
        kw = dict(transform=tr)
        d = E.call(E.resolve(SPACE + 'Categorical'), [PList(Seq(n=K, get=lambda i: C(zint(i))))], kw)
        if src == 'decode':
            size = E.getattr(d, 'transformed_size')
            if E.decide(zint(size) == 1):
                top = {'label': zreal(K) - 1}.get(tr, z3.RealVal(1))
                T = z3.Function('T', I, R)
                E.rule_for(T, lambda i: z3.And(T(i) >= 0, T(i) <= top))
                a = E.arr((n,), lambda i: T(zint(i)), 'f')
            else:
                T2 = z3.Function('T2', I, I, R)
                E.rule_for(T2, lambda i, q: z3.And(T2(i, q) >= 0, T2(i, q) <= 1))
                a = E.arr((n, size), lambda i, q: T2(zint(i), zint(q)), 'f')
            w = meth(E, d, 'inverse_transform', a)
        else:
            w = meth(E, d, 'rvs', n_samples=n, random_state=RngObj('rng'))
        E.require('as many values', E.eq(length(E, w), n))

        def mem(i):
            v = at(E, w, i)
            if sort == I:
                v = zint(v)
            ix = z3.Function('IDX', sort, I)(v)     # inverse of the category list on its range
            return z3.And(ix >= 0, ix < K, C(ix) == v)
        E.prove_forall('one of the categories', n, mem)
    return c


class MDim(AbsDim):
    """dimension j: draws and decodings are members; a decoding must be handed its own in-bounds columns"""

    def py_subst(self, E, sub):
        return MDim(self.w, z3.substitute(zint(self.j), *sub))

    def py_getattr(self, E, name):
        w, j = self.w, zint(self.j)
        if name == 'rvs':
            def rvs(E, a, k):
                E.require('asks every dimension for the same number', E.eq(k.get('n_samples', a[0] if a else None), w.n))
                E.require('hands its own generator on', k.get('random_state', a[1] if len(a) > 1 else None) is w.rng)
                return PList(Seq(n=w.n, get=lambda i: w.X(zint(i), j)))
            return Native('rvs', rvs)
        if name == 'transformed_bounds':
            if E.decide(w.S(j) == 1):
                return (w.LO(j, z3.IntVal(0)), w.HI(j, z3.IntVal(0)))
            return PList(Seq(n=w.S(j), get=lambda c: (w.LO(j, zint(c)), w.HI(j, zint(c)))))
        if name == 'inverse_transform':
            def inv(E, a, k):
                v = E.to_arr(a[0]).v
                E.prove('dimension is handed one row per point', zint(v.shape[0]) == zint(w.n))
                inb = lambda x, c: z3.And(w.LO(j, c) <= x, x <= w.HI(j, c))
                if E.decide(w.S(j) == 1):
                    E.require('a column', v.ndim == 1)
                    E.prove_forall('its own column', w.n, lambda i: inb(zreal(v.at(i)), z3.IntVal(0)))
                else:
                    E.require('a block', v.ndim == 2)
                    E.prove('block width', zint(v.shape[1]) == w.S(j))
                    c = E.Int('c')
                    E.assume(z3.And(c >= 0, c < w.S(j)))
                    E.prove_forall('its own columns', w.n, lambda i: inb(zreal(v.at(i, c)), c))
                return PList(Seq(n=w.n, get=lambda i: w.X(zint(i), j)))
            return Native('inverse_transform', inv)
        if name == 'transform':
            raise Unsupported('transform')
        return AbsDim.py_getattr(self, E, name)


def rows_ok(E, w, Y):
    E.require('as many points', E.eq(length(E, Y), w.n))

    def row(i):
        r = at(E, Y, i)
        E.require('coordinates per point', E.eq(length(E, r), w.D))
        q = E.Int('q')
        E.assume(z3.And(q >= 0, q < w.D))
        return at(E, r, q) == w.X(i, q)
    E.prove_forall('coordinate j is a value of dimension j', w.n, row)


def mspace(E):
    w = abs_space(E)
    w.LO, w.HI = z3.Function('LO', I, I, R), z3.Function('HI', I, I, R)
    w.sp.f['dimensions'] = PList(Seq(n=w.D, get=lambda j: MDim(w, j)))
    return w


def space_rvs(E):
    w = mspace(E)
    w.rng = RngObj('rng')
    rows_ok(E, w, meth(E, w.sp, 'rvs', n_samples=w.n, random_state=w.rng))


def space_decode(E):
    w = mspace(E)
    tb = E.getattr(w.sp, 'transformed_bounds')
    tn = E.length(tb)
    Z = z3.Function('Z', I, I, R)

    def bound(i, c):
        p = at(E, tb, c)
        return z3.And(Z(i, c) >= zreal(at(E, p, 0)), Z(i, c) <= zreal(at(E, p, 1)))
    c, i = E.index_const('c'), E.index_const('i')
    f = E.formula_of(lambda k: bound(i, k), c, z3.And(c >= 0, c < zint(tn)))
    E.rule_for(Z, lambda a, b: z3.Implies(z3.And(b >= 0, b < zint(tn)), z3.substitute(f, (i, a), (c, b))))
    Xt = E.arr((w.n, tn), lambda a, b: Z(zint(a), zint(b)), 'f')
    rows_ok(E, w, meth(E, w.sp, 'inverse_transform', Xt))


CONTRACTS = []
for src in ('decode', 'draw'):
    for kind, dts in (('Real', ('builtins.float', 'numpy.float64')), ('Integer', ('builtins.int', 'numpy.int64'))):
        for prior in ('uniform', 'log-uniform'):
            for tr in ('identity', 'normalize'):
                for dt in dts:
                    CONTRACTS.append(('%s %s %s %s %s' % (src, kind, prior, tr, dt.split('.')[-1]), num(kind, prior, tr, dt, src)))
    for tr in ('onehot', 'label', 'normalize') + (('identity',) if src == 'draw' else ()):
        for nm, sort in (('object', U), ('int', I)):
            CONTRACTS.append(('%s Categorical %s %s' % (src, tr, nm), cat(tr, sort, src)))
CONTRACTS += [('Space.rvs', space_rvs), ('Space.inverse_transform', space_decode)]
