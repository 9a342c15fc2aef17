"""C21: named arguments and points as dictionaries."""
from .opt import *
from .c07 import exc_is

NOTE = ('list to dictionary, dictionary to list, both round trips and the named-argument wrapper proved for every number of dimensions, every order of insertion, '
        'every set of distinct names and every value; a dictionary lacking a name, unnamed dimensions, other objects and wrong numbers of coordinates are refused')
ASSUME = ['names are represented by their rank (only equality and order of names are used)']
UQ = 'skopt.utils:'
NAME = z3.Function('NAME', I, I)        # name (rank) of the dimension inserted at position i
DIM = z3.Function('DIM', I, U)
XV, DV = z3.Function('XV', I, U), z3.Function('DV', I, U)


def names(E, f=NAME):
    n = E.Int('n')
    E.assume(n >= 1)
    WHERE = z3.Function(f.name() + '_at', I, I)
    # distinct names
    E.rule_for(f, lambda i: z3.Implies(z3.And(i >= 0, i < n), WHERE(f(i)) == i))
    return n


def space_dict(E, n):
    d = PDict()
    d.f['sym'] = SymMap(n, lambda i: NAME(zint(i)), lambda i: DIM(zint(i)), distinct=True)
    return d


def point(n, f=XV):
    return PList(Seq(n=n, get=lambda i: f(zint(i))))


def at(E, d, key):
    """entry of a dictionary under a name"""
    return E.dict_get(d, key)


def order(E, n):
    """position (in order of insertion) of the i-th name in sorted order, by the definition of sorting"""
    P = z3.Function('RANKED', I, I)
    Pi = z3.Function('RANKED_inv', I, I)
    E.rule_for(P, lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(P(i) >= 0, P(i) < n, Pi(P(i)) == i)))
    E.rule_for(Pi, lambda i: z3.Implies(z3.And(i >= 0, i < n), z3.And(Pi(i) >= 0, Pi(i) < n, P(Pi(i)) == i)))
    q = z3.Int('oq')
    E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), z3.And(Pi(q) >= 0, Pi(q) < n, P(Pi(q)) == q))))
    return P


def index(E, n, nm='i'):
    i = E.Int(nm)
    E.assume(z3.And(i >= 0, i < n))
    return i


def same_dict(E, sp, d0):
    E.require('the description is left alone', sp.f['sym'] is d0 and not sp.f['d'])


def as_dict(E):
    n = names(E)
    sp = space_dict(E, n)
    d0 = sp.f['sym']
    r = E.force(E.call(E.resolve(UQ + 'point_asdict'), [sp, point(n)], {}))
    E.require('a dictionary', isinstance(r, PDict))
    ks = E.to_seq(E.dict_keys(r))
    dims = E.to_seq(E.call(E.resolve(UQ + 'dimensions_aslist'), [sp], {}))
    E.prove('one entry per dimension', z3.And(zint(ks.n) == n, zint(dims.n) == n))
    i = index(E, n)
    k = E.force(E.seq_at(ks, i))
    E.prove('every coordinate under a name', at(E, r, k) == XV(i))
    # the i-th coordinate belongs to the i-th dimension of the list form
    E.prove('the name of its own dimension', E.seq_at(dims, i) == at(E, sp, k))
    j = E.Int('j')
    E.assume(z3.And(i < j, j < n))
    E.prove('the list form follows the order of the names', k < E.force(E.seq_at(ks, j)))
    same_dict(E, sp, d0)


def no_name_lost(E):
    n = names(E)
    sp = space_dict(E, n)
    r = E.force(E.call(E.resolve(UQ + 'point_asdict'), [sp, point(n)], {}))
    j = index(E, n, 'j')
    E.prove('every dimension has an entry', zbool(E.contains(r, NAME(j))))
    x = E.Int('name')
    E.assume(zbool(E.contains(r, x)))
    E.prove('and nothing else', zbool(E.contains(sp, x)))


def list_dict_list(E):
    n = names(E)
    sp = space_dict(E, n)
    d = E.call(E.resolve(UQ + 'point_asdict'), [sp, point(n)], {})
    back = E.to_seq(E.call(E.resolve(UQ + 'point_aslist'), [sp, d], {}))
    E.prove('as many coordinates', zint(back.n) == n)
    i = index(E, n)
    E.prove('list to dictionary and back', E.seq_at(back, i) == XV(i))


def entries(E, n, extra=0):
    """a dictionary naming the same dimensions in its own order, with further names"""
    P = order(E, n)
    m = n
    d = PDict()
    if extra:
        m = E.Int('m')
        E.assume(m >= n)
        K = z3.Function('EXTRA', I, I)
        W, W2 = z3.Function('EXTRA_at', I, I), z3.Function('NAME_at2', I, I)
        E.rule_for(K, lambda i: z3.Implies(z3.And(i >= n, i < m), W(K(i)) == i))
        q = z3.Int('eq')
        key = lambda i: z3.If(zint(i) < n, NAME(P(zint(i))), K(zint(i)))
        a = z3.Int('ea')
        E.assume(z3.ForAll([q, a], z3.Implies(z3.And(q >= n, q < m, a >= 0, a < n), K(q) != NAME(a))))
    else:
        key = lambda i: NAME(P(zint(i)))
    d.f['sym'] = SymMap(m, key, lambda i: DV(zint(i)), distinct=True)
    return d


def as_list(extra):
    def c(E):
        n = names(E)
        sp = space_dict(E, n)
        d = entries(E, n, extra)
        r = E.to_seq(E.call(E.resolve(UQ + 'point_aslist'), [sp, d], {}))
        dims = E.to_seq(E.call(E.resolve(UQ + 'dimensions_aslist'), [sp], {}))
        E.prove('one coordinate per dimension', z3.And(zint(r.n) == n, zint(dims.n) == n))
        i = index(E, n)
        j = index(E, n, 'j')
        E.assume(E.seq_at(dims, i) == DIM(j))
        W = z3.Function('DIM_at', U, I)
        q = z3.Int('dj')
        E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), W(DIM(q)) == q)))
        E.prove('each value in the place of its own dimension', E.seq_at(r, i) == at(E, d, NAME(j)))
    return c


def dict_list_dict(E):
    n = names(E)
    sp = space_dict(E, n)
    d = entries(E, n)
    x = E.call(E.resolve(UQ + 'point_aslist'), [sp, d], {})
    r = E.force(E.call(E.resolve(UQ + 'point_asdict'), [sp, x], {}))
    j = index(E, n, 'j')
    E.prove('dictionary to list and back', at(E, r, NAME(j)) == at(E, d, NAME(j)))


def lacking(E):
    n = names(E)
    sp = space_dict(E, n)
    m = E.Int('m')
    E.assume(m >= 0)
    K = z3.Function('KEY', I, I)
    W = z3.Function('KEY_at', I, I)
    E.rule_for(K, lambda i: z3.Implies(z3.And(i >= 0, i < m), W(K(i)) == i))
    d = PDict()
    d.f['sym'] = SymMap(m, lambda i: K(zint(i)), lambda i: DV(zint(i)), distinct=True)
    j = index(E, n, 'j')
    q = z3.Int('kq')
    E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m), K(q) != NAME(j))))
    kind, e = outcome(E, lambda: E.call(E.resolve(UQ + 'point_aslist'), [sp, d], {}))
    E.require('a name is missing: refused', kind == 'raise' and exc_is(e, 'KeyError'))


# ------------------------------------------------------------ use_named_args
NAMED, TYPED = z3.Function('NAMED', I, B), z3.Function('TYPED', I, B)


class NDim(NatObj):
    """a dimension, or some other object"""
    def __init__(self, k):
        NatObj.__init__(self)
        self.k = k

    def py_subst(self, E, sub):
        return NDim(z3.substitute(zint(self.k), *sub))

    def py_isinstance(self, E, cls):
        if isinstance(cls, ClassV) and cls.name == 'Dimension':
            return TYPED(zint(self.k))
        raise Unsupported('isinstance of %r' % (cls,))

    def py_getattr(self, E, name):
        if name == 'name':
            return E.vite(NAMED(zint(self.k)), NAME(zint(self.k)), None)
        raise Unsupported('dimension.' + name)


def wrapped(good, names_ok=True, lengths='same'):
    def c(E):
        n = names(E)
        dims = PList(Seq(n=n, get=lambda i: NDim(zint(i))))
        q = z3.Int('tq')
        every = lambda P: z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), P(q)))
        bad = index(E, n, 'bad')
        E.assume(every(TYPED) if good else z3.Not(TYPED(bad)))
        E.assume(every(NAMED) if names_ok else z3.Not(NAMED(bad)))
        got = []
        ret = OpaqueObj('value')

        def f(E, a, k):
            got.append((list(a), dict(k)))
            return ret
        kind, w = outcome(E, lambda: E.call(E.call(E.resolve(UQ + 'use_named_args'), [dims], {}), [Native('objective', f)], {}))
        if not good or not names_ok:
            E.require('refused', kind == 'raise' and exc_is(w, 'ValueError') and not got)
            return
        E.require('a function', kind == 'ok')
        m = E.Int('m')
        E.assume(m == n if lengths == 'same' else z3.And(m >= 0, m != n))
        kind, r = outcome(E, lambda: E.call(w, [point(m)], {}))
        if lengths != 'same':
            E.require('a wrong number of coordinates is refused', kind == 'raise' and exc_is(r, 'ValueError') and not got)
            return
        E.require('called once, by name only', kind == 'ok' and len(got) == 1 and not got[0][0])
        E.require('its value is returned', E.force(r) is ret)
        kw = got[0][1]
        E.require('one set of names', set(kw) == {'**'})
        i = index(E, n)
        E.prove('each coordinate under the name of its dimension', at(E, kw['**'], NAME(i)) == XV(i))
        ks = E.to_seq(E.dict_keys(kw['**']))
        E.prove('and nothing else', zint(ks.n) == n)
    return c


CONTRACTS = [('point as dictionary', as_dict), ('dictionary has exactly the names', no_name_lost), ('list to dictionary to list', list_dict_list),
             ('dictionary as list', as_list(0)), ('dictionary with further names as list', as_list(1)), ('dictionary to list to dictionary', dict_list_dict),
             ('dictionary lacking a name', lacking), ('named arguments', wrapped(True)), ('named arguments: other objects', wrapped(False)),
             ('named arguments: unnamed dimensions', wrapped(True, False)), ('named arguments: wrong number of coordinates', wrapped(True, True, 'other'))]
