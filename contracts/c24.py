"""C24: distances are metrics, equality of spaces is structural."""
from .opt import *
from .c01 import cats
from .c07 import exc_is

NOTE = ('distances of every dimension proved equal to |a-b| (0/1 for categories) with the metric laws, refused outside, the distance of a space proved to be the sum over '
        'any number of dimensions and the laws lifted to sums by induction; equality of dimensions and of spaces of any length proved structural')
ASSUME = ['bounds of real dimensions are compared within numpy.allclose (1e-8 absolute plus 1e-5 relative)', 'floats are mathematical reals']


def dist(E, d, a, b):
    return outcome(E, lambda: E.call(E.getattr(d, 'distance'), [a, b], {}))


def laws(E, ds, eqs, what=''):
    """ds: distances ab, ba, bc, ac; eqs: ab equal?"""
    ab, ba, bc, ac = ds
    E.prove('never negative', ab >= 0)
    E.prove('zero exactly for equal points', (ab == 0) == eqs)
    E.prove('symmetric', ab == ba)
    E.prove('triangle inequality', ac <= ab + bc)


def ranged(kind, prior, transform):
    def c(E):
        mk = real_dim if kind == 'Real' else int_dim
        d, lo, hi, _ = mk(E, prior, transform)
        S = E.Real if kind == 'Real' else E.Int
        a, b, e = S('a'), S('b'), S('c')
        ins = [z3.And(x >= lo, x <= hi) for x in (a, b, e)]
        k, r = dist(E, d, a, b)
        if k == 'raise':
            E.require('an error', exc_is(r, 'RuntimeError'))
            E.prove('only refused outside', z3.Not(z3.And(ins[0], ins[1])))
            return
        E.prove('refused outside', z3.And(ins[0], ins[1]))
        ab = zreal(E.force(r))
        E.prove('the absolute difference', ab == z3.If(a >= b, zreal(a) - zreal(b), zreal(b) - zreal(a)))
        E.assume(ins[2])
        rest = []
        for x, y in ((b, a), (b, e), (a, e)):
            k, r = dist(E, d, x, y)
            E.require('points of the dimension have a distance', k == 'ok')
            rest.append(zreal(E.force(r)))
        laws(E, [ab] + rest, a == b)
    return c


def categorical(transform):
    def c(E):
        K, C = cats(E, I)
        d = E.call(E.resolve(SPACE + 'Categorical'), [PList(Seq(n=K, get=lambda i: C(zint(i))))], dict(transform=transform))
        ps = [E.Int('p%d' % i) for i in range(3)]
        for p in ps:
            E.assume(z3.And(p >= 0, p < K))
        a, b, e = [C(p) for p in ps]
        out = []
        for x, y in ((a, b), (b, a), (b, e), (a, e)):
            k, r = dist(E, d, x, y)
            E.require('points of the dimension have a distance', k == 'ok')
            out.append(zreal(E.force(r)))
        E.prove('zero or one', z3.Or(out[0] == 0, out[0] == 1))
        laws(E, out, a == b)
        z = E.Int('outside')
        q = z3.Int('cq')
        E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < K), C(q) != z)))
        for x, y in ((z, a), (a, z), (z, z)):
            k, r = dist(E, d, x, y)
            E.require('refused outside', k == 'raise' and exc_is(r, 'RuntimeError'))
    return c


class DDim(NatObj):
    """dimension j of an arbitrary space: DIST(j, a, b), EQUAL to another by EQ"""
    tyname = 'skopt.space.space.Dimension'

    def __init__(self, h, j, side=0):
        NatObj.__init__(self)
        self.h, self.j, self.side = h, j, side

    def py_subst(self, E, sub):
        return DDim(self.h, z3.substitute(zint(self.j), *sub), self.side)

    def py_isinstance(self, E, cls):
        return isinstance(cls, ClassV) and cls.name == 'Dimension'

    def py_eq(self, E, o):
        if not isinstance(o, DDim):
            return False
        a, b = (self, o) if self.side <= o.side else (o, self)
        if a.side == b.side:
            raise Unsupported('comparison within one space')
        return self.h.EQ(zint(a.j), zint(b.j))

    def py_getattr(self, E, name):
        if name == 'distance':
            def f(E, a, k):
                x, y = [E.force(v) for v in a]
                E.require('coordinates of the same dimension', is_z3(x) and is_z3(y) and is_u(x) and is_u(y))
                E.prove('coordinate of the first point', x == self.h.A(zint(self.j)))
                E.prove('coordinate of the second point', y == self.h.B(zint(self.j)))
                return self.h.DIST(zint(self.j), x, y)
            return Native('distance', f)
        if name == 'size':
            return 1
        raise Unsupported('dimension.' + name)


class H:
    def __init__(self):
        self.DIST = z3.Function('DIST', I, U, U, R)
        self.EQ = z3.Function('EQUAL', I, I, B)
        self.A, self.B = z3.Function('XA', I, U), z3.Function('XB', I, U)


def space_distance(E):
    h = H()
    n = E.Int('n')
    E.assume(n >= 1)
    sp = E.call(E.resolve(SPACE + 'Space'), [PList(Seq(n=n, get=lambda i: DDim(h, zint(i))))], {})
    pa, pb = [PList(Seq(n=n, get=lambda i, f=f: f(zint(i)))) for f in (h.A, h.B)]
    r = zreal(E.force(E.call(E.getattr(sp, 'distance'), [pa, pb], {})))
    k = z3.Int('dk')
    E.prove('sum over the dimensions', r == E.sum_term(n, k, h.DIST(k, h.A(k), h.B(k))))


def one_refuses(E):
    """a dimension that refuses a coordinate makes the space refuse"""
    for n in (1, 2, 3):
        for bad in range(n):
            ds = [E.call(E.resolve(SPACE + 'Real'), [0, 1], {}) for _ in range(n)]
            sp = E.call(E.resolve(SPACE + 'Space'), [PList(ds)], {})
            v = E.Real('v')
            E.assume(z3.Or(v < 0, v > 1))
            p = [E.Real('p') for _ in range(n)]
            for x in p:
                E.assume(z3.And(x >= 0, x <= 1))
            q = list(p)
            q[bad] = v
            for a, b in ((p, q), (q, p)):
                k, r = outcome(E, lambda: E.call(E.getattr(sp, 'distance'), [PList(list(a)), PList(list(b))], {}))
                E.require('refused', k == 'raise' and exc_is(r, 'RuntimeError'))


def sum_laws(E):
    """metric laws carry over to sums: induction on the number of dimensions"""
    n = E.Int('n')
    E.assume(n >= 0)
    AB, BA, BC, AC = [E.Real('S' + x) for x in ('ab', 'ba', 'bc', 'ac')]
    eq = E.Bool('equal so far')
    inv = lambda ab, ba, bc, ac, e: z3.And(ab >= 0, (ab == 0) == e, ab == ba, ac <= ab + bc)
    E.prove('no dimensions', inv(*[z3.RealVal(0)] * 4, z3.BoolVal(True)))
    ab, ba, bc, ac = [E.Real('d' + x) for x in ('ab', 'ba', 'bc', 'ac')]
    e = E.Bool('equal here')
    E.assume(z3.And(inv(AB, BA, BC, AC, eq), inv(ab, ba, bc, ac, e)))
    E.prove('one more dimension', inv(AB + ab, BA + ba, BC + bc, AC + ac, z3.And(eq, e)))


# ---------------------------------------------------------------- equality
def equal(E, a, b):
    r = E.eq(a, b)
    return zbool(r)


def spaces_equal(E):
    h = H()
    n, m = E.Int('n'), E.Int('m')
    E.assume(z3.And(n >= 0, m >= 0))
    mk = lambda N, s: E.call(E.resolve(SPACE + 'Space'), [PList(Seq(n=N, get=lambda i: DDim(h, zint(i), s)))], {})
    a, b = mk(n, 0), mk(m, 1)
    r = equal(E, a, b)
    i = E.Int('i')
    E.assume(z3.And(i >= 0, i < n))
    if E.decide(r):
        E.prove('equal spaces have as many dimensions', n == m)
        E.prove('and equal dimensions', h.EQ(i, i))
    else:
        q = z3.Int('q')
        E.prove('different otherwise only', z3.Not(z3.And(n == m, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < n), h.EQ(q, q))))))


def empty_spaces(E):
    mk = lambda ds: E.call(E.resolve(SPACE + 'Space'), [PList(ds)], {})
    d = lambda: E.call(E.resolve(SPACE + 'Real'), [0, 1], {})
    E.prove('two empty spaces', equal(E, mk([]), mk([])))
    for n in (1, 2):
        E.prove('an empty space equals no other', z3.Not(z3.Or(equal(E, mk([]), mk([d() for _ in range(n)])), equal(E, mk([d() for _ in range(n)]), mk([])))))


def close(x, y):
    x, y = zreal(x), zreal(y)
    ab = lambda t: z3.If(t >= 0, t, -t)
    return ab(x - y) <= z3.RealVal('1e-8') + z3.RealVal('1e-5') * ab(y)


def ranged_equal(kind):
    def c(E):
        S = E.Real if kind == 'Real' else E.Int
        lo, hi, lo2, hi2 = S('lo'), S('hi'), S('lo2'), S('hi2')
        E.assume(z3.And(lo > 0, lo < hi, lo2 > 0, lo2 < hi2))
        cls = E.resolve(SPACE + kind)
        for p in ('uniform', 'log-uniform'):
            for t in ('identity', 'normalize'):
                a = E.call(cls, [lo, hi], dict(prior=p, transform=t, name=OpaqueStr()))
                same = E.call(cls, [lo, hi], dict(prior=p, transform=t, name=OpaqueStr()))
                E.prove('equal to its like', equal(E, a, same))
                for p2 in ('uniform', 'log-uniform'):
                    for t2 in ('identity', 'normalize'):
                        b = E.call(cls, [lo2, hi2], dict(prior=p2, transform=t2))
                        r = equal(E, a, b)
                        bounds = z3.And(close(lo, lo2), close(hi, hi2)) if kind == 'Real' else z3.And(lo == lo2, hi == hi2)
                        if p != p2:
                            E.prove('other priors are never equal', z3.Not(r))
                        elif t == t2:
                            E.prove('equal exactly for the same bounds', r == bounds)
                        else:
                            E.prove('other bounds are never equal', z3.Implies(r, bounds))
                        # both ways round
                        if kind == 'Integer':
                            E.prove('symmetric', r == equal(E, b, a))
    return c


def kinds(E):
    lo, hi = E.Int('lo'), E.Int('hi')
    E.assume(z3.And(lo > 0, lo < hi))
    mk = lambda k, *a, **kw: E.call(E.resolve(SPACE + k), list(a), kw)
    for p in ('uniform', 'log-uniform'):
        ds = [mk('Real', lo, hi, prior=p), mk('Integer', lo, hi, prior=p), mk('Categorical', (lo, hi)), mk('Categorical', PList([lo, hi]), transform='label')]
        for i, a in enumerate(ds[:3]):
            for j, b in enumerate(ds[:3]):
                if i != j:
                    E.prove('kinds are never equal', z3.Not(equal(E, a, b)))
        E.prove('same categories', equal(E, ds[2], ds[3]))


def cat_equal(E):
    K, K2 = E.Int('K'), E.Int('K2')
    E.assume(z3.And(K >= 1, K2 >= 1))
    C, C2 = z3.Function('C', I, I), z3.Function('C2', I, I)
    W, W2 = z3.Function('C_at', I, I), z3.Function('C2_at', I, I)
    E.rule_for(C, lambda i: z3.Implies(z3.And(i >= 0, i < K), W(C(i)) == i))
    E.rule_for(C2, lambda i: z3.Implies(z3.And(i >= 0, i < K2), W2(C2(i)) == i))
    mk = lambda k, f: E.call(E.resolve(SPACE + 'Categorical'), [PList(Seq(n=k, get=lambda i: f(zint(i))))], dict(transform='label'))
    a, b = mk(K, C), mk(K2, C2)
    r = equal(E, a, b)
    if E.decide(r):
        E.prove('as many categories', K == K2)
        i = E.Int('i')
        E.assume(z3.And(i >= 0, i < K))
        E.prove('the same in order', C(i) == C2(i))
    else:
        q = z3.Int('q')
        E.prove('different categories', z3.Not(z3.And(K == K2, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < K), C(q) == C2(q))))))


def cat_priors(E):
    K = E.Int('K')
    E.assume(K >= 1)
    C = z3.Function('C', I, I)
    W = z3.Function('C_at', I, I)
    E.rule_for(C, lambda i: z3.Implies(z3.And(i >= 0, i < K), W(C(i)) == i))
    Q = [z3.Function('PROB%d' % i, I, R) for i in (0, 1)]
    mk = lambda f: E.call(E.resolve(SPACE + 'Categorical'), [PList(Seq(n=K, get=lambda i: C(zint(i)))), PList(Seq(n=K, get=lambda i: f(zint(i))))], dict(transform='label'))
    a, b = mk(Q[0]), mk(Q[1])
    r = equal(E, a, b)
    if E.decide(r):
        i = E.Int('i')
        E.assume(z3.And(i >= 0, i < K))
        E.prove('the same priors', close(Q[0](i), Q[1](i)))
    else:
        q = z3.Int('q')
        E.prove('different priors', z3.Not(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < K), Q[0](q) == Q[1](q)))))


CONTRACTS = ([('distance %s %s %s' % (k, p, t), ranged(k, p, t)) for k in ('Real', 'Integer') for p in ('uniform', 'log-uniform') for t in ('identity', 'normalize')] +
             [('distance Categorical %s' % t, categorical(t)) for t in ('onehot', 'label', 'normalize', 'identity')] +
             [('distance in a space', space_distance), ('a refused coordinate', one_refuses), ('laws of sums', sum_laws), ('equal spaces', spaces_equal),
              ('empty spaces', empty_spaces), ('equal Real', ranged_equal('Real')), ('equal Integer', ranged_equal('Integer')), ('different kinds', kinds),
              ('equal categories', cat_equal), ('priors of categories', cat_priors)])
