"""C19: every initial-point generator returns exactly n points of the space and leaves the space as it was."""
from .opt import *
from pvc.lib import RngObj
from .c07 import exc_is

NOTE = ('for every generator and option, every number of points and dimensions: the matrix handed to the space has exactly one row per requested point and one entry of [0,1] per dimension, it is '
        'decoded while every dimension is normalized, the result is exactly those decoded points, and the transforms found are put back; only the given generator is drawn from')
ASSUME = ['decoding entries of [0,1] of normalized dimensions gives members, one per row (C03)', 'rng.rand draws from [0,1), rng.permutation gives a permutation, rng.shuffle permutes the rows',
          'arithmetic on reals', 'fewer than 10**9 grid entries (beyond, MemoryError is documented behaviour)']
SQ = 'skopt.sampler.'
MEM = z3.Function('MEMBER', U, B)
TRN = z3.Function('TRANSFORM', I, U)


class GSpace(NatObj):
    """a space of D dimensions: what transform its dimensions are in, and what is decoded"""
    tyname = 'skopt.space.space.Space'

    def __init__(self, s):
        NatObj.__init__(self)
        self.s = s

    def py_subst(self, E, sub):
        return self

    def py_getattr(self, E, name):
        s = self.s
        if name == 'n_dims':
            return s.D
        if name == 'dimensions':
            return s.dims
        if name == 'get_transformer':
            def get(E, a, k):
                m = s.mode.f['m']
                if m == 'found':
                    return PList(Seq(n=s.D, get=lambda j: TRN(zint(j))))
                return PList(Seq(n=s.D, get=lambda j: m))
            return Native('get_transformer', get)
        if name == 'set_transformer':
            def set_(E, a, k):
                v = E.force(a[0] if a else k['transform'])
                if isinstance(v, str):
                    E.setf(s.mode, 'm', v)
                    return None
                v = E.to_seq(v)
                E.prove('the transforms put back', zint(v.n) == zint(s.D))
                q = E.Int('q')
                E.assume(z3.And(q >= 0, q < s.D))
                x = E.force(E.seq_at(v, q))
                if isinstance(x, str):
                    E.setf(s.mode, 'm', x)
                else:
                    E.prove('the transforms put back are the ones found', E.eq(x, TRN(q)))
                    E.setf(s.mode, 'm', 'found')
                return None
            return Native('set_transformer', set_)
        if name == 'inverse_transform':
            def inv(E, a, k):
                v = E.to_arr(a[0]).v
                E.require('decoded while normalized', s.mode.f['m'] == 'normalize')
                E.require('a matrix is decoded', v.ndim == 2)
                E.prove('one row per requested point', zint(v.shape[0]) == zint(s.n))
                E.prove('one entry per dimension', zint(v.shape[1]) == zint(s.D))
                c = E.Int('c')
                E.assume(z3.And(c >= 0, c < zint(s.D)))
                E.prove_forall('entries within the unit interval', s.n, lambda i: z3.And(zreal(v.at(i, c)) >= 0, zreal(v.at(i, c)) <= 1))
                if getattr(s, 'on_decode', None):
                    s.on_decode(E, v)
                return points(E, s)
            return Native('inverse_transform', inv)
        raise Unsupported('space.' + name)


def points(E, s):
    f = z3.Function('POINT!%d' % E.uid(), *([I] * (1 + len(E.ctx)) + [U]))
    ctx = list(E.ctx)
    E.rule_for(f, lambda *a: MEM(f(*a)))
    return PList(Seq(n=s.n, get=lambda i: f(*(ctx + [zint(i)]))))


def scene(E, D=None):
    s = O()
    s.D, s.n = (E.Int('D') if D is None else D), E.Int('n')
    E.assume(zint(s.D) >= 1)
    E.assume(s.n >= 1)
    s.dims = PList(Seq(n=s.D, get=lambda j: z3.Function('DIMENSION', I, U)(zint(j))))
    s.mode = O2()
    s.mode.f['m'] = 'found'
    s.space = GSpace(s)

    def mk(E, a, k):
        d = a[0] if a else k['dimensions']
        E.require('the space of the given dimensions', d is s.dims)
        return s.space
    E.overrides['skopt.space.space:Space'] = mk
    s.rng = RngObj('rng')
    return s


class O2(NatObj):
    def py_subst(self, E, sub):
        return self


def run(E, s, gen):
    kind, r = outcome(E, lambda: meth(E, gen, 'generate', s.dims, s.n, random_state=s.rng))
    E.require('points are generated', kind == 'ok')
    r = E.force(r)
    E.require('as many points as requested', E.eq(E.length(r), s.n))
    E.prove_forall('every point is a decoded one', s.n, lambda i: MEM(at(E, r, i)))
    E.require('the transforms are put back', s.mode.f['m'] == 'found')
    for src, what in E.ghost.get('draws', []):
        E.require('only the given generator is drawn from', src == 'rng')
    E.require('no global randomness', not E.ghost.get('ambient'))
    return r


# ---------------------------------------------------------------- Latin hypercube
def lhs_matrix(E, s, typ):
    g = E.call(E.resolve(SQ + 'lhs:Lhs'), [], dict(lhs_type=typ))
    return E.call(E.getattr(g, '_lhs_normalized'), [s.D, s.n, s.rng], {})


def lhs_norm(typ):
    def c(E):
        s = scene(E)
        h = E.to_arr(lhs_matrix(E, s, typ)).v
        E.require('a matrix', h.ndim == 2)
        E.prove('one row per point', zint(h.shape[0]) == s.n)
        E.prove('one column per dimension', zint(h.shape[1]) == s.D)
        c = E.Int('c')
        E.assume(z3.And(c >= 0, c < s.D))
        E.prove_forall('entries of [0,1)', s.n, lambda i: z3.And(zreal(h.at(i, c)) >= 0, zreal(h.at(i, c)) < 1))
    return c


def unit_matrix(E, n, d, tag='H'):
    ctx = list(E.ctx)
    f = z3.Function('%s!%d' % (tag, E.uid()), *([I] * (2 + len(ctx)) + [R]))
    E.rule_for(f, lambda *a: z3.And(f(*a) >= 0, f(*a) < 1))
    return E.arr((n, d), lambda i, j: f(*(ctx + [zint(i), zint(j)])), 'f')


def pdist(E, a, k):
    X = E.to_arr(a[0]).v
    E.require('a matrix', X.ndim == 2)
    n = zint(X.shape[0])
    m = E.Int('pairs')
    E.fact(m + m == n * (n - 1))
    E.fact(z3.Implies(n >= 2, m >= 1))
    E.fact(m >= 0)
    ctx = list(E.ctx)
    f = z3.Function('DIST!%d' % E.uid(), *([I] * (1 + len(ctx)) + [R]))
    E.rule_for(f, lambda *a: f(*a) >= 0)
    return E.arr((m,), lambda i: f(*(ctx + [zint(i)])), 'f')


def corrcoef(E, a, k):
    X = E.to_arr(a[0]).v
    E.require('a matrix', X.ndim == 2)
    d = X.shape[0]
    if E.decide(zint(d) == 1):
        return E.arr((), lambda: z3.RealVal(1), 'f')
    ctx = list(E.ctx)
    f = z3.Function('CORR!%d' % E.uid(), *([I] * (2 + len(ctx)) + [R]))
    E.rule_for(f, lambda *a: z3.And(f(*a) >= -1, f(*a) <= 1))
    return E.arr((d, d), lambda i, j: f(*(ctx + [zint(i), zint(j)])), 'f')


def lhs(typ, crit):
    def c(E):
        s = scene(E)
        E.natives['scipy.spatial.distance.pdist'] = pdist
        E.natives['numpy.corrcoef'] = corrcoef

        def norm(E, a, k):
            E.prove('matrix of the right size', z3.And(zint(a[1]) == s.D, zint(a[2]) == s.n))
            E.require('the given generator', a[3] is s.rng)
            return unit_matrix(E, s.n, s.D)
        E.overrides[SQ + 'lhs:Lhs._lhs_normalized'] = norm
        it = E.Int('iterations')
        E.assume(it >= 0)
        if crit != None:
            E.assume(s.n >= 1)
        g = E.call(E.resolve(SQ + 'lhs:Lhs'), [], dict(lhs_type=typ, criterion=crit, iterations=it))
        run(E, s, g)
    return c


# ---------------------------------------------------------------- Halton, Hammersly
PRIME = z3.Function('BASE', I, I)


def vdc_summary(s):
    """_van_der_corput_samples: one value of [0,1) per index (proved below, C20: the radical inverse)"""
    def f(E, a, k):
        idx = E.to_seq(E.force(a[0]))
        b = a[1] if len(a) > 1 else k['number_base']
        E.require('a base above one', zint(b) > 1)
        ctx = list(E.ctx)
        if getattr(s, 'vdc', None):
            return E.arr((idx.n,), lambda i: s.vdc(zint(b), zint(E.seq_at(idx, i))), 'f')
        g = z3.Function('VDC!%d' % E.uid(), *([I] * (1 + len(ctx)) + [R]))
        E.rule_for(g, lambda *x: z3.And(g(*x) >= 0, g(*x) < 1))
        return E.arr((idx.n,), lambda i: g(*(ctx + [zint(i)])), 'f')
    return f


PRIMESEQ = z3.Function('PRIMENUMBER', I, I)      # prime number i, counting from 0


def primes_summary(E, a, k):
    """_create_primes(t) (proved in C20): the first so many primes"""
    m = E.Int('count')
    E.fact(m >= 0)
    return PList(Seq(n=m, get=lambda i: PRIMESEQ(zint(i))))


class PrimeLoop:
    """a loop that collects bases: every list it assigns holds the first primes"""
    def lists(self, E, env):
        for nm in self.written:
            v = E.force(E.load_name(nm, env))
            if isinstance(v, PList):
                yield nm, v

    def __call__(self, E, env):
        out = []
        for nm, p in self.lists(E, env):
            n = E.length(p)
            if isinstance(n, int) and n == 0:
                continue
            q = E.Int('q')
            out.append(('the first primes', z3.Implies(z3.And(q >= 0, q < zint(n)), zint(at(E, p, q)) == PRIMESEQ(q))))
        return out

    def havoc(self, E, env):
        for nm in self.written:
            v = E.force(E.load_name(nm, env))
            if isinstance(v, PList):
                m = E.Int('count')
                E.fact(m >= 0)
                v = PList(Seq(n=m, get=lambda i: PRIMESEQ(zint(i))))
            elif is_int(v):
                v = E.Int(nm)
            else:
                raise Unsupported('loop that collects bases writes %s' % nm)
            E.store_name(nm, v, env)


def halton(skips, primes, hook=None):
    def c(E):
        s = scene(E)
        if hook:
            hook(E, s)
        E.overrides[SQ + 'halton:_van_der_corput_samples'] = vdc_summary(s)
        E.overrides[SQ + 'halton:_create_primes'] = primes_summary
        E.rule_for(PRIMESEQ, lambda i: PRIMESEQ(i) >= 2)
        E.loop_inv[SQ + 'halton:*'] = PrimeLoop()
        lo, hi = E.Int('min_skip'), E.Int('max_skip')
        E.assume({'equal': lo == hi, 'range': z3.And(0 <= lo, lo < hi), 'one negative': z3.And(z3.Or(lo < 0, hi < 0), z3.Or(lo >= 0, hi >= 0)), 'negative': z3.And(lo < 0, hi < 0)}[skips])
        s.lo, s.hi, s.skips, s.primes = lo, hi, skips, primes
        if hook:
            E.assume({'equal': lo >= 0, 'negative': lo != hi}.get(skips, z3.BoolVal(True)))
        kw = dict(min_skip=lo, max_skip=hi)
        if primes:
            kw['primes'] = PList(Seq(n=s.D, get=lambda i: PRIME(zint(i))))
            E.rule_for(PRIME, lambda i: PRIME(i) >= 2)
        run(E, s, E.call(E.resolve(SQ + 'halton:Halton'), [], kw))
    return c


HALT = z3.Function('HALTON', I, I, R)


def hammersly(E, hook=None):
    s = scene(E)
    if hook:
        hook(E, s)
    one = E.decide(s.D == 1)

    def inner(E, a, k):
        """Halton.generate (proved above): n points of the space it is given, which it leaves as it was"""
        me, dims, n = a[0], a[1], a[2]
        E.require('the given generator', (a[3] if len(a) > 3 else k.get('random_state')) is s.rng)
        E.prove('as many points', zint(n) == s.n)
        if dims is s.dims:
            return points(E, s)
        v = E.to_seq(dims)
        d = v.n
        q = E.Int('q')
        E.assume(z3.And(q >= 0, q < zint(d)))
        b = E.force(E.seq_at(v, q))
        E.require('unit intervals', isinstance(b, tuple) and len(b) == 2)
        E.prove('unit intervals', z3.And(zreal(b[0]) == 0, zreal(b[1]) == 1))
        f = HALT
        E.rule_for(f, lambda i, j: z3.And(f(i, j) >= 0, f(i, j) <= 1))
        return PList(Seq(n=s.n, get=lambda i: PList(Seq(n=d, get=lambda j: f(zint(i), zint(j))))))
    E.overrides[SQ + 'halton:Halton.generate'] = inner
    lo, hi = E.Int('min_skip'), E.Int('max_skip')
    run(E, s, E.call(E.resolve(SQ + 'hammersly:Hammersly'), [], dict(min_skip=lo, max_skip=hi)))


# ---------------------------------------------------------------- Sobol
def sobol_shift(E):
    n, d = E.Int('n'), E.Int('d')
    E.assume(z3.And(n >= 1, d >= 1))
    M = unit_matrix(E, n, d)
    r = E.to_arr(E.call(E.resolve(SQ + 'sobol:_random_shift'), [M, RngObj('rng')], {})).v
    E.require('a matrix', r.ndim == 2)
    E.prove('same size', z3.And(zint(r.shape[0]) == n, zint(r.shape[1]) == d))
    c = E.Int('c')
    E.assume(z3.And(c >= 0, c < d))
    E.prove_forall('entries of [0,1)', n, lambda i: z3.And(zreal(r.at(i, c)) >= 0, zreal(r.at(i, c)) < 1))
    E.require('only the given generator is drawn from', all(x[0] == 'rng' for x in E.ghost.get('draws', [])) and not E.ghost.get('ambient'))


def sobol(randomize, skip, hook=None):
    def c(E):
        s = scene(E)
        if hook:
            hook(E, s)

        def step(E, a, k):
            """_sobol (proved below): one number of [0,1) per dimension, and the seed of the next"""
            me, d, seed = a
            E.prove('a number per dimension', zint(d) == s.D)
            if getattr(s, 'quasi', None) is not None:
                return PList([E.arr((s.D,), lambda j: s.quasi(zint(j), zint(seed)), 'f'), E.num_binop('+', seed, 1)])
            ctx = list(E.ctx)
            f = z3.Function('QUASI!%d' % E.uid(), *([I] * (1 + len(ctx)) + [R]))
            E.rule_for(f, lambda *x: z3.And(f(*x) >= 0, f(*x) < 1))
            return PList([E.arr((s.D,), lambda j: f(*(ctx + [zint(j)])), 'f'), E.num_binop('+', seed, 1)])

        def shift(E, a, k):
            M = E.to_arr(a[0]).v
            E.prove('the points are shifted', z3.And(zint(M.shape[0]) == s.n, zint(M.shape[1]) == s.D))
            E.require('the given generator', (a[1] if len(a) > 1 else k.get('random_state')) is s.rng)
            return unit_matrix(E, s.n, s.D)
        E.overrides[SQ + 'sobol:Sobol._sobol'] = step
        E.overrides[SQ + 'sobol:_random_shift'] = shift
        g = E.call(E.resolve(SQ + 'sobol:Sobol'), [], dict(skip=skip, randomize=randomize))
        if skip:
            E.assume(s.n <= skip)
        r = run(E, s, g)
        E.prove('the points are counted', E.eq(g.f['num_generated'], s.n))
    return c


# ---------------------------------------------------------------- grids
def product_summary(s):
    """_quadrature_combine (proved in C20): a row per choice of one value of every vector"""
    def f(E, a, k):
        args = E.to_seq(E.force(a[0]))
        E.prove('a vector per dimension', zint(args.n) == zint(s.D))
        def alts(v, cond):
            """what the vector is, without deciding between the cases"""
            if isinstance(v, Cases):
                out, rest = [], []
                for c, x in v.alts:
                    out += alts(x, cond + rest + [c])
                    rest = rest + [z3.Not(c)]
                return out
            return [(z3.And(cond) if cond else z3.BoolVal(True), v)]

        def merged(c, f):
            xs = alts(E.seq_at(args, c), [])
            r = f(xs[-1][1])
            for cond, x in reversed(xs[:-1]):
                r = z3.If(cond, f(x), r)
            return r

        def size(x):
            return zint(x.v.shape[0] if isinstance(x, ArrObj) else E.to_seq(x).n)

        def value(x, t0):
            t = E.index_const()
            E.prove('no empty vector', size(x) >= 1)
            E.fact(z3.And(t >= 0, t < size(x)))         # some value of that vector
            return z3.substitute(value_(x, t), (t, t0))

        def value_(x, t):
            return zreal(x.v.at(t) if isinstance(x, ArrObj) else E.seq_at(E.to_seq(x), t))
        c0, t0 = E.index_const(), E.index_const()
        len0 = merged(c0, size)
        length = lambda c: z3.substitute(len0, (c0, c))
        val0 = merged(c0, lambda x: value(x, t0))
        val = lambda c, t: z3.substitute(val0, (c0, c), (t0, t))
        rows = E.Int('rows')
        first, last = length(z3.IntVal(0)), length(zint(s.D) - 1)
        E.fact(rows >= 1)
        if E.decide(zint(s.D) == 1):
            E.fact(rows == first)
        else:
            E.fact(rows >= first * last)
        T = z3.Function('CHOICE!%d' % E.uid(), I, I, I)
        s.lattices = getattr(s, 'lattices', []) + [(T, rows, length, val)]
        E.rule_for(T, lambda r, c: z3.Implies(z3.And(r >= 0, r < rows, c >= 0, c < zint(s.D)), z3.And(T(r, c) >= 0, T(r, c) < length(c))))
        return E.arr((rows, s.D), lambda r, c: val(zint(c), T(zint(r), zint(c))), 'f')
    return f


def grid(border, full, append, hook=None):
    def c(E):
        s = scene(E)
        if hook:
            hook(E, s)
        E.overrides[SQ + 'grid:_quadrature_combine'] = product_summary(s)
        g = E.call(E.resolve(SQ + 'grid:Grid'), [], dict(border=border, use_full_layout=full, append_border=append))
        run(E, s, g)
    return c


CONTRACTS = []
for t in ('classic', 'centered'):
    CONTRACTS.append(('lhs matrix %s' % t, lhs_norm(t)))
for cr in (None, 'maximin', 'correlation', 'ratio'):
    CONTRACTS.append(('lhs %s' % cr, lhs('classic', cr)))

for sk in ('equal', 'range', 'one negative', 'negative'):
    for pr in (False, True):
        CONTRACTS.append(('halton, skip %s%s' % (sk, ', bases given' if pr else ''), halton(sk, pr)))

CONTRACTS += [('hammersly', hammersly), ('sobol shift', sobol_shift)]
for rz in (True, False):
    for sk in (0, 16):
        CONTRACTS.append(('sobol%s%s' % (', shifted' if rz else '', ', skip %d' % sk if sk else ''), sobol(rz, sk)))

for bo in ('include', 'exclude', 'only'):
    for fu in (True, False):
        for ap in ('include', 'exclude', 'only'):
            CONTRACTS.append(('grid %s, %s layout, rest %s' % (bo, 'full' if fu else 'larger', ap), grid(bo, fu, ap)))
