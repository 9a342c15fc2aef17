"""C20: low-discrepancy designs have the structure that defines them."""
import os
from .c19 import *
from pvc.solve import BXOR, TZ1, BITLEN

NOTE = ('Latin hypercubes: every stratum of every coordinate holds exactly one point (for every size). Halton, Hammersly: entry (i, c) is the radical inverse, in base number c, of skip + i; the digit '
        'loop computes the radical inverse (loop invariant and induction step). Sobol: point number s is the exclusive or of the direction numbers of the Gray code of s, from a fresh generator, from the '
        'point before and from any other state; the direction numbers of all 40 dimensions (the complete finite table the code sets up, enumerated on every run) are triangular over GF(2), and the Gray '
        'codes of an aligned block of 2**k numbers differ in their low k bits (bit-vector lemmas), so every dyadic stratum holds one point of the block. Grids: the product of vectors is the product '
        'lattice (loop invariant; rows distinct by induction), its coordinates are evenly spaced as the border option says, and what is decoded is a duplicate-free selection of its rows, the whole lattice '
        'when there is room, completed from the other lattice')
ASSUME = ['rng.rand draws from [0,1), rng.permutation gives a permutation, rng.shuffle permutes the rows', 'arithmetic on reals; bitwise operations by their defining axioms below 2**31',
          'bounded: _create_primes gives all primes up to its threshold (thresholds up to 40000 against trial division, not proved)', 'fewer than 10**9 grid entries']
VV = z3.Function('DIRECTION', I, I, I)        # direction number j of dimension i
XS = z3.Function('SOBOLX', I, I, I)           # Sobol' point number s, dimension i, as an integer below 2**30
TWO30 = 2 ** 30


def sobol_terms(E):
    """the defining recurrence (Antonov-Saleev): x_0 = 0, x_{s+1} = x_s xor v_{trailing ones of s}"""
    E.rule_for(VV, lambda i, j: z3.And(VV(i, j) >= 0, VV(i, j) < TWO30))
    E.rule_for(XS, lambda i, s: z3.And(XS(i, z3.IntVal(0)) == 0,
                                       z3.Implies(s >= 0, z3.And(XS(i, s) >= 0, XS(i, s) < TWO30))))


def step_fact(E, i, s):
    E.fact(z3.Implies(s >= 0, XS(i, s + 1) == BXOR(XS(i, s), VV(i, TZ1(s)))))


class XorLoop:
    """the loop that replays the points before `seed`: lastq holds the point whose number comes next"""
    def __init__(self, s):
        self.s = s

    def applies(self, E, st, env):
        import ast
        return any(isinstance(n, ast.For) for b in st.body for n in ast.walk(b))

    def __call__(self, E, env, v, k):
        s = self.s
        q = s.lastq(E)
        i = s.qi
        step_fact(E, i, zint(v))
        step_fact(E, i, zint(v) - 1)
        E.require('one number per dimension', q.ndim == 1)
        return [('size', zint(q.shape[0]) == s.D), ('the number of the next point, coordinate by coordinate', zreal(q.at(i)) == z3.ToReal(XS(i, zint(v))))]

    def havoc(self, E, env):
        f = z3.Function('LASTQ!%d' % E.uid(), I, R)
        E.rule_for(f, lambda i: z3.BoolVal(True))
        E.setf(self.s.g, 'lastq', E.arr((self.s.D,), lambda i: f(zint(i)), 'f'))


def sobol_step(case):
    def c(E):
        s = O()
        s.D = E.Int('D')
        E.assume(z3.And(s.D >= 1, s.D <= 40))
        sobol_terms(E)
        g = s.g = E.call(E.resolve(SQ + 'sobol:Sobol'), [], {})
        seed = E.Int('seed')
        E.assume(z3.And(seed >= 0, seed < TWO30 - 1))
        s.qi = E.Int('coordinate')
        E.assume(z3.And(s.qi >= 0, s.qi < s.D))
        s.lastq = lambda E: E.to_arr(g.f['lastq']).v
        inited = [0]

        def ready(E):
            E.setf(g, 'v', E.arr((40, 30), lambda i, j: z3.ToReal(VV(zint(i), zint(j))), 'f'))
            E.setf(g, 'recipd', z3.Q(1, TWO30))
            E.setf(g, 'maxcol', 30)
            E.setf(g, 'dim_num_save', s.D)

        def init(E, a, k):
            """init (decided by complete enumeration of the dimensions)"""
            E.prove('set up for this many dimensions', zint(a[1]) == s.D)
            ready(E)
            E.setf(g, 'lastq', E.arr((s.D,), lambda i: z3.RealVal(0), 'f'))
            return None
        E.overrides[SQ + 'sobol:Sobol.init'] = init
        E.for_inv[SQ + 'sobol:*'] = XorLoop(s)
        last = E.Int('seed_save')
        if case == 'same':
            # a valid state: the object is at the point after the last one it made
            ready(E)
            E.assume(last >= 0)
            E.setf(g, 'seed_save', last)
            E.setf(g, 'lastq', E.arr((s.D,), lambda i: z3.ToReal(XS(zint(i), last + 1)), 'f'))
        elif case == 'other':
            ready(E)
            d0 = E.Int('d0')
            E.assume(d0 != s.D)
            E.setf(g, 'dim_num_save', d0)
            E.setf(g, 'seed_save', last)
            E.assume(z3.And(last >= 0, z3.Or(seed == 0, seed <= last)))
        kind, r = outcome(E, lambda: E.call(E.getattr(g, '_sobol'), [s.D, seed], {}))
        E.require('a point is made', kind == 'ok')
        r = E.to_seq(r)
        E.require('the point and the number of the next', r.concrete and len(r.items) == 2)
        q = E.to_arr(r.items[0]).v
        E.require('a vector', q.ndim == 1)
        E.prove('one number per dimension', zint(q.shape[0]) == s.D)
        i = s.qi
        step_fact(E, i, seed)
        E.prove('the Sobol point with this number', zreal(q.at(i)) * TWO30 == z3.ToReal(XS(i, seed)))
        E.prove('within [0,1)', z3.And(zreal(q.at(i)) >= 0, zreal(q.at(i)) < 1))
        E.prove('the next number', E.eq(r.items[1], seed + 1))
        E.prove('ready for the next point: number', E.eq(g.f['seed_save'], seed))
        E.prove('ready for the next point: dimensions', E.eq(g.f['dim_num_save'], s.D))
        nq = s.lastq(E)
        E.prove('ready for the next point: size', zint(nq.shape[0]) == s.D)
        E.prove('ready for the next point: coordinates', zreal(nq.at(i)) == z3.ToReal(XS(i, seed + 1)))
    return c


def bit_lo0(E):
    n = E.Int('n')
    E.assume(n >= 0)
    r = E.call(E.resolve(SQ + 'sobol:_bit_lo0'), [n], {})
    E.prove('the position of the lowest zero bit', zint(r) == TZ1(n) + 1)


def bit_hi1(E):
    n = E.Int('n')
    E.assume(n >= 1)
    r = E.call(E.resolve(SQ + 'sobol:_bit_hi1'), [n], {})
    E.prove('the length of the binary form', zint(r) == BITLEN(n))


# ---------------------------------------------------------------- radical inverse
RI = z3.Function('RADICALINVERSE', I, I, R)


def ri_rule(E, b):
    """the radical inverse: 0 for 0, otherwise (last digit + radical inverse of the other digits) / base"""
    E.rule_for(RI, lambda c, i: z3.And(z3.Implies(i == 0, RI(c, i) == 0),
                                       z3.Implies(z3.And(i > 0, c > 1), RI(c, i) * z3.ToReal(c) == z3.ToReal(i % c) + RI(c, i / c))))


def ri_lemma(E):
    """induction step: the radical inverse of a number is within [0,1) when that of its higher digits is"""
    b, i = E.Int('b'), E.Int('i')
    E.assume(z3.And(b > 1, i > 0))
    h = E.Real('higher')
    x = E.Real('x')
    E.assume(z3.And(h >= 0, h < 1))
    E.assume(x * z3.ToReal(b) == z3.ToReal(i % b) + h)
    E.prove('fewer digits', z3.And(i / b >= 0, i / b < i))
    m = E.Int('m')
    E.assume(m == i % b)
    E.prove('a digit', z3.And(m >= 0, m <= b - 1))
    E.prove('at least 0', x >= 0)
    E.prove('below 1', x < 1)


class DigitLoop:
    """out + (what the remaining digits contribute) is the radical inverse"""
    def __init__(self, s):
        self.s = s

    def parts(self, E, env):
        o = O()
        o.out = o.idx = o.act = o.base = None
        for nm in self.written:
            v = E.force(E.load_name(nm, env))
            if isinstance(v, ArrObj) and v.v.ndim == 1:
                at_ = {'f': 'out', 'i': 'idx', 'b': 'act'}[v.v.dtype]
            elif is_num(v):
                at_ = 'base'
            else:
                raise Unsupported('digit loop writes %s' % nm)
            if getattr(o, at_) is not None:
                raise Unsupported('digit loop with several variables of a kind')
            setattr(o, at_, (nm, v))
        if None in (o.out, o.idx, o.act, o.base):
            raise Unsupported('digit loop without sum, digits, mask and base')
        return o

    def inv(self, E, o, i):
        s = self.s
        out, idx, act, base = zreal(o.out[1].v.at(i)), zint(o.idx[1].v.at(i)), zbool(o.act[1].v.at(i)), zreal(o.base[1])
        i0, b = s.IX(i), s.b
        pos = z3.And(idx >= 0, (out - RI(b, i0)) * base + RI(b, idx) * z3.ToReal(b) == 0, z3.Implies(z3.Not(act), idx == 0))
        neg = z3.Or(z3.And(out == 0, idx == i0, act, base == z3.ToReal(b)), z3.And(out >= 0, out < 1, idx < 0, z3.Not(act)))
        return pos, neg

    def __call__(self, E, env):
        s = self.s
        o = self.parts(E, env)
        pos, neg = self.inv(E, o, s.i)
        res = [('sizes', z3.And(*[zint(p[1].v.shape[0]) == s.n for p in (o.out, o.idx, o.act)])), ('a power of the base', zreal(o.base[1]) >= z3.ToReal(s.b))]
        return res + [('sum so far', pos if s.pos else neg)]

    def havoc(self, E, env):
        o = self.parts(E, env)
        s = self.s
        u = E.uid()
        F, G, H = z3.Function('OUT!%d' % u, I, R), z3.Function('IDX!%d' % u, I, I), z3.Function('ACT!%d' % u, I, B)
        E.store_name(o.out[0], E.arr((s.n,), lambda i: F(zint(i)), 'f'), env)
        E.store_name(o.idx[0], E.arr((s.n,), lambda i: G(zint(i)), 'i'), env)
        E.store_name(o.act[0], E.arr((s.n,), lambda i: H(zint(i)), 'b'), env)
        E.store_name(o.base[0], E.Real('base'), env)


def vdc(pos):
    def c(E):
        s = O()
        s.pos = pos
        s.n, s.b = E.Int('n'), E.Int('base')
        E.assume(z3.And(s.n >= 1, s.b > 1))
        s.IX = z3.Function('INDEX', I, I)
        E.rule_for(s.IX, lambda i: s.IX(i) >= 0 if pos else s.IX(i) < 0)
        ri_rule(E, s.b)
        s.i = E.Int('point')
        E.assume(z3.And(s.i >= 0, s.i < s.n))
        E.loop_inv[SQ + 'halton:*'] = DigitLoop(s)
        kind, r = outcome(E, lambda: E.call(E.resolve(SQ + 'halton:_van_der_corput_samples'), [PList(Seq(n=s.n, get=lambda i: s.IX(zint(i)))), s.b], {}))
        E.require('values are computed', kind == 'ok')
        v = E.to_arr(r).v
        E.prove('one value per index', zint(v.shape[0]) == s.n)
        if pos:
            E.prove('the radical inverse of the index', zreal(v.at(s.i)) == RI(s.b, s.IX(s.i)))
        else:
            E.prove('within [0,1)', z3.And(zreal(v.at(s.i)) >= 0, zreal(v.at(s.i)) < 1))
    return c


# ---------------------------------------------------------------- what the generators decode
def cell(E, s, v, want, name):
    c = E.Int('c')
    E.assume(z3.And(c >= 0, c < zint(s.D)))
    E.prove_forall(name, s.n, lambda i: zreal(v.at(i, c)) == want(i, c))


def halton_points(skips, primes):
    def hook(E, s):
        s.vdc = lambda b, i: RI(b, i)
        E.rule_for(RI, lambda c, i: z3.Implies(z3.And(i >= 0, c > 1), z3.And(RI(c, i) >= 0, RI(c, i) < 1)))

        def on_decode(E, v):
            base = PRIME if primes else PRIMESEQ
            i = E.Int('i')
            E.assume(z3.And(i >= 0, i < s.n))
            c = E.Int('c')
            E.assume(z3.And(c >= 0, c < zint(s.D)))
            if skips == 'equal':
                skip = s.lo
            elif skips == 'one negative':
                skip = z3.If(s.lo > s.hi, s.lo, s.hi)
            elif skips == 'range':
                dr = E.ghost.get('skipdraw')
                E.require('a draw', dr is not None)
                skip = dr
                E.prove('skip within the range', z3.And(skip >= s.lo, skip < s.hi))
            else:
                # the largest base
                skip = E.Int('skip')
                w = E.Int('w')
                E.assume(z3.And(w >= 0, w < zint(s.D), skip == base(w)))
                q = E.Int('q')
                E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zint(s.D)), base(q) <= skip)))
            E.prove('the radical inverses of consecutive numbers, starting with the skip, in base number c', zreal(v.at(i, c)) == RI(base(c), skip + i))
        s.on_decode = on_decode
        if skips == 'range':
            old = s.rng.draw

            def draw(E, name, a, k):
                r = old(E, name, a, k)
                if name == 'randint':
                    E.ghost['skipdraw'] = r
                return r
            s.rng.draw = draw

    def c(E):
        halton(skips, primes, hook)(E)
    return c


def hammersly_points(E):
    def hook(E, s):
        def on_decode(E, v):
            i = E.Int('i')
            E.assume(z3.And(i >= 0, i < s.n))
            c = E.Int('c')
            E.assume(z3.And(c >= 0, c < zint(s.D)))
            E.prove('the last coordinate is the regular grid k/n', z3.Implies(c == s.D - 1, zreal(v.at(i, c)) * z3.ToReal(s.n) == z3.ToReal(i)))
            E.prove('the others are the Halton points of one dimension less', z3.Implies(c < s.D - 1, zreal(v.at(i, c)) == HALT(i, c)))
        s.on_decode = on_decode
    hammersly(E, hook)


def sobol_points(skip):
    def hook(E, s):
        s.quasi = z3.Function('QUASI', I, I, R)
        E.rule_for(s.quasi, lambda j, t: z3.And(s.quasi(j, t) >= 0, s.quasi(j, t) < 1))

        def on_decode(E, v):
            i = E.Int('i')
            E.assume(z3.And(i >= 0, i < s.n))
            c = E.Int('c')
            E.assume(z3.And(c >= 0, c < zint(s.D)))
            E.prove('point i has number skip + i', zreal(v.at(i, c)) == s.quasi(c, skip + i))
        s.on_decode = on_decode
    return sobol(False, skip, hook)


# ---------------------------------------------------------------- Latin hypercube
def strata(typ):
    def c(E):
        s = scene(E)
        h = E.to_arr(lhs_matrix(E, s, typ)).v
        c = E.Int('c')
        E.assume(z3.And(c >= 0, c < s.D))
        pm = [E.perms[nm] for nm in {t.decl().name() for t in solve.subterms([zreal(h.at(E.Int('i'), c))]) if z3.is_app(t)} if nm in E.perms]
        E.require('one permutation per coordinate', len(pm) == 1)
        P, Q = pm[0]
        # the point of stratum t is number Q(t) of the permutation of its coordinate: no two strata share a point, and n strata take n points
        t = E.Int('stratum')
        E.assume(z3.And(t >= 0, t < s.n))
        i = Q(c, t)
        E.prove('a point', z3.And(i >= 0, i < s.n))
        E.prove('its own point', P(c, i) == t)
        x = zreal(h.at(i, c)) * z3.ToReal(s.n)
        E.prove('lies in the stratum', z3.And(x >= z3.ToReal(t), x < z3.ToReal(t) + 1))
        if typ == 'centered':
            E.prove('at its centre', x == z3.ToReal(t) + z3.Q(1, 2))
    return c


# ---------------------------------------------------------------- grids
MLEN, XV = z3.Function('VALUES', I, I), z3.Function('VALUE', I, I, R)     # number of values of coordinate c; value t of coordinate c
ROWS, CELL = z3.Function('ROWS', I, I), z3.Function('CELL', I, I, I, R)   # rows of the product of the first w coordinates; coordinate c of its row r


def lattice_terms(E):
    """the product lattice, last coordinate fastest"""
    E.rule_for(ROWS, lambda w: z3.And(ROWS(z3.IntVal(1)) == MLEN(z3.IntVal(0)), z3.Implies(w >= 1, z3.And(ROWS(w) >= 1, ROWS(w + 1) == ROWS(w) * MLEN(w)))))
    E.rule_for(CELL, lambda w, r, c: z3.And(
        z3.Implies(w == 1, CELL(w, r, c) == XV(z3.IntVal(0), r)),
        z3.Implies(z3.And(w > 1, c == w - 1), CELL(w, r, c) == XV(c, r % MLEN(c))),
        z3.Implies(z3.And(w > 1, c < w - 1), CELL(w, r, c) == CELL(w - 1, r / MLEN(w - 1), c))))


class ProductLoop:
    """the product of the vectors so far"""
    def __init__(self, s):
        self.s = s

    def applies(self, E, st, env):
        return True

    def arr(self, E, env):
        got = [nm for nm in self.written if isinstance(self.get(E, env, nm), ArrObj) and self.get(E, env, nm).v.ndim == 2]
        if len(got) != 1:
            raise Unsupported('product loop writes %s' % got)
        return got[0]

    def get(self, E, env, nm):
        try:
            return E.force(E.load_name(nm, env))
        except Exception:
            return None

    def __call__(self, E, env, v, k):
        s = self.s
        a = self.get(E, env, self.arr(E, env)).v
        w = k + 1
        return [('rows', zint(a.shape[0]) == ROWS(w)), ('columns', zint(a.shape[1]) == w),
                ('the product of the first vectors', z3.Implies(z3.And(s.r >= 0, s.r < ROWS(w), s.c >= 0, s.c < w), zreal(a.at(s.r, s.c)) == CELL(w, s.r, s.c))),
                ('rows of the shorter product', z3.Implies(z3.And(s.r2 >= 0, s.r2 < ROWS(w), s.c >= 0, s.c < w), zreal(a.at(s.r2, s.c)) == CELL(w, s.r2, s.c)))]

    def havoc(self, E, env):
        nm = self.arr(E, env)
        f = z3.Function('OUT!%d' % E.uid(), I, I, R)
        w = self.k + 1
        E.rule_for(f, lambda r, c: z3.Implies(z3.And(r >= 0, r < ROWS(w), c >= 0, c < w), f(r, c) == CELL(w, r, c)))
        E.store_name(nm, E.arr((ROWS(w), w), lambda r, c: f(zint(r), zint(c)), 'f'), env)


def combine(E):
    s = O()
    s.D = E.Int('D')
    E.assume(s.D >= 1)
    E.rule_for(MLEN, lambda c: MLEN(c) >= 1)
    lattice_terms(E)
    s.r, s.c, s.r2 = E.Int('r'), E.Int('c'), E.Int('r2')
    E.assume(s.c >= 0)
    E.for_inv[SQ + 'grid:*'] = ProductLoop(s)
    E.u_prod = lambda E, n, el: E.Int('size')
    args = PList(Seq(n=s.D, get=lambda j: PList(Seq(n=MLEN(zint(j)), get=lambda t: XV(zint(j), zint(t))))))
    kind, r = outcome(E, lambda: E.call(E.resolve(SQ + 'grid:_quadrature_combine'), [args], {}))
    if kind == 'raise':
        E.require('refuses only sets that are too large', exc_is(r, 'MemoryError'))
        return
    v = E.to_arr(r).v
    E.require('a matrix', v.ndim == 2)
    E.prove('as many points as the product', zint(v.shape[0]) == ROWS(s.D))
    E.prove('a coordinate per vector', zint(v.shape[1]) == s.D)
    E.assume(z3.And(s.r >= 0, s.r < ROWS(s.D), s.c < s.D))
    E.prove('the product lattice', zreal(v.at(s.r, s.c)) == CELL(s.D, s.r, s.c))


CHO = z3.Function('CHOICE', I, I, I, I)     # which value of coordinate c row r of the product of the first w coordinates takes


def choice_rule(E):
    E.rule_for(CHO, lambda w, r, c: z3.And(z3.Implies(w == 1, CHO(w, r, c) == r), z3.Implies(z3.And(w > 1, c == w - 1), CHO(w, r, c) == r % MLEN(c)),
                                           z3.Implies(z3.And(w > 1, c < w - 1), CHO(w, r, c) == CHO(w - 1, r / MLEN(w - 1), c))))


def lattice_lemma(E):
    """induction on the number of coordinates: what the summary of the product of vectors says (C19 product_summary)"""
    lattice_terms(E)
    choice_rule(E)
    E.rule_for(MLEN, lambda c: MLEN(c) >= 1)
    w, r, r2, c = E.Int('w'), E.Int('r'), E.Int('r2'), E.Int('c')
    E.assume(z3.And(w >= 1, c >= 0))
    one = z3.IntVal(1)
    ok = lambda w, r, c: z3.Implies(z3.And(r >= 0, r < ROWS(w), c < w), z3.And(CHO(w, r, c) >= 0, CHO(w, r, c) < MLEN(c), CELL(w, r, c) == XV(c, CHO(w, r, c))))
    E.prove('one coordinate', z3.And(ok(one, r, c), ROWS(one) == MLEN(z3.IntVal(0)), z3.Implies(CHO(one, r, z3.IntVal(0)) == CHO(one, r2, z3.IntVal(0)), r == r2)))
    M = MLEN(w)
    E.fact(M >= 1)
    up, up2 = r / M, r2 / M
    bound = lambda x: z3.Implies(z3.And(x >= 0, x < ROWS(w) * M), z3.And(x / M >= 0, x / M < ROWS(w)))
    d = E.Int('d')
    E.prove('a row of the longer product extends a row of the shorter one', z3.Implies(z3.And(r >= 0, d >= 0, r == M * d + r % M, r < ROWS(w) * M), d < ROWS(w)))
    E.assume(z3.And(bound(r), bound(r2)))
    E.assume(ok(w, up, c))
    E.prove('one coordinate more', ok(w + 1, r, c))
    # distinct rows choose differently somewhere
    q = E.Int('q')
    same = lambda w, a, b: z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < w), CHO(w, a, q) == CHO(w, b, q)))
    E.prove('the last choices agree', z3.Implies(CHO(w + 1, r, w) == CHO(w + 1, r2, w), r % M == r2 % M))
    E.prove('the other choices are those of the shorter product', z3.Implies(c < w, z3.And(CHO(w + 1, r, c) == CHO(w, up, c), CHO(w + 1, r2, c) == CHO(w, up2, c))))
    E.prove('rows with the same choices are the same row', z3.Implies(z3.And(up == up2, r % M == r2 % M), r == r2))
    E.prove('at least as many rows', z3.Implies(ROWS(w) >= MLEN(z3.IntVal(0)), ROWS(w + 1) >= MLEN(z3.IntVal(0))))
    E.prove('rows of two or more coordinates', z3.Implies(ROWS(w) >= MLEN(z3.IntVal(0)), ROWS(w + 1) >= MLEN(z3.IntVal(0)) * MLEN(w)))


def spaced(E, s, kind, length, val, c, name):
    """the values of coordinate c of a lattice of that kind"""
    m = length(c)
    t = E.Int('t')
    E.assume(z3.And(t >= 0, t < m))
    x = val(c, t)
    T, M = z3.ToReal(t), z3.ToReal(m)
    if kind == 'exclude':
        E.prove(name + ': evenly spaced within the border', x * (M + 1) == T + 1)
    else:
        E.prove(name + ': evenly spaced from border to border', z3.And(m >= 2, x * (M - 1) == T))
        if kind == 'only':
            E.prove(name + ': only on the border', z3.Implies(c < s.D - 1, m == 2))


def grid_points(border, full, append):
    def hook(E, s):
        def on_decode(E, v):
            i, c = E.Int('i'), E.Int('c')
            E.assume(z3.And(i >= 0, i < s.n, c >= 0, c < zint(s.D)))
            L = s.lattices
            E.require('one lattice, or two', len(L) in (1, 2))
            for (T, rows, length, val), kind, name in zip(L, (border, append), ('lattice', 'lattice of the rest')):
                spaced(E, s, kind, length, val, c, name)
            perm = list(E.perms.values())
            at_ = lambda l, r: l[3](c, l[0](r, c))
            rows = L[0][1]
            if perm:
                P, Q = perm[-1]
                p = P(i)
                back = Q
            else:
                p, back = i, lambda r: r
            if len(L) == 1:
                E.prove('a row of the lattice', z3.And(p >= 0, p < rows, zreal(v.at(i, c)) == at_(L[0], p)))
            else:
                E.prove('a row of the lattice, or one of the lattice of the rest', z3.And(p >= 0, p < s.n, z3.Implies(p < rows, zreal(v.at(i, c)) == at_(L[0], p)),
                        z3.Implies(p >= rows, z3.And(p - rows < L[1][1], zreal(v.at(i, c)) == at_(L[1], p - rows)))))
            j = E.Int('j')
            E.assume(z3.And(j >= 0, j < s.n))
            if perm:
                E.prove('no row twice', z3.Implies(P(i) == P(j), i == j))
            r = E.Int('r')
            E.assume(z3.And(r >= 0, r < rows))
            q = back(r)
            E.prove('the whole lattice when there is room', z3.Implies(rows <= s.n, z3.And(q >= 0, q < s.n, (P(q) if perm else q) == r)))
        s.on_decode = on_decode

    def c(E):
        s0 = grid(border, full, append, hook)
        s0(E)
    return c


# ---------------------------------------------------------------- the direction numbers (finite: 40 dimensions of 30 numbers)
def concrete(code):
    """run the real code and return what it prints as JSON"""
    import subprocess, json
    from pvc.runner import REPO, PY
    r = subprocess.run([PY, '-c', code], capture_output=True, text=True, cwd='/', env=dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1'), timeout=120)
    if r.returncode:
        raise Unsupported('the code cannot be run: ' + r.stderr[-300:])
    return json.loads(r.stdout.splitlines()[-1])


def directions(E):
    """every supported number of dimensions: `init` sets up the direction numbers; number j has its lowest one bit at place 29-j, so the leading k bits of the first k
    numbers of a dimension are independent over GF(2), for every k"""
    E.functions.add(SQ + 'sobol:Sobol.init')
    d = concrete("""
import json, warnings
warnings.simplefilter('ignore')
from skopt.sampler.sobol import Sobol
out = []
for D in range(1, 41):
    s = Sobol(); s.init(D)
    out.append([D, s.v[:D].tolist(), s.recipd, s.maxcol, s.dim_num_save, list(map(float, s.lastq)), list(s.v.shape)])
print(json.dumps(out))
""")
    E.require('all 40 dimensions', [x[0] for x in d] == list(range(1, 41)))
    for D, v, recipd, maxcol, save, lastq, shape in d:
        E.require('the denominator is 2**30', recipd == 2.0 ** -30 and maxcol == 30 and shape == [40, 30])
        E.require('set up for this many dimensions', save == D and lastq == [0.0] * D)
        E.require('the same numbers for any number of dimensions', v == d[-1][1][:D])
    for row in d[-1][1]:
        for j, x in enumerate(row):
            E.require('direction numbers are whole and below 2**30', float(x).is_integer() and 0 < x < 2 ** 30)
            x = int(x)
            E.require('lowest one bit of number j at place 29-j', (x & -x) == 1 << (29 - j))
    # different dimensions have different direction numbers
    E.require('no two dimensions share their direction numbers', len({tuple(r) for r in d[-1][1]}) == 40)


def gray(E):
    """bit-vectors of 32 bits: consecutive Gray codes differ in the lowest zero bit of the number, so the recurrence sums the direction numbers of the Gray code; the low k bits of
    the Gray code determine, within an aligned block of 2**k numbers, the number"""
    n, m = z3.BitVecs('n m', 32)
    g = lambda x: x ^ z3.LShR(x, 1)
    low0 = ~n & (n + 1)
    E.prove('consecutive Gray codes differ in the lowest zero bit', z3.Implies(z3.ULT(n, 2 ** 31), g(n + 1) ^ g(n) == low0))
    for k in range(1, 31):
        mask = z3.BitVecVal((1 << k) - 1, 32)
        E.prove('Gray codes of an aligned block of 2**%d' % k, z3.Implies(z3.And(z3.LShR(n, k) == z3.LShR(m, k), (g(n) & mask) == (g(m) & mask)), n == m))
        E.prove('higher bits of the Gray code are constant in a block of 2**%d' % k, z3.Implies(z3.LShR(n, k) == z3.LShR(m, k), z3.LShR(g(n), k) == z3.LShR(g(m), k)))


def triangular(E):
    """bit-vectors: if number j has its lowest one bit at place 29-j for all j<k, no non-empty combination of the first k numbers has all of its leading k bits zero.
    Step: a combination whose highest-numbered member is j has bit 29-j set by that member alone"""
    v = z3.BitVec('member', 32)
    rest = z3.BitVec('rest', 32)
    j = z3.BitVec('j', 32)
    one = z3.BitVecVal(1, 32)
    bit = one << (29 - j)
    E.prove('the bit stays set', z3.Implies(z3.And(z3.ULE(j, 29), (v & -v) == bit, (rest & (bit | (bit - 1))) == 0), ((v ^ rest) & bit) != 0))
    w = z3.BitVec('other', 32)
    i = z3.BitVec('i', 32)
    E.prove('members of lower number do not reach that bit', z3.Implies(z3.And(z3.ULT(i, j), z3.ULE(j, 29), (w & -w) == (one << (29 - i))), (w & (bit | (bit - 1))) == 0))
    E.prove('nor do their combinations', z3.Implies(z3.And((w & (bit | (bit - 1))) == 0, (rest & (bit | (bit - 1))) == 0), ((w ^ rest) & (bit | (bit - 1))) == 0))


CONTRACTS = [('sobol point, %s' % c, sobol_step(c)) for c in ('fresh', 'same', 'other')] + [('lowest zero bit', bit_lo0), ('highest bit', bit_hi1)]
CONTRACTS += [('radical inverse, induction step', ri_lemma), ('radical inverse', vdc(True)), ('radical inverse, negative indices', vdc(False))]
for sk in ('equal', 'range', 'one negative', 'negative'):
    for pr in (False, True):
        CONTRACTS.append(('halton points, skip %s%s' % (sk, ', bases given' if pr else ''), halton_points(sk, pr)))
CONTRACTS += [('hammersly points', hammersly_points), ('sobol numbering', sobol_points(0)), ('sobol numbering, skip 16', sobol_points(16))]
CONTRACTS += [('strata, %s' % t, strata(t)) for t in ('classic', 'centered')]
CONTRACTS += [('direction numbers', directions), ('Gray codes', gray), ('independence of the direction numbers', triangular)]
CONTRACTS += [('product of vectors', combine)]
CONTRACTS += [('lattice, induction step', lattice_lemma)]
for bo in ('include', 'exclude', 'only'):
    for fu in (True, False):
        for ap in ('include', 'exclude', 'only'):
            CONTRACTS.append(('grid points %s, %s layout, rest %s' % (bo, 'full' if fu else 'larger', ap), grid_points(bo, fu, ap)))
