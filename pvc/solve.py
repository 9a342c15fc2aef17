"""Discharging obligations: z3 with ground instantiation of the axioms of the
uninterpreted functions that occur, z3 with quantifiers, cvc5, and a rational
normal form for equalities."""
import time, subprocess, tempfile, os, re
import z3

# ---- uninterpreted functions with axioms -------------------------------------------------
R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
I = z3.IntSort()
SQRT = z3.Function('SQRT', R, R)
BXOR, BAND, BOR = [z3.Function(n, I, I, I) for n in ('BXOR', 'BAND', 'BOR')]
TZ1, BITLEN = z3.Function('TZ1', I, I), z3.Function('BITLEN', I, I)     # trailing one bits, length of the binary form
EXP = z3.Function('EXP', R, R)
LOG = z3.Function('LOG', R, R)
LOG10 = z3.Function('LOG10', R, R)
EXP10 = z3.Function('EXP10', R, R)
POW = z3.Function('POW', R, R, R)
ROUND = z3.Function('ROUND', R, I)
FLOOR = z3.Function('FLOOR', R, I)
NCDF = z3.Function('NCDF', R, R)      # standard normal cdf
NPDF = z3.Function('NPDF', R, R)      # standard normal pdf
SIN = z3.Function('SIN', R, R)
COS = z3.Function('COS', R, R)
MUL = None


def rv(x):
    return z3.RealVal(x)


def ax_sqrt(t):
    x = t.arg(0)
    return [z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)), z3.Implies(x > 0, t > 0),
            z3.Implies(x == 1, t == 1)]


def ax_exp(t):
    x = t.arg(0)
    return [t > 0, z3.Implies(x == 0, t == 1), z3.Implies(x > 0, t > 1), z3.Implies(x < 0, t < 1),
            LOG(t) == x]


def ax_log(t):
    x = t.arg(0)
    return [z3.Implies(x > 0, EXP(t) == x), z3.Implies(x == 1, t == 0), z3.Implies(x > 1, t > 0),
            z3.Implies(z3.And(0 < x, x < 1), t < 0)]


def ax_log10(t):
    x = t.arg(0)
    return [z3.Implies(x > 0, EXP10(t) == x), z3.Implies(x == 1, t == 0), z3.Implies(x > 1, t > 0),
            z3.Implies(x == 10, t == 1),
            z3.Implies(z3.And(0 < x, x < 1), t < 0)]


def ax_exp10(t):
    x = t.arg(0)
    return [t > 0, z3.Implies(x == 0, t == 1), z3.Implies(x == 1, t == 10), LOG10(t) == x]


def ax_round(t):
    x = t.arg(0)
    d = z3.ToReal(t) - x
    return [d <= rv('1/2'), d >= rv('-1/2'), z3.Implies(z3.IsInt(x), d == 0)]


def ax_floor(t):
    x = t.arg(0)
    return [z3.ToReal(t) <= x, x < z3.ToReal(t) + 1]


def ax_ncdf(t):
    x = t.arg(0)
    return [t > 0, t < 1, z3.Implies(x == 0, t == rv('1/2')), z3.Implies(x > 0, t > rv('1/2')),
            z3.Implies(x < 0, t < rv('1/2')), NCDF(-x) == 1 - t,
            # x*cdf(x) + pdf(x) > 0  (tail bound; used for expected improvement >= 0)
            x * t + NPDF(x) > 0]


def ax_npdf(t):
    x = t.arg(0)
    return [t > 0, t < rv('4/10'), x * NCDF(x) + t > 0]


def ax_pow(t):
    x, y = t.arg(0), t.arg(1)
    return [z3.Implies(x > 0, t > 0), z3.Implies(y == 1, t == x), z3.Implies(y == 0, t == 1),
            z3.Implies(y == 2, t == x * x)]


def ax_sin(t):
    return [t <= 1, t >= -1, t * t + COS(t.arg(0)) * COS(t.arg(0)) == 1]


def ax_cos(t):
    return [t <= 1, t >= -1]


def ax_bxor(t):
    a, b = t.arg(0), t.arg(1)
    return [z3.Implies(z3.And(a >= 0, b >= 0), t >= 0), z3.Implies(z3.And(a >= 0, b >= 0, a < 2 ** 30, b < 2 ** 30), t < 2 ** 30),
            z3.Implies(a == 0, t == b), z3.Implies(b == 0, t == a)]


def ax_band(t):
    a, b = t.arg(0), t.arg(1)
    return [z3.Implies(z3.And(a >= 0, b >= 0), z3.And(t >= 0, t <= a, t <= b))]


def ax_tz1(t):
    n = t.arg(0)
    return [z3.Implies(n >= 0, z3.And(t >= 0, t <= BITLEN(n))), z3.Implies(z3.And(n >= 0, n < 2 ** 30 - 1), t < 30), z3.Implies(n == 0, t == 0)]


def ax_bitlen(t):
    return [t >= 1]


AXIOMS = {'BXOR': ax_bxor, 'BOR': ax_bxor, 'BAND': ax_band, 'TZ1': ax_tz1, 'BITLEN': ax_bitlen, 'SQRT': ax_sqrt, 'EXP': ax_exp, 'LOG': ax_log, 'LOG10': ax_log10, 'EXP10': ax_exp10,
          'ROUND': ax_round, 'FLOOR': ax_floor, 'NCDF': ax_ncdf, 'NPDF': ax_npdf, 'POW': ax_pow,
          'SIN': ax_sin, 'COS': ax_cos}
MONOTONE = {'SQRT': 0, 'EXP': None, 'LOG': 'pos', 'LOG10': 'pos', 'EXP10': None, 'ROUND': 'weak', 'NCDF': None,
            'FLOOR': 'weak'}
ONLY_ONCE = {'NCDF': 1, 'NPDF': 1, 'EXP': 1, 'LOG': 1, 'LOG10': 1, 'EXP10': 1}

AXIOM_DOC = {
    'BXOR': 'bitwise xor: 0 is neutral, stays below 2**30 for operands below', 'BOR': 'bitwise or: likewise', 'BAND': 'bitwise and of non-negative numbers: at most either',
    'TZ1': 'number of trailing one bits of n: below 30 for n < 2**30-1, at most the length', 'BITLEN': 'length of the binary form',
    'SQRT': 'sqrt(x)>=0 and sqrt(x)^2=x for x>=0; strictly increasing',
    'EXP': 'exp>0, exp(0)=1, strictly increasing, log inverse', 'LOG': 'inverse of exp on positives',
    'LOG10': 'strictly increasing on positives, inverse of 10^y', 'EXP10': '10^y>0, strictly increasing, inverse of log10',
    'ROUND': 'nearest integer (|round(x)-x|<=1/2, exact on integers, monotone)', 'FLOOR': 'floor',
    'NCDF': 'standard normal cdf: in (0,1), symmetric, increasing, x*cdf(x)+pdf(x)>0', 'NPDF': 'standard normal pdf > 0',
    'POW': 'real power: positive on positive base, exponents 0,1,2', 'SIN': 'sine in [-1,1]', 'COS': 'cosine in [-1,1]'}


def subterms(exprs, seen=None, skip_quant=True):
    seen = {} if seen is None else seen
    st = list(exprs)
    out = []
    while st:
        e = st.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen[i] = e
        if z3.is_quantifier(e):
            if skip_quant:
                continue
            st.append(e.body())
            continue
        out.append(e)
        if z3.is_app(e):
            st.extend(e.children())
    return out


class Theory:
    """Ground instances of: built-in function axioms, per-declaration rules."""
    def __init__(self):
        self.rules = {}      # decl name -> list of fn(app) -> [formulas]
        self.used = set()

    def saturate(self, formulas, rounds=3, monotone=True, limit=4000):
        seen = {}
        out = []
        work = list(formulas)
        apps = {}
        done = set()
        for r in range(rounds):
            new = []
            for t in subterms(work, seen):
                if not z3.is_app(t) or t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                    continue
                nm = t.decl().name()
                if t.num_args() and nm in AXIOMS:
                    apps.setdefault(nm, []).append(t)
                    self.used.add(nm)
                    if r < 2:
                        new += AXIOMS[nm](t)
                for rule in self.rules.get(nm, ()):
                    key = (id(rule), t.get_id())
                    if key not in done:
                        done.add(key)
                        new += rule(t)
            new = [f for f in new if f is not None and not z3.is_true(f)]
            out += new
            if not new or len(out) > limit:
                break
            work = new
        if monotone:
            for nm, mode in MONOTONE.items():
                ts = apps.get(nm, [])[:14]
                for i in range(len(ts)):
                    for j in range(len(ts)):
                        if i == j:
                            continue
                        a, b = ts[i], ts[j]
                        x, y = a.arg(0), b.arg(0)
                        if mode == 'weak':
                            out.append(z3.Implies(x <= y, a <= b))
                        elif mode == 'pos':
                            out.append(z3.Implies(z3.And(0 < x, x < y), a < b))
                        elif mode == 0:
                            out.append(z3.Implies(z3.And(0 <= x, x < y), a < b))
                        else:
                            out.append(z3.Implies(x < y, a < b))
        return out


def instantiate_foralls(formulas, terms, limit=400):
    """ground instances of universally quantified hypotheses over Int index terms"""
    out = []
    ints = [t for t in terms if t.sort() == I]
    for f in formulas:
        if z3.is_quantifier(f) and f.is_forall():
            n = f.num_vars()
            if any(f.var_sort(j) != I for j in range(n)):
                continue
            if n == 1:
                for t in ints:
                    out.append(z3.substitute_vars(f.body(), t))
            elif n == 2 and len(ints) <= 14:
                for t in ints:
                    for u in ints:
                        out.append(z3.substitute_vars(f.body(), u, t))
            if len(out) > limit:
                break
    return out


def index_terms(formulas):
    """Int terms that occur as arguments of uninterpreted functions"""
    res = {}
    for t in subterms(formulas):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args():
            for a in t.children():
                if a.sort() == I:
                    res[a.get_id()] = a
        elif z3.is_const(t) and t.sort() == I and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            res[t.get_id()] = t
    return list(res.values())[:24]


def check(hyps, timeout_ms, tactic=None, arith=None):
    s = z3.Solver() if tactic is None else tactic.solver()
    s.set('timeout', int(timeout_ms))
    if arith is not None:
        s.set('smt.arith.solver', arith)
    for h in hyps:
        s.add(h)
    r = s.check()
    return str(r), (s.model() if r == z3.sat else None)


def cvc5_check(hyps, timeout_ms):
    s = z3.Solver()
    for h in hyps:
        s.add(h)
    txt = s.to_smt2()
    txt = '(set-logic ALL)\n' + re.sub(r'\(set-info[^\n]*\n', '', txt)
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(txt)
    try:
        o = subprocess.run(['cvc5', '--tlimit=%d' % timeout_ms, f.name], capture_output=True, text=True,
                           timeout=timeout_ms / 1000 + 5).stdout
    except Exception:
        o = ''
    finally:
        os.unlink(f.name)
    return o.strip().split('\n')[0] if o.strip() else 'unknown'


# ---- rational normal form ------------------------------------------------------------------
class Alg:
    def __init__(self):
        self.atoms = {}
        self.back = {}

    def sym(self, t):
        import sympy
        i = t.get_id()
        if i not in self.atoms:
            s = sympy.Symbol('a%d' % len(self.atoms))
            self.atoms[i] = s
            self.back[s] = t
        return self.atoms[i]

    def conv(self, t):
        import sympy
        if z3.is_rational_value(t):
            return sympy.Rational(t.numerator_as_long(), t.denominator_as_long())
        if z3.is_int_value(t):
            return sympy.Integer(t.as_long())
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            return sympy.Add(*[self.conv(c) for c in ch])
        if k == z3.Z3_OP_MUL:
            return sympy.Mul(*[self.conv(c) for c in ch])
        if k == z3.Z3_OP_SUB:
            r = self.conv(ch[0])
            for c in ch[1:]:
                r = r - self.conv(c)
            return r
        if k == z3.Z3_OP_UMINUS:
            return -self.conv(ch[0])
        if k == z3.Z3_OP_DIV:
            return self.conv(ch[0]) / self.conv(ch[1])
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1:
            return self.conv(ch[0]) ** int(ch[1].numerator_as_long())
        if k == z3.Z3_OP_TO_REAL:
            return self.conv(ch[0])
        if k == z3.Z3_OP_UNINTERPRETED and ch and t.decl().name() in AXIOMS:
            # normalise the arguments so that equal arguments give equal atoms
            args = tuple(self.norm(c) for c in ch)
            key = ('app', t.decl().name(), args)
            if key not in self.atoms:
                s = sympy.Symbol('a%d' % len(self.atoms))
                self.atoms[key] = s
                self.back[s] = t
            return self.atoms[key]
        return self.sym(t)

    def norm(self, t):
        import sympy
        return sympy.cancel(sympy.together(self.conv(t)))


def alg_equal(a, b):
    """a == b as rational functions over their atoms, plus SQRT(x)^2 = x"""
    import sympy
    al = Alg()
    try:
        d = al.conv(a) - al.conv(b)
        d = sympy.numer(sympy.cancel(sympy.together(d)))
        if d == 0:
            return True
        # reduce powers of square-root atoms
        for s, t in list(al.back.items()):
            if z3.is_app(t) and t.decl().name() == 'SQRT':
                x = al.conv(t.arg(0))
                p = sympy.Poly(sympy.expand(d), s)
                r = 0
                for (e,), c in p.terms():
                    r += c * x ** (e // 2) * s ** (e % 2)
                d = sympy.numer(sympy.cancel(sympy.together(r)))
                if d == 0:
                    return True
        return False
    except Exception:
        return False


def _unconv(e, back):
    import sympy
    if e.is_Rational:
        return z3.RealVal(str(e))
    if e.is_Symbol:
        t = back[e]
        return z3.ToReal(t) if t.sort() == I else t
    if e.is_Add:
        r = _unconv(e.args[0], back)
        for a in e.args[1:]:
            r = r + _unconv(a, back)
        return r
    if e.is_Mul:
        num, den = sympy.fraction(e)
        if den != 1:
            return _unconv(num, back) / _unconv(den, back)
        r = _unconv(e.args[0], back)
        for a in e.args[1:]:
            r = r * _unconv(a, back)
        return r
    if e.is_Pow and e.exp.is_Integer:
        n = abs(int(e.exp))
        b = _unconv(e.base, back)
        r = b
        for _ in range(n - 1):
            r = r * b
        return r if int(e.exp) > 0 else z3.RealVal(1) / r
    raise ValueError('unconv %r' % e)


def ratsimp(t):
    """(equal simplified term, denominators that must be nonzero for the equality)"""
    dens = {}
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_DIV:
                dens[x.arg(1).get_id()] = x.arg(1)
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_DIV, z3.Z3_OP_TO_REAL, z3.Z3_OP_UNINTERPRETED):
                st += x.children()
    if not dens:
        return t, []
    try:
        al = Alg()
        r = _unconv(al.norm(t), al.back)
    except Exception:
        return None, []
    return r, [d for d in dens.values() if not z3.is_rational_value(d)]


def round_lemmas(ts, hyps):
    """equations arg == normal form for the quotients that occur under ROUND/FLOOR/ToInt"""
    out, done = [], set()
    for x in subterms(ts):
        if z3.is_app(x) and (x.decl().name() in ('ROUND', 'FLOOR') or x.decl().kind() == z3.Z3_OP_TO_INT):
            a = x.arg(0)
            if a.get_id() in done:
                continue
            done.add(a.get_id())
            r, dens = ratsimp(a)
            if r is None or not dens or r.get_id() == a.get_id():
                continue
            if all(check(hyps + [d == 0], 4000)[0] == 'unsat' for d in dens):
                out.append((a, r))
    return out


def nonlinear(e):
    for x in subterms([e]):
        if z3.is_app(x):
            k = x.decl().kind()
            if k == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)):
                return True
            if k == z3.Z3_OP_MUL and sum(not (z3.is_rational_value(c) or z3.is_int_value(c)) for c in x.children()) > 1:
                return True
    return False


def denominators(e):
    out = {}
    for x in subterms([e]):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)):
            out[x.arg(1).get_id()] = x.arg(1)
    return list(out.values())


class Result:
    def __init__(self, status, backend, secs, model=None, note=''):
        self.status, self.backend, self.secs, self.model, self.note = status, backend, secs, model, note


class Quants:
    """Skolemised hypotheses: ground parts plus guarded universal quantifiers B -> forall x. body"""
    def __init__(self):
        self.qs = []        # (guard, quantifier)
        self.byid = {}
        self.keep = []
        self.n = 0
        self.done = set()
        self.residual = False

    def const(self, name, sort):
        self.n += 1
        return z3.FreshConst(sort, name)

    def ground(self, f, pos=True):
        if not has_quant(f):
            return f
        if z3.is_quantifier(f):
            if f.is_lambda():
                self.residual = True
                return f
            if f.is_forall() == pos:
                key = (f.get_id(), pos)
                if key in self.byid:
                    g = self.byid[key]
                else:
                    g = z3.FreshConst(B, 'qg')
                    self.byid[key] = g
                    self.keep.append(f)
                    q = f if pos else _negate_exists(f)
                    self.qs.append((g, q))
                return g if pos else z3.Not(g)
            key = (f.get_id(), pos, 'sk')
            if key in self.byid:
                return self.byid[key]
            cs = [self.const('sk', f.var_sort(j)) for j in range(f.num_vars())]
            r = self.ground(z3.substitute_vars(f.body(), *reversed(cs)), pos)
            self.byid[key] = r
            self.keep.append(f)
            return r
        k = f.decl().kind()
        ch = f.children()
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.ground(ch[0], not pos))
        if k == z3.Z3_OP_AND:
            return z3.And(*[self.ground(c, pos) for c in ch])
        if k == z3.Z3_OP_OR:
            return z3.Or(*[self.ground(c, pos) for c in ch])
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.ground(ch[0], not pos), self.ground(ch[1], pos))
        if k == z3.Z3_OP_ITE and f.sort() == B and not has_quant(ch[0]):
            return z3.If(ch[0], self.ground(ch[1], pos), self.ground(ch[2], pos))
        if k == z3.Z3_OP_ITE and f.sort() == B:
            return z3.And(z3.Implies(self.ground(ch[0], False), self.ground(ch[1], True)),
                          z3.Implies(self.ground(z3.Not(ch[0]), False), self.ground(ch[2], True))) if pos else \
                z3.Or(z3.And(self.ground(ch[0], False), self.ground(ch[1], False)),
                      z3.And(self.ground(z3.Not(ch[0]), False), self.ground(ch[2], False)))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF) and ch[0].sort() == B:
            a, b = ch
            if pos:
                return z3.And(z3.Implies(self.ground(a, False), self.ground(b, True)), z3.Implies(self.ground(b, False), self.ground(a, True)))
            return z3.And(z3.Or(z3.Not(self.ground(a, True)), self.ground(b, False)), z3.Or(z3.Not(self.ground(b, True)), self.ground(a, False)))
        self.residual = True
        return f

    def instances(self, ground, limit=600):
        """new ground instances over the index terms that occur"""
        out = []
        ints = None
        for g, q in list(self.qs):
            n = q.num_vars()
            if any(q.var_sort(j) != I for j in range(n)) or n > 2:
                continue
            if ints is None:
                ints = index_terms(ground)
            if n == 2 and len(ints) > 14:
                continue
            for tup in ([(t,) for t in ints] if n == 1 else [(t, u) for t in ints for u in ints]):
                key = (g.get_id(),) + tuple(t.get_id() for t in tup)
                if key in self.done:
                    continue
                self.done.add(key)
                self.keep.extend(tup)
                out.append(z3.Implies(g, self.ground(z3.substitute_vars(q.body(), *reversed(tup)))))
                if len(out) > limit:
                    return out
        return out

    def closed(self):
        return [z3.Implies(g, q) for g, q in self.qs]


def _negate_exists(f):
    vs = [z3.FreshConst(f.var_sort(j), 'v') for j in range(f.num_vars())]
    return z3.ForAll(vs, z3.Not(z3.substitute_vars(f.body(), *reversed(vs))))


def prove(hyps, goal, theory, timeout=10.0, extra_terms=(), want_model=True):
    """status: proved / refuted / unknown"""
    t0 = time.time()
    done = lambda be: Result('proved', be, time.time() - t0)
    if z3.is_true(z3.simplify(goal)):
        return done('simplify')
    Q = Quants()
    base = [Q.ground(h) for h in hyps] + [Q.ground(z3.Not(goal))]
    full, work = list(base), list(base)
    sat = theory.saturate(full)
    new = [Q.ground(f) for f in sat]
    full += new
    r, m1 = check(full, min(timeout, 4.0) * 1000)
    if r == 'unsat':
        return done('z3')
    # mixed integers and reals: the older simplex core finds cuts the newer one misses
    if r == 'unknown' and check(full, min(timeout, 2.0) * 1000, arith=2)[0] == 'unsat':
        return done('z3')
    # quotients under rounding: rewrite to rational normal form where the denominators are nonzero
    insts = Q.instances(full)
    lem = round_lemmas([base[-1]], full)
    if lem:
        g2 = [z3.substitute(x, *lem) for x in base + insts]
        for g3 in ([x for x in g2 if not nonlinear(x)], g2):
            if check(g3 + [Q.ground(f) for f in theory.saturate(g3)], timeout * 1000)[0] == 'unsat':
                return done('z3')
    if r == 'unknown':
        r, m1 = check(full, timeout * 1000)
        if r == 'unsat':
            return done('z3')
    for rnd in range(3):
        if not insts:
            break
        full += insts
        sat2 = theory.saturate(full)
        full += [Q.ground(f) for f in sat2 if f.get_id() not in {x.get_id() for x in full}] if len(sat2) < 300 else [Q.ground(f) for f in sat2]
        r, m = check(full, timeout * 1000 if rnd == 0 else min(timeout, 5.0) * 1000)
        if r == 'unsat':
            return done('z3')
        m1 = m or m1
        if rnd < 2:
            insts = Q.instances(full)
    # equality goals: rational normal form
    if z3.is_eq(goal) and goal.arg(0).sort() in (R, I):
        if alg_equal(goal.arg(0), goal.arg(1)):
            if all(check(full + [d == 0], 4000)[0] == 'unsat' for d in denominators(goal)):
                return done('rational normal form')
    if Q.qs or Q.residual:
        r3, m3 = check(full + Q.closed(), timeout * 1000)
        if r3 == 'unsat':
            return done('z3+quantifiers')
        if r3 == 'sat':
            r, m1 = 'sat', m3
        elif r == 'sat':
            return Result('unknown', 'z3', time.time() - t0, m1, 'ground part satisfiable')
    if r == 'unknown':
        if cvc5_check(full + Q.closed(), min(timeout, 10.0) * 1000) == 'unsat':
            return done('cvc5')
    if r == 'sat':
        return Result('refuted', 'z3', time.time() - t0, m1)
    return Result('unknown', 'z3,cvc5', time.time() - t0, m1)


_hq = {}


def has_quant(e):
    i = e.get_id()
    if i in _hq:
        return _hq[i][1]
    seen = set()
    st = [e]
    r = False
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            r = True
            break
        st.extend(x.children())
    _hq[i] = (e, r)
    return r
