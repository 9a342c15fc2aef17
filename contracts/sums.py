"""Equality of terms up to the laws of finite sums (linearity, interchange, renaming of indices, symmetric matrices)."""
import itertools
import z3
from pvc import solve
from pvc.solve import R, I

NOTE_SUMS = 'finite sums are linear, may be interchanged and their indices renamed'


def _num(t):
    return z3.is_rational_value(t) or z3.is_int_value(t)


class Normal:
    def __init__(self, E, symmetric=(), rewrite=None):
        self.E, self.sym = E, set(symmetric)
        self.atoms = {}
        self.cache = {}
        self.n = 0
        self.rewrite = rewrite
        E.assumptions.add(NOTE_SUMS)

    def bound_in(self, t, bs):
        return any(self.E.has_term(t, b) for b, _ in bs)

    def flat(self, t, bs):
        """[(coefficient, bound variables, factors)]"""
        if _num(t):
            return [(t, [], [])]
        k = t.decl().kind()
        nm = t.decl().name()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            return [m for c in ch for m in self.flat(c, bs)]
        if k == z3.Z3_OP_SUB:
            out = self.flat(ch[0], bs)
            for c in ch[1:]:
                out = out + [(-a, v, f) for a, v, f in self.flat(c, bs)]
            return out
        if k == z3.Z3_OP_UMINUS:
            return [(-a, v, f) for a, v, f in self.flat(ch[0], bs)]
        if k == z3.Z3_OP_MUL:
            out = [(z3.RealVal(1), [], [])]
            for c in ch:
                mc = self.flat(c, bs)
                out = [(a * a2, v + v2, f + f2) for a, v, f in out for a2, v2, f2 in mc]
            return out
        if k == z3.Z3_OP_DIV and not self.bound_in(ch[1], bs):
            d = self.normal(ch[1])
            return [(a / d, v, f) for a, v, f in self.flat(ch[0], bs)]
        if k == z3.Z3_OP_POWER and _num(ch[1]) and ch[1].as_fraction().denominator == 1 and 0 < ch[1].as_fraction() <= 4:
            out = [(z3.RealVal(1), [], [])]
            for _ in range(int(ch[1].as_fraction())):
                mc = self.flat(ch[0], bs)
                out = [(a * a2, v + v2, f + f2) for a, v, f in out for a2, v2, f2 in mc]
            return out
        if nm.startswith('SUM!') and ch:
            self.n += 1
            q = z3.Int('bound!%d' % self.n)
            b = (q, t.arg(0))
            body = z3.simplify(self.E.sum_body(t, q))
            return [(a, [b] + v, f) for a, v, f in self.flat(body, bs + [b])]
        if not self.bound_in(t, bs):
            return [(self.opaque(t), [], [])]
        return [(z3.RealVal(1), [], [t])]

    def opaque(self, t):
        """a term without bound variables: its parts are normalised"""
        key = t.get_id()
        if key not in self.cache:
            ch = t.children()
            self.cache[key] = (t, t if not ch else t.decl()(*[self.normal(c) if c.sort() == R or c.sort() == z3.BoolSort() else c for c in ch]))
        return self.cache[key][1]

    def bridge(self, *terms):
        """states, for the sums in these terms, that they equal their normal forms"""
        for t in terms:
            for u in solve.subterms([t]):
                if z3.is_app(u) and u.decl().name().startswith('SUM!') and u.num_args() and not any(z3.is_var(x) for x in solve.subterms([u])):
                    self.E.fact(u == self.normal(u))

    def factor_key(self, f, names):
        f = z3.simplify(z3.substitute(f, *names))
        nm = f.decl().name()
        if nm in self.sym and f.num_args() == 2:
            return nm + '(' + ','.join(sorted(c.sexpr() for c in f.children())) + ')'
        return f.sexpr()

    def normal(self, t):
        if t.sort() == z3.BoolSort():
            return self.opaque(t)
        if t.sort() != R:
            return t
        if self.rewrite is not None:
            t = self.rewrite(t)
        groups = {}
        for a, v, f in self.flat(z3.simplify(t), []):
            key = ()
            # a sum whose term does not mention the index is a multiple
            idle = [b for b in v if not any(self.E.has_term(x, b[0]) for x in f)]
            for _, nn in idle:
                a = a * z3.ToReal(nn)
            v = [b for b in v if not any(b is c for c in idle)]
            if v:
                best = None
                for perm in itertools.permutations(range(len(v))):
                    names = [(v[p][0], z3.Int('b%d' % i)) for i, p in enumerate(perm)]
                    kk = (tuple(v[p][1].sexpr() for p in perm), tuple(sorted(self.factor_key(x, names) for x in f)))
                    if best is None or kk < best:
                        best = kk
                key = best
            groups.setdefault(key, []).append(a)
        out = z3.RealVal(0)
        for key, cs in groups.items():
            c = z3.Sum(*cs) if len(cs) > 1 else cs[0]
            if key:
                if key not in self.atoms:
                    self.atoms[key] = z3.Real('sum!%d' % len(self.atoms))
                c = c * self.atoms[key]
            out = out + c
        return z3.simplify(out)


def prove_equal(E, name, a, b, symmetric=(), N=None):
    N = N or Normal(E, symmetric)
    return E.prove(name, N.normal(a) == N.normal(b))
