"""Operators, comparison, attribute and item access."""
import ast
from fractions import Fraction
import z3
from .vals import *
from . import solve
from .solve import SQRT, EXP, LOG, LOG10, EXP10, POW, ROUND, FLOOR, NCDF, NPDF, SIN, COS

INF = float('inf')
OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.MatMult: '@', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
CMPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}


def const_frac(v):
    """exact value of a concrete number, or None"""
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, float):
        if v != v or v in (INF, -INF):
            return None
        return Fraction(repr(v))
    if is_z3(v):
        if z3.is_int_value(v):
            return Fraction(v.as_long())
        if z3.is_rational_value(v):
            return v.as_fraction()
    return None


def of_frac(f, want_int=False):
    if want_int and f.denominator == 1:
        return int(f)
    x = float(f)
    if Fraction(repr(x)) == f:
        return x
    return z3.RealVal(f)


def isinf(v):
    return isinstance(v, float) and v in (INF, -INF)


def f_sqrt(x):
    c = const_frac(x)
    if c is not None and c >= 0:
        n, d = c.numerator, c.denominator
        import math
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return of_frac(Fraction(rn, rd))
    if isinf(x):
        return x
    return SQRT(zreal(x))


def f_exp(x):
    if const_frac(x) == 0:
        return 1.0
    if x == -INF if isinstance(x, float) else False:
        return 0.0
    return EXP(zreal(x))


def f_log(x):
    if const_frac(x) == 1:
        return 0.0
    return LOG(zreal(x))


def f_log10(x):
    c = const_frac(x)
    if c is not None and c > 0:
        e = 0
        while c >= 10:
            c, e = c / 10, e + 1
        while c < 1:
            c, e = c * 10, e - 1
        if c == 1:
            return float(e)
    return LOG10(zreal(x))


def f_exp10(x):
    c = const_frac(x)
    if c is not None and c.denominator == 1 and abs(c) < 50:
        return of_frac(Fraction(10) ** int(c))
    return EXP10(zreal(x))


def f_abs(x):
    c = const_frac(x)
    if c is not None:
        return of_frac(abs(c), is_int(x))
    if isinf(x):
        return INF
    z = zint(x) if is_int(x) else zreal(x)
    return z3.If(z >= 0, z, -z)


def f_round(x):
    """round half to even -> int"""
    c = const_frac(x)
    if c is not None:
        return round(c)
    if is_int(x):
        return x
    return ROUND(zreal(x))


def f_floor(x):
    c = const_frac(x)
    if c is not None:
        return c.numerator // c.denominator
    if is_int(x):
        return x
    return FLOOR(zreal(x))


def f_trunc(x):
    """int(x)"""
    c = const_frac(x)
    if c is not None:
        return int(c)
    if is_int(x):
        return lower(zint(x))
    r = zreal(x)
    if z3.is_app(r) and r.decl().kind() == z3.Z3_OP_TO_REAL:
        return r.arg(0)
    return z3.If(r >= 0, FLOOR(r), -FLOOR(-r))


def f_min(a, b):
    return f_ite_num(f_cmp('<=', a, b), a, b)


def f_max(a, b):
    return f_ite_num(f_cmp('>=', a, b), a, b)


def f_ite_num(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinf(a) or isinf(b):
        return Cases([(c, a), (z3.Not(c), b)])
    if is_bool(a) and is_bool(b):
        return z3.If(c, zbool(a), zbool(b))
    if is_int(a) and is_int(b):
        return z3.If(c, zint(a), zint(b))
    return z3.If(c, zreal(a), zreal(b))


def f_cmp(op, a, b):
    if isinf(a) or isinf(b):
        x = a if isinf(a) else 0.0
        y = b if isinf(b) else 0.0
        return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[op]
    if isinstance(a, float) and a != a or isinstance(b, float) and b != b:
        return op == '!='
    ca, cb = const_frac(a), const_frac(b)
    if ca is not None and cb is not None:
        return {'<': ca < cb, '<=': ca <= cb, '>': ca > cb, '>=': ca >= cb, '==': ca == cb, '!=': ca != cb}[op]
    if is_bool(a) and is_bool(b) and op in ('==', '!='):
        r = zbool(a) == zbool(b)
        return r if op == '==' else z3.Not(r)
    if is_int(a) and is_int(b):
        x, y = zint(a), zint(b)
    else:
        x, y = zreal(a), zreal(b)
    if op == '==':
        r = x == y
    elif op == '!=':
        r = x != y
    elif op == '<':
        r = x < y
    elif op == '<=':
        r = x <= y
    elif op == '>':
        r = x > y
    else:
        r = x >= y
    return lower(z3.simplify(r)) if (z3.is_true(z3.simplify(r)) or z3.is_false(z3.simplify(r))) else r


class OpsMixin:
    # ---------------------------------------------------------------- numbers
    def num_binop(self, op, a, b):
        if isinf(a) or isinf(b) or (isinstance(a, float) and a != a) or (isinstance(b, float) and b != b):
            return self.inf_binop(op, a, b)
        ca, cb = const_frac(a), const_frac(b)
        ii = is_int(a) and is_int(b)
        if op in ('&', '|', '^'):
            if is_bool(a) and is_bool(b):
                x, y = zbool(a), zbool(b)
                return self.simp({'&': z3.And(x, y), '|': z3.Or(x, y), '^': z3.Xor(x, y)}[op])
            if ca is not None and cb is not None and ii:
                return {'&': int(ca) & int(cb), '|': int(ca) | int(cb), '^': int(ca) ^ int(cb)}[op]
            if ii:
                x, y = zint(a), zint(b)
                return {'&': solve.BAND, '|': solve.BOR, '^': solve.BXOR}[op](x, y)
            raise Unsupported('bit operation')
        if op in ('<<', '>>'):
            if ca is not None and cb is not None:
                return int(ca) << int(cb) if op == '<<' else int(ca) >> int(cb)
            raise Unsupported('shift')
        if ca is not None and cb is not None:
            if op == '+':
                return of_frac(ca + cb, ii)
            if op == '-':
                return of_frac(ca - cb, ii)
            if op == '*':
                return of_frac(ca * cb, ii)
            if op == '/':
                if cb == 0:
                    self.raise_('ZeroDivisionError', 'division by zero')
                return of_frac(ca / cb)
            if op == '//':
                if cb == 0:
                    self.raise_('ZeroDivisionError', 'division by zero')
                r = ca // cb
                return int(r) if ii else float(r)
            if op == '%':
                if cb == 0:
                    self.raise_('ZeroDivisionError', 'modulo by zero')
                return of_frac(ca % cb, ii)
            if op == '**':
                if cb.denominator == 1 and abs(cb) < 200:
                    if ca == 0 and cb < 0:
                        self.raise_('ZeroDivisionError', 'power')
                    return of_frac(ca ** int(cb), ii and cb >= 0)
        if op == '+':
            if ca == 0 and not is_bool(b):
                return b if (is_int(b) and is_int(a)) or is_real(b) else zreal(b)
            if cb == 0 and not is_bool(a):
                return a if (is_int(b) and is_int(a)) or is_real(a) else zreal(a)
            return zint(a) + zint(b) if ii else zreal(a) + zreal(b)
        if op == '-':
            if cb == 0 and not is_bool(a):
                return a if (is_int(b) and is_int(a)) or is_real(a) else zreal(a)
            return zint(a) - zint(b) if ii else zreal(a) - zreal(b)
        if op == '*':
            for c, x in ((ca, b), (cb, a)):
                if c == 1 and not is_bool(x):
                    return x if ii or is_real(x) else zreal(x)
                if c == 0:
                    return 0 if ii else 0.0
            return zint(a) * zint(b) if ii else zreal(a) * zreal(b)
        if op == '/':
            if cb == 1:
                return zreal(a)
            if cb == 0:
                self.raise_('ZeroDivisionError', 'division by zero')
            return zreal(a) / zreal(b)
        if op == '//':
            if ii:
                x, y = zint(a), zint(b)
                if cb is not None:
                    return x / y if cb > 0 else (-x) / (-y)
                return z3.If(y > 0, x / y, (-x) / (-y))
            return z3.ToReal(FLOOR(zreal(a) / zreal(b)))
        if op == '%':
            if ii:
                x, y = zint(a), zint(b)
                if cb is not None and cb > 0:
                    return x % y
                return x - y * z3.If(y > 0, x / y, (-x) / (-y))
            x, y = zreal(a), zreal(b)
            return x - y * z3.ToReal(FLOOR(x / y))
        if op == '**':
            return self.num_pow(a, b)
        raise Unsupported('operator ' + op)

    def inf_binop(self, op, a, b):
        if isinstance(a, float) and a != a or isinstance(b, float) and b != b:
            return float('nan')
        if op == '+':
            if isinf(a) and isinf(b):
                return a + b
            return a if isinf(a) else b
        if op == '-':
            if isinf(a) and isinf(b):
                return a - b
            return a if isinf(a) else -b
        if op == '*':
            s, o = (a, b) if isinf(a) else (b, a)
            if isinf(o):
                return a * b
            if self.decide(f_cmp('>', o, 0)):
                return s
            if self.decide(f_cmp('<', o, 0)):
                return -s
            return float('nan')
        if op == '/':
            if isinf(b) and not isinf(a):
                return 0.0
            if isinf(a) and not isinf(b):
                return a if self.decide(f_cmp('>=', b, 0)) else -a
        raise Unsupported('arithmetic with infinity')

    def num_pow(self, a, b):
        ca, cb = const_frac(a), const_frac(b)
        if cb is not None:
            if cb.denominator == 1 and 0 <= cb <= 8:
                n = int(cb)
                ii = is_int(a) and is_int(b)
                if n == 0:
                    return 1 if ii else 1.0
                x = zint(a) if ii else zreal(a)
                r = x
                for _ in range(n - 1):
                    r = r * x
                return r
            if cb.denominator == 1 and -8 <= cb < 0:
                return z3.RealVal(1) / zreal(self.num_pow(zreal(a), int(-cb)))
            if cb == Fraction(1, 2):
                return f_sqrt(a)
            if cb == Fraction(-1, 2):
                return z3.RealVal(1) / zreal(f_sqrt(a))
            if cb.denominator == 2 and abs(cb) < 8:
                n = int(cb - Fraction(1, 2)) if cb > 0 else int(cb + Fraction(1, 2))
                return self.num_binop('*' if cb > 0 else '/', self.num_pow(zreal(a), n) if n else 1.0, f_sqrt(a))
        if ca == 10:
            return f_exp10(b)
        if self.pow_symbol:
            return solve.POW(zreal(a), self.ratsimp(zreal(b)))
        # general positive base: 10^(b*log10(a))
        self.assumptions.add('real powers with a symbolic exponent are taken on positive bases')
        arg = self.ratsimp(zreal(b) * zreal(f_log10(a)))
        return f_exp10(arg)

    pow_symbol = False        # contracts may keep general powers as such

    def ratsimp(self, t):
        r, dens = solve.ratsimp(t)
        if r is None or r.eq(t):
            return t
        for d in dens:
            if not self.nonzero(d):
                return t
        return r

    def nonzero(self, d):
        c = const_frac(lower(z3.simplify(d)))
        if c is not None:
            return c != 0
        return self.implied(d != 0)

    def scalar_binop(self, op, a, b):
        a, b = self.force(a), self.force(b)
        if is_num(a) and is_num(b):
            return self.num_binop(op, a, b)
        return self.obj_binop(op, a, b)

    def obj_binop(self, op, a, b):
        if isinstance(a, (str, OpaqueStr)) and op == '+':
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if isinstance(b, (str, OpaqueStr)):
                return OpaqueStr((a, b))
            self.raise_('TypeError', 'can only concatenate str')
        if op == '%' and isinstance(a, (str, OpaqueStr)):
            if isinstance(a, str):
                if isinstance(b, tuple):
                    bs = tuple(self.force(x) for x in b)
                else:
                    bs = b
                if all(isinstance(x, (str, int, float)) for x in (bs if isinstance(bs, tuple) else (bs,))):
                    try:
                        return a % bs
                    except (TypeError, ValueError) as e:
                        self.raise_(type(e).__name__, str(e))
            return OpaqueStr((a, b))
        if op == '*' and isinstance(a, str) and isinstance(b, int):
            return a * b
        if op == '*' and isinstance(b, (PList, tuple)) and is_int(a):
            a, b = b, a
        if op == '*' and isinstance(a, (PList, tuple)) and is_int(b):
            s = self.to_seq(a)
            if isinstance(b, int) and s.concrete:
                r = s.items * b
                return PList(r) if isinstance(a, PList) else r
            if s.concrete and len(s.items) == 1:
                n = z3.If(zint(b) > 0, zint(b), z3.IntVal(0))
                if not self.decide(zint(b) >= 0):
                    return PList(())
                x = s.items[0]
                if isinstance(x, Obj) and not isinstance(x, (PList, ArrObj)):
                    raise Unsupported('repetition of a mutable element')      # a list or array is the same object at every index
                q = Seq(n=zint(b), get=lambda i, x=x: x)
                return PList(q)
            raise Unsupported('sequence repetition')
        if op == '+' and isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if op == '+' and isinstance(a, PList) and isinstance(b, PList):
            return PList(self.seq_concat(a.f['seq'], b.f['seq']))
        if op == '+' and isinstance(a, (PList, tuple)) or op == '+' and isinstance(b, (PList, tuple)):
            self.raise_('TypeError', 'can only concatenate list to list')
        name = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '**': 'pow', '@': 'matmul', '%': 'mod', '//': 'floordiv'}.get(op)
        for x, y, nm in ((a, b, '__%s__' % name), (b, a, '__r%s__' % name)):
            if isinstance(x, Inst):
                m = self.class_lookup(x.cls, nm)
                if m is not None:
                    return self.call(m, [x, y], {})
            if isinstance(x, NatObj) and hasattr(x, 'py_binop'):
                r = x.py_binop(self, op, a, b)
                if r is not NotImplemented:
                    return r
        if isinstance(a, (PSet,)) and isinstance(b, PSet):
            return self.set_op(op, a, b)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            self.raise_('TypeError', 'unsupported operand type(s) for %s' % op)
        raise Unsupported('operator %s on %r and %r (line %s)' % (op, a, b, self.line))

    def set_op(self, op, a, b):
        x, y = self.items_of(a), self.items_of(b)
        has = lambda s, v: any(self.truth(self.eq(u, v)) for u in s)
        if op == '&':
            return PSet([v for v in x if has(y, v)])
        if op == '-':
            return PSet([v for v in x if not has(y, v)])
        if op == '|':
            return PSet(list(x) + [v for v in y if not has(x, v)])
        raise Unsupported('set operator')

    def binop(self, op, a, b):
        op = OPS.get(type(op), op) if not isinstance(op, str) else op
        a, b = self.force(a), self.force(b)
        if isinstance(a, NatObj) and hasattr(a, 'py_binop') or isinstance(b, NatObj) and hasattr(b, 'py_binop'):
            return self.obj_binop(op, a, b)
        if isinstance(a, Inst) or isinstance(b, Inst):
            return self.obj_binop(op, a, b)
        if isinstance(a, ArrObj) or isinstance(b, ArrObj):
            if op == '@':
                return self.matmul(a, b)
            if b is None or a is None or isinstance(a, str) or isinstance(b, str):
                self.raise_('TypeError', 'unsupported operand types for array')
            return self.arr_map(lambda x, y: self.scalar_binop(op, x, y), [a, b], self.binop_dtype(op))
        return self.scalar_binop(op, a, b)

    def binop_dtype(self, op):
        def dt(ds):
            if 'O' in ds:
                return 'O'
            if op == '/':
                return 'f'
            if op in ('&', '|', '^') and all(d == 'b' for d in ds):
                return 'b'
            if 'f' in ds:
                return 'f'
            return 'i'
        return dt

    def unop(self, op, v):
        v = self.force(v)
        if isinstance(v, ArrObj):
            return self.arr_map(lambda x: self.unop(op, x), [v], lambda ds: ds[0])
        if isinstance(op, ast.UAdd):
            return v
        if isinstance(op, ast.USub):
            if isinf(v):
                return -v
            c = const_frac(v)
            if c is not None:
                return of_frac(-c, is_int(v))
            if is_num(v):
                return -(zint(v) if is_int(v) else zreal(v))
        if isinstance(op, ast.Invert):
            if is_bool(v) and is_z3(v):
                return z3.Not(v)
            if isinstance(v, bool):
                return not v
            if isinstance(v, int):
                return ~v
        if isinstance(v, Inst) and isinstance(op, ast.USub):
            m = self.class_lookup(v.cls, '__neg__')
            if m is not None:
                return self.call(m, [v], {})
        raise Unsupported('unary operator on %r' % (v,))

    # ---------------------------------------------------------------- cases and ite
    def force(self, v):
        while isinstance(v, Cases):
            alts = v.alts
            for c, x in alts[:-1]:
                if self.decide(c):
                    v = x
                    break
            else:
                v = alts[-1][1]
        if isinstance(v, Poison):
            raise PoisonRead(v)
        return v

    def vite(self, c, a, b):
        """value that is a if c else b"""
        c = self.simp(c) if is_z3(c) else c
        if isinstance(c, bool):
            return a if c else b
        if a is b:
            return a
        if isinstance(a, (Poison,)) or isinstance(b, Poison):
            return Cases([(c, a), (z3.Not(c), b)])
        if is_num(a) and is_num(b) and not isinf(a) and not isinf(b):
            if is_bool(a) == is_bool(b) and is_int(a) == is_int(b):
                x = f_ite_num(c, a, b)
                return x if not (is_z3(a) and is_z3(b) and a.eq(b)) else a
            if is_num(a) and is_num(b) and not is_bool(a) and not is_bool(b):
                # an int on one side, a float on the other: keep them apart
                return Cases([(c, a), (z3.Not(c), b)])
        if is_u(a) and is_u(b):
            return a if a.eq(b) else z3.If(c, a, b)
        if a is None and b is None:
            return None
        if isinstance(a, str) and isinstance(b, str) and a == b:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.vite(c, x, y) for x, y in zip(a, b))
        alts = []
        for cc, x in ((c, a), (z3.Not(c), b)):
            if isinstance(x, Cases):
                alts += [(self.simpb(z3.And(cc, d)), y) for d, y in x.alts]
            else:
                alts.append((cc, x))
        return Cases(alts)

    def simpb(self, f):
        return z3.simplify(f)

    def merge(self, pairs):
        """pairs: [(cond, value)] exhaustive and exclusive"""
        v = pairs[-1][1]
        for c, x in reversed(pairs[:-1]):
            v = self.vite(c, x, v)
        return v

    # ---------------------------------------------------------------- substitution in values
    def vsubst(self, v, sub, memo=None):
        """replace index constants in a value: sub = [(const, term)]"""
        if isinstance(v, (int, float, str, bytes, type(None), OpaqueStr, ExtV, ModV, ClassV, FuncV, Native)):
            return v
        if is_z3(v):
            return z3.substitute(v, *sub)
        if isinstance(v, tuple):
            return tuple(self.vsubst(x, sub) for x in v)
        if isinstance(v, Cases):
            return self.cases([(z3.substitute(c, *sub) if is_z3(c) else c, self.vsubst(x, sub)) for c, x in v.alts])
        if isinstance(v, Seq):
            return self.seq_subst(v, sub)
        if isinstance(v, ArrVal):
            return self.arr_subst(v, sub)
        if isinstance(v, ArrObj):
            o = ArrObj(self.arr_subst(v.v, sub))
            return o
        if isinstance(v, (PList, PSet)):
            s = v.f['seq']
            o = type(v)(self.seq_subst(s, sub))
            o.frozen = 'element of a summarised container' if v.frozen or True else None
            o.prov = v.prov
            return o
        if isinstance(v, PDict):
            o = PDict()
            o.f['d'] = {k: self.vsubst(x, sub) for k, x in v.f['d'].items()}
            sm = v.f['sym']
            if sm is not None:
                o.f['sym'] = SymMap(self.vsubst(sm.n, sub), lambda i: self.vsubst(sm.key(i), sub),
                                    lambda i: self.vsubst(sm.val(i), sub), distinct=sm.distinct)
            o.frozen = 'element of a summarised container'
            return o
        if isinstance(v, Inst):
            if not self.mentions(v, [s[0] for s in sub], set()):
                return v
            o = Inst(v.cls)
            for k, x in v.f.items():
                o.f[k] = self.vsubst(x, sub)
            o.frozen = 'element of a summarised container'
            if hasattr(v, 'lazy'):
                o.lazy = v.lazy
            return o
        if isinstance(v, RangeV):
            return RangeV(self.vsubst(v.lo, sub), self.vsubst(v.hi, sub), v.step)
        if isinstance(v, NatObj):
            if hasattr(v, 'py_subst'):
                return v.py_subst(self, sub)
            return v
        if isinstance(v, BoundM):
            return BoundM(self.vsubst(v.self_, sub), v.fn)
        if isinstance(v, Poison):
            return v
        if v is UNDEF:
            return v
        if isinstance(v, Env):
            return v
        raise Unsupported('substitution in %r' % (v,))

    def cases(self, alts):
        out = []
        for c, x in alts:
            c = self.simp(c)
            if c is True:
                return x if not out else Cases(out + [(z3.BoolVal(True), x)])
            if c is False:
                continue
            out.append((c, x))
        if len(out) == 1:
            return out[0][1]
        return Cases(out)

    def mentions(self, v, consts, seen):
        if is_z3(v):
            ids = {c.get_id() for c in consts}
            return any(t.get_id() in ids for t in solve.subterms([v]))
        if isinstance(v, tuple):
            return any(self.mentions(x, consts, seen) for x in v)
        if isinstance(v, Cases):
            return any(self.mentions(c, consts, seen) or self.mentions(x, consts, seen) for c, x in v.alts)
        if isinstance(v, Obj):
            if id(v) in seen:
                return False
            seen.add(id(v))
            if isinstance(v, ArrObj):
                return self.mentions(v.v, consts, seen)
            return any(self.mentions(x, consts, seen) for x in v.f.values())
        if isinstance(v, Seq):
            if v.concrete:
                return any(self.mentions(x, consts, seen) for x in v.items)
            return True
        if isinstance(v, ArrVal):
            return True
        if isinstance(v, dict):
            return any(self.mentions(x, consts, seen) for x in v.values())
        if isinstance(v, BoundM):
            return self.mentions(v.self_, consts, seen)
        return False

    def seq_subst(self, s, sub):
        if s.concrete:
            return Seq([self.vsubst(x, sub) for x in s.items])
        return Seq(n=lower(z3.simplify(z3.substitute(zint(s.n), *sub))), get=lambda i: self.vsubst(s.get(i), sub))

    def arr_subst(self, a, sub):
        sh = tuple(d if isinstance(d, int) else lower(z3.simplify(z3.substitute(d, *sub))) for d in a.shape)
        m = self.arr_subst(a.mask, sub) if a.mask is not None else None
        return ArrVal(sh, lambda *i: self.vsubst(a.at(*i), sub), a.dtype, m)

    # ---------------------------------------------------------------- truth and comparison
    def truth(self, v):
        v = self.force(v)
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float)):
            return bool(v)
        if isinstance(v, (str, bytes)):
            return bool(v)
        if isinstance(v, tuple):
            return len(v) > 0
        if is_z3(v):
            if is_bool(v):
                return self.decide(v)
            if is_num(v):
                return self.decide(v != 0)
            if is_u(v):
                h = getattr(self, 'u_truth', None)
                if h is not None:
                    return h(self, v)
                raise Unsupported('truth of an opaque object')
        if isinstance(v, (PList, PSet)):
            return self.decide(zint(v.f['seq'].n) > 0)
        if isinstance(v, PDict):
            return self.decide(zint(self.length(v)) > 0)
        if isinstance(v, ArrObj):
            a = v.v
            if a.mask is None:
                if all(isinstance(d, int) and d == 1 for d in a.shape) or a.ndim == 0:
                    return self.truth(a.at(*([0] * a.ndim)))
                if all(isinstance(d, int) for d in a.shape) and 0 in a.shape:
                    return False
                if a.ndim == 1:
                    if self.decide(zint(a.shape[0]) == 1):
                        return self.truth(a.at(0))
                    if self.decide(zint(a.shape[0]) == 0):
                        return False
            self.raise_('ValueError', 'The truth value of an array with more than one element is ambiguous')
        if isinstance(v, Inst):
            m = self.class_lookup(v.cls, '__bool__')
            if m is not None:
                return self.truth(self.call(m, [v], {}))
            m = self.class_lookup(v.cls, '__len__')
            if m is not None:
                return self.truth(self.compare_num('>', self.call(m, [v], {}), 0))
            return True
        if isinstance(v, (FuncV, ClassV, BoundM, Native, ExtV, ModV)):
            return True
        if isinstance(v, NatObj):
            if hasattr(v, 'py_truth'):
                return v.py_truth(self)
            return True
        if isinstance(v, RangeV):
            return self.truth(self.compare_num('>', self.length(v), 0))
        if isinstance(v, ExcV):
            return True
        raise Unsupported('truth of %r' % (v,))

    def compare_num(self, op, a, b):
        return f_cmp(op, a, b)

    def compare(self, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return self.not_(r) if isinstance(op, ast.NotIn) else r
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            return self.not_(r) if isinstance(op, ast.IsNot) else r
        o = CMPS[type(op)]
        return self.cmp(o, a, b)

    def cmp(self, o, a, b):
        a, b = self.force(a), self.force(b)
        if isinstance(a, NatObj) and hasattr(a, 'py_cmp'):
            return a.py_cmp(self, o, a, b)
        if isinstance(b, NatObj) and hasattr(b, 'py_cmp'):
            return b.py_cmp(self, o, a, b)
        if (isinstance(a, ArrObj) or isinstance(b, ArrObj)) and not (a is None or b is None):
            if isinstance(a, (PList, tuple)) or isinstance(b, (PList, tuple)) or isinstance(a, ArrObj) or isinstance(b, ArrObj):
                return self.arr_map(lambda x, y: self.cmp(o, x, y), [a, b], lambda ds: 'b')
        if isinstance(a, ArrObj) or isinstance(b, ArrObj):
            o_ = a if isinstance(a, ArrObj) else b
            return self.arr_map(lambda x: False if o == '==' else True, [o_], lambda ds: 'b')
        if o == '==':
            return self.eq(a, b)
        if o == '!=':
            if isinstance(a, Inst):
                m = self.class_lookup(a.cls, '__ne__')
                if m is not None:
                    return self.call(m, [a, b], {})
            return self.not_(self.eq(a, b))
        if is_num(a) and is_num(b):
            return f_cmp(o, a, b)
        if isinstance(a, str) and isinstance(b, str):
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[o]
        if isinstance(a, Inst):
            m = self.class_lookup(a.cls, {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}[o])
            if m is not None:
                return self.call(m, [a, b], {})
        if isinstance(b, Inst):
            m = self.class_lookup(b.cls, {'>': '__lt__', '>=': '__le__', '<': '__gt__', '<=': '__ge__'}[o])
            if m is not None:
                return self.call(m, [b, a], {})
        if is_u(a) or is_u(b):
            h = getattr(self, 'u_cmp', None)
            if h is not None:
                return h(self, o, a, b)
            raise Unsupported('ordering of opaque objects')
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.lex(o, a, b)
        self.raise_('TypeError', "'%s' not supported between these values" % o)

    def lex(self, o, a, b):
        for x, y in zip(a, b):
            if not self.truth(self.eq(x, y)):
                return self.cmp(o, x, y)
        n, m = len(a), len(b)
        return {'<': n < m, '<=': n <= m, '>': n > m, '>=': n >= m}[o]

    def not_(self, r):
        if isinstance(r, bool):
            return not r
        if is_z3(r) and is_bool(r):
            return self.simp(z3.Not(r))
        if isinstance(r, ArrObj):
            return self.arr_map(lambda x: self.not_(x), [r], lambda ds: 'b')
        return not self.truth(r)

    def and_(self, *rs):
        out = []
        for r in rs:
            if r is True:
                continue
            if r is False:
                return False
            out.append(zbool(r))
        if not out:
            return True
        return self.simp(z3.And(*out)) if len(out) > 1 else out[0]

    def or_(self, *rs):
        out = []
        for r in rs:
            if r is False:
                continue
            if r is True:
                return True
            out.append(zbool(r))
        if not out:
            return False
        return self.simp(z3.Or(*out)) if len(out) > 1 else out[0]

    def is_(self, a, b):
        a, b = self.force(a), self.force(b)
        if a is None or b is None:
            if a is None and b is None:
                return True
            if is_u(a) or is_u(b):
                h = getattr(self, 'u_isnone', None)
                if h is not None:
                    return h(self, a if is_u(a) else b)
            return False
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if is_u(a) and is_u(b):
            return a == b
        if isinstance(a, ExtV) and isinstance(b, ExtV):
            return a == b
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return type(a) is type(b) and a == b
        if is_bool(a) and is_bool(b):
            return zbool(a) == zbool(b)
        if isinstance(a, Obj) or isinstance(b, Obj) or isinstance(a, (FuncV, ClassV)) or isinstance(b, (FuncV, ClassV)):
            return a is b
        if is_num(a) != is_num(b):
            return False
        raise Unsupported('identity of %r and %r' % (a, b))

    def eq(self, a, b):
        """python == as bool or z3 Bool"""
        a, b = self.force(a), self.force(b)
        if a is b and not (isinstance(a, float) and a != a):
            return True
        if is_num(a) and is_num(b):
            return f_cmp('==', a, b)
        if is_u(a) and is_u(b):
            return self.simp(a == b)
        if is_u(a) or is_u(b):
            h = getattr(self, 'u_eq', None)
            if h is not None:
                return h(self, a, b)
            if a is None or b is None:
                return False
            raise Unsupported('comparison of an opaque object with %r' % (b if is_u(a) else a,))
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isinstance(a, OpaqueStr) or isinstance(b, OpaqueStr):
            if isinstance(a, (str, OpaqueStr)) and isinstance(b, (str, OpaqueStr)):
                return self.Bool('streq')
            return False
        if isinstance(a, tuple) and isinstance(b, tuple) or isinstance(a, PList) and isinstance(b, PList):
            return self.seq_eq(self.to_seq(a), self.to_seq(b))
        if isinstance(a, (tuple, PList, Seq)) and isinstance(b, (tuple, PList, Seq)):
            if isinstance(a, Seq) or isinstance(b, Seq):
                return self.seq_eq(self.to_seq(a), self.to_seq(b))
            return False
        if isinstance(a, Inst) or isinstance(b, Inst):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Inst):
                    m = self.class_lookup(x.cls, '__eq__')
                    if m is not None:
                        r = self.call(m, [x, y], {})
                        return r if is_bool(r) else self.truth(r)
            return a is b
        if isinstance(a, PSet) and isinstance(b, PSet):
            return self.set_eq(a, b)
        if isinstance(a, PDict) and isinstance(b, PDict):
            if a.f['sym'] is None and b.f['sym'] is None:
                if list(sorted(map(repr, a.f['d']))) != list(sorted(map(repr, b.f['d']))):
                    return False
                return self.and_(*[self.eq(v, b.f['d'][k]) for k, v in a.f['d'].items()])
            raise Unsupported('equality of dicts of symbolic size')
        if isinstance(a, ExtV) and isinstance(b, ExtV):
            return a.path == b.path
        if hasattr(a, 'path') and hasattr(b, 'path') or hasattr(a, 'path') and isinstance(b, str) or hasattr(b, 'path') and isinstance(a, str):
            def canon(x):
                x = x if isinstance(x, str) else x.path
                x = x.split('.')[-1].rstrip('_')
                return {'float': 'float64', 'int': 'int64', 'O': 'object'}.get(x, x)
            return canon(a) == canon(b)
        if isinstance(a, NatObj) and hasattr(a, 'py_eq'):
            return a.py_eq(self, b)
        if isinstance(b, NatObj) and hasattr(b, 'py_eq'):
            return b.py_eq(self, a)
        if isinstance(a, ArrObj) or isinstance(b, ArrObj):
            return self.cmp('==', a, b)
        if type(a) is not type(b) or isinstance(a, (ClassV, FuncV)):
            return False
        if isinstance(a, (Obj, BoundM)):
            if isinstance(a, BoundM):
                return a.self_ is b.self_ and a.fn is b.fn
            return a is b
        raise Unsupported('equality of %r and %r' % (a, b))

    def set_eq(self, a, b):
        sa, sb = a.f['seq'], b.f['seq']
        if sa.concrete and sb.concrete:
            x, y = sa.items, sb.items
            r1 = self.and_(*[self.or_(*[self.eq(u, v) for v in y]) for u in x])
            r2 = self.and_(*[self.or_(*[self.eq(u, v) for v in x]) for u in y])
            return self.and_(r1, r2)
        raise Unsupported('equality of sets of symbolic size')

    def seq_eq(self, a, b):
        if a.concrete and b.concrete:
            if len(a.items) != len(b.items):
                return False
            return self.and_(*[self.eq(x, y) for x, y in zip(a.items, b.items)])
        n = zint(a.n)
        ln = self.simp(n == zint(b.n))
        if ln is False:
            return False
        if not self.decide(ln):
            return False
        return self.all_over(a.n, lambda k: self.eq(a.get(k), b.get(k)))

    # ---------------------------------------------------------------- containers
    def to_seq(self, v):
        v = self.force(v)
        if isinstance(v, Seq):
            return v
        if isinstance(v, tuple):
            return Seq(v)
        if isinstance(v, (PList, PSet)):
            if isinstance(v, PSet) and not getattr(self, 'set_ok', 0):
                self.ghost.setdefault('ambient', []).append('order of a set at line %s' % self.line)
            s = v.f['seq']
            if isinstance(s, Poison):
                raise PoisonRead(s)
            return s
        if isinstance(v, RangeV):
            lo, hi, st = v.lo, v.hi, v.step
            if isinstance(lo, int) and isinstance(hi, int) and isinstance(st, int):
                return Seq(range(lo, hi, st))
            if st == 1:
                n = z3.simplify(zint(hi) - zint(lo))
                if not self.decide(n >= 0):
                    return Seq(())
                return Seq(n=lower(n), get=lambda i: self.num_binop('+', lo, i))
            if st == -1:
                n = z3.simplify(zint(lo) - zint(hi))
                if not self.decide(n >= 0):
                    return Seq(())
                return Seq(n=lower(n), get=lambda i: self.num_binop('-', lo, i))
            if self.implied(zint(st) >= 1):
                if not self.decide(zint(lo) < zint(hi)):
                    return Seq(())
                n = self.Int('steps')       # the number of values lo, lo + st, ... below hi
                self.fact(z3.And(n >= 1, zint(lo) + (n - 1) * zint(st) < zint(hi), zint(lo) + n * zint(st) >= zint(hi)))
                return Seq(n=n, get=lambda i: self.num_binop('+', lo, self.num_binop('*', i, st)))
            raise Unsupported('range with a step')
        if isinstance(v, str):
            return Seq(tuple(v))
        if isinstance(v, ArrObj):
            a = v.v
            if a.ndim == 0:
                self.raise_('TypeError', 'iteration over a 0-d array')
            if a.mask is not None:
                raise Unsupported('iteration over a boolean selection')
            if isinstance(a.shape[0], int) and a.shape[0] <= 64:
                return Seq([self.getitem(v, i) for i in range(a.shape[0])])
            return Seq(n=a.shape[0], get=lambda i: self.getitem(v, i))
        if isinstance(v, PDict):
            return self.dict_keys(v)
        if isinstance(v, NatObj) and hasattr(v, 'py_seq'):
            return v.py_seq(self)
        if isinstance(v, Inst):
            m = self.class_lookup(v.cls, '__iter__')
            if m is not None:
                return self.to_seq(self.call(m, [v], {}))
        if is_u(v):
            h = getattr(self, 'u_seq', None)
            if h is not None:
                return h(self, v)
            raise Unsupported('iteration over an opaque object')
        if v is None or is_num(v) or isinstance(v, (FuncV, ClassV, Inst)):
            self.raise_('TypeError', 'object is not iterable')
        raise Unsupported('iteration over %r (line %s)' % (v, self.line))

    def seq_concat(self, a, b):
        if a.concrete and not a.items:
            return b
        if b.concrete and not b.items:
            return a
        if a.concrete and b.concrete:
            return Seq(a.items + b.items)
        na, nb = zint(a.n), zint(b.n)
        n = lower(z3.simplify(na + nb))

        def get(i):
            c = self.simp(zint(i) < na)
            if c is True:
                return self.seq_at(a, i)
            j = lower(z3.simplify(zint(i) - na))
            if c is False:
                return self.seq_at(b, j)
            # in-context knowledge avoids needless case splits
            if self.implied(zint(i) < na):
                return self.seq_at(a, i)
            if self.implied(zint(i) >= na):
                return self.seq_at(b, j)
            return self.vite(c, self.seq_at(a, i), self.seq_at(b, j))
        s = Seq(n=n, get=get, parts=(a, b))
        s.memo = NoMemo()
        return s

    def seq_at(self, s, i):
        """element i (in range or value irrelevant)"""
        if s.concrete:
            if isinstance(i, int):
                if 0 <= i < len(s.items):
                    return s.items[i]
                return s.items[-1] if s.items else UNDEF
            if not s.items:
                return UNDEF
            v = s.items[-1]
            for k in range(len(s.items) - 2, -1, -1):
                v = self.vite(zint(i) == k, s.items[k], v)
            return v
        return s.get(i)

    def length(self, v):
        v = self.force(v)
        if isinstance(v, str):
            return len(v)
        if isinstance(v, (tuple,)):
            return len(v)
        if isinstance(v, ArrObj):
            a = v.v
            if a.ndim == 0:
                self.raise_('TypeError', 'len() of unsized object')
            if a.mask is not None:
                return self.mask_count(a.mask)
            return a.shape[0]
        if isinstance(v, PDict):
            n = len(v.f['d'])
            sm = v.f['sym']
            if sm is None:
                return n
            if not sm.distinct:
                raise Unsupported('length of a dict of symbolic size')
            return sm.n if n == 0 else zint(sm.n) + n
        if isinstance(v, Inst):
            m = self.class_lookup(v.cls, '__len__')
            if m is None:
                self.raise_('TypeError', 'object has no len()')
            return self.call(m, [v], {})
        if v is None or is_num(v):
            self.raise_('TypeError', 'object has no len()')
        if isinstance(v, NatObj) and hasattr(v, 'py_len'):
            return v.py_len(self)
        if is_u(v):
            h = getattr(self, 'u_len', None)
            if h is not None:
                return h(self, v)
        return self.to_seq(v).n

    def contains(self, c, v):
        c = self.force(c)
        if isinstance(c, str):
            v = self.force(v)
            if isinstance(v, str):
                return v in c
            if isinstance(v, OpaqueStr):
                return self.Bool('substr')
            self.raise_('TypeError', 'in <string> requires string')
        if isinstance(c, OpaqueStr):
            return self.Bool('substr')
        if isinstance(c, Inst):
            m = self.class_lookup(c.cls, '__contains__')
            if m is not None:
                return self.truth_value(self.call(m, [c, v], {}))
        if isinstance(c, PDict):
            v = self.force(v)
            r = []
            for k in c.f['d']:
                e = self.eq(k, v)
                if e is True:
                    return True
                r.append(e)
            sm = c.f['sym']
            if sm is not None:
                r.append(self.exists_over(sm.n, lambda k: self.eq(sm.key(k), v)))
            return self.or_(*r)
        if isinstance(c, NatObj) and hasattr(c, 'py_contains'):
            return c.py_contains(self, v)
        if isinstance(c, ArrObj):
            r = self.cmp('==', c, v)
            return self.np_any(r)
        if c is None or is_num(c):
            self.raise_('TypeError', 'argument is not iterable')
        s = self.to_seq(c)
        if s.concrete:
            r = []
            for x in s.items:
                e = self.eq(x, v)
                if isinstance(e, ArrObj):
                    e = self.truth(e)
                if e is True:
                    return True
                r.append(e)
            return self.or_(*r)
        return self.exists_over(s.n, lambda k: self.eq(s.get(k), v))

    def truth_value(self, v):
        """a bool or z3 Bool without deciding, where possible"""
        v = self.force(v)
        if is_bool(v):
            return v
        return self.truth(v)

    # ---------------------------------------------------------------- quantified booleans
    def formula_of(self, fn, k, hyp):
        """z3 formula for the boolean fn(k) evaluated for a generic k (paths merged)"""
        val = self.generic_value(lambda: self.truth_value(fn(k)), [(k, hyp)])
        return zbool(val)

    def all_over(self, n, fn, lo=0):
        """reified: for all lo <= k < n: fn(k)"""
        if isinstance(n, int) and isinstance(lo, int) and n - lo <= 8:
            return self.and_(*[self.truth_value(fn(k)) for k in range(lo, n)])
        k = z3.Const('q!%d' % self.uid(), z3.IntSort())
        rng = z3.And(k >= zint(lo), k < zint(n))
        if not self.feasible(rng):
            return True
        body = self.formula_of(fn, k, rng)
        sb = self.simp(body)
        if sb is True:
            return True
        if sb is False:
            return self.simp(zint(n) <= zint(lo))
        body = zbool(sb)
        # the same question again (its facts are restated: the path condition may have been rolled back)
        canon = z3.substitute(z3.And(rng, body), (k, z3.Int('q!canon')))
        memo = self.__dict__.setdefault('all_memo', {})
        hit = memo.get(canon.get_id())
        if hit is None:
            hit = memo[canon.get_id()] = (self.Bool('all'), self.Int('w'), canon)
        b, w = hit[:2]
        if self.ctx:
            self.skolem |= {b.decl().name(), w.decl().name()}
        self.fact(z3.Implies(b, z3.ForAll([k], z3.Implies(rng, body))))
        self.fact(z3.Implies(z3.Not(b), z3.And(w >= zint(lo), w < zint(n), z3.Not(z3.substitute(body, (k, w))))))
        return b

    def exists_over(self, n, fn, lo=0):
        r = self.all_over(n, lambda k: self.not_(self.truth_value(fn(k))), lo)
        return self.not_(r)


class NoMemo(dict):
    """elements whose value depends on the path are not memoised"""
    def __contains__(self, k):
        return False

    def __setitem__(self, k, v):
        pass


from .engine import Env  # noqa: E402  (cycle: only used in isinstance)
