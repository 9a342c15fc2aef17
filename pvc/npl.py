"""The part of numpy the package uses, on arrays of symbolic shape.
Contracts of library functions (trusted): elementwise meaning over the reals."""
import z3
from .vals import *
from . import solve
from .ops import *
from .loops import NoMemo

NP_DTYPES = {'numpy.float64': 'f', 'numpy.float32': 'f', 'numpy.float16': 'f', 'numpy.int64': 'i', 'numpy.int32': 'i', 'numpy.int16': 'i',
             'numpy.int8': 'i', 'numpy.uint64': 'i', 'numpy.uint32': 'i', 'numpy.uint8': 'i', 'numpy.uint16': 'i', 'numpy.uint': 'i', 'builtins.float': 'f',
             'builtins.int': 'i', 'builtins.bool': 'b', 'builtins.object': 'O', 'numpy.bool_': 'b', 'builtins.str': 'O', 'numpy.floating': 'f', 'numpy.object_': 'O', 'numpy.double': 'f', 'numpy.float_': 'f', 'numpy.int_': 'i', 'numpy.integer': 'i'}
STR_DTYPES = {'float': 'f', 'float64': 'f', 'float32': 'f', 'float16': 'f', 'int': 'i', 'int64': 'i', 'int32': 'i', 'int16': 'i', 'int8': 'i',
              'uint8': 'i', 'uint16': 'i', 'uint32': 'i', 'uint64': 'i', 'bool': 'b', 'object': 'O', 'O': 'O', 'f8': 'f'}


class DTypeV:
    """numpy dtype object"""
    def __init__(self, path):
        self.path = path


class NumpyMixin:
    def init_np(self):
        self.count_sums = {}
        N = self.natives
        for nm in dir(self):
            if nm.startswith('np_'):
                f = getattr(self, nm)
                N['numpy.' + nm[3:]] = (lambda f: lambda E, a, k: f(*a, **k))(f)
        for nm, g in (('log', f_log), ('exp', f_exp), ('sqrt', f_sqrt), ('log10', f_log10),
                      ('sin', lambda x: SIN(zreal(x))), ('cos', lambda x: COS(zreal(x)))):
            N['numpy.' + nm] = (lambda g: lambda E, a, k: self.np_unary(g, a, k))(g)
        for nm, op in (('add', '+'), ('subtract', '-'), ('multiply', '*'), ('divide', '/'), ('true_divide', '/'), ('power', '**'), ('mod', '%'), ('remainder', '%'), ('floor_divide', '//'),
                       ('bitwise_xor', '^'), ('bitwise_and', '&'), ('bitwise_or', '|')):
            N['numpy.' + nm] = (lambda op: lambda E, a, k: self.binop(op, a[0], a[1]))(op)
        for nm, op in (('less', '<'), ('less_equal', '<='), ('greater', '>'), ('greater_equal', '>='), ('equal', '=='), ('not_equal', '!=')):
            N['numpy.' + nm] = (lambda op: lambda E, a, k: self.cmp(op, self.to_arr(a[0]), a[1]))(op)
        for nm in ('log', 'exp', 'sqrt', 'log10', 'sin', 'cos', 'reciprocal', 'square', 'abs', 'absolute', 'fabs', 'floor', 'ceil', 'sign', 'tanh', 'log2'):
            N['numpy.' + nm] = self.with_out(N['numpy.' + nm], 1)
        for nm in ('add', 'subtract', 'multiply', 'divide', 'true_divide', 'power', 'maximum', 'minimum'):
            N['numpy.' + nm] = self.with_out(N['numpy.' + nm], 2)
        for d in ('float64', 'float32', 'float16', 'float_'):
            N['numpy.' + d] = lambda E, a, k: self.to_float(a[0])
        for d in ('int64', 'int32', 'int16', 'int8', 'uint8', 'uint16', 'uint32', 'uint64', 'uint', 'int_'):
            N['numpy.' + d] = lambda E, a, k: self.to_int(a[0])
        N['numpy.bool_'] = lambda E, a, k: self.truth_value(a[0])
        for nm in ('logical_and',):
            N['numpy.' + nm] = lambda E, a, k: self.arr_map(lambda x, y: self.and_(self.truth_value(x), self.truth_value(y)), a[:2], lambda ds: 'b')
        N['numpy.logical_or'] = lambda E, a, k: self.arr_map(lambda x, y: self.or_(self.truth_value(x), self.truth_value(y)), a[:2], lambda ds: 'b')
        N['numpy.logical_not'] = lambda E, a, k: self.arr_map(lambda x: self.not_(x), a[:1], lambda ds: 'b')
        for nm in ('uniform', 'rand', 'randint', 'choice', 'multinomial', 'permutation', 'normal', 'standard_normal', 'random_sample', 'shuffle', 'randn', 'random'):
            N['numpy.random.' + nm] = lambda E, a, k, nm=nm: E.global_draw(nm, a, k)
        N['numpy.random.seed'] = lambda E, a, k: E.ghost.setdefault('ambient', []).append('np.random.seed at line %s' % E.line)
        N['numpy.random.RandomState'] = lambda E, a, k: self.make_rng(a[0] if a else k.get('seed'))
        self.ext_const.update({'sys.float_info.max': 1.7976931348623157e308, 'sys.float_info.min': 2.2250738585072014e-308, 'sys.float_info.epsilon': 2.220446049250313e-16, 'numpy.pi': z3.Real('pi'), 'numpy.inf': INF, 'numpy.nan': float('nan'), 'numpy.newaxis': None, 'numpy.e': EXP(z3.RealVal(1))})

    # ------------------------------------------------------------ construction
    def dtype_of(self, d):
        if d is None:
            return None
        d = self.force(d)
        if isinstance(d, DTypeV):
            d = d.path
        if isinstance(d, str):
            return STR_DTYPES.get(d, NP_DTYPES.get('numpy.' + d))
        if isinstance(d, ExtV):
            r = NP_DTYPES.get(d.path)
            if r is None:
                raise Unsupported('dtype %r' % d)
            return r
        raise Unsupported('dtype %r' % (d,))

    def infer(self, xs):
        ds = set()
        for x in xs:
            if isinstance(x, Cases):
                ds |= set(self.infer([y]) for _, y in x.alts)
            elif is_bool(x):
                ds.add('b')
            elif is_int(x):
                ds.add('i')
            elif is_real(x):
                ds.add('f')
            else:
                ds.add('O')
        if 'O' in ds:
            return 'O'
        if 'f' in ds:
            return 'f'
        if 'i' in ds:
            return 'i'
        return 'b' if ds else 'f'

    def arr(self, shape, fn, dtype='f', mask=None):
        return ArrObj(ArrVal(shape, fn, dtype, mask))

    def to_arr(self, v, dtype=None):
        v = self.force(v)
        if isinstance(v, ArrObj):
            return v if dtype in (None, v.v.dtype) else self.astype(v, dtype)
        if isinstance(v, (PList, tuple, Seq, RangeV, PSet)):
            if isinstance(v, PSet):
                return self.arr((), lambda: v, 'O')
            s = self.to_seq(v)
            r = self.seq_arr(s)
            return r if dtype in (None, r.v.dtype) else self.astype(r, dtype)
        if isinstance(v, NatObj) and hasattr(v, 'py_array'):
            r = v.py_array(self)
            return r if dtype in (None, r.v.dtype) else self.astype(r, dtype)
        if v is None or isinstance(v, (str, OpaqueStr, PDict, Inst, FuncV)) or is_u(v) or isinstance(v, NatObj):
            return self.arr((), lambda: v, 'O')
        if is_num(v):
            d = self.infer([v])
            r = self.arr((), lambda: v, d)
            return r if dtype in (None, d) else self.astype(r, dtype)
        raise Unsupported('array from %r' % (v,))

    def is_rowlike(self, x):
        return isinstance(x, (PList, tuple, RangeV)) or isinstance(x, ArrObj) and x.v.ndim > 0

    def seq_arr(self, s):
        if s.concrete:
            items = [self.force(x) for x in s.items]
            if not items:
                return self.arr((0,), lambda i: 0.0, 'f')
            if all(self.is_rowlike(x) for x in items):
                rows = [self.to_arr(x) for x in items]
                sh = rows[0].v.shape
                for r in rows[1:]:
                    if r.v.ndim != len(sh):
                        raise PyRaise(ExcV(ExtV('builtins.ValueError'), ['inhomogeneous shape']))
                    for a, b in zip(sh, r.v.shape):
                        if not self.decide(zint(a) == zint(b)):
                            raise PyRaise(ExcV(ExtV('builtins.ValueError'), ['inhomogeneous shape']))
                d = self.join_dtype([r.v.dtype for r in rows])
                vs = [r.v for r in rows]
                return self.arr((len(rows),) + sh, lambda i, *j: self.conv_el(self.pick([v.at(*j) for v in vs], i), d), d)
            if any(self.is_rowlike(x) for x in items):
                raise PyRaise(ExcV(ExtV('builtins.ValueError'), ['inhomogeneous shape']))
            items = [x.v.at() if isinstance(x, ArrObj) else x for x in items]
            d = self.infer(items)
            return self.arr((len(items),), lambda i: self.conv_el(self.pick(items, i), d), d)
        # symbolic length
        k = self.index_const()
        n = zint(s.n)

        def shape_of():
            x = self.force(self.seq_at(s, k))
            if self.is_rowlike(x):
                a = self.to_arr(x).v
                return ('row', a.shape, a.dtype)
            return ('el', (), self.infer([x.v.at() if isinstance(x, ArrObj) else x]))
        if not self.feasible(n > 0):
            return self.arr((0,), lambda i: 0.0, 'f')
        rs = self.generic_paths(shape_of, [(k, z3.And(k >= 0, k < n))])
        kinds = [r.out[1] for r in rs if r.out[0] == 'ok']
        if len(kinds) != len(rs) or not kinds:
            raise Unsupported('array from a sequence')
        if all(q[0] == 'el' for q in kinds):
            d = self.join_dtype([q[2] for q in kinds])
            el = lambda i: self.conv_el(self.seq_at(s, i), d)
            return self.arr((s.n,), el, d)
        if any(q[0] == 'el' for q in kinds):
            raise Unsupported('ragged array %r (line %s)' % (kinds, self.line))
        sh = kinds[0][1]
        d = self.join_dtype([q[2] for q in kinds])
        dims = []
        for ax in range(len(sh)):
            ds = [q[1][ax] for q in kinds]
            x = ds[0]
            if any(not (isinstance(y, int) and y == x or is_z3(y) and is_z3(x) and y.eq(x)) for y in ds[1:]):
                raise Unsupported('ragged array')
            if is_z3(x) and self.has_term(x, k):
                x0 = lower(z3.simplify(z3.substitute(x, (k, z3.IntVal(0)))))
                ok = self.implied_forall(n, k, x == zint(x0))
                if not ok:
                    raise Unsupported('array from rows of different lengths (line %s)' % self.line)
                x = x0
            dims.append(x)
        if len(sh) == 1:
            def fn(i, j):
                row = self.to_arr(self.seq_at(s, i)).v
                return self.conv_el(row.at(j), d)
        else:
            def fn(i, *j):
                return self.conv_el(self.to_arr(self.seq_at(s, i)).v.at(*j), d)
        # zero rows: numpy gives shape (0,); keep the generic shape when n > 0
        if not self.decide(n > 0):
            return self.arr((0,), lambda i: 0.0, 'f')
        return self.arr((s.n,) + tuple(dims), fn, d)

    def implied_forall(self, n, k, f):
        hyps = [g for g, _ in self.pc] + [k >= 0, k < zint(n)]
        return solve.prove(hyps, f, self.theory, 4).status == 'proved'

    def join_dtype(self, ds):
        return 'O' if 'O' in ds else 'f' if 'f' in ds else 'i' if 'i' in ds else 'b' if ds else 'f'

    def conv_el(self, x, d):
        if isinstance(x, ArrObj):
            x = x.v.at()
        if isinstance(x, Cases) and d in 'fib' and all(is_num(y) and not isinf(y) for _, y in x.alts):
            c = {'f': zreal, 'i': zint, 'b': zbool}[d]
            v = c(x.alts[-1][1])
            for cc, y in reversed(x.alts[:-1]):
                v = z3.If(cc, c(y), v)
            return v
        if isinstance(x, Cases):
            return x
        if d == 'f':
            if isinstance(x, bool):
                return float(x)
            if isinstance(x, int):
                return float(x)
            if isinstance(x, float):
                return x
            if is_num(x):
                return zreal(x)
        if d == 'i' and is_bool(x):
            return lower(zint(x))
        return x

    def pick(self, items, i):
        if isinstance(i, int):
            return items[i] if -len(items) <= i < len(items) else items[-1]
        v = items[-1]
        for k in range(len(items) - 2, -1, -1):
            v = self.vite(zint(i) == k, items[k], v)
        return v

    def astype(self, a, d):
        v = a.v
        if d == v.dtype:
            return self.arr(v.shape, v.at, d, v.mask)
        if d == 'f':
            f = self.to_float_el
        elif d == 'i':
            f = lambda x: f_trunc(self.force(x)) if not is_bool(x) else lower(zint(x))
        elif d == 'b':
            f = self.truth_el
        else:
            f = lambda x: x
        return self.arr(v.shape, lambda *i: f(v.at(*i)), d, v.mask)

    def truth_el(self, x):
        x = self.force(x)
        if is_bool(x):
            return x
        if is_num(x):
            return f_cmp('!=', x, 0)
        return self.truth(x)

    def to_float_el(self, x):
        if isinstance(x, Cases):
            x = self.conv_el(x, 'f')
        x = self.force(x)
        if x is None:
            return float('nan')
        if is_num(x):
            return self.conv_el(x, 'f')
        if isinstance(x, str):
            try:
                return float(x)
            except ValueError:
                self.raise_('ValueError', 'could not convert string to float')
        if is_u(x):
            h = getattr(self, 'u_float', None)
            if h:
                return h(self, x)
            raise Unsupported('float of an opaque object')
        if isinstance(x, (PList, tuple, PDict, PSet)):
            self.raise_('TypeError', 'float() argument')
        raise Unsupported('float of %r' % (x,))

    def to_float(self, x):
        x = self.force(x)
        if isinstance(x, ArrObj):
            if x.v.ndim == 0:
                return self.to_float_el(x.v.at())
            n = self.np_size(x)
            if self.decide(zint(n) == 1):
                return self.to_float_el(x.v.at(*([0] * x.v.ndim)))
            self.raise_('TypeError', 'only size-1 arrays can be converted to Python scalars')
        return self.to_float_el(x)

    def to_int(self, x):
        x = self.force(x)
        if isinstance(x, ArrObj):
            if x.v.ndim == 0:
                return f_trunc(x.v.at())
            if self.decide(zint(self.np_size(x)) == 1):
                return f_trunc(x.v.at(*([0] * x.v.ndim)))
            self.raise_('TypeError', 'only size-1 arrays can be converted to Python scalars')
        if isinf(x):
            self.raise_('OverflowError', 'cannot convert float infinity to integer')
        if is_num(x):
            return f_trunc(x)
        if isinstance(x, str):
            try:
                return int(x)
            except ValueError:
                self.raise_('ValueError', 'invalid literal for int()')
        if x is None or isinstance(x, (PList, tuple)):
            self.raise_('TypeError', 'int() argument')
        if isinstance(x, NatObj) and hasattr(x, 'py_int'):
            return x.py_int(self)
        raise Unsupported('int of %r' % (x,))

    # ------------------------------------------------------------ elementwise
    def dim_join(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            if a == b:
                return a
            if a == 1:
                return b
            if b == 1:
                return a
            self.raise_('ValueError', 'operands could not be broadcast together')
        if isinstance(a, int) and a == 1:
            return b
        if isinstance(b, int) and b == 1:
            return a
        if is_z3(a) and is_z3(b) and a.eq(b):
            return a
        if self.decide(zint(a) == zint(b)):
            return a if not isinstance(b, int) else b
        if not isinstance(a, int) and self.decide(zint(a) == 1):
            return b
        if not isinstance(b, int) and self.decide(zint(b) == 1):
            return a
        self.raise_('ValueError', 'operands could not be broadcast together')

    def bindex(self, a, nd, idx):
        sub = idx[len(idx) - a.ndim:] if a.ndim else ()
        return tuple(0 if isinstance(d, int) and d == 1 else i for d, i in zip(a.shape, sub))

    def arr_map(self, fn, args, dt, pure=True):
        vs = []
        for a in args:
            a = self.force(a)
            if isinstance(a, (PList, tuple, ArrObj, RangeV)) or isinstance(a, NatObj) and hasattr(a, 'py_array'):
                vs.append(self.to_arr(a).v)
            else:
                vs.append(a)
        arrs = [v for v in vs if isinstance(v, ArrVal)]
        if not arrs:
            return fn(*vs)
        ds = [v.dtype if isinstance(v, ArrVal) else self.infer([v]) for v in vs]
        d = dt(ds)
        mask = None
        ms = [v for v in arrs if v.mask is not None]
        if ms:
            mask = ms[0].mask
            for v in arrs:
                if v.mask is None and v.ndim:
                    if not all(isinstance(q, int) and q == 1 for q in v.shape):
                        raise Unsupported('selection combined with a full array (line %s)' % self.line)
                elif v.mask is not None and not self.same_mask(v.mask, mask):
                    raise Unsupported('different selections combined (line %s)' % self.line)
        nd = max(v.ndim for v in arrs)
        shape = []
        for i in range(nd):
            cur = 1
            for v in arrs:
                j = i - (nd - v.ndim)
                if j >= 0:
                    cur = self.dim_join(cur, v.shape[j])
            shape.append(cur)

        def el(*idx):
            xs = [v.at(*self.bindex(v, nd, idx)) if isinstance(v, ArrVal) else v for v in vs]
            r = self.elem(fn, xs)
            return self.conv_el(r, d) if d in 'fi' else r
        if nd == 0:
            return self.conv_el(self.elem(fn, [v.at() if isinstance(v, ArrVal) else v for v in vs]), d)
        return self.arr(shape, el, d, mask)

    def elem(self, fn, xs):
        """fn on scalars, case by case so that no path decision is taken"""
        for i, x in enumerate(xs):
            if isinstance(x, Cases):
                return self.merge([(c, self.elem(fn, xs[:i] + [y] + xs[i + 1:])) for c, y in x.alts])
        return fn(*xs)

    def same_mask(self, a, b):
        if a is b:
            return True
        if a.ndim != b.ndim:
            return False
        ix = [self.index_const('m') for _ in a.shape]
        return zbool(self.simpz(a.at(*ix))).eq(zbool(self.simpz(b.at(*ix))))

    def simpz(self, x):
        return z3.simplify(x) if is_z3(x) else x

    def np_unary(self, g, a, k):
        x = self.force(a[0])
        return self.arr_map(lambda v: g(self.num_el(v)), [x], lambda ds: 'f')

    def with_out(self, fn, nin):
        """the ufunc protocol for an output array (third-party code sees the same object filled in)"""
        def g(E, a, k):
            k = dict(k)
            out = k.pop('out', a[nin] if len(a) > nin else None)
            if isinstance(out, tuple) and len(out) == 1:
                out = out[0]
            r = fn(E, list(a[:nin]), k)
            if out is None:
                return r
            if not isinstance(out, ArrObj):
                raise Unsupported('output argument %r' % (out,))
            self.fill(out, self.to_arr(r).v)
            return out
        return g

    def fill(self, a, rv):
        """a[...] = rv for a result of an elementwise operation on a"""
        if a.v.dtype == 'i' and rv.dtype == 'f':
            raise PyRaise(ExcV(ExtV('numpy.UFuncTypeError'), ['cannot cast float to int in place']))
        sa, sr = a.v.shape, rv.shape
        if a.v.mask is None and rv.mask is None:
            if len(sa) != len(sr):
                if len(sr) > len(sa):
                    self.raise_('ValueError', 'non-broadcastable output operand')
                raise Unsupported('in-place result of fewer dimensions')
            for x, y in zip(sa, sr):
                if isinstance(x, int) and isinstance(y, int):
                    if x != y:
                        self.raise_('ValueError', 'non-broadcastable output operand')
                elif not zint(x).eq(zint(y)) and not self.decide(zint(x) == zint(y)):
                    self.raise_('ValueError', 'non-broadcastable output operand')
        self.setf(a, 'val', rv)

    def num_el(self, v):
        v = self.force(v)
        if not is_num(v):
            if is_u(v):
                raise Unsupported('arithmetic on an opaque object')
            self.raise_('TypeError', 'ufunc not supported for the input types')
        return v

    # ------------------------------------------------------------ indexing
    def norm_index(self, i, d):
        if isinstance(i, int):
            if isinstance(d, int):
                if not -d <= i < d:
                    self.raise_('IndexError', 'index out of bounds')
                return i if i >= 0 else i + d
            if i >= 0:
                if not self.decide(zint(d) > i):
                    self.raise_('IndexError', 'index out of bounds')
                return i
            if not self.decide(zint(d) >= -i):
                self.raise_('IndexError', 'index out of bounds')
            return lower(z3.simplify(zint(d) + i))
        z = zint(i)
        if self.implied(z3.And(z >= 0, z < zint(d))):
            return lower(z3.simplify(z))
        if self.decide(z >= 0):
            if not self.decide(z < zint(d)):
                self.raise_('IndexError', 'index out of bounds')
            return lower(z3.simplify(z))
        if not self.decide(z >= -zint(d)):
            self.raise_('IndexError', 'index out of bounds')
        return lower(z3.simplify(z + zint(d)))

    def slice_bounds(self, s, d):
        """(start, length, step) for a slice of a dimension of size d"""
        step = 1 if s.step is None else self.force(s.step)
        if not isinstance(step, int):
            raise Unsupported('symbolic slice step')
        d_ = zint(d)

        def clampv(x, dflt):
            if x is None:
                return dflt
            x = self.force(x)
            if isinstance(x, ArrObj):
                x = x.v.at()
            if not is_int(x):
                self.raise_('TypeError', 'slice indices must be integers')
            if isinstance(x, int) and isinstance(d, int):
                return min(max(x + d if x < 0 else x, 0), d)
            z = zint(x)
            if self.implied(z >= 0):
                if self.implied(z <= d_):
                    return lower(z3.simplify(z))
                return d if self.decide(z > d_) else lower(z3.simplify(z))
            if self.decide(z < 0):
                z = z + d_
                return 0 if self.decide(z < 0) else lower(z3.simplify(z))
            return d if self.decide(z > d_) else lower(z3.simplify(z))
        if step > 0:
            lo, hi = clampv(s.lo, 0), clampv(s.hi, d)
            if isinstance(lo, int) and isinstance(hi, int):
                n = max(0, -(-(hi - lo) // step))
            elif step == 1:
                n = lower(z3.simplify(zint(hi) - zint(lo)))
                if not isinstance(n, int):
                    if not self.decide(n >= 0):
                        n = 0
            else:
                n = lower(z3.simplify((zint(hi) - zint(lo) + step - 1) / step))
                if not isinstance(n, int) and not self.decide(n >= 0):
                    n = 0
            return lo, n, step
        if step == -1 and s.lo is None and s.hi is None:
            return lower(z3.simplify(d_ - 1)), d, -1
        raise Unsupported('slice with negative step')

    def mask_ids(self, m):
        """positions a 1-d mask of at most three entries selects, decided entry by entry"""
        if m.ndim != 1 or not isinstance(m.shape[0], int) or m.shape[0] > 3 or m.mask is not None:
            return None
        return [i for i in range(m.shape[0]) if self.truth_el_now(m.at(i))]

    def truth_el_now(self, b):
        return b if isinstance(b, bool) else self.decide(zbool(b))

    def pick_row(self, a, ids, i, r):
        if isinstance(i, int):
            return a.at(ids[i], *r)
        v = a.at(ids[-1], *r) if ids else 0
        for q in range(len(ids) - 2, -1, -1):
            v = self.vite(zint(i) == q, a.at(ids[q], *r), v)
        return v

    def arr_getitem(self, o, idx):
        a = o.v
        if not isinstance(idx, tuple):
            idx = (idx,)
        idx = [self.force(i) for i in idx]
        idx = [self.to_arr(i) if isinstance(i, (PList, Seq)) else i for i in idx]
        idx = [i.v.at() if isinstance(i, ArrObj) and i.v.ndim == 0 and i.v.mask is None else i for i in idx]
        # boolean mask over the whole array or the first axis
        if len(idx) == 1 and isinstance(idx[0], ArrObj) and idx[0].v.dtype == 'b':
            m = idx[0].v
            if a.mask is not None:
                raise Unsupported('selection of a selection')
            if m.ndim > a.ndim:
                self.raise_('IndexError', 'too many indices')
            for x, y in zip(m.shape, a.shape):
                if not self.decide(zint(x) == zint(y)):
                    self.raise_('IndexError', 'boolean index did not match')
            ids = self.mask_ids(m)
            if ids is not None:
                return self.arr((len(ids),) + tuple(a.shape[1:]), lambda i, *r: self.pick_row(a, ids, i, r), a.dtype)
            return ArrObj(ArrVal(a.shape, a.fn, a.dtype, m))
        if a.mask is not None:
            raise Unsupported('indexing a selection (line %s)' % self.line)
        if len(idx) == 1 and a.ndim == 0 and is_bool(idx[0]):
            return self.arr((1 if self.truth(idx[0]) else 0,), lambda i: a.at(), a.dtype)
        n_ax = sum(1 for i in idx if i is not None and i is not Ellipsis)
        if n_ax > a.ndim:
            self.raise_('IndexError', 'too many indices for array')
        out = []
        for i in idx:
            if i is Ellipsis:
                out += [SliceV(None, None)] * (a.ndim - n_ax)
            else:
                out.append(i)
        while sum(1 for i in out if i is not None) < a.ndim:
            out.append(SliceV(None, None))
        # per result axis description
        shape, maps = [], []       # maps: for each source axis a function of result index
        ax = 0
        fancy = [i for i in out if isinstance(i, ArrObj)]
        fshape = None
        if fancy:
            fv = [f.v for f in fancy]
            if any(f.dtype == 'b' for f in fv):
                raise Unsupported('mixed boolean indexing')
            if len(fv) > 1 and any(f.ndim != 1 for f in fv):
                # np.ix_-like combinations
                raise Unsupported('fancy indexing with several arrays')
            fshape = fv[0].shape
            for f in fv[1:]:
                if not self.decide(zint(f.shape[0]) == zint(fshape[0])):
                    self.raise_('IndexError', 'shape mismatch')
        fpos = None
        for i in out:
            if i is None:
                shape.append(1)
                continue
            d = a.shape[ax]
            if isinstance(i, SliceV):
                lo, n, st = self.slice_bounds(i, d)
                p = len(shape)
                shape.append(n)
                maps.append(lambda r, p=p, lo=lo, st=st: self.num_binop('+', lo, r[p] if st == 1 else self.num_binop('*', r[p], st)) if not (lo == 0 and st == 1 and isinstance(lo, int)) else r[p])
            elif isinstance(i, ArrObj):
                if fpos is None:
                    fpos = len(shape)
                    shape += list(fshape)
                v = i.v
                self.check_fancy(v, d)
                maps.append(lambda r, v=v, p=fpos, d=d: self.wrap_neg(v.at(*r[p:p + v.ndim]), d))
            elif is_int(i):
                j = self.norm_index(i, d)
                maps.append(lambda r, j=j: j)
            elif isinstance(i, (float,)) or is_real(i):
                self.raise_('IndexError', 'only integers, slices are valid indices')
            else:
                raise Unsupported('index %r' % (i,))
            ax += 1
        if not shape:
            return a.at(*[m(()) for m in maps])
        v = ArrVal(shape, lambda *r: a.at(*[m(r) for m in maps]), a.dtype)
        if fancy:
            return ArrObj(v)
        return ArrObj(v, o.group)

    def wrap_neg(self, i, d):
        if isinstance(i, int):
            return i if i >= 0 else self.num_binop('+', d, i)
        return i

    def check_fancy(self, v, d):
        """indices of a fancy selection lie in range"""
        if v.ndim == 1:
            n = v.shape[0]
            ok = self.all_over(n, lambda k: self.and_(f_cmp('>=', v.at(k), self.num_binop('-', 0, d)), f_cmp('<', v.at(k), d)))
            if ok is not True and not self.decide(zbool(ok)):
                self.raise_('IndexError', 'index out of bounds')

    def arr_setitem(self, o, idx, val):
        a = o.v
        val = self.force(val)
        if not isinstance(idx, tuple):
            idx = (idx,)
        idx = [self.force(i) for i in idx]
        idx = [self.to_arr(i) if isinstance(i, (PList, Seq)) else i for i in idx]
        idx = [i.v.at() if isinstance(i, ArrObj) and i.v.ndim == 0 and i.v.mask is None else i for i in idx]
        if len(idx) == 1 and isinstance(idx[0], ArrObj) and idx[0].v.dtype == 'b':
            m = idx[0].v
            if isinstance(val, (PList, tuple)):
                val = self.to_arr(val)
            if isinstance(val, ArrObj):
                vv = val.v
                if vv.mask is not None:
                    if not self.same_mask(vv.mask, m):
                        raise Unsupported('store with a different selection (line %s)' % self.line)
                    src = lambda *i: vv.at(*i)
                elif self.mask_ids(m) is not None and vv.ndim == 1 and a.ndim == 1 and isinstance(vv.shape[0], int) and vv.shape[0] in (1, len(self.mask_ids(m))):
                    ids, d = self.mask_ids(m), a.dtype

                    def put(i):
                        if isinstance(i, int):
                            return self.store_el(vv.at(ids.index(i) if vv.shape[0] > 1 else 0), d) if i in ids else a.at(i)
                        r = a.at(i)
                        for q, t in enumerate(ids):
                            r = self.vite(zint(i) == t, self.store_el(vv.at(q if vv.shape[0] > 1 else 0), d), r)
                        return r
                    self.setf(o, 'val', ArrVal(a.shape, put, d))
                    return
                elif vv.ndim == 0 or all(isinstance(q, int) and q == 1 for q in vv.shape):
                    src = lambda *i: vv.at(*([0] * vv.ndim))
                else:
                    raise Unsupported('store of an array through a mask (line %s)' % self.line)
            else:
                src = lambda *i: val
            d = a.dtype

            def fn(*i):
                return self.vite(zbool(self.simpz(m.at(*i[:m.ndim]))) if is_z3(m.at(*i[:m.ndim])) else m.at(*i[:m.ndim]), self.store_el(src(*i), d), a.at(*i))
            self.setf(o, 'val', ArrVal(a.shape, fn, d))
            return
        if a.mask is not None:
            raise Unsupported('store into a selection')
        out = []
        n_ax = sum(1 for i in idx if i is not None and i is not Ellipsis)
        if n_ax > a.ndim:
            self.raise_('IndexError', 'too many indices for array')
        for i in idx:
            if i is Ellipsis:
                out += [SliceV(None, None)] * (a.ndim - n_ax)
            else:
                out.append(i)
        while len(out) < a.ndim:
            out.append(SliceV(None, None))
        conds, rshape, rmap = [], [], []
        for ax, i in enumerate(out):
            d = a.shape[ax]
            if isinstance(i, SliceV):
                lo, n, st = self.slice_bounds(i, d)
                if st != 1:
                    raise Unsupported('strided store')
                full = isinstance(lo, int) and lo == 0 and (n is d or is_z3(n) and is_z3(d) and n.eq(d) or n == d if isinstance(n, int) and isinstance(d, int) else (is_z3(n) and is_z3(d) and n.eq(d)))
                conds.append(None if full else (ax, lo, n))
                rshape.append(n)
                rmap.append((ax, lo))
            elif is_int(i):
                j = self.norm_index(i, d)
                conds.append((ax, j, 1))
            elif isinstance(i, ArrObj) and len([q for q in out if isinstance(q, ArrObj)]) == 1 and i.v.ndim == 1 and a.ndim == 1:
                return self.fancy_store(o, i.v, val)
            else:
                raise Unsupported('store index')
        va = self.to_arr(val).v
        if va.ndim > len(rshape):
            if all(isinstance(q, int) and q == 1 for q in va.shape):
                va0 = va
                va = ArrVal((), lambda: va0.at(*([0] * va0.ndim)), va0.dtype)
            else:
                self.raise_('ValueError', 'could not broadcast input array')
        off = len(rshape) - va.ndim
        for q, s in enumerate(va.shape):
            t = rshape[off + q]
            if isinstance(s, int) and s == 1:
                continue
            if not self.decide(zint(s) == zint(t)):
                self.raise_('ValueError', 'could not broadcast input array into shape')

        def fn(*i):
            cs = []
            for c in conds:
                if c is None:
                    continue
                ax, lo, n = c
                x = zint(i[ax])
                if isinstance(n, int) and n == 1:
                    cs.append(self.simp(x == zint(lo)))
                else:
                    cs.append(self.simp(z3.And(x >= zint(lo), x < zint(lo) + zint(n))))
            c = self.and_(*cs)
            if c is False:
                return a.at(*i)
            r = []
            for q in range(va.ndim):
                ax, lo = rmap[off + q]
                s = va.shape[q]
                r.append(0 if isinstance(s, int) and s == 1 else self.num_binop('-', i[ax], lo) if not (isinstance(lo, int) and lo == 0) else i[ax])
            v = self.store_el(va.at(*r), a.dtype)
            return self.vite(c, v, a.at(*i))
        self.setf(o, 'val', ArrVal(a.shape, fn, a.dtype))

    def fancy_store(self, o, iv, val):
        a = o.v
        va = self.to_arr(val).v
        n = iv.shape[0]
        if isinstance(n, int) and n <= 16:
            for k in range(n):
                self.arr_setitem(o, iv.at(k), va.at(k) if va.ndim else va.at())
            return
        raise Unsupported('store through an index array')

    def store_el(self, x, d):
        if d == 'f':
            return self.to_float_el(x) if not is_num(x) else self.conv_el(x, 'f')
        if d == 'i':
            if isinstance(x, Cases):
                x = self.conv_el(x, 'f')
            return f_trunc(x) if not is_bool(x) else lower(zint(x))
        return x

    # ------------------------------------------------------------ attributes
    def arr_attr(self, o, name):
        a = o.v
        if name == 'shape':
            if a.mask is not None:
                if a.ndim == 1 or a.mask.ndim == a.ndim:
                    return (self.mask_count(a.mask),)
                raise Unsupported('shape of a selection')
            return tuple(a.shape)
        if name == 'ndim':
            return a.ndim
        if name == 'size':
            return self.np_size(o)
        if name == 'T':
            return self.np_transpose(o)
        if name == 'dtype':
            return DTypeV({'f': 'float64', 'i': 'int64', 'b': 'bool', 'O': 'object'}[a.dtype])
        if name == 'flat':
            return self.np_ravel(o)
        f = getattr(self, 'np_' + name, None)
        if name in ('sum', 'mean', 'min', 'max', 'argmin', 'argmax', 'any', 'all', 'ravel', 'reshape', 'transpose', 'dot', 'copy', 'std', 'var',
                    'repeat', 'round', 'prod', 'cumsum', 'clip', 'argsort', 'squeeze') and f is not None:
            return Native('ndarray.' + name, lambda E, args, k: f(o, *args, **k))
        if name == 'flatten':
            return Native('ndarray.flatten', lambda E, args, k: self.np_copy(self.np_ravel(o)))
        if name == 'astype':
            return Native('ndarray.astype', lambda E, args, k: self.astype(o, self.dtype_of(args[0] if args else k['dtype'])))
        if name == 'tolist':
            return Native('ndarray.tolist', lambda E, args, k: self.arr_tolist(o))
        if name == 'item':
            return Native('ndarray.item', lambda E, args, k: self.arr_item(o))
        if name == 'fill':
            def fill(E, args, k):
                x = self.store_el(args[0], a.dtype)
                self.setf(o, 'val', ArrVal(a.shape, lambda *i: x, a.dtype))
            return Native('ndarray.fill', fill)
        if name == '__len__':
            return Native('len', lambda E, args, k: self.length(o))
        self.raise_('AttributeError', 'ndarray has no attribute %s' % name)

    def arr_item(self, o):
        a = o.v
        for d in a.shape:
            if not self.decide(zint(d) == 1):
                self.raise_('ValueError', 'can only convert an array of size 1 to a Python scalar')
        return a.at(*([0] * a.ndim))

    def arr_tolist(self, o):
        a = o.v
        if a.mask is not None:
            raise Unsupported('list of a selection')
        if a.ndim == 0:
            return a.at()
        return PList(self.tolist_seq(a, ()))

    def tolist_seq(self, a, pre):
        ax = len(pre)
        last = ax == a.ndim - 1

        def get(i):
            if last:
                return a.at(*(pre + (i,)))
            return PList(self.tolist_seq(a, pre + (i,)))
        n = a.shape[ax]
        if isinstance(n, int) and n <= 64:
            return Seq([get(i) for i in range(n)])
        return Seq(n=n, get=get)

    def mask_count(self, m):
        for k, c in getattr(m, 'memo', {}).items():
            if k == 'count':
                return c[1]
        c = self.Int('count')
        tot = self.prod_shape(m.shape)
        self.fact(z3.And(c >= 0, c <= zint(tot)))
        if m.ndim == 1:
            ex = self.exists_over(m.shape[0], lambda k: self.truth_value(m.at(k)))
            al = self.all_over(m.shape[0], lambda k: self.truth_value(m.at(k)))
            self.fact((c > 0) == zbool(ex))
            self.fact((c == zint(m.shape[0])) == zbool(al))
        elif m.ndim == 2:
            ex = self.exists_over(tot, lambda i: self.truth_value(m.at(*self.unravel(i, m.shape))))
            self.fact((c > 0) == zbool(ex))
        m.memo['count'] = (None, c)
        return c

    def prod_shape(self, sh):
        r = 1
        for d in sh:
            r = self.num_binop('*', r, d)
        return lower(z3.simplify(r)) if is_z3(r) else r

    # ------------------------------------------------------------ numpy functions
    def np_array(self, v, dtype=None, copy=True, ndmin=0):
        a = self.to_arr(v, self.dtype_of(dtype))
        if isinstance(self.force(v), ArrObj):
            a = self.np_copy(a)
        if ndmin > a.v.ndim:
            a = self.np_atleast_2d(a) if ndmin == 2 else self.np_atleast_1d(a)
        return a

    def np_asarray(self, v, dtype=None):
        return self.to_arr(v, self.dtype_of(dtype))

    def np_result_type(self, *vs):
        ds = []
        for v in vs:
            v = self.force(v)
            ds.append(self.dtype_of(v) if isinstance(v, (ExtV, DTypeV, str)) else self.to_arr(v).v.dtype)
        return self.ext({'O': 'builtins.object', 'f': 'numpy.float64', 'i': 'numpy.int64', 'b': 'numpy.bool_'}[self.join_dtype(ds)])

    def np_asanyarray(self, v, dtype=None):
        return self.np_asarray(v, dtype)

    def np_ascontiguousarray(self, v, dtype=None):
        return self.np_asarray(v, dtype)

    def np_copy(self, a):
        a = self.to_arr(a).v
        return ArrObj(ArrVal(a.shape, a.at, a.dtype, a.mask))

    def shape_arg(self, s):
        s = self.force(s)
        if isinstance(s, (tuple, PList)):
            out = [self.dim_val(x) for x in self.items_of(s)]
        else:
            out = [self.dim_val(s)]
        return tuple(out)

    def dim_val(self, x):
        x = self.force(x)
        if isinstance(x, ArrObj):
            x = x.v.at()
        if not is_int(x):
            self.raise_('TypeError', 'an integer is required for a dimension')
        if isinstance(x, int):
            if x < 0:
                self.raise_('ValueError', 'negative dimensions are not allowed')
            return x
        if not self.decide(zint(x) >= 0):
            self.raise_('ValueError', 'negative dimensions are not allowed')
        return lower(z3.simplify(zint(x)))

    def const_arr(self, s, c, dtype, dflt='f'):
        d = self.dtype_of(dtype) or dflt
        c = {'f': lambda x: self.conv_el(x, 'f'), 'i': lambda x: x, 'b': lambda x: bool(x), 'O': lambda x: x}[d](c)
        return self.arr(self.shape_arg(s), lambda *i: c, d)

    def np_zeros(self, shape, dtype=None, order=None):
        return self.const_arr(shape, 0, dtype)

    def np_ones(self, shape, dtype=None, order=None):
        return self.const_arr(shape, 1, dtype)

    def np_empty(self, shape, dtype=None, order=None):
        d = self.dtype_of(dtype) or 'f'
        sh = self.shape_arg(shape)
        srt = {'f': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort()}.get(d)
        if srt is None:
            return self.arr(sh, lambda *i: None, 'O')
        f = z3.Function('empty!%d' % self.uid(), *([z3.IntSort()] * (len(sh) + len(self.ctx)) + [srt]))
        ctx = list(self.ctx)
        return self.arr(sh, lambda *i: f(*(ctx + [zint(x) for x in i])) if (ctx or i) else z3.Const('empty!%d' % self.uid(), srt), d)

    def np_full(self, shape, fill_value, dtype=None):
        x = self.force(fill_value)
        if isinstance(x, float) and x != x and self.dtype_of(dtype) in (None, 'f'):
            self.assumptions.add('an array filled with NaN starts with arbitrary numbers')
            return self.np_empty(shape)
        return self.const_arr(shape, x, dtype, self.infer([x]))

    def np_zeros_like(self, a, dtype=None):
        a = self.to_arr(a).v
        d = self.dtype_of(dtype) or a.dtype
        c = {'f': 0.0, 'i': 0, 'b': False, 'O': 0}[d]
        return self.arr(a.shape, lambda *i: c, d, a.mask)

    def np_ones_like(self, a, dtype=None):
        a = self.to_arr(a).v
        d = self.dtype_of(dtype) or a.dtype
        c = {'f': 1.0, 'i': 1, 'b': True, 'O': 1}[d]
        return self.arr(a.shape, lambda *i: c, d, a.mask)

    def np_binary_repr(self, n):
        n = self.force(n)
        if isinstance(n, int):
            return bin(n)[2:] if n >= 0 else '-' + bin(-n)[2:]
        if not is_int(n) or not self.decide(zint(n) >= 0):
            raise Unsupported('binary form')
        from .lib import BinStr
        return BinStr(n)

    def np_eye(self, n, dtype=None):
        n = self.dim_val(n)
        return self.arr((n, n), lambda i, j: f_ite_num(f_cmp('==', i, j), 1.0, 0.0), 'f')

    def np_arange(self, *a, dtype=None):
        a = [self.force(x) for x in a]
        lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
        if isinstance(lo, int) and isinstance(hi, int) and isinstance(st, int):
            xs = list(range(lo, hi, st))
            return self.seq_arr(Seq(xs)) if xs else self.arr((0,), lambda i: 0, 'i')
        if st == 1 and is_int(lo) and is_int(hi):
            n = z3.simplify(zint(hi) - zint(lo))
            if not self.decide(n >= 0):
                return self.arr((0,), lambda i: 0, 'i')
            return self.arr((lower(n),), lambda i: self.num_binop('+', lo, i), 'i')
        raise Unsupported('arange')

    def np_linspace(self, lo, hi, n=50, **kw):
        n = self.dim_val(n if 'num' not in kw else kw['num'])
        if self.dtype_of(kw.get('dtype')) == 'i':
            kw.pop('dtype')
            a = self.np_floor(self.np_linspace(lo, hi, n)).v
            return self.arr(a.shape, lambda i: self.store_el(a.at(i), 'i'), 'i')
        if set(kw) - {'num', 'dtype'} and not (set(kw) == {'endpoint'} and self.force(kw['endpoint']) is True):
            raise Unsupported('linspace(%s)' % ', '.join(kw))
        lo, hi = self.force(lo), self.force(hi)
        if isinstance(n, int) and n == 1:
            return self.arr((1,), lambda i: self.conv_el(lo, 'f'), 'f')
        one = self.simp(zint(n) == 1) if not isinstance(n, int) else False

        def el(i):
            step = self.num_binop('/', self.num_binop('-', hi, lo), self.num_binop('-', n, 1))
            v = self.num_binop('+', lo, self.num_binop('*', zreal(i), step))
            # the last point is exactly hi, the first exactly lo
            v = self.vite(f_cmp('==', i, self.num_binop('-', n, 1)), zreal(hi), zreal(v))
            return self.vite(f_cmp('==', i, 0), zreal(lo), v)
        return self.arr((n,), el, 'f')

    def np_logspace(self, lo, hi, n=50, base=10.0):
        l = self.np_linspace(lo, hi, n)
        return self.binop('**', base, l)

    def np_size(self, a, axis=None):
        a = self.to_arr(a).v
        if axis is not None:
            if a.mask is not None:
                raise Unsupported('size of a selection')
            return a.shape[self.force(axis)]
        if a.mask is not None:
            return self.mask_count(a.mask)
        return self.prod_shape(a.shape)

    def np_ndim(self, a):
        return self.to_arr(a).v.ndim

    def np_shape(self, a):
        return self.arr_attr(self.to_arr(a), 'shape')

    def np_iterable(self, a):
        a = self.force(a)
        if isinstance(a, (PList, tuple, PSet, PDict, str, RangeV)):
            return True
        if isinstance(a, ArrObj):
            return a.v.ndim > 0
        if isinstance(a, Inst):
            return self.class_lookup(a.cls, '__iter__') is not None
        if is_u(a):
            h = getattr(self, 'u_iterable', None)
            if h is not None:
                return h(self, a)
            raise Unsupported('np.iterable of an opaque object')
        if isinstance(a, NatObj):
            return hasattr(a, 'py_seq')
        return False

    def np_isscalar(self, a):
        a = self.force(a)
        if is_num(a) or isinstance(a, str):
            return True
        return False

    def np_transpose(self, a, axes=None):
        o = self.to_arr(a)
        v = o.v
        if axes is not None:
            ax = [self.force(x) for x in self.items_of(axes)]
            return ArrObj(ArrVal([v.shape[x] for x in ax], lambda *i: v.at(*[i[ax.index(q)] for q in range(v.ndim)]), v.dtype), o.group)
        return ArrObj(ArrVal(v.shape[::-1], lambda *i: v.at(*i[::-1]), v.dtype), o.group)

    def np_expand_dims(self, a, axis):
        o = self.to_arr(a)
        v = o.v
        ax = axis if axis >= 0 else axis + v.ndim + 1
        return ArrObj(ArrVal(v.shape[:ax] + (1,) + v.shape[ax:], lambda *i: v.at(*(i[:ax] + i[ax + 1:])), v.dtype, v.mask), o.group)

    def np_atleast_1d(self, a):
        o = self.to_arr(a)
        v = o.v
        return self.arr((1,), lambda i: v.at(), v.dtype) if v.ndim == 0 else o

    def np_atleast_2d(self, a):
        o = self.to_arr(a)
        v = o.v
        if v.ndim == 0:
            return self.arr((1, 1), lambda i, j: v.at(), v.dtype)
        if v.ndim == 1:
            return ArrObj(ArrVal((1,) + v.shape, lambda i, j: v.at(j), v.dtype), o.group)
        return o

    def np_ravel(self, a):
        o = self.to_arr(a)
        v = o.v
        if v.ndim == 1:
            return ArrObj(ArrVal(v.shape, v.at, v.dtype, v.mask), o.group)
        if v.mask is not None:
            raise Unsupported('ravel of a selection')
        if v.ndim == 0:
            return self.arr((1,), lambda i: v.at(), v.dtype)
        n = self.prod_shape(v.shape)
        # axes of length one drop out
        big = [i for i, d in enumerate(v.shape) if not (isinstance(d, int) and d == 1)]
        if len(big) <= 1:
            def fn(i):
                idx = [0] * v.ndim
                if big:
                    idx[big[0]] = i
                return v.at(*idx)
            return ArrObj(ArrVal((n,), fn, v.dtype), o.group)
        return ArrObj(ArrVal((n,), lambda i: v.at(*self.unravel(i, v.shape)), v.dtype), o.group)

    def unravel(self, i, shape):
        idx = []
        for d in reversed(shape[1:]):
            if isinstance(d, int) and isinstance(i, int):
                idx.append(i % d)
                i = i // d
            else:
                idx.append(lower(z3.simplify(zint(i) % zint(d))))
                i = lower(z3.simplify(zint(i) / zint(d)))
        idx.append(i)
        return idx[::-1]

    def np_reshape(self, a, *shape, **kw):
        if 'newshape' in kw:
            shape = (kw.pop('newshape'),)
        if kw.pop('order', 'C') != 'C' or kw:
            raise Unsupported('reshape in another order')
        o = self.to_arr(a)
        v = o.v
        if len(shape) == 1 and isinstance(self.force(shape[0]), (tuple, PList)):
            shape = self.items_of(shape[0])
        shape = [self.force(x) for x in shape]
        if v.mask is not None:
            raise Unsupported('reshape of a selection')
        if len(shape) == 2 and isinstance(shape[0], int) and shape[0] == -1 and v.tag is not None and v.tag[0] == 'tile' and self.dim_same(v.tag[1].shape[1], shape[1]):
            # every row repeated: row r of the result is row r // times of the original (row-major order)
            w, m = v.tag[1], v.tag[2]
            if not self.decide(self.and_(zint(w.shape[1]) > 0, zint(m) > 0)):
                raise Unsupported('degenerate shape')
            return self.arr((self.num_binop('*', w.shape[0], m), w.shape[1]), lambda r, c: w.at(lower(z3.simplify(zint(r) / zint(m))), c), v.dtype)
        tot = self.prod_shape(v.shape)
        unk = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1]
        if unk:
            p = 1
            for i, s in enumerate(shape):
                if i not in unk:
                    p = self.num_binop('*', p, s)
            if isinstance(p, int) and isinstance(tot, int):
                if p == 0 or tot % p:
                    self.raise_('ValueError', 'cannot reshape array')
                shape[unk[0]] = tot // p
            elif isinstance(p, int) and p == 1:
                shape[unk[0]] = tot
            else:
                # one of the source dims times the rest
                cand = [d for d in v.shape if is_z3(d) and is_z3(p) and self.implied(zint(d) == zint(p))]
                if cand:
                    r = 1
                    used = False
                    for d in v.shape:
                        if not used and d is cand[0]:
                            used = True
                            continue
                        r = self.num_binop('*', r, d)
                    shape[unk[0]] = r
                    self.need(zint(p) != 0)
                elif self.decide(zint(p) != 0):
                    q = zint(tot) / zint(p)
                    if not self.decide(q * zint(p) == zint(tot)):
                        self.raise_('ValueError', 'cannot reshape array')
                    shape[unk[0]] = lower(z3.simplify(q))
                else:
                    self.raise_('ValueError', 'cannot reshape array')
        else:
            p = self.prod_shape(shape)
            if not self.decide(self.simp(zint(p) == zint(tot))):
                self.raise_('ValueError', 'cannot reshape array of size into shape')
        shape = tuple(shape)
        flat = self.np_ravel(o).v
        big = [i for i, d in enumerate(shape) if not (isinstance(d, int) and d == 1)]

        def fn(*i):
            if len(big) <= 1:
                return flat.at(i[big[0]] if big else 0)
            # same non-unit dims: direct
            b0 = [j for j, d in enumerate(v.shape) if not (isinstance(d, int) and d == 1)]
            if len(b0) == len(big) and all(self.dim_same(v.shape[x], shape[y]) for x, y in zip(b0, big)):
                idx = [0] * v.ndim
                for x, y in zip(b0, big):
                    idx[x] = i[y]
                return v.at(*idx)
            off = 0
            for j, d in zip(i, shape):
                off = self.num_binop('+', self.num_binop('*', off, d), j)
            return flat.at(off if not is_z3(off) else lower(z3.simplify(off)))
        return ArrObj(ArrVal(shape, fn, v.dtype), o.group)

    def dim_same(self, a, b):
        if isinstance(a, int) or isinstance(b, int):
            return isinstance(a, int) and isinstance(b, int) and a == b
        return a.eq(b)

    def need(self, f):
        if not self.decide(f):
            raise Unsupported('degenerate shape')

    def np_squeeze(self, a, axis=None):
        o = self.to_arr(a)
        v = o.v
        keep = [i for i, d in enumerate(v.shape) if not (isinstance(d, int) and d == 1)]
        if any(is_z3(v.shape[i]) for i in keep):
            for i in list(keep):
                if is_z3(v.shape[i]) and self.decide(zint(v.shape[i]) == 1):
                    keep.remove(i)

        def fn(*i):
            idx = [0] * v.ndim
            for j, x in zip(keep, i):
                idx[j] = x
            return v.at(*idx)
        return ArrObj(ArrVal([v.shape[i] for i in keep], fn, v.dtype), o.group)

    def np_concatenate(self, seq, axis=0):
        arrs = [self.to_arr(x).v for x in self.items_of(seq)]
        if not arrs:
            self.raise_('ValueError', 'need at least one array to concatenate')
        axis = self.force(axis)
        nd = arrs[0].ndim
        if any(a.ndim != nd for a in arrs) or nd == 0:
            self.raise_('ValueError', 'all the input array dimensions must match')
        if axis < 0:
            axis += nd
        for a in arrs[1:]:
            for d in range(nd):
                if d != axis and not self.decide(self.simp(zint(a.shape[d]) == zint(arrs[0].shape[d]))):
                    self.raise_('ValueError', 'all the input array dimensions except for the concatenation axis must match exactly')
        d = self.join_dtype([a.dtype for a in arrs])
        offs = [0]
        for a in arrs:
            offs.append(self.num_binop('+', offs[-1], a.shape[axis]))
        tot = offs[-1]
        tot = lower(z3.simplify(tot)) if is_z3(tot) else tot

        def fn(*i):
            x = i[axis]
            v = None
            for a, o in reversed(list(zip(arrs, offs))):
                idx = list(i)
                idx[axis] = lower(z3.simplify(zint(x) - zint(o)))
                if isinstance(idx[axis], int) and isinstance(a.shape[axis], int) and not 0 <= idx[axis] < a.shape[axis]:
                    continue
                e = self.conv_el(a.at(*idx), d)
                if v is None:
                    v = e
                else:
                    v = self.vite(f_cmp('<', x, self.num_binop('+', o, a.shape[axis])), e, v)
            return v
        sh = list(arrs[0].shape)
        sh[axis] = tot
        return self.arr(sh, fn, d)

    def np_vstack(self, seq):
        return self.np_concatenate(PList([self.np_atleast_2d(x) for x in self.items_of(seq)]), 0)

    def np_hstack(self, seq):
        s = self.to_seq(seq)
        if not s.concrete:
            return self.hstack_sym(s)
        xs = [self.np_atleast_1d(x) for x in s.items]
        return self.np_concatenate(PList(xs), 0 if xs[0].v.ndim == 1 else 1)

    def hstack_sym(self, s):
        """columns of a symbolic number of blocks: prefix sums of the widths"""
        n = zint(s.n)
        k = self.index_const()
        rng = z3.And(k >= 0, k < n)
        rs = self.generic_paths(lambda: self.to_arr(self.seq_at(s, k)).v, [(k, rng)])
        vs = [(self.conj(r.conds), r.out[1]) for r in rs]
        if any(r.out[0] != 'ok' or r.writes for r in rs):
            raise Unsupported('hstack')
        sh = [v.shape for _, v in vs]
        if any(len(x) != 2 for x in sh):
            raise Unsupported('hstack of a symbolic number of 1-d arrays')
        rows = self.merge([(c, x[0]) for (c, _), x in zip(vs, sh)])
        width = zint(self.merge([(c, x[1]) for (c, _), x in zip(vs, sh)]))
        if is_z3(rows) and self.has_term(rows, k):
            r0 = lower(z3.simplify(z3.substitute(rows, (k, z3.IntVal(0)))))
            if not self.implied_forall(n, k, zint(rows) == zint(r0)):
                raise Unsupported('hstack of blocks with different numbers of rows')
            rows = r0
        off, blk = self.offsets(k, width, n)
        d = self.join_dtype([v.dtype for _, v in vs])
        a, b = self.index_const('r'), self.index_const('c')
        el = self.merge([(c, self.conv_el(v.at(a, b), d)) for c, v in vs])

        def fn(i, j):
            t = blk(zint(j))
            return self.vsubst(el, [(k, t), (a, zint(i)), (b, z3.simplify(zint(j) - off(t)))])
        o = self.arr((rows, off(n)), fn, d)
        o.v.tag = ('hstack', off, blk)
        return o

    def np_tile(self, a, reps):
        v = self.to_arr(a).v
        r = self.shape_arg(reps)
        nd = max(v.ndim, len(r))
        sh = (1,) * (nd - v.ndim) + v.shape
        r = (1,) * (nd - len(r)) + r
        out = [self.num_binop('*', x, y) for x, y in zip(sh, r)]

        def fn(*i):
            idx = []
            for q in range(nd - v.ndim, nd):
                d = sh[q]
                if isinstance(d, int) and d == 1:
                    idx.append(0)
                elif isinstance(r[q], int) and r[q] == 1:
                    idx.append(i[q])
                else:
                    idx.append(lower(z3.simplify(zint(i[q]) % zint(d))))
            return v.at(*idx)
        o = self.arr(out, fn, v.dtype)
        if nd == v.ndim == 2 and isinstance(r[0], int) and r[0] == 1:
            o.v.tag = ('tile', v, r[1])
        return o

    def np_repeat(self, a, n, axis=None):
        v = self.to_arr(a).v
        n = self.force(n)
        if axis is None:
            v = self.np_ravel(a).v
            axis = 0
        out = list(v.shape)
        out[axis] = self.num_binop('*', out[axis], n)

        def fn(*i):
            idx = list(i)
            idx[axis] = 0 if isinstance(v.shape[axis], int) and v.shape[axis] == 1 else self.num_binop('//', i[axis], n)
            return v.at(*idx)
        return self.arr(out, fn, v.dtype)

    # elementwise
    def np_round(self, a, decimals=0):
        if decimals != 0:
            raise Unsupported('rounding to decimals')
        return self.arr_map(lambda x: self.rnd(x), [a], lambda ds: ds[0])

    np_rint = np_round
    np_around = np_round

    def rnd(self, x):
        x = self.num_el(x)
        if is_int(x):
            return x
        r = f_round(x)
        return float(r) if isinstance(r, int) else z3.ToReal(r)

    def np_floor(self, a):
        return self.arr_map(lambda x: zreal(f_floor(self.num_el(x))) if is_z3(f_floor(self.num_el(x))) else float(f_floor(x)), [a], lambda ds: 'f')

    def np_ceil(self, a):
        def c(x):
            x = self.num_el(x)
            r = f_floor(self.num_binop('*', -1, x))
            return float(-r) if isinstance(r, int) else -z3.ToReal(zint(r))
        return self.arr_map(c, [a], lambda ds: 'f')

    def np_abs(self, a):
        return self.arr_map(lambda x: f_abs(self.num_el(x)), [a], lambda ds: ds[0])

    np_absolute = np_abs
    np_fabs = np_abs

    def np_sign(self, a):
        return self.arr_map(lambda x: f_ite_num(f_cmp('>', x, 0), 1.0, f_ite_num(f_cmp('<', x, 0), -1.0, 0.0)), [a], lambda ds: ds[0])

    def np_reciprocal(self, a):
        return self.arr_map(lambda x: self.num_binop('/', 1.0, x), [a], lambda ds: 'f')

    def np_square(self, a):
        return self.arr_map(lambda x: self.num_binop('*', x, x), [a], lambda ds: ds[0])

    def np_log2(self, a):
        return self.arr_map(lambda x: self.num_binop('/', f_log10(x), f_log10(2)), [a], lambda ds: 'f')

    def np_tanh(self, a):
        def t(x):
            e = f_exp(self.num_binop('*', 2, x))
            return self.num_binop('/', self.num_binop('-', e, 1), self.num_binop('+', e, 1))
        return self.arr_map(t, [a], lambda ds: 'f')

    def np_clip(self, a, a_min, a_max, out=None):
        return self.arr_map(lambda x, lo, hi: f_min(f_max(x, lo), hi) if lo is not None and hi is not None else f_max(x, lo) if hi is None else f_min(x, hi),
                            [a, a_min, a_max], lambda ds: self.join_dtype(ds))

    def np_maximum(self, a, b):
        return self.arr_map(f_max, [a, b], lambda ds: self.join_dtype(ds))

    def np_minimum(self, a, b):
        return self.arr_map(f_min, [a, b], lambda ds: self.join_dtype(ds))

    def np_isfinite(self, a):
        return self.arr_map(lambda x: not isinf(x) and not (isinstance(x, float) and x != x), [a], lambda ds: 'b')

    def np_isnan(self, a):
        return self.arr_map(lambda x: isinstance(x, float) and x != x, [a], lambda ds: 'b')

    def np_isinf(self, a):
        return self.arr_map(lambda x: isinf(x), [a], lambda ds: 'b')

    def np_isclose(self, a, b, rtol=1e-05, atol=1e-08):
        def c(x, y):
            if isinf(x) or isinf(y):
                return self.eq(x, y)
            return f_cmp('<=', f_abs(self.num_binop('-', x, y)), self.num_binop('+', atol, self.num_binop('*', rtol, f_abs(y))))
        return self.arr_map(c, [a, b], lambda ds: 'b')

    def np_allclose(self, a, b, rtol=1e-05, atol=1e-08):
        return self.np_all(self.np_isclose(a, b, rtol, atol))

    def np_array_equal(self, a, b):
        x, y = self.to_arr(a), self.to_arr(b)
        if x.v.ndim != y.v.ndim:
            return False
        for d, e in zip(x.v.shape, y.v.shape):
            if not self.decide(self.simp(zint(d) == zint(e))):
                return False
        return self.np_all(self.cmp('==', x, y))

    def np_where(self, c, a=None, b=None):
        if a is None:
            raise Unsupported('np.where with one argument')
        return self.arr_map(lambda x, y, z: self.vite(self.truth_value(x), y, z), [c, a, b], lambda ds: self.join_dtype(ds[1:]))

    def np_nextafter(self, a, b):
        def na(x, y):
            t = self.Real('nextafter')
            self.assumptions.add('floats are mathematical reals: nextafter(x, y) is x moved towards y by an arbitrary positive amount below 1e-15*(1+|x|), or x if equal')
            self.fact(z3.Implies(zreal(x) < zreal(y) if not isinf(y) else z3.BoolVal(y > 0), z3.And(t > zreal(x), t < zreal(x) + zreal(1e-15) * (1 + zreal(f_abs(x))))))
            self.fact(z3.Implies(zreal(x) > zreal(y) if not isinf(y) else z3.BoolVal(y < 0), z3.And(t < zreal(x), t > zreal(x) - zreal(1e-15) * (1 + zreal(f_abs(x))))))
            if not isinf(y):
                self.fact(z3.Implies(zreal(x) == zreal(y), t == zreal(x)))
            return t
        return self.arr_map(na, [a, b], lambda ds: 'f')

    # reductions
    def reduce(self, a, axis, fn, dtype):
        """fn(n, el) -> scalar"""
        o = self.to_arr(a)
        v = o.v
        if axis is not None:
            axis = self.force(axis)
        if axis is None or v.ndim == 1:
            if v.mask is not None and v.ndim == 1:
                m = v.mask
                return fn(v.shape[0], lambda i: v.at(i), lambda i: self.truth_value(m.at(i)))
            if v.mask is not None:
                if v.mask.ndim != v.ndim:
                    raise Unsupported('reduction of a 2-d selection')
                m = v.mask
                return fn(self.prod_shape(v.shape), lambda i: v.at(*self.unravel(i, v.shape)), lambda i: self.truth_value(m.at(*self.unravel(i, v.shape))))
            f = self.np_ravel(o).v if v.ndim != 1 else v
            big = [i for i, d in enumerate(v.shape) if not (isinstance(d, int) and d == 1)]
            if len(big) > 1:
                return self.reduce_nd(v, fn)
            return fn(f.shape[0], lambda i: f.at(i), None)
        if v.mask is not None:
            raise Unsupported('axis reduction of a selection')
        if axis < 0:
            axis += v.ndim
        sh = v.shape[:axis] + v.shape[axis + 1:]
        return self.generic_array(sh, lambda *i: fn(v.shape[axis], lambda j: v.at(*(i[:axis] + (j,) + i[axis:])), None), dtype if isinstance(dtype, str) else dtype(v.dtype))

    def reduce_nd(self, v, fn):
        if all(isinstance(d, int) for d in v.shape):
            n = self.prod_shape(v.shape)
            return fn(n, lambda i: v.at(*self.unravel(i, v.shape)), None)
        n = self.prod_shape(v.shape)
        return fn(n, lambda i: v.at(*self.unravel(i, v.shape)), None)

    def generic_array(self, sh, fn, dtype):
        """array whose cell is fn(idx); cells with effects on the path (fresh symbols) are
        evaluated once for generic indices"""
        if all(isinstance(d, int) for d in sh) and self.prod_shape(sh) <= 16:
            import itertools
            cells = {i: fn(*i) for i in itertools.product(*[range(d) for d in sh])}

            def at(*i):
                if all(isinstance(x, int) for x in i):
                    return cells[i]
                keys = list(cells)
                v = cells[keys[-1]]
                for key in reversed(keys[:-1]):
                    v = self.vite(self.and_(*[f_cmp('==', x, y) for x, y in zip(i, key)]), cells[key], v)
                return v
            return self.arr(sh, at, dtype) if sh else cells[()]
        ks = [self.index_const('g') for _ in sh]
        rngs = [(k, z3.And(k >= 0, k < zint(d))) for k, d in zip(ks, sh)]
        if not self.feasible(z3.And(*[r for _, r in rngs])):
            return self.arr(sh, lambda *i: 0.0 if dtype == 'f' else 0, dtype)
        v = self.generic_value(lambda: self.conv_el(fn(*ks), dtype), rngs)
        return self.arr(sh, lambda *i: self.vsubst(v, [(k, zint(x)) for k, x in zip(ks, i)]), dtype)

    def sum_of(self, n, el, sel=None):
        if isinstance(n, int) and n <= 12:
            r = 0.0
            allint = True
            for i in range(n):
                x = self.num_sum_el(el(i))
                if sel is not None:
                    x = f_ite_num(self.truth_value(sel(i)), x, 0.0 if not is_int(x) else 0)
                if is_bool(x):
                    x = lower(zint(x))
                r = x if i == 0 else self.num_binop('+', r, x)
            return r
        k = self.index_const()
        rng = z3.And(k >= 0, k < zint(n))
        if not self.feasible(rng):
            return 0.0

        def body():
            x = self.num_sum_el(el(k))
            if sel is not None:
                x = f_ite_num(self.truth_value(sel(k)), x, 0.0)
            return lower(zint(x)) if is_bool(x) else x
        b = self.generic_value(body, [(k, rng)])
        isint = is_int(b)
        t = self.sum_term(n, k, zreal(b))
        if isint:
            i = None
            try:
                if self.implied_generic(zint(b) >= 0, k, zint(n)):
                    i = zint(self.offsets(k, zint(b), zint(n))[0](n))
            except Unsupported:
                i = None
            if i is None:
                i = self.Int('isum')
            self.fact(z3.ToReal(i) == t)
            if i.num_args():
                dec, cs, last = i.decl(), list(i.children())[:-1], i.children()[-1]
                self.count_sums[dec.name()] = (cs, last, t)
            return i
        return t

    def counts_as_sums(self, t):
        """counts (integer sums) written as the real sums they are"""
        sub = []
        for u in solve.subterms([t]):
            if z3.is_app(u) and u.decl().name() in self.count_sums:
                cs, last, s = self.count_sums[u.decl().name()]
                if u.children()[-1].eq(last):
                    sub.append((z3.ToReal(u), z3.substitute(s, *zip(cs, u.children()[:-1])) if cs else s))
        return z3.substitute(t, *sub) if sub else t

    def num_sum_el(self, x):
        if isinstance(x, Cases):
            x = self.conv_el(x, 'f')
        if is_num(x):
            return x
        raise Unsupported('sum of non-numbers')

    def np_sum(self, a, axis=None, dtype=None, keepdims=False):
        if self.dtype_of(dtype) == 'f' if dtype is not None else False:
            a = self.astype(self.to_arr(a), 'f')
        r = self.reduce(a, axis, lambda n, el, sel: self.sum_of(n, el, sel), lambda d: 'i' if d in 'bi' else d)
        if keepdims and axis is not None:
            return self.np_expand_dims(r, axis)
        return r

    def np_nansum(self, a, axis=None):
        return self.np_sum(a, axis)

    def np_mean(self, a, axis=None):
        def m(n, el, sel):
            s = self.sum_of(n, el, sel)
            if sel is not None:
                raise Unsupported('mean of a selection')
            return self.div_total(s, n)
        return self.reduce(a, axis, m, 'f')

    def div_total(self, a, b):
        if const_frac(b) == 0:
            return float('nan')
        return self.num_binop('/', a, b)

    def np_var(self, a, axis=None, ddof=0):
        def m(n, el, sel):
            mu = self.div_total(self.sum_of(n, el, sel), n)
            return self.div_total(self.sum_of(n, lambda i: self.num_binop('**', self.num_binop('-', el(i), mu), 2), sel), self.num_binop('-', n, ddof))
        return self.reduce(a, axis, m, 'f')

    def np_std(self, a, axis=None, ddof=0):
        v = self.np_var(a, axis, ddof)
        return self.arr_map(f_sqrt, [v], lambda ds: 'f') if isinstance(v, ArrObj) else f_sqrt(v)

    def np_prod(self, a, axis=None):
        def p(n, el, sel):
            if not isinstance(n, int) or n > 12 or sel is not None:
                f = getattr(self, 'u_prod', None)
                if f and sel is None:
                    return f(self, n, el)
                raise Unsupported('product of symbolic length')
            r = 1
            for i in range(n):
                r = self.num_binop('*', r, el(i))
            return r
        return self.reduce(a, axis, p, lambda d: d)

    def ext_of(self, n, el, sel, sign, arg):
        z = zint(n)
        if isinstance(n, int) and n == 0 or not self.decide(z > 0):
            self.raise_('ValueError', 'zero-size array to reduction operation has no identity')
        if sel is not None:
            ex = self.exists_over(n, sel)
            if not self.decide(zbool(ex)):
                self.raise_('ValueError', 'zero-size array to reduction operation has no identity')
        if isinstance(n, int) and n <= 6 and sel is None:
            best, bi = el(0), 0
            for i in range(1, n):
                c = f_cmp('<' if sign == 'min' else '>', el(i), best)
                best, bi = f_ite_num(c, el(i), best) if not isinstance(best, Cases) else self.vite(c, el(i), best), f_ite_num(c, i, bi)
            return bi if arg else best
        w = self.Int('arg' + sign)
        v = el(w)
        if not is_num(v):
            raise Unsupported('%s of non-numbers' % sign)
        real = is_real(v)
        vz = zreal(v) if real else zint(v)
        q = self.index_const('q')
        vq = el(q)
        vqz = zreal(vq) if real else zint(vq)
        rng = z3.And(q >= 0, q < z)
        if sel is not None:
            rng = z3.And(rng, zbool(sel(q)))
            self.fact(zbool(sel(w)))
        self.fact(z3.And(w >= 0, w < z))
        cmp_ = (lambda a, b: a <= b) if sign == 'min' else (lambda a, b: a >= b)
        self.fact(z3.ForAll([q], z3.Implies(rng, cmp_(vz, vqz))))
        self.fact(z3.ForAll([q], z3.Implies(z3.And(rng, q < w), vz != vqz)))
        return w if arg else v

    def np_min(self, a, axis=None):
        return self.reduce(a, axis, lambda n, el, sel: self.ext_of(n, el, sel, 'min', False), lambda d: d)

    def np_max(self, a, axis=None):
        return self.reduce(a, axis, lambda n, el, sel: self.ext_of(n, el, sel, 'max', False), lambda d: d)

    np_amin = np_min
    np_amax = np_max

    def np_argmin(self, a, axis=None):
        return self.reduce(a, axis, lambda n, el, sel: self.ext_of(n, el, None if sel is None else self.bad_sel(), 'min', True), 'i')

    def np_argmax(self, a, axis=None):
        return self.reduce(a, axis, lambda n, el, sel: self.ext_of(n, el, None if sel is None else self.bad_sel(), 'max', True), 'i')

    def bad_sel(self):
        raise Unsupported('argmin of a selection')

    def np_isin(self, a, b):
        x, y = self.to_arr(a).v, self.to_arr(b).v
        if x.mask is not None or y.mask is not None:
            raise Unsupported('isin of a masked array')
        if y.ndim == 0:
            return self.arr(x.shape, lambda *ix: self.eq(x.at(*ix), y.at()), 'b')
        if y.ndim != 1:
            raise Unsupported('isin of a table')
        return self.arr(x.shape, lambda *ix: self.exists_over(y.shape[0], lambda k: self.eq(x.at(*ix), y.at(k))), 'b')

    def np_in1d(self, a, b):
        x = self.to_arr(a)
        if x.v.ndim != 1:
            raise Unsupported('in1d of a table')
        return self.np_isin(x, b)

    def np_all(self, a, axis=None):
        a = self.force(a)
        if is_bool(a):
            return a

        def f(n, el, sel):
            if sel is None:
                return self.all_over(n, lambda i: self.truth_el(el(i)))
            return self.all_over(n, lambda i: self.or_(self.not_(sel(i)), self.truth_el(el(i))))
        return self.reduce(a, axis, f, 'b')

    def np_any(self, a, axis=None):
        a = self.force(a)
        if is_bool(a):
            return a

        def f(n, el, sel):
            if sel is None:
                return self.exists_over(n, lambda i: self.truth_el(el(i)))
            return self.exists_over(n, lambda i: self.and_(sel(i), self.truth_el(el(i))))
        return self.reduce(a, axis, f, 'b')

    def np_count_nonzero(self, a):
        return self.np_sum(self.astype(self.to_arr(a), 'b'))

    def np_diff(self, a):
        v = self.to_arr(a).v
        return self.arr((lower(z3.simplify(zint(v.shape[0]) - 1)),), lambda i: self.num_binop('-', v.at(self.num_binop('+', i, 1)), v.at(i)), v.dtype)

    def np_cumsum(self, a):
        v = self.to_arr(a).v
        n = v.shape[0]
        if isinstance(n, int):
            r, out = 0, []
            for i in range(n):
                r = self.num_binop('+', r, v.at(i)) if i else v.at(0)
                out.append(r)
            return self.seq_arr(Seq(out))
        if v.ndim != 1:
            raise Unsupported('cumsum')
        if v.dtype == 'i':
            k = self.index_const()
            d = zint(v.at(k))
            if self.implied_generic(d >= 0, k, zint(n)):
                if self.implied(z3.And(zint(n) >= 1, zint(v.at(0)) == 0)):
                    m = z3.simplify(zint(n) - 1)
                    d = self.prune_ite(z3.simplify(zint(v.at(k + 1))), k, m)
                    off, _ = self.offsets(k, d, m)
                    return self.arr((n,), lambda i: lower(z3.simplify(off(i))), 'i')
                off, _ = self.offsets(k, d, zint(n))
                return self.arr((n,), lambda i: lower(z3.simplify(off(z3.simplify(zint(i) + 1)))), 'i')

        def fn(i):
            k = self.index_const()
            return self.sum_term(self.num_binop('+', i, 1), k, zreal(v.at(k)))
        return self.arr((n,), fn, 'f')

    def prune_ite(self, t, k, n):
        """t with the conditions decided by 0 <= k < n resolved"""
        while True:
            for x in solve.subterms([t]):
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                    if self.implied_generic(x.arg(0), k, n):
                        new = x.arg(1)
                    elif self.implied_generic(z3.Not(x.arg(0)), k, n):
                        new = x.arg(2)
                    else:
                        continue
                    t = z3.simplify(z3.substitute(t, (x, new)))
                    break
            else:
                return t

    def np_dot(self, a, b):
        return self.matmul(a, b)

    def np_inner(self, a, b):
        y = self.to_arr(b)
        return self.matmul(a, self.np_transpose(y) if y.v.ndim == 2 else y)

    def matmul(self, a, b):
        x, y = self.to_arr(a).v, self.to_arr(b).v
        if x.ndim == 0 or y.ndim == 0:
            return self.binop('*', a, b)
        n, m = x.shape[-1], y.shape[0] if y.ndim == 1 else y.shape[-2]
        if not self.decide(self.simp(zint(n) == zint(m))):
            self.raise_('ValueError', 'shapes not aligned')
        pre = x.shape[:-1]
        post = y.shape[1:] if y.ndim > 1 else ()
        if x.ndim > 2 or y.ndim > 2:
            raise Unsupported('matmul of more than two dimensions')

        def cell(*i):
            l, r = i[:len(pre)], i[len(pre):]
            return self.sum_of(n, lambda k: self.num_binop('*', x.at(*(l + (k,))), y.at(*((k,) + r))))
        d = self.join_dtype([x.dtype, y.dtype])
        if not pre and not post:
            return cell()
        if isinstance(n, int) and n <= 12:
            return self.arr(pre + post, cell, d)
        return self.generic_array(pre + post, cell, d)

    def np_einsum(self, spec, *ops):
        ins, _, out = spec.partition('->')
        ins = ins.split(',')
        vs = [self.to_arr(o).v for o in ops]
        dims = {}
        for t, v in zip(ins, vs):
            for c, d in zip(t, v.shape):
                if c in dims:
                    if not self.decide(self.simp(zint(dims[c]) == zint(d))):
                        self.raise_('ValueError', 'einsum dimension mismatch')
                else:
                    dims[c] = d
        summed = [c for c in dims if c not in out]

        def cell(*i):
            ix = dict(zip(out, i))

            def go(rest):
                if not rest:
                    r = 1.0
                    for t, v in zip(ins, vs):
                        r = self.num_binop('*', r, v.at(*[ix[c] for c in t]))
                    return r

                def el(k):
                    ix[rest[0]] = k
                    return go(rest[1:])
                return self.sum_of(dims[rest[0]], el)
            return go(summed)
        sh = tuple(dims[c] for c in out)
        return self.generic_array(sh, cell, 'f') if sh else cell()

    def np_argsort(self, a, axis=-1, onto=False):
        v = self.to_arr(a).v
        if v.ndim != 1:
            raise Unsupported('argsort')
        n = v.shape[0]
        pr = z3.Int('sortprobe#')
        try:
            probe = zreal(v.at(pr))
            # the order depends on the content only: the same outside and inside of loops the content does not mention
            ctx = [c for c in self.ctx if self.has_term(probe, c) or self.has_term(zint(n), c)]
            key = ('argsort', onto, zint(n).sexpr(), probe.sexpr(), tuple(c.get_id() for c in ctx))
        except Exception:
            key, ctx = None, list(self.ctx)
        if key is not None and key in self.sums:
            p, fs = self.sums[key]
            for f in fs:
                self.fact(f)
            return self.arr((n,), lambda i: p(i), 'i')
        P = z3.Function('argsort!%d' % self.uid(), *([z3.IntSort()] * (1 + len(ctx)) + [z3.IntSort()]))
        Q = z3.Function('argsortinv!%d' % self.uid(), *([z3.IntSort()] * (1 + len(ctx)) + [z3.IntSort()]))
        p = lambda i: P(*(ctx + [zint(i)]))
        q = lambda i: Q(*(ctx + [zint(i)]))
        z = zint(n)
        self.rule_for(P, lambda *a_: z3.Implies(z3.And(a_[-1] >= 0, a_[-1] < z), z3.And(P(*a_) >= 0, P(*a_) < z, Q(*(a_[:-1] + (P(*a_),))) == a_[-1])))
        self.rule_for(Q, lambda *a_: z3.Implies(z3.And(a_[-1] >= 0, a_[-1] < z), z3.And(Q(*a_) >= 0, Q(*a_) < z, P(*(a_[:-1] + (Q(*a_),))) == a_[-1])))
        self.ghost.setdefault('argsort', []).append((v, p, q))
        i, j = self.index_const('i'), self.index_const('j')
        fs = [z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < z), zreal(v.at(p(i))) <= zreal(v.at(p(j)))))]
        if onto:
            fs.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < z), z3.And(q(i) >= 0, q(i) < z, p(q(i)) == i))))
        if key is not None:
            self.sums[key] = (p, fs)
        for f in fs:
            self.fact(f)
        return self.arr((n,), lambda i: p(i), 'i')

    def np_accumulate(self, a, sign):
        """running minimum / maximum"""
        v = self.to_arr(a).v
        if v.ndim != 1:
            raise Unsupported('accumulate')
        n, ctx = v.shape[0], list(self.ctx)
        F = z3.Function('run%s!%d' % (sign, self.uid()), *([z3.IntSort()] * (1 + len(ctx)) + [z3.RealSort()]))
        W = z3.Function('runarg!%d' % self.uid(), *([z3.IntSort()] * (1 + len(ctx)) + [z3.IntSort()]))
        f, w = (lambda i: F(*(ctx + [zint(i)]))), (lambda i: W(*(ctx + [zint(i)])))
        le = (lambda a, b: a <= b) if sign == 'min' else (lambda a, b: a >= b)
        i, j = self.index_const('i'), self.index_const('j')
        z = zint(n)
        self.rule_for(F, lambda *x: z3.Implies(z3.And(x[-1] >= 0, x[-1] < z), z3.And(w(x[-1]) >= 0, w(x[-1]) <= x[-1], F(*x) == zreal(v.at(w(x[-1]))), le(F(*x), zreal(v.at(x[-1]))), le(F(*x), zreal(v.at(0))))))
        self.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= j, j <= i, i < z), le(f(i), zreal(v.at(j))))))
        return self.arr((n,), lambda i: f(i), 'f')

    def np_sort(self, a, axis=-1, onto=False):
        v = self.to_arr(a).v
        p = self.np_argsort(a, onto=onto).v
        return self.arr(v.shape, lambda i: v.at(p.at(i)), v.dtype)

    def np_iinfo(self, t):
        bits = {'numpy.int64': (-2**63, 2**63 - 1), 'numpy.int32': (-2**31, 2**31 - 1), 'builtins.int': (-2**63, 2**63 - 1), 'numpy.int16': (-2**15, 2**15 - 1),
                'numpy.uint32': (0, 2**32 - 1), 'numpy.int8': (-128, 127)}
        t = self.force(t)
        lo, hi = bits[t.path if isinstance(t, ExtV) else 'numpy.' + t.path if isinstance(t, DTypeV) else 'numpy.' + t]
        o = PDict()
        i = Inst(ClassV('iinfo', [], {}, None))
        i.cls.mro = [i.cls]
        i.f.update(min=lo, max=hi)
        return i

    def np_finfo(self, t):
        i = Inst(ClassV('finfo', [], {}, None))
        i.cls.mro = [i.cls]
        eps = self.Real('eps')
        self.fact(z3.And(eps > 0, eps < 1e-10))
        i.f.update(eps=eps)
        return i

    def np_issubdtype(self, a, b):
        x = self.force(a)
        b = self.force(b)
        d = self.dtype_of(x)
        t = b.path if isinstance(b, ExtV) else b
        if t in ('numpy.floating', 'builtins.float', 'numpy.float64'):
            return d == 'f'
        if t in ('numpy.integer', 'builtins.int', 'numpy.signedinteger'):
            return d == 'i'
        if t in ('numpy.number',):
            return d in 'fi'
        raise Unsupported('issubdtype %r' % (t,))

    def np_unique(self, a, **kw):
        """sorted distinct values"""
        if kw:
            raise Unsupported('np.unique options')
        v = self.to_arr(a).v
        if v.ndim != 1 or v.dtype not in 'fi' or v.mask is not None:
            raise Unsupported('np.unique')
        n = zint(v.shape[0])
        conv = zreal if v.dtype == 'f' else zint
        srt = z3.RealSort() if v.dtype == 'f' else z3.IntSort()
        u = self.uid()
        cs = [z3.IntSort()] * len(self.ctx)
        ctx = list(self.ctx)
        G = z3.Function('uniq!%d' % u, *(cs + [z3.IntSort(), srt]))
        W = z3.Function('uniqw!%d' % u, *(cs + [z3.IntSort(), z3.IntSort()]))
        H = z3.Function('uniqh!%d' % u, *(cs + [z3.IntSort(), z3.IntSort()]))
        m = self.Int('nuniq')
        g, w, h = (lambda F: lambda i: F(*(ctx + [zint(i)])))(G), (lambda i: W(*(ctx + [zint(i)]))), (lambda i: H(*(ctx + [zint(i)])))
        self.fact(z3.And(m >= 0, m <= n, z3.Implies(n > 0, m > 0)))
        self.rule_for(G, lambda *x: z3.Implies(z3.And(x[-1] >= 0, x[-1] < m), z3.And(W(*x) >= 0, W(*x) < n, G(*x) == conv(v.at(W(*x))))))
        i, j = self.index_const('i'), self.index_const('j')
        self.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < n), z3.And(h(i) >= 0, h(i) < m, g(h(i)) == conv(v.at(i))))))
        self.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), g(i) < g(j))))
        if not self.feasible(z3.And(i >= 0, i < j, j < n, conv(v.at(i)) == conv(v.at(j)))):
            self.fact(m == n)   # pairwise distinct elements
        self.uniq[G.name()] = (lambda q: conv(v.at(q)), h, n, g)
        return self.arr((m,), lambda i: g(i), v.dtype)
