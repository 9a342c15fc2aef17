"""Builtins, attribute and item access, standard library and third-party stubs."""
import ast
import z3
from .vals import *
from . import solve
from .ops import *
from .npl import DTypeV, NP_DTYPES
from .loops import SymMapHole, NoMemo

EXC_PARENTS = {'ValueError': 'Exception', 'TypeError': 'Exception', 'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception',
               'AttributeError': 'Exception', 'RuntimeError': 'Exception', 'NotImplementedError': 'RuntimeError', 'ZeroDivisionError': 'ArithmeticError',
               'OverflowError': 'ArithmeticError', 'ArithmeticError': 'Exception', 'AssertionError': 'Exception', 'StopIteration': 'Exception', 'NameError': 'Exception',
               'UnboundLocalError': 'NameError', 'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError', 'OSError': 'Exception', 'IOError': 'OSError',
               'UserWarning': 'Warning', 'DeprecationWarning': 'Warning', 'Warning': 'Exception', 'RuntimeWarning': 'Warning', 'ConvergenceWarning': 'UserWarning',
               'NotFittedError': 'ValueError', 'LinAlgError': 'Exception', 'UFuncTypeError': 'TypeError', 'KeyboardInterrupt': 'BaseException', 'Exception': 'BaseException',
               'PicklingError': 'Exception', 'MemoryError': 'Exception', 'UnicodeDecodeError': 'ValueError'}


class OptRes(PDict):
    """scipy.optimize.OptimizeResult: a dict whose items are attributes"""
    kind = 'OptimizeResult'


class RngObj(NatObj):
    """numpy RandomState; draws are arbitrary values of the documented range"""
    tyname = 'numpy.random.RandomState'

    def __init__(self, src):
        NatObj.__init__(self)
        self.src = src

    def py_getattr(self, E, name):
        if name in ('uniform', 'rand', 'randint', 'choice', 'multinomial', 'permutation', 'normal', 'standard_normal', 'random_sample', 'shuffle', 'randn', 'random'):
            return Native('rng.' + name, lambda E, a, k: self.draw(E, name, a, k))
        if name in ('get_state', 'set_state'):
            return Native('rng.' + name, lambda E, a, k: None)
        raise Unsupported('rng.' + name)

    def draw(self, E, name, a, k):
        E.ghost.setdefault('draws', []).append((self.src, name))
        a = [E.force(x) for x in a]
        size = k.get('size')
        if name in ('uniform',):
            lo = a[0] if len(a) > 0 else k.get('low', 0.0)
            hi = a[1] if len(a) > 1 else k.get('high', 1.0)
            size = a[2] if len(a) > 2 else size
            return self.sample(E, size, lambda x: z3.And(x >= zreal(lo), z3.Or(x < zreal(hi), z3.And(x == zreal(lo), zreal(lo) == zreal(hi)))), 'f', lo, hi)
        if name in ('rand', 'random_sample', 'random'):
            if name == 'rand':
                size = tuple(a) if a else None
            elif a:
                size = a[0]
            return self.sample(E, size, lambda x: z3.And(x >= 0, x < 1), 'f')
        if name in ('normal', 'standard_normal', 'randn'):
            size = (a[0] if a else size) if name == 'standard_normal' else (tuple(a) if a else None) if name == 'randn' else (a[2] if len(a) > 2 else size)
            return self.sample(E, size, lambda x: z3.BoolVal(True), 'f')
        if name == 'randint':
            lo = a[0] if a else k.get('low')
            hi = a[1] if len(a) > 1 else k.get('high')
            size = a[2] if len(a) > 2 else size
            if hi is None:
                lo, hi = 0, lo
            if not is_num(lo) or not is_num(hi):
                raise Unsupported('randint bounds')
            lo, hi = E.to_int(lo), E.to_int(hi)
            if not E.decide(zint(lo) < zint(hi)):
                E.raise_('ValueError', 'low >= high')
            return self.sample(E, size, lambda x: z3.And(x >= zint(lo), x < zint(hi)), 'i')
        if name == 'multinomial':
            p = E.to_arr(a[1]).v
            if not (isinstance(a[0], int) and a[0] == 1) or p.ndim != 1:
                raise Unsupported('multinomial of more than one trial')
            n = p.shape[0]
            if not E.decide(zint(n) > 0):
                E.raise_('ValueError', 'empty')
            r = self.sample(E, None, lambda x: z3.And(x >= 0, x < zint(n)), 'i')
            E.ghost.setdefault('multinomial', []).append((self.src, E.to_arr(a[1]), r))
            if E.ctx:
                raise Unsupported('multinomial in a loop')
            # an outcome of probability zero is not drawn
            E.fact(zreal(p.at(r)) > 0)
            return E.arr((n,), lambda i: E.vite(f_cmp('==', i, r), 1, 0), 'i')
        if name == 'permutation':
            n = a[0]
            if is_int(n):
                return E.permutation(n)
            arr = E.to_arr(n).v
            p = E.permutation(arr.shape[0]).v
            return E.arr(arr.shape, lambda i, *j: arr.at(p.at(i), *j), arr.dtype)
        if name == 'shuffle':
            o = E.force(a[0])
            if not isinstance(o, ArrObj) or o.v.mask is not None:
                raise Unsupported('shuffle of a list')
            v = o.v
            p = E.permutation(v.shape[0]).v
            E.setf(o, 'val', ArrVal(v.shape, lambda i, *j: v.at(p.at(i), *j), v.dtype))
            return None
        if name == 'choice':
            pop = a[0]
            size = a[1] if len(a) > 1 else size
            if is_int(pop):
                n, el, dt = pop, (lambda i: i), 'i'
            else:
                arr = E.to_arr(pop).v
                if arr.ndim != 1:
                    E.raise_('ValueError', 'a must be 1-dimensional')
                n, el, dt = arr.shape[0], (lambda i: arr.at(i)), arr.dtype
            if not E.decide(zint(n) > 0):
                E.raise_('ValueError', 'a must be non-empty')
            ix = self.sample(E, size, lambda x: z3.And(x >= 0, x < zint(n)), 'i')
            if isinstance(ix, ArrObj):
                v = ix.v
                return E.arr(v.shape, lambda *i: el(v.at(*i)), dt)
            return el(ix)
        raise Unsupported('rng.' + name)

    def sample(self, E, size, prop, d, lo=None, hi=None):
        size = E.force(size) if size is not None else None
        srt = z3.IntSort() if d == 'i' else z3.RealSort()
        if size is None:
            x = E.fresh('draw', srt)
            E.fact(prop(x))
            return x
        sh = E.shape_arg(size)
        f = z3.Function('draw!%d' % E.uid(), *([z3.IntSort()] * (len(sh) + len(E.ctx)) + [srt]))
        ctx = list(E.ctx)
        E.rule_for(f, lambda *a: prop(f(*a)))
        return E.arr(sh, lambda *i: f(*(ctx + [zint(x) for x in i])), d)


class BinStr(NatObj):
    """numpy.binary_repr(n) of a non-negative symbolic n, or its reverse"""
    tyname = 'builtins.str'

    def __init__(self, n, rev=False):
        NatObj.__init__(self)
        self.n, self.rev = n, rev

    def py_subst(self, E, sub):
        return BinStr(z3.substitute(self.n, *sub), self.rev)

    def py_len(self, E):
        return solve.BITLEN(self.n)

    def py_getitem(self, E, i):
        if isinstance(i, SliceV) and i.lo is None and i.hi is None and i.step == -1:
            return BinStr(self.n, not self.rev)
        raise Unsupported('index of a binary form')

    def py_getattr(self, E, name):
        if name in ('find', 'rfind'):
            def find(E, a, k):
                # the lowest zero: found when it lies within the binary form
                if a[0] == '0' and len(a) == 1 and (name == 'find') == self.rev:
                    t, ln = solve.TZ1(self.n), solve.BITLEN(self.n)
                    if not E.decide(t < ln):
                        return -1
                    return t if self.rev else ln - 1 - t
                if a[0] == '1' and len(a) == 1 and name == 'find' and not self.rev and E.implied(self.n >= 1):
                    return 0
                raise Unsupported('search in a binary form')
            return Native(name, find)
        raise Unsupported('binary form .' + name)


class OpaqueObj(NatObj):
    """An object of a third-party class; attributes are looked up in `attrs`."""
    def __init__(self, tyname, **attrs):
        NatObj.__init__(self)
        self.tyname = tyname
        self.f.update(attrs)

    def py_getattr(self, E, name):
        if name in self.f:
            v = self.f[name]
            if isinstance(v, Poison):
                raise PoisonRead(v)
            return v
        E.raise_('AttributeError', '%s has no attribute %s' % (self.tyname, name))

    def py_call(self, E, a, k):
        if 'call' in self.f:
            return E.call(self.f['call'], a, k)
        raise Unsupported('call of ' + self.tyname)

    def py_subst(self, E, sub):
        return self


class LibMixin:
    def init_lib(self):
        self.exc_parents = dict(EXC_PARENTS)
        self.exc_classes = set()
        for n in list(EXC_PARENTS) + ['BaseException']:
            self.exc_classes.add('builtins.' + n)
        self.exc_classes |= {'sklearn.exceptions.NotFittedError', 'numpy.linalg.LinAlgError', 'pickle.PicklingError', 'numpy.UFuncTypeError'}
        self.ext_alias = {'numpy.core.umath.sqrt': 'numpy.sqrt', 'copy.deepcopy': 'copy.deepcopy', 'collections.abc.Iterable': 'collections.Iterable',
                          'collections.abc.Sized': 'collections.Sized', 'collections.abc.Callable': 'collections.Callable', 'numpy.float': 'builtins.float',
                          'numpy.object': 'builtins.object', 'math.sqrt': 'numpy.sqrt', 'math.log': 'numpy.log', 'math.exp': 'numpy.exp', 'math.floor': 'builtins.__floor',
                          'math.ceil': 'builtins.__ceil'}
        self.ext_const = {'sys.version_info': (3, 12, 0), 'sys.maxsize': 2 ** 63 - 1, 'math.pi': z3.Real('pi')}
        self.ext_methods = {}
        self.builtins = {}
        b = self.builtins
        for n in ('int', 'float', 'bool', 'str', 'list', 'tuple', 'dict', 'set', 'frozenset', 'object', 'type', 'property', 'bytes', 'complex', 'slice') + tuple(EXC_PARENTS) + ('BaseException',):
            b[n] = ExtV('builtins.' + n)
        b['True'], b['False'], b['None'], b['Ellipsis'], b['NotImplemented'] = True, False, None, Ellipsis, ExtV('NotImplemented')
        b['__name__'] = 'skopt'
        b['__file__'] = OpaqueStr()
        for n in dir(self):
            if n.startswith('bi_'):
                f = getattr(self, n)
                g = (lambda f: lambda E, a, k: f(*a, **k))(f)
                b[n[3:]] = Native(n[3:], self.order_free(g) if n[3:] in ('sorted', 'len', 'min', 'max', 'any', 'all') else g)
        N = self.natives
        N['builtins.int'] = lambda E, a, k: E.to_int(a[0]) if a else 0
        N['builtins.float'] = lambda E, a, k: E.to_float(a[0]) if a else 0.0
        N['builtins.bool'] = lambda E, a, k: E.to_bool(a[0]) if a else False
        N['builtins.str'] = lambda E, a, k: E.to_str(a[0]) if a else ''
        N['builtins.list'] = lambda E, a, k: PList(E.to_seq(a[0])) if a else PList()
        N['builtins.tuple'] = lambda E, a, k: E.mk_tuple(a[0]) if a else ()
        N['builtins.set'] = self.order_free(lambda E, a, k: E.make_set(E.to_seq(a[0])) if a else PSet())
        N['builtins.frozenset'] = N['builtins.set']
        N['builtins.dict'] = lambda E, a, k: E.mk_dict(a, k)
        N['builtins.object'] = lambda E, a, k: OpaqueObj('object')
        N['builtins.type'] = lambda E, a, k: E.type_of(a[0])
        N['builtins.slice'] = lambda E, a, k: SliceV(*([None] + a + [None] if len(a) == 1 else a + [None] * (3 - len(a))))
        N['builtins.__floor'] = lambda E, a, k: f_floor(E.force(a[0]))
        N['builtins.__ceil'] = lambda E, a, k: E.num_binop('*', -1, f_floor(E.num_binop('*', -1, E.force(a[0]))))
        N['builtins.property'] = lambda E, a, k: Prop(a[0])
        N['collections.OrderedDict'] = lambda E, a, k: E.mk_dict(a, k)
        N['collections.defaultdict'] = lambda E, a, k: E.mk_defaultdict(a, k)
        N['copy.copy'] = lambda E, a, k: E.copy_val(a[0], False)
        N['copy.deepcopy'] = lambda E, a, k: E.copy_val(a[0], True)
        N['warnings.warn'] = lambda E, a, k: E.ghost.setdefault('warnings', []).append(a[0]) if hasattr(E, 'ghost') else None
        N['warnings.catch_warnings'] = lambda E, a, k: CtxMgr()
        N['warnings.simplefilter'] = lambda E, a, k: None
        N['warnings.filterwarnings'] = lambda E, a, k: None
        N['time.time'] = lambda E, a, k: E.clock()
        N['functools.partial'] = lambda E, a, k: Native('partial', lambda E2, a2, k2: E2.call(a[0], list(a[1:]) + a2, dict(k, **k2)))
        N['functools.wraps'] = lambda E, a, k: Native('wraps', lambda E2, a2, k2: a2[0])
        N['sklearn.utils.check_random_state'] = lambda E, a, k: E.check_rng(a[0] if a else None)
        N['scipy.optimize.OptimizeResult'] = lambda E, a, k: E.mk_optres(a, k)
        N['sklearn.utils.check_array'] = lambda E, a, k: E.check_array(*a, **k)
        N['sklearn.utils.column_or_1d'] = lambda E, a, k: E.np_ravel(a[0])
        N['joblib.delayed'] = lambda E, a, k: Native('delayed', lambda E2, a2, k2: (a[0], tuple(a2), E2.kwdict(k2)))
        N['joblib.Parallel'] = lambda E, a, k: Native('Parallel', lambda E2, a2, k2: E2.parallel(a2[0]))
        N['sklearn.base.clone'] = lambda E, a, k: E.clone(*a, **k)
        N['scipy.stats.norm.cdf'] = lambda E, a, k: E.arr_map(lambda x: NCDF(zreal(x)) if const_frac(x) != 0 else 0.5, [a[0]], lambda ds: 'f')
        N['scipy.stats.norm.pdf'] = lambda E, a, k: E.arr_map(lambda x: NPDF(zreal(x)), [a[0]], lambda ds: 'f')
        N['scipy.stats.norm.logcdf'] = lambda E, a, k: E.arr_map(lambda x: f_log(NCDF(zreal(x))), [a[0]], lambda ds: 'f')
        N['numpy.minimum.accumulate'] = lambda E, a, k: E.np_accumulate(a[0], 'min')
        N['numpy.maximum.accumulate'] = lambda E, a, k: E.np_accumulate(a[0], 'max')
        N['itertools.count'] = lambda E, a, k: (_ for _ in ()).throw(Unsupported('itertools.count'))

    # ---------------------------------------------------------------- helpers
    def kwdict(self, k):
        d = PDict()
        d.f['d'] = dict(k)
        return d

    def clock(self):
        self.ghost['time'] = self.ghost.get('time', 0) + 1
        t = self.Real('time')
        self.ghost.setdefault('clocks', []).append(t)
        last = self.ghost.get('lasttime')
        if last is not None and not self.ctx:
            self.fact(t >= last)
        if not self.ctx:
            self.ghost['lasttime'] = t
        return t

    def clone(self, o, safe=True):
        o = self.force(o)
        h = getattr(self, 'clone_hook', None)
        if h is not None:
            return h(self, o)
        return o

    def parallel(self, tasks):
        s = self.to_seq(tasks)
        if s.concrete:
            return PList([self.call(t[0], list(t[1]), t[2].f['d']) for t in s.items])
        return PList(self.map_seq(s.n, lambda i: (lambda t: self.call(t[0], list(t[1]), t[2].f['d']))(self.force(s.get(i)))))

    def global_draw(self, name, a, k):
        self.ghost.setdefault('ambient', []).append('np.random.%s at line %s' % (name, self.line))
        return RngObj('global').draw(self, name, a, k)

    def order_free(self, f):
        """a builtin whose result does not depend on the order of a set"""
        def g(E, a, k):
            E.set_ok = getattr(E, 'set_ok', 0) + 1
            try:
                return f(E, a, k)
            finally:
                E.set_ok -= 1
        return g

    def make_rng(self, seed):
        if seed is None:
            self.ghost.setdefault('ambient', []).append('RandomState() at line %s' % self.line)
            return RngObj('os entropy')
        return RngObj(('seed', seed))

    def check_rng(self, r):
        r = self.force(r)
        if r is None:
            self.ghost.setdefault('ambient', []).append('check_random_state(None) at line %s' % self.line)
            return RngObj('global')
        if isinstance(r, RngObj):
            return r
        if is_int(r):
            return RngObj(('seed', r))
        if isinstance(r, ArrObj):
            return RngObj(('seed', r))
        if isinstance(r, ExtV) and r.path == 'numpy.random':
            self.ghost.setdefault('ambient', []).append('np.random at line %s' % self.line)
            return RngObj('global')
        self.raise_('ValueError', 'cannot be used to seed')

    def check_array(self, X, *a, **k):
        x = self.to_arr(X)
        if k.get('ensure_2d', True) is not False and x.v.ndim != 2:
            self.raise_('ValueError', 'Expected 2D array')
        return x if x.v.dtype != 'i' or k.get('dtype') is None else self.astype(x, 'f')

    def permutation(self, n):
        n = self.dim_val(n)
        ctx = list(self.ctx)
        u = self.uid()
        P = z3.Function('perm!%d' % u, *([z3.IntSort()] * (1 + len(ctx)) + [z3.IntSort()]))
        Q = z3.Function('perminv!%d' % u, *([z3.IntSort()] * (1 + len(ctx)) + [z3.IntSort()]))
        z = zint(n)
        self.rule_for(P, lambda *a: z3.Implies(z3.And(a[-1] >= 0, a[-1] < z), z3.And(P(*a) >= 0, P(*a) < z, Q(*(a[:-1] + (P(*a),))) == a[-1])))
        self.rule_for(Q, lambda *a: z3.Implies(z3.And(a[-1] >= 0, a[-1] < z), z3.And(Q(*a) >= 0, Q(*a) < z, P(*(a[:-1] + (Q(*a),))) == a[-1])))
        o = self.arr((n,), lambda i: P(*(ctx + [zint(i)])), 'i')
        o.v.tag = ('perm', P, Q)
        self.perms[P.name()] = (P, Q)
        return o

    def mk_optres(self, a, k):
        d = OptRes()
        d.f['d'] = dict(k)
        if a:
            d.f['d'].update(self.force(a[0]).f['d'])
        return d

    def mk_dict(self, a, k):
        d = PDict()
        if a:
            x = self.force(a[0])
            if isinstance(x, PDict):
                self.dict_update(d, x)
            else:
                d = self.dict_from_pairs(self.to_seq(x))
        for kk, v in k.items():
            self.setitem(d, kk, v)
        return d

    def mk_defaultdict(self, a, k):
        d = PDict()
        d.default = a[0] if a else None
        return d

    def mk_tuple(self, v):
        s = self.to_seq(v)
        if s.concrete:
            return s.items
        p = PList(s)
        p.frozen = None
        p.is_tuple = True
        return p

    def to_bool(self, v):
        v = self.force(v)
        if is_bool(v):
            return v
        if is_num(v):
            return f_cmp('!=', v, 0)
        return self.truth(v)

    def to_str(self, v):
        v = self.force(v)
        if isinstance(v, (str, int, bool, float, type(None))):
            return str(v)
        if isinstance(v, Inst):
            m = self.class_lookup(v.cls, '__str__')
            if m is not None:
                return self.call(m, [v], {})
        h = getattr(self, 'u_str', None)
        if h is not None and is_z3(v):
            r = h(self, v)
            if r is not None:
                return r
        return OpaqueStr((v,))

    def copy_val(self, v, deep):
        v = self.force(v)
        if isinstance(v, tuple):
            return tuple(self.copy_val(x, True) for x in v) if deep else v
        if isinstance(v, PList):
            s = self.to_seq(v)
            if deep and s.concrete:
                s = Seq([self.copy_val(x, True) for x in s.items])
            r = PList(s)
            return r
        if isinstance(v, PSet):
            return PSet(v.f['seq'])
        if isinstance(v, PDict):
            r = type(v)()
            r.f['d'] = {k: (self.copy_val(x, True) if deep else x) for k, x in v.f['d'].items()}
            r.f['sym'] = v.f['sym']
            if hasattr(v, 'default'):
                r.default = v.default
            return r
        if isinstance(v, ArrObj):
            return self.np_copy(v)
        if isinstance(v, Inst):
            r = Inst(v.cls)
            for k, x in v.f.items():
                r.f[k] = self.copy_val(x, True) if deep else x
            for at in ('lazy', 'origin'):
                if hasattr(v, at):
                    setattr(r, at, getattr(v, at))
            r.origin = getattr(v, 'origin', v)
            return r
        if isinstance(v, NatObj) and hasattr(v, 'py_copy'):
            return v.py_copy(self, deep)
        return v

    def type_of(self, v):
        v = self.force(v)
        if isinstance(v, Inst):
            return v.cls
        if isinstance(v, ExcV):
            return v.cls
        for t, c in ((bool, 'bool'), (int, 'int'), (float, 'float'), (str, 'str'), (tuple, 'tuple')):
            if isinstance(v, t):
                return ExtV('builtins.' + c)
        if v is None:
            return ExtV('builtins.NoneType')
        if isinstance(v, OpaqueStr):
            return ExtV('builtins.str')
        if is_z3(v):
            if is_bool(v):
                return ExtV('builtins.bool')
            if is_int(v):
                return ExtV('builtins.int')
            if is_real(v):
                return ExtV('builtins.float')
            h = getattr(self, 'u_type', None)
            if h is not None:
                return h(self, v)
            raise Unsupported('type of an opaque object')
        if isinstance(v, PList):
            return ExtV('builtins.tuple' if getattr(v, 'is_tuple', False) else 'builtins.list')
        if isinstance(v, PSet):
            return ExtV('builtins.set')
        if isinstance(v, OptRes):
            return ExtV('scipy.optimize.OptimizeResult')
        if isinstance(v, PDict):
            return ExtV('builtins.dict')
        if isinstance(v, ArrObj):
            return ExtV('numpy.ndarray')
        if isinstance(v, NatObj):
            return ExtV(v.tyname)
        if isinstance(v, (FuncV, Native, BoundM)):
            return ExtV('types.FunctionType')
        if isinstance(v, (ClassV, ExtV)):
            return ExtV('builtins.type')
        if isinstance(v, RangeV):
            return ExtV('builtins.range')
        raise Unsupported('type of %r' % (v,))

    SUPER = {'builtins.bool': ['builtins.int'], 'builtins.int': ['numbers.Number', 'numbers.Integral', 'numbers.Real'],
             'builtins.float': ['numbers.Number', 'numbers.Real'], 'builtins.list': ['collections.Iterable', 'collections.Sized'],
             'builtins.tuple': ['collections.Iterable', 'collections.Sized'], 'builtins.dict': ['collections.Iterable', 'collections.Sized'],
             'builtins.str': ['collections.Iterable', 'collections.Sized'], 'builtins.set': ['collections.Iterable', 'collections.Sized'],
             'numpy.ndarray': ['collections.Iterable', 'collections.Sized'], 'scipy.optimize.OptimizeResult': ['builtins.dict'],
             'types.FunctionType': ['collections.Callable'], 'builtins.type': ['collections.Callable'], 'builtins.range': ['collections.Iterable', 'collections.Sized'],
             'numpy.float64': ['builtins.float', 'numpy.floating', 'numpy.number'], 'numpy.int64': ['numpy.integer', 'numbers.Number', 'numbers.Integral', 'numpy.number']}

    def ext_supers(self, p, seen=None):
        seen = seen if seen is not None else set()
        if p in seen:
            return seen
        seen.add(p)
        for q in self.SUPER.get(p, ()):
            self.ext_supers(q, seen)
        return seen

    # ---------------------------------------------------------------- builtins
    def bi_isinstance(self, v, t):
        v, t = self.force(v), self.force(t)
        if isinstance(t, (tuple, PList)):
            rs = []
            for x in self.items_of(t):
                r = self.bi_isinstance(v, x)
                if r is True:
                    return True
                rs.append(r)
            return self.or_(*rs)
        if is_u(v):
            h = getattr(self, 'u_isinstance', None)
            if h is not None:
                return h(self, v, t)
            raise Unsupported('isinstance of an opaque object')
        if is_z3(v) and is_num(v):
            h = getattr(self, 'num_isinstance', None)
            if h is not None:
                r = h(self, v, t)
                if r is not None:
                    return r
        if isinstance(v, NatObj) and hasattr(v, 'py_isinstance'):
            r = v.py_isinstance(self, t)
            if r is not None:
                return r
        ty = self.type_of(v)
        return self.is_subclass(ty, t, v)

    def is_subclass(self, ty, t, v=None):
        if isinstance(t, ClassV):
            if isinstance(ty, ClassV):
                return t in ty.mro
            return False
        if isinstance(t, ExtV):
            if t.path == 'builtins.object':
                return True
            names = set()
            if isinstance(ty, ClassV):
                for k in ty.mro:
                    if isinstance(k, ExtV):
                        names |= self.ext_supers(k.path)
                if t.path == 'collections.Iterable' and self.class_lookup(ty, '__iter__') is not None:
                    return True
                if t.path == 'collections.Callable' and self.class_lookup(ty, '__call__') is not None:
                    return True
                if t.path == 'collections.Sized' and self.class_lookup(ty, '__len__') is not None:
                    return True
            else:
                names = self.ext_supers(ty.path)
                if isinstance(v, NatObj) and t.path in getattr(v, 'bases', ()):
                    return True
            if isinstance(v, OpaqueObj) and t.path == 'collections.Callable':
                return 'call' in v.f
            return t.path in names or any(exc_name(t) in self.exc_chain(ty) for _ in [0] if t.path in self.exc_classes)
        raise Unsupported('isinstance with %r' % (t,))

    def bi_issubclass(self, c, t):
        c, t = self.force(c), self.force(t)
        if isinstance(t, tuple):
            return any(self.is_subclass(c, x) for x in t)
        return self.is_subclass(c, t)

    def bi_len(self, v):
        return self.length(v)

    def bi_range(self, *a):
        a = [self.force(x) for x in a]
        a = [x.v.at() if isinstance(x, ArrObj) and x.v.ndim == 0 else x for x in a]
        for x in a:
            if not is_int(x):
                self.raise_('TypeError', 'object cannot be interpreted as an integer')
        if len(a) == 1:
            return RangeV(0, a[0])
        return RangeV(*a)

    def bi_enumerate(self, v, start=0):
        s = self.to_seq(v)
        if s.concrete:
            return PList([(self.num_binop('+', i, start), x) for i, x in enumerate(s.items)])
        q = Seq(n=s.n, get=lambda i: (self.num_binop('+', i, start), self.seq_at(s, i)))
        return PList(q)

    def bi_zip(self, *vs):
        ss = [self.to_seq(v) for v in vs]
        if not ss:
            return PList()
        if all(s.concrete for s in ss):
            return PList(list(zip(*[s.items for s in ss])))
        n = ss[0].n
        for s in ss[1:]:
            if self.dim_same(n, s.n) or self.decide(self.simp(zint(n) == zint(s.n))):
                n = n if isinstance(n, int) else s.n
            elif self.decide(self.simp(zint(n) > zint(s.n))):
                n = s.n
        if isinstance(n, int):
            return PList([tuple(self.seq_at(s, i) for s in ss) for i in range(n)])
        return PList(Seq(n=n, get=lambda i: tuple(self.seq_at(s, i) for s in ss)))

    def bi_map(self, f, *vs):
        if len(vs) == 1:
            s = self.to_seq(vs[0])
            if s.concrete:
                return PList([self.call(f, [x], {}) for x in s.items])
            return PList(self.map_seq(s.n, lambda i: self.call(f, [self.seq_at(s, i)], {})))
        z = self.bi_zip(*vs)
        s = self.to_seq(z)
        return PList(self.map_seq(s.n, lambda i: self.call(f, list(self.force(self.seq_at(s, i))), {})))

    def bi_filter(self, f, v):
        s = self.to_seq(v)
        out = PList()

        def body(k):
            x = self.force(self.seq_at(s, k))
            if self.truth(x if f is None else self.call(f, [x], {})):
                self.list_append(out, x)
        if s.concrete:
            for k in range(len(s.items)):
                body(k)
        else:
            self.loop(s.n, body)
        return out

    def bi_any(self, v):
        s = self.to_seq(v)
        if s.concrete:
            return self.or_(*[self.to_bool(x) for x in s.items])
        return self.exists_over(s.n, lambda i: self.to_bool(self.seq_at(s, i)))

    def bi_all(self, v):
        s = self.to_seq(v)
        if s.concrete:
            return self.and_(*[self.to_bool(x) for x in s.items])
        return self.all_over(s.n, lambda i: self.to_bool(self.seq_at(s, i)))

    def bi_sum(self, v, start=0):
        s = self.to_seq(v)
        if s.concrete:
            r = start
            for x in s.items:
                r = self.binop('+', r, self.force(x))
            return r
        return self.num_binop('+', start, self.sum_of(s.n, lambda i: self.seq_at(s, i)))

    def extreme(self, a, k, sign):
        if len(a) == 1:
            s = self.to_seq(a[0])
        else:
            s = Seq(a)
        key = k.get('key')
        kf = (lambda x: self.call(key, [x], {})) if key is not None else (lambda x: x)
        if s.concrete:
            if not s.items:
                if 'default' in k:
                    return k['default']
                self.raise_('ValueError', 'arg is an empty sequence')
            best = self.force(s.items[0])
            bk = kf(best)
            for x in s.items[1:]:
                x = self.force(x)
                xk = kf(x)
                c = self.cmp('<' if sign == 'min' else '>', xk, bk)
                if key is None and is_num(x) and is_num(best) and is_z3(c):
                    best = bk = f_ite_num(c, x, best) if is_int(x) == is_int(best) else self.vite(c, x, best)
                    if isinstance(best, Cases):
                        best = bk = self.force(best)
                elif self.truth(c):
                    best, bk = x, xk
            return best
        w = self.ext_of(s.n, lambda i: kf(self.seq_at(s, i)), None, sign, True)
        return self.seq_at(s, w)

    def bi_min(self, *a, **k):
        return self.extreme(a, k, 'min')

    def bi_max(self, *a, **k):
        return self.extreme(a, k, 'max')

    def bi_abs(self, v):
        v = self.force(v)
        return self.np_abs(v) if isinstance(v, ArrObj) else f_abs(v)

    def bi_round(self, v, nd=None):
        v = self.force(v)
        if nd is not None:
            raise Unsupported('round to digits')
        return f_round(v)

    def bi_print(self, *a, **k):
        self.ghost.setdefault('printed', []).append(a)

    def bi_repr(self, v):
        return self.to_str(v)

    def bi_id(self, v):
        return id(v)

    def bi_hash(self, v):
        raise Unsupported('hash')

    def bi_callable(self, v):
        v = self.force(v)
        if isinstance(v, (FuncV, BoundM, Native, ClassV, StaticM)):
            return True
        if isinstance(v, ExtV):
            return True
        if isinstance(v, Inst):
            return self.class_lookup(v.cls, '__call__') is not None
        if isinstance(v, OpaqueObj):
            return 'call' in v.f
        if isinstance(v, NatObj):
            return hasattr(v, 'py_call')
        if is_u(v):
            h = getattr(self, 'u_callable', None)
            if h is not None:
                return h(self, v)
            raise Unsupported('callable of an opaque object')
        return False

    def bi_hasattr(self, v, name):
        try:
            self.getattr(self.force(v), name)
            return True
        except PyRaise as e:
            if exc_name(e.exc.cls) == 'AttributeError':
                return False
            raise

    def bi_getattr(self, v, name, *d):
        name = self.force(name)
        try:
            return self.getattr(self.force(v), name)
        except PyRaise as e:
            if d and exc_name(e.exc.cls) == 'AttributeError':
                return d[0]
            raise

    def bi_setattr(self, v, name, x):
        self.setattr(self.force(v), self.force(name), x)

    def bi_delattr(self, v, name):
        self.delf(self.force(v), name)

    def bi_vars(self, v):
        d = PDict()
        d.f['d'] = dict(v.f)
        return d

    def bi_sorted(self, v, key=None, reverse=False):
        s = self.to_seq(v)
        if not s.concrete:
            if key is None and reverse is False:
                return PList(self.to_seq(self.np_sort(PList(s), onto=True)))
            raise Unsupported('sorted of symbolic length (line %s)' % self.line)
        items = [self.force(x) for x in s.items]
        ks = [self.force(self.call(key, [x], {})) if key is not None else x for x in items]
        # insertion sort with decisions
        out = []
        for x, kx in zip(items, ks):
            pos = len(out)
            while pos > 0:
                c = self.cmp('<', kx, out[pos - 1][1]) if not reverse else self.cmp('>', kx, out[pos - 1][1])
                if self.truth(c):
                    pos -= 1
                else:
                    break
            out.insert(pos, (x, kx))
        return PList([x for x, _ in out])

    def bi_reversed(self, v):
        s = self.to_seq(v)
        if s.concrete:
            return PList(s.items[::-1])
        n = zint(s.n)
        return PList(Seq(n=s.n, get=lambda i: self.seq_at(s, lower(z3.simplify(n - 1 - zint(i))))))

    def bi_iter(self, v):
        return PList(self.to_seq(v)) if not isinstance(self.force(v), PList) else v

    def bi_next(self, v, *d):
        v = self.force(v)
        s = self.to_seq(v)
        if s.concrete:
            if not s.items:
                if d:
                    return d[0]
                self.raise_('StopIteration', '')
            self.setf(v, 'seq', Seq(s.items[1:]))
            return s.items[0]
        raise Unsupported('next')

    def bi_pow(self, a, b):
        return self.binop('**', a, b)

    def bi_divmod(self, a, b):
        return (self.binop('//', a, b), self.binop('%', a, b))

    def bi_open(self, *a, **k):
        raise Unsupported('open')

    # ---------------------------------------------------------------- attributes
    def getattr(self, o, name):
        if isinstance(o, Inst):
            c = self.class_lookup(o.cls, name)
            if isinstance(c, Prop):
                return self.call(c.fget, [o], {})
            if name in o.f:
                v = o.f[name]
                if isinstance(v, Poison):
                    raise PoisonRead(v)
                if v is not UNDEF:
                    return v
            if c is not None:
                return self.bind_attr(c, o, o.cls)
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                d = PDict()
                d.f['d'] = dict(o.f)
                return d
            lz = getattr(o, 'lazy', None)
            if lz is not None:
                v = lz(self, o, name)
                if v is not None:
                    o.f[name] = v
                    return v
            m = self.class_lookup(o.cls, '__getattr__')
            if m is not None:
                return self.call(m, [o, name], {})
            self.raise_('AttributeError', '%s has no attribute %s' % (o.cls.name, name))
        if isinstance(o, ModV):
            return self.module_attr(o.name, name)
        if isinstance(o, ExtV):
            if o.path == 'builtins.object' and name == '__new__':
                return Native('object.__new__', lambda E, a, k: Inst(a[0]))
            if name == '__name__':
                return o.path.split('.')[-1]
            return self.ext(o.path + '.' + name)
        if isinstance(o, ClassV):
            if name == '__name__':
                return o.name
            v = self.class_lookup(o, name)
            if v is None:
                if name == '__mro__':
                    return tuple(o.mro)
                self.raise_('AttributeError', 'class %s has no attribute %s' % (o.name, name))
            if isinstance(v, StaticM):
                return v.fn
            if isinstance(v, ClassM):
                return BoundM(o, v.fn)
            return v
        if isinstance(o, SuperV):
            cls = o.obj.cls if isinstance(o.obj, Inst) else o.obj
            v = self.class_lookup(cls, name, after=o.cls)
            if v is None:
                if name == '__init__':
                    return Native('object.__init__', lambda E, a, k: None)
                self.raise_('AttributeError', 'super has no attribute %s' % name)
            if isinstance(v, Prop):
                return self.call(v.fget, [o.obj], {})
            return self.bind_attr(v, o.obj, cls)
        if isinstance(o, ArrObj):
            return self.arr_attr(o, name)
        if isinstance(o, OptRes):
            d = o.f['d']
            if name in d:
                return d[name]
            return self.dict_method(o, name)
        if isinstance(o, PList):
            return self.list_method(o, name)
        if isinstance(o, PSet):
            return self.set_method(o, name)
        if isinstance(o, PDict):
            return self.dict_method(o, name)
        if isinstance(o, (str, OpaqueStr)):
            return self.str_method(o, name)
        if isinstance(o, NatObj):
            return o.py_getattr(self, name)
        if isinstance(o, FuncV):
            if name in o.attrs:
                return o.attrs[name]
            if name == '__name__':
                return o.node.name if hasattr(o.node, 'name') else '<lambda>'
            if name == '__doc__':
                return None
            self.raise_('AttributeError', 'function has no attribute %s' % name)
        if isinstance(o, (Native, BoundM)):
            if isinstance(o, Native) and name in o.attrs:
                return o.attrs[name]
            self.raise_('AttributeError', 'function has no attribute %s' % name)
        if isinstance(o, ExcV):
            if name == 'args':
                return tuple(o.args)
            self.raise_('AttributeError', name)
        if isinstance(o, DTypeV):
            if name == 'kind':
                return {'float64': 'f', 'int64': 'i', 'bool': 'b', 'object': 'O'}[o.path]
            if name == 'name':
                return o.path
            self.raise_('AttributeError', name)
        if isinstance(o, tuple):
            if name in ('index', 'count'):
                return self.list_method(PList(o), name)
            self.raise_('AttributeError', 'tuple has no attribute %s' % name)
        if is_num(o):
            if name == 'item':
                return Native('item', lambda E, a, k: o)
            if name == 'astype':
                return Native('astype', lambda E, a, k: {'f': E.to_float, 'i': E.to_int, 'O': lambda x: x, 'b': E.to_bool}[E.dtype_of(a[0])](o))
            if name in ('ravel', 'reshape', 'min', 'max', 'sum', 'copy') and is_z3(o):
                return self.arr_attr(self.to_arr(o), name)
            if name == 'shape' and is_z3(o):
                h = getattr(self, 'num_shape', None)
                return () if h is None else h(o)
            if name == 'real':
                return o
            if name in ('is_integer',):
                return Native('is_integer', lambda E, a, k: z3.IsInt(zreal(o)) if is_z3(o) else float(o).is_integer())
            if name == 'bit_length' and isinstance(o, int):
                return Native('bit_length', lambda E, a, k: o.bit_length())
            self.raise_('AttributeError', 'number has no attribute %s' % name)
        if o is None:
            self.raise_('AttributeError', "'NoneType' object has no attribute '%s'" % name)
        if is_u(o):
            h = getattr(self, 'u_getattr', None)
            if h is not None:
                return h(self, o, name)
            raise Unsupported('attribute %s of an opaque object (line %s)' % (name, self.line))
        raise Unsupported('attribute %s of %r' % (name, o))

    def bind_attr(self, c, o, cls):
        if isinstance(c, (FuncV, Native)):
            if isinstance(c, Native) and not c.attrs.get('method', True):
                return c
            return BoundM(o, c)
        if isinstance(c, StaticM):
            return c.fn
        if isinstance(c, ClassM):
            return BoundM(cls, c.fn)
        return c

    def ext_class_attr(self, k, name):
        v = self.ext_methods.get((k.path, name))
        if v is not None:
            return v
        if name == '__init__' and k.path in self.natives and False:
            return None
        if k.path.endswith('BaseEstimator') or k.path.startswith('sklearn.'):
            if name == 'set_params':
                return Native('set_params', self.est_set_params)
            if name == 'get_params':
                return Native('get_params', self.est_get_params)
        return None

    def est_set_params(self, E, a, k):
        o = a[0]
        for n, v in k.items():
            E.setattr(o, n, v)
        return o

    def est_get_params(self, E, a, k):
        o = a[0]
        init = self.class_lookup(o.cls, '__init__')
        d = PDict()
        if isinstance(init, FuncV):
            for x in init.node.args.args[1:] + init.node.args.kwonlyargs:
                d.f['d'][x.arg] = self.getattr(o, x.arg)
        return d

    def setattr(self, o, name, v):
        if isinstance(o, Inst):
            c = self.class_lookup(o.cls, name)
            if isinstance(c, Prop):
                if c.fset is None:
                    self.raise_('AttributeError', "can't set attribute")
                self.call(c.fset, [o, v], {})
                return
            m = self.class_lookup(o.cls, '__setattr__')
            if m is not None:
                self.call(m, [o, name, v], {})
                return
            self.setf(o, name, v)
            return
        if isinstance(o, OptRes):
            self.setitem(o, name, v)
            return
        if isinstance(o, NatObj):
            o.py_setattr(self, name, v)
            return
        if isinstance(o, FuncV):
            o.attrs[name] = v
            return
        if isinstance(o, ClassV):
            raise Unsupported('class attribute store')
        if isinstance(o, ArrObj) and name == 'shape':
            raise Unsupported('shape store')
        if o is None or is_num(o) or isinstance(o, (str, tuple)):
            self.raise_('AttributeError', 'cannot set %s' % name)
        raise Unsupported('attribute store on %r' % (o,))

    # ---------------------------------------------------------------- items
    def getitem(self, o, i):
        o = self.force(o)
        if isinstance(o, (PList, tuple)):
            s = self.to_seq(o)
            i = self.force(i)
            if isinstance(i, ArrObj) and i.v.ndim == 0:
                i = i.v.at()
            if isinstance(i, SliceV):
                if s.concrete and all(x is None or isinstance(x, int) for x in (i.lo, i.hi, i.step)):
                    r = s.items[slice(i.lo, i.hi, i.step)]
                    return r if isinstance(o, tuple) else PList(r)
                lo, n, st = self.slice_bounds(i, s.n)
                if isinstance(n, int) and n == 0:
                    return PList()
                if st == -1:
                    nn = zint(s.n)
                    return PList(Seq(n=s.n, get=lambda j: self.seq_at(s, lower(z3.simplify(nn - 1 - zint(j))))))
                if isinstance(lo, int) and lo == 0 and st == 1:
                    if self.dim_same(n, s.n):
                        return PList(s)
                    if isinstance(n, int):
                        return PList([self.seq_at(s, j) for j in range(n)])
                    return PList(Seq(n=n, get=lambda j: self.seq_at(s, j)))
                if isinstance(n, int) and n <= 64:
                    return PList([self.seq_at(s, self.num_binop('+', lo, j * st)) for j in range(n)])
                return PList(Seq(n=n, get=lambda j: self.seq_at(s, lower(z3.simplify(zint(lo) + zint(j) * st)))))
            if not is_int(i):
                if isinstance(i, ArrObj):
                    self.raise_('TypeError', 'only integer scalar arrays can be converted to a scalar index')
                self.raise_('TypeError', 'list indices must be integers or slices')
            if is_bool(i):
                i = lower(zint(i))
            if s.concrete and isinstance(i, int):
                if not -len(s.items) <= i < len(s.items):
                    self.raise_('IndexError', 'list index out of range')
                return s.items[i]
            j = self.norm_index(i, s.n)
            el = self.seq_at(s, j)
            if isinstance(el, PList) and isinstance(o, PList) and el.frozen is not None and el.prov is None:
                e2 = PList()
                e2.f['seq'] = el.f['seq']
                e2.frozen, e2.prov = 'element', (o, 'seq', j)
                return e2
            return el
        if isinstance(o, ArrObj):
            return self.arr_getitem(o, i)
        if isinstance(o, PDict):
            return self.dict_get(o, i)
        if isinstance(o, str):
            i = self.force(i)
            if isinstance(i, SliceV):
                return o[slice(i.lo, i.hi, i.step)]
            if isinstance(i, int):
                if not -len(o) <= i < len(o):
                    self.raise_('IndexError', 'string index out of range')
                return o[i]
        if isinstance(o, Inst):
            m = self.class_lookup(o.cls, '__getitem__')
            if m is not None:
                return self.call(m, [o, i], {})
            self.raise_('TypeError', 'object is not subscriptable')
        if isinstance(o, NatObj) and hasattr(o, 'py_getitem'):
            return o.py_getitem(self, i)
        if isinstance(o, RangeV):
            return self.getitem(PList(self.to_seq(o)), i)
        if is_u(o):
            h = getattr(self, 'u_getitem', None)
            if h is not None:
                return h(self, o, i)
            raise Unsupported('item of an opaque object')
        if o is None or is_num(o) or isinstance(o, (FuncV, ClassV)):
            self.raise_('TypeError', 'object is not subscriptable')
        raise Unsupported('item of %r (line %s)' % (o, self.line))

    def dict_get(self, o, i):
        i = self.force(i)
        d = o.f['d']
        sm = o.f['sym']
        if isinstance(sm, (Poison, SymMapHole)):
            raise Unsupported('read of a dict the loop itself extends (line %s)' % self.line)
        if sm is None and isinstance(i, (str, int, bool, float, tuple, type(None), ExtV, ClassV)) and self.plain_key(i):
            try:
                if i in d:
                    return d[i]
            except TypeError:
                self.raise_('TypeError', 'unhashable')
            if all(self.plain_key(k) for k in d):
                return self.dict_missing(o, i)
        if isinstance(i, (PList, PDict, ArrObj)):
            self.raise_('TypeError', 'unhashable type')
        if sm is not None:
            t = self.match_key(sm, i)
            if t is not None:
                return sm.val(t)
            # last entry whose key equals i
            w = self.Int('w')
            found = self.exists_over(sm.n, lambda k: self.eq(sm.key(k), i))
            if self.decide(zbool(found)):
                q = self.index_const('q')
                self.fact(z3.And(w >= 0, w < zint(sm.n)))
                self.fact(zbool(self.eq(sm.key(w), i)))
                if not sm.distinct:
                    f = self.formula_of(lambda k: self.eq(sm.key(k), i), q, z3.And(q >= 0, q < zint(sm.n)))
                    self.fact(z3.ForAll([q], z3.Implies(z3.And(q > w, q < zint(sm.n)), z3.Not(f))))
                return sm.val(w)
        for k in reversed(list(d)):
            e = self.eq(k, i)
            if e is True or (e is not False and self.decide(zbool(e))):
                return d[k]
        return self.dict_missing(o, i)

    def match_key(self, sm, i):
        """a position whose key is syntactically i, when keys are distinct"""
        q = z3.Int('mk#')
        try:
            kq = self.force(sm.key(q))
        except Unsupported:
            return None
        if isinstance(kq, (tuple, Obj)) or not is_z3(kq) or not is_z3(i) and not is_num(i):
            return None
        if not is_z3(i):
            i = zint(i) if kq.sort() == z3.IntSort() and is_int(i) else zreal(i) if is_num(i) and kq.sort() == z3.RealSort() else None
            if i is None:
                return None
        b = _match(kq, i, q, None)
        if b is None and z3.is_app(kq) and kq.decl().name() in self.uniq:
            at, h, n, g = self.uniq[kq.decl().name()]
            b = _match(at(q), i, q, None)
            if b is None or not self.implied(z3.And(zint(b) >= 0, zint(b) < n)):
                return None
            self.fact(z3.And(g(h(b)) == i, h(b) >= 0, h(b) < zint(sm.n)))
            b = h(b)
        if b is None:
            return None
        t = lower(z3.simplify(b))
        if not self.implied(z3.And(zint(t) >= 0, zint(t) < zint(sm.n))):
            return None
        if not sm.distinct:
            try:
                self.need_distinct(sm)
            except Unsupported:
                return None
        return t

    def plain_key(self, k):
        return isinstance(k, (str, int, bool, float, type(None), ExtV, ClassV, bytes)) or isinstance(k, tuple) and all(self.plain_key(x) for x in k)

    def dict_missing(self, o, i):
        if hasattr(o, 'default') and o.default is not None:
            v = self.call(o.default, [], {})
            self.setitem(o, i, v)
            return v
        raise PyRaise(ExcV(ExtV('builtins.KeyError'), [i]))

    def dict_keys(self, o):
        d, sm = o.f['d'], o.f['sym']
        s = Seq(list(d))
        if sm is None:
            return s
        if isinstance(sm, (Poison, SymMapHole)):
            raise Unsupported('iteration over a dict in a loop')
        self.need_distinct(sm)
        return self.seq_concat(s, Seq(n=sm.n, get=sm.key))

    def need_distinct(self, sm):
        if sm.distinct:
            return
        a, b = self.index_const('a'), self.index_const('b')
        c = z3.And(a >= 0, a < b, b < zint(sm.n), zbool(self.eq(sm.key(a), sm.key(b))))
        if self.feasible(c):
            raise Unsupported('iteration over a dict whose keys may repeat')
        sm.distinct = True

    def dict_items(self, o):
        d, sm = o.f['d'], o.f['sym']
        s = Seq(list(d.items()))
        if sm is None:
            return s
        self.need_distinct(sm)
        return self.seq_concat(s, Seq(n=sm.n, get=lambda i: (sm.key(i), sm.val(i))))

    def setitem(self, o, i, v):
        o = self.force(o)
        if isinstance(o, PList):
            s = self.to_seq(o)
            i = self.force(i)
            if isinstance(i, SliceV):
                if s.concrete:
                    l = list(s.items)
                    l[slice(i.lo, i.hi, i.step)] = self.items_of(v)
                    self.setf(o, 'seq', Seq(l))
                    return
                if i.lo is None and i.hi is None and i.step is None:
                    self.setf(o, 'seq', self.to_seq(v))
                    return
                raise Unsupported('slice store')
            if s.concrete and isinstance(i, int):
                if not -len(s.items) <= i < len(s.items):
                    self.raise_('IndexError', 'list assignment index out of range')
                l = list(s.items)
                l[i] = v
                self.setf(o, 'seq', Seq(l))
                return
            j = self.norm_index(i, s.n)
            def lget(q, s=s, j=j, v=v):
                c = self.simp(zint(q) == zint(j))
                if c is True or (c is not False and self.implied(c)):
                    return v
                if c is False or self.implied(z3.Not(c)):
                    return self.seq_at(s, q)
                return self.vite(c, v, self.seq_at(s, q))
            ns = Seq(n=s.n, get=lget, tag=('lstore', s, j, v))
            ns.memo = NoMemo()
            self.setf(o, 'seq', ns)
            return
        if isinstance(o, ArrObj):
            self.arr_setitem(o, i, v)
            return
        if isinstance(o, PDict):
            i = self.force(i)
            sm = o.f['sym']
            if isinstance(i, (PList, PDict, ArrObj)) and not getattr(i, 'is_tuple', False):
                self.raise_('TypeError', 'unhashable type')
            if isinstance(sm, SymMapHole) or (sm is None and not self.plain_key(i) and self.ctx):
                if isinstance(sm, SymMapHole):
                    self.setf(o, 'sym', SymMapHole(sm.loc, sm.entries + ((i, v),)))
                else:
                    self.setf(o, 'sym', SymMapHole((o, 'sym'), ((i, v),)))
                return
            d = dict(o.f['d'])
            if self.plain_key(i) and all(self.plain_key(k) for k in d) and sm is None:
                d[i] = v
                self.setf(o, 'd', d)
                return
            if sm is not None:
                raise Unsupported('store into a dict of symbolic size')
            for k in list(d):
                e = self.eq(k, i)
                if e is True or (e is not False and self.decide(zbool(e))):
                    d[k] = v
                    self.setf(o, 'd', d)
                    return
            d[HKey.wrap(i)] = v
            self.setf(o, 'd', d)
            return
        if isinstance(o, Inst):
            m = self.class_lookup(o.cls, '__setitem__')
            if m is not None:
                self.call(m, [o, i, v], {})
                return
            self.raise_('TypeError', 'object does not support item assignment')
        if isinstance(o, NatObj) and hasattr(o, 'py_setitem'):
            o.py_setitem(self, i, v)
            return
        if isinstance(o, tuple) or o is None or is_num(o):
            self.raise_('TypeError', 'object does not support item assignment')
        raise Unsupported('item store on %r' % (o,))

    def delitem(self, o, i):
        if isinstance(o, PDict):
            d = dict(o.f['d'])
            if i not in d:
                raise PyRaise(ExcV(ExtV('builtins.KeyError'), [i]))
            del d[i]
            self.setf(o, 'd', d)
            return
        if isinstance(o, PList):
            s = self.to_seq(o)
            if s.concrete:
                l = list(s.items)
                if isinstance(i, SliceV):
                    del l[slice(i.lo, i.hi, i.step)]
                else:
                    if not -len(l) <= i < len(l):
                        self.raise_('IndexError', 'list assignment index out of range')
                    del l[i]
                self.setf(o, 'seq', Seq(l))
                return
            j = self.norm_index(i, s.n)
            self.list_pop_at(o, s, j)
            return
        raise Unsupported('del item')

    def list_pop_at(self, o, s, j):
        n = lower(z3.simplify(zint(s.n) - 1))
        if isinstance(j, int) and j == 0:
            q = Seq(n=n, get=lambda i: self.seq_at(s, lower(z3.simplify(zint(i) + 1))))
        elif self.implied(zint(j) == zint(n)):
            q = Seq(n=n, get=lambda i: self.seq_at(s, i))
        else:
            q = Seq(n=n, get=lambda i: self.vite(f_cmp('<', i, j), self.seq_at(s, i), self.seq_at(s, lower(z3.simplify(zint(i) + 1)))))
        self.setf(o, 'seq', q)

    # ---------------------------------------------------------------- methods of builtin types
    def list_append(self, o, v):
        self.setf(o, 'seq', self.seq_concat(self.to_seq(o), Seq([v])))

    def list_method(self, o, name):
        def m_append(E, a, k):
            E.list_append(o, a[0])

        def m_extend(E, a, k):
            E.setf(o, 'seq', E.seq_concat(E.to_seq(o), E.to_seq(a[0])))

        def m_insert(E, a, k):
            s = E.to_seq(o)
            i = E.force(a[0])
            if s.concrete and isinstance(i, int):
                l = list(s.items)
                l.insert(i, a[1])
                E.setf(o, 'seq', Seq(l))
            elif i == 0:
                E.setf(o, 'seq', E.seq_concat(Seq([a[1]]), s))
            else:
                raise Unsupported('insert')

        def m_pop(E, a, k):
            s = E.to_seq(o)
            i = E.force(a[0]) if a else -1
            if s.concrete and isinstance(i, int):
                l = list(s.items)
                if not -len(l) <= i < len(l):
                    E.raise_('IndexError', 'pop index out of range')
                v = l.pop(i)
                E.setf(o, 'seq', Seq(l))
                return v
            if not E.decide(zint(s.n) > 0):
                E.raise_('IndexError', 'pop from empty list')
            j = E.norm_index(i, s.n)
            v = E.seq_at(s, j)
            E.list_pop_at(o, s, j)
            return v

        def m_copy(E, a, k):
            return PList(E.to_seq(o))

        def m_index(E, a, k):
            s = E.to_seq(o)
            if s.concrete:
                for i, x in enumerate(s.items):
                    if E.truth(E.eq(x, a[0])):
                        return i
                E.raise_('ValueError', 'is not in list')
            return E.seq_index(s, a[0])

        def m_count(E, a, k):
            s = E.to_seq(o)
            if s.concrete:
                r = 0
                for x in s.items:
                    r = E.num_binop('+', r, lower(zint(E.eq(x, a[0]))))
                return r
            raise Unsupported('count')

        def m_sort(E, a, k):
            r = E.bi_sorted(o, **k)
            E.setf(o, 'seq', r.f['seq'])

        def m_reverse(E, a, k):
            E.setf(o, 'seq', E.bi_reversed(o).f['seq'])

        def m_clear(E, a, k):
            E.setf(o, 'seq', Seq(()))

        def m_remove(E, a, k):
            l = E.items_of(o)
            for i, x in enumerate(l):
                if E.truth(E.eq(x, a[0])):
                    E.setf(o, 'seq', Seq(l[:i] + l[i + 1:]))
                    return
            E.raise_('ValueError', 'list.remove(x): x not in list')
        f = locals().get('m_' + name)
        if f is None:
            self.raise_('AttributeError', "'list' object has no attribute '%s'" % name)
        return Native('list.' + name, f)

    def seq_index(self, s, v):
        """first position of v"""
        found = self.exists_over(s.n, lambda k: self.eq(self.seq_at(s, k), v))
        if not self.decide(zbool(found)):
            self.raise_('ValueError', 'is not in list')
        w = self.Int('index')
        q = self.index_const('q')
        self.fact(z3.And(w >= 0, w < zint(s.n)))
        self.fact(zbool(self.eq(self.seq_at(s, w), v)))
        f = self.formula_of(lambda k: self.eq(self.seq_at(s, k), v), q, z3.And(q >= 0, q < zint(s.n)))
        self.fact(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < w), z3.Not(f))))
        return w

    def set_method(self, o, name):
        def m_add(E, a, k):
            s = E.to_seq(o)
            if s.concrete:
                for x in s.items:
                    if E.truth(E.eq(x, a[0])):
                        return
                E.setf(o, 'seq', Seq(s.items + (a[0],)))
                return
            raise Unsupported('set.add')

        def m_union(E, a, k):
            return E.set_op('|', o, E.make_set(E.to_seq(a[0])))

        def m_intersection(E, a, k):
            return E.set_op('&', o, E.make_set(E.to_seq(a[0])))

        def m_difference(E, a, k):
            return E.set_op('-', o, E.make_set(E.to_seq(a[0])))

        def m_issubset(E, a, k):
            return E.and_(*[E.contains(a[0], x) for x in E.items_of(o)])
        f = locals().get('m_' + name)
        if f is None:
            self.raise_('AttributeError', "'set' object has no attribute '%s'" % name)
        return Native('set.' + name, f)

    def dict_method(self, o, name):
        def m_get(E, a, k):
            try:
                dflt = getattr(o, 'default', None)
                if dflt is not None:
                    o.default = None
                try:
                    return E.dict_get(o, a[0])
                finally:
                    if dflt is not None:
                        o.default = dflt
            except PyRaise as e:
                if exc_name(e.exc.cls) == 'KeyError':
                    return a[1] if len(a) > 1 else None
                raise

        def m_items(E, a, k):
            return PList(E.dict_items(o))

        def m_keys(E, a, k):
            return PList(E.dict_keys(o))

        def m_values(E, a, k):
            s = E.dict_items(o)
            if s.concrete:
                return PList([x[1] for x in s.items])
            return PList(Seq(n=s.n, get=lambda i: s.get(i)[1]))

        def m_update(E, a, k):
            if a:
                x = E.force(a[0])
                if not isinstance(x, PDict):
                    x = E.dict_from_pairs(E.to_seq(x))
                E.dict_update(o, x)
            for kk, v in k.items():
                E.setitem(o, kk, v)

        def m_pop(E, a, k):
            key = E.force(a[0])
            d = dict(o.f['d'])
            if o.f['sym'] is not None:
                raise Unsupported('dict.pop')
            if key in d:
                v = d.pop(key)
                E.setf(o, 'd', d)
                return v
            if len(a) > 1:
                return a[1]
            raise PyRaise(ExcV(ExtV('builtins.KeyError'), [key]))

        def m_copy(E, a, k):
            return E.copy_val(o, False)

        def m_setdefault(E, a, k):
            if E.truth(E.contains(o, a[0])):
                return E.dict_get(o, a[0])
            v = a[1] if len(a) > 1 else None
            E.setitem(o, a[0], v)
            return v

        def m_iteritems(E, a, k):
            E.raise_('AttributeError', 'iteritems')
        f = locals().get('m_' + name)
        if f is None:
            self.raise_('AttributeError', "'dict' object has no attribute '%s'" % name)
        return Native('dict.' + name, f)

    def str_method(self, o, name):
        def call(E, a, k):
            a = [E.force(x) for x in a]
            if name == 'join':
                items = [E.force(x) for x in E.items_of(a[0])] if E.to_seq(a[0]).concrete else None
                if isinstance(o, str) and items is not None and all(isinstance(x, str) for x in items):
                    return o.join(items)
                return OpaqueStr((o,))
            if name == 'format':
                if isinstance(o, str) and all(isinstance(x, (str, int, float)) for x in a) and all(isinstance(x, (str, int, float)) for x in k.values()):
                    return o.format(*a, **k)
                return OpaqueStr((o,))
            if isinstance(o, str) and all(isinstance(x, (str, int, type(None))) or isinstance(x, tuple) and all(isinstance(y, str) for y in x) for x in a):
                r = getattr(o, name)(*a, **k)
                if isinstance(r, list):
                    return PList(r)
                return r
            if name in ('startswith', 'endswith', 'isdigit'):
                return E.Bool('str')
            return OpaqueStr((o,))
        if not hasattr('', name):
            self.raise_('AttributeError', "'str' object has no attribute '%s'" % name)
        return Native('str.' + name, call)

    def make_set(self, s):
        if s.concrete:
            out = []
            for x in s.items:
                x = self.force(x)
                if isinstance(x, (PList, PDict, ArrObj)) and not getattr(x, 'is_tuple', False):
                    self.raise_('TypeError', 'unhashable type')
                dup = False
                for y in out:
                    e = self.eq(x, y)
                    if e is True or (e is not False and self.decide(zbool(e))):
                        dup = True
                        break
                if not dup:
                    out.append(x)
            return PSet(out)
        p = PSet(s)
        # members are those of s; the number of distinct ones is only bounded
        return p

    def dict_from_pairs(self, s):
        d = PDict()
        if s.concrete:
            for x in s.items:
                k, v = self.unpack(x, 2)
                self.setitem(d, k, v)
            return d

        def pr(i):
            return self.unpack(self.seq_at(s, i), 2)
        k = self.index_const()
        val = self.generic_value(lambda: tuple(pr(k)), [(k, z3.And(k >= 0, k < zint(s.n)))]) if self.feasible(zint(s.n) > 0) else (0, 0)
        distinct = getattr(self, 'keys_distinct', None)
        sm = SymMap(s.n, lambda i: self.vsubst(self.tup(val)[0], [(k, zint(i))]), lambda i: self.vsubst(self.tup(val)[1], [(k, zint(i))]))
        if distinct is not None:
            sm.distinct = distinct(self, sm)
        d.f['sym'] = sm
        return d

    def tup(self, v):
        if isinstance(v, tuple):
            return v
        raise Unsupported('pair')

    def dict_update(self, d, o):
        if not isinstance(o, PDict):
            raise Unsupported('dict update')
        if o.f['sym'] is not None:
            if d.f['d'] or d.f['sym'] is not None:
                raise Unsupported('update with a dict of symbolic size')
            self.setf(d, 'sym', o.f['sym'])
        for k, v in o.f['d'].items():
            self.setitem(d, k, v)


class HKey:
    """hashable wrapper is the value itself when it is hashable (z3 terms are)"""
    @staticmethod
    def wrap(i):
        return i


class CtxMgr(NatObj):
    def py_enter(self, E):
        return None

    def py_exit(self, E):
        pass


def _match(pat, t, q, b):
    """binding of q making pat equal to t, or None"""
    if pat.eq(q):
        if t.sort() != z3.IntSort():
            return None
        return t if b is None or b.eq(t) else None
    if z3.is_app(pat) and z3.is_app(t) and pat.decl().eq(t.decl()) and pat.num_args() == t.num_args():
        if pat.num_args() == 0:
            return b if pat.eq(t) else None
        for x, y in zip(pat.children(), t.children()):
            nb = _match(x, y, q, b)
            if nb is None:
                if x.eq(y):
                    continue
                return None
            b = nb
        return b
    return None
