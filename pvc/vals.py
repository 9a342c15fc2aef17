"""Values of the symbolic interpreter.

Concrete python scalars stand for themselves; z3 expressions of sort Int, Real,
Bool or U (an uninterpreted sort of opaque objects) stand for symbolic ints,
floats (mathematical reals), bools and objects.  Python tuples stand for tuples.
Everything mutable is an Obj whose fields are written through Engine.setf, which
journals the write so that exploration can be rolled back.
"""
import itertools
from fractions import Fraction
import z3

U = z3.DeclareSort('U')


class Unsupported(Exception):
    """The code left the subset the verifier understands."""


class PoisonRead(Exception):
    def __init__(self, poison):
        self.poison = poison
        Exception.__init__(self, 'read of %r' % (poison,))


class Poison:
    """A value that must not be read (loop-carried, not yet characterised)."""
    def __init__(self, loc, why=''):
        self.loc = loc
        self.why = why

    def __repr__(self):
        return '<poison %s %s>' % (self.loc, self.why)


class Undefined:
    def __repr__(self):
        return '<undefined>'


UNDEF = Undefined()

CLOCK = [0]      # bumped by every decision and every fresh symbol: values computed
                 # while it moved depend on the path and are not memoised
_serial = itertools.count(1)


def serial():
    return next(_serial)


class Obj:
    kind = 'object'

    def __init__(self):
        self.f = {}
        self.birth = next(_serial)
        self.prov = None     # (parent Obj, field, index) for elements of symbolic containers
        self.frozen = None   # reason why it must not be mutated


class Seq:
    """Immutable sequence: concrete `items`, or length term `n` and getter."""
    __slots__ = ('n', 'items', '_get', 'tag', 'parts', 'memo')

    def __init__(self, items=None, n=None, get=None, tag=None, parts=None):
        self.items = tuple(items) if items is not None else None
        self.n = len(self.items) if items is not None else n
        self._get = get
        self.tag = tag
        self.parts = parts
        self.memo = {}

    @property
    def concrete(self):
        return self.items is not None

    def get(self, i):
        if self.items is not None and isinstance(i, int):
            return self.items[i]
        key = i if isinstance(i, int) else i.get_id()
        if key in self.memo:
            return self.memo[key][1]
        c = CLOCK[0]
        v = self._get(i)
        if c == CLOCK[0]:
            self.memo[key] = (i, v)
        return v


class PList(Obj):
    kind = 'list'

    def __init__(self, seq=()):
        Obj.__init__(self)
        self.f['seq'] = seq if isinstance(seq, Seq) else Seq(seq)


class PSet(Obj):
    kind = 'set'

    def __init__(self, seq=()):
        Obj.__init__(self)
        self.f['seq'] = seq if isinstance(seq, Seq) else Seq(seq)


class PDict(Obj):
    """dict: f['d'] maps concrete keys to values in insertion order,
    f['sym'] is None or a SymMap giving entries of symbolic number."""
    kind = 'dict'

    def __init__(self, d=None, ordered=False):
        Obj.__init__(self)
        self.f['d'] = dict(d or {})
        self.f['sym'] = None
        self.ordered = ordered


class SymMap:
    """n entries key(i) -> val(i); later entries win."""
    def __init__(self, n, key, val, default=None, distinct=False):
        self.n, self.key, self.val, self.distinct = n, key, val, distinct


class ArrVal:
    """numpy array value: shape (ints / Int terms), fn(idx tuple) -> scalar,
    dtype in 'f' float, 'i' int, 'b' bool, 'O' object.  `mask`: for a boolean
    selection, the mask ArrVal it was selected with (fn then indexes the
    unselected array)."""
    __slots__ = ('shape', 'fn', 'dtype', 'mask', 'memo', 'tag', 'exact')

    def __init__(self, shape, fn, dtype='f', mask=None, tag=None):
        self.shape = tuple(shape)
        self.fn = fn
        self.dtype = dtype
        self.mask = mask
        self.memo = {}
        self.tag = tag

    @property
    def ndim(self):
        return len(self.shape)

    def at(self, *idx):
        key = tuple(i if isinstance(i, int) else ('t', i.get_id()) for i in idx)
        if key in self.memo:
            return self.memo[key][1]
        c = CLOCK[0]
        v = self.fn(*idx)
        if c == CLOCK[0]:
            self.memo[key] = (idx, v)
        return v


class ArrObj(Obj):
    kind = 'array'

    def __init__(self, val, group=None):
        Obj.__init__(self)
        self.f['val'] = val
        self.group = group if group is not None else [self]
        if group is not None:
            group.append(self)

    @property
    def v(self):
        x = self.f['val']
        if isinstance(x, Poison):
            raise PoisonRead(x)
        return x


class Inst(Obj):
    kind = 'instance'

    def __init__(self, cls):
        Obj.__init__(self)
        self.cls = cls

    def __repr__(self):
        return '<%s instance>' % self.cls.name


class ClassV:
    kind = 'class'

    def __init__(self, name, bases, ns, module, node=None):
        self.name, self.bases, self.ns, self.module, self.node = name, bases, ns, module, node
        self.mro = None

    def __repr__(self):
        return '<class %s>' % self.name


class FuncV:
    def __init__(self, node, env, module, qual, cls=None, defaults=None, kwdefaults=None):
        self.node, self.env, self.module, self.qual, self.cls = node, env, module, qual, cls
        self.defaults, self.kwdefaults = defaults or [], kwdefaults or {}
        self.attrs = {}

    def __repr__(self):
        return '<function %s>' % self.qual


class BoundM:
    def __init__(self, self_, fn):
        self.self_, self.fn = self_, fn

    def __repr__(self):
        return '<bound %r>' % (self.fn,)


class Native:
    """callable implemented by the verifier: fn(E, args, kwargs) -> value."""
    def __init__(self, name, fn, **attrs):
        self.name, self.fn = name, fn
        self.attrs = attrs

    def __repr__(self):
        return '<native %s>' % self.name


class Prop:
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset


class StaticM:
    def __init__(self, fn):
        self.fn = fn


class ClassM:
    def __init__(self, fn):
        self.fn = fn


class ExtV:
    """A name from outside skopt (module, class or function), by dotted path."""
    kind = 'ext'

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return '<ext %s>' % self.path

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.path == self.path

    def __hash__(self):
        return hash(self.path)


class ModV:
    """A module of the package under verification."""
    def __init__(self, name):
        self.name = name


class NatObj(Obj):
    """Object implemented by the verifier: subclass provides getattr/call."""
    kind = 'native object'
    tyname = 'object'

    def py_getattr(self, E, name):
        raise Unsupported('attribute %s of %s' % (name, type(self).__name__))

    def py_setattr(self, E, name, v):
        E.setf(self, name, v)


class SuperV:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class RangeV:
    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step


class SliceV:
    def __init__(self, lo, hi, step=None):
        self.lo, self.hi, self.step = lo, hi, step


class Cases:
    """Value that is alts[i][1] under condition alts[i][0] (exhaustive)."""
    def __init__(self, alts):
        self.alts = alts


class OpaqueStr:
    """A string whose content the verifier does not track."""
    def __init__(self, parts=()):
        self.parts = parts

    def __repr__(self):
        return '<str>'


class ExcV(Obj):
    def __init__(self, cls, args):
        Obj.__init__(self)
        self.cls = cls
        self.args = args

    def __repr__(self):
        return '%s%r' % (exc_name(self.cls), tuple(a for a in self.args if isinstance(a, (str, int))))


def exc_name(c):
    if isinstance(c, ClassV):
        return c.name
    if isinstance(c, ExtV):
        return c.path.split('.')[-1]
    return str(c)


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc
        Exception.__init__(self, repr(exc))


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_num(v):
    return (isinstance(v, (int, float)) or (is_z3(v) and v.sort().kind() in
            (z3.Z3_INT_SORT, z3.Z3_REAL_SORT, z3.Z3_BOOL_SORT)))


def is_bool(v):
    return isinstance(v, bool) or (is_z3(v) and v.sort().kind() == z3.Z3_BOOL_SORT)


def is_int(v):
    return isinstance(v, int) or (is_z3(v) and v.sort().kind() in (z3.Z3_INT_SORT, z3.Z3_BOOL_SORT))


def is_real(v):
    return isinstance(v, float) or (is_z3(v) and v.sort().kind() == z3.Z3_REAL_SORT)


def is_u(v):
    return is_z3(v) and v.sort() == U


def frac(x):
    """a float literal denotes the decimal it is written as"""
    f = Fraction(repr(float(x))) if isinstance(x, float) else Fraction(x)
    return z3.RealVal(f)


def zint(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if is_z3(v):
        k = v.sort().kind()
        if k == z3.Z3_BOOL_SORT:
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if k == z3.Z3_INT_SORT:
            return v
        if k == z3.Z3_REAL_SORT:
            return z3.ToInt(v)
    if isinstance(v, float) and v == int(v):
        return z3.IntVal(int(v))
    raise Unsupported('not an int: %r' % (v,))


def zreal(v):
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    if isinstance(v, int):
        return z3.RealVal(v)
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            raise Unsupported('non-finite constant in arithmetic')
        return frac(v)
    if is_z3(v):
        k = v.sort().kind()
        if k == z3.Z3_BOOL_SORT:
            return z3.If(v, z3.RealVal(1), z3.RealVal(0))
        if k == z3.Z3_INT_SORT:
            if z3.is_int_value(v):
                return z3.RealVal(v.as_long())
            return z3.ToReal(v)
        if k == z3.Z3_REAL_SORT:
            return v
    raise Unsupported('not a number: %r' % (v,))


def zbool(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if is_z3(v) and v.sort().kind() == z3.Z3_BOOL_SORT:
        return v
    raise Unsupported('not a bool: %r' % (v,))


def lower(v):
    """turn literal z3 values back into python values"""
    if is_z3(v):
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
    return v
