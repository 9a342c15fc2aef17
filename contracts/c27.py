"""C27: dimension descriptions are parsed by the documented rules."""
from .opt import *
from .c07 import exc_is

NOTE = ('the parser proved for every list, tuple or array of length 0-4 with elements of arbitrary type and for every longer one, the constructors for every pair of '
        'bounds, prior, base, transform, dtype and every number of categories; spaces of any number of dimensions; YAML files only by the bounded search')
ASSUME = ['the type of an element is known only through isinstance against the number tower, str, bool and numpy.bool_',
          'comparison of an element with the prior names is string equality']
P = {n: z3.Function('is_' + n, U, B) for n in ('integral', 'real', 'str', 'bool', 'npbool', 'int', 'float', 'npint', 'npfloat', 'uniform', 'loguniform')}
X = z3.Function('ELEM', I, U)
T = {'numbers.Integral': 'integral', 'numbers.Real': 'real', 'builtins.str': 'str', 'builtins.bool': 'bool', 'numpy.bool_': 'npbool', 'builtins.int': 'int',
     'builtins.float': 'float', 'numpy.integer': 'npint', 'numpy.floating': 'npfloat', 'numbers.Number': 'real'}


def element(E, x):
    """facts about the type of any object"""
    p = {k: f(x) for k, f in P.items()}
    im = z3.Implies
    E.assume(z3.And(im(p['integral'], p['real']), im(p['int'], p['integral']), im(p['bool'], p['int']), im(p['npint'], z3.And(p['integral'], z3.Not(p['int']))),
                    im(p['float'], z3.And(p['real'], z3.Not(p['integral']))), im(p['npfloat'], z3.And(p['real'], z3.Not(p['integral']))),
                    im(p['str'], z3.Not(p['real'])), im(p['npbool'], z3.Not(z3.Or(p['real'], p['str']))),
                    im(z3.Or(p['uniform'], p['loguniform']), p['str']), z3.Not(z3.And(p['uniform'], p['loguniform']))))


def hooks(E):
    def isinst(E, v, t):
        n = t.path if isinstance(t, ExtV) else ''
        if n in T:
            return P[T[n]](v)
        if isinstance(t, ClassV):
            return False
        raise Unsupported('isinstance(element, %s)' % (n or t,))

    def eq(E, a, b):
        x, s = (a, b) if is_u(a) else (b, a)
        if s == 'uniform':
            return P['uniform'](x)
        if s == 'log-uniform':
            return P['loguniform'](x)
        if s is None:
            return False
        raise Unsupported('comparison of an element with %r' % (s,))
    E.u_isinstance = isinst
    E.u_eq = eq
    E.u_isnone = lambda E, v: False


class Made(NatObj):
    tyname = 'skopt.space.space.Dimension'

    def __init__(self, kind, args):
        NatObj.__init__(self)
        self.kind, self.args = kind, args

    def py_isinstance(self, E, cls):
        return isinstance(cls, ClassV) and cls.name == 'Dimension'


def record(E):
    made = []
    for kind, names in (('Real', ['low', 'high', 'prior', 'base', 'transform', 'name', 'dtype']), ('Integer', ['low', 'high', 'prior', 'base', 'transform', 'name', 'dtype']),
                        ('Categorical', ['categories', 'prior', 'transform', 'name'])):
        def mk(E, a, k, kind=kind, names=names):
            d = dict(zip(names, a))
            d.update(k)
            made.append(Made(kind, d))
            return made[-1]
        E.overrides[SPACE + kind] = mk
    return made


def whole(E, made, desc, n):
    """the categories are the elements of the description in order"""
    s = E.to_seq(E.force(made.args['categories']))
    E.prove('every element is a category', zint(s.n) == zint(n))
    if s.concrete:
        for i in range(n):
            E.prove('category %d' % i, E.force(s.items[i]) == X(i))
    else:
        i = E.Int('i')
        E.assume(z3.And(i >= 0, i < zint(n)))
        E.prove('category i', E.force(E.seq_at(s, i)) == X(i))


def parse(n, box):
    def c(E):
        hooks(E)
        xs = [X(z3.IntVal(i)) for i in range(n)]
        for x in xs:
            element(E, x)
        made = record(E)
        tr = OpaqueStr()
        desc = PList(list(xs)) if box == 'list' else tuple(xs)
        kind, r = outcome(E, lambda: E.call(E.resolve(SPACE + 'check_dimension'), [desc], dict(transform=tr)))
        p = lambda k, i: P[k](xs[i])
        Or, And, Not = z3.Or, z3.And, z3.Not
        if n == 0:
            E.require('an empty description is refused', kind == 'raise' and exc_is(r, 'ValueError') and not made)
            return
        number = lambda k, i: And(p(k, i), Not(p('bool', i)))
        if n == 1:
            cat, ints, reals = True, False, False
        elif n == 2:
            cat = Or(*[Or(p('str', i), p('bool', i), p('npbool', i)) for i in (0, 1)])
            ints = And(Not(cat), p('integral', 0), p('integral', 1))
            # a number and something else goes to the constructor, which cannot order them
            reals = And(Not(cat), Not(ints), Or(p('real', 0), p('real', 1)))
        elif n == 3:
            pr = Or(p('uniform', 2), p('loguniform', 2))
            ints = And(number('integral', 0), number('integral', 1), pr)
            reals = And(number('real', 0), number('real', 1), pr, Not(ints))
            cat = Not(Or(ints, reals))
        else:
            pr = And(p('loguniform', 2), number('integral', 3))
            ints = And(number('integral', 0), number('integral', 1), pr)
            reals = And(number('real', 0), number('real', 1), pr, Not(ints))
            cat = Not(Or(ints, reals))
        if kind == 'raise':
            E.require('refused as an invalid value', exc_is(r, 'ValueError') and not made)
            E.prove('only what fits no rule is refused', Not(Or(zbool(cat), zbool(ints), zbool(reals))))
            return
        E.require('one dimension made and returned', len(made) == 1 and E.force(r) is made[0])
        m = made[0]
        E.prove('the documented kind', zbool({'Categorical': cat, 'Integer': ints, 'Real': reals}[m.kind]))
        E.require('the transform is passed on', E.force(m.args.get('transform')) is tr)
        if m.kind == 'Categorical':
            E.require('nothing but categories', set(m.args) == {'categories', 'transform'})
            whole(E, m, desc, n)
        else:
            want = ['low', 'high', 'prior', 'base'][:n]
            E.require('one option per element', set(m.args) == set(want) | {'transform'})
            for i, w in enumerate(want):
                v = E.force(m.args[w])
                E.prove('the given ' + w, v == xs[i] if is_u(v) else False)
    return c


def longer(E):
    hooks(E)
    n = E.Int('n')
    E.assume(n >= 5)
    E.rule_for(X, lambda i: z3.BoolVal(True))
    made = record(E)
    desc = PList(Seq(n=n, get=lambda i: X(zint(i))))
    r = E.call(E.resolve(SPACE + 'check_dimension'), [desc], {})
    E.require('categories', len(made) == 1 and E.force(r) is made[0] and made[0].kind == 'Categorical')
    whole(E, made[0], desc, n)


def others(E):
    made = record(E)
    for nm, v in (('a number', E.Int('v')), ('a real number', E.Real('w')), ('text', 'abc'), ('any text', OpaqueStr()), ('None', None), ('a dictionary', PDict()),
                  ('an object', OpaqueObj('o')), ('a set', PSet())):
        kind, r = outcome(E, lambda: E.call(E.resolve(SPACE + 'check_dimension'), [v], {}))
        E.require(nm + ' is refused', kind == 'raise' and exc_is(r, 'ValueError') and not made)


def through(kind):
    def c(E):
        cls = E.resolve(SPACE + kind)
        d = E.call(cls, [PList(['a', 'b', 'c'])] if kind == 'Categorical' else [0, 5], {})
        snap = dict(d.f)
        for kw in ({}, dict(transform='identity')):
            r = E.call(E.resolve(SPACE + 'check_dimension'), [d], kw)
            E.require('the dimension itself', E.force(r) is d)
            E.require('unchanged', set(d.f) == set(snap) and all(d.f[k] is snap[k] for k in snap))
    return c


def space(E):
    n = E.Int('n')
    E.assume(n >= 0)
    CHECK = z3.Function('CHECK', U, U)
    D = z3.Function('DESC', I, U)
    seen = []

    def check(E, a, k):
        E.require('the default transform', not k and len(a) == 1)
        return CHECK(E.force(a[0]))
    E.overrides[SPACE + 'check_dimension'] = check
    s = E.call(E.resolve(SPACE + 'Space'), [PList(Seq(n=n, get=lambda i: D(zint(i))))], {})
    ds = E.to_seq(E.getattr(s, 'dimensions'))
    E.prove('one dimension per description', zint(ds.n) == n)
    i = E.Int('i')
    E.assume(z3.And(i >= 0, i < n))
    v = E.force(E.seq_at(ds, i))
    E.require('made by the parser', is_z3(v))
    E.prove('in order', v == CHECK(D(i)))


# ---------------------------------------------------------------- constructors
PRIORS = ['uniform', 'log-uniform', 'normal', None, 3]
TRANSFORMS = [None, 'identity', 'normalize', 'onehot', 'label', 'Identity']


def ranged(kind, prior, transform):
    def c(E):
        S = E.Real if kind == 'Real' else E.Int
        lo, hi = S('low'), S('high')
        b = E.Int('base')
        E.assume(b > 1)
        nm = OpaqueStr()
        kind_, d = outcome(E, lambda: E.call(E.resolve(SPACE + kind), [lo, hi], dict(prior=prior, base=b, transform=transform, name=nm)))
        ok = prior in ('uniform', 'log-uniform') and transform in (None, 'identity', 'normalize')
        fine = z3.And(lo < hi, lo > 0) if prior == 'log-uniform' else lo < hi
        if kind_ == 'raise':
            E.require('refused as an invalid value', exc_is(d, 'ValueError'))
            if ok:
                E.prove('only impossible ranges are refused', z3.Not(fine))
            return
        E.require('unknown options are refused', ok)
        E.prove('impossible ranges are refused', fine)
        g = lambda n: E.force(E.getattr(d, n))
        E.prove('bounds kept', z3.And(zreal(g('low')) == zreal(lo), zreal(g('high')) == zreal(hi), zint(g('base')) == b))
        bd = E.items_of(g('bounds'))
        E.require('two bounds', len(bd) == 2)
        E.prove('bounds reported', z3.And(zreal(E.force(bd[0])) == zreal(lo), zreal(E.force(bd[1])) == zreal(hi)))
        E.require('prior kept', g('prior') == prior)
        E.require('transform kept', g('transform_') == (transform or 'identity'))
        E.require('name kept', g('name') is nm)
    return c


DT = {'Real': (['float', 'float16', 'float32', 'float64', 'numpy:float16', 'numpy:float32', 'numpy:float64', 'py:float'],
               ['int', 'float128x', 'int64', '', 'numpy:int64', 'numpy:int32', 'py:int', 'py:str', 'py:bool']),
      'Integer': (['int', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'numpy:int8', 'numpy:int16', 'numpy:int32', 'numpy:int64',
                   'numpy:uint8', 'numpy:uint16', 'numpy:uint32', 'numpy:uint64', 'py:int'],
                  ['float', 'float64', 'int128', '', 'numpy:float64', 'numpy:float32', 'py:float', 'py:str', 'py:bool'])}


def dtypes(kind):
    def c(E):
        S = E.Real if kind == 'Real' else E.Int
        lo, hi = S('low'), S('high')
        E.assume(lo < hi)
        for good, names in zip((True, False), DT[kind]):
            for n in names:
                t = E.ext('numpy.' + n[6:]) if n.startswith('numpy:') else E.ext('builtins.' + n[3:]) if n.startswith('py:') else n
                k, d = outcome(E, lambda: E.call(E.resolve(SPACE + kind), [lo, hi], dict(dtype=t)))
                if good:
                    E.require('%s accepted' % n, k == 'ok')
                    if k == 'ok':
                        E.require('%s kept' % n, E.eq(E.getattr(d, 'dtype'), t) is True)
                else:
                    E.require('%s refused' % (n or 'empty text'), k == 'raise' and exc_is(d, 'ValueError'))
    return c


def categorical(transform):
    def c(E):
        K = E.Int('K')
        E.assume(K >= 1)
        C = z3.Function('CAT', I, I)
        W = z3.Function('CAT_at', I, I)
        E.rule_for(C, lambda i: z3.Implies(z3.And(i >= 0, i < K), W(C(i)) == i))
        nm = OpaqueStr()
        cats = PList(Seq(n=K, get=lambda i: C(zint(i))))
        k, d = outcome(E, lambda: E.call(E.resolve(SPACE + 'Categorical'), [cats], dict(transform=transform, name=nm)))
        if transform not in (None, 'onehot', 'label', 'normalize', 'identity'):
            E.require('unknown transform refused', k == 'raise' and exc_is(d, 'ValueError'))
            return
        E.require('accepted', k == 'ok')
        for n in ('categories', 'bounds'):
            s = E.to_seq(E.getattr(d, n))
            E.prove(n + ': as many', zint(s.n) == K)
            i = E.Int('i')
            E.assume(z3.And(i >= 0, i < K))
            E.prove(n + ': in order', zint(E.force(E.seq_at(s, i))) == C(i))
        E.require('transform kept', E.force(E.getattr(d, 'transform_')) == (transform or 'onehot'))
        E.require('name kept', E.force(E.getattr(d, 'name')) is nm)
        E.require('no prior', E.force(E.getattr(d, 'prior')) is None)
        pr = E.to_arr(E.getattr(d, 'prior_')).v
        E.prove('one probability per category', zint(pr.shape[0]) == K)
        i = E.Int('i')
        E.assume(z3.And(i >= 0, i < K))
        E.prove('all equally likely', zreal(pr.at(i)) * z3.ToReal(K) == 1)
    return c


def given_prior(E):
    K = E.Int('K')
    E.assume(K >= 1)
    C = z3.Function('CAT', I, I)
    W = z3.Function('CAT_at', I, I)
    E.rule_for(C, lambda i: z3.Implies(z3.And(i >= 0, i < K), W(C(i)) == i))
    Q = z3.Function('PROB', I, R)
    pl = PList(Seq(n=K, get=lambda i: Q(zint(i))))
    d = E.call(E.resolve(SPACE + 'Categorical'), [PList(Seq(n=K, get=lambda i: C(zint(i))))], dict(prior=pl, transform='label'))
    for n in ('prior', 'prior_'):
        s = E.to_seq(E.force(E.getattr(d, n)))
        E.prove(n + ': as many', zint(s.n) == K)
        i = E.Int('i')
        E.assume(z3.And(i >= 0, i < K))
        E.prove(n + ': as given', zreal(E.force(E.seq_at(s, i))) == Q(i))


def bad_names(kind):
    def c(E):
        a = [PList(['a', 'b'])] if kind == 'Categorical' else [0, 5]
        for v in (3, 2.5, True, PList(['x']), OpaqueObj('o')):
            k, d = outcome(E, lambda: E.call(E.resolve(SPACE + kind), list(a), dict(name=v)))
            E.require('a name that is no text is refused', k == 'raise' and exc_is(d, 'ValueError'))
        for v in (None, OpaqueStr(), 'x'):
            k, d = outcome(E, lambda: E.call(E.resolve(SPACE + kind), list(a), dict(name=v)))
            E.require('names and no name are fine', k == 'ok' and E.force(E.getattr(d, 'name')) is v)
    return c


CONTRACTS = ([('%d elements in a %s' % (n, b), parse(n, b)) for n in range(5) for b in ('list', 'tuple')] +
             [('longer descriptions', longer), ('other objects', others)] + [('%s passes through' % k, through(k)) for k in ('Real', 'Integer', 'Categorical')] +
             [('space', space)] + [('%s %s %s' % (k, p, t), ranged(k, p, t)) for k in ('Real', 'Integer') for p in PRIORS for t in TRANSFORMS] +
             [('dtypes of ' + k, dtypes(k)) for k in ('Real', 'Integer')] +
             [('Categorical %s' % t, categorical(t)) for t in (None, 'onehot', 'label', 'normalize', 'identity', 'bogus')] + [('Categorical with a prior', given_prior)] +
             [('name of ' + k, bad_names(k)) for k in ('Real', 'Integer', 'Categorical')])
