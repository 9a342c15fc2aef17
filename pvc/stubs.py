"""Stubs (trusted contracts) of scipy.stats and sklearn.preprocessing."""
import z3
from .vals import *
from .ops import *
from .lib import RngObj


class RvsObj(NatObj):
    """frozen distribution: rvs(size, random_state) draws values inside its support"""
    tyname = 'rv_frozen'

    def __init__(self, kind, dtype, prop):
        NatObj.__init__(self)
        self.k, self.dtype, self.prop = kind, dtype, prop

    def py_getattr(self, E, name):
        if name == 'rvs':
            return Native('rvs', lambda E, a, k: self.rvs(E, a, k))
        raise Unsupported('%s.%s' % (self.k, name))

    def rvs(self, E, a, k):
        size = a[0] if a else k.get('size')
        rs = k.get('random_state')
        if rs is None:
            E.ghost.setdefault('ambient', []).append('rvs without a generator at line %s' % E.line)
            rs = RngObj('global')
        rs = E.check_rng(rs)
        return rs.sample_log(E, 'rvs ' + self.k, size, self.prop, self.dtype)


def _sample_log(self, E, what, size, prop, d):
    E.ghost.setdefault('draws', []).append((self.src, what))
    return self.sample(E, size, prop, d)


RngObj.sample_log = _sample_log


class LabelBin(NatObj):
    """sklearn LabelBinarizer fitted on the labels 0..K-1 in order"""
    tyname = 'sklearn.preprocessing.LabelBinarizer'

    def py_getattr(self, E, name):
        if name == 'fit':
            return Native('LabelBinarizer.fit', lambda E, a, k: self.fit(E, a[0]))
        if name == 'transform':
            return Native('LabelBinarizer.transform', lambda E, a, k: self.transform(E, a[0]))
        if name == 'inverse_transform':
            return Native('LabelBinarizer.inverse_transform', lambda E, a, k: self.inverse(E, a[0]))
        if name == 'classes_':
            if 'K' not in self.f:
                E.raise_('AttributeError', 'classes_')
            return E.arr((self.f['K'],), lambda i: i, 'i')
        raise Unsupported('LabelBinarizer.' + name)

    def fit(self, E, y):
        s = E.to_seq(y)
        if s.concrete and not s.items:
            E.raise_('ValueError', 'y has 0 samples')
        n = s.n
        if not E.decide(zint(n) >= 1):
            E.raise_('ValueError', 'y has 0 samples')
        if s.concrete:
            ok = E.and_(*[E.eq(s.items[i], i) for i in range(len(s.items))])
        else:
            ok = E.all_over(n, lambda k: E.eq(s.get(k), k))
        if not (ok is True or E.implied(ok)):
            raise Unsupported('LabelBinarizer fitted on labels other than 0..K-1')
        E.setf(self, 'K', n)
        return self

    def transform(self, E, y):
        s = E.to_seq(y)
        K = self.f['K']
        n = s.n
        a = E.seq_arr(s) if not s.concrete else E.to_arr(PList(s))
        v = a.v
        one = E.decide(zint(K) == 1)
        if one:
            return E.arr((n, 1), lambda i, j: 0, 'i')
        if E.decide(zint(K) == 2):
            return E.arr((n, 1), lambda i, j: E.vite(f_cmp('==', v.at(i), 1), 1, 0), 'i')
        return E.arr((n, K), lambda i, j: E.vite(f_cmp('==', v.at(i), j), 1, 0), 'i')

    def inverse(self, E, Y):
        v = E.to_arr(Y).v
        K = self.f['K']
        n = v.shape[0]
        if E.decide(zint(K) == 1):
            return E.arr((n,), lambda i: 0, 'i')
        if E.decide(zint(K) == 2):
            if v.ndim == 2:
                if not E.decide(zint(v.shape[1]) == 1):
                    raise Unsupported('binary LabelBinarizer with several columns')
                return E.arr((n,), lambda i: E.vite(f_cmp('>', v.at(i, 0), 0.5), 1, 0), 'i')
            return E.arr((n,), lambda i: E.vite(f_cmp('>', v.at(i), 0.5), 1, 0), 'i')
        if v.ndim != 2:
            E.raise_('ValueError', 'needs a 2-d indicator matrix')
        return E.np_argmax(Y, 1)

    def py_copy(self, E, deep):
        r = LabelBin()
        r.f.update(self.f)
        return r


def install(E):
    N = E.natives

    def uniform(E, a, k):
        loc = a[0] if a else k.get('loc', 0.0)
        sc = a[1] if len(a) > 1 else k.get('scale', 1.0)
        hi = zreal(loc) + zreal(sc)
        return RvsObj('uniform', 'f', lambda x: z3.And(x >= zreal(loc), z3.Or(x < hi, x == zreal(loc))))

    def randint(E, a, k):
        lo, hi = a[0], a[1]
        return RvsObj('randint', 'i', lambda x: z3.And(x >= zint(E.to_int(lo)), x < zint(E.to_int(hi))))

    def discrete(E, a, k):
        vals = k.get('values') or a[0]
        xs = E.to_seq(E.force(vals)[0])
        n = xs.n
        # support is the first component; range(n) in this package
        ok = E.all_over(n, lambda q: E.eq(xs.get(q), q)) if not xs.concrete else E.and_(*[E.eq(x, i) for i, x in enumerate(xs.items)])
        if not (ok is True or E.implied(ok)):
            raise Unsupported('rv_discrete on values other than range(n)')
        return RvsObj('discrete', 'i', lambda x: z3.And(x >= 0, x < zint(n)))
    for p in ('scipy.stats.distributions.', 'scipy.stats.'):
        N[p + 'uniform'] = uniform
        N[p + 'randint'] = randint
        N[p + 'rv_discrete'] = discrete
    N['sklearn.preprocessing.LabelBinarizer'] = lambda E, a, k: LabelBin()
