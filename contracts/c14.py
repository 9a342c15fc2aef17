"""C14: acquisition values are the closed forms of their names, candidate by candidate."""
from .opt import *
from .c07 import exc_is
from pvc.solve import EXP, NCDF, NPDF

NOTE = ('all acquisition functions proved equal to their closed forms for every number of candidates, every predicted mean and deviation (zeros included), incumbent, xi and kappa; '
        'non-negativity from the stated facts about the normal distribution; floating-point effects only in the bounded supplement')
ASSUME = ['predictions are vectors of real numbers with non-negative deviations', 'scipy.stats.norm.cdf / pdf are the standard normal distribution function and density '
          '(used: 0<cdf<1, pdf>0, x*cdf(x)+pdf(x)>0)']
AQ = 'skopt.acquisition:'


class Model(NatObj):
    """a surrogate that predicts the given mean and deviation for each row"""
    tyname = 'sklearn.base.BaseEstimator'

    def __init__(self, E, tag, n, X, grads=None):
        NatObj.__init__(self)
        self.MU, self.SD = z3.Function('MU' + tag, I, R), z3.Function('SD' + tag, I, R)
        E.rule_for(self.SD, lambda i: self.SD(i) >= 0)
        self.n, self.X, self.grads, self.tag = n, X, grads, tag
        self.asked = []

    def py_subst(self, E, sub):
        return self

    def py_getattr(self, E, name):
        if name == 'predict':
            return Native('predict', self.predict)
        raise Unsupported('model.' + name)

    def predict(self, E, a, k):
        names = ['X', 'return_std', 'return_cov', 'return_mean_grad', 'return_std_grad']
        v = dict(zip(names, a))
        v.update(k)
        X = E.to_arr(v['X']).v
        E.prove('the candidates are predicted', zint(X.shape[0]) == zint(self.n))
        i, j = E.Int('row'), E.Int('col')
        E.prove('the candidates are predicted', z3.Implies(z3.And(i >= 0, i < zint(self.n)), zreal(X.at(i, j)) == self.X(i, j)))
        out = [E.arr((self.n,), lambda i: self.MU(zint(i)), 'f')]
        if E.truth(v.get('return_std', False)):
            out.append(E.arr((self.n,), lambda i: self.SD(zint(i)), 'f'))
        if E.truth(v.get('return_mean_grad', False)):
            out.append(E.arr((self.grads[2],), lambda j: self.grads[0](zint(j)), 'f'))
        if E.truth(v.get('return_std_grad', False)):
            out.append(E.arr((self.grads[2],), lambda j: self.grads[1](zint(j)), 'f'))
        return tuple(out) if len(out) > 1 else out[0]


class Pair(NatObj):
    tyname = 'sklearn.base.BaseEstimator'

    def __init__(self, m, t):
        NatObj.__init__(self)
        self.m, self.t = m, t

    def py_subst(self, E, sub):
        return self

    def py_getattr(self, E, name):
        if name == 'estimators_':
            return PList([self.m, self.t])
        raise Unsupported('model.' + name)


def scene(E, one=False):
    s = O()
    s.d = E.Int('d')
    E.assume(s.d >= 1)
    s.n = 1 if one else E.Int('n')
    if not one:
        E.assume(s.n >= 0)
    s.XF = z3.Function('X', I, I, R)
    if one:
        s.grads = (z3.Function('DMU', I, R), z3.Function('DSD', I, R), s.d)
        s.tgrads = (z3.Function('DMUt', I, R), z3.Function('DSDt', I, R), s.d)
    else:
        s.grads = s.tgrads = None
    s.X = E.arr((s.n, s.d), lambda i, j: s.XF(zint(i), zint(j)), 'f')
    s.model = Model(E, '', s.n, s.XF, s.grads)
    s.time = Model(E, 't', s.n, s.XF, s.tgrads)
    s.y, s.xi, s.kappa = E.Real('y_opt'), E.Real('xi'), E.Real('kappa')
    s.mu, s.sd = (lambda i: s.model.MU(zint(i))), (lambda i: s.model.SD(zint(i)))
    return s


def pi_form(s, i):
    t = (s.y - s.xi - s.mu(i)) / s.sd(i)
    return z3.If(s.sd(i) > 0, NCDF(t), z3.RealVal(0))


def ei_form(s, i):
    u = s.y - s.xi - s.mu(i)
    t = u / s.sd(i)
    return z3.If(s.sd(i) > 0, u * NCDF(t) + s.sd(i) * NPDF(t), z3.RealVal(0))


def lcb_form(s, i, kappa):
    return -s.sd(i) if isinstance(kappa, str) else s.mu(i) - kappa * s.sd(i)


def rate(s, i):
    m, d = s.time.MU(zint(i)), s.time.SD(zint(i))
    return EXP(-m + z3.RealVal('1/2') * (d * d))


def cell(E, s, want, r):
    """element i of the result, generic i, against want(i), separately with and without deviation"""
    v = E.to_arr(r).v
    E.require('one value per candidate', len(v.shape) == 1)
    E.prove('one value per candidate', zint(v.shape[0]) == zint(s.n))
    i = E.Int('i')
    E.assume(z3.And(i >= 0, i < zint(s.n)))
    if E.decide(s.sd(i) > 0):
        E.prove('value with a positive deviation', zreal(v.at(i)) == want(i))
    else:
        E.prove('value with a zero deviation', zreal(v.at(i)) == want(i))
    return v, i


def plain(fn):
    def c(E):
        s = scene(E)
        if fn == 'gaussian_lcb':
            r = E.call(E.resolve(AQ + fn), [s.X, s.model], dict(kappa=s.kappa))
            cell(E, s, lambda i: lcb_form(s, i, s.kappa), r)
        elif fn == 'gaussian_lcb inf':
            r = E.call(E.resolve(AQ + 'gaussian_lcb'), [s.X, s.model], dict(kappa='inf'))
            cell(E, s, lambda i: lcb_form(s, i, 'inf'), r)
        else:
            form = pi_form if fn == 'gaussian_pi' else ei_form
            r = E.call(E.resolve(AQ + fn), [s.X, s.model], dict(y_opt=s.y, xi=s.xi))
            v, i = cell(E, s, lambda i: form(s, i), r)
            E.prove('never negative', zreal(v.at(i)) >= 0)
            if fn == 'gaussian_pi':
                E.prove('never above one', zreal(v.at(i)) <= 1)
    return c


def defaults(fn):
    def c(E):
        s = scene(E)
        if fn == 'gaussian_lcb':
            r = E.call(E.resolve(AQ + fn), [s.X, s.model], {})
            cell(E, s, lambda i: lcb_form(s, i, z3.RealVal('1.96')), r)
        else:
            s.xi, s.y = z3.RealVal('0.01'), z3.RealVal(0)
            r = E.call(E.resolve(AQ + fn), [s.X, s.model], {})
            cell(E, s, lambda i: (pi_form if fn == 'gaussian_pi' else ei_form)(s, i), r)
    return c


def wrap(name, settings):
    """_gaussian_acquisition: the quantity that is minimised"""
    def c(E):
        s = scene(E)
        kw = PDict()
        kappa = s.kappa
        if settings == 'given':
            kw.f['d'] = dict(xi=s.xi, kappa=s.kappa)
        elif settings == 'inf':
            kw.f['d'] = dict(kappa='inf')
            kappa, s.xi = 'inf', z3.RealVal('0.01')
        else:
            kw = None
            kappa, s.xi = z3.RealVal('1.96'), z3.RealVal('0.01')
        ps = name.endswith('ps')
        model = Pair(s.model, s.time) if ps else s.model
        r = E.call(E.resolve(AQ + '_gaussian_acquisition'), [s.X, model], dict(y_opt=s.y, acq_func=name, acq_func_kwargs=kw))

        def want(i):
            if name == 'LCB':
                return lcb_form(s, i, kappa)
            f = -(ei_form if name.startswith('EI') else pi_form)(s, i)
            return f * rate(s, i) if ps else f
        v, i = cell(E, s, want, r)
        if name != 'LCB':
            E.prove('never positive', zreal(v.at(i)) <= 0)
    return c


def refuses(E):
    s = scene(E)
    kind, v = outcome(E, lambda: E.call(E.resolve(AQ + '_gaussian_acquisition'), [s.X, s.model], dict(y_opt=s.y, acq_func='nonsense')))
    E.require('unknown names are refused', kind == 'raise' and exc_is(v, 'ValueError'))
    kind, v = outcome(E, lambda: E.call(E.resolve(AQ + '_gaussian_acquisition'), [E.arr((s.d,), lambda j: s.XF(0, zint(j)), 'f'), s.model], dict(y_opt=s.y, acq_func='EI')))
    E.require('a single point is refused', kind == 'raise' and exc_is(v, 'ValueError'))


CONTRACTS = [(f, plain(f)) for f in ('gaussian_lcb', 'gaussian_lcb inf', 'gaussian_pi', 'gaussian_ei')] + \
            [('%s, default settings' % f, defaults(f)) for f in ('gaussian_lcb', 'gaussian_pi', 'gaussian_ei')] + \
            [('acquisition %s, settings %s' % (n, st), wrap(n, st)) for n in ('LCB', 'EI', 'PI', 'EIps', 'PIps') for st in ('given', 'default')] + \
            [('acquisition LCB, pure exploration', wrap('LCB', 'inf')), ('acquisition refusals', refuses)]
