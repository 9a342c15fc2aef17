"""C15: acquisition gradients are the derivatives of the values returned with them."""
from .c14 import *

NOTE = ('for every dimension count, mean, deviation, model gradients, incumbent, xi and kappa the returned gradient is proved equal to the derivative computed by the '
        'differentiation rules from the value the code itself returns; with a zero deviation it is zero; the value is the one returned without a gradient')
ASSUME = ASSUME + ['the model gradients of mean and deviation are correct (C17)', 'differentiation rules: sums, products, quotients, exp, cdf\' = pdf, pdf\'(t) = -t pdf(t)']


def derive(t, D, E=None):
    """derivative of the term t; D gives the derivatives of the model's own predictions"""
    k = t.get_id()
    for a, d in D:
        if a.eq(t):
            return d
    if z3.is_rational_value(t) or z3.is_int_value(t):
        return z3.RealVal(0)
    nm, ch = t.decl().name(), t.children()
    kind = t.decl().kind()
    if kind == z3.Z3_OP_UNINTERPRETED and not ch:
        return z3.RealVal(0)
    if kind == z3.Z3_OP_ADD:
        return z3.Sum(*[derive(c, D, E) for c in ch])
    if kind == z3.Z3_OP_SUB:
        r = derive(ch[0], D, E)
        for c in ch[1:]:
            r = r - derive(c, D, E)
        return r
    if kind == z3.Z3_OP_UMINUS:
        return -derive(ch[0], D, E)
    if kind == z3.Z3_OP_MUL:
        parts = []
        for i in range(len(ch)):
            p = derive(ch[i], D, E)
            for j, c in enumerate(ch):
                if j != i:
                    p = p * c
            parts.append(p)
        return z3.Sum(*parts) if len(parts) > 1 else parts[0]
    if kind == z3.Z3_OP_DIV:
        a, b = ch
        return (derive(a, D, E) * b - a * derive(b, D, E)) / (b * b)
    if kind == z3.Z3_OP_POWER:
        n = ch[1]
        if z3.is_rational_value(n) or z3.is_int_value(n):
            return n * (ch[0] ** (n - 1)) * derive(ch[0], D, E)
    if nm == 'NCDF':
        return NPDF(ch[0]) * derive(ch[0], D, E)
    if nm == 'NPDF':
        return -ch[0] * NPDF(ch[0]) * derive(ch[0], D, E)
    if nm == 'EXP':
        return t * derive(ch[0], D, E)
    if kind == z3.Z3_OP_ITE:
        # the side that applies here (the deviation being positive is an open condition)
        if E.implied(ch[0]):
            return derive(ch[1], D, E)
        if E.implied(z3.Not(ch[0])):
            return derive(ch[2], D, E)
        raise Unsupported('derivative across a case distinction')
    raise Unsupported('derivative of ' + nm)


def gradient(call, ps=False, kappa_inf=False, one_d=False):
    def c(E):
        s = scene(E, one=True)
        v, g = call(E, s, True)
        plainv = call(E, s, False) if not one_d else None
        V, G = E.to_arr(v).v, E.to_arr(g).v
        E.require('one value', len(V.shape) == 1)
        E.prove('one value', zint(V.shape[0]) == 1)
        E.require('one derivative per coordinate', len(G.shape) == 1)
        E.prove('one derivative per coordinate', zint(G.shape[0]) == s.d)
        j = E.Int('j')
        E.assume(z3.And(j >= 0, j < s.d))
        z = z3.IntVal(0)
        D = [(s.model.MU(z), s.grads[0](j)), (s.model.SD(z), s.grads[1](j))]
        if ps:
            D += [(s.time.MU(z), s.tgrads[0](j)), (s.time.SD(z), s.tgrads[1](j))]
        pos = E.decide(s.model.SD(z) > 0)
        val = E.simp(zreal(V.at(0)))
        val = zreal(val) if not z3.is_expr(val) else val
        if pos or kappa_inf is not None and kappa_inf != 'no':
            E.prove('gradient is the derivative of the value', zreal(G.at(j)) == derive(z3.simplify(val), D, E))
        else:
            E.prove('zero deviation: zero gradient', zreal(G.at(j)) == 0)
        if plainv is not None:
            E.prove('asking for the gradient leaves the value as it is', zreal(E.to_arr(plainv).v.at(0)) == val)
    return c


def direct(fn, kappa=None):
    def call(E, s, grad):
        kw = dict(return_grad=True) if grad else {}
        if fn == 'gaussian_lcb':
            kw['kappa'] = kappa or s.kappa
        else:
            kw.update(y_opt=s.y, xi=s.xi)
        r = E.force(E.call(E.resolve(AQ + fn), [s.X, s.model], kw))
        return (E.force(E.getitem(r, 0)), E.force(E.getitem(r, 1))) if grad else r
    return call


def wrapped(name, kappa=None, one_d=False):
    def call(E, s, grad):
        kw = PDict()
        kw.f['d'] = dict(xi=s.xi, kappa=kappa or s.kappa)
        model = Pair(s.model, s.time) if name.endswith('ps') else s.model
        if one_d:
            r = E.call(E.resolve(AQ + 'gaussian_acquisition_1D'), [E.arr((s.d,), lambda j: s.XF(0, zint(j)), 'f'), model, s.y, name, kw], {})
        else:
            r = E.call(E.resolve(AQ + '_gaussian_acquisition'), [s.X, model], dict(y_opt=s.y, acq_func=name, acq_func_kwargs=kw, **(dict(return_grad=True) if grad else {})))
        r = E.force(r)
        return (E.force(E.getitem(r, 0)), E.force(E.getitem(r, 1))) if grad else r
    return call


CONTRACTS = [('gaussian_lcb', gradient(direct('gaussian_lcb'))), ('gaussian_lcb, pure exploration', gradient(direct('gaussian_lcb', 'inf'))),
             ('gaussian_pi', gradient(direct('gaussian_pi'), kappa_inf='no')), ('gaussian_ei', gradient(direct('gaussian_ei'), kappa_inf='no'))] + \
            [('acquisition %s' % n, gradient(wrapped(n), n.endswith('ps'), 'no' if n != 'LCB' else False)) for n in ('LCB', 'EI', 'PI', 'EIps', 'PIps')] + \
            [('acquisition LCB, pure exploration', gradient(wrapped('LCB', 'inf')))] + \
            [('what the local search minimises: %s' % n, gradient(wrapped(n, one_d=True), n.endswith('ps'), 'no' if n != 'LCB' else False, one_d=True)) for n in ('LCB', 'EI', 'PI', 'EIps', 'PIps')]
