"""C10: the suggestion is the decoding of the candidate with the best acquisition value."""
from .opt import *

NOTE = ('one fitting report from any state, arbitrary acquisition values: the stored suggestion decodes the candidate of smallest value among all sampled '
        '(and, with gradients, the best local minimum, no worse than any sample); portfolio nominees, credits and selection probabilities proved')
ASSUME = ['transforms of sampled points lie in the transformed bounds (C02, C03)', 'a local search returns a point within its bounds together with its value, no worse than where it started (scipy)',
          'points are lists of scalars']


def setup(E, acq, acq_opt, shape, asked=True):
    o = full_optimizer(E, acq, acq_opt, queue='none', asked=asked)
    x, y, k, px, py = told(E, o, shape)
    E.assume(o.n0 - zint(k) <= 0)
    # C02/C03: candidates are transforms of points of the space
    E.rule_for(o.W, lambda p, j: z3.And(o.LO(j) <= o.W(p, j), o.W(p, j) <= o.HI(j)))
    o.search = []
    MX = z3.Function('MINX', I, I, I, R)
    MF = z3.Function('MINF', I, I, R)
    o.MX, o.MF = MX, MF

    def lbfgs(E, a, k):
        names = ['func', 'x0', 'fprime', 'args']
        v = dict(zip(names, a))
        v.update(k)
        c = len(o.acqs)
        idx = E.ctx[-1] if E.ctx else z3.IntVal(0)
        o.search.append((v, idx, c, list(E.ctx)))
        xv = E.to_arr(v['x0'])
        return (E.arr((o.T,), lambda j: MX(c, idx, zint(j)), 'f'), MF(c, idx), PDict())
    for p in ('scipy.optimize.fmin_l_bfgs_b',):
        E.natives[p] = lbfgs
    return o, x, y, k


def incumbent(E, o, Y):
    """the smallest recorded value (without durations)"""
    return Y


def same_row(E, o, row, X, i):
    j = E.Int('col')
    return lambda j: E.eq(row.at(j), X.v.at(i, j))


def sampling(acq, shape):
    def c(E):
        o, x, y, k = setup(E, acq, 'sampling', shape)
        f = o.inst.f
        gains = list(o.G) if acq == 'gp_hedge' else None
        E.call(E.getattr(o.inst, '_tell'), [x, y], {})
        new = o.clones[0][1]
        g = E.ghost
        cands = f['cand_acq_funcs_'].f['seq'].items
        E.require('every member of the portfolio is evaluated once', len(o.acqs) == len(cands))
        dr = g['drawn']
        E.require('candidates are drawn from the space with the own generator', len(dr) == 1 and dr[0][0] is f['rng'])
        E.prove('as many as configured', zint(dr[0][1]) == o.np)
        rows = []
        for r, ((v, X, F), nm) in enumerate(zip(o.acqs, cands)):
            E.require('%s is evaluated' % nm, v['acq_func'] == nm)
            E.require('by the model just fitted', v['model'] is new)
            E.require('with the given settings', v['acq_func_kwargs'] is o.kwargs)
            E.prove('on every candidate', zint(X.v.shape[0]) == o.np)
            one_incumbent(E, o, r, v['y_opt'], f['yi'])
            j = E.Int('col')
            E.assume(z3.And(j >= 0, j < o.T))
            E.prove_forall('candidate i is the transform of drawn point i', o.np, lambda i: zreal(X.v.at(i, j)) == o.W(dr[0][2](zint(i)), j))
        nx = f['next_xs_']
        E.prove('one nominee per member', zint(E.length(nx)) == len(cands))
        for r, ((v, X, F), nm) in enumerate(zip(o.acqs, cands)):
            row = E.to_arr(E.force(at(E, nx, r))).v
            check_nominee(E, o, row, X, F, nm)
        finish(E, o, acq, gains, new)
    return c


def check_nominee(E, o, row, X, F, nm):
    E.require('%s nominates a point' % nm, len(row.shape) == 1)
    # some candidate no other candidate beats has exactly these coordinates
    b = z3.Int('best!%d' % E.uid())
    q = z3.Int('bq!%d' % E.uid())
    hyp = z3.And(b >= 0, b < o.np, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < o.np), F(b) <= F(q))))
    first = z3.And(hyp, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < b), F(b) < F(q))))
    E.assume(first)     # the first minimum exists: a finite non-empty set of numbers
    E.prove('%s nominee has the transformed dimension' % nm, zint(row.shape[0]) == o.T)
    E.prove_forall('%s nominates the first best candidate' % nm, o.T, lambda j: E.eq(row.at(j), X.v.at(b, j)))


def one_incumbent(E, o, r, y, yi):
    if r == 0:
        o.inc = y
        check_incumbent(E, o, y, yi)
    else:
        E.prove('incumbent: the same for every member', zreal(y) == zreal(o.inc))


def check_incumbent(E, o, y, yi):
    n = E.length(yi)

    def val(i):
        v = E.force(at(E, yi, i))
        return pair(v)[0] if o.ps else v
    E.prove_forall('incumbent: no recorded value is smaller', n, lambda i: zreal(y) <= zreal(val(i)))
    q = z3.Int('iq!%d' % E.uid())
    vq = E.formula_of(lambda i: zreal(y) == zreal(val(i)), q, z3.And(q >= 0, q < zint(n)))
    E.prove('incumbent: a recorded value', z3.Exists([q], z3.And(q >= 0, q < zint(n), zbool(vq))))


def finish(E, o, acq, gains, new, probs=True):
    """portfolio credit and choice, and decoding"""
    f, g = o.inst.f, E.ghost
    nx = f['next_xs_']
    if acq == 'gp_hedge':
        ps = g.get('pred', [])
        E.require('nominees of the last round are predicted once', len(ps) == (1 if gains_round(o) else 0))
        G2 = E.to_arr(f['gains_']).v
        if ps:
            e, X, P = ps[0]
            E.require('by the model just fitted', e is new)
            E.prove('all three', zint(X.v.shape[0]) == 3)
            for i in range(3):
                E.prove_forall('nominee %d is the previous one' % i, o.T, lambda j: E.eq(X.v.at(i, j), o.NX(i, zint(j))))
            for i in range(3):
                E.prove('credit %d: negated prediction added' % i, zreal(G2.at(i)) == o.G[i] - P(i))
        else:
            for i in range(3):
                E.prove('credit %d unchanged' % i, zreal(G2.at(i)) == o.G[i])
        mu = g.get('multinomial', [])
        E.require('one draw with the own generator', len(mu) == 1 and mu[0][0] == 'own')
        p = mu[0][1].v
        E.prove('one probability per member', zint(p.shape[0]) == 3)
        if not probs:
            return
        pr = [zreal(p.at(i)) for i in range(3)]
        E.prove('probabilities sum to one', pr[0] + pr[1] + pr[2] == 1)
        for i in range(3):
            E.prove('probability %d is positive' % i, pr[i] > 0)
            for j in range(3):
                if i != j:
                    E.prove('larger credit %d>%d is favoured' % (i, j), z3.Implies(zreal(G2.at(i)) > zreal(G2.at(j)), pr[i] > pr[j]))
        r = mu[0][2]

        sel = lambda j: [E.to_arr(E.force(at(E, nx, i))).v.at(j) for i in range(3)]
        un = g['unwarped']
        E.require('one decoding', len(un) == 1)
        X, fn = un[0]
        E.prove('one point decoded', zint(X.v.shape[0]) == 1)
        for i in range(3):
            E.prove_forall('the drawn nominee is decoded (%d)' % i, o.T, lambda j: z3.Implies(r == i, zreal(X.v.at(0, j)) == zreal(sel(j)[i])))
    else:
        un = g['unwarped']
        E.require('one decoding', len(un) == 1)
        X, fn = un[0]
        row = E.to_arr(E.force(at(E, nx, 0))).v
        E.prove('one point decoded', zint(X.v.shape[0]) == 1)
        E.prove_forall('the nominee is decoded', o.T, lambda j: E.eq(X.v.at(0, j), row.at(j)))
    E.prove('the suggestion is the decoded point', E.eq(f['_next_x'], fn(0)))


def gains_round(o):
    return hasattr(o, 'NX')


def lbfgs(acq, shape, cat=False):
    def c(E):
        o, x, y, k = setup(E, acq, 'lbfgs', shape)
        f = o.inst.f
        gains = list(o.G) if acq == 'gp_hedge' else None
        if acq == 'gp_hedge':       # the other members go through the same code once per member
            E.assume(o.nr <= o.np)
            E.assume(o.allcat if cat else z3.Not(o.allcat))
        E.call(E.getattr(o.inst, '_tell'), [x, y], {})
        new = o.clones[0][1]
        cands = f['cand_acq_funcs_'].f['seq'].items
        E.require('every member of the portfolio is evaluated once', len(o.acqs) == len(cands))
        nx = f['next_xs_']
        E.prove('one nominee per member', zint(E.length(nx)) == len(cands))
        nr = z3.If(o.nr < o.np, o.nr, o.np)      # starting points
        E.require('local searches are made', bool(o.search))
        for r, ((v, X, F), nm) in enumerate(zip(o.acqs, cands)):
            E.require('%s is evaluated by the model just fitted' % nm, v['acq_func'] == nm and v['model'] is new and v['acq_func_kwargs'] is o.kwargs)
            one_incumbent(E, o, r, v['y_opt'], f['yi'])
            c_ = r + 1
            ss = [s for s in o.search if s[2] == c_]
            E.require('%s: searches from the best candidates' % nm, bool(ss))
            for sv, idx, _, ctx in ss[:1]:
                ar = sv['args']
                fn = sv['func']
                E.require('%s: the acquisition function is minimised' % nm, getattr(fn, 'qual', '') == 'skopt.acquisition:gaussian_acquisition_1D')
                E.require('%s: with model, incumbent and settings' % nm, ar[0] is new and ar[2] == nm and ar[3] is o.kwargs)
                E.prove('%s: same incumbent' % nm, zreal(ar[1]) == zreal(v['y_opt']))
                bd = sv['bounds']
                E.prove('%s: one bound per column' % nm, zint(E.length(bd)) == o.T)
                E.prove_forall('%s: within the transformed bounds' % nm, o.T,
                               lambda j: (lambda b: E.and_(E.eq(b[0], o.LO(zint(j))), E.eq(b[1], o.HI(zint(j)))))(pair(E.force(at(E, bd, j)))))
            # the library contract: start s is where local search s began
            S0 = z3.Function('START!%d' % c_, I, I)
            a = z3.Int('sa!%d' % c_)
            row = E.to_arr(E.force(at(E, nx, r))).v
            E.prove('%s nominee has the transformed dimension' % nm, zint(row.shape[0]) == o.T)
            b = z3.Int('lbest!%d' % c_)
            q = z3.Int('lq!%d' % c_)
            E.assume(z3.And(b >= 0, b < nr, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < nr), o.MF(c_, b) <= o.MF(c_, q)),),
                            z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < b), o.MF(c_, b) < o.MF(c_, q)))))
            j = E.Int('col')
            E.assume(z3.And(j >= 0, j < o.T))
            E.assume(z3.And(o.LO(j) <= o.MX(c_, b, j), o.MX(c_, b, j) <= o.HI(j)))
            E.prove('%s nominates the best local minimum' % nm, zreal(row.at(j)) == o.MX(c_, b, j))
        if acq != 'gp_hedge':
            finish(E, o, acq, gains, new)
    return c


def starts(acq):
    """the starting points of the local searches are the best candidates, the very best first"""
    def c(E):
        o, x, y, k = setup(E, acq, 'lbfgs', 'point')
        f = o.inst.f
        E.assume(o.n0 - zint(k) <= 0)

        def lb(E, a, k):
            names = ['func', 'x0', 'fprime', 'args']
            v = dict(zip(names, a))
            v.update(k)
            o.search.append(v)
            _, X, F = o.acqs[-1]
            x0 = E.to_arr(v['x0']).v
            idx = E.ctx[-1] if E.ctx else 0
            b, q = z3.Int('b!%d' % E.uid()), z3.Int('q!%d' % E.uid())
            jj = E.Int('col')
            E.assume(z3.And(jj >= 0, jj < o.T))
            if not E.ctx:
                E.require('the searches run over the starting points', False)
            E.assume(z3.And(b >= 0, b < o.np, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < o.np, q != b), F(b) < F(q)))))
            for _, p_, q_ in E.ghost.get('argsort', [])[-1:]:
                E.assume(E.Int('place') == q_(b))       # names the place of b in the order
            E.prove('search 0 starts where the acquisition is smallest', z3.Implies(zint(idx) == 0, zreal(x0.at(jj)) == zreal(X.v.at(b, jj))))
            return (E.arr((o.T,), lambda j: o.MX(len(o.acqs), zint(idx), zint(j)), 'f'), o.MF(len(o.acqs), zint(idx)), PDict())
        E.natives['scipy.optimize.fmin_l_bfgs_b'] = lb
        E.call(E.getattr(o.inst, '_tell'), [x, y], {})
        E.require('local searches are made', bool(o.search))
    return c


CONTRACTS = []
for acq in ('EI', 'gp_hedge', 'EIps'):
    CONTRACTS += [('%s sampled candidates, %s' % (acq, s), sampling(acq, s)) for s in ('point', 'batch')]
    if acq != 'gp_hedge':
        CONTRACTS += [('%s local searches, %s' % (acq, s), lbfgs(acq, s)) for s in ('point', 'batch')]
CONTRACTS += [('gp_hedge local searches, categories only: %s' % c, lbfgs('gp_hedge', 'point', c)) for c in (True, False)]
CONTRACTS.append(('starting points of the local searches', starts('EI')))
