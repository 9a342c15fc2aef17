"""C04: membership is exact, and the optimizer refuses bad observations without a trace."""
from .opt import *
from .c01 import cats

NOTE = ('membership decided exactly by every dimension class and by Space for any number of dimensions; every refused tell proved to '
        'leave points, values, counters, models and cache as they were, for every history and every batch; points are lists of scalars')
ASSUME = ['points are lists (or lists of lists); coordinates are scalars',
          'the acceptance half uses the abstract dimension: any membership predicate per dimension']


def num(kind, vs):
    def c(E):
        mk = real_dim if kind == 'Real' else int_dim
        for prior in ('uniform', 'log-uniform'):
            for tr in ('identity', 'normalize'):
                d, lo, hi, b = mk(E, prior, tr, tag='%s%s' % (prior, tr))
                v = E.Real('v') if vs == 'real' else E.Int('v')
                r = E.contains(d, v)
                E.prove('%s %s' % (prior, tr), zbool(r) == z3.And(lo <= v, v <= hi))
    return c


def cat(sort, tr):
    def c(E):
        K, C = cats(E, sort)
        IDX = z3.Function('IDX', sort, I)
        v = E.fresh('v', sort)
        d = E.call(E.resolve(SPACE + 'Categorical'), [PList(Seq(n=K, get=lambda i: C(zint(i))))], dict(transform=tr))
        q = E.Int('q')
        E.assume(z3.And(q >= 0, q < K))
        E.prove('each category is inside', zbool(E.contains(d, C(q))))
        E.prove('whatever is inside is a category',
                z3.Implies(zbool(E.contains(d, v)), z3.And(IDX(v) >= 0, IDX(v) < K, C(IDX(v)) == v)))
    return c


def space(E):
    D = E.Int('D')
    E.assume(D >= 1)
    sp, MEM = mem_space(E, D)
    point_hooks(E)
    x = E.fresh('x', U)
    E.assume(LEN(x) == D)
    r = E.contains(sp, x)
    E.prove('inside exactly when every coordinate is', zbool(r) == member_f(E, MEM, D, x))


def check_point(E):
    D = E.Int('D')
    E.assume(D >= 1)
    sp, MEM = mem_space(E, D)
    point_hooks(E)
    x = E.fresh('x', U)
    E.assume(LEN(x) >= 1)
    k, v = outcome(E, lambda: E.call(E.resolve('skopt.utils:check_x_in_space'), [x, sp], {}))
    if k == 'ok':
        E.prove('accepted points are inside', member_f(E, MEM, D, x))
    else:
        E.require('refused by ValueError', exc_is(v, 'ValueError'))
        E.prove('only points outside are refused', z3.Not(member_f(E, MEM, D, x)))


def check_batch(E):
    D, m = E.Int('D'), E.Int('m')
    E.assume(D >= 1)
    E.assume(m >= 1)
    sp, MEM = mem_space(E, D)
    point_hooks(E)
    PT = z3.Function('PT', I, U)
    b = PList(Seq(n=m, get=lambda i: PT(zint(i))))
    k, v = outcome(E, lambda: E.call(E.resolve('skopt.utils:check_x_in_space'), [b, sp], {}))
    if k == 'ok':
        E.prove_forall('accepted batches are inside', m, lambda i: member_f(E, MEM, D, PT(zint(i))))
    else:
        E.require('refused by ValueError', exc_is(v, 'ValueError'))
        q = z3.Int('bq!%d' % E.uid())
        E.prove('only batches with a point outside are refused',
                z3.Not(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m), member_f(E, MEM, D, PT(q))))))


def exc_is(e, *names):
    c = getattr(e, 'cls', None)
    n = getattr(c, 'path', getattr(c, 'name', ''))
    return any(n.endswith(x) for x in names)


STATE = ('Xi', 'yi', '_n_initial_points', 'models', 'cache_', 'space', 'acq_func')


def refused(acq, shape):
    def c(E):
        D = E.Int('D')
        E.assume(D >= 1)
        sp, MEM = mem_space(E, D)
        point_hooks(E)
        o = bare_optimizer(E, acq, sp)
        before = dict(o.inst.f)
        content = {k: snapshot(E, o.inst.f[k]) for k in ('Xi', 'yi', 'models', 'cache_')}
        m, my = E.Int('m'), E.Int('my')
        E.assume(m >= 1)
        E.assume(my >= 0)
        PT, VAL, DUR = z3.Function('PT', I, U), z3.Function('VAL', I, R), z3.Function('DUR', I, R)
        E.rule_for(DUR, lambda i: DUR(i) > 0)
        if shape == 'point':
            x = E.fresh('x', U)
            E.assume(LEN(x) >= 1)
            y = (E.Real('val'), E.Real('dur')) if o.ps else E.Real('val')
            if o.ps:
                E.assume(y[1] > 0)
            good = member_f(E, MEM, D, x)
        elif shape == 'batch':
            x = PList(Seq(n=m, get=lambda i: PT(zint(i))))
            y = PList(Seq(n=my, get=(lambda i: (VAL(zint(i)), DUR(zint(i)))) if o.ps else (lambda i: VAL(zint(i)))))
            q = z3.Int('bq!%d' % E.uid())
            good = z3.And(m == my, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < m), member_f(E, MEM, D, PT(q)))))
        elif shape == 'point with several values':
            x = E.fresh('x', U)
            E.assume(LEN(x) >= 1)
            y = PList(Seq(n=my, get=lambda i: VAL(zint(i))))
            if o.ps:
                E.assume(my != 2)
            good = z3.BoolVal(False)
        elif shape == 'batch with one value':
            x = PList(Seq(n=m, get=lambda i: PT(zint(i))))
            y = E.Real('val')
            good = z3.BoolVal(False)
        # the accepted part of tell is C05's business: here it only marks that it was reached
        reached = []

        def accepted(E, a, k):
            reached.append(1)
            return None
        E.overrides[OPT + 'Optimizer._tell'] = accepted
        k, v = outcome(E, lambda: E.call(E.getattr(o.inst, 'tell'), [x, y], {}))
        E.require('refusal is an error', (k == 'raise') == (not reached))
        if k == 'raise':
            E.require('refused by ValueError or TypeError', exc_is(v, 'ValueError', 'TypeError'))
            E.prove('valid observations are not refused', z3.Not(good))
        else:
            E.prove('whatever is accepted is valid', good)
        for n in STATE:
            E.require('%s is still the same object' % n, o.inst.f.get(n) is before[n] or (is_z3(before[n]) and before[n].eq(o.inst.f.get(n))))
        for n, s in content.items():
            E.require('%s has the same content' % n, same_snapshot(E, o.inst.f[n], s))
    return c


def snapshot(E, v):
    if isinstance(v, PList):
        return v.f['seq']
    return (dict(v.f['d']), v.f['sym'])


def same_snapshot(E, v, s):
    t = snapshot(E, v)
    return t is s or t == s


CONTRACTS = [('Real real', num('Real', 'real')), ('Real int', num('Real', 'int')), ('Integer int', num('Integer', 'int')),
             ('Integer real', num('Integer', 'real')), ('Space', space), ('check_x_in_space point', check_point), ('check_x_in_space batch', check_batch)]
for acq in ('EI', 'gp_hedge', 'EIps'):
    for shape in ('point', 'batch', 'point with several values', 'batch with one value'):
        CONTRACTS.append(('tell %s %s' % (acq, shape), refused(acq, shape)))
for tr in ('onehot', 'label', 'identity', 'normalize'):
    CONTRACTS += [('Categorical object ' + tr, cat(U, tr)), ('Categorical int ' + tr, cat(I, tr))]
