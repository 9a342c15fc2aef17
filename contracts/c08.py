"""C08: the retained-model list holds the newest models, up to its limit."""
from .opt import *

NOTE = 'one report, from any state: the list is the old list followed by the newly fitted model, cut to the newest `limit`; the new model is a fresh clone fitted on the whole record; no fitting leaves it alone'
ASSUME = ['limit at least one; clone and fit behave as scikit-learn documents']


def tell(acq, shape, queue, acq_opt='sampling'):
    def c(E):
        o = full_optimizer(E, acq, acq_opt, queue=queue)
        f = o.inst.f
        x, y, k, px, py = told(E, o, shape)
        fit = E.Bool('fit')
        MODEL = z3.Function('MODEL', I, U)
        old = f['models'].f['seq']
        E.call(E.getattr(o.inst, '_tell'), [x, y, fit], {})
        ms = f['models']
        E.require('models kept in a list', isinstance(ms, PList))
        n = E.length(ms)
        should = E.decide(z3.And(fit, o.n0 - zint(k) <= 0))
        if not should:
            E.require('nothing is fitted', not o.clones)
            E.prove('as many models as before', zint(n) == o.m)
            E.prove_forall('the same models', o.m, lambda i: E.eq(at(E, ms, i), MODEL(zint(i))))
            return
        E.require('one model is fitted', len(o.clones) == 1)
        src, new = o.clones[0]
        E.require('a fresh clone of the estimator', src is o.base)
        drop = z3.IntVal(0)
        if queue == 'limit':
            E.prove('never more than the limit', zint(n) <= o.limit)
            drop = z3.If(o.m < o.limit, z3.IntVal(0), z3.IntVal(1))
        E.prove('old models and the new one, cut to the limit', zint(n) == o.m + 1 - drop)
        E.prove_forall('the newest of the old models in order', o.m - drop, lambda i: E.eq(at(E, ms, i), MODEL(zint(i) + drop)))
        last = E.force(E.getitem(ms, -1)) if hasattr(E, 'getitem') else E.force(at(E, ms, zint(n) - 1))
        E.require('the new model is the last', last is new)
        E.require('it was fitted', new.f['fit'] is not None)
        X, Y = new.f['fit']
        E.prove('fitted on one row per observation', zint(X.v.shape[0]) == o.n + zint(k))
        tot = o.n + zint(k)
        T = o.T
        j = E.Int('col')
        E.assume(z3.And(j >= 0, j < T))
        E.prove_forall('row i is the transform of point i', tot, lambda i: zreal(X.v.at(i, j)) == o.W(E.seq_at(E.to_seq(f['Xi']), i), j))
        E.prove('one value per observation', zint(Y.n) == tot)
        E.require('the values are the record', same_seq(E, Y, f['yi']))
    return c


def same_seq(E, s, l):
    return s is l.f['seq']


CONTRACTS = []
for acq in ('EI', 'gp_hedge', 'EIps'):
    for shape in ('point', 'batch'):
        for queue in ('limit', 'none'):
            CONTRACTS.append(('_tell %s %s %s' % (acq, shape, queue), tell(acq, shape, queue)))
