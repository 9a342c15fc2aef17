"""C06: the result reports the first best observation it recorded."""
from .opt import *

NOTE = 'create_result proved for every history (with and without durations): first minimum, its point, full history, space; every producer of results hands it its own full record'
ASSUME = ['recorded values are comparable numbers (no NaN)']


def fields(E, res, n, xi, yv, tv, sp, models=None):
    g = lambda nm: E.getattr(res, nm)
    best = E.Int('first')
    fv = g('func_vals')
    E.require('values form one array', isinstance(fv, ArrObj) and fv.v.ndim == 1)
    E.prove('one value per point', zint(E.length(fv)) == zint(n))
    E.prove_forall('values are the recorded ones', n, lambda i: E.eq(fv.v.at(i), yv(i)))
    E.prove('as many points as recorded', zint(E.length(g('x_iters'))) == zint(n))
    E.prove_forall('points are the recorded ones', n, lambda i: E.eq(at(E, g('x_iters'), i), xi(i)))
    E.prove_forall('no value is better', n, lambda i: zreal(g('fun')) <= zreal(yv(i)))
    # the first position attaining it, named by its defining conditions
    q = z3.Int('fq!%d' % E.uid())
    E.assume(z3.And(best >= 0, best < zint(n), zreal(yv(best)) == zreal(g('fun'))))
    E.assume(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < best), zreal(yv(q)) != zreal(g('fun')))))
    E.prove('point recorded with the first best value', E.eq(g('x'), xi(best)))
    E.require('space is the one searched', g('space') is sp)
    if tv is not None:
        lt = g('log_time')
        E.require('durations form one array', isinstance(lt, ArrObj) and lt.v.ndim == 1)
        E.prove('one duration per point', zint(E.length(lt)) == zint(n))
        E.prove_forall('durations are the recorded ones', n, lambda i: E.eq(lt.v.at(i), tv(i)))
    else:
        E.require('no durations invented', 'log_time' not in res.f['d'])


def exists_best(E, res, n, yv):
    """the reported value is one of the recorded ones"""
    b = E.getattr(res, 'fun')
    q = z3.Int('eq!%d' % E.uid())
    E.prove('the best value is a recorded one', z3.Exists([q], z3.And(q >= 0, q < zint(n), zreal(yv(q)) == zreal(b))))


def create(kind):
    def c(E):
        n = E.Int('n')
        E.assume(n >= 1)
        XI, YI, TI = z3.Function('XI', I, U), z3.Function('YI', I, R), z3.Function('TI', I, R)
        Xi = PList(Seq(n=n, get=lambda i: XI(zint(i))))
        ps = kind == 'pairs'
        if kind == 'array':
            yi = E.arr((n,), lambda i: YI(zint(i)), 'f')
        else:
            yi = PList(Seq(n=n, get=(lambda i: (YI(zint(i)), TI(zint(i)))) if ps else (lambda i: YI(zint(i)))))
        sp, rng, specs, models = OpaqueObj('Space'), RngObj('own'), PDict(), PList()
        res = E.call(E.resolve('skopt.utils:create_result'), [Xi, yi, sp, rng], dict(specs=specs, models=models))
        exists_best(E, res, n, lambda i: YI(zint(i)))
        fields(E, res, n, lambda i: XI(zint(i)), lambda i: YI(zint(i)), (lambda i: TI(zint(i))) if ps else None, sp)
        E.require('points list is the record itself', E.getattr(res, 'x_iters') is Xi)
        E.require('models, specs and generator are handed through', E.getattr(res, 'models') is models and E.getattr(res, 'specs') is specs
                  and E.getattr(res, 'random_state') is rng)
    return c


def producer(acq, how):
    """tell, get_result and run hand the complete record of the optimizer to create_result"""
    def c(E):
        o = full_optimizer(E, acq, queue='none')
        f = o.inst.f
        seen = []

        def cr(E, a, k):
            names = ['Xi', 'yi', 'space', 'rng', 'specs', 'models']
            v = dict(zip(names, a))
            v.update(k)
            r = OpaqueObj('OptimizeResult')
            r.py_setattr = lambda E, n, v: E.setf(r, n, v)
            seen.append((v, r, len(snapshot_len(E, f))))
            return r
        E.overrides['skopt.utils:create_result'] = cr
        if how == 'get_result':
            E.assume(o.n >= 1)
            res = E.call(E.getattr(o.inst, 'get_result'), [], {})
        else:
            x, y, k, px, py = told(E, o, 'point')
            res = E.call(E.getattr(o.inst, '_tell'), [x, y], {})
        v, r, _ = seen[-1]
        E.require('the result is the one built from the record', res is r)
        E.require('record of points', v['Xi'] is f['Xi'])
        E.require('record of values', v['yi'] is f['yi'])
        E.require('space searched', v['space'] is o.sp)
        E.require('models kept', v['models'] is f['models'])
        E.require('generator', v['rng'] is f['rng'])
        E.require('nothing else is written', set(r.f) <= {'specs'})
    return c


def snapshot_len(E, f):
    return ()


CONTRACTS = [('create_result ' + k, create(k)) for k in ('list', 'array', 'pairs')]
for acq in ('EI', 'EIps'):
    CONTRACTS += [('tell %s' % acq, producer(acq, 'tell')), ('get_result %s' % acq, producer(acq, 'get_result'))]
