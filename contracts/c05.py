"""C05: the observation history is exactly what was told, in order."""
from .opt import *

NOTE = 'tell and _tell proved, for every history and every single or batched report, to append exactly what was reported, in order, values paired, durations replaced by their logarithm'
ASSUME = ['the report is valid (C04 decides that); points are lists of scalars', 'estimators and acquisition functions do not touch the optimizer']


def tell(acq, shape, fit, direct=False, est=True):
    def c(E):
        o = full_optimizer(E, acq, est=est, queue='none')
        x, y, k, px, py = told(E, o, shape)
        if not direct:
            E.overrides['skopt.utils:check_x_in_space'] = lambda E, a, k: None
            E.overrides[OPT + 'Optimizer._check_y_is_valid'] = lambda E, a, k: None
            if o.ps:
                E.assume(y[1] > 0 if shape == 'point' else z3.BoolVal(True))
        E.call(E.getattr(o.inst, '_tell' if direct else 'tell'), [x, y], dict(fit=fit))
        history_grows(E, o, o.inst.f, k, px, py, log=not direct and o.ps)
    return c


CONTRACTS = []
for acq in ('EI', 'gp_hedge', 'EIps'):
    for shape in ('point', 'batch'):
        for fit in (True, False):
            CONTRACTS.append(('tell %s %s fit=%s' % (acq, shape, fit), tell(acq, shape, fit)))
        CONTRACTS.append(('_tell %s %s' % (acq, shape), tell(acq, shape, True, True)))
    CONTRACTS.append(('tell %s random search' % acq, tell(acq, 'point', True, est=False)))
