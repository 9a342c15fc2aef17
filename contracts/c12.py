"""C12: callbacks see every report once, in order, and their answers decide whether the run goes on."""
from . import c11
from .c11 import *

NOTE = ('check_callback and eval_callbacks proved for every list of callbacks and every pattern of answers; base_minimize proved to consult the callbacks once after every '
        'report and to evaluate nothing after a stop request; whole runs on real optimizers are a bounded supplement')
ASSUME = ['the result handed over describes the history so far (C05, C06)', 'reporting the starting data together counts as one report']
CB = 'skopt.callbacks:'


class Cb(NatObj):
    """callback number i of the list"""
    tyname = 'function'

    def __init__(self, h, i, callable_=True):
        NatObj.__init__(self)
        self.h, self.i = h, i
        self.is_callable = callable_
        self.bases = ('collections.Callable',)

    def py_subst(self, E, sub):
        return Cb(self.h, z3.substitute(zint(self.i), *sub))

    def py_getattr(self, E, name):
        raise Unsupported('callback.' + name)

    def py_call(self, E, a, k):
        h = self.h
        E.require('callbacks get the result, nothing else', len(a) == 1 and not k and E.force(a[0]) is h.res)
        E.prove('callbacks are invoked once each, in the given order', zint(h.ctr.cnt('n')) == zint(self.i))
        E.setf(h.ctr, 'n', E.binop('+', h.ctr.cnt('n'), 1))
        kind = E.decide(h.NONE(zint(self.i)))
        return None if kind else h.DEC(zint(self.i))


class Ctr(NatObj):
    def __init__(self):
        NatObj.__init__(self)
        self.f['n'] = 0

    def py_subst(self, E, sub):
        return self

    def cnt(self, nm):
        v = self.f[nm]
        if isinstance(v, Poison):
            raise PoisonRead(v)
        return v


def cblist(E):
    h = H()
    h.n = E.Int('n')
    E.assume(h.n >= 0)
    h.NONE, h.DEC = z3.Function('NOANSWER', I, B), z3.Function('ANSWER', I, B)
    h.ctr = Ctr()
    h.res = OpaqueObj('result')
    h.cbs = PList(Seq(n=h.n, get=lambda i: Cb(h, i)))
    return h


def evalcb(E):
    h = cblist(E)
    r = E.call(E.resolve('skopt.utils:eval_callbacks'), [h.cbs, h.res], {})
    E.prove('all callbacks are invoked whatever they answer', zint(h.ctr.f['n']) == h.n)
    stop = E.truth(r)
    says = lambda i: z3.And(z3.Not(h.NONE(zint(i))), h.DEC(zint(i)))
    if stop:
        q = z3.Int('q!%d' % E.uid())
        E.prove('stops only when some callback asks to', z3.Exists([q], z3.And(q >= 0, q < h.n, says(q))))
    else:
        E.prove_forall('goes on only when none asks to stop', h.n, lambda i: z3.Not(says(i)))


def check_list(E):
    h = cblist(E)
    r = E.force(E.call(E.resolve(CB + 'check_callback'), [h.cbs], {}))
    E.require('a list comes back', isinstance(r, PList))
    E.prove('as many callbacks', zint(E.length(r)) == h.n)

    def same(i):
        c = at(E, r, i)
        return zint(c.i) == zint(i) if isinstance(c, Cb) else z3.BoolVal(False)
    E.prove_forall('the same callbacks in order', h.n, same)


def check_one(E):
    h = cblist(E)
    c = Cb(h, 0)
    r = E.force(E.call(E.resolve(CB + 'check_callback'), [c], {}))
    E.require('a single callable becomes a list of one', isinstance(r, PList) and E.length(r) == 1 and at(E, r, 0) is c)


def check_none(E):
    r = E.force(E.call(E.resolve(CB + 'check_callback'), [None], {}))
    E.require('no callbacks', isinstance(r, PList) and E.length(r) == 0)


def refuses(mk):
    def c(E):
        h = cblist(E)
        kind, v = outcome(E, lambda: E.call(E.resolve(CB + 'check_callback'), [mk(E, h)], {}))
        E.require('refused', kind == 'raise' and exc_is(v, 'ValueError'))
    return c


def badlist(E, h):
    b = E.Int('bad')
    E.assume(b >= 0)
    E.assume(b < h.n)
    # a list in which position b holds something that cannot be called
    def get(i):
        return Cases([(zint(i) == b, E.Int('notcallable')), (zint(i) != b, Cb(h, i))])
    return PList(Seq(n=h.n, get=get))


CONTRACTS = [('eval_callbacks', evalcb), ('check_callback on a list', check_list), ('check_callback on a callable', check_one), ('check_callback on nothing', check_none),
             ('check_callback refuses a number', refuses(lambda E, h: E.Int('x'))), ('check_callback refuses text', refuses(lambda E, h: 'callback')),
             ('check_callback refuses a list with something else in it', refuses(badlist))] + \
            [('base_minimize consults the callbacks%s, starting points: %s, values: %s' % ((', verbosely' if v else '',) + sv), c11.run(*sv, verbose=v)) for sv in
             (('none', 'none'), ('list', 'none'), ('list', 'given'), ('single', 'scalar')) for v in (False, True)]
