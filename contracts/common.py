"""Helpers shared by the contracts."""
import z3
from pvc.vals import *
from pvc import solve
R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()
SPACE = 'skopt.space.space:'
TR = 'skopt.space.transformers:'


def ext(E, path):
    return E.ext(path)


def real_dim(E, prior, transform, dtype=None, base=None, tag=''):
    lo, hi = E.Real('low' + tag), E.Real('high' + tag)
    E.assume(lo < hi)
    if prior == 'log-uniform':
        E.assume(lo > 0)
    b = base
    if base is None:
        b = E.Real('base' + tag)
        E.assume(b > 1)
    kw = dict(prior=prior, base=b, transform=transform)
    if dtype is not None:
        kw['dtype'] = dtype
    d = E.call(E.resolve(SPACE + 'Real'), [lo, hi], kw)
    return d, lo, hi, b


def int_dim(E, prior, transform, dtype=None, base=None, tag=''):
    lo, hi = E.Int('low' + tag), E.Int('high' + tag)
    E.assume(lo < hi)
    if prior == 'log-uniform':
        E.assume(lo > 0)
    b = base
    if base is None:
        b = E.Int('base' + tag)
        E.assume(b > 1)
    kw = dict(prior=prior, base=b, transform=transform)
    if dtype is not None:
        kw['dtype'] = dtype
    d = E.call(E.resolve(SPACE + 'Integer'), [lo, hi], kw)
    return d, lo, hi, b


def batch(E, sort, n, rng, name='X'):
    """symbolic column of n values satisfying rng(value)"""
    f = z3.Function('%s!%d' % (name, E.uid()), I, sort)
    E.rule_for(f, lambda i: rng(f(i)))
    return f


def rows(E, n, fn):
    return PList(Seq(n=n, get=lambda i: fn(zint(i))))


def meth(E, o, name, *a, **k):
    return E.call(E.getattr(o, name), list(a), k)


def at(E, v, i):
    """element i of a list or array result"""
    if isinstance(v, ArrObj):
        return v.v.at(*(i if isinstance(i, tuple) else (i,)))
    s = E.to_seq(v)
    return E.seq_at(s, i)


def length(E, v):
    return E.length(v)
