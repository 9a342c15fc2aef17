"""C22: dump, load and the checkpoint callback."""
from .opt import *
from .c07 import exc_is
from pvc.lib import OptRes

NOTE = ('what is handed to joblib.dump, what the caller is left with and what load returns proved for results with and without an objective, every option and arbitrary '
        '(also uncopyable) contents; that joblib itself writes and reads back what it is handed is covered by the bounded search only')
ASSUME = ['joblib.dump(value, file) followed by joblib.load(file) reproduces the value', 'names of the stored arguments are representative']


class Thing(NatObj):
    """any value; an uncopyable one refuses to be copied"""
    tyname = 'builtins.object'

    def __init__(self, name, copyable=True):
        NatObj.__init__(self)
        self.name, self.copyable = name, copyable

    def py_copy(self, E, deep):
        if not self.copyable and deep:
            E.raise_('TypeError', 'cannot pickle')
        if not deep:
            return Thing(self.name)
        return CopyOf(self)

    def __repr__(self):
        return self.name


class CopyOf(NatObj):
    tyname = 'builtins.object'

    def __init__(self, of):
        NatObj.__init__(self)
        self.of = of


def origin(v):
    return v.of if isinstance(v, CopyOf) else v


def snap(E, v):
    """contents of nested dictionaries, values up to copying"""
    v = E.force(v)
    if isinstance(v, PDict):
        return {k: snap(E, x) for k, x in v.f['d'].items()}
    return v


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    return origin(a) is origin(b)


def identical(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(identical(a[k], b[k]) for k in a)
    return a is b


def pdict(cls, **k):
    d = cls()
    d.f['d'] = dict(k)
    return d


def record(E):
    out = []

    def dump(E, a, k):
        names = ['value', 'filename', 'compress', 'protocol', 'cache_size']
        kw = dict(zip(names, a))
        kw.update(k)
        kw['live'] = kw['value']
        kw['value'] = snap(E, kw['value'])
        out.append(kw)
        return PList([OpaqueStr()])
    E.natives['joblib.dump'] = dump
    return out


ARGS = [['func'], ['func', 'dimensions', 'callback'], ['dimensions', 'func', 'callback', 'x0'], ['dimensions', 'callback', 'func']]
NOFUNC = [[], ['dimensions'], ['dimensions', 'callback', 'function']]


def result(E, names, copyable, more=()):
    args = pdict(PDict, **{n: Thing(n, copyable or n != 'func') for n in names})
    specs = pdict(PDict, args=args, function=OpaqueStr())
    r = pdict(OptRes, x=Thing('x'), fun=Thing('fun'), func_vals=Thing('func_vals'), x_iters=Thing('x_iters'), models=Thing('models'), space=Thing('space'),
              random_state=Thing('random_state'), specs=specs, **{m: Thing(m) for m in more})
    return r, specs, args


def saved(option, names, copyable=True, more=()):
    def c(E):
        out = record(E)
        r, specs, args = result(E, names, copyable, more)
        before = snap(E, r)
        fn, comp = OpaqueStr(), Thing('compress')
        for kw in ({}, dict(compress=comp)):
            del out[:]
            full = dict(kw) if option is None else dict(kw, store_objective=option)
            k, v = outcome(E, lambda: E.call(E.resolve('skopt.utils:dump'), [r, fn], full))
            E.require('saved', k == 'ok', repr(v))
            E.require('written once', len(out) == 1)
            w = out[0]
            E.require('under the given name', E.force(w['filename']) is fn)
            E.require('with the given options', {n: x for n, x in w.items() if n not in ('value', 'filename', 'live')} == kw)
            E.require('as a result', isinstance(E.force(w['live']), OptRes))
            want = {n: v for n, v in before.items()}
            if option is False:
                want = dict(want, specs=dict(want['specs'], args={n: v for n, v in want['specs']['args'].items() if n != 'func'}))
            E.require('everything else is written' if option is False else 'everything is written', same(w['value'], want), repr(w['value']))
            # the caller's result is what it was, down to the same objects
            E.require('the result in memory is untouched', identical(snap(E, r), before))
            E.require('the same parts', E.force(r.f['d']['specs']) is specs and E.force(specs.f['d']['args']) is args)
    return c


def loaded(E):
    fn, o = OpaqueStr(), Thing('mmap')
    got = []
    val = Thing('contents')

    def ld(E, a, k):
        got.append((list(a), dict(k)))
        return val
    E.natives['joblib.load'] = ld
    for kw in ({}, dict(mmap_mode=o)):
        del got[:]
        r = E.call(E.resolve('skopt.utils:load'), [fn], kw)
        E.require('what the file holds', E.force(r) is val)
        E.require('read once from the given file', len(got) == 1 and len(got[0][0]) == 1 and E.force(got[0][0][0]) is fn and got[0][1] == kw)


def checkpoint(option, names):
    def c(E):
        out = record(E)
        fn, comp = OpaqueStr(), Thing('compress')
        kw = dict(compress=comp)
        if option is not None:
            kw['store_objective'] = option
        cb = E.call(E.resolve('skopt.callbacks:CheckpointSaver'), [fn], dict(kw))
        for rnd in range(3):
            r, specs, args = result(E, names, True)
            before = snap(E, r)
            n = len(out)
            v = E.force(E.call(cb, [r], {}))
            E.require('written on every round', len(out) == n + 1)
            E.require('under its file name', E.force(out[n]['filename']) is fn)
            E.require('with its options', {a: x for a, x in out[n].items() if a not in ('value', 'filename', 'live')} == dict(compress=comp))
            want = before
            if option is False:
                want = dict(want, specs=dict(want['specs'], args={a: x for a, x in want['specs']['args'].items() if a != 'func'}))
            E.require('the latest result', same(out[n]['value'], want))
            E.require('the result is untouched', identical(snap(E, r), before) and E.force(specs.f['d']['args']) is args)
            E.require('does not ask to stop', v is None or E.eq(v, False) is True)
    return c


CONTRACTS = ([('saved with store_objective=%s, arguments %s%s' % (o, ' '.join(a), '' if cp else ', uncopyable objective'), saved(o, a, cp, m))
              for o in (None, True, False) for a, m in [(x, ()) for x in ARGS + NOFUNC] + [(ARGS[1], ('log_time', 'extra'))] for cp in (True, False) if cp or 'func' in a] +
             [('loaded', loaded)] + [('checkpoint, store_objective=%s, arguments %s' % (o, ' '.join(a)), checkpoint(o, a)) for o in (None, True, False) for a in (ARGS[1], NOFUNC[1])])
