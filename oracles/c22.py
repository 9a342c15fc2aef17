"""Real results saved and loaded back, with and without their objective, and checkpoints of every round (C22)."""
import os
import pathlib
import shutil
import tempfile
import threading
import numpy as np
from oracles.util import *

RULE = ('one case = a minimizer or optimizer run, the kind of objective and the saving options; the loaded result compared field by field with the one in memory, the one in memory '
        'with itself before saving, and every checkpoint with the result its round reported')


def plain(x):
    return float(sum((v if isinstance(v, (int, float)) and not isinstance(v, bool) else hash(str(v)) % 7) ** 2 for v in x))


class Callable_(object):
    def __call__(self, x):
        return plain(x)


class Locked(Callable_):
    """can neither be pickled nor copied"""
    def __init__(self):
        self.lock = threading.Lock()


class Shy(Callable_):
    """cannot be pickled"""
    def __reduce_ex__(self, p):
        raise TypeError('not to be pickled')

    def __deepcopy__(self, memo):
        return self


def random_case(rng, hints):
    ss = rand_space(rng, hints, nmax=3)
    return dict(dims=ss, run=rng.choice(['dummy', 'dummy', 'dummy', 'forest', 'gbrt', 'gp', 'get_result', 'tell', 'noargs']), obj=rng.choice(['plain', 'object', 'lambda', 'locked', 'shy']),
                store=rng.choice([None, True, False, False]), n=rng.randint(3, 6), seed=rng.randint(0, 999), path=rng.choice(['r.pkl', 'r.gz', 'r.z', 'pathlib', 'r.bz2', 'name with blank']),
                comp=rng.choice([None, None, 3, True, ['gzip', 3]]), check=rng.random() < .4, again=rng.random() < .3)


def fixed(hints):
    R = dict(k='R', lo=-1., hi=1., prior='uniform', tr='identity')
    C = dict(k='C', cats=['a', 'b', 'c'], prior=None, tr='onehot')
    for run in ('dummy', 'forest', 'get_result', 'noargs', 'gp'):
        for obj in ('plain', 'locked', 'lambda'):
            for check in (False, True):
                yield dict(dims=[R, C], run=run, obj=obj, store=False, n=4, seed=1, path='r.pkl', comp=None, check=check, again=True)


def same(a, b, depth=0):
    """equal contents (models by their predictions elsewhere)"""
    from skopt.space import Space, Dimension
    if a is b:
        return True
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(same(a[k], b[k], depth + 1) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y, depth + 1) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and a.dtype == b.dtype and all(same(x, y, depth + 1) for x, y in zip(a.ravel().tolist(), b.ravel().tolist()))
    if isinstance(a, np.random.RandomState):
        s, t = a.get_state(), b.get_state()
        return all(np.array_equal(x, y) for x, y in zip(s, t))
    if isinstance(a, Space):
        return isinstance(b, Space) and a == b and [d.name for d in a.dimensions] == [d.name for d in b.dimensions] and [d.transform_ for d in a.dimensions] == [d.transform_ for d in b.dimensions]
    if isinstance(a, Dimension):
        return a == b and a.name == b.name and a.transform_ == b.transform_
    if isinstance(a, float) and a != a:
        return b != b
    if hasattr(a, 'get_params') and hasattr(a, 'predict'):
        return type(a) is type(b)
    if hasattr(a, '__dict__') and not callable(a):
        return type(a) is type(b)
    try:
        return type(a) is type(b) and bool(a == b) or callable(a) and type(a) is type(b)
    except Exception:
        return type(a) is type(b)


def picture(r):
    """what the caller can see of a result: structure and the identity of every part"""
    def p(v):
        if isinstance(v, dict):
            return (id(v), [(k, p(x)) for k, x in v.items()])
        if isinstance(v, (list, tuple)):
            return (id(v), [p(x) for x in v])
        if isinstance(v, np.ndarray):
            return (id(v), v.tobytes() if v.dtype != object else [id(x) for x in v.ravel()])
        return id(v)
    return p(r)


def compare(got, res, drop, what, models=True):
    errs = []
    if list(got) != list(res):
        return ['%s: fields %r instead of %r' % (what, list(got), list(res))]
    for k in res:
        if k == 'specs':
            continue
        if not same(res[k], got[k]):
            errs.append('%s: %s is %r instead of %r' % (what, k, got[k], res[k]))
    if 'specs' in res and res.specs is not None:
        if set(got.specs) != set(res.specs) or got.specs.get('function') != res.specs.get('function'):
            errs.append('%s: specs %r' % (what, list(got.specs)))
        want = [k for k in res.specs['args'] if not (drop and k == 'func')]
        if sorted(got.specs['args']) != sorted(want):
            errs.append('%s: arguments %r instead of %r' % (what, sorted(got.specs['args']), sorted(want)))
        else:
            for k in want:
                if not same(res.specs['args'][k], got.specs['args'][k]):
                    errs.append('%s: argument %s is %r instead of %r' % (what, k, got.specs['args'][k], res.specs['args'][k]))
    if models and res.models and res.models[-1] is not None:
        X = res.space.transform(res.x_iters)
        if len(got.models) != len(res.models) or not np.allclose(got.models[-1].predict(X), res.models[-1].predict(X), rtol=1e-9, atol=1e-12):
            errs.append('%s: the loaded model predicts otherwise' % what)
    return errs


def check(c):
    import skopt
    from skopt import dump, load
    from skopt.callbacks import CheckpointSaver
    d = tempfile.mkdtemp(prefix='c22-')
    try:
        return run(c, d, skopt, dump, load, CheckpointSaver)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def run(c, d, skopt, dump, load, CheckpointSaver):
    errs = []
    obj = {'plain': plain, 'object': Callable_(), 'lambda': lambda x: plain(x), 'locked': Locked(), 'shy': Shy()}[c['obj']]
    picklable = c['obj'] in ('plain', 'object')
    p = pathlib.Path(d) / 'r.pkl' if c['path'] == 'pathlib' else os.path.join(d, c['path'])
    kw = {}
    if c['comp'] is not None:
        kw['compress'] = tuple(c['comp']) if isinstance(c['comp'], list) else c['comp']
    if c['store'] is not None:
        kw['store_objective'] = c['store']
    if not picklable:
        kw['store_objective'] = False
    drop = kw.get('store_objective') is False
    sp = mk_space(c['dims'])
    cbs = []
    if c['check'] and c['run'] in ('dummy', 'forest', 'gp', 'gbrt'):
        cp = os.path.join(d, 'checkpoint.pkl')
        saver = CheckpointSaver(cp, **kw)
        state = dict(n=0)

        def after(res):
            state['n'] += 1
            got = load(cp)
            if len(got.x_iters) != len(res.x_iters):
                errs.append('the checkpoint of round %d holds %d points instead of %d' % (state['n'], len(got.x_iters), len(res.x_iters)))
            errs.extend(compare(got, res, drop, 'checkpoint of round %d' % state['n'], models=False))
            if 'func' not in res.specs['args'] or res.specs['args']['func'] is not obj:
                errs.append('the objective is gone from the running result after round %d' % state['n'])
            os.unlink(cp)       # the next round has to write it again
        cbs = [saver, after]
    if cbs and not drop:
        cbs = []        # a local function as a callback cannot be pickled
    run_ = c['run']
    if run_ in ('dummy', 'forest', 'gbrt', 'gp'):
        f = {'dummy': skopt.dummy_minimize, 'forest': skopt.forest_minimize, 'gbrt': skopt.gbrt_minimize, 'gp': skopt.gp_minimize}[run_]
        k = {} if run_ == 'dummy' else dict(n_initial_points=2, n_points=20, **(dict(acq_optimizer='sampling') if run_ == 'gp' else {}))
        if run_ != 'dummy' and any(s['k'] == 'C' and s['tr'] in ('string', 'identity') for s in c['dims']):
            raise Skip()
        if cbs:
            # callbacks are among the saved arguments: module-level stand-ins that pickle
            _CB[:] = cbs
            k['callback'] = [call0, call1]
        res = f(obj, sp.dimensions, n_calls=c['n'], random_state=c['seed'], **k)
        if cbs and state['n'] != c['n']:
            errs.append('%d checkpoints for %d rounds' % (state['n'], c['n']))
    else:
        o = skopt.Optimizer(sp.dimensions, base_estimator='dummy', n_initial_points=2, random_state=c['seed'])
        for _ in range(c['n']):
            x = o.ask()
            res = o.tell(x, plain(x))
        if run_ == 'get_result':
            res = o.get_result()
        elif run_ == 'noargs':
            res.specs['args'] = {k: v for k, v in res.specs['args'].items() if k in ('dimensions', 'random_state')}
    for rnd in range(2 if c['again'] else 1):
        before = picture(res)
        dump(res, p, **kw)
        if picture(res) != before:
            errs.append('saving changed the result in memory')
        if run_ in ('dummy', 'forest', 'gbrt', 'gp') and res.specs['args'].get('func') is not obj:
            errs.append('the result in memory lost its objective')
            break
        errs += compare(load(p), res, drop, 'loaded')
    return errs


_CB = [None, None]


def call0(res):
    return _CB[0](res)


def call1(res):
    return _CB[1](res)
