"""Operation sequences on real optimizers against a reference history; errors are tagged with the property they contradict."""
import copy
import warnings
import numpy as np
from sklearn.base import BaseEstimator, RegressorMixin
from sklearn.multioutput import MultiOutputRegressor
from oracles.util import *

warnings.simplefilter('ignore')
LOG = []


class Rec(RegressorMixin, BaseEstimator):
    """a cheap regressor that remembers what it was fitted on and asked about"""
    def __init__(self, salt=0):
        self.salt = salt

    def fit(self, X, y):
        self.X_ = np.array(X, dtype=float)
        self.y_ = np.array(y, dtype=float)
        self.ph_ = float(np.sum(self.y_)) * 1.7 + len(self.X_)
        self.rows_ = []
        LOG.append(self)
        return self

    def value(self, X):
        X = np.asarray(X, dtype=float)
        w = np.arange(1, X.shape[1] + 1)
        m = np.cos(X * w * .7 + self.ph_).sum(1) + .01 * np.sin(X.sum(1) * 5)
        s = .2 + .1 * np.abs(np.sin(X @ w + self.ph_))
        return m, s

    def predict(self, X, return_std=False):
        self.rows_.append(np.array(X, dtype=float))
        m, s = self.value(X)
        return (m, s) if return_std else m


def gen_class():
    from skopt.sampler.base import InitialPointGenerator

    class RecGen(InitialPointGenerator):
        def __init__(self, ss, seed):
            self.ss, self.seed, self.out = ss, seed, None

        def generate(self, dimensions, n_samples, random_state=None):
            r = random.Random(self.seed)
            self.out = [[cval(v) for v in rand_point(r, self.ss)] for _ in range(n_samples)]
            return copy.deepcopy(self.out)
    return RecGen


class RecRng(np.random.RandomState):
    """remembers the probabilities it was asked to choose with"""
    def __init__(self, seed):
        super().__init__(seed)
        self.ps = []

    def multinomial(self, n, pvals, size=None):
        r = super().multinomial(n, pvals, size)
        self.ps.append((np.array(pvals, dtype=float), int(np.argmax(r))))
        return r

    def choice(self, a, size=None, replace=True, p=None):
        r = super().choice(a, size, replace, p)
        if p is not None and len(p) == 3:
            self.ps.append((np.array(p, dtype=float), None))
        return r


ACQS = ['EI', 'LCB', 'PI', 'gp_hedge', 'EIps', 'PIps']


def rand_case(rng, hints, acqs=ACQS, steps=(2, 9), gens=('rec', 'random', 'random', 'lhs', 'sobol', 'halton', 'hammersly', 'grid'), ests=('rec', 'rec', 'rec', 'rec', 'dummy')):
    ss = rand_space(rng, hints, nmax=3)
    for s in ss:
        if s['k'] == 'C' and s['tr'] in ('string', 'identity'):
            s['tr'] = 'onehot'
    gen = rng.choice(list(gens))
    if gen != 'rec' and gen != 'random' and any(s['k'] == 'C' for s in ss):
        gen = 'rec'
    return dict(dims=ss, seed=rng.randrange(10 ** 6), acq=rng.choice(acqs), n0=rint(rng, 0, 6, hints) if rng.random() < .85 else rint(rng, 0, 25, hints), gen=gen,
                limit=rng.choice([None, None, 1, 2, 3, rint(rng, 1, 12, hints)]), est=rng.choice(list(ests)), steps=rint(rng, steps[0], steps[1], hints),
                npts=rng.choice([1, 2, 5, 30, rint(rng, 1, 80, hints)]), xi=rng.choice([None, 0.0, 0.3, rfloat(rng, hints)]), kappa=rng.choice([None, 0.5, 10., 'inf']))


def fixed_cases(hints):
    k = 0
    for ss in ([dict(k='R', lo=-1., hi=2.)], [dict(k='I', lo=1, hi=9), dict(k='C', cats=['a', 'b', 'c'], tr='onehot')],
               [dict(k='C', cats=['a', 'b', 'c'], tr='onehot'), dict(k='C', cats=[1, 2, 3, 4], tr='label')]):
        for acq in ACQS:
            for n0, lim in ((0, None), (2, 1), (3, 2)):
                k += 1
                yield dict(dims=ss, seed=k, acq=acq, n0=n0, gen='rec' if k % 2 else 'random', limit=lim, est='rec', steps=8, npts=25, xi=None, kappa=None)
        yield dict(dims=ss, seed=k, acq='EI', n0=3, gen='rec', limit=None, est='dummy', steps=8, npts=25, xi=None, kappa=None)
    for n in hints.ints:
        if 0 < n <= 40:
            ss = [dict(k='R', lo=-1., hi=2.), dict(k='I', lo=1, hi=9)]
            yield dict(dims=ss, seed=n, acq='EI', n0=n, gen='rec', limit=None, est='rec', steps=n + 3, npts=10, xi=None, kappa=None, single=1)
            yield dict(dims=ss, seed=n, acq='LCB', n0=1, gen='random', limit=n, est='rec', steps=n + 3, npts=10, xi=None, kappa=None, single=1)
            yield dict(dims=ss, seed=n, acq='EI', n0=1, gen='random', limit=None, est='rec', steps=4, npts=n, xi=None, kappa=None, batch=n)


def acq_value(case, model, X, y_opt, which):
    from skopt.acquisition import _gaussian_acquisition
    kw = {}
    if case.get('xi') is not None:
        kw['xi'] = case['xi']
    if case.get('kappa') is not None:
        kw['kappa'] = case['kappa']
    return np.asarray(_gaussian_acquisition(X=np.asarray(X), model=model, y_opt=y_opt, acq_func=which, acq_func_kwargs=kw))


class Quiet:
    """a fitted Rec (or pair) whose questions are not recorded"""
    def __init__(self, models):
        self.ms = models
        self.estimators_ = [Quiet([m]) for m in models] if len(models) > 1 else None

    def predict(self, X, return_std=False):
        m, s = self.ms[0].value(X)
        return (m, s) if return_std else m


def recs(model):
    return list(model.estimators_) if isinstance(model, MultiOutputRegressor) else [model]


def simulate(case, want):
    """runs the case; returns the errors of property `want`"""
    rng = random.Random(case['seed'])
    errs = []

    def err(p, msg):
        if p == want:
            errs.append(msg)
    ss, acq = case['dims'], case['acq']
    ps = 'ps' in acq
    sp = mk_space(ss)
    gen = gen_class()(ss, case['seed']) if case['gen'] == 'rec' else case['gen']
    rr = RecRng(case['seed'])
    kw = {}
    if case.get('xi') is not None:
        kw['xi'] = case['xi']
    if case.get('kappa') is not None:
        kw['kappa'] = case['kappa']
    if case['n0'] == 0 and case['gen'] not in ('rec', 'random'):
        raise Skip()
    from skopt import Optimizer
    del LOG[:]
    if case['est'] == 'dummy' and ps:
        raise Skip()
    o = Optimizer([mk_dim(s) for s in ss], base_estimator=Rec() if case['est'] == 'rec' else 'dummy', n_initial_points=case['n0'], acq_func=acq,
                  initial_point_generator=gen, random_state=rr, model_queue_size=case['limit'], acq_optimizer='sampling',
                  acq_func_kwargs=kw or None, acq_optimizer_kwargs=dict(n_points=case['npts']))
    model_on = case['est'] == 'rec'
    hist = []
    fitted = []          # the models in the order they were fitted
    batch_seen = {}      # (n, strategy) -> batch, since the last tell
    last_models = []

    def newval():
        u = rng.random()
        v = rng.uniform(-5, 5) if u < .8 else rng.choice([0.0, 1.0, -1.0, 2.0]) if u < .95 else rng.choice([1e6, -1e6])
        return (v, rng.choice([rng.uniform(.01, 9), 1.0, 30.])) if ps else v

    def same_pt(a, b):
        return len(a) == len(b) and all(type(x) == type(y) and x == y or x == y for x, y in zip(a, b))

    def close_pt(a, b):
        return same_pt(a, b) or len(a) == len(b) and all(same_val(s, p, q, 1e-9) for s, p, q in zip(ss, b, a))

    def same_hist(what):
        if len(o.Xi) != len(hist) or len(o.yi) != len(hist):
            err('C05', '%s: %d points and %d values recorded, %d told' % (what, len(o.Xi), len(o.yi), len(hist)))
            return False
        for i, (x, y) in enumerate(hist):
            if not same_pt(o.Xi[i], x):
                err('C05', '%s: point %d is %r, told %r' % (what, i, o.Xi[i], x))
                return False
            if ps:
                if not (o.yi[i][0] == y[0] and abs(o.yi[i][1] - math.log(y[1])) < 1e-9 * (1 + abs(math.log(y[1])))):
                    err('C05', '%s: value %d is %r, told %r' % (what, i, o.yi[i], y))
                    return False
            elif not o.yi[i] == y:
                err('C05', '%s: value %d is %r, told %r' % (what, i, o.yi[i], y))
                return False
        return True

    def vals():
        return [y[0] for _, y in hist] if ps else [y for _, y in hist]

    def check_result(res, what):
        v = vals()
        b = min(range(len(v)), key=lambda i: v[i])
        if not (res.fun == v[b] and same_pt(res.x, hist[b][0])):
            err('C06', '%s: best reported %r at %r, recorded %r at %r' % (what, res.fun, res.x, v[b], hist[b][0]))
        if list(res.func_vals) != v or np.ndim(res.func_vals) != 1:
            err('C06', '%s: func_vals %r, recorded %r' % (what, list(res.func_vals)[:8], v[:8]))
        if len(res.x_iters) != len(hist) or not all(same_pt(a, b[0]) for a, b in zip(res.x_iters, hist)):
            err('C06', '%s: x_iters differ from the recorded points' % what)
        if ps and not np.allclose(res.log_time, [math.log(y[1]) for _, y in hist]):
            err('C06', '%s: log_time differs' % what)
        if res.space is not o.space and not res.space == o.space:
            err('C06', '%s: another space' % what)

    def best_decodings(model, rows, y_opt, which):
        """decodings of the examined rows whose acquisition value is smallest"""
        X = np.vstack(rows)
        q = Quiet(recs(model))
        a = acq_value(case, q, X, y_opt, which)
        m = a.min()
        tol = 1e-12 * max(1, abs(m))
        ok = np.where(a <= m + tol)[0]
        dec = o.space.inverse_transform(X[ok].copy())
        return dec, m, a, X

    def check_suggestion(x, model, ys, what, rows, tag='C10'):
        y_opt = min(ys)
        mem = ['EI', 'LCB', 'PI'] if acq == 'gp_hedge' else [acq]
        alldec = []
        for w in mem:
            dec, m, a, X = best_decodings(model, rows, y_opt, w)
            alldec += dec
        if not any(close_pt(x, d) for d in alldec):
            err(tag, '%s: %r is not the decoding of a best examined candidate (%r)' % (what, x, alldec[:3]))

    def snap():
        return (copy.deepcopy(o.Xi), copy.deepcopy([list(v) if isinstance(v, (tuple, list)) else v for v in o.yi]), [id(m) for m in o.models], o._n_initial_points)

    def do_ask():
        before = snap()
        n = len(hist)
        try:
            x = o.ask()
        except RuntimeError:
            if model_on and n >= case['n0'] and not fitted:
                return None
            err('C07', 'asking failed after %d of %d initial observations' % (n, case['n0']))
            return None
        if snap() != before:
            err('C07', 'asking changed the record')
        if n < case['n0'] or not model_on:
            if gen is not None and case['gen'] == 'rec' and n < case['n0']:
                if not same_pt(x, gen.out[n]):
                    err('C07', 'initial suggestion %d is %r, design point is %r' % (n, x, gen.out[n]))
            if x not in sp:
                err('C07', 'initial suggestion %r outside the space' % (x,))
            if o.models and model_on and n < case['n0']:
                err('C07', 'a model was fitted after %d of %d initial observations' % (n, case['n0']))
        else:
            if not fitted:
                err('C07', 'suggestion without a model')
                return x
            y2 = o.ask()
            if not same_pt(x, y2):
                err('C07', 'asking twice gives %r then %r' % (x, y2))
            if x not in sp:
                err('C10', 'suggestion %r outside the space' % (x,))
            m = fitted[-1]
            if last_y[0] is None:
                return x
            check_suggestion(x, m, last_y[0], 'after %d observations' % n, cand_rows[0])
        return x
    last_y = [None]
    cand_rows = [None]
    prev_next = [None]
    prev_gain = [np.zeros(3)]

    def do_tell(k, fit, own=None):
        pts = [[cval(v) for v in rand_point(rng, ss)] for _ in range(k)]
        if hist and rng.random() < .2:
            pts[0] = list(hist[0][0])
        if own is not None:
            pts[0] = own
        ys = [newval() for _ in range(k)]
        if rng.random() < .2 and hist:
            ys[0] = (hist[0][1][0], ys[0][1]) if ps else hist[0][1]
        before_models = list(o.models)
        nlog = len(LOG)
        px = copy.deepcopy(pts)
        if k == 1 and rng.random() < .7:
            res = o.tell(pts[0], ys[0], fit=fit)
        else:
            res = o.tell(pts, ys, fit=fit)
        hist.extend(zip(px, ys))
        batch_seen.clear()
        if not same_hist('tell of %d' % k):
            return False
        if res is None:
            err('C06', 'tell returned nothing')
        else:
            check_result(res, 'tell')
        should = fit and len(hist) >= case['n0'] and model_on
        if not should:
            if [id(m) for m in o.models] != [id(m) for m in before_models]:
                err('C08', 'models changed by a report that fits nothing')
            if len(LOG) != nlog:
                err('C07' if fit else 'C08', 'a model was fitted after %d of %d initial observations (fit=%s)' % (len(hist), case['n0'], fit))
        else:
            if len(LOG) == nlog:
                err('C07', 'no model fitted after %d of %d initial observations' % (len(hist), case['n0']))
                return False
            new = o.models[-1] if o.models else None
            if new is None or any(new is m for m in before_models):
                err('C08', 'the newest model is not kept')
                return False
            fitted.append(new)
            lim = case['limit']
            exp = fitted if lim is None else fitted[-lim:]
            if [id(m) for m in o.models] != [id(m) for m in exp]:
                err('C08', '%d models kept with limit %r, expected the newest %d in order' % (len(o.models), lim, len(exp)))
            X = o.space.transform(copy.deepcopy(o.Xi))
            for j, r in enumerate(recs(new)):
                want_y = [y[0] if j == 0 else math.log(y[1]) for _, y in hist] if ps else vals()
                if r.X_.shape != np.shape(X) or not np.allclose(r.X_, np.asarray(X, dtype=float)) or not np.allclose(r.y_, want_y):
                    err('C08', 'the newest model was not fitted on everything observed')
                    return False
            if len(res.models) != len(o.models) or any(a is not b for a, b in zip(res.models, o.models)):
                err('C08', 'the result lists other models')
            last_y[0] = vals()
            r0 = recs(new)[0]
            rows = list(r0.rows_)
            if acq == 'gp_hedge':
                if prev_next[0] is not None and hasattr(o, 'gains_'):
                    P = np.vstack(prev_next[0])
                    exp_g = prev_gain[0] - r0.value(P)[0]
                    if not np.allclose(o.gains_, exp_g, rtol=1e-9, atol=1e-9):
                        err('C10', 'credits %r, expected %r' % (list(o.gains_), list(exp_g)))
                    # the nominees of the previous round were asked for credit, not examined now
                    rows = [r for r in rows if not (r.shape == P.shape and np.array_equal(r, P))] or rows
            cand_rows[0] = rows
            if sum(len(r) for r in rows) < case['npts']:
                err('C10', 'only %d candidates examined, %d requested' % (sum(len(r) for r in rows), case['npts']))
            if acq == 'gp_hedge' and hasattr(o, 'gains_') and hasattr(o, 'next_xs_'):
                if len(o.next_xs_) != 3:
                    err('C10', '%d nominees' % len(o.next_xs_))
                    return False
                for w, nx in zip(['EI', 'LCB', 'PI'], o.next_xs_):
                    q = Quiet(recs(new))
                    a = acq_value(case, q, np.vstack(rows), min(last_y[0]), w)
                    v = acq_value(case, q, np.asarray(nx).reshape(1, -1), min(last_y[0]), w)[0]
                    if v > a.min() + 1e-7 * max(1, abs(a.min())):
                        err('C10', '%s nominates a candidate of value %r, best examined is %r' % (w, v, a.min()))
                if rr.ps:
                    p, pick_ = rr.ps[-1]
                    g = np.asarray(o.gains_)
                    if len(p) != 3 or abs(p.sum() - 1) > 1e-9 or (p < 0).any():
                        err('C10', 'selection probabilities %r' % (p,))
                    else:
                        for i in range(3):
                            for j in range(3):
                                if g[i] > g[j] + 1e-6 and not p[i] > p[j] and p[i] < .999999 and p[j] > 1e-300:
                                    err('C10', 'credits %r but probabilities %r' % (list(g), list(p)))
                    if pick_ is not None:
                        d = o.space.inverse_transform(np.asarray(o.next_xs_[pick_]).reshape(1, -1))[0]
                        if not close_pt(o.ask(), d):
                            err('C10', 'nominee %d was drawn but %r is suggested' % (pick_, o.ask()))
                prev_next[0] = [np.array(v) for v in o.next_xs_]
                prev_gain[0] = np.array(o.gains_)
        return True

    def do_batch(n, strat):
        before = snap()
        key = (n, strat)
        nlog = len(LOG)
        if model_on and len(hist) >= case['n0'] and not fitted:
            return
        lim_err = None
        X = o.ask(n_points=n, strategy=strat)
        if snap() != before:
            err('C09', 'asking for %d points changed the record' % n)
        if not isinstance(X, list) or len(X) != n:
            err('C09', '%r points instead of %d' % (len(X) if hasattr(X, '__len__') else X, n))
            return
        for p in X:
            if p not in sp:
                err('C09', '%r of the batch is outside the space' % (p,))
        if key in batch_seen and not all(same_pt(a, b) for a, b in zip(X, batch_seen[key])):
            err('C09', 'the same batch request gives %r then %r' % (batch_seen[key], X))
        keep = [list(p) for p in X]
        X2 = o.ask(n_points=n, strategy=strat)
        if len(X2) != n or not all(same_pt(a, b) for a, b in zip(keep, X2)):
            err('C09', 'the same batch request gives %r then %r' % (keep, X2))
        if key not in batch_seen and model_on:
            # the fits made while producing the batch: history, then history and lies
            fits = LOG[nlog:]
            if ps:
                fits, tfits = fits[0::2], fits[1::2]
            f = {'cl_min': min, 'cl_max': max, 'cl_mean': lambda v: sum(v) / len(v)}[strat]
            v = vals()
            lie = f(v) if v else 0.0
            nh = len(hist)
            Xh = np.asarray(o.space.transform([x for x, _ in hist] + keep), dtype=float)
            sizes = [len(r.X_) for r in fits]
            exp = [k for k in range(nh, nh + n + 1) if k >= case['n0'] and k >= 1]
            # a fit after the last point is not needed
            if sizes not in (exp, exp[:-1] if exp and exp[-1] == nh + n else exp):
                err('C09', 'producing a batch of %d after %d observations fitted on %r observations' % (n, nh, sizes))
            for r in fits:
                k = len(r.X_)
                if k > nh + n or k < nh:
                    continue
                if not np.allclose(r.X_, Xh[:k], rtol=1e-9, atol=1e-9):
                    err('C09', 'the batch was chosen pretending other points')
                wy = v + [lie] * (k - nh)
                if not np.allclose(r.y_, wy, rtol=1e-9, atol=1e-9):
                    err('C09', '%s: pretended values %r, expected %r' % (strat, list(r.y_[nh:]), lie))
                if k - nh < n and k >= case['n0'] and acq != 'gp_hedge':
                    mods = [r]
                    if ps:
                        mods = [r, tfits[fits.index(r)]]

                    class M:
                        estimators_ = mods
                    q = Quiet(mods)
                    Xr = np.vstack(r.rows_)
                    a = acq_value(case, q, Xr, min(wy), acq)
                    dec = o.space.inverse_transform(Xr[np.where(a <= a.min() + 1e-12 * max(1, abs(a.min())))[0]].copy())
                    if not any(close_pt(keep[k - nh], d) for d in dec):
                        err('C09', 'point %d of the batch is not the best candidate of the model fitted with the lies' % (k - nh))
            if ps and len(hist):
                lt = [math.log(y[1]) for _, y in hist]
                for r in tfits:
                    k = len(r.X_)
                    if k >= nh and not np.allclose(r.y_, lt + [f(lt)] * (k - nh), rtol=1e-9, atol=1e-9):
                        err('C09', '%s: pretended durations %r, expected %r' % (strat, list(r.y_[nh:]), f(lt)))
        batch_seen.clear()
        batch_seen[key] = keep

    if want == 'C09':
        for bad in (0, -1, 1.5, '2', -10):
            try:
                o.ask(n_points=bad)
            except (ValueError, TypeError):
                pass
            else:
                err('C09', 'ask(n_points=%r) accepted' % (bad,))
        for bad in ('cl_foo', 'min', '', None):
            try:
                o.ask(n_points=2, strategy=bad)
            except (ValueError, TypeError):
                pass
            else:
                err('C09', 'strategy %r accepted' % (bad,))
    for step in range(case['steps']):
        u = rng.random()
        x = None
        if want in ('C07', 'C10') or u < .6:
            x = do_ask()
        if (want == 'C09' or u > .8) and not (ps and case['est'] == 'dummy'):
            b = case.get('batch') or rng.choice([1, 2, 3, 4])
            st = rng.choice(['cl_min', 'cl_mean', 'cl_max'])
            do_batch(b, st)
            if rng.random() < .5:
                do_batch(b, rng.choice(['cl_min', 'cl_mean', 'cl_max']))
        if errs:
            return errs[:4]
        k = 1 if case.get('single') else rng.choice([1, 1, 1, 2, 3, case.get('batch') or 4])
        key_before = dict(batch_seen)
        if not do_tell(k, fit=rng.random() < .85 or bool(case.get('single')), own=x if x is not None and rng.random() < .6 else None):
            if not errs:
                raise Skip()
        if want == 'C09' and key_before and not errs and model_on and fitted and len(hist) >= case['n0']:
            (n, st), old = next(iter(key_before.items()))
            nl = len(LOG)
            do_batch(n, st)
            if len(LOG) == nl:
                err('C09', 'a batch request after new observations was answered without looking at them')
        if hist and want == 'C06':
            check_result(o.get_result(), 'get_result')
            if rng.random() < .3:
                f = lambda x: newval() if False else (lambda v: v)(fv.setdefault('v', newval()))
                fv = {}
                try:
                    n = rng.choice([1, 2])
                    seen = []

                    def obj(x):
                        v = newval()
                        seen.append((list(x), v))
                        return v
                    if not (model_on and len(hist) >= case['n0'] and not fitted):
                        res = o.run(obj, n)
                        hist.extend(seen)
                        check_result(res, 'run')
                        fitted[:] = list(o.models) if o.models else fitted
                        prev_next[0] = last_y[0] = None
                except RuntimeError:
                    pass
        if want == 'C05' and rng.random() < .2 and hist and not (model_on and len(hist) >= case['n0'] and not fitted):
            c = o.copy(random_state=3)
            if len(c.Xi) != len(hist) or not all(same_pt(a, b[0]) for a, b in zip(c.Xi, hist)) or [list(v) if ps else v for v in c.yi] != [list(v) if ps else v for v in o.yi]:
                err('C05', 'a copy recorded something else')
            same_hist('copy')
        if errs:
            return errs[:4]
    return errs[:4]
