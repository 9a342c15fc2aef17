"""C23: the Bayesian hyperparameter search evaluates what it was asked to."""
from .opt import *
from .c07 import exc_is
from . import c21
from pvc.engine import UNDEF

NOTE = ('one round, the whole search, the total, the construction of the optimizers and the check of descriptions proved for every number of subspaces, every iteration count, every '
        'number of points per round and every score sequence: exactly the budget of each subspace, each value under its own name, each setting told with its negated score')
ASSUME = ['scikit-learn: BaseSearchCV.fit calls _run_search with an evaluator that appends the settings it is given and whose mean_test_score ends with their scores, and takes the best of them',
          'the conversion of a value to a native Python value (numpy item) keeps the value', 'the optimizer suggests and records points (C03-C05, C07)']
CV = 'skopt.searchcv:BayesSearchCV'
SV = 'skopt.searchcv:'
TUP, NIT = z3.Function('HAS_COUNT', I, B), z3.Function('COUNT', I, I)


ND, KEYN, DESC = z3.Function('ENTRIES', I, I), z3.Function('KEYN', I, I, U), z3.Function('DESC', I, I, U)
BAD = z3.Function('REFUSED', U, B)          # check_dimension (C27) refuses the description


class Sub(NatObj):
    """the dictionary describing subspace i"""
    tyname = 'dict'

    def __init__(self, i):
        NatObj.__init__(self)
        self.i = i

    def py_subst(self, E, sub):
        return Sub(z3.substitute(zint(self.i), *sub))

    def py_isinstance(self, E, cls):
        if isinstance(cls, ExtV) and cls.path.startswith('builtins.'):
            return cls.path == 'builtins.dict'
        raise Unsupported('isinstance of %r' % (cls,))

    def py_eq(self, E, o):
        return zint(self.i) == zint(o.i) if isinstance(o, Sub) else False

    def py_len(self, E):
        return ND(zint(self.i))

    def py_getattr(self, E, name):
        n = ND(zint(self.i))
        if name in ('items', 'values', 'keys'):
            f = dict(items=lambda j: (KEYN(zint(self.i), zint(j)), DESC(zint(self.i), zint(j))), values=lambda j: DESC(zint(self.i), zint(j)),
                     keys=lambda j: KEYN(zint(self.i), zint(j)))[name]
            return Native(name, lambda E, a, k: PList(Seq(n=n, get=f)))
        raise Unsupported('dictionary.' + name)

    def py_getitem(self, E, k):
        raise Unsupported('entry of a description')


def spaces(E, single=False):
    """(description, number of subspaces, count of a subspace)"""
    me = Inst(E.resolve(CV))
    N = E.Int('n_iter')
    E.assume(N >= 0)
    E.rule_for(NIT, lambda i: NIT(i) >= 0)
    me.f['n_iter'] = N
    if single:
        me.f['search_spaces'] = Sub(0)
        return me, 1, lambda i: N
    S = E.Int('S')
    E.assume(S >= 1)
    me.f['search_spaces'] = PList(Seq(n=S, get=lambda i: E.vite(TUP(zint(i)), (Sub(zint(i)), NIT(zint(i))), Sub(zint(i)))))
    return me, S, lambda i: z3.If(TUP(zint(i)), NIT(zint(i)), N)


def total(single):
    def c(E):
        me, S, count = spaces(E, single)
        d0 = me.f['search_spaces']
        r = E.force(E.getattr(me, 'total_iterations'))
        if single:
            E.prove('the count of the only subspace', zint(r) == count(0))
        else:
            k = E.index_const()
            off, _ = E.offsets(k, count(k), S)          # the sum as prefix sums of whole numbers, or as a sum of numbers: the same quantity
            E.prove('the sum over the subspaces', z3.Or(zint(r) == off(S), zreal(r) == E.sum_term(S, k, count(k))))
        E.require('the description is left alone', me.f['search_spaces'] is d0)
    return c



# ------------------------------------------------------------ one round
ASK, SCORE = z3.Function('ASK', I, I, U), z3.Function('SCORE', I, R)


def item(E):
    """numpy's conversion of a value to a native Python one"""
    h = E.natives.get('numpy.array')

    def np_array(E, a, k):
        v = E.force(a[0])
        if is_u(v) and len(a) == 1:
            return Scalar0(v)
        return h(E, a, k) if h else E.np_array_default(a, k)
    E.natives['numpy.array'] = np_array


class Scalar0(NatObj):
    tyname = 'ndarray'

    def __init__(self, v):
        NatObj.__init__(self)
        self.v = v

    def py_subst(self, E, sub):
        return Scalar0(z3.substitute(self.v, *sub))

    def py_getattr(self, E, name):
        if name == 'item':
            return Native('item', lambda E, a, k: self.v)
        if name == 'tolist':
            return Native('tolist', lambda E, a, k: self.v)
        raise Unsupported('array.' + name)


def step(E):
    me = Inst(E.resolve(CV))
    n = c21.names(E)
    sp = c21.space_dict(E, n)
    d0 = sp.f['sym']
    m = E.Int('n_points')
    E.assume(m >= 1)
    prev = E.Int('evaluated_before')
    E.assume(prev >= 0)
    asked, told, evals = [], [], []
    res = OpaqueObj('result')
    item(E)

    def ask(E, a, k):
        got = a[0] if a else k.get('n_points')
        E.require('one request for points', not asked and (len(a) == 1 and not k or not a and set(k) == {'n_points'}))
        E.prove('for as many as this round evaluates', zint(got) == m)
        asked.append(1)
        return PList(Seq(n=m, get=lambda i: PList(Seq(n=n, get=lambda j: ASK(zint(i), zint(j))))))

    def tell(E, a, k):
        E.require('told once, after the evaluation', not told and len(evals) == 1 and len(a) == 2 and k.get('fit', True) is True)
        told.append(a)
        x, y = E.to_seq(a[0]), E.to_seq(a[1])
        E.prove('told as many points as evaluated', zint(x.n) == m)
        E.prove('told as many values', zint(y.n) == m)
        i = c21.index(E, m)
        j = c21.index(E, n, 'j')
        p = E.to_seq(E.seq_at(x, i))
        E.prove('every point complete', zint(p.n) == n)
        E.prove('the points suggested, in their order', E.seq_at(p, j) == ASK(i, j))
        E.prove('each with its own negated score', zreal(E.force(E.seq_at(y, i))) == -SCORE(i))
        return res

    class Opt(NatObj):
        tyname = 'skopt.optimizer.optimizer.Optimizer'

        def py_subst(self, E, sub):
            return self

        def py_getattr(self, E, name):
            return Native(name, dict(ask=ask, tell=tell)[name]) if name in ('ask', 'tell') else E.require('only ask and tell are used', False, name)

    def evaluate(E, a, k):
        E.require('one evaluation of a list of settings', len(a) == 1 and not k and not evals and len(asked) == 1)
        evals.append(1)
        l = E.to_seq(a[0])
        E.prove('every suggested setting is evaluated', zint(l.n) == m)
        i = c21.index(E, m)
        d = E.force(E.seq_at(l, i))
        E.require('a setting is a dictionary', isinstance(d, PDict))
        ks = E.to_seq(E.dict_keys(d))
        E.prove('one entry per parameter', zint(ks.n) == n)
        dims = E.to_seq(E.call(E.resolve('skopt.utils:dimensions_aslist'), [sp], {}))
        j = c21.index(E, n, 'j')
        key = E.force(E.seq_at(ks, j))
        # the optimizer searches dimensions_aslist(space): coordinate j is the one of that dimension, which has this name
        E.prove('each coordinate under a name', E.force(E.dict_get(d, key)) == ASK(i, j))
        E.prove('which is the name of the dimension it was suggested for', E.seq_at(dims, j) == E.dict_get(sp, key))
        out = PDict()
        # scikit-learn's table holds all settings so far, these ones last
        OLD = z3.Function('OLD', I, R)
        out.f['d']['mean_test_score'] = E.arr((prev + m,), lambda q: z3.If(zint(q) < prev, OLD(zint(q)), SCORE(zint(q) - prev)), 'f')
        out.f['d']['params'] = OpaqueObj('params')
        return out
    r = E.call(E.resolve(CV + '._step'), [me, sp, Opt(), Native('evaluate', evaluate)], dict(n_points=m))
    E.require('evaluated and told once', len(evals) == 1 and len(told) == 1)
    E.require('the result of the report is returned', E.force(r) is res)
    c21.same_dict(E, sp, d0)


# ------------------------------------------------------------ the whole search
DONE, STOP = z3.Function('DONE', I, I), z3.Function('STOP', I, I, B)


class SOpt(NatObj):
    """the optimizer of subspace i"""
    tyname = 'skopt.optimizer.optimizer.Optimizer'

    def __init__(self, i):
        NatObj.__init__(self)
        self.i = i

    def py_subst(self, E, sub):
        return SOpt(z3.substitute(zint(self.i), *sub))


class SRes(NatObj):
    """the result after e settings of subspace i"""
    tyname = 'OptimizeResult'

    def __init__(self, i, e):
        NatObj.__init__(self)
        self.i, self.e = i, e

    def py_subst(self, E, sub):
        return SRes(z3.substitute(zint(self.i), *sub), z3.substitute(zint(self.e), *sub))


class Ghost(NatObj):
    """what was evaluated in the current subspace"""
    tyname = 'ghost'

    def py_subst(self, E, sub):
        return self

    def get(self, k):
        v = self.f[k]
        if isinstance(v, Poison):
            raise PoisonRead(v)
        return v


def same_result(E, r, i, e):
    """r is the result after e settings of subspace i, or nothing when e is 0"""
    r = E.force(r)
    if r is None:
        return zint(e) == 0
    if not isinstance(r, SRes):
        return z3.BoolVal(False)
    return z3.And(zint(e) > 0, zint(r.i) == zint(i), zint(r.e) == zint(e))


def mentions(v, cls):
    return isinstance(v, cls) or isinstance(v, (tuple, list)) and any(mentions(x, cls) for x in v) or \
        isinstance(v, Cases) and any(mentions(x, cls) for _, x in v.alts)


class Rounds:
    """loops that evaluate one subspace: the settings evaluated so far and the budget left are in step"""
    def __init__(self, h):
        self.h = h
        self.kinds = {}

    def vals(self, E, env):
        for nm in self.written:
            try:
                v = E.load_name(nm, env)
            except PyRaise:
                continue
            if isinstance(v, (Poison, Undefined)):
                continue
            yield nm, E.force(v)

    def applies(self, E, st, env):
        s = E.to_seq(E.eval(st.iter, env))
        return not s.concrete and is_num(E.force(s.get(0)))

    def __call__(self, E, env, v=None, k=None):
        h = self.h
        if v is not None:
            e, N = zint(h.g.get('e')), h.count(h.g.get('cur'))
            return self.inv(E, env) + [('the rounds so far', z3.Or(e == zint(v), z3.And(e == N, zint(v) >= N)))]
        return self.inv(E, env)

    def inv(self, E, env):
        h = self.h
        e, N = zint(h.g.get('e')), h.count(h.g.get('cur'))
        stop = zbool(h.g.get('stopped'))
        E.require('every round is reported to the callbacks', h.g.get('pending') is False)
        out = [('never more than the budget', z3.And(e >= 0, e <= N))]
        flags = False
        for nm, v in self.vals(E, env):
            k = self.kinds.get(nm)
            if k is None:
                if is_bool(v):
                    k = 'flag'
                elif v is None or isinstance(v, SRes):
                    k = 'result'
                elif is_num(v) and is_int(v):
                    k = 'down' if E.implied(zint(v) == N) and E.implied(e == 0) else 'up' if E.implied(zint(v) == 0) and E.implied(e == 0) else 'free'
                else:
                    k = 'free'
                self.kinds[nm] = k
            if k == 'flag':
                flags = True
                out.append(('%s tells of a stop request' % nm, zbool(v) == stop))
            elif k == 'result':
                out.append(('%s is the latest result' % nm, same_result(E, v, h.g.get('cur'), e)))
            elif k == 'down':
                out.append(('%s is what is left' % nm, z3.Or(zint(v) == N - e, z3.And(e == N, zint(v) <= 0))))
            elif k == 'up':
                out.append(('%s is what is done' % nm, z3.Or(zint(v) == e, z3.And(e == N, zint(v) >= N))))
        if not flags:
            out.append(('no stop was asked for', z3.Not(stop)))
        else:
            out.append(('a stop is asked for after a round', z3.Implies(stop, z3.And(e > 0, STOP(zint(h.g.get('cur')), e)))))
        return out

    def havoc(self, E, env):
        h = self.h
        new = {}
        for nm, v in list(self.vals(E, env)):
            k = self.kinds.get(nm)
            if k == 'result':
                continue
            new[nm] = E.Bool(nm) if k == 'flag' else E.Int(nm) if is_num(v) and is_int(v) else Poison((None, nm), 'changed by the loop')
        e = E.Int('evaluated')
        E.setf(h.g, 'e', e)
        E.setf(h.g, 'stopped', E.Bool('stopped'))
        for nm, v in new.items():
            E.store_name(nm, v, env)
        for nm, k in self.kinds.items():
            if k == 'result' and nm in self.written:
                E.store_name(nm, E.vite(e > 0, SRes(h.g.get('cur'), e), None), env)


class Subspaces:
    """the loop over the subspaces: the results of the ones before are in the list, in order"""
    def __init__(self, h):
        self.h = h
        self.where = None

    def applies(self, E, st, env):
        s = E.to_seq(E.eval(st.iter, env))
        if s.concrete:
            return False
        return mentions(s.get(z3.Int('probe')), SOpt)

    def lists(self, E, env):
        h = self.h
        if self.where is None:
            v = h.me.f.get('_optim_results')
            if isinstance(v, PList) and E.length(v) == 0:
                self.where = [('attr', '_optim_results')]
            else:
                self.where = [('name', n) for n, v in env.f.items() if isinstance(v, PList) and E.length(v) == 0]
        for kind, n in self.where:
            yield kind, n, E.force(h.me.f[n] if kind == 'attr' else E.load_name(n, env))

    def __call__(self, E, env, v, k):
        h = self.h
        out = []
        E.require('every round is reported to the callbacks', h.g.get('pending') is False)
        ls = list(self.lists(E, env))
        E.require('the results are collected', len(ls) >= 1)
        for kind, n, l in ls:
            E.require('in a list', isinstance(l, PList))
            out.append(('one result per subspace', zint(E.length(l)) == k))
            lit = z3.simplify(k)
            if z3.is_int_value(lit) and lit.as_long() == 0:
                continue
            q = E.Int('q')
            E.assume(z3.And(q >= 0, q < k))
            if z3.is_add(lit) or z3.is_app(lit) and lit.num_args():     # after the body: position k-1 is new
                last = k - 1
                e = zint(h.g.get('e'))
                if E.decide(q == last):
                    out.append(('the result of the subspace just searched', same_result(E, E.seq_at(E.to_seq(l), last), last, e)))
                    out.append(('the whole budget unless a callback stops', z3.Or(e == h.count(last), z3.And(e >= 1, STOP(last, e)))))
                    continue
            out.append(('results of the earlier subspaces', same_result(E, E.seq_at(E.to_seq(l), q), q, DONE(q))))
        return out

    def havoc(self, E, env):
        h, k = self.h, self.k
        new = lambda: PList(Seq(n=k, get=lambda q: E.vite(DONE(zint(q)) > 0, SRes(zint(q), DONE(zint(q))), None)))
        for kind, n, l in list(self.lists(E, env)):
            if kind == 'attr':
                E.setf(h.me, n, new())
            else:
                E.store_name(n, new(), env)
        E.setf(h.g, 'e', z3.IntVal(0))
        E.setf(h.g, 'cur', k)
        E.setf(h.g, 'stopped', False)
        for nm in self.written:
            try:
                E.load_name(nm, env)
            except PyRaise:
                continue
            E.store_name(nm, Poison((None, nm), 'changed by the loop'), env)


class Either:
    """loops over the subspaces, or rounds written as a loop over a range"""
    def __init__(self, *invs):
        self.invs = invs

    def pick(self, E, st, env):
        return next((i for i in self.invs if i.applies(E, st, env)), None)


class H:
    pass


def search(single, cbs=True):
    def c(E):
        h = H()
        h.me, S, h.count = spaces(E, single)
        me = h.me
        d0 = me.f['search_spaces']
        P = E.Int('n_points')
        E.assume(P >= 1)
        me.f['n_points'] = P
        me.f['random_state'] = E.Int('seed')
        rng = RngObj('given')
        E.natives['sklearn.utils.check_random_state'] = lambda E, a, k: rng
        me.f['optimizer_kwargs_'] = PDict()
        me.f['optimizer_kwargs'] = None
        me.f['_optim_results'] = PList([OpaqueObj('an old result')]) if cbs else UNDEF
        h.cbs = PList([OpaqueObj('callback')])
        me.f['_callbacks'] = h.cbs
        E.rule_for(DONE, lambda i: z3.And(DONE(i) >= 0, DONE(i) <= h.count(i), z3.Or(DONE(i) == h.count(i), z3.And(DONE(i) >= 1, STOP(i, DONE(i))))))
        g = h.g = Ghost()
        g.f.update(e=z3.IntVal(0), cur=z3.IntVal(0), stopped=False, pending=False)
        ev = Native('evaluate_candidates', lambda E, a, k: E.require('settings are evaluated in rounds', False))

        def make(E, a, k):
            sub = E.force(a[1])
            E.require('an optimizer for the space of the subspace', isinstance(sub, Sub) and len(a) == 2 and not k)
            kw = E.force(me.f['optimizer_kwargs_'])
            E.require('with the random state of the search', E.force(E.dict_get(kw, 'random_state')) is rng)
            return SOpt(sub.i)
        E.overrides[CV + '._make_optimizer'] = make

        def one(E, a, k):
            names = ['self', 'search_space', 'optimizer', 'evaluate_candidates', 'n_points']
            kw = dict(zip(names, a), **k)
            sub, o = E.force(kw['search_space']), E.force(kw['optimizer'])
            E.require('a round in a subspace with its optimizer', isinstance(sub, Sub) and isinstance(o, SOpt) and kw['evaluate_candidates'] is ev)
            cur, e = zint(g.get('cur')), zint(g.get('e'))
            E.prove('subspaces one after the other', zint(sub.i) == cur)
            E.prove('its own optimizer', zint(o.i) == cur)
            m = zint(kw.get('n_points', 1))
            E.prove('at least one setting per round, at most as many as wanted in parallel', z3.And(m >= 1, m <= P))
            E.prove('never more than the budget', e + m <= h.count(cur))
            E.prove('no round after a stop request', z3.Not(zbool(g.get('stopped'))))
            E.require('every round is reported to the callbacks', g.get('pending') is False)
            E.setf(g, 'pending', True)
            E.setf(g, 'e', e + m)
            return SRes(cur, e + m)
        E.overrides[CV + '._step'] = one

        def callbacks(E, a, k):
            E.require('the callbacks of this fit', E.force(a[0]) is h.cbs)
            cur, e = zint(g.get('cur')), zint(g.get('e'))
            E.prove('with the latest result', same_result(E, a[1], cur, e))
            s = STOP(cur, e)
            E.setf(g, 'stopped', s)
            E.require('once per round', g.get('pending') is True)
            E.setf(g, 'pending', False)
            return s
        E.overrides['skopt.utils:eval_callbacks'] = callbacks
        E.loop_inv[SV + '*'] = Rounds(h)
        E.for_inv[SV + '*'] = Either(Subspaces(h), Rounds(h))
        E.call(E.getattr(me, '_run_search'), [ev], {})
        E.require('the description is left alone', me.f['search_spaces'] is d0)
        l = E.force(me.f['_optim_results'])
        E.require('a list of results', isinstance(l, PList))
        E.prove('one per subspace', zint(E.length(l)) == zint(S))
        os_ = E.force(me.f['optimizers_'])
        E.prove('one optimizer per subspace', zint(E.length(os_)) == zint(S))
        i = z3.IntVal(0) if single else c21.index(E, S)
        o = E.force(E.seq_at(E.to_seq(os_), i))
        E.require('an optimizer', isinstance(o, SOpt))
        E.prove('in the order of the subspaces', zint(o.i) == i)
        r = E.seq_at(E.to_seq(l), i)
        e = zint(g.get('e')) if single else DONE(i)
        E.prove('the result after everything evaluated there', same_result(E, r, i, e))
        E.prove('exactly the budget unless a callback stopped it', z3.Or(e == h.count(i), z3.And(e >= 1, e < h.count(i), STOP(i, e))))
    return c


# ------------------------------------------------------------ descriptions
KIND = z3.Function('KIND', I, I)
OTHERS = {'text': 'abc', 'a number': 5, 'a fraction': 2.5, 'nothing': None, 'a list': None}


def elements(E, i):
    """element i of a description, of any kind"""
    i = zint(i)
    s = Sub(i)
    alts = [s, (s, NIT(i)), (s,), (s, NIT(i), NIT(i)), (s, 'three'), (s, z3.ToReal(NIT(i)) + z3.RealVal('1/2')), (s, None), (), 'abc', z3.ToReal(NIT(i)), None, PList([NIT(i), NIT(i)])]
    v = alts[-1]
    for n, x in reversed(list(enumerate(alts[:-1]))):
        v = E.vite(KIND(i) == n, x, v)
    return v


def good(i, q):
    """the elements that describe a subspace: dictionaries, alone or with a count that is a whole number of at least zero, of descriptions of dimensions"""
    return z3.And(z3.Or(KIND(i) == 0, z3.And(KIND(i) == 1, NIT(i) >= 0)), z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < ND(i)), z3.Not(BAD(DESC(i, q))))))


def check_dim(E):
    def f(E, a, k):
        if E.decide(BAD(E.force(a[0]))):
            E.raise_('ValueError', 'refused')
        return OpaqueObj('dimension')
    E.overrides['skopt.space.space:check_dimension'] = f
    E.rule_for(ND, lambda i: ND(i) >= 0)


def described(single):
    def c(E):
        check_dim(E)
        me = Inst(E.resolve(CV))
        S = E.Int('S')
        E.assume(S >= 0)
        q = z3.Int('gq')
        if single:
            sp = Sub(0)
            ok = z3.And(ND(0) >= 1, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < ND(0)), z3.Not(BAD(DESC(0, q))))))
        else:
            sp = PList(Seq(n=S, get=lambda i: elements(E, i)))
            i = z3.Int('gi')
            E.rule_for(KIND, lambda i: z3.And(KIND(i) >= 0, KIND(i) <= 11))
            ok = z3.And(S >= 1, z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < S), good(i, q))))
        kind, e = outcome(E, lambda: E.call(E.getattr(me, '_check_search_space'), [sp], {}))
        if kind == 'raise':
            E.require('refused by an error', exc_is(e, 'ValueError', 'TypeError'))
            E.prove('proper descriptions are accepted', z3.Not(ok))
            return
        if single:
            E.prove('an empty description is refused', ND(0) >= 1)
            E.prove_forall('impossible dimensions are refused', ND(0), lambda j: z3.Not(BAD(DESC(0, zint(j)))))
            return
        E.prove('an empty description is refused', S >= 1)
        i = c21.index(E, S)
        E.prove('every element describes a subspace', z3.Or(KIND(i) == 0, KIND(i) == 1))
        E.prove('counts are whole numbers of at least zero', z3.Implies(KIND(i) == 1, NIT(i) >= 0))
        E.prove_forall('impossible dimensions are refused', ND(i), lambda j: z3.Not(BAD(DESC(i, zint(j)))))
    return c


def other_descriptions(E):
    check_dim(E)
    me = Inst(E.resolve(CV))
    for nm, v in (('text', 'abc'), ('a number', 5), ('nothing', None), ('a tuple', (Sub(0), 3)), ('an empty list', PList()), ('an empty dictionary', PDict()), ('an empty tuple', ())):
        kind, e = outcome(E, lambda: E.call(E.getattr(me, '_check_search_space'), [v], {}))
        E.require('%s is refused' % nm, kind == 'raise' and exc_is(e, 'ValueError', 'TypeError'))


def constructed(E):
    seen = []
    got = []
    E.overrides[CV + '._check_search_space'] = lambda E, a, k: seen.append(a[1])
    E.ext_methods[(BASECV, '__init__')] = Native('__init__', lambda E, a, k: got.append((a, k)))
    kw = {n: OpaqueObj(n) for n in ('optimizer_kwargs', 'n_iter', 'scoring', 'n_points', 'refit', 'cv', 'verbose', 'random_state', 'error_score', 'n_jobs', 'pre_dispatch', 'return_train_score')}
    est, sp = OpaqueObj('estimator'), OpaqueObj('search_spaces')
    me = E.force(E.call(E.resolve(CV), [est, sp], dict(kw)))
    E.require('the description is checked', len(seen) == 1 and E.force(seen[0]) is sp)
    for n in ('optimizer_kwargs', 'n_iter', 'n_points', 'random_state'):
        E.require('%s is kept' % n, E.force(me.f.get(n)) is kw[n])
    E.require('the description is kept', E.force(me.f.get('search_spaces')) is sp)
    E.require('the rest is handed to scikit-learn', len(got) == 1 and len(got[0][0]) == 1)
    k = got[0][1]
    E.require('estimator', E.force(k.get('estimator')) is est)
    for n in ('scoring', 'refit', 'cv', 'verbose', 'error_score', 'n_jobs', 'pre_dispatch', 'return_train_score'):
        E.require('%s is handed on' % n, E.force(k.get(n)) is kw[n])


BASECV = 'sklearn.model_selection._search.BaseSearchCV'


def fit(given):
    def c(E):
        me = Inst(E.resolve(CV))
        user = PDict({'base_estimator': OpaqueObj('estimator')})
        me.f['optimizer_kwargs'] = user if given else None
        me.f['return_train_score'] = False
        X, y, groups, cb, w = [OpaqueObj(n) for n in ('X', 'y', 'groups', 'callback', 'weights')]
        cbs = PList([cb])
        calls = []
        E.overrides['skopt.callbacks:check_callback'] = lambda E, a, k: cbs if a[0] is cb else E.require('the given callbacks', False)

        def base_fit(E, a, k):
            calls.append(1)
            names = ['X', 'y']
            kw = dict(zip(names, a[1:]), **k)
            E.require('the data', kw.get('X') is X and kw.get('y') is y and kw.get('groups') is groups and kw.get('sample_weight') is w and len(kw) == 4)
            E.require('the callbacks are in place', E.force(me.f.get('_callbacks')) is cbs)
            o = E.force(me.f.get('optimizer_kwargs_'))
            E.require('settings of its own', isinstance(o, PDict) and o is not user)
            E.require('with the settings given', E.force(o.f['d'].get('base_estimator')) is user.f['d']['base_estimator'] if given else not o.f['d'])
            return me
        E.ext_methods[(BASECV, 'fit')] = Native('fit', base_fit)
        r = E.call(E.getattr(me, 'fit'), [X, y], dict(groups=groups, callback=cb, sample_weight=w))
        E.require('fitted once', len(calls) == 1)
        E.require('returns the search', E.force(r) is me)
        E.require('the settings given stay as they were', not given or set(user.f['d']) == {'base_estimator'})
    return c


HASNAME = z3.Function('HASNAME', I, B)


class SDim(NatObj):
    """dimension i of the optimizer's space"""
    tyname = 'skopt.space.space.Dimension'

    def __init__(self, h, i):
        NatObj.__init__(self)
        self.h, self.i = h, i

    def py_subst(self, E, sub):
        return SDim(self.h, z3.substitute(zint(self.i), *sub))

    def py_getattr(self, E, name):
        if name == 'name':
            return E.vite(HASNAME(zint(self.i)), OpaqueStr(), None)
        raise Unsupported('dimension.' + name)

    def py_setattr(self, E, name, v):
        E.require('only the name is set', name == 'name')
        E.prove('named dimensions keep their names', z3.Not(HASNAME(zint(self.i))))
        E.prove('the name of its own parameter', E.dict_get(self.h.sp, E.force(v)) == E.seq_at(self.h.dims, zint(self.i)))


def make(E):
    h = H()
    n = c21.names(E)
    h.sp = c21.space_dict(E, n)
    d0 = h.sp.f['sym']
    h.dims = E.to_seq(E.call(E.resolve('skopt.utils:dimensions_aslist'), [h.sp], {}))
    me = Inst(E.resolve(CV))
    kw = PDict({'base_estimator': OpaqueObj('estimator'), 'random_state': RngObj('given')})
    me.f['optimizer_kwargs_'] = kw
    made = []

    class Opt(NatObj):
        tyname = 'skopt.optimizer.optimizer.Optimizer'

        def py_subst(self, E, sub):
            return self

        def py_getattr(self, E, name):
            if name == 'space':
                return sp
            raise Unsupported('optimizer.' + name)
    sp = Inst(E.resolve(SPACE + 'Space'))
    sp.f['dimensions'] = PList(Seq(n=n, get=lambda i: SDim(h, zint(i))))
    opt = Opt()

    def ctor(E, a, k):
        made.append((a, k))
        return opt
    E.overrides[OPT + 'Optimizer'] = ctor
    r = E.call(E.getattr(me, '_make_optimizer'), [h.sp], {})
    E.require('one optimizer, which is returned', len(made) == 1 and E.force(r) is opt)
    a, k = made[0]
    E.require('with the settings given', not a and set(k) == {'base_estimator', 'random_state', 'dimensions'} and all(E.force(k[x]) is kw.f['d'][x] for x in ('base_estimator', 'random_state')))
    ds = E.to_seq(k['dimensions'])
    E.prove('one dimension per parameter', zint(ds.n) == n)
    i = c21.index(E, n)
    E.prove('in the order of the names', E.seq_at(ds, i) == E.seq_at(h.dims, i))
    E.require('the settings stay as they were', set(kw.f['d']) == {'base_estimator', 'random_state'})
    c21.same_dict(E, h.sp, d0)


CONTRACTS = [('total number of iterations', total(False)), ('total number of iterations, one subspace', total(True)), ('one round', step),
             ('search', search(False)), ('search, first fit', search(False, False)), ('search, one subspace', search(True)),
             ('descriptions', described(False)), ('description, one subspace', described(True)), ('other descriptions', other_descriptions),
             ('construction', constructed), ('fit', fit(True)), ('fit, no settings', fit(False)), ('optimizer of a subspace', make)]
