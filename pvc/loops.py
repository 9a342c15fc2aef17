"""Loops over sequences of symbolic length, replaced by verified summaries.

The body is executed once for a generic index k (0 <= k < n) in a state in which
every location the loop writes holds a *hole*.  How each location evolves is read
off the paths of that one execution and checked: last value, append, running sum,
running and/or, pointwise store.  A summary is an exact characterisation of the
state after N iterations, so nothing is assumed about the body.
"""
import ast
import z3
from .vals import *
from . import solve
from .ops import NoMemo, f_cmp, isinf


class HoleSeq(Seq):
    """the content of a list at the start of iteration k"""
    __slots__ = ('loc', 'entry', 'uid')


class SymMapHole:
    def __init__(self, loc, entries=()):
        self.loc, self.entries = loc, tuple(entries)


class Hole:
    def __init__(self, obj, key, entry, kind='poison'):
        self.obj, self.key, self.entry, self.kind = obj, key, entry, kind
        self.mode = 'append'
        self.closedfn = None
        self.h = None
        self.fin = None


def written_names(st):
    """names a block assigns or stores into"""
    out = []
    for n in ast.walk(st):
        ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.For)) else []
        for t in ts:
            for m in ast.walk(t):
                if isinstance(m, ast.Name) and m.id not in out and (isinstance(m.ctx, ast.Store) or isinstance(t, (ast.Subscript, ast.Tuple))):
                    out.append(m.id)
    return out


class Widen(Exception):
    def __init__(self, h):
        self.h = h


class LoopMixin:
    loop_inv = {}
    for_inv = {}

    # ------------------------------------------------------------ statements
    def st_For(self, st, env):
        it = self.force(self.eval(st.iter, env))
        seq = self.to_seq(it)
        if seq.concrete:
            for x in seq.items:
                self.assign(st.target, x, env)
                try:
                    self.exec_block(st.body, env)
                except BreakEx:
                    return
                except ContinueEx:
                    continue
            self.exec_block(st.orelse, env)
            return

        q = env.fn.qual if env.fn is not None else '?'
        inv = self.for_inv.get(q) or self.for_inv.get(q.split(':')[0] + ':*')
        if hasattr(inv, 'pick'):
            inv = inv.pick(self, st, env)
        elif inv is not None and not inv.applies(self, st, env):
            inv = None
        if inv is not None:
            return self.for_hoare(st, env, seq, inv)

        def body(k):
            self.assign(st.target, seq.get(k), env)
            try:
                self.exec_block(st.body, env)
            except ContinueEx:
                pass
        if self.loop(seq.n, body) == 'break':
            return
        self.exec_block(st.orelse, env)

    def for_hoare(self, st, env, seq, inv):
        """Hoare rule for a loop over a range: inv(E, env, v, k) -> [(name, formula)] with v the value the loop variable takes next, k how many it took"""
        n = zint(seq.n)
        if not self.decide(n > 0):
            return
        tn = {m.id for m in ast.walk(st.target) if isinstance(m, ast.Name)}
        inv.written = [x for x in written_names(st) if x not in tn]
        for nm, f in inv(self, env, seq.get(0), z3.IntVal(0)):
            self.prove('loop invariant on entry: ' + nm, f)
        k = self.Int('k')
        inv.k = k
        inv.havoc(self, env)
        if self.choose('the loop is over'):
            self.assume(k == n)
            for nm, f in inv(self, env, seq.get(k), k):
                self.assume(zbool(f))
            self.exec_block(st.orelse, env)
            return
        self.assume(z3.And(k >= 0, k < n))
        for nm, f in inv(self, env, seq.get(k), k):
            self.assume(zbool(f))
        self.assign(st.target, seq.get(k), env)
        try:
            self.exec_block(st.body, env)
        except BreakEx:
            return
        except ContinueEx:
            pass
        for nm, f in inv(self, env, seq.get(k + 1), k + 1):
            self.prove('loop invariant preserved: ' + nm, f)
        raise Prune()

    def st_While(self, st, env):
        q = env.fn.qual if env.fn is not None else '?'
        inv = self.loop_inv.get(q) or self.loop_inv.get(q.split(':')[0] + ':*')
        if inv is not None:
            inv.written = written_names(st)
            return self.while_inv(st, env, inv)
        for _ in range(64):
            nd = len([t for t in self.dstack[-1].taken if not isinstance(t, tuple)])
            if not self.truth(self.eval(st.test, env)):
                self.exec_block(st.orelse, env)
                return
            nd2 = len([t for t in self.dstack[-1].taken if not isinstance(t, tuple)])
            if nd2 != nd and _ > 8:
                raise Unsupported('while loop without an invariant (line %s)' % self.line)
            try:
                self.exec_block(st.body, env)
            except BreakEx:
                return
            except ContinueEx:
                continue
        raise Unsupported('while loop does not end within the unrolling (line %s)' % self.line)

    def while_inv(self, st, env, inv):
        """Hoare rule.  inv(E, env) -> list of (name, formula); inv.havoc(E, env) forgets
        what the body writes; the invariant is proved on entry and after the body."""
        for nm, f in inv(self, env):
            self.prove('loop invariant on entry: ' + nm, f)
        inv.havoc(self, env)
        for nm, f in inv(self, env):
            self.assume(zbool(f))
        if not self.truth(self.eval(st.test, env)):
            self.exec_block(st.orelse, env)
            return
        try:
            self.exec_block(st.body, env)
        except BreakEx:
            return
        except ContinueEx:
            pass
        for nm, f in inv(self, env):
            self.prove('loop invariant preserved: ' + nm, f)
        if hasattr(inv, 'variant'):
            pass
        raise Prune()

    # ------------------------------------------------------------ comprehensions
    def comprehension(self, gens, elt, env):
        from .engine import Env
        e = Env(env, env.module, env.fn)
        e.defcls = env.defcls
        out = PList()
        self._comp(gens, 0, elt, e, out)
        return out.f['seq']

    def _comp(self, gens, i, elt, e, out):
        if i == len(gens):
            self.list_append(out, elt(e))
            return
        g = gens[i]
        seq = self.to_seq(self.eval(g.iter, e))

        def body(k):
            self.assign(g.target, self.seq_at(seq, k), e)
            for c in g.ifs:
                if not self.truth(self.eval(c, e)):
                    return
            self._comp(gens, i + 1, elt, e, out)
        if seq.concrete:
            for k in range(len(seq.items)):
                body(k)
        else:
            self.loop(seq.n, body)

    # ------------------------------------------------------------ generic evaluation
    def enter_ctx(self, k, rng):
        self.ctx.append(k)
        self.ctxbase.append(len(self.pc))
        self.add(rng, 'r')

    def leave_ctx(self, m, pm):
        del self.ctx[m:]
        del self.ctxbase[m:]
        del self.pc[pm:]

    def generic_paths(self, fn, ks):
        m, pm = len(self.ctx), len(self.pc)
        try:
            for k, rng in ks:
                self.enter_ctx(k, rng)
            return self.explore(fn)
        finally:
            self.leave_ctx(m, pm)

    def generic_value(self, fn, ks):
        """value of fn() for generic indices, paths merged; no effects, no exceptions"""
        rs = self.generic_paths(fn, ks)
        if not rs:
            raise Prune()
        for r in rs:
            if r.out[0] != 'ok':
                raise Unsupported('exception %r inside a generic evaluation (line %s)' % (r.out[1], self.line))
            if r.writes:
                raise Unsupported('side effect inside a generic evaluation: %s' % list(r.writes.values())[:2])
        return self.merge([(self.conj(r.conds), r.out[1]) for r in rs])

    def conj(self, fs):
        fs = [f for f in fs]
        if not fs:
            return z3.BoolVal(True)
        return z3.And(*fs) if len(fs) > 1 else fs[0]

    def index_const(self, name='k'):
        return z3.Const('%s!%d' % (name, self.uid()), z3.IntSort())

    def map_seq(self, n, fn):
        """Seq of fn(k), 0 <= k < n, evaluated once generically"""
        if isinstance(n, int):
            return Seq([fn(i) for i in range(n)])
        out = PList()
        self.loop(n, lambda k: self.list_append(out, fn(k)))
        return out.f['seq']

    # ------------------------------------------------------------ the loop summary
    def loop(self, n, body):
        ob0 = len(self.obls)
        for _ in range(8):
            try:
                return self._loop(n, body)
            except Widen as w:
                # a whole start value of a number that becomes a float
                del self.obls[ob0:]
                self.setf(w.h.obj, w.h.key, z3.simplify(zreal(w.h.entry)))
        raise Unsupported('loop summary does not stabilise (line %s)' % self.line)

    def _loop(self, n, body):
        nn = zint(n)
        if not self.decide(nn > 0):
            return None
        if self.implied(nn == 1):
            try:
                body(0)
            except BreakEx:
                return 'break'
            return None
        k = self.index_const()
        rng = z3.And(k >= 0, k < nn)
        holes = {}
        stable = False
        ob0 = len(self.obls)
        for attempt in range(40):
            del self.obls[ob0:]      # obligations of an unstable attempt do not count
            try:
                rs = self.generic_paths(lambda: self._iteration(k, holes, body), [(k, rng)])
            except PoisonRead as e:
                loc = e.poison.loc
                key = (id(loc[0]), loc[1])
                if key not in holes or e.poison is not holes[key].h:
                    raise
                self._upgrade(holes[key], k, nn)
                continue
            new = False
            for r in rs:
                for lk, (o, key, v) in r.writes.items():
                    if lk not in holes:
                        from .engine import MISSING
                        ent = o.f.get(key, UNDEF)
                        hole = Hole(o, key, ent)
                        hole.h = Poison((o, key), 'loop carried')
                        if isinstance(o, PDict) and key == 'sym':
                            hole.kind, hole.h = 'sym', SymMapHole((o, key))
                        if isinstance(o, PDict) and key == 'd':
                            raise Unsupported('dict with fixed keys updated in a loop (line %s)' % self.line)
                        holes[lk] = hole
                        new = True
            for h in holes.values():
                if h.kind in ('list', 'listlist') and h.mode == 'append' and any(
                        isinstance(v, Seq) and v.tag is not None and v.tag[0] == 'lstore' for _, v in self.path_vals(h, rs)):
                    h.mode = 'store'
                    new = True
            if not new:
                stable = True
                break
        if not stable:
            raise Unsupported('loop summary does not stabilise (line %s)' % self.line)
        if not rs:
            raise Prune()
        normal = [r for r in rs if r.out[0] == 'ok']
        exits = [r for r in rs if r.out[0] != 'ok']
        for h in sorted(holes.values(), key=lambda h: h.kind == 'poison'):
            self._classify(h, normal, k, nn, holes)
        if any(h.kind == 'num' for h in holes.values()):
            # once more, now that the closed forms of the carried numbers are known
            del self.obls[ob0:]
            for h in holes.values():
                if h.kind == 'num' and h.closedfn is not None:
                    v = lower(z3.simplify(zx(h.closedfn(k), h.h.sort() == z3.RealSort())))
                    h.kind, h.h = 'closed', v
            rs = self.generic_paths(lambda: self._iteration(k, holes, body), [(k, rng)])
            if not rs:
                raise Prune()
            for r in rs:
                if any(lk not in holes for lk in r.writes):
                    raise Unsupported('loop summary does not stabilise (line %s)' % self.line)
            normal = [r for r in rs if r.out[0] == 'ok']
            exits = [r for r in rs if r.out[0] != 'ok']
            for h in sorted(holes.values(), key=lambda h: h.kind == 'poison'):
                if h.kind != 'closed':
                    self._classify(h, normal, k, nn, holes)
        if not exits:
            self._apply(holes, n, k, nn)
            return None
        ex = self.close(z3.Or(*[self.conj(r.conds) for r in exits]), holes)
        b = self.Bool('noexit')
        w = self.Int('first')
        q = self.index_const('q')
        exq = z3.substitute(ex, (k, q))
        self.fact(z3.Implies(b, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < nn), z3.Not(exq)))))
        self.fact(z3.Implies(z3.Not(b), z3.And(w >= 0, w < nn, z3.substitute(ex, (k, w)))))
        self.fact(z3.Implies(z3.Not(b), z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < w), z3.Not(exq)))))
        if not normal:
            # the first iteration always leaves
            self.fact(z3.Not(b))
            self.fact(w == 0)
        if self.decide(b):
            self._apply(holes, n, k, nn)
            return None
        # leave at iteration w
        self._apply(holes, w, k, nn)
        for i, r in enumerate(exits):
            c = z3.substitute(self.close(self.conj(r.conds), holes), (k, w))
            if i == len(exits) - 1 or self.decide(c):
                if i == len(exits) - 1:
                    self.fact(c)
                for lk, (o, key, v) in r.writes.items():
                    h = holes[lk]
                    if v is h.h or self.same_hole(v, h):
                        continue
                    self._put(o, key, self.hole_subst(v, h, k, w, o.f.get(key)))
                kind, val = r.out
                if kind == 'break':
                    return 'break'
                if kind == 'continue':
                    raise ContinueEx()
                if kind == 'return':
                    raise ReturnEx(self.vsubst(self.close_val(val, holes), [(k, w)]))
                if kind == 'raise':
                    raise PyRaise(val)
        raise Prune()

    def _iteration(self, k, holes, body):
        for h in holes.values():
            v = h.h
            if h.kind == 'num':
                v = h.make()
            elif h.kind == 'closed':
                v = h.h
            elif h.kind in ('list', 'arr', 'pointlist', 'listlist', 'ident', 'infnum'):
                v = h.make()
            self.journal.append((h.obj, h.key, h.obj.f.get(h.key, UNDEF)))
            h.obj.f[h.key] = v
        return body(k)

    def _put(self, o, key, v):
        from .engine import MISSING
        self.journal.append((o, key, o.f.get(key, MISSING)))
        o.f[key] = v

    def same_hole(self, v, h):
        if h.kind in ('num', 'closed'):
            return is_z3(v) and is_z3(h.h) and v.eq(h.h) or v is h.h
        if h.kind in ('list', 'arr', 'pointlist', 'listlist', 'sym'):
            return v is h.val if hasattr(h, 'val') else v is h.h
        return v is h.h

    # ------------------------------------------------------------ holes
    def _upgrade(self, hole, k, nn):
        """the location is read before it is written in an iteration"""
        e = hole.entry
        if hole.kind != 'poison':
            raise Unsupported('loop-carried value of %s (line %s)' % (hole.key, self.line))
        if isinstance(e, Cases):
            e = hole.entry = self.force(e)
        if e is UNDEF or e is None or isinstance(e, (str, Poison)):
            raise Unsupported('loop-carried %s (line %s)' % (hole.key, self.line))
        ctx = list(self.ctx) + [k]
        if isinstance(e, float) and isinf(e):
            # infinite until assigned
            hole.kind = 'infnum'
            nm = 'h!%s!%d' % (hole.key, self.uid())
            IN, F = z3.Function(nm + 'inf', *([z3.IntSort()] * len(ctx) + [z3.BoolSort()])), z3.Function(nm, *([z3.IntSort()] * len(ctx) + [z3.RealSort()]))
            self.skolem.add(nm)
            self.skolem.add(nm + 'inf')

            def mk():
                hole.h = Cases([(IN(*ctx), e), (z3.Not(IN(*ctx)), F(*ctx))])
                return hole.h
            hole.make = mk
            return
        if is_num(e):
            sort = z3.BoolSort() if is_bool(e) else z3.IntSort() if is_int(e) else z3.RealSort()
            hole.kind = 'num'
            nm = 'h!%s!%d' % (hole.key, self.uid())

            def mk(sort=sort, nm=nm):
                f = z3.Function(nm, *([z3.IntSort()] * len(ctx) + [sort]))
                self.skolem.add(nm)
                hole.h = f(*ctx)
                return hole.h
            hole.make = mk
            hole.widen = lambda: mk(z3.RealSort(), nm + 'r')
            return
        if isinstance(e, Seq):
            ents = None
            if not e.concrete or e.items:
                first = self.seq_at(e, 0 if e.concrete else self.index_const())
                if isinstance(first, PList):
                    ents = 'listlist'
            hole.kind = ents or 'list'
            nm = 'hn!%d' % self.uid()
            f = z3.Function(nm, *([z3.IntSort()] * len(ctx) + [z3.IntSort()]))
            if hole.kind == 'list':
                def mk():
                    hole.hn = f(*ctx) if hole.mode == 'append' else e.n

                    def get(i):
                        if hole.mode == 'store':
                            return self.unstored(e, i, k)
                        # elements already there on entry are still there
                        if self.implied(z3.And(zint(i) >= 0, zint(i) < zint(e.n))):
                            return self.seq_at(e, i)
                        raise Unsupported('element of a list that the loop itself extends (line %s)' % self.line)
                    s = HoleSeq(n=hole.hn, get=get)
                    s.memo = NoMemo()
                    s.loc = (hole.obj, hole.key)
                    hole.val = s
                    return s
                hole.make = mk
                self.rule_for(f, lambda *a: a[-1] >= 0)
                hole.hdecl = f
            else:
                def mk():
                    def get(i):
                        if hole.mode == 'store':
                            return self.unstored(e, i, k)
                        p = PList()
                        hs = HoleSeq(n=f(*ctx), get=lambda j: (_ for _ in ()).throw(Unsupported('element of a list that the loop extends')))
                        hs.loc = (hole.obj, hole.key, i)
                        p.f['seq'] = hs
                        p.frozen = 'element'
                        p.prov = (hole.obj, hole.key, i)
                        return p
                    s = HoleSeq(n=e.n, get=get)
                    s.memo = NoMemo()
                    s.loc = (hole.obj, hole.key)
                    hole.val = s
                    return s
                hole.make = mk
                hole.hdecl = f
            return
        if isinstance(e, ArrVal):
            hole.kind = 'arr'
            sort = {'f': z3.RealSort(), 'i': z3.IntSort(), 'b': z3.BoolSort(), 'O': U}[e.dtype]
            nm = 'H!%d' % self.uid()
            f = z3.Function(nm, *([z3.IntSort()] * (len(ctx) + e.ndim) + [sort]))

            def mk():
                hole.val = ArrVal(e.shape, lambda *i: f(*(ctx + [zint(x) for x in i])), e.dtype)
                return hole.val
            hole.make, hole.hdecl = mk, f
            return
        if isinstance(e, (ArrObj, PList)) and not isinstance(hole.obj, (ArrObj, PList)):
            # a variable that keeps naming the same object, which is updated in place
            hole.kind, hole.val = 'ident', e
            hole.h = e
            hole.make = lambda: e
            return
        if isinstance(e, Obj) or isinstance(e, (FuncV, BoundM)):
            raise Unsupported('loop-carried object %s (line %s)' % (hole.key, self.line))
        raise Unsupported('loop-carried %s = %r (line %s)' % (hole.key, e, self.line))

    def store_through(self, obj, key, val):
        """mutation of an element obtained from a container of symbolic size"""
        if obj.prov is None or key != 'seq':
            raise Unsupported('mutation of an element of a summarised container')
        cont, ckey, i = obj.prov
        cur = cont.f[ckey]
        if isinstance(cur, Poison):
            raise PoisonRead(cur)
        if not isinstance(cur, HoleSeq):
            if cur.concrete or not self.ctx:
                pass
        new = PList()
        new.f['seq'] = val
        new.frozen, new.prov = 'element', obj.prov
        obj2 = obj

        def get(j):
            c = self.simp(zint(j) == zint(i))
            if c is True or (c is not False and self.implied(zbool(c))):
                return new
            if c is False or self.implied(z3.Not(c)):
                return self.seq_at(cur, j)
            return self.vite(c, new, self.seq_at(cur, j))
        s = Seq(n=cur.n, get=get, tag=('store', cur, i, new))
        s.memo = NoMemo()
        self._put(cont, ckey, s)
        # later reads through this reference see the new content
        self.journal.append((obj2, 'seq', obj2.f.get('seq')))
        obj2.f['seq'] = val

    # ------------------------------------------------------------ classification
    def path_vals(self, h, normal):
        out = []
        for r in normal:
            w = r.writes.get((id(h.obj), h.key))
            out.append((self.conj(r.conds), w[2] if w is not None else h.h))
        return out

    def _classify(self, h, normal, k, nn, holes={}):
        if not normal:
            h.fin = lambda N: h.entry
            return
        pv = self.path_vals(h, normal)
        if h.kind == 'poison':
            if all(v is h.h for _, v in pv):
                h.fin = lambda N: h.entry
                return
            if any(v is h.h or v is UNDEF and isinstance(v, Poison) for _, v in pv):
                if not isinstance(h.obj, PDict) and self.best_companion(h, pv, k, nn, holes):
                    return
                if not isinstance(h.obj, PDict) and self.last_assigned(h, pv, k, nn):
                    return
                poison = Poison((h.obj, h.key), 'assigned on some iterations only')
                h.fin = lambda N: Cases([(zint(N) <= 0, h.entry), (zint(N) > 0, poison)]) if not (isinstance(N, int) and N > 0) else poison
                return
            val = self.merge(pv)
            if isinstance(h.obj, PDict):
                raise Unsupported('dict update in a loop')

            def fin(N, val=val):
                v = self.vsubst(val, [(k, z3.simplify(zint(N) - 1))])
                if self.implied(zint(N) > 0):
                    return v
                return self.vite(zint(N) > 0, v, h.entry)
            h.fin = fin
            return
        if h.kind == 'ident':
            if not all(v is h.entry for _, v in pv):
                raise Unsupported('a variable that names another object on each iteration (line %s)' % self.line)
            h.fin = lambda N: h.entry
            return
        if h.kind == 'sym':
            ents = []
            for c, v in pv:
                if not isinstance(v, SymMapHole):
                    raise Unsupported('dict update in a loop')
                ents.append((c, v.entries))
            ln = {len(e) for _, e in ents}
            if ln != {1}:
                raise Unsupported('conditional or repeated dict insertion in a loop (line %s)' % self.line)
            if h.entry is not None:
                raise Unsupported('dict extended by two loops')
            key = self.merge([(c, e[0][0]) for c, e in ents])
            val = self.merge([(c, e[0][1]) for c, e in ents])
            h.fin = lambda N: SymMap(N, lambda i: self.vsubst(key, [(k, zint(i))]), lambda i: self.vsubst(val, [(k, zint(i))]))
            return
        if h.kind == 'num':
            return self._classify_num(h, pv, k, nn)
        if h.kind == 'infnum':
            val = self.merge(pv)
            h.fin = lambda N: self.vite(zint(N) > 0, self.vsubst(val, [(k, zint(N) - 1)]), h.entry)
            return
        if h.kind in ('list', 'listlist') and h.mode == 'store':
            return self._classify_liststore(h, pv, k, nn)
        if h.kind == 'list':
            return self._classify_list(h, pv, k, nn)
        if h.kind == 'arr':
            return self._classify_arr(h, pv, k, nn)
        if h.kind == 'listlist':
            return self._classify_listlist(h, pv, k, nn)
        raise Unsupported('loop summary')

    def has_term(self, v, t):
        return any(x.eq(t) for x in solve.subterms([v], skip_quant=False))

    def _classify_num(self, h, pv, k, nn):
        e = h.entry
        hh = h.h
        pv = [(c, self.force_num(v)) for c, v in pv]
        if hh.sort() == z3.BoolSort():
            v = zbool(self.merge(pv))
            # v as a function of the hole
            vt = z3.simplify(z3.substitute(v, (hh, z3.BoolVal(True))))
            vf = z3.simplify(z3.substitute(v, (hh, z3.BoolVal(False))))

            def closed(N, vt=vt, vf=vf):
                if z3.is_true(vt) or self.implied_generic(vt, k, nn):
                    # hole or F: becomes true at the first k with F
                    r = self.not_(self.all_formula(N, k, z3.Not(vf)))
                    return self.or_(zbool(e), r)
                if z3.is_false(vf) or self.implied_generic(z3.Not(vf), k, nn):
                    r = self.all_formula(N, k, vt)
                    return self.and_(zbool(e), r)
                raise Unsupported('boolean carried through a loop (line %s)' % self.line)
            h.fin = closed
            h.closed = None
            return
        real = hh.sort() == z3.RealSort()
        conv = zreal if real else zint
        if not real and any(is_real(v) for _, v in pv):
            # an int start value that becomes a float
            raise Widen(h)
        v = conv(self.merge([(c, conv(x)) for c, x in pv]))
        d = self.lin_diff(v, hh)
        if d is not None:
            if not self.has_term(d, k):
                def closed(N):
                    nr = zreal(N) if real else zint(N)
                    return lower(z3.simplify(conv(e) + nr * d))
            elif not real and self.implied_generic(d >= 0, k, nn):
                off, blk = self.offsets(k, d, nn)

                def closed(N):
                    return lower(z3.simplify(conv(e) + zint(off(N))))
            else:
                def closed(N):
                    return conv(e) + self.sum_term(N, k, d)
            h.fin = h.closedfn = closed
            ctx = hh.children()
            self.rule_for(hh.decl(), lambda *a: self.conv_rule(hh.decl()(*a), z3.substitute(zx(closed(a[-1]), real), *[(c, x) for c, x in zip(ctx[:-1], a[:-1])])))
            return
        if not self.has_term(v, hh):
            # last value, read in the next iteration
            def closed(N):
                N = zint(N)
                return z3.If(N > 0, z3.substitute(v, (k, N - 1)), conv(e))
            h.fin = h.closedfn = closed
            ctx = hh.children()
            self.rule_for(hh.decl(), lambda *a: hh.decl()(*a) == z3.substitute(closed(a[-1]), *[(c, x) for c, x in zip(ctx[:-1], a[:-1])]))
            return
        # running maximum / minimum of e(k)
        r = self.running_extreme(h, v, hh, k, e, conv)
        if r:
            return
        # nothing known but that it is what the last iteration left
        h.fin = lambda N: self.vite(zint(N) > 0, z3.substitute(v, (k, zint(N) - 1)), e)

    def conv_rule(self, a, b):
        return a == b

    def running_extreme(self, h, v, hh, k, e, conv):
        for sign in ('max', 'min'):
            # find x with v == If(x > hh, x, hh)
            big = z3.substitute(v, (hh, conv(e)))
            v2 = z3.simplify(v)
            if z3.is_app(v2) and v2.decl().kind() == z3.Z3_OP_ITE:
                cand = [c for c in (v2.arg(1), v2.arg(2)) if not self.has_term(c, hh)]
                for x in cand:
                    want = z3.If(x > hh, x, hh) if sign == 'max' else z3.If(x < hh, x, hh)
                    hyp = [g for g, _ in self.pc if not solve.has_quant(g)]
                    if solve.check(hyp + [v != want], 2000)[0] == 'unsat':
                        h.extreme = (x, sign, e, conv)
                        h.ext_memo = {}

                        def fin(N):
                            return self.extreme_at(h, N, k)[0]
                        h.fin = fin
                        return True
        return False

    def extreme_at(self, h, N, k):
        """(value, improved on the entry value?, first iteration reaching it) after N iterations"""
        key = zint(N).sexpr()
        if key not in h.ext_memo:
            x, sign, e, conv = h.extreme
            m = self.fresh('ext', h.h.sort())
            q = self.index_const('q')
            xq = z3.substitute(x, (k, q))
            le = (lambda a, b: a <= b) if sign == 'max' else (lambda a, b: a >= b)
            lt = (lambda a, b: a < b) if sign == 'max' else (lambda a, b: a > b)
            w, imp = self.Int('w'), self.Bool('improved')
            xw = z3.substitute(x, (k, w))
            self.fact(le(conv(e), m))
            self.fact(z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zint(N)), le(xq, m))))
            self.fact(z3.Implies(z3.Not(imp), m == conv(e)))
            self.fact(z3.Implies(imp, z3.And(w >= 0, w < zint(N), m == xw, lt(conv(e), m))))
            self.fact(z3.Implies(imp, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < w), lt(xq, m)))))
            h.ext_memo[key] = (m, imp, w)
        return h.ext_memo[key]

    def best_companion(self, h, pv, k, nn, holes):
        """a location assigned exactly on the iterations that improve a running extreme"""
        got = [(c, v) for c, v in pv if v is not h.h]
        if not got:
            return False
        A = z3.Or(*[zbool(c) for c, _ in got])
        hyp = [g for g, _ in self.pc if not solve.has_quant(g)] + [k >= 0, k < nn]
        for o in holes.values():
            if getattr(o, 'extreme', None) is None or o.kind != 'num':
                continue
            x, sign, _, _ = o.extreme
            hh = o.h
            guard = x > hh if sign == 'max' else x < hh
            if solve.check(hyp + [A != guard] + self.theory.saturate(hyp + [A, guard]), 3000)[0] != 'unsat':
                continue
            # (the carried extreme itself, if the value mentions it, stands for its value at that iteration)
            val = self.merge(got)

            def fin(N, o=o, val=val):
                _, imp, w = self.extreme_at(o, N, k)
                return self.vite(imp, self.vsubst(val, [(k, w)]), h.entry)
            h.fin = fin
            return True
        return False

    def last_assigned(self, h, pv, k, nn):
        """a location assigned on some iterations: afterwards what the last assigning iteration gave it, if there was one"""
        if any(v is UNDEF for _, v in pv):
            return False
        got = [(c, v) for c, v in pv if v is not h.h]
        A = zbool(self.or_(*[c for c, _ in got]))
        val = self.merge(got)
        memo = {}

        def fin(N):
            key = zint(N).sexpr()
            if key not in memo:
                w, some, q = self.Int('last'), self.Bool('assigned'), self.index_const('q')
                at = lambda i: z3.substitute(A, (k, i))
                self.fact(z3.Implies(some, z3.And(w >= 0, w < zint(N), at(w))))
                self.fact(z3.Implies(some, z3.ForAll([q], z3.Implies(z3.And(q > w, q < zint(N)), z3.Not(at(q))))))
                self.fact(z3.Implies(z3.Not(some), z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zint(N)), z3.Not(at(q))))))
                memo[key] = (w, some)
            w, some = memo[key]
            return self.vite(some, self.vsubst(val, [(k, w)]), h.entry)
        h.fin = fin
        return True

    def force_num(self, v):
        if isinstance(v, Cases):
            return self.merge_num(v)
        if not is_num(v):
            raise Unsupported('number replaced by %r in a loop (line %s)' % (v, self.line))
        return v

    def merge_num(self, c):
        v = self.force_num(c.alts[-1][1])
        for cond, x in reversed(c.alts[:-1]):
            x = self.force_num(x)
            if is_int(x) and is_int(v):
                v = z3.If(cond, zint(x), zint(v))
            else:
                v = z3.If(cond, zreal(x), zreal(v))
        return v

    def lin_diff(self, v, hh):
        d = z3.simplify(v - hh, som=True)
        if not self.has_term(d, hh):
            return d
        # push through ite
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and not self.has_term(v.arg(0), hh):
            a, b = self.lin_diff(v.arg(1), hh), self.lin_diff(v.arg(2), hh)
            if a is not None and b is not None:
                return z3.If(v.arg(0), a, b)
        return None

    def implied_generic(self, f, k, nn):
        hyp = [g for g, _ in self.pc if not solve.has_quant(g)] + [k >= 0, k < nn]
        return solve.check(hyp + [z3.Not(f)] + self.theory.saturate(hyp + [f]), 3000)[0] == 'unsat'

    def all_formula(self, N, k, f):
        """reified: for all 0 <= k < N: f"""
        b = self.Bool('all')
        w = self.Int('w')
        q = self.index_const('q')
        self.fact(z3.Implies(b, z3.ForAll([q], z3.Implies(z3.And(q >= 0, q < zint(N)), z3.substitute(f, (k, q))))))
        self.fact(z3.Implies(z3.Not(b), z3.And(w >= 0, w < zint(N), z3.Not(z3.substitute(f, (k, w))))))
        return b

    def flat(self, s):
        """parts of a (concatenated) sequence"""
        if isinstance(s, HoleSeq) or s.parts is None:
            return [s]
        return self.flat(s.parts[0]) + self.flat(s.parts[1])

    def appended(self, v, loc):
        ps = self.flat(v)
        if not isinstance(ps[0], HoleSeq) or ps[0].loc[:2] != loc[:2]:
            return None
        return ps[1:]

    def _classify_list(self, h, pv, k, nn):
        loc = (h.obj, h.key)
        rows = []
        for c, v in pv:
            if isinstance(v, Poison) or v is UNDEF:
                raise Unsupported('list in a loop')
            a = self.appended(v, loc) if isinstance(v, Seq) else None
            if a is None:
                return self._classify_liststore(h, pv, k, nn)
            rows.append((c, a))
        ent = h.entry
        if all(all(p.concrete for p in a) for _, a in rows):
            items = [(c, [x for p in a for x in p.items]) for c, a in rows]
            lens = {len(x) for _, x in items}
            if len(lens) == 1:
                c_ = lens.pop()
                if c_ == 0:
                    h.fin = lambda N: ent
                    self.rule_for(h.hdecl, lambda *a: h.hdecl(*a) == zint(ent.n))
                    return
                cols = [self.merge([(c, x[j]) for c, x in items]) for j in range(c_)]

                def fin(N):
                    N = lower(z3.simplify(zint(N)))
                    if isinstance(N, int) and N <= 8:
                        s = Seq([self.vsubst(cols[j], [(k, z3.IntVal(i))]) for i in range(max(N, 0)) for j in range(c_)])
                    elif c_ == 1:
                        s = Seq(n=N, get=lambda i: self.vsubst(cols[0], [(k, zint(i))]))
                    else:
                        def get(i):
                            q, r = zint(i) / c_, zint(i) % c_
                            v = self.vsubst(cols[-1], [(k, q)])
                            for j in range(c_ - 2, -1, -1):
                                v = self.vite(r == j, self.vsubst(cols[j], [(k, q)]), v)
                            return v
                        s = Seq(n=lower(z3.simplify(zint(N) * c_)), get=get)
                    return self.seq_concat(ent, s)
                h.fin = fin
                self.rule_for(h.hdecl, lambda *a: h.hdecl(*a) == zint(ent.n) + a[-1] * c_)
                return
            if lens == {0, 1}:
                return self._classify_filter(h, items, k, nn, ent)
        # variable number of elements per iteration: positions are prefix sums
        return self._classify_flat(h, rows, k, nn, ent)

    def _classify_filter(self, h, items, k, nn, ent):
        cond = z3.Or(*[c for c, x in items if x])
        val = self.merge([(c, x[0]) for c, x in items if x])

        def fin(N):
            N = zint(N)
            m = self.Int('cnt')
            sel, inv = self.select_map(N, k, cond, m)
            s = Seq(n=m, get=lambda i: self.vsubst(val, [(k, sel(i))]))
            s.tag = ('filter', sel, inv)
            return self.seq_concat(ent, s)
        h.fin = fin

    def select_map(self, N, k, cond, m):
        """sel: positions -> indices where cond holds, in order; inv: its inverse"""
        u = self.uid()
        ctx = list(self.ctx)
        I_ = z3.IntSort()
        S = z3.Function('sel!%d' % u, *([I_] * (len(ctx) + 2)))
        V = z3.Function('selinv!%d' % u, *([I_] * (len(ctx) + 2)))
        sel = lambda i: S(*(ctx + [zint(i)]))
        inv = lambda i: V(*(ctx + [zint(i)]))
        cd = lambda i: z3.substitute(cond, (k, zint(i)))
        i, j = self.index_const('i'), self.index_const('j')
        self.fact(z3.And(m >= 0, m <= N))
        self.rule_for(S, lambda *a: z3.Implies(z3.And(a[-1] >= 0, a[-1] < m), z3.And(
            sel(a[-1]) >= 0, sel(a[-1]) < N, cd(sel(a[-1])), inv(sel(a[-1])) == a[-1], sel(a[-1]) >= a[-1])))
        self.rule_for(V, lambda *a: z3.Implies(z3.And(a[-1] >= 0, a[-1] < N, cd(a[-1])), z3.And(
            inv(a[-1]) >= 0, inv(a[-1]) < m, sel(inv(a[-1])) == a[-1])))
        self.fact(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N, cd(i)), z3.And(inv(i) >= 0, inv(i) < m, sel(inv(i)) == i))))
        self.fact(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < m), sel(i) < sel(j))))
        return sel, inv

    def _classify_flat(self, h, rows, k, nn, ent):
        """each iteration appends len(k) elements; element p of iteration j sits at off(j)+p"""
        seqs = []
        for c, a in rows:
            s = Seq(())
            for p in a:
                s = self.seq_concat(s, p)
            seqs.append((c, s))
        ln = self.merge([(c, lower(zint(s.n))) for c, s in seqs])
        ln = zint(ln)
        off, blk = self.offsets(k, ln, nn)

        def elem(j, p):
            pairs = [(z3.substitute(c, (k, j)), self.seq_at_sub(s, p, k, j)) for c, s in seqs]
            return self.merge(pairs)

        def fin(N):
            def get(i):
                j = blk(zint(i))
                return elem(j, z3.simplify(zint(i) - off(j)))
            s = Seq(n=off(zint(N)), get=get)
            s.tag = ('flat', off, blk, lambda j, p: elem(zint(j), p), N)
            return self.seq_concat(ent, s)
        h.fin = fin
        self.rule_for(h.hdecl, lambda *a: h.hdecl(*a) == zint(ent.n) + off(a[-1]))

    def seq_at_sub(self, s, p, k, j):
        if s.concrete:
            return self.seq_at(self.seq_subst(s, [(k, j)]), p)
        q = self.index_const('p')
        return self.vsubst(self.seq_at(s, q), [(k, j), (q, zint(p))])

    def offsets(self, k, ln, nn):
        """prefix sums off(j) of ln(k), and blk(i): the j with off(j) <= i < off(j+1)"""
        key = ('off', z3.simplify(z3.substitute(ln, (k, z3.Int('k#')))).sexpr(), tuple(c.get_id() for c in self.ctx))
        if key in self.sums:
            return self.sums[key]
        cid = tuple(c.get_id() for c in self.ctx)
        for ln2, k2, c2, res, n2 in getattr(self, 'offs', []):
            if c2 == cid and n2.eq(nn):
                hyp = [g for g, _ in self.pc if not solve.has_quant(g)] + [k >= 0, k < nn]
                g = ln == z3.substitute(ln2, (k2, k))
                if solve.check(hyp + [z3.Not(g)] + self.theory.saturate(hyp + [g]), 2000)[0] == 'unsat':
                    self.sums[key] = res
                    return res
        u = self.uid()
        ctx = list(self.ctx)
        I_ = z3.IntSort()
        O = z3.Function('off!%d' % u, *([I_] * (len(ctx) + 2)))
        B = z3.Function('blk!%d' % u, *([I_] * (len(ctx) + 2)))
        off = lambda j: z3.IntVal(0) if isinstance(j, int) and j == 0 else O(*(ctx + [zint(j)]))
        blk = lambda i: B(*(ctx + [zint(i)]))
        l = lambda j: z3.substitute(ln, (k, zint(j)))
        self.off_decls = getattr(self, 'off_decls', {})
        # ln(k) >= 0 must hold for the prefix sums to be monotone
        if not self.implied_generic(ln >= 0, k, nn):
            raise Unsupported('negative length')
        a, b = self.index_const('a'), self.index_const('b')

        def rule(*x):
            j = x[-1]
            return [z3.Implies(j == 0, O(*x) == 0), z3.Implies(z3.And(j >= 0, j < nn), O(*(x[:-1] + (j + 1,))) == O(*x) + l(j)),
                    z3.Implies(z3.And(j > 0, j <= nn), O(*(x[:-1] + (j - 1,))) + l(j - 1) == O(*x)), z3.Implies(j >= 0, O(*x) >= 0)]
        depth = {'n': 0}
        self.rule_for(O, lambda *x: rule(*x))
        self.rule_for(B, lambda *x: z3.Implies(z3.And(x[-1] >= 0, x[-1] < off(nn)),
                                              z3.And(B(*x) >= 0, B(*x) < nn, off(B(*x)) <= x[-1], x[-1] < off(B(*x)) + l(B(*x)))))
        self.fact(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b <= nn), off(a) + l(a) <= off(b))))
        self.assumptions.add('prefix sums of non-negative lengths are monotone (lemma by induction)')
        self.sums[key] = (off, blk)
        self.offs.append((ln, k, cid, (off, blk), nn))
        return off, blk

    def unstored(self, e, i, k):
        """element of a list the loop stores into at its index: from index k on still the entry value"""
        if zint(i).eq(zint(k)) or self.implied(zint(i) >= k):
            return self.seq_at(e, i)
        raise Unsupported('element stored by an earlier iteration read in a loop (line %s)' % self.line)

    def _classify_liststore(self, h, pv, k, nn):
        """xs[k] = v for every k"""
        ent = h.entry
        vals = []
        for c, v in pv:
            if isinstance(v, HoleSeq):
                vals.append((c, self.seq_at(ent, k)))
            elif isinstance(v, Seq) and v.tag is not None and v.tag[0] == 'lstore' and isinstance(v.tag[1], HoleSeq) \
                    and (zint(v.tag[2]).eq(k)):
                vals.append((c, v.tag[3]))
            else:
                raise Unsupported('list rewritten in a loop (line %s)' % self.line)
        val = self.merge(vals)

        def fin(N):
            full = self.implied(zint(N) == zint(ent.n))

            def get(i):
                if full or self.implied(zint(i) < zint(N)):
                    return self.vsubst(val, [(k, zint(i))])
                if self.implied(zint(i) >= zint(N)):
                    return self.seq_at(ent, i)
                return self.vite(zint(i) < zint(N), self.vsubst(val, [(k, zint(i))]), self.seq_at(ent, i))
            if full and isinstance(ent.n, int):
                return Seq([self.vsubst(val, [(k, z3.IntVal(i))]) for i in range(ent.n)])
            s = Seq(n=ent.n, get=get)
            if not full:
                s.memo = NoMemo()
            return s
        h.fin = fin

    def _classify_listlist(self, h, pv, k, nn):
        """every element list is extended: columns[j].append(...) for all j (inner loop done
        already) or columns[k].append(...) at the loop index"""
        ent = h.entry
        j = self.index_const('j')
        rows = []
        for c, v in pv:
            rows.append((c, v))
        # (a) store at index k in this loop
        if all(isinstance(v, Seq) and v.tag is not None and v.tag[0] == 'store' and isinstance(v.tag[1], HoleSeq)
               and zint(v.tag[2]).eq(zint(k)) for _, v in rows):
            news = [(c, v.tag[3]) for c, v in rows]

            def fin(N):
                def get(i):
                    pairs = []
                    for c, nw in news:
                        sq = nw.f['seq']
                        parts = self.flat(sq)
                        base = self.seq_at(ent, i)
                        s = base.f['seq']
                        rest = parts[1:]
                        for p in rest:
                            s = self.seq_concat(s, self.seq_subst(p, [(k, zint(i))]))
                        pl = PList()
                        pl.f['seq'] = s
                        pl.frozen, pl.prov = 'element', (h.obj, h.key, i)
                        pairs.append((z3.substitute(c, (k, zint(i))), pl))
                    return self.merge(pairs)
                if self.implied(zint(N) == zint(ent.n)):
                    s = Seq(n=ent.n, get=get, tag=('mapped', ent, news, k))
                else:
                    s = Seq(n=ent.n, get=lambda i: self.vite(zint(i) < zint(N), get(i), self.seq_at(ent, i)))
                s.memo = NoMemo()
                return s
            h.fin = fin
            return
        # (b) every element extended by the same number of elements in each iteration
        if len(rows) == 1:
            v = rows[0][1]
            e = self.seq_at(v, j)
            if isinstance(e, PList):
                parts = self.flat(e.f['seq'])
                if isinstance(parts[0], HoleSeq) and all(p.concrete for p in parts[1:]):
                    items = [x for p in parts[1:] for x in p.items]
                    if len(items) == 1:
                        def fin(N):
                            def get(i):
                                base = self.seq_at(ent, i).f['seq']
                                x = items[0]
                                s = Seq(n=N, get=lambda t: self.vsubst(x, [(j, zint(i)), (k, zint(t))]))
                                pl = PList()
                                pl.f['seq'] = self.seq_concat(base, s)
                                pl.frozen, pl.prov = 'element', (h.obj, h.key, i)
                                return pl
                            s = Seq(n=ent.n, get=get)
                            s.memo = NoMemo()
                            return s
                        h.fin = fin
                        return
        raise Unsupported('list of lists rewritten in a loop (line %s)' % self.line)

    def _classify_arr(self, h, pv, k, nn):
        e = h.entry
        nd = e.ndim
        idx = [self.index_const('x') for _ in range(nd)]
        vals = []
        for c, v in pv:
            if not isinstance(v, ArrVal):
                raise Unsupported('array in a loop')
            vals.append((c, v.at(*idx)))
        conv = {'f': zreal, 'i': zint, 'b': zbool}.get(e.dtype)
        if conv is None:
            raise Unsupported('object array written in a loop')
        new = conv(self.merge([(c, conv(self.force_num(x))) for c, x in vals]))
        f = h.hdecl
        ctx = list(self.ctx)
        old = f(*(ctx + [k] + idx))
        rng = [z3.And(x >= 0, x < zint(d)) for x, d in zip(idx, e.shape)] + [k >= 0, k < nn]
        hyp = [g for g, _ in self.pc if not solve.has_quant(g)] + rng
        for ax in range(nd):
            goal = z3.Implies(idx[ax] != k, new == old)
            sat = self.theory.saturate(hyp + [goal])
            if solve.check(hyp + sat + [z3.Not(goal)], 3000)[0] == 'unsat':
                # value stored at index k along ax; reads of the hole at k see the entry value
                atk = z3.substitute(new, (idx[ax], k))
                ent_at = lambda ix: conv(e.at(*ix))

                def strip(t, sub_idx):
                    # occurrences of the hole at (k, ..k..) are entry values
                    for s in solve.subterms([t]):
                        if z3.is_app(s) and s.decl().eq(f):
                            ix = s.children()[len(ctx) + 1:]
                            if not ix[ax].eq(k):
                                raise Unsupported('array cell of another iteration read in a loop (line %s)' % self.line)
                            t = z3.substitute(t, (s, ent_at(ix)))
                    return t
                atk = strip(atk, None)
                ent = conv(e.at(*idx))
                if not any(is_z3(t) and z3.is_app(t) and t.decl().eq(f) for t in solve.subterms([atk, ent])):
                    # what an iteration finds in the array: cells before it are stored, the others as on entry
                    def rule(*a, ax=ax, atk=atk, ent=ent):
                        kk, ix = a[len(ctx)], a[len(ctx) + 1:]
                        cs = list(zip(ctx, a[:len(ctx)]))
                        st = z3.substitute(atk, *([(idx[b], ix[b]) for b in range(nd) if b != ax] + [(k, ix[ax])] + cs))
                        en = z3.substitute(ent, *([(idx[b], ix[b]) for b in range(nd)] + cs))
                        return z3.Implies(z3.And(kk >= 0, kk < (z3.substitute(nn, *cs) if cs else nn)), f(*a) == z3.If(z3.And(ix[ax] >= 0, ix[ax] < kk), st, en))
                    self.rule_for(f, rule)

                def fin(N, ax=ax, atk=atk):
                    def fn(*i):
                        inside = z3.And(zint(i[ax]) >= 0, zint(i[ax]) < zint(N))
                        stored = z3.substitute(atk, *[(idx[b], zint(i[b])) for b in range(nd) if b != ax], (k, zint(i[ax])))
                        if self.implied(inside):
                            return stored
                        return self.vite(inside, stored, e.at(*i))
                    a = ArrVal(e.shape, fn, e.dtype)
                    a.memo = NoMemo()
                    return a
                h.fin = fin
                return
        # accumulation: new = old + d
        d = self.lin_diff(new, old)
        if d is not None and not any(z3.is_app(s) and s.decl().eq(f) for s in solve.subterms([d])):
            def fin(N):
                def fn(*i):
                    dd = z3.substitute(d, *[(idx[b], zint(i[b])) for b in range(nd)])
                    base = conv(e.at(*i))
                    if self.has_term(dd, k):
                        return self.num_binop('+', base, self.sum_term(N, k, dd))
                    return base + (zreal(N) if e.dtype == 'f' else zint(N)) * dd
                a = ArrVal(e.shape, fn, e.dtype)
                return a
            h.fin = fin
            return
        raise Unsupported('array rewritten in a loop (line %s)' % self.line)

    # ------------------------------------------------------------ application
    def close(self, f, holes):
        """replace number holes by their closed forms"""
        subs = []
        for h in holes.values():
            if h.kind == 'num' and h.fin is not None and self.has_term(f, h.h):
                kk = h.h.children()[-1]
                v = h.fin(kk)
                v = zbool(v) if h.h.sort() == z3.BoolSort() else zreal(v) if h.h.sort() == z3.RealSort() else zint(v)
                subs.append((h.h, v))
        return z3.substitute(f, *subs) if subs else f

    def close_val(self, v, holes):
        subs = []
        for h in holes.values():
            if h.kind == 'num' and h.fin is not None:
                kk = h.h.children()[-1]
                x = h.fin(kk)
                x = zbool(x) if h.h.sort() == z3.BoolSort() else zreal(x) if h.h.sort() == z3.RealSort() else zint(x)
                subs.append((h.h, x))
        return self.vsubst(v, subs) if subs else v

    def _apply(self, holes, N, k, nn):
        vals = []
        for h in holes.values():
            v = h.fin(N)
            vals.append((h, v))
        # number holes mentioned by other summaries are replaced by their closed forms via rules
        for h, v in vals:
            if v is h.entry:
                continue
            if v is UNDEF:
                self.delf(h.obj, h.key)
                continue
            self._put(h.obj, h.key, v)

    def hole_subst(self, v, h, k, w, cur):
        """value written by the leaving iteration, in terms of the state at its start"""
        if h.kind == 'list' and isinstance(v, Seq):
            a = self.appended(v, (h.obj, h.key))
            if a is None:
                raise Unsupported('list in a leaving iteration')
            s = cur
            for p in a:
                s = self.seq_concat(s, self.seq_subst(p, [(k, w)]))
            return s
        if h.kind in ('arr', 'listlist', 'sym'):
            raise Unsupported('store in the leaving iteration of a loop (line %s)' % self.line)
        return self.vsubst(v, [(k, w)])

    # ------------------------------------------------------------ sums
    def sum_term(self, n, k, body):
        """sum over 0 <= k < n of body(k), as an uninterpreted term keyed by the body"""
        n = zint(n)
        body = zreal(body)
        lit = lower(z3.simplify(n))
        if isinstance(lit, int) and lit <= 6:
            r = z3.RealVal(0)
            for i in range(lit):
                r = r + z3.substitute(body, (k, z3.IntVal(i)))
            return z3.simplify(r) if lit else z3.RealVal(0)
        body = z3.simplify(body)
        if not self.has_term(body, k):
            return z3.ToReal(n) * body
        # pull out factors that do not depend on k; split sums
        if z3.is_app(body) and body.decl().kind() == z3.Z3_OP_ADD:
            r = None
            for c in body.children():
                t = self.sum_term(n, k, c)
                r = t if r is None else r + t
            return r
        if z3.is_app(body) and body.decl().kind() == z3.Z3_OP_MUL:
            out = [c for c in body.children() if not self.has_term(c, k)]
            ins = [c for c in body.children() if self.has_term(c, k)]
            if out and ins:
                p = ins[0]
                for c in ins[1:]:
                    p = p * c
                r = out[0]
                for c in out[1:]:
                    r = r * c
                return r * self.sum_term(n, k, p)
        if z3.is_app(body) and body.decl().kind() == z3.Z3_OP_DIV and not self.has_term(body.arg(1), k):
            return self.sum_term(n, k, body.arg(0)) / body.arg(1)
        # abstract index constants (contexts and goal indices) into parameters
        consts = []
        for t in solve.subterms([body]):
            if z3.is_const(t) and t.sort() == z3.IntSort() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and not t.eq(k):
                consts.append(t)
        consts.sort(key=lambda t: t.decl().name())
        bv = z3.Int('k#')
        ps = [z3.Int('p#%d' % i) for i in range(len(consts))]
        canon = z3.substitute(body, (k, bv), *list(zip(consts, ps)))
        key = ('sum', canon.sexpr())
        if key not in self.sums:
            f = z3.Function('SUM!%d' % len(self.sums), *([z3.IntSort()] * (1 + len(ps)) + [z3.RealSort()]))
            self.sums[key] = (f, canon, bv, ps)
            self.sumdefs = getattr(self, 'sumdefs', {})
            self.sumdefs[f.name()] = (f, canon, bv, ps)

            def rule(*a):
                return z3.Implies(a[0] <= 0, f(*a) == 0)
            self.rule_for(f, rule)
        f = self.sums[key][0]
        return f(n, *consts)

    def sum_body(self, app, j):
        f, canon, bv, ps = self.sumdefs[app.decl().name()]
        return z3.substitute(canon, (bv, j), *list(zip(ps, app.children()[1:])))

    def prove_with_lemmas(self, hyps, goal, timeout):
        """sums of pointwise equal / ordered bodies are equal / ordered"""
        apps = [t for t in solve.subterms(hyps + [goal]) if z3.is_app(t) and t.decl().name().startswith('SUM!') and t.num_args()]
        gapps = [t for t in solve.subterms([goal]) if z3.is_app(t) and t.decl().name().startswith('SUM!') and t.num_args()]
        if not gapps:
            return None
        lem = []
        j = self.index_const('j')
        for i, a in enumerate(gapps):
            na = a.arg(0)
            ba = self.sum_body(a, j)
            rng = [j >= 0, j < na]
            if solve.prove(hyps + rng, ba >= 0, self.theory, 3).status == 'proved':
                lem.append(a >= 0)
            for b in apps:
                if b.eq(a) or not (b.arg(0).eq(na) or solve.prove(hyps, b.arg(0) == na, self.theory, 2).status == 'proved'):
                    continue
                bb = self.sum_body(b, j)
                if solve.prove(hyps + rng, ba == bb, self.theory, 4).status == 'proved':
                    lem.append(a == b)
                elif solve.prove(hyps + rng, ba <= bb, self.theory, 2).status == 'proved':
                    lem.append(a <= b)
        if not lem:
            return None
        r = solve.prove(hyps + lem, goal, self.theory, timeout)
        if r.status == 'proved':
            r.backend += ' with sum lemmas'
        return r


def zx(v, real):
    return zreal(v) if real else zint(v)


from .engine import BreakEx, ContinueEx, ReturnEx, Prune  # noqa: E402
