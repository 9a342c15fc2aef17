"""Symbolic interpreter for the real Python sources of the package.

Paths are explored by re-execution: `explore(fn)` runs fn once per feasible
sequence of branch decisions.  Inside loops over sequences of symbolic length the
body is executed once for a generic iteration and the loop is replaced by a
verified summary (see loops.py).
"""
import ast, os, time
import z3
from .vals import *
from . import solve

MISSING = object()


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class Prune(Exception):
    pass


class Budget(Exception):
    pass


class DFrame:
    def __init__(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.taken = []
        self.alts = []
        self.key = 0


class PathRes:
    def __init__(self, conds, facts, out, writes):
        self.conds, self.facts, self.out, self.writes = conds, facts, out, writes


class Env(Obj):
    kind = 'env'

    def __init__(self, parent, module, fn=None):
        Obj.__init__(self)
        self.parent, self.module, self.fn = parent, module, fn
        self.globals_decl = set()
        self.nonlocal_decl = set()
        self.defcls = None


class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.src = open(path).read()
        self.tree = ast.parse(self.src)
        self.names = {}
        self.star = []
        self._index(self.tree.body)

    def _index(self, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                self.names[st.name] = st
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.names[a.asname] = ('ext', a.name)
                    else:
                        self.names[a.name.split('.')[0]] = ('ext', a.name.split('.')[0])
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ''
                if st.level:
                    parts = self.name.split('.')
                    if not self.path.endswith('__init__.py'):
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (st.level - 1)]
                    base = '.'.join(parts + ([st.module] if st.module else []))
                for a in st.names:
                    if a.name == '*':
                        self.star.append(base)
                    else:
                        self.names[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name):
                            self.names[n.id] = st
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.names[st.target.id] = st
            elif isinstance(st, (ast.Try,)):
                self._index(st.body)
            elif isinstance(st, ast.If):
                self._index(st.body)
                self._index(st.orelse)


class Program:
    """The package sources, parsed from disk on every run."""
    def __init__(self, root, package='skopt', extra=None):
        self.root, self.package = root, package
        self.extra = extra or {}          # third-party modules interpreted from their own source
        self.mods = {}
        self.missing = set()

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.missing:
            return None
        if name in self.extra:
            m = self.mods[name] = Module(name, self.extra[name])
            return m
        p = os.path.join(self.root, *name.split('.'))
        for q in (p + '.py', os.path.join(p, '__init__.py')):
            if os.path.isfile(q):
                m = self.mods[name] = Module(name, q)
                return m
        self.missing.add(name)
        return None


class Obligation:
    def __init__(self, name, status, backend, secs, path, detail='', model=None, line=None):
        self.name, self.status, self.backend, self.secs = name, status, backend, secs
        self.path, self.detail, self.model, self.line = path, detail, model, line


from .lib import LibMixin
from .ops import OpsMixin
from .loops import LoopMixin
from .npl import NumpyMixin


class Engine(OpsMixin, LoopMixin, LibMixin, NumpyMixin):
    def __init__(self, program, budget_s=300.0):
        self.prog = program
        self.pc = []                 # (formula, tag)   tag: 'd' decision, 'f' fact, 'a' assumption
        self.solver = None
        self.dstack = []
        self.journal = []
        self.ctx = []                # generic index variables, outermost first
        self.ctxbase = []            # pc length at entry of each generic context
        self.counter = 0
        self.names, self.branches = {}, {}
        self.obls = []
        self.overrides = {}
        self.loop_inv, self.for_inv = {}, {}
        self.perms = {}
        self.muted = False       # obligations of a contract run for its effects only are not recorded
        self.natives = {}
        self.modcache = {}
        self.classcache = {}
        self.theory = solve.Theory()
        self.skolem = set()
        self.sums = {}
        self.assumptions = set()
        self.used_natives = set()
        self.functions = set()       # real functions interpreted
        self.trace = []
        self.deadline = time.time() + budget_s
        self.paths = 0
        self.callstack = []
        self.feas_cache = {}
        self.solver_s = 0.0
        self.line = None
        self.timeout = 10.0
        self.init_lib()
        self.init_np()
        from . import stubs
        stubs.install(self)

    # ---------------------------------------------------------------- symbols and facts
    def uid(self):
        """a number that names one symbol: the same on every replay of the same decisions, different after different decisions"""
        self.counter += 1
        CLOCK[0] += 1
        key = (self.counter,) + tuple(fr.key for fr in self.dstack)
        return self.names.setdefault(key, len(self.names) + 1)

    def branch(self, fr, c):
        fr.taken.append(c)
        fr.pos += 1
        if not isinstance(c, tuple):
            fr.key = self.branches.setdefault((fr.key, len(fr.taken), c), len(self.branches) + 1)

    def fresh(self, name, sort):
        nm = '%s!%d' % (name, self.uid())
        if self.ctx:
            f = z3.Function(nm, *([z3.IntSort()] * len(self.ctx) + [sort]))
            self.skolem.add(nm)
            return f(*self.ctx)
        return z3.Const(nm, sort)

    def Int(self, name='i'):
        return self.fresh(name, z3.IntSort())

    def Real(self, name='x'):
        return self.fresh(name, z3.RealSort())

    def Bool(self, name='b'):
        return self.fresh(name, z3.BoolSort())

    def Obj(self, name='o'):
        return self.fresh(name, U)

    def add(self, f, tag):
        self.pc.append((f, tag))
        if self.solver is not None and not solve.has_quant(f):
            self.solver.add(f)

    def fact(self, f):
        """f holds (postcondition of a stub, definition of a fresh symbol)"""
        f = self.simp(f)
        if isinstance(f, bool):
            if not f:
                raise Prune()
            return
        for g, _ in self.pc[-12:]:
            if g.eq(f):
                return
        self.add(f, 'f')
        if self.ctx:
            base = self.ctxbase[0]
            guard = [g for g, t in self.pc[base:] if t == 'd']
            rng = [g for g, t in self.pc[base:] if t == 'r']
            self._add_rule(f, list(self.ctx), guard + rng)

    def _add_rule(self, f, ctx, guards):
        decls = set()
        for t in solve.subterms([f], skip_quant=False):
            if z3.is_app(t) and t.num_args() == len(ctx) and t.decl().name() in self.skolem:
                decls.add(t.decl().name())
        if not decls:
            return
        whole = z3.Implies(z3.And(*guards), f) if guards else f

        def rule(app, whole=whole, ctx=ctx):
            args = app.children()
            if len(args) != len(ctx):
                return []
            if all(a.eq(c) for a, c in zip(args, ctx)):
                return []
            return [z3.substitute(whole, *[(c, a) for c, a in zip(ctx, args)])]
        for d in decls:
            self.theory.rules.setdefault(d, []).append(rule)

    def rule_for(self, decl, fn):
        """ground axiom schema: for every application of decl, fn(*args) holds"""
        def rule(app, fn=fn):
            r = fn(*app.children())
            return r if isinstance(r, list) else [r]
        self.theory.rules.setdefault(decl.name(), []).append(rule)

    def assume(self, f):
        """precondition of the contract under check"""
        f = self.simp(f)
        if isinstance(f, bool):
            if not f:
                raise Prune()
            return
        self.add(f, 'a')

    def simp(self, f):
        if is_z3(f):
            return lower(z3.simplify(f)) if f.sort().kind() == z3.Z3_BOOL_SORT else f
        return f

    # ---------------------------------------------------------------- decisions
    def feasible(self, extra=None, ms=2500):
        key = (tuple(g.get_id() for g, _ in self.pc), extra.get_id() if extra is not None else 0)
        if key in self.feas_cache:
            return self.feas_cache[key][0]
        t0 = time.time()
        hyps = [g for g, _ in self.pc if not solve.has_quant(g)]
        quant = [g for g, _ in self.pc if solve.has_quant(g)]
        if extra is not None:
            hyps = hyps + [extra]
        fs = hyps
        if quant:
            fs = fs + solve.instantiate_foralls(quant, solve.index_terms(hyps), limit=150)
        sat = self.theory.saturate(fs, rounds=2, monotone=True, limit=600)
        r, _ = solve.check(fs + sat, ms)
        self.solver_s += time.time() - t0
        ok = r != 'unsat'
        self.feas_cache[key] = (ok, [g for g, _ in self.pc], extra)
        return ok

    def decide(self, cond):
        cond = self.simp(cond)
        if isinstance(cond, bool):
            return cond
        if time.time() > self.deadline:
            raise Unsupported('time budget of the contract exhausted')
        ncond = self.simp(z3.Not(cond))
        for g, _ in self.pc:
            if g.eq(cond):
                return True
            if is_z3(ncond) and g.eq(ncond):
                return False
        CLOCK[0] += 1
        fr = self.dstack[-1]
        if fr.pos < len(fr.prefix):
            c = fr.prefix[fr.pos]
        else:
            tf = self.feasible(cond)
            ff = self.feasible(ncond) if tf else True
            if tf and ff:
                fr.alts.append(fr.taken + [False])
                c = True
            else:
                c = tf
                if not c and not self.feasible():
                    raise Prune()
                # forced: not a decision, follows from the path condition
                self.branch(fr, ('forced', c))
                self.pc.append((cond if c else ncond, 'k'))
                return c
        if isinstance(c, tuple):
            c = c[1]
            self.branch(fr, ('forced', c))
            self.pc.append((cond if c else ncond, 'k'))
            return c
        self.branch(fr, c)
        self.add(cond if c else ncond, 'd')
        return c

    def choose(self, name):
        """unconstrained boolean choice, explored both ways"""
        return self.decide(z3.Bool('choice!%s!%d' % (name, self.uid())))

    def implied(self, f):
        """cheap: does the path condition entail f?"""
        f = self.simp(f)
        if isinstance(f, bool):
            return f
        return not self.feasible(z3.Not(f))

    # ---------------------------------------------------------------- journal
    def setf(self, obj, key, val):
        if obj.frozen is not None:
            if obj.prov is not None:
                return self.store_through(obj, key, val)
            raise Unsupported('mutation of %s (%s)' % (obj.kind, obj.frozen))
        if isinstance(obj, ArrObj) and len(obj.group) > 1:
            for o in obj.group:
                if o is not obj:
                    self.journal.append((o, 'val', o.f['val']))
                    o.f['val'] = Poison((o, 'val'), 'a view of a mutated array')
        self.journal.append((obj, key, obj.f.get(key, MISSING)))
        obj.f[key] = val

    def delf(self, obj, key):
        self.journal.append((obj, key, obj.f.get(key, MISSING)))
        obj.f.pop(key, None)

    def rollback(self, mark, b0=None):
        """undo writes; objects born after b0 keep their state"""
        while len(self.journal) > mark:
            obj, key, old = self.journal.pop()
            if b0 is not None and obj.birth > b0:
                continue
            if old is MISSING:
                obj.f.pop(key, None)
            else:
                obj.f[key] = old

    # ---------------------------------------------------------------- exploration
    def explore(self, fn, collect=True, maxpaths=400):
        results = []
        work = [[]]
        c0 = self.counter
        cmax = c0
        while work:
            prefix = work.pop()
            self.counter = c0
            fr = DFrame(prefix)
            self.dstack.append(fr)
            jm, pm = len(self.journal), len(self.pc)
            ctxm = len(self.ctx)
            res = None
            b0 = serial()
            try:
                try:
                    out = ('ok', fn())
                except PyRaise as e:
                    out = ('raise', e.exc)
                except ReturnEx as e:
                    out = ('return', e.v)
                except BreakEx:
                    out = ('break', None)
                except ContinueEx:
                    out = ('continue', None)
                except Prune:
                    out = None
                if out is not None:
                    writes = {}
                    for o, k, old in self.journal[jm:]:
                        if o.birth <= b0:
                            writes[(id(o), k)] = (o, k, o.f.get(k, UNDEF))
                    res = PathRes([g for g, t in self.pc[pm:] if t == 'd'],
                                  [g for g, t in self.pc[pm:] if t in 'fr'], out, writes)
                    res.taken = fr.taken
            finally:
                self.rollback(jm, b0)
                del self.pc[pm:]
                del self.ctx[ctxm:]
                del self.ctxbase[ctxm:]
                self.dstack.pop()
                cmax = max(cmax, self.counter)
            if res is not None:
                results.append(res)
            for a in fr.alts:
                work.append(a)
            if len(results) > maxpaths:
                raise Unsupported('more than %d paths' % maxpaths)
        self.counter = cmax
        return results

    def run_contract(self, name, body):
        """explore body(); obligations are collected in self.obls"""
        self.cname = name
        self.reach = 0

        def one():
            self.theory.rules = {}
            self.skolem = set()
            self.sums = {}
            self.offs = []
            self.uniq = {}
            self.trace = []
            self.modcache = {}
            self.ghost = {}
            self.frames = []
            self.callstack = []
            self.pathno = self.paths
            self.paths += 1
            n0 = len(self.obls)
            try:
                body(self)
            except PyRaise:
                if self.dead():
                    raise Prune()
                raise
            self.reach += 1
            return True
        try:
            res = self.explore(one)
        except PoisonRead as e:
            raise Unsupported('loop-carried value read: %r at line %s' % (e.poison, self.line))
        for r in res:
            if r.out[0] == 'raise':
                e = r.out[1]
                self.obls.append(Obligation(name + '/no unexpected exception', 'refuted', 'path', 0.0, 0,
                                            'raises %r; path: %s' % (e, '; '.join(str(c)[:200] for c in r.conds))))
        return res

    # ---------------------------------------------------------------- obligations
    def prove(self, name, goal, timeout=None):
        if self.muted:
            return True
        goal = self.simp(goal)
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        hyps = [g for g, _ in self.pc]
        r = solve.prove(hyps, goal, self.theory, timeout or self.timeout)
        if r.status != 'proved':
            r2 = self.prove_with_lemmas(hyps, goal, timeout or self.timeout)
            if r2 is not None:
                r = r2
        self.solver_s += r.secs
        detail = ''
        if r.status != 'proved':
            detail = 'goal: %s\npath: %s\nmodel: %s\n%s' % (
                str(goal)[:1500], '\n  '.join(str(h)[:300] for h, t in self.pc[-40:]), str(r.model)[:2500] if r.model is not None else None, r.note)
        self.obls.append(Obligation(self.cname + '/' + name, r.status, r.backend, r.secs, self.pathno, detail,
                                    self.model_hints(r.model)))
        return r.status == 'proved'

    def model_hints(self, m):
        if m is None:
            return None
        out = {}
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                if z3.is_int_value(v):
                    out[d.name()] = v.as_long()
                elif z3.is_rational_value(v):
                    out[d.name()] = float(v.as_fraction())
        return out

    def prove_forall(self, name, n, body, timeout=None, lo=0):
        """for all lo <= k < n: body(k); each resulting goal under a fresh k"""
        if self.muted:
            return
        k = z3.Const('k!%d' % self.uid(), z3.IntSort())

        def one():
            self.assume(z3.And(k >= lo, k < zint(n)))
            for nm, g in _pairs(body(k)):
                self.prove(name + (': ' + nm if nm else ''), g, timeout)
        cnt = len(self.obls)
        if not self.feasible(z3.And(k >= lo, k < zint(n))):
            self.obls.append(Obligation(self.cname + '/' + name, 'proved', 'empty range', 0.0, self.pathno))
            return
        for r in self.explore(one):
            if r.out[0] != 'ok':
                self.obls.append(Obligation(self.cname + '/' + name, 'refuted', 'path', 0.0, self.pathno, 'raises %r' % (r.out[1],)))
        if len(self.obls) == cnt:
            self.obls.append(Obligation(self.cname + '/' + name, 'refuted', 'none', 0.0, self.pathno, 'no path reaches the goal'))

    def dead(self):
        """is this path impossible (decided with the full prover; asked only before reporting a failure)"""
        return solve.prove([g for g, _ in self.pc], z3.BoolVal(False), self.theory, self.timeout, want_model=False).status == 'proved'

    def fail(self, name, detail):
        if self.dead():
            raise Prune()
        self.obls.append(Obligation(self.cname + '/' + name, 'refuted', 'path', 0.0, self.pathno, detail))

    def require(self, name, ok, detail=''):
        """structural obligation decided by the interpreter itself"""
        if self.muted:
            if ok is False:
                raise Prune()
            return
        if ok is True:
            self.obls.append(Obligation(self.cname + '/' + name, 'proved', 'structural', 0.0, self.pathno))
        elif ok is False:
            # an infeasible path (only now contradictory) proves nothing wrong
            if not self.feasible(ms=6000):
                raise Prune()
            self.fail(name, detail + ' path: ' + '; '.join(str(g)[:200] for g, t in self.pc if t == 'd'))
        else:
            self.prove(name, ok)

    # ---------------------------------------------------------------- names
    def resolve(self, dotted):
        """'skopt.space.space:Real.transform' -> value (function of the class for methods)"""
        mod, _, q = dotted.partition(':')
        v = self.module_attr(mod, q.split('.')[0])
        for part in q.split('.')[1:]:
            if isinstance(v, ClassV):
                v = self.class_lookup(v, part)
            else:
                raise Unsupported('cannot resolve ' + dotted)
            if v is None:
                raise Unsupported('no such function: ' + dotted)
        return v

    def module_attr(self, modname, name):
        m = self.prog.module(modname)
        if m is None:
            return self.ext(modname + '.' + name)
        key = (modname, name)
        if key in self.modcache:
            return self.modcache[key]
        if name not in m.names:
            sub = self.prog.module(modname + '.' + name)
            if sub is not None:
                return ModV(modname + '.' + name)
            for b in m.star:
                bm = self.prog.module(b)
                if bm is not None and name in bm.names:
                    return self.module_attr(b, name)
            raise Unsupported('name %s not found in %s' % (name, modname))
        d = m.names[name]
        if isinstance(d, tuple):
            if d[0] == 'ext':
                v = self.ext_or_mod(d[1])
            else:
                base, nm = d[1], d[2]
                if self.prog.module(base) is not None:
                    v = self.module_attr(base, nm)
                else:
                    v = self.ext(base + '.' + nm)
        elif isinstance(d, ast.FunctionDef):
            v = self.make_func(d, Env(None, m), m, m.name + ':' + d.name)
            v = self.decorate(d, v, Env(None, m))
        elif isinstance(d, ast.ClassDef):
            v = self.make_class(d, m)
        elif isinstance(d, ast.Assign):
            env = Env(None, m)
            val = self.eval(d.value, env)
            for t in d.targets:
                self.assign(t, val, env)
            v = env.f[name]
        elif isinstance(d, ast.AnnAssign):
            v = self.eval(d.value, Env(None, m))
        else:
            raise Unsupported('module name %s' % name)
        self.modcache[key] = v
        return v

    def ext_or_mod(self, path):
        if self.prog.module(path) is not None:
            return ModV(path)
        return self.ext(path)

    def ext(self, path):
        alias = self.ext_alias.get(path)
        if alias is not None:
            path = alias
        if path in self.ext_const:
            return self.ext_const[path]
        return ExtV(path)

    def make_class(self, node, m, env=None):
        key = (m.name, node.name, node.lineno)
        if key in self.classcache:
            return self.classcache[key]
        env = env or Env(None, m)
        bases = [self.eval(b, env) for b in node.bases]
        c = ClassV(node.name, bases, {}, m, node)
        self.classcache[key] = c
        cenv = Env(env, m)
        for st in node.body:
            if isinstance(st, ast.FunctionDef):
                fn = self.make_func(st, env, m, '%s:%s.%s' % (m.name, node.name, st.name), cls=c)
                c.ns[st.name] = self.decorate(st, fn, cenv, c)
                cenv.f[st.name] = c.ns[st.name]
            elif isinstance(st, ast.Assign):
                v = self.eval(st.value, cenv)
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        c.ns[t.id] = v
                        cenv.f[t.id] = v
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                c.ns[st.target.id] = self.eval(st.value, cenv)
            elif isinstance(st, (ast.Expr, ast.Pass, ast.AnnAssign)):
                pass
            else:
                raise Unsupported('class body statement %s' % type(st).__name__)
        c.mro = self.linearize(c)
        return c

    def linearize(self, c):
        if isinstance(c, ExtV):
            return [c]
        seqs = [list(self.linearize(b)) for b in c.bases] + [list(c.bases)]
        out = [c]
        while any(seqs):
            seqs = [s for s in seqs if s]
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            for s in seqs:
                if s and s[0] == h:
                    del s[0]
        return out

    def class_lookup(self, c, name, after=None):
        mro = c.mro
        if after is not None:
            mro = mro[mro.index(after) + 1:]
        for k in mro:
            if isinstance(k, ClassV):
                if name in k.ns:
                    return k.ns[name]
            else:
                v = self.ext_class_attr(k, name)
                if v is not None:
                    return v
        return None

    def decorate(self, node, fn, env, cls=None):
        for d in reversed(node.decorator_list):
            if isinstance(d, ast.Name) and d.id == 'property':
                fn = Prop(fn)
            elif isinstance(d, ast.Name) and d.id == 'staticmethod':
                fn = StaticM(fn)
            elif isinstance(d, ast.Name) and d.id == 'classmethod':
                fn = ClassM(fn)
            elif isinstance(d, ast.Name) and d.id == 'abstractmethod':
                pass
            elif isinstance(d, ast.Attribute) and d.attr == 'setter':
                old = cls.ns.get(node.name)
                fn = Prop(old.fget, fn)
            else:
                dv = self.eval(d, env)
                fn = self.call(dv, [fn], {})
        return fn

    def make_func(self, node, env, m, qual, cls=None):
        args = node.args
        dn = [self.eval(x, env) for x in args.defaults]
        kd = {a.arg: self.eval(x, env) for a, x in zip(args.kwonlyargs, args.kw_defaults) if x is not None}
        return FuncV(node, env, m, qual, cls, dn, kd)

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        f = self.force(f)
        if isinstance(f, BoundM):
            return self.call(f.fn, [f.self_] + list(args), kw)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, Native):
            return f.fn(self, list(args), kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, StaticM):
            return self.call(f.fn, args, kw)
        if isinstance(f, ExtV):
            fn = self.natives.get(f.path)
            if fn is None:
                if f.path in self.exc_classes:
                    return ExcV(f, list(args))
                raise Unsupported('call of external %s (line %s)' % (f.path, self.line))
            self.used_natives.add(f.path)
            return fn(self, list(args), kw)
        if isinstance(f, NatObj):
            return f.py_call(self, list(args), kw)
        if isinstance(f, Inst):
            m = self.class_lookup(f.cls, '__call__')
            if m is not None:
                return self.call(m, [f] + list(args), kw)
        if is_u(f):
            h = self.u_call
            if h is not None:
                return h(self, f, args, kw)
        raise Unsupported('call of %r (line %s)' % (f, self.line))

    u_call = None

    def call_func(self, f, args, kw):
        ov = self.overrides.get(f.qual)
        if ov is not None and f.qual not in self.callstack_noov:
            self.used_natives.add('contract of ' + f.qual)
            return ov(self, list(args), kw)
        self.functions.add(f.qual)
        if len(self.callstack) > 60:
            raise Unsupported('recursion')
        env = Env(f.env, f.module, f)
        env.defcls = f.cls
        self.bind(f, env, list(args), dict(kw))
        node = f.node
        self.callstack.append(f.qual)
        line = self.line
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, env)
            if _is_gen(node):
                out = PList()
                env.f['__yield__'] = out
                try:
                    self.exec_block(node.body, env)
                except ReturnEx:
                    pass
                return out
            try:
                self.exec_block(node.body, env)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            self.callstack.pop()
            self.line = line

    callstack_noov = ()

    def bind(self, f, env, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        nd = len(f.defaults)
        vals = {}
        # star-arg of symbolic length: supported only as complete *args passthrough
        for i, n in enumerate(names):
            if i < len(args):
                vals[n] = args[i]
        extra = args[len(names):]
        if extra and not a.vararg:
            self.raise_('TypeError', '%s() takes %d positional arguments but %d were given' % (f.qual, len(names), len(args)))
        if a.vararg:
            vals[a.vararg.arg] = tuple(extra)
        konly = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kw.items():
            if k in names or k in konly:
                if k in vals:
                    self.raise_('TypeError', 'multiple values for argument ' + k)
                vals[k] = v
            elif a.kwarg:
                rest[k] = v
            else:
                self.raise_('TypeError', '%s() got an unexpected keyword argument %r' % (f.qual, k))
        for i, n in enumerate(names):
            if n not in vals:
                j = i - (len(names) - nd)
                if j < 0:
                    self.raise_('TypeError', '%s() missing argument %s' % (f.qual, n))
                vals[n] = f.defaults[j]
        for n in konly:
            if n not in vals:
                if n in f.kwdefaults:
                    vals[n] = f.kwdefaults[n]
                else:
                    self.raise_('TypeError', 'missing keyword argument ' + n)
        if a.kwarg:
            d = PDict()
            d.f['d'] = rest
            vals[a.kwarg.arg] = d
        env.f.update(vals)

    def instantiate(self, c, args, kw):
        key = c.module.name + ':' + c.name
        ov = self.overrides.get(key)
        if ov is not None:
            self.used_natives.add('contract of ' + key)
            return ov(self, list(args), kw)
        if any(isinstance(k, ExtV) and (k.path in self.exc_classes) for k in c.mro):
            return ExcV(c, list(args))
        o = Inst(c)
        init = self.class_lookup(c, '__init__')
        if init is not None:
            self.call(init, [o] + list(args), kw)
        return o

    def raise_(self, exc, msg=''):
        raise PyRaise(ExcV(ExtV('builtins.' + exc), [msg]))

    # ---------------------------------------------------------------- statements
    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, st, env):
        self.line = getattr(st, 'lineno', self.line)
        m = getattr(self, 'st_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s (line %s)' % (type(st).__name__, self.line))
        m(st, env)

    def st_Expr(self, st, env):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, env)

    def st_Pass(self, st, env):
        pass

    def st_Return(self, st, env):
        raise ReturnEx(self.eval(st.value, env) if st.value is not None else None)

    def st_Break(self, st, env):
        raise BreakEx()

    def st_Continue(self, st, env):
        raise ContinueEx()

    def st_Assign(self, st, env):
        v = self.eval(st.value, env)
        for t in st.targets:
            self.assign(t, v, env)

    def st_AnnAssign(self, st, env):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, env), env)

    def st_AugAssign(self, st, env):
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, env)
            self.store_name(t.id, self.inplace(st.op, cur, self.eval(st.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.force(self.eval(t.value, env))
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.inplace(st.op, cur, self.eval(st.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.force(self.eval(t.value, env))
            i = self.eval_index(t.slice, env)
            cur = self.getitem(o, i)
            self.setitem(o, i, self.inplace(st.op, cur, self.eval(st.value, env)))
        else:
            raise Unsupported('augmented assignment target')

    def inplace(self, op, a, b):
        a = self.force(a)
        if isinstance(a, ArrObj):
            r = self.binop(op, a, b)
            rv_ = r.v if isinstance(r, ArrObj) else self.to_arr(r).v
            self.fill(a, rv_)
            return a
        if isinstance(a, PList) and isinstance(op, ast.Add):
            self.setf(a, 'seq', self.seq_concat(a.f['seq'], self.to_seq(b)))
            return a
        return self.binop(op, a, b)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.force(self.eval(t.value, env)), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.force(self.eval(t.value, env))
            self.setitem(o, self.eval_index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                items = self.items_of(v)
                i = star[0]
                after = n - i - 1
                if len(items) < n - 1:
                    self.raise_('ValueError', 'not enough values to unpack')
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, PList(items[i:len(items) - after]), env)
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, x, env)
                return
            items = self.unpack(v, n)
            for e, x in zip(t.elts, items):
                self.assign(e, x, env)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    def unpack(self, v, n):
        v = self.force(v)
        s = self.to_seq(v)
        if s.concrete:
            if len(s.items) != n:
                self.raise_('ValueError', 'wrong number of values to unpack')
            return list(s.items)
        if not self.decide(zint(s.n) == n):
            self.raise_('ValueError', 'wrong number of values to unpack')
        return [s.get(i) for i in range(n)]

    def items_of(self, v):
        s = self.to_seq(v)
        if not s.concrete:
            raise Unsupported('sequence of symbolic length where a fixed one is needed (line %s)' % self.line)
        return list(s.items)

    def st_If(self, st, env):
        if self.truth(self.eval(st.test, env)):
            self.exec_block(st.body, env)
        else:
            self.exec_block(st.orelse, env)

    def st_Assert(self, st, env):
        if not self.truth(self.eval(st.test, env)):
            self.raise_('AssertionError', '')

    def st_Raise(self, st, env):
        if st.exc is None:
            if self.frames_exc:
                raise PyRaise(self.frames_exc[-1])
            raise Unsupported('bare raise')
        e = self.force(self.eval(st.exc, env))
        if isinstance(e, (ExtV, ClassV)):
            e = self.call(e, [], {})
        raise PyRaise(e)

    frames_exc = []

    def st_Try(self, st, env):
        try:
            try:
                self.exec_block(st.body, env)
            except PyRaise as e:
                for h in st.handlers:
                    if h.type is None or self.exc_matches(e.exc, self.eval(h.type, env)):
                        if h.name:
                            self.store_name(h.name, e.exc, env)
                        self.frames_exc.append(e.exc)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.frames_exc.pop()
                        break
                else:
                    raise
            else:
                self.exec_block(st.orelse, env)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            self.exec_block(st.finalbody, env)
            raise
        else:
            self.exec_block(st.finalbody, env)

    def exc_matches(self, exc, t):
        t = self.force(t)
        if isinstance(t, tuple):
            return any(self.exc_matches(exc, x) for x in t)
        name = exc_name(t)
        chain = self.exc_chain(exc.cls)
        return name in chain

    def exc_chain(self, c):
        if isinstance(c, ClassV):
            out = []
            for k in c.mro:
                out += [exc_name(k)] if isinstance(k, ClassV) else self.exc_chain(k)
            return out
        n = exc_name(c)
        out = [n]
        while n in self.exc_parents:
            n = self.exc_parents[n]
            out.append(n)
        return out

    def st_With(self, st, env):
        mgrs = []
        for it in st.items:
            m = self.force(self.eval(it.context_expr, env))
            v = self.enter(m)
            mgrs.append(m)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        try:
            self.exec_block(st.body, env)
        finally:
            for m in reversed(mgrs):
                self.exit(m)

    def enter(self, m):
        if isinstance(m, NatObj):
            return m.py_enter(self)
        if isinstance(m, Inst):
            return self.call(self.class_lookup(m.cls, '__enter__'), [m], {})
        raise Unsupported('with %r' % (m,))

    def exit(self, m):
        if isinstance(m, Inst):
            self.call(self.class_lookup(m.cls, '__exit__'), [m, None, None, None], {})
        elif hasattr(m, 'py_exit'):
            m.py_exit(self)

    def st_FunctionDef(self, st, env):
        q = env.fn.qual if env.fn is not None else env.module.name
        f = self.make_func(st, env, env.module, q + '.' + st.name, cls=env.defcls)
        self.store_name(st.name, self.decorate(st, f, env), env)

    def st_ClassDef(self, st, env):
        self.store_name(st.name, self.make_class(st, env.module, env), env)

    def st_Import(self, st, env):
        for a in st.names:
            self.store_name(a.asname or a.name.split('.')[0], self.ext_or_mod(a.name if a.asname else a.name.split('.')[0]), env)

    def st_ImportFrom(self, st, env):
        tmp = Module.__new__(Module)
        tmp.name, tmp.path, tmp.names = env.module.name, env.module.path, {}
        tmp._index([st])
        for k, d in tmp.names.items():
            if self.prog.module(d[1]) is not None:
                v = self.module_attr(d[1], d[2])
            else:
                v = self.ext(d[1] + '.' + d[2])
            self.store_name(k, v, env)

    def st_Global(self, st, env):
        env.globals_decl.update(st.names)

    def st_Nonlocal(self, st, env):
        env.nonlocal_decl.update(st.names)

    def st_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.delf(env, t.id)
            elif isinstance(t, ast.Subscript):
                o = self.force(self.eval(t.value, env))
                self.delitem(o, self.eval_index(t.slice, env))
            elif isinstance(t, ast.Attribute):
                o = self.force(self.eval(t.value, env))
                if t.attr not in o.f:
                    self.raise_('AttributeError', t.attr)
                self.delf(o, t.attr)
            else:
                raise Unsupported('del')

    # ---------------------------------------------------------------- names
    def load_name(self, n, env):
        e = env
        first = True
        while e is not None:
            if n in e.f and not (first and n in e.globals_decl):
                v = e.f[n]
                if isinstance(v, Poison):
                    raise PoisonRead(v)
                if v is UNDEF:
                    self.raise_('UnboundLocalError', n)
                return v
            first = False
            e = e.parent
        if n in env.module.names or self.prog.module(env.module.name + '.' + n):
            return self.module_attr(env.module.name, n)
        if n in self.builtins:
            return self.builtins[n]
        if n in env.module.__dict__.get('extra', {}):
            return env.module.extra[n]
        self.raise_('NameError', n)

    def store_name(self, n, v, env):
        if n in env.globals_decl:
            raise Unsupported('write to global ' + n)
        if n in env.nonlocal_decl:
            e = env.parent
            while e is not None and n not in e.f:
                e = e.parent
            if e is None:
                raise Unsupported('nonlocal ' + n)
            self.setf(e, n, v)
            return
        self.setf(env, n, v)

    # ---------------------------------------------------------------- expressions
    def eval(self, x, env):
        m = getattr(self, 'ex_' + type(x).__name__, None)
        if m is None:
            raise Unsupported('expression %s (line %s)' % (type(x).__name__, self.line))
        return m(x, env)

    def ex_Constant(self, x, env):
        return x.value

    def ex_Name(self, x, env):
        return self.load_name(x.id, env)

    def ex_Tuple(self, x, env):
        return self._elts(x.elts, env, tuple)

    def ex_List(self, x, env):
        r = self._elts(x.elts, env, list)
        if isinstance(r, Seq):
            return PList(r)
        return PList(r)

    def ex_Set(self, x, env):
        return PSet(self._elts(x.elts, env, list))

    def _elts(self, elts, env, ty):
        out = []
        seq = None
        for e in elts:
            if isinstance(e, ast.Starred):
                s = self.to_seq(self.eval(e.value, env))
                if s.concrete:
                    out += s.items
                else:
                    seq = self.seq_concat(seq if seq is not None else Seq(()), Seq(out))
                    seq = self.seq_concat(seq, s)
                    out = []
            else:
                out.append(self.eval(e, env))
        if seq is not None:
            return self.seq_concat(seq, Seq(out))
        return tuple(out) if ty is tuple else out

    def ex_Dict(self, x, env):
        d = PDict()
        for k, v in zip(x.keys, x.values):
            if k is None:
                o = self.force(self.eval(v, env))
                self.dict_update(d, o)
            else:
                kk = self.eval(k, env)
                self.setitem(d, kk, self.eval(v, env))
        return d

    def ex_Attribute(self, x, env):
        return self.getattr(self.force(self.eval(x.value, env)), x.attr)

    def eval_index(self, x, env):
        if isinstance(x, ast.Tuple):
            return tuple(self.eval_index(e, env) for e in x.elts)
        if isinstance(x, ast.Slice):
            ev = lambda y: None if y is None else self.force(self.eval(y, env))
            return SliceV(ev(x.lower), ev(x.upper), ev(x.step))
        return self.force(self.eval(x, env))

    def ex_Slice(self, x, env):
        return self.eval_index(x, env)

    def ex_Subscript(self, x, env):
        o = self.force(self.eval(x.value, env))
        return self.getitem(o, self.eval_index(x.slice, env))

    def ex_Call(self, x, env):
        if isinstance(x.func, ast.Name) and x.func.id == 'super' and 'super' not in env.f:
            return self._super(x, env)
        if isinstance(x.func, ast.Name) and x.func.id == 'locals':
            d = PDict()
            d.f['d'] = dict(env.f)
            return d
        f = self.eval(x.func, env)
        args = []
        for a in x.args:
            if isinstance(a, ast.Starred):
                args += self.items_of(self.eval(a.value, env))
            else:
                args.append(self.eval(a, env))
        kw = {}
        for k in x.keywords:
            if k.arg is None:
                o = self.force(self.eval(k.value, env))
                if isinstance(o, PDict) and o.f['sym'] is None:
                    kw.update(o.f['d'])
                elif isinstance(o, PDict):
                    kw['**'] = o
                else:
                    raise Unsupported('** of %r' % (o,))
            else:
                kw[k.arg] = self.eval(k.value, env)
        self.line = x.lineno
        return self.call(f, args, kw)

    def _super(self, x, env):
        e = env
        while e is not None and e.fn is None:
            e = e.parent
        if len(x.args) == 2:
            c = self.force(self.eval(x.args[0], env))
            o = self.force(self.eval(x.args[1], env))
            return SuperV(c, o)
        first = e.fn.node.args.args[0].arg
        return SuperV(e.fn.cls, e.f[first])

    def ex_Lambda(self, x, env):
        q = env.fn.qual if env.fn is not None else env.module.name
        return self.make_func(x, env, env.module, q + '.<lambda>', cls=env.defcls)

    def ex_IfExp(self, x, env):
        if self.truth(self.eval(x.test, env)):
            return self.eval(x.body, env)
        return self.eval(x.orelse, env)

    def ex_BoolOp(self, x, env):
        isand = isinstance(x.op, ast.And)
        v = None
        for i, e in enumerate(x.values):
            v = self.force(self.eval(e, env))
            if i == len(x.values) - 1:
                return v
            if is_z3(v) and is_bool(v) and self.pure_bool_rest(x.values[i + 1:]):
                # keep it symbolic: rest is side-effect free and boolean
                w = self.try_bool(x.values[i + 1:], isand, env)
                if w is not None:
                    return z3.And(v, w) if isand else z3.Or(v, w)
            t = self.truth(v)
            if isand and not t:
                return v
            if not isand and t:
                return v
        return v

    def pure_bool_rest(self, rest):
        return all(isinstance(r, (ast.Compare, ast.Name)) and not any(isinstance(n, (ast.Call, ast.Subscript, ast.Attribute)) for n in ast.walk(r))
                   for r in rest)

    def try_bool(self, rest, isand, env):
        out = []
        for r in rest:
            v = self.eval(r, env)
            if not is_bool(v):
                return None
            out.append(zbool(v))
        return z3.And(*out) if isand else z3.Or(*out)

    def ex_UnaryOp(self, x, env):
        v = self.force(self.eval(x.operand, env))
        if isinstance(x.op, ast.Not):
            if is_z3(v) and is_bool(v):
                return z3.Not(v)
            return not self.truth(v)
        return self.unop(x.op, v)

    def ex_BinOp(self, x, env):
        a = self.force(self.eval(x.left, env))
        b = self.force(self.eval(x.right, env))
        self.line = x.lineno
        return self.binop(x.op, a, b)

    def ex_Compare(self, x, env):
        left = self.force(self.eval(x.left, env))
        res = None
        for op, c in zip(x.ops, x.comparators):
            right = self.force(self.eval(c, env))
            r = self.compare(op, left, right)
            if res is None:
                res = r
            elif is_bool(res) and is_bool(r):
                res = self.simp(z3.And(zbool(res), zbool(r)))
            else:
                if not self.truth(res):
                    return res
                res = r
            if res is False:
                return False
            left = right
        return res

    def ex_JoinedStr(self, x, env):
        parts = []
        for v in x.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.to_str(self.eval(v.value, env)))
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return OpaqueStr(parts)

    def ex_NamedExpr(self, x, env):
        v = self.eval(x.value, env)
        self.assign(x.target, v, env)
        return v

    def ex_Starred(self, x, env):
        raise Unsupported('starred expression')

    def ex_Yield(self, x, env):
        e = env
        while e is not None and '__yield__' not in e.f:
            e = e.parent
        self.list_append(e.f['__yield__'], self.eval(x.value, env) if x.value else None)
        return None

    def ex_ListComp(self, x, env):
        return PList(self.comprehension(x.generators, lambda e: self.eval(x.elt, e), env))

    def ex_GeneratorExp(self, x, env):
        return PList(self.comprehension(x.generators, lambda e: self.eval(x.elt, e), env))

    def ex_SetComp(self, x, env):
        s = self.comprehension(x.generators, lambda e: self.eval(x.elt, e), env)
        return self.make_set(s)

    def ex_DictComp(self, x, env):
        s = self.comprehension(x.generators, lambda e: (self.eval(x.key, e), self.eval(x.value, e)), env)
        return self.dict_from_pairs(s)


def _is_gen(node):
    if not isinstance(node, ast.FunctionDef):
        return False
    st = list(node.body)
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def _pairs(x):
    if x is None:
        return []
    if isinstance(x, list):
        return x
    return [('', x)]
