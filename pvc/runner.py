"""Runs the contracts of one property and its concrete replay search, writes the
evidence file and prints the verdict."""
import os, sys, json, time, hashlib, importlib, traceback, subprocess, multiprocessing, ast, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'


# ------------------------------------------------------------------ contracts
def run_one(arg):
    pid, idx, tier = arg[:3]
    again = len(arg) > 3        # second attempt: other random seed, longer time limits
    sys.setrecursionlimit(20000)
    t0 = time.time()
    mod = importlib.import_module('contracts.' + pid.lower())
    name, fn, opts = norm(mod.CONTRACTS[idx])
    out = dict(name=name, obls=[], functions=[], assumptions=[], natives=[], axioms=[], error=None, paths=0, reach=0)
    try:
        from pvc.engine import Engine, Program
        import z3
        z3.set_param('memory_max_size', 6000)
        P = Program(REPO, extra=getattr(mod, 'SOURCES', None))
        E = Engine(P, budget_s=opts.get('budget', 150) * (4 if tier == 'thorough' else 1))
        if 'timeout' in opts:
            E.timeout = opts['timeout']
        if tier == 'thorough':
            E.timeout *= 4
        if again:
            E.timeout *= 2
            z3.set_param('smt.random_seed', 7)
        E.tier = tier
        try:
            E.run_contract(name, fn)
        except Exception as e:
            from pvc.vals import Unsupported
            kind = 'unsupported' if isinstance(e, Unsupported) else 'error'
            out['error'] = '%s: %s: %s (line %s of %s)' % (kind, type(e).__name__, e, E.line,
                                                            E.callstack[-1] if E.callstack else '?')
            if not isinstance(e, Unsupported):
                out['error'] += '\n' + traceback.format_exc()[-1500:]
        for o in E.obls:
            out['obls'].append(dict(name=o.name, status=o.status, backend=o.backend, secs=round(o.secs, 4),
                                    detail=o.detail, model=o.model, path=o.path))
        out['functions'] = sorted(E.functions)
        out['assumptions'] = sorted(E.assumptions)
        out['natives'] = sorted(E.used_natives)
        out['axioms'] = sorted(E.theory.used)
        out['paths'] = E.paths
        out['reach'] = getattr(E, 'reach', 0)
        out['solver_s'] = round(E.solver_s, 3)
    except BaseException as e:
        out['error'] = 'error: %r\n%s' % (e, traceback.format_exc()[-1500:])
    out['wall'] = round(time.time() - t0, 2)
    return out


def norm(c):
    if len(c) == 2:
        return c[0], c[1], {}
    return c


def inconclusive(r):
    """did this contract fail only because a solver gave no answer in its time (a loaded machine, an unlucky seed)?"""
    if r['error']:
        return 'time budget of the contract' in r['error']
    bad = [o for o in r['obls'] if o['status'] != 'proved']
    return bool(bad) and all(o['status'] == 'unknown' for o in bad)


def contract_failures(results, expect):
    """list of (obligation, status, detail, model)"""
    bad = []
    for r in results:
        if r['error']:
            bad.append((r['name'] + '/verification incomplete', 'not verified', r['error'], None))
        elif not r['obls'] or not r['reach']:
            bad.append((r['name'] + '/vacuous', 'not verified', 'no obligation reached (paths=%d reach=%d)' % (r['paths'], r['reach']), None))
        for o in r['obls']:
            if o['status'] != 'proved':
                bad.append((o['name'], o['status'], o['detail'], o['model']))
    return bad


# ------------------------------------------------------------------ concrete search
def consts_of(path):
    """numeric and string literals of the package sources"""
    out = {}
    for d, _, fs in os.walk(os.path.join(path, 'skopt')):
        if 'tests' in d.split(os.sep):
            continue
        for f in fs:
            if f.endswith('.py'):
                try:
                    t = ast.parse(open(os.path.join(d, f)).read())
                except SyntaxError:
                    continue
                c = {}
                for n in ast.walk(t):
                    if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                        k = repr(n.value)
                        c[k] = c.get(k, 0) + 1
                out[os.path.relpath(os.path.join(d, f), path)] = c
    return out


def new_consts():
    """numeric literals that the committed baseline does not have (search hints only)"""
    try:
        base = json.load(open(os.path.join(ROOT, 'tools', 'base_consts.json')))
    except Exception:
        base = {}
    res = set()
    for f, c in consts_of(REPO).items():
        b = base.get(f, {})
        for k, n in c.items():
            if n > b.get(k, 0):
                try:
                    v = ast.literal_eval(k)
                    if abs(v) < 1e9:
                        res.add(v)
                except Exception:
                    pass
    return sorted(res)


def start_oracle(pid, seconds, seed, hints, shards, tag):
    d = tempfile.mkdtemp(prefix='pvc-%s-' % pid)
    hp = os.path.join(d, 'hints.json')
    json.dump(hints, open(hp, 'w'))
    env = dict(os.environ, PYTHONPATH=REPO + os.pathsep + ROOT, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONHASHSEED='0', PYTHONWARNINGS='ignore',
               MPLBACKEND='Agg', SKLEARN_SKIP_X='1')
    ps = []
    for s in range(shards):
        out = os.path.join(d, 'o%d.json' % s)
        p = subprocess.Popen([PY, '-W', 'ignore', os.path.join(ROOT, 'oracles', 'run.py'), pid, '--seconds', str(seconds),
                              '--seed', str(seed), '--shard', '%d/%d' % (s, shards), '--hints', hp, '--out', out],
                             env=env, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ps.append((p, out))
    return d, ps, seconds


def finish_oracle(h):
    d, ps, seconds = h
    res = dict(evaluations=0, distinct=0, nontrivial=0, violations=[], known=[], samples=[], errors=[], rule='')
    seen = set()
    end = time.time() + seconds * 3 + 150
    for p, out in ps:
        late = False
        try:
            txt, _ = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            txt, _ = p.communicate()
            txt, late = 'timeout\n' + (txt or ''), True
        try:
            r = json.load(open(out))
        except Exception:
            res['errors'].append((txt or '')[-1500:])
            continue
        if p.returncode and not late:
            res['errors'].append((txt or '')[-1500:])
        res['evaluations'] += r['evaluations']
        for k in r['keys']:
            if k not in seen:
                seen.add(k)
                res['distinct'] += 1
        res['violations'] += r['violations']
        res['known'] += r['known']
        res['rule'] = r['rule']
        if len(res['samples']) < 4:
            res['samples'] += r['samples'][:2]
    import shutil
    shutil.rmtree(d, ignore_errors=True)
    return res


def found_already(h, kkeys):
    """has a finished concrete search found a failing input that is not a known finding?"""
    if not h or any(p.poll() is None for p, _ in h[1]):
        return False
    for _, out in h[1]:
        try:
            if any(v.get('key') not in kkeys for v in json.load(open(out))['violations']):
                return True
        except Exception:
            pass
    return False


def load_known(pid):
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                key, _, text = rest.partition(' ')
                out.append((key.replace('key=', ''), text))
    return out


# ------------------------------------------------------------------ main
def main(argv):
    t0 = time.time()
    pid = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    only = argv[argv.index('--only') + 1] if '--only' in argv else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.chdir(ROOT)
    try:
        mod = importlib.import_module('contracts.' + pid.lower())
    except ModuleNotFoundError:
        mod = None
    contracts = [norm(c) for c in getattr(mod, 'CONTRACTS', [])]
    has_oracle = os.path.exists(os.path.join(ROOT, 'oracles', pid.lower() + '.py')) and '--no-oracle' not in argv
    consts = new_consts()
    h = None
    secs = getattr(mod, 'ORACLE_S', 14)
    if tier == 'thorough':
        secs *= 8
    if has_oracle:
        h = start_oracle(pid, secs, seed, dict(consts=consts, models=[]), 4, 'base')
    results = []
    known = load_known(pid)
    kkeys = {k for k, _ in known}
    if '--no-contracts' not in argv and contracts:
        jobs = [(pid, i, tier) for i in range(len(contracts)) if only is None or only in contracts[i][0]]
        if len(jobs) == 1 or '--serial' in argv:
            results = [run_one(j) for j in jobs]
        else:
            ctx = multiprocessing.get_context('fork')
            with ctx.Pool(min(5 if has_oracle else 8, len(jobs)), maxtasksperchild=1) as pool:
                hs = [(j, pool.apply_async(run_one, (j,))) for j in jobs]
                end = t0 + (360 if tier == 'quick' else 3600)
                for j, a in hs:
                    r, why = None, 'time budget of the contract phase exhausted'
                    while r is None:
                        try:
                            r = a.get(timeout=2)
                        except multiprocessing.TimeoutError:
                            if time.time() > end:
                                break
                            if found_already(h, kkeys):
                                why = 'not finished: the concrete search has found a failing input'
                                break
                        except Exception as e:
                            why = 'contract process: %r' % (e,)
                            break
                    results.append(r or dict(name=contracts[j[1]][0], obls=[], functions=[], assumptions=[], natives=[], axioms=[],
                                             error=why, paths=0, reach=0, solver_s=0, wall=round(time.time() - t0, 1)))
                pool.terminate()
    orc = finish_oracle(h) if h else None
    viol = list(orc['violations']) if orc else []
    known_hit = sorted({v['key'] for v in viol if v.get('key') in kkeys})
    viol = [v for v in viol if v.get('key') not in kkeys]
    retry = [k for k, r in enumerate(results) if inconclusive(r)]
    if retry and not viol and len(retry) <= 8 and not any(b[1] != 'unknown' for b in contract_failures(
            [r for k, r in enumerate(results) if k not in retry], contracts)):
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(min(4, len(retry)), maxtasksperchild=1) as pool:
            hs = [(k, pool.apply_async(run_one, (jobs[k] + (True,),))) for k in retry]
            end = time.time() + (150 if tier == 'quick' else 3000)
            for k, a in hs:
                try:
                    results[k] = a.get(timeout=max(1, end - time.time()))
                except Exception:
                    pass
            pool.terminate()
    bad = contract_failures(results, contracts)
    searched = None
    if bad and not viol and has_oracle:
        models = [b[3] for b in bad if b[3]][:20]
        searched = finish_oracle(start_oracle(pid, 60 if tier == 'quick' else 300, seed + 1, dict(consts=consts, models=models), 8, 'deep'))
        viol = [v for v in searched['violations'] if v.get('key') not in kkeys]
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    lines = []
    for key, text in known:
        if key in known_hit or key.startswith('contract:'):
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, text))
    rc = 0
    if viol:
        v = viol[0]
        rp = os.path.join(ROOT, 'evidence', 'replay', '%s.json' % pid)
        json.dump(dict(property=pid, how='%s %s/oracles/run.py %s --replay %s' % (PY, ROOT, pid, rp), case=v['case'], what=v['what'],
                       failed_obligations=[dict(name=b[0], status=b[1], detail=b[2]) for b in bad[:20]]), open(rp, 'w'), indent=1)
        lines.append('violated: %s' % v['what'][:600].replace('\n', ' | '))
        for b in bad[:6]:
            lines.append('failed obligation: %s (%s)' % (b[0], b[1]))
        lines.append('VIOLATION property=%s replay=%s' % (pid, rp))
        rc = 1
    elif bad or (orc and orc['errors']):
        rp = os.path.join(ROOT, 'evidence', 'replay', '%s.json' % pid)
        json.dump(dict(property=pid, failed_obligations=[dict(name=b[0], status=b[1], detail=b[2], model=b[3]) for b in bad[:40]],
                       oracle_errors=orc['errors'] if orc else []), open(rp, 'w'), indent=1)
        for b in bad[:8]:
            lines.append('failed obligation: %s (%s) %s' % (b[0], b[1], b[2][:300].replace('\n', ' | ')))
        for e in (orc['errors'] if orc else [])[:2]:
            lines.append('search error: ' + e[-600:])
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
        rc = 1
    nobl = sum(len(r['obls']) for r in results)
    ndis = sum(1 for r in results for o in r['obls'] if o['status'] == 'proved')
    if not nobl and not (orc and orc['evaluations']):
        lines.append('nothing was checked')
        lines.append('VIOLATION property=%s replay=- no-failing-input-found' % pid)
        rc = 1
    level = getattr(mod, 'LEVEL', 'proof' if nobl else 'exploration')
    backends = {}
    for r in results:
        for o in r['obls']:
            if o['status'] == 'proved':
                backends[o['backend']] = backends.get(o['backend'], 0) + 1
    from pvc import solve
    axioms = sorted({a for r in results for a in r['axioms']})
    cov = dict(obligations=nobl, discharged=ndis,
               checker_cmd='python3-vt /verif/check.py %s' % pid,
               trusted_base=['pvc symbolic interpreter of Python (pvc/engine.py, ops.py, loops.py, npl.py, lib.py)',
                             'z3 %s, cvc5 1.1.2, sympy rational normal form' % z3v()]
               + ['axiom %s: %s' % (a, solve.AXIOM_DOC.get(a, '')) for a in axioms]
               + ['stub: ' + n for n in sorted({n for r in results for n in r['natives']})],
               functions_under_contract=sorted({f for r in results for f in r['functions']}),
               contracts=[dict(name=r['name'], obligations=len(r['obls']), discharged=sum(o['status'] == 'proved' for o in r['obls']),
                               paths=r['paths'], wall_s=r.get('wall'), solver_s=r.get('solver_s'), error=r['error']) for r in results],
               back_ends=backends, solver_s=round(sum(r.get('solver_s') or 0 for r in results), 2))
    if orc:
        ev = orc['evaluations'] + (searched['evaluations'] if searched else 0)
        cov.update(evaluations=ev, distinct_nontrivial=orc['distinct'] + (searched['distinct'] if searched else 0), rule=orc['rule'],
                   samples=orc['samples'][:4],
                   bounded_note='evaluations are a bounded concrete search on the real code, never counted as proved')
    if level == 'other':
        cov['explanation'] = getattr(mod, 'EXPLANATION', '')
    evd = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
               assumptions=sorted(set(getattr(mod, 'ASSUME', [])) | {a for r in results for a in r['assumptions']}),
               wall_s=round(time.time() - t0, 2), violations=rc, known_findings=[t for _, t in known])
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    json.dump(evd, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s: %d/%d obligations discharged in %d contracts over %d functions; %d concrete evaluations; %.1f s' %
          (pid, ndis, nobl, len(results), len(cov['functions_under_contract']), cov.get('evaluations', 0), time.time() - t0))
    if '-v' in argv:
        for r in results:
            print('  %-40s %d/%d paths=%d %.1fs %s' % (r['name'], sum(o['status'] == 'proved' for o in r['obls']), len(r['obls']),
                                                      r['paths'], r.get('wall', 0), r['error'] or ''))
            for o in r['obls']:
                if o['status'] != 'proved':
                    print('     -', o['name'], o['status'], o['backend'], o['detail'][:1500])
    for l in lines:
        print(l)
    return rc


def z3v():
    import z3
    return z3.get_version_string()
