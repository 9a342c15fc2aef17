"""Concrete search on the real code: run.py Cxx --seconds S --seed N --shard i/n --hints F --out F
or run.py Cxx --replay F"""
import sys, os, json, time, random, traceback, importlib, warnings, hashlib, signal
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
if '/repo' not in sys.path and not os.environ.get('VERIF_REPO'):
    sys.path.insert(0, '/repo')
warnings.filterwarnings('ignore')


from oracles.util import Skip, Hints  # noqa: E402


CASE_LIMIT = 100     # seconds; the cases take milliseconds to a few seconds


class Endless(BaseException):
    pass


def too_long(*a):
    raise Endless()


def run_case(mod, case):
    signal.signal(signal.SIGALRM, too_long)
    signal.alarm(CASE_LIMIT)
    try:
        r = mod.check(case)
    except Endless:
        return ['no answer within %d s' % CASE_LIMIT]
    except Skip:
        return None
    except Exception as e:
        tb = traceback.format_exc()
        return ['unexpected %s: %s\n%s' % (type(e).__name__, e, tb[-1200:])]
    finally:
        signal.alarm(0)
    return [r] if isinstance(r, str) else r or []


def main():
    import numpy as np
    a = sys.argv
    pid = a[1]
    mod = importlib.import_module('oracles.' + pid.lower())
    if '--replay' in a:
        d = json.load(open(a[a.index('--replay') + 1]))
        errs = run_case(mod, d['case'])
        print('case:', json.dumps(d['case']))
        print('\n'.join(errs) if errs else 'holds')
        return 1 if errs else 0
    secs = float(a[a.index('--seconds') + 1])
    seed = int(a[a.index('--seed') + 1])
    sh, n = map(int, a[a.index('--shard') + 1].split('/'))
    hj = json.load(open(a[a.index('--hints') + 1]))
    hints = Hints(hj['consts'], hj['models'])
    t0 = time.time()
    out = dict(evaluations=0, keys=[], violations=[], known=[], samples=[], rule=getattr(mod, 'RULE', ''))
    seen = set()
    kinds = {}
    rng = random.Random('%d-%d' % (seed, sh))

    saved = [t0]

    def save():
        f = a[a.index('--out') + 1]
        json.dump(out, open(f + '.part', 'w'), default=str)
        os.replace(f + '.part', f)
        saved[0] = time.time()

    def do(case):
        errs = run_case(mod, case)
        if time.time() - saved[0] > 5:
            save()
        if errs is None:
            return
        out['evaluations'] += 1
        k = hashlib.md5(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]
        if k not in seen:
            seen.add(k)
            out['keys'].append(k)
        if len(out['samples']) < 2:
            out['samples'].append(case)
        if errs:
            key = case.get('key') or ''
            if kinds.get(key, 0) < 3:
                kinds[key] = kinds.get(key, 0) + 1
                out['violations'].append(dict(case=case, what='; '.join(errs)[:1500], key=key))
                save()

    # fixed cases are split over the shards and always all run (up to a hard limit)
    for i, c in enumerate(mod.fixed(hints)):
        if i % n == sh:
            do(c)
            if time.time() - t0 > secs * 3 + 30:
                break
    gen = mod.random_case
    while time.time() - t0 < secs and len(out['violations']) < 8:
        do(gen(rng, hints))
    save()
    return 0


if __name__ == '__main__':
    sys.exit(main())
