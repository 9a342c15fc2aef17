"""Confirms planted bugs in a scratch copy and stores the confirmed ones in /verif/seeded.
mkseed.py SPECFILE...   each a python file with ID PROP FILE EDITS=[(old,new)..] NEEDS BREAKS DEMO"""
import sys, os, subprocess, json, shutil
SCR = '/tmp/sr'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='agg', MPLCONFIGDIR='/opt/vp/mpl')
stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def sh(cmd, cwd=None, t=400):
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=t)
    return r.returncode, r.stdout + r.stderr


def one(path):
    S = {}
    exec(open(path).read(), S)
    d = '/verif/seeded/' + S['ID']
    shutil.rmtree(SCR, ignore_errors=True)
    shutil.copytree('/repo', SCR, symlinks=True)
    f = os.path.join(SCR, S['FILE'])
    s = open(f).read()
    for o, n in S['EDITS']:
        if s.count(o) < 1:
            print(S['ID'], 'NOT FOUND', repr(o))
            return
        s = s.replace(o, n, 1)
    open(f, 'w').write(s)
    rc, diff = sh('git diff', SCR)
    tmp = '/tmp/seedtmp'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    open(tmp + '/demo.py', 'w').write(S['DEMO'])
    open(tmp + '/demo.sh', 'w').write('#!/bin/bash\nexec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
    os.chmod(tmp + '/demo.sh', 0o755)
    open(tmp + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=S['PROP'], needs=S['NEEDS'], what_it_breaks=S['BREAKS']), open(tmp + '/meta.json', 'w'), indent=1)
    a, oa = sh('bash %s/demo.sh' % tmp, SCR)
    b, ob = sh('bash %s/demo.sh' % tmp, '/repo')
    if a == 0 or b != 0:
        print(S['ID'], 'DEMO patched=%d clean=%d' % (a, b), oa[-300:], ob[-600:])
        return
    rc, o = sh('/opt/venv/bin/python -m pytest -q -n 8 -p no:cacheprovider --timeout=300 --tb=no --junitxml=/tmp/seedj.xml', SCR, 900)
    sh('python3 /opt/vp/results.py /tmp/seedo.json junit:/tmp/seedj.xml')
    res = json.load(open('/tmp/seedo.json'))
    lost = stable - set(res['passed'])
    if lost:
        print(S['ID'], 'TESTS', len(lost), sorted(lost)[:4])
        return
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(tmp, d)
    print(S['ID'], 'CONFIRMED', S['PROP'], oa.strip()[-120:])


for p in sys.argv[1:]:
    one(p)
