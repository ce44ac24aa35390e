"""usage: plant.py BUGS.py [ids...]   builds seeded/<id> from edits, verifying each in a scratch copy of /repo.
BUGS.py defines BUGS = [dict(id, property, file, edits=[(old, new)], needs, breaks, demo)]"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore PYTHONPATH="$PWD"
export MPLCONFIGDIR=$(mktemp -d)
/opt/venv/bin/python "$(dirname "$0")/demo.py"
rc=$?
rm -rf "$MPLCONFIGDIR"
exit $rc
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def tests(d):
    """names of the stable tests that fail in the copy d"""
    env = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED='0')
    out = os.path.join(d, 'junit.xml')
    sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors --mpl '
       '--mpl-baseline-path=attitude/test/baselines --mpl-results-path=/tmp/mplres '
       '-o python_files="test_*.py *_test.py tests.py __init__.py" --ignore=attitude/__dustbin '
       '-o junit_family=xunit2 --junitxml=%s --pyargs attitude' % out, cwd=d, env=env)
    sh('/usr/bin/python3 /opt/vp/results.py %s/res.json junit:%s' % (d, out))
    return set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(json.load(open(d + '/res.json'))['passed'])


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    ids = sys.argv[2:]
    for b in bugs:
        if ids and b['id'] not in ids:
            continue
        if not ids and os.path.exists(os.path.join(V, 'seeded', b['id'], 'patch.diff')):
            continue
        d = os.path.join(V, 'seeded', b['id'])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        open(os.path.join(d, 'demo.py'), 'w').write(b['demo'].strip() + '\n')
        json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']),
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        c = tempfile.mkdtemp(prefix='plant', dir='/tmp')
        try:
            sh('cp -a /repo/. %s' % c)
            clean = sh('bash %s/demo.sh' % d, cwd=c)
            edits = b['edits'] if isinstance(b['edits'], dict) else {b['file']: b['edits']}
            for f, es in edits.items():
                p = os.path.join(c, f)
                s = open(p).read()
                for old, new in es:
                    assert s.count(old) == 1, (b['id'], s.count(old), old)
                    s = s.replace(old, new)
                open(p, 'w').write(s)
            open(os.path.join(d, 'patch.diff'), 'w').write(sh('git diff', cwd=c).stdout)
            lost = tests(c)
            bad = sh('bash %s/demo.sh' % d, cwd=c)
            chk = sh('./check %s' % b['property'], cwd=V, env=dict(os.environ, VERIF_REPO=c, VERIF_EVIDENCE='/tmp/plantev'))
            line = [l for l in chk.stdout.splitlines() if l.startswith('VIOLATION') or l.startswith('failed')]
        finally:
            shutil.rmtree(c)
        ok = clean.returncode == 0 and bad.returncode != 0 and not lost
        print('%-5s %s valid=%s check=%d %s' % (b['id'], b['property'], ok, chk.returncode, ' | '.join(line)[:250]), flush=True)
        if not ok:
            print('     clean rc %d bad rc %d lost %s\n%s\n%s' % (
                clean.returncode, bad.returncode, lost, clean.stderr[-600:], bad.stderr[-300:]))
            shutil.rmtree(d)
        elif chk.returncode not in (0, 1):
            print(chk.stdout[-800:], chk.stderr[-800:])


main()
