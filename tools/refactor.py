"""usage: refactor.py FILE.py [names...]  applies each behaviour-preserving edit to a copy and runs the checks: they must stay quiet"""
import os, re, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for name, checks, edits in runpy.run_path(sys.argv[1])['R']:
    if len(sys.argv) > 2 and name not in sys.argv[2:]:
        continue
    d = tempfile.mkdtemp(prefix='refac', dir='/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo/.', d], check=True)
        for f, es in edits.items():
            s = open(os.path.join(d, f)).read()
            for a, b in es:
                assert s.count(a) == 1, (name, s.count(a), a)
                s = s.replace(a, b)
            open(os.path.join(d, f), 'w').write(s)
        out = []
        for c in checks.split():
            p = subprocess.run([V + '/check', c, '-v'], capture_output=True, text=True, cwd=V,
                               env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE='/tmp/refev'))
            m = re.search(r'(\d+)/(\d+) obl', p.stdout)
            open_ = sorted(set(l.strip()[:150] for l in p.stdout.split('\n') if 'undischarged' in l or 'MISMATCH' in l))
            out.append('%s=%d(%s)' % (c, p.returncode, m and m.group(0)[:-4]))
            if p.returncode or open_:
                out.append('\n      ' + '\n      '.join(open_[:5]) + ('\n   ALARM ' + p.stdout[-600:] + p.stderr[-300:] if p.returncode else '') + '\n   ')
        print('%-16s %s' % (name, ' '.join(out)), flush=True)
    finally:
        shutil.rmtree(d)
