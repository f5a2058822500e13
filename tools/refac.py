#!/usr/bin/env python3
"""Dev tool: run the checks on behaviour-preserving edits of /repo (refactors/*.py), in scratch copies.
refac.py SPECFILE [regex] [--build]"""
import sys, re, os, subprocess, shutil, runpy
from concurrent.futures import ThreadPoolExecutor
spec, rx = sys.argv[1], next((a for a in sys.argv[2:] if not a.startswith('--')), '')
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(r):
    id, checks, edits = r
    d = '/tmp/refac-' + id
    shutil.rmtree(d, ignore_errors=True)
    subprocess.check_call(['cp', '-a', '/repo', d])
    out = []
    for f, o, n in edits:
        s = open(d + '/' + f).read()
        if s.count(o) < 1:
            s2 = re.sub(r'\n\s*\n', '\n', s)
            o2 = re.sub(r'\n\s*\n', '\n', o)
            if s2.count(o2) < 1:
                shutil.rmtree(d)
                return '%-20s EDIT DOES NOT APPLY in %s' % (id, f)
            s, o = s2, o2
        open(d + '/' + f, 'w').write(s.replace(o, n, 1))
    for c in checks:
        p = subprocess.run(['python3-vt', 'check.py', c, '--tier', 'quick'], cwd=V, env=dict(os.environ, VERIF_REPO=d, VERIF_BUDGET='20'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        bad = [l for l in p.stdout.split('\n') if re.search(r'VIOLATION|undecided|not in the sources|broken|FAIL', l)]
        out.append('%-20s %s rc=%d %s' % (id, c, p.returncode, ' | '.join(l[:330] for l in bad[:4])))
    shutil.rmtree(d)
    return '\n'.join(out)


R = [r for r in runpy.run_path(spec)['R'] if re.search(rx, r[0])]
with ThreadPoolExecutor(3) as ex:
    for o in ex.map(one, R):
        print(o, flush=True)
