#!/usr/bin/env python3
"""mut.py SPEC.py: run checks on small edits of a scratch copy (development helper).
SPEC defines M = [(props, file, old, new), ...]; expected result is a violation unless new starts with '=' (then quiet)."""
import sys, os, shutil, subprocess, tempfile, concurrent.futures as cf
ns = {}
exec(open(sys.argv[1]).read(), ns)
sel = [int(x) for x in sys.argv[2:]]
def one(n):
    props, fn, old, new = ns['M'][n]
    quiet = new.startswith('=')
    if quiet: new = new[1:]
    d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
    try:
        shutil.copytree('/repo', d + '/repo', symlinks=True, ignore=shutil.ignore_patterns('.git', '*.o'))
        p = d + '/repo/' + fn
        s = open(p).read()
        if s.count(old) < 1: return '%d: TEXT NOT FOUND %s' % (n, fn)
        open(p, 'w').write(s.replace(old, new, 1))
        out = []
        for pid in props.split():
            e = dict(os.environ, VERIF_REPO=d + '/repo')
            r = subprocess.run(['python3', '/verif/run.py', pid], env=e, capture_output=True, text=True, timeout=900)
            L = [l for l in r.stdout.splitlines() if not l.startswith('      ')]
            v = any(l.startswith('VIOLATION') for l in L)
            st = 'ok' if v != quiet and r.returncode in (0, 1) else 'MISS' if not quiet else 'FALSE-ALARM'
            out.append('%d %s %s: %s' % (n, pid, st, (L[0] if L else r.stderr[-300:])[:170]))
        return '\n'.join(out)
    finally:
        shutil.rmtree(d)
with cf.ThreadPoolExecutor(6) as ex:
    for r in ex.map(one, sel or range(len(ns['M']))): print(r, flush=True)
