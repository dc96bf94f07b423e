#!/usr/bin/env python3
"""seed.py ID PROP FILE <<< json {old,new,needs,breaks,demo}: write /verif/seeded/ID (development helper)"""
import sys, json, os, subprocess, shutil, tempfile
def seed(id, prop, edits, needs, breaks, demo):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='seedwt')
    try:
        diffs = ''
        byfile = {}
        for f, old, new in edits: byfile.setdefault(f, []).append((old, new))
        for f, es in byfile.items():
            s0 = s = open('/repo/' + f).read()
            for old, new in es:
                assert s.count(old) == 1, (id, f, s.count(old), old)
                s = s.replace(old, new)
            for side, txt in (('a', s0), ('b', s)):
                p = os.path.join(t, side, f); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'w').write(txt)
            r = subprocess.run(['diff', '-u', 'a/' + f, 'b/' + f], cwd=t, capture_output=True, text=True)
            ls = r.stdout.split('\n'); ls[0] = '--- a/' + f; ls[1] = '+++ b/' + f
            diffs += '\n'.join(ls)
        open(d + '/patch.diff', 'w').write(diffs)
    finally:
        shutil.rmtree(t)
    shutil.copy('/verif/tools/demo_lib.py', d + '/demo_lib.py')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec env PYTHONDONTWRITEBYTECODE=1 python3 "$(dirname "$0")/demo.py"\n'); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.py', 'w').write('from demo_lib import *\n' + demo)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
