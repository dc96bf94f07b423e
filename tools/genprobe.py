#!/usr/bin/env python3
"""One-off generator of lib/probe.c: exports integer-valued macros and enumerators of the headers."""
import re, os, subprocess, sys
inc = '/repo/include'
hs = [h for h in sorted(os.listdir(inc)) if h.endswith('.h') and h not in ('memdebug.h', 'umkpasswd.h', 'patchlist.h', 'ircd_crypt_native.h', 'ircd_crypt_plain.h', 'ircd_crypt_smd5.h', 'ircd_lexer.h')]
macros, enums = set(), set()
for h in hs:
    t = open(os.path.join(inc, h), errors='replace').read()
    for m in re.finditer(r'^\s*#\s*define\s+([A-Z][A-Za-z0-9_]+)\s+(\S.*)$', t, re.M):
        macros.add(m.group(1))
    t2 = re.sub(r'/\*.*?\*/', '', t, flags=re.S)
    for m in re.finditer(r'\benum\b[^{;()]*\{(.*?)\}', t2, re.S):
        for e in m.group(1).split(','):
            e = e.strip().split('=')[0].strip()
            if re.match(r'^[A-Za-z_]\w*$', e): enums.add(e)
head = ['#include "config.h"', '#include <sys/types.h>', '#include <time.h>', '#include <stdio.h>'] + ['#include "%s"' % h for h in hs]
extra = open(os.path.join(os.path.dirname(__file__), '..', 'lib', 'probe_extra.txt')).read() if os.path.exists(os.path.join(os.path.dirname(__file__), '..', 'lib', 'probe_extra.txt')) else ''
lines = []
for m in sorted(macros):
    lines.append(('m', m))
for e in sorted(enums):
    lines.append(('e', e))
def text(ls):
    out = list(head)
    for k, n in ls:
        if k == 'm': out.append('#ifdef %s\nconst long K_%s = (long)(%s);\n#endif' % (n, n, n))
        else: out.append('const long K_%s = (long)(%s);' % (n, n))
    return '\n'.join(out) + '\n' + extra
for _ in range(10):
    open('/tmp/probe.c', 'w').write(text(lines))
    r = subprocess.run(['clang', '-w', '-ferror-limit=0', '-DHAVE_CONFIG_H', '-DNDEBUG', '-I/repo', '-I/repo/include', '-I/repo/ircd', '-c', '/tmp/probe.c', '-o', '/dev/null'], capture_output=True, text=True)
    if r.returncode == 0: break
    src = open('/tmp/probe.c').read().split('\n')
    bad = set()
    for m in re.finditer(r'^/tmp/probe.c:(\d+):\d+: error: (.*)', r.stderr, re.M):
        mm = re.search(r'K_(\w+)', src[int(m.group(1)) - 1])
        if mm: bad.add(mm.group(1))
    # errors reported inside macro expansions
    for m in re.finditer(r'/tmp/probe.c:(\d+):\d+: note: expanded from', r.stderr): pass
    if not bad:
        print(r.stderr[:2000]); sys.exit(1)
    lines = [l for l in lines if l[1] not in bad]
open(os.path.join(os.path.dirname(__file__), '..', 'lib', 'probe.c'), 'w').write(text(lines))
print(len(lines))
