"""Front end: compile /repo's current tree to LLVM IR and load it.

Nothing of the daemon is run: sources are compiled with clang (-O0, asserts
off, so an assertion never counts as enforcement), promoted to SSA by the
irdump tool and loaded as plain Python data.
"""
import os, re, sys, json, subprocess, hashlib, tempfile, shutil, pickle
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
LLVM = '/usr/lib/llvm-18'


class AnalysisBroken(Exception):
    """The analysis cannot give a verdict (vanished anchor, failed compile)."""


def tool_path():
    src = os.path.join(VERIF, 'tool', 'irdump.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    bindir = os.path.join(VERIF, '.cache')
    os.makedirs(bindir, exist_ok=True)
    exe = os.path.join(bindir, 'irdump-' + h)
    if not os.path.exists(exe):
        tmp = exe + '.%d' % os.getpid()
        cmd = ['clang++', '-O1', '-w', '-std=c++17', '-fno-rtti', '-fno-exceptions',
               '-I' + LLVM + '/include', '-D_GNU_SOURCE', '-D__STDC_CONSTANT_MACROS',
               '-D__STDC_FORMAT_MACROS', '-D__STDC_LIMIT_MACROS', src, '-o', tmp,
               '-L' + LLVM + '/lib', '-lLLVM-18', '-Wl,-rpath,' + LLVM + '/lib']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisBroken('cannot build irdump: ' + r.stderr[-2000:])
        os.rename(tmp, exe)
    return exe


def source_list(repo):
    am = open(os.path.join(repo, 'ircd', 'Makefile.am')).read()
    m = re.search(r'^ircd_SOURCES\s*=((?:.*\\\n)*.*\n)', am, re.M)
    if not m:
        raise AnalysisBroken('ircd_SOURCES not found in ircd/Makefile.am')
    srcs = [t for t in re.split(r'[\s\\]+', m.group(1)) if t]
    srcs.append('tls_openssl.c')
    eng = None
    mk = os.path.join(repo, 'ircd', 'Makefile')
    if os.path.exists(mk):
        e = re.search(r'^ENGINE_C\s*=(.*)$', open(mk).read(), re.M)
        if e:
            eng = e.group(1).split()
    srcs += eng or ['engine_epoll.c', 'engine_poll.c']
    return sorted(set(srcs))


def tree_hash(repo, tool):
    h = hashlib.sha256(tool.encode())
    for d in ('ircd', 'include'):
        for fn in sorted(os.listdir(os.path.join(repo, d))):
            p = os.path.join(repo, d, fn)
            if fn.endswith(('.c', '.h', '.y', '.am')) and fn not in ('version.c', 'ircd_parser.c', 'ircd_parser.h') and os.path.isfile(p):
                h.update(fn.encode()); h.update(open(p, 'rb').read())
    p = os.path.join(repo, 'config.h')
    if os.path.exists(p):
        h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]


def compile_all(repo, scratch, tool):
    ird = os.path.join(repo, 'ircd')
    inc = os.path.join(scratch, 'inc')
    os.makedirs(inc)
    cfg = os.path.join(repo, 'config.h')
    if not os.path.exists(cfg):
        cfg = os.path.join(VERIF, 'lib', 'fallback', 'config.h')
    shutil.copy(cfg, os.path.join(inc, 'config.h'))
    # grammar: always from the .y file
    r = subprocess.run(['bison', '-y', '-d', '-o', 'ircd_parser.c', os.path.join(ird, 'ircd_parser.y')],
                       cwd=inc, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken('bison failed: ' + r.stderr[-1000:])
    base = ['clang', '-O0', '-g', '-w', '-DNDEBUG', '-DHAVE_CONFIG_H', '-I' + inc, '-I' + ird, '-I' + os.path.join(repo, 'include')]
    # character tables: built by the project's own generator
    chat = os.path.join(ird, 'chattr.tab.c')
    tg = os.path.join(scratch, 'table_gen')
    r = subprocess.run(base + [os.path.join(ird, 'table_gen.c'), '-o', tg], capture_output=True, text=True)
    done = False
    if r.returncode == 0:
        with open(os.path.join(inc, 'chattr.tab.c'), 'w') as f:
            done = subprocess.run([tg], stdout=f, timeout=60).returncode == 0
    if not done:
        shutil.copy(chat if os.path.exists(chat) else os.path.join(VERIF, 'lib', 'fallback', 'chattr.tab.c'),
                    os.path.join(inc, 'chattr.tab.c'))
    # the generated table wins over a stale one lying beside the sources
    vfs = os.path.join(scratch, 'vfs.yaml')
    with open(vfs, 'w') as f:
        json.dump({'version': 0, 'roots': [{'type': 'file', 'name': os.path.abspath(chat), 'external-contents': os.path.join(inc, 'chattr.tab.c')}]}, f)
    base += ['-ivfsoverlay', vfs]
    jobs = []
    for s in source_list(repo):
        if s == 'ircd_parser.y':
            jobs.append(('ircd_parser.y', os.path.join(inc, 'ircd_parser.c')))
        else:
            jobs.append((s, os.path.join(ird, s)))
    jobs.append(('probe.c', os.path.join(VERIF, 'lib', 'probe.c')))

    def one(job):
        name, path = job
        if not os.path.exists(path):
            raise AnalysisBroken('source listed in Makefile.am is missing: ' + name)
        bc = os.path.join(scratch, name + '.bc')
        r = subprocess.run(base + ['-Xclang', '-disable-O0-optnone', '-emit-llvm', '-c', path, '-o', bc],
                           capture_output=True, text=True)
        if r.returncode != 0 and name == 'probe.c':
            # constants that no longer exist are dropped; a check that needs one says so
            lines = open(path).read().split('\n')
            path = os.path.join(scratch, 'probe.c')
            for _ in range(5):
                for m in re.finditer(r'^[^\n:]*probe\.c:(\d+):\d+: error:', r.stderr, re.M):
                    lines[int(m.group(1)) - 1] = ''
                with open(path, 'w') as f:
                    f.write('\n'.join(lines))
                r = subprocess.run(base + ['-ferror-limit=0', '-Xclang', '-disable-O0-optnone', '-emit-llvm', '-c', path, '-o', bc],
                                   capture_output=True, text=True)
                if r.returncode == 0:
                    break
        if r.returncode != 0:
            raise AnalysisBroken('does not compile: %s\n%s' % (name, r.stderr[-1500:]))
        r = subprocess.run([tool, bc], capture_output=True)
        if r.returncode != 0:
            raise AnalysisBroken('irdump failed on %s: %s' % (name, r.stderr[-500:]))
        os.unlink(bc)
        return name, json.loads(r.stdout.decode('utf-8', 'replace'))

    with ThreadPoolExecutor(max_workers=int(os.environ.get('VERIF_JOBS', '8'))) as ex:
        return list(ex.map(one, jobs))


def load_raw(repo=None):
    repo = repo or REPO
    tool = tool_path()
    key = tree_hash(repo, os.path.basename(tool))
    pr = os.path.join(VERIF, 'lib', 'probe.c')
    key += hashlib.sha256(open(pr, 'rb').read()).hexdigest()[:8]
    cache = os.path.join(VERIF, '.cache', 'ir-' + key + '.pkl')
    if os.path.exists(cache):
        try:
            with open(cache, 'rb') as f:
                return pickle.load(f)
        except Exception:
            pass
    scratch = tempfile.mkdtemp(prefix='verif-ir-')
    try:
        mods = compile_all(repo, scratch, tool)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    try:
        # keep the cache small: drop all but the 3 newest
        cd = os.path.join(VERIF, '.cache')
        old = sorted((os.path.join(cd, f) for f in os.listdir(cd) if f.startswith('ir-') and f.endswith('.pkl')),
                     key=os.path.getmtime)
        for f in old[:-3]:
            os.unlink(f)
        tmp = cache + '.%d' % os.getpid()
        with open(tmp, 'wb') as f:
            pickle.dump(mods, f, protocol=4)
        os.rename(tmp, cache)
    except OSError:
        pass
    return mods
