"""Program model: functions, CFGs, call graph, mod summaries, constants."""
import re, collections
from front import load_raw, AnalysisBroken

CPRE = ('llvm.',)


class Func:
    __slots__ = ('key', 'name', 'mod', 'internal', 'ret', 'vararg', 'noreturn', 'line', 'file', 'params',
                 'vars', 'blocks', 'ditypes', 'preds', 'succs', 'rpo', 'rponum', 'loophead', 'inloop',
                 'livein', 'defs', 'calls', 'indirect', 'nargs', 'backedges', '_dom', '_pdom', 'loops')

    def __repr__(self):
        return 'Func(%s)' % self.key

    def loc(self, line=None):
        return 'ircd/%s:%s' % (self.mod, line if line is not None else self.line)


def term_succs(ins):
    op = ins[0]
    if op == 'jmp':
        return [ins[3]]
    if op == 'br':
        return [ins[4], ins[5]]
    if op == 'switch':
        return [ins[4]] + [b for _, b in ins[5]]
    return []


def _uses(ins):
    """value ids used by an instruction (phi excluded)"""
    out = []

    def walk(o):
        if isinstance(o, list):
            if len(o) == 2 and o[0] == 'v' and isinstance(o[1], int):
                out.append(o[1])
            else:
                for x in o:
                    walk(x)
    for o in ins[3:]:
        walk(o)
    return out


def analyse_cfg(f):
    n = len(f.blocks)
    f.succs = [list(dict.fromkeys(term_succs(b[-1]))) for b in f.blocks]
    f.preds = [[] for _ in range(n)]
    for i, ss in enumerate(f.succs):
        for s in ss:
            f.preds[s].append(i)
    # rpo
    seen = set(); order = []
    stack = [(0, iter(f.succs[0]))]; seen.add(0)
    onstack = {0}
    f.backedges = set()
    while stack:
        b, it = stack[-1]
        for s in it:
            if s in onstack:
                f.backedges.add((b, s))
            if s not in seen:
                seen.add(s); onstack.add(s)
                stack.append((s, iter(f.succs[s])))
                break
        else:
            stack.pop(); onstack.discard(b); order.append(b)
    f.rpo = order[::-1]
    f.rponum = {b: i for i, b in enumerate(f.rpo)}
    f.loophead = {h for _, h in f.backedges}
    # natural loops
    f.inloop = set()
    f.loops = {}
    for t, h in f.backedges:
        body = f.loops.setdefault(h, {h})
        work = [t]
        while work:
            b = work.pop()
            if b in body:
                continue
            body.add(b)
            work.extend(f.preds[b])
    for body in f.loops.values():
        f.inloop |= body
    # liveness
    use = [set() for _ in range(n)]; deff = [set() for _ in range(n)]
    phiuse = [collections.defaultdict(set) for _ in range(n)]
    for i, b in enumerate(f.blocks):
        for ins in b:
            if ins[0] == 'phi':
                for p, v in ins[3]:
                    if isinstance(v, list) and v and v[0] == 'v':
                        phiuse[i][p].add(v[1])
            else:
                for u in _uses(ins):
                    if u not in deff[i]:
                        use[i].add(u)
            deff[i].add(ins[1])
    live = [set() for _ in range(n)]
    changed = True
    while changed:
        changed = False
        for b in reversed(f.rpo):
            out = set()
            for s in f.succs[b]:
                out |= live[s] - {ins[1] for ins in f.blocks[s] if ins[0] == 'phi'}
                out |= phiuse[s].get(b, set())
            new = use[b] | (out - deff[b])
            # phi results are live-in at their own block
            if new != live[b]:
                live[b] = new; changed = True
    for i, b in enumerate(f.blocks):
        phis = {ins[1] for ins in b if ins[0] == 'phi'}
        used = set()
        live[i] = live[i] | phis
    f.livein = live
    f._dom = None
    f._pdom = None


class Program:
    def __init__(self, mods=None):
        mods = mods or load_raw()
        self.mods = {n: m for n, m in mods}
        self.funcs = {}      # key -> Func (defined)
        self.decls = {}      # name -> decl info
        self.byname = collections.defaultdict(list)
        self.globals = {}
        self.enums = {}
        self.structs = {}
        internal_names = collections.Counter()
        ext = set()
        for n, m in mods:
            for fo in m['functions']:
                if 'blocks' in fo:
                    if fo['internal']:
                        internal_names[fo['name']] += 1
                    else:
                        ext.add(fo['name'])
        # static inline functions in headers appear in several modules: identical
        self.symmap = {}
        for n, m in mods:
            sm = {}
            for fo in m['functions']:
                if 'blocks' not in fo:
                    continue
                nm = fo['name']
                if fo['internal'] and (internal_names[nm] > 1 or nm in ext):
                    if 'include/' in fo.get('file', '') or fo.get('file', '').endswith('.h'):
                        key = nm
                    else:
                        key = nm + '@' + n
                else:
                    key = nm
                sm[nm] = key
                if key in self.funcs:
                    continue
                f = Func()
                f.key = key; f.name = nm; f.mod = n
                for k in ('internal', 'ret', 'vararg', 'noreturn'):
                    setattr(f, k, fo[k])
                f.line = fo.get('line', 0); f.file = fo.get('file', '')
                f.params = fo['params']; f.nargs = len(f.params)
                f.vars = {int(k): v for k, v in fo['vars'].items()}
                f.blocks = fo['blocks']
                f.ditypes = fo.get('ditypes', [])
                f.preds = None
                self.funcs[key] = f
                self.byname[nm].append(f)
            self.symmap[n] = sm
            for fo in m['functions']:
                if 'blocks' not in fo:
                    self.decls.setdefault(fo['name'], fo)
            for k, v in m['enums'].items():
                self.enums.setdefault(k, v)
            for k, v in m['structs'].items():
                self.structs.setdefault(k, v)
            for g, go in m['globals'].items():
                k = g if not go['internal'] else g + '@' + n
                if go['internal'] or not go['decl'] or k not in self.globals:
                    go = dict(go); go['mod'] = n
                    self.globals[k] = go
        self._fpt = None
        self._callgraph()
        self._mods = None

    def cfg(self, f):
        if f.preds is None:
            analyse_cfg(f)
        return f

    def gkey(self, f, name):
        """resolve a symbol named inside function f's module"""
        sm = self.symmap[f.mod]
        if name in sm:
            return sm[name]
        g = name + '@' + f.mod
        if g in self.globals:
            return g
        return name

    def fn(self, name):
        f = self.funcs.get(name)
        if f is None:
            l = self.byname.get(name)
            if l and len(l) == 1:
                return l[0]
            raise AnalysisBroken('anchor function not found: ' + name)
        return f

    def enum(self, name):
        if name not in self.enums:
            raise AnalysisBroken('constant not found: ' + name)
        return self.enums[name]

    def field(self, struct, member):
        for m in self.structs.get(struct, {}).get('members', []):
            if m[0] == member:
                return m
        raise AnalysisBroken('field not found: %s.%s' % (struct, member))

    # -- call graph -------------------------------------------------------
    def _callgraph(self):
        self.callees = collections.defaultdict(set)
        self.callers = collections.defaultdict(set)
        self.callsites = collections.defaultdict(list)   # callee key -> [(Func, ins, block)]
        self.addr_taken = set()
        self.indirect = []      # (Func, ins)
        for k, f in self.funcs.items():
            f.calls = []
            for bi, b in enumerate(f.blocks):
                for ins in b:
                    if ins[0] == 'call':
                        c = ins[3]
                        if isinstance(c, list) and c[0] == 'g':
                            ck = self.gkey(f, c[1])
                            f.calls.append((ck, ins, bi))
                            self.callsites[ck].append((f, ins, bi))
                            self.callees[k].add(ck)
                            self.callers[ck].add(k)
                        else:
                            self.indirect.append((f, ins))
                        self._taken(f, ins[4])
                    elif ins[0] in ('store', 'phi', 'select', 'ret', 'icmp'):
                        if ins[0] == 'store':
                            self._taken(f, ins[3])
                        else:
                            self._taken(f, ins[3:])
        for g, go in self.globals.items():
            if 'init' in go:
                self._taken_g(go['mod'], go['init'])
        # resolve indirect calls by arity/type of address-taken functions
        self.ind_targets = {}
        for f, ins in self.indirect:
            sig = (tuple(ins[6]), ins[5])
            self.ind_targets.setdefault(sig, None)
        for sig in self.ind_targets:
            tys, ret = sig
            l = [k for k in self.addr_taken if k in self.funcs and
                 tuple(p[1] for p in self.funcs[k].params) == tys and self.funcs[k].ret == ret]
            self.ind_targets[sig] = l

    def _taken(self, f, o):
        if isinstance(o, list):
            if len(o) == 2 and o[0] == 'g' and isinstance(o[1], str):
                k = self.gkey(f, o[1])
                if k in self.funcs:
                    self.addr_taken.add(k)
            else:
                for x in o:
                    self._taken(f, x)

    def _taken_g(self, mod, o):
        if isinstance(o, list):
            if len(o) == 2 and o[0] == 'g' and isinstance(o[1], str):
                k = self.symmap[mod].get(o[1], o[1])
                if k in self.funcs:
                    self.addr_taken.add(k)
            else:
                for x in o:
                    self._taken_g(mod, x)

    def targets(self, f, ins):
        c = ins[3]
        if isinstance(c, list) and c[0] == 'g':
            return [self.gkey(f, c[1])]
        bysig = self.ind_targets.get((tuple(ins[6]), ins[5]), [])
        if self._fpt is None:
            self._funcptrs()
        s = self._fpsrc(f, c, set())
        return bysig if s is None else [k for k in bysig if k in s]

    # -- function pointers by the field or variable they are kept in
    def _defs(self, f):
        d = self._dcache.get(f.key)
        if d is None:
            d = self._dcache[f.key] = {ins[1]: ins for b in f.blocks for ins in b}
        return d

    def _fpsrc(self, f, o, seen):
        """functions an operand may hold, None if unknown"""
        if not isinstance(o, list): return set()
        if o[0] == 'g':
            k = self.gkey(f, o[1])
            return {k} if k in self.funcs else None
        if o[0] != 'v': return None
        t = (f.key, o[1])
        if t in seen: return set()
        seen.add(t)
        i = o[1]
        if i < f.nargs:
            if f.key in self.addr_taken: return None
            out = set()
            for g, ins, b in self.callsites.get(f.key, ()):
                if i >= len(ins[4]): return None
                r = self._fpsrc(g, ins[4][i], seen)
                if r is None: return None
                out |= r
            return out
        d = self._defs(f).get(i)
        if d is None: return None
        if d[0] == 'phi':
            out = set()
            for _, v in d[3]:
                r = self._fpsrc(f, v, seen)
                if r is None: return None
                out |= r
            return out
        if d[0] == 'select':
            a = self._fpsrc(f, d[4], seen); b = self._fpsrc(f, d[5], seen)
            return None if a is None or b is None else a | b
        if d[0] == 'load':
            key = self.opkey(f, self._defs(f), d[3], d[4])
            return self._fpkey(key, seen)
        return None

    def _fpkey(self, key, seen):
        if key is None or key.startswith('*'): return None
        if ('k', key) in seen: return set()
        seen.add(('k', key))
        out = set(self._fpt.get(key, ()))
        for f, v in self._fpst.get(key, ()):
            r = self._fpsrc(f, v, seen)
            if r is None: return None
            out |= r
        return out

    def _funcptrs(self):
        self._dcache = {}
        self._fpt = collections.defaultdict(set)
        self._fpst = collections.defaultdict(list)
        for f in self.funcs.values():
            d = self._defs(f)
            for b in f.blocks:
                for ins in b:
                    if ins[0] == 'store' and ins[5] == 'p':
                        self._fpst[self.opkey(f, d, ins[4], 'p')].append((f, ins[3]))

        def walk(mod, o, key):
            if not isinstance(o, list): return
            if len(o) == 2 and o[0] == 'g' and isinstance(o[1], str):
                k = self.symmap[mod].get(o[1], o[1])
                if k in self.funcs: self._fpt[key].add(k)
                return
            if o and o[0] == 'st':
                for n, v in o[2]: walk(mod, v, n)
                return
            for x in o: walk(mod, x, key)
        for g, go in self.globals.items():
            if 'init' in go: walk(go['mod'], go['init'], 'g:' + g)

    def reachable(self, roots, indirect=False, stop=()):
        seen = set(); work = list(roots)
        while work:
            k = work.pop()
            if k in seen or k in stop:
                continue
            seen.add(k)
            f = self.funcs.get(k)
            if not f:
                continue
            for ck, ins, b in f.calls:
                if ck not in seen:
                    work.append(ck)
            if indirect:
                for b in f.blocks:
                    for ins in b:
                        if ins[0] == 'call' and not (isinstance(ins[3], list) and ins[3][0] == 'g'):
                            work.extend(self.targets(f, ins))
        return seen

    # -- mod summaries ----------------------------------------------------
    def opkey(self, f, defs, o, ty):
        """memory key of an address operand (syntactic)"""
        if isinstance(o, list) and o:
            if o[0] == 'g':
                return 'g:' + self.gkey(f, o[1])
            if o[0] == 's':
                return None
            if o[0] == 'gep':
                for e in reversed(o[2]):
                    if e[0] == 'f':
                        return e[1]
                return self.opkey(f, defs, o[1], ty)
            if o[0] == 'v':
                d = defs.get(o[1])
                if d is None:
                    return '*' + ty
                if d[0] == 'gep':
                    path = d[4]
                    r = d
                    while r is not None and r[0] == 'gep' and isinstance(r[3], list) and r[3][0] == 'v': r = defs.get(r[3][1])
                    if r is not None and r[0] == 'alloca': return None
                    for e in reversed(path):
                        if e[0] == 'f':
                            return e[1]
                        if e[0] == 'i':
                            # pointer indexing: depends on the base
                            b = self.opkey(f, defs, d[3], ty)
                            if b is not None and not b.startswith('*'):
                                return b
                            return '*' + ty
                    return self.opkey(f, defs, d[3], ty)
                if d[0] == 'alloca':
                    return None
                if d[0] == 'cast':
                    return self.opkey(f, defs, d[4], ty)
                return '*' + ty
        return '*' + ty

    def direct_writes(self, f):
        """field keys a function stores to itself"""
        self.modsets()
        return self._direct[f.key]

    def macro(self, mod, name):
        """value of a macro private to a source file"""
        import front, subprocess, re, os
        c = self.__dict__.setdefault('_macros', {})
        if mod not in c:
            r = subprocess.run(['clang', '-E', '-dM', '-w', '-DNDEBUG', '-DHAVE_CONFIG_H', '-I' + front.REPO, '-I' + front.REPO + '/ircd', '-I' + front.REPO + '/include',
                                '-I' + os.path.join(front.VERIF, 'lib', 'fallback'), os.path.join(front.REPO, 'ircd', mod)], capture_output=True, text=True)
            c[mod] = dict(re.findall(r'^#define (\w+) (.*)$', r.stdout, re.M))
        v = c[mod].get(name)
        if v is None:
            raise AnalysisBroken('macro %s not found in %s' % (name, mod))
        for _ in range(5):
            v = re.sub(r'[A-Za-z_]\w*', lambda m: c[mod].get(m.group(0), m.group(0)) if not re.match(r'^0x', m.group(0)) else m.group(0), v)
        v = re.sub(r'(?<=[0-9a-fA-F])[uUlL]+\b', '', v)
        try:
            return int(eval(v, {'__builtins__': {}}))
        except Exception:
            raise AnalysisBroken('macro %s of %s is not a constant: %s' % (name, mod, v))

    def modsets(self):
        if self._mods is not None:
            return self._mods
        direct = {}
        calls = {}
        for k, f in self.funcs.items():
            defs = {}
            for b in f.blocks:
                for ins in b:
                    defs[ins[1]] = ins
            f.defs = defs
            s = set(); cs = set()
            for b in f.blocks:
                for ins in b:
                    if ins[0] == 'store':
                        kk = self.opkey(f, defs, ins[4], ins[5])
                        if kk:
                            s.add(kk)
                    elif ins[0] == 'call':
                        for t in self.targets(f, ins):
                            if t in self.funcs:
                                cs.add(t)
                            elif t not in PURE_LIBC:
                                dst = 1 if DEST_FIRST.match(t) else len(ins[4])
                                for a, ty in zip(ins[4][:dst], ins[6]):
                                    if ty == 'p':
                                        kk = self.opkey(f, defs, a, 'i8')
                                        if kk:
                                            s.add(kk)
            if k == 'event_execute':
                # assumption: no event callback runs inside the processing of another event
                s = set(); cs = set()
            direct[k] = s; calls[k] = cs
        for s in direct.values():
            for kk in list(s):
                s |= self.expand(kk)
        self._direct = direct
        self._flagmasks(direct, calls)
        # fixpoint over SCCs (simple iteration)
        mods = {k: set(v) for k, v in direct.items()}
        rev = collections.defaultdict(set)
        for k, cs in calls.items():
            for c in cs:
                rev[c].add(k)
        work = collections.deque(mods)
        inq = set(mods)
        while work:
            k = work.popleft(); inq.discard(k)
            for p in rev[k]:
                n = len(mods[p])
                mods[p] |= mods[k]
                if len(mods[p]) != n and p not in inq:
                    work.append(p); inq.add(p)
        self._mods = {k: frozenset(v) for k, v in mods.items()}
        return self._mods


    def rawparams(self):
        """parameters of each function whose target may be overwritten wholesale (memset and the like), directly or by callees"""
        if getattr(self, '_raw', None) is not None: return self._raw
        raw = {k: set() for k in self.funcs}
        calls = {k: [(ins, self.targets(f, ins)) for b in f.blocks for ins in b if ins[0] == 'call'] for k, f in self.funcs.items()}
        changed = True
        while changed:
            changed = False
            for k, f in self.funcs.items():
                r = raw[k]; n = len(r)
                for ins, tg in calls[k]:
                    for i, a in enumerate(ins[4]):
                        if not (isinstance(a, list) and a and a[0] == 'v' and a[1] < f.nargs) or a[1] in r: continue
                        for t in tg:
                            if t in raw:
                                if i in raw[t]: r.add(a[1])
                            elif t not in PURE_LIBC and not (DEST_FIRST.match(t) and i): r.add(a[1])
                        if not tg: r.add(a[1])
                changed |= len(r) != n
        self._raw = raw
        return raw

    def expand(self, key, depth=0):
        """writing a whole sub-structure writes its members"""
        if '.' not in key or key.startswith('g:') or depth > 3: return set()
        sn, mn = key.split('.', 1)
        for m in self.structs.get(sn, {}).get('members', ()):
            if m[0] == mn and m[3].startswith('struct ') and '*' not in m[3]:
                t = m[3][7:]
                out = set()
                for x in self.structs.get(t, {}).get('members', ()):
                    kk = '%s.%s' % (t, x[0])
                    out.add(kk); out |= self.expand(kk, depth + 1)
                return out
        return set()

    def _flagmasks(self, direct, calls):
        """which bits of the client flag word a function may change (transitively)"""
        ALL = (1 << 64) - 1
        KEY = 'Flags.bits'
        d = {}
        for k, f in self.funcs.items():
            m = 0
            if KEY in direct[k]:
                n = 0
                for b in f.blocks:
                    for ins in b:
                        if ins[0] == 'store' and self.opkey(f, f.defs, ins[4], ins[5]) == KEY:
                            n += 1
                            m |= self.bitmask(f, ins)
                if not n: m = ALL
                for b in f.blocks:
                    for ins in b:
                        if ins[0] == 'call' and 'llvm.mem' in str(ins[3]) and KEY in self.expand(self.opkey(f, f.defs, ins[4][0], 'i8') or '') | {self.opkey(f, f.defs, ins[4][0], 'i8')}: m = ALL
            d[k] = m
        rev = collections.defaultdict(set)
        for k, cs in calls.items():
            for c in cs: rev[c].add(k)
        work = collections.deque(d)
        while work:
            k = work.popleft()
            for p in rev[k]:
                if d[p] | d[k] != d[p]:
                    d[p] |= d[k]; work.append(p)
        self.flagmask = d

    def bitmask(self, f, ins):
        ALL = (1 << 64) - 1
        v = ins[3]
        if not (isinstance(v, list) and v[0] == 'v'): return ALL
        x = f.defs.get(v[1])
        if not x or x[0] != 'bin' or x[3] not in ('or', 'and'): return ALL
        c = x[5] if not isinstance(x[5], list) else x[4]
        o = x[4] if not isinstance(x[5], list) else x[5]
        if isinstance(c, list) or not (isinstance(o, list) and o[0] == 'v'): return ALL
        y = f.defs.get(o[1])
        if not y or y[0] != 'load' or self.opkey(f, f.defs, y[3], 'i64') != 'Flags.bits': return ALL
        return (c if x[3] == 'or' else ~c) & ALL


DEST_FIRST = re.compile(r'(llvm\.mem(cpy|move|set)\b|(mem(cpy|move|set)|str(n?cpy|n?cat)|v?sn?printf)$)')
PURE_LIBC = {'strlen', 'strcmp', 'strncmp', 'strchr', 'strrchr', 'strcasecmp', 'strncasecmp', 'memcmp', 'atoi', 'atol',
             'strtol', 'strtoul', 'time', 'abs', 'strstr', 'strspn', 'strcspn', 'strpbrk', 'free', '__errno_location', 'strerror',
             'getenv', 'toupper', 'tolower', 'isdigit', '__ctype_b_loc', 'memchr', 'close', 'write', 'unlink', 'atof', 'htons', 'ntohs'}
