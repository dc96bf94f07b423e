"""E: no input crashes or corrupts the server."""
from checks.common import *
from checks.a_auth import TECH, NOTE
from absint import mkbin, mkcmp, INF, Analysis
E = frozenset()

A2 = T('arg', 2); A3 = T('arg', 3)


def reach_without(f, edges):
    """blocks reachable from the entry without the given edges"""
    seen = {0}; w = [0]
    while w:
        b = w.pop()
        for s in f.succs[b]:
            if s not in seen and (b, s) not in edges:
                seen.add(s); w.append(s)
    return seen


def nulltests(prog, f):
    """value number -> edges taken only when it is non-null"""
    prog.cfg(f)
    nn = {}; reach = {}
    phis = {y[1]: (bi, y) for bi, b in enumerate(f.blocks) for y in b if y[0] == 'phi'}
    def holds(w, pb, bi, imp):
        """w is non-null when bi is entered from pb with a condition that implies imp"""
        if w in imp or (pb, bi) in nn.get(w, ()): return True
        if w not in nn: return False
        r = reach.get(w)
        if r is None: r = reach[w] = reach_without(f, nn[w])
        return pb not in r
    def joined(c, truth, d):
        bi, c = phis[c[1]]
        src = [(pb, set() if isinstance(v, int) else implied(v, truth, d + 1)) for pb, v in c[3] if not (isinstance(v, int) and bool(v) != truth)]
        r = {w for w in set(nn).union(*[i for _, i in src]) if all(holds(w, pb, bi, imp) for pb, imp in src)}
        # a value joined in the same block is non-null when the one it comes from is
        for y in f.blocks[bi]:
            if y[0] != 'phi': break
            if y is c: continue
            inc = dict((pb, v) for pb, v in y[3])
            us = [(inc.get(pb), pb, imp) for pb, imp in src]
            if us and all(isinstance(u, list) and u and (u[0] in ('g', 's') or u[0] == 'v' and holds(u[1], pb, bi, imp)) for u, pb, imp in us): r.add(y[1])
        return r
    def implied(o, truth, d=0):
        """values that are non-null when the condition has the given truth"""
        c = f.defs.get(o[1]) if isinstance(o, list) and o and o[0] == 'v' else None
        if c is None or d > 6: return set()
        if c[0] == 'icmp' and c[3] in ('eq', 'ne') and 0 in (c[4], c[5]):
            a = c[4] if c[5] == 0 else c[5]
            if not (isinstance(a, list) and a[0] == 'v'): return set()
            if len(c) > 6 and c[6] == 'p': return {a[1]} if (c[3] == 'ne') == truth else set()
            # a test of a test
            return implied(a, (c[3] == 'ne') == truth, d + 1)
        if c[0] == 'cast': return implied(c[4], truth, d + 1)
        if c[0] == 'select':
            x, y = c[4], c[5]
            if truth and y == 0: return implied(c[3], True, d + 1) | implied(x, True, d + 1)
            if not truth and x in (1, True): return implied(c[3], False, d + 1) | implied(y, False, d + 1)
            return implied(x, truth, d + 1) & implied(y, truth, d + 1)
        if c[0] == 'bin' and (c[3], truth) in (('and', True), ('or', False)):
            return implied(c[4], truth, d + 1) | implied(c[5], truth, d + 1)
        if c[0] == 'phi' and len(c[3]) <= 8: return joined(c, truth, d)
        return set()
    brs = [(bi, b[-1]) for bi, b in enumerate(f.blocks) if b and b[-1][0] == 'br' and len(b[-1]) > 5 and b[-1][4] != b[-1][5]]
    ch = True
    while ch:
        ch = False
        for bi, ins in brs:
            for t, truth in ((ins[4], True), (ins[5], False)):
                for v in implied(ins[3], truth):
                    if (bi, t) not in nn.setdefault(v, set()): nn[v].add((bi, t)); reach.clear(); ch = True
        if not phis: break
    return nn


def nullunsafe(prog):
    """{function: parameters it may read through although they are null}; parameters printed by a format are fine"""
    c = getattr(prog, '_nullunsafe', None)
    if c is not None: return c
    out = {k: set() for k in prog.funcs}
    info = {}
    prog.modsets()
    for k, f in prog.funcs.items():
        nn = nulltests(prog, f)
        uses = []
        # values derived from a parameter: {value: {parameter}}
        al = {p: {p} for p in range(f.nargs)}
        memo = {}
        def open_(v, p):
            """blocks entered without v or p known to be non-null"""
            r = memo.get((v, p))
            if r is None: r = memo[(v, p)] = reach_without(f, nn.get(v, set()) | nn.get(p, set()))
            return r
        ch = True
        while ch:
            ch = False
            for bi, b in enumerate(f.blocks):
                for ins in b:
                    op = ins[0]
                    if op == 'phi': src = [(v, pb) for pb, v in ins[3]]
                    elif op == 'gep': src = [(ins[3], None)]
                    elif op == 'cast': src = [(ins[4], None)]
                    elif op == 'select':
                        d = f.defs.get(ins[3][1]) if isinstance(ins[3], list) and ins[3][0] == 'v' else None
                        src = [(v, None) for n, v in ((0, ins[4]), (1, ins[5]))
                               if not (d and d[0] == 'icmp' and v in (d[4], d[5]) and 0 in (d[4], d[5]) and d[3] == ('ne', 'eq')[n])]
                    else: continue
                    for v, pb in src:
                        if not (isinstance(v, list) and v and v[0] == 'v' and v[1] in al): continue
                        for p in al[v[1]]:
                            if pb is not None and (pb not in open_(v[1], p) or (pb, bi) in nn.get(v[1], ()) or (pb, bi) in nn.get(p, ())): continue
                            if p not in al.setdefault(ins[1], set()):
                                al[ins[1]].add(p); ch = True; memo.clear()
        def pars(a, bi):
            if isinstance(a, list) and a and a[0] == 'gep': a = a[1]
            if isinstance(a, list) and a and a[0] == 'v' and a[1] in al:
                return [p for p in al[a[1]] if bi in open_(a[1], p)]
            return ()
        for bi, b in enumerate(f.blocks):
            for ins in b:
                op = ins[0]
                if op == 'load': ops = [ins[3]]
                elif op == 'store': ops = [ins[4]]
                elif op == 'call':
                    for i, a in enumerate(ins[4]):
                        for p in pars(a, bi): uses.append((p, ins, i))
                    continue
                else: continue
                for a in ops:
                    for p in pars(a, bi): out[k].add(p)
        info[k] = uses
    changed = True
    while changed:
        changed = False
        for k, f in prog.funcs.items():
            for p, ins, i in info[k]:
                if p in out[k]: continue
                if argunsafe(prog, out, f, ins, i):
                    out[k].add(p); changed = True
    prog._nullunsafe = out
    return out


def argunsafe(prog, summ, f, ins, i):
    tg = prog.targets(f, ins)
    for t in tg:
        g = prog.funcs.get(t)
        if g is None:
            if t in ('free', 'time') or t.startswith('llvm.va_'): continue
            return True
        if i >= g.nargs: continue         # printed: the formatter prints (null)
        if i in summ[t]: return True
    return False


class Parv(Guard):
    """every use of parv is within the parameters given; parc is fixed for a run"""
    def __init__(self, prog, rep, parc, roles, **kw):
        Guard.__init__(self, prog, rep, **kw)
        self.parc = parc
        self.roles = roles
        self.thresholds = (0, parc - 1, parc, parc + 1)
        self.maxpara = KS(prog).MAXPARA + 1
        self.queue = set()

    def callrange(self, t):
        return (0, INF, E) if t.a[1] == 'mode_parse' else None

    slack = 0           # parameters before the first that belong to the same array

    def elem(self, a):
        if a is A3: return 0
        if isT(a) and a.k == 'ix' and a.a[0] is A3: return a.a[1]
        return None

    def bounds(self, st, i):
        return Analysis.fact(self, st, i)[:2] if isT(i) else (i, i)

    def fact(self, st, t):
        r = Analysis.fact(self, st, t)
        if isT(t) and t.k == 'ld':
            i = self.elem(t.a[0])
            if i is not None:
                l, h = self.bounds(st, i)
                if l >= 0 and h < self.parc: return (max(r[0], 1), r[1], r[2])
                if l == h == self.parc and r[0] <= 0 and ('w', l) not in st.tags: return (0, 0, r[2])
        return r

    def assume(self, st, c, truth):
        ok = Guard.assume(self, st, c, truth)
        # parv[i] is not null: i < parc, provided i <= parc
        if ok and isT(c) and c.k == 'cmp' and c.a[0] in ('eq', 'ne') and c.a[2] == 0 and truth == (c.a[0] == 'ne'):
            t = c.a[1]
            if isT(t) and t.k == 'ld':
                i = self.elem(t.a[0])
                if isT(i):
                    l, h = self.bounds(st, i)
                    if l >= 0 and h == self.parc and not any(x[0] == 'w' for x in st.tags):
                        return self.setfact(st, i, l, h - 1, Analysis.fact(self, st, i)[2])
        return ok

    def state(self, st, b):
        """how good is a value taken from parv: None (not one), 'ok', 'null', 'stale'"""
        if not isT(b) or b.k != 'ld': return None
        i = self.elem(b.a[0])
        if i is None: return None
        l, h = self.bounds(st, i)
        r = self.fact(st, b)
        if l < 0 or h > self.parc and not (l == h and ('w', l) in st.tags): return 'stale'
        return 'ok' if r[0] > 0 or 0 in r[2] else 'null'

    def deref(self, st, f, ins, addr, ctx):
        b = addr
        while isT(b) and b.k in ('ix', 'f'): b = b.a[0]
        n = self.state(st, b)
        if n is not None:
            self.require(self.ev(st, f, ins, [addr], ctx, 'deref'), 'parameter given', n == 'ok', '%s is read through, but only %d parameters may have been given' % (S(b), self.parc - 1))

    def on_load(self, st, f, ins, addr, ctx):
        i = self.elem(addr)
        if i is None:
            self.deref(st, f, ins, addr, ctx)
            return
        l, h = self.bounds(st, i)
        # the array itself is larger than the longest message; a value beyond the last parameter must not be used
        self.require(self.ev(st, f, ins, [addr], ctx, 'load'), 'parameter array', l >= 0 and h <= self.maxpara, 'parv[%s] is read outside the array' % S(i))

    def on_store(self, st, f, ins, addr, val, ctx):
        i = self.elem(addr)
        if i is None:
            self.deref(st, f, ins, addr, ctx)
            return
        l, h = self.bounds(st, i)
        self.require(self.ev(st, f, ins, [addr, val], ctx, 'store'), 'parameter array', l >= 0 and h <= self.maxpara, 'parv[%s] is written outside the array' % S(i))
        if l == h: st.tags = st.tags | {('w', l)}

    def rooted(self, a):
        while isT(a) and a.k == 'ix': a = a.a[0]
        return a is A3

    def slice(self, args):
        """(count argument, pointer argument, index) of a call f(…, parc - i, parv + i, …)"""
        for p in range(1, len(args)):
            a = args[p]
            if not self.rooted(a) or a is A3 or a.k != 'ix' or a.a[0] is not A3: continue
            i = a.a[1]; n = args[p - 1]
            if (isT(i) and (n is mkbin('sub', self.parc, i) or n is mkbin('add', mkbin('mul', i, -1), self.parc))) or (not isT(i) and not isT(n) and n == self.parc - i):
                return p - 1, p, i
        return None

    def inline(self, g, ctx, args):
        if g.name in HUNT or g.vararg or self.slice(args) is not None: return False
        if any(self.rooted(a) for a in args): return True
        # the value may be absent: see what the callee does with it
        if any(isT(a) and self.state(self.cur, a) == 'null' for a in args) and g.internal: return True
        return False

    def on_call(self, st, f, ins, callee, args, ctx):
        self.cur = st
        if callee in HUNT:
            fmt = strarg(args[5]); pv = args[8]
            c = len(re.findall(r'%[^%]', fmt)) if fmt is not None else 0
            self.require(self.ev(st, f, ins, args, ctx, callee), 'forwarded parameters given',
                         fmt is not None and pv is A3 and (args[6].__class__ is int and args[6] >= self.parc
                                                               or all(i < self.parc or ('w', i) in st.tags for i in range(1, c + 1))),
                         'the pattern %s forwards parameters that may not have been given (%d were)' % (S(args[5]), self.parc - 1))
            return None
        r = self.slice(args)
        if r is not None:
            # the tail of the parameters with its length: the callee is judged on its own
            self.require(self.ev(st, f, ins, args, ctx, callee), 'parameters handed on', r[2] is not None and self.bounds(st, r[2])[0] >= -self.slack and self.bounds(st, r[2])[1] < self.parc + bool(self.slack),
                         '%s() is handed an empty rest of the parameters' % callee)
            if callee != 'mode_parse': self.queue.add((callee, r[0], r[1]))
            return None
        summ = nullunsafe(self.p)
        for i, a in enumerate(args):
            n = self.state(st, a)
            if n is None: continue
            g = self.p.funcs.get(callee)
            ok = n == 'ok' or n == 'null' and (not argunsafe(self.p, summ, f, ins, i) or g is not None and self.inline(g, ctx, args))
            self.require(self.ev(st, f, ins, args, ctx, callee or 'indirect'), 'parameter given', ok,
                         '%s is handed to %s, but only %d parameters may have been given' % (S(a), callee, self.parc - 1))
        return Guard.on_call(self, st, f, ins, callee, args, ctx)

    def start(self, fn):
        k = self.k
        local = not (set(self.roles) & {'server'})
        def setup(st, a):
            x = self.load(st, T('f', a[1], 'Client.cli_status'), 'i16')
            if local:
                if set(self.roles) & {'client', 'oper', 'service'} and 'unreg' not in self.roles:
                    self.setfact(st, x, k.STAT_USER, k.STAT_USER, E)
                else:
                    self.setfact(st, x, -INF, INF, frozenset([k.STAT_SERVER, k.STAT_ME]))
            elif set(self.roles) == {'server'}:
                self.setfact(st, x, -INF, INF, E)
        s = T('arg', 1)
        return self.entryrun(fn, setup=setup, args=[s if local else T('arg', 0), s, self.parc, A3])

    def startslice(self, callee, pn, pp):
        f = self.p.fn(callee)
        args = [T('arg', 100 + i) for i in range(f.nargs)]
        args[pn] = self.parc; args[pp] = A3
        return self.entryrun(callee, args=args)


HUNT = ('hunt_server_cmd', 'hunt_server_prio_cmd')


class ModeArgs(Guard):
    """arguments of mode letters are taken only while some are left"""
    def base(self, addr):
        if isT(addr) and addr.k == 'ix':
            b = addr.a[0]
            if isT(b) and b.k == 'ld' and isT(b.a[0]) and b.a[0].k == 'f' and b.a[0].a[1] == 'ParseState.parv': return b.a[0].a[0]
        return None

    def settled(self, e):
        self.require(e, 'each argument counted', 'debt' not in e.st.tags, 'an argument was taken without counting it')

    def on_load(self, st, f, ins, addr, ctx):
        b = self.base(addr)
        if b is None: return
        e = self.ev(st, f, ins, [addr], ctx, 'load')
        left = self.load(st, T('f', b, 'ParseState.parc'), 'i32')
        self.require(e, 'argument given', self.fact(st, left)[0] >= 1, 'a mode argument is taken although none may be left (%s)' % S(left))
        self.settled(e)
        st.tags = st.tags | {'debt'}

    def on_store(self, st, f, ins, addr, val, ctx):
        if isT(addr) and addr.k == 'f':
            if addr.a[1] == 'ParseState.parc': st.tags = st.tags - {'debt'}
            elif addr.a[1] == 'ParseState.parv':
                e = self.ev(st, f, ins, [addr, val], ctx, 'store')
                self.require(e, 'mode arguments', val is T('arg', 5), 'mode arguments taken from elsewhere')

    def on_call(self, st, f, ins, callee, args, ctx):
        for a in args:
            if isT(a) and a.k == 'al' and a.a[2] == 'state' and callee and self.p.funcs.get(callee) is not None:
                self.settled(self.ev(st, f, ins, args, ctx, callee))
        return Guard.on_call(self, st, f, ins, callee, args, ctx)

    def on_ret(self, st, f, ins, val, ctx):
        self.settled(self.ev(st, f, ins, [val], ctx, 'ret'))


@prop('E01', 'No command reads parameters that were not given',
      'Whatever number of parameters a client or server sends with a command, its handler, and every function the parameters are handed to, reads only those that are there: none beyond the last, '
      'and the missing one after the last only where an absent parameter is allowed for. This covers forwarding a command to another server, taking the arguments of mode letters in MODE, OPMODE and BURST, '
      'server-to-server commands, and the messages of the authorization helper.',
      ['inputs'], 'every handler of the dispatch table with every number of parameters from none to the protocol maximum',
      'each handler has its own count checks on each of several paths; a missing check crashes the server or leaks stale memory only for one short form of one command',
      ['ircd/parse.c', 'ircd/m_burst.c', 'ircd/m_nick.c', 'ircd/channel.c', 'ircd/s_user.c'],
      [('handlers', 'ircd/m_*.c: (cptr, sptr, parc, parv)'), ('mode arguments', 'ircd/channel.c: mode_parse_*'), ('forwarding', 'ircd/s_user.c: hunt_server_cmd')],
      TECH, NOTE + 'The dispatcher delivers parc non-null strings followed by a null pointer (E02 decides its own bounds); command-line parameters printed with %s may be absent (the formatter prints "(null)").')
def e01(prog, rep, tier):
    k = KS(prog); prog.modsets()
    hs = {}
    for m in msgtab(prog):
        for r, h in zip(ROLES, m.h):
            if h: hs.setdefault(h, set()).add(r)
    maxp = k.MAXPARA + 1
    if maxp < 8: raise AnalysisBroken('MAXPARA is %d' % k.MAXPARA)
    counts = list(range(1, maxp + 1))
    queue = set()
    nullunsafe(prog)
    def one(h, pc):
        def job(rep):
            g = Parv(prog, rep, pc, hs[h], relevant=[r'^\$1->Client\.cli_status'], K=3, KLOOP=2)
            g.queue = set()
            g.start(h)
            return g.queue
        return job
    for q in parallel(rep, [one(h, pc) for pc in counts for h in sorted(hs)]): queue |= q
    queue.add(('do_numeric', 4, 5))
    done = set()
    while queue - done:
        cs = sorted(queue - done); done |= set(cs)
        def tail(c, pc):
            def job(rep):
                g = Parv(prog, rep, pc, ('server',), relevant=['(?!)'], K=3, KLOOP=24)
                g.queue = set()
                g.startslice(*c)
                return g.queue
            return job
        for q in parallel(rep, [tail(c, pc) for c in cs for pc in counts]): queue |= q
    # messages of the authorization helper: (session, client, count, parameters), the parameters begin with the first
    f = prog.fn('iauth_parse')
    hs2 = sorted({t for b in f.blocks for x in b if x[0] == 'call' and isinstance(x[3], list) and x[3][0] == 'v' for t in prog.targets(f, x)})
    if len(hs2) < 10: raise AnalysisBroken('handlers of helper messages not found')
    for h in hs2:
        for pc in (0, 1, 2, 3, 4):
            g = Parv(prog, rep, pc, ('server',), relevant=['(?!)'], K=2, KLOOP=6)
            g.queue = set()
            g.slack = 3
            g.startslice(h, 2, 3)
    g = NullArg(prog, rep, relevant=['(?!)'], K=4, KLOOP=2)
    g.null = None; g.visited = set(); g.bad = []
    g.inline_static = False
    def num(e):
        g.require(e, 'helper message', e.terms[0] != 0, 'a message without parameters makes %s read a null pointer' % e.callee)
    g.call(['strtol', 'strtoul', 'atoi', 'strchr', 'strcmp', 'strlen', 'ipmask_parse'], num)
    g.entryrun('iauth_parse')
    rep.need('helper message', 1)
    fs = [f for f in prog.funcs.values() if f.mod == 'channel.c' and (f.name == 'mode_parse' or f.name.startswith('mode_parse_') or any('ParseState.parv' in str(i) for b in f.blocks for i in b))]
    for f in fs:
        g = ModeArgs(prog, rep, relevant=['(?!)'], K=4, KLOOP=3, inline_mods=False)
        def setup(st, a, g=g, f=f):
            if f.name == 'mode_parse': g.setfact(st, a[4], 1, INF, E)
        g.entryrun(f, setup=setup)
    rep.need('parameter given', 600)
    rep.need('parameter array', 300)
    rep.need('forwarded parameters given', 20)
    rep.need('parameters handed on', 4)
    rep.need('argument given', 6)
    rep.need('each argument counted', 6)


# ------------------------------------------------------------------ E02
LIBCFMT = {'printf': 0, 'fprintf': 1, 'sprintf': 1, 'snprintf': 2, 'syslog': 1, 'asprintf': 1, 'dprintf': 1}
SPEC = re.compile(r"%([-+ #:0]*)(\*|\d+)?(\.(?:\*|\d*))?(hh|h|ll|l|q|L|j|t|z|Z|T)?(.)", re.S)


def replytable(prog):
    g = prog.globals.get('replyTable@s_err.c') or prog.globals.get('replyTable')
    if not g or 'init' not in g: raise AnalysisBroken('numeric reply table not found')
    arr = g['init']
    while arr[0] == 'st' and len(arr[2]) == 1 and arr[1] == 'lit': arr = arr[2][0][1]
    out = []
    def walk(a):
        if a[0] == 'arr':
            for x in a[1]: out.append(x)
        elif a[0] == 'st' and a[1] == 'lit':
            for _, x in a[2]:
                if x[0] == 'arr': walk(x)
                elif x[0] == 'zero' and x[1].startswith('['): out.extend([['zero', '']] * int(re.match(r'\[(\d+)', x[1]).group(1)))
                else: out.append(x)
    walk(g['init'])
    res = []
    for x in out:
        if x[0] == 'zero': res.append((0, None, None)); continue
        d = {n.split('.', 1)[1]: v for n, v in x[2]}
        fm = d.get('format'); st = d.get('str')
        res.append((d.get('value'), fm[1] if isinstance(fm, list) and fm[0] == 's' else None, st[1] if isinstance(st, list) and st[0] == 's' else None))
    return res


class Types:
    """declared type of a pointer operand, from debug information"""
    def __init__(self, prog):
        self.p = prog
        self.mem = {}
        for sn, s in prog.structs.items():
            for m in s['members']: self.mem[sn + '.' + m[0]] = m[3]

    def pointee(self, f, o, d=0, seen=()):
        """set of type names an operand may point to; '?' for unknown"""
        if d > 12: return {'?'}
        if o == 0: return set()
        if not isinstance(o, list): return {'?'}
        if o[0] == 's': return {'char'}
        if o[0] == 'g':
            g = self.p.globals.get(self.p.gkey(f, o[1])) or self.p.globals.get(o[1])
            t = g.get('dity') if g else None
            if t is None: return {'fn'} if self.p.gkey(f, o[1]) in self.p.funcs else {'?'}
            return {self.elem(t)}
        if o[0] == 'gep': return self.gept(f, o[1], o[2], d)
        if o[0] == 'cast': return self.pointee(f, o[2], d + 1, seen)
        if o[0] != 'v': return {'?'}
        if o[1] < f.nargs:
            return {self.strip(f.ditypes[o[1] + 1])} if o[1] + 1 < len(f.ditypes) else {'?'}
        if o[1] in seen: return set()
        x = f.defs.get(o[1])
        if x is None: return {'?'}
        if x[0] == 'alloca':
            v = f.vars.get(o[1])
            return {'?'}
        if x[0] == 'gep': return self.gept(f, x[3], x[4], d)
        if x[0] == 'cast': return self.pointee(f, x[4], d + 1, seen)
        if x[0] == 'load':
            t = self.lvtype(f, x[3])
            return {self.strip(t)} if t and t[0] == '*' else {'?'}
        if x[0] == 'call':
            tg = self.p.targets(f, x); r = set()
            for t in tg:
                g = self.p.funcs.get(t)
                if g is not None and g.ditypes: r.add(self.strip(g.ditypes[0]))
                else: r.add('char' if t in ('strerror', 'strchr', 'strrchr', 'strstr', 'strtok', 'inet_ntoa', 'getenv', 'strdup', 'strpbrk', 'ctime', 'gai_strerror') else '?')
            return r or {'?'}
        if x[0] == 'phi':
            r = set()
            for _, v in x[3]: r |= self.pointee(f, v, d + 1, seen + (o[1],))
            return r
        if x[0] == 'select': return self.pointee(f, x[4], d + 1, seen + (o[1],)) | self.pointee(f, x[5], d + 1, seen + (o[1],))
        return {'?'}

    def strip(self, t):
        return t[1:] if t and t[0] == '*' else '?'

    def elem(self, t):
        return re.sub(r'^(\[\d*\])+', '', t)

    def gept(self, f, base, path, d):
        last = None
        for e in path:
            if e[0] == 'f': last = self.mem.get(e[1], '?')
        if last is not None:
            return {self.elem(last)}
        return self.pointee(f, base, d + 1)

    def lvtype(self, f, a):
        """type of the object at an address"""
        if not isinstance(a, list): return None
        if a[0] == 'gep': path, base = a[2], a[1]
        elif a[0] == 'v' and a[1] >= f.nargs and f.defs.get(a[1]) and f.defs[a[1]][0] == 'gep': path, base = f.defs[a[1]][4], f.defs[a[1]][3]
        else: path, base = [], a
        last = None
        for e in path:
            if e[0] == 'f': last = self.mem.get(e[1])
        if last is not None: return self.elem(last)
        if isinstance(base, list) and base[0] == 'g':
            g = self.p.globals.get(self.p.gkey(f, base[1])) or self.p.globals.get(base[1])
            return self.elem(g['dity']) if g and g.get('dity') else None
        p = self.pointee(f, base)
        return p.pop() if len(p) == 1 else None


def argcallers(prog, f, n):
    """(caller, operand) for parameter n of f; None if it may be called in other ways"""
    if f.key in prog.addr_taken: return None
    cs = prog.callsites.get(f.key, [])
    return [(g, ins[4][n], ins) for g, ins, _ in cs if n < len(ins[4])] if cs else None


def localstores(prog, f, slot):
    """[(function, operand)] stored to a local variable, here or by callees given its address; None if unknown"""
    out = []
    for b in f.blocks:
        for x in b:
            if x[0] == 'store' and x[4] == ['v', slot]: out.append((f, x[3]))
            elif x[0] == 'call':
                for i, a in enumerate(x[4]):
                    if a != ['v', slot]: continue
                    for t in prog.targets(f, x):
                        g = prog.funcs.get(t)
                        if g is None:
                            if t.startswith('llvm.'): continue
                            return None
                        if i >= g.nargs: return None
                        for bb in g.blocks:
                            for y in bb:
                                if y[0] == 'store' and y[4] == ['v', i]: out.append((g, y[3]))
                                elif y[0] in ('call', 'store', 'phi', 'gep', 'select') and ['v', i] in (y[4] if y[0] == 'call' else y[3:5]): return None
    return out


def readonly(prog, g, i, seen=()):
    """the function does not write through its parameter"""
    if (g.key, i) in seen: return True
    for b in g.blocks:
        for x in b:
            if x[0] == 'store' and (x[3] == ['v', i] or x[4] == ['v', i]): return False
            if x[0] in ('gep', 'phi', 'select', 'ret') and ['v', i] in [y for z in x[3:] for y in ([z] if not (isinstance(z, list) and z and isinstance(z[0], list)) else [w[1] for w in z])]: return False
            if x[0] == 'call':
                for j, a in enumerate(x[4]):
                    if a != ['v', i]: continue
                    for t in prog.targets(g, x):
                        h = prog.funcs.get(t)
                        if t in ('ircd_strncpy', 'strlen', 'strcmp', 'ircd_strcmp') and not (t == 'ircd_strncpy' and j == 0): continue
                        if h is None or j < h.nargs and not readonly(prog, h, j, seen + ((g.key, i),)): return False
    return True


def safebuf(prog, f, base):
    """local character array that never receives a per cent sign"""
    for b in f.blocks:
        for x in b:
            if x[0] == 'store':
                a = root(f, x[4])
                if a == base and not (isinstance(x[3], int) and x[3] != 37): return False
            elif x[0] == 'call':
                for i, a in enumerate(x[4]):
                    if root(f, a) != base: continue
                    t = (prog.targets(f, x) or ['?'])[0]
                    if t.startswith('llvm.lifetime') or t in ('msgq_append',): continue
                    if t.startswith('llvm.memset') or t.startswith('llvm.memcpy') and isinstance(x[4][1], list) and x[4][1][0] == 's' and '%' not in x[4][1][1]: continue
                    if (t, i) in (('ircd_snprintf', 1), ('sprintf', 0), ('snprintf', 0)):
                        n = {'ircd_snprintf': 3, 'sprintf': 1, 'snprintf': 2}[t]; good = True
                        for z in formats(prog, f, x[4][n], x):
                            ps = parsefmt(z, True) if isinstance(z, str) else 'unknown'
                            good = good and not isinstance(ps, str) and '%%' not in z and len(ps) <= len(x[4]) - n - 1 and all(
                                c in 'dux' or c == 's' and all(isinstance(y, str) and '%' not in y for y in formats(prog, f, v, x)) for (c, _), v in zip(ps, x[4][n + 1:]))
                        if good: continue
                    g = prog.funcs.get(t)
                    if g is not None and i < g.nargs and t not in LIBCFMT and g.ditypes[i + 1:i + 2] == ['*char'] and readonly(prog, g, i): continue
                    return False
    return True


def root(f, o):
    while isinstance(o, list) and o:
        if o[0] == 'gep': o = o[1]; continue
        if o[0] == 'v' and o[1] >= f.nargs:
            d = f.defs.get(o[1])
            if d and d[0] == 'gep': o = d[3]; continue
            if d and d[0] == 'alloca': return o[1]
        return None
    return None


def fieldroot(f, o):
    fl = ()
    while isinstance(o, list) and o:
        if o[0] == 'gep': fl = tuple(e[1] for e in o[2] if e[0] == 'f') + fl; o = o[1]; continue
        if o[0] == 'v' and o[1] >= f.nargs:
            x = f.defs.get(o[1])
            if x and x[0] == 'gep': fl = tuple(e[1] for e in x[4] if e[0] == 'f') + fl; o = x[3]; continue
        return (str(o), fl)
    return None


def formats(prog, f, o, ins, d=0, seen=()):
    """constant strings an operand may be; None among them for unknown"""
    if d > 8: return {None}
    if o == 0: return set()
    if not isinstance(o, list): return {None}
    if o[0] == 's': return {o[1]}
    if o[0] == 'cast': return formats(prog, f, o[2], ins, d + 1, seen)
    if o[0] == 'gep' and all(not isinstance(e[1], list) and e[1] == 0 for e in o[2]): return formats(prog, f, o[1], ins, d + 1, seen)
    if o[0] == 'g':
        g = prog.globals.get(prog.gkey(f, o[1])) or prog.globals.get(o[1])
        if g and g.get('const') and isinstance(g.get('init'), list) and g['init'][0] == 's': return {g['init'][1]}
        return {None}
    if o[0] != 'v': return {None}
    if (f.key, o[1]) in seen: return set()
    seen = seen + ((f.key, o[1]),)
    if o[1] < f.nargs:
        cs = argcallers(prog, f, o[1])
        if cs is None: return {None}
        r = set()
        for g, a, x in cs: r |= formats(prog, g, a, x, d + 1, seen)
        return r
    x = f.defs.get(o[1])
    if x is None: return {None}
    r = set()
    if x[0] == 'phi':
        for _, v in x[3]: r |= formats(prog, f, v, ins, d + 1, seen)
        return r
    if x[0] == 'select': return formats(prog, f, x[4], ins, d + 1, seen) | formats(prog, f, x[5], ins, d + 1, seen)
    if x[0] == 'cast': return formats(prog, f, x[4], ins, d + 1, seen)
    if x[0] == 'load' and isinstance(x[3], list) and x[3][0] == 'g':
        g = prog.globals.get(prog.gkey(f, x[3][1])) or prog.globals.get(x[3][1])
        i = g.get('init') if g and g.get('const') else None
        return {i[1]} if isinstance(i, list) and i[0] == 's' else {None}
    if x[0] == 'load' and isinstance(x[3], list) and x[3][0] == 'v' and x[3][1] >= f.nargs and f.defs.get(x[3][1]) and f.defs[x[3][1]][0] == 'alloca':
        st = localstores(prog, f, x[3][1])
        if st is None: return {None}
        for g, v in st: r |= formats(prog, g, v, ins, d + 1, seen)
        return r or {None}
    if x[0] == 'gep':
        b = root(f, o)
        if b is not None and safebuf(prog, f, b): return {''}
        fr = fieldroot(f, o)
        if fr and fr[1]:
            # the text copied there by this very function
            for bb in f.blocks:
                for y in bb:
                    if y[0] == 'call' and y[3] == ['g', 'ircd_strncpy'] and fieldroot(f, y[4][0]) == fr: return formats(prog, f, y[4][1], ins, d + 1, seen)
        if all(not isinstance(e[1], list) and e[1] == 0 for e in x[4]): return formats(prog, f, x[3], ins, d + 1, seen)
    if x[0] == 'alloca':
        return {''} if safebuf(prog, f, o[1]) else {None}
    if x[0] == 'call':
        tg = prog.targets(f, x)
        if tg == ['strerror']: return {''}
        if tg and all(t.split('@')[0] == 'rpl_str' for t in tg):
            return {('num', n) for n in intvals(prog, f, x[4][0])}
    return {None}


def intvals(prog, f, o, d=0, seen=()):
    """constants an integer operand may be; None among them for unknown"""
    if not isinstance(o, list): return {o}
    if d > 14 or o[0] != 'v': return {None}
    if (f.key, o[1]) in seen: return set()
    seen = seen + ((f.key, o[1]),)
    if o[1] < f.nargs:
        cs = argcallers(prog, f, o[1])
        if cs is None: return {None}
        r = set()
        for g, a, _ in cs: r |= intvals(prog, g, a, d + 1, seen)
        return r
    x = f.defs.get(o[1])
    if x is None: return {None}
    r = set()
    if x[0] == 'phi':
        for _, v in x[3]: r |= intvals(prog, f, v, d + 1, seen)
        return r
    if x[0] == 'select': return intvals(prog, f, x[4], d + 1, seen) | intvals(prog, f, x[5], d + 1, seen)
    if x[0] == 'cast': return intvals(prog, f, x[4], d + 1, seen)
    if x[0] == 'call':
        for t in prog.targets(f, x) or ['?']:
            g = prog.funcs.get(t)
            if g is None or not g.blocks: return {None}
            for b in g.blocks:
                if b[-1][0] == 'ret': r |= intvals(prog, g, b[-1][3] if len(b[-1]) > 3 else None, d + 1, seen)
        return r or {None}
    if x[0] == 'bin':
        a, b = intvals(prog, f, x[4], d + 1, seen), intvals(prog, f, x[5], d + 1, seen)
        if None in a or None in b: return {None}
        op = {'add': lambda p, q: p + q, 'or': lambda p, q: p | q, 'and': lambda p, q: p & q, 'sub': lambda p, q: p - q}.get(x[3])
        return {op(p, q) for p in a for q in b} if op else {None}
    return {None}


def feasible(prog, f, o, v, block):
    """can the block be reached while operand o has the value v?"""
    if not isinstance(o, list): return o == v
    prog.cfg(f)
    bad = set()
    for bi, b in enumerate(f.blocks):
        t = b[-1] if b else None
        if t is None: continue
        if t[0] == 'switch' and t[3] == o:
            hit = [c[1] for c in t[5] if c[0] == v]
            for c in t[5]:
                if c[0] != v and c[1] not in hit and not (not hit and c[1] == t[4]): bad.add((bi, c[1]))
            if hit and t[4] not in hit: bad.add((bi, t[4]))
        elif t[0] == 'br' and len(t) >= 6 and isinstance(t[3], list) and t[3][0] == 'v':
            d = f.defs.get(t[3][1])
            if d and d[0] == 'icmp' and d[3] in ('eq', 'ne') and o in (d[4], d[5]):
                c = d[5] if d[4] == o else d[4]
                if isinstance(c, int) and t[4] != t[5]:
                    true = (c == v) == (d[3] == 'eq')
                    bad.add((bi, t[5] if true else t[4]))
    return block in reach_without(f, bad)


def parsefmt(fmt, own):
    """[(conversion, size, needs star)] or a string naming the error"""
    out = []
    i = 0
    while True:
        i = fmt.find('%', i)
        if i < 0: return out
        if fmt[i + 1:i + 2] == '%': i += 2; continue
        m = SPEC.match(fmt, i)
        if not m: return 'incomplete conversion'
        fl, w, pr, sz, c = m.groups()
        if w == '*': out.append(('*', None))
        if pr == '.*': out.append(('*', None))
        if c in 'dixXouc': out.append((c, sz))
        elif c in 'sp': out.append((c, sz))
        elif own and c in 'CHv': out.append((c, sz))
        elif own and c == 'm': pass
        elif not own and c in 'efgEGa': out.append(('f', sz))
        elif not own and c == 'm': pass
        else: return 'unknown conversion %' + c
        i = m.end()


WANT = {'C': 'struct Client', 'H': 'struct Channel', 'v': 'struct VarData'}


def checkfmt(ty, f, fmt, args, tys, own):
    ps = parsefmt(fmt, own)
    if isinstance(ps, str): return ps
    if len(ps) > len(args): return 'takes %d arguments, %d given' % (len(ps), len(args))
    for n, ((c, sz), a, t) in enumerate(zip(ps, args, tys)):
        if c in '*dixXouc':
            if t not in ('i32', 'i64') and not (t == 'p' and c in 'xX'): return 'argument %d for %%%s%s is %s' % (n + 1, sz or '', c, t)
        elif c == 'f':
            if t not in ('double', 'f64', 'd'): return 'argument %d for a floating-point conversion is %s' % (n + 1, t)
        else:
            if t != 'p' and a != 0: return 'argument %d for %%%s is %s, not a pointer' % (n + 1, c, t)
            if c == 'p': continue
            got = ty.pointee(f, a)
            if c == 's':
                bad = [x for x in got if x.startswith(('struct', '*', 'union', 'fn')) or x in ('int', 'short', 'long', 'unsigned int', 'long int')]
            else:
                bad = [x for x in got if x not in (WANT[c], '?', 'v')]
            if bad: return 'argument %d for %%%s is a %s' % (n + 1, c, bad[0])
    return None


def formatsites(prog):
    """(function, block, call, target, format operand index, own formatter)"""
    for f in prog.funcs.values():
        if f.mod == 'probe.c': continue
        for bi, b in enumerate(f.blocks):
            for ins in b:
                if ins[0] != 'call': continue
                for t in prog.targets(f, ins):
                    g = prog.funcs.get(t)
                    if g is not None:
                        if g.vararg: yield f, bi, ins, t, g.nargs - 1, True
                    elif t in LIBCFMT and t not in prog.funcs: yield f, bi, ins, t, LIBCFMT[t], False


def sitefmts(prog, k, f, bi, ins, t, nf):
    """[(format or None or number, index of first argument)]"""
    fo = ins[4][nf]
    if t != 'send_reply': return [(x, nf + 1) for x in formats(prog, f, fo, ins)]
    out = []
    for v in intvals(prog, f, fo):
        if v is None: out.append((None, nf + 1))
        elif not feasible(prog, f, fo, v, bi): continue
        elif v & k.SND_EXPLICIT: out += [(x, nf + 2) for x in formats(prog, f, ins[4][nf + 1], ins)]
        else: out.append((('num', v), nf + 1))
    return out


def judgefmt(ty, rt, f, ins, x, first, own):
    if x is None: return 'the format is not constant'
    if isinstance(x, tuple):
        v = x[1]
        if v is None: return 'the reply number is not constant'
        if not 0 <= v < len(rt) or rt[v][0] != v or rt[v][1] is None: return 'reply %s is not in the table of replies' % v
        x = rt[v][1]
    r = checkfmt(ty, f, x, ins[4][first:], ins[6][first:], own)
    return r and '"%s" %s' % (x[:60], r)


@prop('E02', 'Formats agree with the arguments they are given',
      'Every message, reply, notice and log line is formatted with a constant format (never text from a client or the network), every conversion in it has an argument, and pointer conversions get a pointer to what they print: '
      '%C a client, %H a channel, %v a nested format, %s text. Numeric replies use the format of their table entry, and that entry exists and carries the same number.',
      ['inputs'], 'every call of a formatting function with every format it can be given',
      'the compiler does not check the conversions of the server; a wrong argument crashes only when that reply is sent',
      ['ircd/ircd_snprintf.c', 'ircd/send.c', 'ircd/ircd_reply.c', 'ircd/s_err.c', 'ircd/msgq.c'], [('formatter', 'ircd/ircd_snprintf.c: doprintf'), ('replies', 'ircd/s_err.c: replyTable')],
      'static analysis: type check of format strings against declared argument types (debug information of the compiled source), with dataflow for non-literal formats',
      'Integer widths are not judged (the formatter takes whole registers on the supported platform), nor are arguments in excess of the conversions. Types are those declared; casts through void are unknown and accepted.')
def e02(prog, rep, tier):
    k = KS(prog); prog.modsets()
    rt = replytable(prog); ty = Types(prog)
    for n, (v, fm, st) in enumerate(rt):
        if v: rep.ob('table of replies', 'ircd/s_err.c: reply %d' % n, v == n and st is not None and st == '%03d' % n, 'entry %d of the reply table is for number %s (%s)' % (n, v, st))
    redo = {}
    n = 0
    for f, bi, ins, t, nf, own in formatsites(prog):
        w = 'ircd/%s:%s (%s)' % (f.mod, ins[2], f.name)
        rep.functions.add(f.key)
        if f.name in HUNT and t.startswith('sendcmdto'): continue
        res = [judgefmt(ty, rt, f, ins, x, first, own) for x, first in sitefmts(prog, k, f, bi, ins, t, nf)]
        n += 1
        if any(res) and len(res) > 1:
            redo.setdefault(f.key, []).append((ins, t, nf, own, w)); continue
        bad = [r for r in res if r]
        rep.ob('format', w, not bad, '%s: %s' % (t, bad[0] if bad else ''))
    # the format depends on the path: decide each path
    for key, l in redo.items():
        f = prog.funcs[key]
        g = Guard(prog, rep, relevant=[r'^\$\d+(->[\w.]+)? -?\d+$'], K=6, KLOOP=4, inline_mods=False)
        def on(e, l=l, g=g):
            for ins, t, nf, own, w in l:
                if e.ins is not ins: continue
                i = nf
                if t == 'send_reply':
                    v = e.terms[nf]
                    if not isT(v) and v & k.SND_EXPLICIT: i = nf + 1; x = strarg(e.terms[i])
                    else: x = None if isT(v) else ('num', v)
                else: x = strarg(e.terms[nf])
                r = judgefmt(ty, rt, e.f, ins, x, i + 1, own)
                g.require(e, 'format', not r, '%s: %s' % (t, r))
        g.rx.append((re.compile('.'), on))
        g.entryrun(f)
    # patterns of forwarded commands: the server is printed where the target stood, the rest are texts
    for h in HUNT:
        for f, ins, _ in prog.callsites.get(h, []):
            w = 'ircd/%s:%s (%s)' % (f.mod, ins[2], f.name)
            fs = formats(prog, f, ins[4][5], ins)
            bad = None
            for x in fs:
                ps = parsefmt(x, True) if isinstance(x, str) else 'not constant'
                if isinstance(ps, str): bad = 'pattern %s' % ps; continue
                for sv in intvals(prog, f, ins[4][6]):
                    for i, (c, _) in enumerate(ps):
                        if c != ('C' if i + 1 == sv else 's'): bad = 'pattern "%s" with the server in parameter %s' % (x, sv)
                    if len(ps) > 8: bad = 'pattern "%s" takes more than eight parameters' % x
            rep.ob('forwarding pattern', w, not bad, str(bad))
    rep.need('format', 1500)
    rep.need('table of replies', 150)
    rep.need('forwarding pattern', 25)


# --- lookups that may fail ---------------------------------------------------
LOOKUPS = {'hSeekClient', 'hSeekChannel', 'FindNServer', 'FindXNServer', 'findNUser', 'find_class'}
ALLOCS = {'DoMalloc', 'DoRealloc', 'DoMallocZero', 'malloc', 'realloc', 'calloc'}


def allocfailed(prog, f, pred, to):
    """the edge is taken only when memory ran out (the allocator ends the program then)"""
    b = f.blocks[pred]
    ins = b[-1]
    if ins[0] != 'br' or len(ins) < 6:
        # a block of its own: look at how it is entered
        ps = [p for p in range(len(f.blocks)) if pred in f.succs[p]]
        return len(ps) == 1 and len(b) <= 1 and allocfailed(prog, f, ps[0], pred)
    d = f.defs.get(ins[3][1]) if isinstance(ins[3], list) and ins[3][0] == 'v' else None
    if not d or d[0] != 'icmp' or d[3] not in ('eq', 'ne') or 0 not in (d[4], d[5]): return False
    a = d[4] if d[5] == 0 else d[5]
    c = f.defs.get(a[1]) if isinstance(a, list) and a[0] == 'v' else None
    if not c or c[0] != 'call' or not set(prog.targets(f, c)) & ALLOCS: return False
    return to == (ins[4] if d[3] == 'eq' else ins[5])


def maynull(prog):
    """pointer functions that can return a null pointer"""
    c = getattr(prog, '_maynull', None)
    if c is not None: return c
    prog.modsets()
    src = {}; nns = {}
    def rv(f, o, d, seen):
        if o == 0: return {'null'}
        if not isinstance(o, list) or o[0] != 'v' or o[1] < f.nargs or d > 12 or o[1] in seen: return set()
        x = f.defs.get(o[1])
        if x is None: return set()
        seen = seen | {o[1]}
        if x[0] == 'phi':
            r = set()
            at = [bi for bi, b in enumerate(f.blocks) if x in b][0]
            for pb, v in x[3]:
                if v == 0 and allocfailed(prog, f, pb, at): continue
                if isinstance(v, list) and v[0] == 'v':
                    if f.key not in nns: nns[f.key] = nulltests(prog, f)
                    cut = nns[f.key].get(v[1])
                    if cut and ((pb, at) in cut or pb not in reach_without(f, cut)): continue
                r |= rv(f, v, d + 1, seen)
            return r
        if x[0] == 'select':
            c = f.defs.get(x[3][1]) if isinstance(x[3], list) and x[3][0] == 'v' else None
            r = set()
            for n, u in ((0, x[4]), (1, x[5])):
                if c and c[0] == 'icmp' and u in (c[4], c[5]) and 0 in (c[4], c[5]) and c[3] == ('ne', 'eq')[n]: continue
                r |= rv(f, u, d + 1, seen)
            return r
        if x[0] == 'cast': return rv(f, x[4], d + 1, seen)
        if x[0] == 'call': return {('call', t) for t in prog.targets(f, x)}
        return set()
    for k, f in prog.funcs.items():
        if f.ret != 'p': continue
        prog.cfg(f)
        s = set()
        for b in f.blocks:
            if b and b[-1][0] == 'ret' and len(b[-1]) > 3: s |= rv(f, b[-1][3], 0, frozenset())
        src[k] = s
    may = {k for k, s in src.items() if 'null' in s} | {k for k, f in prog.funcs.items() if f.name in LOOKUPS}
    ch = True
    while ch:
        ch = False
        for k, s in src.items():
            if k not in may and any(isinstance(x, tuple) and x[1] in may for x in s):
                may.add(k); ch = True
    prog._maynull = may
    return may


def nullflow(prog, f, nn, site, bi, v):
    """uses of call result v that need it non-null and are reached without a test: [(block, ins)]"""
    un = nullunsafe(prog)
    memo = {}
    def open_(w):
        r = memo.get(w)
        if r is None:
            cut = nn.get(w, set()) | nn.get(v, set())
            r = {bi}; q = [bi]
            while q:
                b = q.pop()
                for s in f.succs[b]:
                    if s not in r and (b, s) not in cut: r.add(s); q.append(s)
            memo[w] = r
        return r
    al = {v: v}                 # value -> the value whose tests speak for it
    ch = True
    while ch:
        ch = False
        for bj, b in enumerate(f.blocks):
            for y in b:
                if y[0] == 'phi': src = [(u, pb) for pb, u in y[3]]
                elif y[0] == 'gep': src = [(y[3], None)]
                elif y[0] == 'cast': src = [(y[4], None)]
                elif y[0] == 'select':
                    d = f.defs.get(y[3][1]) if isinstance(y[3], list) and y[3][0] == 'v' else None
                    src = [(u, None) for n, u in ((0, y[4]), (1, y[5]))
                           if not (d and d[0] == 'icmp' and u in (d[4], d[5]) and 0 in (d[4], d[5]) and d[3] == ('ne', 'eq')[n])]
                else: continue
                for u, pb in src:
                    if not (isinstance(u, list) and u and u[0] == 'v' and u[1] in al): continue
                    if y[1] in al: continue
                    w = al[u[1]]
                    if y[0] == 'gep' or y[0] == 'cast':
                        if bj in open_(w): al[y[1]] = w; ch = True
                        continue
                    if (pb if pb is not None else bj) not in open_(w) or pb is not None and ((pb, bj) in nn.get(w, ()) or (pb, bj) in nn.get(v, ())): continue
                    al[y[1]] = y[1]; ch = True
    out = []
    for bj, b in enumerate(f.blocks):
        started = bj != bi
        for y in b:
            if y is site: started = True; continue
            if y[0] == 'load': o = [y[3]]
            elif y[0] == 'store': o = [y[4]]
            elif y[0] == 'call': o = [a for i, a in enumerate(y[4]) if argunsafe(prog, un, f, y, i)]
            else: continue
            for a in o:
                if isinstance(a, list) and a and a[0] == 'gep': a = a[1]
                if not (isinstance(a, list) and a and a[0] == 'v' and a[1] in al): continue
                if bj not in open_(al[a[1]]): continue
                if not started and al[a[1]] == v: continue
                out.append((bj, y)); break
    return out


class Lookups(Guard):
    """path-sensitive second look at the results that the flow analysis could not clear"""
    def use(self, st, f, ins, a, ctx, what):
        while isT(a) and a.k in ('ix', 'f'): a = a.a[0]
        if not isT(a): return
        l, h, ex = self.fact(st, a)
        if id(ins) not in self.watch: return
        e = self.ev(st, f, ins, [a], ctx, what)
        self.bad.setdefault(id(ins), []).append((l <= 0 <= h and 0 not in ex, S(a), self.where(e)))

    def on_load(self, st, f, ins, addr, ctx): self.use(st, f, ins, addr, ctx, 'load')
    def on_store(self, st, f, ins, addr, val, ctx): self.use(st, f, ins, addr, ctx, 'store')
    def on_call(self, st, f, ins, callee, args, ctx):
        un = nullunsafe(self.p)
        for i, a in enumerate(args):
            if argunsafe(self.p, un, f, ins, i): self.use(st, f, ins, a, ctx, callee)
        return Guard.on_call(self, st, f, ins, callee, args, ctx)


def configtable(prog, rep):
    """every key of the network configuration that is looked up is in its table, and every string in it has a default"""
    t = [g for n, g in prog.globals.items() if n.split('@')[0] == 'netconf_descs']
    if not t: raise AnalysisBroken('netconf_descs is gone')
    keys = {}
    for r in t[0]['init'][1]:
        r = dict((x[0].split('.')[1], x[1]) for x in r[2])
        keys.setdefault(r['netconf'], r)
        rep.ob('configuration default', 'ircd/ircd_netconf.c (netconf_descs)', not (r['def_str'] == 0 and r['type'] != 0 and r['flags'] == 3), 'the string setting %s has no default' % (r['type'],))
    for k, f in sorted(prog.funcs.items()):
        for b in f.blocks:
            for y in b:
                if y[0] == 'call' and isinstance(y[3], list) and y[3] in (['g', 'netconf_str'], ['g', 'netconf_int'], ['g', 'netconf_bool']):
                    rep.ob('configuration key', 'ircd/%s:%s (%s)' % (f.mod, y[2], f.name), y[4][0] in keys and keys[y[4][0]]['type'] != 0, 'the key %s is not in the table' % (y[4][0],))
    rep.need('configuration key', 12)


def given(prog, f, bi, x, tg):
    """answers that cannot be missing for a reason outside the function"""
    names = {prog.funcs[t].name for t in tg}
    if names <= {'do_find_class', 'find_class'}:
        # the class was just added under this name
        for y in f.blocks[bi]:
            if y is x: break
            if y[0] == 'call' and any(prog.funcs[t].name == 'add_class' for t in prog.targets(f, y) if t in prog.funcs):
                return samevalue(f, y[4][0], x[4][0])
    if names == {'find_conf_byname'}:
        # only asked about an authorised link
        return ownedby(prog, f, 'check_loop_and_lh')
    if names == {'get_channel'}:
        # asked to create it; names reach here only after they were seen to be channel names
        return x[4][2] == KS(prog).CGT_CREATE
    if names == {'hSeekChannel'}:
        # a kicked member that is still listed is not the only one: the channel outlives its removal
        y = before(f, bi, x)
        return y is not None and y[0] == 'call' and any(prog.funcs[t].name == 'remove_user_from_channel' for t in prog.targets(f, y) if t in prog.funcs)
    if names == {'netconf_find'}:
        return f.name in ('netconf_int', 'netconf_bool', 'netconf_str')
    return False


def before(f, bi, x):
    """the last call before x in its block or the only way into it"""
    seen = set()
    while bi not in seen:
        seen.add(bi)
        last = None
        for y in f.blocks[bi]:
            if y is x: break
            if y[0] == 'call': last = y
        if last is not None: return last
        ps = [p for p in range(len(f.blocks)) if bi in f.succs[p]]
        if len(ps) != 1: return None
        bi = ps[0]


def samevalue(f, a, b):
    if a == b: return True
    x = f.defs.get(a[1]) if isinstance(a, list) and a[0] == 'v' else None
    y = f.defs.get(b[1]) if isinstance(b, list) and b[0] == 'v' else None
    return bool(x and y and x[0] == y[0] == 'load' and x[3] == y[3])


def ownedby(prog, f, name, d=0):
    """f is the named function or only called by it"""
    if f.name == name: return True
    if d > 3 or not f.internal: return False
    cs = callersof(prog, f.key)
    return bool(cs) and all(ownedby(prog, c, name, d + 1) for c in cs)


def callersof(prog, key):
    return [g for g in prog.funcs.values() if any(y[0] == 'call' and key in prog.targets(g, y) for b in g.blocks for y in b)]


def liketargets(prog, f, bi, x):
    """targets of a call; where the callee was chosen together with another value, only those whose companion passes the tests on the way to the call"""
    tg = prog.targets(f, x)
    P = f.defs.get(x[3][1]) if isinstance(x[3], list) and x[3][0] == 'v' else None
    if P is None or P[0] != 'phi': return tg
    from checks.b_deliver import evalop
    B = next(i for i, b in enumerate(f.blocks) if any(y is P for y in b))
    mates = {y[1]: dict(y[3]) for y in f.blocks[B] if y[0] == 'phi'}
    drop = set()
    for d, b in enumerate(f.blocks):
        t = b[-1]
        if t[0] != 'br' or len(t) < 6 or t[4] == t[5]: continue
        only = [n for n, s in ((1, t[4]), (0, t[5])) if bi not in reach_without(f, {(d, s)})]
        if len(only) != 1: continue
        for pb, v in P[3]:
            if not (isinstance(v, list) and v[0] == 'g'): continue
            env = {m: c[pb] for m, c in mates.items() if isinstance(c.get(pb), int)}
            c = evalop(f, t[3], env, None)
            if c is not None and bool(c) != bool(only[0]): drop.add((v[1], pb))
    keep = {v[1] for pb, v in P[3] if isinstance(v, list) and v[0] == 'g' and (v[1], pb) not in drop}
    gone = {v for v, pb in drop} - keep
    return [t for t in tg if t not in gone and prog.funcs[t].name not in gone] if gone else tg


def nullargs(prog):
    """(function, call, argument, what it is handed to, may that read through it) of every pointer argument that is a constant null"""
    summ = nullunsafe(prog)
    for k, f in sorted(prog.funcs.items()):
        for bi, b in enumerate(f.blocks):
            for x in b:
                if x[0] != 'call': continue
                for i, a in enumerate(x[4]):
                    if a == 0 and len(x) > 6 and i < len(x[6]) and x[6][i] == 'p':
                        tg = [t for t in liketargets(prog, f, bi, x) if t in prog.funcs and i < prog.funcs[t].nargs]
                        if tg: yield f, x, i, tg, argunsafe(prog, summ, f, x, i)


class NullArg(Guard):
    """path-sensitive second look at a function that is handed a null pointer"""
    def use(self, st, f, ins, a, ctx, what):
        while isT(a) and a.k in ('ix', 'f'): a = a.a[0]
        if a is self.null or a == 0:
            self.bad.append((f.name, ins[2], trace_lines(st, 10)))

    def on_load(self, st, f, ins, addr, ctx): self.use(st, f, ins, addr, ctx, 'load')
    def on_store(self, st, f, ins, addr, val, ctx): self.use(st, f, ins, addr, ctx, 'store')
    def on_call(self, st, f, ins, callee, args, ctx):
        t = [self.p.funcs[t] for t in self.p.targets(f, ins) if t in self.p.funcs]
        if not (t and self.inline(t[0], ctx, args)) and not (f.key, id(ins)) in self.visited:
            un = nullunsafe(self.p)
            for i, a in enumerate(args):
                if a is self.null and argunsafe(self.p, un, f, ins, i): self.use(st, f, ins, a, ctx, callee)
        return Guard.on_call(self, st, f, ins, callee, args, ctx)


def nullpassed(prog, rep):
    memo = {}
    for f, x, i, tg, unsafe in nullargs(prog):
        why = None
        if unsafe:
            for t in tg:
                consts = tuple((n, a) for n, a in enumerate(x[4]) if isinstance(a, int) and n != i)
                key = (t, i, consts)
                if key not in memo:
                    g = NullArg(prog, rep, relevant=[r'\$%d\b' % i], K=4, KLOOP=2)
                    g.bad = []; g.visited = set(); g.null = T('arg', i)
                    F = prog.funcs[t]
                    args = [T('arg', n) for n in range(F.nargs)]
                    for n, c in consts:
                        if n < F.nargs: args[n] = c
                    try: g.entryrun(t, setup=lambda st, a, g=g: g.assume(st, mkcmp('eq', g.null, 0), True), args=args)
                    except AnalysisBroken: g.bad.append((F.name, 0, ['not decided']))
                    memo[key] = g.bad[:1]
                if memo[key]: why = memo[key][0]; break
        rep.ob('null handed on', 'ircd/%s:%s (%s)' % (f.mod, x[2], f.name), why is None, why and 'a null pointer is handed to %s (argument %d), which reads through it at %s:%s' % (tg[0], i + 1, why[0], why[1]), why and why[2])
    rep.need('null handed on', 100)


@prop('E03', 'A lookup that finds nothing is not used',
      'Every function that can answer "not found" with a null pointer (user, server, channel, membership, class, configuration, G-line and other lookups, and whatever returns their answer) is only followed '
      'where its caller has tested the answer: no path reads or writes through an untested answer, or hands it to a function that would. No constant null is handed to a function that reads through it.',
      ['inputs', 'histories'], 'every call of every function that can return null, and every path from it to a use of the answer',
      'names and numerics in a message refer to users, servers and channels that may have just gone; a missing test crashes the whole server, for one message arriving in one race',
      ['ircd/hash.c', 'ircd/numnicks.c', 'ircd/channel.c', 'ircd/s_conf.c', 'ircd/class.c', 'ircd/gline.c'],
      [('lookups', 'ircd/hash.c: hSeekClient, hSeekChannel'), ('numerics', 'ircd/numnicks.c: findNUser, FindNServer'), ('callers', 'ircd/*.c: every call of a function that can return null')],
      TECH, NOTE + 'Taken as given: memory allocation does not return null (it ends the program), a class just added is found, a server link carries the configuration entry it was authorised by.')
def e03(prog, rep, tier):
    prog.modsets()
    may = maynull(prog)
    for n in ('hSeekClient', 'hSeekChannel', 'findNUser', 'FindNServer', 'find_member_link', 'find_match_server', 'find_conf_byname', 'get_channel', 'gline_find'):
        if prog.fn(n).key not in may: raise AnalysisBroken('%s is not seen to return null' % n)
    for k, f in sorted(prog.funcs.items()):
        nn = None
        left = []
        for bi, b in enumerate(f.blocks):
            for x in b:
                if x[0] != 'call' or x[5] != 'p': continue
                tg = [t for t in prog.targets(f, x) if t in may]
                if not tg: continue
                if nn is None: nn = nulltests(prog, f)
                uses = nullflow(prog, f, nn, x, bi, x[1])
                if not uses or given(prog, f, bi, x, tg):
                    rep.ob('answer tested', 'ircd/%s:%s (%s)' % (f.mod, x[2], f.name), True)
                else: left.append((bi, x, tg, uses))
        if not left: continue
        bad = None
        try:
            g = Lookups(prog, rep, relevant=None, K=6)
            g.inline_static = False
            g.handler = f.name.startswith(('m_', 'ms_', 'mo_', 'mr_')) and f.nargs == 4
            g.bad = bad = {}
            g.watch = {id(y) for _, _, _, us in left for _, y in us}
            g.entryrun(f.key)
        except AnalysisBroken: bad = None
        for bi, x, tg, us in left:
            w = [(r[1], r[2]) for _, y in us for r in (bad or {}).get(id(y), ()) if r[0]] if bad is not None else [('', '')]
            rep.ob('answer tested', 'ircd/%s:%s (%s)' % (f.mod, x[2], f.name), not w,
                   'the answer of %s, which may be null, is used at line %s without a test' % (tg[0], us[0][1][2]))
    configtable(prog, rep)
    nullpassed(prog, rep)
    rep.need('answer tested', 280)
