"""D: what servers tell each other."""
from checks.common import *
from checks.a_auth import TECH, NOTE

A0 = T('arg', 0); A1 = T('arg', 1); A2 = T('arg', 2); A3 = T('arg', 3)

# network-wide sends: (who it comes from, the direction left out)
SINKS = {'sendcmdto_serv_butone': (0, 3), 'sendcmdto_flag_serv_butone': (0, 3), 'sendwallto_group_butone': (0, 2), 'sendcmdto_match_butone': (0, 4),
         'sendcmdto_channel_butone': (0, 4), 'modebuf_init': (1, 2), 'joinbuf_init': (1, 2)}


def roles(prog):
    hs = {}
    for m in msgtab(prog):
        for r, h in zip(ROLES, m.h):
            if h: hs.setdefault(h, set()).add(r)
    return hs


def addresstaken(prog):
    c = getattr(prog, '_addrtaken', None)
    if c is None:
        c = set()
        for g in prog.globals.values(): c |= set(re.findall(r"'g', '([^']+)'", repr(g.get('init'))))
        for f in prog.funcs.values():
            for b in f.blocks:
                for x in b: c |= set(re.findall(r"'g', '([^']+)'", repr(x[4] if x[0] == 'call' else x)))
        prog._addrtaken = c
    return c


def argn(t):
    return t.a[0] if isT(t) and t.k == 'arg' else None


def isme(t): return isT(t) and t.k == 'g' and t.a[0] == 'me'


BUFS = (('ModeBuf.mb_source', 'ModeBuf.mb_connect'), ('JoinBuf.jb_source', 'JoinBuf.jb_connect'))


class Away(Guard):
    """one function at a time, callees not entered"""
    def inline(self, g, ctx, args): return False


def fakesafe(q, F, O):
    """O is the connection that F is reached through, as far as the conditions say"""
    return O == F or O == q.connx(F) or q.eq(q.connx(F), O) or q.eq(F, O)


def linkrun(prog, f, cbs, callees, relevant, K=4):
    g = Away(prog, cbs['rep'], relevant=relevant, K=K, KLOOP=2)
    for n in callees: g.call(n, cbs['call'])
    if 'indirect' in cbs: g.indirect_cb = cbs['indirect']
    g.entryrun(f.key)


# ------------------------------------------------------------------ D01
@prop('D01', 'Nothing from a server link is sent back to where it came from',
      'Whenever the server passes something on to all its server links, the link it arrived on is left out: what one server says is never echoed to it, so nothing circulates. '
      'Only messages the server sends in its own name, or first hears from a local client, go to every link.',
      ['inputs', 'histories'], 'every call of every network-wide send, with the arguments each chain of callers can give it',
      'the excluded direction is one argument among many at each of some fifty calls; a wrong one works on every test with a single link and makes a network of three servers circulate or desynchronise',
      ['ircd/send.c', 'ircd/s_user.c', 'ircd/ircd_relay.c', 'ircd/channel.c', 'ircd/gline.c', 'ircd/jupe.c'],
      [('senders', 'ircd/send.c: sendcmdto_serv_butone and its relatives'), ('buffers', 'ircd/channel.c: modebuf_init, joinbuf_init'), ('handlers', 'ircd/m_*.c: ms_*')], TECH,
      NOTE + 'That each sender leaves out the direction it is told to is B05. The dispatcher hands a handler only senders that lie behind the link (D02).')
def d01(prog, rep, tier):
    k = KS(prog); prog.modsets()
    hs = roles(prog)
    LOCALONLY = {h for h, r in hs.items() if not r & {'server'}}
    sinks = {prog.fn(n).key: v for n, v in SINKS.items()}
    done = {}
    keep = [r'(User\.server|con_client)->Client\.cli_status', r'^\$\d->Client\.cli_status', lambda at: at[0] == 'eq' and isinstance(at[2], str) and 'con_client' in at[1] + at[2], lambda at: at[0] == 'eq' and ('DLink.value' in at[1] or 'DLink.value' in str(at[2]))]
    work = True
    while work:
        work = False
        for key, f in sorted(prog.funcs.items()):
            names = {}
            for b in f.blocks:
                for x in b:
                    if x[0] == 'call':
                        for t in prog.targets(f, x):
                            if t in sinks: names[t] = sinks[t]
                            elif t in prog.funcs and prog.funcs[t].name in ('sendcmdto_one', 'sendcmdto_prio_one') and walksdown(f): names[t] = None
            if not names or done.get(key) == names or f.mod == 'send.c' and f.name in SINKS: continue
            done[key] = names
            byname = {prog.funcs[t].name: v for t, v in names.items()}
            want = set()
            def call(e, f=f, byname=byname, want=want):
                v = byname.get(e.callee); q = e.q
                if v is None:
                    to = e.args[3]
                    if 'DLink.value' not in to or 'DLink.next' not in to and 'Server.down' not in to: return
                    ok = isme(e.terms[0]) or q.ne(to, '$0') or any(q.ne(to, q.connx(x)) for x in ('$0', '$1', '$2', e.args[0]))
                    g.require(e, 'source link left out', ok, '%s is passed to every link, the one it came from included' % e.args[0])
                    return
                fi, oi = v
                F, O = e.terms[fi], e.terms[oi]; fs, os_ = e.args[fi], e.args[oi]
                if argn(F) is None and not isme(F):
                    # a value joined from several: all but our own name must be the same one
                    c = origins(f, e.ins[4][fi]) - {('g', 'me')}
                    if len(c) == 1 and next(iter(c))[0] == 'v' and next(iter(c))[1] < f.nargs:
                        F = T('arg', next(iter(c))[1]); fs = S(F)
                if isme(F): ok = True
                elif O == 0:
                    # only something that started here
                    fa = argn(F)
                    ok = f.name in LOCALONLY and fa in (0, 1) or q.mycon(fs) or q.isme('%s->Client.cli_user->User.server' % fs) or q.isme(fs) or q.notserver(q.connx(fs))
                    if not ok and f.name not in hs and fa is not None: want.add((fa, None)); return
                elif f.name in hs:
                    ok = argn(O) in (0, 1) or os_ in (q.connx('$0'), q.connx('$1'))
                    # what the handler acts for lies behind its link
                    ok = ok and (argn(F) in (0, 1) or behind(F, O) or os_ == q.connx(fs))
                elif any(fs.endswith('->' + a) and os_ == fs[:-len(a)] + b for a, b in BUFS): ok = True      # as it was set up
                elif fakesafe(q, fs, os_) or behind(F, O): ok = True
                else:
                    fa, oa = argroot(F), argn(O)
                    ok = False
                    if oa is not None and fa is not None: want.add((fa, oa)); return
                g.require(e, 'source link left out', ok, '%s is passed to every link but %s, which need not be where it came from' % (fs, os_))
            for forget in (r'^(?!.*con_client)(?!\$\d$)', '.'):
                g = Away(prog, rep, relevant=keep, K=3, KLOOP=2); g.forget = re.compile(forget)
                for n in byname: g.call(n, call)
                try: g.entryrun(f.key); break
                except AnalysisBroken:
                    if forget == '.': raise
                    want.clear()
            if f.name not in hs and not any(True for c in callers(prog, key)): continue     # nobody calls it
            for w in sorted(want, key=str):
                if f.name in hs or not any(True for c in callers(prog, key)):
                    rep.ob('source link left out', 'ircd/%s (%s)' % (f.mod, f.name), False, 'nothing says which link to leave out')
                elif w[1] is None:
                    rep.ob('source link left out', 'ircd/%s (%s)' % (f.mod, f.name), False, 'what %s passes on goes to every link, whoever it came from' % f.name)
                elif sinks.get(key) is None: sinks[key] = w; work = True
                elif sinks[key] != w:
                    rep.broken('%s sends in two ways' % f.name)
    for f in prog.funcs.values():
        for b in f.blocks:
            for x in b:
                if x[0] != 'store' or "'gep'" not in repr(x[4]) and not (isinstance(x[4], list) and x[4][0] == 'v' and f.defs.get(x[4][1], [0])[0] == 'gep'): continue
                a = x[4] if x[4][0] == 'gep' else ['gep'] + f.defs[x[4][1]][3:]
                fl = [p[1] for p in a[2] if p[0] == 'f']
                if fl and fl[-1] in sum(BUFS, ()):
                    ok = f.name in ('modebuf_init', 'joinbuf_init') and x[3] == ['v', 1 if 'source' in fl[-1] else 2]
                    rep.ob('buffers remember their source', 'ircd/%s:%s (%s)' % (f.mod, x[2], f.name), ok, '%s is set to something else' % fl[-1])
    rep.need('buffers remember their source', 4)
    rep.need('source link left out', 55)


def walksdown(f):
    return "'Server.down'" in repr(f.blocks)


def callers(prog, key):
    for g in prog.funcs.values():
        for b in g.blocks:
            for x in b:
                if x[0] == 'call' and key in prog.targets(g, x): yield g


def origins(f, o, d=0):
    if isinstance(o, list) and o and o[0] == 'v' and o[1] >= f.nargs and d < 6:
        x = f.defs.get(o[1])
        if x is not None and x[0] == 'phi': return set().union(*[origins(f, v, d + 1) for _, v in x[3]])
        if x is not None and x[0] == 'select': return origins(f, x[4], d + 1) | origins(f, x[5], d + 1)
    return {tuple(o[:2])} if isinstance(o, list) and o and o[0] in ('v', 'g') else {('c', str(o))}


def argroot(t):
    """the argument that a value belongs to: itself or the server of that user"""
    if argn(t) is not None: return argn(t)
    if S(t).endswith('->Client.cli_user->User.server'):
        m = re.match(r'\$(\d+)->', S(t))
        if m: return int(m.group(1))
    return None


def behind(F, O):
    """F was created as reached through O"""
    return isT(F) and S(F).startswith('make_client(%s,' % S(O))


# ------------------------------------------------------------------ D02
@prop('D02', 'A message is believed only from the direction of its source',
      'A line from a server link that names a user or server as its source is acted on only if that source is reached through that very link; a line whose source is on another side of the network is dropped. '
      'A line from a local user or an unfinished connection is always taken as said by that connection itself.',
      ['inputs', 'histories'], 'every line from every link, with every form of prefix',
      'late messages crossing a split or a forged prefix arrive from the wrong side only in multi-server histories',
      ['ircd/parse.c'], [('dispatch', 'ircd/parse.c: parse_server, parse_client')], TECH, NOTE)
def d02(prog, rep, tier):
    hs = {h for h in roles(prog)}
    n = 0
    for f in sorted(prog.funcs.values(), key=lambda f: f.key):
        if f.mod != 'parse.c': continue
        ind = [x for b in f.blocks for x in b if x[0] == 'call' and not (isinstance(x[3], list) and x[3][0] == 'g') and len(x[4]) == 4
               and {prog.funcs[t].name for t in prog.targets(f, x) if t in prog.funcs} & hs]
        num = any(x[0] == 'call' and x[3] == ['g', 'do_numeric'] for b in f.blocks for x in b)
        if not ind and not num: continue
        n += 1
        g = Away(prog, rep, relevant=[lambda at: at[0] == 'eq' and isinstance(at[2], str) and ('con_client' in at[1] + at[2] or at[1] == '$0')], K=3, KLOOP=2)
        def judge(e, link, src):
            q = e.q
            F, O = e.args[src], e.args[link]
            g.require(e, 'source behind the link', O == '$0' and (F == O or q.eq(q.connx(F), O)), 'a message of %s is acted on although it may have come from another side than %s' % (F, O))
        ids = {x[1] for x in ind}
        g.call('do_numeric', lambda e: judge(e, 2, 3))
        g.indirect_cb = lambda e: judge(e, 0, 1) if e.ins[1] in ids and e.f.key == f.key else None
        # helpers keep the relation: look into those of the module that get the source
        g.entryrun(f.key)
    if n < 2: rep.broken('dispatch not found')
    rep.need('source behind the link', 3)


# ------------------------------------------------------------------ D03
AMP = ord('&')


def chanterm(t):
    """the channel a value is about: a channel's name"""
    while isT(t) and t.k == 'ix': t = t.a[0]
    return S(t.a[0]) if isT(t) and t.k == 'f' and t.a[1] == 'Channel.chname' else None


def charof(x):
    """the string that a first character was taken from"""
    return x[1:] if x.startswith('*') else x[:-3] if x.endswith('[0]') else None


def firstchar(q, X, C):
    """is the first character at X known not to be that of a local channel?"""
    for a in q.seen:
        if a[0] == 'eq' and charof(a[1]) == X and not isinstance(a[2], str):
            if a[2] == AMP and not a[3]: return True
            if a[2] != AMP and a[3]: return True
    return False


def notlocal(q, C, t=None):
    """channel C is known to be a network channel"""
    if firstchar(q, '%s->Channel.chname' % C, C): return True
    for fn, n in (('hSeekChannel', 0), ('get_channel', 1)):
        if isT(t) and t.k == 'call' and t.a[1] == fn:
            nm = S(t.a[2 + n])
            if firstchar(q, nm, C): return True
        m = re.match(r'^%s\((.*)\)$' % fn, C)
        if m:
            xs = m.group(1).split(',') if n else [m.group(1)]
            if n < len(xs) and firstchar(q, xs[n], C): return True
    return False


class Chan(Guard):
    """remembers what was found out about names and channels, although characters may be written meanwhile"""
    def on_call(self, st, f, ins, callee, args, ctx):
        self.keepnames(st)
        return Guard.on_call(self, st, f, ins, callee, args, ctx)

    def __init__(self, *a, **kw):
        Guard.__init__(self, *a, **kw)
        self.later = []; self.found = {}
        for n in ('hSeekChannel', 'get_channel'): self.afters[n] = self.looked

    def looked(self, e, ret):
        self.found.setdefault((e.f.key, e.ins[1]), []).append(isglobal(e, S(ret), ret))
        # keeps what came from different lookups apart
        e.st.tags = frozenset({t for t in e.st.tags if t[0] != 'look'} | {('look', S(ret))})

    def judge(self, e, rule, i, C, msg):
        """argument i, the channel C, is a network channel; if it was joined from several lookups, each was made for such a name"""
        if isglobal(e, C, e.terms[i]):
            self.require(e, rule, True, '')
            return
        c = origins(e.f, e.ins[4][i]) - {('c', '0')}
        if c and all(x[0] == 'v' and x[1] in e.f.defs and e.f.defs[x[1]][0] == 'call' for x in c):
            self.later.append((self.where(e), rule, msg, [(e.f.key, x[1]) for x in c], self.entry.name))
        else: self.require(e, rule, False, msg)

    def settle(self):
        for w, rule, msg, cs, en in self.later:
            self.rep.ob(rule, w, all(self.found.get(c) and all(self.found[c]) for c in cs), '%s [entry %s]' % (msg, en))

    def keepnames(self, st):
        new = {('nl', charof(a[1])) for a in st.seen if a[0] == 'eq' and a[2] in (AMP, ord('#')) and (a[2] == AMP) != a[3] and charof(a[1])}
        if not new <= st.tags: st.tags = frozenset(st.tags | new)


def isglobal(e, C, t=None):
    """C (a channel) or the name it was found by does not begin with &"""
    if notlocal(e.q, C, t): return True
    names = {C + '->Channel.chname', C}
    for fn, n in (('hSeekChannel', 0), ('get_channel', 1)):
        m = re.match(r'^%s\((.*)\)$' % fn, C)
        if m:
            xs = m.group(1).split(',') if n else [m.group(1)]
            if n < len(xs): names.add(xs[n])
    return any(('nl', n) in e.st.tags for n in names)


@prop('D03', 'Local channels stay on their server',
      'Nothing about a channel whose name begins with & is passed to the network: not its creation, members, modes, topic, kicks or destruction, nor its state in a net burst. '
      'And what another server says about such a channel is not applied to the one of that name here: no server message joins, removes, kicks or invites anyone, changes modes or topic, or destroys a channel whose name begins with &.',
      ['inputs', 'histories'], 'every network-wide send about a channel and every change of a channel on behalf of a server link',
      'a dozen commands each have their own test for a local channel; a missing one shows only with two servers that both have a channel of that name',
      ['ircd/channel.c', 'ircd/destruct_event.c', 'ircd/m_burst.c', 'ircd/m_destruct.c', 'ircd/m_topic.c', 'ircd/m_kick.c', 'ircd/m_clearmode.c'],
      [('buffers', 'ircd/channel.c: modebuf_init, joinbuf_join'), ('burst', 'ircd/channel.c: send_channel_modes'), ('direct sends', 'ircd/m_*.c'), ('expiry', 'ircd/destruct_event.c: exec_expired_destruct_events')],
      TECH, NOTE + 'Messages to channel members reach other servers only through members there, which a local channel does not have; raw messages to a channel are not judged here. FindChannel(name) and get_channel(name) answer the channel of that name.')
def d03(prog, rep, tier):
    from checks.e_robust import Types
    k = KS(prog); prog.modsets()
    ty = Types(prog)
    WIDE = {'sendcmdto_serv_butone': 5, 'sendcmdto_flag_serv_butone': 7}
    keep = [r'^\$1->Client\.cli_status', r'\$1->Client\.cli_connect->Connection\.con_client', lambda at: at[0] == 'eq' and at[2] in (AMP, ord('#')) and charof(at[1]) is not None, lambda at: 'mb_dest&%d)' % k.MODEBUF_DEST_SERVER in at[1],
            ]
    sites = {}
    for f in prog.funcs.values():
        for b in f.blocks:
            for x in b:
                if x[0] != 'call' or not (isinstance(x[3], list) and x[3][0] == 'g'): continue
                if x[3][1] in WIDE: sites.setdefault(f.key, [])
                elif f.name == 'send_channel_modes': sites.setdefault(f.key, [])
    for key in sorted(sites):
        f = prog.funcs[key]
        if f.mod == 'send.c': continue
        g = Chan(prog, rep, relevant=keep, K=3, KLOOP=2)
        g.noinline = {x.name for x in prog.funcs.values()}
        def snd(e, f=f, g=g):
            n = WIDE.get(e.callee, 5)
            for i in range(n, len(e.terms)):
                t = e.terms[i]; o = e.ins[4][i]
                C = chanterm(t)
                if C is None and isT(t) and isinstance(o, list) and o[0] in ('v', 'gep'):
                    p = ty.pointee(e.f, o)
                    if p and all('struct Channel' == str(z).replace('*', '').strip() for z in p): C = S(t)
                if C is None and i == n and strarg(e.terms[2]) in ('DE', 'C', 'B', 'M', 'T', 'K', 'L', 'J', 'OM', 'CM') and S(t).startswith('$3['): C = S(t)
                if C is None: continue
                ok = isglobal(e, C, t)
                if C.endswith('->ModeBuf.mb_channel'):
                    ok = isset(e.q, C[:-len('ModeBuf.mb_channel')] + 'ModeBuf.mb_dest', k.MODEBUF_DEST_SERVER)
                msg = '%s is sent to the network although it may be a local channel' % C
                if ok: g.require(e, 'nothing about a local channel is sent', True, '')
                else: g.judge(e, 'nothing about a local channel is sent', i, C, msg)
        for n in list(WIDE) + (['sendcmdto_one'] if f.name == 'send_channel_modes' else []): g.call(n, snd)
        g.entryrun(key)
        g.settle()
    # the buffers
    for f in prog.funcs.values():
        for b in f.blocks:
            for x in b:
                if x[0] == 'store' and repr(x[4]).find("'ModeBuf.mb_dest'") < 0 and repr(x[4]).find("'JoinBuf.jb_channels'") < 0:
                    d = f.defs.get(x[4][1]) if isinstance(x[4], list) and x[4][0] == 'v' else None
                    if d is None or not re.search(r"ModeBuf\.mb_dest'|JoinBuf\.jb_channels'", repr(d)): continue
                elif x[0] != 'store': continue
                fld_ = 'mb_dest' if 'mb_dest' in repr(x[4]) + repr(f.defs.get(x[4][1]) if x[4][0] == 'v' else '') else 'jb_channels'
                w = 'ircd/%s:%s (%s)' % (f.mod, x[2], f.name)
                if fld_ == 'mb_dest':
                    if f.name == 'modebuf_init': continue
                    # only ever narrowed
                    d = f.defs.get(x[3][1]) if isinstance(x[3], list) and x[3][0] == 'v' else None
                    ok = bool(d) and d[0] == 'bin' and isinstance(d[5], int) and (d[3] == 'and' or d[3] == 'or' and not d[5] & k.MODEBUF_DEST_SERVER)
                    rep.ob('buffer does not gain the network', w, ok, 'a mode buffer may be turned towards the network after it was set up')
                elif x[3] != 0 and f.name != 'joinbuf_join':
                    rep.ob('buffer does not gain the network', w, False, 'channels are added to a join buffer elsewhere')
    g = Chan(prog, rep, relevant=keep)
    def dest(e):
        ok = isglobal(e, '$3') or surely_clear(g, e.st, e.terms[1], k.MODEBUF_DEST_SERVER)
        g.require(e, 'mode buffer of a local channel', ok, 'the modes of a local channel may be sent to the network')
    g.stores['ModeBuf.mb_dest'] = dest
    g.entryrun('modebuf_init')
    g = Chan(prog, rep, relevant=keep, K=4)
    g.noinline = {x.name for x in prog.funcs.values()}
    def slot(e):
        g.require(e, 'join buffer of a local channel', isglobal(e, S(e.terms[1])), 'joining or leaving a local channel may be sent to the network')
    g.stores['JoinBuf.jb_channels'] = slot
    g.entryrun('joinbuf_join')
    # what servers say
    MUT = {'modebuf_init': 3, 'destruct_channel': 0, 'add_user_to_channel': 0, 'joinbuf_join': 1, 'remove_user_from_channel': 1, 'make_zombie': 4, 'add_invite': 1, 'do_settopic': 2, 'do_clearmode': 2, 'mode_parse': 3}
    for h, rs in sorted(roles(prog).items()):
        if 'server' not in rs or not h.startswith('ms_'): continue
        f = prog.fn(h)
        if not any(x[0] == 'call' and isinstance(x[3], list) and x[3][0] == 'g' and x[3][1] in MUT for o in prog.funcs.values() if o.mod == f.mod for b in o.blocks for x in b): continue
        g = Chan(prog, rep, relevant=keep, K=3, KLOOP=2)
        g.forget = None
        def mut(e, h=h, g=g):
            i = MUT.get(e.callee)
            if i is None or i >= len(e.terms): return
            t = e.terms[i]
            if t == 0: return                       # leaving all channels
            if e.q.isuser('$1') and e.q.mycon('$1'): return         # not from a link
            if h == 'ms_join' and e.f.name == 'last0': return      # the source's own channels
            g.judge(e, 'local channels are not for servers', i, S(t), '%s is applied to %s for a server although it may be a local channel' % (e.callee, S(t)))
        for n in MUT: g.call(n, mut)
        g.entryrun(h)
        g.settle()
    rep.need('nothing about a local channel is sent', 12)
    rep.need('local channels are not for servers', 14)


# ------------------------------------------------------------------ D04
COPIES = {'strcpy', 'strncpy', 'ircd_strncpy', 'memcpy', 'ircd_snprintf', '__strcpy_chk', 'stpcpy', 'strlcpy'}


class Tell(Guard):
    """what has changed on this path, and what has been sent to the servers"""
    def __init__(self, prog, rep, changes, tokens, excuse, **kw):
        Guard.__init__(self, prog, rep, **kw)
        self.tokens = tokens; self.excuse = excuse
        self.keys = {c[1] for c in changes if c[0] == 'write'}
        for c in changes:
            if c[0] == 'call':
                self.noinline.add(c[1]); self.afters[c[1]] = lambda e, ret: self.did(e, e.callee, ret)
            if c[0] == 'flag': self.flag = getattr(KS(prog), c[1]); self.keys.add('Flags.bits')
        self.always = any(c[0] == 'always' for c in changes)
        self.changed = 0
        for n in ('sendcmdto_serv_butone', 'sendcmdto_flag_serv_butone'): self.call(n, self.sent)
        self.retcb = self.back

    def tag(self, e, t): e.st.tags = frozenset(e.st.tags | {t})

    def did(self, e, what, t):
        if self.skip(e, what, t): return
        if self.excuse and self.excuse(self, e, t): self.changed += 1; return
        self.changed += 1
        self.tag(e, ('did', what, t, self.where(e)))

    def skip(self, e, what, t): return False

    def sent(self, e):
        tok = strarg(e.terms[2])
        if e.callee == 'sendcmdto_flag_serv_butone':
            k = self.k
            tok += '+' if (e.terms[4], e.terms[5]) == (k.FLAG_IPV6, k.FLAG_LAST_FLAG) else '-' if (e.terms[4], e.terms[5]) == (k.FLAG_LAST_FLAG, k.FLAG_IPV6) else '?'
        self.tag(e, ('sent', tok))

    def on_store(self, st, f, ins, addr, val, ctx):
        Guard.on_store(self, st, f, ins, addr, val, ctx)
        key = addrkey(addr) if isT(addr) else None
        if key not in self.keys: return
        if key == 'Flags.bits':
            m = 1 << self.flag % 64
            if not (S(addr).endswith('[%d]' % (self.flag // 64)) and isT(val) and mkbin('and', val, m) == m): return
        self.did(self.ev(st, f, ins, [addr, val], ctx, key), key, (addr, val))

    def on_call(self, st, f, ins, callee, args, ctx):
        for a in list(st.seen):
            if a[0] == 'eq' and a[2] == AMP and a[3] and charof(a[1]): st.tags = frozenset(st.tags | {('lc',)})
        if callee in COPIES and args and isT(args[0]):
            key = addrkey(args[0])
            if key in self.keys: self.did(self.ev(st, f, ins, args, ctx, callee), key, (args[0], None))
        return Guard.on_call(self, st, f, ins, callee, args, ctx)

    def on_mem(self, st, f, ins, what, args, ctx):
        key = addrkey(args[0]) if isT(args[0]) else None
        if key in self.keys: self.did(self.ev(st, f, ins, args, ctx, what), key, (args[0], None))
        return Guard.on_mem(self, st, f, ins, what, args, ctx)

    def back(self, e):
        tags = e.st.tags
        dids = [t for t in tags if t[0] == 'did']
        if self.always: dids.append(('did', self.entry.name, None, self.where(e)))
        for d in dids:
            miss = [t for t in self.tokens if ('sent', t) not in tags]
            ok = not miss or bool(self.excuse and self.excuse(self, e, d[2]))
            self.rep.ob('told to the servers', d[3], ok, '%s changes %s without telling the other servers (%s) [entry %s]' % (self.entry.name, d[1], ' '.join(miss), self.entry.name),
                        None if ok else ['entry ' + self.entry.name] + trace_lines(e.st, 14))


def anylocal(g, e, t): return ('lc',) in e.st.tags or any(a[0] == 'eq' and a[2] == AMP and a[3] and charof(a[1]) for a in e.q.seen)


def ischanging(t, bit):
    """does storing this value change the bit"""
    if not (isT(t) and t.k == 'b'): return True
    c = [x for x in t.a[1:] if isinstance(x, int)]
    return len(c) != 1 or t.a[0] == 'or' and bool(c[0] & bit) or t.a[0] == 'and' and not c[0] & bit or t.a[0] not in ('or', 'and')


bit_ = bit


def unwas(bit, on):
    """the bit had that value before"""
    def f(g, e, t):
        v = t[1]
        if not (isT(v) and v.k == 'b'): return False
        old = [x for x in v.a[1:] if isT(x)][0]
        if bit_(e.q, S(old), bit) == (bit if on else 0): return True
        return (surely_set if on else surely_clear)(g, e.st, old, bit)
    return f


def changes(k):
    """(entry, what changes, the messages that must tell it, unless, conditions to record)"""
    amp = lambda at: at[0] == 'eq' and at[2] in (AMP, ord('#')) and charof(at[1]) is not None
    gl = lambda g, e, t: surely_set(g, e.st, T('ld', T('f', t, 'Gline.gl_flags'), E), k.GLINE_LOCAL) or any(a[0] == 'eq' and a[2] == 0 and not a[3] and a[1].endswith('gl_flags&%d)' % k.GLINE_LOCAL) for a in e.q.seen)
    ljupe = lambda g, e, t: any(a[0] == 'eq' and a[2] == 0 and not a[3] and re.search(r'(ju_flags|^\(\$4)&%d\)$' % k.JUPE_LOCAL, a[1]) for a in e.q.seen)
    return [
        ('ms_account', [('write', 'User.account'), ('write', 'User.acc_id'), ('write', 'User.acc_flags')], ('AC',), None, ['(?!)']),
        ('m_away', [('write', 'User.away')], ('A',), lambda g, e, t: any(a[0] == 'eq' and 'User.away' in a[1] and a[2] == 0 and not a[3] for a in e.q.seen), ['User.away']),
        ('ms_away', [('write', 'User.away')], ('A',), None, ['(?!)']),
        ('m_topic', [('write', 'Channel.topic')], ('T',), anylocal, [amp]),
        ('ms_topic', [('write', 'Channel.topic')], ('T',), anylocal, [amp]),
        ('m_kick', [('call', 'make_zombie')], ('K',), anylocal, [amp]),
        ('ms_kick', [('call', 'make_zombie')], ('K',), None, ['(?!)']),
        ('ms_burst', [('call', 'make_zombie')], ('K',), None, ['(?!)']),
        ('ms_kill', [('flag', 'FLAG_KILLED')], ('D',), None, ['(?!)']),
        ('mo_kill', [('flag', 'FLAG_KILLED')], ('D',), None, ['(?!)']),
        ('ms_nick', [('flag', 'FLAG_KILLED')], ('D',), None, ['(?!)']),
        ('register_user', [('write', 'Client.cli_status')], ('N+', 'N-'), None, ['(?!)']),
        ('set_nick_name', [('write', 'Client.cli_name')], ('N',), lambda g, e, t: S(t[0]) != '&$1->Client.cli_name[0]' or e.q.notuser('$1') or any(a[0] == 'eq' and a[2] == 0 and a[3] and charof(a[1]) == '$1->Client.cli_name' for a in e.q.seen), [r'^\$1->Client\.cli_(status|name)']),
        ('gline_add', [('call', 'make_gline')], ('GL',), gl, [r'gl_flags&']),
        ('gline_modify', [('write', 'Gline.gl_expire'), ('write', 'Gline.gl_lifetime'), ('write', 'Gline.gl_reason'), ('write', 'Gline.gl_lastmod')], ('GL',), lambda g, e, t: e.q.eq('$3', k.GLINE_LOCAL_ACTIVATE) or e.q.eq('$3', k.GLINE_LOCAL_DEACTIVATE), [r'^\$3']),
        ('jupe_add', [('call', 'make_jupe')], ('JU',), ljupe, ['ju_flags']),
        ('jupe_activate', [('write', 'Jupe.ju_flags')], ('JU',), lambda g, e, t: ljupe(g, e, t) or unwas(k.JUPE_ACTIVE, True)(g, e, t), ['ju_flags', r'^\(\$4&']),
        ('jupe_deactivate', [('write', 'Jupe.ju_flags')], ('JU',), lambda g, e, t: ljupe(g, e, t) or unwas(k.JUPE_ACTIVE, False)(g, e, t), ['ju_flags', r'^\(\$4&']),
        ('ms_config', [('call', 'config_set')], ('CF',), lambda g, e, t: e.q.eq(S(t), k.CONFIG_REJECTED), ['config_set|CONFIG|j#']),
        ('ms_sline', [('call', 'sline_modify'), ('call', 'sline_add')], ('SL',), lambda g, e, t: e.q.eq(S(t), 0), ['sline_add']),
        ('ms_clearmode', [('call', 'modebuf_flush')], ('CM',), anylocal, [amp]),
        ('mo_clearmode', [('call', 'modebuf_flush')], ('CM',), anylocal, [amp]),
        ('ms_destruct', [('call', 'destruct_channel')], ('DE',), None, ['(?!)']),
        ('exec_expired_destruct_events', [('call', 'destruct_channel')], ('DE',), anylocal, [amp]),
        ('ms_end_of_burst', [('always',)], ('EB',), None, ['(?!)']),
        ('ms_end_of_burst_ack', [('always',)], ('EA',), lambda g, e, t: e.q.notserver('$1'), [r'^\$1->Client\.cli_status']),
    ]


@prop('D04', 'What changes here is told to the other servers',
      'Every change of shared state made by a command is passed to the server links: accounts, away, topics, kicks, kills, nick changes, new users, G-lines, jupes, S-lines, network configuration, cleared modes, destroyed channels, ends of bursts, and every mode and join or part that was collected is sent. '
      'Only what concerns local channels, local G-lines and jupes, or is rejected or changes nothing, stays here.',
      ['inputs', 'histories'], 'every path from a change of shared state to the end of the command',
      'a path that forgets the broadcast desynchronises the network silently: this server works, and the difference shows on another one, perhaps much later',
      ['ircd/m_account.c', 'ircd/m_topic.c', 'ircd/m_kick.c', 'ircd/m_kill.c', 'ircd/s_user.c', 'ircd/gline.c', 'ircd/jupe.c', 'ircd/m_config.c', 'ircd/m_sline.c', 'ircd/m_clearmode.c', 'ircd/channel.c'],
      [('user state', 'ircd/s_user.c: set_nick_name, register_user'), ('channel state', 'ircd/m_topic.c: do_settopic'), ('bans', 'ircd/gline.c: gline_propagate; ircd/jupe.c: propagate_jupe'), ('buffers', 'ircd/channel.c: modebuf_flush, joinbuf_flush')],
      TECH, NOTE + 'That the message says the right thing is not judged, only that the one for this kind of change is sent to all links but one; D01 judges which one. Setting another away message while away is not passed on, by design.')
def d04(prog, rep, tier):
    k = KS(prog); prog.modsets()
    for en, ch, toks, exc, keep in changes(k):
        g = Tell(prog, rep, ch, toks, exc, relevant=keep, K=3, KLOOP=2)
        if en == 'register_user': g.skip = lambda e, what, t, g=g: t[1] != k.STAT_USER
        if en.startswith('jupe_') and en != 'jupe_add': g.skip = lambda e, what, t: not ischanging(t[1], k.JUPE_ACTIVE)
        if en == 'gline_modify': pass
        g.entryrun(en)
        if not g.changed and not g.always: rep.broken('%s changes nothing of %s' % (en, ch))
    rep.need('told to the servers', 28)
    # what is collected is sent
    PAIRS = {'modebuf_init': 'modebuf_flush', 'joinbuf_init': 'joinbuf_flush'}
    for key, f in sorted(prog.funcs.items()):
        if not any(x[0] == 'call' and isinstance(x[3], list) and x[3][0] == 'g' and x[3][1] in PAIRS for b in f.blocks for x in b): continue
        g = Away(prog, rep, relevant=['(?!)'], K=2, KLOOP=2)
        def opened(e): e.st.tags = frozenset(e.st.tags | {('open', e.args[0], PAIRS[e.callee], g.where(e))})
        def closed(e): e.st.tags = frozenset(t for t in e.st.tags if t[1:3] != (e.args[0], e.callee))
        for a, b in PAIRS.items(): g.call(a, opened); g.call(b, closed)
        g.seenopen = set()
        def back(e, g=g, f=f):
            for t in e.st.tags: g.seenopen.add(t[3]); rep.ob('what is collected is sent', t[3], False, 'the changes collected here are not sent when %s returns at line %s' % (f.name, e.ins[2]), trace_lines(e.st, 14))
        g.retcb = back
        g.entryrun(key)
        for b in f.blocks:
            for x in b:
                if x[0] == 'call' and isinstance(x[3], list) and x[3][0] == 'g' and x[3][1] in PAIRS: rep.ob('what is collected is sent', 'ircd/%s:%s (%s)' % (f.mod, x[2], f.name), True)
    rep.need('what is collected is sent', 20)
