"""what a server that links is told"""
from checks.common import *
from checks.a_auth import TECH, NOTE


class Sent(Guard):
    """walks over lists: each element gets what it is owed before the walk goes on.
    kinds: {name: (field read to go on, said(call tag, X) or None, excuse(q, X, guard))}"""
    def arm(self, f, calls, kinds, starts, pass_all=True):
        self.kinds = kinds
        self.starts = starts
        self.ok = {}; self.rets = []; self.trace = {}
        self.heads = {}                         # (function, block of the load) -> head of the innermost loop around it
        self.noinline |= set(calls)
        def said(e): e.st.tags = frozenset(e.st.tags | {('said', e.callee, tuple(e.args))})
        self.call(list(calls), said)
        self.fields = {v[0] for v in kinds.values()}
        self.retcb = lambda e: (self.judge(e.st, None), self.rets.append((frozenset(t[1] for t in e.st.tags if t[0] == 'w'), frozenset(t[1] for t in e.st.tags if t[0] == 'end'), e.st)))

    lean = False        # what was sent before a loop is of no interest in it

    def head_of(self, f, ins):
        k = (f.key, id(ins))
        if k not in self.heads:
            self.p.cfg(f)
            b = next(i for i, bl in enumerate(f.blocks) if any(x is ins for x in bl))
            hs = [h for h, body in f.loops.items() if b in body]
            self.heads[k] = (f.key, min(hs, key=lambda h: len(f.loops[h]))) if hs else None
        return self.heads[k]

    def on_load(self, st, f, ins, addr, ctx):
        if isT(addr):
            fld = addrkey(addr)
            if fld in self.fields:
                h = self.head_of(f, ins)
                if h is not None:
                    if fld.startswith('g:'): X = S(addr).lstrip('&')
                    else:
                        X = re.sub(r'(->|\.)%s$' % re.escape(fld), '', S(addr).lstrip('&'))
                    if not any(t[0] == 'first' and t[1] == h for t in st.tags):
                        st.tags = frozenset(st.tags | {('first', h)})
                        rx = self.starts.get(fld)
                        if rx is not None: self.ok.setdefault(('start', h), set()).add(re.search(rx, X) is not None)
                    st.tags = frozenset(st.tags | {('open', h, X, fld)})
        return Guard.on_load(self, st, f, ins, addr, ctx)

    def judge(self, st, h):
        q = Q(self, st)
        op = [t for t in st.tags if t[0] == 'open' and (h is None or t[1] == h)]
        for _, hh, X, fld in op:
            for n, (F, said, exc) in self.kinds.items():
                if F != fld: continue
                s = any(t[0] == 'said' and said(t[1], t[2], X) for t in st.tags)
                good = s or exc(q, X, self)
                d = self.ok.setdefault((n, hh), [True, 0, 0, None])
                d[1] += 1; d[2] += s
                if not good: d[0] = False; d[3] = d[3] or trace_lines(st, 14)
        if op:
            st.tags = frozenset(t for t in st.tags if t[0] not in ('open', 'said') or h is not None and t[0] == 'open' and t[1] != h)
            rx = re.compile(r'(?<![\w>.])(%s)(?!\w)' % '|'.join(re.escape(t[2]) for t in op))
            st.seen = frozenset(a for a in st.seen if not rx.search(a[1]) and not rx.search(str(a[2])))

    def at_head(self, st, f, b, ctx):
        h = (f.key, b)
        self.judge(st, h)
        st.tags = frozenset({t for t in st.tags if not (self.lean and t[0] == 'said')} | {('w', h)})
        Guard.at_head(self, st, f, b, ctx)

    def early(self, h):
        """exits of the loop that do not depend on the end of the list: (line)"""
        f = self.p.funcs[h[0]]
        body = f.loops[h[1]]
        out = []
        for b in body:
            t = f.blocks[b][-1]
            if t[0] == 'ret': out.append(t[2])
            if t[0] != 'br' or len(t) < 6: continue
            if (t[4] in body) == (t[5] in body): continue
            c = f.defs.get(t[3][1]) if isinstance(t[3], list) and t[3][0] == 'v' else None
            while c is not None and c[0] == 'bin' and c[3] == 'xor': c = f.defs.get(c[4][1]) if isinstance(c[4], list) and c[4][0] == 'v' else None
            if c is None or c[0] != 'icmp' or not (c[4] in (0, ['null'], None) or c[5] in (0, ['null'], None) or 'null' in (repr(c[4]), repr(c[5]))): out.append(t[2])
        return out

    def verdict(self, rep, rule, what, start=True, nobreak=True, waive=None):
        for n in what:
            c = {h: d for (m, h), d in self.ok.items() if m == n and h is not None}
            good = [h for h, d in c.items() if d[0] and d[2]]
            w = 'ircd/%s (%s): %s' % (self.entry.mod, self.entry.name, n)
            bad = next((d for h, d in c.items() if not d[0] and d[2]), None)
            rep.ob(rule, w, bool(good), 'the walk in %s passes over %s that should be sent' % (self.entry.name, n), bad[3] if bad and not good else None)
            for h in good:
                if start and ('start', h) in self.ok: rep.ob(rule, w, self.ok[('start', h)] <= {True}, 'the walk over %s in %s does not begin with the first' % (n, self.entry.name))
                if nobreak:
                    e = self.early(h)
                    rep.ob(rule, w, not e, 'the walk over %s in %s can end early at line %s' % (n, self.entry.name, e and e[0]))
            if good:
                miss = [st for ws, _, st in self.rets if not any(h in ws for h in good) and not (waive and waive(Q(self, st)))]
                rep.ob(rule, w, not miss, '%s can end without the walk over %s' % (self.entry.name, n), trace_lines(miss[0], 14) if miss else None)


def of(X, a, fld=''):
    a = a.lstrip('&'); X = X.lstrip('&')
    return a.startswith(X + '->' + fld) or a.startswith(X + '.' + fld) or a == X and not fld


@prop('D06', 'A server that links is told everything',
      'A server that links receives every server, every user not behind it, every global G-line, jupe, S-line and configuration setting, and every network channel with all its members, bans and modes, and only after all that the end of the burst; '
      'every other server is told of the server that linked.',
      ['inputs', 'histories'], 'every state of the network at the moment of the link',
      'an element left out desynchronises the two sides from the start, and only for those who met the odd condition', ['ircd/s_serv.c', 'ircd/gline.c', 'ircd/jupe.c', 'ircd/sline.c', 'ircd/ircd_netconf.c', 'ircd/channel.c', 'ircd/m_server.c'],
      [('burst', 'ircd/s_serv.c: server_estab'), ('bans', 'ircd/gline.c: gline_burst; ircd/jupe.c: jupe_burst; ircd/sline.c: sline_burst; ircd/ircd_netconf.c: config_burst'), ('channels', 'ircd/channel.c: send_channel_modes')],
      TECH + '; walks over lists are judged per iteration: going on from an element without having sent it needs a reason found out on that path', NOTE + ' What the lines say about an element is not judged.')
def d06(prog, rep, tier):
    k = KS(prog); prog.modsets()
    R = 'every one is sent'
    to1 = lambda cmd, argno='$0': (lambda callee, a, X: callee == 'sendcmdto_one' and len(a) > 3 and a[1].strip('"') == cmd and a[3] == argno and any(of(X, x) for x in a[4:]))
    same = lambda q, x, y: any(p == 'eq' and t is True and {a, b} == {x, y} for p, a, b, t in q.seen)
    stat = lambda q, X, c: any(p == 'eq' and re.match(re.escape(X) + r'(->|\.)Client\.cli_status$', str(a)) and (t is False and b == c or t is True and b != c) for p, a, b, t in q.seen)
    frm = lambda q, X: same(q, X + ('.' if X == 'me' else '->') + 'Client.cli_connect->Connection.con_client', '$0')
    hidden = lambda q: any(p == 'eq' and b == 0 and t is True and str(a).startswith('match(') for p, a, b, t in q.seen)
    feat0 = lambda q, n: any(p == 'eq' and b == 0 and t is True and str(a) == 'feature_bool(%d)' % getattr(k, n) for p, a, b, t in q.seen)
    fl0 = lambda q, X, F, b: any(p == 'eq' and t and c == 0 and a == '(%s->%s&%d)' % (X, F, b) for p, a, c, t in q.seen)
    fl1 = lambda q, X, F, b: any(p == 'eq' and not t and c == 0 and a == '(%s->%s&%d)' % (X, F, b) for p, a, c, t in q.seen)
    old = lambda q, *xs: any(p in ('slt', 'sle', 'sgt', 'sge', 'ult', 'ule', 'ugt', 'uge') and any(x in str(a) + str(b) for x in xs) for p, a, b, t in q.seen)
    # server_estab
    g = Sent(prog, rep, relevant=[r'Client\.cli_status (%d|%d)$' % (k.STAT_SERVER, k.STAT_USER), r'con_client', r'^match\(', r'User\.away 0', r'^feature_bool\(%d\) 0' % k.FEAT_AWAY_BURST, r'LocalClientArray', r'^\$0 Local'], K=4, KLOOP=2)
    g.arm('server_estab', {'sendcmdto_one', 'send_channel_modes'}, {
        'servers': ('Client.cli_prev', to1('SERVER'), lambda q, X, g: stat(q, X, k.STAT_SERVER) or frm(q, X) or hidden(q)),
        'users': ('Client.cli_prev', to1('NICK'), lambda q, X, g: stat(q, X, k.STAT_USER) or frm(q, X)),
        'away messages': ('Client.cli_prev', to1('AWAY'), lambda q, X, g: stat(q, X, k.STAT_USER) or frm(q, X) or q.z(X + '->Client.cli_user->User.away') or q.z(X + '.Client.cli_user->User.away') or feat0(q, 'FEAT_AWAY_BURST')),
        'channels': ('Channel.next', lambda callee, a, X: callee == 'send_channel_modes' and a[0] == '$0' and a[1] == X, lambda q, X, g: False),
        'other links': ('g:LocalClientArray', lambda callee, a, X: callee == 'sendcmdto_one' and a[1].strip('"') == 'SERVER' and a[3] == X, lambda q, X, g: q.z(X) or stat(q, X, k.STAT_SERVER) or same(q, X, '$0') or q.isme(X) or hidden(q)),
    }, {'Client.cli_prev': r'^&?me$', 'Channel.next': r'^GlobalChannelList$'})
    g.noinline |= {'det_confs_butmask', 'hAddClient', 'sendrawto_one', 'sendto_opmask_butone', 'gline_burst', 'jupe_burst', 'sline_burst', 'config_burst', 'umode_str', 'iptobase64', 'add_dlink', 'findNUser'}
    for fn in ('gline_burst', 'jupe_burst', 'sline_burst', 'config_burst'):
        def done(e, fn=fn):
            if e.args[0] == '$0': e.st.tags = frozenset(e.st.tags | {('burst', fn)})
        g.call(fn, done)
    oldsaid = g.calls.get('sendcmdto_one')
    def eob(e):
        t = strarg(e.terms[1])
        if t == 'END_OF_BURST' and e.args[3] == '$0':
            w = 'ircd/s_serv.c (server_estab): end of burst'
            for fn in ('gline_burst', 'jupe_burst', 'sline_burst', 'config_burst'):
                rep.ob(R, w, ('burst', fn) in e.st.tags, 'the end of the burst comes without %s' % fn, trace_lines(e.st, 14) if ('burst', fn) not in e.st.tags else None)
            g.eobs.append((frozenset(x[1] for x in e.st.tags if x[0] == 'w'), e.st)); e.st.tags = frozenset(e.st.tags | {('eob',)})
        elif ('eob',) in e.st.tags and t in ('SERVER', 'NICK', 'BURST', 'AWAY'): rep.ob(R, 'ircd/s_serv.c (server_estab): end of burst', False, '%s is sent after the end of the burst' % t)
        else: e.st.tags = frozenset(e.st.tags | {('said', e.callee, tuple(e.args))})
    g.eobs = []
    g.calls['sendcmdto_one'] = eob
    g.entryrun('server_estab')
    g.verdict(rep, R, ['servers', 'users', 'away messages', 'channels'])
    g.verdict(rep, R, ['other links'], nobreak=False)
    for ws, st in g.eobs:
        for n in ('servers', 'users', 'channels'):
            rep.ob(R, 'ircd/s_serv.c (server_estab): end of burst', any(h in ws for (m, h), d in g.ok.items() if m == n and d[0] and d[2]), 'the end of the burst comes before the %s' % n)
    rep.ob(R, 'ircd/s_serv.c (server_estab): end of burst', all(('eob',) in st.tags for _, _, st in g.rets) and bool(g.rets), 'server_estab can end without the end of the burst')
    # bans, settings
    def burst(fn, n, field, cmd, exc, start, rel):
        g = Sent(prog, rep, relevant=rel, K=4, KLOOP=2)
        g.arm(fn, {'sendcmdto_one', 'gline_free', 'jupe_free', 'sline_free'}, {n: (field, to1(cmd), lambda q, X, g: exc(q, X) or any(t[0] == 'said' and t[1].endswith('_free') and t[2][0] == X for t in g.cur.tags))}, {field: start})
        jd = g.judge
        def judge(st, h):
            g.cur = st; jd(st, h)
        g.judge = judge
        g.entryrun(fn)
        return g
    gx = lambda q, X: fl1(q, X, 'Gline.gl_flags', k.GLINE_LOCAL) or q.z(X + '->Gline.gl_lastmod') or old(q, X + '->Gline.gl_lifetime')
    g = burst('gline_burst', 'G-lines', 'Gline.gl_next', 'GLINE', gx, None, [r'gl_flags&%d' % k.GLINE_LOCAL, 'gl_lastmod 0', r'gl_free'])
    n = len([1 for (m, h), d in g.ok.items() if m == 'G-lines' and d[0] and d[2]])
    g.verdict(rep, R, ['G-lines'])
    rep.ob(R, 'ircd/gline.c (gline_burst): both lists', n >= 2 and all(d[0] for (m, h), d in g.ok.items() if m == 'G-lines') and all({h for (m, h), d in g.ok.items() if m == 'G-lines'} <= ws for ws, _, _ in g.rets), 'user G-lines or channel G-lines are left out')
    g = burst('jupe_burst', 'jupes', 'Jupe.ju_next', 'JUPE', lambda q, X: fl1(q, X, 'Jupe.ju_flags', k.JUPE_LOCAL), r'^GlobalJupeList', [r'ju_flags&%d' % k.JUPE_LOCAL])
    g.verdict(rep, R, ['jupes'])
    g = burst('sline_burst', 'S-lines', 'Sline.sl_next', 'SLINE', lambda q, X: False, r'^GlobalSlineList', ['(?!)'])
    g.verdict(rep, R, ['S-lines'])
    g = burst('config_burst', 'settings', 'ConfigEntry.next', 'CONFIG', lambda q, X: False, r'config_list', ['(?!)'])
    g.verdict(rep, R, ['settings'])
    # channels
    VO = k.CHFL_VOICE | k.CHFL_CHANOP
    ap = lambda fld: (lambda callee, a, X: callee == 'msgq_append' and any(of(X, x, fld) for x in a[2:]))
    mask = lambda q, X: any(p == 'eq' and t is False and any(str(x).startswith('(%s->Membership.status&%d)' % (X, VO)) for x in (a, b)) for p, a, b, t in q.seen)
    g = Sent(prog, rep, relevant=[r'Membership\.status&%d\)' % VO, r'chname.* %d$' % ord('&')], K=4, KLOOP=2)
    g.arm('send_channel_modes', {'msgq_append', 'sendcmdto_one', 'channel_modes', 'send_buffer'}, {
        'members': ('Membership.next_member', ap('Membership.user'), lambda q, X, g: mask(q, X)),
        'bans': ('Ban.next', ap('Ban.banstr'), lambda q, X, g: False),
    }, {'Ban.next': r'Channel\.banlist$|^j#', 'Membership.next_member': r'Channel\.members$|^j#'})
    def modes(e):
        if e.args[0] == '$0' and '$1' in e.args: e.st.tags = frozenset(e.st.tags | {('w', 'modes')})
    g.calls['channel_modes'] = modes
    g.lean = True; g.forget = re.compile('Membership')
    g.entryrun('send_channel_modes')
    AMP = ord('&')
    g.verdict(rep, R, ['members', 'bans'], nobreak=False, start=True, waive=lambda q: any(p == 'eq' and b == AMP and t and 'chname' in str(a) for p, a, b, t in q.seen))
    bad = [st for ws, _, st in g.rets if 'modes' not in ws and not any(p == 'eq' and b == AMP and t and 'chname' in str(a) for p, a, b, t in st.seen)]
    rep.ob(R, 'ircd/channel.c (send_channel_modes): modes', not bad, 'the modes of a channel are not read for the burst', trace_lines(bad[0], 14) if bad else None)
    t = prog.globals.get('send_channel_modes.current_flags@channel.c')
    if t:
        combos = set(x for x in t['init'][1] if isinstance(x, int)) if isinstance(t.get('init'), list) and t['init'][0] == 'arr' else set()
        rep.ob(R, 'ircd/channel.c (send_channel_modes): kinds of members', combos == {0, k.CHFL_VOICE, k.CHFL_CHANOP, VO}, 'members with some combination of voice and operator status are left out (%s)' % sorted(combos))
    rep.need(R, 10)
