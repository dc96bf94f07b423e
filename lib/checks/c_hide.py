"""I: what is kept from those it does not concern."""
from checks.common import *
from checks.a_auth import TECH, NOTE, SELF, owners, const_stores
from checks.b_deliver import call0, call1

OPERSINK = {'log_write', 'debug', 'sendto_opmask_butone', 'sendto_opmask_butone_global', 'vsendto_opmask_butone', 'sendto_opmask_butone_from', 'sendto_iauth', 'exit_client_msg', 'vexit_client_msg'}
SERVSINK = {'sendcmdto_serv_butone', 'sendcmdto_flag_serv_butone', 'sendto_iauth'}
CLISINK = re.compile(r'^(send_reply|sendcmdto_\w+|sendrawto_\w+|sendjointo_\w+|msgq_append|msgq_make|msgq_vmake|msgq_raw_alloc|ircd_snprintf|ircd_vsnprintf|snprintf|sprintf)$')
COPY = re.compile(r'^(strcpy|strcat|strncpy|strncat|ircd_strncpy|ircd_snprintf|snprintf|sprintf|memcpy|llvm\.memcpy.*)$')


class Expose(Guard):
    """reports where the text of watched fields reaches a client: argument of a reply, piece of a buffer, character copied"""
    def __init__(self, prog, rep, fields, **kw):
        Guard.__init__(self, prog, rep, **kw)
        self.frx = re.compile(fields)
        self.out = None
        self.rx.append((re.compile('.'), self.oncall))
        self.phihook = self.onphi

    prx = None

    def onphi(self, st, f, i, v, head):
        # states in which a pointer leads to watched text are kept apart from those in which it does not
        if head: return
        s = S(v) if isT(v) and v.k != 'cmp' else ''
        t = ('p', f.key, i, s[:60]) if (self.prx or self.frx).search(s) else None
        old = [x for x in st.tags if x[0] == 'p' and x[1] == f.key and x[2] == i]
        if old or t: st.tags = frozenset((st.tags - frozenset(old)) | ({t} if t else set()))

    WALK = re.compile(r"(next|prev)\w*'|LocalClientArray|Table'|hash'")

    def anew(self, name, what):
        """calls of `name` deliver the next of a series of objects: always called the same, and all that was known of the one before is forgotten"""
        t = T('call', 0, name, what); n = S(t)
        def fn(e):
            st = e.st
            st.facts = {x: v for x, v in st.facts.items() if n not in S(x)}
            st.seen = frozenset(a for a in st.seen if n not in a[1] and not (isinstance(a[2], str) and n in a[2]))
            st.mem = {c: v for c, v in st.mem.items() if n not in S(c) and not (isT(v) and n in S(v))}
            return t
        self.call(name, fn)

    def walk(self, f, b):
        c = self.__dict__.setdefault('_walk', {})
        if (f.key, b) not in c: c[(f.key, b)] = any(self.WALK.search(repr(i)) for x in f.loops[b] for i in f.blocks[x] if i[0] in ('gep', 'load'))
        return c[(f.key, b)]

    def oncall(self, e):
        if CLISINK.match(e.callee) and e.callee not in OPERSINK and e.callee not in SERVSINK:
            n = 1
        elif COPY.match(e.callee): n = 1
        else: return
        for i, a in enumerate(e.args):
            if i >= n and self.frx.search(a): self.out(e, a)

    own = False
    INNER = None     # what is kept at the heads of innermost walks, if different
    OWN = re.compile(r'^(?!.*(Membership|next|prev))\(?\$\d(->[\w.]+(\[\d+\])*)*(&-?\d+\))?$|^feature_')

    def at_head(self, st, f, b, ctx):
        dead = [x for x in st.tags if x[0] == 'p' and x[1] == f.key and x[2] not in st.env]
        if dead: st.tags = st.tags - frozenset(dead)
        # of earlier rounds of a walk over a list or table only what concerns the parties of the request is kept
        if self.own and self.walk(f, b):
            w = self.INNER if self.INNER is not None and not any(h in f.loops[b] and h != b for h in f.loops) else self.OWN
            st.seen = frozenset(a for a in st.seen if w.search(a[1]) and (not isinstance(a[2], str) or w.search(a[2])))
        Guard.at_head(self, st, f, b, ctx)

    def on_store(self, st, f, ins, addr, val, ctx):
        if isT(val) and val.k == 'ld' and ins[5] == 'i8':
            s = S(val)
            if self.frx.search(s): self.out(self.ev(st, f, ins, [addr, val], ctx, 'store'), s)
        Guard.on_store(self, st, f, ins, addr, val, ctx)


def taintfuncs(prog, fields, extra=None):
    """(function, call instruction) whose arguments derive from one of the fields inside the function"""
    prog.modsets()
    out = []
    keys = ["'%s'" % k for k in fields]
    for f in prog.funcs.values():
        memo = {}
        def taint(o, d=0):
            if not (isinstance(o, list) and o) or d > 24: return False
            r = repr(o)
            if any(k in r for k in keys): return True
            if o[0] != 'v': return False
            if o[1] in memo: return memo[o[1]]
            memo[o[1]] = False
            x = f.defs.get(o[1])
            v = False
            if x is not None:
                r = repr(x)
                if any(k in r for k in keys) and x[0] != 'call': v = True
                elif x[0] == 'gep': v = taint(x[3], d + 1)
                elif x[0] == 'load': v = taint(x[3], d + 1)
                elif x[0] == 'cast': v = taint(x[4], d + 1)
                elif x[0] == 'phi': v = any(taint(y, d + 1) for p, y in x[3])
                elif x[0] == 'select': v = any(taint(y, d + 1) for y in x[3:6])
                elif x[0] == 'call' and isinstance(x[3], list) and x[3][0] == 'g':
                    if x[3][1] in ('ircd_ntoa', 'ircd_ntoa_r', 'iptobase64'): v = any(taint(y, d + 1) for y in x[4])
                    elif extra: v = extra(x)
            memo[o[1]] = v
            return v
        for b in f.blocks:
            for ins in b:
                if ins[0] == 'call' and any(taint(a) for a in ins[4]): out.append((f, ins))
                elif ins[0] == 'store' and ins[5] == 'i8' and taint(ins[3]): out.append((f, ins))
    return out


def chain(f, o, fields, d=0):
    """is operand o an address inside one of the fields?"""
    while isinstance(o, list) and o and d < 16:
        r = repr(o)
        if any("'%s'" % x in r for x in fields): return True
        if o[0] != 'v': return False
        x = f.defs.get(o[1])
        if x is None or x[0] not in ('gep', 'cast', 'load'): return False
        if any("'%s'" % y in repr(x) for y in fields): return True
        o = x[4] if x[0] == 'cast' else x[3]; d += 1
    return False


def base(f, o, d=0):
    while isinstance(o, list) and o and d < 16:
        if o[0] == 'g': return ('g', o[1])
        if o[0] != 'v': return None
        x = f.defs.get(o[1])
        if x is None: return ('v', o[1])
        if x[0] == 'alloca': return ('v', o[1])
        if x[0] not in ('gep', 'cast'): return None
        o = x[4] if x[0] == 'cast' else x[3]; d += 1
    return None


def shown(f, ins):
    """may the buffer this copy writes be sent to a client by the same function?"""
    B = base(f, ins[4][0] if 'snprintf' not in ins[3][1] or ins[3][1] == 'snprintf' else ins[4][1])
    if B is None: return True
    for b in f.blocks:
        for i in b:
            if i[0] == 'call' and isinstance(i[3], list) and i[3][0] == 'g' and CLISINK.match(i[3][1]) and i[3][1] not in OPERSINK and i[3][1] not in SERVSINK and not COPY.match(i[3][1]):
                if any(base(f, a) == B for a in i[4]): return True
            if i[0] == 'ret' and base(f, i[3]) == B: return True
    return False


# ------------------------------------------------------------------ I02
REAL = ('User.realhost', 'Client.cli_ip', 'Connection.con_sockhost', 'Connection.con_sock_ip', 'Whowas.realhost')


@prop('I02', 'The real address of a user with a hidden host is not given away',
      'Where a user has a hidden host, replies to queries show its real host name or IP address only to operators and to the user itself, and WHO matches masks against them only for operators; the real host of '
      'former users is shown to operators only. Other servers receive the address, other users never do.',
      ['inputs', 'configurations', 'histories'], 'every query about every user, by users and operators, local or remote', 'each query formats addresses on its own; one forgotten condition unmasks users',
      ['ircd/m_whois.c', 'ircd/whocmds.c', 'ircd/m_who.c', 'ircd/m_userhost.c', 'ircd/m_userip.c', 'ircd/m_whowas.c', 'ircd/m_trace.c', 'ircd/s_misc.c'],
      [('address uses', 'every call in the program that takes a value derived from User.realhost, Client.cli_ip, con_sockhost, con_sock_ip or Whowas.realhost')], TECH + '; dataflow from the address fields to every sending or formatting call',
      NOTE + 'Notices to operators (server notices) and the logs may hold addresses; who receives server notices is A11.')
def i02(prog, rep, tier):
    k = KS(prog)
    def showip(x):
        return x[3][1] == 'get_client_name' and not (isinstance(x[4][1], int) and x[4][1] == k.HIDE_IP) if hasattr(k, 'HIDE_IP') else x[3][1] == 'get_client_name' and x[4][1] != 0
    ts = taintfuncs(prog, REAL, showip)
    if len(ts) < 20: rep.broken('uses of addresses not found')
    roots = {}
    for f, ins in ts:
        if ins[0] == 'store': roots.setdefault(f.key, f); continue
        c = ins[3]
        if not (isinstance(c, list) and c[0] == 'g'): continue
        n = c[1]
        if n in OPERSINK or n in SERVSINK: rep.ob('operators and servers', 'ircd/%s:%s (%s)' % (f.mod, ins[2], f.name), True, ''); continue
        if re.search('memcpy|ircd_ntoa', n): continue
        if COPY.match(n) and chain(f, ins[4][0], ('User.host', 'User.realhost', 'Whowas.realhost', 'Connection.con_sockhost', 'Connection.con_sock_ip')): continue
        if COPY.match(n) and not shown(f, ins): continue
        if CLISINK.match(n) or COPY.match(n): roots.setdefault(f.key, f)
    rx = r'User\.realhost|Client\.cli_ip\b|Connection\.con_sockhost|Connection\.con_sock_ip|Whowas\.realhost|^get_client_name\(.*,1\)|^get_client_name\('
    rel = [pol(flagrx(k, 'FLAG_HIDDENHOST', 'FLAG_ACCOUNT'), Z), pol(flagrx(k, 'FLAG_OPER', 'FLAG_LOCOP'), NZ), pol('cli_status$', ('eq', k.STAT_SERVER, True), ('eq', k.STAT_USER, False)), lambda a: a[0] == 'eq' and a[3] and isinstance(a[2], str) and (a[1] in ('$0', '$1') or a[2] in ('$0', '$1')) and '->' not in a[1] + a[2]]
    def subject(s):
        m = re.search(r'get_client_name\((.*),([^,]*)\)', s)
        if m: return m.group(1)
        m = re.search(r'&?([^,]*?)->(Client\.cli_user->User\.realhost|Client\.cli_ip|Client\.cli_connect->Connection\.con_sock)', s)
        if m: return m.group(1).split('(')[-1].lstrip('&') if '(' in m.group(1) and m.group(1).count('(') > m.group(1).count(')') else m.group(1).lstrip('&')
        return None
    for f in sorted(roots.values(), key=lambda f: f.key):
        if f.name in ('get_client_name',): continue
        g = Expose(prog, rep, rx, relevant=rel, K=6)
        g.noinline = {'get_client_name'}
        g.own = True
        g.purefn |= {'ircd_ntoa', 'get_client_name'}
        def out(e, s, f=f):
            q = e.q
            m = re.search(r'get_client_name\(.*,(\d+)\)', s)
            if m and m.group(1) == '0': return
            if e.callee == 'store' or COPY.match(e.callee):
                # into another address field, or the visible host of somebody not yet registered, or out of the daemon
                d = e.args[0]
                if re.search(r'Connection\.con_sock|User\.(host|realhost)|Whowas\.realhost|Client\.cli_ip|irc_sockaddr|irc_in_addr|AuthRequest|sockaddr', d): return
                if e.callee.startswith('llvm.memcpy') or e.callee == 'memcpy': return
            X = subject(s)
            # the viewer
            if e.callee in ('send_reply',): V = e.args[0]
            elif e.callee.startswith('sendcmdto_one') or e.callee.startswith('sendcmdto_prio_one'):
                V = e.args[3]
                # the link being established, and the link a remote user came from, are servers
                link = V == '$0' and f.name in ('server_estab', 'register_user')
                g.require(e, 'messages to servers', not_client(q, V) or link or V.startswith('find_match_server('), 'the address of a user is sent to %s who may be a client' % V)
                return
            else: V = None
            vs = [V] if V else ['$0', '$1']
            oper = any(q.isanoper(v) for v in vs if v != X)
            self_ = X is not None and any(q.eq(*sorted((X, v))) or v == X for v in ([V] if V else ['$0', '$1'])if V or q.eq(*sorted(('$0', '$1'))))
            vis = X is not None and (q.noflag(X, 'FLAG_HIDDENHOST') or q.noflag(X, 'FLAG_ACCOUNT'))
            g.require(e, 'address shown', oper or self_ or vis, 'the real address of %s may be shown to another user although its host is hidden' % (X or 'a user'))
        g.out = out
        def not_client(q, V):
            return q.isserver(V) or q.ne(q.statx(V), q.k.STAT_USER)
        g.entryrun(f)
    rep.need('address shown', 4)
    # WHO: matching masks against hidden addresses
    g = Expose(prog, rep, r'(?!)', relevant=rel[:2], K=12)
    g.own = True
    g.noinline = {'do_who'}
    g.out = lambda e, s: None
    def cmpr(e):
        for a in e.args:
            if re.search(r'User\.realhost|Client\.cli_ip\b', a):
                X = subject(a); q = e.q
                if X is None: continue
                g.require(e, 'WHO matches visible hosts', q.isanoper('$1') or q.noflag(X, 'FLAG_HIDDENHOST') or q.noflag(X, 'FLAG_ACCOUNT'), 'WHO by an ordinary user matches the real address of %s although its host is hidden' % X)
    g.call(['matchexec', 'ipmask_check', 'match', 'mmatch', 'matchcomp', 'ircd_strcmp', 'ircd_strncmp', 'strcmp'], cmpr)
    for h in handlers(prog, 'WHO', ('client', 'oper', 'server')): g.entryrun(h)
    rep.need('WHO matches visible hosts', 2)


# ------------------------------------------------------------------ I01
def pub(q, C):
    k = q.k
    M = '%s->Channel.mode.Mode.mode' % C
    return isclr(q, M, k.MODE_SECRET | k.MODE_PRIVATE) or q.z(C)


def memb(q, V, C):
    return any(a[0] == 'eq' and a[2] == 0 and a[3] is False and a[1] in ('find_channel_member(%s,%s)' % (V, C), 'find_member_link(%s,%s)' % (C, V)) for a in q.seen)


def chanof(s):
    """channel whose name or topic the term s is"""
    m = re.search(r'^[*&]*(.*?)->Channel\.(chname|topic)', s)
    return m.group(1).lstrip('*&(') if m else None


@prop('I01', 'Secret and private channels are not shown to outsiders',
      'LIST, NAMES and WHOIS name a secret or private channel only to its members, to operators with the privilege to list channels (LIST), or, for local channels, to operators (WHOIS). WHO shows members of a '
      'channel only if it is not secret or the asker is a member or an operator with the privilege to see it, and names a channel the asker did not ask for only if it is public or common.',
      ['inputs', 'histories', 'configurations'], 'every listing, names, who and whois query, every channel', 'five commands decide on their own; tests look at one or two',
      ['ircd/m_list.c', 'ircd/hash.c', 'ircd/m_names.c', 'ircd/m_whois.c', 'ircd/m_who.c', 'ircd/whocmds.c', 'include/channel.h'],
      [('listing', 'ircd/hash.c: list_next_channels; ircd/m_list.c: m_list, param_parse'), ('names', 'ircd/m_names.c: do_names'), ('whois', 'ircd/m_whois.c: do_whois'), ('who', 'ircd/m_who.c: m_who, ircd/whocmds.c: do_who')], TECH,
      NOTE + 'A privilege to see secret channels granted when a listing started holds until the listing ends.')
def i01(prog, rep, tier):
    k = KS(prog)
    MODES = pol(r'Mode\.mode(&\d+\))?$', Z)
    MEMB = pol(r'^(find_channel_member|find_member_link)\(', NZ)
    base_ = [MODES, MEMB, pol(r'^\$1$|Membership\.channel$', Z), pol(flagrx(k, 'FLAG_OPER', 'FLAG_LOCOP'), NZ), pol(privrx(k, 'PRIV_LIST_CHAN', 'PRIV_SEE_CHAN'), NZ)]
    # LIST
    for h in ['list_next_channels'] + handlers(prog, 'LIST'):
        V = '$0' if h == 'list_next_channels' else '$1'
        g = Expose(prog, rep, r'Channel\.(chname|topic)', relevant=base_ + [pol(r'ListingArgs\.flags&%d\)' % k.LISTARG_SHOWSECRET, NZ)] if hasattr(k, 'LISTARG_SHOWSECRET') else base_ + [pol(r'ListingArgs\.flags&2\)', NZ)], K=8)
        g.purefn |= {'find_channel_member', 'find_member_link'}
        g.own = True
        if h != 'list_next_channels': g.noinline = {'show_usage', 'param_parse', 'list_next_channels'}
        def out(e, s, V=V):
            q = e.q; C = chanof(s)
            if e.callee == 'send_reply' and q.an.p and e.args[0] != V: return
            show = any('ListingArgs.flags&' in a[1] and a[2] == 0 and a[3] is False for a in q.seen)
            g.require(e, 'LIST', C is not None and (pub(q, C) or memb(q, V, C) or show or (q.isanoper(V) and q.priv(V, 'PRIV_LIST_CHAN'))), 'LIST may show a secret or private channel to an outsider')
        g.out = out
        g.entryrun(h, args=None if h == 'list_next_channels' else selfargs())
    rep.need('LIST', 2)
    f = prog.fn('param_parse')
    g = Guard(prog, rep, relevant=base_[3:], K=8)
    g.noinline = {'show_usage'}
    def setf(e):
        v = e.terms[1]
        g.require(e, 'seeing secret channels in LIST', (q_or(v, 2) is False) or (e.q.isanoper('$0') and e.q.priv('$0', 'PRIV_LIST_CHAN')), 'LIST shows secret channels on request of someone without the privilege')
    def q_or(v, m):
        # may the stored value have the bit although the old one had not?
        s = S(v)
        r = re.match(r'^\((.*)\|(\d+)\)$', s)
        if not isT(v): return bool(v & m)
        if r: return bool(int(r.group(2)) & m)
        return None
    g.stores['ListingArgs.flags'] = setf
    g.entryrun(f)
    rep.need('seeing secret channels in LIST', 1)
    for fn, key, mods in (('RPL_NAMREPLY', k.RPL_NAMREPLY, {'do_names', 'm_names', 'ms_names'}), ('RPL_LIST', k.RPL_LIST, {'list_next_channels', 'm_list'}), ('RPL_WHOISCHANNELS', k.RPL_WHOISCHANNELS, {'do_whois', 'm_whois', 'ms_whois'}),
                          ('RPL_WHOREPLY', k.RPL_WHOREPLY, {'do_who'})):
        for f, ins, c in allcalls(prog, r'send_reply$'):
            if isinstance(ins[4][1], int) and ins[4][1] & 0xfff == key:
                rep.ob('one place', 'ircd/%s:%s (%s)' % (f.mod, ins[2], f.name), owners(prog, f) <= mods or f.name in mods, '%s is sent from %s, whose conditions are not known' % (fn, f.name))
    # NAMES
    g = Guard(prog, rep, relevant=base_, K=8)
    g.purefn |= {'find_channel_member', 'find_member_link'}
    def nm(e):
        if isinstance(e.terms[1], int) and e.terms[1] & 0xfff in (k.RPL_NAMREPLY, k.RPL_DELNAMREPLY):
            g.require(e, 'NAMES', pub(e.q, '$1') or memb(e.q, '$0', '$1'), 'NAMES shows a secret or private channel to an outsider')
    g.call('send_reply', nm)
    g.entryrun('do_names')
    rep.need('NAMES', 1)
    # WHOIS
    g = Expose(prog, rep, r'Channel\.(chname|topic)', relevant=base_ + [pol(r'Channel\.chname', ('eq', 38, True)), pol(r'Membership\.status&%d\)' % k.CHFL_ZOMBIE, Z), pred(r'^\$0 \$1|^\$1 \$0', ('eq',))], K=8)
    g.purefn |= {'find_channel_member', 'find_member_link'}
    g.own = True
    def wo(e, s):
        q = e.q; C = chanof(s)
        loc = any(a[0] == 'eq' and a[2] == 38 and a[3] and 'Channel.chname' in a[1] for a in q.seen) and q.isoper('$0')
        g.require(e, 'WHOIS', C is not None and (pub(q, C) or memb(q, '$0', C) or loc), 'WHOIS shows a secret or private channel to an outsider')
        if C and C.endswith('->Membership.channel'):
            L = C[:-len('->Membership.channel')]
            g.require(e, 'WHOIS of kicked members', isclr(q, L + '->Membership.status', k.CHFL_ZOMBIE) or q.eq('$0', '$1') or q.eq('$1', '$0'), 'WHOIS shows a channel the user was kicked from')
    g.out = wo
    g.entryrun('do_whois')
    rep.need('WHOIS', 1)
    # WHO
    g = Expose(prog, rep, r'Channel\.(chname|topic)', relevant=[MODES, base_[2]], K=4)
    g.purefn |= {'find_channel_member', 'find_member_link'}
    g.own = True; g.OWN = re.compile('^find_')
    g.prx = re.compile(r'chname|find_channel_member|User\.channel|Membership')
    def who(e, s):
        C = chanof(s); q = e.q
        e.st.tags = e.st.tags | {('done',)}
        g.require(e, 'WHO names channels', C is not None and (C == '$2' or C.startswith('find_channel_member($1,$2)') or pub(q, C) or memb(q, '$0', C)), 'WHO may name a secret or private channel the asker did not ask about')
    g.out = who
    g.rx.insert(0, (re.compile('.'), lambda e: 'DEAD' if ('done',) in e.st.tags else g.oncall(e)))
    g.entryrun('do_who')
    rep.need('WHO names channels', 1)
    g = Expose(prog, rep, '(?!)', relevant=[MODES, MEMB, base_[-1]], K=4)
    g.out = lambda e, s: None
    g.own = True; g.OWN = re.compile(r'hSeekChannel|con_privs|^find_channel_member\(\$1,')
    g.purefn |= {'find_channel_member', 'find_member_link'}
    g.noinline = {'do_who'}
    def dw(e):
        C = re.sub(r'^&|->Channel\.members$', '', e.args[0]); q = e.q
        own = C.endswith('->Membership.channel') and re.match(r'(\$1->Client\.cli_user->User\.channel|j#\d+)(->Membership\.next_channel)*->Membership\.channel$', C)
        see = isclr(q, '%s->Channel.mode.Mode.mode' % C, k.MODE_SECRET) or q.priv('$1', 'PRIV_SEE_CHAN')
        g.require(e, 'WHO shows members', bool(own) or memb(q, '$1', C) or see, 'WHO shows the members of a secret channel to an outsider')
    g.loads['Channel.members'] = dw
    for h in handlers(prog, 'WHO', ('client', 'oper')): g.entryrun(h, args=selfargs())
    rep.need('WHO shows members', 2)


def ownwalk(f, o, argn):
    """is operand o the channel of a membership reached by walking the channels of parameter argn?"""
    def root(o, seen):
        # does every source of the pointer lead to the first channel of the parameter?
        if not (isinstance(o, list) and o and o[0] == 'v'): return False
        if o[1] in seen: return True
        seen.add(o[1])
        d = f.defs.get(o[1])
        if d is None: return False
        if d[0] == 'phi': return all(root(x, seen) for p, x in d[3])
        if d[0] == 'load': return root(d[3], seen)
        if d[0] == 'gep':
            r = repr(d[4])
            if 'Membership.next_channel' in r: return root(d[3], seen)
            if 'User.channel' in r: return user(d[3])
        return False
    def user(o):
        for _ in range(8):
            if not (isinstance(o, list) and o): return False
            if o[0] in ('a', 'arg'): return o[1] == argn
            d = f.defs.get(o[1]) if o[0] == 'v' else None
            if d is None: return o[0] == 'v' and o[1] == argn
            if d[0] not in ('load', 'gep', 'cast'): return False
            o = d[3] if d[0] != 'cast' else d[4]
        return False
    d = f.defs.get(o[1]) if isinstance(o, list) and o and o[0] == 'v' else None
    if d is None or d[0] != 'load': return False
    d = f.defs.get(d[3][1]) if isinstance(d[3], list) and d[3][0] == 'v' else None
    return bool(d and d[0] == 'gep' and 'Membership.channel' in repr(d[4]) and root(d[3], set()))


# ------------------------------------------------------------------ I03
def memberof(s):
    m = re.match(r'^[*&]*(.*?)->Membership\.user(->.*)?$', s)
    return m.group(1).lstrip('*&(') if m else None


def same(q, a, b): return a == b or q.eq(*sorted((a, b)))


@prop('I03', 'Invisible, delayed and kicked-out users are shown only where they may be seen',
      'NAMES for a channel lists an invisible member only to those on the channel, a delayed-join member only to itself or to NAMES -D, and a member already kicked only to itself. WHO shows an invisible user only '
      'to itself, to those sharing the channel and to operators with a privilege for it, and WHO for a channel leaves out kicked and (unless asked for) delayed members. WHOIS with wildcards shows an invisible user '
      'only to itself and to those sharing a channel; and the o filter of WHO selects only operators the asker may see.',
      ['inputs', 'histories'], 'every names, who and whois query, every membership', 'visibility depends on combinations of user, member and asker the tests do not enumerate',
      ['ircd/m_names.c', 'ircd/m_who.c', 'ircd/m_whois.c', 'ircd/m_join.c', 'include/whocmds.h'],
      [('names', 'ircd/m_names.c: do_names, m_names, ms_names; ircd/m_join.c: joinbuf_join'), ('who', 'ircd/m_who.c: m_who'), ('whois', 'ircd/m_whois.c: do_wilds')],
      TECH + '; every place where such a query shows a user', NOTE + 'WHO and WHOIS of an exact nick name show the user. WHO with a mask walks the channels of the asker and may show their members whatever their state.')
def i03(prog, rep, tier):
    k = KS(prog)
    INV = pol(flagrx(k, 'FLAG_INVISIBLE'), Z)
    ST = pol(r'Membership\.status&(%d|%d|%d)\)' % (k.CHFL_ZOMBIE, k.CHFL_DELAYED, k.CHFL_ZOMBIE | k.CHFL_DELAYED), Z)
    ISV = lambda a: a[0] == 'eq' and a[3] is True and '$1' in (a[1], a[2])
    SELFA = pred(r'Membership\.user', ('eq',), True)
    # the names of a channel
    g = Expose(prog, rep, r'Membership\.user->Client\.cli_name', relevant=[INV, ST, SELFA, pol(r'^\(\$2&', Z, NZ)], K=8)
    g.own = True
    def nm(e, s):
        q = e.q; M = memberof(s)
        g.require(e, 'NAMES: invisible', M is not None and (q.noflag(M + '->Membership.user', 'FLAG_INVISIBLE') or isclr(q, '$2', k.NAMES_VIS)), 'an invisible member may be listed to someone outside the channel')
        g.require(e, 'NAMES: kicked', M is not None and (isclr(q, M + '->Membership.status', k.CHFL_ZOMBIE) or same(q, M + '->Membership.user', '$0')), 'a member already kicked may be listed to others')
        g.require(e, 'NAMES: delayed', M is not None and (isclr(q, M + '->Membership.status', k.CHFL_DELAYED) or same(q, M + '->Membership.user', '$0') or isset(q, '$2', k.NAMES_DEL)), 'a delayed-join member may be listed without -D')
    g.out = nm
    g.entryrun('do_names')
    rep.need('NAMES: invisible', 1)
    # who asks for the names
    def callers():
        out = {}
        for f, ins, c in allcalls(prog, r'do_names$'): out.setdefault(f.key, f)
        return out.values()
    for f in sorted(callers(), key=lambda f: f.key):
        g = Expose(prog, rep, r'Client\.cli_name', relevant=[INV, pol(r'^(find_channel_member|find_member_link)\(', NZ), ISV, pol(r'cli_status$', ('eq', k.STAT_USER, True))], K=8)
        g.own = True; g.OWN = re.compile('(?!)'); g.INNER = re.compile(r'^\$1$|^(?!\$1)(?!.*Membership)(.*(cli_status|Flags\.bits)|[^(]*$)')
        g.noinline = {'do_names'}
        g.purefn |= {'find_channel_member', 'find_member_link'}
        def dn(e):
            q = e.q; fl = e.terms[2]
            vis = surely_set(g, e.st, fl, k.NAMES_VIS)
            joined = ('added', e.args[0], e.args[1]) in e.st.tags or (('added', '', e.args[1]) in e.st.tags and ('joiner', e.args[0]) in e.st.tags)
            g.require(e, 'NAMES: full list', vis or memb(q, e.args[0], e.args[1]) or joined, 'the full list of names is given to someone who may not be on the channel')
        g.call('do_names', dn)
        def add(e): e.st.tags = e.st.tags | {('added', e.args[1], e.args[0])}
        g.call('add_user_to_channel', add)
        def jadd(e): e.st.tags = frozenset(t for t in e.st.tags if t[0] != 'added') | {('added', '', e.args[1])}
        g.call('joinbuf_join', jadd)
        def jini(e): e.st.tags = frozenset(t for t in e.st.tags if t[0] != 'joiner') | {('joiner', e.args[1])}
        g.call('joinbuf_init', jini)
        if f.name not in ('m_names', 'ms_names'): g.relfn = []; g.rel = []
        def nl(e, s):
            if not COPY.match(e.callee) or f.name not in ('m_names', 'ms_names'): return
            m = re.match(r'^&?(.*)->Client\.cli_name', s); X = m and m.group(1)
            q = e.q
            if X in ('$1', 'me'): return
            g.require(e, 'NAMES: users without channel', X and (q.noflag(X, 'FLAG_INVISIBLE') or same(q, X, '$1')) and q.isuser(X), 'an invisible user may be listed by NAMES 0')
        g.out = nl
        g.entryrun(f)
    rep.need('NAMES: full list', 4)
    # WHO
    OPERS = [pol(flagrx(k, 'FLAG_OPER', 'FLAG_LOCOP'), NZ), pol(privrx(k, 'PRIV_DISPLAY', 'PRIV_SEE_OPERS'), NZ)]
    SHOW = pol(privrx(k, 'PRIV_SHOW_INVIS', 'PRIV_SHOW_ALL_INVIS'), NZ)
    for part in ('visible', 'delayed', 'opers'):
        SEL = lambda a: a[0] == 'eq' and a[2] == 0 and a[3] is True and a[1].endswith('&%d)' % k.WHOSELECT_OPER) and not re.search(r'->|\.|\[', a[1])
        rel = [INV, ST, SELFA, ISV, pol(r'^(find_channel_member|find_member_link)\(', NZ), SHOW] if part == 'visible' else OPERS + [SEL] if part == 'opers' else [ST, SELFA]
        g = Expose(prog, rep, '(?!)', relevant=rel, K=3, KLOOP=2)
        g.out = lambda e, s: None
        g.own = True; g.OWN = re.compile(r'^\(\$1->Client\.cli_connect->Connection\.con_privs|^\(\w+#\d+&%d\)$' % k.WHOSELECT_OPER if part == 'opers' else r'^\(\$1->Client\.cli_connect->Connection\.con_privs')
        if part != 'opers': g.INNER = re.compile(r'^\(\$1->Client\.cli_connect->Connection\.con_privs|^find_channel_member\(\$1,')
        # each round of the outer walk takes one element of the list; what was known of the one before is dropped there
        if part != 'opers': g.anew('ircd_strtok', 'element')
        g.purefn |= {'find_channel_member', 'find_member_link'}
        g.noinline = {'do_who'}
        def unselected(e):
            """the selector for operators is off: tested so, or a constant on this path"""
            if any(SEL(a) for a in e.q.seen): return True
            f = g.entry
            for b in f.blocks:
                for i in b:
                    if i[0] == 'bin' and i[3] == 'and' and k.WHOSELECT_OPER in i[4:6]:
                        o = i[4] if i[5] == k.WHOSELECT_OPER else i[5]
                        if isinstance(o, list) and o[0] == 'v' and f.defs.get(o[1], [0])[0] == 'phi':
                            v = e.st.env.get(o[1])
                            if isinstance(v, int) and not v & k.WHOSELECT_OPER: return True
            return False
        def dw(e, part=part):
            q = e.q; X = e.args[1]
            M = memberof(X)
            if part == 'opers':
                see = q.isanoper(X) and (q.priv(X, 'PRIV_DISPLAY') or q.priv('$1', 'PRIV_SEE_OPERS'))
                g.require(e, 'WHO: operators', see or unselected(e), 'WHO selects operators the asker may not see')
                return 'DEAD'
            exact = X.startswith('hSeekClient(') and e.args[2] == '0'
            C = e.args[2]
            there = C != '0' and (memb(q, '$1', C) or ownwalk(e.f, e.ins[4][2], 1) or re.match(r'(\$1->Client\.cli_user->User\.channel|j#\d+)(->Membership\.next_channel)*->Membership\.channel$', C))
            vis = q.noflag(X, 'FLAG_INVISIBLE') or same(q, X, '$1')
            priv = q.priv('$1', 'PRIV_SHOW_INVIS') or q.priv('$1', 'PRIV_SHOW_ALL_INVIS')
            if part == 'visible': g.require(e, 'WHO: invisible', exact or bool(there) or vis or priv, 'WHO may show an invisible user to a stranger')
            if part == 'delayed' and M and 'hSeekChannel(' in C:
                st = M + '->Membership.status'
                g.require(e, 'WHO: kicked', same(q, X, '$1') or isclr(q, st, k.CHFL_ZOMBIE), 'WHO shows members already kicked from the channel')
                g.require(e, 'WHO: delayed', same(q, X, '$1') or isclr(q, st, k.CHFL_DELAYED) or DEL(q), 'WHO shows delayed-join members although not asked to')
            return 'DEAD'       # the next user is judged as if this one had not been shown
        def DEL(q): return any(a[0] == 'eq' and a[2] == 0 and a[3] is False and a[1].endswith('&%d)' % k.WHOSELECT_DELAY) and not re.search(r'->|\.|\[', a[1]) for a in q.seen)
        if part == 'delayed': g.relfn.append(lambda a: a[0] == 'eq' and a[2] == 0 and a[3] is False and a[1].endswith('&%d)' % k.WHOSELECT_DELAY) and not re.search(r'->|\.|\[', a[1]))
        g.call('do_who', dw)
        for h in handlers(prog, 'WHO', ('client', 'oper')): g.entryrun(h, args=selfargs())
    rep.need('WHO: invisible', 3); rep.need('WHO: kicked', 1); rep.need('WHO: operators', 4)
    # WHOIS
    g = Expose(prog, rep, '(?!)', relevant=[INV, ISV, pol(r'Membership\.status&%d\)' % k.CHFL_ZOMBIE, Z), pol(r'Mode\.mode(&\d+\))?$', Z, NZ), pol(r'^(find_channel_member|find_member_link)\(', NZ), pol(r'User\.channel$|Membership\.channel$|Client\.cli_user$', Z)], K=3, KLOOP=2)
    g.out = lambda e, s: None
    g.own = True; g.OWN = re.compile('(?!)'); g.INNER = re.compile(r'^(?!.*Membership)(?!find_)')
    g.purefn |= {'find_channel_member', 'find_member_link'}
    g.noinline = {'do_whois'}
    def wh(e):
        q = e.q; X = e.args[1]; V = e.args[0]
        if X.startswith('hSeekClient('):
            rep.ob('WHOIS: wildcards', g.where(e) + ' exact', True); return 'DEAD'
        vis = q.noflag(X, 'FLAG_INVISIBLE') or same(q, X, V)
        none = q.z(X + '->Client.cli_user->User.channel') or q.z(X + '->Client.cli_user')
        common = any(a[0] == 'eq' and a[2] == 0 and a[3] is False and a[1].startswith('find_channel_member(%s,' % V) for a in q.seen)
        open_ = any(a[0] == 'eq' and 'Channel.mode.Mode.mode&' in a[1] and a[2] == 0 and a[3] and int(re.search(r'&(\d+)\)$', a[1]).group(1)) & k.MODE_SECRET or a[1].endswith('->Membership.channel') and a[2] == 0 and a[3] for a in q.seen)
        g.require(e, 'WHOIS: wildcards', common or (vis and (none or open_)), 'WHOIS with a wildcard may show a user who is invisible or only on secret channels to a stranger')
        return 'DEAD'      # the next user is judged as if this one had not been shown
    g.call('do_whois', wh); g.call('send_reply', lambda e: 0)
    g.anew('next_client', 'client'); g.anew('ircd_strtok', 'element')
    for h in handlers(prog, 'WHOIS', ('client', 'oper')): g.entryrun(h, args=selfargs())
    rep.need('WHOIS: wildcards', 2)


# ------------------------------------------------------------------ I04
@prop('I04', 'Idle times, operator status and server names are shown only to those allowed',
      'WHOIS and WHO give the idle time of a user who hides it (+I) only to the user itself and to operators, and under HIS_WHOIS_IDLETIME no local WHOIS by another user gives it. That a user is an operator is shown '
      'in WHOIS and WHO only if the operator may be displayed or the asker may see operators. With HIS_WHOIS_SERVERNAME (WHOIS, WHOWAS) and HIS_WHO_SERVERNAME (WHO), ordinary users never see which server another '
      'user is on, nor find it out by matching WHO masks.',
      ['inputs', 'configurations'], 'every query about every user by every asker, every setting of the features', 'the combinations of settings and askers are not enumerated by tests',
      ['ircd/m_whois.c', 'ircd/whocmds.c', 'ircd/m_who.c', 'ircd/m_whowas.c', 'include/client.h'],
      [('idle time', 'ircd/m_whois.c: do_whois; ircd/whocmds.c: do_who'), ('operators', 'the same, SeeOper'), ('servers', 'the same and ircd/m_whowas.c: m_whowas')],
      TECH + '; dataflow from the idle time and server name to replies', NOTE)
def i04(prog, rep, tier):
    k = KS(prog)
    OPERS = pol(flagrx(k, 'FLAG_OPER', 'FLAG_LOCOP'), NZ)
    ISS = lambda a: a[0] == 'eq' and a[3] is True and {a[1], a[2]} == {'$0', '$1'}
    def feat(*ns): return pol(r'^feature_bool\((%s)\)$' % '|'.join(str(getattr(k, n)) for n in ns), Z)
    # who shows idle times and operators at all
    prog.modsets()
    for f in prog.funcs.values():
        if any(i[0] == 'gep' and "'User.last'" in repr(i) for b in f.blocks for i in b):
            rd = [i for b in f.blocks for i in b if i[0] == 'load' and 'User.last' in repr(f.defs.get(i[3][1]) if isinstance(i[3], list) and i[3][0] == 'v' else '') and "'User.last'" in repr(f.defs.get(i[3][1])[4])]
            if rd: rep.ob('idle time is read', 'ircd/%s (%s)' % (f.mod, f.name), f.name in ('do_whois', 'do_who') or owners(prog, f) <= {'do_whois', 'm_whois', 'do_who', 'ms_whois'}, 'the idle time is used where its conditions are not known')
    for fn, num in (('do_whois', None), ('do_who', None)):
        g = Expose(prog, rep, r'User\.last', relevant=[OPERS, ISS, pol(flagrx(k, 'FLAG_HIDEIDLE'), Z), feat('FEAT_HIS_WHOIS_IDLETIME', 'FEAT_HIS_WHO_SERVERNAME'), pred(r'^\$2 ', ('slt', 'sle', 'eq')), pol(r'con_privs', NZ)], K=4)
        g.own = True
        g.prx = re.compile('(?!)')
        def out(e, s, fn=fn):
            q = e.q; X, V = '$1', '$0'
            own = same(q, X, V) or q.isanoper(V)
            g.require(e, 'idle time', own or q.noflag(X, 'FLAG_HIDEIDLE'), 'the idle time of a user who hides it may be shown to others')
            if fn == 'do_whois':
                rem = ivals(g, e.st, T('arg', 2))[0] >= 3
                g.require(e, 'idle time: feature', own or rem or q.nofeat('FEAT_HIS_WHOIS_IDLETIME'), 'WHOIS gives the idle time of others although the configuration forbids it')
            e.st.tags = e.st.tags | {('done',)}
        g.out = out
        g.rx.insert(0, (re.compile('.'), lambda e: 'DEAD' if ('done',) in e.st.tags else g.oncall(e)))
        g.entryrun(fn)
    rep.need('idle time', 2)
    # operators
    SEE = [OPERS, pol(privrx(k, 'PRIV_DISPLAY', 'PRIV_SEE_OPERS'), NZ)]
    g = Guard(prog, rep, relevant=SEE, K=4)
    def op(e):
        if isinstance(e.terms[1], int) and e.terms[1] & 0xfff == k.RPL_WHOISOPERATOR:
            see(g, e)
    def see(g, e):
        q = e.q
        g.require(e, 'operator status', q.isanoper('$1') and (q.priv('$1', 'PRIV_DISPLAY') or q.priv('$0', 'PRIV_SEE_OPERS')), 'operator status is shown although it is hidden from the asker')
    g.call('send_reply', op)
    g.entryrun('do_whois')
    class Flags(Guard):
        def on_store(self, st, f, ins, addr, val, ctx):
            if ins[5] == 'i8' and isinstance(val, int):
                if val in (71, 72): st.tags = st.tags | {('here',)}
                elif val == 42 and ('here',) in st.tags: see(self, self.ev(st, f, ins, [addr, val], ctx, 'store')); st.tags = st.tags | {('done',)}
            Guard.on_store(self, st, f, ins, addr, val, ctx)
    g = Flags(prog, rep, relevant=SEE, K=4)
    g.rx.append((re.compile('.'), lambda e: 'DEAD' if ('done',) in e.st.tags else None))
    g.entryrun('do_who')
    for f, ins, c in allcalls(prog, r'send_reply$'):
        if isinstance(ins[4][1], int) and ins[4][1] & 0xfff in (k.RPL_WHOISOPERATOR, k.RPL_WHOISIDLE):
            rep.ob('one place', 'ircd/%s:%s (%s)' % (f.mod, ins[2], f.name), owners(prog, f) <= {'do_whois', 'm_whois', 'ms_whois'} or f.name == 'do_whois', 'idle time or operator status is reported from an unknown place')
    rep.need('operator status', 2)
    # servers
    for fn, ft, V, X in (('do_whois', 'FEAT_HIS_WHOIS_SERVERNAME', '$0', '$1'), ('do_who', 'FEAT_HIS_WHO_SERVERNAME', '$0', '$1'), ('m_whowas', 'FEAT_HIS_WHOIS_SERVERNAME', '$1', None)):
        g = Expose(prog, rep, r'User\.server->Client\.cli_(name|info)|Whowas\.servername', relevant=[OPERS, ISS, feat(ft)], K=4)
        g.own = True; g.prx = re.compile(r'User\.server$|servername')
        def out(e, s, V=V, X=X, ft=ft):
            q = e.q
            g.require(e, 'server names', q.isanoper(V) or q.isoper(V) or q.nofeat(ft) or (X and fn == 'do_whois' and same(q, X, V)), 'the server another user is on may be shown to an ordinary user')
            e.st.tags = e.st.tags | {('done',)}
        g.out = out
        if fn == 'do_who': g.rx.insert(0, (re.compile('.'), lambda e, g=g: 'DEAD' if ('done',) in e.st.tags else g.oncall(e)))
        g.entryrun(fn, args=selfargs() if fn[0] == 'm' else None)
    rep.need('server names', 3)
    # matching a mask against server names
    g = Guard(prog, rep, relevant=[OPERS, feat('FEAT_HIS_WHO_SERVERNAME')], K=8)
    g.noinline = {'do_who'}
    def ms(e):
        q = e.q
        g.require(e, 'WHO matches servers', q.isanoper('$1') or q.nofeat('FEAT_HIS_WHO_SERVERNAME'), 'an ordinary user can find out the server of others by WHO although server names are hidden')
        return 'DEAD'
    g.call('markMatchexServer', ms)
    # the list of plain nicks before does not change what is matched
    g.call('ircd_strtok', lambda e: 0); g.call('move_marker', lambda e: 0)
    g.call('do_who', lambda e: 'DEAD')
    for h in handlers(prog, 'WHO', ('client', 'oper')):
        x = selfargs(); x[2] = 2
        g.entryrun(h, args=x)          # with the default selectors; others are parsed before the same test
    rep.need('WHO matches servers', 1)


# ------------------------------------------------------------------ I05
@prop('I05', 'LINKS, MAP, TRACE, STATS and remote queries obey the head-in-sand settings',
      'With HIS_LINKS, HIS_MAP or HIS_TRACE set, an ordinary user gets no reply from LINKS, MAP or TRACE that names servers or clients. A kind of STATS that is for operators only, or whose own HIS_STATS setting is '
      'on, is neither answered nor passed on for an ordinary user, and kinds marked local are answered to local users only. With HIS_REMOTE set, queries of ordinary users are not passed on to other servers.',
      ['inputs', 'configurations'], 'every query by every user, every letter of STATS, every setting', 'thirty kinds of STATS each with a setting; tests try few',
      ['ircd/m_links.c', 'ircd/m_map.c', 'ircd/m_trace.c', 'ircd/m_stats.c', 'ircd/s_stats.c', 'ircd/s_user.c'],
      [('replies', 'ircd/m_links.c: m_links; ircd/m_map.c: m_map, mo_map; ircd/m_trace.c: m_trace, mo_trace'), ('stats', 'ircd/m_stats.c: m_stats; ircd/s_stats.c: statsinfo'), ('forwarding', 'ircd/s_user.c: hunt_server_cmd')],
      TECH + '; table of STATS kinds against their settings', NOTE + 'WHOIS by nick asks the server of that nick. Queries that arrive from other servers were judged there.')
def i05(prog, rep, tier):
    k = KS(prog)
    OPERS = pol(r'^\(\$[01]->Client\.cli_flags\.(%s)' % flagrx(k, 'FLAG_OPER', 'FLAG_LOCOP'), NZ)
    def feat(n): return pol(r'^feature_bool\(%d\)$' % getattr(k, n), Z)
    for cmd, ft, nums in (('LINKS', 'FEAT_HIS_LINKS', {k.RPL_LINKS}), ('MAP', 'FEAT_HIS_MAP', {k.RPL_MAP, k.RPL_MAPMORE}),
                          ('TRACE', 'FEAT_HIS_TRACE', set(range(k.RPL_TRACELINK, k.RPL_TRACECLASS + 1)))):
        hs = {r: handlers(prog, cmd, (r,)) for r in ('client', 'oper')}
        for h in sorted(set(hs['client'] + hs['oper'])):
            isop = h not in hs['client']         # the dispatcher gives it to operators only (see A11)
            g = Guard(prog, rep, relevant=[OPERS, feat(ft)], K=2, KLOOP=2, inline={'do_trace'})
            def ok(e, isop=isop, ft=ft): return isop or e.q.isanoper('$1') or e.q.nofeat(ft)
            def sr(e, cmd=cmd, nums=nums, ok=ok):
                if isinstance(e.terms[1], int) and e.terms[1] & 0xfff in nums:
                    g.require(e, cmd, ok(e), '%s may tell an ordinary user about servers although the configuration hides them' % cmd)
                    return 'DEAD'
            g.call('send_reply', sr)
            def hs_(e, cmd=cmd, ok=ok):
                g.require(e, cmd + ' passed on', ok(e) or surely_nz(g, e, e.terms[4]), '%s of an ordinary user is passed on although the configuration hides servers' % cmd)
            g.call('hunt_server_cmd', hs_)
            g.entryrun(h, args=selfargs())
        rep.need(cmd, 1)
    # STATS
    FL = r'StatDesc\.sd_flags&(\d+)\)$'
    for self_ in (True, False):
        g = Guard(prog, rep, relevant=[pol(flagrx(k, 'FLAG_OPER', 'FLAG_LOCOP'), NZ), pol(FL, Z), pol(r'^feature_bool\(', Z), pol('cli_status$', ('eq', k.STAT_SERVER, True), ('eq', k.STAT_USER, True)),
                                       lambda a: a[0] == 'eq' and a[3] is True and 'con_client' in a[1] + str(a[2])], K=8)
        def allowed(e):
            q = e.q; V = '$1' if self_ else '$0'
            if q.isanoper(V) or q.isserver(V): return True
            fl = [a[1][1:a[1].rindex('&')] for a in q.seen if a[0] == 'eq' and a[2] == 0 and a[3] is True and re.search(FL, a[1])]
            for F in fl:
                if isclr(q, F, k.STAT_FLAG_OPERONLY):
                    off = any(a[0] == 'eq' and a[2] == 0 and a[3] is True and a[1].startswith('feature_bool(') and a[1].endswith('StatDesc.sd_control)') for a in q.seen)
                    if isclr(q, F, k.STAT_FLAG_OPERFEAT) or off: return True
            return False
        def fn(e):
            q = e.q
            g.require(e, 'STATS', allowed(e), 'STATS of a kind reserved for operators may be given to an ordinary user')
            fl = [a[1][1:a[1].rindex('&')] for a in q.seen if a[0] == 'eq' and a[2] == 0 and a[3] is True and re.search(FL, a[1])]
            loc = any(isclr(q, F, k.STAT_FLAG_LOCONLY) for F in fl) or (q.mycon('$1') and q.isuser('$1'))
            g.require(e, 'STATS for local users', loc, 'a kind of STATS for local users is given to remote users')
        g.indirect_cb = fn
        g.call('hunt_server_cmd', lambda e: g.require(e, 'STATS passed on', allowed(e), 'STATS of a kind reserved for operators is passed on for an ordinary user'))
        for h in handlers(prog, 'STATS', ('client', 'oper') if self_ else ('server',)): g.entryrun(h, args=selfargs() if self_ else None)
    rep.need('STATS', 1)
    t = prog.globals.get('statsinfo') or prog.globals.get('statsinfo@s_stats.c')
    if not t or t['init'][0] != 'arr': rep.broken('table of STATS kinds not found')
    byval = {}
    for n, v in k.v.items():
        if n.startswith('FEAT_HIS_STATS_'): byval.setdefault(v, n)
    for x in t['init'][1]:
        if x[0] != 'st': continue
        d = {n.split('.', 1)[1]: v for n, v in x[2]}
        if not isinstance(d.get('sd_name'), list): continue
        nm = d['sd_name'][1]; c = chr(d['sd_c']); fl = d['sd_flags']; ft = byval.get(d['sd_control'])
        if nm == 'help': continue
        if fl & k.STAT_FLAG_OPERONLY: rep.ob('kinds of STATS', 'ircd/s_stats.c:' + nm, True); continue
        exact = 'FEAT_HIS_STATS_' + c
        sib = 'FEAT_HIS_STATS_' + c.swapcase()
        want = exact if exact in k.v else sib if sib in k.v else {'iauth': 'FEAT_HIS_STATS_IAUTH', 'iauthconf': 'FEAT_HIS_STATS_IAUTH', 'netconf': 'FEAT_HIS_STATS_C'}.get(nm)
        rep.ob('kinds of STATS', 'ircd/s_stats.c:' + nm, bool(fl & k.STAT_FLAG_OPERFEAT) and (ft == want if want else ft is not None), 'STATS %s (%s) is not controlled by its setting %s' % (c, nm, want))
    rep.need('kinds of STATS', 25)
    # who sees the oper-only quarantine reasons etc. is decided by the flag of the kind
    # queries passed on
    g0 = sorted({f.name for f, ins, c in allcalls(prog, r'hunt_server_cmd$')})
    H = all_handlers(prog, ('client',))
    roots = {}
    for h, cs in sorted(H.items()):
        f = prog.fn(h)
        reach = {h}
        if any(prog_calls(prog, h, 'hunt_server_cmd')): roots[h] = cs
    for h, cs in roots.items():
        names = {c for c, r in cs}
        g = Guard(prog, rep, relevant=[OPERS, pol(r'^feature_bool\((%d|%d)\)$' % (k.FEAT_HIS_REMOTE, k.FEAT_HIS_TRACE), Z)], K=2, KLOOP=2, inline={'do_trace'})
        g.noinline = {'do_whois', 'do_wilds', 'do_who', 'do_names'}
        def hu(e, names=names):
            t = e.terms[4]; q = e.q
            by = e.args[4] == 'feature_bool(%d)' % k.FEAT_HIS_REMOTE
            must = surely_nz(g, e, t)
            wh = 'WHOIS' in names and (q.nofeat('FEAT_HIS_REMOTE') or q.isanoper('$1') or ('nicknick',) in e.st.tags)
            tr = 'TRACE' in names and (q.nofeat('FEAT_HIS_TRACE') or q.isanoper('$1'))
            g.require(e, 'remote queries', by or must or wh or tr or q.nofeat('FEAT_HIS_REMOTE'), 'a query of an ordinary user may be passed on although HIS_REMOTE is set')
            return 'DEAD'
        g.call(['hunt_server_cmd', 'hunt_server_prio_cmd'], hu)
        def st_(an, st, addr, val):
            pass
        class NN: pass
        og = g.on_store
        def os_(st, f, ins, addr, val, ctx, og=og):
            if isT(addr) and addr.k == 'ix' and S(addr).endswith('$3[1]') and S(val) == '$3[2]': st.tags = st.tags | {('nicknick',)}
            og(st, f, ins, addr, val, ctx)
        g.on_store = os_
        g.entryrun(h, args=selfargs())
    rep.need('remote queries', 8)
    for fn in ('hunt_server_cmd', 'hunt_server_prio_cmd'):
        g = Guard(prog, rep, relevant=[OPERS, pol(r'^\$4$', Z), pol('cli_status$', ('eq', k.STAT_SERVER, True))], K=4)
        g.rx.append((re.compile(r'sendcmdto_(prio_)?one$'), lambda e: g.require(e, 'operators only', e.q.z('$4') or e.q.isanoper('$0') or e.q.isserver('$0'), 'a query for operators only is passed on for an ordinary user')))
        g.entryrun(fn)
    rep.need('operators only', 2)


def surely_nz(g, e, t):
    return t != 0 if not isT(t) else g.decide(e.st, mkcmp('ne', t, 0)) is True


def prog_calls(prog, h, name):
    """does h, or a function it calls in its own module (or do_trace), call name?"""
    seen = set(); todo = [prog.fn(h)]
    while todo:
        f = todo.pop()
        if f.key in seen: continue
        seen.add(f.key)
        for b in f.blocks:
            for i in b:
                if i[0] == 'call' and isinstance(i[3], list) and i[3][0] == 'g':
                    if i[3][1] in (name, 'hunt_server_prio_cmd'): yield i
                    try: n = prog.fn(i[3][1])
                    except Exception: continue
                    if n.mod == f.mod or n.name == 'do_trace': todo.append(n)
