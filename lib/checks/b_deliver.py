"""B: who receives messages."""
from checks.common import *
from checks.a_auth import TECH, NOTE, SELF, owners, const_stores
from checks.a_chan import wholearg, LINKNOTE

TALK = ('PRIVMSG', 'NOTICE', 'TAGMSG')
MODE_USER = ('FLAG_BLOCK_UNAUTH_USERS', 'FLAG_COMMONCHANS')
EXEMPT = ('FLAG_CHSERV', 'FLAG_OPER', 'FLAG_LOCOP', 'FLAG_ACCOUNT')


def relayfuncs(prog):
    fs = {f.name for f in prog.funcs.values() if f.mod == 'ircd_relay.c'}
    if len(fs) < 15: raise AnalysisBroken('relay functions not found')
    return fs | {'whisper', 'should_block_unauth_user'}


def call0(q, name, *args):
    """the call name(args...) returned zero"""
    pre = '%s(%s' % (name, ','.join(args))
    return any(a[0] == 'eq' and a[2] == 0 and a[3] is True and a[1].startswith(pre) and a[1][len(pre):len(pre) + 1] in (',', ')') for a in q.seen)


def call1(q, name, *args):
    pre = '%s(%s' % (name, ','.join(args))
    return any(a[0] == 'eq' and a[2] == 0 and a[3] is False and a[1].startswith(pre) and a[1][len(pre):len(pre) + 1] in (',', ')') for a in q.seen)


# ------------------------------------------------------------------ B01
@prop('B01', 'Private messages respect the recipient\'s privacy settings',
      'PRIVMSG, NOTICE, TAGMSG, CPRIVMSG and CNOTICE are accepted for a user only if that user has not silenced the sender, does not refuse contact from unauthenticated users '
      '(unless the sender is authenticated, an operator, a service, a server or the user itself), and, when sent by nickname, does not require a common channel it lacks with the sender. '
      'Messages from local users moreover pass the sender\'s target limit, except those to services and those that a voiced or opped member sends to a fellow member with CPRIVMSG or '
      'CNOTICE, and the operators\' spam filter. The nick@server form reaches only services.',
      ['inputs', 'configurations', 'histories'], 'every private message line from a local client or server, every mode and silence list of the recipient',
      'three commands, local and remote, each with own copies of the checks; a missing one shows only for one mode on one path',
      ['ircd/ircd_relay.c', 'ircd/s_user.c'], [('relay decisions', 'ircd/ircd_relay.c: relay_* and server_relay_*'), ('CPRIVMSG', 'ircd/s_user.c: whisper')], TECH,
      NOTE + 'is_silenced, check_target_limit and sline_check_privmsg are taken as given; messages held by the spam filter are judged when they are accepted, not when an operator releases them.')
def b01(prog, rep, tier):
    k = KS(prog)
    hc = [f for f in prog.funcs.values() if f.name == 'has_common_channel']
    if len(hc) != 1: rep.broken('has_common_channel not found')
    inl = relayfuncs(prog)
    def mk(role, cmd):
        def build(g):
            g.noinline = {'has_common_channel'}
            if not cmd.startswith('C'): g.forget = re.compile('.')
            def snd(e):
                if strarg(e.terms[1]) not in TALK or e.args[0] == '&me': return
                q = e.q; X = e.args[0]; Y = e.args[3]
                # echo, or a message back through the link it came from
                if Y == '%s->Client.cli_connect->Connection.con_client' % X: return
                if q.flag(Y, 'FLAG_SERVICE') and q.notme(Y):
                    g.require(e, 'directed only to services', True, '')
                    return
                srcok = q.notuser(X) or q.flag(X, 'FLAG_CHSERV') or q.isoper(X) or q.flag(X, 'FLAG_LOCOP') or q.eq(X, Y)
                g.require(e, 'unauthenticated senders blocked', srcok or q.flag(X, 'FLAG_ACCOUNT') or q.noflag(Y, 'FLAG_BLOCK_UNAUTH_USERS'),
                          'message from an unauthenticated user to %s who may refuse it (+R)' % Y)
                g.require(e, 'silence respected', call0(q, 'is_silenced', X, Y), 'message to %s who may have silenced the sender' % Y)
                svc = q.flag(Y, 'FLAG_CHSERV')
                whisper = cmd in ('CPRIVMSG', 'CNOTICE')
                # nick@server form: the recipient is shown the text the sender gave, not its nickname
                directed = not any(a == Y or a == '&%s->Client.cli_name' % Y for a in e.args[4:])
                if not whisper:
                    if directed:
                        g.require(e, 'directed only to services', svc, 'nick@server message to %s who may not be a service' % Y)
                    else:
                        g.require(e, 'common channel respected', srcok or q.noflag(Y, 'FLAG_COMMONCHANS') or call1(q, 'has_common_channel', X, Y),
                                  'message from an outsider to %s who may require a common channel (+c)' % Y)
                if role != 'server' and not whisper:
                    g.require(e, 'target limit charged', svc or call0(q, 'check_target_limit', X, Y, '0'), 'message to %s not counted against the target limit' % Y)
                    g.require(e, 'spam filter passed', call0(q, 'sline_check_privmsg', X, Y), 'message to %s not run past the spam filter' % Y)
                if whisper:
                    g.require(e, 'voiced member only', any(a[0] == 'eq' and a[3] is False and a[2] == 0 and re.search(r'Membership\.status&%d\)$' % (k.CHFL_CHANOP | k.CHFL_VOICE), a[1]) for a in q.seen),
                              'CPRIVMSG/CNOTICE by a member who may be neither voiced nor opped')
                    co = [a for a in q.seen if a[0] == 'eq' and a[3] is True and re.search(r'Membership\.channel$', '%s' % a[1] if 'Membership.channel' in str(a[1]) else str(a[2]))]
                    g.require(e, 'fellow members only', len(co) >= 2, 'CPRIVMSG/CNOTICE to someone who may not be on the channel')
            g.call('sendcmdto_one', snd)
            g.call('sendcmdto_prio_one', snd)
        rel = [r'cli_status', flagrx(k, *(MODE_USER + EXEMPT)), flagrx(k, 'FLAG_SERVICE'),
               r'^(is_silenced|check_target_limit|sline_check_privmsg|has_common_channel)\(', pol(r'Membership\.status&', NZ),
               lambda at: at[0] == 'eq' and at[3] and isinstance(at[2], str) and ('Membership.channel' in at[2] or 'Membership.channel' in at[1] or at[1] == SELF or at[2] == SELF)]
        run_cmd(prog, rep, cmd, build, roles=('server',) if role == 'server' else ('client', 'oper'), selfconn=role != 'server', relevant=rel, inline=inl, K=6, depth=6)
    for cmd in ('PRIVMSG', 'NOTICE', 'TAGMSG'):
        mk('local', cmd); mk('server', cmd)
    for cmd in ('CPRIVMSG', 'CNOTICE'):
        mk('local', cmd)
    # nobody else relays user text to one recipient
    ok = {f.name for f in prog.funcs.values() if f.mod == 'ircd_relay.c'} | {'whisper', 'sline_release_privmsg', 'sline_release_chanmsg', 'm_wallchops', 'm_wallvoices'}
    for f, ins, c in allcalls(prog, r'(v?sendcmdto_(prio_)?one)$'):
        a = ins[4]
        if len(a) < 4 or cstr(a[1]) not in TALK or isG(a[0], 'me'): continue
        own = owners(prog, f)
        fine = own <= ok or f.mod == 'm_asll.c'
        rep.ob('relaying functions', 'ircd/%s:%s (%s)' % (f.mod, ins[2], f.name), fine, '%s sends %s to one client without being a judged relay function' % (f.name, cstr(a[1])))
    rep.need('relaying functions', 8)
    for r, n in (('unauthenticated senders blocked', 8), ('silence respected', 8), ('common channel respected', 6), ('target limit charged', 5), ('spam filter passed', 5), ('directed only to services', 3),
                 ('voiced member only', 2), ('fellow members only', 2)):
        rep.need(r, n)


# ------------------------------------------------------------------ text scanning loops
class ScanGuard(Guard):
    """Follows loops that walk over a text: which of the watched bytes a completed walk has excluded."""
    WATCH = (1, 3, 27)
    RX = re.compile(r'^(\*[^>]*|[^>]*\])$')

    def ends(self, seen):
        return any(a[0] == 'eq' and a[2] == 0 and a[3] is True and self.RX.match(a[1]) for a in seen)

    def started(self, seen, cur, tags):
        # the walk looked at the very first byte of the text it was given
        if any(a[0] == 'eq' and re.match(r'^\*(?!j#|\(|unk)', a[1]) for a in seen): tags.add(('start', cur))

    def at_head(self, st, f, b, ctx):
        L = '%s:%d' % (f.key, b)
        tags = set(st.tags)
        cur = next((t[1] for t in tags if t[0] == 'cur'), None)
        if cur: self.started(st.seen, cur, tags)
        if cur and self.ends(st.seen): tags.add(('ended', cur))
        for X in {a[1] for a in st.seen if a[0] == 'eq' and a[2] == 0 and a[3] is False and self.RX.match(a[1])}:
            if cur == L:
                for c in self.WATCH:
                    if ('eq', X, c, False) not in st.seen: tags.add(('may', L, c))
        tags = {t for t in tags if t[0] != 'cur'} | {('cur', L)}
        st.tags = frozenset(tags)
        st.seen = frozenset(a for a in st.seen if not self.RX.match(a[1]))
        Guard.at_head(self, st, f, b, ctx)

    def clean(self, e, consts, text=None):
        """some completed walk over the text met none of the bytes"""
        tags = set(e.st.tags)
        cur = next((t[1] for t in tags if t[0] == 'cur'), None)
        if cur: self.started(e.st.seen, cur, tags)
        if cur and self.ends(e.st.seen): tags.add(('ended', cur))
        for t in tags:
            if t[0] == 'ended' and ('start', t[1]) in tags and all(('may', t[1], c) not in tags for c in consts): return True
        # or the library said so
        for a in e.q.seen:
            if a[0] == 'eq' and a[2] == 0 and a[3] is True and isinstance(a[1], str):
                m = re.match(r'strpbrk\(.*,"?(.*?)"?\)$', a[1])
                if m and all(chr(c) in m.group(1) for c in consts): return True
        return all(any(a[0] == 'eq' and a[2] == 0 and a[3] is True and re.match(r'(strchr|index)\(.*,%d\)$' % c, a[1]) for a in e.q.seen) for c in consts)


SKIPPERS = {"sendcmdto_capflag_channel_butserv_butone", "sendcmdto_channel_butserv_butone", "sendcmdto_channel_servers_butone", "sendcmdto_channel_butone"}
CHANTALK = TALK + ('WALLCHOPS', 'WALLVOICES')
CHANSEND = r'sendcmdto_channel_(butone|butserv_butone|servers_butone)$|sendcmdto_capflag_channel_butserv_butone$'


def speakers(prog):
    """functions that pass speech to a channel, with the line of the send"""
    out = {}
    for f, ins, c in allcalls(prog, CHANSEND):
        if len(ins[4]) > 3 and cstr(ins[4][1]) in CHANTALK:
            for o in owners(prog, f): out.setdefault(o, []).append(ins[2])
    return out


# ------------------------------------------------------------------ B02
@prop('B02', 'Channel messages pass the channel\'s speaking rules',
      'A channel receives a message only if the rule for who may speak there admits the sender; from servers, services are also admitted, and never for channels local to a server. '
      'A local user\'s message to a channel closed to outsiders counts against the target limit, passes the operators\' spam filter, and, as PRIVMSG or NOTICE, holds no color codes where '
      'those are refused and no CTCP but ACTION where that is refused.',
      ['inputs', 'configurations', 'histories'], 'every message text and every channel and member state, for PRIVMSG, NOTICE, TAGMSG, WALLCHOPS and WALLVOICES, local and remote',
      'ten copies of the rule, each with own combination of modes; tests sample a few texts',
      ['ircd/ircd_relay.c', 'ircd/m_wallchops.c', 'ircd/m_wallvoices.c', 'ircd/sline.c'], [('channel relays', 'ircd/ircd_relay.c: relay_channel_*, server_relay_channel_*')], TECH,
      LINKNOTE + 'The speaking rule itself is C07; the text scans are recognised as byte walks to the terminating NUL, strchr or strpbrk. ')
def b02(prog, rep, tier):
    k = KS(prog)
    sp = speakers(prog)
    if len(sp) < 8: rep.broken('channel relays not found: %s' % sorted(sp))
    for fn in sorted(sp):
        local = bool(re.match(r'mo?_|relay_channel_', fn)); remote = bool(re.match(r'ms_|server_relay_', fn)); held = fn.startswith('sline_release')
        rep.ob('channel relays are known', fn, local or remote or held, '%s passes speech to a channel without being a judged relay' % fn)
        if not (local or remote or held): continue
        f = prog.fn(fn)
        g = ScanGuard(prog, rep, relevant=[pol(r'^\(?(client_can_send_to_channel|check_target_limit|sline_check_chanmsg|strpbrk|strchr|index)\(', Z, NZ), pol(r'Mode\.mode&', Z),
                                           pol(flagrx(k, 'FLAG_CHSERV'), NZ), lambda at: at[0] == 'eq' and isinstance(at[2], int) and bool(ScanGuard.RX.match(at[1])) and at[2] in (0, 1, 3, 27),
                                           lambda at: at[0] == 'eq' and at[3] is False and at[2] == ord('&'), r'ncmp\(.*ACTION '], K=6)
        def snd(e):
            cmd = strarg(e.terms[1])
            if cmd not in CHANTALK: return
            q = e.q; X = e.args[0]; C = e.args[3]
            can = call1(q, 'client_can_send_to_channel', X, C)
            if remote:
                g.require(e, 'may speak', can or q.flag(X, 'FLAG_CHSERV'), '%s relays speech of a user who may not speak in %s' % (fn, C))
                loc = any(a[0] == 'eq' and a[3] is False and a[2] == ord('&') and (a[1].startswith('*$') or a[1].startswith(C)) for a in q.seen)
                if cmd in TALK: g.require(e, 'local channels take nothing from servers', loc, '%s may deliver to a channel local to this server' % fn)
                return
            g.require(e, 'may speak', can, '%s relays speech of a user who may not speak in %s' % (fn, C))
            if held: return
            mode = C + '->Channel.mode.Mode.mode'
            g.require(e, 'target limit charged', isclr(q, mode, k.MODE_NOPRIVMSGS) or call0(q, 'check_target_limit', X, '0', C), '%s relays without the target limit' % fn)
            g.require(e, 'spam filter passed', call0(q, 'sline_check_chanmsg', X, C), '%s relays without the spam filter' % fn)
            if cmd in ('PRIVMSG', 'NOTICE'):
                g.require(e, 'colors refused', isclr(q, mode, k.MODE_NOCOLOR) or g.clean(e, (3, 27)), '%s may relay color codes into a channel that refuses them' % fn)
                act = any(a[0] == 'eq' and a[2] == 0 and a[3] is True and 'ACTION ' in a[1] for a in q.seen)
                g.require(e, 'CTCP refused', isclr(q, mode, k.MODE_NOCTCP) or act or g.clean(e, (1,)), '%s may relay CTCP into a channel that refuses it' % fn)
            nm = {'WALLCHOPS': 'SKIP_NONOPS', 'WALLVOICES': 'SKIP_NONVOICES'}.get(cmd)
            if nm:
                m = prog.macro('send.c', nm)
                g.require(e, 'restricted audience', not isT(e.terms[5]) and e.terms[5] & m, '%s sent to more than its audience' % cmd)
        g.rx.append((re.compile(CHANSEND), snd))
        g.entryrun(fn)
    # the weaker server rules are for servers
    for f, ins, c in allcalls(prog, r'server_relay_'):
        for o in owners(prog, f):
            hs = {r for m in msgtab(prog) for i, r in enumerate(ROLES) if m.h[i] == o}
            rep.ob('server relays only for servers', o, hs == {'server'} or o.startswith('server_relay_'), '%s is reachable for %s but uses the relay rules for servers' % (o, sorted(hs)))
    rep.need('server relays only for servers', 3)
    for r, n in (('may speak', 9), ('local channels take nothing from servers', 3), ('target limit charged', 5), ('spam filter passed', 5), ('colors refused', 2), ('CTCP refused', 2), ('restricted audience', 2)):
        rep.need(r, n)


# ------------------------------------------------------------------ B03
@prop('B03', 'Parting words obey the channel\'s speaking rules',
      'The comment of a local user\'s PART reaches a channel only if the user may speak there, it holds no color codes where those are refused, comments are not refused, no spam filter '
      'matches it, and the user is not still paying for joining. A QUIT comment is shown only if no channel where the user is visible forbids it speech or comments, with the same filter and limit.',
      ['inputs', 'histories'], 'every PART and QUIT line from a local user in every set of channels',
      'parting comments are a bypass for muted users that tests visit once', ['ircd/m_part.c', 'ircd/m_quit.c', 'ircd/channel.c'],
      [('PART', 'ircd/m_part.c: m_part'), ('QUIT', 'ircd/m_quit.c: m_quit'), ('delivery', 'ircd/channel.c: joinbuf_join')], TECH, LINKNOTE)
def b03(prog, rep, tier):
    k = KS(prog)
    f = prog.fn('m_part')
    g = ScanGuard(prog, rep, relevant=[pol(r'^\(?(member_can_send_to_channel|client_can_send_to_channel)\(', NZ), pol(r'^(check_target_limit|sline_check_pattern_bool)\(', Z), pol(r'Mode\.mode&', Z),
                                       pol(r'Membership\.status&', Z), pol(r'jb_comment$', Z),
                                       lambda at: at[0] == 'eq' and isinstance(at[2], int) and bool(ScanGuard.RX.match(at[1])) and at[2] in (0, 1, 3, 27)], K=8, pure=('find_member_link',))
    def part(e):
        q = e.q; C = e.args[1]
        if surely_set(g, e.st, e.terms[2], k.CHFL_BANNED): return
        L = link(C, SELF)
        nocom = any(a[0] == 'eq' and a[2] == 0 and a[3] is True and a[1].endswith('jb_comment') for a in q.seen)
        mode = C + '->Channel.mode.Mode.mode'
        mode2 = L + '->Membership.channel->Channel.mode.Mode.mode'
        def clr(m): return isclr(q, mode, m) or isclr(q, mode2, m)
        g.require(e, 'PART comment: may speak', call1(q, 'member_can_send_to_channel', L) or call1(q, 'client_can_send_to_channel', SELF, C), 'PART comment shown though the user may not speak')
        g.require(e, 'PART comment: comments accepted', clr(k.MODE_NOPARTMSGS), 'PART comment shown where comments are refused')
        g.require(e, 'PART comment: colors refused', clr(k.MODE_NOCOLOR) or nocom or g.clean(e, (3, 27)), 'PART comment may show color codes where they are refused')
        g.require(e, 'PART comment: spam filter', call0(q, 'sline_check_pattern_bool', SELF), 'PART comment not run past the spam filter')
        g.require(e, 'PART comment: target limit', isclr(q, L + '->Membership.status', k.CHFL_DELAYED_TARGET) or call0(q, 'check_target_limit', SELF, '0', C), 'PART comment escapes the target limit')
    g.call('joinbuf_join', part)
    g.entryrun('m_part', args=selfargs())
    # a banned parter's comment is not delivered
    g = Guard(prog, rep, relevant=[r'\(\$2&', r'jb_comment'], K=6)
    def pj(e):
        if strarg(e.terms[1]) != 'PART': return
        if surely_clear(g, e.st, T('arg', 2), k.CHFL_BANNED): return
        fi = next((i for i, t in enumerate(e.terms) if i >= 3 and strarg(t) is not None and '%' in strarg(t)), None)
        rest = e.terms[fi + 2:] if fi else e.terms[4:]
        g.require(e, 'barred comments dropped', all(not isT(t) and t == 0 for t in rest), 'PART with a comment though the comment is barred')
    g.rx.append((re.compile(r'sendcmdto_'), pj))
    g.entryrun('joinbuf_join')
    # QUIT
    class QG(Guard):
        def at_head(self, st, f, b, ctx):
            q = Q(self, st)
            vis = False
            for M in {m.group(1) for a in st.seen for m in [re.match(r'\((.*)->Membership\.status&\d+\)$', a[1]) or re.match(r'member_can_send_to_channel\((.*),', a[1])] if m}:
                s = M + '->Membership.status'
                ok = isset(q, s, k.CHFL_ZOMBIE) or isset(q, s, k.CHFL_DELAYED) or \
                    (call1(q, 'member_can_send_to_channel', M) and isclr(q, M + '->Membership.channel->Channel.mode.Mode.mode', k.MODE_NOPARTMSGS))
                if not ok: st.tags = st.tags | {'unchecked'}
                elif not isset(q, s, k.CHFL_ZOMBIE) and not isset(q, s, k.CHFL_DELAYED) and not call0(q, 'sline_check_pattern_bool', SELF): st.tags = st.tags | {'unfiltered'}
            st.seen = frozenset(a for a in st.seen if not re.search(r'Membership|member_can_send', a[1]))
    g = QG(prog, rep, relevant=[pol(r'^\(?member_can_send_to_channel\(', NZ), pol(r'^sline_check_pattern_bool\(', Z, NZ), r'Membership\.status&', pol(r'Mode\.mode&', Z), pol(r'cli_user$', Z), r'con_nexttarget'],
           K=8)
    def quit_(e):
        q = e.q
        if e.callee == 'exit_client' and strarg(e.terms[3]) is not None: return
        g.require(e, 'QUIT comment: may speak in every channel', 'unchecked' not in e.st.tags, 'QUIT comment shown though a channel of the user may forbid it')
        g.require(e, 'QUIT comment: spam filter', 'unfiltered' not in e.st.tags, 'QUIT comment shown in a channel without the spam filter')
    g.call(['exit_client', 'exit_client_msg', 'vexit_client_msg'], quit_)
    g.entryrun('m_quit', args=selfargs())
    for r, n in (('PART comment: may speak', 1), ('PART comment: colors refused', 1), ('barred comments dropped', 1), ('QUIT comment: may speak in every channel', 1), ('QUIT comment: spam filter', 1)):
        rep.need(r, n)


# ------------------------------------------------------------------ B04
@prop('B04', 'Only operators address everyone',
      'A local user can send a message to all users matching a mask, a message to all users who receive wallops, or a message to operators by WALLOPS only as an operator; '
      'mask messages from other servers are delivered only if an operator or server sent them.',
      ['inputs', 'configurations'], 'every command line of every local client and every relayed mask message',
      'a broadcast available to users is a denial of service against the whole network', ['ircd/m_privmsg.c', 'ircd/m_notice.c', 'ircd/m_wallops.c', 'ircd/m_wallusers.c', 'ircd/ircd_relay.c'],
      [('mask messages', 'relay_masked_*'), ('WALLOPS and WALLUSERS', 'mo_wallops, mo_wallusers')], TECH, NOTE + 'Which handlers run for whom is read from the dispatch table.')
def b04(prog, rep, tier):
    k = KS(prog)
    inl = relayfuncs(prog)
    MASS = r'(sendcmdto_match_butone|sendwallto_group_butone)$'
    # every function that can reach a mass send directly, and the handlers it serves
    own = set()
    relays = set()
    for f, ins, c in allcalls(prog, MASS):
        if isG(ins[4][0], 'me') or isG(ins[4][0], 'his'): continue
        own |= owners(prog, f)
    work = list(own); hs = set()
    seen = set()
    allh = all_handlers(prog, ROLES)
    while work:
        x = work.pop()
        if x in seen: continue
        seen.add(x)
        if x in allh: hs.add(x); continue
        for f, ins, c in allcalls(prog, re.escape(x) + '$'):
            work += list(owners(prog, f))
    if len(hs) < 8: rep.broken('mass messages not found (%s)' % sorted(hs))
    for h in sorted(hs):
        rs = {r for c, r in allh[h]}
        g = Guard(prog, rep, relevant=[pol(flagrx(k, 'FLAG_OPER', 'FLAG_LOCOP'), NZ), r'cli_status'],
                  inline=(own | seen) - {h}, K=6, depth=6)
        g.noinline = {'has_common_channel', 'sendcmdto_match_butone', 'sendwallto_group_butone'}
        def ms(e):
            q = e.q; X = e.args[0]
            if X in ('&me', '&his'): return
            usr = rs & {'unreg', 'client'}
            ok = not usr or q.flag(X, 'FLAG_OPER') or q.flag(X, 'FLAG_LOCOP')
            g.require(e, 'mass messages only by operators', ok, 'mass message reachable for ordinary users (%s)' % h)
            if e.callee == 'sendcmdto_match_butone' and rs & {'server'}:
                g.require(e, 'relayed mask messages only by operators', q.flag(X, 'FLAG_OPER') or q.notuser(X) or q.isserver(X), 'mask message of an ordinary remote user delivered')
        g.rx.append((re.compile(MASS), ms))
        g.entryrun(h, args=selfargs() if not rs & {'server'} else None)
    rep.need('mass messages only by operators', 5)
    rep.need('relayed mask messages only by operators', 2)


class NestGuard(Guard):
    """An outer loop forgets everything said about the items walked, an inner one keeps what was learnt about the outer item."""
    def at_head(self, st, f, b, ctx):
        inner = any(b in body and h != b for h, body in f.loops.items())
        st.tags = frozenset(t for t in st.tags if t[0] != 'mark')
        rx = re.compile(r'Membership\.user|sentalong' if inner else r'Membership|sentalong|Client\.cli')
        st.seen = frozenset(a for a in st.seen if not rx.search(a[1]) and not (isinstance(a[2], str) and rx.search(a[2])))


# ------------------------------------------------------------------ B05
@prop('B05', 'A broadcast reaches exactly its audience, each connection once',
      'Channel sends skip members already kicked out, deaf users where asked, and members without the channel status asked for; sends to all who share a channel use only channels where the '
      'subject is a visible member. Connections other than the excluded one that were already served in the same broadcast are skipped, every served one is marked, and the mark is renewed '
      'for each broadcast. Local users get the client form of the line and other servers the server form.',
      ['inputs', 'histories', 'configurations'], 'every channel membership and every combination of skip options',
      'membership flags and options multiply; duplicates show only with several members behind one link', ['ircd/send.c'],
      [('recipient loops', 'ircd/send.c: sendcmdto_*')], TECH, NOTE)
def b05(prog, rep, tier):
    k = KS(prog)
    SK = {n: prog.macro('send.c', n) for n in ('SKIP_DEAF', 'SKIP_NONOPS', 'SKIP_NONVOICES')}
    fns = sorted({o for f, ins, c in allcalls(prog, r'send_buffer$') for o in owners(prog, f)})
    n = 0
    for fn in fns:
        f = prog.fn(fn)
        if f.mod != 'send.c' or fn in ('send_buffer',): continue
        g = NestGuard(prog, rep, relevant=[pol(r'Membership\.status&', Z, NZ), pol(r'\(\$\d+&', Z), pol(flagrx(k, 'FLAG_DEAF'), Z), r'con_sentalong', r'con_client', r'cli_status'], K=6)
        g.noinline = {'send_buffer', 'bump_sentalong'}
        def bump(e): e.st.tags = e.st.tags | {'bumped'}
        g.call('bump_sentalong', bump)
        def mark(e):
            to = S(e.terms[0]).split('->Client.cli_connect')[0].lstrip('&')
            X = to + '->Client.cli_connect->Connection.con_sentalong'
            pre = any(a[0] == 'eq' and a[3] is False and X in (a[1], a[2]) and 'sentalong_marker' in '%s %s' % (a[1], a[2]) for a in e.q.seen)
            if pre and 'sentalong_marker' in S(e.terms[1]): e.st.tags = e.st.tags | {('mark', to)}
        g.stores['Connection.con_sentalong'] = mark
        marks = 'g:sentalong_marker'
        def buf(e):
            nonlocal n
            q = e.q; to = e.args[0]
            m = re.match(r'(.*)->Membership\.user$', to)
            uses = any('sentalong_marker' in a[1] or 'sentalong_marker' in str(a[2]) for a in q.seen) or 'bumped' in e.st.tags
            if m:
                M = m.group(1); s = M + '->Membership.status'
                g.require(e, 'no line for kicked members', isclr(q, s, k.CHFL_ZOMBIE) or q.mycon(to), '%s serves a member that may be a zombie' % fn)
                if fn in SKIPPERS:
                    def off(nm): return any(a[0] == 'eq' and a[2] == 0 and a[3] is True and re.match(r'\(\$\d+&%d\)$' % SK[nm], a[1]) for a in q.seen)
                    if fn != 'sendcmdto_channel_servers_butone':
                        g.require(e, 'deaf members skipped', off('SKIP_DEAF') or q.noflag(to, 'FLAG_DEAF'), '%s may serve a deaf member' % fn)
                    op = isset(q, s, k.CHFL_CHANOP); vo = isset(q, s, k.CHFL_VOICE)
                    g.require(e, 'operators-only lines stay with operators', off('SKIP_NONOPS') or op, '%s may serve a member who is not an operator' % fn)
                    g.require(e, 'voiced-only lines stay with voiced members', off('SKIP_NONVOICES') or op or vo, '%s may serve a member who is neither' % fn)
                if fn.endswith('common_channels_butone'):
                    ok = any(a[0] == 'eq' and a[1].endswith('->Membership.status&%d)' % k.CHFL_ZOMBIE) and a[2] == 0 and a[3] is True and
                             ('eq', a[1].replace('&%d)' % k.CHFL_ZOMBIE, '&%d)' % k.CHFL_DELAYED), 0, True) in q.seen for a in q.seen)
                    g.require(e, 'only channels where the subject is visible', ok, '%s tells members of a channel where the subject may be hidden' % fn)
            if uses:
                own = to == '$0'
                g.require(e, 'each connection once', own or ('mark', to) in e.st.tags, '%s may serve a connection twice' % fn)
                g.require(e, 'marks renewed', 'bumped' in e.st.tags, '%s does not start a new broadcast' % fn)
            n += 1
            # form of the line
            b = e.terms[2]
            cs = [b]
            if isT(b) and b.k == 'call' and str(b.a[1]) in ('msgq_make', 'msgq_vmake'):
                client = not isT(b.a[2]) and b.a[2] == 0
                if client:
                    ok = q.mycon(to) or q.eq(q.connx(to), to) or fn in ('sendcmdto_common_channels_butone', 'sendwallto_group_butone', 'vsendto_opmask_butone')
                    g.require(e, 'client form for clients', ok, '%s sends the client form to %s which may be a server link' % (fn, to))
                else:
                    ok = q.notmycon(to) or 'serv' in fn.lower() or re.search(r'->DLink\.value|Serv|down', to) or S(b.a[2]) == to or S(b.a[2]).startswith('$')
                    g.require(e, 'server form for servers', bool(ok), '%s sends the server form to %s which may be a local user' % (fn, to))
        g.call('send_buffer', buf)
        g.entryrun(fn)
    rep.need('no line for kicked members', 5)
    rep.need('each connection once', 5)
    rep.need('only channels where the subject is visible', 2)


# ------------------------------------------------------------------ B06
def evalop(f, o, env, hi, depth=0):
    """integer value of an operand given the loop variable and HighestFd, or None"""
    if isinstance(o, int): return o
    if not isinstance(o, list) or depth > 8: return None
    if o[0] == 'v':
        if o[1] in env: return env[o[1]]
        d = f.defs.get(o[1])
        if d is None: return None
        if d[0] == 'cast': return evalop(f, d[4], env, hi, depth + 1)
        if d[0] == 'load': return hi if isG(d[3], 'HighestFd') else None
        if d[0] == 'bin':
            a = evalop(f, d[4], env, hi, depth + 1); b = evalop(f, d[5], env, hi, depth + 1)
            if a is None or b is None: return None
            return {'add': a + b, 'sub': a - b}.get(d[3])
        if d[0] == 'icmp':
            a = evalop(f, d[4], env, hi, depth + 1); b = evalop(f, d[5], env, hi, depth + 1)
            if a is None or b is None: return None
            return int({'eq': a == b, 'ne': a != b, 'slt': a < b, 'sle': a <= b, 'sgt': a > b, 'sge': a >= b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b}[d[3]])
    return None


def tablewalks(prog, table, bound):
    """(function, line, visited slots or None) of the loops that index the table by their loop variable"""
    prog.modsets()
    for f in prog.funcs.values():
        if not any(table in repr(ins) for b in f.blocks for ins in b): continue
        prog.cfg(f)
        for h, body in f.loops.items():
            hit = None
            for b in body:
                for ins in f.blocks[b]:
                    if ins[0] == 'gep' and isG(ins[3], table): hit = ins
            if not hit: continue
            phis = [i for i in f.blocks[h] if i[0] == 'phi']
            for P in phis:
                init = [v for pb, v in P[3] if pb not in body]; nxt = [v for pb, v in P[3] if pb in body]
                if len(init) != 1 or not nxt: continue
                i0 = evalop(f, init[0], {}, 5)
                if i0 is None: continue
                x = i0; visited = []
                known = False
                for _ in range(20):
                    env = {P[1]: x}
                    out = False
                    for b in body:
                        br = f.blocks[b][-1]
                        if br[0] != 'br': continue
                        c = evalop(f, br[3], env, 5)
                        if c is None: continue
                        tgt = br[4] if c else br[5]
                        if (br[4] in body) != (br[5] in body):
                            known = True
                            if tgt not in body: out = True
                    if out: break
                    visited.append(x)
                    n = evalop(f, nxt[0], env, 5)
                    if n is None: known = False; break
                    x = n
                if known: yield f, hit[2], visited


@prop('B06', 'Walks over the local connections leave none out',
      'Every walk over the table of local connections (capability announcements, keepalive checks, G-line and configuration enforcement, operator broadcasts, shutdown notices, statistics, '
      'loop checks for new servers, and the reset of broadcast marks) visits every slot in use, up to and including the highest.',
      ['inputs', 'histories'], 'every number of connections, including the one that holds the highest descriptor',
      'the client skipped by an off-by-one bound is the last to connect, which tests with one client and a server rarely are',
      ['ircd/m_cap.c', 'ircd/send.c', 'ircd/ircd.c', 'ircd/gline.c', 'ircd/s_conf.c'], [('loop bounds', 'every loop indexing LocalClientArray')],
      'loop-bound evaluation on LLVM IR: the header and step expressions of each loop over the connection table are evaluated for a symbolic small table and the set of visited slots compared with the table',
      'Covers loops whose control depends on the loop variable, constants and HighestFd; the descriptor 0 slot may be skipped (standard input). Early exits on other conditions are searches and not judged.')
def b06(prog, rep, tier):
    n = 0
    seen = set()
    for f, l, v in tablewalks(prog, 'LocalClientArray', 'HighestFd'):
        n += 1; seen.add((f.key, l))
        rep.functions.add(f.key)
        rep.ob('walk covers the table', 'ircd/%s:%s (%s)' % (f.mod, l, f.name), {1, 2, 3, 4, 5} <= set(v), '%s walks the connection table but leaves out slots (of 0..5 it visits %s)' % (f.name, sorted(set(v))[:8]))
    rep.need('walk covers the table', 15)
