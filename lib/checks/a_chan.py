"""C: authority inside channels."""
import itertools
from checks.common import *
from checks.a_auth import TECH, NOTE, SELF, owners, const_stores

LINKNOTE = NOTE + 'The membership lookup find_member_link is taken as a function of its two arguments within one handler. '


def wholearg(e, fmtpos=None):
    """arguments after the format string of a send"""
    for i, t in enumerate(e.terms):
        s = strarg(t)
        if s is not None and '%' in s and i >= 3:
            return i, e.args[i + 1:]
    return None, []


# ------------------------------------------------------------------ C01
@prop('C01', 'KICK removes only members the kicker outranks',
      'A local user can make another user leave a channel with KICK only while being an operator of that channel who has not itself been kicked from it. '
      'The victim is a current member, is not a channel service, is not protected by the local-channel operator privilege on a local channel, and has a strictly weaker op level '
      '(or both have the weakest level).',
      ['inputs', 'configurations', 'histories'], 'every KICK line, kicker and victim status, op level, privilege and channel type',
      'op levels, zombies, services and local channels combine in ways no test enumerates', ['ircd/m_kick.c', 'ircd/channel.c'],
      [('permission tests', 'ircd/m_kick.c: m_kick')], TECH, LINKNOTE)
def c01(prog, rep, tier):
    k = KS(prog)
    ML = prog.macro_or('channel.h', 'MAXOPLEVEL', None) if hasattr(prog, 'macro_or') else k.MAXOPLEVEL
    def build(g):
        def judge(e, C, v):
            q = e.q
            g.require(e, 'kicker is channel operator', chanop(q, C, SELF), 'KICK from %s by a user who may not be an operator of it' % C)
            g.require(e, 'victim is a member', member(q, C, v), 'KICK of %s who may not be a member' % v)
            g.require(e, 'services are spared', q.noflag(v, 'FLAG_CHSERV'), 'KICK of a channel service')
            loc = q.ne(C + '->Channel.chname[0]', ord('&'))
            g.require(e, 'protected operators are spared', loc or q.nopriv(v, 'PRIV_DEOP_LCHAN'), 'KICK of a protected operator on a local channel')
            a, b = link(C, SELF) + '->Membership.oplevel', link(C, v) + '->Membership.oplevel'
            ok = order_holds(q, a, b, lambda x, y: y > x or (x == y and y >= ML), (ML,))
            g.require(e, 'op level respected', ok, 'KICK of a member with an equal or stronger op level')
        g.call('make_zombie', lambda e: judge(e, e.args[4], e.args[1]))
        g.call('remove_user_from_channel', lambda e: judge(e, e.args[1], e.args[0]))
        def snd(e):
            if strarg(e.terms[1]) == 'KICK':
                i, a = wholearg(e)
                if len(a) >= 2: judge(e, a[0], a[1])
        g.rx.append((re.compile(r'sendcmdto_'), snd))
    run_cmd(prog, rep, 'KICK', build, relevant=[r'Membership\.(status|oplevel)', flagrx(k, 'FLAG_CHSERV'), privrx(k, 'PRIV_DEOP_LCHAN'), r'chname\[0\]', r'find_member_link\([^>]*$'],
            inline=PREDS, pure=('find_member_link',), K=12)
    for r in ('kicker is channel operator', 'victim is a member', 'services are spared', 'protected operators are spared', 'op level respected'):
        rep.need(r, 3)


# ------------------------------------------------------------------ C02
@prop('C02', 'Topic changes obey channel rules and secret topics stay inside',
      'A local user changes the topic of a channel only as a member allowed to speak there, and as a channel operator if topic changes are restricted. '
      'The topic of a secret channel is disclosed by TOPIC only to members.',
      ['inputs', 'histories'], 'every TOPIC line, channel mode and member status',
      'tests cover one restricted channel', ['ircd/m_topic.c'], [('permission tests', 'ircd/m_topic.c: m_topic')], TECH, LINKNOTE)
def c02(prog, rep, tier):
    k = KS(prog)
    def build(g):
        def judge(e, C):
            q = e.q
            g.require(e, 'topic setter is a member', member(q, C, SELF), 'topic of %s changed by a user who may not be a member' % C)
            ok = isclr(q, C + '->Channel.mode.Mode.mode', k.MODE_TOPICLIMIT) or chanop(q, C, SELF)
            g.require(e, 'restricted topic needs an operator', ok, 'restricted topic of %s changed by a non-operator' % C)
            ok = any(a[0] == 'eq' and a[2] == 0 and a[3] is False and a[1].startswith('client_can_send_to_channel(%s,%s' % (SELF, C)) for a in q.seen) or \
                any(a[0] == 'eq' and a[2] == 0 and a[3] is False and a[1].startswith('member_can_send_to_channel(%s' % link(C, SELF)) for a in q.seen)
            g.require(e, 'topic setter may speak', ok, 'topic of %s changed by a user who may not speak there' % C)
        def cp(e):
            m = re.match(r'&(.*)->Channel\.topic\[', e.args[0]) or re.match(r'&(.*)->Channel\.topic$', e.args[0])
            if m: judge(e, m.group(1))
        g.rx.append((re.compile(r'(ircd_)?str(n|l)?cpy|mem(cpy|move)|ircd_snprintf'), cp))
        def stt(e):
            m = re.match(r'&(.*)->Channel\.topic', e.args[0])
            if m: judge(e, m.group(1))
        for x in ('topic', 'topic_time', 'topic_nick'): g.stores['Channel.' + x] = stt
        def rd(e):
            for a in e.args[2:]:
                m = re.search(r'(.*)->Channel\.topic', a.lstrip('&'))
                if m: C = m.group(1); break
            else:
                if e.terms[1] != k.RPL_NOTOPIC: return
                C = re.match(r'&?(.*?)->Channel\.chname', e.args[2]).group(1)
            q = e.q
            ok = isclr(q, C + '->Channel.mode.Mode.mode', k.MODE_SECRET) or member(q, C, SELF)
            g.require(e, 'secret topic only for members', ok, 'topic of secret channel %s shown to a non-member' % C)
        g.call('send_reply', rd)
    run_cmd(prog, rep, 'TOPIC', build, relevant=[r'Membership\.status', r'Mode\.mode&', r'^find_member_link\([^>]*$', r'_can_send_to_channel'], inline=PREDS, pure=('find_member_link',), K=6)
    for r in ('topic setter is a member', 'restricted topic needs an operator', 'topic setter may speak', 'secret topic only for members'):
        rep.need(r, 2)


# ------------------------------------------------------------------ C03
@prop('C03', 'Invitations come only from channel operators to reachable outsiders',
      'A local user delivers an invitation only as an operator of the channel, to a user who is not a member, who has not silenced the sender, and who does not refuse contact '
      'from unauthenticated users; it counts against the sender\'s target limit. Invitations that let a user past the channel\'s entry restrictions are recorded only by INVITE.',
      ['inputs', 'configurations'], 'every INVITE line and every state of sender, target and channel',
      'combinations of silence lists, privacy modes and membership are not enumerated by tests', ['ircd/m_invite.c'], [('permission tests', 'ircd/m_invite.c: m_invite')],
      TECH, LINKNOTE)
def c03(prog, rep, tier):
    k = KS(prog)
    def build(g):
        def judge(e, C, v):
            q = e.q
            g.require(e, 'inviter is channel operator', chanop(q, C, SELF), 'INVITE to %s by a user who may not be an operator of it' % C)
            L = link(C, v)
            ok = q.z(L) or isset(q, L + '->Membership.status', k.CHFL_ZOMBIE)
            g.require(e, 'invitee is not a member', ok, 'INVITE of someone who may be a member already')
            for fn, rule in (('is_silenced', 'silence respected'), ('should_block_unauth_user', 'unauthenticated senders blocked'), ('check_target_limit', 'target limit charged')):
                ok = any(a[0] == 'eq' and a[2] == 0 and a[3] is True and a[1].startswith('%s(%s,%s' % (fn, SELF, v)) for a in q.seen)
                g.require(e, rule, ok, 'INVITE delivered without the check %s' % fn)
        g.call('add_invite', lambda e: judge(e, e.args[1], e.args[0]))
        def snd(e):
            if strarg(e.terms[1]) == 'INVITE' and e.callee == 'sendcmdto_one':
                i, a = wholearg(e)
                if len(a) >= 2: judge(e, a[1], e.args[3])
        g.rx.append((re.compile(r'sendcmdto_'), snd))
    run_cmd(prog, rep, 'INVITE', build, relevant=[r'Membership\.status', r'^find_member_link\([^>]*$', r'^(is_silenced|should_block_unauth_user|check_target_limit)'], inline=PREDS,
            pure=('find_member_link',), K=8)
    for r in ('inviter is channel operator', 'invitee is not a member', 'silence respected', 'unauthenticated senders blocked', 'target limit charged'):
        rep.need(r, 2)
    n = 0
    for f in prog.funcs.values():
        if 'add_invite' in prog.callees.get(f.key, ()):
            n += 1
            ow = owners(prog, f)
            rep.ob('invitations recorded only by INVITE', f.name, ow <= {'m_invite', 'ms_invite'}, '%s records invitations' % sorted(ow))
    if not n: rep.broken('no caller of add_invite')


# ------------------------------------------------------------------ C04
@prop('C04', 'JOIN admits only those the channel lets in',
      'A local user enters an existing channel only with a matching admin or user password, an invitation, local-channel override privilege, when the channel is abandoned and has no '
      'admin password, or when no entry restriction (invite only, limit, login, ban, key, TLS) keeps it out; channel bans by operators of the network and the per-user channel limit '
      'apply to every join except for those exempt. It enters with operator status only by password, abandonment or creation, and as channel manager only by admin password or creation. '
      'Entering marks the user as a member through these join paths only.',
      ['inputs', 'configurations', 'histories'], 'every JOIN line (any number of channels and keys) against every channel state',
      'the admission rule has ten interacting conditions and per-channel keys; tests cover single restrictions one at a time',
      ['ircd/m_join.c', 'ircd/channel.c'], [('admission', 'ircd/m_join.c: m_join')], TECH, LINKNOTE + 'find_ban and IsInvited are taken as given.')
def c04(prog, rep, tier):
    k = KS(prog)
    MODE = '->Channel.mode.Mode.'
    OPS = k.CHFL_CHANOP | k.CHFL_CHANNEL_MANAGER | k.CHFL_VOICE
    # 1. entry restrictions and status
    rel = [pol(r'^IsInvited', NZ), pol(r'^\(.*Mode\.mode&', Z), pol(r'Mode\.limit$', Z), pred(r'(Channel\.users.*Mode\.limit|Mode\.limit.*Channel\.users)', ('ult', 'ule', 'slt', 'sle')),
           pol(r'Channel\.users$', Z), pol(r'^find_ban', Z), pol(r'^strcmp\((?!&.*OVERRIDE)', Z), pol(flagrx(k, 'FLAG_ACCOUNT', 'FLAG_TLS'), NZ), pol(privrx(k, 'PRIV_WALK_LCHAN'), NZ),
           pol(r'Mode\.(key|apass|upass)\[0\]$', Z, NZ), pol(r'chname\[0\]$', ('eq', 38, True)), pol(r'^\*(\$3\[2\]|j#\d+)$', NZ)]
    def build(g):
        g.forget = re.compile('.')
        g.noinline = {'last0'}
        def strcmp_ok(q, C, field):
            F = '&' + C + MODE + field
            for (p, a, b, t) in q.seen:
                if p == 'eq' and b == 0 and t and a.startswith('strcmp(') and (F in a):
                    x = a[7:-1]
                    x = x.replace(F + '[0]', '').replace(F, '').strip(',')
                    if x == '"OVERRIDE"': continue
                    if field == 'key' or q.nz('*' + x) or q.nz(x + '[0]') or q.nz(C + MODE + field + '[0]'):
                        return True
            return False
        def j(e):
            J, C, fl = e.args[0], e.args[1], e.terms[2]
            if C.startswith('get_channel('):
                g.require(e, 'creator', True, ''); return
            q = e.q
            ap = strcmp_ok(q, C, 'apass'); up = strcmp_ok(q, C, 'upass')
            zan = q.z(C + '->Channel.users') and q.z(C + MODE + 'apass[0]')
            m = C + MODE + 'mode'
            def nor():
                lim = q.z(C + MODE + 'limit') or any(t is True and p in ('ult', 'slt') and a == C + '->Channel.users' and b == C + MODE + 'limit' or
                                                     t is False and p in ('ule', 'sle') and b == C + '->Channel.users' and a == C + MODE + 'limit' for p, a, b, t in q.seen)
                return [n for n, ok in (
                    ('invite only', isclr(q, m, k.MODE_INVITEONLY)), ('limit', lim),
                    ('login required', isclr(q, m, k.MODE_REGONLY) or q.flag(SELF, 'FLAG_ACCOUNT')),
                    ('ban', any(p == 'eq' and b == 0 and t and a.startswith('find_ban(%s,%s->' % (SELF, C)) for p, a, b, t in q.seen)),
                    ('key', q.z(C + MODE + 'key[0]') or strcmp_ok(q, C, 'key')),
                    ('TLS required', isclr(q, m, k.MODE_TLSONLY) or q.flag(SELF, 'FLAG_TLS'))) if not ok]
            over = q.eq(C + '->Channel.chname[0]', ord('&')) and q.priv(SELF, 'PRIV_WALK_LCHAN') and any(p == 'eq' and b == 0 and t and a.startswith('strcmp(') and '"OVERRIDE"' in a for p, a, b, t in q.seen)
            inv = any(p == 'eq' and b == 0 and not t and a.startswith('IsInvited(%s,%s)' % (SELF, C)) for p, a, b, t in q.seen)
            miss = [] if (ap or up or zan or inv or over) else nor()
            g.require(e, 'entry restrictions', not miss, 'JOIN admits a user although these may keep it out: %s' % ', '.join(miss))
            g.require(e, 'operator status on entry', ap or up or zan or surely_clear(g, e.st, fl, k.CHFL_CHANOP | k.CHFL_VOICE), 'JOIN gives operator status without password')
            g.require(e, 'manager status on entry', ap or surely_clear(g, e.st, fl, k.CHFL_CHANNEL_MANAGER), 'JOIN gives channel manager status without the admin password')
        g.call('joinbuf_join', j)
        def cmp_(e):
            m = [re.match(r'&(.*)->Channel\.mode\.Mode\.(apass|upass)\[0\]$', a) for a in e.args[:2]]
            if not any(m): return
            F = next(x for x in m if x).group(0)[1:]
            key = e.terms[0] if m[1] else e.terms[1]
            if strarg(key) is not None: return
            ok = e.q.nz(F) or e.q.nz('*' + S(key)) or e.q.nz(S(key) + '[0]')
            g.require(e, 'an empty key matches no password', ok, 'an empty key is compared with a password that may be unset')
        g.call('strcmp', cmp_)
        def cut(e):
            # a byte of some string is overwritten: what was read from strings before no longer counts
            if isT(e.terms[0]) and e.terms[0].k == 'al': return     # a plain local variable
            e.st.seen = frozenset(a for a in e.st.seen if not a[1].startswith('*'))
        g.stores[None] = cut
    rep.need('an empty key matches no password', 1)
    run_cmd(prog, rep, 'JOIN', build, relevant=rel, K=4, KLOOP=1)
    for r in ('creator', 'entry restrictions', 'operator status on entry', 'manager status on entry'): rep.need(r, 1)
    # 2. network channel bans and the channel limit, on every join
    def build2(g):
        g.forget = re.compile('.')
        g.noinline = {'last0'}
        def j(e):
            q = e.q
            G = {m.group(0) for a in strs(q) for m in re.finditer(r'gline_find\([^()]*(\((?:[^()]|\([^()]*\))*\)[^()]*)*\)', a)}
            ok = q.flag(SELF, 'FLAG_OPER') or q.flag(SELF, 'FLAG_LOCOP') or any(gline_inactive(q, x) for x in G)
            g.require(e, 'channel bans of the network', ok, 'JOIN without checking for an active channel ban (badchan)')
            ok = q.priv(SELF, 'PRIV_CHAN_LIMIT') or any(
                (p in ('ult', 'slt') and t and 'User.joined' in a and 'feature_int(%d)' % k.FEAT_MAXCHANNELSPERUSER in str(b)) or
                (p in ('ule', 'sle') and not t and 'User.joined' in str(b) and 'feature_int(%d)' % k.FEAT_MAXCHANNELSPERUSER in a) for p, a, b, t in q.seen)
            g.require(e, 'channel limit', ok, 'JOIN without checking the channel limit')
        g.call('joinbuf_join', j)
    run_cmd(prog, rep, 'JOIN', build2, relevant=[pol(r'gline_find', Z, NZ), pol(flagrx(k, 'FLAG_OPER', 'FLAG_LOCOP'), NZ), pol(privrx(k, 'PRIV_CHAN_LIMIT'), NZ), pred(r'User\.joined', ('ult', 'slt', 'ule', 'sle')),
            r'gl_(flags|state)'], K=1, KLOOP=1)
    rep.need('channel bans of the network', 1); rep.need('channel limit', 1)
    # 3. who makes members
    ALLOW = {'add_user_to_channel': {'joinbuf_join', 'ms_burst', 'm_join', 'ms_join', 'ms_create'},
             'joinbuf_join': {'m_join', 'ms_join', 'ms_create', 'last0', 'm_part', 'ms_part', 'exit_one_client', 'remove_user_from_all_channels', 'make_zombie', 'set_hostmask', 'hide_hostmask'}}
    for fn, al in ALLOW.items():
        n = 0
        for f in prog.funcs.values():
            if fn in prog.callees.get(f.key, ()):
                n += 1
                ow = owners(prog, f)
                rep.ob('memberships are made on join paths only', '%s in %s' % (fn, f.name), ow <= al, '%s is called on behalf of %s' % (fn, sorted(ow - al)))
        if not n: rep.broken('no caller of ' + fn)


# ------------------------------------------------------------------ C05
def localuser(g, st, X):
    """assume X is a user connected to this server"""
    k = g.k
    g.assume(st, mkcmp('eq', T('ld', T('f', X, 'Client.cli_status'), None), k.STAT_USER), True)
    g.assume(st, mkcmp('eq', T('ld', T('f', T('ld', T('f', X, 'Client.cli_connect'), None), 'Connection.con_client'), None), X), True)


CHANSTATE = re.compile(r'^(Channel|Mode|Membership|Ban)\.')


@prop('C05', 'MODE changes a channel only for its operators and within their rank',
      'A MODE line from a local user changes nothing about a channel unless the user is an operator of it, or the channel is local and the user holds the local-mode privilege. '
      'An operator cannot deop a channel service, a protected operator on a local channel, or a member of equal or stronger op level; cannot hand out a stronger op level than its own; '
      'and changes the admin or user password only as channel manager (or with the override privilege), and never the registered mode.',
      ['inputs', 'configurations', 'histories'], 'every MODE line of any length and letter order by every kind of local user on every channel',
      'mode strings combine letters, signs and parameters without bound; tests use a few short ones', ['ircd/m_mode.c', 'ircd/channel.c'],
      [('permission tests', 'ircd/m_mode.c: m_mode'), ('parser', 'ircd/channel.c: mode_parse and helpers')], TECH,
      LINKNOTE + 'mode_parse and its helpers are analysed with the permission word m_mode passes fixed to each of its values.')
def c05(prog, rep, tier):
    k = KS(prog)
    ML = k.MAXOPLEVEL
    NOT = (k.MODE_PARSE_NOTOPER, k.MODE_PARSE_NOTMEMBER)
    flagsets = set()
    # 1. what m_mode asks for
    def build(g):
        def mp(e):
            C, fl = e.args[3], e.terms[6]
            q = e.q
            if isT(fl): 
                g.require(e, 'permission word is known', False, 'MODE parsed with permissions %s' % S(fl)); return
            flagsets.add(fl)
            if fl & (NOT[0] | NOT[1]):
                g.require(e, 'MODE needs channel operator', not fl & k.MODE_PARSE_FORCE, 'MODE forced'); return
            L = link(C, SELF)
            op = q.nz(L) and isset(q, L + '->Membership.status', k.CHFL_CHANOP)
            loc = q.eq(C + '->Channel.chname[0]', ord('&')) and q.priv(SELF, 'PRIV_MODE_LCHAN')
            ok = loc or (op and not fl & k.MODE_PARSE_FORCE)
            g.require(e, 'MODE needs channel operator', ok, 'channel modes parsed with permissions %#x for a user who may not be an operator of %s' % (fl, C))
            if not fl & k.MODE_PARSE_FORCE:
                g.require(e, 'rank of the changer is used', e.args[7] == L, 'the op level of someone else (%s) is used for rank checks' % e.args[7])
        g.call('mode_parse', mp)
    run_cmd(prog, rep, 'MODE', build, relevant=[r'Membership\.status', r'^find_member_link\([^>]*$', r'chname\[0\]', privrx(k, 'PRIV_MODE_LCHAN')], inline=PREDS, pure=('find_member_link',), K=12)
    rep.need('MODE needs channel operator', 3); rep.need('rank of the changer is used', 1)
    mod, = [prog.fn('mode_parse').mod]
    # 2. without permission nothing happens
    for F in sorted({f for f in flagsets if f & (NOT[0] | NOT[1])}):
        g = Guard(prog, rep, relevant=[], K=1, KLOOP=1)
        def st_(st, f, ins, addr, val, ctx, g=g, F=F):
            kk = addrkey(addr) if isT(addr) else None
            if kk and CHANSTATE.match(kk) and not S(addr).startswith('&state.'):
                e = g.ev(st, f, ins, [addr, val], ctx, kk)
                g.require(e, 'no effect without permission', False, 'MODE without permission (%#x) writes %s' % (F, S(addr)))
        g.on_store = st_
        def oc(st, f, ins, callee, args, ctx, g=g, F=F):
            if callee is None: return
            t = prog.funcs.get(callee)
            if t is None or g.inline(t, ctx, args) or g.isnew(t): return
            w = {x for x in g.mods.get(t.key, ()) if isinstance(x, str) and CHANSTATE.match(x)}
            e = g.ev(st, f, ins, args, ctx, callee)
            bad = w and callee not in ('send_reply', 'need_more_params')
            bad = bad or re.match(r'(modebuf_|sendcmdto_)', callee)
            g.require(e, 'no effect without permission', not bad, 'MODE without permission (%#x) calls %s, which may change the channel' % (F, callee))
        g.on_call = oc
        g.entryrun('mode_parse', args=[T('arg', i) for i in range(6)] + [F, T('arg', 7)])
    rep.need('no effect without permission', 4)
    # 3. operators stay within their rank
    REG = k.MODE_REGISTERED; PASS = k.MODE_APASS | k.MODE_UPASS
    for F, part in itertools.product(sorted({f for f in flagsets if not f & (NOT[0] | NOT[1])}), 'abc'):
        force = F & k.MODE_PARSE_FORCE
        rel = [pol(privrx(k, 'PRIV_APASS_OPMODE'), NZ), pol(r'\$7->Membership.status&', NZ), pol(r'^\$7$', Z)]
        if part == 'a':
            rel += [pred(r' %d$' % REG, ('eq',), False)]
        elif part == 'c':
            rel = [pred(r'oplevel', ('eq', 'slt', 'sle', 'ult', 'ule'))]
        else:
            rel += [pred(r'oplevel|cli_change.*@4', ('eq', 'slt', 'sle', 'ult', 'ule')), pol(flagrx(k, 'FLAG_CHSERV'), Z), pol(privrx(k, 'PRIV_DEOP_LCHAN'), Z),
                    pol(r'chname\[0\]$', ('eq', 38, False)), pred(r'(^| )\$2( |$)', ('eq',), True), pol(r'cli_change.*&', ('eq', k.MODE_DEL | k.MODE_CHANOP, False)),
                    pol(r'cli_change.*&(%d|%d)\)' % (k.MODE_DEL, k.MODE_CHANOP), Z)]
        g = Guard(prog, rep, relevant=rel, K=3, KLOOP=1, inline={'mode_process_clients'} if part == 'b' else set())
        # the letters are parsed first (a); the members named are then dealt with (b)
        g.noinline = {'mode_process_clients', 'mode_parse_client', 'mode_parse_ban', 'mode_process_bans'} if part == 'a' else set() if part == 'c' else {'mode_parse_client', 'mode_parse_ban', 'mode_process_bans', 'mode_parse_key', 'mode_parse_limit', 'mode_parse_upass', 'mode_parse_apass', 'mode_parse_mode', 'mode_parse_quarantine'}
        g.forget = re.compile(r'^(?!.*\$7->Membership.status|\(\$2->.*con_privs)' if part == 'a' else 'cli_change' if part == 'c' else '^(?!\\(\\$2->.*con_privs)')
        OWN = '$7->Membership.oplevel' if part != 'c' else '$0->ParseState.member->Membership.oplevel'
        def deop(e, g=g, force=force):
            Fl, V = e.args[1], e.args[2]
            q = e.q
            both = k.MODE_DEL | k.MODE_CHANOP
            notdeop = any(p == 'eq' and not isinstance(b, str) and a.startswith('(%s&' % Fl) and
                          ((a == '(%s&%d)' % (Fl, both) and b == both and not t) or (t and b == 0 and a in ('(%s&%d)' % (Fl, k.MODE_DEL), '(%s&%d)' % (Fl, k.MODE_CHANOP))))
                          for p, a, b, t in q.seen)
            me = q.eq(*sorted([V, '$2']))
            if not force:
                g.require(e, 'services are not deopped', notdeop or q.noflag(V, 'FLAG_CHSERV'), 'a channel operator can deop a channel service')
            ok = notdeop or me or q.ne('$3->Channel.chname[0]', 38) or q.nopriv(V, 'PRIV_DEOP_LCHAN')
            g.require(e, 'protected operators are not deopped', ok, 'a protected operator can be deopped on a local channel')
            lv = link('$3', V) + '->Membership.oplevel'
            ok = notdeop or me or (force and q.z('$7')) or order_holds(q, lv, OWN, lambda x, y: x > y or (x == y and x >= ML), (ML,))
            g.require(e, 'deop respects op level', ok, 'a member of equal or stronger op level can be deopped')
        if part != 'c': g.call('modebuf_mode_client', deop)
        def lvl(e, g=g, force=force):
            if force: return
            v = e.terms[1]
            if not isT(v):
                g.require(e, 'granted op level', v > ML, 'op level %s handed out' % v); return
            ok = order_holds(e.q, S(v), OWN, lambda x, y: x > y or (x == y and x >= ML), (ML,))
            g.require(e, 'granted op level', ok, 'a channel operator can hand out an op level stronger than its own')
        def store(st, f, ins, addr, val, ctx, g=g, lvl=lvl, force=force, part=part):
            s = S(addr) if isT(addr) else ''
            kk = addrkey(addr) if isT(addr) else None
            if 'cli_change' in s and s.endswith('@4'):
                if part == 'c': lvl(g.ev(st, f, ins, [addr, val], ctx, kk))
            elif kk in ('Mode.apass', 'Mode.upass'):
                pw(g.ev(st, f, ins, [addr, val], ctx, kk))
            elif kk in ('ParseState.add', 'ParseState.del') and isT(val):
                e = g.ev(st, f, ins, [addr, val], ctx, kk)
                if val.k == 'b' and val.a[0] == 'or':
                    add = [x for x in val.a[1:] if isT(x) and x.k == 'ld' and 'ParseState' not in S(x)]
                    for x in add:
                        ok = force or any(p == 'eq' and not t and REG in (a, b) and S(x) in (a, b) for p, a, b, t in e.q.seen)
                        g.require(e, 'registered mode is not changed', ok, 'a channel operator can change the registered mode')
            elif kk == 'Membership.oplevel':
                e = g.ev(st, f, ins, [addr, val], ctx, kk)
                s2 = S(val)
                ok = (not isT(val) and val >= ML) or 'cli_change' in s2 or order_holds(e.q, OWN, 'none', lambda x, y: True) and \
                    (s2 == '(%s+1)' % OWN or (s2 == OWN and order_holds(e.q, OWN, '#', lambda x, y: x >= ML, (ML,)))) or \
                    (val == 0 and S(addr).startswith('&$7->') and manager(e.q))
                g.require(e, 'op level of a new operator', ok, 'a new operator gets op level %s' % s2)
        def manager(q, force=force):
            return q.priv('$2', 'PRIV_APASS_OPMODE') if force else isset(q, '$7->Membership.status', k.CHFL_CHANNEL_MANAGER)
        def pw(e, g=g):
            g.require(e, 'passwords need the channel manager', manager(e.q), 'channel password changed by someone who is not channel manager')
        g.on_store = store
        def cp(e):
            if re.match(r'&.*Mode\.(apass|upass)', e.args[0]): pw(e)
        g.rx.append((re.compile(r'(ircd_)?str(n|l)?cpy|mem(cpy|move)|ircd_snprintf'), cp))
        def setup(st, a, g=g, force=force):
            g.assume(st, mkcmp('eq', T('ld', T('f', a[1], 'Client.cli_status'), None), k.STAT_USER), True)
            localuser(g, st, a[2])
            if not force: g.assume(st, a[7], True)
        if part == 'c':
            # the entries of the list of changed members are made here
            ents = {o for f in prog.funcs.values() if f.mod == mod and stores_below(prog, f, 'ParseState.cli_change') for o in owners(prog, f)}
            def cset(st, a, g=g, force=force, F=F):
                def fld(n): return T('ld', T('f', a[0], 'ParseState.' + n), None)
                g.assume(st, mkcmp('eq', fld('flags'), F), True)
                localuser(g, st, fld('sptr'))
                if not force: g.assume(st, fld('member'), True)
            for x in sorted(ents): g.entryrun(x, cset)
            continue
        g.entryrun('mode_parse', setup, args=[T('arg', i) for i in range(6)] + [F, T('arg', 7)])
    for r in ('services are not deopped', 'protected operators are not deopped', 'deop respects op level', 'granted op level', 'passwords need the channel manager', 'registered mode is not changed', 'op level of a new operator'):
        rep.need(r, 1)


# ------------------------------------------------------------------ C06
SECRETS = {'Mode.apass': 'MODE_APASS', 'Mode.upass': 'MODE_UPASS', 'Mode.key': 'MODE_KEY'}


def secretof(s):
    m = re.search(r'Mode\.(apass|upass|key)\b', s) if isinstance(s, str) else None
    return m and 'Mode.' + m.group(1)


def gepfield(prog, f, o):
    """field whose address (or first byte) an operand is, syntactically"""
    for _ in range(6):
        if not isinstance(o, list) or not o: return None
        if o[0] == 'gep':
            for e in reversed(o[2]):
                if e[0] == 'f': return e[1]
            o = o[1]; continue
        if o[0] != 'v': return None
        d = f.defs.get(o[1])
        if d is None: return None
        if d[0] == 'gep':
            for e in reversed(d[4]):
                if e[0] == 'f': return e[1]
            o = d[3]
        elif d[0] == 'cast': o = d[4]
        else: return None
    return None


USERSEND = re.compile(r'send_reply$|sendcmdto_channel|sendcmdto_common|sendcmdto_match|sendto_opmask|log_write|sendrawto_one|sendcmdto_flag_serv|sendwallto')


@prop('C06', 'Channel keys and passwords are shown only to those entitled',
      'The admin password of a channel is never shown to users, the user password only to channel operators with op level 0 and the key only to operators of the channel: '
      'mode listings hide them from everyone else (servers see them), mode changes sent to channel members and operator notices replace passwords by a star, and '
      'a listing is sent only to the user it was made for. Beyond these, only the user who sets the admin password is told it.',
      ['inputs', 'histories'], 'every mode listing for every kind of viewer and every batch of mode changes',
      'tests list modes for an operator and for an outsider once', ['ircd/channel.c', 'ircd/m_mode.c', 'ircd/hash.c'],
      [('listing', 'ircd/channel.c: channel_modes'), ('announcements', 'ircd/channel.c: modebuf_flush_int'), ('readers of the secrets', 'every function')], TECH,
      LINKNOTE + 'A key being removed is shown to the members, who know it. Comparisons with a secret are not counted as showing it.')
def c06(prog, rep, tier):
    k = KS(prog)
    # 1. listings
    g = Guard(prog, rep, relevant=[pol(r'cli_status$', ('eq', k.STAT_SERVER, True)), pred(r'^find_member_link\(', ('eq',), False), pol(r'Membership.status&', NZ), pol(r'Membership.status&%d\)' % k.CHFL_ZOMBIE, Z),
                                   pol(r'oplevel$', Z), pol(r'^\$5$', NZ)], inline=PREDS, pure=('find_member_link',), K=8)
    def show(e):
        for a in e.args[1:]:
            f = secretof(a)
            if not f: continue
            q = e.q
            ok = q.isserver('$0')
            if f == 'Mode.key': ok = ok or chanop(q, '$4', '$0')
            if f == 'Mode.upass': ok = ok or (q.nz('$5') and isset(q, '$5->Membership.status', k.CHFL_CHANOP) and q.z('$5->Membership.oplevel'))
            e2 = 'listing hides ' + f[5:]
            g.require(e, e2, ok, 'the channel %s may be listed to someone not entitled to it' % {'Mode.key': 'key', 'Mode.apass': 'admin password', 'Mode.upass': 'user password'}[f])
    g.rx.append((re.compile(r'(ircd_)?str(n|l)?(cpy|cat)|mem(cpy|move)|(ircd_)?snprintf|send|msgq'), show))
    g.entryrun('channel_modes')
    for f in SECRETS: rep.need('listing hides ' + f[5:], 1)
    # 2. a listing goes to the one it was made for
    for f in sorted({o for f in prog.funcs.values() if 'channel_modes' in prog.callees.get(f.key, ()) for o in owners(prog, f)}):
        g = Guard(prog, rep, relevant=[], K=2, KLOOP=2)
        def made(e, g=g):
            buf, view, mem = e.args[2], e.args[0], e.args[5]
            e.st.tags = frozenset(t for t in e.st.tags if t[1] != buf) | {('listing', buf, view)}
            g.require(e, 'membership of the viewer', mem == '0' or mem == link(e.args[4], view), 'modes are listed for %s with the membership %s' % (view, mem))
        g.call('channel_modes', made)
        def out(e, g=g):
            for t, buf, view in e.st.tags:
                if any(a == buf for a in e.args):
                    to = e.args[0] if e.callee == 'send_reply' else e.args[2] if e.callee in ('sendcmdto_one', 'sendcmdto_prio_one') else None
                    if e.callee.startswith('msgq_'): continue
                    g.require(e, 'listing goes to its viewer', to == view, 'a mode listing made for %s is sent to %s' % (view, to or 'others'))
                    e.st.tags = e.st.tags | {('built', buf, view)}
            if e.callee == 'send_buffer' and e.st.tags:
                vs = {t[2] for t in e.st.tags}
                g.require(e, 'listing goes to its viewer', vs == {e.args[0]}, 'a mode listing is sent to someone else')
        g.rx.append((re.compile(r'send|msgq_'), out))
        g.entryrun(f)
    rep.need('listing goes to its viewer', 3); rep.need('membership of the viewer', 3)
    # 3. announcements
    PW = k.MODE_APASS | k.MODE_UPASS
    OTHER = ~(PW | k.MODE_ADD | k.MODE_DEL | k.MODE_SAVE | k.MODE_FREE) & 0xffffffff
    def typebit(at):
        m = re.search(r'mb_modeargs.*&(\d+)\)$', at[1]) if at[0] == 'eq' and at[2] == 0 else None
        if not m: return False
        M = int(m.group(1))
        return bool(M & PW) if at[3] else not M & PW and bool(M & OTHER)
    g = Guard(prog, rep, relevant=[typebit], K=2, KLOOP=1)
    g.forget = re.compile('mb_modeargs')
    def build(e):
        d, t = e.args[0], e.args[2]
        if 'mb_modeargs' not in t and not t.startswith('j#'): return
        pre = t.split('.', 1)[0] if False else None
        m = re.match(r'(.*mb_modeargs\[.*?\])[.@-]', t)
        words = {a[1:a.rindex('&')] for p, a, b, tt in e.q.seen if 'mb_modeargs' in a and '&' in a and a.startswith('(')}
        ok = False
        for w in words:
            ok = ok or isclr(e.q, w, PW)
            for p, a, b, tt in e.q.seen:
                if a.startswith('(%s&' % w) and p == 'eq':
                    M = int(a[len(w) + 2:-1])
                    if not M & PW and M & OTHER == M and (b == 0 and not tt): ok = True
                    if not tt and b == 0 and not M & PW & OTHER and M & ~(k.MODE_ADD | k.MODE_DEL) and not M & PW: ok = True
        if not ok: e.st.tags = e.st.tags | {('pw', d)}
    g.call('build_string', build)
    def out(e):
        g.require(e, 'announcements hide passwords', not any(t[0] == 'pw' for t in e.st.tags), 'a mode change sent to users may contain a channel password')
    g.rx.append((USERSEND, out))
    def reset(st, f, ins, addr, val, ctx):
        if val == 0 and isT(addr) and addr.k == 'ix' and st.tags:
            s = S(addr); st.tags = frozenset(t for t in st.tags if not s.startswith(t[1] + '['))
    g.on_store = reset
    g.noinline = {'modebuf_flush_int'}
    g.entryrun('modebuf_flush_int')
    rep.need('announcements hide passwords', 3)
    # 4. who else reads them
    OKCALL = re.compile(r'(ircd_)?str(n)?(case)?cmp$|ircd_strncmp$|strlen$|is_clean_key$|netride_modes$|llvm\.')
    fz = frozen(); helped = set()
    for f in prog.funcs.values():
        prog.modsets()
        for b in f.blocks:
            for ins in b:
                if ins[0] != 'call': continue
                for i, a in enumerate(ins[4]):
                    fl = gepfield(prog, f, a)
                    if fl not in SECRETS: continue
                    tg = prog.targets(f, ins) or ['?']
                    for t in tg:
                        if OKCALL.match(t): continue
                        ok = (re.match(r'(ircd_)?str(n|l)?cpy$', t) and i == 0)
                        own = owners(prog, f)
                        if t == 'modebuf_mode_string':
                            m = ins[4][1]; bit_ = getattr(k, SECRETS[fl])
                            ok = (not isinstance(m, int) and own <= {'mode_parse', 'mode_parse_key', 'mode_parse_apass', 'mode_parse_upass'}) or (isinstance(m, int) and m & bit_ and not m & (k.MODE_BAN | k.MODE_KEY | PW) & ~bit_)
                        elif own <= {'channel_modes'}: ok = True
                        elif t == 'send_reply': ok = fl == 'Mode.apass' and own <= {'mode_parse_apass'}
                        elif not ok and t in prog.funcs and prog.funcs[t].name not in fz and prog.funcs[t].key not in fz: helped |= own; continue
                        rep.ob('readers of channel secrets', 'ircd/%s:%s (%s)' % (f.mod, ins[2], f.name), ok, '%s passes the channel %s to %s' % (f.name, fl[5:], t))
    # a helper that is handed a secret is judged by what it does with it on behalf of its callers
    for n in sorted(helped):
        if n == 'channel_modes': continue
        g = Guard(prog, rep, relevant=[], K=2, KLOOP=2)
        def used(e, g=g):
            if OKCALL.match(e.callee): return
            copies = {d: fl for t, d, fl in (x for x in e.st.tags if x[0] == 'copy')}
            for i, a in enumerate(e.args):
                fl = copies.get(a) or (secretof(a) if 'strlen(' not in a else None)
                if not fl or e.callee in prog.funcs and (prog.funcs[e.callee].name not in fz and prog.funcs[e.callee].key not in fz): continue
                if re.match(r'(ircd_)?str(n|l)?cpy$|memcpy$|memset$|MyFree|DoFree', e.callee):
                    if i == 1: e.st.tags = e.st.tags | {('copy', e.args[0], fl)}
                    continue
                m = int(e.args[1]) if e.callee == 'modebuf_mode_string' and re.match(r'-?\d+$', e.args[1]) else None; bit_ = getattr(k, SECRETS[fl])
                g.require(e, 'readers of channel secrets', m is not None and m & bit_ and not m & (k.MODE_BAN | k.MODE_KEY | PW) & ~bit_, '%s passes the channel %s to %s' % (e.f.name, fl[5:], e.callee))
        g.rx.append((re.compile('.'), used))
        g.entryrun(n)
    rep.need('readers of channel secrets', 8)


# ------------------------------------------------------------------ C07
@prop('C07', 'A channel carries speech only from those it lets speak',
      'A local member may speak in a channel only if voiced or an operator (unless it became operator by the admin password while one is set), or if the channel is not moderated, it is logged in where that is '
      'demanded, it uses TLS where that is demanded, and it is not banned; an outsider may speak only if additionally outside messages are allowed; servers always may. '
      'A user cannot change nick while an unvoiced member of a channel where it is moderated or banned.',
      ['inputs', 'histories'], 'every combination of channel modes, membership status and user status',
      'the conditions interact (2^10 combinations); tests sample a few', ['ircd/channel.c'],
      [('permission', 'member_can_send_to_channel, client_can_send_to_channel'), ('nick change', 'find_no_nickchange_channel')], TECH,
      LINKNOTE + 'Ban matching itself (is_banned, find_ban) is taken as given here.')
def c07(prog, rep, tier):
    k = KS(prog)
    REL = [pol(r'Mode.mode&', Z), pol(r'Membership.status&', NZ, Z), pol(flagrx(k, 'FLAG_ACCOUNT', 'FLAG_TLS'), NZ), pol(r'cli_status$', ('eq', k.STAT_SERVER, True), ('eq', k.STAT_USER, False)),
           pred(r'con_client', ('eq',), False), pol(r'apass\[0\]$', Z), pol(r'^(is_banned|find_ban|member_can_send_to_channel|client_can_send_to_channel)\(.*\)$', Z, NZ), pol(r'feature', NZ, Z), pred(r'^find_member_link\([^>]*$', ('eq',))]
    def clear(q, C, m): return isclr(q, C + '->Channel.mode.Mode.mode', m)
    def quiet_ok(q, C, U):
        return clear(q, C, k.MODE_MODERATED) and (clear(q, C, k.MODE_MODERATENOREG | k.MODE_REGONLY) or q.flag(U, 'FLAG_ACCOUNT'))
    def tls_ok(q, C, U): return clear(q, C, k.MODE_TLSONLY) or q.flag(U, 'FLAG_TLS')
    def remote(q, U): return q.notmycon(U) or q.notuser(U)
    def voiced(q, M): return any(a.startswith('(%s->Membership.status&' % M) and p == 'eq' and b == 0 and not t and not int(a[a.rindex('&') + 1:-1]) & ~(k.CHFL_CHANOP | k.CHFL_VOICE) for p, a, b, t in q.seen)
    def member_ok(q, M, U, C):
        if remote(q, U): return True
        st = M + '->Membership.status'
        if not (isclr(q, st, k.CHFL_CHANNEL_MANAGER) or q.z(C + '->Channel.mode.Mode.apass[0]')): return False
        return voiced(q, M) or (quiet_ok(q, C, U) and tls_ok(q, C, U) and q.z('is_banned(%s)' % M))
    g = Guard(prog, rep, relevant=REL, K=8, pure=('is_banned', 'find_ban'))
    g.noinline = {'is_banned'}
    def ret(e):
        v = e.terms[0]
        d = g.decide(e.st, v) if isT(v) else bool(v)
        if d is False: return
        st = e.st
        if isT(v):
            st = e.st.copy()
            if not g.assume(st, mkcmp('ne', v, 0), True): return
        q = Q(g, st)
        M = '$0'
        g.require(e, 'speaking as a member', member_ok(q, M, M + '->Membership.user', M + '->Membership.channel'), 'a member may speak against the channel modes or a ban')
    g.retcb = ret
    g.entryrun('member_can_send_to_channel')
    rep.need('speaking as a member', 1)
    g = Guard(prog, rep, relevant=REL, K=8, pure=('is_banned', 'find_ban', 'find_member_link', 'member_can_send_to_channel'), inline=PREDS)
    g.noinline = {'is_banned'}
    def ret(e):
        v = e.terms[0]
        d = g.decide(e.st, v) if isT(v) else bool(v)
        if d is False: return
        st = e.st
        if isT(v):
            st = e.st.copy()
            if not g.assume(st, mkcmp('ne', v, 0), True): return
        q = Q(g, st)
        U, C = '$0', '$1'
        L = link(C, U)
        ok = q.isserver(U) or any(p == 'eq' and b == 0 and not t and a.startswith('member_can_send_to_channel(%s,' % L) for p, a, b, t in q.seen)
        nomem = q.z(L) or (q.nz(L) and isset(q, L + '->Membership.status', k.CHFL_ZOMBIE))
        ok = ok or (nomem and clear(q, C, k.MODE_NOPRIVMSGS) and quiet_ok(q, C, U) and tls_ok(q, C, U) and any(p == 'eq' and b == 0 and t and a.startswith('find_ban(%s,%s->' % (U, C)) for p, a, b, t in q.seen))
        g.require(e, 'speaking from outside', ok, 'a user may speak in a channel against its modes or a ban')
    g.retcb = ret
    g.entryrun('client_can_send_to_channel')
    rep.need('speaking from outside', 1)
    # nick changes
    g = Guard(prog, rep, relevant=REL, K=8, pure=('is_banned', 'find_ban'))
    g.noinline = {'is_banned'}
    g.forget = re.compile('Membership|is_banned')
    def nxt(e):
        s = e.args[0]
        M = s[1:s.rindex('->')] if s.startswith('&') else s[:s.rindex('->')]
        q = e.q
        C = M + '->Membership.channel'
        ok = voiced(q, M) or (quiet_ok(q, C, '$0') and q.z('is_banned(%s)' % M))
        g.require(e, 'nick change', ok, 'a channel that forbids the nick change is passed over')
    g.loads['Membership.next_channel'] = nxt
    g.entryrun('find_no_nickchange_channel')
    rep.need('nick change', 1)


class Announced(Guard):
    """what is announced as removed (or added) is removed (or added) in memory"""
    FIELD = {'Mode.key': 'MODE_KEY', 'Mode.limit': 'MODE_LIMIT', 'Mode.upass': 'MODE_UPASS', 'Mode.apass': 'MODE_APASS'}

    def setup(self, k):
        self.k = k
        self.noinline |= {'modebuf_init', 'modebuf_mode', 'modebuf_mode_uint', 'modebuf_mode_string', 'modebuf_mode_client', 'modebuf_flush', 'destruct_channel', 'get_channel', 'free_ban', 'make_zombie',
                          'joinbuf_join', 'joinbuf_flush', 'remove_user_from_channel', 'add_user_to_channel', 'mode_parse', 'mode_invite_clear', 'netride_modes'}
        self.retcb = self.back
        self.anns = 0
        self.points = set()

    def tag(self, st, *new): st.tags = frozenset(st.tags | set(new))

    def unset(self, st, C):
        """fields of the channel known to be empty now"""
        m = T('f', C, 'Channel.mode')
        for fl, n in self.FIELD.items():
            a = T('f', m, fl)
            if fl != 'Mode.limit': a = T('ix', a, 0)
            try: v = self.load(st, a, 'i8' if fl != 'Mode.limit' else 'i32')
            except Exception: continue
            if v == 0 or isT(v) and self.decide(st, mkcmp('eq', v, 0)) is True: yield n

    def settle(self, st):
        """what was found empty before may be forgotten later; what is settled need not be remembered"""
        if not any(t[0] in ('wipe', 'ann') for t in st.tags):
            if any('Mode.' in a[1] for a in st.seen): st.seen = frozenset(a for a in st.seen if 'Mode.' not in a[1])
            if any(t[0] == 'clr' for t in st.tags): st.tags = frozenset(t for t in st.tags if t[0] != 'clr')
            return
        for t in list(st.tags):
            if t[0] in ('wipe', 'ann'):
                for n in self.unset(st, t[1]): self.tag(st, ('clr', t[1], n))
        drop = set()
        for t in st.tags:
            need = [t[2]] if t[0] == 'ann' else list(self.FIELD.values()) if t[0] == 'wipe' else None
            if need and all(('clr', t[1], n) in st.tags for n in need):
                for n in need: self.rep.ob('announced as removed means removed', 'ircd/%s (%s, line %d): %s' % (t[-1] + (n,)), True)
                drop.add(t)
        st.tags = frozenset(t for t in st.tags if t not in drop)
        if not any(t[0] in ('wipe', 'ann') for t in st.tags): st.tags = frozenset(t for t in st.tags if t[0] != 'clr')

    def at_head(self, st, f, b, ctx):
        self.settle(st)
        return Guard.at_head(self, st, f, b, ctx)

    def on_call(self, st, f, ins, callee, args, ctx):
        self.settle(st)
        if callee in ('ircd_strtok', 'strtok', 'hSeekChannel') and any(t[0] in ('wipe', 'ann') for t in st.tags):
            # it turns to the next channel
            self.judge(st)
            st.tags = frozenset(t for t in st.tags if t[0] not in ('wipe', 'ann', 'clr'))
        if callee == 'modebuf_flush': st.tags = frozenset(t for t in st.tags if not (t[0] == 'buf' and t[1] == args[0]))
        if callee == 'modebuf_init':
            d = args[4]
            self.tag(st, ('buf', args[0], not isT(d) and bool(d & self.k.MODEBUF_DEST_BOUNCE), args[3]))
        elif callee in ('modebuf_mode', 'modebuf_mode_uint', 'modebuf_mode_string', 'modebuf_mode_client'):
            b = [t for t in st.tags if t[0] == 'buf' and t[1] == args[0]]
            if b and not b[0][2]:
                C = b[0][3]
                if callee == 'modebuf_mode':
                    s = S(args[1])
                    whole = isT(args[1]) and args[1].k == 'b' and args[1].a[0] == 'or' and any(isT(x) and x.k == 'ld' and S(x).endswith('Mode.mode') for x in args[1].a[1:])
                    if whole and s.endswith('Channel.mode.Mode.mode)') or whole:
                        self.tag(st, ('wipe', C, (f.mod, f.name, ins[2])))
                        self.points.add((f.mod, f.name, ins[2]))
                        for n in self.unset(st, C): self.tag(st, ('clr', C, n))
                elif not isT(args[1]) and args[1] & self.k.MODE_DEL:
                    for n in ('MODE_KEY', 'MODE_LIMIT', 'MODE_UPASS', 'MODE_APASS'):
                        if args[1] & getattr(self.k, n):
                            self.tag(st, ('ann', C, n, (f.mod, f.name, ins[2])))
                            self.points.add((f.mod, f.name, ins[2]))
        elif callee in ('destruct_channel', 'mode_parse') and callee == 'destruct_channel':
            for n in self.FIELD.values(): self.tag(st, ('clr', args[0], n))
        return Guard.on_call(self, st, f, ins, callee, args, ctx)

    def on_store(self, st, f, ins, addr, val, ctx):
        a = addr
        while isT(a) and a.k == 'ix': a = a.a[0]
        if isT(a) and a.k == 'f' and a.a[1] in self.FIELD and val == 0 and isT(a.a[0]) and a.a[0].k == 'f' and a.a[0].a[1] == 'Channel.mode':
            self.tag(st, ('clr', a.a[0].a[0], self.FIELD[a.a[1]]))
        return Guard.on_store(self, st, f, ins, addr, val, ctx)

    def back(self, e):
        self.judge(e.st)

    def judge(self, st):
        self.settle(st)
        for t in st.tags:
            need = [t[2]] if t[0] == 'ann' else list(self.FIELD.values()) if t[0] == 'wipe' else []
            for n in need:
                self.rep.ob('announced as removed means removed', 'ircd/%s (%s, line %d): %s' % (t[-1] + (n,)), ('clr', t[1], n) in st.tags,
                            '%s: the members are told that %s of the channel is gone, but it stays in force' % (self.entry.name, n[5:].lower()), ['entry ' + self.entry.name] + trace_lines(st, 14))


class Recorded(Guard):
    """a mode line that is announced is recorded, and the other way round"""
    def init(self, k, fn, fields, ann):
        self.k, self.fn, self.fields, self.ann = k, fn, fields, ann
        self.noinline |= {ann, 'modebuf_flush'}
        self.retcb = self.back

    def put(self, st, x, f, line):
        new = {(x,)}
        if not any(t[0] == 'line' + x for t in st.tags): new.add(('line' + x, line))
        st.tags = frozenset(st.tags | new)

    def fieldof(self, a):
        while isT(a) and a.k == 'ix': a = a.a[0]
        return a.a[1] if isT(a) and a.k == 'f' else None

    def on_call(self, st, f, ins, callee, args, ctx):
        if callee == self.ann: self.put(st, 'ann', f, ins[2])
        elif callee and args and self.fieldof(args[0]) in self.fields and callee in ('ircd_strncpy', 'strcpy', 'strncpy', 'memcpy', 'memset', 'strlcpy'): self.put(st, 'rec', f, ins[2])
        return Guard.on_call(self, st, f, ins, callee, args, ctx)

    def on_store(self, st, f, ins, addr, val, ctx):
        if isT(addr) and self.fieldof(addr) in self.fields: self.put(st, 'rec', f, ins[2])
        if isT(addr) and self.fieldof(addr) == 'ParseState.flags' and surely_set(self, st, val, self.k.MODE_PARSE_BOUNCE): st.tags = frozenset(st.tags | {('bounced',)})
        return Guard.on_store(self, st, f, ins, addr, val, ctx)

    def judge(self, st):
        t = st.tags
        fl = [a for a in st.seen if '.flags&' in a[1] or a[1].startswith('($6&')]
        held = any('Mode.apass' in a[1] and a[2] == 0 and not a[3] for a in st.seen)
        noset = any(a[1].endswith('&%d)' % self.k.MODE_PARSE_SET) and a[0] == 'eq' and a[2] == 0 and a[3] for a in fl)
        bounce = any(a[1].endswith('&%d)' % self.k.MODE_PARSE_BOUNCE) and a[0] == 'eq' and a[2] == 0 and not a[3] for a in fl)
        if ('ann',) in t or ('rec',) in t:
            ln = [x[1] for x in t if x[0] in ('lineann', 'linerec')]
            ok = (('rec',) in t or noset or bounce or held or ('bounced',) in t) if ('ann',) in t else True
            ok = ok and (('ann',) in t or self.fn in ('mode_process_clients', 'mode_parse'))
            self.rep.ob('announced and recorded', 'ircd/channel.c (%s)' % self.fn, ok, '%s: the mode is announced without being recorded, or recorded without being announced' % self.fn,
                        None if ok else ['entry ' + self.fn, 'lines %s %s' % (ln, sorted(a[1:] for a in st.seen))] + trace_lines(st, 14))

    def back(self, e): self.judge(e.st)


@prop('C08', 'A mode announced as removed is no longer in force',
      'When the server announces that the limit, the key or a password of a channel is removed, or takes all modes off a channel because an older channel of that name exists elsewhere, '
      'the removed ones are no longer in force here: nobody is refused for a key or a limit that the members were told is gone, and nobody becomes operator by a password that is gone. '
      'A mode that a MODE line adds or removes is both announced and recorded.',
      ['inputs', 'histories'], 'every path of every command that announces such a removal',
      'the wiped channel looks right to its members and wrong only to the next one who tries to join', ['ircd/m_burst.c', 'ircd/m_join.c', 'ircd/m_clearmode.c', 'ircd/channel.c'],
      [('older channel', 'ircd/m_burst.c: ms_burst; ircd/m_join.c: ms_join'), ('clearmode', 'ircd/m_clearmode.c: do_clearmode'), ('mode lines', 'ircd/channel.c: mode_parse and its helpers')],
      TECH, NOTE + 'Buffers opened to bounce a change are not announcements.')
def c08(prog, rep, tier):
    k = KS(prog); prog.modsets()
    pts = set()
    users = {f.name for f in prog.funcs.values() for i in f.calls() if i[3] in ('modebuf_mode', 'modebuf_mode_uint', 'modebuf_mode_string')} if False else None
    for h in ('ms_burst', 'ms_join', 'm_join', 'ms_clearmode', 'mo_clearmode', 'ms_destruct', 'ms_create', 'ms_kick', 'm_kick'):
        g = Announced(prog, rep, relevant=[r'Mode\.(limit|key\[0\]|upass\[0\]|apass\[0\]) '], K=3, KLOOP=1)
        g.setup(k)
        g.forget = re.compile('Mode')
        g.entryrun(h)
        pts |= g.points
    # every place that announces a removal by constant is among those analysed
    for f in prog.funcs.values():
        pass
    rep.need('announced as removed means removed', 10)
    # mode lines: what is announced is recorded, what is recorded is announced
    B, SET = k.MODE_PARSE_BOUNCE, k.MODE_PARSE_SET
    for fn, fields, ann in (('mode_parse_limit', ('Mode.limit',), 'modebuf_mode_uint'), ('mode_parse_key', ('Mode.key',), 'modebuf_mode_string'), ('mode_parse_upass', ('Mode.upass',), 'modebuf_mode_string'),
                            ('mode_parse_apass', ('Mode.apass',), 'modebuf_mode_string'), ('mode_process_clients', ('Membership.status',), 'modebuf_mode_client')):
        g = Recorded(prog, rep, relevant=[r'ParseState\.flags&(%d|%d)\) ' % (B, SET), r'apass\[0\]'], K=4, KLOOP=2)
        g.init(k, fn, fields, ann)
        g.entryrun(fn)
    g = Recorded(prog, rep, relevant=[r'(ParseState\.flags|\$6)&(%d|%d)\) ' % (B, SET)], K=4, KLOOP=2)
    g.init(k, 'mode_parse', ('Mode.mode',), 'modebuf_mode')
    g.noinline |= {f for f in ('mode_parse_limit', 'mode_parse_key', 'mode_parse_upass', 'mode_parse_apass', 'mode_parse_ban', 'mode_parse_client', 'mode_parse_mode', 'mode_process_bans', 'mode_process_clients', 'mode_parse_quarantine')}
    g.entryrun('mode_parse')
    rep.need('announced and recorded', 6)
