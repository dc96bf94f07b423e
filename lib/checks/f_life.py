"""F: life cycle - what exists, what is removed, what is counted"""
from checks.common import *
from checks.a_auth import TECH, NOTE

A0 = T('arg', 0); A1 = T('arg', 1)


class Duties(Guard):
    """on every path through a function: each duty is done, or what was found out excuses it"""
    def __init__(self, prog, rep, duties, **kw):
        Guard.__init__(self, prog, rep, **kw)
        self.duties = duties
        self.retcb = self.back
        self.noinline |= {n for d in duties for n in d[1] if isinstance(n, str)}

    def gather(self, st, mk):
        """what is known now may be forgotten later"""
        new = set()
        e = None
        for i, d in enumerate(self.duties):
            if d[3] is None or ('d', i) in st.tags: continue
            e = e or mk()
            if d[3](e.q, self, e): new.add(('d', i))
        if new: st.tags = frozenset(st.tags | new)
        if self.sticky is not None:
            keep = frozenset(a for a in st.seen if self.sticky.search('%s %s' % (a[1], a[2])))
            if len(keep) != len(st.seen): st.seen = keep

    sticky = None

    def mark(self, st, e, kind):
        new = set()
        for i, d in enumerate(self.duties):
            if (kind in d[1] or any(x.endswith('*') and kind.startswith(x[:-1]) for x in d[1])) and ('d', i) not in st.tags and (d[2] is None or d[2](e)): new.add(('d', i))
        if new: st.tags = frozenset(st.tags | new)

    def on_call(self, st, f, ins, callee, args, ctx):
        self.gather(st, lambda: self.ev(st, f, ins, args, ctx, callee))
        if callee: self.mark(st, self.ev(st, f, ins, args, ctx, callee), callee)
        return Guard.on_call(self, st, f, ins, callee, args, ctx)

    def on_store(self, st, f, ins, addr, val, ctx):
        if isT(addr):
            k = addrkey(addr)
            if k is not None:
                self.gather(st, lambda: self.ev(st, f, ins, [addr, val], ctx, k))
                self.mark(st, self.ev(st, f, ins, [addr, val], ctx, k), '=' + k)
        return Guard.on_store(self, st, f, ins, addr, val, ctx)

    def back(self, e):
        self.gather(e.st, lambda: e)
        for i, d in enumerate(self.duties):
            ok = ('d', i) in e.st.tags
            self.rep.ob(self.rule, 'ircd/%s (%s): %s' % (self.entry.mod, self.entry.name, d[0]), ok, '%s can end without this: %s' % (self.entry.name, d[0]),
                        None if ok else ['entry ' + self.entry.name] + trace_lines(e.st, 14))


def arg0(x): return lambda e: e.terms[0] is x if isT(x) else e.args[0] == x
def cell(g, e, *fields):
    """the current value of $0->field->field..."""
    v = A0
    for x in fields: v = g.load(e.st, T('f', v, x), 'p')
    return v


def nulnow(*fields):
    """is the field known to be null now, wherever its value came from"""
    def f(q, g, e):
        v = cell(g, e, *fields)
        return v == 0 or isT(v) and g.decide(e.st, mkcmp('eq', v, 0)) is True
    return f


def nul(X): return lambda q, g, e: q.z(X)


def duties_run(prog, rep, rule, entry, duties, relevant, noinline=(), stable=None, sticky=None, **kw):
    for d in duties:
        for n in d[1]:
            if not n.startswith('=') and not any(f.name == n for f in prog.funcs.values()) and n not in ('free', 'close'): rep.broken('%s does not exist' % n)
    g = Duties(prog, rep, duties, relevant=relevant, K=3, KLOOP=2, stable=stable, **kw)
    g.rule = rule
    if sticky: g.sticky = re.compile(sticky)
    g.noinline |= set(noinline)
    g.entryrun(entry)
    return g


def val(e): return e.terms[1]


@prop('F01', 'Whoever leaves leaves nothing behind',
      'When a client goes (a user, a server, or a connection that never registered), everything that refers to it is removed before its memory is reused: the name table, the client list, the numeric tables, its memberships, invitations, silence list, held messages, '
      'pending pings, statistics subscriptions, SASL session, auth request, address registry entry, its server\'s downlink list, its history reference, and for a connection the descriptor table, socket, TLS state, queues, configuration references and listener.',
      ['inputs', 'histories', 'fault_sequences'], 'every path of the functions that remove a client, whatever state the client is in',
      'one forgotten reference is a use of freed memory much later, and only for clients that were in that state when they left',
      ['ircd/s_misc.c', 'ircd/list.c', 'ircd/s_bsd.c', 'ircd/channel.c'],
      [('removal', 'ircd/s_misc.c: exit_one_client'), ('memory', 'ircd/list.c: remove_client_from_list, free_client'), ('connection', 'ircd/s_bsd.c: close_connection')],
      TECH, NOTE + 'That each of the removing functions does remove is judged by its own rules or trusted.')
def f01(prog, rep, tier):
    k = KS(prog); prog.modsets()
    F = lambda n: r'Flags\.bits\[%d\]&%d\)' % (getattr(k, n) // 64, 1 << (getattr(k, n) % 64))
    usr = lambda q, g, e: q.notuser('$0')
    U = lambda fn: (lambda q, g, e: q.notuser('$0') or fn(q, g, e))
    tok = lambda t: (lambda e: strarg(e.terms[1]) == t and e.terms[0] is A0)
    stat = r'^\$0->Client\.cli_status'
    # exit_one_client
    isme_ = lambda q, g, e: q.isme('$0')
    M = lambda fn: (lambda q, g, e: q.isme('$0') or fn(q, g, e))
    nofl = lambda n: (lambda q, g, e: q.noflag('$0', n))
    d = [
        ('channel members are told', ['sendcmdto_common_channels_butone'], tok('QUIT'), usr),
        ('its memberships are removed', ['remove_user_from_all_channels'], arg0(A0), usr),
        ('its invitations are removed', [], None, U(nulnow('Client.cli_user', 'User.invited'))),
        ('its silence list is freed', [], None, U(nulnow('Client.cli_user', 'User.silence'))),
        ('its server notice subscriptions are removed', ['set_snomask'], lambda e: e.terms[0] is A0 and e.terms[1] in (-1, 0xffffffff), U(lambda q, g, e: q.notmycon('$0'))),
        ('its pings are cancelled', ['uping_cancel'], arg0(A0), U(nofl('FLAG_UPING'))),
        ('its statistics subscription is cancelled', ['auth_cancel_iauth_stats'], arg0(A0), U(nofl('FLAG_IAUTH_STATS'))),
        ('messages held of or for it are dropped', ['sline_cleanup_client'], arg0(A0), U(nofl('FLAG_SPAMHOLD'))),
        ('its running LIST is freed', ['=Connection.con_listing'], lambda e: val(e) == 0, U(lambda q, g, e: q.notmycon('$0') or q.z('$0->Client.cli_connect->Connection.con_listing'))),
        ('its place among the downlinks is removed', ['remove_dlink'], lambda e: e.args[1].endswith('->Server.updown'), M(lambda q, g, e: q.notserver('$0'))),
        ('its server numeric is free again', ['ClearServerYXX'], arg0(A0), lambda q, g, e: q.z('$0->Client.cli_serv') or q.z('$0->Client.cli_serv->Server.client_list')),
        ('its SASL session is removed', ['sasl_session_remove'], lambda e: 'con_sasl' in e.args[0], lambda q, g, e: any(a[0] == 'eq' and a[1].endswith('con_sasl') and a[2] == 0 and a[3] for a in q.seen)),
        ('its numeric is free again', ['RemoveYXXClient'], lambda e: e.args[0] == '$0->Client.cli_user->User.server', M(nul('$0->Client.cli_user'))),
        ('its address is no longer counted', ['IPcheck_disconnect'], arg0(A0), M(nofl('FLAG_IPCHECK'))),
        ('its name is free again', ['hRemClient'], arg0(A0), isme_),
        ('it is taken off the client list', ['remove_client_from_list'], arg0(A0), isme_),
    ]
    keep = [stat, '|'.join(F(n) for n in ('FLAG_UPING', 'FLAG_IAUTH_STATS', 'FLAG_SPAMHOLD', 'FLAG_IPCHECK')), r'User\.(invited|silence) 0', r'con_listing 0', r'con_sasl 0', r'^\$0->Client\.cli_(user|serv) 0', r'client_list 0', 'con_client']
    duties_run(prog, rep, 'a client is removed completely', 'exit_one_client', d, keep, noinline={'remove_dlink'}, sticky=r'^\$0->Client\.cli_status|con_client')
    # remove_client_from_list
    C = lambda x: '$0->Client.' + x
    notlisted = lambda q, g, e: q.z('$0->Client.cli_next')
    d2 = [
        ('the next client no longer refers to it', ['=Client.cli_prev'], lambda e: 'cli_next->Client.cli_prev' in e.args[0] or 'GlobalClientList' in e.args[0], notlisted),
        ('the previous client no longer refers to it', ['=Client.cli_next'], lambda e: 'cli_prev->Client.cli_next' in e.args[0] and e.args[1] == '$0->Client.cli_next', lambda q, g, e: q.z('$0->Client.cli_next') or q.z('$0->Client.cli_prev')),
        ('the list no longer begins with it', ['=g:GlobalClientList'], lambda e: e.args[1] == '$0->Client.cli_next', lambda q, g, e: q.z('$0->Client.cli_next') or q.nz('$0->Client.cli_prev')),
        ('its nickname history no longer refers to it', ['off_history'], arg0(A0), lambda q, g, e: q.notuser('$0') or q.z('$0->Client.cli_user')),
        ('its user record is released', ['free_user'], lambda e: e.args[0] == '$0->Client.cli_user', nul('$0->Client.cli_user')),
        ('the record of who brought the server is released', ['free_user'], lambda e: e.args[0] == '$0->Client.cli_serv->Server.user', lambda q, g, e: q.z('$0->Client.cli_serv') or q.z('$0->Client.cli_serv->Server.user')),
        ('the server\'s numeric table is freed', ['free'], lambda e: e.args[0] == '$0->Client.cli_serv->Server.client_list', lambda q, g, e: q.z('$0->Client.cli_serv') or q.z('$0->Client.cli_serv->Server.client_list')),
        ('the server record is freed', ['free'], lambda e: e.args[0] == '$0->Client.cli_serv', nul('$0->Client.cli_serv')),
        ('the client is freed', ['free_client'], arg0(A0), None),
    ]
    duties_run(prog, rep, 'a client\'s memory is given back once nothing refers to it', 'remove_client_from_list', d2, [stat, r'cli_(next|prev|user|serv) 0', r'Server\.(user|client_list) 0'])
    # free_client
    ff = lambda e, f: any(f(a) for a in e.st.seen if 'con_freeflag' in a[1] or 'con_proc' in a[1] or 's_fd' in a[1])
    inuse = lambda e: ff(e, lambda a: a[0] == 'eq' and a[2] == 0 and not a[3])
    notimer = lambda e: ff(e, lambda a: a[0] == 'eq' and 'con_freeflag' in a[1] and a[2] == 0 and a[3])
    nosock = lambda e: notimer(e) or ff(e, lambda a: 's_fd' in a[1] and a[0] == 'slt' and a[2] == 0 and a[3])
    d3 = [
        ('its running authorization is ended', ['destroy_auth_request'], lambda e: 'con_auth' in e.args[0], lambda q, g, e: q.z('$0') or any(a[0] == 'eq' and a[1].endswith('con_auth') and a[2] == 0 and a[3] for a in e.st.seen)),
        ('its connection record is given back', ['dealloc_connection'], lambda e: e.args[0].endswith('Client.cli_connect') or e.terms[0] is A0, lambda q, g, e: q.z('$0') or q.notmycon('$0') or inuse(e)),
        ('its timer is ended', ['timer_del'], None, lambda q, g, e: q.z('$0') or q.notmycon('$0') or notimer(e)),
        ('its socket is ended', ['socket_del'], None, lambda q, g, e: q.z('$0') or q.notmycon('$0') or nosock(e)),
        ('the client record is given back', ['dealloc_client'], arg0(A0), nul('$0')),
    ]
    duties_run(prog, rep, 'a client\'s memory is given back once nothing refers to it', 'free_client', d3, [r'con_(freeflag|auth|client)', r'con_proc', r's_fd', r'^\$0 ', r'Client\.cli_connect'])
    # close_connection
    closed = lambda q, g, e: any(a[0] == 'slt' and 's_fd' in a[1] and a[2] == 0 and a[3] for a in e.st.seen)
    endsw = lambda *t: (lambda e: any(x in e.args[0] for x in t))
    d4 = [
        ('the table of connections no longer refers to it', ['=g:LocalClientArray'], lambda e: val(e) == 0, closed),
        ('the TLS session is ended', ['ircd_tls_close'], None, lambda q, g, e: closed(q, g, e) or q.noflag('$0', 'FLAG_TLS') or any(a[0] == 'eq' and a[1].endswith('s_tls') and a[2] == 0 and a[3] for a in e.st.seen)),
        ('the descriptor is closed', ['close'], None, closed),
        ('the socket is taken off the event engine', ['socket_del'], None, closed),
        ('what was to be sent is dropped', ['msgq_delete'], endsw('con_sendQ'), None),
        ('the list of connections with something to send no longer refers to it', ['client_drop_sendq'], None, None),
        ('what was received is dropped', ['dbuf_delete'], endsw('con_recvQ'), None),
        ('its server notice subscriptions are removed', ['set_snomask'], lambda e: e.terms[0] is A0 and e.terms[1] == 0, None),
        ('its configuration entries are let go', ['det_confs_butmask'], lambda e: e.terms[0] is A0 and e.terms[1] == 0, None),
        ('its SASL timer is stopped', ['sasl_stop_timeout'], arg0(A0), None),
        ('its listener is let go', ['release_listener'], None, lambda q, g, e: any(a[0] == 'eq' and a[1].endswith('con_listener') and a[2] == 0 and a[3] for a in e.st.seen)),
    ]
    duties_run(prog, rep, 'a closed connection is referred to no more', 'close_connection', d4, [r's_fd', r'con_listener', r'con_socket', r's_tls', F('FLAG_TLS')])
    # order: nothing refers to it any more when its memory goes
    rep.need('a client is removed completely', 16)


def dlink(what, N, P, head, isown):
    """duties of taking $0 out of a doubly linked list"""
    n, p = '$0->' + N, '$0->' + P
    return [
        ('the next %s no longer refers to it' % what, ['=' + P], lambda e: e.args[0].endswith(n + '->' + P), nul(n)),
        ('the previous %s no longer refers to it' % what, ['=' + N], lambda e: e.args[0].endswith(p + '->' + N) and e.args[1] == n, nul(p)),
        ('the list of %ss no longer begins with it' % what, [head], lambda e: e.args[1] == n, lambda q, g, e: q.nz(p)),
    ]


@prop('F02', 'Channels and their members agree about each other',
      'Whoever enters a channel is on the member list of the channel and on the channel list of the user, and is counted on both; whoever leaves is on neither. '
      'A channel that is empty is destroyed or its destruction is scheduled, one that somebody enters is no longer scheduled to be destroyed, and one that is destroyed leaves no invitation, '
      'ban, held message, scheduled destruction, hash table entry or list entry behind.',
      ['inputs', 'histories', 'schedules'], 'every path of the functions that add and remove members and channels',
      'a count or a link that is off shows much later: a channel that never dies, a join refused for a limit that is not reached, or a use of freed memory', ['ircd/channel.c', 'ircd/destruct_event.c'],
      [('membership', 'ircd/channel.c: add_user_to_channel, remove_member_from_channel, sub1_from_channel'), ('channels', 'ircd/channel.c: destruct_channel, del_invite'), ('scheduled destruction', 'ircd/destruct_event.c')],
      TECH, NOTE + 'That each of the removing functions does remove is judged by its own rules or trusted.')
def f02(prog, rep, tier):
    k = KS(prog); prog.modsets()
    R = 'channels and members are linked both ways'
    off = lambda field, d: (lambda e: S(val(e)) in ('(%s%+d)' % (e.args[0].lstrip('&'), d), '(%s+%d)' % (e.args[0].lstrip('&'), d)) or re.search(r'%s[^()]*\+%s\)$' % (re.escape(field), d if d > 0 else r'(-1|\d{9,})'), S(val(e))) is not None)
    # leaving
    MEM, CH = 'Membership.', '$0->Membership.'
    d = dlink('member', MEM + 'next_member', MEM + 'prev_member', '=Channel.members', True) + dlink('membership', MEM + 'next_channel', MEM + 'prev_channel', '=User.channel', True) + [
        ('the user is on one channel less', ['=User.joined'], off('User.joined', -1), None),
        ('the channel has one member less', ['sub1_from_channel'], lambda e: e.args[0].endswith('Membership.channel'), None),
    ]
    duties_run(prog, rep, R, 'remove_member_from_channel', d, [r'Membership\.(next|prev)_(member|channel) 0'], noinline={'CheckDelayedJoins', 'CheckChannelTLS'})
    # entering
    nouser = lambda q, g, e: q.z('$1->Client.cli_user')
    NU = lambda fn: (lambda q, g, e: nouser(q, g, e) or fn(q, g, e))
    d = [
        ('it is the first of the channel\'s members', ['=Channel.members'], None, nouser),
        ('its channel is noted', ['=Membership.channel'], lambda e: e.terms[1] is A0, nouser),
        ('its user is noted', ['=Membership.user'], lambda e: e.terms[1] is A1, nouser),
        ('it is the first of the user\'s channels', ['=User.channel'], None, nouser),
        ('it has no previous member', ['=Membership.prev_member'], lambda e: val(e) == 0, nouser),
        ('it has no previous channel', ['=Membership.prev_channel'], lambda e: val(e) == 0, nouser),
        ('the former first member refers to it', ['=Membership.prev_member'], lambda e: val(e) != 0, NU(lambda q, g, e: q.z('$0->Channel.members'))),
        ('the former first channel refers to it', ['=Membership.prev_channel'], lambda e: val(e) != 0, NU(lambda q, g, e: q.z('$1->Client.cli_user->User.channel'))),
        ('the next member is the former first', ['=Membership.next_member'], lambda e: e.args[1] == '$0->Channel.members', nouser),
        ('the next channel is the former first', ['=Membership.next_channel'], lambda e: e.args[1] == '$1->Client.cli_user->User.channel', nouser),
        ('the channel has one member more', ['=Channel.users'], off('Channel.users', 1), nouser),
        ('the user is on one channel more', ['=User.joined'], off('User.joined', 1), nouser),
        ('the channel is no longer scheduled to be destroyed', ['remove_destruct_event'], arg0(A0), NU(lambda q, g, e: q.z('$0->Channel.destruct_event'))),
    ]
    duties_run(prog, rep, R, 'add_user_to_channel', d, [r'Channel\.(members|destruct_event) 0', r'User\.channel 0', r'cli_user 0'], noinline={'CheckChannelTLS'})
    # the last one left
    more = lambda q, g, e: any(a[0] == 'slt' and a[1] == '$0->Channel.users' and a[2] >= 2 and not a[3] or a[0] == 'ult' and a[1] == '$0->Channel.users' and a[2] >= 2 and not a[3] for a in e.st.seen if not isinstance(a[2], str))
    d = [
        ('the count goes down', ['=Channel.users'], lambda e: val(e) == 0 or off('Channel.users', -1)(e), None),
        ('the empty channel is destroyed now or later', ['destruct_channel', 'schedule_destruct_event_1m', 'schedule_destruct_event_48h'], arg0(A0), more),
    ]
    duties_run(prog, rep, R, 'sub1_from_channel', d, [r'^\S+ \$0->Channel\.users ', r'Channel\.users'])
    # the end of a channel
    C = lambda x: '$0->Channel.' + x
    d = [
        ('its invitations are removed', [], None, lambda q, g, e: nulnow('Channel.invites')(q, g, e)),
        ('held messages for it are dropped', ['sline_cleanup_channel'], arg0(A0), None),
        ('its scheduled destruction is cancelled', ['remove_destruct_event'], arg0(A0), nul(C('destruct_event'))),
        ('the previous channel no longer refers to it', ['=Channel.next'], lambda e: e.args[0].endswith('$0->Channel.prev->Channel.next') and e.args[1] == C('next'), nul(C('prev'))),
        ('the list of channels no longer begins with it', ['=g:GlobalChannelList'], lambda e: e.args[1] == C('next'), lambda q, g, e: q.nz(C('prev'))),
        ('the next channel no longer refers to it', ['=Channel.prev'], lambda e: e.args[0].endswith('$0->Channel.next->Channel.prev') and e.args[1] == C('prev'), nul(C('next'))),
        ('its name is free again', ['hRemChannel'], arg0(A0), None),
        ('there is one channel less', ['=UserStatistics.*'], lambda e: S(val(e)).endswith('+-1)'), None),
        ('its memory is given back', ['free'], lambda e: e.args[0] == '$0', nul('$0')),
    ]
    duties_run(prog, rep, R, 'destruct_channel', d, [r'^\$0 0', r'Channel\.(destruct_event|prev|next|invites) 0'])
    # scheduled destructions
    for fn in ('schedule_destruct_event_1m', 'schedule_destruct_event_48h'):
        had = lambda q, g, e: q.nz(C('destruct_event'))
        d = [('the channel knows its event', ['=Channel.destruct_event'], lambda e: val(e) != 0, had), ('the event knows its channel', ['=DestructEvent.chptr'], lambda e: e.terms[1] is A0, had),
             ('its time is noted', ['=DestructEvent.expires'], None, had)]
        duties_run(prog, rep, R, fn, d, [r'Channel\.destruct_event 0'])
    ev = C('destruct_event'); DE = 'DestructEvent.'
    d = [('the next event no longer refers to it', ['=' + DE + 'prev_event'], lambda e: ev + '->' + DE + 'next_event' in e.args[0], nul(ev + '->' + DE + 'next_event')),
         ('the previous event no longer refers to it', ['=' + DE + 'next_event'], lambda e: ev + '->' + DE + 'prev_event' in e.args[0], nul(ev + '->' + DE + 'prev_event')),
         ('the channel no longer refers to it', ['=Channel.destruct_event'], lambda e: val(e) == 0, None)]
    for l, side in (('days_list_top', 'prev_event'), ('minute_list_top', 'prev_event'), ('days_list_bottom', 'next_event'), ('minute_list_bottom', 'next_event')):
        d.append(('%s no longer refers to it' % l, ['=g:' + l + '@*'], lambda e, side=side: e.args[1] == ev + '->' + DE + side or val(e) == 0 and e.q.z(ev + '->' + DE + side), lambda q, g, e, l=l: any(l in a[1] + str(a[2]) and 'destruct_event' in a[1] + str(a[2]) and a[0] == 'eq' and not a[3] for a in e.st.seen)))
    duties_run(prog, rep, R, 'remove_destruct_event', d, [r'(next|prev)_event 0', r'list_(top|bottom)'])
    # whoever destroys a channel knows that it is empty; whoever leaves all channels leaves each
    d = [('the user is on no channel', [], None, lambda q, g, e: nulnow('Client.cli_user', 'User.channel')(q, g, e))]
    duties_run(prog, rep, R, 'remove_user_from_all_channels', d, [r'User\.channel 0'])
    rep.need(R, 40)


def slots_visited(f, bound, hi, calls):
    """the values the loop variable takes in each loop that makes one of the calls, with the bound set to hi"""
    from checks.b_deliver import evalop
    names = {}
    for b in f.blocks:
        for ins in b:
            if ins[0] == 'load' and isinstance(ins[3], list) and ins[3][0] == 'v' and bound in repr(f.defs.get(ins[3][1])): names[ins[1]] = hi
    for h, body in f.loops.items():
        if any(h2 != h and h2 in body and any(x[0] == 'call' and isinstance(x[3], list) and x[3][0] == 'g' and x[3][1] in calls for b in f.loops[h2] for x in f.blocks[b]) for h2 in f.loops): continue
        if not any(x[0] == 'call' and isinstance(x[3], list) and x[3][0] == 'g' and x[3][1] in calls for b in body for x in f.blocks[b]): continue
        for P in [i for i in f.blocks[h] if i[0] == 'phi']:
            init = [v for pb, v in P[3] if pb not in body]; nxt = [v for pb, v in P[3] if pb in body]
            if len(init) != 1 or not nxt: continue
            x = evalop(f, init[0], names, hi)
            if x is None: continue
            seen = []; known = False
            for _ in range(20):
                env = dict(names); env[P[1]] = x
                out = False
                for b in body:
                    br = f.blocks[b][-1]
                    if br[0] != 'br': continue
                    c = evalop(f, br[3], env, hi)
                    if c is None: continue
                    if (br[4] in body) != (br[5] in body):
                        known = True
                        if (br[4] if c else br[5]) not in body: out = True
                if out: break
                seen.append(x)
                x = evalop(f, nxt[0], env, hi)
                if x is None: known = False; break
            if known: yield seen


class Walk(Duties):
    """every element of a list gets what it is owed before the walk goes on"""
    owed = None          # (e, X) -> True if nothing is owed to the element any more

    def link(self, field, start):
        self.walked = 0
        def nxt(e):
            s = e.args[0].lstrip('&')
            X = s[:s.rindex('->')]
            self.walked += 1
            self.require(e, self.rule, self.owed(e, X), 'the walk goes on from %s before it was told' % X)
            first = not any(t[0] == 'at' for t in e.st.tags)
            if first: self.require(e, self.rule, X.endswith(start), 'the walk begins with %s and not with the first one' % X)
            e.st.tags = frozenset({t for t in e.st.tags if t[0] not in ('told', 'at')} | {('at',)})
            e.st.seen = frozenset(a for a in e.st.seen if 'DLink' not in a[1] and 'DLink' not in str(a[2]))
        self.loads[field] = nxt
        def end(e):
            at = any(t[0] == 'at' for t in e.st.tags)
            ok = any(a[0] == 'eq' and a[2] == 0 and a[3] and (a[1].endswith('->' + field) or a[1].startswith('j#') or not at and a[1].endswith(start)) for a in e.st.seen)
            self.require(e, self.rule, ok, 'the walk ends before the last one')
        self.walkend = end


@prop('D05', 'When someone leaves, every server is told and everything behind goes too',
      'When a user quits or is removed, or a server link ends, every directly linked server except the one the news came from and the one that left gets the QUIT or SQUIT; only users who were killed leave without it, since the KILL said so already. '
      'With a server go all servers and users behind it, each server after what is behind it, and the connection of a local client is closed. '
      'Whoever handled the command learns that the connection it came from is gone exactly if it is.',
      ['inputs', 'histories'], 'every departure, whatever the number of links and the place of the one that left',
      'one link that is not told keeps ghosts of users and servers; a wrong answer about the own connection makes the parser use freed memory', ['ircd/s_misc.c'],
      [('departure', 'ircd/s_misc.c: exit_client'), ('net splits', 'ircd/s_misc.c: exit_downlinks')], TECH, NOTE)
def d05(prog, rep, tier):
    k = KS(prog); prog.modsets()
    R = 'every link is told'
    V, KI = '$1', '$2'
    g = Walk(prog, rep, [
        ('a local client\'s connection is closed', ['close_connection'], lambda e: e.args[0] == V, lambda q, g, e: q.notmycon(V)),
        ('what is behind a server goes with it', ['exit_downlinks'], lambda e: e.args[0] == V, lambda q, g, e: q.notserver(V)),
        ('the client is removed', ['exit_one_client'], lambda e: e.args[0] == V, None),
        ('secure paths are computed anew', ['compute_secure_path_groups'], None, lambda q, g, e: q.notserver(V)),
    ], relevant=[r'^\$1->Client\.cli_status (%d|%d)\b' % (k.STAT_SERVER, k.STAT_USER), r'DLink\.(value|next)', r'Server\.down 0', r'^\S*j#\S* 0$', r'^\$[01] \$[01]|^\$0 ', r'Flags\.bits\[%d\]&%d\)' % (k.FLAG_KILLED // 64, 1 << (k.FLAG_KILLED % 64)), r'con_client'], K=4, KLOOP=2)
    g.rule = R
    g.sticky = re.compile(r'^\$1->Client\.cli_status (%d|%d)$|' % (k.STAT_SERVER, k.STAT_USER) + r'con_client|DLink|Server\.down|j#|^\$0|^\$1|Flags')
    g.noinline |= {'close_connection', 'exit_downlinks', 'exit_one_client', 'compute_secure_path_groups', 'sendcmdto_one', 'get_client_name', 'auth_send_exit', 'update_load', 'findNUser'}
    def told(e):
        t = strarg(e.terms[1]) if strarg(e.terms[1]) is not None else None
        fr = e.args[0]; to = e.args[3]
        if 'DLink' not in to: return
        e.st.tags = frozenset(e.st.tags | {('told', to, t, fr)})
    g.call('sendcmdto_one', told)
    def owed(e, X):
        q = e.q
        tg = [t for t in e.st.tags if t[0] == 'told' and t[1].startswith(X + '->')]
        for _, to, tok, fr in tg:
            if tok == "SQUIT" and fr == KI and not q.notserver(V): return True
            if tok == "QUIT" and fr == V: return True
        own = {a for a in q.seen if a[0] == 'eq' and a[3] is True and (isinstance(a[1], str) and isinstance(a[2], str))}
        for p, a, b, t in own:
            for x, y in ((a, b), (b, a)):
                if x.startswith(X + '->DLink.value') and (y == V or y.startswith(KI + '->') and y.endswith('con_client')): return True
        return q.notserver(V) and (q.notuser(V) or not q.noflag(V, 'FLAG_KILLED') and any(a[0] == 'eq' and a[2] == 0 and not a[3] and re.match(r'^\(%s.*Flags\.bits\[%d\]&%d\)$' % (re.escape(V), k.FLAG_KILLED // 64, 1 << (k.FLAG_KILLED % 64)), a[1]) for a in q.seen))
    g.owed = owed
    g.link('DLink.next', 'me.Client.cli_serv->Server.down')
    def ret(e):
        Duties.back(g, e)
        v = e.terms[0]
        same = g.decide(e.st, mkcmp('eq', A0, A1))
        ok = v == k.CPTR_KILLED and same is True or v == 0 and same is False
        g.require(e, 'says whether the own connection is gone', ok, 'exit_client returns %s though the connection that is handled %s the one removed' % (S(v), {True: 'is', False: 'is not', None: 'may or may not be'}[same]))
    def goes(e):
        if e.args[0] == V and ('end',) not in e.st.tags:
            g.walkend(e); e.st.tags = frozenset(e.st.tags | {('end',)})
    g.call(['exit_downlinks', 'exit_one_client'], goes)
    g.retcb = ret
    g.entryrun('exit_client')
    if not g.walked: rep.broken('no walk over the downlinks')
    # the walk begins with the first link
    R2 = 'all that is behind a server goes'
    g = Duties(prog, rep, [], relevant=[r'client_list'], K=4, KLOOP=2)
    g.rule = R2
    g.noinline |= {'exit_one_client', 'exit_downlinks'}
    def opened(e):
        s = e.args[0].lstrip('&'); X = s[:s.rindex('->')]
        e.st.tags = frozenset(e.st.tags | {('open', X)})
    def downs(e):
        X = next((x for x in e.args[0].split('->DLink.value')[:1]), None)
        e.st.tags = frozenset(e.st.tags | {('deep', X)})
    def one(e):
        X = e.args[0].split('->DLink.value')[0]
        if 'DLink.value' in e.args[0]:
            g.require(e, 'what is behind a server goes first', ('deep', X) in e.st.tags, 'a server goes before what is behind it')
            e.st.tags = frozenset(t for t in e.st.tags if t[1] != X)
        else: e.st.tags = frozenset(e.st.tags | {('one', e.args[0])})
    g.loads['DLink.value'] = opened
    g.call('exit_downlinks', downs); g.call('exit_one_client', one)
    def fin(e): settle(e.st, e.f)
    oh = g.at_head
    def settle(st, f):
        left = [t[1] for t in st.tags if t[0] == 'open']
        w = 'ircd/%s (%s)' % (f.mod, f.name)
        rep.ob(R2, w + ': servers', not left, 'a server behind the one that left stays', trace_lines(st, 14) if left else None)
        for a in st.seen:
            if a[0] == 'eq' and a[2] == 0 and a[3] is False and 'client_list' in a[1] and not a[1].endswith('client_list'):
                ok = ('one', a[1]) in st.tags
                rep.ob(R2, w + ': users', ok, 'a user of the server that left stays', None if ok else trace_lines(st, 14))
        st.tags = frozenset(t for t in st.tags if t[0] != 'one')
        st.seen = frozenset(a for a in st.seen if 'client_list' not in a[1])
    def head(st, f, b, ctx):
        settle(st, f)
        return oh(st, f, b, ctx)
    g.at_head = head
    g.retcb = fin
    g.entryrun('exit_downlinks')
    rep.need('what is behind a server goes first', 1)
    # all slots of the numeric table
    from checks.b_deliver import evalop
    f = prog.fn('exit_downlinks'); prog.cfg(f)
    for n in slots_visited(f, 'nn_mask', 5, {'exit_one_client'}):
        rep.ob(R2, 'ircd/%s (%s): slots' % (f.mod, f.name), n == list(range(6)), 'with 6 slots in the numeric table it visits %s' % n)
    rep.need(R2, 3)
    rep.need('says whether the own connection is gone', 1)
    rep.need(R, 6)
