"""A: authority of operators."""
from checks.common import *

SELF = '$1'
TECH = 'path-sensitive guard analysis of LLVM IR (ESP-style property simulation from the dispatched handlers)'
NOTE = ('Sound for the paths of the handlers found in the dispatch table, on clang IR with assertions disabled; trusts clang, the irdump tool and the '
        'interpreter in lib/absint.py (opaque callees havoc the fields they may write; identity fields of a client such as its connection and status '
        'are taken as stable across opaque calls within one handler). ')


# ------------------------------------------------------------------ A01
@prop('A01', 'KILL needs the matching kill privilege and spares servers and services',
      'A locally connected client can make this server remove another user with KILL, or send a KILL for one to other servers, only if it holds the local-kill '
      'privilege when the victim is connected to this server, or the kill privilege when the victim is elsewhere. '
      'The victim of such a KILL is always a user, never a server, and never a user flagged as a channel service.',
      ['inputs', 'configurations'], 'every KILL line a local client can send, any privileges, any victim, any nick-history lookup result',
      'tests use an operator with all privileges and a handful of victims; the rule is over every combination of privilege, victim type and victim location',
      ['ircd/m_kill.c', 'include/client.h'], [('privilege and victim tests', 'ircd/m_kill.c: mo_kill'), ('removal and propagation', 'ircd/m_kill.c: do_kill')],
      TECH, NOTE + 'Whether the dispatch table lets only operators reach the handler is A08.')
def a01(prog, rep, tier):
    def build(g):
        def ex(e):
            v = e.args[1]
            if v == SELF: return
            judge(e, v)
        def snd(e):
            if strarg(e.terms[1]) == 'KILL' and not e.callee == 'sendcmdto_one':
                v = next((a for t, a in zip(e.terms[4:], e.args[4:]) if not (isT(t) and t.k == 's')), None)
                if v: judge(e, v)
        def judge(e, v):
            q = e.q
            ok = (q.mycon(v) and q.priv(SELF, 'PRIV_LOCAL_KILL')) or (q.notmycon(v) and q.priv(SELF, 'PRIV_KILL'))
            g.require(e, 'kill-privilege', ok, 'victim %s removed by KILL without the privilege that matches its location' % v)
            ok = q.isuser(v) or (q.notserver(v) and q.notme(v))
            g.require(e, 'victim-not-server', ok, 'victim %s of KILL may be a server' % v)
            g.require(e, 'victim-not-service', q.noflag(v, 'FLAG_CHSERV'), 'victim %s of KILL may be a channel service' % v)
        g.call(['exit_client', 'exit_client_msg', 'vexit_client_msg'], ex)
        g.rx.append((re.compile(r'sendcmdto_'), snd))
    run_cmd(prog, rep, 'KILL', build, relevant=[r'con_privs', r'cli_status', r'con_client', r'cli_hopcount', r'cli_flags'])
    for r in ('kill-privilege', 'victim-not-server', 'victim-not-service'):
        rep.need(r, 1)


# ------------------------------------------------------------------ A02
@prop('A02', 'REHASH, RESTART and DIE are gated by their own privileges',
      'A local client makes the server re-read its configuration or message files, re-exec itself or shut down only while holding the rehash, restart or die '
      'privilege respectively. No other command a local client can send reaches a rehash, restart or shutdown directly.',
      ['inputs', 'configurations'], 'every command line from any local client, in every registration state and privilege set',
      'tests never run these commands without the privilege in every form (for example each REHASH argument letter)',
      ['ircd/m_rehash.c', 'ircd/m_restart.c', 'ircd/m_die.c'], [('privilege tests', 'mo_rehash, mo_restart, mo_die')], TECH, NOTE)
def a02(prog, rep, tier):
    EFF = {'rehash': 'PRIV_REHASH', 'motd_recache': 'PRIV_REHASH', 'log_reopen': 'PRIV_REHASH', 'ircd_tls_rehash': 'PRIV_REHASH', 'reread_tls_files': 'PRIV_REHASH',
           'server_restart': 'PRIV_RESTART', 'server_die': 'PRIV_DIE', 'exit_schedule': None, 'server_panic': 'PRIV_DIE'}
    callers = {}
    allh = all_handlers(prog, LOCAL)
    reach = {}
    for h in sorted(allh):
        g = Guard(prog, rep, relevant=[r'con_privs'], inline_mods=True)
        f = prog.funcs.get(h)
        if f is None: continue
        # only handlers whose own module calls one of the effects need the path analysis
        mine = direct_effects(prog, h, EFF, rep)
        if not mine: continue
        def eff(e, g=g):
            pv = EFF[e.callee]
            if e.callee == 'exit_schedule':
                # exit_schedule(restart, when, who, message)
                r = e.terms[0]
                pv = 'PRIV_RESTART' if r == 1 else 'PRIV_DIE' if r == 0 else None
                ok = e.q.priv(SELF, pv) if pv else False
            else:
                ok = e.q.priv(SELF, pv)
            g.require(e, 'effect needs ' + (pv or 'die/restart').replace('PRIV_', ''), ok, 'call of %s by a local client without the privilege' % e.callee)
        g.call([x for x in EFF if x in prog.funcs], eff)
        g.entryrun(h, args=selfargs())
    rep.need('effect needs REHASH', 1); rep.need('effect needs RESTART', 1); rep.need('effect needs DIE', 1)


def direct_effects(prog, h, eff, rep):
    """does h, with the static functions of its module and new helpers, call an effect?"""
    seen = set(); work = [h]; res = set()
    fz = frozen()
    while work:
        x = work.pop()
        if x in seen or x not in prog.funcs: continue
        seen.add(x)
        for c in prog.callees.get(x, ()):
            if c in eff: res.add(c)
            f = prog.funcs.get(c)
            if f is not None and ((f.internal and f.mod == prog.funcs[x].mod) or (f.key not in fz and f.name not in fz)):
                work.append(c)
    rep.functions |= seen
    return res


# ------------------------------------------------------------------ A03
@prop('A03', 'G-lines from a local client need the local or global G-line privilege',
      'A request from a local client adds, activates, deactivates, modifies or destroys a G-line on this server only with the local-gline privilege if the '
      'effect stays on this server, and with the gline privilege plus the operator-commands switch if it is network wide or sent to another server. '
      'The width override is passed on only for a holder of the wide-gline privilege, and a local channel ban is accepted only with the local-badchan privilege.',
      ['inputs', 'configurations'], 'every GLINE line: action prefix, mask, target, parameter count, and every privilege set and feature setting',
      'the parameter grammar has dozens of combinations of action, target and arity; tests sample a few with a fully privileged operator',
      ['ircd/m_gline.c', 'ircd/gline.c'], [('permission tests', 'ircd/m_gline.c: mo_gline'), ('bad-channel test', 'ircd/gline.c: gline_add')], TECH,
      NOTE + 'Flag words and actions are tracked as constants per path.')
def a03(prog, rep, tier):
    k = KS(prog)
    def build(g):
        def glob(q): return q.priv(SELF, 'PRIV_GLINE') and q.feat('FEAT_CONFIG_OPERCMDS')
        def wide(e, t):
            if not surely_clear(g, e.st, t, k.GLINE_OPERFORCE):
                g.require(e, 'override needs WIDE_GLINE', e.q.priv(SELF, 'PRIV_WIDE_GLINE'), 'width override passed on without the wide-gline privilege')
            else:
                g.require(e, 'override needs WIDE_GLINE', True, '')
        def add(e):
            fl = e.terms[7]
            loc = surely_set(g, e.st, fl, k.GLINE_LOCAL)
            ok = glob(e.q) or (loc and e.q.priv(SELF, 'PRIV_LOCAL_GLINE'))
            g.require(e, 'gline privilege', ok, 'G-line added without the privilege for its scope')
            wide(e, fl)
        def mod(e):
            act = e.terms[3]
            loc = act in (k.GLINE_LOCAL_ACTIVATE, k.GLINE_LOCAL_DEACTIVATE)
            ok = glob(e.q) or (loc and e.q.priv(SELF, 'PRIV_LOCAL_GLINE'))
            g.require(e, 'gline privilege', ok, 'G-line modified (action %s) without the privilege for its scope' % e.args[3])
            wide(e, e.terms[8])
        def other(e):
            # activate/deactivate(cptr, sptr, gline, lastmod, flags), destroy(cptr, sptr, gline)
            loc = len(e.terms) > 4 and surely_set(g, e.st, e.terms[4], k.GLINE_LOCAL)
            if e.callee == 'gline_destroy':
                loc = True
            ok = glob(e.q) or (loc and e.q.priv(SELF, 'PRIV_LOCAL_GLINE'))
            g.require(e, 'gline privilege', ok, '%s without the privilege for its scope' % e.callee)
        def snd(e):
            if strarg(e.terms[1]) == 'GLINE':
                g.require(e, 'remote gline privilege', glob(e.q), 'GLINE sent to another server without the gline privilege and operator-commands switch')
                fmt = next((strarg(t) for t in e.terms[3:] if strarg(t) is not None), '')
                if any(strarg(t) == '!' for t in e.terms) and 'PRIV_WIDE_GLINE':
                    g.require(e, 'override needs WIDE_GLINE', e.q.priv(SELF, 'PRIV_WIDE_GLINE'), 'width override sent without the wide-gline privilege')
        g.call('gline_add', add); g.call('gline_modify', mod)
        g.call(['gline_activate', 'gline_deactivate', 'gline_destroy', 'gline_resend'], other)
        g.rx.append((re.compile(r'sendcmdto_'), snd))
    run_cmd(prog, rep, 'GLINE', build, relevant=[r'con_privs', r'feature_bool', r'cli_status'], K=24)
    rep.need('gline privilege', 2); rep.need('remote gline privilege', 1); rep.need('override needs WIDE_GLINE', 2)
    # channel bans
    g = Guard(prog, rep, relevant=[r'con_privs', r'^\(\$7&%d\)' % k.GLINE_LOCAL], K=4)
    g.bits = (k.GLINE_BADCHAN, k.GLINE_LOCAL)
    def setup(st, a):
        # callers of gline_add never pass the channel-ban bit themselves: it is derived from the mask
        g.assume(st, mkcmp('eq', mkbin('and', a[7], k.GLINE_BADCHAN), 0), True)
    def mk(e):
        fl = e.terms[7] if len(e.terms) > 7 else e.terms[-1]
        if surely_clear(g, e.st, fl, k.GLINE_BADCHAN) or surely_clear(g, e.st, fl, k.GLINE_LOCAL):
            g.require(e, 'local badchan privilege', True, ''); return
        # path condition: global, or privilege
        ok = e.q.priv('$1', 'PRIV_LOCAL_BADCHAN')
        g.require(e, 'local badchan privilege', ok, 'local channel ban made without the local-badchan privilege')
    g.call('make_gline', mk)
    g.entryrun('gline_add', setup)
    rep.need('local badchan privilege', 1)


# ------------------------------------------------------------------ A04
@prop('A04', 'Server jupes from a local client need the jupe privilege for their scope',
      'A local client adds, activates or deactivates a jupe on this server only with the operator-commands switch on and the local-jupe privilege if the change '
      'stays on this server, or the jupe privilege if it is network wide. Sending a jupe to another server needs the jupe privilege.',
      ['inputs', 'configurations'], 'every JUPE line: sign, target, parameter count, and every privilege set and feature setting',
      'tests do not exercise JUPE at all', ['ircd/m_jupe.c', 'ircd/jupe.c'], [('permission tests', 'ircd/m_jupe.c: mo_jupe')], TECH, NOTE)
def a04(prog, rep, tier):
    k = KS(prog)
    def build(g):
        def eff(e):
            fl = e.terms[{'jupe_add': 6, 'jupe_activate': 4, 'jupe_deactivate': 4}[e.callee]]
            loc = surely_set(g, e.st, fl, k.JUPE_LOCAL)
            ok = e.q.feat('FEAT_CONFIG_OPERCMDS') and (e.q.priv(SELF, 'PRIV_JUPE') or (loc and e.q.priv(SELF, 'PRIV_LOCAL_JUPE')))
            g.require(e, 'jupe privilege', ok, '%s without the privilege for its scope' % e.callee)
        def snd(e):
            if strarg(e.terms[1]) == 'JUPE':
                g.require(e, 'remote jupe privilege', e.q.feat('FEAT_CONFIG_OPERCMDS') and e.q.priv(SELF, 'PRIV_JUPE'), 'JUPE sent to another server without the jupe privilege')
        g.call(['jupe_add', 'jupe_activate', 'jupe_deactivate'], eff)
        g.rx.append((re.compile(r'sendcmdto_'), snd))
    run_cmd(prog, rep, 'JUPE', build, relevant=[r'con_privs', r'feature_bool'], K=24)
    rep.need('jupe privilege', 2); rep.need('remote jupe privilege', 1)


# ------------------------------------------------------------------ A05
@prop('A05', 'OPMODE and CLEARMODE need the operator-mode privilege and respect quarantine',
      'A local client changes channel modes by operator override (OPMODE or CLEARMODE) only with the operator-commands switch on and the opmode privilege, or '
      'the local-opmode privilege when the channel is local to the server. On a quarantined channel it needs the matching force privilege too.',
      ['inputs', 'configurations'], 'every OPMODE and CLEARMODE line, local and global channels, forced and not, every privilege set',
      'tests run with one operator holding every privilege', ['ircd/m_opmode.c', 'ircd/m_clearmode.c'],
      [('permission tests', 'mo_opmode, mo_clearmode')], TECH, NOTE)
def a05(prog, rep, tier):
    for cmd in ('OPMODE', 'CLEARMODE'):
        def build(g):
            def eff(e, chan):
                q = e.q; ct = e.terms[chan]
                names = []
                if isT(ct) and ct.k == 'call' and len(ct.a) > 2:
                    names.append(deref(ct.a[2]))
                names.append(S(ct) + '->Channel.chname[0]')
                local = any(q.eq(n, ord('&')) for n in names)
                ok = q.feat('FEAT_CONFIG_OPERCMDS') and (q.priv(SELF, 'PRIV_OPMODE') or (local and q.priv(SELF, 'PRIV_LOCAL_OPMODE')))
                g.require(e, 'opmode privilege', ok, '%s on %s without the opmode privilege for the channel' % (e.callee, e.args[chan]))
                quar = any(a[0] == 'eq' and a[3] is True and a[2] == 0 and a[1].startswith('find_quarantine(&%s->Channel.chname' % S(ct)) for a in q.seen)
                ok = quar or q.priv(SELF, 'PRIV_FORCE_OPMODE') or (local and q.priv(SELF, 'PRIV_FORCE_LOCAL_OPMODE'))
                g.require(e, 'quarantine respected', ok, '%s on %s, possibly quarantined, without the force privilege' % (e.callee, e.args[chan]))
            g.call('mode_parse', lambda e: eff(e, 3))
            g.call('modebuf_init', lambda e: eff(e, 3))
            g.stores['Channel.mode'] = None
            g.stores.pop('Channel.mode')
            def snd(e):
                if strarg(e.terms[1]) in ('CLEARMODE', 'OPMODE'):
                    c = next((i for i, t in enumerate(e.terms) if i > 3 and strarg(t) is None and isT(t)), None)
                    if c is not None and e.callee.endswith('serv_butone'): eff(e, c)
            g.rx.append((re.compile(r'sendcmdto_'), snd))
        run_cmd(prog, rep, cmd, build, relevant=[r'con_privs', r'feature_bool', r'find_quarantine', r'^\*?\$3\[1\]'], K=16)
    rep.need('opmode privilege', 2); rep.need('quarantine respected', 2)


# ------------------------------------------------------------------ A06
@prop('A06', 'Runtime feature settings change only for holders of the set privilege',
      'Through SET or RESET a client changes a feature only while holding the set privilege and only if the feature is not read only; feature values are written nowhere '
      'else except by configuration loading and the feature subsystem. GET discloses the value of a feature only if it is displayable and, where the feature is marked for local or '
      'any operators, only to such an operator.',
      ['inputs', 'configurations'], 'every SET, RESET and GET line, every feature, every requester',
      'there are over a hundred features with different visibility flags', ['ircd/ircd_features.c', 'ircd/m_set.c', 'ircd/m_reset.c', 'ircd/m_get.c'],
      [('privilege tests', 'feature_set, feature_reset, feature_get'), ('feature table', 'ircd/ircd_features.c: features')], TECH, NOTE)
def a06(prog, rep, tier):
    RO = prog.macro('ircd_features.c', 'FEAT_READ')
    for fn in ('feature_set', 'feature_reset'):
        g = Guard(prog, rep, relevant=[r'con_privs', r'^eq \$0', r'^\$0', r'FeatureDesc.flags'], K=10)
        def chk(e, g=g, fn=fn):
            D = e.args[0].split('->')[0].lstrip('&') if e.callee else ''
            q = e.q
            conf = q.z('$0')
            g.require(e, 'write needs SET', conf or q.priv('$0', 'PRIV_SET'), '%s writes a feature value for a client without the set privilege' % fn)
            ro = any(a[0] == 'eq' and a[2] == 0 and a[3] is True and a[1].endswith('FeatureDesc.flags&%d)' % RO) for a in q.seen)
            g.require(e, 'read-only respected', conf or ro, '%s writes a feature that may be read only' % fn)
        for f in ('v_int', 'v_str'):
            g.stores['FeatureDesc.' + f] = chk
        g.rx.append((re.compile(r'^$'), chk))
        g.on_indirect = None
        g.entryrun(fn, args=None)
    rep.need('write needs SET', 3); rep.need('read-only respected', 3)
    # who else writes
    writers = {f.name for f in prog.funcs.values() if prog.direct_writes(f) & {'FeatureDesc.v_int', 'FeatureDesc.v_str'}}
    for w in sorted(writers):
        ok = w in ('feature_set', 'feature_reset', 'feature_init', 'feature_unmark', 'feature_mark') or prog.funcs[w].mod == 'ircd_features.c'
        rep.ob('only the feature module writes feature values', w, ok, '%s writes feature values directly' % w)
    rep.need('only the feature module writes feature values', 2)
    # GET
    g = Guard(prog, rep, relevant=[r'FeatureDesc.flags', r'cli_flags', r'con_client', r'cli_hopcount'], K=16)
    NOD, MYO, OPR = (prog.macro('ircd_features.c', 'FEAT_' + n) for n in ('NODISP', 'MYOPER', 'OPER'))
    def show(e):
        src = [a for a in e.args[1:] if 'FeatureDesc.v_' in a] + [a[1] for a in e.q.seen if 'FeatureDesc.v_' in a[1]] + [a[1] for a in e.q.seen if 'FeatureDesc.get' in a[1]]
        if not src: return
        fl = re.match(r'(.*)FeatureDesc\.(v_|get)', src[0]).group(1) + 'FeatureDesc.flags'
        def off(bit): return e.q.z('(%s&%d)' % (fl, bit))
        q = e.q
        g.require(e, 'undisplayable hidden', off(NOD), 'value of a feature marked undisplayable is sent')
        g.require(e, 'local-oper feature', off(MYO) or (q.isoper('$0') or q.flag('$0', 'FLAG_LOCOP')) and q.mycon('$0'), 'value of a local-operator feature sent to someone else')
        g.require(e, 'oper feature', off(OPR) or q.isoper('$0') or q.flag('$0', 'FLAG_LOCOP'), 'value of an operator feature sent to a non-operator')
    g.rel.append(re.compile(r'FeatureDesc.(v_|get)'))
    g.call('send_reply', show)
    g.indirect_cb = show
    g.entryrun('feature_get')
    rep.need('undisplayable hidden', 3)




# ------------------------------------------------------------------ A07
@prop('A07', 'CONNECT, SQUIT and SETTIME respect operator scope and connection rules',
      'An operator whose status is only local cannot connect two remote servers, disconnect a server that is not directly linked, or change the clock of this or any server. '
      'An operator request links a configured server only if that server is not already present, no connection rule forbids it and it is not under an active jupe.',
      ['inputs', 'configurations'], 'every CONNECT, SQUIT and SETTIME line from a local or remote operator, every local-operator status, jupe and rule set',
      'no test uses a local operator with these commands or combines them with jupes and rules', ['ircd/m_connect.c', 'ircd/m_squit.c', 'ircd/m_settime.c'],
      [('scope tests', 'mo_connect, mo_squit, mo_settime'), ('rules and jupes', 'mo_connect, ms_connect')], TECH, NOTE)
def a07(prog, rep, tier):
    k = KS(prog)
    def deref_s(x): return '*' + x
    rel = [r'ConfItem.name', r'cli_flags', r'con_client', r'jupe_find', r'Jupe\.', r'conf_eval_crule', r'SeekServer', r'cli_status']
    def globaloper(q): return q.noflag(SELF, 'FLAG_LOCOP') or q.isoper(SELF)
    def locals_(g):
        def setup(st, a):
            g.assume(st, mkcmp('eq', T('ld', T('f', T('ld', T('f', a[1], 'Client.cli_connect'), None), 'Connection.con_client'), None), a[1]), True)
        return setup
    for h, args in [(h, 'o') for h in handlers(prog, 'CONNECT', ('oper',))] + [(h, 's') for h in handlers(prog, 'CONNECT', ('server',))]:
        if h in ('m_ignore', 'm_not_oper'): continue
        g = Guard(prog, rep, relevant=rel, K=24)
        def conn(e, g=g):
            q = e.q; aconf = e.args[0]
            rule = any(a[3] is True and a[0] == 'eq' and a[2] == 0 and a[1].startswith('conf_eval_crule(') and aconf in a[1] for a in q.seen)
            g.require(e, 'connection rules respected', rule, 'server connection started although a connection rule may forbid it')
            jup = any(a[0] == 'eq' and 'jupe_find(' in a[1] and aconf in a[1] and (
                (a[2] == 0 and a[3] is True and ('ju_flags' not in a[1] or 'ju_flags&%d)' % k.JUPE_ACTIVE in a[1]))
                or (a[2] == 0 and a[3] is False and 'ju_flags&%d)' % k.JUPE_LDEACT in a[1])
                or ('ju_flags&%d)' % (k.JUPE_ACTIVE | k.JUPE_LDEACT) in a[1] and (a[2] == k.JUPE_ACTIVE) != a[3])) for a in q.seen)
            g.require(e, 'jupes respected', jup, 'server connection started although the server may be juped')
            pres = any(a[0] == 'eq' and a[2] == 0 and a[3] is True and a[1].startswith('hSeekClient(') and aconf in a[1] for a in q.seen) \
                or q.z(aconf + '->ConfItem.name') or q.z(deref_s(aconf + '->ConfItem.name'))
            g.require(e, 'server not present', pres, 'server connection started although the server may already be linked')
        g.call('connect_server', conn)
        if args == 'o':
            def hunt(e, g=g):
                g.require(e, 'remote CONNECT needs a global operator', globaloper(e.q), 'CONNECT forwarded for a local operator')
            g.call(['hunt_server_cmd', 'hunt_server_prio_cmd'], hunt)
            g.entryrun(h, setup=locals_(g), args=selfargs())
        else:
            g.entryrun(h)
    for r, n in (('connection rules respected', 2), ('jupes respected', 2), ('server not present', 2), ('remote CONNECT needs a global operator', 1)):
        rep.need(r, n)
    def build(g):
        def ex(e):
            v = e.args[1]
            if v == SELF: return
            q = e.q
            ok = globaloper(q) or q.mycon(v)
            g.require(e, 'local operator squits only direct links', ok, 'a local operator can SQUIT %s, not directly linked' % v)
        g.call(['exit_client', 'exit_client_msg'], ex)
    for h in handlers(prog, 'SQUIT', ('oper',)):
        g = Guard(prog, rep, relevant=rel); build(g)
        g.entryrun(h, setup=locals_(g), args=selfargs())
    rep.need('local operator squits only direct links', 1)
    for h in handlers(prog, 'SETTIME', LOCAL):
        if h in ('m_not_oper', 'm_ignore', 'm_unregistered'): continue
        g = Guard(prog, rep, relevant=rel)
        def eff(e, g=g):
            g.require(e, 'SETTIME needs a global operator', e.q.isoper(SELF), 'clock change by someone who is not a global operator')
        g.call(['hunt_server_prio_cmd', 'hunt_server_cmd'], eff)
        g.stores['g:TSoffset'] = eff
        g.rx.append((re.compile(r'sendcmdto_serv'), eff))
        g.entryrun(h, setup=locals_(g), args=selfargs())
    rep.need('SETTIME needs a global operator', 2)
    # the generic forwarder
    for fn in ('hunt_server_cmd', 'hunt_server_prio_cmd'):
        g = Guard(prog, rep, relevant=[r'cli_flags', r'cli_status', r'^\$4', r'^eq \$4'])
        def fw(e, g=g):
            q = e.q
            ok = q.z('$4') or q.flag('$0', 'FLAG_OPER') or q.flag('$0', 'FLAG_LOCOP') or q.isserver('$0') or q.isme('$0')
            g.require(e, 'operator-only requests are forwarded only for operators', ok, 'request marked operator-only forwarded for an ordinary user')
        g.rx.append((re.compile(r'sendcmdto_'), fw))
        g.entryrun(fn)
    rep.need('operator-only requests are forwarded only for operators', 2)


# ------------------------------------------------------------------ A08
UNREG_OK = {'m_unregistered', 'm_ignore', 'm_quit', 'mr_error', 'mr_pong', 'mr_pass', 'mr_server', 'm_user', 'm_nick', 'm_cap', 'm_proto', 'm_sasl', 'm_webirc',
            'm_version', 'm_admin'}
OPER_ONLY = 'WALLOPS WALLUSERS KILL SQUIT SETTIME RPING CONNECT CLOSE JUPE OPMODE CLEARMODE UPING REHASH RESTART DIE SET RESET GET PRIVS ASLL'.split()
SERVER_ONLY = 'BURST CREATE DESTRUCT DESYNCH END_OF_BURST EOB_ACK ACCOUNT XREPLY CONFIG SLINE RPONG'.split()
INERT = {'m_ignore', 'm_not_oper', 'm_unregistered', 'm_registered'}


@prop('A08', 'Commands are dispatched only to roles entitled to them',
      'A connection that has not finished registration can run only registration-stage commands, an ordinary user cannot run operator commands, and no local client can '
      'run the server-to-server commands. A connection is moved to the user, operator or server role only where it registers, links, gains or loses operator status, and '
      'every received command runs the handler of the current role of the connection it arrived on.',
      ['inputs', 'histories'], 'every command name and token in every connection state',
      'tests never send every operator or server command from every role', ['ircd/parse.c'],
      [('dispatch table', 'ircd/parse.c: msgtab'), ('dispatch', 'ircd/parse.c: parse_client, parse_server'), ('role changes', 'con_handler')],
      'table extraction from LLVM IR, whole-program store (effect) analysis and provenance of the dispatched function pointer',
      'The classification of commands as registration-stage, operator-only and server-only is part of the specification (from the documentation and the command purpose); '
      'privileges inside operator handlers are A01 to A07. Trusts clang and the irdump tool.')
def a08(prog, rep, tier):
    tab = msgtab(prog)
    cmds = {}
    k = KS(prog)
    for m in tab:
        for nm in {m.cmd, m.tok}:
            if nm is None: continue
            rep.ob('one entry per command name', nm, nm not in cmds or cmds[nm] is m, 'command or token %s appears twice in the dispatch table' % nm)
            cmds[nm] = m
        u, c, s, o, v = m.h
        rep.ob('unregistered connections get registration-stage handlers', m.cmd, u in UNREG_OK, '%s runs %s for a connection that is not registered' % (m.cmd, u))
        if v is not None:
            rep.ob('unused service role is inert', m.cmd, v in INERT, '%s runs %s in the unused service role' % (m.cmd, v))
        # a server handler never runs for a local client
        servers = {x.h[2] for x in tab} - {x.h[r] for x in tab for r in (0, 1, 3)}
        for r, h in ((0, u), (1, c), (3, o)):
            ok = not (h and re.match(r'ms_', h))
            rep.ob('no server handler in a client column', '%s/%s' % (m.cmd, ROLES[r]), ok, '%s runs the server handler %s for role %s' % (m.cmd, h, ROLES[r]))
        ok = not (c and re.match(r'mo_', c)) or m.cmd in ('XQUERY',)
        rep.ob('no operator handler in the client column', m.cmd, ok, '%s runs the operator handler %s for ordinary users' % (m.cmd, c))
    for nm in OPER_ONLY:
        m = cmds.get(nm)
        if m is None: rep.broken('operator command %s is missing' % nm)
        for r in (0, 1):
            rep.ob('operator commands are inert for others', '%s/%s' % (nm, ROLES[r]), m.h[r] in INERT, '%s runs %s for role %s' % (nm, m.h[r], ROLES[r]))
    for nm in SERVER_ONLY:
        m = cmds.get(nm)
        if m is None: rep.broken('server command %s is missing' % nm)
        for r in (0, 1, 3):
            rep.ob('server commands are inert for clients', '%s/%s' % (nm, ROLES[r]), m.h[r] in INERT, '%s runs %s for role %s' % (nm, m.h[r], ROLES[r]))
    # inert handlers
    for h in sorted(INERT):
        f = prog.fn(h)
        if f is None: continue
        bad = {c for c in prog.callees.get(h, ()) if c not in ('send_reply', 'cli_name', 'feature_str', 'feature_bool', 'feature_int') and not c.startswith('llvm.')}
        bad = {c for c in bad if c in prog.funcs and (prog.funcs[c].key in frozen() or prog.funcs[c].name in frozen())}
        w = prog.direct_writes(f)
        rep.ob('inert handlers only reply', h, not bad and not w, '%s does more than reply: %s %s' % (h, sorted(bad), sorted(w)))
    # role writers
    OKW = {'UNREGISTERED_HANDLER': {'make_client', 'make_connection', 'alloc_connection', 'free_connection'}, 'CLIENT_HANDLER': {'register_user', 'set_user_mode', 'de_oper'},
           'OPER_HANDLER': {'m_oper', 'make_oper'}, 'SERVER_HANDLER': {'server_estab', 'main', 'init_me'}}
    vals = {getattr(k, n): n for n in OKW}
    n = 0
    for f in prog.funcs.values():
        if 'Connection.con_handler' not in prog.direct_writes(f): continue
        n += 1
        roots = owners(prog, f)
        for v, line in const_stores(prog, f, 'Connection.con_handler'):
            nm = vals.get(v)
            ok = nm is not None and all(r in OKW[nm] for r in roots)
            rep.ob('role assignments', '%s in %s' % (nm or v, f.name), ok, 'role %s given to a connection in %s (reached from %s)' % (nm or v, f.name, sorted(roots)[:4]))
    if n < 5: rep.broken('role assignments not found')
    # dispatch uses the role of the arriving connection
    for fn in ('parse_client', 'parse_server'):
        g = Guard(prog, rep, relevant=[], KLOOP=1, K=2)
        def ld(e, g=g, fn=fn):
            a = e.args[0]
            ok = a.endswith('Message.handlers[$0->Client.cli_connect->Connection.con_handler]')
            g.require(e, 'handler chosen by the role of the arriving connection', ok, '%s uses %s, not the handler of the role of the connection the line arrived on' % (fn, a))
        g.loads['Message.handlers'] = ld
        def icb(e, g=g, fn=fn):
            fp = g.val(e.st, e.f, e.ins[3])
            ok = isT(fp) and (fp.k in ('j', 'phi') or 'Message.handlers' in S(fp))
            g.require(e, 'handlers come from the dispatch table', ok, '%s calls %s' % (fn, S(fp)))
        g.indirect_cb = icb
        g.entryrun(fn)
    rep.need('handler chosen by the role of the arriving connection', 2)


def const_stores(prog, f, key):
    """(value or None, line) of the direct stores of f to a field"""
    prog.modsets()
    for b in f.blocks:
        for ins in b:
            if ins[0] == 'store' and prog.opkey(f, f.defs, ins[4], ins[5]) == key:
                yield (ins[3] if not isinstance(ins[3], list) else None), ins[2]


def owners(prog, f):
    """frozen functions on whose behalf a possibly new static helper runs"""
    fz = frozen()
    if f.name in fz or f.key in fz: return {f.name}
    out = set(); seen = set(); work = [f.name]
    while work:
        x = work.pop()
        if x in seen: continue
        seen.add(x)
        cs = [g for g in prog.funcs.values() if x in prog.callees.get(g.key, prog.callees.get(g.name, ()))]
        if not cs: out.add(x)
        for c in cs:
            if c.name in fz or c.key in fz: out.add(c.name)
            else: work.append(c.name)
    return out


# ------------------------------------------------------------------ A09
@prop('A09', 'Operator status is granted only on valid operator credentials',
      'A local client becomes an operator with OPER only if an operator block matches its name and address, the block is not marked illegal, the client presents the TLS '
      'fingerprint the block demands (if any), the password matches, and attaching the block succeeds. A remote server grants or removes operator status of a local user only if '
      'it is listed as a privileged (U:lined) server with the operator option, and hides a local user\'s host only for users logged in to an account.',
      ['inputs', 'configurations'], 'every OPER line against every operator block, and every server-sent operator mode',
      'tests cover one success and one failure', ['ircd/m_oper.c', 'ircd/m_opmode.c'], [('credential checks', 'm_oper'), ('server grants', 'ms_opmode')], TECH,
      NOTE + 'The password hash comparison itself (crypt) and host matching are taken as given.')
def a09(prog, rep, tier):
    k = KS(prog)
    rel = [r'find_conf_exact\(', r'oper_password_match\(', r'tls_fingerprint', r'attach_conf\(', r'ircd_strcmp\(', r'find_conf_byhost\(', r'strcmp\(\$3\[2\]', r'cli_status', r'cli_flags']
    def build(g):
        def grant(e):
            q = e.q
            cs = {m.group(0) for a in q.seen for m in re.finditer(r'find_conf_exact\([^()]*(\([^()]*\)[^()]*)*\)', str(a[1]))}
            ok = False; why = 'no operator block was looked up'
            for c in cs:
                probs = []
                if not q.nz(c): probs.append('no matching block')
                if not (q.z('(%s->ConfItem.status&%d)' % (c, k.CONF_ILLEGAL)) or any(a[0] == 'eq' and a[2] == 0 and a[3] is True and c in a[1] and 'ConfItem.status&' in a[1] for a in q.seen)):
                    probs.append('block may be illegal')
                fp = '%s->ConfItem.tls_fingerprint' % c
                if not (q.z(fp) or q.z('*' + fp) or any(a[0] == 'eq' and a[2] == 0 and a[3] is True and re.match(r'(ircd_)?strcmp\(', a[1]) and fp in a[1] and '$1->Client.cli_' in a[1] for a in q.seen)):
                    probs.append('TLS fingerprint not compared')
                if not any(a[0] == 'eq' and a[2] == 0 and a[3] is False and a[1].startswith('oper_password_match($3[2],%s->ConfItem.passwd)' % c) for a in q.seen):
                    probs.append('password not matched')
                if not any(a[0] == 'eq' and a[3] is True and a[1].startswith('attach_conf($1,%s)' % c) and a[2] == k.ACR_OK for a in q.seen):
                    probs.append('block not attached')
                if not probs: ok = True
                else: why = ', '.join(probs)
            g.require(e, 'operator credentials', ok, 'operator status granted: ' + why)
        def flags(e):
            nv = e.terms[1]
            # a store that may set OPER or LOCOP
            for n in ('FLAG_OPER', 'FLAG_LOCOP'):
                v = getattr(k, n)
                if not surely_clear_or_same(g, e, v): grant(e); return
        def surely_clear_or_same(g, e, v):
            ad, nv = e.terms
            if not (isT(ad) and ad.k == 'ix' and ad.a[1] == v // 64): return True
            m = 1 << (v % 64)
            r = mkbin('and', nv, m)
            if not isT(r): return r == 0
            old = mkbin('and', g.load(e.st, ad, 'i64'), m)
            return r is old or surely_clear(g, e.st, nv, m)
        def hnd(e):
            if e.terms[1] == k.OPER_HANDLER or isT(e.terms[1]): grant(e)
        g.stores['Flags.bits'] = flags
        g.stores['Connection.con_handler'] = hnd
        g.call('client_set_privs', grant)
    run_cmd(prog, rep, 'OPER', build, relevant=rel, K=12, skip=('m_ignore', 'm_not_oper', 'm_unregistered', 'm_registered', 'mo_oper'))
    rep.need('operator credentials', 3)
    for h in handlers(prog, 'OPMODE', ('server',)):
        g = Guard(prog, rep, relevant=rel, K=12)
        def conf(e):
            q = e.q
            cs = {a[1] for a in q.seen if a[0] == 'eq' and a[2] == 0 and a[3] is False and re.match(r'find_conf_byhost\(.*,%d\)$' % k.CONF_UWORLD, a[1]) and '$1->Client.cli_name' in a[1]}
            return q, cs
        def grant(e, g=g):
            q, cs = conf(e)
            ok = q.isserver(SELF) and any(q.nz('(%s->ConfItem.flags&%d)' % (c, k.CONF_UWORLD_OPER)) for c in cs)
            g.require(e, 'server grants of operator status', ok, 'operator status of a user changed by a source that is not a server with the operator privilege')
        def fl(e, g=g):
            ad, nv = e.terms
            for n in ('FLAG_OPER', 'FLAG_LOCOP'):
                v = getattr(k, n)
                if isT(ad) and ad.k == 'ix' and ad.a[1] == v // 64:
                    r = mkbin('and', nv, 1 << (v % 64)); old = mkbin('and', g.load(e.st, ad, 'i64'), 1 << (v % 64))
                    if r is not old: grant(e)
            v = k.FLAG_HIDDENHOST
            if isT(ad) and ad.k == 'ix' and ad.a[1] == v // 64:
                r = mkbin('and', nv, 1 << (v % 64)); old = mkbin('and', g.load(e.st, ad, 'i64'), 1 << (v % 64))
                if r is not old and not (r == 0 and not isT(r)):
                    q, cs = conf(e)
                    X = e.args[0]
                    X = re.sub(r'^&(.*)->Client\.cli_flags.*', r'\1', X)
                    g.require(e, 'server hides hosts only of logged-in users', q.flag(X, 'FLAG_ACCOUNT') and cs and q.isserver(SELF), 'host of %s hidden without an account or by an unprivileged server' % X)
        g.stores['Flags.bits'] = fl
        g.call('client_set_privs', grant)
        g.stores['Connection.con_handler'] = grant
        g.entryrun(h)
    rep.need('server grants of operator status', 3); rep.need('server hides hosts only of logged-in users', 1)


# ------------------------------------------------------------------ A10
@prop('A10', 'Users cannot give themselves operator, service, account or TLS status',
      'A MODE line from a local user never leaves that user with operator, local operator, channel service, account or TLS status that it did not have before the line, '
      'whatever letters and signs it contains and in whatever order.',
      ['inputs', 'histories'], 'every user MODE string of any length',
      'tests try single letters; the rule is over every string', ['ircd/s_user.c', 'ircd/s_misc.c'], [('mode evaluation', 'ircd/s_user.c: set_user_mode')], TECH,
      NOTE + 'Run once per status bit, assuming it absent at entry and the line to come from a non-server connection.')
def a10(prog, rep, tier):
    k = KS(prog)
    for n in ('FLAG_OPER', 'FLAG_LOCOP', 'FLAG_CHSERV', 'FLAG_ACCOUNT', 'FLAG_TLS'):
        v = getattr(k, n); m = 1 << (v % 64)
        g = Guard(prog, rep, relevant=[], K=2, KLOOP=2, inline={'hide_hostmask'})
        g.bits = (m,)
        def word(a): return T('ix', T('f', T('f', a[1], 'Client.cli_flags'), 'Flags.bits'), v // 64)
        cell = [None]
        def setup(st, a, g=g):
            cell[0] = word(a)
            g.assume(st, mkcmp('eq', mkbin('and', T('ld', cell[0], None), m), 0), True)
            g.assume(st, mkcmp('eq', T('ld', T('f', a[0], 'Client.cli_status'), None), k.STAT_USER), True)
            g.assume(st, mkcmp('eq', T('ld', T('f', T('ld', T('f', a[1], 'Client.cli_connect'), None), 'Connection.con_client'), None), a[1]), True)
        def end(e, g=g):
            w = g.load(e.st, cell[0], 'i64')
            g.require(e, 'no self-granted ' + n[5:], surely_clear(g, e.st, w, m), 'a user can end a MODE line with %s status it did not have: %s' % (n[5:], S(w)))
        done = T('named', 'announced')
        def ret(e, g=g):
            # once the change has been announced nothing below this function changes it
            if g.fact(e.st, done)[0] != 1: end(e)
        g.retcb = ret
        g.call('send_umode_out', end)
        g.afters['send_umode_out'] = lambda e, r: e.st.facts.__setitem__(done, (1, 1, E))
        def late(e, g=g):
            if g.fact(e.st, done)[0] == 1: end(e)
        g.stores['Flags.bits'] = late
        g.entryrun('set_user_mode', setup, args=selfargs() + [T('arg', 4)])
        rep.need('no self-granted ' + n[5:], 2)


# ------------------------------------------------------------------ A11
@prop('A11', 'Operator-only server notices reach only operators',
      'A local user who is not an operator is never subscribed to the operator-only server notice classes (client connects and exits, failed operator attempts, authorization '
      'service messages), and a user who loses operator status loses any such subscription.',
      ['inputs', 'histories'], 'every notice mask a user can ask for and every way of gaining and losing operator status',
      'depends on the order of mode letters and on who removes the status', ['ircd/s_user.c', 'ircd/m_opmode.c'],
      [('mask of the subscription', 'ircd/s_user.c: set_snomask'), ('loss of status', 'set_user_mode, ms_opmode')], TECH,
      NOTE + 'The subscription mask and the subscriber lists are assumed to agree (both are changed only together, which is checked).')
def a11(prog, rep, tier):
    k = KS(prog)
    # 1. the mask stored for a non-operator has no operator-only bit
    g = Guard(prog, rep, relevant=[r'cli_flags', r'con_client'], K=12)
    g.bits = (k.SNO_OPER,)
    def st_(e):
        q = e.q
        oper = q.flag('$0', 'FLAG_OPER') or q.flag('$0', 'FLAG_LOCOP')
        g.require(e, 'no operator-only class for others', oper or surely_clear(g, e.st, e.terms[1], k.SNO_OPER), 'a non-operator may be subscribed to operator-only notices')
    g.stores['Connection.con_snomask'] = st_
    g.entryrun('set_snomask')
    rep.need('no operator-only class for others', 1)
    for f in prog.funcs.values():
        if 'Connection.con_snomask' in prog.direct_writes(f):
            rep.ob('only one writer of the mask', f.name, owners(prog, f) <= {'set_snomask', 'make_connection', 'make_client', 'alloc_connection'}, '%s writes the notice mask' % f.name)
        if 'g:opsarray' in prog.direct_writes(f):
            rep.ob('only one writer of the subscriber lists', f.name, owners(prog, f) <= {'set_snomask'}, '%s writes the subscriber lists' % f.name)
    rep.need('only one writer of the mask', 1); rep.need('only one writer of the subscriber lists', 1)
    # 2. losing operator status is followed by dropping the classes
    for h in handlers(prog, 'OPMODE', ('server',)):
        g = Guard(prog, rep, relevant=[r'cli_flags', r'con_client', r'feature_bool'], K=16)
        lost = {}
        def fl(e, g=g):
            ad, nv = e.terms
            v = k.FLAG_OPER
            if isT(ad) and ad.k == 'ix' and ad.a[1] == v // 64:
                r = mkbin('and', nv, 1 << (v % 64))
                if r == 0 and not isT(r):
                    X = ad.a[0].a[0].a[0]
                    e.st.tags = e.st.tags | {('lost', S(X))}
                    lost[S(X)] = X
        g.stores['Flags.bits'] = fl
        def drop(e, r, g=g):
            X = e.args[0]
            m, what = e.terms[1:3]
            ok = (what == k.SNO_SET and surely_clear(g, e.st, m, k.SNO_OPER)) or (what == k.SNO_DEL and surely_set(g, e.st, m, k.SNO_OPER))
            if ok: e.st.tags = e.st.tags - {('lost', X)}
        g.afters['set_snomask'] = drop
        def end(e, g=g):
            for t, x in e.st.tags:
                X = lost[x]
                c = mkcmp('eq', T('ld', T('f', T('ld', T('f', X, 'Client.cli_connect'), None), 'Connection.con_client'), None), X)
                g.require(e, 'loss of status drops operator notices', g.decide(e.st, c) is False, 'a local user loses operator status by a server request but keeps its operator-only notices')
            if not e.st.tags: g.require(e, 'loss of status drops operator notices', True, '')
        g.retcb = end
        g.entryrun(h)
    rep.need('loss of status drops operator notices', 1)
