"""R: how connections become servers and users."""
from checks.common import *
from checks.a_auth import TECH, NOTE, SELF, owners, const_stores
from checks.a_chan import LINKNOTE
from checks.b_deliver import call0, call1, tablewalks

CONFP = 'find_conf_byname('


def blank(q, X):
    """the string X is missing or empty"""
    return q.z(X) or any(a[0] == 'eq' and a[2] == 0 and a[3] is True and a[1] in ('*' + X, X + '[0]') for a in q.seen)


def samestr(q, X, Y, fns=('strcmp', 'ircd_strcmp')):
    return any(q.z('%s(%s,%s)' % (f, x, y)) for f in fns for x, y in ((X, Y), (Y, X)))


# ------------------------------------------------------------------ R01
@prop('R01', 'A connection becomes a server link only after full authentication',
      'A connection is linked as a server only if it did not arrive on a client port, its name is not under an active jupe nor denied by a connection rule, a Connect block for that name '
      'admits it, and the TLS fingerprint, the verified host name and the password that block asks for all match. It must also speak a known protocol and pass the name, numeric and hub checks. '
      'No other code turns a connection into a server link.',
      ['inputs', 'configurations'], 'every SERVER line from an unregistered connection and every Connect block',
      'a peer that skips one check is trusted with the whole network; tests only link with correct credentials',
      ['ircd/m_server.c', 'ircd/s_serv.c', 'ircd/s_conf.c'], [('handshake', 'ircd/m_server.c: mr_server'), ('establishing', 'ircd/s_serv.c: server_estab')], TECH,
      NOTE + 'Connection rules, certificate host verification and configuration lookup themselves are taken as given.')
def r01(prog, rep, tier):
    k = KS(prog)
    def build(g):
        g.noinline = {'server_estab', 'check_loop_and_lh', 'clean_servername', 'parse_protocol', 'conf_check_server', 'exit_new_server'}
        def estab(e):
            q = e.q; X = e.args[0]; C = e.args[1]
            def rq(r, ok, m): g.require(e, r, ok, m)
            for n, t in (('STAT_UNKNOWN_USER', 'user'), ('STAT_WEBSOCKET', 'websocket')):
                rq('not from a client port', q.ne(q.statx(X), getattr(k, n)), 'server link accepted on a %s port' % t)
            rq('not juped', jupe_clear(q, '[1]'), 'a juped server may link')
            rq('connection rules', any(a[0] == 'eq' and a[3] is True and a[2] == 0 and a[1].startswith('conf_eval_crule(') and a[1].endswith(',%d)' % k.CRULE_ALL) for a in q.seen), 'server links without passing the connection rules')
            rq('connect block', call0(q, 'conf_check_server', X), 'server links without conf_check_server accepting it')
            rq('connect block', q.nz(C) and C.startswith('find_conf_byname('), 'server links without a Connect block for its name')
            F = C + '->ConfItem.tls_fingerprint'
            rq('fingerprint', blank(q, F) or any(a[0] == 'eq' and a[3] is True and a[2] == 0 and re.match(r'(ircd_)?strcmp\(', a[1]) and 'tls_fingerprint' in a[1] and F in a[1] and X + '->Client.cli_tls_fingerprint' in a[1] for a in q.seen), 'server links with the wrong TLS fingerprint')
            P = C + '->ConfItem.passwd'
            rq('password', blank(q, P) or any(a[0] == 'eq' and a[3] is True and a[2] == 0 and re.match(r'strcmp\(', a[1]) and P in a[1] and 'con_passwd' in a[1] for a in q.seen), 'server links with the wrong password')
            rq('host name verified', q.noflag(X, 'FLAG_TLS') or any(a[3] is True and a[2] == 0 and (a[1].startswith('ircd_tls_connect_verify_hostname(') or a[1].startswith('ircd_tls_check_peer_hostname(')) for a in q.seen),
               'server links over TLS without the verification of its host name')
            rq('loop and hub check', any(a[0] == 'eq' and a[3] is True and a[2] == 1 and a[1].startswith('check_loop_and_lh(%s,' % X) for a in q.seen), 'server links without the loop and hub check')
            rq('known protocol', any(a[0] == 'eq' and a[3] is False and a[2] == 0 and 'parse_protocol(' in a[1] for a in q.seen), 'server links with an unknown protocol')
        g.call('server_estab', estab)
    rel = [pred(r'cli_status', ('eq',), False), r'jupe_find|ju_flags', pol(r'^(conf_eval_crule|conf_check_server)\(', Z), pol(r'^find_conf_byname\(', NZ), pol(r'tls_fingerprint|passwd|ircd_tls_', Z),
           pol(flagrx(k, 'FLAG_TLS'), Z), pred(r'^check_loop_and_lh\(', ('eq',), True), pol(r'parse_protocol\(', NZ)]
    run_cmd(prog, rep, 'SERVER', build, roles=('unreg',), relevant=rel, K=12)
    # nothing else establishes a server link
    sites = 0
    for f, ins, c in allcalls(prog, r'server_estab$'):
        sites += 1
        rep.ob('links are made by the handshake only', 'ircd/%s:%s (%s)' % (f.mod, ins[2], f.name), owners(prog, f) <= {'mr_server'}, 'server_estab called from %s' % f.name)
    if not sites: rep.broken('server_estab is never called')
    for f, l, fld_, v in statstores(prog):
        if v == k.STAT_SERVER:
            rep.ob('server status', 'ircd/%s:%s (%s)' % (f.mod, l, f.name), owners(prog, f) <= {'server_estab'}, '%s gives a connection server status' % f.name)
    rep.need('server status', 1)
    for r in ('not from a client port', 'not juped', 'connection rules', 'connect block', 'fingerprint', 'password', 'host name verified', 'loop and hub check', 'known protocol', 'links are made by the handshake only'):
        rep.need(r, 1)
    # the Connect block is the one that fits: conf_check_server
    g = Guard(prog, rep, relevant=[pol(r'^(attach_confs_byname|find_conf_by(name|host|ip))\(', NZ), pred(r'cli_status', ('eq',))], K=8)
    def ret(e):
        v = e.terms[0]
        if isT(v) or v == 0:
            at = e.st.tags
            g.require(e, 'accepted only with a block', any(t[0] == 'att' for t in at), 'conf_check_server accepts without attaching a Connect block')
    g.retcb = ret
    def att(e):
        q = e.q
        g.require(e, 'block found', q.nz(e.args[1]) and e.args[1].startswith('find_conf_by'), 'conf_check_server attaches a block it did not find')
        e.st.tags = frozenset(e.st.tags | {('att',)})
    g.call('attach_conf', att)
    g.entryrun('conf_check_server')
    rep.need('accepted only with a block', 1)


def statstores(prog):
    """(function, line, field, constant or None) of every store to cli_status"""
    prog.modsets()
    for f in prog.funcs.values():
        for b in f.blocks:
            for ins in b:
                if ins[0] == 'store':
                    o = ins[4]
                    d = f.defs.get(o[1]) if isinstance(o, list) and o and o[0] == 'v' else None
                    if d is not None and d[0] == 'gep' and 'Client.cli_status' in repr(d):
                        yield f, ins[2], 'cli_status', ins[3] if isinstance(ins[3], int) else None


# ------------------------------------------------------------------ R02
@prop('R02', 'New servers respect hub limits and unique names and numerics',
      'A server that is not a hub accepts no second server link, and a linked server may introduce further servers only within the hop limit and the hub mask of its Connect block. '
      'A server is added, if no existing link is broken for it and this server did not itself open the connection, only when its name and its numeric are both unused; a name that belongs to a user or to this server is refused. '
      'Servers behind a link are added only by that introduction.',
      ['inputs', 'histories', 'configurations'], 'every SERVER introduction against every set of linked servers, names and numerics',
      'collisions need two servers with the same name or numeric; the tests link one', ['ircd/m_server.c'], [('collision and hub rules', 'ircd/m_server.c: check_loop_and_lh')], TECH,
      NOTE + 'Runs in which the new server displaces another link (the timestamp rules of a loop) are not judged.')
def r02(prog, rep, tier):
    k = KS(prog)
    hub = 'feature_bool(%d)' % k.FEAT_HUB
    rel = [pol(r'^LocalClientArray', ('eq', k.STAT_SERVER, True), ('eq', k.STAT_SERVER, False), Z), pol(r'^\$2$', Z, NZ), pol(r'^feature_bool\(', NZ), pol(r'^(hSeekClient\([^>]*\)|FindNServer\([^>]*\)|\$4|\*?\$3|\$3\[0\])$', Z),
           pol(r'->ConfItem.hub_limit$|^match\(', Z, NZ), pred(r'ConfItem.maximum', ('slt', 'sle', 'ult', 'ule')),
           pol(r'(hSeekClient|FindNServer)\(.*cli_status', ('eq', k.STAT_SERVER, True), ('eq', k.STAT_CONNECTING, True), ('eq', k.STAT_HANDSHAKE, True)),
           lambda a: a[0] == 'eq' and a[3] and '$0' in (a[1], a[2]) and '->' not in '%s%s' % (a[1], a[2])]
    g = WalkGuard(prog, rep, relevant=rel, K=12)
    g.noinline = {'exit_new_server', 'a_kills_b_too'}
    g.drop = re.compile(r'LocalClientArray'); g.forget = re.compile('LocalClientArray')
    def ex(e):
        X = e.args[1]
        if re.match(r'(hSeekClient|FindNServer)\(', X):
            g.require(e, 'only servers are displaced', any(e.q.eq(e.q.statx(X), v) for v in (k.STAT_SERVER, k.STAT_CONNECTING, k.STAT_HANDSHAKE)), 'a client that is no server may be displaced by a new server of its name')
        return 'DEAD'
    g.call(['exit_client', 'exit_client_msg', 'exit_new_server'], ex)
    for f, l, v in tablewalks(prog, 'LocalClientArray', 'HighestFd'):
        if f.name == 'check_loop_and_lh': rep.ob('leaf looks at every link', 'ircd/%s:%s (%s)' % (f.mod, l, f.name), {1, 2, 3, 4, 5} <= set(v), 'the scan for an existing server link visits slots %s of 0..5' % v)
    f0 = [f for f in prog.funcs.values() if f.name == 'check_loop_and_lh']
    if len(f0) != 1: rep.broken('check_loop_and_lh not found')
    prog.modsets(); prog.cfg(f0[0])
    heads = {h for h, body in f0[0].loops.items() if any('LocalClientArray' in repr(i) for b in body for i in f0[0].blocks[b])}
    def nxt(e, h):
        if h not in heads: return
        L = [a for a in e.q.seen if a[1].startswith('LocalClientArray')]
        g.require(e, 'leaf looks at every link', any(a[0] == 'eq' and ((a[2] == 0 and a[3]) or (a[2] == k.STAT_SERVER and not a[3])) for a in L), 'the scan for an existing server link may pass one over')
    g.walks['check_loop_and_lh'] = nxt
    def ret(e):
        if e.terms[0] != 1: return
        q = e.q
        own = any(a[0] == 'eq' and a[3] and '$0' in (a[1], a[2]) and re.match(r'(hSeekClient|FindNServer)\(', str(a[2]) if a[1] == '$0' else a[1]) for a in q.seen)
        name = blank(q, '$3') or any(a[2] == 0 and a[3] and a[1].startswith('hSeekClient($3') for a in q.seen)
        num = q.z('$4') or any(a[2] == 0 and a[3] and a[1].startswith('FindNServer($4') for a in q.seen)
        g.require(e, 'name and numeric unused', own or (name and num), 'a server may be accepted although its name or numeric is in use')
        if not q.nz('$2'):
            g.require(e, 'hop limit', any(p in ('ule', 'sle') and a == '$6' and str(b).endswith('->ConfItem.maximum') and t or p in ('ult', 'slt') and a.endswith('->ConfItem.maximum') and b == '$6' and not t for p, a, b, t in q.seen), 'a server may be introduced beyond the hop limit')
            g.require(e, 'hub mask', any(a[2] == 0 and a[3] and 'hub_limit' in a[1] and (not a[1].startswith('match') or a[1].endswith(',$3)')) for a in q.seen), 'a server may be introduced outside the hub mask')
        if not q.z('$2'):
            seen = [t for t in e.st.tags if t[0] == 'walk' and t[2] in heads]
            two = any(a[1].startswith('LocalClientArray') and a[2] == k.STAT_SERVER and a[3] for a in q.seen)
            g.require(e, 'leaf takes one link', q.nz(hub) or (bool(seen) and not two), 'a leaf may accept a second server link')
    g.retcb = ret
    g.entryrun('check_loop_and_lh')
    def build(g):
        g.noinline = {'check_loop_and_lh', 'clean_servername', 'parse_protocol', 'exit_new_server', 'set_server_flags'}
        def mk(e):
            q = e.q
            g.require(e, 'introduction checked', any(a[0] == 'eq' and a[2] == 1 and a[3] and re.match(r'check_loop_and_lh\(\$0,\$1,0,', a[1]) for a in q.seen), 'a server is added without the loop and hub check')
            g.require(e, 'valid name', any(a[0] == 'eq' and a[2] == 0 and not a[3] and a[1].startswith('clean_servername(') for a in q.seen), 'a server is added under an invalid name')
            g.require(e, 'known protocol', any(a[0] == 'eq' and a[2] == 0 and not a[3] and 'parse_protocol(' in a[1] for a in q.seen), 'a server is added with an unknown protocol')
        g.call('make_server', mk)
    run_cmd(prog, rep, 'SERVER', build, roles=('server',), selfconn=False, relevant=[pol(r'^(clean_servername|parse_protocol)\(', NZ), pred(r'^check_loop_and_lh', ('eq',), True)], K=12)
    for f, ins, c in allcalls(prog, r'make_server$'):
        rep.ob('servers are added by SERVER', 'ircd/%s:%s (%s)' % (f.mod, ins[2], f.name), owners(prog, f) <= {'mr_server', 'ms_server', 'connect_server', 'main', 'init_server', 'init_conf', 'mo_jupe', 'ms_jupe'}, 'make_server called from %s' % f.name)
    for r in ('leaf looks at every link', 'name and numeric unused', 'hop limit', 'hub mask', 'leaf takes one link', 'introduction checked', 'servers are added by SERVER'): rep.need(r, 1)


# ------------------------------------------------------------------ R03
def consts(f, o, depth=0):
    """set of the constants an operand can be, with None for anything else"""
    if isinstance(o, int): return {o}
    d = f.defs.get(o[1]) if isinstance(o, list) and o and o[0] == 'v' else None
    if d is None or depth > 6: return {None}
    if d[0] == 'phi':
        out = set()
        for pb, v in d[3]: out |= consts(f, v, depth + 1)
        return out
    if d[0] == 'select': return consts(f, d[4], depth + 1) | consts(f, d[5], depth + 1)
    if d[0] == 'cast': return consts(f, d[4], depth + 1)
    return {None}


AUTHBITS = 'AuthRequestFlags.bits'


@prop('R03', 'A user is registered only when every requirement has been met',
      'A connecting client is registered as a user only after NICK and USER, the reply to its PING with the right cookie, the end of any capability negotiation, the end or timeout of its ident and DNS lookups, '
      'the K-line and G-line check, and the verdict of the authorization helper or, where that helper is not mandatory, its timeout. It is registered only with an acceptable user name and after being '
      'given a class by the helper or admitted by a Client block whose password and TLS fingerprint it matched.',
      ['inputs', 'histories', 'configurations'], 'every order in which the commands of a client, lookup replies, helper messages and timeouts can arrive',
      'a requirement can be bypassed by one unusual order of events', ['ircd/s_auth.c', 'ircd/s_user.c', 'ircd/m_pong.c', 'ircd/m_cap.c'], [('gate', 'ircd/s_auth.c: check_auth_finished'), ('registration', 'ircd/s_user.c: register_user')], TECH,
      NOTE + 'find_kill, the user-name rules, Client block matching and the iauth process are judged by other properties or taken as given. The requirement bits may also be cleared in one place only, which is enumerated.')
def r03(prog, rep, tier):
    k = KS(prog)
    def c(n):
        v = prog.enums.get(n)
        if v is None: rep.broken('constant %s not found' % n)
        return v
    NEED = [(n, c(n)) for n in ('AR_AUTH_PENDING', 'AR_DNS_PENDING', 'AR_CAP_PENDING', 'AR_NEEDS_PONG', 'AR_NEEDS_USER', 'AR_NEEDS_NICK', 'AR_IAUTH_PENDING')]
    GL = 1 << c('AR_GLINE_CHECKED'); SOFT = c('AR_IAUTH_SOFT_DONE')
    # the gate itself, requirement bits
    def mk(rel, cb, K=80, KLOOP=100):
        g = Guard(prog, rep, relevant=rel, K=K, KLOOP=KLOOP)
        g.noinline = {'auth_set_username', 'preregister_user', 'iauth_notify', 'destroy_auth_request', 'sendto_iauth', 'find_kill'}
        g.call('register_user', cb)
        g.stores[AUTHBITS] = lambda e: None
        g.call('iauth_notify', lambda e: note(g, e))
        g.entryrun('check_auth_finished')
    def note(g, e): return None
    rel = [pol(r'AuthRequestFlags\.bits\[0\]&', Z)]
    # conditions established by the notification loop before the gate must not count: forget them when the helper is notified
    class G3(Guard): pass
    g = G3(prog, rep, relevant=rel, K=80, KLOOP=100)
    g.noinline = {'auth_set_username', 'preregister_user', 'iauth_notify', 'destroy_auth_request', 'sendto_iauth', 'find_kill'}
    def fk(e, ret):
        e.st.seen = frozenset(a for a in e.st.seen if 'AuthRequestFlags' not in a[1])
    g.afters['find_kill'] = fk
    def reg(e):
        for n, v in NEED:
            ok = any(a[0] == 'eq' and a[2] == 0 and a[3] and a[1].endswith('AuthRequestFlags.bits[0]&%d)' % (1 << v)) for a in e.q.seen)
            g.require(e, n, ok, 'a client may be registered while %s is outstanding' % n)
    g.call('register_user', reg)
    g.entryrun('check_auth_finished')
    for n, v in NEED: rep.need(n, 1)
    # K/G-line check, user name, class
    rel = [pol(r'AuthRequestFlags\.bits\[0\]&%d\)' % GL, NZ), pol(r'^(find_kill|auth_set_username|preregister_user|ircd_strcmp|strcmp)\(', Z), pol(r'con_confs$', NZ, Z), pol(r'(passwd|tls_fingerprint)(\[0\])?$', Z),
           pol(r'SLink\.value$', Z)]
    g = Guard(prog, rep, relevant=rel, K=40, KLOOP=40)
    g.noinline = {'auth_set_username', 'preregister_user', 'iauth_notify', 'destroy_auth_request', 'sendto_iauth', 'find_kill'}
    g.call('exit_client', lambda e: -2 if e.args[0] == e.args[1] else None)
    def kill(e):
        e.st.tags = frozenset(e.st.tags | {('kill',)})
    g.call('find_kill', kill)
    def setgl(e):
        v = e.terms[1]
    def reg2(e):
        q = e.q
        ran = ('kill',) in e.st.tags
        g.require(e, 'K-line and G-line check', (ran and any(a[1].startswith('find_kill(') and a[2] == 0 and a[3] for a in q.seen)) or (not ran and any(a[3] is False for a in q.seen if 'AuthRequestFlags' in a[1])), 'a client may be registered without the K-line and G-line check, or although it matched')
        g.require(e, 'user name', any(a[1].startswith('auth_set_username(') and a[2] == 0 and a[3] for a in q.seen), 'a client may be registered although its user name was refused')
        conf = any(a[3] is False and a[2] == 0 and a[1].endswith('con_confs') for a in q.seen) and not any(a[1].startswith('preregister_user(') for a in q.seen)
        pre = any(a[1].startswith('preregister_user(') and a[2] == 0 and a[3] for a in q.seen)
        g.require(e, 'admitted', conf or pre, 'a client may be registered without a class or Client block')
        if not conf:
            t = e.st.tags | creds(q)
            g.require(e, 'password', ('pw',) in t, 'a client may be registered without the password of its Client block')
            g.require(e, 'fingerprint', ('fp',) in t, 'a client may be registered without the TLS fingerprint its Client block demands')
    def creds(q):
        t = set()
        if any(a[0] == 'eq' and a[3] and a[2] == 0 and 'ConfItem.passwd' in a[1] and (not a[1].startswith(('strcmp', 'ircd_strcmp')) or 'con_passwd' in a[1] and not a[1].startswith('ircd_')) for a in q.seen): t.add(('pw',))
        if any(a[0] == 'eq' and a[3] and a[2] == 0 and 'ConfItem.tls_fingerprint' in a[1] and (not a[1].startswith(('strcmp', 'ircd_strcmp')) or 'cli_tls_fingerprint' in a[1]) for a in q.seen): t.add(('fp',))
        if any(a[0] == 'eq' and a[3] and a[2] == 0 and a[1].endswith('SLink.value') for a in q.seen): t |= {('pw',), ('fp',)}
        return t
    # the password is wiped and messages are sent before registration: note what is established before each call
    def wipe(e):
        e.st.tags = frozenset(e.st.tags | creds(e.q))
    g.memops = wipe
    g.rx.append((re.compile('.'), wipe))
    g.call('register_user', reg2)
    g.entryrun('check_auth_finished')
    for n in ('K-line and G-line check', 'user name', 'admitted', 'password', 'fingerprint'): rep.need(n, 1)
    # preregister_user accepts only what the Client blocks accept
    g = Guard(prog, rep, relevant=[pol(r'^find_conf_client\(', NZ), pred(r'^conf_check_client\(', ('eq',))], K=10)
    g.noinline = {'find_conf_client'}
    def pr(e):
        v = e.terms[0]
        if isT(v) or v == 0:
            if isT(v) and v.k == 'call': return
            g.require(e, 'Client block accepted', any(a[1].startswith('find_conf_client(') for a in e.q.seen) or any(a[1].startswith('conf_check_client(') and a[2] == c('ACR_OK') and a[3] for a in e.q.seen) or
                      all(any(a[1].startswith('conf_check_client(') and a[2] == v and not a[3] for a in e.q.seen) for n, v in prog.enums.items() if n.startswith('ACR_')), 'preregister_user admits a client no Client block admits')
    g.retcb = pr
    g.entryrun('preregister_user')
    rep.need('Client block accepted', 1)
    # who may declare a requirement met
    val = dict(NEED)
    FREE = {0, val['AR_AUTH_PENDING'], val['AR_DNS_PENDING'], SOFT}
    def hresults():
        for f in prog.funcs.values():
            if f.mod != 's_auth.c' or f.name != 'iauth_parse' and 'iauth_parse' not in owners(prog, f): continue
            for b in f.blocks:
                for ins in b:
                    if ins[0] == 'call' and not (isinstance(ins[3], list) and ins[3][0] == 'g'):
                        for t in prog.targets(f, ins): yield t
    SPECIAL = {}
    n = 0
    for f, ins, _ in allcalls(prog, r'check_auth_finished$'):
        n += 1
        prog.cfg(f)
        w = 'ircd/%s:%s (%s)' % (f.mod, ins[2], f.name)
        for v in consts(f, ins[4][1]):
            if v in FREE: rep.ob('requirement met', w, True); continue
            if v is None:
                ok = 'iauth_parse' in owners(prog, f) or all(o.startswith('iauth_parse') for o in owners(prog, f))
                rep.ob('requirement met', w, ok, 'a requirement chosen at run time is declared met'); continue
            o = owners(prog, f)
            ok = (v == val['AR_NEEDS_PONG'] and o <= {'auth_set_pong'}) or (v == val['AR_NEEDS_USER'] and o <= {'auth_set_user'}) or (v == val['AR_NEEDS_NICK'] and o <= {'auth_set_nick'}) or \
                 (v == val['AR_CAP_PENDING'] and o <= {'auth_cap_done'}) or (v == val['AR_IAUTH_PENDING'] and o <= {'auth_ping_timeout'})
            rep.ob('requirement met', w, ok, '%s declares requirement %s met' % (f.name, v))
    if n < 8: rep.broken('only %d calls of check_auth_finished' % n)
    # direct clears of requirement bits
    for f in prog.funcs.values():
        prog.cfg(f)
        for b in f.blocks:
            for ins in b:
                if ins[0] != 'store' or not isinstance(ins[3], list): continue
                if prog.opkey(f, f.defs, ins[4], ins[5]) != AUTHBITS: continue
                d = f.defs.get(ins[3][1]) if ins[3][0] == 'v' else None
                if d is None or d[0] != 'bin' or d[3] != 'and': continue
                m = d[5] if isinstance(d[5], int) else d[4] if isinstance(d[4], int) else None
                w = 'ircd/%s:%s (%s)' % (f.mod, ins[2], f.name)
                if m is None:
                    rep.ob('requirement cleared', w, owners(prog, f) <= {'check_auth_finished', 'auth_timeout_callback'}, '%s clears a requirement chosen at run time' % f.name); continue
                for nm, v in NEED:
                    if not (m >> v) & 1:
                        ok = nm in ('AR_AUTH_PENDING', 'AR_DNS_PENDING') or (nm == 'AR_IAUTH_PENDING' and owners(prog, f) <= {'start_iauth_query', 'iauth_cmd_kill'})
                        rep.ob('requirement cleared', w, ok, '%s clears %s' % (f.name, nm))
    # the cookie
    g = Guard(prog, rep, relevant=[pred(r'AuthRequest.cookie', ('eq',))], K=10)
    g.call('check_auth_finished', lambda e: g.require(e, 'cookie matches', any(a[3] and a[0] == 'eq' and {a[1], str(a[2])} == {'$1', '$0->AuthRequest.cookie'} for a in e.q.seen), 'PONG is accepted with a wrong cookie'))
    g.entryrun('auth_set_pong'); rep.need('cookie matches', 1)
    g = Guard(prog, rep, relevant=[pol(r'AuthRequest.cookie$', NZ)], K=10)
    g.stable = set(STAB)
    def nickst(e):
        v = S(e.terms[1]) if isT(e.terms[1]) else str(e.terms[1])
        if re.search(r'\|%d\)' % (1 << val['AR_NEEDS_PONG']), v): e.st.tags = frozenset(e.st.tags | {('pong',)})
    g.stores[AUTHBITS] = nickst
    g.call('check_auth_finished', lambda e: g.require(e, 'cookie demanded', ('pong',) in e.st.tags or e.q.nz('$0->AuthRequest.cookie'), 'NICK is accepted without a cookie PING'))
    g.entryrun('auth_set_nick'); rep.need('cookie demanded', 1)
    g = Guard(prog, rep, relevant=[pol(r'IAuth|^iauth', Z), pol(r'AuthRequestFlags', Z)], K=40, KLOOP=40)
    REQ = 1 << (c('IAUTH_REQUIRED') % 64)
    g.call('check_auth_finished', lambda e: g.require(e, 'helper not mandatory', any(a[2] == 0 and a[3] and ('IAuthFlags.bits[0]&%d)' % REQ in a[1] or a[1].startswith('iauth') and 'Flags' not in a[1]) for a in e.q.seen) and
           all(any(a[2] == 0 and a[3] and a[1].endswith('AuthRequestFlags.bits[0]&%d)' % (1 << v)) for a in e.q.seen) for nm, v in NEED[:-1]), 'a client may be let in by a timeout although the helper is mandatory or other requirements are outstanding'))
    g.entryrun('auth_ping_timeout'); rep.need('helper not mandatory', 1)
    # commands that report an event
    for rx, own in ((r'auth_cap_done$', {'m_cap'}), (r'auth_set_pong$', {'mr_pong'}), (r'auth_set_user$', {'m_user'}), (r'auth_set_nick$', {'set_nick_name'})):
        i = 0
        for f, ins, cc in allcalls(prog, rx):
            i += 1
            o = owners(prog, f)
            rep.ob('event source', 'ircd/%s:%s (%s)' % (f.mod, ins[2], f.name), f.mod in ('m_cap.c', 'm_pong.c', 'm_user.c', 's_user.c'), '%s reports %s' % (f.name, rx))
        if not i: rep.broken('no call of ' + rx)
    # register_user is reached from the gate only, or for users of other servers
    for f, ins, cc in allcalls(prog, r'register_user$'):
        rep.ob('gate', 'ircd/%s:%s (%s)' % (f.mod, ins[2], f.name), owners(prog, f) <= {'check_auth_finished', 'set_nick_name'}, '%s registers users' % f.name)
    g = Guard(prog, rep, relevant=[pred(r'cli_status', ('eq',), True)], K=12)
    g.call('register_user', lambda e: g.require(e, 'gate', e.q.eq('$1->Client.cli_status', k.STAT_SERVER), 'NICK registers a client outside the gate'))
    g.noinline = {'sendcmdto_serv_butone'}
    g.entryrun('set_nick_name')
    rep.need('gate', 2)


STAB = {'Client.cli_connect', 'Client.cli_auth', 'Client.cli_user', 'AuthRequest.client'}


def SAMEADDR(a):
    return a[0] == 'eq' and a[3] and (a[2] == 0 and 'memcmp(' in a[1] or isinstance(a[2], str) and 'in6_16[' in a[1] and 'in6_16[' in a[2])


def sameaddr(q, X):
    """two addresses, one of them X, compared equal"""
    def half(i):
        return any(SAMEADDR(a) and isinstance(a[2], str) and 'in6_16[%d]' % i in a[1] and 'in6_16[%d]' % i in a[2] and X in a[1] + a[2] for a in q.seen)
    return half(6) and half(7) or any(SAMEADDR(a) and a[2] == 0 and X in a[1] and a[1].rstrip(')').endswith(',16') for a in q.seen)


# ------------------------------------------------------------------ R04
@prop('R04', 'A verdict of the authorization helper applies only to the client it is about',
      'A message of the authorization helper about a client is acted on only if the descriptor it names is a live connection whose address and port are the ones the message quotes; and, except for a kill, '
      'only while that client\'s authorization is still pending. Only the verdicts that accept a client end the wait for the helper, and a message can never declare another requirement of registration met.',
      ['inputs', 'histories', 'schedules'], 'every message of the helper, including ones about a connection that has since closed and whose descriptor was reused',
      'descriptor reuse between request and reply needs exact timing', ['ircd/s_auth.c'], [('message dispatch', 'ircd/s_auth.c: iauth_parse')], TECH, NOTE)
def r04(prog, rep, tier):
    k = KS(prog)
    names = {n: prog.enums.get(n) for n in ('AR_IAUTH_PENDING', 'AR_AUTH_PENDING', 'AR_DNS_PENDING', 'AR_IAUTH_SOFT_DONE')}
    if None in names.values(): rep.broken('flag names changed')
    PEND = 1 << names['AR_IAUTH_PENDING']
    hit = [0]
    letters = set()
    for f in prog.funcs.values():
        if f.name != 'iauth_parse': continue
        prog.cfg(f)
        for b in f.blocks:
            t = b[-1]
            if t[0] == 'switch': letters |= {c for c, tb in t[5] if 32 <= c < 127}
    if len(letters) < 10: letters = set(range(33, 127))
    for ch in sorted(letters):
        g = Guard(prog, rep, relevant=[SAMEADDR, pol(r'^ipmask_parse\(', NZ), pred(r'AuthRequest.port', ('eq',), True), pol(r'AuthRequestFlags\.bits\[0\]&%d\)' % PEND, NZ), pol(r'(cli|con)_auth$', Z),
                                       pol(r'^LocalClientArray', NZ)], K=12, KLOOP=8)
        def ind(e):
            if len(e.args) < 4: return
            if e.terms[1] == 0: return
            hit[0] += 1
            q = e.q; X = e.args[1]
            g.require(e, 'live connection', q.nz(X) and X.startswith('LocalClientArray'), 'a helper message is acted on for a slot that may be empty')
            g.require(e, 'address matches', sameaddr(q, X + '->Client.cli_ip') and any(a[1].startswith('ipmask_parse(') and not a[3] for a in q.seen), 'a helper message is acted on although it quotes another address')
            A = X + '->Client.cli_connect->Connection.con_auth'
            g.require(e, 'port matches', q.z(A) or any(a[0] == 'eq' and a[3] and 'AuthRequest.port' in str((a[1], a[2])) for a in q.seen), 'a helper message is acted on although it quotes another port')
            g.require(e, 'still pending', ch in (ord('k'), ord('K')) or any('AuthRequestFlags' in a[1] and a[3] is False for a in q.seen), 'a helper message other than a kill is acted on although the authorization of the client is over')
        g.indirect_cb = ind
        g.noinline = {'paste_params', 'sendto_iauth', 'check_auth_finished'} | {f.name for f in prog.funcs.values() if f.name.startswith('iauth_cmd_')}
        for t in sorted(g.noinline):
            if t.startswith('iauth_cmd_'): g.call(t, lambda e: (ind(e), None)[1])
        def setup(st, a): st.mem[a[1]] = ch
        g.entryrun('iauth_parse', setup=setup)
    if not hit[0]: rep.broken('no handler call with a client found in iauth_parse')
    for r in ('live connection', 'address matches', 'port matches', 'still pending'): rep.need(r, 1)
    # results of handlers
    nh = 0
    OKV = {0, names['AR_AUTH_PENDING'], names['AR_DNS_PENDING'], names['AR_IAUTH_SOFT_DONE']}
    acc = set()
    for f in list(prog.funcs.values()):
        if f.mod != 's_auth.c' or not f.name.startswith('iauth_parse'): continue
        for b in f.blocks:
            for ins in b:
                if ins[0] == 'call' and not (isinstance(ins[3], list) and ins[3][0] == 'g'):
                    acc |= set(prog.targets(f, ins))
    for t in sorted(acc):
        h = prog.fn(t); prog.cfg(h); nh += 1
        for b in h.blocks:
            for ins in b:
                if ins[0] != 'ret': continue
                for v in consts(h, ins[3] if len(ins) > 3 else 0):
                    if v is None:
                        # the result of another handler
                        rep.ob('handler result', 'ircd/%s:%s (%s)' % (h.mod, ins[2], h.name), tailcalls(prog, h, ins) <= acc, '%s returns a result chosen at run time' % h.name); continue
                    ok = v in OKV or v < 0 or (v == names['AR_IAUTH_PENDING'] and h.name in ('iauth_cmd_done_client', 'iauth_cmd_done_account'))
                    rep.ob('handler result', 'ircd/%s:%s (%s)' % (h.mod, ins[2], h.name), ok, '%s declares requirement %s met' % (h.name, v))
    if nh < 10: rep.broken('only %d helper message handlers found' % nh)


def tailcalls(prog, f, ins):
    """functions whose result the return instruction hands on"""
    out = set()
    def go(o, d=0):
        x = f.defs.get(o[1]) if isinstance(o, list) and o and o[0] == 'v' else None
        if x is None or d > 6: out.add('?') if not isinstance(o, int) else None; return
        if x[0] == 'call' and isinstance(x[3], list) and x[3][0] == 'g': out.add(prog.fn(x[3][1]).name if x[3][1] in prog.funcs else x[3][1])
        elif x[0] == 'phi':
            for pb, v in x[3]: go(v, d + 1)
        elif x[0] == 'cast': go(x[4], d + 1)
        elif x[0] == 'select': go(x[4], d + 1); go(x[5], d + 1)
        else: out.add('?')
    go(ins[3])
    return out


# ------------------------------------------------------------------ R05
SASLF = 'Connection.con_sasl'


@prop('R05', 'A login session belongs to one client and ends with it',
      'Each SASL session marker of a client is registered in the session table when it is set and removed from it when it is cleared, also on abort, timeout, success, failure and when the client exits. '
      'AUTHENTICATE is forwarded only for a client that negotiated the capability, is not logged in, sends at most 400 bytes and, to begin, names an offered mechanism while the login server is linked. '
      'A reply acts only on the client whose session it names, and a success gives an account only to a client still registering.',
      ['inputs', 'histories'], 'every sequence of AUTHENTICATE, replies, aborts, timeouts and disconnects',
      'a stale session lets a late reply act on the wrong or a freed client', ['ircd/m_sasl.c', 'ircd/sasl.c', 'ircd/s_misc.c'],
      [('sessions', 'ircd/m_sasl.c: m_sasl'), ('replies', 'ircd/sasl.c: sasl_send_xreply'), ('table', 'ircd/sasl.c: sasl_session_add, sasl_session_remove, find_sasl_client')], TECH,
      NOTE + 'Which server may send the replies is not judged.')
def r05(prog, rep, tier):
    k = KS(prog)
    prog.modsets()
    writers = [f for f in prog.funcs.values() if SASLF in prog.direct_writes(f)]
    entries = set()
    for f in writers:
        # helpers are judged through the functions they run for
        for o in owners(prog, f): entries.add(o)
    if len(entries) < 4: rep.broken('only %d functions change the session marker' % len(entries))
    for n in sorted(entries):
        if n in ('free_connection', 'alloc_connection', 'make_client', 'make_connection'): continue
        g = Guard(prog, rep, relevant=[pol(r'^find_sasl_client\(', Z), pol(r'con_sasl$', Z), pol(r'->SaslSession|^strtoul\(', Z)], K=12, KLOOP=6)
        def tag(e, *t): e.st.tags = frozenset(e.st.tags | set(t))
        def st_(e, g=g):
            v = e.terms[1]; X = e.args[0].split('->Connection.con_sasl')[0].lstrip('&')
            if v == 0:
                if ('rm',) in e.st.tags: e.st.tags = frozenset(t for t in e.st.tags if t != ('rm',)) | {('zero',)}
                else: tag(e, ('zp',))
            else:
                tag(e, ('add', S(v)))
        g.stores[SASLF] = st_
        def rmv(e):
            if e.terms[0] == 0: return
            if ('zp',) in e.st.tags: e.st.tags = frozenset(t for t in e.st.tags if t != ('zp',)) | {('zero',)}
            else: tag(e, ('rm',))
        g.call('sasl_session_remove', rmv)
        def add(e, g=g):
            e.st.tags = frozenset(t for t in e.st.tags if t[0] != 'add')
        g.call('sasl_session_add', add)
        def ret(e, g=g):
            g.require(e, 'cleared only when removed', ('zp',) not in e.st.tags, 'the session marker is cleared but the session stays in the table')
            g.require(e, 'registered when set', not any(t[0] == 'add' for t in e.st.tags), 'the session marker is set but the session is not entered in the table')
            g.require(e, 'removed only when cleared', ('rm',) not in e.st.tags or any(a[1].startswith('find_sasl_client(') for a in e.q.seen), 'a session is removed from the table but the client keeps its marker')
        g.retcb = ret
        g.noinline = {'exit_one_client_rest'}
        g.entryrun(n)
    rep.need('cleared only when removed', 3); rep.need('registered when set', 1); rep.need('removed only when cleared', 3)
    # the marker is zeroed for every exiting client, and the timer stopped with the connection
    g = Guard(prog, rep, relevant=[pol(r'con_sasl$', Z)], K=6, KLOOP=4)
    g.stores[SASLF] = lambda e: setattr(e.st, 'tags', frozenset(e.st.tags | {('zero', e.args[0])}))
    def rem(e):
        X = e.args[0]
        g.require(e, 'exit ends the session', any(t[0] == 'zero' for t in e.st.tags) or any(a[1].endswith('con_sasl') for a in e.q.seen), 'a client is removed while its login session lives on')
    g.call('remove_client_from_list', rem)
    g.entryrun('exit_one_client'); rep.need('exit ends the session', 1)
    # starting and continuing
    lim = [pol(r'strlen\(', *[('eq', i, True) for i in range(3)])]
    def build(g):
        g.noinline = {'sasl_start_timeout'}
        def fw(e):
            if 'XQ' not in str([a for a in e.args[:3]]): return
            q = e.q
            def rq(r, ok, m): g.require(e, r, ok, m)
            rq('capability', q.any(r'con_active|cli_active|capab') != [], 'AUTHENTICATE is forwarded for a client without the capability')
            rq('not logged in', q.noflag(SELF, 'FLAG_SASL') and q.noflag(SELF, 'FLAG_ACCOUNT'), 'AUTHENTICATE is forwarded for a client that is logged in')
            rq('server linked', call1(q, 'sasl_available') and q.nz(e.args[3]), 'AUTHENTICATE is forwarded while the login server is missing')
            rq('length', any(a[1].startswith('strlen(') and '[1]' in a[1] and (a[0] in ('slt', 'ult') and a[2] <= 401 and a[3] or a[0] in ('sle', 'ule') and a[2] <= 400 and a[3]) or
                             isinstance(a[2], str) and a[2].startswith('strlen(') and a[0] in ('ult', 'slt') and not a[3] and not isinstance(a[1], str) and a[1] <= 400 for a in q.seen), 'AUTHENTICATE of more than 400 bytes is forwarded')
            rq('mechanism', any(a[1].startswith('sasl_mechanism_supported(') and not a[3] for a in q.seen) or any(a[1].endswith('con_sasl') and not a[3] for a in q.seen), 'a session starts with a mechanism that is not offered')
        g.call(['sendcmdto_one', 'sendcmdto_prio_one', 'sendcmdto_serv_butone'], fw)
    rel = [pol(r'CapSet|capab|con_active', NZ), pol(flagrx(k, 'FLAG_SASL', 'FLAG_ACCOUNT'), Z), pol(r'^(sasl_available|find_match_server|sasl_mechanism_supported)\(', NZ), pred(r'strlen\(', ('ult', 'ule', 'slt', 'sle')), pol(r'con_sasl$', NZ)]
    run_cmd(prog, rep, 'AUTHENTICATE', build, relevant=rel, K=16)
    for r in ('capability', 'not logged in', 'server linked', 'length', 'mechanism'): rep.need(r, 1)
    # replies
    g = Guard(prog, rep, relevant=[pred(r'cli_status', ('eq',)), pol(r'^find_sasl_client\(', NZ)], K=16)
    def tgt(X): return X.startswith('find_sasl_client(strtoul($1')
    def eff(e):
        if not e.callee.startswith(('send_reply', 'sendcmdto_one')): return
        X = e.args[0] if e.callee.startswith('send_reply') else e.args[3]
        g.require(e, 'reply goes to the session', tgt(X) and e.q.nz(X), 'a login reply acts on a client other than the one of its session')
    g.rx.append((re.compile(r'send'), eff))
    def acc(e):
        X = e.args[0].split('->Client.cli_connect')[0]
        g.require(e, 'reply goes to the session', tgt(X) and e.q.nz(X), 'a login reply acts on a client other than the one of its session')
        g.require(e, 'account only while registering', e.q.notuser(X), 'a login reply may set the account of a registered user')
    g.call('auth_set_account', acc)
    def fl(e):
        v = k.FLAG_SASL; ad, nv = e.terms
        if isT(nv) and nv.k == 'b' and nv.a[0] == 'or' and (1 << (v % 64)) in nv.a and isT(ad) and ad.k == 'ix' and ad.a[1] == v // 64:
            g.require(e, 'reply goes to the session', 'find_sasl_client(strtoul($1' in e.args[0], 'a login reply acts on a client other than the one of its session')
    g.stores['Flags.bits'] = fl
    g.stores[SASLF] = lambda e: g.require(e, 'reply goes to the session', 'find_sasl_client(strtoul($1' in e.args[0], 'a login reply acts on a client other than the one of its session')
    g.entryrun('sasl_send_xreply')
    rep.need('reply goes to the session', 5); rep.need('account only while registering', 1)
    # the table
    g = Guard(prog, rep, relevant=[pred(r'SaslSessionEntry.cookie', ('eq',), True)], K=8)
    def fr(e):
        if isT(e.terms[0]):
            b = e.args[0].rsplit('->', 1)[0]
            g.require(e, 'table lookup', any(a[0] == 'eq' and {a[1], a[2]} == {'$0', b + '->SaslSessionEntry.cookie'} for a in e.q.seen), 'the session lookup may return another session')
    g.retcb = fr
    g.entryrun('find_sasl_client')
    g = Guard(prog, rep, relevant=[pred(r'SaslSessionEntry.cookie', ('eq',), True)], K=8)
    g.call(['MyFree', 'DoFree', 'free'], lambda e: g.require(e, 'table removal', any(a[0] == 'eq' and {a[1], a[2]} == {'$0', e.args[0] + '->SaslSessionEntry.cookie'} for a in e.q.seen), 'the wrong session may be removed'))
    g.entryrun('sasl_session_remove')
    rep.need('table lookup', 1); rep.need('table removal', 1)


# ------------------------------------------------------------------ R06
def flagsets(prog, k, name):
    """(function, line, sets?) of the direct changes of a client flag by constant masks"""
    v = getattr(k, name); m = 1 << (v % 64)
    prog.modsets()
    for f in prog.funcs.values():
        for b in f.blocks:
            for ins in b:
                if ins[0] != 'store' or not isinstance(ins[3], list): continue
                if prog.opkey(f, f.defs, ins[4], ins[5]) != 'Flags.bits': continue
                d = f.defs.get(ins[3][1]) if ins[3][0] == 'v' else None
                a = f.defs.get(ins[4][1]) if isinstance(ins[4], list) and ins[4][0] == 'v' else None
                if d is None or d[0] != 'bin' or d[3] != 'or': continue
                if not any(isinstance(x, int) and (x & ((1 << 64) - 1)) & m for x in d[4:6]): continue
                ix = [s for s in (a[4] if a else ()) if s[0] == 'a']
                if ix and isinstance(ix[-1][1], int) and ix[-1][1] != v // 64: continue
                yield f, ins[2]


@prop('R06', 'Account names come only from the login services and never change',
      'A user is given an account only by the ACCOUNT message of a privileged (U:lined) server for a user without one, by the login server or the authorization helper while the client is registering, or by the '
      'introduction of the user from its own server. The account name of a logged-in user never changes, and names longer than the limit are refused.',
      ['inputs', 'histories'], 'every ACCOUNT, MODE, AUTHENTICATE and helper message', 'impersonation of an account takes over its channels', ['ircd/m_account.c', 'ircd/s_auth.c', 'ircd/s_user.c', 'ircd/sasl.c'],
      [('service grants', 'ircd/m_account.c: ms_account'), ('registration', 'ircd/s_auth.c: auth_set_account')], TECH, NOTE)
def r06(prog, rep, tier):
    k = KS(prog)
    def build(g):
        def wr(e):
            if 'User.account' not in e.args[0]: return
            q = e.q; X = e.args[0].split('->Client.cli_user')[0].lstrip('&')
            g.require(e, 'U:lined server', q.isserver('$1') and any(a[1].startswith('find_conf_byhost(') and a[1].endswith(',%d)' % k.CONF_UWORLD) and '$1->Client.cli_name' in a[1] and not a[3] for a in q.seen), 'ACCOUNT is accepted from a server that is not privileged')
            g.require(e, 'no account yet', q.noflag(X, 'FLAG_ACCOUNT'), 'ACCOUNT may change the account of a logged-in user')
            g.require(e, 'length', any(a[1].startswith('strlen(') and '[2]' in a[1] and (a[0] in ('ult', 'slt') and a[2] <= 13 and a[3] or a[0] in ('ule', 'sle') and a[2] <= 12 and a[3]) or
                      isinstance(a[2], str) and a[2].startswith('strlen(') and a[0] in ('ult', 'slt') and not a[3] and not isinstance(a[1], str) and a[1] <= 12 for a in q.seen), 'an account name longer than the limit is accepted')
        g.call('ircd_strncpy', wr)
        g.noinline = {'hide_hostmask'}
        def hide(e):
            if e.terms[1] == k.FLAG_ACCOUNT: g.require(e, 'U:lined server', e.q.isserver('$1') and any(a[1].startswith('find_conf_byhost(') and not a[3] for a in e.q.seen), 'ACCOUNT is accepted from a server that is not privileged')
        g.call('hide_hostmask', hide)
    run_cmd(prog, rep, 'ACCOUNT', build, roles=('server', 'client', 'oper', 'service'), selfconn=False, K=12,
            relevant=[pred(r'cli_status', ('eq',), True), pol(r'^find_conf_byhost\(', NZ), pol(flagrx(k, 'FLAG_ACCOUNT'), Z), pred(r'strlen\(', ('ult', 'ule', 'slt', 'sle'))])
    for r in ('U:lined server', 'no account yet', 'length'): rep.need(r, 1)
    # every other writer of the name
    WR = {'ms_account', 'auth_set_account', 'iauth_cmd_done_account', 'set_user_mode'}
    for f in prog.funcs.values():
        prog.cfg(f)
        for b in f.blocks:
            for ins in b:
                dst = None
                if ins[0] == 'store': dst = ins[4]
                elif ins[0] == 'call' and isinstance(ins[3], list) and ins[3][0] == 'g' and re.match(r'ircd_str|str|mem|llvm\.mem|.*snprintf', ins[3][1]) and ins[4]: dst = ins[4][0]
                if dst is None: continue
                o = dst; hit = False
                for _ in range(6):
                    d = f.defs.get(o[1]) if isinstance(o, list) and o and o[0] == 'v' else None
                    if d is None or d[0] not in ('gep', 'cast'): break
                    if 'User.account' in repr(d): hit = True; break
                    o = d[3] if d[0] == 'gep' else d[4]
                if hit and not (ins[0] == 'call' and ins[3][1] in ('strlen', 'strcmp', 'ircd_strcmp', 'strchr')):
                    rep.ob('who writes account names', 'ircd/%s:%s (%s)' % (f.mod, ins[2], f.name), owners(prog, f) <= WR, '%s writes an account name' % f.name)
    rep.need('who writes account names', 4)
    for f, l in flagsets(prog, k, 'FLAG_ACCOUNT'):
        o = owners(prog, f)
        rep.ob('who logs users in', 'ircd/%s:%s (%s)' % (f.mod, l, f.name), o <= WR | {'hide_hostmask', 'register_user', 'send_umode'}, '%s logs users in' % f.name)
    rep.need('who logs users in', 3)
    for f, ins, c in allcalls(prog, r'auth_set_account$'):
        rep.ob('who logs registering clients in', 'ircd/%s:%s (%s)' % (f.mod, ins[2], f.name), owners(prog, f) <= {'sasl_send_xreply'}, '%s logs clients in' % f.name)
    for f, ins, c in allcalls(prog, r'hide_hostmask$'):
        v = ins[4][1]
        if v == k.FLAG_ACCOUNT or not isinstance(v, int):
            rep.ob('who logs users in', 'ircd/%s:%s (%s)' % (f.mod, ins[2], f.name), owners(prog, f) <= {'ms_account'}, '%s logs users in' % f.name)
    rep.need('who logs registering clients in', 1)
    # MODE: only a server, only for a user without an account
    v = k.FLAG_ACCOUNT; m = 1 << (v % 64)
    for self_, had in ((True, False), (True, True), (False, True)):
        g = Guard(prog, rep, relevant=[], K=2, KLOOP=2)
        g.bits = (m,)
        a0 = selfargs() if self_ else [T('arg', 0), T('arg', 1), T('arg', 2), T('arg', 3)]
        def setup(st, a, g=g):
            w = T('ix', T('f', T('f', a[1], 'Client.cli_flags'), 'Flags.bits'), v // 64)
            g.assume(st, mkcmp('eq', mkbin('and', T('ld', w, None), m), 0), not had)
            g.assume(st, mkcmp('eq', T('ld', T('f', a[0], 'Client.cli_status'), None), k.STAT_USER if self_ else k.STAT_SERVER), True)
        def wr2(e, g=g):
            if 'User.account' in e.args[0]: g.require(e, 'MODE never changes an account', False, 'a MODE line %s may write the account name of a user %s' % ('from a user' if self_ else 'from a server', 'that has one' if had else 'without one'))
        g.call('ircd_strncpy', wr2)
        g.retcb = lambda e, g=g: g.require(e, 'MODE never changes an account', True, '')
        g.entryrun('set_user_mode', setup, args=a0 + [T('arg', 4)])
    rep.need('MODE never changes an account', 1)


# ------------------------------------------------------------------ R07
@prop('R07', 'A nickname is valid, unreserved and used by one client at a time',
      'A local client takes a nickname only if it is well-formed, not reserved, and free, its own in other case, or held by a local connection that has not registered and is then removed; a registered user may '
      'not change nickname on a channel that forbids it, nor faster than the rate limit. A nickname from another server is accepted only if well-formed and either free, the user\'s own, or taken from a client that has just been removed.',
      ['inputs', 'histories'], 'every NICK from clients and servers against every set of names in use', 'tests use two or three names', ['ircd/m_nick.c', 'ircd/s_user.c'],
      [('checks', 'ircd/m_nick.c: m_nick, ms_nick'), ('change', 'ircd/s_user.c: set_nick_name')], TECH, NOTE)
def r07(prog, rep, tier):
    k = KS(prog)
    for role, n in (('l', 1), ('s', 1)):
        def build(g, role=role):
            g.noinline = {'do_nick_name'}
            def ex(e):
                e.st.tags = frozenset(e.st.tags | {('gone', e.args[1])})
            g.call(['exit_client', 'exit_client_msg'], ex)
            def setn(e):
                q = e.q; N = e.args[2]
                def rq(r, ok, m): g.require(e, r, ok, m)
                rq('well-formed', any(a[1].startswith('do_nick_name(') and not a[3] for a in q.seen), 'a malformed nickname is accepted')
                fc = [a for a in q.seen if 'hSeekClient(' in '%s %s' % (a[1], a[2])]
                free = any(a[0] == 'eq' and a[2] == 0 and a[3] and a[1].startswith('hSeekClient(') for a in fc) or blank(q, N) or blank(q, N.lstrip('&'))
                own = any(a[0] == 'eq' and a[3] and {str(a[1]), str(a[2])} & {'$1', '$0'} for a in fc)
                gone = [t[1] for t in e.st.tags if t[0] == 'gone' and t[1].startswith('hSeekClient(')]
                if role == 'l':
                    rq('not reserved', any(a[1].startswith('isNickJuped(') and a[3] and a[2] == 0 for a in q.seen), 'a reserved nickname is accepted')
                    UN = k.STAT_UNKNOWN | k.STAT_UNKNOWN_USER | k.STAT_UNKNOWN_SERVER | k.STAT_WEBSOCKET | k.STAT_WEBIRC
                    def unreg(a):
                        if a[0] != 'eq' or not a[1].lstrip('(').startswith('hSeekClient(') or 'cli_status' not in a[1]: return False
                        m = re.search(r'cli_status *&#?(\d+)', a[1])
                        return bool(m) and a[2] == 0 and not a[3] and int(m.group(1)) & ~UN == 0 or a[1].endswith('cli_status') and a[3] and a[2] & ~UN == 0 and a[2] != 0
                    ok = gone and any(unreg(a) for a in fc)
                    rq('free name', free or own or bool(ok), 'a nickname in use is given to a second client')
                else:
                    rq('well-formed', any(re.match(r'strcmp\(', a[1]) and a[2] == 0 and a[3] and '$3[1]' in a[1] for a in q.seen), 'a nickname that was altered to be well-formed is accepted')
                    rq('free name', free or own or bool(gone), 'a nickname in use is given to a second client')
            g.call('set_nick_name', setn)
        rel = [pol(r'^do_nick_name\(', NZ), pol(r'^isNickJuped\(', Z), pol(r'^hSeekClient\(', Z), lambda a: a[0] == 'eq' and a[3] and 'hSeekClient(' in '%s%s' % (a[1], a[2]) and '->' not in '%s%s' % (a[1], a[2]),
               lambda a: a[0] == 'eq' and a[1].lstrip('(').startswith('hSeekClient(') and 'cli_status' in a[1] and (a[3] or '&' in a[1]), pol(r'^strcmp\(', Z), pol(r'^\*?&?nick', Z)]
        run_cmd(prog, rep, 'NICK', build, roles=LOCAL if role == 'l' else ('server',), selfconn=role == 'l', relevant=rel, K=16)
    for r, n in (('well-formed', 4), ('not reserved', 2), ('free name', 4)): rep.need(r, n)
    # a change by a registered local user
    g = Guard(prog, rep, relevant=[pol(r'^find_no_nickchange_channel\(', Z), pred(r'con_nextnick', ('slt', 'sle')), pol(r'con_client$', ('eq', '$1', True), ('eq', '$1', False)), pred(r'con_client', ('eq',)), pred(r'cli_status', ('eq',))], K=16)
    g.noinline = {'register_user'}
    def chg(e):
        q = e.q
        if not q.isuser('$1'): return
        if q.notmycon('$1'): return
        lim = ('rate',) in e.st.tags and ('bump',) in e.st.tags
        g.require(e, 'change allowed on channels', any(a[1].startswith('find_no_nickchange_channel(') and a[3] for a in q.seen), 'a nickname change is allowed on a channel that forbids it')
        g.require(e, 'rate limit', lim, 'nickname changes are not rate limited')
    def bump(e):
        # the limit moves on only for a change that passed it
        v = str(e.terms[1])
        if re.search(r'con_nextnick\+\d\d+', v): e.st.tags = frozenset(e.st.tags | {('bump',)})
        if any(a[0] in ('slt', 'ult') and not a[3] and a[1] == 'CurrentTime' and str(a[2]).endswith('con_nextnick') or
               a[0] in ('sle', 'ule') and a[3] and a[2] == 'CurrentTime' and str(a[1]).endswith('con_nextnick') for a in e.q.seen):
            e.st.tags = frozenset(e.st.tags | {('rate',)})
    g.stores['Connection.con_nextnick'] = bump
    g.call('hRemClient', chg)
    g.entryrun('set_nick_name', args=[T('arg', 1), T('arg', 1), T('arg', 2), T('arg', 3), T('arg', 4)])
    rep.need('change allowed on channels', 1); rep.need('rate limit', 1)
    for f, ins, c in allcalls(prog, r'set_nick_name$'):
        rep.ob('one way in', 'ircd/%s:%s (%s)' % (f.mod, ins[2], f.name), owners(prog, f) <= {'m_nick', 'ms_nick'}, '%s names clients' % f.name)
    # nobody else writes names
    # well-formed: every character is a nickname character and the first no digit or dash
    NICKCH = k.NTL_IRCNK if hasattr(k, 'NTL_IRCNK') else 4096
    g = WalkGuard(prog, rep, relevant=[pred(r'IRCD_CharAttrTab|CharAttr', ('eq',)), lambda a: isinstance(a[1], str) and a[1].startswith('*$0')], K=10)
    g.drop = re.compile(r'^(?!\*\$0 |.*\(\*\$0\+)')
    def nr(e):
        v = e.terms[0]
        if isT(v) or v != 0:
            q = e.q
            g.require(e, 'first character', any(a[1] == '*$0' and a[2] == ord('-') and not a[3] for a in q.seen) and any('Attr' in a[1] and '*$0' in a[1] and a[2] == 0 and a[3] for a in q.seen) or q.z('*$0'), 'a nickname may begin with a digit or a dash')
    g.retcb = nr
    def nxt(e, head):
        g.require(e, 'every character', any('Attr' in a[1] and '&%d)' % NICKCH in a[1] and a[2] == 0 and not a[3] for a in e.st.seen), 'a nickname may contain a character that is not allowed in nicknames')
    g.walks['do_nick_name'] = nxt
    g.entryrun('do_nick_name')
    rep.need('every character', 1)
    rep.need('first character', 1)


# ------------------------------------------------------------------ R08
@prop('R08', 'Nickname collisions are decided by timestamp alike on every server',
      'When a nickname arriving from another server is in use by a different registered user, both lose it if the timestamps are equal; otherwise the younger user loses it if they differ in address or user name, '
      'and the older loses it if they are the same user. Nobody else is removed, and the survivor keeps the name.',
      ['inputs', 'histories', 'schedules'], 'every pair of timestamps and identities of two users with the same nickname meeting in either order',
      'servers that decide differently disagree about who exists; a test network has one real server', ['ircd/m_nick.c'], [('collision rules', 'ircd/m_nick.c: ms_nick')],
      TECH + '; outcome table compared for every order of the two timestamps', NOTE)
def r08(prog, rep, tier):
    k = KS(prog)
    LN = 'Client.cli_lastnick'
    for intro in (True, False):
        rel = [lambda a: LN in '%s %s' % (a[1], a[2]), pol(r'^(memcmp|ircd_strcmp)\(', Z, NZ), lambda a: a[0] == 'eq' and 'hSeekClient(' in '%s%s' % (a[1], a[2]) and '->' not in '%s%s' % (a[1], a[2]),
               pred(r'^\$1->Client.cli_status', ('eq',)), pol(r'^hSeekClient.*cli_status$', ('eq', k.STAT_USER, True), ('eq', k.STAT_USER, False)), pred(r'^hSeekClient.*cli_status', ('eq', 'ult', 'slt'), True)]
        g = Guard(prog, rep, relevant=rel, K=40)
        g.stable = set(STABLE_DEFAULT) | {LN}
        g.noinline = {'do_nick_name'}
        def setup(st, a, g=g):
            g.assume(st, mkcmp('eq', T('ld', T('f', a[1], 'Client.cli_status'), None), k.STAT_SERVER if intro else k.STAT_USER), True)
        def tag(e, t): e.st.tags = frozenset(e.st.tags | {t})
        def ex(e):
            X = e.args[1]
            if X.startswith('hSeekClient('): tag(e, ('old',))
            elif X == '$1': tag(e, ('new',))
            else: g.require(e, 'only the two', False, 'a collision removes a third client')
        g.call(['exit_client', 'exit_client_msg'], ex)
        def kil(e):
            if '"KILL"' in e.args[:3] and e.callee == 'sendcmdto_one': tag(e, ('new',))
        g.call('sendcmdto_one', kil)
        g.call('set_nick_name', lambda e: tag(e, ('set',)))
        def ret(e):
            q = e.q
            A = {a[1] for a in q.seen if LN in a[1]} | {a[2] for a in q.seen if isinstance(a[2], str) and LN in a[2]}
            A = {x for x in A if x.startswith('hSeekClient(') and x.endswith(LN)}
            L = {x for a in q.seen for x in (a[1], a[2]) if isinstance(x, str) and x.startswith('atoi(')}
            if not any(a[1].startswith('hSeekClient(') and a[2] == 0 and not a[3] for a in q.seen): return      # no collision reached
            if not A: return
            A = A.pop(); L = (L or {'atoi($3[3])' if intro else 'atoi($3[2])'}).pop()
            m = [a[3] for a in q.seen if a[1].startswith('memcmp(') and a[2] == 0]; s = [a[3] for a in q.seen if a[1].startswith('ircd_strcmp(') and a[2] == 0]
            dif = {True} if (m and not m[0]) or (s and not s[0]) else {False} if m and s and m[0] and s[0] else {True, False}
            old = ('old',) in e.st.tags; new = ('new',) in e.st.tags; st = ('set',) in e.st.tags
            def ok(l, a):
                for d in dif:
                    if l == a: w = (True, True)
                    elif d: w = (l < a, l > a)
                    else: w = (l > a, l < a)
                    if (old, new) != w or st == new: return False
                return True
            g.require(e, 'collision outcome', order_holds(q, L, A, ok), 'a nickname collision removes %s for timestamps or identities where the rules say otherwise' % (' and '.join((['the user already here'] if old else []) + (['the arriving user'] if new else [])) or 'nobody'))
        g.retcb = ret
        h = handlers(prog, 'NICK', ('server',))
        for x in h: g.entryrun(x, setup=setup)
    rep.need('collision outcome', 1)
