"""Starts /repo's ircd in a scratch directory on loopback (as nobody) and talks to it."""
import os, pwd, shutil, signal, socket, subprocess, sys, tempfile, time

REPO = os.getcwd() if os.path.exists('ircd/ircd') else '/repo'
B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789[]"


def b64(v, w):
    s = ''
    for _ in range(w):
        s = B64[v & 63] + s; v >>= 6
    return s


def free_ports(n):
    socks = []
    for _ in range(n):
        s = socket.socket(); s.bind(('127.0.0.1', 0)); socks.append(s)
    ps = [s.getsockname()[1] for s in socks]
    for s in socks: s.close()
    return ps


CONF = '''
General { name = "irc.example.net"; vhost = "127.0.0.1"; description = "demo"; numeric = 1; };
Admin { Location = "here"; Contact = "root@localhost"; };
Class { name = "Server"; pingfreq = 90 seconds; connectfreq = 5 minutes; sendq = 9 megabytes; maxlinks = 10; };
Class { name = "Local"; pingfreq = 90 seconds; sendq = 160000; maxlinks = 100; };
Client { ip = "127.*"; class = "Local"; };
%(extra)s
Connect { name = "services.test.net"; host = "127.0.0.1"; password = "testpass"; class = "Server"; autoconnect = no; hub; };
Port { server = yes; port = %(sport)d; };
Port { port = %(cport)d; };
Features { "HUB" = "TRUE"; "CONFIG_OPERCMDS" = "TRUE"; "CHANNELLEN" = "50"; "MAXCHANNELSPERUSER" = "20"; "NODNS" = "TRUE"; "NOIDENT" = "TRUE"; "IPCHECK_CLONE_LIMIT" = "60";
%(features)s };
'''

OPER = 'Operator { local = no; class = "Local"; host = "*@127.*"; password = "$PLAIN$oper"; name = "oper"; %s };\n'


class Ircd:
    def __init__(self, extra='', features='', opers=True):
        self.cport, self.sport = free_ports(2)
        self.dir = tempfile.mkdtemp(prefix='ircdemo-')
        os.chmod(self.dir, 0o755)
        if opers: extra = OPER % '' + extra
        with open(self.dir + '/ircd.conf', 'w') as f:
            f.write(CONF % {'extra': extra, 'features': features, 'sport': self.sport, 'cport': self.cport})
        spath = '/opt/ircu/bin/ircd'
        if os.getuid() == 0 and not os.path.exists(spath):
            # ircd insists that the path compiled in for RESTART exists
            os.makedirs('/opt/ircu/bin', exist_ok=True)
            if not os.path.lexists(spath): os.symlink(REPO + '/ircd/ircd', spath)
        cmd = [REPO + '/ircd/ircd', '-n', '-x', '3', '-f', self.dir + '/ircd.conf', '-d', self.dir]
        if os.getuid() == 0:
            os.chown(self.dir, 65534, 65534)
            cmd = ['setpriv', '--reuid=65534', '--regid=65534', '--clear-groups'] + cmd
        self.log = open(self.dir + '/out.log', 'w+b')
        self.p = subprocess.Popen(cmd, stdout=self.log, stderr=self.log, stdin=subprocess.DEVNULL, cwd=self.dir)
        for _ in range(100):
            try:
                socket.create_connection(('127.0.0.1', self.cport), 1).close(); break
            except OSError:
                if self.p.poll() is not None: break
                time.sleep(0.1)
        if self.p.poll() is not None:
            self.log.seek(0); sys.stdout.write(self.log.read().decode('latin1')[-2000:])
            self.stop(); raise SystemExit('ircd did not start')

    def alive(self): return self.p.poll() is None

    def stop(self):
        if self.p.poll() is None:
            self.p.kill()
        self.p.wait()
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self): return self
    def __exit__(self, *a): self.stop()


class Conn:
    def __init__(self, port):
        self.s = socket.create_connection(('127.0.0.1', port), 5)
        self.s.settimeout(0.2)
        self.buf = b''; self.lines = []; self.closed = False; self.pos = 0

    def send(self, *ls):
        for l in ls:
            try: self.s.sendall(l.encode('latin1') + b'\r\n')
            except OSError: self.closed = True

    def pump(self, t=0.2):
        end = time.time() + t
        while time.time() < end:
            try:
                d = self.s.recv(65536)
            except socket.timeout:
                continue
            except OSError:
                self.closed = True; return
            if not d:
                self.closed = True; return
            self.buf += d
            while b'\n' in self.buf:
                l, self.buf = self.buf.split(b'\n', 1)
                l = l.rstrip(b'\r').decode('latin1')
                self.auto(l)
                self.lines.append(l)

    def auto(self, l):
        if l.startswith('@') and ' ' in l: l = l.split(' ', 1)[1]
        if l.startswith('PING '): self.send('PONG ' + l[5:])

    def wait(self, pred, t=5.0):
        """first line from the current position on that satisfies pred (string: substring)"""
        f = pred if callable(pred) else (lambda l: pred in l)
        end = time.time() + t
        while True:
            while self.pos < len(self.lines):
                l = self.lines[self.pos]; self.pos += 1
                if f(l): return l
            if time.time() > end or self.closed: return None
            self.pump(0.1)

    _n = 0

    def sync(self):
        """everything sent so far has been processed; returns the lines received since the last sync"""
        start = self.pos
        Conn._n += 1
        tok = 'sync%d' % Conn._n
        self.send('PING :' + tok)
        self.wait(tok, 5)
        return self.lines[start:self.pos]

    def close(self):
        try: self.s.close()
        except OSError: pass


class Client(Conn):
    def __init__(self, d, nick, user=None, caps=None, register=True, oper=None):
        Conn.__init__(self, d.cport)
        self.nick = nick
        if register:
            if caps: self.send('CAP REQ :' + caps)
            self.send('NICK ' + nick, 'USER %s 0 * :%s' % (user or nick, nick))
            if caps: self.send('CAP END')
            if not self.wait(' 001 ', 15): raise SystemExit('client %s did not register: %r' % (nick, self.lines[-5:]))
            self.sync()
            if oper:
                self.send('OPER %s oper' % oper)
                if not self.wait(' 381 '): raise SystemExit('OPER failed: %r' % self.lines[-5:])
                self.sync()


class Server(Conn):
    """a fake server linked over the P10 protocol"""
    def __init__(self, d, name='services.test.net', numeric=4, password='testpass', flags='s', users=()):
        Conn.__init__(self, d.sport)
        self.name = name; self.num = b64(numeric, 2); self.n = 0; self.synced = False
        now = int(time.time())
        self.send('PASS :' + password, 'SERVER %s 1 %d %d J10 %s%s +%s :fake' % (name, now, now, self.num, b64(63, 3), flags))
        if not self.wait(lambda l: l.split(' ')[1:2] == ['EB'], 10): raise SystemExit('link failed: %r' % self.lines[-5:])
        self.nums = {}
        for u in users: self.user(u)
        self.send(self.num + ' EB')
        self.send(self.num + ' EA')
        self.wait(lambda l: l.split(' ')[1:2] == ['EA'], 5)
        self.sync()

    def auto(self, l):
        p = l.split(' ')
        if len(p) > 1 and p[1] == 'G':
            self.send('%s Z %s %s' % (self.num, p[0], ' '.join(p[2:])))

    def sync(self):
        start = self.pos
        Conn._n += 1
        tok = 'ssync%d' % Conn._n
        self.send('%s G :%s' % (self.num, tok))
        self.wait(lambda l: ' Z ' in l and tok in l, 5)
        return self.lines[start:self.pos]

    def user(self, nick, modes='+i', ts=None, host='remote.host', ident='user', account=None):
        n = self.num + b64(self.n, 3); self.n += 1
        self.send('%s N %s 1 %d %s %s %s B]AAAB %s :remote user' % (self.num, nick, ts or int(time.time()) - 100, ident, host, modes, n))
        self.nums[nick] = n
        return n


def check(cond, msg):
    if not cond:
        print('FAIL: ' + msg)
        raise SystemExit(1)
    print('ok: ' + msg)
