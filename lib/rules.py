"""Rule templates on top of the abstract interpreter."""
import re, os, json
from front import AnalysisBroken, VERIF
from ir import Program
from absint import Analysis, T, S, isT, trace_lines, path as tpath, mkbin, mkcmp, atom_of, E

FROZEN = None


def frozen():
    global FROZEN
    if FROZEN is None:
        with open(os.path.join(VERIF, 'lib', 'frozen.json')) as f:
            FROZEN = set(json.load(f))
    return FROZEN


PURESTR = ('strcmp', 'ircd_strcmp', 'strncmp', 'ircd_strncmp', 'strcasecmp', 'strncasecmp')


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.obl = {}          # key -> dict(count, ok, where)
        self.viol = {}         # (rule, where) -> message
        self.functions = set()
        self.notes = []
        self.samples = []
        self.states = 0
        self.steps = 0
        self.minimums = []

    def ob(self, rule, where, ok, msg=None, trace=None, ident=None):
        k = (rule, where)
        o = self.obl.setdefault(k, [0, 0])
        o[0] += 1
        if ok:
            o[1] += 1
        else:
            self.viol.setdefault((rule, ident or where), {'rule': rule, 'where': where, 'message': msg or '', 'path': trace or []})

    def need(self, rule, n):
        """at least n distinct locations must have matched the rule"""
        self.minimums.append((rule, n))

    def check_min(self):
        for rule, n in self.minimums:
            c = len({w for r, w in self.obl if r == rule})
            if c < n:
                raise AnalysisBroken('%s: rule "%s" matched %d construct(s), expected at least %d' % (self.pid, rule, c, n))

    def broken(self, msg):
        raise AnalysisBroken('%s: %s' % (self.pid, msg))


class K:
    """names -> values (flags, privileges, numerics...)"""
    def __init__(self, prog):
        self.p = prog
        self.v = dict(prog.enums)
        for g, go in prog.globals.items():
            if g.startswith('K_') and isinstance(go.get('init'), int):
                self.v[g[2:]] = go['init']

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        try:
            return self.v[n]
        except KeyError:
            raise AnalysisBroken('constant not found: ' + n)


def fld(X, f):
    """unversioned string of a field of the object X points at"""
    if X.startswith('&'):
        return X[1:] + '.' + f
    return X + '->' + f


class Q:
    """Query on a state's record of branch conditions (strings are unversioned terms)."""
    def __init__(self, an, st):
        self.an = an; self.st = st; self.seen = st.seen; self.k = an.k

    def has(self, p, a, b, truth):
        if p == 'eq' and isinstance(b, str) and b < a:
            a, b = b, a
        return (p, a, b, truth) in self.seen

    def nz(self, X):
        if ('eq', X, 0, False) in self.seen:
            return True
        for (p, a, b, t) in self.seen:
            if a == X and not isinstance(b, str):
                if p == 'eq' and t and b != 0: return True
                if p == 'slt' and not t and b > 0: return True
        return False

    def z(self, X): return ('eq', X, 0, True) in self.seen

    def eq(self, X, c): return self.has('eq', X, c, True)
    def ne(self, X, c):
        if self.has('eq', X, c, False): return True
        if not isinstance(c, str):
            for (p, a, b, t) in self.seen:
                if a == X and p == 'eq' and t and not isinstance(b, str) and b != c: return True
        return False

    # --- domain vocabulary
    def flagx(self, X, n):
        v = getattr(self.k, n)
        return '(%s[%d]&%d)' % (fld(X, 'Client.cli_flags.Flags.bits'), v // 64, 1 << (v % 64))

    def flag(self, X, n): return self.nz(self.flagx(X, n))
    def noflag(self, X, n): return self.z(self.flagx(X, n))

    def privx(self, X, n):
        v = getattr(self.k, n)
        return '(%s->Connection.con_privs.Privs.bits[%d]&%d)' % (fld(X, 'Client.cli_connect'), v // 64, 1 << (v % 64))

    def priv(self, X, n): return self.nz(self.privx(X, n))
    def nopriv(self, X, n): return self.z(self.privx(X, n))

    def connx(self, X): return fld(X, 'Client.cli_connect') + '->Connection.con_client'
    def mycon(self, X): return self.eq(self.connx(X), X) or self.eq(fld(X, 'Client.cli_hopcount'), 0)
    def notmycon(self, X): return self.ne(self.connx(X), X)
    def statx(self, X): return fld(X, 'Client.cli_status')
    def isuser(self, X): return self.eq(self.statx(X), self.k.STAT_USER)
    def notuser(self, X): return self.ne(self.statx(X), self.k.STAT_USER)
    def isserver(self, X): return self.eq(self.statx(X), self.k.STAT_SERVER)
    def notserver(self, X): return self.ne(self.statx(X), self.k.STAT_SERVER)
    def isme(self, X): return self.eq(self.statx(X), self.k.STAT_ME)
    def notme(self, X): return self.ne(self.statx(X), self.k.STAT_ME)
    def isoper(self, X): return self.flag(X, 'FLAG_OPER')
    def isanoper(self, X): return self.isoper(X) or (self.flag(X, 'FLAG_LOCOP') and self.mycon(X)) or self.flag(X, 'FLAG_LOCOP')

    def feat(self, n): return self.nz('feature_bool(%d)' % getattr(self.k, n))
    def nofeat(self, n): return self.z('feature_bool(%d)' % getattr(self.k, n))

    def any(self, rx):
        r = re.compile(rx)
        return [a for a in self.seen if r.search('%s %s %s %s' % (a[0], a[1], a[2], a[3]))]

    def fact(self, term):
        return self.an.fact(self.st, term)

    def decide(self, c):
        return self.an.decide(self.st, c)


ARG2 = T('arg', 2)
ARG3 = T('arg', 3)


class Ev:
    __slots__ = ('name', 'args', 'terms', 'f', 'ins', 'ctx', 'st', 'q', 'callee')


def addrkey(addr):
    if addr.k == 'f': return addr.a[1]
    if addr.k == 'ix':
        a = addr
        while isT(a) and a.k == 'ix': a = a.a[0]
        if isT(a) and a.k == 'f': return a.a[1]
        if isT(a) and a.k == 'g': return 'g:' + a.a[0]
    elif addr.k == 'g': return 'g:' + addr.a[0]
    return None


STABLE_DEFAULT = {'Client.cli_connect', 'Connection.con_client', 'Client.cli_user', 'Client.cli_name', 'Client.cli_serv', 'Client.cli_status',
                  'User.server'}


class Guard(Analysis):
    """events: {callee or regex: handler(ev)}; the handler reports obligations."""
    DEEPER = 1      # how many times more states are kept apart, for a second look at what a first look could not settle
    def __init__(self, prog, rep, relevant=None, inline=None, inline_mods=True, depth=None, stable=None, K=None, KLOOP=None, pure=()):
        Analysis.__init__(self, prog, frozen())
        self.k = KS(prog)
        self.rep = rep
        # regular expressions over "lhs rhs" of an atom, or predicates over the atom itself
        self.rel = [re.compile(r) for r in relevant if not callable(r)] if relevant is not None else None
        self.relfn = [r for r in relevant or () if callable(r)]
        self.forget = None     # regex: atoms dropped at every loop head
        self._relcache = {}
        self.inl = set(inline or ())
        self.inline_static = inline_mods
        self.calls = {}
        self.rx = []
        self.stores = {}
        self.retcb = None
        self.indirect_cb = None
        self.handler = False
        self.purefn = set(pure) | {'feature_bool', 'feature_int', 'feature_str', 'feature_uint'}
        self.stable = STABLE_DEFAULT if stable is None else stable
        if depth: self.MAXDEPTH = depth
        if K: self.K = K
        if KLOOP: self.KLOOP = KLOOP
        self.K *= Guard.DEEPER; self.KLOOP *= Guard.DEEPER
        self.noinline = set()
        self.models = {}
        self.afters = {}
        self.simple = {}
        self.storerx = []
        self.loads = {}
        self.memops = None     # called before memset/memcpy/memmove

    def kill(self, st, keys, site, addrs=()):
        if self.stable:
            keys = {k for k in keys if k not in self.stable}
        Analysis.kill(self, st, keys, site, addrs)

    def fact(self, st, t):
        r = Analysis.fact(self, st, t)
        # dispatcher invariant: parv[i] is a string for every i < parc
        if isT(t) and t.k == 'ld' and self.handler and r[0] <= 0:
            a = t.a[0]
            if isT(a) and a.k == 'ix' and a.a[0] is ARG3 and not isT(a.a[1]):
                lo = Analysis.fact(self, st, ARG2)[0]
                if lo > a.a[1] >= 0:
                    return (1, r[1], r[2])
            elif a is ARG3:
                if Analysis.fact(self, st, ARG2)[0] > 0:
                    return (1, r[1], r[2])
        return r

    def relevant(self, at):
        if self.rel is None:
            return True
        r = self._relcache.get(at)
        if r is None:
            s = '%s %s' % (at[1], at[2])
            r = self._relcache[at] = any(x.search(s) for x in self.rel) or any(x(at) for x in self.relfn)
        return r

    def at_head(self, st, f, b, ctx):
        if self.forget is not None and st.seen:
            keep = frozenset(a for a in st.seen if not self.forget.search(a[1]))
            if len(keep) != len(st.seen):
                st.seen = keep

    def inline(self, g, ctx, args):
        if g.name in self.noinline or g.key in self.noinline or g.name in self.calls:
            return False
        if g.key in self.inl or g.name in self.inl:
            return True
        return self.inline_static and g.internal and g.mod == self.curmod(ctx) and not g.vararg

    def curmod(self, ctx):
        if ctx:
            return self.p.funcs[self.siteinfo[ctx[-1] - 1][1]].mod
        return self.entry.mod

    def isnew(self, g):
        if g.name in self.calls or g.vararg:
            return False
        return Analysis.isnew(self, g)

    def model(self, name, args, st):
        m = self.models.get(name)
        if m is not None:
            return m(args, st)
        if name in self.purefn:
            return T('call', 0, name, *args)
        if name in PURESTR:
            # same strings, same answer, while no byte of memory changed
            return T('call', st.fver.get('*i8', 0), name, *args)
        return None

    def call(self, names, fn):
        for n in ([names] if isinstance(names, str) else names):
            self.calls[n] = fn

    def ev(self, st, f, ins, args, ctx, callee=None):
        e = Ev()
        e.callee = callee; e.terms = args; e.args = [S(a) for a in args]; e.f = f; e.ins = ins; e.ctx = ctx; e.st = st
        e.q = Q(self, st)
        return e

    def where(self, e):
        w = '%s:%s (%s)' % ('ircd/' + e.f.mod, e.ins[2], e.f.name)
        return w

    def on_call(self, st, f, ins, callee, args, ctx):
        h = self.calls.get(callee)
        if h is not None:
            r = h(self.ev(st, f, ins, args, ctx, callee))
            return None if r.__class__ is bool else r
        if callee is None and self.indirect_cb is not None:
            return self.indirect_cb(self.ev(st, f, ins, args, ctx, callee))
        for rx, h in self.rx:
            if callee and rx.match(callee):
                r = h(self.ev(st, f, ins, args, ctx, callee))
                return None if r.__class__ is bool else r
        return None

    def after_call(self, st, f, ins, callee, args, ret, ctx):
        h = self.afters.get(callee)
        if h is not None:
            e = self.ev(st, f, ins, args, ctx, callee)
            h(e, ret)

    def on_store(self, st, f, ins, addr, val, ctx):
        if isT(addr):
            k = None
            if addr.k == 'f': k = addr.a[1]
            elif addr.k == 'ix':
                a = addr
                while isT(a) and a.k == 'ix': a = a.a[0]
                if isT(a) and a.k == 'f': k = a.a[1]
                elif isT(a) and a.k == 'g': k = 'g:' + a.a[0]
            elif addr.k == 'g': k = 'g:' + addr.a[0]
            h = self.stores.get(k)
            if h is not None:
                e = self.ev(st, f, ins, [addr, val], ctx, k)
                h(e)

    def on_load(self, st, f, ins, addr, ctx):
        if self.loads and isT(addr):
            k = addrkey(addr)
            h = self.loads.get(k)
            if h is not None:
                h(self.ev(st, f, ins, [addr], ctx, k))

    def on_mem(self, st, f, ins, what, args, ctx):
        if self.memops is not None:
            self.memops(self.ev(st, f, ins, args, ctx, what))

    def on_ret(self, st, f, ins, val, ctx):
        if self.retcb and not ctx:
            e = self.ev(st, f, ins, [val], ctx, 'ret')
            self.retcb(e)

    def require(self, e, rule, ok, msg):
        w = self.where(e)
        tr = None
        if not ok:
            tr = ['entry ' + (self.entry.name if self.entry else '?')] + trace_lines(e.st, 14)
        self.rep.ob(rule, w, ok, '%s [entry %s]' % (msg, self.entry.name if self.entry else '?'), tr)
        return ok

    def entryrun(self, fn, setup=None, args=None):
        f = self.p.fn(fn) if isinstance(fn, str) else fn
        # command handlers: (cptr, sptr, parc, parv)
        self.handler = bool(re.match(r'm[sor]?_', f.name)) and f.nargs == 4
        ex = self.run_entry(fn, setup, args)
        self.rep.functions |= self.analysed
        self.rep.states += len(ex)
        self.rep.steps = max(self.rep.steps, 0) + self.steps
        self.steps = 0
        return ex


_KS = {}


def KS(prog):
    k = _KS.get(id(prog))
    if k is None:
        k = _KS[id(prog)] = K(prog)
    return k


# ---------------------------------------------------------------- dispatch table
ROLES = ('unreg', 'client', 'server', 'oper', 'service')


class Msg:
    __slots__ = ('cmd', 'tok', 'params', 'flags', 'h', 'extra')


def msgtab(prog):
    """all commands of the dispatch table"""
    g = prog.globals.get('msgtab') or prog.globals.get('msgtab@parse.c')
    if not g or 'init' not in g:
        raise AnalysisBroken('dispatch table not found')
    out = []
    init = g['init']
    if init[0] != 'arr':
        raise AnalysisBroken('dispatch table has an unexpected form')
    for e in init[1]:
        if e[0] == 'zero':
            continue
        if e[0] != 'st':
            raise AnalysisBroken('dispatch table entry of unexpected form')
        d = {n.split('.', 1)[1]: v for n, v in e[2]}
        if d['cmd'] == 0:
            continue
        m = Msg()
        m.cmd = d['cmd'][1]; m.tok = d['tok'][1] if isinstance(d['tok'], list) else None
        m.params = d['parameters']; m.flags = d['flags']; m.extra = d.get('extra')
        hs = d['handlers']
        if hs[0] == 'zero':
            m.h = [None] * 5
        else:
            m.h = [x[1] if isinstance(x, list) else None for x in hs[1]]
        out.append(m)
    if len(out) < 80:
        raise AnalysisBroken('dispatch table has only %d commands' % len(out))
    return out


def handlers(prog, cmd, roles=('unreg', 'client', 'oper')):
    """distinct handler functions of a command for the given roles"""
    for m in msgtab(prog):
        if m.cmd == cmd:
            out = []
            for r in roles:
                h = m.h[ROLES.index(r)]
                if h and h not in out:
                    out.append(h)
            return out
    raise AnalysisBroken('command %s not in the dispatch table' % cmd)


def all_handlers(prog, roles):
    out = {}
    for m in msgtab(prog):
        for r in roles:
            h = m.h[ROLES.index(r)]
            if h:
                out.setdefault(h, set()).add((m.cmd, r))
    return out
