"""helpers shared by the check modules"""
import re
from rules import *
from absint import T, S, isT, mkcmp, mkbin, atom_of, E, memkey, path
from framework import prop, not_applicable
from front import AnalysisBroken

LOCAL = ('unreg', 'client', 'oper')


def selfargs():
    a = T('arg', 1)
    return [a, a, T('arg', 2), T('arg', 3)]


def run_cmd(prog, rep, cmd, build, roles=LOCAL, selfconn=True, skip=('m_ignore', 'm_not_oper', 'm_unregistered', 'm_registered'), **kw):
    """analyse every handler the dispatch table gives to the roles"""
    by = {}
    for m in msgtab(prog):
        if m.cmd == cmd:
            for r in roles:
                h = m.h[ROLES.index(r)]
                if h and h not in skip:
                    by.setdefault(h, []).append(r)
            break
    else:
        raise AnalysisBroken('command %s is not in the dispatch table' % cmd)
    for h, rs in by.items():
        g = Guard(prog, rep, **kw)
        g.roles = set(rs)
        build(g)
        g.entryrun(h, args=selfargs() if selfconn else None)
    return by


def deref(t):
    """string of the value at address t"""
    return S(T('ld', t, E))


def ivals(g, st, t):
    """(lo, hi) interval of a term"""
    if not isT(t):
        return t, t
    f = g.fact(st, t)
    return f[0], f[1]


def surely_set(g, st, t, mask):
    """every bit of mask is set in t"""
    r = mkbin('and', t, mask)
    if not isT(r):
        return r == mask
    c = mkcmp('eq', r, mask)
    d = g.decide(st, c) if isT(c) else bool(c)
    return d is True


def surely_clear(g, st, t, mask):
    r = mkbin('and', t, mask)
    if not isT(r):
        return r == 0
    c = mkcmp('eq', r, 0)
    d = g.decide(st, c) if isT(c) else bool(c)
    return d is True


def strarg(t):
    return t.a[0] if isT(t) and t.k == 's' else None


SEND_CMD = ('sendcmdto_one', 'sendcmdto_prio_one', 'sendcmdto_serv_butone', 'sendcmdto_flag_serv_butone', 'sendcmdto_common_channels_butone',
            'sendcmdto_channel_butserv_butone', 'sendcmdto_channel_servers_butone', 'sendcmdto_channel_butone', 'sendcmdto_match_butone')

# ------------------------------------------------ which branch conditions a rule records
Z = ('eq', 0, True)
NZ = ('eq', 0, False)


def pol(rx, *ts):
    """atoms `term pred const` with the given polarity only (evidence for a rule)"""
    r = re.compile(rx)
    return lambda at: any(at[0] == p and at[2] == b and at[3] == t for p, b, t in ts) and bool(r.search(at[1]))


def pred(rx, ps, t=None):
    r = re.compile(rx)
    return lambda at: at[0] in ps and (t is None or at[3] == t) and bool(r.search('%s %s' % (at[1], at[2])))


def flagrx(k, *names):
    return '|'.join(r'Flags\.bits\[%d\]&%d\)' % (getattr(k, n) // 64, 1 << (getattr(k, n) % 64)) for n in names)


def privrx(k, *names):
    return '|'.join(r'Privs\.bits\[%d\]&%d\)' % (getattr(k, n) // 64, 1 << (getattr(k, n) % 64)) for n in names)


def bit(q, X, m):
    """value of the bits m of the word X according to the conditions taken: m-masked value or None"""
    val = 0; known = 0
    rx = '(%s&' % X
    for (p, a, b, t) in q.seen:
        if p == 'eq' and isinstance(a, str) and a.startswith(rx) and not isinstance(b, str):
            try:
                M = int(a[len(rx):-1])
            except ValueError:
                continue
            if t:
                known |= M; val |= b & M
            elif M & (M - 1) == 0:
                known |= M; val |= (M ^ b) & M
        elif p == 'eq' and a == X and t and not isinstance(b, str):
            return b & m
    return val & m if (known & m) == m else None


def isset(q, X, m): return bit(q, X, m) == m
def isclr(q, X, m): return bit(q, X, m) == 0


def link(C, X): return 'find_member_link(%s,%s)' % (C, X)


def member(q, C, X):
    L = link(C, X)
    return q.nz(L) and isclr(q, L + '->Membership.status', q.k.CHFL_ZOMBIE)


def chanop(q, C, X):
    return member(q, C, X) and isset(q, link(C, X) + '->Membership.status', q.k.CHFL_CHANOP)


PREDS = {'is_chan_op', 'find_channel_member', 'is_zombie', 'has_voice'}


def strs(q, extra=()):
    """every term string mentioned in a condition"""
    out = set(extra)
    for (p, a, b, t) in q.seen:
        out.add(a)
        if isinstance(b, str): out.add(b)
    return out


def order_holds(q, A, B, prop, consts=()):
    """does prop(a, b) hold for every pair of values of the integers A, B the conditions allow?
    Case enumeration over the order of A and B and of each against the constants compared."""
    cs = set(consts)
    ats = []
    for (p, a, b, t) in q.seen:
        if p not in ('eq', 'slt', 'sle', 'ult', 'ule'): continue
        names = [x for x in (a, b) if isinstance(x, str)]
        if names and all(x in (A, B) for x in names):
            ats.append((p, a, b, t))
            for x in (a, b):
                if not isinstance(x, str): cs.add(x)
    vals = sorted({v + d for v in cs | {0} for d in (-2, -1, 0, 1, 2) if v + d >= 0})
    for x in vals:
        for y in vals:
            env = {A: x, B: y}
            ok = True
            for p, a, b, t in ats:
                u = env.get(a, a); v = env.get(b, b)
                r = u == v if p == 'eq' else u < v if p in ('slt', 'ult') else u <= v
                if r != t: ok = False; break
            if ok and not prop(x, y): return False
    return True


def gline_inactive(q, X):
    """no G-line found, or the one found is not in force"""
    if q.z(X): return True
    k = q.k
    act = bit(q, X + '->Gline.gl_flags', k.GLINE_ACTIVE)
    for s in (k.GLOCAL_GLOBAL, k.GLOCAL_ACTIVATED, k.GLOCAL_DEACTIVATED):
        if any(a == X + '->Gline.gl_state' and not isinstance(b, str) and (p == 'eq' and (s == b) != t) for p, a, b, t in q.seen): continue
        for v in ([act] if act is not None else [0, 1]):
            if (v and s != k.GLOCAL_DEACTIVATED) or s == k.GLOCAL_ACTIVATED: return False
    return True


def stores_below(prog, f, field):
    """does f itself store something other than a constant to memory reached through the given field?"""
    prog.modsets()
    for b in f.blocks:
        for ins in b:
            if ins[0] != 'store' or not isinstance(ins[3], list): continue
            o = ins[4]
            for _ in range(12):
                if "'%s'" % field in repr(o): return True
                d = f.defs.get(o[1]) if isinstance(o, list) and o and o[0] == 'v' else None
                if d is None or d[0] not in ('gep', 'cast'): break
                if "'%s'" % field in repr(d): return True
                o = d[3] if d[0] == 'gep' else d[4]
    return False


def allcalls(prog, rx):
    """(function, call instruction, callee) of every call that may reach a function whose name matches"""
    r = re.compile(rx)
    for f in prog.funcs.values():
        for b in f.blocks:
            for ins in b:
                if ins[0] != 'call': continue
                c = ins[3]
                if isinstance(c, list) and c[0] == 'g':
                    if r.match(c[1]): yield f, ins, c[1]
                else:
                    for t in prog.targets(f, ins):
                        if r.match(t): yield f, ins, t


def isG(o, name):
    return isinstance(o, list) and len(o) == 2 and o[0] == 'g' and o[1] == name


def cstr(o):
    return o[1] if isinstance(o, list) and o and o[0] == 's' else None


class WalkGuard(Guard):
    """List walks: whenever an iteration of an outermost loop of a watched function ends and the next one starts, the reason for moving on is judged."""
    def __init__(self, *a, **kw):
        Guard.__init__(self, *a, **kw)
        self.walks = {}          # function name -> callback(event, head)
        self.drop = re.compile('.')
        self.inners = False      # judge inner loops too

    def at_head(self, st, f, b, ctx):
        cb = self.walks.get(f.name)
        if cb is not None and (self.inners or not any(b in body and h != b for h, body in f.loops.items())):
            t = ('walk', f.key, b)
            if t in st.tags:
                e = self.ev(st, f, f.blocks[b][0], [], ctx, 'next')
                e.ins = next((i for i in f.blocks[b] if i[2]), e.ins)
                cb(e, b)
            st.tags = frozenset(st.tags | {t})
            st.seen = frozenset(a for a in st.seen if not self.drop.search('%s %s' % (a[1], a[2])))
        Guard.at_head(self, st, f, b, ctx)


def jupe_clear(q, sub):
    """no jupe found for the name (mentioned by sub), or the one found is not in force"""
    k = q.k
    return any(a[0] == 'eq' and 'jupe_find(' in a[1] and sub in a[1] and (
        (a[2] == 0 and a[3] is True and ('ju_flags' not in a[1] or 'ju_flags&%d)' % k.JUPE_ACTIVE in a[1]))
        or (a[2] == 0 and a[3] is False and 'ju_flags&%d)' % k.JUPE_LDEACT in a[1])
        or ('ju_flags&%d)' % (k.JUPE_ACTIVE | k.JUPE_LDEACT) in a[1] and not isinstance(a[2], str) and (a[2] == k.JUPE_ACTIVE) != a[3])) for a in q.seen)


def parallel(rep, jobs, width=None):
    """run the jobs (functions of a report) in forked processes and gather their reports and results; jobs are dealt out round robin"""
    import os, pickle
    from rules import Report
    n = min(width or os.cpu_count() or 1, len(jobs))
    if n <= 1: return [j(rep) for j in jobs]
    kids = []
    for i in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                mine = Report(rep.pid); res = []; err = None
                try:
                    for j in range(i, len(jobs), n): res.append((j, jobs[j](mine)))
                except AnalysisBroken as x: err = str(x)
                with os.fdopen(w, 'wb') as o: pickle.dump((mine.obl, mine.viol, mine.functions, mine.states, mine.steps, mine.notes, res, err), o)
                code = 0
            finally: os._exit(code)
        os.close(w); kids.append((pid, r))
    out = {}; broken = None
    for pid, r in kids:
        with os.fdopen(r, 'rb') as f: data = f.read()
        os.waitpid(pid, 0)
        if not data: broken = broken or 'a part of the analysis did not finish'; continue
        obl, viol, fns, states, steps, notes, res, err = pickle.loads(data)
        for k, (a, b) in obl.items():
            o = rep.obl.setdefault(k, [0, 0]); o[0] += a; o[1] += b
        for k, v in viol.items(): rep.viol.setdefault(k, v)
        rep.functions |= fns; rep.states += states; rep.steps += steps; rep.notes += notes
        out.update(res)
        broken = broken or err
    if broken: raise AnalysisBroken(broken)
    return [out[j] for j in sorted(out)]
